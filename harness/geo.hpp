// Build a mesh from the XML text and library text of a case.
#pragma once
#include "common.hpp"
#include "pugixml.hpp"
#include "core/core_mesh.hpp"
#include "core/constants.hpp"
#include "core/geometry/direction.hpp"
#include "util/files.hpp"
#include "util/timers.hpp"
using namespace mocc;
namespace hv {
inline void load(const json &c, pugi::xml_document &doc)
{
    RootTimer = Timer("MOCC");   // timers are per program run
    std::ofstream f("lib.xsl");
    f << c["lib"].get<std::string>();
    f.close();
    std::string x = c["xml"].get<std::string>();
    auto r        = doc.load_string(x.c_str());
    if (!r) throw std::runtime_error(std::string("xml: ") + r.description());
}
inline Direction direction(double x, double y, double z)
{
    double n = std::sqrt(x * x + y * y + z * z);
    Direction d;
    d.ox = x / n; d.oy = y / n; d.oz = z / n;
    d.theta = std::acos(d.oz);
    d.alpha = std::atan2(d.oy, d.ox);
    if (d.alpha < 0) d.alpha += TWOPI;
    return d;
}
inline json vecj(const VecF &v) { json r = json::array(); for (double x : v) r.push_back(x); return r; }
template <class V> json arr(const V &v) { json r = json::array(); for (auto x : v) r.push_back(x); return r; }
static const MeshTreatment treatments[4] = {MeshTreatment::TRUE, MeshTreatment::PIN, MeshTreatment::PLANE,
                                            MeshTreatment::PIN_PLANE};
}
