// Single histories from given starts, with everything they score.
#include "xsj.hpp"
#include "h5r.hpp"
#include "util/h5file.hpp"
#include "mc/particle_pusher.hpp"
static uint64_t num(const json &l)
{
    uint64_t v = 0;
    for (int i = (int)l.size() - 1; i >= 0; i--) v = (v << 15) | l[i].get<uint64_t>();
    return v;
}
static json one(const json &c)
{
    pugi::xml_document doc;
    hv::load(c, doc);
    CoreMesh mesh(doc);
    XSMesh xs(mesh, MeshTreatment::TRUE);
    json r;
    r["xs"]   = hv::xsj(xs, false);
    r["vol"]  = hv::vecj(mesh.volumes(MeshTreatment::TRUE));
    r["pvol"] = hv::vecj(mesh.coarse_volume());
    r["hist"] = json::array();
    for (auto &h : c["hist"]) {
        mc::ParticlePusher push(mesh, xs);
        push.set_seed(num(c["seed"]));
        Point3 at(h["p"][0].get<double>(), h["p"][1].get<double>(), h["p"][2].get<double>());
        Direction d = hv::direction(h["o"][0].get<double>(), h["o"][1].get<double>(), h["o"][2].get<double>());
        mc::Particle p(at, d, h["g"].get<int>(), (unsigned)num(h["id"]));
        p.weight = h["w"].get<double>();
        push.simulate(p, true);
        std::remove("mc.h5");
        { H5Node f("mc.h5", H5Access::WRITE); push.output(f); }
        hv::H5R f("mc.h5");
        json o{{"fine", json::array()}, {"pin", json::array()}, {"col", json::array()}, {"sites", json::array()}, {"id", (int)num(h["id"])}};
        for (int g = 1; g <= xs.n_group(); g++) {
            char b[8];
            std::snprintf(b, 8, "%03d", g);
            o["fine"].push_back(f.v(std::string("fsr_flux/") + b));
            o["pin"].push_back(f.v(std::string("flux/") + b));
            o["col"].push_back(f.v(std::string("fsr_flux_col/") + b));
        }
        o["pow"]  = f.v("pin_power");
        o["ktl"]  = push.k_tally_tl().get().first;
        o["kcol"] = push.k_tally_col().get().first;
        for (auto &q : push.fission_bank())
            o["sites"].push_back({{"p", {q.location_global.x, q.location_global.y, q.location_global.z}}, {"o", {q.direction.ox, q.direction.oy, q.direction.oz}}, {"g", q.group}, {"id", (int)q.id}});
        r["hist"].push_back(o);
    }
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
