#include "geo.hpp"
#include "core/material_lib.hpp"
static json mat(const Material &m)
{
    json r;
    r["ab"] = hv::arr(m.xsab());
    r["nf"] = hv::arr(m.xsnf());
    r["f"]  = hv::arr(m.xsf());
    r["chi"] = hv::arr(m.xsch());
    r["tr"]  = hv::arr(m.xstr());
    r["sc"]  = hv::vecj(m.xssc().as_vector());
    r["fissile"] = m.is_fissile() ? 1 : 0;
    r["has"] = 1;
    return r;
}
static json one(const json &c)
{
    pugi::xml_document doc;
    hv::load(c, doc);
    MaterialLib lib(doc.child("material_lib"));
    json r;
    r["ng"]     = lib.n_group();
    r["bounds"] = hv::vecj(lib.g_bounds());
    r["n"]      = lib.n_materials();
    r["mats"] = r["listed"] = json::array();
    int free = 1;
    for (auto &a : c["assign"]) {
        int id   = a["id"];
        json m   = mat(id % 2 ? lib[id] : lib.get_material_by_id(id));
        m["has"] = lib.has(id) ? 1 : 0;
        m["idx"] = lib.get_index_by_id(id);
        r["mats"].push_back(m);
        free = std::max(free, id + 1);
    }
    r["hasother"] = lib.has(free) ? 1 : 0;
    for (auto &m : lib) r["listed"].push_back(mat(m));
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
