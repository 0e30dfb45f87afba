#include "geo.hpp"
#include "core/pin_mesh.hpp"
static json one(const json &c)
{
    pugi::xml_document doc;
    std::string x = c["xml"];
    doc.load_string(x.c_str());
    std::unique_ptr<PinMesh> pm(PinMeshFactory(doc.child("mesh")));
    double h = 0.5 * pm->pitch_x();
    json r;
    r["pts"] = r["outs"] = r["ons"] = r["trs"] = r["walks"] = json::array();
    for (auto &q : c["pts"]) {
        Point2 p(q["p"][0], q["p"][1]);
        r["pts"].push_back({{"reg", pm->find_reg(p)}, {"regdir", pm->find_reg(p, hv::direction(q["d"][0], q["d"][1], q["d"][2]))}});
    }
    for (auto &q : c["outs"]) r["outs"].push_back(pm->find_reg(Point2(q["p"][0], q["p"][1])));
    for (auto &q : c["ons"])
        r["ons"].push_back(pm->find_reg(Point2(q["p"][0], q["p"][1]), hv::direction(q["d"][0], q["d"][1], q["d"][2])));
    for (auto &q : c["trs"]) {
        VecF s;
        VecI g;
        int n = pm->trace(Point2(q["a"][0], q["a"][1]), Point2(q["b"][0], q["b"][1]), q["first"], s, g);
        r["trs"].push_back({{"n", n}, {"s", hv::vecj(s)}, {"r", hv::arr(g)}});
    }
    for (auto &q : c["walks"]) {
        Point2 p(q["a"][0], q["a"][1]);
        Direction d = hv::direction(q["d"][0], q["d"][1], q["d"][2]);
        int coinc   = -1;
        json ds = json::array(), rs = json::array();
        for (int it = 0; it < 200; it++) {
            double bx  = d.ox > 0 ? (h - p.x) / d.ox : (-h - p.x) / d.ox;
            double by  = d.oy > 0 ? (h - p.y) / d.oy : (-h - p.y) / d.oy;
            double box = std::min(bx, by);
            auto s     = pm->distance_to_surface(p, d, coinc);
            if (!(s.first < box - 1e-9)) break;
            ds.push_back(s.first);
            p.x += d.ox * s.first;
            p.y += d.oy * s.first;
            rs.push_back(pm->find_reg(p, d));
        }
        r["walks"].push_back({{"d", ds}, {"r", rs}});
    }
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
