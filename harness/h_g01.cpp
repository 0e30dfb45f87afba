#include "geo.hpp"
static json one(const json &c)
{
    pugi::xml_document doc;
    hv::load(c, doc);
    CoreMesh m(doc);
    json r;
    r["nreg"] = json::array();
    for (auto t : hv::treatments) r["nreg"].push_back(m.n_reg(t));
    if (c["op"] == "volume") {
        r["vol"] = json::array();
        for (auto t : hv::treatments) r["vol"].push_back(hv::vecj(m.volumes(t)));
        json pa = json::array();
        for (auto &p : m.pins()) {
            double s = 0;
            for (double a : p.second->areas()) s += a;
            pa.push_back({{"sum", s}, {"area", p.second->area()}});
        }
        r["pinarea"] = pa;
        return r;
    }
    r["nx"] = m.nx(); r["ny"] = m.ny(); r["nz"] = m.nz();
    r["x"] = hv::vecj(m.x_divisions()); r["y"] = hv::vecj(m.y_divisions()); r["z"] = hv::vecj(m.z_divisions());
    json pins = json::array();
    int i = 0;
    for (auto it = m.begin(); it != m.end(); ++it, ++i) {
        Position p = m.pin_position(i);
        Point2 o   = m.pin_origin(i);
        pins.push_back({{"id", (*it)->id()}, {"mesh", (*it)->mesh_id()}, {"mats", hv::arr((*it)->mat_ids())},
                        {"pos", {p.x, p.y, p.z}}, {"origin", {o.x, o.y}}});
    }
    r["pins"] = pins;
    json fr = json::array(), mi = json::array();
    for (int k = 0; k < (int)m.nz(); k++) { fr.push_back(m.first_reg_plane(k)); mi.push_back(m.macroplane_index(k)); }
    r["firstreg"] = fr; r["mpindex"] = mi;
    r["subplane"] = hv::arr(m.subplane());
    r["mph"]      = hv::vecj(m.macroplane_heights());
    json mp = json::array();
    for (auto &p : m.macroplanes()) {
        json ids = json::array();
        for (auto *q : p) ids.push_back(q->id());
        mp.push_back({{"lo", p.iz_min}, {"hi", p.iz_max}, {"h", p.height}, {"pins", ids}});
    }
    r["mp"]      = mp;
    r["unique"]  = hv::arr(m.unique_plane_ids());
    r["nunique"] = m.n_unique_planes();
    json ur = json::array();
    for (int k = 0; k < (int)m.n_unique_planes(); k++) ur.push_back(m.unique_plane(k).n_reg());
    r["uniquereg"] = ur;
    json pts = json::array();
    for (auto &q : c["pts"]) {
        Point3 p(q["p"][0], q["p"][1], q["p"][2]);
        Direction d = hv::direction(q["d"][0], q["d"][1], q["d"][2]);
        auto li     = m.get_location_info(p, d);
        json o;
        o["pos"]       = {li.pos.x, li.pos.y, li.pos.z};
        o["cell"]      = m.coarse_cell(li.pos);
        o["cell2"]     = m.coarse_cell_point(p);
        o["pm"]        = li.pm->id();
        o["off"]       = li.reg_offset;
        o["local"]     = {li.local_point.x, li.local_point.y};
        o["region"]    = li.reg_offset + li.pm->find_reg(li.local_point);
        o["regiondir"] = li.reg_offset + li.pm->find_reg(li.local_point, d);
        o["regionpt"]  = m.region_at_point(p);
        Point2 g       = p.to_2d();
        int first      = 0;
        auto t         = m.get_pinmesh(g, m.unique_plane_id(li.pos.z), first);
        o["gpos"]      = {t.position.x, t.position.y};
        o["gpm"]       = t.pm->id();
        o["goff"]      = first;
        o["gorigin"]   = {g.x, g.y};
        auto &b        = li.pin_boundary;
        o["box"]       = {b[0].x, b[0].y, b[0].z, b[1].x, b[1].y, b[1].z};
        pts.push_back(o);
    }
    r["pts"] = pts;
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
