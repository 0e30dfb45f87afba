#include "common.hpp"
#include "core/mesh.hpp"
#include "core/constants.hpp"
using namespace mocc;
static Surface S(int i) { return (Surface)i; }
static VecF vec(const json &j) { VecF v; for (double x : j) v.push_back(x); return v; }
static Direction dirn(double x, double y, double z)
{
    double n = std::sqrt(x * x + y * y + z * z);
    Direction d;
    d.ox = x / n; d.oy = y / n; d.oz = z / n;
    d.theta = std::acos(d.oz);
    d.alpha = std::atan2(d.oy, d.ox);
    if (d.alpha < 0) d.alpha += TWOPI;
    return d;
}
static json one(const json &c)
{
    VecF x = vec(c["g"][0]), y = vec(c["g"][1]), z = vec(c["g"][2]);
    std::array<Boundary, 6> bc;
    for (int i = 0; i < 6; i++) bc[i] = Boundary::VACUUM;
    int nc = (x.size() - 1) * (y.size() - 1) * (z.size() - 1);
    Mesh m(nc, nc, x, y, z, bc);
    json r;
    r["npin"]  = m.n_pin();
    r["nsurf"] = m.n_surf();
    r["lines"] = {m.x_divisions(), m.y_divisions(), m.z_divisions()};
    json cells = json::array();
    for (int i = 0; i < nc; i++) {
        json o;
        Position p = m.coarse_position(i);
        o["pos"]   = {p.x, p.y, p.z};
        o["back"]  = m.coarse_cell(p);
        json sf = json::array(), ne = json::array(), ar = json::array(), fa = json::array();
        for (int s = 0; s < 6; s++) {
            sf.push_back(m.coarse_surf(i, S(s)));
            int nb = m.coarse_neighbor(i, S(s));
            ne.push_back(nb);
            ar.push_back(m.coarse_area(i, S(s)));
            if (nb >= 0 && nb < nc) {
                auto f = m.coarse_interface(i, nb);
                fa.push_back({(int)f.first, (int)f.second});
            }
            else fa.push_back({-1, -1});
        }
        o["surf"] = sf; o["neigh"] = ne; o["area"] = ar; o["iface"] = fa;
        o["vol"]   = m.coarse_volume(i);
        o["thick"] = {m.cell_thickness(i, Normal::X_NORM), m.cell_thickness(i, Normal::Y_NORM),
                      m.cell_thickness(i, Normal::Z_NORM)};
        cells.push_back(o);
    }
    r["cells"] = cells;
    json surfs = json::array();
    for (int s = 0; s < (int)m.n_surf(); s++) {
        auto p = m.coarse_neigh_cells(s);
        surfs.push_back({{"lo", p.first}, {"hi", p.second}, {"norm", (int)m.surface_normal(s)}, {"area", m.coarse_area(s)}});
    }
    r["surfs"] = surfs;
    json pl = json::array();
    for (int k = 0; k < (int)m.nz(); k++)
        pl.push_back({{"c0", m.plane_cell_begin(k)}, {"c1", m.plane_cell_end(k)}, {"s0", m.plane_surf_begin(k)},
                      {"s1", m.plane_surf_end(k)}, {"sxy", m.plane_surf_xy_begin(k)}});
    r["planes"] = pl;
    json pts = json::array();
    for (auto &q : c["pts"]) {
        Point3 p(q["p"][0], q["p"][1], q["p"][2]);
        json o;
        o["cell3"]   = m.coarse_cell_point(p);
        o["cell2"]   = m.coarse_cell_point(p.to_2d());
        o["plane"]   = m.plane_index(p.z);
        o["planeup"] = m.plane_index(p.z, 1.0);
        o["planedn"] = m.plane_index(p.z, -1.0);
        std::array<int, 2> s;
        o["onface"] = m.coarse_surf_point(p.to_2d(), m.coarse_cell_point(p.to_2d()), s);
        pts.push_back(o);
    }
    r["pts"] = pts;
    json fp = json::array();
    for (auto &q : c["fpts"]) {
        Point2 p(q["p"][0], q["p"][1]);
        json o;
        std::array<int, 2> s = {{-9, -9}};
        o["n"]    = m.coarse_surf_point(p, 0, s);
        o["surf"] = s[0];
        Surface sd[2];
        o["nside"] = m.coarse_norm_point(p, q["oct"], sd);
        o["side"]  = (int)sd[0];
        o["bcell"] = q["edge"].get<int>() ? m.coarse_boundary_cell(p, q["oct"]) : -1;
        fp.push_back(o);
    }
    r["fpts"] = fp;
    json cp = json::array();
    for (auto &q : c["cpts"]) {
        Point2 p(q["p"][0], q["p"][1]);
        json o;
        Surface sd[2];
        int n      = m.coarse_norm_point(p, q["oct"], sd);
        o["sides"] = json::array();
        for (int i = 0; i < n && i < 2; i++) o["sides"].push_back((int)sd[i]);
        o["bcell"]  = q["in"].get<int>() ? m.coarse_boundary_cell(p, q["oct"]) : -1;
        o["around"] = json::array();
        for (auto &a : q["around"]) {
            int cell             = m.coarse_cell(Position(a[0], a[1], 0));
            std::array<int, 2> s = {{-9, -9}};
            int k                = m.coarse_surf_point(p, cell, s);
            json t               = json::array();
            for (int i = 0; i < k && i < 2; i++) t.push_back(s[i]);
            o["around"].push_back({{"cell", cell}, {"surf", t}});
        }
        cp.push_back(o);
    }
    r["cpts"] = cp;
    json bp = json::array();
    for (auto &q : c["bpts"]) {
        Point3 p(q["p"][0], q["p"][1], q["p"][2]);
        json o = json::array();
        for (auto s : m.boundary_surface(p, dirn(q["d"][0], q["d"][1], q["d"][2]))) o.push_back((int)s);
        bp.push_back(o);
    }
    r["bpts"] = bp;
    json zp = json::array();
    for (auto &q : c["zpts"]) zp.push_back(m.plane_index(q["z"], (double)q["up"].get<int>()));
    r["zpts"] = zp;
    json tr = json::array();
    for (auto &q : c["tr"]) {
        std::vector<Point2> ps = {Point2(q["a"][0], q["a"][1]), Point2(q["b"][0], q["b"][1])};
        m.trace(ps);
        json o = json::array();
        for (auto &p : ps) o.push_back({p.x, p.y});
        tr.push_back(o);
    }
    r["tr"] = tr;
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
