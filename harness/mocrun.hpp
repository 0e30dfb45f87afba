#pragma once
// sweeps of a MoC sweeper (or one derived from it) from a random state
#include <random>
#include "members.hpp"
#include "xsj.hpp"
#include "sweepers/moc/moc_sweeper.hpp"
#include "core/coarse_data.hpp"
template <class B>
struct Moc : public B {
    using B::B;
    using moc::MoCSweeper::MOC_BOUNDARY;
    using moc::MoCSweeper::MOC_RAYS;
    using moc::MoCSweeper::MOC_XSTR;
};
template <class M>
static json faces(M &m, int ng, int nang)
{
    json r = json::array();
    int np = m.mesh().subplane().size();
    for (int g = 0; g < ng; g++) {
        json gp = json::array();
        for (int p = 0; p < np; p++) {
            json ga = json::array();
            for (int a = 0; a < nang; a++) {
                json fa = json::array();
                for (int n = 0; n < 3; n++) {
                    json f = json::array();
                    if (n < 2) {
                        auto v = m.MOC_BOUNDARY[p].get_face(g, a, (Normal)n);
                        for (int i = 0; i < v.first; i++) f.push_back(v.second[i]);
                    }
                    fa.push_back(f);
                }
                ga.push_back(fa);
            }
            gp.push_back(ga);
        }
        r.push_back(gp);
    }
    return r;
}
// after(sweeper, group) may add to the record of an operation
struct NoMore {
    template <class S> void before(S &, const CoreMesh &, int) {}
    template <class S> void after(S &, int, json &) {}
};
template <class B, class More = NoMore>
static json moc_run(const json &c)
{
    More more;
    pugi::xml_document doc;
    hv::load(c, doc);
    CoreMesh mesh(doc);
    std::mt19937_64 rng(c["seed"].get<int>());
    auto U = [&](double a, double b) { return a + (b - a) * std::uniform_real_distribution<double>(0, 1)(rng); };
    Moc<B> sw(doc.child("sweeper"), mesh);
    UP_Source_t src = sw.create_source(doc.child("source"));
    sw.assign_source(src.get());
    int n = sw.n_reg(), ng = sw.n_group();
    CoarseData cd(mesh, ng);
    if (c["coarse"].get<int>()) sw.set_coarse_data(&cd);
    sw.initialize();
    more.before(sw, mesh, ng);
    bool full = c["kind"] != "ihm";
    json r;
    auto quad = sw.get_ang_quad();
    int nd = quad.ndir_oct();
    r["quad"] = json::array();
    for (auto &a : quad) r["quad"].push_back({{"o", {a.ox, a.oy, a.oz}}, {"w", a.weight}});
    r["space"] = json::array();
    for (int a = 0; a < 2 * nd; a++) r["space"].push_back(sw.MOC_RAYS.spacing(a));
    r["rays"] = json::array();
    r["first"] = json::array();
    std::vector<int> geom;      // of each plane group
    int iz = 0, reg = 0;
    for (int np : mesh.subplane()) { geom.push_back(mesh.unique_plane_ids()[iz]); iz += np; }
    for (size_t p = 0; full && p < geom.size(); p++) {
        r["first"].push_back(reg);
        reg += mesh.unique_plane(geom[p]).n_reg();
        json pa = json::array();
        for (auto &ar : sw.MOC_RAYS[geom[p]]) {
            json aa = json::array();
            for (auto &ray : ar) {
                json l = json::array(), ix = json::array();
                for (int k = 0; k < ray.nseg(); k++) { l.push_back(ray.seg_len(k)); ix.push_back((int)ray.seg_index(k)); }
                aa.push_back({{"l", l}, {"i", ix}, {"b", {ray.bc(0), ray.bc(1)}}});
            }
            pa.push_back(aa);
        }
        r["rays"].push_back(pa);
    }
    for (int i = 0; i < n; i++) for (int g = 0; g < ng; g++) sw.flux()(i, g) = U(.1, 3);
    for (size_t p = 0; p < geom.size(); p++)
        for (int g = 0; g < ng; g++) for (int a = 0; a < 4 * nd; a++) for (int k = 0; k < 2; k++) {
            auto f = sw.MOC_BOUNDARY[p].get_face(g, a, (Normal)k);
            for (int i = 0; i < f.first; i++) f.second[i] = U(0, 1);
        }
    auto flux = [&]() { json f = json::array(); for (int i = 0; i < n; i++) { json q = json::array(); for (int g = 0; g < ng; g++) q.push_back(sw.flux()(i, g)); f.push_back(q); } return f; };
    r["cell"] = json::array();
    r["surf"] = json::array();
    if (c["coarse"].get<int>()) {
        for (auto &mp : mesh.macroplanes()) {
            json cp = json::array();
            int ipin = 0;
            for (const auto pin : mp) {
                auto pos = mesh.pin_position(ipin++);
                for (int k = 0; k < pin->n_reg(); k++) cp.push_back((int)(pos.y * mesh.nx() + pos.x + 1));
            }
            r["cell"].push_back(cp);
        }
        for (size_t i = 0; i < mesh.n_pin(); i++) {
            json s = json::array();
            for (int k = 0; k < 6; k++) s.push_back(mesh.coarse_surf(i, (Surface)k));
            r["surf"].push_back(s);
        }
    }
    r["phi0"] = flux();
    r["inc0"] = full ? faces(sw, ng, 4 * nd) : json::array();
    r["xs"]  = hv::xsj(sw.xs_mesh(), false);
    r["vol"] = hv::vecj(sw.volumes());
    r["ops"] = json::array();
    for (auto &op : c["ops"]) {
        json o;
        int g = op["g"];
        for (int k = 0; k < (int)mesh.n_surf(); k++) for (int h = 0; h < ng; h++) {
            cd.current(k, h) = 7.0 + k * .125;   // whatever was there before
            cd.surface_flux(k, h) = 7.0 + k * .125;
        }
        ArrayB1 s(n), tl(n);
        for (int i = 0; i < n; i++) { s(i) = full ? U(op["lo"].get<double>(), 3) : c["q"].get<double>(); tl(i) = op["tl"].get<int>() ? U(-2, 2) : 0.0; }
        o["s"] = hv::arr(s);
        o["tl"] = hv::arr(tl);
        src->initialize_group(g);
        src->auxiliary(s);
        if (op["tl"].get<int>()) sw.apply_transverse_leakage(g, tl);
        int rep = op.value("rep", 1);
        for (int k = 0; k < rep; k++) sw.sweep(g);
        o["phi"] = flux();
        o["inc"] = full ? faces(sw, ng, 4 * nd) : json::array();
        o["tr"] = json::array();
        for (int i = 0; i < n; i++) o["tr"].push_back(sw.MOC_XSTR[i]);
        if (c["coarse"].get<int>()) {
            o["cur"] = json::array();
            o["sfx"] = json::array();
            o["curx"] = 1;
            for (int k = 0; k < (int)mesh.n_surf(); k++) {
                o["cur"].push_back(cd.current(k, g));
                o["sfx"].push_back(cd.surface_flux(k, g));
                for (int h = 0; h < ng; h++) if (h != g && cd.current(k, h) != 7.0 + k * .125) o["curx"] = 0;
            }
        }
        more.after(sw, g, o);
        r["ops"].push_back(o);
    }
    return r;
}
