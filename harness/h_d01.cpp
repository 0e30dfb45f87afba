// What the planes of a 2D3D calculation hand to the Sn sweep and are handed by it.
#include <fcntl.h>
#include "mocrun.hpp"
#include "h5r.hpp"
#include "core/globals.hpp"
#include "solvers/eigen_solver.hpp"
#include "sweepers/cmdo/moc_sweeper_2d3d.hpp"
#include "sweepers/cmdo/plane_sweeper_2d3d.hpp"
#include "sweepers/cmdo/correction_data.hpp"
#include "util/h5file.hpp"
struct Quiet {
    int keep;
    Quiet() { std::cout.flush(); std::fflush(stdout); keep = dup(1); int fd = open("said.txt", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); close(fd); }
    ~Quiet() { std::cout.flush(); std::fflush(stdout); dup2(keep, 1); close(keep); }
};
static json alljson(const CorrectionData &d, int nc, int na, int g)
{
    json r = json::array();
    for (int a = 0; a < na; a++) {
        json q{{"x", json::array()}, {"y", json::array()}, {"b", json::array()}};
        for (int i = 0; i < nc; i++) {
            q["x"].push_back(d.alpha(i, a, g, Normal::X_NORM));
            q["y"].push_back(d.alpha(i, a, g, Normal::Y_NORM));
            q["b"].push_back(d.beta(i, a, g));
        }
        r.push_back(q);
    }
    return r;
}
struct Corr {
    std::shared_ptr<CorrectionData> d;
    SP_XSMeshHomogenized_t x;
    ExpandedXS xs;
    const CoreMesh *mesh;
    int na, ng;
    template <class S> void before(S &sw, const CoreMesh &m, int n)
    {
        mesh = &m; ng = n;
        na = sw.get_ang_quad().ndir() / 2;
        d = std::make_shared<CorrectionData>(m, na, ng);
        x = sw.get_homogenized_xsmesh();
        x->set_flux(sw.flux());
        xs = ExpandedXS(x.get());
        sw.set_coupling(d, x, xs);
    }
    template <class S> void after(S &, int g, json &o)
    {
        int nc = mesh->nx() * mesh->ny() * mesh->macroplanes().size();
        // homogenised total by cell of the mesh
        std::vector<double> t(mesh->n_reg(MeshTreatment::PIN));
        for (auto &r : *x) for (int i : r.reg()) t[i] = r.xsmactr(g);
        o["xsn"] = t;
        o["oth"] = json::array();
        for (int h = 0; h < ng; h++) o["oth"].push_back(alljson(*d, nc, na, h));
    }
};
static json corr(const json &c)
{
    json r = moc_run<cmdo::MoCSweeper_2D3D, Corr>(c), t = moc_run<moc::MoCSweeper>(c);
    r["twin"] = json::array();
    for (auto &o : t["ops"]) r["twin"].push_back({{"cur", o["cur"]}, {"sfx", o["sfx"]}, {"phi", o["phi"]}});
    return r;
}
// a 2D3D sweep with coarse currents of our own before each sweep
static json leak(const json &c)
{
    pugi::xml_document doc;
    hv::load(c, doc);
    CoreMesh mesh(doc);
    std::mt19937_64 rng(c["seed"].get<int>());
    auto U = [&](double a, double b) { return a + (b - a) * std::uniform_real_distribution<double>(0, 1)(rng); };
    json r{{"ops", json::array()}};
    Quiet q;
    cmdo::PlaneSweeper_2D3D sw(doc.child("sweeper"), mesh);
    UP_Source_t src = sw.create_source(doc.child("source"));
    sw.assign_source(src.get());
    int ng = sw.n_group();
    CoarseData cd(mesh, ng);
    sw.set_coarse_data(&cd);
    sw.initialize();
    json surf = json::array();
    for (size_t i = 0; i < mesh.n_pin(); i++) {
        auto p = mesh.pin_position(i);
        surf.push_back({{"p", {(int)p.x, (int)p.y, (int)p.z}}, {"b", mesh.coarse_surf(mesh.coarse_cell(p), Surface::BOTTOM)}, {"t", mesh.coarse_surf(mesh.coarse_cell(p), Surface::TOP)}});
    }
    r["surf"] = surf;
    for (auto &op : c["ops"]) {
        int g = op["g"];
        json o;
        for (int k = 0; k < (int)mesh.n_surf(); k++) for (int h = 0; h < ng; h++) { cd.current(k, h) = U(-.3, .3); cd.surface_flux(k, h) = 1.0; }
        o["cur"] = json::array();
        for (int k = 0; k < (int)mesh.n_surf(); k++) o["cur"].push_back(cd.current(k, g));
        ArrayB1 f(sw.n_reg_fission());
        f = 1.0;
        src->initialize_group(g);
        src->fission(f, g);
        src->in_scatter(g);
        sw.sweep(g);
        std::remove("tl.h5");
        { H5Node h("tl.h5", H5Access::WRITE); sw.output(h); }
        hv::H5R h("tl.h5");
        o["tl"] = json::array();
        for (int k = 0; k < ng; k++) { char s[64]; snprintf(s, 64, "/transverse_leakage/%03d", k); o["tl"].push_back(h.get(s)); }
        o["phi"] = json::array();
        for (int i = 0; i < (int)sw.flux().extent(0); i++) o["phi"].push_back(sw.flux()(i, g));
        r["ops"].push_back(o);
    }
    return r;
}
// the same planes swept on their own, with the leakage read from the output
static json leaktwin(const json &c)
{
    json r = leak(c);
    pugi::xml_document doc;
    hv::load(c, doc);
    CoreMesh mesh(doc);
    Quiet q;
    moc::MoCSweeper tw(doc.child("sweeper").child("moc_sweeper"), mesh);
    UP_Source_t src = tw.create_source(doc.child("source"));
    tw.assign_source(src.get());
    tw.initialize();
    int at = 0;
    for (auto &op : c["ops"]) {
        int g = op["g"];
        json &o = r["ops"][at++];
        ArrayB1 tl(tw.n_reg()), one(tw.n_reg_fission());
        one = 1.0;
        int ireg = 0, ip = 0;
        for (auto &mp : mesh.macroplanes()) {
            int ipin = 0;
            for (const auto pin : mp) {
                auto pos = mesh.pin_position(ipin++);
                for (int k = 0; k < pin->n_reg(); k++) tl(ireg++) = o["tl"][g]["v"][(ip * mesh.ny() + pos.y) * mesh.nx() + pos.x].get<double>();
            }
            ip++;
        }
        src->initialize_group(g);
        src->fission(one, g);
        src->in_scatter(g);
        if (op["moc"].get<int>()) {
            if (c["tl"].get<int>()) tw.apply_transverse_leakage(g, tl);
            tw.sweep(g);
        }
        o["twin"] = json::array();
        for (int i = 0; i < (int)tw.n_reg(); i++) o["twin"].push_back(tw.flux()(i, g));
    }
    return r;
}
// eigenvalue problems: the fluxes of both sweepers, and the corrected Sn problem on its own
static json solve(const json &c)
{
    json r{{"runs", json::array()}};
    std::remove("data.h5");
    for (auto &run : c["runs"]) {
        json d{{"lib", c["lib"]}, {"xml", c["xml"].get<std::string>() + run["solver"].get<std::string>()}};
        pugi::xml_document doc;
        hv::load(d, doc);
        global::case_name = "hv";
        json o;
        std::string exc;
        CoreMesh mesh(doc);
        Quiet q;
        std::string file = run["file"];
        std::remove(file.c_str());
        try {
            EigenSolver s(doc.child("solver"), mesh);
            s.solve();
            { H5Node f(file, H5Access::WRITE); s.output(f); }
            auto sw = s.sweeper();
            auto a = sw->get_pin_flux(MeshTreatment::PIN);
            json pf = json::array();
            for (int i = 0; i < (int)a.extent(0); i++) for (int g = 0; g < sw->n_group(); g++) pf.push_back(a(i, g));
            o["pin"] = pf;
        } catch (const std::exception &e) { exc = e.what(); }
        o["fail"] = exc;
        if (exc.empty()) {
            hv::H5R f(file);
            o["k"] = f.v("convergence/k"); o["ek"] = f.v("convergence/error_k"); o["ep"] = f.v("convergence/error_psi");
        }
        r["runs"].push_back(o);
    }
    return r;
}
// factors written to files and read again into another mesh
static void fill(CorrectionData &d, int f, int nc, int na, int ng)
{
    for (int g = 0; g < ng; g++) for (int a = 0; a < na; a++) for (int i = 0; i < nc; i++) {
        double v = 1 + i + 100 * a + 10000 * g + 100000. * f;
        d.alpha(i, a, g, Normal::X_NORM) = v; d.alpha(i, a, g, Normal::Y_NORM) = v + .25; d.beta(i, a, g) = v + .5;
    }
}
static json files(const json &c)
{
    int na = c["na"], ng = c["ng"];
    for (auto &f : c["files"]) {
        pugi::xml_document doc;
        hv::load({{"lib", c["lib"]}, {"xml", f["xml"]}}, doc);
        CoreMesh mesh(doc);
        CorrectionData d(mesh, na, ng);
        fill(d, f["id"], d.n_cell(), na, ng);
        std::string n = f["name"];
        std::remove(n.c_str());
        H5Node h(n, H5Access::WRITE);
        d.output(h);
    }
    pugi::xml_document doc;
    hv::load(c, doc);
    CoreMesh mesh(doc);
    CorrectionData d(mesh, na, ng);
    fill(d, 9, d.n_cell(), na, ng);
    json r;
    try {
        d.from_data(doc.child("sweeper"));
        r["refused"] = 0;
    } catch (const std::exception &) { r["refused"] = 1; }
    r["data"] = json::array();
    for (int g = 0; g < ng; g++) r["data"].push_back(alljson(d, d.n_cell(), na, g));
    return r;
}
static json one(const json &c)
{
    if (c["kind"] == "corr") return corr(c);
    if (c["kind"] == "leak") return leaktwin(c);
    if (c["kind"] == "file") return files(c);
    return solve(c);
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
