#include <random>
#include "members.hpp"
#include "xsj.hpp"
#include "core/source_factory.hpp"
#include "sweepers/sn/sn_sweeper.hpp"
#include "sweepers/sn_sweeper_factory.hpp"
#include "sweepers/cmdo/sn_sweeper_cdd.hpp"
#include "sweepers/cmdo/sn_sweeper_factory_cdd.hpp"
#include "core/coarse_data.hpp"
using sn::SnSweeper;
struct Peek : public SnSweeper {
    static BoundaryCondition SnSweeper::*in() { return &Peek::SN_INCOMING; }
};
static json faces(SnSweeper &sw, int ng, int nx, int ny, int nz)
{
    auto &b = sw.*Peek::in();
    int sz[3] = {ny * nz, nx * nz, nx * ny};
    json r = json::array();
    for (int g = 0; g < ng; g++) {
        json ga = json::array();
        for (int a = 0; a < sw.ang_quad().ndir(); a++) {
            json fa = json::array();
            for (int n = 0; n < 3; n++) {
                std::vector<double> v(sz[n]);
                b.copy_face(g, a, (Normal)n, v.data());
                json f = json::array();
                for (double x : v) f.push_back(x);
                fa.push_back(f);
            }
            ga.push_back(fa);
        }
        r.push_back(ga);
    }
    return r;
}
static json one(const json &c)
{
    pugi::xml_document doc;
    hv::load(c, doc);
    CoreMesh mesh(doc);
    std::mt19937_64 rng(c["seed"].get<int>());
    auto U = [&](double a, double b) { return a + (b - a) * std::uniform_real_distribution<double>(0, 1)(rng); };
    auto xn = doc.child("sweeper");
    std::unique_ptr<SnSweeper> sw;
    std::shared_ptr<CorrectionData> corr;
    if (std::string(xn.attribute("equation").value()) == "cdd") {
        auto p = cmdo::SnSweeperFactory_CDD(xn, mesh);
        sw   = std::move(p.first);
        corr = p.second;
    } else {
        sw = SnSweeperFactory(xn, mesh);
    }
    UP_Source_t src = sw->create_source(doc.child("source"));
    sw->assign_source(src.get());
    int n = sw->n_reg(), ng = sw->n_group(), nx = mesh.nx(), ny = mesh.ny(), nz = mesh.nz();
    CoarseData cd(mesh, ng);
    sw->set_coarse_data(&cd);
    sw->initialize();
    json r;
    r["m"] = {{"nx", nx}, {"ny", ny}, {"nz", nz}, {"flat", mesh.is_2d() ? 1 : 0}};
    for (int i = 0; i < nx; i++) r["m"]["dx"].push_back(mesh.dx(i));
    for (int i = 0; i < ny; i++) r["m"]["dy"].push_back(mesh.dy(i));
    for (int i = 0; i < nz; i++) r["m"]["dz"].push_back(mesh.dz(i));
    r["quad"] = json::array();
    for (auto &a : sw->ang_quad()) r["quad"].push_back({{"o", {a.ox, a.oy, a.oz}}, {"w", a.weight}});
    r["start"] = faces(*sw, ng, nx, ny, nz)[0][0];
    // arbitrary state
    for (int i = 0; i < n; i++) for (int g = 0; g < ng; g++) sw->flux()(i, g) = U(.1, 3);
    auto &b = (*sw).*Peek::in();
    for (int g = 0; g < ng; g++) for (int a = 0; a < sw->ang_quad().ndir(); a++) for (int k = 0; k < 3; k++) {
        auto f = b.get_face(g, a, (Normal)k);
        for (int i = 0; i < f.first; i++) f.second[i] = U(0, 1);
    }
    r["corr"] = json::array();
    if (corr) {
        CorrectionData &C = *corr;
        int na = sw->ang_quad().ndir() / 2;
        for (int g = 0; g < ng; g++) { json ga = json::array();
            for (int a = 0; a < na; a++) { json aa = json::array();
                for (int i = 0; i < corr->n_cell(); i++) {
                    double ax = U(.3, .7), ay = U(.3, .7), be = U(.8, 1.2);
                    C.alpha(i, a, g, Normal::X_NORM) = ax;
                    C.alpha(i, a, g, Normal::Y_NORM) = ay;
                    C.beta(i, a, g) = be;
                    aa.push_back({ax * be, ay * be});
                }
                ga.push_back(aa); }
            r["corr"].push_back(ga); }
    }
    auto flux = [&]() { json f = json::array(); for (int i = 0; i < n; i++) { json q = json::array(); for (int g = 0; g < ng; g++) q.push_back(sw->flux()(i, g)); f.push_back(q); } return f; };
    r["phi0"] = flux();
    r["inc0"] = faces(*sw, ng, nx, ny, nz);
    r["xs"]  = hv::xsj(sw->xs_mesh(), false);
    r["surf"] = json::array();
    r["area"] = json::array();
    for (int i = 0; i < n; i++) {
        json s = json::array();
        for (int k = 0; k < 6; k++) s.push_back(mesh.coarse_surf(i, (Surface)k));
        r["surf"].push_back(s);
    }
    r["vol"] = hv::vecj(sw->volumes());
    r["ops"] = json::array();
    for (auto &op : c["ops"]) {
        json o;
        int g = op["g"];
        cd.current = 7.0;   // whatever was there before
        cd.surface_flux = 7.0;
        ArrayB1 s(n);
        for (int i = 0; i < n; i++) s(i) = U(op["lo"].get<double>(), 3);
        o["s"] = hv::arr(s);
        src->initialize_group(g);
        src->auxiliary(s);
        sw->sweep(g);
        o["phi"] = flux();
        o["inc"] = faces(*sw, ng, nx, ny, nz);
        o["cur"] = json::array();
        o["curx"] = 1;
        for (int k = 0; k < (int)mesh.n_surf(); k++) {
            o["cur"].push_back(cd.current(k, g));
            for (int h = 0; h < ng; h++) if (h != g && cd.current(k, h) != 7.0) o["curx"] = 0;
        }
        r["ops"].push_back(o);
    }
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
