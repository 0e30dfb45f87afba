#include "par/drive.hpp"
#include "h5r.hpp"
#include "util/h5file.hpp"
#include "core/coarse_data.hpp"
#include "core/output_interface.hpp"
#include "solvers/eigen_solver.hpp"
#include "sweepers/moc/moc_sweeper.hpp"
#include "sweepers/sn_sweeper_factory.hpp"
#include "sweepers/cmdo/plane_sweeper_2d3d.hpp"
static void put(json &r, const char *n, bool exact, const json &v) { r.push_back({{"n", n}, {"exact", exact ? 1 : 0}, {"v", v}}); }
static json all2(const ArrayB2 &a) { json q = json::array(); for (int i = 0; i < (int)a.extent(0); i++) for (int j = 0; j < (int)a.extent(1); j++) q.push_back(a(i, j)); return q; }
static json compute(const json &c, const char *which)
{
    json cc = c;
    cc["xml"] = c["xml"].get<std::string>() + c[which].get<std::string>();
    pugi::xml_document doc;
    hv::load(cc, doc);
    CoreMesh mesh(doc);
    json r = json::array();
    if (c["mode"] == "eig") {
        EigenSolver s(doc.child("solver"), mesh);
        s.solve();
        auto *sw = s.sweeper();
        { H5Node f("res.h5", H5Access::WRITE); s.output(f); }
        hv::H5R f("res.h5");
        json k = f.v("convergence/k");
        put(r, "iterations", true, json::array({(int)k.size()}));
        put(r, "k", false, k);
        put(r, "flux", false, all2(sw->flux()));
        put(r, "pin", false, all2(sw->get_pin_flux(MeshTreatment::PIN)));
        return r;
    }
    auto x = doc.child("sweeper");
    std::string kind = c["kind"];
    std::unique_ptr<TransportSweeper> sw;
    if (kind == "sn") sw = SnSweeperFactory(x, mesh);
    else if (kind == "moc") sw.reset(new moc::MoCSweeper(x, mesh));
    else sw.reset(new cmdo::PlaneSweeper_2D3D(x, mesh));
    UP_Source_t src = sw->create_source(doc.child("source"));
    sw->assign_source(src.get());
    int ng = sw->n_group();
    CoarseData cd(mesh, ng);
    if (c["coarse"].get<int>()) sw->set_coarse_data(&cd);
    sw->initialize();
    ArrayB1 fs((int)sw->n_reg_fission());
    for (int it = 0; it < c["iters"].get<int>(); it++) {
        sw->calc_fission_source(1.0, fs);
        for (int g = 0; g < ng; g++) {
            src->initialize_group(g);
            src->fission(fs, g);
            src->in_scatter(g);
            sw->sweep(g);
        }
    }
    put(r, "flux", false, all2(sw->flux()));
    put(r, "pin", false, all2(sw->get_pin_flux(MeshTreatment::PIN)));
    if (c["coarse"].get<int>()) {
        put(r, "current", false, all2(cd.current));
        put(r, "surface flux", false, all2(cd.surface_flux));
        json p = json::array();
        for (int i = 0; i < (int)mesh.n_surf(); i++) for (int g = 0; g < ng; g++) { p.push_back(cd.partial_current(i, g)[0]); p.push_back(cd.partial_current(i, g)[1]); }
        put(r, "partial current", false, p);
    }
    return r;
}
static json one(const json &c)
{
    return hv::drive(c, [&]() { return compute(c, "sx1"); }, [&]() { return compute(c, "sxn"); });
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
