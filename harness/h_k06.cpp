// A whole Monte Carlo run: the particles of every cycle and the result file.
#include <algorithm>
#include "xsj.hpp"
#include "h5r.hpp"
#include "util/h5file.hpp"
#include "solvers/monte_carlo_eigenvalue_solver.hpp"
#include "mcwrap.hpp"
static json parts(const std::vector<mc::Particle> &q)
{
    json a = json::array();
    for (auto &p : q)
        a.push_back({{"id", (int)p.id}, {"p", {p.location_global.x, p.location_global.y, p.location_global.z}}, {"o", {p.direction.ox, p.direction.oy, p.direction.oz}}, {"g", p.group}, {"w", p.weight}});
    return a;
}
static json one(const json &c)
{
    hv::mc_cycles.clear();
    pugi::xml_document doc;
    hv::load(c, doc);
    CoreMesh mesh(doc);
    json r;
    {
        XSMesh xs(mesh, MeshTreatment::TRUE);
        r["xs"]  = hv::xsj(xs, false);
        r["eub"] = hv::vecj(xs.eubounds());
    }
    r["vol"]  = hv::vecj(mesh.volumes(MeshTreatment::TRUE));
    r["pvol"] = hv::vecj(mesh.coarse_volume());
    r["ended"] = "";
    try {
        mc::MonteCarloEigenvalueSolver s(doc.child("solver"), mesh);
        s.solve();
        std::remove("mc.h5");
        H5Node f("mc.h5", H5Access::WRITE);
        s.output(f);
    } catch (Exception &e) { r["ended"] = e.what(); }
    r["cyc"] = json::array();
    for (auto &k : hv::mc_cycles) r["cyc"].push_back({{"bank", parts(k.bank)}, {"sites", parts(k.sites)}});
    json o;
    if (r["ended"] == "") {
        hv::H5R f("mc.h5");
        for (auto n : {"k_history_tl", "k_history_col", "k_history_analog", "h_history", "k_mean_history_tl", "k_mean_history_col", "k_mean_history_analog",
                       "k_stdev_history_tl", "k_stdev_history_col", "k_stdev_history_analog", "pin_power", "eubounds", "ng", "seed"})
            o[n] = f.v(n);
        for (auto n : {"flux", "fsr_flux", "fsr_flux_col"})
            for (auto sd : {"", "_stdev"}) {
                json a = json::array();
                for (int g = 1; g <= c["ng"].get<int>(); g++) {
                    char b[60];
                    std::snprintf(b, 60, "%s/%03d%s", n, g, sd);
                    a.push_back(f.v(b));
                }
                o[std::string(n) + sd] = a;
            }
    }
    r["file"] = o.is_null() ? json::object() : o;
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
