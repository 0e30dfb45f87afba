#include "par/drive.hpp"
#include "h5r.hpp"
#include "util/h5file.hpp"
#include "solvers/monte_carlo_eigenvalue_solver.hpp"
#include "mcwrap.hpp"
using namespace mocc::mc;
static json site(const Particle &p) { return {p.location_global.x, p.location_global.y, p.location_global.z, p.direction.ox, p.direction.oy, p.direction.oz, p.weight, (double)p.group}; }
static void put(json &r, const std::string &n, bool exact, const json &v) { r.push_back({{"n", n}, {"exact", exact ? 1 : 0}, {"v", v}}); }
static json compute(const json &c)
{
    hv::mc_cycles.clear();
    pugi::xml_document doc;
    hv::load(c, doc);
    CoreMesh mesh(doc);
    MonteCarloEigenvalueSolver s(doc.child("solver"), mesh);
    s.solve();
    { H5Node f("res.h5", H5Access::WRITE); s.output(f); }
    hv::H5R f("res.h5");
    json r = json::array();
    put(r, "analog k", true, f.v("k_history_analog"));
    put(r, "source entropy", true, f.v("h_history"));
    json n = json::array();
    n.push_back((int)hv::mc_cycles.size());
    for (auto &b : hv::mc_cycles) n.push_back((int)b.bank.size());
    put(r, "number of particles", true, n);
    auto ids = [](const std::vector<Particle> &q) { json a = json::array(); for (auto &p : q) a.push_back((int)p.id); return a; };
    auto all = [](const std::vector<Particle> &q) { json a = json::array(); for (auto &p : q) for (auto &x : site(p)) a.push_back(x); return a; };
    for (size_t i = 0; i < hv::mc_cycles.size(); i++) {
        std::string k = std::to_string(i + 1);
        put(r, "particle numbers of cycle " + k, true, ids(hv::mc_cycles[i].bank));
        put(r, "source of cycle " + k, true, all(hv::mc_cycles[i].bank));
        put(r, "parents of the sites of cycle " + k, true, ids(hv::mc_cycles[i].sites));
        put(r, "sites of cycle " + k, true, all(hv::mc_cycles[i].sites));
    }
    for (auto k : {"k_history_tl", "k_history_col", "k_mean_history_tl", "k_mean_history_col", "k_mean_history_analog", "pin_power"})
        if (f.has(k)) put(r, k, false, f.v(k));
    for (int g = 1; g <= c["ng"].get<int>(); g++)
        for (auto k : {"flux", "fsr_flux", "fsr_flux_col"}) {
            char b[40];
            std::snprintf(b, 40, "%s/%03d", k, g);
            if (f.has(b)) put(r, b, false, f.v(b));
        }
    return r;
}
static json one(const json &c)
{
    auto f = [&]() { return compute(c); };
    return hv::drive(c, f, f);
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
