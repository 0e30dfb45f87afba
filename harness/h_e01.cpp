// Iteration of the eigenvalue and fixed-source solvers.  The solvers obtain
// their sweeper from TransportSweeperFactory; here it hands out a scripted
// sweeper for type="script" and otherwise does what the program does.
#include <cstdio>
#include <random>
#include <regex>
#include <dirent.h>
#include <fcntl.h>
#include "xsj.hpp"
#include "h5r.hpp"
#include "core/globals.hpp"
#include "core/transport_sweeper.hpp"
#include "solvers/eigen_solver.hpp"
#include "solvers/fixed_source_solver.hpp"
#include "sweepers/moc/moc_sweeper.hpp"
#include "sweepers/sn_sweeper_factory.hpp"
#include "sweepers/cmdo/plane_sweeper_2d3d.hpp"
#include "util/h5file.hpp"

static json g_case;
typedef std::vector<std::vector<double>> Flux;   // [region][group]

class Script : public TransportSweeper {
public:
    Script(const pugi::xml_node &in, const CoreMesh &m) : TransportSweeper(in, m, g_case["plane"].get<int>() ? MeshTreatment::PLANE : MeshTreatment::TRUE), rng(g_case["seed"].get<int>())
    {
        nr = this->n_reg(); ng = this->n_group();
        nf.assign(nr, std::vector<double>(ng));
        for (auto &x : this->xs_mesh()) for (int i : x.reg()) for (int g = 0; g < ng; g++) nf[i][g] = x.xsmacnf(g);
        plan();
    }
    void sweep(int group) override
    {
        json s{{"g", group + 1}, {"q", json::array()}};
        for (int i = 0; i < nr; i++) s["q"].push_back((double)(*src)[i]);
        sweeps.push_back(s);
        size_t it = (sweeps.size() - 1) / ng + 1;
        const Flux &f = phi[std::min(it, phi.size() - 1)];
        if (group >= 0 && group < ng) for (int i = 0; i < nr; i++) this->flux()(i, group) = f[i][group];
    }
    void initialize() override { ninit++; for (int i = 0; i < nr; i++) for (int g = 0; g < ng; g++) this->flux()(i, g) = phi[0][i][g]; }
    void update_incoming_flux() override {}
    void get_pin_flux_1g(int, ArrayB1 &f, MeshTreatment) const override { f = 1.0; }
    real_t set_pin_flux_1g(int, const ArrayB1 &, MeshTreatment) override { return 0.0; }
    SP_XSMeshHomogenized_t get_homogenized_xsmesh() override { return std::make_shared<XSMeshHomogenized>(this->mesh()); }
    void assign_source(Source *s) override { src = s; TransportSweeper::assign_source(s); }
    void output(H5Node &n) const override
    {
        VecF v;
        for (int i = 0; i < nr; i++) for (int g = 0; g < ng; g++) v.push_back(this->flux()(i, g));
        n.write("state", v);
    }
    std::vector<Flux> phi;
    json sweeps = json::array();
    int ninit = 0, nr, ng;

private:
    std::mt19937_64 rng;
    Source *src = nullptr;
    std::vector<std::vector<double>> nf;
    double U(double a, double b) { return a + (b - a) * std::uniform_real_distribution<double>(0, 1)(rng); }
    double total(const Flux &f) const { double t = 0; for (int i = 0; i < nr; i++) for (int g = 0; g < ng; g++) t += this->volumes()[i] * nf[i][g] * f[i][g]; return t; }
    std::vector<double> shape(const Flux &f) const
    {
        std::vector<double> s(nr, 0.);
        double t = 0; int n = 0;
        for (int i = 0; i < nr; i++) { for (int g = 0; g < ng; g++) s[i] += nf[i][g] * f[i][g]; t += s[i]; n += s[i] > 0; }
        for (auto &x : s) x *= t > 0 ? n / t : 0;
        return s;
    }
    // The script: per iteration the intended changes as multiples of the tolerances
    void plan()
    {
        Flux f(nr, std::vector<double>(ng));
        for (auto &r : f) for (auto &x : r) x = U(.2, 2);
        phi.push_back(f);
        double k = 1;
        double kt = g_case["ktol"].get<double>(), pt = g_case["ptol"].get<double>();
        int nfis = 0;
        for (auto &r : nf) { double m = 0; for (double x : r) m = std::max(m, x); nfis += m > 0; }
        for (auto &st : g_case["steps"]) {
            const Flux o = phi.back();
            Flux n = o, u = o;
            for (auto &r : u) for (auto &x : r) x = U(-1, 1);
            auto blend = [&](double e) { for (int i = 0; i < nr; i++) for (int g = 0; g < ng; g++) n[i][g] = o[i][g] * (1 + e * u[i][g]); };
            if (g_case["mode"] == "eig") {
                double e = .02 * std::min(1., pt * 10);
                blend(e);
                auto so = shape(o), sn = shape(n);
                double d = 0;
                for (int i = 0; i < nr; i++) d += (so[i] - sn[i]) * (so[i] - sn[i]);
                d = std::sqrt(d / std::max(nfis, 1));
                if (d > 0) blend(std::min(.5, e * st["p"].get<double>() * pt / d));
                double want = 1 + (U(0, 1) < .5 ? -1 : 1) * st["k"].get<double>() * kt / k;
                if (want < .2) want = 2 - want;
                double s = total(n) > 0 ? want * total(o) / total(n) : 1;
                for (auto &r : n) for (auto &x : r) x *= s;
                if (total(o) > 0) k *= total(n) / total(o);
            } else {
                double d = 0;
                for (int i = 0; i < nr; i++) for (int g = 0; g < ng; g++) { double x = o[i][g] * u[i][g]; d += x * x; }
                blend(std::min(.5, st["p"].get<double>() * pt / std::sqrt(d)));
            }
            phi.push_back(n);
        }
    }
};

namespace mocc {
UP_Sweeper_t TransportSweeperFactory(const pugi::xml_node &input, const CoreMesh &mesh)
{
    auto x = input.child("sweeper");
    std::string t = x.attribute("type").value();
    UP_Sweeper_t s;
    if (t == "script") s.reset(new Script(x, mesh));
    else if (t == "moc") s.reset(new moc::MoCSweeper(x, mesh));
    else if (t == "2d3d") s.reset(new cmdo::PlaneSweeper_2D3D(x, mesh));
    else s = SnSweeperFactory(x, mesh);
    return s;
}
}

static json fluxj(const TransportSweeper &s)
{
    json f = json::array();
    for (int i = 0; i < (int)s.flux().extent(0); i++) { json q = json::array(); for (int g = 0; g < s.n_group(); g++) q.push_back(s.flux()(i, g)); f.push_back(q); }
    return f;
}
static json one(const json &c)
{
    g_case = c;
    pugi::xml_document doc;
    hv::load(c, doc);
    global::case_name = "hv";
    std::vector<std::string> names;
    if (DIR *d = opendir(".")) {
        while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n.compare(0, 3, "hv_") == 0 || n == "res.h5") names.push_back(n); }
        closedir(d);
    }
    for (auto &n : names) std::remove(n.c_str());
    CoreMesh mesh(doc);
    std::unique_ptr<Solver> sol;
    bool eig = c["mode"] == "eig";
    if (!eig && c["ext"].size()) hv::h5write2("source.h5", "source", c["ext"]);
    const TransportSweeper *sw;
    if (eig) { auto p = new EigenSolver(doc.child("solver"), mesh); sol.reset(p); sw = p->sweeper(); }
    else { auto p = new FixedSourceSolver(doc.child("solver"), mesh); sol.reset(p); sw = p->sweeper(); }
    json r;
    r["xs"] = hv::xsj(sw->xs_mesh(), false);
    r["vol"] = hv::vecj(sw->volumes());
    std::string exc;
    std::cout.flush(); std::fflush(stdout);
    int keep = dup(1), fd = open("said.txt", O_RDWR | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 1);
    try { sol->solve(); } catch (const std::exception &e) { exc = e.what(); }
    std::cout.flush(); std::fflush(stdout);
    dup2(keep, 1); close(keep); close(fd);
    r["fail"] = exc.size() ? 1 : 0;
    std::ifstream sf("said.txt");
    std::string text((std::istreambuf_iterator<char>(sf)), std::istreambuf_iterator<char>());
    r["said"] = std::regex_search(text, std::regex("max|not conv|fail", std::regex::icase)) ? 1 : 0;
    const Script *sc = dynamic_cast<const Script *>(sw);
    if (sc) {
        r["phi"] = sc->phi; r["sweeps"] = sc->sweeps; r["ninit"] = sc->ninit;
    }
    if (exc.empty()) {
        { H5Node f("res.h5", H5Access::WRITE); sol->output(f); }
        hv::H5R f("res.h5");
        r["k"] = f.v("convergence/k"); r["ek"] = f.v("convergence/error_k"); r["ep"] = f.v("convergence/error_psi");
        r["nt"] = (int)f.v("convergence/iteration_time").size();
        if (sc) r["state"] = f.v("state");
        else {
            r["flux"] = fluxj(*sw);
            json pf = json::array(), ff = json::array();
            auto a = sw->get_pin_flux(MeshTreatment::PIN);
            for (int g = 0; g < sw->n_group(); g++) {
                json q = json::array();
                for (int i = 0; i < (int)a.extent(0); i++) q.push_back(a(i, g));
                pf.push_back(q);
                char n[20];
                std::snprintf(n, 20, "flux/%03d", g + 1);
                ff.push_back(f.get(n));
            }
            r["pin"] = pf; r["file"] = ff;
            r["power"] = f.get("pin_powers");
            json cell = json::array();
            if (c["rep"] == "moc") {
                int ip = 0;
                for (auto &mp : mesh.macroplanes()) {
                    int ipin = 0;
                    for (const auto pin : mp) {
                        auto pos = mesh.pin_position(ipin++);
                        for (int k = 0; k < pin->n_reg(); k++) cell.push_back(ip * mesh.nx() * mesh.ny() + pos.y * mesh.nx() + pos.x + 1);
                    }
                    ip++;
                }
            } else for (int i = 0; i < (int)a.extent(0); i++) cell.push_back(i + 1);
            r["cell"] = cell;
        }
    }
    r["dump"] = json::array();
    if (eig) for (auto &n : c["ask"]) {
        std::string fn = "hv_iter_" + std::to_string(n.get<int>()) + ".h5";
        json d{{"n", n}, {"there", hv::h5has(fn) ? 1 : 0}, {"k", json::array()}, {"state", json::array()}};
        if (hv::h5has(fn)) { hv::H5R f(fn); d["k"] = f.v("convergence/k"); d["state"] = f.v("state"); }
        r["dump"].push_back(d);
    }
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
