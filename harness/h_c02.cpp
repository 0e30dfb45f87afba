// One problem solved with and without acceleration.
#include <cstdio>
#include <fcntl.h>
#include "xsj.hpp"
#include "h5r.hpp"
#include "core/globals.hpp"
#include "core/transport_sweeper.hpp"
#include "solvers/eigen_solver.hpp"
#include "util/h5file.hpp"
static json one(const json &c)
{
    json r{{"runs", json::array()}};
    for (auto &run : c["runs"]) {
        json d{{"lib", c["lib"]}, {"xml", c["xml"].get<std::string>() + run["solver"].get<std::string>()}};
        pugi::xml_document doc;
        hv::load(d, doc);
        global::case_name = "hv";
        std::remove("res.h5");
        CoreMesh mesh(doc);
        json o;
        std::string exc;
        std::cout.flush(); std::fflush(stdout);
        int keep = dup(1), fd = open("said.txt", O_RDWR | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 1);
        try {
            EigenSolver s(doc.child("solver"), mesh);
            s.solve();
            { H5Node f("res.h5", H5Access::WRITE); s.output(f); }
            auto sw = s.sweeper();
            auto a = sw->get_pin_flux(MeshTreatment::PIN_PLANE);
            json pf = json::array(), fl = json::array();
            for (int i = 0; i < (int)a.extent(0); i++) for (int g = 0; g < sw->n_group(); g++) pf.push_back(a(i, g));
            for (int i = 0; i < (int)sw->flux().extent(0); i++) for (int g = 0; g < sw->n_group(); g++) fl.push_back(sw->flux()(i, g));
            o["pin"] = pf; o["flux"] = fl;
        } catch (const std::exception &e) { exc = e.what(); }
        std::cout.flush(); std::fflush(stdout);
        dup2(keep, 1); close(keep); close(fd);
        o["fail"] = exc;
        if (exc.empty()) {
            hv::H5R f("res.h5");
            o["k"] = f.v("convergence/k"); o["ek"] = f.v("convergence/error_k"); o["ep"] = f.v("convergence/error_psi");
        }
        r["runs"].push_back(o);
    }
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
