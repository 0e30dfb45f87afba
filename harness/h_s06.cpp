#include <random>
#include <cstdio>
#include "xsj.hpp"
#include "h5r.hpp"
#include "util/h5file.hpp"
#include "sweepers/moc/moc_sweeper.hpp"
#include "sweepers/sn_sweeper_factory.hpp"
#include "sweepers/cmdo/plane_sweeper_2d3d.hpp"
static json one(const json &c)
{
    pugi::xml_document doc;
    hv::load(c, doc);
    CoreMesh mesh(doc);
    std::mt19937_64 rng(c["seed"].get<int>());
    auto U = [&](double a, double b) { return a + (b - a) * std::uniform_real_distribution<double>(0, 1)(rng); };
    std::string kind = c["kind"];
    bool expose = c["expose"].get<int>();
    std::unique_ptr<TransportSweeper> sw;
    auto x = doc.child("sweeper");
    if (kind == "sn") sw = SnSweeperFactory(x, mesh);
    else if (kind == "moc") sw.reset(new moc::MoCSweeper(x, mesh));
    else sw.reset(new cmdo::PlaneSweeper_2D3D(x, mesh));
    sw->initialize();
    int ng = sw->n_group();
    json r;
    auto pf = [&](MeshTreatment t) {
        json a = json::array();
        auto f = sw->get_pin_flux(t);
        for (int g = 0; g < ng; g++) { json q = json::array(); for (int i = 0; i < (int)f.extent(0); i++) q.push_back(f(i, g)); a.push_back(q); }
        return a;
    };
    // the flux array of the combined sweeper is that of its MoC part; its Sn part is seen through the pin flux
    auto mflux = [&]() { json f = json::array(); for (int i = 0; i < (int)sw->flux().extent(0); i++) { json q = json::array(); for (int g = 0; g < ng; g++) q.push_back(sw->flux()(i, g)); f.push_back(q); } return f; };
    auto sflux = [&]() { if (kind == "sn") return mflux(); auto a = pf(MeshTreatment::PIN); json f = json::array(); for (size_t i = 0; i < a[0].size(); i++) { json q = json::array(); for (int g = 0; g < ng; g++) q.push_back(a[g][i]); f.push_back(q); } return f; };
    if (kind == "2d3d") {
        ArrayB1 w(mesh.n_reg(MeshTreatment::PIN));
        for (int g = 0; g < ng; g++) {
            for (auto &v : w) v = U(.1, 3);
            sw->set_pin_flux_1g(g, w, MeshTreatment::PIN);
        }
    }
    for (int i = 0; i < (int)sw->flux().extent(0); i++) for (int g = 0; g < ng; g++) sw->flux()(i, g) = U(.1, 3);
    for (auto &d : c["dead"]) for (int i = 0; i < (int)c["pin"].size(); i++) if (c["pin"][i] == d) for (int g = 0; g < ng; g++) sw->flux()(i, g) = 0;
    bool hs = kind == "sn" || (kind == "2d3d" && expose), hm = kind != "sn";
    if (hs) r["sn"] = {{"flux", sflux()}, {"cell", c["pin"]}, {"vol", c["hpin"]}};
    if (hm) {
        json cell = json::array(), vol = json::array();
        int ip = 0;
        for (auto &mp : mesh.macroplanes()) {
            int ipin = 0;
            for (const auto pin : mp) {
                auto pos = mesh.pin_position(ipin++);
                for (int k = 0; k < pin->n_reg(); k++) { cell.push_back(ip * mesh.nx() * mesh.ny() + pos.y * mesh.nx() + pos.x + 1); vol.push_back(pin->areas()[k]); }
            }
            ip++;
        }
        r["moc"] = {{"flux", mflux()}, {"cell", cell}, {"vol", vol}};
    }
    r["ops"] = json::array();
    for (auto &op : c["ops"]) {
        json o;
        auto t = op["t"] == "pin" ? MeshTreatment::PIN : MeshTreatment::PIN_PLANE;
        ArrayB1 w(op["want"].size());
        for (size_t i = 0; i < op["want"].size(); i++) w(i) = op["want"][i].get<double>();
        o["diff"] = sw->set_pin_flux_1g(op["g"].get<int>(), w, t);
        if (hs) o["sn"] = {{"flux", sflux()}};
        if (hm) o["moc"] = {{"flux", mflux()}};
        o["seen"] = hs ? "sn" : "moc";
        o["pin"] = pf(MeshTreatment::PIN);
        o["plane"] = pf(MeshTreatment::PIN_PLANE);
        r["ops"].push_back(o);
    }
    // what the result file says of the final state
    r["xs"] = hv::xsj(sw->xs_mesh(), false);
    std::remove("res.h5");
    { H5Node h("res.h5", H5Access::WRITE); sw->output(h); }
    hv::H5R h("res.h5");
    auto part = [&](const std::string &at) {
        json f{{"flux", json::array()}, {"dims", json::array()}, {"fsr", json::array()}};
        for (int g = 1; g <= ng; g++) {
            char b[8];
            std::snprintf(b, 8, "%03d", g);
            auto d = h.get(at + "flux/" + b);
            f["flux"].push_back(d["v"]);
            f["dims"].push_back(d["dims"]);
            if (h.has(at + "fsr_flux/" + b)) f["fsr"].push_back(h.v(at + "fsr_flux/" + b));
        }
        f["pow"] = h.get(at + "pin_powers");
        f["pow2"] = h.has(at + "pin_powers_2d") ? h.get(at + "pin_powers_2d") : json{{"dims", json::array()}, {"v", json::array()}};
        return f;
    };
    if (kind != "2d3d") r["file"] = {{kind, part("")}};
    else r["file"] = {{"sn", part("Sn/")}, {"moc", part("MoC/")}};
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
