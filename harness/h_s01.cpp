#include "xsj.hpp"
#include "util/h5file.hpp"
#include "members.hpp"
#include "core/source_factory.hpp"
#include "sweepers/moc/moc_sweeper.hpp"
#include "sweepers/transport_sweeper_factory.hpp"
struct Moc : public moc::MoCSweeper {
    using moc::MoCSweeper::MoCSweeper;
    using moc::MoCSweeper::MOC_SPLIT;
};
static ArrayB1 a1(const json &v)
{
    ArrayB1 a((int)v.size());
    for (int i = 0; i < (int)v.size(); i++) a(i) = v[i].get<double>();
    return a;
}
static json one(const json &c)
{
    pugi::xml_document doc;
    hv::load(c, doc);
    CoreMesh mesh(doc);
    if (c["ext"].size()) {
        H5Node f("ext.h5", H5Access::WRITE);
        int n0 = c["ext"].size(), n1 = c["ext"][0].size();
        ArrayB2 e(n0, n1);
        for (int i = 0; i < n0; i++) for (int j = 0; j < n1; j++) e(i, j) = c["ext"][i][j].get<double>();
        f.write("/source", e);
    }
    UP_Sweeper_t other;
    std::unique_ptr<Moc> m;
    TransportSweeper *sw;
    if (c["sw"] == "moc") { m.reset(new Moc(doc.child("sweeper"), mesh)); sw = m.get(); }
    else { other = TransportSweeperFactory(doc, mesh); sw = other.get(); }
    UP_Source_t src = sw->create_source(doc.child("source"));
    sw->assign_source(src.get());
    int n = sw->n_reg(), ng = sw->n_group();
    auto setflux = [&](const json &v) { for (int i = 0; i < n; i++) for (int g = 0; g < ng; g++) sw->flux()(i, g) = v[i][g].get<double>(); };
    setflux(c["phi0"]);
    sw->store_old_flux();
    json r;
    r["xs"]  = hv::xsj(sw->xs_mesh(), false);
    r["vol"] = hv::vecj(sw->volumes());
    r["ops"] = json::array();
    for (auto &op : c["ops"]) {
        json o;
        std::string k = op["k"];
        int g = op["g"];
        if (k == "init") src->initialize_group(g);
        else if (k == "fission") src->fission(a1(op["v"]), g);
        else if (k == "scatter") src->in_scatter(g);
        else if (k == "aux") src->auxiliary(a1(op["v"]));
        else if (k == "scale") { VecF v; for (auto &x : op["v"]) v.push_back(x.get<double>()); src->scale(v); }
        else if (k == "leak") { m->apply_transverse_leakage(g, a1(op["v"])); o["split"] = hv::arr(m->MOC_SPLIT); }
        else if (k == "flux") setflux(op["v"]);
        else if (k == "old") sw->store_old_flux();
        else if (k == "self") {
            if (op["v"].size()) src->self_scatter(g, a1(op["v"])); else src->self_scatter(g);
            o["q"] = json::array();
            for (int i = 0; i < n; i++) o["q"].push_back(src->get_transport(op["ang"].get<int>())[i]);
        } else if (k == "fsrc") {
            ArrayB1 fs(n);
            sw->calc_fission_source(op["v"].get<double>(), fs);
            o["fs"] = hv::arr(fs);
            o["tot"] = sw->total_fission(); o["totold"] = sw->total_fission(true);
        }
        o["src"] = json::array();
        for (int i = 0; i < n; i++) o["src"].push_back((*src)[i]);
        r["ops"].push_back(o);
    }
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
