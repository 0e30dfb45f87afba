#include "xsj.hpp"
static json one(const json &c)
{
    pugi::xml_document doc;
    hv::load(c, doc);
    CoreMesh mesh(doc);
    bool hom = c["hom"].get<int>();
    std::shared_ptr<XSMesh> x;
    ArrayB2 flux(mesh.n_reg(MeshTreatment::PLANE), mesh.mat_lib().n_group());
    flux = 1.0;
    if (hom) {
        auto h = std::make_shared<XSMeshHomogenized>(mesh);
        h->set_flux(flux);
        x = h;
    } else x = std::make_shared<XSMesh>(mesh, c["true"].get<int>() ? MeshTreatment::TRUE : MeshTreatment::PLANE);
    int n = x->n_reg_expanded(), ng = x->n_group();
    ExpandedXS own(x.get());
    ExpandedXS shared(own), assigned, other(x.get());
    assigned          = own;
    ExpandedXS *h[4]  = {&own, &shared, &assigned, &other};
    json r;
    r["ops"] = json::array();
    for (auto &op : c["ops"]) {
        json o;
        std::string k = op["k"];
        ExpandedXS &e = *h[op["h"].get<int>()];
        int g         = op["g"];
        if (k == "u") {
            RNG_LCG rng(op["seed"].get<int>());
            for (auto &v : flux) v = 0.05 + rng.random();
            x->update();
        } else if (k == "s") {
            ArrayB1 s((int)op["split"].size());
            for (int i = 0; i < (int)s.size(); i++) s(i) = op["split"][i].get<double>();
            e.expand(g, s);
        } else e.expand(g);
        json cur = json::array();
        for (int i = 0; i < n; i++) cur.push_back(std::vector<double>(ng, 0.0));
        for (auto &reg : *x)
            for (int i : reg.reg()) for (int q = 0; q < ng; q++) cur[i][q] = reg.xsmactr(q);
        o["cur"] = cur;
        o["xs"]  = json::array();
        for (int i = 0; i < e.size(); i++) o["xs"].push_back(e[i]);
        r["ops"].push_back(o);
    }
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
