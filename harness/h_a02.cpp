#include "geo.hpp"
#include "core/angular_quadrature.hpp"
#include "core/boundary_condition.hpp"
static Boundary kind(const std::string &s)
{
    return s == "vacuum" ? Boundary::VACUUM : s == "reflect" ? Boundary::REFLECT : Boundary::PRESCRIBED;
}
static void put(BoundaryCondition &b, int g, const json &v)
{
    for (size_t a = 0; a < v.size(); a++)
        for (int n = 0; n < 3; n++) {
            if (v[a][n].empty()) continue;
            auto f = b.get_face(g, a, (Normal)n);
            if (f.first != (int)v[a][n].size()) throw std::runtime_error("face size");
            for (int i = 0; i < f.first; i++) f.second[i] = v[a][n][i].get<double>();
        }
}
static json get(BoundaryCondition &b, const json &like, int ng)
{
    json r = json::array();
    for (int g = 0; g < ng; g++) {
        json ga = json::array();
        for (size_t a = 0; a < like.size(); a++) {
            json fa = json::array();
            for (int n = 0; n < 3; n++) {
                json f = json::array();
                if (!like[a][n].empty()) {
                    std::vector<double> buf(like[a][n].size(), -1.0);
                    b.copy_face(g, a, (Normal)n, buf.data());
                    for (double x : buf) f.push_back(x);
                }
                fa.push_back(f);
            }
            ga.push_back(fa);
        }
        r.push_back(ga);
    }
    return r;
}
static json one(const json &c)
{
    pugi::xml_document doc;
    doc.load_string(c["quad"].get<std::string>().c_str());
    AngularQuadrature q(doc.child("ang_quad"));
    BC_Type_t bt;
    for (int i = 0; i < 6; i++) bt[i] = kind(c["bc"][i]);
    std::vector<BC_Size_t> sz;
    for (auto &s : c["size"]) sz.push_back({s[0], s[1], s[2]});
    int ng = c["ng"];
    std::unique_ptr<BoundaryCondition> in, out;
    if (c["uniform"].get<int>()) {
        in.reset(new BoundaryCondition(ng, q, bt, sz[0], c["dim"].get<int>()));
        out.reset(new BoundaryCondition(1, q, bt, sz[0], c["dim"].get<int>()));
    } else {
        in.reset(new BoundaryCondition(ng, q, bt, sz, c["dim"].get<int>()));
        out.reset(new BoundaryCondition(1, q, bt, sz, c["dim"].get<int>()));
    }
    json r;
    in->initialize_scalar(c["val"].get<double>());
    r["init"] = get(*in, c["start"][0], ng);
    for (int g = 0; g < ng; g++) put(*in, g, c["start"][g]);
    r["start"] = get(*in, c["start"][0], ng);
    int whole  = 1;
    for (int g = 0; g < ng; g++)
        for (size_t a = 0; a < sz.size(); a++) {
            if (sz[a][0] + sz[a][1] + sz[a][2] == 0) continue;
            auto w = in->get_boundary(g, a);
            int k  = 0;
            for (int n = 0; n < 3; n++)
                for (auto &x : c["start"][g][a][n])
                    if (k >= w.first || w.second[k++] != x.get<double>()) whole = 0;
            if (k != w.first) whole = 0;
        }
    r["whole"] = whole;
    r["after"] = json::array();
    for (auto &op : c["ops"]) {
        put(*out, 0, op["out"]);
        if (op["angle"].get<int>() < 0)
            in->update(op["g"], *out);
        else
            in->update(op["g"], op["angle"].get<int>(), *out);
        r["after"].push_back(get(*in, c["start"][0], ng));
    }
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
