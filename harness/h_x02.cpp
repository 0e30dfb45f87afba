#include "geo.hpp"
#include "core/scattering_matrix.hpp"
static json rows(const ScatteringMatrix &m)
{
    json r = json::array();
    for (auto &row : m) {
        json v = json::array();
        for (const real_t *p = row.begin(); p != row.end(); ++p) v.push_back(*p);
        r.push_back({{"lo", row.min_g}, {"hi", row.max_g}, {"v", v}});
    }
    return r;
}
static json one(const json &c)
{
    std::vector<VecF> a = c["m"].get<std::vector<VecF>>(), b = c["m2"].get<std::vector<VecF>>();
    int ng = a.size();
    std::unique_ptr<ScatteringMatrix> m(new ScatteringMatrix(a));
    ScatteringMatrix other(b);
    json r;
    r["ng"]   = m->n_group();
    r["rows"] = json::array();
    for (int g = 0; g < ng; g++) {
        auto &row = m->to(g);
        json v    = json::array();
        for (int i = row.min_g; i <= row.max_g; i++) v.push_back(row[i]);
        r["rows"].push_back({{"lo", row.min_g}, {"hi", row.max_g}, {"v", v}});
        r["self"].push_back(m->self_scat(g));
        r["tot"].push_back(m->out(g));
        r["cdf"].push_back(hv::vecj(m->out_cdf(g)));
        r["roweq"].push_back(m->to(g) == other.to(g) ? 1 : 0);
    }
    r["dense"] = hv::vecj(m->as_vector());
    ArrayB2 arr(ng, ng);
    for (int i = 0; i < ng; i++)
        for (int j = 0; j < ng; j++) arr(i, j) = a[i][j];
    r["array"]   = hv::vecj(ScatteringMatrix(arr).as_vector());
    r["eqother"] = *m == other ? 1 : 0;
    r["neother"] = *m != other ? 1 : 0;
    ScatteringMatrix cp(*m), as(b);
    as = *m;
    r["eqself"] = (*m == *m && *m == cp && as == *m && !(*m != cp)) ? 1 : 0;
    // the copies must not depend on the original
    m.reset(new ScatteringMatrix(b));
    r["copy"]     = hv::vecj(cp.as_vector());
    r["copyrows"] = rows(cp);
    r["assigned"] = hv::vecj(as.as_vector());
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
