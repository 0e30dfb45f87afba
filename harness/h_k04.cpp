#include "geo.hpp"
#include <omp.h>
#include "mc/tally_scalar.hpp"
#include "mc/tally_spatial.hpp"
template <class F> static void spread(int nt, int n, F f)
{
    if (nt <= 1) { for (int i = 0; i < n; i++) f(i); return; }
#pragma omp parallel for num_threads(nt) schedule(dynamic, 1)
    for (int i = 0; i < n; i++) f(i);
}
static json one(const json &c)
{
    json r;
    r["ops"] = json::array();
    int nt   = c["nt"];
    if (c["op"] == "scalar") {
        mc::TallyScalar t;
        for (auto &op : c["ops"]) {
            std::string k = op["k"];
            json o        = {{"k", k}};
            if (k == "score" || k == "weight") {
                auto v = op["v"].get<std::vector<double>>();
                spread(nt, v.size(), [&](int i) { if (k == "score") t.score(v[i]); else t.add_weight(v[i]); });
            } else if (k == "reset") t.reset();
            else { auto g = t.get(); o["mean"] = g.first; o["dev"] = g.second; }
            r["ops"].push_back(o);
        }
        return r;
    }
    VecF norm = c["norm"].get<VecF>();
    mc::TallySpatial t(norm);
    for (auto &op : c["ops"]) {
        std::string k = op["k"];
        json o        = {{"k", k}};
        if (k == "score") {
            std::vector<std::pair<int, double>> v;
            for (auto &s : op["s"]) v.emplace_back(s["i"], s["v"]);
            spread(nt, v.size(), [&](int i) { t.score(v[i].first, v[i].second); });
        } else if (k == "weight") {
            auto v = op["v"].get<std::vector<double>>();
            spread(nt, v.size(), [&](int i) { t.add_weight(v[i]); });
        } else if (k == "reset") t.reset();
        else if (k == "commit") {
            if (nt > 1) {
                // committed by a team of threads, it still counts once
#pragma omp parallel num_threads(nt)
                t.commit_realization();
            } else t.commit_realization();
        }
        else { o["r"] = json::array(); for (auto &g : t.get()) o["r"].push_back({g.first, g.second}); }
        r["ops"].push_back(o);
    }
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
