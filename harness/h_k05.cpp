#include "geo.hpp"
#include <cstring>
#include "mc/fission_bank.hpp"
using mc::FissionBank;
using mc::Particle;
static json show(const FissionBank &b)
{
    json r;
    r["sites"] = json::array();
    for (int i = 0; i < b.size(); i++) r["sites"].push_back({{"id", (int)b[i].id}, {"w", b[i].weight}});
    r["total"] = b.total_fission();
    r["h"]     = b.size() ? b.shannon_entropy() : 0.0;
    return r;
}
static json one(const json &c)
{
    pugi::xml_document doc;
    hv::load(c, doc);
    CoreMesh mesh(doc);
    json r;
    // fresh banks in memory that is not zero
    alignas(16) static unsigned char mem[2][sizeof(FissionBank) + 64];
    std::memset(mem, 0x4b, sizeof mem);
    FissionBank &a = *new (mem[0]) FissionBank(mesh), &b = *new (mem[1]) FissionBank(mesh);
    if (c["op"] == "even") {
        int m = c["m"], n = c["n"];
        std::vector<int> count(m, 0);
        RNG_LCG seeds(c["seed"].get<int>());
        for (int t = 0; t < c["trials"].get<int>(); t++) {
            a.clear();
            for (int i = 0; i < m; i++) { Particle p(Point3(.1, .1, .1), Direction(0.3, 1.1), 0, i); a.push_back(p); }
            seeds.jump_ahead(123456789);
            RNG_LCG g(seeds());
            a.resize(n, g);
            for (int i = 0; i < a.size(); i++) count.at(a[i].id)++;
        }
        for (int i = 0; i < m; i++) r["count"].push_back(n < m ? count[i] : count[i] - c["trials"].get<int>());
        a.~FissionBank(); b.~FissionBank();
        return r;
    }
    RNG_LCG rng(c["seed"].get<int>());
    auto mk = [&](const json &s) {
        auto &q = c["pts"][s["id"].get<int>() - 1];
        Particle p(Point3(q[0], q[1], q[2]), Direction(0.3, 1.1), 0, s["id"].get<unsigned>());
        p.weight = s["w"];
        return p;
    };
    r["start"] = {{"a", show(a)}, {"b", show(b)}};
    r["ops"]   = json::array();
    for (auto &op : c["ops"]) {
        std::string k = op["k"];
        json o        = {{"refused", 0}};
        if (k == "push" || k == "pushb") for (auto &s : op["s"]) { Particle p = mk(s); (k == "push" ? a : b).push_back(p); }
        else if (k == "clear") a.clear();
        else if (k == "swap") a.swap(b);
        else if (k == "resize") {
            try { a.resize(op["n"].get<unsigned>(), rng); } catch (const Exception &) { o["refused"] = 1; }
        }
        o["a"] = show(a);
        o["b"] = show(b);
        r["ops"].push_back(o);
    }
    a.~FissionBank(); b.~FissionBank();
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
