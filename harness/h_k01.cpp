#include "geo.hpp"
#include "util/rng_lcg.hpp"
#include "mc/particle_pusher.hpp"
static uint64_t num(const json &l)
{
    uint64_t v = 0;
    for (int i = (int)l.size() - 1; i >= 0; i--) v = (v << 15) | l[i].get<uint64_t>();
    return v;
}
static json limbs(uint64_t v)
{
    json r = json::array();
    for (int i = 0; i < 5; i++, v >>= 15) r.push_back((int)(v & 32767));
    return r;
}
static json one(const json &c)
{
    json r;
    if (c["op"] == "ops") {
        RNG_LCG g(num(c["seed"]));
        r["ops"] = json::array();
        for (auto &op : c["ops"]) {
            std::string k = op["k"];
            json o        = json::object();
            o["k"]        = k;
            if (k == "next") o["state"] = limbs(g());
            else if (k == "seed") g.set_seed(num(op["s"]));
            else if (k == "jump") g.jump_ahead(num(op["n"]));
            else if (k == "unit") o["v"] = g.random();
            else if (k == "upto") o["v"] = g.random(op["hi"].get<double>());
            else if (k == "range") o["v"] = g.random(op["lo"].get<double>(), op["hi"].get<double>());
            else if (k == "int") o["i"] = g.random_int(op["n"].get<int>());
            else if (k == "cdf") o["i"] = g.sample_cdf(op["c"].get<std::vector<real_t>>());
            else if (k == "copy") { RNG_LCG h; h = g; h(); RNG_LCG f(g); f(); f(); o["state"] = limbs(g()); }
            r["ops"].push_back(o);
        }
        return r;
    }
    pugi::xml_document doc;
    hv::load(c, doc);
    CoreMesh mesh(doc);
    XSMesh xs(mesh, MeshTreatment::TRUE);
    mc::ParticlePusher push(mesh, xs);
    push.set_seed(num(c["seed"]));
    Point3 start(200.0, 200.0, 200.0);
    r["d"] = json::array();
    // histories given by their number: first `before` particles in banks,
    // then the ones asked for
    for (auto &h : c["hist"]) {
        push.fission_bank().clear();
        mc::Particle p(start, Direction(0.3, 1.1), 0, (unsigned)num(h["id"]));
        push.simulate(p);
        auto &b = push.fission_bank();
        if (b.size() == 0) throw std::runtime_error("no fission");
        Point3 q = b[0].location_global;
        r["d"].push_back(std::sqrt(std::pow(q.x - start.x, 2) + std::pow(q.y - start.y, 2) + std::pow(q.z - start.z, 2)));
    }
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
