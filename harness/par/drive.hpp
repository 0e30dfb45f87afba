// Run a computation with one thread and then under many schedules, each in a
// process of its own, and report the different outcomes.
#pragma once
#include "../geo.hpp"
#include "par.hpp"
#include <csignal>
#include <fcntl.h>
#include <random>
#include <sys/wait.h>
namespace hv {
inline json child(const par::Setup &s, const std::function<json()> &f)
{
    char name[] = "run.json";
    std::remove(name);
    std::cout.flush(); std::cerr.flush();
    pid_t p = fork();
    if (p == 0) {
        alarm(60);
        int st = 0;
        try {
            par::begin(s);
            json r;
            try { r["res"] = f(); r["exc"] = ""; }
            catch (const std::exception &e) { r["res"] = json::array(); r["exc"] = e.what(); }
            auto q = par::end();
            r["regions"] = q.regions; r["switches"] = q.switches; r["choices"] = q.choices; r["fired"] = q.fired ? 1 : 0;
            r["pat"] = json::array();
            for (auto &t : q.patterns) {
                json u = json::array();
                for (auto &c : t.uses) u.push_back({{"t", c.thread}, {"e", c.epoch}, {"k", c.kind}, {"l", c.locks}, {"first", c.access}, {"last", c.last}});
                r["pat"].push_back({{"region", t.region}, {"n", t.addresses}, {"uses", u}});
            }
            std::ofstream o(name);
            o << r.dump(-1, ' ', false, json::error_handler_t::replace);
        } catch (...) { st = 3; }
        _exit(st);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
        int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
        return {{"res", json::array()}, {"exc", sig == SIGALRM ? "no end" : WEXITSTATUS(st) == 77 && !sig ? "deadlock" : "stopped"}, {"regions", 0}, {"switches", 0}, {"choices", 0}, {"fired", 0}, {"pat", json::array()}};
    }
    std::ifstream i(name);
    return json::parse(i);
}
inline bool clash(const json &u, const json &v)
{
    if (u["t"] == v["t"] || u["e"] != v["e"]) return false;
    int a = u["k"], b = v["k"];
    if ((a == 0 && b == 0) || (a == 2 && b == 2)) return false;
    for (auto &x : u["l"]) for (auto &y : v["l"]) if (x == y) return false;
    return true;
}
// one: what a run with one thread gives; many: the same problem for more threads
inline json drive(const json &c, const std::function<json()> &one, const std::function<json()> &many)
{
    json r;
    json base = child(par::Setup(), one);
    r["base"] = base["res"]; r["baseexc"] = base["exc"];
    std::map<std::string, int> seen, pool;
    r["pool"] = json::array();
    r["outcomes"] = json::array(); r["runs"] = json::array();
    uint64_t choices = 0, switches = 0;
    auto note = [&](const json &plan, const json &q) {
        json o{{"res", json::array()}, {"exc", q["exc"]}};
        for (auto &x : q["res"]) {
            auto e = pool.emplace(x.dump(), (int)pool.size() + 1);
            if (e.second) r["pool"].push_back(x);
            o["res"].push_back(e.first->second);
        }
        auto it = seen.emplace(o.dump(), (int)seen.size() + 1);
        if (it.second) r["outcomes"].push_back(o);
        json p = plan;
        p["o"] = it.first->second; p["fired"] = q["fired"]; p["regions"] = q["regions"];
        r["runs"].push_back(p);
        choices += q["choices"].get<uint64_t>(); switches += q["switches"].get<uint64_t>();
    };
    for (auto &pl : c["plans"]) {
        par::Setup s;
        s.threads = pl["threads"];
        for (auto &x : pl["schedule"]) s.schedule.push_back(x);
        note({{"threads", s.threads}, {"stop", json::array()}}, child(s, many));
    }
    std::mt19937 rng(c["seed"].get<int>());
    r["pat"] = json::array();
    r["clashes"] = 0;
    for (auto &d : c["directed"]) {
        par::Setup s;
        s.threads = d["threads"];
        s.record = true;
        s.maxregions = d["regions"];
        json q = child(s, many);
        note({{"threads", s.threads}, {"stop", json::array()}}, q);
        // one of every kind of clash over all regions, then others at random
        std::vector<json> todo, more;
        std::map<std::string, int> kinds;
        for (auto &p : q["pat"]) {
            bool any = false;
            json sig = json::array();
            for (auto &u : p["uses"]) for (auto &v : p["uses"]) if (clash(u, v)) { any = true; sig.push_back({u["e"], u["k"], v["k"], u["l"].size(), v["l"].size()}); }
            if (!any) continue;
            r["clashes"] = r["clashes"].get<int>() + 1;
            (kinds[sig.dump()]++ ? more : todo).push_back(p);
        }
        std::shuffle(todo.begin(), todo.end(), rng);
        std::shuffle(more.begin(), more.end(), rng);
        todo.insert(todo.end(), more.begin(), more.end());
        if ((int)todo.size() > d["cap"].get<int>()) todo.resize(d["cap"].get<int>());
        s.record = false;
        int id = r["pat"].size();
        for (auto &p : todo) {
            p["threads"] = s.threads;
            r["pat"].push_back(p);
            id++;
            std::set<std::vector<uint64_t>> done;
            for (auto &u : p["uses"]) for (auto &v : p["uses"]) {
                if (!clash(u, v)) continue;
                std::vector<const char *> ends = {"first", "last"};
                for (auto e : ends) {
                    std::vector<uint64_t> k = {u["t"].get<uint64_t>(), v["t"].get<uint64_t>(), u[e].get<uint64_t>()};
                    if (!done.insert(k).second || (int)done.size() > d["each"].get<int>()) continue;
                    s.schedule.clear();
                    if (done.size() % 2) for (int i = 0; i < 31; i++) s.schedule.push_back(rng() % 60);
                    s.stop.region = p["region"]; s.stop.a = k[0]; s.stop.b = k[1]; s.stop.access = k[2];
                    note({{"threads", s.threads}, {"stop", {id, k[0], k[1]}}}, child(s, many));
                }
            }
        }
    }
    r["choices"] = (double)choices; r["switches"] = (double)switches;
    return r;
}
}
