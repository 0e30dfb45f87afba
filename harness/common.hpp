// Common frame of all harnesses: read one JSON case per line, run it on the
// real code, write one JSON result per line.  Doubles are written with full
// precision and always as floating-point literals.
#pragma once
#include <unistd.h>
#include <sys/time.h>
#include <csignal>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <cmath>
#include <sstream>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>
using json = nlohmann::json;

namespace hv {
// Redirect stdout/stderr of the code under test, keep the result file apart.
inline int run_cases(int argc, char **argv, std::function<json(const json &)> f)
{
    if (argc < 4) { std::cerr << "usage: h cases out start [timeout]\n"; return 2; }
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2], std::ios::app);
    int start = std::atoi(argv[3]);
    int lim   = argc > 4 ? std::atoi(argv[4]) : 120;
    std::string line;
    int i = 0;
    while (std::getline(in, line)) {
        if (i++ < start) continue;
        json c = json::parse(line);
        json r;
        alarm(lim);
        try {
            r = f(c);
        } catch (const std::exception &e) {
            std::string w = e.what();
            if (w.size() > 400) w.resize(400);
            r = json{{"exc", w}};
        } catch (...) {
            r = json{{"exc", "unknown"}};
        }
        alarm(0);
        out << r.dump(-1, ' ', false, json::error_handler_t::replace) << "\n";
        out.flush();
    }
    return 0;
}
}
