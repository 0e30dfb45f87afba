#include "common.hpp"
#include "util/string_utils.hpp"
#include "util/global_config.hpp"

static json num(int v)
{
    std::string s = std::to_string(v);
    bool neg      = s[0] == '-';
    if (neg) s = s.substr(1);
    json mag = json::array();
    for (char c : s) mag.push_back(std::string(1, c));
    return json{{"neg", neg}, {"mag", mag}};
}
static json nums(const std::vector<int> &v)
{
    json r = json::array();
    for (int i : v) r.push_back(num(i));
    return r;
}
static json one(const json &c)
{
    std::string op = c["op"];
    json r;
    if (op == "range") {
        std::vector<bool> b;
        for (int x : c["bits"]) b.push_back(x != 0);
        json ch = json::array();
        for (char k : print_range(b)) ch.push_back(std::string(1, k));
        r["chars"] = ch;
        return r;
    }
    std::string t;
    for (std::string s : c["text"]) t += s;
    if (op == "braces") {
        json g = json::array();
        for (auto &v : explode_braces(t)) g.push_back(nums(v));
        r["groups"] = g;
    }
    else if (op == "ints") {
        r["nums"] = nums(explode_string<int>(t));
    }
    else {
        json v = json::array();
        for (auto x : explode_string<mocc::real_t>(t)) v.push_back((double)x);
        r["vals"] = v;
    }
    return r;
}
int main(int argc, char **argv)
{
    return hv::run_cases(argc, argv, one);
}
