#include "common.hpp"
#include "core/exponential.hpp"
using namespace mocc;
template <int N> static json table(const json &c)
{
    // keep what follows the table in memory at a known, poisonous value
    struct Block { double before; Exponential_Linear<N> e; double after[4]; };
    std::vector<char> mem(sizeof(Block) + 64, char(0xff));
    void *p = mem.data();
    size_t sz = mem.size();
    Block *b = static_cast<Block *>(std::align(64, sizeof(Block), p, sz));
    new (&b->e) Exponential_Linear<N>(c["lo"].get<double>(), c["hi"].get<double>());
    for (auto &a : b->after) a = std::nan("");
    json v = json::array(), base = json::array();
    Exponential e0;
    for (double x : c["vs"]) { v.push_back(b->e.exp(x)); base.push_back(e0.exp(x)); }
    return {{"vals", v}, {"base", base}, {"maxerr", b->e.max_error()}, {"dx", b->e.dx()}};
}
static json one(const json &c)
{
    switch (c["n"].get<int>()) {
    case 1: return table<1>(c);
    case 2: return table<2>(c);
    case 3: return table<3>(c);
    case 5: return table<5>(c);
    case 16: return table<16>(c);
    case 100: return table<100>(c);
    case 999: return table<999>(c);
    case 10000: return table<10000>(c);
    }
    throw std::runtime_error("size");
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
