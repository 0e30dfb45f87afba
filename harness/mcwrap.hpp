#pragma once
// what is handed to each cycle of a Monte Carlo run, and what it leaves
#include "common.hpp"
#include "sweepers/mc/particle_pusher.hpp"
namespace hv {
struct McCycle { std::vector<mocc::mc::Particle> bank, sites; };
static std::vector<McCycle> mc_cycles;
}
extern "C" {
#define SIM _ZN4mocc2mc14ParticlePusher8simulateERKNS0_11FissionBankEd
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(__real_, SIM)(mocc::mc::ParticlePusher *, const mocc::mc::FissionBank &, double) __attribute__((weak));
void CAT(__wrap_, SIM)(mocc::mc::ParticlePusher *p, const mocc::mc::FissionBank &b, double k)
{
    hv::McCycle c;
    for (int i = 0; i < b.size(); i++) c.bank.push_back(b[i]);
    hv::mc_cycles.push_back(c);
    CAT(__real_, SIM)(p, b, k);
    auto &s = hv::mc_cycles.back().sites;
    s.assign(p->fission_bank().begin(), p->fission_bank().end());
    std::stable_sort(s.begin(), s.end(), [](const mocc::mc::Particle &a, const mocc::mc::Particle &c) { return a.id < c.id; });
}
}
