#include "mocrun.hpp"
static json one(const json &c) { return moc_run<moc::MoCSweeper>(c); }
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
