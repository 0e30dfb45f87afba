// A replaying OpenMP runtime.  It takes the place of libgomp in the p_*
// programs: of the threads of a parallel region only one runs at a time, and
// which one goes on at each point of choice is read from a schedule.  Points
// of choice are the start of a region, barriers, entry to and exit from
// critical sections, requests for loop work, and chosen memory accesses (the
// code is compiled with calls at every access).
#pragma once
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace par {
struct Stop {            // in a region, run a up to its access number, then b up to its next point of choice
    int region = -1, a = 0, b = 0;
    uint64_t access = 0;
};
struct Class {           // how an address was used
    int thread, epoch, kind;   // kind: 0 read, 1 write, 2 atomic
    std::vector<int> locks;
    uint64_t access;           // first such access of the thread in the region
    uint64_t last;             // last one
};
struct Pattern {
    int region;
    std::vector<Class> uses;
    int addresses;
};
struct Setup {
    int threads = 1;
    std::vector<int> schedule;      // used cyclically
    Stop stop;
    bool record = false;
    int maxregions = 1000000;       // regions to record
};
struct Result {
    int regions = 0;                // parallel regions executed with more than one thread
    uint64_t switches = 0, choices = 0;
    std::vector<Pattern> patterns;
    bool fired = false;             // the stop was reached
};
void begin(const Setup &s);
Result end();
}
