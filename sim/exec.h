#pragma once
#include "plan.h"
#include <map>
#include <set>
#include <string>
#include <unordered_set>

struct RunOut {
    bool violated = false, harnessError = false;
    std::string msg;            // first violation or error
    uint64_t digest = 0;
    std::string trace;          // readable event trace (when asked for)
    uint64_t steps = 0;         // simulated events: system calls + seam allocations
};

struct Stats {
    std::map<std::string, uint64_t> n;      // counters
    std::unordered_set<uint64_t> sigs;      // distinct non-trivial execution signatures
};
extern Stats* S;

void execInit();
RunOut execPlan(const Plan&, bool wantTrace = false);
