// Solver front end: independence slicing, caching, Z3 back end, statistics.
#pragma once
#include "state.hpp"
#include <atomic>

struct Shared {
    std::atomic<int> active;
    std::atomic<int> stop;
    std::atomic<u64> paths, killedAssume, forks, queries, sat, unsat, unknown, cacheHits, modelHits, solverUs, steps;
    std::atomic<u64> assertsSym, assertsConc, incomplete, violations, maxPcLen, concretized, schedPoints, firstViol;
    std::atomic<int> violSlots;
    std::atomic<u64> violHash[64];
    std::atomic<int> nwit;
    std::atomic<int> covLock;
    std::atomic<int> ncov;
    char cov[256][96];
    std::atomic<u64> covHit[256];
    std::atomic<uint8_t> fnHit[65536];
};
extern Shared* SH;

enum SR { SAT_, UNSAT_, UNK_ };

struct Solver {
    unsigned timeoutMs = 20000;
    std::string dumpDir;
    u64 dumpMax = 0, dumped = 0;
    Z3_solver inc = nullptr;
    Solver();
    // is  constraints(s) && extra  satisfiable?  On SAT, `out` is a full model.
    SR check(const State& s, E extra, std::shared_ptr<const Model>& out);

private:
    struct Sup { std::vector<u32> v; bool fp; };
    std::unordered_map<E, Sup> sup;
    const Sup& support(E e);
    struct CacheEnt { SR r; std::vector<std::pair<u32, u64>> m; };
    std::unordered_map<std::string, CacheEnt> cache;
    std::vector<std::vector<std::pair<u32, u64>>> recent;
    std::vector<u32> mark; // var -> generation
    u32 markGen = 0;
    SR z3check(const std::vector<E>& cs, bool fp, const std::vector<u32>& vars, std::vector<std::pair<u32, u64>>& m);
};
