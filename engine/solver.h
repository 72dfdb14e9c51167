#pragma once
#include "expr.h"
#include <deque>
#include <memory>
enum class Res { Sat, Unsat, Unknown };
struct SolverStats { uint64_t queries = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0; double time = 0, maxTime = 0; };
struct Solver {
    Solver(unsigned timeoutMs);
    ~Solver();
    // is  pc /\ cond  satisfiable?  On Sat, *m (when given) receives a model.
    Res check(E pc, E cond, std::shared_ptr<Model>* m = nullptr);
    SolverStats st;
    struct Impl;
    Impl* p;
    std::unordered_map<uint64_t, std::pair<Res, std::shared_ptr<Model>>> cache;
    std::deque<std::shared_ptr<Model>> models;
    unsigned timeoutMs;
};
