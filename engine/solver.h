#pragma once
#include "expr.h"
#include "bitsolver.h"
#include <map>
enum Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { uint64_t queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0, cvc5calls = 0, bitcalls = 0, crosschecks = 0, liacalls = 0; double time = 0, xtime = 0; bool disagree = false; };
extern SolverStats g_sst;
struct Solver {
    Solver();
    // is pc /\ cond satisfiable? base: a model satisfying pc (used for slicing)
    Res check(const std::vector<E>& pc, E cond, const ModelP& base, ModelP* out, bool verdict = false);
    unsigned fastMs = 3000, slowMs = 60000;
    std::string smtDir;
    BitSolver bit;
    int liaCheck(const std::vector<E>& cs, Model& m, unsigned ms);
private:
    Res solveRaw(const std::vector<E>& cs, Model& m, bool noBit = false);
    void crossCheck(const std::vector<E>& cs, bool verdict);
    Res viaCvc5(const std::vector<E>& cs, Model& m, unsigned ms);
    struct Impl;
    Impl* p;
    std::map<std::vector<uint32_t>, std::pair<Res, std::shared_ptr<Model>>> cache;
};
