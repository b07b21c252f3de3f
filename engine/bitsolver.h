// Incremental bit-blasting decision procedure for the quantifier-free bit-vector
// queries of path exploration: Tseitin encoding with structural hashing shared by
// all queries, CDCL search restricted to the cone of the query, queries decided
// under assumptions so that learned clauses are kept.  Floating point, wide
// multiplication/division are not encoded (the caller falls back to z3/cvc5).
#pragma once
#include "expr.h"
struct BitSolver {
    BitSolver();
    ~BitSolver();
    // 1 sat (model filled for the variables of the query), 0 unsat, -1 unsupported / gave up
    int check(const std::vector<E>& cs, Model& m, unsigned long budget = 8000);
    struct Impl;
    Impl* p;
};
