// Random test of the expression simplifier and of the bit-blasting procedure against the evaluator.
#include "expr.h"
#include "bitsolver.h"
#include "solver.h"
#include <random>
#include <cstdio>
#include <cstdlib>
int main(int argc, char** argv) {
    std::mt19937_64 g(argc > 1 ? atoi(argv[1]) : 1);
    int bad = 0, sat = 0, uns = 0;
    for ( int round = 0; round < 300 && !bad; round++ ) {
        Model m;
        std::vector<E> pool;
        std::vector<uint32_t> vs;
        unsigned ws[] = { 1, 8, 16, 32, 64, 7 };
        for ( int i = 0; i < 8; i++ ) { E v = mkVar("x", ws[g() % 6]); pool.push_back(v); m.v[v->aux] = (g() % 3 ? g() : g() % 4) & maskw(v->w); vs.push_back(v->aux); }
        auto pick = [&](unsigned w) -> E {
            if ( g() % 4 == 0 ) return mkConst(g() % 2 ? g() : g() % 8, w);
            for ( int t = 0; t < 20; t++ ) { E e = pool[g() % pool.size()]; if ( e->w == w ) return e; }
            E e = pool[g() % pool.size()];
            if ( e->w > w ) return mkExtract(e, g() % (e->w - w + 1), w);
            if ( e->w < w ) return g() % 2 ? mkZExt(e, w) : mkSExt(e, w);
            return e;
        };
        BitSolver bs;
        static Solver sol;
        int liaU = 0;
        for ( int i = 0; i < 60 && !bad; i++ ) {
            unsigned w = ws[g() % 6];
            E a = pick(w), b = pick(w), c = pick(1);
            u128 av = evalExpr(a, m), bv = evalExpr(b, m), cv = evalExpr(c, m), ex;
            E r;
            int k = g() % 22;
            static const Op bo[] = { OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr };
            static const Op co[] = { OEq, OUlt, OUle, OSlt, OSle };
            if ( k < 13 ) { if ( (k == 10 || k == 11 || k == 12) && g() % 2 ) { b = mkConst(g() % (w + 1), w); bv = b->c; } r = mkBin(bo[k], a, b); ex = foldBin(bo[k], av, bv, w); }
            else if ( k < 18 ) { r = mkCmp(co[k - 13], a, b); ex = foldCmp(co[k - 13], av, bv, w); }
            else if ( k == 18 ) { r = mkIte(c, a, b); ex = cv ? av : bv; }
            else if ( k == 19 ) { unsigned w2 = ws[g() % 6]; if ( w + w2 > 100 ) continue; E d = pick(w2); ex = (av << w2) | evalExpr(d, m); r = mkConcat(a, d); }
            else if ( k == 20 ) { unsigned n = 1 + g() % w, lo = g() % (w - n + 1); r = mkExtract(a, lo, n); ex = (av >> lo) & maskw(n); }
            else { r = mkNot(a); ex = ~av & maskw(w); }
            if ( evalExpr(r, m) != ex ) { printf("SIMPLIFIER BUG op %d w %d: a=%s b=%s r=%s\n", k, w, exprStr(a).c_str(), exprStr(b).c_str(), exprStr(r).c_str()); bad = 1; }
            if ( r->w <= 64 ) pool.push_back(r);
            if ( i % 3 == 0 ) {
                std::vector<E> cs;
                E q = mkCmp(OEq, r, mkConst(ex, r->w));
                for ( auto v : vs ) { extern E varExpr(uint32_t); cs.push_back(mkCmp(OEq, varExpr(v), mkConst(m.v[v], varExpr(v)->w))); }
                if ( !isC(q) ) {
                    { std::vector<E> c2 = cs; c2.push_back(q); Model ml; if ( sol.liaCheck(c2, ml, 300) == 0 ) { printf("LIA wrong unsat %s\n", exprStr(r).c_str()); bad = 1; } c2.pop_back(); c2.push_back(mkNot(q)); Model m5; if ( sol.liaCheck(c2, m5, 300) == 0 ) uns++; }
                    Model mm; cs.push_back(mkNot(q));
                    int z = bs.check(cs, mm); if ( z == 1 ) { printf("BIT SOLVER wrong sat %s\n", exprStr(r).c_str()); bad = 1; } if ( z == 0 ) uns++;
                    cs.pop_back(); cs.push_back(q); Model m3;
                    z = bs.check(cs, m3); if ( z == 0 ) { printf("BIT SOLVER wrong unsat %s\n", exprStr(r).c_str()); bad = 1; }
                    cs.clear(); cs.push_back(q); Model m4;
                    z = bs.check(cs, m4); if ( z == 0 ) { printf("BIT SOLVER wrong unsat2\n"); bad = 1; } if ( z == 1 ) { sat++; if ( evalExpr(q, m4) != 1 ) { printf("BIT SOLVER bad model\n"); bad = 1; } }
                }
            }
        }
    }
    printf("selftest %s: sat %d unsat %d\n", bad ? "FAILED" : "ok", sat, uns);
    return bad;
}
