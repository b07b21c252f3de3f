#include "bitsolver.h"
#include <algorithm>
#include <cstring>
#include <unordered_map>

typedef int Lit;   // var*2 + sign
static inline Lit neg(Lit l) { return l ^ 1; }
static inline int var(Lit l) { return l >> 1; }

struct Clause { uint32_t n; uint32_t lbd; float act; bool learnt, dead; Lit l[1]; };

struct BitSolver::Impl {
    // ---- gates
    struct Gate { uint8_t k; Lit a, b, c; };   // 0 input, 1 and, 2 xor, 3 ite(a?b:c), 4 maj
    std::vector<Gate> gates;
    struct GKey { uint8_t k; Lit a, b, c; bool operator==(const GKey& o) const { return k == o.k && a == o.a && b == o.b && c == o.c; } };
    struct GH { size_t operator()(const GKey& g) const { uint64_t h = g.k; h = h * 0x9E3779B97F4A7C15ull + (uint32_t)g.a; h = (h ^ (h >> 31)) * 0xBF58476D1CE4E5B9ull + (uint32_t)g.b; h = (h ^ (h >> 29)) * 0x94D049BB133111EBull + (uint32_t)g.c; return h ^ (h >> 32); } };
    std::unordered_map<GKey, Lit, GH> ght;
    std::vector<std::vector<Lit>> bits;       // per expr id
    std::vector<uint8_t> bad;                 // per expr id: unsupported
    // ---- sat
    struct Watch { Clause* c; Lit blk; };
    std::vector<std::vector<Watch>> watches;
    std::vector<int8_t> val;                  // per var: 0 unassigned 1 true -1 false
    std::vector<int> level;
    std::vector<Clause*> reason;
    std::vector<Lit> trail;
    std::vector<int> lim;
    size_t qhead = 0;
    std::vector<double> act;
    double inc = 1;
    std::vector<int8_t> phase;
    std::vector<uint8_t> seen;
    std::vector<Clause*> learnts, orig;
    std::vector<int> heap, hpos;
    std::vector<uint32_t> cone; uint32_t stamp = 0;
    std::vector<int> coneVars;
    bool unsatForever = false;

    Impl() { newVar(); reset0(); }
    ~Impl() { for ( auto c : learnts ) free(c); for ( auto c : orig ) free(c); }
    void reset0() { addClause({ 0 }); }       // var 0 literal 0 is TRUE
    void clearAll() {
        for ( auto c : learnts ) free(c);
        for ( auto c : orig ) free(c);
        learnts.clear(); orig.clear(); gates.clear(); ght.clear(); bits.clear(); bad.clear(); watches.clear(); val.clear(); level.clear(); reason.clear();
        trail.clear(); lim.clear(); qhead = 0; act.clear(); phase.clear(); seen.clear(); heap.clear(); hpos.clear(); cone.clear(); stamp = 0; inc = 1;
        newVar(); reset0();
    }
    static constexpr inline Lit LT = 0, LF = 1;
    int newVar() {
        int v = val.size();
        val.push_back(0); level.push_back(0); reason.push_back(nullptr); act.push_back(0); phase.push_back(-1); seen.push_back(0); hpos.push_back(-1); cone.push_back(0);
        watches.emplace_back(); watches.emplace_back();
        gates.push_back({ 0, 0, 0, 0 });
        return v;
    }
    inline int8_t lv(Lit l) const { int8_t v = val[l >> 1]; return (l & 1) ? -v : v; }
    void attach(Clause* c) { watches[neg(c->l[0])].push_back({ c, c->l[1] }); watches[neg(c->l[1])].push_back({ c, c->l[0] }); }
    static Clause* mk(const Lit* l, size_t n, bool learnt) {
        Clause* c = (Clause*)malloc(sizeof(Clause) + sizeof(Lit) * n);
        c->n = n; c->learnt = learnt; c->act = 0; c->lbd = 0; c->dead = false;
        memcpy(c->l, l, n * sizeof(Lit));
        return c;
    }
    void addClause(std::initializer_list<Lit> il) { // at level 0
        Lit t[8]; size_t n = 0;
        for ( Lit l : il ) { if ( lv(l) > 0 ) return; if ( lv(l) < 0 ) continue; t[n++] = l; }
        if ( n == 0 ) { unsatForever = true; return; }
        if ( n == 1 ) { enqueue(t[0], nullptr); return; }
        Clause* c = mk(t, n, false);
        orig.push_back(c);
        attach(c);
    }
    void enqueue(Lit l, Clause* r) { int v = l >> 1; val[v] = (l & 1) ? -1 : 1; level[v] = lim.size(); reason[v] = r; trail.push_back(l); }
    Clause* propagate() {
        while ( qhead < trail.size() ) {
            Lit p = trail[qhead++];
            auto& ws = watches[p];
            size_t i = 0, j = 0, n = ws.size();
            while ( i < n ) {
                Watch w = ws[i];
                if ( lv(w.blk) > 0 ) { ws[j++] = ws[i++]; continue; }
                Clause* c = w.c;
                if ( c->dead ) { i++; continue; }
                Lit np = neg(p);
                if ( c->l[0] == np ) { c->l[0] = c->l[1]; c->l[1] = np; }
                i++;
                Lit f = c->l[0];
                if ( lv(f) > 0 ) { ws[j++] = { c, f }; continue; }
                bool found = false;
                for ( uint32_t k = 2; k < c->n; k++ )
                    if ( lv(c->l[k]) >= 0 ) {
                        c->l[1] = c->l[k]; c->l[k] = np;
                        watches[neg(c->l[1])].push_back({ c, f });
                        found = true;
                        break;
                    }
                if ( found ) continue;
                ws[j++] = { c, f };
                if ( lv(f) < 0 ) { while ( i < n ) ws[j++] = ws[i++]; ws.resize(j); qhead = trail.size(); return c; }
                enqueue(f, c);
            }
            ws.resize(j);
        }
        return nullptr;
    }
    // heap
    bool hless(int a, int b) { return act[a] > act[b]; }
    void hup(int i) { int v = heap[i]; while ( i > 0 ) { int pnt = (i - 1) >> 1; if ( !hless(v, heap[pnt]) ) break; heap[i] = heap[pnt]; hpos[heap[i]] = i; i = pnt; } heap[i] = v; hpos[v] = i; }
    void hdown(int i) {
        int v = heap[i], n = heap.size();
        while ( 2 * i + 1 < n ) { int ch = 2 * i + 1; if ( ch + 1 < n && hless(heap[ch + 1], heap[ch]) ) ch++; if ( !hless(heap[ch], v) ) break; heap[i] = heap[ch]; hpos[heap[i]] = i; i = ch; }
        heap[i] = v; hpos[v] = i;
    }
    void hins(int v) { if ( hpos[v] >= 0 || cone[v] != stamp ) return; hpos[v] = heap.size(); heap.push_back(v); hup(hpos[v]); }
    int hpop() { int v = heap[0]; hpos[v] = -1; int l = heap.back(); heap.pop_back(); if ( !heap.empty() ) { heap[0] = l; hpos[l] = 0; hdown(0); } return v; }
    void bump(int v) { if ( (act[v] += inc) > 1e100 ) { for ( auto& a : act ) a *= 1e-100; inc *= 1e-100; } if ( hpos[v] >= 0 ) hup(hpos[v]); }
    void cancel(int lvl) {
        if ( (int)lim.size() <= lvl ) return;
        for ( int i = (int)trail.size() - 1; i >= lim[lvl]; i-- ) { int v = trail[i] >> 1; phase[v] = val[v]; val[v] = 0; reason[v] = nullptr; hins(v); }
        trail.resize(lim[lvl]);
        lim.resize(lvl);
        qhead = trail.size();
    }
    std::vector<Lit> lc;
    int analyze(Clause* confl) {
        lc.clear(); lc.push_back(0);
        int path = 0; Lit p = -1; size_t idx = trail.size();
        std::vector<int> clr;
        do {
            for ( uint32_t k = (p == -1 ? 0 : 1); k < confl->n; k++ ) {
                Lit q = confl->l[k]; int v = q >> 1;
                if ( !seen[v] && level[v] > 0 ) {
                    seen[v] = 1; clr.push_back(v); bump(v);
                    if ( level[v] >= (int)lim.size() ) path++; else lc.push_back(q);
                }
            }
            while ( !seen[trail[--idx] >> 1] ) {}
            p = trail[idx];
            confl = reason[p >> 1];
            seen[p >> 1] = 0;
            path--;
            if ( path > 0 && confl && confl->l[0] != p ) { for ( uint32_t k = 1; k < confl->n; k++ ) if ( confl->l[k] == p ) { std::swap(confl->l[0], confl->l[k]); break; } }
        } while ( path > 0 );
        lc[0] = neg(p);
        // simple minimisation
        size_t j = 1;
        for ( size_t i = 1; i < lc.size(); i++ ) {
            Clause* r = reason[lc[i] >> 1];
            bool keep = !r;
            if ( r ) for ( uint32_t k = 0; k < r->n; k++ ) { int v = r->l[k] >> 1; if ( v == (lc[i] >> 1) ) continue; if ( !seen[v] && level[v] > 0 ) { keep = true; break; } }
            if ( keep ) lc[j++] = lc[i];
        }
        lc.resize(j);
        for ( int v : clr ) seen[v] = 0;
        int bt = 0;
        if ( lc.size() > 1 ) { size_t m = 1; for ( size_t i = 2; i < lc.size(); i++ ) if ( level[lc[i] >> 1] > level[lc[m] >> 1] ) m = i; std::swap(lc[1], lc[m]); bt = level[lc[1] >> 1]; }
        return bt;
    }
    void reduce() {
        std::vector<Clause*> cand;
        for ( auto c : learnts ) cand.push_back(c);
        std::sort(cand.begin(), cand.end(), [](Clause* a, Clause* b) { return a->n != b->n ? a->n < b->n : a > b; });
        std::vector<Clause*> keep;
        for ( size_t i = 0; i < cand.size(); i++ ) { if ( i < cand.size() / 2 || cand[i]->n <= 3 ) keep.push_back(cand[i]); else cand[i]->dead = true; }
        for ( auto& ws : watches ) { size_t j = 0; for ( size_t i = 0; i < ws.size(); i++ ) if ( !ws[i].c->dead ) ws[j++] = ws[i]; ws.resize(j); }
        for ( auto c : cand ) if ( c->dead ) free(c);
        learnts.swap(keep);
    }
    // ---- encoding
    Lit gAnd(Lit a, Lit b) {
        if ( a == LF || b == LF || a == neg(b) ) return LF;
        if ( a == LT ) return b;
        if ( b == LT || a == b ) return a;
        if ( a > b ) std::swap(a, b);
        auto it = ght.find({ 1, a, b, 0 });
        if ( it != ght.end() ) return it->second;
        int v = newVar(); Lit o = v * 2;
        gates[v] = { 1, a, b, 0 };
        addClause({ neg(o), a }); addClause({ neg(o), b }); addClause({ o, neg(a), neg(b) });
        ght[{ 1, a, b, 0 }] = o;
        return o;
    }
    Lit gOr(Lit a, Lit b) { return neg(gAnd(neg(a), neg(b))); }
    Lit gXor(Lit a, Lit b) {
        if ( a == LF ) return b;
        if ( b == LF ) return a;
        if ( a == LT ) return neg(b);
        if ( b == LT ) return neg(a);
        if ( a == b ) return LF;
        if ( a == neg(b) ) return LT;
        int s = (a & 1) ^ (b & 1);
        a &= ~1; b &= ~1;
        if ( a > b ) std::swap(a, b);
        auto it = ght.find({ 2, a, b, 0 });
        if ( it != ght.end() ) return it->second ^ s;
        int v = newVar(); Lit o = v * 2;
        gates[v] = { 2, a, b, 0 };
        addClause({ neg(o), a, b }); addClause({ neg(o), neg(a), neg(b) }); addClause({ o, neg(a), b }); addClause({ o, a, neg(b) });
        ght[{ 2, a, b, 0 }] = o;
        return o ^ s;
    }
    Lit gIte(Lit c, Lit t, Lit e) {
        if ( c == LT ) return t;
        if ( c == LF ) return e;
        if ( t == e ) return t;
        if ( c & 1 ) { c ^= 1; std::swap(t, e); }
        if ( t == LT || t == c ) return gOr(c, e);
        if ( t == LF || t == neg(c) ) return gAnd(neg(c), e);
        if ( e == LF || e == c ) return gAnd(c, t);
        if ( e == LT || e == neg(c) ) return gOr(neg(c), t);
        if ( t == neg(e) ) return gXor(c, e);
        int s = 0;
        if ( t & 1 ) { t ^= 1; e ^= 1; s = 1; }
        auto it = ght.find({ 3, c, t, e });
        if ( it != ght.end() ) return it->second ^ s;
        int v = newVar(); Lit o = v * 2;
        gates[v] = { 3, c, t, e };
        addClause({ neg(c), neg(t), o }); addClause({ neg(c), t, neg(o) });
        addClause({ c, neg(e), o }); addClause({ c, e, neg(o) });
        addClause({ neg(t), neg(e), o }); addClause({ t, e, neg(o) });
        ght[{ 3, c, t, e }] = o;
        return o ^ s;
    }
    Lit gMaj(Lit a, Lit b, Lit c) {
        if ( a == b ) return a;
        if ( a == neg(b) ) return c;
        if ( a == c ) return a;
        if ( a == neg(c) ) return b;
        if ( b == c ) return b;
        if ( b == neg(c) ) return a;
        if ( a > b ) std::swap(a, b);
        if ( b > c ) std::swap(b, c);
        if ( a > b ) std::swap(a, b);
        if ( a == LT ) return gOr(b, c);
        if ( a == LF ) return gAnd(b, c);
        auto it = ght.find({ 4, a, b, c });
        if ( it != ght.end() ) return it->second;
        int v = newVar(); Lit o = v * 2;
        gates[v] = { 4, a, b, c };
        addClause({ neg(o), a, b }); addClause({ neg(o), a, c }); addClause({ neg(o), b, c });
        addClause({ o, neg(a), neg(b) }); addClause({ o, neg(a), neg(c) }); addClause({ o, neg(b), neg(c) });
        ght[{ 4, a, b, c }] = o;
        return o;
    }
    typedef std::vector<Lit> V;
    V add(const V& a, const V& b, Lit cin) {
        V r(a.size());
        Lit c = cin;
        for ( size_t i = 0; i < a.size(); i++ ) { r[i] = gXor(gXor(a[i], b[i]), c); if ( i + 1 < a.size() ) c = gMaj(a[i], b[i], c); }
        return r;
    }
    V inv(const V& a) { V r(a.size()); for ( size_t i = 0; i < a.size(); i++ ) r[i] = neg(a[i]); return r; }
    Lit ult(const V& a, const V& b) { Lit lt = LF; for ( size_t i = 0; i < a.size(); i++ ) lt = gMaj(neg(a[i]), b[i], lt); return lt; }
    Lit eq(const V& a, const V& b) { Lit r = LT; for ( size_t i = 0; i < a.size(); i++ ) r = gAnd(r, neg(gXor(a[i], b[i]))); return r; }
    static int pop(u128 x) { return __builtin_popcountll((uint64_t)x) + __builtin_popcountll((uint64_t)(x >> 64)); }
    bool blast(E e) {   // ensures bits[e->id]
        if ( bits.size() < g_exprs.size() ) { bits.resize(g_exprs.size() + 4096); bad.resize(g_exprs.size() + 4096, 0); }
        if ( bad[e->id] ) return false;
        if ( !bits[e->id].empty() ) return true;
        for ( int i = 0; i < 3; i++ ) if ( e->k[i] && !blast(e->k[i]) ) { bad[e->id] = 1; return false; }
        unsigned w = e->w;
        V r(w);
        auto B = [&](int i) -> const V& { return bits[e->k[i]->id]; };
        switch ( e->op ) {
        case OConst: for ( unsigned i = 0; i < w; i++ ) r[i] = ((e->c >> i) & 1) ? LT : LF; break;
        case OVar: for ( unsigned i = 0; i < w; i++ ) r[i] = newVar() * 2; break;
        case OAdd: r = add(B(0), B(1), LF); break;
        case OSub: r = add(B(0), inv(B(1)), LT); break;
        case OMul: {
            V a = B(0), b = B(1);
            bool ca = isC(e->k[0]), cb = isC(e->k[1]);
            if ( ca ) { std::swap(a, b); std::swap(ca, cb); }
            int nz = 0;
            auto live = [](const V& x) { int n = 0; for ( Lit l : x ) if ( l != LF ) n++; return n; };
            if ( cb ) nz = pop(isC(e->k[1]) ? e->k[1]->c : e->k[0]->c); else nz = std::min(live(a), live(b));
            if ( (cb ? nz > 40 : nz > 12) && w > 16 ) { bad[e->id] = 1; return false; }
            if ( !cb && live(a) < live(b) ) std::swap(a, b);
            V acc(w, LF);
            for ( unsigned i = 0; i < w; i++ ) {
                if ( b[i] == LF ) continue;
                V t(w, LF);
                for ( unsigned j = i; j < w; j++ ) t[j] = gAnd(a[j - i], b[i]);
                acc = add(acc, t, LF);
            }
            r = acc;
            break;
        }
        case OUDiv: case OURem: {
            // restoring division for narrow dividends
            V a = B(0), b = B(1);
            unsigned n = w; while ( n > 0 && a[n - 1] == LF ) n--;
            unsigned nb = w; while ( nb > 0 && b[nb - 1] == LF ) nb--;
            if ( isC(e->k[1]) && e->k[1]->c && n > 12 ) {   // q*c + r = a, r < c with fresh q, r (uniquely determined)
                u128 cst = e->k[1]->c;
                V q, rr; std::vector<int> deps;
                unsigned W = w + 1; for ( u128 t = cst; t; t >>= 1 ) W++;
                int v0 = val.size();
                for ( unsigned i = 0; i < w; i++ ) q.push_back(i < n ? newVar() * 2 : LF);
                for ( unsigned i = 0; i < w; i++ ) rr.push_back(i < nb ? newVar() * 2 : LF);
                int v1 = val.size();
                V acc(W, LF);
                for ( unsigned i = 0; i < w; i++ ) if ( (cst >> i) & 1 ) { V t(W, LF); for ( unsigned j = 0; j < w; j++ ) t[i + j] = q[j]; acc = add(acc, t, LF); }
                V re = rr; re.resize(W, LF); acc = add(acc, re, LF);
                V ae = a; ae.resize(W, LF);
                Lit ok = gAnd(eq(acc, ae), ult(rr, b));
                addClause({ ok });
                for ( int v = v0; v < v1; v++ ) { gates[v].k = 5; gates[v].a = ok; }
                r = e->op == OUDiv ? q : rr;
                break;
            }
            if ( n > 20 ) { bad[e->id] = 1; return false; }
            V rem(w + 1, LF), q(w, LF), bx = b; bx.push_back(LF);
            for ( int i = (int)n - 1; i >= 0; i-- ) {
                for ( unsigned k = w; k > 0; k-- ) rem[k] = rem[k - 1];
                rem[0] = a[i];
                Lit ge = neg(ult(rem, bx));
                V d = add(rem, inv(bx), LT);
                for ( unsigned k = 0; k <= w; k++ ) rem[k] = gIte(ge, d[k], rem[k]);
                q[i] = ge;
            }
            Lit bz = LT; for ( unsigned i = 0; i < w; i++ ) bz = gAnd(bz, neg(b[i]));
            for ( unsigned i = 0; i < w; i++ ) r[i] = e->op == OUDiv ? gIte(bz, LT, q[i]) : gIte(bz, a[i], rem[i]);
            break;
        }
        case OAnd: for ( unsigned i = 0; i < w; i++ ) r[i] = gAnd(B(0)[i], B(1)[i]); break;
        case OOr: for ( unsigned i = 0; i < w; i++ ) r[i] = gOr(B(0)[i], B(1)[i]); break;
        case OXor: for ( unsigned i = 0; i < w; i++ ) r[i] = gXor(B(0)[i], B(1)[i]); break;
        case OShl: case OLShr: case OAShr: {
            V a = B(0); const V s = B(1);
            Lit fill = e->op == OAShr ? a[w - 1] : LF;
            unsigned st = 0;
            for ( ; (1u << st) < w; st++ ) {
                V t(w); unsigned d = 1u << st;
                for ( unsigned i = 0; i < w; i++ ) {
                    Lit sh = e->op == OShl ? (i >= d ? a[i - d] : LF) : (i + d < w ? a[i + d] : fill);
                    t[i] = gIte(st < s.size() ? s[st] : LF, sh, a[i]);
                }
                a = t;
            }
            Lit big = LF;
            for ( unsigned i = st; i < s.size(); i++ ) big = gOr(big, s[i]);
            if ( (w & (w - 1)) != 0 ) { // non power of two: amounts w..2^st-1
                V lim(st), lo(st);
                for ( unsigned i = 0; i < st; i++ ) { lim[i] = ((w >> i) & 1) ? LT : LF; lo[i] = i < s.size() ? s[i] : LF; }
                big = gOr(big, neg(ult(lo, lim)));
            }
            for ( unsigned i = 0; i < w; i++ ) r[i] = gIte(big, fill, a[i]);
            break;
        }
        case OConcat: { unsigned lw = e->k[1]->w; for ( unsigned i = 0; i < w; i++ ) r[i] = i < lw ? B(1)[i] : B(0)[i - lw]; break; }
        case OExtract: for ( unsigned i = 0; i < w; i++ ) r[i] = B(0)[i + e->aux]; break;
        case OZExt: for ( unsigned i = 0; i < w; i++ ) r[i] = i < e->k[0]->w ? B(0)[i] : LF; break;
        case OSExt: for ( unsigned i = 0; i < w; i++ ) r[i] = i < e->k[0]->w ? B(0)[i] : B(0)[e->k[0]->w - 1]; break;
        case OEq: r[0] = eq(B(0), B(1)); break;
        case OUlt: r[0] = ult(B(0), B(1)); break;
        case OUle: r[0] = neg(ult(B(1), B(0))); break;
        case OSlt: case OSle: {
            V a = B(0), b = B(1);
            a.back() = neg(a.back()); b.back() = neg(b.back());
            r[0] = e->op == OSlt ? ult(a, b) : neg(ult(b, a));
            break;
        }
        case OIte: { Lit c = B(0)[0]; for ( unsigned i = 0; i < w; i++ ) r[i] = gIte(c, B(1)[i], B(2)[i]); break; }
        case OSDiv: case OSRem: {
            E a = e->k[0], b = e->k[1], z = mkConst(0, w);
            E na = mkCmp(OSlt, a, z), nb = mkCmp(OSlt, b, z);
            E ua = mkIte(na, mkBin(OSub, z, a), a), ub = mkIte(nb, mkBin(OSub, z, b), b);
            E u = e->op == OSDiv ? mkBin(OUDiv, ua, ub) : mkBin(OURem, ua, ub);
            E neg_ = e->op == OSDiv ? mkBin(OXor, na, nb) : na;
            E x = mkIte(neg_, mkBin(OSub, z, u), u);
            if ( isC(b) && b->c == 0 ) { bad[e->id] = 1; return false; }
            if ( !isC(b) ) { // division by zero follows SMT-LIB
                E zr = e->op == OSDiv ? mkIte(na, mkConst(1, w), mkConst(~(u128)0, w)) : a;
                x = mkIte(mkCmp(OEq, b, z), zr, x);
            }
            if ( !blast(x) ) { bad[e->id] = 1; return false; }
            if ( bits.size() <= e->id ) { bits.resize(g_exprs.size() + 1024); bad.resize(g_exprs.size() + 1024, 0); }
            r = bits[x->id];
            break;
        }
        default: bad[e->id] = 1; return false;
        }
        bits[e->id] = r;
        return true;
    }
    void markCone(Lit l, std::vector<int>& st) {
        st.push_back(l >> 1);
        while ( !st.empty() ) {
            int v = st.back(); st.pop_back();
            if ( cone[v] == stamp ) continue;
            cone[v] = stamp;
            coneVars.push_back(v);
            Gate& g = gates[v];
            if ( g.k == 0 ) continue;
            st.push_back(g.a >> 1);
            if ( g.k == 5 ) continue;
            st.push_back(g.b >> 1);
            if ( g.k >= 3 ) st.push_back(g.c >> 1);
        }
    }
    int solve(const std::vector<Lit>& as, uint64_t budget) {
        if ( unsatForever ) return 0;
        if ( propagate() ) return 0;
        stamp++;
        coneVars.clear();
        std::vector<int> st;
        for ( Lit l : as ) markCone(l, st);
        for ( int v : heap ) hpos[v] = -1;
        heap.clear();
        for ( int v : coneVars ) if ( !val[v] ) { hpos[v] = heap.size(); heap.push_back(v); }
        for ( int i = (int)heap.size() / 2 - 1; i >= 0; i-- ) hdown(i);
        uint64_t confl = 0, restart = 100, sinceR = 0;
        while ( true ) {
            Clause* c = propagate();
            if ( c ) {
                confl++; sinceR++;
                if ( lim.empty() ) return 0;
                int bt = analyze(c);
                cancel(bt);
                if ( lc.size() == 1 ) { enqueue(lc[0], nullptr); }
                else { Clause* n = mk(lc.data(), lc.size(), true); learnts.push_back(n); attach(n); enqueue(lc[0], n); }
                inc *= 1.0 / 0.95;
                if ( confl > budget ) { cancel(0); return -1; }
                if ( sinceR > restart ) { sinceR = 0; restart = restart * 11 / 10; cancel(0); }
                continue;
            }
            Lit next = -1;
            while ( lim.size() < as.size() ) {
                Lit a = as[lim.size()];
                if ( lv(a) > 0 ) lim.push_back(trail.size());
                else if ( lv(a) < 0 ) { cancel(0); return 0; }
                else { next = a; break; }
            }
            if ( next < 0 ) {
                while ( !heap.empty() ) { int v = hpop(); if ( !val[v] ) { next = v * 2 + (phase[v] > 0 ? 0 : 1); break; } }
                if ( next < 0 ) return 1;   // all of the cone assigned
            }
            lim.push_back(trail.size());
            enqueue(next, nullptr);
        }
    }
};

BitSolver::BitSolver() : p(new Impl) {}
BitSolver::~BitSolver() { delete p; }
int BitSolver::check(const std::vector<E>& cs, Model& m, unsigned long budget) {
    if ( p->val.size() > 60000 ) p->clearAll();
    if ( p->learnts.size() > 20000 ) p->reduce();
    for ( E e : cs ) if ( e->hasfp ) return -1;
    std::vector<Lit> as;
    for ( E e : cs ) { if ( !p->blast(e) ) return -1; as.push_back(p->bits[e->id][0]); }
    int r = p->solve(as, budget);
    if ( r == 1 ) {
        for ( E e : cs )
            for ( uint32_t v : varsOf(e) ) {
                if ( m.v.count(v) ) continue;
                m.v[v] = 0;
            }
        for ( auto& kv : m.v ) {
            extern E varExpr(uint32_t);
            E x = varExpr(kv.first);
            if ( !x || p->bits.size() <= x->id || p->bits[x->id].empty() ) continue;
            u128 val = 0;
            auto& b = p->bits[x->id];
            for ( size_t i = 0; i < b.size(); i++ ) if ( p->lv(b[i]) > 0 ) val |= (u128)1 << i;
            kv.second = val;
        }
    }
    p->cancel(0);
    return r;
}
