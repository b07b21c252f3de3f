#include "expr.h"
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <unordered_set>
#include <deque>

std::vector<VarInfo> g_vars;
std::vector<E>       g_exprs;
static std::deque<Expr> arena;
static std::vector<std::shared_ptr<std::vector<uint32_t>>> varsets;

struct EHash {
    size_t operator()(E e) const {
        uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w * 0x100000001B3ull + e->aux * 0xC2B2AE3D27D4EB4Full;
        h ^= (uint64_t)e->c * 0xff51afd7ed558ccdull + (uint64_t)(e->c >> 64);
        for ( int i = 0; i < 3; i++ )
            if ( e->k[i] ) h = (h ^ (e->k[i]->id + 1)) * 0xD6E8FEB86659FD93ull, h ^= h >> 29;
        return h;
    }
};
struct EEq {
    bool operator()(E a, E b) const {
        return a->op == b->op && a->w == b->w && a->aux == b->aux && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2];
    }
};
static std::unordered_set<E, EHash, EEq> table;

static E intern(Op op, unsigned w, u128 c, unsigned aux, E a, E b, E d) {
    Expr t; t.op = op; t.w = w; t.aux = aux; t.c = c; t.k[0] = a; t.k[1] = b; t.k[2] = d; t.hasfp = 0; t.nvars = 0;
    auto it = table.find(&t);
    if ( it != table.end() ) return *it;
    t.id = g_exprs.size();
    if ( op >= OFAdd ) t.hasfp = 1;
    for ( int i = 0; i < 3; i++ ) if ( t.k[i] && t.k[i]->hasfp ) t.hasfp = 1;
    arena.push_back(t);
    E e = &arena.back();
    g_exprs.push_back(e);
    // var sets
    std::shared_ptr<std::vector<uint32_t>> vs;
    if ( op == OVar ) { vs = std::make_shared<std::vector<uint32_t>>(); vs->push_back(aux); }
    else if ( op == OConst ) { static auto empty = std::make_shared<std::vector<uint32_t>>(); vs = empty; }
    else {
        vs = varsets[t.k[0]->id];
        for ( int i = 1; i < 3; i++ )
            if ( t.k[i] ) {
                auto& o = varsets[t.k[i]->id];
                if ( o == vs || o->empty() ) continue;
                if ( vs->empty() ) { vs = o; continue; }
                if ( std::includes(vs->begin(), vs->end(), o->begin(), o->end()) ) continue;
                if ( std::includes(o->begin(), o->end(), vs->begin(), vs->end()) ) { vs = o; continue; }
                auto n = std::make_shared<std::vector<uint32_t>>();
                std::set_union(vs->begin(), vs->end(), o->begin(), o->end(), std::back_inserter(*n));
                vs = n;
            }
    }
    varsets.push_back(vs);
    table.insert(e);
    return e;
}
const std::vector<uint32_t>& varsOf(E e) { return *varsets[e->id]; }

E mkConst(u128 v, unsigned w) { return intern(OConst, w, v & maskw(w), 0, nullptr, nullptr, nullptr); }
std::vector<E> g_varE;
E varExpr(uint32_t v) { return v < g_varE.size() ? g_varE[v] : nullptr; }
E mkVar(const std::string& name, unsigned w) {
    g_vars.push_back({ name, (uint16_t)w });
    E e = intern(OVar, w, 0, g_vars.size() - 1, nullptr, nullptr, nullptr);
    g_varE.push_back(e);
    return e;
}

u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
    u128 m = maskw(w);
    a &= m; b &= m;
    switch ( op ) {
    case OAdd: return (a + b) & m;
    case OSub: return (a - b) & m;
    case OMul: return (a * b) & m;
    case OUDiv: return b == 0 ? m : (a / b) & m;
    case OURem: return b == 0 ? a : (a % b) & m;
    case OSDiv: {
        i128 x = sextw(a, w), y = sextw(b, w);
        if ( y == 0 ) return x < 0 ? 1 : m;
        if ( y == -1 ) return (u128)(0 - (u128)x) & m;
        return (u128)(x / y) & m;
    }
    case OSRem: {
        i128 x = sextw(a, w), y = sextw(b, w);
        if ( y == 0 ) return a;
        if ( y == -1 ) return 0;
        return (u128)(x % y) & m;
    }
    case OAnd: return a & b;
    case OOr: return a | b;
    case OXor: return a ^ b;
    case OShl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case OLShr: return b >= w ? 0 : a >> (unsigned)b;
    case OAShr: {
        i128 x = sextw(a, w);
        unsigned s = b >= w ? w - 1 : (unsigned)b;
        if ( s >= 128 ) s = 127;
        return (u128)(x >> s) & m;
    }
    default: abort();
    }
}
bool foldCmp(Op op, u128 a, u128 b, unsigned w) {
    a &= maskw(w); b &= maskw(w);
    switch ( op ) {
    case OEq: return a == b;
    case OUlt: return a < b;
    case OUle: return a <= b;
    case OSlt: return sextw(a, w) < sextw(b, w);
    case OSle: return sextw(a, w) <= sextw(b, w);
    default: abort();
    }
}
static double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 fromD(double d) { uint64_t x; if ( d != d ) return (u128)0x7ff8000000000000ull; memcpy(&x, &d, 8); return x; }
static u128 fromF(float d) { uint32_t x; if ( d != d ) return (u128)0x7fc00000u; memcpy(&x, &d, 4); return x; }

template <typename T>
static T frnd(T v, unsigned mode) {
    switch ( mode ) {
    case 0: return std::nearbyint(v);
    case 1: return std::floor(v);
    case 2: return std::ceil(v);
    case 3: return std::trunc(v);
    default: return std::round(v);
    }
}

u128 foldF(Op op, u128 a, u128 b, u128 c, unsigned wa, unsigned w, unsigned aux) {
    if ( wa == 32 && op != OSIToF && op != OUIToF ) {
        float x = asF(a), y = asF(b);
        switch ( op ) {
        case OFAdd: return fromF(x + y);
        case OFSub: return fromF(x - y);
        case OFMul: return fromF(x * y);
        case OFDiv: return fromF(x / y);
        case OFRem: return fromF(std::fmod(x, y));
        case OFSqrt: return fromF(std::sqrt(x));
        case OFma: return fromF(std::fma(x, y, asF(c)));
        case OFEq: return x == y;
        case OFLt: return x < y;
        case OFLe: return x <= y;
        case OFUno: return x != x || y != y;
        case OFConv: return w == 64 ? fromD((double)x) : fromF(x);
        case OFRint: return fromF(frnd(x, aux));
        case OFToSI:
        case OFToUI: return foldF(op, fromD((double)x), 0, 0, 64, w, aux);
        default: abort();
        }
    }
    if ( op == OSIToF ) {
        i128 v = sextw(a, wa);
        return w == 32 ? fromF((float)v) : fromD((double)v);
    }
    if ( op == OUIToF ) {
        u128 v = a & maskw(wa);
        return w == 32 ? fromF((float)v) : fromD((double)v);
    }
    double x = asD(a), y = asD(b);
    switch ( op ) {
    case OFAdd: return fromD(x + y);
    case OFSub: return fromD(x - y);
    case OFMul: return fromD(x * y);
    case OFDiv: return fromD(x / y);
    case OFRem: return fromD(std::fmod(x, y));
    case OFSqrt: return fromD(std::sqrt(x));
    case OFma: return fromD(std::fma(x, y, asD(c)));
    case OFEq: return x == y;
    case OFLt: return x < y;
    case OFLe: return x <= y;
    case OFUno: return x != x || y != y;
    case OFConv: return w == 32 ? fromF((float)x) : fromD(x);
    case OFRint: return fromD(frnd(x, aux));
    case OFToSI: {
        // out of range -> "integer indefinite" (sign bit only)
        if ( !(x == x) ) return (u128)1 << (w - 1);
        double lim = std::ldexp(1.0, w - 1);
        double t = std::trunc(x);
        if ( t >= lim || t < -lim ) return (u128)1 << (w - 1);
        return (u128)(i128)t & maskw(w);
    }
    case OFToUI: {
        if ( !(x == x) ) return (u128)1 << (w - 1);
        double lim = std::ldexp(1.0, w);
        double t = std::trunc(x);
        if ( t >= lim || t < 0 ) return (u128)1 << (w - 1);
        return (u128)t & maskw(w);
    }
    default: abort();
    }
}

static E T1() { static E e = mkConst(1, 1); return e; }
static E F1() { static E e = mkConst(0, 1); return e; }
static inline bool isAll1(E e) { return isC(e) && e->c == maskw(e->w); }
static inline bool isNotOf(E a, E& in) {
    if ( a->op == OXor && isAll1(a->k[1]) ) { in = a->k[0]; return true; }
    return false;
}
// number of known-zero high bits
static unsigned hiZeros(E e) {
    switch ( e->op ) {
    case OConst: { unsigned n = 0; for ( int i = e->w - 1; i >= 0 && !((e->c >> i) & 1); i-- ) n++; return n; }
    case OZExt: return e->w - e->k[0]->w + hiZeros(e->k[0]);
    case OAnd: return std::max(hiZeros(e->k[0]), hiZeros(e->k[1]));
    case OConcat: { unsigned h = hiZeros(e->k[0]); return h == e->k[0]->w ? h + hiZeros(e->k[1]) : h; }
    case OIte: return std::min(hiZeros(e->k[1]), hiZeros(e->k[2]));
    default: return 0;
    }
}

E mkNot(E e) {
    if ( isC(e) ) return mkConst(~e->c, e->w);
    E in;
    if ( isNotOf(e, in) ) return in;
    if ( e->w == 1 ) {
        switch ( e->op ) {
        case OUlt: return mkCmp(OUle, e->k[1], e->k[0]);
        case OUle: return mkCmp(OUlt, e->k[1], e->k[0]);
        case OSlt: return mkCmp(OSle, e->k[1], e->k[0]);
        case OSle: return mkCmp(OSlt, e->k[1], e->k[0]);
        default: break;
        }
    }
    return intern(OXor, e->w, 0, 0, e, mkConst(~(u128)0, e->w), nullptr);
}

E mkBin(Op op, E a, E b) {
    unsigned w = a->w;
    if ( a->w != b->w ) { fprintf(stderr, "width mismatch %d %d op %d\n", a->w, b->w, op); abort(); }
    if ( isC(a) && isC(b) ) return mkConst(foldBin(op, a->c, b->c, w), w);
    switch ( op ) {
    case OAdd:
        if ( isC(a) ) std::swap(a, b);
        if ( isC(b) ) {
            if ( b->c == 0 ) return a;
            if ( a->op == OAdd && isC(a->k[1]) ) return mkBin(OAdd, a->k[0], mkConst(a->k[1]->c + b->c, w));
            if ( a->op == OIte && isC(a->k[1]) && isC(a->k[2]) )
                return mkIte(a->k[0], mkConst(a->k[1]->c + b->c, w), mkConst(a->k[2]->c + b->c, w));
            if ( w == 1 ) return mkNot(a);
            break;
        }
        if ( w == 1 ) return mkBin(OXor, a, b);
        if ( a->op == OAdd && isC(a->k[1]) ) return mkBin(OAdd, mkBin(OAdd, a->k[0], b), a->k[1]);
        if ( b->op == OAdd && isC(b->k[1]) ) return mkBin(OAdd, mkBin(OAdd, a, b->k[0]), b->k[1]);
        if ( a->op == OSub && a->k[1] == b ) return a->k[0];
        if ( b->op == OSub && b->k[1] == a ) return b->k[0];
        if ( a->id > b->id ) std::swap(a, b);
        break;
    case OSub:
        if ( a == b ) return mkConst(0, w);
        if ( isC(b) ) return mkBin(OAdd, a, mkConst(0 - b->c, w));
        if ( a->op == OAdd ) {
            if ( a->k[0] == b ) return a->k[1];
            if ( a->k[1] == b ) return a->k[0];
            if ( isC(a->k[1]) ) return mkBin(OAdd, mkBin(OSub, a->k[0], b), a->k[1]);
        }
        if ( b->op == OAdd && isC(b->k[1]) ) return mkBin(OAdd, mkBin(OSub, a, b->k[0]), mkConst(0 - b->k[1]->c, w));
        if ( w == 1 ) return mkBin(OXor, a, b);
        break;
    case OMul:
        if ( isC(a) ) std::swap(a, b);
        if ( isC(b) ) {
            if ( b->c == 0 ) return b;
            if ( b->c == 1 ) return a;
            if ( (b->c & (b->c - 1)) == 0 ) { unsigned s = 0; while ( !((b->c >> s) & 1) ) s++; return mkBin(OShl, a, mkConst(s, w)); }
            if ( a->op == OMul && isC(a->k[1]) ) return mkBin(OMul, a->k[0], mkConst(a->k[1]->c * b->c, w));
            break;
        }
        if ( w == 1 ) return mkBin(OAnd, a, b);
        if ( a->id > b->id ) std::swap(a, b);
        break;
    case OUDiv:
        if ( isC(b) && b->c == 1 ) return a;
        if ( isC(b) && b->c && (b->c & (b->c - 1)) == 0 ) { unsigned s = 0; while ( !((b->c >> s) & 1) ) s++; return mkBin(OLShr, a, mkConst(s, w)); }
        break;
    case OURem:
        if ( isC(b) && b->c == 1 ) return mkConst(0, w);
        if ( isC(b) && b->c && (b->c & (b->c - 1)) == 0 ) return mkBin(OAnd, a, mkConst(b->c - 1, w));
        break;
    case OSDiv:
        if ( isC(b) && b->c == 1 ) return a;
        break;
    case OSRem:
        if ( isC(b) && b->c == 1 ) return mkConst(0, w);
        break;
    case OAnd: {
        if ( isC(a) ) std::swap(a, b);
        if ( isC(b) ) {
            if ( b->c == 0 ) return b;
            if ( isAll1(b) ) return a;
            if ( a->op == OAnd && isC(a->k[1]) ) return mkBin(OAnd, a->k[0], mkConst(a->k[1]->c & b->c, w));
            // low mask
            u128 m = b->c;
            if ( (m & (m + 1)) == 0 ) { unsigned n = 0; while ( (m >> n) & 1 ) n++; return mkZExt(mkExtract(a, 0, n), w); }
            // contiguous mask  m = ones<<lo
            unsigned lo = 0; while ( !((m >> lo) & 1) ) lo++;
            u128 m2 = m >> lo;
            if ( (m2 & (m2 + 1)) == 0 ) {
                unsigned n = 0; while ( n < 128 && ((m2 >> n) & 1) ) n++;
                E mid = mkExtract(a, lo, n);
                E r = mkConcat(mid, mkConst(0, lo));
                return mkZExt(r, w);
            }
            break;
        }
        if ( a == b ) return a;
        E in;
        if ( isNotOf(a, in) && in == b ) return mkConst(0, w);
        if ( isNotOf(b, in) && in == a ) return mkConst(0, w);
        if ( w == 1 ) {
            if ( b->op == OAnd && (b->k[0] == a || b->k[1] == a) ) return b;
            if ( a->op == OAnd && (a->k[0] == b || a->k[1] == b) ) return a;
        }
        if ( a->id > b->id ) std::swap(a, b);
        break;
    }
    case OOr: {
        if ( isC(a) ) std::swap(a, b);
        if ( isC(b) ) {
            if ( b->c == 0 ) return a;
            if ( isAll1(b) ) return b;
            if ( a->op == OConcat ) {
                unsigned lw = a->k[1]->w;
                return mkConcat(mkBin(OOr, a->k[0], mkExtract(b, lw, w - lw)), mkBin(OOr, a->k[1], mkExtract(b, 0, lw)));
            }
            break;
        }
        if ( a == b ) return a;
        E in;
        if ( isNotOf(a, in) && in == b ) return mkConst(~(u128)0, w);
        if ( isNotOf(b, in) && in == a ) return mkConst(~(u128)0, w);
        // or of zext(lo) and concat(hi,0..) -> concat
        for ( int t = 0; t < 2; t++ ) {
            if ( a->op == OConcat && isC(a->k[1]) && a->k[1]->c == 0 && hiZeros(b) >= w - a->k[1]->w )
                return mkConcat(a->k[0], mkExtract(b, 0, a->k[1]->w));
            if ( a->op == OZExt && a->k[0]->op == OConcat && isC(a->k[0]->k[1]) && a->k[0]->k[1]->c == 0 && hiZeros(b) >= w - a->k[0]->k[1]->w )
                return mkZExt(mkConcat(a->k[0]->k[0], mkExtract(b, 0, a->k[0]->k[1]->w)), w);
            std::swap(a, b);
        }
        if ( w == 1 ) {
            if ( b->op == OOr && (b->k[0] == a || b->k[1] == a) ) return b;
            if ( a->op == OOr && (a->k[0] == b || a->k[1] == b) ) return a;
        }
        if ( a->id > b->id ) std::swap(a, b);
        break;
    }
    case OXor:
        if ( isC(a) ) std::swap(a, b);
        if ( isC(b) ) {
            if ( b->c == 0 ) return a;
            if ( isAll1(b) ) return mkNot(a);
            if ( a->op == OXor && isC(a->k[1]) ) return mkBin(OXor, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
            break;
        }
        if ( a == b ) return mkConst(0, w);
        if ( a->id > b->id ) std::swap(a, b);
        break;
    case OShl:
        if ( isC(b) ) {
            if ( b->c == 0 ) return a;
            if ( b->c >= w ) return mkConst(0, w);
            unsigned s = (unsigned)b->c;
            return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
        }
        break;
    case OLShr:
        if ( isC(b) ) {
            if ( b->c == 0 ) return a;
            if ( b->c >= w ) return mkConst(0, w);
            unsigned s = (unsigned)b->c;
            return mkZExt(mkExtract(a, s, w - s), w);
        }
        break;
    case OAShr:
        if ( isC(b) ) {
            if ( b->c == 0 ) return a;
            unsigned s = b->c >= w ? w - 1 : (unsigned)b->c;
            return mkSExt(mkExtract(a, s, w - s), w);
        }
        break;
    default: break;
    }
    return intern(op, w, 0, 0, a, b, nullptr);
}

E mkCmp(Op op, E a, E b) {
    unsigned w = a->w;
    if ( a->w != b->w ) { fprintf(stderr, "cmp width mismatch %d %d\n", a->w, b->w); abort(); }
    if ( isC(a) && isC(b) ) return foldCmp(op, a->c, b->c, w) ? T1() : F1();
    if ( a == b ) return (op == OEq || op == OUle || op == OSle) ? T1() : F1();
    if ( op == OEq ) {
        if ( isC(a) ) std::swap(a, b);
        if ( w == 1 ) {
            if ( isC(b) ) return b->c ? a : mkNot(a);
        }
        if ( isC(b) ) {
            switch ( a->op ) {
            case OZExt:
                if ( b->c >> a->k[0]->w ) return F1();
                return mkCmp(OEq, a->k[0], mkConst(b->c, a->k[0]->w));
            case OSExt: {
                unsigned iw = a->k[0]->w;
                if ( (u128)(sextw(b->c & maskw(iw), iw)) % 1 == 0 && (((u128)sextw(b->c, iw)) & maskw(w)) != b->c ) return F1();
                return mkCmp(OEq, a->k[0], mkConst(b->c, iw));
            }
            case OConcat: {
                unsigned lw = a->k[1]->w;
                E hi = mkCmp(OEq, a->k[0], mkConst(b->c >> lw, w - lw));
                if ( isC(hi) && !hi->c ) return hi;
                return mkAndB(hi, mkCmp(OEq, a->k[1], mkConst(b->c, lw)));
            }
            case OAdd:
                if ( isC(a->k[1]) ) return mkCmp(OEq, a->k[0], mkConst(b->c - a->k[1]->c, w));
                break;
            case OXor:
                if ( isC(a->k[1]) ) return mkCmp(OEq, a->k[0], mkConst(b->c ^ a->k[1]->c, w));
                break;
            case OSub:
                if ( b->c == 0 ) return mkCmp(OEq, a->k[0], a->k[1]);
                break;
            case OIte: {
                bool c1 = isC(a->k[1]), c2 = isC(a->k[2]);
                if ( c1 && c2 ) {
                    bool e1 = a->k[1]->c == b->c, e2 = a->k[2]->c == b->c;
                    if ( e1 && e2 ) return T1();
                    if ( !e1 && !e2 ) return F1();
                    return e1 ? a->k[0] : mkNot(a->k[0]);
                }
                if ( c1 && a->k[1]->c != b->c ) return mkAndB(mkNot(a->k[0]), mkCmp(OEq, a->k[2], b));
                if ( c2 && a->k[2]->c != b->c ) return mkAndB(a->k[0], mkCmp(OEq, a->k[1], b));
                if ( c1 ) return mkOrB(a->k[0], mkCmp(OEq, a->k[2], b));
                if ( c2 ) return mkOrB(mkNot(a->k[0]), mkCmp(OEq, a->k[1], b));
                break;
            }
            default: break;
            }
        }
        if ( a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w ) return mkCmp(OEq, a->k[0], b->k[0]);
        if ( a->op == OSExt && b->op == OSExt && a->k[0]->w == b->k[0]->w ) return mkCmp(OEq, a->k[0], b->k[0]);
        if ( a->op == OAdd && isC(a->k[1]) && b->op == OAdd && isC(b->k[1]) )
            return mkCmp(OEq, a->k[0], mkBin(OAdd, b->k[0], mkConst(b->k[1]->c - a->k[1]->c, w)));
        if ( a->op == OAdd && isC(a->k[1]) && a->k[0] == b && a->k[1]->c ) return F1();
        if ( b->op == OAdd && isC(b->k[1]) && b->k[0] == a && b->k[1]->c ) return F1();
        if ( !isC(b) && a->id > b->id ) std::swap(a, b);
        return intern(OEq, 1, 0, 0, a, b, nullptr);
    }
    if ( op == OUlt || op == OUle ) {
        if ( isC(b) ) {
            if ( op == OUlt && b->c == 0 ) return F1();
            if ( op == OUle && isAll1(b) ) return T1();
            if ( op == OUlt && b->c == 1 ) return mkCmp(OEq, a, mkConst(0, w));
            if ( op == OUle && b->c == 0 ) return mkCmp(OEq, a, b);
        }
        if ( isC(a) ) {
            if ( op == OUle && a->c == 0 ) return T1();
            if ( op == OUlt && isAll1(a) ) return F1();
            if ( op == OUlt && a->c == 0 ) return mkNot(mkCmp(OEq, b, a));
        }
        unsigned za = hiZeros(a), zb = hiZeros(b);
        unsigned z  = std::min(za, zb);
        if ( z && z < w ) return mkCmp(op, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z));
        if ( isC(b) && za > zb ) return T1();             // a < 2^(w-za) <= b
        if ( isC(a) && zb > za ) return F1();             // b < a
        if ( (a->op == OIte && isC(a->k[1]) && isC(a->k[2]) && isC(b)) )
            return mkIte(a->k[0], mkCmp(op, a->k[1], b), mkCmp(op, a->k[2], b));
        if ( (b->op == OIte && isC(b->k[1]) && isC(b->k[2]) && isC(a)) )
            return mkIte(b->k[0], mkCmp(op, a, b->k[1]), mkCmp(op, a, b->k[2]));
        if ( w == 1 ) return op == OUlt ? mkAndB(mkNot(a), b) : mkOrB(mkNot(a), b);
        return intern(op, 1, 0, 0, a, b, nullptr);
    }
    // signed
    if ( hiZeros(a) && hiZeros(b) ) return mkCmp(op == OSlt ? OUlt : OUle, a, b);
    if ( a->op == OSExt && b->op == OSExt && a->k[0]->w == b->k[0]->w ) return mkCmp(op, a->k[0], b->k[0]);
    if ( isC(b) && b->c == 0 && op == OSlt && hiZeros(a) ) return F1();
    if ( (a->op == OIte && isC(a->k[1]) && isC(a->k[2]) && isC(b)) )
        return mkIte(a->k[0], mkCmp(op, a->k[1], b), mkCmp(op, a->k[2], b));
    if ( (b->op == OIte && isC(b->k[1]) && isC(b->k[2]) && isC(a)) )
        return mkIte(b->k[0], mkCmp(op, a, b->k[1]), mkCmp(op, a, b->k[2]));
    if ( a->op == OSExt && isC(b) ) {
        unsigned iw = a->k[0]->w;
        if ( (((u128)sextw(b->c, iw)) & maskw(w)) == b->c ) return mkCmp(op, a->k[0], mkConst(b->c, iw));
    }
    if ( b->op == OSExt && isC(a) ) {
        unsigned iw = b->k[0]->w;
        if ( (((u128)sextw(a->c, iw)) & maskw(w)) == a->c ) return mkCmp(op, mkConst(a->c, iw), b->k[0]);
    }
    return intern(op, 1, 0, 0, a, b, nullptr);
}

E mkIte(E c, E a, E b) {
    if ( isC(c) ) return c->c ? a : b;
    if ( a == b ) return a;
    E in;
    if ( isNotOf(c, in) ) { std::swap(a, b); c = in; }
    if ( a->w == 1 ) {
        if ( isC(a) && isC(b) ) return a->c ? c : mkNot(c);
        if ( isC(a) ) return a->c ? mkOrB(c, b) : mkAndB(mkNot(c), b);
        if ( isC(b) ) return b->c ? mkOrB(mkNot(c), a) : mkAndB(c, a);
    }
    if ( a->op == OIte && a->k[0] == c ) a = a->k[1];
    if ( b->op == OIte && b->k[0] == c ) b = b->k[2];
    if ( a == b ) return a;
    // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
    if ( b->op == OIte && b->k[1] == a ) return mkIte(mkOrB(c, b->k[0]), a, b->k[2]);
    return intern(OIte, a->w, 0, 0, c, a, b);
}

E mkConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if ( w > 128 ) { fprintf(stderr, "concat too wide\n"); abort(); }
    if ( isC(hi) && isC(lo) ) return mkConst((hi->c << lo->w) | lo->c, w);
    if ( isC(hi) && hi->c == 0 ) return mkZExt(lo, w);
    if ( hi->op == OExtract && lo->op == OExtract && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w )
        return mkExtract(hi->k[0], lo->aux, w);
    if ( lo->op == OConcat ) {
        E m = lo->k[0];
        if ( hi->op == OExtract && m->op == OExtract && hi->k[0] == m->k[0] && hi->aux == m->aux + m->w )
            return mkConcat(mkExtract(hi->k[0], m->aux, hi->w + m->w), lo->k[1]);
        if ( isC(hi) && isC(m) ) return mkConcat(mkConst((hi->c << m->w) | m->c, hi->w + m->w), lo->k[1]);
    }
    if ( hi->op == OConcat ) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo)); // right-assoc
    if ( hi->op == OZExt ) return mkZExt(mkConcat(hi->k[0], lo), w);
    if ( hi->op == OIte && lo->op == OIte && hi->k[0] == lo->k[0] )
        return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
    return intern(OConcat, w, 0, 0, hi, lo, nullptr);
}

E mkExtract(E e, unsigned lo, unsigned w) {
    if ( lo == 0 && w == e->w ) return e;
    switch ( e->op ) {
    case OConst: return mkConst(e->c >> lo, w);
    case OExtract: return mkExtract(e->k[0], e->aux + lo, w);
    case OConcat: {
        unsigned lw = e->k[1]->w;
        if ( lo >= lw ) return mkExtract(e->k[0], lo - lw, w);
        if ( lo + w <= lw ) return mkExtract(e->k[1], lo, w);
        return mkConcat(mkExtract(e->k[0], 0, lo + w - lw), mkExtract(e->k[1], lo, lw - lo));
    }
    case OZExt: {
        unsigned iw = e->k[0]->w;
        if ( lo >= iw ) return mkConst(0, w);
        if ( lo + w <= iw ) return mkExtract(e->k[0], lo, w);
        return mkZExt(mkExtract(e->k[0], lo, iw - lo), w);
    }
    case OSExt: {
        unsigned iw = e->k[0]->w;
        if ( lo + w <= iw ) return mkExtract(e->k[0], lo, w);
        if ( lo < iw ) return mkSExt(mkExtract(e->k[0], lo, iw - lo), w);
        return mkSExt(mkExtract(e->k[0], iw - 1, 1), w);
    }
    case OIte:
        if ( (isC(e->k[1]) || isC(e->k[2])) || e->k[1]->op == OZExt || e->k[2]->op == OZExt || e->k[1]->op == OConcat || e->k[2]->op == OConcat ||
             e->k[1]->op == OIte || e->k[2]->op == OIte || (e->w > 64) )
            return mkIte(e->k[0], mkExtract(e->k[1], lo, w), mkExtract(e->k[2], lo, w));
        break;
    case OAnd:
    case OOr:
    case OXor: return mkBin((Op)e->op, mkExtract(e->k[0], lo, w), mkExtract(e->k[1], lo, w));
    case OAdd:
    case OSub:
    case OMul:
        if ( lo == 0 ) {
            auto simple = [&](E x) { return isC(x) || ((x->op == OZExt || x->op == OSExt) && x->k[0]->w <= w) || (x->op==OConcat && x->k[1]->w >= w); };
            if ( simple(e->k[0]) && simple(e->k[1]) ) return mkBin((Op)e->op, mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w));
        }
        break;
    default: break;
    }
    return intern(OExtract, w, 0, lo, e, nullptr, nullptr);
}
E mkZExt(E e, unsigned w) {
    if ( w == e->w ) return e;
    if ( isC(e) ) return mkConst(e->c, w);
    if ( e->op == OZExt ) return mkZExt(e->k[0], w);
    if ( e->op == OIte && isC(e->k[1]) && isC(e->k[2]) ) return mkIte(e->k[0], mkZExt(e->k[1], w), mkZExt(e->k[2], w));
    return intern(OZExt, w, 0, 0, e, nullptr, nullptr);
}
E mkSExt(E e, unsigned w) {
    if ( w == e->w ) return e;
    if ( isC(e) ) return mkConst((u128)sextw(e->c, e->w), w);
    if ( e->op == OSExt ) return mkSExt(e->k[0], w);
    if ( e->op == OZExt ) return mkZExt(e->k[0], w);
    if ( e->op == OIte && isC(e->k[1]) && isC(e->k[2]) ) return mkIte(e->k[0], mkSExt(e->k[1], w), mkSExt(e->k[2], w));
    return intern(OSExt, w, 0, 0, e, nullptr, nullptr);
}

E mkFBin(Op op, E a, E b) {
    if ( isC(a) && isC(b) ) return mkConst(foldF(op, a->c, b->c, 0, a->w, a->w, 0), a->w);
    return intern(op, a->w, 0, 0, a, b, nullptr);
}
E mkFCmp(Op op, E a, E b) {
    if ( isC(a) && isC(b) ) return foldF(op, a->c, b->c, 0, a->w, 1, 0) ? T1() : F1();
    return intern(op, 1, 0, 0, a, b, nullptr);
}
E mkFUn(Op op, E a, unsigned w, unsigned aux) {
    if ( isC(a) ) return mkConst(foldF(op, a->c, 0, 0, a->w, w, aux), w);
    return intern(op, w, 0, aux, a, nullptr, nullptr);
}
E mkFma(E a, E b, E c) {
    if ( isC(a) && isC(b) && isC(c) ) return mkConst(foldF(OFma, a->c, b->c, c->c, a->w, a->w, 0), a->w);
    return intern(OFma, a->w, 0, 0, a, b, c);
}

static std::vector<u128>     ev_val;
static std::vector<uint32_t> ev_gen;
static uint32_t              ev_cur = 0;
static u128 evalRec(E e, const Model& m) {
    if ( e->op == OConst ) return e->c;
    if ( ev_gen[e->id] == ev_cur ) return ev_val[e->id];
    u128 r;
    switch ( e->op ) {
    case OVar: r = m.get(e->aux) & maskw(e->w); break;
    case OConcat: r = (evalRec(e->k[0], m) << e->k[1]->w) | evalRec(e->k[1], m); break;
    case OExtract: r = (evalRec(e->k[0], m) >> e->aux) & maskw(e->w); break;
    case OZExt: r = evalRec(e->k[0], m); break;
    case OSExt: r = (u128)sextw(evalRec(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
    case OEq: case OUlt: case OUle: case OSlt: case OSle: r = foldCmp((Op)e->op, evalRec(e->k[0], m), evalRec(e->k[1], m), e->k[0]->w); break;
    case OIte: r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m); break;
    default:
        if ( e->op >= OFAdd )
            r = foldF((Op)e->op, evalRec(e->k[0], m), e->k[1] ? evalRec(e->k[1], m) : 0, e->k[2] ? evalRec(e->k[2], m) : 0, e->k[0]->w, e->w, e->aux);
        else r = foldBin((Op)e->op, evalRec(e->k[0], m), evalRec(e->k[1], m), e->w);
    }
    ev_gen[e->id] = ev_cur;
    ev_val[e->id] = r;
    return r;
}
u128 evalExpr(E e, const Model& m) {
    if ( ev_gen.size() < g_exprs.size() ) { ev_gen.resize(g_exprs.size() * 2, 0); ev_val.resize(g_exprs.size() * 2); }
    ev_cur++;
    return evalRec(e, m);
}

static const char* opn[] = { "const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "eq", "ult", "ule", "slt", "sle", "ite", "fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt", "fma", "feq", "flt", "fle", "funo", "ftosi", "ftoui", "sitof", "uitof", "fconv", "frint" };
std::string exprStr(E e, int depth) {
    char buf[80];
    if ( e->op == OConst ) { snprintf(buf, 80, "%lx:%d", (unsigned long)e->c, e->w); return buf; }
    if ( e->op == OVar ) return g_vars[e->aux].name;
    if ( depth == 0 ) return "...";
    std::string s = std::string("(") + opn[e->op];
    if ( e->op == OExtract ) { snprintf(buf, 80, "[%d+%d]", e->aux, e->w); s += buf; }
    for ( int i = 0; i < 3; i++ ) if ( e->k[i] ) s += " " + exprStr(e->k[i], depth - 1);
    return s + ")";
}
