#include "solver.h"
#include <unordered_map>
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <unistd.h>
#include <fcntl.h>

SolverStats g_sst;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Solver::Impl {
    Z3_context           c;
    Z3_solver            fast, fpfast;
    std::vector<Z3_ast>  bv, bo, fp;
    Z3_ast               rne, rtz, rup, rdn, rna;
    std::map<unsigned, Z3_sort> sorts;
    Z3_ast keep(Z3_ast a) { return a; }
    Z3_sort bvs(unsigned w) {
        auto& s = sorts[w];
        if ( !s ) { s = Z3_mk_bv_sort(c, w); }
        return s;
    }
    Z3_sort fps(unsigned w) {
        auto& s = sorts[1000 + w];
        if ( !s ) { s = w == 32 ? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort_64(c); }
        return s;
    }
    Z3_ast cst(u128 v, unsigned w) {
        if ( w <= 64 ) return Z3_mk_unsigned_int64(c, (uint64_t)v, bvs(w));
        Z3_ast hi = Z3_mk_unsigned_int64(c, (uint64_t)(v >> 64), bvs(w - 64));
        Z3_ast lo = Z3_mk_unsigned_int64(c, (uint64_t)v, bvs(64));
        return Z3_mk_concat(c, hi, lo);
    }
    Z3_ast B(E e) { // as Bool, w==1
        if ( bo.size() <= e->id ) bo.resize(g_exprs.size() + 1024);
        if ( bo[e->id] ) return bo[e->id];
        Z3_ast r;
        Z3_ast a2[2];
        switch ( e->op ) {
        case OConst: r = e->c ? Z3_mk_true(c) : Z3_mk_false(c); break;
        case OEq:
            if ( e->k[0]->w == 1 ) r = Z3_mk_iff(c, B(e->k[0]), B(e->k[1]));
            else r = Z3_mk_eq(c, V(e->k[0]), V(e->k[1]));
            break;
        case OUlt: r = Z3_mk_bvult(c, V(e->k[0]), V(e->k[1])); break;
        case OUle: r = Z3_mk_bvule(c, V(e->k[0]), V(e->k[1])); break;
        case OSlt: r = Z3_mk_bvslt(c, V(e->k[0]), V(e->k[1])); break;
        case OSle: r = Z3_mk_bvsle(c, V(e->k[0]), V(e->k[1])); break;
        case OAnd: a2[0] = B(e->k[0]); a2[1] = B(e->k[1]); r = Z3_mk_and(c, 2, a2); break;
        case OOr: a2[0] = B(e->k[0]); a2[1] = B(e->k[1]); r = Z3_mk_or(c, 2, a2); break;
        case OXor:
            if ( e->k[1]->op == OConst && e->k[1]->c ) r = Z3_mk_not(c, B(e->k[0]));
            else r = Z3_mk_xor(c, B(e->k[0]), B(e->k[1]));
            break;
        case OIte: r = Z3_mk_ite(c, B(e->k[0]), B(e->k[1]), B(e->k[2])); break;
        case OFEq: r = Z3_mk_fpa_eq(c, F(e->k[0]), F(e->k[1])); break;
        case OFLt: r = Z3_mk_fpa_lt(c, F(e->k[0]), F(e->k[1])); break;
        case OFLe: r = Z3_mk_fpa_leq(c, F(e->k[0]), F(e->k[1])); break;
        case OFUno: a2[0] = Z3_mk_fpa_is_nan(c, F(e->k[0])); a2[1] = Z3_mk_fpa_is_nan(c, F(e->k[1])); r = Z3_mk_or(c, 2, a2); break;
        default: r = Z3_mk_eq(c, V(e), cst(1, 1)); break;
        }
        keep(r);
        if ( bo.size() <= e->id ) bo.resize(g_exprs.size() + 1024);
        return bo[e->id] = r;
    }
    Z3_ast V(E e) {
        if ( bv.size() <= e->id ) bv.resize(g_exprs.size() + 1024);
        if ( bv[e->id] ) return bv[e->id];
        Z3_ast r = nullptr;
        if ( e->w == 1 ) {
            switch ( e->op ) {
            case OEq: case OUlt: case OUle: case OSlt: case OSle: case OAnd: case OOr: case OXor: case OIte: case OFEq: case OFLt: case OFLe: case OFUno:
                r = Z3_mk_ite(c, B(e), cst(1, 1), cst(0, 1));
                break;
            default: break;
            }
        }
        if ( !r ) switch ( e->op ) {
        case OConst: r = cst(e->c, e->w); break;
        case OVar: {
            char n[32]; snprintf(n, 32, "v%u", e->aux);
            r = Z3_mk_const(c, Z3_mk_string_symbol(c, n), bvs(e->w));
            break;
        }
        case OAdd: r = Z3_mk_bvadd(c, V(e->k[0]), V(e->k[1])); break;
        case OSub: r = Z3_mk_bvsub(c, V(e->k[0]), V(e->k[1])); break;
        case OMul: r = Z3_mk_bvmul(c, V(e->k[0]), V(e->k[1])); break;
        case OUDiv: r = Z3_mk_bvudiv(c, V(e->k[0]), V(e->k[1])); break;
        case OSDiv: r = Z3_mk_bvsdiv(c, V(e->k[0]), V(e->k[1])); break;
        case OURem: r = Z3_mk_bvurem(c, V(e->k[0]), V(e->k[1])); break;
        case OSRem: r = Z3_mk_bvsrem(c, V(e->k[0]), V(e->k[1])); break;
        case OAnd: r = Z3_mk_bvand(c, V(e->k[0]), V(e->k[1])); break;
        case OOr: r = Z3_mk_bvor(c, V(e->k[0]), V(e->k[1])); break;
        case OXor:
            if ( isC(e->k[1]) && e->k[1]->c == maskw(e->w) ) r = Z3_mk_bvnot(c, V(e->k[0]));
            else r = Z3_mk_bvxor(c, V(e->k[0]), V(e->k[1]));
            break;
        case OShl: r = Z3_mk_bvshl(c, V(e->k[0]), V(e->k[1])); break;
        case OLShr: r = Z3_mk_bvlshr(c, V(e->k[0]), V(e->k[1])); break;
        case OAShr: r = Z3_mk_bvashr(c, V(e->k[0]), V(e->k[1])); break;
        case OConcat: r = Z3_mk_concat(c, V(e->k[0]), V(e->k[1])); break;
        case OExtract: r = Z3_mk_extract(c, e->aux + e->w - 1, e->aux, V(e->k[0])); break;
        case OZExt: r = Z3_mk_zero_ext(c, e->w - e->k[0]->w, V(e->k[0])); break;
        case OSExt: r = Z3_mk_sign_ext(c, e->w - e->k[0]->w, V(e->k[0])); break;
        case OIte: r = Z3_mk_ite(c, B(e->k[0]), V(e->k[1]), V(e->k[2])); break;
        case OFToSI:
        case OFToUI: {
            // out of range -> integer indefinite (sign bit only), matching foldF
            Z3_ast f   = Z3_mk_fpa_round_to_integral(c, rtz, F(e->k[0]));
            Z3_sort s  = fps(e->k[0]->w);
            bool   sg  = e->op == OFToSI;
            double lim = __builtin_ldexp(1.0, sg ? e->w - 1 : e->w);
            Z3_ast hi  = Z3_mk_fpa_numeral_double(c, lim, s);
            Z3_ast lo  = Z3_mk_fpa_numeral_double(c, sg ? -lim : 0.0, s);
            Z3_ast in[2] = { Z3_mk_fpa_lt(c, f, hi), Z3_mk_fpa_geq(c, f, lo) };
            Z3_ast v   = sg ? Z3_mk_fpa_to_sbv(c, rtz, F(e->k[0]), e->w) : Z3_mk_fpa_to_ubv(c, rtz, F(e->k[0]), e->w);
            r = Z3_mk_ite(c, Z3_mk_and(c, 2, in), v, cst((u128)1 << (e->w - 1), e->w));
            break;
        }
        default: // FP valued
            r = Z3_mk_fpa_to_ieee_bv(c, F(e));
            break;
        }
        keep(r);
        if ( bv.size() <= e->id ) bv.resize(g_exprs.size() + 1024);
        return bv[e->id] = r;
    }
    Z3_ast F(E e) {
        if ( fp.size() <= e->id ) fp.resize(g_exprs.size() + 1024);
        if ( fp[e->id] ) return fp[e->id];
        Z3_ast r = nullptr;
        switch ( e->op ) {
        case OFAdd: r = Z3_mk_fpa_add(c, rne, F(e->k[0]), F(e->k[1])); break;
        case OFSub: r = Z3_mk_fpa_sub(c, rne, F(e->k[0]), F(e->k[1])); break;
        case OFMul: r = Z3_mk_fpa_mul(c, rne, F(e->k[0]), F(e->k[1])); break;
        case OFDiv: r = Z3_mk_fpa_div(c, rne, F(e->k[0]), F(e->k[1])); break;
        case OFSqrt: r = Z3_mk_fpa_sqrt(c, rne, F(e->k[0])); break;
        case OFma: r = Z3_mk_fpa_fma(c, rne, F(e->k[0]), F(e->k[1]), F(e->k[2])); break;
        case OFConv: r = Z3_mk_fpa_to_fp_float(c, rne, F(e->k[0]), fps(e->w)); break;
        case OSIToF: r = Z3_mk_fpa_to_fp_signed(c, rne, V(e->k[0]), fps(e->w)); break;
        case OUIToF: r = Z3_mk_fpa_to_fp_unsigned(c, rne, V(e->k[0]), fps(e->w)); break;
        case OFRint: {
            Z3_ast m = e->aux == 0 ? rne : e->aux == 1 ? rdn : e->aux == 2 ? rup : e->aux == 3 ? rtz : rna;
            r = Z3_mk_fpa_round_to_integral(c, m, F(e->k[0]));
            break;
        }
        case OFRem: throw std::string("fmod not encodable");
        case OIte: if ( e->hasfp ) { r = Z3_mk_ite(c, B(e->k[0]), F(e->k[1]), F(e->k[2])); break; }
            // fallthrough
        default: r = Z3_mk_fpa_to_fp_bv(c, V(e), fps(e->w));
        }
        keep(r);
        if ( fp.size() <= e->id ) fp.resize(g_exprs.size() + 1024);
        return fp[e->id] = r;
    }
};

static void errh(Z3_context, Z3_error_code) {}

Solver::Solver() : p(new Impl) {
    Z3_config cfg = Z3_mk_config();
    p->c = Z3_mk_context(cfg); // not _rc: temporaries must survive until used
    Z3_set_error_handler(p->c, errh);
    p->rne = p->keep(Z3_mk_fpa_rne(p->c)); p->rtz = p->keep(Z3_mk_fpa_rtz(p->c));
    p->rup = p->keep(Z3_mk_fpa_rtp(p->c)); p->rdn = p->keep(Z3_mk_fpa_rtn(p->c)); p->rna = p->keep(Z3_mk_fpa_rna(p->c));
    p->fast = Z3_mk_simple_solver(p->c);
    Z3_solver_inc_ref(p->c, p->fast);
}

static bool extractModel(Z3_context c, Z3_solver s, const std::vector<E>& cs, Model& m, Solver*) {
    Z3_model zm = Z3_solver_get_model(c, s);
    if ( !zm ) return false;
    Z3_model_inc_ref(c, zm);
    unsigned n = Z3_model_get_num_consts(c, zm);
    for ( unsigned i = 0; i < n; i++ ) {
        Z3_func_decl d = Z3_model_get_const_decl(c, zm, i);
        Z3_symbol sy = Z3_get_decl_name(c, d);
        if ( Z3_get_symbol_kind(c, sy) != Z3_STRING_SYMBOL ) continue;
        std::string nm = Z3_get_symbol_string(c, sy);
        unsigned vi;
        char tail;
        if ( sscanf(nm.c_str(), "v%u%c", &vi, &tail) != 1 || vi >= g_vars.size() ) continue;
        Z3_ast v = Z3_model_get_const_interp(c, zm, d);
        if ( !v ) continue;
        uint64_t u = 0;
        unsigned w = g_vars[vi].w;
        if ( w <= 64 ) {
            if ( !Z3_get_numeral_uint64(c, v, &u) ) continue;
            m.v[vi] = u;
        } else {
            std::string ds = Z3_get_numeral_string(c, v);
            u128 x = 0;
            for ( char ch : ds ) x = x * 10 + (ch - '0');
            m.v[vi] = x;
        }
    }
    Z3_model_dec_ref(c, zm);
    return true;
}


// ---- linear integer view of a bit-vector query -------------------------------------------
// Exact encoding of +,-,*const,shift/div/rem by const, extract, concat, ite and comparisons over
// integers with explicit wrap-around variables; anything else is an opaque integer of its
// range (an over-approximation, so "unsat" is sound; "sat" models are validated).
struct Lia {
    Z3_context c; Z3_sort is; Z3_solver s;
    struct N { Z3_ast t = nullptr; u128 hi = 0; std::vector<Z3_ast> side; };
    std::unordered_map<uint32_t, N> ni; std::unordered_map<uint32_t, Z3_ast> nb;
    unsigned fresh = 0;
    Lia(Z3_context c_) : c(c_) { is = Z3_mk_int_sort(c); s = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, s); }
    Z3_ast num(u128 v) {
        if ( v <= ~0ull ) return Z3_mk_unsigned_int64(c, (uint64_t)v, is);
        char b[64]; char* q = b + 63; *q = 0;
        while ( v ) { *--q = '0' + (int)(v % 10); v /= 10; }
        return Z3_mk_numeral(c, q, is);
    }
    Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = { a, b }; return Z3_mk_add(c, 2, x); }
    Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = { a, b }; return Z3_mk_sub(c, 2, x); }
    Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = { a, b }; return Z3_mk_mul(c, 2, x); }
    Z3_ast fv(u128 hi, N& n) {
        char nm[32]; snprintf(nm, 32, "x%u", fresh++);
        Z3_ast v = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), is);
        n.side.push_back(Z3_mk_ge(c, v, num(0))); n.side.push_back(Z3_mk_le(c, v, num(hi)));
        return v;
    }
    void rng(N& n, unsigned w) { n.hi = maskw(w); n.side.push_back(Z3_mk_ge(c, n.t, num(0))); n.side.push_back(Z3_mk_le(c, n.t, num(n.hi))); }
    N& I(E e) {
        auto it = ni.find(e->id);
        if ( it != ni.end() ) return it->second;
        N n;
        bool opaque = e->w > 64;
        E a = e->k[0], b = e->k[1];
        unsigned w = e->w;
        u128 M = maskw(w);
        if ( w == 1 && e->op != OConst && e->op != OVar && e->op != OExtract ) { n.t = Z3_mk_ite(c, Bo(e), num(1), num(0)); n.hi = 1; }
        else if ( !opaque ) switch ( e->op ) {
        case OConst: n.t = num(e->c); n.hi = e->c; break;
        case OVar: { char nm[32]; snprintf(nm, 32, "v%u", e->aux); n.t = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), is); rng(n, w); break; }
        case OZExt: { N& x = I(a); n.t = x.t; n.hi = x.hi; break; }
        case OAdd: {
            N x = I(a), y = I(b);
            if ( isC(a) && a->c > M / 2 ) std::swap(x, y), std::swap(a, b);
            if ( isC(b) && b->c > M / 2 ) { // subtraction of a small constant
                Z3_ast k = fv(1, n);
                n.t = add(sub(x.t, num(M - b->c + 1)), mul(num(M + 1), k)); rng(n, w);
            } else if ( x.hi + y.hi <= M ) { n.t = add(x.t, y.t); n.hi = x.hi + y.hi; }
            else { Z3_ast k = fv(1, n); n.t = sub(add(x.t, y.t), mul(num(M + 1), k)); rng(n, w); }
            break;
        }
        case OSub: {
            N x = I(a), y = I(b);
            if ( isC(a) && a->c >= y.hi ) { n.t = sub(x.t, y.t); n.hi = a->c; }
            else { Z3_ast k = fv(1, n); n.t = add(sub(x.t, y.t), mul(num(M + 1), k)); rng(n, w); }
            break;
        }
        case OMul: case OShl: {
            u128 f; 
            if ( e->op == OShl ) { if ( !isC(b) || b->c >= w ) { opaque = true; break; } f = (u128)1 << (unsigned)b->c; }
            else { if ( isC(a) ) std::swap(a, b); if ( !isC(b) ) { opaque = true; break; } f = b->c; }
            N x = I(a);
            bool neg = f > M / 2 && w > 1;
            if ( neg ) { // small negative factor
                u128 g = M + 1 - f;
                if ( g > ((u128)1 << 40) ) { opaque = true; break; }
                Z3_ast k = fv(g, n); n.t = sub(mul(num(M + 1), k), mul(num(g), x.t)); rng(n, w);
            } else if ( w <= 64 && f * x.hi <= M ) { n.t = mul(num(f), x.t); n.hi = f * x.hi; }
            else { Z3_ast k = fv(f * x.hi / (M + 1), n); n.t = sub(mul(num(f), x.t), mul(num(M + 1), k)); rng(n, w); }
            break;
        }
        case OUDiv: case OURem: case OLShr: {
            if ( !isC(b) ) { opaque = true; break; }
            u128 f = e->op == OLShr ? (b->c >= w ? 0 : (u128)1 << (unsigned)b->c) : b->c;
            if ( f == 0 ) { opaque = true; break; }
            N x = I(a);
            Z3_ast q = fv(x.hi / f, n), r = fv(f - 1 < x.hi ? f - 1 : x.hi, n);
            n.side.push_back(Z3_mk_eq(c, x.t, add(mul(num(f), q), r)));
            if ( e->op == OURem ) { n.t = r; n.hi = f - 1 < x.hi ? f - 1 : x.hi; } else { n.t = q; n.hi = x.hi / f; }
            break;
        }
        case OExtract: {
            if ( a->w > 64 ) { opaque = true; break; }
            N x = I(a);
            unsigned lo = e->aux;
            if ( lo == 0 && x.hi <= M ) { n.t = x.t; n.hi = x.hi; break; }
            Z3_ast r;
            u128 tot = x.hi >> lo;
            if ( tot <= M ) { r = fv(tot, n); n.hi = tot; }
            else { r = fv(M, n); n.hi = M; }
            Z3_ast sum = mul(num((u128)1 << lo), r);
            if ( lo ) sum = add(sum, fv(((u128)1 << lo) - 1, n));
            if ( tot > M ) sum = add(sum, mul(num((u128)1 << (lo + w)), fv(x.hi >> (lo + w), n)));
            n.side.push_back(Z3_mk_eq(c, x.t, sum));
            n.t = r;
            break;
        }
        case OConcat: { N x = I(a), y = I(b); u128 f = (u128)1 << b->w; n.t = add(mul(num(f), x.t), y.t); n.hi = x.hi * f + y.hi; break; }
        case OSExt: {
            N x = I(a); u128 h = (u128)1 << (a->w - 1);
            if ( x.hi < h ) { n.t = x.t; n.hi = x.hi; }
            else { n.t = add(x.t, Z3_mk_ite(c, Z3_mk_ge(c, x.t, num(h)), num(M - maskw(a->w)), num(0))); n.hi = M; }
            break;
        }
        case OXor: if ( isC(b) && b->c == M ) { N x = I(a); n.t = sub(num(M), x.t); n.hi = M; } else opaque = true; break;
        case OAnd: {
            if ( isC(b) && (b->c & (b->c + 1)) == 0 ) {
                N x = I(a);
                if ( x.hi <= b->c ) { n.t = x.t; n.hi = x.hi; break; }
                Z3_ast r = fv(b->c, n), q = fv(x.hi / (b->c + 1), n);
                n.side.push_back(Z3_mk_eq(c, x.t, add(r, mul(num(b->c + 1), q))));
                n.t = r; n.hi = b->c;
            } else opaque = true;
            break;
        }
        case OIte: { N x = I(b), y = I(e->k[2]); n.t = Z3_mk_ite(c, Bo(a), x.t, y.t); n.hi = x.hi > y.hi ? x.hi : y.hi; break; }
        default: opaque = true;
        }
        if ( opaque ) { n = N(); n.t = fv(w > 120 ? ~(u128)0 >> 1 : M, n); n.hi = w > 120 ? ~(u128)0 >> 1 : M; }
        return ni[e->id] = n;
    }
    Z3_ast sgn(E e) {
        N& x = I(e); u128 h = (u128)1 << (e->w - 1);
        if ( x.hi < h ) return x.t;
        return sub(x.t, Z3_mk_ite(c, Z3_mk_ge(c, x.t, num(h)), num(h * 2), num(0)));
    }
    Z3_ast Bo(E e) {
        auto it = nb.find(e->id);
        if ( it != nb.end() ) return it->second;
        Z3_ast r, a2[2];
        E a = e->k[0], b = e->k[1];
        bool wide = (e->op >= OEq && e->op <= OSle) && a->w > 64;
        if ( wide ) { char nm[32]; snprintf(nm, 32, "b%u", fresh++); r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), Z3_mk_bool_sort(c)); }
        else switch ( e->op ) {
        case OConst: r = e->c ? Z3_mk_true(c) : Z3_mk_false(c); break;
        case OEq: if ( a->w == 1 ) r = Z3_mk_iff(c, Bo(a), Bo(b)); else r = Z3_mk_eq(c, I(a).t, I(b).t); break;
        case OUlt: r = Z3_mk_lt(c, I(a).t, I(b).t); break;
        case OUle: r = Z3_mk_le(c, I(a).t, I(b).t); break;
        case OSlt: r = Z3_mk_lt(c, sgn(a), sgn(b)); break;
        case OSle: r = Z3_mk_le(c, sgn(a), sgn(b)); break;
        case OAnd: a2[0] = Bo(a); a2[1] = Bo(b); r = Z3_mk_and(c, 2, a2); break;
        case OOr: a2[0] = Bo(a); a2[1] = Bo(b); r = Z3_mk_or(c, 2, a2); break;
        case OXor: r = isC(b) && b->c ? Z3_mk_not(c, Bo(a)) : Z3_mk_xor(c, Bo(a), Bo(b)); break;
        case OIte: r = Z3_mk_ite(c, Bo(a), Bo(b), Bo(e->k[2])); break;
        case OVar: case OExtract: r = Z3_mk_eq(c, I(e).t, num(1)); break;
        default: { char nm[32]; snprintf(nm, 32, "b%u", fresh++); r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), Z3_mk_bool_sort(c)); }
        }
        return nb[e->id] = r;
    }
    void sides(E e, std::set<uint32_t>& seen, std::vector<Z3_ast>& out) {
        if ( !seen.insert(e->id).second ) return;
        auto it = ni.find(e->id);
        if ( it != ni.end() ) out.insert(out.end(), it->second.side.begin(), it->second.side.end());
        for ( int i = 0; i < 3; i++ ) if ( e->k[i] ) sides(e->k[i], seen, out);
    }
    // UNSAT is definite; SAT gives a candidate model
    Res check(const std::vector<E>& cs, Model& m, unsigned ms) {
        std::vector<Z3_ast> as;
        std::set<uint32_t> seen;
        for ( E e : cs ) as.push_back(Bo(e));
        for ( E e : cs ) sides(e, seen, as);
        Z3_solver_reset(c, s);
        Z3_params ps = Z3_mk_params(c);
        Z3_params_inc_ref(c, ps);
        Z3_params_set_uint(c, ps, Z3_mk_string_symbol(c, "timeout"), ms);
        Z3_solver_set_params(c, s, ps);
        Z3_params_dec_ref(c, ps);
        for ( auto a : as ) Z3_solver_assert(c, s, a);
        Z3_lbool r = Z3_solver_check(c, s);
        if ( r == Z3_L_FALSE ) return UNSAT;
        if ( r == Z3_L_TRUE ) {
            Z3_model zm = Z3_solver_get_model(c, s);
            if ( !zm ) return UNKNOWN;
            Z3_model_inc_ref(c, zm);
            unsigned n = Z3_model_get_num_consts(c, zm);
            for ( unsigned i = 0; i < n; i++ ) {
                Z3_func_decl d = Z3_model_get_const_decl(c, zm, i);
                std::string nm = Z3_get_symbol_string(c, Z3_get_decl_name(c, d));
                unsigned vi; char tail;
                if ( sscanf(nm.c_str(), "v%u%c", &vi, &tail) != 1 || vi >= g_vars.size() ) continue;
                Z3_ast v = Z3_model_get_const_interp(c, zm, d);
                if ( !v ) continue;
                std::string ds = Z3_get_numeral_string(c, v);
                u128 x = 0;
                for ( char ch : ds ) if ( ch >= '0' && ch <= '9' ) x = x * 10 + (ch - '0');
                m.v[vi] = x;
            }
            Z3_model_dec_ref(c, zm);
            return SAT;
        }
        return UNKNOWN;
    }
};
static Lia* g_lia;

// independent confirmation of "unsat" answers of the built-in procedure by z3: every property
// verdict while cheap, then a sample
void Solver::crossCheck(const std::vector<E>& cs, bool verdict) {
    static uint64_t n = 0;
    static double t00 = now();
    n++;
    double el = now() - t00;
    bool doit = verdict ? (g_sst.xtime < 0.25 * el + 1 || n % 64 == 0) : (n % 256 == 0);
    if ( !doit || g_sst.xtime > 0.4 * el + 3 ) return;
    double t = now();
    auto* P = p; Z3_context c = P->c;
    std::vector<Z3_ast> as;
    for ( E e : cs ) as.push_back(P->B(e));
    Z3_solver_reset(c, P->fast);
    Z3_params ps = Z3_mk_params(c);
    Z3_params_inc_ref(c, ps);
    Z3_params_set_uint(c, ps, Z3_mk_string_symbol(c, "timeout"), 500);
    Z3_solver_set_params(c, P->fast, ps);
    Z3_params_dec_ref(c, ps);
    for ( auto a : as ) Z3_solver_assert(c, P->fast, a);
    g_sst.z3calls++;
    Z3_lbool r = Z3_solver_check(c, P->fast);
    if ( r == Z3_L_TRUE ) { g_sst.disagree = true; fprintf(stderr, "SOLVER DISAGREEMENT\n"); }
    if ( r == Z3_L_FALSE ) g_sst.crosschecks++;
    g_sst.xtime += now() - t;
}
// Floating-point subterms over at most 12 bits of input are replaced by their exact value table
// (evaluated with IEEE arithmetic for every input), a multiplexer tree the bit-level procedures decide.
static std::unordered_map<uint32_t, E> g_tab;
typedef std::vector<uint64_t> BitSet;   // (var << 8 | bit), sorted; more than 12 entries means too many
static std::unordered_map<uint32_t, BitSet> g_bits;
static const BitSet& bitsUsed(E e) {
    auto it = g_bits.find(e->id);
    if ( it != g_bits.end() ) return it->second;
    BitSet r;
    if ( e->op == OVar ) for ( unsigned b = 0; b < e->w && b <= 12; b++ ) r.push_back((uint64_t)e->aux << 8 | b);
    else if ( e->op == OExtract && e->k[0]->op == OVar ) for ( unsigned b = 0; b < e->w && b <= 12; b++ ) r.push_back((uint64_t)e->k[0]->aux << 8 | (b + e->aux));
    else for ( int i = 0; i < 3 && r.size() <= 12; i++ ) if ( e->k[i] ) {
        const BitSet& o = bitsUsed(e->k[i]);
        BitSet u;
        std::set_union(r.begin(), r.end(), o.begin(), o.end(), std::back_inserter(u));
        r.swap(u);
    }
    if ( r.size() > 13 ) r.resize(13);
    return g_bits[e->id] = r;
}
static E tabulate(E e, const BitSet& bs) {
    unsigned n = bs.size();
    std::vector<std::pair<uint32_t, unsigned>> bits;
    for ( auto x : bs ) bits.push_back({ (uint32_t)(x >> 8), (unsigned)(x & 255) });
    std::vector<E> leaf((size_t)1 << n);
    Model m;
    for ( size_t i = 0; i < leaf.size(); i++ ) {
        m.v.clear();
        for ( unsigned b = 0; b < n; b++ ) if ( i >> b & 1 ) m.v[bits[b].first] |= (u128)1 << bits[b].second;
        leaf[i] = mkConst(evalExpr(e, m), e->w);
    }
    for ( unsigned b = 0; b < n; b++ ) {
        E sel = mkExtract(g_varE[bits[b].first], bits[b].second, 1);
        std::vector<E> nx(leaf.size() / 2);
        for ( size_t i = 0; i < nx.size(); i++ ) nx[i] = mkIte(sel, leaf[2 * i + 1], leaf[2 * i]);
        leaf.swap(nx);
    }
    return leaf[0];
}
static E defp(E e) {
    if ( !e->hasfp ) return e;
    auto it = g_tab.find(e->id);
    if ( it != g_tab.end() ) return it->second;
    const BitSet& bs = bitsUsed(e);
    E r = e;
    if ( bs.size() <= 12 && (e->op >= OFAdd || e->w == 1) ) r = tabulate(e, BitSet(bs));
    else {
        E k[3];
        bool ch = false;
        for ( int i = 0; i < 3; i++ ) { k[i] = e->k[i] ? defp(e->k[i]) : nullptr; ch |= k[i] != e->k[i]; }
        if ( ch ) switch ( e->op ) {
            case OConcat: r = mkConcat(k[0], k[1]); break;
            case OExtract: r = mkExtract(k[0], e->aux, e->w); break;
            case OZExt: r = mkZExt(k[0], e->w); break;
            case OSExt: r = mkSExt(k[0], e->w); break;
            case OIte: r = mkIte(k[0], k[1], k[2]); break;
            case OEq: case OUlt: case OUle: case OSlt: case OSle: r = mkCmp((Op)e->op, k[0], k[1]); break;
            case OFAdd: case OFSub: case OFMul: case OFDiv: case OFRem: r = mkFBin((Op)e->op, k[0], k[1]); break;
            case OFEq: case OFLt: case OFLe: case OFUno: r = mkFCmp((Op)e->op, k[0], k[1]); break;
            case OFma: r = mkFma(k[0], k[1], k[2]); break;
            case OFSqrt: case OFToSI: case OFToUI: case OSIToF: case OUIToF: case OFConv: case OFRint: r = mkFUn((Op)e->op, k[0], e->w, e->aux); break;
            default: r = mkBin((Op)e->op, k[0], k[1]);
        }
    }
    g_tab[e->id] = r;
    return r;
}
Res Solver::solveRaw(const std::vector<E>& cs0, Model& m, bool noBit) {
    std::vector<E> cs;
    for ( E e : cs0 ) cs.push_back(defp(e));
    if ( !noBit ) {
        bool fp_ = false;
        for ( E e : cs ) fp_ |= e->hasfp;
        static unsigned tries = 0, hits = 0;
        for ( int round = 0; round < 2; round++ ) {
            int b = bit.check(cs, m, round == 0 ? 250 : 8000);
            if ( b >= 0 ) g_sst.bitcalls++;
            if ( b == 0 ) return UNSAT;
            if ( b == 1 ) {
                bool ok = true;
                for ( E e : cs ) if ( evalExpr(e, m) != 1 ) ok = false;
                if ( ok ) return SAT;
                fprintf(stderr, "bit solver model failed validation\n");
                g_sst.disagree = true;
            }
            m.v.clear();
            if ( round == 0 && !fp_ && (tries < 30 || hits * 4 > tries || tries % 8 == 0) ) {
                tries++;
                if ( !g_lia ) g_lia = new Lia(p->c);
                Res r = g_lia->check(cs, m, 1500);
                g_sst.liacalls++;
                if ( r == UNSAT ) { hits++; return UNSAT; }
                if ( r == SAT ) {
                    bool ok = true;
                    for ( E e : cs ) if ( evalExpr(e, m) != 1 ) ok = false;
                    if ( ok ) { hits++; return SAT; }
                }
                m.v.clear();
            } else if ( round == 0 ) tries++;
        }
        m.v.clear();
    }
    auto* P = p;
    Z3_context c = P->c;
    bool hasfp = false;
    for ( E e : cs ) hasfp |= e->hasfp;
    auto setTO = [&](Z3_solver s, unsigned ms) {
        Z3_params ps = Z3_mk_params(c);
        Z3_params_inc_ref(c, ps);
        Z3_params_set_uint(c, ps, Z3_mk_string_symbol(c, "timeout"), ms);
        Z3_solver_set_params(c, s, ps);
        Z3_params_dec_ref(c, ps);
    };
    auto validate = [&]() {
        for ( E e : cs ) if ( evalExpr(e, m) != 1 ) return false;
        return true;
    };
    std::vector<Z3_ast> as;
    for ( E e : cs ) as.push_back(P->B(e));
    if ( !hasfp ) {
        Z3_solver_reset(c, P->fast);
        setTO(P->fast, fastMs);
        for ( auto a : as ) Z3_solver_assert(c, P->fast, a);
        g_sst.z3calls++;
        Z3_lbool r = Z3_solver_check(c, P->fast);
        if ( r == Z3_L_FALSE ) return UNSAT;
        if ( r == Z3_L_TRUE && extractModel(c, P->fast, cs, m, this) ) {
            if ( validate() ) return SAT;
            m.v.clear();
            if ( getenv("SYM_DEBUG") ) fprintf(stderr, "z3 model failed validation\n");
        }
    }
    // stronger: tactic based solver for the logic
    {
        Z3_solver s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, hasfp ? "QF_BVFP" : "QF_BV"));
        if ( s ) {
            Z3_solver_inc_ref(c, s);
            setTO(s, slowMs / 3);
            for ( auto a : as ) Z3_solver_assert(c, s, a);
            g_sst.z3calls++;
            Z3_lbool r = Z3_solver_check(c, s);
            bool ok = r == Z3_L_TRUE && extractModel(c, s, cs, m, this) && validate();
            if ( r == Z3_L_TRUE && !ok ) m.v.clear();
            Z3_solver_dec_ref(c, s);
            if ( r == Z3_L_FALSE ) return UNSAT;
            if ( ok ) return SAT;
        }
    }
    Res r = viaCvc5(cs, m, slowMs);
    if ( r == SAT && !validate() ) return UNKNOWN;
    return r;
}

Res Solver::viaCvc5(const std::vector<E>& cs, Model& m, unsigned ms) {
    auto* P = p;
    Z3_context c = P->c;
    Z3_solver s = Z3_mk_simple_solver(c);
    Z3_solver_inc_ref(c, s);
    bool hasfp = false;
    std::set<uint32_t> vs;
    for ( E e : cs ) { Z3_solver_assert(c, s, P->B(e)); hasfp |= e->hasfp; for ( auto v : varsOf(e) ) vs.insert(v); }
    std::string txt = Z3_solver_to_string(c, s);
    Z3_solver_dec_ref(c, s);
    char fn[128];
    snprintf(fn, 128, "%s/q%d_%lu.smt2", smtDir.empty() ? "/tmp" : smtDir.c_str(), getpid(), g_sst.cvc5calls);
    g_sst.cvc5calls++;
    FILE* f = fopen(fn, "w");
    if ( !f ) return UNKNOWN;
    fprintf(f, "(set-logic %s)\n(set-option :produce-models true)\n%s\n(check-sat)\n", hasfp ? "QF_BVFP" : "QF_BV", txt.c_str());
    if ( !vs.empty() ) {
        fprintf(f, "(get-value (");
        for ( auto v : vs ) fprintf(f, "v%u ", v);
        fprintf(f, "))\n");
    }
    fclose(f);
    const char* variants[2] = { "--solve-bv-as-int=sum", "" };
    Res result = UNKNOWN;
    for ( int k = hasfp ? 1 : 0; k < 2 && result == UNKNOWN; k++ ) {
        char cmd[512];
        snprintf(cmd, 512, "timeout %u cvc5 --tlimit=%u %s %s 2>&1", ms / 1000 + 5, ms, variants[k], fn);
        FILE* pp = popen(cmd, "r");
        if ( !pp ) break;
        std::string out;
        char buf[4096];
        size_t n;
        while ( (n = fread(buf, 1, sizeof buf, pp)) > 0 ) out.append(buf, n);
        pclose(pp);
        if ( out.compare(0, 5, "unsat") == 0 ) result = UNSAT;
        else if ( out.compare(0, 3, "sat") == 0 && out.find("(error") == std::string::npos ) {
            m.v.clear();
            for ( auto v : vs ) {
                char key[32]; snprintf(key, 32, "(v%u #b", v);
                size_t pos = out.find(key);
                if ( pos == std::string::npos ) continue;
                pos += strlen(key);
                u128 x = 0;
                while ( out[pos] == '0' || out[pos] == '1' ) x = x * 2 + (out[pos++] - '0');
                m.v[v] = x;
            }
            result = SAT;
        }
    }
    unlink(fn);
    return result;
}

static void flatten(E e, std::vector<E>& out) {
    if ( e->w == 1 && e->op == OAnd ) { flatten(e->k[0], out); flatten(e->k[1], out); }
    else if ( !(isC(e) && e->c) ) out.push_back(e);
}

Res Solver::check(const std::vector<E>& pc, E cond, const ModelP& base, ModelP* out, bool verdict) {
    if ( isC(cond) ) {
        if ( cond->c ) { if ( out ) *out = base; return SAT; }
        return UNSAT;
    }
    double t0 = now();
    g_sst.queries++;
    // slice: constraints transitively sharing variables with cond
    std::vector<E> cs;
    flatten(cond, cs);
    std::vector<uint32_t> vars;
    for ( E e : cs ) { std::vector<uint32_t> t; auto& o = varsOf(e); std::set_union(vars.begin(), vars.end(), o.begin(), o.end(), std::back_inserter(t)); vars.swap(t); }
    std::vector<char> used(pc.size(), 0);
    bool ch = true;
    auto overlaps = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
        auto i = a.begin(); auto j = b.begin();
        while ( i != a.end() && j != b.end() ) { if ( *i < *j ) ++i; else if ( *j < *i ) ++j; else return true; }
        return false;
    };
    while ( ch ) {
        ch = false;
        for ( size_t i = 0; i < pc.size(); i++ )
            if ( !used[i] ) {
                auto& o = varsOf(pc[i]);
                if ( overlaps(vars, o) ) {
                    used[i] = 1; ch = true; cs.push_back(pc[i]);
                    if ( !std::includes(vars.begin(), vars.end(), o.begin(), o.end()) ) {
                        std::vector<uint32_t> t; std::set_union(vars.begin(), vars.end(), o.begin(), o.end(), std::back_inserter(t)); vars.swap(t);
                    }
                }
            }
    }
    std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::vector<uint32_t> key;
    for ( E e : cs ) key.push_back(e->id);
    std::pair<Res, std::shared_ptr<Model>> res;
    auto it = cache.find(key);
    if ( it != cache.end() ) { res = it->second; g_sst.cacheHits++; }
    else {
        auto m = std::make_shared<Model>();
        try { res.first = solveRaw(cs, *m); } catch ( std::string& e ) { fprintf(stderr, "solver: %s\n", e.c_str()); res.first = UNKNOWN; }
        res.second = m;
        if ( res.first == UNSAT && !std::any_of(cs.begin(), cs.end(), [](E e) { return e->hasfp; }) ) crossCheck(cs, verdict);
        cache[key] = res;
    }
    if ( res.first == SAT && out ) {
        auto nm = std::make_shared<Model>(base ? *base : Model());
        for ( auto v : vars ) { nm->v[v] = res.second->get(v); }
        *out = nm;
    }
    if ( res.first == SAT ) g_sst.sat++; else if ( res.first == UNSAT ) g_sst.unsat++; else g_sst.unknown++;
    double dt = now() - t0;
    g_sst.time += dt;
    static bool slowq = getenv("SYM_SLOWQ");
    if ( slowq && dt > 0.2 ) fprintf(stderr, "slow query %.2fs result %d conjuncts %zu z3calls %lu cvc5 %lu verdict %d vars %zu\n", dt, (int)res.first, cs.size(), g_sst.z3calls, g_sst.cvc5calls, (int)verdict, vars.size());
    return res.first;
}

int Solver::liaCheck(const std::vector<E>& cs, Model& m, unsigned ms) {
    if ( !g_lia ) g_lia = new Lia(p->c);
    Res r = g_lia->check(cs, m, ms);
    return r == UNSAT ? 0 : r == SAT ? 1 : -1;
}
