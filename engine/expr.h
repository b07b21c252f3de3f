// Hash-consed bit-vector / floating-point expression DAG with simplification.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
    OConst, OVar,
    OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem,
    OAnd, OOr, OXor, OShl, OLShr, OAShr,
    OConcat, OExtract, OZExt, OSExt,
    OEq, OUlt, OUle, OSlt, OSle, OIte,
    // floating point (operands/results are the IEEE bit patterns; w = 32/64)
    OFAdd, OFSub, OFMul, OFDiv, OFRem, OFSqrt, OFma,
    OFEq, OFLt, OFLe, OFUno,           // width 1
    OFToSI, OFToUI, OSIToF, OUIToF,    // conversions (RTZ / RNE)
    OFConv,                            // fpext / fptrunc
    OFRint,                            // aux: 0 RNE, 1 floor, 2 ceil, 3 trunc, 4 round-away
    OLast
};

struct Expr {
    uint8_t     op;
    uint8_t     hasfp;
    uint16_t    w;
    uint32_t    id;
    uint32_t    aux;   // extract: low bit; var: var index; frint: mode
    uint32_t    nvars; // number of distinct vars (cached set in varsets[id])
    u128        c;
    const Expr* k[3];
};
typedef const Expr* E;

struct VarInfo { std::string name; uint16_t w; };

struct Model {
    std::unordered_map<uint32_t, u128> v;
    u128 get(uint32_t var) const { auto it = v.find(var); return it == v.end() ? (u128)0 : it->second; }
};
typedef std::shared_ptr<const Model> ModelP;

extern std::vector<VarInfo> g_vars;
extern std::vector<E>       g_exprs;
extern std::vector<E>       g_varE;    // the expression of each variable

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) {
    if ( w >= 128 ) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w);
E mkBin(Op op, E a, E b);      // Add..AShr
E mkCmp(Op op, E a, E b);      // Eq..Sle
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E e, unsigned lo, unsigned w);
E mkZExt(E e, unsigned w);
E mkSExt(E e, unsigned w);
E mkNot(E e);                  // width 1 or bitwise
E mkFBin(Op op, E a, E b);     // FAdd..FRem
E mkFCmp(Op op, E a, E b);     // FEq FLt FLe FUno
E mkFUn(Op op, E a, unsigned w, unsigned aux); // FSqrt, FToSI.., FConv, FRint
E mkFma(E a, E b, E c);
static inline E mkAndB(E a, E b) { return mkBin(OAnd, a, b); }
static inline E mkOrB(E a, E b) { return mkBin(OOr, a, b); }

static inline bool isC(E e) { return e->op == OConst; }
u128 evalExpr(E e, const Model& m);
const std::vector<uint32_t>& varsOf(E e);
std::string exprStr(E e, int depth = 6);

// concrete semantics shared by interpreter, folder and evaluator
u128 foldBin(Op op, u128 a, u128 b, unsigned w);
bool foldCmp(Op op, u128 a, u128 b, unsigned w);
u128 foldF(Op op, u128 a, u128 b, u128 c, unsigned wa, unsigned w, unsigned aux);
