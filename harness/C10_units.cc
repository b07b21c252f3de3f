// Unit algebra: parsing, unit arithmetic, comparison and printing agree with exact dimensional arithmetic.
// @cases 7
// @sources unitAlgebra.cc
// @stubs output_stub
// @reach parsed compound mult cmp mismatch printed bad
// @bounds every SI and binary prefix with every registered unit; up to 3 numerator and 2 denominator units drawn from all registered units; values: arbitrary 20-bit multiples of a unit for arithmetic, decimal texts of up to 4 digits for parsing and printing
// @outside printing values whose units are all in the denominator (the text 7 1/B is not accepted by the parser; Hz is), numbers beyond 24 whole or 24 fractional digits (C11), division by arbitrary values (C11)
#include "sst_config.h"
#include "sym.h"
#include "sst/core/unitAlgebra.h"
#include <map>
#include <stdexcept>
using namespace SST;
namespace {
void setup() {
    Units::registerBaseUnit("s"); Units::registerBaseUnit("B"); Units::registerBaseUnit("b"); Units::registerBaseUnit("events");
    Units::registerCompoundUnit("Hz", "1/s"); Units::registerCompoundUnit("hz", "1/s"); Units::registerCompoundUnit("Bps", "B/s"); Units::registerCompoundUnit("bps", "b/s"); Units::registerCompoundUnit("event", "events");
}
struct Dim { int s, B, b, e; bool operator==(const Dim& o) const { return s == o.s && B == o.B && b == o.b && e == o.e; } };
struct UN { const char* n; Dim d; };
const UN U[9] = { { "s", { 1, 0, 0, 0 } }, { "B", { 0, 1, 0, 0 } }, { "b", { 0, 0, 1, 0 } }, { "events", { 0, 0, 0, 1 } }, { "Hz", { -1, 0, 0, 0 } }, { "hz", { -1, 0, 0, 0 } }, { "Bps", { -1, 1, 0, 0 } }, { "bps", { -1, 0, 1, 0 } }, { "event", { 0, 0, 0, 1 } } };
struct PF { const char* n; const char* v; };
const PF P[21] = { { "", "1" }, { "a", "0.000000000000000001" }, { "f", "0.000000000000001" }, { "p", "0.000000000001" }, { "n", "0.000000001" }, { "u", "0.000001" }, { "m", "0.001" }, { "k", "1000" }, { "K", "1000" }, { "ki", "1024" }, { "Ki", "1024" }, { "M", "1000000" }, { "Mi", "1048576" }, { "G", "1000000000" }, { "Gi", "1073741824" }, { "T", "1000000000000" }, { "Ti", "1099511627776" }, { "P", "1000000000000000" }, { "Pi", "1125899906842624" }, { "E", "1000000000000000000" }, { "Ei", "1152921504606846976" } };
Dim dimOf(const UnitAlgebra& u) {
    Dim d { 0, 0, 0, 0 }; int* f[5] = { nullptr, &d.s, &d.B, &d.b, &d.e };
    for ( auto x : u.unit.numerator ) ++*f[x]; for ( auto x : u.unit.denominator ) --*f[x];
    return d;
}
void add(Dim& a, const Dim& b, int k) { a.s += k * b.s; a.B += k * b.B; a.b += k * b.b; a.e += k * b.e; }
UnitAlgebra pick(Dim& d, int maxn, int maxd, const char* num) {
    std::string s = num; d = Dim { 0, 0, 0, 0 };
    int n = 1 + sym_choose(maxn, "nn"), m = sym_choose(maxd + 1, "nd");
    for ( int i = 0; i < n; i++ ) { int u = sym_choose(9, "u"); s += (i ? "-" : ""); s += U[u].n; add(d, U[u].d, 1); }
    for ( int i = 0; i < m; i++ ) { int u = sym_choose(9, "u"); s += (i ? "-" : "/"); s += U[u].n; add(d, U[u].d, -1); }
    return UnitAlgebra(s);
}
void canon(const UnitAlgebra& u) { for ( auto x : u.unit.numerator ) for ( auto y : u.unit.denominator ) SYM_ASSERT(x != y, "a unit must not stay in numerator and denominator"); for ( size_t i = 1; i < u.unit.numerator.size(); i++ ) SYM_ASSERT(u.unit.numerator[i - 1] <= u.unit.numerator[i], "units kept in canonical order"); }
}
extern "C" int harness_main() {
    int c = sym_case();
    setup();
    if ( c == 0 ) {   // prefix and single unit, either side of the slash
        int p = sym_choose(21, "prefix"), u = sym_choose(9, "unit"), q = sym_choose(2, "den") ? 1 + sym_choose(20, "prefix2") : 0;
        static const int EX[21] = { 0, -18, -15, -12, -9, -6, -3, 3, 3, 3, 3, 6, 6, 9, 9, 12, 12, 15, 15, 18, 19 };
        if ( q ) sym_assume(EX[p] - EX[q] <= 21);   // stays within 24 whole digits
        if ( q && !sym_tier() ) sym_assume(u < 5 && (p % 3) == 0);
        const char* nums[] = { "1", "3", "-2.5", " 40 " }; int k = sym_choose(4, "num");
        const char* vals[] = { "1", "3", "-2.5", "40" };
        bool sp = sym_flag("space");
        std::string s = std::string(nums[k]) + (sp ? " " : "") + P[p].n + U[u].n;
        Dim d = U[u].d; sst_big_num v(P[p].v); v *= sst_big_num(vals[k]);
        if ( q ) { s += std::string("/") + P[q].n + "B"; add(d, U[1].d, -1); }
        UnitAlgebra a(s);
        SYM_ASSERT(dimOf(a) == d, "units of a parsed value");
        if ( q ) { sst_big_num e = a.value * sst_big_num(P[q].v) - v; e.negative = false; sst_big_num t = v * sst_big_num("1e-5"); t.negative = false; t += sst_big_num(P[q].v) * sst_big_num("1e-20"); SYM_ASSERT(e <= t, "prefix in the denominator divides the value"); }
        else SYM_ASSERT(a.value == v, "prefix scales the value");
        canon(a); sym_reach("parsed");
    }
    if ( c == 1 ) { Dim d; UnitAlgebra a = pick(d, sym_tier() ? 3 : 2, sym_tier() ? 2 : 2, "7 "); SYM_ASSERT(dimOf(a) == d, "compound units parse to their dimensions"); SYM_ASSERT(a.value == sst_big_num(7), "compound units leave the value alone"); canon(a);
        UnitAlgebra b(a); b.invert(); Dim n { 0, 0, 0, 0 }; add(n, d, -1); SYM_ASSERT(dimOf(b) == n, "invert swaps the units");
        if ( !a.unit.numerator.empty() || a.unit.denominator.empty() ) { std::string t = a.toString(); UnitAlgebra r(t); SYM_ASSERT(r == a, "printed value parses back"); } sym_reach("compound"); }
    if ( c == 2 ) {   // * and /
        Dim d, e; UnitAlgebra a = pick(d, sym_tier() ? 2 : 1, 1, "6 "), b = pick(e, 1, 1, "2 ");
        bool div = sym_flag("div");
        UnitAlgebra r = div ? a / b : a * b; add(d, e, div ? -1 : 1);
        SYM_ASSERT(dimOf(r) == d, "units of a product or quotient"); canon(r);
        SYM_ASSERT(r.value == sst_big_num(div ? 3 : 12), "value of a product or quotient");
        if ( !div ) SYM_ASSERT(b * a == r, "product commutes");
        sym_reach("mult");
    }
    if ( c == 3 ) {   // + - and comparisons with arbitrary values
        const char* uu[] = { "1ns", "1us", "1B", "1 B/s", "1 Bps", "1MHz", "1kB", "1 B-s", "2Hz" }; const Dim dd[] = { U[0].d, U[0].d, U[1].d, U[6].d, U[6].d, U[4].d, U[1].d, { 1, 1, 0, 0 }, U[4].d };
        int i = sym_choose(9, "i"), j = sym_choose(9, "j");
        UnitAlgebra a(uu[i]), b(uu[j]);
        uint32_t x = sym_bits(20, "x"), y = sym_bits(20, "y"); bool nx = sym_flag("nx"), ny = sym_flag("ny");
        sst_big_num va = a.value, vb = b.value; va *= sst_big_num(x); vb *= sst_big_num(y); if ( nx ) va.negate(); if ( ny ) vb.negate();
        a *= (nx ? sst_big_num(-1) : sst_big_num(1)); a *= sst_big_num(x); b *= (ny ? sst_big_num(-1) : sst_big_num(1)); b *= sst_big_num(y);
        SYM_ASSERT(a.value == va && b.value == vb, "scaling by a number");
        bool same = dd[i] == dd[j];
        int thr = 0; bool lt = false, le = false, gt = false, ge = false;
        try { lt = a < b; } catch ( const UnitAlgebra::NonMatchingUnits& ) { thr++; }
        try { le = a <= b; } catch ( const UnitAlgebra::NonMatchingUnits& ) { thr++; }
        try { gt = a > b; } catch ( const UnitAlgebra::NonMatchingUnits& ) { thr++; }
        try { ge = a >= b; } catch ( const UnitAlgebra::NonMatchingUnits& ) { thr++; }
        UnitAlgebra s = a, d = a;
        try { s += b; } catch ( const UnitAlgebra::NonMatchingUnits& ) { thr++; }
        try { d -= b; } catch ( const UnitAlgebra::NonMatchingUnits& ) { thr++; }
        SYM_ASSERT(thr == (same ? 0 : 6), "adding or ordering values is refused exactly when their units differ");
        SYM_ASSERT((a != b) == !(a == b), "unequal is the negation of equal");
        if ( same ) {
            SYM_ASSERT(lt == (va < vb) && gt == (va > vb) && le == (va <= vb) && ge == (va >= vb) && (a == b) == (va == vb), "ordering follows the values");
            SYM_ASSERT(s.value == va + vb && d.value == va - vb && dimOf(s) == dd[i] && dimOf(d) == dd[i], "sum and difference");
            sym_reach("cmp");
        } else { SYM_ASSERT(!(a == b), "values of different units are never equal"); SYM_ASSERT(s.value == va && d.value == va, "refused operation leaves the value"); sym_reach("mismatch"); }
    }
    if ( c == 4 ) {   // printing round trip, best SI
        static const char* un[] = { "s", "B/s", "Hz", "b", "events", "B-b/s" };
        int u = sym_choose(6, "u"); std::string s; if ( sym_flag("neg") ) s += "-";
        int nd = sym_tier() ? 4 : 2; bool nz = false;
        int pt = sym_choose(nd + 1, "pt");
        for ( int i = 0; i < nd; i++ ) { unsigned g = sym_choose(10, "g"); if ( !sym_tier() ) sym_assume(g == 0 || g == 1 || g == 5 || g == 9); if ( i == pt && i ) s += "."; s += (char)('0' + g); nz |= g; }
        static const char* ex[] = { "", "e3", "e-3", "e9", "e-12", "e15", "e-20" }; s += ex[sym_choose(7, "ex")];
        UnitAlgebra a(s + " " + un[u]);
        UnitAlgebra b(a.toString()); SYM_ASSERT(a == b, "printed value parses back");
        UnitAlgebra f(a.toString(48)); SYM_ASSERT(a == f, "printed value parses back");
        std::string best = a.toStringBestSI(); UnitAlgebra g(best); SYM_ASSERT(a == g, "best-SI text is the same value");
        SYM_ASSERT(a.isValueZero() == !nz, "zero"); SYM_ASSERT(a.hasUnits(un[u]), "hasUnits");
        SYM_ASSERT(a.hasUnits("s") == (u == 0) && a.hasUnits("1/s") == (u == 2) && a.hasUnits("Bps") == (u == 1), "hasUnits compares dimensions");
        sym_reach("printed");
    }
    if ( c == 5 ) {   // malformed
        static const char* bad[] = { "5 q", "5 kq", "5 B/x", "5 zs", "5 s-", "5 /s-Q", "1.5.x" };
        int k = sym_choose(7, "bad"); bool thrown = false;
        try { UnitAlgebra a(bad[k]); } catch ( const std::exception& ) { thrown = true; }
        SYM_ASSERT(thrown, "unknown units are refused"); sym_reach("bad");
    }
    if ( c == 6 ) {   // white space
        int n = sym_choose(30, "n"), m = sym_choose(3, "m"); static const char* body[] = { "", "5s", "12 GHz" };
        int t = sym_choose(3, "tail");
        std::string s = std::string(n, ' ') + body[m] + std::string(t, m ? '\t' : ' ');
        UnitAlgebra a(s); if ( m ) SYM_ASSERT(a == UnitAlgebra(body[m]), "surrounding white space is ignored"); else SYM_ASSERT(a.isValueZero(), "blank text");
    }
    return 0;
}
