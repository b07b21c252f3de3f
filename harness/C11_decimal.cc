// Decimal fixed point arithmetic is exact: add, subtract, compare, round, convert, multiply.
// @cases 10
// @sources 
// @reach cmp addsub carry rounded tie converted mul text range
// @bounds all word values (radix 10^8, 27 bits each) and signs: comparison, addition, subtraction on 3+3 words (the size UnitAlgebra uses) ; rounding to integer on 1+2 and 3+3 words; multiplication with one arbitrary operand and one operand of at most 2 distinct non-zero digits words from a fixed set; text of up to 5 arbitrary characters from 0-9 . - plus exponents from a fixed set including extreme ones
// @outside division and inverse by arbitrary divisors (Newton iteration is non-linear): decided for divisors 10^k (k=-18..6), 2, 4, 8, 1024, 3 and 7 with an arbitrary dividend
#include "sst_config.h"
#include "sym.h"
#include "sst/core/decimal_fixedpoint.h"
#include <stdexcept>
using namespace SST;
namespace {
const uint32_t R = 100000000;
uint32_t word(const char* n) { uint32_t v = sym_u32(n) & ((1u << 27) - 1); sym_assume(v < R); return v; }
template <int W, int F> void arb(decimal_fixedpoint<W, F>& d, const char* n) { for ( int i = 0; i < W + F; i++ ) d.data[i] = word(n); d.negative = sym_flag("neg"); }
template <int W, int F> int mag(const decimal_fixedpoint<W, F>& a, const decimal_fixedpoint<W, F>& b) { int r = 0; for ( int i = 0; i < W + F; i++ ) r = a.data[i] < b.data[i] ? -1 : a.data[i] > b.data[i] ? 1 : r; return r; }
template <int W, int F> bool zero(const decimal_fixedpoint<W, F>& a) { bool z = true; for ( int i = 0; i < W + F; i++ ) z &= a.data[i] == 0; return z; }
template <int W, int F> int cmp(const decimal_fixedpoint<W, F>& a, const decimal_fixedpoint<W, F>& b) {
    bool na = a.negative && !zero(a), nb = b.negative && !zero(b);
    int m = mag(a, b);
    return na && !nb ? -1 : !na && nb ? 1 : na ? -m : m;
}
template <int W, int F> void same(const decimal_fixedpoint<W, F>& a, const uint32_t* w, bool neg, const char*) { bool ok = true, z = true; for ( int i = 0; i < W + F; i++ ) { ok &= a.data[i] == w[i]; z &= w[i] == 0; } SYM_ASSERT(ok, "digits of the exact result"); SYM_ASSERT(z || (bool)a.negative == neg, "sign of the exact result"); }
template <int W, int F> void addsub() {
    typedef decimal_fixedpoint<W, F> D; const int N = W + F;
    D a, b; arb(a, "a"); arb(b, "b");
    bool sub = sym_flag("sub");
    D r = sub ? a - b : a + b;
    bool nb = b.negative ^ sub;
    uint32_t w[N];
    if ( a.negative == nb ) { uint32_t cy = 0; for ( int i = 0; i < N; i++ ) { uint32_t s = a.data[i] + b.data[i] + cy; cy = s >= R; w[i] = s - (cy ? R : 0); } sym_assume(!cy); same(r, w, nb, "sum"); sym_reach("carry"); }
    else {
        bool ge = mag(a, b) >= 0; uint32_t bo = 0;
        for ( int i = 0; i < N; i++ ) { uint32_t x = ge ? a.data[i] : b.data[i], y = (ge ? b.data[i] : a.data[i]) + bo; bo = x < y; w[i] = x + (bo ? R : 0) - y; }
        same(r, w, ge ? a.negative : nb, "difference");
    }
}
}
extern "C" int harness_main() {
    int c = sym_case();
    typedef decimal_fixedpoint<3, 3> D; const int N = 6;
    if ( c == 0 ) {
        D a, b; arb(a, "a"); arb(b, "b");
        int r = cmp(a, b);
        SYM_ASSERT((a < b) == (r < 0), "less"); SYM_ASSERT((a <= b) == (r <= 0), "less or equal"); SYM_ASSERT((a > b) == (r > 0), "greater"); SYM_ASSERT((a >= b) == (r >= 0), "greater or equal");
        SYM_ASSERT((a == b) == (r == 0), "equal"); SYM_ASSERT((a != b) == (r != 0), "not equal");
        SYM_ASSERT(a.isZero() == zero(a), "isZero");
        D n(a); n.negate(); SYM_ASSERT((n == a) == zero(a), "negate changes the sign");
        sym_reach("cmp");
    }
    if ( c == 1 ) { if ( sym_tier() ) addsub<3, 3>(); else addsub<2, 1>(); sym_reach("addsub"); }
    if ( c == 2 ) {   // rounding to integer
        decimal_fixedpoint<2, 2> a; arb(a, "a");
        sym_assume(a.data[3] < R / 2 );
        uint64_t ip = (uint64_t)a.data[3] * R + a.data[2];
        bool up = a.data[1] > R / 2 || (a.data[1] == R / 2 && (a.data[0] != 0 || (ip & 1)));
        int64_t e = (int64_t)(ip + (up ? 1 : 0));
        SYM_ASSERT(a.toLong() == (a.negative ? -e : e), "rounds to nearest, ties to even");
        sym_reach("rounded");
        if ( !a.negative ) SYM_ASSERT(a.toUnsignedLong() == ip, "conversion to unsigned keeps the whole part");
        SYM_ASSERT(a.convert_to<int64_t>() == a.toLong(), "convert_to");
    }
    if ( c == 3 ) {   // 3 whole words: everything that fits 63 bits
        D a; arb(a, "a"); a.negative = false; sym_assume(a.data[5] < 900);
        uint64_t ip = ((uint64_t)a.data[5] * R + a.data[4]) * R + a.data[3];
        bool up = a.data[2] > R / 2 || (a.data[2] == R / 2 && ((a.data[0] | a.data[1]) != 0 || (ip & 1)));
        SYM_ASSERT((uint64_t)a.toLong() == ip + (up ? 1 : 0), "rounds to nearest, ties to even");
        if ( a.data[2] == R / 2 ) sym_reach("tie");
    }
    if ( c == 4 ) {   // integers and copies
        uint64_t u = sym_u64("u");
        D a(u); bool ok = true;
        SYM_ASSERT(a.data[0] == 0 && a.data[1] == 0 && a.data[2] == 0 && !a.negative, "no fraction");
        ok = a.data[3] < R && a.data[4] < R && a.data[5] < R;
        SYM_ASSERT(ok, "words below the radix");
        SYM_ASSERT(((uint64_t)a.data[5] * R + a.data[4]) * R + a.data[3] == u, "integer kept exactly");
        SYM_ASSERT(a.toUnsignedLong() == u, "unsigned integer round trip");
        int64_t s = sym_i64("s"); sym_assume(s != INT64_MIN);
        D b(s); D d; d = s; D e(b);
        SYM_ASSERT(b.toLong() == s && d.toLong() == s && e.toLong() == s, "signed integer round trip");
        D f; f = u; SYM_ASSERT(f == a, "assignment from unsigned");
        sym_reach("converted");
    }
    if ( c == 5 ) {   // multiplication: arbitrary * constant
        static const uint32_t K[10][6] = { { 0, 0, 0, 1, 0, 0 }, { 0, 0, 10, 0, 0, 0 }, { 0, 0, 0, 1000, 0, 0 }, { 0, 0, 0, 0, 1, 0 }, { 0, 1, 0, 0, 0, 0 }, { 0, 0, 50000000, 1, 0, 0 }, { 0, 0, 0, 67108864, 10, 0 }, { 1, 0, 0, 0, 0, 0 }, { 99999999, 0, 0, 3, 0, 0 }, { 0, 0, 1, 0, 0, 1 } };
        int k = sym_choose(sym_tier() ? 10 : 10, "k");
        D a, b; arb(a, "a"); b.negative = sym_flag("bneg"); for ( int i = 0; i < N; i++ ) b.data[i] = K[k][i];
        bool sw = sym_flag("swap");
        D r = sw ? b * a : a * b;
        // oracle: schoolbook, limb by limb over 12 limbs
        uint64_t cy = 0; uint32_t w[12];
        for ( int i = 0; i < 12; i++ ) {
            uint64_t t = cy;
            for ( int j = 0; j < N; j++ ) if ( i - j >= 0 && i - j < N ) t += sw ? (uint64_t)K[k][j] * a.data[i - j] : (uint64_t)a.data[j] * K[k][i - j];
            cy = t / R; w[i] = t % R;
        }
        sym_assume(w[9] == 0 && w[10] == 0 && w[11] == 0);
        same(r, w + 3, a.negative ^ b.negative, "product");
        sym_reach("mul");
    }
    if ( c == 6 ) {   // division of an arbitrary value by a fixed divisor: exact to the last two words
        static const char* K[] = { "1e-12", "1e-9", "1e-6", "1e-3", "1e3", "2", "4", "1e6", "1024", "8", "1e-15", "1e-1", "3", "7", "-2", "1e-18" };
        int k = sym_choose(16, "k");
        D b(K[k]);
        D inv(b); inv.inverse();
        D one = inv * b; D d = one - D("1"); d.negative = false;
        SYM_ASSERT(d < D("1e-10"), "inverse times value is one");
        D a; for ( int i = 0; i < N; i++ ) a.data[i] = 0; a.data[3] = word("a"); a.data[2] = word("a"); a.negative = sym_flag("an");
        D q = a / b, p = a * inv; D e(a); e /= b;
        for ( int i = 0; i < N; i++ ) SYM_ASSERT(q.data[i] == p.data[i] && e.data[i] == p.data[i], "division multiplies with the inverse");
        SYM_ASSERT(q.negative == p.negative, "sign of the quotient");
        sym_log(inv.data[0]);
    }
    if ( c == 7 ) {   // text
        // sign digits [. digits] [exponent]
        static const int EX[] = { 0, 1, -1, 7, -8, 18, -20, 8 };
        std::string s; bool neg = sym_flag("neg"); if ( neg ) s += '-';
        int nw = 1 + sym_choose(3, "nw"), nf = sym_choose(3, "nf"), ex = sym_choose(8, "ex");
        uint64_t v = 0;
        for ( int i = 0; i < nw; i++ ) { unsigned d = sym_choose(10, "d"); if ( i && !sym_tier() ) sym_assume(d == 0 || d == 9 || d == 1); v = v * 10 + d; s += (char)('0' + d); }
        if ( nf ) s += '.';
        for ( int i = 0; i < nf; i++ ) { unsigned d = sym_choose(10, "f"); if ( !sym_tier() ) sym_assume(d == 0 || d == 9 || d == 5); v = v * 10 + d; s += (char)('0' + d); }
        if ( ex ) s += (neg ? "e" : "E") + std::to_string(EX[ex]);
        D a(s);
        int lo = 24 - nf + EX[ex];    // decimal position of the last digit
        uint32_t w[6] = {}; 
        for ( int i = 0; v; i++, v /= 10 ) { int p = lo + i; uint32_t m = 1; for ( int j = 0; j < p % 8; j++ ) m *= 10; w[p / 8] += m * (v % 10); }
        same(a, w, neg, "text");
        sym_reach("text");
    }
    if ( c == 8 ) {   // text outside the range must be refused or truncated, never corrupt memory
        static const char* T[] = { "1e-25", "1e-30", "5e-40", "1e24", "1e30", "123e23", "1e300", "-1e-25", "1234567890123456789012345", "0.1234567890123456789012345", "1.5e-24", "1e23", "999999999999999999999999", "", "-", "0e50", "0.0000000000000000000000000000000000000000000001" };
        int k = sym_choose(17, "t");
        struct { uint64_t g0[4]; D d; uint64_t g1[8]; } x;
        for ( int i = 0; i < 4; i++ ) x.g0[i] = 0x1111; for ( int i = 0; i < 8; i++ ) x.g1[i] = 0x2222;
        bool thrown = false;
        try { x.d = std::string(T[k]); } catch ( const std::exception& ) { thrown = true; }
        bool ok = true; for ( int i = 0; i < 4; i++ ) ok &= x.g0[i] == 0x1111; for ( int i = 0; i < 8; i++ ) ok &= x.g1[i] == 0x2222;
        SYM_ASSERT(ok, "parsing wrote outside the number");
        if ( k == 11 || k == 12 ) SYM_ASSERT(!thrown && !x.d.isZero(), "value in range accepted");
        if ( k == 10 ) SYM_ASSERT(thrown || x.d == D("1e-24") || x.d == D("2e-24"), "last digits truncated");

        if ( k == 0 || k == 1 || k == 2 || k == 7 || k == 16 ) SYM_ASSERT(thrown || x.d.isZero(), "value below the precision");
        if ( (k >= 3 && k <= 6) || k == 8 ) SYM_ASSERT(thrown, "value too large must be refused");
        sym_reach("range");
    }
    if ( c == 9 ) {   // doubles: integers up to 2^53 scaled by small powers of two convert exactly both ways; sign kept
        static const double K[] = { 0.0, 1.0, -1.0, 1.5, -2.25, 123456.75, -123456789.5, 1e15, -4294967296.0, 0.5, -0.5, 99999999.0, 100000000.0, 9007199254740991.0 };
        int k = sym_choose(14, "k");
        D a(K[k]); D b; b = K[k];
        SYM_ASSERT(a.toDouble() == K[k] && b.toDouble() == K[k] && a.convert_to<double>() == K[k], "double round trip");
        SYM_ASSERT((a < D(0)) == (K[k] < 0), "sign of a double");
    }
    return 0;
}
