// Time bases: a time given with units converts to the exact number of core cycles (nearest, ties to even), or is refused.
// @cases 6
// @sources timeLord.cc unitAlgebra.cc
// @stubs output_stub
// @reach factor freq refused cached conv
// @bounds timebases 1fs, 1ps, 10ps, 1ns, 2ns; times N x {1,10,100} {fs..s} and {kHz, MHz, GHz} with arbitrary accepted N below 2^16 (thorough 2^24) for the 1ps and 10ps timebases and 18 chosen N (rounding boundaries) for the others or N from a fixed set (frequencies: 1/N is not linear); core times arbitrary 64-bit
#include "simfix.h"
#include "sst/core/timeLord.h"
#include "sst/core/timeConverter.h"
#include <stdexcept>
using namespace SST;
namespace {
void setup() {
    Units::registerBaseUnit("s"); Units::registerBaseUnit("B"); Units::registerBaseUnit("b"); Units::registerBaseUnit("events");
    Units::registerCompoundUnit("Hz", "1/s"); Units::registerCompoundUnit("hz", "1/s");
}
struct TB { const char* n; uint64_t fs; };
const TB tb[] = { { "1ps", 1000 }, { "1fs", 1 }, { "10ps", 10000 }, { "1ns", 1000000 }, { "2ns", 2000000 } };
struct UN { const char* n; uint64_t fs; };
const UN un[] = { { "ns", 1000000 }, { "ps", 1000 }, { "us", 1000000000ull }, { "fs", 1 }, { "ms", 1000000000000ull } , { "s", 1000000000000000ull } };
}
extern "C" int harness_main() {
    int c = sym_case();
    setup();
    TimeLord* tl = new TimeLord();
    int b = sym_choose(5, "tb");
    tl->init(tb[b].n);
    uint64_t base = tb[b].fs;
    if ( c == 0 ) {   // N * unit
        int u = sym_choose(6, "unit");
        static const uint64_t NS[] = { 0, 1, 2, 3, 499, 500, 501, 999, 1000, 1001, 1499, 1500, 2500, 65535, 999999, 1000000, 2999999, 123456789 };
        bool lin = b == 0 || b == 2;    // for these time bases the reciprocal is a single digit group and the conversion stays linear
        uint64_t n = lin ? sym_bits(sym_tier() ? 24 : 16, "n") : NS[sym_choose(18, "n")];
        if ( un[u].fs >= base ) sym_assume(n <= ~0ull / (un[u].fs / base));
        uint64_t kk = base / un[u].fs;
        if ( kk > 1 && lin ) {   // the refusal message prints the value: only chosen values on that side
            if ( sym_flag("short") ) { n = sym_choose(3, "which"); n = n == 0 ? 1 : n == 1 ? kk - 1 : kk / 2; }
            else sym_assume(n == 0 || n >= kk);
        }
        UnitAlgebra t(std::string("1") + un[u].n); t *= n;
        bool refused = false; SimTime_t f = 0;
        try { f = tl->getTimeConverter(t).getFactor(); } catch ( const std::underflow_error& ) { refused = true; }
        uint64_t scale = un[u].fs;
        if ( scale >= base ) { SYM_ASSERT(!refused && f == n * (scale / base), "exact number of cycles"); sym_reach("factor"); }
        else {
            uint64_t k = base / scale;         // cycles = n / k
            SYM_ASSERT(refused == (n != 0 && n < k), "periods shorter than the timebase are refused");
            if ( !refused ) SYM_ASSERT(2 * n <= 2 * f * k + k && 2 * n + k >= 2 * f * k, "nearest number of cycles"); else sym_reach("refused");
        }
    }
    if ( c == 1 ) {   // frequencies
        static const uint64_t N[] = { 1, 2, 3, 5, 8, 10, 16, 100, 250, 333 }; static const UN fr[] = { { "Hz", 1000000000000000ull }, { "kHz", 1000000000000ull }, { "MHz", 1000000000ull }, { "GHz", 1000000ull } };
        uint64_t n = N[sym_choose(10, "n")]; int u = sym_choose(4, "unit");
        std::string s = std::to_string(n) + (sym_flag("sp") ? " " : "") + fr[u].n;
        bool refused = false; SimTime_t f = 0;
        try { f = tl->getTimeConverter(s).getFactor(); } catch ( const std::underflow_error& ) { refused = true; }
        uint64_t den = n * base;   // cycles = fr.fs / den
        SYM_ASSERT(refused == (fr[u].fs < den), "frequencies above the timebase are refused");
        if ( !refused ) { SYM_ASSERT(2 * fr[u].fs <= 2 * f * den + den && 2 * fr[u].fs + den >= 2 * f * den, "nearest number of cycles"); sym_reach("freq"); SimTime_t g = tl->getSimCycles(s, ""); SYM_ASSERT(g == f && tl->getFactorForTime(s) == f, "repeated lookups agree"); sym_reach("cached"); }
    }
    if ( c == 2 ) {   // converter arithmetic
        SimTime_t fac = sym_choose(4, "fac"); static const SimTime_t F[] = { 1, 1000, 7, 1000000 }; fac = F[fac];
        TimeConverter tc(fac); SYM_ASSERT((bool)tc && tc.isInitialized() && tc.getFactor() == fac, "initialised"); 
        uint64_t t = sym_bits(40, "t"), core = sym_u64("core");
        SYM_ASSERT(tc.convertToCoreTime(t) == t * fac, "to core time");
        SYM_ASSERT(tc.convertFromCoreTime(tc.convertToCoreTime(t)) == t, "core time and back");
        uint64_t q = tc.convertFromCoreTime(core); SYM_ASSERT(q * fac <= core && core - q * fac < fac, "from core time truncates");
        TimeConverter z; SYM_ASSERT(!z && !z.isInitialized(), "uninitialised"); tc.reset(); SYM_ASSERT(!tc, "reset");
        sym_reach("conv");
    }
    if ( c == 3 ) {   // nano, micro, milli; wrong units; negative; too large
        uint64_t ns = 1000000, v[3] = { 1000000, 1000000000ull, 1000000000000ull }; TimeConverter t[3] = { tl->getNano(), tl->getMicro(), tl->getMilli() };
        for ( int i = 0; i < 3; i++ ) SYM_ASSERT(t[i].getFactor() == (v[i] < base ? 0 : v[i] / base), "standard time bases");
        static const char* bad[] = { "1B", "5 B/s", "-1ns", "-5us", "1e9 s", "1e8 s", "3 events", "1e24s" };
        int k = sym_choose(8, "bad"); int thr = 0;
        try { tl->getTimeConverter(bad[k]); } catch ( const std::invalid_argument& ) { thr = 1; } catch ( const std::underflow_error& ) { thr = 2; } catch ( const std::overflow_error& ) { thr = 3; } catch ( const std::exception& ) { thr = 4; }
        if ( k == 0 || k == 1 || k == 6 ) SYM_ASSERT(thr == 1, "a value that is not a time is refused");
        if ( k == 2 || k == 3 ) SYM_ASSERT(thr != 0, "a negative time is refused");
        if ( k == 4 || k == 5 ) { bool fits = base > (k == 4 ? 10000 : 1000); if ( k == 4 && base == 1 ) SYM_ASSERT(thr == 3, "a time of more than 24 digits of cycles is refused"); else SYM_ASSERT(fits ? thr == 0 : thr == 3, "a time too long for the timebase is refused"); }
        if ( k == 7 ) SYM_ASSERT(thr != 0, "overflow refused");
    }
    if ( c == 4 ) {   // period of a converter reads back as the same converter
        static const SimTime_t F[] = { 1, 2, 1000, 12345, 1000000, 999999999 };
        SimTime_t f = F[sym_choose(6, "f")];
        UnitAlgebra p = tl->getTimeBase(); p *= f;
        SYM_ASSERT(tl->getTimeConverter(p).getFactor() == f, "period converts back to its factor");
        std::string s = p.toStringBestSI(12); SYM_ASSERT(tl->getTimeConverter(s).getFactor() == f, "printed period converts back");
    }
    if ( c == 5 ) {   // cache keyed by the text: different texts, same value
        static const char* a[] = { "1ns", "1000ps", "1 ns", "1GHz", "0.001us", " 1ns ", "1000 ps", "1e-9s", "1e-6 ms" };
        int i = sym_choose(9, "i"), j = sym_choose(9, "j"); if ( base > 1000000 ) return 0;
        SimTime_t x = tl->getTimeConverter(a[i]).getFactor(), y = tl->getSimCycles(a[j], "h"), z = tl->getFactorForTime(a[i]);
        SYM_ASSERT(x == 1000000 / base && x == y && z == x, "same time, same factor");
    }
    return 0;
}
