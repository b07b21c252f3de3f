// Text is split, trimmed and converted to and from values without loss.
// @cases 14
// @sources stringize.cc
// @flags -fno-inline
// @reach integers roundtrip bool enum complex trim tokenize tokenizer escaped format compare
// @bounds decimal, hexadecimal and octal numbers of every integer type around each limit and zero; boolean texts of up to 5 arbitrary characters; strings of up to 5 arbitrary bytes (thorough 6) for trimming and splitting, delimiters of 1 and 2 characters; formatted strings around the internal buffer size
// @assume numbers are in the range of the type
// @outside floating point printing to fewer digits than needed; empty delimiters
#include "sym.h"
#include "sst_config.h"
#include "sst/core/from_string.h"
#include "sst/core/stringize.h"
#include <complex>
#include <limits>
#include <string>
#include <vector>
using namespace SST;
namespace {
// the text of a value written digit by digit by the harness (w: base 10, 16, 8)
std::string write(unsigned long long mag, bool neg, int base, bool upper)
{
    std::string d; do { d.insert(d.begin(), (upper ? "0123456789ABCDEF" : "0123456789abcdef")[mag % base]); mag /= base; } while ( mag );
    if ( base == 16 ) d = (upper ? "0X" : "0x") + d; else if ( base == 8 ) d = "0" + d;
    return (neg ? "-" : "") + d;
}
template <class T>
void integers()
{
    // around each limit
    __int128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(), v;
    int      d  = sym_choose(3, "distance");
    switch ( sym_choose(5, "where") ) {
    case 0: v = lo + d; break;
    case 1: v = hi - d; break;
    case 2: v = d; break;
    case 3: v = lo / 2 + 85 * d; break;
    default: v = hi / 3 + d; break;
    }
    bool neg = v < 0; unsigned long long mag = (unsigned long long)(neg ? -v : v);
    static const int BASE[] = { 10, 16, 8 };
    std::string t = write(mag, neg, BASE[sym_choose(3, "base")], sym_choose(2, "upper"));
    if ( sym_choose(2, "space") ) t = " " + t; 
    SYM_ASSERT(Core::from_string<T>(t) == (T)v, "a number reads as its value");
    SYM_ASSERT(Core::to_string((T)v) == write(mag, neg, 10, false), "a number is written in decimal");
    SYM_ASSERT(Core::from_string<T>(Core::to_string((T)v)) == (T)v, "a number survives being written and read");
    sym_reach("integers");
}
template <class T>
void digits() // any digits
{
    int n = 1 + sym_choose(2, "n"); std::string s; T v = 0;
    for ( int i = 0; i < n; i++ ) { unsigned x = sym_u8("digit"); sym_assume(x < 10); if ( i == 0 && n > 1 ) sym_assume(x != 0); s.push_back('0' + x); v = v * 10 + x; }
    SYM_ASSERT(Core::from_string<T>(s) == v, "digits read as their number");
    T back = Core::from_string<T>(Core::to_string(v));
    SYM_ASSERT(back == v, "a number survives being written and read");
    bool thrown = false; T r = 0;
    try { r = Core::from_string<T>(std::string(sym_choose(2, "bad") ? "x" : "") + (n > 1 ? "" : " ")); } catch ( const std::invalid_argument& ) { thrown = true; }
    SYM_ASSERT(thrown, "text that is no number is refused");
    sym_reach("roundtrip");
}
std::string text(int max, const char* n)
{
    std::string s; int k = sym_choose(max + 1, n);
    for ( int i = 0; i < k; i++ ) { char c = (char)sym_u8(n); sym_assume(c != 0); s.push_back(c); }
    return s;
}
bool ieq(const std::string& s, const char* w) { size_t i = 0; for ( ; w[i]; i++ ) { if ( i >= s.size() ) return false; char c = s[i]; if ( c >= 'A' && c <= 'Z' ) c += 32; if ( c != w[i] ) return false; } return i == s.size(); }
void boolean()
{
    std::string s = text(5, "c"); int want = -1, got = -1;
    for ( const char* w : { "true", "t", "yes", "y", "on", "1" } ) if ( ieq(s, w) ) want = 1;
    for ( const char* w : { "false", "f", "no", "n", "off", "0" } ) if ( ieq(s, w) ) want = 0;
    try { got = Core::from_string<bool>(s); } catch ( const std::invalid_argument& ) {}
    SYM_ASSERT(got == want, "a boolean is read from its spellings in any case and nothing else");
    SYM_ASSERT(Core::from_string<bool>(Core::to_string(true)) && !Core::from_string<bool>(Core::to_string(false)), "booleans survive being written and read");
    sym_reach("bool");
}
enum class E1 : uint8_t { A = 0, B = 7, C = 255 };
enum E2 : int64_t { X = -5, Y = (int64_t)1 << 40 };
void others()
{
    E1 e = sym_choose(2, "e") ? E1::B : E1::C; SYM_ASSERT(Core::from_string<E1>(Core::to_string(e)) == e, "enumerations survive"); 
    E2 f = sym_choose(2, "f") ? X : Y; SYM_ASSERT(Core::from_string<E2>(Core::to_string(f)) == f, "enumerations survive"); SYM_ASSERT(Core::to_string(X) == "-5", "enumerations are written as numbers");
    sym_reach("enum");
    static const double T[] = { 0, 1, -2.5, 1e9, -3e-9, 0.75, 1024 };
    double re = T[sym_choose(7, "re")], im = T[sym_choose(7, "im")];
    std::complex<double> c(re, im), d = Core::from_string<std::complex<double>>(Core::to_string(c)); SYM_ASSERT(d == c, "complex numbers survive");
    std::complex<float> cf((float)re, (float)im), df = Core::from_string<std::complex<float>>(Core::to_string(cf)); SYM_ASSERT(df == cf, "complex numbers survive");
    SYM_ASSERT(Core::from_string<double>(Core::to_string(re)) == re && Core::from_string<float>(Core::to_string((float)im)) == (float)im, "exact decimal numbers survive");
    std::string s = text(2, "s"); SYM_ASSERT(Core::to_string(s) == s && Core::from_string<std::string>(s) == s, "strings are unchanged");
    sym_reach("complex");
}
bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
std::string trimmed(const std::string& s) { size_t a = 0, b = s.size(); while ( a < b && ws(s[a]) ) a++; while ( b > a && ws(s[b - 1]) ) b--; return s.substr(a, b - a); }
int L;
void trim_()
{
    std::string s = text(L, "c"), t = s; SST::trim(t);
    SYM_ASSERT(t == trimmed(s), "trimming removes whitespace at both ends only");
    sym_reach("trim");
}
void tokenize_(const std::string& delim, bool trim_ws)
{
    std::string s = text(L, "c"); std::vector<std::string> got, want;
    if ( !s.empty() ) {
        std::string cur;
        for ( size_t i = 0; i < s.size(); ) {
            bool is = i + delim.size() <= s.size(); for ( size_t j = 0; is && j < delim.size(); j++ ) is = s[i + j] == delim[j];
            if ( is ) { want.push_back(cur); cur.clear(); i += delim.size(); } else cur.push_back(s[i++]);
        }
        want.push_back(cur);
    }
    if ( trim_ws ) for ( auto& w : want ) w = trimmed(w);
    got.push_back("before"); SST::tokenize(got, s, delim, trim_ws);
    SYM_ASSERT(got.size() == want.size() + 1 && got[0] == "before", "as many tokens as there are delimiters plus one");
    for ( size_t i = 0; i < want.size(); i++ ) SYM_ASSERT(got[i + 1] == want[i], "the tokens are what is between the delimiters");
    sym_reach("tokenize");
}
void tokenizer()
{
    std::string s = text(L, "c"), cur; std::vector<std::string> got, want;
    for ( char c : s ) { if ( c == ' ' || c == ',' ) { if ( !cur.empty() ) want.push_back(cur); cur.clear(); } else cur.push_back(c); }
    if ( !cur.empty() ) want.push_back(cur);
    Tokenizer<> tok(s, char_delimiter(" ,")); for ( auto i = tok.begin(); i != tok.end(); ++i ) got.push_back(*i);
    SYM_ASSERT(got == want, "the tokens are the runs of characters that are not separators");
    sym_reach("tokenizer");
}
void escaped() // fields written with quotes or escapes are read back
{
    int n = 1 + sym_choose(2, "n"); std::string s; std::vector<std::string> want, got;
    for ( int i = 0; i < n; i++ ) {
        std::string f = text(2, "f"); if ( i == n - 1 && f.empty() ) f = "z"; want.push_back(f); if ( i ) s += ",";
        if ( sym_choose(2, "quoted") ) { s += '"'; for ( char c : f ) { if ( c == '"' || c == '\\' ) s += '\\'; s += c; } s += '"'; }
        else for ( char c : f ) { if ( c == '"' || c == '\\' || c == ',' ) s += '\\'; s += c; }
    }
    Tokenizer<escaped_list_separator> tok(s); for ( auto i = tok.begin(); i != tok.end(); ++i ) got.push_back(*i);
    SYM_ASSERT(got == want, "quoted and escaped fields are read as they were written");
    sym_reach("escaped");
}
void format()
{
    static const int N[] = { 0, 1, 254, 255, 256, 257, 300 };
    std::string a(N[sym_choose(7, "length")], 'a'); char c = "xyz"[sym_choose(3, "char")]; if ( !a.empty() ) a.back() = c;
    SYM_ASSERT(format_string("%s", a.c_str()) == a, "a formatted string of any length is complete");
    SYM_ASSERT(format_string("<%s:%d>", a.c_str(), -7) == "<" + a + ":-7>", "a formatted string of any length is complete");
    size_t m = 1 + sym_choose(5, "max"); SYM_ASSERT(format_string(m, "%s!", a.c_str()) == (a + "!").substr(0, m - 1), "a formatted string is cut at the given length");
    sym_reach("format");
}
void compare()
{
    std::string a = text(2, "a"), b = text(2, "b"), la = a, lb = b;
    for ( auto* s : { &la, &lb } ) for ( auto& c : *s ) if ( c >= 'A' && c <= 'Z' ) c += 32;
    SYM_ASSERT(SST::strcasecmp(a, b) == (la == lb), "strings compare equal without case exactly if they differ in case only");
    std::string t = a; to_lower(t); SYM_ASSERT(t == la, "lower case changes letters only");
    sym_reach("compare");
}
} // namespace
extern "C" int harness_main()
{
    L = sym_tier() ? 6 : 5;
    switch ( sym_case() ) {
    case 0: switch ( sym_choose(8, "type") ) { case 0: integers<int8_t>(); break; case 1: integers<uint8_t>(); break; case 2: integers<int16_t>(); break; case 3: integers<uint16_t>(); break; case 4: integers<int32_t>(); break; case 5: integers<uint32_t>(); break; case 6: integers<int64_t>(); break; case 7: integers<uint64_t>(); break; } break;
    case 1: if ( sym_choose(2, "type") ) integers<long long>(); else integers<unsigned long long>(); break;
    case 2: digits<int>(); break;
    case 3: digits<uint64_t>(); break;
    case 4: boolean(); break;
    case 5: others(); break;
    case 6: trim_(); break;
    case 7: tokenize_(",", false); break;
    case 8: tokenize_(";", true); break;
    case 9: tokenize_("--", false); break;
    case 10: tokenizer(); break;
    case 11: escaped(); break;
    case 12: format(); break;
    case 13: compare(); break;
    }
    return 0;
}
