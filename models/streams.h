// Library model: character streams without locale facets, for the symbolic engine.
// Explicit specialisations of the locale-dependent members of the iostream templates;
// everything else (stringbuf, sentries, state handling) is the real libstdc++ template code.
#pragma once
#include <sstream>
#include <iostream>
#include <iomanip>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <type_traits>
namespace sym_streams {
inline void pad_put(std::ostream& o, const char* s, size_t n, size_t prefix)
{
    std::streamsize w = o.width();
    size_t pad = (w > 0 && (size_t)w > n) ? (size_t)w - n : 0;
    auto adj = o.flags() & std::ios_base::adjustfield;
    std::streambuf* b = o.rdbuf();
    char f = o.fill();
    if ( adj == std::ios_base::internal ) { b->sputn(s, prefix); while ( pad ) { b->sputc(f); pad--; } b->sputn(s + prefix, n - prefix); }
    else if ( adj == std::ios_base::left ) { b->sputn(s, n); while ( pad ) { b->sputc(f); pad--; } }
    else { while ( pad ) { b->sputc(f); pad--; } b->sputn(s, n); }
    o.width(0);
}
template <typename T> inline std::ostream& ins_int(std::ostream& o, T v)
{
    std::ostream::sentry ok(o);
    if ( !ok ) return o;
    typedef typename std::make_unsigned<T>::type U;
    auto base = o.flags() & std::ios_base::basefield;
    bool hex = base == std::ios_base::hex, oct = base == std::ios_base::oct;
    bool up = (o.flags() & std::ios_base::uppercase) != 0;
    char buf[72]; int p = 72; size_t prefix = 0;
    U u = (U)v; bool neg = false;
    if ( !hex && !oct && std::is_signed<T>::value && v < 0 ) { neg = true; u = (U)0 - u; }
    unsigned b = hex ? 16 : oct ? 8 : 10;
    bool zero = u == 0;
    do { unsigned d = (unsigned)(u % b); buf[--p] = d < 10 ? '0' + d : (up ? 'A' : 'a') + (d - 10); u /= b; } while ( u != 0 );
    if ( (o.flags() & std::ios_base::showbase) && !zero ) {
        if ( hex ) { buf[--p] = up ? 'X' : 'x'; buf[--p] = '0'; prefix = 2; }
        else if ( oct ) buf[--p] = '0';
    }
    if ( neg ) { buf[--p] = '-'; prefix = 1; }
    else if ( !hex && !oct && std::is_signed<T>::value && (o.flags() & std::ios_base::showpos) ) { buf[--p] = '+'; prefix = 1; }
    pad_put(o, buf + p, 72 - p, prefix);
    return o;
}
inline std::ostream& ins_fp(std::ostream& o, double v, bool ld = false)
{
    std::ostream::sentry ok(o);
    if ( !ok ) return o;
    char fmt[16]; int k = 0; fmt[k++] = '%';
    auto fl = o.flags();
    if ( fl & std::ios_base::showpos ) fmt[k++] = '+';
    if ( fl & std::ios_base::showpoint ) fmt[k++] = '#';
    fmt[k++] = '.'; fmt[k++] = '*';
    auto ff = fl & std::ios_base::floatfield;
    bool up = (fl & std::ios_base::uppercase) != 0;
    fmt[k++] = ff == std::ios_base::fixed ? (up ? 'F' : 'f') : ff == std::ios_base::scientific ? (up ? 'E' : 'e') : (up ? 'G' : 'g');
    fmt[k] = 0;
    char buf[512];
    int n = snprintf(buf, 512, fmt, (int)o.precision(), v);
    pad_put(o, buf, n, buf[0] == '-' || buf[0] == '+' ? 1 : 0);
    return o;
}
inline bool sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
template <typename T> inline std::istream& ext_int(std::istream& in, T& v)
{
    std::istream::sentry ok(in, false);
    if ( !ok ) return in;
    std::streambuf* b = in.rdbuf();
    bool neg = false, any = false, ovf = false;
    int c = b->sgetc();
    if ( c == '-' || c == '+' ) { neg = c == '-'; c = b->snextc(); }
    auto bf = in.flags() & std::ios_base::basefield;
    unsigned base = bf == std::ios_base::hex ? 16 : bf == std::ios_base::oct ? 8 : 10;
    if ( base == 16 && c == '0' ) { any = true; c = b->snextc(); if ( c == 'x' || c == 'X' ) { any = false; c = b->snextc(); } }
    unsigned __int128 acc = 0;
    while ( c != EOF ) {
        unsigned d;
        if ( c >= '0' && c <= '9' ) d = c - '0';
        else if ( base == 16 && c >= 'a' && c <= 'f' ) d = c - 'a' + 10;
        else if ( base == 16 && c >= 'A' && c <= 'F' ) d = c - 'A' + 10;
        else break;
        if ( d >= base ) break;
        any = true;
        if ( !ovf ) { acc = acc * base + d; if ( acc >> 64 ) ovf = true; }
        c = b->snextc();
    }
    std::ios_base::iostate st = std::ios_base::goodbit;
    if ( c == EOF ) st |= std::ios_base::eofbit;
    typedef typename std::make_unsigned<T>::type U;
    if ( !any ) { v = 0; st |= std::ios_base::failbit; }
    else if ( std::is_signed<T>::value ) {
        U mx = (U)~(U)0 >> 1;
        if ( ovf || acc > (unsigned __int128)mx + (neg ? 1 : 0) ) { v = neg ? (T)(mx + 1) : (T)mx; st |= std::ios_base::failbit; }
        else v = neg ? (T)((U)0 - (U)acc) : (T)acc;
    } else {
        if ( ovf || acc > (U)~(U)0 ) { v = (T)~(U)0; st |= std::ios_base::failbit; }
        else v = neg ? (T)((U)0 - (U)acc) : (T)acc;
    }
    if ( st ) in.setstate(st);
    return in;
}
template <typename T> inline std::istream& ext_fp(std::istream& in, T& v)
{
    std::istream::sentry ok(in, false);
    if ( !ok ) return in;
    std::streambuf* b = in.rdbuf();
    std::string t; int c = b->sgetc(); bool dot = false, e = false, dig = false;
    while ( c != EOF ) {
        bool take = false;
        if ( c >= '0' && c <= '9' ) { take = true; dig = true; }
        else if ( (c == '+' || c == '-') && (t.empty() || t.back() == 'e' || t.back() == 'E') ) take = true;
        else if ( c == '.' && !dot && !e ) take = dot = true;
        else if ( (c == 'e' || c == 'E') && !e && dig ) take = e = true;
        if ( !take ) break;
        t.push_back((char)c);
        c = b->snextc();
    }
    std::ios_base::iostate st = std::ios_base::goodbit;
    if ( c == EOF ) st |= std::ios_base::eofbit;
    char* end = nullptr;
    double d = dig ? strtod(t.c_str(), &end) : 0.0;
    if ( !dig || *end ) { v = 0; st |= std::ios_base::failbit; } else v = (T)d;
    if ( st ) in.setstate(st);
    return in;
}
} // namespace sym_streams
namespace std {
template <> inline void basic_ios<char>::_M_cache_locale(const locale&) { _M_ctype = nullptr; _M_num_put = nullptr; _M_num_get = nullptr; }
template <> inline char basic_ios<char>::widen(char c) const { return c; }
template <> inline char basic_ios<char>::narrow(char c, char) const { return c; }
template <> template <> inline ostream& ostream::_M_insert<long>(long v) { return sym_streams::ins_int(*this, v); }
template <> template <> inline ostream& ostream::_M_insert<unsigned long>(unsigned long v) { return sym_streams::ins_int(*this, v); }
template <> template <> inline ostream& ostream::_M_insert<long long>(long long v) { return sym_streams::ins_int(*this, v); }
template <> template <> inline ostream& ostream::_M_insert<unsigned long long>(unsigned long long v) { return sym_streams::ins_int(*this, v); }
template <> inline ostream& ostream::operator<<(short v)
{ if ( flags() & (ios_base::hex | ios_base::oct) ) return sym_streams::ins_int(*this, (unsigned short)v); return sym_streams::ins_int(*this, (long)v); }
template <> inline ostream& ostream::operator<<(int v)
{ if ( flags() & (ios_base::hex | ios_base::oct) ) return sym_streams::ins_int(*this, (unsigned int)v); return sym_streams::ins_int(*this, (long)v); }
template <> template <> inline ostream& ostream::_M_insert<bool>(bool v)
{
    if ( flags() & ios_base::boolalpha ) { ostream::sentry ok(*this); if ( ok ) sym_streams::pad_put(*this, v ? "true" : "false", v ? 4 : 5, 0); return *this; }
    return sym_streams::ins_int(*this, (long)v);
}
template <> template <> inline ostream& ostream::_M_insert<double>(double v) { return sym_streams::ins_fp(*this, v); }
template <> template <> inline ostream& ostream::_M_insert<long double>(long double v) { return sym_streams::ins_fp(*this, (double)v); }
template <> template <> inline ostream& ostream::_M_insert<const void*>(const void* v)
{ auto f = flags(); flags((f & ~ios_base::basefield) | ios_base::hex | ios_base::showbase); sym_streams::ins_int(*this, (unsigned long)v); flags(f); return *this; }
template <> template <> inline istream& istream::_M_extract<unsigned short>(unsigned short& v) { return sym_streams::ext_int(*this, v); }
template <> template <> inline istream& istream::_M_extract<unsigned int>(unsigned int& v) { return sym_streams::ext_int(*this, v); }
template <> template <> inline istream& istream::_M_extract<long>(long& v) { return sym_streams::ext_int(*this, v); }
template <> template <> inline istream& istream::_M_extract<unsigned long>(unsigned long& v) { return sym_streams::ext_int(*this, v); }
template <> template <> inline istream& istream::_M_extract<long long>(long long& v) { return sym_streams::ext_int(*this, v); }
template <> template <> inline istream& istream::_M_extract<unsigned long long>(unsigned long long& v) { return sym_streams::ext_int(*this, v); }
template <> template <> inline istream& istream::_M_extract<bool>(bool& v) { long t = 0; sym_streams::ext_int(*this, t); v = t != 0; if ( t != 0 && t != 1 ) setstate(ios_base::failbit); return *this; }
template <> inline istream& istream::operator>>(short& v) { return sym_streams::ext_int(*this, v); }
template <> inline istream& istream::operator>>(int& v) { return sym_streams::ext_int(*this, v); }
template <> template <> inline istream& istream::_M_extract<float>(float& v) { return sym_streams::ext_fp(*this, v); }
template <> template <> inline istream& istream::_M_extract<double>(double& v) { return sym_streams::ext_fp(*this, v); }
template <> template <> inline istream& istream::_M_extract<long double>(long double& v) { double d = 0; sym_streams::ext_fp(*this, d); v = d; return *this; }
template <> inline istream::sentry::sentry(istream& in, bool noskip) : _M_ok(false)
{
    if ( in.good() ) {
        if ( !noskip && (in.flags() & ios_base::skipws) ) {
            streambuf* b = in.rdbuf(); int c = b->sgetc();
            while ( c != EOF && sym_streams::sp(c) ) c = b->snextc();
            if ( c == EOF ) { in.setstate(ios_base::eofbit | ios_base::failbit); return; }
        }
    }
    if ( in.good() ) _M_ok = true; else in.setstate(ios_base::failbit);
}
template <> inline istream& operator>>(istream& in, string& s)
{
    istream::sentry ok(in, false);
    s.clear();
    if ( !ok ) return in;
    streambuf* b = in.rdbuf(); int c = b->sgetc(); bool any = false;
    while ( c != EOF && !sym_streams::sp(c) ) { s.push_back((char)c); any = true; c = b->snextc(); }
    if ( c == EOF ) in.setstate(ios_base::eofbit);
    if ( !any ) in.setstate(ios_base::failbit);
    in.width(0);
    return in;
}
template <> inline istream& getline(istream& in, string& s, char d)
{
    istream::sentry ok(in, true);
    s.clear();
    if ( !ok ) return in;
    streambuf* b = in.rdbuf(); int c = b->sgetc(); bool any = false;
    while ( c != EOF && (char)c != d ) { s.push_back((char)c); any = true; c = b->snextc(); }
    if ( c == EOF ) { in.setstate(ios_base::eofbit); if ( !any ) in.setstate(ios_base::failbit); }
    else b->sbumpc();
    return in;
}
} // namespace std
