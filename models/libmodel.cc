// Library models for the symbolic executor: libstdc++ / libc functions that
// exist only in compiled form.  Written against the documented behaviour.
#include <bits/stl_tree.h>
#include <list>
#include <unordered_map>
#include <stdexcept>
#include <typeinfo>
#include <new>
#include <functional>
#include <cstring>
#include <cstdlib>
#include <cctype>
#include <climits>
#include <cerrno>
#include <pthread.h>
#include <system_error>
#include <variant>
#include <optional>
#include "sym.h"

namespace std {
// ---- red-black tree (textbook; only ordering invariants are observable)
static _Rb_tree_node_base* incr(_Rb_tree_node_base* x) {
    if ( x->_M_right ) { x = x->_M_right; while ( x->_M_left ) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while ( x == y->_M_right ) { x = y; y = y->_M_parent; }
    if ( x->_M_right != y ) x = y;
    return x;
}
static _Rb_tree_node_base* decr(_Rb_tree_node_base* x) {
    if ( x->_M_color == _S_red && x->_M_parent->_M_parent == x ) return x->_M_right;
    if ( x->_M_left ) { _Rb_tree_node_base* y = x->_M_left; while ( y->_M_right ) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent;
    while ( x == y->_M_left ) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return incr(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return incr(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return decr(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return decr(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
    _Rb_tree_node_base* y = x->_M_right;
    x->_M_right = y->_M_left;
    if ( y->_M_left ) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if ( x == root ) root = y;
    else if ( x == x->_M_parent->_M_left ) x->_M_parent->_M_left = y;
    else x->_M_parent->_M_right = y;
    y->_M_left = x; x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
    _Rb_tree_node_base* y = x->_M_left;
    x->_M_left = y->_M_right;
    if ( y->_M_right ) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if ( x == root ) root = y;
    else if ( x == x->_M_parent->_M_right ) x->_M_parent->_M_right = y;
    else x->_M_parent->_M_left = y;
    y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base*& root = h._M_parent;
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
    if ( left ) {
        p->_M_left = x;
        if ( p == &h ) { h._M_parent = x; h._M_right = x; }
        else if ( p == h._M_left ) h._M_left = x;
    } else {
        p->_M_right = x;
        if ( p == h._M_right ) h._M_right = x;
    }
    while ( x != root && x->_M_parent->_M_color == _S_red ) {
        _Rb_tree_node_base* g = x->_M_parent->_M_parent;
        if ( x->_M_parent == g->_M_left ) {
            _Rb_tree_node_base* y = g->_M_right;
            if ( y && y->_M_color == _S_red ) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else {
                if ( x == x->_M_parent->_M_right ) { x = x->_M_parent; rotl(x, root); }
                x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root);
            }
        } else {
            _Rb_tree_node_base* y = g->_M_left;
            if ( y && y->_M_color == _S_red ) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else {
                if ( x == x->_M_parent->_M_left ) { x = x->_M_parent; rotr(x, root); }
                x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root);
            }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base*& root = h._M_parent; _Rb_tree_node_base*& leftmost = h._M_left; _Rb_tree_node_base*& rightmost = h._M_right;
    _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = nullptr; _Rb_tree_node_base* xp = nullptr;
    if ( !y->_M_left ) x = y->_M_right;
    else if ( !y->_M_right ) x = y->_M_left;
    else { y = y->_M_right; while ( y->_M_left ) y = y->_M_left; x = y->_M_right; }
    if ( y != z ) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if ( y != z->_M_right ) {
            xp = y->_M_parent; if ( x ) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
        } else xp = y;
        if ( root == z ) root = y;
        else if ( z->_M_parent->_M_left == z ) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c;
        y = z;
    } else {
        xp = y->_M_parent; if ( x ) x->_M_parent = y->_M_parent;
        if ( root == z ) root = x;
        else if ( z->_M_parent->_M_left == z ) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if ( leftmost == z ) {
            if ( !z->_M_right ) leftmost = z->_M_parent;
            else { _Rb_tree_node_base* m = x; while ( m->_M_left ) m = m->_M_left; leftmost = m; }
        }
        if ( rightmost == z ) {
            if ( !z->_M_left ) rightmost = z->_M_parent;
            else { _Rb_tree_node_base* m = x; while ( m->_M_right ) m = m->_M_right; rightmost = m; }
        }
    }
    if ( y->_M_color != _S_red ) {
        while ( x != root && (!x || x->_M_color == _S_black) )
            if ( x == xp->_M_left ) {
                _Rb_tree_node_base* w = xp->_M_right;
                if ( w->_M_color == _S_red ) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
                if ( (!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black) ) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if ( !w->_M_right || w->_M_right->_M_color == _S_black ) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if ( w->_M_right ) w->_M_right->_M_color = _S_black;
                    rotl(xp, root);
                    break;
                }
            } else {
                _Rb_tree_node_base* w = xp->_M_left;
                if ( w->_M_color == _S_red ) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
                if ( (!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black) ) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if ( !w->_M_left || w->_M_left->_M_color == _S_black ) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if ( w->_M_left ) w->_M_left->_M_color = _S_black;
                    rotr(xp, root);
                    break;
                }
            }
        if ( x ) x->_M_color = _S_black;
    }
    return y;
}
// ---- list
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if ( this != last ) {
        last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
        _List_node_base* const t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
    }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while ( t != this ); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if ( x._M_next != &x ) {
        if ( y._M_next != &y ) {
            _List_node_base* t = x._M_next; x._M_next = y._M_next; y._M_next = t;
            t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t;
            x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
        } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if ( y._M_next != &y ) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
// ---- hashing policy: 11 buckets, doubled when full
static size_t nextb(size_t n) { size_t b = 11; while ( b < n ) b = b * 2 + 1; return b; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = nextb(n); _M_next_resize = b; return b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
    if ( n_elt + n_ins > n_bkt || n_bkt == 1 ) { size_t b = nextb(n_elt + n_ins > n_bkt * 2 ? n_elt + n_ins : n_bkt * 2); _M_next_resize = b; return { true, b }; }
    return { false, 0 };
}
} // namespace __detail
// constant hash: every key in one bucket, so lookups with symbolic keys compare by value
size_t _Hash_bytes(const void*, size_t, size_t) { return 7; }
size_t _Fnv_hash_bytes(const void*, size_t, size_t) { return 7; }

// ---- exceptions
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

static char* dupmsg(const char* s) { size_t n = strlen(s); char* p = (char*)malloc(n + 1); memcpy(p, s, n + 1); return p; }
// message representation: the first pointer of the __cow_string member
#define MSG(o) (*(const char**)((char*)(o) + sizeof(void*)))
// __cow_string's own members are only trivial pointer copies here
__cow_string::__cow_string() { *(const char**)this = ""; }
__cow_string::__cow_string(const std::string& s) { *(const char**)this = dupmsg(s.c_str()); }
__cow_string::__cow_string(const char* s, size_t) { *(const char**)this = dupmsg(s); }
__cow_string::__cow_string(const __cow_string& o) noexcept { *(const char**)this = *(const char* const*)&o; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { *(const char**)this = *(const char* const*)&o; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept { *(const char**)this = *(const char* const*)&o; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { *(const char**)this = *(const char* const*)&o; return *this; }

logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, 0) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return MSG(this); }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, 0) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return MSG(this); }
#define EXC(C, B) C::C(const string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
EXC(domain_error, logic_error)
EXC(invalid_argument, logic_error)
EXC(length_error, logic_error)
EXC(out_of_range, logic_error)
EXC(range_error, runtime_error)
EXC(overflow_error, runtime_error)
EXC(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
const nothrow_t nothrow = nothrow_t {};
type_info::~type_info() {}
} // namespace std

extern "C" {
int strcmp(const char* a, const char* b) { while ( *a && *a == *b ) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while ( n && *a && *a == *b ) { a++; b++; n--; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { while ( *a && lc((unsigned char)*a) == lc((unsigned char)*b) ) { a++; b++; } return lc((unsigned char)*a) - lc((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { while ( n && *a && lc((unsigned char)*a) == lc((unsigned char)*b) ) { a++; b++; n--; } return n ? lc((unsigned char)*a) - lc((unsigned char)*b) : 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ( (*d++ = *s++) ) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for ( ; i < n && s[i]; i++ ) d[i] = s[i]; for ( ; i < n; i++ ) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
#undef strchr
#undef memchr
char* strdup(const char* s) { size_t n = strlen(s); char* p = (char*)malloc(n + 1); memcpy(p, s, n + 1); return p; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && !isalnum(c) && c != ' '; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) { return c == ' ' || c == '\t'; }
int isgraph(int c) { return c > 32 && c < 127; }
int tolower(int c) { return lc(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }

static unsigned long long strtoull_(const char* s, char** e, int base, bool* neg, bool* any, bool* ovf) {
    const char* p = s;
    *neg = false; *any = false; *ovf = false;
    while ( isspace((unsigned char)*p) ) p++;
    if ( *p == '+' || *p == '-' ) { *neg = *p == '-'; p++; }
    if ( (base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2]) ) { p += 2; base = 16; }
    else if ( base == 0 ) base = p[0] == '0' ? 8 : 10;
    unsigned long long v = 0;
    while ( true ) {
        int c = (unsigned char)*p, dg;
        if ( c >= '0' && c <= '9' ) dg = c - '0';
        else if ( c >= 'a' && c <= 'z' ) dg = c - 'a' + 10;
        else if ( c >= 'A' && c <= 'Z' ) dg = c - 'A' + 10;
        else break;
        if ( dg >= base ) break;
        unsigned long long nv;
        if ( __builtin_mul_overflow(v, (unsigned long long)base, &nv) || __builtin_add_overflow(nv, (unsigned long long)dg, &nv) ) *ovf = true;
        v = nv; *any = true; p++;
    }
    if ( e ) *e = (char*)(*any ? p : s);
    return v;
}
unsigned long long strtoull(const char* s, char** e, int b) {
    bool n, a, o; unsigned long long v = strtoull_(s, e, b, &n, &a, &o);
    if ( o ) { errno = ERANGE; return ULLONG_MAX; }
    return n ? 0 - v : v;
}
long long strtoll(const char* s, char** e, int b) {
    bool n, a, o; unsigned long long v = strtoull_(s, e, b, &n, &a, &o);
    if ( n ) { if ( o || v > (unsigned long long)LLONG_MAX + 1 ) { errno = ERANGE; return LLONG_MIN; } return (long long)(0 - v); }
    if ( o || v > (unsigned long long)LLONG_MAX ) { errno = ERANGE; return LLONG_MAX; }
    return (long long)v;
}
unsigned long strtoul(const char* s, char** e, int b) { return strtoull(s, e, b); }
long strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }

// mutexes: a word in the first bytes of the object
#include "mutex.inc"
}
extern "C" const char* strchr_(const char* s, int c) __asm__("strchr");
extern "C" const char* strchr_(const char* s, int c) { for ( ;; s++ ) { if ( *s == (char)c ) return s; if ( !*s ) return nullptr; } }
extern "C" const char* strrchr_(const char* s, int c) __asm__("strrchr");
extern "C" const char* strrchr_(const char* s, int c) { const char* r = nullptr; for ( ;; s++ ) { if ( *s == (char)c ) r = s; if ( !*s ) return r; } }
extern "C" const void* memchr_(const void* s, int c, size_t n) __asm__("memchr");
extern "C" const void* memchr_(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for ( size_t i = 0; i < n; i++ ) if ( p[i] == (unsigned char)c ) return p + i; return nullptr; }
extern "C" const char* strstr_(const char* h, const char* n) __asm__("strstr");
extern "C" const char* strstr_(const char* h, const char* n) { size_t k = strlen(n); for ( ;; h++ ) { if ( strncmp(h, n, k) == 0 ) return h; if ( !*h ) return nullptr; } }
// ---- iostream ABI: no facets; the standard streams swallow output
#include <locale>
namespace std {
locale::locale() throw() : _M_impl(nullptr) {}
locale::locale(const locale&) throw() : _M_impl(nullptr) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale&) throw() { return *this; }
const locale& locale::classic() { static locale l; return l; }
ios_base::ios_base() throw() : _M_callbacks(nullptr), _M_word_size(_S_local_word_size), _M_word(_M_local_word) {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
locale ios_base::imbue(const locale& l) throw() { return l; }
ios_base::failure::failure(const char* s, const error_code&) : system_error(error_code()) {}
ios_base::failure::~failure() {}
const char* ios_base::failure::what() const throw() { return "ios failure"; }
void __throw_ios_failure(const char* s) { throw runtime_error(s); }
void __throw_ios_failure(const char* s, int) { throw runtime_error(s); }
}
std::ostream sym_cout __asm__("_ZSt4cout") __attribute__((init_priority(101))) (nullptr);
std::ostream sym_cerr __asm__("_ZSt4cerr") __attribute__((init_priority(101))) (nullptr);
std::ostream sym_clog __asm__("_ZSt4clog") __attribute__((init_priority(101))) (nullptr);
std::istream sym_cin __asm__("_ZSt3cin") __attribute__((init_priority(101))) (nullptr);
