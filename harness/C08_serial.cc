// Serialisation round trips: sizes match exactly, every value, container and pointer graph comes back equal.
// @cases 12
// @sources serialization/serializer.cc serialization/serializable.cc serialization/serializable_base.cc serialization/statics.cc serialization/objectMap.cc serialization/impl/unpacker.cc serialization/impl/ser_shared_ptr_tracker.cc serialization/impl/serialize_array.cc serialization/impl/serialize_shared_ptr.cc serialization/impl/serialize_trivial.cc
// @stubs output_stub
// @reach scalars strings seqs assoc unordered adapters sums arrays ptrs graph poly smart truncated
// @bounds every element, length and key arbitrary within: containers and strings of up to 2 elements (thorough 3), strings of up to 3 bytes, all scalar types with all bit patterns, pointer graphs of 3 nodes with 2 edges each, all aliasing patterns of 3 shared, weak and aliasing pointers over 2 owners, nested containers two levels deep; with and without pointer tracking; buffers cut at any length
// @outside corrupt (rather than truncated) buffers, user-written serialize_order functions, unordered containers with more than 2 elements
#include "sym.h"
#include "sst/core/serialization/serialize.h"
#include "sst/core/serialization/serializer.h"
#include "sst/core/serialization/serializable.h"
#include <array>
#include <atomic>
#include <bitset>
#include <complex>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <forward_list>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <set>
#include <stack>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <valarray>
#include <variant>
#include <vector>
using namespace SST;
using namespace SST::Core::Serialization;
namespace {
int MAXN;
bool cut;

// ---- value generation ----
enum class Color : uint16_t { R = 1, G = 7, B = 300 };
struct Pod { uint32_t a; uint8_t b; int64_t c; };
struct Agg { std::string s; int i; std::vector<uint8_t> v; };
struct Own {
    uint32_t x = 0; std::vector<uint16_t> v; std::string s;
    void serialize_order(serializer& ser) { SST_SER(x); SST_SER(v); SST_SER(s); }
};
template <class T> void gen(T& t);
template <class T> void genBits(T& t)
{
    if constexpr ( std::is_same_v<T, bool> ) t = sym_flag("b");
    else if constexpr ( sizeof(T) == 8 ) { uint64_t u = sym_bits(64, "v"); memcpy(&t, &u, 8); }
    else if constexpr ( sizeof(T) == 4 ) { uint32_t u = sym_bits(32, "v"); memcpy(&t, &u, 4); }
    else if constexpr ( sizeof(T) == 2 ) { uint16_t u = sym_bits(16, "v"); memcpy(&t, &u, 2); }
    else { uint8_t u = sym_bits(8, "v"); memcpy(&t, &u, 1); }
}
template <class T> struct Gen { static void go(T& t) { genBits(t); } };
template <class T> void gen(T& t) { Gen<T>::go(t); }
template <> struct Gen<std::string> { static void go(std::string& s) { int n = sym_choose(MAXN + 1, "len"); s.clear(); for ( int i = 0; i < n; i++ ) s.push_back((char)sym_bits(8, "ch")); } };
template <> struct Gen<Pod> { static void go(Pod& p) { memset(&p, 0, sizeof p); genBits(p.a); genBits(p.b); genBits(p.c); } };
template <> struct Gen<Agg> { static void go(Agg& p) { gen(p.s); gen(p.i); gen(p.v); } };
template <> struct Gen<Own> { static void go(Own& p) { gen(p.x); gen(p.v); gen(p.s); } };
template <class C> void genSeq(C& c) { int n = sym_choose(MAXN + 1, "n"); for ( int i = 0; i < n; i++ ) { typename C::value_type v {}; gen(v); c.push_back(v); } }
template <class T> struct Gen<std::vector<T>> { static void go(std::vector<T>& c) { genSeq(c); } };
template <class T> struct Gen<std::deque<T>> { static void go(std::deque<T>& c) { genSeq(c); } };
template <class T> struct Gen<std::list<T>> { static void go(std::list<T>& c) { genSeq(c); } };
template <class T> struct Gen<std::forward_list<T>> { static void go(std::forward_list<T>& c) { int n = sym_choose(MAXN + 1, "n"); for ( int i = 0; i < n; i++ ) { T v {}; gen(v); c.push_front(v); } } };
template <class C> void genSet(C& c) { int n = sym_choose(MAXN + 1, "n"); for ( int i = 0; i < n; i++ ) { typename C::key_type v {}; gen(v); c.insert(v); } }
template <class C> void genMap(C& c) { int n = sym_choose(MAXN + 1, "n"); for ( int i = 0; i < n; i++ ) { typename C::key_type k {}; gen(k); typename C::mapped_type v {}; gen(v); c.insert({ k, v }); } }
template <class T> struct Gen<std::set<T>> { static void go(std::set<T>& c) { genSet(c); } };
template <class T> struct Gen<std::multiset<T>> { static void go(std::multiset<T>& c) { genSet(c); } };
template <class K, class V> struct Gen<std::map<K, V>> { static void go(std::map<K, V>& c) { genMap(c); } };
template <class K, class V> struct Gen<std::multimap<K, V>> { static void go(std::multimap<K, V>& c) { genMap(c); } };
template <class A, class B> struct Gen<std::pair<A, B>> { static void go(std::pair<A, B>& c) { gen(c.first); gen(c.second); } };
template <class A, class B, class C> struct Gen<std::tuple<A, B, C>> { static void go(std::tuple<A, B, C>& c) { gen(std::get<0>(c)); gen(std::get<1>(c)); gen(std::get<2>(c)); } };
template <class A> struct Gen<std::optional<A>> { static void go(std::optional<A>& c) { if ( sym_flag("has") ) { A a {}; gen(a); c = a; } else c.reset(); } };
template <class T, size_t N> struct Gen<std::array<T, N>> { static void go(std::array<T, N>& c) { for ( auto& x : c ) gen(x); } };
template <class T, size_t N> struct Gen<T[N]> { static void go(T (&c)[N]) { for ( auto& x : c ) gen(x); } };

// ---- equality ----
template <class T> struct Same {
    static bool eq(const T& a, const T& b) { if constexpr ( std::is_floating_point_v<T> ) return !memcmp(&a, &b, sizeof(T)); else return a == b; }
};
template <class T> bool same(const T& a, const T& b) { return Same<T>::eq(a, b); }
template <class C> bool sameSeq(const C& a, const C& b)
{
    auto i = a.begin(); auto j = b.begin();
    bool r = true;
    for ( ; i != a.end() && j != b.end(); ++i, ++j ) r &= same(*i, *j);
    return (i == a.end()) && (j == b.end()) && r;
}
template <> struct Same<std::string> { static bool eq(const std::string& a, const std::string& b) { if ( a.size() != b.size() ) return false; bool r = true; for ( size_t i = 0; i < a.size(); i++ ) r &= a[i] == b[i]; return r; } };
template <> struct Same<Pod> { static bool eq(const Pod& a, const Pod& b) { return (a.a == b.a) & (a.b == b.b) & (a.c == b.c); } };
template <> struct Same<Agg> { static bool eq(const Agg& a, const Agg& b) { return same(a.s, b.s) & (a.i == b.i) & sameSeq(a.v, b.v); } };
template <> struct Same<Own> { static bool eq(const Own& a, const Own& b) { return (a.x == b.x) & sameSeq(a.v, b.v) & same(a.s, b.s); } };
template <class T> struct Same<std::vector<T>> { static bool eq(const std::vector<T>& a, const std::vector<T>& b) { return sameSeq(a, b); } };
template <class T> struct Same<std::deque<T>> { static bool eq(const std::deque<T>& a, const std::deque<T>& b) { return sameSeq(a, b); } };
template <class T> struct Same<std::list<T>> { static bool eq(const std::list<T>& a, const std::list<T>& b) { return sameSeq(a, b); } };
template <class T> struct Same<std::forward_list<T>> { static bool eq(const std::forward_list<T>& a, const std::forward_list<T>& b) { return sameSeq(a, b); } };
template <class T> struct Same<std::set<T>> { static bool eq(const std::set<T>& a, const std::set<T>& b) { return sameSeq(a, b); } };
template <class T> struct Same<std::multiset<T>> { static bool eq(const std::multiset<T>& a, const std::multiset<T>& b) { return sameSeq(a, b); } };
template <class K, class V> struct Same<std::map<K, V>> { static bool eq(const std::map<K, V>& a, const std::map<K, V>& b) { return sameSeq(a, b); } };
template <class K, class V> struct Same<std::multimap<K, V>> { static bool eq(const std::multimap<K, V>& a, const std::multimap<K, V>& b) { return sameSeq(a, b); } };
template <class A, class B> struct Same<std::pair<A, B>> { static bool eq(const std::pair<A, B>& a, const std::pair<A, B>& b) { return same(a.first, b.first) & same(a.second, b.second); } };
template <class A, class B, class C> struct Same<std::tuple<A, B, C>> { static bool eq(const std::tuple<A, B, C>& a, const std::tuple<A, B, C>& b) { return same(std::get<0>(a), std::get<0>(b)) & same(std::get<1>(a), std::get<1>(b)) & same(std::get<2>(a), std::get<2>(b)); } };
template <class A> struct Same<std::optional<A>> { static bool eq(const std::optional<A>& a, const std::optional<A>& b) { return a.has_value() == b.has_value() && (!a || same(*a, *b)); } };
template <class T, size_t N> struct Same<std::array<T, N>> { static bool eq(const std::array<T, N>& a, const std::array<T, N>& b) { return sameSeq(a, b); } };
template <class T, size_t N> struct Same<T[N]> { static bool eq(const T (&a)[N], const T (&b)[N]) { bool r = true; for ( size_t i = 0; i < N; i++ ) r &= same(a[i], b[i]); return r; } };

// ---- the round trip itself ----
template <class F> void trip(bool track, F&& visit)   // visit(ser, out): serialises the source (out=false) or the destination (out=true)
{
    serializer ser;
    ser.enable_pointer_tracking(track);
    ser.start_sizing();
    visit(ser, false);
    size_t n = ser.size();
    char* buf = (char*)malloc(n ? n : 1);
    memset(buf, 0xAA, n);
    ser.start_packing(buf, n);
    visit(ser, false);
    SYM_ASSERT(ser.size() == n, "packing writes exactly the size that was computed");
    if ( cut && n > 0 ) {
        size_t m = sym_choose((int)n, "cut");
        char* b2 = (char*)malloc(m ? m : 1); memcpy(b2, buf, m); free(buf); buf = b2;
        bool thrown = false;
        try { ser.start_unpacking(buf, m); visit(ser, true); } catch ( const std::out_of_range& ) { thrown = true; }
        SYM_ASSERT(thrown, "a truncated buffer is refused");
        sym_reach("truncated");
        sym_stop();
    }
    ser.start_unpacking(buf, n);
    visit(ser, true);
    SYM_ASSERT(ser.size() == n, "unpacking consumes exactly what was packed");
    ser.finalize();
    free(buf);
}
template <class T> void rt(T& a, T& b, bool track, ser_opt_t opt = 0)
{
    trip(track, [&](serializer& ser, bool out) { if ( out ) SST_SER(b, opt); else SST_SER(a, opt); });
}
template <class T> void val(const char* = "")
{
    T a {}, b {}; gen(a);
    bool dirty = sym_flag("dirty"); if ( dirty ) { int keep = MAXN; MAXN = 1; gen(b); MAXN = keep; }
    rt(a, b, sym_flag("track"));
    SYM_ASSERT(same(a, b), "value survives the round trip");
}
template <class T> void one() { T a {}, b {}; gen(a); rt(a, b, sym_flag("track")); SYM_ASSERT(same(a, b), "value survives the round trip"); }

// ---- polymorphic ----
struct Base : public serializable {
    uint32_t id = 0; Base* other = nullptr;
    virtual int kind() const { return 0; }
    void serialize_order(serializer& ser) override { SST_SER(id); SST_SER(other); }
    ImplementSerializable(Base)
};
struct DerA : public Base {
    uint64_t extra = 0;
    int kind() const override { return 1; }
    void serialize_order(serializer& ser) override { Base::serialize_order(ser); SST_SER(extra); }
    ImplementSerializable(DerA)
};
struct Iface : virtual public serializable_base { virtual ~Iface() = default; virtual uint32_t tag() const = 0; };
struct DerB : public Base {
    std::string name; Base* self = nullptr;
    int kind() const override { return 2; }
    void serialize_order(serializer& ser) override { Base::serialize_order(ser); SST_SER(name); SST_SER(self); }
    ImplementSerializable(DerB)
};
// ---- graph ----
struct Node {
    uint8_t v = 0; Node* l = nullptr; Node* r = nullptr;
    void serialize_order(serializer& ser) { SST_SER(v); SST_SER(l); SST_SER(r); }
};
struct Holder { Node inner; Node* p = nullptr; std::vector<Node*> v; };
struct Pair2 { uint32_t first = 0; uint16_t second = 0; void serialize_order(serializer& ser) { SST_SER(first); SST_SER(second); } };
}
extern "C" int harness_main()
{
    MAXN = sym_tier() ? 3 : 2;
    cut = false;
    switch ( sym_case() ) {
    case 0:
        sym_reach("scalars");
        switch ( sym_choose(19, "type") ) {
        case 0: one<bool>(); break;
        case 1: one<char>(); break;
        case 2: one<int8_t>(); break;
        case 3: one<uint8_t>(); break;
        case 4: one<int16_t>(); break;
        case 5: one<uint16_t>(); break;
        case 6: one<int32_t>(); break;
        case 7: one<uint32_t>(); break;
        case 8: one<int64_t>(); break;
        case 9: one<uint64_t>(); break;
        case 10: one<float>(); break;
        case 11: one<double>(); break;
        case 12: one<Color>(); break;
        case 13: one<Pod>(); break;
        case 14: one<wchar_t>(); break;
        case 15: { std::atomic<uint32_t> a { (uint32_t)sym_bits(32, "v") }, b { 0 }; rt(a, b, sym_flag("track")); SYM_ASSERT(a.load() == b.load(), "atomic survives"); break; }
        case 16: { double x, y; gen(x); gen(y); std::complex<double> a(x, y), b; rt(a, b, sym_flag("track")); SYM_ASSERT(!memcmp(&a, &b, sizeof a), "complex survives"); break; }
        case 17: { Pod* a = new Pod; gen(*a); Pod* b = nullptr; bool nul = sym_flag("nul"); if ( nul ) a = nullptr; b = (Pod*)&b; rt(a, b, sym_flag("track")); if ( nul ) SYM_ASSERT(b == nullptr, "a null pointer stays null"); else SYM_ASSERT(b != a && same(*a, *b), "pointed-to value survives"); break; }
        case 18: { int* a = new int; gen(*a); int* b = nullptr; rt(a, b, sym_flag("track")); SYM_ASSERT(b && b != a && *a == *b, "pointed-to value survives"); break; }
        }
        break;
    case 1:
        sym_reach("strings");
        MAXN = 3;
        switch ( sym_choose(4, "type") ) {
        case 0: val<std::string>(); break;
        case 1: MAXN = 2; one<std::vector<std::string>>(); break;
        case 2: { std::string* a = new std::string; gen(*a); std::string* b = nullptr; rt(a, b, sym_flag("track")); SYM_ASSERT(b && b != a && same(*a, *b), "string behind a pointer survives"); break; }
        case 3: { std::string a, b; gen(a); trip(false, [&](serializer& ser, bool o) { ser.string(o ? b : a); }); SYM_ASSERT(same(a, b), "string() survives"); break; }
        }
        break;
    case 2:
        sym_reach("seqs");
        switch ( sym_choose(9, "type") ) {
        case 0: val<std::vector<uint32_t>>(); break;
        case 1: val<std::deque<int64_t>>(); break;
        case 2: val<std::list<uint16_t>>(); break;
        case 3: val<std::forward_list<uint32_t>>("forward_list keeps order and values"); break;
        case 4: { std::vector<bool> a, b; int n = sym_choose(10, "n"); for ( int i = 0; i < n; i++ ) a.push_back(sym_bits(1, "bit")); b.assign(sym_choose(3, "old"), true); rt(a, b, sym_flag("track")); bool ok = a.size() == b.size(); for ( int i = 0; i < n && ok; i++ ) ok = a[i] == b[i]; SYM_ASSERT(ok, "vector<bool> survives"); break; }
        case 5: one<std::vector<std::vector<uint16_t>>>(); break;
        case 6: one<std::vector<std::list<std::string>>>(); break;
        case 7: one<std::deque<Own>>(); break;
        case 8: { std::vector<uint32_t>* a = new std::vector<uint32_t>; gen(*a); std::vector<uint32_t>* b = nullptr; rt(a, b, sym_flag("track")); SYM_ASSERT(b && same(*a, *b), "container behind a pointer survives"); break; }
        }
        break;
    case 3:
        sym_reach("assoc");
        switch ( sym_choose(7, "type") ) {
        case 0: val<std::set<uint32_t>>(); break;
        case 1: val<std::multiset<uint8_t>>(); break;
        case 2: val<std::map<uint32_t, uint64_t>>(); break;
        case 3: val<std::multimap<uint16_t, uint32_t>>(); break;
        case 4: one<std::map<std::string, std::vector<uint8_t>>>(); break;
        case 5: one<std::set<std::pair<uint8_t, uint8_t>>>(); break;
        case 6: one<std::map<int32_t, Own>>(); break;
        }
        break;
    case 4: {
        sym_reach("unordered");
        int n = sym_choose(3, "n"), which = sym_choose(4, "type"); bool track = sym_flag("track");
        uint32_t k[2] = { 3, 3 }; if ( sym_flag("diff") ) k[1] = 17;   // hash buckets of concrete keys
        uint32_t v[2]; v[0] = sym_bits(32, "v"); v[1] = sym_bits(32, "v");
        if ( which == 0 ) { std::unordered_set<uint32_t> a, b; for ( int i = 0; i < n; i++ ) a.insert(k[i]); b.insert(99); rt(a, b, track); SYM_ASSERT(a == b, "unordered_set survives"); }
        if ( which == 1 ) { std::unordered_multiset<uint32_t> a, b; for ( int i = 0; i < n; i++ ) a.insert(k[i]); b.insert(99); rt(a, b, track); SYM_ASSERT(a == b, "unordered_multiset survives"); }
        if ( which == 2 ) { std::unordered_map<uint32_t, uint32_t> a, b; for ( int i = 0; i < n; i++ ) a.insert({ k[i], v[i] }); b.insert({ 99, 1 }); rt(a, b, track); bool ok = a.size() == b.size(); for ( auto& x : a ) ok = ok && b.count(x.first) && b.at(x.first) == x.second; SYM_ASSERT(ok, "unordered_map survives"); }
        if ( which == 3 ) { std::unordered_multimap<uint32_t, uint32_t> a, b; for ( int i = 0; i < n; i++ ) a.insert({ k[i], v[i] }); b.insert({ 99, 1 }); rt(a, b, track); bool ok = a.size() == b.size(); for ( auto& x : a ) ok = ok && a.count(x.first) == b.count(x.first);
            bool perm = true; for ( int i = 0; i < n && ok; i++ ) { bool found = false; auto r = b.equal_range(k[i]); for ( auto it = r.first; it != r.second; ++it ) found |= it->second == v[i]; perm &= found; } SYM_ASSERT(ok && perm, "unordered_multimap survives"); }
        break;
    }
    case 5: {
        sym_reach("adapters");
        int n = sym_choose(MAXN + 1, "n"), which = sym_choose(3, "type"); bool track = sym_flag("track");
        std::vector<uint32_t> in; for ( int i = 0; i < n; i++ ) in.push_back(sym_bits(32, "v"));
        if ( which == 0 ) { std::stack<uint32_t> a, b; b.push(7); for ( auto x : in ) a.push(x); rt(a, b, track); SYM_ASSERT(a.size() == (size_t)n && b.size() == (size_t)n, "stack size survives"); while ( !a.empty() ) { SYM_ASSERT(a.top() == b.top(), "stack survives"); a.pop(); b.pop(); } }
        if ( which == 1 ) { std::queue<uint32_t> a, b; b.push(7); for ( auto x : in ) a.push(x); rt(a, b, track); SYM_ASSERT(b.size() == (size_t)n, "queue size survives"); while ( !a.empty() ) { SYM_ASSERT(a.front() == b.front(), "queue survives"); a.pop(); b.pop(); } }
        if ( which == 2 ) { std::priority_queue<uint32_t> a, b; b.push(7); for ( auto x : in ) a.push(x); rt(a, b, track); SYM_ASSERT(b.size() == (size_t)n, "priority_queue size survives"); while ( !a.empty() ) { SYM_ASSERT(a.top() == b.top(), "priority_queue survives"); a.pop(); b.pop(); } }
        break;
    }
    case 6:
        sym_reach("sums");
        switch ( sym_choose(9, "type") ) {
        case 0: one<std::pair<uint32_t, std::string>>(); break;
        case 1: one<std::tuple<uint8_t, uint64_t, std::string>>(); break;
        case 2: val<std::optional<uint32_t>>(); break;
        case 3: val<std::optional<std::string>>(); break;
        case 4: {
            std::variant<uint32_t, std::string, std::vector<uint8_t>> a, b; int w = sym_choose(3, "alt"); bool track = sym_flag("track");
            if ( w == 0 ) a = (uint32_t)sym_bits(32, "v"); if ( w == 1 ) { std::string s; gen(s); a = s; } if ( w == 2 ) { std::vector<uint8_t> s; gen(s); a = s; }
            int o = sym_choose(3, "old"); if ( o == 1 ) b = std::string("x"); if ( o == 2 ) b = std::vector<uint8_t> { 1 };
            rt(a, b, track); SYM_ASSERT(b.index() == (size_t)w, "variant keeps its alternative");
            if ( w == 0 ) SYM_ASSERT(std::get<0>(a) == std::get<0>(b), "variant survives"); if ( w == 1 ) SYM_ASSERT(same(std::get<1>(a), std::get<1>(b)), "variant survives"); if ( w == 2 ) SYM_ASSERT(same(std::get<2>(a), std::get<2>(b)), "variant survives");
            break;
        }
        case 5: { std::bitset<70> a, b; uint64_t lo = sym_bits(64, "v"); uint8_t hi = sym_bits(6, "v"); a = std::bitset<70>(hi) << 64 | std::bitset<70>(lo); b.set(); rt(a, b, sym_flag("track")); SYM_ASSERT(a == b, "bitset survives"); break; }
        case 6: { Agg a {}, b {}; gen(a); rt(a, b, sym_flag("track")); SYM_ASSERT(same(a, b), "aggregate survives"); break; }
        case 7: one<Own>(); break;
        case 8: one<std::vector<std::optional<std::pair<uint8_t, std::string>>>>(); break;
        }
        break;
    case 7:
        sym_reach("arrays");
        switch ( sym_choose(8, "type") ) {
        case 0: { uint32_t a[3], b[3] = {}; gen(a); rt(a, b, sym_flag("track")); SYM_ASSERT(same(a, b), "array survives"); break; }
        case 1: { std::string a[2], b[2]; gen(a); rt(a, b, sym_flag("track")); SYM_ASSERT(same(a, b), "array of strings survives"); break; }
        case 2: one<std::array<uint16_t, 3>>(); break;
        case 3: one<std::array<std::vector<uint8_t>, 2>>(); break;
        case 4: { int n = sym_choose(MAXN + 1, "n"); std::valarray<uint32_t> a(n), b(1); for ( int i = 0; i < n; i++ ) a[i] = sym_bits(32, "v"); rt(a, b, sym_flag("track")); SYM_ASSERT(b.size() == (size_t)n, "valarray size survives"); for ( int i = 0; i < n; i++ ) SYM_ASSERT(a[i] == b[i], "valarray survives"); break; }
        case 5: { size_t n = sym_choose(MAXN + 1, "n"), m = 77; uint32_t* a = new uint32_t[n + 1]; uint32_t* b = (uint32_t*)&n; for ( size_t i = 0; i < n; i++ ) a[i] = sym_bits(32, "v"); bool nul = sym_flag("nul"); if ( nul ) { a = nullptr; }
            trip(sym_flag("track"), [&](serializer& ser, bool o) { if ( o ) SST_SER(array(b, m)); else SST_SER(array(a, n)); });
            if ( nul || n == 0 ) SYM_ASSERT(m == 0 && b == nullptr, "an empty array comes back empty"); else { SYM_ASSERT(m == n && b != a, "array length survives"); for ( size_t i = 0; i < n; i++ ) SYM_ASSERT(a[i] == b[i], "dynamic array survives"); } break; }
        case 6: { uint8_t n = sym_choose(MAXN + 1, "n"), m = 77; std::string* a = new std::string[n + 1]; std::string* b = nullptr; for ( size_t i = 0; i < n; i++ ) gen(a[i]);
            trip(sym_flag("track"), [&](serializer& ser, bool o) { if ( o ) SST_SER(array(b, m)); else SST_SER(array(a, n)); });
            SYM_ASSERT(m == n, "array length survives"); for ( size_t i = 0; i < n; i++ ) SYM_ASSERT(same(a[i], b[i]), "dynamic array of strings survives"); break; }
        case 7: { int n = sym_choose(MAXN + 1, "n"), m = 77; char raw[3]; for ( char& c : raw ) c = sym_bits(8, "v"); void* a = raw; void* b = nullptr; int* rp = &n; int* rq = nullptr;
            trip(sym_flag("track"), [&](serializer& ser, bool o) { if ( o ) { SST_SER(buffer(b, m)); SST_SER(raw_ptr(rq)); } else { SST_SER(buffer(a, n)); SST_SER(raw_ptr(rp)); } });
            SYM_ASSERT(m == n && rp == rq && (n == 0 || !memcmp(a, b, n)), "buffer and raw pointer survive"); break; }
        }
        break;
    case 8: {   // truncated buffers
        cut = true; MAXN = 2;
        switch ( sym_choose(6, "type") ) {
        case 0: { Own a, b; gen(a); rt(a, b, sym_flag("track")); break; }
        case 1: { std::map<uint16_t, uint32_t> a, b; gen(a); rt(a, b, sym_flag("track")); break; }
        case 2: { std::vector<std::string> a, b; gen(a); rt(a, b, false); break; }
        case 3: { std::optional<std::pair<uint8_t, std::string>> a, b; gen(a); rt(a, b, true); break; }
        case 4: { Base* a = new DerA; a->id = sym_bits(32, "id"); Base* b = nullptr; rt(a, b, sym_flag("track")); break; }
        case 5: { std::vector<bool> a { true, false, true }, b; rt(a, b, false); break; }
        }
        break;
    }
    case 9: {   // arbitrary pointer graphs, tracked
        sym_reach("graph"); sym_reach("ptrs");
        Node n[3]; Node* t[4] = { nullptr, &n[0], &n[1], &n[2] };
        for ( int i = 0; i < 3; i++ ) { n[i].v = sym_bits(8, "v"); }
        for ( int i = 0; i < 3; i++ ) { n[i].l = t[sym_choose(4, "l")]; n[i].r = t[sym_choose(4, "r")]; if ( i == 1 && !sym_tier() ) { n[2].l = t[sym_choose(4, "l")]; break; } }
        bool asptr = sym_flag("asptr");
        if ( !asptr ) {
            Node* root = &n[0]; Node* out = nullptr; Node* also = t[sym_choose(4, "also")]; Node* out2 = nullptr;
            trip(true, [&](serializer& ser, bool o) { if ( o ) { SST_SER(out); SST_SER(out2); } else { SST_SER(root); SST_SER(also); } });
            // isomorphism: walk both graphs together
            std::vector<std::pair<Node*, Node*>> m;
            bool ok = true; size_t q = 0;
            auto meet = [&](Node* x, Node* y) { if ( !x || !y ) { ok &= !x && !y; return; } for ( auto& p : m ) { if ( p.first == x || p.second == y ) { ok &= p.first == x && p.second == y; return; } } m.push_back({ x, y }); };
            meet(root, out); meet(also, out2);
            while ( q < m.size() && ok ) { auto p = m[q++]; SYM_ASSERT(p.first->v == p.second->v, "node value survives"); meet(p.first->l, p.second->l); meet(p.first->r, p.second->r); }
            SYM_ASSERT(ok, "the pointer graph keeps its shape");
            for ( auto& p : m ) SYM_ASSERT(p.second != &n[0] && p.second != &n[1] && p.second != &n[2], "the copy is independent of the source");
        }
        else {
            Holder a, b; a.inner.v = sym_bits(8, "v"); a.p = sym_flag("in") ? &a.inner : t[sym_choose(4, "p")]; int k = sym_choose(2, "vn"); for ( int i = 0; i < k; i++ ) a.v.push_back(sym_flag("vi") ? &a.inner : &n[i]);
            a.inner.l = sym_flag("self") ? &a.inner : nullptr; for ( int i = 0; i < 3; i++ ) n[i].l = n[i].r = nullptr;
            trip(true, [&](serializer& ser, bool o) { Holder& h = o ? b : a; SST_SER(h.inner, SerOption::as_ptr); SST_SER(h.p); SST_SER(h.v); });
            SYM_ASSERT(b.inner.v == a.inner.v, "embedded object survives");
            SYM_ASSERT((a.p == &a.inner) == (b.p == &b.inner) && (a.p == nullptr) == (b.p == nullptr), "pointer to an embedded object keeps its target");
            SYM_ASSERT((a.inner.l == &a.inner) == (b.inner.l == &b.inner), "self pointer keeps its target");
            SYM_ASSERT(b.v.size() == a.v.size(), "size survives");
            for ( size_t i = 0; i < a.v.size(); i++ ) { SYM_ASSERT((a.v[i] == &a.inner) == (b.v[i] == &b.inner) && a.v[i]->v == b.v[i]->v, "pointer element keeps its target"); SYM_ASSERT((a.v[i] == a.p) == (b.v[i] == b.p), "aliases stay aliases"); }
        }
        break;
    }
    case 10: {  // polymorphic objects
        sym_reach("poly");
        bool track = sym_flag("track");
        auto mk = [&]() -> Base* { int k = sym_choose(4, "kind"); if ( k == 3 ) return nullptr; Base* x = k == 0 ? new Base : k == 1 ? (Base*)new DerA : (Base*)new DerB; x->id = sym_bits(32, "id"); if ( k == 1 ) ((DerA*)x)->extra = sym_bits(64, "e"); if ( k == 2 ) { gen(((DerB*)x)->name); if ( track && sym_flag("self") ) ((DerB*)x)->self = x; } return x; };
        auto chk = [&](Base* x, Base* y) { if ( !x ) { SYM_ASSERT(y == nullptr, "null stays null"); return; } SYM_ASSERT(y && y != x && typeid(*x) == typeid(*y) && x->kind() == y->kind() && x->cls_id() == y->cls_id(), "the dynamic type survives"); SYM_ASSERT(x->id == y->id, "base part survives");
            if ( x->kind() == 1 ) SYM_ASSERT(((DerA*)x)->extra == ((DerA*)y)->extra, "derived part survives"); if ( x->kind() == 2 ) { SYM_ASSERT(same(((DerB*)x)->name, ((DerB*)y)->name), "derived part survives"); SYM_ASSERT((((DerB*)x)->self == x) == (((DerB*)y)->self == y), "pointer to itself survives"); } };
        Base* a = mk(); Base* c = mk(); Base* b = (Base*)&a; Base* d = (Base*)&a;
        bool alias = sym_flag("alias"); if ( alias ) c = a;
        if ( a && !alias && sym_flag("link") ) a->other = c;
        if ( track && c && !alias && sym_flag("cycle") ) c->other = a;
        trip(track, [&](serializer& ser, bool o) { if ( o ) { SST_SER(b); SST_SER(d); } else { SST_SER(a); SST_SER(c); } });
        chk(a, b); chk(c, d);
        if ( track && a && c ) SYM_ASSERT((a == c) == (b == d), "aliases stay aliases");
        if ( a && b ) { SYM_ASSERT((a->other == nullptr) == (b->other == nullptr), "null link stays null"); if ( a->other ) { chk(a->other, b->other); if ( track ) SYM_ASSERT((a->other == c) == (b->other == d), "links keep their target"); } }
        if ( track && c && c->other && a ) SYM_ASSERT((c->other == a) == (d->other == b), "cycles are kept");
        break;
    }
    case 11: {  // smart pointers
        sym_reach("smart");
        bool track = sym_flag("track");
        if ( sym_flag("uniq") ) {
            std::unique_ptr<Own> a, b; bool has = sym_flag("has"); if ( has ) { a = std::make_unique<Own>(); MAXN = 1; gen(*a); } if ( sym_flag("old") ) b = std::make_unique<Own>();
            rt(a, b, track); SYM_ASSERT(!!a == !!b && (!a || (a != b && same(*a, *b))), "unique_ptr survives");
            break;
        }
        std::shared_ptr<Pair2> o[2] = { std::make_shared<Pair2>(), std::make_shared<Pair2>() };
        for ( auto& x : o ) { x->first = sym_bits(32, "f"); x->second = sym_bits(16, "s"); }
        std::shared_ptr<Pair2> a[3], b[3]; std::weak_ptr<Pair2> w, v;
        int c[4];
        for ( int i = 0; i < 3; i++ ) { c[i] = sym_choose(3, "own"); if ( c[i] < 2 ) a[i] = o[c[i]]; }
        c[3] = sym_choose(3, "weak"); if ( c[3] < 2 ) w = o[c[3]];
        bool weakFirst = sym_flag("weakfirst");
        trip(track, [&](serializer& ser, bool q) {
            auto* p = q ? b : a; auto& ww = q ? v : w;
            if ( weakFirst ) SST_SER(ww);
            SST_SER(p[0]); SST_SER(p[1]); SST_SER(p[2]);
            if ( !weakFirst ) SST_SER(ww);
        });
        for ( int i = 0; i < 3; i++ ) {
            if ( c[i] == 2 ) { SYM_ASSERT(!b[i], "empty shared_ptr stays empty"); continue; }
            SYM_ASSERT(b[i] && b[i] != a[i] && b[i]->first == a[i]->first && b[i]->second == a[i]->second, "shared object survives");
            for ( int j = 0; j < i; j++ ) if ( c[j] < 2 ) SYM_ASSERT((c[i] == c[j]) == (b[i] == b[j]) && (c[i] == c[j]) == (!b[i].owner_before(b[j]) && !b[j].owner_before(b[i])), "sharing is kept");
            int uses = 0; for ( int j = 0; j < 3; j++ ) uses += c[j] == c[i];
            (void)uses;
            if ( c[3] < 2 ) SYM_ASSERT((c[3] == c[i]) == (!v.owner_before(b[i]) && !b[i].owner_before(v)), "weak_ptr observes the same owner");
        }
        break;
    }
    }
    return 0;
}
