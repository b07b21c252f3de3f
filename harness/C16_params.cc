// Parameters are looked up, scoped, copied, parsed and restored faithfully.
// @cases 13
// @sources params.cc serialization/serializer.cc serialization/serializable.cc serialization/serializable_base.cc serialization/statics.cc serialization/objectMap.cc serialization/impl/unpacker.cc serialization/impl/ser_shared_ptr_tracker.cc
// @stubs output_stub
// @flags -fno-inline
// @reach history array set map anystring numbers scoped distribute checkpoint verify
// @bounds histories of up to 2 operations (thorough 3), from nothing and from two filled shared sets of which one object has both, over 4 keys, 2 shared sets and 2 instances; lists, sets and maps of up to 2 elements of 2 arbitrary printable characters each (thorough 3), written as Python prints them, with optional whitespace; any string of up to 4 bytes (thorough 5) parsed as any of them
// @assume strings in lists contain no backslash and only printable characters (Python escapes others)
// @outside the conversion of single values (C27), concurrent use
#include "sym.h"
#include "sst_config.h"
#include "sst/core/params.h"
#include "sst/core/serialization/serializer.h"
#include "sst/core/serialization/serialize.h"
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using namespace SST;
using Core::Serialization::serializer;
namespace {
const char* KEYS[4] = { "a", "s.a", "s.b", "s.t.a" };
const char* VALS[8] = { "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7" };
struct Model { std::map<std::string, std::string> loc; std::vector<int> sets; };
std::map<std::string, std::string> shared[2];
const char* SETS[2] = { "set0", "set1" };
bool look(const Model& m, const std::string& k, std::string& v)
{
    auto i = m.loc.find(k); if ( i != m.loc.end() ) { v = i->second; return true; }
    for ( int s : m.sets ) { auto j = shared[s].find(k); if ( j != shared[s].end() ) { v = j->second; return true; } }
    return false;
}
void same(const Params& p, const Model& m)
{
    std::set<std::string> keys;
    for ( const char* k : KEYS ) {
        std::string want, none = "none"; bool there = look(m, k, want), found;
        SYM_ASSERT(p.contains(k) == there && p.count(k) == (there ? 1u : 0u), "a parameter is contained exactly if it is set locally or in a subscribed set");
        std::string got = p.find<std::string>(k, none, found);
        SYM_ASSERT(found == there, "finding a parameter reports whether it is set");
        SYM_ASSERT(got == (there ? want : none), "the local value comes before the sets, the sets in order, the default last");
        if ( there ) keys.insert(k);
    }
    SYM_ASSERT(p.getKeys() == keys, "the keys are those that are set");
    SYM_ASSERT(p.size() == keys.size() && p.empty() == keys.empty(), "the size is the number of keys");
}
Model scopeOf(const Model& m, const std::string& scope)
{
    Model r;
    for ( const char* k : KEYS ) { std::string v, ks = k; if ( ks.compare(0, scope.size() + 1, scope + ".") == 0 && look(m, ks, v) ) r.loc[ks.substr(scope.size() + 1)] = v; }
    return r;
}
void sameScoped(const Params& p, const Model& m)
{
    SYM_ASSERT(p.size() == m.loc.size(), "the scope has the parameters with its prefix only");
    for ( auto& kv : m.loc ) { bool f; SYM_ASSERT(p.find<std::string>(kv.first, std::string("none"), f) == kv.second && f, "a scoped parameter has the value it has unscoped"); }
}
void again(Params& x, Params& y, bool tracking)
{
    serializer ser;
    if ( tracking ) ser.enable_pointer_tracking();
    ser.start_sizing(); SST_SER(x); size_t n = ser.size();
    char* buf = (char*)malloc(n + 1);
    ser.start_packing(buf, n); SST_SER(x);
    ser.start_unpacking(buf, n); SST_SER(y);
}
void history(int nops, bool setup, int first)
{
    Params* p[2] = { new Params(), new Params() }; Model m[2];
    if ( setup ) { // two filled sets, one object with both and a local value
        for ( int t = 0; t < 2; t++ ) for ( int k = 0; k < 3; k++ ) if ( k != 2 * t ) { const char* v = t ? "w1" : "w0"; Params::insert_shared(SETS[t], KEYS[k], v); shared[t][KEYS[k]] = v; }
        p[0]->addSharedParamSet(SETS[1]); m[0].sets.push_back(1); p[0]->addSharedParamSet(SETS[0]); m[0].sets.push_back(0);
        p[0]->insert(KEYS[2], "l"); m[0].loc[KEYS[2]] = "l"; p[1]->insert(KEYS[1], "m"); m[1].loc[KEYS[1]] = "m";
    }
    for ( int s = 0; s < nops; s++ ) {
        int i = s || setup ? sym_choose(2, "which") : 0; std::string v = VALS[s];
        switch ( s == 0 && first >= 0 ? 4 * first + sym_choose(4, "op") : sym_choose(8, "op") ) {
        case 0: { int k = sym_choose(4, "key"); bool ow = sym_choose(2, "overwrite"); p[i]->insert(KEYS[k], v, ow); if ( ow ) m[i].loc[KEYS[k]] = v; else m[i].loc.insert({ KEYS[k], v }); break; }
        case 1: { int k = sym_choose(4, "key"), t = sym_choose(2, "set"); bool ow = sym_choose(2, "overwrite"); Params::insert_shared(SETS[t], KEYS[k], v, ow); if ( ow ) shared[t][KEYS[k]] = v; else shared[t].insert({ KEYS[k], v }); break; }
        case 2: { int t = sym_choose(2, "set"); p[i]->addSharedParamSet(SETS[t]); m[i].sets.push_back(t); break; }
        case 3: { p[i]->insert(*p[1 - i]); for ( auto& kv : m[1 - i].loc ) m[i].loc.insert(kv); for ( int t : m[1 - i].sets ) { bool have = false; for ( int u : m[i].sets ) have = have || u == t; if ( !have ) m[i].sets.push_back(t); } break; }
        case 4: { Params* q = new Params(*p[1 - i]); delete p[i]; p[i] = q; m[i] = m[1 - i]; break; }
        case 5: { *p[i] = *p[1 - i]; m[i] = m[1 - i]; break; }
        case 6: { p[i]->clear(); m[i] = Model(); break; }
        case 7: { // both ways of being serialised
            bool cpt = sym_choose(2, "checkpoint"); Params* q = new Params(); again(*p[i], *q, cpt);
            if ( cpt ) { Model f; for ( const char* k : KEYS ) { std::string w; if ( look(m[i], k, w) ) f.loc[k] = w; } m[i] = f; sym_reach("checkpoint"); } else sym_reach("distribute");
            delete p[i]; p[i] = q; break; }
        }
    }
    for ( int i = 0; i < 2; i++ ) {
        same(*p[i], m[i]);
        sameScoped(p[i]->get_scoped_params("s"), scopeOf(m[i], "s")); sameScoped(p[i]->get_scoped_params("s.t"), scopeOf(m[i], "s.t")); sameScoped(p[i]->get_scoped_params("a"), scopeOf(m[i], "a"));
        std::vector<std::string> sub = p[i]->getSubscribedSharedParamSets();
        SYM_ASSERT(sub.size() == m[i].sets.size(), "the subscribed sets are known"); for ( size_t j = 0; j < sub.size(); j++ ) SYM_ASSERT(sub[j] == SETS[m[i].sets[j]], "the subscribed sets are known in order");
        SYM_ASSERT(p[i]->getLocalKeys().size() == m[i].loc.size(), "the local keys are those set locally");
    }
}
int LEN;
std::string text(const char* n) // printable characters, no backslash
{
    std::string s; int k = 1 + sym_choose(LEN, n);
    for ( int i = 0; i < k; i++ ) { char c = (char)sym_u8(n); sym_assume(c >= 0x20 && c < 0x7f && c != '\\'); s.push_back(c); }
    return s;
}
std::string repr(const std::string& s)
{
    bool sq = false, dq = false; for ( char c : s ) { if ( c == '\'' ) sq = true; if ( c == '"' ) dq = true; }
    char q = sq && !dq ? '"' : '\''; std::string r(1, q);
    for ( char c : s ) { if ( c == q ) r.push_back('\\'); r.push_back(c); }
    r.push_back(q); return r;
}
const char* sp() { static const char* W[] = { "", " ", "\t" }; return W[sym_choose(3, "space")]; }
void list(int kind) // 0 array, 1 set, 2 map
{
    int n = kind == 2 ? sym_choose(2, "n") : sym_choose(3, "n"); std::vector<std::string> e, k; std::string s = kind ? "{" : "[";
    for ( int i = 0; i < n; i++ ) {
        e.push_back(text("e")); if ( kind == 2 ) k.push_back(text("k"));
        if ( i ) s += ","; s += sp(); if ( kind == 2 ) { s += repr(k[i]); s += ":"; s += " "; } s += repr(e[i]); s += sp();
    }
    s += kind ? "}" : "]";
    Params p; p.insert("x", s);
    if ( kind == 0 ) {
        std::vector<std::string> v; p.find_array("x", v); SYM_ASSERT(v == e, "an array has the elements it was written with"); SYM_ASSERT(p.is_value_array("x"), "an array is recognised");
        sym_reach("array");
    } else if ( kind == 1 ) { std::set<std::string> v, w(e.begin(), e.end()); p.find_set("x", v); SYM_ASSERT(v == w, "a set has the elements it was written with"); sym_reach("set"); }
    else { std::map<std::string, std::string> v, w; for ( int i = 0; i < n; i++ ) w[k[i]] = e[i]; p.find_map("x", v); SYM_ASSERT(v == w, "a map has the entries it was written with"); sym_reach("map"); }
}
void numbers()
{
    int n = sym_choose(sym_tier() ? 4 : 3, "n"); std::string s = "["; std::vector<int> want;
    for ( int i = 0; i < n; i++ ) { unsigned d = sym_u8("digit"); sym_assume(d < 10); bool neg = sym_choose(2, "negative"); want.push_back(neg ? -(int)d : (int)d); if ( i ) s += ","; s += sp(); if ( neg ) s += "-"; s.push_back('0' + d); s += sp(); }
    s += "]";
    Params p; p.insert("x", s); std::vector<int> v; p.find_array("x", v);
    SYM_ASSERT(v.size() == want.size(), "all numbers are found");
    for ( int i = 0; i < n; i++ ) SYM_ASSERT(v[i] == want[i], "a list of numbers has the numbers it was written with");
    if ( n == 1 ) { Params q; std::string one(1, s[1 + (s[1] == ' ' || s[1] == '\t')]); if ( one != "-" ) { q.insert("x", one); std::vector<int> w; q.find_array("x", w); SYM_ASSERT(w.size() == 1 && w[0] == want[0], "a single value is an array of one"); SYM_ASSERT(!q.is_value_array("x"), "a single value is not an array"); } }
    std::vector<int> none; p.find_array("y", none); SYM_ASSERT(none.empty(), "a parameter that is not set leaves the array as it is");
}
void anystring(int kind)
{
    int n = sym_choose(sym_tier() ? 6 : 5, "len"); std::string s;
    for ( int i = 0; i < n; i++ ) { char c = (char)sym_u8("c"); sym_assume(c != 0); s.push_back(c); }
    s = (kind ? "{" : "[") + s + (kind ? "}" : "]");
    Params p; p.insert("x", s);
    try {
        if ( kind == 0 ) { std::vector<std::string> v; p.find_array("x", v); }
        else if ( kind == 1 ) { std::set<std::string> v; p.find_set("x", v); }
        else { std::map<std::string, std::string> v; p.find_map("x", v); }
    } catch ( const std::invalid_argument& ) {}
    sym_reach("anystring");
}
} // namespace
extern "C" int harness_main()
{
    int c = sym_case(); LEN = sym_tier() ? 3 : 2;
    switch ( c ) {
    case 0: history(1, false, -1); sym_reach("history"); break;
    case 1: history(sym_tier() ? 3 : 2, false, -1); sym_reach("history"); break;
    case 2: case 12: history(sym_tier() ? 3 : 2, true, c == 12); sym_reach("history"); break;
    case 3: case 4: case 5: list(c - 3); break;
    case 6: numbers(); sym_reach("numbers"); break;
    case 7: case 8: case 9: anystring(c - 7); break;
    case 10: { // a shared set and a local value below one scope
        Params p; bool loc = sym_choose(2, "local"), first = sym_choose(2, "first");
        if ( first ) p.addSharedParamSet("set0"); Params::insert_shared("set0", "s.a", "1"); Params::insert_shared("set1", "s.a", "2"); p.addSharedParamSet("set1"); if ( !first ) p.addSharedParamSet("set0");
        if ( loc ) p.insert("s.a", "0");
        SYM_ASSERT(p.get_scoped_params("s").find<std::string>("a", std::string("none")) == p.find<std::string>("s.a", std::string("none")), "a scoped parameter has the value it has unscoped");
        sym_reach("scoped"); break; }
    case 11: { // scoping and copying keep what keys are allowed; verification can be switched off
        Params p; p.pushAllowedKeys({ "a", "s.a" }); bool off = sym_choose(2, "off"); bool old = p.enableVerify(!off); SYM_ASSERT(old, "verification is on by default");
        Params q = p.get_scoped_params("s"), r(p), t; t = p;
        SYM_ASSERT(q.verify_enabled == !off && r.verify_enabled == !off && t.verify_enabled == !off, "copies verify as the original does");
        SYM_ASSERT(q.allowedKeys.size() == 1 && r.allowedKeys.size() == 1 && t.allowedKeys.size() == 1 && r.allowedKeys[0].count("s.a"), "copies allow the keys the original does");
        p.popAllowedKeys(); SYM_ASSERT(p.allowedKeys.empty(), "the last set of keys is removed");
        sym_reach("verify"); break; }
    }
    return 0;
}
