// Handlers survive a checkpoint with their target, their data and the tools that can be saved, in order and with their keys.
// @cases 4
// @sources event.cc serialization/serializer.cc serialization/serializable.cc serialization/serializable_base.cc serialization/statics.cc serialization/objectMap.cc serialization/impl/unpacker.cc serialization/impl/ser_shared_ptr_tracker.cc
// @stubs output_stub
// @reach monitor intercept dropped shared cancelled
// @bounds all four handler shapes; up to 3 tools attached in any order (4 thorough), each savable or not, the same tool on two handlers; arbitrary 32-bit arguments and data
#include "simfix.h"
#include "sst/core/ssthandler.h"
#include "sst/core/serialization/serializer.h"
#include <vector>
using namespace SST;
namespace {
struct MD : public AttachPointMetaData { int v; MD(int x) : v(x) {} };
std::vector<uint64_t> tr; size_t pos;
void rec(uint64_t kind, uint64_t key, uint64_t x) { tr.push_back(kind); tr.push_back(key); tr.push_back(x); }
void expect(uint64_t kind, uint64_t key, uint64_t x) { SYM_ASSERT(pos + 3 <= tr.size(), "expected call missing"); SYM_ASSERT(tr[pos] == kind && tr[pos + 1] == key, "wrong order of handler, monitors and intercepts after a restart"); SYM_ASSERT(tr[pos + 2] == x, "wrong data seen by handler or tool after a restart"); pos += 3; }
void finish() { SYM_ASSERT(pos == tr.size(), "unexpected extra call after a restart"); tr.clear(); pos = 0; }
using Ser = SST::Core::Serialization::serializer;
template <class B> struct Mon;
struct Cnt { uint32_t v = 0; };
template <class R, class A> struct MonBase : public SSTHandlerBase<R, A>::AttachPoint {
    uint32_t id = 0;
    uintptr_t registerHandler(const AttachPointMetaData& m) override { return 1000 * id + ((const MD&)m).v; }
    void afterHandler(uintptr_t k, const R& r) override { rec(3, k, r); }
    void serializeHandlerAttachPointKey(Ser& ser, uintptr_t& k) override { SST_SER(k); }
};
template <class A> struct MonBase<void, A> : public SSTHandlerBase<void, A>::AttachPoint {
    uint32_t id = 0;
    uintptr_t registerHandler(const AttachPointMetaData& m) override { return 1000 * id + ((const MD&)m).v; }
    void afterHandler(uintptr_t k) override { rec(3, k, 0); }
    void serializeHandlerAttachPointKey(Ser& ser, uintptr_t& k) override { SST_SER(k); }
};
struct M0 : public MonBase<void, uint32_t>, public SSTHandlerBase<void, uint32_t>::InterceptPoint {
    uint32_t add = 0; bool stop = false;
    void beforeHandler(uintptr_t k, const uint32_t& a) override { rec(1, k, a); }
    uintptr_t registerHandlerIntercept(const AttachPointMetaData& m) override { return 500 + 1000 * id + ((const MD&)m).v; }
    void interceptHandler(uintptr_t k, uint32_t& d, bool& c) override { rec(4, k, d); d += add; if ( stop ) c = true; }
    void serializeHandlerInterceptPointKey(Ser& ser, uintptr_t& k) override { SST_SER(k); }
};
struct M1 : public MonBase<uint32_t, uint32_t> { void beforeHandler(uintptr_t k, const uint32_t& a) override { rec(1, k, a); } };
struct M2 : public MonBase<void, void> { void beforeHandler(uintptr_t k) override { rec(1, k, 0); } };
struct M3 : public MonBase<uint32_t, void> { void beforeHandler(uintptr_t k) override { rec(1, k, 0); } };
#define SAVED(N) struct S##N : public M##N, public SST::Core::Serialization::serializable { void serialize_order(Ser& ser) override { SST_SER(id); more(ser); } ImplementSerializable(S##N)
SAVED(0) public: void more(Ser& ser) { SST_SER(add); SST_SER(stop); } };
SAVED(1) public: void more(Ser&) {} };
SAVED(2) public: void more(Ser&) {} };
SAVED(3) public: void more(Ser&) {} };
struct Comp : public SST::Core::Serialization::serializable {
    uint32_t who = 0;
    void     va(uint32_t x, uint32_t d) { rec(2, who, x ^ d); } void van(uint32_t x) { rec(2, who, x); }
    uint32_t ra(uint32_t x, uint32_t d) { rec(2, who, x ^ d); return x + who; } uint32_t ran(uint32_t x) { rec(2, who, x); return x + who; }
    void     vv(uint32_t d) { rec(2, who, d); } void vvn() { rec(2, who, 0); }
    uint32_t rv(uint32_t d) { rec(2, who, d); return who + 1; } uint32_t rvn() { rec(2, who, 0); return who + 1; }
    void serialize_order(Ser& ser) override { SST_SER(who); }
    ImplementSerializable(Comp)
};
template <class B> struct Pack {
    std::vector<B*> hs;
    std::vector<char> buf;
    void save(std::vector<B*>& h)
    {
        Ser ser; ser.enable_pointer_tracking(); ser.start_sizing(); SST_SER(h); size_t n = ser.size(); buf.resize(n);
        ser.start_packing(buf.data(), n); SST_SER(h);
    }
    void load(std::vector<B*>& h) { Ser ser; ser.enable_pointer_tracking(); ser.start_unpacking(buf.data(), buf.size()); SST_SER(h); }
};
struct Att { uint64_t key; bool saved; int tool; };
template <class B, class S, class T, class Call> void run(B* h1, B* h2, uint32_t who1, uint32_t who2, uint32_t data1, Call call, bool hasArg, bool hasRet)
{
    std::vector<S*> sv; std::vector<T*> un;
    for ( int i = 0; i < 2; i++ ) { sv.push_back(new S()); sv.back()->id = 1 + i; un.push_back(new T()); un.back()->id = 5 + i; }
    uint32_t add = 0; bool stop = false;
    if constexpr ( std::is_same_v<S, S0> ) { add = sym_u32("add"); stop = sym_choose(2, "stop"); sv[0]->add = add; sv[1]->stop = stop; }
    std::vector<Att> mon, icp;
    int n = (int)sym_choose(sym_tier() ? 5 : 4, "tools");
    for ( int s = 0; s < n; s++ ) {
        int k = (int)sym_choose(3, "tool"); bool saved = k < 2;
        bool ic = false;
        if constexpr ( std::is_same_v<S, S0> ) {
            ic = sym_choose(2, "how");
            if ( ic ) { if ( saved ) h1->attachInterceptTool(sv[k], MD(s)); else h1->attachInterceptTool(un[0], MD(s)); icp.push_back({ 500 + 1000ull * (saved ? 1 + k : 5) + s, saved, k }); }
        }
        if ( !ic ) { if ( saved ) h1->attachTool(sv[k], MD(s)); else h1->attachTool(un[0], MD(s)); mon.push_back({ 1000ull * (saved ? 1 + k : 5) + s, saved, k }); }
        if ( !saved ) sym_reach("dropped");
        (ic ? (void)sym_reach("intercept") : (void)sym_reach("monitor"));
    }
    bool both = sym_choose(2, "both"); // the first savable tool also watches the second handler
    if ( both ) { h2->attachTool(sv[0], MD(77)); sym_reach("shared"); }
    std::vector<B*> h { h1, h2 }, g;
    Pack<B> p; p.save(h); p.load(g);
    SYM_ASSERT(g.size() == 2 && g[0] && g[1] && g[0] != h1, "every handler is restored");
    if ( both ) { sv[0]->id = 9; } // the restored tools are their own
    uint32_t a = sym_u32("arg");
    for ( int again = 0; again < 2; again++ ) { // the first handler with its tools, on its own target and data
        uint32_t r = call(g[0], a);
        uint32_t cur = hasArg ? a : 0; bool cancel = false;
        for ( auto& m : mon ) if ( m.saved ) expect(1, m.key, hasArg ? a : 0);
        for ( auto& m : icp ) if ( m.saved ) { expect(4, m.key, cur); if ( m.tool == 0 ) cur += add; else if ( stop ) { cancel = true; sym_reach("cancelled"); break; } }
        if ( !cancel ) expect(2, who1, cur ^ data1);
        uint32_t want = hasRet ? (hasArg ? a + who1 : who1 + 1) : 0;
        for ( auto& m : mon ) if ( m.saved ) expect(3, m.key, want);
        SYM_ASSERT(r == want, "the result is kept");
        finish();
    }
    call(g[1], a);
    if ( both ) expect(1, 1000 + 77, hasArg ? a : 0);
    expect(2, who2, hasArg ? a : 0);
    if ( both ) expect(3, 1000 + 77, hasRet ? (hasArg ? a + who2 : who2 + 1) : 0);
    finish();
    call(h1, a); tr.clear(); // the original still works
}
} // namespace
extern "C" int harness_main()
{
    int c = sym_case();
    Comp* c1 = new Comp(); Comp* c2 = new Comp();
    c1->who = 11; c2->who = 22;
    uint32_t d = sym_u32("data");
    if ( c == 0 ) {
        using B = SSTHandlerBase<void, uint32_t>;
        run<B, S0, M0>(new SSTHandler<void, uint32_t, Comp, uint32_t, &Comp::va, B>(c1, d), new SSTHandler<void, uint32_t, Comp, void, &Comp::van, B>(c2), 11, 22, d, [](B* h, uint32_t a) -> uint32_t { (*h)(a); return 0; }, true, false);
    }
    if ( c == 1 ) {
        using B = SSTHandlerBase<uint32_t, uint32_t>;
        run<B, S1, M1>(new SSTHandler<uint32_t, uint32_t, Comp, uint32_t, &Comp::ra, B>(c1, d), new SSTHandler<uint32_t, uint32_t, Comp, void, &Comp::ran, B>(c2), 11, 22, d, [](B* h, uint32_t a) -> uint32_t { return (*h)(a); }, true, true);
    }
    if ( c == 2 ) {
        using B = SSTHandlerBase<void, void>;
        run<B, S2, M2>(new SSTHandler<void, void, Comp, uint32_t, &Comp::vv, B>(c1, d), new SSTHandler<void, void, Comp, void, &Comp::vvn, B>(c2), 11, 22, d, [](B* h, uint32_t) -> uint32_t { (*h)(); return 0; }, false, false);
    }
    if ( c == 3 ) {
        using B = SSTHandlerBase<uint32_t, void>;
        run<B, S3, M3>(new SSTHandler<uint32_t, void, Comp, uint32_t, &Comp::rv, B>(c1, d), new SSTHandler<uint32_t, void, Comp, void, &Comp::rvn, B>(c2), 11, 22, d, [](B* h, uint32_t) -> uint32_t { return (*h)(); }, false, true);
    }
    return 0;
}
