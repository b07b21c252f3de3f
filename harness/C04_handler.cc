// Handlers with attached tools: every tool sees before/after around the call, intercepts may change or cancel the data, in attach order.
// @cases 5
// @sources event.cc
// @reach called cancelled detached transferred
// @bounds up to 3 monitoring and 3 intercepting tools per handler (2 in quick), any attach/detach sequence of 4 steps (quick; 6 thorough), each tool behaviour arbitrary, argument values arbitrary 32-bit, two consecutive calls; all four handler shapes (void/value return, with/without argument), with and without user data
#include "sst_config.h"
#include "sym.h"
#include "sst/core/ssthandler.h"
#include <vector>
using namespace SST;
namespace {
struct MD : public AttachPointMetaData { int v; MD(int x) : v(x) {} };
std::vector<uint64_t> tr;      // trace of calls
int regs;
template <typename H> struct Tool;
void rec(int kind, uintptr_t key, uint64_t x) { tr.push_back(kind); tr.push_back(key); tr.push_back(x); }
using VA = SSTHandlerBase<void, int*>; using RA = SSTHandlerBase<uint32_t, uint32_t>; using VV = SSTHandlerBase<void, void>; using RV = SSTHandlerBase<uint32_t, void>;
struct TVA : public VA::AttachPoint, public VA::InterceptPoint {
    int id; int mode; uint32_t nv;
    uintptr_t registerHandler(const AttachPointMetaData& m) override { return 100 + id * 10 + ((const MD&)m).v; }
    uintptr_t registerHandlerIntercept(const AttachPointMetaData& m) override { return 200 + id * 10 + ((const MD&)m).v; }
    void beforeHandler(uintptr_t k, const int* a) override { rec(1, k, *a); }
    void afterHandler(uintptr_t k) override { rec(3, k, 0); }
    void interceptHandler(uintptr_t k, int*& d, bool& cancel) override { rec(4, k, *d); if ( mode == 1 ) *d = nv; if ( mode == 2 ) { cancel = true; } if ( mode == 3 ) d = new int(nv); }
};
struct TRA : public RA::AttachPoint { int id;
    uintptr_t registerHandler(const AttachPointMetaData& m) override { return 100 + id * 10 + ((const MD&)m).v; }
    void beforeHandler(uintptr_t k, const uint32_t& a) override { rec(1, k, a); }
    void afterHandler(uintptr_t k, const uint32_t& r) override { rec(3, k, r); } };
struct TVV : public VV::AttachPoint { int id;
    uintptr_t registerHandler(const AttachPointMetaData& m) override { return 100 + id * 10 + ((const MD&)m).v; }
    void beforeHandler(uintptr_t k) override { rec(1, k, 0); }
    void afterHandler(uintptr_t k) override { rec(3, k, 0); } };
struct TRV : public RV::AttachPoint { int id;
    uintptr_t registerHandler(const AttachPointMetaData& m) override { return 100 + id * 10 + ((const MD&)m).v; }
    void beforeHandler(uintptr_t k) override { rec(1, k, 0); }
    void afterHandler(uintptr_t k, const uint32_t& r) override { rec(3, k, r); } };
uint32_t retv;
struct Comp {
    void va(int* p) { rec(2, 0, *p); } void vad(int* p, int d) { rec(2, d, *p); }
    uint32_t ra(uint32_t a) { rec(2, 0, a); return a ^ retv; } uint32_t rad(uint32_t a, int d) { rec(2, d, a); return a ^ retv; }
    void vv() { rec(2, 0, 0); } void vvd(int d) { rec(2, d, 0); }
    uint32_t rv() { rec(2, 0, 0); return retv; } uint32_t rvd(int d) { rec(2, d, 0); return retv; }
    void serialize_order(SST::Core::Serialization::serializer&) {}
} comp;
size_t pos;
void expect(int kind, uint64_t key, uint64_t x) { SYM_ASSERT(pos + 3 <= tr.size(), "expected call missing"); SYM_ASSERT(tr[pos] == (uint64_t)kind && tr[pos + 1] == key, "wrong order of handler, monitors and intercepts"); SYM_ASSERT(tr[pos + 2] == x, "wrong data seen by handler or tool"); pos += 3; }
void finish() { SYM_ASSERT(pos == tr.size(), "unexpected extra call"); tr.clear(); pos = 0; }
template <class B, class T> void plan(B* h, std::vector<T>& tools, std::vector<std::pair<int, int>>& at) {
    int steps = sym_tier() ? 6 : 4;
    for ( int s = 0; s < steps; s++ ) {
        int op = sym_choose(3, "op");
        if ( op == 2 ) break;
        int i = sym_choose(tools.size(), "tool");
        if ( op == 0 ) { h->attachTool(&tools[i], MD(s)); at.push_back({ i, s }); }
        else { h->detachTool(&tools[i]); for ( size_t k = 0; k < at.size(); k++ ) if ( at[k].first == i ) { at.erase(at.begin() + k); sym_reach("detached"); break; } }
    }
}
}
extern "C" int harness_main() {
    int c = sym_case();
    int nt = sym_tier() ? 3 : 2;
    retv = sym_u32("ret");
    bool data = sym_flag("data");
    std::vector<std::pair<int, int>> at, it;
    bool xfer = sym_flag("transfer");
    uint32_t a[2] = { sym_u32("a0"), sym_u32("a1") };
    if ( c == 0 || c == 4 ) {
        VA* h = data ? (VA*)new SSTHandler<void, int*, Comp, int, &Comp::vad, VA>(&comp, 7) : (VA*)new SSTHandler<void, int*, Comp, void, &Comp::va, VA>(&comp);
        std::vector<TVA> t(nt); for ( int i = 0; i < nt; i++ ) t[i].id = i;
        if ( c == 0 ) { for ( int i = 0; i < nt; i++ ) t[i].mode = 0; plan(h, t, at); }
        else {
            for ( int i = 0; i < nt; i++ ) { t[i].mode = sym_choose(4, "mode"); t[i].nv = sym_u32("nv"); }
            int mon = (int)sym_choose(3, "mon");
            if ( mon ) { h->attachTool(&t[0], MD(9)); if ( mon == 1 ) at.push_back({ 0, 9 }); }
            for ( int s = 0; s < (sym_tier() ? 5 : 3); s++ ) {
                int op = sym_choose(3, "op"); if ( op == 2 ) break;
                int i = sym_choose(nt, "tool");
                if ( op == 0 ) { h->attachInterceptTool(&t[i], MD(s)); it.push_back({ i, s }); }
                else { h->detachInterceptTool(&t[i]); for ( size_t k = 0; k < it.size(); k++ ) if ( it[k].first == i ) { it.erase(it.begin() + k); sym_reach("detached"); break; } }
            }
            if ( mon == 2 ) h->detachTool(&t[0]); // the monitor goes, the intercepts stay
        }
        if ( xfer ) { VA* n = new SSTHandler<void, int*, Comp, int, &Comp::vad, VA>(&comp, 8); n->transferAttachedToolInfo(h); int v = a[0]; (*h)(&v); expect(2, data ? 7 : 0, (uint64_t)(int64_t)(int)a[0]); finish(); h = n; sym_reach("transferred"); }
        int hk = xfer ? 8 : data ? 7 : 0;
        for ( int r = 0; r < 2; r++ ) {
            int v = a[r]; (*h)(&v);
            uint64_t cur = (uint64_t)(int64_t)(int)a[r]; bool cancel = false;
            for ( auto& x : at ) expect(1, 100 + x.first * 10 + x.second, cur);
            for ( auto& x : it ) { expect(4, 200 + x.first * 10 + x.second, cur); int m = t[x.first].mode; if ( m == 2 ) { cancel = true; break; } if ( m == 1 || m == 3 ) cur = (uint64_t)(int64_t)(int)t[x.first].nv; }
            if ( !cancel ) { expect(2, hk, cur); sym_reach("called"); } else sym_reach("cancelled");
            for ( auto& x : at ) expect(3, 100 + x.first * 10 + x.second, 0);
            finish();
        }
    }
    if ( c == 1 ) {
        RA* h = data ? (RA*)new SSTHandler<uint32_t, uint32_t, Comp, int, &Comp::rad, RA>(&comp, 7) : (RA*)new SSTHandler<uint32_t, uint32_t, Comp, void, &Comp::ra, RA>(&comp);
        std::vector<TRA> t(nt); for ( int i = 0; i < nt; i++ ) t[i].id = i;
        plan(h, t, at);
        if ( xfer ) { RA* n = new SSTHandler<uint32_t, uint32_t, Comp, int, &Comp::rad, RA>(&comp, 8); n->transferAttachedToolInfo(h); (*h)(a[0]); expect(2, data ? 7 : 0, a[0]); finish(); h = n; }
        for ( int r = 0; r < 2; r++ ) {
            uint32_t g = (*h)(a[r]);
            for ( auto& x : at ) expect(1, 100 + x.first * 10 + x.second, a[r]);
            expect(2, xfer ? 8 : data ? 7 : 0, a[r]);
            for ( auto& x : at ) expect(3, 100 + x.first * 10 + x.second, a[r] ^ retv);
            SYM_ASSERT(g == (a[r] ^ retv), "handler result lost"); finish();
        }
    }
    if ( c == 2 ) {
        VV* h = data ? (VV*)new SSTHandler<void, void, Comp, int, &Comp::vvd, VV>(&comp, 7) : (VV*)new SSTHandler<void, void, Comp, void, &Comp::vv, VV>(&comp);
        std::vector<TVV> t(nt); for ( int i = 0; i < nt; i++ ) t[i].id = i;
        plan(h, t, at);
        if ( xfer ) { VV* n = new SSTHandler<void, void, Comp, int, &Comp::vvd, VV>(&comp, 8); n->transferAttachedToolInfo(h); (*h)(); expect(2, data ? 7 : 0, 0); finish(); h = n; }
        for ( int r = 0; r < 2; r++ ) {
            (*h)();
            for ( auto& x : at ) expect(1, 100 + x.first * 10 + x.second, 0);
            expect(2, xfer ? 8 : data ? 7 : 0, 0);
            for ( auto& x : at ) expect(3, 100 + x.first * 10 + x.second, 0);
            finish();
        }
    }
    if ( c == 3 ) {
        RV* h = data ? (RV*)new SSTHandler<uint32_t, void, Comp, int, &Comp::rvd, RV>(&comp, 7) : (RV*)new SSTHandler<uint32_t, void, Comp, void, &Comp::rv, RV>(&comp);
        std::vector<TRV> t(nt); for ( int i = 0; i < nt; i++ ) t[i].id = i;
        plan(h, t, at);
        if ( xfer ) { RV* n = new SSTHandler<uint32_t, void, Comp, int, &Comp::rvd, RV>(&comp, 8); n->transferAttachedToolInfo(h); (*h)(); expect(2, data ? 7 : 0, 0); finish(); h = n; }
        for ( int r = 0; r < 2; r++ ) {
            uint32_t g = (*h)();
            for ( auto& x : at ) expect(1, 100 + x.first * 10 + x.second, 0);
            expect(2, xfer ? 8 : data ? 7 : 0, 0);
            for ( auto& x : at ) expect(3, 100 + x.first * 10 + x.second, retv);
            SYM_ASSERT(g == retv, "handler result lost"); finish();
        }
    }
    return 0;
}
