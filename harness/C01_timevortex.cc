// Event queue: every history of inserts/pops returns a minimal element, loses and duplicates nothing.
// @cases 8
// @stubs output_stub
// @sources timeVortex.cc
// @reach popped drained long
// @bounds histories of up to 4 operations (thorough 5) then a full drain, delivery times any 64-bit value not earlier than the last pop, priority any documented one, order tag any 32-bit value; and histories of 6 (thorough 7) operations with 2 delivery times relative to the last pop and 3 priorities and tags
// @assume an activity is never inserted with a delivery time earlier than the last popped one (the run loop guarantees it)
#include "sst_config.h"
#include "sym.h"
#include "sst/core/impl/timevortex/timeVortexPQ.cc"
#include "sst/core/impl/timevortex/timeVortexBinnedMap.cc"
using namespace SST;
namespace {
class Act : public Activity {
public:
    int id; uint32_t prio, tag; uint64_t t; uint64_t ord;
    Act(int i, uint64_t t, uint32_t p, uint32_t g, uint64_t ord) : id(i), prio(p), tag(g), t(t), ord(ord) { setDeliveryTime(t); setPriority(p); setOrderTag(g); setPriority(p); }
    void execute() override {}
    bool isEvent() const override { return false; }
    bool isAction() const override { return false; }
    NotSerializable(Act)
};
bool lt(const Act* a, const Act* b) {
    return (a->t < b->t) | ((a->t == b->t) & ((a->prio < b->prio) | ((a->prio == b->prio) & ((a->tag < b->tag) | ((a->tag == b->tag) & (a->ord < b->ord))))));
}
}


extern "C" int harness_main() {
    Params* p = nullptr;
    TimeVortex* q;
    switch ( sym_case() & 3 ) {
    case 0: q = new IMPL::TimeVortexPQBase<false>(*p); break;
    case 1: q = new IMPL::TimeVortexPQBase<true>(*p); break;
    case 2: q = new IMPL::TimeVortexBinnedMapBase<false>(*p); break;
    default: q = new IMPL::TimeVortexBinnedMapBase<true>(*p); break;
    }
    const bool lng = sym_case() >= 4; const int K = lng ? (sym_tier() ? 7 : 6) : sym_tier() ? 5 : 4;
    sym_bound("operations", K);
    std::vector<Act*> in;
    uint64_t now = 0, ord = 0; int made = 0;
    unsigned maxd = 0;
    auto doPop = [&]() {
        Activity* f = q->front();
        Activity* a = q->pop();
        SYM_ASSERT(a == f, "pop does not return what front announced");
        Act* x = nullptr; size_t pos = 0;
        for ( size_t i = 0; i < in.size(); i++ ) if ( in[i] == a ) { x = in[i]; pos = i; }
        if ( !x ) sym_fail("popped something that is not queued (lost, duplicated or null)");
        bool min = true;
        for ( auto* y : in ) if ( y != x ) min &= !lt(y, x);
        SYM_ASSERT(min, "popped an activity although a smaller one was queued");
        SYM_ASSERT(x->getDeliveryTime() == x->t && (uint32_t)x->getPriority() == x->prio && x->getOrderTag() == x->tag, "ordering data altered");
        sym_log(x->id);
        now = x->t;
        in.erase(in.begin() + pos);
        delete x;
        sym_reach("popped");
    };
    for ( int i = 0; i < K; i++ ) {
        int op = lng ? (int)sym_choose(7, "op") : sym_flag("op") ? 0 : 1;
        if ( op == 0 ) {
            if ( in.empty() ) { SYM_ASSERT(q->pop() == nullptr, "pop of an empty queue must return nothing"); }
            else doPop();
        } else {
            uint64_t t; uint32_t prio, tag;
            if ( lng ) { t = now + (op - 1) % 2; prio = (op - 1) / 2 == 2 ? 40 : 50; tag = (op - 1) / 2 == 1; sym_reach("long"); }
            else { t = sym_u64("t"); sym_assume(t >= now); prio = sym_u32("prio"); sym_assume(prio <= 99); tag = sym_u32("tag"); }
            Act* a = new Act(made++, t, prio, tag, ord++);
            q->insert(a);
            in.push_back(a);
            if ( in.size() > maxd ) maxd = in.size();
        }
        SYM_ASSERT(q->size() == (int)in.size() && q->empty() == in.empty() && q->getCurrentDepth() == in.size(), "size/empty/depth disagree with the contents");
        SYM_ASSERT(q->getMaxDepth() == maxd, "max depth");
    }
    if ( (sym_case() & 3) < 2 ) { // the binned map documents getContents as not implemented
    std::vector<Activity*> cont;
    q->getContents(cont);
    SYM_ASSERT(cont.size() == in.size(), "getContents size");
    for ( auto* y : in ) { int n = 0; for ( auto* c : cont ) if ( c == y ) n++; SYM_ASSERT(n == 1, "getContents is not exactly the queued activities"); }
    }
    while ( !in.empty() ) doPop();
    SYM_ASSERT(q->empty() && q->pop() == nullptr, "empty at the end");
    sym_reach("drained");
    delete q;
    return 0;
}
