// The thread-safe event queues with several threads: nothing is lost and the order holds.
// @cases 4
// @threads
// @stubs output_stub
// @sources timeVortex.cc
// @reach drained popped
// @bounds 2 threads; one, owning the queue, inserts and pops up to 3 times while the other inserts 2 activities of 2 later delivery times, in every interleaving with up to 2 preemptions (thorough 3); priority queue and binned map
// @assume only the owner pops, and other threads insert only for times later than any the owner can reach meanwhile (the synchronisation between threads guarantees it)
#include "sst_config.h"
#include "sym.h"
#include "sst/core/impl/timevortex/timeVortexPQ.cc"
#include "sst/core/impl/timevortex/timeVortexBinnedMap.cc"
using namespace SST;
namespace {
struct Act : public Activity {
    int id; uint64_t t; int prio;
    Act(int i, uint64_t t, int p) : id(i), t(t), prio(p) { setDeliveryTime(t); setPriority(p); setOrderTag(0); setPriority(p); }
    void execute() override {}
    bool isEvent() const override { return false; }
    bool isAction() const override { return false; }
    NotSerializable(Act)
};
TimeVortex* q; int seen[8]; int made, popped; int order0 = -1;
int remote[2];
void other(void*)
{
    for ( int k = 0; k < 2; k++ ) q->insert(new Act(4 + k, 5 + remote[k] % 2, remote[k] / 2 ? 40 : 50));
}
void owner(void* p)
{
    uint64_t prog = (uint64_t)p, now = 0; 
    for ( int k = 0; k < 3; k++, prog /= 3 ) {
        if ( prog % 3 == 2 ) {
            if ( made == popped ) continue;
            Act* a = (Act*)q->pop();
            SYM_ASSERT(a && a->id < 4 && !seen[a->id], "the owner gets the activities it inserted for now");
            SYM_ASSERT(a->t >= now, "in order"); now = a->t; seen[a->id]++; popped++;
            sym_reach("popped");
        }
        else { q->insert(new Act(made, now + prog % 3, 50)); made++; }
    }
}
} // namespace
extern "C" int harness_main()
{
    Params* p = nullptr; int c = sym_case();
    if ( c & 1 ) q = new IMPL::TimeVortexPQBase<true>(*p); else q = new IMPL::TimeVortexBinnedMapBase<true>(*p);
    sym_preempt_bound(sym_tier() ? 3 : 2);
    for ( int k = 0; k < 2; k++ ) remote[k] = (c & 2) ? 2 * (int)sym_choose(2, "prio") : (int)sym_choose(2, "time");
    uint64_t prog = 0, m = 1; for ( int k = 0; k < 3; k++, m *= 3 ) prog += m * sym_choose(3, "op");
    sym_spawn(owner, (void*)prog); sym_spawn(other, nullptr); sym_join_all();
    SYM_ASSERT(q->size() == made - popped + 2 && q->getCurrentDepth() == (uint64_t)(made - popped + 2) && !q->empty(), "nothing is lost or invented");
    Act* prev = nullptr;
    for ( int k = made - popped + 2; k > 0; k-- ) {
        Act* f = (Act*)q->front(); Act* a = (Act*)q->pop();
        SYM_ASSERT(a && a == f && a->id < 6 && !seen[a->id], "each activity comes out once"); seen[a->id]++;
        if ( prev ) SYM_ASSERT(a->t > prev->t || (a->t == prev->t && (a->prio > prev->prio || (a->prio == prev->prio && (a->id > prev->id)))), "in time, priority and insertion order");
        prev = a;
    }
    SYM_ASSERT(q->empty() && q->pop() == nullptr, "empty at the end");
    sym_reach("drained");
    delete q;
    return 0;
}
