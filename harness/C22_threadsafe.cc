// Synchronisation primitives keep threads apart, together and in order, under every interleaving.
// @cases 14
// @threads
// @races
// @flags -fno-inline
// @reach lock barrier3 barrier bounded unbounded consumers max disable seq
// @bounds 2 threads (barrier: 2 and 3, plus the case of a disabled barrier), 2 critical sections, barrier rounds or queue operations each, every interleaving of shared accesses with up to 4 (thorough 5) preemptions (queues with several producers: 2, thorough 3; several consumers: 3, thorough 4; barrier of 3: 1, thorough 2); arbitrary 8-bit data; bounded queue capacities 1 to 3, also 5 operations in sequence against a model
// @outside weak memory ordering (interleavings are sequentially consistent), fairness, more threads
#include "sst_config.h"
#include "sym.h"
#include "sst/core/threadsafe.h"
#include <atomic>
#include <mutex>
#include <vector>
using namespace SST::Core::ThreadSafe;
namespace {
Spinlock* lk; int inside, counter;
void locker(void*)
{
    for ( int i = 0; i < 2; i++ ) {
        lk->lock();
        SYM_ASSERT(inside == 0, "two threads are inside one critical section");
        inside = 1; counter++; inside = 0;
        lk->unlock();
    }
}
Barrier* bar; std::atomic<int> arrived[4]; int NT, R;
void waiter(void*)
{
    for ( int r = 0; r < R; r++ ) {
        arrived[r]++;
        bar->wait();
        SYM_ASSERT(arrived[r] == NT, "a thread left the barrier before all had arrived");
    }
}
struct Msg { int from, seq; uint8_t v; };
BoundedQueue<Msg>* bq; UnboundedQueue<Msg>* uq;
uint8_t vals[3][2]; int perProducer;
void bprod(void* p) { int id = (int)(long)p; for ( int i = 0; i < perProducer; i++ ) { Msg m { id, i, vals[id][i] }; while ( !bq->try_insert(m) ) sym_pause(); } }
std::vector<Msg>* got[3];
void bcons(void* p) { int id = (int)(long)p; for ( int i = 0; i < 2; i++ ) got[id]->push_back(bq->remove()); }
void uprod(void* p) { int id = (int)(long)p; for ( int i = 0; i < perProducer; i++ ) { Msg m { id, i, vals[id][i] }; uq->insert(m); } }
void ucons(void* p) { int id = (int)(long)p; for ( int i = 0; i < 2; i++ ) got[id]->push_back(uq->remove()); }
void btry(void* p) { int id = (int)(long)p; for ( int i = 0; i < 2; i++ ) { Msg m; if ( bq->try_remove(m) ) got[id]->push_back(m); } }
void utry(void* p) { int id = (int)(long)p; for ( int i = 0; i < 2; i++ ) { Msg m; if ( uq->try_remove(m) ) got[id]->push_back(m); } }
std::atomic<uint8_t>* mx; std::atomic<uint8_t>* mn;
void maxer(void* p) { int id = (int)(long)p; for ( int i = 0; i < 2; i++ ) { atomic_fetch_max(*mx, vals[id][i]); atomic_fetch_min(*mn, vals[id][i]); } }
std::atomic<int> released;
void stuck(void*) { bar->wait(); released++; bar->wait(); released++; }
void check(int producers, int consumers)
{
    int n = 0;
    std::vector<std::vector<int>> count(producers, std::vector<int>(perProducer, 0));
    for ( int c = 0; c < consumers; c++ ) {
        std::vector<int> last(producers, -1);
        for ( auto& m : *got[c] ) {
            SYM_ASSERT(m.from >= 0 && m.from < producers && m.seq >= 0 && m.seq < perProducer, "an entry was invented");
            SYM_ASSERT(m.v == vals[m.from][m.seq], "an entry changed in the queue");
            SYM_ASSERT(m.seq > last[m.from], "entries of one producer are out of order");
            last[m.from] = m.seq; count[m.from][m.seq]++; n++;
        }
    }
    for ( auto& p : count ) for ( int k : p ) SYM_ASSERT(k == 1, "every entry comes out exactly once");
    (void)n;
}
}
extern "C" int harness_main()
{
    int c = sym_case(), th = sym_tier();
    lk = new Spinlock(); inside = counter = 0; released = 0;
    for ( auto& a : arrived ) a = 0;
    for ( int i = 0; i < 3; i++ ) { got[i] = new std::vector<Msg>(); got[i]->reserve(8); for ( int k = 0; k < 2; k++ ) vals[i][k] = sym_u8("v"); }
    sym_preempt_bound(th ? 5 : 4);
    switch ( c ) {
    case 0:
        sym_spawn(locker, nullptr); sym_spawn(locker, nullptr); sym_join_all();
        SYM_ASSERT(counter == 4 && inside == 0, "an update made under the lock is lost");
        sym_reach("lock"); break;
    case 1:
        NT = 2; R = 3; bar = new Barrier(2);
        sym_spawn(waiter, nullptr); sym_spawn(waiter, nullptr); sym_join_all();
        sym_reach("barrier"); break;
    case 2:
        NT = 3; R = 2; bar = new Barrier(); bar->resize(3); sym_preempt_bound(th ? 2 : 1);
        sym_spawn(waiter, nullptr); sym_spawn(waiter, nullptr); sym_spawn(waiter, nullptr); sym_join_all();
        sym_reach("barrier3"); break;
    case 3: case 4: case 5: {   // bounded queue, one producer and one consumer, capacities 1 to 3
        bq = new BoundedQueue<Msg>(c - 2); perProducer = 2;
        sym_spawn(bprod, (void*)0); sym_spawn(bcons, (void*)0); sym_join_all();
        check(1, 1); SYM_ASSERT(bq->empty() && bq->size() == 0, "the emptied queue is empty"); sym_reach("bounded"); break;
    }
    case 6: {   // two producers of one, one consumer
        bq = new BoundedQueue<Msg>(2); perProducer = 1; sym_preempt_bound(th ? 3 : 2);
        sym_spawn(bprod, (void*)0); sym_spawn(bprod, (void*)1); sym_spawn(bcons, (void*)0); sym_join_all();
        check(2, 1); sym_reach("bounded"); break;
    }
    case 7: {
        uq = new UnboundedQueue<Msg>(); perProducer = 2;
        sym_spawn(uprod, (void*)0); sym_spawn(ucons, (void*)0); sym_join_all();
        check(1, 1); Msg m; SYM_ASSERT(!uq->try_remove(m), "the emptied queue is empty"); delete uq; sym_reach("unbounded"); break;
    }
    case 8: {
        uq = new UnboundedQueue<Msg>(); perProducer = 1; sym_preempt_bound(th ? 3 : 2);
        sym_spawn(uprod, (void*)0); sym_spawn(uprod, (void*)1); sym_spawn(ucons, (void*)0); sym_join_all();
        check(2, 1); sym_reach("unbounded"); break;
    }
    case 9: {
        uint8_t m0 = sym_u8("m0"); mx = new std::atomic<uint8_t>(m0); mn = new std::atomic<uint8_t>(m0);
        sym_spawn(maxer, (void*)0); sym_spawn(maxer, (void*)1); sym_join_all();
        uint8_t hi = m0, lo = m0;
        for ( int i = 0; i < 2; i++ ) for ( int k = 0; k < 2; k++ ) { hi = vals[i][k] > hi ? vals[i][k] : hi; lo = vals[i][k] < lo ? vals[i][k] : lo; }
        SYM_ASSERT(*mx == hi && *mn == lo, "the maximum and minimum of all values survive"); sym_reach("max"); break;
    }
    case 10: {
        bar = new Barrier(2);
        sym_spawn(stuck, nullptr);
        sym_schedpt();
        bar->disable();
        sym_join_all();
        SYM_ASSERT(released == 2, "a disabled barrier holds nobody"); sym_reach("disable"); break;
    }
    case 12: case 13: {   // two consumers of a filled queue
        perProducer = 2; sym_preempt_bound(th ? 4 : 3);
        bq = new BoundedQueue<Msg>(2); uq = new UnboundedQueue<Msg>();
        for ( int i = 0; i < 2; i++ ) { Msg m { 0, i, vals[0][i] }; if ( c == 12 ) bq->try_insert(m); else uq->insert(m); }
        sym_spawn(c == 12 ? btry : utry, (void*)0); sym_spawn(c == 12 ? btry : utry, (void*)1); sym_join_all();
        check(1, 2); sym_reach("consumers"); break;
    }
    default: {   // one thread, any sequence of operations
        int cap = 1 + 1 + sym_choose(3, "cap"); BoundedQueue<Msg> q(cap); UnboundedQueue<Msg> u; std::vector<Msg> model; size_t mrd = 0, uin = 0; std::vector<Msg> all;
        for ( int k = 0; k < (th ? 7 : 5); k++ ) {
            if ( sym_flag("ins") ) {
                Msg m { 0, k, sym_u8("d") };
                bool ok = q.try_insert(m);
                SYM_ASSERT(ok == ((int)(model.size() - mrd) < cap), "an insertion succeeds exactly while there is room");
                if ( ok ) model.push_back(m);
                u.insert(m); all.push_back(m);
            } else {
                Msg m { 9, 9, 9 };
                bool ok = q.try_remove(m);
                SYM_ASSERT(ok == (mrd < model.size()), "a removal succeeds exactly while something is there");
                if ( ok ) { SYM_ASSERT(m.seq == model[mrd].seq && m.v == model[mrd].v, "entries come out in order"); mrd++; }
                Msg n { 9, 9, 9 };
                ok = u.try_remove(n);
                SYM_ASSERT(ok == (uin < all.size()), "a removal succeeds exactly while something is there");
                if ( ok ) { SYM_ASSERT(n.seq == all[uin].seq && n.v == all[uin].v, "entries come out in order"); uin++; }
            }
            SYM_ASSERT(q.size() == model.size() - mrd && q.empty() == (mrd == model.size()), "size and emptiness are right");
        }
        sym_reach("seq");
    }
    }
    return 0;
}
