// Three or four threads: every queue between two threads is emptied at each synchronisation and events keep their times.
// @cases 6
// @sources timeVortex.cc simulation.cc action.cc exit.cc impl/oneshotManager.cc timeLord.cc link.cc event.cc initQueue.cc pollingLinkQueue.cc sync/threadSyncSimpleSkip.cc sync/syncQueue.cc sync/syncManager.cc
// @stubs output_stub
// @reach crossed untimed three four
// @bounds 3 and 4 threads with a link between every two, given latencies (one arbitrary below 20), one arbitrary wake-up time below 2^7, one wake-up per thread which sends to any of the others, any thread starting the registration; untimed data from every thread to every other
// @assume threads are separated by the sync barriers, so each window runs the threads one after the other
#include "simfix.h"
#include "sst/core/link.h"
#include "sst/core/linkPair.h"
#include "sst/core/event.h"
#include "sst/core/sync/threadSyncSimpleSkip.h"
#include "sst/core/stopAction.h"
#include "sst/core/impl/timevortex/timeVortexPQ.cc"
using namespace SST;
namespace {
constexpr int M = 4; int N;
Simulation* sims[M]; TimeVortex* tvs[M]; int cur;
void act(int t) { cur = t; Simulation::instanceMap[std::this_thread::get_id()] = sims[t]; }
struct Ev : public Event { int id; uint64_t due; int from, to; Ev(int i, uint64_t d, int f, int t) : id(i), due(d), from(f), to(t) {} std::string toString() const override { return ""; } NotSerializable(Ev) };
Link* ln[M][M]; uint64_t lat[M][M]; int sent, received; bool dead[16];
struct Comp {
    int me;
    void recv(Event* ev)
    {
        Ev* e = (Ev*)ev;
        SYM_ASSERT(e->to == me && cur == me && !dead[e->id], "delivered once to the right thread");
        SYM_ASSERT(sims[me]->currentSimCycle == e->due, "cross-thread event arrives at send time + latency + delay");
        dead[e->id] = true; received++; sym_reach("crossed");
    }
    void serialize_order(SST::Core::Serialization::serializer&) {}
} comps[M] = { { 0 }, { 1 }, { 2 }, { 3 } };
struct Wake : public Action {
    int t; explicit Wake(int t_) : t(t_) { setPriority(40); }
    void execute() override
    {
        for ( int q = 0; q < N; q++ ) if ( q != t && (N == 3 || q == (t + 1) % N || sym_flag("send")) ) {
            uint64_t due = sims[t]->currentSimCycle + lat[t][q]; Ev* e = new Ev(sent++, due, t, q); ln[t][q]->send(e);
        }
    }
    std::string toString() const override { return ""; } NotSerializable(Wake)
};
}
extern "C" int harness_main()
{
    int c = sym_case(); N = c < 4 ? 3 : 4;
    ThreadSyncSimpleSkip* ts[M];
    for ( int t = 0; t < N; t++ ) { tvs[t] = new IMPL::TimeVortexPQBase<false>(*(Params*)nullptr); sims[t] = mkSim(tvs[t], 0, RankInfo(0, t), RankInfo(1, N)); sims[t]->untimed_phase = 0; }
    uint64_t ilat = ~0ull;
    for ( int a = 0; a < N; a++ ) for ( int b = 0; b < N; b++ ) if ( a != b ) { lat[a][b] = 4 + a + 2 * b; if ( c == 3 && a == 0 && b == 2 ) { lat[a][b] = 4 + sym_bits(4, "lat"); } }
    ilat = 3 + (c & 1);
    for ( int t = 0; t < N; t++ ) { act(t); sims[t]->interThreadMinLatency = ilat; ts[t] = new ThreadSyncSimpleSkip(N, t, sims[t]); }
    ThreadSyncSimpleSkip::barrier[0].resize(1);
    int first = (int)sym_choose(2, "first") * (N - 1);
    for ( int k = 0; k < N; k++ ) {
        int t = (first + k) % N; act(t);
        for ( int q = 0; q < N; q++ ) if ( q != t ) {
            LinkPair lp(100 + (t < q ? t * M + q : q * M + t));
            lp.getLeft()->setLatency(lat[t][q]); lp.getRight()->setLatency(0);
            lp.getRight()->setDefaultTimeBase(TimeConverter(1)); lp.getLeft()->setDefaultTimeBase(TimeConverter(1));
            ts[t]->registerLink(lp.getRight());
            lp.getLeft()->send_queue = ts[q]->registerRemoteLink(t, lp.getRight());
            lp.getRight()->setAsSyncLink();
            lp.getLeft()->setFunctor(new Event::Handler<Comp, &Comp::recv>(&comps[t]));
            lp.getLeft()->setTag(3 + q); ln[t][q] = lp.getLeft();
        }
    }
    for ( int t = 0; t < N; t++ ) { act(t); for ( int q = 0; q < N; q++ ) if ( q != t ) for ( int i = 0; i < 2; i++ ) ln[t][q]->sendUntimedData(new Ev(i, 0, t, q)); }
    for ( int t = 0; t < N; t++ ) { act(t); ts[t]->processLinkUntimedData(); sims[t]->untimed_phase = 1; }
    for ( int t = 0; t < N; t++ ) {
        act(t);
        for ( int q = 0; q < N; q++ ) if ( q != t ) {
            Ev* a = (Ev*)ln[t][q]->recvUntimedData(); Ev* b = (Ev*)ln[t][q]->recvUntimedData();
            SYM_ASSERT(a && b && a->id == 0 && b->id == 1 && a->from == q && a->to == t && b->from == q && b->to == t && !ln[t][q]->recvUntimedData(), "untimed data crosses once and in order");
        }
    }
    sym_reach("untimed");
    for ( int t = 0; t < N; t++ ) { act(t); for ( int q = 0; q < N; q++ ) if ( q != t ) ln[t][q]->finalizeConfiguration(); ts[t]->finalizeLinkConfigurations(); }
    SimTime_t p = 0;
    for ( int t = 0; t < N; t++ ) { act(t); p = ts[t]->findSyncInterval(); }
    bool ok = p > 0;
    for ( int a = 0; a < N; a++ ) for ( int b = 0; b < N; b++ ) if ( a != b ) ok &= p <= lat[a][b];
    SYM_ASSERT(ok, "synchronisation interval larger than a cross-thread latency");
    for ( int t = 0; t < N; t++ ) ((ThreadSync*)ts[t])->setMaxPeriod(p);
    for ( int t = 0; t < N; t++ ) {
        StopAction* sa = new StopAction(); sa->setDeliveryTime(MAX_SIMTIME_T); tvs[t]->insert(sa);
        if ( N == 3 || t == c - 4 || t == 3 ) { Wake* w = new Wake(t); w->setDeliveryTime(t == c % 3 ? sym_bits(7, "wake") : 7 * t); tvs[t]->insert(w); }
    }
    for ( int win = 0; win < 12; win++ ) {
        uint64_t S = ts[0]->getNextSyncTime(); bool left = false;
        for ( int t = 0; t < N; t++ ) {
            act(t); SYM_ASSERT(ts[t]->getNextSyncTime() == S, "threads agree on the next sync");
            while ( true ) {
                Activity* a = tvs[t]->front(); uint64_t at = a->getDeliveryTime();
                if ( at == MAX_SIMTIME_T ) break;
                if ( at > S || (at == S && a->getPriority() >= SYNCPRIORITY) ) { left = true; break; }
                tvs[t]->pop();
                SYM_ASSERT(at >= sims[t]->currentSimCycle, "activity in the past of its thread");
                sims[t]->currentSimCycle = at; sims[t]->currentPriority = a->getPriority();
                a->execute();
            }
        }
        bool idle = !left && sent == received;
        for ( int t = 0; t < N; t++ ) { sims[t]->currentSimCycle = S; sims[t]->currentPriority = SYNCPRIORITY; }
        for ( int t = 0; t < N; t++ ) { act(t); ts[t]->before(); }
        for ( int t = 0; t < N; t++ ) { act(t); ts[t]->after(); }
        SYM_ASSERT(ts[0]->getNextSyncTime() > S, "sync makes progress");
        if ( idle ) break;
    }
    SYM_ASSERT(sent == received && sent > 0, "cross-thread event lost");
    sym_reach(N == 3 ? "three" : "four");
    return 0;
}
