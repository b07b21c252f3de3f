// Conservative thread synchronisation: events sent across threads arrive exactly once, at the right time, never in a receiver's past.
// @cases 3
// @sources timeVortex.cc simulation.cc action.cc exit.cc impl/oneshotManager.cc timeLord.cc link.cc event.cc initQueue.cc pollingLinkQueue.cc sync/threadSyncSimpleSkip.cc sync/syncQueue.cc sync/syncManager.cc
// @stubs output_stub
// @reach crossed resent untimed
// @bounds 2 threads joined by 2 links (thorough: 2 wake-ups per thread), arbitrary latencies and added receive latencies below 2^10, wake-up times and delays below 2^12; each wake-up sends on one link, an arrival may send once more
// @assume threads are separated by the sync barriers, so each window runs thread 0 then thread 1 (threads touch only their own queue inside a window)
// @outside the barrier implementation (C22) and cross-rank exchange (MPI calls are not modelled here)
#include "simfix.h"
#include "sst/core/link.h"
#include "sst/core/linkPair.h"
#include "sst/core/event.h"
#include "sst/core/sync/threadSyncSimpleSkip.h"
#include "sst/core/stopAction.h"
#include "sst/core/impl/timevortex/timeVortexPQ.cc"
using namespace SST;
namespace {
Simulation* sims[2]; TimeVortex* tvs[2]; int cur;
void act(int t) { cur = t; Simulation::instanceMap[std::this_thread::get_id()] = sims[t]; }
struct Ev : public Event { int id; uint64_t due; int to; int link; Ev(int i, uint64_t d, int t, int l) : id(i), due(d), to(t), link(l) {} std::string toString() const override { return ""; } NotSerializable(Ev) };
Link* ln[2][2];           // [link][thread] user side
uint64_t sendLat[2][2], recvLat[2][2];
int sent = 0, received = 0; int resend = 1; bool resendMode;
std::vector<int> lastId[2];
Ev* all[16]; bool dead[16];
void doSend(int t) {
    int l = (sym_tier() || t == 0) ? sym_choose(2, "link") : 0;
    uint64_t d = (sym_tier() || t == 0 || resendMode) && sym_flag("delay") ? sym_bits(12, "d") : 0;
    uint64_t due = sims[t]->currentSimCycle + sendLat[l][t] + recvLat[l][1 - t] + d;
    Ev* e = new Ev(sent, due, 1 - t, l);
    all[sent++] = e;
    ln[l][t]->send(d, e);
}
struct Comp {
    int me;
    void recv(Event* ev) {
        Ev* e = (Ev*)ev;
        SYM_ASSERT(e->to == me && cur == me, "delivered to the wrong side");
        SYM_ASSERT(!dead[e->id], "delivered twice");
        SYM_ASSERT(sims[me]->currentSimCycle == e->due, "cross-thread event arrives at send time + latency + delay");
        dead[e->id] = true;
        for ( int i = 0; i < e->id; i++ ) if ( !dead[i] && all[i]->to == me && all[i]->link == e->link ) SYM_ASSERT(all[i]->due != e->due, "send order kept among equal arrival times of one link");
        received++; sym_reach("crossed"); sym_log(e->id);
        if ( resend > 0 ) { resend--; doSend(me); sym_reach("resent"); }
    }
    void serialize_order(SST::Core::Serialization::serializer&) {}
} comps[2] = { { 0 }, { 1 } };
struct Wake : public Action { int t; Wake(int t_) : t(t_) { setPriority(40); } void execute() override { doSend(t); } std::string toString() const override { return ""; } NotSerializable(Wake) };
}
extern "C" int harness_main() {
    int c = sym_case();
    ThreadSyncSimpleSkip* ts[2];
    for ( int t = 0; t < 2; t++ ) {
        tvs[t] = new IMPL::TimeVortexPQBase<false>(*(Params*)nullptr);
        sims[t] = mkSim(tvs[t], 0, RankInfo(0, t), RankInfo(1, 2));
        sims[t]->untimed_phase = 0;
    }
    uint64_t ilat = sym_bits(10, "ilat");   // configured minimum latency
    for ( int t = 0; t < 2; t++ ) { act(t); sims[t]->interThreadMinLatency = ilat; ts[t] = new ThreadSyncSimpleSkip(2, t, sims[t]); }
    ThreadSyncSimpleSkip::barrier[0].resize(1);
    uint64_t minlat = ~0ull;
    bool order = (sym_tier() || c == 1) ? sym_flag("order") : false;
    resend = (sym_tier() || c == 2) ? 1 : 0; resendMode = resend;
    for ( int k = 0; k < 2; k++ ) {
        int t = order ? 1 - k : k;
        act(t);
        for ( int l = 0; l < 2; l++ ) {
            LinkPair lp(100 + l);
            sendLat[l][t] = sym_bits(10, "lat"); recvLat[l][t] = 0;
            sym_assume(sendLat[l][t] != 0);
            lp.getLeft()->setLatency(sendLat[l][t]); lp.getRight()->setLatency(0);
            lp.getRight()->setDefaultTimeBase(TimeConverter(1)); lp.getLeft()->setDefaultTimeBase(TimeConverter(1));
            ts[t]->registerLink(lp.getRight());
            lp.getLeft()->send_queue = ts[1 - t]->registerRemoteLink(t, lp.getRight());
            lp.getRight()->setAsSyncLink();
            lp.getLeft()->setFunctor(new Event::Handler<Comp, &Comp::recv>(&comps[t]));
            lp.getLeft()->setTag(3 + l);
            ln[l][t] = lp.getLeft();
            if ( l == 0 && (sym_tier() || k == 0) && c != 0 && sym_flag("recvlat") ) { recvLat[l][t] = sym_bits(10, "rl"); lp.getLeft()->addRecvLatency(recvLat[l][t], TimeConverter(1)); }
        }
    }
    if ( c == 1 ) {
        // untimed data crosses at the end of the phase, in order
        for ( int t = 0; t < 2; t++ ) { act(t); Ev* a = new Ev(0, 0, 1 - t, 0); ln[0][t]->sendUntimedData(a); Ev* b = new Ev(1, 0, 1 - t, 0); ln[0][t]->sendUntimedData(b); Ev* x = new Ev(2, 0, 1 - t, 1); ln[1][t]->sendUntimedData(x); }
        for ( int t = 0; t < 2; t++ ) { act(t); SYM_ASSERT(ln[0][t]->recvUntimedData() == nullptr && ln[1][t]->recvUntimedData() == nullptr, "untimed data must not be visible in the phase it was sent"); }
        for ( int t = 0; t < 2; t++ ) { act(t); ts[t]->processLinkUntimedData(); }
        sims[0]->untimed_phase = sims[1]->untimed_phase = 1;
        for ( int t = 0; t < 2; t++ ) {
            act(t);
            Ev* a = (Ev*)ln[0][t]->recvUntimedData(); Ev* b = (Ev*)ln[0][t]->recvUntimedData(); Ev* x = (Ev*)ln[1][t]->recvUntimedData();
            SYM_ASSERT(a && b && x && a->id == 0 && b->id == 1 && x->id == 2 && a->to == t && x->to == t, "untimed data lost or reordered");
            SYM_ASSERT(!ln[0][t]->recvUntimedData() && !ln[1][t]->recvUntimedData(), "untimed data duplicated");
        }
        sym_reach("untimed");
    }
    for ( int t = 0; t < 2; t++ ) { act(t); for ( int l = 0; l < 2; l++ ) ln[l][t]->finalizeConfiguration(); ts[t]->finalizeLinkConfigurations(); }
    bool ok = true;
    SimTime_t p0, p1;
    act(0); p0 = ts[0]->findSyncInterval(); act(1); p1 = ts[1]->findSyncInterval();
    p0 = ThreadSync::updateMinimumLatency();
    for ( int t = 0; t < 2; t++ ) for ( int l = 0; l < 2; l++ ) ok &= p0 <= sendLat[l][t] + recvLat[l][1 - t];
    SYM_ASSERT(ok, "synchronisation interval larger than a cross-thread latency");
    SYM_ASSERT(p0 == p1 && p0 > 0, "synchronisation interval agreed and positive");
    if ( c == 1 ) return 0;
    uint64_t start = ilat;
    for ( int t = 0; t < 2; t++ ) { ((ThreadSync*)ts[t])->setMaxPeriod(p0); for ( int l = 0; l < 2; l++ ) sym_assume(ilat <= sendLat[l][t]); }   // configured value is the minimum of the configured latencies
    sym_assume(ilat != 0);
    int W = sym_tier() ? 2 : 1;
    for ( int t = 0; t < 2; t++ ) {
        StopAction* sa = new StopAction(); sa->setDeliveryTime(MAX_SIMTIME_T); tvs[t]->insert(sa);
        if ( t == 0 || c == 0 || sym_tier() ) for ( int i = 0; i < W; i++ ) { Wake* w = new Wake(t); w->setDeliveryTime(sym_bits(12, "wake")); tvs[t]->insert(w); }
    }
    SYM_ASSERT(ts[0]->getNextSyncTime() == ts[1]->getNextSyncTime(), "threads agree on the next sync");
    for ( int win = 0; win < 8; win++ ) {
        uint64_t S = ts[0]->getNextSyncTime();
        bool left = false;
        for ( int t = 0; t < 2; t++ ) {
            act(t);
            while ( true ) {
                Activity* a = tvs[t]->front();
                if ( a->getDeliveryTime() == MAX_SIMTIME_T ) break;
                uint64_t at = a->getDeliveryTime();
                if ( at > S || (at == S && a->getPriority() >= SYNCPRIORITY) ) { left = true; break; }
                tvs[t]->pop();
                SYM_ASSERT(at >= sims[t]->currentSimCycle, "activity in the past of its thread");
                sims[t]->currentSimCycle = at; sims[t]->currentPriority = a->getPriority();
                a->execute();
            }
        }
        bool idle = !left && sent == received;
        for ( int t = 0; t < 2; t++ ) { sims[t]->currentSimCycle = S; sims[t]->currentPriority = SYNCPRIORITY; }
        for ( int t = 0; t < 2; t++ ) { act(t); ts[t]->before(); }
        for ( int t = 0; t < 2; t++ ) { act(t); ts[t]->after(); }
        SYM_ASSERT(ts[0]->getNextSyncTime() == ts[1]->getNextSyncTime(), "threads agree on the next sync");
        SYM_ASSERT(ts[0]->getNextSyncTime() > S, "sync makes progress");
        if ( idle ) break;
    }
    SYM_ASSERT(sent == received, "cross-thread event lost");
    return 0;
}
