// With several threads the simulation ends at the same sync for all, once all primary components have agreed.
// @cases 4
// @threads
// @sources timeVortex.cc simulation.cc action.cc exit.cc impl/oneshotManager.cc timeLord.cc link.cc event.cc initQueue.cc pollingLinkQueue.cc sync/threadSyncSimpleSkip.cc sync/syncQueue.cc sync/syncManager.cc
// @stubs output_stub
// @reach ended independent stopped again before
// @bounds 2 threads that each run the real run loop with the real sync manager, joined by links of minimum latency 2 (or not joined); every thread holds the simulation once and releases it at any of 5 cycles, one of them may hold it again; every interleaving with up to 1 preemption (thorough 2)
// @outside checkpoints, signals and interactive shutdown during the run
#include "simfix.h"
#include "sst/core/checkpointAction.h"
#include "sst/core/realtime.h"
#include "sst/core/sync/syncManager.h"
#include "sst/core/sync/threadSyncSimpleSkip.h"
#include "sst/core/stopAction.h"
#include "sst/core/impl/timevortex/timeVortexPQ.cc"
using namespace SST;
// no checkpoints and no signals
namespace SST {
bool CheckpointAction::getCheckpoint() { return false; }
void CheckpointAction::setCheckpoint() {}
SimTime_t CheckpointAction::check(SimTime_t) { return MAX_SIMTIME_T; }
SimTime_t CheckpointAction::getNextCheckpointSimTime() { return MAX_SIMTIME_T; }
bool RealTimeManager::getSignals(int& a, int& b, int& c) { a = b = c = 0; return false; }
void RealTimeManager::performSignal(int) {}
}
namespace {
Simulation* sims[2]; TimeVortex* tvs[2];
uint64_t rel[2]; int ran[2]; uint64_t late[2], ended[2];
struct Hold : public Action {
    int t; bool off;
    Hold(int t, bool off) : t(t), off(off) { setPriority(50); }
    void execute() override { ran[t]++; if ( off ) Simulation::m_exit->refDec(t); else Simulation::m_exit->refInc(t); delete this; }
    NotSerializable(Hold)
};
struct Late : public Action {
    int t; explicit Late(int t) : t(t) { setPriority(50); }
    void execute() override { late[t] = sims[t]->getCurrentSimCycle(); delete this; }
    NotSerializable(Late)
};
void body(void* p)
{
    int t = (int)(long)p;
    Simulation::instanceMap[std::this_thread::get_id()] = sims[t];
    sims[t]->runBarrier.wait();
    sims[t]->run();
    ended[t] = sims[t]->getCurrentSimCycle();
}
} // namespace
extern "C" int harness_main()
{
    int c = sym_case(); bool joined = c != 2;
    sym_preempt_bound(sym_tier() ? 2 : 1);
    auto* rt = (RealTimeManager*)calloc(1, sizeof(RealTimeManager));
    for ( int t = 0; t < 2; t++ ) {
        tvs[t] = new IMPL::TimeVortexPQBase<false>(*(Params*)nullptr);
        sims[t] = mkSim(tvs[t], 0, RankInfo(0, t), RankInfo(1, 2));
        sims[t]->interThreadMinLatency = joined ? 2 : MAX_SIMTIME_T; sims[t]->independent = !joined;
    }
    Simulation::m_exit = new Exit(2, true);
    Simulation::runBarrier.resize(2); Simulation::exitBarrier.resize(joined ? 2 : 1);
    if ( !joined ) Simulation::exitBarrier.disable();
    for ( int t = 0; t < 2; t++ ) {
        Simulation::instanceMap[std::this_thread::get_id()] = sims[t];
        sims[t]->syncManager = new SyncManager(RankInfo(0, t), RankInfo(1, 2), MAX_SIMTIME_T, sims[t]->interThreadLatencies, rt);
        sims[t]->syncManager->finalizeLinkConfigurations();
    }
    for ( int t = 0; t < 2; t++ ) {
        Simulation::m_exit->refInc(t);
        rel[t] = sym_choose(5, "release"); sims[t]->insertActivity(rel[t], new Hold(t, true));
        sims[t]->insertActivity(20, new Late(t));
    }
    uint64_t stopAt = 0;
    if ( c == 1 ) { // thread 0 changes its mind, and again
        uint64_t h = rel[0] + 1 + sym_choose(3, "again"), h2 = h + 1 + sym_choose(3, "release2");
        sims[0]->insertActivity(h, new Hold(0, false)); sims[0]->insertActivity(h2, new Hold(0, true));
    }
    if ( c == 3 ) { stopAt = 1 + sym_choose(4, "stop"); for ( int t = 0; t < 2; t++ ) sims[t]->insertActivity(stopAt, new StopAction()); }
    Simulation::instanceMap.clear();
    for ( int t = 0; t < 2; t++ ) sym_spawn(body, (void*)(long)t);
    sym_join_all();
    uint64_t last = rel[0] > rel[1] ? rel[0] : rel[1];
    bool bySync = c == 3 && last < stopAt && sims[0]->getEndSimCycle() == last && ended[0] <= stopAt; // a sync goes before a stop of the same cycle
    if ( c == 0 || (c == 3 && bySync) ) {
        for ( int t = 0; t < 2; t++ ) {
            SYM_ASSERT(sims[t]->getEndSimCycle() == last, "the end time is when the last component agreed, for every thread");
            SYM_ASSERT(ran[t] == 1 && !late[t], "nothing runs after the end");
            SYM_ASSERT(ended[t] >= last && ended[t] <= last + 2, "the end is seen at the next sync");
        }
        sym_reach("ended");
    }
    if ( c == 1 ) {
        SYM_ASSERT(Simulation::m_exit->getRefCount() == 0, "the simulation ends once all agree");
        SYM_ASSERT(ran[0] == 1 || ran[0] == 3, "a component that changed its mind is waited for");
        SYM_ASSERT(ran[1] == 1 && !late[0] && !late[1], "nothing runs after the end");
        SYM_ASSERT(sims[0]->getEndSimCycle() == sims[1]->getEndSimCycle(), "the threads end at the same time");
        sym_reach(ran[0] == 3 ? "again" : "before");
    }
    if ( c == 2 ) {
        for ( int t = 0; t < 2; t++ ) {
            SYM_ASSERT(sims[t]->getEndSimCycle() == rel[t], "a thread without links to others ends when its components agree");
            SYM_ASSERT(ran[t] == 1 && !late[t], "nothing runs after the end");
        }
        sym_reach("independent");
    }
    if ( c == 3 && !bySync ) {
        for ( int t = 0; t < 2; t++ ) {
            SYM_ASSERT(ended[t] == stopAt && sims[t]->getEndSimCycle() == stopAt, "a stop ends every thread at its time");
            SYM_ASSERT(ran[t] == (rel[t] < stopAt) && !late[t], "nothing runs after the stop");
        }
        sym_reach("stopped");
    }
    SYM_ASSERT(ended[0] == ended[1] || c == 2, "the threads end together");
    return 0;
}
