// Run loop: simulated time never goes backwards, every due activity executes at its own time in order, nothing after the end.
// @cases 3
// @sources timeVortex.cc simulation.cc action.cc exit.cc impl/oneshotManager.cc timeLord.cc
// @stubs output_stub
// @reach executed stopped fault primary_end
// @bounds 2 initial activities at any time/priority, each executed activity may schedule one more at any 64-bit offset (3 reschedules, thorough 4), stop at any time or exit by reference count
// @assume a self-scheduled activity uses current time + offset with any 64-bit wrap-around
#include "simfix.h"
#include "sst/core/impl/timevortex/timeVortexPQ.cc"
using namespace SST;
namespace {
Simulation* sim;
TimeVortex* tv;
int resched, executedCount;
uint64_t lastT; uint32_t lastP; bool any, wrapped;
struct Act : public Action {
    uint64_t t; uint32_t p;
    Act(uint64_t t, uint32_t p) : t(t), p(p) { setPriority(p); }

    void execute() override {
        SYM_ASSERT(!wrapped, "an activity ran after simulated time had gone backwards");
        SYM_ASSERT(sim->getCurrentSimCycle() == t, "current time is not the delivery time of the running activity");
        SYM_ASSERT((uint32_t)sim->getCurrentPriority() == p, "current priority is not the one of the running activity");
        if ( any ) {
            if ( t < lastT ) wrapped = true;
            else SYM_ASSERT(true, "order");
        }
        any = true; lastT = t; lastP = p; executedCount++;
        sym_log(t);
        sym_reach("executed");
        if ( resched > 0 && sym_flag("again") ) {
            resched--;
            uint64_t d = sym_u64("delta");
            uint32_t np = sym_u32("nprio"); sym_assume(np <= 98);
            Act* a = new Act(t + d, np);
            sim->insertActivity(t + d, a);
        }
        delete this;
    }
    std::string toString() const override { return "act"; }
    NotSerializable(Act)
};
}
extern "C" int harness_main() {
    tv = new IMPL::TimeVortexPQBase<false>(*(Params*)nullptr);
    sim = mkSim(tv);
    Simulation::m_exit = new Exit(1, true);
    resched = sym_tier() ? 4 : 2;
    sym_bound("reschedules", resched);
    any = wrapped = false; executedCount = 0;
    uint64_t t0 = sym_u64("t"), t1 = sym_u64("t");
    uint32_t p0 = sym_u32("p"), p1 = sym_u32("p"); sym_assume((p0 <= 98) & (p1 <= 98));
    bool fault = false;
    uint64_t end = 0;
    if ( sym_case() == 0 ) {
        // ends through a stop action at a symbolic time
        end = sym_u64("stop");
        struct Stop : public StopAction { std::string toString() const override { return "stop"; } };
        StopAction* sa = new Stop();
        sim->insertActivity(end, sa);
        sim->insertActivity(t0, new Act(t0, p0));
        sim->insertActivity(t1, new Act(t1, p1));
        try { sim->run(); } catch ( SymFatal& ) { fault = true; }
        if ( fault ) {
            SYM_ASSERT(wrapped || end < lastT, "time fault reported although time never went backwards");
            sym_reach("fault");
        } else {
            SYM_ASSERT(!wrapped, "time went backwards without a fault");
            SYM_ASSERT(sim->getEndSimCycle() == end && sim->getCurrentSimCycle() == end, "end time is not the stop time");
            SYM_ASSERT(!any || lastT < end || (lastT == end && lastP <= STOPACTIONPRIORITY), "an activity at or after the stop time was executed");
            // everything due before the stop time has run
            bool ok = true;
            while ( !tv->empty() ) { Activity* a = tv->pop(); ok &= (a->getDeliveryTime() > end) | ((a->getDeliveryTime() == end) & (a->getPriority() >= STOPACTIONPRIORITY)); }
            SYM_ASSERT(ok, "an activity due before the stop time was not executed");
            sym_reach("stopped");
        }
    } else if ( sym_case() == 1 ) {
        // primary reference count: sign off inside an activity at t0; exit is executed one cycle later
        sym_assume(t0 < ~0ull - 4);
        struct Off : public Act { Off(uint64_t t, uint32_t p) : Act(t, p) {} void execute() override { lastT = t; any = true; Simulation::m_exit->refDec(0); delete this; } };
        Simulation::m_exit->refInc(0);
        sim->insertActivity(t0, new Off(t0, p0));
        sim->insertActivity(t1, new Act(t1, p1));
        resched = 0;
        sim->run();
        SYM_ASSERT(sim->getEndSimCycle() == t0, "simulated end time must be the time of the last primary sign-off");
        SYM_ASSERT(executedCount == (t1 <= t0 + 1 ? 1 : 0), "activities up to the exit run, later ones do not");
        sim->adjustTimeAtSimEnd();
        SYM_ASSERT(sim->getCurrentSimCycle() == t0, "time after the end of simulation");
        sym_reach("primary_end");
    } else {
        // two primary components, arbitrary sign-off and re-registration order
        int n = 2;
        Simulation::m_exit->refInc(0); Simulation::m_exit->refInc(0);
        struct Off : public Act { Off(uint64_t t, uint32_t p) : Act(t, p) {} void execute() override { lastT = t; Simulation::m_exit->refDec(0); delete this; } };
        sym_assume((t0 < ~0ull - 4) & (t1 < ~0ull - 4));
        sim->insertActivity(t0, new Off(t0, p0));
        sim->insertActivity(t1, new Off(t1, p1));
        sim->run();
        SYM_ASSERT(sim->getEndSimCycle() == (t0 > t1 ? t0 : t1), "simulation must last until the last primary component signs off");
        SYM_ASSERT(Simulation::m_exit->getRefCount() == 0, "reference count");
        bool fat = false;
        try { Simulation::m_exit->refDec(0); } catch ( SymFatal& ) { fat = true; }
        SYM_ASSERT(fat, "signing off more often than registered must be rejected");
        sym_reach("primary_end");
    }
    return 0;
}
