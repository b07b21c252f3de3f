// Clocks: every active handler is called exactly once per tick, in order, at multiples of the period, with the right cycle number.
// @cases 8
// @sources timeVortex.cc simulation.cc action.cc exit.cc impl/oneshotManager.cc timeLord.cc clock.cc
// @stubs output_stub
// @reach tick removed regidle grouptick nextcycle
// @bounds 3 operations (thorough 4) on 2 handlers (thorough 3): register/reactivate, unregister, query, tick; times below 2^14, periods 1, 3, 10 (thorough 2^20; also 7, 8, 1000) with one handler and 2 (3) operations; with several handlers time steps 0..2 of period 2; 4 handlers with 4 (thorough 5) operations where one, none or all handlers remove themselves per tick; each handler call decides freely whether it removes itself
#include "simfix.h"
#include "sst/core/clock.h"
#include "sst/core/impl/timevortex/timeVortexPQ.cc"
using namespace SST;
namespace {
Simulation* sim; TimeVortex* tv;
struct Call { int id; uint64_t cyc; bool ret; };
std::vector<Call> calls; bool wide; int remover;
struct Comp {
    bool tick(Cycle_t c, int id) { bool r = wide ? id == remover || remover == 5 : sym_flag("ret"); calls.push_back({ id, c, r }); return r; }
    void serialize_order(SST::Core::Serialization::serializer&) {}
};
Comp comp;
Clock::HandlerBase* mk(int i) { return new Clock::Handler<Comp, &Comp::tick, int>(&comp, i); }
uint64_t P; int prio = CLOCKPRIORITY;
}
extern "C" int harness_main() {
    int c = sym_case();
    bool th = sym_tier();
    unsigned B = th ? 20 : 14;
    tv = new IMPL::TimeVortexPQBase<false>(*(Params*)nullptr);
    wide = c >= 4; bool ar = c == 2 || c == 3;
    sim = mkSim(tv, !wide && sym_flag("zero") ? 0 : ar ? sym_bits(B, "now0") : 2);
    sim->currentPriority = wide || sym_flag("late") ? 75 : 10;
    sim->endSim = false;
    static const uint64_t PS[] = { 1, 3, 10, 8, 7, 1000 };
    P = ar ? PS[sym_choose(th ? 6 : 3, "period")] : 2;
    int NH = th ? 3 : 2, K = th ? 4 : 3;
    bool arith = ar;                  // cases 2,3: arbitrary times; cases 0,1: many handlers, small times
    if ( arith ) { NH = 1; K = th ? 3 : 2; }
    if ( wide ) { NH = 4; K = th ? 5 : 4; }
    sym_bound("operations", K); sym_bound("handlers", NH); sym_bound("time_bits", B);
    Clock clk((TimeConverter(P)), prio);
    bool grp = c & 1;
    Clock::HandlerBase* h[4];
    Clock::Group g;
    if ( grp ) clk.registerGroup(&g);
    std::vector<int> order;       // active handlers in calling order (plain: registration order, group: fixed order)
    uint64_t due[4];              // first tick allowed
    bool active[4] = { false, false, false, false }, seen[4] = { false, false, false, false };
    int regs = 0; int rank[4];
    for ( int i = 0; i < NH; i++ ) h[i] = mk(i);
    auto nextTick = [&]() {   // next tick time as seen by something registered right now
        uint64_t T = sim->currentSimCycle;
        if ( (T % P == 0) & (T != 0) ) { if ( sim->currentPriority < prio ) return T; }
        return T - T % P + P;
    };
    bool inSleep = true;
    auto doReg = [&](int i) {
        if ( grp ) { if ( !seen[i] ) { seen[i] = true; rank[i] = regs++; g.registerHandler(h[i]); } else h[i]->activate(); }
        else { if ( !seen[i] ) { seen[i] = true; clk.registerHandler(h[i]); } else h[i]->activate(); }
        if ( !active[i] ) { active[i] = true; due[i] = nextTick(); if ( !grp ) rank[i] = regs++; }
    };
    auto tick = [&]() {
        Activity* a = tv->pop();
        SYM_ASSERT(a == &clk, "clock in queue");
        uint64_t t = a->getDeliveryTime();
        SYM_ASSERT(t >= sim->currentSimCycle, "clock scheduled in the past");
        SYM_ASSERT(t % P == 0, "tick not at a multiple of the period");
        sim->currentSimCycle = t; sim->currentPriority = prio;
        calls.clear();
        bool expect[4]; int n = 0;
        for ( int i = 0; i < NH; i++ ) { expect[i] = active[i] && due[i] <= t; SYM_ASSERT(!active[i] | (due[i] >= t), "an active handler missed a tick"); if ( active[i] ) SYM_ASSERT(due[i] == t, "clock ticked before the handler's next tick"); n += active[i]; }
        a->execute();
        SYM_ASSERT((int)calls.size() == n, "every active handler is called exactly once per tick");
        int last = -1;
        for ( auto& x : calls ) {
            SYM_ASSERT(active[x.id], "inactive handler called");
            SYM_ASSERT(x.cyc == t / P, "wrong cycle number");
            SYM_ASSERT(rank[x.id] > last, "handlers called out of order");
            last = rank[x.id];
            due[x.id] = t + P;
            if ( x.ret ) { active[x.id] = false; sym_reach("removed"); }
            sym_reach(grp ? "grouptick" : "tick");
        }
        for ( int i = 0; i < NH; i++ ) SYM_ASSERT(h[i]->isActive() == active[i], "active status");
        sym_log(calls.size());
    };
    int nlive = 0;
    // start: register all or some
    if ( wide ) for ( int i = 0, f = c >= 6; i < NH; i++ ) doReg(f ? NH - 1 - i : i);
    else if ( !arith && sym_flag("all") ) for ( int i = 0; i < NH; i++ ) doReg(i);
    for ( int k = 0; k < K; k++ ) {
        if ( wide ) {
            int op = sym_choose(c >= 6 ? 4 : 2 * NH + 1, "op");   // in the last cases few handlers, more queries
            if ( c >= 6 ) op = op == 0 ? 2 * NH : op == 1 ? sym_choose(NH, "off") : op == 2 ? NH + sym_choose(2, "on") : 2 * NH + 1;
            if ( op < NH ) { if ( !active[op] ) sym_stop(); h[op]->deactivate(); active[op] = false; }
            else if ( op < 2 * NH ) { if ( active[op - NH] ) sym_stop(); doReg(op - NH); }
            else if ( op == 2 * NH ) { if ( tv->empty() ) sym_stop(); remover = sym_choose(NH + 2, "remover"); tick(); }
            else { if ( !tv->empty() ) sym_stop(); sim->currentSimCycle += 3; SYM_ASSERT(clk.getNextCycle() == sim->currentSimCycle / P + 1, "next cycle of an idle clock"); }
            for ( int i = 0; i < NH; i++ ) SYM_ASSERT(h[i]->isActive() == active[i], "active status");
        } else {
        int op = sym_choose(4, "op");
        if ( op == 0 ) {
            if ( tv->empty() ) sym_stop();
            tick();
        } else {
            // time passes without reaching the pending tick
            if ( sym_flag("advance") ) {
                uint64_t d = ar ? sym_bits(th ? 12 : 8, "d") : sym_choose(3, "d");
                uint64_t T = sim->currentSimCycle + d;
                int pr = sym_flag("late") ? 75 : 10;
                if ( d == 0 && pr < sim->currentPriority ) sym_stop();
                if ( !tv->empty() ) { uint64_t f = tv->front()->getDeliveryTime(); sym_assume((T < f) | ((T == f) & (pr < prio))); }
                sim->currentSimCycle = T; sim->currentPriority = pr;
            }
            if ( op == 1 ) {
                int i = sym_choose(NH, "h");
                if ( grp && !seen[i] && i > 0 && !seen[i - 1] ) sym_stop();   // symmetric
                if ( tv->empty() ) sym_reach("regidle");
                doReg(i);
            } else if ( op == 2 ) {
                int i = sym_choose(NH, "h");
                if ( !seen[i] ) sym_stop();
                h[i]->deactivate();
                active[i] = false;
            } else {
                int i = 0;
                while ( i < NH && !active[i] ) i++;
                uint64_t nc = clk.getNextCycle();
                sym_reach("nextcycle");
                if ( i < NH ) SYM_ASSERT(nc == due[i] / P, "next cycle");
                else if ( tv->empty() && (!arith || sim->currentPriority >= prio) ) SYM_ASSERT(nc == sim->currentSimCycle / P + 1 || (sim->currentPriority < prio && sim->currentSimCycle % P == 0), "next cycle of an idle clock");
            }
            for ( int i = 0; i < NH; i++ ) SYM_ASSERT(h[i]->isActive() == active[i], "active status");
        }
        }
        bool any = false;
        for ( int i = 0; i < NH; i++ ) any |= active[i];
        if ( any ) SYM_ASSERT(!tv->empty(), "a clock with active handlers is not scheduled");
        SYM_ASSERT(tv->getCurrentDepth() <= 1, "clock scheduled twice");
    }
    remover = -1;
    while ( !tv->empty() && nlive++ < 1 ) tick();
    return 0;
}
