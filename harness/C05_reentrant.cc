// (De)activation of one handler by another handler of the same clock during a tick.
// @cases 2
// @sources timeVortex.cc simulation.cc action.cc exit.cc impl/oneshotManager.cc timeLord.cc clock.cc
// @stubs output_stub
// @reach inplain ingroup
// @bounds 3 handlers where one (de)activates another while ticking
#include "simfix.h"
#include "sst/core/clock.h"
#include "sst/core/impl/timevortex/timeVortexPQ.cc"
using namespace SST;
namespace {
Simulation* sim; TimeVortex* tv;
struct Call { int id; uint64_t cyc; bool ret; };
std::vector<Call> calls;
Clock::HandlerBase* h[6];
bool removal = true;
int actor = -1, target, op;
struct Comp {
    bool tick(Cycle_t c, int id) {
        bool r = removal && sym_flag("ret"); calls.push_back({ id, c, r });
        if ( id == actor ) { actor = -1; if ( op == 0 ) h[target]->activate(); else h[target]->deactivate(); }
        return r;
    }
    void serialize_order(SST::Core::Serialization::serializer&) {}
};
Comp comp;
Clock::HandlerBase* mk(int i) { return new Clock::Handler<Comp, &Comp::tick, int>(&comp, i); }
}
extern "C" int harness_main() {
    int c = sym_case();
    tv = new IMPL::TimeVortexPQBase<false>(*(Params*)nullptr);
    sim = mkSim(tv, 0);
    sim->endSim = false;
    Clock clk(TimeConverter(4), CLOCKPRIORITY);
    bool active[6] = { false };
    auto tick = [&](uint64_t n) {
        SYM_ASSERT(!tv->empty(), "clock scheduled");
        Activity* a = tv->pop();
        sim->currentSimCycle = a->getDeliveryTime(); sim->currentPriority = CLOCKPRIORITY;
        SYM_ASSERT(a->getDeliveryTime() == 4 * n, "tick time");
        calls.clear();
        a->execute();
        SYM_ASSERT(tv->getCurrentDepth() <= 1, "clock scheduled twice");
    };
    {
        removal = false;
        bool grp = c == 1;
        Clock::Group g;
        if ( grp ) clk.registerGroup(&g);
        for ( int i = 0; i < 3; i++ ) { h[i] = mk(i); if ( grp ) g.registerHandler(h[i]); else clk.registerHandler(h[i]); active[i] = true; }
        target = sym_choose(3, "target"); actor = sym_choose(3, "actor"); op = sym_choose(2, "op");
        if ( target == actor ) sym_stop();
        if ( op == 0 ) { h[target]->deactivate(); active[target] = false; }
        tick(1);
        int count[3] = { 0 };
        for ( auto& x : calls ) count[x.id]++;
        for ( int i = 0; i < 3; i++ ) {
            if ( i == target ) SYM_ASSERT(count[i] <= 1, "handler changed during a tick called more than once");
            else SYM_ASSERT(count[i] == 1, "other handlers are called exactly once in a tick that changes one");
        }
        active[target] = op == 0;
        tick(2);
        for ( int i = 0; i < 3; i++ ) count[i] = 0;
        for ( auto& x : calls ) count[x.id]++;
        for ( int i = 0; i < 3; i++ ) SYM_ASSERT(count[i] == (active[i] ? 1 : 0), "tick after a change calls exactly the active handlers");
        sym_reach(grp ? "ingroup" : "inplain");
    }
    return 0;
}
