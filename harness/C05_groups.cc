// Clocks with several groups.
// @cases 1
// @sources timeVortex.cc simulation.cc action.cc exit.cc impl/oneshotManager.cc timeLord.cc clock.cc
// @stubs output_stub
// @reach groups
// @bounds 2 groups of 2 handlers plus one plain handler over 3 ticks with reactivation in between
#include "simfix.h"
#include "sst/core/clock.h"
#include "sst/core/impl/timevortex/timeVortexPQ.cc"
using namespace SST;
namespace {
Simulation* sim; TimeVortex* tv;
struct Call { int id; uint64_t cyc; bool ret; };
std::vector<Call> calls;
Clock::HandlerBase* h[6];
bool removal = true;
int actor = -1, target, op;
struct Comp {
    bool tick(Cycle_t c, int id) {
        bool r = removal && sym_flag("ret"); calls.push_back({ id, c, r });
        if ( id == actor ) { actor = -1; if ( op == 0 ) h[target]->activate(); else h[target]->deactivate(); }
        return r;
    }
    void serialize_order(SST::Core::Serialization::serializer&) {}
};
Comp comp;
Clock::HandlerBase* mk(int i) { return new Clock::Handler<Comp, &Comp::tick, int>(&comp, i); }
}
extern "C" int harness_main() {
    int c = sym_case();
    tv = new IMPL::TimeVortexPQBase<false>(*(Params*)nullptr);
    sim = mkSim(tv, 0);
    sim->endSim = false;
    Clock clk(TimeConverter(4), CLOCKPRIORITY);
    bool active[6] = { false };
    auto tick = [&](uint64_t n) {
        SYM_ASSERT(!tv->empty(), "clock scheduled");
        Activity* a = tv->pop();
        sim->currentSimCycle = a->getDeliveryTime(); sim->currentPriority = CLOCKPRIORITY;
        SYM_ASSERT(a->getDeliveryTime() == 4 * n, "tick time");
        calls.clear();
        a->execute();
        SYM_ASSERT(tv->getCurrentDepth() <= 1, "clock scheduled twice");
    };
    {
        Clock::Group g[2];
        clk.registerGroup(&g[0]); clk.registerGroup(&g[1]);
        int grp[5] = { 0, 0, 1, 1, 2 };
        bool first = sym_flag("first");
        for ( int i = 0; i < 5; i++ ) {
            h[i] = mk(i);
            if ( i < 4 ) g[grp[i]].registerHandler(h[i]); else if ( first ) clk.registerHandler(h[i]);
            active[i] = i < 4 || first;
        }
        for ( int t = 1; t <= 2 + sym_tier(); t++ ) {
            if ( tv->empty() ) sym_stop();
            tick(t);
            int count[6] = { 0 }, last[3] = { -1, -1, -1 };
            for ( auto& x : calls ) {
                count[x.id]++;
                SYM_ASSERT(x.cyc == (uint64_t)t, "cycle");
                SYM_ASSERT(x.id > last[grp[x.id]], "order within the group");
                last[grp[x.id]] = x.id;
            }
            for ( int i = 0; i < 5; i++ ) SYM_ASSERT(count[i] == (active[i] ? 1 : 0), "each active handler of each group exactly once per tick");
            for ( auto& x : calls ) if ( x.ret ) active[x.id] = false;
            sym_reach("groups");
            for ( int i = 0; i < 5; i++ ) SYM_ASSERT(h[i]->isActive() == active[i], "active status");
            int i = sym_choose(6, "re");
            if ( i < 5 && h[i]->clock_ ) {
                if ( sym_flag("on") ) { h[i]->activate(); active[i] = true; } else { h[i]->deactivate(); active[i] = false; }
                SYM_ASSERT(h[i]->isActive() == active[i], "active status");
            }
        }
    }
    return 0;
}
