// One-shot callbacks: each accepted registration fires exactly once, at its time and priority, in registration order among equals.
// @cases 8
// @sources timeVortex.cc simulation.cc action.cc exit.cc impl/oneshotManager.cc timeLord.cc
// @stubs output_stub
// @reach fired rejected nested
// @bounds 3 registrations (thorough 4), absolute or relative, arbitrary times below 2^32, priority from 3 values, one of them made from inside a callback, interleaved with execution; 5 (thorough 6) registrations for times up to 3 cycles ahead and 2 priorities
#include "simfix.h"
#include "sst/core/impl/oneshotManager.h"
#include "sst/core/impl/timevortex/timeVortexPQ.cc"
using namespace SST;
namespace {
Simulation* sim; TimeVortex* tv; Core::OneShotManager* mgr;
struct Reg { uint64_t t; int pr; bool ok; int fired; };
Reg regs[8]; int nregs = 0; bool nestedDone = false; bool allowNested, wide; uint64_t base;
uint64_t lastT; int lastP; int lastId;
struct Comp;
void doReg(bool);
extern Comp comp;
struct Comp {
    void cb(int id) {
        Reg& r = regs[id];
        SYM_ASSERT(r.ok, "a rejected registration fired");
        SYM_ASSERT(r.fired == 0, "fired twice");
        r.fired++;
        SYM_ASSERT(sim->currentSimCycle == r.t, "fired at the wrong time");
        SYM_ASSERT(sim->currentPriority == r.pr, "fired at the wrong priority");
        if ( (r.t == lastT) & (r.pr == lastP) ) SYM_ASSERT(id > lastId, "equal one-shots out of registration order");
        lastT = r.t; lastP = r.pr; lastId = id;
        sym_log(id); sym_reach("fired");
        if ( allowNested && !nestedDone ) { nestedDone = true; doReg(true); sym_reach("nested"); }
    }
    void serialize_order(SST::Core::Serialization::serializer&) {}
} comp;
static const int PR[] = { 10, 40, 75 };
int first;
void doReg(bool) {
    int id = nregs++;
    if ( wide ) {
        int o = id == 0 ? first : sym_choose(6, "when"); uint64_t d = o / 2; int pr = PR[o & 1]; bool rel = (id & 1) != 0;
        uint64_t abs = base + d; if ( rel && abs < sim->currentSimCycle ) abs = sim->currentSimCycle;
        bool past = (abs < sim->currentSimCycle) | ((abs == sim->currentSimCycle) & (pr <= sim->currentPriority));
        regs[id] = { abs, pr, !past, 0 };
        if ( rel ) mgr->registerRelativeHandler<Comp, &Comp::cb, int>(abs - sim->currentSimCycle, pr, &comp, id);
        else mgr->registerAbsoluteHandler<Comp, &Comp::cb, int>(abs, pr, &comp, id);
        return;
    }
    uint64_t t = sym_bits(32, "t"); int pr = PR[sym_choose(sym_tier() ? 3 : 2, "prio")];
    bool rel = sym_flag("rel");
    uint64_t abs = rel ? sim->currentSimCycle + t : t;
    bool past = (abs < sim->currentSimCycle) | ((abs == sim->currentSimCycle) & (pr <= sim->currentPriority));
    regs[id] = { abs, pr, !past, 0 };
    if ( past ) sym_reach("rejected");
    if ( rel ) mgr->registerRelativeHandler<Comp, &Comp::cb, int>(t, pr, &comp, id);
    else mgr->registerAbsoluteHandler<Comp, &Comp::cb, int>(t, pr, &comp, id);
}
bool step() {
    if ( tv->empty() ) return false;
    Activity* a = tv->pop();
    uint64_t t = a->getDeliveryTime(); int pr = a->getPriority();
    SYM_ASSERT((t > sim->currentSimCycle) | ((t == sim->currentSimCycle) & (pr > sim->currentPriority)), "one-shot executed out of time order");
    sim->currentSimCycle = t; sim->currentPriority = pr;
    a->execute();
    return true;
}
}
extern "C" int harness_main() {
    tv = new IMPL::TimeVortexPQBase<false>(*(Params*)nullptr);
    sim = mkSim(tv, sym_case() >= 2 ? 7 : sym_bits(16, "now0"));
    sim->currentPriority = 40;
    mgr = &sim->one_shot_manager_;
    allowNested = sym_case() == 1; wide = sym_case() >= 2; first = sym_case() - 2;
    if ( wide ) { base = sim->currentSimCycle; allowNested = false; }
    int K = (sym_tier() ? 4 : 3) - (allowNested ? 1 : 0);
    if ( wide ) K += 2;
    sym_bound("registrations", K + allowNested);
    lastT = 0; lastP = -1; lastId = -1;
    for ( int k = 0; k < K; k++ ) { doReg(false); if ( k + 1 < K && sym_flag("step") ) step(); }
    while ( step() ) {}
    for ( int i = 0; i < nregs; i++ ) SYM_ASSERT(regs[i].fired == (regs[i].ok ? 1 : 0), "every accepted one-shot fires exactly once");
    return 0;
}
