// The simulation ends when, and only when, all primary components have agreed.
// @also C02
// @cases 6
// @sources params.cc timeVortex.cc simulation.cc action.cc exit.cc clock.cc impl/oneshotManager.cc timeLord.cc unitAlgebra.cc link.cc event.cc initQueue.cc pollingLinkQueue.cc baseComponent.cc component.cc componentInfo.cc serialization/serializer.cc serialization/serializable.cc serialization/serializable_base.cc serialization/statics.cc serialization/objectMap.cc serialization/impl/unpacker.cc serialization/impl/ser_shared_ptr_tracker.cc
// @stubs output_stub
// @reach ended stopped never reregistered
// @bounds 2 components, each primary or not, registering once or twice, asking or not for the simulation to go on while being built; 3 (thorough 4) later requests by either component to end or to go on, at any distance of 0 to 2 cycles (thorough 3); with and without a stop at any cycle up to the last request plus two
// @outside real-time and signal shutdown; threads (C28_threads)
#include "simfix.h"
#include "sst/core/component.h"
#include "sst/core/componentInfo.h"
#include "sst/core/linkMap.h"
#include "sst/core/stopAction.h"
#include "sst/core/impl/timevortex/timeVortexPQ.cc"
using namespace SST;
namespace {
Simulation* sim; TimeVortex* tv;
struct Comp : public Component {
    explicit Comp(ComponentId_t id) : Component(id) {}
    Comp() = default;
    using BaseComponent::registerAsPrimaryComponent; using BaseComponent::primaryComponentDoNotEndSim; using BaseComponent::primaryComponentOKToEndSim;
    void serialize_order(SST::Core::Serialization::serializer& ser) override { Component::serialize_order(ser); }
    ImplementSerializable(Comp)
};
Comp* comp[2];
bool primary[2], holding[2]; int count; uint64_t lastZero;
int executed;
void hold(int i) { comp[i]->primaryComponentDoNotEndSim(); if ( primary[i] && !holding[i] ) { holding[i] = true; count++; } }
struct Request : public Action {
    int i, op, id;
    Request(int i, int op, int id) : i(i), op(op), id(id) { setPriority(50); }
    void execute() override
    {
        SYM_ASSERT(executed == id, "requests run in order"); executed++;
        if ( op ) comp[i]->primaryComponentOKToEndSim(); else comp[i]->primaryComponentDoNotEndSim();
        delete this;
    }
    NotSerializable(Request)
};
} // namespace
extern "C" int harness_main()
{
    int c = sym_case(), N = sym_tier() ? 4 : 3;
    tv = new IMPL::TimeVortexPQBase<false>(*(Params*)nullptr);
    sim = mkSim(tv); sim->m_exit = new Exit(1, true);
    for ( int i = 0; i < 2; i++ ) { auto* ci = new ComponentInfo(i, i ? "b" : "a"); ci->link_map = new LinkMap(); sim->compInfoMap.insert(ci); comp[i] = new Comp(i); }
    for ( int i = 0; i < 2; i++ ) {
        primary[i] = (c >> i) & 1 || (c >= 4); 
        if ( primary[i] ) { comp[i]->registerAsPrimaryComponent(); if ( c >= 4 && i ) comp[i]->registerAsPrimaryComponent(); }
        if ( i == 0 ? c != 5 : sym_choose(2, "hold") ) hold(i);
    }
    SYM_ASSERT(Simulation::m_exit->getRefCount() == (unsigned)count, "the components that asked to go on are counted");
    // the requests and what has to come of them
    struct R { uint64_t t; int i, op; }; std::vector<R> rs; uint64_t t = 0;
    for ( int k = 0; k < N; k++ ) { t += sym_choose(sym_tier() ? 4 : 3, "step"); R r; r.t = t; r.i = sym_choose(2, "component"); r.op = sym_choose(2, "op"); rs.push_back(r); }
    bool stop = c != 4 && sym_choose(2, "stop"); uint64_t stopAt = stop ? 1 + sym_choose((int)t + 2, "when") : 1000;
    for ( int k = 0; k < N; k++ ) { auto* r = new Request(rs[k].i, rs[k].op, k); sim->insertActivity(rs[k].t, r); }
    { auto* sa = new StopAction(); sim->insertActivity(stopAt, sa); }
    uint64_t end = stopAt, checkAt = ~0ull; int runs = 0; bool byStop = true; int zeros = 0;
    for ( int k = 0; ; k++ ) {
        uint64_t now = k < N ? rs[k].t : ~0ull;
        if ( checkAt < now && checkAt < stopAt ) { if ( count == 0 ) { end = lastZero; byStop = false; break; } checkAt = ~0ull; } // all requests of the cycle come first
        if ( k == N || now >= stopAt ) break; // a stop comes before the requests of its cycle
        runs++;
        int i = rs[k].i;
        if ( rs[k].op == 0 ) { if ( primary[i] && !holding[i] ) { holding[i] = true; count++; if ( zeros ) sym_reach("reregistered"); } }
        else if ( primary[i] && holding[i] ) { holding[i] = false; if ( --count == 0 ) { lastZero = now; checkAt = checkAt < now + 1 ? checkAt : now + 1; zeros++; } }
    }
    sim->run();
    SYM_ASSERT(executed == runs, "the simulation runs on until all agree and not longer");
    SYM_ASSERT(sim->getEndSimCycle() == end, "the end time is when the last component agreed");
    if ( byStop ) SYM_ASSERT(sim->getCurrentSimCycle() == stopAt, "a stop ends the simulation at its time");
    sym_reach(!byStop ? "ended" : stop ? "stopped" : "never");
    if ( !byStop ) { sim->adjustTimeAtSimEnd(); SYM_ASSERT(sim->getCurrentSimCycle() == end, "the last time seen is the end time"); }
    // cleaning up, as at the end of the program
    delete tv;
    Simulation::shutdown();
    return 0;
}
