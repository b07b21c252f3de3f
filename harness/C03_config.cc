// Latencies and time bases of a link given as values, text or units, up to large time bases.
// @cases 4
// @sources timeVortex.cc simulation.cc action.cc exit.cc impl/oneshotManager.cc link.cc event.cc initQueue.cc pollingLinkQueue.cc timeLord.cc unitAlgebra.cc
// @stubs output_stub
// @reach config
// @bounds one send with current time and link latency below 2^16 (thorough 2^40), added latency and delay below 2^16 of a time base from 1 ps to 1 s, one a frequency; the time base given as text or value
// @assume sums of time, latency and delay do not overflow 64 bits
#include "simfix.h"
#include "sst/core/link.h"
#include "sst/core/linkPair.h"
#include "sst/core/event.h"
#include "sst/core/timeLord.h"
#include "sst/core/unitAlgebra.h"
#include "sst/core/impl/timevortex/timeVortexPQ.cc"
using namespace SST;
namespace {
struct Ev : public Event { uint64_t due; Ev(uint64_t d) : due(d) {} NotSerializable(Ev) };
struct Comp { int me; void recv(Event*) {} void serialize_order(SST::Core::Serialization::serializer&) {} };
}
extern "C" int harness_main() {
    Units::registerBaseUnit("s"); Units::registerCompoundUnit("Hz", "1/s");
    const unsigned B = sym_tier() ? 40 : 16;
    TimeVortex* tv = new IMPL::TimeVortexPQBase<false>(*(Params*)nullptr);
    Simulation* sim = mkSim(tv, sym_bits(B, "now0"));
    sim->untimed_phase = 0; Simulation::getTimeLord()->init("1ps");
    Comp L { 1 }, R { 2 };
    uint64_t lat = sym_bits(B, "lat");
    LinkPair lp(7);
    Link *l = lp.getLeft(), *r = lp.getRight();
    l->setLatency(lat); r->setLatency(lat);
    l->setFunctor(new Event::Handler<Comp, &Comp::recv>(&L)); r->setFunctor(new Event::Handler<Comp, &Comp::recv>(&R));
    static const char* U[] = { "1ps", "7ps", "1ns", "1us", "1ms", "10ms", "1s", "3GHz" };
    static const uint64_t F[] = { 1, 7, 1000, 1000000, 1000000000, 10000000000ull, 1000000000000ull, 333 };
    int u = sym_choose(8, "unit"), v = sym_choose(8, "tb");
    l->setDefaultTimeBase(TimeConverter(F[v])); r->setDefaultTimeBase(TimeConverter(F[v]));
    uint32_t n = sym_bits(16, "n"); uint64_t toR = lat, toL = lat;
    switch ( sym_case() ) {
    case 0: l->addSendLatency((int)n, std::string(U[u])); toR += n * F[u]; break;
    case 1: l->addSendLatency(n, TimeConverter(F[u])); toR += n * F[u]; break;
    case 2: l->addRecvLatency((int)n, std::string(U[u])); toL += n * F[u]; break;
    default: l->addRecvLatency(n, TimeConverter(F[u])); toL += n * F[u]; break;
    }
    l->finalizeConfiguration(); r->finalizeConfiguration();
    SYM_ASSERT(l->getDefaultTimeBase().getFactor() == F[v], "the time base is kept");
    uint64_t now = sim->getCurrentSimCycle(); uint32_t d = sym_bits(16, "d"); bool fromL = sym_flag("fromL");
    Ev* e = new Ev(now + (fromL ? toR : toL) + d * F[v]);
    (fromL ? l : r)->send(d, e);
    SYM_ASSERT(e->getDeliveryTime() == e->due, "added latencies and delays are converted from their time base");
    sym_reach("config");
    return 0;
}
