// Checkpoint and restart: a run restarted from a checkpoint continues exactly as the run that was not stopped.
// @cases 5
// @sources params.cc timeVortex.cc simulation.cc action.cc exit.cc clock.cc impl/oneshotManager.cc timeLord.cc unitAlgebra.cc link.cc event.cc initQueue.cc pollingLinkQueue.cc baseComponent.cc component.cc componentInfo.cc output.cc serialization/serializer.cc serialization/serializable.cc serialization/serializable_base.cc serialization/statics.cc serialization/objectMap.cc serialization/impl/unpacker.cc serialization/impl/ser_shared_ptr_tracker.cc serialization/impl/serialize_array.cc serialization/impl/serialize_shared_ptr.cc serialization/impl/serialize_trivial.cc
// @reach events clocks selfpoll groups exit pending
// @bounds two components joined by a link pair with handlers (or a polling end), plus a self link; arbitrary latencies below 2^10 and 2 (thorough 3) sends with arbitrary delays below 2^12; two plain clock handlers and clock groups of 2 handlers with periods 1 to 3; checkpoint at any time below 2^12 (clocks: 0..7); the continuation is followed until no event is pending (clocks: 6 further cycles); in-memory buffers
// @assume the checkpoint is taken between cycles, after every activity of the current cycle has run (as the checkpoint action does), and order between plain clock handlers of one cycle is not part of the property (clock groups exist to order handlers)
// @outside checkpoint file names and layout on disk, repartitioned and multi-rank restarts, statistics (C18), shared objects (C14)
#include "simfix.h"
#include "sst/core/component.h"
#include "sst/core/componentInfo.h"
#include "sst/core/link.h"
#include "sst/core/linkMap.h"
#include "sst/core/linkPair.h"
#include "sst/core/event.h"
#include "sst/core/impl/timevortex/timeVortexPQ.cc"
using namespace SST;
using namespace SST::Core::Serialization;
namespace {
struct Ev : public Event {
    uint32_t id = 0;
    Ev() = default;
    explicit Ev(uint32_t i) : id(i) {}
    void serialize_order(serializer& ser) override { Event::serialize_order(ser); SST_SER(id); }
    ImplementSerializable(Ev)
};
struct Rec { int comp, kind; uint64_t t, v; };
std::vector<Rec>* curLog;
Simulation* sim; TimeVortex* tv;
struct Comp : public Component {
    int me = 0; uint32_t seen = 0; uint32_t maxTicks = 100;
    Link* x = nullptr; Link* q = nullptr; Link* self = nullptr;
    explicit Comp(ComponentId_t id) : Component(id), me((int)id) {}
    Comp() = default;
    void note(int kind, uint64_t v) { curLog->push_back({ me, kind, getCurrentSimCycle(), v }); }
    void recv(Event* e) { seen++; note(1, ((Ev*)e)->id); delete e; }
    void recvSelf(Event* e) { seen++; note(2, ((Ev*)e)->id); uint32_t i = ((Ev*)e)->id; delete e; if ( i < 100 ) x->send(i + 100 + seen, new Ev(i + 100)); }
    bool tick(Cycle_t c, int h) { note(10 + h, c); if ( q ) { while ( Event* e = q->recv() ) { note(3, ((Ev*)e)->id); delete e; } } return --maxTicks == 0; }
    void serialize_order(serializer& ser) override { Component::serialize_order(ser); SST_SER(me); SST_SER(seen); SST_SER(maxTicks); SST_SER(x); SST_SER(q); SST_SER(self); }
    ImplementSerializable(Comp)
    using BaseComponent::configureLink; using BaseComponent::registerClock; using BaseComponent::unregisterClock; using BaseComponent::reregisterClock;
    using BaseComponent::registerAsPrimaryComponent; using BaseComponent::primaryComponentDoNotEndSim; using BaseComponent::primaryComponentOKToEndSim;
    using BaseComponent::getName;
    template <int H> Clock::HandlerBase* clk(uint64_t p) { auto* h = new Clock::Handler<Comp, &Comp::tick, int>(this, H); registerClock(TimeConverter(p), h, false); return h; }
};
ComponentInfo* mkInfo(ComponentId_t id, const char* nm) { auto* i = new ComponentInfo(id, nm); i->link_map = new LinkMap(); sim->compInfoMap.insert(i); return i; }
void drain(uint64_t until)
{
    while ( !tv->empty() && tv->front()->getDeliveryTime() <= until ) {
        Activity* a = tv->pop();
        SYM_ASSERT(a->getDeliveryTime() >= sim->currentSimCycle, "time does not run backwards");
        sim->currentSimCycle = a->getDeliveryTime(); sim->currentPriority = a->getPriority();
        a->execute();
    }
}
Simulation* fresh(uint64_t now)
{
    tv = new IMPL::TimeVortexPQBase<false>(*(Params*)nullptr);
    sim = mkSim(tv, now);
    sim->m_exit = new Exit(1, true);
    return sim;
}
struct Blob { char* p; size_t n; };
std::vector<Blob> checkpoint()
{
    serializer ser; ser.enable_pointer_tracking();
    std::vector<Blob> out;
    sim->tv_sort_.data.clear();
    sim->timeVortex->getContents(sim->tv_sort_.data);
    sim->tv_sort_.sortData();
    for ( auto it = sim->compInfoMap.begin(); it != sim->compInfoMap.end(); ++it ) {
        ComponentInfo* ci = *it;
        ser.start_sizing(); SST_SER(ci);
        size_t n = ser.size(); char* p = (char*)malloc(n);
        ser.start_packing(p, n); SST_SER(ci);
        SYM_ASSERT(ser.size() == n, "the checkpoint has the size that was computed");
        out.push_back({ p, n });
    }
    sim->tv_sort_.data.clear();
    return out;
}
void restart(std::vector<Blob>& b)
{
    serializer ser; ser.enable_pointer_tracking();
    for ( auto& x : b ) {
        ser.start_unpacking(x.p, x.n);
        ComponentInfo* ci = nullptr; SST_SER(ci);
        SYM_ASSERT(ser.size() == x.n, "the restart reads the whole checkpoint");
        sim->compInfoMap.insert(ci);
    }
}
void compare(std::vector<Rec>& a, std::vector<Rec>& b, int comp, int kindLo, int kindHi)
{
    std::vector<Rec> x, y;
    for ( auto& r : a ) if ( r.comp == comp && r.kind >= kindLo && r.kind <= kindHi ) x.push_back(r);
    for ( auto& r : b ) if ( r.comp == comp && r.kind >= kindLo && r.kind <= kindHi ) y.push_back(r);
    SYM_ASSERT(x.size() == y.size(), "the restarted run handles the same number of activities");
    for ( size_t i = 0; i < x.size() && i < y.size(); i++ ) {
        SYM_ASSERT(x[i].kind == y[i].kind && x[i].v == y[i].v, "the restarted run handles the same activities in the same order");
        SYM_ASSERT(x[i].t == y[i].t, "the restarted run handles activities at the same times");
    }
}
}
extern "C" int harness_main()
{
    int c = sym_case();
    fresh(0);
    std::vector<Rec> log0, log1, log2; curLog = &log0;
    auto* ia = mkInfo(0, "a"); auto* ib = mkInfo(1, "b");
    int N = sym_tier() ? 3 : 2;
    uint64_t la = c >= 3 ? 2 : sym_bits(10, "la"), lb = c >= 3 ? 3 : sym_bits(10, "lb"), ls = c >= 3 ? 0 : sym_bits(10, "ls");
    sym_assume((la > 0) & (lb > 0));
    LinkPair lp(5), lq(6); Link* sl = new SelfLink();
    lp.getLeft()->setLatency(la); lp.getRight()->setLatency(lb); lp.getLeft()->setTag(1); lp.getRight()->setTag(2);
    lq.getLeft()->setLatency(lb); lq.getRight()->setLatency(la); lq.getLeft()->setTag(3); lq.getRight()->setTag(4);
    sl->setLatency(ls); sl->setTag(5);
    for ( Link* l : { lp.getLeft(), lp.getRight(), lq.getLeft(), lq.getRight(), sl } ) l->setDefaultTimeBase(TimeConverter(1));
    ia->link_map->insertLink("x", lp.getLeft()); ib->link_map->insertLink("x", lp.getRight());
    ia->link_map->insertLink("q", lq.getLeft()); ib->link_map->insertLink("q", lq.getRight());
    ia->link_map->insertLink("s", sl);
    Comp* a = new Comp(0); Comp* b = new Comp(1);
    TimeConverter one(1);
    a->x = a->configureLink("x", one, new Event::Handler<Comp, &Comp::recv>(a));
    b->x = b->configureLink("x", one, new Event::Handler<Comp, &Comp::recv>(b));
    a->self = a->configureLink("s", one, new Event::Handler<Comp, &Comp::recvSelf>(a));
    Link* sendq = a->configureLink("q", one, new Event::Handler<Comp, &Comp::recv>(a));
    b->q = b->configureLink("q", one);
    SYM_ASSERT(a->x && b->x && a->self && b->q, "links are configured");
    bool prim = c == 0 && sym_flag("prim"), ok = prim && sym_flag("ok");
    sim->runMode = SimulationRunMode::RUN;
    if ( prim ) { sim->m_exit->refInc(0); b->registerAsPrimaryComponent(); b->primaryComponentDoNotEndSim(); if ( ok ) b->primaryComponentOKToEndSim(); sym_reach("exit"); }
    ia->finalizeLinkConfiguration(); ib->finalizeLinkConfiguration();
    uint64_t T, H;
    std::vector<Clock::HandlerBase*> hs;
    if ( c <= 2 ) {   // events
        T = sym_bits(12, "T"); H = ~0ull;
        for ( int i = 0; i < N; i++ ) {
            uint64_t d = sym_bits(12, "d");
            int w = sym_choose(c == 0 ? 2 : 3, "way");
            if ( c == 0 ) { Link* l = w ? a->x : b->x; l->send(d, new Ev(i)); }
            else if ( c == 1 ) { if ( w == 0 ) a->self->send(d, new Ev(i)); else if ( w == 1 ) a->x->send(d, new Ev(i)); else b->x->send(d, new Ev(i)); sym_reach("selfpoll"); }
            else { if ( w == 0 ) sendq->send(d, new Ev(i)); else if ( w == 1 ) b->q->send(d, new Ev(i)); else a->x->send(d, new Ev(i)); }
        }
        sym_reach("events");
    }
    else {
        T = sym_choose(sym_tier() ? 14 : 6, "T"); H = T + 6;
        uint64_t p0 = 1 + sym_choose(3, "p0"), p1 = 1 + sym_choose(3, "p1");
        b->maxTicks = 1 + sym_choose(4, "ticks");
        if ( c == 3 ) {
            hs.push_back(a->clk<0>(p0)); hs.push_back(b->clk<1>(p1));
            uint64_t un = sym_choose(sym_tier() ? 9 : 5, "un");   // a's handler is taken off at this time, and put back two cycles later when asked to
            bool back = sym_flag("back");
            if ( un < T ) { drain(un); sim->currentSimCycle = un; sim->currentPriority = 90; a->unregisterClock(TimeConverter(p0), hs[0]); if ( back && un + 2 <= T ) { drain(un + 2); sim->currentSimCycle = un + 2; a->reregisterClock(TimeConverter(p0), hs[0]); } }
            sendq->send(3, new Ev(9));
            sym_reach("clocks");
        }
        else {
            a->maxTicks = 1 + sym_choose(sym_tier() ? 6 : 4, "ticksA");
            for ( int k = 0; k < 2; k++ ) { auto* h = k ? (Clock::HandlerBase*)new Clock::Handler<Comp, &Comp::tick, int>(a, 1) : (Clock::HandlerBase*)new Clock::Handler<Comp, &Comp::tick, int>(a, 0); a->registerClock_impl(TimeConverter(p0), h, false, true); }
            hs.push_back(b->clk<2>(p1));
            sym_reach("groups");
        }
    }
    drain(T);
    sim->currentSimCycle = T; sim->currentPriority = 98;
    if ( !tv->empty() ) sym_reach("pending");
    auto blobs = checkpoint();
    unsigned refs = sim->m_exit->getRefCount();
    curLog = &log1;
    auto poll = [&](Comp* p, uint64_t t) { sim->currentSimCycle = t; while ( Event* e = p->q->recv() ) { p->note(3, ((Ev*)e)->id); delete e; } };
    uint64_t tp = T + (c == 2 ? sym_bits(12, "tp") : 0);
    if ( c == 2 ) { drain(tp); poll(b, tp); drain(tp + 8192); poll(b, tp + 8192); }
    drain(H);
    // the restarted run
    fresh(T); sim->currentPriority = 98; curLog = &log2;
    Link::is_restart_same_parallelism = true;
    restart(blobs);
    if ( prim ) SYM_ASSERT(sim->m_exit->getRefCount() == (ok ? 0u : 1u) && refs == 1u + (ok ? 0u : 1u), "primary components that have not signed off are counted again");
    auto* i0 = sim->compInfoMap.getByID(0); auto* i1 = sim->compInfoMap.getByID(1);
    SYM_ASSERT(i0 && i1 && i0->getName() == "a" && i1->getName() == "b", "every component comes back");
    Comp* a2 = (Comp*)i0->component; Comp* b2 = (Comp*)i1->component;
    SYM_ASSERT(a2 && b2 && a2 != a && b2 != b && a2->me == 0 && b2->me == 1, "components keep their state");
    SYM_ASSERT(a2->x == i0->link_map->getLink("x") && b2->x == i1->link_map->getLink("x"), "ports and link pointers agree");
    if ( c == 2 ) { drain(tp); poll(b2, tp); drain(tp + 8192); poll(b2, tp + 8192); }
    drain(H);
    for ( int k = 0; k < 2; k++ ) {
        compare(log1, log2, k, 1, 2); compare(log1, log2, k, 3, 3);
        if ( c == 4 && k == 0 ) compare(log1, log2, k, 10, 11);
        else for ( int h = 10; h < 13; h++ ) compare(log1, log2, k, h, h);
    }
    if ( c >= 3 ) for ( auto& r : log2 ) SYM_ASSERT(r.t > T, "no activity of the checkpointed cycle is repeated");
    // both copies can still talk to each other at the original latency
    if ( c == 0 ) {
        size_t n1 = log2.size(); uint64_t now = sim->currentSimCycle;
        a2->x->send(new Ev(77)); drain(~0ull);
        SYM_ASSERT(log2.size() == n1 + 1 && log2.back().comp == 1 && log2.back().v == 77 && log2.back().t == now + la, "a restarted link keeps its ends and its latency");
        now = sim->currentSimCycle;
        b2->x->send(new Ev(78)); drain(~0ull);
        SYM_ASSERT(log2.size() == n1 + 2 && log2.back().comp == 0 && log2.back().v == 78 && log2.back().t == now + lb, "a restarted link keeps its ends and its latency");
    }
    return 0;
}
