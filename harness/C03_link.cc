// Links: an event arrives exactly once, at the other end only, at send time + link latency + requested delay, in send order.
// @cases 6
// @sources timeVortex.cc simulation.cc action.cc exit.cc impl/oneshotManager.cc link.cc event.cc initQueue.cc pollingLinkQueue.cc timeLord.cc
// @stubs output_stub
// @reach handler polled untimed self attach order
// @bounds 2 sends (thorough 3) with current time, latency, added latency and delay below 2^16 (thorough 2^40); time base from {1,3,1000}
// @assume sums of time, latency and delay do not overflow 64 bits (the run loop reports overflow as a time fault, see C02)
#include "simfix.h"
#include "sst/core/link.h"
#include "sst/core/linkPair.h"
#include "sst/core/event.h"
#include "sst/core/impl/timevortex/timeVortexPQ.cc"
using namespace SST;
namespace {
struct Ev : public Event { int id; uint64_t due; bool toLeft; bool dead = false; Ev(int i, uint64_t d, bool l) : id(i), due(d), toLeft(l) {} NotSerializable(Ev) };
Simulation* sim; TimeVortex* tv;
std::vector<std::pair<int, Event*>> got;
struct Comp { int me; void recv(Event* e) { got.emplace_back(me, e); } void serialize_order(SST::Core::Serialization::serializer&) {} };
}
extern "C" int harness_main() {
    tv = new IMPL::TimeVortexPQBase<false>(*(Params*)nullptr);
    sim = mkSim(tv, sym_bits(sym_tier() ? 40 : 16, "now0"));
    sim->untimed_phase = 0;
    const unsigned B = sym_tier() ? 40 : 16;
    int N = sym_tier() ? 3 : 2;
    sym_bound("delay_bits", B);
    sym_bound("sends", N);
    Comp L { 1 }, R { 2 };
    uint64_t lat = sym_bits(B, "lat");
    int c = sym_case();
    if ( c <= 1 ) {
        LinkPair lp(7);
        Link *l = lp.getLeft(), *r = lp.getRight();
        l->setLatency(lat); r->setLatency(lat);
        if ( c == 0 ) {
            l->setFunctor(new Event::Handler<Comp, &Comp::recv>(&L)); r->setFunctor(new Event::Handler<Comp, &Comp::recv>(&R));
        } else { l->setFunctor(new Event::Handler<Comp, &Comp::recv>(&L)); r->setPolling(); }
        l->setTag(5); r->setTag(9);
        uint64_t latL = lat, latR = lat;   // latency seen by an event leaving L / R
        static const uint64_t F[] = { 1, 3, 1000 };
        uint64_t f = F[sym_choose(3, "tb")], f2 = F[sym_choose(2, "tb2")];
        l->setDefaultTimeBase(TimeConverter(f)); r->setDefaultTimeBase(TimeConverter(f));
        if ( sym_flag("addS") ) { uint64_t x = sym_bits(B, "addS"); l->addSendLatency(x, TimeConverter(f2)); latL += x * f2; }
        if ( sym_flag("addR") ) { uint64_t x = sym_bits(B, "addR"); l->addRecvLatency(x, TimeConverter(f2)); latR += x * f2; }
        bool fat = false;
        try { l->send(new Ev(0, 0, false)); } catch ( SymFatal& ) { fat = true; }
        SYM_ASSERT(fat && tv->empty(), "sending during initialisation must be rejected");
        l->finalizeConfiguration(); r->finalizeConfiguration();
        std::vector<Ev*> all;
        for ( int i = 0; i < N; i++ ) {
            bool fromL = c == 1 ? true : sym_flag("fromL");
            Link* s = fromL ? l : r;
            uint64_t now = sim->getCurrentSimCycle() , lt = fromL ? latL : latR, due; Ev* e;
            switch ( sym_choose(3, "how") ) {
            case 0: due = now + lt; e = new Ev(i, due, !fromL); s->send(e); break;
            case 1: { uint64_t d = sym_bits(B, "d"); due = now + lt + d * f; e = new Ev(i, due, !fromL); s->send(d, e); break; }
            default: { uint64_t d = sym_bits(B, "d"); due = now + lt + d * f2; e = new Ev(i, due, !fromL); s->send(d, TimeConverter(f2), e); break; }
            }
            SYM_ASSERT(e->getDeliveryTime() == due, "delivery time is not current time + latency + delay");
            all.push_back(e);
            sim->currentSimCycle = now + sym_bits(B, "dt");
        }
        if ( c == 0 ) {
            uint64_t last = 0;
            for ( int i = 0; i < N; i++ ) {
                SYM_ASSERT(!tv->empty(), "event lost");
                Activity* a = tv->pop();
                SYM_ASSERT(a->getDeliveryTime() >= last, "delivered out of time order");
                last = a->getDeliveryTime();
                sim->currentSimCycle = last;
                size_t n0 = got.size();
                a->execute();
                SYM_ASSERT(got.size() == n0 + 1, "an event is delivered exactly once");
                Ev* e = (Ev*)got.back().second;
                SYM_ASSERT(e->due == last && !e->dead, "delivered at the wrong time or twice");
                SYM_ASSERT(got.back().first == (e->toLeft ? 1 : 2), "delivered to the wrong endpoint");
                e->dead = true;
                bool fifo = true;
                for ( Ev* o : all ) if ( !o->dead && o->toLeft == e->toLeft && o->id < e->id ) fifo &= o->due != e->due;
                SYM_ASSERT(fifo, "two events of one link with equal delivery time delivered out of send order");
                sym_log(e->id);
                sym_reach("handler");
            }
            SYM_ASSERT(tv->empty(), "event duplicated");
        } else {
            SYM_ASSERT(tv->empty(), "events for a polling link must wait in the link");
            for ( int k = 0; k < N + 1; k++ ) {
                sim->currentSimCycle = sim->currentSimCycle + sym_bits(B + 12, "poll_dt");
                uint64_t now = sim->currentSimCycle;
                Event* e = r->recv();
                if ( e ) {
                    Ev* x = (Ev*)e;
                    SYM_ASSERT(x->due <= now && !x->dead, "polled before it is due or twice");
                    x->dead = true;
                    bool ok = true;
                    for ( Ev* o : all ) if ( !o->dead ) ok &= (o->due > x->due) | ((o->due == x->due) & (o->id > x->id));
                    SYM_ASSERT(ok, "poll does not return the earliest event");
                    sym_log(x->id);
                    sym_reach("polled");
                } else {
                    bool ok = true;
                    for ( Ev* o : all ) if ( !o->dead ) ok &= o->due > now;
                    SYM_ASSERT(ok, "poll returned nothing although an event was due");
                }
            }
            bool fat2 = false;
            try { l->recv(); } catch ( SymFatal& ) { fat2 = true; }
            SYM_ASSERT(fat2, "polling a handler link must be rejected");
        }
    } else if ( c == 2 ) {
        // untimed (init/complete) data: visible to the other side from the next phase on, in order, once
        LinkPair lp(7);
        Link *l = lp.getLeft(), *r = lp.getRight();
        bool phase2 = sym_flag("complete");
        l->setFunctor(new Event::Handler<Comp, &Comp::recv>(&L));
        if ( sym_flag("poll") ) r->setPolling(); else r->setFunctor(new Event::Handler<Comp, &Comp::recv>(&R));
        if ( phase2 ) {
            l->finalizeConfiguration(); r->finalizeConfiguration();
            bool fat = false; try { l->sendUntimedData(new Ev(0, 0, false)); } catch ( SymFatal& ) { fat = true; }
            SYM_ASSERT(fat, "untimed data cannot be sent while running");
            l->prepareForComplete(); r->prepareForComplete();
            fat = false; try { l->send(new Ev(0, 0, false)); } catch ( SymFatal& ) { fat = true; }
            SYM_ASSERT(fat, "timed data cannot be sent in the complete phase");
        }
        std::vector<Ev*> q[2]; size_t head[2] = { 0, 0 };
        int sent = 0;
        for ( int ph = 0; ph < 3; ph++ ) {
            sim->untimed_phase = ph;
            for ( int side = 0; side < 2; side++ ) {
                Link* me = side ? r : l;
                // receive everything visible
                while ( true ) {
                    Event* e = me->recvUntimedData();
                    if ( !e ) break;
                    SYM_ASSERT(head[side] < q[side].size() && e == q[side][head[side]], "untimed data lost, duplicated or reordered");
                    SYM_ASSERT(((Ev*)e)->due <= (uint64_t)ph, "untimed data visible before the next phase");
                    head[side]++;
                    sym_reach("untimed");
                }
                for ( size_t i = head[side]; i < q[side].size(); i++ ) SYM_ASSERT(q[side][i]->due > (uint64_t)ph, "untimed data of an earlier phase was not delivered");
                unsigned k = sym_choose(3, "n");
                for ( unsigned i = 0; i < k; i++ ) { Ev* e = new Ev(sent++, ph + 1, side == 1); me->sendUntimedData(e); q[1 - side].push_back(e); }
            }
        }
        SYM_ASSERT(Simulation::untimed_msg_count == sent, "pending untimed message count");
    } else if ( c == 3 ) {
        // self link
        SelfLink* s = new SelfLink();
        s->setFunctor(new Event::Handler<Comp, &Comp::recv>(&L));
        s->setLatency(0);
        s->setDefaultTimeBase(TimeConverter(3));
        s->finalizeConfiguration();
        uint64_t d = sym_bits(B, "d"), now = sim->getCurrentSimCycle();
        Ev* e = new Ev(0, now + d * 3, true);
        s->send(d, e);
        s->send(nullptr);
        for ( int i = 0; i < 2; i++ ) { Activity* a = tv->pop(); sim->currentSimCycle = a->getDeliveryTime(); a->execute(); }
        SYM_ASSERT(got.size() == 2 && tv->empty(), "self link delivers to itself");
        bool nullFirst = got[0].second == nullptr;
        SYM_ASSERT(nullFirst == (d != 0), "null event (sent later, no delay) ordered by time then send order");
        SYM_ASSERT((nullFirst ? got[1] : got[0]).second == e && (nullFirst ? got[0] : got[1]).second == nullptr, "a null event arrives as a null pointer");
        SYM_ASSERT(e->getDeliveryTime() == now + d * 3, "self link adds no latency");
        sym_reach("self");
    } else if ( c == 5 ) {
        // events that arrive together on different links are handled in the order of the links, however they were sent
        LinkPair p1(7), p2(8);
        Link* src[2] = { p1.getLeft(), p2.getLeft() }; Link* dst[2] = { p1.getRight(), p2.getRight() };
        uint64_t la[2] = { lat, (uint64_t)sym_bits(B, "lat2") };
        uint32_t tag[2] = { sym_u32("tag"), sym_u32("tag") }; sym_assume(tag[0] < tag[1] && tag[1] != 0xffffffffu); // all ones marks a link without tag
        for ( int i = 0; i < 2; i++ ) {
            src[i]->setLatency(la[i]); dst[i]->setLatency(la[i]); src[i]->setDefaultTimeBase(TimeConverter(1)); dst[i]->setDefaultTimeBase(TimeConverter(1));
            src[i]->setFunctor(new Event::Handler<Comp, &Comp::recv>(&L)); dst[i]->setFunctor(new Event::Handler<Comp, &Comp::recv>(&R));
            src[i]->setTag(tag[i]); dst[i]->setTag(tag[i]);
            src[i]->finalizeConfiguration(); dst[i]->finalizeConfiguration();
        }
        bool first = sym_flag("first"); uint64_t now = sim->getCurrentSimCycle();
        Ev* e[2];
        for ( int k = 0; k < 2; k++ ) {
            int i = first ? 1 - k : k; uint64_t d = sym_bits(B, "d");
            e[i] = new Ev(i, now + la[i] + d, false); src[i]->send(d, e[i]);
        }
        sym_assume(e[0]->due == e[1]->due);
        for ( int k = 0; k < 2; k++ ) { Activity* a = tv->pop(); sim->currentSimCycle = a->getDeliveryTime(); a->execute(); }
        SYM_ASSERT(tv->empty() && got.size() == 2 && got[0].second == e[0] && got[1].second == e[1], "events arriving together are handled in the order of their links");
        sym_reach("order");
    } else {
        // attach points may observe or drop
        LinkPair lp(7);
        Link *l = lp.getLeft(), *r = lp.getRight();
        l->setLatency(lat); r->setLatency(lat);
        l->setFunctor(new Event::Handler<Comp, &Comp::recv>(&L)); r->setFunctor(new Event::Handler<Comp, &Comp::recv>(&R));
        struct AP : public Link::AttachPoint {
            uintptr_t key; bool drop = false; int seen = 0;
            AP(uintptr_t k) : key(k) {}
            uintptr_t registerLinkAttachTool(const AttachPointMetaData&) override { return key; }
            void eventSent(uintptr_t k, Event*& ev) override { SYM_ASSERT(k == key, "attach point called with a foreign key"); seen++; if ( drop ) { delete ev; ev = nullptr; } }
        } a(11), b(22);
        LinkId_t id0 = l->getId();
        AttachPointMetaData md;
        l->attachTool(&a, md); 
        SYM_ASSERT(l->getId() == id0, "link id changed by attaching a tool");
        bool two = sym_flag("two");
        if ( two ) l->attachTool(&b, md);
        SYM_ASSERT(l->getId() == id0 && r->getId() == id0, "link id changed by attaching tools");
        l->finalizeConfiguration(); r->finalizeConfiguration();
        a.drop = sym_flag("dropA"); b.drop = sym_flag("dropB");
        bool det = sym_flag("detach");
        if ( det ) l->detachTool(&a);
        Ev* e = new Ev(0, 0, false);
        l->send(e);
        bool dropped = (!det && a.drop) || (two && b.drop);
        SYM_ASSERT(a.seen == (det ? 0 : 1), "attached tool is called once per send, a detached one never");
        SYM_ASSERT(b.seen == ((two && !( !det && a.drop)) ? 1 : 0), "second tool called exactly when the event is still there");
        SYM_ASSERT(tv->size() == (dropped ? 0 : 1), "event delivered exactly when no tool dropped it");
        r->send(new Ev(1, 0, true));
        SYM_ASSERT(a.seen == (det ? 0 : 1), "a tool only sees the endpoint it is attached to");
        sym_reach("attach");
    }
    return 0;
}
