// Several threads on a rank: the exchange with other ranks delivers every event once, on the right thread, at the right time.
// @cases 8
// @threads
// @sources timeVortex.cc simulation.cc action.cc exit.cc impl/oneshotManager.cc timeLord.cc link.cc event.cc initQueue.cc pollingLinkQueue.cc sync/rankSyncParallelSkip.cc sync/syncQueue.cc serialization/serializer.cc serialization/serializable.cc serialization/serializable_base.cc serialization/statics.cc serialization/objectMap.cc serialization/impl/unpacker.cc serialization/impl/ser_shared_ptr_tracker.cc
// @stubs output_stub
// @flags -fno-inline -DSST_CONFIG_HAVE_MPI=1 -I/usr/lib/x86_64-linux-gnu/openmpi/include
// @reach round sized untimed late flags
// @bounds one rank with 2 threads and 4 links in real RankSyncParallelSkip, exchanging with another rank that does the same; 2 exchanges of up to 5 events of up to 9000 bytes; arbitrary latencies, delays and cycles below 2^8; every interleaving with one preemption in the exchange; messages seen by MPI_Test at once or late
// @assume MPI delivers messages of one pair of ranks and tag in order; the peer rank sends what this one sends (its messages come from the same code)
// @outside more than 2 threads, weak memory order
#include "simfix.h"
#include "sst/core/link.h"
#include "sst/core/linkPair.h"
#include "sst/core/event.h"
#include "sst/core/sync/syncManager.h"
#include "sst/core/sync/rankSyncParallelSkip.h"
#include "sst/core/sync/syncQueue.h"
#include "sst/core/sst_mpi.h"
#include "sst/core/impl/timevortex/timeVortexPQ.cc"
using namespace SST;
namespace {
Simulation* sims[2]; TimeVortex* tvs[2]; RankSyncParallelSkip* rs;
// --- MPI: what is sent to the peer is what the peer sends back
struct Msg { int tag; const char* data; std::vector<char> sent; bool done; };
std::vector<Msg*> wire;
struct Req { Msg* m; void* buf; int len, tag; bool done; unsigned late; };
std::vector<Req*> reqs;
bool lateness; uint64_t peerMin = ~0ull; int32_t peerSig[3], peerFlag[4]; int reduced;
bool same(const Msg& m) // the second word of a header is not used
{
    size_t n = m.sent.size();
    return memcmp(m.data, m.sent.data(), 4) == 0 && memcmp(m.data + 8, m.sent.data() + 8, n - 8) == 0;
}
bool take(void* buf, int len, int tag)
{
    for ( auto* m : wire ) if ( !m->done && m->tag == tag ) {
        SYM_ASSERT((int)m->sent.size() <= len, "a message fits the receive buffer");
        if ( m->sent.size() >= 12 ) SYM_ASSERT(same(*m), "the buffer of a message is not changed before it is sent");
        memcpy(buf, m->sent.data(), m->sent.size());
        m->done = true;
        return true;
    }
    return false;
}
MPI_Request put(Req* r) { reqs.push_back(r); return (MPI_Request)(uintptr_t)reqs.size(); }
int tsize(MPI_Datatype d) { return d == MPI_UINT64_T || d == MPI_INT64_T ? 8 : d == MPI_BYTE ? 1 : 4; }
} // namespace
extern "C" int MPI_Comm_rank(MPI_Comm, int* r) { *r = 0; return 0; }
extern "C" int MPI_Comm_size(MPI_Comm, int* n) { *n = 2; return 0; }
extern "C" int MPI_Barrier(MPI_Comm) { return 0; }
extern "C" int MPI_Isend(const void* b, int n, MPI_Datatype d, int to, int tag, MPI_Comm, MPI_Request* q)
{
    SYM_ASSERT(to == 1, "sent to the rank of the link");
    auto* m = new Msg{ tag, (const char*)b, std::vector<char>((const char*)b, (const char*)b + n * tsize(d)), false };
    wire.push_back(m);
    *q = put(new Req{ m, nullptr, 0, 0, false, 0 });
    return 0;
}
extern "C" int MPI_Irecv(void* b, int n, MPI_Datatype d, int from, int tag, MPI_Comm, MPI_Request* q)
{
    SYM_ASSERT(from == 1, "received from the rank of the link");
    *q = put(new Req{ nullptr, b, n * tsize(d), tag, false, lateness ? sym_choose(3, "late") : 0 });
    return 0;
}
extern "C" int MPI_Test(MPI_Request* q, int* flag, MPI_Status*)
{
    Req* r = reqs[(uintptr_t)*q - 1];
    if ( r->late ) { r->late--; *flag = 0; sym_reach("late"); return 0; }
    *flag = r->m ? r->m->done : take(r->buf, r->len, r->tag);
    return 0;
}
extern "C" int MPI_Waitall(int n, MPI_Request* q, MPI_Status*)
{
    for ( int i = 0; i < n; i++ ) {
        Req* r = reqs[(uintptr_t)q[i] - 1];
        SYM_ASSERT(r->m ? r->m->done : take(r->buf, r->len, r->tag), "every message has a receiver");
    }
    return 0;
}
extern "C" int MPI_Recv(void* b, int n, MPI_Datatype d, int, int tag, MPI_Comm, MPI_Status*) { SYM_ASSERT(take(b, n * tsize(d), tag), "the announced message was sent"); return 0; }
extern "C" int MPI_Allreduce(const void* s, void* out, int n, MPI_Datatype d, MPI_Op op, MPI_Comm)
{
    memcpy(out, s, n * tsize(d));
    if ( op == MPI_MIN && n == 1 && tsize(d) == 8 ) { uint64_t v; memcpy(&v, s, 8); v = peerMin < v ? peerMin : v; memcpy(out, &v, 8); }
    else if ( op == MPI_MAX && (n == 3 || n == 4) && tsize(d) == 4 ) for ( int i = 0; i < n; i++ ) { int32_t v = ((const int32_t*)s)[i], p = n == 3 ? peerSig[i] : peerFlag[i]; ((int32_t*)out)[i] = p > v ? p : v; }
    else if ( op == MPI_SUM && n == 1 && tsize(d) == 4 ) *(int32_t*)out = 2 * *(const int32_t*)s;
    else sym_fail("reduction not modelled");
    reduced++;
    return 0;
}
namespace {
struct Ev : public Event {
    uint32_t id = 0; std::string pad;
    Ev() = default;
    explicit Ev(uint32_t i) : id(i) {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override { Event::serialize_order(ser); SST_SER(id); SST_SER(pad); }
    ImplementSerializable(Ev)
};
struct Comp { void recv(Event*) { sym_fail("nothing is delivered during an exchange"); } void serialize_order(SST::Core::Serialization::serializer&) {} } comp;
// link l = 2 * t + o connects thread t of this rank with thread o of the peer; what is sent on (t,o) arrives at (o,t)
Link* ln[4]; uint64_t lat[4];
struct Info { uint64_t due; int link; size_t pad; bool untimed; } info[16]; int sent;
int back(int l) { return 2 * (l & 1) + (l >> 1); }
void send(int l, uint64_t now, uint64_t d, size_t pad)
{
    sims[l >> 1]->currentSimCycle = now;
    Simulation::instanceMap[std::this_thread::get_id()] = sims[l >> 1];
    Ev* e = new Ev(sent); e->pad.assign(pad, (char)('a' + sent));
    info[sent++] = Info{ now + lat[l] + d, l, pad, false };
    ln[l]->send(d, e);
}
void setup(uint64_t minpart)
{
    Simulation::minPartTC = TimeConverter(minpart);
    Simulation::instanceVec_.clear();
    for ( int t = 0; t < 2; t++ ) { tvs[t] = new IMPL::TimeVortexPQBase<false>(*(Params*)nullptr); }
    for ( int t = 0; t < 2; t++ ) { sims[t] = mkSim(tvs[t], 0, RankInfo(0, t), RankInfo(2, 2)); sims[t]->untimed_phase = 0; }
    Simulation::instanceVec_.clear(); for ( auto* s : sims ) Simulation::instanceVec_.push_back(s);
    Simulation::instanceMap[std::this_thread::get_id()] = sims[0];
    rs = new RankSyncParallelSkip(RankInfo(2, 2));
}
// which: the links there are (1 and 2 only together)
void joinAll(int which)
{
    for ( int l = 0; l < 4; l++ ) {
        int t = l >> 1, o = l & 1;
        if ( !(which & (1 << l)) ) continue;
        Simulation::instanceMap[std::this_thread::get_id()] = sims[t];
        LinkPair* lp = new LinkPair(100 + l);
        lp->getLeft()->setLatency(lat[l]); lp->getRight()->setLatency(0);
        lp->getRight()->setDefaultTimeBase(TimeConverter(1)); lp->getLeft()->setDefaultTimeBase(TimeConverter(1));
        lp->getLeft()->send_queue = rs->registerLink(RankInfo(1, o), RankInfo(0, t), lp->getRight());
        lp->getRight()->setAsSyncLink();
        lp->getLeft()->setFunctor(new Event::Handler<Comp, &Comp::recv>(&comp));
        lp->getLeft()->setTag(3 + l);
        ln[l] = lp->getLeft();
    }
    // what the two ranks tell each other: where the other side's events are to go
    for ( int l = 0; l < 4; l++ ) if ( ln[l] ) ln[l]->setDeliveryInfo((uintptr_t)ln[back(l)]->pair_link);
    if ( sym_case() != 4 ) for ( int l = 0; l < 4; l++ ) if ( ln[l] ) { Simulation::instanceMap[std::this_thread::get_id()] = sims[l >> 1]; ln[l]->finalizeConfiguration(); }
    Simulation::instanceMap[std::this_thread::get_id()] = sims[0];
    rs->finalizeLinkConfigurations();
}
int arrived;
void body(void* p)
{
    int t = (int)(long)p;
    Simulation::instanceMap[std::this_thread::get_id()] = sims[t];
    rs->execute(t);
}
void exchange(uint64_t now)
{
    for ( int t = 0; t < 2; t++ ) sims[t]->currentSimCycle = now;
    sym_spawn(body, (void*)0l); sym_spawn(body, (void*)1l);
    sym_join_all();
}
void check(int from)
{
    bool seen[16] = {};
    for ( int t = 0; t < 2; t++ ) {
        uint64_t last = 0;
        while ( tvs[t]->front()->getDeliveryTime() < 100000 ) {
            Ev* e = (Ev*)tvs[t]->pop();
            SYM_ASSERT((int)e->id >= from && (int)e->id < sent && !seen[e->id], "every event arrives once");
            seen[e->id] = true; arrived++;
            Info& f = info[e->id];
            SYM_ASSERT((f.link & 1) == t, "an event arrives at the thread of its component");
            SYM_ASSERT(e->getDeliveryTime() == f.due && f.due >= last, "an event arrives at send time + latency + delay");
            last = f.due;
            SYM_ASSERT(e->delivery_info == ln[back(f.link)]->pair_link->delivery_info, "an event arrives at its link");
            SYM_ASSERT(e->pad.size() == f.pad && (f.pad == 0 || (e->pad[0] == (char)('a' + e->id) && e->pad[f.pad - 1] == (char)('a' + e->id))), "the content arrives");
            delete e;
        }
    }
    for ( int i = from; i < sent; i++ ) SYM_ASSERT(seen[i], "every event arrives");
    sym_reach("round");
}
} // namespace
struct Tick : public Action { Tick(uint64_t t) { setPriority(40); setDeliveryTime(t); } void execute() override {} NotSerializable(Tick) };
extern "C" int harness_main()
{
    int c = sym_case();
    sym_fair(6);
    static const size_t sz[] = { 0, 5000, 9000 };
    sym_preempt_bound(c == 1 || c == 3 || c == 6 || c == 7 ? 1 : 0);
    bool any = c == 0 || c == 5;
    uint64_t mp = any ? 1 + (uint64_t)sym_bits(8, "minpart") : 5;
    for ( int l = 0; l < 4; l++ ) { lat[l] = any ? (uint64_t)sym_bits(9, "lat") : 5 + l; if ( any ) sym_assume(mp <= lat[l]); }
    setup(mp); joinAll(c == 6 ? (sym_choose(2, "links") ? 9 - 8 * (int)sym_choose(2, "links") : 6) : 15);
    for ( int t = 0; t < 2; t++ ) tvs[t]->insert(new Tick(c == 5 ? 1000 : 100000));
    SYM_ASSERT(rs->getNextSyncTime() == mp, "the first exchange is one interval after the start");
    if ( c == 0 ) { // arbitrary times
        uint64_t now = sym_bits(8, "now"), at = sym_bits(8, "exchange");
        sym_assume(now < at && at <= now + mp);
        int n = (int)sym_choose(5, "events");
        for ( int i = 0; i < n; i++ ) send(i, now, sym_bits(8, "delay"), 0);
        exchange(at); check(0);
    }
    else if ( c == 1 ) { // every interleaving with one preemption
        for ( int i = 0; i < 4; i++ ) send(i, 0, 0, 0);
        exchange(5); check(0);
    }
    else if ( c == 2 ) { // sizes
        for ( int k = 0; k < 2; k++ ) {
            int from = sent;
            for ( int i = 0; i < 3; i++ ) { size_t n = sz[sym_choose(3, "size")]; if ( n ) sym_reach("sized"); send(i, 10 * k, 0, n); }
            exchange(10 * k + 5); check(from);
        }
    }
    else if ( c == 3 ) { // messages seen late
        lateness = true;
        for ( int i = 0; i < 4; i++ ) if ( i != 1 ) send(i, 0, 0, i == 2 ? 5000 : 0);
        exchange(5); check(0);
    }
    else if ( c == 4 ) { // untimed data
        for ( int ph = 0; ph < 2; ph++ ) {
            int n[4];
            for ( int l = 0; l < 4; l++ ) {
                Simulation::instanceMap[std::this_thread::get_id()] = sims[l >> 1];
                n[l] = l == 0 ? 2 : l == 3 ? 1 : (int)sym_choose(ph ? 2 : 3, "data");
                for ( int i = 0; i < n[l]; i++ ) { Ev* e = new Ev(100 * l + 10 * ph + i); e->pad.assign(l == 1 ? sz[sym_choose(3, "size")] : 0, 'u'); ln[l]->sendUntimedData(e); }
            }
            std::atomic<int> count { (int)(sims[0]->untimed_msg_count + sims[1]->untimed_msg_count) };
            SYM_ASSERT(count.load() > 0, "the data sent is counted");
            for ( int l = 0; l < 4; l++ ) SYM_ASSERT(!ln[l]->recvUntimedData(), "untimed data is not visible in the phase it was sent");
            int before = count.load();
            for ( int t = 0; t < 2; t++ ) { Simulation::instanceMap[std::this_thread::get_id()] = sims[t]; rs->exchangeLinkUntimedData(t, count); }
            SYM_ASSERT(count.load() == 2 * before, "the data sent on all ranks is counted");
            for ( int t = 0; t < 2; t++ ) { sims[t]->untimed_phase++; sims[t]->untimed_msg_count = 0; }
            for ( int l = 0; l < 4; l++ ) {
                Simulation::instanceMap[std::this_thread::get_id()] = sims[l & 1];
                for ( int i = 0; i < n[l]; i++ ) { Ev* e = (Ev*)ln[back(l)]->recvUntimedData(); SYM_ASSERT(e && (int)e->id == 100 * l + 10 * ph + i, "untimed data across ranks is complete and in order"); }
                SYM_ASSERT(!ln[back(l)]->recvUntimedData(), "untimed data arrives once");
            }
        }
        sym_reach("untimed");
    }
    else if ( c == 5 ) { // the next exchange, signals and flags
        uint64_t t[2], mn;
        for ( int i = 0; i < 2; i++ ) { t[i] = sym_bits(9, "next"); tvs[i]->insert(new Tick(t[i])); }
        peerMin = sym_bits(9, "peer");
        mn = t[0] < t[1] ? t[0] : t[1]; if ( peerMin < mn ) mn = peerMin;
        int mine[3], fl[4];
        bool sg = sym_choose(2, "what");
        for ( int i = 0; i < 3; i++ ) { mine[i] = sg && sym_choose(2, "signal") ? 10 + i : 0; peerSig[i] = sg && sym_choose(2, "signal") ? 10 + i : 0; }
        for ( int i = 0; i < 4; i++ ) { if ( sg ) { fl[i] = 0; continue; } fl[i] = (int)sym_choose(2, "flag"); peerFlag[i] = i == 2 ? (int)sym_choose(3, "mode") : (int)sym_choose(2, "flag"); }
        if ( !fl[1] ) fl[2] = 0;
        if ( !peerFlag[1] ) peerFlag[2] = 0;
        rs->setSignals(mine[0], mine[1], mine[2]);
        rs->setFlags(fl[0], fl[1], fl[2] ? Simulation::ShutdownMode_t::SHUTDOWN_SIGNAL : Simulation::ShutdownMode_t::SHUTDOWN_CLEAN);
        rs->setFlags(false, false, Simulation::ShutdownMode_t::SHUTDOWN_CLEAN); // the other thread wants nothing
        rs->setCkptFlag(fl[3]); rs->setCkptFlag(false);
        exchange(5);
        SYM_ASSERT(rs->getNextSyncTime() == mn + mp, "the next exchange is one interval after the first activity anywhere");
        int a, b, d; bool sig = rs->getSignals(a, b, d); int got[3] = { a, b, d };
        bool want = false;
        for ( int i = 0; i < 3; i++ ) { int w = mine[i] > peerSig[i] ? mine[i] : peerSig[i]; want |= w != 0; SYM_ASSERT(got[i] == w, "a signal on any rank reaches all"); }
        SYM_ASSERT(sig == want, "a signal is reported");
        bool in, sh, ck; Simulation::ShutdownMode_t mode; rs->getFlags(in, sh, mode); rs->getCkptFlag(ck);
        SYM_ASSERT(in == (fl[0] || peerFlag[0]) && sh == (fl[1] || peerFlag[1]) && ck == (fl[3] || peerFlag[3]), "a request on any rank reaches all");
        int m = fl[2] > peerFlag[2] ? fl[2] : peerFlag[2];
        SYM_ASSERT((int)mode == m || (m == 0 && mode == Simulation::ShutdownMode_t::SHUTDOWN_CLEAN), "with its mode");
        rs->clearFlags(); rs->getFlags(in, sh, mode); rs->getCkptFlag(ck);
        SYM_ASSERT(!in && !sh && !ck, "requests are cleared");
        sym_reach("flags");
    }
    else if ( c == 6 ) { // a thread without links to other ranks
        for ( int k = 0; k < 2; k++ ) {
            int from = sent;
            for ( int l = 0; l < 4; l++ ) if ( ln[l] && (k == 0 || l != 2) ) send(l, 10 * k, 0, 0);
            exchange(10 * k + 5); check(from);
        }
    }
    else { // two exchanges
        for ( int k = 0; k < 2; k++ ) {
            int from = sent;
            send(1, 10 * k, 0, 0); send(k ? 2 : 3, 10 * k, 1, 0); send(1, 10 * k + 1, 0, 0);
            exchange(10 * k + 5); check(from);
        }
    }
    return 0;
}
