// Splitting a model over ranks: events arrive exactly once at the right time, and the ranks end and act on signals together.
// @cases 11
// @threads
// @sources timeVortex.cc simulation.cc action.cc exit.cc impl/oneshotManager.cc timeLord.cc link.cc event.cc initQueue.cc pollingLinkQueue.cc sync/rankSyncSerialSkip.cc sync/rankSyncParallelSkip.cc sync/threadSyncSimpleSkip.cc sync/threadSyncDirectSkip.cc sync/syncQueue.cc sync/syncManager.cc serialization/serializer.cc serialization/serializable.cc serialization/serializable_base.cc serialization/statics.cc serialization/objectMap.cc serialization/impl/unpacker.cc serialization/impl/ser_shared_ptr_tracker.cc
// @stubs output_stub
// @flags -fno-inline -DSST_CONFIG_HAVE_MPI=1 -I/usr/lib/x86_64-linux-gnu/openmpi/include
// @reach crossed answered sizes untimed chain ended signal mismatch
// @bounds 2 ranks joined by 2 links (also 3 ranks in a ring) running the real run loop, sync manager and exchange; arbitrary latencies and added receive latencies below 2^8, wake-up times and delays below 2^10, one send per rank and one answer; messages of 3 exchanges of up to 9000 bytes each, and of sizes that differ by up to 24 bytes; ends and signals at any of 5 cycles
// @assume MPI delivers messages of one pair of ranks and tag in order and a send is complete once received; a message is read from the buffer at any time until then
// @outside real MPI, several threads per rank (C41_parallel), checkpoints
#include "simfix.h"
#include "sst/core/checkpointAction.h"
#include "sst/core/realtime.h"
#include "sst/core/link.h"
#include "sst/core/linkPair.h"
#include "sst/core/event.h"
#include "sst/core/sync/syncManager.h"
#include "sst/core/sync/rankSyncSerialSkip.h"
#include "sst/core/sync/syncQueue.h"
#include "sst/core/stopAction.h"
#include "sst/core/sst_mpi.h"
#include "sst/core/impl/timevortex/timeVortexPQ.cc"
using namespace SST;
namespace {
constexpr int MAXR = 3;
int NR = 2;
Simulation* sims[MAXR]; TimeVortex* tvs[MAXR]; SyncManager* sm[MAXR];
int curRank() { return (int)Simulation::getSimulation()->getRank().rank; }
// --- what is one per process
struct Proc { SimTime_t next; int sig[3]; bool ei, es; unsigned sd; bool gc; RankSync* rs; Exit* ex; } proc[MAXR];
using RS = RankSyncSerialSkip;
void leaveProc(int r)
{
    Proc& p = proc[r];
    p.next = RS::myNextSyncTime; p.sig[0] = RS::sig_end_; p.sig[1] = RS::sig_usr_; p.sig[2] = RS::sig_alrm_;
    p.ei = RS::enter_interactive_; p.es = RS::enter_shutdown_; p.sd = RS::shutdown_mode_; p.gc = RS::generate_ckpt_;
    p.rs = SyncManager::rankSync_; p.ex = Simulation::m_exit;
}
void enterProc(int r)
{
    Proc& p = proc[r];
    RS::myNextSyncTime = p.next; RS::sig_end_ = p.sig[0]; RS::sig_usr_ = p.sig[1]; RS::sig_alrm_ = p.sig[2];
    RS::enter_interactive_ = p.ei; RS::enter_shutdown_ = p.es; RS::shutdown_mode_ = p.sd; RS::generate_ckpt_ = p.gc;
    SyncManager::rankSync_ = p.rs; Simulation::m_exit = p.ex; Simulation::instanceVec_[0] = sims[r];
    Simulation::instanceMap[std::this_thread::get_id()] = sims[r];
}
bool failed = false;
template <class F> void block(F until)
{
    int r = curRank();
    leaveProc(r);
    while ( !until() ) { if ( failed ) { enterProc(r); throw SymFatal{ 1 }; } sym_pause(); }
    enterProc(r);
}
// --- MPI: messages wait at the sender until received
struct Msg { int from, to, tag; const char* data; std::vector<char> sent; bool done; };
std::vector<Msg*> wire;
struct Req { Msg* m; void* buf; int len, from, me, tag; };
std::vector<Req*> reqs;
bool same(const Msg& m) // the second word of a header is not used
{
    size_t n = m.sent.size(); if ( n < 12 ) return memcmp(m.data, m.sent.data(), n) == 0;
    return memcmp(m.data, m.sent.data(), 4) == 0 && memcmp(m.data + 8, m.sent.data() + 8, n - 8) == 0;
}
bool take(void* buf, int len, int from, int me, int tag)
{
    for ( auto* m : wire ) if ( !m->done && m->from == from && m->to == me && m->tag == tag ) {
        SYM_ASSERT((int)m->sent.size() <= len, "a message fits the receive buffer");
        memcpy(buf, m->sent.data(), m->sent.size());
        SYM_ASSERT(same(*m), "the buffer of a message is not changed before it is sent");
        m->done = true;
        return true;
    }
    return false;
}
MPI_Request put(Req* r) { reqs.push_back(r); return (MPI_Request)(uintptr_t)reqs.size(); }
struct Coll { char buf[MAXR][64]; int n, gen; } coll;
} // namespace
extern "C" int MPI_Comm_rank(MPI_Comm, int* r) { *r = curRank(); return 0; }
extern "C" int MPI_Comm_size(MPI_Comm, int* n) { *n = NR; return 0; }
extern "C" int MPI_Barrier(MPI_Comm) { int g = coll.gen; if ( ++coll.n == NR ) { coll.n = 0; coll.gen++; } else block([&] { return coll.gen != g; }); return 0; }
namespace { int tsize(MPI_Datatype d) { return d == MPI_UINT64_T || d == MPI_INT64_T ? 8 : d == MPI_BYTE ? 1 : 4; } }
extern "C" int MPI_Isend(const void* b, int n, MPI_Datatype d, int to, int tag, MPI_Comm, MPI_Request* q)
{
    auto* m = new Msg{ curRank(), to, tag, (const char*)b, std::vector<char>((const char*)b, (const char*)b + n * tsize(d)), false };
    wire.push_back(m);
    *q = put(new Req{ m, nullptr, 0, 0, 0, 0 });
    return 0;
}
extern "C" int MPI_Irecv(void* b, int n, MPI_Datatype d, int from, int tag, MPI_Comm, MPI_Request* q) { *q = put(new Req{ nullptr, b, n * tsize(d), from, curRank(), tag }); return 0; }
extern "C" int MPI_Waitall(int n, MPI_Request* q, MPI_Status*)
{
    for ( int i = 0; i < n; i++ ) {
        Req* r = reqs[(uintptr_t)q[i] - 1];
        if ( r->m ) block([&] { return r->m->done; }); else block([&] { return take(r->buf, r->len, r->from, r->me, r->tag); });
    }
    return 0;
}
extern "C" int MPI_Send(const void* b, int n, MPI_Datatype d, int to, int tag, MPI_Comm c) { MPI_Request q; MPI_Isend(b, n, d, to, tag, c, &q); return MPI_Waitall(1, &q, nullptr); }
extern "C" int MPI_Recv(void* b, int n, MPI_Datatype d, int from, int tag, MPI_Comm c, MPI_Status*) { MPI_Request q; MPI_Irecv(b, n, d, from, tag, c, &q); return MPI_Waitall(1, &q, nullptr); }
extern "C" int MPI_Allreduce(const void* s, void* out, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c)
{
    memcpy(coll.buf[curRank()], s, n * tsize(d));
    MPI_Barrier(c);
    for ( int i = 0; i < n; i++ ) {
        uint64_t v = 0;
        for ( int r = 0; r < NR; r++ ) {
            uint64_t x = 0; memcpy(&x, coll.buf[r] + i * tsize(d), tsize(d));
            if ( r == 0 ) v = x; else if ( op == MPI_SUM ) v += x; else if ( op == MPI_MIN ) v = x < v ? x : v; else if ( op == MPI_MAX ) v = x > v ? x : v; else sym_fail("reduction not modelled");
        }
        memcpy((char*)out + i * tsize(d), &v, tsize(d));
    }
    MPI_Barrier(c);
    return 0;
}
namespace SST {
bool CheckpointAction::getCheckpoint() { return false; }
void CheckpointAction::setCheckpoint() {}
SimTime_t CheckpointAction::check(SimTime_t) { return MAX_SIMTIME_T; }
SimTime_t CheckpointAction::getNextCheckpointSimTime() { return MAX_SIMTIME_T; }
}
namespace {
int sigAt[MAXR], sigKind[MAXR]; struct Done { int sig; uint64_t t; }; std::vector<Done> done[MAXR]; 
}
namespace SST {
bool RealTimeManager::getSignals(int& a, int& b, int& c)
{
    a = b = c = 0; int r = curRank();
    if ( sigAt[r] >= 0 && (uint64_t)sigAt[r] <= sims[r]->getCurrentSimCycle() ) { (sigKind[r] == 0 ? a : sigKind[r] == 1 ? b : c) = 10 + sigKind[r]; sigAt[r] = -1; }
    return a || b || c;
}
void RealTimeManager::performSignal(int s) { done[curRank()].push_back({ s, sims[curRank()]->getCurrentSimCycle() }); }
}
namespace {
struct Ev : public Event {
    uint32_t id = 0; uint64_t due = 0; int to = 0, link = 0; std::string pad;
    Ev() = default;
    Ev(uint32_t i, uint64_t d, int t, int l) : id(i), due(d), to(t), link(l) {}
    void serialize_order(SST::Core::Serialization::serializer& ser) override { Event::serialize_order(ser); SST_SER(id); SST_SER(due); SST_SER(to); SST_SER(link); SST_SER(pad); }
    ImplementSerializable(Ev)
};
constexpr int NL = 2;
Link* ln[MAXR][MAXR][NL]; // [rank][peer][link]
uint64_t sendLat[MAXR][MAXR][NL], recvLat[MAXR][MAXR][NL];
struct Info { uint64_t due; int to, from, link; bool dead; size_t pad; } info[24];
int sent, received, answer, hops; size_t padded;
void doSend(int r, int to, int l, uint64_t d, size_t pad = 0)
{
    uint64_t due = sims[r]->currentSimCycle + sendLat[r][to][l] + recvLat[to][r][l] + d;
    Ev* e = new Ev(sent, due, to, l); e->pad.assign(pad, (char)('a' + sent));
    info[sent++] = Info{ due, to, r, l, false, pad };
    ln[r][to][l]->send(d, e);
}
struct Comp {
    int me;
    void recv(Event* ev)
    {
        Ev* e = (Ev*)ev;
        SYM_ASSERT(e->id < (uint32_t)sent, "only what was sent arrives");
        Info& f = info[e->id];
        SYM_ASSERT(e->to == me && f.to == me && curRank() == me && e->link == f.link, "delivered to the right side");
        SYM_ASSERT(!f.dead, "delivered twice");
        SYM_ASSERT(sims[me]->currentSimCycle == f.due && e->due == f.due, "an event across ranks arrives at send time + latency + delay");
        SYM_ASSERT(e->pad.size() == f.pad, "the content arrives");
        for ( size_t i = 0; i < f.pad; i += 499 ) if ( e->pad[i] != (char)('a' + e->id) ) sym_fail("the content arrives");
        if ( f.pad && e->pad.back() != (char)('a' + e->id) ) sym_fail("the content arrives");
        padded += e->pad.size();
        f.dead = true;
        for ( uint32_t i = 0; i < e->id; i++ ) if ( !info[i].dead && info[i].to == me && info[i].from == f.from && info[i].link == f.link ) SYM_ASSERT(info[i].due != f.due, "send order kept among equal arrival times of one link");
        received++; sym_reach("crossed");
        if ( answer > 0 ) { answer--; doSend(me, f.from, 0, 0); sym_reach("answered"); }
        if ( hops > 0 ) { hops--; doSend(me, (me + 1) % NR, 0, 0); sym_reach("chain"); }
        delete e;
    }
    void serialize_order(SST::Core::Serialization::serializer&) {}
} comps[MAXR] = { { 0 }, { 1 }, { 2 } };
struct Wake : public Action {
    int t, to, l; uint64_t d; size_t pad;
    Wake(int t, int to, int l, uint64_t d, size_t pad = 0) : t(t), to(to), l(l), d(d), pad(pad) { setPriority(40); }
    void execute() override { doSend(t, to, l, d, pad); delete this; }
    NotSerializable(Wake)
};
uint64_t lateRun;
struct Release : public Action {
    int t; bool hold;
    explicit Release(int t, bool hold = false) : t(t), hold(hold) { setPriority(50); }
    void execute() override { if ( hold ) Simulation::m_exit->refInc(0); else Simulation::m_exit->refDec(0); delete this; }
    NotSerializable(Release)
};
struct Late : public Action {
    Late() { setPriority(50); }
    void execute() override { lateRun++; delete this; }
    NotSerializable(Late)
};
bool withRecv, untimed, mismatch, timing; int fatals; uint64_t ends[MAXR]; SimTime_t interval[MAXR];
int phaseBarrier;
uint64_t configured;
RealTimeManager* rtm;
void untimedPhase(int r);
void body(void* p)
{
    int r = (int)(long)p;
    enterProc(r);
    try {
        sm[r]->exchangeLinkInfo();
        if ( untimed ) untimedPhase(r);
        interval[r] = sm[r]->findRankSyncInterval();
        sm[r]->updateMinPart();
        for ( int q = 0; q < NR; q++ ) for ( int l = 0; l < NL; l++ ) if ( ln[r][q][l] ) ln[r][q][l]->finalizeConfiguration();
        sm[r]->finalizeLinkConfigurations();
        if ( timing ) { sims[r]->run(); ends[r] = sims[r]->getCurrentSimCycle(); }
    }
    catch ( SymFatal& ) { fatals++; failed = true; }
    leaveProc(r);
}

void setup(int nr, uint64_t minpart)
{
    NR = nr; sym_preempt_bound(-1);
    rtm = (RealTimeManager*)calloc(1, sizeof(RealTimeManager));
    Simulation::minPartTC = TimeConverter(minpart); configured = minpart;
    Simulation::runBarrier.resize(1); Simulation::exitBarrier.resize(1);
    for ( int r = 0; r < NR; r++ ) {
        tvs[r] = new IMPL::TimeVortexPQBase<false>(*(Params*)nullptr);
        sims[r] = mkSim(tvs[r], 0, RankInfo(r, 0), RankInfo(NR, 1));
        sims[r]->untimed_phase = 0; sigAt[r] = -1;
        Simulation::m_exit = new Exit(1, false);
        sm[r] = new SyncManager(RankInfo(r, 0), RankInfo(NR, 1), minpart, sims[r]->interThreadLatencies, rtm);
        sims[r]->syncManager = sm[r];
        leaveProc(r);
    }
}
void join(int r, int q, int l, uint64_t lat) // rank r's end of a link to rank q
{
    enterProc(r);
    LinkPair lp(100 + l + 10 * (r < q ? r * MAXR + q : q * MAXR + r));
    sendLat[r][q][l] = lat; recvLat[r][q][l] = 0;
    lp.getLeft()->setLatency(lat); lp.getRight()->setLatency(0);
    lp.getRight()->setDefaultTimeBase(TimeConverter(1)); lp.getLeft()->setDefaultTimeBase(TimeConverter(1));
    lp.getLeft()->send_queue = sm[r]->registerLink(RankInfo(q, 0), RankInfo(r, 0), lp.getRight());
    lp.getRight()->setAsSyncLink();
    lp.getLeft()->setFunctor(new Event::Handler<Comp, &Comp::recv>(&comps[r]));
    lp.getLeft()->setTag(3 + l);
    ln[r][q][l] = lp.getLeft();
    leaveProc(r);
}
void addRecv(int r, int q, int l, uint64_t lat) { enterProc(r); recvLat[r][q][l] = lat; ln[r][q][l]->addRecvLatency(lat, TimeConverter(1)); leaveProc(r); }
void untimedPhase(int r)
{
    int q = 1 - r;
    for ( int ph = 0; ph < 2; ph++ ) {
        for ( int k = 0; k < 2; k++ ) ln[r][q][0]->sendUntimedData(new Ev(10 * ph + k, 0, q, 0));
        ln[r][q][1]->sendUntimedData(new Ev(10 * ph + 2, 0, q, 1));
        if ( ph == 0 ) SYM_ASSERT(!ln[r][q][0]->recvUntimedData() && !ln[r][q][1]->recvUntimedData(), "untimed data is not visible in the phase it was sent");
        std::atomic<int> count { (int)sims[r]->untimed_msg_count };
        sm[r]->exchangeLinkUntimedData(count);
        sims[r]->untimed_phase++;
        Ev* a = (Ev*)ln[r][q][0]->recvUntimedData(); Ev* b = (Ev*)ln[r][q][0]->recvUntimedData(); Ev* x = (Ev*)ln[r][q][1]->recvUntimedData();
        SYM_ASSERT(a && b && x && (int)a->id == 10 * ph && (int)b->id == 10 * ph + 1 && (int)x->id == 10 * ph + 2 && a->to == r && x->to == r, "untimed data across ranks is complete and in order");
        SYM_ASSERT(!ln[r][q][0]->recvUntimedData() && !ln[r][q][1]->recvUntimedData(), "untimed data arrives once");
        SYM_ASSERT(count.load() > 0, "the data sent is counted");
    }
    sym_reach("untimed");
}
void at(int r, uint64_t t, Action* a) { a->setDeliveryTime(t); tvs[r]->insert(a); }
void go()
{
    for ( int r = 0; r < NR; r++ ) { StopAction* sa = new StopAction(); at(r, MAX_SIMTIME_T, sa); }
    Simulation::instanceMap.clear();
    for ( int r = 0; r < NR; r++ ) sym_spawn(body, (void*)(long)r);
    sym_join_all();
}
void hold(int r, uint64_t until) { enterProc(r); Simulation::m_exit->refInc(0); leaveProc(r); at(r, until, new Release(r)); }
} // namespace
extern "C" int harness_main()
{
    int c = sym_case();
    if ( c < 3 ) { // arbitrary times
        uint64_t lat[2][2], rl[2][2] = {}, mn = 0; timing = true;
        for ( int r = 0; r < 2; r++ ) for ( int l = 0; l < 2; l++ ) { lat[r][l] = sym_bits(8, "lat"); sym_assume(lat[r][l] != 0); }
        mn = sym_bits(8, "minpart"); sym_assume(mn != 0); for ( int r = 0; r < 2; r++ ) for ( int l = 0; l < 2; l++ ) sym_assume(mn <= lat[r][l]); // the configured minimum
        setup(2, mn);
        for ( int r = 0; r < 2; r++ ) for ( int l = 0; l < 2; l++ ) join(r, 1 - r, l, lat[r][l]);
        
        if ( c == 1 ) { rl[0][0] = sym_bits(8, "recv"); addRecv(0, 1, 0, rl[0][0]); }
        hold(0, 20000);
        uint64_t w0 = sym_bits(10, "wake");
        at(0, w0, new Wake(0, 1, 0, c == 0 ? sym_bits(10, "delay") : 0));
        if ( c != 2 ) at(1, sym_bits(10, "wake"), new Wake(1, 0, sym_choose(2, "link"), 0)); else answer = 1;
        if ( c == 2 ) at(0, w0, new Wake(0, 1, 0, sym_bits(10, "delay")));
        go();
        SYM_ASSERT(!fatals, "no error");
        SYM_ASSERT(received == sent && sent >= 2, "every event sent arrives");
        SYM_ASSERT(interval[0] == interval[1] && interval[0] > 0, "the ranks agree on how often to exchange");
        for ( int r = 0; r < 2; r++ ) for ( int l = 0; l < 2; l++ ) SYM_ASSERT(interval[r] <= lat[r][l] + rl[1 - r][l], "the exchange is no rarer than any latency");
        SYM_ASSERT(ends[0] == ends[1] && sims[0]->getEndSimCycle() == 20000 && sims[1]->getEndSimCycle() == 20000, "the ranks end together");
        return 0;
    }
    if ( c == 3 || c == 4 ) { // messages of different sizes
        static const size_t sz[] = { 0, 3000, 5000, 9000 };
        setup(2, 5); timing = true;
        for ( int r = 0; r < 2; r++ ) for ( int l = 0; l < 2; l++ ) join(r, 1 - r, l, 5 + l);
        hold(0, 400);
        size_t total = 0;
        for ( int k = 0; k < 3; k++ ) {
            size_t a = sz[sym_choose(4, "size")]; total += a;
            at(0, 100 * k, new Wake(0, 1, 0, 0, a));
            if ( c == 4 ) {
                size_t b = k == 2 ? 5000 : sz[2 * sym_choose(2, "size")]; total += b; at(1, 100 * k, new Wake(1, 0, 1, 0, b));
                size_t d = k == 1 ? sz[sym_choose(2, "more")] : 0; if ( d ) { total += d; at(0, 100 * k + 1, new Wake(0, 1, 1, 0, d)); }
            }
        }
        go();
        SYM_ASSERT(!fatals && received == sent && padded == total, "everything sent arrives whatever its size");
        SYM_ASSERT(ends[0] == ends[1], "the ranks end together");
        sym_reach("sizes");
        return 0;
    }
    if ( c == 5 ) { // untimed data, and the interval
        uint64_t lat[2][2], rl[2][2]; uint64_t mn = ~0ull;
        for ( int r = 0; r < 2; r++ ) for ( int l = 0; l < 2; l++ ) { lat[r][l] = sym_bits(8, "lat"); rl[r][l] = sym_bits(8, "recv"); }
        setup(2, 1);
        bool swap = sym_choose(2, "order");
        for ( int r = 0; r < 2; r++ ) for ( int l = 0; l < 2; l++ ) { int ll = swap && r ? 1 - l : l; join(r, 1 - r, ll, lat[r][ll]); }
        for ( int r = 0; r < 2; r++ ) for ( int l = 0; l < 2; l++ ) addRecv(r, 1 - r, l, rl[r][l]);
        untimed = true;
        go();
        SYM_ASSERT(!fatals, "no error");
        bool some = false, all = true;
        for ( int r = 0; r < 2; r++ ) for ( int l = 0; l < 2; l++ ) { uint64_t t = lat[r][l] + rl[1 - r][l]; all &= interval[0] <= t; some |= interval[0] == t; }
        SYM_ASSERT(all && some && interval[0] == interval[1], "the exchange interval is the smallest total latency, on all ranks");
        for ( int r = 0; r < 2; r++ ) { enterProc(r); SYM_ASSERT(sm[r]->getSyncIntervals().first == interval[r] && SyncManager::rankSync_->getNextSyncTime() <= 1, "and is used"); }
        return 0;
    }
    if ( c == 6 ) { // three ranks
        setup(3, 2); timing = true;
        uint64_t la[3] = { 2, 2, 2 }; la[sym_choose(3, "slow")] += sym_choose(3, "by");
        for ( int r = 0; r < 3; r++ ) { int q = (r + 1) % 3; join(r, q, 0, la[r]); join(q, r, 0, la[(r + 1) % 3]); }
        hold(2, 26); hops = 3;
        at(0, sym_choose(2, "wake"), new Wake(0, 1 + sym_choose(2, "peer"), 0, 2 * sym_choose(2, "delay")));
        at(2, sym_choose(sym_tier() ? 4 : 2, "wake"), new Wake(2, sym_choose(2, "peer"), 0, 0));
        go();
        SYM_ASSERT(!fatals && received == sent && sent == 5, "every event sent arrives");
        for ( int r = 0; r < 3; r++ ) SYM_ASSERT(ends[r] == ends[0] && sims[r]->getEndSimCycle() == 26, "the ranks end together");
        return 0;
    }
    if ( c == 7 ) { // the end
        setup(2, 2); timing = true;
        for ( int r = 0; r < 2; r++ ) join(r, 1 - r, 0, 2 + r);
        uint64_t rel[2], last = 0; int what = (int)sym_choose(3, "holds");
        for ( int r = 0; r < 2; r++ ) if ( what == 2 || what == r ) { rel[r] = sym_choose(5, "release"); hold(r, rel[r]); if ( rel[r] > last ) last = rel[r]; }
        bool again = what == 0 && sym_choose(2, "again");
        if ( again ) { uint64_t h = sym_choose(8, "hold"); at(1, h, new Release(1, true)); at(1, h + 1 + sym_choose(3, "release"), new Release(1)); }
        for ( int r = 0; r < 2; r++ ) { for ( uint64_t t = 0; t < 40; t += 2 ) { if ( t >= 30 ) at(r, t, new Late); } }
        go();
        SYM_ASSERT(!fatals, "no error");
        SYM_ASSERT(ends[0] == ends[1] && sims[0]->getEndSimCycle() == sims[1]->getEndSimCycle() && !lateRun, "the ranks end together and nothing runs after the end");
        if ( !again ) SYM_ASSERT(sims[0]->getEndSimCycle() == last && ends[0] <= 30 + 2, "the end time is when the last component on any rank agreed");
        for ( int r = 0; r < 2; r++ ) { enterProc(r); SYM_ASSERT(Simulation::m_exit->getRefCount() == 0, "not before all agree"); leaveProc(r); }
        sym_reach("ended");
        return 0;
    }
    if ( c == 8 ) { // signals
        setup(2, 2); timing = true;
        for ( int r = 0; r < 2; r++ ) join(r, 1 - r, 0, 2);
        hold(0, 20);
        int who = (int)sym_choose(3, "who");
        for ( int r = 0; r < 2; r++ ) if ( who == r || who == 2 ) { sigAt[r] = (int)sym_choose(5, "when"); sigKind[r] = (int)sym_choose(3, "kind"); }
        int when[2] = { sigAt[0], sigAt[1] };
        for ( int r = 0; r < 2; r++ ) for ( uint64_t t = 0; t < 20; t += 2 ) at(r, t, new Late);
        go();
        SYM_ASSERT(!fatals && ends[0] == ends[1], "no error");
        SYM_ASSERT(done[0].size() == done[1].size() && done[0].size() >= 1, "all ranks act on a signal");
        for ( size_t i = 0; i < done[0].size() && i < done[1].size(); i++ ) SYM_ASSERT(done[0][i].sig == done[1][i].sig && done[0][i].t == done[1][i].t, "on the same signal at the same time");
        if ( who < 2 ) SYM_ASSERT(done[0].size() == 1 && done[0][0].sig == 10 + sigKind[who] && done[0][0].t >= (uint64_t)when[who] && done[0][0].t <= (uint64_t)when[who] + 6, "once, at the next exchange");
        sym_reach("signal");
        return 0;
    }
    if ( c == 10 ) { // a message a little larger than the one before
        setup(2, 5); timing = true;
        for ( int r = 0; r < 2; r++ ) join(r, 1 - r, 0, 5);
        hold(0, 300);
        size_t a = 3900 + 1100 * sym_choose(2, "size"), b = a + (a < 4000 ? 8 * sym_choose(25, "by") : sym_choose(25, "by"));
        at(0, 0, new Wake(0, 1, 0, 0, a)); at(0, 100, new Wake(0, 1, 0, 0, b)); at(0, 200, new Wake(0, 1, 0, 0, b + 4));
        go();
        SYM_ASSERT(!fatals && received == sent && padded == a + b + b + 4, "everything sent arrives whatever its size");
        sym_reach("sizes");
        return 0;
    }
    // ends of a link that do not match are reported
    setup(2, 2);
    join(0, 1, 0, 2); 
    int k = (int)sym_choose(3, "kind");
    if ( k == 0 ) join(1, 0, 1, 2);
    if ( k == 1 ) { join(1, 0, 0, 2); join(1, 0, 1, 2); }
    if ( k == 2 ) { join(0, 1, 1, 2); join(1, 0, 0, 2); }
    go();
    SYM_ASSERT(fatals >= 1, "links that do not match are an error");
    sym_reach("mismatch");
    return 0;
}
