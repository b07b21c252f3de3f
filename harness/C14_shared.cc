// Shared arrays, maps and sets hold the union of what all instances on all ranks wrote, and refuse conflicting or late writes.
// @cases 12
// @threads
// @sources shared/sharedObject.cc simulation.cc timeVortex.cc action.cc exit.cc impl/oneshotManager.cc timeLord.cc serialization/serializer.cc serialization/serializable.cc serialization/serializable_base.cc serialization/statics.cc serialization/objectMap.cc serialization/impl/unpacker.cc serialization/impl/ser_shared_ptr_tracker.cc
// @stubs output_stub
// @flags -fno-inline -DSST_CONFIG_HAVE_MPI=1 -I/usr/lib/x86_64-linux-gnu/openmpi/include
// @reach arrayfe arrayinit arrayno boolfe map mapno set single sizes mismatch restart late
// @bounds 2 ranks (also 1) with 1 or 2 instances each, 3 operations (thorough 4) before a last exchange, out of writing either of 2 positions with values of 2 bits, publishing and exchanging, in any order; any requested lengths up to 3; all combinations of initial values and verification modes
// @assume ranks exchange in lockstep through MPI_Allgather(v), which is replaced by an exact model; values equal to the initial value are not written in the mode that compares against it
// @outside real MPI, more than 2 ranks, element types other than bytes and booleans
#include "simfix.h"
#include "sst/core/shared/sharedObject.h"
#include "sst/core/shared/sharedArray.h"
#include "sst/core/shared/sharedMap.h"
#include "sst/core/shared/sharedSet.h"
#include "sst/core/objectComms.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
using namespace SST;
using namespace SST::Shared;
using Mgr = SharedObjectDataManager;
namespace {
int  NR = 2;
Simulation* sims[2];
int  curRank() { return (int)Simulation::getSimulation()->getRank().rank; }
// collective operations: every rank deposits its part, the last one to arrive releases all
struct Coll { const void* part[2]; size_t len[2]; int arrived, gen; bool broken; } coll;
void arrive()
{
    int g = coll.gen;
    if ( ++coll.arrived == NR ) { coll.arrived = 0; coll.gen++; }
    else while ( coll.gen == g && !coll.broken ) sym_pause();
}
void collect(const void* p, size_t n) { int r = curRank(); coll.part[r] = p; coll.len[r] = n; arrive(); }
void leave() { arrive(); Mgr::update_mtx.lock(); if ( coll.broken ) throw SymFatal{ 1 }; } // an error on one rank ends all
} // namespace
extern "C" int MPI_Comm_rank(MPI_Comm, int* r) { *r = curRank(); return 0; }
extern "C" int MPI_Comm_size(MPI_Comm, int* n) { *n = NR; return 0; }
extern "C" int MPI_Allgather(const void* s, int sn, MPI_Datatype, void* d, int dn, MPI_Datatype, MPI_Comm)
{
    Mgr::update_mtx.unlock(); // the ranks are processes: only their threads share this mutex
    collect(s, sn); if ( coll.broken ) { Mgr::update_mtx.lock(); throw SymFatal{ 1 }; }
    for ( int i = 0; i < NR; i++ ) memcpy((char*)d + (size_t)i * dn, coll.part[i], dn);
    leave();
    return 0;
}
extern "C" int MPI_Allgatherv(const void* s, int sn, MPI_Datatype, void* d, const int* dn, const int* disp, MPI_Datatype, MPI_Comm)
{
    Mgr::update_mtx.unlock();
    collect(s, sn); if ( coll.broken ) { Mgr::update_mtx.lock(); throw SymFatal{ 1 }; }
    for ( int i = 0; i < NR; i++ ) { SYM_ASSERT((size_t)dn[i] == coll.len[i], "the receive size is what the rank sends"); memcpy((char*)d + disp[i], coll.part[i], dn[i]); }
    leave();
    return 0;
}
namespace {
struct Saved { std::map<std::string, SharedObjectData*> d; bool locked = false; } saved[2];
int active = 0;
void use(int r) // makes rank r's data the content of the process-wide manager
{
    Mgr& m = SharedObject::manager;
    saved[active].d.swap(m.shared_data); saved[active].locked = m.locked;
    active = r;
    m.shared_data.swap(saved[r].d); m.locked = saved[r].locked;
    Simulation::instanceMap[std::this_thread::get_id()] = sims[r];
}
Mgr* mg[2]; bool fin, fatalIn[2];
void upd(void* p)
{
    int r = (int)(long)p;
    Simulation::instanceMap[std::this_thread::get_id()] = sims[r];
    try { mg[r]->updateState(fin); } catch ( SymFatal& ) { fatalIn[r] = true; coll.broken = true; }
}
bool exchange(bool f) // one exchange by all ranks; true if a rank reported an error
{
    fin = f;
    if ( NR == 1 ) { use(0); try { SharedObject::manager.updateState(f); } catch ( SymFatal& ) { return true; } return false; }
    use(0); use(1); use(0);
    for ( int r = 0; r < 2; r++ ) { use(r); mg[r]->shared_data = SharedObject::manager.shared_data; mg[r]->locked = SharedObject::manager.locked; }
    // errors are found when applying, between two collectives: a rank that fails never returns to the other
    fatalIn[0] = fatalIn[1] = false; coll.arrived = 0; coll.broken = false;
    for ( long r = 0; r < 2; r++ ) sym_spawn(upd, (void*)r);
    sym_join_all();
    for ( int r = 0; r < 2; r++ ) { use(r); SharedObject::manager.shared_data = mg[r]->shared_data; SharedObject::manager.locked = mg[r]->locked; }
    return fatalIn[0] || fatalIn[1];
}
void init(int nr)
{
    NR = nr;
    sym_preempt_bound(0);
    for ( int r = 0; r < nr; r++ ) { sims[r] = mkSim(nullptr, 0, RankInfo(r, 0), RankInfo(nr, 1)); mg[r] = (Mgr*)new (malloc(sizeof(Mgr))) Mgr(); }
    use(0);
}
constexpr int P = 2;
// what each kind of object offers
template <class T> struct ArrK {
    static constexpr bool fixed = true; SharedArray<T> o; static inline int seen = -1;
    void write(int i, unsigned v) { o.write(i, (T)v); }
    bool has(int i) { return i < (int)o.size(); }
    unsigned get(int i) { SYM_ASSERT(o.mutex_read(i) == o[i], "both ways of reading agree"); return o[i]; }
    size_t size() { return o.size(); }
};
struct MapK {
    static constexpr bool fixed = false; SharedMap<uint8_t, uint8_t> o;
    void write(int i, unsigned v) { o.write(i, v); }
    bool has(int i) {
        bool h = o.find(i) != o.end(); SYM_ASSERT(o.count(i) == (h ? 1u : 0u), "count and find agree");
        auto lo = o.lower_bound(i), up = o.upper_bound(i);
        SYM_ASSERT(lo == o.end() || lo->first >= i, "lower_bound is not before the key"); SYM_ASSERT(up == o.end() || up->first > i, "upper_bound is after the key");
        if ( h ) { SYM_ASSERT(lo == o.find(i), "lower_bound finds the key"); ++lo; }
        SYM_ASSERT(lo == up, "upper_bound is the first key after");
        return h;
    }
    unsigned get(int i) { SYM_ASSERT(o.mutex_read(i) == o[i], "both ways of reading agree"); return o[i]; }
    size_t size() { return o.size(); }
};
struct SetK {
    static constexpr bool fixed = false; SharedSet<uint8_t> o;
    void write(int i, unsigned) { o.insert(i); }
    bool has(int i) { bool h = o.count(i); SYM_ASSERT((o.find(i) != o.end()) == h && (o.mutex_find(i) != o.end()) == h, "count and find agree"); return h; }
    unsigned get(int) { return 1; }
    size_t size() { return o.size(); }
};
template <class K> int start(K& k, const char* n, size_t len, unsigned iv, SharedObject::verify_type vt)
{
    if constexpr ( K::fixed ) return k.o.initialize(n, len, iv, vt);
    else return k.o.initialize(n, vt);
}
template <class F> bool dies(F f) { try { f(); } catch ( SymFatal& ) { return true; } return false; }

template <class K> void history(SharedObject::verify_type vt, bool isset, int nops, unsigned vmask)
{
    const int NI = NR == 1 ? 2 : 3;     // instances; the last one (of two ranks) is on rank 1
    auto rk = [&](int i) { return NR == 2 && i == NI - 1 ? 1 : 0; };
    K* in[3]; bool pub[3] = {};
    for ( int i = 0; i < NI; i++ ) { use(rk(i)); in[i] = new K(); int n = start(*in[i], "obj", P, 0, vt); SYM_ASSERT(n == (rk(i) ? 0 : i), "initialize returns the number of earlier instances on the rank"); }
    // model: what each rank knows, and what it has yet to tell the other
    int val[2][P], owner[P]; std::vector<std::pair<int, unsigned>> told[2];
    for ( int p = 0; p < P; p++ ) { val[0][p] = val[1][p] = -1; owner[p] = -1; }
    auto check = [&]() {
        for ( int i = 0; i < NI; i++ ) {
            use(rk(i)); int n = 0;
            for ( int p = 0; p < P; p++ ) {
                int m = val[rk(i)][p];
                bool h = in[i]->has(p); if ( h ) n++;
                if ( K::fixed ) { SYM_ASSERT(h, "the array has the requested length"); SYM_ASSERT(in[i]->get(p) == (m < 0 ? 0u : (unsigned)m), "an element reads as the value written, else as the initial value"); }
                else { SYM_ASSERT(h == (m >= 0), "exactly the written entries are present"); if ( m >= 0 ) SYM_ASSERT(in[i]->get(p) == (isset ? 1u : (unsigned)m), "an entry reads as the value written"); }
            }
            SYM_ASSERT(in[i]->size() == (size_t)n, "the size is the number of entries");
        }
    };
    bool dead = false;
    for ( int s = 0; s <= nops && !dead; s++ ) {
        int op = s == nops ? 2 : sym_choose(3, "op");
        if ( op == 0 ) {
            int i = sym_choose(NI, "instance"), p = sym_choose(s == 0 ? 1 : P, "position"); unsigned v = sym_choose(vmask + 1, "value");
            if ( isset ) v = 1;
            if ( vt == SharedObject::INIT_VERIFY && v == 0 ) sym_assume(false);
            if ( vt == SharedObject::NO_VERIFY ) { if ( owner[p] >= 0 && owner[p] != i ) sym_assume(false); owner[p] = i; }
            int r = rk(i); use(r);
            bool conflict = vt != SharedObject::NO_VERIFY && val[r][p] >= 0 && val[r][p] != (int)v;
            bool d = dies([&] { in[i]->write(p, v); });
            SYM_ASSERT(d == (pub[i] || conflict), "a write is refused exactly if the instance has published or another value was written");
            dead = d;
            if ( !d ) { val[r][p] = (int)v; told[r].push_back({ p, v }); }
        } else if ( op == 1 ) {
            int i = sym_choose(NI, "instance"); use(rk(i)); in[i]->o.publish(); pub[i] = true;
        } else {
            bool f = s == nops, conflict = false, all = true;
            if ( NR == 2 ) for ( int r = 0; r < 2; r++ ) for ( auto& t : told[r] ) { int o = val[1 - r][t.first]; if ( vt != SharedObject::NO_VERIFY && o >= 0 && o != (int)t.second ) conflict = true; }
            bool d = exchange(f);
            SYM_ASSERT(d == conflict, "an exchange fails exactly if two ranks wrote different values to one position");
            dead = d;
            if ( d ) break;
            for ( int r = 0; r < 2; r++ ) { for ( auto& t : told[r] ) val[1 - r][t.first] = (int)t.second; told[r].clear(); }
            for ( int i = 0; i < NI; i++ ) all = all && pub[i];
            for ( int i = 0; i < NI; i++ ) { use(rk(i)); SYM_ASSERT(in[i]->o.isFullyPublished() == (f || all), "published is reported once every instance on every rank has published"); }
            check();
        }
    }
    if ( dead ) return;
    for ( int i = 0; i < NI; i++ ) {
        use(rk(i));
        SYM_ASSERT(dies([&] { in[i]->write(0, 1); }), "writing after the init phase is an error");
        K late; SYM_ASSERT(dies([&] { start(late, "obj", P, 0, vt); }), "initialising after the init phase is an error");
    }
    check();
}
void sizes() // instances ask for different lengths
{
    bool fe = sym_choose(2, "fe"); auto vt = fe ? SharedObject::FE_VERIFY : SharedObject::INIT_VERIFY;
    SharedArray<uint8_t> a[3]; size_t n[3], mx[2] = { 0, 0 };
    for ( int i = 0; i < 3; i++ ) {
        use(i == 2); n[i] = sym_choose(4, "length");
        a[i].initialize("arr", n[i], 7, vt);
        mx[i == 2] = std::max(mx[i == 2], n[i]);
        SYM_ASSERT(a[i].size() == mx[i == 2], "the length is the largest requested so far");
        for ( size_t k = 0; k < n[i]; k++ ) a[i].write(k, 10 + k);   // all agree
    }
    SYM_ASSERT(!exchange(false), "agreeing writes are accepted");
    size_t m = std::max(mx[0], mx[1]);
    for ( int i = 0; i < 3; i++ ) { use(i == 2); SYM_ASSERT(a[i].size() == m, "the length is the largest requested on any rank"); for ( size_t k = 0; k < m; k++ ) SYM_ASSERT(a[i][k] == 10 + k, "every element is known everywhere"); }
    SharedArray<uint8_t> late; int lr = sym_choose(2, "laterank"); use(lr);
    late.initialize("arr", 4, 7, vt);
    bool wr = sym_choose(2, "latewrite");
    if ( wr ) late.write(3, 42);
    SYM_ASSERT(!exchange(true), "a later instance may ask for more");
    for ( int i = 0; i < 3; i++ ) {
        use(i == 2); SYM_ASSERT(a[i].size() == 4, "the array grew on every rank");
        for ( size_t k = 0; k < 4; k++ ) SYM_ASSERT(a[i][k] == (k < m ? 10 + k : k == 3 && wr ? 42 : 7), "earlier elements survive growing, new ones start as asked");
        size_t cnt = 0; for ( auto it = a[i].begin(); it != a[i].end(); ++it ) cnt++; SYM_ASSERT(cnt == 4 && !a[i].empty(), "iteration covers the array");
    }
}
void mismatch() // instances that do not agree on what the object is
{
    const SharedObject::verify_type V[3] = { SharedObject::FE_VERIFY, SharedObject::INIT_VERIFY, SharedObject::NO_VERIFY };
    int kind = sym_choose(3, "kind"), v0 = sym_choose(3, "verify"), v1 = sym_choose(3, "verify"), r1 = NR == 2 ? sym_choose(2, "rank") : 0;
    unsigned i0 = sym_choose(2, "init"), i1 = sym_choose(2, "init");
    bool same = v0 == v1 && (kind || i0 == i1), d;
    use(0);
    if ( kind == 0 ) {
        SharedArray<uint8_t> a, b; a.initialize("x", 2, i0, V[v0]); use(r1);
        d = dies([&] { b.initialize("x", 1, i1, V[v1]); });
    } else if ( kind == 1 ) {
        SharedMap<uint8_t, uint8_t> a, b; a.initialize("x", V[v0]); use(r1); d = dies([&] { b.initialize("x", V[v1]); });
    } else {
        SharedSet<uint8_t> a, b; a.initialize("x", V[v0]); use(r1); d = dies([&] { b.initialize("x", V[v1]); });
    }
    if ( r1 == 0 ) { SYM_ASSERT(d == !same, "instances that disagree are refused"); if ( d ) return; }
    else { SYM_ASSERT(!d, "ranks do not see each other before the exchange"); SYM_ASSERT(exchange(false) == !same, "ranks that disagree are refused at the exchange"); if ( !same ) return; }
    use(r1);
    SharedSet<uint16_t> other; SYM_ASSERT(dies([&] { other.initialize("x", V[v0]); }), "one name cannot stand for objects of two types");
    SharedSet<uint16_t> two; two.initialize("y"); SYM_ASSERT(dies([&] { two.initialize("z"); }), "an instance is initialised once");
    SharedArray<uint8_t> bad; if ( kind == 0 ) SYM_ASSERT(dies([&] { bad.initialize("b", 1, 0, SharedObject::VERIFY_UNINITIALIZED); }), "the reserved mode is refused");
}
template <class T> T* again(T& x) // through the serialiser, as a restart does
{
    Core::Serialization::serializer ser;
    ser.start_sizing(); SST_SER(x); size_t n = ser.size();
    char* buf = (char*)malloc(n + 1);
    ser.start_packing(buf, n); SST_SER(x);
    T* y = new (malloc(sizeof(T))) T();
    ser.start_unpacking(buf, n); { T& x2 = *y; SST_SER(x2); }
    return y;
}
void restart()
{
    use(0);
    SharedArray<uint8_t> a; SharedArray<bool> b; SharedMap<uint8_t, uint8_t> m; SharedSet<uint8_t> s; SharedArray<uint8_t> unset;
    size_t n = 1 + sym_choose(2, "length"); uint8_t v[2] = { sym_u8("v"), sym_u8("v") }; bool w[2] = { (bool)sym_choose(2, "w"), (bool)sym_choose(2, "w") };
    a.initialize("a", n, 9, SharedObject::FE_VERIFY); b.initialize("b", n); m.initialize("m"); s.initialize("s");
    bool wr = sym_choose(2, "written");
    for ( size_t i = 0; wr && i < n; i++ ) { a.write(i, v[i]); b.write(i, w[i]); m.write(i, v[i]); s.insert(i); }
    if ( sym_choose(2, "publish") ) a.publish();
    SYM_ASSERT(!exchange(true), "no conflict");
    // the manager first, then the instances, into a new process
    Mgr* nm = again(SharedObject::manager);
    SharedObject::manager.shared_data.swap(nm->shared_data); SharedObject::manager.locked = false;
    auto *a2 = again(a), *u2 = again(unset); auto* b2 = again(b); auto* m2 = again(m); auto* s2 = again(s);
    SYM_ASSERT(a2->data != a.data && a2->data && !u2->data, "restored instances are bound to the restored data, unused ones stay unused");
    SYM_ASSERT(a2->size() == n && b2->size() == n && m2->size() == (wr ? n : 0) && s2->size() == (wr ? n : 0), "sizes are restored");
    for ( size_t i = 0; i < n; i++ ) {
        SYM_ASSERT((*a2)[i] == (wr ? v[i] : 9) && (*b2)[i] == (wr && w[i]), "array contents are restored");
        if ( wr ) SYM_ASSERT((*m2)[i] == v[i] && s2->count(i) == 1, "map and set contents are restored");
    }
    SYM_ASSERT(a2->isFullyPublished() && b2->isFullyPublished() && m2->isFullyPublished() && s2->isFullyPublished(), "a restored object is still fully published");
    SYM_ASSERT(dies([&] { b2->write(0, true); }) && dies([&] { m2->write(0, 1); }) && dies([&] { s2->insert(0); }) && dies([&] { a2->write(0, v[0]); }), "a restored object still refuses writes");
}
void late() // an object known to one rank only, and one that appears between exchanges
{
    use(1);
    SharedMap<uint8_t, uint8_t> m1; m1.initialize("m", SharedObject::FE_VERIFY); uint8_t x = sym_u8("x"), y = sym_u8("y");
    m1.write(1, x); bool p1 = sym_choose(2, "publish"); if ( p1 ) m1.publish();
    SYM_ASSERT(!exchange(false), "no conflict");
    use(1); SYM_ASSERT(m1.isFullyPublished() == p1, "published on the only rank that uses it");
    use(0);
    SharedMap<uint8_t, uint8_t> m0; m0.initialize("m", SharedObject::FE_VERIFY);
    SYM_ASSERT(m0.size() == 1 && m0[1] == x, "an instance created later sees what was written before");
    bool conflict = false;
    if ( sym_choose(2, "same") ) conflict = dies([&] { m0.write(1, y); }); else { m0.write(2, y); SYM_ASSERT(m0[2] == y, "its own write is visible at once"); }
    if ( conflict ) { SYM_ASSERT(x != y, "the same value may be written again"); return; }
    bool p0 = sym_choose(2, "publish"); if ( p0 ) m0.publish();
    SYM_ASSERT(!exchange(false), "no conflict");
    use(0); SYM_ASSERT(m0.isFullyPublished() == (p0 && p1), "published once all have");
    use(1); SYM_ASSERT(m1.isFullyPublished() == (p0 && p1), "published once all have");
    SYM_ASSERT(m1.size() == m0.size() && m1[1] == x, "both ranks know all entries");
    if ( m0.size() == 2 ) SYM_ASSERT(m1[2] == y, "the later write arrived");
    if ( m0.size() == 1 ) SYM_ASSERT(x == y, "a write of another value is refused");
}
} // namespace
extern "C" int harness_main()
{
    int c = sym_case(), K = sym_tier() ? 4 : 3;
    init(c == 7 ? 1 : c == 10 ? 1 : 2);
    switch ( c ) {
    case 0: history<ArrK<uint8_t>>(SharedObject::FE_VERIFY, false, K, 1); sym_reach("arrayfe"); break;
    case 1: history<ArrK<uint8_t>>(SharedObject::INIT_VERIFY, false, K, 2); sym_reach("arrayinit"); break;
    case 2: history<ArrK<uint8_t>>(SharedObject::NO_VERIFY, false, K, 1); sym_reach("arrayno"); break;
    case 3: history<ArrK<bool>>(SharedObject::FE_VERIFY, false, K, 1); sym_reach("boolfe"); break;
    case 4: history<MapK>(sym_choose(2, "mode") ? SharedObject::FE_VERIFY : SharedObject::INIT_VERIFY, false, K, 1); sym_reach("map"); break;
    case 5: history<MapK>(SharedObject::NO_VERIFY, false, K, 1); sym_reach("mapno"); break;
    case 6: history<SetK>(sym_choose(2, "mode") ? SharedObject::FE_VERIFY : SharedObject::NO_VERIFY, true, K, 0); sym_reach("set"); break;
    case 7: switch ( sym_choose(3, "kind") ) {
        case 0: history<ArrK<uint8_t>>(SharedObject::FE_VERIFY, false, K, 1); break;
        case 1: history<MapK>(SharedObject::FE_VERIFY, false, K, 1); break;
        default: history<SetK>(SharedObject::FE_VERIFY, true, K, 0); }
        sym_reach("single"); break;
    case 8: sizes(); sym_reach("sizes"); break;
    case 9: mismatch(); sym_reach("mismatch"); break;
    case 10: restart(); sym_reach("restart"); break;
    case 11: late(); sym_reach("late"); break;
    }
    return 0;
}
