// Pooled memory: live objects never share memory and keep their contents, figures are exact, memory is reused, whichever thread frees it.
// @cases 12
// @threads
// @races
// @stubs output_stub
// @flags -fno-inline -DSYM_REAL_MEMPOOL
// @reach hist moved reused two double threads
// @bounds arenas of 1 to 3 objects (the real code uses 2 MB arenas); every history of up to 7 (thorough 8) allocations and releases of objects of one size (two pools: 6, thorough 7) on 1 to 2 pools (one per simulation thread), released on any; 2 concurrent threads with 4 operations each and up to 1 (thorough 2) preemptions at any shared access; object contents arbitrary; cache-aligned and packed
// @outside failing mmap; weak memory ordering
#include <cstring>
#include <cerrno>
#include "sym.h"
extern void (*sym_fatal_hook)();
namespace { size_t arena_bytes; }
#include <sys/mman.h>
static void* my_mmap(void*, size_t n, int, int, int, long) { arena_bytes += n; return calloc(1, n); }
#define mmap my_mmap
#include "sst/core/mempool.cc"
#undef mmap
using namespace SST; using namespace SST::Core;
namespace {
template <int N> struct Item : public MemPoolItem {
    uint64_t v[N]; int id; uint64_t end;
    Item(int i, uint64_t x) : id(i), end(x) { for ( auto& a : v ) a = x; }
    void print(const std::string&, Output&) const override;
    NotSerializable(Item)
};
struct Raw : public MemPoolItem { static void rel(void* p) { MemPoolItem::operator delete(p); } NotSerializable(Raw) };
struct Obj { MemPoolItem* p; int kind, id; uint64_t x; uint8_t *b, *e; };
std::vector<Obj> live; std::vector<int> printed;
template <int N> void Item<N>::print(const std::string&, Output&) const { printed.push_back(id); }
typedef Item<1> A; typedef Item<5> B;
void useThread(int t) { myPools = &memPoolThreadVector[t]; }
void check()
{
    for ( size_t i = 0; i < live.size(); i++ ) {
        for ( size_t k = 0; k < i; k++ ) SYM_ASSERT(live[i].e <= live[k].b || live[k].e <= live[i].b, "two live objects share memory");
        const Obj& o = live[i]; uint64_t bad = 0; int id;
        if ( o.kind == 0 ) { A* a = static_cast<A*>(o.p); for ( auto w : a->v ) bad |= w ^ o.x; bad |= a->end ^ o.x; id = a->id; }
        else { B* a = static_cast<B*>(o.p); for ( auto w : a->v ) bad |= w ^ o.x; bad |= a->end ^ o.x; id = a->id; }
        SYM_ASSERT(bad == 0 && id == o.id, "the contents of a live object changed");
    }
    int64_t bytes = 7, act = 9;
    MemPoolAccessor::getMemPoolUsage(bytes, act);
    SYM_ASSERT(act == (int64_t)live.size(), "number of active entries is not the number of live objects");
    SYM_ASSERT(bytes >= (int64_t)arena_bytes, "memory in use is at least that of the arenas");
}
void make(int kind, int id, std::vector<std::pair<uint8_t*, size_t>>* )
{
    uint64_t x = sym_u64("x"); Obj o; o.kind = kind; o.id = id; o.x = x;
    if ( kind == 0 ) { o.p = new A(id, x); o.b = (uint8_t*)o.p; o.e = o.b + sizeof(A); }
    else { o.p = new B(id, x); o.b = (uint8_t*)o.p; o.e = o.b + sizeof(B); }
    SYM_ASSERT(((uintptr_t)o.b & 7) == 0, "memory for an object is aligned");
    live.push_back(o);
}
// concurrent threads, each with its own pool, sharing only the overflow store
MemPoolNoMutex* tp[2]; struct Rec { uint64_t* p; uint64_t v; }; std::vector<Rec>* mine[2]; std::vector<uint64_t*>* inbox[2]; uint64_t tv[2][6];
void worker(void* a)
{
    int t = (int)(long)a, k = 0;
    // release what the other thread had allocated: two full overflow lists go to the shared store
    for ( auto* p : *inbox[t] ) { *p = 0; tp[t]->free(p); }
    for ( int i = 0; i < 3; i++ ) { uint64_t* p = (uint64_t*)tp[t]->malloc(); *p = tv[t][k]; mine[t]->push_back({ p, tv[t][k++] }); }
}
}
extern "C" int harness_main()
{
    int c = sym_case(), th = sym_tier();
    thread_num = 0; live.reserve(16);
    bool align = c == 2 || c == 6; bool two = c >= 3 && c < 8; bool sizes = c == 4 || c == 5;
    if ( c <= 7 ) {
        int per = c == 0 ? 1 : c == 1 ? 2 : c == 2 ? 3 : c == 3 ? 1 : c == 7 ? 3 : 2, N = (two ? 6 : 7) + (th ? 1 : 0);
        MemPoolAccessor::initializeGlobalData(2, align);
        std::vector<MemPoolNoMutex*> pools[2];
        size_t szs[2] = { sizeof(A), sizeof(B) };
        for ( int t = 0; t < 2; t++ ) for ( int k = 0; k < 2; k++ ) {
            size_t one = align ? ((szs[k] + 16 + 63) / 64) * 64 : szs[k] + 16;
            auto* p = new MemPoolNoMutex(szs[k] + 8, one * per + (c & 1 ? 3 : 0));
            memPoolThreadVector[t].emplace_back(szs[k], p); pools[t].push_back(p);
        }
        useThread(0);
        int id = 0, maxLive[2] = { 0, 0 };
        int n = 2 + sym_choose(N - 1, "n");
        for ( int i = 0; i < n; i++ ) {
            int t = two && i ? sym_choose(2, "thread") : 0; useThread(t);
            unsigned op = live.empty() ? 0 : sym_choose(live.size() + 1, "op");
            if ( op == 0 ) {
                int kind = sizes ? sym_choose(2, "kind") : c & 1, used = 0;
                for ( auto& o : live ) used += o.kind == kind;
                size_t mine = pools[t][kind]->getNumArenas(), theirs = pools[1 - t][kind]->getNumArenas();
                make(kind, id++, nullptr);
                // an arena is only added while everything free is held back by the other thread's own pool (its share and one incomplete list)
                if ( pools[t][kind]->getNumArenas() > mine ) SYM_ASSERT((int)((mine + theirs) * per) - used <= (int)(theirs * per + per - 1), "memory released by other threads is used again");
            }
            else {
                Obj o = live[op - 1]; live.erase(live.begin() + (op - 1));
                if ( o.kind == 0 ) delete static_cast<A*>(o.p); else delete static_cast<B*>(o.p);
                sym_reach("hist");
                if ( c == 0 && i == n - 1 && sym_flag("again") ) {
                    sym_fatal_hook = [] { sym_reach("double"); sym_stop(); };
                    Raw::rel(o.p);
                    sym_fail("releasing an object twice is not reported");
                }
            }
            check();
            int cnt[2] = { 0, 0 }; for ( auto& o : live ) cnt[o.kind]++;
            for ( int k = 0; k < 2; k++ ) {
                if ( cnt[k] > maxLive[k] ) maxLive[k] = cnt[k];
                if ( !two ) SYM_ASSERT((int)MemPoolAccessor::getNumArenas(szs[k]) == (maxLive[k] + per - 1) / per, "released memory is used again before more is requested");
            }
            if ( id > maxLive[0] + maxLive[1] ) sym_reach("reused");
        }
        if ( two && pools[0][c & 1]->getNumArenas() && pools[1][c & 1]->getNumFreedEntries() ) sym_reach("moved");
        if ( sizes && maxLive[0] && maxLive[1] ) sym_reach("two");
        Output out;
        printed.clear(); MemPoolAccessor::printUndeletedMemPoolItems("", out);
        SYM_ASSERT(printed.size() == live.size(), "the report of undeleted objects lists each live one once");
        for ( auto& o : live ) { int f = 0; for ( int p : printed ) f += p == o.id; SYM_ASSERT(f == 1, "the report of undeleted objects lists exactly the live ones"); }
    } else {
        // real threads
        sym_preempt_bound(th ? 2 : 1);
        int per = 1 + (c & 1);
        for ( int t = 0; t < 2; t++ ) {
            tp[t] = new MemPoolNoMutex(24, 32 * per); mine[t] = new std::vector<Rec>(); mine[t]->reserve(8); inbox[t] = new std::vector<uint64_t*>();
            for ( auto& v : tv[t] ) v = sym_u64("v") | 1;
        }
        int cross = c >= 10 ? 2 : 1;   // how many threads release what the other had allocated
        for ( int t = 0; t < cross; t++ ) for ( int i = 0; i < 2; i++ ) { uint64_t* p = (uint64_t*)tp[1 - t]->malloc(); *p = 1; inbox[t]->push_back(p); }
        sym_spawn(worker, (void*)0L); sym_spawn(worker, (void*)1L); sym_join_all();
        std::vector<Rec> all;
        for ( int t = 0; t < 2; t++ ) for ( auto& r : *mine[t] ) all.push_back(r);
        SYM_ASSERT(all.size() == 6, "every allocation succeeds");
        for ( size_t i = 0; i < all.size(); i++ ) {
            SYM_ASSERT(*all[i].p == all[i].v, "the contents of a live object changed");
            for ( size_t k = 0; k < i; k++ ) SYM_ASSERT((uint8_t*)all[i].p + 32 <= (uint8_t*)all[k].p || (uint8_t*)all[k].p + 32 <= (uint8_t*)all[i].p, "two live objects share memory");
        }
        sym_reach("threads");
    }
    return 0;
}
