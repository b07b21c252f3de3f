// Messages sent through an interprocess tunnel arrive intact, once and in order, under every interleaving.
// @cases 7
// @threads
// @races
// @flags -fno-inline
// @reach seq stream nonblock pingpong attach layout writers
// @bounds tunnels of 1 or 2 buffers with room for 1 or 2 messages, 2 messages of arbitrary data, one reading and one or two writing processes (as threads sharing the region) with up to 3 (thorough 4; two writers and requests with answers 2, thorough 3) preemptions; 4 operations in sequence against a model; layouts of 1 to 3 buffers with 2, 3, 60, 255 or 600 entries and small and large messages
// @outside creating, mapping and removing the shared file, processes that die, weak memory ordering, the pin3 variant
#include "sst_config.h"
#include "sym.h"
#include "sst/core/interprocess/tunneldef.h"
#include <vector>
using namespace SST::Core::Interprocess;
namespace {
struct Msg { uint32_t a; uint16_t b; };
struct Shared { uint64_t x; int y; };
using Tun = TunnelDef<Shared, Msg>;
Tun *master, *child, *child2; char* region; uint32_t left[2];
Msg m[2][3]; std::vector<Msg>* got; int NM;
bool same(const Msg& x, const Msg& y) { return x.a == y.a && x.b == y.b; }
char* alloc(size_t n) { char* p = (char*)aligned_alloc(4096, n); memset(p, 0, n); return p; }
void make(size_t nb, size_t bs, int kids)
{
    master = new Tun(nb, bs, kids); region = alloc(master->getTunnelSize());
    SYM_ASSERT(master->initialize(region) == (uint32_t)kids, "all children are still to come");
}
void writer(void* p) { int w = (int)(long)p; for ( int i = 0; i < NM; i++ ) master->writeMessage(0, m[w][i]); }
void reader(void*) { for ( int i = 0; i < NM; i++ ) got->push_back(child->readMessage(0)); }
void readerNB(void*) { for ( int i = 0; i < NM; i++ ) { Msg r; while ( !child->readMessageNB(0, &r) ) sym_pause(); got->push_back(r); } }
void client(void*) { for ( int i = 0; i < NM; i++ ) { Msg r = child->readMessage(0); r.a++; child->writeMessage(1, r); } }
void server(void*) { for ( int i = 0; i < NM; i++ ) { master->writeMessage(0, m[0][i]); Msg r = master->readMessage(1); SYM_ASSERT(r.a == m[0][i].a + 1 && r.b == m[0][i].b, "the answer belongs to the request"); } }
void attach(void* p) { int i = (int)(long)p; left[i] = (i ? child2 : child)->initialize(region); }
}
extern "C" int harness_main()
{
    int c = sym_case(), th = sym_tier();
    sym_preempt_bound(th ? 5 : 4);
    got = new std::vector<Msg>(); got->reserve(16);
    for ( auto& w : m ) for ( auto& x : w ) { x.a = sym_u32("a"); x.b = sym_u16("b"); }
    NM = 2;
    if ( c <= 3 || c == 6 ) {
        make(c == 0 || c == 3 ? 2 : 1, c == 2 ? 3 : 2, 1);
        child = new Tun(region);
        SYM_ASSERT(child->getTunnelSize() == master->getTunnelSize(), "the child learns the size of the region");
        SYM_ASSERT(child->initialize(region) == 0, "no further child is expected");
        SYM_ASSERT(master->getSharedData() == child->getSharedData() && master->isMaster() && !child->isMaster(), "both sides share the user data");
    }
    switch ( c ) {
    case 0: {
        std::vector<Msg> q[2]; int size = 1;
        for ( int k = 0; k < (th ? 6 : 4); k++ ) {
            int b = sym_choose(2, "buf"); Tun* t = sym_flag("side") ? master : child; int op = sym_choose(3, "op");
            if ( op == 0 ) { if ( (int)q[b].size() >= size ) sym_stop(); Msg x { sym_u32("x"), sym_u16("y") }; t->writeMessage(b, x); q[b].push_back(x); }
            else if ( op == 1 ) { Msg r { 0, 0 }; bool ok = t->readMessageNB(b, &r); SYM_ASSERT(ok == !q[b].empty(), "a message is read exactly when there is one"); if ( ok ) { SYM_ASSERT(same(r, q[b][0]), "messages arrive intact and in order"); q[b].erase(q[b].begin()); } }
            else { t->clearBuffer(b); q[b].clear(); }
        }
        sym_reach("seq"); break;
    }
    case 1: case 2: {
        NM = 2;
        sym_preempt_bound(th ? 4 : 3);
        sym_spawn(writer, (void*)0); sym_spawn(c == 1 ? reader : readerNB, nullptr); sym_join_all();
        for ( int i = 0; i < NM; i++ ) SYM_ASSERT(same((*got)[i], m[0][i]), "messages arrive intact, once and in order");
        Msg r; SYM_ASSERT(!child->readMessageNB(0, &r), "nothing is left");
        sym_reach(c == 1 ? "stream" : "nonblock"); break;
    }
    case 3: sym_preempt_bound(th ? 3 : 2); sym_spawn(server, nullptr); sym_spawn(client, nullptr); sym_join_all(); sym_reach("pingpong"); break;
    case 4: {
        sym_preempt_bound(3); make(1, 2, 2); child = new Tun(region); child2 = new Tun(region);
        sym_spawn(attach, (void*)0); sym_spawn(attach, (void*)1); sym_join_all();
        SYM_ASSERT(left[0] + left[1] == 1 && left[0] <= 1, "exactly the last child finds that no further child is expected");
        master->writeMessage(0, m[0][0]); Msg r; SYM_ASSERT(child2->readMessageNB(0, &r) && same(r, m[0][0]), "messages arrive intact");
        sym_reach("attach"); break;
    }
    case 5: {
        static const size_t sizes[] = { 2, 3, 60, 255, 600 };
        size_t nb = 1 + sym_choose(3, "nb"), bs = sizes[sym_choose(5, "bs")];
        make(nb, bs, 1);
        child = new Tun(region); child->initialize(region);
        Shared* s = master->getSharedData(); s->x = 7; s->y = 9;
        // fill every buffer completely and check nothing else changed
        for ( size_t b = 0; b < nb; b++ ) for ( size_t i = 0; i + 1 < bs; i++ ) master->writeMessage(b, Msg { (uint32_t)(b * 1000 + i), (uint16_t)i });
        SYM_ASSERT(s->x == 7 && s->y == 9, "messages do not overwrite the user data");
        for ( size_t b = 0; b < nb; b++ ) for ( size_t i = 0; i + 1 < bs; i++ ) { Msg r { 0, 0 }; SYM_ASSERT(child->readMessageNB(b, &r), "every message is there"); SYM_ASSERT(r.a == b * 1000 + i && r.b == (uint16_t)i, "buffers do not overlap"); }
        sym_reach("layout"); break;
    }
    default:
        sym_preempt_bound(th ? 3 : 2); NM = 1;
        sym_spawn(writer, (void*)0); sym_spawn(writer, (void*)1);
        { NM = 1; sym_spawn([](void*) { for ( int i = 0; i < 2; i++ ) got->push_back(child->readMessage(0)); }, nullptr); }
        sym_join_all();
        SYM_ASSERT((same((*got)[0], m[0][0]) && same((*got)[1], m[1][0])) || (same((*got)[0], m[1][0]) && same((*got)[1], m[0][0])), "both messages arrive once");
        sym_reach("writers");
    }
    return 0;
}
