// Partitioning puts every component on one valid rank, never cuts a no-cut link, and splitting keeps every component and link.
// @cases 9
// @sources model/configGraph.cc model/configComponent.cc model/configLink.cc model/configStatistic.cc impl/partitioners/linpart.cc impl/partitioners/rrobin.cc impl/partitioners/simplepart.cc impl/partitioners/singlepart.cc sstpart.cc params.cc namecheck.cc sst_mpi.cc simulation.cc timeVortex.cc action.cc exit.cc impl/oneshotManager.cc timeLord.cc
// @stubs output_stub
// @reach linear rrobin simple single collapse split minlat build annotate
// @bounds linear and round robin: up to 7 components, 1 to 3 ranks of 1 to 3 threads; simple: up to 4 components, 2 links with arbitrary 8-bit latencies, up to 4 ranks or threads; collapsing: 4 components, one with two levels of subcomponents, 3 links between arbitrary ends (thorough 4), each cuttable or not; splitting: 3 components and a subcomponent on any of 3 (thorough 4) ranks, 2 links, distribution by halves as in main(); building: up to 4 connection operations on 2 links
// @outside Zoltan, parallel loading, quality of the partition, sending the subgraphs
#include "simfix.h"
#include "sst/core/model/configGraph.h"
#include "sst/core/model/configComponent.h"
#include "sst/core/model/configLink.h"
#include "sst/core/impl/partitioners/linpart.h"
#include "sst/core/impl/partitioners/rrobin.h"
#include "sst/core/impl/partitioners/simplepart.h"
#include "sst/core/impl/partitioners/singlepart.h"
#include "sst/core/factory.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace SST;
namespace {
bool portOK = true;
template <class F> bool dies(F f) { try { f(); } catch ( SymFatal& ) { return true; } return false; }
} // namespace
// the only thing the graph asks of the factory
bool SST::Factory::isPortNameValid(const std::string&, const std::string&) { return portOK; }
namespace {
constexpr int MAXE = 7;
ConfigGraph* g; int NC, NE; ComponentId_t end_[MAXE]; // the ends links can connect to: components and subcomponents
std::vector<LinkId_t> L; std::vector<std::pair<int, int>> ends; std::vector<bool> nocut;
const char* NAMES[] = { "a", "b", "c", "d", "e", "f", "h" };
int top(int e) { return (int)COMPONENT_ID_MASK(end_[e]); }
void comps(int n, bool subs)
{
    g = new ConfigGraph(); NC = n; NE = 0;
    for ( int i = 0; i < n; i++ ) end_[NE++] = g->addComponent(NAMES[i], "t");
    if ( subs ) {
        ConfigComponent* s = g->findComponent(end_[n - 1])->addSubComponent("s", "t", 0);
        end_[NE++] = s->id;
        if ( n > 3 ) end_[NE++] = s->addSubComponent("u", "t", 0)->id;
    }
}
ConfigLink* link(int a, int b, bool nc)
{
    static const char* LN[] = { "l0", "l1", "l2", "l3" };
    int k = L.size();
    LinkId_t id = g->createLink(LN[k]); L.push_back(id); ends.push_back({ a, b }); nocut.push_back(nc);
    static const char* PA[] = { "pa0", "pa1", "pa2", "pa3" }; static const char* PB[] = { "pb0", "pb1", "pb2", "pb3" };
    g->addLink(end_[a], id, PA[k], "1ns"); g->addLink(end_[b], id, PB[k], "2ns");
    if ( nc ) g->setLinkNoCut(id);
    return g->getLinkMap()[id];
}
void rt(RankInfo& w, int mr, int mt) { w = RankInfo(1 + sym_choose(mr, "ranks"), 1 + sym_choose(mt, "threads")); }
void valid(RankInfo w, std::vector<int>* cnt = nullptr)
{
    if ( cnt ) cnt->assign(w.rank * w.thread, 0);
    for ( int i = 0; i < NC; i++ ) {
        RankInfo r = g->findComponent(end_[i])->rank;
        SYM_ASSERT(r.isAssigned() && r.rank < w.rank && r.thread < w.thread, "every component is on an existing rank and thread");
        if ( cnt ) (*cnt)[r.rank * w.thread + r.thread]++;
    }
    for ( int e = NC; e < NE; e++ ) SYM_ASSERT(g->findComponent(end_[e])->rank == g->findComponent(end_[top(e)])->rank, "subcomponents are where their component is");
    SYM_ASSERT(g->checkRanks(w), "the partition is accepted");
}
void balanced(const std::vector<int>& c) { int lo = c[0], hi = c[0]; for ( int x : c ) { lo = std::min(lo, x); hi = std::max(hi, x); } SYM_ASSERT(hi - lo <= 1, "components are spread evenly"); }
void linear(bool rr)
{
    comps(sym_choose(8, "components"), false);
    RankInfo w(0, 0); rt(w, 3, 3);
    PartitionGraph* p = g->getPartitionGraph();
    SYM_ASSERT(p->getNumComponents() == (size_t)NC, "the partition graph has every component");
    if ( rr ) { IMPL::Partition::SSTRoundRobinPartition x(w, RankInfo(0, 0), 0); x.performPartition(p); }
    else { IMPL::Partition::SSTLinearPartition x(w, RankInfo(0, 0), 0); x.performPartition(p); }
    unsigned last = 0;
    for ( auto* c : p->getComponentMap() ) {
        g->findComponent(c->id)->setRank(c->rank);
        unsigned o = c->rank.rank * w.thread + c->rank.thread;
        if ( !rr ) SYM_ASSERT(o >= last, "the linear partitioner keeps components in order"); last = o;
    }
    std::vector<int> cnt; valid(w, &cnt); balanced(cnt);
}
void simple()
{
    comps(1 + sym_choose(sym_tier() ? 5 : 4, "components"), false);
    RankInfo w(0, 0); if ( sym_choose(2, "shape") ) rt(w, 4, 1); else rt(w, 2, 2);
    for ( int k = 0; k < 2; k++ ) { auto* l = link(sym_choose(NC, "end"), sym_choose(NC, "end"), false); l->latency_[0] = sym_u8("lat"); l->latency_[1] = sym_u8("lat"); }
    PartitionGraph* p = g->getCollapsedPartitionGraph();
    SYM_ASSERT(p->getNumComponents() == (size_t)NC, "nothing collapses without no-cut links");
    IMPL::Partition::SimplePartitioner x(w, RankInfo(0, 0), 0); x.performPartition(p);
    g->annotateRanks(p);
    valid(w);
}
void single()
{
    comps(sym_choose(5, "components"), true && NC);
    IMPL::Partition::SSTSinglePartition x(RankInfo(1, 1), RankInfo(0, 0), 0); x.performPartition(g);
    valid(RankInfo(1, 1));
}
int root[MAXE];
void collapse(bool annotate)
{
    comps(4, true);
    int nl = sym_tier() ? 4 : 3;
    for ( int k = 0; k < nl; k++ ) { int a = sym_choose(annotate && k == 2 ? 2 : NE, "end"), b = sym_choose(k == 2 ? annotate ? 1 : 3 : k == 3 ? 2 : NE, "end"); if ( k == 0 && a < b ) sym_assume(false); link(a, b, k < 2 ? sym_choose(2, "nocut") : k == 2); }
    for ( int i = 0; i < NC; i++ ) { root[i] = i; g->findComponent(end_[i])->setWeight(1 + i); }
    for ( int it = 0; it < NC; it++ ) for ( size_t k = 0; k < L.size(); k++ ) if ( nocut[k] ) { int a = top(ends[k].first), b = top(ends[k].second), m = std::min(root[a], root[b]); root[a] = root[b] = m; }
    PartitionGraph* p = g->getCollapsedPartitionGraph();
    std::map<int, ComponentId_t> group; // root -> partition component
    int seen = 0;
    for ( auto* pc : p->getComponentMap() ) {
        SYM_ASSERT(pc->group.size() > 0, "no group is empty");
        int r = root[*pc->group.begin()]; float wt = 0;
        SYM_ASSERT(!group.count(r), "components joined by no-cut links are in one group"); group[r] = pc->id;
        for ( ComponentId_t c : pc->group ) { SYM_ASSERT(root[c] == r, "components are in one group only if no-cut links join them"); wt += 1 + c; seen++; }
        SYM_ASSERT(pc->weight == wt, "a group weighs as much as its components");
    }
    SYM_ASSERT(seen == NC, "every component is in exactly one group");
    if ( annotate ) {
        uint32_t n = 0; std::map<ComponentId_t, RankInfo> where;
        for ( auto* pc : p->getComponentMap() ) { pc->rank = RankInfo(n < 2 ? n : sym_choose(3, "rank"), n & 1); where[pc->id] = pc->rank; n++; }
        g->annotateRanks(p);
        RankInfo w(3, 2); valid(w);
        for ( int i = 0; i < NC; i++ ) SYM_ASSERT(g->findComponent(end_[i])->rank == where[group[root[i]]], "a component goes where its group goes");
        for ( size_t k = 0; k < L.size(); k++ ) {
            ConfigLink* l = g->getLinkMap()[L[k]]; RankInfo r0 = g->findComponent(end_[ends[k].first])->rank, r1 = g->findComponent(end_[ends[k].second])->rank;
            SYM_ASSERT(l->cross_rank_ == (r0.rank != r1.rank) && l->cross_thread_ == (r0.rank == r1.rank && r0.thread != r1.thread), "links that cross ranks or threads are marked, others are not");
            SYM_ASSERT(!nocut[k] || !(l->cross_rank_ || l->cross_thread_), "a no-cut link is not cut");
        }
        return;
    }
    for ( size_t k = 0; k < L.size(); k++ ) {
        int ga = root[top(ends[k].first)], gb = root[top(ends[k].second)];
        bool in = p->getLinkMap().contains(L[k]);
        SYM_ASSERT(in == (ga != gb), "exactly the links between different groups remain");
        for ( auto* pc : p->getComponentMap() ) {
            int n = 0; for ( LinkId_t l : pc->links ) n += l == L[k];
            SYM_ASSERT(n == (in && (pc->id == group[ga] || pc->id == group[gb]) ? 1 : 0), "a link is listed in exactly the groups it connects");
        }
        if ( in ) { auto& pl = p->getLinkMap()[L[k]]; SYM_ASSERT(pl.component_[0] == group[ga] && pl.component_[1] == group[gb], "a remaining link connects the groups its components are in"); }
    }
}
struct Ends { ComponentId_t c[2]; SimTime_t lat[2]; std::string port[2]; RankInfo r[2]; };
std::vector<Ends> was; int NR; ConfigGraph* part[4];
void distribute(ConfigGraph* gr, std::set<uint32_t> mine) // as main() does
{
    while ( mine.size() != 1 ) {
        auto mid = mine.begin(); for ( unsigned i = 0; i < mine.size() / 2; i++ ) ++mid;
        std::set<uint32_t> yours(mid, mine.end()); mine.erase(mid, mine.end());
        distribute(gr->splitGraph(mine, yours), yours);
    }
    part[*mine.begin()] = gr;
}
void prepare(int nr)
{
    NR = nr;
    for ( int i = 0; i < NC; i++ ) g->findComponent(end_[i])->setRank(RankInfo(sym_choose(nr, "rank"), i & 1));
    for ( size_t k = 0; k < L.size(); k++ ) {
        ConfigLink* l = g->getLinkMap()[L[k]]; Ends e;
        for ( int j = 0; j < 2; j++ ) { l->latency_[j] = sym_u64("latency"); e.c[j] = l->component_[j]; e.lat[j] = l->latency_[j]; e.port[j] = l->port_[j]; e.r[j] = g->findComponent(l->component_[j])->rank; }
        was.push_back(e);
    }
    SYM_ASSERT(g->checkRanks(RankInfo(nr, 2)), "the partition is accepted");
}
void split()
{
    comps(3, true);
    int nr = sym_tier() ? 4 : 3;
    for ( int k = 0; k < 2; k++ ) link(sym_choose(NE, "end"), sym_choose(k ? NE : 2, "end"), k);
    ConfigStatGroup* sg[2] = { g->getStatGroup("g0"), g->getStatGroup("g1") };
    sg[0]->addComponent(end_[0]); sg[1]->addComponent(end_[1]); sg[1]->addComponent(end_[2]);
    g->setStatisticLoadLevel(5); g->setStatisticOutput("sst.some");
    prepare(nr);
    std::set<uint32_t> all; for ( int i = 0; i < nr; i++ ) all.insert(i);
    RankInfo rk[3]; for ( int i = 0; i < 3; i++ ) rk[i] = g->findComponent(end_[i])->rank;
    if ( sym_choose(2, "way") ) distribute(g, all);
    else { int r = sym_choose(nr, "keep"); for ( auto& p : part ) p = nullptr; g->reduceGraphToSingleRank(r); part[r] = g; }
    for ( int r = 0; r < nr; r++ ) {
        ConfigGraph* pg = part[r]; if ( !pg ) continue;
        int n = 0;
        for ( int i = 0; i < 3; i++ ) {
            bool here = rk[i].rank == (uint32_t)r;
            SYM_ASSERT(pg->containsComponent(end_[i]) == here, "a component is in the graph of its rank only"); n += here;
            if ( here ) {
                ConfigComponent* c = pg->findComponent(end_[i]);
                SYM_ASSERT(c->rank == rk[i] && c->name == NAMES[i] && c->graph == pg, "a component keeps its properties and knows its graph");
                if ( i == 2 ) SYM_ASSERT(pg->findComponent(end_[3]) && pg->findComponent(end_[3])->graph == pg && pg->findComponent(end_[3])->getParent() == c, "subcomponents move with their component");
            }
        }
        SYM_ASSERT(pg->getNumComponents() == (size_t)n, "nothing else is in the graph");
        size_t nl = 0;
        for ( size_t k = 0; k < L.size(); k++ ) {
            const Ends& e = was[k]; bool h0 = e.r[0].rank == (uint32_t)r, h1 = e.r[1].rank == (uint32_t)r;
            bool in = pg->getLinkMap().contains(L[k]);
            SYM_ASSERT(in == (h0 || h1), "a link is known exactly where one of its ends is"); nl += in;
            if ( !in ) continue;
            ConfigLink* l = pg->getLinkMap()[L[k]]; int lo = h0 ? 0 : 1;
            SYM_ASSERT(l->nonlocal_ == (h0 != h1), "a link is nonlocal exactly if its other end is on another rank");
            SYM_ASSERT(l->cross_rank_ == (h0 != h1) && l->no_cut_ == nocut[k], "a link keeps its flags");
            SYM_ASSERT(l->component_[0] == e.c[lo] && l->latency_[0] == e.lat[lo] && l->port_[0] == e.port[lo], "the local end of a link keeps component, port and latency");
            if ( h0 != h1 ) SYM_ASSERT(l->component_[1] == e.r[1 - lo].rank && l->latency_[1] == e.r[1 - lo].thread, "a nonlocal link names the rank and thread of its other end");
            else SYM_ASSERT(l->component_[1] == e.c[1] && l->latency_[1] == e.lat[1] && l->port_[1] == e.port[1], "a local link is unchanged");
        }
        SYM_ASSERT(pg->getLinkMap().size() == nl, "no other link is in the graph");
        auto& groups = pg->getStatGroups();
        bool w0 = r == 0 || rk[0].rank == (uint32_t)r, w1 = r == 0 || rk[1].rank == (uint32_t)r || rk[2].rank == (uint32_t)r;
        if ( r || part[1] ) { SYM_ASSERT(!w0 || groups.count("g0"), "a statistics group is known where one of its components is"); SYM_ASSERT(!w1 || groups.count("g1"), "a statistics group is known where one of its components is"); }
        SYM_ASSERT(pg->getStatLoadLevel() == 5 && pg->getStatOutput().type == "sst.some", "the statistics configuration is copied");
    }
}
void minlat()
{
    comps(3, true);
    for ( int k = 0; k < 2; k++ ) link(sym_choose(NE, "end"), sym_choose(k ? NE : 2, "end"), false);
    prepare(2);
    SimTime_t m = MAX_SIMTIME_T;
    for ( auto& e : was ) if ( e.r[0].rank != e.r[1].rank ) { SimTime_t x = e.lat[0] < e.lat[1] ? e.lat[0] : e.lat[1]; m = x < m ? x : m; }
    SYM_ASSERT(g->getMinimumPartitionLatency() == m, "the minimum partition latency is that of the fastest direction of any link between ranks");
}
void build() // connecting links
{
    comps(2, true);
    LinkId_t id[2] = { g->createLink("x", "5ns"), g->createLink("y") };
    struct M { int n = 0; int e[2]; bool nl = false; bool lat; std::string port[2]; } m[2]; m[0].lat = true; m[1].lat = false;
    const char* P[4] = { "p0", "p1", "p2", "p3" };
    int nops = sym_choose(5, "ops");
    for ( int s = 0; s < nops; s++ ) {
        int k = sym_choose(2, "link"); M& x = m[k];
        int what = sym_choose(3, "op");
        if ( what == 2 ) {
            bool bad = x.nl || x.n == 2;
            bool d = dies([&] { g->addNonLocalLink(id[k], 1, 1); });
            SYM_ASSERT(d == bad, "a link has two ends"); if ( d ) return;
            x.nl = true;
        } else {
            int e = sym_choose(NE, "end");
            bool bad = (x.n == 1 && x.nl) || x.n == 2 || (what == 0 && !x.lat);
            bool d = dies([&] { g->addLink(end_[e], id[k], P[s], what ? "7ns" : nullptr); });
            SYM_ASSERT(d == bad, "a connection is refused exactly if the link has no free end or no latency"); if ( d ) return;
            x.e[x.n] = e; x.port[x.n] = P[s]; x.n++;
            if ( what ) x.lat = x.lat || x.n == 1;
        }
    }
    bool err = false;
    for ( int k = 0; k < 2; k++ ) {
        ConfigLink* l = g->getLinkMap()[id[k]];
        for ( int j = 0; j < m[k].n; j++ ) SYM_ASSERT(l->component_[j] == end_[m[k].e[j]] && l->port_[j] == m[k].port[j], "a link connects what it was given, in order");
        for ( int e = 0; e < NE; e++ ) {
            int n = 0; for ( LinkId_t i : g->findComponent(end_[e])->links ) n += i == id[k];
            bool con = false; for ( int j = 0; j < m[k].n; j++ ) con = con || m[k].e[j] == e;
            SYM_ASSERT(n == (con ? 1 : 0), "a link is listed once by each component it connects");
        }
        if ( m[k].n + m[k].nl != 2 ) err = true;
    }
    SYM_ASSERT(g->checkForStructuralErrors() == err, "links without two ends are reported, and only those");
    if ( !err && m[0].n ) { portOK = false; SYM_ASSERT(dies([&] { g->checkForStructuralErrors(); }), "unknown ports are refused"); }
}
} // namespace
extern "C" int harness_main()
{
    Factory::instance = (Factory*)malloc(sizeof(Factory));
    new (&Simulation::sim_output) Output();
    switch ( sym_case() ) {
    case 0: linear(false); sym_reach("linear"); break;
    case 1: linear(true); sym_reach("rrobin"); break;
    case 2: simple(); sym_reach("simple"); break;
    case 3: single(); sym_reach("single"); break;
    case 4: collapse(false); sym_reach("collapse"); break;
    case 5: split(); sym_reach("split"); break;
    case 6: minlat(); sym_reach("minlat"); break;
    case 7: build(); sym_reach("build"); break;
    case 8: collapse(true); sym_reach("annotate"); break;
    }
    return 0;
}
