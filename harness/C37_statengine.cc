// Statistics are output at the requested rate, from the requested start to the requested stop time, and at the end.
// @cases 8
// @sources params.cc statapi/statbase.cc statapi/statfieldinfo.cc statapi/statoutput.cc simulation.cc action.cc exit.cc impl/oneshotManager.cc timeLord.cc unitAlgebra.cc timeVortex.cc baseComponent.cc component.cc componentInfo.cc statapi/statengine.cc statapi/statgroup.cc clock.cc serialization/serializer.cc serialization/serializable.cc serialization/serializable_base.cc serialization/statics.cc serialization/objectMap.cc serialization/impl/unpacker.cc serialization/impl/ser_shared_ptr_tracker.cc
// @reach plain group count dynamic restart sametime
// @bounds two statistics of two components; 3 (thorough 4) data items of 10-bit value at arbitrary times below 8; output period 0, 2 or 3 cycles (or after 1 or 2 items), start and stop time 0 to 5, data cleared on output or not; groups of one or two statistics with or without a period; followed for 8 cycles
// @assume the stop time, when given with a start time, is after it; nothing registers statistics once the run has started
// @outside sparse output formats, statistics turned on and off by the model itself, statistics loading levels
#include "simfix.h"
#include "sst/core/component.h"
#include "sst/core/componentInfo.h"
#include "sst/core/linkMap.h"
#include "sst/core/timeLord.h"
#include "sst/core/model/configStatistic.h"
#include "sst/core/statapi/stataccumulator.h"
#include "sst/core/statapi/statengine.h"
#include "sst/core/impl/timevortex/timeVortexPQ.cc"
using namespace SST;
using namespace SST::Statistics;
using namespace SST::Core::Serialization;
namespace {
Simulation* sim;
struct Comp : public Component {
    explicit Comp(ComponentId_t id) : Component(id) {}
    Comp() = default;
    ImplementSerializable(Comp)
};
struct Report { uint64_t time; StatisticBase* stat; uint64_t count; int64_t sum; bool end; };
std::vector<Report> reports;
bool ending;
struct Rec : public StatisticFieldsOutput {
    Rec() : StatisticFieldsOutput(*new Params()) {}
    StatisticBase* cur = nullptr; int64_t sum = 0; uint64_t count = 0; int open = 0;
    bool checkOutputParameters() override { return true; }
    void startOfSimulation() override {}
    void endOfSimulation() override {}
    bool acceptsGroups() const override { return true; }
    void implStartOutputEntries(StatisticBase* s) override { SYM_ASSERT(open == 0, "outputs do not interleave"); open++; cur = s; sum = 0; count = 0; }
    void implStopOutputEntries() override { open--; reports.push_back({ sim->currentSimCycle, cur, count, sum, ending }); }
    void outputField(fieldHandle_t h, int64_t v) override { if ( getRegisteredField(h)->getFieldName() == "Sum" ) sum = v; }
    void outputField(fieldHandle_t h, uint64_t v) override { if ( getRegisteredField(h)->getFieldName() == "Count" ) count = v; }
    void outputField(fieldHandle_t, int32_t) override {}
    void outputField(fieldHandle_t, uint32_t) override {}
    ImplementSerializable(Rec)
};
struct Add : public Action {
    Statistic<int64_t>* st; int64_t v; int n;
    Add(SimTime_t t, Statistic<int64_t>* s, int64_t v, int n) : st(s), v(v), n(n) { setDeliveryTime(t); setPriority(EVENTPRIORITY); }
    void execute() override { if ( n == 1 ) st->addData(v); else st->addDataNTimes(n, v); }
    NotSerializable(Add)
};
struct Cfg { uint64_t period = 0, start = 0, stop = 0, limit = 0; bool reset = false; };
struct Data { uint64_t t; int s; int64_t v; };
const uint64_t L = 8;
std::string ps(uint64_t v) { return std::to_string(v) + "ps"; }
}
extern "C" int harness_main()
{
    int c = sym_case(), K = sym_tier() ? 4 : 3;
    TimeVortex* tv = new IMPL::TimeVortexPQBase<false>(*(Params*)nullptr);
    sim = mkSim(tv, 0);
    for ( const char* u : { "s", "B", "b", "events" } ) Units::registerBaseUnit(u);
    Units::registerCompoundUnit("event", "events"); Units::registerCompoundUnit("Hz", "1/s"); Units::registerCompoundUnit("hz", "1/s");
    sim->timeLord.init("1 ps");
    new (&sim->stat_engine) StatisticProcessingEngine();
    auto& eng = sim->stat_engine;
    Comp* comp[2];
    for ( int i = 0; i < 2; i++ ) {
        auto* ci = new ComponentInfo(i, i ? "b" : "a"); ci->link_map = new LinkMap(); sim->compInfoMap.insert(ci);
        comp[i] = new Comp(i);
    }
    Rec* rec = new Rec();
    StatisticProcessingEngine::stat_outputs_.clear();
    StatisticProcessingEngine::stat_outputs_.push_back(rec);
    ending = false; reports.clear();
    // cases 0-3 default groups (0,1 periodic, 2 by number of items, 3 at the end only), 4-6 groups, 7 re-registration as on restart
    bool grouped = c >= 4 && c <= 6;
    StatsConfig sc; sc.load_level = 1;
    uint64_t gp = 0; bool both = false;
    if ( grouped ) {
        ConfigStatGroup g("g"); g.outputID = 0;
        gp = c == 4 ? 2 : c == 5 ? 3 : 0; both = sym_flag("both");
        if ( gp ) g.outputFrequency = UnitAlgebra(ps(gp)); else g.outputFrequency = UnitAlgebra("0ns");
        g.components.push_back(0); if ( both ) g.components.push_back(1);
        Params none; g.statMap["st"] = none;
        sc.groups.insert({ "g", g });
    }
    eng.setup(&sc);
    Cfg cfg[2]; Statistic<int64_t>* st[2];
    for ( int i = 0; i < 2; i++ ) {
        Params p; Cfg& f = cfg[i];
        bool ing = grouped && (i == 0 || both);
        f.reset = i == 0 && sym_flag("reset");
        if ( f.reset ) p.insert("resetOnOutput", "1");
        if ( c <= 1 || c == 7 ) f.period = i ? 2 : 2 + sym_choose(2, "period");
        if ( c == 2 ) f.limit = i ? 2 : 1 + sym_choose(2, "limit");
        if ( c == 7 || c == 3 || (i == 0 && (c & 1)) ) {
            if ( i == 0 ) { f.start = sym_choose(c == 7 ? 3 : 5, "start"); f.stop = sym_choose(c == 7 ? 3 : 6, "stop"); if ( c == 7 && f.stop ) f.stop += 2; } else { f.start = 2; f.stop = 4; }
            if ( f.stop && f.stop <= f.start ) sym_stop();
        }
        auto* s = new AccumulatorStatistic<int64_t>(comp[i], "st", "", p); st[i] = s;
        if ( c == 7 ) {
            static_cast<StatisticBase*>(s)->setRegisteredCollectionMode(true);
            SYM_ASSERT(eng.reregisterStatisticWithEngine(s, f.start, f.stop, f.period), "registration accepted");
            SYM_ASSERT(eng.getStatisticStartTimeFactor(s) == f.start && eng.getStatisticStopTimeFactor(s) == f.stop && s->getOutputRateFactor() == f.period, "the requested times are remembered for a checkpoint");
            sym_reach("restart");
        } else {
            if ( f.period ) p.insert("rate", ps(f.period));
            else if ( f.limit ) p.insert("rate", std::to_string(f.limit) + "event");
            if ( f.start ) p.insert("startat", ps(f.start));
            if ( f.stop ) p.insert("stopat", ps(f.stop));
            SYM_ASSERT(eng.registerStatisticWithEngine(s, p), "registration accepted");
        }
        if ( ing ) f.period = gp;
        SYM_ASSERT(static_cast<StatisticBase*>(s)->getGroup()->is_default == !ing, "a statistic belongs to the group that names it and its component");
    }
    sim->wireUpFinished_ = true;
    eng.finalizeInitialization();
    eng.startOfSimulation();
    // the data
    std::vector<Data> data;
    for ( int k = 0; k < K; k++ ) {
        uint64_t t = sym_bits(3, "t"); sym_assume(t >= 1 && (data.empty() || data.back().t <= t));
        int s = k == 1 ? (int)sym_choose(2, "which") : k == 2 ? (int)sym_flag("last") : 0;
        int64_t v = (int64_t)sym_bits(10, "v") - 512;
        data.push_back({ t, s, v });
        tv->insert(new Add(t, st[s], v, 1));
    }
    int guard = 0;
    while ( !tv->empty() && tv->front()->getDeliveryTime() <= L && guard++ < 60 ) {
        Activity* a = tv->pop();
        SYM_ASSERT(a->getDeliveryTime() >= sim->currentSimCycle, "nothing is scheduled in the past");
        sim->currentSimCycle = a->getDeliveryTime(); sim->currentPriority = a->getPriority();
        a->execute();
    }
    ending = true;
    eng.endOfSimulation();
    // expected reports of each statistic, in order
    for ( int i = 0; i < 2; i++ ) {
        Cfg& f = cfg[i];
        std::vector<Report> mine;
        for ( auto& r : reports ) if ( r.stat == static_cast<StatisticBase*>(st[i]) ) mine.push_back(r);
        uint64_t cnt = 0, items = 0; int64_t sum = 0; size_t at = 0, d = 0;
        for ( uint64_t t = 1; t <= L; t++ ) {
            for ( ; d < data.size() && data[d].t == t; d++ ) {
                if ( data[d].s != i ) continue;
                if ( f.start && t <= f.start ) continue;
                if ( f.stop && t > f.stop ) continue;
                if ( f.stop && t == f.stop ) sym_reach("sametime");
                cnt++; sum += data[d].v; items++;
                if ( f.limit && items == f.limit ) {
                    SYM_ASSERT(at < mine.size() && !mine[at].end, "an output follows every requested number of items");
                    SYM_ASSERT(mine[at].time == t && mine[at].count == cnt && mine[at].sum == sum, "the output after a number of items reports them");
                    at++; items = 0; sym_reach("count");
                    if ( f.reset ) cnt = sum = 0;
                }
            }
            if ( f.period && t % f.period == 0 ) {
                SYM_ASSERT(at < mine.size() && !mine[at].end, "an output is made at every multiple of the period");
                SYM_ASSERT(mine[at].time == t, "outputs are made at multiples of the period");
                SYM_ASSERT(mine[at].count == cnt && mine[at].sum == sum, "an output reports the data collected so far while enabled");
                at++; sym_reach(grouped ? "group" : "plain");
                if ( f.reset ) cnt = sum = 0;
            }
        }
        SYM_ASSERT(at + 1 == mine.size(), "there is one more output, at the end");
        SYM_ASSERT(mine[at].end && mine[at].count == cnt && mine[at].sum == sum, "the output at the end reports the remaining data");
        if ( !f.period && !f.limit ) sym_reach("dynamic");
    }
    return 0;
}
