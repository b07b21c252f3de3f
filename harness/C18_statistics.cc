// Statistics report exactly the data that was added to them.
// @cases 11
// @sources params.cc statapi/statbase.cc statapi/statfieldinfo.cc statapi/statoutput.cc simulation.cc action.cc exit.cc impl/oneshotManager.cc timeLord.cc unitAlgebra.cc timeVortex.cc baseComponent.cc component.cc componentInfo.cc statapi/statengine.cc statapi/statgroup.cc clock.cc serialization/serializer.cc serialization/serializable.cc serialization/serializable_base.cc serialization/statics.cc serialization/objectMap.cc serialization/impl/unpacker.cc serialization/impl/ser_shared_ptr_tracker.cc
// @reach accumulator histogram unique event copy
// @bounds accumulator over int32, uint32, int64, uint64, float and double and unique count over int64: 2 (thorough 3) additions of any 10-bit (signed types: signed) value, floating point multiples of a quarter from -4 to 3.75 (thorough -1 to 0.75), each repeated 1 to 4 times or disabled; histogram over int32, uint64 and double with 5 bins of width 4 or 10 and minimum 0, 3 or -7 and any 7-bit value (double: integers from -8 to 23); clearing at any point; event-based output limit 1 to 3
// @assume sums stay within the type
// @outside text, CSV, JSON and HDF5 formatting of the reported values (see C31 for text outputs), rates and groups (C37)
#include "simfix.h"
#include "sst/core/component.h"
#include "sst/core/componentInfo.h"
#include "sst/core/linkMap.h"
#include "sst/core/statapi/stataccumulator.h"
#include "sst/core/statapi/stathistogram.h"
#include "sst/core/statapi/statuniquecount.h"
#include "sst/core/statapi/statengine.h"
#include "sst/core/impl/timevortex/timeVortexPQ.cc"
using namespace SST;
using namespace SST::Statistics;
using namespace SST::Core::Serialization;
namespace {
Simulation* sim;
struct Comp : public Component {
    explicit Comp(ComponentId_t id) : Component(id) {}
    Comp() = default;
    ImplementSerializable(Comp)
};
struct Val { std::string name; int type; int64_t i; double d; };
struct Rec : public StatisticFieldsOutput {
    Rec() : StatisticFieldsOutput(*new Params()) {}
    std::vector<Val> vals; int outputs = 0, open = 0;
    bool checkOutputParameters() override { return true; }
    void startOfSimulation() override {}
    void endOfSimulation() override {}
    bool acceptsGroups() const override { return true; }
    void implStartOutputEntries(StatisticBase*) override { vals.clear(); outputs++; open++; }
    void implStopOutputEntries() override { open--; }
    void put(fieldHandle_t h, int t, int64_t i, double d) { StatisticFieldInfo* f = getRegisteredField(h); vals.push_back({ f->getFieldName(), t, i, d }); }
    void outputField(fieldHandle_t h, int32_t v) override { put(h, 0, v, v); }
    void outputField(fieldHandle_t h, uint32_t v) override { put(h, 1, v, v); }
    void outputField(fieldHandle_t h, int64_t v) override { put(h, 2, v, 0); }
    void outputField(fieldHandle_t h, uint64_t v) override { put(h, 3, (int64_t)v, 0); }
    void outputField(fieldHandle_t h, float v) override { put(h, 4, 0, v); }
    void outputField(fieldHandle_t h, double v) override { put(h, 5, 0, v); }
    ImplementSerializable(Rec)
    Val* get(const char* n) { for ( auto& v : vals ) if ( v.name == n ) return &v; return nullptr; }
};
Rec* rec; Comp* comp;
template <class T> T value(const char* nm)
{
    if ( std::is_floating_point<T>::value ) return (T)((int64_t)sym_bits(sym_tier() ? 3 : 5, nm) - (sym_tier() ? 4 : 16)) / (T)4;
    if ( std::is_signed<T>::value ) return (T)((int64_t)sym_bits(10, nm) - 512);
    return (T)sym_bits(10, nm);
}
template <class T> bool same(Val* v, T x) { if ( !v ) return false; if ( std::is_floating_point<T>::value ) return v->d == (double)x && v->type >= 4; return v->i == (int64_t)x && v->type < 4; }
template <class T> void place(Statistic<T>* s)
{
    static_cast<StatisticBase*>(s)->setGroup(&sim->stat_engine.stat_default_groups_[0]);
    rec->registerStatistic(s);
}
template <class T> StatisticBase* base(Statistic<T>* s) { return s; }

template <class T> void accumulator(int N)
{
    Params p;
    auto* st = new AccumulatorStatistic<T>(comp, "st", "", p);
    place<T>(st);
    T sum = 0, sq = 0, mn = 0, mx = 0; uint64_t cnt = 0;
    bool fp = std::is_floating_point<T>::value;
    for ( int k = 0; k < N; k++ ) {
        int op = sym_choose(fp ? 2 : 4, "op");
        T v = value<T>("v"); uint64_t n = 1;
        if ( op == 1 ) { n = 1 + sym_choose(fp ? 2 : 4, "n"); st->addDataNTimes(n, v); }
        else if ( op == 0 ) st->addData(v);
        else if ( op == 2 ) { st->disable(); st->addData(v); st->addDataNTimes(3, v); st->enable(); continue; }
        else { st->clearStatisticData(); sum = sq = mn = mx = 0; cnt = 0; continue; }
        if ( op == 1 ) { sum += n * v; sq += n * v * v; } else { sum += v; sq += v * v; }
        mn = (cnt == 0 || v < mn) ? v : mn; mx = (cnt == 0 || v > mx) ? v : mx; cnt += n;
    }
    SYM_ASSERT(st->getCount() == cnt && st->getSum() == sum && st->getSumSquared() == sq, "count, sum and sum of squares are those of the data added");
    if ( cnt ) SYM_ASSERT(st->getMin() == mn && st->getMax() == mx, "minimum and maximum are those of the data added");
    rec->output(st, false);
    SYM_ASSERT(rec->open == 0 && rec->vals.size() == 5, "every field is reported once");
    SYM_ASSERT(same<T>(rec->get("Sum"), sum) && same<T>(rec->get("SumSQ"), sq) && rec->get("Count")->i == (int64_t)cnt, "the reported sums and count are those of the data added");
    if ( cnt ) SYM_ASSERT(same<T>(rec->get("Min"), mn) && same<T>(rec->get("Max"), mx), "the reported minimum and maximum are those of the data added");
    else SYM_ASSERT(rec->get("Min")->i == 0 && rec->get("Max")->i == 0, "an empty accumulator reports zero");
    sym_reach("accumulator");
}
template <class T> void histogram(int N)
{
    int mins[3] = { 0, 3, std::is_signed<T>::value ? -7 : 7 };
    int mi = mins[sym_choose(3, "min")]; int w = sym_flag("wide") ? 10 : 4;
    bool oob = sym_flag("oob");
    Params p; p.insert("minvalue", std::to_string(mi)); p.insert("binwidth", std::to_string(w)); p.insert("numbins", "5"); p.insert("includeoutofbounds", oob ? "1" : "0");
    auto* st = new HistogramStatistic<T>(comp, "st", "", p);
    place<T>(st);
    int64_t bins[5] = { 0, 0, 0, 0, 0 }, below = 0, above = 0, binned = 0, total = 0; T sum = 0, sq = 0;
    for ( int k = 0; k < N; k++ ) {
        int v = std::is_floating_point<T>::value ? (int)sym_bits(sym_tier() ? 4 : 5, "v") - 8 : (int)sym_bits(7, "v") - (std::is_signed<T>::value ? 64 : 0);
        uint64_t n = 1;
        if ( sym_flag("many") ) { n = 3; st->addDataNTimes(3, (T)v); } else st->addData((T)v);
        total += n;
        if ( v < mi ) below += n; else if ( v >= mi + 5 * w ) above += n;
        else { binned += n; sum += n * (T)v; sq += n * ((T)v * (T)v); for ( int b = 0; b < 5; b++ ) if ( v >= mi + b * w && v < mi + (b + 1) * w ) bins[b] += n; }
    }
    if ( N && sym_flag("clear") ) { static_cast<StatisticBase*>(st)->clearStatisticData(); for ( auto& b : bins ) b = 0; below = above = binned = total = sum = sq = 0; }
    rec->output(st, false);
    SYM_ASSERT(rec->vals.size() == 9u + (oob ? 2 : 0) + 5, "every field is reported once");
    SYM_ASSERT(rec->get("NumItemsCollected")->i == total, "every item added is counted");
    SYM_ASSERT(rec->get("NumItemsBinned")->i == binned, "every item within the bins is counted as binned");
    if ( oob ) SYM_ASSERT(rec->get("NumOutOfBounds-MinValue")->i == below && rec->get("NumOutOfBounds-MaxValue")->i == above, "items outside the bins are counted as out of bounds");
    SYM_ASSERT(same<T>(rec->get("Sum"), sum) && same<T>(rec->get("SumSQ"), sq), "sums are those of the items within the bins");
    SYM_ASSERT(same<T>(rec->get("BinsMinValue"), (T)mi) && rec->get("BinWidth")->i == w && rec->get("TotalNumBins")->i == 5, "the layout of the bins is reported");
    for ( int b = 0; b < 5; b++ ) {
        std::string nm = "Bin" + std::to_string(b) + ":" + std::to_string(mi + b * w) + "-" + std::to_string(mi + (b + 1) * w - 1);
        Val* f = &rec->vals[rec->vals.size() - 5 + b];
        SYM_ASSERT(f->name == nm, "bins are reported in order under their range");
        SYM_ASSERT(f->i == bins[b], "each bin counts the items within its range");
    }
    sym_reach("histogram");
}
}
extern "C" int harness_main()
{
    int c = sym_case(), N = sym_tier() ? 3 : 2;
    TimeVortex* tv = new IMPL::TimeVortexPQBase<false>(*(Params*)nullptr);
    sim = mkSim(tv, 0);
    new (&sim->stat_engine) StatisticProcessingEngine();
    auto* ci = new ComponentInfo(0, "c"); ci->link_map = new LinkMap(); sim->compInfoMap.insert(ci);
    comp = new Comp(0); rec = new Rec();
    sim->stat_engine.stat_default_groups_[0].output = rec;
    sim->stat_engine.simulation_started_ = true;
    switch ( c ) {
    case 0: accumulator<int32_t>(N); break;
    case 1: accumulator<uint32_t>(N); break;
    case 2: accumulator<int64_t>(N); break;
    case 3: accumulator<uint64_t>(N); break;
    case 4: accumulator<float>(N); break;
    case 5: accumulator<double>(N); break;
    case 6: histogram<int32_t>(N); break;
    case 7: histogram<uint64_t>(N); break;
    case 8: histogram<double>(N); break;
    case 9: {
        Params p; auto* st = new UniqueCountStatistic<int64_t>(comp, "st", "", p); place<int64_t>(st);
        std::vector<int64_t> seen;
        for ( int k = 0; k < N + 1; k++ ) {
            int op = sym_choose(3, "op"); int64_t v = value<int64_t>("v");
            if ( op == 0 ) st->addData(v); else if ( op == 1 ) st->addDataNTimes(2, v); else { static_cast<StatisticBase*>(st)->clearStatisticData(); seen.clear(); continue; }
            bool old = false; for ( auto x : seen ) if ( x == v ) old = true;
            if ( !old ) seen.push_back(v);
        }
        rec->output(st, true);
        SYM_ASSERT(rec->vals.size() == 1 && rec->get("UniqueItems")->i == (int64_t)seen.size(), "the number of distinct values is reported");
        sym_reach("unique");
        break;
    }
    default: {   // output every so many items, with or without a reset of the data
        uint64_t limit = 1 + sym_choose(3, "limit"); bool reset = sym_flag("reset");
        Params p; p.insert("resetOnOutput", reset ? "true" : "false");
        auto* st = new AccumulatorStatistic<int64_t>(comp, "st", "", p); place<int64_t>(st);
        StatisticBase* sb = st;
        sb->setRegisteredCollectionMode(false); sb->setFlagResetCountOnOutput(true); sb->setCollectionCountLimit(limit);
        int64_t sum = 0, cnt = 0; uint64_t since = 0; int outs = 0;
        for ( int k = 0; k < (sym_tier() ? 6 : 5); k++ ) {
            int64_t v = value<int64_t>("v"); uint64_t n = 1 + sym_choose(2, "n");
            if ( sym_flag("off") ) { st->disable(); st->addDataNTimes(n, v); st->enable(); }
            else {
                st->addDataNTimes(n, v);
                sum += n * v; cnt += n; since += n;
                if ( since >= limit ) {
                    outs++;
                    SYM_ASSERT(rec->outputs == outs, "output happens when the item count reaches the limit");
                    SYM_ASSERT(rec->get("Sum")->i == sum && rec->get("Count")->i == cnt, "the output covers the data added up to it");
                    since = 0; if ( reset ) { sum = 0; cnt = 0; }
                }
            }
            SYM_ASSERT(rec->outputs == outs, "no other output happens");
        }
        // a copy through the serialiser keeps counting where the original stopped
        AccumulatorStatistic<int64_t>* cp = new AccumulatorStatistic<int64_t>(comp, "st", "", p);
        serializer ser; ser.start_sizing(); st->serialize_order(ser); size_t sz = ser.size(); std::vector<char> buf(sz);
        ser.start_packing(buf.data(), sz); st->serialize_order(ser);
        ser.start_unpacking(buf.data(), sz); cp->serialize_order(ser);
        place<int64_t>(cp);
        SYM_ASSERT(cp->getSum() == sum && cp->getCount() == (uint64_t)cnt && cp->isEnabled() && static_cast<StatisticBase*>(cp)->getFlagClearDataOnOutput() == reset, "a restored statistic has the data of the original");
        cp->addDataNTimes(limit - since, 1);
        SYM_ASSERT(rec->outputs == outs + 1 && rec->get("Sum")->i == sum + (int64_t)(limit - since), "a restored statistic reports when the original would have");
        sym_reach("event"); sym_reach("copy");
    }
    }
    return 0;
}
