// C22: counters and histograms conserve every recorded event and sample.
// Every statistic object is driven with random histories next to a sample-by-sample model; after
// each step every counter reachable in the tree, and every derived statistic, is compared.
#include "simenv.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/ReadOnlyCounter.hpp"
#include "sparta/statistics/CycleCounter.hpp"
#include "sparta/statistics/Histogram.hpp"
#include "sparta/statistics/BasicHistogram.hpp"
#include "sparta/statistics/CycleHistogram.hpp"
#include "sparta/statistics/EnumHistogram.hpp"
#include "sparta/statistics/EnumCycleHistogram.hpp"
#include "sparta/statistics/StateHistogram.hpp"
#include "sparta/statistics/ContextCounter.hpp"
#include "sparta/statistics/WeightedContextCounter.hpp"
#include "sparta/statistics/StatisticInstance.hpp"
#include "sparta/utils/Enum.hpp"
#include <cmath>
#include <map>
#include <set>

using namespace sparta;
using vf::Ctx;

enum class E0 : uint32_t { A = 0, __FIRST = A, B, C, D, __LAST };
enum class E1 : uint32_t { P = 2, __FIRST = P, Q, R, __LAST };
enum class E2 : uint16_t { X = 0, __FIRST = X, Y, Z, __LAST };
namespace sparta { namespace utils {
template<> const std::unique_ptr<std::string[]> Enum<E0>::names_(new std::string[static_cast<uint32_t>(E0::__LAST) + 1]);
template<> const std::unique_ptr<std::string[]> Enum<E1>::names_(new std::string[static_cast<uint32_t>(E1::__LAST) + 1]);
} }
static utils::Enum<E0> e0(E0::A, "Aa", E0::B, "Bb", E0::C, "Cc", E0::D, "Dd");
static utils::Enum<E1> e1(E1::P, "Pp", E1::Q, "Qq", E1::R, "Rr");
static std::ostream &operator<<(std::ostream &o, const E2 &e) { static const char *n[] = {"Xx", "Yy", "Zz"}; return o << (uint32_t(e) < 3 ? n[uint32_t(e)] : "bad"); }

static bool same(double a, double b)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= 1e-9 * std::max({1.0, std::fabs(a), std::fabs(b)});
}
static double val(const TreeNode *n) { return StatisticInstance(n).getRawLatest(); }
static double quot(double a, double b) { return a / b; }

// A statistic reports changes since its instance was made: the instances of a tree are made up front.
struct Insts {
    std::map<const TreeNode *, std::unique_ptr<StatisticInstance>> m;
    void take(const TreeNode *n)
    {
        for (auto *c : const_cast<TreeNode *>(n)->getChildren())
            if (dynamic_cast<StatisticDef *>(c) || dynamic_cast<CounterBase *>(c)) m[c].reset(new StatisticInstance(c));
    }
    double operator()(const TreeNode *n) { auto i = m.find(n); return i == m.end() ? val(n) : i->second->getRawLatest(); }
} static g_inst;
struct Take { explicit Take(const TreeNode *n) { g_inst.m.clear(); g_inst.take(n); } ~Take() { g_inst.m.clear(); } };

#define ST_EQ(node, path, want, key)                                                             \
    do {                                                                                         \
        auto *st_n_ = (node)->getChild(path);                                                    \
        double st_v_ = g_inst(st_n_), st_w_ = (want);                                               \
        VF_CHECK(ctx, same(st_v_, st_w_), key, std::string(path) + " is " << st_v_ << ", expected " << st_w_); \
    } while (0)

// ---------------------------------------------------------------------------------- counters
VF_SECTION(counters, 250, 2500)
{
    Quiet q;
    vf::Env env;
    StatisticSet ss(&env.rtn);
    struct C { CounterBase *b; Counter *c; uint64_t v; bool latest; };
    std::vector<C> cs;
    std::vector<std::unique_ptr<Counter>> own;
    unsigned n = ctx.rng.range(1, 6);
    for (unsigned i = 0; i < n; ++i) {
        auto beh = ctx.rng.pick(std::vector<CounterBase::CounterBehavior>{CounterBase::COUNT_NORMAL, CounterBase::COUNT_INTEGRAL, CounterBase::COUNT_LATEST});
        std::string nm = "ctr_" + std::to_string(i) + "x";
        Counter *c;
        if (ctx.rng.chance(1, 2)) c = &ss.createCounter<Counter>(nm, "d", beh);
        else { own.emplace_back(new Counter(&ss, nm, "d", beh)); c = own.back().get(); }
        cs.push_back({c, c, 0, beh == CounterBase::COUNT_LATEST});
    }
    std::vector<uint64_t> refs(4, 0);
    std::vector<ReadOnlyCounter *> ro;
    for (unsigned i = 0; i < refs.size(); ++i)
        ro.push_back(&ss.createCounter<ReadOnlyCounter>("ro_" + std::to_string(i) + "x", "d", CounterBase::COUNT_NORMAL, &refs[i]));
    std::vector<std::unique_ptr<StatisticInstance>> si;
    for (auto &c : cs) si.emplace_back(new StatisticInstance(c.b));
    unsigned steps = ctx.rng.range(10, 80);
    for (unsigned s = 0; s < steps; ++s) {
        auto &c = ctx.rng.pick(cs);
        uint64_t k = ctx.rng.chance(1, 5) ? ctx.rng.next() >> ctx.rng.below(60) : ctx.rng.below(100);
        switch (ctx.rng.below(6)) {
        case 0: { ctx.op("pre++"); uint64_t r = ++*c.c; VF_EQ(ctx, r, ++c.v, "counter-pre", "pre-increment result"); break; }
        case 1: { ctx.op("post++"); uint64_t r = (*c.c)++; VF_EQ(ctx, r, c.v++, "counter-post", "post-increment result"); break; }
        case 2: { ctx.op("+=", k); uint64_t r = (*c.c += k); c.v += k; VF_EQ(ctx, r, c.v, "counter-add", "add result"); break; }
        case 3: { ctx.op("increment", k); uint64_t r = c.c->increment(k); c.v += k; VF_EQ(ctx, r, c.v, "counter-add", "increment result"); break; }
        case 4: {
            ctx.op("set", k);
            if (c.latest) { if (ctx.rng.chance(1, 2)) c.c->set(k); else *c.c = k; c.v = k; }
            else { VF_CHECK(ctx, (vf::throws<SpartaException>([&] { c.c->set(k); })), "counter-set", "a counting counter was overwritten"); }
            break;
        }
        default: { unsigned i = ctx.rng.below(refs.size()); refs[i] += k; ctx.op("source", i, k); }
        }
        for (auto &x : cs) { VF_EQ(ctx, x.b->get(), x.v, "counter-value", "counter value"); VF_EQ(ctx, uint64_t(*x.c), x.v, "counter-value", "counter conversion"); }
        for (unsigned i = 0; i < refs.size(); ++i) VF_EQ(ctx, ro[i]->get(), refs[i], "read-only", "read-only counter and its source");
        for (size_t i = 0; i < cs.size(); ++i) VF_CHECK(ctx, same(si[i]->getRawLatest(), double(cs[i].v)), "counter-instance", "instance of a counter reads " << si[i]->getRawLatest());
        ctx.obs(c.latest, k > 100);
        ctx.count("steps");
    }
    for (size_t i = 0; i < cs.size(); ++i) {
        VF_CHECK(ctx, ss.getCounters().size() == cs.size() + ro.size(), "counter-set-list", "the set lists " << ss.getCounters().size() << " counters");
        for (size_t j = 0; j < cs.size(); ++j) VF_EQ(ctx, *cs[i].c == *cs[j].c, cs[i].v == cs[j].v, "counter-eq", "comparison of counters");
    }
    ctx.obs(n, steps);
}
VF_SECTION(counter_move, 150, 1200)
{
    Quiet q;
    vf::Env env;
    StatisticSet ss(&env.rtn);
    std::vector<Counter> v;                 // grows by moving
    std::vector<uint64_t> want;
    unsigned n = ctx.rng.range(2, 12);
    for (unsigned i = 0; i < n; ++i) {
        v.emplace_back(&ss, "m" + std::to_string(i) + "_c", "d", CounterBase::COUNT_NORMAL);
        want.push_back(0);
        for (unsigned s = ctx.rng.below(8); s--;) { unsigned j = ctx.rng.below(v.size()); uint64_t k = ctx.rng.below(1000); v[j] += k; want[j] += k; }
        for (unsigned j = 0; j < v.size(); ++j) {
            VF_EQ(ctx, v[j].get(), want[j], "move-value", "value of a counter moved while its vector grew");
            VF_CHECK(ctx, ss.getChild("m" + std::to_string(j) + "_c") == &v[j], "move-tree", "the tree does not hold the moved counter");
            ST_EQ(&ss, "m" + std::to_string(j) + "_c", double(want[j]), "move-value");
        }
        VF_EQ(ctx, ss.getChildren().size(), v.size(), "move-tree", "children of the set");
    }
    ctx.obs(n);
}
VF_SECTION(cycle_counters, 250, 2500)
{
    Quiet q;
    std::vector<std::pair<uint32_t, uint32_t>> ratios;
    for (unsigned i = ctx.rng.below(3); i--;) ratios.emplace_back(ctx.rng.range(1, 4), ctx.rng.range(1, 4));
    vf::Multi m(ratios);
    std::vector<std::unique_ptr<StatisticSet>> sets;
    for (auto &n : m.nodes) sets.emplace_back(new StatisticSet(n.get()));
    struct CC { CycleCounter *c; unsigned clk; bool on; uint64_t mult, start, count; };
    std::vector<CC> cs;
    unsigned n = ctx.rng.range(1, 5);
    for (unsigned i = 0; i < n; ++i) {
        unsigned k = ctx.rng.below(m.clks.size());
        cs.push_back({&sets[k]->createCounter<CycleCounter>("cy_" + std::to_string(i) + "x", "d", CounterBase::COUNT_NORMAL, m.clks[k].get()), k, false, 1, 0, 0});
    }
    m.finalize();
    m.sched.run(1, true, false);
    unsigned steps = ctx.rng.range(10, 60);
    auto cyc = [&](unsigned k) { return m.sched.getElapsedTicks() / m.period[k]; };
    for (unsigned s = 0; s < steps; ++s) {
        auto &c = ctx.rng.pick(cs);
        uint32_t d = ctx.rng.chance(1, 3) ? ctx.rng.below(4) : 0, mul = ctx.rng.below(5);
        uint64_t now = cyc(c.clk);
        switch (ctx.rng.below(6)) {
        case 0: case 1:
            ctx.op("start", &c - cs.data(), d, mul);
            if (c.on) { if (ctx.rng.chance(1, 4)) VF_CHECK(ctx, (vf::throws<SpartaException>([&] { c.c->startCounting(d); })), "double-start", "counting was started twice"); break; }
            if (ctx.rng.chance(1, 2)) { c.c->startCounting(d); c.mult = 1; }
            else { c.c->startCountingWithMultiplier(mul, d); c.mult = mul; }
            c.on = true; c.start = now + d;
            break;
        case 2:
            ctx.op("stop", &c - cs.data(), d);
            if (!c.on || now + d < c.start) { if (ctx.rng.chance(1, 4)) VF_CHECK(ctx, (vf::throws<SpartaException>([&] { c.c->stopCounting(d); })), "bad-stop", "counting was stopped before it had begun"); break; }
            c.c->stopCounting(d);
            c.count += (now + d - c.start) * c.mult; c.on = false;
            break;
        case 3:
            if (c.on && now < c.start) break;
            ctx.op("mult", &c - cs.data(), mul);
            c.c->updateCountingMultiplier(mul);
            if (c.on) c.count += (now - c.start) * c.mult;
            c.on = true; c.start = now; c.mult = mul;
            break;
        default: { uint64_t t = ctx.rng.range(1, 30); ctx.op("run", t); m.sched.run(t, true, false); }
        }
        for (auto &x : cs) {
            uint64_t w = x.count, t = cyc(x.clk);
            if (x.on && t > x.start) w += (t - x.start) * x.mult;
            VF_EQ(ctx, x.c->get(), w, "cycle-count", "cycles counted");
            VF_EQ(ctx, x.c->isCounting(), x.on, "cycle-on", "counting flag");
            if (x.on) VF_EQ(ctx, uint64_t(x.c->getCurrentMultiplier()), x.mult, "cycle-mult", "multiplier");
        }
        ctx.obs(c.on, c.mult, d);
        ctx.count("steps");
    }
}
// -------------------------------------------------------------------------------- histograms
static uint64_t sample(Ctx &ctx, uint64_t lo, uint64_t hi)
{
    switch (ctx.rng.below(8)) {
    case 0: return lo; case 1: return hi;
    case 2: return lo ? lo - 1 : 0;
    case 3: return hi + 1;
    case 4: return hi + ctx.rng.below(1000);
    default: return ctx.rng.range(lo ? lo - std::min<uint64_t>(lo, 3) : 0, hi + 3);
    }
}
VF_SECTION(histogram, 220, 2000)
{
    Quiet q;
    vf::Env env;
    StatisticSet ss(&env.rtn);
    uint64_t lo = ctx.rng.chance(1, 2) ? 0 : ctx.rng.below(50), hi = lo + ctx.rng.range(1, 40);
    uint32_t per = 1u << ctx.rng.below(5), nmax = ctx.rng.chance(1, 2) ? ctx.rng.range(1, 4) : 0;
    bool alone = ctx.rng.chance(1, 2);
    std::string pre = alone ? "h_" : "";
    ctx.op("histogram", lo, hi, per, nmax, alone);
    std::unique_ptr<HistogramTreeNode> ht;
    std::unique_ptr<HistogramStandalone> hs;
    HistogramBase *h;
    TreeNode *at = &ss;
    if (alone) { hs.reset(new HistogramStandalone(&ss, pre, lo, hi, per, nmax)); h = hs.get(); }
    else {
        if (nmax || ctx.rng.chance(1, 2)) ht.reset(new HistogramTreeNode(&env.rtn, "hist", "d", lo, hi, per, nmax, InstrumentationNode::VIS_NORMAL, InstrumentationNode::VIS_NORMAL));
        else ht.reset(new HistogramTreeNode(&env.rtn, "hist", "d", lo, hi, per));
        h = ht.get(); at = ht->getChild("stats");
    }
    Take take(at);
    uint64_t nb = (hi - lo) / per + 1;
    VF_EQ(ctx, uint64_t(h->getNumBins()), nb, "hist-bins", "number of bins");
    VF_EQ(ctx, h->getHistogramLowerValue(), lo, "hist-bins", "lower value");
    VF_EQ(ctx, h->getHistogramUpperValue(), hi, "hist-bins", "upper value");
    VF_EQ(ctx, uint64_t(h->getNumValuesPerBin()), per, "hist-bins", "values per bin");
    std::vector<std::string> bn;
    std::vector<uint64_t> bin(nb, 0), all;
    for (uint64_t i = 0; i < nb; ++i) bn.push_back(pre + "bin_" + std::to_string(lo + i * per) + "_" + std::to_string(std::min(lo + i * per + per - 1, hi)));
    uint64_t uf = 0, of = 0, sum = 0;
    unsigned steps = ctx.rng.range(1, 60);
    for (unsigned s = 0; s < steps; ++s) {
        uint64_t v = sample(ctx, lo, hi);
        ctx.op("add", v);
        h->addValue(v);
        all.push_back(v); sum += v;
        if (v < lo) ++uf; else if (v > hi) ++of; else ++bin[(v - lo) / per];
        ctx.obs(v < lo ? 0 : v > hi ? 1 : 2 + (v - lo) / per, per);
        ctx.count("samples");
        if (s + 1 != steps && !ctx.rng.chance(1, 8)) continue;
        uint64_t tot = all.size(), got = h->getUnderflowBin().get() + h->getOverflowBin().get();
        for (uint64_t i = 0; i < nb; ++i) {
            VF_EQ(ctx, h->getRegularBin()[i].get(), bin[i], "hist-bin", "samples in " + bn[i]);
            got += h->getRegularBin()[i].get();
            ST_EQ(at, bn[i], double(bin[i]), "hist-bin-node");
            ST_EQ(at, bn[i] + "_probability", quot(bin[i], tot), "hist-prob");
        }
        VF_EQ(ctx, got, tot, "hist-conserve", "samples in all bins");
        VF_EQ(ctx, h->getAggValues().get(), tot, "hist-total", "total");
        VF_EQ(ctx, h->getUnderflowBin().get(), uf, "hist-uf", "underflow");
        VF_EQ(ctx, h->getOverflowBin().get(), of, "hist-of", "overflow");
        ST_EQ(at, pre + "total", double(tot), "hist-total");
        ST_EQ(at, pre + "sum", double(sum), "hist-sum");
        ST_EQ(at, pre + "UF", double(uf), "hist-uf");
        ST_EQ(at, pre + "OF", double(of), "hist-of");
        ST_EQ(at, pre + "UF_probability", quot(uf, tot), "hist-prob");
        ST_EQ(at, pre + "OF_probability", quot(of, tot), "hist-prob");
        ST_EQ(at, pre + "average", quot(sum, tot), "hist-average");
        VF_CHECK(ctx, same(h->getUnderflowProbability(), quot(uf, tot)) && same(h->getOverflowProbability(), quot(of, tot)), "hist-prob", "under- or overflow probability");
        auto &pr = h->recomputeRegularBinProbabilities();
        VF_EQ(ctx, pr.size(), nb, "hist-prob", "number of probabilities");
        for (uint64_t i = 0; i < nb; ++i) VF_CHECK(ctx, same(pr[i], quot(bin[i], tot)), "hist-prob", "probability of " << bn[i]);
        double mean = double(tot) / (nb + 2), acc = (uf - mean) * (uf - mean) + (of - mean) * (of - mean);
        for (auto b : bin) acc += (b - mean) * (b - mean);
        VF_CHECK(ctx, same(h->getMeanBinCount(), mean), "hist-mean", "mean bin count " << h->getMeanBinCount());
        VF_CHECK(ctx, same(h->getStandardDeviation(), std::sqrt(acc / (nb + 1))), "hist-stddev", "standard deviation " << h->getStandardDeviation());
        if (nmax) {
            auto top = all; top.resize(std::max<size_t>(top.size(), nmax) + nmax, 0);
            std::sort(top.rbegin(), top.rend()); top.resize(nmax); std::reverse(top.begin(), top.end());
            for (unsigned i = 0; i < nmax; ++i) ST_EQ(at, pre + "maxval" + std::to_string(i), double(top[i]), "hist-max");
        }
        if (ht) {
            std::ostringstream w; uint64_t run = uf;
            w << "\thist[ UF ] = " << run << "\n";
            for (uint64_t i = 0; i < nb; ++i) w << "\thist[ " << lo << "-" << std::min(lo + i * per + per - 1, hi) << " ] = " << (run += bin[i]) << "\n";
            w << "\thist[ OF ] = " << (run += of) << "\n";
            VF_EQ(ctx, ht->getDisplayStringCumulative(), w.str(), "hist-display", "cumulative display");
        }
    }
}
VF_SECTION(histogram_reject, 40, 200)
{
    Quiet q;
    vf::Env env;
    StatisticSet ss(&env.rtn);
    uint64_t lo = ctx.rng.below(20);
    uint32_t bad = ctx.rng.pick(std::vector<uint32_t>{3, 5, 6, 7, 9, 12, 100});
    uint64_t below = lo - ctx.rng.below(lo + 1);
    ctx.op("reject", lo, below, bad);
    VF_CHECK(ctx, (vf::throws<SpartaException>([&] { HistogramStandalone(&ss, "a_", lo, below, 1, 0); })), "hist-reject", "an empty range was accepted");
    VF_CHECK(ctx, (vf::throws<SpartaException>([&] { HistogramStandalone(&ss, "b_", lo, lo + 50, bad, 0); })), "hist-reject", "a bin width that is no power of two was accepted");
    VF_CHECK(ctx, (vf::throws<SpartaException>([&] { CycleHistogramStandalone(&ss, &env.clk, "c_", "d", lo, below, 1); })), "hist-reject", "an empty range was accepted");
    VF_CHECK(ctx, (vf::throws<SpartaException>([&] { CycleHistogramStandalone(&ss, &env.clk, "d_", "d", lo, lo + 50, bad); })), "hist-reject", "a bin width that is no power of two was accepted");
    VF_EQ(ctx, ss.getChildren().size(), size_t(0), "hist-reject", "children left by rejected histograms");
    ctx.obs(lo, bad);
}
template<class T, bool A> static void basic(Ctx &ctx)
{
    vf::Env env;
    StatisticSet ss(&env.rtn);
    std::set<T> bs;
    for (unsigned n = ctx.rng.range(1, 8); n--;) bs.insert(T(int64_t(ctx.rng.below(60)) - (std::is_signed<T>::value ? 30 : 0)));
    std::vector<T> b(bs.begin(), bs.end());
    if (b.size() > 1 && ctx.rng.chance(1, 10)) {
        auto r = b; std::reverse(r.begin(), r.end());
        VF_CHECK(ctx, (vf::throws<SpartaException>([&] { BasicHistogram<T, A>(ss, "bad", "d", r); })), "basic-unsorted", "unsorted buckets were accepted");
    }
    BasicHistogram<T, A> h(ss, "bh", "d", b);
    std::vector<uint64_t> w(b.size(), 0);
    uint64_t tot = 0;
    for (unsigned s = ctx.rng.range(1, 60); s--;) {
        T v = ctx.rng.chance(1, 3) ? T(ctx.rng.pick(b)) : T(int64_t(ctx.rng.below(80)) - (std::is_signed<T>::value ? 40 : 0));
        ctx.op("add", v);
        if (v < b[0] && A) { VF_CHECK(ctx, (vf::throws<SpartaException>([&] { h.addValue(v); })), "basic-underflow", "a value below the first bucket was accepted"); ctx.obs(99); }
        else {
            h.addValue(v);
            size_t i = 0;
            while (i + 1 < b.size() && b[i + 1] <= v) ++i;
            ++w[i]; ++tot;
            ctx.obs(i, v == b[i]);
        }
        uint64_t got = 0;
        for (size_t i = 0; i < b.size(); ++i) {
            std::ostringstream nm; if (b[i] < T(0)) nm << "bh_n" << -b[i]; else nm << "bh_" << b[i];
            ST_EQ(&ss, nm.str(), double(w[i]), "basic-bin");
            got += uint64_t(val(ss.getChild(nm.str())));
        }
        VF_EQ(ctx, got, tot, "basic-conserve", "samples in all buckets");
        ctx.count("samples");
    }
}
VF_SECTION(basic_histogram, 200, 1600)
{
    Quiet q;
    switch (ctx.rng.below(4)) {
    case 0: basic<int32_t, false>(ctx); break; case 1: basic<uint64_t, false>(ctx); break;
    case 2: basic<int64_t, true>(ctx); break; default: basic<uint16_t, true>(ctx);
    }
}
VF_SECTION(cycle_histogram, 220, 2000)
{
    Quiet q;
    std::vector<std::pair<uint32_t, uint32_t>> ratios;
    if (ctx.rng.chance(1, 2)) ratios.emplace_back(ctx.rng.range(1, 4), ctx.rng.range(1, 4));
    vf::Multi m(ratios);
    unsigned k = m.clks.size() - 1;
    StatisticSet ss(m.nodes[k].get());
    uint64_t lo = ctx.rng.chance(1, 2) ? 0 : ctx.rng.below(20), hi = lo + ctx.rng.range(1, 12);
    uint64_t per = 1u << ctx.rng.below(3), idle = ctx.rng.chance(1, 2) ? 0 : sample(ctx, lo, hi);
    bool alone = ctx.rng.chance(1, 2), adding = ctx.rng.chance(1, 3);
    ctx.op("cycle_histogram", lo, hi, per, idle, alone, adding);
    std::unique_ptr<CycleHistogramTreeNode> ht;
    std::unique_ptr<CycleHistogramStandalone> hs;
    CycleHistogramBase *h; TreeNode *at = &ss; std::string pre;
    if (alone) { hs.reset(new CycleHistogramStandalone(&ss, m.clks[k].get(), "ch", "d", lo, hi, per, idle)); h = hs.get(); pre = "ch_"; }
    else { ht.reset(new CycleHistogramTreeNode(m.nodes[k].get(), "hist", "d", lo, hi, per, idle)); h = ht.get(); at = ht->getChild("stats"); }
    m.finalize();
    Take take(at);
    m.sched.run(1, true, false);
    uint64_t nb = (hi - lo) / per + 1;
    VF_EQ(ctx, h->getNumBins(), nb, "cyc-bins", "number of bins");
    std::vector<std::string> bn;
    for (uint64_t i = 0; i < nb; ++i) {
        uint64_t a = lo + i * per, b = std::min(a + per - 1, hi);
        bn.push_back(a == b ? (alone ? "ch_count" : "cycle_count") + std::to_string(a) : pre + "bin_" + std::to_string(a) + "_" + std::to_string(b));
    }
    std::vector<uint64_t> cyc(nb, 0);
    std::map<uint64_t, uint64_t> at_val;       // cycles spent at each value
    uint64_t uf = 0, of = 0, cur = idle, mx = idle, since = 0;
    auto now = [&] { return m.sched.getElapsedTicks() / m.period[k]; };
    auto charge = [&](uint64_t v, uint64_t n) { at_val[v] += n; if (v < lo) uf += n; else if (v > hi) of += n; else cyc[(v - lo) / per] += n; };
    auto advance = [&](uint64_t t) {
        uint64_t c0 = now();
        m.sched.run(t, true, false);
        charge(cur, now() - c0);
    };
    charge(cur, now());
    unsigned steps = ctx.rng.range(4, 40);
    for (unsigned s = 0; s < steps; ++s) {
        uint64_t v = sample(ctx, lo, hi);
        uint64_t t = ctx.rng.range(adding ? m.period[k] : 1, 12 + m.period[k]);
        if (adding) {
            // one cycle at v, then back to idle
            uint64_t c0 = now();
            ctx.op("addValue", v);
            h->addValue(v);
            mx = std::max(mx, v);
            ctx.op("run", t);
            m.sched.run(t, true, false);
            uint64_t d = now() - c0;
            charge(v, 1); charge(idle, d - 1);
        } else {
            ctx.op("setValue", v);
            h->setValue(v); cur = v; mx = std::max(mx, v);
            if (ctx.rng.chance(1, 4)) continue;                  // several changes in one cycle
            ctx.op("run", t);
            advance(t);
        }
        ctx.obs(v < lo ? 0 : v > hi ? 1 : 2 + (v - lo) / per, t > m.period[k]);
        ctx.count("samples");
        if (s + 1 != steps && !ctx.rng.chance(1, 5)) continue;
        uint64_t tot = now(), got = h->getUnderflowBin().get() + h->getOverflowBin().get();
        double wsum = double(lo) * uf + double(hi) * of, acc = 0, mean = double(tot) / (nb + 2);
        for (uint64_t i = 0; i < nb; ++i) {
            VF_EQ(ctx, h->getRegularBin()[i].get(), cyc[i], "cyc-bin", "cycles in " + bn[i]);
            got += h->getRegularBin()[i].get();
            ST_EQ(at, bn[i], double(cyc[i]), "cyc-bin-node");
            ST_EQ(at, bn[i] + "_probability", quot(cyc[i], tot), "cyc-prob");
            wsum += double(lo + i) * cyc[i];
            acc += (cyc[i] - mean) * (cyc[i] - mean);
        }
        acc += (uf - mean) * (uf - mean) + (of - mean) * (of - mean);
        VF_EQ(ctx, got, tot, "cyc-conserve", "cycles in all bins and elapsed cycles");
        VF_EQ(ctx, h->getAggCycles().get(), tot, "cyc-total", "total cycles");
        ST_EQ(at, pre + "total", double(tot), "cyc-total");
        ST_EQ(at, pre + "UF", double(uf), "cyc-uf");
        ST_EQ(at, pre + "OF", double(of), "cyc-of");
        ST_EQ(at, pre + "UF_probability", quot(uf, tot), "cyc-prob");
        ST_EQ(at, pre + "OF_probability", quot(of, tot), "cyc-prob");
        ST_EQ(at, alone ? "ch_max" : "max_value", double(mx), "cyc-max");
        ST_EQ(at, pre + "full", double(cyc[nb - 1] + of), "cyc-full");
        ST_EQ(at, pre + "full_probability", quot(cyc[nb - 1] + of, tot), "cyc-full");
        if (per == 1) {
            ST_EQ(at, pre + "weighted_avg", wsum / tot, "cyc-average");
            if (lo == 0) ST_EQ(at, pre + "weighted_nonzero_avg", wsum / (double(tot) - cyc[0]), "cyc-average-nonzero");
            else ST_EQ(at, pre + "weighted_nonzero_avg", wsum / tot, "cyc-average-nonzero");
        }
        VF_CHECK(ctx, same(h->getUnderflowProbability(), quot(uf, tot)) && same(h->getOverflowProbability(), quot(of, tot)), "cyc-prob", "under- or overflow probability");
        auto &pr = h->recomputeRegularBinProbabilities();
        for (uint64_t i = 0; i < nb; ++i) VF_CHECK(ctx, same(pr.at(i), quot(cyc[i], tot)), "cyc-prob", "probability of " << bn[i]);
        VF_CHECK(ctx, same(h->getMeanBinCount(), mean) && same(h->getStandardDeviation(), std::sqrt(acc / (nb + 1))), "cyc-stddev", "mean or deviation of the bins");
        if (ht) {
            std::ostringstream w; uint64_t run = uf;
            w << "\thist[ UF ] = " << run << "\n";
            for (uint64_t i = 0; i < nb; ++i) w << "\thist[ " << lo << "-" << std::min(lo + i * per + per - 1, hi) << " ] = " << (run += cyc[i]) << "\n";
            w << "\thist[ OF ] = " << (run += of) << "\n";
            VF_EQ(ctx, ht->getDisplayStringCumulative(), w.str(), "cyc-display", "cumulative display");
        }
    }
    (void) since;
}
// ------------------------------------------------------------------------------ enum histograms
template<class E> static std::string nameOf(E e) { return std::string(typename utils::Enum<E>::Value(e)); }
template<class E> static void enumHist(Ctx &ctx)
{
    vf::Env env;
    EnumHistogram<E> h(&env.rtn, "eh", "d");
    unsigned F = unsigned(E::__FIRST), L = unsigned(E::__LAST);
    TreeNode *at = h.getChild("stats");
    Take take(at);
    std::vector<uint64_t> w(L - F, 0); uint64_t uf = 0, of = 0, tot = 0;
    VF_EQ(ctx, unsigned(h.getNumBins()), L - F, "enum-bins", "bins of an enumeration");
    for (unsigned s = ctx.rng.range(1, 40); s--;) {
        unsigned v = ctx.rng.range(F ? F - 1 : 0, L + 1);
        ctx.op("add", v);
        h.addValue(E(v)); ++tot;
        if (v < F) ++uf; else if (v >= L) ++of; else ++w[v - F];
        ctx.obs(v); ctx.count("samples");
        for (unsigned i = F; i < L; ++i) {
            std::string n = "bin_" + nameOf(E(i)) + "_" + std::to_string(i);
            ST_EQ(at, n, double(w[i - F]), "enum-bin");
            if (s == 0) ST_EQ(at, n + "_probability", quot(w[i - F], tot), "enum-prob");
        }
        ST_EQ(at, "total", double(tot), "enum-total");
        ST_EQ(at, "UF", double(uf), "enum-uf");
        ST_EQ(at, "OF", double(of), "enum-of");
    }
}
VF_SECTION(enum_histogram, 120, 1000) { Quiet q; if (ctx.rng.chance(1, 2)) enumHist<E0>(ctx); else enumHist<E1>(ctx); }
template<class E> static void stateHist(Ctx &ctx)
{
    vf::Multi m({{ctx.rng.range(1, 3), ctx.rng.range(1, 3)}});
    unsigned k = 1, F = unsigned(E::__FIRST), L = unsigned(E::__LAST), cur = ctx.rng.range(F, L - 1);
    StateHistogram<E> h(m.nodes[k].get(), "sh", "d", E(cur));
    TreeNode *at = h.getChild("stats");
    m.finalize(); Take take(at); m.sched.run(1, true, false);
    auto now = [&] { return m.sched.getElapsedTicks() / m.period[k]; };
    std::vector<uint64_t> w(L - F, 0);
    w[cur - F] += now();
    for (unsigned s = ctx.rng.range(3, 40); s--;) {
        unsigned v = ctx.rng.range(F, L - 1), old = cur;
        bool next = ctx.rng.chance(1, 2);
        ctx.op(next ? "setNextState" : "setState", v);
        if (next) h.setNextState(E(v)); else h.setState(E(v));
        cur = v;
        VF_EQ(ctx, unsigned(h.getState()), v, "state-current", "current state");
        uint64_t t = ctx.rng.range(m.period[k], m.period[k] + 8), c0 = now();
        ctx.op("run", t);
        m.sched.run(t, true, false);
        uint64_t d = now() - c0;
        if (next) { w[old - F] += 1; w[cur - F] += d - 1; } else w[cur - F] += d;
        ctx.obs(old, v, next); ctx.count("samples");
        for (unsigned i = F; i < L; ++i) {
            ST_EQ(at, "bin_" + nameOf(E(i)), double(w[i - F]), "state-bin");
            if (s == 0) ST_EQ(at, "bin_" + nameOf(E(i)) + "_probability", quot(w[i - F], now()), "state-prob");
        }
        ST_EQ(at, "total", double(now()), "state-total");
    }
}
VF_SECTION(state_histogram, 120, 1000) { Quiet q; if (ctx.rng.chance(1, 2)) stateHist<E0>(ctx); else stateHist<E1>(ctx); }
template<class H, class E, class N> static void enumCycle(Ctx &ctx, N name)
{
    vf::Multi m({{ctx.rng.range(1, 3), ctx.rng.range(1, 3)}});
    unsigned k = 1, F = unsigned(E::__FIRST), L = unsigned(E::__LAST), idle = ctx.rng.range(F, L - 1), cur = idle, mx = idle;
    H h(m.nodes[k].get(), "eh", "d", E(idle));
    TreeNode *at = h.getChild("stats");
    m.finalize(); Take take(at); m.sched.run(1, true, false);
    auto now = [&] { return m.sched.getElapsedTicks() / m.period[k]; };
    std::vector<uint64_t> w(L - F, 0);
    w[cur - F] += now();
    for (unsigned s = ctx.rng.range(3, 40); s--;) {
        unsigned v = ctx.rng.range(F, L - 1);
        if (ctx.rng.chance(2, 3)) { ctx.op("start", v); h.startCounting(E(v)); cur = v; mx = std::max(mx, v); }
        else { ctx.op("stop", cur); h.stopCounting(E(cur)); cur = idle; }
        uint64_t t = ctx.rng.range(1, m.period[k] + 8), c0 = now();
        ctx.op("run", t);
        m.sched.run(t, true, false);
        w[cur - F] += now() - c0;
        ctx.obs(cur, v); ctx.count("samples");
        double wsum = 0; uint64_t tot = now();
        for (unsigned i = F; i < L; ++i) {
            ST_EQ(at, "cycle_count" + name(E(i)), double(w[i - F]), "enumcyc-bin");
            if (s == 0) ST_EQ(at, "cycle_count" + name(E(i)) + "_probability", quot(w[i - F], tot), "enumcyc-prob");
            wsum += double(i) * w[i - F];
        }
        ST_EQ(at, "total", double(tot), "enumcyc-total");
        ST_EQ(at, "UF", 0.0, "enumcyc-uf"); ST_EQ(at, "OF", 0.0, "enumcyc-of");
        ST_EQ(at, "max_value", double(mx), "enumcyc-max");
        ST_EQ(at, "weighted_avg", wsum / tot, "enumcyc-average");
    }
}
VF_SECTION(enum_cycle_histogram, 120, 1000)
{
    Quiet q;
    switch (ctx.rng.below(3)) {
    case 0: enumCycle<EnumCycleHistogram<utils::Enum<E0>>, E0>(ctx, [](E0 e) { return nameOf(e); }); break;
    case 1: enumCycle<EnumCycleHistogram<utils::Enum<E1>>, E1>(ctx, [](E1 e) { return nameOf(e); }); break;
    default: enumCycle<EnumCycleHistogram<E2>, E2>(ctx, [](E2 e) { std::ostringstream o; o << e; return o.str(); });
    }
}
// ------------------------------------------------------------------------------ context counters
VF_SECTION(context_counter, 150, 1200)
{
    Quiet q;
    vf::Env env;
    StatisticSet ss(&env.rtn);
    unsigned n = ctx.rng.range(1, 8);
    bool latest = ctx.rng.chance(1, 3);
    ContextCounter<Counter> cc(&ss, "agg", "d", n, "thread", latest ? CounterBase::COUNT_LATEST : CounterBase::COUNT_NORMAL, InstrumentationNode::VIS_NORMAL);
    WeightedContextCounter<Counter> wc(&ss, "wagg", "d", n, CounterBase::COUNT_NORMAL, InstrumentationNode::VIS_NORMAL);
    std::vector<uint64_t> w(n, 0), ww(n, 0);
    std::vector<double> wt(n, 1.0);
    env.finalize();
    VF_EQ(ctx, cc.numContexts(), n, "context-count", "number of contexts");
    StatisticInstance si(&cc);
    VF_EQ(ctx, cc.getSubStatistics().size(), size_t(n), "context-subs", "sub-statistics");
    for (unsigned s = ctx.rng.range(1, 50); s--;) {
        unsigned i = ctx.rng.below(n); uint64_t v = ctx.rng.below(1000);
        switch (ctx.rng.below(4)) {
        case 0: ctx.op("inc", i); ++cc.context(i); ++w[i]; break;
        case 1: ctx.op("add", i, v); cc.context(i) += v; w[i] += v; break;
        case 2: ctx.op("wadd", i, v); wc.context(i) += v; ww[i] += v; break;
        default: {
            std::vector<double> nw; unsigned len = ctx.rng.pick(std::vector<unsigned>{0, 1, n, n + 1});
            for (unsigned j = 0; j < len; ++j) nw.push_back(ctx.rng.below(8) / 4.0);
            ctx.op("weights", len);
            if (len > 1 && len != n) VF_CHECK(ctx, (vf::throws<SpartaException>([&] { wc.assignContextWeights(nw); })), "context-weights", "weights of the wrong number were accepted");
            else { wc.assignContextWeights(nw); if (len == n && n > 1) wt = nw; else if (len == 1) wt.assign(n, nw[0]); }
        }
        }
        double sum = 0, wsum = 0;
        unsigned j = 0;
        for (auto &c : cc) { VF_EQ(ctx, c.get(), w[j], "context-value", "value of a context"); VF_CHECK(ctx, cc.getChild("thread" + std::to_string(j)) == &c, "context-node", "a context is not in the tree"); sum += w[j++]; }
        VF_EQ(ctx, j, n, "context-iterate", "contexts iterated");
        for (j = 0; j < n; ++j) { VF_EQ(ctx, wc.context(j).get(), ww[j], "context-value", "value of a weighted context"); wsum += ww[j] * wt[j]; }
        VF_CHECK(ctx, same(si.getRawLatest(), sum), "context-sum", "aggregate " << si.getRawLatest() << " expected " << sum);
        VF_CHECK(ctx, same(wc.calculateWeightedAverage(), wsum / n), "context-average", "weighted average " << wc.calculateWeightedAverage() << " expected " << wsum / n);
        ctx.obs(n, i); ctx.count("steps");
    }
    VF_CHECK(ctx, (vf::throws<SpartaException>([&] { cc.context(n); })), "context-range", "a context out of range was accepted");
}
