// C30: State objects with markers, thresholds, monitors and observers against a model; residence tracking against the
// ticks spent in each value; state timers against a cycle-by-cycle account of every timer.
#include "simenv.hpp"
#include "sparta/simulation/State.hpp"
#include "sparta/simulation/StateTracker.hpp"
#include "sparta/simulation/StateTimerUnit.hpp"
#include "sparta/events/PayloadEvent.hpp"
#include <fstream>
#include <map>
#include <set>
using namespace sparta;
namespace c30 {
enum Plain { PA, __FIRST = PA, PB, PC, PD, __LAST };
enum class Shown : uint64_t { A, __FIRST = A, B, C, D, E, __LAST };
std::ostream &operator<<(std::ostream &o, const Shown &s) { return o << "S" << static_cast<uint64_t>(s); }
enum class Wide : uint32_t { A, __FIRST = A, B, C, D, E, F, G, H, __LAST };
} // namespace c30
namespace {
template <class E> E en(unsigned i) { return static_cast<E>(i); }
template <> bool en<bool>(unsigned i) { return i != 0; }
template <class E> struct Num { static constexpr unsigned n = unsigned(E::__LAST); };
template <> struct Num<bool> { static constexpr unsigned n = 2; };
// Tracking is global: every case has a scheduler of its own and no pool when it starts and ends.
struct Global { Global(Scheduler *s) { tracker::StatePoolManager::getInstance().flushPool(); tracker::StatePoolManager::getInstance().setScheduler(s); } ~Global() { tracker::StatePoolManager::getInstance().flushPool(); } };
struct Meta { int id; };
template <class E, uint32_t MAXM> struct Run {
    using S = State<E, Meta, MAXM>; using VT = typename S::EnumTValueType; static constexpr unsigned N = Num<E>::n;
    struct Mon : S::Monitor { Run *r; unsigned id; bool act = false; std::vector<std::pair<unsigned, Meta *>> got; void signalSet(const VT &v, Meta *m) override { got.emplace_back(unsigned(v), m); if (act) { r->apply(unsigned(v)); r->s->setValue(v); } } };
    struct Val { std::vector<typename S::Marker *> real; std::vector<bool> mark; unsigned marks = 0, thresh = 0; bool set = false; std::vector<unsigned> aud; std::vector<Mon *> mons; };
    vf::Ctx &ctx; std::unique_ptr<S> s; unsigned cur, init; Val v[N]; std::vector<unsigned> fired, want; std::map<unsigned, ScheduleableHandle> hands; unsigned ids = 0; std::vector<std::unique_ptr<Mon>> mons; Meta meta[3] = {{0}, {1}, {2}};
    void fire(const uint32_t &id) { fired.push_back(id); }
    Run(vf::Ctx &c, unsigned i) : ctx(c), s(new S(en<E>(i))), cur(std::is_same<E, bool>::value ? 0 : i), init(cur) { if (std::is_same<E, bool>::value) v[0].set = true; }
    void apply(unsigned x) { cur = x; for (auto a : v[x].aud) want.push_back(a); v[x].aud.clear(); v[x].set = true; }
    void check(const char *when)
    {
        VF_EQ(ctx, unsigned(s->getValue()), cur, "state/value", "value " << when);
        if constexpr (!std::is_same<E, bool>::value) VF_CHECK(ctx, *s == en<E>(cur) && !(*s != en<E>(cur)), "state/compare", "comparison " << when);
        for (unsigned i = 0; i < N; ++i) {
            VF_EQ(ctx, s->numMarks(en<E>(i)), v[i].marks, "state/marks", "marks of " << i << " " << when); VF_EQ(ctx, s->numMarkers(en<E>(i)), v[i].mark.size(), "state/markers", "markers of " << i << " " << when);
            VF_EQ(ctx, s->complete(en<E>(i)), v[i].marks == v[i].mark.size(), "state/complete", "complete " << i << " " << when); VF_EQ(ctx, s->isSet(en<E>(i)), v[i].set, "state/set", "isSet of " << i << " " << when); VF_EQ(ctx, s->isClear(en<E>(i)), !v[i].set, "state/clear", "isClear of " << i);
            for (size_t k = 0; k < v[i].mark.size(); ++k) { VF_EQ(ctx, v[i].real[k]->isMarked(), bool(v[i].mark[k]), "state/marked", "marker " << k << " of " << i << " " << when); VF_EQ(ctx, unsigned(v[i].real[k]->getMarkerValue()), i, "state/marker-value", "value of marker"); }
        }
    }
    void go(vf::Rng &r, vf::Env &env, PayloadEvent<uint32_t> &ev)
    {
        check("at first");
        for (unsigned step = 0; step < 90; ++step) {
            unsigned k = unsigned(r.below(24)), x = unsigned(r.below(N)); Val &m = v[x];
            if (k < 3) {
                ctx.op("marker", x); if (m.mark.size() == MAXM) { VF_CHECK(ctx, vf::throws<std::exception>([&] { s->newMarker(en<E>(x)); }), "state/too-many", "more markers than allowed"); ctx.count("marker limits"); }
                else { m.real.push_back(s->newMarker(en<E>(x))); m.mark.push_back(false); }
            } else if (k < 9) {
                if (m.mark.empty()) continue; unsigned i = unsigned(r.below(m.mark.size())), p = unsigned(r.below(4)); Meta *mp = p < 3 ? &meta[p] : nullptr; ctx.op("mark", x, i, p);
                for (auto &mo : mons) mo->got.clear(); std::vector<Mon *> sig;
                if (!m.mark[i]) { ++m.marks; if (!m.mons.empty()) { sig = m.mons; ctx.count("monitored marks"); } else if (m.mark.size() - m.marks <= m.thresh) { apply(x); ctx.count("joint transitions"); } }
                m.real[i]->set(mp); m.mark[i] = true;
                for (auto &mo : mons) { size_t n = std::count(sig.begin(), sig.end(), mo.get()); VF_EQ(ctx, mo->got.size(), n, "state/monitor", "signals of monitor " << mo->id); for (auto &g : mo->got) VF_CHECK(ctx, g.first == x && g.second == mp, "state/monitor", "value or data signalled"); }
            } else if (k < 11) { if (m.mark.empty()) continue; unsigned i = unsigned(r.below(m.mark.size())); ctx.op("unmark", x, i); if (m.mark[i]) { --m.marks; m.mark[i] = false; } m.real[i]->clear(); }
            else if (k < 13) { ctx.op("set", x); apply(x); if (r.chance(1, 2)) s->setValue(en<E>(x)); else *s = en<E>(x); ctx.count("values set"); }
            else if (k < 17) { unsigned id = ids++; hands[id] = ev.preparePayload(id); ctx.op("observe", x, id); s->observe(en<E>(x), hands[id]); m.aud.push_back(id); }
            else if (k == 17) { if (hands.empty()) continue; unsigned id; if (!m.aud.empty() && r.chance(3, 4)) id = r.pick(m.aud); else { auto it = hands.begin(); std::advance(it, r.below(hands.size())); id = it->first; } ctx.op("withdraw", x, id); s->withdraw(en<E>(x), hands[id]); auto it = std::find(m.aud.begin(), m.aud.end(), id); if (it != m.aud.end()) m.aud.erase(it); }
            else if (k == 18 && r.chance(1, 2)) { ctx.op("release", x); for (auto id : m.aud) want.erase(std::remove(want.begin(), want.end(), id), want.end()); m.aud.clear(); s->release(en<E>(x)); ctx.count("audiences released"); }
            else if (k == 19) { unsigned t = unsigned(r.below(4)); ctx.op("threshold", x, t); m.thresh = t; s->setMarkedThreshold(en<E>(x), t); }
            else if (k == 20) {
                if (!m.mons.empty() && r.chance(2, 3)) { Mon *mo = r.pick(m.mons); ctx.op("detach", x, mo->id); s->detachMonitor(en<E>(x), mo); m.mons.erase(std::find(m.mons.begin(), m.mons.end(), mo)); }
                else if (m.mons.size() < 3) { if (mons.size() < 3) { mons.emplace_back(new Mon); mons.back()->r = this; mons.back()->id = unsigned(mons.size() - 1); mons.back()->act = r.chance(1, 2); } Mon *mo = mons[r.below(mons.size())].get(); ctx.op("attach", x, mo->id, mo->act); s->attachMonitor(en<E>(x), mo); m.mons.push_back(mo); }
            } else if (k == 21) {
                bool to = r.chance(1, 2); ctx.op("reset", to ? int(x) : -1); cur = to ? x : init; for (auto &y : v) { y.marks = 0; y.set = false; y.mark.assign(y.mark.size(), false); }
                if (to) s->reset(en<E>(x)); else { s->reset(); if (std::is_same<E, bool>::value) apply(0); } ctx.count("resets");
            } else {
                unsigned n = unsigned(r.range(1, 3)); ctx.op("run", n); env.sched.run(n, true, false);
                std::sort(fired.begin(), fired.end()); std::sort(want.begin(), want.end()); VF_EQ(ctx, fired.size(), want.size(), "state/observers", "observers fired"); VF_CHECK(ctx, fired == want, "state/observers", "other observers fired than expected"); ctx.count("observers fired", fired.size()); fired.clear(); want.clear();
            }
            check("after"); ctx.obs(cur, m.marks);
        }
        env.sched.run(2, true, false); std::sort(fired.begin(), fired.end()); std::sort(want.begin(), want.end()); VF_CHECK(ctx, fired == want, "state/observers", "other observers fired than expected at the end");
        { S copy(*s); VF_EQ(ctx, unsigned(copy.getValue()), cur, "state/copy", "value of a copy"); for (unsigned i = 0; i < N; ++i) { VF_EQ(ctx, copy.numMarks(en<E>(i)), v[i].marks, "state/copy", "marks of a copy"); VF_EQ(ctx, copy.isSet(en<E>(i)), v[i].set, "state/copy", "isSet of a copy"); } copy.setValue(en<E>(N - 1)); }
        check("after a copy"); hands.clear(); s.reset(); // handles go before their event
    }
};
template <class E, uint32_t M> void states(vf::Ctx &ctx)
{
    Quiet q; vf::Env env; Global g(&env.sched); auto &r = ctx.rng; Run<E, M> run(ctx, unsigned(r.below(Num<E>::n)));
    PayloadEvent<uint32_t> ev(&env.es, "observer", SpartaHandler::from_member_1<Run<E, M>, uint32_t, &Run<E, M>::fire>(&run, "fire")); struct Clean { Run<E, M> &x; ~Clean() { x.hands.clear(); x.s.reset(); } } clean{run}; env.finalize(); env.sched.run(1, true, false); run.go(r, env, ev);
}
VF_SECTION(state, 400, 8000)
{
    switch (ctx.rng.below(4)) { case 0: ctx.op("plain"); states<c30::Plain, 15>(ctx); break; case 1: ctx.op("shown"); states<c30::Shown, 3>(ctx); break; case 2: ctx.op("wide"); states<c30::Wide, 15>(ctx); break; default: ctx.op("bool"); states<bool, 4>(ctx); }
}
// Residence: every state created, how long it was in each value, and the totals written when the pools are flushed.
struct Any { virtual ~Any() {} virtual void set(unsigned) = 0; virtual void joint(unsigned) = 0; virtual void reset(int) = 0; virtual Any *copy() = 0; virtual uint64_t inState() = 0; virtual std::vector<uint64_t> raw() = 0; bool through = false; unsigned cur = 0, init = 0, n = 0, type = 0; uint64_t since = 0; std::vector<uint64_t> spent, base; };
template <class E> struct Holder : Any {
    using S = State<E>; S s; Holder(unsigned i) : s(en<E>(i)) { n = Num<E>::n; cur = init = std::is_same<E, bool>::value ? 0 : i; through = cur != i; } Holder(const Holder &o) : s(o.s) { n = o.n; cur = o.cur; init = o.init; through = o.through; }
    void set(unsigned i) override { s.setValue(en<E>(i)); } void joint(unsigned i) override { s.setMarkedThreshold(en<E>(i), 99); s.newMarker(en<E>(i))->set(); } void reset(int i) override { if (i < 0) s.reset(); else s.reset(en<E>(unsigned(i))); } Any *copy() override { return new Holder(*this); } uint64_t inState() override { return s.getTimeInState(); } std::vector<uint64_t> raw() override { return s.getRawAccumulatedTime(); }
};
VF_SECTION(tracking, 300, 6000)
{
    Quiet q; auto &r = ctx.rng; auto &mgr = tracker::StatePoolManager::getInstance(); vf::Env env; env.finalize(); env.sched.run(1, true, false); std::string file = ctx.scratch + "/residency"; mgr.flushPool(); mgr.setScheduler(&env.sched); mgr.setTrackingFilename(file);
    static const char *names[] = {"c30::Plain", "c30::Shown", "c30::Wide", "sparta::BoolEnum::BoolValue"}; static const unsigned ns[] = {4, 5, 8, 2};
    std::vector<std::unique_ptr<Any>> live; struct Tot { uint64_t n = 0; std::vector<uint64_t> t; } tot[4]; for (unsigned i = 0; i < 4; ++i) tot[i].t.assign(ns[i], 0); std::vector<bool> full;
    auto now = [&] { return env.sched.getCurrentTick(); };
    auto born = [&](Any *a, unsigned t) { a->type = t; a->since = now(); a->spent.assign(a->n, 0); a->base = a->raw(); VF_EQ(ctx, a->base.size(), a->n + 1, "tracking/size", "values tracked"); live.emplace_back(a); ++tot[t].n; };
    auto change = [&](Any &a, unsigned x) { if (a.cur != x) { a.spent[a.cur] += now() - a.since; a.since = now(); a.cur = x; } };
    auto check = [&](Any &a) { VF_EQ(ctx, a.inState(), now() - a.since, "tracking/in-state", "time in the value"); auto w = a.raw(); for (unsigned i = 0; i < a.n; ++i) VF_EQ(ctx, w[i] - a.base[i], a.spent[i], "tracking/spent", "time accounted for value " << i << " of " << names[a.type]); };
    auto die = [&](size_t i) { Any &a = *live[i]; a.spent[a.cur] += now() - a.since; for (unsigned k = 0; k < a.n; ++k) tot[a.type].t[k] += a.spent[k]; live.erase(live.begin() + long(i)); };
    for (unsigned step = 0; step < 80; ++step) {
        unsigned k = unsigned(r.below(20));
        if (live.empty() || (k < 3 && live.size() < 12)) { unsigned t = unsigned(r.below(4)), i = unsigned(r.below(ns[t])); ctx.op("new", names[t], i); Any *a = t == 0 ? (Any *)new Holder<c30::Plain>(i) : t == 1 ? (Any *)new Holder<c30::Shown>(i) : t == 2 ? (Any *)new Holder<c30::Wide>(i) : (Any *)new Holder<bool>(i); born(a, t); ctx.count("states"); continue; }
        size_t j = r.below(live.size()); Any &a = *live[j]; unsigned x = unsigned(r.below(a.n));
        if (k == 3) { ctx.op("destroy", j); die(j); ctx.count("destroyed"); continue; }
        else if (k == 4) { ctx.op("copy", j); unsigned t = a.type; Any *c = a.copy(); born(c, t); ctx.count("copies"); check(*live.back()); }
        else if (k < 9) { ctx.op("set", j, x); a.set(x); change(a, x); ctx.count("transitions"); }
        else if (k < 11) { ctx.op("joint", j, x); try { a.joint(x); change(a, x); ctx.count("joint transitions"); } catch (const std::exception &) { ctx.count("no more markers"); } }
        else if (k == 11) { int to = r.chance(1, 2) ? int(x) : -1; ctx.op("reset", j, to); a.reset(to); if (to < 0 && a.through) change(a, 1); /* a bool is first reset to true, then to false */ change(a, to < 0 ? a.init : x); ctx.count("resets"); }
        else { unsigned n = unsigned(r.range(1, 20)); ctx.op("run", n); env.sched.run(n, true, false); }
        for (auto &l : live) check(*l); ctx.obs(now(), live.size());
    }
    while (!live.empty()) die(live.size() - 1); mgr.flushPool();
    // the file: one block per type
    std::ifstream in(file); std::string line; std::map<std::string, std::vector<std::string>> blocks; std::string name; while (std::getline(in, line)) { if (line.compare(0, 18, "Enum Class Name : ") == 0) { name = line.substr(18); VF_CHECK(ctx, blocks[name].empty(), "tracking/file", "two blocks for " << name); } blocks[name].push_back(line); }
    unsigned types = 0;
    for (unsigned t = 0; t < 4; ++t) {
        if (!tot[t].n) { VF_CHECK(ctx, !blocks.count(names[t]), "tracking/file", "block of a type not used"); continue; }
        ++types; VF_CHECK(ctx, blocks.count(names[t]), "tracking/file", "no block for " << names[t]); auto &b = blocks[names[t]]; VF_CHECK(ctx, b.size() >= 2 * ns[t] + 6, "tracking/file", "lines of block " << names[t]); VF_EQ(ctx, b[1], "Total State Tracker Units used : " + std::to_string(tot[t].n), "tracking/units", "units of " << names[t]);
        for (unsigned i = 0; i < ns[t]; ++i) {
            std::string lab = t == 0 ? std::to_string(i) : t == 1 ? "S" + std::to_string(i) : ""; VF_EQ(ctx, b[3 + i], lab + " : " + std::to_string(tot[t].t[i]), "tracking/total", "total of value " << i << " of " << names[t]);
            std::ostringstream o; o << lab << " : " << double(tot[t].t[i]) / double(tot[t].n); VF_EQ(ctx, b[3 + ns[t] + 3 + i], o.str(), "tracking/average", "average of value " << i << " of " << names[t]);
        }
        ctx.count("totals checked");
    }
    VF_EQ(ctx, blocks.size(), types, "tracking/file", "blocks");
}
// State timers: each handle accounts two sets of states.
VF_SECTION(timers, 300, 6000)
{
    Quiet q; auto &r = ctx.rng; Scheduler sched; ClockManager cm(&sched); Clock::Handle root = cm.makeRoot(), clk = cm.makeClock("c", root, 1, unsigned(r.range(1, 3))); cm.normalize(); RootTreeNode rtn("top"); rtn.setClock(clk.get());
    Global g(&sched); uint32_t per = uint32_t(clk->getPeriod()), width = 1u << r.below(3), upper = width * uint32_t(r.range(1, 12)) - (width > 1 ? 1 : 0), initial = uint32_t(r.range(1, 4)); if (upper == 0) upper = 1; ctx.op("period", per, "width", width, "upper", upper, "timers", initial);
    std::unique_ptr<StateTimerUnit> unit(new StateTimerUnit(&rtn, "tmr", "tmr", initial, 0, upper, width, c30::Shown::__LAST, c30::Wide::__LAST)); rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
    std::vector<Histogram *> hist[2]; { std::map<std::string, Histogram *> by; for (auto c : static_cast<TreeNode *>(unit.get())->getChildren()) if (auto h = dynamic_cast<Histogram *>(c)) by[h->getName()] = h; const char *tn[] = {typeid(c30::Shown).name(), typeid(c30::Wide).name()}; unsigned n[] = {5, 8}; for (unsigned s = 0; s < 2; ++s) for (unsigned i = 0; i < n[s]; ++i) { std::string nm = std::string("tmr_histogram_set_") + tn[s] + "_state_" + std::to_string(i); VF_CHECK(ctx, by.count(nm), "timers/histogram", "no histogram " << nm); hist[s].push_back(by[nm]); } }
    struct Timer { StateTimerUnit::StateTimer::Handle h; int act[2] = {-1, -1}; uint64_t from[2] = {0, 0}, acc[2][8] = {}; uint64_t sampled = ~0ull; }; std::vector<Timer> t; const unsigned n[] = {5, 8};
    std::map<uint64_t, uint64_t> smp[2][8]; bool queried = false; auto now = [&] { return clk->currentCycle(); };
    auto end = [&](Timer &x, unsigned s) { if (x.act[s] >= 0) { x.acc[s][x.act[s]] += now() - x.from[s]; x.from[s] = now(); } };
    auto sample = [&](Timer &x) { for (unsigned s = 0; s < 2; ++s) { end(x, s); for (unsigned i = 0; i < n[s]; ++i) { ++smp[s][i][x.acc[s][i]]; x.acc[s][i] = 0; } } };
    auto compare = [&](const char *when) {
        for (unsigned s = 0; s < 2; ++s) for (unsigned i = 0; i < n[s]; ++i) {
            std::vector<uint64_t> bins(hist[s][i]->getNumBins(), 0); uint64_t of = 0, sum = 0, cnt = 0; for (auto &p : smp[s][i]) { sum += p.first * p.second; cnt += p.second; if (p.first > upper) of += p.second; else bins[p.first / width] += p.second; }
            auto &h = *hist[s][i]; VF_EQ(ctx, h.getOverflowBin().get(), of, "timers/overflow", "overflow of state " << i << " of set " << s << " " << when); VF_EQ(ctx, h.getUnderflowBin().get(), 0u, "timers/underflow", "underflow " << when); VF_EQ(ctx, static_cast<TreeNode &>(h).getChildAs<StatisticSet>("stats")->getCounter("sum")->get(), sum, "timers/sum", "cycles in state " << i << " of set " << s << " " << when);
            uint64_t rest = 0; for (size_t b = 0; b < bins.size(); ++b) { if (b == 0 && queried) { rest = 1; continue; } VF_EQ(ctx, h.getRegularBin()[b].get(), bins[b], "timers/bins", "bin " << b << " of state " << i << " of set " << s << " " << when); } if (!rest) VF_EQ(ctx, h.getAggValues().get(), cnt, "timers/samples", "samples of state " << i << " of set " << s << " " << when);
        }
        ctx.count("histograms compared");
    };
    for (unsigned step = 0; step < 100; ++step) {
        unsigned k = unsigned(r.below(24));
        if (k < 4 && t.size() < 9) { ctx.op("allocate"); t.emplace_back(); t.back().h = unit->allocateStateTimer(); for (size_t i = 0; i + 1 < t.size(); ++i) VF_CHECK(ctx, t[i].h.get() != t.back().h.get(), "timers/distinct", "a timer in use was handed out again"); ctx.count("allocated"); }
        else if (k < 6 && !t.empty()) { size_t j = r.below(t.size()); ctx.op("release", j); sample(t[j]); t.erase(t.begin() + long(j)); compare("after a release"); ctx.count("released"); }
        else if (k < 14 && !t.empty()) {
            size_t j = r.below(t.size()); unsigned s = unsigned(r.below(2)), x = unsigned(r.below(n[s] + (r.chance(1, 12) ? 3 : 0))); ctx.op("start", j, s, x); Timer &m = t[j]; bool bad = x >= n[s] || m.act[s] == int(x);
            bool thrown = vf::throws<std::exception>([&] { if (s) { if (r.chance(1, 2)) m.h->startState(c30::Wide(x)); else *m.h = c30::Wide(x); } else m.h->startState(c30::Shown(x)); }); VF_EQ(ctx, thrown, bad, "timers/start", "start of state " << x << " refused");
            if (!bad) { end(m, s); m.act[s] = int(x); m.from[s] = now(); ctx.count("starts"); } else ctx.count("starts refused");
        } else if (k < 17 && !t.empty()) {
            size_t j = r.below(t.size()); unsigned s = unsigned(r.below(2)); Timer &m = t[j]; unsigned x = m.act[s] >= 0 && r.chance(4, 5) ? unsigned(m.act[s]) : unsigned(r.below(n[s])); bool bad = m.act[s] != int(x); ctx.op("end", j, s, x);
            bool thrown = vf::throws<std::exception>([&] { if (s) m.h->endState(c30::Wide(x)); else m.h->endState(c30::Shown(x)); }); VF_EQ(ctx, thrown, bad, "timers/end", "end of state " << x << " refused"); if (!bad) { end(m, s); m.act[s] = -1; ctx.count("ends"); }
        } else if (k == 17 && r.chance(1, 2)) { ctx.op("other set"); if (!t.empty()) VF_CHECK(ctx, vf::throws<std::exception>([&] { t[0].h->startState(c30::PB); }), "timers/other-set", "a state of no set was accepted"); }
        else if (k == 18) { ctx.op("query"); queried = true; if (r.chance(1, 2)) unit->dynamicQuery(); else unit->dynamicQuery(c30::Shown::B); for (auto &m : t) sample(m); compare("after a query"); ctx.count("queries"); }
        else { uint64_t c = uint64_t(r.range(1, 2 * per)) * (r.chance(1, 8) ? 7 : 1); ctx.op("run", c); sched.run(c, true, false); }
        ctx.obs(now(), t.size());
    }
    if (r.chance(1, 2)) { ctx.op("teardown of all"); for (auto &m : t) sample(m); t.clear(); compare("at the end"); }
    rtn.enterTeardown(); unit.reset(); t.clear();
}
} // namespace
