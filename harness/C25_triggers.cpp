// C25: triggers. Scripted workloads advance clocks and counters; a model of each trigger knows the tick at which its
// condition first holds, and every callback (and every missing one) is compared with it.
#include "simenv.hpp"
#include "sparta/trigger/Trigger.hpp"
#include "sparta/trigger/SingleTrigger.hpp"
#include "sparta/trigger/TriggerManager.hpp"
#include "sparta/trigger/ExpressionTrigger.hpp"
#include "sparta/trigger/ContextCounterTrigger.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/statistics/StatisticDef.hpp"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/ContextCounter.hpp"
#include "sparta/report/SubContainer.hpp"
#include "sparta/log/NotificationSource.hpp"
#include <array>
#include <map>
#include <set>
using namespace sparta;
namespace {
std::vector<std::pair<uint32_t, uint32_t>> ratios(vf::Rng &r)
{
    std::vector<std::pair<uint32_t, uint32_t>> v;
    for (unsigned i = 0, n = unsigned(r.below(3)); i < n; ++i) v.push_back(r.pick(std::vector<std::pair<uint32_t, uint32_t>>{{1, 1}, {1, 2}, {2, 1}, {3, 2}, {2, 3}, {4, 1}, {5, 3}}));
    return v;
}
// Clocks, counters and one Tick event per clock and cycle; the script of increments is fixed up front.
struct World {
    vf::Ctx &ctx; vf::Multi m;
    std::vector<std::unique_ptr<StatisticSet>> sets; std::vector<std::unique_ptr<Counter>> ctrs; std::vector<unsigned> cclk;
    std::vector<uint64_t> val, born; // model value of each counter
    std::vector<std::unique_ptr<vf::Fn>> fns; std::vector<std::unique_ptr<Event<SchedulingPhase::Tick>>> evs;
    std::vector<uint64_t> nextTick; std::function<void(unsigned)> onCycle; uint64_t seed; bool running = false;
    World(vf::Ctx &c, const std::vector<std::pair<uint32_t, uint32_t>> &r) : ctx(c), m(r), seed(c.rng.next())
    {
        for (size_t k = 0; k < m.clks.size(); ++k) {
            sets.emplace_back(new StatisticSet(m.nodes[k].get()));
            for (unsigned i = 0, n = unsigned(c.rng.range(1, 2)); i < n; ++i) {
                ctrs.emplace_back(new Counter(sets.back().get(), "ctr_" + std::to_string(i) + "x", "a counter", CounterBase::COUNT_NORMAL)); cclk.push_back(unsigned(k)); val.push_back(0);
            }
            fns.emplace_back(new vf::Fn); fns.back()->f = [this, k] { tick(unsigned(k)); };
            evs.emplace_back(new Event<SchedulingPhase::Tick>(m.sets[k].get(), "tick", fns.back()->h(), 0)); nextTick.push_back(0);
        }
    }
    uint64_t now() const { return m.now(); }
    // The increment of counter i at clock cycle cyc: a pure function, so it does not depend on any trigger.
    uint64_t inc(size_t i, uint64_t cyc) const { uint64_t h = (seed ^ (i * 0x9e3779b97f4a7c15ull)) + cyc * 0xd1342543de82ef95ull; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; unsigned k = unsigned(h % 8); return k < 3 ? 0 : k < 6 ? 1 : k == 6 ? 2 + (h >> 40) % 5 : 10; }
    void tick(unsigned k)
    {
        VF_EQ(ctx, now(), nextTick[k], "workload/tick", "the workload of a clock ran at another tick");
        nextTick[k] += m.period[k];
        for (size_t i = 0; i < ctrs.size(); ++i) if (cclk[i] == k) { uint64_t d = inc(i, m.clks[k]->currentCycle()); VF_EQ(ctx, ctrs[i]->get(), val[i], "workload/counter", "a counter changed between cycles"); if (d) { *ctrs[i] += unsigned(d); val[i] += d; } }
        if (onCycle) onCycle(k);
        evs[k]->schedule(1);
    }
    void start() { for (auto &e : evs) e->schedule(Clock::Cycle(0)); running = true; }
    void run(uint64_t n) { m.sched.run(n, true, false); }
};
enum Kind { CYCLE, TIME, COUNTER };
// One arming-capable trigger of the model.
struct T {
    Kind kind; unsigned id, clk = 0, ctr = 0; std::unique_ptr<trigger::SingleTrigger> t; std::unique_ptr<vf::Fn> fn; T *cbOf = nullptr; // whose callback runs
    bool active = false, abs = false, align = false; uint64_t target = 0; // cycle, delay, picoseconds or counter value
    uint64_t lo = 0, hi = 0; bool window = false; // fires in [lo, hi]; for counters once the condition held
    uint64_t armed = 0; bool armedPre = false; unsigned fires = 0; bool inTrig = false;
};
struct Single {
    vf::Ctx &ctx; World w; std::vector<std::unique_ptr<T>> ts; unsigned next = 0; bool inTrig = false; unsigned depth = 0; std::set<unsigned> busy; bool started = false, pre = true, fin = false;
    explicit Single(vf::Ctx &c) : ctx(c), w(c, ratios(c.rng)) {}
    vf::Rng &r() { return ctx.rng; }
    uint64_t period(const T &t) { return w.m.period[t.clk]; }
    // The trigger has just been armed.
    void arm(T &t)
    {
        t.active = true; t.armed = w.now(); t.armedPre = pre; t.inTrig = inTrig; t.window = false;
        uint64_t p = period(t), n = w.now();
        if (t.kind == CYCLE) {
            uint64_t cur = n / p;
            if (t.abs) { t.lo = t.target * p; t.hi = n % p ? t.lo + p - 1 : t.lo; }
            else { uint64_t d = t.align ? t.target - cur % t.target : t.target; t.lo = t.hi = n + d * p; }
            t.window = true;
        } else if (t.kind == TIME) { t.lo = t.hi = n + t.target; t.window = true; }
        else hold(t);
        ctx.obs(t.id, t.lo);
    }
    // A counter trigger fires at a check after the condition came to hold, at most one cycle later.
    void hold(T &t)
    {
        if (t.kind != COUNTER || !t.active || t.window || w.val[t.ctr] < t.target) return;
        uint64_t n = w.now(); t.window = true; t.lo = t.inTrig && t.armed == n ? n : n + 1; if (t.armedPre && !started) t.lo = n; t.hi = n + period(t);
    }
    void disarm(T &t) { t.active = false; t.window = false; }
    void onFire(T *owner)
    {
        // several triggers share a callback after a copy: one of those due now
        T *hit = nullptr; std::string who;
        for (auto &t : ts) if (t->cbOf == owner && !busy.count(t->id)) { who += " #" + std::to_string(t->id) + (t->active ? "+" : "-") + std::to_string(t->lo) + ".." + std::to_string(t->window ? t->hi : 0); if (t->active && t->t && !t->t->isActive() && t->window && t->lo <= w.now() && w.now() <= t->hi) { hit = t.get(); break; } }
        VF_CHECK(ctx, hit, "fire/unexpected", "a trigger of kind " << owner->kind << " fired at tick " << w.now() << " when none that calls back here was due:" << who);
        ++hit->fires; ctx.count("fired"); ctx.count(hit->kind == CYCLE ? "fired.cycle" : hit->kind == TIME ? "fired.time" : "fired.counter");
        for (size_t k = 0; k < w.nextTick.size(); ++k) VF_CHECK(ctx, w.nextTick[k] >= w.now() && !(w.now() % w.m.period[k] == 0 && w.nextTick[k] > w.now()), "fire/phase", "a trigger fired after work of phase Tick at tick " << w.now());
        disarm(*hit); ctx.obs(hit->id, w.now());
        busy.insert(hit->id); bool was = inTrig; inTrig = true;
        if (r().chance(1, 3)) { ctx.op("in callback", hit->id); act(); }
        if (r().chance(1, 3) && hit->t && !(hit->kind == CYCLE && hit->abs)) { ctx.op("re-arm", hit->id); hit->t->set(); arm(*hit); }
        inTrig = was; busy.erase(hit->id);
    }
    T *pick(bool notBusy = true)
    {
        std::vector<T *> v; for (auto &t : ts) if (t->t && !(notBusy && busy.count(t->id))) v.push_back(t.get());
        return v.empty() ? nullptr : r().pick(v);
    }
    T &fresh(Kind k)
    {
        ts.emplace_back(new T); T &t = *ts.back(); t.kind = k; t.id = next++; t.fn.reset(new vf::Fn); T *tp = &t; t.fn->f = [this, tp] { onFire(tp); }; t.cbOf = tp; return t;
    }
    void create()
    {
        unsigned live = 0; for (auto &t : ts) live += bool(t->t); if (live > 10) return;
        T &t = fresh(Kind(r().below(3))); std::string nm = "trig" + std::to_string(t.id);
        if (t.kind == CYCLE) {
            t.clk = unsigned(r().below(w.m.clks.size())); auto *clk = w.m.clks[t.clk].get(); auto *ct = new trigger::CycleTrigger(nm, t.fn->h(), clk); t.t.reset(ct);
            t.abs = r().chance(1, 2); uint64_t cur = w.now() / period(t); t.target = t.abs ? cur + r().range(1, 20) : r().range(1, 12);
            if (!t.abs && r().chance(1, 2)) { t.align = true; ct->alignRelative(true); }
            bool prep = r().chance(1, 2); ctx.op("cycle", t.id, "clk", t.clk, t.abs ? "abs" : "rel", t.target, t.align ? "aligned" : "", prep ? "prep" : "set");
            if (prep) { if (t.abs) ct->prepAbsolute(clk, t.target); else ct->prepRelative(clk, t.target); VF_CHECK(ctx, !ct->isActive(), "active", "a prepared trigger is active"); if (!r().chance(3, 4)) return; ct->set(); }
            else if (t.abs) ct->setAbsolute(clk, t.target); else ct->setRelative(clk, t.target);
            arm(t);
        } else if (t.kind == TIME) {
            t.clk = unsigned(r().below(w.m.clks.size())); t.target = r().range(1, 40); ctx.op("time", t.id, t.target);
            t.t.reset(new trigger::TimeTrigger(nm, t.fn->h(), t.target, w.m.clks[t.clk].get())); arm(t);
        } else {
            t.ctr = unsigned(r().below(w.ctrs.size())); t.clk = w.cclk[t.ctr]; t.target = r().chance(1, 6) ? r().below(w.val[t.ctr] + 1) : w.val[t.ctr] + r().range(1, 30); ctx.op("counter", t.id, "ctr", t.ctr, "at", t.target);
            t.t.reset(new trigger::CounterTrigger(nm, t.fn->h(), w.ctrs[t.ctr].get(), t.target)); arm(t);
        }
    }
    void act()
    {
        T *t;
        switch (r().below(9)) {
        case 0: case 1: create(); break;
        case 2: if ((t = pick())) { ctx.op("deactivate", t->id); t->t->deactivate(); disarm(*t); ctx.count("deactivated"); VF_CHECK(ctx, !t->t->isActive(), "active", "a deactivated trigger is active"); } break;
        case 3: if (fin && (t = pick())) { ctx.op("destroy", t->id); t->t.reset(); disarm(*t); ctx.count("destroyed"); } break;
        case 4: if ((t = pick()) && !t->active && !(t->kind == CYCLE && t->abs && t->target <= w.now() / period(*t))) { ctx.op("set", t->id); t->t->set(); arm(*t); ctx.count("re-armed"); } break;
        case 5: if ((t = pick()) && t->kind == COUNTER) { t->target = w.val[t->ctr] + r().below(25); ctx.op("resetAbsolute", t->id, t->target); static_cast<trigger::CounterTrigger *>(t->t.get())->resetAbsolute(t->target); arm(*t); ctx.count("re-targeted"); } break;
        case 6: if ((t = pick()) && t->kind == COUNTER && ts.size() < 40) {
                T &n = fresh(COUNTER); n.cbOf = t->cbOf; n.ctr = t->ctr; n.clk = t->clk; n.target = t->target; ctx.op("copy", t->id, "to", n.id);
                n.t.reset(new trigger::CounterTrigger(*static_cast<trigger::CounterTrigger *>(t->t.get()))); if (t->active) arm(n); ctx.count("copied");
            } break;
        case 7: if ((t = pick()) && t->kind == COUNTER) { T *d = pick(); if (!d || d == t || d->kind != COUNTER) break;
                ctx.op("assign", t->id, "to", d->id); *static_cast<trigger::CounterTrigger *>(d->t.get()) = *static_cast<trigger::CounterTrigger *>(t->t.get());
                d->cbOf = t->cbOf; d->ctr = t->ctr; d->clk = t->clk; d->target = t->target; d->fires = t->fires; disarm(*d); if (t->active) arm(*d); ctx.count("assigned"); }
            break;
        case 8: if ((t = pick()) && t->kind == CYCLE && !t->active) {
                auto *clk = w.m.clks[t->clk].get(); t->abs = r().chance(1, 2); t->target = t->abs ? w.now() / period(*t) + r().range(1, 20) : r().range(1, 12); bool al = r().chance(1, 2);
                ctx.op("set anew", t->id, t->abs ? "abs" : "rel", t->target, al); t->t->alignRelative(al); t->align = al;
                if (t->abs) t->t->setAbsolute(clk, t->target); else t->t->setRelative(clk, t->target);
                arm(*t); ctx.count("set anew");
            }
            break;
        }
    }
    void check()
    {
        for (auto &t : ts) {
            if (!t->t) continue;
            if (!pre) VF_EQ(ctx, t->t->isActive(), t->active, "active", "isActive() of trigger #" << t->id << " of kind " << t->kind << " at tick " << w.now());
            VF_CHECK(ctx, !(t->active && t->window && t->hi < w.now()), "fire/missed", "trigger #" << t->id << " of kind " << t->kind << " was due at ticks " << t->lo << ".." << t->hi << " and has not fired by " << w.now());
            if (t->cbOf == t.get()) VF_CHECK(ctx, !t->fires || t->t->hasFired(), "hasFired", "trigger #" << t->id << " fired but hasFired() is false");
            ctx.count("checked");
        }
    }
};
VF_SECTION(single, 300, 6000)
{
    Quiet q; Single s(ctx); auto &w = s.w;
    for (unsigned i = 0, n = unsigned(ctx.rng.below(6)); i < n; ++i) s.create();
    if (ctx.rng.chance(1, 3)) for (unsigned i = 0; i < 3; ++i) s.act();
    w.m.finalize(); s.fin = true; w.start();
    if (ctx.rng.chance(1, 3)) for (unsigned i = 0; i < 3; ++i) s.act();
    unsigned left = 30;
    w.onCycle = [&](unsigned) {
        s.started = true; s.pre = false;
        for (auto &t : s.ts) s.hold(*t);
        if (left && ctx.rng.chance(1, 4)) { --left; s.act(); }
        s.check();
    };
    for (unsigned i = 0; i < 6; ++i) { w.run(ctx.rng.range(1, 60)); }
    w.onCycle = [&](unsigned) { for (auto &t : s.ts) s.hold(*t); s.check(); };
    w.run(400);
    for (auto &t : s.ts) if (t->t && t->active) VF_CHECK(ctx, t->kind == COUNTER || t->hi >= w.now(), "fire/missed", "trigger #" << t->id << " never fired");
    s.ts.clear();
}

// A Trigger with start, stop and period, and what it does to its Triggerable objects.
struct Obs : public trigger::Triggerable {
    std::function<void(char)> f;
    void go() override { f('g'); }
    void stop() override { f('s'); }
    void repeat() override { f('r'); }
};
VF_SECTION(window, 300, 6000)
{
    Quiet q; auto &r = ctx.rng; World w(ctx, ratios(r));
    struct W { std::unique_ptr<trigger::Trigger> t; std::vector<std::unique_ptr<Obs>> obs; bool notif = false, hasStart = false, byCtr = false, hasStop = false, stopRel = false, rep = false, align = false, dead = false, forced = false; unsigned id = 0, sclk = 0, ctr = 0, eclk = 0, rclk = 0; uint64_t start = 0, stop = 0, period = 0;
        // model state
        bool started = false, stopped = false, window = false; uint64_t lo = 0, hi = 0, stopAt = ~0ull, nextRep = ~0ull; unsigned inGroup = 0; char cur = 0; };
    std::vector<std::unique_ptr<W>> ws; NotificationSource<uint64_t> src(&w.m.rtn, roi::NOTIFICATION_SRC_NAME, "roi", roi::NOTIFICATION_SRC_NAME); char posting = 0;
    auto P = [&](unsigned k) { return w.m.period[k]; };
    auto hold = [&](W &x) { if (x.byCtr && !x.window && w.val[x.ctr] >= x.start) { x.window = true; x.lo = w.now() + 1; x.hi = w.now() + P(w.cclk[x.ctr]); } };
    auto event = [&](W &x, char c) {
        uint64_t n = w.now(); VF_CHECK(ctx, !x.dead, "window/destroyed", "a destroyed trigger called its object");
        ctx.count(std::string("event.") + c);
        if (posting && x.notif) { VF_EQ(ctx, c, posting, "window/notification", "the object saw another event than the one posted"); return; }
        if (x.cur) { VF_EQ(ctx, c, x.cur, "window/objects", "the objects of one trigger saw different events"); }
        x.cur = c; if (++x.inGroup < x.obs.size()) return;
        x.inGroup = 0; x.cur = 0;
        if (c == 'g') {
            VF_CHECK(ctx, x.hasStart && !x.started && x.window && x.lo <= n && n <= x.hi, "window/go", "trigger #" << x.id << " started at tick " << n << "; it was due at " << x.lo << ".." << x.hi << (x.started ? ", once" : ""));
            x.started = true;
            if (x.hasStop) { if (x.stopRel) x.stopAt = n + x.stop * P(x.eclk); else if (x.stop >= n / P(x.eclk)) x.stopAt = n + (x.stop - n / P(x.eclk)) * P(x.eclk); else ctx.count("stop before start"); }
            if (x.rep) x.nextRep = n + (x.align ? x.period - n / P(x.rclk) % x.period : x.period) * P(x.rclk);
        } else if (c == 's') { VF_CHECK(ctx, x.started && !x.stopped, "window/stop-twice", "trigger #" << x.id << " stopped out of turn"); VF_EQ(ctx, n, x.stopAt, "window/stop", "trigger #" << x.id << " stopped at another tick"); x.stopped = true; x.nextRep = ~0ull; }
        else {
            VF_CHECK(ctx, x.rep && x.started && !x.stopped && !x.forced, "window/repeat", "trigger #" << x.id << " repeated outside its window"); VF_EQ(ctx, n, x.nextRep, "window/period", "trigger #" << x.id << " repeated at another tick");
            x.nextRep = n + (x.align ? x.period - n / P(x.rclk) % x.period : x.period) * P(x.rclk);
        }
    };
    for (unsigned i = 0, n = unsigned(r.range(1, 5)); i < n; ++i) {
        ws.emplace_back(new W); W &x = *ws.back(); x.id = i; x.t.reset(new trigger::Trigger("win" + std::to_string(i), w.m.clks[r.below(w.m.clks.size())].get())); auto &t = *x.t;
        for (unsigned k = 0, m = unsigned(r.range(1, 3)); k < m; ++k) { x.obs.emplace_back(new Obs); W *xp = &x; x.obs.back()->f = [&event, xp](char c) { event(*xp, c); }; t.addTriggeredObject(x.obs.back().get()); }
        if (r.chance(1, 4)) { x.notif = true; t.setTriggerNotificationDriven(&w.m.rtn, roi::NOTIFICATION_SRC_NAME); ctx.op("notif", i); continue; }
        x.eclk = unsigned(r.below(w.m.clks.size())); x.rclk = unsigned(r.below(w.m.clks.size())); x.sclk = unsigned(r.below(w.m.clks.size()));
        auto opts = [&] {
            if (r.chance(2, 3)) { x.hasStop = true; x.stopRel = r.chance(1, 2); x.stop = r.range(1, 60); auto *c = w.m.clks[x.eclk].get(); if (x.stopRel) t.setTriggerStopRelativeToStart(c, x.stop); else if (r.chance(1, 2)) t.setTriggerStopAbsolute(c, x.stop); else t.setTriggerStopRelative(c, x.stop); ctx.op("stop", i, x.eclk, x.stopRel ? "rel" : "abs", x.stop); }
            if (r.chance(2, 3)) { x.rep = true; x.period = r.range(1, 12); x.align = r.chance(1, 2); t.setRecurring(w.m.clks[x.rclk].get(), x.period); t.setPeriodAlignmentOptions(x.align); ctx.op("repeat", i, x.rclk, x.period, x.align); }
        };
        bool first = r.chance(1, 2); if (first) opts();
        x.hasStart = true; x.byCtr = r.chance(1, 3);
        if (x.byCtr) { x.ctr = unsigned(r.below(w.ctrs.size())); x.start = r.range(1, 30); t.setTriggerStartAbsolute(w.ctrs[x.ctr].get(), x.start); }
        else { x.start = r.range(1, 40); if (r.chance(1, 2)) t.setTriggerStartAbsolute(w.m.clks[x.sclk].get(), x.start); else t.setTriggerStartRelative(w.m.clks[x.sclk].get(), x.start); x.window = true; x.lo = x.hi = x.start * P(x.sclk); }
        ctx.op("start", i, x.byCtr ? "ctr" : "clk", x.byCtr ? x.ctr : x.sclk, x.start);
        if (!first) opts();
    }
    w.m.finalize(); w.start();
    w.onCycle = [&](unsigned) {
        for (auto &x : ws) {
            if (x->dead) continue;
            hold(*x); uint64_t n = w.now();
            VF_EQ(ctx, x->inGroup, 0u, "window/objects", "not every object of trigger #" << x->id << " was called");
            VF_CHECK(ctx, !(x->hasStart && !x->started && x->window && x->hi < n), "window/go-missed", "trigger #" << x->id << " did not start");
            VF_CHECK(ctx, !(x->started && !x->stopped && x->stopAt < n), "window/stop-missed", "trigger #" << x->id << " did not stop");
            VF_CHECK(ctx, !(x->started && !x->stopped && !x->forced && x->nextRep < n && x->nextRep != x->stopAt), "window/repeat-missed", "trigger #" << x->id << " did not repeat");
            if (x->started && x->rep && !x->forced && r.chance(1, 60)) { ctx.op("force stop", x->id); x->t->forceStopRecurring(); x->forced = true; x->nextRep = ~0ull; ctx.count("forced"); }
            else if (r.chance(1, 150)) { ctx.op("destroy", x->id); x->t.reset(); x->dead = true; ctx.count("destroyed"); }
        }
        if (r.chance(1, 20)) { posting = r.chance(1, 2) ? 'g' : 's'; ctx.op("post", std::string(1, posting)); src.postNotification(posting == 'g' ? roi::START : roi::STOP); posting = 0; ctx.count("posted"); }
    };
    w.run(150);
    for (auto &x : ws) ctx.obs(x->started, x->stopped, x->dead);
    ws.clear();
}

bool cmp(const std::string &op, double a, double b) { return op == "==" ? a == b : op == "!=" ? a != b : op == ">=" ? a >= b : op == "<=" ? a <= b : op == ">" ? a > b : a < b; }
const char *const OPS[] = {"==", "!=", ">=", "<=", ">", "<"};
// Boolean expressions: each term becomes true once, at a tick known within the period of its clock, and stays so.
struct Node {
    enum K { AND, OR, CTR, NOTIF, CC, SD, REF } k; std::vector<Node> kids; unsigned idx = 0; uint64_t target = 0; std::string op; std::array<uint64_t, 1> base{{0}}; bool abs = false, held = false; uint64_t lo = ~0ull, hi = ~0ull;
    void eval() { if (k > OR) return; lo = hi = k == AND ? 0 : ~0ull; for (auto &c : kids) { c.eval(); if (k == AND) { lo = std::max(lo, c.lo); hi = std::max(hi, c.hi); } else { lo = std::min(lo, c.lo); hi = std::min(hi, c.hi); } } }
    void leaves(const std::function<void(Node &)> &f) { if (k > OR) f(*this); for (auto &c : kids) c.leaves(f); }
};
VF_SECTION(expression, 300, 6000)
{
    Quiet q; auto &r = ctx.rng; World w(ctx, ratios(r)); auto sc = std::make_shared<SubContainer>();
    std::vector<std::unique_ptr<NotificationSource<uint64_t>>> src; for (unsigned i = 0; i < 3; ++i) src.emplace_back(new NotificationSource<uint64_t>(&w.m.rtn, "ch" + std::to_string(i) + "x", "channel", "ch" + std::to_string(i) + "x"));
    ParameterSet ps(&w.m.rtn); Parameter<uint64_t> limit("limit", 17, "a target", &ps);
    // an aggregate, and a plain statistic, for each set of counters
    std::vector<std::unique_ptr<ContextCounter<Counter>>> ccs; std::vector<std::unique_ptr<StatisticDef>> sds;
    for (size_t k = 0; k < w.sets.size(); ++k) {
        ccs.emplace_back(new ContextCounter<Counter>(w.sets[k].get(), "agg", "d", 2, "thread", CounterBase::COUNT_NORMAL, InstrumentationNode::VIS_NORMAL));
        sds.emplace_back(new StatisticDef(w.sets[k].get(), "sum", "d", w.sets[k].get(), "ctr_0x * 2 + 1", StatisticDef::VS_FRACTIONAL));
    }
    std::vector<std::array<uint64_t, 2>> ccv(w.sets.size(), {{0, 0}});
    auto path = [](const TreeNode *n) { auto l = n->getLocation(); return l.substr(l.find('.') + 1); };
    struct X { unsigned id; std::unique_ptr<trigger::ExpressionTrigger> t; std::unique_ptr<vf::Fn> fn; Node root; bool fired = false, used = false; uint64_t at = 0; std::string text; };
    std::vector<std::unique_ptr<X>> xs; bool running = false, pre = true; uint64_t lim = 17;
    std::function<void(Node &)> hold = [&](Node &n) {
        if (n.held) return; uint64_t now = w.now(); bool h = false; unsigned k = n.idx;
        switch (n.k) {
        case Node::CTR: h = w.val[n.idx] >= n.target; k = w.cclk[n.idx]; break;
        case Node::CC: h = cmp(n.op, double(ccv[k][0] + ccv[k][1] - (n.abs ? 0 : n.base[0])), double(n.target)); break;
        case Node::SD: { double v = 0; for (size_t i = 0; i < w.ctrs.size(); ++i) if (w.cclk[i] == k) { v = double(w.val[i] - n.base[0]) * 2 + 1; break; } h = cmp(n.op, v, double(n.target)); break; }
        default: return;
        }
        if (h) { n.held = true; n.lo = now + (pre ? 0 : 1); n.hi = now + w.m.period[k]; ctx.count("term true"); }
    };
    std::function<void(X &)> fire;
    auto notifyRefs = [&](X &x) { for (auto &y : xs) if (y->t && !y->fired) y->root.leaves([&](Node &n) { if (n.k == Node::REF && n.idx == x.id && !n.held) { n.held = true; n.lo = n.hi = w.now(); } }); };
    fire = [&](X &x) {
        uint64_t n = w.now(); VF_CHECK(ctx, x.t && !x.fired, "expression/again", "expression #" << x.id << " " << x.text << " fired again"); x.root.eval();
        VF_CHECK(ctx, x.root.lo <= n && n <= x.root.hi, "expression/tick", "expression #" << x.id << " '" << x.text << "' fired at tick " << n << "; it was due at " << x.root.lo << ".." << x.root.hi);
        VF_CHECK(ctx, x.t->hasFired(), "expression/hasFired", "hasFired() is false in the callback");
        x.fired = true; x.at = n; ctx.count("expression fired"); ctx.obs("fired", x.id, n); notifyRefs(x);
    };
    auto val = [&](uint64_t v) { std::ostringstream o; if (v == lim && r.chance(1, 2)) return std::string("params.limit"); if (v % 1000 == 0 && v && r.chance(1, 2)) { o << v / 1000 << "k"; return o.str(); } if (r.chance(1, 5)) o << "0x" << std::hex << v; else o << v; return o.str(); };
    std::string text; auto sp = [&] { return std::string(r.chance(1, 2) ? " " : ""); };
    std::function<Node(unsigned, int)> gen = [&](unsigned depth, int parent) {
        Node n;
        if (depth && r.chance(2, 3)) {
            n.k = parent == Node::AND ? Node::OR : parent == Node::OR ? Node::AND : r.chance(1, 2) ? Node::AND : Node::OR; if (parent >= 0) text += "(" + sp();
            for (unsigned i = 0, m = unsigned(r.range(2, 4)); i < m; ++i) { if (i) text += sp() + (n.k == Node::AND ? "&&" : "||") + sp(); n.kids.push_back(gen(depth - 1, n.k)); }
            if (parent >= 0) text += sp() + ")";
            return n;
        }
        unsigned c = unsigned(r.below(10)); if (c == 9) { std::vector<unsigned> refs; for (auto &x : xs) if (x->used && !x->fired && x->t) refs.push_back(x->id); if (!refs.empty()) { n.k = Node::REF; n.idx = r.pick(refs); text += "t" + std::to_string(n.idx) + ".start"; return n; } c = 0; }
        if (c < 3) { n.k = Node::CTR; n.op = ">="; n.idx = unsigned(r.below(w.ctrs.size())); n.target = r.chance(1, 6) ? lim : r.chance(1, 30) ? 1000 : r.range(1, 60); text += path(w.ctrs[n.idx].get()) + sp() + ">=" + sp() + val(n.target); }
        else if (c < 7) { n.k = Node::NOTIF; n.idx = unsigned(r.below(3)); n.op = OPS[r.below(6)]; n.target = r.chance(1, 6) ? lim : r.below(8); text += "notif.ch" + std::to_string(n.idx) + "x" + sp() + n.op + sp() + val(n.target); }
        else { n.k = c == 7 ? Node::CC : Node::SD; n.idx = unsigned(r.below(w.sets.size())); n.op = r.chance(1, 2) ? ">=" : ">"; n.target = r.range(1, 60); text += "stat_def." + (n.k == Node::CC ? path(ccs[n.idx].get()) + ((n.abs = r.chance(1, 2)) ? ".agg" : "") : path(sds[n.idx].get())) + sp() + n.op + sp() + std::to_string(n.target); }
        return n;
    };
    auto create = [&] {
        xs.emplace_back(new X); X &x = *xs.back(); x.id = unsigned(xs.size() - 1); text.clear(); Node root = gen(unsigned(r.below(4)), -1); x.root = root; x.text = text; x.fn.reset(new vf::Fn); X *xp = &x; x.fn->f = [&fire, xp] { fire(*xp); };
        // the same reference twice in one expression counts once
        std::set<unsigned> seen; bool twice = false; root.leaves([&](Node &n) { if (n.k == Node::REF && !seen.insert(n.idx).second) twice = true; }); if (twice) { xs.pop_back(); return; }
        ctx.op("expression", x.id, text); x.t.reset(new trigger::ExpressionTrigger("x" + std::to_string(x.id), x.fn->h(), text, w.m.rtn.getAs<TreeNode>(), sc));
        VF_CHECK(ctx, !x.t->hasFired(), "expression/hasFired", "hasFired() of a new expression"); x.used = r.chance(1, 2); if (x.used) x.t->setReferenceEvent("t" + std::to_string(x.id), "start");
        x.root.leaves([&](Node &n) { ctx.count("leaf." + std::to_string(n.k)); if (n.k == Node::CC) n.base[0] = ccv[n.idx][0] + ccv[n.idx][1]; if (n.k == Node::SD) for (size_t i = 0; i < w.ctrs.size(); ++i) if (w.cclk[i] == n.idx) { n.base[0] = w.val[i]; break; } hold(n); });
    };
    unsigned pool = unsigned(r.below(3)); (void)running; (void)pool;
    w.m.finalize(); for (unsigned i = 0, n = unsigned(r.range(1, 4)); i < n; ++i) create();
    w.start();
    w.onCycle = [&](unsigned c) {
        pre = false; uint64_t now = w.now();
        if (r.chance(1, 3)) { unsigned i = unsigned(r.below(2)), d = unsigned(r.below(4)); ccs[c]->context(i) += d; ccv[c][i] += d; }
        for (auto &x : xs) if (x->t) x->root.leaves(hold);
        if (r.chance(1, 12) && xs.size() < 8) create();
        if (r.chance(1, 8)) {
            unsigned i = unsigned(r.below(3)); uint64_t v = r.chance(1, 5) ? lim : r.below(10); ctx.op("post", i, v); ctx.count("posted");
            for (auto &x : xs) if (x->t) x->root.leaves([&](Node &n) { if (n.k == Node::NOTIF && n.idx == i && !n.held && cmp(n.op, double(v), double(n.target))) { n.held = true; n.lo = n.hi = now; } });
            src[i]->postNotification(v);
        }
        if (r.chance(1, 100)) { auto &x = xs[r.below(xs.size())]; bool dep = x->used; x->root.leaves([&](Node &n) { dep |= n.k == Node::REF; }); if (x->t && !dep) { ctx.op("destroy", x->id); x->t.reset(); ctx.count("expression destroyed"); } }
        for (auto &x : xs) if (x->t) { x->root.eval(); VF_CHECK(ctx, x->fired || x->root.hi > now || (x->root.hi == now), "expression/missed", "expression #" << x->id << " '" << x->text << "' was due at " << x->root.lo << ".." << x->root.hi << " and has not fired at " << now); VF_EQ(ctx, x->t->hasFired(), x->fired, "expression/hasFired", "hasFired() of #" << x->id); }
    };
    w.run(r.range(60, 200));
    for (auto &x : xs) { ctx.obs(x->fired, x->at); ctx.count(x->fired ? "fired at the end" : "unfired at the end"); }
    xs.clear();
}
VF_SECTION(toggle, 300, 6000)
{
    Quiet q; auto &r = ctx.rng; vf::Env env; std::vector<std::unique_ptr<NotificationSource<uint64_t>>> src; for (unsigned i = 0; i < 3; ++i) src.emplace_back(new NotificationSource<uint64_t>(&env.rtn, "ch" + std::to_string(i) + "x", "channel", "ch" + std::to_string(i) + "x"));
    struct Term { unsigned ch; std::string op; uint64_t target; bool seen = false, now = false, posted = false; }; std::vector<Term> ts; bool all = r.chance(1, 2); std::string text;
    for (unsigned i = 0, n = unsigned(r.range(1, 3)); i < n; ++i) { Term t{i, OPS[r.below(6)], uint64_t(r.range(1, 5))}; if (i) text += all ? " && " : "||"; text += "notif.ch" + std::to_string(i) + "x " + t.op + " " + std::to_string(t.target); ts.push_back(t); }
    bool single = ts.size() == 1, on = false, ALLnow = all; unsigned flips = 0, calls = 0; vf::Fn up, down;
    ctx.op("toggle", text);
    // The active expression is the one given while off and its negation, with the other operator, while on.
    auto reset = [&] { for (auto &t : ts) t.seen = t.now = t.posted = false; };
    auto seenOk = [&] { bool a = true, o = false; for (auto &t : ts) { a &= t.seen; o |= t.seen; } return ALLnow ? a : o; };
    auto flip = [&](bool want) { ++calls; VF_EQ(ctx, on, !want, "toggle/order", "the " << (want ? "enabled" : "disabled") << " callback of '" << text << "' ran twice in a row"); VF_CHECK(ctx, seenOk(), "toggle/condition", "'" << text << "' was " << (want ? "enabled" : "disabled") << " before its terms had been seen to hold"); on = want; ++flips; ALLnow = want ? !all : all; reset(); ctx.count(want ? "enabled" : "disabled"); };
    up.f = [&] { flip(true); }; down.f = [&] { flip(false); };
    std::unique_ptr<trigger::ExpressionToggleTrigger> t(new trigger::ExpressionToggleTrigger("toggle", text, up.h(), down.h(), env.rtn.getAs<TreeNode>(), nullptr)); env.finalize();
    VF_EQ(ctx, t->toString(), text, "toggle/text", "toString()");
    for (unsigned i = 0; i < 60; ++i) {
        unsigned c = unsigned(r.below(3)); uint64_t v = r.below(7); ctx.op("post", c, v); bool must = false; unsigned before = calls;
        if (c < ts.size()) {
            auto &x = ts[c]; x.now = cmp(x.op, double(v), double(x.target)) != on; x.posted = true; x.seen |= x.now;
            bool a = true, o = false; for (auto &y : ts) { a &= y.now && y.posted; o |= y.now && y.posted; } must = ALLnow ? a : o;
        }
        src[c]->postNotification(v);
        VF_CHECK(ctx, !must || calls == before + 1, "toggle/missed", "'" << text << "' was not " << (on ? "disabled" : "enabled") << " by posting " << v << " on channel " << c);
        VF_CHECK(ctx, calls <= before + 1, "toggle/twice", "one notification toggled twice"); if (single) VF_EQ(ctx, calls, before + (must ? 1 : 0), "toggle/single", "'" << text << "' after " << v);
        ctx.obs(on, flips);
        if (r.chance(1, 80)) { t.reset(); unsigned b = calls; for (auto &s : src) for (uint64_t k = 0; k < 7; ++k) s->postNotification(k); VF_EQ(ctx, calls, b, "toggle/destroyed", "a destroyed toggle called back"); return; }
    }
    t.reset();
}
// Recurring triggers as reports use them: cycles, time, and counts (aligned or not), set again from the callback.
VF_SECTION(recurring, 200, 4000)
{
    Quiet q; auto &r = ctx.rng; World w(ctx, ratios(r));
    struct U { unsigned id; int kind; std::unique_ptr<trigger::ExpressionTrigger> t; std::unique_ptr<vf::Fn> fn; uint64_t lo = 0, hi = 0, step = 0, period = 1, target = 0; unsigned ctr = 0, n = 0; bool align = true, window = false, once = false; std::string text; };
    std::vector<std::unique_ptr<U>> us; bool pre = true; unsigned stop = unsigned(r.range(1, 1000));
    auto hold = [&](U &u) { if (u.kind == 2 && !u.window && !(u.once && u.n) && u.n < stop && w.val[u.ctr] >= u.target) { u.window = true; u.lo = w.now() + (pre ? 0 : 1); u.hi = w.now() + u.period; } };
    auto next = [&](U &u) { u.target = u.align ? (w.val[u.ctr] / u.step + 1) * u.step : w.val[u.ctr] + u.step; };
    auto fired = [&](U &u) {
        uint64_t n = w.now(); ctx.count("recurring." + std::to_string(u.kind)); ++u.n; ctx.obs(u.id, n);
        VF_CHECK(ctx, u.window && u.lo <= n && n <= u.hi, "recurring/tick", "'" << u.text << "' fired at " << n << "; it was due at " << u.lo << ".." << u.hi << " (" << u.window << ")");
        if (u.once || u.n >= stop) { u.window = false; u.hi = ~0ull; return; }
        if (u.kind < 2) { u.t->reschedule(); u.lo = u.hi = n + u.step * u.period; }
    };
    auto create = [&] {
        us.emplace_back(new U); U &u = *us.back(); u.id = unsigned(us.size()); u.kind = int(r.below(3)); U *up = &u; u.fn.reset(new vf::Fn); u.fn->f = [&fired, up] { fired(*up); };
        auto *cx = w.m.rtn.getAs<TreeNode>(); uint64_t n = w.now();
        if (u.kind == 0) { unsigned k = unsigned(r.below(w.m.clks.size())); u.step = r.range(1, 30); u.period = w.m.period[k]; u.text = k || r.chance(1, 2) ? w.m.clks[k]->getName() + " " + std::to_string(u.step) : std::to_string(u.step); if (!k) { u.text = std::to_string(u.step); } ctx.op("cycles", u.text); u.t.reset(new trigger::ExpressionCycleTrigger("u", u.fn->h(), u.text, cx)); u.window = true; u.lo = u.hi = n + u.step * u.period; VF_EQ(ctx, u.t->toString(), std::to_string(u.step) + ",type=cycles,counter=" + (k ? w.m.clks[k]->getName() : ""), "recurring/text", "toString()"); }
        else if (u.kind == 1) { unsigned f = unsigned(r.below(4)); u.step = f == 0 ? r.range(1, 5000) : f == 1 ? r.range(1, 50) * 1000 : f == 2 ? 1000000 : r.range(1, 9) * 500; std::ostringstream o; if (f == 0) o << u.step << " ps"; else if (f == 1) o << u.step / 1000 << " ns"; else if (f == 2) o << "1 us"; else o << double(u.step) / 1000; u.text = o.str(); ctx.op("time", u.text); u.t.reset(new trigger::ExpressionTimeTrigger("u", u.fn->h(), u.text, cx)); u.window = true; u.lo = u.hi = n + u.step; }
        else {
            u.ctr = unsigned(r.below(w.ctrs.size())); u.period = w.m.period[w.cclk[u.ctr]]; u.step = r.range(1, 20); u.align = r.chance(1, 2); auto l = w.ctrs[u.ctr]->getLocation(); u.text = l.substr(l.find('.') + 1) + " " + std::to_string(u.step) + (u.align ? r.chance(1, 2) ? " align" : "" : " noalign");
            ctx.op("count", u.text); u.t.reset(new trigger::ExpressionCounterTrigger("u", u.fn->h(), u.text, true, cx)); next(u); hold(u);
            std::ostringstream o; o << u.step << ",after=" << u.target << ",type=" << (u.align ? "aligned_icount" : "icount") << ",counter=" << l; VF_EQ(ctx, u.t->toString(), o.str(), "recurring/text", "toString()");
            if (r.chance(2, 3)) { // set again for the next multiple, as an update-count does
                auto *self = &u; bool ok = u.t->switchToSingleCounterTriggerCallbackIfAble([&, self](const trigger::CounterTrigger *c) { fired(*self); VF_EQ(ctx, c->getTriggerPoint(), self->target, "recurring/point", "trigger point"); if (self->n < stop) { next(*self); self->window = false; const_cast<trigger::CounterTrigger *>(c)->resetAbsolute(self->target); } });
                VF_CHECK(ctx, ok, "recurring/single", "'" << u.text << "' has one counter trigger"); VF_CHECK(ctx, u.t->getCounter() == w.ctrs[u.ctr].get(), "recurring/counter", "getCounter()"); ctx.count("update-count");
            } else u.once = true;
        }
        auto in = u.t->getInternals(); VF_EQ(ctx, in.num_cycle_triggers_, size_t(u.kind == 0), "recurring/internals", "cycle"); VF_EQ(ctx, in.num_time_triggers_, size_t(u.kind == 1), "recurring/internals", "time"); VF_EQ(ctx, in.num_counter_triggers_, size_t(u.kind == 2), "recurring/internals", "counter"); VF_EQ(ctx, in.num_notif_triggers_, size_t(0), "recurring/internals", "notifications");
    };
    w.m.finalize(); for (unsigned i = 0, n = unsigned(r.range(1, 4)); i < n; ++i) create();
    w.start();
    w.onCycle = [&](unsigned) { pre = false; for (auto &u : us) if (u->t) hold(*u); if (us.size() < 8 && r.chance(1, 20)) create(); if (r.chance(1, 150)) { auto &u = us[r.below(us.size())]; if (u->t) { ctx.op("destroy", u->id); u->t.reset(); u->window = false; ctx.count("recurring destroyed"); } }
        for (auto &u : us) VF_CHECK(ctx, !u->t || !u->window || u->hi >= w.now(), "recurring/missed", "'" << u->text << "' was due at " << u->lo << ".." << u->hi); };
    w.run(r.range(100, 6000)); us.clear();
}

// a trigger observes the counter it was last given, whatever became of the earlier one
VF_SECTION(reassign, 12, 200)
{
    Quiet q; auto &r = ctx.rng; vf::Env env; StatisticSet ss(&env.rtn); Counter b(&ss, "b", "b", Counter::COUNT_NORMAL); std::unique_ptr<RootTreeNode> other(new RootTreeNode("other")); other->setClock(&env.clk);
    std::unique_ptr<StatisticSet> os(new StatisticSet(other.get())); std::unique_ptr<Counter> a(new Counter(os.get(), "a", "a", Counter::COUNT_NORMAL)); env.finalize(); env.sched.run(1, true, false);
    vf::Fn f, g; int nf = 0, ng = 0; f.f = [&] { ++nf; }; g.f = [&] { ++ng; }; uint64_t pb = uint64_t(r.range(2, 9));
    std::unique_ptr<trigger::CounterTrigger> t(new trigger::CounterTrigger("t", f.h(), a.get(), 5)), u(new trigger::CounterTrigger("u", g.h(), &b, pb)); bool swap = r.chance(1, 3); ctx.op("assign", pb, swap);
    if (swap) { trigger::CounterTrigger k(*t); *t = *u; *u = k; k.deactivate(); } else { *t = *u; u.reset(); }
    if (swap) { u->deactivate(); } a.reset(); os.reset(); other->enterTeardown(); other.reset();
    VF_CHECK(ctx, !vf::throws<SpartaException>([&] { t->getCounter(); }) && t->getCounter() == &b, "assign/counter", "the counter of an assigned trigger whose earlier counter is gone");
    if (swap) VF_CHECK(ctx, vf::throws<SpartaException>([&] { u->getCounter(); }), "assign/gone", "the counter of an assigned trigger is gone, yet it is given out");
    for (uint64_t i = 1; i <= 10; ++i) { ++b; env.sched.run(1, true, false); VF_EQ(ctx, ng, i >= pb, "assign/fired", "at count " << i << " of " << pb); } VF_EQ(ctx, nf, 0, "assign/old", "callback of the overwritten trigger"); ctx.count("assigned"); ctx.obs(pb);
}
} // namespace
