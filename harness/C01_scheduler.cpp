// C01: online model of the scheduler.  Every firing is compared, as it happens, with the next
// event the model has pending; the end of every run() is compared with the model's end.
#include "simenv.hpp"
#include <deque>
#include <limits>
using namespace sparta;
namespace {
const uint64_t INF = ~0ull;

struct World {
    struct Key { uint64_t tick; uint32_t fg; uint64_t seq; bool operator<(const Key &o) const {
        return std::tie(tick, fg, seq) < std::tie(o.tick, o.fg, o.seq); } };
    struct Item { int id; bool cont; };
    struct Ev {
        vf::Fn fn; TreeNode *node = nullptr; Scheduleable *sc = nullptr; unsigned phase = 0; bool cont = true; uint64_t dflt = 0;
        uint64_t fired = 0, scheduled = 0, cancelled = 0;
    };
    vf::Ctx &ctx;
    vf::Env *env = nullptr;
    std::vector<std::unique_ptr<Ev>> evs;
    std::map<Key, Item> pend;
    uint64_t seq = 0, now = 0;          // now: current tick of the model when outside run
    bool in_run = false, stop_req = false, exacting = false;
    uint64_t bound_last = INF;          // last tick the current run may execute
    uint64_t last_exec = INF;           // last tick an event fired on, in this run
    uint64_t latest_ever = 0;           // latest tick any continuing work was ever scheduled for
    bool any_cancel = false;            // cancelled entries may keep their (now empty) tick alive
    int cur = -1; uint32_t cur_fg = 0;
    std::set<int> fired_in_group;
    std::set<uint64_t> ghosts;           // ticks on which something was cancelled
    int budget = 0;
    bool restarted = false;

    explicit World(vf::Ctx &c) : ctx(c) {}
    Scheduler &S() { return env->sched; }
    uint32_t fg(int id) { return evs[id]->sc->getGroupID() ? evs[id]->sc->getGroupID() : 0xffffffffu; }
    bool realCont() { for (auto &p : pend) if (p.second.cont) return true; return false; }

    void add(int id, uint64_t delay, bool cont)
    {
        pend[{S().getCurrentTick() + delay, fg(id), seq++}] = {id, cont};
        if (cont) latest_ever = std::max(latest_ever, S().getCurrentTick() + delay);
        ++evs[id]->scheduled;
    }
    uint64_t delay()
    {
        switch (ctx.rng.below(8)) {
        case 0: case 1: return 0;
        case 2: case 3: return 1;
        case 4: case 5: return ctx.rng.below(6);
        case 6: return ctx.rng.below(40);
        default: return ctx.rng.chance(1, 20) ? (1ull << (20 + ctx.rng.below(20))) : ctx.rng.below(300);
        }
    }
    void doSchedule()
    {
        int id = ctx.rng.below(evs.size());
        Ev &e = *evs[id];
        uint64_t d = delay();
        bool illegal = in_run && d == 0 && fg(id) < cur_fg;
        int how = ctx.rng.below(6);
        uint64_t t = S().getCurrentTick();
        ctx.op([&](std::ostream &o) { o << "sched e" << id << " +" << d << " how" << how << (illegal ? " illegal" : ""); });
        bool cont = e.cont, dup = false, use = true;
        auto call = [&] {
            switch (how) {
            case 0: e.sc->schedule(d); break;
            case 1: e.sc->schedule(d, &env->clk); break;
            case 2: e.sc->scheduleRelativeTick(d, &S()); break;
            case 3: S().scheduleEvent(e.sc, d, e.sc->getGroupID(), cont = ctx.rng.chance(1, 2)); break;
            case 4: {
                cont = ctx.rng.chance(1, 2);
                for (auto &p : pend) if (p.second.id == id && p.first.tick == t + d) dup = true;
                bool once = true;
                if (in_run && d == 0 && fg(id) == cur_fg && fired_in_group.count(id)) once = false; // unique-in-tick semantics: see C03
                S().scheduleEvent(e.sc, d, e.sc->getGroupID(), cont, once);
                if (!once) dup = false;
                // asking again for something already there may not add it, but still counts as continuing interest
                if (dup && cont) { latest_ever = std::max(latest_ever, t + d); any_cancel = true; }
                break;
            }
            case 5:
                if (ctx.rng.chance(1, 2)) { e.sc->setDelay(d); } else { e.sc->setDelay(0); e.sc->addDelay(d); }
                e.sc->schedule(); e.dflt = d; break;
            }
        };
        if (illegal) {
            ctx.count("illegal");
            VF_CHECK(ctx, vf::throws<SpartaException>(call), "illegal-accepted", "scheduling e" << id << " into an already passed group of the current tick was accepted");
            return;
        }
        call();
        if (!dup) add(id, d, cont);
        VF_CHECK(ctx, S().isScheduled(e.sc), "not-scheduled", "e" << id << " not reported scheduled after scheduling it");
        VF_CHECK(ctx, e.sc->isScheduled(d), "not-scheduled", "e" << id << " not reported scheduled at its tick");
    }
    void doCancel()
    {
        int id = ctx.rng.below(evs.size());
        Ev &e = *evs[id];
        uint64_t t = S().getCurrentTick();
        uint64_t d = INF;
        if (ctx.rng.chance(1, 2)) {
            d = delay();
            if (!pend.empty() && ctx.rng.chance(2, 3)) {
                auto it = pend.begin(); std::advance(it, ctx.rng.below(std::min<size_t>(pend.size(), 6)));
                id = it->second.id; d = it->first.tick - t;
            }
        }
        Ev &e2 = *evs[id];
        ctx.op([&](std::ostream &o) { o << "cancel e" << id << " at " << (d == INF ? -1 : (int64_t)d); });
        bool hit = false;
        for (auto it = pend.begin(); it != pend.end();)
            if (it->second.id == id && (d == INF || it->first.tick == t + d)) { ghosts.insert(it->first.tick); it = pend.erase(it); hit = true; ++e2.cancelled; } else ++it;
        if (hit) { any_cancel = true; ctx.count("cancel_hits"); }
        if (d == INF) {
            e2.sc->cancel();
        } else if (ctx.rng.chance(1, 2)) e2.sc->cancel(d); else S().cancelEvent(e2.sc, d);
        (void)e;
    }
    void doQuery()
    {
        int id = ctx.rng.below(evs.size());
        if (in_run && fired_in_group.count(id)) return; // an event firing right now counts as scheduled until its group is over
        uint64_t d = delay(), t = S().getCurrentTick();
        bool any = false, at = false;
        for (auto &p : pend) if (p.second.id == id) { any = true; if (p.first.tick == t + d) at = true; }
        VF_EQ(ctx, evs[id]->sc->isScheduled(), any, "isScheduled", "isScheduled() of e" << id);
        VF_EQ(ctx, evs[id]->sc->isScheduled(d), at, "isScheduled-at", "isScheduled(" << d << ") of e" << id);
        VF_EQ(ctx, S().isScheduled(evs[id]->sc, d), at, "isScheduled-at", "Scheduler::isScheduled(" << d << ") of e" << id);
    }
    void onFire(int id)
    {
        Ev &e = *evs[id];
        uint64_t t = S().getCurrentTick();
        ctx.op([&](std::ostream &o) { o << "FIRE e" << id << " @" << t; });
        ctx.obs(id * 1000003ull + t);
        VF_CHECK(ctx, in_run, "fired-outside-run", "e" << id << " fired outside run()");
        VF_CHECK(ctx, !pend.empty(), "fired-unscheduled", "e" << id << " fired at " << t << " but nothing is pending");
        auto it = pend.begin();
        VF_CHECK(ctx, it->first.tick == t && it->second.id == id, "wrong-event",
                 "e" << id << " fired at tick " << t << "; expected e" << it->second.id << " at tick " << it->first.tick);
        VF_CHECK(ctx, t <= bound_last, "past-bound", "e" << id << " fired at " << t << " beyond the run bound " << bound_last);
        if (last_exec == INF || t != last_exec) {
            VF_CHECK(ctx, last_exec == INF || t > last_exec, "time-backwards", "tick " << t << " after " << last_exec);
            VF_CHECK(ctx, last_exec == INF || !stop_req, "ran-after-stop", "e" << id << " fired at " << t << " after a stop at " << last_exec);
            // beyond the first tick of a run, only continuing work keeps the simulation going
            VF_CHECK(ctx, last_exec == INF || exacting || latest_ever >= t, "ran-without-continuing",
                     "e" << id << " fired at " << t << " though no continuing work was left after " << last_exec);
            if (!any_cancel && last_exec != INF && !exacting)
                VF_CHECK(ctx, realCont(), "ran-without-continuing", "e" << id << " fired at " << t << " with only non-continuing work left");
        }
        if (last_exec != t || cur_fg != it->first.fg) fired_in_group.clear();
        last_exec = t; cur = id; cur_fg = it->first.fg; fired_in_group.insert(id);
        pend.erase(it);
        ++e.fired;
        VF_CHECK(ctx, S().isRunning() || stop_req, "not-running", "isRunning() false while firing");
        VF_EQ(ctx, unsigned(S().getCurrentSchedulingPhase()), e.phase, "phase", "current phase while e" << id << " fires");
        VF_CHECK(ctx, S().getCurrentFiringEvent() == e.sc, "firing-event", "getCurrentFiringEvent() is not the event that fires");
        VF_CHECK(ctx, S().getSimulatedPicoSeconds() == t, "picoseconds", "simulated time is not the tick");
        if (!restarted) VF_EQ(ctx, S().getElapsedTicks(), t, "elapsed", "elapsed ticks in a handler");
        int n = ctx.rng.below(4);
        while (n-- > 0 && budget > 0) {
            --budget;
            unsigned r = ctx.rng.below(20);
            if (r < 13) doSchedule();
            else if (r < 16) doCancel();
            else if (r < 19) doQuery();
            else if (ctx.rng.chance(1, 6)) { ctx.op("stopRunning"); S().stopRunning(); stop_req = true; ctx.count("stops"); }
        }
    }
    void run()
    {
        uint64_t T = S().getCurrentTick();
        VF_EQ(ctx, T, now, "tick-between-runs", "current tick between runs");
        bool bounded = ctx.rng.chance(3, 4);
        uint64_t n = bounded ? 1 + ctx.rng.below(ctx.rng.chance(1, 5) ? 200 : 12) : INF;
        if (bounded && !pend.empty() && ctx.rng.chance(1, 3)) { // aim at the boundary of the next event
            int64_t w = int64_t(pend.begin()->first.tick - T) + ctx.rng.range(-1, 2);
            if (w > 0) n = w;
        }
        exacting = bounded && ctx.rng.chance(1, 2);
        bool measure = ctx.rng.chance(1, 8);
        ctx.op([&](std::ostream &o) { o << "RUN from " << T << " n=" << int64_t(n) << (exacting ? " exact" : ""); });
        bound_last = bounded ? T + n - 1 : INF;
        bool was_empty = pend.empty();
        uint64_t first = was_empty ? INF : pend.begin()->first.tick;
        last_exec = INF; stop_req = false; in_run = true; cur_fg = 0; fired_in_group.clear();
        bool had_ghosts = any_cancel;
        if (bounded) S().run(n, exacting, measure); else S().run();
        in_run = false;
        uint64_t C = S().getCurrentTick();
        ctx.obs(C);
        VF_CHECK(ctx, !S().isRunning(), "still-running", "isRunning() after run()");
        VF_CHECK(ctx, C >= T, "time-backwards", "run() moved time from " << T << " to " << C);
        if (bounded) VF_CHECK(ctx, C <= T + n, "overran", "run(" << n << ") from " << T << " ended at " << C);
        for (auto &p : pend) {
            VF_CHECK(ctx, p.first.tick >= C, "lost-event", "e" << p.second.id << " pending for tick " << p.first.tick << " did not fire though time is now " << C);
            break;
        }
        if (last_exec != INF) VF_CHECK(ctx, C > last_exec, "time-backwards", "current tick " << C << " not past the last fired tick " << last_exec);
        if (stop_req) {
            VF_EQ(ctx, C, last_exec + 1, "stop-tick", "current tick after a requested stop");
        } else if (exacting) {
            VF_EQ(ctx, C, T + n, "exact-run", "current tick after an exacting run of " << n << " from " << T);
        } else if (bounded) {
            if (C != T + n) {
                // a bounded run may end early only if nothing continuing was left within the bound ...
                for (auto &p : pend) VF_CHECK(ctx, !p.second.cont || p.first.tick > bound_last, "ended-early",
                    "run(" << n << ") from " << T << " ended at " << C << " with e" << p.second.id << " pending for " << p.first.tick);
                if (last_exec == INF && !had_ghosts)
                    VF_CHECK(ctx, C == T && (was_empty || T + n < first), "no-op-run", "run(" << n << ") from " << T << " ended at " << C << " first event " << first);
                if (last_exec != INF && !realCont() && !any_cancel)
                    VF_EQ(ctx, C, last_exec + 1, "end-tick", "end of a run that ran out of continuing work");
                if (last_exec != INF) VF_CHECK(ctx, !realCont(), "ended-early", "run(" << n << ") from " << T << " ended at " << C << " with continuing work left");
            }
        } else {
            VF_CHECK(ctx, !realCont(), "ended-early", "unbounded run ended at " << C << " with continuing work pending");
            if (!any_cancel) {
                if (was_empty) VF_CHECK(ctx, C == T + 1 || C == T, "idle-run", "run() with nothing scheduled moved time from " << T << " to " << C);
                else VF_EQ(ctx, C, last_exec + 1, "end-tick", "end of an unbounded run");
            } else VF_CHECK(ctx, C == T || C == T + 1 || C == last_exec + 1 || ghosts.count(C - 1), "end-tick",
                            "unbounded run from " << T << " ended at " << C << ", a tick on which nothing was ever scheduled");
        }
        if (!any_cancel) {
            VF_EQ(ctx, S().nextEventTick(), pend.empty() ? Scheduler::INDEFINITE : pend.begin()->first.tick, "next-event", "nextEventTick() after run");
                if (last_exec != INF && !(exacting && stop_req)) VF_EQ(ctx, S().isFinished(), !realCont(), "isFinished", "isFinished() after run");
        } else if (!pend.empty())
            VF_CHECK(ctx, S().nextEventTick() <= pend.begin()->first.tick, "next-event", "nextEventTick() misses a pending event");
        if (pend.empty() && !any_cancel) { latest_ever = 0; }
        if (exacting) latest_ever = std::max(latest_ever, bound_last);
        if (exacting && stop_req) any_cancel = true;
        now = C;
        ctx.count("runs");
    }
};
} // namespace

VF_SECTION(history, 16000, 600000)
{
    auto e = std::make_unique<vf::Env>();
    World w(ctx);
    w.env = e.get();
    int n = 1 + ctx.rng.below(12);
    for (int i = 0; i < n; ++i) {
        w.evs.emplace_back(new World::Ev);
        auto &ev = *w.evs.back();
        ev.phase = ctx.rng.below(7);
        ev.fn.f = [&w, i] { w.onFire(i); };
        ev.dflt = ctx.rng.below(3);
        ev.node = vf::makeEvent<Event>(ev.phase, ev.sc, &e->es, "ev" + std::to_string(i), ev.fn.h(), ev.dflt);
        ev.cont = ctx.rng.chance(2, 3);
        ev.sc->setContinuing(ev.cont);
    }
    for (int i = 0; i < n; ++i) // a few precedences so that phases contain several groups
        for (int j = i + 1; j < n; ++j)
            if (w.evs[i]->phase == w.evs[j]->phase && ctx.rng.chance(1, 3)) w.evs[i]->sc->precedes(w.evs[j]->sc);
    {   // nothing can be scheduled or run before finalization
        VF_CHECK(ctx, vf::throws<SpartaException>([&] { w.evs[0]->sc->schedule(uint64_t(0)); }), "pre-finalize", "scheduling before finalization was accepted");
        VF_CHECK(ctx, vf::throws<SpartaException>([&] { e->sched.run(1); }), "pre-finalize", "run before finalization was accepted");
    }
    e->finalize();
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            if (w.evs[i]->phase < w.evs[j]->phase)
                VF_CHECK(ctx, w.evs[i]->sc->getGroupID() < w.evs[j]->sc->getGroupID(), "phase-groups", "phase order not reflected in groups");
    int steps = 4 + ctx.rng.below(14);
    for (int s = 0; s < steps; ++s) {
        int k = ctx.rng.below(6);
        while (k--) {
            unsigned r = ctx.rng.below(12);
            if (r < 8) w.doSchedule();
            else if (r < 10) w.doCancel();
            else w.doQuery();
        }
        if (ctx.rng.chance(1, 25)) {
            ctx.op("clearEvents"); ctx.count("clears");
            e->sched.clearEvents();
            w.pend.clear(); w.any_cancel = false; w.latest_ever = 0;
            VF_EQ(ctx, e->sched.nextEventTick(), Scheduler::INDEFINITE, "clear", "nextEventTick after clearEvents");
            VF_CHECK(ctx, e->sched.isFinished(), "clear", "not finished after clearEvents");
        } else if (ctx.rng.chance(1, 40)) {
            uint64_t t = ctx.rng.below(100);
            ctx.op([&](std::ostream &o) { o << "restartAt " << t; }); ctx.count("restarts");
            e->sched.restartAt(t);
            w.pend.clear(); w.any_cancel = false; w.latest_ever = 0; w.now = t; w.restarted = true;
            VF_EQ(ctx, e->sched.getCurrentTick(), t, "restart", "tick after restartAt");
        }
        w.budget = 40;
        w.run();
    }
    // drain: everything still pending must fire on an exacting run past the last tick
    if (!w.pend.empty()) {
        uint64_t last = w.pend.rbegin()->first.tick, T = e->sched.getCurrentTick();
        w.last_exec = INF; w.stop_req = false; w.in_run = true; w.bound_last = last + 3; w.exacting = true; w.budget = 0;
        e->sched.run(last + 4 - T, true, false);
        w.in_run = false;
        VF_CHECK(ctx, w.pend.empty(), "lost-event", w.pend.size() << " events never fired");
        VF_EQ(ctx, e->sched.getCurrentTick(), last + 4, "exact-run", "tick after drain");
    }
    for (size_t i = 0; i < w.evs.size(); ++i)
        if (!ctx.tally.count("clears") && !ctx.tally.count("restarts"))
            VF_EQ(ctx, w.evs[i]->fired + w.evs[i]->cancelled, w.evs[i]->scheduled, "conservation", "e" << i << " fired+cancelled vs scheduled");
    e->rtn.enterTeardown();
    for (auto &p : w.evs) delete p->node;
}
