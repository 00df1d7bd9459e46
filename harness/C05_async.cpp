// C05: events scheduled from other threads; conservation, order and thread of execution, under ASan and TSan.
#include "simenv.hpp"
#include "sparta/events/AsyncEvent.hpp"
#include <atomic>
#include <deque>
#include <mutex>
#include <condition_variable>
#include <thread>
using namespace sparta;
namespace {
struct AsyncIf { virtual ~AsyncIf() {} virtual void sched(uint64_t d) = 0; virtual void sched() = 0; virtual void cancel() = 0; virtual void cont(bool) = 0; };
template<SchedulingPhase P> struct AsyncOf : AsyncIf {
    AsyncEvent<P> ev;
    AsyncOf(TreeNode *es, const std::string &n, const SpartaHandler &h, Clock::Cycle d) : ev(es, n, h, d) {}
    void sched(uint64_t d) override { ev.schedule(Clock::Cycle(d)); }
    void sched() override { ev.schedule(); }
    void cancel() override { ev.cancel(); }
    void cont(bool c) override { ev.setContinuing(c); }
};
std::unique_ptr<AsyncIf> mk(unsigned ph, TreeNode *es, const std::string &n, const SpartaHandler &h, Clock::Cycle d)
{
#define P(X) case unsigned(SchedulingPhase::X): return std::unique_ptr<AsyncIf>(new AsyncOf<SchedulingPhase::X>(es, n, h, d));
    switch (ph) { P(Trigger) P(Update) P(PortUpdate) P(Flush) P(Collection) P(Tick) P(PostTick) }
#undef P
    throw vf::HarnessError("phase");
}
// What the simulation thread saw.
struct Seen { unsigned ev; uint64_t tick; };
} // namespace

// One thread: the asynchronous path used from handlers and between runs, against a list model.
VF_SECTION(serial, 3000, 60000)
{
    Quiet q;
    vf::Env env;
    const unsigned n = 1 + ctx.rng.below(6);
    std::vector<std::unique_ptr<vf::Fn>> fns; std::vector<std::unique_ptr<AsyncIf>> evs; std::vector<unsigned> phase, delay;
    std::vector<Seen> seen;
    uint64_t budget = 60 + ctx.rng.below(60);
    std::function<void()> churn;
    // A request is picked up when the next tick begins, never before.
    struct R { unsigned ev; uint64_t pick, rel; bool dead, fired; uint64_t lo, hi; };
    std::vector<R> all;
    const bool sparse = ctx.rng.chance(1, 3);
    std::string bad;
    auto match = [&](const Seen &s) {
        R *best = nullptr;
        for (auto &r : all) if (r.ev == s.ev && !r.dead && !r.fired && r.lo <= s.tick && s.tick <= r.hi && (!best || r.hi < best->hi)) best = &r;
        if (best) best->fired = true;
        else if (bad.empty()) bad = "a" + std::to_string(s.ev) + " executed at tick " + std::to_string(s.tick) + " without a request due there";
    };
    for (unsigned i = 0; i < n; ++i) {
        fns.emplace_back(new vf::Fn); phase.push_back(ctx.rng.below(7)); delay.push_back(ctx.rng.below(4));
        fns[i]->f = [&, i] {
            seen.push_back({i, env.sched.getCurrentTick()});
            if (!sparse) match(seen.back());
            ctx.obs(i * 4099 + env.sched.getCurrentTick()); if (ctx.rng.chance(1, 3)) churn();
        };
        evs.push_back(mk(phase[i], &env.es, "a" + std::to_string(i), fns[i]->h(), delay[i]));
        if (ctx.rng.chance(1, 4)) evs[i]->cont(false);
    }
    vf::Fn tickf;
    std::unique_ptr<Event<SchedulingPhase::Trigger>> tick;
    std::set<uint64_t> exec;                                     // ticks the ticker executed in
    bool inrun = false;
    tickf.f = [&] {
        exec.insert(env.sched.getCurrentTick());
        tick->schedule(sparse ? 1 + ctx.rng.below(3) : 1);
        if (ctx.rng.chance(1, 2)) churn();
    };
    tick.reset(new Event<SchedulingPhase::Trigger>(&env.es, "ticker", tickf.h()));
    uint64_t ncancel = 0;
    churn = [&] {
        unsigned k = 1 + ctx.rng.below(3);
        while (k--) {
            unsigned e = ctx.rng.below(n);
            if (budget == 0) return;
            --budget;
            const uint64_t pick = env.sched.getCurrentTick() + (inrun ? 1 : 0);
            if (!sparse && ctx.rng.chance(1, 10)) {
                evs[e]->cancel(); ++ncancel;
                ctx.op([&](std::ostream &o) { o << "cancel a" << e << " before " << pick; });
                for (auto &r : all) if (r.ev == e && !r.fired) r.dead = true;
                continue;
            }
            bool dflt = ctx.rng.chance(1, 2); uint64_t rel = dflt ? delay[e] : ctx.rng.below(5);
            ctx.op([&](std::ostream &o) { o << "async a" << e << " before " << pick << " +" << rel; });
            if (dflt) evs[e]->sched(); else evs[e]->sched(rel);
            all.push_back({e, pick, rel, false, false, pick + rel, pick + rel});
        }
    };
    env.finalize();
    tick->schedule(Clock::Cycle(0));
    if (ctx.rng.chance(1, 2)) churn();
    for (unsigned r = 0; r < 300 && (budget || r < 20); ++r) {
        inrun = true;
        if (ctx.rng.chance(1, 3)) env.sched.run(1, true); else env.sched.run(1 + ctx.rng.below(9), true);
        inrun = false;
        if (ctx.rng.chance(1, 4)) churn();
    }
    budget = 0; inrun = true;
    env.sched.run(20, true);
    uint64_t live = 0;
    for (auto &r : all) {
        auto d = exec.lower_bound(r.pick);
        VF_CHECK(ctx, d != exec.end(), "ticker", "the periodic event stopped");
        r.hi = *d + r.rel;                                       // any event's tick in between may pick it up
        if (!r.dead) ++live;
    }
    if (sparse) for (auto &s : seen) match(s);
    VF_CHECK(ctx, bad.empty(), "spurious", bad);
    for (auto &r : all) VF_CHECK(ctx, r.dead || r.fired, "lost", "request for a" << r.ev << " made before tick " << r.pick << " for +" << r.rel << " never executed");
    ctx.count("requests", all.size()); ctx.count("executions", seen.size()); ctx.count("cancels", ncancel); ctx.count("live", live);
}

// Producer threads against a running simulation.
VF_SECTION(threads, 260, 6000)
{
    Quiet q;
    vf::Env env;
    const unsigned nthr = 1 + ctx.rng.below(5), own = 1 + ctx.rng.below(3), shared = ctx.rng.below(3), per = 20 + ctx.rng.below(120);
    const unsigned n = nthr * own + shared;
    std::vector<std::unique_ptr<vf::Fn>> fns; std::vector<std::unique_ptr<AsyncIf>> evs; std::vector<unsigned> phase, delay;
    struct alignas(64) Cnt { std::atomic<uint64_t> begun{0}; uint64_t done = 0; };
    std::vector<Cnt> cnt(n);
    std::vector<Seen> seen; seen.reserve(nthr * per + 16);
    const auto me = std::this_thread::get_id();
    std::string bad, badkey;
    const unsigned oneph = ctx.rng.below(7), onedl = ctx.rng.below(3);
    const bool uniform = ctx.rng.chance(1, 2);
    for (unsigned i = 0; i < n; ++i) {
        fns.emplace_back(new vf::Fn);
        phase.push_back(uniform ? oneph : ctx.rng.below(7)); delay.push_back(uniform ? onedl : ctx.rng.below(4));
        fns[i]->f = [&, i] {
            if (std::this_thread::get_id() != me && bad.empty()) { badkey = "thread"; bad = "a handler ran on a scheduling thread"; }
            ++cnt[i].done; seen.push_back({i, env.sched.getCurrentTick()});
            if (cnt[i].done > cnt[i].begun.load() && bad.empty()) { badkey = "early"; bad = "event " + std::to_string(i) + " executed more often than it was scheduled"; }
        };
        evs.push_back(mk(phase[i], &env.es, "a" + std::to_string(i), fns[i]->h(), delay[i]));
    }
    vf::Fn tickf, noisef; std::atomic<uint64_t> simtick{0}; uint64_t nnoise = 0;
    std::unique_ptr<Event<SchedulingPhase::Trigger>> tick; std::unique_ptr<Event<SchedulingPhase::Tick>> noise;
    std::atomic<bool> stop{false};
    const unsigned spin = ctx.rng.of({0, 0, 20, 400});
    tickf.f = [&] {
        simtick.store(env.sched.getCurrentTick());
        tick->schedule(1); noise->schedule(Clock::Cycle(0)); if ((nnoise & 3) == 0) noise->schedule(2);
        for (volatile unsigned k = 0; k < spin; ++k) {}
    };
    noisef.f = [&] { ++nnoise; };
    tick.reset(new Event<SchedulingPhase::Trigger>(&env.es, "ticker", tickf.h()));
    noise.reset(new Event<SchedulingPhase::Tick>(&env.es, "noise", noisef.h()));
    env.finalize();
    tick->schedule(Clock::Cycle(0));
    struct Req { unsigned ev; uint64_t lo, hi, rel; };
    std::vector<std::vector<Req>> reqs(nthr);
    std::atomic<unsigned> ready{0}, live{nthr};
    std::vector<std::thread> th;
    std::vector<uint64_t> seeds; for (unsigned t = 0; t < nthr; ++t) seeds.push_back(ctx.rng.next());
    const bool pace = ctx.rng.chance(1, 3);
    for (unsigned t = 0; t < nthr; ++t) th.emplace_back([&, t] {
        vf::Rng r(seeds[t]); auto &rq = reqs[t]; rq.reserve(per);
        ready.fetch_add(1); while (ready.load() < nthr + 1) std::this_thread::yield();
        for (unsigned k = 0; k < per; ++k) {
            unsigned e = (shared && r.chance(1, 3)) ? nthr * own + r.below(shared) : t * own + r.below(own);
            bool dflt = uniform || r.chance(1, 2); uint64_t rel = dflt ? delay[e] : r.below(5);
            Req x{e, simtick.load(), 0, rel};
            cnt[e].begun.fetch_add(1);
            if (dflt) evs[e]->sched(); else evs[e]->sched(rel);
            x.hi = simtick.load(); rq.push_back(x);
            if (pace && r.chance(1, 4)) { uint64_t s = simtick.load(); for (int w = 0; w < 2000 && simtick.load() == s; ++w) std::this_thread::yield(); }
            else if (r.chance(1, 8)) std::this_thread::yield();
        }
        live.fetch_sub(1);
    });
    while (ready.load() < nthr) std::this_thread::yield();
    ready.fetch_add(1);
    const unsigned mode = ctx.rng.below(3);
    uint64_t guard = 0, runs = 0;
    while (live.load() && ++guard < 4000000) { env.sched.run(mode == 0 ? 1 : mode == 1 ? 7 : 200, true); ++runs; }
    for (auto &t : th) t.join();
    const uint64_t joined = env.sched.getCurrentTick();
    for (int k = 0; k < 12; ++k) env.sched.run(1, true);
    stop = true;
    VF_CHECK(ctx, bad.empty(), badkey.c_str(), bad);
    // Conservation per event.
    std::vector<uint64_t> total(n, 0);
    std::vector<std::vector<std::pair<uint64_t, uint64_t>>> win(n);    // earliest execution, latest is join+rel+1
    for (auto &rq : reqs) for (auto &x : rq) { ++total[x.ev]; win[x.ev].push_back({x.lo + x.rel, x.rel}); }
    std::vector<std::vector<uint64_t>> when(n);
    for (auto &s : seen) when[s.ev].push_back(s.tick);
    uint64_t sum = 0;
    for (unsigned i = 0; i < n; ++i) {
        VF_EQ(ctx, when[i].size(), total[i], "count", "executions of event " << i << " (phase " << phase[i] << ")");
        sum += total[i];
        // k-th earliest execution may not precede the k-th smallest lower bound
        std::vector<uint64_t> lo; for (auto &w : win[i]) lo.push_back(w.first);
        std::sort(lo.begin(), lo.end()); std::sort(when[i].begin(), when[i].end());
        for (size_t k = 0; k < lo.size(); ++k) VF_CHECK(ctx, when[i][k] >= lo[k], "too-early", "execution " << k << " of event " << i << " at tick " << when[i][k] << ", scheduled for no earlier than " << lo[k]);
        for (auto w : when[i]) VF_CHECK(ctx, w <= joined + 6, "too-late", "event " << i << " executed at " << w << ", scheduled by " << joined);
    }
    // With equal phase and delay a thread's own requests execute in the order it made them.
    if (uniform) {
        for (unsigned t = 0; t < nthr; ++t) {
            std::vector<unsigned> a, b;
            for (auto &x : reqs[t]) if (x.ev < nthr * own) a.push_back(x.ev);
            for (auto &s : seen) if (s.ev >= t * own && s.ev < (t + 1) * own) b.push_back(s.ev);
            VF_CHECK(ctx, a == b, "order", "events of thread " << t << " executed out of order");
        }
        ctx.count("order-checked");
    }
    // fingerprint of the interleaving: which tick took how many events
    { uint64_t lt = ~0ull, f = 0; std::map<uint64_t, unsigned> h; for (auto &s : seen) { ++h[s.tick]; (void)lt; (void)f; } for (auto &p : h) ctx.obs(p.first * 1000 + p.second); ctx.events += sum; }
    ctx.op([&](std::ostream &o) { o << nthr << " threads, " << n << " events, " << sum << " requests, " << runs << " runs, " << joined << " ticks"; });
    ctx.count("requests", sum); ctx.count("executions", seen.size()); ctx.count("ticks", joined);
    uint64_t mid = 0; for (auto &rq : reqs) for (auto &x : rq) if (x.lo > 0) ++mid; ctx.count("requests-while-running", mid);
}
