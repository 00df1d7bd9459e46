// C04: clock trees against exact rational arithmetic (128-bit), edges observed by running events.
#include "simenv.hpp"
#include "sparta/events/PhasedUniqueEvent.hpp"
#include "sparta/events/PhasedPayloadEvent.hpp"
#include <numeric>
using namespace sparta;
namespace {
typedef unsigned __int128 u128;
u128 gcd128(u128 a, u128 b) { while (b) { u128 t = a % b; a = b; b = t; } return a; }
struct Spec { int parent; uint32_t p, c; u128 n, d; };   // n/d: period relative to the root's
const u128 LIM = u128(1) << 32;

// Draws a tree whose exact arithmetic stays within the documented 32-bit period type.
bool draw(vf::Ctx &ctx, std::vector<Spec> &v, u128 &norm)
{
    v.clear(); v.push_back({-1, 1, 1, 1, 1});
    unsigned n = ctx.rng.below(9), big = ctx.rng.of({3, 6, 12, 40, 1000, 100000});
    for (unsigned i = 0; i < n; ++i) {
        Spec s; s.parent = ctx.rng.chance(1, 2) ? int(v.size()) - 1 : int(ctx.rng.below(v.size()));
        s.p = 1 + ctx.rng.below(big); s.c = 1 + ctx.rng.below(big);
        if (ctx.rng.chance(1, 4)) s.c = s.p * (1 + ctx.rng.below(4));
        if (ctx.rng.chance(1, 4)) s.p = s.c * (1 + ctx.rng.below(4));
        u128 g = gcd128(s.p, s.c);
        const Spec &par = v[s.parent];
        s.n = par.n * (s.c / g); s.d = par.d * (s.p / g);
        if (s.n >= LIM || s.d >= LIM) return false;
        g = gcd128(s.n, s.d); s.n /= g; s.d /= g;
        v.push_back(s);
    }
    norm = 1;
    for (auto &s : v) { norm = norm / gcd128(norm, s.d) * s.d; if (norm >= LIM) return false; }
    for (auto &s : v) if (s.n * norm >= LIM) return false;
    return true;
}
} // namespace

VF_SECTION(tree, 8000, 150000)
{
    Quiet q;
    std::vector<Spec> sp; u128 norm = 0;
    for (int t = 0; t < 50 && !draw(ctx, sp, norm); ++t) sp.clear();
    if (sp.empty()) { sp.push_back({-1, 1, 1, 1, 1}); norm = 1; }
    Scheduler sched("sched");
    RootTreeNode rtn("top");
    ClockManager cm(&sched);
    std::vector<Clock::Handle> ck;
    ck.push_back(cm.makeRoot(&rtn, "root_clk"));
    for (size_t i = 1; i < sp.size(); ++i) {
        const std::string name = "c" + std::to_string(i);
        if (sp[i].p == 1 && sp[i].c == 1 && ctx.rng.chance(1, 2)) ck.push_back(cm.makeClock(name, ck[sp[i].parent]));
        else if (ctx.rng.chance(1, 4)) { ck.push_back(cm.makeClock(name, ck[sp[i].parent], 7, 3)); ck.back()->setRatio(sp[i].p, sp[i].c); ctx.count("setRatio"); }
        else ck.push_back(cm.makeClock(name, ck[sp[i].parent], sp[i].p, sp[i].c));
    }
    auto got = cm.normalize();
    ctx.op([&](std::ostream &o) { o << sp.size() << " clocks, norm " << got; });
    VF_EQ(ctx, uint64_t(got), uint64_t(norm), "norm", "scale of the clock tree");
    std::vector<uint64_t> per;
    for (size_t i = 0; i < sp.size(); ++i) {
        const uint64_t p = ck[i]->getPeriod();
        ctx.obs(p * 131 + i);
        VF_EQ(ctx, u128(p) * sp[i].d == norm * sp[i].n, true, "period", "period " << p << " of clock " << i << " is not scale " << uint64_t(norm) << " * " << uint64_t(sp[i].n) << "/" << uint64_t(sp[i].d));
        if (i) {
            VF_CHECK(ctx, u128(p) * sp[i].p == u128(ck[sp[i].parent]->getPeriod()) * sp[i].c, "ratio", "period ratio of clock " << i << " to its parent");
            auto r = ck[i]->getRatio();
            VF_CHECK(ctx, u128(r.getNumerator()) * sp[i].c == u128(r.getDenominator()) * sp[i].p, "ratio", "getRatio of clock " << i);
        }
        per.push_back(p);
        VF_CHECK(ctx, ck[i]->stringize(false).find("period=" + std::to_string(p)) != std::string::npos, "print", "stringize " << ck[i]->stringize(false));
        // pure conversions
        for (int k = 0; k < 6; ++k) {
            uint64_t cyc = ctx.rng.of<uint64_t>({0, 1, 2, ctx.rng.below(1000), ctx.rng.below(1ull << 31)});
            uint64_t tick = ctx.rng.of<uint64_t>({0, p - 1, p, p + 1, ctx.rng.below(1ull << 62), cyc * p, cyc * p + p - 1});
            VF_EQ(ctx, ck[i]->getTick(Clock::Cycle(cyc)), cyc * p, "conv", "getTick(" << cyc << ")");
            VF_EQ(ctx, ck[i]->getCycle(tick), tick / p, "conv", "getCycle(" << tick << ")");
            VF_EQ(ctx, ck[i]->getCycle(ck[i]->getTick(Clock::Cycle(cyc))), cyc, "conv", "round trip of cycle " << cyc);
            if (cyc) VF_EQ(ctx, ck[i]->getAbsoluteTick(cyc), (cyc - 1) * p, "conv", "getAbsoluteTick(" << cyc << ")");
            double dc = double(ctx.rng.below(4000)) / 4.0;    // exact in binary
            VF_EQ(ctx, ck[i]->getTick(dc), uint64_t(dc * double(p)), "conv", "getTick(double " << dc << ")");
            ctx.events += 4;
        }
    }
    // run events on the edges of these clocks and check what the clocks say while they run
    uint64_t maxp = *std::max_element(per.begin(), per.end());
    rtn.setClock(ck[0].get());
    {
    TreeNode node(&rtn, "n", "n");
    EventSet es(&node);
    std::vector<std::unique_ptr<vf::Fn>> fn; std::vector<std::unique_ptr<PhasedPayloadEvent<uint64_t>>> ev;
    vf::Fn1<uint64_t> f1; uint64_t outstanding = 0, budget = 60; uint64_t last = 0;
    PhasedPayloadEvent<uint64_t> pe(&es, "pe", SchedulingPhase::Tick, f1.h());
    auto send = [&] {
        unsigned i = ctx.rng.below(ck.size());
        uint64_t d = 1 + ctx.rng.below(6), t = sched.getCurrentTick() + d * per[i];
        auto h = pe.preparePayload(t);
        h->schedule(Clock::Cycle(d), ck[i].get()); ++outstanding;
    };
    auto sample = [&](uint64_t t) {
        for (size_t i = 0; i < ck.size(); ++i) {
            VF_EQ(ctx, ck[i]->currentTick(), t, "now", "currentTick");
            VF_EQ(ctx, ck[i]->currentCycle(), t / per[i], "now", "currentCycle of clock with period " << per[i] << " at tick " << t);
            VF_EQ(ctx, ck[i]->isPosedge(), t % per[i] == 0, "now", "isPosedge of clock with period " << per[i] << " at tick " << t);
            VF_EQ(ctx, ck[i]->getCyclesROCounter().get(), t / per[i], "now", "cycles counter");
            ctx.obs(t + i); if (t % per[i] == 0) ctx.count("posedge");
        }
        unsigned a = ctx.rng.below(ck.size()), b = ctx.rng.below(ck.size());
        // clock crossing
        uint64_t sd = ctx.rng.below(4) * per[a], dd = ctx.rng.below(4) * per[b];
        if (ctx.rng.chance(1, 4)) { sd = ctx.rng.below(3 * maxp); dd = ctx.rng.below(3 * maxp); }
        if (t % per[a] == 0) {
            uint64_t want = t + sd + dd; want = (want + per[b] - 1) / per[b] * per[b];
            VF_EQ(ctx, calculateClockCrossingDelay(sd, ck[a].get(), dd, ck[b].get()), want - t, "crossing", "crossing delay at " << t << " periods " << per[a] << "->" << per[b] << " delays " << sd << "," << dd);
            ctx.count("crossing");
        } else {
            VF_CHECK(ctx, vf::throws<SpartaException>([&] { calculateClockCrossingDelay(sd, ck[a].get(), dd, ck[b].get()); }), "crossing", "crossing from off the source edge must be rejected");
            ctx.count("crossing-rejected");
        }
        uint64_t arr = (1 + ctx.rng.below(20)) * per[b];
        if (arr >= sd + dd) {
            uint64_t sent = (arr - sd - dd) / per[a] * per[a];
            VF_EQ(ctx, calculateReverseClockCrossingDelay(arr, sd, ck[a].get(), dd, ck[b].get()), arr - sent, "crossing", "reverse crossing");
            if (per[b] > 1) VF_CHECK(ctx, vf::throws<SpartaException>([&] { calculateReverseClockCrossingDelay(arr + 1 + ctx.rng.below(per[b] - 1), sd, ck[a].get(), dd, ck[b].get()); }), "crossing", "reverse crossing to off the destination edge must be rejected");
        }
    };
    f1.f = [&](const uint64_t &t) {
        VF_EQ(ctx, sched.getCurrentTick(), t, "event-tick", "event scheduled in cycles of a clock");
        VF_CHECK(ctx, t >= last, "event-tick", "time went backwards"); last = t; --outstanding;
        for (size_t i = 0; i < ck.size(); ++i)
            VF_EQ(ctx, ck[i]->elapsedCycles(), t / per[i], "elapsed", "elapsedCycles of clock with period " << per[i] << " at tick " << t);
        sample(t);
        if (budget) { --budget; send(); if (outstanding < 6 && ctx.rng.chance(1, 3)) send(); }
    };
    rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
    sched.run(1, true);
    send(); send();
    for (unsigned k = 0; k < 4; ++k) { sched.run(1 + ctx.rng.below(4 * maxp), true); sample(sched.getCurrentTick()); }
    budget = std::min<uint64_t>(budget, 10);
    sched.run();
    VF_EQ(ctx, outstanding, uint64_t(0), "event-tick", "events never fired");
    rtn.enterTeardown();
    }
    ctx.count("clocks", ck.size());
}

VF_SECTION(frequency, 4000, 60000)
{
    Quiet q;
    Scheduler sched("sched");
    RootTreeNode rtn("top");
    ClockManager cm(&sched);
    auto root = cm.makeRoot(&rtn, "root_clk");
    std::vector<Clock::Handle> ck; std::vector<double> mhz;
    unsigned n = 1 + ctx.rng.below(6);
    for (unsigned i = 0; i < n; ++i) {
        double f = ctx.rng.of<double>({1000.0, 500.0, 250.0, 2000.0, 1e6, 1.0, 333.0, 3200.0, double(1 + ctx.rng.below(1000000)), double(1 + ctx.rng.below(100000)) / 16.0});
        mhz.push_back(f);
        ck.push_back(cm.makeClock("c" + std::to_string(i), i && ctx.rng.chance(1, 2) ? ctx.rng.pick(ck) : root, f));
    }
    bool mixed = ctx.rng.chance(1, 8);
    if (mixed) { cm.makeClock("plain", root, 2, 3); VF_CHECK(ctx, vf::throws<SpartaException>([&] { cm.normalize(); }), "mixed", "a ratio clock among frequency clocks must be rejected"); ctx.count("mixed-rejected"); ctx.obs(1); return; }
    cm.normalize();
    VF_EQ(ctx, root->getPeriod(), 1u, "root", "period of the master clock");
    for (unsigned i = 0; i < n; ++i) {
        VF_EQ(ctx, ck[i]->getFrequencyMhz(), mhz[i], "freq", "getFrequencyMhz");
        // one tick is a picosecond: the period is the whole number of ticks in one cycle
        long double exact = 1e6L / (long double)mhz[i];
        long double p = ck[i]->getPeriod();
        VF_CHECK(ctx, p <= exact + 1e-6L && p > exact - 1.0L - 1e-6L, "period", "period " << p << " for " << mhz[i] << " MHz, exact " << exact);
        VF_EQ(ctx, uint64_t(ck[i]->getPeriod()), ClockManager::getClockPeriodFromFrequencyMhz(mhz[i]), "period", "period of " << mhz[i] << " MHz");
        ctx.obs(ck[i]->getPeriod()); ctx.count("freq-clock");
        uint64_t P = ck[i]->getPeriod(), c = ctx.rng.below(100000);
        if (P) { VF_EQ(ctx, ck[i]->getCycle(ck[i]->getTick(Clock::Cycle(c)) + ctx.rng.below(P)), c, "conv", "cycle round trip"); }
    }
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j)
        if (mhz[i] <= mhz[j]) VF_CHECK(ctx, ck[i]->getPeriod() >= ck[j]->getPeriod(), "period", "slower clock with a shorter period");
}
