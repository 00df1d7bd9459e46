// C10: scoreboard and views against a model that applies every delivery at its predicted tick.
#include "simenv.hpp"
#include "sparta/resources/Scoreboard.hpp"
#include "sparta/simulation/ResourceTreeNode.hpp"
#include "sparta/simulation/ResourceFactory.hpp"
#include <deque>
#include <list>
using namespace sparta;
namespace {
using Mask = Scoreboard::RegisterBitMask;
constexpr unsigned UPD = unsigned(SchedulingPhase::Update);
struct Act { int kind = 0; uint64_t inst = 0; Mask bits; unsigned view = 0; int next = -1; };   // what a callback does when it fires
struct Fired { int cb; uint64_t tick; Mask bits; };
struct CbSpec { Mask need; uint64_t inst; unsigned view; Act act; };
struct World {
    vf::Ctx &ctx; unsigned nU; std::vector<std::vector<long>> lat; uint64_t period;
    std::vector<CbSpec> specs; 
    // ---- real side
    Scoreboard *sb = nullptr; std::vector<std::unique_ptr<ScoreboardView>> rv; std::vector<unsigned> unitOf;
    std::vector<Fired> real; std::function<uint64_t()> now;
    // ---- model
    struct MV { Mask ready; std::list<std::pair<int, bool>> cbs; };
    std::vector<MV> mv; Mask global{0xffffffff}; std::vector<Fired> model; uint64_t mnow = 0;
    struct Del { uint64_t tick; unsigned view; Mask bits; };
    std::deque<Del> inflight;
    World(vf::Ctx &c) : ctx(c) {}

    void rDo(const Act &a)
    {
        switch (a.kind) {
        case 1: rv[a.view]->clearCallbacks(a.inst); break;
        case 2: rv[a.view]->setReady(a.bits); break;
        case 3: sb->clearBits(a.bits); break;
        case 4: rReg(a.next); break;
        case 5: sb->set(a.bits); break;
        }
    }
    void rReg(int cb)
    {
        auto &s = specs[cb];
        rv[s.view]->registerReadyCallback(s.need, s.inst, [this, cb](const Mask &b) {
            VF_CHECK(ctx, rv[specs[cb].view]->isSet(specs[cb].need), "callback-not-ready", "callback " << cb << " fired although its registers are not ready");
            real.push_back({cb, now(), b}); if (real.size() > 20000) ctx.fail("callback-repeated", "callbacks fire without end"); Act a = specs[cb].act; rDo(a); });
    }
    void mReg(int cb) { mv[specs[cb].view].cbs.emplace_back(cb, true); }
    void mRecv(unsigned v, Mask b)
    {
        mv[v].ready |= b;
        bool again = true;
        while (again) {
            again = false;
            for (auto it = mv[v].cbs.begin(); it != mv[v].cbs.end(); ++it) {
                auto &s = specs[it->first];
                if ((mv[v].ready & s.need) == s.need) {
                    int cb = it->first; mv[v].cbs.erase(it); model.push_back({cb, mnow, b}); Act a = s.act; mDo(a); again = true; break;
                }
            }
        }
    }
    void mDo(const Act &a)
    {
        switch (a.kind) {
        case 1: mv[a.view].cbs.remove_if([&](auto &p) { return specs[p.first].inst == a.inst; }); break;
        case 2: if (a.bits.any()) mSetFrom(a.bits, unitOf[a.view]); break;
        case 3: global &= ~a.bits; for (auto &x : mv) x.ready &= ~a.bits; break;
        case 4: mReg(a.next); break;
        case 5: mSetAll(a.bits); break;
        }
    }
    void mSetFrom(Mask b, unsigned producer)
    {
        // views of one unit get it in the order they were made
        for (unsigned v = 0; v < mv.size(); ++v) {
            long l = lat[producer][unitOf[v]];
            if (l < 0) continue;
            if (l == 0) mRecv(v, b); else inflight.push_back({mnow + l * period, v, b});
        }
        global |= b;
    }
    void mSetAll(Mask b)
    {
        for (unsigned u = 0; u < nU; ++u) for (unsigned v = 0; v < mv.size(); ++v) if (unitOf[v] == u) mRecv(v, b);
        global |= b;
    }
    // apply everything delivered before the given point
    void advance(uint64_t tick, bool updDone)
    {
        for (;;) {
            auto best = inflight.end();
            for (auto it = inflight.begin(); it != inflight.end(); ++it)
                if ((it->tick < tick || (it->tick == tick && updDone)) && (best == inflight.end() || it->tick < best->tick)) best = it;
            if (best == inflight.end()) break;
            Del d = *best; inflight.erase(best); mnow = d.tick; mRecv(d.view, d.bits);
        }
        mnow = tick;
    }
    void compare(const char *when)
    {
        for (size_t i = 0; i < std::min(real.size(), model.size()); ++i) {
            VF_EQ(ctx, real[i].cb, model[i].cb, "callback-order", "which callback fired as number " << i << " " << when << " (tick " << real[i].tick << " vs " << model[i].tick << ")");
            VF_EQ(ctx, real[i].tick, model[i].tick, "callback-tick", "tick at which callback " << real[i].cb << " fired");
            VF_EQ(ctx, real[i].bits, model[i].bits, "callback-bits", "registers given to callback " << real[i].cb);
        }
        if (real.size() > model.size()) ctx.fail("callback-extra", "callback " + std::to_string(real[model.size()].cb) + " fired unexpectedly at tick " + std::to_string(real[model.size()].tick));
        if (real.size() < model.size()) ctx.fail("callback-missing", "callback " + std::to_string(model[real.size()].cb) + " was to fire at tick " + std::to_string(model[real.size()].tick) + " and did not");
        for (unsigned v = 0; v < mv.size(); ++v) {
            VF_CHECK(ctx, rv[v]->isSet(mv[v].ready), "view-missing", "a register is not ready in view " << v << " of unit " << unitOf[v] << " " << when << " tick " << mnow << " ready " << printBitSet(mv[v].ready));
            for (unsigned b = 0; b < Scoreboard::MAX_REGISTERS; ++b) if (!mv[v].ready[b] && (b < 48 || b % 61 == mnow % 61 || b > 500)) {
                Mask one; one.set(b); VF_CHECK(ctx, !rv[v]->isSet(one), "view-early", "register " << b << " is ready in view " << v << " of unit " << unitOf[v] << " " << when << " tick " << mnow); }
            ctx.obs(mv[v].ready.count() * 131 + v);
        }
        VF_CHECK(ctx, sb->isSet(global), "master-missing", "master lacks a register " << when);
        for (unsigned b = 0; b < 64; ++b) if (!global[b]) { Mask one; one.set(b); VF_CHECK(ctx, !sb->isSet(one), "master-early", "master has register " << b << " " << when); }
        Mask two = mv.empty() ? global : mv[0].ready; (void)two;
        ctx.obs(real.size());
    }
};
Mask rmask(vf::Ctx &ctx, unsigned regs, unsigned maxn)
{
    Mask m; unsigned n = 1 + ctx.rng.below(maxn);
    while (n--) m.set(ctx.rng.chance(1, 40) ? 500 + ctx.rng.below(12) : 26 + ctx.rng.below(regs));
    return m;
}
} // namespace

VF_SECTION(scoreboard, 7000, 180000)
{
    Quiet q;
    const unsigned nU = 1 + ctx.rng.below(5), regs = ctx.rng.of({6, 12, 40});
    vf::Multi m({{uint32_t(1 + ctx.rng.below(4)), uint32_t(1 + ctx.rng.below(4))}});
    const unsigned ck = ctx.rng.below(2), dk = ctx.rng.below(2);
    World w(ctx); w.nU = nU; w.period = m.period[ck]; w.now = [&] { return m.now(); };
    TreeNode core(m.nodes[ck].get(), "core", "core");
    ResourceFactory<Scoreboard, Scoreboard::ScoreboardParameters> fact;
    Scoreboard::ScoreboardParameters::LatencyMatrixParameterType mat(nU + 1, std::vector<std::string>(nU + 1));
    std::vector<std::string> names;
    for (unsigned i = 0; i < nU; ++i) names.push_back(std::string(1, char('A' + (7 * i + 3) % 26)) + "U" + std::to_string(i));
    w.lat.assign(nU, std::vector<long>(nU));
    for (unsigned i = 0; i < nU; ++i) { mat[0][i + 1] = names[i]; mat[i + 1][0] = names[i]; }
    for (unsigned i = 0; i < nU; ++i) for (unsigned j = 0; j < nU; ++j) {
        long l = ctx.rng.chance(1, 6) ? -1 : ctx.rng.chance(1, 3) ? 0 : ctx.rng.range(1, ctx.rng.of({2, 4, 11}));
        w.lat[i][j] = l; std::ostringstream o; if (l >= 0 && ctx.rng.chance(1, 5)) o << "0x" << std::hex << l; else o << l;
        mat[i + 1][j + 1] = o.str();
        ctx.op([&](auto &o2) { o2 << "latency " << names[i] << "->" << names[j] << " = " << mat[i + 1][j + 1]; });
    }
    // a second scoreboard with the same units, never written: nothing may leak into it
    ResourceTreeNode sn(&core, "sb_int", TreeNode::GROUP_NAME_NONE, TreeNode::GROUP_IDX_NONE, "sb", &fact);
    ResourceTreeNode sn2(&core, "sb_flt", TreeNode::GROUP_NAME_NONE, TreeNode::GROUP_IDX_NONE, "sb", &fact);
    for (auto *n : {&sn, &sn2}) dynamic_cast<Scoreboard::ScoreboardParameters *>(n->getParameterSet())->latency_matrix = mat;

    const unsigned deep = ctx.rng.below(3);
    auto mkView = [&](unsigned u) {
        TreeNode *from = deep == 0 ? (TreeNode *)&core : deep == 1 ? (TreeNode *)m.nodes[ck].get() : (TreeNode *)&m.rtn;
        w.unitOf.push_back(u); w.rv.emplace_back(new ScoreboardView(names[u], "sb_int", from));
        World::MV v; v.ready = w.global; w.mv.push_back(v);
        VF_EQ(ctx, w.rv.back()->getName(), names[u], "name", "view name"); VF_EQ(ctx, w.rv.back()->getType(), std::string("sb_int"), "name", "view type");
        ctx.op([&](auto &o) { o << m.now() << " view " << w.rv.size() - 1 << " of unit " << u; });
    };
    unsigned budget = 15 + ctx.rng.below(40); const unsigned density = ctx.rng.of({1, 2, 4});
    unsigned maxSpecs = 5 + ctx.rng.below(120); int lastFree = -1; (void)lastFree;
    auto newSpec = [&](auto &&self, unsigned depth) -> int {
        CbSpec s; s.need = rmask(ctx, regs, 3); if (ctx.rng.chance(1, 12)) s.need.reset(); s.inst = ctx.rng.below(6); s.view = ctx.rng.below(w.rv.size());
        if (depth < 3 && ctx.rng.chance(2, 5)) {
            s.act.kind = 1 + ctx.rng.below(5); s.act.inst = ctx.rng.chance(1, 2) ? s.inst : ctx.rng.below(6); s.act.bits = rmask(ctx, regs, 3);
            s.act.view = ctx.rng.chance(1, 2) ? s.view : ctx.rng.below(w.rv.size());
            if (s.act.kind == 4) s.act.next = self(self, depth + 1);
        }
        w.specs.push_back(s); return int(w.specs.size()) - 1;
    };
    auto opOnce = [&] {
        if (w.inflight.size() > 400) return;     // the payload event allows 1100 outstanding deliveries
        Act a; a.bits = rmask(ctx, regs, 4); a.view = w.rv.empty() ? 0 : ctx.rng.below(w.rv.size());
        const unsigned r = ctx.rng.below(20);
        if (r < 7 && !w.rv.empty()) a.kind = 2;
        else if (r < 9) a.kind = 5;
        else if (r < 12) a.kind = 3;
        else if (r < 13 && !w.rv.empty()) { a.kind = 1; a.inst = ctx.rng.below(6); }
        else if (r < 14 && w.rv.size() < 8) { mkView(ctx.rng.below(nU)); return; }
        else if (r < 15) { unsigned p = ctx.rng.below(nU); ctx.op([&](auto &o) { o << m.now() << " set from " << p << printBitSet(a.bits); }); w.sb->set(a.bits, p); w.mSetFrom(a.bits, p); return; }
        else if (r < 16 && !w.rv.empty()) { w.rv[a.view]->setReady(Mask()); return; }
        else if (r < 17 && ctx.rng.chance(1, 6)) { a.kind = 3; a.bits.set(); }
        else if (!w.rv.empty() && w.specs.size() < maxSpecs) { a.kind = 4; a.next = newSpec(newSpec, 0); }
        else return;
        ctx.op([&](auto &o) { o << m.now() << " op " << a.kind << " view " << a.view << " inst " << a.inst << " bits " << printBitSet(a.bits); if (a.kind == 4) o << " callback " << a.next << " of view " << w.specs[a.next].view << " needs " << printBitSet(w.specs[a.next].need) << " inst " << w.specs[a.next].inst << " does " << w.specs[a.next].act.kind << " view " << w.specs[a.next].act.view << printBitSet(w.specs[a.next].act.bits); });
        w.rDo(a); w.mDo(a);
    };
    std::vector<std::unique_ptr<vf::Fn>> fn; std::vector<Scheduleable *> sc; std::vector<std::unique_ptr<TreeNode>> keep;
    bool started = false;
    for (unsigned ph = 0; ph < NUM_SCHEDULING_PHASES; ++ph) {
        if (ph == UPD) continue;
        fn.emplace_back(new vf::Fn); fn.back()->f = [&, ph] {
            started = true;
            if (ph == 0 && budget) { --budget; for (auto *s : sc) s->schedule(Clock::Cycle(1)); }
            w.advance(m.now(), ph > UPD); w.compare("at an observation");
            for (unsigned k = ctx.rng.below(density + 1); k--;) { opOnce(); w.compare("after an operation"); }
        };
        Scheduleable *s = nullptr;
        keep.emplace_back(vf::makeEvent<Event>(ph, s, m.sets[dk].get(), "drv" + std::to_string(ph), fn.back()->h()));
        sc.push_back(s);
    }
    m.finalize();
    w.sb = sn.getResourceAs<Scoreboard *>();
    const unsigned early = ctx.rng.below(5); for (unsigned i = 0; i < early; ++i) mkView(ctx.rng.below(nU));
    ScoreboardView other(names[0], "sb_flt", &core); const Mask firsts(0xffffffff);
    VF_CHECK(ctx, (nU < 2 || !ctx.rng.chance(1, 30)) || vf::throws<SpartaException>([&] { ScoreboardView bad("nobody", "sb_int", &core); }), "unknown-unit", "a view of an unlisted unit was accepted");
    // observation ticks of a driver on the other clock are phase aligned with its own clock only
    for (auto *s : sc) s->schedule(Clock::Cycle(1 + ctx.rng.below(1)));
    m.sched.run(m.period[dk] * (budget + 10) + m.period[ck] * 30, true, false);
    VF_CHECK(ctx, started && !budget, "harness", "driver did not finish");
    w.advance(m.now(), true); w.compare("at the end");
    Mask ob; for (unsigned b = 0; b < 64; ++b) { Mask one; one.set(b); ob[b] = other.isSet(one); }
    VF_CHECK(ctx, ob == firsts, "isolation", "another scoreboard changed");
    ctx.count("callbacks fired", w.real.size());
    m.rtn.enterTeardown();
}

VF_SECTION(print, 4000, 60000)
{
    Mask b; unsigned n = ctx.rng.below(20);
    while (n--) { unsigned s = ctx.rng.chance(1, 4) ? 490 + ctx.rng.below(22) : ctx.rng.below(512), l = 1 + ctx.rng.below(ctx.rng.of({1, 3, 60})); for (unsigned i = s; i < s + l && i < 512; ++i) b.set(i); }
    std::string want = "["; bool first = true;
    for (unsigned i = 0; i < 512;) { if (!b[i]) { ++i; continue; } unsigned j = i; while (j < 512 && b[j]) ++j; if (!first) want += ","; first = false; want += std::to_string(i); if (j - i > 1) want += "-" + std::to_string(j - 1); i = j; }
    VF_EQ(ctx, printBitSet(b), want + "]", "print", "printed register set"); ctx.obs(want);
}
