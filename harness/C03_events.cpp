// C03: contracts of the event kinds.  A reference model keeps, for every event, the set of ticks
// on which it must still fire; each firing and each query is compared with it as it happens.
#include "simenv.hpp"
#include "sparta/events/GlobalEvent.hpp"
#include "sparta/events/StartupEvent.hpp"
#include "sparta/events/PhasedUniqueEvent.hpp"
#include "sparta/events/PhasedSingleCycleUniqueEvent.hpp"
#include "sparta/events/PhasedPayloadEvent.hpp"
#include <deque>
using namespace sparta;
namespace {
const char *const PN[] = {"Trigger", "Update", "PortUpdate", "Flush", "Collection", "Tick", "PostTick"};

// A scheduler and a few nodes on clocks of different periods.
struct Multi {
    Scheduler sched;
    ClockManager cm;
    RootTreeNode rtn;
    std::vector<Clock::Handle> clks;
    std::vector<uint64_t> period;
    std::vector<std::unique_ptr<TreeNode>> nodes;
    std::vector<std::unique_ptr<EventSet>> sets;
    Multi(vf::Ctx &ctx) : sched("sched"), cm(&sched), rtn("top")
    {
        auto root = cm.makeRoot(&rtn, "root_clk");
        clks.push_back(root);
        unsigned n = 1 + ctx.rng.below(3);
        for (unsigned i = 0; i < n; ++i)
            clks.push_back(cm.makeClock("c" + std::to_string(i), root, 1 + ctx.rng.below(4), 1 + ctx.rng.below(4)));
        cm.normalize();
        rtn.setClock(root.get());
        for (size_t i = 0; i < clks.size(); ++i) {
            period.push_back(clks[i]->getPeriod());
            nodes.emplace_back(new TreeNode(&rtn, "n" + std::to_string(i), "node"));
            nodes.back()->setClock(clks[i].get());
            sets.emplace_back(new EventSet(nodes.back().get()));
        }
    }
    void finalize() { rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize(); }
    ~Multi() { rtn.enterTeardown(); }
    uint64_t now() { return sched.getCurrentTick(); }
};

struct Tok {
    static int64_t live;
    static std::set<const Tok *> alive;
    uint64_t id; unsigned val; uint64_t chk; const Tok *self;
    Tok(uint64_t i, unsigned v) : id(i), val(v), chk(vf::mix64(i * 31 + v)), self(this) { ++live; alive.insert(this); }
    Tok(const Tok &o) : id(o.id), val(o.val), chk(o.chk), self(this) { ++live; alive.insert(this); }
    Tok &operator=(const Tok &o) { id = o.id; val = o.val; chk = o.chk; return *this; }
    ~Tok() { --live; alive.erase(this); chk = 0; }
    bool ok() const { return alive.count(this) && self == this && chk == vf::mix64(id * 31 + val); }
    bool operator==(const Tok &o) const { return val == o.val; }
};
int64_t Tok::live = 0;
std::set<const Tok *> Tok::alive;

struct Run {      // shared "run in pieces" driver
    static void drive(vf::Ctx &ctx, Multi &m, std::function<void()> outside, std::function<uint64_t()> oldest)
    {
        unsigned steps = 4 + ctx.rng.below(8);
        m.sched.run(1, true);                  // tick 0: startup handlers, first tick
        for (unsigned s = 0; s < steps; ++s) {
            unsigned k = ctx.rng.below(5);
            for (unsigned i = 0; i < k; ++i) outside();
            uint64_t n = 1 + ctx.rng.below(9);
            uint64_t t0 = m.now();
            m.sched.run(n, true);
            VF_EQ(ctx, m.now(), t0 + n, "run-length", "bounded exacting run");
            VF_CHECK(ctx, oldest() >= m.now(), "lost", "an event due at tick " << oldest() << " did not fire; now " << m.now());
        }
        for (unsigned g = 0; g < 60 && oldest() != ~0ull; ++g) {
            m.sched.run(50, true);
            VF_CHECK(ctx, oldest() >= m.now(), "lost", "an event due at tick " << oldest() << " did not fire; now " << m.now());
        }
        VF_EQ(ctx, oldest(), ~0ull, "lost", "left over");
    }
};
uint64_t pickDelay(vf::Ctx &ctx) { return ctx.rng.of<uint64_t>({0, 0, 1, 1, 2, 3, 5, 8, ctx.rng.below(20)}); }
} // namespace

// ------------------------------------------------------------------ unique events
VF_SECTION(unique, 5000, 80000)
{
    Quiet q;
    Multi m(ctx);
    struct U { vf::Fn fn; std::unique_ptr<PhasedUniqueEvent> ev; unsigned node, phase; std::set<uint64_t> pend; uint64_t last = ~0ull; uint64_t dflt; };
    std::vector<std::unique_ptr<U>> us;
    int cur = -1, budget = 150;
    unsigned n = 1 + ctx.rng.below(4);
    std::function<void(bool)> act;
    for (unsigned i = 0; i < n; ++i) {
        auto u = std::make_unique<U>();
        u->node = ctx.rng.below(m.nodes.size()); u->phase = ctx.rng.below(7); u->dflt = ctx.rng.below(3);
        U *p = u.get();
        u->fn.f = [&, p, i] {
            VF_CHECK(ctx, p->pend.count(m.now()), "spurious", "unique event fired at " << m.now() << " though not due");
            VF_CHECK(ctx, p->last != m.now(), "twice", "unique event fired twice at tick " << m.now());
            VF_EQ(ctx, int(m.sched.getCurrentSchedulingPhase()), int(p->phase), "phase", "phase of firing");
            p->pend.erase(m.now()); p->last = m.now();
            ctx.obs(m.now() * 8 + i); ctx.count("fired");
            if (!p->pend.empty()) VF_CHECK(ctx, p->ev->isScheduled(), "query", "isScheduled inside own handler");
            int save = cur; cur = i;
            unsigned k = ctx.rng.below(3);
            for (unsigned j = 0; j < k; ++j) act(true);
            cur = save;
        };
        u->ev.reset(new PhasedUniqueEvent(m.sets[u->node].get(), "u" + std::to_string(i), SchedulingPhase(u->phase), u->fn.h(), u->dflt));
        us.push_back(std::move(u));
    }
    act = [&](bool in) {
        if (in && --budget < 0) return;
        unsigned i = ctx.rng.below(us.size());
        U &u = *us[i];
        unsigned what = ctx.rng.below(10);
        if (what < 6) {
            uint64_t d; unsigned how = ctx.rng.below(3); uint64_t per = m.period[u.node];
            if (how == 0) d = u.dflt; else d = pickDelay(ctx);
            unsigned oc = ctx.rng.below(m.clks.size());
            if (how == 2) per = m.period[oc];
            uint64_t t = m.now() + d * per;
            auto go = [&] { if (how == 0) u.ev->schedule(); else if (how == 1) u.ev->schedule(Clock::Cycle(d)); else u.ev->schedule(Clock::Cycle(d), m.clks[oc].get()); };
            bool past = in && t == m.now() && u.phase < us[cur]->phase;
            bool again = t == u.last;
            ctx.op([&](std::ostream &o) { o << (in ? " in " : "out ") << m.now() << " schedule u" << i << " for " << t; });
            if (again) { VF_CHECK(ctx, vf::throws<SpartaException>(go), "twice", "scheduling a unique event for a tick it already fired on must be rejected"); ctx.count("again-rejected"); return; }
            if (past) { if (u.pend.count(t)) return; VF_CHECK(ctx, vf::throws<SpartaException>(go), "past-phase", "zero-cycle schedule into a passed phase must be rejected"); return; }
            if (u.pend.count(t)) ctx.count("dup");
            go(); u.pend.insert(t);
            VF_CHECK(ctx, u.ev->isScheduled(), "query", "isScheduled false after scheduling");
        } else if (what < 7) {
            ctx.op([&](std::ostream &o) { o << m.now() << " cancel u" << i << " pending " << u.pend.size(); });
            u.ev->cancel(); ctx.count("cancelled", u.pend.size()); u.pend.clear();
            VF_CHECK(ctx, !u.ev->isScheduled(), "query", "isScheduled true after cancel");
        } else if (what < 8) {
            uint64_t d = pickDelay(ctx);
            u.ev->cancel(d); ctx.count("cancelled-rel", u.pend.erase(m.now() + d * m.period[u.node]));
        } else {
            // while the tick an event fired on is still executing it may be reported as scheduled "now"
            const bool now_fired = in && u.last == m.now();
            if (!now_fired) VF_EQ(ctx, u.ev->isScheduled(), !u.pend.empty(), "query", "isScheduled");
            for (int j = 0; j < 4; ++j) { uint64_t d = pickDelay(ctx); if (now_fired && d == 0) continue;
                VF_EQ(ctx, u.ev->isScheduled(d), u.pend.count(m.now() + d * m.period[u.node]) != 0, "query", "isScheduled(" << d << ") at " << m.now()); }
            ctx.count("query");
        }
    };
    m.finalize();
    for (unsigned k = ctx.rng.below(5); k > 0; --k) act(false);
    Run::drive(ctx, m, [&] { act(false); }, [&] { uint64_t o = ~0ull; for (auto &u : us) if (!u->pend.empty()) o = std::min(o, *u->pend.begin()); return o; });
}

// ------------------------------------------------------------------ single-cycle unique events
VF_SECTION(single_cycle, 5000, 80000)
{
    Quiet q;
    Multi m(ctx);
    struct U { vf::Fn fn; std::unique_ptr<PhasedSingleCycleUniqueEvent> ev; unsigned node, phase; std::set<uint64_t> pend; uint64_t last = ~0ull; };
    std::vector<std::unique_ptr<U>> us;
    std::vector<std::unique_ptr<vf::Fn>> dfn; std::vector<std::unique_ptr<PhasedUniqueEvent>> drv;
    int curphase = -1, curev = -1, budget = 200, cur_node = -1;
    unsigned n = 1 + ctx.rng.below(4);
    std::function<void(bool)> act;
    auto body = [&](int phase, int ev, int node) {
        int sp = curphase, se = curev, sn = cur_node; curphase = phase; curev = ev; cur_node = node;
        unsigned k = ctx.rng.below(4);
        for (unsigned j = 0; j < k; ++j) act(true);
        curphase = sp; curev = se; cur_node = sn;
    };
    for (unsigned i = 0; i < n; ++i) {
        auto u = std::make_unique<U>();
        u->node = ctx.rng.below(m.nodes.size()); u->phase = ctx.rng.below(7);
        U *p = u.get();
        u->fn.f = [&, p, i] {
            VF_CHECK(ctx, p->pend.count(m.now()), "spurious", "single-cycle event " << i << " fired at " << m.now() << " though not due");
            VF_CHECK(ctx, p->last != m.now(), "twice", "single-cycle event fired twice at tick " << m.now());
            VF_EQ(ctx, int(m.sched.getCurrentSchedulingPhase()), int(p->phase), "phase", "phase of firing");
            p->pend.erase(m.now()); p->last = m.now();
            ctx.obs(m.now() * 8 + i); ctx.count("fired");
            body(p->phase, i, p->node);
        };
        u->ev.reset(new PhasedSingleCycleUniqueEvent(m.sets[u->node].get(), "u" + std::to_string(i), SchedulingPhase(u->phase), u->fn.h()));
        us.push_back(std::move(u));
    }
    // drivers: plain events of each clock that act on its edges
    for (unsigned c = 0; c < m.clks.size(); ++c) {
        dfn.push_back(std::make_unique<vf::Fn>());
        unsigned ph = ctx.rng.below(4);
        drv.push_back(std::make_unique<PhasedUniqueEvent>(m.sets[c].get(), "drv", SchedulingPhase(ph), dfn.back()->h(), 1));
        auto *e = drv.back().get();
        dfn.back()->f = [&, c, ph, e] { body(ph, -1, c); if (m.now() < 200) e->schedule(Clock::Cycle(1 + ctx.rng.below(3))); };
    }
    act = [&](bool in) {
        if (in && --budget < 0) return;
        // an event is used from its own clock domain, on edges of its clock
        unsigned i = ctx.rng.below(us.size());
        U &u = *us[i];
        uint64_t per = m.period[u.node];
        if (m.now() % per) return;
        unsigned what = ctx.rng.below(10);
        if (what < 7) {
            uint64_t d = ctx.rng.below(2);
            uint64_t t = m.now() + d * per;
            ctx.op([&](std::ostream &o) { o << (in ? " in " : "out ") << m.now() << " schedule u" << i << " for " << t << " (fired " << int64_t(u.last) << ")"; });
            auto go = [&] { if (d == 0 && ctx.rng.chance(1, 2)) u.ev->schedule(); else u.ev->schedule(Clock::Cycle(d)); };
            if (t == u.last) { go(); ctx.count("ignored-after-fire"); return; }     // once per cycle: ignored
            if (u.pend.count(t)) { go(); ctx.count("dup"); return; }
            if (in && d == 0 && int(u.phase) < curphase) { VF_CHECK(ctx, vf::throws<SpartaException>(go), "past-phase", "zero-cycle schedule into a passed phase must be rejected"); ctx.count("past"); return; }
            go(); u.pend.insert(t);
            VF_CHECK(ctx, u.ev->isScheduled(), "query", "isScheduled false after scheduling");
        } else if (what < 8) {
            ctx.op([&](std::ostream &o) { o << m.now() << " cancel u" << i << " pending " << u.pend.size(); });
            u.ev->cancel(); ctx.count("cancelled", u.pend.size()); u.pend.clear();
            VF_CHECK(ctx, !u.ev->isScheduled(), "query", "isScheduled true after cancel");
        } else if (what < 9) {
            uint64_t d = 2 + ctx.rng.below(5);
            VF_CHECK(ctx, vf::throws<SpartaException>([&] { u.ev->schedule(d); }), "range", "schedule(" << d << ") must be rejected");
        } else if (!in || u.last != m.now()) {
            VF_EQ(ctx, u.ev->isScheduled(), !u.pend.empty(), "query", "isScheduled");
        }
    };
    m.finalize();
    for (auto &d : drv) d->schedule(Clock::Cycle(0));
    for (unsigned k = ctx.rng.below(5); k > 0; --k) act(false);
    Run::drive(ctx, m, [&] { act(false); }, [&] { uint64_t o = ~0ull; for (auto &u : us) if (!u->pend.empty()) o = std::min(o, *u->pend.begin()); return o; });
}

// ------------------------------------------------------------------ payload events
VF_SECTION(payload, 6000, 100000)
{
    Quiet q;
    VF_CHECK(ctx, Tok::live == 0, "harness", "tokens left over");
    Tok::live = 0; Tok::alive.clear();
    {
    Multi m(ctx);
    enum St { PREPARED, PENDING, FIRED, CANCELLED, DROPPED };
    struct Rec { uint64_t id; unsigned val; St st; uint64_t tick = 0, seq = 0; bool held = false; ScheduleableHandle h; };
    struct P { vf::Fn1<Tok> fn; std::unique_ptr<PhasedPayloadEvent<Tok>> ev; unsigned node, phase; std::vector<std::unique_ptr<Rec>> recs; uint64_t dflt; int64_t firing = -1; };
    std::vector<std::unique_ptr<P>> ps;
    uint64_t idc = 0, seqc = 0;
    int cur = -1, budget = 300;
    bool burst = ctx.rng.chance(1, 12);
    std::function<void(bool)> act;
    auto zombies = [](P &p) { unsigned z = 0; for (auto &r : p.recs) if (r->held && r->st != PREPARED && r->st != PENDING) ++z; return z; };
    auto count = [](P &p, St s) { unsigned z = 0; for (auto &r : p.recs) if (r->st == s) ++z; return z; };
    unsigned n = 1 + ctx.rng.below(3);
    for (unsigned i = 0; i < n; ++i) {
        auto u = std::make_unique<P>();
        u->node = ctx.rng.below(m.nodes.size()); u->phase = ctx.rng.below(7); u->dflt = ctx.rng.below(3);
        P *p = u.get();
        u->fn.f = [&, p, i](const Tok &t) {
            VF_CHECK(ctx, t.ok(), "corrupt", "payload delivered is not a live, intact object (id " << t.id << ")");
            Rec *hit = nullptr, *first = nullptr;
            for (auto &r : p->recs) {
                if (r->id == t.id) hit = r.get();
                if (r->st == PENDING && r->tick == m.now() && (!first || r->seq < first->seq)) first = r.get();
            }
            VF_CHECK(ctx, hit, "spurious", "unknown payload " << t.id);
            VF_CHECK(ctx, hit->st == PENDING, "exactly-once", "payload " << t.id << " delivered in state " << int(hit->st));
            VF_EQ(ctx, m.now(), hit->tick, "tick", "delivery tick of payload " << t.id);
            VF_EQ(ctx, t.val, hit->val, "corrupt", "payload value");
            VF_EQ(ctx, int(m.sched.getCurrentSchedulingPhase()), int(p->phase), "phase", "phase of firing");
            VF_CHECK(ctx, first == hit, "order", "payload " << t.id << " delivered before " << first->id << " which was scheduled earlier for the same tick");
            hit->st = FIRED; p->firing = t.id; const uint64_t hid = t.id; const unsigned hv = t.val;
            ctx.obs(m.now() * 1024 + t.id); ctx.count("fired");
            int save = cur; cur = i;
            unsigned k = ctx.rng.below(3);
            for (unsigned j = 0; j < k; ++j) act(true);
            cur = save; p->firing = -1;
            VF_CHECK(ctx, t.ok() && t.val == hv, "corrupt", "payload " << hid << " did not last until its handler returned");
        };
        u->ev.reset(new PhasedPayloadEvent<Tok>(m.sets[u->node].get(), "p" + std::to_string(i), SchedulingPhase(u->phase), u->fn.h(), u->dflt));
        ps.push_back(std::move(u));
    }
    act = [&](bool in) {
        if (in && --budget < 0) return;
        unsigned i = ctx.rng.below(ps.size());
        P &p = *ps[i];
        uint64_t per = m.period[p.node];
        auto check = [&](const char *w) {
            // the payload being delivered right now may or may not be counted by the real code
            if (p.firing >= 0) return;
            unsigned z = zombies(p), pend = count(p, PENDING), prep = count(p, PREPARED);
            if (z) return;
            VF_EQ(ctx, p.ev->getNumOutstandingEvents(), pend + prep, "count", "outstanding payloads after " << w);
            if (!prep) VF_EQ(ctx, p.ev->isScheduled(), pend > 0, "query", "isScheduled after " << w);
            ctx.count("count-checked");
        };
        auto schedPast = [&](uint64_t t) { return in && t == m.now() && p.phase < ps[cur]->phase; };
        auto doSched = [&](Rec &r, Scheduleable *s) {
            unsigned how = ctx.rng.below(4); uint64_t d = how == 0 ? p.dflt : pickDelay(ctx), pr = per; unsigned oc = ctx.rng.below(m.clks.size());
            if (how == 2) pr = m.period[oc];
            if (how == 3) pr = 1;
            uint64_t t = m.now() + d * pr;
            if (schedPast(t)) { d += 1; how = 1; t = m.now() + d * per; }
            ctx.op([&](std::ostream &o) { o << (in ? " in " : "out ") << m.now() << " schedule p" << i << " payload " << r.id << " v" << r.val << " for " << t << (r.held ? " held" : ""); });
            if (how == 0) s->schedule(); else if (how == 1) s->schedule(Clock::Cycle(d)); else if (how == 2) s->schedule(Clock::Cycle(d), m.clks[oc].get());
            else s->scheduleRelativeTick(d, &m.sched);
            r.st = PENDING; r.tick = t; r.seq = seqc++;
        };
        unsigned what = ctx.rng.below(20);
        if (what < 8 || (burst && what < 10)) {
            unsigned k = burst && ctx.rng.chance(1, 4) ? 20 + ctx.rng.below(60) : 1 + ctx.rng.below(3);
            if (count(p, PENDING) + count(p, PREPARED) > 400) return;
            for (unsigned j = 0; j < k; ++j) {
                p.recs.push_back(std::make_unique<Rec>()); Rec &r = *p.recs.back();
                r.id = idc++; r.val = ctx.rng.below(4); r.st = PREPARED;
                if (ctx.rng.chance(1, 3)) {
                    r.h = p.ev->preparePayload(Tok(r.id, r.val)); r.held = true;
                    if (ctx.rng.chance(1, 4)) { ScheduleableHandle c(std::move(r.h)); ScheduleableHandle d2(std::move(c)); r.h = d2; ctx.count("handle-moved"); }
                    if (ctx.rng.chance(1, 8)) { auto &self = r.h; r.h = self; }
                    if (ctx.rng.chance(1, 4)) { std::vector<ScheduleableHandle> v; for (int z = 0; z < 5; ++z) v.push_back(r.h); }
                    if (ctx.rng.chance(1, 3)) { ScheduleableHandle c(r.h); VF_CHECK(ctx, c == r.h && !(c != r.h), "handle", "copied handle differs"); }
                    if (ctx.rng.chance(2, 3)) doSched(r, r.h.operator->());
                } else {
                    auto h = p.ev->preparePayload(Tok(r.id, r.val));
                    doSched(r, h.operator->());
                }
            }
            check("prepare");
        } else if (what < 11) {       // act on a held handle
            std::vector<Rec *> held;
            for (auto &r : p.recs) if (r->held && (in || int64_t(r->id) != p.firing)) held.push_back(r.get());
            if (held.empty()) return;
            Rec &r = *ctx.rng.pick(held);
            switch (ctx.rng.below(4)) {
            case 0:
                if (r.st == PREPARED) { doSched(r, r.h.operator->()); ctx.count("late-schedule"); }
                else if (r.st == PENDING) { VF_CHECK(ctx, vf::throws<SpartaException>([&] { r.h->schedule(Clock::Cycle(1)); }), "twice", "scheduling a payload handle twice must be rejected"); ctx.count("twice-rejected"); }
                else if (r.st == CANCELLED) { VF_CHECK(ctx, vf::throws<SpartaException>([&] { r.h->schedule(Clock::Cycle(1)); }), "twice", "scheduling a cancelled payload handle must be rejected"); ctx.count("cancelled-rejected"); }
                break;
            case 1:
                if (r.st == PENDING || r.st == PREPARED) {
                    ctx.op([&](std::ostream &o) { o << m.now() << " handle-cancel payload " << r.id; });
                    if (r.st == PENDING && ctx.rng.chance(1, 2) && r.tick >= m.now() && (r.tick - m.now()) % per == 0) { r.h->cancel(Clock::Cycle((r.tick - m.now()) / per)); }
                    else r.h->cancel();
                    r.st = CANCELLED; ctx.count("handle-cancel");
                }
                break;
            case 2:
                if (r.st == PENDING || r.st == PREPARED) {
                    if (!in || r.st == PENDING) VF_EQ(ctx, r.h->isScheduled(), r.st == PENDING, "query", "handle isScheduled of payload " << r.id);
                }
                break;
            default:
                ctx.op([&](std::ostream &o) { o << m.now() << " drop handle of payload " << r.id << " st " << int(r.st); });
                r.h = ScheduleableHandle(); r.held = false; if (r.st == PREPARED) r.st = DROPPED;
                ctx.count("drop");
            }
            check("handle op");
        } else if (what < 13) {
            unsigned v = ctx.rng.below(4); unsigned want = 0;
            bool pred = ctx.rng.chance(1, 2);
            ctx.op([&](std::ostream &o) { o << m.now() << " cancelIf p" << i << " v" << v; });
            unsigned z = 0;
            for (auto &r : p.recs) if (r->val == v) {
                if (r->st == PENDING || r->st == PREPARED) { r->st = CANCELLED; ++want; }
                else if (r->held) ++z;
                if (int64_t(r->id) == p.firing) ++z;
            }
            unsigned got = pred ? p.ev->cancelIf([v](const Tok &t) { return t.val == v; }) : p.ev->cancelIf(Tok(~0ull, v));
            VF_CHECK(ctx, got >= want && got <= want + z, "cancel-count", "cancelIf returned " << got << " want " << want);
            ctx.count("cancelIf", want);
            check("cancelIf");
        } else if (what < 14) {
            unsigned want = 0, z = zombies(p) + (p.firing >= 0);
            for (auto &r : p.recs) if (r->st == PENDING || r->st == PREPARED) { r->st = CANCELLED; ++want; }
            ctx.op([&](std::ostream &o) { o << m.now() << " cancel all p" << i; });
            unsigned got = p.ev->cancel();
            VF_CHECK(ctx, got >= want && got <= want + z, "cancel-count", "cancel() returned " << got << " want " << want);
            ctx.count("cancel-all", want);
            check("cancel");
        } else if (what < 16) {
            uint64_t d = pickDelay(ctx), t = m.now() + d * per; unsigned want = 0;
            for (auto &r : p.recs) if (r->st == PENDING && r->tick == t) { r->st = CANCELLED; ++want; }
            ctx.op([&](std::ostream &o) { o << m.now() << " cancel(" << d << ") p" << i << " want " << want; });
            unsigned got = p.ev->cancel(Clock::Cycle(d));
            VF_EQ(ctx, got, want, "cancel-count", "cancel(rel_cycle)");
            ctx.count("cancel-rel", want);
            check("cancel rel");
        } else {
            for (int j = 0; j < 4; ++j) {
                uint64_t d = pickDelay(ctx), t = m.now() + d * per; bool want = false;
                for (auto &r : p.recs) if (r->st == PENDING && r->tick == t) want = true;
                VF_EQ(ctx, p.ev->isScheduled(d), want, "query", "isScheduled(" << d << ")");
            }
            unsigned v = ctx.rng.below(4); unsigned want = 0, z = 0;
            for (auto &r : p.recs) if (r->val == v) { if (r->st == PENDING || r->st == PREPARED) ++want; else if (r->held || int64_t(r->id) == p.firing) ++z; }
            auto hs = ctx.rng.chance(1, 2) ? p.ev->getHandleIf(Tok(~0ull, v)) : p.ev->getHandleIf([v](const Tok &t) { return t.val == v; });
            VF_CHECK(ctx, hs.size() >= want && hs.size() <= want + z, "query", "getHandleIf found " << hs.size() << " want " << want);
            std::set<Scheduleable *> uniq(hs.begin(), hs.end());
            VF_EQ(ctx, uniq.size(), hs.size(), "query", "getHandleIf repeats handles");
            if (!z) {
                VF_EQ(ctx, p.ev->confirmIf(Tok(~0ull, v)), want > 0, "query", "confirmIf value");
                VF_EQ(ctx, p.ev->confirmIf([v](const Tok &t) { return t.val == v; }) != 0, want > 0, "query", "confirmIf predicate");
                unsigned sch = 0, wantsch = 0;
                for (auto *s : hs) if (s->isScheduled()) ++sch;
                for (auto &r : p.recs) if (r->val == v && r->st == PENDING) ++wantsch;
                VF_CHECK(ctx, sch == wantsch || (in && sch > wantsch), "query", "handles scheduled " << sch << " want " << wantsch);
                if (!hs.empty() && ctx.rng.chance(1, 4)) {   // cancel through a found handle
                    Scheduleable *s = hs[ctx.rng.below(hs.size())];
                    // identify by the tick it is queued for: unique only if one candidate has it
                    std::vector<Rec *> c; for (auto &r : p.recs) if (r->val == v && (r->st == PENDING || r->st == PREPARED)) c.push_back(r.get());
                    if (c.size() == 1) { s->cancel(); c[0]->st = CANCELLED; ctx.count("cancel-found"); }
                }
            }
            check("query");
            ctx.count("query");
        }
        // forget finished records nobody holds
        p.recs.erase(std::remove_if(p.recs.begin(), p.recs.end(), [&](auto &r) { return !r->held && r->st != PENDING && r->st != PREPARED && int64_t(r->id) != p.firing; }), p.recs.end());
    };
    m.finalize();
    for (unsigned k = ctx.rng.below(6); k > 0; --k) act(false);
    Run::drive(ctx, m, [&] { act(false); }, [&] {
        uint64_t o = ~0ull;
        for (auto &p : ps) for (auto &r : p->recs) if (r->st == PENDING) o = std::min(o, r->tick);
        return o; });
    // everything drained: only payloads whose handle is still held may be alive
    uint64_t held = 0;
    for (auto &p : ps) for (auto &r : p->recs) if (r->held) ++held;
    VF_CHECK(ctx, Tok::live <= int64_t(held), "leak", "payload copies alive " << Tok::live << " held handles " << held);
    if (ctx.rng.chance(1, 2)) {
        for (auto &p : ps) p->recs.clear();
        VF_EQ(ctx, Tok::live, int64_t(0), "leak", "payload copies alive after all handles were dropped");
        for (auto &p : ps) VF_EQ(ctx, p->ev->getNumOutstandingEvents(), 0u, "count", "outstanding at the end");
    } else {
        // pending payloads at destruction are destroyed with the event
        for (int j = 0; j < 3; ++j) ps[0]->ev->preparePayload(Tok(idc++, 1))->schedule(Clock::Cycle(1000));
        for (auto &p : ps) p->recs.clear();
    }
    }
    VF_EQ(ctx, Tok::live, int64_t(0), "leak", "payload copies alive after the event was destroyed");
}

// ------------------------------------------------------------------ global and startup events
VF_SECTION(global_startup, 5000, 60000)
{
    Quiet q;
    Multi m(ctx);
    std::map<std::pair<uint64_t, uint64_t>, int> expect;    // (handler id, tick) -> number of firings due
    struct H { vf::Fn fn; uint64_t id; unsigned phase; };
    std::vector<std::unique_ptr<H>> hs;
    bool ordinary = false; unsigned startups = 0, fired_st = 0;
    std::vector<std::unique_ptr<vf::Fn>> sfn; std::vector<unsigned> scount;
    uint64_t fired = 0;
    auto mk = [&](unsigned phase) {
        hs.push_back(std::make_unique<H>()); H *h = hs.back().get(); h->id = hs.size() - 1; h->phase = phase;
        h->fn.f = [&, h] {
            ordinary = true; ++fired;
            VF_EQ(ctx, int(m.sched.getCurrentSchedulingPhase()), int(h->phase), "phase", "phase of a global event");
            int &e = expect[{h->id, m.now()}];
            VF_CHECK(ctx, e > 0, "spurious", "global event handler " << h->id << " fired at " << m.now() << " though nothing is due");
            --e; ctx.obs(m.now() * 64 + h->id); ctx.count("global-fired");
        };
        return h;
    };
    // startup events
    startups = ctx.rng.below(6);
    scount.assign(startups, 0);
    std::vector<std::unique_ptr<vf::Fn>> ofn; std::vector<std::unique_ptr<PhasedUniqueEvent>> oev;
    std::vector<uint64_t> odue;
    for (unsigned c = 0; c < 2; ++c) {
        ofn.push_back(std::make_unique<vf::Fn>()); odue.push_back(0);
        oev.push_back(std::make_unique<PhasedUniqueEvent>(m.sets[0].get(), "o" + std::to_string(c), SchedulingPhase(ctx.rng.below(7)), ofn.back()->h()));
        ofn.back()->f = [&, c] { ordinary = true; VF_EQ(ctx, fired_st, startups, "startup", "ordinary event fired before all startup handlers"); VF_CHECK(ctx, odue[c] > 0, "spurious", "ordinary event"); --odue[c]; ctx.obs(m.now() + 77 * c); };
    }
    for (unsigned i = 0; i < startups; ++i) {
        sfn.push_back(std::make_unique<vf::Fn>());
        bool sched0 = ctx.rng.chance(1, 2); unsigned c = ctx.rng.below(2);
        sfn.back()->f = [&, i, sched0, c] {
            VF_CHECK(ctx, !ordinary, "startup", "startup handler " << i << " ran after an ordinary event");
            VF_EQ(ctx, ++scount[i], 1u, "startup", "startup handler fired more than once");
            ++fired_st; ctx.obs(i + 5000); ctx.count("startup");
            if (sched0 && !odue[c]) { oev[c]->schedule(Clock::Cycle(ctx.rng.below(3))); odue[c]++; }
        };
        StartupEvent se(ctx.rng.chance(1, 3) ? static_cast<TreeNode *>(&m.rtn) : m.nodes[ctx.rng.below(m.nodes.size())].get(), sfn.back()->h());
    }
    m.finalize();
    VF_CHECK(ctx, vf::throws<SpartaException>([&] { StartupEvent se(m.nodes[0].get(), sfn.empty() ? ofn[0]->h() : sfn[0]->h()); }), "startup", "a startup event after finalization must be rejected");
    for (unsigned c = 0; c < 2; ++c) if (ctx.rng.chance(1, 2)) { oev[c]->schedule(Clock::Cycle(ctx.rng.below(4))); odue[c]++; }
    struct GE {
        unsigned phase; H *h; unsigned clk;
        std::unique_ptr<GlobalEvent<SchedulingPhase::Update>> a; std::unique_ptr<GlobalEvent<SchedulingPhase::Tick>> b; std::unique_ptr<GlobalEvent<SchedulingPhase::Trigger>> c;
        std::vector<uint64_t> due;
    };
    std::vector<std::unique_ptr<GE>> ges;
    auto drop = [&](GE &g) { for (auto t : g.due) if (t >= m.now()) --expect[{g.h->id, t}]; g.due.clear(); };
    auto act = [&] {
        unsigned what = ctx.rng.below(14);
        if (ges.empty() || what < 2) {
            auto g = std::make_unique<GE>(); unsigned k = ctx.rng.below(3); g->phase = unsigned(k == 0 ? SchedulingPhase::Update : k == 1 ? SchedulingPhase::Tick : SchedulingPhase::Trigger);
            g->h = mk(g->phase); g->clk = ctx.rng.below(m.clks.size()); auto *clk = m.clks[g->clk].get();
            if (k == 0) g->a = std::make_unique<GlobalEvent<SchedulingPhase::Update>>(clk, g->h->fn.h());
            if (k == 1) g->b = std::make_unique<GlobalEvent<SchedulingPhase::Tick>>(clk, g->h->fn.h());
            if (k == 2) g->c = std::make_unique<GlobalEvent<SchedulingPhase::Trigger>>(clk, g->h->fn.h());
            ges.push_back(std::move(g)); return;
        }
        unsigned gi = ctx.rng.below(ges.size()); GE &g = *ges[gi];
        auto with = [&](auto f) { if (g.a) f(g.a); else if (g.b) f(g.b); else f(g.c); };
        if (what < 8) {
            uint64_t d = pickDelay(ctx); unsigned oc = ctx.rng.below(m.clks.size()); bool own = ctx.rng.chance(1, 2); if (own) oc = g.clk;
            uint64_t t = m.now() + d * m.period[oc];
            with([&](auto &p) { if (own) p->schedule(d); else p->schedule(d, m.clks[oc].get()); });
            ctx.op([&](std::ostream &o) { o << m.now() << " global " << gi << " (handler " << g.h->id << ") for " << t; });
            ++expect[{g.h->id, t}]; g.due.push_back(t);
        } else if (what == 8) {
            ctx.op([&](std::ostream &o) { o << m.now() << " destroy global " << gi; });
            drop(g); ges.erase(ges.begin() + gi); ctx.count("destroyed"); return;
        } else if (what == 9) {
            auto g2 = std::make_unique<GE>(); g2->phase = g.phase; g2->clk = g.clk;
            // a copy fires the same handler for what is scheduled through the copy
            g2->h = g.h;
            if (g.a) g2->a = std::make_unique<GlobalEvent<SchedulingPhase::Update>>(*g.a);
            if (g.b) g2->b = std::make_unique<GlobalEvent<SchedulingPhase::Tick>>(*g.b);
            if (g.c) g2->c = std::make_unique<GlobalEvent<SchedulingPhase::Trigger>>(*g.c);
            ctx.count("copied"); ges.push_back(std::move(g2));
        } else if (what == 10) {
            H *h2 = mk(g.phase);
            with([&](auto &p) { p->resetHandler(h2->fn.h()); });
            for (auto t : g.due) if (t >= m.now()) { --expect[{g.h->id, t}]; ++expect[{h2->id, t}]; }
            g.h = h2; ctx.count("rehandled");
        } else if (what >= 12) {
            // assigned from, or moved out of, another one of the phase; nothing is pending on what is overwritten or moved
            unsigned oi = ctx.rng.below(ges.size()); GE &s2 = *ges[oi]; auto pend = [&](GE &x) { for (auto t : x.due) if (t >= m.now()) return true; return false; };
            bool mv = ctx.rng.chance(1, 2); if (oi == gi || s2.phase != g.phase || pend(g) || (mv && pend(s2))) return;
            ctx.op([&](std::ostream &o) { o << m.now() << " global " << gi << (mv ? " = move of " : " = ") << oi; });
            auto as = [&](auto &to, auto &from) { if (!to) return; if (!mv) *to = *from; else if (ctx.rng.chance(1, 2)) *to = std::move(*from); else to = std::make_unique<std::decay_t<decltype(*to)>>(std::move(*from)); };
            as(g.a, s2.a); as(g.b, s2.b); as(g.c, s2.c); g.clk = s2.clk; g.h = s2.h; g.due.clear(); ctx.count(mv ? "moved" : "assigned"); if (mv) ges.erase(ges.begin() + oi); return;
        }
        g.due.erase(std::remove_if(g.due.begin(), g.due.end(), [&](uint64_t t) { return t < m.now(); }), g.due.end());
    };
    for (unsigned k = ctx.rng.below(5); k > 0; --k) act();
    Run::drive(ctx, m, act, [&] { for (auto &e : expect) if (e.second > 0 && e.first.second < m.now()) return e.first.second;
        uint64_t o = ~0ull; for (auto &e : expect) if (e.second > 0) o = std::min(o, e.first.second); return o; });
    m.sched.run(1000, true);
    VF_EQ(ctx, fired_st, startups, "startup", "startup handlers fired");
    for (unsigned c = 0; c < 2; ++c) VF_EQ(ctx, odue[c], 0u, "lost", "ordinary event");
    ges.clear();
}
