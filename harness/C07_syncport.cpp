// C07: synchronous ports between random clocks, and the ready/valid protocol, against edge arithmetic.
#include "simenv.hpp"
#include "sparta/ports/SyncPort.hpp"
#include "sparta/ports/PortSet.hpp"
#include "sparta/log/MessageSource.hpp"
#include <memory>
using namespace sparta;
namespace {
struct Pay {
    uint64_t id = 0; std::shared_ptr<uint64_t> own;
    Pay() {} explicit Pay(uint64_t i) : id(i), own(new uint64_t(i * 3)) {}
    bool ok() const { return own && *own == id * 3; }
};
std::ostream &operator<<(std::ostream &o, const Pay &p) { return o << p.id; }
struct Ev { virtual ~Ev() {} virtual void go(uint64_t) = 0; };
template<SchedulingPhase P> struct EvOf : Ev {
    Event<P> ev; EvOf(TreeNode *es, const std::string &n, vf::Fn &f) : ev(es, n, f.h()) {}
    void go(uint64_t d) override { ev.schedule(Clock::Cycle(d)); }
};
std::unique_ptr<Ev> mkEv(unsigned ph, TreeNode *es, const std::string &n, vf::Fn &f)
{
#define P(X) case unsigned(SchedulingPhase::X): return std::unique_ptr<Ev>(new EvOf<SchedulingPhase::X>(es, n, f));
    switch (ph) { P(Trigger) P(Update) P(PortUpdate) P(Flush) P(Collection) P(Tick) P(PostTick) }
#undef P
    throw vf::HarnessError("phase");
}
uint64_t up(uint64_t t, uint64_t p) { return (t + p - 1) / p * p; }
} // namespace

VF_SECTION(crossing, 5000, 90000)
{
    Quiet q;
    const unsigned big = ctx.rng.of({2, 4, 9, 40});
    auto r = [&] { return uint32_t(1 + ctx.rng.below(big)); };
    vf::Multi m({{r(), r()}, {r(), r()}, {r(), r()}});
    const unsigned dc = ctx.rng.below(4), nout = ctx.rng.chance(1, 4) ? 2 : 1;
    const uint64_t dp = m.period[dc];
    std::vector<std::unique_ptr<PortSet>> ps; for (auto &n : m.nodes) ps.emplace_back(new PortSet(n.get()));
    const unsigned dph = ctx.rng.chance(2, 3) ? unsigned(SchedulingPhase::PortUpdate) : ctx.rng.below(7);
    std::unique_ptr<SyncInPort<Pay>> in(dph == unsigned(SchedulingPhase::PortUpdate) ? new SyncInPort<Pay>(ps[dc].get(), "inp", m.clks[dc].get()) : new SyncInPort<Pay>(ps[dc].get(), "inp", m.clks[dc].get(), SchedulingPhase(dph)));
    uint64_t rdelay = 0;
    if (ctx.rng.chance(1, 4)) { double d = double(ctx.rng.below(17)) / 4.0; in->setPortDelay(d); rdelay = uint64_t(d * double(dp)); VF_EQ(ctx, in->getPortDelay(), (rdelay + dp - 1) / dp, "delay", "port delay in cycles"); }
    else if (ctx.rng.chance(7, 8)) { uint64_t d = ctx.rng.below(4); in->setPortDelay(Clock::Cycle(d)); rdelay = d * dp; VF_EQ(ctx, in->getPortDelay(), d, "delay", "port delay"); }
    std::string bad, badk; auto err = [&](const char *k, const std::string &msg) { if (bad.empty()) { badk = k; bad = msg + " @" + std::to_string(m.now()); } };
    struct P { uint64_t id, at; };
    std::vector<P> pend; bool any = false; uint64_t prev = 0, lastGot = ~0ull, got = 0, nid = 1, slid = 0, refused = 0;
    vf::Fn1<Pay> h; h.f = [&](const Pay &p) {
        const uint64_t now = m.now(); ++got; ctx.obs(p.id * 31 + now);
        if (!p.ok()) err("modified", "value arrived modified");
        if (pend.empty()) { err("spurious", "value " + std::to_string(p.id) + " arrived unexpectedly"); return; }
        if (pend[0].id != p.id || pend[0].at != now) err("edge", "value " + std::to_string(p.id) + " arrived, expected value " + std::to_string(pend[0].id) + " at " + std::to_string(pend[0].at));
        pend.erase(pend.begin());
        if (now % dp) err("posedge", "arrival off the receiver's edge");
        if (lastGot == now) err("twice-a-cycle", "two items in one destination cycle");
        lastGot = now;
        if (m.sched.getCurrentSchedulingPhase() != SchedulingPhase(dph)) err("phase", "delivery in another phase");
        if (!in->dataReceivedThisCycle() || in->peekData().id != p.id || in->getReceivedTimeStamp() != now / dp) err("received", "data container");
    };
    in->registerConsumerHandler(h.h());
    struct O { unsigned ck; std::unique_ptr<SyncOutPort<Pay>> p; std::unique_ptr<Ev> ev; std::unique_ptr<vf::Fn> f; bool sent = false; uint64_t lastSend = 0; unsigned ph; };
    std::vector<O> outs(nout);
    std::vector<uint64_t> gaps;
    unsigned budget = 30 + ctx.rng.below(40);
    const bool longdl = ctx.rng.chance(1, 6);
    for (unsigned o = 0; o < nout; ++o) {
        O &x = outs[o]; x.ck = ctx.rng.below(4); const uint64_t sp = m.period[x.ck]; x.ph = ctx.rng.below(dph + 1);
        x.p.reset(new SyncOutPort<Pay>(ps[x.ck].get(), "out" + std::to_string(o), m.clks[x.ck].get()));
        VF_CHECK(ctx, vf::throws<SpartaException>([&] { x.p->send(Pay(0)); }), "unbound", "send on an unbound sync port was accepted");
        if (ctx.rng.chance(1, 2)) x.p->bind(*in); else in->bind(*x.p);
        VF_CHECK(ctx, vf::throws<SpartaException>([&] { x.p->bind(*in); }), "rebind", "second binding was accepted");
        x.f.reset(new vf::Fn);
        x.f->f = [&, o, sp] {
            O &x = outs[o]; const uint64_t now = m.now();
            if (now % sp) { err("harness", "sender off its edge"); return; }
            unsigned k = ctx.rng.chance(1, 4) ? 2 : 1;
            while (k-- && budget) {
                --budget;
                const uint64_t arr0 = up(now + rdelay, dp);
                const bool can = !any || arr0 > prev;
                if (x.p->isReady() != can) err("ready", std::string("isReady says ") + (can ? "no" : "yes") + "; a send now arrives at " + std::to_string(arr0) + ", last arrival " + std::to_string(prev));
                const uint64_t sd = longdl ? ctx.rng.below(40) : ctx.rng.of<uint64_t>({0, 0, 0, 1, 2, 5});
                const uint64_t arr = up(now + sd * sp + rdelay, dp); const bool clash = any && arr <= prev;
                if (x.p->isDriven(sd) != clash) err("driven", "isDriven(" + std::to_string(sd) + ")");
                if (x.p->isDriven() != !can) err("driven", "isDriven()");
                // The cycle the port books for this send; one booking per cycle of the sender.
                const uint64_t cyc = x.p->computeNextAvailableCycleForSend(sd, 0);
                if (!clash && cyc != now / sp + sd) {
                    // a wide receiver edge may be reached from a later source edge too
                    const uint64_t c2 = (arr - rdelay) / sp;
                    if (cyc != c2) err("next-cycle", "computeNextAvailableCycleForSend(" + std::to_string(sd) + ") = " + std::to_string(cyc) + " want " + std::to_string(c2));
                }
                if (x.sent && cyc <= x.lastSend) { ctx.count("booked"); continue; }
                const bool slide = ctx.rng.chance(1, 2);
                ctx.op([&](std::ostream &os) { os << "@" << now << " out" << o << " send " << nid << " +" << sd << (slide ? " slide" : "") << (clash ? " clash" : ""); });
                if (clash && !slide) {
                    if (!vf::throws<SpartaException>([&] { x.p->send(Pay(nid), sd); })) err("collision", "a colliding send was accepted");
                    ++refused; continue;
                }
                const uint64_t at = clash ? prev + dp : arr;
                uint64_t ret;
                if (slide) ret = sd == 0 && ctx.rng.chance(1, 2) ? x.p->sendAndAllowSlide(Pay(nid)) : x.p->sendAndAllowSlide(Pay(nid), sd);
                else ret = sd == 0 && ctx.rng.chance(1, 2) ? x.p->send(Pay(nid)) : x.p->send(Pay(nid), sd);
                slid += clash; pend.push_back({nid++, at}); prev = at; any = true; x.sent = true; x.lastSend = cyc;
                if (ret != at - now) err("return", "send returned a delay of " + std::to_string(ret) + " ticks, want " + std::to_string(at - now));
                if (x.p->isReady()) { if (up(now + rdelay, dp) <= prev) err("ready", "ready although the slot is taken"); }
                ctx.count("sends");
            }
            if (budget) x.ev->go(1 + ctx.rng.below(3));
        };
        x.ev = mkEv(x.ph, m.sets[x.ck].get(), "send" + std::to_string(o), *x.f);
    }
    m.finalize();
    for (auto &x : outs) x.ev->go(ctx.rng.below(5));
    if (ctx.rng.chance(1, 2)) m.sched.run();
    else for (unsigned k = 0; k < 4000 && (budget || !pend.empty()); ++k) { m.sched.run(1 + ctx.rng.below(8 * *std::max_element(m.period.begin(), m.period.end())), true); VF_CHECK(ctx, bad.empty(), badk.c_str(), bad);
        for (auto &p : pend) VF_CHECK(ctx, p.at >= m.now(), "lost", "value " << p.id << " due at " << p.at << " not delivered by " << m.now()); if (!pend.empty()) VF_CHECK(ctx, in->isDriven(), "driven", "isDriven false with " << pend.size() << " in flight"); }
    VF_CHECK(ctx, bad.empty(), badk.c_str(), bad);
    VF_CHECK(ctx, pend.empty(), "lost", pend.size() << " values never delivered, first due at " << pend[0].at);
    VF_CHECK(ctx, !in->isDriven(), "driven", "isDriven with nothing in flight");
    ctx.count("deliveries", got); ctx.count("slid", slid); ctx.count("collisions-refused", refused);
}

// Ready/valid back-pressure between clocks of one frequency.
VF_SECTION(ready, 4000, 70000)
{
    Quiet q;
    const uint32_t a = 1 + ctx.rng.below(4), b = 1 + ctx.rng.below(4);
    vf::Multi m({{a, b}, {a, b}, {3, 2}});
    const unsigned sc = 1 + ctx.rng.below(2), dc = 1 + ctx.rng.below(2); const uint64_t per = m.period[1];
    PortSet pss(m.nodes[sc].get()); std::unique_ptr<PortSet> psd; if (sc != dc) psd.reset(new PortSet(m.nodes[dc].get()));
    const unsigned delay = ctx.rng.below(2), dph = ctx.rng.chance(1, 2) ? unsigned(SchedulingPhase::PortUpdate) : ctx.rng.below(6);   // the observer is in PostTick
    SyncInPort<Pay> in(psd ? psd.get() : &pss, "inp", m.clks[dc].get(), SchedulingPhase(dph));
    SyncOutPort<Pay> out(&pss, "out", m.clks[sc].get());
    in.setPortDelay(Clock::Cycle(delay));
    sparta::bind(out, in);
    std::string bad, badk; auto err = [&](const char *k, const std::string &msg) { if (bad.empty()) { badk = k; bad = msg + " @" + std::to_string(m.now()); } };
    // state: value of ready before tick setTick, and since
    bool before = true, cur = true; uint64_t setTick = 0; bool everSet = false;
    if (ctx.rng.chance(1, 4)) { cur = before = false; in.setInitialReadyState(false); }
    auto latched = [&](uint64_t t) { return (everSet && setTick == t) ? before : cur; };
    struct It { uint64_t id, from; }; std::vector<It> fl;      // in flight, earliest delivery tick
    bool any = false; uint64_t nextTry = 0, nid = 1, got = 0, recirc = 0; bool quiet = false;
    vf::Fn1<Pay> h; h.f = [&](const Pay &p) {
        const uint64_t now = m.now(); ++got; ctx.obs(p.id * 31 + now);
        if (!p.ok()) err("modified", "value arrived modified");
        if (fl.empty()) { err("spurious", "value " + std::to_string(p.id) + " arrived unexpectedly"); return; }
        if (fl[0].id != p.id) err("order", "value " + std::to_string(p.id) + " arrived before " + std::to_string(fl[0].id));
        if (!latched(now)) err("not-ready", "value " + std::to_string(p.id) + " delivered to a receiver that was not ready");
        if (fl[0].from > now) err("early", "value " + std::to_string(p.id) + " arrived early");
        if (fl[0].from < now) ++recirc;
        fl.erase(fl.begin());
    };
    in.registerConsumerHandler(h.h());
    const unsigned sph = delay ? ctx.rng.below(7) : ctx.rng.below(dph + 1), rph = ctx.rng.below(7);
    const unsigned pr = 1 + ctx.rng.below(6), psend = 1 + ctx.rng.below(4), rare = ctx.rng.of({1u, 1u, 3u});
    vf::Fn sf, rf, cf; std::unique_ptr<Ev> se, re, ce;
    // once a cycle, after deliveries: whatever was deliverable must have been delivered
    cf.f = [&] {
        const uint64_t now = m.now(); ce->go(1);
        if (!fl.empty() && fl[0].from <= now && latched(now)) err("late", "value " + std::to_string(fl[0].id) + " deliverable since " + std::to_string(fl[0].from) + " not delivered although the receiver was ready");
    };
    rf.f = [&] {
        re->go(1); const uint64_t now = m.now();
        if (now == 0) return;                                    // the value at tick 0 is the initial state
        if (!quiet && !ctx.rng.chance(1, rare)) return;
        bool v = quiet || ctx.rng.chance(pr, 7);
        ctx.op([&](std::ostream &o) { o << "@" << now << " setReady(" << v << ")"; });
        in.setReady(v); before = cur; cur = v; setTick = now; everSet = true;
        if (in.getReady() != v) err("getReady", "getReady");
        if (ctx.rng.chance(1, 8)) in.setReady(v);                // repeating the value is allowed
        if (ctx.rng.chance(1, 8) && !vf::throws<SpartaException>([&] { in.setReady(!v); })) err("double-ready", "two values of ready in one cycle were accepted");
        ctx.count("setReady");
    };
    uint64_t lastSend = ~0ull; (void)any; (void)nextTry;
    sf.f = [&] {
        se->go(1); const uint64_t now = m.now();
        // what is in flight as far as the port knows now
        const bool mine = lastSend == now;
        bool want;
        if (delay == 0) want = latched(now) && !mine;
        else {
            // an item waiting to be retried occupies the next slot once this cycle's attempt has failed
            want = latched(now) ? true : fl.empty();
            if (mine) want = false;
        }
        if (out.isReady() != want) err("ready", std::string("isReady says ") + (want ? "no" : "yes") + " with " + std::to_string(fl.size()) + " in flight, latched ready " + (latched(now) ? "yes" : "no"));
        if (delay == 0 && out.isReadyPS() != cur) err("readyPS", "isReadyPS");
        if (quiet || !want || ctx.rng.chance(1, 1 + psend)) return;
        ctx.op([&](std::ostream &o) { o << "@" << now << " send " << nid; });
        uint64_t ret = out.send(Pay(nid)); fl.push_back({nid++, now + delay * per}); lastSend = now; ctx.count("sends");
        if (ret != delay * per) err("return", "send returned " + std::to_string(ret));
        if (out.isReady()) err("ready", "ready right after a send in this cycle");
    };
    se = mkEv(sph, m.sets[sc].get(), "s", sf); re = mkEv(rph, m.sets[dc].get(), "r", rf); ce = mkEv(unsigned(SchedulingPhase::PostTick), m.sets[dc].get(), "c", cf);
    m.finalize();
    se->go(0); re->go(0); ce->go(1);
    for (unsigned k = 0; k < 30; ++k) {
        if (k == 25) quiet = true;
        m.sched.run(per * (1 + ctx.rng.below(4)), true);
        VF_CHECK(ctx, bad.empty(), badk.c_str(), bad);
    }
    m.sched.run(per * 4, true);
    VF_CHECK(ctx, bad.empty(), badk.c_str(), bad);
    VF_CHECK(ctx, fl.empty(), "lost", "value " << fl[0].id << " never delivered to a ready receiver");
    ctx.count("deliveries", got); ctx.count("delayed-by-receiver", recirc);
}
