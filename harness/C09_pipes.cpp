// C09: pipes, pipelines and shared data against a shift-register model advanced once per clock cycle.
#include "simenv.hpp"
#include "sparta/resources/Pipe.hpp"
#include "sparta/resources/Pipeline.hpp"
#include "sparta/resources/SharedData.hpp"
#include "sparta/log/MessageSource.hpp"
#include <deque>
#include <optional>
using namespace sparta;
namespace {
struct El {
    uint64_t id = 0; std::shared_ptr<uint64_t> own;
    El() {} explicit El(uint64_t i) : id(i), own(new uint64_t(i ^ 0x5A5A)) {}
    bool ok() const { return own && *own == (id ^ 0x5A5A); }
    bool operator==(const El &o) const { return id == o.id; }
};
std::ostream &operator<<(std::ostream &o, const El &p) { return o << p.id; }
using Opt = std::optional<uint64_t>;
struct Ev { virtual ~Ev() {} virtual void go(uint64_t) = 0; virtual Scheduleable &sc() = 0; virtual void prod(std::function<void(void *)>) {} };
template<SchedulingPhase P> struct EvOf : Ev {
    Event<P> ev; EvOf(TreeNode *es, const std::string &n, vf::Fn &f) : ev(es, n, f.h()) {}
    void go(uint64_t d) override { ev.schedule(Clock::Cycle(d)); }
    Scheduleable &sc() override { return ev.getScheduleable(); }
};
std::unique_ptr<Ev> mkEv(unsigned ph, TreeNode *es, const std::string &n, vf::Fn &f)
{
#define P(X) case unsigned(SchedulingPhase::X): return std::unique_ptr<Ev>(new EvOf<SchedulingPhase::X>(es, n, f));
    switch (ph) { P(Trigger) P(Update) P(PortUpdate) P(Flush) P(Collection) P(Tick) P(PostTick) }
#undef P
    throw vf::HarnessError("phase");
}
constexpr unsigned FIRST = unsigned(SchedulingPhase::PortUpdate), LAST = unsigned(SchedulingPhase::PostTick);
struct EvWrap { Scheduleable &s; Scheduleable &getScheduleable() { return s; } };   // what the precedence setters of Pipeline ask of an event

struct Shift {
    std::vector<Opt> st; Opt app;
    unsigned valid() const { unsigned n = 0; for (auto &s : st) n += s.has_value(); return n; }
    bool any() const { return valid() || app; }
    void shift() { for (size_t i = st.size() - 1; i > 0; --i) st[i] = st[i - 1]; st[0] = app; app.reset(); }
};
template<class PT> void checkPipe(vf::Ctx &ctx, PT &p, const Shift &m, const char *when, bool reads)
{
    const PT &cp = p;
    VF_EQ(ctx, cp.capacity(), m.st.size(), "capacity", "capacity");
    for (unsigned i = 0; i < m.st.size(); ++i) {
        VF_EQ(ctx, cp.isValid(i), m.st[i].has_value(), "stage-valid", "validity of stage " << i << " " << when);
        if (m.st[i]) ctx.obs(*m.st[i] * 31 + i);
    }
    VF_EQ(ctx, cp.numValid(), m.valid(), "num-valid", "numValid " << when);
    VF_EQ(ctx, cp.size(), m.valid(), "num-valid", "size " << when);
    VF_EQ(ctx, cp.empty(), m.valid() == 0, "num-valid", "empty " << when);
    VF_EQ(ctx, cp.isAnyValid(), m.any(), "any-valid", "isAnyValid " << when);
    VF_EQ(ctx, cp.isLastValid(), m.st.back().has_value(), "last-valid", "isLastValid " << when);
    VF_EQ(ctx, cp.isAppended(), m.app.has_value(), "appended", "isAppended " << when);
    if (m.app) { VF_EQ(ctx, cp.readAppendedData().id, *m.app, "appended", "appended data"); VF_CHECK(ctx, cp.readAppendedData().ok(), "modified", "appended item was modified"); }
    else if (reads) VF_CHECK(ctx, vf::throws<SpartaException>([&] { cp.readAppendedData(); }), "invalid-read", "reading appended data without any was accepted");
    unsigned i = 0;
    for (auto it = p.begin(); it != p.end(); ++it, ++i) {
        VF_EQ(ctx, it.isValid(), m.st[i].has_value(), "iterate", "iterator validity at stage " << i);
        if (m.st[i]) VF_EQ(ctx, (*it).id, *m.st[i], "iterate", "item through the iterator");
        else if (reads) VF_CHECK(ctx, vf::throws<SpartaException>([&] { *it; }), "invalid-read", "iterator over an invalid stage was dereferenced");
    }
    VF_EQ(ctx, i, m.st.size(), "iterate", "number of stages iterated");
}
} // namespace

VF_SECTION(pipe, 5000, 120000)
{
    Quiet q;
    vf::Multi m({{uint32_t(1 + ctx.rng.below(4)), uint32_t(1 + ctx.rng.below(4))}});
    const unsigned ck = ctx.rng.below(2);
    unsigned n = 1 + ctx.rng.below(ctx.rng.of({2, 5, 9, 33}));
    Pipe<El> p("pipe", n, m.clks[ck].get());
    VF_CHECK(ctx, vf::throws<SpartaException>([&] { Pipe<El> z("z", 0, m.clks[ck].get()); }), "zero", "a pipe of no stages was accepted");
    if (ctx.rng.chance(1, 4)) { n = 1 + ctx.rng.below(12); p.resize(n); }
    Shift mod; mod.st.resize(n);
    bool own = ctx.rng.chance(1, 3); if (own) p.performOwnUpdates();
    uint64_t nid = 1; unsigned budget = 20 + ctx.rng.below(60);
    const unsigned start = ctx.rng.below(3), density = ctx.rng.of({0, 1, 2, 4});
    std::vector<std::unique_ptr<vf::Fn>> fn; std::vector<std::unique_ptr<Ev>> ev;
    bool first = true;
    auto one = [&](unsigned phase) {
        const unsigned s = ctx.rng.below(n);
        switch (ctx.rng.below(20)) {
        case 0: case 1: case 2: case 3: case 4: case 5: {
            El e(nid++);
            if (mod.app) { VF_CHECK(ctx, vf::throws<SpartaException>([&] { ctx.rng.chance(1, 2) ? p.append(e) : p.push_front(El(e)); }), "double-append", "double append was accepted"); break; }
            ctx.op([&](auto &o) { o << m.now() << " append " << e.id; });
            switch (ctx.rng.below(4)) { case 0: p.append(e); break; case 1: p.append(El(e)); break; case 2: p.push_front(e); break; default: p.push_front(El(e)); }
            mod.app = nid - 1; break; }
        case 6: case 7: { El e(nid++); ctx.op([&](auto &o) { o << m.now() << " write " << s << " " << e.id; });
            if (ctx.rng.chance(1, 2)) p.writePS(s, e); else p.writePS(s, El(e));
            mod.st[s] = nid - 1; break; }
        case 8: case 9:
            ctx.op([&](auto &o) { o << m.now() << " invalidate " << s; });
            if (!mod.st[s]) VF_CHECK(ctx, vf::throws<SpartaException>([&] { p.invalidatePS(s); }), "invalidate", "an invalid stage was invalidated");
            else { if (s == n - 1 && ctx.rng.chance(1, 2)) p.invalidateLastPS(); else p.invalidatePS(s); mod.st[s].reset(); }
            break;
        case 10: p.flushPS(s); mod.st[s].reset(); ctx.op([&](auto &o) { o << m.now() << " flush " << s; }); break;
        case 11: if (ctx.rng.chance(1, 3)) { p.flushAppend(); mod.app.reset(); ctx.op("flushAppend"); } break;
        case 12: if (ctx.rng.chance(1, 4)) { if (ctx.rng.chance(1, 2)) p.flushAll(); else p.clear(); for (auto &x : mod.st) x.reset(); mod.app.reset(); ctx.op("flushAll/clear"); } break;
        case 13: { std::vector<uint64_t> ids; for (auto &x : mod.st) if (x) ids.push_back(*x); if (mod.app) ids.push_back(*mod.app);
            uint64_t v = ids.empty() || ctx.rng.chance(1, 8) ? nid + 5 : ctx.rng.pick(ids);
            ctx.op([&](auto &o) { o << m.now() << " flushIf == " << v; });
            p.flushIf(El(v)); for (auto &x : mod.st) if (x == v) x.reset(); if (mod.app == v) mod.app.reset(); break; }
        case 14: { unsigned k = 2 + ctx.rng.below(3), r = ctx.rng.below(k);
            ctx.op([&](auto &o) { o << m.now() << " flushIf %" << k << "==" << r; });
            p.flushIf(std::function<bool(const El &)>([k, r](const El &e) { return e.id % k == r; }));
            for (auto &x : mod.st) if (x && *x % k == r) x.reset(); if (mod.app && *mod.app % k == r) mod.app.reset(); break; }
        case 15: { bool want = mod.app && !mod.st[0]; ctx.op([&](auto &o) { o << m.now() << " shiftAppend"; });
            VF_EQ(ctx, p.shiftAppend(), want, "shift-append", "shiftAppend result"); if (want) { mod.st[0] = mod.app; mod.app.reset(); } break; }
        case 16: if (mod.st[s]) { VF_EQ(ctx, p.access(s).id, *mod.st[s], "item", "access"); p.access(s) = El(nid); mod.st[s] = nid++; } else VF_CHECK(ctx, vf::throws<SpartaException>([&] { p.access(s); }), "invalid-read", "access to an invalid stage"); break;
        case 17: if (ctx.rng.chance(1, 5)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { p.read(n); }) && vf::throws<SpartaException>([&] { p.writePS(n, El(1)); }) && vf::throws<SpartaException>([&] { p.isValid(n); }), "range", "a stage beyond the pipe was accepted"); break;
        case 18: if (!own && ctx.rng.chance(1, 3)) { p.performOwnUpdates(); own = true; ctx.op("performOwnUpdates"); } break;
        default:
            if (own) VF_CHECK(ctx, vf::throws<SpartaException>([&] { p.update(); }), "own-update", "manual update of a self-updating pipe");
            else { p.update(); mod.shift(); ctx.op("update"); }
        }
    };
    for (unsigned ph = FIRST; ph <= LAST; ++ph) {
        fn.emplace_back(new vf::Fn);
        fn.back()->f = [&, ph] {
            if (ph == FIRST) { if (!first && own) mod.shift(); first = false; if (budget) { --budget; for (auto &e : ev) e->go(1); } }
            checkPipe(ctx, p, mod, "at start", ctx.rng.chance(1, 60));
            for (unsigned i = 0; i < n; ++i) if (mod.st[i]) { VF_EQ(ctx, p.read(i).id, *mod.st[i], "item", "item at stage " << i); VF_CHECK(ctx, p.read(i).ok(), "modified", "item was modified"); }
                else if (ctx.rng.chance(1, 300)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { p.read(i); }), "invalid-read", "an invalid stage was read");
            if (mod.st[n - 1]) VF_EQ(ctx, p.readLast().id, *mod.st[n - 1], "item", "readLast");
            unsigned k = density ? ctx.rng.below(density + 1) : ctx.rng.chance(1, 4);
            while (k--) { one(ph); checkPipe(ctx, p, mod, "after an operation", false); }
        };
        ev.push_back(mkEv(ph, m.sets[ck].get(), "drv" + std::to_string(ph), *fn.back()));
    }
    m.finalize();
    for (auto &e : ev) e->go(1 + start);
    m.sched.run(m.period[ck] * (budget + start + 20), true, false);
    VF_EQ(ctx, budget, 0u, "harness", "driver did not finish");
}

namespace {
template<class EventT> struct PL {
    static constexpr bool payload = std::is_same_v<EventT, PhasedPayloadEvent<El>>;
    struct Handler { unsigned stage, phase, seq; vf::Fn f0; vf::Fn1<El> f1; };
    vf::Ctx &ctx; vf::Multi &m; unsigned n, D; Pipeline<El, EventT> pl; Shift mod;
    std::vector<bool> evOn, frozen, hasH; uint64_t stallCycles = 0; int stallStage = -1;
    std::deque<Handler> hs; bool own = false, manualNow = false, alive = false;
    struct Exp { unsigned h; uint64_t val; };
    std::vector<Exp> expect; std::vector<unsigned> order;    // handlers run this cycle, in order
    std::set<unsigned> invalidatedNow;
    std::vector<std::pair<unsigned, unsigned>> prec;          // handler index pairs (first, second)
    std::function<void(unsigned)> onRun;                      // told the global handler number
    PL(vf::Ctx &c, vf::Multi &mm, unsigned ck, unsigned n_, unsigned d, EventSet *es, const std::string &name) :
        ctx(c), m(mm), n(n_), D(d), pl(es, name, n_, mm.clks[ck].get()), evOn(n_, false), frozen(n_, false), hasH(n_, false) { mod.st.resize(n_); }
    void ran(unsigned h, const El *e)
    {
        Handler &x = hs[h];
        ctx.obs(h * 977 + m.now()); if (ctx.verbose) ctx.op([&](auto &o) { o << m.now() << " handler " << h << " stage " << x.stage << " phase " << x.phase << (own ? " own" : " man") << " D " << D << " " << (void*)this; });
        VF_CHECK(ctx, m.sched.getCurrentSchedulingPhase() == SchedulingPhase(x.phase), "handler-phase", "handler of stage " << x.stage << " ran in another phase");
        size_t i = 0; while (i < expect.size() && expect[i].h != h) ++i;
        VF_CHECK(ctx, i < expect.size(), "handler-spurious", "handler " << h << " of stage " << x.stage << " ran at " << m.now() << " but should not");
        if (e) { VF_EQ(ctx, e->id, expect[i].val, "handler-value", "payload of stage " << x.stage); VF_CHECK(ctx, e->ok(), "modified", "payload was modified"); }
        expect.erase(expect.begin() + i);
        order.push_back(h); onRun(h);
    }
    template<unsigned PH> void reg1(unsigned s, const SpartaHandler &h) { pl.template registerHandlerAtStage<SchedulingPhase(PH)>(s, h); }
    void reg(unsigned s, unsigned ph, const SpartaHandler &h)
    {
        switch (ph) { case 2: reg1<2>(s, h); break; case 3: reg1<3>(s, h); break; case 4: reg1<4>(s, h); break; case 5: reg1<5>(s, h); break; case 6: reg1<6>(s, h); break; default: throw vf::HarnessError("phase"); }
    }
    void addHandler(unsigned s, unsigned ph)
    {
        unsigned idx = hs.size(); hs.emplace_back(); Handler &x = hs.back(); x.stage = s; x.phase = ph;
        x.f0.f = [this, idx] { ran(idx, nullptr); }; x.f1.f = [this, idx](const El &e) { ran(idx, &e); };
        VF_CHECK(ctx, vf::throws<SpartaException>([&] { reg(n, ph, payload ? x.f1.h() : x.f0.h()); }), "handler-range", "a handler for a stage beyond the pipeline was accepted");
        VF_CHECK(ctx, vf::throws<SpartaException>([&] { reg(s, ph, payload ? x.f0.h() : x.f1.h()); }), "handler-args", "a handler with the wrong number of parameters was accepted");
        for (unsigned i = 0; i < idx; ++i) if (hs[i].stage == s && hs[i].phase == ph) prec.push_back({i, idx});
        reg(s, ph, payload ? x.f1.h() : x.f0.h());
        evOn[s] = hasH[s] = true;
        VF_CHECK(ctx, pl.isEventRegisteredAtStage(s), "registered", "handler registered");
    }
    // last handler of stage a before the first of stage b in every phase
    void order2(unsigned a, unsigned b)
    {
        for (unsigned ph = FIRST; ph <= LAST; ++ph) { int la = -1, fb = -1;
            for (unsigned i = 0; i < hs.size(); ++i) if (hs[i].phase == ph) { if (hs[i].stage == a) la = i; if (hs[i].stage == b && fb < 0) fb = i; }
            if (la >= 0 && fb >= 0) prec.push_back({unsigned(la), unsigned(fb)}); }
    }
    void closure()
    {   // the framework orders by a transitive relation
        std::set<std::pair<unsigned, unsigned>> s(prec.begin(), prec.end());
        for (unsigned k = 0; k < hs.size(); ++k) for (unsigned i = 0; i < hs.size(); ++i) if (s.count({i, k})) for (unsigned j = 0; j < hs.size(); ++j) if (s.count({k, j})) s.insert({i, j});
        prec.assign(s.begin(), s.end());
    }
    void modelUpdate()
    {
        if (stallStage < 0) mod.shift();
        else {
            const unsigned s = stallStage;
            if (s < n - 1) { for (unsigned i = n - 1; i > s + 1; --i) mod.st[i] = mod.st[i - 1]; mod.st[s + 1].reset(); }
            for (unsigned i = std::min(s + 1, n - 1); i > 0; --i) if (!frozen[i - 1] && !mod.st[i] && mod.st[i - 1]) { mod.st[i] = mod.st[i - 1]; mod.st[i - 1].reset(); }
            if (mod.app && !mod.st[0]) { mod.st[0] = mod.app; mod.app.reset(); }
        }
        expect.clear(); order.clear(); invalidatedNow.clear();
        for (unsigned i = 0; i < hs.size(); ++i) if (mod.st[hs[i].stage] && evOn[hs[i].stage]) expect.push_back({i, *mod.st[hs[i].stage]});
        if (stallStage >= 0 && --stallCycles == 0) restart();
    }
    void restart() { for (int i = 0; i <= stallStage; ++i) { if (hasH[i]) evOn[i] = true; frozen[i] = false; } stallStage = -1; stallCycles = 0; }
    void verify(const char *when)
    {
        checkPipe(ctx, pl, mod, when, ctx.rng.chance(1, 120));
        VF_EQ(ctx, pl.isStalledOrStalling(), stallStage >= 0, "stall-state", "isStalledOrStalling " << when);
        for (unsigned i = 0; i < n; ++i) {
            VF_EQ(ctx, pl.isStalledOrStallingAtStage(i), int(i) <= stallStage, "stall-state", "isStalledOrStallingAtStage " << i << " " << when);
            const auto &c = pl;
            if (mod.st[i]) { VF_EQ(ctx, c[i].id, *mod.st[i], "item", "item at stage " << i << " " << when); VF_EQ(ctx, c.at(i).id, *mod.st[i], "item", "at"); VF_CHECK(ctx, c.at(i).ok(), "modified", "item was modified"); }
        }
    }
    void cycleEnd() { if (!alive) return; VF_CHECK(ctx, expect.empty(), "handler-missing", expect.size() << " handlers did not run, e.g. of stage " << hs[expect[0].h].stage << " before " << m.now());
        for (auto &p : prec) { auto a = std::find(order.begin(), order.end(), p.first), b = std::find(order.begin(), order.end(), p.second);
            if (a != order.end() && b != order.end()) VF_CHECK(ctx, a < b, "handler-order", "handlers of stages " << hs[p.first].stage << " and " << hs[p.second].stage << " ran against their precedence"); }
        for (size_t i = 1; i < order.size(); ++i) VF_CHECK(ctx, hs[order[i - 1]].phase <= hs[order[i]].phase, "handler-order", "phases out of order"); }
    void atDriver() { for (auto &e : expect) VF_CHECK(ctx, hs[e.h].phase > D, "handler-missing", "a handler of stage " << hs[e.h].stage << " did not run by phase " << D); verify("at the driver"); }
    void flush1(unsigned s)
    {
        if (mod.st[s]) expect.erase(std::remove_if(expect.begin(), expect.end(), [&](auto &e) { return hs[e.h].stage == s; }), expect.end());
        if (int(s) == stallStage) restart();
        mod.st[s].reset();
    }
    void op(uint64_t &nid)
    {
        const unsigned s = ctx.rng.below(n);
        auto say = [&](const std::string &t) { ctx.op([&](auto &o) { o << m.now() << " " << t; }); };
        switch (ctx.rng.below(16)) {
        case 0: case 1: case 2: case 3: case 4: case 5: {
            El e(nid++);
            if (mod.app) { VF_CHECK(ctx, vf::throws<SpartaException>([&] { pl.append(e); }), "double-append", "double append was accepted"); break; }
            say("append " + std::to_string(e.id)); if (ctx.rng.chance(1, 2)) pl.append(e); else pl.append(El(e)); mod.app = nid - 1; break; }
        case 6: { El e(nid++); say("write " + std::to_string(s)); if (ctx.rng.chance(1, 2)) pl.writeStage(s, e); else pl.writeStage(s, El(e)); mod.st[s] = nid - 1; break; }
        case 7: if (mod.st[s]) { say("invalidate " + std::to_string(s)); pl.invalidateStage(s); mod.st[s].reset(); invalidatedNow.insert(s); } else VF_CHECK(ctx, vf::throws<SpartaException>([&] { pl.invalidateStage(s); }), "invalidate", "an invalid stage was invalidated"); break;
        case 8: case 9: {
            if (invalidatedNow.count(s)) break;
            say("flush " + std::to_string(s));
            switch (ctx.rng.below(3)) { case 0: pl.flushStage(s); break;
            case 1: { auto it = pl.begin(); for (unsigned i = 0; i < s; ++i) ++it; pl.flushStage(it); break; }
            default: { auto it = pl.cbegin(); for (unsigned i = 0; i < s; ++i) it++; pl.flushStage(it); } }
            flush1(s); break; }
        case 10: if (ctx.rng.chance(1, 4) && invalidatedNow.empty()) { say("flushAll"); pl.flushAllStages(); for (unsigned i = 0; i < n; ++i) flush1(i); } else if (ctx.rng.chance(1, 3)) { say("flushAppend"); pl.flushAppend(); mod.app.reset(); } break;
        case 11: case 12: {
            const unsigned c = ctx.rng.below(5); const bool crush = ctx.rng.chance(1, 2), sup = ctx.rng.chance(2, 3);
            if (!mod.st[s] || stallStage >= 0) { VF_CHECK(ctx, vf::throws<SpartaException>([&] { pl.stall(s, 1 + c, crush, sup); }), "stall-misuse", "stall of an empty stage or of a stalled pipeline was accepted"); break; }
            say("stall " + std::to_string(s) + " for " + std::to_string(c) + (crush ? " crush" : "") + (sup ? " suppress" : ""));
            if (crush || !sup || ctx.rng.chance(1, 2)) pl.stall(s, c, crush, sup); else pl.stall(s, c);
            if (c) { stallStage = s; stallCycles = c; for (int i = s; i >= 0; --i) { if (crush && !mod.st[i]) break; if (sup && hasH[i]) evOn[i] = false; frozen[i] = true; } ctx.count("stalls"); }
            break; }
        case 13: if (stallStage >= 0) { if (ctx.rng.chance(1, 3)) { say("clearStall"); pl.clearStall(); restart(); } } else VF_CHECK(ctx, vf::throws<SpartaException>([&] { pl.clearStall(); }), "stall-misuse", "clearing a stall there is not"); break;
        case 14: if (mod.st[s]) { pl[s] = El(nid); mod.st[s] = nid++; } else { VF_CHECK(ctx, vf::throws<SpartaException>([&] { pl[s]; }) && vf::throws<SpartaException>([&] { pl.at(n); }), "invalid-read", "an invalid stage was read"); } break;
        default:
            if (own) VF_CHECK(ctx, vf::throws<SpartaException>([&] { pl.update(); }), "own-update", "manual update of a self-updating pipeline");
            else if (ctx.rng.chance(1, 4) ) { say("performOwnUpdates"); own = true; pl.performOwnUpdates(); }
            else if (hasH[s] && stallStage < 0) { bool on = ctx.rng.chance(1, 2); say((on ? "activate " : "deactivate ") + std::to_string(s)); if (on) pl.activateEventAtStage(s); else pl.deactivateEventAtStage(s); evOn[s] = on; }
        }
        if (stallStage >= 0 && !mod.any()) { pl.clearStall(); restart(); }   // an empty self-updating pipeline does not count a stall down
    }
    void regPrecedences()
    {
        std::vector<unsigned> act; for (unsigned i = 0; i < n; ++i) if (hasH[i]) act.push_back(i);
        for (unsigned i = 0; i < n; ++i) if (!hasH[i]) { VF_CHECK(ctx, vf::throws<SpartaException>([&] { pl.activateEventAtStage(i); }) && vf::throws<SpartaException>([&] { pl.deactivateEventAtStage(i); }), "no-handler", "(de)activation without a handler"); VF_CHECK(ctx, !pl.isEventRegisteredAtStage(i), "no-handler", "handler"); }
        using Prec = typename Pipeline<El, EventT>::Precedence;
        switch (ctx.rng.below(4)) {
        case 0: break;
        case 1: case 2: {
            bool fwd = ctx.rng.chance(1, 2);
            pl.setDefaultStagePrecedence(fwd ? Prec::FORWARD : Prec::BACKWARD);
            for (size_t i = 1; i < act.size(); ++i) fwd ? order2(act[i - 1], act[i]) : order2(act[i], act[i - 1]);
            if (act.size() > 1) VF_CHECK(ctx, vf::throws<SpartaException>([&] { pl.setPrecedenceBetweenStage(act[0], act[1]); }), "default-precedence", "explicit precedence after a default one");
            vf::Fn f; vf::Fn1<El> g;
            VF_CHECK(ctx, vf::throws<SpartaException>([&] { reg(0, LAST, payload ? g.h() : f.h()); }), "default-precedence", "handler accepted after a default precedence");
            break; }
        default: {
            std::vector<unsigned> perm = act; ctx.rng.shuffle(perm);
            for (unsigned k = ctx.rng.below(4); k--;) if (perm.size() > 1) { unsigned a = ctx.rng.below(perm.size() - 1), b = a + 1 + ctx.rng.below(perm.size() - a - 1); pl.setPrecedenceBetweenStage(perm[a], perm[b]); order2(perm[a], perm[b]); }
            if (act.size()) VF_CHECK(ctx, vf::throws<SpartaException>([&] { pl.setPrecedenceBetweenStage(act[0], act[0]); }), "self-precedence", "precedence of a stage with itself"); }
        }
        closure();
    }
};
template<class E1, class E2> void pipelineCase(vf::Ctx &ctx)
{
    Quiet q;
    vf::Multi m({{uint32_t(1 + ctx.rng.below(4)), uint32_t(1 + ctx.rng.below(4))}});
    const unsigned ck = ctx.rng.below(2), D = ctx.rng.of<unsigned>({3, 3, 4, 5});
    const bool prec = ctx.rng.chance(2, 3);
    PL<E1> a(ctx, m, ck, 1 + ctx.rng.below(7), D, ctx.rng.chance(1, 2) ? m.sets[ck].get() : nullptr, "pla");
    PL<E2> b(ctx, m, ck, 1 + ctx.rng.below(7), D, ctx.rng.chance(1, 2) ? m.sets[ck].get() : nullptr, "plb");
    auto setup = [&](auto &p) { for (unsigned s = 0; s < p.n; ++s) { unsigned k = ctx.rng.below(4); while (k--) { unsigned ph; do ph = FIRST + ctx.rng.below(LAST - FIRST + 1); while (ph == D || (!prec && ph == FIRST)); p.addHandler(s, ph); } } };
    setup(a); setup(b);
    std::vector<std::tuple<int, unsigned, int, unsigned>> across;   // (who, handler) before (who, handler); 2 = external events
    std::vector<std::pair<int, unsigned>> glob;
    a.onRun = [&](unsigned h) { glob.push_back({0, h}); }; b.onRun = [&](unsigned h) { glob.push_back({1, h}); };
    a.regPrecedences(); b.regPrecedences();
    auto ends = [&](auto &p, unsigned s, unsigned ph) { int f = -1, l = -1; for (unsigned i = 0; i < p.hs.size(); ++i) if (p.hs[i].stage == s && p.hs[i].phase == ph) { if (f < 0) f = i; l = i; } return std::pair<int, int>(f, l); };
    if constexpr (std::is_same_v<E1, E2>)
    for (unsigned k = ctx.rng.below(3); k--;) {
        unsigned sa = ctx.rng.below(a.n), sb = ctx.rng.below(b.n);
        if (!a.hasH[sa] || !b.hasH[sb]) { VF_CHECK(ctx, vf::throws<SpartaException>([&] { a.pl.setPrecedenceBetweenPipeline(sa, b.pl, sb); }), "no-handler", "precedence without handlers"); continue; }
        a.pl.setPrecedenceBetweenPipeline(sa, b.pl, sb);
        for (unsigned ph = FIRST; ph <= LAST; ++ph) { int l = ends(a, sa, ph).second, f = ends(b, sb, ph).first; if (l >= 0 && f >= 0) across.push_back({0, unsigned(l), 1, unsigned(f)}); }
    }
    uint64_t nid = 1; unsigned budget = 20 + ctx.rng.below(40), tail = 20;
    // external producers and consumers of stages, run every cycle
    struct X { vf::Fn f; std::unique_ptr<Ev> ev; };
    std::deque<X> xs;
    if (ctx.rng.chance(1, 2)) for (unsigned k = 1 + ctx.rng.below(2); k--;) {
        unsigned s = ctx.rng.below(a.n), ph = FIRST + ctx.rng.below(LAST - FIRST + 1); bool prod = ctx.rng.chance(1, 2);
        unsigned idx = xs.size(); xs.emplace_back(); X &x = xs.back();
        x.f.f = [&, idx] { glob.push_back({2, idx}); };
        x.ev = mkEv(ph, m.sets[ck].get(), "ext" + std::to_string(idx), x.f);
        auto e = ends(a, s, ph); EvWrap w{x.ev->sc()};
        if (e.first < 0) { VF_CHECK(ctx, vf::throws<SpartaException>([&] { prod ? a.pl.setProducerForStage(s, w) : a.pl.setConsumerForStage(s, w); }), "no-handler", "stage precedence without a handler in the phase"); continue; }
        VF_EQ(ctx, (a.pl.getEventsAtStage(s, SchedulingPhase(ph)).size()), size_t(std::count_if(a.hs.begin(), a.hs.end(), [&](auto &h) { return h.stage == s && h.phase == ph; })), "events-at-stage", "getEventsAtStage");
        if (prod) { a.pl.setProducerForStage(s, w); across.push_back({2, idx, 0, unsigned(e.first)}); } else { a.pl.setConsumerForStage(s, w); across.push_back({0, unsigned(e.second), 2, idx}); }
    }
    vf::Fn pre, post, drv;
    bool first = true;
    std::unique_ptr<Ev> ePre = mkEv(unsigned(SchedulingPhase::Update), m.sets[ck].get(), "pre", pre);
    std::unique_ptr<Ev> ePost = mkEv(prec ? unsigned(SchedulingPhase::Update) : FIRST, m.sets[ck].get(), "post", post);
    std::unique_ptr<Ev> eDrv = mkEv(D, m.sets[ck].get(), "drv", drv);
    { EvWrap w{eDrv->sc()}; VF_CHECK(ctx, vf::throws<SpartaException>([&] { a.pl.setProducerForPipelineUpdate(w); }) && vf::throws<SpartaException>([&] { a.pl.setConsumerForPipelineUpdate(w); }), "update-precedence", "a non-Update event ordered with the update"); }
    EvWrap wp{ePre->sc()}, wo{ePost->sc()};
    a.pl.setProducerForPipelineUpdate(wp); b.pl.setProducerForPipelineUpdate(wp);
    if (prec) { a.pl.setConsumerForPipelineUpdate(wo); b.pl.setConsumerForPipelineUpdate(wo); }
    const bool manualA = ctx.rng.chance(1, 3), manualB = ctx.rng.chance(1, 3);
    if (!manualA) { a.own = true; a.pl.performOwnUpdates(); }
    if (!manualB) { b.own = true; b.pl.performOwnUpdates(); }
    auto upd = [&](auto &p) {
        if (!p.own) { if (prec && ctx.rng.chance(4, 5)) { p.pl.update(); p.modelUpdate(); p.alive = true; } else { p.expect.clear(); p.order.clear(); p.invalidatedNow.clear(); } }
        else if (!first) { p.modelUpdate(); p.alive = true; }
        p.verify("after the update");
    };
    pre.f = [&] {
        for (auto &c : across) { auto i = std::find(glob.begin(), glob.end(), std::pair<int, unsigned>(std::get<0>(c), std::get<1>(c))), j = std::find(glob.begin(), glob.end(), std::pair<int, unsigned>(std::get<2>(c), std::get<3>(c)));
            if (i != glob.end() && j != glob.end()) VF_CHECK(ctx, i < j, "across-order", "handlers of different pipelines or external events ran against their precedence"); }
        glob.clear();
        a.cycleEnd(); b.cycleEnd(); a.verify("before the update"); b.verify("before the update");
    };
    post.f = [&] { upd(a); upd(b); first = false; };
    const unsigned density = ctx.rng.of({1, 2, 3, 5});
    drv.f = [&] {
        a.atDriver(); b.atDriver();
        if (budget || tail) {
            ePre->go(1); ePost->go(1); eDrv->go(1); for (auto &x : xs) x.ev->go(1);
            if (!budget) { --tail; return; }     // let the pipelines drain
            --budget;
            for (unsigned k = ctx.rng.below(density + 1); k--;) { if (ctx.rng.chance(1, 2)) { a.op(nid); a.verify("after an operation"); } else { b.op(nid); b.verify("after an operation"); } }
        }
    };
    m.finalize();
    ePre->go(1); ePost->go(1); eDrv->go(1); for (auto &x : xs) x.ev->go(1);
    m.sched.run(m.period[ck] * (budget + 50), true, false);
    VF_EQ(ctx, budget + tail, 0u, "harness", "driver did not finish");
    if (a.own) VF_CHECK(ctx, !a.mod.any(), "harness", "not drained"); if (b.own) VF_CHECK(ctx, !b.mod.any(), "harness", "not drained");
}
} // namespace
VF_SECTION(pipeline_unique, 3000, 70000) { pipelineCase<PhasedUniqueEvent, PhasedUniqueEvent>(ctx); }
VF_SECTION(pipeline_payload, 3000, 70000) { pipelineCase<PhasedPayloadEvent<El>, PhasedPayloadEvent<El>>(ctx); }
VF_SECTION(pipeline_mixed, 800, 20000) { pipelineCase<PhasedUniqueEvent, PhasedPayloadEvent<El>>(ctx); }

namespace {
struct SDModel { Opt ps, ns; bool pend = false; };
template<class SD> void checkSD(vf::Ctx &ctx, SD &d, const SDModel &m)
{
    const SD &c = d;
    VF_EQ(ctx, c.isValid(), m.ps.has_value(), "ps-valid", "isValid"); VF_EQ(ctx, c.isValidNS(), m.ns.has_value(), "ns-valid", "isValidNS");
    if (m.ps) { VF_EQ(ctx, c.read().id, *m.ps, "ps-value", "present value"); VF_CHECK(ctx, c.read().ok(), "modified", "value was modified"); VF_EQ(ctx, d.access().id, *m.ps, "ps-value", "access"); }
    else if (ctx.rng.chance(1, 60)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { c.read(); }) && vf::throws<SpartaException>([&] { d.access(); }), "invalid-read", "an invalid value was read");
    if (m.ns) { VF_EQ(ctx, c.readNS().id, *m.ns, "ns-value", "next value"); VF_EQ(ctx, d.accessNS().id, *m.ns, "ns-value", "accessNS"); }
    else if (ctx.rng.chance(1, 60)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { c.readNS(); }) && vf::throws<SpartaException>([&] { d.accessNS(); }), "invalid-read", "an invalid next value was read");
    ctx.obs(m.ps.value_or(0) * 3 + m.ns.value_or(0));
}
} // namespace
VF_SECTION(shared_data, 4000, 90000)
{
    Quiet q;
    vf::Multi m({{uint32_t(1 + ctx.rng.below(4)), uint32_t(1 + ctx.rng.below(4))}});
    const unsigned ck = ctx.rng.below(2);
    Clock *clk = m.clks[ck].get();
    uint64_t nid = 1;
    using A = SharedData<El>; using M = SharedData<El, true>;
    std::deque<std::unique_ptr<A>> as; std::deque<SDModel> am; std::unique_ptr<M> mm; SDModel mmod;
    for (unsigned i = 1 + ctx.rng.below(3); i--;) { as.emplace_back(new A("sd" + std::to_string(i), clk, El(nid))); am.push_back({nid, {}, false}); ++nid; }
    mm.reset(new M("man", clk, El(nid))); mmod.ps = nid++;
    unsigned budget = 15 + ctx.rng.below(40);
    std::vector<std::unique_ptr<vf::Fn>> fn; std::vector<std::unique_ptr<Ev>> ev; bool first = true;
    const unsigned density = ctx.rng.of({1, 2, 5});
    auto op = [&] {
        unsigned i = ctx.rng.below(as.size()); A &a = *as[i]; SDModel &x = am[i];
        switch (ctx.rng.below(14)) {
        case 0: case 1: case 2: case 3: case 4: { El e(nid); ctx.op([&](auto &o) { o << m.now() << " write " << i << " " << nid; }); if (ctx.rng.chance(1, 2)) a.write(e); else a.write(El(e)); x.ns = nid++; x.pend = true; break; }
        case 5: { El e(nid); ctx.op([&](auto &o) { o << m.now() << " writePS " << i << " " << nid; }); if (ctx.rng.chance(1, 2)) a.writePS(e); else a.writePS(El(e)); x.ps = nid++; break; }
        case 6: ctx.op([&](auto &o) { o << m.now() << " clearPS " << i; }); a.clearPS(); x.ps.reset(); break;
        case 7: if (ctx.rng.chance(1, 2)) { ctx.op([&](auto &o) { o << m.now() << " clear " << i; }); a.clear(); x.ps.reset(); x.ns.reset(); } break;
        case 8: if (x.ns && ctx.rng.chance(1, 2)) { a.accessNS() = El(nid); x.ns = nid++; } else if (x.ps) { a.access() = El(nid); x.ps = nid++; } break;
        case 9: { bool pend = false; for (auto &z : am) pend |= z.pend; if (pend || as.size() > 4) break;
            ctx.op([&](auto &o) { o << m.now() << " copy " << i; });
            if (ctx.rng.chance(1, 2)) { as.emplace_back(ctx.rng.chance(1, 2) ? new A(a) : new A(A(a))); am.push_back(am[i]); }
            else { unsigned j = ctx.rng.below(as.size()); if (ctx.rng.chance(1, 2)) *as[j] = a; else { A t(a); *as[j] = std::move(t); } am[j] = SDModel(am[i]); }
            break; }
        case 10: { El e(nid); mm->write(e); mmod.ns = nid++; ctx.op("man write"); break; }
        case 11: mm->writePS(El(nid)); mmod.ps = nid++; break;
        case 12: mm->clearNS(); mmod.ns.reset(); ctx.op("man clearNS"); break;
        default: mm->update(); mmod.ps = mmod.ns; mmod.ns.reset(); ctx.op("man update");
        }
    };
    for (unsigned ph = FIRST; ph <= LAST; ++ph) {
        fn.emplace_back(new vf::Fn);
        fn.back()->f = [&, ph] {
            if (ph == FIRST) { if (!first) for (auto &x : am) if (x.pend) { x.ps = x.ns; x.ns.reset(); x.pend = false; } first = false; if (budget) { --budget; for (auto &e : ev) e->go(1); } }
            auto all = [&] { for (size_t i = 0; i < as.size(); ++i) checkSD(ctx, *as[i], am[i]); checkSD(ctx, *mm, mmod); };
            all();
            for (unsigned k = ctx.rng.below(density + 1); k--;) { op(); all(); }
        };
        ev.push_back(mkEv(ph, m.sets[ck].get(), "drv" + std::to_string(ph), *fn.back()));
    }
    m.finalize();
    for (auto &e : ev) e->go(1 + ctx.rng.below(1));
    m.sched.run(m.period[ck] * (budget + 20), true, false);
    VF_EQ(ctx, budget, 0u, "harness", "driver did not finish");
}
