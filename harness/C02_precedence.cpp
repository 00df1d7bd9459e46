// C02: random precedence graphs; the oracle is the transitive closure of the declarations.
#include "simenv.hpp"
#include "sparta/events/Precedence.hpp"
#include "sparta/events/GlobalOrderingPoint.hpp"
#include "sparta/events/PhasedPayloadEvent.hpp"
#include "sparta/kernel/DAG.hpp"
#include "sparta/ports/DataPort.hpp"
#include "sparta/ports/SignalPort.hpp"
#include "sparta/ports/Bus.hpp"
#include "sparta/ports/PortSet.hpp"
using namespace sparta;
namespace {
using TE = Event<SchedulingPhase::Tick>;
using TU = UniqueEvent<SchedulingPhase::Tick>;
using TS = SingleCycleUniqueEvent<SchedulingPhase::Tick>;
using TP = PayloadEvent<int, SchedulingPhase::Tick>;

struct Node {
    int kind = 0;                    // 0 Event 1 Unique 2 SingleCycle 3 Payload 4 ordering point
    unsigned phase = 5;
    vf::Fn fn; vf::Fn1<int> fn1;
    std::unique_ptr<TreeNode> tn;
    TE *e = nullptr; TU *u = nullptr; TS *s = nullptr; TP *p = nullptr;
    std::unique_ptr<GlobalOrderingPoint> gop;
    Scheduleable *sc = nullptr;
};
struct Graph {
    vf::Ctx &ctx; vf::Env env; std::vector<std::unique_ptr<Node>> n;
    std::set<std::pair<int,int>> edges;
    std::vector<std::vector<char>> reach;
    // run-time monitor
    std::vector<int> fired; std::vector<char> fired_now;
    std::function<void(int)> on;
    explicit Graph(vf::Ctx &c) : ctx(c) {}
    ~Graph() { env.rtn.enterTeardown(); for (auto &x : n) x->tn.reset(); }
    void closure()
    {
        size_t N = n.size();
        reach.assign(N, std::vector<char>(N, 0));
        for (auto &e : edges) reach[e.first][e.second] = 1;
        for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) // phases order their events
            if (n[i]->sc && n[j]->sc && n[i]->phase < n[j]->phase) reach[i][j] = 1;
        for (size_t k = 0; k < N; ++k) for (size_t i = 0; i < N; ++i) if (reach[i][k])
            for (size_t j = 0; j < N; ++j) if (reach[k][j]) reach[i][j] = 1;
    }
    bool cyclic() { closure(); for (size_t i = 0; i < n.size(); ++i) if (reach[i][i]) return true; return false; }
    // declares i before j through a randomly chosen public way; returns false when no syntax exists
    bool declare(int i, int j)
    {
        Node &a = *n[i], &b = *n[j];
        if (a.phase != b.phase && a.kind != 4 && b.kind != 4) return false;
        if (a.kind == 4 && b.kind == 4) return false;
        ctx.op([&](std::ostream &o) { o << i << ">>" << j; });
        edges.insert({i, j});
        if (a.kind == 4) {
            if (b.e) *a.gop >> *b.e; else if (b.u) *a.gop >> *b.u; else if (b.s) *a.gop >> *b.s; else if (b.p) *a.gop >> *b.p;
            else a.gop->getGOPoint()->precedes(*b.sc);
        } else if (b.kind == 4) {
            if (a.e) *a.e >> *b.gop; else if (a.u) *a.u >> *b.gop; else if (a.s) *a.s >> *b.gop; else if (a.p) *a.p >> *b.gop;
            else a.sc->precedes(*b.gop->getGOPoint());
        } else {
            int w = ctx.rng.below(6);
            if (w == 0) a.sc->precedes(*b.sc);
            else if (w == 1) a.sc->precedes(b.sc, "reason");
            else if (w == 2) *a.sc >> *b.sc;
            else if (w == 3 && b.p) { auto &r = *a.sc >> *b.p; VF_CHECK(ctx, &r == b.p, "chain", "operator>> returned something else than its consumer"); }
            else if (w == 4 && a.p) { auto &r = *a.p >> *b.sc; VF_CHECK(ctx, &r == b.sc, "chain", "operator>> returned something else than its consumer"); }
            else if (w == 5 && a.e && b.e) {       // the same through unique pointers
                std::unique_ptr<TE> ua(a.e), ub(b.e); struct R { std::unique_ptr<TE> &x, &y; ~R() { x.release(); y.release(); } } rel{ua, ub};
                switch (ctx.rng.below(3)) { case 0: ua >> ub; break; case 1: *ua >> ub; break; default: ua >> *ub; }
                ctx.count("unique_ptr");
            }
            else if (w == 5 && a.e && b.p) { std::unique_ptr<TE> ua(a.e); std::unique_ptr<TP> ub(b.p); struct R { std::unique_ptr<TE> &x; std::unique_ptr<TP> &y; ~R() { x.release(); y.release(); } } rel{ua, ub}; ua >> ub; ctx.count("unique_ptr"); }
            else if (w == 5 && a.p && b.u) { std::unique_ptr<TP> ua(a.p); std::unique_ptr<TU> ub(b.u); struct R { std::unique_ptr<TP> &x; std::unique_ptr<TU> &y; ~R() { x.release(); y.release(); } } rel{ua, ub}; ua >> ub; ctx.count("unique_ptr"); }
            else typed(a, b);
        }
        return true;
    }
    void typed(Node &a, Node &b)
    {
        if (a.e && b.e) *a.e >> *b.e;
        else if (a.e && b.p) *a.e >> *b.p;
        else if (a.u && b.u) *a.u >> *b.u;
        else if (a.u && b.p) *a.u >> *b.p;
        else if (a.u && b.s) *a.u >> *b.s;
        else if (a.s && b.s) *a.s >> *b.s;
        else if (a.s && b.u) *a.s >> *b.u;
        else if (a.s && b.p) *a.s >> *b.p;
        else if (a.p && b.p) *a.p >> *b.p;
        else if (a.p && b.u) *a.p >> *b.u;
        else if (a.p && b.e) *a.p >> *b.e;
        else if (a.p && b.s) *a.p >> *b.s;
        else if (a.s) a.s->precedes(*b.sc);
        else a.sc->precedes(*b.sc);
    }
    void add(int kind, unsigned phase)
    {
        int i = n.size();
        n.emplace_back(new Node);
        Node &x = *n.back();
        x.kind = kind; x.phase = phase;
        std::string nm = "n" + std::to_string(i);
        x.fn.f = [this, i] { on(i); };
        x.fn1.f = [this, i](const int &v) { VF_EQ(ctx, v, i, "payload", "payload"); on(i); };
        if (kind == 4) { x.gop.reset(new GlobalOrderingPoint(&env.rtn, nm)); return; }
        if (phase == 5) {
            switch (kind) {
            case 0: x.e = new TE(&env.es, nm, x.fn.h(), 0); x.tn.reset(x.e); x.sc = x.e; break;
            case 1: x.u = new TU(&env.es, nm, x.fn.h(), 0); x.tn.reset(x.u); x.sc = x.u; break;
            case 2: x.s = new TS(&env.es, nm, x.fn.h()); x.tn.reset(x.s); x.sc = &x.s->getScheduleable(); break;
            case 3: x.p = new TP(&env.es, nm, x.fn1.h(), 0); x.tn.reset(x.p); x.sc = &x.p->getScheduleable(); break;
            }
        } else {
            x.kind = ctx.rng.below(2);
            x.tn.reset(x.kind ? vf::makeEvent<UniqueEvent>(phase, x.sc, &env.es, nm, x.fn.h(), 0) : vf::makeEvent<Event>(phase, x.sc, &env.es, nm, x.fn.h(), 0));
        }
    }
    void schedule(int i, uint64_t d)
    {
        Node &x = *n[i];
        if (x.p) x.p->preparePayload(i)->schedule(d);
        else if (x.s) x.s->schedule(d);
        else x.sc->schedule(d);
    }
    bool once(int i) { return n[i]->kind == 1 || n[i]->kind == 2; }
};

void build(vf::Ctx &ctx, Graph &g, bool groups)
{
    int N = 2 + ctx.rng.below(14);
    for (int i = 0; i < N; ++i) {
        unsigned r = ctx.rng.below(10);
        if (r < 7) g.add(ctx.rng.below(4), 5);
        else if (r < 8) g.add(0, ctx.rng.below(7));
        else g.add(4, 5);
    }
    // a random hidden order makes acyclic graphs; back edges make cyclic ones
    std::vector<int> ord(N);
    for (int i = 0; i < N; ++i) ord[i] = i;
    ctx.rng.shuffle(ord);
    int E = ctx.rng.below(2 * N + 1);
    for (int k = 0; k < E; ++k) {
        int a = ctx.rng.below(N), b = ctx.rng.below(N);
        if (a == b) continue;
        if (a > b) std::swap(a, b);
        g.declare(ord[a], ord[b]);
    }
    if (groups && N >= 5) { // EventGroup >> EventGroup, event >> group, group >> event (only plain Tick events)
        std::vector<int> pos; for (int i = 0; i < N; ++i) if (g.n[ord[i]]->e) pos.push_back(ord[i]);
        if (pos.size() >= 4) {
            const EventGroup ga(*g.n[pos[0]]->e, *g.n[pos[1]]->e), gb(*g.n[pos[2]]->e, *g.n[pos[3]]->e);
            switch (ctx.rng.below(3)) {
            case 0: ga >> gb; for (int i : {0, 1}) for (int j : {2, 3}) g.edges.insert({pos[i], pos[j]}); break;
            case 1: ga >> *g.n[pos[2]]->sc; g.edges.insert({pos[0], pos[2]}); g.edges.insert({pos[1], pos[2]}); break;
            default: *g.n[pos[0]]->sc >> gb; g.edges.insert({pos[0], pos[2]}); g.edges.insert({pos[0], pos[3]}); break;
            }
            ctx.count("groups");
        }
        std::vector<int> pp, pu; for (int i = 0; i < N; ++i) { if (g.n[ord[i]]->p) pp.push_back(i); if (g.n[ord[i]]->u) pu.push_back(i); }
        auto link = [&](int i, int j) { g.edges.insert({ord[i], ord[j]}); };
        // groups of mixed kinds: one unique and one payload event before or after the event in the hidden order
        for (int i = 0; i < N; ++i) if (g.n[ord[i]]->e && !pp.empty() && !pu.empty() && ctx.rng.chance(1, 2)) {
            TE &ev = *g.n[ord[i]]->e; TP &pe = *g.n[ord[pp[0]]]->p; TU &un = *g.n[ord[pu[0]]]->u;
            if (pp[0] < i && pu[0] < i) { if (ctx.rng.chance(1, 2)) EventGroup(pe, un) >> ev; else EventGroup(un, pe) >> EventGroup(ev); link(pp[0], i); link(pu[0], i); ctx.count("mixed_groups"); }
            else if (pp[0] > i && pu[0] > i) { if (ctx.rng.chance(1, 2)) ev >> EventGroup(un, pe); else EventGroup(ev) >> EventGroup(pe, un); link(i, pp[0]); link(i, pu[0]); ctx.count("mixed_groups"); }
        }
    }
    // unlinking a direct edge withdraws the declaration
    if (!g.edges.empty() && ctx.rng.chance(1, 4)) {
        std::vector<std::pair<int,int>> es;
        for (auto &e : g.edges) if (g.n[e.first]->sc && g.n[e.second]->sc) es.push_back(e);
        if (!es.empty()) {
            auto e = ctx.rng.pick(es);
            ctx.op([&](std::ostream &o) { o << "unlink " << e.first << "," << e.second; });
            VF_CHECK(ctx, g.n[e.first]->sc->unlink(g.n[e.second]->sc), "unlink", "unlink of an existing edge refused");
            g.edges.erase(e); ctx.count("unlinks");
        }
    }
}
void finalizeTree(Graph &g) { g.env.rtn.enterConfiguring(); g.env.rtn.enterFinalized(); }
} // namespace

VF_SECTION(acyclic, 12000, 300000)
{
    Graph g(ctx);
    build(ctx, g, true);
    if (g.cyclic()) { // an ordering point may close a cycle through the phases
        Quiet q;
        finalizeTree(g);
        VF_CHECK(ctx, vf::throws<SpartaException>([&] { g.env.sched.finalize(); }), "finalize", "cycle accepted");
        ctx.obs(1); ctx.count("cycles");
        return;
    }
    finalizeTree(g);
    try { g.env.sched.finalize(); }
    catch (const SpartaException &e) { ctx.fail("finalize", std::string("acyclic declarations rejected: ") + e.what()); }
    int N = g.n.size();
    for (auto &e : g.edges) if (g.n[e.first]->sc && g.n[e.second]->sc)
        VF_CHECK(ctx, g.n[e.first]->sc->getGroupID() < g.n[e.second]->sc->getGroupID(), "group-order", "edge " << e.first << ">>" << e.second << " not reflected");
    std::map<int, int> fired_n;          // firings this tick
    std::vector<int> want(N, 0);
    uint64_t tick = 0;
    int budget = 0;
    g.on = [&](int i) {
        ctx.obs(i); ctx.count("fired");
        ctx.op([&](std::ostream &o) { o << "fire " << i; });
        VF_EQ(ctx, g.env.sched.getCurrentTick(), tick, "tick", "tick");
        for (auto &f : fired_n)
            VF_CHECK(ctx, !g.reach[i][f.first], "order", i << " fired after " << f.first << " in the same tick though it must precede it");
        for (auto &f : fired_n) if (g.reach[f.first][i]) ctx.count("ordered_pairs");
        ++fired_n[i]; --want[i];
        VF_CHECK(ctx, want[i] >= 0, "extra", i << " fired more often than scheduled");
        // a predecessor may always schedule any of its successors for the current tick
        for (int j = 0; j < N && budget > 0; ++j)
            if (g.reach[i][j] && g.n[j]->sc && ctx.rng.chance(1, 4)) {
                --budget;
                ctx.op([&](std::ostream &o) { o << "sched+0 " << j; });
                g.schedule(j, 0); if (g.once(j)) want[j] = 1; else ++want[j];
                ctx.count("same_tick_scheds");
            }
        // a successor scheduling its predecessor into the running tick is rejected
        for (int j = 0; j < N; ++j)
            if (g.reach[j][i] && g.n[j]->sc && g.n[j]->kind == 0 && ctx.rng.chance(1, 8)) {
                VF_CHECK(ctx, vf::throws<SpartaException>([&] { g.schedule(j, 0); }), "pred-accepted", "predecessor " << j << " scheduled from " << i);
                ctx.count("rejected");
            }
    };
    int ticks = 1 + ctx.rng.below(4);
    for (int t = 0; t < ticks; ++t) {
        tick = g.env.sched.getCurrentTick() + 1;
        std::vector<int> order;
        for (int i = 0; i < N; ++i) if (g.n[i]->sc && ctx.rng.chance(3, 4)) { order.push_back(i); if (ctx.rng.chance(1, 6)) order.push_back(i); }
        ctx.rng.shuffle(order);
        fired_n.clear(); want.assign(N, 0); budget = 10;
        for (int i : order) { ctx.op([&](std::ostream &o) { o << "sched+1 " << i; }); g.schedule(i, 1); if (g.once(i)) want[i] = 1; else ++want[i]; }
        g.env.sched.run(2, true, false);
        for (int i = 0; i < N; ++i) VF_EQ(ctx, want[i], 0, "lost", "event " << i << " scheduled but not fired");
    }
    ctx.obs(g.edges.size());
}

VF_SECTION(cyclic, 8000, 200000)
{
    Quiet q;
    Graph g(ctx);
    build(ctx, g, false);
    g.on = [](int) {};
    bool early = ctx.rng.chance(1, 3);
    const bool pre = g.cyclic();
    if (early) g.env.sched.getDAG()->enableEarlyCycleDetect();
    bool threw = false;
    std::string what;
    int N = g.n.size();
    try {
        for (int k = 0; k < 30 && !g.cyclic(); ++k) {
            int a = ctx.rng.below(N), b = ctx.rng.below(N);
            if (a == b) continue;
            if (!g.reach[b][a] && !ctx.rng.chance(1, 4)) continue;
            g.declare(a, b);
        }
    } catch (const SpartaException &e) { threw = true; what = "early"; }
    bool cyc = g.cyclic();
    if (threw) { VF_CHECK(ctx, cyc && early, "false-cycle", "a declaration was rejected though the graph has no cycle"); ctx.obs(1); ctx.count("early"); return; }
    VF_CHECK(ctx, !(early && cyc && !pre), "missed-early", "early detection accepted a cycle");
    finalizeTree(g);
    threw = vf::throws<SpartaException>([&] { g.env.sched.finalize(); });
    ctx.obs(cyc * 31 + g.edges.size());
    for (auto &e : g.edges) ctx.obs(e.first * 64 + e.second);
    ctx.count(cyc ? "cycles" : "acyclic");
    VF_EQ(ctx, threw, cyc, "finalize", "finalize rejects exactly cyclic declarations");
}

// A cycle between phases: an event declared (through an ordering point) before an event of an earlier phase.
VF_SECTION(cross_phase, 500, 5000)
{
    Quiet q;
    Graph g(ctx);
    g.on = [](int) {};
    unsigned pa = ctx.rng.below(7), pb = ctx.rng.below(7);
    g.add(0, pa); g.add(0, pb); g.add(4, 5);
    g.declare(0, 2); g.declare(2, 1);
    finalizeTree(g);
    bool threw = vf::throws<SpartaException>([&] { g.env.sched.finalize(); });
    ctx.obs(pa * 8 + pb);
    VF_EQ(ctx, threw, pb < pa, "finalize", "ordering point from phase " << pa << " to phase " << pb);
    if (!threw) VF_CHECK(ctx, g.n[0]->sc->getGroupID() < g.n[1]->sc->getGroupID(), "group-order", "ordering through a point");
    if (pa != pb) VF_CHECK(ctx, vf::throws<SpartaException>([&] { *g.n[0]->sc >> *g.n[1]->sc; }), "phase-mix", "direct precedence across phases accepted");
}

// In ports, buses and phased payload events in the orders: points are named, so separate objects of one name are one point.
VF_SECTION(points, 2500, 40000)
{
    Quiet q;
    vf::Multi m({{1, uint32_t(1 + ctx.rng.below(3))}});
    TreeNode *node = m.nodes[1].get(); EventSet *es = m.sets[1].get();
    TreeNode unitA(node, "ua", "a"), unitB(node, "ub", "b");
    PortSet pin(&unitA), pout(&unitB); BusSet bsa(&unitA, "buses"), bsb(&unitB, "buses");
    Bus ba(&bsa, "left", TreeNode::GROUP_NAME_NONE, TreeNode::GROUP_IDX_NONE, "bus"), bb(&bsb, "right", TreeNode::GROUP_NAME_NONE, TreeNode::GROUP_IDX_NONE, "bus");
    struct It { int kind; std::unique_ptr<TE> e; std::unique_ptr<TP> p; std::unique_ptr<PhasedPayloadEvent<int>> pp; std::unique_ptr<DataInPort<int>> in; std::unique_ptr<DataOutPort<int>> out;
                std::unique_ptr<SignalInPort> sin; std::unique_ptr<SignalOutPort> sout; vf::Fn fn; vf::Fn1<int> fn1; };
    const int N = 3 + ctx.rng.below(8); std::vector<std::unique_ptr<It>> v; std::vector<int> order; std::string bad;
    std::vector<std::vector<char>> reach(N, std::vector<char>(N, 0));
    auto hit = [&](int i) { ctx.obs(i); ctx.count("fired"); for (int f : order) { if (reach[i][f] && bad.empty()) bad = std::to_string(i) + " came after " + std::to_string(f) + " though it is declared before it"; if (reach[f][i]) ctx.count("ordered_pairs"); } order.push_back(i); };
    const SchedulingPhase TK = SchedulingPhase::Tick;
    const bool bus = ctx.rng.chance(1, 3);
    for (int i = 0; i < N; ++i) {
        v.emplace_back(new It); It &x = *v.back(); x.kind = ctx.rng.below(6); if (bus && x.kind == 4) x.kind = 3;
        x.fn.f = [&hit, i] { hit(i); }; x.fn1.f = [&hit, i, &ctx](const int &d) { VF_EQ(ctx, d, i, "payload", "payload"); hit(i); };
        const std::string nm = "n" + std::to_string(i);
        switch (x.kind) {
        case 0: x.e.reset(new TE(es, nm, x.fn.h(), 0)); break;
        case 1: x.p.reset(new TP(es, nm, x.fn1.h(), 0)); break;
        case 2: x.pp.reset(new PhasedPayloadEvent<int>(es, nm, TK, x.fn1.h(), 0)); break;
        case 3: x.in.reset(new DataInPort<int>(bus ? &ba.getPortSet() : &pin, "in_" + nm, TK, 0)); x.in->registerConsumerHandler(x.fn1.h()); x.out.reset(new DataOutPort<int>(bus ? &bb.getPortSet() : &pout, "out_" + nm, false)); break;
        case 4: x.sin.reset(new SignalInPort(&pin, "in_" + nm, TK, 0)); x.sin->registerConsumerHandler(x.fn.h()); x.sout.reset(new SignalOutPort(&pout, "out_" + nm, false)); break;
        default: break;       // a point
        }
    }
    auto gp = [&](int i) { return GlobalOrderingPoint(node, "point" + std::to_string(i)); };
    auto edge = [&](int i, int j) {
        It &a = *v[i], &b = *v[j];
        if (a.kind == 5) {
            if (b.kind == 5) return;
            const GlobalOrderingPoint g = gp(i);
            if (b.e) g >> *b.e; else if (b.p) g >> *b.p; else if (b.pp) g.getGOPoint()->precedes(b.pp->getScheduleable());
            else { InPort &r = b.in ? g >> static_cast<InPort &>(*b.in) : g >> static_cast<InPort &>(*b.sin); VF_CHECK(ctx, (b.in ? (InPort *)b.in.get() : b.sin.get()) == &r, "chain", "point >> port"); ctx.count("to_port"); }
        } else if (b.kind == 5) {
            const GlobalOrderingPoint g = gp(j);
            if (a.e) *a.e >> g; else if (a.p) *a.p >> g; else if (a.pp) a.pp->getScheduleable().precedes(*g.getGOPoint());
            else { if (a.in) static_cast<InPort &>(*a.in) >> g; else static_cast<InPort &>(*a.sin) >> g; ctx.count("from_port"); }
        } else {
            Scheduleable *sb = b.e ? b.e.get() : b.p ? &b.p->getScheduleable() : b.pp ? &b.pp->getScheduleable() : nullptr;
            if (a.in || a.sin) { if (!sb) return; if (a.in) a.in->registerConsumerEvent(*sb); else a.sin->registerConsumerEvent(*sb); ctx.count("consumers"); }
            else if (!sb) return;      // producers are the ports' own matter (C06)
            else if (a.e && b.p) *a.e >> *b.p; else if (a.pp && b.e) *a.pp >> *b.e; else if (a.p) *a.p >> *sb; else if (a.pp) a.pp->getScheduleable() >> *sb; else *a.e >> *sb;
        }
        reach[i][j] = 1; ctx.op("edge", i, j);
    };
    std::vector<int> ord(N); for (int i = 0; i < N; ++i) ord[i] = i; ctx.rng.shuffle(ord);
    std::set<std::pair<int, int>> done;
    for (int k = ctx.rng.below(3 * N); k > 0; --k) { int a = ctx.rng.below(N), b = ctx.rng.below(N); if (a > b) std::swap(a, b); if (a != b && done.insert({a, b}).second) edge(ord[a], ord[b]); }
    for (auto &x : v) if (!bus && x->out) sparta::bind(*x->out, *x->in); else if (x->sout) sparta::bind(*x->sout, *x->sin);
    std::unique_ptr<TE> busConsumer; vf::Fn busFn; bool consumed = false;
    if (bus) {      // an event after everything that arrives on the bus
        busFn.f = [&] { consumed = true; }; busConsumer.reset(new TE(es, "after_bus", busFn.h(), 0));
        ba >> *busConsumer; ctx.count("buses");
        VF_CHECK(ctx, vf::throws<SpartaException>([&] { ba.registerPort(nullptr); }), "bus-late", "a port was added to a bus after its precedence was set");
        sparta::bind(ba, bb);
        for (int i = 0; i < N; ++i) if (v[i]->in) v[i]->fn1.f = [&, i](const int &d) { VF_EQ(ctx, d, i, "payload", "payload"); if (consumed && bad.empty()) bad = "the event after the bus fired before a delivery on it"; hit(i); };
    }
    for (int k = 0; k < N; ++k) for (int i = 0; i < N; ++i) if (reach[i][k]) for (int j = 0; j < N; ++j) if (reach[k][j]) reach[i][j] = 1;
    m.finalize();
    for (int t = 0, T = 2 + ctx.rng.below(3); t < T; ++t) {
        std::vector<int> o2(ord); ctx.rng.shuffle(o2); order.clear(); consumed = false; size_t want = 0;
        bool c = false;
        for (int i : o2) { It &x = *v[i]; if (bus && !c && ctx.rng.chance(1, 3)) { c = true; busConsumer->schedule(1); }
            if (x.kind == 5 || ctx.rng.chance(1, 5)) continue; ++want;
            if (x.e) x.e->schedule(1); else if (x.p) x.p->preparePayload(i)->schedule(1); else if (x.pp) x.pp->preparePayload(i)->schedule(1); else if (x.out) x.out->send(i, 1); else x.sout->send(1); }
        if (bus && !c) busConsumer->schedule(1);
        m.sched.run(2 * m.period[1] + 1, true);
        VF_CHECK(ctx, bad.empty(), "order", bad);
        VF_EQ(ctx, order.size(), want, "lost", "events and deliveries of tick " << m.now());
        if (bus) VF_CHECK(ctx, consumed, "lost", "the event after the bus");
    }
}
