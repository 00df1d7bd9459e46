// C34: every node and resource of a tree goes through its life exactly once and in the documented order, whatever the tree
// looks like and wherever a step fails.  A random tree of plain nodes, nodes with resources (by factory, dynamic, attached by
// hand) is built, configured, finalized, bound, run, dumped and torn down; every hook reports itself, and the sequence is
// compared with the one that the tree's shape demands.
#include "simenv.hpp"
#include "sparta/app/Simulation.hpp"
#include "sparta/app/SimulationConfiguration.hpp"
#include "sparta/kernel/SleeperThread.hpp"
#include "sparta/app/SimulationInfo.hpp"
#include "sparta/simulation/DynamicResourceTreeNode.hpp"
#include "sparta/simulation/Parameter.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include "sparta/simulation/ResourceFactory.hpp"
#include "sparta/simulation/ResourceTreeNode.hpp"
#include "sparta/simulation/Unit.hpp"
#include "sparta/events/StartupEvent.hpp"
#include <filesystem>
#include <sstream>
using namespace sparta;
namespace c34 {
enum Kind { PLAIN, COMP, UNIT, BARE, DYN };
struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };
struct Spec {
    int id; Kind kind; int parent; bool dynamic = false, now = false, late = false;   // late: never dumped
    uint32_t p = 7; std::string q = "dflt"; bool setp = false, setq = false, unread = false; int clk = -1;
    std::vector<int> dyn, pull; std::string dump; bool started = false; uint32_t at = 0;
    std::string name() const { return "n" + std::to_string(id); }
};
struct World {
    std::vector<Spec> s; std::vector<std::string> log; std::map<std::string, int> live; std::map<int, int> dtors; std::vector<std::string> wrong; std::set<std::string> faults;
    std::map<int, TreeNode *> node; std::vector<const Clock *> clks; TreeNode *root = nullptr; bool useCfg = false;
    void say(const std::string &w) { log.push_back(w); if (faults.count(w)) throw Boom(w); }
    void mute(const std::string &w) { log.push_back(w); }                // hooks which must not throw
    void born(const std::string &k) { ++live[k]; } void died(const std::string &k) { if (--live[k] < 0) wrong.push_back("destroyed twice: " + k); }
    int id(const std::string &n) const { return std::stoi(n.substr(1)); }
    const Clock *clockOf(int i) const { for (; i >= 0; i = s[i].parent) if (s[i].clk >= 0) return clks[s[i].clk]; return clks[0]; }
};
World *W;
std::string nm(int i) { return std::to_string(i); }
struct LogNode : TreeNode {
    int id; LogNode(TreeNode *p, int i) : TreeNode(p, "n" + nm(i), "node"), id(i) { W->born("node " + nm(id)); }
    ~LogNode() { W->died("node " + nm(id)); }
    void onConfiguring_() override { W->mute("configuring " + nm(id)); }
    void onBindTreeEarly_() override { W->say("early-node " + nm(id)); }
    void onBindTreeLate_() override { W->say("late-node " + nm(id)); }
    void onEnteringTeardown_() noexcept override { W->mute("teardown-node " + nm(id)); }
    void validateNode_() const override { W->say("validate " + nm(id)); }
};
struct Params : ParameterSet {
    int id = -1;
    Params(TreeNode *n) : ParameterSet(n) { id = W->id(n->getName()); W->born("params " + nm(id)); p.addDependentValidationCallback([](uint32_t &v, const TreeNode *) { return v < 1000; }, "p must be small"); }
    Params(const char *, int i) : ParameterSet(nullptr), id(i) { W->born("params " + nm(id)); }
    ~Params() { W->died("params " + nm(id)); }
    PARAMETER(uint32_t, p, 7, "a number")
    PARAMETER(std::string, q, "dflt", "a text")
};
struct Dyn;
// What all kinds of resources do in their life
template<class Base> struct Life : Base {
    int id; std::vector<std::unique_ptr<TreeNode>> dyns; bool up = false;
    Life(TreeNode *n, const Params *ps);
    ~Life() { W->died("res " + nm(id)); ++W->dtors[id]; }
    void onBindTreeLate_() override { W->say("late " + nm(id)); }
    void simulationTerminating_() override { W->say("terminating " + nm(id)); }
    void validatePostRun_(const PostRunValidationInfo &) const override { W->say("postrun " + nm(id)); }
    void dumpDebugContent_(std::ostream &o) const override { o << W->s[id].dump; W->say("dump " + nm(id)); }
    void onStartingTeardown_() override { W->say("teardown " + nm(id)); }
};
struct Comp : Life<Resource> { static constexpr char name[] = "comp"; typedef Params ParameterSet; Comp(TreeNode *n, const Params *p) : Life(n, p) {} void onBindTreeEarly_() override { W->say("early " + nm(id)); } };
struct UnitRes : Life<Unit> {
    static constexpr char name[] = "unit"; typedef Params ParameterSet;
    StartupEvent start; UniqueEvent<> tick; 
    UnitRes(TreeNode *n, const Params *p) : Life(n, p), start(n, CREATE_SPARTA_HANDLER(UnitRes, begin)), tick(&unit_event_set_, "tick", CREATE_SPARTA_HANDLER(UnitRes, step)) {}
    void begin() { W->say("start " + nm(id)); if (W->s[id].at) tick.schedule(W->s[id].at); }
    void step() { W->say("step " + nm(id)); }
};
constexpr char Comp::name[]; constexpr char UnitRes::name[];
struct Bare : Life<Resource> { Bare(TreeNode *n) : Life(n, nullptr) {} void onBindTreeEarly_() override { W->say("early " + nm(id)); } };
struct Dyn : Life<Resource> { Dyn(TreeNode *n, const Params *p) : Life(n, p) {} void onBindTreeEarly_() override { W->say("early " + nm(id)); } };
struct DynNode : DynamicResourceTreeNode<Dyn, Params> {
    int id; DynNode(TreeNode *p, int i, const Params *ps) : DynamicResourceTreeNode(p, "n" + nm(i), "dynamic", ps), id(i) { W->born("node " + nm(id)); }
    ~DynNode() { W->died("node " + nm(id)); }
};
template<class R> struct Fact : ResourceFactory<R> {
    ParameterSet *createParameters(TreeNode *n) override { W->mute("createparams " + nm(W->id(n->getName()))); return ResourceFactory<R>::createParameters(n); }
    void deleteParameters(ParameterSet *p) override { W->mute("deleteparams " + nm(static_cast<Params *>(p)->id)); ResourceFactory<R>::deleteParameters(p); }
    void onBuilding(ResourceTreeNode *n) override { W->mute("building " + nm(W->id(n->getName()))); }
    void onConfiguring(ResourceTreeNode *n) override { W->mute("configuring " + nm(W->id(n->getName()))); }
    void bindLate(TreeNode *n) override { W->say("late-node " + nm(W->id(n->getName()))); }
    void deleteSubtree(ResourceTreeNode *n) override { W->mute("deletesubtree " + nm(W->id(n->getName()))); }
};
std::map<int, std::unique_ptr<Params>> *dynParams;      // the caller owns the parameters of a dynamic node
template<class Base> Life<Base>::Life(TreeNode *n, const Params *ps) : Base(n), id(W->id(n->getName()))
{
    struct Half { int id; bool done = false; ~Half() { if (!done) W->died("res " + nm(id)); } } half{id};
    const Spec sp = W->s[id]; W->born("res " + nm(id)); std::string at = "ctor " + nm(id);
    if (ps) { at += " " + (sp.unread ? std::string("-") : nm(int(uint32_t(ps->p)))) + " " + std::string(ps->q); }
    if (this->getClock() != W->clockOf(id)) W->wrong.push_back("clock of resource " + nm(id));
    if (this->getContainer() != n || this->getName() != n->getName()) W->wrong.push_back("container of resource " + nm(id));
    if (sp.kind != BARE && n->getPhase() != TreeNode::TREE_FINALIZING) W->wrong.push_back("phase at construction of " + nm(id));
    W->mute(at); W->s[id].started = true; W->say("ctor-begin " + nm(id));
    for (int k : sp.pull) if (!W->s[k].started) { auto *r = dynamic_cast<ResourceTreeNode *>(W->node.at(k)); if (r->getResourceNow()) W->wrong.push_back("early resource " + nm(k)); r->finalize(); if (!r->getResourceNow() || !r->hasResource()) W->wrong.push_back("no resource after finalize() of " + nm(k)); }
    for (int k : sp.dyn) {
        if (W->s[k].kind == PLAIN) { dyns.emplace_back(new LogNode(n, k)); W->node[k] = dyns.back().get(); continue; }
        auto &dp = (*dynParams)[k]; dp.reset(new Params("", k)); if (W->s[k].setp) dp->p = W->s[k].p; if (W->s[k].setq) dp->q = W->s[k].q;
        auto *d = new DynNode(n, k, dp.get()); dyns.emplace_back(d); W->node[k] = d;
        if (W->s[k].now) { d->finalize(); if (!d->hasResource()) W->wrong.push_back("no resource after finalize() of " + nm(k)); if (!vf::throws<SpartaException>([&] { d->finalize(); })) W->wrong.push_back("finalized twice: " + nm(k)); }
    }
    W->say("ctor-end " + nm(id)); half.done = true; up = true;
}
// ---------------------------------------------------------------- the model
struct Model {
    World &w; std::vector<std::string> log; std::vector<std::vector<int>> kids; std::vector<int> top; std::vector<char> made, present, started;
    Model(World &x) : w(x), kids(x.s.size()), made(x.s.size()), present(x.s.size()), started(x.s.size()) { for (auto &s : w.s) if (!s.dynamic) { present[s.id] = 1; (s.parent < 0 ? top : kids[s.parent]).push_back(s.id); } }
    void say(const std::string &t) { log.push_back(t); if (w.faults.count(t)) throw Boom(t); }
    bool res(int i) const { return w.s[i].kind != PLAIN; } bool fact(int i) const { return w.s[i].kind == COMP || w.s[i].kind == UNIT; }
    template<class F> void walk(const std::vector<int> &v, F f) { for (size_t i = 0; i < v.size(); ++i) { int k = v[i]; f(k); walk(kids[k], f); } }
    template<class F> void walk(F f) { walk(top, f); }
    void build(int i) { if (fact(i)) { log.push_back("createparams " + nm(i)); log.push_back("building " + nm(i)); } if (w.s[i].kind == BARE) { ctor(i); } }
    void ctor(int i)
    {
        auto &s = w.s[i]; log.push_back("ctor " + nm(i) + (s.kind == BARE ? "" : " " + (s.unread ? "-" : nm(int(s.p))) + " " + s.q)); started[i] = 1; say("ctor-begin " + nm(i));
        try {
            for (int k : s.pull) if (!started[k]) create(k);
            for (int k : s.dyn) { present[k] = 1; kids[i].push_back(k); if (w.s[k].kind == DYN && w.s[k].now) create(k); }
            say("ctor-end " + nm(i)); made[i] = 1;
        } catch (...) { for (int k : s.dyn) drop(k); throw; }           // they were members of the resource
    }
    void drop(int i) { made[i] = present[i] = 0; for (int k : kids[i]) drop(k); }
    void create(int i) { if (started[i]) return; if (w.s[i].p >= 1000) throw SpartaException("limit"); ctor(i); }
    bool whole = false; void finalize() { fin(top); whole = true; }
    void fin(const std::vector<int> &v) { for (size_t i = 0; i < v.size(); ++i) { int k = v[i]; if (fact(k) || w.s[k].kind == DYN) create(k); fin(kids[k]); } }
    void configuring() { walk([&](int i) { if (w.s[i].kind != DYN) log.push_back("configuring " + nm(i)); }); }
    void early() { walk([&](int i) { auto k = w.s[i].kind; if (k == PLAIN || k == BARE) say("early-node " + nm(i)); if (res(i) && k != UNIT) say("early " + nm(i)); }); }
    void late() { walk([&](int i) { if (w.s[i].kind != DYN) say("late-node " + nm(i)); if (res(i)) say("late " + nm(i)); }); }
    void validate() { walk([&](int i) { auto k = w.s[i].kind; if (k == PLAIN || k == BARE) say("validate " + nm(i)); else if (fact(i) && w.s[i].unread) throw SpartaException("unread"); }); }
    void hook(const char *h) { walk([&](int i) { if (made[i]) say(std::string(h) + " " + nm(i)); }); }
    std::string dump()
    {
        std::string o; walk([&](int i) { if (!made[i]) return; bool err = w.faults.count("dump " + nm(i)); log.push_back("dump " + nm(i)); auto &d = w.s[i].dump; if (d.empty() && !err) return;
            o += "\n" + path(i) + "\n" + TreeNode::DEBUG_DUMP_SECTION_DIVIDER + d; if (err) o += "\n## ERROR: dumpDebugContent_ returned exception for this resource. Debug output may be incomplete\n"; o += TreeNode::DEBUG_DUMP_SECTION_DIVIDER; });
        return o;
    }
    std::string path(int i) const { return i < 0 ? "top" : path(w.s[i].parent) + "." + w.s[i].name(); }
    void teardown() { walk([&](int i) { auto k = w.s[i].kind; if (k == PLAIN || k == BARE) log.push_back("teardown-node " + nm(i)); if (made[i]) log.push_back("teardown " + nm(i)); }); }
};
void plan(vf::Ctx &ctx, World &w, bool sim)
{
    auto &r = ctx.rng; int n = int(r.range(1, ctx.thorough ? 30 : 14));
    for (int i = 0; i < n; ++i) { Spec s; s.id = i; s.kind = sim ? (r.chance(1, 4) ? PLAIN : r.chance(1, 2) ? COMP : UNIT) : Kind(r.below(4)); s.parent = i && r.chance(3, 4) ? int(r.below(i)) : -1; if (r.chance(1, 4)) s.clk = int(r.below(3)); w.s.push_back(s); }
    std::vector<int> facts; for (auto &s : w.s) if (s.kind == COMP || s.kind == UNIT) facts.push_back(s.id);
    for (int i : facts) { auto &s = w.s[i]; if (r.chance(1, 2)) s.setp = true, s.p = uint32_t(r.below(1000)); if (r.chance(1, 2)) s.setq = true, s.q = "t" + nm(int(r.below(100))); if (r.chance(1, 4)) for (int k = int(r.range(1, 2)); k-- > 0;) { int t = r.pick(facts); if (t != i) s.pull.push_back(t); } s.at = uint32_t(r.below(6)); }
    for (size_t i = 0; i < w.s.size() && w.s.size() < 40; ++i) {
        if ((w.s[i].kind == COMP || w.s[i].kind == UNIT || w.s[i].kind == DYN) && r.chance(1, 3)) for (int k = int(r.range(1, 3)); k-- > 0;) { Spec d; d.id = int(w.s.size()); d.kind = r.chance(2, 3) ? DYN : PLAIN; d.parent = int(i); d.dynamic = true; d.now = r.chance(1, 2); if (r.chance(1, 2)) d.setp = true, d.p = uint32_t(r.below(1000)); if (r.chance(1, 2)) d.setq = true, d.q = "d"; w.s.push_back(d); w.s[i].dyn.push_back(d.id); }
    }
    for (auto &s : w.s) if (s.kind != PLAIN && r.chance(1, 2)) s.dump = "contents of " + nm(s.id) + "\n" + (r.chance(1, 3) ? "more of " + nm(s.id) : "");
    w.node.clear();
}
std::string join(const std::vector<std::string> &v, size_t from) { std::string o; for (size_t i = from; i < v.size() && i < from + 8; ++i) o += (i > from ? ", " : "") + v[i]; return o; }
void same(vf::Ctx &ctx, World &w, Model &m, const std::string &phase)
{
    for (size_t i = 0; i < w.log.size() || i < m.log.size(); ++i) {
        std::string g = i < w.log.size() ? w.log[i] : "nothing", e = i < m.log.size() ? m.log[i] : "nothing";
        if (g != e) ctx.fail("sequence", phase + ": step " + nm(int(i)) + ": got '" + join(w.log, i) + "' want '" + join(m.log, i) + "'");
    }
    for (auto &l : w.log) ctx.obs(l); ctx.count("steps", w.log.size()); w.log.clear(); m.log.clear();
    if (!w.wrong.empty()) ctx.fail("state", phase + ": " + w.wrong[0]);
}
// Runs the real step and the model's; both must end the same way. Returns false when the step failed.
template<class A, class B> bool both(vf::Ctx &ctx, World &w, Model &m, const std::string &phase, A real, B model)
{
    ctx.op("phase", phase); std::string g, e;
    try { real(); } catch (const Boom &b) { g = b.what(); } catch (const SpartaException &x) { g = "refused"; ctx.op("refused", std::string(x.what()).substr(0, 200)); }
    try { model(); } catch (const Boom &b) { e = b.what(); } catch (const SpartaException &) { e = "refused"; }
    same(ctx, w, m, phase);
    VF_EQ(ctx, g, e, "outcome", phase + " ended with"); if (!e.empty()) ctx.count("failed " + phase);
    return e.empty();
}
void ends(vf::Ctx &ctx, World &w) { for (auto &l : w.live) VF_EQ(ctx, l.second, 0, "leak", "objects left: " + l.first); if (!w.wrong.empty()) ctx.fail("state", w.wrong[0]); }
struct Tree {
    World &w; Fact<Comp> fc; Fact<UnitRes> fu; std::map<int, std::unique_ptr<TreeNode>> own; std::map<int, std::unique_ptr<Bare>> bare; std::map<int, std::unique_ptr<Params>> dp;
    Tree(World &x) : w(x) { dynParams = &dp; }
    void add(int i, TreeNode *root)
    {
        auto &s = w.s[i]; TreeNode *p = s.parent < 0 ? root : w.node.at(s.parent); TreeNode *n;
        if (s.kind == COMP || s.kind == UNIT) n = new ResourceTreeNode(p, s.name(), "resource", s.kind == COMP ? static_cast<ResourceFactoryBase *>(&fc) : &fu); else n = new LogNode(p, i);
        own[i].reset(n); w.node[i] = n; if (s.clk >= 0) n->setClock(w.clks[s.clk]);
        if (s.kind == BARE) { bare[i].reset(new Bare(n)); }
    }
    void params() { for (auto &s : w.s) if (!s.dynamic && (s.kind == COMP || s.kind == UNIT)) { auto *ps = static_cast<ResourceTreeNode *>(own.at(s.id).get())->getParameterSet(); if (s.setp) ps->getParameter("p")->setValueFromString(nm(int(s.p))); if (s.setq) ps->getParameter("q")->setValueFromString(s.q);} }
};
void look(vf::Ctx &ctx, World &w, Model &m, bool open)
{
    for (auto &s : w.s) {
        if (!m.present[s.id] || !w.node.count(s.id)) continue; TreeNode *n = w.node[s.id]; const TreeNode *cn = n;
        if (!open) { VF_CHECK(ctx, vf::throws<SpartaException>([&] { n->hasResource(); }) && vf::throws<SpartaException>([&] { n->getResource(); }), "access", "the resource of " << s.name() << " can be asked for too early"); continue; }
        VF_EQ(ctx, n->hasResource(), bool(m.made[s.id]), "access", "hasResource of " + s.name());
        if (!m.made[s.id]) { VF_CHECK(ctx, vf::throws<SpartaException>([&] { n->getResource(); }) && vf::throws<SpartaException>([&] { cn->getResourceAs<Comp>(); }), "access", s.name() << " gives a resource it does not have"); continue; }
        VF_EQ(ctx, cn->getResource(), static_cast<const Resource *>(n->getResource()), "access", "getResource of " + s.name());
        auto is = [&](auto *t, bool want) { using T = std::remove_pointer_t<decltype(t)>; bool got = !vf::throws<SpartaException>([&] { T *a = n->getResourceAs<T>(); const T *b = cn->getResourceAs<T *>(); VF_CHECK(ctx, a == b && static_cast<Resource *>(a) == n->getResource(), "access", "resource of " << s.name()); VF_EQ(ctx, a->getContainer(), n, "access", "container of the resource of " + s.name()); }); VF_EQ(ctx, got, want, "access", "type of the resource of " + s.name()); };
        is((Comp *)nullptr, s.kind == COMP); is((UnitRes *)nullptr, s.kind == UNIT); is((Bare *)nullptr, s.kind == BARE); is((Dyn *)nullptr, s.kind == DYN); is((Resource *)nullptr, true);
        ctx.obs(s.id, m.made[s.id]);
    }
}
} // namespace c34
using namespace c34;
namespace {
const bool alone = (SleeperThread::disableForever(), true);
void badCalls(vf::Ctx &ctx, RootTreeNode &root, int phase)
{
    // 0 building, 1 configuring, 2 finalized
    auto no = [&](const char *what, auto f) { VF_CHECK(ctx, vf::throws<SpartaException>(f), "phase", what << " is accepted in the wrong phase " << phase); ctx.count("refused calls"); };
    if (phase != 0) no("enterConfiguring", [&] { root.enterConfiguring(); });
    if (phase != 1) no("enterFinalized", [&] { root.enterFinalized(); });
    if (phase != 2) { no("bindTreeEarly", [&] { root.bindTreeEarly(); }); no("bindTreeLate", [&] { root.bindTreeLate(); }); no("validatePreRun", [&] { root.validatePreRun(); }); }
    if (phase == 2) { no("a new node", [&] { TreeNode t("late", "late"); root.addChild(&t); }); }
}
} // namespace
VF_SECTION(tree, 2400, 40000)
{
    Quiet q; auto &r = ctx.rng; World w; W = &w; plan(ctx, w, false);
    Scheduler sched; ClockManager cm(&sched);
    std::unique_ptr<RootTreeNode> rootp(new RootTreeNode("top")); RootTreeNode &root = *rootp; w.root = &root;
    auto c0 = cm.makeRoot(&root, "rootclk"); auto c1 = cm.makeClock("ck1", c0, 1, 2); auto c2 = cm.makeClock("ck2", c0, 3, 1); cm.normalize(); root.setClock(c0.get()); w.clks = {c0.get(), c1.get(), c2.get()};
    // where it goes wrong
    if (r.chance(1, 2)) {
        static const char *H[] = {"ctor-begin", "ctor-end", "early", "late", "early-node", "late-node", "validate", "terminating", "postrun", "dump", "teardown", "param", "unread"};
        for (int k = int(r.range(1, 2)); k-- > 0;) { std::string h = H[r.below(13)]; auto &s = r.pick(w.s); if (h == "param") { if (s.kind == COMP || s.kind == UNIT) s.setp = true, s.p = 5000; } else if (h == "unread") { if (s.kind == COMP || s.kind == UNIT) s.unread = true; } else if (!(s.kind == BARE && h.substr(0, 4) == "ctor")) w.faults.insert(h + " " + nm(s.id)); }
    }
    ctx.op("plan", w.s.size(), w.faults.empty() ? "-" : *w.faults.begin());
    Model m(w);
    {
        Tree t(w); bool ok = true, open = false;
        for (auto &s : w.s) if (!s.dynamic) { t.add(s.id, &root); m.build(s.id); }
        same(ctx, w, m, "build"); look(ctx, w, m, false); badCalls(ctx, root, 0);
        root.enterConfiguring(); m.configuring(); same(ctx, w, m, "configure"); t.params(); look(ctx, w, m, false); badCalls(ctx, root, 1);
        ok = both(ctx, w, m, "finalize", [&] { root.enterFinalized(); }, [&] { m.finalize(); });
        if (ok) {
            open = true; for (auto &s : w.s) VF_CHECK(ctx, m.present[s.id] && root.getChild(m.path(s.id).substr(4))->isFinalized(), "phase", s.name() << " is not finalized");
            look(ctx, w, m, open); badCalls(ctx, root, 2);
            ok = both(ctx, w, m, "bind early", [&] { root.bindTreeEarly(); }, [&] { m.early(); }) && both(ctx, w, m, "bind late", [&] { root.bindTreeLate(); }, [&] { m.late(); });
            if (ok) ok = both(ctx, w, m, "validate", [&] { root.validatePreRun(); }, [&] { m.validate(); });
            if (ok) { sched.finalize(); }
            if (r.chance(1, 2)) both(ctx, w, m, "post-run", [&] { root.validatePostRun(); }, [&] { m.hook("postrun"); });
            if (r.chance(1, 2)) both(ctx, w, m, "terminating", [&] { root.simulationTerminating(); }, [&] { m.hook("terminating"); });
            look(ctx, w, m, open);
        }
        if (r.chance(1, 2) && open) { std::ostringstream o; root.dumpDebugContent(o); std::string e = m.dump(); same(ctx, w, m, "dump"); VF_EQ(ctx, o.str(), e, "dump", "debug dump"); ctx.count("dumps"); }
        root.enterTeardown(); if (open) { m.teardown(); same(ctx, w, m, "teardown"); look(ctx, w, m, true); root.enterTeardown(); same(ctx, w, m, "second teardown"); }
        w.log.clear(); m.log.clear(); w.faults.clear();
        // destroy in any order
        std::vector<int> ids; for (auto &o : t.own) ids.push_back(o.first); r.shuffle(ids); size_t nres = 0;
        if (r.chance(1, 8)) { rootp.reset(); }
        if (r.chance(1, 4)) t.bare.clear();
        for (int i : ids) { t.bare.erase(i); t.own.erase(i); }
        std::map<std::string, int> n; for (auto &l : w.log) ++n[l];
        for (auto &s : w.s) { if (m.fact(s.id)) { VF_EQ(ctx, n["deleteparams " + nm(s.id)], 1, "leak", "deletions of the parameters of " + s.name()); VF_EQ(ctx, n["deletesubtree " + nm(s.id)], 1, "leak", "deleteSubtree calls of " + s.name()); } if (m.made[s.id]) { ++nres; if (open) VF_EQ(ctx, w.dtors[s.id], 1, "leak", "destructions of the resource of " + s.name()); } }
        ctx.obs(nres, ids.size()); ctx.count("resources", nres);
    }
    dynParams = nullptr; ends(ctx, w); W = nullptr;
}
namespace {
struct Sim : app::Simulation {
    World &w; Model &m; Tree t; std::vector<Clock::Handle> clks; std::function<void(const char *)> at;
    Sim(Scheduler *sc, World &x, Model &y) : app::Simulation("model", sc), w(x), m(y), t(x) {}
    ~Sim() { getRoot()->enterTeardown(); w.mute("model down"); }
    void buildTree_() override
    {
        auto root = getClockManager().getRoot(); clks = {getClockManager().makeClock("ck1", root, 1, 2), getClockManager().makeClock("ck2", root, 3, 1)}; w.clks = {root.get(), clks[0].get(), clks[1].get()};
        w.mute("buildTree_"); for (auto &s : w.s) if (!s.dynamic) t.add(s.id, getRoot());
    }
    void configureTree_() override { w.mute("configureTree_"); t.params(); }
    void bindTree_() override { w.say("bindTree_"); }
    void postFinalizeFramework_() override { w.say("postFinalizeFramework_"); }
};
std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
size_t times(const std::string &t, const std::string &what) { size_t n = 0; for (size_t p = 0; (p = t.find(what, p)) != t.npos; ++n, p += what.size()) {} return n; }
} // namespace
VF_SECTION(simulation, 800, 12000)
{
    namespace fs = std::filesystem;
    Quiet q; auto &r = ctx.rng; World w; W = &w; plan(ctx, w, true); std::vector<int> units;
    for (auto &s : w.s) if (s.kind == UNIT) units.push_back(s.id);
    if (r.chance(1, 2)) {
        static const char *H[] = {"ctor-end", "early", "late", "late-node", "validate", "terminating", "postrun", "dump", "teardown", "start", "step", "start", "step", "param", "bindTree_"};
        for (int k = int(r.range(1, 2)); k-- > 0;) { std::string h = H[r.below(15)]; auto &s = r.pick(w.s); if (h == "param") { if (s.kind == COMP || s.kind == UNIT) s.setp = true, s.p = 5000; } else if (h == "bindTree_") w.faults.insert(h); else if (h == "start" || h == "step") { if (units.size()) { int u = r.pick(units); if (h == "start" || w.s[u].at) w.faults.insert(h + " " + nm(u)); } } else w.faults.insert(h + " " + nm(s.id)); }
    }
    std::string dir = ctx.scratch + "/sim"; fs::remove_all(dir); fs::create_directories(dir);
    app::SimulationConfiguration cfg; using C = app::SimulationConfiguration; int policy = int(r.below(3)); bool useCfg = r.chance(4, 5), badFile = r.chance(1, 5), post = r.chance(1, 2);
    cfg.debug_dump_policy = policy == 0 ? C::PostRunDebugDumpPolicy::DEBUG_DUMP_ERROR : policy == 1 ? C::PostRunDebugDumpPolicy::DEBUG_DUMP_ALWAYS : C::PostRunDebugDumpPolicy::DEBUG_DUMP_NEVER;
    if (r.chance(1, 3)) cfg.debug_dump_options = C::PostRunDebugDumpOptions::DEBUG_DUMP_NOTHING; std::string file = badFile ? dir + "/missing/dump.txt" : dir + "/dump.txt"; cfg.dump_debug_filename = file; cfg.validate_post_run = post;
    ctx.op("plan", w.s.size(), w.faults.empty() ? "-" : *w.faults.begin(), policy, useCfg, badFile, post);
    Model m(w); std::string arg = "model"; char *argv[] = {&arg[0], nullptr}; SimulationInfo::getInstance() = SimulationInfo("model", 1, argv, "", "", {});
    fs::path back = fs::current_path(); fs::current_path(dir);
    try {
        Scheduler sched;
        {
            Sim sim(&sched, w, m); std::exception_ptr err; bool open = false, dumped = false; std::string g, text; size_t mark = q.sink.str().size();
            if (useCfg) sim.configure(1, argv, &cfg);
            auto step = [&](const std::string &phase, auto real, auto model) { std::exception_ptr e; bool ok = both(ctx, w, m, phase, [&] { try { real(); } catch (...) { e = std::current_exception(); throw; } }, model); if (!ok) err = e; return ok; };
            bool ok = step("build", [&] { sim.buildTree(); }, [&] { m.log.push_back("buildTree_"); for (auto &s : w.s) if (!s.dynamic) m.build(s.id); })
                && step("configure", [&] { sim.configureTree(); }, [&] { m.configuring(); m.log.push_back("configureTree_"); })
                && step("finalize", [&] { sim.finalizeTree(); }, [&] { m.finalize(); open = true; m.early(); m.say("bindTree_"); m.late(); m.validate(); })
                && step("framework", [&] { sim.finalizeFramework(); }, [&] { m.say("postFinalizeFramework_"); });
            if (ok) {
                look(ctx, w, m, true); uint64_t len = r.range(8, 40); std::exception_ptr e; std::vector<std::string> ev, rest; mark = q.sink.str().size();
                try { sim.run(len); } catch (...) { e = std::current_exception(); }
                for (auto &l : w.log) (l.compare(0, 5, "start") && l.compare(0, 4, "step") ? rest : ev).push_back(l);
                w.log = rest; std::map<std::string, int> n; for (auto &l : ev) ++n[l]; std::string thrown, want; for (auto &f : w.faults) if (f.compare(0, 5, "start") == 0 || f.compare(0, 4, "step") == 0) if (n.count(f)) want = f;
                size_t expected = 0; for (int u : units) if (m.made[u]) expected += 1 + (w.s[u].at ? 1 : 0); bool anyFault = !want.empty();
                for (auto &k : n) VF_EQ(ctx, k.second, 1, "run", "occurrences of " + k.first); if (!anyFault) VF_EQ(ctx, n.size(), expected, "run", "events of the run"); for (auto &l : ev) ctx.obs(l);
                if (!anyFault) try { if (post && useCfg) m.hook("postrun"); m.hook("terminating"); } catch (const Boom &b) { want = b.what(); }
                try { if (e) std::rethrow_exception(e); } catch (const Boom &b) { thrown = b.what(); }
                if (want.empty() && useCfg && policy == 1) { text = m.dump(); dumped = true; }
                same(ctx, w, m, "run"); VF_EQ(ctx, thrown, want, "outcome", "the run ended with"); err = e; if (!want.empty()) ctx.count("failed run");
            }
            if (err) { mark = q.sink.str().size(); sim.dumpDebugContentIfAllowed(err); if (!useCfg || policy != 2) { text = m.dump(); dumped = true; } same(ctx, w, m, "dump"); ctx.count("failures"); }
            bool toFile = useCfg && !badFile; std::string out = q.sink.str().substr(mark), f = slurp(file); VF_EQ(ctx, fs::exists(file), dumped && toFile, "dump", "existence of the debug dump");
            if (dumped) {
                const std::string &where = toFile ? f : out; bool mixed = !toFile && std::any_of(w.faults.begin(), w.faults.end(), [](const std::string &x) { return x.compare(0, 4, "dump") == 0; }); VF_CHECK(ctx, mixed || where.find(text) != where.npos, "dump", "the debug dump does not have the contents of the resources: " << where.substr(0, 1500) << "\n--- wanted: " << text); for (auto &s : w.s) if (!s.dump.empty()) VF_EQ(ctx, times(where, "contents of " + nm(s.id) + "\n"), size_t(m.made[s.id]), "dump", "sections of " + s.name());
                if (err) { try { std::rethrow_exception(err); } catch (const std::exception &x) { VF_CHECK(ctx, where.find(std::string(x.what())) != where.npos, "dump", "the debug dump does not have the error: " << where.substr(0, 1500)); } }
                ctx.count(toFile ? "dump files" : "dumps to stderr");
            }
            m.log.clear(); w.log.clear(); if (m.whole) m.teardown();
        }
        m.log.push_back("model down"); std::vector<std::string> t; for (auto &l : w.log) if (l.compare(0, 6, "delete")) t.push_back(l);
        w.log = t; if (m.whole) same(ctx, w, m, "teardown");
        for (auto &s : w.s) if (m.made[s.id]) VF_EQ(ctx, w.dtors[s.id], 1, "leak", "destructions of the resource of " + s.name());
    } catch (...) { fs::current_path(back); dynParams = nullptr; throw; }
    fs::current_path(back); dynParams = nullptr; ends(ctx, w); W = nullptr;
}
