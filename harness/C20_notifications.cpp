// C20: notifications against a plain list of registrations: who is told of each post, the counts a source reports, rejected requests, observation-state callbacks, changes made from inside a callback.
#include "simenv.hpp"
#include "sparta/log/NotificationSource.hpp"
#include <set>
using namespace sparta;
namespace {
struct Got { int obs, meth; const TreeNode *origin, *at; std::string data; };
struct World;
struct Obs {
    World *w; int id;
    void note(int m, const TreeNode *o, const TreeNode *a, const std::string &d);
    void i0(const TreeNode &o, const TreeNode &a, const int &d) { note(0, &o, &a, std::to_string(d)); }
    void i1(const TreeNode &o, const TreeNode &a, const int &d) { note(1, &o, &a, std::to_string(d)); }
    void ip(const int &d) { note(2, nullptr, nullptr, std::to_string(d)); }
    void s0(const TreeNode &o, const TreeNode &a, const std::string &d) { note(3, &o, &a, d); }
    void sp(const std::string &d) { note(4, nullptr, nullptr, d); }
};
struct Reg { int obs, meth, node; std::string name; };
struct Src { int node; bool isStr; std::string name; std::unique_ptr<NotificationSource<int>> i; std::unique_ptr<NotificationSource<std::string>> s; uint64_t posts = 0; std::vector<std::unique_ptr<NotificationSourceBase::ObservationStateCallback>> cbs; uint64_t cb[4] = {0, 0, 0, 0}, want[4] = {0, 0, 0, 0}; uint32_t lastN = 0;
    NotificationSourceBase *b() { if (isStr) return s.get(); return i.get(); } };
struct Nd { int parent = -1; std::vector<int> kids; TreeNode *p = nullptr; std::unique_ptr<TreeNode> own; };
const char *NAMES[] = {"a", "ab", "abc", "b", "ba", "channel", "Chan_x"};
bool glob(const char *p, const char *s)
{
    if (!*p) return !*s;
    if (*p == '*') { for (;; ++s) { if (glob(p + 1, s)) return true; if (!*s) return false; } }
    if (*p == '?') return glob(p + 1, s) || (*s && glob(p + 1, s + 1));
    if (*p == '+') { if (!*s) return false; return glob(p + 1, s + 1) || glob(p, s + 1); }
    return *p == *s && glob(p + 1, s + 1);
}
std::vector<std::string> split(const std::string &n) { std::vector<std::string> v; std::string c; bool any = false; for (char ch : n + ",") { if (ch == ',') { v.push_back(c); c.clear(); any = true; } else if (ch != ' ' && ch != '\t') c += ch; } (void)any; return v; }
bool matches(const std::string &spec, const std::string &name) { for (auto &p : split(spec)) if (p.empty() || p == name || glob(p.c_str(), name.c_str())) return true; return false; }
bool strMeth(int m) { return m >= 3; }
struct World {
    vf::Ctx &ctx; RootTreeNode rtn; std::vector<Nd> n; std::vector<std::unique_ptr<Src>> src; std::vector<Reg> regs; std::vector<std::unique_ptr<Obs>> obs; std::vector<Got> got; std::function<void()> inside; int depth = 0; const int VG = -2; uint64_t ndeliv = 0;
    World(vf::Ctx &c) : ctx(c), rtn("top") { n.emplace_back(); n[0].p = &rtn; for (int i = 0; i < 4; ++i) obs.emplace_back(new Obs{this, i}); }
    ~World() {
        // leave the virtual global node as it was found
        for (auto &r : regs) if (r.node == VG) try { dereg(r); } catch (...) {}
        rtn.enterTeardown(); for (auto &s : src) { s->cbs.clear(); }
        for (auto &s : src) { s->i.reset(); s->s.reset(); } while (n.size() > 1) n.pop_back(); }
    TreeNode *at(int i) { return i == VG ? TreeNode::getVirtualGlobalNode() : n[i].p; }
    bool under(int x, int a) { if (a == VG) return true; for (; x >= 0; x = n[x].parent) if (x == a) return true; return false; }
    bool inTree(int x) { return under(x, 0); }
    bool sees(const Reg &r, Src &s) { return strMeth(r.meth) == s.isStr && matches(r.name, s.name) && (under(s.node, r.node)); }
    void reg(const Reg &r, bool ens) { auto *o = obs[r.obs].get(); TreeNode *p = at(r.node);
        switch (r.meth) { case 0: p->registerForNotification<int, Obs, &Obs::i0>(o, r.name, ens); break; case 1: p->registerForNotification<int, Obs, &Obs::i1>(o, r.name, ens); break; case 2: p->registerForNotification<int, Obs, &Obs::ip>(o, r.name, ens); break; case 3: p->registerForNotification<std::string, Obs, &Obs::s0>(o, r.name, ens); break; default: p->registerForNotification<std::string, Obs, &Obs::sp>(o, r.name, ens); } }
    void dereg(const Reg &r) { auto *o = obs[r.obs].get(); TreeNode *p = at(r.node);
        switch (r.meth) { case 0: p->deregisterForNotification<int, Obs, &Obs::i0>(o, r.name); break; case 1: p->deregisterForNotification<int, Obs, &Obs::i1>(o, r.name); break; case 2: p->deregisterForNotification<int, Obs, &Obs::ip>(o, r.name); break; case 3: p->deregisterForNotification<std::string, Obs, &Obs::s0>(o, r.name); break; default: p->deregisterForNotification<std::string, Obs, &Obs::sp>(o, r.name); } }
    std::string spec() { auto one = [&] { std::string s = NAMES[ctx.rng.below(7)]; switch (ctx.rng.below(6)) { case 0: return s.substr(0, 1) + "*"; case 1: return "*" + s.substr(s.size() - 1); case 2: return s + "?"; default: return s; } };
        switch (ctx.rng.below(6)) { case 0: return std::string(); case 1: return one() + "," + one(); case 2: return one() + " ,\t" + one() + ", " + one(); default: return one(); } }
    int attachedOrVG() { if (ctx.rng.chance(1, 6)) return VG; return int(ctx.rng.below(n.size())); }
    Reg *find(const Reg &r) { for (auto &x : regs) if (x.obs == r.obs && x.meth == r.meth && x.node == r.node && x.name == r.name) return &x; return nullptr; }
    std::string str(const Reg &r) { return "obs" + std::to_string(r.obs) + ".m" + std::to_string(r.meth) + " at " + (r.node == VG ? "virtual-global" : "n" + std::to_string(r.node)) + " name '" + r.name + "'"; }
    void states(Src &s, bool add, size_t before) { if (s.cbs.empty()) return; if (add) { if (!before) s.want[0]++; s.want[2]++; } else { if (before == 1) s.want[1]++; s.want[3]++; } }
    size_t count(Src &s) { size_t c = 0; for (auto &r : regs) c += sees(r, s); return c; }
    void doReg() {
        Reg r{int(ctx.rng.below(4)), int(ctx.rng.below(5)), attachedOrVG(), spec()}; bool ens = r.node != VG && ctx.rng.chance(1, 2); bool can = false; for (auto &s : src) can |= sees(r, *s);
        bool bad = find(r) || (ens && !can); ctx.op("register", str(r), ens); bool threw = false; try { reg(r, ens); } catch (SpartaException &) { threw = true; }
        VF_EQ(ctx, threw, bad, find(r) ? "double_registration" : "ensure_possible", str(r)); if (bad) { ctx.count("rejected"); return; }
        for (auto &s : src) if (sees(r, *s)) states(*s, true, count(*s)); regs.push_back(r); }
    void doDereg() {
        Reg r; if (!regs.empty() && ctx.rng.chance(9, 10)) r = ctx.rng.pick(regs); else r = Reg{int(ctx.rng.below(4)), int(ctx.rng.below(5)), attachedOrVG(), spec()};
        Reg *k = find(r); ctx.op("deregister", str(r)); bool threw = false; try { dereg(r); } catch (SpartaException &) { threw = true; } VF_EQ(ctx, threw, k == nullptr, "unknown_deregistration", str(r)); if (!k) { ctx.count("rejected"); return; }
        for (auto &s : src) if (sees(r, *s)) states(*s, false, count(*s)); regs.erase(regs.begin() + (k - regs.data())); }
    int addNode() {
        int par = ctx.rng.chance(1, 3) ? -1 : int(ctx.rng.below(n.size())); Nd d; std::string nm = "n" + std::to_string(n.size()) + "_"; ctx.op("node", nm, par); d.own.reset(new TreeNode(nm, "d")); d.p = d.own.get(); d.parent = par; if (par >= 0) { n[par].p->addChild(d.p); n[par].kids.push_back(int(n.size())); } n.push_back(std::move(d)); return int(n.size()) - 1; }
    void attach() { std::vector<int> loose; for (size_t i = 1; i < n.size(); ++i) if (n[i].parent < 0) loose.push_back(int(i)); if (loose.empty()) return; int c = ctx.rng.pick(loose), par = 0; do par = int(ctx.rng.below(n.size())); while (under(par, c)); ctx.op("attach", c, par); n[par].p->addChild(n[c].p); n[c].parent = par; n[par].kids.push_back(c); ctx.count("attached_late"); }
    void addSrc() {
        auto s = std::make_unique<Src>(); s->node = int(ctx.rng.below(n.size())); s->isStr = ctx.rng.chance(2, 5); s->name = NAMES[ctx.rng.below(7)]; std::string nm = "s" + std::to_string(src.size()) + "_"; ctx.op("source", nm, s->node, s->isStr, s->name);
        if (s->isStr) s->s.reset(new NotificationSource<std::string>(n[s->node].p, nm, "d", s->name)); else s->i.reset(new NotificationSource<int>(n[s->node].p, nm, "d", s->name));
        if (ctx.rng.chance(1, 2)) { Src *q = s.get(); using C = NotificationSourceBase::ObservationStateChange; int k = 0; for (C c : {C::SOLE_OBSERVER_REGISTERING, C::SOLE_OBSERVER_DEREGISTERING, C::OBSERVER_REGISTERING, C::OBSERVER_DEREGISTERING}) { int kk = k++; s->cbs.emplace_back(new NotificationSourceBase::ObservationStateCallback(*s->b(), c, [q, kk, this](NotificationSourceBase const &b, uint32_t num) { q->cb[kk]++; q->lastN = num; if (&b != q->b()) throw std::runtime_error("callback names another source"); })); } }
        src.push_back(std::move(s)); }
    void check(Src &s) {
        std::set<const TreeNode *> pts, real; size_t c = 0; for (auto &r : regs) if (sees(r, s)) { ++c; pts.insert(at(r.node)); }
        auto *b = s.b(); auto what = b->getName() + " '" + s.name + "'"; VF_EQ(ctx, size_t(b->getNumObservers()), c, "num_observers", what); VF_EQ(ctx, b->observed(), c > 0, "observed", what); for (auto *p : b->getObservationPoints()) VF_CHECK(ctx, real.insert(p).second, "duplicate_point", what);
        VF_CHECK(ctx, real == pts, "observation_points", what << " reports " << real.size() << " points, expected " << pts.size()); VF_EQ(ctx, b->getNumObservationPoints(), uint32_t(pts.size()), "num_points", what); VF_EQ(ctx, b->getNumPosts(), s.posts, "num_posts", what);
        if (!s.cbs.empty()) for (int i = 0; i < 4; ++i) VF_EQ(ctx, s.cb[i], s.want[i], "state_callback", what << " change " << i);
        VF_CHECK(ctx, b->canGenerateNotification(s.isStr ? typeid(std::string) : typeid(int), s.name), "can_generate", what); VF_CHECK(ctx, !b->canGenerateNotification(s.isStr ? typeid(int) : typeid(std::string), s.name), "can_generate_type", what); }
    void post() {
        if (src.empty()) return; Src &s = *ctx.rng.pick(src); got.clear(); std::string data; int v = int(ctx.rng.below(100000)); data = std::to_string(v);
        std::vector<Reg> exp; for (auto &r : regs) if (sees(r, s)) exp.push_back(r); std::vector<Reg> must = exp, may;
        ctx.op("post", s.b()->getName(), data);
        int delivered = 0; bool mutate = ctx.rng.chance(1, 3) && !exp.empty(); int when = mutate ? int(ctx.rng.below(exp.size())) : -1; size_t already = 0; std::vector<Reg> removed, added;
        inside = [&] { if (delivered++ != when) return; already = got.size(); auto old = regs; for (int k = 0, m = 1 + int(ctx.rng.below(3)); k < m; ++k) if (ctx.rng.chance(1, 2)) doReg(); else doDereg(); for (auto &o : old) if (!find(o)) removed.push_back(o); for (auto &r : regs) { bool was = false; for (auto &o : old) was |= o.obs == r.obs && o.meth == r.meth && o.node == r.node && o.name == r.name; if (!was) added.push_back(r); } };
        if (s.isStr) s.s->postNotification(data); else s.i->postNotification(v); s.posts++; inside = nullptr; if (when >= 0) ctx.count("changed_while_posted");
        auto key = [&](int o, int m, const TreeNode *a) { std::ostringstream k; k << o << "." << m << "@"; if (m == 2 || m == 4) k << "plain"; else k << a->getLocation(); return k.str(); };
        std::map<std::string, int> lo, hi, have; for (auto &r : exp) { auto k = key(r.obs, r.meth, at(r.node)); lo[k]++; hi[k]++; }
        for (auto &r : removed) if (sees(r, s)) lo[key(r.obs, r.meth, at(r.node))]--;          // not called after it left, unless it had been before
        // (a registration made while posted takes part from the next post on)
        for (auto &g : got) { VF_EQ(ctx, g.data, data, "data", "wrong payload"); if (g.origin) VF_CHECK(ctx, g.origin == s.b(), "origin", "delivered with origin " << g.origin->getLocation()); have[key(g.obs, g.meth, g.at)]++; }
        for (auto &h : have) { VF_CHECK(ctx, hi.count(h.first), "stray", h.first << " was called for " << s.b()->getLocation() << " '" << s.name << "'"); VF_CHECK(ctx, h.second <= hi[h.first], "delivered_twice", h.first << " called " << h.second << " times, registered " << hi[h.first]); }
        for (auto &l : lo) VF_CHECK(ctx, have[l.first] >= l.second, "lost", l.first << " called " << have[l.first] << " times, registered " << l.second << " for '" << s.name << "'");
        // an observer gone before its turn is not called: what was delivered before the change plus what is still registered bounds it
        if (when >= 0) { std::map<std::string, int> before, cap; for (size_t i = 0; i < already; ++i) before[key(got[i].obs, got[i].meth, got[i].at)]++; for (auto &r : removed) if (sees(r, s)) { auto k = key(r.obs, r.meth, at(r.node)); if (lo[k] == 0 && !before[k]) VF_EQ(ctx, have[k], 0, "called_after_deregistration", k); } }
        ndeliv += got.size(); ctx.count("posts"); ctx.count("deliveries", got.size()); ctx.obs(got.size(), s.name, exp.size()); check(s); }
    void locate() {
        int at0 = int(ctx.rng.below(n.size())); std::string nm = ctx.rng.chance(1, 3) ? "" : NAMES[ctx.rng.below(7)]; if (ctx.rng.chance(1, 4)) nm = nm.substr(0, 1) + "*"; ctx.op("locate", at0, nm);
        std::set<TreeNode *> want[2]; size_t all = 0; for (auto &s : src) if (under(s->node, at0)) { ++all; if (nm.empty() || matches(nm, s->name)) want[s->isStr].insert(s->b()); }
        std::vector<TreeNode *> a, b; n[at0].p->locateNotificationSources<int>(a, nm); n[at0].p->locateNotificationSources<std::string>(b, nm); std::vector<TreeNode::NotificationInfo> inf; n[at0].p->getPossibleSubtreeNotifications(inf);
        auto mine = [&](std::vector<TreeNode *> &v) { std::set<TreeNode *> r; for (auto *t : v) r.insert(t); return r; };
        VF_CHECK(ctx, mine(a) == want[0] && a.size() == want[0].size(), "locate_int", "found " << a.size() << " expected " << want[0].size() << " for '" << nm << "'"); if (at0) { VF_CHECK(ctx, mine(b) == want[1], "locate_string", "found " << b.size() << " expected " << want[1].size()); VF_EQ(ctx, inf.size(), all, "possible", "announced notifications"); } ctx.count("located"); }
};
void Obs::note(int m, const TreeNode *o, const TreeNode *a, const std::string &d) { w->got.push_back({id, m, o, a, d}); if (w->inside) w->inside(); }
void run(vf::Ctx &ctx)
{
    Quiet q; World w(ctx); int steps = int(ctx.rng.range(10, 80)); bool early = ctx.rng.chance(1, 2);
    for (int i = 0, k = int(ctx.rng.range(1, 6)); i < k; ++i) w.addNode();
    if (early) for (int i = 0, k = int(ctx.rng.range(1, 6)); i < k; ++i) w.addSrc();
    for (int i = 0; i < steps; ++i) switch (ctx.rng.below(16)) { case 0: if (w.n.size() < 12) w.addNode(); break; case 1: w.attach(); break; case 2: if (w.src.size() < 12) w.addSrc(); break; case 3: case 4: case 5: case 6: w.doReg(); break; case 7: case 8: w.doDereg(); break; case 9: w.locate(); break; case 10: for (auto &s : w.src) w.check(*s); break; default: w.post(); }
    for (auto &s : w.src) w.check(*s);
}
void mirrors(vf::Ctx &ctx)
{
    Quiet q; auto &r = ctx.rng; RootTreeNode rtn("top"); TreeNode pub(&rtn, "pub", "d"), priv(&pub, "priv", "d"), out(&rtn, "other", "d"); struct P { uint64_t n = 0, sum = 0; void cb(const int &v) { ++n; sum += uint64_t(v); } void full(const TreeNode &, const TreeNode &, const int &) {} };
    int k = int(r.range(1, 4)); std::vector<std::unique_ptr<NotificationSource<int>>> s; for (int i = 0; i < k; ++i) s.emplace_back(new NotificationSource<int>(&priv, "s" + std::to_string(i) + "_", "d", "chan")); NotificationSource<int> odd(&priv, "odd", "d", "elsewhere"); priv.makeSubtreePrivate();
    MirrorNotificationSource<int> m(&pub, "mirror", "d", "chan"); P p, p2; VF_CHECK(ctx, (vf::throws<SpartaException>([&] { m.registerForNotification<int, P, &P::cb>(&p, "chan"); })), "unlinked_mirror", "a mirror bound to nothing took a registration");
    auto m2 = std::make_unique<MirrorNotificationSource<int>>(&pub, "mirror_x", "d", "nobody"); VF_CHECK(ctx, (vf::throws<SpartaException>([&] { m2->addLink(&priv, ""); })), "mirror_without_source", "bound to nothing"); 
    int viaPriv = r.chance(1, 2); if (viaPriv) m.addLink(&priv, ""); else for (auto &x : s) m.addLink(x.get(), "");
    TreeNode *where = r.chance(1, 2) ? static_cast<TreeNode *>(&m) : r.chance(1, 2) ? static_cast<TreeNode *>(&pub) : static_cast<TreeNode *>(&rtn); uint64_t n = 0, sum = 0; bool on = false;
    VF_CHECK(ctx, (vf::throws<SpartaException>([&] { m.registerForNotification<int, P, &P::full>(&p2, "chan"); })), "private_origin_revealed", "a mirror took a callback that names the origin");
    for (int i = 0; i < 30; ++i) { if (r.chance(1, 5)) { if (on) where->deregisterForNotification<int, P, &P::cb>(&p, "chan"); else where->registerForNotification<int, P, &P::cb>(&p, "chan"); on = !on; for (auto &x : s) VF_EQ(ctx, x->observed(), on, "mirrored_observed", ""); VF_CHECK(ctx, !odd.observed(), "mirrored_wrong_source", ""); }
        int v = int(r.below(1000)); if (r.chance(1, 6)) odd.postNotification(v); else { r.pick(s)->postNotification(v); if (on) { ++n; sum += uint64_t(v); } } VF_EQ(ctx, p.n, n, "mirrored_posts", "deliveries through a mirror"); VF_EQ(ctx, p.sum, sum, "mirrored_data", ""); ctx.obs(n, on); ctx.count("mirrored"); }
    if (on) where->deregisterForNotification<int, P, &P::cb>(&p, "chan"); m2.reset(); rtn.enterTeardown();
}
}
VF_SECTION(notify, 3000, 60000) { run(ctx); }
VF_SECTION(mirrors, 300, 5000) { mirrors(ctx); }
