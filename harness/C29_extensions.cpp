// C29: tree node extensions. Random configurations (parameter trees and files, wildcard and concrete paths), random histories of
// creating, getting, replacing and removing extensions, against a model of which extension has which parameter with which value.
#include "simenv.hpp"
#include "sparta/extensions/TreeNodeExtensionManager.hpp"
#include "sparta/extensions/TreeNodeExtensions.hpp"
#include "sparta/simulation/Parameter.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include "sparta/simulation/ParameterTree.hpp"
#include "sparta/simulation/TreeNodeExtensions.hpp"
#include <fstream>
#include <map>
#include <set>
using namespace sparta;
namespace {
using Str = std::string;
struct Alpha : ExtensionsParamsOnly {
    static constexpr auto NAME = "alpha"; std::unique_ptr<Parameter<uint32_t>> num; std::unique_ptr<Parameter<bool>> flag; std::unique_ptr<Parameter<std::vector<int32_t>>> vec; std::unique_ptr<Parameter<Str>> str;
    Str getClassName() const override { return NAME; }
    void postCreate() override { auto ps = getParameters(); num.reset(new Parameter<uint32_t>("num", 7, "d", ps)); flag.reset(new Parameter<bool>("flag", false, "d", ps)); vec.reset(new Parameter<std::vector<int32_t>>("vec", {1, 2}, "d", ps)); str.reset(new Parameter<Str>("str", "plain", "d", ps)); }
};
struct Fly : ExtensionsParamsOnly { static constexpr auto NAME = "fly"; int a; Str b; Fly(int a, const Str &b) : a(a), b(b) {} Str getClassName() const override { return NAME; } };
const char *const LOCS[] = {"top", "top.core0", "top.core1", "top.uncore", "top.core0.foo0", "top.core0.foo1", "top.core1.foo0", "top.core1.foo1"};
const struct { const char *pat; std::vector<int> at; } PATS[] = {{"top.core*", {1, 2}}, {"top.*", {1, 2, 3}}, {"top.core*.foo*", {4, 5, 6, 7}}, {"top.core0.foo*", {4, 5}}, {"top.core*.foo0", {4, 6}}, {"top.*.foo1", {5, 7}}, {"top.co*", {1, 2}}, {"top.*.*", {4, 5, 6, 7}}};
const char *const EXTS[] = {"alpha", "beta", "gamma"};
struct Kind { const char *name; char type; };
const Kind ALPHA[] = {{"num", 'u'}, {"flag", 'b'}, {"vec", 'v'}, {"str", 's'}, {"extra", 's'}, {"more", 'u'}}, OTHER[] = {{"num", 'u'}, {"flag", 'b'}, {"vec", 'v'}, {"str", 's'}, {"word", 's'}, {"neg", 'i'}};
struct Val { Str text; char type = 's'; std::vector<int32_t> vec; int64_t num = 0; bool flag = false; };
Val draw(vf::Rng &r, char t)
{
    Val v; v.type = t; switch (t) {
    case 'u': v.num = r.range(0, 100000); v.text = r.chance(1, 3) ? "0x" + [&] { char b[20]; snprintf(b, sizeof b, "%lx", long(v.num)); return Str(b); }() : std::to_string(v.num); break;
    case 'i': v.num = r.range(-1000, 1000); v.text = std::to_string(v.num); break;
    case 'b': v.flag = r.chance(1, 2); v.text = v.flag ? "true" : "false"; break;
    case 'v': { int n = int(r.range(0, 4)); v.text = "["; for (int i = 0; i < n; ++i) { v.vec.push_back(int32_t(r.range(-50, 50))); v.text += (i ? "," : "") + std::to_string(v.vec.back()); } v.text += "]"; break; }
    default: { static const char *const w[] = {"red", "blue", "a b", "x.y", "0", "green"}; v.text = w[r.below(6)]; } }
    return v;
}
struct Tree {
    RootTreeNode top{"top"}; std::vector<std::unique_ptr<TreeNode>> own; std::vector<TreeNode *> n; TreeNodeExtensionManager mgr;
    Tree() { n.push_back(&top); auto mk = [&](TreeNode *p, const char *nm) { own.emplace_back(new TreeNode(p, nm, "d")); n.push_back(own.back().get()); }; mk(&top, "core0"); mk(&top, "core1"); mk(&top, "uncore"); mk(n[1], "foo0"); mk(n[1], "foo1"); mk(n[2], "foo0"); mk(n[2], "foo1"); top.setExtensionManager(&mgr); }
    void finalize() { top.enterConfiguring(); top.enterFinalized(); }
    ~Tree() { top.enterTeardown(); }
};
// what the configuration says: [node][extension][parameter]
using Conf = std::map<int, std::map<Str, std::map<Str, Val>>>;
struct Model {
    Conf wild, conc; std::map<int, std::map<Str, Str>> live; // live: uuid
    std::set<Str> names(int i) const { std::set<Str> s; for (auto c : {&wild, &conc}) { auto it = c->find(i); if (it != c->end()) for (auto &e : it->second) s.insert(e.first); } return s; }
    std::map<Str, Val> params(int i, const Str &e) const
    {
        std::map<Str, Val> m; if (e == "alpha") { m["num"] = {"7", 'u', {}, 7, false}; m["flag"] = {"false", 'b', {}, 0, false}; m["vec"] = {"[1,2]", 'v', {1, 2}, 0, false}; m["str"] = {"plain", 's', {}, 0, false}; }
        for (auto c : {&wild, &conc}) { auto it = c->find(i); if (it == c->end()) continue; auto jt = it->second.find(e); if (jt != it->second.end()) for (auto &p : jt->second) m[p.first] = p.second; }
        return m;
    }
};
REGISTER_TREE_NODE_EXTENSION(Alpha);
void values(vf::Ctx &ctx, const detail::ExtensionsBase *x, const Model &m, int i, const Str &e, const char *key)
{
    auto want = m.params(i, e); std::set<Str> got, exp; for (auto &s : x->getParameters()->getNames()) got.insert(s); for (auto &p : want) exp.insert(p.first);
    VF_CHECK(ctx, got == exp, Str(key) + "-names", e << " at " << LOCS[i] << " has " << got.size() << " parameters, " << exp.size() << " configured"); if (got != exp) return;
    for (auto &p : want) { auto &v = p.second; ctx.count("values"); switch (v.type) {
        case 'u': VF_EQ(ctx, x->getParameterValueAs<uint32_t>(p.first), uint32_t(v.num), key, e << "." << p.first << " at " << LOCS[i]); break;
        case 'i': VF_EQ(ctx, x->getParameterValueAs<int32_t>(p.first), int32_t(v.num), key, e << "." << p.first << " at " << LOCS[i]); break;
        case 'b': VF_EQ(ctx, x->getParameterValueAs<bool>(p.first), v.flag, key, e << "." << p.first << " at " << LOCS[i]); break;
        case 'v': VF_CHECK(ctx, x->getParameterValueAs<std::vector<int32_t>>(p.first) == v.vec, key, e << "." << p.first << " at " << LOCS[i] << " is not " << v.text); break;
        default: VF_EQ(ctx, x->getParameterValueAs<Str>(p.first), v.text, key, e << "." << p.first << " at " << LOCS[i]); } }
    if (e == "alpha") { auto a = dynamic_cast<const Alpha *>(x); VF_CHECK(ctx, a, "class", "extension of a registered class has another one"); if (a) { VF_EQ(ctx, uint32_t(*a->num), uint32_t(want["num"].num), "member", "num at " << LOCS[i]); VF_EQ(ctx, bool(*a->flag), want["flag"].flag, "member", "flag at " << LOCS[i]); } }
}
void queries(vf::Ctx &ctx, Tree &t, const Model &m)
{
    size_t total = 0; for (int i = 0; i < 8; ++i) {
        const TreeNode *n = t.n[i]; std::set<Str> live; auto it = m.live.find(i); if (it != m.live.end()) for (auto &e : it->second) live.insert(e.first); total += live.size();
        VF_CHECK(ctx, n->getAllInstantiatedExtensionNames() == live, "instantiated", "at " << LOCS[i]); VF_CHECK(ctx, n->getAllConfigExtensionNames() == m.names(i), "configured", "at " << LOCS[i]); VF_EQ(ctx, n->getNumExtensions(), live.size(), "number", "at " << LOCS[i]);
        auto all = n->getAllExtensions(); VF_EQ(ctx, all.size(), live.size(), "all", "at " << LOCS[i]);
        for (auto e : {"alpha", "beta", "gamma", "fly"}) { bool l = live.count(e); VF_EQ(ctx, n->hasExtension(e), l, "has", e << " at " << LOCS[i]); auto x = n->getExtension(e); VF_EQ(ctx, x != nullptr, l, "const-get", e << " at " << LOCS[i]); if (l && x) { VF_EQ(ctx, x->getUUID(), it->second.at(e), "identity", e << " at " << LOCS[i]); VF_CHECK(ctx, all[e] == x, "all", e << " at " << LOCS[i]); } }
        if (live.empty()) VF_CHECK(ctx, n->getExtension() == nullptr, "unnamed", "at " << LOCS[i]); else if (live.size() == 1) VF_CHECK(ctx, n->getExtension() == n->getExtension(*live.begin()), "unnamed", "at " << LOCS[i]); else if (ctx.rng.chance(1, 20)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { n->getExtension(); }), "unnamed", "several extensions at " << LOCS[i]);
    }
    size_t seen = 0; for (auto &l : t.mgr.getAllExtensions()) seen += l.second.size(); VF_EQ(ctx, seen, total, "everywhere", "number of extensions"); VF_EQ(ctx, t.mgr.hasExtensions(), total > 0, "everywhere", "hasExtensions"); ctx.obs(total);
}
}
VF_SECTION(extensions, 170, 6000)
{
    Quiet q; auto &r = ctx.rng; Tree t; Model m; std::map<Str, bool> everOpt;
    // the configuration
    int sources = int(r.range(0, 4));
    for (int s = 0; s < sources; ++s) {
        std::vector<std::tuple<Str, Str, Str, Val>> leaves; int n = int(r.range(1, 8));
        for (int k = 0; k < n; ++k) {
            Str e = EXTS[r.below(3)]; auto &kd = e == "alpha" ? ALPHA[r.below(6)] : OTHER[r.below(6)]; Val v; Str name = kd.name; if (r.chance(1, 8)) { name = "optional"; v.type = 's'; v.text = r.chance(3, 4) ? "true" : "false"; } else v = draw(r, kd.type); Str path;
            if (r.chance(1, 2)) { int i = int(r.below(8)); path = LOCS[i]; m.conc[i][e][name] = v; }
            else { int p = int(r.below(std::size(PATS))); for (int i : PATS[p].at) { if (m.wild[i][e].count(name)) ctx.count("overlapping patterns"); m.wild[i][e][name] = v; } // of several patterns the last one given applies
                path = PATS[p].pat; }
            leaves.emplace_back(path, e, name, v);
        }
        if (r.chance(1, 2)) { ParameterTree pt; for (auto &l : leaves) { Str p = std::get<0>(l) + ".extension." + std::get<1>(l) + "." + std::get<2>(l); ctx.op("set", p, std::get<3>(l).text); pt.set(p, std::get<3>(l).text, false, "test"); } t.mgr.addExtensions(pt); ctx.count("trees"); }
        else { Str f = ctx.scratch + "/e" + std::to_string(s) + ".yaml"; std::ofstream o(f); for (auto &l : leaves) { auto &v = std::get<3>(l); Str line = std::get<0>(l) + ".extension." + std::get<1>(l) + (r.chance(1, 2) ? ".": ":\n  ") + std::get<2>(l) + ": " + (v.type == 's' && std::get<2>(l) != "optional" ? "\"" + v.text + "\"" : v.text) + "\n"; ctx.op("yaml", line); o << line; } o.close(); t.mgr.addExtensions(f); ctx.count("files"); }
    }
    // the history
    int finalAt = int(r.range(0, 25)), n = int(r.range(5, 30)); bool finalized = false; std::map<std::pair<int, Str>, detail::ExtensionsBase *> ptr; std::map<std::pair<int, Str>, bool> changed;
    auto conf = [&](int i, const Str &e) { return m.names(i).count(e) > 0; };
    auto made = [&](int i, const Str &e, detail::ExtensionsBase *x, bool expectNew) {
        bool was = m.live[i].count(e); if (!x) { VF_CHECK(ctx, false, "null", e << " at " << LOCS[i]); return; }
        if (was && !expectNew) { VF_EQ(ctx, x->getUUID(), m.live[i][e], "same", e << " at " << LOCS[i]); VF_CHECK(ctx, (x == ptr[{i, e}]), "same", e << " at " << LOCS[i]); }
        else { if (was) VF_CHECK(ctx, x->getUUID() != m.live[i][e], "replaced", e << " at " << LOCS[i]); m.live[i][e] = x->getUUID(); ptr[{i, e}] = x; changed[{i, e}] = false; values(ctx, x, m, i, e, "created"); ctx.count("created"); } };
    for (int k = 0; k < n; ++k) {
        if (k == finalAt) { t.finalize(); finalized = true; }
        int i = int(r.below(8)); Str e = EXTS[r.below(3)]; TreeNode *nd = t.n[i]; bool live = m.live.count(i) && m.live[i].count(e); int op = int(r.below(11)); ctx.op("op", op, LOCS[i], e);
        switch (op) {
        case 0: case 1: { auto x = nd->getExtension(e); bool want = live || (conf(i, e) && e == "alpha"); VF_EQ(ctx, x != nullptr, want, "get", e << " at " << LOCS[i]); if (x && want) made(i, e, x, false); break; }
        case 2: { auto x = nd->getExtension(e, true); bool want = live || conf(i, e); VF_EQ(ctx, x != nullptr, want, "get-any", e << " at " << LOCS[i]); if (x && want) made(i, e, x, false); break; }
        case 3: made(i, e, nd->createExtension(e), false); break;
        case 4: made(i, e, nd->createExtension(e.c_str(), true), true); break;
        case 5: { auto c = m.names(i); bool rep = r.chance(1, 3); if (c.size() > 1) { VF_CHECK(ctx, vf::throws<SpartaException>([&] { nd->createExtension(rep); }), "create-unnamed", "several configured at " << LOCS[i]); break; } auto x = nd->createExtension(rep); VF_EQ(ctx, x != nullptr, c.size() == 1, "create-unnamed", "at " << LOCS[i]); if (x && c.size() == 1) made(i, *c.begin(), x, rep); break; }
        case 6: { bool ok = nd->removeExtension(e); VF_EQ(ctx, ok, live, "remove", e << " at " << LOCS[i]); m.live[i].erase(e); break; }
        case 7: { bool has = m.live[i].count("fly"); int a = int(r.below(100)); if (r.chance(1, 2)) { if (has) { VF_CHECK(ctx, vf::throws<SpartaException>([&] { nd->addExtension<Fly>(a, "b"); }), "add-twice", "at " << LOCS[i]); break; } auto x = nd->addExtension<Fly>(a, "s" + std::to_string(a)); VF_CHECK(ctx, x && x->a == a && x->b == "s" + std::to_string(a), "add", "arguments"); m.live[i]["fly"] = x->getUUID(); ptr[{i, "fly"}] = x; } else { auto x = nd->replaceExtension<Fly>(a, Str("t")); VF_CHECK(ctx, x && x->a == a, "replace", "arguments"); VF_CHECK(ctx, x->getUUID() != m.live[i]["fly"], "replace", "identity"); m.live[i]["fly"] = x->getUUID(); ptr[{i, "fly"}] = x; } break; }
        case 8: { // what happens to one extension must not show in others
            if (!live) break; auto x = ptr[{i, e}]; auto p = x->getParameters()->getParameter("extra", false); if (p && p->getReadCount() == 0 && !finalized) { p->setValueFromString("other"); m.live[i].erase(e); nd->removeExtension(e); } break; }
        case 9: { auto want = m.live.count(i) ? m.live[i] : std::map<Str, Str>{}; if (e == "alpha") { if (live) VF_CHECK(ctx, (nd->getExtensionAs<Alpha>(e) == ptr[{i, e}]), "as", "at " << LOCS[i]); if (live) VF_CHECK(ctx, vf::throws<SpartaException>([&] { nd->getExtensionAs<Fly>(e); }), "as-wrong", "at " << LOCS[i]); } VF_EQ(ctx, static_cast<const TreeNode *>(nd)->hasExtensionOfType<Alpha>("alpha"), m.live[i].count("alpha") > 0, "of-type", "at " << LOCS[i]); VF_CHECK(ctx, !nd->hasExtensionOfType<Alpha>("fly"), "of-type", "fly at " << LOCS[i]); break; }
        default: if (live) values(ctx, ptr[{i, e}], m, i, e, "later"); }
        queries(ctx, t, m);
    }
    if (!finalized) t.finalize();
    for (auto &l : m.live) for (auto &e : l.second) if (e.first != "fly") values(ctx, ptr[{l.first, e.first}], m, l.first, e.first, "final");
    bool missing = false; for (int i = 0; i < 8; ++i) for (auto &e : m.names(i)) if (!(m.live.count(i) && m.live[i].count(e))) { auto p = m.params(i, e); auto it = p.find("optional"); if (it == p.end() || it->second.text != "true") missing = true; }
    VF_EQ(ctx, (vf::throws<SpartaException>([&] { t.mgr.checkAllYamlExtensionsCreated(); })), missing, "unread-check", "extensions configured but never created"); ctx.count(missing ? "unread extensions" : "all extensions read"); VF_CHECK(ctx, (!vf::throws<SpartaException>([&] { t.mgr.checkAllYamlExtensionsCreated(true); })), "unread-check", "suppressed");
    // the final configuration configures another tree alike
    auto fin = t.mgr.getFinalConfigPTree(); Tree u; u.mgr.addExtensions(*fin); for (int i = 0; i < 8; ++i) for (auto &e : m.names(i)) { auto x = u.n[i]->createExtension(e); if (x) values(ctx, x, m, i, e, "round-trip"); else VF_CHECK(ctx, false, "round-trip-null", e << " at " << LOCS[i]); ctx.count("round trips"); }
}
// Definition texts of several extensions: each becomes one descriptor with exactly its node, name and parameters
VF_SECTION(descriptors, 1500, 30000)
{
    auto &r = ctx.rng; Quiet q; Tree t; struct D { Str node = "top", name; std::map<Str, Str> p; }; std::vector<D> want; std::ostringstream y; bool bad = false; static const char *const W[] = {"a", "b", "num", "flag", "vec", "long_name", "x1"};
    auto text = [&] { static const char *const w[] = {"1", "0x10", "true", "red", "a b", "x.y", "\"quoted text\"", "top.core0", "-5", "1.5"}; return Str(w[r.below(10)]); }; y << "content:\n"; int n = int(r.range(1, 5));
    for (int i = 0; i < n; ++i) {
        D d; y << "  extension:\n"; std::vector<int> order{0, 1, 2}; r.shuffle(order); bool noname = r.chance(1, 25); bad |= noname;
        for (int k : order) switch (k) {
        case 0: if (noname || r.chance(3, 4)) { d.node = LOCS[r.below(8)]; y << "    node: " << d.node << "\n"; } break;
        case 1: if (!noname) { d.name = Str("e") + std::to_string(r.below(4)); y << "    name: " << d.name << "\n"; } break;
        default: if (r.chance(3, 4)) { y << "    params:\n"; int m = int(r.range(1, 4)); for (int j = 0; j < m; ++j) { Str k = W[r.below(7)], v = text(); if (d.p.count(k)) continue; y << "      " << k << ": " << v << "\n"; d.p[k] = v[0] == '"' ? v.substr(1, v.size() - 2) : v; } } }
        if (r.chance(1, 30)) { y << "    colour: red\n"; bad = true; }
        want.push_back(d);
    }
    ctx.op("text", y.str()); ExtensionDescriptorVec got; bool ok = true;
    try { if (r.chance(1, 2)) got = createExtensionDescriptorsFromDefinitionString(y.str(), &t.top); else { Str f = ctx.scratch + "/ext.yaml"; std::ofstream(f) << y.str(); got = createExtensionDescriptorsFromFile(f, &t.top); } } catch (const SpartaException &) { ok = false; }
    VF_EQ(ctx, ok, !bad, "descriptor-accept", "acceptance of " + y.str()); ctx.obs(y.str()); if (bad) { ctx.count("refused"); return; }
    VF_EQ(ctx, got.size(), want.size(), "descriptor-count", "descriptors of " + y.str());
    for (size_t i = 0; i < got.size(); ++i) {
        VF_EQ(ctx, got[i]->getNodeLocation(), want[i].node, "descriptor", "node"); VF_EQ(ctx, got[i]->getName(), want[i].name, "descriptor", "name"); ctx.obs(i, want[i].name);
        auto check = [&](ParameterSet &p) { std::map<Str, Str> g; for (auto &nm : p.getNames()) g[nm] = p.getParameterValueAs<Str>(nm); VF_CHECK(ctx, g == want[i].p, "descriptor", "parameters of extension " << i << " of\n" << y.str()); };
        auto p = got[i]->cloneParameters(); check(*p);
    }
    ctx.count("descriptors", got.size());
}
