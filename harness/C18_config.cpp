// C18: configuration sources against a flat list of assignments in priority order.
#include "simenv.hpp"
#include "sparta/app/FeatureConfiguration.hpp"
#include "sparta/simulation/Parameter.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include "sparta/simulation/ParameterTree.hpp"
#include "sparta/app/Simulation.hpp"
#include "sparta/app/SimulationConfiguration.hpp"
#include "sparta/parsers/ConfigParserYAML.hpp"
#include "sparta/parsers/ConfigEmitterYAML.hpp"
#include <fstream>
#include <filesystem>
#include <set>
using namespace sparta;
namespace {
std::vector<std::string> split(const std::string &s) { std::vector<std::string> o; size_t p = 0, q; while ((q = s.find('.', p)) != std::string::npos) { o.push_back(s.substr(p, q - p)); p = q + 1; } o.push_back(s.substr(p)); return o; }
std::string join(const std::vector<std::string> &v, size_t a = 0, size_t b = size_t(-1)) { std::string s; for (size_t i = a; i < std::min(b, v.size()); ++i) s += (i > a ? "." : "") + v[i]; return s; }
// ? is zero or one, + is one or more, * is any number of characters
bool glob(const char *p, const char *s)
{
    if (!*p) return !*s;
    if (*p == '*') return glob(p + 1, s) || (*s && glob(p, s + 1));
    if (*p == '?') return glob(p + 1, s) || (*s && glob(p + 1, s + 1));
    if (*p == '+') return *s && (glob(p + 1, s + 1) || glob(p, s + 1));
    return *p == *s && glob(p + 1, s + 1);
}
bool match(const std::string &pat, const std::string &path) { auto a = split(pat), b = split(path); if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!glob(a[i].c_str(), b[i].c_str())) return false; return true; }
struct Assign { std::string path, val; bool req; };
using List = std::vector<Assign>;
const Assign *last(const List &l, const std::string &path) { for (size_t i = l.size(); i--;) if (match(l[i].path, path)) return &l[i]; return nullptr; }

void ptree(vf::Ctx &ctx)
{
    static const char *const IN[] = {"a", "ab", "abc", "b", "bc", "c", "*", "a*", "*b", "?", "a?", "b+", "+", "*c", "a*c", "ab"};
    auto &r = ctx.rng; int depth = int(r.range(1, 4)); int nIn = int(r.range(3, 16)); auto name = [&](bool wild) -> std::string { return wild ? IN[r.below(nIn)] : IN[r.below(std::min(6, nIn))]; };
    auto path = [&](bool wild, int d) { std::vector<std::string> v; while (d-- > 0) v.push_back(name(wild && r.chance(2, 3))); return join(v); };
    List l; std::unique_ptr<ParameterTree> t(new ParameterTree); int n = int(r.range(1, 25)), k = 0;
    auto fill = [&](ParameterTree &to, List &m, const std::string &pre, int d) {
        Assign a{path(true, d), "v" + std::to_string(k++), r.chance(1, 2)}; ctx.op("set", (pre.empty() ? "" : pre + ".") + a.path, a.val, a.req); bool ok = to.set(a.path, a.val, a.req, "o" + a.val); VF_EQ(ctx, ok, true, "set", a.path); if (!pre.empty()) a.path = pre + "." + a.path; m.push_back(a);
    };
    for (int i = 0; i < n; ++i) {
        if (r.chance(1, 8)) { int pd = int(r.below(depth)); std::string pre = path(true, pd); ParameterTree o; List ol; int m = int(r.range(1, 6)); for (int j = 0; j < m; ++j) fill(o, ol, pre, depth - pd); ctx.op("append", pre); t->create(pre, false)->appendTree(o.getRoot());
            // what the appended tree says wins, path by path
            List keep = ol; l.insert(l.end(), keep.begin(), keep.end()); ctx.count("appended"); }
        else if (r.chance(1, 40)) { ctx.op("copy"); std::unique_ptr<ParameterTree> u(new ParameterTree(*t)); t = std::move(u); }
        else if (r.chance(1, 40)) { ctx.op("assign"); std::unique_ptr<ParameterTree> u(new ParameterTree); u->set("zz", "1", true); *u = *t; t = std::move(u); }
        else fill(*t, l, "", depth);
    }
    // required marks and unread values, node by node
    std::set<std::string> reqPaths; for (auto &a : l) if (a.req) reqPaths.insert(a.path);
    std::set<std::string> asked; int q = int(r.range(1, 30));
    for (int i = 0; i < q; ++i) {
        std::string p = path(false, depth); ctx.op("get", p); const Assign *w = last(l, p); const ParameterTree &ct = *t; auto g = r.chance(1, 2) ? ct.tryGet(p) : t->tryGet(p); asked.insert(p);
        VF_CHECK(ctx, (g != nullptr) == (w != nullptr), "found", p << (w ? " is not found, want " + w->val : " is found"));
        if (w) { VF_EQ(ctx, g->peekValue(), w->val, "value", p); VF_EQ(ctx, g->getOrigin(), "o" + w->val, "origin", p); VF_EQ(ctx, g->getPath(), w->path, "path", p); VF_EQ(ctx, ct.hasValue(p), true, "has_value", p); VF_EQ(ctx, ct.get(p).peekValue(), w->val, "value", p); VF_EQ(ctx, ct.isRead(p), true, "is_read", p); ctx.count("found"); }
        else if (r.chance(1, 5)) { VF_CHECK(ctx, vf::throws<SpartaException>([&] { ct.get(p); }), "get_missing", p); VF_EQ(ctx, ct.hasValue(p), false, "has_value", p); }
        ctx.obs(p, w ? w->val : "");
    }
    std::vector<const ParameterTree::Node *> un; const ParameterTree &ct = *t; VF_EQ(ctx, ct.getUnreadValueNodes(&un), un.size(), "unread", "count"); std::set<std::string> got, want; for (auto x : un) got.insert(x->getPath());
    for (auto &a : l) { bool rd = false; for (auto &p : asked) rd |= match(a.path, p); if (!rd) want.insert(a.path); }
    VF_EQ(ctx, join({got.begin(), got.end()}), join({want.begin(), want.end()}), "unread", "unread assignments");
    std::map<std::string, bool> nodeReq; size_t withValue = 0; ct.visitLeaves([&](const ParameterTree::Node *nd) { if (nd->hasValue()) { ++withValue; nodeReq[nd->getPath()] |= nd->getRequiredCount() > 0; } return true; });
    std::set<std::string> all; for (auto &a : l) all.insert(a.path); VF_EQ(ctx, nodeReq.size(), all.size(), "lost", "assigned paths in the tree"); for (auto &x : nodeReq) VF_EQ(ctx, x.second, reqPaths.count(x.first) > 0, "required", x.first);
}

// ---- whole configurations
const char *const STR[] = {"", "a", "hello world", "null", "~", "true", "0x10", "[a, b]", "{x: y}", "a: b", "# c", "x # c", "'q'", "\"dq\"", "back\\slash", " lead", "trail ", "a,b", "-", "- x", "-x", "?", "? x", "!t", "&a", "*b", "%d", "@x", "`x`", "|", ">", "line\nbreak", "tab\tin", "\t", "   ", "\xc3\xa9t\xc3\xa9", "//c", "a//b", "yes", "12", "1.5", "a]b", "]", "[", "}", ":", "a:", ",", "include", "...", "---", "a\n\nb\n", "=", "<<", "."};
using VU = std::vector<uint32_t>; using VS = std::vector<std::string>; using VVS = std::vector<VS>; using VVU = std::vector<VU>;
struct PSet : ParameterSet {
    PSet(TreeNode *n) : ParameterSet(n) {}
    Parameter<uint32_t> u0{"u0", 10, "d", this}, u1{"u1", 11, "d", this}; Parameter<std::string> s0{"s0", "ds", "d", this}, s1{"s1", "", "d", this}; Parameter<VU> v0{"v0", VU{1, 2}, "d", this}, v1{"v1", VU{}, "d", this}; Parameter<VS> w0{"w0", VS{"x", "y z"}, "d", this}, w1{"w1", VS{}, "d", this}; Parameter<bool> b0{"b0", false, "d", this}; Parameter<int64_t> i0{"i0", -5, "d", this}; Parameter<double> d0{"d0", 0.1, "d", this}; Parameter<VVS> m0{"m0", VVS{{"a"}, {}}, "d", this}; Parameter<VVU> m1{"m1", VVU{}, "d", this};
};
const char *const LEAF[] = {"u0", "u1", "s0", "s1", "v0", "v1", "w0", "w1", "b0", "i0", "d0", "m0", "m1"};
// a value as text: how it is written, and a canonical form to compare
std::string dq(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else o += c; } return o + "\""; }
bool plainOk(const std::string &s) { for (char c : s) if (!isalnum(uint8_t(c)) && c != '_') return false; return !s.empty() && s != "null" && s != "include"; }
std::string canon(const std::string &s) { return "<" + s + ">"; } std::string canon(uint32_t v) { return std::to_string(v); } std::string canon(int64_t v) { return std::to_string(v); } std::string canon(bool v) { return v ? "true" : "false"; } std::string canon(double d) { std::ostringstream o; o.precision(17); o << d; return o.str(); }
template<class T> std::string canon(const std::vector<T> &v) { std::string s = "["; for (auto &x : v) s += canon(x) + ";"; return s + "]"; }
std::string yaml(vf::Rng &r, const std::string &s) { return plainOk(s) && r.chance(1, 2) ? s : dq(s); } std::string yaml(vf::Rng &r, uint32_t v) { if (r.chance(1, 3)) { std::ostringstream o; o << "0x" << std::hex << v; return o.str(); } return std::to_string(v); }
template<class T> std::string yaml(vf::Rng &r, const std::vector<T> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + yaml(r, v[i]); return s + "]"; }
std::string rs(vf::Rng &r) { return STR[r.below(sizeof STR / sizeof *STR)]; }
VS rvs(vf::Rng &r) { VS v; for (int i = int(r.below(5)); i--;) v.push_back(rs(r)); return v; } VU rvu(vf::Rng &r) { VU v; for (int i = int(r.below(5)); i--;) v.push_back(uint32_t(r.next() >> r.below(64))); return v; }
struct Val { std::string yaml, cmd, canon; };   // in a file, on the command line, the value
Val value(vf::Rng &r, char type)
{
    Val v; auto both = [&](const std::string &s) { v.yaml = v.cmd = s; };
    switch (type) {
    case 'u': { uint32_t x = uint32_t(r.next() >> r.below(64)); both(yaml(r, x)); v.canon = canon(x); break; }
    case 's': { std::string x = rs(r); v.yaml = yaml(r, x); v.cmd = x; v.canon = canon(x); break; }
    case 'v': { VU x = rvu(r); both(yaml(r, x)); v.canon = canon(x); break; }
    case 'w': { VS x = rvs(r); both(yaml(r, x)); v.canon = canon(x); break; }
    case 'b': { bool x = r.chance(1, 2); both(x ? "true" : "false"); v.canon = canon(x); break; }
    case 'i': { int64_t x = int64_t(r.next()) >> r.below(64); both(std::to_string(x)); v.canon = canon(x); break; }
    case 'd': { double x = r.chance(1, 2) ? double(r.below(1000)) / 8 : double(r.next()) / double(r.next() | 1); std::ostringstream o; o.precision(17); o << x; both(o.str()); v.canon = canon(x); break; }
    default: return v;
    }
    return v;
}
Val valueFor(vf::Rng &r, const std::string &leaf) { if (leaf[0] != 'm') return value(r, leaf[0]); Val v; if (leaf == "m0") { VVS x; for (int i = int(r.below(4)); i--;) x.push_back(rvs(r)); v.yaml = v.cmd = yaml(r, x); v.canon = canon(x); } else { VVU x; for (int i = int(r.below(4)); i--;) x.push_back(rvu(r)); v.yaml = v.cmd = yaml(r, x); v.canon = canon(x); } return v; }
const std::vector<std::string> UNITS = {"core0", "core1", "core10", "l2", "core0.fpu", "core1.fpu"};
struct Sim : app::Simulation {
    std::vector<std::unique_ptr<TreeNode>> nodes; std::vector<std::unique_ptr<PSet>> sets; std::vector<std::string> present;
    Sim(Scheduler *s, std::vector<std::string> p) : app::Simulation("sim", s), present(p) {}
    ~Sim() { getRoot()->enterTeardown(); }
    void buildTree_() override { std::map<std::string, TreeNode *> m; for (auto &u : present) { auto v = split(u); TreeNode *p = getRoot(); std::string at; for (auto &n : v) { at += "." + n; if (!m[at]) { nodes.emplace_back(new TreeNode(p, n, "n")); m[at] = nodes.back().get(); } p = m[at]; } sets.emplace_back(new PSet(p)); } }
    void configureTree_() override {}
    void bindTree_() override {}
};
template<class F> void each(PSet &p, F f) { f("u0", p.u0); f("u1", p.u1); f("s0", p.s0); f("s1", p.s1); f("v0", p.v0); f("v1", p.v1); f("w0", p.w0); f("w1", p.w1); f("b0", p.b0); f("i0", p.i0); f("d0", p.d0); f("m0", p.m0); f("m1", p.m1); }
std::map<std::string, std::string> values(std::vector<std::unique_ptr<PSet>> &s) { std::map<std::string, std::string> m; for (auto &p : s) each(*p, [&](const char *n, auto &q) { m[p->getLocation() + "." + n] = canon(q.peekValue()); }); return m; }
std::map<std::string, std::string> defaults(std::vector<std::unique_ptr<PSet>> &s) { std::map<std::string, std::string> m; for (auto &p : s) each(*p, [&](const char *n, auto &q) { m[p->getLocation() + "." + n] = canon(q.getDefault()); }); return m; }
std::string K(const std::string &k) { return k[0] == '*' ? "\"" + k + "\"" : k; }
struct Gen {
    vf::Ctx &ctx; vf::Rng &r; bool wild, bad; int files = 0;
    std::string unit(bool w) { auto v = split(r.pick(UNITS)); if (w) for (auto &n : v) if (r.chance(1, 2)) { static const char *const P[] = {"*", "core*", "core?", "core+", "*0", "c*1", "f*", "+"}; n = P[r.below(8)]; } if (bad && r.chance(1, 8)) v.back() = r.chance(1, 2) ? "core7" : "nope*"; return join(v); }
    std::string leafPat(std::string &leaf) { leaf = LEAF[r.below(13)]; if (bad && r.chance(1, 15)) return "zz"; if (wild && leaf != "m0" && leaf != "m1" && r.chance(1, 4)) { static const char *const P[] = {"X*", "X?", "X+"}; std::string p = P[r.below(3)]; p[0] = leaf[0]; return p; } return leaf; }
    // writes some assignments under a context path; returns them in order
    void block(std::ostream &o, const std::string &ind, const std::string &ctxPath, std::vector<std::string> rest, const std::string &leafP, const std::string &leaf, List &l)
    {
        // rest: names still to write between the context and the leaf
        if (rest.empty() || r.chance(1, 3)) { std::string key = rest.empty() ? leafP : join(rest) + "." + leafP; Val v = valueFor(r, leaf); o << ind << K(key) << ": " << v.yaml << "\n"; l.push_back({(ctxPath.empty() ? "" : ctxPath + ".") + key, v.canon, true}); 
            if (rest.empty() && r.chance(1, 3)) { std::string lf, lp = leafPat(lf); Val v2 = valueFor(r, lf); bool blockSeq = lf[0] == 'v' && v2.canon != "[]" && r.chance(1, 2); if (blockSeq) { o << ind << lp << ":\n"; VU x = rvu(r); x.push_back(3); for (auto e : x) o << ind << "  - " << yaml(r, e) << "\n"; v2.canon = canon(x); } else o << ind << lp << ": " << v2.yaml << "\n"; l.push_back({ctxPath + "." + lp, v2.canon, true}); } return; }
        size_t k = size_t(r.range(1, int64_t(rest.size()))); std::string key = join(rest, 0, k); std::vector<std::string> more(rest.begin() + long(k), rest.end()); std::string np = (ctxPath.empty() ? "" : ctxPath + ".") + key;
        o << ind << K(key) << ":\n"; if (r.chance(1, 8)) o << ind << "  # a comment\n"; if (r.chance(1, 12)) o << ind << "  //gone: {u0: 99999, zz: [1, 2]}\n"; if (r.chance(1, 12)) o << ind << "  //gone2: 4\n"; if (r.chance(1, 12)) o << ind << "  //gone3: [1, [2, 3]]\n";
        if (r.chance(1, 8)) { std::string f = file(np, more, leafP, leaf, l); o << ind << "  " << (r.chance(1, 2) ? "include" : "\"#include\"") << ": " << f << "\n"; ctx.count("includes"); if (r.chance(1, 2)) return; }
        block(o, ind + "  ", np, more, leafP, leaf, l);
    }
    std::string file(const std::string &ctxPath, const std::vector<std::string> &rest, const std::string &leafP, const std::string &leaf, List &l) { std::string f = "inc" + std::to_string(files++) + ".yaml"; std::ostringstream o; block(o, "", ctxPath, rest, leafP, leaf, l); write(f, o.str()); return f; }
    void write(const std::string &f, const std::string &text) { std::ofstream(ctx.scratch + "/" + f) << text; ctx.op([&](std::ostream &os) { os << "file(" << f << "): " << text; }); }
    // a whole file for the node named by pattern "" or some unit; paths in l are complete
    std::string whole(const std::string &pre, List &l)
    {
        std::string f = "cfg" + std::to_string(files++) + ".yaml"; std::ostringstream o; int n = int(r.range(1, 6)); if (r.chance(1, 4)) o << "---\n";
        for (int i = 0; i < n; ++i) { std::string leaf, lp = leafPat(leaf); std::vector<std::string> rest; if (pre.empty()) { rest = split("top." + unit(wild)); rest.push_back("params"); } else if (pre.size() < 7 || pre.substr(pre.size() - 7) != ".params") rest = {"params"}; block(o, "", pre, rest, lp, leaf, l); }
        write(f, o.str()); return f;
    }
};
struct Result { std::map<std::string, std::string> val, def; std::string error; bool threw = false; };
void config(vf::Ctx &ctx)
{
    Quiet qq; auto &r = ctx.rng; Gen g{ctx, r, r.chance(3, 4), r.chance(1, 2)}; std::vector<std::string> present; for (auto &u : UNITS) if (r.chance(3, 4)) present.push_back(u); if (present.empty()) present.push_back("core0");
    List arch, cfg; Scheduler sched; app::SimulationConfiguration sc; sc.suppress_unread_parameter_warnings = r.chance(1, 2); sc.addConfigSearchPath(ctx.scratch); sc.addArchSearchPath(ctx.scratch);
    bool threw = false; std::string err; std::map<std::string, std::string> got, gotDef;
    if (r.chance(1, 2)) { std::string f = g.whole("", arch); ctx.op("arch", f); sc.processArch("", f); }
    int n = int(r.below(8));
    for (int i = 0; i < n; ++i) {
        if (r.chance(1, 3)) { std::string pre = r.chance(1, 2) ? "" : "top." + g.unit(g.wild) + (r.chance(1, 2) ? ".params" : ""); std::string f = g.whole(pre, cfg); ctx.op("config", pre, f); sc.processConfigFile(pre, f); }
        else { std::string leaf, lp = g.leafPat(leaf); Val v = valueFor(r, leaf); bool opt = r.chance(1, 3); std::string p = "top." + g.unit(g.wild) + ".params." + lp; ctx.op("param", p, v.cmd, opt); sc.processParameter(p, v.cmd, opt); cfg.push_back({p, v.canon, !opt}); }
    }
    std::vector<std::string> paths; std::map<std::string, std::string> want, wantDef;
    { Scheduler s2; Sim ref(&s2, present); ref.buildTree(); wantDef = defaults(ref.sets); }   // compiled-in defaults
    for (auto &x : wantDef) { if (auto a = last(arch, x.first)) x.second = a->val; auto c = last(cfg, x.first); want[x.first] = c ? c->val : x.second; ctx.count(c ? "configured" : "defaulted"); }
    std::set<std::string> missing; for (auto *l : {&arch, &cfg}) for (auto &a : *l) { bool any = false; for (auto &x : want) any |= match(a.path, x.first); if (!any && a.req) missing.insert(a.path); }
    // the optional ones; a path assigned with and without the mark is required
    Sim sim(&sched, present); std::string emitted;
    try { sim.configure(0, nullptr, &sc); sim.buildTree(); got = values(sim.sets); gotDef = defaults(sim.sets); sim.configureTree(); for (auto &p : sim.sets) p->ignoreAll(); sim.finalizeTree(); } catch (SpartaException &e) { threw = true; err = e.what(); }
    VF_CHECK(ctx, !got.empty(), "rejected", "the configuration is rejected: " << err);
    for (auto &x : want) { VF_EQ(ctx, got[x.first], x.second, "value", x.first); VF_EQ(ctx, gotDef[x.first], wantDef[x.first], "default", x.first); ctx.obs(x.second); }
    // an assignment through another pattern that covers the same path can make it optional or required: then either is accepted
    std::set<std::string> sure, maybe = missing; for (auto *l : {&arch, &cfg}) for (auto &a : *l) { bool other = false, any = false; for (auto &b : *l) other |= (b.path != a.path && match(b.path, a.path)) || (b.path == a.path && !b.req); for (auto &x : want) any |= match(a.path, x.first); if (!other && missing.count(a.path)) sure.insert(a.path); if (other && !any) maybe.insert(a.path); }
    if (!sure.empty()) VF_CHECK(ctx, threw, "unmatched", "required and unmatched, not reported: " << join({sure.begin(), sure.end()}));
    if (threw) VF_CHECK(ctx, !maybe.empty(), "unmatched", "nothing is required and unmatched, error: " << err);
    if (threw) { std::set<std::string> named; size_t p = 0; const std::string K = "ERROR: unread unbound parameter: \""; while ((p = err.find(K, p)) != std::string::npos) { p += K.size(); named.insert(err.substr(p, err.find('"', p) - p)); }
        bool covers = false; for (auto *l : {&arch, &cfg}) { bool all = !l->empty(), any = false; for (auto &a : *l) { any |= named.count(a.path) > 0; if (a.req && sure.count(a.path)) all &= named.count(a.path) > 0; } covers |= all && any; }
        for (auto &x : named) VF_CHECK(ctx, maybe.count(x) > 0, "unmatched_names", x << " is reported: " << err); VF_CHECK(ctx, covers, "unmatched_names", "not all of " << join({sure.begin(), sure.end()}) << " are reported: " << join({named.begin(), named.end()})); ctx.count("reported"); }
    // write the configuration and read it back, through the unbound tree and into an existing tree
    std::string f = ctx.scratch + "/out.yaml"; { ConfigEmitter::YAML em(f, r.chance(1, 2)); em.addParameters(sim.getRoot()->getSearchScope(), nullptr, false); } { std::ifstream in(f); std::stringstream ss; ss << in.rdbuf(); emitted = ss.str(); } ctx.op([&](std::ostream &os) { os << "emitted: " << emitted; });
    { Scheduler s3; app::SimulationConfiguration c3; c3.processConfigFile("", f); Sim back(&s3, present); back.configure(0, nullptr, &c3); back.buildTree(); auto v = values(back.sets); for (auto &x : want) VF_EQ(ctx, v[x.first], x.second, "read_back", x.first); back.configureTree(); for (auto &p : back.sets) p->ignoreAll(); back.finalizeTree(); }
    { Scheduler s4; Sim back(&s4, present); back.buildTree(); ConfigParser::YAML y(f, {}); y.allowMissingNodes(true); y.consumeParameters(back.getRoot()->getSearchScope()); auto v = values(back.sets); for (auto &x : want) VF_EQ(ctx, v[x.first], x.second, "read_back_bound", x.first); }
    ctx.count("emitted");
}
}
VF_SECTION(ptree, 400, 8000) { ptree(ctx); }
VF_SECTION(config, 250, 4000) { config(ctx); }

// Features: the last value and the last option files given, whatever was asked before.
VF_SECTION(features, 400, 8000)
{
    auto &r = ctx.rng; sparta::app::FeatureConfiguration f; std::map<std::string, unsigned> v; std::map<std::string, std::map<std::string, std::string>> o; unsigned files = 0;
    const char *F[] = {"alpha", "beta_2", "gamma"}, *O[] = {"x", "y1", "long_name"};
    std::ostringstream sink; struct Cout { std::streambuf *b; explicit Cout(std::streambuf *n) : b(std::cout.rdbuf(n)) {} ~Cout() { std::cout.rdbuf(b); } } mute(sink.rdbuf());
    for (int n = 1 + int(r.below(12)); n; --n) {
        std::string nm = F[r.below(3)];
        switch (r.below(4)) {
        case 0: { unsigned x = r.chance(1, 4) ? unsigned(r.next()) : unsigned(r.below(3)); ctx.op("value", nm, x); f.setFeatureValue(nm, x); v[nm] = x; break; }
        case 1: case 2: {
            std::string fn = ctx.scratch + "/opts" + std::to_string(files++) + ".yaml"; std::ofstream out(fn); std::string all;
            for (size_t k = r.below(4); k; --k) { std::string on = O[r.below(3)], val; switch (r.below(5)) { case 0: val = std::to_string(r.range(-99, 99)); break; case 1: val = std::to_string(r.below(1000)) + ".25"; break; case 2: val = "some text"; break; case 3: val = ""; break; default: val = std::to_string(r.next() >> 20); }
                std::string line = std::string(r.below(3), ' ') + on + std::string(r.below(2), ' ') + ":" + std::string(r.below(3), ' ') + val + std::string(r.below(2), ' '); out << line << "\n"; all += line + "|"; o[nm][on] = val; }
            out.close(); ctx.op("options", nm, all); f.setFeatureOptionsFromFile(nm, fn); ctx.count("option files"); break; }
        default: if (r.chance(1, 3)) f.setFeatureOptionsFromFile(nm, ctx.scratch + "/missing.yaml"); // said to be no error
        }
        for (auto *q : F) {
            unsigned want = v.count(q) ? v[q] : 0; VF_EQ(ctx, f.getFeatureValue(q), want, "feature-value", q); VF_EQ(ctx, f.isFeatureValueSet(q), v.count(q) != 0, "feature-set", q); ctx.obs(q, want);
            VF_EQ(ctx, sparta::IsFeatureValueEnabled(f, q), want > 0, "feature-enabled", q); VF_CHECK(ctx, sparta::IsFeatureValueEqualTo(&f, q, want) && !sparta::IsFeatureValueEqualTo(&f, q, want + 1), "feature-equal", q);
            auto *op = f.getFeatureOptions(q); VF_CHECK(ctx, op != nullptr, "feature-options", q);
            for (auto *k : O) {
                auto &m = o[q]; const bool has = m.count(k); std::string w = has ? m[k] : std::string("none"); if (has) ctx.count("options read");
                VF_EQ(ctx, op->getOptionValue<std::string>(k, "none"), w, "feature-option", q << "." << k);
                bool number = has && !w.empty() && w != "some text"; double d = number ? std::stod(w) : 3.5; VF_EQ(ctx, op->getOptionValue<double>(k, 3.5), d, "feature-option", q << "." << k << " as a number"); ctx.obs(w);
                if (number && w.find('.') == std::string::npos) VF_EQ(ctx, op->getOptionValue<int64_t>(k, -1), int64_t(std::stoll(w)), "feature-option", q << "." << k << " as an integer");
            }
        }
    }
    const sparta::app::FeatureConfiguration *none = nullptr; VF_CHECK(ctx, !sparta::IsFeatureValueEnabled(none, "alpha") && sparta::IsFeatureValueEqualTo(none, "alpha", 0u), "feature-null", "no configuration");
}
