// C19: random tree filter expressions, rendered in every spelling the language allows, against direct evaluation of their meaning
// on trees of random nodes.
#include "simenv.hpp"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/Histogram.hpp"
#include "sparta/statistics/InstrumentationNode.hpp"
#include "sparta/statistics/StatisticDef.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include "sparta/tree/filter/Parser.hpp"
using namespace sparta;
namespace {
namespace tf = tree::filter;
using V = InstrumentationNode;
struct Tok { std::string set; bool any = false; char q = 0; };      // one regex element: characters it accepts, and its quantifier
bool match(const std::vector<Tok> &t, size_t i, const std::string &s, size_t p)
{
    if (i == t.size()) return p == s.size();
    auto one = [&](size_t k) { return k < s.size() && (t[i].any || t[i].set.find(s[k]) != std::string::npos); };
    size_t lo = t[i].q == 0 || t[i].q == '+' ? 1 : 0, hi = t[i].q == 0 || t[i].q == '?' ? 1 : s.size(), n = 0;
    while (n < lo) { if (!one(p + n)) return false; ++n; }
    for (;;) { if (match(t, i + 1, s, p + n)) return true; if (n >= hi || !one(p + n)) return false; ++n; }
}
struct NodeM { TreeNode *n = nullptr; std::string name; std::vector<std::string> tags; bool inst = false; V::visibility_t vis = 0; int type = -1; };
struct Ex;
using P = std::shared_ptr<const Ex>;
struct Ex {
    enum K { TRUE_, FALSE_, XOR, OR, AND, NOT, VIS, TYPE, TAG, NAME } k; P a, b; int cmp = 0; uint64_t num = 0; int type = 0; std::string text; std::vector<Tok> re;
    bool eval(const NodeM &m) const
    {
        switch (k) {
        case TRUE_: return true;
        case FALSE_: return false;
        case XOR: return a->eval(m) != b->eval(m);
        case OR: return a->eval(m) || b->eval(m);
        case AND: return a->eval(m) && b->eval(m);
        case NOT: return !a->eval(m);
        case VIS: if (!m.inst) return false;
            switch (cmp) { case 0: return m.vis == num; case 1: return m.vis > num; case 2: return m.vis < num; case 3: return m.vis >= num; case 4: return m.vis <= num; default: return m.vis != num; }
        case TYPE: return m.inst && (cmp == 0) == (m.type == type);
        case TAG: { bool any = false; for (auto &t : m.tags) any |= cmp == 2 ? match(re, 0, t, 0) : t == text; return cmp == 1 ? !any : any; }
        case NAME: { bool e = cmp == 2 ? match(re, 0, m.name, 0) : m.name == text; return cmp == 1 ? !e : e; }
        }
        return false;
    }
};
const char *const WORDS[] = {"a", "ab", "abc", "alu", "alu1", "lsu", "core", "fetch_q", "x9", "A", "vis", "true", "zz", "tag"};
const char *const NOREGEX[] = {"a++b", "(", "a(", "[", "*", "c++", "a**", ")", "a[b", "?"};
const struct { const char *name; uint64_t v; } VIS_NAMES[] = {{"summary", V::VIS_SUMMARY}, {"normal", V::VIS_NORMAL}, {"detail", V::VIS_DETAIL}, {"support", V::VIS_SUPPORT}, {"hidden", V::VIS_HIDDEN}};
const struct { const char *name; int v; } TYPE_NAMES[] = {{"statistic", V::TYPE_STATISTICDEF}, {"statisticdef", V::TYPE_STATISTICDEF}, {"stat", V::TYPE_STATISTICDEF}, {"statdef", V::TYPE_STATISTICDEF}, {"counter", V::TYPE_COUNTER}, {"parameter", V::TYPE_PARAMETER}, {"param", V::TYPE_PARAMETER}, {"histogram", V::TYPE_HISTOGRAM}};
const V::visibility_t VIS[] = {0, 1, 999999, 1000000, 10000000, 100000000, 100000001, 200000000, 1000000000, ~0u, ~0u - 1};
struct Gen {
    vf::Rng &r;
    std::string sp() { static const char *const s[] = {"", "", " ", "  ", "\t", " \n"}; return s[r.below(6)]; }
    std::string blanks() { static const char *const s[] = {"", "", " ", "  "}; return s[r.below(4)]; }
    std::string cased(std::string s) { int m = int(r.below(4)); for (auto &c : s) if (m == 1 || (m == 2 && r.chance(1, 2))) c = char(toupper(c)); return s; }
    std::vector<Tok> regex(std::string &out)
    {
        std::vector<Tok> t; std::string w = WORDS[r.below(10)]; out.clear();
        for (size_t i = 0; i < w.size(); ++i) {
            Tok x; bool grp = false;
            switch (r.below(6)) {
            case 0: x.any = true; out += "."; break;
            case 1: { x.set = std::string(1, w[i]) + char('a' + r.below(26)); out += "[" + x.set + "]"; break; }
            case 2: { x.set = "abcdefghijklm"; out += "[a-m]"; break; }
            case 3: x.set = w[i]; grp = true; out += "(" + x.set + ")"; break;
            default: x.set = w[i]; out += w[i];
            }
            (void)grp; if (r.chance(1, 3)) { x.q = "?*+"[r.below(3)]; out += x.q; } t.push_back(x); if (r.chance(1, 6)) break;
        }
        if (r.chance(1, 3)) { Tok x; x.any = true; x.q = '*'; t.push_back(x); out += ".*"; }
        if (r.chance(1, 6)) out = "^" + out; if (r.chance(1, 6)) out += "$";
        return t;
    }
    std::string pattern(const std::string &p) { switch (r.below(3)) { case 0: return p + " "; case 1: return "\"" + p + "\""; default: return "'" + p + "'"; } }
    std::string number(uint64_t v)
    {
        char b[80]; switch (r.below(5)) {
        case 0: if (v) { std::string s; for (uint64_t x = v; x; x /= 2) s = char('0' + x % 2) + s; return "0b" + s; } break;
        case 1: if (v) { snprintf(b, sizeof b, "0%lo", (unsigned long)v); return b; } break;
        case 2: if (v && v % 1000000 == 0) return std::to_string(v / 1000000) + (r.chance(1, 2) ? "m" : "M"); break;
        case 3: if (v && v % 1000 == 0) return std::to_string(v / 1000) + (r.chance(1, 2) ? "k" : "K"); break;
        default: break; }
        return std::to_string(v);
    }
    P leaf(std::string &s)
    {
        auto e = std::make_shared<Ex>();
        switch (r.below(9)) {
        case 0: e->k = r.chance(1, 2) ? Ex::TRUE_ : Ex::FALSE_; s = cased(e->k == Ex::TRUE_ ? "true" : "false"); return e;
        case 1: case 2: case 3: {
            e->k = Ex::VIS; static const char *const c[] = {"==", ">", "<", ">=", "<=", "!="}; e->cmp = int(r.below(6)); std::string v; if (r.chance(1, 2)) { auto &n = VIS_NAMES[r.below(5)]; e->num = n.v; v = cased(n.name); } else { e->num = r.chance(1, 8) ? 5000000000ull : VIS[r.below(11)]; if (r.chance(1, 4)) e->num += 1; v = number(e->num); }
            s = (e->cmp == 0 && r.chance(1, 2) ? "" : c[e->cmp] + blanks()) + cased("vis") + blanks() + ":" + blanks() + v; return e; }
        case 4: case 5: { e->k = Ex::TYPE; auto &t = TYPE_NAMES[r.below(8)]; e->type = t.v; e->cmp = int(r.below(2)); s = (e->cmp ? "!=" + blanks() : r.chance(1, 2) ? "" : "==" + blanks()) + cased("type") + blanks() + ":" + blanks() + cased(t.name); return e; }
        default: {
            bool tag = r.chance(1, 2); e->k = tag ? Ex::TAG : Ex::NAME; e->cmp = int(r.below(3)); std::string p; if (e->cmp == 2) e->re = regex(p); else e->text = p = r.chance(1, 8) ? NOREGEX[r.below(10)] : WORDS[r.below(14)];
            s = (e->cmp == 2 ? cased("regex") + blanks() : e->cmp == 1 ? "!=" + blanks() : r.chance(1, 2) ? "" : "==" + blanks()) + cased(tag ? "tag" : "name") + blanks() + ":" + blanks() + pattern(p); return e; }
        }
    }
    // level: 0 xor, 1 or, 2 and, 3 inversion, 4 comparison; parenthesised where the structure asks for it
    P expr(int depth, int level, std::string &s)
    {
        auto e = std::make_shared<Ex>(); int k = depth <= 0 ? 4 : int(r.below(5));
        if (k == 4) { auto l = leaf(s); if (r.chance(1, 6)) s = "(" + sp() + s + sp() + ")"; return l; }
        if (k == 3) { std::string t; e->k = Ex::NOT; e->a = expr(depth - 1, 4, t); s = (r.chance(1, 2) ? "!" + sp() : "not ") + t; if (level > 3 || r.chance(1, 5)) s = "(" + s + sp() + ")"; return e; }
        static const Ex::K kk[] = {Ex::XOR, Ex::OR, Ex::AND}; static const char *const op[] = {" ^^", "||", "&&"};
        e->k = kk[k]; std::string t; P l = expr(depth - 1, k, s); int n = int(r.range(1, 2));
        for (int i = 0; i < n; ++i) { P x = expr(depth - 1, k + 1, t); auto f = std::make_shared<Ex>(); f->k = kk[k]; f->a = l; f->b = x; l = f; s += sp() + op[k] + sp() + t; }
        if (k < level || r.chance(1, 5)) s = "(" + sp() + s + sp() + ")";
        return l;
    }
};
const char *const BAD[] = {"", " ", "vis:", "vis:bogus", "vis normal", "type:foo", "type:", "name:", "tag:", "(true", "true)", "true &&", "&& true", "|| true", "true || ", "true ^^", "true true", "name:\"a", "tag:'b", "<type:counter", ">=name:x", "regex vis:normal", "true | false", "true & true", "true ^ true", "()", "vis:normalx", "foo:bar", "name:a b", "==", "!", "not", "== ==vis:normal", "type:counters", "\"name:a\""};
struct World {
    Quiet q; RootTreeNode rtn; std::vector<std::unique_ptr<TreeNode>> own; std::vector<NodeM> m;
    World(vf::Rng &r) : rtn("top")
    {
        int n = int(r.range(3, 9));
        for (int i = 0; i < n; ++i) {
            NodeM x; TreeNode *par = own.empty() || r.chance(1, 2) ? static_cast<TreeNode *>(&rtn) : own[r.below(own.size())].get(); x.name = WORDS[r.below(14)]; while (par->getChild(x.name, false)) x.name += "_q";
            if ((x.inst = r.chance(3, 4))) { x.vis = VIS[r.below(11)]; x.type = int(r.below(4)); own.emplace_back(new InstrumentationNode(par, x.name, TreeNode::GROUP_NAME_NONE, TreeNode::GROUP_IDX_NONE, "d", InstrumentationNode::Type(x.type), x.vis)); }
            else own.emplace_back(new TreeNode(par, x.name, "d"));
            x.n = own.back().get(); int t = int(r.below(4)); while (t--) { std::string w = WORDS[r.below(14)]; if (std::find(x.tags.begin(), x.tags.end(), w) == x.tags.end()) { x.tags.push_back(w); x.n->addTag(w); } } m.push_back(x);
        }
    }
    ~World() { rtn.enterTeardown(); for (; !own.empty(); own.pop_back()) ; }
};
}
VF_SECTION(text, 220, 12000)
{
    World w(ctx.rng); Gen g{ctx.rng}; tf::Parser shared; std::vector<std::pair<tf::Expression, P>> kept;
    auto agree = [&](const tf::Expression &e, const P &p, const std::string &what, const char *key) { for (auto &m : w.m) { bool tr = ctx.rng.chance(1, 10); VF_EQ(ctx, e.valid(m.n, tr), p->eval(m), key, what << " on " << m.n->getLocation()); ctx.count("evaluations"); } };
    int n = int(ctx.rng.range(4, 14));
    for (int i = 0; i < n; ++i) {
        if (ctx.rng.chance(1, 4)) {
            std::string b = BAD[ctx.rng.below(std::size(BAD))]; if (ctx.rng.chance(1, 3)) { std::string t; g.expr(1, 0, t); b = t + " " + b + " )"; } ctx.op("bad", b);
            VF_CHECK(ctx, vf::throws<SpartaException>([&] { shared.parse(b); }), "malformed-accepted", "malformed filter accepted: " << b); ctx.count("malformed rejected");
        }
        std::string s; P p = g.expr(int(ctx.rng.range(0, 4)), 0, s); s = g.sp() + s + g.sp(); ctx.op("parse", s); bool fresh = ctx.rng.chance(1, 4);
        try {
            tf::Expression e; if (fresh) { tf::Parser one; e = one.parse(s); } else e = shared.parse(s);
            agree(e, p, s, "value"); tf::Expression c(e), mv(std::move(c)); agree(mv, p, s, "copy"); c = e; agree(c, p, s, "assigned"); kept.emplace_back(e, p); ctx.count("expressions"); ctx.obs(s.size());
        } catch (const SpartaException &x) { VF_CHECK(ctx, false, "correct-rejected", "correct filter rejected: " << s << " -- " << x.what()); }
    }
    for (auto &k : kept) agree(k.first, k.second, "kept", "kept-changed");
}
VF_SECTION(compose, 150, 6000)
{
    World w(ctx.rng); Gen g{ctx.rng}; std::vector<std::pair<tf::Expression, P>> v; tf::Parser parser;
    auto mk = [](Ex::K k, P a, P b) { auto e = std::make_shared<Ex>(); e->k = k; e->a = a; e->b = b; return e; };
    auto add = [&] { auto e = std::make_shared<Ex>(); switch (ctx.rng.below(4)) {
        case 0: e->k = Ex::VIS; e->cmp = int(ctx.rng.below(6)); e->num = VIS[ctx.rng.below(11)]; v.emplace_back(tf::Expression(e->num, tf::Expression::VisibilityComparison(e->cmp)), e); break;
        case 1: e->k = Ex::TYPE; e->cmp = int(ctx.rng.below(2)); e->type = int(ctx.rng.below(4)); v.emplace_back(tf::Expression(InstrumentationNode::Type(e->type), tf::Expression::TypeComparison(e->cmp)), e); break;
        case 2: { bool tag = ctx.rng.chance(1, 2); e->k = tag ? Ex::TAG : Ex::NAME; e->cmp = int(ctx.rng.below(3)); if (e->cmp == 2) e->re = g.regex(e->text); else e->text = WORDS[ctx.rng.below(14)]; if (tag) v.emplace_back(tf::Expression(e->text, tf::Expression::TagComparison(e->cmp)), e); else v.emplace_back(tf::Expression(e->text, tf::Expression::NameComparison(e->cmp)), e); break; }
        default: e->k = ctx.rng.chance(1, 2) ? Ex::TRUE_ : Ex::FALSE_; v.emplace_back(tf::Expression(e->k == Ex::TRUE_), e); } };
    add(); add(); int n = int(ctx.rng.range(5, 25));
    for (int i = 0; i < n; ++i) {
        size_t a = ctx.rng.below(v.size()), b = ctx.rng.below(v.size()); unsigned k = unsigned(ctx.rng.below(11)); if (ctx.rng.chance(1, 3) || v[a].first.stringize().size() > 3000) k = 9; ctx.op("op", k, a, b); auto &A = v[a]; auto &B = v[b]; P pa = A.second, pb = B.second;
        switch (k) {
        case 0: A.first &= B.first; A.second = mk(Ex::AND, pa, pb); break;
        case 1: A.first |= B.first; A.second = mk(Ex::OR, pa, pb); break;
        case 2: A.first ^= B.first; A.second = mk(Ex::XOR, pa, pb); break;
        case 3: !A.first; A.second = mk(Ex::NOT, pa, nullptr); break;
        case 4: A.first = B.first; A.second = pb; break;
        case 5: { auto c = B; v.push_back(c); break; }
        case 6: { std::string s; P p = g.expr(1, 0, s); A.first = parser.parse(s); A.second = p; break; }
        default: add(); }
        for (auto &x : v) for (auto &m : w.m) { VF_EQ(ctx, x.first.valid(m.n), x.second->eval(m), "compose", "op " << k << " on " << m.n->getLocation()); ctx.count("evaluations"); } ctx.obs(k, v.size());
        if (v.size() > 8) v.erase(v.begin() + long(ctx.rng.below(v.size())));
    }
    ctx.count("compositions", n);
}
