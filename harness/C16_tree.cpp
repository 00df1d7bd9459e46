// C16: device tree against a plain model of named nodes: lookups, wildcards, tags, privacy, rejected additions, teardown in any order.
#include "simenv.hpp"
#include "sparta/simulation/TreeNode.hpp"
#include "sparta/simulation/RootTreeNode.hpp"
#include <set>
using namespace sparta;
namespace {
struct M { std::string name, group; int idx = -1; bool indexable = true; std::vector<std::string> alias, tags; int parent = -1; std::vector<int> kids; int priv = 0; bool alive = true; std::unique_ptr<TreeNode> own; TreeNode *p = nullptr; };
// glob: * zero or more, ? zero or one, + one or more; the captured text of a regular-expression style greedy match
bool glob(const std::string &pat, size_t i, const std::string &s, size_t j, std::vector<std::string> &cap)
{
    if (i == pat.size()) return j == s.size();
    char c = pat[i];
    if (c == '*' || c == '?' || c == '+') {
        size_t lo = c == '+' ? 1 : 0, hi = c == '?' ? 1 : s.size() - j; hi = std::min(hi, s.size() - j);
        for (size_t n = hi + 1; n-- > lo;) { cap.push_back(s.substr(j, n)); if (glob(pat, i + 1, s, j + n, cap)) return true; cap.pop_back(); }
        return false;
    }
    return j < s.size() && s[j] == c && glob(pat, i + 1, s, j + 1, cap);
}
const char *NAMES[] = {"a", "b", "ab", "ba", "aa", "abc", "c", "core", "cpu_a", "x_y", "a1", "b2", "core_x", "lsu", "A", "aab"};
const char *GROUPS[] = {"core", "g", "grp_x", "ab"};
const char *TAGS[] = {"t", "u", "tag_v"};
struct Tree {
    vf::Ctx &ctx; std::unique_ptr<RootTreeNode> root; std::vector<M> n; bool finalized = false;
    Tree(vf::Ctx &c) : ctx(c) { root.reset(new RootTreeNode("top")); n.emplace_back(); n[0].name = "top"; n[0].p = root.get(); for (auto *k : root->getChildren()) { builtin.push_back(k->getName()); bptr.push_back(k); } }
    std::vector<std::string> builtin; std::vector<TreeNode *> bptr;
    std::vector<std::string> idents(int i) { std::vector<std::string> v; if (!n[i].name.empty()) v.push_back(n[i].name); for (auto &a : n[i].alias) v.push_back(a); if (!n[i].group.empty()) v.push_back(n[i].group + std::to_string(n[i].idx)); return v; }
    bool taken(int par, const std::string &s) { for (int k : n[par].kids) for (auto &x : idents(k)) if (x == s) return true; if (par == 0) for (auto &b : builtin) if (b == s) return true; return false; }
    std::string loc(int i) { return n[i].parent < 0 ? n[i].name : loc(n[i].parent) + "." + n[i].name; }
    int depth(int i) { int d = 0; while (n[i].parent >= 0) { i = n[i].parent; ++d; } return d; }
    bool inTree(int i) { while (n[i].parent >= 0) i = n[i].parent; return i == 0; }
    std::string rnd(const char *const *v, size_t k) { return v[ctx.rng.below(k)]; }
    int pickAlive() { std::vector<int> v; for (size_t i = 0; i < n.size(); ++i) if (n[i].alive && inTree(int(i))) v.push_back(int(i)); return ctx.rng.pick(v); }
    void addPriv(int i, int d) { n[i].priv += d; for (int k : n[i].kids) addPriv(k, d); }
    std::vector<int> loose() { std::vector<int> v; for (size_t i = 1; i < n.size(); ++i) if (n[i].alive && n[i].parent < 0) v.push_back(int(i)); return v; }
    void create()
    {
        M m; m.name = rnd(NAMES, 16); if (ctx.rng.chance(1, 4)) m.name += rnd(NAMES, 16);
        if (ctx.rng.chance(1, 3)) { m.group = rnd(GROUPS, 4); m.idx = int(ctx.rng.below(4)); if (ctx.rng.chance(1, 5)) m.name.clear(); else if (ctx.rng.chance(1, 2)) m.name = m.group + std::to_string(m.idx); m.indexable = !ctx.rng.chance(1, 6); }
        int par = ctx.rng.chance(1, 3) ? -1 : pickAlive();
        auto gi = m.idx < 0 ? +TreeNode::GROUP_IDX_NONE : TreeNode::group_idx_type(m.idx);
        std::string bad; int why = 0;
        if (ctx.rng.chance(1, 25)) { static const char *const BAD[] = {"1a", "a-b", "a.b", "__a", "a__", "def", "a b", "a*", "while", "", "ab__", "a\xc3\xa9", "-", "abcdef__", "class"}; bad = m.name = BAD[ctx.rng.below(15)]; why = 1; if (m.name.empty()) { m.group.clear(); m.idx = -1; gi = TreeNode::GROUP_IDX_NONE; } }
        else if (ctx.rng.chance(1, 30)) { static const char *const BAD[] = {"1g", "g__h", "g-h", "g1", "from", "g.h"}; m.group = BAD[ctx.rng.below(6)]; gi = 1; why = 2; }
        else if (ctx.rng.chance(1, 40)) { if (m.group.empty()) gi = 3; else gi = TreeNode::GROUP_IDX_NONE; why = 3; }
        bool clash = false;
        if (par >= 0) {
            if (!m.name.empty() && taken(par, m.name)) clash = true;
            for (int k : n[par].kids) if (!m.group.empty() && n[k].group == m.group && n[k].idx == m.idx && n[k].indexable && m.indexable) clash = true;
            if (!clash && !why && !m.group.empty()) { auto g = m.group + std::to_string(m.idx); if (m.name != g && taken(par, g)) return; for (int k : n[par].kids) if (n[k].group == m.group && n[k].idx == m.idx) return; }   // ambiguous spelling: not generated
            if (!clash && !why && finalized) clash = true;
        }
        std::string desc = ctx.rng.chance(1, 60) ? "" : "d"; if (desc.empty()) why = 4;
        ctx.op([&](std::ostream &o) { o << "create(" << m.name << "," << m.group << "," << m.idx << ",parent=" << (par < 0 ? "none" : loc(par)) << ",why=" << why << ",clash=" << clash << ")"; });
        TreeNode *pp = par < 0 ? nullptr : n[par].p; std::unique_ptr<TreeNode> t; bool threw = false; std::string what;
        size_t before = TreeNode::getAllNodes().size();
        try { t.reset(m.indexable ? new TreeNode(pp, m.name, m.group, gi, desc) : static_cast<TreeNode *>(new NonIdx(pp, m.name, m.group, gi, desc))); } catch (std::exception &e) { threw = true; what = e.what(); }
        if (why || clash) { VF_CHECK(ctx, threw, "bad_node_accepted", "a node named '" << m.name << "' group '" << m.group << "' was accepted (reason " << why << ", clash " << clash << ")"); VF_EQ(ctx, TreeNode::getAllNodes().size(), before, "rejected_node_tracked", "a rejected node is still known"); ctx.count("rejected"); return; }
        VF_CHECK(ctx, !threw, "good_node_rejected", what); m.p = t.get(); m.own = std::move(t); m.parent = -1;
        int id = int(n.size()); n.push_back(std::move(m)); if (par >= 0) link(par, id);
        ctx.count("nodes");
    }
    struct NonIdx : TreeNode { NonIdx(TreeNode *p, const std::string &a, const std::string &g, group_idx_type i, const std::string &d) : TreeNode(p, a, g, i, d, false) {} };
    void link(int par, int id) { n[id].parent = par; n[par].kids.push_back(id); addPriv(id, n[par].priv); }
    void addAlias()
    {
        auto l = loose(); int i = l.empty() || ctx.rng.chance(1, 8) ? pickAlive() : ctx.rng.pick(l); if (i == 0) return;
        std::string a = rnd(NAMES, 16); if (ctx.rng.chance(1, 3)) a += "_al"; bool bad = n[i].parent >= 0 || std::find(n[i].alias.begin(), n[i].alias.end(), a) != n[i].alias.end(); if (ctx.rng.chance(1, 20)) { a = ctx.rng.chance(1, 2) ? "" : "9x"; bad = true; } if (a == n[i].name) return; 
        ctx.op("alias", i, a, bad); bool t = vf::throws<SpartaException>([&] { n[i].p->addAlias(a); }); VF_EQ(ctx, t, bad, "alias_reject", "alias '" << a << "' rejected?"); if (!t) n[i].alias.push_back(a);
    }
    void addTag()
    {
        int i = int(ctx.rng.below(n.size())); if (!n[i].alive || finalized) return; std::string a = rnd(TAGS, 3); bool bad = std::find(n[i].tags.begin(), n[i].tags.end(), a) != n[i].tags.end(); if (ctx.rng.chance(1, 20)) { a = ctx.rng.chance(1, 2) ? "" : "a-b"; bad = true; }
        ctx.op("tag", i, a, bad); bool t = vf::throws<SpartaException>([&] { n[i].p->addTag(a); }); VF_EQ(ctx, t, bad, "tag_reject", "tag '" << a << "' rejected?"); if (!t) n[i].tags.push_back(a);
    }
    void attach()
    {
        auto l = loose(); if (l.empty()) return; int i = ctx.rng.pick(l); int par = ctx.rng.chance(1, 5) ? ctx.rng.pick(l) : pickAlive();
        bool bad = false; for (int k = par; k >= 0; k = n[k].parent) if (k == i) bad = true;
        auto id = idents(i); if (!n[i].group.empty()) id.pop_back(); for (auto &s : id) if (taken(par, s)) bad = true;
        for (int k : n[par].kids) if (!n[i].group.empty() && n[k].group == n[i].group && n[k].idx == n[i].idx) { if (n[k].indexable && n[i].indexable) bad = true; else return; }
        if (!bad && !n[i].group.empty()) { auto g = n[i].group + std::to_string(n[i].idx); if (g != n[i].name && taken(par, g)) return; for (auto &a : n[i].alias) if (a == g) return; }
        ctx.op("attach", i, loc(par), bad); bool t = vf::throws<SpartaException>([&] { n[par].p->addChild(n[i].p); }); VF_EQ(ctx, t, bad, "attach_reject", "attaching '" << n[i].name << "' to " << loc(par) << " rejected?"); if (!t) link(par, i); else ctx.count("rejected");
    }
    void privatize() { int i = pickAlive(); if (i == 0 || n[i].priv > 2) return; ctx.op("private", loc(i)); n[i].p->makeSubtreePrivate(); addPriv(i, 1); }
    int of(const TreeNode *p) { for (size_t i = 0; i < n.size(); ++i) if (n[i].alive && n[i].p == p) return int(i); return -2; }
    int step(int i, const std::string &s) { if (s.empty()) return n[i].parent; for (int k : n[i].kids) for (auto &x : idents(k)) if (x == s) return k; return -1; }
    std::string anyPath(int &end, int start)
    {
        std::string s; int i = start; int steps = int(ctx.rng.range(1, 4)); bool first = true;
        while (steps--) {
            if (i >= 0 && ctx.rng.chance(1, 5)) { s += "."; i = n[i].parent; first = false; upLast = true; if (i < 0) break; continue; }
            std::string t; if (i >= 0 && !n[i].kids.empty() && !ctx.rng.chance(1, 12)) t = ctx.rng.pick(idents(ctx.rng.pick(n[i].kids))); else t = rnd(NAMES, 16);
            if (i == 0 && std::find(builtin.begin(), builtin.end(), t) != builtin.end()) t = "zz"; if (ctx.rng.chance(1, 30)) t += "x";
            s += t; i = i < 0 ? -1 : step(i, t); first = false; upLast = false; if (steps && i >= 0) s += "."; else break;
        }
        (void)first; end = i; return s;
    }
    bool upLast = false;
    std::string loosen(const std::string &s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { if (ctx.rng.chance(1, 4)) { o += "*?+"[ctx.rng.below(3)]; i += ctx.rng.below(3); if (ctx.rng.chance(1, 3)) --i; if (i == size_t(-1)) i = 0; } else o += s[i]; } if (ctx.rng.chance(1, 4)) o += "*?+"[ctx.rng.below(3)]; return o.empty() ? "*" : o; }
    // all nodes a pattern (already split into tokens) designates, with the captured texts
    void find(int i, const std::vector<std::string> &tok, size_t k, std::vector<std::string> cap, std::vector<std::pair<const TreeNode *, std::vector<std::vector<std::string>>>> &out)
    {
        if (k == tok.size()) { for (auto &o : out) if (o.first == n[i].p) { o.second.push_back(cap); return; } out.push_back({n[i].p, {cap}}); return; }
        if (tok[k].empty()) { if (n[i].parent >= 0) find(n[i].parent, tok, k + 1, cap, out); return; }
        if (i == 0 && k + 1 < tok.size() && tok[k + 1].empty()) for (auto &b : builtin) { std::vector<std::string> g; if (n[0].priv == 0 && glob(tok[k], 0, b, 0, g)) { auto c2 = cap; c2.insert(c2.end(), g.begin(), g.end()); find(0, tok, k + 2, c2, out); } }
        for (int c : n[i].kids) { if (n[c].priv != n[i].priv) continue; for (auto &x : idents(c)) { std::vector<std::string> g; if (glob(tok[k], 0, x, 0, g)) { auto c2 = cap; c2.insert(c2.end(), g.begin(), g.end()); find(c, tok, k + 1, c2, out); } } }
    }
    void query()
    {
        int s = pickAlive(), end; upLast = false; for (int k = 0; k < 3 && n[s].kids.empty(); ++k) s = pickAlive();
        switch (ctx.rng.below(8)) {
        case 0: case 1: {   // exact lookups
            std::string path = anyPath(end, s); ctx.op("lookup", loc(s), path); bool vis = end >= 0 && n[end].priv == n[s].priv; const TreeNode *want = vis ? n[end].p : nullptr;
            const TreeNode *cs = n[s].p;
            VF_EQ(ctx, n[s].p->getChild(path, false), want, "lookup", "getChild(" << path << ") from " << loc(s)); VF_EQ(ctx, cs->getChild(path, false), want, "lookup", "const getChild(" << path << ")");
            VF_EQ(ctx, cs->hasChild(path), want != nullptr, "has_child", "hasChild(" << path << ") from " << loc(s)); ctx.count(vis ? "found" : "not_found");
            if (!want && ctx.rng.chance(1, 4)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { n[s].p->getChild(path); }), "lookup_throw", "getChild(" << path << ") did not throw");
            if (want) { VF_CHECK(ctx, n[s].p->getChildAs<TreeNode>(path) == want, "lookup", "getChildAs"); if (ctx.rng.chance(1, 10)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { n[s].p->getChildAs<RootTreeNode *>(path); }) == (want != root.get()), "lookup_type", "a node of another type returned"); }
            break; }
        case 2: {   // location from the root
            int t = pickAlive(); if (t == 0) break; ctx.op("location", loc(t)); VF_EQ(ctx, n[t].p->getLocation(), loc(t), "location", "location");
            bool named = true; for (int k = t; k > 0; k = n[k].parent) named = named && !n[k].name.empty(); if (!named) break;
            VF_EQ(ctx, root->getChild(loc(t).substr(4), false), n[t].priv == n[0].priv ? n[t].p : nullptr, "location_lookup", loc(t));
            VF_EQ(ctx, n[t].p->getLevel(), uint32_t(depth(t)), "level", loc(t)); VF_EQ(ctx, n[t].p->getRoot(), static_cast<TreeNode *>(root.get()), "root", ""); break; }
        case 3: case 4: case 5: {   // patterns
            std::string path = anyPath(end, s); if (path.empty()) break; std::vector<std::string> tok; { std::string cur; for (size_t i = 0; i <= path.size(); ++i) if (i == path.size()) { if (!upLast || !cur.empty()) tok.push_back(cur); } else if (path[i] == '.') { tok.push_back(cur); cur.clear(); } else cur += path[i]; }
            bool wild = false; std::string pat; for (size_t i = 0; i < tok.size(); ++i) { if (!tok[i].empty() && ctx.rng.chance(2, 3)) { tok[i] = loosen(tok[i]); wild = true; } pat += tok[i]; if (i + 1 < tok.size() || tok[i].empty()) pat += "."; }
            ctx.op("find", loc(s), pat);
            std::vector<std::pair<const TreeNode *, std::vector<std::vector<std::string>>>> want; find(s, tok, 0, {}, want); bool up = false; for (auto &t : tok) up = up || t.empty();
            if (s == 0 || up) for (size_t i = 0; i < want.size(); ++i) {}
            std::vector<TreeNode *> got, got2; std::vector<std::vector<std::string>> rep; uint32_t r = n[s].p->findChildren(pat, got, rep); uint32_t r2 = n[s].p->findChildren(pat, got2);
            VF_EQ(ctx, size_t(r), got.size(), "find_count", "findChildren(" << pat << ") count"); VF_EQ(ctx, rep.size(), got.size(), "find_count", "replacements"); VF_CHECK(ctx, got2 == got && r2 == r, "find_differs", pat);
            std::vector<TreeNode *> g2; std::vector<std::vector<std::string>> rp2; for (size_t i = 0; i < got.size(); ++i) if (std::find(bptr.begin(), bptr.end(), got[i]) == bptr.end() && (of(got[i]) >= 0)) { g2.push_back(got[i]); rp2.push_back(rep[i]); } else VF_CHECK(ctx, [&] { for (auto *b : bptr) if (got[i] == b || got[i]->isDescendantOf(b)) return true; return false; }(), "find_unknown", "an unknown node is found");
            std::set<const TreeNode *> gs(g2.begin(), g2.end()); if (!up) VF_EQ(ctx, gs.size(), g2.size(), "find_twice", "findChildren(" << pat << ") returns a node twice");
            for (auto &w : want) VF_CHECK(ctx, gs.count(w.first), "find_missing", "findChildren(" << pat << ") from " << loc(s) << " misses " << w.first->getLocation()); VF_EQ(ctx, gs.size(), want.size(), "find_extra", "findChildren(" << pat << ") from " << loc(s) << " finds too much");
            for (size_t i = 0; i < g2.size(); ++i) for (auto &w : want) if (w.first == g2[i]) { bool ok = false; for (auto &c : w.second) ok = ok || c == rp2[i] || up; VF_CHECK(ctx, ok, "replacements", "findChildren(" << pat << ") from " << loc(s) << " reports wrong replacements for " << w.first->getLocation() << [&] { std::string o; for (auto &x : rp2[i]) o += " [" + x + "]"; o += " want"; for (auto &x : w.second[0]) o += " [" + x + "]"; return o; }()); }
            ctx.count("pattern_matches", want.size()); if (wild) ctx.count("wildcard_patterns"); VF_EQ(ctx, TreeNode::hasWildcardCharacters(pat), pat.find_first_of("*?+") != std::string::npos, "has_wildcard", pat); break; }
        case 6: {   // structure of one node
            ctx.op("children", loc(s)); std::vector<TreeNode *> vis; if (s == 0) vis = bptr; for (int k : n[s].kids) if (n[k].priv == n[s].priv) vis.push_back(n[k].p);
            auto ch = n[s].p->getChildren(); VF_CHECK(ctx, ch == vis, "children", "children of " << loc(s)); VF_EQ(ctx, n[s].p->getNumChildren(), uint32_t(vis.size()), "children", "number"); for (size_t i = 0; i < vis.size(); ++i) VF_EQ(ctx, n[s].p->getChildAt(uint32_t(i)), vis[i], "children", "child at " << i);
            if (ctx.rng.chance(1, 10)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { n[s].p->getChildAt(uint32_t(vis.size())); }), "children", "getChildAt past the end");
            std::string g = rnd(GROUPS, 4); std::vector<TreeNode *> gv, wv; size_t mx = TreeNode::GROUP_IDX_NONE; for (int k : n[s].kids) if (n[k].priv == n[s].priv && n[k].group == g) { wv.push_back(n[k].p); if (mx == TreeNode::GROUP_IDX_NONE || size_t(n[k].idx) > mx) mx = size_t(n[k].idx); }
            n[s].p->getGroup(g, gv); VF_CHECK(ctx, gv == wv, "group", "members of group " << g); VF_EQ(ctx, n[s].p->getGroupSize(g), uint32_t(wv.size()), "group", "size"); VF_EQ(ctx, size_t(n[s].p->getGroupIndexMax(g)), mx, "group", "largest index");
            VF_EQ(ctx, n[s].p->getName(), n[s].name, "name", ""); VF_EQ(ctx, n[s].p->getGroup(), n[s].group, "name", "group"); auto id = n[s].p->getIdentifiers(); std::vector<std::string> gi, wi; for (auto *x : id) gi.push_back(*x); if (!n[s].name.empty()) wi.push_back(n[s].name); for (auto &a : n[s].alias) wi.push_back(a); VF_CHECK(ctx, gi == wi, "identifiers", loc(s)); VF_EQ(ctx, n[s].p->isAnonymous(), n[s].name.empty(), "anonymous", "");
            VF_EQ(ctx, n[s].p->getParent(), n[s].parent < 0 ? nullptr : n[n[s].parent].p, "parent", ""); for (auto &m : n) if (m.alive) VF_EQ(ctx, n[s].p->hasImmediateChild(m.p), m.parent == s, "immediate_child", loc(s));
            break; }
        case 7: {   // tags, ancestry, location patterns
            int t = pickAlive(); bool anc = false; for (int k = t; k >= 0; k = n[k].parent) anc = anc || k == s; ctx.op("ancestry", loc(s), loc(t)); VF_EQ(ctx, n[t].p->isDescendantOf(n[s].p), anc, "descendant", loc(t) << " of " << loc(s));
            int md = int(ctx.rng.range(-1, 3)); std::string tag = rnd(TAGS, 3); std::vector<TreeNode *> r, w; for (size_t i = 0; i < n.size(); ++i) { auto &m = n[i]; if (!m.alive) continue; VF_EQ(ctx, m.p->hasTag(tag), std::find(m.tags.begin(), m.tags.end(), tag) != m.tags.end(), "has_tag", tag); if (!m.p->hasTag(tag)) continue; int d = 0, k = int(i); while (k >= 0 && k != s) { k = m.alive ? n[k].parent : -1; ++d; } if (k == s && (md < 0 || d <= md) && (!finalized || m.priv == n[s].priv)) w.push_back(m.p); }
            uint32_t cnt = n[s].p->findChildrenByTag(tag, r, md); std::sort(r.begin(), r.end()); std::sort(w.begin(), w.end()); VF_CHECK(ctx, r == w, "tag_search", "tag " << tag << " below " << loc(s) << " depth " << md << ": " << r.size() << " found, " << w.size() << " there"); VF_EQ(ctx, size_t(cnt), w.size(), "tag_search", "count"); ctx.count("tagged", w.size());
            // location pattern between s (above) and t
            std::vector<std::string> tok; std::vector<int> chain; int k = t; for (int d = 0; d < 4 && k >= 0 && k != s; k = n[k].parent, ++d) { auto id = idents(k); if (!n[k].group.empty()) id.pop_back(); if (id.empty()) break; tok.insert(tok.begin(), ctx.rng.pick(id)); chain.insert(chain.begin(), k); }
            if (tok.empty()) break; if (ctx.rng.chance(1, 6)) tok[ctx.rng.below(tok.size())] += "q"; std::string pat; for (auto &x : tok) { if (ctx.rng.chance(1, 2)) x = loosen(x); pat += (pat.empty() ? "" : ".") + x; }
            bool want = k == s; for (size_t i = 0; i < chain.size(); ++i) { bool one = false; auto id = idents(chain[i]); if (!n[chain[i]].group.empty()) id.pop_back(); for (auto &x : id) { std::vector<std::string> c; one = one || glob(tok[i], 0, x, 0, c); } want = want && one; }
            VF_EQ(ctx, n[t].p->locationMatchesPattern(pat, n[s].p), want, "location_pattern", loc(t) << " matches " << pat << " from " << loc(s)); ctx.count(want ? "location_matches" : "location_mismatches");
            if (t != 0) { std::string nm = rnd(NAMES, 16); int a = n[t].parent; while (a > 0) { bool one = false; if (n[a].name == nm) one = true; for (auto &x : n[a].alias) one = one || x == nm; if (one) break; a = n[a].parent; } VF_EQ(ctx, n[t].p->findAncestorByName(nm), a > 0 ? n[a].p : nullptr, "ancestor_name", nm << " above " << loc(t)); int b = n[t].parent; while (b > 0 && std::find(n[b].tags.begin(), n[b].tags.end(), tag) == n[b].tags.end()) b = n[b].parent; VF_EQ(ctx, n[t].p->findAncestorByTag(tag), b > 0 ? n[b].p : nullptr, "ancestor_tag", tag << " above " << loc(t)); }
            break; }
        }
    }
    void destroy(int i) { ctx.op("destroy", i); n[i].alive = false; if (n[i].parent >= 0) { auto &v = n[n[i].parent].kids; v.erase(std::find(v.begin(), v.end(), i)); } for (int k : n[i].kids) { n[k].parent = -1; } n[i].kids.clear(); n[i].own.reset(); n[i].p = nullptr; }
};
void one(vf::Ctx &ctx)
{
    Quiet q; log::MessageSource::getGlobalWarn() << ""; log::MessageSource::getGlobalDebug() << ""; size_t before = TreeNode::getAllNodes().size();
    {
        Tree t(ctx); int steps = int(ctx.rng.range(50, 300)); bool fin = ctx.rng.chance(2, 3); int at = int(ctx.rng.below(steps));
        for (int i = 0; i < steps; ++i) {
            switch (ctx.rng.below(12)) { case 0: case 1: case 2: t.create(); break; case 3: if (!t.finalized) t.attach(); break; case 4: if (!t.finalized) t.addAlias(); break; case 5: t.addTag(); break; case 6: if (!t.finalized && ctx.rng.chance(1, 5)) t.privatize(); else t.query(); break; default: t.query(); }
            if (fin && i == at) { ctx.op("finalize"); t.root->enterConfiguring(); t.root->enterFinalized(); t.finalized = true; }
            ctx.obs(t.n.size());
        }
        // every node at the end
        for (size_t i = 0; i < t.n.size(); ++i) if (t.inTree(int(i))) { VF_EQ(ctx, t.n[i].p->getLocation(), t.loc(int(i)), "location", "at the end"); for (auto &s : t.idents(int(i))) if (i) VF_EQ(ctx, t.n[t.n[i].parent].p->getChild(s, false), t.n[i].priv == t.n[t.n[i].parent].priv ? t.n[i].p : nullptr, "lookup", "at the end: " << s); }
        ctx.op("teardown"); t.root->enterTeardown();
        std::vector<int> order; for (size_t i = 1; i < t.n.size(); ++i) order.push_back(int(i)); for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[ctx.rng.below(i)]); if (ctx.rng.chance(1, 3)) std::sort(order.begin(), order.end(), [](int a, int b) { return a > b; });
        for (int i : order) { t.destroy(i); if (ctx.rng.chance(1, 3)) for (int k = 0; k < 3; ++k) { int s = t.pickAlive(), end; t.upLast = false; std::string path = t.anyPath(end, s); const TreeNode *want = end >= 0 && t.n[end].priv == t.n[s].priv ? t.n[end].p : nullptr; ctx.op("lookup", t.loc(s), path); VF_EQ(ctx, t.n[s].p->getChild(path, false), want, "teardown_lookup", "getChild(" << path << ") during teardown"); for (const char *g : GROUPS) for (int j = 0; j < 4; ++j) { auto nm = g + std::to_string(j); int w = t.step(s, nm); VF_EQ(ctx, t.n[s].p->getChild(nm, false), w >= 0 && t.n[w].priv == t.n[s].priv ? t.n[w].p : nullptr, "teardown_lookup", "getChild(" << nm << ") during teardown"); } std::vector<TreeNode *> r; t.n[s].p->findChildren("*", r); for (auto *x : r) VF_CHECK(ctx, TreeNode::isNodeConstructed(x), "teardown_find", "a destroyed node is found"); ctx.count("teardown_lookups"); } }
    }
    VF_EQ(ctx, TreeNode::getAllNodes().size(), before, "nodes_left", "nodes known after the tree is gone");
}
}
VF_SECTION(tree, 250, 3000) { one(ctx); }
// Sets of one kind of node accept exactly that kind, list it, and are not changed by what they refuse
#include "sparta/ports/DataPort.hpp"
#include "sparta/ports/PortSet.hpp"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/CycleCounter.hpp"
#include "sparta/statistics/StatisticDef.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/statistics/StatisticInstance.hpp"
#include "sparta/functional/RegisterSet.hpp"
VF_SECTION(sets, 1500, 30000)
{
    Quiet q; auto &r = ctx.rng; vf::Fn f; f.f = [] {}; vf::Fn1<int> f1; f1.f = [](const int &) {};
    Scheduler sched; Clock clk("clock", &sched); RootTreeNode root("top"); root.setClock(&clk);
    TreeNode plain(&root, "plain", "plain node"); EventSet es(&plain); PortSet ps(&plain); StatisticSet ss(&plain); Register::Definition none[] = {Register::DEFINITION_END}; auto rs = RegisterSet::create(&plain, none);
    struct Set { TreeNode *n; const char *what; std::vector<std::pair<std::string, TreeNode *>> kids; }; Set sets[] = {{&plain, "node", {}}, {&es, "EventSet", {}}, {&ps, "PortSet", {}}, {&ss, "StatisticSet", {}}, {rs.get(), "RegisterSet", {}}};
    std::vector<std::unique_ptr<TreeNode>> own; std::vector<std::vector<TreeNode *>> base; for (auto &s : sets) base.push_back(s.n->getChildren());
    enum { NODE, EVENT, PAYLOAD, IN, OUT, COUNTER, CYCLES, STAT, N }; static const char *const K[] = {"TreeNode", "UniqueEvent", "PayloadEvent", "DataInPort", "DataOutPort", "Counter", "CycleCounter", "StatisticDef"};
    auto make = [&](TreeNode *p, const std::string &nm, int k) -> TreeNode * {
        switch (k) {
        case EVENT: return new UniqueEvent<>(p, nm, f.h()); case PAYLOAD: return new PayloadEvent<int>(p, nm, f1.h()); case IN: return new DataInPort<int>(p, nm, 1); case OUT: return new DataOutPort<int>(p, nm);
        case COUNTER: return new Counter(p, nm, "d", Counter::COUNT_NORMAL); case CYCLES: return new CycleCounter(p, nm, "d", Counter::COUNT_NORMAL, &clk); case STAT: return new StatisticDef(p, nm, "d", p, "1+1"); default: return new TreeNode(p, nm, "d"); }
    };
    auto takes = [&](int s, int k) { return s == 0 ? k == NODE : s == 1 ? k == EVENT || k == PAYLOAD : s == 2 ? k == IN || k == OUT : s == 3 ? k >= COUNTER : false; };
    auto compare = [&] {
        for (int i = 0; i < 5; ++i) {
            auto &s = sets[i]; auto kids = s.n->getChildren(); VF_EQ(ctx, kids.size(), base[i].size() + s.kids.size(), "sets", std::string("children of the ") + s.what);
            for (size_t j = 0; j < s.kids.size(); ++j) VF_CHECK(ctx, kids[base[i].size() + j] == s.kids[j].second && s.n->getChild(s.kids[j].first) == s.kids[j].second && s.kids[j].second->getParent() == s.n, "sets", "child " << s.kids[j].first << " of the " << s.what);
        }
        size_t e = 0; for (uint32_t p = 0; p < NUM_SCHEDULING_PHASES; ++p) e += es.getEvents(SchedulingPhase(p)).size(); VF_EQ(ctx, e, sets[1].kids.size(), "sets", "events listed"); std::map<std::string, TreeNode *> in, out, wi, wo; for (auto &x : ps.getPorts(Port::Direction::IN)) in[x.first] = x.second; for (auto &x : ps.getPorts(Port::Direction::OUT)) out[x.first] = x.second;
        for (auto &k : sets[2].kids) { VF_CHECK(ctx, static_cast<TreeNode *>(ps.getPort(k.first)) == k.second, "sets", "getPort " << k.first); (dynamic_cast<DataInPort<int> *>(k.second) ? wi : wo)[k.first] = k.second; } VF_CHECK(ctx, in == wi && out == wo, "sets", "ports listed"); VF_CHECK(ctx, vf::throws<SpartaException>([&] { ps.getPort("missing"); }), "sets", "a missing port is found");
        std::vector<TreeNode *> c, wc; for (auto *x : ss.getCounters()) c.push_back(const_cast<CounterBase *>(x)); size_t st = 0; for (auto &k : sets[3].kids) if (dynamic_cast<CounterBase *>(k.second)) wc.push_back(k.second); else ++st; VF_CHECK(ctx, c == wc, "sets", "counters listed"); VF_EQ(ctx, rs->getNumRegisters(), 0u, "sets", "registers listed"); (void)st;
    };
    int n = int(r.range(4, 30));
    for (int i = 0; i < n; ++i) {
        int s = int(r.below(5)), k = int(r.below(N)); std::string nm = "m" + std::to_string(r.chance(1, 5) ? int(r.below(i + 1)) : i); bool dup = false; for (auto &x : sets[s].kids) dup |= x.first == nm; if (s == 0 && k != NODE) continue;
        if (s == 1 && k == EVENT && dup) { } bool want = takes(s, k) && !dup; ctx.op("add", sets[s].what, K[k], nm); TreeNode *got = nullptr; bool ok = !vf::throws<SpartaException>([&] { got = make(sets[s].n, nm, k); });
        VF_EQ(ctx, ok, want, "sets", std::string(sets[s].what) + (want ? " refuses " : " accepts ") + K[k] + " " + nm); if (ok) { own.emplace_back(got); sets[s].kids.emplace_back(nm, got); } compare(); ctx.obs(s, k, ok); ctx.count(ok ? "accepted" : "refused");
    }
    root.enterConfiguring(); root.enterFinalized(); for (int i = 0; i < 5; ++i) VF_CHECK(ctx, vf::throws<SpartaException>([&] { make(sets[i].n, "late", int(r.below(N))); }), "sets", sets[i].what << " accepts a node after finalization"); compare(); root.enterTeardown();
}
