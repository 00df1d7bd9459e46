// C31: malformed texts in every input language. Each is accepted or rejected with an exception of the standard type within the
// step budget, and the next correct input has exactly its documented effect on the same objects.
#include "simenv.hpp"
#include "sparta/app/ReportDescriptor.hpp"
#include "sparta/functional/ArchData.hpp"
#include "sparta/functional/Register.hpp"
#include "sparta/functional/RegisterSet.hpp"
#include "sparta/parsers/ConfigParserYAML.hpp"
#include "sparta/report/Report.hpp"
#include "sparta/report/SubContainer.hpp"
#include "sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include "sparta/simulation/ParameterTree.hpp"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/Expression.hpp"
#include "sparta/statistics/StatisticDef.hpp"
#include "sparta/statistics/StatisticInstance.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/tree/filter/Parser.hpp"
#include "sparta/trigger/ExpressionTrigger.hpp"
#include "sparta/utils/SmartLexicalCast.hpp"
#include <csignal>
#include <fstream>
#include <sys/time.h>
using namespace sparta;
extern "C" const char *__asan_default_options() { return "hard_rss_limit_mb=3500"; }
namespace {
using Words = std::vector<std::string>;
// The step budget: a text that keeps the processor busy for this long is never going to be accepted or rejected.
void expired(int) { static const char m[] = "C31: no end of one input within 40 s of processor time\n"; (void)!write(2, m, sizeof m - 1); abort(); }
struct Budget {
    Budget() { signal(SIGPROF, expired); set(40); }
    ~Budget() { set(0); }
    void set(int s) { itimerval v{{0, 0}, {s, 0}}; setitimer(ITIMER_PROF, &v, nullptr); }
};
struct Mut {
    vf::Rng &r; const Words &dict;
    std::string frag() { if (r.chance(3, 4)) return r.pick(dict); if (r.chance(1, 2)) return std::string(1, char(r.range(32, 126))); if (r.chance(1, 3)) return std::string(1, char(r.below(256))); return std::string(r.range(1, 40), "([{*.-:\" \n9"[r.below(11)]); }
    void once(std::string &s)
    {
        size_t a = r.below(s.size() + 1), n = std::min<size_t>(s.size() - a, r.chance(1, 6) ? s.size() : r.below(6));
        switch (r.below(9)) {
        case 0: s.erase(a, n); break;
        case 1: case 2: case 3: s.insert(a, frag()); break;
        case 4: s.replace(a, n, frag()); break;
        case 5: { auto t = s.substr(a, n); int k = int(r.range(1, 3)); while (k--) s.insert(a, t); break; }
        case 6: if (a < s.size()) s[a] = char(r.chance(1, 2) ? s[a] ^ (1 << r.below(8)) : r.below(256)); break;
        case 7: { auto t = s.substr(a, n); s.erase(a, n); s.insert(r.below(s.size() + 1), t); break; }
        case 8: if (r.chance(1, 3)) s.resize(a); else if (s.size() > 1) { size_t b = r.below(s.size()); if (a < s.size()) std::swap(s[a], s[b]); } break;
        }
        if (s.size() > 3000) s.resize(3000);
    }
    std::string soup(int n) { std::string s; while (n--) { s += frag(); if (r.chance(1, 3)) s += ' '; } return s; }
    // A pattern of k wildcards takes a time of the order of n^k on a name of n characters: that is its meaning, not a defect
    static std::string tame(std::string s) { int n = 0; for (auto &c : s) { if (isspace((unsigned char)c)) n = 0; else if ((c == '*' || c == '+' || c == '?') && ++n > 5) c = 'x'; } return s; }
    std::string operator()(const Words &seeds) { return tame(raw(seeds)); }
    std::string lines(const Words &seeds) { return tame(rawLines(seeds)); }
    std::string raw(const Words &seeds)
    {
        if (r.chance(1, 8)) return soup(int(r.range(0, 14)));
        std::string s = r.pick(seeds); int n = int(r.chance(1, 4) ? r.range(3, 10) : r.range(0, 2)); while (n--) once(s); if (r.chance(1, 12)) { std::string t = r.pick(seeds); s += t; } return s;
    }
    // well-formed lines in a malformed arrangement
    std::string rawLines(const Words &seeds)
    {
        if (r.chance(1, 3)) return raw(seeds);
        Words l; std::string cur; std::istringstream is(r.pick(seeds)); while (std::getline(is, cur)) l.push_back(cur); if (l.empty()) l.push_back("");
        int n = int(r.range(1, 4)); while (n--) { size_t i = r.below(l.size()); switch (r.below(6)) {
            case 0: if (l.size() > 1) l.erase(l.begin() + long(i)); break;
            case 1: l.insert(l.begin() + long(i), l[r.below(l.size())]); break;
            case 2: l[i].insert(0, std::string(r.below(5), ' ')); break;
            case 3: { size_t k = l[i].find_first_not_of(' '); if (k != std::string::npos && k) l[i].erase(0, std::min<size_t>(k, 1 + r.below(4))); break; }
            case 4: once(l[i]); break;
            case 5: { size_t k = l[i].find_first_not_of(' '); l.insert(l.begin() + long(i), std::string(k == std::string::npos ? 0 : k, ' ') + r.pick(dict) + (r.chance(1, 2) ? ": " + r.pick(dict) : ":")); break; } } }
        std::string s; for (auto &x : l) s += x + "\n"; return s;
    }
};
std::string esc(const std::string &s) { std::string o; char b[8]; for (unsigned char c : s) { if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += char(c); } return o; }
// Runs f on a text: true when it was accepted
template<class F> bool feed(vf::Ctx &ctx, const char *lang, const std::string &t, F f)
{
    ctx.op(lang, esc(t)); Budget b; bool ok = false;
    try { f(); ok = true; } catch (const std::exception &) {} catch (...) { VF_CHECK(ctx, false, std::string(lang) + "-foreign", "an exception that is no std::exception for " << esc(t)); }
    ctx.count(std::string(lang) + (ok ? " accepted" : " rejected")); ctx.obs(ok); return ok;
}
struct StatUnit {
    StatisticSet ss; std::vector<std::unique_ptr<Counter>> c; std::unique_ptr<StatisticDef> d;
    StatUnit(TreeNode *n) : ss(n) { for (int i = 0; i < 3; ++i) c.emplace_back(new Counter(&ss, "c" + std::string(1, char('x' + i)), "counter", Counter::COUNT_NORMAL, i == 2 ? InstrumentationNode::VIS_HIDDEN : InstrumentationNode::VIS_NORMAL)); d.reset(new StatisticDef(&ss, "sum", "sum", &ss, "cx + cy")); }
};
struct StatWorld {
    Quiet q; vf::Env env; std::vector<std::unique_ptr<TreeNode>> n; std::vector<std::unique_ptr<StatUnit>> u;
    StatWorld()
    {
        for (int i = 0; i < 2; ++i) n.emplace_back(new TreeNode(&env.rtn, "core" + std::to_string(i), "core", unsigned(i), "a core")); n.emplace_back(new TreeNode(n[0].get(), "lsu", "unit")); n.emplace_back(new TreeNode(n[1].get(), "lsu", "unit"));
        for (auto &x : n) u.emplace_back(new StatUnit(x.get())); n[2]->addTag("tagged"); env.finalize(); for (size_t i = 0; i < u.size(); ++i) for (int k = 0; k < 3; ++k) *u[i]->c[k] += 10 * i + k + 1;
    }
};
const Words COMMON = {"", " ", "\n", "\t", "0", "1", "-1", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "1e400", "nan", "inf", "0x", "0b2", "true", "\"", "'", "\\", "$", "%", "%0", "%%", "#", "//", "[", "]", "{", "}", "(", ")", ",", ":", ": ", "- ", "&a", "*a", "!!int", "|", ">", "?", "@", "~", "null", "---", "...", "*", "+", ".", "..", "\xc3\xa9", std::string(1, '\0'), std::string(300, 'a')};
Words join(Words a) { a.insert(a.end(), COMMON.begin(), COMMON.end()); return a; }

// ------------------------------------------------------------------------------------------------------------ parameters
struct PSet : ParameterSet {
    PSet(TreeNode *n) : ParameterSet(n) {}
    PARAMETER(uint32_t, u32, 7, "d") PARAMETER(int16_t, i16, -3, "d") PARAMETER(uint64_t, u64, 1, "d") PARAMETER(double, dbl, 1.5, "d") PARAMETER(bool, flag, true, "d") PARAMETER(std::string, str, "s", "d")
    PARAMETER(std::vector<uint32_t>, vec, (std::vector<uint32_t>{1, 2}), "d") PARAMETER(std::vector<std::string>, svec, (std::vector<std::string>{"a"}), "d") PARAMETER(std::vector<std::vector<int32_t>>, nest, (std::vector<std::vector<int32_t>>{{1}, {2, 3}}), "d")
};
struct PWorld {
    Quiet q; RootTreeNode rtn; std::vector<std::unique_ptr<TreeNode>> n; std::vector<std::unique_ptr<PSet>> s;
    PWorld() : rtn("top") { for (int i = 0; i < 2; ++i) n.emplace_back(new TreeNode(&rtn, "core" + std::to_string(i), "core", unsigned(i), "a core")); n.emplace_back(new TreeNode(n[0].get(), "lsu", "unit")); for (auto &x : n) s.emplace_back(new PSet(x.get())); rtn.enterConfiguring(); }
    ~PWorld() { rtn.enterTeardown(); }
};
const std::pair<const char *, std::pair<const char *, const char *>> PGOOD[] = {{"u32", {"0x10", "16"}}, {"i16", {"-12", "-12"}}, {"u64", {"5k", "5000"}}, {"dbl", {"2.5", "2.5"}}, {"flag", {"false", "false"}}, {"str", {"hello", "hello"}}};
const char *const VGOOD[] = {"vec", "svec", "nest"};
void params(vf::Ctx &ctx)
{
    PWorld w; static const Words seeds = {"1234", "-12", "0x7f", "0b101", "5k", "1.5G", "1 000", "3.25e3", "true", "hello world", "[1, 2]", "[[1], [2, 3]]", "0777", "1ki5", "1_000"};
    static const Words dict = join({"k", "Ki", "G", "n", ".", "e", "x", "0b", "_", ",", "[[", "]]"});
    Mut m{ctx.rng, dict};
    for (int i = 0; i < 12; ++i) {
        auto *p = w.s[0]->getParameter(ctx.rng.chance(1, 4) ? VGOOD[ctx.rng.below(3)] : PGOOD[ctx.rng.below(6)].first); std::string t = m(seeds), before = p->getValueAsString(); bool vec = p->getDimensionality() > 0;
        bool ok = feed(ctx, "parameter", t, [&] { switch (ctx.rng.below(vec ? 3 : 1)) { case 0: p->setValueFromString(t); break; case 1: p->setValueFromStringVector({t, m(seeds)}); break; default: { std::vector<uint32_t> idx; for (uint32_t k = uint32_t(ctx.rng.range(0, 3)); k; --k) idx.push_back(uint32_t(ctx.rng.below(4))); p->setItemValueFromString(idx, t); } } });
        if (!ok && !vec) VF_EQ(ctx, p->getValueAsString(), before, "parameter-changed", p->getName() << " changed by a rejected text");
        { Budget b; size_t e = 0; (void)utils::smartLexicalCast<uint64_t>("12k", e); try { e = 0; (void)utils::smartLexicalCast<int64_t>(t, e); } catch (const std::exception &) {} try { e = 0; (void)utils::smartLexicalCast<uint8_t>(t, e); } catch (const std::exception &) {} }
        auto &g = PGOOD[ctx.rng.below(6)]; auto *gp = w.s[0]->getParameter(g.first); gp->setValueFromString(g.second.first); VF_EQ(ctx, gp->getValueAsString(), std::string(g.second.second), "parameter-next", g.first);
        w.s[0]->getParameter("vec")->setValueFromStringVector({"4", "5"}); VF_CHECK(ctx, w.s[0]->vec.getValueAsString() == "[4, 5]", "parameter-next-vector", "vec");
    }
}
VF_SECTION(params, 150, 3000) { params(ctx); }

// ---------------------------------------------------------------------------------------------------- configuration files
const Words YSEEDS = {"top.core0.params.u32: 5\ntop.core1:\n  params:\n    vec: [1, 2, 3]\n    nest: [[1, 2], [3], []]\n    str: \"text\"\n", "top:\n  core*.params:\n    i16: -4\n    // i16: 4\n    flag: true\n  core0.lsu.params.svec: [a, b, c]\n", "top.core0:\n  params:\n    nest:\n      - [1, 2]\n      - [3]\n    svec:\n      - x\n      - y\n    dbl: 2.5\n", "#include: other.yaml\ntop.core1.params.u64: 0x20\n", "top.core0.params:\n  include: part.yaml\n  u32: 9\n", "//top.core0.params.u32: 12\ntop:\n  //core1:\n    params:\n      u32: 1\n  core1:\n    params.u32: <OPTIONAL>\n"};
const Words YDICT = join({"top", "top.core0.params.u32", "core*", "params", "u32", "vec", "nest", "str", "..", "core0..", "top.*.*", "include", "#include", "other.yaml", "part.yaml", "self.yaml", "loop.yaml", "missing.yaml", "// x", "[1, 2]", "[[1]]", "[[[1]]]", "[{a: 1}]", "{a: b}", "{a: [1]}", "[]", "{}", "<OPTIONAL>", "- 1", "- - 1", "- a: 1", "? [x]", "&a 1", "*a", "!!str 5", "? ", "key with spaces", "core[0-1]", "+", "?", "%include"});
void yaml(vf::Ctx &ctx)
{
    PWorld w; Mut m{ctx.rng, YDICT}; auto &d = ctx.scratch; auto put = [&](const char *f, const std::string &s) { std::ofstream(d + "/" + f, std::ios::binary) << s; };
    put("other.yaml", ctx.rng.chance(1, 4) ? m.lines(YSEEDS) : "top.core1.params.u32: 3\n"); put("part.yaml", ctx.rng.chance(1, 4) ? m.lines(YSEEDS) : "u32: 3\ni16: 2\n"); put("self.yaml", "top.core0.params:\n  include: self.yaml\n"); put("loop.yaml", "#include: pool.yaml\n"); put("pool.yaml", "#include: loop.yaml\n");
    for (int i = 0; i < 6; ++i) {
        std::string t = m.lines(YSEEDS); put("bad.yaml", t); bool dry = ctx.rng.chance(1, 4);
        feed(ctx, dry ? "tree file" : "file", t, [&] { ConfigParser::YAML y(d + "/bad.yaml", {d}); y.allowMissingNodes(dry || ctx.rng.chance(1, 2)); if (dry) { TreeNode dummy("dummy", "dummy"); y.consumeParameters(&dummy, false); } else y.consumeParameters(w.rtn.getSearchScope(), ctx.rng.chance(1, 10)); auto &pt = y.getParameterTree(); std::ostringstream o; pt.recursePrint(o); ParameterTree c(pt); c.clear(); });
        unsigned v = unsigned(ctx.rng.below(1000)); put("good.yaml", "top:\n  core*.params:\n    u32: " + std::to_string(v) + "\n    vec: [8, 9, " + std::to_string(v) + "]\n    nest: [[1], [" + std::to_string(v) + "]]\n  core0.lsu.params.str: fine\n");
        ConfigParser::YAML y(d + "/good.yaml", {d}); y.consumeParameters(w.rtn.getSearchScope(), false);
        for (int k = 0; k < 2; ++k) { VF_EQ(ctx, w.s[k]->u32.getValueAsString(), std::to_string(v), "file-next", "u32 of core " << k); VF_EQ(ctx, w.s[k]->vec.getValueAsString(), "[8, 9, " + std::to_string(v) + "]", "file-next", "vec"); VF_EQ(ctx, w.s[k]->nest.getValueAsString(), "[[1], [" + std::to_string(v) + "]]", "file-next", "nest"); }
        VF_EQ(ctx, w.s[2]->str.getValueAsString(), std::string("fine"), "file-next", "str"); VF_EQ(ctx, y.getParameterTree().get("top.core0.lsu.params.str").getValue(), std::string("fine"), "file-next-tree", "str");
    }
}
VF_SECTION(yaml, 150, 3000) { yaml(ctx); }

// ------------------------------------------------------------------------------------------------------------ expressions
const Words ESEEDS = {"core0.stats.cx + core1.stats.cy", "(core0.stats.cx + 1) * 2 ** 3", "-core0.lsu.stats.sum / 4", "max(core0.stats.cx, min(1, 2))", "cond(core0.stats.cx, 1, 2)", "isnan(1 / 0) + c_pi", "sqrt(abs(-5)) - cycles", "core0.lsu.stats.cx ** -1", "1.5e3 + .5 + 2.", "agg(core0.stats.cx, core1.stats.cx)", "seconds * 1 + g_ms"};
const Words EDICT = join({"+", "-", "*", "/", "**", "(", ")", ",", "core0.stats.cx", "core0.stats.sum", "core0.stats", "core*.stats.cx", "core0", "nothing", "max(", "min(1,", "abs(", "cond(", "freq(", "cycles", "ticks", "seconds", "1e", "1e5", "0x10", ".5", "..", "core0..core1.stats.cx", "_", "stat", "(((((", ")))))", "- - -", "isnan", "g_ms", "c_pi", "&&", "||", "=="});
void expr(vf::Ctx &ctx)
{
    StatWorld w; Mut m{ctx.rng, EDICT};
    for (int i = 0; i < 10; ++i) {
        std::string t = m(ESEEDS); if (ctx.rng.chance(1, 20)) { int n = int(ctx.rng.range(5, 60)); t = std::string(n, '(') + "1" + std::string(ctx.rng.chance(2, 3) ? n : n - 1, ')'); } TreeNode *c = ctx.rng.chance(1, 3) ? w.n[ctx.rng.below(4)].get() : static_cast<TreeNode *>(&w.env.rtn);
        feed(ctx, "expression", t, [&] { statistics::expression::Expression e(t, c); (void)e.stringize(); std::vector<const TreeNode *> used; StatisticInstance si(std::move(e)); si.setContext(c); (void)si.getValue(); si.start(); si.end(); (void)si.getValue(); std::ostringstream o; o << si.getExpressionString(); });
        int k = int(ctx.rng.below(4)); static const char *const N[] = {"core0", "core1", "core0.lsu", "core1.lsu"}; StatisticInstance si(statistics::expression::Expression("(" + std::string(N[k]) + ".stats.sum + 1) * 2", &w.env.rtn)); si.setContext(&w.env.rtn); si.start(); *w.u[size_t(k)]->c[0] += 4; VF_EQ(ctx, si.getValue(), 10.0, "expression-next", N[k]);
    }
}
VF_SECTION(expr, 120, 2500) { expr(ctx); }

// ---------------------------------------------------------------------------------------------------------- tree filters
const Words FSEEDS = {"vis:summary || vis:normal", "!(type:counter) && vis:hidden", "name:cx ^^ tag:tagged", "not type:statistic", ">=vis:detail", "!=vis:100", "name =~ c.*", "tag != x && true", "(false || (true && type == counter))", "name=~\"c[xy]\"", "==vis:0x10"};
const Words FDICT = join({"vis:", "vis", "type:", "tag:", "name:", "=~", "==", "!=", ">=", "<=", "<", ">", "!", "not", "&&", "||", "^^", "(", ")", "true", "false", "summary", "hidden", "counter", "stat", "cx", ".*", "[", "(?", "a{9999999}", "\\", "0b", "99999999999999999999", "(a*)*b"});
void filter(vf::Ctx &ctx)
{
    StatWorld w; Mut m{ctx.rng, FDICT}; tree::filter::Parser p; TreeNode *nodes[] = {w.n[0].get(), w.n[2].get(), w.u[0]->c[0].get(), w.u[1]->c[2].get(), w.u[2]->d.get(), &w.env.rtn};
    for (int i = 0; i < 14; ++i) {
        std::string t = m(FSEEDS); feed(ctx, "filter", t, [&] { tree::filter::Expression e = p.parse(t); (void)e.stringize(); for (auto *n : nodes) (void)e.valid(n, ctx.rng.chance(1, 8)); });
        static const std::pair<const char *, int> GOOD[] = {{"type:counter && vis:normal", 4}, {"vis:hidden", 8}, {"tag:tagged", 2}, {"type:statistic || name:lsu", 18}, {"!(type:counter)", 51}, {"false ^^ true", 63}}; auto &g = GOOD[ctx.rng.below(6)]; tree::filter::Expression e = p.parse(g.first); int got = 0; for (int k = 0; k < 6; ++k) got |= int(e.valid(nodes[k])) << k; VF_EQ(ctx, got, g.second, "filter-next", g.first);
    }
}
VF_SECTION(filter, 150, 3000) { filter(ctx); }

// -------------------------------------------------------------------------------------------------------------- triggers
const Words TSEEDS = {"core0.stats.cx >= 100", "core0.stats.cx >= 20 && core1.stats.cy >= 30", "(core0.stats.cx >= 9 && core1.stats.cx >= 9) || core0.lsu.stats.cx == 5", "sparta.scheduler.ticks >= 10", "clock.cycles >= 7", "notif.thing == 1 || notif.other != 2", "top.core0.stats.sum >= 5", "core0.stats.cx >= 5 -> post.done", "stat_def.core0.stats.sum >= 5", "5 ns", "c0.cycles == 8", "core0.stats.cx == c0.start"};
const Words TDICT = join({">=", "==", "<=", "!=", "<", ">", "&&", "||", "(", ")", "((", "))", ")(", "core0.stats.cx", "top.core0.stats.cx", "core0.stats.sum", "core0", "core*", "top", "sparta", "ns", "us", "clock.cycles", "cycles", "notif.", "notif.thing", "t1.start", "t1.stop", ".", "->", "post.", "10", "0", "-3", "agg", "stat_def.", "99999999999999999999"});
void trigger_(vf::Ctx &ctx)
{
    StatWorld w; Mut m{ctx.rng, TDICT}; std::shared_ptr<SubContainer> sc(new SubContainer); int fired = 0; vf::Fn cb; cb.f = [&] {}; vf::Fn good; good.f = [&] { ++fired; }; std::vector<std::unique_ptr<trigger::ExpressionTrigger>> kept;
    for (int i = 0; i < 8; ++i) {
        std::string t = m(TSEEDS); feed(ctx, "trigger", t, [&] { std::unique_ptr<trigger::ExpressionTrigger> x(new trigger::ExpressionTrigger("x", cb.h(), t, &w.env.rtn, sc)); (void)x->toString(); (void)x->getNegatedExpression(); (void)x->getInternals(); if (ctx.rng.chance(1, 2)) x->setReferenceEvent("t1", "start"); if (ctx.rng.chance(1, 3)) kept.push_back(std::move(x)); });
        Counter &c = *w.u[1]->c[1]; uint64_t target = c.get() + uint64_t(ctx.rng.range(1, 5)); fired = 0; trigger::ExpressionTrigger g("g", good.h(), (ctx.rng.chance(1, 2) ? "core1.stats.cy >= " + std::to_string(target) : "(core1.stats.cy >= " + std::to_string(target) + " && core1.stats.cy >= 1) || core1.stats.cy >= " + std::to_string(target + 900)), &w.env.rtn, sc);
        w.env.sched.run(2, true, false); VF_EQ(ctx, fired, 0, "trigger-early", "fired at " << c.get() << " of " << target); while (c.get() < target) ++c; w.env.sched.run(3, true, false); VF_EQ(ctx, fired, 1, "trigger-next", "firings at " << c.get() << " of " << target);
    }
}
VF_SECTION(triggers, 120, 2500) { trigger_(ctx); }

// ------------------------------------------------------------------------------------------------- names and patterns
void pattern(vf::Ctx &ctx)
{
    PWorld w; static const Words seeds = {"core0", "core*", "core+.params", "*.params.u32", "core[01].lsu", "core0.lsu.params.vec", "core0..core1", "core?", ".core0", "core{0,1}", "core0.params.u*", "core!0", "(core0|core1)", "core0.*.*.*"}; static const Words dict = join({"*", "+", "?", "[!", "[", "]", "(", ")", "|", "..", ".", "core", "params", "\\", "^", "$", "{2}", "{,}", "(((", "[[:alpha:]]", "[z-a]", "(?=", "****", "+*+*"}); Mut m{ctx.rng, dict};
    TreeNode *top = &w.rtn; auto count = [&] { std::function<size_t(TreeNode *)> f = [&](TreeNode *n) { size_t s = 1; for (auto *c : n->getChildren()) s += f(c); return s; }; return f(top); }; size_t nodes = count();
    for (int i = 0; i < 16; ++i) {
        std::string t = m(seeds); TreeNode *from = ctx.rng.chance(1, 3) ? w.n[ctx.rng.below(3)].get() : top; if (std::count(t.begin(), t.end(), '*') + std::count(t.begin(), t.end(), '+') > 12) continue;
        switch (ctx.rng.below(6)) {
        case 0: case 1: feed(ctx, "pattern", t, [&] { std::vector<TreeNode *> o; std::vector<std::vector<std::string>> rep; uint32_t n = from->findChildren(t, o, rep); VF_EQ(ctx, size_t(n), o.size(), "pattern-count", esc(t)); VF_EQ(ctx, rep.size(), o.size(), "pattern-count", esc(t)); }); break;
        case 2: feed(ctx, "path", t, [&] { auto *n = from->getChild(t, ctx.rng.chance(1, 2)); if (n && t.find("..") == std::string::npos) VF_CHECK(ctx, t.empty() || n == from || n->getParent(), "path-node", esc(t)); }); break;
        case 3: feed(ctx, "has", t, [&] { (void)from->hasChild(t); (void)from->getDeepestMatchingPath(t); }); break;
        case 4: feed(ctx, "regex", t, [&] { auto e = TreeNode::createSearchRegexPattern(t); (void)e; (void)TreeNode::hasWildcardCharacters(t); (void)from->locationMatchesPattern(t, top); }); break;
        case 5: if (feed(ctx, "name", t, [&] { TreeNode x(t, "some node"); (void)x.getLocation(); VF_CHECK(ctx, t.find('.') == std::string::npos, "name-dot", esc(t)); })) ctx.count("names accepted"); break;
        }
        VF_EQ(ctx, count(), nodes, "pattern-tree", "nodes"); std::vector<TreeNode *> o; VF_EQ(ctx, top->findChildren("core*.params.u32", o), 2u, "pattern-next", "matches"); VF_CHECK(ctx, top->getChild("core0.lsu.params.vec") == &w.s[2]->vec, "path-next", "vec");
    }
}
VF_SECTION(pattern, 150, 3000) { pattern(ctx); }

// ---------------------------------------------------------------------------------------------------- report definitions
const Words RSEEDS = {"name: \"Test\"\nauthor: me\nstyle:\n  decimal_places: 3\n  collapsible_children: no\ncontent:\n  core0:\n    stats:\n      cx: \"first\"\n      sum: \"second %l\"\n      \"cx + cy\": third\n", "content:\n  autopopulate: vis:normal\n", "content:\n  autopopulate:\n    attributes: \"!=vis:hidden && !=vis:support\"\n    max_recursion_depth: 2\n    max_report_depth: -1\n", "content:\n  subreport:\n    name: sub\n    content:\n      core*.stats:\n        cx: \"%1 x\"\n        c*: \"%1 %l %n\"\n      subreport:\n        name: subsub\n        content:\n          core0.lsu.stats.cx: a\n", "content:\n  optional:\n    nothere.stats.cx: a\n  report_ignore:\n    core0.stats.cx: b\n  core0:\n    include: rpart.yaml\n", "trigger:\n  start: core0.stats.cx >= 5\n  stop: core0.stats.cx >= 7\ncontent:\n  core0.stats.cy: y\n", "name: r\ncontent:\n  some-arch-content:\n    core0.stats.cx: q\n  core1.stats.stats_func.total: t\n"};
const Words RDICT = join({"name", "author", "style", "content", "subreport", "autopopulate", "attributes", "max_recursion_depth", "max_report_depth", "trigger", "start", "stop", "whenever", "tag", "report", "report_ignore", "optional", "include", "rpart.yaml", "rself.yaml", "rloop.yaml", "core0", "core*", "core*.stats", "stats.cx", "cx", "sum", "cx + ", "core0.stats.cx: x", "%l", "%1", "%2", "%i", "%99", "%%", "%", "a-arch-content", "vis:normal", "-1", "stats_func.a", "x.stats_func.y", ".", "..", "...", "[a, b]", "- a", "{a: b}", "\"\""});
void report(vf::Ctx &ctx)
{
    StatWorld w; Mut m{ctx.rng, RDICT}; auto &d = ctx.scratch; auto put = [&](const char *f, const std::string &s) { std::ofstream(d + "/" + f, std::ios::binary) << s; };
    put("rpart.yaml", ctx.rng.chance(1, 4) ? m.lines(RSEEDS) : "content:\n  stats.cx: part\n"); put("rself.yaml", "content:\n  include: rself.yaml\n"); put("rloop.yaml", "content:\n  include: rpool.yaml\n"); put("rpool.yaml", "content:\n  include: rloop.yaml\n");
    char cwd[4096]; if (!getcwd(cwd, sizeof cwd) || chdir(d.c_str())) throw vf::HarnessError("chdir"); struct Back { const char *c; ~Back() { (void)!chdir(c); } } back{cwd};
    for (int i = 0; i < 6; ++i) {
        std::string t = m.lines(RSEEDS); bool file = ctx.rng.chance(1, 3), reuse = ctx.rng.chance(1, 2); Report r("r", &w.env.rtn);
        feed(ctx, "definition", t, [&] { if (ctx.rng.chance(1, 5)) r.enableContextCounterStatsAutoExpansion(); if (file) { put("rbad.yaml", t); r.addFile("rbad.yaml"); } else r.addDefinitionString(t); r.start(); std::ostringstream o; o << r; });
        auto check = [&](Report &g, size_t at, size_t subs, const char *what) { double c0 = double(w.u[0]->c[1]->get()); (void)c0; VF_EQ(ctx, g.getStatistics().size(), at + 3, what, "statistics"); VF_EQ(ctx, size_t(g.getNumSubreports()), subs + 1, what, "subreports"); if (g.getStatistics().size() != at + 3 || size_t(g.getNumSubreports()) != subs + 1) return; g.start(); *w.u[0]->c[0] += 3; *w.u[1]->c[1] += 2; VF_EQ(ctx, g.getStatistics()[at].first, std::string("g one"), what, "name"); VF_EQ(ctx, g.getStatistics()[at].second->getValue(), 3.0, what, "first"); VF_EQ(ctx, g.getStatistics()[at + 1].second->getValue(), 2.0, what, "second"); VF_EQ(ctx, g.getStatistics()[at + 2].second->getValue(), 6.0, what, "third"); VF_EQ(ctx, g.getSubreport(subs).getStatistics().size(), size_t(2), what, "of the subreport"); };
        static const std::string GOOD = "content:\n  core0.stats:\n    cx: \"g one\"\n  core1:\n    stats.cy: \"g two %l\"\n  \"core0.stats.sum * 2\": \"g three\"\n  subreport:\n    name: \"g sub\"\n    content:\n      core*.lsu.stats:\n        cx: \"g %1\"\n";
        if (reuse) { size_t at = r.getStatistics().size(), subs = r.getNumSubreports(); r.addDefinitionString(GOOD); check(r, at, subs, "definition-next-same"); } else { Report g("g", &w.env.rtn); g.addDefinitionString(GOOD); check(g, 0, 0, "definition-next"); }
    }
}
VF_SECTION(report, 150, 3000) { report(ctx); }

const Words MSEEDS = {"content:\n  report:\n    name: one\n    pattern: _global\n    def_file: a.yaml\n    dest_file: a.csv\n    format: csv\n    trigger:\n      start: core0.stats.cx >= 5\n      update-cycles: 10\n    header_metadata:\n      key: value\n  report:\n    def_file: b.yaml\n    dest_file: b.txt\n", "content:\n  report:\n    skip: true\n    def_file: a.yaml\n    dest_file: x.json\n    format: json_reduced\n    header_metadata:\n      owner: me\n    trigger:\n      whenever: core0.stats.cx >= 5\n      tag: t0\n  report:\n    pattern: core*\n    def_file: c.yaml\n    dest_file: c.html\n    format: html\n    expand-cc: true\n"};
const Words MDICT = join({"content", "report", "name", "pattern", "def_file", "dest_file", "format", "csv", "json", "text", "nosuchformat", "trigger", "start", "stop", "whenever", "update-time", "update-cycles", "update-count", "update-whenever", "tag", "skip", "expand-cc", "header_metadata", "start_counter", "key: value", "a.csv", "1", "\"\"", "[a]", "{a: b}"});
void descriptors(vf::Ctx &ctx)
{
    StatWorld w; Mut m{ctx.rng, MDICT};
    for (int i = 0; i < 8; ++i) {
        std::string t = m.lines(MSEEDS); feed(ctx, "descriptors", t, [&] { auto v = app::createDescriptorsFromDefinitionString(t, &w.env.rtn); for (auto &x : v) (void)x.stringize(); });
        // a correct file of any shape
        std::string g = "content:\n"; struct D { std::string name, pat, def, dest, fmt; std::map<std::string, std::string> trig, meta; bool cc; }; std::vector<D> want; int n = int(ctx.rng.range(1, 4));
        for (int k = 0; k < n; ++k) {
            D x{"", "_global", "d" + std::to_string(k) + ".yaml", "o" + std::to_string(k) + ".txt", "text", {}, {}, false}; bool skip = ctx.rng.chance(1, 4); g += "  report:\n    def_file: " + x.def + "\n    dest_file: " + x.dest + "\n";
            if (ctx.rng.chance(1, 2)) { x.name = "n" + std::to_string(k); g += "    name: " + x.name + "\n"; } if (ctx.rng.chance(1, 2)) { x.pat = "core*"; g += "    pattern: core*\n"; } if (ctx.rng.chance(1, 2)) { static const char *const F[] = {"csv", "json", "html", "text"}; x.fmt = F[ctx.rng.below(4)]; g += "    format: " + x.fmt + "\n"; }
            if (skip) g += ctx.rng.chance(1, 2) ? "    skip: true\n" : "    skip: 1\n"; else if (ctx.rng.chance(1, 4)) g += "    skip: false\n"; if (ctx.rng.chance(1, 4)) { x.cc = true; g += "    expand-cc: true\n"; }
            if (ctx.rng.chance(1, 2)) { g += "    trigger:\n"; if (ctx.rng.chance(1, 2)) { x.trig["start"] = "core0.stats.cx >= " + std::to_string(k); g += "      start: " + x.trig["start"] + "\n"; } x.trig["update-cycles"] = std::to_string(k + 5); g += "      update-cycles: " + x.trig["update-cycles"] + "\n"; }
            if (ctx.rng.chance(1, 3)) { x.meta["owner"] = "o" + std::to_string(k); g += "    header_metadata:\n      owner: " + x.meta["owner"] + "\n"; } if (!skip) want.push_back(x); else ctx.count("skipped reports");
        }
        ctx.op("good", g); auto v = app::createDescriptorsFromDefinitionString(g, &w.env.rtn); VF_EQ(ctx, v.size(), want.size(), "descriptors-count", "descriptors"); if (v.size() != want.size()) continue; size_t k = 0;
        for (auto &x : v) { auto &e = want[k++]; VF_EQ(ctx, x.name, e.name, "descriptors-name", "name"); VF_EQ(ctx, x.loc_pattern, e.pat, "descriptors-pattern", "pattern"); VF_EQ(ctx, x.def_file, e.def, "descriptors-def", "def_file"); VF_EQ(ctx, x.dest_file, e.dest, "descriptors-dest", "dest_file"); VF_EQ(ctx, x.format, e.fmt, "descriptors-format", "format"); std::map<std::string, std::string> tr, me(x.header_metadata_.begin(), x.header_metadata_.end()); if (x.extensions_.count("trigger")) { auto &tt = boost::any_cast<app::TriggerKeyValues &>(x.extensions_["trigger"]); tr.insert(tt.begin(), tt.end()); } VF_CHECK(ctx, tr == e.trig, "descriptors-trigger", "report " << k); VF_CHECK(ctx, me == e.meta, "descriptors-metadata", "report " << k << " has " << me.size() << " " << (me.empty() ? "" : me.begin()->first + "=" + me.begin()->second)); VF_EQ(ctx, x.extensions_.count("expand-cc") == 1, e.cc, "descriptors-cc", "expand-cc"); }
    }
}
VF_SECTION(descriptors, 120, 2500) { descriptors(ctx); }

// ------------------------------------------------------------------------------------------------------ checkpoint streams
void checkpoint(vf::Ctx &ctx)
{
    using namespace serialization::checkpoint; Quiet q; Scheduler sched("s"); Clock clk("c", &sched); RootTreeNode rtn("top"); rtn.setClock(&clk); TreeNode a(&rtn, "na", "node"), b(&rtn, "nb", "node");
    static const std::vector<RegisterBase::Definition> defs = [] { std::vector<RegisterBase::Definition> v; static const char *const N[] = {"ra", "rb", "rc", "rd"}; for (unsigned i = 0; i < 4; ++i) v.push_back({i, N[i], RegisterBase::GROUP_NUM_NONE, "", +TreeNode::GROUP_IDX_NONE, "a register", i == 3 ? 64u : 8u, {}, {}, nullptr, Register::INVALID_ID, 0, nullptr, 0, 0}); v.push_back({0, nullptr, 0, nullptr, 0, nullptr, 0, {}, {}, nullptr, 0, 0, nullptr, 0, 0}); return v; }();
    std::vector<RegisterBase::Definition> d2 = defs; auto rs = RegisterSet::create(&a, d2.data()); ArchData mem(&b, 64, 0xcd, 1, true); mem.layoutRange(256);
    rtn.enterConfiguring(); rtn.enterFinalized(); rtn.bindTreeEarly(); rtn.bindTreeLate(); sched.finalize();
    {
        PersistentFastCheckpointer cp(rtn, &sched); auto set = [&](uint64_t x) { for (auto *r : rs->getRegisters()) r->write<uint64_t>(x + r->getID()); auto &l = mem.getLine(0); uint64_t y = x * 3; l.write(8, 8, reinterpret_cast<const uint8_t *>(&y)); }; auto ok = [&](uint64_t x) { for (auto *r : rs->getRegisters()) if (r->read<uint64_t>() != x + r->getID()) return false; uint64_t y = 0; mem.getLine(0).read(8, 8, reinterpret_cast<uint8_t *>(&y)); return y == x * 3; };
        set(5); cp.createHead(); cp.createCheckpoint(true); set(77); std::ostringstream o; cp.save(o); const std::string good = o.str(); static const Words dict = {"L", "E", "B", "R", std::string(4, '\0'), std::string(8, '\xff'), std::string(8, '\0'), "\x01", "LLLL", "EEEE", "BEBE"}; Mut m{ctx.rng, dict};
        for (int i = 0; i < 10; ++i) {
            std::string t = good; switch (ctx.rng.below(4)) { case 0: t.resize(ctx.rng.below(good.size())); break; case 1: { t.resize(std::min<size_t>(t.size(), 3000)); m.once(t); break; } case 2: { size_t at = ctx.rng.below(t.size()); t[at] = char(ctx.rng.below(256)); break; } default: t = ctx.rng.chance(1, 2) ? m.soup(8) : t + good.substr(0, ctx.rng.below(good.size())); }
            feed(ctx, "checkpoint", t.size() > 40 ? std::to_string(t.size()) + " bytes" : t, [&] { std::istringstream is(t); cp.restore(is); });
            if (ctx.rng.chance(1, 3)) { feed(ctx, "load", "unknown", [&] { cp.loadCheckpoint(ctx.rng.next()); }); feed(ctx, "delete", "unknown", [&] { cp.deleteCheckpoint(ctx.rng.next() | 1ull << 40); }); feed(ctx, "restore file", "none", [&] { cp.restore("/nonexistent/file"); }); }
            std::istringstream is(good); cp.restore(is); VF_CHECK(ctx, ok(77), "checkpoint-next", "the correct stream restores another state"); if (ctx.rng.chance(1, 3)) { set(1000 + uint64_t(i)); auto id = cp.createCheckpoint(true); set(9); cp.loadCheckpoint(id); VF_CHECK(ctx, ok(1000 + uint64_t(i)), "checkpoint-load", "load after a restore"); set(77); }
        }
    }
    rtn.enterTeardown();
}
VF_SECTION(checkpoint, 80, 1500) { checkpoint(ctx); }
} // namespace
