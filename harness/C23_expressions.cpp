// C23: statistic expressions evaluate to their mathematical value.
// Expression texts are generated (well-formed, mutated and token soup) and handed both to the
// framework and to a reference parser/evaluator; windows of instances are modelled leaf by leaf.
#include "simenv.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/CycleCounter.hpp"
#include "sparta/statistics/StatisticDef.hpp"
#include "sparta/statistics/StatisticInstance.hpp"
#include "sparta/statistics/Expression.hpp"
#include "sparta/statistics/WeightedContextCounter.hpp"
#include "sparta/statistics/ExpressionNodeVariables.hpp"
#include "sparta/simulation/Parameter.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include <boost/math/constants/constants.hpp>
#include <cmath>
#include <functional>
#include <map>

using namespace sparta;
using sparta::statistics::expression::Expression;
using vf::Ctx;

static bool same(double a, double b)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= 1e-9 * std::max({1.0, std::fabs(a), std::fabs(b)});
}

// ------------------------------------------------------------------------- reference expressions
struct Node;
using NP = std::shared_ptr<Node>;
struct Node {
    char k;                 // n number, v variable, u/b/t function, + - * / ^ binary, m negate
    double num = 0;
    std::string s;
    std::vector<NP> a;
};
static const std::map<std::string, double (*)(double)> UF = {
    {"abs", [](double x) { return std::fabs(x); }}, {"fabs", [](double x) { return std::fabs(x); }}, {"acos", [](double x) { return std::acos(x); }},
    {"asin", [](double x) { return std::asin(x); }}, {"atan", [](double x) { return std::atan(x); }}, {"ceil", [](double x) { return std::ceil(x); }},
    {"trunc", [](double x) { return std::trunc(x); }}, {"round", [](double x) { return std::round(x); }}, {"cos", [](double x) { return std::cos(x); }},
    {"cosh", [](double x) { return std::cosh(x); }}, {"exp", [](double x) { return std::exp(x); }}, {"exp2", [](double x) { return std::exp2(x); }},
    {"floor", [](double x) { return std::floor(x); }}, {"ln", [](double x) { return std::log(x); }}, {"log2", [](double x) { return std::log2(x); }},
    {"log10", [](double x) { return std::log10(x); }}, {"sin", [](double x) { return std::sin(x); }}, {"sinh", [](double x) { return std::sinh(x); }},
    {"sqrt", [](double x) { return std::sqrt(x); }}, {"cbrt", [](double x) { return std::cbrt(x); }}, {"tan", [](double x) { return std::tan(x); }},
    {"tanh", [](double x) { return std::tanh(x); }}, {"isnan", [](double x) { return double(std::isnan(x)); }}, {"isinf", [](double x) { return double(std::isinf(x)); }},
    {"signbit", [](double x) { return double(std::signbit(x)); }}, {"logb", [](double x) { return std::logb(x); }}, {"erf", [](double x) { return std::erf(x); }},
    {"erfc", [](double x) { return std::erfc(x); }}, {"lgamma", [](double x) { return std::lgamma(x); }}, {"tgamma", [](double x) { return std::tgamma(x); }}};
static const std::map<std::string, double (*)(double, double)> BF = {
    {"pow", [](double x, double y) { return std::pow(x, y); }}, {"atan2", [](double x, double y) { return std::atan2(x, y); }},
    {"min", [](double x, double y) { return y < x ? y : x; }}, {"max", [](double x, double y) { return x < y ? y : x; }},
    {"ifnan", [](double x, double y) { return std::isfinite(x) ? x : y; }}, {"fmod", [](double x, double y) { return std::fmod(x, y); }},
    {"remainder", [](double x, double y) { return std::remainder(x, y); }}, {"hypot", [](double x, double y) { return std::hypot(x, y); }},
    {"is_greater", [](double x, double y) { return double(x > y); }}, {"is_lesser", [](double x, double y) { return double(x < y); }},
    {"is_equal", [](double x, double y) { return double(x == y); }}, {"is_not_equal", [](double x, double y) { return double(x != y); }},
    {"is_greater_equal", [](double x, double y) { return double(x >= y); }}, {"is_lesser_equal", [](double x, double y) { return double(x <= y); }},
    {"logical_and", [](double x, double y) { return double(x != 0 && y != 0); }}, {"logical_or", [](double x, double y) { return double(x != 0 || y != 0); }}};
namespace bc = boost::math::constants;
static const std::map<std::string, double> CONST = {
    {"c_pi", std::acos(-1.0)}, {"c_root_pi", std::sqrt(std::acos(-1.0))}, {"c_root_half_pi", std::sqrt(std::acos(0.0))}, {"c_root_two_pi", std::sqrt(2 * std::acos(-1.0))},
    {"c_root_ln_four", std::sqrt(std::log(4.0))}, {"c_e", std::exp(1.0)}, {"c_half", 0.5}, {"c_euler", 0.57721566490153286}, {"c_root_two", std::sqrt(2.0)},
    {"c_ln_two", std::log(2.0)}, {"c_ln_ln_two", std::log(std::log(2.0))}, {"c_third", 1.0 / 3}, {"c_twothirds", 2.0 / 3}, {"c_pi_minus_three", std::acos(-1.0) - 3},
    {"c_four_minus_pi", 4 - std::acos(-1.0)}, {"c_nan", NAN}, {"c_inf", INFINITY}};

struct Bad {};
struct Unsure {};              // a name whose meaning the reference does not define
using Env1 = std::function<double(const std::string &)>;      // value of a variable (throws Bad)
static double eval(const NP &n, const Env1 &env)
{
    auto A = [&](size_t i) { return eval(n->a[i], env); };
    switch (n->k) {
    case 'n': return n->num;
    case 'v': return env(n->s);
    case '+': return A(0) + A(1);
    case '-': return A(0) - A(1);
    case '*': return A(0) * A(1);
    case '/': return A(0) / A(1);
    case '^': return std::pow(A(0), A(1));
    case 'm': return -A(0);
    case 'u': return UF.at(n->s)(A(0));
    case 'b': return BF.at(n->s)(A(0), A(1));
    case 't': return A(0) != 0 ? A(1) : A(2);
    }
    throw Bad();
}
static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '[' || c == ']'; }
static std::string low(std::string s) { for (auto &c : s) c = tolower(c); return s; }
static NP mk(char k, std::vector<NP> a, std::string s = "") { auto n = std::make_shared<Node>(); n->k = k; n->a = std::move(a); n->s = std::move(s); return n; }

// Recursive descent over the documented grammar.
struct Ref {
    std::string t; size_t p = 0;
    std::function<bool(const std::string &)> known;
    unsigned depth = 0;
    void ws() { while (p < t.size() && isspace((unsigned char)t[p])) ++p; }
    bool lit(const char *s) { ws(); if (t.compare(p, strlen(s), s) == 0) { p += strlen(s); return true; } return false; }
    NP all() { NP n = expr(); ws(); if (p != t.size()) throw Bad(); return n; }
    NP expr()
    {
        NP l = term();
        for (;;) { if (lit("+")) l = mk('+', {l, term()}); else if (lit("-")) l = mk('-', {l, term()}); else return l; }
    }
    NP term()
    {
        NP l = factor();
        for (;;) {
            size_t q = p;
            if (lit("**")) { p = q; return l; }
            if (lit("*")) l = mk('*', {l, factor()}); else if (lit("/")) l = mk('/', {l, factor()}); else return l;
        }
    }
    NP factor() { NP l = primary(); return lit("**") ? mk('^', {l, factor()}) : l; }
    NP primary()
    {
        ws();
        if (p == t.size()) throw Bad();
        if (lit("(")) { NP n = expr(); if (!lit(")")) throw Bad(); return n; }
        if (lit("-")) {
            // a sign right before a number belongs to it
            bool adj = p < t.size() && idc(t[p]);
            NP x = primary();
            if (adj && x->k == 'n' && x->s == "literal") { auto n = mk('n', {}, ""); n->num = -x->num; return n; }
            return mk('m', {x});
        }
        if (lit("+")) return primary();
        if (!idc(t[p])) throw Bad();
        // number: as much as strtod takes of a decimal number, and not the beginning of a name
        size_t e = p;
        if (isdigit((unsigned char)t[e]) || t[e] == '.') {
            size_t d = 0;
            while (e < t.size() && isdigit((unsigned char)t[e])) ++e, ++d;
            if (e < t.size() && t[e] == '.') { ++e; while (e < t.size() && isdigit((unsigned char)t[e])) ++e, ++d; }
            if (d) {
                if (e < t.size() && (t[e] == 'e' || t[e] == 'E')) {
                    size_t x = e + 1;
                    if (x < t.size() && (t[x] == '+' || t[x] == '-')) ++x;
                    if (x < t.size() && isdigit((unsigned char)t[x])) { while (x < t.size() && isdigit((unsigned char)t[x])) ++x; e = x; }
                }
                if (e == t.size() || !idc(t[e])) { auto n = mk('n', {}, "literal"); n->num = strtod(t.substr(p, e - p).c_str(), nullptr); p = e; return n; }
            }
        }
        e = p;
        while (e < t.size() && idc(t[e])) ++e;
        std::string w = t.substr(p, e - p), lw = low(w);
        p = e;
        if (lw == "inf" || lw == "nan" || lw == "infinity") { auto n = mk('n', {}, "literal"); n->num = lw == "nan" ? NAN : INFINITY; return n; }
        unsigned ar = UF.count(lw) ? 1 : BF.count(lw) ? 2 : lw == "cond" ? 3 : 0;
        if (ar) {
            size_t q = p;
            if (lit("(")) {
                std::vector<NP> a;
                for (unsigned i = 0; i < ar; ++i) { if (i && !lit(",")) throw Bad(); a.push_back(expr()); }
                if (!lit(")")) throw Bad();
                return mk(ar == 1 ? 'u' : ar == 2 ? 'b' : 't', a, lw);
            }
            p = q;
        }
        if (CONST.count(lw)) { auto n = mk('n', {}); n->num = CONST.at(lw); return n; }
        if (lw == "g_ticks" || lw == "cycles") return mk('v', {}, lw);
        if (!known(w)) throw Bad();
        return mk('v', {}, w);
    }
};

// ------------------------------------------------------------------------------- random texts
struct Gen {
    Ctx &ctx;
    std::vector<std::string> vars;
    std::string sp() { static const char *s[] = {"", "", "", " ", "  ", "\t"}; return s[ctx.rng.below(6)]; }
    std::string cs(std::string s) { if (ctx.rng.chance(1, 6)) for (auto &c : s) if (ctx.rng.chance(1, 2)) c = toupper(c); return s; }
    std::string num()
    {
        std::ostringstream o;
        switch (ctx.rng.below(6)) {
        case 0: o << ctx.rng.below(10) << "." << ctx.rng.pick(std::vector<const char *>{"5", "25", "0", "125", ""}); break;
        case 1: o << "." << ctx.rng.pick(std::vector<const char *>{"5", "25", "75"}); break;
        case 2: o << ctx.rng.below(20) << ctx.rng.pick(std::vector<const char *>{"e1", "E2", "e0", "e+1"}); break;
        case 3: o << ctx.rng.below(100000); break;
        default: o << ctx.rng.below(8);
        }
        return o.str();
    }
    // level: 0 expression, 1 term, 2 factor, 3 primary
    std::string gen(unsigned lvl, unsigned d)
    {
        if (lvl < 3 && (d == 0 || ctx.rng.chance(1, 3))) return gen(lvl + 1, d);
        switch (lvl) {
        case 0: return gen(ctx.rng.chance(1, 2), d - 1) + sp() + (ctx.rng.chance(1, 2) ? "+" : "-") + sp() + gen(1, d - 1);
        case 1: return gen(1 + ctx.rng.chance(1, 2), d - 1) + sp() + (ctx.rng.chance(1, 2) ? "*" : "/") + sp() + gen(2, d - 1);
        case 2: return gen(3, d - 1) + sp() + "**" + sp() + gen(2, d - 1);
        }
        switch (d ? ctx.rng.below(8) : ctx.rng.below(4)) {
        case 0: case 1: return num();
        case 2: return ctx.rng.pick(vars);
        case 3: return ctx.rng.chance(1, 2) ? cs(std::next(CONST.begin(), ctx.rng.below(CONST.size()))->first) : ctx.rng.pick(vars);
        case 4: return "(" + sp() + gen(0, d - 1) + sp() + ")";
        case 5: return (ctx.rng.chance(2, 3) ? "-" : "+") + sp() + gen(3, d - 1);
        case 6: return cs(std::next(UF.begin(), ctx.rng.below(UF.size()))->first) + sp() + "(" + sp() + gen(0, d - 1) + sp() + ")";
        default:
            if (ctx.rng.chance(1, 4)) return cs("cond") + sp() + "(" + gen(0, d - 1) + "," + sp() + gen(0, d - 1) + sp() + "," + gen(0, d - 1) + ")";
            return cs(std::next(BF.begin(), ctx.rng.below(BF.size()))->first) + "(" + gen(0, d - 1) + sp() + "," + sp() + gen(0, d - 1) + sp() + ")";
        }
    }
    std::string text() { return sp() + gen(0, ctx.rng.range(0, 6)) + sp(); }
    std::string soup()
    {
        static const std::vector<std::string> T = {"+", "-", "*", "/", "**", "(", ")", ",", " ", "1", "2.5", ".", "e", "abs", "min", "cond", "c_pi", "c_p", "inf", "%", "^", "[", "$", "c_pi_x", "info"};
        std::string s;
        for (unsigned n = ctx.rng.range(0, 9); n--;) s += ctx.rng.chance(1, 4) ? ctx.rng.pick(vars) : ctx.rng.pick(T);
        return s;
    }
    std::string mutate(std::string s)
    {
        for (unsigned n = ctx.rng.range(1, 2); n--;) {
            size_t i = ctx.rng.below(s.size() + 1);
            static const std::string C = "+-*/(), 12.eab_";
            switch (ctx.rng.below(4)) {
            case 0: if (i < s.size()) s.erase(i, 1); break;
            case 1: s.insert(i, 1, C[ctx.rng.below(C.size())]); break;
            case 2: if (i < s.size()) s[i] = C[ctx.rng.below(C.size())]; break;
            default: if (i < s.size()) s.insert(i, " ");
            }
        }
        return s;
    }
};
// Names which begin like numbers, constants, functions and built-in variables.
static const std::vector<std::string> NAMES = {"a", "b", "ctr", "info", "nano", "infinite", "c_pi_x", "cycles_busy", "g_ticks_seen", "abs", "minimum", "cond_x", "e1", "Upper", "x_y_z", "c_e2x", "ln", "log2_h"};

struct World {
    vf::Env env;
    StatisticSet ss;
    std::unique_ptr<ParameterSet> ps;
    std::unique_ptr<Parameter<uint32_t>> par;
    struct C { Counter *c; bool latest; };
    std::map<std::string, C> ctr;
    std::map<std::string, std::pair<std::unique_ptr<StatisticDef>, NP>> defs;
    World(Ctx &ctx) : ss(&env.rtn)
    {
        for (auto &n : NAMES) {
            if (!ctx.rng.chance(1, 2) && n != "a") continue;
            bool l = ctx.rng.chance(1, 4);
            ctr[n] = {&ss.createCounter<Counter>(n, "d", l ? CounterBase::COUNT_LATEST : CounterBase::COUNT_NORMAL), l};
            if (ctx.rng.chance(1, 2)) { if (l) ctr[n].c->set(ctx.rng.below(50)); else *ctr[n].c += ctx.rng.below(50); }
        }
        ps.reset(new ParameterSet(&env.rtn));
        par.reset(new Parameter<uint32_t>("par", 3 + ctx.rng.below(9), "d", ps.get()));
    }
    bool root = false;                      // expressions are in the context of the root
    TreeNode *context() { return root ? static_cast<TreeNode *>(&env.rtn) : &ss; }
    std::vector<std::string> vars() const
    {
        std::vector<std::string> v, p{"cycles", "g_ticks"};
        for (auto &c : ctr) v.push_back(c.first);
        for (auto &d : defs) v.push_back(d.first);
        if (root) { for (auto &x : v) x = "stats." + x; v.push_back("params.par"); }
        v.insert(v.end(), p.begin(), p.end());
        return v;
    }
    std::string strip(const std::string &n) const { return root && n.compare(0, 6, "stats.") == 0 ? n.substr(6) : n; }
    bool known(const std::string &n) const
    {
        if (root && n == "params.par") return true;
        bool k = n.find_first_of(".") == std::string::npos ? !root && (ctr.count(n) || defs.count(n)) : root && n.compare(0, 6, "stats.") == 0 && (ctr.count(strip(n)) || defs.count(strip(n)));
        if (!k && n.find_first_of(".[]") != std::string::npos) throw Unsure();
        return k;
    }
    // Counter values and tick at the start of a window.
    struct Base { std::map<std::string, uint64_t> c; uint64_t tick = 0; };
    Base base() { Base b; for (auto &c : ctr) b.c[c.first] = c.second.c->get(); b.tick = tick(); return b; }
    double leaf(const std::string &n, const Base &b)
    {
        if (n == "cycles" || n == "g_ticks") return double(tick() - b.tick);
        if (n == "params.par") return double(uint32_t(*par));
        std::string m = n.compare(0, 6, "stats.") == 0 ? n.substr(6) : n;
        auto d = defs.find(m);
        if (d != defs.end()) return value(d->second.second, b);
        auto &c = ctr.at(m);
        return c.latest ? double(c.c->get()) : double(c.c->get()) - double(b.c.at(m));
    }
    double value(const NP &n, const Base &b) { return eval(n, [&](const std::string &v) { return leaf(v, b); }); }
    void change(Ctx &ctx)
    {
        auto i = std::next(ctr.begin(), ctx.rng.below(ctr.size()));
        uint64_t k = ctx.rng.below(20);
        ctx.op("change", i->first, k);
        if (i->second.latest) i->second.c->set(k); else *i->second.c += k;
    }
    // What an expression prints: operands bracketed in evaluation order.
    std::string print(const NP &n)
    {
        std::ostringstream o;
        switch (n->k) {
        case 'n': o << n->num; break;
        case 'v': {
            std::string m = strip(n->s);
            if (n->s == "params.par") o << par->getLocation();
            else if (n->s == "g_ticks") o << env.sched.getCurrentTicksROCounter().getLocation();
            else if (n->s == "cycles") o << env.clk.getCyclesROCounter().getLocation();
            else if (ctr.count(m)) o << ctr[m].c->getLocation();
            else o << print(defs[m].second);
            break;
        }
        case 'm': o << "opn(" << print(n->a[0]) << ")"; break;
        case '^': o << "pow(" << print(n->a[0]) << ", " << print(n->a[1]) << ")"; break;
        case 'u': case 'b': case 't':
            o << n->s << "(";
            for (size_t i = 0; i < n->a.size(); ++i) o << (i ? ", " : "") << print(n->a[i]);
            o << ")"; break;
        default: o << "(" << print(n->a[0]) << n->k << print(n->a[1]) << ")";
        }
        return o.str();
    }
    // Statistics over what is there so far, so never cyclic.
    void addDefs(Ctx &ctx, unsigned n)
    {
        bool r = root; root = false;
        for (unsigned i = 0; i < n; ++i) {
            Gen g{ctx, vars()};
            std::string t = g.gen(0, ctx.rng.range(1, 3)), nm = "def_" + std::to_string(i) + "s";
            ctx.op("def", nm, t);
            NP e = parse(t);
            std::unique_ptr<StatisticDef> d(new StatisticDef(&ss, nm, "d", &ss, t));
            defs[nm] = std::make_pair(std::move(d), e);
        }
        root = r;
    }
    NP parse(const std::string &t) { Ref r; r.t = t; r.known = [&](const std::string &n) { return known(n); }; return r.all(); }
    void run(uint64_t t) { env.sched.run(t, true, false); }
    uint64_t tick() { return env.sched.getElapsedTicks(); }
};

VF_SECTION(evaluate, 160, 1600)
{
    Quiet q;
    World w(ctx);
    w.root = ctx.rng.chance(1, 2);
    w.addDefs(ctx, ctx.rng.below(4));
    w.env.finalize();
    w.run(1 + ctx.rng.below(5));
    Gen g{ctx, w.vars()};
    for (unsigned n = 0; n < 25; ++n) {
        bool bad = n % 5 == 4;
        std::string t = bad ? (ctx.rng.chance(1, 3) ? g.soup() : g.mutate(g.text())) : g.text();
        ctx.op("expression", t);
        NP want; bool ok = true;
        try { want = w.parse(t); } catch (Bad &) { ok = false; } catch (Unsure &) { ctx.count("unsure"); continue; }
        if (!ok) {
            ctx.count("malformed");
            bool thrown = false; double v = 0;
            try { v = Expression(t, w.context()).evaluate(); } catch (SpartaException &) { thrown = true; }
            VF_CHECK(ctx, thrown, "malformed-accepted", "malformed expression '" << t << "' evaluates to " << v);
            ctx.obs("bad");
            continue;
        }
        ctx.count("well_formed");
        auto b = w.base();
        Expression e;
        try { e = Expression(t, w.context()); }
        catch (SpartaException &x) { VF_CHECK(ctx, false, "rejected", "expression '" << t << "' was rejected: " << x.what()); continue; }
        for (unsigned k = ctx.rng.range(1, 3); k--;) {
            double ev = e.evaluate(), wv = w.value(want, b);
            VF_CHECK(ctx, same(ev, wv), "value", "'" << t << "' is " << ev << ", expected " << wv);
            ctx.obs(want->k, want->a.size() ? want->a[0]->k : ' ', std::isfinite(wv));
            w.change(ctx);
            if (ctx.rng.chance(1, 4)) w.run(ctx.rng.range(1, 9));
        }
        VF_EQ(ctx, e.stringize(), w.print(want), "printed", "printed form of '" + t + "'");
        if (ctx.rng.chance(1, 4)) {
            Expression c(e), d; d = e;
            double wv = w.value(want, b);
            VF_CHECK(ctx, same(c.evaluate(), wv) && same(d.evaluate(), wv), "copy", "copy of '" << t << "' is " << c.evaluate() << ", expected " << wv);
        }
    }
}
VF_SECTION(windows, 220, 2000)
{
    Quiet q;
    World w(ctx);
    w.root = ctx.rng.chance(1, 2);
    w.addDefs(ctx, ctx.rng.range(1, 4));
    w.env.finalize();
    w.run(1);
    struct SI { StatisticInstance si; NP e; World::Base b; uint64_t start, end; double frozen; bool cum; World::Base cb; bool counter; std::string nm; };
    std::vector<std::unique_ptr<SI>> is;
    Gen g{ctx, w.vars()};
    auto add = [&] {
        std::unique_ptr<SI> s;
        unsigned k = ctx.rng.below(4);
        auto base = w.base();
        if (k == 0) { auto i = std::next(w.ctr.begin(), ctx.rng.below(w.ctr.size())); ctx.op("on counter", i->first); s.reset(new SI{StatisticInstance(i->second.c), mk('v', {}, i->first), base, w.tick(), ~0ull, 0, false, base, true, i->first}); }
        else if (k == 1) { auto i = std::next(w.defs.begin(), ctx.rng.below(w.defs.size())); ctx.op("on def", i->first); s.reset(new SI{StatisticInstance(i->second.first.get()), i->second.second, base, w.tick(), ~0ull, 0, false, base, false, i->first}); }
        else if (k == 2) { ctx.op("on parameter"); s.reset(new SI{StatisticInstance(w.par.get()), mk('v', {}, "params.par"), base, w.tick(), ~0ull, 0, false, base, false, "params.par"}); }
        else {
            std::string t = g.text(); ctx.op("on expression", t);
            NP e = w.parse(t);
            s.reset(new SI{StatisticInstance(Expression(t, w.context())), e, base, w.tick(), ~0ull, 0, false, base, false, "<expression>"});
            s->si.setContext(&w.env.rtn);
            s->si.start();
        }
        is.push_back(std::move(s));
    };
    for (unsigned n = ctx.rng.range(1, 4); n--;) add();
    for (unsigned st = ctx.rng.range(10, 60); st--;) {
        auto &s = *ctx.rng.pick(is);
        unsigned id = &s == is[0].get() ? 0 : 1;
        switch (ctx.rng.below(10)) {
        case 0: ctx.op("start", id); s.si.start(); s.b = w.base(); if (s.cum) s.b.c = s.cb.c; s.start = w.tick(); s.end = ~0ull; break;
        case 1: ctx.op("end", id); s.si.end(); s.end = w.tick(); s.frozen = w.value(s.e, s.b); break;
        case 2: w.run(ctx.rng.range(1, 10)); ctx.op("run"); break;
        case 3: if (is.size() < 6) add(); break;
        case 4: {
            ctx.op("copy", id);
            auto c = std::unique_ptr<SI>(new SI(s)); s = *c;                 // copy out and assign back
            break;
        }
        case 5: {
            ctx.op("move", id);
            StatisticInstance t(std::move(s.si)); s.si = t;
            break;
        }
        case 6: if (s.counter && ctx.rng.chance(1, 3)) { ctx.op("accumulate", id); s.si.accumulateStatistic(); s.cum = true; s.cb = s.b; } break;
        default: w.change(ctx);
        }
        for (auto &p : is) {
            double want = p->end == ~0ull ? w.value(p->e, p->b) : p->frozen, got = p->si.getValue();
            VF_CHECK(ctx, same(got, want), p->counter ? "window-counter" : "window", "instance of " << p->nm << " is " << got << ", expected " << want);
            VF_EQ(ctx, p->si.getStart(), p->start, "window-start", "start of the window");
            VF_EQ(ctx, p->si.getEnd(), p->end == ~0ull ? Scheduler::INDEFINITE : p->end, "window-end", "end of the window");
            if (p->counter) VF_CHECK(ctx, same(p->si.getRawLatest(), double(w.ctr[p->nm].c->get())), "window-raw", "latest raw value");
            ctx.obs(p->end == ~0ull, p->cum, p->e->k);
            ctx.count("windows");
        }
    }
}
VF_SECTION(cycles, 60, 600)
{
    Quiet q;
    vf::Env env;
    StatisticSet ss(&env.rtn);
    auto &c = ss.createCounter<Counter>("leaf", "d", CounterBase::COUNT_NORMAL);
    unsigned n = ctx.rng.range(1, 7);
    // a random graph of statistics: i refers to some of the others, itself or a missing node
    std::vector<std::vector<unsigned>> ref(n);
    std::vector<bool> missing(n, false);
    std::vector<std::unique_ptr<StatisticDef>> defs;
    bool any = ctx.rng.chance(1, 2);
    for (unsigned i = 0; i < n; ++i) {
        std::string t = "leaf";
        for (unsigned k = ctx.rng.below(3); k--;) {
            unsigned j = any ? ctx.rng.below(n) : (i ? ctx.rng.below(i) : n);
            if (j == n) continue;
            ref[i].push_back(j); t += " + def_" + std::to_string(j) + "s";
        }
        if (ctx.rng.chance(1, 12)) { missing[i] = true; t += " - nowhere"; }
        ctx.op("def", i, t);
        defs.emplace_back(new StatisticDef(&ss, "def_" + std::to_string(i) + "s", "d", &ss, t));
    }
    std::vector<int> st(n, 0);      // 0 unknown, 1 on path, 2 good, 3 bad
    std::function<bool(unsigned)> good = [&](unsigned i) -> bool {
        if (st[i] == 1) return false;
        if (st[i] >= 2) return st[i] == 2;
        st[i] = 1; bool g = !missing[i];
        for (auto j : ref[i]) if (!good(j)) g = false;
        st[i] = g ? 2 : 3;
        return g;
    };
    std::function<double(unsigned)> val = [&](unsigned i) { double v = double(c.get()); for (auto j : ref[i]) v += val(j); return v; };
    std::vector<std::unique_ptr<StatisticInstance>> si(n);
    bool all = true;
    for (unsigned i = 0; i < n; ++i) {
        std::fill(st.begin(), st.end(), 0);
        bool g = good(i); all = all && g;
        bool thrown = false;
        try { si[i].reset(new StatisticInstance(defs[i].get())); } catch (SpartaException &) { thrown = true; }
        VF_EQ(ctx, thrown, !g, "cycle", "rejection of statistic " + std::to_string(i));
        ctx.obs(g, ref[i].size(), bool(missing[i]));
        ctx.count(g ? "acyclic" : "cyclic");
    }
    c += 1 + ctx.rng.below(5);
    for (unsigned i = 0; i < n; ++i) if (si[i]) VF_CHECK(ctx, same(si[i]->getValue(), val(i)), "cycle-value", "value of statistic " << i);
    env.rtn.enterConfiguring(); env.rtn.enterFinalized();
    bool thrown = false;
    try { env.rtn.validatePreRun(); } catch (SpartaException &) { thrown = true; }
    VF_EQ(ctx, thrown, !all, "cycle-validate", "validation of the tree");
}
VF_SECTION(composed, 200, 2000)
{
    Quiet q;
    vf::Env env;
    StatisticSet ss(&env.rtn);
    auto &c = ss.createCounter<Counter>("cnt", "d", CounterBase::COUNT_NORMAL);
    double ref = ctx.rng.below(9) / 4.0;
    std::vector<const TreeNode *> used;
    struct P { Expression e; std::function<double()> f; };
    auto leaf = [&]() -> P {
        switch (ctx.rng.below(4)) {
        case 0: { double d = ctx.rng.below(17) / 4.0 - 2; return {Expression(d), [d] { return d; }}; }
        case 1: return {Expression(new statistics::expression::ReferenceVariable("r", ref)), [&ref] { return ref; }};
        case 2: return {Expression(&c, used), [&c] { return double(c.get()); }};
        default: return {Expression("cnt*2", &ss), [&c] { return 2.0 * c.get(); }};
        }
    };
    std::vector<P> ps;
    for (int i = 0; i < 4; ++i) ps.push_back(leaf());
    for (unsigned s = ctx.rng.range(5, 30); s--;) {
        size_t i = ctx.rng.below(ps.size()), j = ctx.rng.below(ps.size());
        auto f = ps[i].f, g = ps[j].f;
        unsigned o = ctx.rng.below(16);
        ctx.op("op", o, i, j);
        if (ps[i].e.stringize().size() + ps[j].e.stringize().size() > 4000) { ps[i] = leaf(); continue; }
        switch (o) {
        case 0: ps[i].e = ps[i].e + ps[j].e; ps[i].f = [=] { return f() + g(); }; break;
        case 1: ps[i].e = ps[i].e - ps[j].e; ps[i].f = [=] { return f() - g(); }; break;
        case 2: ps[i].e = ps[i].e * ps[j].e; ps[i].f = [=] { return f() * g(); }; break;
        case 3: ps[i].e = ps[i].e / ps[j].e; ps[i].f = [=] { return f() / g(); }; break;
        case 4: ps[i].e += ps[j].e; ps[i].f = [=] { return f() + g(); }; break;
        case 5: ps[i].e -= ps[j].e; ps[i].f = [=] { return f() - g(); }; break;
        case 6: ps[i].e *= ps[j].e; ps[i].f = [=] { return f() * g(); }; break;
        case 7: ps[i].e /= ps[j].e; ps[i].f = [=] { return f() / g(); }; break;
        case 8: ps[i].e = -ps[j].e; ps[i].f = [=] { return -g(); }; break;
        case 9: ps[i].e = +ps[j].e; ps[i].f = g; break;
        case 10: ps[i].e = ps[j].e; ps[i].f = g; break;
        case 11: ps[i].e = Expression("fabs", (double (*)(double))&std::fabs, ps[j].e); ps[i].f = [=] { return std::fabs(g()); }; break;
        case 12: ps[i].e = ps[i].e.bfunc("hypot", (double (*)(double, double))&std::hypot, ps[i].e, ps[j].e); ps[i].f = [=] { return std::hypot(f(), g()); }; break;
        case 13: {
            Expression m(std::move(ps[i].e));
            VF_CHECK(ctx, !ps[i].e.hasContent() && m.hasContent(), "moved", "content of a moved expression");
            VF_CHECK(ctx, (vf::throws<SpartaException>([&] { ps[i].e.evaluate(); })), "empty", "an empty expression has a value");
            ps[i].e = std::move(m);
            break;
        }
        case 14: {
            Expression empty, x(ps[i].e);
            x = empty;
            VF_CHECK(ctx, !x.hasContent(), "assign-empty", "assigning an empty expression left content");
            break;
        }
        default: c += ctx.rng.below(3); ref = ctx.rng.below(9) / 4.0;
        }
        for (auto &p : ps) VF_CHECK(ctx, same(p.e.evaluate(), p.f()), "composed", "composed expression " << p.e.stringize().substr(0, 200) << " is " << p.e.evaluate() << ", expected " << p.f());
        ctx.obs(o); ctx.count("operations");
    }
}
VF_SECTION(clocks, 80, 800)
{
    Quiet q;
    vf::Multi m({{ctx.rng.range(1, 4), ctx.rng.range(1, 4)}});
    StatisticSet s0(m.nodes[0].get()), s1(m.nodes[1].get());
    auto &c1 = s1.createCounter<Counter>("cnt", "d", CounterBase::COUNT_NORMAL);
    m.finalize();
    m.sched.run(1 + ctx.rng.below(20), true, false);
    double t0 = m.sched.getElapsedTicks();
    uint64_t k0 = m.clks[0]->currentCycle(), k1 = m.clks[1]->currentCycle();
    double ps0 = m.sched.getSimulatedPicoSeconds();
    std::vector<const char *> ts = {"g_ticks", "cycles", "cycles(cnt)", "cycles(cnt + 2)", "g_picoseconds", "g_nanoseconds*1000", "g_microseconds*1e6", "g_milliseconds*1e9", "g_seconds*1e12", "freq_mhz"};
    std::vector<Expression> e1;
    for (auto t : ts) e1.emplace_back(t, &s1);
    Expression e0("cycles", &s0), up("cycles(n1.stats.cnt)", &m.rtn);
    for (unsigned s = ctx.rng.range(1, 6); s--;) {
        uint64_t t = ctx.rng.range(1, 200);
        ctx.op("run", t);
        m.sched.run(t, true, false);
        c1 += ctx.rng.below(3);
        double T = m.sched.getElapsedTicks() - t0, K1 = double(m.clks[1]->currentCycle() - k1), K0 = double(m.clks[0]->currentCycle() - k0), P = m.sched.getSimulatedPicoSeconds() - ps0;
        std::vector<double> w = {T, K1, K1, K1, P, P, P, P, P, m.clks[1]->getFrequencyMhz()};
        for (size_t i = 0; i < ts.size(); ++i) { double v = e1[i].evaluate(); VF_CHECK(ctx, same(v, w[i]), "clock-variable", ts[i] << " is " << v << ", expected " << w[i]); }
        VF_CHECK(ctx, same(e0.evaluate(), K0) && same(up.evaluate(), K1), "clock-context", "cycles of another context");
        ctx.obs(t, m.period[1]); ctx.count("readings");
    }
    VF_CHECK(ctx, (vf::throws<SpartaException>([&] { Expression("cycles(3)", &s1); })), "clock-none", "cycles of a constant were accepted");
}
VF_SECTION(aggregates, 100, 1000)
{
    Quiet q;
    vf::Env env;
    StatisticSet ss(&env.rtn);
    unsigned n = ctx.rng.range(1, 6);
    WeightedContextCounter<Counter> wc(&ss, "wagg", "d", n, CounterBase::COUNT_NORMAL, InstrumentationNode::VIS_NORMAL);
    std::vector<double> wt; std::vector<uint64_t> v(n, 0);
    for (unsigned i = 0; i < n; ++i) wt.push_back(ctx.rng.below(9) / 4.0);
    wc.assignContextWeights(wt);
    env.finalize();
    Expression sum("stats.wagg", &env.rtn), avg("stats.wagg.weightedAvg_", &env.rtn), big("stats.wagg.max_ * 2", &env.rtn), one("stats.wagg.Testing0", &env.rtn);
    Expression copy; copy = avg;
    for (unsigned s = ctx.rng.range(1, 20); s--;) {
        unsigned i = ctx.rng.below(n), k = ctx.rng.range(1, 50);
        ctx.op("add", i, k);
        wc.context(i) += k; v[i] += k;
        double S = 0, A = 0, M = 0;
        for (unsigned j = 0; j < n; ++j) { S += v[j]; A += v[j] * wt[j]; M = std::max(M, double(v[j])); }
        VF_CHECK(ctx, same(sum.evaluate(), S), "aggregate-sum", "sum " << sum.evaluate() << " expected " << S);
        VF_CHECK(ctx, same(avg.evaluate(), A / n), "aggregate-function", "weighted average " << avg.evaluate() << " expected " << A / n);
        VF_CHECK(ctx, same(copy.evaluate(), A / n), "aggregate-function", "weighted average of a copy " << copy.evaluate() << " expected " << A / n);
        VF_CHECK(ctx, same(big.evaluate(), M * 2), "aggregate-function", "maximum " << big.evaluate() << " expected " << M * 2);
        VF_CHECK(ctx, same(one.evaluate(), double(v[0])), "aggregate-context", "one context " << one.evaluate());
        ctx.obs(n, i); ctx.count("steps");
    }
}
