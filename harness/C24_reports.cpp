// C24: reports. A model keeps, for every statistic of every report, a snapshot of the counters at the start
// (and end) of its window; every rendering is parsed back and compared, name by name and value by value.
#include "simenv.hpp"
#include "sparta/report/Report.hpp"
#include "sparta/report/format/Text.hpp"
#include "sparta/report/format/CSV.hpp"
#include "sparta/report/format/BasicHTML.hpp"
#include "sparta/report/format/Gnuplot.hpp"
#include "sparta/report/format/PythonDict.hpp"
#include "sparta/report/format/JSON.hpp"
#include "sparta/report/format/JSON_reduced.hpp"
#include "sparta/report/format/JSON_detail.hpp"
#include "sparta/report/format/JavascriptObject.hpp"
#include "sparta/report/format/StatsMapping.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/statistics/StatisticDef.hpp"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/ContextCounter.hpp"
#include "sparta/simulation/ResourceTreeNode.hpp"
#include "sparta/simulation/ResourceFactory.hpp"
#include "sparta/app/Simulation.hpp"
#include "sparta/app/SimulationConfiguration.hpp"
#include "sparta/app/ReportDescriptor.hpp"
#include "rapidjson/document.h"
#include "rapidjson/error/en.h"
#include <cmath>
#include <fstream>
#include <limits>
#include <list>
#include <map>
#include <set>
using namespace sparta;
namespace {
constexpr double INF = std::numeric_limits<double>::infinity();
using Vals = std::vector<double>;
struct Kind { std::string expr; std::function<double(const Vals &)> f; };
double quot(double a, double b) { return a / b; }
// a counter's value in a window is its change; a LATEST counter's is what it was at the end
struct MStat { std::string name, shown; bool isExpr = false; TreeNode *node = nullptr; bool group = false; std::function<double(const Vals &)> f; Vals s, e; bool ended = false; };
struct MRep { bool expand = false; std::string name; std::vector<MStat> stats; std::list<MRep> subs; std::map<std::string, std::string> style; };
struct World {
    vf::Env env; std::vector<std::unique_ptr<TreeNode>> units; std::vector<std::unique_ptr<StatisticSet>> sets; std::vector<std::shared_ptr<Counter>> ctrs; std::map<const TreeNode *, std::vector<size_t>> contexts; std::vector<char> latest; std::vector<std::unique_ptr<StatisticDef>> defs; std::vector<Kind> kinds; std::vector<std::string> descs;
    Vals now() const { Vals v; for (auto &c : ctrs) v.push_back(double(c->get())); return v; }
    double eval(const MStat &m) const { Vals v = m.ended ? m.e : now(); for (size_t i = 0; i < v.size(); ++i) if (!latest[i]) v[i] -= m.s[i]; return m.f(v); }
};
const char *const DESC[] = {"plain", "x", "with \"quotes\" in it", "it's", "back\\slash", "a & b <c>", "two\nlines", "a rather long description that goes on and on, past the width of one column of a report and further", "tab\there", "percent % and # hash, comma"};
void build(vf::Ctx &ctx, World &w, unsigned nu)
{
    auto &r = ctx.rng;
    for (unsigned u = 0; u < nu; ++u) {
        TreeNode *parent = u && r.chance(1, 3) ? w.units[r.below(u)].get() : static_cast<TreeNode *>(&w.env.rtn);
        w.units.emplace_back(new TreeNode(parent, "unit" + std::to_string(u), "a unit"));
        w.sets.emplace_back(new StatisticSet(w.units.back().get()));
        unsigned base = unsigned(w.ctrs.size()), nc = unsigned(r.range(1, 4));
        auto vis = [&] { return r.pick(std::vector<InstrumentationNode::visibility_t>{InstrumentationNode::VIS_NORMAL, InstrumentationNode::VIS_SUMMARY, InstrumentationNode::VIS_DETAIL, InstrumentationNode::VIS_HIDDEN}); };
        for (unsigned i = 0; i < nc; ++i) {
            auto beh = r.pick(std::vector<CounterBase::CounterBehavior>{CounterBase::COUNT_NORMAL, CounterBase::COUNT_NORMAL, CounterBase::COUNT_LATEST, CounterBase::COUNT_INTEGRAL});
            std::string d = DESC[r.below(sizeof DESC / sizeof *DESC)];
            w.ctrs.emplace_back(new Counter(w.sets.back().get(), "c" + std::to_string(i) + "x", d, beh, vis())); w.latest.push_back(beh == CounterBase::COUNT_LATEST); w.descs.push_back(d);
            auto &c = *w.ctrs.back(); uint64_t start = r.chance(1, 2) ? r.below(50) : 0; if (w.latest.back()) c.set(start); else c += start;
        }
        unsigned nd = unsigned(r.below(4));
        for (unsigned i = 0; i < nd; ++i) {
            unsigned a = base + unsigned(r.below(nc)), b = base + unsigned(r.below(nc)); std::string A = "c" + std::to_string(a - base) + "x", B = "c" + std::to_string(b - base) + "x"; Kind k;
            switch (r.below(9)) {
            case 0: k = {A + "+" + B, [=](const Vals &v) { return v[a] + v[b]; }}; break;
            case 1: k = {A + "-" + B, [=](const Vals &v) { return v[a] - v[b]; }}; break;
            case 2: k = {A + "/" + B, [=](const Vals &v) { return quot(v[a], v[b]); }}; break;
            case 3: k = {"0-" + A + "/" + B, [=](const Vals &v) { return 0 - quot(v[a], v[b]); }}; break;
            case 4: k = {A + "*1000000000000000000000", [=](const Vals &v) { return v[a] * 1e21; }}; break;
            case 5: k = {A + "*0.001", [=](const Vals &v) { return v[a] * 0.001; }}; break;
            case 6: k = {A + "/" + B + "*123456.789", [=](const Vals &v) { return quot(v[a], v[b]) * 123456.789; }}; break;
            case 7: k = {A + "*3-" + B + "*7.25", [=](const Vals &v) { return v[a] * 3 - v[b] * 7.25; }}; break;
            default: k = {"(" + A + "-" + B + ")*10000000000000000000", [=](const Vals &v) { return (v[a] - v[b]) * 1e19; }}; break;
            }
            w.defs.emplace_back(new StatisticDef(w.sets.back().get(), "d" + std::to_string(i) + "x", "derived", w.sets.back().get(), k.expr, r.chance(1, 4) ? StatisticDef::VS_PERCENTAGE : StatisticDef::VS_ABSOLUTE, vis())); w.kinds.push_back(k);
        }
        if (r.chance(1, 3)) { // a counter with contexts, and its sum
            unsigned k = unsigned(r.range(1, 4)), b0 = unsigned(w.ctrs.size()); std::string d = DESC[r.below(sizeof DESC / sizeof *DESC)]; auto cc = new ContextCounter<Counter>(w.sets.back().get(), "agg" + std::to_string(u) + "q", d, k, "ctx", CounterBase::COUNT_NORMAL, vis()); w.defs.emplace_back(cc);
            for (unsigned i = 0; i < k; ++i) { w.contexts[cc].push_back(w.ctrs.size()); w.ctrs.emplace_back(std::shared_ptr<void>(), &cc->context(i)); w.latest.push_back(false); w.descs.push_back("A context of counter " + cc->getName()); }
            w.kinds.push_back({"", [=](const Vals &v) { double t = 0; for (unsigned i = 0; i < k; ++i) t += v[b0 + i]; return t; }}); ctx.count("context counters");
        }
    }
    w.env.finalize();
}
void run(vf::Ctx &ctx, World &w)
{
    auto &r = ctx.rng;
    for (size_t i = 0; i < w.ctrs.size(); ++i) if (r.chance(2, 3)) { uint64_t k = r.chance(1, 12) ? r.next() >> r.range(14, 40) : r.below(30); auto &c = *w.ctrs[i]; if (w.latest[i]) c.set(k); else c += k; }
    w.env.sched.run(r.range(1, 20), true, false);
}
template<class F> void eachStat(MRep &m, Report &rep, const F &f) { if (rep.getNumStatistics() != m.stats.size()) throw std::runtime_error("number of statistics of " + m.name); for (size_t i = 0; i < m.stats.size(); ++i) f(m, m.stats[i], rep, i); auto it = m.subs.begin(); for (size_t i = 0; i < m.subs.size(); ++i, ++it) eachStat(*it, rep.getSubreport(i), f); }
void window(World &w, MRep &m, bool start) { for (auto &s : m.stats) { if (start) { s.s = w.now(); s.ended = false; } else { s.e = w.now(); s.ended = true; } } for (auto &x : m.subs) window(w, x, start); }
size_t countAll(const MRep &m) { size_t n = m.stats.size(); for (auto &x : m.subs) n += countAll(x); return n; }
bool close(double a, double b, double rel, double abs) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if (std::isinf(a) || std::isinf(b)) return a == b; return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b)); }
double num(const std::string &t, bool &ok) { char *e; std::string s = t; double d = strtod(s.c_str(), &e); ok = !s.empty() && *e == 0; return d; }
std::vector<std::string> lines(const std::string &s) { std::vector<std::string> v; std::stringstream i(s); std::string l; while (std::getline(i, l)) v.push_back(l); return v; }
std::vector<std::string> cells(const std::string &l) { std::vector<std::string> v; std::string c; for (char x : l) if (x == ',') { v.push_back(c); c.clear(); } else c += x; v.push_back(c); return v; }
std::string leaf(const std::string &n) { auto p = n.find_last_of('.'); return p == std::string::npos ? n : n.substr(p + 1); }
// a value printed with the digits a report promises: whole numbers exactly, others to six digits (or to a number of decimals)
void value(vf::Ctx &ctx, const char *fmt, const std::string &name, const std::string &text, double want, int decimals = -1)
{
    bool ok; double got = num(text, ok); VF_CHECK(ctx, ok, std::string(fmt) + "-number", name << " is '" << text << "'");
    double frac = 0, ip; if (std::isfinite(want)) frac = std::modf(want, &ip); double rel = 6e-6, abs = 1e-300;
    if (frac == 0 && std::fabs(want) < 9e15) rel = 0; else if (decimals >= 0) { rel = 1e-14; abs = 0.500001 * std::pow(10, -decimals); }
    VF_CHECK(ctx, close(got, want, rel, abs), std::string(fmt) + "-value", name << " is " << text << ", want " << want); ctx.count(fmt);
}
void jsonVal(vf::Ctx &ctx, const char *fmt, const std::string &name, const rapidjson::Value &v, double want, int decimals = -1)
{
    if (v.IsString()) { value(ctx, fmt, name, v.GetString(), want, decimals); return; }
    VF_CHECK(ctx, v.IsNumber(), std::string(fmt) + "-number", name << " is no number");
    double ip, frac = std::isfinite(want) ? std::modf(want, &ip) : 0, got = v.GetDouble(), rel = frac == 0 && std::fabs(want) < 9e15 ? 1e-15 : 6e-6, abs = decimals >= 0 && frac ? 0.500001 * std::pow(10, -decimals) : 0;
    VF_CHECK(ctx, close(got, want, decimals >= 0 && frac ? 1e-14 : rel, abs), std::string(fmt) + "-value", name << " is " << got << ", want " << want); ctx.count(fmt);
}
template<class F> std::string render(const Report *r, const std::function<void(F &)> &set = nullptr) { std::ostringstream o; F f(r, o); if (set) set(f); f.write(); return o.str(); }
void unHtml(std::string &s) { for (auto p : std::vector<std::pair<std::string, std::string>>{{"&nbsp;", ""}, {"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&#39;", "'"}, {"&amp;", "&"}}) { size_t q = 0; while ((q = s.find(p.first, q)) != std::string::npos) { s.replace(q, p.first.size(), p.second); q += p.second.size(); } } }

struct Render {
    vf::Ctx &ctx; World &w; MRep &m; Report &r; bool safe;   // safe: no names that a format has no way to write
    void text()
    {
        bool descs = ctx.rng.chance(1, 2), column = ctx.rng.chance(1, 2); auto t = render<report::format::Text>(&r, [&](auto &f) { f.setShowSimInfo(false); f.setShowDescriptions(descs); if (column) f.setValueColumn(f.getRightmostNameColumn()); });
        auto L = lines(t); size_t i = 0; textRep(L, i, m, r, descs); while (i < L.size() && L[i].empty()) ++i; VF_EQ(ctx, i, L.size(), "txt-extra", (i < L.size() ? L[i] : std::string()));
    }
    std::string next(const std::vector<std::string> &L, size_t &i, bool) { while (i < L.size() && L[i].find_first_not_of(' ') == std::string::npos) ++i; return i < L.size() ? L[i++] : "<end>"; }
    void textRep(const std::vector<std::string> &L, size_t &i, MRep &mr, Report &rr, bool descs)
    {
        auto h = next(L, i, descs); VF_CHECK(ctx, h.find("\"" + mr.name + "\"") != std::string::npos, "txt-report", "line '" << h << "' is not report " << mr.name);
        for (size_t k = 0; k < mr.stats.size(); ++k) {
            auto &s = mr.stats[k]; std::string l = next(L, i, descs); size_t p = l.find_first_not_of(' ');
            VF_CHECK(ctx, p != std::string::npos && l.compare(p, s.shown.size(), s.shown) == 0, "txt-name", "line '" << l << "' is not " << s.shown); std::string rest = l.substr(p + s.shown.size()); p = rest.find_first_not_of(' ');
            VF_CHECK(ctx, p != std::string::npos && rest.compare(p, 2, "= ") == 0, "txt-line", l); rest = rest.substr(p + 2); size_t e = rest.find(' '); value(ctx, "txt", s.shown, rest.substr(0, e), w.eval(s));
            if (rr.getStyle("show_descriptions", descs ? "true" : "false") == "true") { // the description, in pieces of one column
                std::string d = rr.getStatistic(k).getDesc(false), got; size_t q = rest.find(" # "); VF_CHECK(ctx, q != std::string::npos, "txt-desc", l); got = rest.substr(q + 3);
                std::string flat = d; size_t nl = size_t(std::count(d.begin(), d.end(), '\n')); std::string all = got; size_t more = d.size() > 60 ? (d.size() - 1) / 60 : 0;
                for (size_t z = 0; z < more + nl; ++z) { std::string x = i < L.size() ? L[i++] : ""; size_t y = x.find(" # "); all += y != std::string::npos && x.find_first_not_of(' ') == y + 1 ? x.substr(y + 3) : "\n" + x; }
                VF_CHECK(ctx, all == d, "txt-desc", "'" << all << "' for '" << d << "'");
            }
        }
        size_t n = 0; for (auto &x : mr.subs) textRep(L, i, x, rr.getSubreport(n++), descs);
    }
    void heads(const MRep &mr, const std::string &pre, std::vector<std::pair<std::string, double>> &o) { for (auto &s : mr.stats) o.push_back({pre + s.shown, w.eval(s)}); for (auto &x : mr.subs) heads(x, x.name + ".", o); }
    void csv()
    {
        std::vector<std::pair<std::string, double>> want; heads(m, "", want); auto L = lines(render<report::format::CSV>(&r)); while (!L.empty() && L[0][0] == '#') L.erase(L.begin());
        VF_EQ(ctx, L.size(), size_t(2), "csv-rows", "rows"); auto H = cells(L[0]), V = cells(L[1]); if (want.empty()) return; VF_EQ(ctx, H.size(), want.size(), "csv-columns", L[0]); VF_EQ(ctx, V.size(), want.size(), "csv-columns", L[1]);
        for (size_t i = 0; i < want.size(); ++i) { VF_EQ(ctx, H[i], want[i].first, "csv-name", i); value(ctx, "csv", H[i], V[i], want[i].second); }
    }
    void gnuplot()
    {
        std::vector<std::pair<std::string, double>> want; std::function<void(const MRep &)> flat = [&](const MRep &x) { for (auto &s : x.stats) want.push_back({s.shown, w.eval(s)}); for (auto &y : x.subs) flat(y); }; flat(m);
        auto L = lines(render<report::format::Gnuplot>(&r)); VF_EQ(ctx, L.size(), want.size() + 1, "gnuplot-lines", "lines"); std::stringstream row(L.back()); std::string tok;
        for (size_t i = 0; i < want.size(); ++i) {
            VF_CHECK(ctx, L[i].find("# (" + std::to_string(i + 1) + ") ") == 0 && L[i].find(want[i].first) != std::string::npos, "gnuplot-name", L[i] << " for " << want[i].first); VF_CHECK(ctx, bool(row >> tok), "gnuplot-columns", L.back());
            bool ok; double g = num(tok, ok); VF_CHECK(ctx, ok && close(g, want[i].second, 6e-6, 0), "gnuplot-value", tok << " for " << want[i].second); ctx.count("gnuplot");
        }
        VF_CHECK(ctx, !(row >> tok), "gnuplot-columns", L.back());
    }
    void htmlFlat(const MRep &x, std::multimap<std::string, double> &o, std::map<std::string, int> &) { for (auto &s : x.stats) o.insert({s.shown, w.eval(s)}); for (auto &y : x.subs) { std::map<std::string, int> d; htmlFlat(y, o, d); } }
    void html()
    {
        std::string t = render<report::format::BasicHTML>(&r, [&](auto &f) { f.setShowSimInfo(false); }); size_t b = t.find("<body");  t = t.substr(b);
        // tokens: tags with quoted attributes, and text
        std::vector<std::string> stack, texts; std::string cls, cur; struct Cell { std::string name; std::vector<std::string> vals; }; std::vector<std::pair<std::string, std::string>> cellsv; std::string textAcc; bool inName = false, inVal = false; unsigned open = 0, closed = 0;
        for (size_t i = 0; i < t.size();) {
            if (t[i] != '<') { textAcc += t[i++]; continue; }
            size_t j = i + 1; char q = 0; while (j < t.size() && (q || t[j] != '>')) { if (q) { if (t[j] == q) q = 0; } else if (t[j] == '\'' || t[j] == '"') q = t[j]; VF_CHECK(ctx, q || t[j] != '<', "html-tag", t.substr(i, 60)); ++j; }
            VF_CHECK(ctx, j < t.size(), "html-tag", t.substr(i, 60)); std::string tag = t.substr(i, j + 1 - i); i = j + 1;
            bool end = tag[1] == '/'; std::string nm; for (size_t k = end ? 2 : 1; k < tag.size() && isalnum(uint8_t(tag[k])); ++k) nm += tag[k];
            static const std::set<std::string> known{"body", "html", "table", "tbody", "thead", "tr", "th", "td", "span", "input", "br"}; VF_CHECK(ctx, known.count(nm), "html-tag", tag);
            if (nm == "table") { if (end) ++closed; else ++open; }
            if (!end && nm == "td") { inName = tag.find("class='name'") != std::string::npos; inVal = tag.find("class='value'") != std::string::npos; textAcc.clear(); }
            if (nm == "span" && (inVal || inName) && tag.find("units_span") != std::string::npos) { size_t e = t.find("</span>", i); i = e + 7; }
            if (end && nm == "td") { if (inName) cellsv.push_back({textAcc, ""}); if (inVal) cellsv.back().second = textAcc; inName = inVal = false; }
        }
        VF_EQ(ctx, open, closed, "html-tables", "tables"); std::multimap<std::string, double> want; std::map<std::string, int> dd; htmlFlat(m, want, dd); VF_EQ(ctx, cellsv.size(), want.size(), "html-count", "statistics"); unsigned dp = unsigned(strtoul(r.getStyle("decimal_places", "6").c_str(), nullptr, 0));
        // one name can be in several reports: match each with a value that fits
        for (auto &c : cellsv) {
            unHtml(c.first); unHtml(c.second); auto er = want.equal_range(c.first); VF_CHECK(ctx, er.first != er.second, "html-name", c.first); auto best = er.first; bool ok; double g = num(c.second, ok); VF_CHECK(ctx, ok, "html-number", c.first << " is '" << c.second << "'");
            for (auto it = er.first; it != er.second; ++it) if (close(g, it->second, 1e-9, 0.51 * std::pow(10, -double(dp)))) { best = it; break; }
            value(ctx, "html", c.first, c.second, best->second, int(dp)); want.erase(best);
        }
    }
    struct Py { vf::Ctx &ctx; const std::string &t; size_t i; void ws() { while (i < t.size() && isspace(uint8_t(t[i]))) ++i; } void eat(char c) { ws(); VF_CHECK(ctx, i < t.size() && t[i] == c, "python-syntax", "want '" << c << "' at " << t.substr(i, 40)); ++i; } bool peek(char c) { ws(); return i < t.size() && t[i] == c; }
        std::string str() { eat('"'); std::string s; while (i < t.size() && t[i] != '"') { if (t[i] == '\\') { ++i; s += t[i] == 'n' ? '\n' : t[i] == 't' ? '\t' : t[i]; } else s += t[i]; ++i; } eat('"'); return s; }
        std::string atom() { ws(); std::string s; if (t.compare(i, 7, "float('") == 0) { i += 7; while (i < t.size() && t[i] != '\'') s += t[i++]; eat('\''); eat(')'); } else while (i < t.size() && t[i] != ',' && t[i] != '}' && t[i] != ' ') s += t[i++]; return s; } };
    void pyRep(Py &p, const MRep &mr)
    {
        VF_EQ(ctx, p.str(), leaf(mr.name), "python-report", mr.name); p.eat(':'); p.eat('{'); bool first = true;
        for (auto &s : mr.stats) { if (s.name.empty()) continue; if (!first) p.eat(','); first = false; VF_EQ(ctx, p.str(), s.name, "python-name", s.name); p.eat(':'); value(ctx, "python", s.name, p.atom(), w.eval(s)); }
        for (auto &x : mr.subs) { if (!first) p.eat(','); first = false; pyRep(p, x); } p.eat('}');
    }
    void python() { std::string t = render<report::format::PythonDict>(&r); Py p{ctx, t, 0}; VF_CHECK(ctx, t.compare(0, 9, "report = ") == 0, "python-syntax", t.substr(0, 20)); p.i = 9; p.eat('{'); pyRep(p, m); p.eat('}'); p.ws(); VF_EQ(ctx, p.i, t.size(), "python-syntax", "trailing text"); }
    bool parse(const char *fmt, rapidjson::Document &d, const std::string &t) { d.Parse<rapidjson::kParseFullPrecisionFlag>(t.c_str()); VF_CHECK(ctx, !d.HasParseError(), std::string(fmt) + "-syntax", rapidjson::GetParseError_En(d.GetParseError()) << " at: " << t.substr(d.GetErrorOffset() > 30 ? d.GetErrorOffset() - 30 : 0, 80)); return true; }
    const rapidjson::Value &mem(const char *fmt, const rapidjson::Value &v, const std::string &k) { VF_CHECK(ctx, v.IsObject(), std::string(fmt) + "-shape", k); const rapidjson::Value *x = nullptr; for (auto e = v.MemberBegin(); e != v.MemberEnd(); ++e) if (e->name.GetStringLength() == k.size() && k == e->name.GetString()) { VF_CHECK(ctx, !x, std::string(fmt) + "-twice", k); x = &e->value; } VF_CHECK(ctx, x, std::string(fmt) + "-missing", k); return *x; }
    void jsonRep(const char *fmt, const rapidjson::Value &parent, const MRep &mr, Report &rr, bool full, bool omit)
    {
        auto &o = mem(fmt, parent, leaf(mr.name)); size_t n = 0;
        for (size_t k = 0; k < mr.stats.size(); ++k) { auto &s = mr.stats[k]; double v = w.eval(s); if (omit && v == 0) continue; auto &x = mem(fmt, o, s.shown); ++n; if (full) { jsonVal(ctx, fmt, s.shown, mem(fmt, x, "val"), v); VF_EQ(ctx, std::string(mem(fmt, x, "desc").GetString()), rr.getStatistic(k).getDesc(false), "json-desc", s.shown); VF_EQ(ctx, mem(fmt, x, "vis").GetUint64(), uint64_t(rr.getStatistic(k).getVisibility()), "json-vis", s.shown); } else jsonVal(ctx, fmt, s.shown, x, v); }
        if (full && n) { auto &ok = mem(fmt, o, "ordered_keys"); VF_EQ(ctx, ok.Size(), unsigned(n), "json-keys", mr.name); for (unsigned i = 0; i < n; ++i) VF_EQ(ctx, std::string(ok[i].GetString()), mr.stats[i].shown, "json-keys", i); }
        VF_EQ(ctx, size_t(o.MemberCount()), n + mr.subs.size() + (full && n), std::string(fmt) + "-extra", mr.name); size_t i = 0; for (auto &x : mr.subs) jsonRep(fmt, o, x, rr.getSubreport(i++), full, omit);
    }
    void json(bool full)
    {
        bool pretty = ctx.rng.chance(1, 2), omit = !full && ctx.rng.chance(1, 2); rapidjson::Document d; const char *fmt = full ? "json" : "json_reduced"; std::string t = full ? render<report::format::JSON>(&r, [&](auto &f) { if (!pretty) f.disablePrettyPrint(); f.setMetadataByNameAndStringValue("k \"q\"", "v\\"); }) : render<report::format::JSON_reduced>(&r, [&](auto &f) { if (!pretty) f.disablePrettyPrint(); if (omit) f.omitStatsWithValueZero(); });
        parse(fmt, d, t); jsonRep(fmt, mem(fmt, d, "Statistics"), m, r, full, omit); VF_EQ(ctx, mem(fmt, d, "Statistics").MemberCount(), 1u, "json-top", "reports"); if (full) VF_EQ(ctx, std::string(mem(fmt, mem(fmt, d, "report_metadata"), "k \"q\"").GetString()), std::string("v\\"), "json-metadata", "k");
    }
    void jsRep(const rapidjson::Value &u, const MRep &mr, Report &rr, size_t &n)
    {
        if (!mr.stats.empty()) { ++n; auto &o = mem("js_json", u, mr.name); for (size_t k = 0; k < mr.stats.size(); ++k) { auto &s = mr.stats[k]; auto &x = mem("js_json", o, s.shown); unsigned dp = unsigned(strtoul(r.getStyle("decimal_places", "2").c_str(), nullptr, 0)); jsonVal(ctx, "js_json", s.shown, mem("js_json", x, "val"), w.eval(s), int(dp)); VF_EQ(ctx, std::string(mem("js_json", x, "desc").GetString()), rr.getStatistic(k).getDesc(false), "js_json-desc", s.shown); }
            auto &ok = mem("js_json", o, "ordered_keys"); VF_EQ(ctx, ok.Size(), unsigned(mr.stats.size()), "js_json-keys", mr.name); VF_EQ(ctx, size_t(o.MemberCount()), mr.stats.size() + 1, "js_json-extra", mr.name); }
        size_t i = 0; for (auto &x : mr.subs) jsRep(u, x, rr.getSubreport(i++), n);
    }
    void js() { rapidjson::Document d; parse("js_json", d, render<report::format::JavascriptObject>(&r)); size_t n = 0; auto &u = mem("js_json", d, "units"); jsRep(u, m, r, n); VF_EQ(ctx, size_t(u.MemberCount()), n + 1, "js_json-units", "units"); }
    void detail()
    {
        rapidjson::Document d; std::string t; { std::ostringstream o; report::format::JSON_detail f(&r, o); f.write(); t = o.str(); } parse("json_detail", d, t);
        auto &si = mem("json_detail", d, "stat_info"); std::map<std::string, std::set<std::string>> want; std::function<void(const MRep &, const std::string &, bool)> walk = [&](const MRep &x, const std::string &p, bool top) { std::string ln = top ? leaf(x.name) : p + "." + leaf(x.name); std::set<const TreeNode *> grouped, in; for (auto &s : x.stats) if (s.group) grouped.insert(s.node); for (auto &s : x.stats) if (!s.name.empty()) { if (grouped.count(s.node)) { for (auto c : w.contexts.at(s.node)) in.insert(w.ctrs[c].get()); } else if (s.node && in.count(s.node)) { ctx.count("contexts within their counter"); continue; } want[s.name].insert(ln + "." + s.name); } for (auto &y : x.subs) walk(y, ln, ln.empty()); }; walk(m, "", true);
        VF_EQ(ctx, size_t(si.MemberCount()), want.size(), "json_detail-count", "names"); for (auto &x : want) { std::set<std::string> g; for (auto &e : mem("json_detail", si, x.first).GetArray()) g.insert(e["name"].GetString()); VF_CHECK(ctx, g == x.second, "json_detail-names", x.first); ctx.count("json_detail"); }
    }
    void mapping()
    {
        rapidjson::Document d; std::ostringstream o; report::format::StatsMapping f(&r); f.setOstream(&o, "x"); f.write(); parse("stats_mapping", d, o.str()); auto &h = mem("stats_mapping", d, "Column-header-to-statistic"); std::map<std::string, std::string> want; std::function<void(const MRep &, Report &, const std::string &)> walk = [&](const MRep &x, Report &rr, const std::string &p) { for (size_t k = 0; k < x.stats.size(); ++k) want[p + x.stats[k].shown] = rr.getStatistic(k).getLocation(); size_t i = 0; for (auto &y : x.subs) walk(y, rr.getSubreport(i++), y.name + "."); }; walk(m, r, "");
        VF_EQ(ctx, size_t(h.MemberCount()), want.size(), "stats_mapping-count", "columns"); for (auto &x : want) VF_EQ(ctx, std::string(mem("stats_mapping", h, x.first).GetString()), x.second, "stats_mapping", x.first); ctx.count("stats_mapping");
    }
    void all()
    {
        // the report itself
        eachStat(m, r, [&](MRep &, MStat &s, Report &rr, size_t i) { double g = rr.getStatistic(i).getValue(), e = w.eval(s); VF_CHECK(ctx, close(g, e, 1e-12, 0), "report-value", s.shown << " is " << g << ", want " << e); if (!s.name.empty()) { VF_CHECK(ctx, rr.hasStatistic(s.name), "report-name", s.name); VF_CHECK(ctx, &rr.getStatistic(s.name) == &rr.getStatistic(i), "report-name", s.name); } ctx.obs(e > 1e6, e < 0, std::isnan(e), std::isinf(e), s.ended); });
        VF_EQ(ctx, size_t(r.getRecursiveNumStatistics()), countAll(m), "report-count", "statistics");
        ctx.op("render"); text(); gnuplot(); csv(); html(); json(true); json(false); js(); python(); detail(); mapping();
    }
};

void api(vf::Ctx &ctx)
{
    Quiet q; World w; auto &r = ctx.rng; build(ctx, w, unsigned(r.range(1, 4))); MRep m; m.name = "top_report"; std::unique_ptr<Report> rep(new Report(m.name, w.env.rtn.getSearchScope())); int serial = 0; bool hostile = r.chance(1, 4);
    auto parts = [&](MRep &mr, TreeNode *n, const std::string &pre) { size_t k = 0; for (auto c : w.contexts.at(n)) { MStat x; x.s = w.now(); x.name = x.shown = pre + "ctx" + std::to_string(k++); x.f = [c](const Vals &v) { return v[c]; }; x.node = w.ctrs[c].get(); mr.stats.push_back(x); ctx.count("parts of context counters"); } };
    auto newStat = [&](MRep &mr, Report &rr) {
        if (r.chance(1, 8) && !w.contexts.empty()) { // the parts of a context counter on their own
            auto it = std::next(w.contexts.begin(), long(r.below(w.contexts.size()))); auto *sd = const_cast<StatisticDef *>(dynamic_cast<const StatisticDef *>(it->first)); std::string nm = "st" + std::to_string(serial++); ctx.op("addSubStats", mr.name, nm);
            VF_EQ(ctx, rr.isContextCounterStatsAutoExpansionEnabled(), mr.expand, "report-expand", "whether " << mr.name << " expands context counters"); if (!mr.expand) { mr.expand = true; VF_CHECK(ctx, vf::throws<SpartaException>([&] { rr.addSubStats(sd, nm); }), "report-expand", "expanded without asking"); rr.enableContextCounterStatsAutoExpansion(); }
            rr.addSubStats(sd, nm); parts(mr, sd, nm + "." + sd->getName() + "_"); return;
        }
        MStat s; s.s = w.now(); size_t nc = w.ctrs.size(), nd = w.defs.size(), i = r.below(nc + nd); TreeNode *n = i < nc ? static_cast<TreeNode *>(w.ctrs[i].get()) : w.defs[i - nc].get(); int how = int(r.below(5));
        if (i < nc) s.f = [i](const Vals &v) { return v[i]; }; else s.f = w.kinds[i - nc].f; s.name = "st" + std::to_string(serial++) + (hostile ? r.pick(std::vector<std::string>{"", " \"q\"", "\\b", " <i> & co", "'s"}) : r.pick(std::vector<std::string>{"", ".ipc", " (all)", "_x", "%"}));
        bool named = r.chance(3, 4); if (how == 3) { // an expression
            std::string e = n->getLocation() + " * 2"; auto f = s.f; s.f = [f](const Vals &v) { return f(v) * 2; }; named = true; s.isExpr = true; s.shown = s.name; ctx.op("add", mr.name, s.name, e); rr.add(e, s.name); mr.stats.push_back(s); return; }
        if (i >= nc && how == 1 && w.contexts.count(n)) { for (auto &o : mr.stats) if (o.name == n->getName() + "_ctx0") how = 0; } // its parts have one name only
        if (!named) { for (auto &o : mr.stats) if (o.shown == n->getLocation()) return; s.name.clear(); } s.shown = named ? s.name : n->getLocation(); ctx.op("add", mr.name, s.name, n->getLocation());
        if (how == 0) rr.add(n, s.name); else if (how == 1) rr.add(StatisticInstance(n), s.name); else if (how == 2 && i < nc) rr.add(static_cast<CounterBase *>(w.ctrs[i].get()), s.name); else if (how == 2) rr.add(w.defs[i - nc].get(), s.name); else rr.add(n->getLocation(), s.name);
        s.node = n; s.group = how == 1 && w.contexts.count(n); mr.stats.push_back(s); if (s.group) parts(mr, n, n->getName() + "_"); if (named && r.chance(1, 10)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { rr.add(n, s.name); }), "report-duplicate", s.name << " is added twice");
    };
    std::function<void(MRep &, Report &, int)> fill = [&](MRep &mr, Report &rr, int depth) {
        if (&mr == &m && r.chance(1, 3)) rr.setStyle("decimal_places", std::to_string(r.range(1, 8))); if (r.chance(1, 6)) rr.setStyle("num_stat_columns", std::to_string(r.range(1, 3))); if (r.chance(1, 6)) rr.setStyle("show_descriptions", r.chance(1, 2) ? "true" : "false");
        for (int n = int(r.below(6)); n--;) newStat(mr, rr);
        if (depth < 3) for (int n = int(r.below(3)); n--;) { std::string nm = (r.chance(1, 3) ? "pre.fix." : "") + ("sub" + std::to_string(serial++) + "x"); ctx.op("subreport", mr.name, nm); mr.subs.emplace_back(); mr.subs.back().name = nm; mr.subs.back().expand = mr.expand; fill(mr.subs.back(), rr.addSubreport(nm), depth + 1); } };
    fill(m, *rep, 0);
    unsigned steps = unsigned(r.range(3, 14));
    for (unsigned k = 0; k < steps; ++k) {
        run(ctx, w); std::vector<std::pair<MRep *, Report *>> all; std::function<void(MRep &, Report &)> coll = [&](MRep &a, Report &b) { all.push_back({&a, &b}); size_t i = 0; for (auto &x : a.subs) coll(x, b.getSubreport(i++)); }; coll(m, *rep); auto t = r.chance(1, 2) ? all[0] : r.pick(all);
        switch (r.below(9)) {
        case 0: case 1: ctx.op("start", t.first->name); t.second->start(); window(w, *t.first, true); break;
        case 2: ctx.op("end", t.first->name); t.second->end(); window(w, *t.first, false); break;
        case 3: ctx.op("copy"); { std::unique_ptr<Report> c(new Report(*rep)); rep = std::move(c); } break;
        case 4: ctx.op("assign"); { std::unique_ptr<Report> c(new Report("other", w.env.rtn.getSearchScope())); if (r.chance(1, 2)) { c->add(w.ctrs[0].get(), "st0"); c->addSubreport("gone").add(w.ctrs[0].get(), "g"); } *c = *rep; rep = std::move(c); } break;
        case 5: ctx.op("move"); { std::unique_ptr<Report> c(new Report(std::move(*rep))); rep = std::move(c); } break;
        case 6: if (t.second != rep.get() && !t.first->subs.size()) { ctx.op("more", t.first->name); newStat(*t.first, *t.second); } break;
        default: break;
        }
        if (r.chance(1, 3) || k + 1 == steps) { Render R{ctx, w, m, *rep, !hostile}; R.all(); }
        ctx.count("steps");
    }
}
// --- report definitions (YAML) and autopopulation ---
struct Scope { TreeNode *n; std::vector<std::string> caps; MRep *rep; };
struct Defn {
    vf::Ctx &ctx; World &w; std::string out; int serial = 0; bool wrong = false; Vals zero; bool expand = false;
    struct Named { std::string name; std::function<double(const Vals &)> f; }; std::map<MRep *, std::vector<Named>> simple;
    size_t unitOf(TreeNode *n) const { for (size_t i = 0; i < w.units.size(); ++i) if (w.units[i].get() == n) return i; return size_t(-1); }
    std::vector<TreeNode *> unitsUnder(TreeNode *n) const { std::vector<TreeNode *> v; for (auto &u : w.units) if (u->getParent() == n) v.push_back(u.get()); return v; }
    bool statOf(TreeNode *n, std::function<double(const Vals &)> &f) const { for (size_t i = 0; i < w.ctrs.size(); ++i) if (w.ctrs[i].get() == n) { f = [i](const Vals &v) { return v[i]; }; return true; } for (size_t i = 0; i < w.defs.size(); ++i) if (w.defs[i].get() == n) { f = w.kinds[i].f; return true; } return false; }
    std::vector<TreeNode *> statsIn(TreeNode *unit) const { std::vector<TreeNode *> v; TreeNode *ss = unit->getChild("stats"); for (TreeNode *c : ss->getChildren()) { std::function<double(const Vals &)> f; if (statOf(c, f)) v.push_back(c); } return v; }
    void line(int ind, const std::string &t) { out += std::string(size_t(ind), ' ') + t + "\n"; }
    std::string subst(const std::string &t, const Scope &s, TreeNode *n, const std::vector<std::string> &caps) { (void)s; std::string o; for (size_t i = 0; i < t.size(); ++i) if (t[i] == '%') { ++i; if (t[i] == 'l' || t[i] == '0') o += n->getLocation(); else if (t[i] == '-') { ++i; o += caps[caps.size() - size_t(t[i] - '0')]; } else o += caps[size_t(t[i] - '1')]; } else o += t[i]; return o; }
    void put(Scope &s, const std::string &name, const std::function<double(const Vals &)> &f) { MStat x; x.name = x.shown = name; x.s = zero; x.f = f; s.rep->stats.push_back(x); if (name[0] == 'e') simple[s.rep].push_back({name, f}); ctx.count("stats"); }
    void expanded(Scope &s, const std::string &name, TreeNode *n) { auto it = w.contexts.find(n); if (!expand || it == w.contexts.end() || it->second.size() < 2) return; size_t k = 0; for (auto c : it->second) put(s, name + "." + n->getName() + "_ctx" + std::to_string(k++), [c](const Vals &v) { return v[c]; }); ctx.count("expanded context counters"); }
    // a suffix that makes the names of all scopes differ
    std::string tag(const std::vector<Scope> &sc, bool star) { if (star) return ctx.rng.chance(1, 2) ? " %-1 in %l" : " %l"; if (sc.size() < 2) return ctx.rng.chance(1, 4) ? " at %l" : ""; return ctx.rng.chance(1, 2) ? " %l" : " of %0"; }
    std::string qt(const std::string &s) { return s[0] == '%' || ctx.rng.chance(1, 2) ? "\"" + s + "\"" : s; }
    bool oneReportEach(const std::vector<Scope> &sc) { std::set<MRep *> v; for (auto &s : sc) v.insert(s.rep); return v.size() == sc.size(); }
    void content(std::vector<Scope> sc, int ind, int depth)
    {
        auto &r = ctx.rng; bool unit = true, nostat = true; for (auto &s : sc) { if (unitOf(s.n) == size_t(-1)) unit = false; if (s.n->getName() == "stats") nostat = false; }
        unsigned items = unsigned(r.range(1, 5)); size_t before = out.size();
        for (unsigned k = 0; k < items; ++k) switch (r.below(12)) {
        case 0: case 1: case 2: { // a statistic by its path
            std::string path, nm = "n" + std::to_string(serial++) + tag(sc, false); std::vector<std::pair<size_t, TreeNode *>> hits;
            if (sc.size() == 1) { TreeNode *base = sc[0].n; std::vector<TreeNode *> all; for (auto &u : w.units) for (auto *x : statsIn(u.get())) if (x->getLocation().compare(0, base->getLocation().size() + 1, base->getLocation() + ".") == 0 || base == w.env.rtn.getSearchScope()) all.push_back(x); if (all.empty()) break; TreeNode *x = r.pick(all); if (r.chance(1, 2)) for (auto *y : all) if (w.contexts.count(y)) x = y; path = base == w.env.rtn.getSearchScope() ? x->getLocation() : x->getLocation().substr(base->getLocation().size() + 1); hits.push_back({0, x}); }
            else { path = unit ? "stats.c0x" : nostat ? "" : "c0x"; if (path.empty()) break; for (size_t i = 0; i < sc.size(); ++i) hits.push_back({i, sc[i].n->getChild(path)}); }
            line(ind, path + ": " + qt(nm)); for (auto &h : hits) { std::function<double(const Vals &)> f; statOf(h.second, f); std::string full = subst(nm, sc[h.first], h.second, sc[h.first].caps); put(sc[h.first], full, f); expanded(sc[h.first], full, h.second); } ctx.count("paths"); break; }
        case 3: { // wildcards
            std::string nm = "w" + std::to_string(serial++) + tag(sc, true); std::vector<std::tuple<size_t, TreeNode *, std::string>> hits; std::string pat; std::vector<std::pair<TreeNode *, std::vector<std::string>>> two;
            if (unit) { pat = "stats.c*x"; for (size_t i = 0; i < sc.size(); ++i) for (auto *x : statsIn(sc[i].n)) if (x->getName()[0] == 'c') hits.push_back({i, x, x->getName().substr(1, x->getName().size() - 2)}); }
            else if (nostat && sc.size() == 1 && sc[0].n != w.env.rtn.getSearchScope()) { if (r.chance(1, 2)) { pat = "unit*.stats.c*x"; nm = "w" + std::to_string(serial++) + r.pick(std::vector<std::string>{" %l", " at %0"}); for (auto *u : unitsUnder(sc[0].n)) for (auto *x : statsIn(u)) if (x->getName()[0] == 'c') { auto caps = sc[0].caps; caps.push_back(u->getName().substr(4)); caps.push_back(x->getName().substr(1, x->getName().size() - 2)); std::function<double(const Vals &)> f; statOf(x, f); two.push_back({x, caps}); } }
                else { pat = "unit*.stats.c0x"; for (auto *u : unitsUnder(sc[0].n)) hits.push_back({0, u->getChild("stats.c0x"), u->getName().substr(4)}); } } else break;
            if (!two.empty()) { line(ind, pat + ": " + qt(nm)); for (auto &h : two) { std::function<double(const Vals &)> f; statOf(h.first, f); put(sc[0], subst(nm, sc[0], h.first, h.second), f); ctx.count("twowild"); } break; }
            if (hits.empty()) break; line(ind, (r.chance(1, 2) ? pat : "\"" + pat + "\"") + ": " + qt(nm)); for (auto &h : hits) { auto &s = sc[std::get<0>(h)]; auto caps = s.caps; caps.push_back(std::get<2>(h)); std::function<double(const Vals &)> f; statOf(std::get<1>(h), f); put(s, subst(nm, s, std::get<1>(h), caps), f); ctx.count("wildcards"); } break; }
        case 4: case 5: { // a scope
            if (depth > 3 || !nostat) break; std::vector<Scope> in; std::string key; 
            if (unit && r.chance(1, 2)) { key = "stats"; for (auto &s : sc) in.push_back({s.n->getChild("stats"), s.caps, s.rep}); }
            else if (sc.size() == 1 && sc[0].n == w.env.rtn.getSearchScope()) { key = "top"; in.push_back({&w.env.rtn, sc[0].caps, sc[0].rep}); }
            else if (r.chance(1, 2)) { key = "unit*"; for (auto &s : sc) for (auto *u : unitsUnder(s.n)) { auto c = s.caps; c.push_back(u->getName().substr(4)); in.push_back({u, c, s.rep}); } }
            else if (sc.size() == 1) { auto us = unitsUnder(sc[0].n); if (us.empty()) break; TreeNode *u = r.pick(us); key = u->getName(); in.push_back({u, sc[0].caps, sc[0].rep}); } else break;
            if (in.empty()) break; line(ind, key + ":"); ctx.count("scopes"); content(in, ind + 2, depth + 1); break; }
        case 6: case 7: { // a subreport for every scope
            if (depth > 3 || (sc.size() > 1 && !unit)) break; line(ind, "subreport:"); subreport(sc, ind + 2, depth + 1); break; }
        case 8: { // an expression
            if (sc.size() != 1) break; std::string nm = "e" + std::to_string(serial++); auto &sim = simple[sc[0].rep];
            if (!sim.empty() && r.chance(1, 2)) { auto &o = r.pick(sim); line(ind, "\"" + o.name + " * 3 + 1\": " + nm); auto f = o.f; put(sc[0], nm, [f](const Vals &v) { return f(v) * 3 + 1; }); ctx.count("self"); }
            else if (unit) { line(ind, "\"stats.c0x + stats.c0x * 2\": " + nm); std::function<double(const Vals &)> f; statOf(sc[0].n->getChild("stats.c0x"), f); put(sc[0], nm, [f](const Vals &v) { return f(v) * 3; }); ctx.count("expressions"); } break; }
        case 9: line(ind, "report_ignore:"); line(ind + 2, "nothing.here: gone"); if (unit) line(ind + 2, "stats.c0x: ignored"); if (r.chance(1, 2)) { line(ind + 2, "nested:"); line(ind + 4, "x: y"); } ctx.count("ignored"); break;
        case 10: { // optional content
            line(ind, "optional:"); line(ind + 2, "\"not.there + 1\": missing" + std::to_string(serial++)); if (unit) { std::string nm = "o" + std::to_string(serial++) + tag(sc, false); line(ind + 2, "stats.c0x: " + qt(nm)); for (auto &s : sc) { std::function<double(const Vals &)> f; statOf(s.n->getChild("stats.c0x"), f); put(s, subst(nm, s, s.n->getChild("stats.c0x"), s.caps), f); } } ctx.count("optional"); break; }
        default: if (!wrong && r.chance(1, 25)) { wrong = true; std::string nm = "bad" + std::to_string(serial++); switch (r.below(unit ? 4 : 3)) { case 0: line(ind, "\"not.there\": " + nm); break; case 1: line(ind, "content:"); line(ind + 2, "a: b"); break; case 2: line(ind, "\"no + + such\": " + nm); break; default: line(ind, "stats.c0x: \"" + nm + " %9\""); } ctx.count("wrong"); } break;
        }
        if (out.size() == before) { line(ind, "report_ignore:"); line(ind + 2, "x: y"); }
    }
    void subreport(std::vector<Scope> &sc, int ind, int depth)
    {
        auto &r = ctx.rng; std::string nm = (sc.size() > 1 || r.chance(1, 4) ? r.chance(1, 2) ? "%l" : "of %0" : "") + std::string(" sub") + std::to_string(serial++); if (nm[0] == ' ') nm.erase(0, 1); std::vector<Scope> in; std::string dp = std::to_string(r.range(1, 8));
        for (auto &s : sc) { s.rep->subs.emplace_back(); s.rep->subs.back().name = subst(nm, s, s.n, s.caps); in.push_back({s.n, s.caps, &s.rep->subs.back()}); }
        bool late = r.chance(1, 4); if (!late) line(ind, "name: " + qt(nm)); auto style = [&] { line(ind, "style:"); line(ind + 2, "a_style: " + dp); for (auto &s : in) s.rep->style["a_style"] = dp; ctx.count("styles"); }; int st = int(r.below(6)); if (st == 0) style(); line(ind, "content:"); content(in, ind + 2, depth); if (st == 1) style(); if (late) line(ind, "name: " + qt(nm)); ctx.count("subreports", sc.size());
    }
};
void matchReport(vf::Ctx &ctx, MRep &m, Report &rep, const char *key)
{
    VF_EQ(ctx, rep.getName(), m.name, key, "name of the report"); VF_EQ(ctx, rep.getNumStatistics(), m.stats.size(), key, "statistics of " << m.name); VF_EQ(ctx, rep.getNumSubreports(), m.subs.size(), key, "subreports of " << m.name);
    for (auto &st : m.style) VF_EQ(ctx, rep.getStyle(st.first, ""), st.second, key, "style of " << m.name);
    std::vector<MStat> v; for (size_t i = 0; i < rep.getNumStatistics(); ++i) { auto &nm = rep.getStatistics()[i].first; auto it = std::find_if(m.stats.begin(), m.stats.end(), [&](MStat &s) { return s.name == nm; }); VF_CHECK(ctx, it != m.stats.end(), key, "unexpected " << nm << " in " << m.name); if (it == m.stats.end()) return; v.push_back(*it); } m.stats.swap(v);
    std::list<MRep> subs; for (size_t i = 0; i < rep.getNumSubreports(); ++i) { auto &nm = rep.getSubreport(i).getName(); auto it = std::find_if(m.subs.begin(), m.subs.end(), [&](MRep &s) { return s.name == nm; }); VF_CHECK(ctx, it != m.subs.end(), key, "unexpected subreport " << nm << " of " << m.name); if (it == m.subs.end()) return; subs.splice(subs.end(), m.subs, it); } m.subs.swap(subs);
    size_t i = 0; for (auto &x : m.subs) matchReport(ctx, x, rep.getSubreport(i++), key);
}
void definition(vf::Ctx &ctx)
{
    Quiet q; World w; auto &r = ctx.rng; build(ctx, w, unsigned(r.range(1, 5))); if (r.chance(1, 2)) run(ctx, w);
    MRep m; m.name = "defined"; Defn d{ctx, w, "", 0, false, w.now(), r.chance(1, 2), {}}; bool atTop = r.chance(1, 2); TreeNode *ctxt = atTop ? static_cast<TreeNode *>(&w.env.rtn) : w.env.rtn.getSearchScope();
    d.line(0, "name: " + d.qt(m.name)); d.line(0, "content:"); d.content({{ctxt, {}, &m}}, 2, 0); ctx.op("definition", d.out); Report rep("", ctxt); if (d.expand) rep.enableContextCounterStatsAutoExpansion(); std::string err;
    try { if (r.chance(1, 4)) { std::string f = ctx.scratch + "/d.yaml"; std::ofstream(f) << d.out; rep.addFile(f); } else rep.addDefinitionString(d.out); } catch (std::exception &e) { err = e.what(); }
    VF_EQ(ctx, !err.empty(), d.wrong, d.wrong ? "defn-accepted" : "defn-refused", err << "\n" << d.out); if (d.wrong || !err.empty()) return;
    matchReport(ctx, m, rep, "defn"); Render R{ctx, w, m, rep, true}; run(ctx, w); R.all(); if (r.chance(1, 2)) { rep.start(); window(w, m, true); run(ctx, w); R.all(); rep.end(); window(w, m, false); run(ctx, w); R.all(); }
}
// every visible statistic below a node is in exactly one report, named by the place it has in the tree
void autopopulate(vf::Ctx &ctx)
{
    Quiet q; World w; auto &r = ctx.rng; build(ctx, w, unsigned(r.range(1, 6))); if (r.chance(1, 2)) run(ctx, w); Vals zero = w.now();
    TreeNode *start = r.chance(1, 2) ? static_cast<TreeNode *>(&w.env.rtn) : w.units[r.below(w.units.size())].get();
    struct F { const char *t; std::function<bool(uint64_t)> f; }; const uint64_t H = InstrumentationNode::VIS_HIDDEN, D = InstrumentationNode::VIS_DETAIL, N = InstrumentationNode::VIS_NORMAL, S = InstrumentationNode::VIS_SUMMARY;
    static const std::vector<F> FS{{"", [](uint64_t) { return true; }}, {"true", [](uint64_t) { return true; }}, {"vis:summary", [=](uint64_t v) { return v == S; }}, {"!=vis:hidden && !=vis:summary", [=](uint64_t v) { return v != H && v != S; }}, {">=vis:normal", [=](uint64_t v) { return v >= N; }}, {"<vis:normal", [=](uint64_t v) { return v < N; }}, {"vis:detail || vis:normal", [=](uint64_t v) { return v == D || v == N; }}, {"not vis:hidden", [=](uint64_t v) { return v != H; }}};
    auto &f = r.pick(FS); int depth = r.chance(1, 3) ? int(r.below(6)) : -1; ctx.op("autopopulate", start->getLocation(), f.t, depth); MRep m; m.name = "auto";
    std::function<void(TreeNode *, MRep &, std::string, int)> walk = [&](TreeNode *n, MRep &in, std::string prefix, int d) {
        Defn h{ctx, w, "", 0, false, zero, false, {}}; std::function<double(const Vals &)> fn; if (h.statOf(n, fn) && f.f(dynamic_cast<InstrumentationNode *>(n)->getVisibility())) { MStat s; s.name = s.shown = prefix + n->getName(); s.s = zero; s.f = fn; in.stats.push_back(s); ctx.count("leaves"); }
        MRep *to = &in; bool sub = d > 0 && n->hasChild("stats"); if (sub) { in.subs.emplace_back(); to = &in.subs.back(); to->name = n->getLocation(); prefix.clear(); } else if (d > 0 && !(prefix.empty() && n->getName() == "stats")) prefix += n->getName() + "."; if (depth >= 0 && d >= depth + 1) return;
        for (TreeNode *c : n->getChildren()) walk(c, *to, prefix, d + 1); if (sub && countAll(*to) == 0) in.subs.pop_back(); };
    walk(start, m, "", 0); Report rep("auto", start); auto dflt = [](MRep &) {}; dflt(m);
    if (r.chance(1, 2)) rep.autoPopulate(start, f.t, {}, depth, -1); else rep.addDefinitionString("content:\n  autopopulate:\n    attributes: \"" + std::string(f.t) + "\"\n    max_recursion_depth: " + std::to_string(depth) + "\n");
    matchReport(ctx, m, rep, "autopopulate"); Render R{ctx, w, m, rep, true}; run(ctx, w); R.all();
    // however it is divided into reports, each statistic is there once
    int md = int(r.below(3)); Report flat("flat", start); flat.autoPopulate(start, f.t, {}, depth, md); std::multiset<std::string> want, got; std::function<void(const MRep &, const std::string &)> names = [&](const MRep &x, const std::string &p) { for (auto &s : x.stats) want.insert(p + s.name); for (auto &y : x.subs) names(y, ""); }; (void)names;
    std::function<void(Report &)> locs = [&](Report &x) { for (size_t i = 0; i < x.getNumStatistics(); ++i) got.insert(x.getStatistic(i).getLocation()); for (size_t i = 0; i < x.getNumSubreports(); ++i) locs(x.getSubreport(i)); }; locs(rep); want.swap(got); got.clear(); locs(flat); VF_CHECK(ctx, want == got, "autopopulate-flat", "max_report_depth " << md << " holds " << got.size() << " statistics instead of " << want.size());
}
}
VF_SECTION(api, 120, 2000) { api(ctx); }
VF_SECTION(definition, 150, 3000) { definition(ctx); }
VF_SECTION(autopopulate, 100, 2000) { autopopulate(ctx); }
