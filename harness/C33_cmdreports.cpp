// C33: models run through the command-line simulator with report descriptors (patterns, formats, start/stop/update triggers, tags,
// replacements); every number of every file written is recomputed from the model's own log of increments.
#include "simenv.hpp"
#include "sparta/app/Simulation.hpp"
#include "sparta/app/SimulationInfo.hpp"
#include "sparta/app/CommandLineSimulator.hpp"
#include "sparta/simulation/Unit.hpp"
#include "sparta/simulation/ResourceFactory.hpp"
#include "sparta/simulation/ResourceTreeNode.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include "sparta/simulation/Parameter.hpp"
#include "sparta/events/StartupEvent.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/StatisticDef.hpp"
#include "sparta/kernel/SleeperThread.hpp"
#include <filesystem>
#include <fstream>
#include <regex>
using namespace sparta;
namespace c33 {
struct Inc { uint64_t seq, tick; unsigned unit, ctr; uint64_t val; };
struct Post { uint64_t seq, tick; unsigned unit; uint64_t val; };
struct World { std::vector<Inc> incs; std::vector<Post> posts; uint64_t seq = 0, last = 0; };
World *W = nullptr;
struct Now : CounterBase {
    const Clock *clk;
    Now(TreeNode *n, const Clock *c) : CounterBase(n, "now", "d", CounterBase::COUNT_NORMAL), clk(c) {}
    counter_type get() const override { return clk->getScheduler()->getCurrentTick(); }
    std::string stringize(bool = false) const override { return "now"; }
};
class Worker : public Unit {
public:
    static constexpr char name[] = "worker";
    struct Params : ParameterSet { Params(TreeNode *n) : ParameterSet(n) {} Parameter<uint32_t> id{"id", 0, "d", this}, limit{"limit", 100, "d", this}, gap{"gap", 3, "d", this}, step{"step", 3, "d", this}; Parameter<uint64_t> seed{"seed", 1, "d", this}; };
    Worker(TreeNode *n, const Params *p) : Unit(n), id(p->id), limit(p->limit), gap(p->gap), step(p->step), r(p->seed), clk(n->getClock()), tick(&unit_event_set_, "tick", CREATE_SPARTA_HANDLER(Worker, onTick)),
        c{{&unit_stat_set_, "c0", "d", Counter::COUNT_NORMAL}, {&unit_stat_set_, "c1", "d", Counter::COUNT_NORMAL}}, now(&unit_stat_set_, n->getClock()), mix(&unit_stat_set_, "mix", "d", &unit_stat_set_, "c0+2*c1"), noise(n, "noise", "d", "noise") { StartupEvent(n, CREATE_SPARTA_HANDLER(Worker, start)); }
    uint32_t id, limit, gap, step; vf::Rng r; const Clock *clk; UniqueEvent<SchedulingPhase::Tick> tick; Counter c[2]; Now now; StatisticDef mix; NotificationSource<uint64_t> noise; uint32_t done = 0;
    void start() { tick.schedule(r.below(4)); }
    void onTick()
    {
        uint64_t t = clk->getScheduler()->getCurrentTick(); W->last = t;
        for (unsigned k = 0; k < 2; ++k) if (uint64_t by = r.below(step + 1)) { if (by == 1) ++c[k]; else c[k] += by; W->incs.push_back({W->seq++, t, id, k, c[k].get()}); }
        if (r.chance(1, 6)) { uint64_t v = r.below(8); W->posts.push_back({W->seq++, t, id, v}); noise.postNotification(v); if (r.chance(1, 2)) { ++c[0]; W->incs.push_back({W->seq++, t, id, 0, c[0].get()}); } }
        if (++done < limit) tick.schedule(1 + r.below(gap));
    }
};
constexpr char Worker::name[];
struct Shape { std::vector<std::pair<uint32_t, uint32_t>> clocks; std::vector<unsigned> clk; };
std::string nm(size_t i) { return std::string("u") + char('a' + i); }
struct Sim : app::Simulation {
    const Shape &s; ResourceFactory<Worker, Worker::Params> fact; std::vector<std::unique_ptr<ResourceTreeNode>> nodes; std::vector<Clock::Handle> clks;
    Sim(Scheduler *sc, const Shape &sh) : app::Simulation("model", sc), s(sh) {}
    ~Sim() { getRoot()->enterTeardown(); }
    void buildTree_() override
    {
        for (size_t i = 0; i < s.clocks.size(); ++i) clks.push_back(getClockManager().makeClock("clk" + std::string(1, char('a' + i)), getClockManager().getRoot(), s.clocks[i].first, s.clocks[i].second));
        for (size_t i = 0; i < s.clk.size(); ++i) { nodes.emplace_back(new ResourceTreeNode(getRoot(), nm(i), "u", unsigned(i), "unit", &fact)); if (s.clk[i]) nodes.back()->setClock(clks[s.clk[i] - 1].get()); }
    }
    void configureTree_() override {}
    void bindTree_() override {}
    const CounterBase *findSemanticCounter_(CounterSemantic) const override { return nullptr; }
};
} // namespace c33
using namespace c33;
namespace {
namespace fs = std::filesystem;
constexpr uint64_t NEVER = ~0ull;
// A point of a run: a position in the log (what the counters are) and a tick.
struct Pt { uint64_t seq, tick; bool never() const { return tick == NEVER; } };
struct Hist {
    const World &w; uint64_t end; std::vector<uint64_t> period; // of each unit
    uint64_t value(unsigned u, unsigned k, uint64_t seq) const { if (k == 2) return value(u, 0, seq) + 2 * value(u, 1, seq); uint64_t v = 0; for (auto &i : w.incs) { if (i.seq >= seq) break; if (i.unit == u && i.ctr == k) v = i.val; } return v; }
    Pt trig(uint64_t tick) const { if (tick > end) return {w.seq, NEVER}; uint64_t s = w.seq; for (auto &i : w.incs) if (i.tick >= tick) { s = i.seq; break; } for (auto &p : w.posts) if (p.tick >= tick) { s = std::min(s, p.seq); break; } return {s, tick}; }
    // The first edge, later than tick 'after', on which the counter is seen to have reached v.
    Pt reached(unsigned u, unsigned k, uint64_t v, uint64_t after) const { for (auto &i : w.incs) if (i.unit == u && i.ctr == k && i.val >= v) { uint64_t e = (i.tick / period[u] + 1) * period[u]; uint64_t a = (after / period[u] + 1) * period[u]; return trig(std::max(e, a)); } return {w.seq, NEVER}; }
    Pt posted(unsigned op, uint64_t v, uint64_t from) const { for (auto &p : w.posts) if (p.seq >= from && matches(op, p.val, v)) return {p.seq, p.tick}; return {w.seq, NEVER}; }
    static bool matches(unsigned op, uint64_t a, uint64_t b) { switch (op) { case 0: return a == b; case 1: return a != b; case 2: return a >= b; case 3: return a <= b; case 4: return a > b; default: return a < b; } }
};
const char *const OPS[] = {"==", "!=", ">=", "<=", ">", "<"};
struct Term { bool ctr; unsigned u, k, op; uint64_t v; };
struct Cond { std::vector<Term> t; bool conj = false; std::string ref; int refRep = -1; };
enum Upd { NONE, CYCLES, TIME, COUNT, WHENEVER };
struct Rep {
    std::string pattern, def, dest, format, tag; int unit = -1; Cond start, stop; bool hasStart = false, hasStop = false; Upd upd = NONE; uint64_t n = 0; int clk = -1; bool noalign = false; Term wh{}; unsigned u = 0, k = 0; bool cmd = false;
    bool csv() const { return format.substr(0, 3) == "csv"; }
};
std::string text(const Term &t) { std::ostringstream o; if (t.ctr) o << "top." << nm(t.u) << ".stats.c" << t.k << " >= " << t.v; else o << "notif.noise " << OPS[t.op] << " " << t.v; return o.str(); }
std::string text(const Cond &c) { if (c.ref.size()) return c.ref; std::string s; for (auto &t : c.t) s += (s.empty() ? "" : c.conj ? " && " : " || ") + text(t); return s; }
Pt when(const Hist &h, const Cond &c, Pt from)
{
    Pt r{h.w.seq, NEVER}; bool first = true;
    for (auto &t : c.t) { Pt p = t.ctr ? h.reached(t.u, t.k, t.v, 0) : h.posted(t.op, t.v, from.seq); if (first) r = p; else if (c.conj ? (p.never() || (!r.never() && p.seq > r.seq)) : (r.never() || (!p.never() && p.seq < r.seq))) r = p; first = false; }
    return r;
}
std::string slurp(const std::string &f) { std::ifstream i(f); std::ostringstream o; o << i.rdbuf(); return o.str(); }
Term term(vf::Rng &r, const Shape &s, bool notif, uint64_t lo, uint64_t hi) { Term t{!(notif && r.chance(1, 3)), unsigned(r.below(s.clk.size())), unsigned(r.below(2)), unsigned(r.below(6)), 0}; t.v = t.ctr ? uint64_t(r.range(int64_t(lo), int64_t(hi))) : r.below(8); return t; }
struct Done { World world; std::string error; uint64_t end = 0, rootp = 0; std::vector<uint64_t> period, cperiod; };
void run(Done &o, const Shape &s, std::vector<std::string> args)
{
    W = &o.world; Quiet q; static const bool alone = (SleeperThread::disableForever(), true); (void)alone; std::vector<char *> av; for (auto &x : args) av.push_back(&x[0]); av.push_back(nullptr);
    SimulationInfo::getInstance() = SimulationInfo("model", int(args.size()), av.data(), "", "", {});
    try {
        app::DefaultValues dv; dv.auto_summary_default = "off"; app::CommandLineSimulator cls("usage", dv); int err = 0; if (!cls.parse(int(args.size()), av.data(), err)) throw SpartaException("options refused");
        Scheduler sched; { Sim sim(&sched, s); cls.populateSimulation(&sim); o.rootp = sim.getRoot()->getClock()->getPeriod(); for (auto &c : sim.clks) o.cperiod.push_back(c->getPeriod()); for (auto c : s.clk) o.period.push_back(c ? o.cperiod[c - 1] : o.rootp); cls.runSimulator(&sim); o.end = sched.getCurrentTick(); cls.postProcess(&sim); }
    } catch (const std::exception &e) { o.error = e.what(); }
    W = nullptr;
}
Shape shape(vf::Rng &r, std::vector<std::string> &args)
{
    Shape s; for (int i = int(r.below(3)); i--;) { static const uint32_t R[][2] = {{1, 1}, {1, 2}, {2, 1}, {3, 1}, {2, 3}, {3, 2}, {1, 3}, {5, 1}}; auto &x = R[r.below(8)]; s.clocks.push_back({x[0], x[1]}); }
    size_t n = size_t(r.range(1, 3)); for (size_t i = 0; i < n; ++i) s.clk.push_back(unsigned(r.below(s.clocks.size() + 1)));
    uint32_t limit = uint32_t(r.range(5, 120));
    for (size_t i = 0; i < n; ++i) { auto p = [&](const char *k, uint64_t v) { args.insert(args.end(), {"-p", "top." + nm(i) + ".params." + k, std::to_string(v)}); }; p("id", i); p("seed", r.next()); p("limit", r.chance(1, 4) ? uint64_t(r.range(1, 20)) : limit); p("gap", uint64_t(r.range(1, 6))); p("step", uint64_t(r.range(1, 4))); }
    if (r.chance(1, 4)) args.insert(args.end(), {"-r", std::to_string(r.range(1, 300))});
    return s;
}
VF_SECTION(descriptors, 260, 4000)
{
    auto &r = ctx.rng; std::vector<std::string> args{"model"}; Shape s = shape(r, args); size_t n = s.clk.size();
    // What to report. Each definition lists the window of the tick and of every counter in reach.
    std::string all = "content:\n  top:\n    ua.stats.now: now\n", top = "content:\n  ua.stats.now: now\n", own = "content:\n  stats.now: now\n  stats.c0: x0\n  stats.c1: x1\n  stats.mix: x2\n";
    for (size_t i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) { std::string p = nm(i) + ".stats." + (k == 2 ? "mix" : "c" + std::to_string(k)) + ": " + char('a' + i) + std::to_string(k) + "\n"; all += "    " + p; top += "  " + p; }
    std::vector<Rep> reps; std::ostringstream y; y << "content:\n"; bool notifs = r.chance(1, 2);
    for (int q = int(r.range(1, 4)); q--;) {
        Rep p; static const char *const F[] = {"csv", "csv", "csv_cumulative", "txt", "json_reduced"}; p.format = F[r.below(5)]; size_t id = reps.size();
        switch (r.below(4)) { case 0: p.pattern = "_global"; p.def = "all.def"; break; case 1: p.pattern = "top"; p.def = "top.def"; break; case 2: p.unit = int(r.below(n)); p.pattern = "top." + nm(size_t(p.unit)); p.def = "own.def"; break; default: p.pattern = "top.u*"; p.unit = -2; p.def = "own.def"; }
        p.dest = "rep" + std::to_string(id) + (p.unit == -2 ? ".%l" : "") + "." + p.format; p.cmd = r.chance(1, 5);
        if (p.cmd) { args.insert(args.end(), {"--report", p.pattern, p.def, p.dest, p.format}); reps.push_back(p); continue; }
        y << "  report:\n    pattern: " << p.pattern << "\n    def_file: " << p.def << "\n    dest_file: " << p.dest << "\n    format: " << p.format << "\n"; std::ostringstream t;
        if (r.chance(1, 2)) {
            p.hasStart = true; std::vector<size_t> tagged; for (size_t i = 0; i < id; ++i) if (reps[i].tag.size() && reps[i].hasStart) tagged.push_back(i);
            if (tagged.size() && r.chance(1, 2)) { p.start.refRep = int(r.pick(tagged)); p.start = reps[size_t(p.start.refRep)].start; p.start.ref = reps[tagged[0]].tag + ".start"; p.start.t = reps[tagged[0]].start.t; p.start.conj = reps[tagged[0]].start.conj; ctx.count("start by tag"); }
            else { p.start.conj = r.chance(1, 2); for (int k = r.chance(1, 3) ? 2 : 1; k--;) p.start.t.push_back(term(r, s, notifs, 1, 80)); }
            t << "      start: \"" << text(p.start) << "\"\n";
        }
        if (r.chance(1, 3)) { p.hasStop = true; p.stop.conj = r.chance(1, 2); for (int k = r.chance(1, 4) ? 2 : 1; k--;) p.stop.t.push_back(term(r, s, false, 40, 200)); t << "      stop: \"" << text(p.stop) << "\"\n"; }
        if (r.chance(1, 3)) { p.tag = "t" + std::to_string(id); t << "      tag: " << p.tag << "\n"; }
        if (p.csv() && r.chance(4, 5)) switch (p.upd = Upd(1 + r.below(4)); p.upd) {
            case CYCLES: p.n = uint64_t(r.range(1, 60)); t << "      update-cycles: "; if (s.clocks.size() && r.chance(1, 2)) { p.clk = int(r.below(s.clocks.size())); t << "clk" << char('a' + p.clk) << " "; } t << p.n << "\n"; break;
            case TIME: p.n = uint64_t(r.range(1, 200)); if (r.chance(1, 6)) { t << "      update-time: 1 ns\n"; p.n = 1000; } else t << "      update-time: " << p.n << " ps\n"; break;
            case COUNT: p.u = unsigned(r.below(n)); p.k = unsigned(r.below(2)); p.n = uint64_t(r.range(1, 30)); p.noalign = r.chance(1, 3); t << "      update-count: \"top." << nm(p.u) << ".stats.c" << p.k << " " << p.n << (p.noalign ? " noalign" : r.chance(1, 3) ? " align" : "") << "\"\n"; break;
            default: p.wh = {false, 0, 0, unsigned(r.below(6)), r.below(8)}; t << "      update-whenever: \"" << text(p.wh) << "\"\n";
        }
        if (t.str().size()) y << "    trigger:\n" << t.str();
        reps.push_back(p);
    }
    bool any = false; for (auto &p : reps) any |= !p.cmd; if (any) args.insert(args.end(), {"--report", "desc.yaml"}); if (r.chance(1, 5)) args.push_back("--verbose-report-triggers");
    ctx.op([&](std::ostream &o) { o << "clocks"; for (auto &c : s.clocks) o << " " << c.first << "/" << c.second; o << " on"; for (auto c : s.clk) o << " " << c; for (auto &b : args) o << " " << b; o << "\n" << y.str(); });
    // Run.
    std::string d = ctx.scratch + "/descriptors"; fs::remove_all(d); fs::create_directories(d); fs::path back = fs::current_path(); fs::current_path(d);
    std::ofstream("desc.yaml") << y.str(); std::ofstream("all.def") << all; std::ofstream("top.def") << top; std::ofstream("own.def") << own;
    Done o; run(o, s, args); World &world = o.world; auto &period = o.period, &cperiod = o.cperiod; uint64_t end = o.end, rootp = o.rootp; std::string &error = o.error;
    fs::current_path(back); VF_CHECK(ctx, error.empty(), "error " + error.substr(0, 60), error); ctx.count("increments", world.incs.size()); for (auto &i : world.incs) ctx.obs(i.tick, i.unit, i.ctr, i.val);
    // Judge.
    Hist h{world, end, period};
    for (size_t id = 0; id < reps.size(); ++id) {
        Rep &p = reps[id]; Pt S{0, 0}, E{world.seq, end}; bool stopped = false; if (p.hasStart) S = when(h, p.start, {0, 0});
        if (p.hasStop) { Pt e = when(h, p.stop, {0, 0}); if (!e.never()) { if (!S.never() && e.seq >= S.seq && e.tick > S.tick) { E = e; stopped = true; } else { ctx.count("stopped before the start"); continue; } } }
        // The points at which rows end.
        std::vector<Pt> pts; bool started = !S.never(); if (!started) S = E;
        const Pt fin = E;
        if (started) switch (p.upd) {
            case CYCLES: { uint64_t per = p.clk >= 0 ? cperiod[size_t(p.clk)] : p.unit >= 0 ? period[size_t(p.unit)] : rootp, st = p.n * per; for (uint64_t t = S.tick + st; t <= E.tick; t += st) pts.push_back(h.trig(t)); break; }
            case TIME: for (uint64_t t = S.tick + p.n; t <= E.tick; t += p.n) pts.push_back(h.trig(t)); break;
            case COUNT: { uint64_t off = h.value(p.u, p.k, S.seq), target = p.noalign ? off + p.n : (off / p.n + 1) * p.n; Pt at = S; while (true) { Pt q = h.reached(p.u, p.k, target, at.tick); if (q.never() || q.tick > E.tick) break; pts.push_back(q); uint64_t v = h.value(p.u, p.k, q.seq); while (target <= v) target += p.n; at = q; } break; }
            case WHENEVER: { uint64_t from = S.seq; while (true) { Pt q = h.posted(p.wh.op, p.wh.v, from); if (q.never() || q.seq >= E.seq) break; pts.push_back(q); from = q.seq + 1; } break; }
            default: break;
        }
        pts.push_back(fin);
        std::vector<int> units; if (p.unit == -2) for (size_t i = 0; i < n; ++i) units.push_back(int(i)); else units.push_back(p.unit);
        for (int u : units) {
            std::string file = p.dest; if (auto a = file.find("%l"); a != file.npos) file.replace(a, 2, "top." + nm(size_t(u))); VF_CHECK(ctx, fs::exists(d + "/" + file), "file", "no report file " << file); std::string txt = slurp(d + "/" + file); ctx.count("files");
            std::vector<std::pair<unsigned, unsigned>> cols; std::vector<std::string> names{"now"}; for (unsigned i = 0; i < n; ++i) for (unsigned k = 0; k < 3; ++k) if (u < 0 || unsigned(u) == i) { cols.push_back({i, k}); names.push_back((u < 0 ? std::string(1, char('a' + i)) : std::string("x")) + std::to_string(k)); }
            auto want = [&](Pt a, Pt b) { std::vector<uint64_t> v{b.tick - a.tick}; for (auto &c : cols) v.push_back(h.value(c.first, c.second, b.seq) - h.value(c.first, c.second, a.seq)); return v; };
            auto str = [&](const std::vector<uint64_t> &v) { std::string o; for (auto x : v) o += (o.empty() ? "" : ",") + std::to_string(x); return o; };
            auto nul = [](const std::vector<uint64_t> &v) { for (auto x : v) if (x) return false; return true; };
            std::string who = file + (p.cmd ? " (command line)" : "") + ": ";
            if (!p.csv()) {
                auto w = want(S, fin); std::vector<uint64_t> g; for (auto &nme : names) { std::smatch m; VF_CHECK(ctx, std::regex_search(txt, m, std::regex("\\b" + nme + "\"?\\s*[=:]\\s*([0-9]+)")), "value-missing", who << nme << " is not in\n" << txt); g.push_back(std::stoull(m[1])); }
                VF_EQ(ctx, str(g), str(w), "values/" + p.format, who + "the values of the window from tick " + std::to_string(S.tick) + " to " + std::to_string(fin.tick)); ctx.count("windows"); continue;
            }
            bool cum = p.format == "csv_cumulative"; std::vector<std::vector<uint64_t>> got, exp; std::istringstream in(txt); std::string line; bool head = false;
            while (std::getline(in, line)) { if (line.empty() || line[0] == '#') continue; if (!head) { std::string hd; for (auto &x : names) hd += (hd.empty() ? "" : ",") + x; VF_EQ(ctx, line, hd, "csv/header", who + "columns"); head = true; continue; } std::vector<uint64_t> v; std::istringstream f(line); std::string x; while (std::getline(f, x, ',')) { VF_CHECK(ctx, x.size() && x.find_first_not_of("0123456789") == x.npos, "csv/number", who << "'" << x << "' in row '" << line << "'"); v.push_back(std::stoull(x)); } got.push_back(v); }
            VF_CHECK(ctx, head, "csv/header-missing", who << txt);
            Pt a = S; for (auto &b : pts) { exp.push_back(want(cum ? S : a, b)); a = b; }
            // Rows at one and the same point (an update where the report ends or starts) may be one or several.
            auto clean = [&](std::vector<std::vector<uint64_t>> v) { std::vector<std::vector<uint64_t>> o; for (auto &x : v) if (!nul(x) && !(cum && o.size() && o.back() == x)) o.push_back(x); return o; };
            auto g = clean(got), w = clean(exp); ctx.count("rows", g.size()); std::string gs, ws; for (auto &x : g) gs += str(x) + "\n"; for (auto &x : w) ws += str(x) + "\n";
            static const char *const UN[] = {"none", "cycles", "time", "count", "whenever"};
            VF_EQ(ctx, gs, ws, std::string("rows/") + UN[p.upd] + (p.hasStart ? "/start" : "") + (stopped ? "/stop" : "") + (cum ? "/cumulative" : ""), who + "the rows (columns are the elapsed ticks and the counters)");
            VF_CHECK(ctx, got.size() <= exp.size() + 1, "rows/extra", who << got.size() << " rows, expected " << exp.size()); ctx.count(std::string("updates by ") + UN[p.upd]);
        }
    }
    if (!getenv("KEEP")) fs::remove_all(d);
}
// Subreports that start and stop by triggers of their own: each covers its own window in the report written at the end.
VF_SECTION(subreports, 130, 2500)
{
    auto &r = ctx.rng; std::vector<std::string> args{"model"}; Shape s = shape(r, args); size_t n = s.clk.size(); bool global = r.chance(1, 2), notifs = r.chance(1, 2);
    static const char *const F[] = {"txt", "json_reduced", "csv"}; std::string format = F[r.below(3)], pre = global ? "top." : ""; struct Sub { Cond start, stop; bool hasStart = false, hasStop = false, never = false; std::string tag; std::vector<unsigned> u; }; std::vector<Sub> subs; std::ostringstream y; y << "content:\n";
    auto expr = [&](const Cond &c) { std::string t = text(c); if (!global) for (size_t a; (a = t.find("top.")) != t.npos;) t.erase(a, 4); return t; };
    for (int q = int(r.range(1, 5)); q--;) {
        Sub b; size_t id = subs.size(); y << "  subreport:\n    name: s" << id << "\n"; std::ostringstream t; std::vector<size_t> st, sp; for (size_t i = 0; i < id; ++i) if (subs[i].tag.size()) { if (subs[i].hasStart) st.push_back(i); if (subs[i].hasStop) sp.push_back(i); }
        auto cond = [&](Cond &c, bool start) {
            auto &v = start ? st : sp; if (v.size() && r.chance(1, 3)) { size_t i = r.pick(v); c = start ? subs[i].start : subs[i].stop; c.ref = subs[i].tag + (start ? ".start" : ".stop"); ctx.count("tags"); return; }
            c.conj = r.chance(1, 2); for (int k = r.chance(1, 3) ? 2 : 1; k--;) c.t.push_back(start ? term(r, s, notifs, 1, 60) : term(r, s, false, 50, 200));
        };
        if (r.chance(2, 3)) { b.hasStart = true; cond(b.start, true); t << "      start: \"" << expr(b.start) << "\"\n"; }
        if (r.chance(1, 2)) { b.hasStop = true; cond(b.stop, false); t << "      stop: \"" << expr(b.stop) << "\"\n"; }
        if (t.str().size() && r.chance(1, 2)) { b.tag = "t" + std::to_string(id); t << "      tag: " << b.tag << "\n"; }
        if (t.str().size()) y << "    trigger:\n" << t.str();
        y << "    content:\n"; for (unsigned i = 0; i < n; ++i) if (b.u.empty() ? i + 1 == n || r.chance(1, 2) : r.chance(1, 2)) { b.u.push_back(i); y << "      " << pre << nm(i) << ".stats:\n"; const char *C[] = {"c0", "c1", "mix", "now"}; for (int k = 0; k < 4; ++k) y << "        " << C[k] << ": q" << id << char('a' + i) << k << "\n"; }
        subs.push_back(b);
    }
    std::string desc; if (r.chance(1, 2)) { desc = std::string("content:\n  report:\n    pattern: ") + (global ? "_global" : "top") + "\n    def_file: sub.def\n    dest_file: out.rep\n    format: " + format + "\n"; args.insert(args.end(), {"--report", "desc.yaml"}); } else args.insert(args.end(), {"--report", global ? "_global" : "top", "sub.def", "out.rep", format});
    ctx.op([&](std::ostream &o) { o << "clocks"; for (auto &c : s.clocks) o << " " << c.first << "/" << c.second; o << " on"; for (auto c : s.clk) o << " " << c; for (auto &b : args) o << " " << b; o << "\n" << y.str(); });
    std::string d = ctx.scratch + "/subreports"; fs::remove_all(d); fs::create_directories(d); fs::path back = fs::current_path(); fs::current_path(d); std::ofstream("desc.yaml") << desc; std::ofstream("sub.def") << y.str();
    Done o; run(o, s, args); fs::current_path(back); VF_CHECK(ctx, o.error.empty(), "error " + o.error.substr(0, 60), o.error); ctx.count("increments", o.world.incs.size()); for (auto &i : o.world.incs) ctx.obs(i.tick, i.unit, i.ctr, i.val);
    Hist h{o.world, o.end, o.period}; VF_CHECK(ctx, fs::exists(d + "/out.rep"), "file", "no report"); std::string txt = slurp(d + "/out.rep"); ctx.count("files");
    std::map<std::string, uint64_t> got;
    if (format == "csv") {
        std::istringstream in(txt); std::string line, head, row; while (std::getline(in, line)) if (line.size() && line[0] != '#') { if (head.empty()) head = line; else { VF_CHECK(ctx, row.empty(), "csv/rows", "more than one row:\n" << txt); row = line; } }
        std::istringstream a(head), b(row); std::string x, v; while (std::getline(a, x, ',')) { VF_CHECK(ctx, std::getline(b, v, ',') && v.size() && v.find_first_not_of("0123456789") == v.npos, "csv/number", "column " << x << " holds '" << v << "'\n" << txt); got[x.substr(x.rfind('.') + 1)] = std::stoull(v); }
    } else { std::regex e("\\b(q[0-9][a-z][0-9])\"?\\s*[=:]\\s*([0-9]+)"); for (std::sregex_iterator i(txt.begin(), txt.end(), e), z; i != z; ++i) got[(*i)[1]] = std::stoull((*i)[2]); }
    for (size_t id = 0; id < subs.size(); ++id) {
        Sub &b = subs[id]; Pt S{0, 0}, E{h.w.seq, h.end}; if (b.hasStart) S = when(h, b.start, {0, 0}); if (S.never() || S.tick >= h.end) { ctx.count("never started"); continue; }
        if (b.hasStop) { Pt e = when(h, b.stop, {0, 0}); if (!e.never()) { if (e.tick > S.tick) E = e; else { ctx.count("stopped before the start"); continue; } } }
        for (unsigned u : b.u) for (unsigned k = 0; k < 4; ++k) {
            std::string nme = "q" + std::to_string(id) + char('a' + u) + std::to_string(k); VF_CHECK(ctx, got.count(nme), "missing", nme << " is not in\n" << txt);
            VF_EQ(ctx, got[nme], k == 3 ? E.tick - S.tick : h.value(u, k, E.seq) - h.value(u, k, S.seq), "value/" + format + (b.hasStart ? "/start" : "") + (b.hasStop ? "/stop" : "") + (k < 2 ? "/counter" : k == 2 ? "/statistic" : "/ticks"), nme << " of the window from tick " << S.tick << " to " << E.tick << " in\n" << txt);
        }
        ctx.count("windows");
    }
    if (!getenv("KEEP")) fs::remove_all(d);
}
} // namespace
