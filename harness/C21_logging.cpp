// C21: log messages against a plain list of taps: which destinations get each message, once, in which format; the counts of taps, destinations and sources; taps described to a simulation.
#include "simenv.hpp"
#include "sparta/log/MessageSource.hpp"
#include "sparta/log/Tap.hpp"
#include "sparta/log/Destination.hpp"
#include "sparta/app/Simulation.hpp"
#include "sparta/app/SimulationConfiguration.hpp"
#include "sparta/parsers/ConfigEmitterYAML.hpp"
#include <fstream>
#include <regex>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
using namespace sparta;
namespace {
const char *CATS[] = {"info", "debug", "warning", "inform", "d_bug", "x", "infox"};
bool glob(const char *p, const char *s)
{
    if (!*p) return !*s;
    if (*p == '*') { for (;; ++s) { if (glob(p + 1, s)) return true; if (!*s) return false; } }
    if (*p == '?') return glob(p + 1, s) || (*s && glob(p + 1, s + 1));
    if (*p == '+') { if (!*s) return false; return glob(p + 1, s + 1) || glob(p, s + 1); }
    return *p == *s && glob(p + 1, s + 1);
}
std::vector<std::string> split(const std::string &n, char sep) { std::vector<std::string> v; std::string c; for (char ch : n) { if (ch == sep) { v.push_back(c); c.clear(); } else if (ch != ' ' && ch != '\t') c += ch; } v.push_back(c); return v; }
bool matches(const std::string &spec, const std::string &name) { for (auto &p : split(spec, ',')) if (p.empty() || glob(p.c_str(), name.c_str())) return true; return false; }
// Destinations live as long as the process, so they are shared by all cases; a case looks only at what was added since.
struct Dest { enum Fmt { Default, Basic, Raw, Verbose } fmt; std::string file; std::ostringstream *os = nullptr; size_t pos = 0; uint64_t rec = 0, wr = 0; const log::Destination *d = nullptr;
    std::string fresh() { if (os) { auto s = os->str(); os->str(""); return s; } std::ifstream in(file, std::ios::binary); if (!in) return ""; in.seekg(0, std::ios::end); size_t end = size_t(in.tellg()); in.seekg(std::streamoff(pos)); std::string s(end - pos, 0); in.read(&s[0], std::streamsize(s.size())); pos = end; return s; } };
std::vector<Dest> &pool(vf::Ctx &ctx)
{
    static std::vector<Dest> P;
    if (P.empty()) {
        std::string d = ctx.scratch + "/log" + std::to_string(getpid()); mkdir(d.c_str(), 0700); mkdir((d + "/y.log.raw").c_str(), 0700);
        auto f = [&](const std::string &n, Dest::Fmt m) { Dest x; x.fmt = m; x.file = d + "/" + n; P.push_back(x); };
        f("a.log", Dest::Default); f("b.log.basic", Dest::Basic); f("c.log.verbose", Dest::Verbose); f("d.log.raw", Dest::Raw); f("e.txt", Dest::Default); f("y.log.raw/f.log.raw", Dest::Raw); f("g.log.raw.log.raw", Dest::Raw); f("h.log.basic.txt", Dest::Default);
        for (int i = 0; i < 2; ++i) { Dest x; x.fmt = Dest::Default; x.os = new std::ostringstream; P.push_back(x); }
    }
    return P;
}
log::Destination *real(const Dest &d) { for (auto &x : log::DestinationManager::getDestinations()) if (d.os ? x->compareOstreams(*d.os) : x->compareStrings(d.file)) return x.get(); return nullptr; }
std::string strip(const std::string &s) { std::string r; for (char c : s) if (c != '\n') r += c; return r; }
std::string pad(uint64_t v, size_t w) { auto s = std::to_string(v); return s.size() >= w ? s : std::string(w - s.size(), '0') + s; }
std::string line(const Dest &d, const std::string &loc, const std::string &cat, const std::string &txt, uint64_t tick, bool clk, uint64_t cyc)
{
    std::string t = strip(txt), c = clk ? pad(cyc, 8) : "--------";
    switch (d.fmt) { case Dest::Raw: return t + "\n"; case Dest::Basic: return loc + ": " + cat + ": " + t + "\n"; case Dest::Default: return "{" + pad(tick, 10) + " " + c + " " + loc + " " + cat + "} " + t + "\n"; default: return "{" + pad(tick, 8) + " " + c + " T 0x00 S " + loc + " " + cat + "} " + t + "\n"; }
}
// wall time and sequence number of the verbose format are checked for their shape and order
std::string normal(vf::Ctx &ctx, const Dest &d, const std::string &got, int64_t &lastSeq)
{
    if (d.fmt != Dest::Verbose || got.empty()) return got; static const std::regex re("^(\\{[0-9]+ [-0-9]+ )([0-9]+\\.[0-9]{4}) (0x00) 0x([0-9a-f]{8,}) "); std::smatch m;
    VF_CHECK(ctx, std::regex_search(got, m, re), "verbose_shape", got); int64_t seq = std::stoll(m[4].str(), nullptr, 16); VF_CHECK(ctx, seq > lastSeq, "sequence", "sequence " << seq << " follows " << lastSeq); lastSeq = seq; return m[1].str() + "T 0x00 S " + got.substr(size_t(m[0].length()));
}
struct T { std::unique_ptr<log::Tap> t; int node; std::string cat; int dest; uint64_t n = 0; };
struct S { std::unique_ptr<log::MessageSource> s; int node; std::string cat; uint64_t n = 0; };
struct N { int parent = -1; std::unique_ptr<TreeNode> own; TreeNode *p = nullptr; bool priv = false; };
const int VG = -2, OFF = -3;
struct World {
    vf::Ctx &ctx; vf::Env env; std::vector<N> n; std::vector<S> src; std::vector<T> taps; std::vector<Dest> &D; std::vector<uint64_t> rec, wr, rec0, wr0; int64_t lastSeq = -1; bool fin = false;
    World(vf::Ctx &c) : ctx(c), D(pool(c)) { n.emplace_back(); n[0].p = &env.rtn; for (auto &d : D) { d.fresh(); auto *r = real(d); rec0.push_back(r ? r->getNumMessagesReceived() : 0); wr0.push_back(r ? r->getNumMessagesWritten() : 0); } rec.resize(D.size()); wr.resize(D.size()); }
    ~World() { taps.clear(); env.rtn.enterTeardown(); src.clear(); while (n.size() > 1) n.pop_back(); }
    bool under(int x, int a) { if (a == VG) return true; if (a == OFF) return false; for (; x >= 0; x = n[x].parent) if (x == a) return true; return false; }
    TreeNode *at(int i) { return i == VG ? TreeNode::getVirtualGlobalNode() : n[i].p; }
    bool hit(const T &t, const S &s) { return t.t && under(s.node, t.node) && matches(t.cat, s.cat); }
    std::string cat() { auto one = [&] { std::string s = CATS[ctx.rng.below(7)]; switch (ctx.rng.below(6)) { case 0: return s.substr(0, 1) + "*"; case 1: return "*" + s.substr(1); case 2: return s + "?"; default: return s; } }; switch (ctx.rng.below(6)) { case 0: return std::string(); case 1: return one() + ", " + one(); default: return one(); } }
    int where() { return ctx.rng.chance(1, 6) ? VG : int(ctx.rng.below(n.size())); }
    void addTap() {
        T t; t.node = ctx.rng.chance(1, 8) ? OFF : where(); t.cat = cat(); t.dest = int(ctx.rng.below(D.size())); auto &d = D[t.dest]; bool fresh = !real(d); ctx.op("tap", t.node, t.cat, d.os ? "stream" : d.file);
        if (t.node == OFF) { if (d.os) { std::ostream &o = *d.os; t.t.reset(new log::Tap(t.cat, o)); } else t.t.reset(new log::Tap(t.cat, d.file)); }
        else if (d.os) { std::ostream &o = *d.os; t.t.reset(new log::Tap(at(t.node), t.cat, o)); } else if (ctx.rng.chance(1, 3)) { const char *f = d.file.c_str(); t.t.reset(new log::Tap(at(t.node), t.cat, f)); } else t.t.reset(new log::Tap(at(t.node), t.cat, d.file));
        VF_CHECK(ctx, t.t->getDestination() == real(d) && real(d), "destination_shared", "tap uses another destination object for " << d.file); if (fresh) { auto h = d.fresh(); for (auto &l : split(h, '\n')) VF_CHECK(ctx, l.empty() || l[0] == '#', "header", l); }
        VF_EQ(ctx, t.t->getCategoryName(), t.cat, "tap_category", ""); taps.push_back(std::move(t)); ctx.count("taps"); }
    void moveTap() { if (taps.empty()) return; size_t i = ctx.rng.below(taps.size()); auto &t = taps[i]; switch (ctx.rng.below(4)) { case 0: ctx.op("destroy", i); taps.erase(taps.begin() + long(i)); break; case 1: ctx.op("detach", i); t.t->detach(); t.node = OFF; VF_CHECK(ctx, t.t->isObservedNodeExpired(), "detached", "a detached tap reports a node"); break; default: t.node = where(); ctx.op("reset", i, t.node); t.t->reset(at(t.node)); } ctx.count("tap_changes"); }
    void addNode() { if (n.size() > 12) return; int par = ctx.rng.chance(1, 4) ? -1 : int(ctx.rng.below(n.size())); std::string nm = "n" + std::to_string(n.size()) + "_"; ctx.op("node", nm, par); N d; d.own.reset(new TreeNode(nm, "d")); d.p = d.own.get(); d.parent = par; if (par >= 0) n[par].p->addChild(d.p); n.push_back(std::move(d)); }
    void attach() { std::vector<int> l; for (size_t i = 1; i < n.size(); ++i) if (n[i].parent < 0) l.push_back(int(i)); if (l.empty()) return; int c = ctx.rng.pick(l), p; do p = int(ctx.rng.below(n.size())); while (under(p, c)); ctx.op("attach", c, p); n[p].p->addChild(n[c].p); n[c].parent = p; }
    void addSrc() { if (src.size() > 14) return; S s; s.node = int(ctx.rng.below(n.size())); s.cat = CATS[ctx.rng.below(7)]; ctx.op("source", s.node, s.cat); if (ctx.rng.chance(1, 2)) s.s.reset(new log::MessageSource(n[s.node].p, s.cat, "d")); else s.s.reset(new log::MessageSource(n[s.node].p, StringManager::getStringManager().internString(s.cat), "d")); src.push_back(std::move(s)); }
    void hide() { int i = int(ctx.rng.below(n.size())); if (!i || n[i].priv) return; ctx.op("private", i); n[i].p->makeSubtreePrivate(); n[i].priv = true; ctx.count("private"); }
    std::string text() { switch (ctx.rng.below(8)) { case 0: return ""; case 1: return std::string(ctx.rng.below(3000), 'z'); case 2: return "two\nlines\n"; case 3: return "{}%s\\n\t\"quoted\", #x"; case 4: { std::string s; for (int i = 0; i < 12; ++i) s += char(1 + ctx.rng.below(255)); return s; } case 5: return std::string("nul\0inside", 10); default: return "m" + std::to_string(ctx.rng.next()); } }
    void check(S &s) { bool en = false; for (auto &t : taps) en |= hit(t, s); VF_EQ(ctx, bool(*s.s), en, "enabled", "source of '" << s.cat << "' at " << s.s->getLocation()); VF_EQ(ctx, s.s->getNumEmitted(), s.n, "emitted", ""); }
    void emit() {
        if (src.empty()) return; S &s = src[ctx.rng.below(src.size())]; check(s); std::string txt = text(), t2; uint64_t tick = env.sched.getCurrentTick(); bool clk = s.s->getClock() != nullptr; if (!clk) tick = 0; int how = int(ctx.rng.below(6)); std::string loc = s.node == 0 || under(s.node, 0) ? std::string() : n[s.node].p->getLocation();
        if (loc.empty()) { for (int x = s.node; x >= 0; x = n[x].parent) loc = (x == 0 ? std::string("top") : n[x].p->getName()) + (loc.empty() ? "" : ".") + loc; }
        ctx.op("emit", how, loc, s.cat, txt.size()); bool sent = true; uint32_t num = uint32_t(ctx.rng.next());
        switch (how) { case 0: *s.s << txt; break; case 1: s.s->emit(txt) << " n=" << std::hex << num; { std::ostringstream o; o << txt << " n=" << std::hex << num; txt = o.str(); } break; case 2: { auto o = s.s->emit(txt); if (ctx.rng.chance(1, 2)) { o.cancel(); sent = false; } break; } case 3: *s.s << std::hex << num << ' ' << txt; { std::ostringstream o; o << std::hex << num << ' ' << txt; txt = o.str(); } break; case 4: if (*s.s) *s.s << txt; else sent = false; break; default: s.s->emit(std::string(txt)); }
        if (sent) s.n++; std::vector<char> to(D.size(), 0); if (sent) for (auto &t : taps) if (hit(t, s)) { t.n++; rec[t.dest]++; to[t.dest] = 1; }
        for (size_t i = 0; i < D.size(); ++i) { auto got = D[i].fresh(); auto g = normal(ctx, D[i], got, lastSeq); wr[i] += to[i]; auto want = to[i] ? line(D[i], loc, s.cat, txt, tick, clk, tick) : ""; if (to[i]) { VF_CHECK(ctx, !got.empty(), "lost", "no message at " << i << " from " << loc << " '" << s.cat << "'"); VF_EQ(ctx, g, want, "text", "destination " << i); ctx.count("delivered"); } else VF_EQ(ctx, got, "", "stray", "destination " << i << " got a message from " << loc << " '" << s.cat << "'"); auto *r = real(D[i]); if (r) { VF_EQ(ctx, r->getNumMessagesReceived() - rec0[i], rec[i], "received", i); VF_EQ(ctx, r->getNumMessagesWritten() - wr0[i], wr[i], "written", i); VF_EQ(ctx, r->getNumMessageDuplicates() , r->getNumMessagesReceived() - r->getNumMessagesWritten(), "duplicates", i); } }
        for (auto &t : taps) VF_EQ(ctx, t.t->getNumMessages(), t.n, "tap_count", t.cat); ctx.count("emitted"); ctx.obs(s.cat, s.n, to[0]); }
    // the scheduler logs too: what it wrote is none of this model's business
    void resync() { for (size_t i = 0; i < D.size(); ++i) { D[i].fresh(); if (auto *r = real(D[i])) { rec0[i] = r->getNumMessagesReceived() - rec[i]; wr0[i] = r->getNumMessagesWritten() - wr[i]; } } for (auto &t : taps) t.n = t.t->getNumMessages(); }
    void streamState() { for (auto &d : D) if (d.os) { *d.os << std::setw(4) << 7 << '|' << std::setw(3) << "x"; VF_EQ(ctx, d.fresh(), "   7|  x", "stream_state", "the format state of the user's stream after messages were logged to it"); } }
};
void logs(vf::Ctx &ctx)
{
    Quiet q; World w(ctx); for (int i = 0, k = int(ctx.rng.range(0, 6)); i < k; ++i) w.addNode(); for (int i = 0, k = int(ctx.rng.range(0, 6)); i < k; ++i) w.addSrc(); bool run = ctx.rng.chance(1, 2);
    for (int i = 0, k = int(ctx.rng.range(20, 80)); i < k; ++i) switch (ctx.rng.below(14)) { case 0: if (!w.fin) w.addNode(); break; case 1: if (!w.fin) w.attach(); break; case 2: if (!w.fin) w.addSrc(); break; case 3: case 4: if (w.taps.size() < 10) w.addTap(); break; case 5: case 6: w.moveTap(); break; case 7: if (!w.fin && ctx.rng.chance(1, 4)) w.hide(); break; case 8: if (run && !w.fin && ctx.rng.chance(1, 4)) { w.env.finalize(); w.fin = true; } if (w.fin) w.env.sched.run(1 + ctx.rng.below(2000), true, false); w.resync(); break; case 9: for (auto &s : w.src) w.check(s); break; default: w.emit(); }
    w.streamState();
    // taps outlive the tree they observe
    if (ctx.rng.chance(1, 3)) { std::vector<T> keep; keep.swap(w.taps); w.env.rtn.enterTeardown(); w.src.clear(); while (w.n.size() > 1) { int v = w.n.back().p == nullptr; (void)v; w.n.pop_back(); } for (auto &t : keep) if (t.node > 0) VF_CHECK(ctx, t.t->isObservedNodeExpired(), "expired", "a tap whose node is gone reports it present"); keep.clear(); }
}
struct Sim : app::Simulation {
    vf::Ctx &ctx; std::vector<std::unique_ptr<TreeNode>> nodes; std::vector<std::unique_ptr<log::MessageSource>> src; std::vector<std::string> loc;
    Sim(vf::Ctx &c, Scheduler *s) : app::Simulation("sim", s), ctx(c) {}
    ~Sim() { getRoot()->enterTeardown(); }
    void buildTree_() override {
        // nodes are added top-down, or as a subtree built first
        static const char *const NM[] = {"core0", "core1", "fpu", "l2", "cpu"}; std::vector<TreeNode *> all{getRoot()}; int k = int(ctx.rng.range(1, 7));
        for (int i = 0; i < k; ++i) { TreeNode *p = ctx.rng.pick(all); std::string nm = NM[ctx.rng.below(5)]; bool has = false; for (auto *c : p->getChildren()) has |= c->getName() == nm; if (has) continue; if (ctx.rng.chance(1, 3)) { nodes.emplace_back(new TreeNode(nm, "d")); TreeNode *t = nodes.back().get(); nodes.emplace_back(new TreeNode(t, "sub_x", "d")); all.push_back(nodes.back().get()); if (ctx.rng.chance(1, 2)) src.emplace_back(new log::MessageSource(nodes.back().get(), CATS[ctx.rng.below(7)], "d")); if (ctx.rng.chance(1, 2)) src.emplace_back(new log::MessageSource(t, CATS[ctx.rng.below(7)], "d")); p->addChild(t); all.push_back(t); } else { nodes.emplace_back(new TreeNode(p, nm, "d")); all.push_back(nodes.back().get()); } }
        for (int i = 0, m = int(ctx.rng.range(1, 8)); i < m; ++i) src.emplace_back(new log::MessageSource(ctx.rng.pick(all), CATS[ctx.rng.below(7)], "d")); }
    void configureTree_() override {}
    void bindTree_() override {}
};
bool pathMatch(const std::vector<std::string> &pat, const std::vector<std::string> &path) { if (pat.size() != path.size()) return false; for (size_t i = 0; i < pat.size(); ++i) if (!glob(pat[i].c_str(), path[i].c_str())) return false; return true; }
void simtaps(vf::Ctx &ctx)
{
    Quiet q; auto &P = pool(ctx); auto &r = ctx.rng; Scheduler sched; app::SimulationConfiguration sc; struct D { std::string pat, cat; int dest; }; std::vector<D> ds;
    auto word = [&] { static const char *const W[] = {"core0", "core*", "*", "fpu", "c*", "l2", "sub_x", "core?", "core+", "cpu"}; return std::string(W[r.below(10)]); };
    for (int i = 0, k = int(r.range(1, 5)); i < k; ++i) { D d; d.pat = r.chance(1, 6) ? "" : r.chance(1, 8) ? "_global" : "top"; if (d.pat == "top") for (int j = 0, m = int(r.below(3)); j < m; ++j) d.pat += "." + word(); static const char *const C[] = {"", "info", "debug,info", "in*", "warning", "x"}; d.cat = C[r.below(6)]; d.dest = int(r.below(8)); ctx.op("enableLogging", d.pat, d.cat, P[d.dest].file); sc.enableLogging(d.pat, d.cat, P[d.dest].file); ds.push_back(d); }
    Sim sim(ctx, &sched); sim.configure(0, nullptr, &sc); sim.buildTree(); bool threw = false; std::string err; try { sim.configureTree(); sim.finalizeTree(); } catch (SpartaException &e) { threw = true; err = e.what(); }
    for (auto &d : P) d.fresh();
    std::vector<std::vector<std::string>> paths; std::function<void(TreeNode *, std::vector<std::string>)> walk = [&](TreeNode *t, std::vector<std::string> p) { if (t->getName().empty()) return; p.push_back(t->getName()); paths.push_back(p); for (auto *c : t->getChildren()) walk(c, p); }; walk(sim.getRoot(), {});
    bool unused = false; for (auto &d : ds) { if (d.pat.empty() || d.pat == "_global") continue; bool any = false; for (auto &p : paths) { auto q2 = p; any |= pathMatch(split(d.pat, '.'), p); } unused |= !any; } VF_EQ(ctx, threw, unused, "unused_tap", err);
    for (int i = 0; i < 25; ++i) { auto &s = *r.pick(sim.src); std::string cat = s.getCategoryName(), loc = s.getParent()->getLocation(), txt = "t" + std::to_string(r.next()); auto path = split(loc, '.');   // (a message source itself has no name for a pattern to match)
        std::vector<char> to(P.size(), 0); bool en = false; for (auto &d : ds) { if (!matches(d.cat, cat)) continue; bool m = d.pat.empty() || d.pat == "_global"; if (!m) { auto pt = split(d.pat, '.'); for (size_t l = 1; l <= path.size(); ++l) m |= pathMatch(pt, std::vector<std::string>(path.begin(), path.begin() + long(l))); } if (m) { to[d.dest] = 1; en = true; } }
        if (cat != "warning") VF_EQ(ctx, bool(s), en, "sim_enabled", loc << " '" << cat << "'"); ctx.op("emit", loc, cat, txt); s << txt; int64_t seq = -1;
        for (size_t k = 0; k < P.size(); ++k) { auto got = P[k].fresh(); auto g = normal(ctx, P[k], got, seq); seq = -1; VF_EQ(ctx, g, to[k] ? line(P[k], loc, cat, txt, 0, s.getParent()->getClock() != nullptr, 0) : "", to[k] ? "sim_lost" : "sim_stray", "destination " << P[k].file << " from " << loc << " '" << cat << "'"); if (to[k]) ctx.count("sim_delivered"); } ctx.count("sim_emitted"); ctx.obs(loc, cat); }
}
}
VF_SECTION(logs, 1500, 30000) { logs(ctx); }
VF_SECTION(simtaps, 300, 5000) { simtaps(ctx); }
