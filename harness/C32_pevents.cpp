// C32: performance events. Random collectors, selections (type, verbosity, node pattern, file), starts of collection and objects, against the
// list of events every file has to contain with their attributes and cycles; hand-formatted events against an independent rendering.
#include "simenv.hpp"
#include "sparta/pevents/NestedPeventCollector.hpp"
#include "sparta/pevents/PEventHelper.hpp"
#include "sparta/pevents/PeventCollector.hpp"
#include "sparta/pevents/PeventController.hpp"
#include "sparta/pevents/PeventTrigger.hpp"
#include "sparta/utils/MetaTypeList.hpp"
#include <fstream>
#include <map>
#include <sys/stat.h>
#include <unistd.h>
using namespace sparta;
namespace {
using Str = std::string;
enum class Hue { RED, GREEN, BLUE };
std::ostream &operator<<(std::ostream &o, const Hue &c) { static const char *const n[] = {"RED", "GREEN", "BLUE"}; return o << n[int(c)]; }
// ---- plain objects
struct Obj { uint16_t i; uint32_t k; uint64_t l; int32_t n; Str s; double d; bool b;
    uint16_t I() const { return i; } uint32_t K() const { return k; } uint64_t L() const { return l; } int32_t N() const { return n; } Str S() const { return s; } const Str &R() const { return s; } double D() const { return d; } bool B() const { return b; } };
struct ObjPairs : PairDefinition<Obj> { typedef Obj TypeCollected; ObjPairs() { addPEventsPair("ihex", &Obj::I, std::ios_base::hex); addPEventsPair("koct", &Obj::K, std::ios_base::oct); addPEventsPair("ldec", &Obj::L); addPEventsPair("lhex", &Obj::L, std::ios_base::hex); addPEventsPair("n", &Obj::N); addPEventsPair("s", &Obj::S); addPEventsPair("r", &Obj::R); addPEventsPair("d", &Obj::D); addPEventsPair("b", &Obj::B); } };
// ---- nested objects
struct D1; struct D2; struct D3;
struct Base { using derived_type_list = MetaTypeList::create_t<D1, D2, D3>; virtual ~Base() = 0; };
Base::~Base() {}
class InPairs; struct In { using SpartaPairDefinitionType = InPairs; uint16_t v; Str t; Hue c; uint16_t V() const { return v; } Str T() const { return t; } Hue C() const { return c; } };
class InPairs : public PairDefinition<In> { public: InPairs() { SPARTA_INVOKE_PAIRS(In); } SPARTA_REGISTER_PAIRS(SPARTA_ADDPAIR("in_v", &In::V), SPARTA_ADDPAIR("in_t", &In::T), SPARTA_ADDPAIR("in_c", &In::C)) };
class D1Pairs; struct D1 : Base { using SpartaPairDefinitionType = D1Pairs; uint16_t x; std::pair<uint64_t, Str> p; uint16_t X() const { return x; } std::pair<uint64_t, Str> P() const { return p; } };
class D1Pairs : public PairDefinition<D1> { public: D1Pairs() { SPARTA_INVOKE_PAIRS(D1); } SPARTA_REGISTER_PAIRS(SPARTA_ADDPAIR("d1_x", &D1::X, std::ios::hex), SPARTA_ADDPAIR("d1_p1", &D1::P), SPARTA_ADDPAIR("d1_p2", &D1::P)) };
class D2Pairs; struct D2 : Base { using SpartaPairDefinitionType = D2Pairs; uint32_t y; Hue c; uint32_t Y() const { return y; } Hue C() const { return c; } };
class D2Pairs : public PairDefinition<D2> { public: D2Pairs() { SPARTA_INVOKE_PAIRS(D2); } SPARTA_REGISTER_PAIRS(SPARTA_ADDPAIR("d2_y", &D2::Y, std::ios::oct), SPARTA_ADDPAIR("d2_c", &D2::C)) };
class D3Pairs; struct D3 : Base { using SpartaPairDefinitionType = D3Pairs; bool f; std::shared_ptr<In> in; bool F() const { return f; } const std::shared_ptr<In> &IN_() const { return in; } };
class D3Pairs : public PairDefinition<D3> { public: D3Pairs() { SPARTA_INVOKE_PAIRS(D3); } SPARTA_REGISTER_PAIRS(SPARTA_ADDPAIR("d3_f", &D3::F), SPARTA_FLATTEN(&D3::IN_)) };
class NestPairs; struct Nest { using SpartaPairDefinitionType = NestPairs; uint32_t a; Str s; double d; std::shared_ptr<Base> b; uint32_t A() const { return a; } Str S() const { return s; } double D() const { return d; } const std::shared_ptr<Base> &B() const { return b; } };
class NestPairs : public PairDefinition<Nest> { public: NestPairs() { SPARTA_INVOKE_PAIRS(Nest); } SPARTA_REGISTER_PAIRS(SPARTA_ADDPAIR("a", &Nest::A, std::ios::hex), SPARTA_ADDPAIR("s", &Nest::S), SPARTA_ADDPAIR("d", &Nest::D), SPARTA_FLATTEN(&Nest::B)) };
// ---- what an event has to say
struct Attr { char t; uint64_t u = 0; Str s; double d = 0; };  // u unsigned decimal, x hex, o octal, n signed, s text, d double
struct Evt { Str name; std::map<Str, Attr> a; uint64_t cyc = 0; };
Attr U(uint64_t v, char t = 'u') { Attr a{t}; a.u = v; return a; } Attr N(int64_t v) { Attr a{'n'}; a.u = uint64_t(v); return a; } Attr S(const Str &s) { Attr a{'s'}; a.s = s; return a; } Attr D(double d) { Attr a{'d'}; a.d = d; return a; }
bool same(const Attr &a, Str g)
{
    char *e = nullptr; switch (a.t) {
    case 's': return g == a.s;
    case 'd': { double v = strtod(g.c_str(), &e); return !g.empty() && !*e && std::abs(v - a.d) <= 1e-5 * std::max(std::abs(a.d), 0.1); }
    case 'n': { long long v = strtoll(g.c_str(), &e, 10); return !g.empty() && !*e && v == (long long)a.u; }
    default: { if (a.t == 'x' && g.compare(0, 2, "0x") == 0) g = g.substr(2); if (g.empty() || !isxdigit(g[0])) return false; unsigned long long v = strtoull(g.c_str(), &e, a.t == 'x' ? 16 : a.t == 'o' ? 8 : 10); return !*e && v == a.u; } }
}
// key=value or key="value", then ';'
bool parse(const Str &l, std::vector<std::pair<Str, Str>> &out)
{
    size_t i = 0; out.clear(); for (;;) {
        while (i < l.size() && l[i] == ' ') ++i; if (i >= l.size()) return false; size_t q = l.find('=', i); if (q == Str::npos) return false; Str k = l.substr(i, q - i), v; i = q + 1;
        if (i < l.size() && l[i] == '"') { size_t e = l.find('"', i + 1); if (e == Str::npos) return false; v = l.substr(i + 1, e - i - 1); i = e + 1; if (i < l.size() && l[i] != ' ' && l[i] != ';') return false; } else { size_t e = l.find_first_of(" ;", i); if (e == Str::npos) return false; v = l.substr(i, e - i); i = e; }
        out.emplace_back(k, v); if (i < l.size() && l[i] == ';') return i + 1 == l.size(); }
}
void check(vf::Ctx &ctx, const Str &line, const Evt &e)
{
    std::vector<std::pair<Str, Str>> kv; bool ok = parse(line, kv); VF_CHECK(ctx, ok, "form", line); if (!ok) return; ctx.count("lines");
    VF_CHECK(ctx, (kv.size() >= 2 && kv.front().first == "ev" && kv.back().first == "cyc"), "form", line); if (kv.size() < 2) return;
    VF_EQ(ctx, kv.front().second, e.name, "name", line); VF_EQ(ctx, kv.back().second, std::to_string(e.cyc), "cycle", line);
    std::map<Str, Str> got; for (size_t i = 1; i + 1 < kv.size(); ++i) VF_CHECK(ctx, got.insert(kv[i]).second, "attribute-twice", kv[i].first << ": " << line);
    for (auto &a : e.a) { auto it = got.find(a.first); if (a.second.t == 's' && a.second.s.empty()) { if (it != got.end()) VF_EQ(ctx, it->second, Str(), "attribute", a.first << ": " << line); continue; } VF_CHECK(ctx, it != got.end(), "attribute-missing", a.first << ": " << line); if (it != got.end()) VF_CHECK(ctx, same(a.second, it->second), "attribute", a.first << " is " << it->second << " not " << (a.second.t == 's' ? a.second.s : a.second.t == 'd' ? std::to_string(a.second.d) : std::to_string(a.second.u)) << ": " << line); }
    for (auto &g : got) VF_CHECK(ctx, e.a.count(g.first), "attribute-foreign", g.first << ": " << line);
}
// files live as long as the process
struct File { Str path; size_t pos = 0;
    std::vector<Str> fresh() { std::ifstream in(path, std::ios::binary); std::vector<Str> v; if (!in) return v; in.seekg(std::streamoff(pos)); Str l; while (std::getline(in, l)) { pos += l.size() + 1; if (!l.empty() && l[0] != '#') v.push_back(l); } return v; } };
std::vector<File> &files(vf::Ctx &ctx) { static std::vector<File> f; if (f.empty()) { Str d = ctx.scratch + "/pe" + std::to_string(getpid()); mkdir(d.c_str(), 0700); for (int i = 0; i < 4; ++i) f.push_back({d + "/p" + std::to_string(i) + ".log.raw"}); } return f; }
const char *const WORDS[] = {"add", "ldr x1", "x.y", "", "with ; inside", "a=b", "0x12", "a rather long text that does not fit into the small buffer of a string"};
struct Coll {
    Str event; int node; bool verbose; int clk, kind; bool going = false; std::set<int> files; int64_t skew = 0; bool extra = false;
    std::unique_ptr<pevents::PeventCollector<ObjPairs>> o; std::unique_ptr<pevents::NestedPeventCollector<Nest>> n;
};
Str lower(Str s) { for (auto &c : s) c = char(tolower(c)); return s; }
}
VF_SECTION(collectors, 220, 8000)
{
    Quiet q; auto &r = ctx.rng; auto &F = files(ctx); for (auto &f : F) f.fresh();
    vf::Multi m({{1, 1}, {2, 1}, {3, 2}}); std::vector<std::unique_ptr<TreeNode>> own; std::vector<TreeNode *> node{&m.rtn}; std::vector<Str> loc{"top"};
    auto mk = [&](int p, const char *n) { own.emplace_back(new TreeNode(node[p], n, "d")); node.push_back(own.back().get()); loc.push_back(loc[p] + "." + n); }; mk(0, "core0"); mk(0, "core1"); mk(1, "lsu"); mk(2, "lsu"); mk(1, "alu");
    static const char *const EV[] = {"RETIRE", "decode", "Fetch", "RETIRE2"}; std::vector<Coll> C; std::set<Str> used; int nc = int(r.range(1, 8));
    for (int k = 0; k < nc; ++k) {
        Coll c; c.event = EV[r.below(4)]; c.node = int(r.below(6)); c.verbose = r.chance(1, 3); c.clk = int(r.below(m.clks.size())); c.kind = int(r.below(2)); if (!used.insert(loc[c.node] + c.event + (c.verbose ? "v" : "")).second) continue; c.extra = r.chance(1, 3);
        ctx.op("collector", c.event, loc[c.node], c.verbose ? "verbose" : "", c.kind ? "nested" : "plain", c.extra);
        if (c.kind) { c.n.reset(new pevents::NestedPeventCollector<Nest>(c.event, node[c.node], m.clks[c.clk].get(), c.verbose)); if (c.extra) c.n->addPositionalPairArg<uint32_t>("extra"); } else { c.o.reset(new pevents::PeventCollector<ObjPairs>(c.event, node[c.node], m.clks[c.clk].get(), c.verbose)); if (c.extra) { c.o->addPositionalPairArg<uint32_t>("extra"); c.o->addPositionalPairArg<Str>("text"); } }
        C.push_back(std::move(c));
    }
    m.finalize(); m.sched.run(1, true, false);
    auto under = [&](int n, const Str &l) { return loc[n] == l || loc[n].compare(0, l.size() + 1, l + ".") == 0; };
    pevents::PeventCollectorController ctl; int nt = int(r.range(1, 5)); bool bad = false;
    for (int k = 0; k < nt; ++k) {
        Str type = r.chance(1, 3) ? "ALL" : C.empty() || r.chance(1, 12) ? Str("nothing") : C[r.below(C.size())].event; if (r.chance(1, 2)) type = lower(type); bool verb = r.chance(1, 3); int f = int(r.below(F.size())); static const char *const where[] = {"ROOT", "top", "top.core0", "top.core*", "top.core*.lsu", "top.core1.lsu", "top.*"}; static const std::vector<std::vector<Str>> at = {{"top"}, {"top"}, {"top.core0"}, {"top.core0", "top.core1"}, {"top.core0.lsu", "top.core1.lsu"}, {"top.core1.lsu"}, {"top.core0", "top.core1", "top.n0"}}; int w = r.chance(1, 2) ? 0 : int(r.below(7));
        bool any = false; for (auto &c : C) { if (verb != c.verbose || (lower(type) != "all" && lower(type) != lower(c.event))) continue; bool in = false; for (auto &l : at[w]) in |= under(c.node, l); if (Str(where[w]) == "top.*") in = in || c.node == 0; if (in) { any = true; } }
        if (!any && !r.chance(1, 6)) continue; bad |= !any; ctx.op("tap", F[f].path.substr(F[f].path.size() - 10), type, verb, where[w]);
        for (auto &c : C) { if (verb != c.verbose || (lower(type) != "all" && lower(type) != lower(c.event))) continue; bool in = false; for (auto &l : at[w]) in |= under(c.node, l); if (Str(where[w]) == "top.*") in = in || c.node == 0; if (in) c.files.insert(f); }
        if (w == 0 && r.chance(1, 2)) ctl.cacheTap(F[f].path, type, verb); else ctl.cacheTap(F[f].path, type, verb, where[w]);
    }
    bool threw = vf::throws<SpartaException>([&] { ctl.finalize(&m.rtn); }); VF_EQ(ctx, threw, bad, "selection", "a selection without any event is an error, others are not"); if (threw || bad) { ctx.count("rejected selections"); return; }
    std::ostringstream names; ctl.printEventNames(names, &m.rtn); for (auto &c : C) VF_CHECK(ctx, names.str().find(" : " + c.event + "\n") != Str::npos, "listed", c.event); { size_t lines = 0; for (char ch : names.str()) lines += ch == '\n'; VF_EQ(ctx, lines, C.size() + 1, "listed", "lines"); }
    std::map<int, std::vector<Evt>> want; int n = int(r.range(5, 60)); bool reuse = r.chance(1, 2); Obj o{}; Nest nn{}; auto word = [&] { return Str(WORDS[r.below(std::size(WORDS))]); };
    for (int k = 0; k < n; ++k) switch (r.below(8)) {
    case 0: { int x = r.chance(1, 2) ? 0 : int(r.below(6)); ctx.op("go", loc[x]); trigger::PeventTrigger t(node[x]); t.go(); for (auto &c : C) if (under(c.node, loc[x]) && !c.files.empty()) c.going = true; break; }
    case 1: { uint64_t t = uint64_t(r.range(1, 40)); ctx.op("run", t); m.sched.run(t, true, false); break; }
    case 2: { if (C.empty()) break; auto &c = C[r.below(C.size())]; int64_t cyc = int64_t(m.clks[c.clk]->currentCycle()); c.skew = r.range(-std::min<int64_t>(cyc, 5), 5); ctx.op("skew", c.skew); if (c.kind) c.n->adjustSkew(int32_t(c.skew)); else c.o->adjustSkew(int32_t(c.skew)); break; }
    default: {
        if (C.empty()) break; auto &c = C[r.below(C.size())]; Evt e; e.name = c.event; e.cyc = m.now() / m.period[c.clk] + uint64_t(c.skew); bool col = c.kind ? c.n->isCollecting() : c.o->isCollecting(); VF_EQ(ctx, col, c.going, "collecting", c.event); uint32_t x = uint32_t(r.below(1000)); Str t = word();
        if (c.kind) {
            bool again = reuse && r.chance(1, 3); if (!again) { nn.a = uint32_t(r.next()); nn.s = word(); nn.d = double(r.range(-1000, 1000)) / 8; switch (r.below(3)) { case 0: { auto d = std::make_shared<D1>(); d->x = uint16_t(r.below(5)); d->p = {r.below(4), word()}; nn.b = d; break; } case 1: { auto d = std::make_shared<D2>(); d->y = uint32_t(r.below(100)); d->c = Hue(r.below(3)); nn.b = d; break; } default: { auto d = std::make_shared<D3>(); d->f = r.chance(1, 2); d->in = std::make_shared<In>(); d->in->v = uint16_t(r.below(65536)); d->in->t = word(); d->in->c = Hue(r.below(3)); nn.b = d; } } } if (!nn.b) { auto d = std::make_shared<D2>(); d->y = 1; d->c = Hue::RED; nn.b = d; }
            e.a["a"] = U(nn.a, 'x'); e.a["s"] = S(nn.s); e.a["d"] = D(nn.d); auto cs = [](Hue c) { std::ostringstream s; s << c; return s.str(); };
            if (auto d = dynamic_cast<D1 *>(nn.b.get())) { e.a["d1_x"] = U(d->x, 'x'); e.a["d1_p1"] = U(d->p.first); e.a["d1_p2"] = S(d->p.second); } else if (auto d = dynamic_cast<D2 *>(nn.b.get())) { e.a["d2_y"] = U(d->y, 'o'); e.a["d2_c"] = S(cs(d->c)); } else if (auto d = dynamic_cast<D3 *>(nn.b.get())) { e.a["d3_f"] = S(d->f ? "true" : "false"); e.a["in_v"] = U(d->in->v); e.a["in_t"] = S(d->in->t); e.a["in_c"] = S(cs(d->in->c)); }
            if (c.extra) e.a["extra"] = U(x); ctx.op("collect", c.event, c.node, nn.a); if (c.extra) { c.n->collect(nn, x); if (c.going && r.chance(1, 20)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { c.n->collect(nn); }), "missing-argument", "accepted"); } else c.n->collect(nn);
        } else {
            if (!(reuse && r.chance(1, 3))) { o.i = uint16_t(r.below(65536)); o.k = uint32_t(r.next()); o.l = r.next(); o.n = int32_t(r.range(-1000, 1000)); o.s = word(); o.d = double(r.range(-1000, 1000)) / 16; o.b = r.chance(1, 2); } if (r.chance(1, 5)) o.s = word();
            e.a["ihex"] = U(o.i, 'x'); e.a["koct"] = U(o.k, 'o'); e.a["ldec"] = U(o.l); e.a["lhex"] = U(o.l, 'x'); e.a["n"] = N(o.n); e.a["s"] = S(o.s); e.a["r"] = S(o.s); e.a["d"] = D(o.d); e.a["b"] = U(o.b);
            if (c.extra) { e.a["extra"] = U(x); e.a["text"] = S(t); } ctx.op("collect", c.event, c.node, o.n); if (c.extra) c.o->collect(o, x, t); else c.o->collect(o);
        }
        if (c.going) for (int f : c.files) want[f].push_back(e); ctx.obs(c.going); break; }
    }
    for (size_t f = 0; f < F.size(); ++f) { auto got = F[f].fresh(); auto &w = want[int(f)]; VF_EQ(ctx, got.size(), w.size(), "events", "lines in file " << f); for (size_t i = 0; i < std::min(got.size(), w.size()); ++i) check(ctx, got[i], w[i]); ctx.obs(got.size()); }
    C.clear();
}
namespace {
struct Fmt { Str pre, post; std::ios_base::fmtflags flags{}; int width = 0; char fill = ' '; };
template<class T> Str render(const Fmt &f, const T &v) { std::ostringstream s; s.flags(f.flags); s << std::setfill(f.fill) << std::setw(f.width) << v; Str b = f.pre + s.str() + f.post; return std::is_same<T, Str>::value ? "\"" + b + "\"" : b; }
template<class T> T draw(vf::Rng &r) { if constexpr (std::is_same<T, Str>::value) { return WORDS[r.below(std::size(WORDS))]; } else if constexpr (std::is_same<T, double>::value) return double(r.range(-1000, 1000)) / 16; else return T(r.chance(1, 3) ? r.next() : r.below(300)); }
template<class T> const char *attrName(int i) { static const char *const n[] = {"alpha", "beta", "gamma", "delta"}; return n[i]; }
template<class... A, size_t... I> void helper(vf::Ctx &ctx, std::index_sequence<I...>)
{
    auto &r = ctx.rng; auto &F = files(ctx); auto &f = F[0]; f.fresh(); vf::Multi m({{2, 1}}); int ck = int(r.below(2)); log::MessageSource src(m.nodes[0].get(), "pe", "events"); m.finalize(); m.sched.run(1, true, false);
    Str name = "NAME"; pevents::PEvent<A...> p(name, src, m.clks[ck].get(), Str(attrName<A>(I))...); std::vector<Fmt> fm(sizeof...(A)); std::tuple<A...> cur{}; std::unique_ptr<log::Tap> tap; std::vector<Str> want; int n = int(r.range(3, 40));
    auto line = [&] { std::vector<Str> v{render(fm[I], std::get<I>(cur))...}; Str s; static const char *const nm[] = {"alpha", "beta", "gamma", "delta"}; for (size_t i = 0; i < v.size(); ++i) s += Str(nm[i]) + "=" + v[i] + " "; std::ostringstream h; h << "ev=" << std::left << std::setw(12) << ("\"" + name + "\"") << " "; return h.str() + s + "cyc=" + std::to_string(m.now() / m.period[ck]) + ";"; };
    for (int k = 0; k < n; ++k) { uint32_t i = uint32_t(r.below(sizeof...(A))); switch (r.below(9)) {
    case 0: if (tap) tap.reset(); else tap.reset(new log::Tap(m.nodes[0].get(), "pe", f.path)); ctx.op("tap", bool(tap)); VF_EQ(ctx, p.observed(), bool(tap), "observed", ""); break;
    case 1: { uint64_t t = uint64_t(r.range(1, 20)); m.sched.run(t, true, false); ctx.op("run", t); break; }
    case 2: { static const char *const w[] = {"", "<", "0x", "pre "}; static const char *const e[] = {"", ">", " ns", "!"}; fm[i] = Fmt{w[r.below(4)], e[r.below(4)], {}, fm[i].width, fm[i].fill}; ctx.op("format", i, fm[i].pre, fm[i].post); p.setFormatFlags(i, fm[i].pre, fm[i].post); break; }
    case 3: { int wd = int(r.range(0, 12)); bool left = r.chance(1, 2); char c = r.chance(1, 2) ? '_' : ' '; auto al = left ? std::ios::left : std::ios::right; ctx.op("length", i, wd, left); fm[i].width = wd; fm[i].flags |= al; fm[i].fill = c; if ((fm[i].flags & std::ios::left) && (fm[i].flags & std::ios::right)) { fm[i].flags = al; p.setFormatFlags(i, fm[i].pre, fm[i].post); } p.setFormatLength(i, wd, al, c); break; }
    case 4: { ctx.op("hex", i); p.setAsHex({i}); fm[i] = Fmt{"0x", "", std::ios::hex | std::ios::right, 8, '0'}; break; }
    case 5: { name = r.chance(1, 2) ? "A" : "A_RATHER_LONG_NAME"; ctx.op("name", name); p.setName(name); break; }
    default: { std::tuple<A...> v{draw<A>(r)...}; ctx.op("fire", k); int how = int(r.below(3)); if (how == 0) { cur = v; p.fireEvent(std::get<I>(v)...); } else { if (how == 1) { cur = v; p.setAttrs(std::get<I>(v)...); } p.fireEvent(); } if (tap) want.push_back(line()); ctx.obs(bool(tap)); } } }
    auto got = f.fresh(); VF_EQ(ctx, got.size(), want.size(), "events", "lines"); for (size_t i = 0; i < std::min(got.size(), want.size()); ++i) { VF_EQ(ctx, got[i], want[i], "line", "event " << i); ctx.count("lines"); }
}
template<class... A> void helper(vf::Ctx &ctx) { helper<A...>(ctx, std::index_sequence_for<A...>{}); }
}
VF_SECTION(helper, 200, 8000)
{
    Quiet q; switch (ctx.rng.below(5)) { case 0: helper<uint32_t>(ctx); break; case 1: helper<Str>(ctx); break; case 2: helper<uint64_t, Str>(ctx); break; case 3: helper<Str, double, uint32_t>(ctx); break; default: helper<int32_t, uint64_t, Str, Str>(ctx); }
}
