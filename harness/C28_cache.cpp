// C28: the cache models against a reference cache: hits, victims, replacement order, castouts, reloads and the data
// seen through one or two levels; every set is compared way by way after every operation.
#include "simenv.hpp"
#include "cache/SimpleCache.hpp"
#include "cache/SimpleCache2.hpp"
#include "cache/TreePLRUReplacement.hpp"
#include "cache/LRUReplacement.hpp"
#include "cache/LineData.hpp"
#include <list>
#include <map>
using namespace sparta;
using namespace sparta::cache;
namespace {
// Reference replacement: a list from least to most recently used, or a tree whose nodes tell the half to replace next.
struct Order {
    bool tree = false; unsigned n = 1; std::vector<unsigned> l; std::map<std::pair<unsigned, unsigned>, bool> upper;
    void init(bool t, unsigned ways) { tree = t; n = ways; reset(); }
    void reset() { l.clear(); for (unsigned i = 0; i < n; ++i) l.push_back(i); upper.clear(); }
    void walk(unsigned w, bool mru) { unsigned lo = 0, hi = n; while (hi - lo > 1) { unsigned m = (lo + hi) / 2; bool up = w >= m; upper[{lo, hi}] = mru ? !up : up; (up ? lo : hi) = m; } }
    void mru(unsigned w) { if (tree) walk(w, true); else { l.erase(std::find(l.begin(), l.end(), w)); l.push_back(w); } }
    void lru(unsigned w) { if (tree) walk(w, false); else { l.erase(std::find(l.begin(), l.end(), w)); l.insert(l.begin(), w); } }
    unsigned follow(bool flip) const { unsigned lo = 0, hi = n; while (hi - lo > 1) { unsigned m = (lo + hi) / 2; auto it = upper.find({lo, hi}); bool up = (it != upper.end() && it->second) != flip; (up ? lo : hi) = m; } return lo; }
    unsigned victim() const { return tree ? follow(false) : l.front(); }
    unsigned newest() const { return tree ? follow(true) : l.back(); }
};
struct Line { bool valid = false, mod = false, excl = false, shared = false, nt = false; uint64_t addr = 0; std::vector<uint8_t> data; };
struct Ref {
    uint64_t line, stride, sets; unsigned ways; struct Set { std::vector<Line> w; Order o; unsigned prevNT = 0; }; std::vector<Set> s; std::function<unsigned(uint64_t)> index;
    Ref(uint64_t ln, uint64_t st, uint64_t ns, unsigned nw, bool tree) : line(ln), stride(st), sets(ns), ways(nw), s(ns) { for (auto &x : s) { x.w.resize(nw); x.o.init(tree, nw); for (auto &l : x.w) l.data.assign(ln, 0); } index = [this](uint64_t a) { return unsigned(a / stride % sets); }; }
    uint64_t blk(uint64_t a) const { return a / line * line; }
    Set &set(uint64_t a) { return s[index(a)]; }
    int find(uint64_t a) { auto &x = set(a); for (unsigned i = 0; i < ways; ++i) if (x.w[i].valid && x.w[i].addr == blk(a)) return int(i); return -1; }
    int invalid(uint64_t a) { auto &x = set(a); for (unsigned i = 0; i < ways; ++i) if (!x.w[i].valid) return int(i); return -1; }
};
struct Geo { uint64_t line, stride, sets; unsigned ways; bool tree, kb; uint64_t size() const { uint64_t b = line * sets * ways; return kb ? b / 1024 : b; } };
Geo geo(vf::Rng &r, bool kb)
{
    Geo g; do { g.line = 1ull << r.range(3, 8); g.stride = g.line << (r.chance(1, 4) ? r.range(1, 4) : 0); g.sets = 1ull << r.below(7); g.tree = r.chance(1, 2); g.ways = g.tree ? 1u << r.below(r.chance(1, 8) ? 8 : 5) : unsigned(r.range(1, 9)); g.kb = kb; } while ((kb && g.line * g.sets * g.ways % 1024) || g.line * g.sets * g.ways > 262144);
    return g;
}
std::unique_ptr<ReplacementIF> rep(const Geo &g) { if (g.tree) return std::unique_ptr<ReplacementIF>(new TreePLRUReplacement(g.ways)); return std::unique_ptr<ReplacementIF>(new LRUReplacement(g.ways)); }
// Addresses collide in few sets and tags, some of them with high bits set. Bits between line and stride are those of a bank.
struct Addrs {
    std::vector<uint64_t> base; const Geo &g;
    Addrs(vf::Rng &r, const Geo &gg) : g(gg)
    {
        uint64_t bank = g.stride > g.line ? r.below(g.stride / g.line) * g.line : 0, span = g.sets * g.stride; std::vector<uint64_t> ix; for (unsigned i = 0, n = unsigned(r.range(1, 3)); i < n; ++i) ix.push_back(r.below(g.sets));
        uint64_t tags = uint64_t(r.range(1, 2 * g.ways + 2)); for (uint64_t t = 0; t < tags; ++t) { uint64_t tag = r.chance(1, 6) ? (~0ull / span) - r.below(4) : r.chance(1, 6) ? (r.next() / span) : t; for (auto i : ix) base.push_back(tag * span + i * g.stride + bank); }
    }
    uint64_t pick(vf::Rng &r, unsigned size = 1) const { return r.pick(base) + r.below(g.line - size + 1); }
};
template <class L> void cmpLine(vf::Ctx &ctx, const char *sec, const L &real, const Line &m, unsigned set, unsigned way)
{
    VF_EQ(ctx, real.isValid(), m.valid, std::string(sec) + "/valid", "way " << way << " of set " << set); VF_EQ(ctx, real.getWay(), way, std::string(sec) + "/way", "way number"); VF_EQ(ctx, real.getSetIndex(), set, std::string(sec) + "/set", "set index");
    if (!m.valid) return;
    VF_EQ(ctx, real.getAddr(), m.addr, std::string(sec) + "/addr", "address of way " << way << " of set " << set); VF_EQ(ctx, real.isModified(), m.mod, std::string(sec) + "/modified", "modified of way " << way);
}
template <class S> void cmpSet(vf::Ctx &ctx, const char *sec, S &real, Ref::Set &m, unsigned idx)
{
    unsigned w = 0; std::set<uint64_t> seen;
    for (auto &l : real) { VF_CHECK(ctx, w < m.w.size(), std::string(sec) + "/ways", "more ways than expected"); cmpLine(ctx, sec, l, m.w[w], idx, w); if (l.isValid()) VF_CHECK(ctx, seen.insert(l.getTag()).second, std::string(sec) + "/duplicate", "a line is twice in set " << idx); ++w; }
    VF_EQ(ctx, w, unsigned(m.w.size()), std::string(sec) + "/ways", "ways"); VF_EQ(ctx, real.getReplacementIF()->getLRUWay(), m.o.victim(), std::string(sec) + "/lru", "least recently used way of set " << idx); VF_EQ(ctx, real.getReplacementIF()->getMRUWay(), m.o.newest(), std::string(sec) + "/mru", "most recently used way of set " << idx);
}
VF_SECTION(policy, 200, 4000)
{
    auto &r = ctx.rng; Geo g = geo(r, false); auto real = rep(g); Order o; o.init(g.tree, g.ways); ctx.op(g.tree ? "tree" : "lru", g.ways);
    VF_EQ(ctx, real->getNumWays(), g.ways, "policy/ways", "ways");
    for (unsigned i = 0; i < 120; ++i) {
        unsigned w = unsigned(r.below(g.ways)), k = unsigned(r.below(20));
        if (k < 10) { ctx.op("mru", w); real->touchMRU(w); o.mru(w); VF_EQ(ctx, real->getMRUWay(), w, "policy/touch-mru", "after touchMRU"); if (g.ways > 1) VF_CHECK(ctx, real->getLRUWay() != w, "policy/touch-mru", "the way just used is to be replaced"); }
        else if (k < 15) { ctx.op("lru", w); real->touchLRU(w); o.lru(w); VF_EQ(ctx, real->getLRUWay(), w, "policy/touch-lru", "after touchLRU"); }
        else if (k == 15 && r.chance(1, 5)) { ctx.op("reset"); real->reset(); o.reset(); ctx.count("reset"); }
        else if (k == 16) { ctx.op("clone"); real.reset(real->clone()); ctx.count("cloned"); }
        else if (k == 17 && g.tree) {
            // every way once, the first of them the one to be replaced last
            std::istringstream is(static_cast<TreePLRUReplacement *>(real.get())->getDisplayString()); std::vector<unsigned> v; unsigned x; while (is >> x) v.push_back(x);
            std::set<unsigned> s(v.begin(), v.end()); VF_CHECK(ctx, v.size() == g.ways && s.size() == g.ways, "policy/display", "not a permutation of the ways"); std::set<unsigned> ends{v.front(), v.back()}; std::set<unsigned> want{o.victim(), o.newest()}; VF_CHECK(ctx, ends == want, "policy/display", "ends of the order shown");
        } else if (k == 18) { VF_CHECK(ctx, vf::throws<std::exception>([&] { real->lockWay(w); }), "policy/lock", "lockWay"); continue; }
        VF_EQ(ctx, real->getLRUWay(), o.victim(), "policy/lru", "least recently used way"); VF_EQ(ctx, real->getMRUWay(), o.newest(), "policy/mru", "most recently used way"); ctx.obs(o.victim(), o.newest()); ctx.count("policy steps");
    }
    // used for all accesses, true LRU and tree PLRU visit every way before any twice when always filling the victim
    std::set<unsigned> seen; for (unsigned i = 0; i < g.ways; ++i) { unsigned v = real->getLRUWay(); VF_CHECK(ctx, seen.insert(v).second, "policy/round", "way " << v << " replaced twice in a round"); real->touchMRU(v); }
}
// One or two levels of SimpleCache above a memory: every read returns what was written last.
struct Mem : public BlockingMemoryIF {
    std::map<uint64_t, uint8_t> b; uint64_t reads = 0, writes = 0;
    bool read(uint64_t a, uint32_t n, uint8_t *p) override { ++reads; for (uint32_t i = 0; i < n; ++i) { auto it = b.find(a + i); p[i] = it == b.end() ? 0 : it->second; } return true; }
    bool write(uint64_t a, uint32_t n, const uint8_t *p) override { ++writes; for (uint32_t i = 0; i < n; ++i) b[a + i] = p[i]; return true; }
};
struct Level : public SimpleCache<LineData> {
    BlockingMemoryIF *next; std::vector<std::pair<char, uint64_t>> log;
    Level(const Geo &g, const ReplacementIF &p, BlockingMemoryIF *n) : SimpleCache<LineData>(g.size(), g.line, g.stride, LineData(g.line), p), next(n) {}
    void castout_(const LineData &l) override { SimpleCache<LineData>::castout_(l); log.emplace_back('c', l.getAddr()); if (!next->write(l.getAddr(), uint32_t(l.getLineSize()), l.getDataPtr())) throw std::runtime_error("castout"); }
    void reload_(uint64_t a, LineData &l) override { SimpleCache<LineData>::reload_(a, l); log.emplace_back('r', a); next->read(a, uint32_t(l.getLineSize()), l.getDataPtr()); }
    void writeNextLevel_(uint64_t a, uint32_t n, const uint8_t *p) override { SimpleCache<LineData>::writeNextLevel_(a, n, p); log.emplace_back('w', a); next->write(a, n, p); }
    Cache<LineData> &cache() { return cache_; }
};
VF_SECTION(simple, 200, 4000)
{
    auto &r = ctx.rng; Geo g = geo(r, true), g2 = geo(r, true); bool two = r.chance(1, 2); g2.line = std::max(g2.line, g.line); g2.stride = g2.line; while (g2.line * g2.sets * g2.ways % 1024) g2.sets *= 2; auto p = rep(g), p2 = rep(g2); Mem mem; std::unique_ptr<Level> l2; if (two) { l2.reset(new Level(g2, *p2, &mem)); l2->setWriteAllocateMode(r.chance(1, 2)); l2->setWriteThroughMode(r.chance(1, 3)); }
    Level c(g, *p, two ? static_cast<BlockingMemoryIF *>(l2.get()) : &mem); Ref m(g.line, g.stride, g.sets, g.ways, g.tree); bool wt = r.chance(1, 2), wa = r.chance(1, 2); c.setWriteThroughMode(wt); c.setWriteAllocateMode(wa); Addrs ad(r, g);
    ctx.op("geometry", g.line, g.stride, g.sets, g.ways, g.tree, wt, wa, two); Mem flat; struct { uint64_t castouts = 0, reloads = 0, reads = 0, writes = 0, rmiss = 0, wmiss = 0, wnext = 0, gmiss = 0; } st; std::vector<std::pair<char, uint64_t>> want;
    VF_EQ(ctx, uint64_t(c.cache().getNumSets()), g.sets, "simple/geometry", "sets"); VF_EQ(ctx, c.cache().getNumWays(), g.ways, "simple/geometry", "ways");
    // the way a missing line is loaded to, and what that casts out
    auto fill = [&](uint64_t a) { auto &s = m.set(a); unsigned v = s.o.victim(); Line &l = s.w[v]; if (l.valid && l.mod) { ++st.castouts; want.emplace_back('c', l.addr); ctx.count("castout"); } ++st.reloads; want.emplace_back('r', m.blk(a)); l.valid = true; l.mod = false; l.addr = m.blk(a); return v; };
    for (unsigned i = 0; i < 150; ++i) {
        unsigned k = unsigned(r.below(40)), size = unsigned(r.range(1, std::min<uint64_t>(g.line, 16))); uint64_t a = ad.pick(r, size); auto &s = m.set(a); int hit = m.find(a); want.clear(); c.log.clear(); VF_EQ(ctx, c.isHit(a), hit >= 0, "simple/hit", "isHit"); VF_EQ(ctx, c.peekLine(a) != nullptr, hit >= 0, "simple/hit", "peekLine");
        { bool need = true, dirty = false; uint64_t ca = 0; bool h = c.isHitWithCastout(a, need, ca, dirty); VF_EQ(ctx, h, hit >= 0, "simple/hit", "isHitWithCastout"); auto &v = s.w[s.o.victim()]; VF_EQ(ctx, need, hit < 0 && v.valid, "simple/castout", "whether a line is cast out"); if (need) { VF_EQ(ctx, ca, v.addr, "simple/castout", "address cast out"); VF_EQ(ctx, dirty, v.mod, "simple/castout", "whether the line cast out is dirty"); } }
        ctx.count(hit >= 0 ? "hit" : "miss");
        if (k < 16) {
            ctx.op("read", a, size); ++st.reads; if (hit < 0) { ++st.rmiss; hit = int(fill(a)); } s.o.mru(unsigned(hit)); std::vector<uint8_t> got(size), exp(size); VF_CHECK(ctx, c.read(a, size, got.data()), "simple/read", "read() failed"); flat.read(a, size, exp.data()); VF_CHECK(ctx, got == exp, "simple/data", "read of " << size << " bytes at " << std::hex << a << " returned other data than was written last");
        } else if (k < 32) {
            ctx.op("write", a, size); ++st.writes; std::vector<uint8_t> d(size); for (auto &x : d) x = uint8_t(r.next()); bool nextLevel = wt;
            if (hit < 0) { ++st.wmiss; if (wa) hit = int(fill(a)); else nextLevel = true; }
            if (hit >= 0) { s.o.mru(unsigned(hit)); s.w[size_t(hit)].mod = true; } if (nextLevel) { ++st.wnext; want.emplace_back('w', a); }
            VF_CHECK(ctx, c.write(a, size, d.data()), "simple/write", "write() failed"); flat.write(a, size, d.data());
        } else if (k < 36) { ctx.op("getLine", a); if (hit < 0) { ++st.gmiss; hit = int(fill(a)); } s.o.mru(unsigned(hit)); auto *l = c.getLine(a); VF_EQ(ctx, l->getAddr(), m.blk(a), "simple/getLine", "address"); VF_EQ(ctx, l->getWay(), unsigned(hit), "simple/getLine", "way"); std::vector<uint8_t> exp(g.line); flat.read(m.blk(a), uint32_t(g.line), exp.data()); VF_CHECK(ctx, std::equal(exp.begin(), exp.end(), l->getDataPtr()), "simple/data", "line data"); }
        else if (k < 38) {
            if (hit < 0) { VF_CHECK(ctx, vf::throws<SpartaException>([&] { c.invalidateLine(a); }), "simple/invalidate", "invalidating a line not present"); }
            else if (s.w[size_t(hit)].mod) { /* would lose the data */ }
            else { ctx.op("invalidate", a); c.invalidateLine(a); s.w[size_t(hit)].valid = false; s.o.lru(unsigned(hit)); ctx.count("invalidated"); }
        } else if (k == 38 && r.chance(1, 4)) { bool dirty = false; for (auto &x : m.s) for (auto &l : x.w) dirty |= l.valid && l.mod; if (!dirty) { ctx.op("invalidateAll"); c.invalidateAll(); for (auto &x : m.s) { for (auto &l : x.w) l.valid = false; x.o.reset(); } ctx.count("all invalidated"); } }
        else if (k == 39 && r.chance(1, 4)) { ctx.op("resetStats"); c.resetStats(); st = {}; }
        VF_CHECK(ctx, c.log == want, "simple/traffic", "castouts, reloads or writes to the next level differ from those expected (" << c.log.size() << " for " << want.size() << ")");
        VF_EQ(ctx, c.getNumReads(), st.reads, "simple/stats", "reads"); VF_EQ(ctx, c.getNumWrites(), st.writes, "simple/stats", "writes"); VF_EQ(ctx, c.getNumReadMisses(), st.rmiss, "simple/stats", "read misses"); VF_EQ(ctx, c.getNumWriteMisses(), st.wmiss, "simple/stats", "write misses"); VF_EQ(ctx, c.getNumCastouts(), st.castouts, "simple/stats", "castouts"); VF_EQ(ctx, c.getNumReloads(), st.reloads, "simple/stats", "reloads"); VF_EQ(ctx, c.getNumWriteNextLevel(), st.wnext, "simple/stats", "writes to the next level"); VF_EQ(ctx, c.getNumGetLineMisses(), st.gmiss, "simple/stats", "getline misses");
        cmpSet(ctx, "simple", c.cache().getCacheSet(a), s, m.index(a)); ctx.obs(hit, s.o.victim());
    }
    unsigned idx = 0; for (auto &s : c.cache()) { cmpSet(ctx, "simple", s, m.s[idx], idx); ++idx; } VF_EQ(ctx, uint64_t(idx), g.sets, "simple/geometry", "sets");
}
// SimpleCache2: the client allocates, touches and invalidates.
template <class L, bool NT> struct Two {
    vf::Ctx &ctx; Geo g; Ref m; std::unique_ptr<ReplacementIF> p; SimpleCache2<L> c; Addrs ad; Mem flat;
    explicit Two(vf::Ctx &x) : ctx(x), g(geo(x.rng, x.rng.chance(1, 3))), m(g.line, g.stride, g.sets, g.ways, g.tree), p(rep(g)), c(g.size(), g.line, g.stride, L(uint32_t(g.line)), *p, g.kb), ad(x.rng, g) {}
    void alloc(L &l, uint64_t a, bool nt, std::true_type) { c.allocateWithMRUUpdate(l, a, nt); }
    void alloc(L &l, uint64_t a, bool, std::false_type) { c.allocateWithMRUUpdate(l, a); }
    void inval(L &l, std::true_type) { c.invalidateLineWithLRUUpdate(l); }
    void inval(L &l, std::false_type) { l.setValid(false); c.touchLRU(l); }
    void ntFlag(L &l, Line &x, std::true_type) { if (x.valid) VF_EQ(ctx, l.isNT(), x.nt, "two/nt", "non-temporal flag"); }
    void ntFlag(L &, Line &, std::false_type) {}
    L &victim(uint64_t a, bool nt, std::true_type) { return c.getLineForReplacement(a, nt); }
    L &victim(uint64_t a, bool, std::false_type) { return c.getLineForReplacement(a); }
    void run()
    {
        auto &r = ctx.rng; std::integral_constant<bool, NT> tag; ctx.op("geometry", g.line, g.stride, g.sets, g.ways, g.tree, g.kb, NT);
        VF_EQ(ctx, uint64_t(c.getNumSets()), g.sets, "two/geometry", "sets"); VF_EQ(ctx, c.getNumWays(), g.ways, "two/geometry", "ways");
        for (unsigned i = 0; i < 150; ++i) {
            unsigned size = unsigned(r.range(1, std::min<uint64_t>(g.line, 16))), k = unsigned(r.below(40)); uint64_t a = ad.pick(r, size); auto &s = m.set(a); int hit = m.find(a), inv = m.invalid(a); auto &rs = c.getCacheSet(a); uint64_t t = c.getAddrDecoder()->calcTag(a);
            VF_EQ(ctx, rs.getSetIndex(), m.index(a), "two/index", "set of " << std::hex << a); VF_EQ(ctx, c.getAddrDecoder()->calcBlockAddr(a), m.blk(a), "two/decode", "block"); VF_EQ(ctx, c.getAddrDecoder()->calcBlockOffset(a), a - m.blk(a), "two/decode", "offset");
            VF_EQ(ctx, c.isHit(a), hit >= 0, "two/hit", "isHit"); L *l = c.getLine(a); VF_EQ(ctx, l != nullptr, hit >= 0, "two/hit", "getLine"); VF_CHECK(ctx, c.peekLine(a) == l && rs.getItem(t) == l && rs.peekItem(t) == l, "two/hit", "peekLine and getItem"); bool cold = false; VF_CHECK(ctx, rs.getItem(t, cold) == l, "two/hit", "getItem"); VF_EQ(ctx, cold, hit < 0 && inv >= 0, "two/cold", "cold miss");
            VF_EQ(ctx, c.hasOpenWay(a), inv >= 0, "two/open", "hasOpenWay"); VF_EQ(ctx, rs.findInvalidWay(), inv < 0 ? g.ways : unsigned(inv), "two/open", "findInvalidWay");
            { std::vector<uint32_t> ord; for (unsigned w = 0; w < g.ways; ++w) if (r.chance(3, 4)) ord.push_back(w); for (size_t x = ord.size(); x > 1; --x) std::swap(ord[x - 1], ord[r.below(x)]); if (!ord.empty()) { unsigned want = g.ways; for (auto w : ord) if (!s.w[w].valid) { want = w; break; } VF_EQ(ctx, rs.findInvalidWay(ord), want, "two/open", "findInvalidWay(order)"); } }
            VF_EQ(ctx, c.getLineForReplacementWithInvalidCheck(a).getWay(), inv >= 0 ? unsigned(inv) : s.o.victim(), "two/victim", "victim with invalid ways first"); VF_EQ(ctx, c.getLineForReplacement(a).getWay(), s.o.victim(), "two/victim", "victim"); VF_EQ(ctx, rs.peekLRUItem().getWay(), s.o.victim(), "two/victim", "peekLRUItem");
            ctx.count(hit >= 0 ? "hit" : "miss"); ctx.obs(hit, inv, s.o.victim());
            if (hit < 0) {
                if (k < 30) {
                    bool nt = NT && g.ways > 1 && r.chance(1, 2), chk = !nt && r.chance(1, 2); L &v = nt ? victim(a, true, tag) : chk ? c.getLineForReplacementWithInvalidCheck(a) : victim(a, false, tag); unsigned w = v.getWay();
                    if (nt) { // non-temporal lines share ways 0 and 1; the older one goes
                        unsigned want = !s.w[0].nt ? 0 : !s.w[1].nt ? 1 : s.prevNT == 0 ? 1 : 0; VF_EQ(ctx, w, want, "two/nt-victim", "way for a non-temporal line (ways 0 and 1 hold one: " << s.w[0].nt << s.w[1].nt << ", last filled " << s.prevNT << ")"); ctx.count("nt.victim");
                    }
                    ctx.op("allocate", a, w, nt); alloc(v, a, nt, tag); auto &x = s.w[w]; x.valid = true; x.mod = false; x.excl = true; x.shared = false; x.addr = m.blk(a); x.nt = nt; if (nt) s.prevNT = w; s.o.mru(w);
                    for (uint64_t b = 0; b < g.line; ++b) { x.data[b] = uint8_t(r.next()); v.getDataPtr()[b] = x.data[b]; }
                    VF_CHECK(ctx, v.isExclusive() && !v.isShared(), "two/state", "a new line is exclusive"); hit = int(w); l = &v; ctx.count("allocated");
                }
            } else {
                auto &x = s.w[size_t(hit)]; auto off = a - x.addr;
                if (k < 10) { ctx.op("read", a, size); std::vector<uint8_t> b(size); c.readWithMRUUpdate(*l, a, size, b.data()); s.o.mru(unsigned(hit)); VF_CHECK(ctx, std::equal(b.begin(), b.end(), x.data.begin() + long(off)), "two/data", "data read"); }
                else if (k < 20) { ctx.op("write", a, size); std::vector<uint8_t> b(size); for (auto &y : b) y = uint8_t(r.next()); c.writeWithMRUUpdate(*l, a, size, b.data()); std::copy(b.begin(), b.end(), x.data.begin() + long(off)); x.mod = true; s.o.mru(unsigned(hit)); }
                else if (k < 24) { ctx.op("touch mru", hit); c.touchMRU(*l); s.o.mru(unsigned(hit)); } else if (k < 27) { ctx.op("touch lru", hit); c.touchLRU(*l); s.o.lru(unsigned(hit)); }
                else if (k < 31) { ctx.op("invalidate", hit); inval(*l, tag); x.valid = false; x.nt = NT ? false : x.nt; s.o.lru(unsigned(hit)); ctx.count("invalidated"); }
                else if (k < 35) { VF_CHECK(ctx, std::equal(x.data.begin(), x.data.end(), l->getDataPtr()), "two/data", "line data"); ntFlag(*l, x, tag); }
                else if (k == 35 && r.chance(1, 8)) { ctx.op("invalidateAll"); c.invalidateAll(); for (auto &y : m.s) { for (auto &z : y.w) z.valid = false; y.o.reset(); } ctx.count("all invalidated"); }
                else if (k == 36) { auto copy(rs); cmpSet(ctx, "two/copy", copy, s, m.index(a)); copy.getReplacementIF()->touchMRU(copy.getReplacementIF()->getLRUWay()); copy = rs; cmpSet(ctx, "two/copy", copy, s, m.index(a)); for (auto &z : copy) if (z.isValid()) { z.setValid(false); break; } ctx.count("set copied"); }
            }
            cmpSet(ctx, "two", rs, s, m.index(a));
        }
        unsigned idx = 0; for (auto &s : c) { cmpSet(ctx, "two", s, m.s[idx], idx); unsigned w = 0; for (auto &l : s) { auto &x = m.s[idx].w[w++]; if (x.valid) VF_CHECK(ctx, std::equal(x.data.begin(), x.data.end(), l.getDataPtr()), "two/data", "line data"); } ++idx; } VF_EQ(ctx, uint64_t(idx), g.sets, "two/geometry", "sets");
    }
};
VF_SECTION(two, 250, 5000) { if (ctx.rng.chance(1, 2)) { Two<LineData, false> t(ctx); t.run(); } else { Two<LineDataWithNT, true> t(ctx); t.run(); } }
// Cache itself, with another decoder and its own items; and the typed accesses of a line.
struct Item : public BasicCacheItem { bool v = false; uint64_t payload = 0; bool isValid() const { return v; } bool isModified() const { return false; } };
struct Hash : public AddrDecoderIF {
    uint64_t line, sets; Hash(uint64_t l, uint64_t s) : line(l), sets(s) {}
    uint64_t calcTag(uint64_t a) const override { return a / line; }
    uint32_t calcIdx(uint64_t a) const override { uint64_t b = a / line; return uint32_t((b ^ b / sets) % sets); }
    uint64_t calcBlockAddr(uint64_t a) const override { return a / line * line; }
    uint64_t calcBlockOffset(uint64_t a) const override { return a % line; }
};
VF_SECTION(direct, 150, 3000)
{
    auto &r = ctx.rng; Geo g = geo(r, false); g.stride = g.line; auto p = rep(g); Cache<Item> c(g.size(), g.line, g.stride, Item(), *p, false); Ref m(g.line, g.stride, g.sets, g.ways, g.tree); Hash h(g.line, g.sets); bool own = r.chance(1, 2); if (own) { c.setAddrDecoder(&h); m.index = [&](uint64_t a) { return h.calcIdx(a); }; VF_CHECK(ctx, c.getAddrDecoder() == &h, "direct/decoder", "getAddrDecoder"); } Addrs ad(r, g); std::map<uint64_t, uint64_t> payload; ctx.op("geometry", g.line, g.sets, g.ways, g.tree, own);
    for (unsigned i = 0; i < 150; ++i) {
        uint64_t a = ad.pick(r); auto &s = m.set(a); int hit = m.find(a), inv = m.invalid(a); Item *it = c.getItem(a); bool cold = false; VF_EQ(ctx, it != nullptr, hit >= 0, "direct/hit", "getItem of " << std::hex << a); VF_CHECK(ctx, c.peekItem(a) == it && c.getItem(a, cold) == it, "direct/hit", "peekItem"); VF_EQ(ctx, cold, hit < 0 && inv >= 0, "direct/cold", "cold miss"); VF_EQ(ctx, c.findInvalidWay(a), inv < 0 ? g.ways : unsigned(inv), "direct/open", "findInvalidWay");
        VF_EQ(ctx, c.getLRUItem(a).getWay(), s.o.victim(), "direct/victim", "victim"); VF_CHECK(ctx, &c.peekLRUItem(a) == &c.getLRUItem(a) && &c.getItemAtIndexWay(m.index(a), s.o.victim()) == &c.getLRUItem(a) && &c.getCacheSetAtIndex(m.index(a)) == &c.getCacheSet(a) && &c.peekCacheSet(a) == &c.peekCacheSetAtIndex(m.index(a)), "direct/lookup", "the ways to find an item disagree"); ctx.count(it ? "hit" : "miss"); ctx.obs(hit, inv);
        if (it) { VF_EQ(ctx, it->payload, payload[m.blk(a)], "direct/payload", "item"); if (r.chance(1, 5)) { ctx.op("invalidate", a); it->v = false; s.w[size_t(hit)].valid = false; } else { ctx.op("use", a); c.getReplacementIF(a)->touchMRU(it->getWay()); s.o.mru(unsigned(hit)); } }
        else { Item &v = c.getCacheSet(a).getItemForReplacement(); unsigned w = inv >= 0 ? unsigned(inv) : s.o.victim(); VF_EQ(ctx, v.getWay(), w, "direct/replace", "getItemForReplacement"); ctx.op("fill", a, w); v.setAddr(a); v.v = true; v.payload = r.next(); payload[m.blk(a)] = v.payload; s.w[w].valid = true; s.w[w].addr = m.blk(a); c.getReplacementIF(a)->touchMRU(w); s.o.mru(w); }
        cmpSet(ctx, "direct", c.getCacheSet(a), s, m.index(a));
    }
    LineData l(g.line); std::vector<uint8_t> ref(g.line, 0); l.write(0, uint32_t(g.line), ref.data());
    for (unsigned i = 0; i < 60; ++i) {
        bool be = r.chance(1, 2); uint64_t v = r.next(); unsigned n = 1u << r.below(4); uint32_t idx = uint32_t(r.below(3)), off = uint32_t(r.below(g.line + 2)); bool fits = uint64_t(off) + (idx + 1) * n <= g.line; uint64_t at = off + idx * n; ctx.op("typed", n, off, idx, be);
        auto put = [&] { switch (n) { case 1: be ? l.write<uint8_t, BE>(off, uint8_t(v), idx) : l.write<uint8_t, LE>(off, uint8_t(v), idx); break; case 2: be ? l.write<uint16_t, BE>(off, uint16_t(v), idx) : l.write<uint16_t, LE>(off, uint16_t(v), idx); break; case 4: be ? l.write<uint32_t, BE>(off, uint32_t(v), idx) : l.write<uint32_t, LE>(off, uint32_t(v), idx); break; default: be ? l.write<uint64_t, BE>(off, v, idx) : l.write<uint64_t, LE>(off, v, idx); } };
        auto get = [&](bool b) -> uint64_t { switch (n) { case 1: return b ? l.read<uint8_t, BE>(off, idx) : l.read<uint8_t, LE>(off, idx); case 2: return b ? l.read<uint16_t, BE>(off, idx) : l.read<uint16_t, LE>(off, idx); case 4: return b ? l.read<uint32_t, BE>(off, idx) : l.read<uint32_t, LE>(off, idx); default: return b ? l.read<uint64_t, BE>(off, idx) : l.read<uint64_t, LE>(off, idx); } };
        if (!fits) { VF_CHECK(ctx, vf::throws<SpartaException>(put) && vf::throws<SpartaException>([&] { get(be); }), "line/bounds", "an access across the end of a line was accepted"); continue; }
        put(); for (unsigned k = 0; k < n; ++k) ref[at + k] = uint8_t(v >> 8 * (be ? n - 1 - k : k));
        bool rb = r.chance(1, 2); uint64_t want = 0; for (unsigned k = 0; k < n; ++k) want |= uint64_t(ref[at + k]) << 8 * (rb ? n - 1 - k : k);
        VF_EQ(ctx, get(rb), want, "line/typed", "value read"); VF_CHECK(ctx, std::equal(ref.begin(), ref.end(), l.getDataPtr()), "line/data", "line data"); ctx.count("typed accesses");
    }
    LineData copy(l); LineData other(8); other = l; VF_CHECK(ctx, std::equal(ref.begin(), ref.end(), copy.getDataPtr()) && other.getLineSize() == g.line && std::equal(ref.begin(), ref.end(), other.getDataPtr()), "line/copy", "copies of a line");
}
} // namespace
