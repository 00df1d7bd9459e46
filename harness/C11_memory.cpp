// C11: shared/weak pointers and their pools mirrored by std::shared_ptr graphs; FastList by std::list; ObjectAllocator by an owner set.
#include "vf.hpp"
#include "sparta/utils/SpartaSharedPointer.hpp"
#include "sparta/utils/SpartaSharedPointerAllocator.hpp"
#include "sparta/utils/FastList.hpp"
#include "sparta/kernel/ObjectAllocator.hpp"
#include "sparta/utils/SpartaException.hpp"
#include "sparta/utils/SpartaAssert.hpp"
#include <algorithm>
#include <list>
#include <memory>
using namespace sparta;
namespace {
struct Boom {};
struct Quiet { std::ostringstream s; std::streambuf *o, *e; Quiet() { o = std::cout.rdbuf(s.rdbuf()); e = std::cerr.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };

// libstdc++ releases the old object of a copy assignment before it stores the new one; the reference takes over first
template<class T, class Q> void put(SpartaSharedPointer<T> &d, const Q &v) { d = v; }
template<class T, class Q> void put(std::shared_ptr<T> &d, const Q &v) { std::shared_ptr<T> t(v); d.swap(t); }
// ---- two families of the same node type
struct RealF { template<class T> using SP = SpartaSharedPointer<T>; template<class T> using WP = SpartaWeakPointer<T>; };
struct MirF { template<class T> using SP = std::shared_ptr<T>; template<class T> using WP = std::weak_ptr<T>; };
struct Log { std::vector<std::string> ev; std::map<const void *, uint64_t> live; };
template<class F> struct World;
struct Spec { uint64_t id = 0; bool boom = false; int nest = -1; unsigned dtor = 0; bool pooled = false; };   // what constructing and destroying the object does
template<class F> struct Node {
    static constexpr uint64_t MAGIC = 0xC0FFEE1234567ull;
    World<F> *w; Spec s; uint64_t magic = MAGIC;
    typename F::template SP<Node> next, other; typename F::template WP<Node> weak;
    Node(World<F> *w_, Spec s_);
    virtual ~Node();
    virtual int kind() const { return 0; }
    bool ok() const { return magic == MAGIC; }
};
template<class F> struct Derived : Node<F> { std::string extra; Derived(World<F> *w, Spec s) : Node<F>(w, s), extra(40, char('a' + s.id % 26)) {} int kind() const override { return 1; } ~Derived() { extra[0] = 'x'; } };

// ---- mirror allocation: counts live control blocks of each pool
struct PoolM { uint64_t cap = 0, live = 0, high = 0, refused = 0; };
template<class T> struct CountAlloc {
    using value_type = T; PoolM *p; explicit CountAlloc(PoolM *q) : p(q) {}
    template<class U> CountAlloc(const CountAlloc<U> &o) : p(o.p) {}
    T *allocate(size_t n) { if (p->live >= p->cap) { ++p->refused; throw SpartaException("full"); } ++p->live; p->high = std::max(p->high, p->live); return static_cast<T *>(::operator new(n * sizeof(T))); }
    void deallocate(T *t, size_t) { --p->live; ::operator delete(t); }
    template<class U> bool operator==(const CountAlloc<U> &o) const { return p == o.p; }
    template<class U> bool operator!=(const CountAlloc<U> &o) const { return p != o.p; }
};
template<class F> struct World {
    using N = Node<F>; using D = Derived<F>; using SPN = typename F::template SP<N>; using SPD = typename F::template SP<D>; using WPN = typename F::template WP<N>; using WPD = typename F::template WP<D>;
    Log log; std::vector<Spec> *nested = nullptr;
    std::unique_ptr<SpartaSharedPointerAllocator<N>> pn; std::unique_ptr<SpartaSharedPointerAllocator<D>> pd; PoolM mn, md;
    std::vector<SPN> sp; std::vector<SPD> sd; std::vector<WPN> wp; std::vector<WPD> wd;
    unsigned depth = 0;
    SPN makeN(Spec s, bool pool)
    {
        s.pooled = pool;
        if constexpr (std::is_same_v<F, RealF>) return pool ? allocate_sparta_shared_pointer<N>(*pn, this, s) : SPN(new N(this, s));
        else return pool ? std::allocate_shared<N>(CountAlloc<N>(&mn), this, s) : SPN(new N(this, s));
    }
    SPD makeD(Spec s, bool pool)
    {
        s.pooled = pool;
        if constexpr (std::is_same_v<F, RealF>) return pool ? allocate_sparta_shared_pointer<D>(*pd, this, s) : SPD(new D(this, s));
        else return pool ? std::allocate_shared<D>(CountAlloc<D>(&md), this, s) : SPD(new D(this, s));
    }
};
template<class F> Node<F>::Node(World<F> *w_, Spec s_) : w(w_), s(s_)
{
    if (s.nest >= 0) { Spec n = (*w->nested)[s.nest]; next = w->makeN(n, s.id % 2); }
    if (s.boom) throw Boom();
    if (!w->log.live.emplace(this, s.id).second) throw vf::Violation("storage", "object " + std::to_string(s.id) + " was constructed in the storage of a live object");
    w->log.ev.push_back("+" + std::to_string(s.id));
}
template<class F> Node<F>::~Node()
{
    auto it = w->log.live.find(this);
    if (it == w->log.live.end() || magic != MAGIC) { w->log.ev.push_back("!destroyed twice: " + std::to_string(s.id)); return; }
    w->log.live.erase(it); w->log.ev.push_back("-" + std::to_string(s.id)); magic = 0xDEAD;
    switch (s.dtor) {
    case 1: { auto l = weak.lock(); w->log.ev.push_back(std::string("l") + (l ? std::to_string(l->s.id) : "null") + (weak.expired() ? "e" : "")); break; }   // lock a weak pointer while dying
    case 2: if (!w->sp.empty()) put(w->sp[s.id % w->sp.size()], next); break;                   // hand the successor over while dying
    case 3: if (!w->sp.empty()) w->sp[s.id % w->sp.size()].reset(); break;
    case 4: if (!w->sp.empty() && w->depth < 4) { ++w->depth; try { w->sp[s.id % w->sp.size()] = w->makeN(Spec{s.id + 1000000}, true); } catch (SpartaException &) { w->log.ev.push_back("full"); } --w->depth; } break;
    }
}
struct OpC { unsigned k = 0, i = 0, j = 0, b = 0; Spec s; bool pool = false; };
template<class F> std::string doOp(World<F> &w, const OpC &c)
{
    using W = World<F>; using SPN = typename W::SPN; using WPN = typename W::WPN; using N = typename W::N; using D = typename W::D;
    auto &x = w.sp[c.i]; auto &y = w.sp[c.j]; auto &dx = w.sd[c.i % w.sd.size()]; auto &dy = w.sd[c.j % w.sd.size()];
    auto &wx = w.wp[c.i % w.wp.size()]; auto &wy = w.wp[c.j % w.wp.size()]; auto &wdx = w.wd[c.i % w.wd.size()];
    try {
        switch (c.k) {
        case 0: case 1: x = w.makeN(c.s, c.pool); break;
        case 2: case 3: dx = w.makeD(c.s, c.pool); break;
        case 4: put(x, dy); break;
        case 5: x = SPN(dy); break;
        case 6: case 7: put(x, y); break;
        case 8: if (c.i != c.j) x = std::move(y); break;
        case 9: x.reset(); break;
        case 10: if (!c.s.boom) x.reset(c.b & 1 ? new N(&w, c.s) : new D(&w, c.s)); break;
        case 11: if (x) put(x, x->next); break;
        case 12: if (x) x = std::move(x->next); break;
        case 13: if (x) put(x->next, y); break;
        case 14: if (x) put(x->other, y); break;
        case 15: if (x && y) x->other = std::move(y->next); break;
        case 16: wx = y; break;
        case 17: if (&wx != &wy || !wx.expired()) wx = wy; break;   // an expired pointer may become empty in a self-assignment
        case 18: if (c.i % w.wp.size() != c.j % w.wp.size()) wx = std::move(wy); break;
        case 19: x = wy.lock(); break;
        case 20: if (x) x->weak = y; break;
        case 21: if (x) x->weak = x; break;
        case 22: wdx = dy; break;
        case 23: dx = wdx.lock(); break;
        case 24: { SPN t(x), u(std::move(t)); WPN v(u), v2(v), v3(std::move(v2)); if (!!t || !(u == x) || (u != x) || (u == nullptr) != !x || (nullptr != u) != bool(x) || (u.get() != x.get())) return "compare"; break; }
        case 25: w.sp.push_back(x); if (w.sp.size() > 40) { auto old = std::move(w.sp); w.sp = std::vector<SPN>(3); } break;
        case 26: if (w.sp.size() > 2) { auto old = std::move(w.sp[c.j]); w.sp.erase(w.sp.begin() + c.j); } break;
        case 27: dx.reset(); break;
        case 28: put(dx, dy); break;
        case 29: wx = typename W::WPN(); break;
        case 30: if (x && x->next) { auto *p = x.get(); put(p->next, p->next->next); } break;      // unlink from a chain
        case 31: { auto l1 = wx.lock(), l2 = wx.lock(); if (bool(l1) != bool(l2) || bool(l1) == wx.expired()) return "lock"; put(x, l1); break; }
        case 32: { auto l1 = wx.lock(), l2 = wy.lock(), l3 = wx.lock(); if (l1 && !l1->ok()) return "lock-dead"; put(y, l2); break; }
        case 33: if (x) { wx = x; x.reset(); if (wx.expired()) { auto l = wx.lock(); return l ? "lock" : "gone"; } } break;
        case 34: std::swap(x, y); break;
        case 35: x = SPN(nullptr); break;
        case 36: if (x) { SPN keep = x; auto &in = keep->next; put(in, keep->other); } break;
        }
    } catch (Boom &) { return "boom"; } catch (SpartaException &) { return "full"; }
    return "";
}
template<class SP> std::string show(const SP &p) { return p ? std::to_string(p->s.id) + "/" + std::to_string(p->kind()) + "/" + std::to_string(p.use_count()) : "null/" + std::to_string(p.use_count()); }
template<class F> std::string snapshot(World<F> &w)
{
    std::ostringstream o;
    for (auto &p : w.sp) o << show(p) << ' ';
    o << '|'; for (auto &p : w.sd) o << show(p) << (p ? p->extra.size() == 40 && p->extra[0] == char('a' + p->s.id % 26) : true) << ' ';
    o << '|'; for (auto &p : w.wp) o << p.expired() << p.use_count() << ' ';
    o << '|'; for (auto &p : w.wd) o << p.expired() << p.use_count() << ' ';
    std::map<uint64_t, std::string> n;
    for (auto &kv : w.log.live) { auto *x = static_cast<const Node<F> *>(kv.first); n[kv.second] = show(x->next) + "," + show(x->other) + "," + std::to_string(x->weak.use_count()) + (x->ok() ? "" : "!"); }
    for (auto &kv : n) o << '#' << kv.first << ':' << kv.second;
    return o.str();
}
} // namespace

VF_SECTION(pointers, 40000, 1500000)
{
    Quiet q;
    std::vector<Spec> nested;
    World<MirF> m; World<RealF> r; r.nested = m.nested = &nested;
    const unsigned nsp = 2 + ctx.rng.below(6), nd = 1 + ctx.rng.below(3);
    m.mn.cap = 1 + ctx.rng.below(ctx.rng.of({2, 8, 60})); m.md.cap = 1 + ctx.rng.below(8);
    const size_t wmN = ctx.rng.below(m.mn.cap + 1), wmD = ctx.rng.below(m.md.cap + 1);
    r.pn.reset(new SpartaSharedPointerAllocator<Node<RealF>>(m.mn.cap, wmN)); r.pd.reset(new SpartaSharedPointerAllocator<Derived<RealF>>(m.md.cap, wmD));
    if (ctx.rng.chance(1, 50)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { SpartaSharedPointerAllocator<Node<RealF>> bad(3, 4); }), "watermark", "a water mark above the capacity was accepted");
    uint64_t warned = 0, refused = 0; bool early = false;
    r.pn->registerCustomWaterMarkCallback([&](const auto &a) { ++warned; if (a.getNumAllocated() < wmN) early = true; });
    r.pn->registerCustomOverAllocationCallback([&](const auto &) { ++refused; });
    auto sync = [&](const std::string &what) {
        if (r.log.ev != m.log.ev) {
            size_t i = 0; while (i < r.log.ev.size() && i < m.log.ev.size() && r.log.ev[i] == m.log.ev[i]) ++i;
            ctx.fail("lifetime", "life event " + std::to_string(i) + " after " + what + ": got " + (i < r.log.ev.size() ? r.log.ev[i] : "nothing") + " want " + (i < m.log.ev.size() ? m.log.ev[i] : "nothing"));
        }
        std::string a = snapshot(r), b = snapshot(m);
        VF_EQ(ctx, a, b, "state", "pointers after " << what);
        ctx.obs(a); ctx.events += r.log.ev.size(); r.log.ev.clear(); m.log.ev.clear();
        VF_EQ(ctx, r.pn->getNumAllocated(), m.mn.high, "pool-allocated", "blocks taken from the pool after " << what); VF_EQ(ctx, r.pn->getNumFree(), m.mn.high - m.mn.live, "pool-free", "free blocks after " << what);
        VF_EQ(ctx, r.pd->getNumAllocated(), m.md.high, "pool-allocated", "derived blocks taken after " << what); VF_EQ(ctx, r.pd->getNumFree(), m.md.high - m.md.live, "pool-free", "free derived blocks after " << what);
        VF_EQ(ctx, r.pn->hasOutstandingObjects(), m.mn.live != 0, "pool-outstanding", "hasOutstandingObjects");
        std::set<uint64_t> got, want; for (auto *o : r.pn->getOutstandingAllocatedObjects()) got.insert(o->s.id); for (auto *o : r.pd->getOutstandingAllocatedObjects()) got.insert(o->s.id);
        for (auto &kv : m.log.live) { auto *x = static_cast<const Node<MirF> *>(kv.first); if (x->s.pooled) want.insert(x->s.id); }
        VF_CHECK(ctx, got == want, "pool-outstanding", "outstanding objects after " << what << ": " << got.size() << " instead of " << want.size());
        VF_EQ(ctx, refused, m.mn.refused, "over-allocation", "over-allocation callbacks"); VF_CHECK(ctx, warned <= 1 && !early, "watermark", "water mark warned " << warned << " times" << (early ? " too early" : ""));
        VF_CHECK(ctx, warned || m.mn.high < wmN + 2, "watermark", "no water mark warning at " << m.mn.high << " blocks, mark " << wmN);
    };
    r.sp.resize(nsp); m.sp.resize(nsp); r.sd.resize(nd); m.sd.resize(nd); r.wp.resize(3); m.wp.resize(3); r.wd.resize(2); m.wd.resize(2);
    uint64_t id = 1; const bool wild = ctx.rng.chance(1, 2);
    for (unsigned step = 0, n = 10 + ctx.rng.below(90); step < n; ++step) {
        OpC c; c.k = ctx.rng.below(37); c.i = ctx.rng.below(m.sp.size()); c.j = ctx.rng.below(m.sp.size()); c.b = ctx.rng.below(4); c.pool = ctx.rng.chance(2, 3);
        c.s.id = id++; c.s.boom = ctx.rng.chance(1, 60); if (wild && ctx.rng.chance(1, 3)) c.s.dtor = 1 + ctx.rng.below(4);
        if (ctx.rng.chance(1, 12)) { Spec s; s.id = id++; s.boom = ctx.rng.chance(1, 20); nested.push_back(s); c.s.nest = int(nested.size()) - 1; }
        ctx.op([&](auto &o) { o << "op " << c.k << " i " << c.i << " j " << c.j << " id " << c.s.id << (c.pool ? " pool" : "") << (c.s.boom ? " boom" : "") << " nest " << c.s.nest << " dtor " << c.s.dtor; });
        std::string a = doOp(m, c), b = doOp(r, c);
        VF_EQ(ctx, b, a, "outcome", "outcome of operation " << c.k);
        sync("operation " + std::to_string(c.k));
    }
    { auto a = std::move(m.sp); m.sp.clear(); } { auto a = std::move(r.sp); r.sp.clear(); } m.sd.clear(); r.sd.clear(); m.wp.clear(); r.wp.clear(); m.wd.clear(); r.wd.clear();
    sync("dropping the roots");
    while (!m.log.live.empty()) {
        auto pick = [&](auto &w, auto *tag) { auto it = w.log.live.begin(); for (auto j = it; j != w.log.live.end(); ++j) if (j->second < it->second) it = j; return static_cast<decltype(tag)>(const_cast<void *>(it->first)); };
        auto *a = pick(m, (Node<MirF> *)nullptr); auto *b = pick(r, (Node<RealF> *)nullptr); const uint64_t i = a->s.id; size_t before = m.log.live.size();
        { auto n = std::move(a->next), o = std::move(a->other); } { auto n = std::move(b->next), o = std::move(b->other); }
        sync("opening a cycle"); (void)i;
        if (m.log.live.size() == before) VF_CHECK(ctx, !m.log.live.empty() && (m.log.live.size() > 1), "harness", "a root cannot be released");
        // a node without links is released by whoever refers to it: continue with the next one
        bool all = true; for (auto &kv : m.log.live) { auto *x = static_cast<const Node<MirF> *>(kv.first); if (x->next || x->other) all = false; }
        if (all) VF_CHECK(ctx, m.log.live.empty(), "harness", "objects without owner remain");
        else { // move on: detach from every remaining node in id order
            std::vector<uint64_t> ids; for (auto &kv : m.log.live) ids.push_back(kv.second); std::sort(ids.begin(), ids.end());
            for (auto d : ids) {
                auto find = [&](auto &w, auto *tag) { for (auto &kv : w.log.live) if (kv.second == d) return static_cast<decltype(tag)>(const_cast<void *>(kv.first)); return decltype(tag)(nullptr); };
                auto *x = find(m, (Node<MirF> *)nullptr); if (!x) continue; auto *y = find(r, (Node<RealF> *)nullptr); VF_CHECK(ctx, y, "lifetime", "object " << d << " is gone");
                { auto n = std::move(x->next), o = std::move(x->other); } { auto n = std::move(y->next), o = std::move(y->other); }
                sync("opening cycles");
            }
        }
    }
    VF_EQ(ctx, r.log.live.size(), size_t(0), "lifetime", "objects alive at the end"); VF_EQ(ctx, r.pn->getNumFree(), r.pn->getNumAllocated(), "pool-free", "blocks not returned");
}

namespace {
struct B1 { virtual ~B1() {} uint64_t a = 1; }; struct B2 { virtual ~B2() {} uint64_t b = 2; }; struct MI : B1, B2 { uint64_t c = 3; };
}
VF_SECTION(second_base, 20, 20)
{
    SpartaSharedPointer<MI> d(new MI); SpartaSharedPointer<B1> b1(d); SpartaSharedPointer<B2> b2(d);
    VF_CHECK(ctx, b1.get() == static_cast<B1 *>(d.get()), "upcast", "pointer to the first base"); ctx.obs(1);
    VF_CHECK(ctx, b2.get() == static_cast<B2 *>(d.get()), "upcast-second-base", "a shared pointer converted to a base class that is not at the start of the object does not point to that base"); ctx.obs(2);
}

namespace {
struct Tr {       // counts instances by address
    static std::set<const void *> live; static bool boomNext, bad; uint64_t v; std::string s;
    explicit Tr(uint64_t x) : v(x), s(30, 'q') { if (boomNext) { boomNext = false; throw Boom(); } reg(); }
    Tr(uint64_t x, const std::string &t) : v(x), s(t) { reg(); }
    Tr(const Tr &o) : v(o.v), s(o.s) { reg(); }
    ~Tr() { if (!live.erase(this)) bad = true; }
    void reg() { if (!live.insert(this).second) bad = true; }
};
std::set<const void *> Tr::live; bool Tr::boomNext = false, Tr::bad = false;
}
VF_SECTION(fastlist, 20000, 600000)
{
    Tr::live.clear(); Tr::bad = false; Tr::boomNext = false;
    const unsigned cap = 1 + ctx.rng.below(ctx.rng.of({2, 6, 40}));
    using FL = utils::FastList<Tr>;
    if (ctx.rng.chance(1, 60)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { FL z(0); }), "zero", "a list of no elements was accepted");
    {
        FL f(cap); const FL &cf = f; std::list<uint64_t> m; std::vector<FL::iterator> its; std::map<uint64_t, FL::iterator> where; uint64_t id = 1;
        auto check = [&](const char *what) {
            VF_EQ(ctx, f.size(), m.size(), "size", "size after " << what); VF_EQ(ctx, f.empty(), m.empty(), "size", "empty after " << what); VF_EQ(ctx, f.max_size(), size_t(cap), "size", "max_size");
            VF_EQ(ctx, Tr::live.size(), m.size(), "lifetime", "live elements after " << what); VF_CHECK(ctx, !Tr::bad, "lifetime", "element destroyed or constructed twice after " << what);
            auto a = m.begin(); auto it = f.begin(); auto cit = cf.begin();
            for (; a != m.end(); ++a, ++it, ++cit) {
                VF_CHECK(ctx, it != f.end() && it.isValid() && !(it == f.end()), "order", "list too short after " << what);
                VF_EQ(ctx, it->v, *a, "order", "element after " << what); VF_EQ(ctx, (*cit).v, *a, "order", "element of the const list"); ctx.obs(*a);
                VF_CHECK(ctx, where.at(*a) == it && where.at(*a)->v == *a && where.at(*a).getIndex() == it.getIndex(), "iterator", "saved iterator of " << *a << " after " << what);
            }
            VF_CHECK(ctx, it == f.end() && !it.isValid(), "order", "list too long after " << what);
            if (!m.empty()) { VF_EQ(ctx, f.front().v, m.front(), "order", "front"); VF_EQ(ctx, cf.front().v, m.front(), "order", "const front"); }
        };
        auto nth = [&](std::list<uint64_t>::iterator t) { return t == m.end() ? f.end() : where.at(*t); };
        for (unsigned n = 10 + ctx.rng.below(120); n--;) {
            auto pos = m.begin(); std::advance(pos, ctx.rng.below(m.size() + 1));
            const unsigned k = ctx.rng.below(14); const bool full = m.size() == cap;
            ctx.op([&](auto &o) { o << "op " << k << " at " << (pos == m.end() ? 0 : *pos) << " id " << id; });
            if (k < 7) {
                if (full && !ctx.rng.chance(1, 12)) continue;
                bool boom = ctx.rng.chance(1, 25) && !full; Tr::boomNext = boom; const bool withStr = !boom && ctx.rng.chance(1, 3); std::string st = "abc";
                FL::iterator it; bool threw = false, exh = false;
                try {
                    switch (k) {
                    case 0: case 1: it = withStr ? f.emplace_back(id, st) : f.emplace_back(id); pos = m.end(); break;
                    case 2: it = withStr ? f.emplace_front(id, st) : f.emplace_front(id); pos = m.begin(); break;
                    case 3: case 4: case 5: it = withStr ? f.emplace(nth(pos), id, st) : f.emplace(nth(pos), id); break;
                    default: it = f.insert(nth(pos), id);
                    }
                } catch (Boom &) { threw = true; } catch (SpartaException &) { exh = true; }
                VF_EQ(ctx, exh, full, "exhausted", "room for one more element"); VF_EQ(ctx, threw, boom, "exception", "constructor exception");
                if (!exh && !threw) { m.insert(pos, id); VF_CHECK(ctx, where.emplace(id, it).second, "harness", "id"); VF_EQ(ctx, it->v, id, "iterator", "returned iterator"); ++id; }
                Tr::boomNext = false;
            } else if (k < 11) {
                if (pos == m.end()) continue;
                auto it = where.at(*pos); where.erase(*pos); auto nx = std::next(pos); 
                auto ret = ctx.rng.chance(1, 2) ? f.erase(it) : f.erase(FL::const_iterator(it));
                VF_CHECK(ctx, ret == (nx == m.end() ? f.end() : where.at(*nx)), "iterator", "iterator returned by erase"); m.erase(pos);
            } else if (k == 11) { if (m.empty()) { if (ctx.rng.chance(1, 8)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { f.pop_back(); }) && vf::throws<SpartaException>([&] { f.pop_front(); }), "empty", "pop of an empty list"); } else { where.erase(m.back()); m.pop_back(); f.pop_back(); } }
            else if (k == 12) { if (!m.empty()) { where.erase(m.front()); m.pop_front(); f.pop_front(); } }
            else if (ctx.rng.chance(1, 4)) { f.clear(); m.clear(); where.clear(); }
            else if (ctx.rng.chance(1, 3)) {   // a copy is another list
                { FL g(f); VF_EQ(ctx, g.size(), m.size(), "copy", "size of a copy"); auto a = m.begin(); for (auto &e : g) { VF_EQ(ctx, e.v, *a, "copy", "element of a copy"); ++a; }
                  VF_EQ(ctx, Tr::live.size(), 2 * m.size(), "copy", "elements of list and copy"); if (!m.empty()) { g.pop_front(); g.emplace_back(7u); } }
            }
            check("an operation");
        }
    }
    VF_CHECK(ctx, Tr::live.empty() && !Tr::bad, "lifetime", "elements left after the list is gone");
}

VF_SECTION(object_allocator, 1500, 40000)
{
    Tr::live.clear(); Tr::bad = false;
    {
        ObjectAllocator<Tr> a; std::vector<Tr *> owned; std::set<Tr *> set, ever; uint64_t id = 1;
        for (unsigned n = 10 + ctx.rng.below(200); n--;) {
            if (owned.empty() || ctx.rng.chance(1, 2)) {
                size_t before = Tr::live.size(); const bool reuse = ever.size() > set.size();
                Tr *t = a.create(id++); VF_CHECK(ctx, Tr::live.count(t), "storage", "a dead object was handed out"); VF_CHECK(ctx, set.insert(t).second, "storage", "an owned object was handed out again");
                VF_EQ(ctx, Tr::live.size(), before + !reuse, "reuse", "objects after create"); ever.insert(t); owned.push_back(t);
            } else { size_t i = ctx.rng.below(owned.size()); a.free(owned[i]); set.erase(owned[i]); owned.erase(owned.begin() + i); VF_EQ(ctx, Tr::live.size(), ever.size(), "lifetime", "objects after free"); }
            if (ctx.rng.chance(1, 80)) { a.clear(); owned.clear(); set.clear(); ever.clear(); VF_CHECK(ctx, Tr::live.empty(), "lifetime", "objects after clear"); }
            ctx.obs(owned.size() * 100 + ever.size());
        }
    }
    VF_CHECK(ctx, Tr::live.empty() && !Tr::bad, "lifetime", "objects left after the allocator is gone");
}
