// C08: sequential containers against abstract models.  Elements own heap memory and register
// themselves, so that a lost, duplicated, bitwise-moved or stale element is noticed; held
// iterators are re-examined after every operation.
#include "simenv.hpp"
#include "sparta/resources/Queue.hpp"
#include "sparta/resources/Buffer.hpp"
#include "sparta/resources/CircularBuffer.hpp"
#include "sparta/resources/Array.hpp"
#include "sparta/resources/FrontArray.hpp"
#include "sparta/resources/PriorityQueue.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include <deque>
#include <list>
#include <optional>
using namespace sparta;
namespace {
struct Elem {
    static std::unordered_set<const Elem *> live;
    std::unique_ptr<uint64_t> v;     // null once moved from
    const Elem *self;
    Elem() : v(new uint64_t(~0ull)), self(this) { live.insert(this); }
    explicit Elem(uint64_t x) : v(new uint64_t(x)), self(this) { live.insert(this); }
    Elem(const Elem &o) : v(o.v ? new uint64_t(*o.v) : nullptr), self(this) { live.insert(this); }
    Elem(Elem &&o) noexcept : v(std::move(o.v)), self(this) { live.insert(this); }
    Elem &operator=(const Elem &o) { v.reset(o.v ? new uint64_t(*o.v) : nullptr); return *this; }
    Elem &operator=(Elem &&o) noexcept { v = std::move(o.v); return *this; }
    ~Elem() { if (!live.erase(this) || self != this) bad = true; }
    static bool bad;
    uint64_t id() const { return live.count(this) && self == this && v ? *v : ~0ull - 1; }
    bool operator==(const Elem &o) const { return id() == o.id(); }
};
std::ostream &operator<<(std::ostream &o, const Elem &e) { return o << e.id(); }
std::unordered_set<const Elem *> Elem::live;
bool Elem::bad = false;

uint32_t cap(vf::Ctx &ctx) { return ctx.rng.chance(1, 12) ? 0 : ctx.rng.chance(1, 10) ? 1 + ctx.rng.below(40) : 1 + ctx.rng.below(8); }
struct Life {      // every element the containers do not hold must be gone
    Life() { Elem::live.clear(); Elem::bad = false; }
    void check(vf::Ctx &ctx, size_t n) {
        VF_CHECK(ctx, !Elem::bad, "lifetime", "an element was destroyed twice or moved bitwise");
        VF_EQ(ctx, Elem::live.size(), n, "lifetime", "live elements");
    }
};
template<class F> void mustThrow(vf::Ctx &ctx, F &&f, const char *what)
{
    bool t = false;
    try { f(); } catch (const SpartaException &) { t = true; }
    VF_CHECK(ctx, t, "misuse-accepted", what);
    ctx.count("misuse_rejected");
}
}

// ---------------------------------------------------------------- Queue
static void vf_queue(vf::Ctx &ctx)
{
    Life life;
    {
        const uint32_t N = cap(ctx);
        Scheduler sched; Clock clk("clk", &sched);
        Queue<Elem> q("q", N, &clk), other("o", 2, &clk);
        std::deque<uint64_t> m;
        uint64_t next = 1;
        struct Held { Queue<Elem>::iterator it; uint64_t id; };
        std::vector<Held> held;
        auto check = [&] {
            VF_EQ(ctx, q.size(), m.size(), "size", "size"); VF_EQ(ctx, q.capacity(), N, "size", "capacity");
            VF_EQ(ctx, q.numFree(), N - m.size(), "size", "numFree"); VF_EQ(ctx, q.empty(), m.empty(), "size", "empty");
            for (uint32_t i = 0; i < m.size(); ++i) {
                VF_EQ(ctx, q.read(i).id(), m[i], "content", "read(" << i << ")");
                VF_EQ(ctx, q.access(i).id(), m[i], "content", "access(" << i << ")");
                VF_CHECK(ctx, q.isValid(i), "valid", "isValid(" << i << ")");
            }
            for (uint32_t i = m.size(); i < N + 3; ++i) VF_CHECK(ctx, !q.isValid(i), "valid", "isValid(" << i << ") past the end");
            if (!m.empty()) { VF_EQ(ctx, q.front().id(), m.front(), "content", "front"); VF_EQ(ctx, q.back().id(), m.back(), "content", "back"); }
            size_t k = 0;
            for (auto it = q.begin(); it != q.end(); ++it, ++k) {
                VF_CHECK(ctx, k < m.size(), "iterate", "too many elements iterated");
                VF_EQ(ctx, (*it).id(), m[k], "iterate", "iterated element");
                VF_EQ(ctx, it->id(), m[k], "iterate", "iterated element"); VF_EQ(ctx, it.getIndex(), k, "iterate", "getIndex");
            }
            VF_EQ(ctx, k, m.size(), "iterate", "elements iterated");
            const auto &cq = q; k = 0;
            for (const auto &e : cq) { VF_CHECK(ctx, k < m.size() && e.id() == m[k], "iterate", "const iteration"); ++k; }
            VF_EQ(ctx, k, m.size(), "iterate", "elements iterated");
            if (!m.empty()) {
                auto it = q.end();
                for (size_t j = m.size(); j-- > 0;) { if (j % 2) --it; else it--; VF_EQ(ctx, it->id(), m[j], "iterate", "backward iteration"); }
                VF_CHECK(ctx, it == q.begin(), "iterate", "backward iteration ends at begin");
            }
            for (auto &h : held) {
                auto p = std::find(m.begin(), m.end(), h.id);
                bool in = p != m.end();
                VF_EQ(ctx, h.it.isValid(), in, "iterator-validity", "iterator of element " << h.id);
                if (in) {
                    VF_EQ(ctx, h.it->id(), h.id, "iterator-target", "iterator designates");
                    VF_EQ(ctx, h.it.getIndex(), uint32_t(p - m.begin()), "iterator-target", "index of iterator");
                    Queue<Elem>::const_iterator ci(h.it);
                    VF_CHECK(ctx, ci.isValid() && (*ci).id() == h.id, "iterator-target", "const copy");
                    auto n = h.it; ++n;
                    if (p + 1 == m.end()) VF_CHECK(ctx, n == q.end() && !n.isValid(), "iterator-target", "increment of the last");
                    else VF_EQ(ctx, n->id(), *(p + 1), "iterator-target", "next");
                } else if (ctx.rng.chance(1, 8)) mustThrow(ctx, [&] { (void)*h.it; }, "dereferenced a removed element");
                if (in) for (auto &g : held) {
                    auto r = std::find(m.begin(), m.end(), g.id);
                    if (r == m.end()) continue;
                    VF_EQ(ctx, h.it < g.it, p < r, "iterator-order", "<"); VF_EQ(ctx, h.it > g.it, p > r, "iterator-order", ">");
                    VF_EQ(ctx, h.it == g.it, p == r, "iterator-order", "=="); VF_EQ(ctx, h.it != g.it, p != r, "iterator-order", "!=");
                }
            }
            life.check(ctx, m.size());
            ctx.obs(m.size() * 64 + (m.empty() ? 0 : m.front() % 64));
        };
        check();
        unsigned steps = 10 + ctx.rng.below(ctx.thorough ? 300 : 120), bias = 1 + ctx.rng.below(3);
        for (unsigned s = 0; s < steps; ++s) {
            unsigned r = ctx.rng.below(12);
            if (r < 4 + bias) {
                if (m.size() == N) mustThrow(ctx, [&] { q.push(Elem(next)); }, "pushed into a full queue");
                else {
                    uint64_t id = next++;
                    ctx.op([&](auto &o) { o << "push " << id; });
                    Queue<Elem>::iterator it;
                    if (ctx.rng.chance(1, 2)) it = q.push(Elem(id)); else { const Elem e(id); it = q.push(e); }
                    m.push_back(id);
                    if (held.size() < 6) held.push_back({it, id}); else if (ctx.rng.chance(1, 3)) ctx.rng.pick(held) = {it, id};
                }
            } else if (r < 8) {
                if (m.empty()) mustThrow(ctx, [&] { q.pop(); }, "popped an empty queue");
                else { ctx.op("pop"); q.pop(); m.pop_front(); }
            } else if (r == 8) {
                if (m.empty()) mustThrow(ctx, [&] { q.pop_back(); }, "popped an empty queue");
                else { ctx.op("pop_back"); q.pop_back(); m.pop_back(); }
            } else if (r == 9) {
                if (ctx.rng.chance(1, 4)) { ctx.op("clear"); q.clear(); m.clear(); }
            } else if (r == 10) {
                uint32_t i = m.size() + ctx.rng.below(4);
                mustThrow(ctx, [&] { q.read(i); }, "read past the end"); mustThrow(ctx, [&] { q.access(i); }, "access past the end");
                mustThrow(ctx, [&] { auto e = q.end(); ++e; }, "incremented end");
                mustThrow(ctx, [&] { auto e = q.end(); (void)*e; }, "dereferenced end");
                mustThrow(ctx, [&] { Queue<Elem>::iterator d; (void)*d; }, "dereferenced a detached iterator");
                if (m.empty()) { mustThrow(ctx, [&] { q.front(); }, "front of empty"); mustThrow(ctx, [&] { q.back(); }, "back of empty"); }
                else { mustThrow(ctx, [&] { auto b = q.begin(); --b; }, "decremented begin");
                       mustThrow(ctx, [&] { (void)(q.begin() == other.begin()); }, "compared iterators of two queues"); }
            } else if (!m.empty()) {
                uint32_t i = ctx.rng.below(m.size()); uint64_t id = next++;
                ctx.op([&](auto &o) { o << "assign " << i; });
                *q.access(i).v = id;
                for (auto &h : held) if (h.id == m[i]) h.id = id;
                m[i] = id;
            }
            check();
        }
    }
    life.check(ctx, 0);
}
VF_SECTION(queue, 1500, 60000) { vf_queue(ctx); }

// ---------------------------------------------------------------- Buffer
VF_SECTION(buffer, 1800, 80000)
{
    Life life;
    {
        uint32_t N = cap(ctx);
        Scheduler sched; Clock clk("clk", &sched);
        std::unique_ptr<Buffer<Elem>> b(new Buffer<Elem>("b", N, &clk)), moved;
        Buffer<Elem> other("o", 2, &clk);
        bool inf = ctx.rng.chance(1, 3);
        if (inf) b->makeInfinite(1 + ctx.rng.below(4));
        std::vector<uint64_t> m;
        uint64_t next = 1;
        struct Held { Buffer<Elem>::iterator it; uint64_t id; };
        std::vector<Held> held;
        auto pos = [&](uint64_t id) { return std::find(m.begin(), m.end(), id) - m.begin(); };
        auto check = [&] {
            if (inf) { VF_CHECK(ctx, b->capacity() >= N && b->capacity() >= m.size(), "size", "capacity of an infinite buffer"); N = b->capacity(); }
            VF_EQ(ctx, b->size(), m.size(), "size", "size"); VF_EQ(ctx, b->capacity(), N, "size", "capacity");
            VF_EQ(ctx, b->numFree(), N - m.size(), "size", "numFree"); VF_EQ(ctx, b->empty(), m.empty(), "size", "empty");
            for (uint32_t i = 0; i < m.size(); ++i) {
                VF_EQ(ctx, b->read(i).id(), m[i], "content", "read(" << i << ")"); VF_EQ(ctx, b->access(i).id(), m[i], "content", "access(" << i << ")");
                VF_CHECK(ctx, b->isValid(i), "valid", "isValid");
            }
            for (uint32_t i = m.size(); i < N + 2; ++i) VF_CHECK(ctx, !b->isValid(i), "valid", "isValid past the end");
            if (!m.empty()) VF_EQ(ctx, b->accessBack().id(), m.back(), "content", "accessBack");
            size_t k = 0;
            for (auto it = b->begin(); it != b->end(); ++it, ++k) {
                VF_CHECK(ctx, k < m.size(), "iterate", "too many elements iterated");
                VF_EQ(ctx, it->id(), m[k], "iterate", "iterated"); VF_CHECK(ctx, it.isValid(), "iterate", "valid while iterating");
                VF_EQ(ctx, b->read(it).id(), m[k], "iterate", "read(iterator)"); VF_EQ(ctx, b->access(it).id(), m[k], "iterate", "access(iterator)");
            }
            VF_EQ(ctx, k, m.size(), "iterate", "elements iterated");
            k = m.size();
            for (auto it = b->rbegin(); it != b->rend(); ++it) {
                VF_CHECK(ctx, k > 0, "iterate", "too many elements reverse iterated");
                --k; VF_EQ(ctx, (*it).id(), m[k], "iterate", "reverse iterated"); VF_EQ(ctx, b->read(it).id(), m[k], "iterate", "read(reverse)");
            }
            VF_EQ(ctx, k, size_t(0), "iterate", "reverse iterated all");
            const auto &cb = *b; k = 0;
            for (const auto &e : cb) { VF_CHECK(ctx, k < m.size() && e.id() == m[k], "iterate", "const iteration"); ++k; }
            for (auto it = cb.rbegin(); it != cb.rend(); ++it) --k;
            VF_EQ(ctx, k, size_t(0), "iterate", "const reverse iteration");
            for (auto &h : held) {
                size_t p = pos(h.id); bool in = p < m.size();
                VF_EQ(ctx, h.it.isValid(), in, "iterator-validity", "iterator of element " << h.id);
                if (!in) {
                    if (ctx.rng.chance(1, 8)) mustThrow(ctx, [&] { (void)*h.it; }, "dereferenced a removed element");
                    if (ctx.rng.chance(1, 8)) mustThrow(ctx, [&] { auto i = h.it; ++i; }, "incremented an iterator of a removed element");
                    if (ctx.rng.chance(1, 8)) mustThrow(ctx, [&] { b->erase(h.it); }, "erased a removed element");
                    if (ctx.rng.chance(1, 8)) mustThrow(ctx, [&] { b->read(h.it); }, "read a removed element");
                    if (ctx.rng.chance(1, 8)) mustThrow(ctx, [&] { b->access(h.it); }, "accessed a removed element");
                    continue;
                }
                VF_EQ(ctx, h.it->id(), h.id, "iterator-target", "iterator designates"); VF_EQ(ctx, b->read(h.it).id(), h.id, "iterator-target", "read(iterator)");
                auto n = h.it; ++n;
                if (p + 1 == m.size()) VF_CHECK(ctx, n == b->end(), "iterator-target", "increment of the last");
                else VF_EQ(ctx, n->id(), m[p + 1], "iterator-target", "next");
                if (p) { auto d = h.it; --d; VF_EQ(ctx, d->id(), m[p - 1], "iterator-target", "previous"); }
                for (auto &g : held) {
                    size_t r = pos(g.id);
                    if (r == m.size()) continue;
                    VF_EQ(ctx, h.it < g.it, p < r, "iterator-order", "<"); VF_EQ(ctx, h.it > g.it, p > r, "iterator-order", ">");
                    VF_EQ(ctx, h.it == g.it, p == r, "iterator-order", "==");
                }
            }
            life.check(ctx, m.size());
            ctx.obs(m.size() * 64 + (m.empty() ? 0 : m.front() % 64));
        };
        auto hold = [&](Buffer<Elem>::iterator it, uint64_t id) {
            if (held.size() < 6) held.push_back({it, id}); else if (ctx.rng.chance(1, 3)) ctx.rng.pick(held) = {it, id};
        };
        check();
        unsigned steps = 10 + ctx.rng.below(ctx.thorough ? 250 : 100);
        for (unsigned s = 0; s < steps; ++s) {
            unsigned r = ctx.rng.below(14);
            bool full = !inf && m.size() == N;
            if (r < 6) {
                bool grow = inf && m.size() == N;     // growing moves the elements
                uint64_t id = next; unsigned how = ctx.rng.below(5);
                uint32_t at = how == 0 ? m.size() : ctx.rng.below(m.size() + 1);
                Buffer<Elem>::iterator it;
                auto ins = [&] {
                    if (how == 0) { if (ctx.rng.chance(1, 2)) return b->push_back(Elem(id)); const Elem e(id); return b->push_back(e); }
                    if (how == 1 || at == m.size()) { if (ctx.rng.chance(1, 2)) return b->insert(at, Elem(id)); const Elem e(id); return b->insert(at, e); }
                    auto p = b->begin(); for (uint32_t i = 0; i < at; ++i) ++p;
                    if (how == 2) { if (ctx.rng.chance(1, 2)) return b->insert(p, Elem(id)); const Elem e(id); return b->insert(p, e); }
                    Buffer<Elem>::const_reverse_iterator rp{Buffer<Elem>::const_iterator(p)};   // base() is element `at`
                    if (ctx.rng.chance(1, 2)) return b->insert(rp, Elem(id)); const Elem e(id); return b->insert(rp, e);
                };
                if (full) mustThrow(ctx, ins, "inserted into a full buffer");
                else {
                    ctx.op([&](auto &o) { o << "insert " << id << " at " << at << " how " << how << (grow ? " growing" : ""); });
                    if (grow) { held.clear(); ctx.count("grow"); }
                    it = ins(); ++next;
                    m.insert(m.begin() + at, id); hold(it, id);
                }
            } else if (r < 10) {
                if (m.empty()) { mustThrow(ctx, [&] { b->erase(0u); }, "erased from an empty buffer"); mustThrow(ctx, [&] { b->erase(b->end()); }, "erased end"); }
                else {
                    uint32_t at = ctx.rng.below(m.size()); unsigned how = ctx.rng.below(3);
                    ctx.op([&](auto &o) { o << "erase at " << at << " how " << how; });
                    auto p = b->begin(); for (uint32_t i = 0; i < at; ++i) ++p;
                    if (how == 0) b->erase(at);
                    else if (how == 1) {
                        auto n = b->erase(p);
                        if (at + 1 == m.size()) VF_CHECK(ctx, n == b->end(), "erase-result", "erase of the last returns end");
                        else VF_EQ(ctx, n->id(), m[at + 1], "erase-result", "erase returns the next element");
                    } else {
                        auto q = p; ++q;
                        auto n = b->erase(Buffer<Elem>::const_reverse_iterator(Buffer<Elem>::const_iterator(q)));
                        if (at == 0) VF_CHECK(ctx, n == b->rend(), "erase-result", "reverse erase of the first returns rend");
                        else VF_EQ(ctx, (*n).id(), m[at - 1], "erase-result", "reverse erase returns the next in reverse order");
                    }
                    m.erase(m.begin() + at);
                }
            } else if (r == 10) {
                if (ctx.rng.chance(1, 4)) { ctx.op("clear"); b->clear(); m.clear(); }
            } else if (r == 11) {
                uint32_t i = m.size() + ctx.rng.below(3);
                mustThrow(ctx, [&] { b->read(i); }, "read past the end"); mustThrow(ctx, [&] { b->access(i); }, "access past the end");
                mustThrow(ctx, [&] { b->erase(i); }, "erase past the end");
                if (!inf || m.size() < N) mustThrow(ctx, [&] { b->insert(m.size() + 1, Elem(1)); }, "insert past the end");
                mustThrow(ctx, [&] { (void)*b->end(); }, "dereferenced end"); mustThrow(ctx, [&] { ++b->end(); }, "incremented end");
                mustThrow(ctx, [&] { (void)*Buffer<Elem>::iterator(); }, "dereferenced a detached iterator");
                mustThrow(ctx, [&] { (void)(b->begin() == other.begin()); }, "compared iterators of two buffers");
                if (!m.empty()) { mustThrow(ctx, [&] { other.erase(b->begin()); }, "erased an entry of another buffer"); mustThrow(ctx, [&] { --b->begin(); }, "decremented begin"); }
            } else if (r == 12 && ctx.rng.chance(1, 3)) {
                ctx.op("move-construct");
                moved = std::move(b); b.reset(new Buffer<Elem>(std::move(*moved)));
                VF_EQ(ctx, moved->size(), 0u, "move", "moved-from size");
                moved.reset();      // destroying the source must not disturb the destination
                held.clear();
            } else if (!m.empty()) {
                uint32_t i = ctx.rng.below(m.size()); uint64_t id = next++;
                *b->access(i).v = id;
                for (auto &h : held) if (h.id == m[i]) h.id = id;
                m[i] = id;
            }
            check();
        }
    }
    life.check(ctx, 0);
}

// ---------------------------------------------------------------- CircularBuffer
VF_SECTION(circular, 1500, 60000)
{
    Life life;
    {
        const uint32_t N = cap(ctx);
        Scheduler sched; Clock clk("clk", &sched);
        typedef CircularBuffer<Elem> CB;
        CB b("cb", N, &clk), other("o", 2, &clk);
        std::deque<uint64_t> m;
        uint64_t next = 1;
        struct Held { CB::iterator it; uint64_t id; };
        std::vector<Held> held;
        auto pos = [&](uint64_t id) { return size_t(std::find(m.begin(), m.end(), id) - m.begin()); };
        auto at = [&](size_t i) { auto it = b.begin(); while (i--) ++it; return it; };
        auto check = [&] {
            VF_EQ(ctx, b.size(), m.size(), "size", "size"); VF_EQ(ctx, b.capacity(), N, "size", "capacity"); VF_EQ(ctx, b.numFree(), N - m.size(), "size", "numFree");
            size_t k = 0;
            for (auto it = b.begin(); it != b.end(); ++it, ++k) {
                VF_CHECK(ctx, k < m.size(), "iterate", "too many elements iterated"); VF_EQ(ctx, it->id(), m[k], "iterate", "iterated");
                VF_EQ(ctx, b[k].id(), m[k], "content", "operator[]"); VF_CHECK(ctx, b.isValid(k), "valid", "isValid");
            }
            VF_EQ(ctx, k, m.size(), "iterate", "iterated all"); VF_CHECK(ctx, !b.isValid(k), "valid", "isValid past the end");
            for (auto it = b.rbegin(); it != b.rend(); ++it) { VF_CHECK(ctx, k > 0, "iterate", "too many reverse"); --k; VF_EQ(ctx, (*it).id(), m[k], "iterate", "reverse iterated"); VF_CHECK(ctx, it.isValid(), "iterate", "reverse valid"); }
            VF_EQ(ctx, k, size_t(0), "iterate", "reverse iterated all");
            const auto &c = b;
            for (auto it = c.begin(); it != c.end(); it++) { VF_CHECK(ctx, k < m.size() && (*it).id() == m[k], "iterate", "const iteration"); ++k; }
            for (auto it = c.rbegin(); it != c.rend(); ++it) { --k; VF_EQ(ctx, (*it).id(), m[k], "iterate", "const reverse iteration"); }
            VF_EQ(ctx, k, size_t(0), "iterate", "const iteration");
            for (auto &h : held) {
                size_t p = pos(h.id); bool in = p < m.size();
                VF_EQ(ctx, h.it.isValid(), in, "iterator-validity", "iterator of " << h.id);
                if (!in) {
                    if (ctx.rng.chance(1, 8)) mustThrow(ctx, [&] { (void)*h.it; }, "dereferenced a replaced element");
                    if (ctx.rng.chance(1, 8)) mustThrow(ctx, [&] { b.erase(h.it); }, "erased a replaced element");
                    if (ctx.rng.chance(1, 8) && !m.empty()) mustThrow(ctx, [&] { b.insert(h.it, Elem(0)); }, "inserted at a replaced element");
                    continue;
                }
                VF_EQ(ctx, h.it->id(), h.id, "iterator-target", "iterator designates");
                for (auto &g : held) { size_t r = pos(g.id); if (r == m.size()) continue;
                    VF_EQ(ctx, h.it == g.it, p == r, "iterator-order", "=="); VF_EQ(ctx, h.it != g.it, p != r, "iterator-order", "!=");
                    VF_EQ(ctx, h.it < g.it, g.it > h.it, "iterator-order", "< against >"); if (p != r) VF_CHECK(ctx, (h.it < g.it) != (g.it < h.it), "iterator-order", "total order"); }
            }
            life.check(ctx, m.size());
            ctx.obs(m.size() * 64 + (m.empty() ? 0 : m.front() % 64));
        };
        auto drop = [&] { for (auto &h : held) h.id = 0; };     // insert and erase invalidate every iterator
        check();
        unsigned steps = 10 + ctx.rng.below(ctx.thorough ? 250 : 100);
        for (unsigned s = 0; s < steps; ++s) {
            unsigned r = ctx.rng.below(12);
            if (r < 5) {
                uint64_t id = next++;
                ctx.op([&](auto &o) { o << "push_back " << id; });
                if (ctx.rng.chance(1, 2)) b.push_back(Elem(id)); else { const Elem e(id); b.push_back(e); }
                m.push_back(id); if (m.size() > N) { m.pop_front(); ctx.count("wrap"); }
                if (!m.empty()) { auto it = at(m.size() - 1); if (held.size() < 6) held.push_back({it, id}); else if (ctx.rng.chance(1, 3)) ctx.rng.pick(held) = {it, id}; }
            } else if (r < 8) {
                uint64_t id = next++;
                size_t i = m.empty() ? 0 : ctx.rng.below(m.size());
                unsigned how = ctx.rng.below(4);
                ctx.op([&](auto &o) { o << "insert " << id << " before " << i << " of " << m.size(); });
                CB::iterator p = m.empty() ? b.end() : at(i), res;
                const Elem e(id);
                if (how == 0) res = b.insert(p, Elem(id)); else if (how == 1) res = b.insert(p, e);
                else if (how == 2) res = b.insert(CB::const_iterator(p), e); else res = b.insert(CB::const_iterator(p), Elem(id));
                if (N) {
                    // full: the oldest element makes room, never the new one
                    if (m.size() == N) { m.pop_front(); if (i) --i; ctx.count("insert_full"); }
                    m.insert(m.begin() + i, id);
                    drop();
                    VF_CHECK(ctx, res.isValid(), "insert-result", "insert returns a valid iterator"); VF_EQ(ctx, res->id(), id, "insert-result", "insert returns the new element");
                }
            } else if (r < 10) {
                if (m.empty()) { mustThrow(ctx, [&] { b.erase(b.begin()); }, "erased end"); mustThrow(ctx, [&] { b.erase(b.rbegin()); }, "erased rend"); }
                else {
                    size_t i = ctx.rng.below(m.size()); unsigned how = ctx.rng.below(3);
                    ctx.op([&](auto &o) { o << "erase " << i << " how " << how; });
                    if (how == 0) b.erase(at(i));
                    else if (how == 1) { auto it = b.rbegin(); for (size_t j = m.size() - 1; j > i; --j) ++it; b.erase(it); }
                    else { const auto &c = b; auto it = c.rbegin(); for (size_t j = m.size() - 1; j > i; --j) ++it; b.erase(it); }
                    m.erase(m.begin() + i); drop();
                }
            } else if (r == 10) { if (ctx.rng.chance(1, 4)) { ctx.op("clear"); b.clear(); m.clear(); drop(); } }
            else {
                mustThrow(ctx, [&] { b[m.size() + ctx.rng.below(3)]; }, "operator[] past the end");
                mustThrow(ctx, [&] { auto e = b.end(); (void)*e; }, "dereferenced end"); mustThrow(ctx, [&] { auto e = b.end(); ++e; }, "incremented end");
                mustThrow(ctx, [&] { CB::iterator d; (void)*d; }, "dereferenced a detached iterator"); mustThrow(ctx, [&] { auto d = b.begin(); --d; }, "decremented begin");
                mustThrow(ctx, [&] { (void)(b.begin() == other.begin()); }, "compared iterators of two buffers"); mustThrow(ctx, [&] { other.erase(b.begin()); }, "erased an entry of another buffer");
            }
            check();
        }
    }
    life.check(ctx, 0);
}

// ---------------------------------------------------------------- Array, FrontArray
template<class Arr, bool AGED, bool FRONT> static void arrayCase(vf::Ctx &ctx)
{
    Life life;
    {
        const uint32_t N = std::max<uint32_t>(1, cap(ctx));
        Scheduler sched; Clock clk("clk", &sched);
        Arr a("a", N, &clk);
        std::vector<uint64_t> m(N, 0);      // 0: invalid
        std::list<uint32_t> age;            // oldest first
        uint64_t next = 1;
        auto check = [&] {
            size_t nv = N - std::count(m.begin(), m.end(), 0u);
            VF_EQ(ctx, a.numValid(), nv, "size", "numValid"); VF_EQ(ctx, a.size(), nv, "size", "size"); VF_EQ(ctx, a.numFree(), N - nv, "size", "numFree"); VF_EQ(ctx, a.capacity(), N, "size", "capacity");
            for (uint32_t i = 0; i < N; ++i) {
                VF_EQ(ctx, a.isValid(i), m[i] != 0, "valid", "isValid(" << i << ")");
                if (m[i]) { VF_EQ(ctx, a.read(i).id(), m[i], "content", "read(" << i << ")"); VF_EQ(ctx, a.access(i).id(), m[i], "content", "access(" << i << ")"); }
            }
            VF_CHECK(ctx, !a.isValid(N) && !a.isValid(N + 1), "valid", "isValid past the end");
            uint32_t k = 0;
            for (auto it = a.begin(); it != a.end(); ++it, ++k) {
                VF_CHECK(ctx, k < N, "iterate", "too many slots iterated"); VF_EQ(ctx, it.getIndex(), k, "iterate", "slot index");
                VF_EQ(ctx, it.isValid(), m[k] != 0, "iterate", "slot validity"); VF_CHECK(ctx, it.isIndexValid(), "iterate", "index validity");
                if (m[k]) { VF_EQ(ctx, (*it).id(), m[k], "iterate", "slot content"); VF_EQ(ctx, it->id(), m[k], "iterate", "slot content"); }
            }
            VF_EQ(ctx, k, N, "iterate", "slots iterated");
            const auto &c = a; k = 0;
            for (auto it = c.begin(); it != c.end(); ++it) { VF_EQ(ctx, it.isValid(), m[k] != 0, "iterate", "const slot validity"); if (m[k]) VF_EQ(ctx, (*it).id(), m[k], "iterate", "const slot content"); ++k; }
            VF_EQ(ctx, k, N, "iterate", "const slots iterated");
            if constexpr (AGED) {
                auto g = age.begin();
                uint32_t rank = 0;
                for (auto it = a.abegin(); it != a.aend(); ++it, ++g, ++rank) {
                    VF_CHECK(ctx, g != age.end(), "age-iterate", "too many elements in the aged walk");
                    VF_EQ(ctx, it.getIndex(), *g, "age-iterate", "aged walk"); VF_EQ(ctx, it->id(), m[*g], "age-iterate", "aged walk content");
                    VF_EQ(ctx, a.getOldestIndex(rank).getIndex(), *g, "age", "getOldestIndex(" << rank << ")");
                    VF_EQ(ctx, a.getYoungestIndex(nv - 1 - rank).getIndex(), *g, "age", "getYoungestIndex"); VF_EQ(ctx, a.getAge(*g), rank, "age", "getAge(" << *g << ")");
                    uint32_t nx = *g; auto h = std::next(g);
                    bool more = a.getNextOldestIndex(nx);
                    VF_EQ(ctx, more, h != age.end(), "age", "getNextOldestIndex"); if (more) VF_EQ(ctx, nx, *h, "age", "getNextOldestIndex result");
                }
                VF_CHECK(ctx, g == age.end(), "age-iterate", "aged walk ends early");
                g = age.begin();
                for (auto it = c.abegin(); it != c.aend(); ++it) { VF_CHECK(ctx, g != age.end() && it.getIndex() == *g, "age-iterate", "const aged walk"); ++g; }
                VF_CHECK(ctx, g == age.end(), "age-iterate", "const aged walk ends early");
                VF_CHECK(ctx, std::equal(age.rbegin(), age.rend(), a.getAgedList().begin(), a.getAgedList().end()), "age", "getAgedList, youngest first");
                if (nv >= 2) {
                    auto x = std::next(age.begin(), ctx.rng.below(nv - 1)); auto y = std::next(x, 1 + ctx.rng.below(std::distance(x, age.end()) - 1));
                    VF_CHECK(ctx, a.isOlder(*x, *y) && !a.isOlder(*y, *x) && a.isYounger(*y, *x) && !a.isYounger(*x, *y), "age", "isOlder/isYounger of " << *x << " and " << *y);
                    auto ix = a.getCircularIterator(*x), iy = a.getCircularIterator(*y);
                    VF_CHECK(ctx, ix.isOlder(iy) && iy.isYounger(ix) && iy < ix && !(ix < iy), "age", "iterator ages");
                    auto ox = a.getOldestIndex(), yx = a.getYoungestIndex();
                    VF_CHECK(ctx, ox.isOlder(yx) && yx.isYounger(ox), "age", "const iterator ages");
                }
            }
            if constexpr (FRONT) {
                uint32_t n = 0;
                for (uint32_t i = 0; i < N; ++i) if (m[i]) { VF_EQ(ctx, a.readValid(n).id(), m[i], "front", "readValid(" << n << ")"); ++n; }
            }
            auto ci = a.getCircularIterator(ctx.rng.below(N)); uint32_t st = ci.getIndex();
            for (uint32_t i = 0; i < N + 2; ++i) { VF_EQ(ctx, ci.getIndex(), (st + i) % N, "iterate", "circular walk"); if (i % 2) ++ci; else ci++; }
            life.check(ctx, nv);
            ctx.obs(nv * 64 + m[0] % 64);
        };
        check();
        unsigned steps = 10 + ctx.rng.below(ctx.thorough ? 250 : 100);
        for (unsigned s = 0; s < steps; ++s) {
            unsigned r = ctx.rng.below(12);
            if (r < 5) {
                uint32_t i = ctx.rng.below(N); uint64_t id = next++; unsigned how = ctx.rng.below(FRONT ? 8 : 5);
                const Elem e(id);
                if constexpr (FRONT) if (how >= 5) {
                    bool front = how % 2; uint32_t want = N, got = N;
                    for (uint32_t j = 0; j < N; ++j) if (!m[front ? j : N - 1 - j]) { want = front ? j : N - 1 - j; break; }
                    auto w = [&] { unsigned k = ctx.rng.below(4);
                        if (front) got = k == 0 ? a.writeFront(e) : k == 1 ? a.writeFront(Elem(id)) : k == 2 ? a.push_front(e) : a.push_front(Elem(id));
                        else got = k == 0 ? a.writeBack(e) : k == 1 ? a.writeBack(Elem(id)) : k == 2 ? a.push_back(e) : a.push_back(Elem(id)); };
                    ctx.op([&](auto &o) { o << (front ? "writeFront " : "writeBack ") << id; });
                    if (want == N) mustThrow(ctx, w, "wrote to a full array");
                    else { w(); VF_EQ(ctx, got, want, "front", "slot chosen"); m[got] = id; age.push_back(got); }
                }
                if (how < 5) {
                    ctx.op([&](auto &o) { o << "write " << i << "=" << id << (m[i] ? " over" : ""); });
                    if (m[i]) ctx.count("overwrite");
                    if (how == 0) a.write(i, e); else if (how == 1) a.write(i, Elem(id));
                    else if (how == 2) a.write(a.getCircularIterator(i), e); else if (how == 3) a.write(a.getCircularIterator(i), Elem(id));
                    else { auto it = a.begin(); while (it.getIndex() != i) ++it; a.write(it, e); }
                    if (m[i]) age.remove(i);
                    m[i] = id; age.push_back(i);
                }
            } else if (r < 9) {
                uint32_t i = ctx.rng.below(N);
                if (!m[i]) { mustThrow(ctx, [&] { a.erase(i); }, "erased an invalid slot"); mustThrow(ctx, [&] { a.erase(a.getCircularIterator(i)); }, "erased an invalid slot"); }
                else {
                    unsigned how = ctx.rng.below(3);
                    if (AGED && how == 2) i = age.front();
                    ctx.op([&](auto &o) { o << "erase " << i; });
                    if (how == 0) a.erase(i); else if (how == 1) a.erase(a.getCircularIterator(i));
                    else if constexpr (AGED) a.erase(a.getAgedList().back()); else a.erase(i);
                    m[i] = 0; age.remove(i);
                }
            } else if (r == 9) { if (ctx.rng.chance(1, 4)) { ctx.op("clear"); a.clear(); std::fill(m.begin(), m.end(), 0); age.clear(); } }
            else if (r == 10) {
                mustThrow(ctx, [&] { a.write(N + ctx.rng.below(3), Elem(1)); }, "wrote past the end"); mustThrow(ctx, [&] { a.read(N + ctx.rng.below(3)); }, "read past the end");
                mustThrow(ctx, [&] { a.erase(N + uint32_t(ctx.rng.below(3))); }, "erased past the end");
                for (uint32_t i = 0; i < N; ++i) if (!m[i]) { mustThrow(ctx, [&] { a.read(i); }, "read an invalid slot"); mustThrow(ctx, [&] { a.access(i); }, "access of an invalid slot"); mustThrow(ctx, [&] { (void)*a.getCircularIterator(i); }, "dereferenced an invalid slot"); }
                mustThrow(ctx, [&] { (void)*a.end(); }, "dereferenced end"); mustThrow(ctx, [&] { ++a.end(); }, "incremented end"); mustThrow(ctx, [&] { a.getUnitializedIterator().getIndex(); }, "used an uninitialized iterator");
                if constexpr (AGED) { mustThrow(ctx, [&] { a.getOldestIndex(age.size()); }, "oldest past the end"); mustThrow(ctx, [&] { a.getYoungestIndex(age.size()); }, "youngest past the end"); }
                if constexpr (FRONT) mustThrow(ctx, [&] { a.readValid(age.size()); }, "readValid past the end");
            } else {
                uint32_t i = ctx.rng.below(N);
                if (m[i]) { uint64_t id = next++; *a.access(i).v = id; m[i] = id; }
            }
            check();
        }
    }
    life.check(ctx, 0);
}
VF_SECTION(array_aged, 1200, 50000) { arrayCase<Array<Elem, ArrayType::AGED>, true, false>(ctx); }
VF_SECTION(array_normal, 500, 20000) { arrayCase<Array<Elem, ArrayType::NORMAL>, false, false>(ctx); }
VF_SECTION(front_aged, 600, 20000) { arrayCase<FrontArray<Elem, ArrayType::AGED>, true, true>(ctx); }
VF_SECTION(front_normal, 400, 15000) { arrayCase<FrontArray<Elem, ArrayType::NORMAL>, false, true>(ctx); }

// ---------------------------------------------------------------- PriorityQueue
namespace {
struct Less { bool rev = false; bool operator()(const Elem &a, const Elem &b) const { return rev ? (a.id() >> 32) > (b.id() >> 32) : (a.id() >> 32) < (b.id() >> 32); } };
}
template<size_t BOUND> static void pqCase(vf::Ctx &ctx)
{
    Life life;
    {
        Less less; less.rev = ctx.rng.chance(1, 2);
        PriorityQueue<Elem, Less, BOUND> q(less);
        std::vector<uint64_t> m;
        uint32_t serial = 1;
        auto check = [&] {
            VF_EQ(ctx, q.size(), m.size(), "size", "size"); VF_EQ(ctx, q.empty(), m.empty(), "size", "empty");
            if (!m.empty()) VF_EQ(ctx, q.top().id(), m.front(), "order", "top");
            if constexpr (BOUND == 0) if (!m.empty()) VF_EQ(ctx, q.back().id(), m.back(), "order", "back");
            size_t k = 0;
            for (auto it = q.begin(); it != q.end(); ++it) { VF_CHECK(ctx, k < m.size() && it->id() == m[k], "order", "iteration at " << k); ++k; }
            VF_EQ(ctx, k, m.size(), "order", "iterated");
            const auto &c = q; k = 0;
            for (const auto &e : c) { VF_CHECK(ctx, e.id() == m[k], "order", "const iteration at " << k); ++k; }
            life.check(ctx, m.size());
            ctx.obs(m.size() * 64 + (m.empty() ? 0 : m.front() % 64));
        };
        unsigned steps = 10 + ctx.rng.below(100), range = 1 + ctx.rng.below(6);
        for (unsigned s = 0; s < steps; ++s) {
            unsigned r = ctx.rng.below(10);
            if (r < 5) {
                uint64_t id = (ctx.rng.below(range) << 32) | serial++;
                bool front = ctx.rng.chance(1, 6);
                const Elem e(id);
                ctx.op([&](auto &o) { o << (front ? "forceFront " : "insert ") << (id >> 32) << "." << uint32_t(id); });
                if (BOUND && m.size() == BOUND) mustThrow(ctx, [&] { front ? q.forceFront(e) : q.insert(e); }, "inserted into a full queue");
                else if (front) { q.forceFront(e); m.insert(m.begin(), id); }
                else {
                    q.insert(e);
                    size_t i = 0;
                    while (i < m.size() && !(less.rev ? (id >> 32) > (m[i] >> 32) : (id >> 32) < (m[i] >> 32))) ++i;
                    m.insert(m.begin() + i, id);
                }
            } else if (r < 7) {
                if (m.empty()) { mustThrow(ctx, [&] { q.pop(); }, "popped an empty queue"); mustThrow(ctx, [&] { q.top(); }, "top of empty"); if constexpr (BOUND == 0) mustThrow(ctx, [&] { q.back(); }, "back of empty"); }
                else { ctx.op("pop"); q.pop(); m.erase(m.begin()); }
            } else if (r == 7) { if (ctx.rng.chance(1, 5)) { ctx.op("clear"); q.clear(); m.clear(); } }
            else if (!m.empty()) {
                size_t i = ctx.rng.below(m.size());
                ctx.op([&](auto &o) { o << "remove " << i; });
                bool done = false;
                if constexpr (BOUND == 0) if (ctx.rng.chance(1, 2)) { q.remove(Elem(m[i])); done = true; }
                if (!done) { auto it = q.begin(); for (size_t j = 0; j < i; ++j) ++it; q.erase(it); }
                m.erase(m.begin() + i);
            }
            check();
        }
    }
    life.check(ctx, 0);
}
VF_SECTION(priority, 700, 30000) { pqCase<0>(ctx); }
VF_SECTION(priority_bounded, 700, 30000) { ctx.rng.chance(1, 2) ? pqCase<3>(ctx) : pqCase<9>(ctx); }

// ---------------------------------------------------------------- occupancy statistics
template<class C, class Add, class Del> static void occupancy(vf::Ctx &ctx, const char *binfmt, Add add, Del del)
{
    const uint32_t N = 1 + ctx.rng.below(6);
    vf::Env env;
    StatisticSet ss(&env.rtn);
    C c("x", N, &env.clk, &ss);
    env.finalize();
    env.sched.run(1, true, false);
    std::vector<uint64_t> want(N + 1, 0);
    const uint64_t want0 = env.clk.elapsedCycles(); want[0] = want0;
    uint32_t n = 0, mx = 0;
    unsigned steps = 5 + ctx.rng.below(40);
    auto binOf = [&](uint32_t i) { char b[64]; std::snprintf(b, sizeof b, binfmt, i); return ss.getCounterAs<CycleCounter>(b); };
    std::vector<const CycleCounter *> bins;
    for (uint32_t i = 0; i <= N; ++i) bins.push_back(binOf(i));
    for (unsigned s = 0; s < steps; ++s) {
        for (unsigned k = ctx.rng.below(4); k--;) {
            unsigned r = ctx.rng.below(8);
            if (r < 4) n = add(c, n, N, ctx); else if (r < 7) { if (n) n = del(c, n, ctx); } else if (ctx.rng.chance(1, 3)) { c.clear(); n = 0; }
            mx = std::max(mx, n);
            VF_EQ(ctx, c.size(), n, "size", "size");
        }
        unsigned d = ctx.rng.below(4);
        if (d) { env.sched.run(d, true, false); want[n] += d; }
        for (uint32_t i = 0; i <= N; ++i) VF_EQ(ctx, bins[i]->get(), want[i], "occupancy", "cycles with " << i << " elements, capacity " << N);
        ctx.obs(n);
    }
    VF_EQ(ctx, ss.getCounter("x_utilization_max")->get(), mx, "occupancy", "maximum occupancy");
}
VF_SECTION(occupancy_queue, 150, 6000)
{
    occupancy<Queue<Elem>>(ctx, "x_utilization_count%u", [](auto &c, uint32_t n, uint32_t N, auto &) { if (n < N) { c.push(Elem(n)); ++n; } return n; },
                           [](auto &c, uint32_t n, auto &x) { x.rng.chance(1, 2) ? c.pop() : c.pop_back(); return n - 1; });
}
VF_SECTION(occupancy_buffer, 150, 6000)
{
    occupancy<Buffer<Elem>>(ctx, "x_utilization_count%u", [](auto &c, uint32_t n, uint32_t N, auto &x) { if (n < N) { x.rng.chance(1, 2) ? c.push_back(Elem(n)) : c.insert(uint32_t(x.rng.below(n + 1)), Elem(n)); ++n; } return n; },
                            [](auto &c, uint32_t n, auto &x) { c.erase(uint32_t(x.rng.below(n))); return n - 1; });
}
VF_SECTION(occupancy_array, 150, 6000)
{
    occupancy<Array<Elem, ArrayType::AGED>>(ctx, "x_utilization_count%u",
        [](auto &c, uint32_t n, uint32_t N, auto &x) { uint32_t i = x.rng.below(N); n += !c.isValid(i); c.write(i, Elem(n)); return n; },
        [](auto &c, uint32_t n, auto &) { c.erase(c.getOldestIndex().getIndex()); return n - 1; });
}
VF_SECTION(occupancy_circular, 150, 6000)
{
    occupancy<CircularBuffer<Elem>>(ctx, "x_util_cnt%u",
        [](auto &c, uint32_t n, uint32_t N, auto &x) { if (n && x.rng.chance(1, 2)) c.insert(c.begin(), Elem(n)); else c.push_back(Elem(n)); return std::min(n + 1, N); },
        [](auto &c, uint32_t n, auto &) { c.erase(c.begin()); return n - 1; });
}
