// C13: every simulated memory mirrored by a plain byte array (plus an access log for the notifications).
#include "simenv.hpp"
#include "sparta/functional/ArchData.hpp"
#include "sparta/functional/DataView.hpp"
#include "sparta/memory/MemoryObject.hpp"
#include "sparta/memory/SimpleMemoryMap.hpp"
#include "sparta/memory/SimpleMemoryMapNode.hpp"
#include "sparta/memory/CachedMemory.hpp"
#include <numeric>
using namespace sparta; using namespace sparta::memory;
namespace {
using Bytes = std::vector<uint8_t>;
std::string hx(const uint8_t *p, size_t n) { std::ostringstream o; o << std::hex; for (size_t i = 0; i < n && i < 24; ++i) o << (unsigned)p[i] << ' '; return o.str(); }
uint8_t fillAt(uint64_t addr, uint64_t fill, unsigned n) { return uint8_t(fill >> (8 * (addr % n))); }   // the fill is a little-endian pattern, aligned to its own size
uint64_t pickFill(vf::Ctx &ctx, unsigned n) { uint64_t f = ctx.rng.word(); return n == 8 ? f : f & ((1ull << (8 * n)) - 1); }
Bytes randBytes(vf::Ctx &ctx, size_t n) { Bytes b(n); for (auto &x : b) x = uint8_t(ctx.rng.next()); return b; }
template<class T, ByteOrder BO> T decode(const uint8_t *p) { T v = 0; for (unsigned i = 0; i < sizeof(T); ++i) v = T(v | (T(p[i]) << (8 * (BO == LE ? i : sizeof(T) - 1 - i)))); return v; }
template<class T, ByteOrder BO> void encode(uint8_t *p, T v) { for (unsigned i = 0; i < sizeof(T); ++i) p[i] = uint8_t(v >> (8 * (BO == LE ? i : sizeof(T) - 1 - i))); }

// ------------------------------------------------------------------ ArchData lines
struct LineOps {
    template<class T, ByteOrder BO> static void one(vf::Ctx &ctx, ArchData &ad, Bytes &m, uint64_t off, bool wr)
    {
        ArchData::Line &l = ad.getLine(off); uint64_t lo = off - l.getOffset(), room = (l.getLayoutSize() - lo) / sizeof(T);
        uint32_t idx = uint32_t(ctx.rng.below(room + (ctx.rng.chance(1, 300) ? 3 : 0)));
        uint64_t at = off + idx * sizeof(T); bool ok = lo + (idx + 1ull) * sizeof(T) <= l.getLayoutSize();
        T v = T(ctx.rng.next());
        if (!ok) {
            if (!ctx.rng.chance(1, 8)) return;
            VF_CHECK(ctx, vf::throws<SpartaException>([&] { if (wr) l.write<T, BO>(lo, v, idx); else l.read<T, BO>(lo, idx); }), "line_oob", "access past the end of a line accepted");
            return;
        }
        if (wr) { ctx.op("write", sizeof(T), at); l.write<T, BO>(lo, v, idx); encode<T, BO>(&m[at], v); VF_CHECK(ctx, l.isDirty(), "dirty", "written line not dirty"); }
        else VF_EQ(ctx, (l.read<T, BO>(lo, idx)), (decode<T, BO>(&m[at])), "line_read", "typed read at " << at << " size " << sizeof(T));
    }
};
VF_SECTION(archdata, 150, 1500)
{
    Quiet q;
    uint64_t ls = 1ull << ctx.rng.range(3, 9), nl = ctx.rng.range(1, 40); unsigned fv = 1u << ctx.rng.below(4); uint64_t fill = pickFill(ctx, fv);
    bool freeable = ctx.rng.chance(2, 3);
    uint64_t size = ls * nl - (ctx.rng.chance(1, 4) ? ctx.rng.below(ls) : 0); if (!size) size = ls;
    auto ad = std::make_unique<ArchData>(nullptr, ls, fill, fv, freeable); ad->layoutRange(size);
    ctx.op("archdata", ls, nl, fv);
    uint64_t cap = (size + ls - 1) / ls * ls;
    auto init = [&] { Bytes b(cap); for (uint64_t i = 0; i < cap; ++i) b[i] = fillAt(i, fill, fv); return b; };
    Bytes m = init(); std::set<uint64_t> alloc;
    VF_EQ(ctx, ad->getSize(), size, "size", ""); VF_EQ(ctx, ad->getLineSize(), ls, "size", "");
    for (int n = 0; n < 200; ++n) {
        uint64_t off = ctx.rng.below(size);
        switch (ctx.rng.below(12)) {
        case 0: case 1: case 2: case 3: {
            bool wr = ctx.rng.chance(1, 2); alloc.insert(off / ls);
            switch (ctx.rng.below(8)) {
            case 0: LineOps::one<uint8_t, LE>(ctx, *ad, m, off, wr); break; case 1: LineOps::one<uint8_t, BE>(ctx, *ad, m, off, wr); break;
            case 2: LineOps::one<uint16_t, LE>(ctx, *ad, m, off, wr); break; case 3: LineOps::one<uint16_t, BE>(ctx, *ad, m, off, wr); break;
            case 4: LineOps::one<uint32_t, LE>(ctx, *ad, m, off, wr); break; case 5: LineOps::one<uint32_t, BE>(ctx, *ad, m, off, wr); break;
            case 6: LineOps::one<uint64_t, LE>(ctx, *ad, m, off, wr); break; default: LineOps::one<uint64_t, BE>(ctx, *ad, m, off, wr); } break; }
        case 4: case 5: { auto &l = ad->getLine(off); alloc.insert(off / ls); uint64_t lo = off - l.getOffset(), sz = 1 + ctx.rng.below(ls - lo); auto b = randBytes(ctx, sz); ctx.op("wbytes", off, sz); l.write(lo, sz, b.data()); std::copy(b.begin(), b.end(), m.begin() + off); break; }
        case 6: case 7: { auto &l = ad->getLine(off); alloc.insert(off / ls); uint64_t lo = off - l.getOffset(), sz = 1 + ctx.rng.below(ls - lo); Bytes b(sz); l.read(lo, sz, b.data()); VF_CHECK(ctx, std::equal(b.begin(), b.end(), m.begin() + off), "line_bytes", "bytes at " << off << " got " << hx(b.data(), sz) << " want " << hx(&m[off], sz)); break; }
        case 8: { const ArchData &c = *ad; auto *l = c.tryGetLine(off); VF_EQ(ctx, l != nullptr, alloc.count(off / ls) > 0, "lazy", "tryGetLine");
            if (l) { VF_EQ(ctx, l->getIdx(), off / ls, "line_idx", ""); VF_EQ(ctx, l->getOffset(), off / ls * ls, "line_idx", ""); VF_EQ(ctx, l->getLayoutSize(), ls, "line_idx", ""); VF_EQ(ctx, (const void *)l, (const void *)&ad->getLine(off), "line_id", "same line twice"); VF_EQ(ctx, *l->getDataPointer(off - l->getOffset()), m[off], "line_ptr", ""); } break; }
        case 9: if (ctx.rng.chance(1, 20)) { ctx.op("clean"); if (ctx.rng.chance(1, 2)) ad->clean(); else ad->reset(); m = init(); if (freeable) alloc.clear(); } break;
        case 10: if (ctx.rng.chance(1, 40)) { uint64_t bad = size + ctx.rng.below(3) * ls + (ctx.rng.chance(1, 8) ? ~0ull - size - 5 * ls : 0); VF_CHECK(ctx, vf::throws<SpartaException>([&] { ad->getLine(bad); }), "oob_line", "line at " << bad << " of " << size); VF_CHECK(ctx, vf::throws<SpartaException>([&] { const ArchData &c = *ad; c.tryGetLine(bad); }), "oob_line", ""); VF_CHECK(ctx, !ad->containsAddress(bad), "contains", ""); }
            if (ctx.rng.chance(1, 40)) { auto &l = ad->getLine(off); alloc.insert(off / ls); uint64_t lo = off - l.getOffset(); Bytes b(ls + 8); uint64_t bad = ctx.rng.chance(1, 2) ? ls - lo + 1 : ~0ull - ctx.rng.below(lo + 1) + 1; if (bad == 0) bad = ~0ull; if (bad <= ls - lo) bad = ls - lo + 1;
                VF_CHECK(ctx, vf::throws<SpartaException>([&] { l.read(lo, bad, b.data()); }), "oob_bytes", "read of " << bad << " at " << lo); VF_CHECK(ctx, vf::throws<SpartaException>([&] { l.write(lo, bad, b.data()); }), "oob_bytes", "write"); VF_CHECK(ctx, vf::throws<SpartaException>([&] { ad->checkCanAccess(off, bad); }), "oob_check", ""); }
            if (ctx.rng.chance(1, 20)) { uint64_t n = ctx.rng.chance(1, 6) ? 0 : ctx.rng.below(ls + 3); bool ok = n > 0 && n <= ls - off % ls && off + n <= size, thrown = vf::throws<SpartaException>([&] { ad->checkSegment(off, n); }); VF_EQ(ctx, !thrown, ok, "segment_check", "a segment of " << n << " bytes at " << off << " of lines of " << ls); }
            break;
        default: if (ctx.rng.chance(1, 20)) { // a copy of the lines this has, into another
                ArchData other(nullptr, ls, fill, fv, true); other.layoutRange(size); other.updateFrom(*ad);
                for (auto i : alloc) { Bytes b(ls); other.getLine(i * ls).read(0, ls, b.data()); VF_CHECK(ctx, std::equal(b.begin(), b.end(), m.begin() + i * ls), "update_from", "line " << i); } VF_EQ(ctx, other.getNumAllocatedLines(), alloc.size(), "update_from", "lines"); ctx.count("update_from"); }
        }
        VF_EQ(ctx, ad->getNumAllocatedLines(), alloc.size(), "lazy", "number of lines");
        ctx.obs(n, alloc.size(), m[off]);
    }
    for (uint64_t i = 0; i < cap; i += ls) { if (i >= size) break; Bytes b(ls); ad->getLine(i).read(0, ls, b.data()); VF_CHECK(ctx, std::equal(b.begin(), b.end(), m.begin() + i), "final", "line at " << i); }
    VF_CHECK(ctx, vf::throws<SpartaException>([&] { ad->layoutRange(size); }), "relayout", "laid out twice");
    ctx.count("bytes", size);
}

// ------------------------------------------------------------------ DataViews
struct VM { uint64_t size; uint32_t id, of; uint64_t suboff; std::vector<uint8_t> init; std::unique_ptr<DataView> v; };
template<class T, ByteOrder BO> void viewOp(vf::Ctx &ctx, DataView &v, Bytes &m)
{
    uint64_t n = v.getSize() / sizeof(T), at = v.ArchDataSegment::getOffset(); bool oob = ctx.rng.chance(1, 300); uint32_t idx = uint32_t(oob ? n + ctx.rng.below(3) : ctx.rng.below(n ? n : 1));
    T x = T(ctx.rng.next());
    if (n == 0 || oob) {
        if (ctx.rng.chance(1, 40)) VF_CHECK(ctx, (vf::throws<SpartaException>([&] { v.read<T, BO>(idx); }) && vf::throws<SpartaException>([&] { v.write<T, BO>(x, idx); })), "view_oob", "index " << idx << " of " << n);
        if (n == 0) { // larger than the view: padded and truncated
            if (ctx.rng.chance(1, 2)) { v.writeTruncated<T, BO>(x); for (unsigned i = 0; i < v.getSize(); ++i) m[at + i] = uint8_t(x >> (8 * (BO == LE ? i : v.getSize() - 1 - i))); ctx.op("wtrunc", at, sizeof(T)); ctx.count("truncated"); }
            else { T want = 0; for (unsigned i = 0; i < v.getSize(); ++i) want = T(want | (T(m[at + i]) << (8 * (BO == LE ? i : v.getSize() - 1 - i)))); VF_EQ(ctx, (v.readPadded<T, BO>()), want, "padded", "size " << v.getSize() << " T " << sizeof(T)); }
        }
        return;
    }
    bool alt = ctx.rng.chance(1, 4);
    if (ctx.rng.chance(1, 2)) { ctx.op("wview", at + idx * sizeof(T), sizeof(T)); if (alt) v.writeTruncated<T, BO>(x, idx); else v.write<T, BO>(x, idx); encode<T, BO>(&m[at + idx * sizeof(T)], x); }
    else if (alt) VF_EQ(ctx, (v.readPadded<T, BO>(idx)), (decode<T, BO>(&m[at + idx * sizeof(T)])), "padded_small", "view of " << v.getSize() << " T " << sizeof(T) << " idx " << idx);
    else VF_EQ(ctx, (v.read<T, BO>(idx)), (decode<T, BO>(&m[at + idx * sizeof(T)])), "view_read", "idx " << idx << " T " << sizeof(T));
}
VF_SECTION(dataview, 120, 1200)
{
    Quiet q;
    uint64_t ls = 1ull << ctx.rng.range(5, 9); unsigned fv = 1u << ctx.rng.below(4); uint64_t fill = pickFill(ctx, fv);
    ArchData ad(nullptr, ls, fill, fv, false);
    std::vector<VM> vs; int nv = ctx.rng.range(1, 30);
    for (int i = 0; i < nv; ++i) {
        VM m; m.id = 100 + i * 7; m.of = DataView::INVALID_ID; m.suboff = 0; m.size = 1ull << ctx.rng.below(8); if (m.size > ls) m.size = ls;
        if (i && ctx.rng.chance(1, 3)) { auto &p = ctx.rng.pick(vs); m.size = 1ull << ctx.rng.below(8); while (m.size > p.size) m.size /= 2; m.of = p.id; m.suboff = ctx.rng.below((p.size - m.size) + 1); }
        if (ctx.rng.chance(1, 3)) m.init = randBytes(ctx, m.size);
        vs.push_back(std::move(m));
    }
    std::vector<size_t> order(vs.size()); std::iota(order.begin(), order.end(), 0); ctx.rng.shuffle(order);     // a subset may be registered before its parent
    std::vector<size_t> reg;
    for (auto i : order) { auto &m = vs[i]; m.v.reset(new DataView(&ad, m.id, m.size, m.of, m.suboff, m.init.empty() ? nullptr : m.init.data())); reg.push_back(i); }
    if (ctx.rng.chance(1, 10)) { VF_CHECK(ctx, vf::throws<SpartaException>([&] { DataView d(&ad, vs[0].id, 4); }), "dup_id", "duplicate id"); VF_CHECK(ctx, vf::throws<SpartaException>([&] { DataView d(&ad, 5, 3); }), "nonpow2", ""); VF_CHECK(ctx, vf::throws<SpartaException>([&] { DataView d(&ad, 5, ls * 2); }), "toobig", ""); VF_CHECK(ctx, vf::throws<SpartaException>([&] { vs[0].v->read<uint8_t>(); }), "unplaced", "read before layout"); VF_EQ(ctx, ad.getNumSegments(), vs.size(), "rejected_segment", ""); }
    ad.layout(); uint64_t size = ad.getSize(); ctx.op("views", nv, size);
    // placement: every root segment within one line and overlapping no other; subsets at their parent's offset
    Bytes owner(size, 0); Bytes m(size); for (uint64_t i = 0; i < size; ++i) m[i] = fillAt(i % ls, fill, fv);
    for (auto &x : vs) {
        uint64_t o = x.v->ArchDataSegment::getOffset(); VF_CHECK(ctx, x.v->isPlaced() && o + x.size <= size && o / ls == (o + x.size - 1) / ls, "placement", "segment " << x.id << " at " << o << " size " << x.size);
        VF_EQ(ctx, x.v->getSize(), x.size, "vsize", ""); VF_EQ(ctx, x.v->getID(), x.id, "vsize", "");
        if (x.of == DataView::INVALID_ID) { for (uint64_t i = 0; i < x.size; ++i) { VF_CHECK(ctx, !owner[o + i], "overlap", "byte " << o + i << " in two segments"); owner[o + i] = 1; } }
        else for (auto &p : vs) if (p.id == x.of) VF_EQ(ctx, o, p.v->ArchDataSegment::getOffset() + x.suboff, "subset", "offset of a subset");
    }
    auto initial = [&] { for (uint64_t i = 0; i < size; ++i) m[i] = fillAt(i % ls, fill, fv); for (auto i : reg) if (!vs[i].init.empty()) std::copy(vs[i].init.begin(), vs[i].init.end(), m.begin() + vs[i].v->ArchDataSegment::getOffset()); };
    auto all = [&](const char *k) { for (auto &x : vs) for (uint64_t i = 0; i < x.size; ++i) VF_EQ(ctx, x.v->read<uint8_t>(uint32_t(i)), m[x.v->ArchDataSegment::getOffset() + i], k, "view " << x.id << " byte " << i); };
    initial(); all("initial");
    for (int n = 0; n < 250; ++n) {
        auto &x = ctx.rng.pick(vs); uint64_t o = x.v->ArchDataSegment::getOffset();
        switch (ctx.rng.below(12)) {
        case 0: viewOp<uint8_t, LE>(ctx, *x.v, m); break; case 1: viewOp<uint8_t, BE>(ctx, *x.v, m); break;
        case 2: viewOp<uint16_t, LE>(ctx, *x.v, m); break; case 3: viewOp<uint16_t, BE>(ctx, *x.v, m); break;
        case 4: viewOp<uint32_t, LE>(ctx, *x.v, m); break; case 5: viewOp<uint32_t, BE>(ctx, *x.v, m); break;
        case 6: viewOp<uint64_t, LE>(ctx, *x.v, m); break; case 7: viewOp<uint64_t, BE>(ctx, *x.v, m); break;
        case 8: { auto &y = ctx.rng.pick(vs); uint64_t oy = y.v->ArchDataSegment::getOffset(); bool disjoint = o + x.size <= oy || oy + y.size <= o;
            if (x.size == y.size && disjoint) { *x.v = *y.v; std::copy(m.begin() + oy, m.begin() + oy + y.size, m.begin() + o); ctx.op("copy", oy, o); ctx.count("copies"); } else if (x.size != y.size && ctx.rng.chance(1, 60)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { *x.v = *y.v; }), "copy_size", ""); break; }
        case 9: { std::ostringstream w; for (uint64_t i = 0; i < x.size; ++i) { char b[8]; snprintf(b, sizeof b, "%02x ", m[o + i]); w << b; } VF_EQ(ctx, x.v->getByteString(), w.str(), "bytestr", ""); break; }
        case 10: { std::string le = "0x", be = "0x"; for (uint64_t i = 0; i < x.size; ++i) { char b[8]; snprintf(b, sizeof b, "%02x", m[o + x.size - 1 - i]); le += b; snprintf(b, sizeof b, "%02x", m[o + i]); be += b; } VF_EQ(ctx, x.v->getValueAsString<LE>(), le, "valstr", ""); VF_EQ(ctx, x.v->getValueAsString<BE>(), be, "valstr", ""); break; }
        default: if (ctx.rng.chance(1, 20)) { ctx.op("reset"); ad.reset(); initial(); ctx.count("resets"); }
        }
        if (n % 16 == 0) all("all");
        ctx.obs(n, x.id, m[o]);
    }
    all("final"); ctx.count("views", vs.size());
}

// ------------------------------------------------------------------ memory interfaces
struct Acc { bool wr; uint64_t addr, size; Bytes data, prior; const void *in; void *out; };
bool operator==(const Acc &a, const Acc &b) { return a.wr == b.wr && a.addr == b.addr && a.size == b.size && a.data == b.data && a.prior == b.prior && a.in == b.in && a.out == b.out; }
std::ostream &operator<<(std::ostream &o, const Acc &a) { return o << (a.wr ? "W" : "R") << " addr=" << a.addr << " size=" << a.size << " data=" << hx(a.data.data(), a.data.size()) << " prior=" << hx(a.prior.data(), a.prior.size()) << " in=" << a.in << " out=" << a.out; }
struct Watch {
    BlockingMemoryIFNode *n; std::vector<Acc> got; bool r = false, w = false;
    explicit Watch(BlockingMemoryIFNode *x) : n(x) {}
    void rd(const BlockingMemoryIFNode::ReadAccess &a) { if (a.mem != n) bad = true; got.push_back({false, a.addr, a.size, Bytes(a.data, a.data + a.size), {}, a.in_supplement, a.out_supplement}); }
    void wrr(const BlockingMemoryIFNode::PostWriteAccess &a) { if (a.mem != n) bad = true; got.push_back({true, a.addr, a.size, Bytes(a.tried, a.tried + a.size), Bytes(a.prior, a.prior + a.size), a.in_supplement, a.out_supplement}); }
    bool bad = false;
    void setR(bool on) { if (on == r) return; r = on; auto &x = n->getReadNotificationSource(); if (on) x.registerForThis<Watch, &Watch::rd>(this); else x.deregisterForThis<Watch, &Watch::rd>(this); }
    void setW(bool on) { if (on == w) return; w = on; auto &x = n->getPostWriteNotificationSource(); if (on) x.registerForThis<Watch, &Watch::wrr>(this); else x.deregisterForThis<Watch, &Watch::wrr>(this); }
};
// An access that picks sizes and addresses around block edges, and now and then outside
struct A { uint64_t addr, size; };
A pickAcc(vf::Ctx &ctx, uint64_t bs, uint64_t total, bool legal)
{
    uint64_t a, s;
    if (ctx.rng.chance(1, 3)) { a = ctx.rng.below(total / bs) * bs; int64_t d = ctx.rng.range(-6, 6); if (int64_t(a) + d >= 0) a += d; } else a = ctx.rng.below(total);
    if (a >= total) a = total - 1;
    s = ctx.rng.chance(3, 4) ? 1 + ctx.rng.below(16) : 1 + ctx.rng.below(2 * bs);
    if (ctx.rng.chance(1, 10)) { a = a / bs * bs; s = bs; }
    if (legal) { if (s > bs - a % bs) s = bs - a % bs; }
    return {a, s};
}
template<class N> void ifaceOps(vf::Ctx &ctx, N &node, Bytes &m, const std::vector<char> &mapped, uint64_t bs, Watch &w, std::function<void(bool, uint64_t, uint64_t, const Bytes &, const Bytes &, const void *, void *)> below, uint64_t &nr, uint64_t &nw, bool peekable)
{
    uint64_t total = m.size(); bool legal = !ctx.rng.chance(1, 6); A a = pickAcc(ctx, bs, total, legal); bool wild = ctx.rng.chance(1, 60);
    if (wild) { switch (ctx.rng.below(4)) { case 0: a.addr = total + ctx.rng.below(3 * bs); break; case 1: a.addr = ~0ull - ctx.rng.below(2 * bs); break; case 2: a.size = ~0ull - ctx.rng.below(2 * bs); break; default: a.addr = total - 1 - ctx.rng.below(bs); a.size = bs + 1 + ctx.rng.below(bs); } }
    bool in = a.addr < total && a.size <= total - a.addr, one = in && a.addr / bs == (a.addr + a.size - 1) / bs, map = in;
    if (in) for (uint64_t i = a.addr / bs; i <= (a.addr + a.size - 1) / bs; ++i) if (!mapped[i]) map = false;
    uint64_t bufsz = std::min<uint64_t>(a.size, 8 * bs); Bytes b = randBytes(ctx, bufsz), rb(bufsz, 0xEE), save;
    const void *is = ctx.rng.chance(1, 2) ? (const void *)&m : nullptr; void *os = ctx.rng.chance(1, 2) ? (void *)&w : nullptr;
    w.got.clear(); std::vector<Acc> want;
    bool thr = ctx.rng.chance(1, 3); if (thr && !(one && map) && !ctx.rng.chance(1, 8)) thr = false;    // throwing costs a symbolised backtrace
    switch (unsigned k = ctx.rng.below(4)) {
    case 0: case 2: { // read / peek
        bool peek = k == 2, ok = map && (peek || one), res = false; ctx.op(peek ? "peek" : "read", a.addr, a.size); if (!peek) ++nr;
        if (!ok && !in && wild && !thr) { try { res = peek ? node.tryPeek(a.addr, a.size, rb.data()) : node.tryRead(a.addr, a.size, rb.data(), is, os); } catch (SpartaException &) { VF_CHECK(ctx, false, "try_threw", "try access threw"); } }
        else if (thr) { try { if (peek) node.peek(a.addr, a.size, rb.data()); else node.read(a.addr, a.size, rb.data(), is, os); res = true; } catch (MemoryAccessError &) { if (ok) throw; } }
        else res = peek ? node.tryPeek(a.addr, a.size, rb.data()) : node.tryRead(a.addr, a.size, rb.data(), is, os);
        VF_EQ(ctx, res, ok, peek ? "peek_ok" : "read_ok", "addr " << a.addr << " size " << a.size << " total " << total);
        if (ok) { VF_CHECK(ctx, std::equal(rb.begin(), rb.end(), m.begin() + a.addr), peek ? "peek_data" : "read_data", "addr " << a.addr << " got " << hx(rb.data(), rb.size()) << " want " << hx(&m[a.addr], a.size));
            if (!peek) { below(false, a.addr, a.size, rb, {}, is, os); if (w.r) want.push_back({false, a.addr, a.size, rb, {}, is, os}); } ctx.count(one ? "reads" : "straddling"); }
        else ctx.count("refused");
        break; }
    default: { bool poke = k == 3, ok = map && (poke || one), res = false; ctx.op(poke ? "poke" : "write", a.addr, a.size); if (!poke) ++nw;
        if (!ok && !in && wild && !thr) { try { res = poke ? node.tryPoke(a.addr, a.size, b.data()) : node.tryWrite(a.addr, a.size, b.data(), is, os); } catch (SpartaException &) { VF_CHECK(ctx, false, "try_threw", "try access threw"); } }
        else if (thr) { try { if (poke) node.poke(a.addr, a.size, b.data()); else node.write(a.addr, a.size, b.data(), is, os); res = true; } catch (MemoryAccessError &) { if (ok) throw; } }
        else res = poke ? node.tryPoke(a.addr, a.size, b.data()) : node.tryWrite(a.addr, a.size, b.data(), is, os);
        VF_EQ(ctx, res, ok, poke ? "poke_ok" : "write_ok", "addr " << a.addr << " size " << a.size << " total " << total);
        if (ok) { Bytes prior(m.begin() + a.addr, m.begin() + a.addr + a.size); std::copy(b.begin(), b.end(), m.begin() + a.addr); if (!poke) { below(true, a.addr, a.size, b, prior, is, os); if (w.w) want.push_back({true, a.addr, a.size, b, prior, is, os}); } ctx.count("writes"); }
        else ctx.count("refused");
        if (!ok && in && peekable) { Bytes z(1); for (uint64_t i = a.addr; i < a.addr + a.size; ++i) if (mapped[i / bs]) { node.peek(i, 1, z.data()); VF_EQ(ctx, z[0], m[i], "refused_changed", "a refused write modified byte " << i); } }
    } }
    VF_CHECK(ctx, !w.bad, "noti_mem", "notification names another memory");
    VF_EQ(ctx, w.got.size(), want.size(), "noti_count", "notifications for one access");
    if (!want.empty()) VF_CHECK(ctx, w.got[0] == want[0], "noti", "notified " << w.got[0] << " want " << want[0]);
    ctx.obs(a.addr, a.size, want.size());
}
void toggles(vf::Ctx &ctx, Watch &w) { if (ctx.rng.chance(1, 20)) w.setR(!w.r); if (ctx.rng.chance(1, 20)) w.setW(!w.w); }

VF_SECTION(memobj, 100, 1200)
{
    Quiet q; vf::Env env;
    uint64_t bs = 1ull << ctx.rng.range(3, 8), nb = ctx.rng.range(1, 20), total = bs * nb; unsigned fv = 1u << ctx.rng.below(4); uint64_t fill = pickFill(ctx, fv);
    MemoryObject mo(nullptr, bs, total, fill, uint16_t(fv)); VF_EQ(ctx, mo.getNumBlocks(), nb, "nblocks", "");
    BlockingMemoryObjectIFNode node(&env.rtn, "mem", "memory", nullptr, mo); env.finalize(); ctx.op("memobj", bs, nb, fv);
    Bytes m(total); for (uint64_t i = 0; i < total; ++i) m[i] = fillAt(i, fill, fv);
    Watch w(&node); uint64_t nr = 0, nw = 0; std::vector<char> mapped(nb, 1); auto none = [](bool, uint64_t, uint64_t, const Bytes &, const Bytes &, const void *, void *) {};
    VF_EQ(ctx, node.getRange(), total, "range", ""); VF_EQ(ctx, node.getBlockSize(), bs, "range", ""); VF_EQ(ctx, node.getAccessibleSize(), total, "range", "");
    std::map<uint64_t, DMIBlockingMemoryIF *> dmi; bool inval = false;
    for (int n = 0; n < 250; ++n) {
        toggles(ctx, w);
        if (ctx.rng.chance(1, 5)) { // direct accesses to the object, and DMI
            A a = pickAcc(ctx, bs, total, true);
            switch (ctx.rng.below(4)) {
            case 0: { auto b = randBytes(ctx, a.size); mo.write(a.addr, a.size, b.data()); std::copy(b.begin(), b.end(), m.begin() + a.addr); ctx.op("mo.write", a.addr, a.size); break; }
            case 1: { Bytes b(a.size); mo.read(a.addr, a.size, b.data()); VF_CHECK(ctx, std::equal(b.begin(), b.end(), m.begin() + a.addr), "mo_read", "addr " << a.addr << " got " << hx(b.data(), a.size) << " want " << hx(&m[a.addr], a.size)); break; }
            case 2: if (ctx.rng.chance(1, 10)) { uint64_t s = ctx.rng.chance(1, 2) ? bs - a.addr % bs + 1 : ~0ull - ctx.rng.below(a.addr % bs + 1); Bytes b(2 * bs); VF_CHECK(ctx, vf::throws<SpartaException>([&] { mo.read(a.addr, s, b.data()); }) && vf::throws<SpartaException>([&] { mo.write(a.addr, s, b.data()); }), "mo_span", "size " << s << " at " << a.addr); VF_CHECK(ctx, vf::throws<SpartaException>([&] { mo.read(total + a.addr, 1, b.data()); }), "mo_oob", ""); } break;
            default: if (!inval) { auto *d = node.getDMI(a.addr, a.size); VF_CHECK(ctx, d != nullptr && d->isValid(), "dmi", "no DMI for a legal access"); VF_EQ(ctx, d->getLowEnd(), a.addr / bs * bs, "dmi_win", ""); VF_EQ(ctx, d->getRange(), bs, "dmi_win", ""); auto it = dmi.find(a.addr / bs); if (it != dmi.end()) VF_EQ(ctx, (void *)d, (void *)it->second, "dmi_same", ""); dmi[a.addr / bs] = d;
                    auto *p = (uint8_t *)d->getRawDataPtr() + a.addr % bs; VF_CHECK(ctx, std::equal(p, p + a.size, m.begin() + a.addr), "dmi_raw", "raw bytes at " << a.addr);
                    Bytes b(a.size); VF_CHECK(ctx, d->tryRead(a.addr, a.size, b.data()) && std::equal(b.begin(), b.end(), m.begin() + a.addr), "dmi_read", "");
                    b = randBytes(ctx, a.size); if (ctx.rng.chance(1, 2)) { VF_CHECK(ctx, d->tryWrite(a.addr, a.size, b.data()), "dmi_write", ""); } else std::copy(b.begin(), b.end(), p); std::copy(b.begin(), b.end(), m.begin() + a.addr);
                    VF_CHECK(ctx, !d->tryRead(a.addr / bs * bs + bs, 1, b.data()), "dmi_oob", "outside the window"); VF_CHECK(ctx, node.getDMI(a.addr / bs * bs + bs - 1, 2) == nullptr, "dmi_span", ""); ctx.count("dmi");
                    if (ctx.rng.chance(1, 60)) { node.invalidateAllDMI(); inval = true; for (auto &x : dmi) { VF_CHECK(ctx, !x.second->isValid(), "dmi_inval", ""); VF_CHECK(ctx, !x.second->tryRead(x.first * bs, 1, b.data()) && !x.second->tryWrite(x.first * bs, 1, b.data()), "dmi_inval", "access through an invalidated interface"); } } }
            }
        }
        else ifaceOps(ctx, node, m, mapped, bs, w, none, nr, nw, true);
        VF_EQ(ctx, node.ctr_reads_->get(), nr, "ctr_r", "reads counted"); VF_EQ(ctx, node.ctr_writes_->get(), nw, "ctr_w", "writes counted");
    }
    for (uint64_t i = 0; i < total; ++i) { uint8_t b; node.peek(i, 1, &b); VF_EQ(ctx, b, m[i], "final", "byte " << i); }
    w.setR(false); w.setW(false);
}

VF_SECTION(memmap, 100, 1200)
{
    Quiet q; vf::Env env;
    uint64_t bs = 1ull << ctx.rng.range(3, 6); unsigned nm = ctx.rng.range(1, 4);
    struct D { std::unique_ptr<MemoryObject> mo; std::unique_ptr<BlockingMemoryObjectIFNode> n; uint64_t total; Bytes m; std::unique_ptr<Watch> w; uint64_t nr = 0, nw = 0; std::vector<Acc> want; };
    std::vector<D> ds(nm);
    for (unsigned i = 0; i < nm; ++i) { auto &d = ds[i]; d.total = bs * ctx.rng.range(1, 24); unsigned fv = 1u << ctx.rng.below(4); uint64_t fill = pickFill(ctx, fv); d.mo.reset(new MemoryObject(nullptr, bs, d.total, fill, uint16_t(fv))); d.n.reset(new BlockingMemoryObjectIFNode(&env.rtn, "m" + std::to_string(i), "memory", nullptr, *d.mo)); d.m.resize(d.total); for (uint64_t k = 0; k < d.total; ++k) d.m[k] = fillAt(k, fill, fv); d.w.reset(new Watch(d.n.get())); }
    uint64_t nb = ctx.rng.range(4, 60), total = nb * bs; SimpleMemoryMapNode map(&env.rtn, "map", "a map", bs, total); env.finalize();
    struct Mp { uint64_t s, e, off; unsigned d; }; std::vector<Mp> ms; std::vector<char> mapped(nb, 0);
    std::vector<int> own(nb, -1); ctx.op("map", bs, nb, nm);
    bool disjoint = ctx.rng.chance(1, 2); std::vector<std::vector<char>> used(nm); for (unsigned i = 0; i < nm; ++i) used[i].assign(ds[i].total / bs, 0);
    auto tryAdd = [&] {
        Mp x; x.s = ctx.rng.below(nb); x.e = x.s + 1 + ctx.rng.below(std::min<uint64_t>(nb - x.s, 8)); x.d = unsigned(ctx.rng.below(nm)); uint64_t db = ds[x.d].total / bs; x.off = ctx.rng.below(db);
        bool ov = false; for (auto &y : ms) if (x.s < y.e && y.s < x.e) ov = true; bool fit = x.off + (x.e - x.s) <= db;
        if (disjoint && fit) for (uint64_t k = 0; k < x.e - x.s; ++k) if (used[x.d][x.off + k]) return;
        if ((ov || !fit) && !ctx.rng.chance(1, 12)) return;
        ctx.op("addMapping", x.s, x.e, x.off); bool res = true; try { map.addMapping(x.s * bs, x.e * bs, ds[x.d].n.get(), x.off * bs); } catch (SpartaException &e) { if (!ov && fit) VF_CHECK(ctx, false, "map_refused", e.what()); res = false; }
        VF_EQ(ctx, res, !ov && fit, "map_accept", "overlapping " << ov << " fits " << fit);
        if (res) { for (uint64_t k = x.s; k < x.e; ++k) { mapped[k] = 1; own[k] = int(ms.size()); } for (uint64_t k = 0; k < x.e - x.s; ++k) used[x.d][x.off + k] = 1; ms.push_back(x); }
        VF_EQ(ctx, map.getNumMappings(), ms.size(), "nmaps", ""); VF_EQ(ctx, map.getMappings().size(), ms.size(), "nmaps", "");
    };
    for (int i = 0; i < 40; ++i) tryAdd();
    if (ctx.rng.chance(1, 20)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { map.addMapping(0, bs / 2, ds[0].n.get(), 0); }) && vf::throws<SpartaException>([&] { map.addMapping(bs, bs, ds[0].n.get(), 0); }), "map_bad", "unaligned or empty mapping accepted");
    Watch w(&map); uint64_t nr = 0, nw = 0;
    auto view = [&] { Bytes v(total, 0); for (auto &x : ms) std::copy(ds[x.d].m.begin() + x.off * bs, ds[x.d].m.begin() + (x.off + x.e - x.s) * bs, v.begin() + x.s * bs); return v; };
    for (int n = 0; n < 150; ++n) {
        if (ctx.rng.chance(1, 15)) tryAdd();
        toggles(ctx, w); for (auto &d : ds) toggles(ctx, *d.w);
        uint64_t addr = ctx.rng.below(total + bs); const SimpleMemoryMapNode &cm = map; auto *f = cm.findMapping(addr); int o = addr < total ? own[addr / bs] : -1;
        VF_EQ(ctx, f != nullptr, o >= 0, "find", "mapping of " << addr); VF_EQ(ctx, (void *)map.findMapping(addr), (void *)f, "find", "const and not");
        if (o >= 0) { auto &x = ms[o]; uint64_t da = addr - x.s * bs + x.off * bs; VF_EQ(ctx, f->mapAddress(addr), da, "map_addr", ""); auto pr = cm.mapAddress(addr); VF_CHECK(ctx, pr.first == ds[x.d].n.get() && pr.second == da, "map_addr", "mapAddress"); VF_EQ(ctx, (void *)map.findInterface(addr), (void *)static_cast<BlockingMemoryIF *>(ds[x.d].n.get()), "find_if", ""); VF_CHECK(ctx, f->start == x.s * bs && f->end == x.e * bs, "map_range", "");
            uint64_t left = x.e * bs - addr; map.verifyHasMapping(addr, 1 + ctx.rng.below(left)); if (ctx.rng.chance(1, 30)) VF_CHECK(ctx, vf::throws<MemoryAccessError>([&] { map.verifyHasMapping(addr, left + 1); }), "verify", "");
            A a{addr, 1}; if (auto *d = map.getDMI(a.addr, a.size)) VF_CHECK(ctx, *((uint8_t *)d->getRawDataPtr() + da % bs) == ds[x.d].m[da], "map_dmi", "DMI through the map"); else VF_CHECK(ctx, false, "map_dmi", "no DMI"); }
        else { VF_CHECK(ctx, cm.mapAddress(addr).first == nullptr && map.findInterface(addr) == nullptr && map.getDMI(addr, 1) == nullptr, "unmapped", "" << addr); if (ctx.rng.chance(1, 30)) VF_CHECK(ctx, vf::throws<MemoryAccessError>([&] { map.verifyHasMapping(addr, 1); }), "verify", "unmapped"); }
        for (auto &d : ds) { d.w->got.clear(); d.want.clear(); }
        if (ctx.rng.chance(1, 4)) { auto &d = ctx.rng.pick(ds); std::vector<char> all(d.total / bs, 1); auto none = [](bool, uint64_t, uint64_t, const Bytes &, const Bytes &, const void *, void *) {}; ifaceOps(ctx, *d.n, d.m, all, bs, *d.w, none, d.nr, d.nw, true); }
        else {
            Bytes v = view(), before = v; bool did = false;
            auto below = [&](bool wr, uint64_t a, uint64_t, const Bytes &data, const Bytes &prior, const void *is, void *os) { auto &x = ms[own[a / bs]]; auto &d = ds[x.d]; uint64_t da = a - x.s * bs + x.off * bs; (wr ? d.nw : d.nr)++; did = true;
                if (wr ? d.w->w : d.w->r) d.want.push_back({wr, da, data.size(), data, prior, is, os}); };
            auto lastLog = v; ifaceOps(ctx, map, v, mapped, bs, w, below, nr, nw, true); (void)did;
            // bytes that changed in the view go to their memories (aliased mappings change together)
            for (uint64_t i = 0; i < total; ++i) if (v[i] != before[i]) { auto &x = ms[own[i / bs]]; ds[x.d].m[i - x.s * bs + x.off * bs] = v[i]; }
            for (auto &d : ds) { VF_EQ(ctx, d.w->got.size(), d.want.size(), "below_count", "notifications of a mapped memory"); if (!d.want.empty()) VF_CHECK(ctx, d.w->got[0] == d.want[0], "below_noti", "" << d.w->got[0] << " want " << d.want[0]); }
        }
        VF_EQ(ctx, map.ctr_reads_->get(), nr, "ctr_r", ""); VF_EQ(ctx, map.ctr_writes_->get(), nw, "ctr_w", "");
        for (auto &d : ds) { VF_EQ(ctx, d.n->ctr_reads_->get(), d.nr, "ctr_r", "mapped memory"); VF_EQ(ctx, d.n->ctr_writes_->get(), d.nw, "ctr_w", "mapped memory"); }
    }
    for (auto &d : ds) for (uint64_t i = 0; i < d.total; ++i) { uint8_t b; d.n->peek(i, 1, &b); VF_EQ(ctx, b, d.m[i], "final", "byte " << i); }
    ctx.count("mappings", ms.size());
    w.setR(false); w.setW(false); for (auto &d : ds) { d.w->setR(false); d.w->setW(false); }
}
// the mapping search tree alone, with many mappings in every order and wide addresses
struct Null : BlockingMemoryIF {
    Null(uint64_t bs, uint64_t top) : BlockingMemoryIF("null", bs, AccessWindow(0, top)) {}
    bool tryRead_(addr_t, addr_t, uint8_t *, const void *, void *) override { return true; }
    bool tryWrite_(addr_t, addr_t, const uint8_t *, const void *, void *) override { return true; }
    bool tryPeek_(addr_t, addr_t, uint8_t *) const override { return true; }
};
VF_SECTION(maptree, 200, 3000)
{
    Quiet q; uint64_t bs = 1ull << ctx.rng.range(0, 34); uint64_t top = (1ull << 60) / bs * bs; Null mem(bs, top); SimpleMemoryMap map(bs);
    uint64_t n = ctx.rng.range(1, 120), width = ctx.rng.of({n * 2, n * 20, (top / bs) - 1}); if (width > top / bs - 1) width = top / bs - 1; if (width < 1) width = 1;
    // boundaries, then each gap or not, added in some order
    std::set<uint64_t> cut; for (uint64_t i = 0; i <= n; ++i) cut.insert(ctx.rng.below(width + 1)); std::vector<uint64_t> c(cut.begin(), cut.end());
    struct Mp { uint64_t s, e; }; std::vector<Mp> ms; for (size_t i = 0; i + 1 < c.size(); ++i) if (ctx.rng.chance(3, 4)) ms.push_back({c[i], c[i + 1]});
    switch (ctx.rng.below(4)) { case 0: break; case 1: std::reverse(ms.begin(), ms.end()); break; default: ctx.rng.shuffle(ms); }
    for (size_t i = 0; i < ms.size(); ++i) {
        ctx.op("add", ms[i].s, ms[i].e); try { map.addMapping(ms[i].s * bs, ms[i].e * bs, &mem, ms[i].s * bs); } catch (SpartaException &e) { VF_CHECK(ctx, false, "tree_refused", "legal mapping refused: " << e.what()); }
        if (ctx.rng.chance(1, 60)) { auto &y = ms[ctx.rng.below(i + 1)]; uint64_t s = y.s + ctx.rng.below(y.e - y.s); VF_CHECK(ctx, vf::throws<SpartaException>([&] { map.addMapping(s * bs, (s + 1 + ctx.rng.below(20)) * bs, &mem, 0); }), "tree_overlap", "overlapping mapping accepted"); if (y.s > 0) VF_CHECK(ctx, vf::throws<SpartaException>([&] { map.addMapping((y.s - 1) * bs, (y.e + 1) * bs, &mem, 0); }), "tree_overlap", "enclosing mapping accepted"); }
        if (i % 8 == 7 || i + 1 == ms.size()) for (size_t k = 0; k < ms.size(); ++k) {
            for (uint64_t a : {ms[k].s * bs, ms[k].e * bs - 1, ms[k].s * bs + ctx.rng.below((ms[k].e - ms[k].s) * bs)}) { auto *f = map.findMapping(a); VF_EQ(ctx, f != nullptr, k <= i, "tree_find", "address " << a); if (f) { VF_EQ(ctx, f->start, ms[k].s * bs, "tree_which", ""); VF_EQ(ctx, f->mapAddress(a), a, "tree_addr", ""); } }
            uint64_t out = ms[k].e * bs; bool in = false; for (size_t j = 0; j <= i; ++j) if (out >= ms[j].s * bs && out < ms[j].e * bs) in = true; VF_EQ(ctx, map.findMapping(out) != nullptr, in, "tree_end", "address " << out);
            if (ms[k].s) { uint64_t lo = ms[k].s * bs - 1; bool il = false; for (size_t j = 0; j <= i; ++j) if (lo >= ms[j].s * bs && lo < ms[j].e * bs) il = true; VF_EQ(ctx, map.findMapping(lo) != nullptr, il, "tree_end", "address " << lo); }
        }
        VF_EQ(ctx, map.getNumMappings(), i + 1, "tree_n", "");
        ctx.obs(i, ms[i].s);
    }
    ctx.count("tree_mappings", ms.size());
}
VF_SECTION(cached, 120, 1500)
{
    Quiet q; vf::Env env; uint64_t bs = 1ull << ctx.rng.range(3, 6), nb = ctx.rng.range(1, 8), total = bs * nb; MemoryObject mo(nullptr, bs, total, ctx.rng.below(256), 1);
    BlockingMemoryObjectIFNode node(&env.rtn, "mem", "memory", nullptr, mo); env.finalize();
    Bytes down(total, uint8_t(mo.getFill())); uint32_t mark = uint32_t(ctx.rng.range(2, 12)); uint64_t wid = ctx.rng.below(200);
    CachedMemory<> cm("c", wid, mark, bs, total, &node); VF_EQ(ctx, cm.getWriteID(), wid, "wid", "");
    struct St { uint64_t id, addr; Bytes data; }; std::vector<St> out; std::vector<char> cached(nb, 0); Bytes base(total, 0); uint64_t uid = wid << 56;
    auto vis = [&](uint64_t i) -> uint8_t { if (!cached[i / bs]) return down[i]; uint8_t v = base[i]; for (auto &s : out) if (i >= s.addr && i < s.addr + s.data.size()) v = s.data[i - s.addr]; return v; };
    auto load = [&](uint64_t b) { if (!cached[b]) { cached[b] = 1; std::copy(down.begin() + b * bs, down.begin() + (b + 1) * bs, base.begin() + b * bs); } };
    for (int n = 0; n < 200; ++n) {
        A a = pickAcc(ctx, bs, total, true); if (a.size > 8 && ctx.rng.chance(2, 3)) a.size = 8; Bytes b = randBytes(ctx, a.size), rb(a.size);
        switch (ctx.rng.below(10)) {
        case 0: case 1: case 2: if (out.size() == mark) { if (ctx.rng.chance(1, 30)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { cm.tryWrite(a.addr, a.size, b.data()); }), "watermark", "write beyond the watermark"); break; }
            ctx.op("write", a.addr, a.size); VF_CHECK(ctx, cm.tryWrite(a.addr, a.size, b.data()), "write", ""); load(a.addr / bs); out.push_back({++uid, a.addr, b}); VF_EQ(ctx, cm.getLastOutstandingWrite().getWriteID(), uid, "uid", ""); ctx.count("stores"); break;
        case 3: if (ctx.rng.chance(1, 2)) cm.read(a.addr, a.size, rb.data()); else VF_CHECK(ctx, cm.tryRead(a.addr, a.size, rb.data()), "read", ""); for (uint64_t i = 0; i < a.size; ++i) VF_EQ(ctx, rb[i], vis(a.addr + i), "read", "byte " << a.addr + i); break;
        case 4: { uint64_t s = 1 + ctx.rng.below(total - a.addr); rb.resize(s); cm.peek(a.addr, s, rb.data()); for (uint64_t i = 0; i < s; ++i) VF_EQ(ctx, rb[i], vis(a.addr + i), "peek", "byte " << a.addr + i); break; }
        case 5: { bool ov = false; for (auto &s : out) if (a.addr < s.addr + s.data.size() && s.addr < a.addr + a.size) ov = true; if (ov) break;   // the effect of poking under an uncommitted store is not specified
            ctx.op("poke", a.addr, a.size); cm.poke(a.addr, a.size, b.data()); load(a.addr / bs); std::copy(b.begin(), b.end(), base.begin() + a.addr); std::copy(b.begin(), b.end(), down.begin() + a.addr); ctx.count("pokes"); break; }
        case 6: if (!out.empty()) { auto s = out.front(); ctx.op("commit", s.addr, s.data.size()); auto w = cm.getOutstandingWrites().begin()->second; VF_EQ(ctx, w.getWriteID(), s.id, "order", ""); if (out.size() > 1 && ctx.rng.chance(1, 30)) { auto last = cm.getLastOutstandingWrite(); VF_CHECK(ctx, vf::throws<SpartaException>([&] { cm.commitWrite(last); }), "commit_order", "committed out of order"); }
                cm.commitWrite(w); std::copy(s.data.begin(), s.data.end(), base.begin() + s.addr); std::copy(s.data.begin(), s.data.end(), down.begin() + s.addr); out.erase(out.begin()); ctx.count("commits"); } break;
        case 7: if (!out.empty()) { size_t k = ctx.rng.below(out.size()); auto w = cm.getOutstandingWrites().at(out[k].id); ctx.op("drop", k, out.size()); cm.dropWrite(w); if (out.size() > 1 && ctx.rng.chance(1, 30) && k > 0) VF_CHECK(ctx, vf::throws<SpartaException>([&] { cm.dropWrite(w); }), "drop_twice", ""); out.resize(k); ctx.count("drops"); } break;
        case 8: ctx.op("merge", a.addr, a.size); node.poke(a.addr, a.size, b.data()); std::copy(b.begin(), b.end(), down.begin() + a.addr); cm.mergeWrite(a.addr, a.size, b.data()); if (cached[a.addr / bs]) std::copy(b.begin(), b.end(), base.begin() + a.addr); ctx.count("merges"); break;
        default: { auto v = cm.getOutstandingWritesForAddr(a.addr); std::vector<uint64_t> g, w; for (auto &s : v) g.push_back(s.getWriteID()); for (auto &s : out) if (a.addr >= s.addr && a.addr < s.addr + s.data.size()) w.push_back(s.id); VF_CHECK(ctx, g == w, "for_addr", "outstanding stores at " << a.addr);
            VF_CHECK(ctx, !cm.tryRead(a.addr / bs * bs + bs - 1, 2, rb.data()) && !cm.tryWrite(a.addr / bs * bs + bs - 1, 2, b.data()), "span", "spanning access accepted"); VF_CHECK(ctx, !cm.tryRead(total, 1, rb.data()), "oob", ""); }
        }
        VF_EQ(ctx, cm.getNumOutstandingWrites(), out.size(), "n_out", "");
        for (auto &s : out) { auto &w = cm.getOutstandingWrites().at(s.id); VF_CHECK(ctx, w.getPAddr() == s.addr && w.getSize() == s.data.size() && std::equal(s.data.begin(), s.data.end(), w.getStoreDataPtr()), "stored", "store data"); }
        Bytes z(bs); for (uint64_t k = 0; k < nb; ++k) { node.peek(k * bs, bs, z.data()); for (uint64_t i = 0; i < bs; ++i) VF_EQ(ctx, z[i], down[k * bs + i], "downstream", "byte " << k * bs + i); cm.peek(k * bs, bs, z.data()); for (uint64_t i = 0; i < bs; ++i) VF_EQ(ctx, z[i], vis(k * bs + i), "visible", "byte " << k * bs + i); }
        ctx.obs(n, out.size(), a.addr);
    }
}
} // namespace
