// C14: register bit strings against a byte-wise big-integer model, register files mirrored by byte arrays, banks by a map.
#include "simenv.hpp"
#include "sparta/functional/ArchData.hpp"
#include "sparta/functional/Register.hpp"
#include "sparta/functional/RegisterSet.hpp"
#include <deque>
using namespace sparta;
namespace {
using Bytes = std::vector<uint8_t>;
std::string hx(const Bytes &b) { std::ostringstream o; o << std::hex; for (size_t i = b.size(); i-- > 0;) o << (unsigned)b[i] << ' '; return o.str(); }
Bytes rnd(vf::Ctx &ctx, size_t n) { Bytes b(n); unsigned k = ctx.rng.below(6); for (auto &x : b) x = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? (ctx.rng.chance(1, 8) ? uint8_t(1u << ctx.rng.below(8)) : 0) : uint8_t(ctx.rng.next()); return b; }
// ---- reference
Bytes shl(const Bytes &a, uint64_t n) { Bytes r(a.size(), 0); for (uint64_t i = n; i < a.size() * 8; ++i) if (a[(i - n) / 8] >> ((i - n) % 8) & 1) r[i / 8] |= uint8_t(1u << (i % 8)); return r; }
Bytes shr(const Bytes &a, uint64_t n) { Bytes r(a.size(), 0); for (uint64_t i = 0; i + n < a.size() * 8; ++i) if (a[(i + n) / 8] >> ((i + n) % 8) & 1) r[i / 8] |= uint8_t(1u << (i % 8)); return r; }
uint64_t getbits(const Bytes &b, unsigned lo, unsigned hi) { uint64_t v = 0; for (unsigned i = lo; i <= hi; ++i) if (b[i / 8] >> (i % 8) & 1) v |= 1ull << (i - lo); return v; }
void setbits(Bytes &b, unsigned lo, unsigned hi, uint64_t v) { for (unsigned i = lo; i <= hi; ++i) { uint8_t m = uint8_t(1u << (i % 8)); b[i / 8] = uint8_t((b[i / 8] & ~m) | ((v >> (i - lo) & 1) ? m : 0)); } }

Bytes bytesOf(const RegisterBits &r) { const RegisterBits &c = r; return Bytes(c.data(), c.data() + c.getSize()); }
VF_SECTION(regbits, 400, 6000)
{
    size_t n = 1ull << ctx.rng.below(8); Bytes m = rnd(ctx, n), ext = rnd(ctx, n), extm = ext;
    if (ctx.rng.chance(1, 2)) m = ext;
    auto mk = [&](const Bytes &b) { RegisterBits r(b.size()); std::copy(b.begin(), b.end(), r.data()); return r; };
    unsigned kind = ctx.rng.below(3);        // own storage, writable view, read-only view (copied when first written)
    std::unique_ptr<RegisterBits> r; bool cow = false, view = false;
    if (kind == 0) { r.reset(new RegisterBits(n)); VF_CHECK(ctx, bytesOf(*r) == Bytes(n, 0) && r->none(), "zero", "new bits not zero"); std::copy(m.begin(), m.end(), r->data()); }
    else if (kind == 1) { r.reset(new RegisterBits(ext.data(), n)); view = true; m = ext; }
    else { r.reset(new RegisterBits(static_cast<const uint8_t *>(ext.data()), n)); cow = true; m = ext; }
    ctx.op("bits", n, kind);
    auto wrote = [&] { if (view) extm = m; cow = false; };
    for (int k = 0; k < 60; ++k) {
        Bytes o = rnd(ctx, n); RegisterBits ro = mk(o); uint32_t sh = ctx.rng.chance(1, 12) ? uint32_t(n * 8 + ctx.rng.below(70)) : uint32_t(ctx.rng.below(n * 8 + 1)); if (ctx.rng.chance(1, 4)) sh = sh / 64 * 64; 
        if (ctx.rng.chance(1, 60)) sh = ~0u - ctx.rng.below(3);
        Bytes w(n);
        switch (ctx.rng.below(13)) {
        case 0: for (size_t i = 0; i < n; ++i) w[i] = m[i] | o[i]; VF_CHECK(ctx, bytesOf(*r | ro) == w, "or", hx(m)); break;
        case 1: for (size_t i = 0; i < n; ++i) w[i] = m[i] & o[i]; VF_CHECK(ctx, bytesOf(*r & ro) == w, "and", hx(m)); break;
        case 2: for (size_t i = 0; i < n; ++i) w[i] = uint8_t(~m[i]); VF_CHECK(ctx, bytesOf(~*r) == w, "not", hx(m)); break;
        case 3: VF_CHECK(ctx, bytesOf(*r >> sh) == shr(m, sh), "shr", hx(m) << ">> " << sh << " got " << hx(bytesOf(*r >> sh))); break;
        case 4: VF_CHECK(ctx, bytesOf(*r << sh) == shl(m, sh), "shl", hx(m) << "<< " << sh << " got " << hx(bytesOf(*r << sh))); break;
        case 5: ctx.op("or=", hx(o)); for (size_t i = 0; i < n; ++i) m[i] |= o[i]; *r |= ro; wrote(); break;
        case 6: ctx.op("shl=", sh); m = shl(m, sh); *r <<= sh; wrote(); break;
        case 7: { bool z = m == Bytes(n, 0); VF_EQ(ctx, r->none(), z, "none", hx(m)); VF_EQ(ctx, r->any(), !z, "any", hx(m)); VF_EQ(ctx, *r == ro, m == o, "eq", ""); RegisterBits same = mk(m); VF_CHECK(ctx, *r == same, "eq", ""); RegisterBits longer = mk(Bytes(n * 2, 0)); VF_CHECK(ctx, !(*r == longer), "eq_size", ""); break; }
        case 8: { uint64_t v = 0; for (size_t i = 0; i < std::min<size_t>(8, n); ++i) v |= uint64_t(m[i]) << (8 * i); VF_EQ(ctx, r->dataAs<uint64_t>(), v, "dataAs", hx(m)); VF_EQ(ctx, r->dataAs<uint32_t>(), uint32_t(v), "dataAs", hx(m)); VF_EQ(ctx, r->dataAs<uint16_t>(), uint16_t(v), "dataAs", hx(m)); VF_EQ(ctx, r->dataAs<uint8_t>(), uint8_t(v), "dataAs", hx(m)); size_t i = ctx.rng.below(n); VF_EQ(ctx, *(*r)[i], m[i], "index", ""); if (n >= 4) VF_CHECK(ctx, *r == uint32_t(v), "eq_int", ""); break; }
        case 9: { if (!ctx.rng.chance(1, 4)) break; if (n >= 8) { uint64_t v = ctx.rng.next(); r->set(v); for (int i = 0; i < 8; ++i) m[i] = uint8_t(v >> (8 * i)); } else { uint8_t v = uint8_t(ctx.rng.next()); r->set(v); m[0] = v; } ctx.op("set"); wrote(); break; }
        case 10: { if (!ctx.rng.chance(1, 6)) break; uint8_t f = uint8_t(ctx.rng.next()); r->fill(f); m.assign(n, f); ctx.op("fill"); wrote(); break; }
        case 11: { // a copy is equal; changing it changes this only if this is a writable view of outside data
            RegisterBits c(*r); VF_CHECK(ctx, bytesOf(c) == m, "copy", "copy differs"); ctx.count("copies");
            if (!view) { c.fill(uint8_t(~m[0])); VF_CHECK(ctx, bytesOf(*r) == m, "copy_alias", "write to a copy changed the original"); }
            break; }
        default: { RegisterBits c(std::move(*r)); VF_CHECK(ctx, bytesOf(c) == m, "move", "moved differs"); r.reset(new RegisterBits(std::move(c))); ctx.op("move"); ctx.count("moves"); }
        }
        VF_CHECK(ctx, bytesOf(*r) == m, "value", "got " << hx(bytesOf(*r)) << " want " << hx(m)); VF_CHECK(ctx, ext == extm, "external", "outside data " << hx(ext)); VF_EQ(ctx, size_t(r->getSize()), n, "bits_size", "");
        ctx.obs(m[0], m[n - 1], sh);
    }
}

// ------------------------------------------------------------------ a register file
struct FD { std::string name; unsigned lo, hi; bool ro; };
struct RD { unsigned id, bytes, group, gidx, subset, off; int root; unsigned rootoff; std::string name, gname; std::vector<FD> fields; std::vector<unsigned> banks; std::vector<std::string> aliases; std::vector<const char *> al; Bytes init; Bytes mask; };
struct Obs {   // one register's notifications
    unsigned posts = 0, reads = 0; Bytes prior, final, val; const void *reg = nullptr;
    static Bytes get(const DataView *d, size_t n) { Bytes b(n); for (size_t i = 0; i < n; ++i) b[i] = d->read<uint8_t>(uint32_t(i)); return b; }
    void onWrite(const RegisterBase::PostWriteAccess &a) { ++posts; reg = a.reg; prior = get(a.prior, a.reg->getNumBytes()); final = get(a.final, a.reg->getNumBytes()); }
    void onRead(const RegisterBase::ReadAccess &a) { ++reads; reg = a.reg; val = get(a.value, a.reg->getNumBytes()); }
};
std::vector<RegisterBase::Definition> defsOf(std::deque<RD> &ds)
{
    std::vector<RegisterBase::Definition> v; v.reserve(ds.size() + 1);
    for (auto &d : ds) {
        std::vector<RegisterBase::Field::Definition> f; for (auto &x : d.fields) f.emplace_back(x.name.c_str(), "a field", x.lo, x.hi, x.ro);
        d.al.clear(); for (auto &a : d.aliases) d.al.push_back(a.c_str()); d.al.push_back(nullptr);
        v.push_back(RegisterBase::Definition{d.id, d.name.c_str(), d.group, d.gname.c_str(), d.gidx, "a register", d.bytes, f, std::vector<RegisterBase::bank_idx_type>(d.banks.begin(), d.banks.end()), d.aliases.empty() ? nullptr : d.al.data(), d.subset, d.off, d.init.empty() ? nullptr : d.init.data(), 0, 0});
    }
    v.push_back(RegisterBase::Definition{0, nullptr, 0, nullptr, 0, nullptr, 0, {}, {}, nullptr, 0, 0, nullptr, 0, 0});
    return v;
}
VF_SECTION(regfile, 120, 1500)
{
    Quiet q; RootTreeNode rtn("top");
    bool fullinit = ctx.rng.chance(1, 2); int nr = ctx.rng.range(1, 14); std::deque<RD> ds;
    for (int i = 0; i < nr; ++i) {
        RD d; d.id = 1 + i * 3; d.bytes = 1u << ctx.rng.below(8); d.group = RegisterBase::GROUP_NUM_NONE; d.gidx = TreeNode::GROUP_IDX_NONE; d.subset = RegisterBase::INVALID_ID; d.off = 0; d.root = i; d.rootoff = 0; d.name = "r" + std::to_string(i);
        if (i && ctx.rng.chance(1, 3)) { size_t p = ctx.rng.below(ds.size()); while (d.bytes > ds[p].bytes) d.bytes /= 2; d.subset = ds[p].id; d.off = unsigned(ctx.rng.below(ds[p].bytes - d.bytes + 1)); d.root = ds[p].root; d.rootoff = ds[p].rootoff + d.off; }
        unsigned bits = d.bytes * 8; int nf = ctx.rng.below(6);
        for (int f = 0; f < nf; ++f) { FD x; x.lo = unsigned(ctx.rng.below(bits)); unsigned w = ctx.rng.chance(1, 4) ? 64 : ctx.rng.range(1, 64); if (ctx.rng.chance(1, 4)) w = 1; x.hi = std::min(bits - 1, x.lo + w - 1); x.ro = ctx.rng.chance(1, 3); x.name = "f" + std::to_string(f); d.fields.push_back(x); }
        if (fullinit || ctx.rng.chance(1, 3)) d.init = rnd(ctx, d.bytes);
        if (ctx.rng.chance(1, 3)) d.aliases.push_back("al" + std::to_string(i));
        d.mask.assign(d.bytes, 0xff); for (auto &x : d.fields) if (x.ro) setbits(d.mask, x.lo, x.hi, 0);
        ds.push_back(d);
    }
    auto defs = defsOf(ds);
    auto rs = RegisterSet::create(&rtn, defs.data());
    VF_EQ(ctx, rs->getNumRegisters(), unsigned(nr), "count", "registers");
    rtn.enterConfiguring(); rtn.enterFinalized(); rtn.bindTreeEarly();
    std::vector<Bytes> mem(nr); for (int i = 0; i < nr; ++i) if (ds[i].root == i) { mem[i].assign(ds[i].bytes, 0xcc); for (size_t k = 0; k < ds[i].bytes; ++k) mem[i][k] = uint8_t(ArchData::DEFAULT_INITIAL_FILL >> (8 * (k % ArchData::DEFAULT_INITIAL_FILL_SIZE))); }
    auto at = [&](int i) { return mem[ds[i].root].begin() + ds[i].rootoff; };
    auto val = [&](int i) { return Bytes(at(i), at(i) + ds[i].bytes); };
    auto put = [&](int i, size_t off, const Bytes &b, bool masked) { for (size_t k = 0; k < b.size(); ++k) { uint8_t mk = masked ? ds[i].mask[off + k] : 0xff; auto it = at(i) + off + k; *it = uint8_t((*it & ~mk) | (b[k] & mk)); } };
    auto initial = [&] { for (int i = 0; i < nr; ++i) if (!ds[i].init.empty()) put(i, 0, ds[i].init, false); };
    initial();
    std::vector<Register *> R; std::vector<Obs> ob(nr); std::vector<bool> obs(nr);
    for (int i = 0; i < nr; ++i) {
        auto *r = dynamic_cast<Register *>(rs->getRegister(ds[i].name)); VF_CHECK(ctx, r, "lookup_name", ds[i].name); R.push_back(r);
        VF_EQ(ctx, r->getID(), ds[i].id, "def", ""); VF_EQ(ctx, r->getNumBytes(), ds[i].bytes, "def", ""); VF_EQ(ctx, r->getNumBits(), ds[i].bytes * 8, "def", ""); VF_EQ(ctx, r->getNumFields(), unsigned(ds[i].fields.size()), "def", "fields"); VF_EQ(ctx, r->getSubsetOf(), ds[i].subset, "def", ""); VF_EQ(ctx, r->getSubsetOffset(), ds[i].off, "def", "");
        for (auto &a : ds[i].aliases) VF_EQ(ctx, (void *)rs->getRegister(a), (void *)static_cast<RegisterBase *>(r), "lookup_alias", a);
        if (ctx.rng.chance(1, 2)) { obs[i] = true; r->getPostWriteNotificationSource().registerForThis<Obs, &Obs::onWrite>(&ob[i]); r->getReadNotificationSource().registerForThis<Obs, &Obs::onRead>(&ob[i]); }
        std::string ms, mb; char t[8]; for (size_t k = ds[i].bytes; k-- > 0;) { snprintf(t, sizeof t, "%02x", ds[i].mask[k]); ms += t; for (int b = 7; b >= 0; --b) mb += char('0' + (ds[i].mask[k] >> b & 1)); if (k) { ms += ' '; mb += ' '; } }
        VF_EQ(ctx, r->getWriteMaskAsByteString(), ms, "mask", ds[i].name); VF_EQ(ctx, r->getWriteMaskAsBitString(), mb, "mask", "");
        for (size_t k = 0; k < ds[i].bytes; ++k) VF_EQ(ctx, r->getWriteMask<uint8_t>(uint32_t(k)), ds[i].mask[k], "mask", "byte"); if (ds[i].bytes >= 8) { uint64_t w; memcpy(&w, &ds[i].mask[ds[i].bytes - 8], 8); VF_EQ(ctx, r->getWriteMask<uint64_t>(ds[i].bytes / 8 - 1), w, "mask", "u64"); }
    }
    auto check = [&](const char *k) { for (int i = 0; i < nr; ++i) { Bytes b(ds[i].bytes); R[i]->peek(b.data(), b.size(), 0); VF_CHECK(ctx, b == val(i), k, "register " << i << " is " << hx(b) << " want " << hx(val(i))); } };
    check("initial");
    for (int n = 0; n < 150; ++n) {
        int i = int(ctx.rng.below(nr)); auto *r = R[i]; RegisterBase *rb = r; auto &d = ds[i]; Bytes before = val(i); for (auto &o : ob) o = Obs();
        bool w = false, rd = false;    // does this operation notify
        size_t sz = ctx.rng.chance(1, 2) ? std::min<size_t>(d.bytes, 1ull << ctx.rng.below(4)) : 1 + ctx.rng.below(d.bytes), off = ctx.rng.below(d.bytes - sz + 1); Bytes b = rnd(ctx, sz), g(sz);
        auto typed = [&](auto f) { unsigned t = ctx.rng.below(4); while ((1u << t) > d.bytes) --t; sz = 1u << t; uint32_t idx = uint32_t(ctx.rng.below(d.bytes >> t)); off = idx << t; b = rnd(ctx, 8); b.resize(8); uint64_t v = getbits(b, 0, 63); b.resize(sz); g.assign(sz, 0);
            switch (t) { case 0: f(uint8_t(v), idx); break; case 1: f(uint16_t(v), idx); break; case 2: f(uint32_t(v), idx); break; default: f(uint64_t(v), idx); } };
        auto same = [&](const char *k) { VF_CHECK(ctx, g == Bytes(before.begin() + off, before.begin() + off + sz), k, "register " << i << " +" << off << " size " << sz << " read " << hx(g) << " of " << hx(before)); };
        switch (ctx.rng.below(20)) {
        case 0: r->read(g.data(), sz, off); rd = true; same("read"); break;
        case 1: r->peek(g.data(), sz, off); same("peek"); break;
        case 2: ctx.op("write", i, off, hx(b)); r->write(b.data(), sz, off); put(i, off, b, true); w = true; break;
        case 3: ctx.op("writeU", i, off, hx(b)); r->RegisterBase::writeUnmasked(b.data(), sz, off); put(i, off, b, false); w = true; break;
        case 4: ctx.op("poke", i, off, hx(b)); r->poke(b.data(), sz, off); put(i, off, b, true); break;
        case 5: ctx.op("pokeU", i, off, hx(b)); r->pokeUnmasked(b.data(), sz, off); put(i, off, b, false); break;
        case 6: typed([&](auto v, uint32_t idx) { using T = decltype(v); T x = r->template read<T>(idx); memcpy(g.data(), &x, sizeof x); rd = true; same("readT"); }); break;
        case 7: typed([&](auto v, uint32_t idx) { using T = decltype(v); T x = r->template peek<T>(idx); memcpy(g.data(), &x, sizeof x); same("peekT"); }); break;
        case 8: typed([&](auto v, uint32_t idx) { ctx.op("writeT", i, idx, sizeof v, uint64_t(v)); r->write(v, idx); put(i, off, b, true); w = true; }); break;
        case 9: typed([&](auto v, uint32_t idx) { ctx.op("pokeT", i, idx, sizeof v, uint64_t(v)); r->poke(v, idx); put(i, off, b, true); }); break;
        case 10: typed([&](auto v, uint32_t idx) { ctx.op("pokeUT", i, idx, sizeof v, uint64_t(v)); r->pokeUnmasked(v, idx); put(i, off, b, false); }); break;
        case 11: typed([&](auto v, uint32_t idx) { ctx.op("writeUT", i, idx, sizeof v, uint64_t(v)); if (ctx.rng.chance(1, 2)) r->writeUnmasked(v, idx); else { rb->writeUnmasked(v, idx); w = true; } put(i, off, b, false); }); break;
        case 12: typed([&](auto v, uint32_t idx) { using T = decltype(v); T x = ctx.rng.chance(1, 2) ? r->template dmiRead<T>(idx) : rb->template dmiRead<T>(idx); memcpy(g.data(), &x, sizeof x); same("dmiRead"); }); break;
        case 13: typed([&](auto v, uint32_t idx) { ctx.op("dmiWrite", i, idx, sizeof v, uint64_t(v)); if (ctx.rng.chance(1, 2)) r->dmiWrite(v, idx); else rb->dmiWrite(v, idx); put(i, off, b, false); }); break;
        case 14: case 15: case 16: case 17: {
            if (d.fields.empty()) break; auto &x = ctx.rng.pick(d.fields); auto *f = r->getField(x.name); unsigned nb = x.hi - x.lo + 1; VF_EQ(ctx, f->getNumBits(), nb, "field_def", ""); VF_EQ(ctx, f->isReadOnly(), x.ro, "field_def", ""); VF_EQ(ctx, f->getLowBit(), x.lo, "field_def", "");
            uint64_t v = getbits(rnd(ctx, 8), 0, nb - 1), cur = getbits(before, x.lo, x.hi); unsigned k = ctx.rng.below(6);
            if (nb < 64 && ctx.rng.chance(1, 40)) { uint64_t big = ctx.rng.chance(1, 2) ? 1ull << nb : ~0ull; VF_CHECK(ctx, vf::throws<SpartaException>([&] { if (k < 2) f->write(big); else if (k < 4) f->poke(big); else f->pokeUnmasked(big); }), "field_range", "value " << big << " accepted by a field of " << nb << " bits in " << d.bytes << " bytes"); ctx.count("too_large"); break; }
            if (k == 0) { VF_EQ(ctx, f->read(), cur, "field_read", "[" << x.lo << "-" << x.hi << "] of " << hx(before)); rd = true; break; }
            if (k == 1) { VF_EQ(ctx, f->peek(), cur, "field_peek", "[" << x.lo << "-" << x.hi << "] of " << hx(before)); break; }
            Bytes nv = before; setbits(nv, x.lo, x.hi, v); ctx.op("field", i, x.lo, x.hi, v, k);
            if (k == 2 || k == 3) { f->write(v); w = true; put(i, 0, nv, true); } else if (k == 4) { f->poke(v); put(i, 0, nv, true); } else { f->pokeUnmasked(v); put(i, 0, nv, false); } ctx.count("field_writes"); break; }
        case 18: if (ctx.rng.chance(1, 25)) { // rejected accesses change nothing
            size_t bo = ctx.rng.chance(1, 3) ? ~size_t(0) - ctx.rng.below(4) : d.bytes + ctx.rng.below(3), bs = ctx.rng.range(1, 8); if (ctx.rng.chance(1, 3)) { bo = ctx.rng.below(d.bytes); bs = d.bytes - bo + 1; } uint8_t buf[256] = {0}; unsigned k = ctx.rng.below(6);
            VF_CHECK(ctx, vf::throws<SpartaException>([&] { switch (k) { case 0: r->read(buf, bs, bo); break; case 1: r->peek(buf, bs, bo); break; case 2: r->write(buf, bs, bo); break; case 3: r->poke(buf, bs, bo); break; case 4: r->pokeUnmasked(buf, bs, bo); break; default: rb->writeUnmasked(buf, bs, bo); } }), "oob", "access of " << bs << " at " << bo << " in " << d.bytes << " op " << k); ctx.count("oob"); } break;
        default: if (ctx.rng.chance(1, 10)) { if (fullinit && ctx.rng.chance(1, 2)) { ctx.op("reset"); rs->reset(); initial(); } else if (!d.init.empty()) { bool um = ctx.rng.chance(1, 2); ctx.op("reset1", i, um); r->reset(um); put(i, 0, d.init, !um); } ctx.count("resets"); }
        }
        for (int k = 0; k < nr; ++k) {
            bool ew = w && k == i && obs[k], er = rd && k == i && obs[k]; VF_EQ(ctx, ob[k].posts, unsigned(ew), "post_write", "notifications of register " << k << " after an operation on " << i); VF_EQ(ctx, ob[k].reads, unsigned(er), "post_read", "read notifications of " << k);
            if (ew) { VF_CHECK(ctx, ob[k].prior == before, "prior", hx(ob[k].prior) << " want " << hx(before)); VF_CHECK(ctx, ob[k].final == val(i), "final", hx(ob[k].final)); VF_EQ(ctx, ob[k].reg, (const void *)rb, "noti_reg", ""); ctx.count("write_noti"); }
            if (er) { VF_CHECK(ctx, ob[k].val == before, "read_noti_value", ""); ctx.count("read_noti"); }
        }
        check("state"); ctx.obs(val(i)[0], n);
        std::string bs; char t[8]; Bytes now = val(i); for (size_t k = now.size(); k-- > 0;) { snprintf(t, sizeof t, "%02x", now[k]); bs += t; if (k) bs += ' '; } VF_EQ(ctx, r->getValueAsByteString(), bs, "bytestr", "");
    }
    // checked accesses go to the callbacks where there are any
    for (int i = 0; i < nr; ++i) if (ds[i].bytes == 4 || ds[i].bytes == 8) {
        uint64_t v = getbits(val(i), 0, ds[i].bytes * 8 - 1), got = 0; auto x = R[i]->readWithCheck(); VF_EQ(ctx, x.getValue(), v, "readcheck", "");
        if (ctx.rng.chance(1, 2)) { bool ok = ctx.rng.chance(1, 2); R[i]->addWriteCB([&](RegisterBase *, uint64_t y) { got = y; return ok; }); R[i]->addReadCB([](RegisterBase *) { return utils::ValidValue<uint64_t>(77); }); VF_EQ(ctx, R[i]->writeWithCheck<uint64_t>(v + 1), ok, "writecheck", ""); VF_EQ(ctx, got, v + 1, "writecheck", "callback value"); VF_EQ(ctx, R[i]->readWithCheck().getValue(), uint64_t(77), "readcheck", "callback"); }
        else if (ds[i].bytes == 8) { uint64_t y = ctx.rng.next(); VF_CHECK(ctx, R[i]->writeWithCheck<uint64_t>(y), "writecheck", ""); Bytes b(8); memcpy(b.data(), &y, 8); put(i, 0, b, true); }
    }
    check("final_state"); ctx.count("registers", nr);
    for (int i = 0; i < nr; ++i) if (obs[i]) { R[i]->getPostWriteNotificationSource().deregisterForThis<Obs, &Obs::onWrite>(&ob[i]); R[i]->getReadNotificationSource().deregisterForThis<Obs, &Obs::onRead>(&ob[i]); }
    rtn.enterTeardown();
}

// ------------------------------------------------------------------ groups, banks and proxies
VF_SECTION(banks, 200, 2500)
{
    Quiet q; RootTreeNode rtn("top"); std::deque<RD> ds; std::map<std::array<unsigned, 3>, int> tab; std::map<std::pair<unsigned, unsigned>, int> all; unsigned nbanks = 1, ngroups = 0;
    int nr = ctx.rng.range(1, 25), clash = -1; bool wantClash = ctx.rng.chance(1, 12);
    for (int i = 0; i < nr; ++i) {
        RD d; d.id = 1 + i; d.bytes = 4; d.subset = RegisterBase::INVALID_ID; d.off = 0; d.root = i; d.rootoff = 0; d.name = "r" + std::to_string(i);
        bool none = ctx.rng.chance(1, 8); d.group = none ? RegisterBase::GROUP_NUM_NONE : unsigned(ctx.rng.below(6)); d.gname = none ? "" : std::string("G") + char(65 + d.group); d.gidx = none ? TreeNode::GROUP_IDX_NONE : unsigned(ctx.rng.chance(1, 10) ? ctx.rng.below(100000) : ctx.rng.below(6));
        if (!none && ctx.rng.chance(3, 4)) { int nb = ctx.rng.range(1, 4); std::set<unsigned> s; while (nb--) s.insert(unsigned(ctx.rng.below(8))); d.banks.assign(s.begin(), s.end()); ctx.rng.shuffle(d.banks); }
        bool bad = false; if (!none) { if (d.banks.empty()) { for (auto &[k, v] : tab) if (k[1] == d.group && k[2] == d.gidx) bad = true; } else for (auto b : d.banks) if (tab.count({b, d.group, d.gidx})) bad = true; if (all.count({d.group, d.gidx})) bad = true; }
        if (bad && !(wantClash && clash < 0 && i == nr - 1)) continue;
        if (bad) clash = i;
        ds.push_back(d);
        if (bad) break; int id = int(ds.size()) - 1;
        if (none) continue;
        ngroups = std::max(ngroups, d.group + 1);
        if (d.banks.empty()) all[{d.group, d.gidx}] = id; else for (auto b : d.banks) { tab[{b, d.group, d.gidx}] = id; nbanks = std::max(nbanks, b + 1); }
    }
    if (ds.empty()) return;
    auto defs = defsOf(ds);
    if (clash >= 0) { VF_CHECK(ctx, vf::throws<SpartaException>([&] { auto x = RegisterSet::create(&rtn, defs.data()); }), "bank_clash", "two registers in one place accepted"); ctx.count("clashes"); rtn.enterTeardown(); return; }
    unsigned cur = 0; std::vector<std::pair<unsigned, unsigned>> pd; std::deque<std::string> pn; std::vector<RegisterProxyBase::Definition> px;
    { std::set<std::pair<unsigned, unsigned>> s; for (auto &[k, v] : tab) s.insert({k[1], k[2]}); for (auto &[k, v] : all) s.insert(k); px.reserve(s.size() + 1); for (auto &k : s) if (ctx.rng.chance(1, 2)) { pd.push_back(k); pn.push_back("p" + std::to_string(pd.size())); } std::deque<std::string> gn; static std::array<std::string, 6> G{"GA", "GB", "GC", "GD", "GE", "GF"};
      for (size_t i = 0; i < pd.size(); ++i) px.push_back({10000 + unsigned(i), pn[i].c_str(), pd[i].first, G[pd[i].first].c_str(), pd[i].second, "a proxy"}); px.push_back({0, nullptr, 0, nullptr, 0, nullptr}); }
    unsigned askG = 0, askI = 0; std::string askN;
    auto rs = RegisterSet::create(&rtn, defs.data(), px.data(), [&](unsigned g, unsigned i, const std::string *nm) { askG = g; askI = i; askN = nm ? *nm : ""; return cur; });
    ctx.op("set", ds.size(), nbanks, pd.size());
    if (ctx.rng.chance(1, 4)) { unsigned m = unsigned(ctx.rng.below(12)); rs->setMinimumBankIndex(m); nbanks = std::max(nbanks, m + 1); }
    VF_EQ(ctx, rs->getNumBanks(), nbanks, "nbanks", ""); VF_EQ(ctx, rs->getNumGroups(), ngroups, "ngroups", ""); VF_EQ(ctx, rs->getNumRegisters(), unsigned(ds.size()), "nregs", "");
    auto want = [&](unsigned b, unsigned g, unsigned i) -> int { if (b >= nbanks) return -1; auto a = all.find({g, i}); if (a != all.end()) return a->second; auto t = tab.find({b, g, i}); return t == tab.end() ? -1 : t->second; };
    auto reg = [&](int i) { return i < 0 ? nullptr : rs->getRegister(ds[i].name); };
    std::set<unsigned> gi; for (auto &d : ds) if (d.group != RegisterBase::GROUP_NUM_NONE) gi.insert(d.gidx); gi.insert(3); gi.insert(99999);
    for (unsigned b = 0; b < nbanks + 2; ++b) for (unsigned g = 0; g < ngroups + 2; ++g) {
        unsigned cnt = 0;
        for (unsigned i : gi) {
            int w = want(b, g, i); if (w >= 0) ++cnt; VF_EQ(ctx, rs->canLookupRegister(g, i, b), w >= 0, "can_lookup", "bank " << b << " group " << g << " idx " << i);
            if (w >= 0) { VF_EQ(ctx, (void *)rs->lookupRegister(g, i, b), (void *)reg(w), "lookup", "bank " << b << " group " << g << " idx " << i); VF_EQ(ctx, (void *)rs->getRegister(g, i, b), (void *)reg(w), "get", ""); if (b == 0) { VF_EQ(ctx, (void *)rs->lookupRegister(g, i), (void *)reg(w), "lookup0", ""); VF_CHECK(ctx, rs->canLookupRegister(g, i), "lookup0", ""); VF_EQ(ctx, (void *)rs->getRegister(g, i), (void *)reg(w), "lookup0", ""); } ctx.count("found"); ctx.obs(b, g, i, w); }
            else if (ctx.rng.chance(1, 150)) { VF_CHECK(ctx, vf::throws<SpartaException>([&] { rs->getRegister(g, i, b); }), "get_missing", ""); ctx.count("missing"); }
        }
        if (b < nbanks) VF_EQ(ctx, rs->getGroupSize(g, b), cnt, "group_size", "bank " << b << " group " << g);
    }
    for (size_t i = 0; i < ds.size(); ++i) for (unsigned b = 0; b < 9; ++b) { auto *r = reg(int(i)); bool in = ds[i].banks.empty() || std::count(ds[i].banks.begin(), ds[i].banks.end(), b); VF_EQ(ctx, r->isInBank(b), in, "in_bank", ""); VF_EQ(ctx, r->isBanked(), !ds[i].banks.empty(), "is_banked", ""); }
    for (size_t i = 0; i < pd.size(); ++i) for (int k = 0; k < 4; ++k) {
        cur = unsigned(ctx.rng.below(nbanks + 1)); auto &p = rs->getRegisterProxy(pn[i]); int w = want(cur, pd[i].first, pd[i].second); VF_EQ(ctx, (void *)p.tryGetCurrentRegister(), (void *)reg(w), "proxy_try", "bank " << cur);
        if (w >= 0) VF_EQ(ctx, (void *)p.getCurrentRegister(), (void *)reg(w), "proxy", "bank " << cur); else if (ctx.rng.chance(1, 10)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { p.getCurrentRegister(); }), "proxy_missing", "");
        VF_CHECK(ctx, askG == pd[i].first && askI == pd[i].second && askN == pn[i], "proxy_question", "the current bank function was asked about another register"); ctx.count("proxies");
    }
    { size_t i = ctx.rng.below(ds.size()); VF_EQ(ctx, (void *)rs->getRegisterProxy(ds[i].name).getCurrentRegister(), (void *)reg(int(i)), "proxy_plain", ""); VF_EQ(ctx, &rs->getRegisterProxy(ds[i].name), &rs->getRegisterProxy(ds[i].name), "proxy_same", ""); }
    rtn.enterTeardown();
}

// ------------------------------------------------------------------ definitions that must be refused
VF_SECTION(refused, 30, 300)
{
    Quiet q; RootTreeNode rtn("top"); std::deque<RD> ds; int n = ctx.rng.range(1, 4);
    for (int i = 0; i < n; ++i) { RD d; d.id = 1 + i; d.bytes = 1u << ctx.rng.below(5); d.group = i; d.gname = std::string("G") + char(65 + i); d.gidx = 3; d.subset = RegisterBase::INVALID_ID; d.off = 0; d.root = i; d.rootoff = 0; d.name = "r" + std::to_string(i); ds.push_back(d); }
    auto &d = ctx.rng.pick(ds); unsigned k = ctx.rng.below(11); unsigned bits = d.bytes * 8; ctx.op("kind", k);
    switch (k) {
    case 0: d.bytes = ctx.rng.chance(1, 3) ? 0 : 3 + 2 * ctx.rng.below(20); break;
    case 1: d.fields.push_back({"f", bits / 2 + 1, bits / 2, ctx.rng.chance(1, 2)}); break;
    case 2: d.fields.push_back({"f", bits, bits + 1, ctx.rng.chance(1, 2)}); break;
    case 3: d.fields.push_back({"f", bits - 1, bits, ctx.rng.chance(1, 2)}); break;
    case 4: d.bytes = 16; d.fields.push_back({"f", 3, 67, ctx.rng.chance(1, 2)}); break;
    case 5: d.group = RegisterBase::GROUP_NUM_NONE; break;
    case 6: d.gname = ""; break;
    case 7: d.group = RegisterBase::GROUP_NUM_NONE; d.gname = ""; d.gidx = TreeNode::GROUP_IDX_NONE; d.banks = {1}; break;
    case 8: d.banks = {unsigned(256 + ctx.rng.below(1000))}; break;
    case 9: d.bytes = 4; d.fields.push_back({"f", 0, 1, false}); d.fields.push_back({"f", 2, 3, false}); break;
    default: d.subset = 999; break;
    }
    auto defs = defsOf(ds); VF_CHECK(ctx, vf::throws<SpartaException>([&] { auto x = RegisterSet::create(&rtn, defs.data()); }), "refused", "bad definition of kind " << k << " accepted"); ctx.count("refused"); ctx.obs(k, n);
    // definitions compare equal exactly when all they say is equal
    Bytes i1 = rnd(ctx, 8), i2 = i1; bool diff = ctx.rng.chance(1, 2); if (diff) i2[ctx.rng.below(8)] ^= 1;
    RegisterBase::Definition a{1, "x", 2, "g", 3, "d", 8, {}, {1, 2}, nullptr, 0, 0, i1.data(), 0, 0}, b{1, "x", 2, "g", 3, "d", 8, {}, {1, 2}, nullptr, 0, 0, i2.data(), 0, 0}, c{1, "x", 2, "g", 3, "d", 8, {}, {1, 3}, nullptr, 0, 0, i1.data(), 0, 0}, e{1, "x", 2, "g", 3, "d", 8, {}, {1, 2}, nullptr, 0, 0, nullptr, 0, 0};
    VF_EQ(ctx, a == b, !diff, "def_eq", "initial values " << hx(i1) << " / " << hx(i2)); VF_CHECK(ctx, a != c && a == a && a != e && e == e, "def_eq", "");
    rtn.enterTeardown();
}
}
