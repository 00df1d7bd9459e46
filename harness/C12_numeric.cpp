// C12: every numeric / bit / wrapper utility against exact (128-bit or byte-wise) reference arithmetic; a result that cannot be represented must be rejected.
#include "vf.hpp"
#include "sparta/utils/BitArray.hpp"
#include "sparta/utils/Bits.hpp"
#include "sparta/utils/MathUtils.hpp"
#include "sparta/utils/ByteOrder.hpp"
#include "sparta/utils/Rational.hpp"
#include "sparta/utils/BoundedValue.hpp"
#include "sparta/utils/LockedValue.hpp"
#include "sparta/utils/ValidValue.hpp"
#include "sparta/utils/TieredMap.hpp"
#include "sparta/utils/Utils.hpp"
#include "sparta/utils/LexicalCast.hpp"
#include "sparta/utils/StringUtils.hpp"
#include "sparta/utils/StringManager.hpp"
#include "sparta/utils/Tag.hpp"
#include "sparta/utils/KeyValue.hpp"
#include "sparta/utils/VectorUtils.hpp"
#include <array>
#include <map>
#include <memory>
#include <optional>
using namespace sparta; using namespace sparta::utils;
typedef unsigned __int128 u128; typedef __int128 i128;
namespace {
std::string s128(i128 v) { if (v == 0) return "0"; bool n = v < 0; std::string s; u128 u = n ? u128(-v) : u128(v); while (u) { s.insert(s.begin(), char('0' + int(u % 10))); u /= 10; } return n ? "-" + s : s; }
template<class T> bool fits(i128 v) { return v >= i128(std::numeric_limits<T>::min()) && v <= i128(std::numeric_limits<T>::max()); }
template<class T> std::string num(T v) { return s128(i128(v)); }
template<class T> const char *tn() { return std::is_same_v<T, int8_t> ? "i8" : std::is_same_v<T, uint8_t> ? "u8" : std::is_same_v<T, int16_t> ? "i16" : std::is_same_v<T, uint16_t> ? "u16" : std::is_same_v<T, int32_t> ? "i32" : std::is_same_v<T, uint32_t> ? "u32" : std::is_same_v<T, int64_t> ? "i64" : "u64"; }
// a value of T that is small, near a boundary or arbitrary
template<class T> T val(vf::Rng &r) {
    const i128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    switch (r.below(6)) {
    case 0: return T(r.below(8)); case 1: return T(hi - i128(r.below(4))); case 2: return T(lo + i128(r.below(4)));
    case 3: { i128 v = i128(r.range(-8, 8)); return fits<T>(v) ? T(v) : T(0); }
    case 4: { u128 v = u128(1) << r.below(sizeof(T) * 8); i128 w = i128(v) + r.range(-1, 1); return fits<T>(w) ? T(w) : T(hi); }
    default: return T(r.next() >> r.below(64)); }
}
template<class F> bool rejected(F &&f) { try { f(); } catch (const SpartaException &) { return true; } return false; }

// ------------------------------------------------------------------ BitArray
using Bytes = std::vector<uint8_t>;
void cmpBits(vf::Ctx &ctx, const BitArray &a, const Bytes &m, const char *what) {
    VF_EQ(ctx, a.getSize(), m.size(), "bitarray-size", what);
    VF_CHECK(ctx, m.empty() || !std::memcmp(a.getValue(), m.data(), m.size()), "bitarray-bytes", what << ": bytes differ from the model");
    uint64_t w = 0; std::memcpy(&w, m.data(), std::min<size_t>(8, m.size()));
    VF_EQ(ctx, a.getValue<uint64_t>(), w, "bitarray-value", what); VF_EQ(ctx, a.getValue<uint32_t>(), uint32_t(w), "bitarray-value", what);
    VF_EQ(ctx, a.getValue<int16_t>(), int16_t(w), "bitarray-value", what); VF_EQ(ctx, int(a.getValue<uint8_t>()), int(uint8_t(w)), "bitarray-value", what);
    ctx.obs(w);
}
Bytes shl(const Bytes &m, size_t n) { Bytes o(m.size(), 0); size_t B = m.size() * 8; for (size_t i = 0; i < B; ++i) if (n <= i && ((m[(i - n) / 8] >> ((i - n) % 8)) & 1)) o[i / 8] |= uint8_t(1u << (i % 8)); return o; }
Bytes shr(const Bytes &m, size_t n) { Bytes o(m.size(), 0); size_t B = m.size() * 8; for (size_t i = 0; i < B; ++i) if (n < B && i + n < B && ((m[(i + n) / 8] >> ((i + n) % 8)) & 1)) o[i / 8] |= uint8_t(1u << (i % 8)); return o; }
template<class T> void fillM(Bytes &m, T v) { for (size_t i = 0; i < m.size(); ++i) m[i] = uint8_t(uint64_t(v) >> (8 * (i % sizeof(T)))); }
VF_SECTION(bitarray, 2500, 120000)
{
    auto &r = ctx.rng; const unsigned N = 3;
    std::vector<std::unique_ptr<BitArray>> a(N); std::vector<Bytes> m(N);
    auto make = [&](unsigned i) {
        size_t sz = r.of<size_t>({1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 18, 32, 33, 64});
        if (r.chance(1, 3)) { uint64_t w = r.word(); switch (r.below(4)) {
            case 0: a[i].reset(new BitArray(uint8_t(w), sz)); m[i].assign(sz, 0); m[i][0] = uint8_t(w); break;
            case 1: a[i].reset(new BitArray(int32_t(w), sz)); m[i].assign(sz, 0); std::memcpy(m[i].data(), &w, std::min<size_t>(4, sz)); break;
            case 2: a[i].reset(new BitArray(w, sz)); m[i].assign(sz, 0); std::memcpy(m[i].data(), &w, std::min<size_t>(8, sz)); break;
            default: a[i].reset(new BitArray(uint16_t(w))); m[i].assign(2, 0); std::memcpy(m[i].data(), &w, 2); } }
        else { size_t ds = r.chance(1, 2) ? sz : 1 + r.below(40); std::unique_ptr<uint8_t[]> d(new uint8_t[ds]); for (size_t k = 0; k < ds; ++k) d[k] = uint8_t(r.next());
            bool dflt = r.chance(1, 4); a[i].reset(dflt ? new BitArray(d.get(), ds) : new BitArray(d.get(), ds, sz)); m[i].assign(dflt ? ds : sz, 0); std::memcpy(m[i].data(), d.get(), std::min(ds, m[i].size())); }
    };
    for (unsigned i = 0; i < N; ++i) { make(i); cmpBits(ctx, *a[i], m[i], "ctor"); }
    for (unsigned s = 0; s < 30; ++s) {
        unsigned i = unsigned(r.below(N)), j = unsigned(r.below(N)); size_t B = m[i].size() * 8; size_t n = r.chance(1, 6) ? r.of<size_t>({B, B + 1, B + 8, 2 * B, size_t(1) << 40, ~size_t(0)}) : r.below(B + 1);
        unsigned k = unsigned(r.below(18)); ctx.op([&](std::ostream &o) { o << "op" << k << " i" << i << "(" << m[i].size() << ") j" << j << "(" << m[j].size() << ") n" << n; });
        switch (k) {
        case 0: *a[i] <<= n; m[i] = shl(m[i], n); break;
        case 1: *a[i] >>= n; m[i] = shr(m[i], n); break;
        case 2: { BitArray c = *a[i] << n; cmpBits(ctx, c, shl(m[i], n), "<<"); break; }
        case 3: { BitArray c = *a[i] >> n; cmpBits(ctx, c, shr(m[i], n), ">>"); break; }
        case 4: *a[i] &= *a[j]; for (size_t x = 0; x < std::min(m[i].size(), m[j].size()); ++x) m[i][x] &= m[j][x]; break;
        case 5: *a[i] |= *a[j]; for (size_t x = 0; x < std::min(m[i].size(), m[j].size()); ++x) m[i][x] |= m[j][x]; break;
        case 6: { Bytes c = m[i]; for (size_t x = 0; x < std::min(c.size(), m[j].size()); ++x) c[x] &= m[j][x]; cmpBits(ctx, *a[i] & *a[j], c, "&"); break; }
        case 7: { Bytes c = m[i]; for (size_t x = 0; x < std::min(c.size(), m[j].size()); ++x) c[x] |= m[j][x]; cmpBits(ctx, *a[i] | *a[j], c, "|"); break; }
        case 8: { Bytes c = m[i]; for (auto &b : c) b = uint8_t(~b); cmpBits(ctx, ~*a[i], c, "~"); break; }
        case 9: *a[i] = *a[j]; m[i] = m[j]; break;
        case 10: { BitArray c(*a[j]); a[i].reset(new BitArray(std::move(c))); m[i] = m[j]; break; }
        case 11: { BitArray c(*a[j]); *a[i] = std::move(c); m[i] = m[j]; break; }
        case 12: *a[i] = *a[j] << n; m[i] = shl(m[j], n); break;
        case 13: { std::vector<BitArray> v; for (unsigned q = 0; q < 3; ++q) v.push_back(*a[q]); for (unsigned q = 0; q < 3; ++q) cmpBits(ctx, v[q], m[q], "vector of BitArray"); std::swap(v[0], v[1]); cmpBits(ctx, v[0], m[1], "swap"); cmpBits(ctx, v[1], m[0], "swap"); break; }
        case 14: { uint64_t w = r.word(); switch (r.below(5)) { case 0: a[i]->fill(uint8_t(w)); fillM(m[i], uint8_t(w)); break; case 1: a[i]->fill(int16_t(w)); fillM(m[i], int16_t(w)); break; case 2: a[i]->fill(uint32_t(w)); fillM(m[i], uint32_t(w)); break; case 3: a[i]->fill(int32_t(w)); fillM(m[i], int32_t(w)); break; default: a[i]->fill(w); fillM(m[i], w); } break; }
        case 15: make(i); break;
        case 16: { BitArray *p = a[i].get(); *a[i] = *p; break; }
        default: VF_EQ(ctx, *a[i] == *a[j], m[i] == m[j], "bitarray-eq", "=="); VF_EQ(ctx, *a[i] != *a[j], m[i] != m[j], "bitarray-eq", "!="); }
        for (unsigned q = 0; q < N; ++q) cmpBits(ctx, *a[q], m[q], "after op");
    }
}

// ------------------------------------------------------------------ math helpers
unsigned rlog(u128 x) { unsigned n = 0; while (x >>= 1) ++n; return n; }
u128 rgcd(u128 a, u128 b) { while (b) { u128 t = a % b; a = b; b = t; } return a; }
template<class T, class F> void exact(vf::Ctx &ctx, F &&f, i128 want, bool representable, const char *key, const std::string &what)
{
    std::optional<T> got; try { got = f(); } catch (const SpartaException &) {}
    ctx.op([&](std::ostream &o) { o << what << " = " << (got ? num(*got) : std::string("rejected")); });
    if (representable) { VF_CHECK(ctx, got.has_value(), key, what << " was rejected, exact result " << s128(want)); VF_CHECK(ctx, i128(*got) == want, key, what << ": got " << num(*got) << " want " << s128(want)); }
    else VF_CHECK(ctx, !got.has_value(), key, what << ": got " << num(*got) << ", but the exact result is not representable");
    ctx.obs(uint64_t(want));
}
template<class T> void powT(vf::Ctx &ctx) {
    auto &r = ctx.rng; T n = r.chance(1, 2) ? T(r.range(std::is_signed_v<T> ? -12 : 0, 12)) : val<T>(r); T e = T(r.chance(1, 3) ? r.below(70) : r.below(9)); if (r.chance(1, 10)) e = val<T>(r);
    if (uint64_t(e) > 3000 && e > 0 && n != 0 && n != 1 && i128(n) != -1) e = T(r.below(100));
    if (uint64_t(e) > 100000) e = T(r.below(100));
    i128 v = 1; bool ok = e >= 0; for (uint64_t i = 0; ok && i < uint64_t(e); ++i) { if (__builtin_mul_overflow(v, i128(n), &v) || !fits<T>(v)) ok = false; }
    exact<T>(ctx, [&] { return safe_power<T>(n, e); }, v, ok, "safe_power", std::string("safe_power<") + tn<T>() + ">(" + num(n) + "," + num(e) + ")"); ctx.count(ok ? "power_exact" : "power_rejected");
}
template<class T> void logT(vf::Ctx &ctx) { T x = val<T>(ctx.rng); if (x < 0) { VF_CHECK(ctx, rejected([&] { floor_log2<T>(x); }), "floor_log2", "floor_log2 of negative " << num(x) << " was not rejected"); return; }
    exact<uint64_t>(ctx, [&] { return floor_log2<T>(x); }, rlog(u128(x)), true, "floor_log2", std::string("floor_log2<") + tn<T>() + ">(" + num(x) + ")"); }
template<class T> void gcdT(vf::Ctx &ctx) {
    auto &r = ctx.rng; T a = val<T>(r), b = val<T>(r); if (r.chance(1, 3)) { T g = T(1 + r.below(200)); a = T(r.below(5000)) * g; b = T(r.below(5000)) * g; } if (r.chance(1, 12)) b = a;
    i128 g = i128(rgcd(a, b));
    exact<T>(ctx, [&] { return gcd<T>(a, b); }, g, true, "gcd", "gcd(" + num(a) + "," + num(b) + ")");
    i128 l = g == 0 ? 0 : i128(u128(a) / u128(g) * u128(b));
    exact<T>(ctx, [&] { return lcm<T>(a, b); }, l, l >= 0 && fits<T>(l), "lcm", "lcm(" + num(a) + "," + num(b) + ")"); ctx.count(fits<T>(l) ? "lcm_exact" : "lcm_rejected");
}
template<class U> void absU(vf::Ctx &ctx) { using S = std::make_signed_t<U>; U x = val<U>(ctx.rng); i128 w = i128(S(x)); if (w < 0) w = -w; exact<U>(ctx, [&] { return utils::abs<U>(x); }, w, true, "abs", std::string("abs<") + tn<U>() + ">(" + num(x) + ")"); }
template<class S> void absS(vf::Ctx &ctx) { S x = val<S>(ctx.rng); i128 w = x < 0 ? -i128(x) : i128(x); exact<S>(ctx, [&] { return utils::abs<S>(x); }, w, fits<S>(w), "abs", std::string("abs<") + tn<S>() + ">(" + num(x) + ")"); }
template<class T> void maskT(vf::Ctx &ctx) {
    auto &r = ctx.rng; T s = r.chance(2, 3) ? T(T(1) << r.below(sizeof(T) * 8)) : val<T>(r); bool pow = s && !(s & (s - 1)); T lsb = T(77), m = 0;
    bool rej = rejected([&] { m = computeMask<T>(s, lsb); }); std::string w = std::string("computeMask<") + tn<T>() + ">(" + num(s) + ")"; ctx.op(w); ctx.obs(m);
    if (s == 0) { VF_CHECK(ctx, !rej && m == 0 && lsb == T(sizeof(T) * 8), "computeMask", w << ": mask " << num(m) << " lsb " << num(lsb)); return; }
    VF_EQ(ctx, rej, !pow, "computeMask", w << " rejection"); if (rej) return;
    VF_CHECK(ctx, lsb == T(rlog(s)) && m == T(~(s - 1)), "computeMask", w << ": mask " << num(m) << " lsb " << num(lsb)); VF_EQ(ctx, computeMaskShift<T>(s), lsb, "computeMask", w);
}
VF_SECTION(math, 12000, 800000)
{
    auto &r = ctx.rng; uint64_t x = r.word();
    switch (r.below(14)) {
    case 0: if (x) exact<uint32_t>(ctx, [&] { return log2_lsb<uint64_t>(x); }, __builtin_ctzll(x), true, "log2_lsb", "log2_lsb64(" + num(x) + ")"); if (uint32_t(x)) exact<uint32_t>(ctx, [&] { return log2_lsb<uint32_t>(uint32_t(x)); }, __builtin_ctz(uint32_t(x)), true, "log2_lsb", "log2_lsb32(" + num(uint32_t(x)) + ")"); break;
    case 1: logT<uint64_t>(ctx); logT<uint32_t>(ctx); logT<uint8_t>(ctx); logT<uint16_t>(ctx); logT<int32_t>(ctx); logT<int64_t>(ctx); break;
    case 2: { if (x) exact<uint64_t>(ctx, [&] { return ceil_log2(x); }, x == 1 ? 0 : rlog(u128(x - 1)) + 1, true, "ceil_log2", "ceil_log2(" + num(x) + ")"); break; }
    case 3: { uint64_t e = r.chance(1, 8) ? x : r.below(70); exact<uint64_t>(ctx, [&] { return pow2(e); }, e < 64 ? i128(1) << e : 0, e < 64, "pow2", "pow2(" + num(e) + ")"); exact<uint64_t>(ctx, [&] { return ones(e); }, e <= 64 ? (i128(1) << e) - 1 : 0, e <= 64, "ones", "ones(" + num(e) + ")"); break; }
    case 4: VF_EQ(ctx, is_power_of_2(x), x != 0 && __builtin_popcountll(x) == 1, "is_power_of_2", x); VF_EQ(ctx, isPowerOf2(x), __builtin_popcountll(x) <= 1, "isPowerOf2", x); ctx.obs(x); break;
    case 5: { i128 w = 1; while (w < i128(x)) w <<= 1; exact<uint64_t>(ctx, [&] { return next_power_of_2(x); }, w, fits<uint64_t>(w), "next_power_of_2", "next_power_of_2(" + num(x) + ")"); break; }
    case 6: absU<uint8_t>(ctx); absU<uint16_t>(ctx); absU<uint32_t>(ctx); absU<uint64_t>(ctx); absS<int32_t>(ctx); absS<int64_t>(ctx); { double d = double(int64_t(x)) / 3; VF_EQ(ctx, utils::abs(d), std::fabs(d), "abs", d); } break;
    case 7: gcdT<uint32_t>(ctx); gcdT<uint64_t>(ctx); break;
    case 8: powT<uint8_t>(ctx); powT<int8_t>(ctx); powT<uint16_t>(ctx); powT<int32_t>(ctx); powT<uint32_t>(ctx); powT<int64_t>(ctx); powT<uint64_t>(ctx); break;
    case 9: { uint64_t y = x; exact<uint32_t>(ctx, [&] { return count_1_bits<uint64_t>(y); }, __builtin_popcountll(x), true, "count_1_bits", "popcount64"); uint32_t z = uint32_t(x); exact<uint32_t>(ctx, [&] { return count_1_bits<uint32_t>(z); }, __builtin_popcount(z), true, "count_1_bits", "popcount32"); if (r.chance(1, 20)) VF_CHECK(ctx, rejected([] { count_1_bits<uint16_t>(3); }), "count_1_bits", "unsupported width accepted"); break; }
    case 10: maskT<uint64_t>(ctx); maskT<uint32_t>(ctx); maskT<uint16_t>(ctx); maskT<uint8_t>(ctx); break;
    case 11: { double a = double(int64_t(x)), b = a; int k = int(r.range(0, 4)); for (int i = 0; i < k; ++i) b = std::nextafter(b, r.chance(1, 2) ? 1e300 : -1e300); if (r.chance(1, 10)) { a = r.of<double>({0.0, -0.0, HUGE_VAL, -HUGE_VAL, NAN, 5e-324}); if (r.chance(1, 2)) b = a; }
        bool want = a == b || std::fabs(a - b) <= std::max(std::fabs(a), std::fabs(b)) * std::numeric_limits<double>::epsilon(); if (std::isinf(a) != std::isinf(b)) want = false; if (std::isinf(a) && std::isinf(b)) want = a == b; if (std::isnan(a) || std::isnan(b)) want = false;
        if (std::isinf(a) != std::isinf(b)) break;  // infinite tolerance: unspecified
        VF_EQ(ctx, approximatelyEqual(a, b), want, "approximatelyEqual", a << " ~ " << b); ctx.obs(x); break; }
    case 12: { uint32_t v = val<uint32_t>(r); if (r.chance(1, 3)) { v = 1; for (uint64_t k = r.below(10); k; --k) v *= 10; v += uint32_t(r.range(-1, 1)); } VF_EQ(ctx, numDecDigits(v), uint32_t(std::to_string(v).size()), "numDecDigits", v); ctx.obs(v); break; }
    default: { // byte order
        auto sw = [&](auto v) { using T = decltype(v); uint8_t b[sizeof(T)], c[sizeof(T)]; std::memcpy(b, &v, sizeof v); for (size_t i = 0; i < sizeof v; ++i) c[i] = b[sizeof(v) - 1 - i]; T w; std::memcpy(&w, c, sizeof w);
            VF_CHECK(ctx, byte_swap<T>(v) == w, "byte_swap", "byte_swap<" << tn<T>() << ">(" << num(v) << ") = " << num(byte_swap<T>(v)) << " want " << num(w)); VF_CHECK(ctx, byte_swap<T>(byte_swap<T>(v)) == v, "byte_swap", "involution"); VF_CHECK(ctx, (reorder<T, BE>(v) == w && reorder<T, LE>(v) == v), "reorder", "reorder<" << tn<T>() << ">"); };
        sw(uint8_t(x)); sw(int8_t(x)); sw(uint16_t(x)); sw(int16_t(x)); sw(uint32_t(x)); sw(int32_t(x)); sw(x); sw(int64_t(x)); ctx.obs(x); } }
}

// ------------------------------------------------------------------ Rational
struct RQ { u128 n, d; };   // reduced
RQ red(u128 n, u128 d) { if (n == 0) return {0, 1}; u128 g = rgcd(n, d); return {n / g, d / g}; }
template<class T> void rational(vf::Ctx &ctx)
{
    auto &r = ctx.rng; using R = Rational<T>; const u128 MX = std::numeric_limits<T>::max(); std::vector<R> a; std::vector<RQ> m;
    auto lim = [&] { unsigned k = unsigned(r.below(3)); return k == 0 ? u128(20) : k == 1 ? u128(1) << (sizeof(T) * 4) : MX; }; auto pick = [&](u128 l, u128 lo) { u128 v = lo + r.next() % (l - lo); return T(v > MX ? MX : v); };
    for (unsigned i = 0; i < 3; ++i) { u128 l = lim(); T n = pick(l, 0), d = r.chance(1, 4) ? T(1) : pick(l, 1); a.emplace_back(n, d); m.push_back(red(n, d)); }
    auto same = [&](const R &x, const RQ &y, const std::string &w) { VF_CHECK(ctx, u128(x.getNumerator()) == y.n && u128(x.getDenominator()) == y.d, "rational", w << ": got " << num(x.getNumerator()) << "/" << num(x.getDenominator()) << " want " << s128(i128(y.n)) << "/" << s128(i128(y.d)));
        std::string s = std::string(x), e = y.n == 0 ? "0" : y.d == 1 ? s128(i128(y.n)) : s128(i128(y.n)) + "/" + s128(i128(y.d)); VF_EQ(ctx, s, e, "rational-print", w); std::ostringstream o; o << x; VF_EQ(ctx, o.str(), e, "rational-print", w); VF_EQ(ctx, double(x), double(T(y.n)) / double(T(y.d)), "rational-double", w); if (y.d == 1) VF_CHECK(ctx, T(x) == T(y.n), "rational-int", w); ctx.obs(uint64_t(y.n)); };
    for (unsigned i = 0; i < 3; ++i) same(a[i], m[i], "ctor");
    for (unsigned s = 0; s < 10; ++s) {
        unsigned i = unsigned(r.below(3)), j = unsigned(r.below(3)), k = unsigned(r.below(5)); bool inplace = r.chance(1, 2); RQ x = m[i], y = m[j], w; bool wide = false;   // wide: the exact value needs more than 128 bits to compute
        if (k == 1 && y.n == 0) continue;
        if (k == 4 && x.n == 0) continue;
        switch (k) {
        case 0: { u128 g = rgcd(x.n, y.d), h = rgcd(y.n, x.d); w = red((x.n / g) * (y.n / h), (x.d / h) * (y.d / g)); break; }
        case 1: { u128 g = rgcd(x.n, y.n), h = rgcd(x.d, y.d); if (g == 0) g = 1; w = red((x.n / g) * (y.d / h), (x.d / h) * (y.n / g)); break; }
        case 2: case 3: { u128 g = rgcd(x.d, y.d); u128 p = x.n * (y.d / g), q = y.n * (x.d / g); if (sizeof(T) == 8 && (p >> 126 || q >> 126)) wide = true; w = red(k == 2 ? p + q : p > q ? p - q : q - p, x.d / g * y.d); if (sizeof(T) == 8 && x.d / g > 1 && rlog(x.d / g) + rlog(y.d) > 125) wide = true; break; }
        default: w = red(x.d, x.n); }
        if (wide) continue;
        bool fit = w.n <= MX && w.d <= MX; std::ostringstream nm; nm << "Rational<" << tn<T>() << "> " << s128(i128(x.n)) << "/" << s128(i128(x.d)) << (inplace ? " in-place " : " ") << "*/+-i"[k] << " " << s128(i128(y.n)) << "/" << s128(i128(y.d)); ctx.op(nm.str());
        R c(a[i]); bool rej = rejected([&] { if (inplace && i == j) { switch (k) { case 0: c *= c; break; case 1: c /= c; break; case 2: c += c; break; case 3: c -= c; break; default: c = c.inv(); } } else if (inplace) { switch (k) { case 0: c *= a[j]; break; case 1: c /= a[j]; break; case 2: c += a[j]; break; case 3: c -= a[j]; break; default: c = c.inv(); } } else { switch (k) { case 0: c = a[i] * a[j]; break; case 1: c = a[i] / a[j]; break; case 2: c = a[i] + a[j]; break; case 3: c = a[i] - a[j]; break; default: c = a[i].inv(); } } });
        if (!rej) { VF_CHECK(ctx, fit, "rational-overflow", nm.str() << " = " << std::string(c) << ", but the exact result is not representable"); same(c, w, nm.str()); a[i] = c; m[i] = w; ctx.count("rational_exact"); }
        else { ctx.count(fit ? "rational_rejected_fit" : "rational_rejected"); u128 mx = std::max({x.n, x.d, y.n, y.d}); VF_CHECK(ctx, !fit || mx * mx > MX, "rational-reject", nm.str() << " was rejected"); same(inplace ? a[i] : a[i], x, "operand after rejection"); }
        VF_EQ(ctx, (a[i] == a[j]), (m[i].n == m[j].n && m[i].d == m[j].d), "rational-eq", nm.str());
    }
}
VF_SECTION(rational32, 2500, 150000) { rational<uint32_t>(ctx); }
VF_SECTION(rational64, 2500, 150000) { rational<uint64_t>(ctx); }

// ------------------------------------------------------------------ BoundedValue
template<class T> void cmpB(vf::Ctx &ctx, BoundedValue<T> &b, i128 v, i128 lo, i128 hi, const std::string &w)
{
    const BoundedValue<T> &c = b; VF_CHECK(ctx, i128(b.getValue()) == v && i128(c.getValue()) == v && i128(static_cast<const T &>(c)) == v, "bounded-value", w << ": value " << num(c.getValue()) << " want " << s128(v));
    VF_CHECK(ctx, i128(b.getLowerBound()) == lo && i128(c.getLowerBound()) == lo && i128(c.getUpperBound()) == hi && i128(b.getUpperBound()) == hi, "bounded-bounds", w << ": bounds [" << num(c.getLowerBound()) << "," << num(c.getUpperBound()) << "] want [" << s128(lo) << "," << s128(hi) << "]"); ctx.obs(uint64_t(v)); }
template<class T> struct BM { std::unique_ptr<BoundedValue<T>> b; i128 v = 0, lo = 0, hi = 0; };
template<class T, class U, class V, class W> void bctor(vf::Ctx &ctx, BM<T> &o)
{
    auto &r = ctx.rng; U v; V lo; W hi; unsigned k = unsigned(r.below(4));
    if (k == 0) { v = val<U>(r); lo = val<V>(r); hi = val<W>(r); }
    else { i128 c = i128(val<T>(r)), l = c - i128(r.below(k == 1 ? 4 : 200)), h = c + i128(r.below(k == 1 ? 4 : 200)), x = r.chance(5, 6) ? c : c + r.range(-300, 300); auto cl = [](auto z, i128 q) { using Z = decltype(z); return fits<Z>(q) ? Z(q) : q < 0 ? std::numeric_limits<Z>::min() : std::numeric_limits<Z>::max(); }; v = cl(U(), x); lo = cl(V(), l); hi = cl(W(), h); }
    bool ok = fits<T>(i128(lo)) && fits<T>(i128(hi)) && i128(lo) < i128(hi) && i128(v) >= i128(lo) && i128(v) <= i128(hi); if (i128(lo) == i128(hi)) return;   // an empty range is not specified uniformly
    if (!ok && !r.chance(1, 3)) return;
    std::unique_ptr<BoundedValue<T>> b; bool rej = rejected([&] { b.reset(new BoundedValue<T>(v, lo, hi)); });
    std::ostringstream w; w << "BoundedValue<" << tn<T>() << ">(" << tn<U>() << " " << num(v) << ", " << tn<V>() << " " << num(lo) << ", " << tn<W>() << " " << num(hi) << ")"; ctx.op(w.str()); ctx.count(ok ? "bounded_ctor_ok" : "bounded_ctor_rejected");
    VF_EQ(ctx, rej, !ok, "bounded-ctor", w.str() << " rejection"); if (!rej) { o.b = std::move(b); o.v = i128(v); o.lo = i128(lo); o.hi = i128(hi); cmpB(ctx, *o.b, o.v, o.lo, o.hi, w.str()); }
}
template<class T, class U> void bval(vf::Ctx &ctx, BM<T> &o)   // assignment and arithmetic with another type
{
    auto &r = ctx.rng; U x; { unsigned k = unsigned(r.below(4)); i128 q = k == 0 ? i128(val<U>(r)) : k == 1 ? o.hi - o.v + r.range(-1, 1) : k == 2 ? o.lo - o.v + r.range(-1, 1) : o.v + r.range(-3, 3); x = fits<U>(q) ? U(q) : val<U>(r); } unsigned k = unsigned(r.below(3)); i128 n = k == 0 ? i128(x) : k == 1 ? o.v + i128(x) : o.v - i128(x); bool ok = n >= o.lo && n <= o.hi; if (!ok && !r.chance(1, 3)) return;
    bool rej = rejected([&] { if (k == 0) *o.b = x; else if (k == 1) *o.b += x; else *o.b -= x; }); std::ostringstream w; w << "BoundedValue<" << tn<T>() << "> " << s128(o.v) << " [" << s128(o.lo) << "," << s128(o.hi) << "] " << (k == 0 ? "=" : k == 1 ? "+=" : "-=") << " " << tn<U>() << " " << num(x); ctx.op(w.str());
    VF_EQ(ctx, rej, !ok, "bounded-op", w.str() << " rejection"); if (!rej) o.v = n; cmpB(ctx, *o.b, o.v, o.lo, o.hi, w.str());
}
template<class T, class U> void bconv(vf::Ctx &ctx, BM<T> &o, BM<U> &p)   // o <- p
{
    if (!p.b) return; bool ok = fits<T>(p.lo) && fits<T>(p.hi); if (!ok && !ctx.rng.chance(1, 3)) return; bool assign = ctx.rng.chance(1, 2); std::unique_ptr<BoundedValue<T>> b; bool rej = rejected([&] { if (assign) { *o.b = *p.b; } else b.reset(new BoundedValue<T>(*p.b)); }); std::ostringstream w; w << "BoundedValue<" << tn<T>() << (assign ? "> = " : ">(") << tn<U>() << " " << s128(p.v) << " [" << s128(p.lo) << "," << s128(p.hi) << "]"; ctx.op(w.str());
    VF_EQ(ctx, rej, !ok, "bounded-conv", w.str() << " rejection"); if (!rej) { if (!assign) o.b = std::move(b); o.v = p.v; o.lo = p.lo; o.hi = p.hi; } cmpB(ctx, *o.b, o.v, o.lo, o.hi, w.str());
}
template<class T> void bounded(vf::Ctx &ctx)
{
    auto &r = ctx.rng; BM<T> o; o.b.reset(new BoundedValue<T>(T(5))); o.v = 5; o.lo = std::numeric_limits<T>::min(); o.hi = std::numeric_limits<T>::max(); cmpB(ctx, *o.b, o.v, o.lo, o.hi, "defaults");
    BM<int8_t> p0; BM<uint8_t> p1; BM<int32_t> p2; BM<uint64_t> p3; BM<int64_t> p4; bctor<int8_t, int8_t, int8_t, int8_t>(ctx, p0); bctor<uint8_t, uint8_t, uint8_t, uint8_t>(ctx, p1); bctor<int32_t, int32_t, int32_t, int32_t>(ctx, p2); bctor<uint64_t, uint64_t, uint64_t, uint64_t>(ctx, p3); bctor<int64_t, int64_t, int64_t, int64_t>(ctx, p4);
    for (unsigned s = 0; s < 14; ++s) {
        switch (r.below(22)) {
        case 0: bctor<T, T, T, T>(ctx, o); break; case 1: bctor<T, int8_t, int8_t, int8_t>(ctx, o); break; case 2: bctor<T, int64_t, int64_t, int64_t>(ctx, o); break; case 3: bctor<T, uint64_t, uint64_t, uint64_t>(ctx, o); break;
        case 4: bctor<T, int32_t, uint32_t, int64_t>(ctx, o); break; case 5: bctor<T, int64_t, int32_t, uint64_t>(ctx, o); break; case 6: bctor<T, uint32_t, int64_t, int64_t>(ctx, o); break; case 7: bctor<T, uint64_t, uint8_t, int32_t>(ctx, o); break; case 8: bctor<T, int64_t, uint64_t, uint64_t>(ctx, o); break; case 9: bctor<T, uint8_t, int32_t, uint64_t>(ctx, o); break;
        case 10: bval<T, T>(ctx, o); break; case 11: bval<T, int8_t>(ctx, o); break; case 12: bval<T, int64_t>(ctx, o); break; case 13: bval<T, uint64_t>(ctx, o); break; case 14: bval<T, int32_t>(ctx, o); break; case 15: bval<T, uint8_t>(ctx, o); break;
        case 16: switch (r.below(5)) { case 0: bconv(ctx, o, p0); break; case 1: bconv(ctx, o, p1); break; case 2: bconv(ctx, o, p2); break; case 3: bconv(ctx, o, p3); break; default: bconv(ctx, o, p4); } break;
        default: { unsigned k = unsigned(r.below(4)); i128 n = k < 2 ? o.v + 1 : o.v - 1; bool ok = n >= o.lo && n <= o.hi; i128 ret = o.v; bool rej = rejected([&] { if (k == 0) ret = (++*o.b).getValue(); else if (k == 1) ret = ((*o.b)++).getValue(); else if (k == 2) ret = (--*o.b).getValue(); else ret = ((*o.b)--).getValue(); }); ctx.op([&](std::ostream &q) { q << "inc/dec " << k << " of " << s128(o.v); }); VF_EQ(ctx, rej, !ok, "bounded-incdec", "++/-- of " << s128(o.v)); if (ok) { VF_CHECK(ctx, ret == (k % 2 ? o.v : n), "bounded-incdec", "value returned by ++/--"); o.v = n; } cmpB(ctx, *o.b, o.v, o.lo, o.hi, "++/--"); } }
    }
}
VF_SECTION(bounded, 2000, 150000)
{
    switch (ctx.rng.below(5)) { case 0: bounded<int8_t>(ctx); break; case 1: bounded<uint8_t>(ctx); break; case 2: bounded<int32_t>(ctx); break; case 3: bounded<uint64_t>(ctx); break; default: bounded<int64_t>(ctx); }
}
template<class T, T LO, T HI, class A> void bint(vf::Ctx &ctx)
{
    A v = val<A>(ctx.rng); if (ctx.rng.chance(1, 3)) { i128 q = (ctx.rng.chance(1, 2) ? i128(LO) : i128(HI)) + ctx.rng.range(-1, 1); if (fits<A>(q)) v = A(q); } bool ok = i128(v) >= i128(LO) && i128(v) <= i128(HI); T got = 0; bool rej = rejected([&] { bounded_int<T, LO, HI> b(v); got = T(b); });
    std::ostringstream w; w << "bounded_int<" << tn<T>() << "," << num(LO) << "," << num(HI) << ">(" << tn<A>() << " " << num(v) << ")"; ctx.op(w.str()); VF_EQ(ctx, rej, !ok, "bounded_int", w.str() << " rejection"); if (ok) VF_CHECK(ctx, i128(got) == i128(v), "bounded_int", w.str() << " holds " << num(got)); ctx.obs(uint64_t(v)); }
template<class T, T LO, T HI> void bints(vf::Ctx &ctx) { bint<T, LO, HI, int8_t>(ctx); bint<T, LO, HI, uint8_t>(ctx); bint<T, LO, HI, int32_t>(ctx); bint<T, LO, HI, uint32_t>(ctx); bint<T, LO, HI, int64_t>(ctx); bint<T, LO, HI, uint64_t>(ctx); }
VF_SECTION(bounded_int, 600, 40000)
{
    switch (ctx.rng.below(9)) { case 0: bints<int8_t, INT8_MIN, INT8_MAX>(ctx); break; case 1: bints<uint8_t, 0, UINT8_MAX>(ctx); break; case 2: bints<int32_t, INT32_MIN, INT32_MAX>(ctx); break; case 3: bints<uint32_t, 0, UINT32_MAX>(ctx); break; case 4: bints<int64_t, INT64_MIN, INT64_MAX>(ctx); break; case 5: bints<uint64_t, 0, UINT64_MAX>(ctx); break; case 6: bints<int32_t, -5, 1000>(ctx); break; case 7: bints<uint32_t, 3, 250>(ctx); break; default: bints<int64_t, -100, -2>(ctx); }
}

// ------------------------------------------------------------------ locked / valid / assign-once values
VF_SECTION(wrappers, 2000, 120000)
{
    auto &r = ctx.rng;
    { std::string v = r.chance(1, 2) ? "" : "init"; bool lk = false; std::unique_ptr<LockedValue<std::string>> l; switch (r.below(3)) { case 0: l.reset(new LockedValue<std::string>()); v = ""; break; case 1: l.reset(new LockedValue<std::string>(v)); break; default: lk = r.chance(1, 2); l.reset(new LockedValue<std::string>(v, lk)); }
      for (unsigned s = 0; s < 8; ++s) { std::string n = std::to_string(r.below(50)); unsigned k = unsigned(r.below(6)); ctx.op("locked op" + std::to_string(k)); switch (k) {
          case 0: { if (lk && !r.chance(1, 3)) break; bool rej = rejected([&] { *l = n; }); VF_EQ(ctx, rej, lk, "locked", "assignment"); if (!rej) v = n; break; }
          case 1: { if (lk && !r.chance(1, 3)) break; bool rej = rejected([&] { l->setAndLock(n); }); VF_EQ(ctx, rej, lk, "locked", "setAndLock"); if (!rej) { v = n; lk = true; } break; }
          case 2: if (r.chance(1, 3)) { l->lock(); lk = true; } break; case 3: VF_EQ(ctx, *l == n, v == n, "locked", "=="); VF_EQ(ctx, *l != n, v != n, "locked", "!="); break;
          case 4: { LockedValue<std::string> c(*l); VF_EQ(ctx, c.isLocked(), lk, "locked", "copy lock"); VF_EQ(ctx, static_cast<const LockedValue<std::string> &>(c).getValue(), v, "locked", "copy"); break; }
          default: { std::ostringstream o; o << *l; VF_EQ(ctx, o.str(), v, "locked", "print"); } }
        const auto &cl = *l; VF_EQ(ctx, cl.getValue(), v, "locked", "value"); VF_EQ(ctx, static_cast<const std::string &>(cl), v, "locked", "conversion"); VF_EQ(ctx, l->isLocked(), lk, "locked", "isLocked"); ctx.obs(v); } }
    { using VV = ValidValue<std::string>; std::vector<VV> a(3); std::vector<std::optional<std::string>> m(3);
      for (unsigned s = 0; s < 16; ++s) { unsigned i = unsigned(r.below(3)), j = unsigned(r.below(3)), k = unsigned(r.below(11)); std::string n(r.below(30), char('a' + r.below(3))); ctx.op("valid op" + std::to_string(k)); switch (k) {
          case 0: a[i] = n; m[i] = n; break; case 1: a[i] = std::string(n); m[i] = n; break; case 2: a[i] = a[j]; m[i] = m[j]; break; case 3: { VV c(a[j]); VF_EQ(ctx, c.isValid(), m[j].has_value(), "valid", "copy"); a[i] = c; m[i] = m[j]; break; }
          case 4: { VV c(a[j]); VV d(std::move(c)); VF_EQ(ctx, d.isValid(), m[j].has_value(), "valid", "move"); VF_CHECK(ctx, !c.isValid(), "valid", "moved-from value still valid"); if (m[j]) VF_EQ(ctx, d.getValue(), *m[j], "valid", "moved value"); break; }
          case 5: { VV c(a[j]); a[i] = std::move(c); m[i] = m[j]; break; } case 6: a[i].clearValid(); m[i].reset(); break; case 7: a[i] = VV(n); m[i] = n; break;
          case 8: if (m[i]) { VF_EQ(ctx, a[i] == n, *m[i] == n, "valid", "=="); VF_EQ(ctx, a[i] != n, *m[i] != n, "valid", "!="); } else if (r.chance(1, 3)) VF_CHECK(ctx, rejected([&] { (void)(a[i] == n); }), "valid", "compare of an invalid value"); break;
          case 9: if (m[i] && m[j]) { VF_EQ(ctx, a[i] == a[j], *m[i] == *m[j], "valid", "=="); VF_EQ(ctx, a[i] != a[j], *m[i] != *m[j], "valid", "!="); } else if (r.chance(1, 3)) { bool res = false; bool rej = rejected([&] { res = a[i] == a[j]; }); VF_CHECK(ctx, rej || (m[i].has_value() == m[j].has_value()) == res || !res, "valid", "an invalid value compares equal to a valid one"); if (!m[i]) VF_CHECK(ctx, rej, "valid", "compare of an invalid value"); } break;
          default: { std::ostringstream o; o << a[i]; VF_EQ(ctx, o.str(), m[i] ? *m[i] : std::string("<invalid ValidValue>"), "valid", "print"); } }
        for (unsigned q = 0; q < 3; ++q) { VF_EQ(ctx, a[q].isValid(), m[q].has_value(), "valid", "isValid"); const VV &c = a[q]; if (m[q]) { VF_EQ(ctx, c.getValue(), *m[q], "valid", "value"); VF_EQ(ctx, static_cast<const std::string &>(c), *m[q], "valid", "conversion"); } else if (r.chance(1, 30)) { VF_CHECK(ctx, rejected([&] { (void)c.getValue(); }) && rejected([&] { (void)static_cast<const std::string &>(c); }) && rejected([&] { (void)a[q].getValue(); }), "valid", "read of an invalid value"); } ctx.obs(m[q] ? *m[q] : "-"); } } }
    { bool dflt = r.chance(1, 2); bool set = false; int v = 7; AssignOnceObject<int> a = dflt ? AssignOnceObject<int>(7, "x") : AssignOnceObject<int>(); for (unsigned s = 0; s < 5; ++s) { int n = int(r.below(100)); ctx.op("assign-once"); if (r.chance(1, 3) && (!set || r.chance(1, 3))) { bool rej = rejected([&] { a = n; }); VF_EQ(ctx, rej, set, "assign-once", "second assignment"); if (!rej) { set = true; v = n; } } else if (r.chance(1, 3)) { AssignOnceObject<int> c(a); VF_EQ(ctx, c.assigned(), set, "assign-once", "copy"); } 
        VF_EQ(ctx, a.assigned(), set, "assign-once", "assigned"); if (set || dflt) VF_EQ(ctx, a.get(), v, "assign-once", "value"); else if (r.chance(1, 3)) VF_CHECK(ctx, rejected([&] { a.get(); }), "assign-once", "read before set"); std::ostringstream o; o << a; VF_EQ(ctx, o.str(), set || dflt ? std::to_string(v) : std::string("<uninitialized>"), "assign-once", "print"); ctx.obs(uint64_t(v)); } }
}

// ------------------------------------------------------------------ TieredMap
VF_SECTION(tieredmap, 600, 40000)
{
    auto &r = ctx.rng; uint64_t ns = r.of<uint64_t>({2, 4, 8, 16, 64, 512, 1024, 0, 1, 3}); using TM = TieredMap<uint64_t, uint64_t *>; std::unique_ptr<TM> t; bool bad = ns < 2 || (ns & (ns - 1));
    bool rej = rejected([&] { t.reset(new TM(ns)); }); VF_EQ(ctx, rej, bad, "tieredmap-ctor", "node size " << ns); if (rej) return;
    std::vector<uint64_t> store(64); std::map<uint64_t, uint64_t *> m; std::vector<uint64_t> order;
    for (unsigned s = 0; s < 120; ++s) {
        uint64_t k = r.chance(1, 2) ? r.below(40) : r.word() >> (r.chance(1, 2) ? r.below(60) : 0); unsigned o = unsigned(r.below(10)); ctx.op([&](std::ostream &q) { q << (o < 5 ? "set " : "find ") << k; });
        if (o < 5) { uint64_t *p = &store[r.below(64)]; (*t)[k] = p; if (!m.count(k)) order.push_back(k); m[k] = p; }
        else if (o == 5) { bool known = m.count(k); uint64_t *&g = (*t)[k]; VF_CHECK(ctx, g == (known ? m[k] : nullptr), "tieredmap-get", "operator[] of " << k); if (!known) { order.push_back(k); m[k] = nullptr; } }
        else if (o == 6 && r.chance(1, 20)) { t->clear(); m.clear(); order.clear(); }
        else { const TM &c = *t; auto *p = t->find(k); auto *q = c.find(k); auto *g = t->tryGet(k); auto *g2 = c.tryGet(k); VF_CHECK(ctx, (p != nullptr) == (m.count(k) != 0) && p == q && g == p && g2 == p, "tieredmap-find", "find " << k); if (p) VF_CHECK(ctx, p->first == k && p->second == m[k], "tieredmap-find", "pair of " << k); }
        VF_EQ(ctx, t->size(), uint64_t(m.size()), "tieredmap-size", "size"); ctx.obs(k);
    }
    size_t i = 0; for (auto it = t->begin(); it != t->end(); ++it, ++i) VF_CHECK(ctx, i < order.size() && *it == m[order[i]], "tieredmap-iter", "element " << i); VF_EQ(ctx, i, order.size(), "tieredmap-iter", "elements");
}
}

// ------------------------------------------------------------------ text
namespace {
std::string text(vf::Rng &r, const char *alpha, size_t max) { std::string s; for (size_t n = r.below(max + 1); n; --n) s += alpha[r.below(std::strlen(alpha))]; return s; }
std::vector<std::string> cut(const std::string &s, const std::string &delim) { std::vector<std::string> v{""}; for (char c : s) if (delim.find(c) != std::string::npos) v.push_back(""); else v.back() += c; return v; }
std::string trim(const std::string &s) { size_t a = 0, b = s.size(); auto w = [](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }; while (a < b && w(s[a])) ++a; while (b > a && w(s[b - 1])) --b; return s.substr(a, b - a); }
size_t lev(const std::string &a, const std::string &b) { std::vector<size_t> p(b.size() + 1), q; for (size_t j = 0; j <= b.size(); ++j) p[j] = j;
    for (size_t i = 1; i <= a.size(); ++i) { q = p; q[0] = i; for (size_t j = 1; j <= b.size(); ++j) q[j] = std::min({p[j] + 1, q[j - 1] + 1, p[j - 1] + (a[i - 1] != b[j - 1])}); p = q; } return p.back(); }
struct Up { char operator()(char c) const { return c >= 'a' && c <= 'z' ? char(c - 32) : c; } };
} // namespace
VF_SECTION(strings, 3000, 200000)
{
    auto &r = ctx.rng; using V = std::vector<std::string>;
    { std::string s = text(r, "ab \t\n\r", 10), t; ctx.op("trim", s); VF_EQ(ctx, strip_whitespace(s), trim(s), "strip", "strip_whitespace of '" << s << "'");
      for (char c : s) if (!std::isspace(static_cast<unsigned char>(c))) t += c; VF_EQ(ctx, eliminate_whitespace(s), t, "strip", "eliminate_whitespace of '" << s << "'"); ctx.obs(s);
      V v, w; tokenize_on_whitespace(s, v); for (auto &x : cut(s, " \t\n\r")) if (!x.empty()) w.push_back(x); VF_CHECK(ctx, v == w, "tokens", "tokenize_on_whitespace of '" << s << "'"); v.clear(); tokenize_on_whitespace(s.c_str(), v); VF_CHECK(ctx, v == w, "tokens", "tokenize_on_whitespace"); }
    { std::string s = text(r, "ab ,;", 12), d = r.chance(1, 2) ? "," : ",;"; V v, w = cut(s, d); tokenize(s, v, d); VF_CHECK(ctx, v == w, "tokens", "tokenize of '" << s << "' at '" << d << "'"); v.clear(); tokenize(s.c_str(), v, d); VF_CHECK(ctx, v == w, "tokens", "tokenize");
      v.clear(); tokenize_strip_whitespace(s, v, d); for (auto &x : w) x = trim(x); VF_CHECK(ctx, v == w, "tokens", "tokenize_strip_whitespace of '" << s << "' at '" << d << "'"); v.clear(); tokenize_strip_whitespace(s.c_str(), v, d); VF_CHECK(ctx, v == w, "tokens", "tokenize_strip_whitespace"); ctx.obs(s); }
    { std::string s = text(r, "ab:|", 14); std::istringstream in(s); std::vector<V> v; split_lines_around_tokens(in, v, ":", '|'); auto w = cut(s, "|"); if (w.back().empty()) w.pop_back();
      VF_EQ(ctx, v.size(), w.size(), "tokens", "lines of '" << s << "'"); for (size_t i = 0; i < v.size(); ++i) VF_CHECK(ctx, v[i] == cut(w[i], ":"), "tokens", "split_lines_around_tokens of '" << s << "'"); }
    { std::string a = text(r, "abc", 8), b = text(r, "abc", 8); VF_EQ(ctx, LevenshteinDistance(a.data(), a.size(), b.data(), b.size()), lev(a, b), "distance", "between '" << a << "' and '" << b << "'"); ctx.obs(a, b);
      VF_EQ(ctx, strcmp_with_null(a.c_str(), b.c_str()), a == b, "strcmp", ""); VF_CHECK(ctx, !strcmp_with_null(a.c_str(), nullptr) && !strcmp_with_null(nullptr, a.c_str()) && strcmp_with_null(nullptr, nullptr), "strcmp", "null"); }
    { std::string p = "io_", m = text(r, "io_x", 6), s = (r.chance(1, 2) ? p : "") + "x" + m + "x" + (r.chance(1, 2) ? p : ""), w = s; if (w.compare(0, 3, p) == 0) w = w.substr(3); if (w.size() >= 3 && w.compare(w.size() - 3, 3, p) == 0) w = w.substr(0, w.size() - 3);
      VF_EQ(ctx, strip_string_pattern(p, s), w, "strip", "strip_string_pattern of " << s); }
    { uint64_t x = val<uint64_t>(r); char b[40]; snprintf(b, sizeof b, "%08x_%08x", unsigned(x >> 32), unsigned(x)); VF_EQ(ctx, uint64_to_hexstr(x), std::string(b), "hex", ""); snprintf(b, sizeof b, "%08x", unsigned(x)); VF_EQ(ctx, uint32_to_hexstr(uint32_t(x)), std::string(b), "hex", "");
      VF_EQ(ctx, uint64_to_str(x), std::to_string(x), "dec", ""); VF_EQ(ctx, int64_to_str(int64_t(x)), std::to_string(int64_t(x)), "dec", ""); VF_EQ(ctx, uint32_to_str(uint32_t(x)), std::to_string(uint32_t(x)), "dec", ""); VF_EQ(ctx, int32_to_str(int32_t(x)), std::to_string(int32_t(x)), "dec", ""); VF_EQ(ctx, bool_to_str(x & 1), std::string(x & 1 ? "true" : "false"), "dec", "");
      Bytes by(r.below(9)); for (auto &c : by) c = uint8_t(r.next()); std::string h, bits; for (size_t i = by.size(); i-- > 0;) { snprintf(b, sizeof b, "%02x", by[i]); h += b; for (int k = 7; k >= 0; --k) bits += (by[i] >> k & 1) ? '1' : '0'; if (i) { h += "-"; bits += " "; } }
      VF_EQ(ctx, bin_to_hexstr(by.data(), by.size(), "-"), h, "hex", ""); VF_EQ(ctx, bin_to_bitstr(by.data(), by.size()), bits, "hex", ""); ctx.obs(x, h); }
    { std::string s = text(r, "aBc_1", 8), u = s; for (auto &c : u) c = Up()(c); TransformedString<Up> t(s), t2; t2 = s; TransformedString<Up> t3(t); VF_CHECK(ctx, t == u && t2 == t && !(t != t3) && t.getString() == u && std::string(t) == u && (u == s || t != s) && t == u.c_str(), "transformed", s); }
    { // interned strings: one address per text, for ever
      auto &sm = StringManager::getStringManager(); static std::map<std::string, const std::string *> seen; std::string s = text(r, "xyz", 4); const bool had = sm.hasString(s); uint32_t n = sm.getNumStrings(); auto *p = sm.internString(s);
      VF_EQ(ctx, *p, s, "intern", ""); VF_EQ(ctx, sm.getNumStrings(), n + !had, "intern", "number"); VF_CHECK(ctx, sm.findString(s) == p && sm.isInterned(p) && sm.hasString(s), "intern", "find"); std::string copy = s; VF_CHECK(ctx, !sm.isInterned(&copy), "intern", "a copy counts as interned");
      if (seen.count(s)) VF_CHECK(ctx, seen[s] == p && had, "intern", "another address for " << s); seen[s] = p; VF_CHECK(ctx, sm.EMPTY == sm.internString(""), "intern", "EMPTY"); }
    { // tags: dotted sequence numbers, children counted per parent
      Tag::resetGlobalSeqNum(); std::vector<std::unique_ptr<Tag>> t; std::vector<std::string> name; std::vector<int> kids; int roots = 0;
      for (int i = 0, n = int(r.range(1, 12)); i < n; ++i) { int par = t.empty() || r.chance(1, 3) ? -1 : int(r.below(t.size())); if (par < 0) { if (r.chance(1, 2)) t.push_back(std::make_unique<Tag>()); else t.push_back(std::make_unique<Tag>(static_cast<Tag *>(nullptr))); name.push_back(std::to_string(++roots)); } else { t.push_back(std::make_unique<Tag>(t[par].get())); name.push_back(name[par] + "." + std::to_string(++kids[par])); } kids.push_back(0); }
      for (size_t i = 0; i < t.size(); ++i) { std::ostringstream o; o << *t[i]; VF_EQ(ctx, o.str(), name[i], "tag", ""); VF_CHECK(ctx, *t[i] == name[i] && !(*t[i] != name[i]), "tag", "text"); for (size_t j = 0; j < t.size(); ++j) { VF_EQ(ctx, *t[i] == *t[j], name[i] == name[j], "tag", name[i] << " and " << name[j]); VF_EQ(ctx, *t[i] != *t[j], name[i] != name[j], "tag", ""); } Tag c(*t[i]); VF_CHECK(ctx, c == *t[i], "tag", "copy"); ctx.obs(name[i]); } }
    { // a key with a value of one of the supported types
      std::string d = text(r, "desc", 5); int64_t x = val<int64_t>(r); KeyValue k("k", x, d); VF_CHECK(ctx, k.getKey() == "k" && k.getDesc() == d && k.getValue<int64_t>() == x && int64_t(k) == x && k.getTypeName() == "int64_t", "keyvalue", "int64");
      k = std::string("text"); VF_CHECK(ctx, k.getValue<std::string>() == "text" && k.getTypeName() == "std::string", "keyvalue", "string is a " << k.getTypeName()); k.setDesc("other"); VF_EQ(ctx, k.getDesc(), std::string("other"), "keyvalue", "description");
      std::vector<uint32_t> vv{1, 2, uint32_t(x)}; k = vv; VF_CHECK(ctx, k.getValue<std::vector<uint32_t>>() == vv, "keyvalue", "vector"); bool threw = false; std::ostringstream sink; auto *old = std::cerr.rdbuf(sink.rdbuf()); try { k.getValue<bool>(); } catch (const std::exception &) { threw = true; } std::cerr.rdbuf(old); VF_CHECK(ctx, threw, "keyvalue", "read as another type"); }
    { std::vector<std::unique_ptr<int>> a; std::vector<std::shared_ptr<int>> s; for (size_t i = r.below(6); i; --i) { a.emplace_back(r.chance(1, 5) ? nullptr : new int(int(i))); s.emplace_back(r.chance(1, 5) ? nullptr : new int(int(i))); }
      std::vector<std::unique_ptr<int>> b; std::vector<std::shared_ptr<int>> t; std::vector<int *> raw; copyVectorDeep(a, b); copyVectorDeep(s, t); copyVectorExtractRawPointers(a, raw); VF_CHECK(ctx, b.size() == a.size() && t.size() == s.size() && raw.size() == a.size(), "vectorcopy", "size");
      for (size_t i = 0; i < a.size(); ++i) { VF_CHECK(ctx, raw[i] == a[i].get() && !a[i] == !b[i] && (!a[i] || (*a[i] == *b[i] && a[i] != b[i])), "vectorcopy", "unique " << i); VF_CHECK(ctx, !s[i] == !t[i] && (!s[i] || (*s[i] == *t[i] && s[i] != t[i])), "vectorcopy", "shared " << i); } }
    ctx.count("texts", 12);
}
