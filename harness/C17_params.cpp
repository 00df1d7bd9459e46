// C17: parameters of every supported type against a plain mirror: texts whose meaning is known by construction, counts, locks, callbacks.
#include "simenv.hpp"
#include "sparta/simulation/Parameter.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include "sparta/utils/SmartLexicalCast.hpp"
#include "sparta/functional/Register.hpp"
#include <limits>
#include <set>
using namespace sparta;
namespace {
using I = __int128;
std::string dec(I v) { if (v < 0) return "-" + dec(-v); std::string s; do { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; } while (v); return s; }
std::string inBase(I v, int b) { std::string s; do { s.insert(s.begin(), "0123456789abcdef"[int(v % b)]); v /= b; } while (v); return s; }
const I NOTHING = I(1) << 120;   // text that denotes no integer
struct Txt { std::string s; I v; };
struct Suf { std::vector<const char *> o; I m; };
const std::vector<Suf> SUF = {{{"ki", "Ki", "kI", "KI"}, I(1) << 10}, {{"mi", "Mi"}, I(1) << 20}, {{"gi", "bI", "Bi", "GI"}, I(1) << 30}, {{"ti", "TI"}, I(1) << 40}, {{"pi", "Pi"}, I(1) << 50}, {{"n", "N"}, 1}, {{"k", "K"}, 1000}, {{"m", "M"}, 1000000}, {{"g", "G", "b", "B"}, 1000000000}, {{"t", "T"}, I(1000000000000)}, {{"p", "P"}, I(1000000000000000)}};
std::string spaced(vf::Rng &r, const std::string &s, size_t from) { std::string o; for (size_t i = 0; i < s.size(); ++i) { o += s[i]; if (i >= from && r.chance(1, 8)) o += " _,\t\n"[r.below(5)]; } return o; }
std::string sep(vf::Rng &r) { std::string o; while (r.chance(1, 6)) o += " _,\t\n"[r.below(5)]; return o; }
std::string plain(vf::Rng &r, I v, bool first)   // v >= 0
{
    switch (first ? r.below(4) : 0) {
    case 1: { auto h = inBase(v, 16); for (auto &c : h) if (r.chance(1, 3)) c = char(toupper(c)); return (r.chance(1, 2) ? "0x" : "0X") + spaced(r, h, 0); }
    case 2: return (r.chance(1, 2) ? "0b" : "0B") + spaced(r, inBase(v, 2), 0);
    case 3: return "0" + spaced(r, inBase(v, 8), 0);
    default: { auto d = dec(v); if (first && d[0] == '0') return d; return spaced(r, d, 0); }
    }
}
Txt number(vf::Rng &r, I lo, I hi)
{
    // an interesting magnitude
    auto mag = [&]() -> I { switch (r.below(6)) { case 0: return hi; case 1: return hi + 1; case 2: return -lo; case 3: return -lo + 1; case 4: return I(r.next()) >> r.below(64); default: return I(r.below(300)); } };
    switch (r.below(10)) {
    case 0: { static const char *const BAD[] = {"abc", "12abc", "0x", "0xg", "1.5", "5.", "1..5k", "019", "0b12", "5x", "k", "1k-2", "--5", "1k0x5", ".", "5k.", "3q", "1e5", "0x1.8", "+5", "12 34z", "08x", "true", "5kk", "1.0", "0b102k", "1ki.", "0778", "1,000.5", ".123456k", "1.0001k", "1.33ki", "99999999999999999999", "18446744073709551616", "1k18446744073709551616", "20000000000000000k", "18446744073709551k616", "99999p99999p99999p", "18446p744073709551616", "18000000000gi"}; std::string s = BAD[r.below(sizeof BAD / sizeof *BAD)]; if (r.chance(1, 4) && lo < 0) s = "-" + s; return {s, NOTHING}; }
    case 1: { // a fraction with a suffix: denotes an integer or nothing
        auto &su = r.pick(SUF); int n = int(r.range(1, 7)); I den = 1, f = 0; for (int i = 0; i < n; ++i) den *= 10; if (r.chance(1, 2)) f = I(r.below(uint64_t(den))); else { I g = den / (1ll << r.below(7)); f = g * I(r.below(64)); if (f >= den) f %= den; } std::string fs = dec(f); while (int(fs.size()) < n) fs = "0" + fs; I whole = I(r.below(r.chance(1, 2) ? 3 : 500)); bool neg = lo < 0 && r.chance(1, 3); 
        std::string s = (whole == 0 && r.chance(1, 2) ? "" : dec(whole)) + "." + fs + sep(r) + r.pick(su.o) + sep(r); if (neg) s = "-" + s; if ((f * su.m) % den != 0) return {s, NOTHING}; I v = whole * su.m + f * su.m / den; return {s, neg ? -v : v}; }
    case 2: case 3: case 4: { // a sum of parts
        std::string s; I tot = 0; int k = int(r.range(1, 4)); bool neg = lo < 0 && r.chance(1, 3); std::string lead = sep(r);
        for (int i = 0; i < k; ++i) { auto &su = r.pick(SUF); I room = hi / su.m; I a = room < 3 || r.chance(1, 2) ? I(r.below(4)) : I(r.below(uint64_t(std::min<I>(room + 2, 1000000)))); bool pre = i == 0 && r.chance(1, 3); std::string t = pre ? plain(r, a, true) : (i == 0 && a == 0 ? "0" : spaced(r, dec(a), 0)); const char *sx = r.pick(su.o); if (i == 0 && strchr("bB", sx[0]) && (t.substr(0, 2) == "0x" || t.substr(0, 2) == "0X" || a == 0)) sx = sx[1] ? "gi" : "g"; s += t + sep(r) + sx + sep(r); if (i == 0 && a == 0 && t == "0" && s.size() > 1) {} tot += a * su.m; }
        if (r.chance(1, 2)) { I a = I(r.below(1000)); s += spaced(r, dec(a), 0); tot += a; } return {lead + (neg ? "-" + sep(r) : "") + s, neg ? -tot : tot}; }
    default: { I v = mag(); bool neg = v < 0 ? false : lo < 0 ? r.chance(1, 2) : r.chance(1, 25); if (v < 0) v = 0; std::string s = sep(r) + (neg ? "-" + sep(r) : "") + plain(r, v, true); if (neg && lo >= 0) return {s, NOTHING}; if (v > I(std::numeric_limits<uint64_t>::max())) return {s, NOTHING}; return {s, neg ? -v : v}; }
    }
}
template<class T> struct Is { static constexpr bool vec = false; }; template<class T> struct Is<std::vector<T>> { static constexpr bool vec = true; using el = T; };
// a random text for a scalar, and the value it denotes (false: none)
template<class T> bool text(vf::Rng &r, std::string &s, T &v)
{
    if constexpr (std::is_same_v<T, std::string>) { static const char *const W[] = {"", "a", "hello world", "0x5", "1k", "[a, b]", "\"q\"", "true", "a,b", "  x ", "\xc3\xa9"}; s = v = W[r.below(11)]; return true; }
    else if constexpr (std::is_same_v<T, bool>) { static const std::pair<const char *, int> W[] = {{"true", 1}, {"false", 0}, {"1", 1}, {"0", 0}, {"True", 1}, {"FALSE", 0}, {"yes", 1}, {"no", 0}, {"on", 1}, {"off", 0}, {"maybe", -1}, {"truee", -1}, {"1x", -1}, {"2.5", -1}}; auto &w = W[r.below(14)]; s = w.first; v = w.second == 1; return w.second >= 0; }
    else if constexpr (std::is_floating_point_v<T>) { if (r.chance(1, 6)) { static const char *const B[] = {"abc", "1.5x", "", "1.5 2", "0.1k", "--1", "1e", "true"}; s = B[r.below(8)]; return false; }
        switch (r.below(4)) { case 0: v = T(r.below(1000)); break; case 1: v = T(r.next()) / T(r.next() | 1); break; case 2: { uint64_t b = r.next(); double d; memcpy(&d, &b, 8); v = std::isfinite(d) ? T(d) : T(0.1); break; } default: v = T(int64_t(r.below(2000000)) - 1000000) / 1000; } char buf[64]; snprintf(buf, sizeof buf, "%.17g", double(v)); s = buf; return true; }
    else { Txt t = number(r, I(std::numeric_limits<T>::min()), I(std::numeric_limits<T>::max())); s = t.s; v = T(t.v); return t.v != NOTHING && t.v >= I(std::numeric_limits<T>::min()) && t.v <= I(std::numeric_limits<T>::max()); }
}
template<class T> T value(vf::Rng &r) { if constexpr (Is<T>::vec) { T v; int n = int(r.below(4)); while (n--) v.push_back(value<typename Is<T>::el>(r)); return v; } else { T v; std::string s; while (!text<T>(r, s, v)); return v; } }
struct Set : ParameterSet { Set(TreeNode *n) : ParameterSet(n) {} };
struct Slot { virtual ~Slot() {} virtual void step(vf::Ctx &) = 0; virtual void check(vf::Ctx &) = 0; virtual void lock() = 0; virtual ParameterBase *p() = 0; virtual void ignore() = 0; unsigned reads = 0, writes = 0; bool ignored = false, vol = false, locked = false, dead = false, over = false; int attr = 0; };
template<class T> std::string print(const T &v, int base, const std::string &q)
{
    if constexpr (Is<T>::vec) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + print<typename Is<T>::el>(v[i], base, q); return s + "]"; }
    else if constexpr (std::is_same_v<T, std::string>) return q + v + q;
    else if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else if constexpr (std::is_floating_point_v<T>) return "";
    else { using U = std::make_unsigned_t<std::conditional_t<sizeof(T) < 4, int32_t, T>>; std::ostringstream o; o << std::showbase; if (base == 1) o << std::hex << U(v); else if (base == 2) o << std::oct << U(v); else o << dec(I(v)); return o.str(); }
}
int depthOf(...) { return 0; } template<class T> int depthOf(const std::vector<T> *) { return 1 + depthOf(static_cast<const T *>(nullptr)); }
template<class T> struct S : Slot {
    using PT = Parameter<T>; std::unique_ptr<PT> q; T val, def; int base = 0; std::string quote; std::vector<bool> deps; static inline std::vector<bool> verdict;
    ParameterBase *p() override { return q.get(); } void ignore() override { q->ignore(); ignored = true; }
    static bool d0(T &, const TreeNode *) { return verdict[0]; } static bool d1(T &, const TreeNode *) { return verdict[1]; } static bool d2(T &, const TreeNode *) { return verdict[2]; }
    S(vf::Ctx &ctx, ParameterSet *ps, const std::string &nm) { def = val = value<T>(ctx.rng); vol = ctx.rng.chance(1, 4); attr = ctx.rng.chance(1, 3) ? int(ctx.rng.range(1, 2)) : 0; q.reset(attr ? new PT(nm, def, "doc", attr == 1 ? PT::ParameterAttribute::LOCKED : PT::ParameterAttribute::HIDDEN, ps, vol) : new PT(nm, def, "doc", ps, vol)); int n = int(ctx.rng.below(4)); for (int i = 0; i < n; ++i) { deps.push_back(true); q->addDependentValidationCallback(i == 0 ? &d0 : i == 1 ? &d1 : &d2, "dep" + std::to_string(i)); } }
    void lock() override { locked = true; }
    bool perm() { return !(locked && attr); }
    bool canWrite() { return !(reads > 0 && !vol) && !dead; }
    void wrote(bool poke) { if (!poke) { reads = 0; ++writes; } }
    template<class F> void expect(vf::Ctx &ctx, bool ok, const char *k, const std::string &what, F f) { bool t = false; std::string msg; try { f(); } catch (std::exception &e) { t = true; msg = e.what(); } VF_CHECK(ctx, t != ok, k, what << (ok ? " was rejected: " + msg : " was accepted, value now " + q->getValueAsString())); ctx.count(ok ? "accepted" : "rejected"); }
    template<class E> bool setItem(E &e, const std::vector<uint32_t> &ix, size_t k, const std::string &s, bool &ok, vf::Rng &r, std::string &out)
    {
        (void)s; if constexpr (Is<E>::vec) { if (k == ix.size()) { ok = false; return false; } if (ix[k] >= e.size()) e.resize(ix[k] + 1); if constexpr (std::is_same_v<E, std::vector<bool>>) { if (k + 1 != ix.size()) { ok = false; return false; } bool b; ok = text<bool>(r, out, b); if (ok) e[ix[k]] = b; return ok; } else return setItem(e[ix[k]], ix, k + 1, s, ok, r, out); }
        else { if (k != ix.size()) { ok = false; return false; } ok = text<E>(r, out, e); return ok; }
    }
    void step(vf::Ctx &ctx) override
    {
        auto &r = ctx.rng; const std::string nm = q->getName();
        switch (r.below(14)) {
        case 0: case 1: case 2: { bool poke = r.chance(1, 8); if constexpr (!Is<T>::vec) { std::string s; T v; bool ok = text<T>(r, s, v); bool all = ok && perm() && (poke || canWrite()); ctx.op("set", nm, s, ok, poke); expect(ctx, all, ok ? "set_rejected" : "bad_text_accepted", "setting '" + s + "'", [&] { q->setValueFromString(s, poke); }); if (all) { val = v; wrote(poke); } ctx.count(ok ? "good_text" : "bad_text"); } else { ctx.op("set_scalar", nm); expect(ctx, false, "vector_set_scalar", "a string for a vector", [&] { q->setValueFromString("5"); }); } break; }
        case 3: case 4: { if constexpr (Is<T>::vec) { using E = typename Is<T>::el; std::vector<std::string> v; T nv; bool ok = true; int n = int(r.below(5)); for (int i = 0; i < n; ++i) { if constexpr (!Is<E>::vec) { E e; std::string s; ok &= text<E>(r, s, e); v.push_back(s); nv.push_back(e); } else { v.push_back("1"); ok = false; } } if (Is<E>::vec) ok = false; bool all = ok && perm() && canWrite(); ctx.op("set_vector", nm, v.size(), ok); expect(ctx, all, ok ? "set_rejected" : "bad_text_accepted", "setting a vector", [&] { q->setValueFromStringVector(v); }); if (all) { val = nv; wrote(false); } } else { expect(ctx, false, "scalar_set_vector", "a vector for a scalar", [&] { q->setValueFromStringVector({"1"}); }); } break; }
        case 5: { T v = value<T>(r); bool all = perm() && canWrite(); ctx.op("assign", nm); expect(ctx, all, "assign", "an assignment", [&] { *q = v; }); if (all) { val = v; wrote(false); } break; }
        case 6: { int d = depthOf(static_cast<const T *>(nullptr)); std::vector<uint32_t> ix; int n = r.chance(1, 8) ? int(r.below(4)) : d; for (int i = 0; i < n; ++i) ix.push_back(uint32_t(r.below(5))); if (n == 0 && d > 0) break; T v = val; bool ok = true; std::string s = "1"; bool def_ = r.chance(1, 4); if (def_) v = def; setItem(v, ix, 0, "", ok, r, s); if (n != d) ok = false; bool all = ok && perm() && (def_ || canWrite()); ctx.op("set_item", nm, n, s, ok, def_); if (def_ && d == 0) { if (reads) break; } 
            expect(ctx, all, ok ? "item_rejected" : "bad_item_accepted", "item '" + s + "'", [&] { if (def_) q->overrideDefaultItemValueFromString(ix, s); else q->setItemValueFromString(ix, s); }); if (all) { if (def_) { def = v; over = true; } else { val = v; wrote(false); } } break; }
        case 7: { if constexpr (!Is<T>::vec) { std::string s; T v; bool ok = text<T>(r, s, v); bool all = ok && perm() && reads == 0; ctx.op("override_default", nm, s, ok); expect(ctx, all, ok ? "default_rejected" : "bad_default_accepted", "default '" + s + "'", [&] { q->overrideDefaultFromString(s); }); if (all) { def = v; over = true; } } break; }
        case 8: { bool all = perm() && reads == 0 && !dead; ctx.op("restore_default", nm); expect(ctx, all, "restore", "restoring the default", [&] { q->restoreValueFromDefault(); }); if (all) { val = def; ++writes; reads = 0; } break; }
        case 9: { ctx.op("read", nm); if (r.chance(1, 3)) break; switch (r.below(4)) { case 0: VF_CHECK(ctx, q->getValue() == val, "value", nm << " reads " << q->getValueAsString()); break; case 1: VF_CHECK(ctx, (*q)() == val, "value", nm); break; case 2: VF_CHECK(ctx, q->template getValueAs<T>() == val, "value", nm); break; default: { const T &t = *q; VF_CHECK(ctx, t == val, "value", nm); } } ++reads; ctx.count("reads"); break; }
        case 10: { if (r.chance(1, 4)) { ctx.op("ignore", nm); q->ignore(); ignored = true; } else if (r.chance(1, 3)) { ctx.op("unread", nm); q->unread(); reads = 0; ignored = false; } break; }
        case 11: { // printed text reads back to the same value
            if (r.chance(1, 6) && perm()) { base = int(r.below(3)); q->setNumericDisplayBase(sparta::utils::DisplayBase(base)); } if constexpr (std::is_same_v<T, std::string>) if (r.chance(1, 6)) { quote = r.chance(1, 2) ? "'" : ""; q->setStringQuote(quote); }
            ctx.op("print", nm); std::string s = q->getValueAsString(), ds = q->getDefaultAsString();
            if constexpr (std::is_floating_point_v<T>) { size_t e; VF_CHECK(ctx, sparta::utils::smartLexicalCast<T>(s, e) == val, "print", "prints '" << s << "', which is another value"); VF_CHECK(ctx, sparta::utils::smartLexicalCast<T>(ds, e) == def, "print", "default prints '" << ds << "'"); }
            else if constexpr (!std::is_same_v<T, std::vector<double>>) { if (base == 0) VF_EQ(ctx, s, print<T>(val, base, Is<T>::vec ? "\"" : quote), "print", "value of " << nm); if constexpr (!Is<T>::vec) if (base == 0) VF_EQ(ctx, ds, print<T>(def, base, quote), "print", "default of " << nm); if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) if (base == 0 || val >= 0) { size_t e; VF_EQ(ctx, sparta::utils::smartLexicalCast<T>(s, e), val, "print", "'" << s << "' reads back"); } }
            ctx.count("printed"); break; }
        case 12: { // parts
            ctx.op("parts", nm); int d = depthOf(static_cast<const T *>(nullptr)); bool peek = r.chance(1, 2); size_t n = q->getNumValues(peek); if (d && !peek) ++reads; if constexpr (Is<T>::vec) { VF_EQ(ctx, n, val.size(), "size", nm); VF_EQ(ctx, size_t(q->getVectorSizeAt({}, peek)), val.size(), "size", nm); if (!peek) ++reads; if (n) { uint32_t i = uint32_t(r.below(n)); if (d == 1) { std::string a = q->getItemValueFromString({i}, peek), b = q->getValueAsStringAt(i, peek); if (!peek) reads += 2; VF_EQ(ctx, a, b, "item", nm); using E = typename Is<T>::el; if constexpr (std::is_same_v<E, double>) VF_CHECK(ctx, strtod(a.c_str(), nullptr) == val[i], "item", nm << "[" << i << "] prints " << a); else if constexpr (!Is<E>::vec) { if (base == 0) VF_EQ(ctx, a, print<E>(val[i], base, ""), "item", nm << "[" << i << "]"); } } else if constexpr (Is<typename Is<T>::el>::vec) { VF_EQ(ctx, size_t(q->getVectorSizeAt({i}, peek)), val[i].size(), "size", nm); if (!peek) ++reads; } }
                if (r.chance(1, 6)) { uint32_t big = uint32_t(n + r.below(2)); VF_CHECK(ctx, vf::throws<std::exception>([&] { q->getItemValueFromString(std::vector<uint32_t>(d, big), true); }), "item_past_end", nm); } }
            else { VF_EQ(ctx, n, size_t(1), "size", nm); if constexpr (std::is_arithmetic_v<T>) VF_EQ(ctx, q->getDoubleValue(), double(val), "double", nm); }
            VF_EQ(ctx, int(q->getDimensionality()), d, "dimension", nm); VF_EQ(ctx, q->isVector(), d > 0, "dimension", nm); if (r.chance(1, 10)) VF_CHECK(ctx, vf::throws<ParameterException>([&] { q->template getValueAs<char *>(); }), "wrong_type", nm); break; }
        default: { // dependencies
            ctx.op("validate", nm); verdict.clear(); std::string want; bool all = true; for (size_t i = 0; i < 3; ++i) { verdict.push_back(r.chance(2, 3)); if (i < deps.size() && !verdict[i]) { want += "dep" + std::to_string(i) + ","; all = false; } } std::string err; VF_EQ(ctx, q->validateDependencies(nullptr, err), all, "validate", nm); VF_EQ(ctx, err, want, "validate_names", nm); ctx.count("validations"); break; }
        }
        check(ctx);
    }
    void check(vf::Ctx &ctx) override
    {
        VF_CHECK(ctx, q->peekValue() == val, "stored", q->getName() << " holds " << q->getValueAsString() << " want " << print<T>(val, 0, "")); VF_CHECK(ctx, q->getDefault() == def, "stored_default", q->getName() << " default " << q->getDefaultAsString());
        VF_EQ(ctx, q->getReadCount(), reads, "read_count", q->getName()); VF_EQ(ctx, q->getWriteCount(), writes, "write_count", q->getName()); VF_EQ(ctx, q->isIgnored(), ignored, "ignored", ""); VF_EQ(ctx, q->isReadOrIgnored(), ignored || reads > 0, "read_or_ignored", ""); VF_EQ(ctx, q->isVolatile(), vol, "volatile", ""); VF_EQ(ctx, q->isVisibilityAllowed(), !(locked && attr == 2), "visible", ""); VF_EQ(ctx, q->isDefaultOverridden(), over, "overridden", "");
        VF_EQ(ctx, q->isDefault(), val == def, "is_default", q->getName() << " value " << q->getValueAsString() << " default " << q->getDefaultAsString());
    }
};
Slot *make(vf::Ctx &ctx, ParameterSet *ps, const std::string &n)
{
    switch (ctx.rng.below(19)) {
    case 0: return new S<uint8_t>(ctx, ps, n); case 1: return new S<int8_t>(ctx, ps, n); case 2: return new S<uint16_t>(ctx, ps, n); case 3: return new S<int16_t>(ctx, ps, n); case 4: return new S<uint32_t>(ctx, ps, n); case 5: return new S<int32_t>(ctx, ps, n); case 6: return new S<uint64_t>(ctx, ps, n); case 7: return new S<int64_t>(ctx, ps, n);
    case 8: return new S<double>(ctx, ps, n); case 9: return new S<bool>(ctx, ps, n); case 10: return new S<std::string>(ctx, ps, n); case 11: return new S<std::vector<uint32_t>>(ctx, ps, n); case 12: return new S<std::vector<std::string>>(ctx, ps, n); case 13: return new S<std::vector<std::vector<int32_t>>>(ctx, ps, n); case 14: return new S<std::vector<bool>>(ctx, ps, n); case 15: return new S<std::vector<std::vector<std::string>>>(ctx, ps, n); case 16: return new S<std::vector<double>>(ctx, ps, n); case 17: return new S<std::vector<std::vector<std::vector<uint64_t>>>>(ctx, ps, n); default: return new S<std::vector<int8_t>>(ctx, ps, n);
    }
}
bool sameNames(const std::string &msg, const std::string &want)
{
    auto split = [](std::string t) { std::multiset<std::string> o; size_t p; while ((p = t.find(", ")) != std::string::npos) { o.insert(t.substr(0, p)); t = t.substr(p + 2); } o.insert(t); return o; };
    size_t b = msg.find("not been read: "); if (b == std::string::npos) return false; b += 15; std::string rest = msg.substr(b), names; size_t i = 0;
    while (true) { size_t e = rest.find_first_of(", \n", i); names += rest.substr(i, e == std::string::npos ? e : e - i); if (e == std::string::npos || rest[e] != ',') break; names += ", "; i = e + 2; }
    return split(names) == split(want);
}
// a chain of parameters that set later ones from their callbacks
struct Chain : ParameterSet {
    Chain(TreeNode *n) : ParameterSet(n) {}
    Parameter<uint32_t> a{"a", 1, "d", this}, b{"b", 2, "d", this}, c{"c", 3, "d", this}, d{"d", 4, "d", this}; int mode = 0, calls = 0;
    void aCb() { ++calls; if (mode == 1) throw SpartaException("no"); b = a.peekValue() * 2; }
    void bCb() { ++calls; if (mode == 2) throw SpartaException("no"); if (mode == 3) { a = 7; return; } if (mode == 4) { b = 9; return; } c = b.peekValue() + 1; }
    void reg() { a.associateParametersForModification({&b}, CREATE_SPARTA_HANDLER(Chain, aCb)); b.associateParametersForModification({&c}, CREATE_SPARTA_HANDLER(Chain, bCb)); }
};
void chain(vf::Ctx &ctx)
{
    Quiet qq; RootTreeNode rtn("top"); TreeNode n(&rtn, "n", "n"); std::unique_ptr<Chain> s(new Chain(&n)); s->reg(); uint32_t va = 1, vb = 2, vc = 3, vd = 4; VF_EQ(ctx, s->calls, 0, "callback_early", "");
    for (int i = 0; i < 40; ++i) {
        int m = int(ctx.rng.below(8)); s->mode = m > 4 ? 0 : m; uint32_t x = uint32_t(ctx.rng.below(1000)); int w = int(ctx.rng.below(4)); bool str = ctx.rng.chance(1, 2); int before = s->calls; ctx.op("chain", w, x, s->mode);
        Parameter<uint32_t> &p = w == 0 ? s->a : w == 1 ? s->b : w == 2 ? s->c : s->d; bool ok = !((w == 0 && s->mode != 0) || (w == 1 && s->mode >= 2)); std::string msg; bool threw = false; try { if (str) p.setValueFromString(std::to_string(x)); else p = x; } catch (SpartaException &e) { threw = true; msg = e.what(); }
        VF_EQ(ctx, threw, !ok, "chain_reject", "parameter " << w << " mode " << s->mode << ": " << msg);
        if (ok) { if (w == 0) { va = x; vb = 2 * x; vc = vb + 1; } else if (w == 1) { vb = x; vc = x + 1; } else if (w == 2) vc = x; else vd = x; }
        VF_EQ(ctx, s->a.peekValue(), va, "chain_value", "a"); VF_EQ(ctx, s->b.peekValue(), vb, "chain_value", "b"); VF_EQ(ctx, s->c.peekValue(), vc, "chain_value", "c"); VF_EQ(ctx, s->d.peekValue(), vd, "chain_value", "d"); VF_EQ(ctx, s->isLocked(), false, "chain_locked", "the set stays locked"); if (ok) VF_EQ(ctx, s->calls - before, w == 0 ? 2 : w == 1 ? 1 : 0, "chain_calls", ""); ctx.obs(va, vb, vc); ctx.count("chained");
    }
    rtn.enterTeardown();
}
void params(vf::Ctx &ctx)
{
    Quiet qq; RootTreeNode rtn("top"); TreeNode n(&rtn, "n", "n"); Set ps(&n); std::vector<std::unique_ptr<Slot>> v; int k = int(ctx.rng.range(1, 8));
    for (int i = 0; i < k; ++i) v.emplace_back(make(ctx, &ps, "p" + std::string(1, char('a' + i))));
    { Parameter<int> dup("pa", 1, "d"); (void)dup; }
    VF_EQ(ctx, ps.getNumParameters(), v.size(), "set", "number"); if (ctx.rng.chance(1, 8)) VF_CHECK(ctx, vf::throws<SpartaException>([&] { Parameter<int> d("pa", 1, "d", &ps); }), "duplicate", "a second pa");
    int steps = int(ctx.rng.range(20, 120)), lockAt = ctx.rng.chance(1, 2) ? int(ctx.rng.below(steps)) : -1, finAt = ctx.rng.chance(1, 3) ? int(ctx.rng.below(steps)) : -1;
    bool fin = false;
    for (int i = 0; i < steps; ++i) {
        if (i == lockAt && !fin) { ctx.op("lockdown"); rtn.lockdownParameters(); for (auto &s : v) s->lock(); }
        if (i == finAt) { ctx.op("finalize"); for (auto &s : v) { if (!s->p()->isReadOrIgnored()) { s->ignore(); } } rtn.enterConfiguring(); rtn.enterFinalized(); fin = true; }
        auto &s = ctx.rng.pick(v); s->step(ctx); ctx.obs(s->reads, s->writes);
        if (ctx.rng.chance(1, 12)) { std::string want; for (auto &x : v) if (!x->ignored && !x->reads) want += (want.empty() ? "" : ", ") + x->p()->getName(); ctx.op("verify_all_read"); std::string got; bool t = false; try { ps.verifyAllRead(); } catch (ParameterException &e) { t = true; got = e.what(); } VF_EQ(ctx, t, !want.empty(), "all_read", "unread: " << want); if (t) VF_CHECK(ctx, sameNames(got, want), "all_read_names", got << " want " << want); }
        if (ctx.rng.chance(1, 40)) { ctx.op("reset_counts"); ps.resetReadCounts(); ps.resetWriteCounts(); for (auto &x : v) x->reads = x->writes = 0; }
        if (ctx.rng.chance(1, 60)) { ps.ignoreAll(); for (auto &x : v) x->ignored = true; }
        if (ctx.rng.chance(1, 20)) { std::vector<std::string> nm = ps.getNames(); VF_EQ(ctx, nm.size(), v.size(), "names", ""); for (auto &x : v) { VF_CHECK(ctx, ps.getParameter(x->p()->getName()) == x->p() && ps.hasParameter(x->p()->getName()), "get_parameter", x->p()->getName()); } }
        for (auto &x : v) x->check(ctx);
    }
    if (ctx.rng.chance(1, 2)) { ctx.op("teardown"); rtn.enterTeardown(); for (auto &x : v) x->dead = true; for (int i = 0; i < 5; ++i) ctx.rng.pick(v)->step(ctx); } else rtn.enterTeardown();
}
// the cast itself, every integer type
template<class T> void castOne(vf::Ctx &ctx, const char *tn) { std::string s; T v; bool ok = text<T>(ctx.rng, s, v); ctx.op(tn, s, ok); size_t e = 0; bool t = false; T got{}; try { got = sparta::utils::smartLexicalCast<T>(s, e); } catch (SpartaException &) { t = true; } VF_EQ(ctx, t, !ok, ok ? "cast_rejected" : "cast_accepted", tn << " '" << s << "' gives " << dec(I(got))); if (ok) VF_EQ(ctx, dec(I(got)), dec(I(v)), "cast_value", tn << " '" << s << "'"); if (ok) ctx.obs(uint64_t(v)); ctx.count(ok ? "casts_good" : "casts_bad"); }
}
VF_SECTION(params, 300, 4000) { params(ctx); }
VF_SECTION(casts, 150, 3000) { for (int i = 0; i < 60; ++i) switch (ctx.rng.below(8)) { case 0: castOne<uint8_t>(ctx, "uint8"); break; case 1: castOne<int8_t>(ctx, "int8"); break; case 2: castOne<uint16_t>(ctx, "uint16"); break; case 3: castOne<int16_t>(ctx, "int16"); break; case 4: castOne<uint32_t>(ctx, "uint32"); break; case 5: castOne<int32_t>(ctx, "int32"); break; case 6: castOne<uint64_t>(ctx, "uint64"); break; default: castOne<int64_t>(ctx, "int64"); } }
VF_SECTION(chain, 40, 400) { chain(ctx); }
