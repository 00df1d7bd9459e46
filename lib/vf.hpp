// Monitor framework shared by all harnesses.
//
// A harness registers sections.  A section is a function that executes ONE case of real
// sparta code under a pseudo-random workload (all choices from Ctx::rng, seeded from
// (seed, section, case number)) while an oracle watches.  An oracle that disagrees throws
// vf::Violation; a sanitizer report or crash ends the process and the runner attributes it
// to the case recorded in the progress file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <csignal>
#include <ctime>
#include <sys/time.h>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <unistd.h>
#include <vector>

namespace vf {

inline uint64_t mix64(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string &s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix64(h);
}

class Rng
{
    uint64_t s_;
public:
    explicit Rng(uint64_t s = 1) : s_(mix64(s)) {}
    uint64_t next() { s_ += 0x9E3779B97F4A7C15ull; uint64_t z = s_;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }              // [0,n)
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo) + 1)); } // [lo,hi]
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    double unit() { return double(next() >> 11) / 9007199254740992.0; }
    template<class V> auto &pick(V &v) { return v[below(v.size())]; }
    template<class V> const auto &pick(const V &v) { return v[below(v.size())]; }
    template<class T> T of(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    template<class V> void shuffle(V &v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
    // interesting 64-bit value: mixes boundaries, small and full-width numbers
    uint64_t word()
    {
        switch (below(6)) {
        case 0: return below(4);
        case 1: return ~uint64_t(0) - below(3);
        case 2: return uint64_t(1) << below(64);
        case 3: return (uint64_t(1) << below(64)) - 1;
        default: return next();
        }
    }
};

struct Violation : std::runtime_error {
    std::string key;
    Violation(const std::string &k, const std::string &m) : std::runtime_error(m), key(k) {}
};
// The harness itself could not do its job (never a verdict about sparta).
struct HarnessError : std::runtime_error { using std::runtime_error::runtime_error; };

class Ctx
{
public:
    Rng rng;
    uint64_t case_no = 0;
    uint64_t fp = 0x1234567;             // fingerprint of what the monitor observed
    uint64_t events = 0;                 // observed events in this case
    std::map<std::string, uint64_t> tally;
    std::vector<std::string> log;        // op log of this case (bounded)
    bool verbose = false;
    bool thorough = false;
    std::string scratch;

    void obs(uint64_t v) { fp = mix64(fp ^ v) + 0x51ED27; ++events; }
    void obs(const std::string &s) { obs(hashStr(s)); }
    template<class A, class B, class... C> void obs(const A &a, const B &b, const C &... c) { uint64_t h = 0; obsMix(h, a); obsMix(h, b); (obsMix(h, c), ...); obs(h); }
    static void obsMix(uint64_t &h, const std::string &s) { h = mix64(h ^ hashStr(s)); }
    template<class T, class = std::enable_if_t<std::is_arithmetic_v<T>>> static void obsMix(uint64_t &h, T v) { h = mix64(h ^ uint64_t(v)); }
    void count(const std::string &k, uint64_t n = 1) { tally[k] += n; }
    template<class F, class = std::enable_if_t<std::is_invocable_v<F, std::ostream &>>> void op(F &&f)
    {
        std::ostringstream os; f(os);
        if (verbose) { std::fprintf(stderr, "  op: %s\n", os.str().c_str()); }
        if (log.size() >= 400) log.erase(log.begin(), log.begin() + 100);
        log.push_back(os.str());
    }
    void op(const std::string &s) { op([&](std::ostream &o) { o << s; }); }
    template<class A, class... B> void op(const char *n, const A &a, const B &... b) { op([&](std::ostream &o) { o << n << '(' << a; ((o << ',' << b), ...); o << ')'; }); }
    [[noreturn]] void fail(const std::string &key, const std::string &msg) { throw Violation(key, msg); }
};

#define VF_CHECK(ctx, cond, key, msg)                                                     \
    do {                                                                                  \
        if (!(cond)) {                                                                    \
            std::ostringstream vf_os_;                                                    \
            vf_os_ << msg << " [" << #cond << " @" << __LINE__ << "]";                    \
            (ctx).fail(key, vf_os_.str());                                                \
        }                                                                                 \
    } while (0)
#define VF_EQ(ctx, got, want, key, msg)                                                   \
    do {                                                                                  \
        const auto vf_g_ = (got);                                                         \
        const auto vf_w_ = (want);                                                        \
        if (!(vf_g_ == vf_w_)) {                                                          \
            std::ostringstream vf_os_;                                                    \
            vf_os_ << msg << ": got " << vf_g_ << " want " << vf_w_ << " [" << #got       \
                   << " @" << __LINE__ << "]";                                            \
            (ctx).fail(key, vf_os_.str());                                                \
        }                                                                                 \
    } while (0)

// Runs f and reports whether it threw ExcT; any other exception propagates.
template<class ExcT, class F> bool throws(F &&f)
{
    try { f(); } catch (const ExcT &) { return true; }
    return false;
}

struct Section {
    std::string name;
    std::function<void(Ctx &)> fn;
    uint64_t quick_cases;
    uint64_t thorough_cases;
};
inline std::vector<Section> &sections() { static std::vector<Section> s; return s; }
struct Reg {
    Reg(const char *n, std::function<void(Ctx &)> f, uint64_t q, uint64_t t) { sections().push_back({n, f, q, t}); }
};
#define VF_SECTION(name, quick, thorough)                                                 \
    static void vf_sec_##name(vf::Ctx &);                                                 \
    static vf::Reg vf_reg_##name(#name, vf_sec_##name, quick, thorough);                  \
    static void vf_sec_##name(vf::Ctx &ctx)

inline std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c > 0x7e) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

// A case that burns this much CPU time does not terminate (normal cases take well under a tenth of it: the
// runner reports max_case_cpu_s).  CPU time, not wall time: a loaded machine must not look like a hang.
inline constexpr int HANG_RC = 77;
extern "C" inline void vf_on_hang(int) { static const char m[] = "HANG: a case used up its CPU budget\n"; if (::write(2, m, sizeof m - 1) < 0) {} ::_exit(HANG_RC); }
inline void armWatchdog(int cpu_seconds)
{
    struct itimerval it;
    std::memset(&it, 0, sizeof it);
    it.it_value.tv_sec = cpu_seconds;
    ::setitimer(ITIMER_PROF, &it, nullptr);
}
inline double cpuNow() { struct timespec t; ::clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }

inline int main_(int argc, char **argv)
{
    uint64_t seed = 1, shard = 0, nshards = 1, only_case = ~0ull;
    double scale = 1.0;
    std::string out, progress, only, scratch = ".";
    bool thorough = false, verbose = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() -> std::string { if (i + 1 >= argc) { std::exit(2); } return argv[++i]; };
        if (a == "--seed") seed = std::stoull(nx());
        else if (a == "--shard") shard = std::stoull(nx());
        else if (a == "--nshards") nshards = std::stoull(nx());
        else if (a == "--out") out = nx();
        else if (a == "--progress") progress = nx();
        else if (a == "--scratch") scratch = nx();
        else if (a == "--section") only = nx();
        else if (a == "--case") only_case = std::stoull(nx());
        else if (a == "--thorough") thorough = true;
        else if (a == "--scale") scale = std::stod(nx());
        else if (a == "-v") verbose = true;
        else { std::fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
    }
    int pfd = progress.empty() ? -1 : ::open(progress.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    std::ostringstream js;
    js << "{\"sections\":{";
    std::vector<std::string> viols;
    std::vector<std::string> samples;
    std::ostringstream hashes;
    bool firstsec = true;
    uint64_t nviol = 0;
    double max_cpu = 0; std::string max_cpu_at;
    std::signal(SIGPROF, vf_on_hang);
    for (auto &s : sections()) {
        if (!only.empty() && s.name != only) continue;
        uint64_t n = uint64_t(double(thorough ? s.thorough_cases : s.quick_cases) * scale);
        if (n == 0 && (thorough ? s.thorough_cases : s.quick_cases)) n = 1;
        uint64_t ran = 0, events = 0, nontrivial = 0;
        std::map<std::string, uint64_t> tally;
        std::unordered_set<uint64_t> seen;
        uint64_t secviol = 0;
        for (uint64_t c = 0; c < n; ++c) {
            if (only_case != ~0ull) { if (c != only_case && only_case < n) continue; if (only_case >= n) c = only_case; }
            else if ((c + hashStr(s.name)) % nshards != shard) continue;
            if (pfd >= 0) {
                char buf[160]; int l = std::snprintf(buf, sizeof buf, "%-80s %-20llu\n", s.name.c_str(), (unsigned long long)c);
                if (::pwrite(pfd, buf, l, 0) < 0) {}
            }
            Ctx ctx;
            ctx.case_no = c; ctx.thorough = thorough; ctx.verbose = verbose; ctx.scratch = scratch;
            ctx.rng = Rng(mix64(seed) ^ hashStr(s.name) ^ mix64(c * 7919 + 13));
            std::string vkey, vmsg;
            const double cpu0 = cpuNow();
            armWatchdog(thorough ? 400 : 150);
            try { s.fn(ctx); }
            catch (const Violation &v) { vkey = v.key; vmsg = v.what(); }
            catch (const HarnessError &e) { std::fprintf(stderr, "HARNESS-ERROR %s: %s\n", s.name.c_str(), e.what()); return 3; }
            catch (const std::exception &e) { vkey = "unexpected-exception"; vmsg = e.what(); }
            catch (...) { vkey = "unexpected-exception"; vmsg = "unknown exception type"; }
            armWatchdog(0);
            if (const double d = cpuNow() - cpu0; d > max_cpu) { max_cpu = d; max_cpu_at = s.name + "#" + std::to_string(c); }
            ++ran; events += ctx.events;
            for (auto &t : ctx.tally) tally[t.first] += t.second;
            if (ctx.events && seen.insert(ctx.fp).second) ++nontrivial;
            if (ran == 1 && samples.size() < 40) {
                std::ostringstream o; o << s.name << "#" << c << ": ";
                for (size_t i = 0; i < ctx.log.size() && i < 12; ++i) o << (i ? "; " : "") << ctx.log[i].substr(0, 160);
                o << " => " << ctx.events << " events observed";
                samples.push_back(o.str());
            }
            if (!vkey.empty()) {
                ++nviol;
                if (verbose) std::fprintf(stderr, "VIOL %s %s\n", vkey.c_str(), vmsg.c_str());
                if (++secviol <= 12) {
                    std::ostringstream o;
                    o << "{\"key\":" << jstr(s.name + "/" + vkey) << ",\"section\":" << jstr(s.name) << ",\"case\":" << c
                      << ",\"msg\":" << jstr(vmsg.substr(0, 4000)) << ",\"log\":[";
                    size_t b = ctx.log.size() > 80 ? ctx.log.size() - 80 : 0;
                    for (size_t i = b; i < ctx.log.size(); ++i) o << (i > b ? "," : "") << jstr(ctx.log[i]);
                    o << "]}";
                    viols.push_back(o.str());
                }
                if (secviol >= 200) break;
            }
            if (only_case != ~0ull) break;
        }
        for (auto h : seen) hashes << s.name << " " << h << "\n";
        js << (firstsec ? "" : ",") << jstr(s.name) << ":{\"cases\":" << ran << ",\"events\":" << events
           << ",\"nontrivial\":" << nontrivial << ",\"tally\":{";
        bool f = true;
        for (auto &t : tally) { js << (f ? "" : ",") << jstr(t.first) << ":" << t.second; f = false; }
        js << "}}";
        firstsec = false;
    }
    js << "},\"max_case_cpu_s\":" << max_cpu << ",\"max_case\":" << jstr(max_cpu_at) << ",\"nviol\":" << nviol << ",\"violations\":[";
    for (size_t i = 0; i < viols.size(); ++i) js << (i ? "," : "") << viols[i];
    js << "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) js << (i ? "," : "") << jstr(samples[i]);
    js << "]}\n";
    if (!out.empty()) {
        { std::ofstream h(out + ".hashes"); h << hashes.str(); }
        { std::ofstream o(out + ".tmp"); o << js.str(); }
        std::rename((out + ".tmp").c_str(), out.c_str());
    } else {
        std::cerr << js.str();
    }
    std::cout.flush(); std::cerr.flush();
    ::_exit(0);   // static destructors of sparta singletons are exercised by dedicated checks only
}
} // namespace vf

#ifndef VF_NO_MAIN
int main(int argc, char **argv) { return vf::main_(argc, argv); }
#endif
