#!/usr/bin/env python3
"""Entry point of every check:  run.py <property> [--tier quick|thorough] [--replay FILE] [--setup]

Builds libsparta from /repo's working tree under sanitizers together with the property's
monitor harness, runs the workload in parallel shards inside a scratch directory, and turns
what the monitors observed into a verdict.  Exit 0: held on everything observed.  Exit 1 and a
line VIOLATION: an oracle or sanitizer refuted the property.  Exit 2: the check itself failed.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPARTA = os.path.join(REPO, "sparta")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
import props as P  # noqa: E402

NPROC = min(8, os.cpu_count() or 8)
CXX = "clang++"
BASE = ["-std=c++17", "-w", "-fPIC", "-g1", "-DNDEBUG", "-DRAPIDJSON_NOMEMBERITERATORCLASS",
        '-DSPARTA_VERSION="verif"', "-fno-omit-frame-pointer", "-DMAP_VERIF_MONITOR"]
UB = "-fno-sanitize=vptr,null,alignment,object-size,function"
FLAVORS = {
    "asan": ["-fsanitize=address,undefined", UB, "-fno-sanitize-recover=undefined", "-fsanitize-ignorelist=" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib", "ignore.txt")],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
}
LINK = ["-lyaml-cpp", "-lz", "-lpthread", "-lboost_date_time", "-lboost_iostreams",
        "-lboost_serialization", "-lboost_timer", "-lboost_program_options"]
# relative compile cost of the slow translation units (only used to balance batches)
WEIGHT = {"TreeNode": 8, "Simulation": 12, "Report": 10, "CommandLineSimulator": 12, "ExpressionGrammar": 10,
          "TreeFilterExpressionGrammar": 9, "ReportDescriptor": 9, "ReportRepository": 8, "ExpressionTrigger": 9,
          "TriggerManager": 7, "StatisticInstance": 5, "ContextCounterTrigger": 6, "ConfigParserYAML": 5,
          "Expression": 6, "Parameter": 4}


def sh_hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


_tree_cache = {}


def tree_hash(dirs):
    k = tuple(dirs)
    if k in _tree_cache:
        return _tree_cache[k]
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".cpp", ".h", ".tpp", ".c", ".txt", ".py", ".pyx")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    _tree_cache[k] = h.hexdigest()[:24]
    return _tree_cache[k]


def lib_sources():
    """Sources of libsparta, read from the project's own build description."""
    txt = open(os.path.join(SPARTA, "CMakeLists.txt")).read()
    m = re.search(r"list \(APPEND SourceCppFiles\s+(.*?)\)", txt, re.S)
    names = re.findall(r"src/\S+", m.group(1)) if m else []
    out = [os.path.join(SPARTA, n) for n in names if os.path.exists(os.path.join(SPARTA, n))]
    if len(out) < 20:
        skip = {"CherryPickFastCheckpointer.cpp", "ReportStatsCollector.cpp", "MemoryProfiler.cpp"}
        d = os.path.join(SPARTA, "src")
        out = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith((".cpp", ".tpp")) and f not in skip)
    return out


class BuildError(Exception):
    pass


def compile_one(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def includes():
    return ["-I", SPARTA, "-I", os.path.join(SPARTA, "cache"), "-I", os.path.join(SPARTA, "src"),
            "-I", os.path.join(VERIF, "lib"), "-I", REPO]


def batches(srcs, n):
    bins = [[0, []] for _ in range(n)]
    for s in sorted(srcs, key=lambda s: (-WEIGHT.get(os.path.basename(s).split(".")[0], 2), s)):
        b = min(bins, key=lambda b: b[0])
        b[0] += WEIGHT.get(os.path.basename(s).split(".")[0], 2)
        b[1].append(s)
    return [b[1] for b in bins if b[1]]


def src_dirs():
    return [os.path.join(SPARTA, "sparta"), os.path.join(SPARTA, "src"), os.path.join(SPARTA, "cache")]


def build(spec, flavor, pool):
    """Returns path of the harness binary for this flavor (building what is missing)."""
    flags = BASE + FLAVORS[flavor] + includes()
    tree = tree_hash(src_dirs() + [os.path.join(REPO, d) for d in spec.get("extra_dirs", [])])
    cver = subprocess.run([CXX, "--version"], stdout=subprocess.PIPE, text=True).stdout
    need_lib = spec.get("lib", True)
    lib_opt = spec.get("lib_opt", "-O0")
    libkey = sh_hash(tree, cver, flags, lib_opt, open(os.path.join(SPARTA, "CMakeLists.txt"), "rb").read())
    libdir = os.path.join(BUILD, "lib-%s-%s" % (flavor, libkey))
    libdone = os.path.join(libdir, "done")
    jobs = []
    objs = []
    os.makedirs(BUILD, exist_ok=True)
    srcs = [os.path.join(VERIF, "harness", s) if not s.startswith("@") else os.path.join(REPO, s[1:])
            for s in spec["sources"]]
    hkey = sh_hash(tree, cver, flags, spec.get("opt", "-O0"), spec.get("flags", []), need_lib,
                   *[open(s, "rb").read() for s in srcs],
                   *[open(os.path.join(VERIF, "lib", f), "rb").read() for f in sorted(os.listdir(os.path.join(VERIF, "lib")))])
    hdir = os.path.join(BUILD, "h-%s-%s-%s" % (spec["id"], flavor, hkey))
    binary = os.path.join(hdir, "harness")
    if os.path.exists(binary) and (not need_lib or os.path.exists(libdone)):
        os.utime(hdir)
        return binary
    tmp = tempfile.mkdtemp(prefix="b-", dir=BUILD)
    try:
        hobjs = []
        for i, s in enumerate(srcs):
            o = os.path.join(tmp, "h%d.o" % i)
            hobjs.append(o)
            jobs.append((pool.submit(compile_one, [CXX] + flags + [spec.get("opt", "-O0")] + spec.get("flags", []) +
                                     ["-c", s, "-o", o]), "harness", s))
        lobjs = []
        if need_lib:
            if os.path.exists(libdone):
                lobjs = [os.path.join(libdir, f) for f in sorted(os.listdir(libdir)) if f.endswith(".o")]
            else:
                for i, b in enumerate(batches(lib_sources(), 12)):
                    u = os.path.join(tmp, "u%d.cpp" % i)
                    with open(u, "w") as f:
                        for s in b:
                            f.write('#include "%s"\n' % s)
                    o = os.path.join(tmp, "u%d.o" % i)
                    jobs.append((pool.submit(compile_one, [CXX] + flags + [lib_opt, "-c", u, "-o", o]), "unity", (b, i, o)))
                    lobjs.append(o)
        retry = []
        for fut, kind, what in jobs:
            rc, out = fut.result()
            if rc != 0:
                if kind == "harness":
                    raise BuildError("harness %s does not compile:\n%s" % (what, out[-6000:]))
                retry.append(what)
        single = []
        for b, i, o in retry:   # a unity batch may clash; compile its members one by one
            lobjs.remove(o)
            for j, s in enumerate(b):
                so = os.path.join(tmp, "s%d_%d.o" % (i, j))
                lobjs.append(so)
                x = ["-x", "c++"] if not s.endswith(".cpp") else []
                single.append((pool.submit(compile_one, [CXX] + flags + [lib_opt] + x + ["-c", s, "-o", so]), s))
        for fut, s in single:
            rc, out = fut.result()
            if rc != 0:
                raise BuildError("%s does not compile:\n%s" % (s, out[-6000:]))
        if need_lib and not os.path.exists(libdone):
            ldir = tempfile.mkdtemp(prefix="l-", dir=BUILD)
            new = []
            for o in lobjs:
                d = os.path.join(ldir, os.path.basename(o))
                shutil.move(o, d)
                new.append(d)
            open(os.path.join(ldir, "done"), "w").close()
            try:
                os.rename(ldir, libdir)
                lobjs = [os.path.join(libdir, os.path.basename(o)) for o in new]
            except OSError:
                shutil.rmtree(ldir, ignore_errors=True)
                lobjs = [os.path.join(libdir, f) for f in sorted(os.listdir(libdir)) if f.endswith(".o")]
        ar = []
        if lobjs:
            a = os.path.join(tmp, "libsparta.a")
            subprocess.run(["ar", "qcsT" if False else "qcs", a] + lobjs, check=True)
            ar = [a] * 1
        os.makedirs(hdir, exist_ok=True)
        # the whole archive is linked: unity batches pull each other in anyway
        rc, out = compile_one([CXX] + FLAVORS[flavor] + hobjs + (["-Wl,--start-group"] + ar + ["-Wl,--end-group"] if ar else [])
                              + LINK + spec.get("link", []) + ["-o", binary + ".tmp"])
        if rc != 0:
            raise BuildError("link failed:\n" + out[-6000:])
        os.rename(binary + ".tmp", binary)
        return binary
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def prune(keep=int(os.environ.get("VERIF_KEEP", "60"))):
    """Keep the build cache small (it is not needed for correctness)."""
    try:
        now = time.time()
        ent = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)), key=os.path.getmtime, reverse=True)
        libs = [d for d in ent if os.path.basename(d).startswith("lib-")]
        hs = [d for d in ent if os.path.basename(d).startswith("h-")]
        for d in libs[4:] + hs[keep:]:
            shutil.rmtree(d, ignore_errors=True)
        for d in ent:
            if os.path.basename(d)[:2] in ("b-", "l-") and now - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


SAN_ENV = {
    "asan": {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1",
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=1:second_deadlock_stack=1:exitcode=66"},
    "plain": {},
}


def run_shard(spec, binary, flavor, seed, shard, nshards, tier, scratch, timeout, extra=()):
    d = os.path.join(scratch, "%s-s%d" % (flavor, shard))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "work"))
    out = os.path.join(d, "out.json")
    env = dict(os.environ)
    env.update(SAN_ENV[flavor])
    env.update(spec.get("env", {}))
    env["TMPDIR"] = os.path.join(d, "work")
    env["HOME"] = os.path.join(d, "work")
    env["VERIF_REPO"] = REPO
    cmd = [binary, "--seed", str(seed), "--shard", str(shard), "--nshards", str(nshards), "--out", out,
           "--progress", os.path.join(d, "progress"), "--scratch", os.path.join(d, "work"),
           "--scale", str(spec.get("flavor_scale", {}).get(flavor, 1.0))]
    if tier == "thorough":
        cmd.append("--thorough")
    cmd += list(extra)
    so, se = open(os.path.join(d, "stdout"), "wb"), open(os.path.join(d, "stderr"), "wb")
    p = subprocess.Popen(cmd, stdout=so, stderr=se, cwd=os.path.join(d, "work"), env=env, start_new_session=True)
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        rc = "timeout"
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    so.close(); se.close()
    prog = ""
    try:
        prog = open(os.path.join(d, "progress")).read().split("\n")[0]
    except OSError:
        pass
    res = {"rc": rc, "prog": prog.split(), "dir": d, "flavor": flavor, "shard": shard}
    if rc == 0 and os.path.exists(out):
        res["json"] = json.load(open(out))
        res["hashes"] = set(open(out + ".hashes").read().splitlines())
    else:
        with open(os.path.join(d, "stderr"), "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(0)
            head = f.read(1 << 22).decode("utf8", "replace")
        i = max(head.find("ERROR: AddressSanitizer"), head.find("runtime error:"), head.find("WARNING: ThreadSanitizer"))
        if i >= 0:
            head = head[max(0, i - 300):i + 6000]
        else:
            head = head[-4000:]
        res["stderr"] = head
    return res


HANG_RC = 77    # lib/vf.hpp: a case used up its CPU budget


def crash_key(res):
    """A stable name for a crash: the section and kind of report, plus the first sparta frame."""
    t = res.get("stderr", "")
    kind = "abort"
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", t)
    if m:
        kind = "asan-" + m.group(1)
    elif "runtime error:" in t:
        m = re.search(r"runtime error: ([a-z -]+)", t)
        kind = "ubsan-" + (m.group(1).strip().replace(" ", "-")[:40] if m else "")
    elif "ThreadSanitizer" in t:
        m = re.search(r"WARNING: ThreadSanitizer: ([a-z -]+)", t)
        kind = "tsan-" + (m.group(1).strip().replace(" ", "-") if m else "")
    elif isinstance(res["rc"], int) and res["rc"] < 0:
        kind = "signal-%d" % -res["rc"]
    m = re.search(r"#\d+ 0x[0-9a-f]+ in (sparta::[^\s(<]+)", t)
    fn = m.group(1) if m else "?"
    sec = res["prog"][0] if res["prog"] else "?"
    return "%s/crash:%s:%s" % (sec, kind, fn)


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                out.append(json.loads(l))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--section")
    ap.add_argument("--case", type=int)
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.setup:
        return 0
    spec = P.PROPS[a.prop]
    spec = dict(spec, id=a.prop)
    t0 = time.time()
    flavors = list(spec.get("flavors", ["asan"]))
    rp = None
    if a.replay:
        rp = json.load(open(a.replay))
        a.seed, a.section, a.case, a.tier = rp["seed"], rp["section"], rp["case"], rp["tier"]
        flavors = [rp["flavor"]]
    pool = cf.ThreadPoolExecutor(NPROC)
    try:
        bins = {f: build(spec, f, pool) for f in flavors}
    except BuildError as e:
        print("BUILD-ERROR property=%s\n%s" % (a.prop, e))
        return 2
    tb = time.time() - t0
    if a.build_only:
        print("built in %.1fs: %s" % (tb, bins))
        return 0
    if a.section:
        scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
        try:
            extra = ["--section", a.section] + (["--case", str(a.case)] if a.case is not None else []) + (["-v"] if a.v else [])
            bad = 0
            for f in flavors:
                r = run_shard(spec, bins[f], f, a.seed, 0, 1, a.tier, scratch, 600, extra)
                sys.stdout.write(open(os.path.join(r["dir"], "stderr"), errors="replace").read()[-20000:])
                if "json" in r:
                    print(json.dumps(r["json"], indent=1)[:8000])
                    bad += r["json"]["nviol"]
                else:
                    print("rc", r["rc"], r["prog"], crash_key(r))
                    bad += 1
            return 1 if bad else 0
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    nsh = spec.get("shards", NPROC)
    budget = spec.get("timeout", 300 if a.tier == "quick" else 2400)
    results = []
    try:
        futs = []
        for f in flavors:
            for s in range(nsh):
                futs.append(pool.submit(run_shard, spec, bins[f], f, a.seed, s, nsh, a.tier, scratch, budget))
        results = [x.result() for x in futs]
        # A wall-clock expiry is inconclusive: run such a shard once more, alone, before calling it a hang.  One
        # confirmed hang settles the verdict; the other expired shards are then left out.
        late = [i for i, r in enumerate(results) if r["rc"] == "timeout"]
        for i in late:
            r = results[i]
            results[i] = run_shard(spec, bins[r["flavor"]], r["flavor"], a.seed, r["shard"], nsh, a.tier, scratch,
                                   min(budget, 300))
            if results[i]["rc"] == "timeout":
                results = [x for j, x in enumerate(results) if j == i or j not in late]
                break
        return verdict(a, spec, results, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        prune()


def verdict(a, spec, results, t0, tb):
    viols, secs, samples, hashes = [], {}, [], set()
    for r in results:
        if "json" in r:
            for n, s in r["json"]["sections"].items():
                k = n if r["flavor"] == "asan" else n + "@" + r["flavor"]
                d = secs.setdefault(k, {"cases": 0, "events": 0, "tally": {}})
                d["cases"] += s["cases"]
                d["events"] += s["events"]
                for t, v in s["tally"].items():
                    d["tally"][t] = d["tally"].get(t, 0) + v
            hashes |= r["hashes"]
            samples += r["json"]["samples"]
            for v in r["json"]["violations"]:
                viols.append(dict(v, flavor=r["flavor"]))
        elif r["rc"] == 3 or r["rc"] == 2:
            print("HARNESS-ERROR property=%s shard=%s\n%s" % (a.prop, r["shard"], r["stderr"][-3000:]))
            return 2
        else:
            hang = r["rc"] in ("timeout", HANG_RC)
            sec = r["prog"][0] if r["prog"] else "?"
            key = "%s/hang" % sec if hang else crash_key(r)
            viols.append({"key": key, "section": sec, "case": int(r["prog"][1]) if len(r["prog"]) > 1 else 0,
                          "msg": ("the case does not end: its %s ran out" % ("CPU budget" if r["rc"] == HANG_RC else "wall time, twice,") if hang else r["stderr"][-6000:]), "log": [],
                          "flavor": r["flavor"]})
    known = [k for k in known_findings() if k["property"] == a.prop]
    kkeys = {k["key"]: k for k in known}
    new = [v for v in viols if v["key"] not in kkeys]
    hit = {}
    for v in viols:
        if v["key"] in kkeys:
            hit.setdefault(v["key"], []).append(v)
    ev = sum(s["cases"] for s in secs.values())
    events = sum(s["events"] for s in secs.values())
    empty = [n for n, s in secs.items() if s["cases"] and not s["events"]]
    wall = time.time() - t0
    evid = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(hashes),
            "rule": spec.get("rule", "Each case drives real sparta code with a pseudo-random workload; the oracle fingerprints "
                             "every event it observed. A case counts as distinct and non-trivial when it observed at least one "
                             "event and its fingerprint differs from that of every other case of its section."),
            "samples": samples[:12] or ["none"],
            "events_observed": events,
            "max_case_cpu_s": max([r["json"].get("max_case_cpu_s", 0) for r in results if "json" in r] or [0]),
            "sections": secs,
            "build_s": round(tb, 1),
            "flavors": spec.get("flavors", ["asan"]),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", a.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(evid, f, indent=1)
    os.rename(p + ".tmp", p)
    for k in known:
        n = len(hit.get(k["key"], []))
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (a.prop, k["what"], n))
    print("%s %s seed=%d: %d cases, %d distinct, %d events observed, %.0fs (build %.0fs)" %
          (a.prop, a.tier, a.seed, ev, len(hashes), events, wall, tb))
    for n, s in sorted(secs.items()):
        print("  %-28s cases=%-7d events=%-9d %s" % (n, s["cases"], s["events"],
              " ".join("%s=%d" % kv for kv in sorted(s["tally"].items()))[:220]))
    if new:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for i, v in enumerate(new):
            if v["key"] in seen or len(seen) >= 8:
                continue
            seen.add(v["key"])
            rp = os.path.join(rd, "%s-%d.json" % (a.prop, len(seen)))
            json.dump({"property": a.prop, "seed": a.seed, "tier": a.tier, "flavor": v["flavor"], "section": v["section"],
                       "case": v["case"], "key": v["key"], "msg": v["msg"], "log": v["log"],
                       "replay": "cd /verif && python3 run.py %s --replay %s" % (a.prop, rp)}, open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (a.prop, rp))
            print("  key=%s case=%s\n  %s" % (v["key"], v["case"], v["msg"][:1500].replace("\n", "\n  ")))
            for l in v["log"][-12:]:
                print("    | " + l[:200])
        return 1
    if not ev or not events or empty:
        print("HARNESS-ERROR property=%s observed nothing (empty sections: %s)" % (a.prop, empty))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
