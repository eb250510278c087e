#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks.

  run.py <ID> [quick|thorough]   build the property's harness against /repo's working tree, run it, judge, write evidence
  run.py replay <file>           re-run the case a replay file describes and print what the monitors say
  run.py setup                   check that the toolchain needed is there and build one harness

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..": broken.  Exit 2: no verdict.
"""
import json, os, re, shutil, struct, subprocess, sys, time, glob, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(V, ".build"))
CHECKS = json.load(open(os.path.join(V, "checks.json")))
JOBS = os.cpu_count() or 4
COMMON = ["-std=gnu++17", "-g1", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
          "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern", "-w",
          "-DNATIVE", "-DUNITTEST", "-DUNIT_TEST"]
VARIANTS = {
    "release": [],
    "debug": ["-DDEBUG_SPINE", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_ASSERTIONS"],
    "double": ["-DSPN_PLATFORM_CAP_DOUBLE"], # units over double
    "log40": ["-DSPINE_LOGGING_MAX_MSG_SIZE=40"],
    # the other platform bindings, over stand-ins for their cores that record every call
    "arduino": ["-DARDUINO=10805", "-DVF_OWN_CLOCK", "-I", os.path.join(V, "harness", "arduino")],
    "arduino_esp": ["-DARDUINO=10805", "-DVF_OWN_CLOCK", "-DVF_CORE_ESP", "-I", os.path.join(V, "harness", "arduino")],
    "arduino_debug": ["-DARDUINO=10805", "-DVF_OWN_CLOCK", "-DDEBUG_SPINE", "-I", os.path.join(V, "harness", "arduino")],
    "zephyr": ["-UNATIVE", "-DZEPHYR", "-DVF_OWN_CLOCK", "-I", os.path.join(V, "harness", "zephyr")],
    "zephyr_debug": ["-UNATIVE", "-DZEPHYR", "-DVF_OWN_CLOCK", "-DDEBUG_SPINE", "-DCONFIG_LOG_RUNTIME_FILTERING", "-I", os.path.join(V, "harness", "zephyr")],
    "log12": ["-DSPINE_LOGGING_MAX_MSG_SIZE=12", "-DDEBUG_SPINE"],
}
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:handle_abort=1:halt_on_error=1:exitcode=99:"
                        "hard_rss_limit_mb=3000:max_allocation_size_mb=2000:detect_stack_use_after_return=1:"
                        "allocator_may_return_null=0:strict_string_checks=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99", TZ="UTC",
           CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_SLOPPINESS="", CCACHE_MAXSIZE="2G")


class NoVerdict(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, **kw)


def build(pid, variants):
    """compiles /repo/src/spine (current tree) and the harness; returns {variant: binary}"""
    cfg = CHECKS[pid]
    out = os.path.join(BUILD, pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "spine", "**", "*.cpp"), recursive=True))
    if not srcs:
        raise NoVerdict("no sources found under %s/src/spine" % REPO)
    mine = [os.path.join(V, "harness", "vf_main.cpp"), os.path.join(V, "harness", cfg["harness"])]
    cxx = (["ccache"] if shutil.which("ccache") else []) + ["g++"]
    jobs = []
    for v in variants:
        os.makedirs(os.path.join(out, v))
        parts = [(mine[1], ["-DVF_PART=%d" % k]) for k in range(cfg.get("parts", 1))]  # a harness slow to compile, in parts
        for s, extra in parts + [(s, []) for s in mine[:1] + srcs]:
            o = os.path.join(out, v, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, "/") + "".join(extra)) + ".o")
            flags = COMMON + VARIANTS[v[9:] if v.startswith("memcheck-") else v] + cfg.get("flags", []) + extra
            if v.startswith("memcheck-"):  # valgrind does the watching
                flags = [f for f in flags if not f.startswith(("-fsanitize", "-fno-sanitize", "-ftrivial-auto-var-init"))]
            jobs.append((v, s, o, cxx + flags +
                         ["-I", os.path.join(REPO, "src"), "-I", os.path.join(V, "harness"), "-c", s, "-o", o]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (v, s, o, c), r in zip(jobs, ex.map(lambda j: sh(j[3]), jobs)):
            if r.returncode:
                raise NoVerdict("compiling %s (%s) failed:\n%s" % (s, v, r.stdout[-4000:]))
    bins = {}
    links = []
    for v in variants:
        b = os.path.join(out, v, "harness")
        links.append(["g++"] + ([] if v.startswith("memcheck-") else ["-fsanitize=address,undefined"]) + [j[2] for j in jobs if j[0] == v] + ["-o", b])
        bins[v] = b
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for c, r in zip(links, ex.map(sh, links)):
            if r.returncode:
                raise NoVerdict("linking failed:\n" + r.stdout[-4000:])
    return bins


def known_findings(pid):
    res = {}
    p = os.path.join(V, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
        if m and m.group(1) == pid:
            res[m.group(2)] = m.group(3)
    return res


MEMCHECK = ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes", "--num-callers=20"]


def run_one(binary, out, args, timeout):
    try:
        p = subprocess.run((MEMCHECK if os.sep + "memcheck-" in binary else []) + [binary, "--out", out] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV,
                           timeout=timeout, cwd=os.path.dirname(binary))
    except subprocess.TimeoutExpired:
        return None, ""
    return p.returncode, p.stderr.decode("utf-8", "replace")


def crash_kind(err):
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|\d+|'.*?'", "", m.group(1).lower()))[:48].strip("-")
    m = re.search(r"ERROR: AddressSanitizer: ([A-Za-z0-9_-]+)", err)
    if m:
        return "asan-" + m.group(1)
    m = re.search(r"^==\d+== (\w.*)", err, re.M)
    if m:
        return "memcheck-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9A-Fa-f]+|\d+", "", m.group(1).lower()))[:48].strip("-")
    if "terminate called" in err or "SIGABRT" in err:
        return "abort"
    if "hard rss limit" in err:
        return "memory-exhausted"
    return "crash"


def position(path):
    """scenario, case and operation trace at which a harness process ended (see vf_main.cpp, Position)"""
    try:
        b = open(path, "rb").read()
    except OSError:
        return None, None, ""
    idx, n = struct.unpack("<QQ", b[:16])
    return b[16:128].split(b"\0")[0].decode(), idx, b[128:128 + n].decode("ascii", "replace")


def explore(pid, tier, seed):
    cfg = CHECKS[pid]
    t0 = time.time()
    variants = os.environ["VF_VARIANTS"].split() if os.environ.get("VF_VARIANTS") else cfg.get("variants", ["release", "debug"])
    memcheck = []
    if cfg.get("memcheck", True) and shutil.which("valgrind"):
        memcheck = ["memcheck-" + variants[0]]  # a build of its own, watched for reads of uninitialised memory as well
    bins = build(pid, variants + memcheck)
    t_build = time.time() - t0
    known = known_findings(pid)
    cases = cfg["cases"] if tier == "quick" else cfg["cases"] * cfg.get("thorough_x", 25)
    shards = max(1, JOBS // len(variants))
    limit = 780 - t_build if tier == "quick" else 5400
    found = {}  # key -> dict
    stats = {"cases": 0, "nontrivial": 0, "states": 0}
    events, samples, scn_runs = {}, [], {}

    def job(v, k):
        skip, res = [], []
        n = max(40, cases // 400 if tier == "thorough" else cases // 50) if v in memcheck else cases
        base = ["--seed", str(seed), "--cases", str(n), "--tier", tier, "--shard", str(k), "--shards", str(shards)]
        for _ in range(12):
            out = os.path.join(BUILD, pid, v, "out.%d.jsonl" % k)
            rc, err = run_one(bins[v], out, base + [x for s in skip for x in ("--skip", s)], limit)
            recs = []
            for line in open(out, errors="replace") if os.path.exists(out) else []:
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
            if v in memcheck and rc != 98:  # slow, and without long doubles: only what valgrind itself says counts
                return [(v, r) for r in recs if "done" in r]
            if rc == 0:
                return res + [(v, r) for r in recs]
            if rc is None:
                raise NoVerdict("%s shard %d of %s ran out of its %d s" % (pid, k, v, limit))
            scn, idx, trace = position(out + ".at")
            if not scn:
                raise NoVerdict("%s harness (%s) ended with %s outside any case:\n%s" % (pid, v, rc, err[-3000:]))
            one = ["--seed", str(seed), "--cases", str(n), "--tier", tier, "--only", scn, "--case", str(idx)]
            if rc == 97:  # CPU watchdog: only a hang that repeats counts
                rc2, err2 = run_one(bins[v], out + ".re", one, 300)
                if rc2 not in (97, None):
                    raise NoVerdict("case %s#%d hung once but not again" % (scn, idx))
                kind = "hang"
            else:
                kind = crash_kind(err)
            key = scn + "/" + kind
            res.append((v, {"violation": key, "cases": n, "scenario": scn, "index": idx, "message": err[-6000:],
                            "trace": trace[-4000:]}))
            res += [(v, r) for r in recs if "violation" in r]
            if key not in known:
                return res
            skip.append("%s:%d" % (scn, idx))
        return res

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for res in ex.map(lambda a: job(*a), [(v, k) for v in variants + memcheck for k in range(shards)]):
            for v, r in res:
                if "violation" in r:
                    r["variant"] = v
                    found.setdefault(r["violation"], r)
                elif "sample" in r:
                    samples.append("[%s] %s: %s" % (v, r["sample"], r["trace"]))
                elif "ran" in r:
                    scn_runs[r["scenario"]] = scn_runs.get(r["scenario"], 0) + r["ran"]
                elif "done" in r:
                    for k2 in stats:
                        stats[k2] += r[k2]
                    for k2, n in r["events"].items():
                        events[k2] = events.get(k2, 0) + n
    new = {k: r for k, r in found.items() if k not in known}
    for k, r in sorted(found.items()):
        if k in known:
            print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[k], k))
    rep_dir = os.path.join(V, "evidence", "replay")
    os.makedirs(rep_dir, exist_ok=True)
    for n, (k, r) in enumerate(sorted(new.items())):
        path = os.path.join(rep_dir, "%s-%d.json" % (pid, n))
        json.dump({"property": pid, "seed": seed, "cases": r.get("cases", cases), "tier": tier, "key": k, "variant": r["variant"],
                   "scenario": r["scenario"], "index": r["index"], "message": r["message"], "trace": r["trace"]},
                  open(path, "w"), indent=1)
        if n < 10:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  [%s] %s: %s" % (r["variant"], k, r["message"][:1500]))
            print("  trace: %s" % r["trace"][-1500:])
    missing = [e for e in cfg.get("require", []) if not events.get(e)]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
          "coverage": {"evaluations": stats["cases"], "distinct_nontrivial": stats["nontrivial"],
                       "rule": cfg["rule"] + " A case is counted once per distinct operation trace and build variant, and only if "
                               "it reached the situation named here.",
                       "samples": samples[:6] or ["none"], "distinct_states_seen": stats["states"],
                       "events_observed": dict(sorted(events.items())), "cases_per_scenario": scn_runs,
                       "builds": variants + memcheck, "build_s": round(t_build, 1)},
          "assumptions": cfg.get("assumptions", []) + ["host build with the simulated clock (NATIVE), g++ with ASan+UBSan",
                                                        "held on the executions generated for this seed, not proved beyond them"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d states, build %.0f s, total %.0f s, %d violation keys"
          % (pid, tier, seed, stats["cases"], stats["nontrivial"], stats["states"], t_build, time.time() - t0, len(new)))
    if new:
        return 1
    if missing or stats["nontrivial"] == 0:
        raise NoVerdict("monitors observed too little: missing %s" % missing)
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        r = sh(["g++", "--version"])
        if r.returncode:
            raise NoVerdict("no g++")
        print(r.stdout.splitlines()[0])
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        return 0
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        b = build(d["property"], [d["variant"]])[d["variant"]]
        out = os.path.join(BUILD, "replay.jsonl")
        rc, err = run_one(b, out, ["--seed", str(d["seed"]), "--cases", str(d["cases"]), "--tier", d["tier"],
                                   "--only", d["scenario"], "--case", str(d["index"])], 600)
        print(open(out).read(), err)
        return 0 if rc == 0 and '"violation"' not in open(out).read() else 1
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    return explore(pid, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        print("NO VERDICT: %s" % e)
        sys.exit(2)
