#!/usr/bin/env python3
"""Mutation testing of the checks themselves (a development tool; no check uses it).

  mutate.py WORKDIR FILE[,FILE..] CHECK[,CHECK..] [max [workers]]

Makes small semantic changes to FILE (relative to /repo/src/spine) in scratch copies under WORKDIR and runs the given
checks against each; prints the changes that no check noticed."""
import concurrent.futures as cf, os, random, re, shutil, subprocess, sys, threading, queue
W = sys.argv[1]; FILES = sys.argv[2].split(","); CHECKS = sys.argv[3].split(",")
MAX = int(sys.argv[4]) if len(sys.argv) > 4 else 60
NW = int(sys.argv[5]) if len(sys.argv) > 5 else 3
SRC = "/repo/src/spine/"
SWAPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
         (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" % ", " / "),
         (r"\+\+", "--"), (r"--", "++"), (r" \+= ", " -= "), (r" -= ", " += "), (r" \*= ", " /= "), (r" /= ", " *= "),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\bmin<", "max<"), (r"\bmax<", "min<"),
         (r"!(?=[a-z_(])", ""), (r"\bstd::ceil", "std::floor"), (r"\bstd::floor", "std::ceil"), (r"\bstd::round", "std::floor"),
         (r"std::move\(([^()]*)\)", r"(\1)"), (r"first", "last"), (r"front", "back"), (r"back", "front"),
         (r"\b(\d+)(?=[^\w.\"]|$)", lambda m: str(int(m.group(1)) + 1)), (r"\b([1-9]\d*)(?=[^\w.\"]|$)", lambda m: str(int(m.group(1)) - 1)),
         (r"\b(\d+\.\d+)", lambda m: str(float(m.group(1)) * 1.25 + 0.001))]

def mutants(f):
    lines = open(SRC + f).read().split("\n")
    out, seen, comment = [], set(), False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"): comment = True
        if comment:
            if "*/" in s: comment = False
            continue
        if not s or s.startswith(("//", "#", "*", "namespace", "using", "template", "spn_assert", "SPN_DBG", "DBG", "static_assert", "spn_expect", "LOG(", "friend", "public:", "private:", "struct", "class")): continue
        code = l.split("//")[0]
        cand = []
        for a, b in SWAPS:
            for m in re.finditer(a, code):
                new = code[:m.start()] + (m.expand(b) if isinstance(b, str) else b(m)) + code[m.end():]
                cand.append(new)
        if s.endswith(";") and not re.match(r"(return|break|continue|case|default|\}|const |auto |constexpr |static )", s) and ("(" in s or "=" in s or "++" in s or "--" in s):
            cand.append(re.match(r"\s*", l).group(0) + ";")
        m = re.match(r"(.*\breturn )([^;]+);(.*)$", code)
        if m and "{" not in m.group(2): cand.append("%s!(%s);%s" % m.groups())
        m = re.match(r"(\s*(?:\} else )?if \()(.*)(\).*)$", code)
        if m: cand.append(m.group(1) + "!(" + m.group(2) + ")" + m.group(3)); cand.append(m.group(1) + "false && (" + m.group(2) + ")" + m.group(3))
        m = re.match(r"(\s*)(return [^;]+;|break;|continue;)$", code)
        if m: cand.append(m.group(1) + ";")
        for c in cand:
            if c != code and (n, c) not in seen:
                seen.add((n, c)); out.append((f, n, l, c))
    return out

def main():
    ms = [m for f in FILES for m in mutants(f)]
    random.Random(7).shuffle(ms)
    total = len(ms); ms = ms[:MAX]
    print("%d mutants of %d" % (len(ms), total), flush=True)
    pool = queue.Queue()
    for k in range(NW):
        d = "%s/w%d" % (W, k)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/repo")
        shutil.copytree("/repo/src", d + "/repo/src")
        shutil.copytree("/verif", d + "/verif", ignore=shutil.ignore_patterns(".git", ".build", "evidence", "seeded"))
        os.makedirs(d + "/verif/evidence")
        pool.put(d)
    lock = threading.Lock(); stat = {"killed": 0, "survived": 0, "invalid": 0, "silent": 0}
    def work(m):
        f, n, old, new = m
        d = pool.get()
        try:
            p = d + "/repo/src/spine/" + f
            L = open(SRC + f).read().split("\n"); L[n] = new
            open(p, "w").write("\n".join(L))
            env = dict(os.environ, VF_REPO=d + "/repo", VF_BUILD=d + "/build")
            res, by = "survived", []
            for c in CHECKS:
                try:
                    r = subprocess.run(["python3", d + "/verif/run.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=1000)
                except subprocess.TimeoutExpired:
                    res = "silent"; by.append(c + ":timeout"); continue
                if r.returncode == 1: res = "killed"; break
                if r.returncode == 2:
                    if "compiling" in r.stdout or "linking" in r.stdout: res = "invalid"; break
                    res = "silent"; by.append(c + ":" + r.stdout.strip().split("\n")[-1][:200])
            shutil.copy(SRC + f, p)
        finally:
            pool.put(d)
        with lock:
            stat[res] += 1
            if res in ("survived", "silent"):
                print("%s %s:%d\n   - %s\n   + %s  %s" % (res.upper(), f, n + 1, old.strip(), new.strip(), by), flush=True)
    with cf.ThreadPoolExecutor(NW) as ex: list(ex.map(work, ms))
    print(stat, flush=True)
    for k in range(NW): shutil.rmtree("%s/w%d" % (W, k), ignore_errors=True)
main()
