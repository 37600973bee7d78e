#!/usr/bin/env python3
"""Decide one property by seeded deterministic simulation of the code in /repo.

  check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--time S]
  check.py --replay FILE [--trace]      rebuild and replay one recorded run
  check.py --determinism PROPERTY [N]   prove same seed => same execution (N runs, 1/3/8 jobs)

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; other: error of the check.
"""
import sys, os, json, subprocess, tempfile, shutil, time, re, concurrent.futures as cf, collections, fnmatch

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
sys.path.insert(0, SIM)
from plan import PROPS, FIELDS, DEFS, REAL, STUB, WRAPPED  # noqa

NCPU = min(8, os.cpu_count() or 1)
CXX = "g++"
CFLAGS = ["-O1", "-fexpensive-optimizations", "-g1", "-fno-pie", "-fsanitize=thread", "-DNDEBUG", "-march=haswell", "-fopenmp", "-w",
          "-include", SIM + "/thr.h", "-I" + SIM, "-I" + SIM + "/config", "-I" + REPO]
COREFLAGS = ["-O2", "-g1", "-fno-pie", "-w", "-I" + SIM]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build(prop, out):
    """Compile the property's workloads against the repository's working tree and link the simulator."""
    cfg = PROPS[prop]
    with open(out + "/wl.syms", "w") as f:
        f.write("".join("%s __wrap_%s\n" % (s, s) for s in WRAPPED))
    with open(out + "/blas.syms", "w") as f:
        f.write("".join("__real_%s %s\n" % (s, s) for s in WRAPPED))
    jobs = []
    objs = []
    for tu in cfg["tus"]:
        src, tag = tu[0], tu[1]
        extra = list(tu[2]) if len(tu) > 2 else []
        o = "%s/wl_%s_%s.o" % (out, src, tag)
        d = ["-DFTAG=" + tag]
        if tag.split("_")[0] in FIELDS:
            d.append("-DFIELD=" + FIELDS[tag.split("_")[0]])
        d += DEFS.get(tag, [])
        jobs.append(([CXX] + CFLAGS + d + extra + ["-c", "%s/%s.cpp" % (SIM, src), "-o", o], o, "wl.syms"))
        objs.append(o)
    for src, syms in (("sim_core", None), ("sim_blas", "blas.syms"), ("thr", None), ("ref", None)):
        o = "%s/%s.o" % (out, src)
        jobs.append(([CXX] + COREFLAGS + ["-c", "%s/%s.cpp" % (SIM, src), "-o", o], o, syms))
        objs.append(o)

    def one(j):
        cmd, o, syms = j
        r = sh(cmd)
        if r.returncode:
            return "compile failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:])
        if syms:
            r = sh(["objcopy", "--redefine-syms=%s/%s" % (out, syms), o])
            if r.returncode:
                return "objcopy failed: " + r.stderr
        return None
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for e in ex.map(one, jobs):
            if e:
                raise CheckError(e)
    h = out + "/h"
    r = sh([CXX, "-no-pie", "-rdynamic", "-Wl,-z,muldefs", "-o", h] + objs + ["-lopenblas", "-lgivaro", "-lgmp", "-lgmpxx", "-ldl"])
    if r.returncode:
        raise CheckError("link failed: " + r.stderr[-4000:])
    return h


def explore(h, out, cfg, seed, runs, tcap, jobs=NCPU, hashes=True, maxviol=12):
    os.makedirs(out + "/replays", exist_ok=True)
    ps = []
    for j in range(jobs):
        cmd = [h, "explore", "--workloads", cfg["workloads"], "--seed", str(seed), "--runs", str(runs), "--job", str(j), "--jobs", str(jobs),
               "--time", str(tcap), "--keepgoing", "1", "--maxviol", str(maxviol), "--replays", out + "/replays"]
        if cfg.get("raceviol"):
            cmd += ["--raceviol", "1"]
        if cfg.get("leakviol"):
            cmd += ["--leakviol", "1"]
        if cfg.get("filter"):
            cmd += ["--filter", cfg["filter"]]
        if cfg.get("cpu"):
            cmd += ["--cpu", str(cfg["cpu"])]
        if hashes:
            cmd += ["--hashes", "%s/hash.%d" % (out, j)]
        ps.append(subprocess.Popen(cmd, stdout=open("%s/out.%d" % (out, j), "w"), stderr=open("%s/err.%d" % (out, j), "w")))
    viol, stats = [], []
    for j, p in enumerate(ps):
        p.wait()
        ok = False
        for l in open("%s/out.%d" % (out, j), errors="replace"):
            if l.startswith("V "):
                viol.append(json.loads(l[2:]))
            elif l.startswith("S "):
                stats.append(json.loads(l[2:]))
                ok = True
        if not ok:
            raise CheckError("simulator job %d ended without statistics (status %s): %s" % (j, p.returncode, open("%s/err.%d" % (out, j), errors="replace").read()[-1000:]))
    return viol, stats


def replay(h, path, trace=False):
    cmd = [h, "replay", path]
    if trace:
        cmd += ["--trace", "-"]
    r = sh(cmd, timeout=700)
    l = r.stdout.split("\n")
    try:
        d = json.loads(l[0])
    except Exception:
        raise CheckError("replay gave no answer: %s %s" % (r.stdout[:300], r.stderr[:300]))
    d["trace"] = "\n".join(l[1:])
    return d


class Rep:
    """a replay file"""
    def __init__(self, path=None):
        self.head, self.par, self.cho, self.pre = [], [], [], []
        if path:
            for l in open(path):
                t = l.split()
                if not t:
                    continue
                if t[0] == "param":
                    self.par.append([t[1], int(t[2]), int(t[3]), int(t[4])])
                elif t[0] == "choice":
                    self.cho.append((int(t[1]), int(t[2])))
                elif t[0] == "preempt":
                    self.pre.append((int(t[1]), int(t[2])))
                else:
                    self.head.append(l.rstrip("\n"))

    def clone(self):
        r = Rep()
        r.head, r.par, r.cho, r.pre = list(self.head), [list(p) for p in self.par], list(self.cho), list(self.pre)
        return r

    def get(self, k):
        for l in self.head:
            if l.startswith(k + " "):
                return l.split(None, 1)[1]
        return None

    def set(self, k, v):
        self.head = [l for l in self.head if not l.startswith(k + " ")] + ["%s %s" % (k, v)]

    def write(self, path):
        with open(path, "w") as f:
            f.write("\n".join(self.head) + "\n")
            for p in self.par:
                f.write("param %s %d %d %d\n" % tuple(p))
            for c in self.cho:
                f.write("choice %d %d\n" % c)
            for c in self.pre:
                f.write("preempt %d %d\n" % c)


def minimise(h, out, rep, cls, budget):
    """shrink preemptions, schedule choices and generated parameters while the same class of violation remains"""
    t0 = time.time()
    n = [0]

    def bad(c):
        if time.time() - t0 > budget:
            return False
        n[0] += 1
        p = out + "/min.replay"
        c.write(p)
        try:
            d = replay(h, p)
        except (CheckError, subprocess.TimeoutExpired):
            return False
        return d["status"] == 1 and d["class"] == cls

    def ddmin(get, put, cur):
        items = get(cur)
        c = cur.clone()
        put(c, [])
        if items and bad(c):
            return c
        k = 2
        while len(items) >= 1 and time.time() - t0 < budget:
            size = max(1, len(items) // k)
            done = False
            for i in range(0, len(items), size):
                rest = items[:i] + items[i + size:]
                c = cur.clone()
                put(c, rest)
                if bad(c):
                    cur, items, done = c, rest, True
                    break
                if time.time() - t0 > budget:
                    break
            if not done:
                if size == 1:
                    break
                k = min(len(items), k * 2)
        return cur
    cur = rep
    for _ in range(2):
        before = (len(cur.pre), len(cur.cho), [p[1] for p in cur.par])
        cur = ddmin(lambda r: r.pre, lambda r, v: setattr(r, "pre", v), cur)
        cur = ddmin(lambda r: r.cho, lambda r, v: setattr(r, "cho", v), cur)
        for i in range(len(cur.par)):
            lo, v = cur.par[i][2], cur.par[i][1]
            cands = [lo] if v != lo else []
            if v - lo > 3:
                cands += [lo + (v - lo) // 2, v - 1]
            for x in cands:
                c = cur.clone()
                c.par[i][1] = x
                if x != cur.par[i][1] and bad(c):
                    cur = c
                    if x == lo:
                        break
        if (len(cur.pre), len(cur.cho), [p[1] for p in cur.par]) == before:
            break
    return cur, n[0]


def symbolise(h, msg):
    out = []
    for pc in re.findall(r"pc (0x[0-9a-f]+)", msg):
        r = sh(["addr2line", "-Cie", h, pc])
        out.append("%s = %s" % (pc, " < ".join(r.stdout.split("\n")[:4])))
    return out


def known_for(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == prop]


def matches(k, v):
    if not fnmatch.fnmatch(v["workload"], k.get("workload", "*")):
        return False
    if v["class"] != k["class"]:
        return False
    if k.get("msg") and not re.search(k["msg"], v["msg"]):
        return False
    for name, vals in k.get("params", {}).items():
        if v["params"].get(name) not in vals:
            return False
    return True


def read_hashes(out, jobs):
    rows = {}
    for j in range(jobs):
        p = "%s/hash.%d" % (out, j)
        if os.path.exists(p):
            for l in open(p):
                t = l.split()
                rows[int(t[0])] = t[1:]
    return rows


def run_check(prop, tier, seed, runs=None, tcap=None):
    t0 = time.time()
    cfg = PROPS[prop]
    tc = cfg[tier]
    runs = runs or tc["runs"]
    tcap = tcap or tc["time"]
    out = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        h = build(prop, out)
        tb = time.time()
        viol, stats = explore(h, out, cfg, seed, runs, tcap)
        te = time.time()
        rows = read_hashes(out, NCPU)
        if cfg.get("finding_workloads"):  # workloads with a recorded finding: explored apart, so that its hits do not end the search above
            kv, ks = explore(h, out + "/f", dict(cfg, workloads=cfg["finding_workloads"]), seed, 1600, tcap, hashes=False, maxviol=3)
            viol, stats = viol + kv, stats + ks
        # determinism audit: a sample of runs repeated in fresh processes
        audit = {"runs_repeated": 0, "mismatches": 0}
        idx = [i for i in sorted(rows) if rows[i][1] not in ("hang", "killed", "exit")]
        step = max(1, len(idx) // 24)
        sample = idx[::step][:24]

        def again(i):
            o = "%s/again.%d" % (out, i)
            cmd = [h, "one", "--index", str(i), "--workloads", cfg["workloads"], "--seed", str(seed), "--hashes", o, "--replays", out]
            if cfg.get("raceviol"):
                cmd += ["--raceviol", "1"]
            if cfg.get("leakviol"):
                cmd += ["--leakviol", "1"]
            if cfg.get("filter"):
                cmd += ["--filter", cfg["filter"]]
            r = sh(cmd)
            case = None
            for l in r.stdout.split("\n"):
                if l.startswith("R "):
                    case = json.loads(l[2:])
            try:
                return open(o).read().split()[1:], case
            except OSError:
                return None, case
        with cf.ThreadPoolExecutor(NCPU) as ex:
            samp = []
            for i, (r, case) in zip(sample, ex.map(again, sample)):
                audit["runs_repeated"] += 1
                if case and len(samp) < 4:
                    samp.append({"run": i, "workload": case["workload"], "run_seed": case["seed"], "case": case["params"], "schedule_choices": case["nchoices"],
                                 "preemptions": case["npreempt"], "outcome": rows[i][1], "trace_hash": rows[i][2], "interleaving_hash": rows[i][3]})
                if r != rows[i]:
                    audit["mismatches"] += 1
        # gate, classify
        known = known_for(prop)
        hit = collections.OrderedDict()
        fresh = collections.OrderedDict()
        for v in sorted(viol, key=lambda v: (v["nchoices"] + v["npreempt"], v["index"])):
            for n, k in enumerate(known):
                if matches(k, v):
                    hit.setdefault(n, v)
                    break
            else:
                fresh.setdefault((v["workload"], v["class"]), []).append(v)
        code = 0
        reported = 0
        gate_fail = []
        # a crash, a hang or an abort may depend on what a stray access happened to hit: prefer the classes that name the fault itself
        order = sorted(fresh.items(), key=lambda kv: {"hang": 3, "killed": 3, "exit": 2, "crash": 1, "abort": 1}.get(kv[0][1], 0))
        for (wl, cls), vs in order:
            if reported >= 2:
                break
            for v in vs[:6]:
                a = replay(h, v["replay"])
                b = replay(h, v["replay"])
                soft = cls in ("hang", "killed", "exit")
                if a["status"] != 1 or a["class"] != cls or b["class"] != cls or (not soft and not (a["hash"] == b["hash"] == v["hash"])):
                    gate_fail.append((v, a, b))
                    continue
                rep, tries = minimise(h, out, Rep(v["replay"]), cls, 8 if soft else tc.get("minimise", 25))
                os.makedirs(VERIF + "/replays", exist_ok=True)
                path = "%s/replays/%s-%s-%s-%d.replay" % (VERIF, prop, wl, cls, v["index"])
                rep.set("property", prop)
                rep.write(path)
                r1 = replay(h, path)
                if r1["status"] != 1 or r1["class"] != cls:
                    rep = Rep(v["replay"])
                    rep.set("property", prop)
                    rep.write(path)
                    r1 = replay(h, path)
                rep.set("hash", r1["hash"])
                rep.write(path)
                r2 = replay(h, path, trace=True)
                with open(path + ".trace", "w") as f:
                    f.write("%s\n%s\n%s\n" % (r2["msg"], "\n".join(symbolise(h, r2["msg"])), r2["trace"]))
                print("violated: %s [%s] %s" % (wl, cls, r2["msg"]))
                for s in symbolise(h, r2["msg"]):
                    print("   ", s)
                print("    seed %d run %d; minimised to %d schedule choices, %d preemptions in %d replays; replayed %s" % (
                    seed, v["index"], len(rep.cho), len(rep.pre), tries, "exactly (hash %s)" % r2["hash"] if r2["hash"] == r1["hash"] else "same class"))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                sys.stdout.flush()
                code = 1
                reported += 1
                break
        if code == 0 and gate_fail:
            # What a stray access reads can depend on the simulator's own frames, which differ when recorded choices are
            # played back instead of being drawn. The seed itself is then the replay: the same draws, the same execution.
            for v, a, b in gate_fail:
                rep = Rep(v["replay"])
                rep.set("property", prop)
                rep.set("byseed", 1)
                os.makedirs(VERIF + "/replays", exist_ok=True)
                path = "%s/replays/%s-%s-%s-%d.replay" % (VERIF, prop, v["workload"], v["class"], v["index"])
                rep.write(path)
                r1, r2 = replay(h, path), replay(h, path, trace=True)
                if r1["status"] == 1 and r1["class"] == r2["class"] == v["class"] and r1["hash"] == r2["hash"]:
                    with open(path + ".trace", "w") as f:
                        f.write("%s\n%s\n%s\n" % (r2["msg"], "\n".join(symbolise(h, r2["msg"])), r2["trace"]))
                    print("violated: %s [%s] %s" % (v["workload"], v["class"], r2["msg"]))
                    for s in symbolise(h, r2["msg"]):
                        print("   ", s)
                    print("    seed %d run %d; replayed from its seed exactly (hash %s)" % (seed, v["index"], r2["hash"]))
                    print("VIOLATION property=%s replay=%s" % (prop, path))
                    sys.stdout.flush()
                    code = 1
                    reported += 1
                    break
        if code == 0 and gate_fail:
            v, a, b = gate_fail[0]
            raise CheckError("a reported violation did not replay (simulator not deterministic?): run %d %s: %s / replay: %s" % (v["index"], v["class"], v["msg"], a.get("class")))
        for n, k in enumerate(known):
            if n in hit:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        # evidence
        cnt = collections.Counter()
        per = collections.Counter()
        for s in stats:
            cnt.update(s["counters"])
            per.update(s["per_workload"])
        total = sum(s["runs"] for s in stats)
        skips = sum(s["skips"] for s in stats)
        inter = len(set(r[3] for r in rows.values()))
        nontriv = len(set((r[0], r[2]) for r in rows.values() if r[1] != "skip"))
        wall = te - tb
        ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
              "coverage": {
                  "evaluations": total, "distinct_nontrivial": nontriv,
                  "rule": "one evaluation = one simulated run: (master seed, run index) fixes the generated operation, its operands, every tuning threshold, team size, "
                          "schedule, preemption point, heap content and fault; distinct = different trace hash (all decisions, all memory-access preemption points and the result); "
                          "runs whose generated case lies outside the property's domain (%d) are not counted" % skips,
                  "samples": samp,
                  "distinct_interleavings": inter,
                  "interleaving_measure": "distinct hashes of the sequence of (task start, executing thread, context switch, preemption) events of a run",
                  "runs_per_hour": int(total / max(wall, 1e-3) * 3600), "seeds_per_hour": int(total / max(wall, 1e-3) * 3600),
                  "simulated_steps": sum(s["sim_us"] for s in stats), "simulated_time_note": "simulated time is counted in scheduler steps; the simulated wall clock advances only when it is read",
                  "context_switches": sum(s["switches"] for s in stats), "simulated_tasks": sum(s["tasks"] for s in stats), "parallel_regions": sum(s["parallels"] for s in stats),
                  "instrumented_memory_accesses": sum(s["accesses"] for s in stats),
                  "faults_injected": {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith("fault:")},
                  "probes": {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith("probe:")},
                  "runs_per_workload": dict(sorted(per.items())),
                  "determinism_audit": audit,
                  "real_code": REAL, "stubbed": STUB,
                  "build_s": round(tb - t0, 1), "explore_s": round(wall, 1),
                  "known_findings_seen": [known[n]["what"] for n in hit]},
              "assumptions": cfg.get("assumptions", []) + ["schedules of the OpenMP 4.5 task model as implemented by the simulator (sequentially consistent memory, preemption at instrumented accesses)",
                                                             "BLAS, GMP and Givaro are trusted"],
              "wall_s": round(time.time() - t0, 1), "violations": reported}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed=%d: %d runs (%d distinct, %d interleavings) in %.0fs, build %.0fs, %d violation(s), audit %d/%d ok, faults %s" % (
            prop, tier, seed, total, nontriv, inter, wall, tb - t0, reported, audit["runs_repeated"] - audit["mismatches"], audit["runs_repeated"],
            sum(v for k, v in cnt.items() if k.startswith("fault:"))))
        return code
    finally:
        shutil.rmtree(out, ignore_errors=True)


def determinism(prop, n):
    cfg = PROPS[prop]
    out = tempfile.mkdtemp(prefix="verif-det-%s-" % prop)
    try:
        h = build(prop, out)
        ref = None
        for jobs in (8, 3, 1):
            explore(h, out, cfg, 99, n, 1e9, jobs=jobs, maxviol=1 << 30)
            rows = read_hashes(out, jobs)
            if ref is None:
                ref = rows
            bad = [i for i in ref if rows.get(i) != ref[i]]
            print("%s: %d runs with %d jobs: %d differ" % (prop, len(rows), jobs, len(bad)), bad[:5], [(ref[i], rows.get(i)) for i in bad[:2]])
            if bad:
                return 1
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--replay":
        rep = Rep(a[1])
        prop = rep.get("property")
        out = tempfile.mkdtemp(prefix="verif-replay-")
        try:
            h = build(prop, out)
            r = replay(h, a[1], trace="--trace" in a)
            same = r["hash"] == rep.get("hash")
            print("class=%s recorded=%s hash=%s recorded=%s" % (r["class"], rep.get("class"), r["hash"], rep.get("hash")))
            print(r["msg"])
            for s in symbolise(h, r["msg"]):
                print("   ", s)
            if "--trace" in a:
                print(r["trace"])
            if r["status"] == 1:
                print("VIOLATION property=%s replay=%s%s" % (prop, a[1], "" if same else " (same tree: hash differs)"))
                return 1
            return 0
        finally:
            shutil.rmtree(out, ignore_errors=True)
    if a[0] == "--determinism":
        return determinism(a[1], int(a[2]) if len(a) > 2 else 2000)
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    runs = tcap = None
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seed":
            seed = int(a[i + 1])
        elif a[i] == "--runs":
            runs = int(a[i + 1])
        elif a[i] == "--time":
            tcap = float(a[i + 1])
        i += 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return run_check(prop, tier, seed, runs, tcap)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(3)
