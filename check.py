#!/usr/bin/env python3
"""Decides one property by deterministic simulation with fault injection.

  check.py C04                     quick or thorough by VERIF_TIER, seeds from VERIF_SEED
  check.py C04 --replay FILE       re-executes a recorded violation; exit 1 if it shows again
  check.py C04 --determinism N     runs N seeds twice in different processes, compares the logs

Builds the simulator and /repo's headers from the working tree, runs many seeds in parallel,
and, for a violation: reproduces it in fresh processes, minimises its choice sequence, and
writes a replay file that reproduces it exactly.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS, FLAVOURS  # noqa: E402

REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "_build"))
REPLAY = os.path.join(VERIF, "_replay")
CPUS = max(1, min(8, len(os.sched_getaffinity(0))))


def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def tree(d):
    out = []
    for base, _, files in os.walk(d):
        out += [os.path.join(base, f) for f in files]
    return out


def build(prop):
    """Compiles the property's simulator from the working tree; returns the binary."""
    cfg = PROPS[prop]
    fl = FLAVOURS[cfg["flavour"]]
    cxx, flags, link = fl["cxx"], [x.replace("@REPO", REPO).replace("@SIM", SIM) for x in fl["flags"]], fl["link"]
    common = tree(os.path.join(REPO, "include"))
    simhdr = [p for p in tree(SIM) if p.endswith((".hpp", ".h"))]
    units = []
    for u in cfg["units"]:
        src, _, defs = u.partition(":")
        units.append((u.replace(":", "_").replace("=", "").replace("-D", ""), os.path.join(SIM, src), defs.split(",") if defs else []))
    env_key = cxx + " ".join(flags)
    os.makedirs(BUILD, exist_ok=True)

    def compile_one(t):
        name, src, defs = t
        pure = os.path.basename(src) in ("driver.cpp", "alloc.cpp", "tsrt.cpp")   # do not include /repo
        deps = simhdr + [src] + ([] if pure else common)
        obj = os.path.join(BUILD, "%s.%s.%s.o" % (cfg["flavour"], name, digest(deps, env_key + " ".join(defs))))
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            fl_ = fl.get("pure_flags", flags) if pure else flags
            fl_ = [x.replace("@REPO", REPO).replace("@SIM", SIM) for x in fl_]
            r = subprocess.run([cxx, *fl_, *defs, "-c", src, "-o", tmp], capture_output=True, text=True)
            if r.returncode:
                return None, "\n".join(l[:300] for l in r.stderr.splitlines() if "error" in l)[:4000] or r.stderr[-3000:]
            os.replace(tmp, obj)
        return obj, ""

    with cf.ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(compile_one, units))
    for o, err in res:
        if o is None:
            die("the simulator does not compile against this tree:\n" + err)
    objs = [o for o, _ in res]
    exe = os.path.join(BUILD, "%s.%s" % (prop, digest(objs, " ".join(link))))
    if not os.path.exists(exe):
        r = subprocess.run([cxx, *fl["linkflags"], *objs, "-o", exe + ".tmp", *link], capture_output=True, text=True)
        if r.returncode:
            die("link failed:\n" + r.stderr[-4000:])
        os.replace(exe + ".tmp", exe)
    return exe


def rd(path):
    with open(path) as f:
        return json.load(f)


class Runner:
    def __init__(self, exe, work):
        self.exe, self.work, self.n = exe, work, 0

    def tmp(self, ext):
        self.n += 1
        return os.path.join(self.work, "t%d.%s" % (self.n, ext))

    def call(self, *args, timeout=900):
        subprocess.run([self.exe, *map(str, args)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)

    def one(self, seed, idx):
        o = self.tmp("json")
        self.call("one", seed, idx, o)
        return rd(o)

    def replay(self, choices):
        c, o = self.tmp("ch"), self.tmp("json")
        with open(c, "w") as f:
            f.write(" ".join(map(str, choices)))
        self.call("replay", c, o)
        return rd(o)

    def sequence(self, seed, first, count, stride):
        o = self.tmp("json")
        self.call("run", seed, first, count, stride, 600, o)
        return rd(o)

    def shrink(self, choices, cls, secs):
        c, o = self.tmp("ch"), self.tmp("json")
        with open(c, "w") as f:
            f.write(" ".join(map(str, choices)))
        self.call("shrink", c, cls, secs, o, timeout=secs + 300)
        return rd(o)


def confirm(rn, prop, seed, fail, first, stride, shrink_s):
    """Reproduce in fresh processes, minimise, and return the replay record (or None)."""
    idx, cls = fail["run"], fail["class"]
    a, b = rn.one(seed, idx), rn.one(seed, idx)
    rec = {"property": prop, "seed": seed, "run": idx, "class": cls, "message": fail["msg"]}
    if cls == "hang" and not (a["class"] == b["class"] == "hang"):
        return "slow"      # it finishes when run alone: a loaded machine, not a hang
    if a["outcome"] == 2 and a["class"] == cls and b["outcome"] == 2 and b["class"] == cls:
        rec.update(kind="choices", original_choices=a["nchoices"], message=a["msg"])
        best, res = a["choices"], a
        try:
            m = rn.shrink(a["choices"], cls, shrink_s)
            if m.get("ok"):
                r1, r2 = rn.replay(m["choices"]), rn.replay(m["choices"])
                if all(x["outcome"] == 2 and x["class"] == cls for x in (r1, r2)):
                    best, res = m["choices"], r1
                    rec["minimise_attempts"] = m["tried"]
        except subprocess.TimeoutExpired:
            pass
        rec.update(choices=best, message=res["msg"], hash=res["hash"], events=res["events"], trace=res["trace"].split("\n"))
        return rec
    # The run alone does not show it: state carried over from earlier runs of the process (the
    # library keeps something between calls). The schedule is then the sequence of runs.
    count = (idx - first) // stride + 1
    r1 = rn.sequence(seed, first, count, stride)
    if not (r1["outcome"] == 2 and r1["class"] == cls and r1["run"] == idx):
        return None
    lo = first
    step = count // 2
    while step >= 1 and lo < idx:      # drop leading runs that are not needed
        cand = lo + step * stride
        if cand <= idx:
            r = rn.sequence(seed, cand, (idx - cand) // stride + 1, stride)
            if r["outcome"] == 2 and r["class"] == cls and r["run"] == idx:
                lo = cand
                continue
        step //= 2
    n = (idx - lo) // stride + 1
    r1, r2 = rn.sequence(seed, lo, n, stride), rn.sequence(seed, lo, n, stride)
    if not all(x["outcome"] == 2 and x["class"] == cls and x["run"] == idx for x in (r1, r2)):
        return None
    rec.update(kind="sequence", first=lo, stride=stride, count=n, message=r1["msg"], hash=r1["hash"],
               trace=["runs %d..%d step %d of seed %d in one process" % (lo, idx, stride, seed)])
    return rec


def known_findings(prop):
    p, out = os.path.join(VERIF, "known-findings.txt"), []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                # known: property=<id> match=<text of the violation message> :: <what fails>
                body = line.split(" ", 2)[2]
                match, _, what = body.partition(" :: ")
                out.append((match[len("match="):], what))
    return out


def do_replay(prop, path):
    rn = Runner(build(prop), work_dir(prop))
    rec = rd(path)
    if rec["kind"] == "choices":
        r = rn.replay(rec["choices"])
        print(r["trace"])
    else:
        r = rn.sequence(rec["seed"], rec["first"], rec["count"], rec["stride"])
    print("class=%s hash=%s message=%s" % (r["class"], r["hash"], r["msg"]))
    if r["outcome"] == 2:
        print("exact=%s" % (r["class"] == rec["class"] and r["hash"] == rec["hash"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("the recorded violation does not occur on this tree")
    return 0


def work_dir(prop):
    w = os.path.join(BUILD, "work.%s.%d" % (prop, os.getpid()))
    os.makedirs(w, exist_ok=True)
    return w


def run_workers(exe, work, seed, total, secs):
    """CPUS processes share the run indexes; stops early at the first violation."""
    W = CPUS
    procs = []
    for w in range(W):
        out = os.path.join(work, "w%d.json" % w)
        cnt = (total - w + W - 1) // W
        p = subprocess.Popen([exe, "run", str(seed), str(w), str(cnt), str(W), str(secs), out], stdout=subprocess.DEVNULL,
                             stderr=subprocess.DEVNULL, start_new_session=True)
        procs.append([p, out, None])
    deadline = time.time() + secs + 120
    bad_at = None
    while any(x[2] is None for x in procs):
        for x in procs:
            if x[2] is None and x[0].poll() is not None:
                x[2] = rd(x[1]) if os.path.exists(x[1]) else {"outcome": 0, "class": "harness-worker", "msg": "worker died", "runs_done": 0, "run": -1, "sim_time_us": 0}
                if x[2]["outcome"] == 2 and bad_at is None:
                    bad_at = time.time()
        if (bad_at and time.time() > bad_at + 3) or time.time() > deadline:
            for x in procs:
                if x[2] is None:
                    try:
                        os.killpg(x[0].pid, 9)
                    except ProcessLookupError:
                        pass
                    x[0].wait()
                    x[2] = {"outcome": 0, "class": "stopped", "msg": "", "runs_done": 0, "run": -1, "sim_time_us": 0}
        time.sleep(0.05)
    return [x[2] for x in procs], W


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--determinism", type=int)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--secs", type=float)
    a = ap.parse_args()
    prop = a.prop
    if prop not in PROPS:
        die("unknown property " + prop)
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    if a.replay:
        try:
            return do_replay(prop, os.path.abspath(a.replay))
        finally:
            shutil.rmtree(work_dir(prop), ignore_errors=True)
    exe = build(prop)
    if a.determinism:
        def h(f):
            return subprocess.run([exe, "hashes", str(seed), "0", str(a.determinism), "1"], capture_output=True, text=True).stdout
        with cf.ThreadPoolExecutor(4) as ex:
            outs = list(ex.map(h, range(4)))
        same = all(o == outs[0] for o in outs) and outs[0].count("\n") == a.determinism
        print("determinism: %d runs x 4 processes: %s" % (a.determinism, "identical" if same else "DIFFERENT"))
        return 0 if same else 2
    work = work_dir(prop)
    try:
        return explore(prop, cfg, exe, work, seed, tier, a, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def explore(prop, cfg, exe, work, seed, tier, a, t0):
    runs, secs = cfg[tier]
    if a.runs:
        runs = a.runs
    if a.secs:
        secs = a.secs
    build_s = time.time() - t0
    t1 = time.time()
    res, stride = run_workers(exe, work, seed, runs, secs)
    explore_s = time.time() - t1

    counters, states, logs = {}, set(), set()
    for w in range(stride):
        p = os.path.join(work, "w%d.json" % w)
        if os.path.exists(p + ".cov"):
            for k, v in rd(p + ".cov")["counters"].items():
                counters[k] = counters.get(k, 0) + v
        if os.path.exists(p + ".states"):
            b = open(p + ".states", "rb").read()
            states.update(struct.unpack("<%dQ" % (len(b) // 8), b[: len(b) // 8 * 8]))
        if os.path.exists(p + ".logs"):
            b = open(p + ".logs", "rb").read()
            logs.update(struct.unpack("<%dQ" % (len(b) // 8), b[: len(b) // 8 * 8]))
    done = sum(r["runs_done"] for r in res)
    simtime = sum(r.get("sim_time_us", 0) for r in res)

    fails = [(w, r) for w, r in enumerate(res) if r["outcome"] == 2]
    harness = [r for _, r in fails if r["class"].startswith("harness")] + [r for r in res if r["class"] == "harness-worker"]
    rn = Runner(exe, work)
    record, unconfirmed, known = None, [], []
    findings = known_findings(prop)
    for w, r in sorted(fails, key=lambda x: x[1]["run"]):
        if r["class"].startswith("harness"):
            continue
        hit = [what for m, what in findings if m and m in r["msg"]]
        if hit:
            known += [x for x in hit if x not in known]
            continue
        record = confirm(rn, prop, seed, r, w, stride, cfg.get("shrink_s", 40))
        if record == "slow":
            record = None
            continue
        if record:
            break
        unconfirmed.append(r)

    # a few cases of this run, written out
    samples = []
    for i in range(3):
        try:
            s = rn.one(seed, i * 7 + 1)
            samples.append({"seed": seed, "run": i * 7 + 1, "choices": s["nchoices"], "log_hash": s["hash"], "trace": s["trace"].split("\n")[:40]})
        except Exception as e:  # noqa: BLE001
            samples.append({"error": str(e)})
    det = None
    if not record:
        h = [subprocess.run([exe, "hashes", str(seed), "0", "40", "3"], capture_output=True, text=True).stdout for _ in range(2)]
        det = h[0] == h[1] and h[0].count("\n") == 40
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(logs),
            "rule": cfg["rule"],
            "samples": samples,
            "simulated_runs": done,
            "seeds": "run seeds derived from VERIF_SEED=%d, indexes 0..%d" % (seed, runs - 1),
            "runs_per_hour": int(done / max(explore_s, 1e-3) * 3600),
            "seeds_per_hour": int(done / max(explore_s, 1e-3) * 3600),
            "simulated_time_s": simtime / 1e6,
            "faults_injected": {k: v for k, v in sorted(counters.items()) if k.startswith("fault.")},
            "operations": {k: v for k, v in sorted(counters.items()) if k.startswith("op.")},
            "probes_reached": {k: v for k, v in sorted(counters.items()) if not k.startswith(("fault.", "op."))},
            "distinct_states": len(states),
            "distinct_states_measure": cfg["measure"],
            "real_code": cfg["real"],
            "stubs": cfg["stubs"],
            "determinism_recheck": "40 seeds executed in two processes, logs " + ("identical" if det else "not compared" if det is None else "DIFFERENT"),
            "build_s": round(build_s, 1), "explore_s": round(explore_s, 1),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if record else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    def write_evidence():
        p = os.path.join(VERIF, "evidence", prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)

    write_evidence()
    print("%s %s: %d runs, %d distinct states, %.0f s simulated, %.1f s wall (build %.1f s)" % (prop, tier, done, len(states), simtime / 1e6, time.time() - t0, build_s))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if record:
        os.makedirs(REPLAY, exist_ok=True)
        path = os.path.join(REPLAY, "%s-%d-%d.json" % (prop, seed, record["run"]))
        with open(path, "w") as f:
            json.dump(record, f, indent=1)
        print("class: %s\nmessage: %s" % (record["class"], record["message"][:1500]))
        print("replay: python3 check.py %s --replay %s" % (prop, path))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if unconfirmed:
        die("a violation did not reproduce: " + json.dumps(unconfirmed[0])[:1500])
    if harness:
        die("simulator error: " + json.dumps(harness[0])[:1500])
    if det is False:
        print("note: the same seeds gave different logs: the library's behaviour is not repeatable on this tree")
    if done == 0:
        die("no run finished")
    return 0


if __name__ == "__main__":
    sys.exit(main())
