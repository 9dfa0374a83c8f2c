#!/usr/bin/env python3
"""Runs one property's seeded search, or a replay.

    driver.py PROP quick|thorough     search
    driver.py --replay FILE           replay one recorded failure
    driver.py --selftest              determinism of the simulator itself
"""
import json
import os
import queue
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYPY = os.environ.get("VERIF_PYTHON", "/opt/pypy-venv/bin/python")
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or max(
    1, min(8, os.cpu_count() or 1))
JOB_LIMIT = 240.0

# runs per tier; wall is a safety net far above what the runs take
BUDGET = json.load(open(os.path.join(HERE, "budget.json")))

REAL = ["pylogit (every module, unmodified, freshly imported from /repo/src for "
        "each simulated process)", "numpy", "scipy (optimisers, linear algebra, "
        "distributions)", "pandas", "statsmodels summary", "tqdm", "pickle"]
STUB = ["console (stdout/stderr)", "clock", "operating-system entropy",
        "caller threads' scheduler", "disk under the save path (in memory)",
        "optimiser answers in the adversarial runs of C13, C14, C16"]


class Worker(object):
    def __init__(self, hashseed="0"):
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(hashseed),
                   OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                   MKL_NUM_THREADS="1", PYTHONUNBUFFERED="1")
        env.pop("PYTHONPATH", None)
        self.err = open(os.path.join(work_dir(), "worker.%d.%d.err" % (
            os.getpid(), next(_ids))), "w+")
        self.p = subprocess.Popen(
            [PYPY, os.path.join(HERE, "sim", "worker.py")], env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            text=True, cwd=HERE)
        self.q = queue.Queue()
        self.seeds = []
        threading.Thread(target=self._pump, daemon=True).start()

    def _pump(self):
        for line in self.p.stdout:
            self.q.put(line)
        self.q.put(None)

    def call(self, limit=JOB_LIMIT, **msg):
        """-> result, or {"dead": reason}"""
        try:
            self.p.stdin.write(json.dumps(msg) + "\n")
            self.p.stdin.flush()
            line = self.q.get(timeout=limit)
        except queue.Empty:
            self.close()
            return {"dead": "timeout"}
        except (BrokenPipeError, OSError):
            line = None
        if line is None:
            rc = self.p.wait()
            return {"dead": "worker exited with %s: %s" % (rc, self.tail())}
        return json.loads(line)

    def tail(self):
        try:
            self.err.seek(0)
            return self.err.read()[-1500:]
        except (OSError, ValueError):
            return ""

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        except OSError:
            pass
        try:
            self.err.close()
            os.remove(self.err.name)
        except (OSError, ValueError):
            pass


def _count():
    n = 0
    while True:
        n += 1
        yield n


_ids = _count()


def work_dir():
    d = os.path.join(HERE, "work")
    os.makedirs(os.path.join(d, "replays"), exist_ok=True)
    return d


class Search(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.budget = BUDGET[prop][tier]
        self.seeds = [seed * 1000000 + i for i in range(self.budget["runs"])]
        self.done = []
        self.bad = []
        self.errors = []
        self.lock = threading.Lock()
        self.stop = False
        self.t0 = time.time()
        self.xproc = {"runs": 0, "same_digest": 0}
        # C01: some histories are also run in a second process with another
        # string-hash seed and compared result by result
        self.cross = set()
        if prop in ("C01", "C05", "C06"):
            self.cross = set(self.seeds[::7])

    def next_seed(self):
        with self.lock:
            if self.stop or not self.seeds:
                return None
            if time.time() - self.t0 > self.budget["wall"]:
                return None
            return self.seeds.pop(0)

    def loop(self, k):
        w = Worker()
        x = None
        while True:
            s = self.next_seed()
            if s is None:
                break
            w.seeds.append(s)
            cmd = "results" if s in self.cross else "run"
            r = w.call(cmd=cmd, prop=self.prop, seed=s)
            if "dead" in r:
                w.close()
                w = Worker()
                r = w.call(cmd="run", prop=self.prop, seed=s)
                if "dead" in r:
                    w.close()
                    w = Worker()
                    if r["dead"] == "timeout":
                        r = {"viol": [{"class": "hang", "op": -1, "opv": None,
                                       "detail": "run %d does not finish" % s}],
                             "plan": None, "stats": {}, "faults": {},
                             "seams": {}, "sig": "hang", "nontrivial": False,
                             "digest": 0, "other": []}
                    else:
                        r = {"error": r["dead"], "etype": "dead"}
            if "error" in r:
                with self.lock:
                    self.errors.append((s, r["error"]))
                continue
            if cmd == "results" and not r["viol"] and "blob" in r:
                if x is None:
                    x = Worker(hashseed=str(4242 + k))
                r2 = x.call(cmd="compare", prop=self.prop, seed=s,
                            blob=r.pop("blob"), digest=r["digest"])
                if "dead" in r2:
                    x.close()
                    x = None
                elif "error" not in r2:
                    with self.lock:
                        self.xproc["runs"] += 1
                        self.xproc["same_digest"] += bool(r2["same_digest"])
                    if r2["viol"]:
                        r["viol"], r["plan"] = r2["viol"], r2["plan"]
                        r["log"] = r2.get("log")
                        r["xproc"] = str(4242 + k)
            r["seed"] = s
            with self.lock:
                self.done.append(r)
                if r["viol"]:
                    self.bad.append((s, r, list(w.seeds)))
                    self.stop = True
        w.close()
        if x is not None:
            x.close()

    def run(self):
        ts = [threading.Thread(target=self.loop, args=(k,))
              for k in range(min(WORKERS, max(1, len(self.seeds))))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.wall = time.time() - self.t0
        return self


def confirm(prop, s, r, history):
    """Reproduce in a fresh process, minimise, reproduce again; write the
    replay file.  -> path, record"""
    v = r["viol"][0]
    rec = {"property": prop, "seed": s, "class": v["class"],
           "detail": v["detail"], "at_op": v.get("opv"), "kind": "plan",
           "plan": r.get("plan"), "confirmed": False}
    if v["class"] == "hang":
        rec.update(kind="seed", confirmed=True)
    elif r.get("xproc"):
        rec.update(kind="xproc", hashseed=r["xproc"])
        one = xproc(rec)
        rec["confirmed"] = any(x["class"] == v["class"] for x in one)
    else:
        w = Worker()
        one = w.call(cmd="run", plan=r["plan"])
        if any(x["class"] == v["class"] for x in one.get("viol", ())):
            m = w.call(cmd="minimise", plan=r["plan"], seconds=75,
                       limit=300, **{"class": v["class"]})
            w.close()
            for plan in ([m["plan"]] if "plan" in m else []) + [r["plan"]]:
                w = Worker()
                one = w.call(cmd="run", plan=plan)
                w.close()
                hit = [x for x in one.get("viol", ())
                       if x["class"] == v["class"]]
                if hit:
                    rec.update(plan=one["plan"], detail=hit[0]["detail"],
                               at_op=hit[0].get("opv"), digest=one["digest"],
                               log=one.get("log"), confirmed=True,
                               minimise_runs=m.get("used"))
                    break
        else:
            w.close()
            w = Worker()
            one = w.call(cmd="sequence", prop=prop, seeds=history, limit=400)
            w.close()
            rec.update(kind="sequence", seeds=history)
            rec["confirmed"] = bool(one.get("viol"))
    path = os.path.join(work_dir(), "replays", "%s-%d.json" % (prop, s))
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, sort_keys=True)
    return path, rec


def xproc(rec):
    a, b = Worker(), Worker(hashseed=rec["hashseed"])
    r = a.call(cmd="results", plan=rec["plan"])
    out = []
    if "blob" in r:
        r2 = b.call(cmd="compare", plan=rec["plan"], blob=r["blob"],
                    digest=r["digest"])
        out = r2.get("viol", [])
    a.close()
    b.close()
    return out


def replay(path):
    rec = json.load(open(path))
    print("property %s, seed %s, class %s" % (rec["property"], rec["seed"],
                                              rec["class"]))
    if rec["kind"] == "xproc":
        viol, digest = xproc(rec), None
    else:
        w = Worker()
        if rec["kind"] == "plan":
            r = w.call(cmd="run", plan=rec["plan"])
        elif rec["kind"] == "seed":
            r = w.call(cmd="run", prop=rec["property"], seed=rec["seed"])
        else:
            r = w.call(cmd="sequence", prop=rec["property"], seeds=rec["seeds"],
                       limit=600)
        w.close()
        if r.get("dead") == "timeout":
            r = {"viol": [{"class": "hang", "detail": "does not finish"}]}
        if "error" in r:
            print(r["error"])
        viol, digest = r.get("viol", []), r.get("digest")
    hit = [v for v in viol if v["class"] == rec["class"]]
    for v in hit:
        print("reproduced: %s: %s" % (v["class"], v["detail"]))
    if rec.get("digest") is not None and hit:
        print("execution digest %s the recorded one" % (
            "equals" if digest == rec["digest"] else "DIFFERS FROM"))
    if not hit:
        print("not reproduced")
        return 0
    print("VIOLATION property=%s replay=%s" % (rec["property"], path))
    return 1


def known_findings():
    """[(property, id, what)] of the defects left in place."""
    out = []
    with open(os.path.join(HERE, "known-findings.txt")) as fh:
        for line in fh:
            if line.startswith("known:"):
                _, prop, ident, what = line.strip().split(" ", 3)
                out.append((prop.split("=")[1], ident.split("=")[1], what))
    return out


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    sr = Search(prop, tier, seed).run()
    path = rec = None
    viol = []
    if sr.bad:
        s, r, h = min(sr.bad, key=lambda b: b[0])
        path, rec = confirm(prop, s, r, h)
        viol = [{"seed": s, "class": rec["class"], "detail": rec["detail"],
                 "replay": path, "confirmed": rec["confirmed"]}]
    evidence(sr, viol)
    n = len(sr.done)
    print("%s %s: %d runs in %.0f s (%.0f per hour), %d harness errors" % (
        prop, tier, n, sr.wall, n / max(sr.wall, 1e-9) * 3600, len(sr.errors)))
    if sr.bad:
        print("violation (%s): %s" % (rec["class"], rec["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    known = {}
    for r in sr.done:
        for k, v in (r["stats"].get("known") or {}).items():
            known[k] = known.get(k, 0) + v
    for fprop, ident, what in known_findings():
        if prop == fprop:
            print("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (
                prop, what, known.get(ident, 0)))
    if sr.errors:
        print("first harness error, seed %d:\n%s" % sr.errors[0])
    if not n or len(sr.errors) > 0.2 * (n + len(sr.errors)):
        print("too many harness errors: no verdict")
        return 2
    return 0


def add(into, d):
    for k, v in (d or {}).items():
        if isinstance(v, (int, float)):
            into[k] = into.get(k, 0) + v


def evidence(sr, viol):
    meta = BUDGET[sr.prop]
    sigs, faults, seams, stats = set(), {}, {}, {}
    lines = 0
    evals = 0
    nontriv = 0
    samples = []
    for r in sorted(sr.done, key=lambda r: r["seed"]):
        add(faults, r["faults"])
        add(seams, r["seams"])
        add(stats, r["stats"])
        evals += r["stats"].get("compares", 0)
        if r["nontrivial"]:
            nontriv += 1
            if r["sig"] not in sigs and len(samples) < 6:
                samples.append({"seed": r["seed"], "run": r["sig"][:300],
                                "compared": r["stats"].get("compares", 0)})
            sigs.add(r["sig"])
    n = len(sr.done)
    ev = {
        "property": sr.prop, "tier": sr.tier, "seed": sr.seed,
        "level": meta.get("level", "exploration"),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(sigs),
            "rule": meta["rule"], "samples": samples,
            "runs": n, "nontrivial_runs": nontriv,
            "runs_planned": meta[sr.tier]["runs"],
            "seed_range": [sr.seed * 1000000,
                           sr.seed * 1000000 + meta[sr.tier]["runs"] - 1],
            "runs_per_hour": round(n / max(sr.wall, 1e-9) * 3600),
            "operations": stats.get("ops", 0),
            "simulated_seconds": round(stats.get("sim_seconds", 0.0), 3),
            "clock_jumps": stats.get("clock_jumps", 0),
            "preemptions": stats.get("switches", 0),
            "restarts": stats.get("restarts", 0),
            "faults_injected": faults, "seam_calls": seams,
            "counters": stats,
            "cross_process": sr.xproc,
            "components_real": REAL, "components_stubbed": STUB,
            "harness_errors": [{"seed": s, "error": e[-400:]}
                               for s, e in sr.errors[:5]],
            "harness_error_count": len(sr.errors),
        },
        "wall_s": round(sr.wall, 2),
        "assumptions": meta.get("assumptions", []),
        "violations": viol,
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, sr.prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(d, sr.prop + ".json"))


def selftest():
    """Same seed, same execution: twice in one process, in another process, and
    under another string-hash seed."""
    bad = 0
    n = int(os.environ.get("VERIF_SELFTEST", "6"))
    for prop in sorted(BUDGET):
        a, b = Worker(), Worker(hashseed="991")
        for s in range(77, 77 + n):
            rs = [a.call(cmd="run", prop=prop, seed=s),
                  b.call(cmd="run", prop=prop, seed=s),
                  a.call(cmd="run", prop=prop, seed=s)]
            ds = [(r.get("digest"), r.get("sig"), json.dumps(r.get("stats"),
                                                            sort_keys=True))
                  for r in rs]
            if len(set(ds)) != 1 or any("error" in r for r in rs):
                bad += 1
                print("NOT DETERMINISTIC", prop, s, ds,
                      [r.get("error") for r in rs])
        a.close()
        b.close()
        print("determinism", prop, "ok" if not bad else "see above", flush=True)
    return 1 if bad else 0


def main(argv):
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    if argv[:1] == ["--selftest"]:
        return selftest()
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(argv[0], tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
