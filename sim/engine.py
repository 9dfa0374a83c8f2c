"""Execution of plans against the real library, with the general oracles.

A plan is a JSON value.  `entries` is a list of {"op": [...], "faults": [...]}.
Violations are dicts {"class": ..., "op": index, "detail": ...}.
"""
import copy
import random
import sys

import numpy as np

from . import env, oracle
from .sched import Run
from .world import World, norm, diff, key, ABSENT, BOOT_ATTRS, given_values
from .history import (Ledger, reference, expected, expected_snapshot)

CALLER_OPS = ("rng", "seed", "pyrandom", "restart")


def state_digest(st):
    return [st[0], np.array(st[1], copy=True), int(st[2]), int(st[3]), float(st[4])]


def same_state(a, b):
    # position, gauss flag, and key vector
    return (a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2] == b[2]
            and a[3] == b[3] and (not a[3] or a[4] == b[4]))


def resolve_fault(f, lines, seams):
    f = dict(f)
    if "n" in f:
        return f
    if f["at"] == "line":
        if "back" in f:
            f["n"] = max(1, lines - f.pop("back"))
        else:
            f["n"] = 1 + int(f.pop("frac") * max(1, lines - 1))
    else:
        total = seams.get(f["at"], 0)
        f["n"] = 1 + int(f.pop("frac") * total) if total else 1
        if f["n"] > total and total:
            f["n"] = total
    return f


def is_random_unseeded(w, op):
    if op[0] == "boot":
        return op[2].get("seed") is None
    if op[0] in ("fit", "pred"):
        d = w.decls.get(op[1])
        return (d is not None and d["kind"] == "Mixed Logit"
                and op[2].get("seed") is None)
    if op[0] == "bll" and len(op) > 3:
        return op[3].get("seed") is None
    return False


BOOT_TARGETS = {
    "boot": ["bootstrap_replicates"],
    "jack": ["jackknife_replicates"],
    "int:pi": ["percentile_interval"],
    "int:bca": ["bca_interval"],
    "int:abc": ["abc_interval"],
    "int:all": ["percentile_interval", "bca_interval", "abc_interval",
                "all_intervals"],
    "bll:bootstrap": ["bootstrap_log_likelihoods"],
    "bll:jackknife": ["jackknife_log_likelihoods"],
}


def boot_targets(op):
    t = op[0]
    if t == "int":
        t = "int:" + op[2]["t"]
    elif t == "bll":
        t = "bll:" + op[2]
    elif t == "give":
        return [op[2] + "_replicates"]
    return BOOT_TARGETS.get(t, [])


def boot_new_values(ledger, op):
    """Reference values of the attributes a bootstrap operation sets."""
    out = {}
    if op[0] in ("boot", "jack"):
        r = expected(ledger, op)
        out[boot_targets(op)[0]] = r
    elif op[0] == "int":
        t = op[2]["t"]
        if t == "all":
            for s, a in (("pi", "percentile_interval"), ("bca", "bca_interval"),
                         ("abc", "abc_interval")):
                o2 = ["int", op[1], dict(op[2], t=s, ctl=True)]
                out[a] = expected(ledger, o2)
            out["all_intervals"] = expected(ledger, op)
        else:
            out[boot_targets(op)[0]] = expected(ledger, op)
    elif op[0] == "give":
        cols = given_values(op)
        out[boot_targets(op)[0]] = {
            "type": "DataFrame", "columns": ["index"] + list(op[4]),
            "index": ["index"] + list(range(len(cols[0]))),
            "values": [np.array(v, dtype=float) for v in cols]}
    elif op[0] == "bll":
        r = expected(ledger, op)
        if isinstance(r, np.ndarray) or np.isscalar(r):
            r = np.reshape(r, -1)       # one replicate: a plain number
            name = op[2] + "_log_likelihoods"
            out[name] = {"type": "Series", "name": name,
                         "index": ["index"] + list(range(r.shape[0])),
                         "values": r}
    return out


class Serial(object):
    """One caller, one history, faults inside operations."""

    def __init__(self, plan, ref_op=lambda op: op):
        self.plan = plan
        self.viol = []
        self.log = []
        self.results = []
        self.ref_op = ref_op
        self.stats = {"ops": 0, "failed_ops": 0, "faults_fired": 0,
                      "torn_checks": 0, "compares": 0}

    faulted = False

    def violate(self, cls, i, detail):
        self.viol.append({"class": cls, "op": i, "detail": detail[:400],
                          "faulted": self.faulted})

    def run(self):
        plan = self.plan
        st0 = np.random.get_state()
        run = Run(clock=plan.get("clock"), entropy=plan.get("seed"))
        self.r = run
        try:
            with run:
                np.random.seed(plan.get("rng0", 20240229))
                self._go(run)
        finally:
            np.random.set_state(st0)
        self.stats["lines"] = run.lines_total
        self.stats["sim_seconds"] = env.clock.elapsed
        self.stats["clock_jumps"] = env.clock.jumps
        self.stats["faults_fired"] = sum(run.fault_counts.values())
        return self

    def _go(self, run):
        before = state_digest(np.random.get_state()), random.getstate()
        w = self.w = World()
        if not same_state(before[0], state_digest(np.random.get_state())) \
                or before[1] != random.getstate():
            self.violate("rng", -1, "importing pylogit disturbed the caller's "
                         "random stream")
            return
        led = self.led = Ledger()
        bstate = {}
        unknown = set()
        for i, e in enumerate(self.plan["entries"]):
            op = list(e["op"])
            if not self.applicable(led, op) or (
                    unknown and self.reads(led, op) & unknown):
                self.log.append([i, "skipped"])
                continue
            if op[0] == "bnew" and op[3] == "params":
                s = expected_snapshot(led, op[2])
                p = s["params"]
                from .world import n_params
                dc = led.models[op[2]]["new"][2]
                n = n_params(dc)
                vals = (p["values"] if p != ABSENT else np.zeros(n)).tolist()
                op[3] = vals
                e["op"] = op
            if op[0] in CALLER_OPS:
                if not self._caller_op(run, w, led, bstate, i, op):
                    return
                continue
            rop = self.ref_op(op)
            exp = expected(led, rop)
            faults = []
            if e.get("faults"):
                _, lines, seams = reference(led.hist(op), probe=True)
                faults = [resolve_fault(f, lines, seams) for f in e["faults"]]
                e["faults"] = faults
            amb = [x["ambient"] for x in op[2:]
                   if isinstance(x, dict) and x.get("ambient") is not None]
            if amb:
                keep = np.random.get_state()
                np.random.seed(amb[0])
                rng_before = state_digest(np.random.get_state())
                np.random.set_state(keep)
            else:
                rng_before = state_digest(np.random.get_state())
            w.u.activate()
            py_before = random.getstate()
            amb_before = env.ambient()
            run.begin_op(faults)
            exc = None
            try:
                res = w.do(op)
            except env.SimFault as ex:
                run.end_op()
                self.violate("no-progress", i, str(ex))
                return
            except BaseException as ex:
                exc = ex
                res = ("exc", type(ex).__name__)
            fired = run.end_op()
            self.results.append([i, res])
            rng_after = state_digest(np.random.get_state())
            py_same = py_before == random.getstate()
            amb = env.ambient_diff(amb_before, env.ambient())
            self.stats["ops"] += 1
            self.stats["failed_ops"] += exc is not None
            self.log.append([i, op[0], "exc:" + type(exc).__name__ if exc else "ok",
                             [(f["at"], f["n"], f["exc"], f["where"]) for f in fired]])
            if exc is not None and not fired and isinstance(
                    exc, (KeyboardInterrupt, SystemExit)):
                raise exc
            self.stats["compares"] += 1
            if not fired or exc is None:
                d = diff(res, exp)
                if d:
                    cls = ("absorbed" if fired else
                           "result-after-fault" if self.faulted else "result")
                    self.violate(cls, i, "%s: %s (observed vs reference)"
                                 % (self.opname(op), d))
                    return
                if self.plan.get("oracle"):
                    d = self._oracle(w, led, op, res, exc)
                    if d:
                        self.violate("definition", i, "%s: %s" % (
                            self.opname(op), d))
                        return
                if exc is None:
                    led.commit(rop)
                    if op[0] == "fit" and not op[2].get("just_point"):
                        unknown.discard(op[1])
            if op[0] in ("boot", "jack", "int", "bll", "bnew", "give"):
                self._boot_state(w, led, bstate, i, op, exc, fired)
            elif fired and exc is not None and op[0] == "fit" \
                    and not op[2].get("just_point"):
                self.stats["torn_checks"] += 1
                now = w.snapshot(op[1])
                if diff(now, expected_snapshot(led, op[1])) is None:
                    pass
                elif not isinstance(exp, tuple) and diff(now, exp) is None:
                    led.commit(rop)
                else:
                    d1 = diff(now, expected_snapshot(led, op[1]))
                    if self.plan.get("tolerate_torn"):
                        unknown.add(op[1])
                    else:
                        self.violate("torn", i, "%s failed with %s at %s and "
                                     "left %s" % (
                                         self.opname(op), type(exc).__name__,
                                         fired[-1]["where"] or fired[-1]["at"],
                                         d1))
                        return
            elif fired and exc is not None and op[0] == "new":
                pass
            self.faulted = self.faulted or exc is not None
            # invariant: what every object reports is what its last completed
            # estimation produced
            for m in led.models:
                if m not in w.models or m in unknown:
                    continue
                d = diff(w.snapshot(m), expected_snapshot(led, m))
                if d and exc is not None and op[0] == "fit" and op[1] == m \
                        and self.plan.get("tolerate_torn"):
                    unknown.add(m)
                    continue
                if d:
                    cls = ("torn" if exc is not None and op[0] == "fit"
                           else "state-after-fault" if self.faulted else "state")
                    self.violate(cls, i, "after %s, model %s: %s (observed vs "
                                 "reference)" % (self.opname(op), m, d))
                    return
            for b in list(bstate):
                now = w.boot_snapshot(b)
                for a in BOOT_ATTRS:
                    d = diff(now[a], bstate[b].get(a, ABSENT), a)
                    if d and not (now[a] is None and bstate[b].get(a) in (None, ABSENT)):
                        self.violate("boot-state", i, "after %s, %s: %s"
                                     % (self.opname(op), b, d))
                        return
            d = w.check_inputs()
            if d:
                self.violate("mutated", i, "after %s%s: %s (now vs as passed)" % (
                    self.opname(op), " (failed)" if exc else "", d))
                if self.plan.get("stop_on_mutation", True):
                    return
            if amb:
                self.violate("ambient-after-fault" if exc is not None else "ambient", i,
                             "%s%s left the process-wide setting %s changed" % (
                                 self.opname(op), " (failed)" if exc else "",
                                 amb))
                return
            if not py_same:
                self.violate("rng", i, "%s disturbed the caller's random module "
                             "stream" % self.opname(op))
            if is_random_unseeded(w, op):
                if exc is None and same_state(rng_before, rng_after):
                    self.violate("rng-stuck", i, "%s drew nothing from the "
                                 "caller's random stream" % self.opname(op))
            else:
                if not same_state(rng_before, rng_after):
                    self.violate("rng", i, "%s %s the caller's random stream" % (
                        self.opname(op), "disturbed"))

    def _oracle(self, w, led, op, res, exc):
        """Compare with the definition of the result (None: cannot say)."""
        if op[0] == "pred":
            s = expected_snapshot(led, op[1])
            p = s["params"]
            p = None if p == ABSENT else p["values"]
            dc = led.models[op[1]]["new"][2]
            if exc is not None:
                if oracle.expected_prediction(dc, op[2], p) is None:
                    return None
                return "raised %s: %s" % (type(exc).__name__, exc)
            d = oracle.check_prediction(dc, op[2], p, res)
        elif op[0] in ("bll", "bgrad", "int"):
            b = led.boots[op[1]]
            dc = led.models[b["m"]]["new"][2]
            now = w.boot_snapshot(op[1])

            def reps(a):
                v = now[a]
                return np.array(v["values"]).T if isinstance(v, dict) else None
            boot = reps("bootstrap_replicates")
            jack = reps("jackknife_replicates")
            if exc is not None:
                src = boot
                if op[0] in ("bll", "bgrad") and op[2] == "jackknife":
                    src = jack
                if op[0] == "int" and op[2]["t"] in ("bca", "all"):
                    src = None
                if op[0] == "int" and op[2]["t"] == "abc":
                    src = now["mle_params"]["values"]
                    if isinstance(exc, np.linalg.LinAlgError):
                        src = None
                if src is None or not np.isfinite(src).all():
                    return None
                return "raised %s: %s" % (type(exc).__name__, exc)
            if op[0] == "int":
                d = None
                t, pct = op[2]["t"], op[2].get("pct", 90)
                todo = {"pi": ["pi"], "bca": ["bca"], "abc": [],
                        "all": ["pi", "bca"]}[t]
                for x in todo:
                    if boot is None or (x == "bca" and jack is None):
                        continue
                    iv = now[{"pi": "percentile_interval",
                              "bca": "bca_interval"}[x]]
                    d = oracle.check_interval(
                        x, pct, iv, boot, jack, now["mle_params"]["values"])
                    if d:
                        break
                d = oracle.check_labels(dc, t, pct, now) or d
            else:
                r = boot if op[2] == "bootstrap" else jack
                if r is None:
                    return None
                if dc["kind"] == "Mixed Logit":
                    return None
                if op[0] == "bll":
                    d = oracle.check_log_likelihoods(dc, r, res)
                else:
                    d = oracle.check_gradient_norms(
                        dc, r, op[3] if len(op) > 3 else {}, res)
        else:
            return None
        self.stats["definitions"] = self.stats.get("definitions", 0) \
            + (d is not None)
        return d

    def _caller_op(self, run, w, led, bstate, i, op):
        """Things the caller does besides calling the library."""
        self.log.append([i, op[0]])
        w.u.activate()
        before = state_digest(np.random.get_state())
        py_before = random.getstate()
        run.begin_op()
        try:
            w.do(op)
        except Exception as ex:
            run.end_op()
            if op[0] == "restart":
                self.violate("restart", i, "saving and reloading failed: %s: %s"
                             % (type(ex).__name__, ex))
                return False
            raise
        run.end_op()
        self.stats["ops"] += 1
        if op[0] == "restart":
            self.stats["restarts"] = self.stats.get("restarts", 0) + 1
            led.boots.clear()
            bstate.clear()
            for m in led.models:
                if m not in w.models:
                    continue
                self.stats["compares"] += 1
                d = diff(w.snapshot(m), expected_snapshot(led, m))
                if d:
                    self.violate("restart", i, "model %s (%s) after reload: %s"
                                 % (m, led.models[m]["new"][2]["kind"], d))
                    return False
            if not same_state(before, state_digest(np.random.get_state())) \
                    or py_before != random.getstate():
                self.violate("rng", i, "saving, importing or loading disturbed "
                             "the random stream")
        return True

    def opname(self, op):
        if op[0] in ("fit", "pred", "ci", "smry", "print", "snap"):
            d = self.w.decls.get(op[1])
            return "%s(%s)" % (op[0], d["kind"] if d else "?")
        return op[0]

    @staticmethod
    def reads(led, op):
        """Models whose stored results this operation reads."""
        if op[0] in ("pred", "ci", "smry", "print", "snap"):
            return {op[1]}
        if op[0] == "fit" and led.models[op[1]]["new"][2]["kind"] == "Mixed Logit":
            return set()
        if op[0] == "bnew":
            return {op[2]}
        if op[0] in ("boot", "jack", "int", "bll", "bgrad", "give"):
            return {led.boots[op[1]]["m"]}
        return set()

    @staticmethod
    def applicable(led, op):
        if op[0] in ("fit", "pred", "ci", "smry", "print", "snap"):
            return op[1] in led.models
        if op[0] == "bnew":
            return op[2] in led.models
        if op[0] in ("boot", "jack", "int", "bll", "bgrad", "give"):
            return op[1] in led.boots
        return True

    def _boot_state(self, w, led, bstate, i, op, exc, fired):
        b = op[1]
        if op[0] == "bnew":
            if exc is None:
                s = w.boot_snapshot(b)
                bstate[b] = {a: (s[a] if a == "mle_params" else None)
                             for a in BOOT_ATTRS}
            return
        st = bstate[b]
        if exc is None:
            pass
        now = w.boot_snapshot(b)
        new = boot_new_values(led, op) if (exc is None or fired) else {}
        if exc is not None and not fired:
            # the reference failed the same way; what it left behind is not
            # constrained here beyond: each attribute is old or complete new
            if op[0] == "int" and op[2]["t"] == "all":
                new = boot_new_values(led, op)
        for a in boot_targets(op):
            nv = new.get(a)
            old_ok = diff(now[a], st.get(a), a) is None
            new_ok = nv is not None and not isinstance(nv, tuple) \
                and diff(now[a], nv, a) is None
            if exc is None and a in new and not new_ok:
                self.violate("boot-result", i, "%s completed but %s: %s" % (
                    op[0], a, diff(now[a], nv, a)))
                return
            if not (old_ok or new_ok):
                self.violate("torn-boot", i, "%s failed with %s and left %s"
                             % (op[0], type(exc).__name__,
                                diff(now[a], st.get(a), a)))
                return
            if new_ok and not old_ok:
                st[a] = now[a]
                if a == "bootstrap_replicates" and exc is not None:
                    led.commit(self.ref_op(op))
                if a == "jackknife_replicates" and exc is not None:
                    led.commit(self.ref_op(op))


class Concurrent(object):
    """Several caller threads.  `setup` runs serially first; then each task's
    operations run under the schedule; the oracle runs afterwards over the
    recorded history: every result must be the one the operation returns when
    it runs alone."""

    def __init__(self, plan):
        self.plan = plan
        self.viol = []
        self.log = []
        self.results = []
        self.stats = {"ops": 0, "faults_fired": 0, "compares": 0}

    def violate(self, cls, i, detail):
        self.viol.append({"class": cls, "op": i, "detail": detail[:400]})

    def run(self):
        st0 = np.random.get_state()
        run = Run(schedule=self.plan["schedule"], clock=self.plan.get("clock"),
                  entropy=self.plan.get("seed"))
        self.r = run
        try:
            with run:
                np.random.seed(self.plan.get("rng0", 20240229))
                self._go(run)
        finally:
            np.random.set_state(st0)
        self.stats["switches"] = len(run.switches)
        self.stats["lines"] = run.lines_total
        self.stats["sim_seconds"] = env.clock.elapsed
        self.stats["faults_fired"] = sum(run.fault_counts.values())
        return self

    def _go(self, run):
        w = self.w = World()
        base = Ledger()
        for e in self.plan.get("setup", []):
            op = e["op"]
            run.begin_op()
            try:
                w.do(op)
                base.commit(op)
            except Exception:
                pass
            run.end_op()
        w.u.activate()
        # materialise shared inputs before the threads start: they belong to
        # the caller, not to the library
        for t in self.plan["tasks"]:
            for e in t:
                op = e["op"]
                if op[0] == "new":
                    w.get_inputs(op[2])
                    w.df(op[2]["d"])
                if op[0] == "pred" and op[2].get("d"):
                    w.df(op[2]["d"])
        for t in self.plan["tasks"]:
            led = base.clone()
            for e in t:
                if e.get("faults"):
                    _, lines, seams = reference(led.hist(e["op"]), probe=True)
                    e["faults"] = [resolve_fault(f, lines, seams)
                                   for f in e["faults"]]
                if e["op"][0] not in CALLER_OPS:
                    led.commit(e["op"])
        rng_tasks = self.plan.get("rng_tasks", [])

        def body_for(ti, entries):
            def body(task):
                out = []
                for e in entries:
                    op = list(e["op"])
                    run.checkpoint(task)
                    if op[0] == "bnew" and op[3] == "params":
                        m = w.models.get(op[2])
                        dc = w.decls.get(op[2])
                        if m is None:
                            out.append((op, None, "skip"))
                            continue
                        from .world import n_params
                        op[3] = (m.params.values.tolist() if hasattr(m, "params")
                                 else [0.0] * n_params(dc))
                    need = op[1] if op[0] in ("fit", "pred", "ci", "smry",
                                              "print", "snap") else None
                    if op[0] == "bnew":
                        need = op[2]
                    if need is not None and need not in w.models:
                        out.append((op, None, "skip"))
                        continue
                    if op[0] in ("boot", "jack", "int", "bll", "bgrad", "give") \
                            and op[1] not in w.boots:
                        out.append((op, None, "skip"))
                        continue
                    run.begin_op(e.get("faults", ()), trace=True, task=task)
                    try:
                        res = w.do(op)
                        how = "ok"
                    except env.SimFault:
                        res, how = None, "no-progress"
                    except env.SimDeadlock:
                        res, how = None, "deadlock"
                    except BaseException as ex:
                        res = ("exc", type(ex).__name__)
                        how = "exc"
                    fired = run.end_op(task)
                    out.append((op, res, "fault" if fired else how))
                return out
            return body

        results = run.run_tasks([body_for(i, t)
                                 for i, t in enumerate(self.plan["tasks"])])
        self.results = [[[o[0][0], o[1]] for o in out] for out in results]
        for ti, out in enumerate(results):
            led = base.clone()
            rs = None
            if ti in rng_tasks:
                rs = np.random.RandomState(self.plan.get("rng0", 20240229))
            for oi, (op, res, how) in enumerate(out):
                self.stats["ops"] += 1
                self.log.append([ti, oi, op[0], how])
                where = "thread %d, op %d" % (ti, oi)
                if how == "skip":
                    continue
                if how in ("no-progress", "deadlock"):
                    self.violate(how, [ti, oi], "%s: %s" % (where, op[0]))
                    return
                if op[0] == "rng":
                    if rs is not None:
                        d = diff(res, norm(rs.rand(op[1])))
                        if d:
                            self.violate("rng", [ti, oi],
                                         "%s: caller's random stream disturbed: %s"
                                         % (where, d))
                            return
                    continue
                if op[0] == "seed":
                    if rs is not None:
                        rs = np.random.RandomState(op[1])
                    continue
                if how == "fault":
                    continue
                self.stats["compares"] += 1
                exp = expected(led, op)
                d = diff(res, exp)
                if d:
                    dc = w.decls.get(op[1]) if op[0] != "wide" else None
                    self.violate("concurrent", [ti, oi],
                                 "%s: %s%s: %s (interleaved vs alone)"
                                 % (where, op[0],
                                    "(%s)" % dc["kind"] if dc else "", d))
                    return
                if how == "ok" and op[0] == "pred" and self.plan.get("oracle"):
                    p = expected_snapshot(led, op[1])["params"]
                    d = oracle.check_prediction(
                        led.models[op[1]]["new"][2], op[2],
                        None if p == ABSENT else p["values"], res)
                    self.stats["definitions"] = self.stats.get(
                        "definitions", 0) + (d is not None)
                    if d:
                        self.violate("definition", [ti, oi], "%s: pred(%s): %s"
                                     % (where, w.decls[op[1]]["kind"], d))
                        return
                if how == "ok":
                    led.commit(op)
            for m in led.models:
                if m not in w.models:
                    continue
                # a task vouches for the models it touched; the first task
                # also for those that no task touched
                def touches(o):
                    return any(x[0][0] in ("new", "fit") and x[0][1] == m
                               for x in o)
                if not touches(out) and (
                        ti or any(touches(o) for o in results)):
                    continue
                if any(o[2] == "fault" and o[0][1] == m for o in out):
                    continue
                d = diff(w.snapshot(m), expected_snapshot(led, m))
                if d:
                    self.violate("concurrent", [ti, -1],
                                 "final state of model %s: %s (interleaved vs "
                                 "alone)" % (m, d))
                    return
        d = w.check_inputs()
        if d:
            self.violate("mutated", -1, d)
