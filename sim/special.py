"""Executors for the properties that need their own kind of run: the simulated
disk (save), the adversarial optimiser, and the resampling reference."""
import pickle
import random

import numpy as np
import pandas as pd

from . import disk as sd
from . import env
from .ref import RefModel, param_names
from .sched import Run
from .world import (World, model_inputs, init_array, n_params, norm, diff,
                    param_blocks, companion, key, ABSENT, extraction)


class Base(object):
    def __init__(self, plan):
        self.plan = plan
        self.viol = []
        self.log = []
        self.stats = {"ops": 0, "compares": 0, "faults_fired": 0}

    def violate(self, cls, i, detail):
        self.viol.append({"class": cls, "op": i, "detail": detail[:400]})

    def run(self):
        st0 = np.random.get_state()
        run = Run(schedule=self.plan.get("schedule"),
                  clock=self.plan.get("clock"))
        self.r = run
        try:
            with run:
                np.random.seed(self.plan.get("rng0", 20240229))
                self._go(run)
        finally:
            np.random.set_state(st0)
        self.stats["lines"] = run.lines_total
        self.stats["sim_seconds"] = env.clock.elapsed
        self.stats["faults_fired"] = sum(run.fault_counts.values())
        return self


# --------------------------------------------------------------------------
# Saving under crashes, full disks and power loss
# --------------------------------------------------------------------------
class SaveRun(Base):
    """old: model saved before; new: model saved while things go wrong.
    Whatever happens, the file holds the complete old or the complete new
    model (or is absent when there was none), and an acknowledged save is the
    new one."""
    PATH = sd.ROOT + "/d/model.pkl"

    def __init__(self, plan):
        super(SaveRun, self).__init__(plan)
        self.litter = set()

    def content(self, data):
        """Which model a file content is: 'absent', 'A', 'B', ... or 'torn'."""
        if data is None:
            return "absent"
        for n, blob in self.blobs.items():
            if blob == data:
                return n
        saved = {k: v for k, v in __import__("sys").modules.items()
                 if k == "pylogit" or k.startswith("pylogit.")}
        cur, env.current = env.current, None
        try:
            self.w.u.activate()
            try:
                obj = pickle.loads(data)
            except Exception as e:
                return "torn (%s, %d bytes)" % (type(e).__name__, len(data))
            snap = self.w.snapshot(obj) if hasattr(obj, "__dict__") else None
            for n, want in self.snaps.items():
                if snap is not None and diff(snap, want) is None and \
                        diff(norm(getattr(obj, "design", None)),
                             self.designs[n]) is None:
                    return n
            return "wrong contents"
        finally:
            env.current = cur
            __import__("sys").modules.update(saved)

    def _go(self, run):
        plan = self.plan
        w = self.w = World()
        self.blobs, self.snaps, self.designs = {}, {}, {}
        d = sd.SimDisk()
        d.bufsize = plan.get("bufsize", 8192)
        d.dirs.add(sd.ROOT + "/d/sub")
        w.scratch = sd.ROOT + "/d"
        self.fates = []
        self.foreign = {}
        for name in plan.get("foreign", ()):
            d.put(sd.ROOT + "/d/" + name, ("kept: " + name).encode())
        try:
            sd.disk = d
            for n, (dc, fit) in sorted(plan["models"].items()):
                w.do(["new", n, dc])
                if fit is not None:
                    try:
                        w.do(["fit", n, fit])
                    except Exception:
                        pass
                self.snaps[n] = w.snapshot(n)
                self.designs[n] = norm(w.models[n].design)
                w.u.activate()
            w.u.activate()
            for i, e in enumerate(plan["entries"]):
                if not self._one(run, w, d, i, e):
                    return
        finally:
            d.dead = True
            sd.disk = None

    def _one(self, run, w, d, i, e):
        plan = self.plan
        path = e.get("path", "model.pkl")
        full = sd.ROOT + "/d/" + (path if path.endswith(".pkl") else path + ".pkl")
        d.dead = False
        if e["op"] == "link":
            if full not in d.links and full not in d.files:
                d.links[full] = "target.pkl"
            return True
        d.seal()
        before = self.content(d.now(full))
        m = e["op"][1]
        if e["op"][0] == "csave":
            return self._csave(run, w, d, i, e, before, full)
        f = dict(e["fault"]) if e.get("fault") else None
        litter = set(self.litter)
        others = {p: bytes(x.data) for p, x in d.files.items()
                  if p != d.norm(full) and p not in litter}
        names_before = set(d.files)
        d.fired = None
        if f is not None and f.get("at", "disk") == "disk":
            if "n" not in f:
                total = self.count_steps(w, m)
                f["n"] = 1 + int(f.pop("frac") * total)
                e["fault"] = dict(f)
            d.plan = dict(f, n=d.steps + f["n"])
            faults = []
        else:
            d.plan = None
            faults = []
            if f is not None:
                if "n" not in f:
                    lines, seams = self.probe(run, w, m)
                    from .engine import resolve_fault
                    f = resolve_fault(f, lines, seams)
                    e["fault"] = f
                faults = [f]
        exc = None
        mutated_before = w.snapshot(m)
        run.begin_op(faults)
        try:
            w.models[m].to_pickle(sd.ROOT + "/d/" + path)
        except env.SimCrash as ex:
            exc = ex
        except BaseException as ex:
            exc = ex
        fired = run.end_op()
        crashed = d.dead
        hit = d.fired
        d.plan = None
        self.stats["ops"] += 1
        self.stats["disk_steps"] = d.steps
        what = ("crash at disk step %d (%s)" % (hit["n"], hit["call"]) if crashed
                else "%s at %s" % (hit["kind"], hit["call"]) if hit
                else "%s at %s" % (fired[0]["exc"], fired[0]["where"] or fired[0]["at"])
                if fired else "no fault")
        fate = ("crash" if crashed else "raised" if exc is not None else "saved")
        self.log.append([i, "save", m, what, fate])
        self.fates.append((what.split(" (")[0].split(" at disk")[0], fate,
                           d.trace[-1] if d.trace else ""))
        if exc is not None and not (crashed or hit or fired):
            self.violate("save-fails", i, "saving %s (%s) raised %s: %s" % (
                m, w.decls[m]["kind"], type(exc).__name__, exc))
            return False
        # a crash of the process: the page cache survives
        outcomes = [("after " + what, d.now(full))]
        if plan.get("power"):
            r = random.Random(plan["power"] + i)
            for _ in range(4):
                outcomes.append(("power lost after " + what,
                                 d.after_power_loss(full, r)))
        for k, (label, data) in enumerate(outcomes):
            self.stats["compares"] += 1
            got = self.content(data)
            ok = {before, m}
            if k == 0 and fate == "saved":
                ok = {m}
            if got not in ok:
                self.violate("save", i, "%s: file holds %s; before the save it "
                             "held %s, the save was of %s (%s)" % (
                                 label, got, before, m, fate))
                return False
        if fate == "saved" and m not in self.blobs:
            self.blobs[m] = d.now(full)
        for p, data in others.items():
            if p not in d.files or bytes(d.files[p].data) != data:
                self.violate("save", i, "%s: another file, %s, changed" % (
                    what, p[len(sd.ROOT) + 3:]))
                return False
        extra = set(d.files) - names_before - {d.norm(full)}
        if crashed or fired:
            # a dead process cannot tidy up, and an interrupt can arrive
            # between two statements
            self.litter |= extra
        elif extra:
            self.violate("save", i, "%s: the save %s and left %s behind" % (
                what, fate, sorted(p[len(sd.ROOT) + 3:] for p in extra)))
            return False
        if diff(w.snapshot(m), mutated_before):
            self.violate("save", i, "%s: saving changed the model" % what)
            return False
        if crashed:
            # restart: open descriptors and buffers are gone
            d.fds.clear()
            d.dead = False
        return True

    def count_steps(self, w, m):
        """Disk calls a fault-free save makes."""
        tmp = sd.SimDisk()
        tmp.bufsize = self.plan.get("bufsize", 8192)
        old, sd.disk = sd.disk, tmp
        run, env.current = env.current, None
        try:
            w.models[m].to_pickle(self.PATH)
        except Exception:
            pass
        finally:
            sd.disk = old
            env.current = run
            tmp.dead = True
        return max(1, tmp.steps)

    def probe(self, run, w, m):
        tmp = sd.SimDisk()
        tmp.bufsize = self.plan.get("bufsize", 8192)
        old, sd.disk = sd.disk, tmp
        r2 = Run()
        saved_clock = dict(env.clock.__dict__)
        cur, env.current = env.current, r2
        r2.begin_op(trace=True)
        try:
            w.models[m].to_pickle(self.PATH)
        except Exception:
            pass
        finally:
            r2.end_op()
            sd.disk = old
            env.current = cur
            env.clock.__dict__.update(saved_clock)
            tmp.dead = True
        return max(1, r2.cur.lines), dict(r2.cur.seams)

    def _csave(self, run, w, d, i, e, before, full):
        """Several threads save different models to the same path at once,
        while another reads it."""
        ms = e["op"][1:]
        path = e.get("path", "model.pkl")
        d.plan = None
        seen = []

        def saver(m):
            def body(task):
                run.begin_op((), trace=True, task=task)
                err = None
                try:
                    w.models[m].to_pickle(sd.ROOT + "/d/" + path)
                except Exception as ex:
                    err = "%s: %s" % (type(ex).__name__, ex)
                run.end_op(task)
                return err
            return body

        def reader(task):
            for _ in range(e.get("reads", 6)):
                run.checkpoint(task)
                seen.append(d.now(full))
            return None
        run.schedule = e["schedule"]
        errs = run.run_tasks([saver(m) for m in ms] + [reader])
        e["schedule"] = dict(run.schedule)
        self.switches = list(run.switches)
        self.stats["ops"] += len(ms)
        self.stats["switches"] = self.stats.get("switches", 0) + len(run.switches)
        self.log.append([i, "csave", ms, len(run.switches)])
        self.fates.append(("concurrent", "saved", ""))
        for err in errs:
            if err:
                self.violate("save-fails", i, "concurrent save raised " + err)
                return False
        ok = set(ms) | {before}
        for data in seen + [d.now(full)]:
            self.stats["compares"] += 1
            got = self.content(data)
            if got not in ok:
                self.violate("save", i, "two threads saving to one path: a "
                             "reader found %s" % got)
                return False
        got = self.content(d.now(full))
        if got not in set(ms):
            self.violate("save", i, "both saves returned, file holds %s" % got)
            return False
        return True


# --------------------------------------------------------------------------
# Estimation under an adversarial optimiser
# --------------------------------------------------------------------------
TOL = dict(rtol=2e-5, atol=2e-6)


def close(a, b, rtol=2e-5, atol=2e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol,
                                              equal_nan=True)


class Adversary(object):
    """Everything an optimiser is allowed to do, chosen by the plan."""

    def __init__(self, cfg, owner):
        self.cfg = cfg
        self.owner = owner
        self.calls = []
        self.evals = []

    def __call__(self, run, real_minimize, objective, x0, args, kwargs):
        from scipy.optimize import OptimizeResult
        cfg = self.cfg
        r = random.Random(cfg["seed"])
        rec = {"x0": np.array(x0, copy=True), "args": args, "kwargs": kwargs,
               "x0_obj": x0}
        self.calls.append(rec)
        n = np.asarray(x0).size
        x0 = np.array(x0, dtype=float)
        count = [0]
        hess = kwargs.get("hess")
        buf = np.empty(n)
        extra = {}

        def evaluate(x, note=True):
            count[0] += 1
            if cfg.get("buffer"):
                buf[:] = x
                arg = buf
            else:
                arg = np.array(x, copy=True)
            f, g = objective(arg)
            f, g0 = float(f), np.array(g, copy=True)
            if note and len(self.evals) < 40:
                self.evals.append((np.array(x, copy=True), f, g0))
            if not np.array_equal(arg, x, equal_nan=True):
                self.owner.violate("optimiser", 0,
                                   "the search point was modified by the "
                                   "objective function")
            if cfg.get("scribble"):
                g[...] = 1e33
                arg[...] = -77.0
            return f, g0

        def wander(k):
            for _ in range(k):
                evaluate(np.array([r.uniform(-0.8, 0.8) for _ in range(n)]))
        mode = cfg["mode"]
        if cfg.get("before"):
            wander(cfg["before"])
        if mode == "real":
            class Stop(Exception):
                pass
            last = {}

            def fun(x, *a):
                f, g = evaluate(np.asarray(x))
                last["x"], last["f"], last["g"] = np.array(x, copy=True), f, g
                if cfg.get("stop_after") and count[0] >= cfg["stop_after"]:
                    raise Stop()
                return f, g
            try:
                res = real_minimize(fun, x0, *args, **kwargs)
                rec["nit"] = int(getattr(res, "nit", 0))
            except Stop:
                res = OptimizeResult(x=last["x"], fun=last["f"], jac=last["g"],
                                     success=False, status=99,
                                     message="sim: stopped early")
        else:
            x = {"stay": x0,
                 "jump": np.array([r.uniform(-0.7, 0.7) for _ in range(n)])}[mode]
            cons = cfg.get("hold", [])
            x = np.array(x, copy=True)
            for c in cons:
                x[c] = x0[c]
            f, g = evaluate(x)
            res = OptimizeResult(x=x, fun=f, jac=g, success=bool(cfg.get("ok")),
                                 status=0, nit=1, nfev=count[0],
                                 message=cfg.get("msg", "sim: done"))
        if cfg.get("after"):
            wander(cfg["after"])
            if callable(hess):
                try:
                    hess(np.array([r.uniform(-0.5, 0.5) for _ in range(n)]))
                except np.linalg.LinAlgError:
                    pass
        self.result = res
        self.final = {"x": np.array(res["x"], copy=True),
                      "fun": float(res["fun"]),
                      "success": bool(res["success"]),
                      "message": res["message"]}
        return res


USES = {"bfgs": ("gtol",), "cg": ("gtol",), "newton-cg": ("xtol",),
        "l-bfgs-b": ("ftol", "gtol"), "tnc": ("ftol", "gtol", "xtol"),
        "slsqp": ("ftol",), "nelder-mead": ("xatol", "fatol"),
        "powell": ("xtol", "ftol")}


def effective_options(method, tol, options):
    """The stopping rules scipy.optimize.minimize ends up with."""
    opt = dict(options or {})
    meth = method.lower()
    out = {"maxiter": opt.get("maxiter")}
    for name in USES.get(meth, ("gtol",)):
        out[name] = opt.get(name, tol)
    return out


class OptRun(Base):
    """One estimation (after optional earlier ones on the same object), with
    the optimiser under the simulator's control; every stored result is checked
    against the independent reference model at the returned point."""

    def _go(self, run):
        plan = self.plan
        w = self.w = World()
        w.do(["new", "m", plan["decl"]])
        dc = plan["decl"]
        for i, e in enumerate(plan["entries"]):
            a = e["fit"]
            adv = Adversary(e["adv"], self)
            self.before = w.snapshot("m")
            run.optimizer = adv
            run.begin_op()
            exc = res = None
            try:
                res = w.fit("m", a)
            except Exception as ex:
                exc = ex
            run.end_op()
            run.optimizer = None
            self.stats["ops"] += 1
            self.log.append([i, "fit", e["adv"]["mode"],
                             type(exc).__name__ if exc else "ok",
                             len(adv.evals)])
            k = "optimiser:" + e["adv"]["mode"]
            for flag in ("buffer", "scribble", "before", "after", "stop_after"):
                if e["adv"].get(flag):
                    run.fault_counts["optimiser:" + flag] = \
                        run.fault_counts.get("optimiser:" + flag, 0) + 1
            run.fault_counts[k] = run.fault_counts.get(k, 0) + 1
            if self.viol:
                return
            if exc is not None:
                if isinstance(exc, (np.linalg.LinAlgError, ValueError)) \
                        and any(t in str(exc).lower() for t in (
                            "singular", "infs or nans")):
                    continue
                if not np.isfinite(adv.final["x"]).all() if hasattr(adv, "final") \
                        else False:
                    continue
                self.violate("fit-fails", i, "%s: fit raised %s: %s" % (
                    dc["kind"], type(exc).__name__, exc))
                return
            self.check(i, dc, a, adv, res, w)
            if self.viol:
                return

    # -- the oracle ----------------------------------------------------------
    def cons(self, dc, a):
        c = set(a.get("cons") or [])
        if dc["kind"] == "Nested Logit":
            for i, v in enumerate(model_inputs(dc)[2]["nest_spec"].values()):
                if len(v) == 1:
                    c.add(i)
        return sorted(c)

    def check(self, i, dc, a, adv, res, w):
        kind = dc["kind"]

        def bad(cls, what, got=None, want=None):
            self.violate(cls, i, "%s: %s%s" % (
                kind, what, "" if got is None else ": %s, expected %s" % (
                    np.array2string(np.asarray(got, dtype=float).ravel()[:6],
                                    precision=6),
                    np.array2string(np.asarray(want, dtype=float).ravel()[:6],
                                    precision=6))))
            return False
        x0 = init_array(dc, a.get("init"))
        cons = self.cons(dc, a)
        m = w.models["m"]
        ridge = a.get("ridge")
        # -- the request ---------------------------------------------------
        if len(adv.calls) != 1:
            return bad("request", "the optimiser was started %d times"
                       % len(adv.calls))
        c = adv.calls[0]
        kw = dict(c["kwargs"])
        names = ["args", "method", "jac", "hess", "hessp", "bounds",
                 "constraints", "tol", "callback", "options"]
        for nme, v in zip(names, c["args"]):
            kw[nme] = v
        self.stats["compares"] += 1
        if not np.array_equal(c["x0"], x0):
            return bad("request", "search started elsewhere", c["x0"], x0)
        want_method = a.get("method", "BFGS")
        if kw.get("method") != want_method:
            return bad("request", "method %r instead of %r"
                       % (kw.get("method"), want_method))
        got = effective_options(want_method, kw.get("tol"), kw.get("options"))
        want = effective_options(want_method, a.get("loss_tol", 1e-06), {
            "gtol": a.get("gradient_tol", 1e-06),
            "maxiter": a.get("maxiter", 5)})
        for o in sorted(want):
            if got.get(o) != want[o]:
                return bad("request", "%s %s is %r instead of %r" % (
                    want_method, o, got.get(o), want[o]))
        # (scipy's TNC counts "maxiter" in function evaluations)
        if want_method != "TNC" and e_nit(c) is not None \
                and e_nit(c) > a.get("maxiter", 5):
            return bad("request", "more iterations than allowed")
        # -- the function being searched -------------------------------------
        R = self.refmodel(dc, a, ridge)
        rnd = random.Random(adv.cfg["seed"] + 5)
        ev = adv.evals if len(adv.evals) <= 6 else rnd.sample(adv.evals, 6)
        for x, f, g in ev:
            if not np.isfinite(x).all() or R.kink(x):
                continue
            self.stats["compares"] += 1
            want = -R.ll(x)
            if not np.isfinite(want):
                continue
            if not close(f, want):
                return bad("objective", "objective value at an evaluation", f, want)
            free = [j for j in range(len(x0)) if j not in cons]
            if cons and np.any(g[cons] != 0):
                return bad("constraint", "the search direction moves a "
                           "constrained parameter", g[cons], np.zeros(len(cons)))
            gg = R.gradient(x)
            if not np.isfinite(gg).all():
                continue
            stuck = [j for j in free if g[j] == 0 and abs(gg[j]) > 1e-4
                     + 100 * R.noise]
            if stuck:
                self.violate("constraint", i, "%s: the search cannot move the "
                             "unconstrained parameter %d (its slope is %.6g)"
                             % (kind, stuck[0], -gg[stuck[0]]))
            if not close(g[free], -gg[free], atol=2e-6 + 20 * R.noise):
                if self.known_nested_ridge(kind, ridge, R, x, -g, free):
                    continue
                return bad("objective", "gradient at an evaluation",
                           g[free], -gg[free])
        fin = adv.final
        x = fin["x"]
        if cons and adv.cfg["mode"] == "real":
            self.stats["compares"] += 1
            # (SLSQP and TNC shift and scale the parameters, hence rounding)
            if not np.allclose(x[cons], x0[cons], rtol=1e-9, atol=1e-12) \
                    and not (want_method == "trust-exact"
                             and self.known("trust-exact-hard-case")):
                return bad("constraint", "constrained parameters moved",
                           x[cons], x0[cons])
        # -- the results ------------------------------------------------------
        if a.get("just_point"):
            self.stats["compares"] += 1
            if res is None or not np.array_equal(np.asarray(res["x"]), x):
                return bad("point", "point estimate returned is not the "
                           "search's result")
            for k in ("fun", "success", "message"):
                if k not in res or norm(
                        bool(res[k]) if k == "success" else float(res[k])
                        if k == "fun" else res[k]) != norm(fin[k]):
                    return bad("point", "the search's %s is not returned "
                               "unaltered" % k)
            now = w.snapshot("m")
            d = diff(now, self.before)
            if d:
                return bad("point", "asking for the point estimate changed "
                           "what the model reports: %s" % d)
            return
        if not np.isfinite(x).all():
            return
        for rep in self.reports(m, dc, a, R, x, x0, fin, cons):
            what, got, want = rep[:3]
            slack = rep[3] if len(rep) > 3 else 0.0
            self.stats["compares"] += 1
            if isinstance(want, (str, bool, list)):
                if got != want:
                    return bad("report", "%s is %r, expected %r" % (what, got, want))
            elif not close(got, want, atol=2e-6 + 20 * slack):
                if what == "gradient" and self.known_nested_ridge(
                        kind, ridge, R, x, np.asarray(got),
                        list(range(len(x)))):
                    continue
                if what == "hessian" and self.known_mixed_ridge(
                        kind, ridge, R, x, np.asarray(got), cons):
                    continue
                return bad("constraint" if what.startswith("constrained")
                           else "report", what, got, want)

    def refmodel(self, dc, a, ridge):
        kw = {}
        if dc["kind"] == "Mixed Logit":
            kw = {"draws": a.get("draws", 4), "seed": a.get("seed")}
        return RefModel(dc, ridge=ridge, **kw)

    def known(self, name):
        self.stats.setdefault("known", {})
        self.stats["known"][name] = self.stats["known"].get(name, 0) + 1
        return True

    def known_nested_ridge(self, kind, ridge, R, x, g, idx):
        """Known finding KF1: the penalised nested gradient uses (20 - nest)."""
        if kind != "Nested Logit" or ridge is None:
            return False
        R2 = RefModel(R.decl)
        k = len(R.split(x)["nests"])
        pen = np.array(x, copy=True)
        pen[:k] = 20 - pen[:k]
        want = R2.gradient(x) - 2 * ridge * pen
        full = np.asarray(g, dtype=float)
        if full.size == len(idx):
            ok = close(full, want[idx])
        else:
            ok = close(full[idx], want[idx])
        return ok and self.known("nested-ridge-gradient")

    def known_mixed_ridge(self, kind, ridge, R, x, H, cons):
        """Known finding KF2: the penalised mixed logit BHHH matrix adds the
        penalty with the wrong sign."""
        if kind != "Mixed Logit" or ridge is None:
            return False
        s = R.scores(x)
        want = -(s.T.dot(s) - 2 * ridge * np.eye(len(x)))
        for c in cons:
            want[c, :] = 0
            want[:, c] = 0
            want[c, c] = -1
        return close(H, want) and self.known("mixed-ridge-hessian")

    def reports(self, m, dc, a, R, x, x0, fin, cons):
        import scipy.stats
        kind = dc["kind"]
        n = len(x)
        spec, names, kw = model_inputs(dc)
        yield "params", m.params.values, x
        pos = 0
        for name, k in param_blocks(dc):
            yield name, getattr(m, name).values, x[pos:pos + k]
            pos += k
        present = [b for b, _ in param_blocks(dc)]
        for name in ("nests", "shapes", "intercepts"):
            if name not in present:
                yield name + " is None", getattr(m, name) is None, True
        # names
        want = param_names(dc, R)
        if want is not None:
            yield "parameter names", m.params.index.tolist(), want
        # goodness of fit
        ll, null = -fin["fun"], R.ll(np.zeros(n))
        yield "log_likelihood", m.log_likelihood, ll
        kink = R.kink(x)
        if not kink:
            yield "log_likelihood (at params)", m.log_likelihood, R.ll(x)
        yield "null_log_likelihood", m.null_log_likelihood, null
        yield "estimation_success", bool(m.estimation_success), fin["success"]
        yield "estimation_message", m.estimation_message, fin["message"]
        yield "rho_squared", m.rho_squared, 1 - ll / null
        yield "rho_bar_squared", m.rho_bar_squared, 1 - (ll - n) / null
        nobs = len(R.obs)
        yield "nobs", m.nobs, nobs
        yield "df_model", m.df_model, n
        yield "df_resid", m.df_resid, nobs - n
        yield "llf", m.llf, ll
        yield "aic", m.aic, -2 * ll + 2 * n
        yield "bic", m.bic, -2 * ll + np.log(nobs) * n
        fs = m.fit_summary
        for lab, v in (("Number of Parameters", n), ("Number of Observations", nobs),
                       ("Null Log-Likelihood", null), ("Fitted Log-Likelihood", ll),
                       ("Rho-Squared", 1 - ll / null),
                       ("Rho-Bar-Squared", 1 - (ll - n) / null)):
            yield "fit summary " + lab, float(fs[lab]), float(v)
        yield "fit summary message", fs["Estimation Message"], fin["message"]
        if kink:
            return
        pr = R.probs(x)
        ch = R.choice
        yield "long_fitted_probs", m.long_fitted_probs, pr
        chosen = np.array([pr[[q for q in rows if ch[q] == 1][0]]
                           for rows in R.obs])
        yield "fitted_probs", m.fitted_probs, chosen
        rs = (ch if pr.ndim == 1 else ch[:, None]) - pr
        yield "long_residuals", m.long_residuals, rs
        chi = np.array([(rs[rows] ** 2 / pr[rows]).sum(axis=0) for rows in R.obs])
        yield "ind_chi_squareds", m.ind_chi_squareds, chi
        yield "chi_square", m.chi_square, chi.sum()
        g = R.gradient(x)
        if not np.isfinite(g).all():
            return
        yield "gradient", m.gradient.values, g, R.noise
        H = R.hessian(x, cons)
        if H is None:
            if kind == "Nested Logit":      # penalised BHHH
                s = R.scores(x)
                H = -s.T.dot(s) - 2 * R.ridge * np.eye(n)
            else:
                s = R.scores(x)
                H = -s.T.dot(s) - 2 * R.ridge * np.eye(n)
            for c in cons:
                H[c, :] = 0
                H[:, c] = 0
                H[c, c] = -1
        rows = len(R.choice)
        yield "hessian", m.hessian.values, H, R.noise * R.scale * rows
        F = R.fisher(x)
        yield ("fisher_information", m.fisher_information.values, F,
               R.noise * R.scale * rows)
        # inference follows from the stored matrices
        Hs = m.hessian.values
        if not np.isfinite(Hs).all() or np.linalg.cond(Hs) > 1e7:
            return
        cov = -np.linalg.inv(Hs)
        scale = np.abs(cov).max()
        yield "cov", m.cov.values / scale, cov / scale
        hi = np.linalg.inv(Hs)
        rc = hi.dot(m.fisher_information.values).dot(hi)
        scale = max(np.abs(rc).max(), 1e-300)
        yield "robust_cov", m.robust_cov.values / scale, rc / scale
        free = [j for j in range(n) if j not in cons]
        with np.errstate(all="ignore"):
            se = np.sqrt(np.diag(m.cov.values))
            rse = np.sqrt(np.diag(m.robust_cov.values))
            tv, rt = x / se, x / rse
            pv = 2 * scipy.stats.norm.sf(np.abs(tv))
            rp = 2 * scipy.stats.norm.sf(np.abs(rt))
        nan = np.full(len(cons), np.nan)
        for attr, v in (("standard_errors", se), ("tvalues", tv), ("pvalues", pv),
                        ("robust_std_errs", rse), ("robust_t_stats", rt),
                        ("robust_p_vals", rp)):
            got = getattr(m, attr).values
            yield attr, got[free], v[free]
            if cons:
                yield "constrained " + attr, got[cons], nan
        yield "bse", m.bse.values, m.standard_errors.values
        cols = ["params", "standard_errors", "tvalues", "pvalues",
                "robust_std_errs", "robust_t_stats", "robust_p_vals"]
        yield ("summary table", m.summary.values,
               np.column_stack([getattr(m, c).values for c in cols]))


def e_nit(c):
    return c.get("nit")


# --------------------------------------------------------------------------
# Resampling
# --------------------------------------------------------------------------
class ResampleRun(Base):
    """Every bootstrap replicate is the estimate on exactly one stratified
    resample; every jackknife replicate the estimate without exactly one
    situation."""

    def _go(self, run):
        plan = self.plan
        dc = plan["decl"]
        w = self.w = World()
        w.do(["new", "m", dc])
        if plan.get("fit"):
            try:
                w.do(["fit", "m", plan["fit"]])
            except Exception:
                pass
        w.do(["bnew", "b", "m", plan["vals"]])
        w.u.activate()
        for i, e in enumerate(plan["entries"]):
            op, a = e["op"][0], e["op"][2]
            run.begin_op()
            exc = None
            try:
                w.do(e["op"])
            except Exception as ex:
                exc = ex
            run.end_op()
            self.stats["ops"] += 1
            self.log.append([i, op, type(exc).__name__ if exc else "ok"])
            if exc is not None:
                # right only if some resample cannot be estimated
                dfs = self.resamples(i, op, a, dc, w)
                if self.viol:
                    return
                for rdf in dfs:
                    try:
                        self.estimate(rdf, dc, a, w)
                    except Exception:
                        break
                else:
                    self.violate("resample", i, "%s(%s) raised %s: %s" % (
                        op, dc["kind"], type(exc).__name__, exc))
                    return
                continue
            reps = w.boots["b"].bootstrap_replicates if op == "boot" \
                else w.boots["b"].jackknife_replicates
            self.check(i, e, op, a, dc, reps, w)
            if self.viol:
                return

    def samples(self, a, w, df):
        """What the sampler draws for this seed, from a fresh copy."""
        u = env.Universe()
        try:
            fn = u.mod("bootstrap_sampler").create_cross_sectional_bootstrap_samples
            st = np.random.get_state()
            run, env.current = env.current, None
            try:
                if a.get("seed") is None:
                    np.random.seed(a["ambient"])
                return fn(df["oid"].values, df["aid"].values, df["ch"].values,
                          a["n"], seed=a.get("seed"))
            finally:
                np.random.set_state(st)
                env.current = run
        finally:
            w.u.activate()

    def resamples(self, i, op, a, dc, w):
        """The data sets of the replicates, built independently; None when the
        sample itself is wrong."""
        from .world import make_df
        df = make_df(dc["d"])
        groups = {o: g for o, g in df.groupby("oid", sort=True)}
        ids = sorted(groups)
        if op == "boot":
            S = np.asarray(self.samples(a, w, df))
            chosen = {o: int(g["aid"][g["ch"] == 1].iloc[0])
                      for o, g in groups.items()}
            strata = {}
            for o in ids:
                strata.setdefault(chosen[o], []).append(o)
            if S.shape != (a["n"], len(ids)):
                self.violate("resample", i, "resample has shape %s, expected %s"
                             % (S.shape, (a["n"], len(ids))))
                return
            # with replacement, and every situation can be drawn: over 40 more
            # samples some situation repeats and none is always missing
            big = np.asarray(self.samples(dict(a, n=40), w, df))
            if len(ids) > len(strata) and not any(
                    len(set(r)) < len(r) for r in big.tolist()):
                self.violate("resample", i, "40 samples without any repetition")
                return
            if set(big.ravel().tolist()) != set(ids):
                self.violate("resample", i, "situations %s never appear in 40 "
                             "samples" % sorted(set(ids) - set(
                                 big.ravel().tolist())))
                return
            for row in S:
                got = {}
                for o in row.tolist():
                    if o not in chosen:
                        self.violate("resample", i, "resampled id %r is not a "
                                     "situation" % o)
                        return
                    got[chosen[o]] = got.get(chosen[o], 0) + 1
                if got != {k: len(v) for k, v in strata.items()}:
                    self.violate("resample", i, "choice counts %r in a resample, "
                                 "%r in the data" % (got, {
                                     k: len(v) for k, v in strata.items()}))
                    return
            if len(ids) >= 6 and a["n"] >= 3 and len({tuple(r) for r in
                                                      S.tolist()}) == 1:
                self.violate("resample", i, "all resamples are identical")
                return
            dfs = []
            for row in S:
                parts = []
                for k, o in enumerate(row.tolist()):
                    g = groups[o].copy()
                    g["oid"] = k + 1
                    parts.append(g)
                dfs.append(pd.concat(parts, ignore_index=True))
        else:
            dfs = [df[df["oid"] != o].copy() for o in ids]
        return dfs

    def check(self, i, e, op, a, dc, reps, w):
        blocks = sum(k for _, k in param_blocks(dc))
        kind = dc["kind"]
        dfs = self.resamples(i, op, a, dc, w)
        if dfs is None:
            return
        vals = reps.values
        if vals.shape != (len(dfs), blocks):
            self.violate("resample", i, "%s replicates have shape %s, expected %s"
                         % (op, vals.shape, (len(dfs), blocks)))
            return
        want = param_names(dc)
        if want is not None and reps.columns.tolist() != want:
            self.violate("resample", i, "%s replicates of %s are labelled %s, "
                         "the parameters are %s" % (
                             op, kind, reps.columns.tolist(), want))
            return
        rnd = random.Random(key(e))
        pick = list(range(len(dfs)))
        if len(pick) > self.plan.get("pick", 3):
            pick = sorted(rnd.sample(pick, self.plan.get("pick", 3)))
        for row in pick:
            want = self.estimate(dfs[row], dc, a, w)
            self.stats["compares"] += 1
            if not np.allclose(vals[row], want, rtol=1e-5, atol=1e-7,
                               equal_nan=True):
                self.violate("resample", i, "%s replicate %d of %s is %s, the "
                             "estimate on that resample is %s" % (
                                 op, row, kind, np.round(vals[row][:5], 5),
                                 np.round(want[:5], 5)))
                return

    def estimate(self, rdf, dc, a, w):
        """The estimate on one resampled data frame, made directly."""
        k = "est:" + key([dc, a]) + str(pd.util.hash_pandas_object(rdf).sum())
        u = env.Universe()
        run, env.current = env.current, None
        st = np.random.get_state()
        try:
            pl = u.pl

            def build(decl, df):
                spec, names, kw = model_inputs(decl)
                df = df.copy()
                return pl.create_choice_model(
                    data=df, alt_id_col="aid", obs_id_col="oid", choice_col="ch",
                    specification=spec, model_type=decl["kind"], names=names, **kw)
            fk = {"print_res": False, "just_point": True,
                  "method": a.get("method", "BFGS"),
                  "maxiter": a.get("maxiter", 4)}
            if a.get("ridge") is not None:
                fk["ridge"] = a["ridge"]
            if a.get("cons") is not None:
                fk["constrained_pos"] = list(a["cons"])
            for t in ("loss_tol", "gradient_tol"):
                if a.get(t) is not None:
                    fk[t] = a[t]
            mk = {"print_res": False, "just_point": True,
                  "method": a.get("mnl_method", "BFGS"),
                  "maxiter": a.get("mnl_maxiter", 4)}
            n = n_params(dc)
            if dc["kind"] == "MNL":
                x0 = np.zeros(n)
                if a.get("mnlkw"):
                    x0 = x0 + 0.01
                else:
                    mk = {"print_res": False, "just_point": True,
                          "method": "BFGS"}
                return build(dc, rdf).fit_mle(x0, **mk)["x"]
            c = companion(dc)
            mm = build(c, rdf)
            p = pd.Series(mm.fit_mle(np.zeros(n_params(c)), **mk)["x"],
                          index=mm.ind_var_names)
            model = build(dc, rdf)
            if a.get("extract"):
                return model.fit_mle(extraction(a["extract"])(model, p, n),
                                     **fk)["x"]
            init = np.zeros(n)
            spec, names, kw = model_inputs(dc)
            nidx = [q for _, q in param_blocks(dc)][-1]
            if dc.get("outint"):
                coef = p.loc[model.ind_var_names].values
            else:
                coef = p.values
            if dc["kind"] == "Asym":
                coef = coef / np.log(dc["d"]["J"])
            init[n - nidx:] = coef
            if dc.get("outint"):
                ic = p.loc[kw["intercept_names"]].values
                init[n - nidx - len(ic):n - nidx] = ic
            return model.fit_mle(init, **fk)["x"]
        finally:
            np.random.set_state(st)
            env.current = run
            w.u.activate()
