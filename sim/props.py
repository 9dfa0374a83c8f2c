"""One entry per property: a seeded plan generator, the executor, and which
violation classes of the executor count against the property."""
import copy
import random

from . import gen
from .ref import param_names
from .world import KINDS, n_params, companion

NOT_MIXED = [k for k in KINDS if k != "Mixed Logit"]


def E(op, faults=None):
    e = {"op": op}
    if faults:
        e["faults"] = faults
    return e


def boot_vals(r, dc):
    return [round(r.uniform(-0.4, 0.4), 3) for _ in range(n_params(dc))]


def models(r, k, kinds=None, shared=0.7, small=False, big=0):
    """k model declarations, often on the same data."""
    big = r.random() < big
    ds = [gen.ddef(r, small=small and not big, big=big)]
    if r.random() > shared:
        ds.append(gen.ddef(r, small=small))
    out = [gen.decl(r, d=r.choice(ds), kinds=kinds, small=small)
           for _ in range(k)]
    if k > 1 and r.random() < 0.35:
        # the same kind of model, declared differently
        out[1] = gen.decl(r, d=out[0]["d"] if r.random() < 0.7 else None,
                          kinds=[out[0]["kind"]], small=small)
    return out


def wide_args(r, d):
    a = {"d": d, "back": r.random() < 0.4}
    for k in ("sub", "null", "altnames"):
        if r.random() < 0.3:
            a[k] = True
    return a


def clock(r, p=0.5):
    if r.random() > p:
        return None
    m = r.choice(["stalled", "back", "fwd", "both"])
    return {"mode": m, "seed": r.randrange(1 << 30), "p": r.choice([0.05, 0.5, 1.0])}


def history(r, decls, length, seeded=None, faults=0.0, fault_maker=None,
            boots=True, bad=0.0, extras=(), restart=0.0, refit=0.35, retry=0.3,
            resample=0.15):
    """A random history over the given models."""
    if boots and r.random() < resample:
        refit, boots = 0.15, 0.7        # mostly resampling
    elif boots:
        boots = 0.3
    out, made, fitted, boot_of = [], [], set(), {}
    names = ["m%d" % i for i in range(len(decls))]
    dec = dict(zip(names, decls))

    def add(op, can_fault=True):
        f = None
        if can_fault and fault_maker is not None and r.random() < faults:
            f = [fault_maker(op, dec)]
        out.append(E(op, f))
        if f and r.random() < retry:
            # try the same thing again
            out.append(E(copy.deepcopy(op)))
    todo = list(names)
    while len(out) < length:
        q = r.random()
        if todo and (not made or q < 0.25):
            m = todo.pop(0)
            if fault_maker is not None and r.random() < 0.4 * faults:
                out.append(E(["new", m, dec[m]],
                             [gen.line_fault(r, tail=0.3)]))
            if bad and r.random() < 1.5 * bad:
                out.append(E(["new", m + "x", dict(dec[m], bad=r.choice(
                    gen.BAD_NEW))]))
            add(["new", m, dec[m]], can_fault=False)
            made.append(m)
            continue
        m = r.choice(made)
        if restart and r.random() < restart:
            out.append(E(["restart"]))
            boot_of.clear()
            continue
        if extras and r.random() < 0.2:
            out.append(E(r.choice(extras)(r)))
            continue
        if m not in fitted or r.random() < refit:
            add(["fit", m, gen.fit(r, dec[m], seeded=seeded, bad=bad)])
            fitted.add(m)
            continue
        if boots and dec[m]["kind"] != "Mixed Logit" and r.random() < boots:
            b = boot_of.get(m)
            if b is None:
                b = boot_of[m] = "b" + m
                add(["bnew", b, m, boot_vals(r, dec[m])], can_fault=False)
            z = r.random()
            if z < 0.55:
                add(["boot", b, gen.bootargs(r, dec[m], seeded)])
            elif z < 0.7 and dec[m]["d"]["n"] < 150:
                add(["jack", b, gen.jackargs(r, dec[m])])
            elif z < 0.9:
                add(["int", b, {"t": r.choice(["pi", "pi", "bca", "abc"]),
                                "pct": r.choice([80, 90, 95]), "maxiter": 1}])
            else:
                add(gen.bext(r, b, dec[m], "bootstrap"))
            continue
        if r.random() < 0.06:
            add(["wide", wide_args(r, dec[m]["d"])])
            continue
        add(gen.reader(r, m, dec[m], seeded))
    return out


def scenario(r, es, p=0.6):
    """What a caller does when comparing scenarios: predict from a few data
    frames of its own whose values it edits in place between calls, and refill
    its own arrays of starting values and parameters."""
    if r.random() > p:
        return es
    frames = {}
    for e in es:
        op = e["op"]
        if op[0] == "pred" and op[2].get("d"):
            d = op[2]["d"]
            # one frame per alternative layout
            k = (d["J"], d.get("ids"))
            if k not in frames or r.random() < 0.25:
                frames[k] = dict(d, pf=1)
            op[2]["d"] = dict(frames[k], rev=r.randrange(3))
        if op[0] in ("fit", "pred") and r.random() < 0.5 \
                and not op[2].get("split"):
            op[2]["buf"] = True
    return es


def habits(r, es, p=0.25):
    """Callers who use one seed, and one number of draws, for everything."""
    if r.random() > p:
        return es
    seed, draws, n = r.choice([1, 7, 4215]), r.choice([2, 3, 5]), \
        r.choice([2, 3])
    for e in es:
        op = e["op"]
        a = op[2] if len(op) > 2 and isinstance(op[2], dict) else {}
        if op[0] not in ("fit", "pred", "boot"):
            continue
        if a.get("seed") is not None:
            a["seed"] = seed
        if "draws" in a:
            a["draws"] = draws
        if op[0] == "boot":
            a["n"] = n
    return es


def mixed_fault(r):
    def f(op, dec):
        kind = op[0]
        if r.random() < 0.6:
            return gen.line_fault(r, tail=0.5)
        names = ["linalg", "eval", "minimize", "stdout"]
        if kind in ("boot", "jack", "int"):
            names = ["eval", "minimize", "stdout", "stderr", "stdout.flush"]
        if kind in ("pred", "ci", "smry", "bll", "wide"):
            return gen.line_fault(r, tail=0.3)
        if kind == "print":
            names = ["stdout"]
        return gen.seam_fault(r, names)
    return f


def schedule(r, heavy=False):
    q = r.random()
    s = {"seed": r.randrange(1 << 30)}
    if q < 0.4:
        s.update(mode="prob", p=r.choice([0.002, 0.01, 0.05, 0.2]))
    elif q < 0.8:
        mod = r.choice([3, 5, 11, 23])
        s.update(mode="loc", mod=mod, rem=r.randrange(mod),
                 p=r.choice([0.1, 0.4, 0.8]))
    else:
        pts = sorted({int(10 ** r.uniform(0, 4.3)) for _ in range(r.randint(1, 12))})
        s.update(mode="points", points=pts)
    return s


# -- C01 ---------------------------------------------------------------------
def c01_reuse(r):
    """One seed used for everything: other data, other models, other sizes."""
    d = gen.ddef(r, small=True)
    two = r.random() < 0.6
    dcs = []
    for _ in range(2):
        dc = gen.decl(r, d=d if r.random() < 0.5 else gen.ddef(r, small=True),
                      kinds=["Mixed Logit"] * 4 + KINDS, small=True)
        if two and dc["kind"] == "Mixed Logit":
            dc.update(z="same", mix=["b_x", "b_z"])
        dcs.append(dc)
    es = []
    for i, dc in enumerate(dcs):
        es.append(E(["new", "m%d" % i, dc]))
        if dc["kind"] != "Mixed Logit":
            es.append(E(["bnew", "b%d" % i, "m%d" % i, boot_vals(r, dc)]))
    done = set()
    for _ in range(r.randint(4, 7)):
        i = r.randrange(2)
        dc, m = dcs[i], "m%d" % i
        if dc["kind"] != "Mixed Logit":
            a = gen.bootargs(r, dc, seeded=True)
            a.update(n=r.randint(2, 4), maxiter=1, mnl_maxiter=1, mnlkw=True)
            es.append(E(["boot", "b%d" % i, a]))
        elif m not in done or r.random() < 0.25:
            a = gen.fit(r, dc, seeded=True)
            a["maxiter"] = r.choice([1, 2])
            if m not in done:
                a.pop("just_point", None)
            done.add(m)
            es.append(E(["fit", m, a]))
        else:
            a = gen.pred(r, dc, seeded=True)
            if a.get("d"):
                a["d"]["n"] = r.randint(dc["d"]["J"], 2 * dc["d"]["J"] + 5)
            es.append(E(["pred", m, a]))
    seeds = [r.choice([1, 7, 4215])]
    if r.random() < 0.3:
        seeds.append(seeds[0] + 1)
    draws = [r.choice([2, 3, 5])]
    if r.random() < 0.3:
        draws.append(draws[0] + 1)
    for e in es:
        a = e["op"][2] if isinstance(e["op"][2], dict) else {}
        if a.get("seed") is not None:
            a["seed"] = r.choice(seeds)
        if "draws" in a:
            a["draws"] = r.choice(draws)
    return {"exec": "serial", "entries": es,
            "rng0": r.randrange(1, 10 ** 6), "ref": "unambient"}


def c01(r):
    q = r.random()
    if q < 0.17:
        return c01_reuse(r)
    if q < 0.6:
        kinds = ["Mixed Logit", "Mixed Logit"] + KINDS
        dcs = models(r, r.randint(1, 3), kinds=kinds, small=r.random() < 0.5)
        if not any(d["kind"] == "Mixed Logit" for d in dcs) and r.random() < 0.6:
            dcs[0] = gen.decl(r, d=dcs[0]["d"], kinds=["Mixed Logit"])
        extras = [lambda r: ["rng", r.randint(1, 40)],
                  lambda r: ["seed", r.randrange(1, 9999)],
                  lambda r: ["pyrandom", r.randrange(1, 9999)]]
        seeded = True if r.random() < 0.6 else None
        fm = mixed_fault(r) if r.random() < 0.4 else None
        es = history(r, dcs, r.randint(5, 9), seeded=seeded, extras=extras,
                     fault_maker=fm, faults=0.3)
        # ask for the same seeded thing twice
        cand = [e for e in es if e["op"][0] in ("fit", "pred", "boot")
                and e["op"][2].get("seed") is not None]
        if cand and r.random() < 0.6:
            es.append(E(copy.deepcopy(r.choice(cand)["op"])))
        es = habits(r, scenario(r, es, 0.3), 0.45)
        return {"exec": "serial", "entries": es, "clock": clock(r, 0.3),
                "rng0": r.randrange(1, 10 ** 6), "ref": "unambient"}
    # concurrent
    tasks, setup = [], []
    n = r.randint(2, 3)
    d = gen.ddef(r, small=True)
    for t in range(n):
        dc = gen.decl(r, d=d if r.random() < 0.7 else gen.ddef(r, small=True),
                      kinds=["Mixed Logit", "Mixed Logit", "MNL", "Asym",
                             "Nested Logit"], small=True)
        m = "m%d" % t
        setup.append(E(["new", m, dc]))
        es = []
        if dc["kind"] == "Mixed Logit":
            a = gen.fit(r, dc, seeded=True, just_point=False)
            a["maxiter"] = r.choice([1, 2])
            a.pop("ambient", None)
            es.append(E(["fit", m, a]))
            for _ in range(r.randint(0, 2)):
                p = gen.pred(r, dc, seeded=True)
                p.pop("ambient", None)
                es.append(E(["pred", m, p]))
        else:
            b = "b%d" % t
            setup.append(E(["bnew", b, m, boot_vals(r, dc)]))
            a = gen.bootargs(r, dc, seeded=True)
            a.pop("ambient", None)
            a.update(n=2, maxiter=1, mnl_maxiter=1, mnlkw=True)
            es.append(E(["boot", b, a]))
        tasks.append(es)
    tasks.append([E(["rng", r.randint(1, 5)]) for _ in range(r.randint(2, 6))])
    return {"exec": "concurrent", "setup": setup, "tasks": tasks,
            "rng_tasks": [len(tasks) - 1], "schedule": schedule(r),
            "rng0": r.randrange(1, 10 ** 6)}


def c01_relevant(v, plan):
    if v["class"] in ("rng", "no-progress", "deadlock"):
        op = v.get("opv")
        if v["class"] == "rng" and op is not None:
            return is_random(op, plan) and op[2].get("seed") is not None
        return True
    op = v.get("opv")
    return v["class"] in ("result", "concurrent", "boot-result", "result-after-fault",
                          "state") and op is not None and is_random(op, plan) \
        and op[2].get("seed") is not None


def decl_of(plan, m):
    for e in list(plan.get("entries", [])) + list(plan.get("setup", [])) \
            + [x for t in plan.get("tasks", []) for x in t]:
        if e["op"][0] == "new" and e["op"][1] == m:
            return e["op"][2]
    return None


def is_random(op, plan):
    if op[0] == "boot":
        return True
    if op[0] in ("fit", "pred"):
        d = decl_of(plan, op[1])
        return d is not None and d["kind"] == "Mixed Logit"
    return False


# -- C02 ---------------------------------------------------------------------
def c02(r):
    kinds = ["Mixed Logit", "Mixed Logit"] + KINDS
    dcs = models(r, r.randint(1, 3), kinds=kinds, small=r.random() < 0.5,
                 big=0.06)
    extras = [lambda r: ["rng", r.randint(1, 40)],
              lambda r: ["pyrandom", r.randrange(1, 9999)]]
    seeded = r.choice([False, None, None])
    fm = mixed_fault(r) if r.random() < 0.35 else None
    es = history(r, dcs, r.randint(5, 9), seeded=seeded, extras=extras,
                 fault_maker=fm, faults=0.3, bad=0.05, restart=0.06)
    es = scenario(r, es, 0.3)
    return {"exec": "serial", "entries": es, "clock": clock(r, 0.7),
            "rng0": r.randrange(1, 10 ** 6)}


def c02_relevant(v, plan):
    op = v.get("opv")
    if v["class"] in ("rng-stuck", "no-progress"):
        return True
    if v["class"] == "rng":
        # seeded random operations belong to C01
        return op is None or not is_random(op, plan)
    return v["class"] in ("result", "result-after-fault", "boot-result") \
        and op is not None and is_random(op, plan) \
        and op[2].get("seed") is None


# -- C03 ---------------------------------------------------------------------
def c03(r):
    dcs = models(r, r.choice([1, 1, 2]), small=r.random() < 0.5)
    es = []
    for i, dc in enumerate(dcs):
        es.append(E(["new", "m%d" % i, dc]))
    for step in range(r.randint(2, 4)):
        i = r.randrange(len(dcs))
        a = gen.fit(r, dcs[i], just_point=False, seeded=None,
                    bad=0.15 if step else 0.0)
        q = r.random()
        f = None
        if step and q < 0.8 or not step and q < 0.3:
            if r.random() < 0.65:
                f = [gen.line_fault(r, tail=0.65)]
            else:
                f = [gen.seam_fault(r, ["linalg", "linalg", "eval", "minimize",
                                        "stdout"])]
            if f[0]["at"].startswith("stdout"):
                a["print"] = True
        es.append(E(["fit", "m%d" % i, a], f))
        if r.random() < (0.5 if f else 0.25):
            es.append(E(gen.reader(r, "m%d" % i, dcs[i])))
    return {"exec": "serial", "entries": es, "clock": clock(r, 0.1),
            "stop_on_mutation": False}


# -- C04 ---------------------------------------------------------------------
def c04(r):
    dcs = models(r, r.choice([1, 2, 3]), small=r.random() < 0.6)
    es = history(r, dcs, r.randint(6, 10), faults=0.5,
                 fault_maker=mixed_fault(r), bad=0.1, resample=0.35)
    # after the last fault every kind of operation must work again
    m = r.randrange(len(dcs))
    if any(e["op"][0] == "new" and e["op"][1] == "m%d" % m for e in es):
        es.append(E(["fit", "m%d" % m, gen.fit(r, dcs[m], just_point=False)]))
        es.append(E(gen.reader(r, "m%d" % m, dcs[m])))
    es = scenario(r, es, 0.4)
    return {"exec": "serial", "entries": es, "stop_on_mutation": False,
            "clock": clock(r, 0.1)}


# -- C05 ---------------------------------------------------------------------
def siblings(r, k):
    """k small models of one kind on one layout of data, each declared in its
    own way (other nests under the same names, other references, ...)."""
    kind = r.choice(KINDS + ["Nested Logit", "Asym"])
    d = gen.ddef(r)
    out = []
    for _ in range(k):
        dd = d if r.random() < 0.5 else gen.other_data(r, d, True)
        out.append(gen.decl(r, d=dd, kinds=[kind]))
    return out


def cheap(r, m, dc, first):
    """A quick operation on a model of siblings()."""
    if first or r.random() < 0.25:
        a = gen.fit(r, dc, just_point=False if first else None, seeded=True)
        a["maxiter"] = r.choice([1, 1, 2])
        o = ["fit", m, a]
    elif r.random() < 0.85:
        o = ["pred", m, gen.pred(r, dc, seeded=True)]
    else:
        o = gen.reader(r, m, dc, seeded=True)
    return o


def decl_d(es, m):
    return next(e["op"][2]["d"] for e in es if e["op"][:2] == ["new", m])


def c05_siblings(r):
    dcs = siblings(r, r.choice([2, 2, 3]))
    es = [E(["new", "m%d" % i, dc]) for i, dc in enumerate(dcs)]
    done = set()
    for _ in range(r.randint(5, 8)):
        i = r.randrange(len(dcs))
        es.append(E(cheap(r, "m%d" % i, dcs[i], i not in done)))
        done.add(i)
    p = 0.15
    if r.random() < 0.4:
        # scenarios in which not everything is on offer everywhere
        p = 1
        for e in es:
            if e["op"][0] == "pred":
                a = e["op"][2]
                if not a.get("d"):
                    a["d"] = gen.other_data(r, decl_d(es, e["op"][1]))
                a["d"]["avail"] = True
    return {"exec": "serial", "entries": habits(r, scenario(r, es, p)),
            "stop_on_mutation": False}


def c05(r):
    if r.random() < 0.35:
        return c05_siblings(r)
    dcs = models(r, r.choice([1, 2, 2, 3]), small=r.random() < 0.4, big=0.03)
    if len(dcs) > 1 and r.random() < 0.3:
        dcs[1] = copy.deepcopy(dcs[0])
        if r.random() < 0.5:
            dcs[1]["d"] = gen.other_data(r, dcs[0]["d"], True)
    es = habits(r, scenario(r, history(r, dcs, r.randint(7, 12), bad=0.08)))
    return {"exec": "serial", "entries": es, "clock": clock(r, 0.15),
            "stop_on_mutation": False}


def more_boot(r, b, dc):
    """What else a thread does with its bootstrap object."""
    out = []
    if r.random() < 0.2:
        a = gen.jackargs(r, dc)
        a.update(maxiter=1, mnl_maxiter=1, mnlkw=True)
        out.append(E(["jack", b, a]))
        if r.random() < 0.5:
            out.append(E(["int", b, {"t": "bca", "pct": 80}]))
    q = r.random()
    if q < 0.35:
        out.append(E(gen.bext(r, b, dc, "bootstrap")))
    elif q < 0.55:
        out.append(E(["int", b, {"t": "pi", "pct": r.choice([80, 95])}]))
    elif q < 0.65:
        out.append(E(["int", b, {"t": "abc", "pct": 90, "maxiter": 1}]))
    return out


# -- C06 ---------------------------------------------------------------------
def c06_siblings(r):
    dcs = siblings(r, 2)
    tasks = []
    for i, dc in enumerate(dcs):
        m = "m%d" % i
        es = [E(["new", m, dc])]
        for j in range(r.randint(1, 3)):
            o = cheap(r, m, dc, j == 0)
            if len(o) > 2 and isinstance(o[2], dict):
                o[2].pop("ambient", None)
            es.append(E(o))
        tasks.append(es)
    return {"exec": "concurrent", "setup": [], "tasks": tasks,
            "schedule": schedule(r)}


def c06(r):
    if r.random() < 0.35:
        return c06_siblings(r)
    d = gen.ddef(r, small=True)
    n = r.choice([2, 2, 3])
    tasks = []
    same = r.random() < 0.3
    dc0 = gen.decl(r, d=d, small=True)
    for t in range(n):
        if same:
            dc = copy.deepcopy(dc0)
        else:
            dd = d if r.random() < 0.75 else gen.other_data(r, d, True)
            dc = gen.decl(r, d=dd, kinds=[dc0["kind"]] if r.random() < 0.6
                          else None, small=True)
        m = "m%d" % t
        es = [E(["new", m, dc])]
        a = gen.fit(r, dc, seeded=True)
        a["maxiter"] = r.choice([1, 2, 3])
        a.pop("ambient", None)
        es.append(E(["fit", m, a]))
        for _ in range(r.randint(0, 2)):
            q = r.random()
            if q < 0.5:
                o = gen.reader(r, m, dc, seeded=True)
                if len(o) > 2 and isinstance(o[2], dict):
                    o[2].pop("ambient", None)
                es.append(E(o))
            elif q < 0.75 and dc["kind"] != "Mixed Logit":
                b = "b%d" % t
                es.append(E(["bnew", b, m, boot_vals(r, dc)]))
                ba = gen.bootargs(r, dc, seeded=True)
                ba.pop("ambient", None)
                ba.update(n=2, maxiter=1, mnl_maxiter=1, mnlkw=True)
                es.append(E(["boot", b, ba]))
                es += more_boot(r, b, dc)
            elif q < 0.82:
                es.append(E(["wide", wide_args(r, dc["d"])]))
            else:
                a2 = gen.fit(r, dc, seeded=True)
                a2["maxiter"] = 1
                a2.pop("ambient", None)
                es.append(E(["fit", m, a2]))
        tasks.append(es)
    # now and then one thread's last operation fails; the others must not notice
    if r.random() < 0.2:
        e = r.choice(tasks)[-1]
        if e["op"][0] not in ("new", "bnew"):
            e["faults"] = [gen.line_fault(r, tail=0.3)]
    return {"exec": "concurrent", "setup": [], "tasks": tasks,
            "schedule": schedule(r)}


# -- C07 ---------------------------------------------------------------------
def c07(r):
    dc = gen.decl(r, small=True)
    a = gen.fit(r, dc, seeded=True, just_point=False)
    a.pop("ambient", None)
    setup = [E(["new", "m", dc]), E(["fit", "m", a])]
    tasks = []
    for t in range(r.choice([2, 3])):
        es = []
        for _ in range(r.randint(1, 3)):
            q = r.random()
            if q < 0.2 and dc["kind"] != "Mixed Logit":
                b = "b%d_%d" % (t, len(es))
                es.append(E(["bnew", b, "m", boot_vals(r, dc)]))
                ba = gen.bootargs(r, dc, seeded=True)
                ba.pop("ambient", None)
                ba.update(n=2, maxiter=1, mnl_maxiter=1, mnlkw=True)
                es.append(E(["boot", b, ba]))
                es += more_boot(r, b, dc)
            else:
                o = gen.reader(r, "m", dc, seeded=True)
                if len(o) > 2 and isinstance(o[2], dict):
                    o[2].pop("ambient", None)
                es.append(E(o))
        tasks.append(es)
    return {"exec": "concurrent", "setup": setup, "tasks": tasks,
            "schedule": schedule(r), "readers": True}


# -- C08 ---------------------------------------------------------------------
DISK_KINDS = ["crash", "crash", "crash", "ENOSPC", "EIO", "EDQUOT",
              "KeyboardInterrupt", "short"]


def c08(r):
    ms = {}
    kinds = KINDS
    for n in ("A", "B"):
        dc = gen.decl(r, kinds=kinds, small=r.random() < 0.7)
        fit = gen.fit(r, dc, just_point=False, seeded=True) \
            if r.random() < 0.6 else None
        if fit:
            fit["maxiter"] = 1
        ms[n] = [dc, fit]
    plan = {"exec": "save", "models": ms, "entries": [],
            "bufsize": r.choice([512, 4096, 8192, 65536]),
            "power": r.randrange(1, 1 << 20) if r.random() < 0.6 else 0}
    paths = [r.choice(["model.pkl", "model.pkl", "model", "other.pkl"])]
    if r.random() < 0.35:
        # other saved models beside it, under names that look alike
        paths += r.sample(["model.v2", "model.v2.pkl", "model.pkl.bak",
                           "model.", "model.tmp", "model.PKL", "sub/model",
                           "model.pkl.pkl", ".model", "model 1"],
                          r.randint(1, 3))
    if r.random() < 0.3:
        plan["foreign"] = ["notes.txt", "model.pkl.tmp", "model.tmp",
                           "model.pkl~", "model", ".model.pkl.swp"]
    path = paths[0]
    es = plan["entries"]
    if r.random() < 0.08:
        es.append({"op": "link", "path": path})
    if r.random() < 0.85:
        es.append({"op": ["save", "A"], "path": path})
    for extra in paths[1:]:
        es.append({"op": ["save", r.choice("AB")], "path": extra})
    for _ in range(r.randint(1, 3)):
        m = r.choice(["B", "B", "A"])
        path = r.choice(paths)
        if r.random() < 0.15:
            es.append({"op": ["csave", "A", "B"], "path": path,
                       "schedule": schedule(r), "reads": r.randint(2, 8)})
            continue
        e = {"op": ["save", m], "path": path}
        q = r.random()
        if q < 0.75:
            k = r.choice(DISK_KINDS)
            e["fault"] = {"at": "disk", "kind": k, "frac": r.random()}
            if k in ("ENOSPC", "EIO", "EDQUOT", "short") and r.random() < 0.7:
                e["fault"]["part"] = round(r.random(), 3)
            elif k == "short":
                e["fault"]["part"] = 0.5
        elif q < 0.95:
            e["fault"] = (gen.line_fault(r, tail=0.2) if r.random() < 0.7
                          else gen.seam_fault(r, ["stdout"]))
        es.append(e)
    if r.random() < 0.5:
        es.append({"op": ["save", r.choice("AB")], "path": path})
    return plan


# -- C09 ---------------------------------------------------------------------
def c09(r):
    dcs = models(r, r.choice([1, 1, 2]), small=r.random() < 0.5)
    es = history(r, dcs, r.randint(3, 7), boots=r.random() < 0.4, restart=0.15)
    es.append(E(["restart"]))
    for i, dc in enumerate(dcs):
        if not any(e["op"][0] == "new" and e["op"][1] == "m%d" % i for e in es):
            continue
        for _ in range(r.randint(1, 2)):
            q = r.random()
            if q < 0.5:
                es.append(E(gen.reader(r, "m%d" % i, dc)))
            elif q < 0.65 and dc["kind"] != "Mixed Logit":
                b = "c%d" % i
                es.append(E(["bnew", b, "m%d" % i, boot_vals(r, dc)]))
                a = gen.bootargs(r, dc)
                a.update(n=2, maxiter=1, mnl_maxiter=1)
                es.append(E(["boot", b, a]))
                if r.random() < 0.5:
                    es.append(E(gen.bext(r, b, dc, "bootstrap")))
            else:
                es.append(E(["fit", "m%d" % i, gen.fit(r, dc)]))
    es = scenario(r, es, 0.3)
    return {"exec": "serial", "entries": es, "stop_on_mutation": False}


# -- C10 ---------------------------------------------------------------------
def c10(r):
    dcs = models(r, r.choice([1, 2, 3]), small=r.random() < 0.4)
    fm = mixed_fault(r) if r.random() < 0.5 else None
    es = history(r, dcs, r.randint(6, 11), faults=0.35, fault_maker=fm, bad=0.15)
    if r.random() < 0.3:
        d = dcs[0]["d"]
        es.append(E(["wide", wide_args(r, d)]))
    es = scenario(r, es, 0.3)
    return {"exec": "serial", "entries": es, "tolerate_torn": True,
            "clock": clock(r, 0.1)}


# -- C11 ---------------------------------------------------------------------
def c11(r):
    dc = gen.decl(r, kinds=NOT_MIXED, small=r.random() < 0.6)
    dc.pop("names", None)
    es = []
    for _ in range(r.randint(1, 2)):
        if r.random() < 0.75:
            a = gen.bootargs(r, dc)
            a["mnlkw"] = True
            es.append(E(["boot", "b", a]))
        else:
            a = gen.jackargs(r, dc)
            a["mnlkw"] = True
            es.append(E(["jack", "b", a]))
    plan = {"exec": "resample", "decl": dc, "vals": boot_vals(r, dc),
            "entries": es, "rng0": r.randrange(1, 10 ** 6),
            "clock": clock(r, 0.2)}
    if r.random() < 0.3:
        plan["fit"] = gen.fit(r, dc, just_point=False)
    return plan


# -- C12 ---------------------------------------------------------------------
def c12(r):
    dc = gen.decl(r, kinds=NOT_MIXED, small=True)
    es = [E(["new", "m0", dc])]
    if r.random() < 0.4:
        es.append(E(["fit", "m0", gen.fit(r, dc, just_point=False)]))
    es.append(E(["bnew", "b", "m0", boot_vals(r, dc)]))

    def fault(p):
        if r.random() > p:
            return None
        if r.random() < 0.65:
            return [gen.line_fault(r, tail=0.4)]
        return [gen.seam_fault(r, ["eval", "minimize", "stdout", "stderr"])]

    def small(a):
        a["maxiter"] = 1
        a["mnl_maxiter"] = 1
        a["mnlkw"] = True
        a.pop("cons", None)
        if "n" in a:
            a["n"] = r.choice([2, 3])
        return a
    have_b = have_j = False
    names = param_names(dc)
    if names is not None and r.random() < 0.4:
        # replicates from elsewhere; mostly intervals
        for which, n in (("bootstrap", r.choice([3, 9, 40])),
                         ("jackknife", r.choice([4, 9]))):
            es.append(E(["give", "b", which,
                         {"n": n, "seed": r.randrange(1, 999)}, names]))
        for _ in range(r.randint(3, 6)):
            t = r.choice(["pi", "bca", "bca", "all", "all", "abc"])
            f = fault(0.55)
            if f and r.random() < 0.5:
                f = [gen.seam_fault(r, ["stdout", "stdout", "eval", "minimize"])]
            es.append(E(["int", "b", {"t": t, "pct": r.choice(gen.PCT),
                                      "maxiter": 1, "ctl": r.random() < 0.3}],
                        f))
            if r.random() < 0.15:
                es.append(E(["give", "b", "bootstrap", {
                    "n": r.choice([3, 9, 40]), "seed": r.randrange(1, 999)},
                    names]))
        have_b = have_j = True
    for _ in range(r.randint(2, 5) if not have_b else r.randint(0, 1)):
        q = r.random()
        if q < 0.35 or not have_b:
            es.append(E(["boot", "b", small(gen.bootargs(r, dc))],
                        fault(0.6 if have_b else 0.3)))
            have_b = True
        elif q < 0.5 or (not have_j and q < 0.6):
            es.append(E(["jack", "b", small(gen.jackargs(r, dc))],
                        fault(0.6 if have_j else 0.3)))
            have_j = True
        elif q < 0.82:
            t = r.choice(["pi", "bca", "abc", "all", "all"] if have_j
                         else ["pi", "pi", "abc"])
            es.append(E(["int", "b", {"t": t, "pct": r.choice(gen.PCT),
                                      "maxiter": 1, "ctl": r.random() < 0.5}],
                        fault(0.6)))
        else:
            which = r.choice(["bootstrap", "jackknife"] if have_j
                             else ["bootstrap"])
            if r.random() < 0.6:
                # log-likelihoods once, and again with a fault
                es.append(E(["bll", "b", which]))
                if r.random() < 0.5 and which == "bootstrap":
                    es.append(E(["boot", "b", small(gen.bootargs(r, dc))]))
                es.append(E(["bll", "b", which], fault(0.85)))
            else:
                es.append(E(gen.bext(r, "b", dc, which), fault(0.4)))
    return {"exec": "serial", "entries": es, "stop_on_mutation": False,
            "tolerate_torn": True, "clock": clock(r, 0.1)}


# -- C13 / C14 / C16 -----------------------------------------------------------
def adversary(r, dc, a, real_p=0.4):
    cfg = {"seed": r.randrange(1 << 30)}
    if r.random() < real_p:
        cfg["mode"] = "real"
        if r.random() < 0.35:
            cfg["stop_after"] = r.randint(1, 6)
    else:
        cfg["mode"] = r.choice(["stay", "jump", "jump"])
        cfg["ok"] = r.random() < 0.5
        cfg["msg"] = r.choice(["sim: done", "Maximum number of iterations has "
                               "been exceeded.", "CONVERGENCE"])
        hold = list(a.get("cons") or [])
        if dc["kind"] == "Nested Logit":
            from .world import model_inputs
            hold += [i for i, v in enumerate(
                model_inputs(dc)[2]["nest_spec"].values()) if len(v) == 1]
        cfg["hold"] = sorted(set(hold))
    if r.random() < 0.4:
        cfg["before"] = r.randint(1, 3)
    if r.random() < 0.5:
        cfg["after"] = r.randint(1, 3)
    if r.random() < 0.4:
        cfg["buffer"] = True
    if r.random() < 0.4:
        cfg["scribble"] = True
    return cfg


def opt_plan(r, cons=None, just_point=False, real_p=0.4, methods=None):
    dc = gen.decl(r, small=r.random() < 0.6)
    es = []
    for _ in range(r.choice([1, 1, 2])):
        a = gen.fit(r, dc, just_point=just_point and r.random() < 0.3,
                    seeded=True)
        if cons is not None and r.random() < cons:
            n = n_params(dc)
            a["cons"] = sorted(r.sample(range(n), r.randint(1, max(1, n - 1))))
        if cons == 0.0:
            a.pop("cons", None)
        if r.random() < 0.4:
            a["loss_tol"] = r.choice([1e-3, 1e-8])
            a["gradient_tol"] = r.choice([1e-2, 1e-7])
        if methods:
            a["method"] = r.choice(methods)
        if a["maxiter"] == 0 and a.get("method", "BFGS") not in ("BFGS", "CG"):
            a["maxiter"] = 2
        if a.get("cons") and r.random() < 0.1:
            a["neg"] = True
        es.append({"fit": a, "adv": adversary(r, dc, a, real_p)})
    return {"exec": "opt", "decl": dc, "entries": es, "clock": clock(r, 0.1)}


def c13(r):
    return opt_plan(r)


def c14(r):
    return opt_plan(r, cons=0.85, just_point=True, real_p=0.7,
                    methods=["BFGS", "BFGS", "L-BFGS-B", "CG", "Newton-CG",
                             "trust-ncg", "SLSQP", "TNC", "trust-krylov",
                             "trust-exact"])


def c16(r):
    return opt_plan(r, just_point=True, real_p=0.6,
                    methods=["BFGS", "BFGS", "L-BFGS-B", "CG", "Newton-CG",
                             "SLSQP", "TNC", "Nelder-Mead", "Powell",
                             "trust-ncg"])


# -- C15 ---------------------------------------------------------------------
def c15(r):
    dcs = models(r, r.choice([1, 1, 2]), small=r.random() < 0.5)
    es = history(r, dcs, r.randint(3, 7))
    for e in es:
        if e["op"][0] in ("fit", "boot", "jack", "int"):
            e["op"][2]["print"] = r.random() < 0.7
    return {"exec": "serial", "entries": es,
            "clock": clock(r, 1.0), "ref": "silent", "stop_on_mutation": False}


# -- C17 ---------------------------------------------------------------------
def c17(r):
    if r.random() < 0.3:
        p = c07(r) if r.random() < 0.5 else c06(r)
        p["oracle"] = True
        return p
    kinds = KINDS + ["Mixed Logit"]
    dcs = models(r, r.choice([1, 2, 2, 3]), kinds=kinds, small=r.random() < 0.3,
                 big=0.04)
    fm = mixed_fault(r) if r.random() < 0.3 else None
    es = []
    fitted = {}
    for i, dc in enumerate(dcs):
        es.append(E(["new", "m%d" % i, dc]))
    for _ in range(r.randint(5, 10)):
        i = r.randrange(len(dcs))
        m, dc = "m%d" % i, dcs[i]
        if m not in fitted or r.random() < 0.2:
            op = ["fit", m, gen.fit(r, dc, just_point=None if m in fitted
                                    else False)]
            fitted[m] = True
        elif r.random() < 0.08:
            op = ["restart"]
        elif r.random() < 0.15:
            op = gen.reader(r, m, dc)
        else:
            op = ["pred", m, gen.pred(r, dc)]
        f = None
        if fm is not None and op[0] != "restart" and r.random() < 0.3:
            f = [fm(op, None)]
        es.append(E(op, f))
    return {"exec": "serial", "entries": habits(r, scenario(r, es, 0.5)),
            "oracle": True,
            "stop_on_mutation": False, "clock": clock(r, 0.1),
            "rng0": r.randrange(1, 10 ** 6)}


def c17_relevant(v, plan):
    op = v.get("opv")
    return v["class"] == "definition" or (
        v["class"] in ("result", "result-after-fault", "concurrent",
                       "no-progress", "deadlock")
        and op is not None and op[0] == "pred")


# -- C18 ---------------------------------------------------------------------
def c18_mixed(r):
    """Replicates of a mixed logit model come from the caller; their
    log-likelihoods are simulated."""
    dc = gen.decl(r, kinds=["Mixed Logit"], small=r.random() < 0.8)
    names = param_names(dc)
    es = [E(["new", "m0", dc]), E(["fit", "m0", gen.fit(r, dc, False)]),
          E(["bnew", "b0", "m0", "params"])]
    fm = mixed_fault(r) if r.random() < 0.35 else None
    have = []
    for _ in range(r.randint(6, 10)):
        q = r.random()
        if not have or q < 0.2:
            which = r.choice(["bootstrap", "bootstrap", "jackknife"])
            n = r.choice([1, 2, 2, 3, 5])
            op = ["give", "b0", which, [[round(r.uniform(-0.6, 0.6), 3)
                                         for _ in range(n)] for _ in names],
                  names]
            have.append(which)
        elif q < 0.4:
            op = ["int", "b0", {"t": "pi", "pct": r.choice(gen.PCT)}]
        elif q < 0.5:
            op = gen.reader(r, "m0", dc)
        else:
            op = ["bll", "b0", r.choice(have),
                  gen.rnd(r, {"draws": r.choice([2, 3, 5])})]
        f = None
        if fm is not None and op[0] != "give" and r.random() < 0.3:
            f = [fm(op, None)]
        es.append(E(op, f))
    return {"exec": "serial", "entries": es, "oracle": True,
            "stop_on_mutation": False, "tolerate_torn": True,
            "clock": clock(r, 0.1), "rng0": r.randrange(1, 10 ** 6)}


def c18_given(r):
    """Many replicates, computed elsewhere, and many statistics."""
    dc = gen.decl(r, kinds=NOT_MIXED, small=True)
    dc.pop("names", None)
    names = param_names(dc)
    es = [E(["new", "m0", dc]), E(["bnew", "b0", "m0", boot_vals(r, dc)])]
    fm = mixed_fault(r) if r.random() < 0.35 else None

    def give(which, n):
        es.append(E(["give", "b0", which, {
            "n": n, "seed": r.randrange(1, 9999),
            "dec": r.choice([1, 2, 6, 6])}, names]))
    size = r.choice([r.randint(30, 200), r.randint(200, 1500)])
    give("bootstrap", size)
    jack = r.random() < 0.7
    if jack:
        give("jackknife", r.randint(5, 60))
    for _ in range(r.randint(5, 9)):
        q = r.random()
        if q < 0.15:
            give("bootstrap", size if r.random() < 0.6 else r.randint(30, 600))
        elif q < 0.2 and jack:
            give("jackknife", r.randint(5, 60))
        else:
            op = ["int", "b0", {"t": r.choice(["pi", "bca"]) if jack else "pi",
                                "ctl": r.random() < 0.5,
                                "pct": r.choice(gen.PCT + [
                                    round(r.uniform(1, 99.9), 2)])}]
            es.append(E(op, [fm(op, None)] if fm and r.random() < 0.3
                        else None))
    return {"exec": "serial", "entries": es, "oracle": True,
            "stop_on_mutation": False, "tolerate_torn": True,
            "clock": clock(r, 0.1), "rng0": r.randrange(1, 10 ** 6)}


def c18(r):
    q = r.random()
    if q < 0.1:
        return c18_mixed(r)
    if q < 0.3:
        return c18_given(r)
    dcs = models(r, r.choice([1, 1, 2]), kinds=NOT_MIXED, small=r.random() < 0.9)
    es, have = [], {}
    for i, dc in enumerate(dcs):
        es.append(E(["new", "m%d" % i, dc]))
        vals = boot_vals(r, dc)
        if r.random() < 0.3:
            a = gen.fit(r, dc, just_point=False)
            a.pop("cons", None)
            a["maxiter"] = r.choice([2, 4])
            es.append(E(["fit", "m%d" % i, a]))
            vals = "params"
        es.append(E(["bnew", "b%d" % i, "m%d" % i, vals]))
        have["b%d" % i] = set()
    fm = mixed_fault(r) if r.random() < 0.35 else None
    size = {}
    for _ in range(r.randint(8, 15)):
        i = r.randrange(len(dcs))
        m, b, dc = "m%d" % i, "b%d" % i, dcs[i]
        q = r.random()
        if not have[b] or q < 0.13:
            a = gen.bootargs(r, dc)
            q2 = r.random()
            a["n"] = r.choice([2, 3, 4, 5] if q2 < 0.7 else
                              [1, 7, 9, 11] if q2 < 0.95 else [20, 21])
            if r.random() < 0.5:
                # as many replicates as before
                a["n"] = size.get(b, a["n"])
            size[b] = a["n"]
            a["maxiter"] = r.choice([1, 1, 2])
            a["mnlkw"] = True
            op = ["boot", b, a]
            have[b].add("bootstrap")
        elif q < 0.17 or (q < 0.35 and "jackknife" not in have[b]):
            a = gen.jackargs(r, dc)
            a["mnlkw"] = True
            op = ["jack", b, a]
            have[b].add("jackknife")
        elif q < 0.7:
            ts = ["pi", "pi", "pi", "abc"]
            if "jackknife" in have[b]:
                ts = ["pi", "pi", "bca", "bca", "bca", "all", "all"]
            op = ["int", b, {"t": r.choice(ts), "ctl": r.random() < 0.5,
                             "pct": r.choice(gen.PCT),
                             "maxiter": 1}]
        elif q < 0.97:
            op = gen.bext(r, b, dc, r.choice(sorted(have[b])))
        else:
            op = ["fit", m, gen.fit(r, dc)]
        f = None
        if fm is not None and r.random() < 0.3:
            f = [fm(op, None)]
        es.append(E(op, f))
    return {"exec": "serial", "entries": es, "oracle": True,
            "stop_on_mutation": False, "tolerate_torn": True,
            "clock": clock(r, 0.1), "rng0": r.randrange(1, 10 ** 6)}


def c18_relevant(v, plan):
    op = v.get("opv")
    return v["class"] == "definition" or (
        v["class"] in ("result", "result-after-fault", "boot-result",
                       "boot-state", "no-progress")
        and op is not None and op[0] in ("int", "bll", "bgrad"))


# ------------------------------------------------------------------------------
def classes(*cs):
    def f(v, plan):
        return v["class"] in cs
    return f


AGREE = ("result", "state", "result-after-fault", "state-after-fault",
         "boot-result", "boot-state", "no-progress", "other-process")


def c03_relevant(v, plan):
    if v["class"] in ("torn", "absorbed", "no-progress"):
        return True
    # what an estimation reports, and what is read from it afterwards
    return v["class"] in ("result", "result-after-fault", "state",
                          "state-after-fault")


def c04_relevant(v, plan):
    """Anything that differs after an operation failed."""
    if v["class"] in ("result-after-fault", "state-after-fault", "no-progress",
                      "ambient-after-fault", "torn", "torn-boot"):
        return True
    return v["class"] in ("boot-result", "boot-state") and v.get("faulted")


PROPS = {
    "C01": (c01, c01_relevant),
    "C02": (c02, c02_relevant),
    "C03": (c03, c03_relevant),
    "C04": (c04, c04_relevant),
    "C05": (c05, classes(*AGREE + ("ambient",))),
    "C06": (c06, classes("concurrent", "deadlock", "no-progress")),
    "C07": (c07, classes("concurrent", "deadlock", "no-progress")),
    "C08": (c08, classes("save", "save-fails")),
    "C09": (c09, classes(*AGREE + ("restart",))),
    "C10": (c10, classes("mutated")),
    "C11": (c11, classes("resample")),
    "C12": (c12, classes("torn-boot", "boot-state", "boot-result",
                         "absorbed", "no-progress")),
    "C13": (c13, classes("report", "objective", "optimiser", "fit-fails",
                         "point")),
    "C14": (c14, classes("constraint", "fit-fails")),
    "C15": (c15, classes(*AGREE)),
    "C16": (c16, classes("request", "point", "fit-fails")),
    "C17": (c17, c17_relevant),
    "C18": (c18, c18_relevant),
}


def make_plan(prop, seed):
    r = random.Random("%s/%d" % (prop, seed))
    p = PROPS[prop][0](r)
    p["prop"] = prop
    p["seed"] = seed
    return p
