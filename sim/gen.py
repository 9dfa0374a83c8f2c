"""Seeded generation of data sets, declarations, operations and faults."""
from .world import KINDS, n_params, param_blocks

METHODS = ["BFGS", "BFGS", "BFGS", "L-BFGS-B", "CG", "Newton-CG"]


def ddef(r, panel=False, small=False, big=False):
    J = r.choice([3, 3, 3, 4, 4, r.choice([2, 5])]) if not small \
        else r.choice([3] * 9 + [2])
    n = r.randint(2 * J, 2 * J + (6 if not small else 2))
    q = r.random() if not small else 1
    if q < 0.03:
        n = r.randint(30, 120)
    if big:
        n = r.randint(90, 380)
    d = {"seed": r.randrange(1, 400), "n": n, "J": J}
    if r.random() < 0.4:
        d["ids"] = "gap"
    o = r.random()
    if o < 0.3:
        d["obs"] = "perm"
    elif o < 0.45:
        d["obs"] = "off"
    elif o < 0.52:
        d["obs"] = "big"
    if r.random() < 0.1:
        d["dt"] = r.choice(["chf", "oidf", "i32", "xi"])
    if r.random() < 0.1:
        d["index"] = r.choice(["dup", "str"])
    if r.random() < 0.2:
        d["mix"] = r.randrange(1, 99)
    if r.random() < 0.35:
        d["avail"] = True
    if r.random() < 0.3:
        d["panel"] = "mod"
    if r.random() < 0.15:
        d["order"] = "rev"
    if r.random() < 0.08:
        d["csv"] = True
    return d


def decl(r, d=None, kinds=None, small=False):
    kind = r.choice(kinds or KINDS)
    d = d or ddef(r, small=small)
    J = d["J"]
    out = {"kind": kind, "d": d}
    out["z"] = r.choice(["same", "same", "some", "grp", "diff"]) \
        if not small else r.choice(["same", "some"])
    if kind in ("MNL", "Nested Logit", "Mixed Logit"):
        if r.random() < 0.5 and out["z"] != "diff":
            out["asc"] = True
            out["asc_ref"] = r.randrange(J)
    else:
        q = r.random()
        if q < 0.6:
            out["outint"] = True
            out["int_ref"] = r.randrange(J)
        elif q < 0.75:
            out["asc"] = True
            out["asc_ref"] = r.randrange(J)
    if kind == "Asym":
        out["shape_ref"] = r.randrange(J)
    if kind == "Nested Logit":
        out["cut"] = r.randrange(1, J)
        if J > 2 and out["cut"] < J - 1 and r.random() < 0.3:
            out["cut2"] = r.randrange(out["cut"] + 1, J)
        if r.random() < 0.5:
            out["nperm"] = r.randrange(1, 40)
    if kind == "Mixed Logit":
        mix = ["b_x"]
        if r.random() < 0.4:
            out["z"] = "same"
        if out["z"] == "same" and r.random() < 0.6:
            mix = r.choice([["b_x", "b_z"], ["b_x", "b_z"], ["b_z", "b_x"],
                            ["b_z"]])
        out["mix"] = mix
    elif r.random() < 0.1:
        out["names"] = False
    return out


def init(r):
    q = r.random()
    if q < 0.35:
        return {"kind": "zeros"}
    if q < 0.4:
        return {"kind": "int", "seed": r.randrange(1, 50)}
    out = {"kind": "rand", "seed": r.randrange(1, 50),
           "scale": r.choice([0.1, 0.4, 0.4, 0.9])}
    if r.random() < 0.3:
        out["dec"] = 15
    return out


def rnd(r, a, seeded=None):
    """Randomness of an operation: explicit seed, or an ambient state."""
    if seeded is None:
        seeded = r.random() < 0.7
    if seeded:
        a["seed"] = r.choice([1, 2, 3, 7, 4215, r.randrange(1, 10 ** 6),
                              r.randrange(1, 2 ** 32)])
        if r.random() < 0.4:
            a["ambient"] = r.randrange(1, 1000)
    else:
        a["ambient"] = r.randrange(1, 1000)
    return a


def draws(r):
    return r.choice([2, 3, 5]) if r.random() < 0.9 \
        else r.choice([1, 25, 101, 160])


def fit(r, dc, just_point=None, bad=0.0, seeded=None):
    a = {"init": init(r), "maxiter": r.choice([1, 2, 3, 4, 6])}
    m = r.choice(METHODS)
    if m != "BFGS":
        a["method"] = m
    if m in ("BFGS", "CG") and r.random() < 0.03:
        # (scipy's L-BFGS-B always makes one step)
        a["maxiter"] = 0
    if r.random() < 0.25:
        a["ridge"] = r.choice([0.1, 1.0])
    n = n_params(dc)
    if r.random() < 0.25:
        k = r.randint(1, max(1, n // 2))
        a["cons"] = r.sample(range(n), k)
        if r.random() < 0.1:
            a["neg"] = True         # counted from the end
    if just_point is None:
        just_point = r.random() < 0.15
    if just_point:
        a["just_point"] = True
    if r.random() < 0.5:
        a["print"] = True
    if dc["kind"] in ("Asym", "Scobit", "Uneven", "Cloglog") and r.random() < 0.2:
        a["split"] = True
    if dc["kind"] == "Mixed Logit":
        a["draws"] = draws(r)
        rnd(r, a, seeded)
    if r.random() < bad:
        a["bad"] = r.choice(["short", "ridge", "method"])
        a.pop("split", None)
        a.pop("cons", None)
    return a


def other_data(r, d, estimate=False):
    o = dict(d)
    if not estimate and r.random() < 0.25:
        # the same situations, but the alternatives in another order or with
        # their numbers exchanged
        q = r.random()
        if q < 0.5:
            o["mix"] = r.randrange(1, 99)
        else:
            o["relab"] = True
        return o
    o["seed"] = r.randrange(400, 600)
    o["n"] = r.randint(2 * d["J"], 2 * d["J"] + 4)
    if r.random() < 0.2 and not estimate:
        # (only predictions accept situations in any order)
        o["obs"] = "shuf"
    if r.random() < 0.3:
        # other people, or the same ones in another order
        o["people"] = r.randrange(1, 50)
    if r.random() < 0.5:
        o.pop("avail", None)
    return o


def pred(r, dc, seeded=None):
    a = {}
    if r.random() < 0.6:
        a["d"] = other_data(r, dc["d"])
    q = r.random()
    if a.get("d") and dc["kind"] in ("MNL", "Nested Logit", "Mixed Logit") \
            and dc["d"]["J"] > 2 and dc["z"] == "same" and r.random() < 0.3:
        # (the specification must not name an alternative that is missing)
        J = dc["d"]["J"]
        a["d"]["miss"] = dc.get("asc_ref", J - 1) if dc.get("asc") \
            else r.randrange(J)
        a["d"].pop("relab", None)
        q = 0
    if q < 0.4:
        a["long"] = True
    elif q < 0.75:
        a["long"] = False
        a["choice"] = True
    else:
        a["long"] = True
        a["choice"] = dc["kind"] != "Mixed Logit"
    if r.random() < 0.35:
        a["plist"] = {"seed": r.randrange(1, 50)}
        if dc["kind"] not in ("Nested Logit", "Mixed Logit") and r.random() < 0.4:
            a["plist"]["cols"] = r.choice([1, 2, 2, 3])
    if dc["kind"] == "Mixed Logit":
        a["draws"] = draws(r)
        rnd(r, a, seeded)
        if r.random() < 0.4:
            a["panel"] = True
            a.pop("plist", None)
    return a


def reader(r, m, dc, seeded=None):
    q = r.random()
    if q < 0.55:
        return ["pred", m, pred(r, dc, seeded)]
    if q < 0.7:
        a = {"alpha": r.choice([0.05, 0.1, 0.32]), "df": r.random() < 0.5}
        if dc.get("names") is not False and r.random() < 0.3:
            a["coefs"] = ["b_x"]
        return ["ci", m, a]
    if q < 0.85:
        if r.random() < 0.3:
            return ["smry", m, {"alpha": r.choice([0.1, 0.32]),
                                "title": "T %d" % r.randrange(9)}]
        return ["smry", m]
    return ["print", m]


def bootargs(r, dc, seeded=None):
    a = {"n": r.choice([2, 3, 5]), "maxiter": r.choice([1, 2, 3]),
         "mnl_maxiter": r.choice([1, 2, 3])}
    if seeded is None:
        seeded = r.random() < 0.7
    if seeded:
        a["seed"] = r.choice([0, 1, 2, 7, 1234, r.randrange(1, 10 ** 6)])
        if r.random() < 0.4:
            a["ambient"] = r.randrange(1, 1000)
    else:
        a["ambient"] = r.randrange(1, 1000)
    if r.random() < 0.2:
        a["ridge"] = 0.5
    if r.random() < 0.2:
        n = n_params(dc)
        a["cons"] = [r.randrange(n)]
    if r.random() < 0.3:
        a["mnlkw"] = True
    if r.random() < 0.2:
        a["mnl_method"] = "L-BFGS-B"
    if r.random() < 0.2:
        a["method"] = r.choice(["L-BFGS-B", "CG", "Newton-CG"])
    if r.random() < 0.1:
        a[r.choice(["loss_tol", "gradient_tol"])] = r.choice([1e-2, 0.5, 3.0])
    if r.random() < 0.15:
        a["extract"] = r.randrange(1, 5)
    return a


def bext(r, b, dc, which):
    """Log-likelihoods or gradient norms of stored replicates."""
    if r.random() < 0.5:
        return ["bll", b, which]
    a = {}
    if r.random() < 0.3:
        a["ridge"] = 0.5
    if r.random() < 0.3:
        a["cons"] = [r.randrange(n_params(dc))]
    if r.random() < 0.3:
        a["wts"] = r.randrange(1, 99)
    return ["bgrad", b, which, a]


PCT = [50, 68, 80, 90, 95, 97.5, 99, 66.6, 12.5]


BAD_NEW = ["alt", "choice", "spec", "names", "type", "nan", "kind"]


def jackargs(r, dc):
    a = bootargs(r, dc, seeded=True)
    for k in ("n", "seed", "ambient"):
        a.pop(k, None)
    a["maxiter"] = r.choice([1, 2])
    a["mnl_maxiter"] = r.choice([1, 2])
    return a


LINE_EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError",
            "RuntimeError", "SystemExit", "FloatingPointError"]


def line_fault(r, tail=0.5):
    f = {"at": "line", "exc": r.choice(LINE_EXC)}
    q = r.random()
    if q < tail:
        f["back"] = int(r.random() ** 2 * 160)
    else:
        f["frac"] = r.random()
    return f


SEAM_EXC = {
    "linalg": ["LinAlgError", "LinAlgError", "MemoryError"],
    "minimize": ["MemoryError", "RuntimeError", "FloatingPointError",
                 "KeyboardInterrupt"],
    "eval": ["FloatingPointError", "MemoryError", "KeyboardInterrupt",
             "LinAlgError"],
    "stdout": ["EPIPE", "ENOSPC", "EIO", "ClosedFile", "KeyboardInterrupt"],
    "stdout.flush": ["EPIPE", "EIO", "ENOSPC"],
    "stderr": ["EPIPE", "EIO", "ENOSPC", "ClosedFile", "KeyboardInterrupt"],
    "clock": ["KeyboardInterrupt"],
    "sleep": ["KeyboardInterrupt"],
}


def seam_fault(r, names):
    s = r.choice(names)
    return {"at": s, "exc": r.choice(SEAM_EXC[s]), "frac": r.random()}
