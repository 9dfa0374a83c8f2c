"""Oracles that do not involve the library: predictions and bootstrap
statistics recomputed from their definitions (see ref.py for the models)."""
import math

import numpy as np

from .ref import RefModel, param_names
from .world import make_df, param_blocks, n_params, row_weights

TOL = dict(rtol=2e-5, atol=1e-8)


def _near(a, b, rtol=2e-5, atol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol)


def _show(a, b):
    a = np.atleast_1d(np.asarray(a, dtype=float))
    b = np.atleast_1d(np.asarray(b, dtype=float))
    if a.shape != b.shape:
        return "shape %s, expected %s" % (a.shape, b.shape)
    bad = ~np.isclose(a, b, **TOL)
    k = int(np.argmax(bad.ravel()))
    return "entry %d of %d is %.6g, expected %.6g" % (
        k, a.size, a.ravel()[k], b.ravel()[k])


# --------------------------------------------------------------------------
# Predictions
# --------------------------------------------------------------------------
def plist_vectors(decl, a):
    """The parameter vectors of a prediction with an explicit param_list."""
    rs = np.random.RandomState(a["plist"]["seed"])
    cols = a["plist"].get("cols", 0)
    parts = []
    for name, n in param_blocks(decl):
        shape = (n, cols) if cols else (n,)
        parts.append(np.round(rs.uniform(-1, 1, size=shape) * 0.4, 3))
    p = np.concatenate(parts, axis=0)
    return ([p[:, k] for k in range(cols)] if cols else [p]), bool(cols)


def expected_prediction(decl, a, params):
    """-> what predict/panel_predict must return, or None when the reference
    model cannot say (numbers too extreme, draws unknown)."""
    if not a.get("long", True) and not a.get("choice"):
        return None         # not a valid request
    d = a.get("d") or decl["d"]
    df = make_df(d)
    kw = {}
    mixed = decl["kind"] == "Mixed Logit"
    if mixed:
        seed = a.get("seed")
        if seed is None:
            seed = a.get("ambient")
        if seed is None:
            return None
        kw = {"draws": a.get("draws", 4), "seed": seed}
    R = RefModel(decl, df=df, **kw)
    if a.get("plist") is not None and not a.get("panel"):
        if mixed and params is None:
            return None     # its parameters are only laid out by estimation
        vecs, two_d = plist_vectors(decl, a)
    elif params is None:
        return None
    else:
        vecs, two_d = [np.asarray(params, dtype=float)], False
    out = []
    for p in vecs:
        if p.shape != (n_params(decl),) or not np.isfinite(p).all() \
                or extreme(R, p):
            return None
        pr = R.probs(p)
        if mixed:
            wts = np.full((R.n_units, a.get("draws", 4)),
                          1.0 / a.get("draws", 4))
            if a.get("panel"):
                wts = panel_weights(decl, R, p, wts)
                if wts is None:
                    return None
            pr = (pr * wts[R.unit_of]).sum(axis=1)
        out.append(pr)
    longp = np.stack(out, axis=1) if two_d else out[0]
    want_long = bool(a.get("long", True))
    if want_long and not a.get("choice"):
        return longp
    rows = [r[[k for k, i in enumerate(r) if R.choice[i] == 1][0]]
            for r in R.obs]
    chosen = longp[rows]
    if want_long and a.get("choice"):
        if decl["kind"] == "Nested Logit":
            return longp
        return [chosen, longp]
    return longp if want_long else chosen


def extreme(R, p):
    u = R.utility(p)
    if not np.isfinite(u).all() or np.abs(u).max() > 30:
        return True
    V = R.X.dot(R.split(p)["coefs"][:R.X.shape[1]])
    if np.abs(V).max() > 30 or R.steep(p, 60):
        return True
    if R.kind == "Asym":
        # the transformation jumps where a utility is zero but for rounding
        nz = V[np.abs(R.X).sum(axis=1) > 0]
        return bool((np.abs(nz) < 1e-9).any())
    if R.kind == "Cloglog":
        return bool((V > 3.5).any() or (V < -25).any())
    return False


def panel_weights(decl, R, p, wts):
    """Weights of the draws of individuals whose past choices are in the
    estimation data: proportional to the probability of those choices."""
    past = make_df(decl["d"])
    new_ids = []
    for x in R.df["pid"].values.tolist():
        if x not in new_ids:
            new_ids.append(x)
    wts = wts.copy()
    for k, ident in enumerate(new_ids):
        mine = past[past["pid"] == ident]
        if not len(mine):
            continue
        P = RefModel(decl, df=mine.reset_index(drop=True), alts=R.alts,
                     draw_arrays=[x[k:k + 1] for x in R.draws])
        if extreme(P, p):
            return None
        seq = np.exp((np.log(P.probs(p)) * P.choice[:, None]).sum(axis=0))
        wts[k] = seq / seq.sum()
    return wts


def check_prediction(decl, a, params, res):
    """None, or what is wrong with a prediction."""
    want = expected_prediction(decl, a, params)
    if want is None:
        return None
    if isinstance(want, list):
        if not isinstance(res, (list, tuple)) or len(res) != 2:
            return "chosen and long probabilities were requested, got %s" % (
                type(res).__name__)
        pairs = list(zip(("chosen", "long"), res, want))
    else:
        if not isinstance(res, np.ndarray):
            return "%s returned" % type(res).__name__
        pairs = [("predicted", res, want)]
    for what, g, w in pairs:
        if w.ndim == 2 and w.shape[1] == 1:
            # one column of parameters: with or without the second axis
            w = w.ravel()
            g = g.ravel() if g.shape[1:] == (1,) else g
        if not _near(g, w):
            return "%s probabilities: %s" % (what, _show(g, w))
    return False


# --------------------------------------------------------------------------
# Statistics of stored replicates
# --------------------------------------------------------------------------
def order_stats(col, q, how):
    """The admissible values of the q-th percentile (more than one only when
    rounding decides)."""
    s = np.sort(np.asarray(col, dtype=float))
    pos = (len(s) - 1) * q / 100.0
    fn = math.floor if how == "lower" else math.ceil
    out = {fn(pos)}
    for e in (-1e-7, 1e-7):
        if 0 <= pos + e <= len(s) - 1:
            out.add(fn(pos + e))
    return [s[min(max(k, 0), len(s) - 1)] for k in out]


def bca_percents(boot, jack, mle, pct):
    from scipy.stats import norm
    B = len(boot)
    below = sum(1 for v in boot if v < mle)
    if below in (0, B):
        return None
    z0 = norm.ppf(below / float(B))
    dev = np.mean(jack) - np.asarray(jack)
    den = 6 * np.sum(dev ** 2) ** 1.5
    if den < 1e-14:
        return None
    acc = np.sum(dev ** 3) / den
    out = []
    for tail in ((100 - pct) / 200.0, 1 - (100 - pct) / 200.0):
        z = norm.ppf(tail)
        out.append(100 * norm.cdf(z0 + (z0 + z) / (1 - acc * (z0 + z))))
    return out


def check_interval(t, pct, got, boot, jack, mle):
    """got: the canonical data frame of an interval."""
    lab = ["%.3g%%" % ((100 - pct) / 2.0), "%.3g%%" % (100 - (100 - pct) / 2.0)]
    if got["columns"] != ["index"] + lab:
        return "%s interval is labelled %s, expected %s" % (
            t, got["columns"][1:], lab)
    if len(got["values"]) != 2 or got["values"][0].shape != (boot.shape[1],):
        return "%s interval has the wrong shape" % t
    done = 0
    for j in range(boot.shape[1]):
        if t == "pi":
            q = [(100 - pct) / 2.0, 100 - (100 - pct) / 2.0]
        else:
            q = bca_percents(boot[:, j], jack[:, j], mle[j], pct)
            if q is None or not np.isfinite(q).all():
                continue
        if not np.isfinite(boot[:, j]).all():
            continue
        for k, how in ((0, "lower"), (1, "higher")):
            ok = order_stats(boot[:, j], q[k], how)
            v = got["values"][k][j]
            done += 1
            if not any(abs(v - o) <= 1e-9 * (1 + abs(o)) for o in ok):
                return "%s %g%% interval, parameter %d, %s end is %.6g, " \
                    "expected %.6g" % (t, pct, j, how, v, ok[0])
    return False if done else None


def check_labels(decl, t, pct, now):
    """Names of parameters and limits of every kind of interval just made, and
    the combined table as the sum of its parts."""
    lab = ["%.3g%%" % ((100 - pct) / 2.0), "%.3g%%" % (100 - (100 - pct) / 2.0)]
    parts = [("pi", "percentile_interval", "percentile_interval"),
             ("bca", "bca_interval", "BCa_interval"),
             ("abc", "abc_interval", "ABC_interval")]
    names = param_names(decl)
    cols, vals = [], []
    for x, attr, title in parts:
        if t not in (x, "all"):
            continue
        iv = now[attr]
        if not isinstance(iv, dict):
            return "%s is missing" % attr
        if iv["columns"][1:] != lab:
            return "%s is labelled %s, expected %s" % (attr, iv["columns"][1:],
                                                       lab)
        if names is not None and iv["index"][1:] != names:
            return "%s lists %s, the parameters are %s" % (
                attr, iv["index"][1:], names)
        cols += [[title, x] for x in lab]
        vals += list(iv["values"])
    if t == "all":
        iv = now["all_intervals"]
        if not isinstance(iv, dict) or iv["columns"][1:] != cols:
            return "all_intervals has columns %s" % (
                iv["columns"][1:] if isinstance(iv, dict) else iv)
        if names is not None and iv["index"][1:] != names:
            return "all_intervals lists %s" % iv["index"][1:]
        for k, v in enumerate(vals):
            if not np.array_equal(v, iv["values"][k], equal_nan=True):
                return "all_intervals, column %s is not the stored interval" \
                    % (cols[k],)
    return None


def check_log_likelihoods(decl, reps, res):
    R = RefModel(decl)
    if reps.shape[0] == 1:
        res = np.reshape(res, -1)       # one replicate: a plain number
    if not isinstance(res, np.ndarray) or res.shape != (reps.shape[0],):
        return "log-likelihoods: %s for %d replicates" % (
            getattr(res, "shape", type(res).__name__), reps.shape[0])
    done = 0
    for k, p in enumerate(reps):
        if not np.isfinite(p).all() or extreme(R, p):
            continue
        done += 1
        want = R.ll(p)
        if not _near(res[k], want, atol=1e-6):
            return "log-likelihood of replicate %d is %.6g, expected %.6g" % (
                k, res[k], want)
    return False if done else None


def check_gradient_norms(decl, reps, a, res):
    if decl["kind"] == "Nested Logit" and a.get("ridge") is not None:
        return None         # known finding nested-ridge-gradient
    R = RefModel(decl, ridge=a.get("ridge"))
    if a.get("wts"):
        wts = row_weights(R.df, a["wts"])
        R.obs_weights = np.array([wts[r[0]] for r in R.obs])
    if not isinstance(res, np.ndarray) or res.shape != (reps.shape[0],):
        return "gradient norms: %s for %d replicates" % (
            getattr(res, "shape", type(res).__name__), reps.shape[0])
    done = 0
    for k, p in enumerate(reps):
        if not np.isfinite(p).all() or R.kink(p):
            continue
        g = R.gradient(p)
        if not np.isfinite(g).all():
            continue
        done += 1
        want = float(np.linalg.norm(g))
        if not _near(res[k], want, atol=2e-6 + 60 * R.noise):
            return "gradient norm of replicate %d is %.6g, expected %.6g" % (
                k, res[k], want)
    return False if done else None
