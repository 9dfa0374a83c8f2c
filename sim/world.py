"""The workload: data sets, model declarations and operations on pylogit's
public API, all described by JSON values; plus canonicalisation and comparison
of whatever the operations return.
"""
import json
import os
import re
import sys
from collections import OrderedDict

import numpy as np
import pandas as pd
import scipy.sparse

from . import env

KINDS = ["MNL", "Asym", "Cloglog", "Scobit", "Uneven", "Nested Logit",
         "Mixed Logit"]

# The estimation results that the documentation of the model classes lists and
# that summaries, predictions and intervals are computed from.
RESULT_ATTRS = [
    "params", "coefs", "intercepts", "shapes", "nests", "log_likelihood",
    "null_log_likelihood", "fitted_probs", "long_fitted_probs",
    "long_residuals", "ind_chi_squareds", "chi_square", "estimation_success",
    "estimation_message", "rho_squared", "rho_bar_squared", "gradient",
    "hessian", "cov", "standard_errors", "tvalues", "pvalues",
    "fisher_information", "robust_cov", "robust_std_errs", "robust_t_stats",
    "robust_p_vals", "summary", "fit_summary", "nobs", "df_model", "df_resid",
    "llf", "aic", "bic", "bse", "ind_var_names",
]
BOOT_ATTRS = ["mle_params", "bootstrap_replicates", "jackknife_replicates",
              "percentile_interval", "bca_interval", "abc_interval",
              "all_intervals", "bootstrap_log_likelihoods",
              "jackknife_log_likelihoods"]
ABSENT = "<absent>"


def key(x):
    return json.dumps(x, sort_keys=True)


# --------------------------------------------------------------------------
# Data
# --------------------------------------------------------------------------
def alt_ids(d):
    J = d["J"]
    if d.get("ids") == "gap":
        return [3 + 4 * j for j in range(J)]
    return [j + 1 for j in range(J)]


def make_df(d):
    rs = np.random.RandomState(d["seed"])
    n, J = d["n"], d["J"]
    ids = alt_ids(d)
    obs = np.arange(1, n + 1)
    if d.get("obs") == "perm":
        obs = np.sort(rs.permutation(np.arange(1, 3 * n + 1))[:n])
    elif d.get("obs") == "shuf":
        obs = rs.permutation(np.arange(1, 3 * n + 1))[:n]
    elif d.get("obs") == "off":
        obs = obs * 10 + 100
    elif d.get("obs") == "big":
        obs = obs + 4 * 10 ** 9
    rows = []
    for i in range(n):
        if d.get("panel") == "mod":
            pid = int(i % max(2, n // 2)) + 1
        else:
            pid = i // 2 + 1
        u = rs.randn(J)
        taste = rs.randn(J)
        # every alternative is chosen at least twice
        c = i % J if i < 2 * J else int(np.argmax(u + rs.gumbel(size=J)))
        order = list(range(J))
        if d.get("order") == "rev":
            order = order[::-1]
        for j in order:
            drop = rs.rand() < 0.15
            x, z, w = (rs.randn() + 0.6 * u[j], rs.rand() * 2 + 0.2 * taste[j],
                       float(rs.randint(0, 4)))
            if d.get("avail") and drop and j != c and J > 2 and j != order[0]:
                continue
            rows.append((int(obs[i]), ids[j], int(j == c), x, z, w, pid * 7))
    if d.get("miss") is not None:
        # an alternative that is no longer offered
        rows = [r for r in rows if r[1] != ids[d["miss"]]]
    if d.get("people"):
        q = np.random.RandomState(d["people"])
        pids = sorted({r[6] for r in rows})
        other = dict(zip(pids, q.permutation(pids + [7 * 50, 7 * 51])[
            :len(pids)].tolist()))
        rows = [r[:6] + (other[r[6]],) for r in rows]
    if d.get("rev") == 2:
        # a scenario: the caller lists the situations the other way round
        blocks, last = [], None
        for r in rows:
            if r[0] != last:
                blocks.append([])
                last = r[0]
            blocks[-1].append(r)
        oids = [b[0][0] for b in blocks]
        rows = [(o,) + r[1:] for o, b in zip(oids, blocks[::-1]) for r in b]
    df = pd.DataFrame(rows, columns=["oid", "aid", "ch", "x", "z", "w", "pid"])
    if d.get("mix"):
        # the alternatives of each situation in an order of its own
        q = np.random.RandomState(d["mix"]).rand(len(df))
        first = df["oid"].map({o: k for k, o in enumerate(
            dict.fromkeys(df["oid"].tolist()))}).values
        df = df.iloc[np.lexsort((q, first))].reset_index(drop=True)
    if d.get("relab"):
        # the alternatives exchange their numbers
        df["aid"] = df["aid"].map(dict(zip(ids, ids[::-1])))
    if d.get("rev"):
        # a scenario: the caller changes values of the attributes
        df["x"] = df["x"] + 0.7 * d["rev"] * (df["aid"] == ids[0])
        df["z"] = df["z"] * (1 + 0.25 * d["rev"])
    if d.get("order") == "rev":
        df.index = df.index[::-1]
    if d.get("index") == "dup":
        df.index = [k % 5 for k in range(len(df))]
    elif d.get("index") == "str":
        df.index = ["r%d" % (k * 7 % 1000) for k in range(len(df))]
    dt = d.get("dt")
    if dt == "chf":
        df["ch"] = df["ch"].astype(float)
    elif dt == "oidf":
        df["oid"] = df["oid"].astype(float)
    elif dt == "i32":
        df["aid"] = df["aid"].astype(np.int32)
        df["ch"] = df["ch"].astype(np.int32)
    elif dt == "xi":
        df["x"] = np.round(df["x"] * 2).astype(int)
    return df


_csv = {"dir": None, "n": 0}


def csv_reset():
    """Forget the files of the run before."""
    if _csv["dir"] is not None:
        for f in os.listdir(_csv["dir"]):
            os.unlink(os.path.join(_csv["dir"], f))


def _csv_path(world, label):
    import atexit
    import shutil
    import tempfile
    if _csv["dir"] is None:
        _csv["dir"] = tempfile.mkdtemp(prefix="pylogit-sim-")
        atexit.register(shutil.rmtree, _csv["dir"], True)
    if not hasattr(world, "csv_no"):
        _csv["n"] += 1
        world.csv_no = _csv["n"]
    return os.path.join(_csv["dir"], "w%d %s.csv" % (world.csv_no, label))


class Csv(object):
    """A file of the caller, passed by its path."""

    def __init__(self, path, df):
        self.path = path
        self.write(df)

    def write(self, df):
        df.to_csv(self.path, index=False)


def row_weights(df, seed):
    """Weights, one per row, constant within a situation."""
    oid = df["oid"].values
    ids = sorted(set(oid.tolist()))
    w = np.random.RandomState(seed).uniform(0.5, 2.0, size=len(ids)).round(2)
    if seed % 3 == 0:
        w[seed % len(ids)] = 0      # a situation that does not count
    at = dict(zip(ids, w.tolist()))
    return np.array([at[o] for o in oid.tolist()])


# --------------------------------------------------------------------------
# Model declarations
# --------------------------------------------------------------------------
def model_inputs(decl):
    """-> (specification, names, kwargs) freshly built."""
    ids = alt_ids(decl["d"])
    J = len(ids)
    spec, names = OrderedDict(), OrderedDict()
    if decl.get("asc"):
        ref = decl.get("asc_ref", J - 1)
        inc = [a for k, a in enumerate(ids) if k != ref]
        spec["intercept"] = inc
        names["intercept"] = ["ASC %d" % a for a in inc]
    spec["x"] = "all_same"
    names["x"] = "b_x"
    z = decl.get("z", "same")
    if z == "same":
        spec["z"] = "all_same"
        names["z"] = "b_z"
    elif z == "diff":
        spec["z"] = "all_diff"
        names["z"] = ["b_z %d" % a for a in ids]
    elif z == "grp":
        spec["z"] = [[ids[0], ids[1]]] + ids[2:]
        names["z"] = ["b_z 01"] + ["b_z %d" % a for a in ids[2:]]
    elif z == "some":
        spec["z"] = ids[:-1]
        names["z"] = ["b_z %d" % a for a in ids[:-1]]
    kw = {}
    kind = decl["kind"]
    if kind in ("Asym", "Cloglog", "Scobit", "Uneven"):
        if decl.get("outint"):
            ref = decl.get("int_ref", J - 1)
            kw["intercept_ref_pos"] = ref
            kw["intercept_names"] = ["ASC %d" % a for k, a in enumerate(ids)
                                     if k != ref]
    if kind == "Asym":
        ref = decl.get("shape_ref", J - 1)
        kw["shape_ref_pos"] = ref
        kw["shape_names"] = ["shape %d" % a for k, a in enumerate(ids)
                             if k != ref]
    if kind in ("Scobit", "Uneven"):
        kw["shape_names"] = ["shape %d" % a for a in ids]
    if kind == "Nested Logit":
        cut = decl.get("cut", max(1, J - 1))
        order = list(ids)
        if decl.get("nperm"):
            order = np.random.RandomState(decl["nperm"]).permutation(
                order).tolist()
        nests = [("N one", order[:cut]), ("N two", order[cut:])]
        if decl.get("cut2"):
            nests[1:] = [("N two", order[cut:decl["cut2"]]),
                         ("M three", order[decl["cut2"]:])]
        if decl.get("nperm", 0) % 3 == 1:
            nests.reverse()     # names not in alphabetical order
        kw["nest_spec"] = OrderedDict(nests)
    if kind == "Mixed Logit":
        kw["mixing_vars"] = list(decl.get("mix", ["b_x"]))
        kw["mixing_id_col"] = "pid"
    if decl.get("names") is False and kind != "Mixed Logit":
        names = None
    return spec, names, kw


def n_index(decl):
    J = decl["d"]["J"]
    k = 1
    if decl.get("asc"):
        k += J - 1
    z = decl.get("z", "same")
    k += {"same": 1, "diff": J, "grp": J - 1, "some": J - 1, None: 0}[z]
    return k


def param_blocks(decl):
    """[(block name, size)] in the order of the parameter vector."""
    J = decl["d"]["J"]
    kind = decl["kind"]
    out = []
    if kind == "Nested Logit":
        out.append(("nests", 3 if decl.get("cut2") else 2))
    if kind == "Asym":
        out.append(("shapes", J - 1))
    if kind in ("Scobit", "Uneven"):
        out.append(("shapes", J))
    if kind in ("Asym", "Cloglog", "Scobit", "Uneven") and decl.get("outint"):
        out.append(("intercepts", J - 1))
    k = n_index(decl)
    if kind == "Mixed Logit":
        k += len(decl.get("mix", ["b_x"]))
    out.append(("coefs", k))
    return out


def n_params(decl):
    return sum(n for _, n in param_blocks(decl))


def companion(decl):
    """The MNL declaration a bootstrap of `decl` takes its start values from."""
    c = {"kind": "MNL", "d": decl["d"], "z": decl.get("z", "same")}
    if decl.get("asc"):
        c["asc"] = True
        c["asc_ref"] = decl.get("asc_ref", decl["d"]["J"] - 1)
    if decl.get("outint"):
        c["asc"] = True
        c["asc_ref"] = decl.get("int_ref", decl["d"]["J"] - 1)
    return c


def extraction(how):
    """A caller's own way of turning the MNL estimate into start values."""
    def start_values(model_obj, mnl_point, num_params):
        vals = np.full(num_params, 0.05 * how)
        k = min(len(mnl_point), num_params)
        vals[num_params - k:] += 0.5 * mnl_point.values[:k]
        return vals
    return start_values


def given_values(op):
    """Columns of a table of replicates the caller hands over."""
    v = op[3]
    if isinstance(v, dict):
        rs = np.random.RandomState(v["seed"])
        return [np.round(rs.uniform(-0.5, 0.5) + 0.4 * rs.randn(v["n"]),
                         v.get("dec", 6)).tolist() for _ in op[4]]
    return v


def init_array(decl, init):
    n = n_params(decl)
    if init is None or init["kind"] == "zeros":
        return np.zeros(n)
    if init["kind"] == "int":
        return np.random.RandomState(init["seed"]).randint(-1, 2, size=n)
    if init["kind"] == "vals":
        return np.array(init["vals"], dtype=float)
    rs = np.random.RandomState(init["seed"])
    return np.round(rs.uniform(-1, 1, size=n) * init.get("scale", 0.4),
                    init.get("dec", 3))


# --------------------------------------------------------------------------
# Canonical values
# --------------------------------------------------------------------------
_DATE = re.compile(r"(Date:\s+)\w{3}, \d\d \w{3} \d{4}")
_TIME = re.compile(r"(Time:\s+)\d\d:\d\d:\d\d")


def norm(o):
    if o is None or isinstance(o, (bool, str, bytes)):
        return o
    if isinstance(o, (int, np.integer)):
        return int(o)
    if isinstance(o, (float, np.floating)):
        return np.array(float(o))
    if isinstance(o, np.bool_):
        return bool(o)
    if scipy.sparse.issparse(o):
        return ("sparse", np.array(o.toarray(), copy=True))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ["objarray"] + [norm(x) for x in o.ravel().tolist()]
        return np.array(o, copy=True)
    if isinstance(o, pd.Series):
        return {"type": "Series", "name": norm(o.name),
                "index": norm(o.index), "values": norm(o.values)}
    if isinstance(o, pd.DataFrame):
        return {"type": "DataFrame", "index": norm(o.index),
                "columns": norm(o.columns),
                "values": [norm(o.iloc[:, i].values)
                           for i in range(o.shape[1])]}
    if isinstance(o, pd.Index):
        return ["index"] + [norm(x) for x in o.tolist()]
    if isinstance(o, Csv):
        with open(o.path) as f:
            return f.read()
    if isinstance(o, BaseException):
        return ("exc", type(o).__name__)
    if type(o).__name__ == "OptimizeResult":
        return {k: norm(o[k]) for k in ("x", "fun", "success", "message")
                if k in o}
    if type(o).__name__ == "Summary":
        t = o.as_text()
        return _TIME.sub(r"\1", _DATE.sub(r"\1", t))
    if isinstance(o, dict):
        return {str(k): norm(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [norm(x) for x in o]
    if isinstance(o, (set, frozenset)):
        return sorted(str(x) for x in o)
    return "<%s>" % type(o).__name__


def exact(o):
    """The contents of a caller-owned object to the last bit: values, types,
    order, labels.  (Comparable with ==.)"""
    if isinstance(o, Csv):
        o = norm(o)
    if o is None or isinstance(o, (bool, str, bytes, int, np.generic)):
        return (type(o).__name__, repr(o))
    if isinstance(o, float):
        return ("float", repr(o))
    if scipy.sparse.issparse(o):
        return (type(o).__name__, o.dtype.str, o.shape,
                o.toarray().tobytes())
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("ndarray", "O", o.shape, [exact(x) for x in o.ravel()])
        return ("ndarray", o.dtype.str, o.shape, o.flags.writeable,
                o.tobytes())
    if isinstance(o, pd.Index):
        return ("Index", str(o.dtype), exact(o.name),
                [exact(x) for x in o.tolist()])
    if isinstance(o, pd.Series):
        return ("Series", exact(o.name), exact(o.index), str(o.dtype),
                exact(o.values))
    if isinstance(o, pd.DataFrame):
        return ("DataFrame", exact(o.index), exact(o.columns),
                [(str(o.iloc[:, i].dtype), exact(np.array(o.iloc[:, i])))
                 for i in range(o.shape[1])])
    if isinstance(o, dict):
        return (type(o).__name__, [(exact(k), exact(v))
                                   for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [exact(x) for x in o])
    if isinstance(o, (set, frozenset)):
        return (type(o).__name__, sorted(repr(x) for x in o))
    return (type(o).__name__,)


def exact_diff(now, then):
    """Where two exact() descriptions part, in words."""
    path = []
    while True:
        if type(now) is not type(then) or not isinstance(now, (list, tuple)):
            break
        if len(now) != len(then):
            path.append("length %d vs %d" % (len(now), len(then)))
            break
        for k, (a, b) in enumerate(zip(now, then)):
            if a != b:
                path.append(str(k))
                now, then = a, b
                break
        else:
            break
    return "%s: %s vs %s" % ("/".join(path), brief(now), brief(then))


RTOL, ATOL = 1e-8, 1e-11


def diff(a, b, path=""):
    """None when equal, else a short description of the first difference."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return "%s: %s vs %s" % (path, brief(a), brief(b))
        if a.shape != b.shape:
            return "%s: shape %s vs %s" % (path, a.shape, b.shape)
        if a.dtype.kind in "OUS" or b.dtype.kind in "OUS":
            ok = a.tolist() == b.tolist()
        else:
            ok = np.array_equal(a, b) or bool(
                np.allclose(a.astype(float), b.astype(float), rtol=RTOL,
                            atol=ATOL, equal_nan=True))
        if ok:
            return None
        return "%s: %s vs %s" % (path, brief(a), brief(b))
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s.%s: only on one side" % (path, k)
            r = diff(a[k], b[k], path + "." + k)
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d vs %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if type(a) is not type(b) or a != b:
        return "%s: %s vs %s" % (path, brief(a), brief(b))
    return None


def brief(x):
    if isinstance(x, np.ndarray):
        return np.array2string(x.ravel()[:6], precision=6).replace("\n", " ")
    s = repr(x)
    return s if len(s) < 90 else s[:90] + "..."


def fingerprint(x):
    """A short stable digest of a canonical value (rounded numbers)."""
    import hashlib
    h = hashlib.md5()

    def go(v):
        if isinstance(v, np.ndarray):
            if v.dtype.kind in "fc":
                h.update(("%s" % (v.shape,)).encode())
                h.update(v.tobytes())
            else:
                h.update(repr(v.tolist()).encode())
        elif isinstance(v, dict):
            for k in sorted(v):
                h.update(k.encode())
                go(v[k])
        elif isinstance(v, (list, tuple)):
            h.update(b"[")
            for y in v:
                go(y)
            h.update(b"]")
        else:
            h.update(repr(v).encode())
    go(x)
    return h.hexdigest()[:16]


# --------------------------------------------------------------------------
# The world
# --------------------------------------------------------------------------
# What a model object says about its own declaration and data.
DECL_ATTRS = ["design", "alt_id_col", "obs_id_col", "choice_col", "alt_IDs",
              "choices", "model_type", "shape_names", "intercept_names",
              "shape_ref_position", "intercept_ref_position", "nest_names",
              "nest_spec", "mixing_id_col", "mixing_vars", "specification",
              "name_spec"]


def decl_bits(mod, results=False):
    out = {a: exact(getattr(mod, a)) for a in DECL_ATTRS if hasattr(mod, a)}
    if results:
        out["results"] = exact({a: norm(getattr(mod, a)) for a in RESULT_ATTRS
                                if hasattr(mod, a)})
    return out


class World(object):
    """One simulated process using one copy of pylogit."""

    def __init__(self, universe=None, share=True):
        self.u = universe or env.Universe()
        self.dfs, self.df_rev, self.df_label = {}, {}, {}
        self.bufs = {}
        self.inputs = {}
        self.models = {}
        self.decls = {}
        self.boots = {}
        self.boot_model = {}
        self.registry = OrderedDict()    # caller-owned objects, for C10
        self.share = share
        self.scratch = None
        self.decl_bits = {}

    # caller-owned objects ------------------------------------------------
    def own(self, label, obj):
        if label not in self.registry:
            self.registry[label] = (obj, norm(obj), exact(obj))
        return self.registry[label][0]

    def rebase(self, label):
        """The caller itself changed this object."""
        obj = self.registry[label][0]
        base = obj
        if isinstance(obj, pd.DataFrame) and "intercept" in obj.columns:
            base = obj.drop("intercept", axis=1)
        self.registry[label] = (obj, norm(base), exact(base))

    def df(self, d, frame=False):
        """The caller's data frame (or the path of its file).  Frames that differ in "rev" only are one
        object, whose values the caller edits in place between calls."""
        rev = d.get("rev", 0)
        k = key({n: v for n, v in d.items()
                 if n != "rev" and (n != "csv" or not frame)})
        if k not in self.dfs:
            self.df_rev[k] = rev
            self.df_label[k] = "data %d" % (len(self.dfs) + 1)
            self.dfs[k] = make_df(d)
            if d.get("csv") and not frame:
                self.dfs[k] = Csv(_csv_path(self, self.df_label[k]),
                                  self.dfs[k])
            self.own(self.df_label[k], self.dfs[k])
        elif self.df_rev[k] != rev:
            new = make_df(d)
            if isinstance(self.dfs[k], Csv):
                self.dfs[k].write(new)
            else:
                for c in new.columns:
                    self.dfs[k][c] = new[c].values
            self.df_rev[k] = rev
            self.rebase(self.df_label[k])
        if isinstance(self.dfs[k], Csv):
            return self.dfs[k].path
        return self.dfs[k]

    def buffer(self, label, values):
        """An array the caller allocates once and refills for every call."""
        obj = self.bufs.get(label)
        if obj is None or obj.shape != values.shape \
                or obj.dtype != values.dtype:
            obj = self.bufs[label] = np.array(values, copy=True)
            self.registry.pop(label, None)
            return self.own(label, obj)
        obj[...] = values
        self.rebase(label)
        return obj

    def get_inputs(self, decl):
        k = key(decl)
        if k not in self.inputs or not self.share:
            spec, names, kw = model_inputs(decl)
            tag = len(self.inputs)
            self.inputs[k] = (spec, names, kw)
            self.own("specification %d" % tag, spec)
            if names is not None:
                self.own("names %d" % tag, names)
            for n, v in kw.items():
                if isinstance(v, (list, dict)):
                    self.own("%s %d" % (n, tag), v)
        return self.inputs[k]

    def check_inputs(self):
        """Compare every caller-owned object with what the caller passed.
        The documented exception: an 'intercept' column of ones may have been
        added to a data frame."""
        for label, (obj, base, bits) in self.registry.items():
            now, now_obj = norm(obj), obj
            if isinstance(obj, pd.DataFrame) and "intercept" in obj.columns \
                    and "intercept" not in base["columns"]:
                if not (obj["intercept"] == 1).all():
                    return "%s: intercept column is not all ones" % label
                now_obj = obj.drop("intercept", axis=1)
                now = norm(now_obj)
            r = diff(now, base, label)
            if r:
                return r
            now = exact(now_obj)
            if now != bits:
                return "%s: %s" % (label, exact_diff(now, bits))
        for label, (mod, base) in self.decl_bits.items():
            now = decl_bits(mod, "results" in base)
            if now != base:
                k = [k for k in base if now.get(k) != base[k]][0]
                return "%s: its %s: %s" % (label, k, exact_diff(
                    now.get(k), base[k]))
        return None

    # models -----------------------------------------------------------------
    def create(self, decl):
        spec, names, kw = self.get_inputs(decl)
        df = self.df(decl["d"])
        bad = decl.get("bad")
        tag = key(decl)
        args = dict(data=df, alt_id_col="aid", obs_id_col="oid",
                    choice_col="ch", specification=spec,
                    model_type=decl["kind"], names=names)
        if bad in ("alt", "choice"):
            args["alt_id_col" if bad == "alt" else "choice_col"] = "nope"
        elif bad == "spec":
            args["specification"] = self.own("bad spec " + tag, OrderedDict(
                list(spec.items()) + [("nope", "all_same")]))
        elif bad == "names" and names is not None:
            args["names"] = self.own("bad names " + tag, OrderedDict(
                list(names.items()) + [("nope", "b_nope")]))
        elif bad == "type":
            args["model_type"] = "nope"
        elif bad == "nan":
            df = make_df(decl["d"])
            df.loc[df.index[0], "x"] = np.nan
            self.registry.pop("bad data " + tag, None)
            args["data"] = self.own("bad data " + tag, df)
        elif bad == "kind":
            args["specification"] = self.own("bad kind " + tag, dict(spec))
        return self.u.pl.create_choice_model(**dict(args, **kw))

    def fit_kwargs(self, decl, a):
        kw = {"print_res": bool(a.get("print")), "method": a.get("method", "BFGS"),
              "maxiter": a.get("maxiter", 5)}
        if a.get("ridge") is not None:
            kw["ridge"] = a["ridge"]
        if a.get("cons") is not None:
            pos = [p - n_params(decl) if a.get("neg") else p for p in a["cons"]]
            kw["constrained_pos"] = self.own("constrained_pos %s" % key(pos),
                                             pos)
        if a.get("just_point"):
            kw["just_point"] = True
        if a.get("loss_tol") is not None:
            kw["loss_tol"] = a["loss_tol"]
        if a.get("gradient_tol") is not None:
            kw["gradient_tol"] = a["gradient_tol"]
        if decl["kind"] == "Mixed Logit":
            kw["num_draws"] = a.get("draws", 4)
            if a.get("seed") is not None:
                kw["seed"] = a["seed"]
        return kw

    def fit(self, m, a):
        decl = self.decls[m]
        kw = self.fit_kwargs(decl, a)
        x0 = init_array(decl, a.get("init"))
        if a.get("bad") == "short":
            x0 = x0[:-1]
        if a.get("bad") == "ridge":
            kw["ridge"] = "strong"
        if a.get("bad") == "method":
            kw["method"] = "no-such-method"
        if a.get("buf"):
            x0 = self.buffer("init_vals buffer", x0)
        else:
            x0 = self.own("init_vals %s %s" % (m, key([decl, a])), x0)
        if a.get("ambient") is not None:
            np.random.seed(a["ambient"])
        if a.get("split") and decl["kind"] in ("Asym", "Scobit", "Uneven", "Cloglog"):
            pos = 0
            args = {"init_intercepts": None}
            for name, n in param_blocks(decl):
                args["init_" + name] = self.own(
                    "init_%s %s %s" % (name, m, key([decl, a])),
                    x0[pos:pos + n].copy())
                pos += n
            return self.models[m].fit_mle(None, **dict(args, **kw))
        return self.models[m].fit_mle(x0, **kw)

    def snapshot(self, m):
        mod = self.models[m] if isinstance(m, str) else m
        return {a: norm(getattr(mod, a)) if hasattr(mod, a) else ABSENT
                for a in RESULT_ATTRS}

    def boot_snapshot(self, b):
        o = self.boots[b]
        return {a: norm(getattr(o, a, None)) for a in BOOT_ATTRS}

    def predict(self, m, a):
        decl = self.decls[m]
        df = self.df(a.get("d") or decl["d"])
        kw = {"return_long_probs": bool(a.get("long", True))}
        if a.get("choice"):
            kw["choice_col"] = "ch"
        if a.get("plist") is not None:
            rs = np.random.RandomState(a["plist"]["seed"])
            cols = a["plist"].get("cols", 0)
            pl = {"nests": None, "shapes": None, "intercepts": None}
            for name, n in param_blocks(decl):
                shape = (n, cols) if cols else (n,)
                pl[name] = np.round(rs.uniform(-1, 1, size=shape) * 0.4, 3)
                if a.get("buf"):
                    pl[name] = self.buffer("param_list %s buffer" % name,
                                           pl[name])
            pl = [pl["coefs"], pl["intercepts"], pl["shapes"], pl["nests"]]
            kw["param_list"] = pl if a.get("buf") else self.own(
                "param_list %s %s" % (m, key([decl, a])), pl)
        if decl["kind"] == "Mixed Logit":
            kw["num_draws"] = a.get("draws", 4)
            if a.get("seed") is not None:
                kw["seed"] = a["seed"]
        if a.get("ambient") is not None:
            np.random.seed(a["ambient"])
        if a.get("panel"):
            kw.pop("param_list", None)
            return self.models[m].panel_predict(df, kw.pop("num_draws"), **kw)
        return self.models[m].predict(df, **kw)

    # bootstrap ------------------------------------------------------------
    def boot_new(self, b, m, vals):
        v = self.own("mle_params %s %s" % (b, key(vals)),
                     np.array(vals, dtype=float))
        self.decl_bits.setdefault("the model given to Boot (%s)" % m, (
            self.models[m], decl_bits(self.models[m])))
        self.boots[b] = self.u.mod("bootstrap").Boot(self.models[m], v)
        self.boot_model[b] = m
        return None

    def _boot_fit_args(self, b, a):
        m = self.boot_model[b]
        decl = self.decls[m]
        kw = {"method": a.get("method", "BFGS"), "maxiter": a.get("maxiter", 4)}
        if a.get("ridge") is not None:
            kw["ridge"] = a["ridge"]
        if a.get("cons") is not None:
            kw["constrained_pos"] = self.own("constrained_pos %s" % key(a["cons"]),
                                             list(a["cons"]))
        for t in ("loss_tol", "gradient_tol"):
            if a.get(t) is not None:
                kw[t] = a[t]
        if a.get("extract") and decl["kind"] != "MNL":
            kw["extract_init_vals"] = extraction(a["extract"])
        if a.get("print"):
            kw["print_res"] = True
        mkw = {"print_res": bool(a.get("print")), "maxiter": a.get("mnl_maxiter", 4)}
        if a.get("mnl_method"):
            mkw["method"] = a["mnl_method"]
        mkw = self.own("mnl_fit_kwargs %s" % key(mkw), mkw)
        if decl["kind"] != "MNL":
            c = companion(decl)
            ck = "companion:" + key(c)
            if ck not in self.models:
                self.models[ck] = self.create(c)
                self.decls[ck] = c
                self.decl_bits["the mnl_obj"] = (
                    self.models[ck], decl_bits(self.models[ck], True))
            kw["mnl_obj"] = self.models[ck]
            kw["mnl_init_vals"] = self.own("mnl_init_vals %s" % key(c),
                                           np.zeros(n_params(c)))
            kw["mnl_fit_kwargs"] = mkw
        elif a.get("mnlkw"):
            kw["mnl_fit_kwargs"] = mkw
            kw["mnl_init_vals"] = self.own("own mnl_init_vals %s" % key(decl),
                                           np.zeros(n_params(decl)) + 0.01)
        return kw

    def boot(self, b, a):
        kw = self._boot_fit_args(b, a)
        if a.get("seed") is not None:
            kw["boot_seed"] = a["seed"]
        if a.get("ambient") is not None:
            np.random.seed(a["ambient"])
        self.boots[b].generate_bootstrap_replicates(a["n"], **kw)
        return self.boots[b].bootstrap_replicates

    def jack(self, b, a):
        kw = self._boot_fit_args(b, a)
        self.boots[b].generate_jackknife_replicates(**kw)
        return self.boots[b].jackknife_replicates

    def interval(self, b, a):
        o = self.boots[b]
        pct = a.get("pct", 90)
        t = a["t"]
        if t in ("pi", "bca") and not a.get("ctl"):
            if t == "pi":
                o.calc_percentile_interval(pct)
                return o.percentile_interval
            o.calc_bca_interval(pct)
            return o.bca_interval
        kw = {}
        if t in ("abc", "all"):
            kw["init_vals"] = self.own("abc init %s" % key(
                o.mle_params.values.tolist()),
                np.array(o.mle_params.values, copy=True))
            kw.update(print_res=bool(a.get("print")),
                      maxiter=a.get("maxiter", 2))
            if a.get("eps"):
                kw["epsilon"] = a["eps"]
        o.calc_conf_intervals(pct, interval_type=t, **kw)
        return {"pi": o.percentile_interval, "bca": o.bca_interval,
                "abc": o.abc_interval, "all": o.all_intervals}[t]

    # conversions ------------------------------------------------------------
    def wide(self, a):
        ct = self.u.mod("choice_tools")
        df = self.df(a["d"], frame=True)
        cols = ["oid", "aid", "ch", "x", "z", "w", "pid"]
        ids = alt_ids(a["d"])
        tag = key(a)
        long_df = df[cols].copy()
        sub = {}
        alt_vars = ["x", "z", "w"]
        if a.get("sub"):
            # a variable that exists for some alternatives only
            long_df["s"] = np.where(long_df["aid"] == ids[0],
                                    long_df["x"] * 2, 0.0)
            sub = OrderedDict([("s", [ids[0]])])
        for name, o in (("long data", long_df), ("alt_specific_vars", alt_vars),
                        ("subset_specific_vars", sub)):
            self.registry.pop("wide %s %s" % (name, tag), None)
            self.own("wide %s %s" % (name, tag), o)
        ind = self.own("wide ind_vars %s" % tag, ["pid"])
        null = {"null_value": -99} if a.get("null") else {}
        if a.get("altnames"):
            null["alt_name_dict"] = self.own(
                "wide alt_name_dict %s" % tag,
                OrderedDict((i, "alt%d" % i) for i in ids))
        wide = ct.convert_long_to_wide(
            long_df, ind, alt_vars, sub, "oid", "aid", "ch", **null)
        if a.get("back"):
            nm = {i: "alt%d" % i if a.get("altnames") else "%d" % i
                  for i in ids}
            av = OrderedDict((i, "availability_%s" % nm[i]) for i in ids)
            asv = OrderedDict(
                (v, OrderedDict((i, "%s_%s" % (v, nm[i])) for i in ids))
                for v in ["x", "z", "w"])
            wide = wide.copy()
            for name, o in (("wide data", wide), ("availability", av),
                            ("alt_specific_vars (back)", asv)):
                self.registry.pop("wide %s %s" % (name, tag), None)
                self.own("wide %s %s" % (name, tag), o)
            return ct.convert_wide_to_long(wide, ind, asv, av, "oid", "ch",
                                           new_alt_id_name="aid")
        return wide

    # restart ------------------------------------------------------------------
    def restart(self):
        """Save every model, end the process, start a new one, load them."""
        import pickle
        from . import disk as sd
        outer, sd.disk = sd.disk, sd.SimDisk()
        try:
            names = [m for m in self.models if not m.startswith("companion:")]
            for i, m in enumerate(names):
                self.models[m].to_pickle("%s/d/m%d.pkl" % (sd.ROOT, i))
            blobs = [sd.disk.now("%s/d/m%d.pkl" % (sd.ROOT, i))
                     for i in range(len(names))]
        finally:
            sd.disk.dead = True
            sd.disk = outer
        self.u = env.Universe()
        self.models, self.boots, self.boot_model = {}, {}, {}
        self.decl_bits = {}
        for m, b in zip(names, blobs):
            self.models[m] = pickle.loads(b)
        return None

    # ------------------------------------------------------------------------
    def do(self, op):
        """Perform one operation; return its canonical result."""
        o = op[0]
        if o == "new":
            self.models[op[1]] = self.create(op[2])
            self.decls[op[1]] = op[2]
            self.decl_bits.pop("the model given to Boot (%s)" % op[1], None)
            return norm(self.models[op[1]].design)
        if o == "fit":
            r = self.fit(op[1], op[2])
            if r is None:
                return self.snapshot(op[1])
            return norm(r)
        if o == "pred":
            return norm(self.predict(op[1], op[2]))
        if o == "ci":
            a = op[2]
            kw = {}
            if a.get("coefs"):
                kw["coefs"] = self.own("coefs %s" % key(a["coefs"]),
                                       list(a["coefs"]))
            return norm(self.models[op[1]].conf_int(
                alpha=a.get("alpha", 0.05), return_df=bool(a.get("df")), **kw))
        if o == "smry":
            a = op[2] if len(op) > 2 else {}
            return norm(self.models[op[1]].get_statsmodels_summary(**a))
        if o == "print":
            self.models[op[1]].print_summaries()
            t = env.current.task_here() if env.current is not None else None
            return {"printed": "".join(t.out) if t is not None else ""}
        if o == "snap":
            return self.snapshot(op[1])
        if o == "bnew":
            return norm(self.boot_new(op[1], op[2], op[3]))
        if o == "boot":
            return norm(self.boot(op[1], op[2]))
        if o == "jack":
            return norm(self.jack(op[1], op[2]))
        if o == "give":
            df = pd.DataFrame(OrderedDict(zip(op[4], given_values(op))),
                              columns=list(op[4]))
            setattr(self.boots[op[1]], op[2] + "_replicates", df)
            return None
        if o == "bll":
            a, kw = (op[3] if len(op) > 3 else {}), {}
            if a.get("draws"):
                kw = {"num_draws": a["draws"], "seed": a.get("seed")}
            if a.get("ambient") is not None:
                np.random.seed(a["ambient"])
            return norm(self.boots[op[1]].calc_log_likes_for_replicates(
                replicates=op[2], **kw))
        if o == "bgrad":
            a = op[3] if len(op) > 3 else {}
            kw = {}
            if a.get("ridge") is not None:
                kw["ridge"] = a["ridge"]
            if a.get("cons") is not None:
                kw["constrained_pos"] = self.own(
                    "constrained_pos %s" % key(a["cons"]), list(a["cons"]))
            if a.get("wts"):
                dc = self.decls[self.boot_model[op[1]]]
                kw["weights"] = self.own("weights %s" % key([dc["d"], a]),
                                         row_weights(make_df(dc["d"]),
                                                     a["wts"]))
            return norm(self.boots[op[1]].calc_gradient_norm_for_replicates(
                replicates=op[2], **kw))
        if o == "int":
            return norm(self.interval(op[1], op[2]))
        if o == "wide":
            return norm(self.wide(op[1]))
        if o == "save":
            return norm(self.models[op[1]].to_pickle(
                os.path.join(self.scratch, op[2])))
        if o == "restart":
            return self.restart()
        if o == "pyrandom":
            import random
            random.seed(op[1])
            return None
        if o == "rng":
            return norm(np.random.rand(op[1]))
        if o == "seed":
            return norm(np.random.seed(op[1]))
        raise ValueError("unknown op %r" % (op,))
