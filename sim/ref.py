"""A small executable reference model, independent of pylogit's code: what a
model of a given declaration must report at a given parameter vector.

Plain loops over situations, straight from the published formulas; derivatives
by central differences.  Only sizes of a few dozen rows are ever used.
"""
import numpy as np

from .world import make_df, model_inputs, param_blocks


class RefModel(object):
    def __init__(self, decl, draws=None, ridge=None, seed=None, df=None,
                 draw_arrays=None, alts=None):
        self.decl = decl
        self.kind = decl["kind"]
        df = self.df = (make_df(decl["d"]) if df is None else df)
        spec, names, kw = model_inputs(decl)
        self.kw = kw
        self.ridge = ridge
        aid = df["aid"].values
        self.choice = df["ch"].values.astype(float)
        oid = df["oid"].values
        self.obs = []           # row numbers per situation, in row order
        seen = {}
        for i, o in enumerate(oid.tolist()):
            if o not in seen:
                seen[o] = len(self.obs)
                self.obs.append([])
            self.obs[seen[o]].append(i)
        self.alts = alts or sorted(set(aid.tolist()))
        self.alt_pos = np.array([self.alts.index(a) for a in aid.tolist()])
        cols, colname = [], []
        for var, how in spec.items():
            vals = (np.ones(len(df)) if var == "intercept"
                    else df[var].values.astype(float))
            if how == "all_same":
                groups = [self.alts]
            elif how == "all_diff":
                groups = [[a] for a in self.alts]
            else:
                groups = [g if isinstance(g, list) else [g] for g in how]
            for gi, g in enumerate(groups):
                cols.append(vals * np.isin(aid, g))
                if names is not None:
                    nm = names[var]
                    colname.append(nm if isinstance(nm, str) else nm[gi])
        self.X = np.array(cols).T
        self.colname = colname
        self.J = len(self.alts)
        if self.kind == "Nested Logit":
            self.nest_of = np.array(
                [[i for i, (k, v) in enumerate(kw["nest_spec"].items())
                  if a in v][0] for a in aid.tolist()])
        if self.kind == "Mixed Logit":
            pid = df["pid"].values
            self.units, ids = [], {}
            for i, p in enumerate(pid.tolist()):
                if p not in ids:
                    ids[p] = len(ids)
            self.unit_of = np.array([ids[p] for p in pid.tolist()])
            self.n_units = len(ids)
            self.mix_pos = [colname.index(v) for v in kw["mixing_vars"]]
            if draw_arrays is not None:
                self.draws = draw_arrays
            else:
                rs = np.random.RandomState(seed)
                self.draws = [rs.standard_normal((self.n_units, draws))
                              for _ in self.mix_pos]

    # ----------------------------------------------------------------------
    def split(self, p):
        out, pos = {}, 0
        for name, n in param_blocks(self.decl):
            out[name] = p[pos:pos + n]
            pos += n
        return out

    def _full(self, short, ref):
        a = np.zeros(self.J)
        a[[j for j in range(self.J) if j != ref]] = short
        return a

    def utility(self, p):
        """transformed utility per row (rows,) or (rows, draws)"""
        s = self.split(p)
        b = s["coefs"]
        k = self.kind
        if k == "Mixed Logit":
            n = self.X.shape[1]
            v = self.X.dot(b[:n])[:, None]
            for q, pos in enumerate(self.mix_pos):
                v = v + (b[n + q] * self.X[:, pos])[:, None] \
                    * self.draws[q][self.unit_of]
            return v
        V = self.X.dot(b)
        if k in ("MNL", "Nested Logit"):
            return V
        if k == "Asym":
            eta = self._full(s["shapes"], self.kw["shape_ref_pos"])
            c = np.exp(eta)
            c = (c / c.sum())[self.alt_pos]
            h = np.log(c) - V * np.where(V >= 0, np.log(c),
                                         np.log((1 - c) / (self.J - 1.0)))
        elif k == "Cloglog":
            h = np.where(V > 30, np.exp(V), np.log(np.expm1(np.exp(V))))
        elif k == "Scobit":
            sh = np.exp(s["shapes"])[self.alt_pos]
            h = -np.log(np.expm1(sh * np.log1p(np.exp(-V))))
        elif k == "Uneven":
            sh = np.exp(s["shapes"])[self.alt_pos]
            h = V + np.log1p(np.exp(-V)) - np.log1p(np.exp(-sh * V))
        if "intercepts" in s:
            h = h + self._full(s["intercepts"],
                               self.kw["intercept_ref_pos"])[self.alt_pos]
        return h

    def probs(self, p):
        h = self.utility(p)
        out = np.zeros(h.shape)
        if self.kind == "Nested Logit":
            lam = 1 / (1 + np.exp(-self.split(p)["nests"]))
            for rows in self.obs:
                rows = np.array(rows)
                ne = self.nest_of[rows]
                e = np.exp(h[rows] / lam[ne])
                tot = np.array([e[ne == m].sum() for m in range(len(lam))])
                den = sum(t ** lam[m] for m, t in enumerate(tot) if t > 0)
                out[rows] = e * tot[ne] ** (lam[ne] - 1) / den
            return out
        for rows in self.obs:
            e = np.exp(h[rows])
            out[rows] = e / e.sum(axis=0)
        return out

    def ll_parts(self, p):
        """log-likelihood contribution per independent unit"""
        pr = self.probs(p)
        if self.kind == "Mixed Logit":
            lp = np.log(pr) * self.choice[:, None]
            out = np.zeros(self.n_units)
            for u in range(self.n_units):
                out[u] = np.log(np.exp(lp[self.unit_of == u].sum(axis=0)).mean())
            return out
        lp = np.log(pr) * self.choice
        return np.array([lp[r].sum() for r in self.obs])

    def penalty(self, p):
        if self.ridge is None:
            return 0.0
        q = np.array(p, dtype=float)
        if self.kind == "Nested Logit":
            k = len(self.split(p)["nests"])
            q = q.copy()
            q[:k] = 1 / (1 + np.exp(-q[:k])) - 1
        return self.ridge * np.square(q).sum()

    obs_weights = None

    def ll(self, p):
        parts = self.ll_parts(p)
        if self.obs_weights is not None:
            parts = parts * self.obs_weights
        return parts.sum() - self.penalty(p)

    def jac(self, f, p):
        """Fourth-order central differences at two step sizes; self.noise keeps
        how far they disagree."""
        p = np.array(p, dtype=float)

        def d4(i, h):
            def at(k):
                q = p.copy()
                q[i] += k * h
                return f(q)
            return (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h)
        cols, noise = [], 0.0
        for i in range(p.size):
            a, b = d4(i, 1e-3), d4(i, 3e-4)
            noise = max(noise, float(np.max(np.abs(a - b))))
            cols.append(a)
        self.noise = noise
        out = np.stack(cols, axis=-1)
        self.scale = 1.0 + float(np.max(np.abs(out)))
        return out

    def scores(self, p):
        return self.jac(self.ll_parts, p)

    def gradient(self, p):
        return self.jac(self.ll, p)

    def hessian(self, p, cons):
        if self.kind in ("Nested Logit", "Mixed Logit"):
            if self.ridge is not None:
                return None
            s = self.scores(p)
            H = -s.T.dot(s)
            for c in cons:
                H[c, :] = 0
                H[:, c] = 0
                H[c, c] = -1
            return H
        D = self.jac(self.utility, p)
        pr = self.probs(p)
        n = D.shape[1]
        H = np.zeros((n, n))
        for rows in self.obs:
            d, q = D[rows], pr[rows]
            H -= d.T.dot((np.diag(q) - np.outer(q, q))).dot(d)
        if self.ridge is not None:
            H -= 2 * self.ridge * np.eye(n)
        return H

    def fisher(self, p):
        if self.kind in ("Nested Logit", "Mixed Logit"):
            return -np.eye(len(p))
        s = self.scores(p)
        F = s.T.dot(s)
        if self.ridge is not None:
            F -= 2 * self.ridge * np.eye(len(p))
        return F

    def kink(self, p, h=1e-4):
        """True when finite differences would straddle a kink (asym) or the
        numbers are extreme enough that round-off, not the model, decides."""
        s = self.split(p)
        if self.kind == "Mixed Logit":
            return bool(np.abs(self.utility(p)).max() > 40)
        V = self.X.dot(s["coefs"])
        if np.abs(V).max() > 20 or self.steep(p, 30):
            return True
        if self.kind == "Asym":
            lim = 3e-3 * (1 + np.abs(self.X).sum(axis=1).max())
            if (np.abs(V) < lim).any():
                return True
        if self.kind == "Cloglog" and (V > 3.5).any():
            return True
        u = self.utility(p)
        return bool(not np.isfinite(u).all() or np.abs(u).max() > 30)

    def steep(self, p, limit):
        """True when exp(V / lambda) of a nest leaves the range in which it can
        be told apart from the bounds any implementation has to impose."""
        if self.kind != "Nested Logit":
            return False
        s = self.split(p)
        with np.errstate(all="ignore"):
            r = self.X.dot(s["coefs"]) * (1 + np.exp(-s["nests"]))[self.nest_of]
        return bool(not np.isfinite(r).all() or np.abs(r).max() > limit)


def param_names(decl, R=None):
    """The names of all parameters in the order pylogit documents, or None when
    the declaration leaves naming to the library."""
    spec, names, kw = model_inputs(decl)
    if names is None:
        return None
    R = R or RefModel(decl, draws=1, seed=1)
    out = list(kw.get("nest_spec", {}).keys()) \
        + list(kw.get("shape_names", [])) + list(kw.get("intercept_names", [])) \
        + list(R.colname)
    if decl["kind"] == "Mixed Logit":
        out += ["Sigma " + v for v in kw["mixing_vars"]]
    return out
