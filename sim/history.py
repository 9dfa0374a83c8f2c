"""Ledger of what the library should remember, and the reference executions
that say what each operation has to return.

The reference for an operation is the same operation performed by a freshly
imported copy of pylogit, in a world that contains nothing but the minimal
history the operation depends on, single threaded, without faults, with a
steady clock.  (Where the reference must not be the library itself, see ref.py.)
"""
import copy
import sys
from collections import OrderedDict

import numpy as np

from . import env
from .sched import Run
from .world import World, key, norm, diff, ABSENT, RESULT_ATTRS


class Ledger(object):
    def __init__(self):
        self.models = OrderedDict()   # name -> {"new": op, "fit": op or None}
        self.boots = OrderedDict()    # name -> {"m","bnew","boot","jack",...}

    def clone(self):
        return copy.deepcopy(self)

    def commit(self, op):
        o = op[0]
        if o == "new":
            self.models[op[1]] = {"new": op, "fit": None}
        elif o == "load":
            self.models[op[1]] = copy.deepcopy(self.models[op[2]])
        elif o == "fit":
            if not op[2].get("just_point"):
                self.models[op[1]]["fit"] = op
        elif o == "bnew":
            self.boots[op[1]] = {"m": op[2], "bnew": op, "boot": None,
                                 "jack": None}
        elif o in ("boot", "jack"):
            self.boots[op[1]][o] = op
        elif o == "give":
            self.boots[op[1]]["boot" if op[2] == "bootstrap" else "jack"] = op

    # histories ------------------------------------------------------------
    def model_hist(self, m):
        e = self.models[m]
        return [e["new"]] + ([e["fit"]] if e["fit"] else [])

    def hist(self, op):
        o = op[0]
        if o in ("new", "wide"):
            return [op]
        if o == "fit":
            return [self.models[op[1]]["new"], op]
        if o in ("pred", "ci", "smry", "print", "snap", "save"):
            return self.model_hist(op[1]) + [op]
        if o == "bnew":
            return self.model_hist(op[2]) + [op]
        b = self.boots[op[1]]
        h = self.model_hist(b["m"]) + [b["bnew"]]
        if o in ("boot", "jack", "give"):
            return h + [op]
        if o in ("bll", "bgrad"):
            src = b["boot"] if op[2] == "bootstrap" else b["jack"]
            return h + ([given(h, src)] if src else []) + [op]
        if o == "int":
            need = {"pi": ["boot"], "bca": ["boot", "jack"], "abc": [],
                    "all": ["boot", "jack"]}[op[2]["t"]]
            return h + [given(h, b[n]) for n in need if b[n]] + [op]
        raise ValueError(op)


_memo = OrderedDict()
_MEMO_MAX = 4000


def _trim():
    while len(_memo) > _MEMO_MAX:
        _memo.popitem(last=False)


def reference(hist, probe=False):
    """-> (result or ("exc", name), lines, seams) of the last operation."""
    k = key(hist) + ("#" if probe else "")
    if k in _memo:
        return _memo[k]
    saved_run, saved_clock = env.current, dict(env.clock.__dict__)
    saved_rng = np.random.get_state()
    saved_amb = env.ambient_get()
    saved_mods = {n: v for n, v in sys.modules.items()
                  if n == "pylogit" or n.startswith("pylogit.")}
    run = Run(entropy="reference")
    try:
        with run:
            np.random.seed(777)
            w = World()
            w.scratch = "/nonexistent"
            for op in hist[:-1]:
                try:
                    w.do(op)
                except env.SimFault:
                    raise
                except Exception:
                    pass
            run.begin_op(trace=probe)
            try:
                res = w.do(hist[-1])
            except Exception as e:
                res = ("exc", type(e).__name__)
            run.end_op()
            out = (res, run.cur.lines, dict(run.cur.seams))
    finally:
        env.current = saved_run
        env.clock.__dict__.update(saved_clock)
        np.random.set_state(saved_rng)
        env.ambient_set(saved_amb)
        for n in [n for n in sys.modules
                  if n == "pylogit" or n.startswith("pylogit.")]:
            del sys.modules[n]
        sys.modules.update(saved_mods)
    _memo[k] = out
    _trim()
    return out


def given(h, op):
    """The replicates `op` leaves behind, handed over instead of computed once
    more for every statistic that is asked of them."""
    if op[0] == "give":
        return op
    res = reference(h + [op])[0]
    if not isinstance(res, dict) or res.get("type") != "DataFrame":
        return op
    return ["give", op[1], {"boot": "bootstrap", "jack": "jackknife"}[op[0]],
            [v.tolist() for v in res["values"]], res["columns"][1:]]


def expected(ledger, op):
    return reference(ledger.hist(op))[0]


def expected_snapshot(ledger, m):
    return reference(ledger.model_hist(m) + [["snap", m]])[0]
