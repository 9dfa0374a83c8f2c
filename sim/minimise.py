"""Shrink a failing plan: fewer operations, fewer faults, fewer preemptions,
plainer arguments, while the same class of violation is still reported."""
import copy

from . import env
from .execute import run_plan


class Budget(object):
    def __init__(self, seconds, runs):
        self.t0 = env.real["monotonic"]()
        self.seconds = seconds
        self.runs = runs
        self.used = 0

    def ok(self):
        return (self.used < self.runs
                and env.real["monotonic"]() - self.t0 < self.seconds)


def minimise(plan, cls, seconds=60, runs=300):
    b = Budget(seconds, runs)
    best = {"plan": plan, "out": None}

    def fails(p):
        if not b.ok():
            return False
        b.used += 1
        try:
            out = run_plan(p)
        except Exception:
            return False
        if any(v["class"] == cls for v in out["viol"]):
            best["plan"], best["out"] = p, out
            return True
        return False

    def cur():
        return best["plan"]

    def shrink_list(get, set_):
        """ddmin over a list inside the plan."""
        n = 2
        while b.ok():
            items = get(cur())
            if not items:
                return
            size = max(1, len(items) // n)
            hit = False
            for lo in range(0, len(items), size):
                p = copy.deepcopy(cur())
                keep = items[:lo] + items[lo + size:]
                set_(p, copy.deepcopy(keep))
                if fails(p):
                    hit = True
                    break
                if not b.ok():
                    return
            if hit:
                n = max(2, n - 1)
            elif size == 1:
                return
            else:
                n = min(len(items), n * 2)

    def at(key):
        def get(p):
            return p.get(key) or []

        def set_(p, v):
            p[key] = v
        return get, set_

    if plan["exec"] == "concurrent":
        first = run_plan(plan)
        b.used += 1
        p = copy.deepcopy(first["plan"])
        p["schedule"] = {"mode": "explicit",
                         "switches": [list(s) for s in first["switches"]]}
        fails(p)
        if cur()["schedule"]["mode"] == "explicit":
            shrink_list(lambda p: p["schedule"]["switches"],
                        lambda p, v: p["schedule"].__setitem__("switches", v))
        for t in range(len(plan["tasks"])):
            shrink_list(lambda p: p["tasks"][t],
                        lambda p, v: p["tasks"].__setitem__(t, v))
        if cur()["schedule"]["mode"] == "explicit":
            shrink_list(lambda p: p["schedule"]["switches"],
                        lambda p, v: p["schedule"].__setitem__("switches", v))
        shrink_list(*at("setup"))
    else:
        shrink_list(*at("entries"))
        for i in range(len(cur().get("entries", []))):
            if cur()["entries"][i].get("faults"):
                p = copy.deepcopy(cur())
                p["entries"][i].pop("faults")
                fails(p)
            if cur()["entries"][i].get("fault"):
                p = copy.deepcopy(cur())
                p["entries"][i].pop("fault")
                fails(p)
            if isinstance(cur()["entries"][i].get("adv"), dict):
                for k in ("before", "after", "buffer", "scribble", "stop_after"):
                    if k in cur()["entries"][i]["adv"]:
                        p = copy.deepcopy(cur())
                        p["entries"][i]["adv"].pop(k)
                        fails(p)
    if cur().get("clock"):
        p = copy.deepcopy(cur())
        p["clock"] = None
        fails(p)
    if cur().get("power"):
        p = copy.deepcopy(cur())
        p["power"] = 0
        fails(p)
    # plainer arguments
    def args_of(p):
        out = []
        for e in p.get("entries", []):
            if isinstance(e.get("fit"), dict):
                out.append(e["fit"])
            if isinstance(e.get("op"), list):
                out += [x for x in e["op"][2:] if isinstance(x, dict)]
        return out
    for i in range(len(args_of(cur()))):
        for k in ("print", "ridge", "cons", "ambient", "loss_tol",
                  "gradient_tol", "method", "plist", "choice", "names"):
            if k == "choice" and args_of(cur())[i].get("long") is False:
                continue    # would not be a valid request
            if k in args_of(cur())[i]:
                p = copy.deepcopy(cur())
                args_of(p)[i].pop(k)
                fails(p)
    return best["plan"], best["out"], b.used
