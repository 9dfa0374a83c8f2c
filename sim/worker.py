"""One simulator process (PyPy).  JSON lines in on fd 0, out on a private fd."""
import base64
import json
import os
import pickle
import sys
import traceback

_out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import env            # noqa: E402
env.install()
from sim.props import make_plan        # noqa: E402
from sim.execute import run_plan       # noqa: E402
from sim.minimise import minimise      # noqa: E402
from sim.world import diff             # noqa: E402


def brief(r):
    r = dict(r)
    r.pop("results", None)
    if not r["viol"]:
        r.pop("plan")
        r.pop("log")
        r.pop("switches")
    return r


def handle(msg):
    c = msg["cmd"]
    plan = msg.get("plan") or (make_plan(msg["prop"], msg["seed"])
                               if "seed" in msg else None)
    if c == "run":
        return brief(run_plan(plan))
    if c == "results":
        r = run_plan(plan, want_results=True)
        b = brief(r)
        b["blob"] = base64.b64encode(pickle.dumps(r["results"], 4)).decode()
        return b
    if c == "compare":
        r = run_plan(plan, want_results=True)
        other = pickle.loads(base64.b64decode(msg["blob"]))
        b = brief(r)
        b["plan"] = r["plan"]
        d = diff(r["results"], other)
        if d:
            b["viol"] = b["viol"] + [{
                "class": "other-process", "op": -1, "opv": None,
                "detail": "the same history gives different results in another "
                          "process: %s" % d}]
        b["same_digest"] = r["digest"] == msg.get("digest")
        return b
    if c == "minimise":
        p, out, used = minimise(plan, msg["class"], msg.get("seconds", 60),
                                msg.get("runs", 300))
        return {"plan": p, "used": used}
    if c == "sequence":
        out = None
        for s in msg["seeds"]:
            out = brief(run_plan(make_plan(msg["prop"], s)))
        return out
    raise ValueError(c)


def main():
    real_stdin = sys.stdin
    while True:
        line = real_stdin.readline()
        if not line:
            return
        msg = json.loads(line)
        t0 = env.real["monotonic"]()
        try:
            res = handle(msg)
        except BaseException as e:
            sys.settrace(None)
            env.current = None
            res = {"error": "".join(traceback.format_exc())[-3000:],
                   "etype": type(e).__name__}
        res["id"] = msg.get("id")
        res["secs"] = env.real["monotonic"]() - t0
        _out.write(json.dumps(res, default=str) + "\n")
        _out.flush()


if __name__ == "__main__":
    main()
