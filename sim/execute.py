"""Plan -> outcome."""
import copy
import json
import zlib

from .engine import Serial, Concurrent
from .props import PROPS, decl_of
from .world import csv_reset
from .special import SaveRun, OptRun, ResampleRun


def unambient(op):
    if op[0] in ("fit", "pred", "boot") and op[2].get("seed") is not None \
            and "ambient" in op[2]:
        a = dict(op[2])
        a.pop("ambient")
        return [op[0], op[1], a]
    return op


def silent(op):
    if op[0] in ("fit", "boot", "jack", "int") and op[2].get("print"):
        a = dict(op[2])
        a.pop("print")
        return [op[0], op[1], a]
    return op


REF = {"unambient": unambient, "silent": silent}


def kind_of(plan, op):
    if isinstance(op, str):
        return op
    d = decl_of(plan, op[1]) if len(op) > 1 and isinstance(op[1], str) else None
    return "%s:%s" % (op[0], d["kind"] if d else "")


def run_plan(plan, want_results=False):
    plan = copy.deepcopy(plan)
    csv_reset()
    ex = plan["exec"]
    if ex == "serial":
        x = Serial(plan, ref_op=REF.get(plan.get("ref"), lambda op: op)).run()
    elif ex == "concurrent":
        x = Concurrent(plan).run()
    elif ex == "save":
        x = SaveRun(plan).run()
    elif ex == "opt":
        x = OptRun(plan).run()
    elif ex == "resample":
        x = ResampleRun(plan).run()
    else:
        raise ValueError(ex)
    run = x.r
    for v in x.viol:
        i = v["op"]
        op = None
        if ex in ("serial", "resample") and isinstance(i, int) and i >= 0:
            op = plan["entries"][i].get("op")
        elif ex == "concurrent" and isinstance(i, list) and i[1] >= 0:
            op = plan["tasks"][i[0]][i[1]]["op"]
        v["opv"] = op
    rel = PROPS[plan["prop"]][1]
    viol = [v for v in x.viol if rel(v, plan)]
    log = json.dumps(x.log, sort_keys=True, default=str)
    digest = zlib.crc32(log.encode(), run.digest)
    sig, nontriv = signature(plan, x)
    return {"plan": plan, "viol": viol,
            "other": [v["class"] for v in x.viol if v not in viol],
            "stats": x.stats, "faults": run.fault_counts,
            "seams": run.seam_counts, "digest": digest,
            "sig": sig, "nontrivial": nontriv,
            "switches": list(run.switches) if ex == "concurrent" else None,
            "log": x.log,
            "results": getattr(x, "results", None) if want_results else None}


def signature(plan, x):
    """What makes two runs count as different, and whether a run counts."""
    ex = plan["exec"]
    st = x.stats
    if ex == "serial":
        parts = []
        fired = 0
        for rec in x.log:
            if rec[1] == "skipped":
                continue
            op = plan["entries"][rec[0]]["op"]
            k = kind_of(plan, op)
            if len(rec) > 3:
                for f in rec[3]:
                    fired += 1
                    k += "!%s@%s" % (f[2], f[3] or f[0])
                k += "=" + rec[2][:3]
            parts.append(k)
        sig = "|".join(parts)
        need_fault = plan["prop"] in ("C03", "C04", "C12")
        ok = st["compares"] > 0 and len(parts) >= 2 and (
            fired > 0 or not need_fault)
        if plan["prop"] == "C09":
            ok = ok and st.get("restarts", 0) > 0
        if plan["prop"] == "C01":
            ok = ok and any(e["op"][0] in ("fit", "pred", "boot")
                            and e["op"][2].get("seed") is not None
                            for e in plan["entries"])
        if plan["prop"] == "C17":
            ok = ok and any(e["op"][0] == "pred" for e in plan["entries"])
        if plan["prop"] == "C18":
            ok = ok and any(e["op"][0] in ("int", "bll", "bgrad")
                            for e in plan["entries"])
        if plan["prop"] == "C15":
            ok = ok and st.get("sim_seconds") is not None
        return sig, ok
    if ex == "concurrent":
        ops = "|".join(":".join(e["op"][0] for e in t) for t in plan["tasks"])
        sig = "%s#%08x" % (ops, x.r.digest)
        return sig, len(x.r.switches) > len(plan["tasks"]) and st["compares"] > 0
    if ex == "save":
        sig = "|".join("%s/%s/%s" % f for f in x.fates)
        kinds = "/".join(plan["models"][n][0]["kind"] for n in sorted(plan["models"]))
        return kinds + "|" + sig + "|%s" % plan["bufsize"], bool(
            x.r.fault_counts or any(f[0] == "concurrent" for f in x.fates))
    if ex == "opt":
        sig = plan["decl"]["kind"] + "|" + "|".join(
            "%s,%s,%s,%s" % (e["adv"]["mode"], e["fit"].get("method", "BFGS"),
                             e["fit"].get("ridge"), len(e["fit"].get("cons") or []))
            + ",".join(k for k in ("before", "after", "buffer", "scribble",
                                   "stop_after") if e["adv"].get(k))
            for e in plan["entries"])
        ok = st["compares"] > 0
        if plan["prop"] == "C14":
            ok = ok and any(e["fit"].get("cons") for e in plan["entries"])
        return sig, ok
    if ex == "resample":
        sig = plan["decl"]["kind"] + "|" + "|".join(
            "%s,%s,%s" % (e["op"][0], e["op"][2].get("seed"),
                          e["op"][2].get("ambient")) for e in plan["entries"]) \
            + "|%d" % plan["decl"]["d"]["seed"]
        return sig, st["compares"] > 0
