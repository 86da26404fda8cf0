"""C02 - tagged moisture is conserved across all outputs, restarts and crashes."""
import numpy as np

from .. import cases, lab, model
from ..ctx import violation
from . import hist

BUDGET = {"quick": (150, 110), "thorough": (5000, 800)}
RULE = ("A case is a seeded experiment with a seeded history of kills, restarts and extensions; the ledger is summed with "
        "true cell areas over every consecutive set of outputs it leaves. Non-trivial: moisture was tagged and at least two "
        "outputs exist; distinct by the order of all gated operations.")
REAL, STUB = hist.REAL, hist.STUB
MUST_REACH = ["tag", "losses", "gains", "restarted", "periodic"]
TOL = 1e-4


def gen(r, tier, i):
    case = cases.gen_case(r, min_steps=2, max_steps=12 if tier == "quick" else 30,
                          regimes=["mild", "medium", "strong", "zero", "mixed", "dry", "flood", "flood", "drain", "drain", "drain", "mixed"],
                          outs=["30min", "1h", "1h", "2h", "3h", "6h", "90min", "1D"])
    return {"case": case, "history": hist.gen_history(r, case, extend_p=0.25, kills=(0, 1, 1, 2, 3))}


def nontrivial(p, r):
    return bool(r["probes"].get("tag")) and bool(r["probes"].get("several"))


def execute(plan, c):
    case = plan["case"]
    ref = c.world()
    base = hist.straight(c, ref, case)
    if "kind" in base:
        return base
    v = ledger(c, case, base)
    if v or not plan["history"]:
        return v
    w, outs, v = hist.play(c, plan, ref)
    return v or ledger(c, case, outs)


def ledger(c, case, outs):
    F = lab.Forcing(case)
    A = model.geometry(F.dlat, F.dlon)[0]
    fwd = case["dir"] == "forward"
    s0 = 0.0
    tot = dict(tag=0.0, track=0.0, losses=0.0, gains=0.0)
    for n, t in enumerate(sorted(outs, reverse=not fwd)):
        o = outs[t]
        x = lambda v: float((o[v] * A).sum())
        try:
            d = dict(tag=x("tagged_evap" if fwd else "tagged_precip"),
                     track=x("p_track_upper") + x("p_track_lower") if fwd else x("e_track"),
                     losses=x("losses"), gains=x("gains"))
        except ValueError as e:
            return violation("shape", f"{lab.out_name(case, t)}: {e}")
        s1 = x("s_track_upper_restart") + x("s_track_lower_restart")
        for k in d:
            tot[k] += d[k]
        for what, q, a in (("since the previous output", d, s0), ("since the start", tot, 0.0)):
            res = q["tag"] + q["gains"] - q["track"] - q["losses"] - (s1 - a)
            size = sum(abs(z) for z in q.values()) + abs(s1) + abs(a)
            if not abs(res) <= TOL * size + 1e-9:
                return violation("imbalance", f"{lab.out_name(case, t)}: {what} the ledger is off by {res:.6g} "
                                 f"(tagged {q['tag']:.6g} gained {q['gains']:.6g} tracked {q['track']:.6g} lost "
                                 f"{q['losses']:.6g} storage change {s1 - a:.6g})")
        s0 = s1
        c.mark(t, sorted((k, f"{z:.6e}") for k, z in d.items()))
    if tot["tag"] > 0:
        c.probe("tag")
    if tot["gains"] > 0:
        c.probe("gains")
    if tot["losses"] > 0:
        c.probe("losses")
    if len(outs) > 1:
        c.probe("several")
    if case.get("periodic"):
        c.probe("periodic")
    return None


def shrink(plan):
    if plan["history"]:
        yield dict(plan, history=[])
    yield from hist.shrink(plan)
