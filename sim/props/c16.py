"""C16 - tracking implements the documented two-layer scheme in every history."""
import numpy as np

from .. import cases, lab, model
from ..ctx import violation
from . import hist

BUDGET = {"quick": (170, 110), "thorough": (5000, 800)}
RULE = ("A case is a seeded experiment and a seeded history of kills, restarts and extensions, executed by the real command "
        "and by an independent double-precision reference model of the documented scheme over the same forcing. "
        "Non-trivial: moisture was tagged and at least one of CFL limiting, upward transport, overshoot, gain or an overfull "
        "layer occurred in the reference; distinct by the order of all gated operations.")
REAL = hist.REAL
STUB = hist.STUB
MUST_REACH = ["limiter", "upward", "overshoot", "tag", "restarted", "periodic", "rolled domain", "one column before the date line", "dx!=dy"]
TOL = 2e-4      # about ten times the largest float32 discrepancy seen over 1500 plans
PINNED = "C16-closure-area"


def gen(r, tier, i):
    if i == 0:
        return pinned()
    q = r.random()
    case = cases.gen_case(r, min_steps=2, max_steps=10 if tier == "quick" else 24, global_p=0.45)
    if case["global"] and q < 0.4:
        case["periodic"] = False
        cases.add_domain(r, case, 1.0)
    h = hist.gen_history(r, case, extend_p=0.2, kills=(0, 0, 1, 1, 2))
    return {"case": case, "history": h}


def pinned():
    """The history of the recorded known finding (closure of precipitation and evaporation)."""
    case = {"cal": "standard", "cal_explicit": False, "t0": [2021, 7, 1], "days": 1, "in_min": 60, "ny": 5, "nx": 6,
            "dlat": 0.5, "dlon": 0.5, "global": False, "periodic": False, "lat0": 50.0, "lon0": 0.0, "regime": "still",
            "fseed": 7, "dir": "forward", "kvf": 3, "domain": None, "dt": 3600, "start": 0, "end": 240, "out": "1h",
            "region": {"kind": "bbox", "bbox": [0.2, 47.8, 2.7, 50.2]}, "tag0": 0, "tag1": 240}
    return {"case": case, "history": [], "known": PINNED}


def nontrivial(p, r):
    b = r["probes"]
    return bool(b.get("tag")) and any(b.get(k) for k in ("limiter", "upward", "overshoot", "gains", "overfull"))


def expected(c, case, **kw):
    m = model.Model(case, **kw)
    e = m.run()
    for f in m.flags:
        c.probe(f)
    if case.get("periodic"):
        c.probe("periodic")
    if case.get("domain") and case["domain"][0] > case["domain"][2]:
        c.probe("rolled domain")
        if (lab.grid(case)[1] > case["domain"][0]).sum() == 1:
            c.probe("one column before the date line")
    if case["dlat"] != (360.0 / case["nx"] if case.get("global") else case["dlon"]):
        c.probe("dx!=dy")
    return e


def execute(plan, c):
    case = plan["case"]
    ref = c.world()
    base = hist.straight(c, ref, case)
    if "kind" in base:
        return base
    exp = expected(c, case)
    if plan.get("known"):
        # the finding is: differs from the documented closure, equals the closure as implemented
        doc = model.Model(case, documented_closure=True).run()
        v = against(c, case, doc, base, documented_closure=True)
        if v is None:
            return None               # repaired: nothing to report
        v = against(c, case, exp, base)
        if v is None:
            c.known.append(plan["known"])
        return v
    v, kw = against(c, case, exp, base), {}
    if v:
        # a tree in which the known finding is repaired follows the documented closure
        kw = {"documented_closure": True}
        exp = model.Model(case, **kw).run()
        if against(c, case, exp, base, **kw) is not None:
            return v
    if not plan["history"]:
        return None
    w, outs, v = hist.play(c, plan, ref)
    return v or against(c, case, exp, outs, **kw)


def against(c, case, exp, outs, **kw):
    """Violation if the outputs differ from the expected ones by more than rounding explains."""
    v = differs(c, case, exp, outs, None)
    if v is None or v["kind"] != "differs-from-scheme":
        return v
    # how far does single-precision rounding of coordinates and input carry in this very experiment?
    room = {}
    for k in range(4):
        for t, o in model.Model(case, jitter=k, **kw).run().items():
            for f, x in o.items():
                y = room.setdefault(t, {})
                y[f] = np.maximum(y.get(f, 0.0), 4 * np.abs(x - exp[t][f]))
    return differs(c, case, exp, outs, room)


def differs(c, case, exp, outs, room):
    floor = hist.floors({0: {k: v for o in exp.values() for k, v in o.items()}})
    fwd = case["dir"] == "forward"
    acc = None
    for t in sorted(outs, reverse=not fwd):
        o = outs[t]
        if acc is not None:
            o = hist.add(case, acc, o)
            acc = None
        if t not in exp:
            acc = o
            continue
        e = exp[t]
        if room:
            e = {f: np.where(np.abs(x - o[f]) <= room[t][f].max(), o[f], x) if f in o and x.shape == o[f].shape else x
                 for f, x in e.items()}
        d = lab.compare(case, e, o, TOL, TOL, floor=floor)
        if d:
            return violation("differs-from-scheme", f"{lab.out_name(case, t)} (expected vs stored) {d}")
    miss = [t for t in exp if t not in outs]
    if miss:
        return violation("missing-output", f"{lab.out_name(case, miss[0])}")
    return None


def shrink(plan):
    if plan.get("known"):
        return
    if plan["history"]:
        yield dict(plan, history=[])
    yield from hist.shrink(plan)
