"""C04 - every model step is accounted in exactly one output, at the right time."""
import numpy as np

from .. import cases, lab
from ..ctx import track, violation
from . import c03, hist

BUDGET = {"quick": (130, 110), "thorough": (4000, 800)}
RULE = ("A case is a seeded experiment run with two output frequencies and again with a seeded history of kills, restarts and "
        "extensions; file names, time stamps and accumulations over every common period are compared with each other and "
        "with an independent calendar and step count. Non-trivial: two or more outputs; distinct by the order of all gated "
        "operations.")
REAL, STUB = hist.REAL, hist.STUB
MUST_REACH = ["several", "common periods", "restarted", "month change", "cal:360_day", "cal:noleap", "backward", "partial last"]


def gen(r, tier, i):
    case = cases.gen_case(r, min_steps=3, max_steps=12 if tier == "quick" else 30, domain_p=0.15,
                          cals=["standard", "standard", "proleptic_gregorian", "noleap", "360_day", "julian", "gregorian",
                                "365_day", "all_leap", "366_day"],
                          dts=[1800, 3600, 5400, 7200, 10800, 2520, 21600, 600, 15600, 4320])
    other = r.choice([f for f in ["20min", "30min", "1h", "2h", "3h", "4h", "6h", "8h", "12h", "1D", "90min", "1H", "360min"]
                      if f != case["out"]])
    if other[-1] == "H":
        other = other[:-1] + "h"
    return {"case": case, "other": other, "history": hist.gen_history(r, case, extend_p=0.3, kills=(0, 1, 1, 2))}


def nontrivial(p, r):
    return bool(r["probes"].get("several"))


def execute(plan, c):
    case = plan["case"]
    ref = c.world()
    A = hist.straight(c, ref, case)
    if "kind" in A:
        return A
    v = timeline(c, case, A)
    if v:
        return v
    two = dict(case, out=plan["other"])
    w2 = c.world()
    B = hist.straight(c, w2, two)
    if "kind" in B:
        return B
    v = timeline(c, two, B) or common(c, case, A, B, "output frequencies " + case["out"] + " and " + plan["other"])
    if v or not plan["history"]:
        return v
    w, H, v = hist.play(c, plan, ref)
    if v:
        return v
    extra = set(H) - set(A) - {hist_end(case, s) for s in plan["history"]}
    if extra:
        return violation("unexpected-output", f"after the history: {[lab.out_name(case, t) for t in sorted(extra)]}")
    miss = set(A) - set(H)
    if miss:
        return violation("missing-output", f"after the history: {[lab.out_name(case, t) for t in sorted(miss)]}")
    return common(c, case, A, H, "uninterrupted and restarted run")


def hist_end(case, seg):
    if "end_frac" not in seg:
        return None
    a, b = hist.segment_dates(case, seg, None, False)
    return b if case["dir"] == "forward" else a


def timeline(c, case, outs):
    want = [t for t, _ in lab.timeline(case)]
    for t in want:
        if t not in outs:
            return violation("missing-output", f"no output for {lab.iso(case, t)} ({case['out']}, {case['cal']}); "
                                               f"found {[lab.iso(case, x) for x in sorted(outs)]}")
    for t in outs:
        if t not in want:
            return violation("unexpected-output", f"output for {lab.iso(case, t)} ({case['out']}, {case['cal']})")
    if len(want) > 1:
        c.probe("several")
    if lab.when(case, case["start"]).month != lab.when(case, case["end"]).month:
        c.probe("month change")
    c.probe("cal:" + case["cal"])
    c.probe(case["dir"])
    if want[-1] % lab.freq_minutes(case["out"]):
        c.probe("partial last")
    # the bounds stored with an output describe its period and its cells
    of = lab.freq_minutes(case["out"])
    for t, steps in lab.timeline(case):
        b, name = lab.output_bounds(case, outs[t]), lab.out_name(case, t)
        first = t - of if case["dir"] == "forward" else t + of
        if b[1] != t or steps * case["dt"] == of * 60 and b[0] != first:
            return violation("wrong-bounds", f"{name}: time bounds {[lab.iso(case, x) for x in b]}")
        for k in ("latitude", "longitude"):
            x, y = outs[t]["_" + k[:3]], outs[t]["_bnds"][k]
            if len(x) < 4:
                continue
            w = np.sort(np.reshape(y, (-1, 2)) - np.reshape(x, (-1, 1)), axis=-1)
            h = np.abs(np.diff(x)).min() / 2
            if len(w) != len(x) or not np.allclose(w, [-h, h], atol=1e-3 * h + 4e-5):
                return violation("wrong-bounds", f"{name}: bounds of {k} {np.ravel(y)[:4]} around {x[:2]}")
    c.probe("full period")
    # every step's tagged amount is in the output it belongs to
    tot, F = c03.totals(case, outs)
    v = "tagged_evap" if case["dir"] == "forward" else "tagged_precip"
    for t, (P, E, T) in tot.items():
        d = lab.compare(case, {v: T}, {v: outs[t][v]}, 2e-5, 2e-5, vars=[v], floor=1e-9)
        if d:
            return violation("wrong-accumulation", f"{lab.out_name(case, t)} does not hold the steps since the previous "
                                                   f"output: {d}")
    return None


def common(c, case, A, B, what):
    """Accumulations between any two times both have agree."""
    fwd = case["dir"] == "forward"
    ts = sorted(set(A) & set(B), reverse=not fwd)
    if not ts:
        return None
    sums = []
    for S in (A, B):
        acc, res = None, {}
        for t in sorted(S, reverse=not fwd):
            acc = S[t] if acc is None else hist.add(case, acc, S[t])
            if t in ts:
                res[t] = acc
                acc = None
        sums.append(res)
    floor = hist.floors(sums[0])
    for t in ts:
        d = lab.compare(case, sums[0][t], sums[1][t], 2e-5, 2e-5, floor=floor)
        if d:
            return violation("accounting", f"period ending {lab.iso(case, t)}: {what} disagree: {d}")
    c.probe("common periods", len(ts))
    return None


def shrink(plan):
    if plan["history"]:
        yield dict(plan, history=[])
    yield from hist.shrink(plan)
