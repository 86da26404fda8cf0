"""C05 - moisture is tagged exactly within the tagging window and region."""
from .. import cases, lab
from ..ctx import violation
from . import c03, hist

BUDGET = {"quick": (150, 110), "thorough": (5000, 800)}
RULE = ("A case is a seeded experiment whose tagging window edges lie on, just before and just after step times, with a "
        "seeded region kind (bounding box, static or time-varying mask, shapefile; across the date line; cut-out domains) "
        "and a seeded history of kills and restarts. Non-trivial: some output tagged moisture and the window does not cover "
        "the whole run or the region not the whole grid; distinct by the order of all gated operations.")
REAL, STUB = hist.REAL, hist.STUB
MUST_REACH = ["tag", "no tag", "bbox", "static", "dynamic", "shape", "dateline bbox", "domain", "rolled domain", "restarted",
              "partial window"]


def gen(r, tier, i):
    case = cases.gen_case(r, min_steps=3, max_steps=10 if tier == "quick" else 24, global_p=0.45, domain_p=0.5,
                          regimes=["mild", "medium", "zero", "flood"],
                          outs=["30min", "1h", "1h", "2h", "3h", "90min", "6h"])
    # mostly windows that do not cover the run
    if case["tag0"] <= case["start"] and case["tag1"] >= case["end"] and r.random() < 0.6:
        n = max(1, int((case["end"] - case["start"]) // (case["dt"] / 60)))
        d = case["dt"] / 60
        base = case["start"] if case["dir"] == "forward" else case["end"] - n * d
        a = r.randrange(0, n + 1)
        b = r.randrange(a, n + 1)
        case["tag0"] = int(max(0, base + a * d + r.choice([0, 0, 0, 1, -1])))
        case["tag1"] = int(max(case["tag0"], base + b * d + r.choice([0, 0, 0, 1, -1])))
    return {"case": case, "history": hist.gen_history(r, case, extend_p=0.2, kills=(0, 1, 1, 2))}


def nontrivial(p, r):
    return bool(r["probes"].get("tag"))


def execute(plan, c):
    case = plan["case"]
    ref = c.world()
    base = hist.straight(c, ref, case)
    if "kind" in base:
        return base
    c.probe(case["region"]["kind"])
    if case["region"]["kind"] == "bbox" and case["region"]["bbox"][0] > case["region"]["bbox"][2]:
        c.probe("dateline bbox")
    if case.get("domain"):
        c.probe("rolled domain" if case["domain"][0] > case["domain"][2] else "domain")
    if case["tag0"] > case["start"] or case["tag1"] < case["end"]:
        c.probe("partial window")
    v = tagged(c, case, base)
    if v or not plan["history"]:
        return v
    w, outs, v = hist.play(c, plan, ref)
    return v or tagged(c, case, outs)


def tagged(c, case, outs):
    tot, F = c03.totals(case, outs)
    v = "tagged_evap" if case["dir"] == "forward" else "tagged_precip"
    for t, (P, E, T) in tot.items():
        if T.shape != outs[t][v].shape:
            return violation("shape", f"{lab.out_name(case, t)}: {outs[t][v].shape} instead of {T.shape}")
        outside = outs[t][v][T == 0]
        if outside.any():
            return violation("tagged-outside", f"{lab.out_name(case, t)}: {outside.max():.6g} tagged where the region or "
                                               f"window excludes it")
        d = lab.compare(case, {v: T}, {v: outs[t][v]}, 2e-5, 1e-6, vars=[v], floor=1e-12)
        if d:
            return violation("tagged-amount", f"{lab.out_name(case, t)} (expected vs stored) {d}")
        c.probe("tag" if T.any() else "no tag")
    return None


def shrink(plan):
    if plan["history"]:
        yield dict(plan, history=[])
    yield from hist.shrink(plan)
