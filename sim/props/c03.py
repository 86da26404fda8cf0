"""C03 - tracked fields stay finite and within physical bounds."""
import numpy as np

from .. import cases, lab, model
from ..ctx import violation
from . import hist

BUDGET = {"quick": (160, 110), "thorough": (5000, 800)}
RULE = ("A case is a seeded experiment (forcing regimes from exactly calm to far beyond CFL, dry and flooded layers) with a "
        "seeded history of kills and restarts; every output is checked against bounds computed from the stored forcing. "
        "Non-trivial: moisture was tagged; distinct by the order of all gated operations.")
REAL, STUB = hist.REAL, hist.STUB
MUST_REACH = ["tag", "zero flux", "full layer", "restarted"]
EPS = 2e-5


def gen(r, tier, i):
    case = cases.gen_case(r, min_steps=2, max_steps=12 if tier == "quick" else 30,
                          regimes=["zero", "zero", "strong", "mixed", "dry", "still", "flood", "flood", "medium", "huge", "drain"],
                          outs=["30min", "1h", "1h", "2h", "3h", "6h", "90min", "1D"])
    return {"case": case, "history": hist.gen_history(r, case, extend_p=0.2, kills=(0, 0, 1, 1, 2))}


def nontrivial(p, r):
    return bool(r["probes"].get("tag"))


def execute(plan, c):
    case = plan["case"]
    ref = c.world()
    base = hist.straight(c, ref, case)
    if "kind" in base:
        return base
    if case["regime"] in ("zero", "still"):
        c.probe("zero flux")
    v = bounds(c, case, base)
    if v or not plan["history"]:
        return v
    w, outs, v = hist.play(c, plan, ref)
    return v or bounds(c, case, outs)


def totals(case, outs):
    """Independent totals of precipitation, evaporation and region flux between outputs."""
    F, = (lab.Forcing(case),)
    R = lab.Region(case, F)
    fwd = case["dir"] == "forward"
    dtm = case["dt"] / 60
    cur = case["start"] if fwd else case["end"]
    res = {}
    for t in sorted(outs, reverse=not fwd):
        n = int(round(abs(t - cur) / dtm))
        P = E = T = 0
        for k in range(n):
            a = cur + k * dtm if fwd else cur - (k + 1) * dtm
            p = F.at("precip", a + dtm / 2) * case["dt"]
            e = F.at("evap", a + dtm / 2) * case["dt"]
            tt = a if fwd else a + dtm
            P, E = P + p, E + e
            if case["tag0"] <= tt <= case["tag1"]:
                T = T + R.at(tt) * (e if fwd else p)
        res[t] = (P, E, T + 0 * P)
        cur = t
    return res, F


def bounds(c, case, outs):
    fwd = case["dir"] == "forward"
    for t, o in outs.items():
        for v in lab.vars_of(case):
            if not np.isfinite(o[v]).all():
                j = np.argwhere(~np.isfinite(o[v]))[0]
                return violation("not-finite", f"{lab.out_name(case, t)}: {v}{tuple(int(q) for q in j)} = {o[v][tuple(j)]}")
    tot, F = totals(case, outs)
    for t, o in outs.items():
        name = lab.out_name(case, t)
        for v in lab.vars_of(case):
            if o[v].min() < 0:
                j = np.unravel_index(o[v].argmin(), o[v].shape)
                return violation("negative", f"{name}: {v}{tuple(int(q) for q in j)} = {o[v][j]:.6g}")
        edge = np.ones(o["losses"].shape, bool)
        edge[1:-1, slice(None) if case.get("periodic") else slice(1, -1)] = False
        for l in ("upper", "lower"):
            s = o[f"s_track_{l}_restart"]
            full = F.at("s_" + l, t)
            if s.shape != full.shape:
                return violation("shape", f"{name}: {s.shape} instead of {full.shape}")
            if (s > full * (1 + EPS)).any():
                j = np.unravel_index((s - full).argmax(), s.shape)
                return violation("more-than-there-is", f"{name}: tracked {l} storage {s[j]:.7g} of {full[j]:.7g}")
            if s[edge].any():
                return violation("boundary", f"{name}: tracked {l} storage on the open boundary: {s[edge].max():.6g}")
            if (s > full * 0.999).any():
                c.probe("full layer")
        P, E, T = tot[t]
        got = o["p_track_upper"] + o["p_track_lower"] if fwd else o["e_track"]
        lim = P if fwd else E
        if (got > lim * (1 + EPS) + EPS * lim.max() + 1e-12).any():
            j = np.unravel_index((got - lim).argmax(), got.shape)
            return violation("tracked-exceeds-total", f"{name}: {tuple(int(q) for q in j)} tracked {got[j]:.7g} of {lim[j]:.7g}")
        tag = o["tagged_evap" if fwd else "tagged_precip"]
        if (tag > T * (1 + EPS) + EPS * T.max() + 1e-12).any():
            j = np.unravel_index((tag - T).argmax(), tag.shape)
            return violation("tagged-exceeds-flux", f"{name}: {tuple(int(q) for q in j)} tagged {tag[j]:.7g} of {T[j]:.7g}")
        if tag.any():
            c.probe("tag")
    return None


def shrink(plan):
    if plan["history"]:
        yield dict(plan, history=[])
    yield from hist.shrink(plan)
