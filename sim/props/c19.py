"""C19 - reported progress agrees with the moisture ledger."""
import os
import re

import numpy as np

from .. import cases, lab
from ..ctx import violation
from . import hist

BUDGET = {"quick": (200, 100), "thorough": (5000, 800)}
RULE = ("A case is a seeded experiment with a seeded history of kills, restarts and extensions. After every command the progress "
        "lines of its log are compared with the cos(latitude)-weighted totals recomputed in double precision from the output "
        "files that command wrote. Non-trivial: moisture was tagged and at least two progress lines were compared; distinct by "
        "the order of all gated operations.")
REAL = hist.REAL
STUB = hist.STUB
MUST_REACH = ["forward", "backward", "two outputs", "restarted", "killed", "periodic", "gains", "losses", "boundary", "cold closure",
              "nothing tagged yet", "line without output", "losses at the seam"]
LINE = re.compile(r"^(?P<t>.*?) - Tracked moisture: (\S+?)%\. Tagged in atmosphere: (\S+?)%\. Boundary transport: (\S+?)%\. "
                  r"Lost moisture: (\S+?)%\. Gained moisture: (\S+?)%\. Tagging closure: (\S+?)%\.")
NAMES = ["tracked moisture", "tagged in atmosphere", "boundary transport", "lost moisture", "gained moisture", "tagging closure"]


def gen(r, tier, i):
    case = cases.gen_case(r, min_steps=2, max_steps=10 if tier == "quick" else 24,
                          outs=["30min", "1h", "1h", "2h", "3h", "6h", "90min"], global_p=0.45,
                          regimes=["mild", "medium", "strong", "zero", "mixed", "dry", "still", "flood", "flood", "flood", "dry",
                                   "mixed"])
    return {"case": case, "history": hist.gen_history(r, case, extend_p=0.3, kills=(0, 0, 1, 1, 2))}


def nontrivial(p, r):
    return bool(r["probes"].get("two outputs"))


def logs(folder):
    return sorted(f for f in os.listdir(folder) if f.startswith("wam2layers_") and f.endswith(".log")) \
        if os.path.isdir(folder) else []


def totals(case, o):
    """cos(latitude)-weighted sums of one output."""
    lat = np.asarray(o["_lat"], "f8")
    w = np.cos(np.radians(lat))[:, None]
    s = {k: float((v * w).sum()) for k, v in o.items() if k[0] != "_"}
    inner = np.zeros(o["losses"].shape, bool)
    inner[1:-1, slice(None) if case.get("periodic") else slice(1, -1)] = True
    lost = float((o["losses"] * w)[inner].sum())
    side = float((o["losses"] * w)[1:-1, [0, -1]].sum()) if case.get("periodic") else 0.0
    return {"tracked": s["e_track"] if case["dir"] == "backward" else s["p_track_upper"] + s["p_track_lower"],
            "tagged": s["tagged_precip"] if case["dir"] == "backward" else s["tagged_evap"],
            "air": s["s_track_upper_restart"] + s["s_track_lower_restart"], "lost": lost, "edge": s["losses"] - lost,
            "gains": s["gains"], "side": side}


def polar(case):
    lat = lab.grid(case)[0]
    return max(abs(lat[0]), abs(lat[-1])) > 90 - case["dlat"] / 2


def check_log(c, case, text, a, b, node, restarted, good):
    """Progress lines of one command against what it wrote."""
    lines = [m for m in map(LINE.match, text.split("\n")) if m]
    times = [t for t, _ in lab.timeline(case, a, b)]
    if node.ok and len(lines) != len(times):
        return violation("progress-lines", f"{len(lines)} progress lines for {len(times)} outputs")
    if len(lines) > len(times):
        return violation("progress-lines", f"{len(lines)} progress lines for at most {len(times)} outputs")
    sums = {}
    for k, t in enumerate(times):
        name = lab.out_name(case, t)
        if k >= len(lines):
            if t in good:
                return violation("output-not-reported", f"{name} was written but its progress was not logged")
            continue
        m = lines[k]
        if t not in good:
            c.probe("line without output")
            break
        x = lab.when(case, t)
        if f"{x.year:04d}-{x.month:02d}-{x.day:02d}" not in m["t"] or f"{x.hour:02d}:{x.minute:02d}" not in m["t"]:
            return violation("progress-time", f"line {k + 1} is for {m['t']} instead of {x}")
        q = totals(case, good[t])
        for i, v in q.items():
            sums[i] = v if i == "air" else sums.get(i, 0.0) + v
        try:
            got = [float(g) for g in m.groups()[1:]]
        except ValueError:
            return violation("progress-format", f"{name}: {m.group(0)}")
        if sums["tagged"] <= 0:
            c.probe("nothing tagged yet")
            if np.isfinite(got).any():
                return violation("progress-of-nothing", f"{name}: nothing was tagged, yet {m.group(0)}")
            continue
        p = [100 * sums[i] / sums["tagged"] for i in ("tracked", "air", "edge", "lost", "gains")]
        p.append(p[0] + p[1] + p[2] + p[3] - p[4])
        tol = 0.0055 + 3e-5 * max(abs(v) for v in p)
        for i, (e, g) in enumerate(zip(p, got)):
            if not abs(e - g) <= tol:
                return violation("progress-differs", f"{name}: {NAMES[i]} {g}% logged, outputs give {e:.3f}%")
        if not restarted:
            c.probe("cold closure")
            if polar(case):
                c.probe("rows at the poles")      # where cos(latitude) does not measure the cells
            elif abs(got[5] - 100) > 0.011 + 1e-4 * max(abs(v) for v in p):
                return violation("closure", f"{name}: closure {got[5]}% in a run from empty storage (outputs give {p[5]:.3f}%)")
        if k:
            c.probe("two outputs")
        if sums["side"] * 100 > sums["tagged"]:
            c.probe("losses at the seam")
        for i, n in ((2, "boundary"), (3, "losses"), (4, "gains")):
            if p[i] > 0.01:
                c.probe(n)
    c.mark(len(lines))
    return None


def execute(plan, c):
    case = plan["case"]
    c.probe(case["dir"])
    if case.get("periodic"):
        c.probe("periodic")
    ref = c.world()
    base = hist.straight(c, ref, case)
    if "kind" in base:
        return base
    ls = logs(ref.root + "/out")
    if len(ls) != 1:
        return violation("log-missing", f"{len(ls)} log files after one run")
    v = check_log(c, case, open(f"{ref.root}/out/{ls[0]}").read(), case["start"], case["end"], ref.nodes[0], False, base)
    if v or not plan["history"]:
        return v
    have = set()

    def after(w, k, cfg, node, a, b, restarted, good):
        new = [f for f in logs(w.root + "/out") if f not in have]
        have.update(new)
        if len(new) != 1:
            if node.stopped and not new:
                return None
            return violation("log-missing", f"{len(new)} new log files after segment {k}")
        return check_log(c, case, open(f"{w.root}/out/{new[0]}", errors="replace").read(), a, b, node, restarted, good)
    return hist.play(c, plan, ref, after=after)[2]


def shrink(plan):
    if plan["history"]:
        yield dict(plan, history=[])
    yield from hist.shrink(plan)
