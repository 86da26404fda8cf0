"""C25 - limited transport is reported as documented."""
import os
import re

import numpy as np

from .. import cases, lab, model
from ..ctx import isolated, violation
from . import c19, hist

BUDGET = {"quick": (220, 90), "thorough": (5000, 800)}
RULE = ("A case is a seeded experiment with a seeded history of kills, restarts and extensions. For every command the sequence "
        "of stability warnings in its log and the debug files it wrote are compared with what the documented criteria give for "
        "the steps of that command, from an independent evaluation of the CFL limit; decisions closer to a threshold than "
        "rounding carries may go either way. Non-trivial: at least one warning was due; distinct by the order of all gated "
        "operations.")
REAL = hist.REAL
STUB = hist.STUB
MUST_REACH = ["forward", "backward", "warned", "not limited", "limited without a new warning", "both layers", "warned again: area",
              "warned again: factor", "restarted", "killed"]
WARN = re.compile(r"stability correction applied to (\S+?)% of\s+grid\.\s+Average correction factor was (\S+?),\s+the strongest "
                  r"correction factor was (\S+?)\s+The correction factor field is written to (.*?)\.nc\.")
NEAR = 2e-4


def gen(r, tier, i):
    case = cases.gen_case(r, min_steps=3, max_steps=14 if tier == "quick" else 40, dts=[1800, 3600, 5400, 7200, 10800, 1200, 600],
                          outs=["30min", "1h", "2h", "3h", "6h"],
                          regimes=["medium", "medium", "strong", "strong", "mixed", "flood", "mild", "dry", "zero"])
    return {"case": case, "history": hist.gen_history(r, case, extend_p=0.3, kills=(0, 0, 1, 1, 2))}


def nontrivial(p, r):
    return bool(r["probes"].get("warned"))


def due(case, a, b):
    """Per step and layer: (minutes, layer, share of limited cells (min, max), factor field)."""
    m = model.Model(case)
    dt = case["dt"] / 60
    out = []
    for k in range(int((b - a) // dt)):
        t0, t1 = (a + k * dt, a + (k + 1) * dt) if case["dir"] == "forward" else (b - (k + 1) * dt, b - k * dt)
        t = t0 if case["dir"] == "forward" else t1
        for l in ("upper", "lower"):
            fx, fy = (np.abs(m.F.at(f"{v}_{l}", (t0 + t1) / 2) * s) * m.dt for v, s in (("fx", m.ly), ("fy", m.lx)))
            lim = 0.5 * m.F.at("s_" + l, t) * m.area
            with np.errstate(invalid="ignore", divide="ignore"):
                q = lim / (fx + fy)              # < 1: limited
                f = np.where(fy > 0, np.minimum(1.0, q), np.nan)
            some = fy > 0
            lo, hi = int((q[some] < 1 - NEAR).sum()), int((q[some] < 1 + NEAR).sum())
            out.append((t, l, (100 * lo / fy.size, 100 * hi / fy.size), f))
    return out


def verdicts(state, share, f):
    """Decisions the criteria allow in this state: [(warn, next state, why)]."""
    factor, grid = state
    s = float(np.nanmin(f)) if np.isfinite(f).any() else np.inf
    res = []
    x = s / (factor / 1.1) if np.isfinite(s) else np.inf
    if x < 1 + NEAR:
        res.append((True, (s, grid), "factor"))
    if x > 1 - NEAR:
        lo, hi = share
        if hi > max(5.0, grid * 1.1) * (1 - 1e-9):
            res.append((True, (factor, hi), "area"))
            if lo != hi:
                res.append((True, (factor, lo), "area"))
        if not lo > max(5.0, grid * 1.1) * (1 + 1e-9):
            res.append((False, state, ""))
    return res


def fits(w, share, f):
    g = f[np.isfinite(f)]
    return (share[0] - 0.051 <= w["area"] <= share[1] + 0.051 and abs(w["mean"] - g.mean()) <= 0.0051 + NEAR
            and abs(w["factor"] - g.min()) <= 0.0051 + NEAR)


def read_warnings(text):
    out = []
    for x in WARN.finditer(text):
        out.append({"area": float(x[1]), "mean": float(x[2]), "factor": float(x[3]), "file": os.path.basename(x[4]) + ".nc"})
    return out


def stamp(case, t):
    x = lab.when(case, t)
    return f"stability_correction_{x.year:04d}{x.month:02d}{x.day:02d}-{x.hour:02d}{x.minute:02d}{x.second:02d}.nc"


def check_command(c, case, folder, text, a, b, node):
    got = read_warnings(text)
    if text.count("stability correction applied") != len(got) and node.ok:
        return violation("warning-format", f"{text.count('stability correction applied')} warnings, {len(got)} understood")
    lines = [m for m in map(c19.LINE.match, text.split("\n")) if m]
    times = [t for t, _ in lab.timeline(case, a, b)]
    # a killed command got at least as far as its last progress line
    reached = times[len(lines) - 1] if lines else None
    fwd = case["dir"] == "forward"
    belief = {(1.0, 0.0): None}
    k, last = 0, {}
    seen = {}
    for t, l, share, f in due(case, a, b):
        name = stamp(case, t)
        w = got[k] if k < len(got) and got[k]["file"] == name else None
        done = node.ok or (reached is not None and (t < reached if fwd else t > reached))
        if not done and k >= len(got):
            break
        new, took, blank, reason = {}, False, False, set()
        for s in belief:
            for warn, nxt, why in verdicts(s, share, f):
                if warn and w is not None and fits(w, share, f):
                    new[(nxt, True)] = None
                    reason.add(why)
                elif not warn:
                    new[(nxt, False)] = None
        warned, silent = {s for s, x in new if x}, {s for s, x in new if not x}
        # a warning at this time belongs to this layer unless only the other one can have given it
        if w is not None and warned:
            if silent and l == "upper":
                # either reading is possible: decide by what the lower layer needs
                c.probe("ambiguous layer")
                return None
            belief, k = {s: None for s in warned}, k + 1
            c.probe("warned")
            seen[name] = seen.get(name, 0) + 1
            if seen[name] == 2:
                c.probe("both layers")
            if k > 1:
                for x in reason:
                    c.probe("warned again: " + x)
            last[name] = f
        elif silent:
            belief = {s: None for s in silent}
            c.probe("limited without a new warning" if share[0] > 0 else "not limited")
        elif w is not None:
            return violation("warning-wrong", f"{name} {l}: {w} does not describe {share[0]:.1f}% limited cells, mean "
                                              f"{np.nanmean(f):.3f}, strongest {np.nanmin(f):.3f}")
        else:
            if not done:
                break
            return violation("warning-missing", f"{name} {l}: {share[0]:.1f}% of the grid limited, strongest factor "
                                                f"{np.nanmin(f):.3f}, previous {list(belief)[:2]}: no warning")
    if k < len(got):
        return violation("warning-undue", f"warning {k + 1} of the log: {got[k]}")
    if node.ok:
        for name, f in last.items():
            v = isolated(check_field, f"{folder}/debug/{name}", f)
            if v:
                return violation("debug-file", f"{name}: {v}")
    c.mark(k)
    return None


def check_field(path, f):
    try:
        x = lab.read_nc(path)
    except lab.Unreadable as e:
        return str(e)
    x = x.get("correction_factor")
    if x is None or np.squeeze(x).shape != f.shape:
        return "no correction factor field of the grid"
    x = np.squeeze(x).astype("f8")
    bad = np.isfinite(f) & ~(np.abs(x - f) <= 2 * NEAR)
    if bad.any():
        j = tuple(int(q) for q in np.argwhere(bad)[0])
        return f"{j}: {x[j]:.5g} instead of {f[j]:.5g}"
    return None


def execute(plan, c):
    case = plan["case"]
    c.probe(case["dir"])
    ref = c.world()
    base = hist.straight(c, ref, case)
    if "kind" in base:
        return base
    ls = c19.logs(ref.root + "/out")
    if len(ls) != 1:
        return violation("log-missing", f"{len(ls)} log files after one run")
    v = check_command(c, case, ref.root + "/out", open(f"{ref.root}/out/{ls[0]}").read(), case["start"], case["end"], ref.nodes[0])
    if v or not plan["history"]:
        return v
    have = set()

    def after(w, k, cfg, node, a, b, restarted, good):
        new = [f for f in c19.logs(w.root + "/out") if f not in have]
        have.update(new)
        if len(new) != 1:
            if node.stopped and not new:
                return None
            return violation("log-missing", f"{len(new)} new log files after segment {k}")
        return check_command(c, case, w.root + "/out", open(f"{w.root}/out/{new[0]}", errors="replace").read(), a, b, node)
    return hist.play(c, plan, ref, after=after)[2]


shrink = c19.shrink
