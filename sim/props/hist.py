"""Histories of kills and restarts of one tracking run (shared by several properties)."""
import os

import numpy as np

from .. import cases, core, lab
from ..ctx import isolated, track, violation

REAL = ["wam2layers command line, configuration, tracking, I/O and logging (all of /repo/src as it is)",
        "xarray, NumPy, pandas, cftime, netCDF4/HDF5, pydantic, click", "the file system below the scratch folder"]
STUB = ["process scheduling, clocks, sleeping, randomness, directory order (simulator)",
        "process memory size reported by psutil"]


def gen_fault(r, path="track_", kinds=("write", "write", "creat", "close", "mut", "rename", "trunc")):
    """A kill or Ctrl-C, placed by fraction over the matching operations of an undisturbed run."""
    f = {"kind": "mut", "pos": round(r.random(), 4), "act": "kill"}
    if r.random() < 0.5:
        f["kind"] = r.choice(kinds)
        f["path"] = path
    act = r.choice(["kill", "kill", "kill_after", "torn", "torn", "int"])
    if act == "torn":
        f["act"] = "torn"
        f["frac"] = round(r.random(), 3)
    elif act == "kill_after":
        f["after"] = True
    elif act == "int":
        f["act"] = "int"
    return f


def gen_history(r, case, extend_p=0.3, max_segments=4, kills=(1, 1, 2, 3)):
    """List of segments.  Each has an optional kill and an optional earlier end of the run."""
    n = len(lab.timeline(case))
    segs = []
    for _ in range(r.choice(kills)):
        segs.append({"fault": gen_fault(r)})
    if segs and n > 1:
        f = segs[0]["fault"]
        f["pos"] = round(0.25 + 0.75 * f["pos"], 4)      # often after the first output
    if r.random() < extend_p and n > 1:
        segs.insert(r.randrange(len(segs) + 1), {"end_frac": round(r.uniform(0.2, 0.9), 3)})
    return segs[:max_segments]


def matching(world, f, node=0):
    """How many operations of an undisturbed run the fault could hit."""
    k = f.get("kind", "mut")
    n = 0
    for nid, kind, path, _, _, _ in world.events:
        if nid != node or kind in ("py", "sleep", "killed", "pool_spawn"):
            continue
        if k == "mut":
            if kind not in core.MUTATING:
                continue
        elif k != "any" and kind not in k.split("|"):
            continue
        if f.get("path") and f["path"] not in path:
            continue
        if f.get("notpath") and f["notpath"] in path:
            continue
        n += 1
    return n


def place(f, ref, share=1.0, **more):
    f = dict(f, count=0, fired=0, **more)
    if "at" not in f:
        f["at"] = int(f["pos"] * matching(ref, f) * share)
    return f


def straight(c, w, case, folder="out", start=None, end=None, alloc=None, **over):
    """One uninterrupted run; returns {time: fields} or a violation."""
    lab.write_forcing(case, w.root + "/pp")
    cfg = lab.config(case, w.root, name="ref.yaml", out=folder, start=start, end=end, **over)
    n = w.spawn(track, cfg, name="ref", cwd=w.root, alloc=alloc)
    w.run()
    if not n.ok:
        return violation("run-failed", f"uninterrupted run: {n.describe()}")
    return collect(c, case, w.root + "/" + folder)


def collect(c, case, folder):
    return isolated(_collect, case, folder)


def _collect(case, folder):
    out = {}
    for f in lab.outputs_in(case, folder):
        try:
            o = lab.read_output(case, f"{folder}/{f}")
            t = lab.output_time(case, o)
        except lab.Unreadable as e:
            return violation("unreadable-output", str(e))
        if f != lab.out_name(case, t):
            return violation("wrong-name", f"{f} holds time {t} min ({lab.out_name(case, t)})")
        out[t] = o
    return out


def complete_outputs(case, folder):
    return isolated(_complete_outputs, case, folder)


def _complete_outputs(case, folder):
    """Outputs a user would consider complete: they open and hold every variable and their time."""
    good, torn = {}, []
    for f in lab.outputs_in(case, folder):
        try:
            o = lab.read_output(case, f"{folder}/{f}")
            t = lab.output_time(case, o)
            if f != lab.out_name(case, t):
                raise lab.Unreadable("name")
            good[t] = o
        except (lab.Unreadable, ValueError, OverflowError):
            torn.append(f)
    return good, torn


def segment_dates(case, seg, cur, final):
    """start/end of the next segment; `cur` is the restart time or None."""
    fwd = case["dir"] == "forward"
    s, e = case["start"], case["end"]
    goal = e if fwd else s
    if seg and "end_frac" in seg:
        dtm = case["dt"] / 60
        n = int((e - s) // dtm)
        k = max(1, int(n * seg["end_frac"]))
        goal = s + k * dtm if fwd else e - k * dtm
    if fwd:
        return (s if cur is None else cur), goal
    return goal, (e if cur is None else cur)


def play(c, plan, ref, folder="out", world=None, after=None, **over):
    """Execute the history; returns (world, {time: fields}, violation).

    after(world, k, cfg, node, start, end, restarted, complete outputs) may report a violation after each segment."""
    case = plan["case"]
    segs = list(plan["history"]) + [{}]
    w = world or c.world()
    root = w.root
    lab.write_forcing(case, root + "/pp")
    fwd = case["dir"] == "forward"
    cur = None
    restarts = 0
    seen = {}
    for k, seg in enumerate(segs):
        a, b = segment_dates(case, seg, cur, k == len(segs) - 1)
        if cur is not None and (b - a) < case["dt"] / 60:
            continue           # nothing left to do for this segment
        if cur is None and b - a < case["dt"] / 60:
            continue
        cfg = lab.config(case, root, name=f"seg{k}.yaml", out=folder, start=a, end=b, restart=cur is not None, **over)
        f = seg.get("fault")
        share = len(lab.timeline(case, a, b)) / max(1, len(lab.timeline(case)))
        w.faults = [] if f is None else [place(f, ref, share, node=f"seg{k}")]
        n = w.spawn(track, cfg, name=f"seg{k}", cwd=root)
        w.run()
        if cur is not None:
            restarts += 1
            c.probe("restarted")
            if restarts == 2:
                c.probe("chain2")
        if n.stopped:
            c.probe("killed")
            if n.interrupted:
                c.probe("interrupted")
            if n.faults and n.faults[-1][3] == "torn":
                c.probe("torn")
        elif not n.ok:
            return w, None, violation("restart-failed" if cur is not None else "run-failed",
                                      f"segment {k} ({'restart from ' + lab.iso(case, cur) if cur is not None else 'first run'}"
                                      f"): {n.describe()}")
        elif "end_frac" in seg:
            c.probe("extended")
        good, torn = complete_outputs(case, f"{root}/{folder}")
        # what was complete when this segment restarted stays as it was
        if cur is not None:
            for t, o in seen.items():
                if t not in good:
                    return w, None, violation("output-lost", f"{lab.out_name(case, t)} was complete before segment {k} "
                                                             f"and is not after it")
                d = lab.compare(case, o, good[t], 0, 0)
                if d:
                    return w, None, violation("output-changed", f"{lab.out_name(case, t)} {d}")
        if after:
            v = after(w, k, cfg, n, a, b, cur is not None, good)
            if v:
                return w, None, v
            w._advance(3_000_000_000)       # the next command starts a few seconds later
        seen = good
        if torn:
            c.probe("incomplete-left")
        if good:
            cur = max(good) if fwd else min(good)
    good, torn = complete_outputs(case, f"{root}/{folder}")
    if torn:
        return w, None, violation("unreadable-output", f"after the last restart: {torn}")
    return w, good, None


SINGLE = 1e-5


def agree(c, case, base, outs):
    """Outputs of a killed/restarted history against those of the uninterrupted run."""
    fwd = case["dir"] == "forward"
    bt = sorted(base, reverse=not fwd)
    ot = sorted(outs, reverse=not fwd)
    extra = [t for t in ot if t not in base]
    missing = [t for t in bt if t not in outs]
    if missing:
        return violation("missing-output", f"{lab.out_name(case, missing[0])} is never written")
    floor = floors(base)
    # outputs of a shorter run that was extended add up
    acc = None
    for t in ot:
        o = outs[t]
        if acc is not None:
            o = add(case, acc, o)
        if t in base:
            d = lab.compare(case, base[t], o, SINGLE, SINGLE, floor=floor)
            if d:
                return violation("differs", f"{lab.out_name(case, t)} differs from the uninterrupted run: {d}")
            c.mark(t, sorted((k, round(float(np.abs(v).sum()), 3)) for k, v in base[t].items() if isinstance(v, np.ndarray)
                             and k[0] != "_"))
            acc = None
        else:
            acc = o
    return None


ACC = ["p_track_upper", "p_track_lower", "tagged_evap", "e_track", "tagged_precip", "losses", "gains"]


def add(case, a, b):
    o = dict(b)
    for v in ACC:
        if v in a:
            o[v] = a[v] + b[v]
    return o


def floors(base):
    """Values below this are rounding noise of the tracked amounts."""
    m = 0.0
    for o in base.values():
        for v in ("s_track_upper_restart", "s_track_lower_restart", "tagged_evap", "tagged_precip"):
            if v in o:
                m = max(m, float(np.abs(o[v]).max()))
    return max(m * 0.2, 1e-12)


def shrink_faults(h):
    for i in range(len(h)):
        if len(h) > 1:
            yield h[:i] + h[i + 1:]
    for i, s in enumerate(h):
        f = s.get("fault")
        if not f:
            continue
        g = {k: v for k, v in f.items() if k not in ("frac", "after")}
        if f.get("act") in ("torn", "int"):
            yield h[:i] + [dict(s, fault=dict(g, act="kill"))] + h[i + 1:]
        if f.get("after"):
            yield h[:i] + [dict(s, fault=g)] + h[i + 1:]
        if f.get("pos", 0) > 0.01:
            for q in (0.0, f["pos"] / 2, f["pos"] * 0.9):
                yield h[:i] + [dict(s, fault=dict(f, pos=round(q, 4)))] + h[i + 1:]


def shrink(plan):
    for h in shrink_faults(plan["history"]):
        yield dict(plan, history=h)
    for c in cases.shrink_case(plan["case"]):
        yield dict(plan, case=c)
