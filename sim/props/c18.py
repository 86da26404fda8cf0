"""C18 - a crash never leaves a partial file that is taken for a complete one."""
import json
import os

from .. import cases, lab, prelab
from ..ctx import isolated, track, violation
from . import c09, hist, pre

BUDGET = {"quick": (190, 100), "thorough": (6000, 800)}
RULE = ("A case is a seeded tracking or preprocessing run, fresh or over complete results of an earlier run with other "
        "forcing or raw data, killed at a seeded file operation (before, after or inside it) or interrupted by Ctrl-C, after which every file under a "
        "final name is read, and a restart from every output time (tracking) or a tracking run over the store "
        "(preprocessing) is tried. Non-trivial: the kill hit after the command had begun writing results; distinct by the "
        "order of all gated operations.")
REAL = pre.REAL + ["wam2layers tracking"]
STUB = pre.STUB
MUST_REACH = ["track", "preprocess", "torn", "int", "over earlier results", "killed between creation and completion",
              "restart refused", "restart accepted", "tracking refused", "tracking accepted", "parallel"]


def gen_kill(r, path):
    f = {"kind": "mut", "pos": round(r.random(), 4), "act": "kill"}
    q = r.random()
    if q < 0.85:
        f["path"] = path
        f["kind"] = r.choice(["mut", "write", "write", "creat", "close", "rename", "trunc"])
    act = r.choice(["kill", "kill", "after", "torn", "torn", "int", "int"])
    if act == "torn":
        f["act"] = "torn"
        f["frac"] = round(r.random(), 3)
    elif act == "after":
        f["after"] = True
    elif act == "int":
        f["act"] = "int"
    return f


def gen(r, tier, i):
    if r.random() < 0.5:
        case = cases.gen_case(r, min_steps=3, max_steps=8 if tier == "quick" else 20,
                              outs=["30min", "1h", "1h", "2h", "3h", "90min"])
        return {"what": "track", "case": case, "before": r.random() < 0.4, "fault": gen_kill(r, "track_"), "seed2": r.random()}
    case = prelab.gen_case(r, max_records=6 if tier == "quick" else 16, min_records=2, days=r.choice([1, 2, 2, 3]))
    # the tracking run needs a few cells and two records
    case["ny"], case["nx"] = max(case["ny"], 4), max(case["nx"], 4)
    if case["lat0"] - case["ny"] * case["dlat"] < -80:
        case["lat0"] = 0.0
    p = {"what": "preprocess", "case": case, "before": r.random() < 0.35, "fault": gen_kill(r, "_fluxes"),
         "parallel": r.choice([None, None, None, 2])}
    if p["parallel"] and p["fault"]["act"] in ("kill", "torn") and r.random() < 0.4:
        p["fault"]["solo"] = True
    return p


def nontrivial(p, r):
    return bool(r["probes"].get("killed between creation and completion"))


def execute(plan, c):
    c.probe(plan["what"])
    if plan["before"]:
        c.probe("over earlier results")
    if plan["fault"]["act"] in ("torn", "int"):
        c.probe(plan["fault"]["act"])
    return (execute_track if plan["what"] == "track" else execute_pre)(plan, c)


def began(c, n, path):
    """Had the killed command begun to write a result?"""
    if n.faults and any(path in f[2] for f in n.faults):
        c.probe("killed between creation and completion")


def execute_track(plan, c):
    case = plan["case"]
    ref = c.world()
    base = hist.straight(c, ref, case)
    if "kind" in base:
        return base
    w = c.world()
    old = None
    if plan["before"]:
        lab.write_forcing(case, w.root + "/pp", version=1)
        n = w.spawn(track, lab.config(case, w.root, name="before.yaml"), name="before", cwd=w.root)
        w.run()
        if not n.ok:
            return violation("run-failed", f"earlier run: {n.describe()}")
        old = hist.collect(c, case, w.root + "/out")
        if "kind" in old:
            return old
    lab.write_forcing(case, w.root + "/pp")
    w.faults = [hist.place(plan["fault"], ref)]
    n = w.spawn(track, lab.config(case, w.root, name="run.yaml"), name="run", cwd=w.root)
    w.run()
    w.faults = []
    what = f"killed at {n.faults[-1][1]} {os.path.basename(n.faults[-1][2])} ({n.faults[-1][3]})" if n.faults else "not killed"
    if not n.stopped and not n.ok:
        return violation("run-failed", n.describe())
    began(c, n, "track_")
    v = judge_outputs(case, w.root + "/out", base, old, what)
    if v:
        return v
    # what would a restart take from here?
    good, torn = hist.complete_outputs(case, w.root + "/out")
    fwd = case["dir"] == "forward"
    span = case["dt"] / 60
    line = [t for t, _ in lab.timeline(case)]
    tries = [t for t in line if (case["end"] - t if fwd else t - case["start"]) >= span]
    missing = [t for t in tries if t not in good]
    tries = missing[:1] + [t for t in tries if t in good][-1:]
    for k, t in enumerate(tries):
        kw = {"start": t} if fwd else {"end": t}
        cfg = lab.config(case, w.root, name=f"re{k}.yaml", out="out", restart=True, **kw)
        # keep the folder as the kill left it
        w2root = w.root
        m = w.spawn(track, cfg, name=f"re{k}", cwd=w2root)
        w.run()
        if t in missing:
            if m.ok:
                return violation("partial-file-used", f"{what}; a restart from {lab.out_name(case, t)}, which is not complete, "
                                                      f"ended with status 0")
            c.probe("restart refused")
            continue
        if not m.ok:
            return violation("restart-failed", f"{what}; restart from {lab.out_name(case, t)}: {m.describe()}")
        c.probe("restart accepted")
        # the state restarted from may be that of the earlier run, if the killed one did not get there
        d0 = lab.compare(case, good[t], base[t], 0, 0)
        if d0 is None and t in base:
            outs, _ = hist.complete_outputs(case, w.root + "/out")
            floor = hist.floors(base)
            for u in line:
                if (u > t if fwd else u < t):
                    if u not in outs:
                        return violation("missing-output", f"after the restart {lab.out_name(case, u)} is not complete")
                    d = lab.compare(case, base[u], outs[u], hist.SINGLE, hist.SINGLE, floor=floor)
                    if d:
                        return violation("partial-file-used", f"{what}; after a restart {lab.out_name(case, u)} differs: {d}")
    return None


def judge_outputs(case, folder, base, old, what):
    return isolated(_judge_outputs, case, folder, base, old, what)


def _judge_outputs(case, folder, base, old, what):
    for f in lab.outputs_in(case, folder):
        try:
            raw = lab.read_nc(f"{folder}/{f}")
        except lab.Unreadable as e:
            return violation("partial-file", f"{what}: {f} has its final name, but cannot be read: {e}")
        try:
            o = lab.read_output(case, f"{folder}/{f}")
            t = lab.output_time(case, o)
        except (lab.Unreadable, ValueError, OverflowError, KeyError) as e:
            return violation("partial-file", f"{what}: {f} opens, but is incomplete: {e} (variables {sorted(raw)[:20]})")
        if f != lab.out_name(case, t):
            return violation("partial-file", f"{what}: {f} opens, but holds time {t} min ({lab.out_name(case, t)})")
        if t not in base:
            return violation("extra-output", f"{what}: {f}")
        d = lab.compare(case, base[t], o, 0, 0)
        if d and old is not None and t in old:
            d = lab.compare(case, old[t], o, 0, 0) and d
        if d:
            return violation("partial-file", f"{what}: {f} opens, but {d}")
        for k in ("WAM2Layers_config", "title", "source"):
            if k not in o["_attrs"]:
                return violation("partial-file", f"{what}: {f} has no attribute {k}")
    return None


def track_over(c, w, case, name, out):
    """A tracking run over the preprocessed store in w."""
    lat, lon = prelab.latlon(case)
    lon = (lon + 180) % 360 - 180
    box = [max(-180, float(lon.min()) - 0.01), max(-80, float(lat.min()) - 0.01),
           min(180, float(lon.max()) + 0.01), min(80, float(lat.max()) + 0.01)]
    # at least one step of the input frequency, in forward direction
    ts = prelab.times(case)
    cfg = prelab.config(case, w.root, name=f"{name}.yaml", out="pp", output_folder=f"{w.root}/{out}",
                        tagging_region=box, timestep=case["in_min"] * 30, output_frequency="6h",
                        tracking_start_date=prelab.iso(case, ts[0]), tracking_end_date=prelab.iso(case, ts[-1]),
                        tagging_start_date=prelab.iso(case, ts[0]), tagging_end_date=prelab.iso(case, ts[-1]))
    return w.spawn(track, cfg, name=name, cwd=w.root)


def results(folder):
    return isolated(_results, folder)


def _results(folder):
    out = {}
    if os.path.isdir(folder):
        for f in sorted(os.listdir(folder)):
            if f.startswith("forwardtrack_") and f.endswith(".nc"):
                d = lab.read_nc(f"{folder}/{f}")
                out[f] = {k: v for k, v in d.items() if k[0] != "_"}
    return out


def same_results(a, b):
    if sorted(a) != sorted(b):
        return f"files {sorted(a)} and {sorted(b)}"
    for f in a:
        for v in a[f]:
            x, y = a[f][v], b[f].get(v)
            if y is None or x.shape != y.shape or not (((x == y) | ((x != x) & (y != y))).all()):
                return f"{f} {v}"
    return None


def execute_pre(plan, c):
    case = plan["case"]
    over = {}
    sched = {"mode": "random", "sticky": 0.8}
    if plan["parallel"]:
        over = {"parallel_preprocess": True, "parallel_processes": plan["parallel"]}
        c.probe("parallel")
    ref = c.world(schedule=dict(sched))
    prelab.write_raw(case, ref.root)
    n = pre.spawn(c, ref, case, "ref", **over)
    ref.run()
    if not n.ok:
        return violation("command-failed", f"undisturbed run: {n.describe()}")
    if len(prelab.times(case)) > 1:
        n = track_over(c, ref, case, "trk", "out_ref")
        ref.run()
        tracked = results(ref.root + "/out_ref") if n.ok else None
        c.probe("reference tracked" if n.ok else "reference not trackable")
    else:
        tracked = None
    w = c.world(schedule=dict(sched))
    if plan["before"]:
        prelab.write_raw(case, w.root, version=1)
        n = pre.spawn(c, w, case, "before", **over)
        w.run()
        if not n.ok:
            return violation("command-failed", f"earlier run: {n.describe()}")
    prelab.write_raw(case, w.root)
    f = plan["fault"]
    if f["act"] == "int" and over:
        f = dict(f, act="kill")          # Ctrl-C reaches a pool and its parent at once; not modelled
    w.faults = [dict(f, count=0, fired=0, at=int(f["pos"] * c09.matching(ref, f)))]
    n = pre.spawn(c, w, case, "run", **over)
    w.run()
    w.faults = []
    hits = [x for m in w.nodes for x in m.faults]
    what = f"killed at {hits[-1][1]} {os.path.basename(hits[-1][2])} ({hits[-1][3]})" if hits else "not killed"
    for m in w.nodes:
        began(c, m, "_fluxes")
    if not n.stopped and not n.ok and not any(m.solo for m in w.nodes):
        return violation("command-failed", n.describe())
    bad = isolated(_judge_days, case, w.root + "/pp", plan["before"], what)
    if bad:
        return bad
    whole = set(prelab.file_name(case, d) for d in prelab.by_day(case)) <= set(pre.complete(case, w.root + "/pp"))
    if tracked is None or plan["before"]:
        return None
    m = track_over(c, w, case, "trk", "out_trk")
    w.run()
    if m.ok:
        c.probe("tracking accepted")
        d = same_results(tracked, results(w.root + "/out_trk"))
        if d:
            return violation("partial-file-used", f"{what}; tracking over what is left ended with status 0, but {d} differs from "
                                                  f"tracking over the complete store")
    else:
        c.probe("tracking refused")
        if whole:
            return violation("run-failed", f"{what}; the store is complete, but tracking over it: {m.describe()}")
    return None


def _judge_days(case, folder, before, what):
    v0 = prelab.check_store(case, folder, 0, "whole")
    if v0 and before:
        # every file is either the new one or the earlier one
        want = prelab.by_day(case)
        names = {prelab.file_name(case, d): d for d in want}
        refs = [prelab.Reference(case, 0), prelab.Reference(case, 1)]
        v0 = None
        for f in prelab.day_files(folder):
            try:
                rec = prelab.read_day(case, f"{folder}/{f}")
            except prelab.Unreadable as e:
                return violation("partial-file", f"{what}: {f} has its final name, but cannot be read: {e}")
            vs = [prelab.check_day(case, ref, f, rec, want[names[f]]) for ref in refs]
            if all(vs):
                v0 = vs[0]
    if v0:
        return violation("partial-file", f"{what}: {v0[1]} ({v0[0]})")
    return None


def shrink(plan):
    if plan["before"]:
        yield dict(plan, before=False)
    f = plan["fault"]
    g = {k: v for k, v in f.items() if k not in ("frac", "after")}
    if f["act"] in ("torn", "int"):
        yield dict(plan, fault=dict(g, act="kill"))
    if f.get("after"):
        yield dict(plan, fault=g)
    if plan["what"] == "track":
        for x in cases.shrink_case(plan["case"]):
            yield dict(plan, case=x)
    else:
        if plan["parallel"]:
            yield dict(plan, parallel=None)
        for x in prelab.shrink_case(plan["case"]):
            if x["ny"] >= 4 and x["nx"] >= 4:
                yield dict(plan, case=x)
    for q in (0.0, f["pos"] / 2):
        if f["pos"] > 0.01:
            yield dict(plan, fault=dict(f, pos=round(q, 4)))
