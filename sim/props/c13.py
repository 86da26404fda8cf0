"""C13 - storage faults are never reported as success and spare earlier results."""
from .. import cases, lab, prelab
from ..ctx import track, violation
from . import c09, hist, pre

BUDGET = {"quick": (180, 110), "thorough": (6000, 800)}
RULE = ("A case is a seeded tracking experiment (possibly a restart, or a second run over complete outputs) or preprocessing "
        "run with one to three seeded storage faults: ENOSPC, EDQUOT, EIO, EROFS, ESTALE or ENOTCONN on a write, truncate, "
        "creation, close, rename, mkdir or any operation, once, for some operations or for good, and short writes; or with "
        "failing allocations of array data. Non-trivial: a fault hit an operation of the command; distinct by the order of all gated operations.")
REAL = pre.REAL + ["wam2layers tracking"]
STUB = pre.STUB
ALLOC = 0.15
MUST_REACH = ["failed", "ok despite fault", "short write", "track", "preprocess", "earlier outputs", "second run", "restart",
              "sticky", "out of memory"]


def gen_fault(r, path):
    if r.random() < 0.25:
        return {"kind": "write", "act": "short", "frac": round(r.random(), 3), "pos": round(r.random(), 4), "sticky": True,
                "times": r.choice([1, 3, 1000])}
    f = {"kind": r.choice(["write", "write", "write", "trunc", "close", "creat", "creat", "rename", "rename", "mkdir", "mut", "any"]), "act": "err",
         "arg": r.choice(["ENOSPC", "ENOSPC", "ENOSPC", "EIO", "EIO", "EDQUOT", "EROFS", "ESTALE", "ENOTCONN"]),
         "pos": round(r.random(), 4)}
    if r.random() < 0.7 and f["kind"] not in ("mkdir", "any"):
        f["path"] = path
    q = r.random()
    if q < 0.4:
        f["sticky"] = True
    elif q < 0.55:
        f["sticky"] = True
        f["times"] = r.randint(2, 6)
    return f


def gen(r, tier, i):
    plan = gen_(r, tier, i)
    if r.random() < ALLOC and not plan.get("parallel"):
        plan["faults"] = []
        plan["alloc"] = {"min": r.choice([0, 0, 1024]), "pos": round(r.random(), 5), "times": r.choice([1, 1, 1, 2, 5, 1000000])}
    return plan


def gen_(r, tier, i):
    n = r.choice([1, 1, 1, 2, 3])
    if r.random() < 0.62:
        case = cases.gen_case(r, min_steps=3, max_steps=10 if tier == "quick" else 20,
                              outs=["30min", "1h", "1h", "2h", "3h", "90min"])
        return {"what": "track", "case": case, "before": r.choice([None, None, "full", "part"]),
                "faults": [gen_fault(r, "track_") for _ in range(n)]}
    case = prelab.gen_case(r, max_records=6 if tier == "quick" else 16, min_records=2, days=r.choice([1, 2, 3]))
    return {"what": "preprocess", "case": case, "before": r.choice([None, None, "full"]),
            "faults": [gen_fault(r, "_fluxes") for _ in range(n)], "parallel": r.choice([None, None, None, 2])}


def nontrivial(p, r):
    return bool(r["probes"].get("failed") or r["probes"].get("ok despite fault"))


def execute(plan, c):
    c.probe(plan["what"])
    return (execute_track if plan["what"] == "track" else execute_pre)(plan, c)


def fired(plan, c, w, n):
    fs = [f for f in w.faults if f["fired"]]
    hard = [f for f in fs if f["act"] == "err"]
    if any(f["act"] == "short" for f in fs):
        c.probe("short write")
    if any(f.get("sticky") for f in hard):
        c.probe("sticky")
    mem = n.exit.get("alloc_fired", 1) if plan.get("alloc") else 0      # absent: ended by a signal
    if mem:
        c.probe("out of memory")
        w.count("failed allocation", mem)
    if fs or mem:
        c.probe("ok despite fault" if n.ok else "failed")
    return hard or mem


def counting(al):
    """Count the allocations of an undisturbed run."""
    return (al["min"], -1, 0) if al else None


def failing(al, ref):
    """The allocations that fail, placed by fraction over those of the undisturbed run."""
    if not al:
        return None
    return (al["min"], int(al["pos"] * ref.nodes[0].exit["allocs"]), al["times"])


def describe(w, n):
    if n.exit and n.exit.get("alloc_fired"):
        return f"{n.exit['alloc_fired']} of {n.exit['allocs']} array allocations failed"
    return "; ".join(f"{f['act']} {f.get('arg', '')} on {f['kind']} {f.get('path', '')} no. {f['at']} ({f['fired']}x)"
                     for f in w.faults if f["fired"]) or "no fault"


def execute_track(plan, c):
    case = plan["case"]
    ref = c.world()
    base = hist.straight(c, ref, case, alloc=counting(plan.get("alloc")))
    if "kind" in base:
        return base
    w = c.world()
    lab.write_forcing(case, w.root + "/pp")
    a, b, rest = case["start"], case["end"], False
    line = lab.timeline(case)
    if plan["before"]:
        # a complete run, or one that ended after half of the outputs
        kw = {}
        if plan["before"] == "part" and len(line) > 1:
            t = line[len(line) // 2 - 1][0]
            kw = {"end": t} if case["dir"] == "forward" else {"start": t}
        cfg = lab.config(case, w.root, name="before.yaml", **kw)
        n = w.spawn(track, cfg, name="before", cwd=w.root)
        w.run()
        if not n.ok:
            return violation("run-failed", f"earlier run: {n.describe()}")
        if kw:
            a, b, rest = (t, b, True) if case["dir"] == "forward" else (a, t, True)
            c.probe("restart")
        else:
            c.probe("second run")
    earlier, _ = hist.complete_outputs(case, w.root + "/out")
    if earlier:
        c.probe("earlier outputs")
    w.faults = [hist.place(f, ref) for f in plan["faults"]]
    cfg = lab.config(case, w.root, name="run.yaml", start=a, end=b, restart=rest)
    n = w.spawn(track, cfg, name="run", cwd=w.root, alloc=failing(plan.get("alloc"), ref))
    w.run()
    hard = fired(plan, c, w, n)
    what = describe(w, n)
    good, torn = hist.complete_outputs(case, w.root + "/out")
    if not n.ok and not hard:
        return violation("run-failed", f"{what}: {n.describe()}")
    for t, o in earlier.items():
        if t not in good:
            return violation("earlier-output-lost", f"{lab.out_name(case, t)} was complete before; {what}; {n.describe()}")
        d = lab.compare(case, o, good[t], 0, 0)
        if d and t not in {x for x, _ in lab.timeline(case, a, b)}:
            return violation("earlier-output-changed", f"{lab.out_name(case, t)}: {d}; {what}")
    todo = [t for t, _ in lab.timeline(case, a, b)] if b - a >= case["dt"] / 60 else []
    if n.ok:
        miss = [t for t in todo if t not in good]
        if miss or torn:
            return violation("fault-hidden", f"exit status 0 but {torn or lab.out_name(case, miss[0])} is "
                                             f"{'incomplete' if torn else 'missing'}; {what}")
    elif torn:
        return violation("incomplete-output", f"{torn}; {what}; {n.describe()}")
    for t, o in good.items():
        if t in base:
            d = lab.compare(case, base[t], o, hist.SINGLE, hist.SINGLE, floor=hist.floors(base)) if rest else \
                lab.compare(case, base[t], o, 0, 0)
            if d:
                return violation("fault-hidden" if n.ok else "wrong-output", f"{lab.out_name(case, t)}: {d}; {what}; "
                                                                             f"{n.describe()}")
    return None


def execute_pre(plan, c):
    case = plan["case"]
    over = {} if not plan["parallel"] else {"parallel_preprocess": True, "parallel_processes": plan["parallel"]}
    ref = c.world(schedule={"mode": "random", "sticky": 0.8})
    prelab.write_raw(case, ref.root)
    n = pre.spawn(c, ref, case, "ref", alloc=counting(plan.get("alloc")), **over)
    ref.run()
    if not n.ok:
        return violation("command-failed", f"undisturbed run: {n.describe()}")
    w = c.world(schedule={"mode": "random", "sticky": 0.8})
    prelab.write_raw(case, w.root)
    if plan["before"]:
        n = pre.spawn(c, w, case, "before", **over)
        w.run()
        if not n.ok:
            return violation("command-failed", f"earlier run: {n.describe()}")
        c.probe("earlier outputs")
        c.probe("second run")
    w.faults = [dict(f, count=0, fired=0, at=int(f["pos"] * (c09.matching(ref, f) if f["kind"] != "any" else len(ref.events))))
                for f in plan["faults"]]
    n = pre.spawn(c, w, case, "run", alloc=failing(plan.get("alloc"), ref), **over)
    w.run()
    hard = fired(plan, c, w, n)
    what = describe(w, n)
    if not n.ok and not hard:
        return violation("command-failed", f"{what}: {n.describe()}")
    # the raw data did not change: complete days stay complete, also those of the earlier run
    v = pre.check(case, w.root + "/pp", partial=not n.ok and not plan["before"])
    if v:
        v["detail"] += f"; {what}; {n.describe()}"
        if n.ok:
            v["kind"] = "fault-hidden"
        return v
    return None


def shrink(plan):
    for i in range(len(plan["faults"])):
        if len(plan["faults"]) > 1:
            yield dict(plan, faults=plan["faults"][:i] + plan["faults"][i + 1:])
    if plan.get("alloc", {}).get("times", 1) > 1:
        yield dict(plan, alloc=dict(plan["alloc"], times=1))
    if plan["before"]:
        yield dict(plan, before=None)
    if plan["what"] == "preprocess":
        yield from pre.shrink(dict(plan, history=None))
    else:
        for x in cases.shrink_case(plan["case"]):
            yield dict(plan, case=x)
    for i, f in enumerate(plan["faults"]):
        for q in (0.0, f["pos"] / 2):
            if f["pos"] > 0.01:
                yield dict(plan, faults=plan["faults"][:i] + [dict(f, pos=round(q, 4))] + plan["faults"][i + 1:])
        if f.get("times"):
            yield dict(plan, faults=plan["faults"][:i] + [{k: v for k, v in f.items() if k != "times"}] + plan["faults"][i + 1:])
