"""C09 - an interrupted preprocessing run is fully repaired by running it again."""
from .. import core, prelab
from ..ctx import violation
from . import pre

BUDGET = {"quick": (130, 110), "thorough": (4000, 800)}
RULE = ("A case is seeded raw data and a history of preprocessing commands over the same store: optionally a complete run over "
        "the same or over older raw data, then up to three runs that are killed at a seeded file operation (before, after or "
        "inside it), interrupted by Ctrl-C, or meet storage faults (full disk, I/O errors, once or lasting), then one undisturbed run; sequential or "
        "with simulated parallel workers. Non-trivial: a kill or fault really hit a run; distinct by the order of all gated "
        "operations.")
REAL, STUB = pre.REAL, pre.STUB
MUST_REACH = ["killed", "fault", "torn", "int", "parallel", "worker killed", "over complete output", "over older output", "several days", "twice",
              "era5", "cmip", "arco", "day completed before the kill"]


def gen_fault(r):
    f = {"kind": "mut", "pos": round(r.random(), 4), "act": "kill"}
    if r.random() < 0.6:
        f["kind"] = r.choice(["write", "write", "creat", "close", "rename", "trunc", "write"])
        f["path"] = "_fluxes"
    k = r.random()
    if k < 0.45:
        f["act"] = r.choice(["kill", "torn", "torn", "int"])
        if f["act"] == "torn":
            f["frac"] = round(r.random(), 3)
        elif f["act"] == "kill" and r.random() < 0.5:
            f["after"] = True
    else:
        f["act"] = "err"
        f["arg"] = r.choice(["ENOSPC", "ENOSPC", "EIO", "EDQUOT", "EROFS"])
        f["sticky"] = r.random() < 0.5
    return f


def gen(r, tier, i):
    case = prelab.gen_case(r, max_records=6 if tier == "quick" else 16, min_records=2,
                           days=r.choice([1, 2, 2, 3]))
    p = {"case": case, "dir_seed": r.randrange(1 << 20), "parallel": None,
         "first": r.choice([None, None, None, "same", "older"]),
         "history": [gen_fault(r) for _ in range(r.choice([1, 1, 2, 3]))]}
    if r.random() < 0.3:
        p["parallel"] = r.choice([1, 2, 3])
        p["schedule"] = {"mode": "random", "sticky": r.choice([0.5, 0.9])}
        for f in p["history"]:
            if f["act"] in ("kill", "torn") and r.random() < 0.5:
                f["solo"] = True             # one worker only, as by the out-of-memory killer
    return p


def nontrivial(p, r):
    return bool(r["probes"].get("killed") or r["probes"].get("fault"))


def matching(w, f):
    k, n = f["kind"], 0
    for nid, kind, path, _, _, _ in w.events:
        if kind in ("py", "sleep", "killed", "pool_spawn"):
            continue
        if (kind in core.MUTATING if k == "mut" else kind in k.split("|")) and (not f.get("path") or f["path"] in path):
            n += 1
    return n


def execute(plan, c):
    case = plan["case"]
    over = {} if plan["parallel"] is None else {"parallel_preprocess": True, "parallel_processes": plan["parallel"]}
    sched = plan.get("schedule")
    pre.probes(c, case)
    if over:
        c.probe("parallel")
    ref = c.world(dir_seed=3, schedule=dict(sched) if sched else None)
    prelab.write_raw(case, ref.root)
    n = pre.spawn(c, ref, case, "ref", **over)
    ref.run()
    if not n.ok:
        return violation("command-failed", f"undisturbed run: {n.describe()}")
    v = pre.check(case, ref.root + "/pp")
    if v:
        return v
    good = pre.store(case, ref.root + "/pp")

    w = c.world(dir_seed=plan["dir_seed"], schedule=dict(sched) if sched else None)
    old = plan["first"] == "older"
    if plan["first"]:
        prelab.write_raw(case, w.root, version=1 if old else 0)
        n = pre.spawn(c, w, case, "first", **over)
        w.run()
        if not n.ok:
            return violation("command-failed", f"first run: {n.describe()}")
        c.probe("over older output" if old else "over complete output")
    prelab.write_raw(case, w.root)
    done = []
    for k, f in enumerate(plan["history"]):
        if not old:
            done = pre.complete(case, w.root + "/pp")
        if f["act"] == "int" and over:
            f = dict(f, act="kill")          # Ctrl-C reaches a pool and its parent at once; not modelled
        g = dict(f, count=0, fired=0, at=f.get("at", int(f["pos"] * matching(ref, f))))
        w.faults = [g]
        n = pre.spawn(c, w, case, f"run{k}", **over)
        w.run()
        w.faults = []
        if any(m.solo for m in w.nodes):
            c.probe("worker killed")
        if n.stopped:
            c.probe("killed")
            if f["act"] in ("torn", "int"):
                c.probe(f["act"])
        elif g["fired"]:
            c.probe("fault")
        if k and g["fired"]:
            c.probe("twice")
        if not n.ok and not g["fired"]:
            return violation("command-failed", f"run {k} over what the interrupted runs left: {n.describe()}")
        if not old:
            if prelab.day_files(w.root + "/pp") and not n.ok:
                c.probe("day completed before the kill")
            v = pre.check(case, w.root + "/pp", partial=True)
            if v:
                v["detail"] = f"after interrupted run {k} ({f['act']}): " + v["detail"]
                return v
            lost = sorted(set(done) - set(pre.complete(case, w.root + "/pp")))
            if lost:
                return violation("complete-day-lost", f"{lost[0]} was complete before interrupted run {k} ({f['act']})")
    n = pre.spawn(c, w, case, "again", **over)
    w.run()
    if not n.ok:
        return violation("not-repaired", f"running the command again: {n.describe()}")
    v = pre.check(case, w.root + "/pp")
    if v:
        v["detail"] = "after running the command again: " + v["detail"]
        return v
    d = prelab.same_store(good, pre.store(case, w.root + "/pp"))
    if d:
        return violation("not-repaired", f"after running the command again: {d}")
    return None


def shrink(plan):
    if plan["first"]:
        yield dict(plan, first=None)
    for x in pre.shrink(plan):
        if x["history"]:
            yield x
    for i, f in enumerate(plan["history"]):
        if f["act"] in ("torn", "int"):
            yield dict(plan, history=plan["history"][:i] + [dict(f, act="kill")] + plan["history"][i + 1:])
