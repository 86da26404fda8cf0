"""C10 - parallel preprocessing equals sequential preprocessing under every schedule."""
from .. import prelab
from ..ctx import violation
from . import pre

BUDGET = {"quick": (130, 110), "thorough": (4000, 800)}
RULE = ("A case is seeded raw data of several days, a number of workers and a seeded schedule of the worker processes; the store "
        "must equal that of a sequential run exactly. In part of the cases one worker meets a storage or read error or "
        "defective raw data, or is killed (out of memory), and the command must fail - not report success, not wait for ever. Non-trivial: at least two workers took steps in turn; distinct by the "
        "order of all gated operations.")
REAL, STUB = pre.REAL, pre.STUB
MUST_REACH = ["interleaved", "worker fault", "defective input", "worker killed", "1 worker", "more workers than days", "default workers", "equal"]


def gen(r, tier, i):
    case = prelab.gen_case(r, max_records=9 if tier == "quick" else 24, min_records=4, days=r.choice([2, 3, 3, 4]), long_p=0.04)
    p = {"case": case, "dir_seed": r.randrange(1 << 20), "workers": r.choice([1, 2, 2, 3, 3, 4, 7, None]),
         "schedule": r.choice([{"mode": "random", "sticky": 0.5}, {"mode": "random", "sticky": 0.0},
                               {"mode": "random", "sticky": 0.95}, {"mode": "pct", "change": 0.02},
                               {"mode": "pct", "change": 0.2}, {"mode": "meet", "sticky": 0.5}]),
         "faults": [], "bad": []}
    q = r.random()
    if q < 0.2:
        p["faults"].append({"kind": r.choice(["write", "creat", "open_r", "close", "trunc", "rename"]),
                            "path": r.choice(["_fluxes", "_fluxes", "raw/"]), "act": "err", "arg": r.choice(["EIO", "ENOSPC"]),
                            "at": r.randrange(20), "sticky": r.random() < 0.3})
    elif q < 0.4:
        p["bad"] = [gen_bad(r, case)]
    elif q < 0.55:
        p["faults"].append({"kind": r.choice(["mut", "write", "creat", "rename", "open_r"]), "path": r.choice(["_fluxes", "_fluxes", "raw/", "pp/"]),
                            "act": r.choice(["kill", "kill", "torn"]), "frac": round(r.random(), 2), "solo": True,
                            "at": r.choice([r.randrange(20), r.randrange(200)])})
    return p


def gen_bad(r, case):
    from . import c12
    return c12.gen_defect(r, case)


def nontrivial(p, r):
    return bool(r["probes"].get("interleaved"))


def execute(plan, c):
    case = plan["case"]
    ref = c.world(dir_seed=3)
    prelab.write_raw(case, ref.root, bad=plan["bad"])
    a = pre.spawn(c, ref, case, "seq")
    ref.run()
    if not a.ok and not plan["bad"]:
        return violation("command-failed", f"sequential run: {a.describe()}")

    w = c.world(dir_seed=plan["dir_seed"], schedule=dict(plan["schedule"]), faults=plan["faults"])
    prelab.write_raw(case, w.root, bad=plan["bad"])
    over = {"parallel_preprocess": True}
    if plan["workers"]:
        over["parallel_processes"] = plan["workers"]
        if plan["workers"] == 1:
            c.probe("1 worker")
        if plan["workers"] > len(prelab.by_day(case)):
            c.probe("more workers than days")
    else:
        c.probe("default workers")
    n = pre.spawn(c, w, case, "par", **over)
    w.run()
    turns = [e[0] for e in w.events if e[0] != 0]
    if sum(x != y for x, y in zip(turns, turns[1:])) > 3:
        c.probe("interleaved")
    if plan["bad"]:
        c.probe("defective input")
        if a.ok != n.ok:
            return violation("worker-failure-hidden" if n.ok else "command-failed",
                             f"over defective input {plan['bad'][0]['kind']} {plan['bad'][0]['var']}: sequential {a.describe()}, "
                             f"parallel {n.describe()}")
        if not n.ok and n.exit.get("type") != a.exit.get("type"):
            return violation("other-error", f"sequential {a.describe()}, parallel {n.describe()}")
        return None
    fired = any(f["fired"] for f in w.faults)
    if fired:
        c.probe("worker fault")
        if any(x.solo for x in w.nodes):
            c.probe("worker killed")
    if not n.ok:
        if fired:
            return None
        return violation("command-failed", f"parallel run: {n.describe()}")
    d = prelab.same_store(pre.store(case, ref.root + "/pp"), pre.store(case, w.root + "/pp"))
    if d:
        return violation("worker-failure-hidden" if fired else "differs", f"exit status 0, but parallel against sequential: {d}")
    c.probe("equal")
    return None


def shrink(plan):
    if plan["bad"]:
        yield dict(plan, bad=[])
    if plan["workers"] != 2:
        yield dict(plan, workers=2)
    yield from pre.shrink(plan)
