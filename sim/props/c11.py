"""C11 - the preprocessed store holds each requested time once, correctly derived."""
from .. import prelab
from ..ctx import violation
from . import pre

BUDGET = {"quick": (360, 110), "thorough": (4000, 800)}
RULE = ("A case is seeded raw data (ERA5 on model or pressure levels in old, new and CMORised layouts, ARCO-ERA5, or CMIP), a "
        "period and a store layout; the real command runs sequentially or with simulated parallel workers under a seeded "
        "directory order, clock (with jumps), schedule, short writes and occasional storage or read faults. Every run that "
        "ends with exit status 0 is compared record by record with an independent derivation. Non-trivial: at least two "
        "records were stored; distinct by the order of all gated operations.")
REAL, STUB = pre.REAL, pre.STUB
MUST_REACH = ["era5", "cmip", "arco", "model_levels", "pressure_levels", "tcw", "shifted longitudes", "several days", "packed",
              "other calendar", "parallel", "ok"]


def gen(r, tier, i):
    case = prelab.gen_case(r, max_records=8 if tier == "quick" else 24, long_p=0.04)
    p = {"case": case, "dir_seed": r.randrange(1 << 20), "jumps": [], "faults": [], "parallel": None}
    if r.random() < 0.35:
        p["parallel"] = r.choice([None, 1, 2, 3, 4]) or 0      # 0: number of processes not given
        p["schedule"] = r.choice([{"mode": "random", "sticky": 0.5}, {"mode": "random", "sticky": 0.9},
                                  {"mode": "pct", "change": 0.02}, {"mode": "meet", "sticky": 0.5}])
    if r.random() < 0.3:
        p["jumps"] = [[r.randrange(300), r.choice([-86400, -3600, 3600, 86400 * 40])]]
    if r.random() < 0.35:
        p["faults"].append({"kind": "write", "act": "short", "frac": round(r.random(), 3), "at": r.randrange(60), "sticky": True,
                            "times": r.randrange(1, 20)})
    if r.random() < 0.12:
        p["faults"].append({"kind": r.choice(["open_r", "write", "creat", "trunc", "close"]), "act": "err",
                            "arg": r.choice(["EIO", "ENOSPC", "EACCES"]), "at": r.randrange(80)})
    return p


def nontrivial(p, r):
    return bool(r["probes"].get("ok")) and len(prelab.times(p["case"])) > 1


def execute(plan, c):
    case = plan["case"]
    w = c.world(dir_seed=plan["dir_seed"], jumps=plan["jumps"], faults=plan["faults"], schedule=plan.get("schedule"))
    prelab.write_raw(case, w.root)
    over = {}
    if plan["parallel"] is not None:
        over = {"parallel_preprocess": True}
        if plan["parallel"]:
            over["parallel_processes"] = plan["parallel"]
        c.probe("parallel")
    n = pre.spawn(c, w, case, **over)
    w.run()
    pre.probes(c, case)
    hard = [f for f in w.faults if f["fired"] and f["act"] == "err"]
    if not n.ok:
        if hard:
            c.probe("failed by fault")
            return None
        return violation("command-failed", f"preprocess {case['source']}: {n.describe()}")
    c.probe("ok")
    if any(f["fired"] and f["act"] == "short" for f in w.faults):
        c.probe("short writes")
    return pre.check(case, w.root + "/pp")


def shrink(plan):
    if plan["jumps"]:
        yield dict(plan, jumps=[])
    yield from pre.shrink(plan)
