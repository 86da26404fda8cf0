"""C12 - missing or invalid input stops the command and is never stored as data."""
import os

import numpy as np

from .. import cases, lab, prelab
from ..ctx import track, violation
from . import hist, pre

BUDGET = {"quick": (160, 110), "thorough": (5000, 800)}
RULE = ("A case is a seeded preprocessing or tracking experiment with one or two seeded defects of its input: a file missing, "
        "truncated, empty or not NetCDF at all, a variable, dimension, level or time missing, or missing values in one cell or "
        "a whole field; the command runs over it, then again over repaired input. Non-trivial: the defect is needed and the "
        "command stopped; distinct by the order of all gated operations.")
REAL = pre.REAL + ["wam2layers tracking"]
STUB = pre.STUB
MUST_REACH = ["preprocess stopped", "track stopped", "repaired", "missing-file", "spoiled", "no-time", "nan", "missing-var",
              "earlier results kept", "era5", "cmip", "arco", "not needed"]


# ------------------------------------------------------------------- defects
def gen_defect(r, case):
    ts = prelab.times(case)
    t = r.choice(ts)
    src = case["source"]
    if src == "era5":
        v = r.choice(prelab.era5_vars(case))
        if case.get("tcw") and r.random() < 0.3:
            v = "tcw"
        kinds = ["missing-file", "spoiled", "no-time", "nan", "nan", "no-dim", "two-vars"]
        if v == "tcw":
            kinds.remove("missing-file")       # documented as optional
        if v in ("q", "u", "v"):
            kinds.append("no-level-dim")
            if isinstance(case["levels"], list):
                kinds.append("no-level")
    elif src == "arco":
        v = r.choice(list(prelab.ARCO))
        kinds = ["no-time", "nan", "nan", "missing-var", "spoiled"]
    else:
        v = r.choice(prelab.cmip_vars())
        kinds = ["missing-file", "spoiled", "no-time", "nan", "nan", "missing-var", "no-dim"]
        if v in prelab.CMIP3:
            t = t - r.choice([90, 270])
    k = r.choice(kinds)
    b = {"kind": k, "var": v, "t": t}
    if k == "spoiled":
        b["how"] = r.choice(["garbage", "truncated", "empty"])
    if k == "nan":
        b["whole"] = r.random() < 0.3
        b["cell"] = r.randrange(1 << 12)
    return b


def gen_pre(r, tier):
    case = prelab.gen_case(r, max_records=6 if tier == "quick" else 16, min_records=2, days=r.choice([1, 2, 2, 3]))
    bad = [gen_defect(r, case)]
    if bad[0]["kind"] == "no-time" and bad[0]["var"] in prelab.CMIP3 and r.random() < 0.7:
        bad.append(dict(bad[0], t=bad[0]["t"] + 180))      # a gap of two records
    if r.random() < 0.1:
        bad.append(gen_defect(r, case))
    p = {"what": "preprocess", "case": case, "bad": bad, "parallel": None, "dir_seed": r.randrange(1 << 20)}
    if r.random() < 0.2:
        p["parallel"] = r.choice([2, 3])
    return p


def gen_track(r, tier):
    case = cases.gen_case(r, min_steps=3, max_steps=10 if tier == "quick" else 20, outs=["30min", "1h", "1h", "2h", "3h"],
                          days=r.choice([1, 2, 2, 3]), region_kinds=("bbox", "static", "dynamic"))
    need = sorted(needed(case))
    var, t = r.choice(need) if r.random() < 0.9 else (r.choice(lab.FLUX + lab.STATE + lab.RATE),
                                                       r.randrange(case["days"] * lab.n_per_day(case)) * case["in_min"])
    k = r.choice(["missing-file", "spoiled", "no-time", "nan", "nan", "missing-var", "no-dim"])
    b = {"kind": k, "var": var, "t": int(t)}
    if k == "spoiled":
        b["how"] = r.choice(["garbage", "truncated", "empty"])
    if k == "nan":
        b["whole"] = r.random() < 0.3
        b["cell"] = r.randrange(1 << 12)
    return {"what": "track", "case": case, "bad": [b], "dir_seed": r.randrange(1 << 20)}


def gen(r, tier, i):
    return gen_pre(r, tier) if r.random() < 0.6 else gen_track(r, tier)


def nontrivial(p, r):
    return bool(r["probes"].get("preprocess stopped") or r["probes"].get("track stopped"))


def execute(plan, c):
    c.probe(plan["bad"][0]["kind"])
    return execute_pre(plan, c) if plan["what"] == "preprocess" else execute_track(plan, c)


# -------------------------------------------------------------- preprocessing
def pre_needed(case, b):
    """Times (minutes) of the records that need the defective data; None: all."""
    ts = prelab.times(case)
    if b["kind"] in ("missing-file", "spoiled", "no-dim", "two-vars", "no-level", "no-level-dim"):
        if case["source"] == "cmip":
            if b["kind"] != "missing-file":
                return ts
            T = prelab.raw_times(case, b["var"])
            gone = next({T[k] for k in g} for g in prelab.cmip_groups(case, b["var"]) if b["t"] in [T[k] for k in g])
            use = (lambda t: (t - 270, t - 90)) if b["var"] in prelab.CMIP3 else (lambda t: (t,))
            return [t for t in ts if gone & set(use(t))]
        if case["source"] == "arco":
            return ts
        if b["kind"] in ("missing-file", "spoiled"):
            f = prelab.era5_file(case, b["var"], b["t"])
            return [t for t in ts if prelab.era5_file(case, b["var"], t) == f]
        return ts
    if b["kind"] == "missing-var":
        return ts
    if case["source"] == "cmip" and b["var"] in prelab.CMIP3:
        return [t for t in ts if b["t"] in (t - 270, t - 90)]
    return [t for t in ts if t == b["t"]]


def harmless(case, b):
    """Defects of data that no record uses."""
    if b["kind"] == "nan" and b["var"] in ("q", "u", "v", "hus", "ua", "va"):
        # the cell may lie on a level that is not selected
        nl = len(case["stored_levels"])
        if case["source"] == "cmip":
            return not b.get("whole")
        if not b.get("whole") and isinstance(case["levels"], list):
            lev = (b["cell"] % (nl * case["ny"] * case["nx"])) // (case["ny"] * case["nx"])
            return case["stored_levels"][lev] not in case["levels"]
    return False


def execute_pre(plan, c):
    case = plan["case"]
    pre.probes(c, case)
    over = {} if not plan["parallel"] else {"parallel_preprocess": True, "parallel_processes": plan["parallel"]}
    w = c.world(dir_seed=plan["dir_seed"], schedule={"mode": "random", "sticky": 0.8})
    prelab.write_raw(case, w.root, bad=plan["bad"])
    n = pre.spawn(c, w, case, "bad", **over)
    w.run()
    hit = [b for b in plan["bad"] if pre_needed(case, b)]
    sure = [b for b in hit if not harmless(case, b)]
    what = ", ".join(f"{b['kind']} of {b['var']} at {lab.iso(case, b['t'])}" for b in plan["bad"])
    if n.ok and sure:
        return violation("defect-accepted", f"preprocess {case['source']} ended with exit status 0 over {what}")
    if not n.ok and not hit:
        return violation("command-failed", f"{what} is not needed, but: {n.describe()}")
    if not n.ok:
        c.probe("preprocess stopped")
        if not n.exit.get("msg"):
            return violation("nothing-said", f"{what}: {n.describe()}")
        if prelab.day_files(w.root + "/pp"):
            c.probe("earlier results kept")
        first = min(t for b in hit for t in pre_needed(case, b))
        for f in prelab.day_files(w.root + "/pp"):
            d = [d for d in prelab.by_day(case) if prelab.file_name(case, d) == f]
            bad_days = {t // 1440 for b in sure for t in pre_needed(case, b)}
            if d and d[0] in bad_days:
                return violation("defect-stored", f"{f} was stored from input with {what}")
    else:
        c.probe("not needed")
    v = pre.check(case, w.root + "/pp", partial=not n.ok)
    if v:
        v["detail"] = f"over input with {what}: " + v["detail"]
        return v
    prelab.write_raw(case, w.root)
    n = pre.spawn(c, w, case, "again", **over)
    w.run()
    if not n.ok:
        return violation("not-repaired", f"after the input was repaired ({what}): {n.describe()}")
    c.probe("repaired")
    return pre.check(case, w.root + "/pp")


# ------------------------------------------------------------------ tracking
def steps(case):
    s, e, d = case["start"], case["end"], case["dt"] / 60
    n = int((e - s) // d)
    for k in range(n):
        yield (s + k * d, s + (k + 1) * d) if case["dir"] == "forward" else (e - (k + 1) * d, e - k * d)


def around(case, t):
    m = case["in_min"]
    k = t // m
    return [k * m] if k * m == t else [k * m, (k + 1) * m]


def needed(case, upto=None):
    """{(variable, stored time)} used by the steps of the run."""
    out = set()
    for a, b in steps(case):
        for t in (a, b):
            out |= {(v, x) for v in lab.STATE for x in around(case, t)}
        out |= {(v, x) for v in lab.FLUX + lab.RATE for x in around(case, (a + b) / 2)}
    return out


def first_hit(case, b):
    """Index of the first step (in run order) that reads the defective data; None: none does."""
    day = b["t"] // 1440
    for k, (p, q) in enumerate(steps(case)):
        S = {x for t in (p, q) for x in around(case, t)}
        F = set(around(case, (p + q) / 2))
        if b["kind"] in ("missing-file", "spoiled", "no-dim"):
            if any(x // 1440 == day for x in S | F):
                return k
        elif b["kind"] == "no-time":
            if b["t"] in S | F:
                return k
        elif b["kind"] == "missing-var":
            if any(x // 1440 == day for x in (S if b["var"] in lab.STATE else F)):
                return k
        elif b["t"] in (S if b["var"] in lab.STATE else F):
            return k
    return None


def write_bad(case, folder, bad):
    import netCDF4
    for b in bad:
        day = b["t"] // 1440
        path = f"{folder}/{lab.day_name(case, day)}_fluxes_storages.nc"
        if b["kind"] == "missing-file":
            if os.path.exists(path):
                os.unlink(path)
        elif b["kind"] == "spoiled":
            prelab._spoil(path, b["how"])
        else:
            spoil_forcing(case, path, b)


def spoil_forcing(case, path, b):
    import netCDF4
    k = int(b["t"] % 1440 // case["in_min"])
    with netCDF4.Dataset(path) as src, netCDF4.Dataset(path + ".new", "w") as dst:
        ren = {"latitude": "y"} if b["kind"] == "no-dim" else {}
        keep = [i for i in range(len(src["time"])) if not (b["kind"] == "no-time" and i == k)]
        for d, x in src.dimensions.items():
            dst.createDimension(ren.get(d, d), None if d == "time" else len(x))
        for v, x in src.variables.items():
            if b["kind"] == "missing-var" and v == b["var"]:
                continue
            y = dst.createVariable(ren.get(v, v), x.dtype, tuple(ren.get(d, d) for d in x.dimensions))
            y.setncatts({a: x.getncattr(a) for a in x.ncattrs()})
            z = x[:].data if np.ma.isMaskedArray(x[:]) else x[:]
            z = np.array(z, copy=True)
            if "time" in x.dimensions:
                if b["kind"] == "nan" and v == b["var"]:
                    prelab._nan(z, k, b)
                z = z[keep]
            y[:] = z
    os.replace(path + ".new", path)


def execute_track(plan, c):
    case = plan["case"]
    ref = c.world()
    base = hist.straight(c, ref, case)
    if "kind" in base:
        return base
    w = c.world(dir_seed=plan["dir_seed"])
    lab.write_forcing(case, w.root + "/pp")
    write_bad(case, w.root + "/pp", plan["bad"])
    cfg = lab.config(case, w.root)
    n = w.spawn(track, cfg, name="bad", cwd=w.root)
    w.run()
    b = plan["bad"][0]
    what = f"{b['kind']} of {b['var']} at {lab.iso(case, b['t'])}"
    k = first_hit(case, b)
    sure = k is not None and not (b["kind"] == "nan" and not b["whole"] and outside(case, b))
    if n.ok and sure:
        return violation("defect-accepted", f"track ended with exit status 0 over {what}")
    good, torn = hist.complete_outputs(case, w.root + "/out")
    if torn:
        return violation("incomplete-output", f"{torn} over {what}")
    line = lab.timeline(case)
    if not n.ok:
        # the grid may be read at the other end of the run as well
        if k is None and b["kind"] == "nan":
            return violation("command-failed", f"{what} is not needed, but: {n.describe()}")
        c.probe("track stopped")
        if not n.exit.get("msg"):
            return violation("nothing-said", f"{what}: {n.describe()}")
        done, allowed = 0, []
        for t, m in line:
            done += m
            if k is None or done <= k:
                allowed.append(t)
        late = [t for t in good if t not in allowed]
        if late:
            return violation("defect-stored", f"{lab.out_name(case, late[0])} was written from input with {what}")
        if good:
            c.probe("earlier results kept")
    else:
        c.probe("not needed")
        miss = [t for t, _ in line if t not in good]
        if miss:
            return violation("missing-output", f"{lab.out_name(case, miss[0])} with exit status 0 over {what}")
    for t, o in good.items():
        d = lab.compare(case, base[t], o, 0, 0) if t in base else "not an output of the run"
        if d:
            return violation("wrong-output", f"{lab.out_name(case, t)} over {what}: {d}")
    lab.write_forcing(case, w.root + "/pp")
    n = w.spawn(track, cfg, name="again", cwd=w.root)
    w.run()
    if not n.ok:
        return violation("not-repaired", f"after the input was repaired ({what}): {n.describe()}")
    c.probe("repaired")
    good, torn = hist.complete_outputs(case, w.root + "/out")
    if torn or sorted(good) != sorted(base):
        return violation("not-repaired", f"outputs {sorted(good)} instead of {sorted(base)}, incomplete {torn}")
    for t, o in good.items():
        d = lab.compare(case, base[t], o, 0, 0)
        if d:
            return violation("not-repaired", f"{lab.out_name(case, t)}: {d}")
    return None


def outside(case, b):
    """Is the missing value outside the tracking domain?"""
    F = lab.Forcing(case)
    m = b["cell"] % (case["ny"] * case["nx"])
    return m // case["nx"] not in F.jj or m % case["nx"] not in F.ii


def shrink(plan):
    if len(plan["bad"]) > 1:
        for b in plan["bad"]:
            yield dict(plan, bad=[b])
    if plan["what"] == "preprocess":
        yield from pre.shrink(plan)
    else:
        for x in cases.shrink_case(plan["case"]):
            yield dict(plan, case=x)
