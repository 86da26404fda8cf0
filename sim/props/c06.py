"""C06 - the forcing seen by the model equals the stored data at that time and place."""
import inspect
import json
import os

import numpy as np

from .. import cases, core, lab
from ..ctx import isolated, track, violation
from . import hist

BUDGET = {"quick": (260, 100), "thorough": (8000, 800)}
RULE = ("A case is a seeded history in one process: either reads of the forcing reader at seeded instants, sub-domains, "
        "variable sets and stores, from disk or over OPeNDAP with failing reads in between, where everything read is "
        "overwritten in memory by the caller before the next read; or a sequence of tracking runs between which the forcing "
        "is regenerated. Every value is compared with an independent reader, every run with one in a fresh process. "
        "Non-trivial: some slice was asked for twice, or a run used regenerated data; distinct by the order of all gated "
        "operations.")
REAL = hist.REAL
STUB = hist.STUB + ["OPeNDAP transport: local files behind xarray.open_dataset for URLs, with injected failures"]
MUST_REACH = ["reader", "runs", "read again", "interpolated", "exact", "subdomain", "wrapped subdomain", "remote", "retried",
              "failed read", "two stores", "regenerated", "whole domain"]


def variant(r, base, domain_p=0.6, on_grid=False):
    c = dict(base)
    if c.get("global"):
        c["periodic"] = False
    cases.add_domain(r, c, domain_p)
    if c["domain"] and on_grid and r.random() < 0.4:
        # west and east edges exactly on grid longitudes
        lon = lab.grid(c)[1]
        near = lambda x: float(lon[np.abs(lon - x).argmin()])
        w, s, e, n = c["domain"]
        c["domain"] = [near(w), s, near(e), n]
        c["on_grid"] = True
    return c


def forcings(v, store):
    """Independent readers of a view: an edge on a grid longitude may or may not include that column."""
    if not v.get("on_grid"):
        return [lab.Forcing(v, store)]
    w, s, e, n = v["domain"]
    return [lab.Forcing(dict(v, domain=[w + a, s, e + b, n]), store) for a in (-0.01, 0.01) for b in (0.01, -0.01)]


def gen(r, tier, i):
    base = cases.gen_case(r, min_steps=2, max_steps=5 if tier == "quick" else 12, big_p=0.05, global_p=0.45,
                          region_kinds=("bbox", "static", "dynamic", "bbox", "shape"))
    if r.random() < 0.62:
        views = [variant(r, base, on_grid=True) for _ in range(r.randint(1, 3))]
        last = base["days"] * 1440 - base["in_min"]
        pool = []
        for _ in range(r.randint(2, 5)):
            q = r.random()
            t = r.uniform(0, last)
            if q < 0.4:
                t = int(t // base["in_min"]) * base["in_min"]
            elif q < 0.8:
                t = int(t)
            else:
                t = round(t * 60) / 60
            pool.append(t)
        if r.random() < 0.4:
            # the model's own pattern: a march of steps
            s = r.randrange(0, max(1, last - 60))
            d = r.choice([10, 15, 30, 60, 90, 7.5])
            pool = [s + d / 2 * k for k in range(r.randint(4, 9)) if s + d / 2 * k <= last] or pool
            if r.random() < 0.5:
                pool.reverse()
        n = r.randint(6, 16) if tier == "quick" else r.randint(8, 60)
        march = r.random() < 0.4
        acts = []
        for k in range(n):
            acts.append({"t": pool[k % len(pool)] if march else r.choice(pool), "view": r.randrange(len(views)),
                         "store": r.choice([0, 0, 1]), "subset": r.choice(["fluxes", "states"]),
                         "spoil": r.choice(["scale", "fill", "coords", "none"])})
        faults = []
        remote = r.random() < 0.5
        if remote:
            for _ in range(r.randint(0, 3)):
                faults.append({"at": r.randrange(0, 12), "n": r.choice([1, 1, 2, 5, 8]), "arg": 1})
            if r.random() < 0.3:
                faults.append({"at": r.randrange(0, 12), "n": 1, "arg": r.choice([2, 3, 4, 9])})
        return {"what": "reader", "case": base, "views": views, "acts": acts, "remote": remote, "rfaults": faults}
    # at most four runs of one process
    runs = []
    version = 0
    for k in range(r.choice([2, 2, 3, 4])):
        c = base if r.random() < 0.5 else dict(variant(r, base, 0.5), dir=r.choice(["forward", "backward"]))
        if k:
            version = r.choice([version, 1 - version, 1 - version])
        runs.append({"case": c, "version": version, "out": r.choice(["out", f"out{k}"])})
    return {"what": "runs", "case": base, "runs": runs, "debug": r.random() < 0.3}


def nontrivial(p, r):
    return bool(r["probes"].get("read again") or r["probes"].get("regenerated"))


def execute(plan, c):
    c.probe(plan["what"])
    return (execute_reader if plan["what"] == "reader" else execute_runs)(plan, c)


# ------------------------------------------------------------------ reader
SUBSETS = {"fluxes": ["fx_upper", "fx_lower", "fy_upper", "fy_lower", "evap", "precip"], "states": ["s_upper", "s_lower"]}


def reader_node(case, views, cfgs, acts, report):
    """Runs inside a node; writes what it found to an ungated file."""
    out = {"state": "unavailable"}
    try:
        from wam2layers.config import Config
        from wam2layers.tracking.io import load_data
        ps = list(inspect.signature(load_data).parameters)
        if ps[:3] != ["t", "config", "subset"]:
            raise ImportError("load_data has another signature")
        confs = [[Config.from_yaml(f) for f in row] for row in cfgs]
        out["state"] = "done"
    except (ImportError, AttributeError) as e:
        out["why"] = str(e)
        confs = None
    out["reads"] = []
    if confs:
        forc = [[forcings(v, s) for v in views] for s in (0, 1)]
        for a in acts:
            core.py_gate("read:%s %s" % (a["t"], a["subset"]))
            t = lab.when(case, a["t"])
            try:
                ds = load_data(t, confs[a["store"]][a["view"]], a["subset"])
            except Exception as e:
                out["reads"].append({"error": f"{type(e).__name__}: {e}"[:300], "type": type(e).__name__})
                continue
            out["reads"].append({"bad": judge(forc[a["store"]][a["view"]], a, ds)})
            try:
                spoil(ds, a)
            except ValueError:
                pass                 # read-only data cannot be spoiled
    with open(report, "w") as f:
        json.dump(out, f)
    return 0


def judge(Fs, a, ds):
    F = Fs[0]
    lat, lon = np.asarray(ds["latitude"].values), np.asarray(ds["longitude"].values)
    if lat.shape != F.dlat.shape or np.abs(lat - F.dlat).max() > 1e-4:
        return f"latitudes {lat.tolist()} instead of {F.dlat.tolist()}"
    for f in Fs:
        if f.dlon.shape == lon.shape and np.abs((lon - f.dlon + 180) % 360 - 180).max() <= 1e-4:
            F = f
    if lon.shape != F.dlon.shape or np.abs((lon - F.dlon + 180) % 360 - 180).max() > 1e-4:
        return f"longitudes {lon.tolist()} instead of {F.dlon.tolist()}"
    m = F.case["in_min"]
    for v in SUBSETS[a["subset"]]:
        x = F.at(v, a["t"])
        y = np.asarray(ds[v].values, dtype="f8")
        if y.shape != x.shape:
            return f"{v} has shape {y.shape} instead of {x.shape}"
        k = int(a["t"] // m)
        big = np.abs(F.f[v][k]).max() + np.abs(F.f[v][min(k + 1, len(F.f[v]) - 1)]).max()
        e = np.abs(x - y)
        if not np.isfinite(y).all() or e.max() > 3e-6 * big:
            j = np.unravel_index(np.nan_to_num(e, nan=9e99).argmax(), e.shape)
            return f"{v}{tuple(int(q) for q in j)} is {y[j]:.8g} instead of {x[j]:.8g}"
    return None


def spoil(ds, a):
    """What a model is free to do with what it read."""
    for v in SUBSETS[a["subset"]]:
        if a["spoil"] == "scale":
            ds[v] *= -3.5
        elif a["spoil"] == "fill":
            ds[v].values[...] = 1e30
    if a["spoil"] == "coords":
        for v in SUBSETS[a["subset"]][:1]:
            ds[v] = ds[v] * 0
        ds["latitude"] = ds["latitude"] + 1


def dap(plan, counter):
    """Failing reads by the number of the open."""
    def remote(node, what, a, b):
        if not what.startswith("dap:"):
            return None
        k = counter["opens"]
        if counter["burst"] and counter["run"] < 8:
            counter["burst"][0] -= 1
            n, arg = counter["burst"]
            if n <= 0:
                counter["burst"] = None
            counter["failed"].append(arg)
            counter["run"] += 1
            return "err", arg
        counter["opens"] += 1
        for f in plan["rfaults"]:
            if f["at"] == k and counter["run"] < 8:
                if f["n"] > 1:
                    counter["burst"] = [f["n"] - 1, f["arg"]]
                counter["failed"].append(f["arg"])
                counter["run"] += f["arg"] == 1
                return "err", f["arg"]
        counter["run"] = 0
        return None
    return remote


def execute_reader(plan, c):
    case = plan["case"]
    counter = {"opens": 0, "burst": None, "failed": [], "run": 0}
    w = c.world(remote=dap(plan, counter))
    for s in (0, 1):
        lab.write_forcing(case, f"{w.root}/pp{s}", version=s)
    w.dap_local = lambda url: w.root + "/" + url.split("sim.opendap.test/", 1)[1].lstrip("/")
    cfgs = []
    for s in (0, 1):
        row = []
        for k, v in enumerate(plan["views"]):
            url = f"http://sim.opendap.test/pp{s}" if plan["remote"] else None
            vv = dict(v, _region_value=[-180, -80, 180, 80])
            row.append(lab.config(vv, w.root, name=f"v{s}{k}.yaml", pre=f"pp{s}", out=f"out{k}", url=url))
        cfgs.append(row)
    report = w.side + "/reader.json"
    n = w.spawn(reader_node, case, plan["views"], cfgs, plan["acts"], report, name="reader", cwd=w.root)
    w.run()
    if not n.ok:
        return violation("reader-failed", n.describe())
    with open(report) as f:
        out = json.load(f)
    if out["state"] != "done":
        c.probe("reader not available")
        return None
    seen = set()
    hard = [x for x in counter["failed"] if x != 1]
    for f in counter["failed"]:
        w.count({1: "transient read failure (IndexError)"}.get(f, "read error over OPeNDAP"))
    if 1 in counter["failed"]:
        c.probe("retried")
    if plan["remote"]:
        c.probe("remote")
    for k, (a, got) in enumerate(zip(plan["acts"], out["reads"])):
        key = (a["t"], a["view"], a["store"], a["subset"])
        if key in seen:
            c.probe("read again")
        seen.add(key)
        c.probe("exact" if a["t"] % case["in_min"] == 0 else "interpolated")
        v = plan["views"][a["view"]]
        c.probe("whole domain" if not v.get("domain") else "wrapped subdomain" if v["domain"][0] > v["domain"][2] else "subdomain")
        if a["store"]:
            c.probe("two stores")
        where = f"read {k} ({a['subset']} at {lab.iso(case, int(a['t']))}, {a['t']} min, domain {v.get('domain')}, store {a['store']})"
        if got.get("error"):
            if hard and got["type"] not in ("IndexError",):
                c.probe("failed read")
                hard.pop(0)
                continue
            return violation("read-failed", f"{where}: {got['error']}")
        if got["bad"]:
            return violation("wrong-forcing", f"{where}: {got['bad']}")
    return None


# ------------------------------------------------------------- whole runs
def runs_node(cfgs):
    for k, cfg in enumerate(cfgs):
        core.py_gate(f"regen:{k}")
        try:
            track(cfg)
        except SystemExit as e:
            if e.code:
                raise
    return 0


def put(case, folder, version):
    lab.write_forcing(case, folder + ".new", version=version)
    os.makedirs(folder, exist_ok=True)
    for f in os.listdir(folder + ".new"):
        os.replace(f"{folder}.new/{f}", f"{folder}/{f}")


def execute_runs(plan, c):
    case, runs = plan["case"], plan["runs"]
    fresh = []
    for k, x in enumerate(runs):
        ref = c.world()
        lab.write_forcing(case, ref.root + "/pp", version=x["version"])
        n = ref.spawn(track, lab.config(x["case"], ref.root, name="r.yaml", out=x["out"]), name="fresh", cwd=ref.root)
        ref.run()
        if not n.ok:
            return violation("run-failed", f"run {k} in a fresh process: {n.describe()}")
        b = hist.collect(c, x["case"], f"{ref.root}/{x['out']}")
        if "kind" in b:
            return b
        fresh.append(b)
    got = {}

    def remote(node, what, a, b):
        if what.startswith("regen:"):
            k = int(what[6:])
            if k:
                o = runs[k - 1]
                got[k - 1] = hist.collect(c, o["case"], f"{w.root}/{o['out']}")
            if k == 0 or runs[k]["version"] != runs[k - 1]["version"]:
                isolated(put, case, w.root + "/pp", runs[k]["version"])
                if k:
                    c.probe("regenerated")
        return None
    w = c.world(remote=remote)
    os.makedirs(w.root + "/pp")
    cfgs = []
    for k, x in enumerate(runs):
        os.makedirs(f"{w.root}/in{k}")
        # the shape file needs the store only when the run starts
        xc = dict(x["case"], _region_value=lab.write_region(x["case"], f"{w.root}/in{k}"))
        cfgs.append(lab.config(xc, w.root, name=f"r{k}.yaml", out=x["out"]))
    n = w.spawn(runs_node, cfgs, name="process", cwd=w.root)
    w.run()
    if not n.ok:
        return violation("run-failed", f"after {len(got)} earlier runs in one process: {n.describe()}")
    k = len(runs) - 1
    got[k] = hist.collect(c, runs[k]["case"], f"{w.root}/{runs[k]['out']}")
    for k, x in enumerate(runs):
        g = got[k]
        if "kind" in g:
            return g
        for t in fresh[k]:
            if t not in g:
                return violation("missing-output", f"run {k} of one process: {lab.out_name(x['case'], t)}")
            d = lab.compare(x["case"], fresh[k][t], g[t], 0, 0)
            if d:
                return violation("stale-forcing", f"run {k} of one process over {'regenerated' if k and x['version'] != runs[k-1]['version'] else 'the same'} "
                                                  f"forcing: {lab.out_name(x['case'], t)} differs from a fresh process: {d}")
    return None


def shrink(plan):
    if plan["what"] == "reader":
        a = plan["acts"]
        for i in range(len(a) - 1, -1, -1):
            if len(a) > 1:
                yield dict(plan, acts=a[:i] + a[i + 1:])
        for i in range(len(plan["rfaults"])):
            yield dict(plan, rfaults=plan["rfaults"][:i] + plan["rfaults"][i + 1:])
        if plan["remote"] and not plan["rfaults"]:
            yield dict(plan, remote=False)
        for i, x in enumerate(a):
            if x["spoil"] != "none":
                yield dict(plan, acts=a[:i] + [dict(x, spoil="none")] + a[i + 1:])
        return
    for i in range(len(plan["runs"])):
        if len(plan["runs"]) > 2:
            yield dict(plan, runs=plan["runs"][:i] + plan["runs"][i + 1:])
    for i, x in enumerate(plan["runs"]):
        if x["case"] != plan["case"]:
            yield dict(plan, runs=plan["runs"][:i] + [dict(x, case=plan["case"])] + plan["runs"][i + 1:])
