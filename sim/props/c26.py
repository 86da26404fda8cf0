"""C26 - open files and memory do not grow with the length of a run."""
import os

from .. import cases, lab, prelab
from ..ctx import track, violation
from . import c07, hist, pre

BUDGET = {"quick": (90, 75), "thorough": (3000, 800)}
RULE = ("A case is a long seeded tracking run (local or OPeNDAP forcing, with failing and retried reads, forcing regimes with and "
        "without stability corrections, regions of every kind, continued or not) or a long preprocessing run (every source, "
        "level type and file layout) on fields that are large compared with the rounding of the memory counters. Whenever the "
        "command is about to write a result the simulator counts the files below the scratch folder it holds open and its "
        "resident memory; neither may grow between the second and the last quarter of the run (memory is judged for tracking only: libraries' own caches grow while preprocessing). Non-trivial: at least twelve "
        "such instants; distinct by the order of all gated operations.")
REAL = hist.REAL + ["wam2layers preprocessing"]
STUB = hist.STUB + ["OPeNDAP transport: local files behind xarray.open_dataset for URLs, with injected failures",
                    "the ARCO store (a local file behind xarray.open_zarr)"]
MUST_REACH = ["track", "backward", "forward", "remote", "retried", "restart", "dynamic region", "era5", "cmip", "arco", "model_levels", "one file per step"]
PAGE = os.sysconf("SC_PAGE_SIZE")


def gen(r, tier, i):
    if r.random() < 0.6:
        return gen_track(r, tier)
    while True:
        c = prelab.gen_case(r, days=2, max_records=4)
        if c["source"] == "era5" and c["files"] in ("year", "month") and r.random() < 0.7:
            c["files"] = r.choice(["day", "step"])
        if len(c["stored_levels"]) >= 4:
            break
    c["in_min"] = 360 if c["source"] == "cmip" else r.choice([360, 720])
    n = r.randint(22, 30) if tier == "quick" else r.randint(30, 90)
    c["days"] = n * c["in_min"] // 1440 + 2
    c["ny"], c["nx"], c["dlat"], c["dlon"] = 40, 60, 0.5, 0.5
    c["lat0"] = r.choice([60.0, 12.0, -20.0])
    c["lon0"] = r.choice([0.0, 10.0, 100.0])
    c["t0"] = [2021, r.choice([2, 7]), 1]
    first = c["in_min"] if c["source"] == "cmip" else 0
    c["pstart"], c["pend"] = first, first + (n - 1) * c["in_min"]
    return {"what": "pre", "case": c}


def gen_track(r, tier):
    c = cases.gen_case(r, min_steps=3, max_steps=6, domain_p=0, global_p=0, long_p=0, big_p=0,
                       regimes=["mild", "medium", "strong", "mixed"])
    c["in_min"] = r.choice([60, 180])
    c["dt"] = r.choice([1800, 3600])
    n = r.randint(56, 72) if tier == "quick" else r.randint(72, 240)
    dt = c["dt"] // 60
    c["start"], c["end"] = 0, n * dt
    c["days"] = (c["end"] + c["in_min"]) // 1440 + 1
    c["out"] = lab.minutes_freq(dt * r.choice([1, 2, 3]))
    c["ny"], c["nx"], c["dlat"], c["dlon"] = 80, 120, 0.5, 0.5
    c["lat0"], c["lon0"] = r.choice([60.0, 20.0, -20.0]), r.choice([-170.0, -20.0, 0.0, 100.0])
    cases.add_tagging(r, c, ("bbox", "static", "dynamic"))
    c["tag0"], c["tag1"] = 0, c["end"]
    p = {"what": "track", "case": c, "remote": r.random() < 0.4, "bursts": [], "restart": r.random() < 0.15}
    if p["remote"]:
        p["bursts"] = [{"pos": round(r.random(), 4), "seq": [1] * r.choice([1, 1, 2, 3])} for _ in range(r.choice([0, 3, 12, 30]))]
    return p


def nontrivial(p, r):
    return bool(r["probes"].get("sampled"))


class Watch:
    def __init__(self, w, path):
        self.root, self.path, self.samples, self.w = w.root + "/", path, [], w
        w.observe = self

    def __call__(self, node, kind, path):
        if kind not in ("creat", "open_w") or self.path not in path:
            return
        d, n = f"/proc/{node.pid}/fd", []
        for x in os.listdir(d):
            try:
                f = os.readlink(f"{d}/{x}")
            except OSError:
                continue
            if f.startswith(self.root) and not f.endswith(".log"):
                n.append(f[len(self.root):])
        with open(f"/proc/{node.pid}/statm") as f:
            m = int(f.read().split()[1]) * PAGE
        self.samples.append((n, m))

    def judge(self, memory):
        """Compare the second quarter of the run with the last one."""
        s = self.samples
        if len(s) < 12:
            return None
        k = len(s)
        a, b = s[k // 4:k // 2], s[-(k // 4):]
        fa, fb = max(a, key=lambda x: len(x[0]))[0], max(b, key=lambda x: len(x[0]))[0]
        if len(fb) > len(fa) + 1:
            return violation("open-files-grow", f"{len(fa)} files open in the second quarter of the run, {len(fb)} in the last, for "
                                                f"example {sorted(set(fb) - set(fa))[:3]}")
        grown = sorted(x[1] for x in b)[len(b) // 2] - sorted(x[1] for x in a)[len(a) // 2]
        if memory and grown > LIMIT:
            return violation("memory-grows", f"resident memory grew by {grown / 1e6:.1f} MB between the second and the last quarter of the run")
        return None


LIMIT = 1_500_000      # bytes; runs of the code as it is stay below 0.1 MB


def execute(plan, c):
    case = plan["case"]
    if plan["what"] == "pre":
        return preprocessing(plan, c)
    c.probe("track")
    c.probe(case["dir"])
    c.probe(case["region"]["kind"] + " region")
    w = c.world()
    w.max_events = 10 ** 6
    lab.write_forcing(case, w.root + "/pp")
    kw = {}
    steps = (case["end"] - case["start"]) * 60 // case["dt"]
    if plan["restart"]:
        fwd = case["dir"] == "forward"
        line = [t for t, _ in lab.timeline(case)]
        t = line[1]
        n = w.spawn(track, lab.config(case, w.root, name="first.yaml", **({"end": t} if fwd else {"start": t})), name="first", cwd=w.root)
        w.run()
        if not n.ok:
            return violation("run-failed", f"first part: {n.describe()}")
        kw = dict({"start": t} if fwd else {"end": t}, restart=True)
        c.probe("restart")
    if plan["remote"]:
        w.dap_local = c07.local(w)
        w.remote = link = c07.Link(plan, 3 * steps)
        kw["url"] = c07.URL
        c.probe("remote")
    watch = Watch(w, "track_")
    n = w.spawn(track, lab.config(case, w.root, name="long.yaml", **kw), name="long", cwd=w.root)
    w.run()
    if not n.ok:
        return violation("run-failed", n.describe())
    if plan["remote"] and link.fails:
        c.probe("retried")
    if len(watch.samples) >= 12:
        c.probe("sampled")
    return watch.judge(True)


def preprocessing(plan, c):
    case = plan["case"]
    for x in (case["source"], case["level_type"]):
        c.probe(x)
    if case.get("files") == "step":
        c.probe("one file per step")
    w = c.world()
    w.max_events = 10 ** 6
    prelab.write_raw(case, w.root)
    watch = Watch(w, "_fluxes")
    n = pre.spawn(c, w, case, "long")
    w.run()
    if not n.ok:
        return violation("command-failed", n.describe())
    if len(watch.samples) >= 12:
        c.probe("sampled")
    return watch.judge(False)


def shrink(plan):
    if plan.get("bursts"):
        yield dict(plan, bursts=[])
    if plan.get("remote"):
        yield dict(plan, remote=False, bursts=[])
    if plan.get("restart"):
        yield dict(plan, restart=False)
    if plan["what"] == "track" and plan["case"]["region"]["kind"] != "bbox":
        c = dict(plan["case"])
        lat, lon = lab.grid(c)
        c["region"] = {"kind": "bbox", "bbox": [round(float(lon[2]) - .1, 3), round(float(lat[-3]) - .1, 3), round(float(lon[-3]) + .1, 3), round(float(lat[2]) + .1, 3)]}
        yield dict(plan, case=c)
