"""C24 - preprocessing followed by tracking converges to the undisturbed result."""
from types import SimpleNamespace

import numpy as np

from .. import lab, model, prelab
from ..ctx import isolated, track, violation
from . import c09, c16, hist, pre

BUDGET = {"quick": (130, 100), "thorough": (4000, 800)}
RULE = ("A case is seeded raw data (ERA5, ARCO-ERA5 or CMIP) and a tracking experiment over what is preprocessed from it. The "
        "undisturbed chain is compared with the documented scheme applied to an independent derivation from the raw data. "
        "Then a seeded history of commands: preprocessing and tracking runs that are killed, interrupted or meet storage "
        "faults, tracking started too early or together with preprocessing, preprocessing repeated under a running tracking "
        "command, raw data replaced by a newer version; then both commands once more, tracking restarted from its last "
        "complete output. Non-trivial: a fault, early start or overlap really happened; distinct by the order of all gated "
        "operations.")
REAL = pre.REAL + ["wam2layers tracking"]
STUB = pre.STUB
MUST_REACH = ["era5", "cmip", "arco", "forward", "backward", "pre stopped", "track stopped", "restarted", "too early: refused",
              "overlap", "overlap: both ended well", "newer raw data", "against the scheme", "domain"]
EPS = 5e-5


# ---------------------------------------------------------------------- case
def gen_chain(r, tier):
    while True:
        c = prelab.gen_case(r, max_records=6 if tier == "quick" else 14, min_records=3, days=r.choice([1, 2, 2, 3]))
        c["ny"], c["nx"] = r.randint(4, 6), r.randint(4, 6)
        if c["in_min"] > 360:
            c["in_min"] = r.choice([180, 360])
            prelab.add_period(r, c, 6 if tier == "quick" else 14, 3)
        if c["lat0"] - c["ny"] * c["dlat"] < -80:
            c["lat0"] = 0.0
        ts = prelab.times(c)
        if len(ts) < 3:
            continue
        lat, lon = prelab.latlon(c)
        lon = np.sort((lon + 180) % 360 - 180) if (lon > 180).any() or (lon < 0).any() else np.sort(lon)
        if np.diff(lon).max() > c["dlon"] * 1.5 or np.diff(lon).min() < c["dlon"] * 0.5:
            continue          # a region in two pieces
        x = [prelab.Reference(c, v).at(t) for t in ts for v in (0, 1)]
        if min(y[l].min() for y in x for l in ("s_upper", "s_lower")) <= 1e-3:
            continue          # a layer without levels or moisture
        break
    c["dir"] = r.choice(["forward", "forward", "backward"])
    c["dt"] = c["in_min"] * 60 // r.choice([1, 2, 2, 3, 4])
    dt = c["dt"] // 60
    c["out"] = lab.minutes_freq(dt) if r.random() < 0.6 else r.choice(["1h", "3h", "6h", "12h"])
    c["kvf"] = r.choice([0, 3, 3])
    n = (ts[-1] - ts[0]) // dt
    k = min(n, r.randint(3, 10 if tier == "quick" else 24))
    off = r.randrange(n - k + 1)
    c["start"] = ts[0] + off * dt
    c["end"] = c["start"] + k * dt
    a = r.randrange(max(1, k - 1)) if r.random() < 0.5 else 0
    b = r.randint(a + 1, k) if r.random() < 0.5 else k
    c["tag0"], c["tag1"] = (c["start"] + a * dt, c["start"] + b * dt)
    if c["dir"] == "backward" and a:
        c["tag0"], c["tag1"] = c["start"], c["end"]
    la = np.sort(lat)[::-1]
    j0, i0 = r.randrange(1, c["ny"] - 2), r.randrange(1, c["nx"] - 2)
    j1, i1 = r.randrange(j0, c["ny"] - 1), r.randrange(i0, c["nx"] - 1)
    box = lambda f, w, e, n_, s: [round(max(-180, float(lon[w]) - f * c["dlon"]), 3), round(float(la[s]) - f * c["dlat"], 3),
                                  round(min(180, float(lon[e]) + f * c["dlon"]), 3), round(float(la[n_]) + f * c["dlat"], 3)]
    c["region"] = {"kind": "bbox", "bbox": box(0.3, i0, i1, j0, j1)}
    c["domain"] = None
    if r.random() < 0.25 and c["ny"] > 4 and c["nx"] > 4:
        c["domain"] = box(0.3, 0, c["nx"] - 2, 0, c["ny"] - 2)
    return c


def gen(r, tier, i):
    case = gen_chain(r, tier)
    p = {"case": case, "older": r.random() < 0.2, "parallel": r.choice([None, None, None, None, 2]),
         "dir_seed": r.randrange(1 << 20), "schedule": {"mode": "random", "sticky": r.choice([0.3, 0.6, 0.9, 0.97])}, "history": []}
    ready = not p["older"] and r.random() < 0.5
    for k in range(r.choice([1, 2, 2, 3, 4])):
        q = r.random()
        if p["older"] or q < (0.15 if ready else 0.3):
            p["history"].append({"pre": c09.gen_fault(r)})
        elif q < (0.75 if ready else 0.6):
            p["history"].append({"track": r.choice([None, 1, 1]) if ready else r.choice([None, 1])})
        else:
            p["history"].append({"pre": r.choice([None, None, 1]), "track": r.choice([None, 1])})
    if ready:
        p["history"].insert(0, {"pre": None})
    for s in p["history"]:
        if s.get("pre") == 1:
            s["pre"] = c09.gen_fault(r)
        if s.get("track") == 1:
            s["track"] = hist.gen_fault(r) if r.random() < 0.8 else {
                "kind": r.choice(["write", "creat", "close", "rename"]), "path": "track_", "act": "err",
                "arg": r.choice(["ENOSPC", "EIO"]), "pos": round(r.random(), 4)}
    return p


def nontrivial(p, r):
    b = r["probes"]
    return any(b.get(k) for k in ("pre stopped", "track stopped", "too early: refused", "overlap", "newer raw data"))


# ------------------------------------------------------------------ the oracle
class Forcing(lab.Forcing):
    """What the raw data holds, derived independently of the store."""

    def __init__(self, case, version=0):
        ref = prelab.Reference(case, version)
        ts = prelab.times(case)
        self.case, self.first = case, ts[0]
        rec = [ref.at(t) for t in ts]
        self.f = {v: np.array([x[v] for x in rec]).astype("f4") for v in rec[0]}
        self.lat, self.lon = np.asarray(ref.lat, "f8"), np.asarray(ref.lon, "f8")
        self.jj, self.ii = np.arange(len(self.lat)), np.arange(len(self.lon))
        if case["domain"]:
            w, s, e, n = case["domain"]
            self.jj = np.array([j for j in self.jj if s <= self.lat[j] <= n], int)
            self.ii = np.array([i for i in self.ii if w <= self.lon[i] <= e], int)
        self.dlat, self.dlon = self.lat[self.jj], self.lon[self.ii]

    def at(self, var, minutes):
        return super().at(var, minutes - self.first)


class Region:
    def __init__(self, case, F):
        w, s, e, n = case["region"]["bbox"]
        self.m = ((s <= F.dlat) & (F.dlat <= n)).astype("f8")[:, None] * ((w <= F.dlon) & (F.dlon <= e))[None, :]

    def at(self, minutes):
        return self.m


class Chain(model.Model):
    def parts(self, case, version):
        F = Forcing(case, version)
        return F, Region(case, F)


def against_scheme(case, base):
    """None or a discrepancy between the undisturbed chain and the documented scheme on the documented derivation."""
    out = None
    for doc in (False, True):
        exp = Chain(case, documented_closure=doc).run()
        room = {}
        for k in range(5):
            for t, o in Chain(case, jitter=k, eps=EPS, documented_closure=doc).run().items():
                for f, x in o.items():
                    y = room.setdefault(t, {})
                    y[f] = np.maximum(y.get(f, 0.0), 5 * np.abs(x - exp[t][f]).max())
        v = c16.differs(None, case, exp, base, room)
        if v is None:
            return None
        out = out or v
    return out


# ------------------------------------------------------------------- commands
def spawn_track(w, case, name, start=None, end=None, restart=False):
    cfg = lab.config(case, w.root, name=f"{name}.yaml", start=start, end=end, restart=restart)
    return w.spawn(track, cfg, name=name, cwd=w.root)


def execute(plan, c):
    case = plan["case"]
    over = {} if not plan["parallel"] else {"parallel_preprocess": True, "parallel_processes": plan["parallel"]}
    sched = plan["schedule"]
    c.probe(case["source"])
    c.probe(case["dir"])
    if case["domain"]:
        c.probe("domain")
    ref = c.world(schedule={"mode": "random", "sticky": 0.9})
    prelab.write_raw(case, ref.root)
    n = pre.spawn(c, ref, case, "ref_pre", **over)
    ref.run()
    if not n.ok:
        return violation("command-failed", f"undisturbed preprocessing: {n.describe()}")
    cut = len(ref.events)
    n = spawn_track(ref, case, "ref_track")
    ref.run()
    if not n.ok:
        return violation("command-failed", f"undisturbed tracking over the preprocessed data: {n.describe()}")
    ops = {"pre": SimpleNamespace(events=ref.events[:cut]), "track": SimpleNamespace(events=ref.events[cut:])}
    base = hist.collect(c, case, ref.root + "/out")
    if "kind" in base:
        return base
    v = against_scheme(case, base)
    if v:
        v["detail"] = "undisturbed chain: " + v["detail"]
        return v
    c.probe("against the scheme")

    w = c.world(dir_seed=plan["dir_seed"], schedule=dict(sched))
    if plan["older"]:
        c.probe("newer raw data")
        prelab.write_raw(case, w.root, version=1)
        for what in ("pre", "track"):
            n = pre.spawn(c, w, case, "old_pre", **over) if what == "pre" else spawn_track(w, case, "old_track")
            w.run()
            if not n.ok:
                return violation("command-failed", f"chain over the earlier raw data, {what}: {n.describe()}")
    prelab.write_raw(case, w.root)
    line = lab.timeline(case)
    prepared = False
    for k, s in enumerate(plan["history"] + [{"pre": None, "last": True}, {"track": None, "last": True}]):
        w.faults, nodes = [], {}
        todo = None
        for what in ("pre", "track"):
            if what not in s:
                continue
            name = f"{what}{k}"
            f = s[what]
            if f and f["act"] == "int" and plan["parallel"] and what == "pre":
                f = dict(f, act="kill")
            if f:
                # a fault hits the command itself or, in preprocessing, one of its workers
                more = {} if what == "pre" and plan["parallel"] else {"node": name}
                w.faults.append(dict(f, count=0, fired=0, what=what, at=int(f["pos"] * c09.matching(ops[what], f)), **more))
            if what == "pre":
                nodes[what] = pre.spawn(c, w, case, name, **over)
            else:
                have, _ = hist.complete_outputs(case, w.root + "/out") if not plan["older"] else ({}, [])
                fwd = case["dir"] == "forward"
                a, b = case["start"], case["end"]
                if have:
                    cur = max(have) if fwd else min(have)
                    a, b = (cur, b) if fwd else (a, cur)
                if b - a < case["dt"] / 60:
                    continue
                todo = [t for t, _ in lab.timeline(case, a, b)]
                if have:
                    c.probe("restarted")
                nodes[what] = spawn_track(w, case, name, a, b, bool(have))
        if not nodes:
            continue
        if len(nodes) == 2:
            c.probe("overlap")
        w.run()
        fired = {x: any(f["fired"] and f["what"] == x for f in w.faults) for x in nodes}
        hit = [f"{f['act']} on {f['kind']}" for f in w.faults if f["fired"]]
        w.faults = []
        say = f"step {k} {sorted(nodes)} {hit or ''}"
        if "pre" in nodes:
            n = nodes["pre"]
            if not n.ok and not fired["pre"]:
                return violation("command-failed", f"{say}: preprocessing: {n.describe()}")
            if not n.ok:
                c.probe("pre stopped")
            elif "track" not in nodes:
                prepared = True
        if "track" in nodes:
            n = nodes["track"]
            good, torn = hist.complete_outputs(case, w.root + "/out")
            if n.ok:
                if len(nodes) == 2 and nodes["pre"].ok:
                    c.probe("overlap: both ended well")
                miss = [t for t in todo if t not in good]
                if miss:
                    return violation("missing-output", f"{say}: tracking ended with status 0 without {lab.out_name(case, miss[0])}")
            elif fired["track"]:
                c.probe("track stopped")
            elif prepared and "pre" not in nodes:
                return violation("command-failed", f"{say}: the store is complete, but tracking: {n.describe()}")
            else:
                c.probe("too early: refused")
            if torn:
                return violation("partial-file", f"{say}: {torn[0]}")
            if not plan["older"] or s.get("last"):
                v = right(case, base, good, say)
                if v:
                    return v
    good, torn = hist.complete_outputs(case, w.root + "/out")
    if torn:
        return violation("partial-file", f"at the end: {torn[0]}")
    return hist.agree(c, case, base, good)


def right(case, base, good, say):
    floor = hist.floors(base)
    for t, o in good.items():
        if t not in base:
            return violation("extra-output", f"{say}: {lab.out_name(case, t)}")
        d = lab.compare(case, base[t], o, hist.SINGLE, hist.SINGLE, floor=floor)
        if d:
            return violation("differs", f"{say}: {lab.out_name(case, t)} differs from the undisturbed chain: {d}")
    return None


def shrink(plan):
    h = plan["history"]
    for i in range(len(h)):
        yield dict(plan, history=h[:i] + h[i + 1:])
    for i, s in enumerate(h):
        for x in ("pre", "track"):
            if x in s and len(s) == 2:
                yield dict(plan, history=h[:i] + [{y: f for y, f in s.items() if y != x}] + h[i + 1:])
            if s.get(x):
                yield dict(plan, history=h[:i] + [dict(s, **{x: None})] + h[i + 1:])
    if plan["older"]:
        yield dict(plan, older=False)
    if plan["parallel"]:
        yield dict(plan, parallel=None)
    if plan["case"]["domain"]:
        yield dict(plan, case=dict(plan["case"], domain=None))
