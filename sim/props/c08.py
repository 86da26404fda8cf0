"""C08 - commands running at the same time do not disturb each other."""
import os

from .. import cases, lab, prelab
from ..ctx import track, violation
from . import hist, pre

BUDGET = {"quick": (170, 100), "thorough": (5000, 800)}
RULE = ("A case is two or three tracking and preprocessing commands (the same forcing or raw data, different settings) started "
        "together under a seeded schedule of their file-system operations, writing to their own folders below parents that may "
        "not exist yet; in a third of the cases one of them is killed at a seeded operation or meets a full disk in its own "
        "folder. Non-trivial: the commands took turns at least ten times; distinct by the order of all gated operations.")
REAL = pre.REAL + ["wam2layers tracking"]
STUB = pre.STUB
MUST_REACH = ["interleaved", "track+track", "track+preprocess", "preprocess+preprocess", "three commands", "killed",
              "missing parents", "same parent", "forward and backward", "shapefile", "disk full for one", "nested folders", "one folder"]

SCHEDULES = [{"mode": "random", "sticky": 0.0}, {"mode": "random", "sticky": 0.5}, {"mode": "random", "sticky": 0.9},
             {"mode": "random", "sticky": 0.98}, {"mode": "pct", "change": 0.01}, {"mode": "pct", "change": 0.1},
             {"mode": "pct", "change": 0.4}, {"mode": "meet", "sticky": 0.5}, {"mode": "meet", "sticky": 0.9}]
FOLDERS = ["runs/{k}", "runs/deep/er/{k}", "runs/deep/{k}", "{k}", "runs/{k}", "a/b/c/d/{k}"]


def variant(r, base):
    """Another experiment over the same forcing."""
    c = dict(base)
    c["dir"] = r.choice(["forward", "backward"])
    c["kvf"] = r.choice([3, 0, 2])
    c["out"] = r.choice(["30min", "1h", "2h", "3h"])
    if c.get("global"):
        c["periodic"] = r.random() < 0.5
    cases.add_domain(r, c, 0.4)
    cases.add_tagging(r, c, ("bbox", "static", "dynamic", "shape"))
    return c


def gen(r, tier, i):
    kinds = r.choice([["t", "t"], ["t", "t"], ["t", "p"], ["p", "p"], ["t", "t", "t"], ["t", "t", "p"], ["t", "p", "p"]])
    base = cases.gen_case(r, min_steps=2, max_steps=5 if tier == "quick" else 14, big_p=0,
                          outs=["30min", "1h", "1h", "2h", "3h"])
    pc = prelab.gen_case(r, max_records=3 if tier == "quick" else 10, min_records=1, days=r.choice([1, 2]))
    cmds = []
    same = r.random() < 0.5
    f0 = r.choice(FOLDERS)
    for k, kind in enumerate(kinds):
        d = f0 if same else r.choice(FOLDERS)
        x = {"kind": kind, "folder": d.format(k=f"r{k}"), "start": 0 if k == 0 else r.choice([0, 0, 0, 1])}
        if kind == "t":
            x["case"] = variant(r, base) if k or r.random() < 0.5 else base
            x["twin"] = False
            if k and r.random() < 0.2 and cmds[0]["kind"] == "t":
                x["case"] = cmds[0]["case"]         # the very same experiment, into another folder
        else:
            x["parallel"] = r.choice([None, None, 2])
        cmds.append(x)
    if r.random() < 0.25:
        # one folder inside the other
        cmds[1]["folder"] = cmds[0]["folder"] + "/" + r.choice(["r1", "x/r1"])
        if r.random() < 0.5:
            cmds[0]["folder"], cmds[1]["folder"] = cmds[1]["folder"], cmds[0]["folder"]
    if kinds[:2] == ["t", "t"] and r.random() < 0.35:
        # a forward and a backward experiment into one folder: their results have different names
        cmds[1]["case"] = variant(r, base)
        a, b = r.sample(["forward", "backward"], 2)
        cmds[0]["case"], cmds[1]["case"] = dict(cmds[0]["case"], dir=a), dict(cmds[1]["case"], dir=b)
        cmds[1]["folder"] = cmds[0]["folder"]
        if r.random() < 0.5:
            # both write the same files into its debug folder
            for x in cmds[2:]:
                x.get("case", {})["regime"] = "strong"
            for x in cmds[:2]:
                x["start"] = 0
                x["case"]["regime"] = "strong"
                if r.random() < 0.7:
                    cases.add_tagging(r, x["case"], ("shape",))
                else:
                    cases.add_tagging(r, x["case"], ("bbox", "static"))
            cmds[1]["case"]["start"], cmds[1]["case"]["end"] = cmds[0]["case"]["start"], cmds[0]["case"]["end"]
    for x in cmds:
        # preprocessing creates the folder for later tracking runs as well
        x["later"] = r.choice(["later", "runs/later", x["folder"] + "-later"])
    p = {"cmds": cmds, "pre": pc if "p" in kinds else None, "schedule": r.choice(SCHEDULES),
         "gate_reads": r.random() < 0.2, "dir_seed": r.randrange(1 << 20), "fault": None}
    if len({x["folder"] for x in cmds}) < len(cmds) and r.random() < 0.7:
        p["schedule"] = r.choice(SCHEDULES[-2:])
    q = r.random()
    v = r.randrange(len(kinds))
    if q < 0.25:
        p["fault"] = {"victim": v, "kind": "any", "act": "kill", "pos": round(r.random(), 4)}
        if r.random() < 0.4:
            p["fault"].update(kind="write", act="torn", frac=round(r.random(), 3))
        elif r.random() < 0.3 and not any(x.get("parallel") for x in cmds):
            p["fault"]["act"] = "int"
    elif q < 0.35:
        p["fault"] = {"victim": v, "kind": "write|creat|trunc", "act": "err", "arg": "ENOSPC", "pos": round(r.random(), 4),
                      "sticky": True}
    return p


def nontrivial(p, r):
    return bool(r["probes"].get("interleaved"))


def setup(plan, w):
    ts = [x for x in plan["cmds"] if x["kind"] == "t"]
    if ts:
        lab.write_forcing(ts[0]["case"], w.root + "/pp")
    if plan["pre"]:
        prelab.write_raw(plan["pre"], w.root)


def spawn(c, plan, w, k):
    x = plan["cmds"][k]
    if x["kind"] == "t":
        os.makedirs(f"{w.root}/in{k}", exist_ok=True)
        case = dict(x["case"], _region_value=lab.write_region(x["case"], f"{w.root}/in{k}"))
        cfg = lab.config(case, w.root, name=f"cfg{k}.yaml", out=x["folder"])
        return w.spawn(track, cfg, name=f"cmd{k}", cwd=w.root)
    over = {"parallel_preprocess": True, "parallel_processes": x["parallel"]} if x["parallel"] else {}
    return pre.spawn(c, w, plan["pre"], f"cmd{k}", out=x["folder"], output_folder=f"{w.root}/{x['later']}", **over)


def content(c, plan, w, k):
    x = plan["cmds"][k]
    if x["kind"] == "t":
        return hist.collect(c, x["case"], f"{w.root}/{x['folder']}")
    return pre.store(plan["pre"], f"{w.root}/{x['folder']}")


def execute(plan, c):
    cmds = plan["cmds"]
    kinds = [x["kind"] for x in cmds]
    c.probe("+".join({"t": "track", "p": "preprocess"}[k] for k in sorted(kinds[:2], reverse=True)))
    if len(kinds) == 3:
        c.probe("three commands")
    if any("/" in x["folder"] for x in cmds):
        c.probe("missing parents")
    if len({x["folder"] for x in cmds}) < len(cmds):
        c.probe("one folder")
    if any(x["folder"].startswith(y["folder"] + "/") for x in cmds for y in cmds):
        c.probe("nested folders")
    if len({os.path.dirname(x["folder"]) for x in cmds}) < len(cmds):
        c.probe("same parent")
    ds = {x["case"]["dir"] for x in cmds if x["kind"] == "t"}
    if len(ds) == 2:
        c.probe("forward and backward")
    if any(x["kind"] == "t" and x["case"]["region"]["kind"] == "shape" for x in cmds):
        c.probe("shapefile")

    # each command alone
    alone, events = [], []
    for k in range(len(cmds)):
        ref = c.world(dir_seed=3, gate_reads=plan["gate_reads"])
        setup(plan, ref)
        n = spawn(c, plan, ref, k)
        ref.run()
        if not n.ok:
            return violation("command-failed", f"command {k} alone: {n.describe()}")
        alone.append(content(c, plan, ref, k))
        if isinstance(alone[-1], dict) and "kind" in alone[-1]:
            return alone[-1]
        events.append(ref)

    f = plan["fault"]
    w = c.world(dir_seed=plan["dir_seed"], schedule=dict(plan["schedule"]), gate_reads=plan["gate_reads"])
    if f:
        g = {k: v for k, v in f.items() if k != "victim"}
        g.update(node=f"cmd{f['victim']}", count=0, fired=0, at=int(f["pos"] * hist.matching(events[f["victim"]], f)))
        if f["act"] == "err":
            g["path"] = cmds[f["victim"]]["folder"] + "/"
        w.faults = [g]
    setup(plan, w)
    nodes = [spawn(c, plan, w, k) for k in range(len(cmds))]
    w.run()
    ids = {n.id: k for k, n in enumerate(nodes)}
    turns = [e[0] for e in w.events]
    if sum(x != y for x, y in zip(turns, turns[1:])) >= 10:
        c.probe("interleaved")
    victim = f["victim"] if f and w.faults[0]["fired"] else None
    if victim is not None:
        c.probe("killed" if nodes[victim].stopped else "disk full for one")
    for k, n in enumerate(nodes):
        if k == victim:
            continue
        if not n.ok:
            other = "" if victim is None else f", command {victim}: {nodes[victim].describe()}"
            return violation("disturbed", f"command {k} ({cmds[k]['kind']}, {cmds[k]['folder']}) among {len(cmds)}: {n.describe()}"
                                          f"{other}")
        got = content(c, plan, w, k)
        d = same(cmds[k], alone[k], got)
        if d:
            return violation("disturbed", f"command {k} ({cmds[k]['folder']}) among {len(cmds)}: {d}")
    return None


def same(x, a, b):
    if x["kind"] == "p":
        return prelab.same_store(a, b)
    if "kind" in b:
        return b["detail"]
    if sorted(a) != sorted(b):
        return f"output times {sorted(b)} instead of {sorted(a)}"
    for t in a:
        d = lab.compare(x["case"], a[t], b[t], 0, 0)
        if d:
            return f"{lab.out_name(x['case'], t)} differs from the run alone: {d}"
    return None


def shrink(plan):
    if plan["fault"]:
        yield dict(plan, fault=None)
    if plan["gate_reads"]:
        yield dict(plan, gate_reads=False)
    for k in range(len(plan["cmds"])):
        if len(plan["cmds"]) > 2 and not plan["fault"]:
            cmds = plan["cmds"][:k] + plan["cmds"][k + 1:]
            yield dict(plan, cmds=cmds, pre=plan["pre"] if any(x["kind"] == "p" for x in cmds) else None)
    for k, x in enumerate(plan["cmds"]):
        if x["kind"] == "t" and x["case"]["region"]["kind"] != "bbox":
            for c2 in cases.shrink_case(x["case"]):
                if all(c2[q] == x["case"][q] for q in ("cal", "t0", "regime")):
                    yield dict(plan, cmds=plan["cmds"][:k] + [dict(x, case=c2)] + plan["cmds"][k + 1:])
    for s in ({"mode": "random", "sticky": 0.9}, {"mode": "seq"}):
        if plan["schedule"] != s:
            yield dict(plan, schedule=s)
