"""C15 - results do not depend on clock, directory order, randomness or process history."""
import hashlib
import os

import numpy as np

from .. import cases, core, lab, prelab
from ..ctx import cli, isolated, preprocess, track, violation
from . import c08, hist, pre

CROSS = True
BUDGET = {"quick": (120, 90), "thorough": (4000, 800)}
RULE = ("A case is one tracking or preprocessing command run twice on the same configuration and input: once plainly, once with "
        "another wall clock that jumps at seeded operations, another directory order, other random states, another working "
        "directory, and after up to three other commands (also failing ones, and over data that was regenerated since) in the "
        "same process; and both again in a second interpreter with another PYTHONHASHSEED. All data and coordinates must be "
        "identical. Non-trivial: at least one of these really differed; distinct by the order of all gated operations.")
REAL = pre.REAL + ["wam2layers tracking"]
STUB = pre.STUB
MUST_REACH = ["track", "era5", "cmip", "arco", "clock jump", "far clock", "other directory order", "other working directory",
              "earlier commands", "earlier command failed", "regenerated", "region regenerated", "several input files", "two hash seeds"]
CLOCKS = [0.0, 86399.5, 951782399.0, 1_700_000_000.0, 2_147_483_640.0, 4_102_444_799.0, 9_000_000_000.0]


def gen(r, tier, i):
    p = {"what": r.choice(["track", "pre"]), "dir_seed": r.randrange(1 << 20), "clock": r.choice(CLOCKS),
         "jumps": [], "cwd": r.random() < 0.5, "before": [], "nseed": r.randrange(1 << 16), "env": r.random() < 0.3}
    for _ in range(r.choice([0, 1, 2, 4])):
        p["jumps"].append([r.randrange(300), r.choice([3600, -3600, 86400, -86400 * 30, 1e8, -7.5, 0.5, 3155760000])])
    if p["what"] == "track":
        p["case"] = cases.gen_case(r, min_steps=2, max_steps=6 if tier == "quick" else 16, big_p=0.05)
        if r.random() < 0.4:
            cases.add_tagging(r, p["case"], ("static", "dynamic", "shape"))
    else:
        p["case"] = prelab.gen_case(r, max_records=4 if tier == "quick" else 16, min_records=1, days=r.choice([1, 2, 3]),
                                    sources=("era5", "era5", "cmip", "cmip", "arco"))
        if p["case"]["source"] == "cmip" and r.random() < 0.6:
            p["case"]["chunks"] = r.choice([2, 3, 4])
            p["case"]["oddcut"] = True
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        q = r.random()
        if q < 0.25:
            p["before"].append({"kind": "bad"})
        elif q < 0.6:
            p["before"].append({"kind": "same", "version": r.choice([0, 1, 1])})
        elif p["what"] == "track":
            p["before"].append({"kind": "track", "case": c08.variant(r, p["case"]), "version": r.choice([0, 1])})
        else:
            p["before"].append({"kind": "pre", "case": prelab.gen_case(r, max_records=2, days=1)})
    return p


def nontrivial(p, r):
    return True


def commands(root, base, plan, cfg, cfgs):
    """The process of the varied execution."""
    for k, (kind, *args) in enumerate(cfgs):
        core.py_gate(f"before:{k}")
        try:
            cli(*args)
        except SystemExit:
            pass
        except Exception:
            if kind != "bad":
                raise
    core.py_gate("before:end")
    return cli(*base)


def put(plan, root, version, first):
    """(Re)generate the input of the case, by whole files."""
    case = plan["case"]
    if plan["what"] == "track":
        tmp = f"{root}/new"
        lab.write_forcing(case, tmp, version=version)
        os.makedirs(f"{root}/pp", exist_ok=True)
        for f in sorted(os.listdir(tmp)):
            os.replace(f"{tmp}/{f}", f"{root}/pp/{f}")
        reg = case["region"]
        if reg["kind"] != "bbox":
            # another version of the region under the same name
            if version:
                reg = dict(reg, seed=reg.get("seed", 0) + 7919 * version)
                if reg["kind"] == "shape":
                    w, s, e, n = reg["bbox"]
                    reg["bbox"] = [w, s, (w + e) / 2, n]
            lab.write_region(dict(case, region=reg), tmp)
            for f in sorted(os.listdir(tmp)):
                os.replace(f"{tmp}/{f}", f"{root}/{f}")
        os.rmdir(tmp)
    else:
        os.makedirs(f"{root}/new", exist_ok=True)
        prelab.write_raw(case, f"{root}/new", version=version)
        os.makedirs(f"{root}/raw", exist_ok=True)
        for d, _, fs in os.walk(f"{root}/new/raw"):
            rel = os.path.relpath(d, f"{root}/new/raw")
            os.makedirs(f"{root}/raw/{rel}", exist_ok=True)
            for f in fs:
                os.replace(f"{d}/{f}", f"{root}/raw/{rel}/{f}")


def contents(folder):
    return isolated(_contents, folder)


def _contents(folder):
    out = {}
    for f in sorted(os.listdir(folder)) if os.path.isdir(folder) else []:
        if f.endswith(".nc"):
            try:
                d = lab.read_nc(f"{folder}/{f}")
            except lab.Unreadable as e:
                out[f] = str(e)
                continue
            d["_attrs"] = {k: str(v) for k, v in d["_attrs"].items() if k not in ("history", "WAM2Layers_config")}
            out[f] = d
    return out


def differs(a, b):
    if sorted(a) != sorted(b):
        return f"files {sorted(set(a) ^ set(b))}"
    for f in a:
        x, y = a[f], b[f]
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return f"{f}: {x} / {y}"
            continue
        if sorted(x) != sorted(y):
            return f"{f}: variables {sorted(set(x) ^ set(y))}"
        for k in x:
            if k == "_attrs" or not isinstance(x[k], np.ndarray):
                if x[k] != y[k]:
                    return f"{f}: {k}: {x[k]} / {y[k]}"
            elif x[k].shape != y[k].shape or x[k].dtype != y[k].dtype or \
                    not np.array_equal(x[k], y[k], equal_nan=x[k].dtype.kind == "f"):
                return f"{f}: {k} ({np.ravel(x[k])[:3]} / {np.ravel(y[k])[:3]})"
    return None


def digest(x):
    h = hashlib.sha1()
    for f in sorted(x):
        if isinstance(x[f], str):
            h.update(x[f].encode())
            continue
        for k in sorted(x[f]):
            v = x[f][k]
            h.update(k.encode())
            h.update(v.tobytes() if isinstance(v, np.ndarray) else repr(sorted(v.items()) if isinstance(v, dict) else v).encode())
    return h.hexdigest()


def base_command(plan, w):
    case = plan["case"]
    if plan["what"] == "track":
        return ["track", lab.config(case, w.root, name="cfg.yaml")], w.root + "/out"
    w.zarr_local = w.root + "/raw/arco.nc"
    return ["preprocess", prelab.COMMAND[case["source"]], prelab.config(case, w.root, name="cfg.yaml")], w.root + "/pp"


def execute(plan, c):
    case = plan["case"]
    c.probe("track" if plan["what"] == "track" else case["source"])
    ref = c.world(dir_seed=3, seed=1)
    put(plan, ref.root, 0, True)
    base, folder = base_command(plan, ref)
    n = ref.spawn(cli, *base, name="plain", cwd=ref.root)
    ref.run()
    if not n.ok:
        return violation("command-failed", f"plain run: {n.describe()}")
    want = contents(folder)
    if not want:
        return violation("no-output", "the plain run wrote nothing")
    c.outcome["plain"] = digest(want)

    state = {"version": None}

    def remote(node, what, a, b):
        if what.startswith("before:"):
            k = what[7:]
            v = 0 if k == "end" else plan["before"][int(k)].get("version", 0)
            if v != state["version"]:
                if state["version"] is not None:
                    c.probe("regenerated")
                    if plan["what"] == "track" and case["region"]["kind"] != "bbox":
                        c.probe("region regenerated")
                isolated(put, plan, w.root, v, False)
                state["version"] = v
            if k == "end":
                # what the earlier commands wrote into the same folder is not part of the comparison
                for f in sorted(os.listdir(folder2)) if os.path.isdir(folder2) else []:
                    if f.endswith(".nc") and plan["clear"]:
                        os.unlink(f"{folder2}/{f}")
        return None
    plan = dict(plan, clear=plan["nseed"] % 2 == 0)
    w = c.world(dir_seed=plan["dir_seed"], start=plan["clock"], jumps=plan["jumps"], remote=remote, seed=plan["nseed"] + 2)
    base, folder2 = base_command(plan, w)
    cfgs = []
    for k, x in enumerate(plan["before"]):
        if x["kind"] == "bad":
            bad = f"{w.root}/bad{k}.yaml"
            open(bad, "w").write("tracking_direction: sideways\n")
            cfgs.append(["bad", "track", bad])
            c.probe("earlier command failed")
        elif x["kind"] == "same":
            cfgs.append(["same"] + base)
        elif x["kind"] == "track":
            os.makedirs(f"{w.root}/in{k}")
            xc = dict(x["case"], _region_value=lab.write_region(x["case"], f"{w.root}/in{k}"))
            cfgs.append(["track", "track", lab.config(xc, w.root, name=f"b{k}.yaml", out=f"before{k}")])
        else:
            xc = x["case"]
            sub = f"{w.root}/other{k}"
            os.makedirs(sub)
            prelab.write_raw(xc, sub)
            if xc["source"] == "arco":          # one object store per world
                continue
            cfgs.append(["pre", "preprocess", prelab.COMMAND[xc["source"]], prelab.config(xc, sub, name="cfg.yaml")])
        c.probe("earlier commands")
    cwd = w.root
    if plan["cwd"]:
        cwd = w.root + "/some/where else"
        os.makedirs(cwd)
        c.probe("other working directory")
    if plan["clock"] != 1_700_000_000.0:
        c.probe("far clock")
    plan["before"] = [x for x in plan["before"] if not (x["kind"] == "pre" and x["case"]["source"] == "arco")]
    n = w.spawn(commands, w.root, base, None, None, cfgs, name="varied", cwd=cwd, seed=plan["nseed"])
    w.run()
    if any(k.startswith("clock jump") for k in w.fault_counts):
        c.probe("clock jump")
    c.probe("other directory order")
    if not n.ok:
        return violation("command-failed", f"after {[x['kind'] for x in plan['before']]}, clock {plan['clock']:.0f}: {n.describe()}")
    if plan["what"] == "pre" and sum(len(f) for _, _, f in os.walk(w.root + "/raw")) > 8:
        c.probe("several input files")
    got = contents(folder2)
    d = differs(want, got)
    if d:
        return violation("not-a-function-of-input", f"{d} differs between a plain run and one with clock {plan['clock']:.0f}, jumps "
                                                    f"{plan['jumps']}, directory order {plan['dir_seed']}, earlier commands "
                                                    f"{[x['kind'] for x in plan['before']]}")
    c.outcome["varied"] = digest(got)
    return None


def shrink(plan):
    for i in range(len(plan["before"])):
        yield dict(plan, before=plan["before"][:i] + plan["before"][i + 1:])
    for i in range(len(plan["jumps"])):
        yield dict(plan, jumps=plan["jumps"][:i] + plan["jumps"][i + 1:])
    if plan["cwd"]:
        yield dict(plan, cwd=False)
    if plan["clock"] != 1_700_000_000.0:
        yield dict(plan, clock=1_700_000_000.0)
    if plan["dir_seed"] != 3:
        yield dict(plan, dir_seed=3)
    if not plan["before"]:
        for x in cases.shrink_case(plan["case"]) if plan["what"] == "track" else prelab.shrink_case(plan["case"]):
            yield dict(plan, case=x)
