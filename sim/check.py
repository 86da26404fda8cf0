#!/usr/bin/env python3
"""Runner: seeds -> plans -> simulated runs -> verdict, evidence, replay files."""
import argparse
import ctypes
import hashlib
import importlib
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("WAMSIM_REPO", "/repo")
PY = os.environ.get("WAMSIM_PYTHON", "/opt/venv/bin/python")


def build_shim(scratch):
    so = os.path.join(scratch, "shim.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "shim.c"), "-ldl"], check=True)
    return so


class Worker:
    def __init__(self, scratch, so, k, hashseed, aslr=False):
        r, w = os.pipe()
        env = dict(os.environ)
        for v in ("WAMSIM_KEEP",):
            env.pop(v, None)
        env.update(LD_PRELOAD=so, PYTHONHASHSEED=str(hashseed), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   MKL_NUM_THREADS="1", WAMSIM_REPO=REPO, WAMSIM_SCRATCH=scratch, PYTHONPATH=VERIF,
                   HDF5_USE_FILE_LOCKING=os.environ.get("HDF5_USE_FILE_LOCKING", "TRUE"),
                   MPLCONFIGDIR=scratch + "/mpl", TZ="UTC", LC_ALL="C.UTF-8", HOME=scratch + "/home",
                   WAMSIM_BASE=os.environ.get("WAMSIM_BASE", ""), PYTHONDONTWRITEBYTECODE="")
        env.pop("PYTHONDONTWRITEBYTECODE")
        if os.environ.get("WAMSIM_KEEP"):
            env["WAMSIM_KEEP"] = "1"
        os.makedirs(scratch + "/home", exist_ok=True)
        self.err = open(f"{scratch}/worker.{k}.err", "w+b")
        def pre():
            os.dup2(w, 3)
            if not aslr:
                # the order of sets of objects without a hash of their own follows their addresses
                ctypes.CDLL(None).personality(0x0040000)
        self.p = subprocess.Popen([PY, "-X", "faulthandler", "-m", "sim.worker"], stdin=subprocess.PIPE,
                                  stdout=self.err, stderr=self.err, env=env, cwd=VERIF, close_fds=False,
                                  pass_fds=(), preexec_fn=pre)
        os.close(w)
        self.r = os.fdopen(r, "rb")
        self.hashseed = hashseed

    def ready(self):
        line = self.r.readline()
        if not line:
            self.err.seek(0)
            raise RuntimeError("worker did not start: " + self.err.read().decode(errors="replace")[-3000:])

    def call(self, plan, timeout=240, trace=False):
        self.p.stdin.write(json.dumps({"plan": plan, "timeout": timeout, "trace": trace}).encode() + b"\n")
        self.p.stdin.flush()
        line = self.r.readline()
        if not line:
            return {"error": "worker died"}
        return json.loads(line)

    def stop(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


class Pair:
    """Executes every plan in two interpreters with different hash seeds; outcomes must agree."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def ready(self):
        self.a.ready()
        self.b.ready()

    def call(self, plan, timeout=240, trace=False):
        r = self.a.call(plan, timeout, trace)
        if r.get("violation") or r.get("error"):
            return r
        r2 = self.b.call(plan, timeout, trace)
        if r2.get("error"):
            return r2
        for k in ("events", "sim_s", "nodes", "worlds"):
            r[k] += r2[k]
        if r2.get("violation"):
            r["violation"] = r2["violation"]
        elif r2.get("outcome") != r.get("outcome"):
            r["violation"] = {"kind": "hash-seed", "detail": f"the results depend on PYTHONHASHSEED "
                              f"({self.a.hashseed} vs {self.b.hashseed}): {diff(r.get('outcome'), r2.get('outcome'))}"}
        r["probes"]["two hash seeds"] = 1
        return r

    def stop(self):
        self.a.stop()
        self.b.stop()


def diff(a, b):
    for k in sorted(set(a or {}) | set(b or {})):
        if (a or {}).get(k) != (b or {}).get(k):
            return k
    return "?"


class Farm:
    def __init__(self, n, cross=False):
        self.scratch = tempfile.mkdtemp(prefix="wamsim.", dir="/tmp")
        so = build_shim(self.scratch)
        self.workers = []
        for k in range(n):
            w = Worker(self.scratch, so, k, 0)
            self.workers.append(Pair(w, Worker(self.scratch, so, f"{k}b", 4242 + k, aslr=True)) if cross else w)
        for w in self.workers:
            w.ready()

    def map(self, plans, deadline=None, on=None, pick=None):
        """Execute plans; returns list of results (None = not executed)."""
        res = [None] * len(plans)
        q = queue.Queue()
        for i in range(len(plans)):
            q.put(i)
        stop = threading.Event()

        def loop(w, wi):
            while not stop.is_set():
                if deadline and time.time() > deadline:
                    return
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    return
                r = w.call(plans[i])
                r["_worker"] = wi
                res[i] = r
                if on and on(i, r):
                    stop.set()
        ts = [threading.Thread(target=loop, args=(w, wi)) for wi, w in enumerate(self.workers)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return res

    def stop(self):
        for w in self.workers:
            w.stop()
        if os.path.basename(self.scratch).startswith("wamsim."):
            shutil.rmtree(self.scratch, ignore_errors=True)


# ------------------------------------------------------------------ findings
def known_findings(prop):
    out, fixed = [], []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop:
                    (fixed if d.get("status") == "fixed" else out).append(d)
    return out, fixed


# ---------------------------------------------------------------- minimising
def minimise(mod, farm, plan, kind, budget):
    """Greedy: first simpler plan showing the same kind of violation wins."""
    end = time.time() + budget
    best = plan
    tried = {json.dumps(plan, sort_keys=True)}
    steps = 0
    while time.time() < end:
        cands = []
        for c in mod.shrink(best):
            s = json.dumps(c, sort_keys=True)
            if s not in tried:
                tried.add(s)
                cands.append(c)
            if len(cands) >= 16:
                break
        if not cands:
            break
        found = {}

        def on(i, r):
            v = r.get("violation")
            if v and v["kind"] == kind:
                found[i] = r
                return True
        farm.map(cands, deadline=end, on=on)
        if not found:
            continue      # next 16 candidates, until shrink() has no new ones
        best = cands[min(found)]
        steps += 1
    return best, steps


# ---------------------------------------------------------------------- main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=False)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--n", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("WAMSIM_JOBS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--no-min", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    if a.replay:
        return replay(a)
    prop = a.property
    mod = importlib.import_module("sim.props." + prop.lower())
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    n, cap = mod.BUDGET[tier]
    n = a.n or n
    plans = []
    for i in range(a.first, a.first + n):
        s = a.seed * 1_000_003 + i
        p = mod.gen(random.Random(f"{prop}/{s}"), tier, i)
        p["prop"], p["seed"] = prop, s
        p.setdefault("wseed", s & 0xFFFFFF)
        plans.append(p)
    plans = [json.loads(json.dumps(p)) for p in plans]
    farm = Farm(a.jobs, getattr(mod, 'CROSS', False))
    bad = []
    errors = []

    def on(i, r):
        if a.verbose:
            print(i, plans[i]["seed"], r.get("violation") or r.get("error") or "ok", f"{r.get('wall', 0):.2f}s",
                  r.get("probes"), flush=True)
            if r.get("tb"):
                print(r["tb"])
        if r.get("error"):
            errors.append((i, r))
        if r.get("violation"):
            bad.append(i)
            return not a.keep_going
    try:
        code = _judge(a, prop, mod, tier, plans, farm, bad, errors, on, t0, cap)
    finally:
        farm.stop()
    return code


def _judge(a, prop, mod, tier, plans, farm, bad, errors, on, t0, cap):
    deadline = t0 + cap
    res = farm.map(plans, deadline=deadline, on=on)
    done = [(p, r) for p, r in zip(plans, res) if r is not None and "error" not in r]
    code = 0
    known, fixed = known_findings(prop)
    lines = []
    replay_path = None
    # ------------------------------------------------ determinism self-check
    same = tot = 0
    if not bad and done:
        step = max(1, len(done) // 6)
        sample = done[::step][:6]
        # on the next worker over: another interpreter process
        nw = len(farm.workers)
        groups = {}
        for p, r in sample:
            groups.setdefault((r["_worker"] + 1) % nw, []).append((p, r))
        again = []

        def redo(k):
            for p, r in groups[k]:
                if time.time() > deadline + 60:
                    return
                again.append((p, r, farm.workers[k].call(p)))
        ts = [threading.Thread(target=redo, args=(k,)) for k in groups]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for p, r, r2 in again:
            tot += 1
            if r2.get("violation"):
                bad.append(plans.index(p))
                res[plans.index(p)] = r2
            same += r2.get("hash") == r.get("hash")
            if a.verbose and r2.get("hash") != r.get("hash"):
                print("NOT REPRODUCED", p["seed"])
    if bad:
        i = min(bad)
        v = res[i]["violation"]
        best, steps = plans[i], 0
        if not a.no_min:
            best, steps = minimise(mod, farm, plans[i], v["kind"], 90 if tier == "quick" else 240)
        r = farm.workers[0].call(best, trace=True)
        if not r.get("violation"):
            best, r = plans[i], farm.workers[0].call(plans[i], trace=True)
        v = r.get("violation") or v
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay_path = os.path.join("replays", f"{prop}-{plans[i]['seed']}.json")
        with open(os.path.join(VERIF, replay_path), "w") as f:
            json.dump({"property": prop, "violation": v, "seed": plans[i]["seed"], "hash": r.get("hash"),
                       "minimise_steps": steps, "plan": best, "original_plan": plans[i],
                       "faults": r.get("faults"), "trace": r.get("trace"), "stderr": r.get("stderr")}, f, indent=1)
        print(f"# {v['kind']}: {v['detail']}")
        print(f"VIOLATION property={prop} replay={replay_path}", flush=True)
        code = 1
    known_seen = {}
    for _, r in done:
        for k in r.get("known", []):
            known_seen[k] = known_seen.get(k, 0) + 1
    for k in known:
        if code == 0 and (known_seen.get(k["id"]) or not done):
            print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
    # --------------------------------------------------------------- evidence
    wall = time.time() - t0
    faults, probes, orders, hashes = {}, {}, set(), set()
    ev = sim = worlds = nodes = 0
    for _, r in done:
        for k, c in r.get("faults", {}).items():
            faults[k] = faults.get(k, 0) + c
        for k, c in r.get("probes", {}).items():
            probes[k] = probes.get(k, 0) + c
        ev += r.get("events", 0)
        sim += r.get("sim_s", 0)
        worlds += r.get("worlds", 0)
        nodes += r.get("nodes", 0)
        orders.add(r.get("order"))
        hashes.add(r.get("hash"))
    nontriv = {r["order"] for p, r in done if mod.nontrivial(p, r)}
    samples = []
    for p, r in done[:: max(1, len(done) // 3)][:3]:
        samples.append({"plan": p, "events": r.get("events"), "faults": r.get("faults"), "probes": r.get("probes"),
                        "sim_s": round(r.get("sim_s", 0), 1), "hash": r.get("hash")})
    hours = max(wall, 1e-6) / 3600
    cov = {
        "evaluations": len(done),
        "distinct_nontrivial": len(nontriv),
        "rule": mod.RULE,
        "samples": samples or [{"none": True}],
        "seeds": [plans[0]["seed"], plans[-1]["seed"]],
        "planned": len(plans),
        "not_executed_for_time": sum(r is None for r in res),
        "harness_errors": len(errors),
        "simulated_executions": worlds,
        "simulated_processes": nodes,
        "operations_scheduled": ev,
        "runs_per_hour": round(len(done) / hours),
        "seeds_per_hour": round(len(done) / hours),
        "simulated_time_s": round(sim, 1),
        "faults_injected": faults,
        "distinct_operation_orders": len(orders),
        "distinct_executions": len(hashes),
        "distinct_measure": "SHA-1 over the sequence (node, operation kind, path) of every gated operation of all "
                            "simulated processes of the plan",
        "reach_probes": probes,
        "reexecuted_on_another_worker": tot,
        "reexecuted_identically": same,
        "components_real": mod.REAL,
        "components_stubbed": mod.STUB,
        "known_findings_met": known_seen,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": a.seed, "level": "exploration", "coverage": cov,
                   "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
                   "wall_s": round(wall, 2), "violations": int(code == 1)}, f, indent=1)
    print(f"# {prop} {tier}: {len(done)}/{len(plans)} plans, {worlds} worlds, {nodes} processes, {ev} operations, "
          f"{sim:.0f} s simulated, {len(orders)} distinct orders, re-executed {same}/{tot} identical, "
          f"{len(errors)} errors, {wall:.0f} s")
    if code == 0:
        if not done or len(errors) > max(1, len(plans) // 10):
            for i, r in errors[:3]:
                print("# error:", plans[i]["seed"], r["error"], r.get("tb", ""))
            return 2
        miss = [p for p in getattr(mod, "MUST_REACH", []) if not probes.get(p)]
        if miss and not a.n:
            print("# warning: not reached in this run: " + ", ".join(miss))
    return code


COMMON_ASSUMPTIONS = [
    "A crash is the death of the process; completed file operations survive it in their program order (no power loss: "
    "the program never calls fsync, so nothing is promised about it).",
    "Nondeterminism inside the Python, NumPy and HDF5 libraries other than clocks, randomness, directory order, hash "
    "seed, scheduling and I/O results is assumed absent (checked by re-executing a sample of plans).",
]


def replay(a):
    d = json.load(open(a.replay))
    prop, plan = d["property"], d["plan"]
    mod = importlib.import_module('sim.props.' + prop.lower())
    farm = Farm(1, getattr(mod, 'CROSS', False))
    try:
        r = farm.workers[0].call(plan, timeout=600, trace=True)
    finally:
        farm.stop()
    v = r.get("violation")
    if a.verbose:
        for n, t in (r.get("stderr") or {}).items():
            print("-----", n)
            print(t)
        for w in r.get("trace") or []:
            for e in w:
                print("   ", *e)
    if r.get("error"):
        print("# error", r["error"], r.get("tb"))
        return 2
    if v:
        print(f"# {v['kind']}: {v['detail']}")
        print(f"# same execution as recorded: {r.get('hash') == d.get('hash')}")
        print(f"VIOLATION property={prop} replay={a.replay}")
        return 1
    print(f"# {prop}: the replay file does not violate the property on this tree")
    return 0


if __name__ == "__main__":
    sys.exit(main())
