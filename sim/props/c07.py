"""C07 - transient remote read failures are retried with bounded back-off, others surface."""
from .. import cases, lab
from ..ctx import track, violation
from . import hist

BUDGET = {"quick": (220, 90), "thorough": (8000, 800)}
RULE = ("A case is a seeded tracking run over OPeNDAP forcing with one to four bursts of failing reads at seeded opens: the "
        "spurious time-decoding IndexError one to eight times in a row, nine or more times, or for good; a different error at "
        "once or after some transient ones; or a connection lost while data are read; after a failed run the server recovers and "
        "the run is continued from its last output. Judged on the simulated clock. "
        "Non-trivial: a read failed; distinct by the order of all gated operations.")
REAL = hist.REAL
STUB = hist.STUB + ["OPeNDAP transport: local files behind xarray.open_dataset for URLs, with injected failures"]
MUST_REACH = ["recovered", "eight failures", "gave up", "other error", "other error after transient", "several bursts",
              "healed", "healed after an output", "lost while reading", "failed at the last read", "failed after an output", "restart"]

ERR = {1: "IndexError", 2: "OSError", 3: "OSError", 4: "RuntimeError", 5: "KeyError", 9: "PermissionError"}


def gen(r, tier, i):
    case = cases.gen_case(r, min_steps=2, max_steps=7 if tier == "quick" else 16, big_p=0.03,
                          region_kinds=("bbox", "static", "dynamic"), outs=["30min", "1h", "1h", "2h", "3h"])
    bursts = []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        n = r.choice([1, 1, 2, 3, 5, 7, 8, 8])
        bursts.append({"pos": round(r.random(), 4) if r.random() < 0.9 else 1.0, "seq": [1] * n})
    q = r.random()
    b = bursts[0]
    if q < 0.2:
        b["seq"] = [1] * r.choice([9, 10, 12, 60])
    elif q < 0.4:
        b["seq"] = [1] * r.choice([0, 0, 1, 3, 7, 8]) + [r.choice([2, 3, 4, 5, 9])] * r.choice([1, 1, 2, 9])
    p = {"case": case, "bursts": bursts, "restart": r.random() < 0.15, "read": None, "heal": r.random() < 0.6}
    if r.random() < 0.15:
        p["read"] = {"kind": "read", "act": "err", "arg": r.choice(["EIO", "ECONNRESET", "ETIMEDOUT"]), "path": "_fluxes_storages",
                     "pos": round(r.random(), 4), "sticky": r.random() < 0.5}
        p["bursts"] = p["bursts"][1:]
    return p


def nontrivial(p, r):
    return any(r["probes"].get(k) for k in ("recovered", "gave up", "other error", "lost while reading"))


class Link:
    """The remote end: fails opens as planned and keeps the times."""

    def __init__(self, plan, total):
        self.todo = {}
        for b in plan["bursts"]:
            k = min(int(b["pos"] * total), total - 1)
            self.todo.setdefault(k, list(b["seq"]))
        self.good = 0            # successful opens
        self.fails = []          # (open number, error, time)
        self.times = {}          # open number -> times of all its attempts
        self.total = total

    def __call__(self, node, what, a, b):
        if not what.startswith("dap:"):
            return None
        k = self.good
        self.times.setdefault(k, []).append(node.world.now())
        seq = self.todo.get(k)
        if seq:
            arg = seq.pop(0)
            self.fails.append((k, arg))
            node.world.count("transient read failure (IndexError)" if arg == 1 else f"remote {ERR[arg]}")
            return "err", arg
        self.good += 1
        return None


def local(w):
    return lambda url: w.root + "/" + url.split("sim.opendap.test/", 1)[1].lstrip("/")


URL = "http://sim.opendap.test/pp"


def execute(plan, c):
    case = plan["case"]
    ref = c.world()
    base = hist.straight(c, ref, case)                     # from local files
    if "kind" in base:
        return base
    kw = {}
    if plan["restart"]:
        line = [t for t, _ in lab.timeline(case)]
        fwd = case["dir"] == "forward"
        t = [x for x in line if (case["end"] - x if fwd else x - case["start"]) >= case["dt"] / 60][:1]
        if t:
            kw = {"start": t[0], "restart": True} if fwd else {"end": t[0], "restart": True}

    def start(w, name):
        lab.write_forcing(case, w.root + "/pp")
        w.dap_local = local(w)
        if kw:
            k2 = {"end": kw["start"]} if "start" in kw else {"start": kw["end"]}
            n = w.spawn(track, lab.config(case, w.root, name="first.yaml", **k2), name="first", cwd=w.root)
            w.run()
            if not n.ok:
                return violation("run-failed", f"first part from local files: {n.describe()}")
            c.probe("restart")
        n = w.spawn(track, lab.config(case, w.root, name=f"{name}.yaml", url=URL, **kw), name=name, cwd=w.root)
        return n

    # how many opens a fault-free remote run does
    free = c.world(gate_reads=bool(plan["read"]))
    link0 = Link({"bursts": []}, 1)
    free.remote = link0
    n = start(free, "free")
    if isinstance(n, dict):
        return n
    free.run()
    if not n.ok:
        return violation("run-failed", f"fault-free remote run: {n.describe()}")
    v = judge(c, case, base, free.root + "/out", True, "fault-free remote run", kw)
    if v:
        return v
    if link0.good < 1:
        return violation("not-remote", "the run did not read its forcing from the configured URL")

    w = c.world(gate_reads=bool(plan["read"]))
    link = Link(plan, link0.good)
    w.remote = link
    n = start(w, "run")
    if isinstance(n, dict):
        return n
    if plan["read"]:
        f = dict(plan["read"], node="run", count=0, fired=0)
        f["at"] = int(f["pos"] * hist.matching(free, f, node=len(free.nodes) - 1))
        w.faults = [f]
    w.run()
    lost = plan["read"] and w.faults[0]["fired"]
    if len({k for k, _ in link.fails}) > 1:
        c.probe("several bursts")
    # ------------------------------------------------------------ back-off
    v = delays(c, link)
    if v:
        return v
    seqs = {}
    for k, a in link.fails:
        seqs.setdefault(k, []).append(a)
    other = [a for s in seqs.values() for a in s if a != 1]
    gave = [k for k, s in seqs.items() if len(s) >= 9 and set(s) == {1}]
    desc = "; ".join(f"open {k}: {s}" for k, s in seqs.items())
    if seqs and max(seqs) >= link0.good - 1:
        c.probe("failed at the last read")
    if any(len(s) == 8 and set(s) == {1} for s in seqs.values()):
        c.probe("eight failures")
    outs = lab.outputs_in(case, w.root + "/out")
    if seqs and outs and not kw:
        c.probe("failed after an output")
    if gave or other:
        want = ERR[other[0]] if other else "IndexError"
        if n.ok:
            return violation("failure-hidden", f"{desc}: exit status 0")
        if n.exit.get("type") != want and not (want == "PermissionError" and n.exit.get("type") == "OSError"):
            return violation("other-error", f"{desc}: {n.describe()} instead of {want}")
        c.probe("gave up" if gave else "other error after transient" if any(1 in s and len(s) > 1 for s in seqs.values()
                                                                          if set(s) != {1}) else "other error")
    elif lost:
        c.probe("lost while reading")
    else:
        if not n.ok:
            return violation("not-retried", f"{desc or 'no failure'}: {n.describe()}")
        if seqs:
            c.probe("recovered")
    v = judge(c, case, base, w.root + "/out", n.ok, desc, kw)
    if v or n.ok or not plan.get("heal"):
        return v
    return heal(c, w, case, base, desc)


def heal(c, w, case, base, desc):
    """The server is back: the run continues from its last output."""
    w.faults = []
    w.remote = link = Link({"bursts": []}, 1)
    done, torn = hist.complete_outputs(case, w.root + "/out")
    fwd = case["dir"] == "forward"
    last = (max(done) if fwd else min(done)) if done else None
    if last is not None and (case["end"] - last if fwd else last - case["start"]) * 60 < case["dt"]:
        return None
    kw = {} if last is None else {"start": last, "restart": True} if fwd else {"end": last, "restart": True}
    n = w.spawn(track, lab.config(case, w.root, name="healed.yaml", url=URL, **kw), name="healed", cwd=w.root)
    w.run()
    c.probe("healed after an output" if kw else "healed")
    if not n.ok:
        return violation("not-recovered", f"{desc}; then continued with the server back: {n.describe()}")
    if not link.good:
        return violation("not-remote", "the continued run did not read its forcing from the configured URL")
    return judge(c, case, base, w.root + "/out", True, f"{desc}; then continued with the server back", {"restart": True})


def delays(c, link):
    ratios = []
    for k, ts in sorted(link.times.items()):
        ours = [a for q, a in link.fails if q == k]
        if len(ts) > 9:
            return violation("too-many-tries", f"open {k} was tried {len(ts)} times")
        if ts and ts[-1] - ts[0] > 330:
            return violation("waits-too-long", f"open {k} was retried for {ts[-1] - ts[0]:.0f} s")
        for i in range(1, len(ts)):
            d = ts[i] - ts[i - 1]
            if ours[i - 1] != 1:
                return violation("other-error-retried", f"open {k} failed with {ERR[ours[i-1]]} and was tried again")
            lo = 0.5 * 2 ** (i - 1)
            if not lo - 1e-6 <= d <= 2 * lo + 0.3:
                return violation("back-off", f"open {k}: retry {i} came after {d:.3f} s instead of {lo:g}-{2*lo:g} s")
            ratios.append(d / lo)
    if len(ratios) >= 6 and max(ratios) - min(ratios) < 0.002:
        return violation("no-jitter", f"{len(ratios)} delays, all {ratios[0]:.4f} times the shortest allowed")
    return None


def judge(c, case, base, folder, complete, what, kw):
    outs = hist.collect(c, case, folder)
    if "kind" in outs:
        outs["detail"] += f" ({what})"
        return outs
    for t in base:
        if t not in outs:
            if complete:
                return violation("missing-output", f"{what}: {lab.out_name(case, t)}")
            continue
        tol = hist.SINGLE if kw else 0
        d = lab.compare(case, base[t], outs[t], tol, tol, floor=hist.floors(base))
        if d:
            return violation("wrong-data", f"{what}: {lab.out_name(case, t)} differs from the run over local files: {d}")
    extra = [t for t in outs if t not in base]
    if extra:
        return violation("extra-output", f"{what}: {lab.out_name(case, extra[0])}")
    return None


def shrink(plan):
    b = plan["bursts"]
    if plan["restart"]:
        yield dict(plan, restart=False)
    if plan.get("heal"):
        yield dict(plan, heal=False)
    for i in range(len(b)):
        if len(b) > 1 or plan["read"]:
            yield dict(plan, bursts=b[:i] + b[i + 1:])
    for i, x in enumerate(b):
        if len(x["seq"]) > 1:
            yield dict(plan, bursts=b[:i] + [dict(x, seq=x["seq"][1:])] + b[i + 1:])
        if x["pos"] > 0.01:
            yield dict(plan, bursts=b[:i] + [dict(x, pos=round(x["pos"] / 2, 4))] + b[i + 1:])
    for x in cases.shrink_case(plan["case"]):
        yield dict(plan, case=x)
