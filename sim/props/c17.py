"""C17 - every result carries the configuration that reproduces it."""
import json
import os

from .. import cases, core, lab, prelab
from ..ctx import cli, isolated, violation
from . import c15, hist, pre

BUDGET = {"quick": (180, 100), "thorough": (5000, 800)}
RULE = ("A case is a tracking run (also one continued by a restart) or a preprocessing command followed by one to four reruns, "
        "each from the original file, the configuration embedded in an output, or the archived copy (in place, by another path, "
        "through a link, from inside the folder), seconds to decades later, in fresh or shared processes, some killed at seeded "
        "operations; folders have awkward names and results are sometimes removed first. Every completed rerun must give the "
        "same data and embedded configuration, leave the archived copy intact and a log. Non-trivial: a rerun from an embedded "
        "or archived configuration completed; distinct by the order of all gated operations.")
REAL = pre.REAL + ["wam2layers tracking"]
STUB = pre.STUB
MUST_REACH = ["track", "era5", "cmip", "arco", "embedded", "archive", "alias", "inside", "same process", "killed", "results removed",
              "restart configuration", "first part", "much later", "seconds in dates", "awkward folder", "original gone",
              "shapefile", "mask file", "tracking domain", "relative paths"]
FOLDERS = ["out", "out", "my results", "a/b/c", "run #1", "it's 100%", "x: y", "resultats-été", "[1]", "~", "null", "1e5"]
LATER = [2, 61, 3600, 86400, 86400 * 400, 86400 * 365 * 20]


def gen(r, tier, i):
    p = {"what": r.choice(["track", "track", "track", "pre", "pre"]), "folder": r.choice(FOLDERS), "nseed": r.randrange(1 << 16)}
    if p["what"] == "track":
        p["case"] = cases.gen_case(r, min_steps=3, max_steps=8 if tier == "quick" else 16, big_p=0.05)
        if r.random() < 0.3 and p["case"]["dt"] <= 3600:
            # tagging limits between minutes, next to the instants of steps
            p["seconds"] = [r.choice([0, 1, 29, 30, 59]), r.choice([0, 1, 30, 31, 59])]
        p["split"] = round(r.uniform(0.2, 0.9), 3) if r.random() < 0.4 else None
        p["relative"] = r.random() < 0.35
        p["extra"] = {}
        if r.random() < 0.4:
            p["extra"] = r.choice([{"levels": "All"}, {"pressure_boundary_factor": 7e-05}, {"parallel_preprocess": True},
                                   {"parallel_processes": 3}, {"level_layer_boundary": 90}, {"pressure_boundary_offset": 1e16}])
    else:
        p["case"] = prelab.gen_case(r, max_records=4 if tier == "quick" else 12, min_records=1, days=r.choice([1, 2]))
        p["split"] = None
    p["sessions"] = []
    for k in range(r.choice([1, 1, 2, 2, 3])):
        s = {"acts": [], "fault": None}
        if r.random() < 0.3:
            s["fault"] = hist.gen_fault(r, path="track_") if r.random() < 0.5 else hist.gen_fault(r, path=".yaml")
        for _ in range(r.choice([1, 1, 1, 2])):
            s["acts"].append({"via": r.choice(["orig", "embedded", "embedded", "archive", "archive", "alias", "inside"]),
                              "later": r.choice(LATER), "clear": r.random() < 0.5, "part": r.choice([0, 1, 1]),
                              "pick": round(r.random(), 4)})
            if p["what"] == "pre" and s["acts"][-1]["via"] == "embedded":
                s["acts"][-1]["via"] = r.choice(["archive", "alias"])
        p["sessions"].append(s)
    p["gone"] = r.random() < 0.3
    return p


def nontrivial(p, r):
    return any(r["probes"].get(k) for k in ("embedded", "archive", "alias", "inside"))


def session(cmds):
    """One process: commands in turn, paused around each of them."""
    for k, (cwd, args) in enumerate(cmds):
        core.py_gate(f"before:{k}")
        os.chdir(cwd)
        try:
            cli(*args)
        except SystemExit as e:
            if e.code:
                raise
        core.py_gate(f"after:{k}")
    return 0


def embedded(folder):
    return isolated(_embedded, folder)


def _embedded(folder):
    return {f: d["_attrs"].get("WAM2Layers_config") for f, d in
            ((f, lab.read_nc(f"{folder}/{f}")) for f in sorted(os.listdir(folder)) if f.endswith(".nc"))}


def secs(iso, n):
    return f"{iso}:{n:02d}" if iso.count(":") == 1 else iso


class Run:
    """The folder of one experiment and what its files must be."""

    def __init__(self, plan, c):
        self.plan, self.c, self.case = plan, c, plan["case"]
        self.track = plan["what"] == "track"
        self.w = w = c.world(seed=plan["nseed"] + 1)
        root = w.root
        self.bad = None
        self.logs = set()
        self.base = {}               # file -> data
        self.attr = {}               # file -> embedded configuration
        self.parts = []              # per part: configuration path, names of its outputs
        if self.track:
            lab.write_forcing(self.case, root + "/pp")
            self.folder = f"{root}/{plan['folder']}"
            case = self.case
            over = dict(plan["extra"])
            if plan.get("seconds"):
                a, b = plan["seconds"]
                over["tagging_start_date"] = secs(lab.iso(case, case["tag0"]), a)
                over["tagging_end_date"] = secs(lab.iso(case, max(case["tag1"], case["tag0"] + 1)), b)
                c.probe("seconds in dates")
            if plan.get("relative"):
                over.update(preprocessed_data_folder="pp", output_folder=plan["folder"])
                reg = lab.write_region(case, root)
                over["tagging_region"] = os.path.relpath(reg, root) if isinstance(reg, str) else reg
                c.probe("relative paths")
            segs = [(case["start"], case["end"], False)]
            if plan["split"]:
                a, b = hist.segment_dates(case, {"end_frac": plan["split"]}, None, False)
                fwd = case["dir"] == "forward"
                rest = (b, case["end"]) if fwd else (case["start"], a)
                dtm = case["dt"] / 60
                if rest[1] - rest[0] >= dtm and b - a >= dtm:
                    segs = [(a, b, False), rest + (True,)]
                    c.probe("restart configuration")
            for k, (a, b, rs) in enumerate(segs):
                cfg = lab.config(case, root, name=f"cfg{k}.yaml", out=plan["folder"], start=a, end=b, restart=rs, **over)
                self.parts.append((cfg, {lab.out_name(case, t) for t, _ in lab.timeline(case, a, b)}))
            self.command = ["track"]
        else:
            w.zarr_local = root + "/raw/arco.nc"
            prelab.write_raw(self.case, root)
            self.folder = f"{root}/{plan['folder']}"
            cfg = prelab.config(self.case, root, name="cfg0.yaml", out=plan["folder"])
            self.parts.append((cfg, {prelab.file_name(self.case, d) for d in prelab.by_day(self.case)}))
            self.command = ["preprocess", prelab.COMMAND[self.case["source"]]]
        self.text = [open(cfg, "rb").read() for cfg, _ in self.parts]
        w.remote = self.remote

    # ------------------------------------------------------------- one process
    def run(self, acts, name, fault=None):
        self.acts = []
        for a in acts:
            a = dict(a, part=min(a["part"], len(self.parts) - 1))
            a["cwd"], a["path"], a["copy"] = self.place(a, name, len(self.acts))
            self.acts.append(a)
        cmds = [(a["cwd"], self.command + [a["path"]]) for a in self.acts]
        self.w.faults = [fault] if fault else []
        return self.w.spawn(session, cmds, name=name, cwd=self.w.root, seed=self.plan["nseed"])

    def place(self, a, name, k):
        """(working directory, argument, archived copy that must exist afterwards)"""
        root = self.w.root
        cfg = self.parts[a["part"]][0]
        copy = f"{self.folder}/{os.path.basename(cfg)}"
        via = a["via"]
        if via == "orig":
            return root, cfg, copy
        if via == "archive":
            return root, copy, copy
        if via == "inside":
            if self.plan.get("relative"):       # such a file belongs to its working directory
                return root, f"{self.plan['folder']}/./{os.path.basename(cfg)}", copy
            return self.folder, os.path.basename(cfg), copy
        if via == "alias":
            q = int(a["pick"] * 3)
            if q == 0:
                return root, f"{self.folder}/../{os.path.basename(self.folder)}/{os.path.basename(cfg)}", copy
            link = f"{root}/link{q}"
            if q == 1:
                if not os.path.lexists(link):
                    os.symlink(self.folder, link)
                return root, f"link1/{os.path.basename(cfg)}", copy
            link += f".{a['part']}.yaml"
            if not os.path.lexists(link):
                os.symlink(copy, link)
            return root, link, f"{self.folder}/{os.path.basename(link)}"
        f = f"{root}/again {name} {k}.yaml"
        if self.plan.get("relative"):
            # paths in an embedded configuration do not depend on where it is run
            os.makedirs(f"{root}/else where", exist_ok=True)
            return f"{root}/else where", f, f"{self.folder}/{os.path.basename(f)}"
        return root, f, f"{self.folder}/{os.path.basename(f)}"

    def remote(self, node, what, x, y):
        if self.bad is None and what.startswith("before:"):
            self.before(self.acts[int(what[7:])])
        elif self.bad is None and what.startswith("after:"):
            self.bad = self.after(self.acts[int(what[6:])])
        return None

    def before(self, a):
        self.w._advance(int(a["later"] * 1e9))
        self.c.probe("much later" if a["later"] > 86400 * 300 else "soon")
        if a["via"] == "embedded":
            names = sorted(n for n in self.attr if n in self.parts[a["part"]][1])
            n = names[int(a["pick"] * len(names))]
            with open(a["path"], "w", encoding="utf-8") as f:
                f.write(self.attr[n])
        if a.get("clear"):
            for n in sorted(self.parts[a["part"]][1]):
                if os.path.exists(f"{self.folder}/{n}"):
                    os.unlink(f"{self.folder}/{n}")
                    self.c.probe("results removed")
        self.have = logs(self.folder)
        a["text"] = open(a["path"] if os.path.isabs(a["path"]) else os.path.join(a["cwd"], a["path"]), "rb").read()

    def after(self, a):
        c, how = self.c, f"rerun from {a['via']} configuration" if self.base else "first run"
        if a["via"] != "orig":
            c.probe(a["via"])
        if a["part"] == 0 and len(self.parts) > 1 and self.base:
            c.probe("first part")
        got = c15.contents(self.folder)
        for n, d in got.items():
            if isinstance(d, str):
                return violation("unreadable-output", f"{how}: {d}")
        own = self.parts[a["part"]][1]
        miss = sorted(own - set(got))
        if miss:
            return violation("missing-output", f"{how}: {miss[0]} was not written")
        old = {n: self.base[n] for n in own if n in self.base}
        new = {n: got[n] for n in own if n in old}
        d = c15.differs(old, new)
        if d:
            return violation("not-reproduced", f"{how}: {d} (first run / rerun)")
        attr = embedded(self.folder) if self.track else {}
        for n in sorted(own & set(attr)):
            if not attr[n]:
                return violation("no-configuration", f"{how}: {n} embeds no configuration")
            try:
                now = json.loads(attr[n])
            except ValueError:
                return violation("no-configuration", f"{how}: {n} embeds {attr[n][:60]!r}")
            if n in self.attr and json.loads(self.attr[n]) != now:
                x = json.loads(self.attr[n])
                return violation("configuration-changed", f"{how}: {n}: "
                                 f"{[(k, x.get(k), now.get(k)) for k in sorted(set(x) | set(now)) if x.get(k) != now.get(k)][:2]}")
        for n in own:
            self.base[n] = got[n]
            if n in attr:
                self.attr.setdefault(n, attr[n])
        v = self.copies(a["copy"], a["text"], how)
        if v:
            return v
        if a["later"] >= 2 and self.acts.index(a) == 0:
            new = [f for f in logs(self.folder) if f not in self.have]
            if len(new) != 1 or os.path.getsize(f"{self.folder}/{new[0]}") == 0:
                return violation("log-missing", f"{how}: new logs {new}")
        return None

    def copies(self, copy, text, how):
        """The copy of the configuration just used, and those of the parts, are there and whole."""
        try:
            have = open(copy, "rb").read()
        except FileNotFoundError:
            return violation("copy-missing", f"{how}: no {os.path.basename(copy)} in the result folder")
        if have != text:
            return violation("copy-damaged", f"{how}: {os.path.basename(copy)} holds {len(have)} bytes instead of {len(text)}")
        return self.intact(how)

    def intact(self, how):
        for k, (cfg, own) in enumerate(self.parts):
            if not any(n in self.base for n in own):
                continue
            f = f"{self.folder}/{os.path.basename(cfg)}"
            try:
                have = open(f, "rb").read()
            except FileNotFoundError:
                return violation("copy-missing", f"{how}: {os.path.basename(f)} disappeared")
            if have != self.text[k]:
                return violation("copy-damaged", f"{how}: {os.path.basename(f)} holds {len(have)} bytes instead of {len(self.text[k])}")
        return None


def logs(folder):
    return {f for f in os.listdir(folder) if f.endswith(".log")} if os.path.isdir(folder) else set()


def execute(plan, c):
    R = Run(plan, c)
    w = R.w
    c.probe("track" if R.track else plan["case"]["source"])
    if R.track:
        c.probe({"shape": "shapefile", "bbox": "box"}.get(plan["case"]["region"]["kind"], "mask file"))
        if plan["case"].get("domain"):
            c.probe("tracking domain")
    if plan["folder"] != "out":
        c.probe("awkward folder")
    ends = []
    for k in range(len(R.parts)):
        n = R.run([{"via": "orig", "later": 0 if k == 0 else 5, "clear": False, "part": k, "pick": 0}], f"first{k}")
        w.run()
        ends.append(len(w.events))
        if R.bad:
            return R.bad
        if not n.ok:
            return violation("run-failed", f"first run: {n.describe()}")
    if plan["gone"]:
        for cfg, _ in R.parts:
            os.rename(cfg, cfg + ".away")
        c.probe("original gone")
    for k, s in enumerate(plan["sessions"]):
        acts = [dict(a) for a in s["acts"]]
        for a in acts:
            if plan["gone"] and a["via"] == "orig":
                a["via"] = "archive"
        if len(acts) > 1:
            c.probe("same process")
        f = None
        if s["fault"]:
            f = hist.place(s["fault"], w, node=f"s{k}")     # over the operations of the first run
            f["at"] = int(f["at"] * len(acts))
        n = R.run(acts, f"s{k}", f)
        w.run()
        if R.bad:
            return R.bad
        if n.stopped:
            c.probe("killed")
            if all(a["via"] not in ("orig", "embedded") for a in acts):
                v = R.intact(f"killed rerun from {acts[-1]['via']} configuration")
                if v:
                    return v
            else:
                # the copy itself may have been under way: restore what the user still has
                for j, (cfg, _) in enumerate(R.parts):
                    with open(f"{R.folder}/{os.path.basename(cfg)}", "wb") as h:
                        h.write(R.text[j])
            if len(R.parts) > 1:
                # a later part restarts from what an earlier one wrote: complete it again first
                n = R.run([{"via": "archive", "later": 9, "clear": False, "part": 0, "pick": 0}], f"r{k}")
                w.run()
                if R.bad:
                    return R.bad
        if not n.ok and not n.stopped:
            return violation("rerun-failed", f"from {[a['via'] for a in acts]}: {n.describe()}")
    c.mark(sorted(R.base))
    return None


def shrink(plan):
    S = plan["sessions"]
    for i in range(len(S)):
        if len(S) > 1:
            yield dict(plan, sessions=S[:i] + S[i + 1:])
    for i, s in enumerate(S):
        if s["fault"]:
            yield dict(plan, sessions=S[:i] + [dict(s, fault=None)] + S[i + 1:])
        for j in range(len(s["acts"])):
            if len(s["acts"]) > 1:
                yield dict(plan, sessions=S[:i] + [dict(s, acts=s["acts"][:j] + s["acts"][j + 1:])] + S[i + 1:])
    if plan["folder"] != "out":
        yield dict(plan, folder="out")
    for k in ("split", "seconds", "gone", "relative"):
        if plan.get(k):
            yield dict(plan, **{k: None})
    for x in cases.shrink_case(plan["case"]) if plan["what"] == "track" else prelab.shrink_case(plan["case"]):
        yield dict(plan, case=x)
