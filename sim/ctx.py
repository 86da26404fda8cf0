"""Execution context of one plan: scratch folders, worlds, statistics."""
import hashlib
import json
import os
import shutil
import sys
import tempfile

from . import core, lab, worker


class Ctx:
    def __init__(self, plan, req):
        self.plan = plan
        self.base = os.environ.get("WAMSIM_BASE") or worker.scratch_base()
        self.worlds = []
        self.dirs = []
        self.probes = {}          # reach probes: name -> count
        self.hash = hashlib.sha1()
        self.trace = req.get("trace")
        self.notes = []
        self.outcome = {}         # scientific content, compared across interpreters
        self.known = []           # known findings met (ids)

    # ------------------------------------------------------------- folders
    def folder(self):
        d = tempfile.mkdtemp(prefix="wamsim.", dir=self.base)
        d2 = os.path.join(d, "w")
        os.mkdir(d2)
        self.dirs.append(d)
        return d2

    def world(self, root=None, **kw):
        root = root or self.folder()
        w = core.World(root, kw.pop("seed", self.plan.get("wseed", 1) + 1009 * len(self.worlds)), **kw)
        self.worlds.append(w)
        return w

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def mark(self, *what):
        """Fold an observation into the hash of the execution."""
        self.hash.update(repr(what).encode())

    def finish(self):
        for w in self.worlds:
            w.close()
        if os.environ.get("WAMSIM_KEEP"):
            sys.stderr.write("kept: " + " ".join(self.dirs) + "\n")
            return
        for d in self.dirs:
            if os.path.basename(d).startswith("wamsim."):
                shutil.rmtree(d, ignore_errors=True)

    def result(self):
        f, ev, sim, nodes = {}, 0, 0.0, 0
        order = hashlib.sha1()
        for w in self.worlds:
            s = w.stats()
            ev += s["events"]
            sim += s["sim_s"]
            nodes += s["nodes"]
            for k, v in s["faults"].items():
                f[k] = f.get(k, 0) + v
            self.hash.update(s["hash"].encode())
            order.update(s["order"].encode())
        r = dict(events=ev, sim_s=sim, faults=f, nodes=nodes, hash=self.hash.hexdigest(),
                 order=order.hexdigest(), probes=self.probes, worlds=len(self.worlds), known=self.known, outcome=self.outcome)
        if self.trace:
            r["trace"] = [[list(e) for e in w.events] for w in self.worlds]
            r["stderr"] = {f"{i}.{n.name}": w.stderr(n)[-3000:] for i, w in enumerate(self.worlds)
                           for n in w.nodes}
        return r


# ------------------------------------------------------------------ commands
def _reset_process():
    """What a fresh interpreter would have, and a forked one does not."""
    sys.argv = ["wam2layers"]


def cli(*args):
    """Entry point of a node: the real command line."""
    _reset_process()
    from wam2layers.cli import cli as group
    group.main(args=list(args), prog_name="wam2layers")
    return 0


def track(cfg):
    return cli("track", cfg)


def preprocess(source, cfg):
    return cli("preprocess", source, cfg)


def violation(kind, detail, **more):
    return dict(kind=kind, detail=detail, **more)


def isolated(fn, *args):
    """Run fn in a throw-away child: no file handle, lock or library state stays behind."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            blob = pickle.dumps((True, fn(*args)))
        except BaseException as e:
            try:
                blob = pickle.dumps((False, e))
                pickle.loads(blob)
            except Exception:
                blob = pickle.dumps((False, core.HarnessError(f"{type(e).__name__}: {e}")))
        while blob:
            n = os.write(w, blob)
            blob = blob[n:]
        os._exit(0)
    os.close(w)
    buf = b""
    while True:
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        raise core.HarnessError("isolated reader died")
    ok, v = pickle.loads(buf)
    if not ok:
        raise v
    return v
