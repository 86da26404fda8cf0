"""The simulator: processes, scheduling, time and faults.

A `World` owns a scratch directory and any number of simulated processes
("nodes").  A node is a forked child of a pre-imported interpreter that runs
the real command; the preloaded shim (shim.c) stops it at every file-system
operation below the scratch directory, at every sleep and at every gate opened
by the Python-level seams (seams.py).  Exactly one node executes at any time:
the World picks which one, from one seeded generator, and answers its pending
operation with `ok`, a fault or death.  Time only moves when the World says so.
"""
import ctypes
import errno as _errno
import gc
import hashlib
import json
import logging
import os
import random
import re
import select
import shutil
import signal
import struct
import sys
import time

OPS = {1: "open", 2: "write", 3: "trunc", 4: "close", 5: "read", 6: "rename",
       7: "unlink", 8: "mkdir", 9: "sleep", 10: "fsync", 11: "py", 12: "rmdir"}
ACT = {"ok": 0, "kill": 1, "torn": 2, "err": 3, "short": 4, "kill_after": 5, "int": 6}
MUTATING = {"write", "trunc", "close", "rename", "unlink", "mkdir", "rmdir", "fsync", "creat"}
TMP = re.compile(r"(\.P\d+)?\.tmp$")
PID = re.compile(r"\.(\d+)(?=[.\t]|$)")
HDR = struct.Struct("<IIqqII")
REP = struct.Struct("<iiq")

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.shim_clock_page.restype = ctypes.c_void_p
        _lib.shim_enable.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_void_p,
                                     ctypes.c_uint64, ctypes.c_uint64, ctypes.c_int]
        _lib.shim_channel.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_uint64]
        _lib.shim_py.restype = ctypes.c_int64
        _lib.shim_py.argtypes = [ctypes.c_char_p, ctypes.c_int64, ctypes.c_int64, ctypes.POINTER(ctypes.c_int64)]
        _lib.shim_present.restype = ctypes.c_int
        _lib.shim_alloc.argtypes = [ctypes.c_int64] * 3
        _lib.shim_alloc_count.restype = ctypes.c_int64
        _lib.shim_alloc_count.argtypes = [ctypes.POINTER(ctypes.c_int64)]
    return _lib


class HarnessError(Exception):
    """Something is wrong with the simulator, not with the code under test."""


class NoProgress(Exception):
    """A node neither finished nor performed an operation within its budget."""


# ---------------------------------------------------------------- node side

class _NodeSide:
    """State of the simulator inside a node (None in the World's process)."""
    active = None

    def __init__(self, world, node):
        self.world = world
        self.node = node
        self.next_spare = 0


def in_node():
    return _NodeSide.active is not None


def py_gate(what, a=0, b=0):
    """Announce a Python-level event; returns (action name, argument)."""
    arg = ctypes.c_int64(0)
    act = lib().shim_py(what.encode()[:2000], int(a), int(b), ctypes.byref(arg))
    return {v: k for k, v in ACT.items()}.get(act, str(act)), arg.value


def seed_everything(seed):
    random.seed(seed)
    np = sys.modules.get("numpy")
    if np is not None:
        np.random.seed(seed & 0xFFFFFFFF)


class Node:
    def __init__(self, world, nid, name, pid, rq, rp):
        self.world, self.id, self.name, self.pid = world, nid, name, pid
        self.rq, self.rp = rq, rp
        self.ev = None            # pending event (op, flags, a, b, path)
        self.alive = True
        self.killed = False
        self.wake = None          # simulated time at which a sleep ends
        self.waits = None         # node ids this node waits for
        self.exit = None          # dict(code=, type=, msg=)
        self.n_events = 0
        self.met, self.hold = -1, 0
        self.n_mut = 0            # mutating events so far (the clock of crash points)
        self.sleeps = []
        self.pys = []
        self.parent = None
        self.solo = self.executor = False
        self.faults = []          # faults that hit this node
        self.warnings = []
        self.again = 0            # further Ctrl-C after the first

    @property
    def ok(self):
        return self.exit is not None and self.exit["code"] == 0

    @property
    def interrupted(self):
        """Got Ctrl-C (and may have ended because of it)."""
        return any(f[3] == "int" for f in self.faults)

    @property
    def stopped(self):
        """Killed, or ended unsuccessfully after Ctrl-C."""
        return self.killed or (self.interrupted and not self.ok)

    def describe(self):
        if self.killed:
            return "killed"
        if self.exit is None:
            return "no exit"
        if self.exit["code"] == 0:
            return "exit 0"
        return f"exit {self.exit['code']} ({self.exit.get('type')}: {self.exit.get('msg', '')[:160]})"


class World:
    SPARES = 8

    def __init__(self, root, seed, *, faults=(), schedule=None, start=1_700_000_000.0,
                 dir_seed=1, gate_reads=False, jumps=(), tick=True, max_events=150_000,
                 remote=None):
        self.root = root
        self.seed = seed
        self.rng = random.Random(seed * 1000003 + 17)      # schedule and time
        self.faults = [dict(f) for f in faults]
        for f in self.faults:
            f.setdefault("count", 0)
            f.setdefault("fired", 0)
        self.schedule = schedule or {"mode": "seq"}
        self.switch = {int(k): v for k, v in self.schedule.get("switch", [])}
        self.gate_reads = gate_reads
        self.dir_seed = dir_seed
        self.jumps = {int(k): float(v) for k, v in jumps}
        self.tick = tick
        self.max_events = max_events
        self.nodes = []
        self.events = []
        self.hash = hashlib.sha1()
        self.order_hash = hashlib.sha1()
        self.choices = []
        self.current = None
        self.page = lib().shim_clock_page()
        self.clk = (ctypes.c_int64 * 3).from_address(self.page)
        self.clk[0] = int(start * 1e9)
        self.clk[1] = 5_000_000_000_000
        self.start_mono = self.clk[1]
        self.observe = None          # called with (node, kind, path) before each operation
        self.remote = remote       # callable(node, what, a, b) -> (action, arg) for Python gates
        self.fault_counts = {}
        self.queues = {}
        self.log_text = []
        os.makedirs(root, exist_ok=True)
        self.side = root + ".side"     # ungated: stderr, pool results
        os.makedirs(self.side, exist_ok=True)

    # -------------------------------------------------------------- spawning
    def spawn(self, fn, *args, name=None, cwd=None, seed=0, parent=None, alloc=None):
        """alloc: None, or (least size, first failing allocation or -1, number of failing allocations)."""
        nid = len(self.nodes)
        name = name or f"n{nid}"
        chans = [os.pipe() + os.pipe() for _ in range(1 + self.SPARES)]
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            self._child(fn, args, nid, name, chans, cwd, seed, alloc)
            os._exit(121)
        for q in chans:
            os.close(q[1]); os.close(q[2])
        a, _, _, d = chans[0]
        node = Node(self, nid, name, pid, a, d)
        node.spares = [(q[0], q[3]) for q in chans[1:]]
        self.nodes.append(node)
        self._await(node)
        return node

    def _child(self, fn, args, nid, name, chans, cwd, seed, alloc):
        code, info, mem = 1, {}, {}
        try:
            signal.signal(signal.SIGINT, signal.default_int_handler)
            fd = os.open(f"{self.side}/err.{nid}", os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o644)
            os.dup2(fd, 1); os.dup2(fd, 2); os.close(fd)
            lib().prctl(1, signal.SIGKILL, 0, 0, 0)       # die with the World
            for n in self.nodes:
                for f in ([n.rq, n.rp] if n.alive else []) + [f for q in n.spares for f in q]:
                    try:
                        os.close(f)
                    except OSError:
                        pass
            a, b, c, d = chans[0]
            os.close(a); os.close(d)
            # spare channels: keep node ends only
            self._spare_ends = [(q[1], q[2]) for q in chans[1:]]
            for q in chans[1:]:
                os.close(q[0]); os.close(q[3])
            if cwd:
                os.chdir(cwd)
            # a fresh process has none of the simulator's handlers
            _NodeSide.active = _NodeSide(self, nid)
            _NodeSide.active.spares = self._spare_ends
            _NodeSide.active.exit_code = None
            seed_everything(self.seed * 7919 + nid * 104729 + seed)
            lib().shim_enable(b, c, self.root.encode(), self.page,
                              (self.seed * 31 + nid * 7 + seed) & (2**63 - 1), self.dir_seed, int(self.gate_reads))
            py_gate("start:" + name)
            try:
                if alloc:
                    lib().shim_alloc(*alloc)
                try:
                    code = fn(*args) or 0
                finally:
                    if alloc:
                        fired = ctypes.c_int64(0)
                        n = lib().shim_alloc_count(ctypes.byref(fired))
                        lib().shim_alloc(2**62, -1, 0)
                        mem = {"allocs": n, "alloc_fired": fired.value}
            except SystemExit as e:
                c_ = e.code
                code = 0 if c_ is None else (c_ if isinstance(c_, int) else 1)
                if code:
                    info = {"type": "SystemExit", "msg": str(c_)[:400]}
            except BaseException as e:
                import traceback
                traceback.print_exc()
                sys.stderr.flush()
                code, info = 1, {"type": type(e).__name__, "msg": str(e)[:900]}
            try:
                logging.shutdown()
            except BaseException:
                pass
            py_gate("exit:" + json.dumps({"code": code, **mem, **info})[:1900])
        except BaseException:
            import traceback
            traceback.print_exc()
            os._exit(122)
        os._exit(code if 0 <= code < 100 else 1)

    # ------------------------------------------------- receiving operations
    def _read_exact(self, node, n):
        buf = b""
        cpu0 = None
        waited = 0.0
        asleep = 0
        while len(buf) < n:
            slice_ = 0.2 if node.interrupted else 2.0
            r, _, _ = select.select([node.rq], [], [], slice_)
            if not r:
                waited += slice_
                if node.interrupted:
                    # a lock that the interrupted code never released (a single thread cannot wake itself): the user
                    # presses Ctrl-C once more
                    now = self._asleep(node.pid)
                    asleep = asleep + 1 if now is not None and (not asleep or now == was) else 0
                    was = now
                    if asleep >= 5 and node.again < 5:
                        node.again += 1
                        asleep = 0
                        self.count("second interrupt of a blocked process")
                        os.kill(node.pid, signal.SIGINT)
                        continue
                cpu = self._cpu(node.pid)
                if cpu is None:
                    return None
                if cpu0 is None:
                    cpu0 = cpu
                if cpu - cpu0 > 60.0:
                    raise NoProgress(f"{node.name} used 60 s of CPU without performing an operation")
                if waited > 600:
                    raise HarnessError(f"node {node.name} blocked for 600 s outside the simulator")
                continue
            d = os.read(node.rq, n - len(buf))
            if not d:
                return None
            buf += d
        return buf

    @staticmethod
    def _asleep(pid):
        """CPU ticks used so far if the process is sleeping, else None."""
        try:
            with open(f"/proc/{pid}/stat") as f:
                p = f.read().rsplit(")", 1)[1].split()
            return int(p[11]) + int(p[12]) if p[0] == "S" else None
        except OSError:
            return None

    @staticmethod
    def _cpu(pid):
        try:
            with open(f"/proc/{pid}/stat") as f:
                p = f.read().rsplit(")", 1)[1].split()
            if p[0] == "Z":
                return None
            return (int(p[11]) + int(p[12])) / os.sysconf("SC_CLK_TCK")
        except OSError:
            return None

    def _await(self, node):
        """Wait for the node's next operation, or for its end."""
        h = self._read_exact(node, HDR.size)
        if h is None:
            self._reap(node)
            return
        op, flags, a, b, plen, _ = HDR.unpack(h)
        path = (self._read_exact(node, plen) or b"").decode(errors="replace") if plen else ""
        if path:
            # process numbers differ from one execution to the next; "name.<pid>.tmp" must not
            path = PID.sub(self._pid, path)
        node.ev = (OPS.get(op, str(op)), flags, a, b, path)
        node.n_events += 1

    def _pid(self, m):
        return next((f".P{n.id}" for n in self.nodes if n.pid == int(m[1])), m[0])

    def _reap(self, node):
        node.alive = False
        node.ev = None
        for fd in (node.rq, node.rp):
            try:
                os.close(fd)
            except OSError:
                pass
        if node.parent is None:
            _, st = os.waitpid(node.pid, 0)
            for q in getattr(node, "spares", []):
                for fd in q:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
            node.spares = []
            if node.exit is None and not node.killed:
                if os.WIFSIGNALED(st):
                    node.exit = {"code": 128 + os.WTERMSIG(st), "type": "Signal",
                                 "msg": f"died of signal {os.WTERMSIG(st)}"}
                else:
                    raise HarnessError(f"node {node.name} ended without exit report: status {st}: "
                                       + self.stderr(node)[-600:])
            elif os.WIFSIGNALED(st) and not node.killed and node.exit.get("code") == 0:
                node.exit = {"code": 128 + os.WTERMSIG(st), "type": "Signal", "msg": "died at exit"}
        else:
            if node.exit is None and not node.killed:
                node.exit = {"code": 1, "type": "PoolWorkerDied", "msg": ""}

    # ------------------------------------------------------------ scheduling
    def now(self):
        return (self.clk[1] - self.start_mono) / 1e9

    def _runnable(self):
        out = []
        for n in self.nodes:
            if not n.alive or n.ev is None:
                continue
            if n.wake is not None and n.wake > self.clk[1]:
                continue
            if n.waits is not None:
                if any(self.nodes[k].alive for k in n.waits):
                    continue
            out.append(n)
        return out

    def _pick(self, run):
        if len(run) == 1:
            return run[0]
        m = self.schedule.get("mode", "seq")
        ids = [n.id for n in run]
        k = len(self.choices)
        if m == "switch":
            want = self.switch.get(k)
            if want is None or want not in ids:
                want = self.current if self.current in ids else ids[0]
            c = want
        elif m == "random":
            # sticky random walk: keep going for a while, then switch
            if self.current in ids and self.rng.random() < self.schedule.get("sticky", 0.5):
                c = self.current
            else:
                c = self.rng.choice(ids)
        elif m == "pct":
            pr = self.schedule.setdefault("_prio", {})
            for i in ids:
                if i not in pr:
                    pr[i] = self.rng.random()
            if self.rng.random() < self.schedule.get("change", 0.02):
                pr[self.current if self.current in ids else ids[0]] = -self.rng.random()
            c = max(ids, key=lambda i: pr[i])
        elif m == "meet":
            # whoever is about to change a file waits a while for another to arrive at the same file
            at = {n.id: self._target(n) for n in run}
            met = [i for i in ids if at[i] is not None and sum(at[i] == at[j] for j in ids) > 1]
            free = []
            for n in run:
                if at[n.id] is not None and n.met != n.n_events:
                    n.met, n.hold = n.n_events, self.rng.choice([0, 4, 20, 60])
                if at[n.id] is None or n.hold <= 0:
                    free.append(n.id)
                else:
                    n.hold -= 1
            c = self.rng.choice(met or free or ids)
            if not met and self.current in free and self.rng.random() < self.schedule.get("sticky", 0.5):
                c = self.current
        else:
            c = self.current if self.current in ids else ids[0]
        self.choices.append(c)
        return self.nodes[c]

    @staticmethod
    def _target(n):
        op, flags, _, _, path = n.ev
        if op in ("mkdir", "rename", "unlink") or op == "open" and flags & (os.O_CREAT | os.O_TRUNC):
            return None if path.endswith(".log") else TMP.sub("", path.rpartition("\t")[2])
        return None

    def run(self, until=None):
        while True:
            live = [n for n in self.nodes if n.alive]
            if not live:
                return
            if until is not None and until():
                return
            run = self._runnable()
            if not run:
                wakes = [n.wake for n in live if n.wake is not None and n.waits is None]
                if not wakes:
                    raise HarnessError("deadlock: " + ", ".join(f"{n.name}:{n.ev}" for n in live))
                self._advance(min(wakes) - self.clk[1])
                continue
            self.step(self._pick(run))

    def _advance(self, ns):
        if ns > 0:
            self.clk[0] += ns
            self.clk[1] += ns

    def step(self, node):
        """Answer the pending operation of `node` and let it run to its next one."""
        self.current = node.id
        op, flags, a, b, path = node.ev
        if len(self.events) >= self.max_events:
            raise NoProgress(f"{len(self.events)} operations without all commands finishing")
        if self.tick:
            self._advance(self.rng.randrange(20_000, 400_000))
        j = self.jumps.get(len(self.events))
        if j is not None:
            self.clk[0] += int(j * 1e9)
            self.count("clock jump")
        kind = op
        if op == "open":
            kind = "creat" if flags & (os.O_CREAT | os.O_TRUNC) else ("open_w" if flags & 3 else "open_r")
        mut = kind in MUTATING
        if self.observe is not None:
            self.observe(node, kind, path)
        act, arg, first = "ok", 0, True
        if op == "sleep" and node.wake is None:
            node.sleeps.append((self.now(), a / 1e9))
            node.wake = self.clk[1] + a
            self._record(node, "sleep", path, a, 0, "ok")
            if node.wake > self.clk[1]:
                return            # becomes runnable again when the clock gets there
        if op == "sleep":
            node.wake = None
        elif op == "py":
            act, arg, done = self._py(node, path, a, b)
            if not done:
                return
        if op != "sleep" and not path.startswith(("start:", "exit:", "pool_")):
            f = self._fault(node, kind, path, a, b, mut)
            if f is not None:
                act, arg = f
        if mut:
            node.n_mut += 1
        self._record(node, kind, path, a, b, act if act in ("ok",) else f"{act}:{arg}")
        self._reply(node, act, arg)

    def _reply(self, node, act, arg):
        code = ACT[act] if isinstance(act, str) else act
        if code in (ACT["kill"], ACT["torn"], ACT["kill_after"]):
            self._doom(node)
        node.ev = None
        try:
            os.write(node.rp, REP.pack(code, 0, int(arg)))
        except BrokenPipeError:
            pass
        self._await(node)
        if node.killed and node.alive:
            raise HarnessError(f"{node.name} survived its death")
        if node.killed and node.solo:
            self._worker_died(node)
        elif node.killed:
            self._kill_tree(node)

    def _worker_died(self, node):
        """Only a pool worker died (out-of-memory killer): an executor notices and
        ends the other workers; a plain Pool does not."""
        if node.executor:
            for n in self.nodes:
                if n.alive and n.parent == node.parent and n.executor:
                    n.solo = True
                    self.kill(n)

    def _doom(self, node):
        node.killed = True

    def _kill_tree(self, node):
        for n in self.nodes:
            if n.alive and n.parent is not None and (n.parent == node.id or node.parent == n.parent):
                self.kill(n)
        if node.parent is not None and self.nodes[node.parent].alive:
            self.kill(self.nodes[node.parent])

    def kill(self, node):
        """Kill a parked node (and its pool workers) now."""
        if not node.alive:
            return
        node.killed = True
        node.ev = None
        try:
            os.kill(node.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        while True:
            d = os.read(node.rq, 65536)
            if not d:
                break
        self._reap(node)
        self._record(node, "killed", "", 0, 0, "kill")
        if not node.solo:
            self._kill_tree(node)

    def _record(self, node, kind, path, a, b, act):
        self.events.append((node.id, kind, path, a, b, act))
        t = path if not path.endswith(".log") else "log"
        if kind in ("write", "trunc") and path.endswith(".log"):
            a = b = 0
        if path.startswith("exit:"):
            t = path[:12]
        self.hash.update(f"{node.id}|{kind}|{t}|{a}|{b}|{act}\n".encode())
        self.order_hash.update(f"{node.id}|{kind}|{t.split('?')[0]}\n".encode())

    def count(self, kind, n=1):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + n

    # ---------------------------------------------------------------- faults
    def _fault(self, node, kind, path, a, b, mut):
        hit = None
        for f in self.faults:
            if f.get("node") is not None and f["node"] not in (node.id, node.name):
                continue
            if f.get("done") and not f.get("sticky"):
                continue
            k = f.get("kind", "mut")
            if k == "mut":
                if not mut:
                    continue
            elif k == "any":
                pass
            elif kind not in k.split("|"):
                continue
            if f.get("path") and f["path"] not in path:
                continue
            if f.get("notpath") and f["notpath"] in path:
                continue
            n = f["count"]
            f["count"] += 1
            if n < f.get("at", 0):
                continue
            if f.get("times") and f["fired"] >= f["times"]:
                continue
            if hit is not None:
                continue
            f["done"] = True
            f["fired"] += 1
            act = f["act"]
            arg = f.get("arg", 0)
            if act == "torn":
                if kind != "write":
                    act = "kill"
                else:
                    arg = int(f.get("frac", 0.5) * b)
            elif act == "short":
                if kind not in ("write", "read"):
                    continue
                arg = max(1, int(f.get("frac", 0.5) * b))
                if arg >= b:
                    continue
            elif act == "err" and isinstance(arg, str):
                arg = getattr(_errno, arg)
            if f.get("solo") and node.parent is not None:
                node.solo = True
            if act == "kill" and f.get("after"):
                act = "kill_after"
            label = {"kill": "kill before operation", "kill_after": "kill after operation",
                     "torn": "kill inside a write (torn)", "short": "short " + kind,
                     "int": "interrupt (SIGINT)"}.get(act)
            if label is None:
                label = f"{_errno.errorcode.get(arg, arg)} on {kind}" if act == "err" else act
            if node.solo:
                label += ", one worker only"
            self.count(label)
            node.faults.append((len(self.events), kind, path, act, arg))
            hit = (act, arg)
        return hit

    # ------------------------------------------------------ Python-level gates
    def _py(self, node, what, a, b):
        """Returns (action, arg, answered?)."""
        tag, _, rest = what.partition(":")
        if tag == "exit":
            node.exit = json.loads(rest) if rest.endswith("}") else {"code": 1, "type": "?", "msg": rest}
            return "ok", 0, True
        if tag == "pool_spawn":          # a = channel index, b = pid
            q = node.spares[a]
            child = Node(self, len(self.nodes), f"{node.name}.w{a}", b, q[0], q[1])
            child.parent = node.id
            child.executor = rest == "executor"
            child.spares = []
            node.spares[a] = ()
            self.nodes.append(child)
            self._record(node, "pool_spawn", "", a, 0, "ok")
            self._await(child)           # it parks at its first gate
            node.pool_children = getattr(node, "pool_children", []) + [child.id]
            self._reply(node, "ok", 0)
            return "ok", 0, False
        if tag == "hang":
            raise NoProgress(f"{node.name}: {rest}")
        if tag == "pool_join":
            if node.waits is None:
                node.waits = list(getattr(node, "pool_children", []))
                if any(self.nodes[k].alive for k in node.waits):
                    return "ok", 0, False
            node.waits = None
            node.pool_children = []
            return "ok", 0, True
        if tag == "pool_get":            # FIFO task queue shared by the workers of one pool
            p = self.nodes[node.parent]
            key = (p.id, int(rest))
            i = self.queues.get(key, 0)
            self.queues[key] = i + 1
            return "ok", i, True
        node.pys.append((what, a, b))
        if self.remote is not None:
            r = self.remote(node, what, a, b)
            if r is not None:
                return r[0], r[1], True
        return "ok", 0, True

    # ------------------------------------------------------------- utilities
    def stderr(self, node):
        try:
            with open(f"{self.side}/err.{node.id}", errors="replace") as f:
                return f.read()
        except OSError:
            return ""

    def close(self):
        for n in self.nodes:
            if n.alive:
                self.kill(n)

    def destroy(self):
        self.close()
        for d in (self.root, self.side):
            if d.startswith(("/tmp/wamsim.", "/dev/shm/wamsim.")):
                shutil.rmtree(d, ignore_errors=True)

    def stats(self):
        return dict(events=len(self.events), sim_s=self.now(), faults=dict(self.fault_counts),
                    hash=self.hash.hexdigest(), order=self.order_hash.hexdigest(),
                    nodes=len(self.nodes))
