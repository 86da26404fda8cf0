"""Python-level seams, installed before wam2layers is imported.

Each one replaces a library entry point the shipped code calls by name
(xarray.open_dataset on a URL, xarray.open_zarr, multiprocessing pools,
requests' transport, psutil's memory reading).  Outside a simulated node they
behave as the original.
"""
import io
import os
import pickle
import sys

from . import core

URL = "http://sim.opendap.test/"


# --------------------------------------------------------- remote data (DAP)
class SimDapIndexError(IndexError):
    pass


def install_xarray():
    import xarray as xr
    import xarray.backends.api as api
    orig = xr.open_dataset

    def open_dataset(filename_or_obj, *args, **kw):
        name = filename_or_obj
        if core.in_node() and isinstance(name, (str, os.PathLike)):
            s = str(name)
            # pathlib would collapse the double slash of a URL
            if s.startswith(("http://", "https://", "http:/", "https:/")):
                act, arg = core.py_gate("dap:" + s)
                raise_for(act, arg, s)
                local = core._NodeSide.active.world.dap_local(s)
                if not os.path.exists(local):
                    raise OSError(-90, "NetCDF: file not found", s)
                return orig(local, *args, **kw)
        return orig(filename_or_obj, *args, **kw)

    def raise_for(act, arg, s):
        if act == "ok":
            return
        if arg == 1:
            raise IndexError("The indexing operation you are attempting to perform is not valid "
                             "on netCDF4.Variable object. (simulated spurious OPeNDAP failure)")
        if arg == 2:
            raise OSError(-72, "NetCDF: Malformed or inaccessible DAP2 DDS or DAP4 DMR response", s)
        if arg == 3:
            raise OSError(-68, "NetCDF: I/O failure", s)
        if arg == 4:
            raise RuntimeError("NetCDF: DAP failure")
        if arg == 5:
            raise KeyError("s_upper")
        raise PermissionError(-77, "NetCDF: Access failure", s)

    open_dataset.__wrapped__ = orig
    xr.open_dataset = open_dataset
    api.open_dataset = open_dataset

    orig_zarr = xr.open_zarr

    def open_zarr(store, *args, **kw):
        if core.in_node() and str(store).startswith("gs:"):
            act, arg = core.py_gate("zarr:" + str(store))
            if act != "ok":
                raise OSError(110, "simulated: connection to object store timed out")
            local = core._NodeSide.active.world.zarr_local
            ds = orig(local, engine="netcdf4", use_cftime=kw.get("use_cftime"))
            return ds
        return orig_zarr(store, *args, **kw)

    xr.open_zarr = open_zarr
    try:
        import dask
        dask.config.set(scheduler="synchronous")
        deterministic_tokens(api)
    except ImportError:
        pass
    return orig


def deterministic_tokens(api):
    """dask runs tasks in the order of their names, which hold a hash of the file's path and time of change."""
    import itertools
    import dask.base
    real, mtime, opened = dask.base.tokenize, api._get_mtime, itertools.count()

    def tokenize(*args, **kw):
        if core.in_node():
            root = core._NodeSide.active.world.root
            args = tuple(str(a).replace(root, "") if isinstance(a, (str, os.PathLike)) else a for a in args)
        return real(*args, **kw)

    dask.base.tokenize = tokenize
    api._get_mtime = lambda f: next(opened) if core.in_node() else mtime(f)


# ------------------------------------------------------------- worker pools
class RemoteTraceback(Exception):
    def __init__(self, tb):
        self.tb = tb

    def __str__(self):
        return self.tb


class _Result:
    def __init__(self, ok, value):
        self._ok, self._v = ok, value

    def get(self, timeout=None):
        if self._ok:
            return self._v
        raise self._v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self._ok


class SimPool:
    """multiprocessing.pool.Pool with the scheduling left to the World.

    Same contract: tasks are cut in chunks, pickled, handed to worker processes
    first-in-first-out, exceptions travel back pickled, the first failure is
    raised after all chunks are done, and a failing chunk drops its remainder.
    """

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._n = processes or 4        # a simulated four-core machine
        self._init = (initializer, initargs)
        self._closed = False
        self._gen = 0

    # -- public API
    def map(self, func, it, chunksize=None):
        return self._do(func, [(x,) for x in it], chunksize)

    def starmap(self, func, it, chunksize=None):
        return self._do(func, [tuple(x) for x in it], chunksize)

    def map_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        return self._async(func, [(x,) for x in it], chunksize, callback, error_callback)

    def starmap_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        return self._async(func, [tuple(x) for x in it], chunksize, callback, error_callback)

    def imap(self, func, it, chunksize=1):
        ok, res = self._raw(func, [(x,) for x in it], chunksize)
        return self._iter(res)

    imap_unordered = imap

    @staticmethod
    def _iter(res):
        for ok, v in res:
            if not ok:
                raise v
            yield v

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        kwds = kwds or {}
        r = self._async(_Call(func, kwds), [tuple(args)], 1, None, error_callback)
        if r._ok:
            r._v = r._v[0]
            if callback:
                callback(r._v)
        return r

    def close(self):
        self._closed = True

    def terminate(self):
        self._closed = True

    def join(self):
        if not self._closed:
            raise ValueError("Pool is still running")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    # -- machinery
    def _async(self, func, tasks, chunksize, callback, error_callback):
        try:
            v = self._do(func, tasks, chunksize)
        except Exception as e:
            if error_callback:
                error_callback(e)
            return _Result(False, e)
        if callback:
            callback(v)
        return _Result(True, v)

    def _do(self, func, tasks, chunksize):
        ok, res = self._raw(func, tasks, chunksize)
        bad = [v for o, v in res if not o]
        if bad:
            raise bad[0]
        return [v for _, v in res]

    def _raw(self, func, tasks, chunksize, executor=False):
        if self._closed:
            raise ValueError("Pool not running")
        if not tasks:
            return True, []
        if chunksize is None:
            chunksize, extra = divmod(len(tasks), self._n * 4)
            if extra:
                chunksize += 1
        chunks = [tasks[i:i + chunksize] for i in range(0, len(tasks), chunksize)]
        side = core._NodeSide.active
        self._gen += 1
        gen = side.next_gen = getattr(side, "next_gen", 0) + 1
        base = f"{side.world.side}/pool.{side.node}.{gen}"
        payload = [pickle.dumps((func, c)) for c in chunks]
        n = min(self._n, len(chunks) + 1, len(side.world_spares()))
        sys.stdout.flush(); sys.stderr.flush()
        for _ in range(n):
            k = side.next_spare
            side.next_spare += 1
            w, r = side.spares[k]
            pid = os.fork()
            if pid == 0:
                self._worker(side, k, w, r, gen, base, payload)
                os._exit(0)
            os.close(w); os.close(r)
            core.lib().shim_py(b"pool_spawn:" + (b"executor" if executor else b""), k, pid, None)
        core.py_gate("pool_join:")
        out = []
        for i, c in enumerate(chunks):
            try:
                with open(f"{base}.{i}", "rb") as f:
                    ok, vals = pickle.loads(f.read())
            except Exception as e:
                if executor:
                    from concurrent.futures.process import BrokenProcessPool
                    out.append((False, BrokenProcessPool("A process in the process pool was terminated abruptly while "
                                                         "the future was running or pending.")))
                    continue
                core.py_gate(f"hang:waits for ever for the result of pool task {i}: {type(e).__name__}")
                raise
            if ok:
                out += [(True, v) for v in vals]
            else:
                out.append((False, vals))
        return True, out

    def _worker(self, side, k, w, r, gen, base, payload):
        core.lib().prctl(1, 9, 0, 0, 0)
        for j, (a, b) in enumerate(side.spares):
            if j > k:
                os.close(a); os.close(b)
        core.lib().shim_channel(w, r, side.world.seed * 1009 + k)
        # forked workers inherit the parent's random state, as on Linux
        core.py_gate(f"start:w{k}")
        side.is_worker = True
        if self._init[0]:
            self._init[0](*self._init[1])
        while True:
            _, i = core.py_gate(f"pool_get:{gen}")
            if i >= len(payload):
                break
            func, chunk = pickle.loads(payload[i])
            try:
                res = (True, [func(*t) for t in chunk])
            except Exception as e:
                import traceback
                traceback.print_exc()
                res = (False, e)
            try:
                blob = pickle.dumps(res)
                pickle.loads(blob)
            except Exception as e:
                from multiprocessing.pool import MaybeEncodingError
                blob = pickle.dumps((False, MaybeEncodingError(e, res[1])))
            with open(f"{base}.{i}", "wb") as f:
                f.write(blob)
        core.py_gate('exit:{"code": 0}')
        os._exit(0)


class _Call:
    def __init__(self, f, kw):
        self.f, self.kw = f, kw

    def __call__(self, *a):
        return self.f(*a, **self.kw)


def install_pool():
    import multiprocessing
    import multiprocessing.context
    import multiprocessing.pool as mp

    real = mp.Pool

    def factory(*a, **kw):
        return SimPool(*a, **kw) if core.in_node() else real(*a, **kw)

    mp.Pool = factory
    multiprocessing.Pool = factory
    multiprocessing.context.BaseContext.Pool = lambda self, *a, **kw: factory(*a, **kw)

    import concurrent.futures as cf
    real_ex = cf.ProcessPoolExecutor

    class SimExecutor:
        def __init__(self, max_workers=None, *a, **kw):
            self._tasks = []
            self._n = max_workers

        def submit(self, fn, *args, **kw):
            f = cf.Future()
            self._tasks.append((f, _Call(fn, kw), args))
            f._sim = self
            orig = f.result
            f.result = lambda timeout=None: (self._flush(), orig())[1]
            f.exception_ = f.exception
            return f

        def map(self, fn, *its, timeout=None, chunksize=1):
            fs = [self.submit(fn, *t) for t in zip(*its)]
            self._flush()
            return (f.result() for f in fs)

        def _flush(self):
            tasks, self._tasks = self._tasks, []
            if not tasks:
                return
            _, res = SimPool(self._n)._raw(_invoke, [(f_, a) for _, f_, a in tasks], 1, executor=True)
            for (fut, _, _), (ok, v) in zip(tasks, res):
                fut.set_result(v) if ok else fut.set_exception(v)

        def shutdown(self, wait=True, cancel_futures=False):
            self._flush()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.shutdown()

    def ex_factory(*a, **kw):
        return SimExecutor(*a, **kw) if core.in_node() else real_ex(*a, **kw)

    import concurrent.futures.process as cfp
    cf.ProcessPoolExecutor = cfp.ProcessPoolExecutor = ex_factory


def _invoke(f, a):
    return f(*a)


# -------------------------------------------------------------------- HTTP
class _Sock:
    """What http.client needs of a socket: a readable byte stream."""

    def __init__(self, raw):
        self.raw = raw

    def makefile(self, *a, **k):
        return self.raw

    def close(self):
        pass


class _Stream(io.RawIOBase):
    """Body bytes; may end early, reset, or stall at a given position."""

    def __init__(self, data, cut=None, err=None):
        self.data, self.pos = data, 0
        self.cut, self.err = cut, err

    def readable(self):
        return True

    def readinto(self, b):
        end = len(self.data) if self.cut is None else min(self.cut, len(self.data))
        n = min(len(b), end - self.pos, 8192)
        if n <= 0:
            if self.err and self.pos >= end:
                raise self.err
            return 0
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


def install_requests():
    import http.client
    import requests
    from requests.adapters import HTTPAdapter
    from urllib3.response import HTTPResponse
    orig = HTTPAdapter.send

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        if not core.in_node():
            return orig(self, request, stream, timeout, verify, cert, proxies)
        act, arg = core.py_gate("http:" + request.url, 0, 0)
        server = core._NodeSide.active.world.http_server
        spec = server.respond(request.url, dict(request.headers), arg)
        if spec.get("error") == "refused":
            raise requests.exceptions.ConnectionError(f"simulated: connection refused: {request.url}", request=request)
        if spec.get("error") == "timeout":
            raise requests.exceptions.ConnectTimeout("simulated: connection timed out", request=request)
        raw = io.BufferedReader(_Stream(spec["bytes"], spec.get("cut"),
                                        ConnectionResetError(104, "simulated: reset by peer")
                                        if spec.get("reset") else None))
        h = http.client.HTTPResponse(_Sock(raw), method=request.method)
        try:
            h.begin()
        except (http.client.HTTPException, OSError) as e:
            raise requests.exceptions.ConnectionError(f"simulated: {e!r}", request=request)
        resp = HTTPResponse(body=h, headers=list(h.headers.items()), status=h.status, reason=h.reason,
                            version=h.version, preload_content=False, decode_content=False,
                            original_response=h, request_method=request.method,
                            enforce_content_length=True)
        if not stream:
            pass    # requests reads .content itself, through the same stream
        return self.build_response(request, resp)

    HTTPAdapter.send = send


def install_misc():
    import psutil
    real = psutil.Process.memory_info

    def memory_info(self):
        m = real(self)
        return m._replace(rss=256 * 1024 * 1024) if core.in_node() else m

    psutil.Process.memory_info = memory_info
    core._NodeSide.world_spares = lambda self: self.spares[self.next_spare:]


def install():
    install_xarray()
    install_pool()
    install_requests()
    install_misc()
