"""A pre-imported interpreter that executes plans, each in a forked director.

Started by check.py with the shim preloaded.  Reads one JSON plan per line on
stdin, answers one JSON result per line on fd 3.
"""
import gc
import importlib
import json
import os
import select
import signal
import sys
import tempfile
import time
import traceback
import warnings


def scratch_base():
    d = "/dev/shm"
    try:
        st = os.statvfs(d)
        if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > (256 << 20):
            return d
    except OSError:
        pass
    return "/tmp"


def preload(repo):
    os.environ["MPLBACKEND"] = "Agg"
    warnings.filterwarnings("ignore")
    import numpy, pandas, xarray, netCDF4, cftime, yaml, pydantic, click, psutil  # noqa
    import requests, threddsclient, shapefile, scipy.interpolate  # noqa
    try:
        import dask, dask.array  # noqa
    except ImportError:
        pass
    import importlib.metadata  # noqa
    from . import seams
    seams.install()
    # compiled files of the code under test: never read stale ones, never write into /repo
    sys.pycache_prefix = os.environ["WAMSIM_SCRATCH"] + "/pyc"
    sys.path.insert(0, os.path.join(repo, "src"))
    import wam2layers.cli  # noqa
    f = os.path.realpath(wam2layers.__file__)
    if not f.startswith(os.path.realpath(repo) + os.sep):
        raise RuntimeError(f"wam2layers imported from {f}, not from {repo}")
    import xarray as xr
    from . import lab
    # touch lazily imported machinery once, so that nodes do not pay for it
    with tempfile.TemporaryDirectory(dir=os.environ["WAMSIM_SCRATCH"]) as d:
        p = os.path.join(d, "x.nc")
        ds = xr.Dataset({"a": (("time", "latitude"), numpy.zeros((1, 2)))},
                        coords={"time": [cftime.DatetimeGregorian(2000, 1, 1)], "latitude": [1.0, 0.0]})
        ds.to_netcdf(p)
        xr.open_dataset(p, engine="netcdf4", use_cftime=True).load().close()
        xr.open_dataset(p, use_cftime=True).load().close()
    gc.collect()
    gc.freeze()


def director(line, wfd):
    req = json.loads(line)
    plan = req["plan"]
    try:
        from . import ctx as C
        mod = importlib.import_module("sim.props." + plan["prop"].lower())
        c = C.Ctx(plan, req)
        t0 = time.time()
        try:
            v = mod.execute(plan, c)
            res = {"violation": v}
        finally:
            c.finish()
        res.update(c.result())
        res["wall"] = time.time() - t0
    except BaseException as e:
        res = {"error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-3000:]}
        if type(e).__name__ == "NoProgress":
            res = {"violation": {"kind": "no-progress", "detail": str(e)}}
            try:
                res.update(c.result())
            except Exception:
                pass
    data = json.dumps(res).encode() + b"\n"
    while data:
        n = os.write(wfd, data)
        data = data[n:]
    os._exit(0)


def main():
    repo = os.environ["WAMSIM_REPO"]
    out = 3
    preload(repo)
    os.write(out, b'{"ready": 1}\n')
    inp = sys.stdin.buffer
    while True:
        line = inp.readline()
        if not line:
            break
        timeout = json.loads(line).get("timeout", 240)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.close(out)
            os.setpgid(0, 0)
            from . import core
            core.lib().prctl(1, signal.SIGKILL, 0, 0, 0)
            director(line, w)
            os._exit(0)
        os.close(w)
        buf = b""
        end = time.monotonic() + timeout
        while True:
            left = end - time.monotonic()
            if left <= 0:
                buf = None
                break
            rr, _, _ = select.select([r], [], [], left)
            if rr:
                d = os.read(r, 1 << 16)
                if not d:
                    break
                buf += d
        if buf is None:
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            buf = json.dumps({"error": f"timeout after {timeout} s"}).encode() + b"\n"
        os.close(r)
        os.waitpid(pid, 0)
        if not buf.endswith(b"\n"):
            buf = json.dumps({"error": "director died"}).encode() + b"\n"
        d = buf
        while d:
            n = os.write(out, d)
            d = d[n:]


if __name__ == "__main__":
    main()
