"""Shared parts of the preprocessing properties."""
from .. import prelab
from ..ctx import isolated, preprocess, violation
from . import hist

REAL = ["wam2layers command line, configuration, preprocessing of ERA5, ARCO-ERA5 and CMIP data, logging",
        "xarray, NumPy, SciPy, pandas, cftime, netCDF4/HDF5, dask (synchronous), pydantic, click",
        "the file system below the scratch folder"]
STUB = ["process scheduling, clocks, sleeping, randomness, directory order (simulator)",
        "multiprocessing pool: same contract, workers are simulated processes scheduled by the simulator",
        "the ARCO object store: a local data set behind xarray.open_zarr"]


def spawn(c, w, case, name="pre", out="pp", cfg=None, alloc=None, **over):
    """One preprocessing command of the case in world w."""
    w.zarr_local = w.root + "/raw/arco.nc"
    cfg = cfg or prelab.config(case, w.root, name=f"{name}.yaml", out=out, **over)
    return w.spawn(preprocess, prelab.COMMAND[case["source"]], cfg, name=name, cwd=w.root, alloc=alloc)


def check(case, folder, version=0, partial=False):
    v = isolated(prelab.check_store, case, folder, version, partial)
    return violation(*v) if v else None


def complete(case, folder, version=0):
    return isolated(prelab.complete_days, case, folder, version)


def store(case, folder):
    return isolated(prelab.store, case, folder)


def probes(c, case):
    c.probe(case["source"])
    c.probe(case["level_type"])
    if case.get("tcw"):
        c.probe("tcw")
    if case["lon0"] + (case["nx"] - 1) * case["dlon"] > 180:
        c.probe("shifted longitudes")
    if len(prelab.by_day(case)) > 1:
        c.probe("several days")
    if case.get("packed"):
        c.probe("packed")
    if case["cal"] not in ("standard", "proleptic_gregorian"):
        c.probe("other calendar")


def shrink(plan):
    for k in ("history", "faults"):
        if plan.get(k):
            h = plan[k]
            for i in range(len(h)):
                yield dict(plan, **{k: h[:i] + h[i + 1:]})
    if plan.get("parallel"):
        yield dict(plan, parallel=None)
    for x in prelab.shrink_case(plan["case"]):
        yield dict(plan, case=x)
