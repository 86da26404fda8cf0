"""Experiments as data: forcing, configurations, readers and expected timelines.

Nothing in here calls wam2layers.  A *case* is a plain JSON object; everything
(files, configuration, expected results) is derived from it deterministically.
Times are integer minutes since 00:00 of the first day of the case, in the
case's own calendar.
"""
import datetime
import json
import os

import cftime
import netCDF4
import numpy as np

CALS = ["standard", "gregorian", "proleptic_gregorian", "noleap", "365_day", "360_day",
        "julian", "all_leap", "366_day"]


# ------------------------------------------------------------------- times
def when(case, minutes):
    """cftime of `minutes` after the origin of the case (seconds allowed as fraction)."""
    y, m, d = case["t0"]
    t = cftime.datetime(y, m, d, calendar=case["cal"])
    return t + datetime.timedelta(seconds=round(minutes * 60))


def iso(case, minutes):
    t = when(case, minutes)
    s = f"{t.year:04d}-{t.month:02d}-{t.day:02d}T{t.hour:02d}:{t.minute:02d}"
    if t.second:
        s += f":{t.second:02d}"
    return s


def day_name(case, day):
    t = when(case, day * 1440)
    return f"{t.year:04d}-{t.month:02d}-{t.day:02d}"


# ----------------------------------------------------------------- forcing
FLUX = ["fx_upper", "fx_lower", "fy_upper", "fy_lower"]
STATE = ["s_upper", "s_lower"]
RATE = ["evap", "precip"]


def grid(case):
    lat = case["lat0"] - np.arange(case["ny"]) * case["dlat"]
    if case.get("global"):
        nx = case["nx"]
        lon = -180 + np.arange(nx) * (360.0 / nx)
    else:
        lon = case["lon0"] + np.arange(case["nx"]) * case["dlon"]
    return lat, lon


def n_per_day(case):
    return 1440 // case["in_min"]


def forcing(case, version=0):
    """dict var -> float32 array [ntime, ny, nx] for all stored times."""
    ny, nx = case["ny"], case["nx"]
    nt = case["days"] * n_per_day(case)
    r = np.random.RandomState((case["fseed"] * 131 + version * 7 + 1) & 0x7FFFFFFF)
    reg = case["regime"]
    dl = min(case["dlat"], 360.0 / nx if case.get("global") else case["dlon"])
    amp = {"mild": 30, "medium": 150, "strong": 1500, "zero": 60, "mixed": 400, "dry": 40,
           "still": 0.0, "flood": 120, "huge": 4e4, "drain": 20}[reg] * max(dl, 0.2)
    out = {}
    # slowly varying part + noise: keeps successive states related but not equal
    for v in FLUX:
        base = r.uniform(-1, 1, (1, ny, nx))
        out[v] = amp * (0.7 * base + 0.6 * r.uniform(-1, 1, (nt, ny, nx)))
    lo, hi = {"dry": (0.02, 0.6), "flood": (1.0, 4.0), "drain": (0.5, 2.0)}.get(reg, (3.0, 9.0))
    jit = {"mixed": 0.25, "strong": 0.25, "flood": 0.45, "dry": 0.3, "drain": 0.2}.get(reg, 0.08)
    for v, f in (("s_upper", 1.0), ("s_lower", 2.2)):
        base = r.uniform(lo, hi, (1, ny, nx)) * f
        out[v] = base * (1 + jit * r.uniform(-1, 1, (nt, ny, nx)))
    rate = {"dry": 2e-5, "flood": 2e-3, "drain": 2e-3}.get(reg, 1.5e-4)
    for v in RATE:
        x = rate * r.uniform(-0.3, 1, (nt, ny, nx))
        out[v] = np.maximum(x, 0)
    if reg == "zero":
        for v in FLUX:      # calm cells, rows, instants
            out[v] *= r.uniform(0, 1, (nt, ny, nx)) > 0.35
        for l in ("upper", "lower"):
            out["fx_" + l][:, r.randint(ny), r.randint(nx)] = 0
            out["fy_" + l][:, r.randint(ny), :] = 0
            out["fx_" + l][r.randint(nt)] = 0
            out["fy_" + l][r.randint(nt)] = 0
    return {k: v.astype("f4") for k, v in out.items()}


def write_forcing(case, folder, version=0, days=None, skip_vars=(), names=None):
    os.makedirs(folder, exist_ok=True)
    f = forcing(case, version)
    lat, lon = grid(case)
    n = n_per_day(case)
    for d in range(case["days"]) if days is None else days:
        path = f"{folder}/{day_name(case, d)}_fluxes_storages.nc"
        with netCDF4.Dataset(path, "w") as nc:
            nc.createDimension("time", None)
            nc.createDimension("latitude", case["ny"])
            nc.createDimension("longitude", case["nx"])
            t = nc.createVariable("time", "i8", ("time",))
            t.units = "seconds since 1900-01-01"
            t.calendar = case["cal"]
            la = nc.createVariable("latitude", "f4", ("latitude",))
            lo = nc.createVariable("longitude", "f4", ("longitude",))
            la[:] = lat
            lo[:] = lon
            times = [when(case, d * 1440 + i * case["in_min"]) for i in range(n)]
            t[:] = np.rint(cftime.date2num(times, t.units, calendar=case["cal"])).astype("i8")
            for v, x in f.items():
                if v in skip_vars:
                    continue
                var = nc.createVariable(v, "f4", ("time", "latitude", "longitude"))
                var[:] = x[d * n:(d + 1) * n]


class Forcing:
    """Independent reader: values at any model time, cut to the domain of the case."""

    def __init__(self, case, version=0):
        self.case = case
        self.f = forcing(case, version)
        self.lat, self.lon = grid(case)
        self.lat = self.lat.astype("f4").astype("f8")
        self.lon = self.lon.astype("f4").astype("f8")
        dom = case.get("domain")
        self.jj = np.arange(case["ny"])
        self.ii = np.arange(case["nx"])
        if dom:
            w, s, e, n = dom
            self.jj = np.array([j for j in self.jj if s <= self.lat[j] <= n], int)
            if w < e:
                self.ii = np.array([i for i in self.ii if w <= self.lon[i] <= e], int)
            else:
                west = [i for i in self.ii if self.lon[i] > w]
                east = [i for i in self.ii if self.lon[i] < e]
                self.ii = np.array(west + east, int)
        self.dlat = self.lat[self.jj]
        self.dlon = self.lon[self.ii]

    def at(self, var, minutes):
        m = self.case["in_min"]
        k = int(minutes // m)
        w = (minutes - k * m) / m
        x = self.f[var][k].astype("f8")
        if w > 0:
            x = x + w * (self.f[var][k + 1].astype("f8") - x)
        return x[np.ix_(self.jj, self.ii)]


# ------------------------------------------------------------- tagging mask
def write_region(case, folder):
    """Create the region file of the case if it needs one; returns the config value."""
    reg = case["region"]
    if reg["kind"] == "bbox":
        return list(reg["bbox"])
    lat, lon = grid(case)
    if reg["kind"] == "shape":
        import shapefile
        base = f"{folder}/region_shape"
        w, s, e, n = reg["bbox"]
        with shapefile.Writer(base) as sf:
            sf.field("name", "C")
            sf.poly([[[w, s], [w, n], [e, n], [e, s], [w, s]]])
            sf.record("r")
        return base + ".shp"
    path = f"{folder}/region_{reg['kind']}.nc"
    with netCDF4.Dataset(path, "w") as nc:
        nc.createDimension("latitude", case["ny"])
        nc.createDimension("longitude", case["nx"])
        nc.createVariable("latitude", "f4", ("latitude",))[:] = lat
        nc.createVariable("longitude", "f4", ("longitude",))[:] = lon
        m = region_full(case)
        if reg["kind"] == "dynamic":
            nt = len(reg["times"])
            nc.createDimension("time", nt)
            t = nc.createVariable("time", "f8", ("time",))
            t.units = "seconds since 1900-01-01"
            t.calendar = case["cal"]
            t[:] = cftime.date2num([when(case, x) for x in reg["times"]], t.units, calendar=case["cal"])
            nc.createVariable("source_region", reg.get("dtype", "f8"), ("time", "latitude", "longitude"))[:] = m
        else:
            nc.createVariable("source_region", reg.get("dtype", "f8"), ("latitude", "longitude"))[:] = m
    return path


def region_full(case):
    """Weights on the full grid: [ny, nx], or [nt, ny, nx] for dynamic masks."""
    reg = case["region"]
    lat, lon = grid(case)
    lat = lat.astype("f4").astype("f8")
    lon = lon.astype("f4").astype("f8")
    if reg["kind"] == "bbox":
        w, s, e, n = reg["bbox"]
        la = (s <= lat) & (lat <= n)
        lo = ((w <= lon) & (lon <= e)) if w <= e else ((w <= lon) | (lon <= e))
        return (la[:, None] & lo[None, :]).astype("f8")
    if reg["kind"] == "shape":
        w, s, e, n = reg["bbox"]
        dla, dlo = case["dlat"], (360.0 / case["nx"] if case.get("global") else case["dlon"])
        fy = np.clip(np.minimum(lat + dla / 2, n) - np.maximum(lat - dla / 2, s), 0, None) / dla
        fx = np.clip(np.minimum(lon + dlo / 2, e) - np.maximum(lon - dlo / 2, w), 0, None) / dlo
        return fy[:, None] * fx[None, :]
    r = np.random.RandomState(reg["seed"])
    shape = (case["ny"], case["nx"])
    if reg["kind"] == "dynamic":
        shape = (len(reg["times"]),) + shape
    m = (r.uniform(0, 1, shape) > 0.5).astype("f8")
    if reg.get("weights"):
        m = m * r.uniform(0.1, 1, shape)
    if reg.get("dtype", "f8") == "f4":
        m = m.astype("f4").astype("f8")
    return m


class Region:
    def __init__(self, case, F):
        self.case, self.F = case, F
        self.m = region_full(case)

    def at(self, minutes):
        m = self.m
        if m.ndim == 3:
            ts = self.case["region"]["times"]
            k = min(range(len(ts)), key=lambda i: abs(ts[i] - minutes))
            m = m[k]
        return m[np.ix_(self.F.jj, self.F.ii)]


# ------------------------------------------------------------ configuration
def config(case, root, *, name="cfg.yaml", out="out", pre="pp", start=None, end=None, restart=False,
           url=None, **over):
    """Write the tracking configuration of the case; returns its path."""
    region = case.get("_region_value") or write_region(case, root)
    c = dict(
        filename_template=f"{root}/raw/{{year}}{{levtype}}_{{variable}}.nc",
        preprocess_start_date=iso(case, 0), preprocess_end_date=iso(case, case["days"] * 1440 - case["in_min"]),
        level_type="model_levels", levels=[20, 60, 90, 137],
        preprocessed_data_folder=url or f"{root}/{pre}",
        output_folder=f"{root}/{out}",
        tracking_direction=case["dir"],
        tagging_region=region,
        tracking_start_date=iso(case, case["start"] if start is None else start),
        tracking_end_date=iso(case, case["end"] if end is None else end),
        tagging_start_date=iso(case, case["tag0"]), tagging_end_date=iso(case, case["tag1"]),
        input_frequency=minutes_freq(case["in_min"]),
        timestep=case["dt"] if case["dt"] % 60 else int(case["dt"]),
        output_frequency=case["out"], restart=restart,
        periodic_boundary=bool(case.get("periodic")), kvf=case["kvf"],
    )
    if case["cal"] != "standard" or case.get("cal_explicit"):
        c["calendar"] = case["cal"]
    if case.get("domain"):
        c["tracking_domain"] = list(case["domain"])
    c.update(over)
    path = f"{root}/{name}"
    with open(path, "w") as f:
        json.dump(c, f, indent=1)       # JSON is YAML
    return path


def minutes_freq(m):
    if m % 1440 == 0:
        return f"{m // 1440}D"
    return f"{m // 60}h" if m % 60 == 0 else f"{m}min"


def freq_minutes(f):
    for suf, k in (("min", 1), ("h", 60), ("H", 60), ("D", 1440), ("d", 1440)):
        if f.endswith(suf):
            return int(f[:-len(suf)] or 1) * k
    raise ValueError(f)


def timeline(case, start=None, end=None):
    """[(output time in minutes, steps ending there since last output)] in run order."""
    s = case["start"] if start is None else start
    e = case["end"] if end is None else end
    dt = case["dt"] / 60
    n = int((e - s) // dt)
    of = freq_minutes(case["out"])
    out, acc = [], 0
    for k in range(1, n + 1):
        t = s + k * dt if case["dir"] == "forward" else e - k * dt
        acc += 1
        if t % of == 0 or k == n:
            out.append((t, acc))
            acc = 0
    return out


def out_name(case, minutes):
    t = when(case, minutes)
    mode = "backtrack" if case["dir"] == "backward" else "forwardtrack"
    return f"{mode}_{t.year:04d}-{t.month:02d}-{t.day:02d}T{t.hour:02d}-{t.minute:02d}.nc"


# ------------------------------------------------------------------ outputs
def vars_of(case):
    if case["dir"] == "forward":
        return ["s_track_upper_restart", "s_track_lower_restart", "p_track_upper", "p_track_lower",
                "tagged_evap", "losses", "gains"]
    return ["s_track_upper_restart", "s_track_lower_restart", "e_track", "tagged_precip", "losses", "gains"]


class Unreadable(Exception):
    pass


def read_nc(path, raw=False):
    """All variables of a NetCDF file as float64/int arrays (no wam2layers, no xarray)."""
    try:
        nc = netCDF4.Dataset(path)
    except OSError as e:
        raise Unreadable(f"{os.path.basename(path)}: {e}")
    try:
        with nc:
            nc.set_auto_mask(False)
            out = {"_dims": {k: len(v) for k, v in nc.dimensions.items()}, "_attrs": {}}
            for k in nc.ncattrs():
                out["_attrs"][k] = nc.getncattr(k)
            for k, v in nc.variables.items():
                out[k] = np.array(v[:])
                if k in ("time", "time_bnds"):
                    out["_" + k + "_attrs"] = {a: v.getncattr(a) for a in v.ncattrs()}
            return out
    except (RuntimeError, OSError, IndexError, KeyError) as e:
        raise Unreadable(f"{os.path.basename(path)}: {type(e).__name__} {e}")


def read_output(case, path):
    d = read_nc(path)
    res = {}
    for v in vars_of(case):
        if v not in d:
            raise Unreadable(f"{os.path.basename(path)}: no variable {v}")
        x = d[v].astype("f8")
        if x.ndim == 3:
            if x.shape[0] != 1:
                raise Unreadable(f"{os.path.basename(path)}: {x.shape[0]} times")
            x = x[0]
        res[v] = x
    res["_time"] = d.get("time")
    res["_time_attrs"] = d.get("_time_attrs", {})
    res["_lat"] = d.get("latitude")
    res["_lon"] = d.get("longitude")
    res["_attrs"] = d["_attrs"]
    res["_bnds"] = {k: d.get(k + "_bnds") for k in ("time", "latitude", "longitude")}
    res["_bnds_attrs"] = d.get("_time_bnds_attrs", {})
    return res


def output_bounds(case, o):
    """The two bounds of the time of an output, in minutes since the origin of the case."""
    b = o["_bnds"]["time"]
    if b is None or np.size(b) != 2:
        raise Unreadable("output without time bounds")
    a = dict(o["_time_attrs"])           # CF: bounds inherit the attributes of their coordinate
    a.update({k: v for k, v in o["_bnds_attrs"].items() if k in ("units", "calendar")})
    return [output_time(case, {"_time": x, "_time_attrs": a}) for x in np.ravel(b)]


def output_time(case, o):
    """Time stamp of an output, in minutes since the origin of the case."""
    t = np.atleast_1d(o["_time"])
    if t.size != 1:
        raise Unreadable("output without a single time")
    a = o["_time_attrs"]
    cal = a.get("calendar", "standard")
    same = {"gregorian": "standard", "365_day": "noleap", "366_day": "all_leap"}
    if same.get(cal, cal) != same.get(case["cal"], case["cal"]) and not (
            {same.get(cal, cal), same.get(case["cal"], case["cal"])} == {"standard", "proleptic_gregorian"}
            and case["t0"][0] > 1600):
        raise Unreadable(f"calendar {cal} instead of {case['cal']}")
    x = cftime.num2date(float(t[0]), a["units"], calendar=cal)
    x = cftime.datetime(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond, calendar=case["cal"])
    return (x - when(case, 0)).total_seconds() / 60


def outputs_in(case, folder):
    mode = "backtrack" if case["dir"] == "backward" else "forwardtrack"
    if not os.path.isdir(folder):
        return []
    return sorted(f for f in os.listdir(folder) if f.startswith(mode + "_") and f.endswith(".nc"))


def digest(case, folder):
    """Scientific content of an output folder: name -> {var: bytes} without times of writing."""
    return {f: read_output(case, f"{folder}/{f}") for f in outputs_in(case, folder)}


def compare(case, a, b, rtol, atol_rel, vars=None, floor=1e-30):
    """Largest discrepancy of two outputs; None if equal within tolerance."""
    for v in vars or vars_of(case):
        x, y = a[v], b[v]
        if x.shape != y.shape:
            return f"{v}: shape {x.shape} != {y.shape}"
        bad = ~np.isfinite(x) | ~np.isfinite(y)
        if bad.any():
            j = np.argwhere(bad)[0]
            return f"{v}{tuple(int(q) for q in j)}: {x[tuple(j)]} vs {y[tuple(j)]} (not finite)"
        scale = max(np.abs(x).max(), np.abs(y).max(), floor)
        d = np.abs(x - y) - rtol * np.maximum(np.abs(x), np.abs(y)) - atol_rel * scale
        if d.max() > 0:
            j = np.unravel_index(d.argmax(), d.shape)
            return f"{v}{tuple(int(q) for q in j)}: {x[j]:.9g} vs {y[j]:.9g} (field max {scale:.4g})"
    return None
