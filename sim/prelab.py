"""Raw data for preprocessing, and what the preprocessed store must hold.

Like lab.py, nothing in here calls wam2layers: the expected records are derived
per column, in double precision, from the documented definitions.  Times are
integer minutes since 00:00 of the first day of the case.
"""
import os

import cftime
import netCDF4
import numpy as np

from . import lab
from .lab import Unreadable, day_name, iso, when

HERE = os.path.dirname(os.path.abspath(__file__))
G = 9.80665
OUT = ["fx_upper", "fy_upper", "fx_lower", "fy_lower", "s_upper", "s_lower", "evap", "precip"]
ERA5 = {"q": "ml", "u": "ml", "v": "ml", "sp": "", "e": "", "tp": ""}
CMIP3 = ("pr", "hfls")


# --------------------------------------------------------------------- cases
def gen_case(r, *, sources=("era5", "era5", "era5", "cmip", "cmip", "arco"), days=None, max_records=12, min_records=1,
             level_types=("model_levels", "pressure_levels"), long_p=0.0):
    c = {"source": r.choice(sources)}
    long = r.random() < long_p
    c["t0"] = list(r.choice([(2021, 7, 1), (2020, 2, 28), (2021, 2, 27), (2019, 12, 30), (2004, 6, 29), (2000, 2, 28)]))
    c["days"] = days or r.choice([1, 2, 2, 3])
    c["ny"], c["nx"] = r.randint(2, 5), r.randint(2, 6)
    c["dlat"] = r.choice([0.25, 0.5, 1.0, 2.0])
    c["dlon"] = r.choice([0.25, 0.5, 1.0, 2.5])
    c["lat0"] = r.choice([75.0, 60.0, 12.0, 1.0, -20.0])
    c["seed"] = r.randrange(1 << 20)
    # longitudes as stored: 0..360 or -180..180, also regions across the date line or Greenwich
    c["lon0"] = r.choice([0.0, 10.0, 170.0, 178.0, 179.0, 350.0, 200.0, 359.0, 120.0, -20.0, -170.0, -1.0])
    c["boundary"] = r.choice([None, None, None, "moved"])
    if c["source"] == "cmip":
        c["cal"] = r.choice(["noleap", "noleap", "360_day", "standard", "proleptic_gregorian", "365_day", "julian", "all_leap"])
        c["in_min"] = 360
        c["level_type"] = "pressure_levels"
        c["lon0"] = r.choice([0.0, 10.0, 178.0, 350.0, 200.0, 120.0])
        c["days"] = max(2, c["days"])
        c["chunks"] = r.choice([1, 1, 2, 3])
        c["oddcut"] = r.random() < 0.3
    else:
        c["cal"] = "proleptic_gregorian" if c["source"] == "arco" else r.choice(["standard", "standard", "proleptic_gregorian"])
        c["in_min"] = r.choice([60, 180, 180, 360, 720, 1440])
        c["level_type"] = "pressure_levels" if c["source"] == "arco" else r.choice(level_types)
        c["tcw"] = True if c["source"] == "arco" else r.random() < 0.5
        c["naming"] = r.choice(["old", "old", "new", "lev"])
        c["files"] = r.choice(["day", "day", "month", "one", "year", "step"])
        c["packed"] = r.random() < 0.4 and c["source"] == "era5"
        if long:        # longer than a month
            c["days"] = r.randint(29, 36)
            c["in_min"] = 1440
            max_records = 40
            min_records = r.choice([28, 29, 32])
            c["ny"], c["nx"] = 2, r.randint(2, 3)
            c["files"] = r.choice(["day", "month", "one", "year"])
            if r.random() < 0.4:        # sparse records, over more than a year: the same calendar days come round again
                c["t0"] = r.choice([[2021, 7, 1], [2004, 6, 29]])
                c["in_min"] = 1440 * r.choice([73, 365, 5 * 73])
                c["days"] = c["in_min"] // 1440 * (8 if c["in_min"] < 100000 * 3 else 3)
                min_records = 2
                max_records = 8
    if c["source"] == "cmip" and r.random() < 0.15:
        y = r.choice([1, 850, 2262, 2299])
        if y > 1582 or c["cal"] in ("noleap", "365_day", "360_day", "all_leap", "proleptic_gregorian"):
            c["t0"] = [2262, 4, 10] if y == 2262 else [y, c["t0"][1], min(c["t0"][2], 28)]
    c["levint"] = r.random() < 0.5
    if c["level_type"] == "model_levels":
        n = r.randint(3, 8)
        lv = sorted(r.sample(range(1, 137), n)) + [137]
        if r.random() < 0.3:
            lv = [20, 60, 90, 111, 112, 137]
        c["stored_levels"] = sorted(set(lv) | set(r.sample(range(1, 138), 2)))
        c["levels"] = lv
        if c["boundary"]:
            c["boundary"] = r.choice(lv)
    else:
        pool = [50, 100, 200, 300, 400, 500, 600, 700, 800, 850, 900, 925, 950, 1000]
        n = r.randint(4, 8)
        c["stored_levels"] = sorted(r.sample(pool, n))
        if r.random() < 0.3:
            c["stored_levels"] = c["stored_levels"][::-1]
        keep = [p for p in c["stored_levels"] if r.random() < 0.8]
        c["levels"] = keep if len(keep) > 2 else list(c["stored_levels"])
        if c["source"] == "era5" and r.random() < 0.25:
            c["levels"] = "All"
        if c["boundary"]:
            c["boundary"] = [r.choice([0.6, 0.8]), r.choice([0.0, 5000.0])]
    add_period(r, c, max_records, min_records)
    return c


def add_period(r, c, max_records, min_records=1):
    n = c["in_min"]
    first = n if c["source"] == "cmip" else 0
    last = c["days"] * 1440 - n
    tot = (last - first) // n + 1
    k = min(tot, max(min_records, r.choice([tot, tot, r.randint(1, tot)])), max_records)
    k = max(k, 2) if tot > 1 else k
    off = (tot - k) * r.choice([0, 0, 1]) if r.random() < 0.6 else r.randrange(tot - k + 1)
    c["pstart"] = first + off * n
    c["pend"] = c["pstart"] + (k - 1) * n
    if r.random() < 0.15 and n > 60:
        c["pend"] += n // 2           # the last requested time is not after the end


def times(c):
    return list(range(c["pstart"], c["pend"] + 1, c["in_min"]))


def by_day(c):
    d = {}
    for t in times(c):
        d.setdefault(t // 1440, []).append(t)
    return d


def file_name(c, day):
    return f"{day_name(c, day)}_fluxes_storages.nc"


# ----------------------------------------------------------------- raw fields
def latlon(c):
    lat = c["lat0"] - np.arange(c["ny"]) * c["dlat"]
    lon = c["lon0"] + np.arange(c["nx"]) * c["dlon"]
    if c["lon0"] >= 0:
        lon = lon % 360
        if c.get("source") != "era5" or c["seed"] % 3:
            lon = np.sort(lon)         # a global archive cut out in storage order
    return lat, lon


def raw_times(c, var=None):
    """Times stored in the raw data, minutes."""
    end = c["days"] * 1440
    if c["source"] == "cmip":
        return list(range(90, end + 1, 180)) if var in CMIP3 else list(range(0, end, 360))
    return list(range(0, end, c["in_min"]))


def raw(c, version=0):
    """Stored raw fields (decoded, double precision): name -> array [time, (level,) lat, lon]."""
    r = np.random.RandomState((c["seed"] * 17 + version * 5 + 3) & 0x7FFFFFFF)
    ny, nx = c["ny"], c["nx"]
    nl = len(c["stored_levels"])

    def f(lo, hi, t, lev=False, jit=0.4):
        n = len(t)
        shape = (n, nl, ny, nx) if lev else (n, ny, nx)
        mid, half = (lo + hi) / 2, (hi - lo) / 2
        base = r.uniform(-1, 1, shape[1:])
        return (mid + half * ((1 - jit) * base[None] + jit * r.uniform(-1, 1, shape))).astype("f4")

    T = raw_times(c)
    # humidity grows towards the surface
    z = np.array(c["stored_levels"], float)
    z = (z / z.max())[:, None, None] ** 2
    out = {}
    q = (f(1e-3, 2e-2, T, True) * z + 1e-6).astype("f4")
    u, v = f(-30, 30, T, True), f(-25, 25, T, True)
    sp = f(62000, 103500, T, jit=0.05)
    for p in c["stored_levels"]:      # a surface within the rounding of a level is ambiguous
        sp = np.where(np.abs(sp - p * 100) < 4, np.float32(p * 100 + 8), sp).astype("f4")
    out.update(q=q, u=u, v=v, sp=sp)
    if c["source"] == "cmip":
        out = {"hus": q, "ua": u, "va": v, "ps": sp}
        out["huss"] = f(5e-4, 2.2e-2, T)
        out["uas"], out["vas"] = f(-15, 15, T), f(-15, 15, T)
        T3 = raw_times(c, "pr")
        out["pr"] = np.maximum(f(-1e-4, 4e-4, T3, jit=1.0), 0).astype("f4")
        out["hfls"] = f(-60, 300, T3, jit=0.9)
        return out
    out["e"] = f(-1e-3, 3e-4, T, jit=1.0)
    out["tp"] = f(-8e-4, 3e-3, T, jit=1.0)
    out["tp"][(out["tp"] > 0) & (out["tp"] < 5e-4)] = 0
    out["d2m"] = f(250, 299, T)
    out["u10"], out["v10"] = f(-15, 15, T), f(-15, 15, T)
    out["tcw"] = f(4, 60, T)
    if c.get("packed"):
        for k in list(out):
            if k in ("e", "tp", "sp", "q", "tcw"):
                out[k] = pack(out[k])[3]
    return out


def pack(x):
    lo, hi = float(x.min()), float(x.max())
    sc = (hi - lo) / 65000 or 1.0
    off = (hi + lo) / 2
    p = np.rint((x.astype("f8") - off) / sc).astype("i2")
    return p, sc, off, p.astype("f8") * sc + off


# -------------------------------------------------------------- raw files
def era5_vars(c):
    v = ["q", "u", "v", "sp", "e", "tp"]
    if c["level_type"] == "pressure_levels":
        v += ["d2m", "u10", "v10"]
    if c.get("tcw"):
        v.append("tcw")
    return v


def era5_file(c, var, t):
    """Path (relative to the root) of the raw file of a variable holding time t."""
    d = when(c, t)
    lt = "" if var not in ("q", "u", "v") else ("_ml" if c["level_type"] == "model_levels" else "_pl")
    k = c["files"]
    if k == "one":
        return f"raw/era5{lt}_{var}.nc"
    if k == "year":
        return f"raw/{d.year}{lt}_{var}.nc"
    if k == "month":
        return f"raw/{d.year}{d.month:02d}{lt}_{var}.nc"
    if k == "step":
        return f"raw/{d.year}{d.month:02d}{d.day:02d}{d.hour:02d}{lt}_{var}.nc"
    return f"raw/{d.year}-{d.month:02d}-{d.day:02d}{lt}_{var}.nc"


TEMPLATE = {"one": "era5{levtype}_{variable}.nc", "year": "{year}{levtype}_{variable}.nc",
            "month": "{year}{month:02d}{levtype}_{variable}.nc",
            "step": "{year}{month:02d}{day:02d}{hour:02d}{levtype}_{variable}.nc",
            "day": "{year}-{month:02d}-{day:02d}{levtype}_{variable}.nc"}


def _time(nc, c, name, ts, units="hours since 1900-01-01 00:00:0.0"):
    nc.createDimension(name, None)
    v = nc.createVariable(name, "f8", (name,))
    v.units = units
    v.calendar = c["cal"]
    v[:] = cftime.date2num([when(c, t) for t in ts], units, calendar=c["cal"])


def _put(nc, name, dims, x, packed=None):
    if packed:
        p, sc, off, _ = packed
        v = nc.createVariable(name, "i2", dims, fill_value=-32767)
        v.scale_factor, v.add_offset = sc, off
        v.set_auto_maskandscale(False)
        bad = ~np.isfinite(x)
        v[:] = np.where(bad, np.int16(-32767), p)
    else:
        v = nc.createVariable(name, "f4", dims)
        v[:] = x
    return v


def write_raw(c, root, version=0, bad=(), only=None):
    """Write all raw files; `bad` is a list of defects {kind, var, t}. Returns {path: set(times)}."""
    os.makedirs(root + "/raw", exist_ok=True)
    f = raw(c, version)
    if c["source"] == "era5":
        _write_era5(c, root, f, bad, only)
    elif c["source"] == "arco":
        _write_arco(c, root, f, bad)
    else:
        _write_cmip(c, root, f, bad)


def _bad(bad, kind, var, ts=None):
    for b in bad:
        if b["kind"] == kind and b["var"] == var and (ts is None or b.get("t") in ts):
            return b
    return None


def _spoil(path, how):
    if how == "garbage":
        with open(path, "wb") as f:
            f.write(b"<html>503 Service Unavailable</html>" * 40)
    elif how == "truncated":
        n = os.path.getsize(path)
        with open(path, "r+b") as f:
            f.truncate(n * 2 // 5)
    elif how == "empty":
        open(path, "wb").close()


def _write_era5(c, root, f, bad, only):
    lat, lon = latlon(c)
    new = c["naming"] == "new"
    T = raw_times(c)
    for var in era5_vars(c):
        groups = {}
        for k, t in enumerate(T):
            groups.setdefault(era5_file(c, var, t), []).append(k)
        pk = c.get("packed") and var in ("e", "tp", "sp", "q", "tcw")
        p = None
        if pk:      # recover the stored integers
            x = f[var]
        for path, ks in groups.items():
            ts = [T[k] for k in ks]
            if only is not None and path not in only:
                continue
            full = f"{root}/{path}"
            if _bad(bad, "missing-file", var, ts):
                if os.path.exists(full):
                    os.unlink(full)
                continue
            drop = [b["t"] for b in bad if b["kind"] == "no-time" and b["var"] == var]
            ks = [k for k in ks if T[k] not in drop]
            ts = [T[k] for k in ks]
            tmp = full + ".new"
            with netCDF4.Dataset(tmp, "w") as nc:
                tn = "valid_time" if new else "time"
                _time(nc, c, tn, ts)
                lv = var in ("q", "u", "v")
                la = "y" if _bad(bad, "no-dim", var) else "latitude"
                nc.createDimension(la, c["ny"])
                nc.createDimension("longitude", c["nx"])
                nc.createVariable(la, "f4", (la,))[:] = lat
                nc.createVariable("longitude", "f4", ("longitude",))[:] = lon
                x = np.array(f[var][ks], copy=True)
                for b in bad:
                    if b["kind"] == "nan" and b["var"] == var and b["t"] in ts:
                        _nan(x, ts.index(b["t"]), b)
                dims = (tn, la, "longitude")
                if lv:
                    levs = list(c["stored_levels"])
                    lsel = list(range(len(levs)))
                    if _bad(bad, "no-level", var):
                        want = c["levels"] if isinstance(c["levels"], list) else levs
                        lsel.remove(levs.index(want[len(want) // 2]))
                    if c["naming"] == "lev":
                        ln = "lev"
                    elif new:
                        ln = "model_level" if c["level_type"] == "model_levels" else "pressure_level"
                    else:
                        ln = "level"
                    if _bad(bad, "no-level-dim", var):
                        ln = "height"
                    nc.createDimension(ln, len(lsel))
                    typ = "i4" if c["levint"] else "f8"
                    nc.createVariable(ln, typ, (ln,))[:] = np.array(levs)[lsel]
                    x = x[:, lsel]
                    dims = (tn, ln, la, "longitude")
                packed = None
                if pk:
                    packed = pack_of(f[var], x)
                _put(nc, var, dims, x, packed)
                if _bad(bad, "two-vars", var):
                    _put(nc, var + "_copy", dims, x)
            os.replace(tmp, full)
            b = _bad(bad, "spoiled", var, ts)
            if b:
                _spoil(full, b["how"])


def pack_of(whole, x):
    """Integers reproducing already packed values."""
    lo, hi = float(np.nanmin(whole)), float(np.nanmax(whole))
    sc = (hi - lo) / 65000 or 1.0
    # `whole` was decoded from a lattice; find it again through its own extremes
    off = (hi + lo) / 2
    p = np.rint((np.nan_to_num(x) - off) / sc).astype("i2")
    return p, sc, off, None


def _nan(x, k, b):
    y = x[k]
    if b.get("whole"):
        y[...] = np.nan
    else:
        y.flat[b.get("cell", 0) % y.size] = np.nan


ARCO = {"u": "u_component_of_wind", "v": "v_component_of_wind", "q": "specific_humidity", "u10": "10m_u_component_of_wind",
        "v10": "10m_v_component_of_wind", "sp": "surface_pressure", "d2m": "2m_dewpoint_temperature",
        "tcw": "total_column_water", "tp": "total_precipitation", "e": "evaporation"}


def _write_arco(c, root, f, bad):
    lat, lon = latlon(c)
    T = raw_times(c)
    tmp = root + "/raw/arco.nc.new"
    drop = [b["t"] for b in bad if b["kind"] == "no-time"]
    ks = [k for k, t in enumerate(T) if t not in drop]
    ts = [T[k] for k in ks]
    with netCDF4.Dataset(tmp, "w") as nc:
        _time(nc, c, "time", ts)
        nc.createDimension("latitude", c["ny"])
        nc.createDimension("longitude", c["nx"])
        nc.createDimension("level", len(c["stored_levels"]))
        nc.createVariable("latitude", "f4", ("latitude",))[:] = lat
        nc.createVariable("longitude", "f4", ("longitude",))[:] = lon
        nc.createVariable("level", "i8", ("level",))[:] = c["stored_levels"]
        nc.valid_time_start = iso(c, 0)[:10]
        nc.valid_time_stop = iso(c, c["days"] * 1440 - 1)[:10]
        for k, n in ARCO.items():
            if _bad(bad, "missing-var", k):
                continue
            x = np.array(f[k][ks], copy=True)
            for b in bad:
                if b["kind"] == "nan" and b["var"] == k and b["t"] in ts:
                    _nan(x, ts.index(b["t"]), b)
            dims = ("time", "level", "latitude", "longitude") if x.ndim == 4 else ("time", "latitude", "longitude")
            _put(nc, n, dims, x)
        _put(nc, "2m_temperature", ("time", "latitude", "longitude"), f["d2m"][ks] + 3)
        _put(nc, "sea_ice_cover", ("time", "latitude", "longitude"), np.full(f["d2m"][ks].shape, np.nan))
    os.replace(tmp, root + "/raw/arco.nc")
    for b in bad:
        if b["kind"] == "spoiled":
            _spoil(root + "/raw/arco.nc", b["how"])


def cmip_levels(c, var):
    """Levels stored for a variable: not the same ones for all of them (Pa)."""
    lv = [p * 100.0 for p in c["stored_levels"]]
    if len(lv) > 4 and c["seed"] % 2:
        drop = {"ua": 1, "va": 1, "hus": 2}[var]
        lv = lv[:drop] + lv[drop + 1:]
    return lv


def cmip_vars():
    return ["hus", "ua", "va", "ps", "huss", "uas", "vas", "pr", "hfls"]


def cmip_groups(c, var):
    """Index groups of the files of a variable, cut at day ends."""
    T = raw_times(c, var)
    n = min(c["chunks"], c["days"])
    cut = [c["days"] * 1440 * k // n // 1440 * 1440 + (180 if c.get("oddcut") else 0) for k in range(1, n)]
    g = [[] for _ in range(n)]
    for k, t in enumerate(T):
        g[sum(t >= x for x in cut)].append(k)
    return [x for x in g if x]


def cmip_file(c, var, ts):
    a, b = when(c, ts[0]), when(c, ts[-1])
    s = lambda d: f"{d.year:04d}{d.month:02d}{d.day:02d}{d.hour:02d}{d.minute:02d}"
    tab = "3hr" if var in CMIP3 else ("6hrLev" if var == "ps" else "6hrPlevPt")
    return f"raw/{var}_{tab}_SIM-ESM_historical_r1i1p1f1_gn_{s(a)}-{s(b)}.nc"


def _write_cmip(c, root, f, bad):
    lat, lon = latlon(c)
    for var in cmip_vars():
        T = raw_times(c, var)
        for ks in cmip_groups(c, var):
            ts = [T[k] for k in ks]
            path = f"{root}/{cmip_file(c, var, ts)}"
            if _bad(bad, "missing-file", var, ts):
                if os.path.exists(path):
                    os.unlink(path)
                continue
            drop = [b["t"] for b in bad if b["kind"] == "no-time" and b["var"] == var]
            kk = [k for k in ks if T[k] not in drop]
            tt = [T[k] for k in kk]
            tmp = path + ".new"
            with netCDF4.Dataset(tmp, "w") as nc:
                _time(nc, c, "time", tt, "days since 1850-01-01")
                la = "y" if _bad(bad, "no-dim", var) else "lat"
                nc.createDimension(la, c["ny"])
                nc.createDimension("lon", c["nx"])
                nc.createVariable(la, "f8", (la,))[:] = lat[::-1]
                nc.createVariable("lon", "f8", ("lon",))[:] = lon
                x = np.array(f[var][kk], copy=True)[..., ::-1, :]
                for b in bad:
                    if b["kind"] == "nan" and b["var"] == var and b["t"] in tt:
                        _nan(x, tt.index(b["t"]), b)
                dims = ("time", la, "lon")
                if x.ndim == 4:
                    lv = cmip_levels(c, var)
                    sel = [i for i, p in enumerate(c["stored_levels"]) if p * 100.0 in lv]
                    nc.createDimension("plev", len(lv))
                    nc.createVariable("plev", "f8", ("plev",))[:] = lv
                    x = x[:, sel]
                    dims = ("time", "plev", la, "lon")
                name = var + "x" if _bad(bad, "missing-var", var) else var
                _put(nc, name, dims, x)
            os.replace(tmp, path)
            b = _bad(bad, "spoiled", var, ts)
            if b:
                _spoil(path, b["how"])


# -------------------------------------------------------------- configuration
def config(c, root, *, name="pre.yaml", out="pp", **over):
    src = c["source"]
    k = dict(
        filename_template=f"{root}/raw/" + (TEMPLATE[c["files"]] if src == "era5" else "{variable}_*.nc" if src == "cmip"
                                            else "unused_{variable}.nc"),
        preprocess_start_date=iso(c, c["pstart"]), preprocess_end_date=iso(c, c["pend"]),
        level_type=c["level_type"], levels=c["levels"],
        preprocessed_data_folder=f"{root}/{out}", output_folder=f"{root}/out",
        tracking_direction="forward", tagging_region=[0, 0, 10, 10],
        tracking_start_date=iso(c, c["pstart"]), tracking_end_date=iso(c, c["pend"]),
        tagging_start_date=iso(c, c["pstart"]), tagging_end_date=iso(c, c["pend"]),
        input_frequency=lab.minutes_freq(c["in_min"]), timestep=600, output_frequency="1h", restart=False,
        periodic_boundary=False, kvf=3, calendar=c["cal"])
    if c["boundary"]:
        if c["level_type"] == "model_levels":
            k["level_layer_boundary"] = c["boundary"]
        else:
            k["pressure_boundary_factor"], k["pressure_boundary_offset"] = c["boundary"]
    k.update(over)
    import json
    path = f"{root}/{name}"
    with open(path, "w") as f:
        json.dump(k, f, indent=1)
    return path


COMMAND = {"era5": "era5", "arco": "arco-era5", "cmip": "cmip"}


# ------------------------------------------------------------------ reference
def _ab():
    with open(HERE + "/era5_ab.csv") as f:
        x = np.array([[float(v) for v in l.split(",")] for l in f if l.strip()])
    return x[:, 0], x[:, 1]


class Reference:
    def __init__(self, c, version=0):
        self.c = c
        self.f = raw(c, version)
        lat, lon = latlon(c)
        self.lat = lat.astype("f4").astype("f8") if c["source"] != "cmip" else lat
        lon = lon.astype("f4").astype("f8") if c["source"] != "cmip" else lon
        if (lon > 180).any() or (lon < 0).any():
            lon = (lon + 180) % 360 - 180
        self.order = np.argsort(lon, kind="stable")
        self.lon = lon[self.order]

    def at(self, t):
        """Fields of the record of time t."""
        c, f = self.c, self.f
        if c["source"] == "cmip":
            k = raw_times(c).index(t)
            lv = sorted(set(cmip_levels(c, "hus")) & set(cmip_levels(c, "ua")) & set(cmip_levels(c, "va")))
            sel = [c["stored_levels"].index(int(p / 100)) for p in lv]
            p = np.array(lv)
            q, u, v, ps = f["hus"][k][sel], f["ua"][k][sel], f["va"][k][sel], f["ps"][k]
            qs, us, vs = f["huss"][k], f["uas"][k], f["vas"][k]
            T3 = raw_times(c, "pr")
            a, b = T3.index(t - 270), T3.index(t - 90)
            pr = 0.5 * (f["pr"][a].astype("f8") + f["pr"][b])
            ev = 0.5 * (f["hfls"][a].astype("f8") + f["hfls"][b]) / 2.45e6
            precip, evap = np.maximum(pr, 0) + np.maximum(-ev, 0), np.maximum(ev, 0)
            tcw = None
        else:
            k = raw_times(c).index(t)
            want = c["levels"] if isinstance(c["levels"], list) else c["stored_levels"]
            sel = [c["stored_levels"].index(p) for p in want]
            q, u, v, ps = f["q"][k][sel], f["u"][k][sel], f["v"][k][sel], f["sp"][k]
            sec = c["in_min"] * 60
            e, tp = f["e"][k].astype("f8"), f["tp"][k].astype("f8")
            precip = 1000 * (np.maximum(tp, 0) + np.maximum(e, 0)) / sec
            evap = 1000 * np.maximum(-e, 0) / sec
            tcw = f["tcw"][k].astype("f8") if c.get("tcw") else None
            if c["level_type"] == "pressure_levels":
                p = np.array(want, float) * 100
                us, vs = f["u10"][k], f["v10"][k]
                qs = humidity(f["d2m"][k].astype("f8"), ps.astype("f8"))
        q, u, v, ps = (x.astype("f8") for x in (q, u, v, ps))
        if c["level_type"] == "model_levels":
            cols = self._model_levels(q, u, v, ps, want)
        else:
            cols = self._pressure_levels(p, q, u, v, ps, qs.astype("f8"), us.astype("f8"), vs.astype("f8"))
        sl, su, xl, xu, yl, yu = cols
        if tcw is not None:
            k = tcw / (sl + su)
            sl, su, xl, xu, yl, yu = (x * k for x in cols)
        d = dict(s_lower=sl, s_upper=su, fx_lower=xl, fx_upper=xu, fy_lower=yl, fy_upper=yu, precip=precip, evap=evap)
        return {n: x[:, self.order] for n, x in d.items()}

    def _model_levels(self, q, u, v, ps, want):
        a, b = _ab()
        full_a, full_b = (a[1:] + a[:-1]) / 2, (b[1:] + b[:-1]) / 2
        idx = [int(l) - 1 for l in want]
        n = len(idx)
        bound = self.c["boundary"] or 111
        out = np.zeros((6,) + ps.shape)
        for j in range(n):
            top = a[0] + b[0] * ps if j == 0 else \
                0.5 * (full_a[idx[j - 1]] + full_a[idx[j]]) + 0.5 * (full_b[idx[j - 1]] + full_b[idx[j]]) * ps
            bot = a[-1] + b[-1] * ps if j == n - 1 else \
                0.5 * (full_a[idx[j]] + full_a[idx[j + 1]]) + 0.5 * (full_b[idx[j]] + full_b[idx[j + 1]]) * ps
            w = q[j] * (bot - top) / G
            k = 0 if want[j] > bound else 1
            out[k] += w
            out[2 + k] += w * u[j]
            out[4 + k] += w * v[j]
        return out

    def _pressure_levels(self, p, q, u, v, ps, qs, us, vs):
        fac, off = self.c["boundary"] or (0.72878581, 7438.803223)
        out = np.zeros((6,) + ps.shape)
        top = int(np.argmin(p))
        for j in range(ps.shape[0]):
            for i in range(ps.shape[1]):
                s = ps[j, i]
                prof = [(0.0, 0.0, u[top, j, i], v[top, j, i]), (s, qs[j, i], us[j, i], vs[j, i])]
                prof += [(p[k], q[k, j, i], u[k, j, i], v[k, j, i]) for k in range(len(p))]
                prof.sort(key=lambda x: x[0])
                P = np.array([x[0] for x in prof])
                pb = fac * s + off
                prof.append((pb,) + tuple(np.interp(pb, P, [x[m] for x in prof]) for m in (1, 2, 3)))
                prof.sort(key=lambda x: x[0])
                for a, b in zip(prof[:-1], prof[1:]):
                    mid = 0.5 * (a[0] + b[0])
                    if mid >= s:
                        continue
                    w = 0.5 * (a[1] + b[1]) * (b[0] - a[0]) / G
                    k = 1 if mid < pb else 0
                    out[k, j, i] += w
                    out[2 + k, j, i] += w * 0.5 * (a[2] + b[2])
                    out[4 + k, j, i] += w * 0.5 * (a[3] + b[3])
        return out


def humidity(td, p):
    """ECMWF IFS documentation: Teten's formula over water and e/p conversion."""
    e = 611.21 * np.exp(17.502 * (td - 273.15) / (td - 32.19))
    eps = 287.0597 / 461.5250
    return eps * e / (p - (1 - eps) * e)


# -------------------------------------------------------------------- reading
def read_day(c, path):
    """{time (minutes): {var: field}} plus coordinates of one preprocessed file."""
    d = lab.read_nc(path)
    a = d.get("_time_attrs")
    if a is None or "units" not in a:
        raise Unreadable(f"{os.path.basename(path)}: no time coordinate")
    tt = []
    for x in np.atleast_1d(d["time"]):
        try:
            y = cftime.num2date(float(x), a["units"], calendar=a.get("calendar", "standard"))
        except (ValueError, OverflowError) as e:
            raise Unreadable(f"{os.path.basename(path)}: time {x}: {e}")
        y = cftime.datetime(y.year, y.month, y.day, y.hour, y.minute, y.second, calendar=c["cal"])
        tt.append((y - when(c, 0)).total_seconds() / 60)
    rec = {"times": tt, "lat": d.get("latitude"), "lon": d.get("longitude"), "cal": a.get("calendar", "standard"),
           "lat_bnds": d.get("latitude_bnds"), "lon_bnds": d.get("longitude_bnds"), "f": {}}
    for v in OUT:
        if v not in d:
            raise Unreadable(f"{os.path.basename(path)}: no variable {v}")
        rec["f"][v] = d[v].astype("f8")
        if rec["f"][v].shape != (len(tt), c["ny"], c["nx"]):
            raise Unreadable(f"{os.path.basename(path)}: {v} has shape {rec['f'][v].shape}")
    return rec


def day_files(folder):
    if not os.path.isdir(folder):
        return []
    return sorted(f for f in os.listdir(folder) if f.endswith("_fluxes_storages.nc"))


ALIAS = {"gregorian": "standard", "365_day": "noleap", "366_day": "all_leap"}
TOL = 2e-4


def check_store(c, folder, version=0, partial=False):
    """None, or (kind, detail): the store against the reference.

    partial: True: days may be missing or unreadable, and a file may lack times; what it holds must be right.
    "whole": days may be missing, those present must be complete.
    """
    ref = Reference(c, version)
    want = by_day(c)
    have = day_files(folder)
    names = {file_name(c, d): d for d in want}
    extra = [f for f in have if f not in names]
    if extra:
        return "extra-file", f"{extra[0]}"
    miss = [f for f in names if f not in have]
    if miss and not partial:
        return "missing-file", f"{sorted(miss)[0]}"
    for f in have:
        d = names[f]
        try:
            rec = read_day(c, f"{folder}/{f}")
        except Unreadable as e:
            if partial is True:
                continue
            return "unreadable-file", str(e)
        w = want[d]
        if partial is True and set(rec["times"]) < {float(t) for t in w}:
            w = [t for t in w if t in rec["times"]]
        v = check_day(c, ref, f, rec, w)
        if v:
            return v
    return None


def complete_days(c, folder, version=0):
    """Names of the day files that are complete and right."""
    if not day_files(folder):
        return []
    ref, want, out = Reference(c, version), by_day(c), []
    names = {file_name(c, d): d for d in want}
    for f in day_files(folder):
        try:
            if f in names and check_day(c, ref, f, read_day(c, f"{folder}/{f}"), want[names[f]]) is None:
                out.append(f)
        except Unreadable:
            pass
    return out


def whole_pascal(c, v):
    """Integer level coordinates keep pressures to the whole Pascal: what up to 1 Pa of surface air holds."""
    if v in ("precip", "evap") or c["level_type"] != "pressure_levels" or c["source"] == "cmip":
        return 0.0
    if c["source"] == "era5" and not c["levint"]:
        return 0.0
    return 1.0 * 0.035 / G * (1.0 if v[0] == "s" else 30.0) * (4.0 if c.get("tcw") else 1.0)


def check_day(c, ref, f, rec, want):
    if rec["times"] != [float(t) for t in want]:
        return "wrong-times", f"{f}: minutes {rec['times']} instead of {want}"
    if ALIAS.get(rec["cal"], rec["cal"]) != ALIAS.get(c["cal"], c["cal"]) and \
            {ALIAS.get(rec["cal"], rec["cal"]), ALIAS.get(c["cal"], c["cal"])} != {"standard", "proleptic_gregorian"}:
        return "calendar", f"{f}: {rec['cal']} instead of {c['cal']}"
    for n, x, y in (("latitude", rec["lat"], ref.lat), ("longitude", rec["lon"], ref.lon)):
        if x is None or x.shape != y.shape or np.abs(x - y).max() > 1e-4:
            return "coordinates", f"{f}: {n} {None if x is None else x.tolist()} instead of {y.tolist()}"
    for n, b, y in (("latitude", rec["lat_bnds"], ref.lat), ("longitude", rec["lon_bnds"], ref.lon)):
        if b is not None and b.shape == (len(y), 2) and np.abs(b.mean(axis=1) - y).max() > 1e-4:
            return "coordinates", f"{f}: {n} bounds are not around the cells"
    for k, t in enumerate(want):
        e = ref.at(t)
        for v in OUT:
            x, y = e[v], rec["f"][v][k]
            bad = ~np.isfinite(y)
            if bad.any():
                return "not-finite", f"{f} {iso(c, t)} {v}"
            scale = max(np.abs(x).max(), 1e-12)
            if v in ("precip", "evap"):
                if (y < 0).any():
                    return "negative-rate", f"{f} {iso(c, t)} {v}: {y.min()}"
                scale = max(scale, 1e-7)
            dd = np.abs(x - y)
            if dd.max() > TOL * scale + whole_pascal(c, v):
                j = np.unravel_index(dd.argmax(), dd.shape)
                return "wrong-record", (f"{f} {iso(c, t)} {v}{tuple(int(q) for q in j)}: expected {x[j]:.7g}, stored "
                                        f"{y[j]:.7g} (field max {scale:.4g})")
    return None


def store(c, folder):
    """Scientific content of the store, for exact comparison: {file: {time: {var: field}}}."""
    out = {}
    for f in day_files(folder):
        rec = read_day(c, f"{folder}/{f}")
        out[f] = {t: {v: rec["f"][v][k] for v in OUT} for k, t in enumerate(rec["times"])}
        out[f]["_n"] = len(rec["times"])
    return out


def same_store(a, b):
    if sorted(a) != sorted(b):
        return f"files {sorted(b)} instead of {sorted(a)}"
    for f in a:
        if [k for k in a[f]] != [k for k in b[f]] or a[f]["_n"] != b[f]["_n"]:
            return f"{f}: times {[k for k in b[f]]} instead of {[k for k in a[f]]}"
        for t, r in a[f].items():
            if t == "_n":
                continue
            for v, x in r.items():
                if not np.array_equal(x, b[f][t][v]):
                    return f"{f} minute {t} {v}: differs by {np.abs(x - b[f][t][v]).max():.4g}"
    return None


def shrink_case(c):
    def v(**kw):
        d = dict(c)
        d.update(kw)
        return d
    out = []
    n = len(times(c))
    if n > 2:
        out.append(v(pend=c["pstart"] + (n // 2) * c["in_min"]))
        out.append(v(pstart=c["pstart"] + (n // 2) * c["in_min"]))
    if c["nx"] > 2:
        out.append(v(nx=2))
    if c["ny"] > 2:
        out.append(v(ny=2))
    if c.get("packed"):
        out.append(v(packed=False))
    if c.get("boundary"):
        out.append(v(boundary=None))
    if c.get("tcw") and c["source"] == "era5":
        out.append(v(tcw=False))
    if c.get("naming", "old") != "old":
        out.append(v(naming="old"))
    if c["lon0"] != 10.0:
        out.append(v(lon0=10.0))
    if c["t0"] != [2021, 7, 1]:
        out.append(v(t0=[2021, 7, 1]))
    return out
