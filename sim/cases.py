"""Seeded generation of experiments (see lab.py for the fields of a case)."""
from . import lab

# last days before something happens in some calendar, valid in all of them up to day 28
DATES = [(2021, 7, 1), (2020, 2, 28), (2021, 2, 28), (2019, 12, 30), (1999, 12, 30), (2004, 6, 29), (2000, 2, 28),
         (1900, 2, 28), (2022, 1, 30), (2023, 8, 30)]


def gen_case(r, *, dirs=("forward", "backward"), max_steps=14, min_steps=3, regimes=None, cals=None, days=None,
             region_kinds=("bbox", "static", "dynamic", "shape"), domain_p=0.35, global_p=0.3, outs=None,
             dts=None, in_mins=(60, 180, 360, 360, 720, 1440), big_p=0.15, kvfs=(3, 3, 0, 1.5, 2), long_p=0.03):
    c = {}
    long = days is None and r.random() < long_p
    c["cal"] = r.choice(cals or ["standard", "standard", "standard", "proleptic_gregorian", "noleap", "360_day", "julian",
                                 "gregorian", "365_day", "all_leap", "366_day"])
    t0 = r.choice(DATES)
    if c["cal"] == "360_day" and t0[2] > 30:
        t0 = (t0[0], t0[1], 30)
    if t0[0] < 1950 and c["cal"] in ("standard", "gregorian", "proleptic_gregorian", "julian") and r.random() < 0.5:
        t0 = (2021, t0[1], t0[2])
    if r.random() < 0.07:       # palaeo, control and far-future runs of climate models
        y = r.choice([1, 850, 2262, 2299])
        if y > 1582 or c["cal"] in ("noleap", "365_day", "360_day", "all_leap", "366_day", "proleptic_gregorian"):
            t0 = (2262, 4, 10) if y == 2262 else (y, t0[1], min(t0[2], 28))
    c["t0"] = list(t0)
    c["cal_explicit"] = r.random() < 0.3
    c["days"] = days or r.choice([1, 2, 2, 3])
    c["in_min"] = r.choice(in_mins)
    if long:        # longer than a month, with coarse records and steps
        c["days"] = r.randint(32, 40)
        c["in_min"] = r.choice([720, 1440])
        big_p = 0
    elif c["in_min"] == 1440:
        c["days"] = max(3, c["days"])
    big = r.random() < big_p
    c["ny"] = r.randint(8, 14) if big else r.randint(4, 7)
    c["nx"] = r.randint(9, 16) if big else r.randint(5, 8)
    c["dlat"] = r.choice([0.25, 0.5, 1.0, 1.5, 2.0])
    c["dlon"] = c["dlat"] if r.random() < 0.4 else r.choice([0.25, 0.5, 1.0, 2.5])
    c["global"] = r.random() < global_p
    if c["global"]:
        c["nx"] = r.choice([8, 12, 16, 18])
        c["periodic"] = r.random() < 0.7
    else:
        c["periodic"] = False
    top = r.choice([75.0, 60.0, 30.0, 12.0, 2.0, -20.0])
    c["lat0"] = top
    if c["lat0"] - (c["ny"] - 1) * c["dlat"] < -78:
        c["lat0"] = 0.0
    c["lon0"] = r.choice([-170.0, -20.0, -3.5, 0.0, 100.0])
    if r.random() < 0.06:
        # rows at the poles: a whole planet, or a polar cap
        c["ny"] = r.choice([7, 9, 11])
        c["dlat"] = 180.0 / (c["ny"] - 1) if c["global"] else r.choice([5.0, 4.0, 10.0])
        c["lat0"] = 90.0
        if not c["global"] and r.random() < 0.4:
            c["lat0"] = -90.0 + (c["ny"] - 1) * c["dlat"]
    c["regime"] = r.choice(regimes or ["mild", "medium", "strong", "zero", "mixed", "dry", "still", "mild", "zero", "flood",
                                         "flood", "mixed", "dry", "drain"])
    c["fseed"] = r.randrange(1 << 20)
    c["dir"] = r.choice(dirs)
    c["kvf"] = r.choice(kvfs)
    add_domain(r, c, domain_p)
    # time stepping
    last = c["days"] * 1440 - c["in_min"]
    steps = r.randint(min_steps, max_steps)
    cand = list(dts or [600, 900, 1800, 3600, 5400, 7200, 10800, 1200, 2520])
    if long:
        cand = [43200, 86400, 86400]
        min_steps = max(min_steps, 31)
        max_steps = max(max_steps, 36)
    elif c["in_min"] == 1440 and not dts:
        cand += [21600, 43200]
    r.shuffle(cand)
    dt = None
    for d in cand:
        if (d / 60) * min_steps <= last:
            dt = d
            break
    c["dt"] = dt
    steps = min(steps, int(last // (dt / 60)))
    span = int(steps * dt // 60)
    off = last - span
    s = r.choice([0, off, r.randrange(off + 1) if off else 0])
    if r.random() < 0.7:
        g = max(1, int(dt // 60))
        s -= s % g
    c["start"] = s
    slack = r.randrange(int(dt // 60)) if r.random() < 0.25 and dt >= 120 else 0
    if c["dir"] == "forward":
        c["end"] = min(last, s + span + slack)
    else:
        c["end"] = s + span
        c["start"] = max(0, s - slack)
    # the model clock must hit output boundaries sometimes
    opts = outs or ["30min", "1h", "2h", "3h", "4h", "6h", "12h", "1D", "1h", "90min"]
    c["out"] = r.choice(opts)
    if dt >= 21600:
        c["out"] = r.choice(["6h", "12h", "1D", "1D"])
    if r.random() < 0.6:
        m = lab.freq_minutes(c["out"])
        k = (c["start"] if c["dir"] == "forward" else c["end"]) % m
        if c["start"] - k >= 0:
            c["start"] -= k
            c["end"] -= k
    add_tagging(r, c, region_kinds)
    return c


def add_domain(r, c, p):
    c["domain"] = None
    if c["periodic"] or r.random() > p:
        return
    lat, lon = lab.grid(c)
    if abs(lat[0]) > 80 or abs(lat[-1]) > 80:
        return
    dlo = 360.0 / c["nx"] if c.get("global") else c["dlon"]
    j0 = r.randrange(0, c["ny"] - 3)
    j1 = r.randrange(j0 + 3, c["ny"])
    north = float(min(80, lat[j0] + c["dlat"] * 0.3))
    south = float(max(-80, lat[j1] - c["dlat"] * 0.3))
    if c.get("global") and r.random() < 0.7:
        # across the date line, some columns outside
        w = float(lon[r.randrange(c["nx"] - 4, c["nx"] - 1)] - 0.3 * dlo)
        e = float(lon[r.randrange(1, 3)] + 0.3 * dlo)
        if r.random() < 0.5:
            # a single column on one side
            if r.random() < 0.5:
                w, e = float(lon[-1] - 0.3 * dlo), float(lon[2] + 0.3 * dlo)
            else:
                w, e = float(lon[-3] - 0.3 * dlo), float(lon[0] + 0.3 * dlo)
    else:
        i0 = r.randrange(0, c["nx"] - 3)
        i1 = r.randrange(i0 + 3, c["nx"])
        w = float(max(-180, lon[i0] - 0.3 * dlo))
        e = float(min(180, lon[i1] + 0.3 * dlo))
        if r.random() < 0.15:
            # edges on grid columns: part of the domain
            a, b = float(lon[i0]), float(lon[i1])
            if -180 <= a and b <= 180 and round(a, 3) == a and round(b, 3) == b:
                w, e = a, b
    c["domain"] = [round(w, 3), round(south, 3), round(e, 3), round(north, 3)]


def add_tagging(r, c, kinds):
    lat, lon = lab.grid(c)
    dlo = 360.0 / c["nx"] if c.get("global") else c["dlon"]
    k = r.choice(kinds)
    reg = {"kind": k}
    if k in ("bbox", "shape"):
        j0 = r.randrange(0, c["ny"] - 1)
        j1 = r.randrange(j0 + 1, c["ny"])
        f = 0.3 if k == "bbox" else r.choice([0.5, 0.2, 0.37])
        i0 = r.randrange(0, c["nx"] - 1)
        i1 = r.randrange(i0 + 1, c["nx"])
        w, e = float(lon[i0] - f * dlo), float(lon[i1] + f * dlo)
        if k == "bbox" and c.get("global") and r.random() < 0.4:
            w, e = float(lon[-2] - f * dlo), float(lon[1] + f * dlo)
        n = float(lat[j0] + f * c["dlat"])
        s = float(lat[j1] - f * c["dlat"])
        if max(-80, s) >= min(80, n) - 0.05:       # box beyond the allowed latitudes
            n, s = float(lat[0] + f * c["dlat"]), float(lat[-1] - f * c["dlat"])
        reg["bbox"] = [round(max(-180, w), 3), round(max(-80, s), 3), round(min(180, e), 3), round(min(80, n), 3)]
        if k == "bbox" and r.random() < 0.15:
            # edges exactly on columns of the grid; sometimes a single column
            x0 = r.randrange(c["nx"])
            x1 = r.choice([x0, r.randrange(x0, c["nx"])])
            w, e = float(lon[x0]), float(lon[x1])
            if -180 <= w and e <= 180 and round(w, 3) == w and round(e, 3) == e:
                reg["bbox"][0], reg["bbox"][2] = w, e
    else:
        reg["seed"] = r.randrange(1 << 16)
        reg["weights"] = r.random() < 0.4
        reg["dtype"] = r.choice(["f8", "f4"])
    a, b = c["start"], c["end"]
    dtm = c["dt"] / 60
    if k == "dynamic":
        # slices at times that leave no ties with step times
        n = r.randint(2, 4)
        span = max(b - a, 1)
        reg["times"] = sorted({int(a + span * i / n) * 1 + 7 * i for i in range(n)})
    c["region"] = reg
    q = r.random()
    if q < 0.45:
        c["tag0"], c["tag1"] = a, b
    elif q < 0.6:
        c["tag0"], c["tag1"] = max(0, a - 60), b + 60
    else:
        n = max(1, int((b - a) // dtm))
        i = r.randrange(n)
        j = r.randrange(i, n)
        base = a if c["dir"] == "forward" else b - n * dtm
        sh = r.choice([0, 0, 1, -1]) if q < 0.9 else dtm // 2
        c["tag0"] = int(max(0, base + i * dtm + sh))
        c["tag1"] = int(max(c["tag0"], base + j * dtm + r.choice([0, 0, 1, -1])))
        c["tag1"] = max(c["tag0"], c["tag1"])
    if k == "dynamic":
        # reject ties between two mask times and any step time
        ts = reg["times"]
        bad = False
        n = int((b - a) // dtm)
        for q in range(n + 1):
            t = a + q * dtm if c["dir"] == "forward" else b - q * dtm
            d = sorted(abs(x - t) for x in ts)
            if len(d) > 1 and abs(d[0] - d[1]) < 1e-6:
                bad = True
        if bad:
            reg["times"] = [ts[0]]


def shrink_case(c):
    """Simpler variants of a case, simplest first."""
    def v(**kw):
        d = dict(c)
        d.update(kw)
        return d
    out = []
    if c.get("domain"):
        out.append(v(domain=None))
    if c["region"]["kind"] != "bbox":
        lat, lon = lab.grid(c)
        out.append(v(region={"kind": "bbox", "bbox": [max(-180, float(lon[0]) - 0.1), max(-80.0, float(lat[-1]) - 0.1),
                                                      min(180, float(lon[-1]) + 0.1), min(80.0, float(lat[0]) + 0.1)]}))
    if c["cal"] != "standard" and c["t0"] != [2021, 7, 1]:
        out.append(v(cal="standard", t0=[2021, 7, 1]))
    if c["t0"] != [2021, 7, 1]:
        out.append(v(t0=[2021, 7, 1]))
    if c["regime"] not in ("mild",):
        out.append(v(regime="mild"))
    if c["kvf"] != 3:
        out.append(v(kvf=3))
    dtm = c["dt"] / 60
    n = int((c["end"] - c["start"]) // dtm)
    if n > 2:
        for m in (n // 2, n - 1):
            if c["dir"] == "forward":
                out.append(v(end=int(c["start"] + m * dtm)))
            else:
                out.append(v(start=int(c["end"] - m * dtm)))
    if c["tag0"] != c["start"] or c["tag1"] != c["end"]:
        out.append(v(tag0=c["start"], tag1=c["end"]))
    return out
