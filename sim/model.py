"""Reference model: the documented two-layer scheme in plain numpy, double precision.

Written from docs/theory.md, the v3 paper's description and the doc strings; it
shares no code with wam2layers.  `Model.run()` yields one dict per expected
output.  Geometry: latitude decreasing, fluxes positive eastward/northward.
"""
import numpy as np

from . import lab

DEG = 111089.56
R = 6.371e6


def geometry(lat, lon):
    dx = abs(lon[1] - lon[0])
    dx = min(dx, 360 - dx)              # across the date line
    dy = abs(lat[1] - lat[0])
    n = np.minimum(90.0, lat + dy / 2)
    s = np.maximum(-90.0, lat - dy / 2)
    area = R**2 * np.radians(dx) * (np.sin(np.radians(n)) - np.sin(np.radians(s)))
    ly = dy * DEG
    lx = 0.5 * dx * DEG * (np.cos(np.radians(lat + dy / 2)) + np.cos(np.radians(lat - dy / 2)))
    return area[:, None], ly, lx[:, None]


def limit(fx, fy, s_mass, dt):
    """CFL: over one step at most half the cell's content leaves, split over the directions."""
    ax, ay = np.abs(fx) * dt, np.abs(fy) * dt
    tot = ax + ay
    with np.errstate(invalid="ignore", divide="ignore"):
        lx = np.where(tot > 0, 0.5 * ax / tot * s_mass, 0)
        ly = np.where(tot > 0, 0.5 * ay / tot * s_mass, 0)
    return np.sign(fx) * np.minimum(ax, lx) / dt, np.sign(fy) * np.minimum(ay, ly) / dt


def transport(frac, fx, fy, periodic):
    """Net horizontal inflow (mass/s) per cell of a quantity with mixing ratio `frac`."""
    ny, nx = frac.shape
    net = np.zeros((ny, nx))
    # east-west faces between i and i+1 (interior rows only)
    pairs = [(i, i + 1) for i in range(nx - 1)] + ([(nx - 1, 0)] if periodic else [])
    for a, b in pairs:
        f = 0.5 * (fx[1:-1, a] + fx[1:-1, b])
        q = np.where(f > 0, f * frac[1:-1, a], f * frac[1:-1, b])
        net[1:-1, a] -= q
        net[1:-1, b] += q
    # north-south faces between row j (north) and j+1 (south); flux positive northward
    cols = slice(None) if periodic else slice(1, -1)
    for j in range(ny - 1):
        f = 0.5 * (fy[j, cols] + fy[j + 1, cols])
        q = np.where(f > 0, f * frac[j + 1, cols], f * frac[j, cols])
        net[j + 1, cols] -= q
        net[j, cols] += q
    return net


def grad(x, axis):
    g = np.empty_like(x)
    x = np.moveaxis(x, axis, 0)
    h = np.moveaxis(g, axis, 0)
    h[1:-1] = (x[2:] - x[:-2]) / 2
    h[0] = x[1] - x[0]
    h[-1] = x[-1] - x[-2]
    return g


def vertical(F, S0, S1, area, dt, kvf, closure_area):
    """Vertical flux (downward positive) closing the balance of the two layers."""
    m = {l: 0.5 * (S0[l] + S1[l]) for l in ("upper", "lower")}
    tot = m["upper"] + m["lower"]
    div = {l: grad(F["fx_" + l], 1) - grad(F["fy_" + l], 0) for l in m}
    # closure_area: area applied to precipitation and evaporation (see DESIGN, known finding)
    up = S1["upper"] - S0["upper"] + dt * (div["upper"] / area + F["precip"] * m["upper"] / tot / closure_area)
    lo = S1["lower"] - S0["lower"] + dt * (div["lower"] / area
                                           + (F["precip"] * m["lower"] / tot - F["evap"]) / closure_area)
    fz = lo - S1["lower"] / (S1["lower"] + S1["upper"]) * (up + lo)
    cap = np.minimum(m["upper"], m["lower"]) / (kvf + 1.0)
    return np.sign(fz) * np.minimum(np.abs(fz), cap) / dt


class Model:
    def __init__(self, case, version=0, documented_closure=False, jitter=None, eps=1.2e-7):
        self.case = case
        self.F, self.R = self.parts(case, version)
        self.area, self.ly, self.lx = geometry(self.F.dlat, self.F.dlon)
        if jitter is not None:
            # single-precision coordinates leave fine cells at high latitudes with a rounded area
            r = np.random.RandomState(jitter)
            u = lambda shape: r.uniform(-1, 1, shape)
            h = np.abs(self.area / (R**2 * np.radians(min(abs(self.F.dlon[1] - self.F.dlon[0]), 360 - abs(self.F.dlon[1] - self.F.dlon[0])))))
            self.area = self.area * (1 + 1.2e-7 / h * u(self.area.shape))
            for k, x in self.F.f.items():
                self.F.f[k] = x.astype("f8") * (1 + eps * u(x.shape))
        self.dt = float(case["dt"])
        self.closure_area = 1.0 if documented_closure else self.area
        self.shape = (len(self.F.jj), len(self.F.ii))
        self.s = {"upper": np.zeros(self.shape), "lower": np.zeros(self.shape)}
        self.zero()
        self.flags = set()

    def parts(self, case, version):
        F = lab.Forcing(case, version)
        return F, lab.Region(case, F)

    def zero(self):
        z = lambda: np.zeros(self.shape)
        self.acc = dict(p_upper=z(), p_lower=z(), e=z(), tag=z(), losses=z(), gains=z(),
                        precip=z(), evap=z(), regrate=z())

    def step(self, t0, t1):
        """One step over [t0, t1] (minutes)."""
        c, dt, A = self.case, self.dt, self.area
        th = (t0 + t1) / 2
        fwd = c["dir"] == "forward"
        S0 = {l: self.F.at("s_" + l, t0) for l in ("upper", "lower")}
        S1 = {l: self.F.at("s_" + l, t1) for l in ("upper", "lower")}
        F = {v: self.F.at(v, th) for v in lab.FLUX + lab.RATE}
        ref = S0 if fwd else S1
        tgt = S1 if fwd else S0
        lim = False
        for l in ("upper", "lower"):
            fx, fy = F["fx_" + l] * self.ly, F["fy_" + l] * self.lx
            F["fx_" + l], F["fy_" + l] = limit(fx, fy, ref[l] * A, dt)
            lim |= bool((np.abs(F["fx_" + l]) < np.abs(fx) * 0.999).any())
        fz = vertical(F, S0, S1, A, dt, c["kvf"], self.closure_area)
        if lim:
            self.flags.add("limiter")
        if (fz < 0).any():
            self.flags.add("upward")
        tt = t0 if fwd else t1
        mask = self.R.at(tt) if c["tag0"] <= tt <= c["tag1"] else np.zeros(self.shape)
        if mask.any():
            self.flags.add("tag")
        per = bool(c.get("periodic"))
        r = {l: np.minimum(self.s[l] / ref[l], 1.0) for l in ref}
        sg = 1.0 if fwd else -1.0
        tot = ref["upper"] + ref["lower"]
        pu, pl = F["precip"] * ref["upper"] / tot, F["precip"] * ref["lower"] / tot
        f = sg * fz
        vert = np.where(f >= 0, f * r["upper"], f * r["lower"]) + c["kvf"] * np.abs(f) * (r["upper"] - r["lower"])
        net = {l: transport(r[l], sg * F["fx_" + l], sg * F["fy_" + l], per) / A for l in r}
        if fwd:
            up = self.s["upper"] + dt * (net["upper"] - vert - pu * r["upper"])
            lo = self.s["lower"] + dt * (net["lower"] + vert + mask * F["evap"] - pl * r["lower"])
        else:
            up = self.s["upper"] + dt * (net["upper"] - vert + mask * pu)
            lo = self.s["lower"] + dt * (net["lower"] + vert + mask * pl - F["evap"] * r["lower"])
        edge = np.ones(self.shape, bool)
        edge[1:-1, slice(None) if per else slice(1, -1)] = False
        losses = np.where(edge, up + lo, 0)
        up, lo = np.where(edge, 0, up), np.where(edge, 0, lo)
        ou, ol = np.maximum(0, up - tgt["upper"]), np.maximum(0, lo - tgt["lower"])
        up, lo = up - ou + ol, lo - ol + ou
        gains = np.maximum(-up, 0) + np.maximum(-lo, 0)
        up, lo = np.maximum(up, 0), np.maximum(lo, 0)
        xu, xl = np.maximum(0, up - tgt["upper"]), np.maximum(0, lo - tgt["lower"])
        losses = losses + xu + xl
        if (ou + ol).any():
            self.flags.add("overshoot")
        if gains.any():
            self.flags.add("gains")
        if (xu + xl).any():
            self.flags.add("overfull")
        self.s = {"upper": up - xu, "lower": lo - xl}
        a = self.acc
        a["p_upper"] += pu * r["upper"] * dt
        a["p_lower"] += pl * r["lower"] * dt
        a["e"] += F["evap"] * r["lower"] * dt
        a["tag"] += mask * (F["evap"] if fwd else F["precip"]) * dt
        a["regrate"] += mask
        a["losses"] += losses
        a["gains"] += gains
        a["precip"] += F["precip"] * dt
        a["evap"] += F["evap"] * dt
        self.total = tgt

    def snapshot(self):
        a = self.acc
        d = {"s_track_upper_restart": self.s["upper"].copy(), "s_track_lower_restart": self.s["lower"].copy(),
             "losses": a["losses"], "gains": a["gains"], "_precip": a["precip"], "_evap": a["evap"],
             "_s_upper": self.total["upper"], "_s_lower": self.total["lower"]}
        if self.case["dir"] == "forward":
            d.update(p_track_upper=a["p_upper"], p_track_lower=a["p_lower"], tagged_evap=a["tag"])
        else:
            d.update(e_track=a["e"], tagged_precip=a["tag"])
        return d

    def run(self, start=None, end=None):
        """dict: output time (minutes) -> expected fields."""
        c = self.case
        s = c["start"] if start is None else start
        e = c["end"] if end is None else end
        dt = c["dt"] / 60
        out = {}
        k = 0
        for t, n in lab.timeline(c, s, e):
            for _ in range(n):
                if c["dir"] == "forward":
                    self.step(s + k * dt, s + (k + 1) * dt)
                else:
                    self.step(e - (k + 1) * dt, e - k * dt)
                k += 1
            out[t] = self.snapshot()
            self.zero()
        return out
