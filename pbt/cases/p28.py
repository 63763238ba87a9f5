"""P28 participating media: phase functions, regions, optical thickness."""
import math
from cases.base import *
from cases.p03 import build
import numpy as np
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.volume.volume import VolumeRegion, HomogeneousVolumeDensity, ExponentialDensity, VolumeGridDensity, AggregateVolume, DensityRegion
from pytracer.volume.bssrdf import *
from pytracer.volume.utility import phase_isotrophic, phase_rayleigh, phase_mie_hazy, phase_mie_murky, phase_hg, phase_schlick, subsurface_from_diffuse
from pytracer.volume.utility import get_volume_scattering
from cases.media import MEDIA

INF = float("inf")
# 24-point Gauss-Legendre nodes come from numpy
_x, _w = np.polynomial.legendre.leggauss(48)
GL = [(float(p), float(q)) for p, q in zip(_x, _w)]


def hg(c, g): return (1 - g * g) / (4 * math.pi * (1 + g * g - 2 * g * c) ** 1.5)


def formula(k, c, g):
    if k == "isotropic":
        return .25 / math.pi
    if k == "rayleigh":
        return 3 / (16 * math.pi) * (1 + c * c)
    if k == "hazy":
        return (.5 + 4.5 * ((1 + c) / 2) ** 8) / (4 * math.pi)
    if k == "murky":
        return (.5 + 16.5 * ((1 + c) / 2) ** 32) / (4 * math.pi)
    if k == "hg":
        return hg(c, g)
    kk = 1.55 * g - .55 * g ** 3
    return (1 - kk * kk) / (4 * math.pi * (1 - kk * c) ** 2)


PH = {"isotropic": lambda w, v, g: phase_isotrophic(w, v), "rayleigh": lambda w, v, g: phase_rayleigh(w, v),
      "hazy": lambda w, v, g: phase_mie_hazy(w, v), "murky": lambda w, v, g: phase_mie_murky(w, v), "hg": phase_hg, "schlick": phase_schlick}


def phase(a):
    """phase functions depend on the angle only, are symmetric, positive, follow their formula and integrate to one"""
    k, g = a["kind"], a["g"]
    w, v = geo.Vector(*a["w"]), geo.Vector(*a["v"])
    c = max(-1., min(1., vdot(a["w"], a["v"])))
    p = float(PH[k](w, v, g))
    req_close(p, formula(k, c, g), k, 1e-6, 1e-9)
    req_close(PH[k](v, w, g), p, k + " swapped", 1e-9, 1e-12)
    require(p > 0, "%s is %r", k, p)
    tot = 0.
    z = geo.Vector(0., 0., 1.)
    for x, q in GL:
        tot += q * float(PH[k](z, geo.Vector(math.sqrt(1 - x * x), 0., x), g))
    req_close(2 * math.pi * tot, 1., k + " integral", 1e-4, 1e-6)
    label(k)
    nontriv(k != "isotropic")


# ---- regions -------------------------------------------------------------------------------------------------------
def spec(v):
    return Spectrum(np.array(v))


def region(r):
    E = geo.BBox(geo.Point(*r["lo"]), geo.Point(*vadd(r["lo"], r["size"])))
    T = build(r["t"])
    sa, ss, le = spec(r["sa"]), spec(r["ss"]), spec(r["le"])
    if r["kind"] == "homog":
        return HomogeneousVolumeDensity(sa, ss, r["g"], le, E, T)
    if r["kind"] == "exp":
        return ExponentialDensity(sa, ss, r["g"], le, E, T, r["a"], r["b"], geo.Vector(*r["up"]))
    return VolumeGridDensity(sa, ss, r["g"], le, E, T, grid_of(r))


def grid_of(r):
    nx, ny, nz = r["n"]
    d = r["d"]
    return np.array([[[d[(x + nx * (y + ny * z)) % len(d)] for x in range(nx)] for y in range(ny)] for z in range(nz)])


class Model(object):
    def __init__(self, r):
        self.r = r
        self.M = mchain(r["t"])
        self.I = minv(self.M)
        self.lo, self.hi = r["lo"], vadd(r["lo"], r["size"])

    def inside(self, p):
        """None when too close to the border to judge"""
        s = 1 + max(abs(c) for c in self.lo + self.hi)
        m = min(min(c - l, h - c) for c, l, h in zip(p, self.lo, self.hi))
        if abs(m) < 1e-7 * s:
            raise Reject()
        return m > 0

    def density(self, wp):
        p = mapply_point(self.I, wp)
        if not self.inside(p):
            return 0.
        r = self.r
        if r["kind"] == "homog":
            return 1.
        if r["kind"] == "exp":
            return r["a"] * math.exp(-r["b"] * vdot(vsub(p, self.lo), vnorm(r["up"])))
        n = r["n"]
        g = grid_of(r)
        v = [(c - l) / s * k - .5 for c, l, s, k in zip(p, self.lo, r["size"], n)]
        i0 = [int(math.floor(x)) for x in v]
        tot = 0.
        for dx in (0, 1):
            for dy in (0, 1):
                for dz in (0, 1):
                    w = 1.
                    idx = []
                    for c, (x, i, dd) in enumerate(zip(v, i0, (dx, dy, dz))):
                        w *= (x - i) if dd else 1 - (x - i)
                        idx.append(max(0, min(n[c] - 1, i + dd)))
                    tot += w * float(g[idx[2]][idx[1]][idx[0]])
        return tot

    def clip(self, o, d, mint, maxt):
        """parameter interval of a world ray within the region"""
        o, d = mapply_point(self.I, o), mapply_vec(self.I, d)
        t0, t1 = mint, maxt
        for c in range(3):
            if abs(d[c]) < 1e-9:
                if abs(o[c] - self.lo[c]) < 1e-6 or abs(o[c] - self.hi[c]) < 1e-6:
                    raise Reject()
                if not self.lo[c] < o[c] < self.hi[c]:
                    return None
                continue
            a, b = sorted(((self.lo[c] - o[c]) / d[c], (self.hi[c] - o[c]) / d[c]))
            t0, t1 = max(t0, a), min(t1, b)
        if abs(t1 - t0) < 1e-6 * (1 + abs(t0)):
            raise Reject()
        return (t0, t1) if t0 < t1 else None


def wpoint(m, f):
    return mapply_point(m.M, [l + x * s for l, x, s in zip(m.lo, f, m.r["size"])])


def coefficients(a):
    """absorption, scattering, emission and phase at a point are density times the coefficients; zero outside"""
    r = a["r"]
    R, m = region(r), Model(r)
    wp = wpoint(m, a["p"])
    rho = m.density(wp)
    P, W, V = geo.Point(*wp), geo.Vector(*a["w"]), geo.Vector(*a["v"])
    t = a["time"]
    sa, ss, le = r["sa"], r["ss"], r["le"]
    for fn, e in ((R.sigma_a, vmul(sa, rho)), (R.sigma_s, vmul(ss, rho)), (R.sigma_t, vmul(vadd(sa, ss), rho)), (R.lve, vmul(le, rho))):
        got = fn(P, W, t)
        require(isinstance(got, Spectrum), "%s returned %s", fn, type(got))
        req_vclose(got, e, fn.__name__, 1e-6, 1e-8)
    if rho > 0 or r["kind"] == "homog":
        c = vdot(a["w"], a["v"])
        req_close(R.p(P, W, V, t), hg(c, r["g"]) if rho > 0 else 0., "phase", 1e-6, 1e-9)
    if r["kind"] != "homog":
        req_close(R(geo.Point(*mapply_point(m.I, wp))), rho, "density", 1e-6, 1e-8)
    label(r["kind"] + (" in" if rho > 0 else " out"))
    nontriv(rho > 0)


def bounds(a):
    """the world bound contains the region's corners and is no larger than their box; rays overlap exactly where they are inside"""
    r = a["r"]
    R, m = region(r), Model(r)
    cs = [mapply_point(m.M, [(m.lo, m.hi)[i][0], (m.lo, m.hi)[j][1], (m.lo, m.hi)[k][2]]) for i in (0, 1) for j in (0, 1) for k in (0, 1)]
    check_box(R.world_bound(), [cs])
    o, d = ray_of(a, m)
    mint, maxt = a["rng"]
    maxt = INF if maxt is None else maxt
    e = m.clip(o, d, mint, maxt)
    hit, t0, t1 = R.intersect_p(geo.Ray(geo.Point(*o), geo.Vector(*d), mint, maxt))
    require(bool(hit) == (e is not None), "overlap %r [%r, %r], expected %r", hit, t0, t1, e)
    if e:
        req_close(t0, e[0], "entry", 1e-6, 1e-7)
        req_close(t1, e[1], "exit", 1e-6, 1e-7)
    label("hit" if e else "miss")
    nontriv(e is not None and len(r["t"]) > 0)


def check_box(b, sets):
    pts = [p for s in sets for p in s]
    lo, hi = [min(p[c] for p in pts) for c in range(3)], [max(p[c] for p in pts) for c in range(3)]
    s = 1 + max(abs(c) for c in lo + hi)
    req_vclose(b.pMin, lo, "bound minimum", 1e-9, 1e-7 * s)
    req_vclose(b.pMax, hi, "bound maximum", 1e-9, 1e-7 * s)


def ray_of(a, m):
    tgt = wpoint(m, a["p"])
    o = vadd(m.M and wpoint(m, [.5, .5, .5]), a["o"])
    d = vsub(tgt, o)
    if vlen(d) < 1e-3:
        raise Reject()
    return o, vmul(vnorm(d), a["len"])


def tau_model(m, o, d, mint, maxt, step, u):
    """the documented estimator: midpoint-like sums every `step` units of length, offset by u steps"""
    r = m.r
    e = m.clip(o, d, mint, maxt)
    if e is None:
        return [0.] * 3
    L = vlen(d)
    st_ = vadd(r["sa"], r["ss"])
    if r["kind"] == "homog":
        return vmul(st_, (e[1] - e[0]) * L)
    t, t1, tot = e[0] * L + u * step, e[1] * L, 0.
    n = 0
    while t < t1:
        if t1 - t < 1e-6 or n > 500:
            raise Reject()
        tot += m.density(vadd(o, vmul(d, t / L)))
        t += step
        n += 1
    if t - t1 < 1e-6:
        raise Reject()
    return vmul(st_, tot * step)


def thickness(a):
    """optical thickness: exact for homogeneous media, the step sum for densities; additive along the ray; independent of the direction's length"""
    r = a["r"]
    R, m = region(r), Model(r)
    o, d = ray_of(a, m)
    mint, maxt = a["rng"]
    maxt = INF if maxt is None else maxt
    e = m.clip(o, d, mint, maxt)
    step, u = a["step"], a["u"]
    exp = tau_model(m, o, d, mint, maxt, step, u)
    ray = geo.Ray(geo.Point(*o), geo.Vector(*d), mint, maxt, 0, a["time"])
    got = R.tau(ray, step, u)
    require(isinstance(got, Spectrum), "tau returned %s", type(got))
    req_vclose(got, exp, "tau", 1e-6, 1e-7)
    require(fl(ray.o) == o and fl(ray.d) == d and float(ray.mint) == mint and float(ray.maxt) == maxt, "ray altered")
    k = a["k"]
    r2 = geo.Ray(geo.Point(*o), geo.Vector(*vmul(d, k)), mint / k, maxt / k, 0, a["time"])
    req_vclose(R.tau(r2, step, u), exp, "tau of the rescaled ray", 1e-6, 1e-6)
    if e:
        require(isinstance(R.tau(ray), Spectrum), "tau with default step")
        mid = (e[0] + e[1]) / 2
        if r["kind"] == "homog":
            p = R.tau(geo.Ray(geo.Point(*o), geo.Vector(*d), mint, mid))
            q = R.tau(geo.Ray(geo.Point(*o), geo.Vector(*d), mid, maxt))
            req_vclose(vadd(fl(p), fl(q)), exp, "tau of the two halves", 1e-6, 1e-7)
    label(r["kind"])
    nontriv(e is not None)


def aggregate(a):
    """several regions add up; the phase function is the scattering-weighted mean; the bound is the union; the overlap the hull"""
    rs = a["rs"]
    ms = [Model(r) for r in rs]
    parts = [region(r) for r in rs]
    A = AggregateVolume(parts)
    m0 = ms[a["k"] % len(ms)]
    wp = wpoint(m0, a["p"])
    P, W, V, t = geo.Point(*wp), geo.Vector(*a["w"]), geo.Vector(*a["v"]), a["time"]
    rho = [m.density(wp) for m in ms]
    for fn, key in ((A.sigma_a, "sa"), (A.sigma_s, "ss"), (A.lve, "le")):
        e = [0.] * 3
        for r, q in zip(rs, rho):
            e = vadd(e, vmul(r[key], q))
        req_vclose(fn(P, W, t), e, fn.__name__, 1e-6, 1e-8)
    e = [0.] * 3
    for r, q in zip(rs, rho):
        e = vadd(e, vmul(vadd(r["sa"], r["ss"]), q))
    req_vclose(A.sigma_t(P, W, t), e, "sigma_t", 1e-6, 1e-8)
    # phase
    Y = [.212671, .715160, .072169]
    wts = [vdot(Y, r["ss"]) * q for r, q in zip(rs, rho)]
    if sum(wts) > 1e-6:
        c = vdot(a["w"], a["v"])
        p = A.p(P, W, V, t)
        require(np.ndim(p) == 0, "phase function of shape %r", np.shape(p))
        req_close(p, sum(w * hg(c, r["g"]) for w, r in zip(wts, rs)) / sum(wts), "phase of the mixture", 1e-6, 1e-9)
    sets = []
    for m in ms:
        sets.append([mapply_point(m.M, [(m.lo, m.hi)[i][0], (m.lo, m.hi)[j][1], (m.lo, m.hi)[k][2]]) for i in (0, 1) for j in (0, 1) for k in (0, 1)])
    check_box(A.world_bound(), sets)
    o, d = ray_of(a, m0)
    es = [m.clip(o, d, 0., INF) for m in ms]
    h = [e for e in es if e]
    hit, t0, t1 = A.intersect_p(geo.Ray(geo.Point(*o), geo.Vector(*d)))
    require(bool(hit) == bool(h), "overlap %r, expected %r", hit, h)
    if h:
        req_close(t0, min(e[0] for e in h), "entry", 1e-6, 1e-7)
        req_close(t1, max(e[1] for e in h), "exit", 1e-6, 1e-7)
    exp = [0.] * 3
    for m in ms:
        exp = vadd(exp, tau_model(m, o, d, 0., INF, a["step"], a["u"]))
    req_vclose(A.tau(geo.Ray(geo.Point(*o), geo.Vector(*d)), a["step"], a["u"]), exp, "tau", 1e-6, 1e-7)
    label("overlap" if sum(1 for q in rho if q > 0) > 1 else "single" if any(rho) else "none")
    nontriv(len(rs) > 1 and any(rho))


def bssrdf(a):
    b = BSSRDF(spec(a["sa"]), spec(a["ss"]), a["eta"])
    require(fl(b.sigma_a) == a["sa"] and fl(b.sigma_prime_s) == a["ss"] and float(b.eta) == a["eta"], "BSSRDF fields")
    require(str(a["eta"])[:3] in repr(b), "repr")
    names = sorted(MEDIA)
    n = names[a["k"] % len(names)]
    scattering, absorption = MEDIA[n]
    for again in range(2):
        x, y = get_volume_scattering(n)
        require(isinstance(x, Spectrum) and isinstance(y, Spectrum), "data of %s", n)
        require(fl(x) == absorption, "absorption of %s: %s, published %s", n, fl(x), absorption)
        require(fl(y) == scattering, "reduced scattering of %s: %s, published %s", n, fl(y), scattering)
        x *= 2.
        y += 1.
    for q in ("no such " + n, n + " ", n.upper() + "?"):
        require(list(get_volume_scattering(q)) == [None, None], "unknown medium")
    nontriv()
