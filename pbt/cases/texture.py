"""Texture mappings and textures from case descriptions: the library objects and independent models of them."""
import math
from cases.base import *
from cases import noise as m
from cases import p03, p18
import numpy as np
import pytracer.geometry as geo
import pytracer.texture.texturemap as tm
import pytracer.texture.texture as tx
from pytracer import Spectrum

TAU = 2 * math.pi
SPLINE = [[.58, .58, .6], [.58, .58, .6], [.58, .58, .6], [.5, .5, .5], [.6, .59, .58], [.58, .58, .6], [.58, .58, .6], [.2, .2, .33], [.58, .58, .6]]


def dg(a):
    g = geo.DifferentialGeometry(geo.Point(*a["p"]), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.), geo.Normal(0., 0., 0.), geo.Normal(0., 0., 0.),
                                 a["u"], a["v"], None)
    g.dudx, g.dvdx, g.dudy, g.dvdy = a["duv"]
    g.dpdx, g.dpdy = geo.Vector(*a["dx"]), geo.Vector(*a["dy"])
    return g


def state(g):
    return [fl(g.p), g.u, g.v, g.dudx, g.dvdx, g.dudy, g.dvdy, fl(g.dpdx), fl(g.dpdy), fl(g.nn)]


def b_map(k):
    if k[0] == "uv":
        return tm.UVMapping2D(*k[1])
    if k[0] == "sphere":
        return tm.SphericalMapping2D(p03.build(k[1]))
    if k[0] == "cylinder":
        return tm.CylindricalMapping2D(p03.build(k[1]))
    if k[0] == "plane":
        return tm.PlannarMapping2D(geo.Vector(*k[1]), geo.Vector(*k[2]), *k[3])
    return tm.IdentityMapping3D(p03.build(k[1]))


def angular(k, a):
    """(coordinates, derivative along dpdx, along dpdy, error of a forward difference of those) of the spherical and cylindrical mappings"""
    M = mchain(k[1])
    x = mapply_point(M, a["p"])
    r, rho = vlen(x), math.hypot(x[0], x[1])
    if r < 1e-3 or rho < .02 * r:
        raise Reject("pole")

    def der(v):
        w = mapply_vec(M, v)
        dphi = (x[0] * w[1] - x[1] * w[0]) / (rho * rho)
        dr = vdot(x, w) / r
        dz = (w[2] - x[2] / r * dr) / r
        return dphi / TAU, dz, (vlen(w) / rho) ** 2
    phi = math.atan2(x[1], x[0])
    z = x[2] / r
    dx, dy = der(a["dx"]), der(a["dy"])
    if k[0] == "sphere":
        f = -1 / math.sqrt(1 - z * z) / math.pi
        return [math.acos(z) / math.pi, (phi % TAU) / TAU], [dx[1] * f, dx[0]], [dy[1] * f, dy[0]], [dx[2], dy[2]], 1
    return [(phi + math.pi) / TAU, z], [dx[0], dx[1]], [dy[0], dy[1]], [dx[2], dy[2]], 0


def m_map(k, a):
    """[s, t, dsdx, dtdx, dsdy, dtdy]; the differentials of the angular mappings are exact derivatives"""
    if k[0] == "uv":
        su, sv, du, dv = k[1]
        q = a["duv"]
        return [su * a["u"] + du, sv * a["v"] + dv, su * q[0], sv * q[1], su * q[2], sv * q[3]]
    if k[0] == "plane":
        vs, vt, o = k[1], k[2], k[3]
        return [o[0] + vdot(a["p"], vs), o[1] + vdot(a["p"], vt), vdot(a["dx"], vs), vdot(a["dx"], vt), vdot(a["dy"], vs), vdot(a["dy"], vt)]
    st, dx, dy, e, w = angular(k, a)
    if min(st[w], 1 - st[w]) < 1e-9:
        raise Reject("seam")
    return st + dx + dy


def m_map3(k, a):
    M = mchain(k[1])
    return mapply_point(M, a["p"]), mapply_vec(M, a["dx"]), mapply_vec(M, a["dy"])


def cell(x):
    c = math.floor(x)
    if x != c and abs(x - round(x)) < 1e-7:
        raise Reject("cell border")
    return int(c)


def rgb(c):
    p18.init()
    return Spectrum.from_rgb(list(c))


def b_val(v):
    return rgb(v) if isinstance(v, list) else float(v)


def m_val(v):
    return fl(rgb(v)) if isinstance(v, list) else float(v)


def mul(x, y):
    if isinstance(x, list) and isinstance(y, list):
        return [p * q for p, q in zip(x, y)]
    if isinstance(x, list):
        return [p * y for p in x]
    if isinstance(y, list):
        return [x * q for q in y]
    return x * y


def add(x, y):
    if isinstance(x, list) and isinstance(y, list):
        return [p + q for p, q in zip(x, y)]
    if isinstance(x, list):
        return [p + y for p in x]
    if isinstance(y, list):
        return [x + q for q in y]
    return x + y


def mix(w):
    r = 0.
    for c, x in w:
        r = add(r, mul(c, x))
    return r


def odd(x, h):
    """fraction of [x - h, x + h] in cells of odd index"""
    if h == 0:
        return float(cell(x) % 2)
    lo, hi = x - h, x + h
    s = 0.
    for c in range(int(math.floor(lo)), int(math.floor(hi)) + 1):
        if c % 2:
            s += max(0., min(hi, c + 1) - max(lo, c))
    return s / (hi - lo)


def b_tex(k):
    t = k[0]
    if t == "const":
        return tx.ConstantTexture(b_val(k[1]))
    if t == "scale":
        return tx.ScaleTexture(b_tex(k[1]), b_tex(k[2]))
    if t == "mix":
        return tx.MixTexture(b_tex(k[1]), b_tex(k[2]), b_tex(k[3]))
    if t == "bilerp":
        return tx.BilerpTexture(b_map(k[1]), *[b_val(v) for v in k[2]])
    if t == "uv":
        p18.init()
        return tx.UVTexture(b_map(k[1]))
    if t == "checks":
        return tx.Chekcerboard2DTexture(b_map(k[1]), b_tex(k[2]), b_tex(k[3]), k[4])
    if t == "checks3":
        return tx.Checkboard3DTexture(b_map(k[1]), b_tex(k[2]), b_tex(k[3]))
    if t == "dots":
        return tx.DotsTexture(b_map(k[1]), b_tex(k[2]), b_tex(k[3]))
    if t == "fbm":
        return tx.FBmTexture(k[2], k[3], b_map(k[1]))
    if t == "wrinkled":
        return tx.WrinkledTexture(k[2], k[3], b_map(k[1]))
    if t == "windy":
        return tx.WindyTexture(b_map(k[1]))
    if t == "marble":
        p18.init()
        return tx.MarbleTexture(k[2], k[3], k[4], k[5], b_map(k[1]))
    raise ValueError(t)


def foot(x, y):
    return max(vdot(x, x), vdot(y, y))


def m_tex(k, a):
    t = k[0]
    if t == "const":
        return m_val(k[1])
    if t == "scale":
        return mul(m_tex(k[1], a), m_tex(k[2], a))
    if t == "mix":
        w = m_tex(k[3], a)
        return mix([(1 - w, m_tex(k[1], a)), (w, m_tex(k[2], a))])
    if t == "bilerp":
        s, q = m_map(k[1], a)[:2]
        v = [m_val(x) for x in k[2]]
        return mix([((1 - s) * (1 - q), v[0]), ((1 - s) * q, v[1]), (s * (1 - q), v[2]), (s * q, v[3])])
    if t == "uv":
        s, q = m_map(k[1], a)[:2]
        return fl(rgb([s - cell(s), q - cell(q), 0.]))
    if t == "checks":
        s, q, sx, qx, sy, qy = m_map(k[1], a)
        x, y = m_tex(k[2], a), m_tex(k[3], a)
        if k[4] is None or k[4].lower() == "none":
            return y if (cell(s) + cell(q)) % 2 else x
        h, l = max(abs(sx), abs(sy)), max(abs(qx), abs(qy))
        if h > 1 or l > 1:
            raise Reject("filter wider than a check: judged on its own")
        fs, ft = odd(s, h), odd(q, l)
        f = fs * (1 - ft) + ft * (1 - fs)
        return mix([(1 - f, x), (f, y)])
    if t == "checks3":
        p = m_map3(k[1], a)[0]
        return m_tex(k[3] if sum(cell(x) for x in p) % 2 else k[2], a)
    if t == "dots":
        s, q = m_map(k[1], a)[:2]
        sc, qc = cell(s + .5), cell(q + .5)
        n = m.noise([sc + .5, qc + .5, .5])
        if abs(n) < 1e-9:
            raise Reject("dot border")
        if n > 0:
            ds = s - sc - .15 * m.noise([sc + 1.5, qc + 2.8, .5])
            dq = q - qc - .15 * m.noise([sc + 4.5, qc + 9.8, .5])
            r = math.hypot(ds, dq)
            if abs(r - .35) < 1e-7:
                raise Reject("dot border")
            if r < .35:
                label("inside a dot")
                return m_tex(k[2], a)
        return m_tex(k[3], a)
    p, x, y = m_map3(k[1], a)
    if t in ("fbm", "wrinkled"):
        return m.fbm(p, foot(x, y), k[3], k[2], abs if t == "wrinkled" else lambda v: v)
    if t == "windy":
        return abs(m.fbm(vmul(p, .1), .01 * foot(x, y), .5, 3)) * m.fbm(p, foot(x, y), .5, 6)
    if t == "marble":
        n, om, sc, var = k[2:6]
        p = vmul(p, sc)
        v = p[1] + var * m.fbm(p, sc * sc * foot(x, y), om, n)
        w = (.5 + .5 * math.sin(v)) * 6
        i = min(5, int(math.floor(w)))
        w -= i
        c = [fl(rgb(z)) for z in SPLINE[i:i + 4]]
        b = [(1 - w) ** 3, 3 * w * (1 - w) ** 2, 3 * w * w * (1 - w), w ** 3]
        return mul(1.5, mix(zip(b, c)))
    raise ValueError(t)


def req_val(got, e, what, rtol=1e-7, atol=1e-7):
    if isinstance(e, list):
        require(isinstance(got, Spectrum), "%s: %s is no spectrum", what, type(got))
        req_vclose(got, e, what, rtol, atol)
    else:
        require(np.ndim(got) == 0, "%s: %r is no number", what, got)
        req_close(got, e, what, rtol, atol)
