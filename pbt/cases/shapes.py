"""Shape builders and independent shape oracles (object space, closed form)."""
import math
from cases.base import *
from cases.p03 import build as build_t
import pytracer.geometry as geo
from pytracer.transform import Transform
from pytracer.shape import Sphere, Cylinder, Disk, create_triangle_mesh

TWO_PI = 2 * math.pi
INF = float("inf")


def build_shape(s):
    """-> pytracer shape (triangle specs give the first triangle of the mesh)"""
    T = build_t(s["t"])
    ro = bool(s["ro"])
    k = s["k"]
    W = T.inverse()
    if k == "sphere":
        return Sphere(T, W, ro, s["r"], s["z0"], s["z1"], s["phi"])
    if k == "cyl":
        return Cylinder(T, W, ro, s["r"], s["z0"], s["z1"], s["phi"])
    if k == "disk":
        return Disk(T, W, ro, s["h"], s["r"], s["ri"], s["phi"])
    if k == "tri":
        return build_mesh(s).refine()[0]
    raise ValueError(k)


def build_mesh(s):
    T = build_t(s["t"])
    par = {"indices": s.get("vi", [0, 1, 2]), "P": [c for p in s["P"] for c in p]}
    if s.get("uv") is not None:
        par["uv"] = list(s["uv"])
    if s.get("N") is not None:
        par["N"] = [geo.Normal(*n) for n in s["N"]]
    if s.get("S") is not None:
        par["S"] = [geo.Vector(*n) for n in s["S"]]
    return create_triangle_mesh(T, T.inverse(), bool(s["ro"]), par)


class Obj(object):
    """Closed-form model of a shape in object space."""

    def __init__(self, s):
        self.s = s
        self.k = s["k"]
        self.M = mchain(s["t"])
        self.Mi = minv(self.M)
        self.mirror = m3det(self.M) < 0
        if self.k in ("sphere", "cyl"):
            self.zmin, self.zmax = min(s["z0"], s["z1"]), max(s["z0"], s["z1"])
            self.R = s["r"]
            if self.k == "sphere":
                self.zmin = min(max(self.zmin, -self.R), self.R)
                self.zmax = min(max(self.zmax, -self.R), self.R)
        if self.k != "tri":
            self.phimax = math.radians(min(max(s["phi"], 0.), 360.))
        else:
            vi = s.get("vi", [0, 1, 2])
            self.v = [s["P"][i] for i in vi[:3]]
            if s.get("uv") is not None:
                self.uv = [[s["uv"][2 * i], s["uv"][2 * i + 1]] for i in vi[:3]]
            else:
                self.uv = [[0., 0.], [1., 0.], [1., 1.]]

    # ---- parameterisation: (u,v) in [0,1]^2 -> object-space point
    def at(self, u, v):
        k = self.k
        if k == "tri":
            raise ValueError
        phi = u * self.phimax
        if k == "sphere":
            t0 = math.acos(min(1., max(-1., self.zmin / self.R)))
            t1 = math.acos(min(1., max(-1., self.zmax / self.R)))
            th = t0 + v * (t1 - t0)
            return [self.R * math.sin(th) * math.cos(phi), self.R * math.sin(th) * math.sin(phi), self.R * math.cos(th)]
        if k == "cyl":
            return [self.R * math.cos(phi), self.R * math.sin(phi), self.zmin + v * (self.zmax - self.zmin)]
        r = self.s["r"] + v * (self.s["ri"] - self.s["r"])
        return [r * math.cos(phi), r * math.sin(phi), self.s["h"]]

    def normal(self, p):
        """unit object-space normal, outward / +z / counter-clockwise winding"""
        if self.k == "sphere":
            return vnorm(p)
        if self.k == "cyl":
            return vnorm([p[0], p[1], 0.])
        if self.k == "disk":
            return [0., 0., 1.]
        return vnorm(vcross(vsub(self.v[1], self.v[0]), vsub(self.v[2], self.v[0])))

    def wnormal(self, n):
        """world image of an object-space normal direction"""
        return vnorm(mapply_vec(mT([r[:3] for r in self.Mi[:3]]), n))

    def toworld(self, p):
        return mapply_point(self.M, p)

    def area(self):
        s = self.s
        if self.k in ("sphere", "cyl"):
            return self.phimax * self.R * (self.zmax - self.zmin)
        if self.k == "disk":
            return self.phimax / 2 * (s["r"] ** 2 - s["ri"] ** 2)
        w = [self.toworld(p) for p in self.v]
        return vlen(vcross(vsub(w[1], w[0]), vsub(w[2], w[0]))) / 2

    # ---- ray intersection: list of (t, margin) candidates; margin>0 on the shape, <0 off, tiny: ambiguous
    def candidates(self, o, d):
        k = self.k
        s = self.s
        if k == "tri":
            return self._tri(o, d)
        if k == "disk":
            n = vlen(d)
            if abs(d[2]) < 1e-4 * n or abs(d[2]) < 2e-5:
                return [(0., 0.)] if abs(d[2]) > 0 else []
            t = (s["h"] - o[2]) / d[2]
            p = vadd(o, vmul(d, t))
            rho = math.hypot(p[0], p[1])
            m = [(s["r"] - rho) / s["r"]]
            if s["ri"] > 0:
                m.append((rho - s["ri"]) / s["r"])
            m += self._phi(p, rho / s["r"])
            return [(t, min(m))]
        if k == "sphere":
            a, b, c = vdot(d, d), 2 * vdot(d, o), vdot(o, o) - self.R ** 2
        else:
            a, b = d[0] ** 2 + d[1] ** 2, 2 * (d[0] * o[0] + d[1] * o[1])
            c = o[0] ** 2 + o[1] ** 2 - self.R ** 2
            if a < 1e-8 * vdot(d, d):
                return [(0., 0.)] if a > 0 else []
        D = b * b - 4 * a * c
        sc = b * b + 4 * a * (abs(c) + self.R ** 2)
        if abs(D) < 1e-6 * sc:
            return [(0., 0.)]
        if D < 0:
            return []
        q = -.5 * (b + math.copysign(math.sqrt(D), b))
        ts = sorted([q / a, c / q])
        out = []
        for t in ts:
            p = vadd(o, vmul(d, t))
            m = [1.]
            if k == "cyl" or self.zmin > -self.R:
                m.append((p[2] - self.zmin) / self.R)
            if k == "cyl" or self.zmax < self.R:
                m.append((self.zmax - p[2]) / self.R)
            m += self._phi(p, math.hypot(p[0], p[1]) / self.R)
            out.append((t, min(m)))
        return out

    def _phi(self, p, rho):
        if self.phimax >= TWO_PI - 1e-12:
            return []
        phi = math.atan2(p[1], p[0]) % TWO_PI
        # angular distance to both clip edges, scaled to a length
        return [min(phi * rho, (self.phimax - phi) * rho) if phi <= self.phimax
                else -min((phi - self.phimax) * rho, (TWO_PI - phi) * rho)]

    def _tri(self, o, d):
        p1, p2, p3 = self.v
        e1, e2 = vsub(p2, p1), vsub(p3, p1)
        n = vcross(e1, e2)
        an = vlen(n)
        if an < 1e-5 * (vlen(e1) * vlen(e2) + 1e-30) or an == 0:
            return [(0., 0.)]
        den = vdot(n, d)
        if abs(den) < 1e-5 * an * vlen(d):
            return [(0., 0.)]
        t = vdot(n, vsub(p1, o)) / den
        p = vadd(o, vmul(d, t))
        m = []
        for a, b in ((p1, p2), (p2, p3), (p3, p1)):
            e = vsub(b, a)
            m.append(vdot(n, vcross(e, vsub(p, a))) / an / an)
        return [(t, min(m))]

    def bary(self, p):
        p1, p2, p3 = self.v
        n = vcross(vsub(p2, p1), vsub(p3, p1))
        nn = vdot(n, n)
        b0 = vdot(n, vcross(vsub(p3, p2), vsub(p, p2))) / nn
        b1 = vdot(n, vcross(vsub(p1, p3), vsub(p, p3))) / nn
        return [b0, b1, 1 - b0 - b1]

    def first_hit(self, wo, wd, mint, maxt, tol=1e-6):
        """-> None (miss) or (t, object point); raises Reject when too close to call."""
        o, d = mapply_point(self.Mi, wo), mapply_vec(self.Mi, wd)
        reach = 1 + vlen(o) / max(self.s.get("r", 1.), 1e-9) * 1e-3
        for t, m in self.candidates(o, d):
            if abs(m) < tol * reach:
                raise Reject()
            tt = 1e-7 * (1 + abs(t))
            if abs(t - mint) < tt or abs(t - maxt) < tt:
                raise Reject()
            if m > 0 and mint < t < maxt:
                return t, vadd(o, vmul(d, t))
        return None


def aim(m, a):
    """world origin and direction of a ray aimed near the shape.

    a: u,v parameters of the target, off: object-space offset of the target, o: object-space origin, len: length factor
    """
    if m.k == "tri":
        u, v = a["uv"]
        if u + v > 1:
            u, v = 1 - u, 1 - v
        p = [m.v[0][i] + u * (m.v[1][i] - m.v[0][i]) + v * (m.v[2][i] - m.v[0][i]) for i in range(3)]
    else:
        p = m.at(a["uv"][0], a["uv"][1])
    p = vadd(p, a["off"])
    wo = m.toworld(a["o"])
    wp = m.toworld(p)
    wd = vmul(vsub(wp, wo), a["len"])
    if vlen(wd) < 1e-6:
        raise Reject()
    return wo, wd


def dg_finite(dg):
    for x in (dg.p, dg.dpdu, dg.dpdv, dg.nn, dg.dndu, dg.dndv, [dg.u, dg.v]):
        for c in fl(x):
            require(isfinite(c), "non-finite differential geometry: p=%r dpdu=%r dpdv=%r nn=%r uv=%r", fl(dg.p), fl(dg.dpdu), fl(dg.dpdv), fl(dg.nn), (dg.u, dg.v))
