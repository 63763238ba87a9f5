"""P02 axis-aligned boxes: lattice algebra, measures, ray overlap."""
import math
from cases.base import *
import pytracer.geometry as geo

INF = float("inf")
P = lambda v: geo.Point(*v)


def lohi(b):
    return fl(b.pMin), fl(b.pMax)


class M(object):
    """model box"""

    def __init__(self, pts=()):
        self.lo = [INF] * 3
        self.hi = [-INF] * 3
        for p in pts:
            self.add(p)

    def add(self, p):
        for i in range(3):
            self.lo[i] = min(self.lo[i], p[i])
            self.hi[i] = max(self.hi[i], p[i])

    def join(self, o):
        for i in range(3):
            self.lo[i] = min(self.lo[i], o.lo[i])
            self.hi[i] = max(self.hi[i], o.hi[i])

    def empty(self):
        return any(l > h for l, h in zip(self.lo, self.hi))


def same(b, m, what):
    lo, hi = lohi(b)
    require(lo == m.lo and hi == m.hi, "%s: box %r..%r, expected %r..%r", what, lo, hi, m.lo, m.hi)


def union_history(a):
    b, m = geo.BBox(), M()
    same(b, m, "empty")
    n = 0
    for op in a["ops"]:
        if op[0] == "pt":
            p = P(op[1])
            s = geo.BBox.Union(b, p)
            before = lohi(b)
            m.add(op[1])
            same(s, m, "Union(box, point)")
            require(lohi(b) == before, "Union changed its operand")
            r = b.union(p)
            require(r is b, "in-place union returns another object")
            req_vclose(p, op[1], "union changed the point", 0, 0)
            n += 1
        elif op[0] == "box":
            o = geo.BBox(P(op[1]), P(op[2]))
            mo = M([op[1], op[2]])
            same(o, mo, "box of two corners")
            s = geo.BBox.Union(b, o)
            m.join(mo)
            same(s, m, "Union(box, box)")
            b.union(o)
            same(o, mo, "union changed its operand")
            n += 1
        elif op[0] == "empty":
            b.union(geo.BBox())
            same(geo.BBox.Union(geo.BBox(), b), m, "Union(empty, box)")
            same(geo.BBox.Union(b, geo.BBox()), m, "Union(box, empty)")
        elif op[0] == "expand":
            if m.empty():
                continue
            r = b.expand(op[1])
            require(r is b, "expand returns another object")
            m.lo = [x - op[1] for x in m.lo]
            m.hi = [x + op[1] for x in m.hi]
        else:
            c = geo.BBox.from_bbox(b)
            same(c, m, "copy")
            require(bool(c == b) and not bool(c != b), "a copy is not equal to its source")
            c.union(P([1e4, 1e4, 1e4]))
            same(b, m, "the copy aliases its source")
        same(b, m, "after %s" % op[0])
        pr = a["probe"]
        require(bool(b.inside(P(pr))) == all(m.lo[i] <= pr[i] <= m.hi[i] for i in range(3)), "inside(%r)", pr)
        req_vclose(b[0], m.lo, "b[0]", 0, 0)
        req_vclose(b[1], m.hi, "b[1]", 0, 0)
    for op in a["ops"]:
        for p in op[1:]:
            if isinstance(p, list):
                require(b.inside(P(p)), "an inserted point %r is outside the box", p)
    must_raise(TypeError, lambda: b.union(geo.Vector(0., 0., 0.)), "union with a vector")
    must_raise(TypeError, lambda: geo.BBox.Union(b, geo.Vector(0., 0., 0.)), "Union with a vector")
    nontriv(n >= 3)


def mk(c):
    if c is None:
        return geo.BBox(), M()
    return geo.BBox(P(c[0]), P(c[1])), M(c)


def union_algebra(a):
    (x, mx), (y, my), (z, mz) = [mk(c) for c in a["b"]]
    U = geo.BBox.Union
    require(bool(U(x, y) == U(y, x)), "union is not commutative")
    require(bool(U(U(x, y), z) == U(x, U(y, z))), "union is not associative")
    require(bool(U(x, x) == x), "union is not idempotent")
    require(bool(U(x, geo.BBox()) == x), "the empty box is not neutral")
    for b, c, mb, mc in ((x, y, mx, my), (y, z, my, mz), (x, x, mx, mx)):
        eq = mb.lo == mc.lo and mb.hi == mc.hi
        require(bool(b == c) == eq, "== of %r and %r", lohi(b), lohi(c))
        require(bool(b != c) == (not eq), "!= of %r and %r", lohi(b), lohi(c))
    p = a["p"]
    half = geo.BBox(P(p))
    require(lohi(half) == (p, [INF] * 3), "half-space box above a point")
    half = geo.BBox(None, P(p))
    require(lohi(half) == ([-INF] * 3, p), "half-space box below a point")
    nontriv(not mx.empty() and not my.empty() and mx.lo != my.lo)


def measures(a):
    p, q, r, t = a["p"], a["q"], a["r"], a["t"]
    b = geo.BBox(P(p), P(q))
    m = M([p, q])
    e = vsub(m.hi, m.lo)
    req_close(b.volume(), e[0] * e[1] * e[2], "volume", 1e-12, 1e-300)
    req_close(b.surface_area(), 2 * (e[0] * e[1] + e[1] * e[2] + e[2] * e[0]), "surface area", 1e-12, 1e-300)
    ax = b.maximum_extent()
    require(ax in (0, 1, 2) and e[ax] == max(e), "maximum_extent %r of %r", ax, e)
    req_vclose(b.lerp(*t), [l + (h - l) * s for l, h, s in zip(m.lo, m.hi, t)], "lerp", 1e-12, 1e-11)
    req_vclose(b.lerp(0., 0., 0.), m.lo, "lerp(0)", 0, 0)
    req_vclose(b.lerp(1., 1., 1.), m.hi, "lerp(1)", 0, 0)
    if min(e) > 1e-3:
        nontriv()
        off = b.offset(P(r))
        req_vclose(off, [(x - l) / s for x, l, s in zip(r, m.lo, e)], "offset", 1e-11, 1e-11)
        req_vclose(b.lerp(*fl(off)), r, "lerp(offset(p))", 1e-9, 1e-9)
        req_vclose(b.offset(b.lerp(*t)), t, "offset(lerp(t))", 1e-9, 1e-9)
    require(bool(b.inside(P(r))) == all(m.lo[i] <= r[i] <= m.hi[i] for i in range(3)), "inside(%r)", r)
    for c in ([m.lo[0], m.hi[1], m.lo[2]], m.lo, m.hi, [m.hi[0], m.lo[1], m.hi[2]]):
        require(b.inside(P(c)), "corner %r is outside its box", c)
    for i in range(3):
        for s in (-1e-6, 1e-6):
            c = list(m.lo if s < 0 else m.hi)
            c[i] += s
            require(not b.inside(P(c)), "point %r beyond face is inside", c)
    c, rad = b.bounding_sphere()
    req_vclose(c, vmul(vadd(m.lo, m.hi), .5), "bounding sphere centre", 1e-12, 1e-12)
    if b.inside(c):
        req_close(rad, .5 * vlen(e), "bounding sphere radius", 1e-9, 1e-9)
    same(b, m, "measures changed the box")


def overlap(a):
    p, q, r, s = a["p"], a["q"], list(a["r"]), list(a["s"])
    m = M([p, q])
    for i in range(3):                    # touching faces
        if a["same"] >> i & 1:
            r[i] = m.hi[i]
            s[i] = m.hi[i] + abs(s[i])
    n = M([r, s])
    x, y = geo.BBox(P(p), P(q)), geo.BBox(P(r), P(s))
    exp = all(m.lo[i] <= n.hi[i] and n.lo[i] <= m.hi[i] for i in range(3))
    require(bool(x.overlaps(y)) == exp, "overlaps %r %r", lohi(x), lohi(y))
    require(bool(y.overlaps(x)) == exp, "overlaps is not symmetric")
    require(not x.overlaps(geo.BBox()), "a box overlaps the empty box")
    nontriv()
    label("overlap" if exp else "disjoint")


def slab(lo, hi, o, dr, t0, t1):
    """(status, t0, t1); status in hit / miss / unsure (within rounding of the boundary)"""
    unsure = False
    for i in range(3):
        if dr[i] == 0.:
            if not lo[i] <= o[i] <= hi[i]:
                return "miss", 0., 0.
            continue
        n, f = (lo[i] - o[i]) / dr[i], (hi[i] - o[i]) / dr[i]
        if n > f:
            n, f = f, n
        t0, t1 = max(t0, n), min(t1, f)
    tol = 1e-11 * (1. + abs(t0) + (abs(t1) if t1 < INF else 0.))
    if t0 > t1 + tol:
        return "miss", 0., 0.
    if t0 > t1 - tol and t0 != t1:
        unsure = True
    return ("unsure" if unsure else "hit"), t0, t1


def check_ray(lo, hi, o, dr, mint, maxt):
    b = geo.BBox(P(lo), P(hi))
    for cls in (geo.Ray, geo.RayDifferential):
        r = cls(P(o), geo.Vector(*dr), mint, maxt)
        res = b.intersect_p(r)
        hit, t0, t1 = bool(res[0]), float(res[1]), float(res[2])
        st, e0, e1 = slab(lo, hi, o, dr, mint, maxt)
        if st != "unsure":
            require(hit == (st == "hit"), "ray o=%r d=%r [%r,%r] against %r..%r: reported %s, overlap %s [%r,%r]",
                    o, dr, mint, maxt, lo, hi, hit, st, e0, e1)
        if hit:
            req_close(t0, e0, "entry parameter", 1e-9, 1e-9)
            req_close(t1, e1, "exit parameter", 1e-9, 1e-9)
        require((r.mint, r.maxt) == (mint, maxt), "intersect_p changed the ray")
        require(lohi(b) == (lo, hi), "intersect_p changed the box")
    return st


def ray_slab(a):
    m = M([a["p"], a["q"]])
    o = list(a["o"])
    k = a["snap"]
    for i in range(3):                     # put the origin on slab planes sometimes
        c = k % 3
        k //= 3
        if c == 1:
            o[i] = m.lo[i]
        elif c == 2:
            o[i] = m.hi[i]
    maxt = INF if a["maxt"] is None else a["mint"] + a["maxt"]
    st = check_ray(m.lo, m.hi, o, a["dr"], a["mint"], maxt)
    label(st)
    if 0. in a["dr"]:
        label("axis-parallel")
    nontriv(st == "hit" or a["snap"] > 0)


def ray_through(a):
    """A ray aimed at a known point of the box must report an overlap containing it."""
    m = M([a["p"], a["q"]])
    x = [l + (h - l) * t for l, h, t in zip(m.lo, m.hi, a["t"])]
    o = vsub(x, vmul(a["dr"], a["back"]))
    st = check_ray(m.lo, m.hi, o, a["dr"], 0., INF)
    if min(vsub(m.hi, m.lo)) > 1e-3 and min(min(t, 1 - t) for t in a["t"]) > 1e-3:
        require(st == "hit", "oracle")
        b = geo.BBox(P(m.lo), P(m.hi))
        hit, t0, t1 = b.intersect_p(geo.Ray(P(o), geo.Vector(*a["dr"])))
        require(hit and t0 <= a["back"] + 1e-6 and t1 >= a["back"] - 1e-6, "overlap does not contain the aimed point")
        nontriv()
