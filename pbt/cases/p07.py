"""P07 extents, areas and refinement of shapes."""
from cases.shapes import *
import pytracer.geometry as geo


def inside(b, p, tol, what):
    lo, hi = fl(b.pMin), fl(b.pMax)
    for i in range(3):
        require(lo[i] - tol <= p[i] <= hi[i] + tol, "%s: %r..%r misses surface point %r", what, lo, hi, p)


def surface(m, a):
    if m.k == "tri":
        out = [list(p) for p in m.v]
        for u, v in a["uvs"]:
            if u + v > 1:
                u, v = 1 - u, 1 - v
            out.append([m.v[0][i] + u * (m.v[1][i] - m.v[0][i]) + v * (m.v[2][i] - m.v[0][i]) for i in range(3)])
        return out
    out = [m.at(u, v) for u, v in a["uvs"]]
    for u in (0., .25, .5, .75, 1.):
        for v in (0., .5, 1.):
            out.append(m.at(u, v))
    return out


def bounds(a):
    s = a["s"]
    m = Obj(s)
    shp = build_shape(s)
    ob, wb = shp.object_bound(), shp.world_bound()
    pts = surface(m, a)
    size = max(vlen(p) for p in pts)
    for p in pts:
        inside(ob, p, 1e-7 * (1 + size) * (1 + max(abs(c) for r in m.Mi for c in r) if m.k == "tri" else 1.), "object bound")
        w = m.toworld(p)
        inside(wb, w, 1e-7 * (1 + vlen(w) + max(abs(m.M[i][3]) for i in range(3)) + size), "world bound")
    # repeated queries agree and do not accumulate
    require(fl(shp.object_bound().pMin) + fl(shp.object_bound().pMax) == fl(ob.pMin) + fl(ob.pMax), "object bound changes when asked again")
    require(fl(shp.world_bound().pMin) + fl(shp.world_bound().pMax) == fl(wb.pMin) + fl(wb.pMax), "world bound changes when asked again")
    # not needlessly large: the full solid of revolution, resp. the vertices, span the box
    if m.k == "tri":
        lo = [min(p[i] for p in m.v) for i in range(3)]
        hi = [max(p[i] for p in m.v) for i in range(3)]
        k = 1 + max(abs(c) for r in m.Mi for c in r) + max(abs(c) for r in m.M for c in r)
        req_vclose(ob.pMin, lo, "object bound pMin", 1e-6, 1e-8 * k * (1 + size))
        req_vclose(ob.pMax, hi, "object bound pMax", 1e-6, 1e-8 * k * (1 + size))
    else:
        R = s["r"]
        z0, z1 = (s["h"], s["h"]) if m.k == "disk" else (m.zmin, m.zmax)
        for i, (l, h) in enumerate(((-R, R), (-R, R), (z0, z1))):
            require(ob.pMin[i] >= l - 1e-6 * R and ob.pMax[i] <= h + 1e-6 * R, "object bound %r..%r exceeds the shape's cylinder", fl(ob.pMin), fl(ob.pMax))
    rot = any(op[0] == "R" and op[1] % 360. != 0 for op in s["t"])
    nontriv(rot)
    label("rotated" if rot else "unrotated")


def hits_in_bounds(a):
    """a ray that hits the shape also hits its world bound, no later"""
    s = a["s"]
    m = Obj(s)
    shp = build_shape(s)
    wo, wd = aim(m, a["aim"])
    m.first_hit(wo, wd, 0., INF)      # rejects grazing rays and slivers
    res = shp.intersect(geo.Ray(geo.Point(*wo), geo.Vector(*wd)))
    if not res[0]:
        raise Reject()
    wb = shp.world_bound()
    tol = 1e-5 * (1 + vlen(wo) + vlen(fl(res[3].p)) + max(abs(m.M[i][3]) for i in range(3)) + s.get("r", 1.))
    inside(wb, fl(res[3].p), tol, "world bound")
    b = geo.BBox(geo.Point(*[c - tol for c in fl(wb.pMin)]), geo.Point(*[c + tol for c in fl(wb.pMax)]))
    h, t0, t1 = b.intersect_p(geo.Ray(geo.Point(*wo), geo.Vector(*wd)))
    require(h, "ray hits the shape at %r but not its bound", fl(res[3].p))
    require(t0 <= res[1] + 1e-6 * (1 + abs(res[1])), "ray enters the bound at %r, after the hit at %r", t0, res[1])
    nontriv(len(s["t"]) > 0)


def areas(a):
    """area() is the surface integral of |dp/du x dp/dv| (object space for quadrics, world space for triangles)"""
    s = a["s"]
    m = Obj(s)
    shp = build_shape(s)
    if m.k == "tri":
        exp = m.area()
        # splitting at an interior point preserves the total area
        u, v = a["uv"]
        if u + v > 1:
            u, v = 1 - u, 1 - v
        p = [m.v[0][i] + u * (m.v[1][i] - m.v[0][i]) + v * (m.v[2][i] - m.v[0][i]) for i in range(3)]
        tot = 0.
        for i in range(3):
            q = dict(s, P=[m.v[i], m.v[(i + 1) % 3], p], vi=[0, 1, 2], uv=None)
            tot += build_shape(q).area()
        req_close(tot, shp.area(), "sum of the areas of three parts", 1e-7, 1e-8)
    else:
        # Gauss-Legendre (8 points) in v of the circumference integrand; exact circumference in u
        X = [0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363]
        W = [0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763]
        f = lambda v: _jac(m, .37, v)
        exp = 0.
        for x, w in zip(X, W):
            exp += w / 2 * (f(.5 + x / 2) + f(.5 - x / 2))
    req_close(shp.area(), exp, "area", 1e-5, 1e-8)
    nontriv()
    label(m.k)


def _jac(m, u, v, h=1e-5):
    du = vmul(vsub(m.at(u + h, v), m.at(u - h, v)), .5 / h)
    dv = vmul(vsub(m.at(u, v + h), m.at(u, v - h)), .5 / h)
    return vlen(vcross(du, dv))


def mesh(a):
    """a mesh is exactly the union of its triangles"""
    n = len(a["P"])
    vi = [i % n for i in a["vi"]]
    vi = vi[:len(vi) // 3 * 3]
    s = {"t": a["t"], "ro": a["ro"], "P": a["P"], "vi": vi, "uv": None}
    if a["uv"] is not None:
        s["uv"] = [a["uv"][i % len(a["uv"])] for i in range(2 * n)]
    me = build_mesh(s)
    M = mchain(a["t"])
    w = [mapply_point(M, p) for p in a["P"]]
    require(not me.can_intersect(), "a mesh claims to be directly intersectable")
    tris = me.refine()
    require(len(tris) == len(vi) // 3 == me.ntris, "%d triangles, expected %d", len(tris), len(vi) // 3)
    require(me.nverts == n, "nverts %r", me.nverts)
    sz = 1 + max(vlen(p) for p in w)
    ids = set([me.shapeId])
    for k, t in enumerate(tris):
        require(t.can_intersect(), "triangle is not intersectable")
        require(t.ro == bool(a["ro"]) and t.transform_swaps_handedness == (m3det(M) < 0), "orientation flags of triangle %d", k)
        for j in range(3):
            req_vclose(t[j], w[vi[3 * k + j]], "vertex %d of triangle %d" % (j, k), 1e-9, 1e-9 * sz)
        if s["uv"] is not None:
            for j in range(3):
                i = vi[3 * k + j]
                req_vclose(t.get_uvs()[j], [s["uv"][2 * i], s["uv"][2 * i + 1]], "uv %d of triangle %d" % (j, k), 0, 0)
        must_raise((KeyError, IndexError), lambda: t[3], "vertex 3")
        must_raise(NotImplementedError, lambda: t.refine(), "refining a triangle")
        require(t.shapeId not in ids, "shape id %r reused", t.shapeId)
        ids.add(t.shapeId)
        b, W = t.world_bound(), me.world_bound()
        tv = [w[vi[3 * k + j]] for j in range(3)]
        req_vclose(b.pMin, [min(p[i] for p in tv) for i in range(3)], "triangle world bound", 1e-9, 1e-9 * sz)
        req_vclose(b.pMax, [max(p[i] for p in tv) for i in range(3)], "triangle world bound", 1e-9, 1e-9 * sz)
        for p in tv:
            inside(W, p, 1e-9 * sz, "mesh world bound")
        to, O = [a["P"][vi[3 * k + j]] for j in range(3)], t.object_bound()
        req_vclose(O.pMin, [min(p[i] for p in to) for i in range(3)], "triangle object bound", 1e-7, 1e-7 * sz)
        req_vclose(O.pMax, [max(p[i] for p in to) for i in range(3)], "triangle object bound", 1e-7, 1e-7 * sz)
    W = me.world_bound()
    req_vclose(W.pMin, [min(p[i] for p in w) for i in range(3)], "mesh world bound", 1e-9, 1e-9 * sz)
    req_vclose(W.pMax, [max(p[i] for p in w) for i in range(3)], "mesh world bound", 1e-9, 1e-9 * sz)
    O = me.object_bound()
    req_vclose(O.pMin, [min(p[i] for p in a["P"]) for i in range(3)], "mesh object bound", 1e-7, 1e-7 * sz)
    req_vclose(O.pMax, [max(p[i] for p in a["P"]) for i in range(3)], "mesh object bound", 1e-7, 1e-7 * sz)
    nontriv(len(tris) > 1 and n > 3)


def described(a):
    """a mesh is what its description says"""
    P, n = a["P"], len(a["P"])
    vi = [i % n for i in a["vi"][:len(a["vi"]) // 3 * 3]]
    tris = [vi[i:i + 3] for i in range(0, len(vi), 3)]
    q = {"indices": list(vi), "P": [c for p in P for c in p] if a["flat"] else [geo.Point(*p) for p in P]}
    for k in ("uv", "st"):
        if a[k] is not None:
            q[k] = list(a[k][:2 * n + a["extra"]])
    if a["N"]:
        q["N"] = [geo.Normal(0., float(i), 1.) for i in range(n)]
    if a["S"]:
        q["S"] = [geo.Vector(1., float(i), 0.) for i in range(n)]
    if a["discard"]:
        q["discard"] = True
    T = build_t(a["t"])
    me = create_triangle_mesh(T, T.inverse(), a["ro"], q)
    want = a["uv"] if a["uv"] is not None else a["st"]
    dropped = False
    if want is not None and a["N"] and a["discard"]:
        for t in tris:
            A, B, C = [P[i] for i in t]
            ar = .5 * vlen(vcross(vsub(B, A), vsub(C, A)))
            if 1e-9 < ar < 1e-1:
                raise Reject("nearly degenerate triangle")
            w = [(want[2 * i], want[2 * i + 1]) for i in t]
            if ar >= 1e-1 and len(set(w)) < 3:
                dropped = True
    label("dropped" if dropped else "kept" if want is not None else "none")
    require((me.ntris, me.nverts) == (len(tris), n) and bool(me.ro) == a["ro"] and not me.can_intersect(), "description gave %r", (me.ntris, me.nverts, me.ro))
    M = mchain(a["t"])
    parts = me.refine()
    require(len(parts) == len(tris), "%r triangles, %r described", len(parts), len(tris))
    for x, t in zip(parts, tris):
        for k in range(3):
            req_vclose(x[k], mapply_point(M, P[t[k]]), "corner", 1e-9, 1e-9 * (1. + vlen(P[t[k]])))
        u = [[0., 0.], [1., 0.], [1., 1.]] if want is None or dropped else [[want[2 * i], want[2 * i + 1]] for i in t]
        req_vclose([c for v in x.get_uvs() for c in v], [c for v in u for c in v], "surface coordinates of the corners", 0, 1e-12)
    for k, v in (("N", me.n), ("S", me.s)):
        require((v is not None) == bool(a[k]), "%s: %r", k, v)
        if v is not None:
            for i in range(n):
                req_vclose(v[i], list(q[k][i]), k, 0, 0)
    nontriv(want is not None and len(tris) > 0)


def rejects(a):
    """malformed mesh descriptions are refused"""
    n = 4
    good = {"indices": [0, 1, 2, 2, 3, 0], "P": [float(x) for x in range(3 * n)]}
    T = build_t([])
    mk = lambda d: create_triangle_mesh(T, T.inverse(), False, d)
    me = mk(dict(good))
    require(me.ntris == 2 and me.nverts == 4, "good description gave %r", (me.ntris, me.nverts))
    k = a["k"]
    bad = dict(good)
    if k == "indices":
        bad["indices"] = [0, 1, 2, 2, 3, 0][:a["n"] % 2 + 4]
    elif k == "P":
        bad["P"] = good["P"][:10 + a["n"] % 2]
    elif k == "range":
        bad["indices"] = list(good["indices"])
        bad["indices"][a["n"] % 6] = n + a["n"] // 6
    elif k == "uv":
        bad["uv"] = [0.] * (a["n"] % (2 * n))
    elif k == "st":
        bad["st"] = [0.] * (a["n"] % (2 * n))
    elif k == "N":
        bad["N"] = [geo.Normal(0., 0., 1.)] * (a["n"] % n)
    elif k == "S":
        bad["S"] = [geo.Vector(0., 0., 1.)] * (a["n"] % n + n + 1)
    elif k == "alpha":
        bad["alphatex"] = "nosuch"
        must_raise(RuntimeError, lambda: create_triangle_mesh(T, T.inverse(), False, bad, {}), k)
        nontriv()
        return
    must_raise(RuntimeError, lambda: mk(bad), "mesh with bad %s %r" % (k, bad))
    nontriv()
    label(k)
