"""P10 aggregates and accelerators against the closed-form model of the same primitives."""
from cases.shapes import *
from cases.threads import together, moments
import numpy as np
import pytracer.geometry as geo
from pytracer.aggregate import SimpleAggregate, GridAccel, BVH, GeometricPrimitive, Intersection


class Tag(object):
    def __init__(self, i):
        self.i = i


def build(prims):
    """-> list of GeometricPrimitives, list of (model, index of the primitive)"""
    out, models = [], []
    for i, s in enumerate(prims):
        if s["k"] == "mesh":
            n = len(s["P"])
            vi = []
            for j in range(0, len(s["vi"]) - 2, 3):
                a, b, c = s["vi"][j:j + 3]
                rest = [v for v in range(n) if v != a % n]
                b = rest.pop(b % len(rest))
                vi += [a % n, b, rest[c % len(rest)]]
            ms = dict(s, vi=vi, uv=None)
            out.append(GeometricPrimitive(build_mesh(ms), Tag(i), None))
            for k in range(len(vi) // 3):
                models.append((Obj(dict(ms, k="tri", vi=vi[3 * k:3 * k + 3])), i))
        else:
            out.append(GeometricPrimitive(build_shape(s), Tag(i), None))
            models.append((Obj(s), i))
    return out, models


def accel(k, prims, a):
    if k == "simple":
        return SimpleAggregate(prims, True)
    if k == "grid":
        return GridAccel(prims, True)
    if k == "lazygrid":
        return GridAccel(prims, False)
    if k == "sah":
        return BVH(prims, a["mp"], "sah")
    if k == "middle":
        return BVH(prims, a["mp"], "middle")
    if k == "default":
        return BVH(prims)
    if k == "nested":
        h = len(prims) // 2
        inner = [accel(a["inner"], x, a) for x in (prims[:h], prims[h:]) if x]
        return accel(a["outer"], inner, a)
    raise ValueError(k)


def expect(models, wo, wd, mint, maxt):
    """(t, world point, {indices}) of the nearest hit, None for a miss; Reject when not clear"""
    best = []
    for m, i in models:
        h = m.first_hit(wo, wd, mint, maxt)
        if h is not None:
            best.append((h[0], m.toworld(h[1]), i))
    if not best:
        return None
    best.sort(key=lambda b: b[0])
    t = best[0][0]
    ids = set(i for tt, p, i in best if tt - t <= 1e-6 * (1 + abs(t)))
    return t, best[0][1], ids, len(best)


def query(acc, models, q, mat, what, closest_first=False):
    wo, wd, mint, maxt = q
    try:
        e = expect(models, wo, wd, mint, maxt)
    except Reject:
        return None
    mk = lambda: geo.Ray(geo.Point(*wo), geo.Vector(*wd), mint, maxt)
    r = mk()
    isect = Intersection()
    if closest_first:
        hit = acc.intersect(r, isect)
        r, q = mk(), r
    p = acc.intersect_p(r)
    require(r.maxt == maxt and r.mint == mint, "%s: intersect_p changed the ray", what)
    require(bool(p) == (e is not None), "%s: intersect_p says %r, the primitives say %s", what, p, e)
    if closest_first:
        r = q
    else:
        r = mk()
        hit = acc.intersect(r, isect)
    require(bool(hit) == (e is not None), "%s: intersect says %r, the primitives say %s", what, hit, e)
    if e is None:
        require(r.maxt == maxt, "%s: a miss shortened the ray to %r", what, r.maxt)
        require(isect.primitive is None, "%s: a miss filled the intersection", what)
        return 0
    t, pt, ids, n = e
    tol = 1e-6 * (1 + abs(t)) * (1 + vlen(wd))
    req_close(r.maxt, t, "%s: nearest hit (ray.maxt)" % what, 1e-6, 1e-6)
    require(vlen(vsub(fl(isect.dg.p), pt)) <= 1e-5 * (1 + vlen(wo) + vlen(pt)), "%s: hit point %r, expected %r", what, fl(isect.dg.p), pt)
    require(isect.primitive.material.i in ids, "%s: reports primitive %r, nearest is %r", what, isect.primitive.material.i, ids)
    require(isect.dg.shape is isect.primitive.shape, "%s: geometry and primitive of different hits", what)
    require(isect.primitiveId == isect.primitive.primitiveId and isect.shapeId == isect.primitive.shape.shapeId, "%s: ids of different hits", what)
    require(isect.o2w is isect.primitive.shape.o2w and isect.w2o is isect.primitive.shape.w2o, "%s: transforms of a different hit", what)
    alone, r = Intersection(), mk()
    isect.primitive.intersect(r, alone)
    require(isect.rEps == alone.rEps > 0, "%s: offset epsilon %r, that of the nearest primitive is %r", what, isect.rEps, alone.rEps)
    return n


def ray_of(models, q):
    m = models[q["i"] % len(models)][0]
    wo, wd = aim(m, q["aim"])
    mint, maxt = q["w"]
    return wo, wd, mint, INF if maxt is None else maxt


def nearest(a):
    """every accelerator answers every query of a history like the list of its primitives"""
    prims, models = build(a["prims"])
    acc = accel(a["acc"], prims, a)
    b = acc.world_bound()
    lo, hi = [INF] * 3, [-INF] * 3
    for p in prims:
        w = p.world_bound()
        lo = [min(x, float(y)) for x, y in zip(lo, w.pMin)]
        hi = [max(x, float(y)) for x, y in zip(hi, w.pMax)]
    ref = []
    for p in prims:
        p.full_refine(ref)
    for p in ref:
        w = p.world_bound()
        require(all(b.pMin[i] <= w.pMin[i] + 1e-9 and b.pMax[i] >= w.pMax[i] - 1e-9 for i in range(3)), "bound %r misses a primitive's bound %r", fl(b.pMin) + fl(b.pMax), fl(w.pMin) + fl(w.pMax))
    require(all(b.pMin[i] >= lo[i] - 1e-9 and b.pMax[i] <= hi[i] + 1e-9 for i in range(3)), "bound exceeds the primitives' bounds")
    b0 = fl(b.pMin) + fl(b.pMax)
    deep = 0
    done = 0
    for q in a["rays"]:
        try:
            ray = ray_of(models, q)
        except Reject:
            continue
        n = query(acc, models, ray, None, "%s over %d primitives" % (a["acc"], len(prims)), q.get("cf", False))
        if n is not None:
            done += 1
            deep = max(deep, n)
    b = acc.world_bound()
    require(fl(b.pMin) + fl(b.pMax) == b0, "queries changed the bound")
    require(acc.can_intersect(), "aggregate is not intersectable")
    if not done:
        raise Reject()
    nontriv(deep >= 2)
    label("depth complexity %d" % min(deep, 5))
    label(a["acc"])
    label("%s primitives" % ("1-3" if len(models) < 4 else "4-9" if len(models) < 10 else "10+"))


def crowd(a):
    """many small primitives in a row, plane or volume (exercises the partitioning)"""
    g = LCG(a["seed"])
    prims = []
    for i in range(a["n"]):
        c = [0., 0., 0.]
        for ax in range(3):
            if a["dims"] >> ax & 1:
                u = g.u()
                c[ax] = (round(u * 6) - 3.) * 2 if a["snap"] else (u - .5) * 12
                if a["skew"]:
                    c[ax] = math.copysign(abs(c[ax]) ** 3 / 36., c[ax])
        r = .1 + g.u() * a["rmax"]
        prims.append({"k": "sphere", "r": r, "z0": -r, "z1": r, "phi": 360., "ro": False, "t": [["T", c]]})
    nearest(dict(a, prims=prims))


def lattice(a):
    """exactly representable meshes and axis-parallel rays: agreement with a direct scan of the triangles, edges included"""
    n, m = a["n"], a["m"]
    P, F = [], []
    for j in range(m + 1):
        for i in range(n + 1):
            c = [0., 0., 0.]
            c[(a["ax"] + 1) % 3] = float(i) + a["o"][0]
            c[(a["ax"] + 2) % 3] = float(j) + a["o"][1]
            c[a["ax"]] = a["h"][(j * (n + 1) + i) % len(a["h"])]
            P.append(c)
    for j in range(m):
        for i in range(n):
            q = [j * (n + 1) + i, j * (n + 1) + i + 1, (j + 1) * (n + 1) + i + 1, (j + 1) * (n + 1) + i]
            F += [q[0], q[1], q[2], q[0], q[2], q[3]]
    s = {"k": "mesh", "P": P, "vi": F, "ro": False, "t": []}
    prim = GeometricPrimitive(build_mesh(s), Tag(0), None)
    tris = []
    prim.full_refine(tris)
    acc = accel(a["acc"], [prim], a)
    k = 0
    for x, y, side in a["rays"]:
        o = [0., 0., 0.]
        o[(a["ax"] + 1) % 3] = min(x, 2. * n) / 2 + a["o"][0]
        o[(a["ax"] + 2) % 3] = min(y, 2. * m) / 2 + a["o"][1]
        o[a["ax"]] = 8. * side
        d_ = [0., 0., 0.]
        d_[a["ax"]] = -1. * side
        mk = lambda: geo.Ray(geo.Point(*o), geo.Vector(*d_))
        ts = [t.shape.intersect(mk()) for t in tris]
        ts = [t[1] for t in ts if t[0]]
        isect = Intersection()
        r = mk()
        hit = acc.intersect(r, isect)
        require(bool(hit) == bool(ts), "%s: ray from %r along %r: intersect %r, the triangles are hit at %r", a["acc"], o, d_, hit, ts)
        require(bool(acc.intersect_p(mk())) == bool(ts), "%s: ray from %r along %r: intersect_p misses hits at %r", a["acc"], o, d_, ts)
        if ts:
            k += 1
            req_close(r.maxt, min(ts), "nearest hit", 1e-9, 1e-9)
    nontriv(k > 0)
    label(a["acc"])


def empty(a):
    acc = accel(a["acc"], [], a)
    mk = lambda: geo.Ray(geo.Point(*a["o"]), geo.Vector(*a["d"]))
    isect = Intersection()
    r = mk()
    require(not acc.intersect(r, isect) and not acc.intersect_p(mk()), "an empty aggregate is hit")
    require(r.maxt == INF and isect.primitive is None, "an empty aggregate changed the query")
    b = acc.world_bound()
    require(all(b.pMin[i] > b.pMax[i] for i in range(3)), "bound of an empty aggregate is not empty")
    nontriv()


def deep(a):
    """a chain of spheres of geometrically growing distance and size: trees as deep as there are primitives"""
    n, q, ax = a["n"], a["q"], a["ax"]
    prims, cs, rs = [], [], []
    for i in range(n):
        c = q ** i
        r = c * a["rho"] * (1. - 1. / q)
        p = [0., 0., 0.]
        p[ax] = c * a["side"]
        prims.append({"k": "sphere", "r": r, "z0": -r, "z1": r, "phi": 360., "ro": False, "t": [["T", p]]})
        cs.append(c)
        rs.append(r)
    order = list(range(n))
    g = LCG(a["seed"])
    for i in range(n - 1, 0, -1):
        j = int(g.u() * (i + 1))
        order[i], order[j] = order[j], order[i]
    prims = [GeometricPrimitive(build_shape(prims[i]), Tag(i), None) for i in order]
    acc = accel(a["acc"], prims, a)
    far = 0
    for k, out, f, frac in a["rays"]:
        k %= n
        # from below the first or from between two spheres, outwards or inwards, beside the axis by a fraction of a radius
        x = 0. if out and frac < .3 else .5 * (cs[k] + rs[k] + (cs[k + 1] - rs[k + 1])) if k + 1 < n else 2. * cs[k]
        j = int(f * n)
        b = .5 * rs[j] + (.25 * rs[j - 1] if j else 0.) if frac < .9 else 0.
        if b > 0 and any(abs(b - r) < .01 * r for r in rs):
            continue
        o, d_ = [0., 0., 0.], [0., 0., 0.]
        o[ax] = x * a["side"]
        o[(ax + 1) % 3] = b
        d_[ax] = (1. if out else -1.) * a["side"]
        hits = [(abs(cs[i] - x) - math.sqrt(rs[i] * rs[i] - b * b), i) for i in range(n) if rs[i] > b and (cs[i] > x) == bool(out)]
        e = min(hits) if hits else None
        if e is not None and (e[0] < 1e-9 * cs[e[1]] or b > 0 and rs[e[1]] < 1e-4 * cs[e[1]]):
            continue
        mk = lambda: geo.Ray(geo.Point(*o), geo.Vector(*d_))
        what = "%s over %d growing spheres, ray from %r along %r" % (a["acc"], n, o, d_)
        require(bool(acc.intersect_p(mk())) == (e is not None), "%s: shadow query disagrees with %r", what, e)
        isect, r = Intersection(), mk()
        hit = acc.intersect(r, isect)
        require(bool(hit) == (e is not None), "%s: hit %r, expected %r", what, hit, e)
        if e is not None:
            req_close(r.maxt, e[0], what + ": distance", 1e-5, 0)
            require(isect.primitive.material.i == e[1], "%s: primitive %r, expected %r", what, isect.primitive.material.i, e[1])
            far += 1
    nontriv(far > 0 and n > 60)
    label(a["acc"])


def shells(a):
    """spheres about one centre, in any order: bounds with one and the same centroid, leaves as large as allowed"""
    n, c = a["n"], a["c"]
    rs = [1. + i for i in range(n)]
    order = sorted(range(n), key=lambda i: (a["perm"][i % len(a["perm"])] * (i + 1) % 31, i))
    prims = [GeometricPrimitive(build_shape({"k": "sphere", "r": rs[i], "z0": -rs[i], "z1": rs[i], "phi": 360., "ro": False, "t": [["T", c]]}), Tag(i), None) for i in order]
    acc = accel(a["acc"], prims, a)
    k = 0
    for q in a["rays"]:
        d_ = vnorm(q["d"])
        x = q["x"] * (n + 1)                  # signed distance of the origin from the centre is between two shells
        x = math.floor(x) + .1 + .8 * (x - math.floor(x))
        x = x if q["out"] else -x
        o = vadd(c, vmul(d_, x))
        hits = sorted([(s * r - x, i) for i, r in enumerate(rs) for s in (-1., 1.) if s * r > x])
        j = int(q["u"] * len(hits))           # skip j hits, leave m
        mint = 0. if j == 0 else .5 * (hits[j - 1][0] + hits[j][0])
        hits = hits[j:]
        m = int(q["v"] * (len(hits) + 1))
        maxt = INF if q["inf"] else hits[m][0] if m < len(hits) else 100.
        if not q["inf"] and m < len(hits):
            maxt -= .05
        e = hits[0] if hits and hits[0][0] < maxt else None
        mk = lambda: geo.Ray(geo.Point(*o), geo.Vector(*d_), mint, maxt)
        what = "%s over %d shells, ray from %r along %r within %r" % (a["acc"], n, o, d_, [mint, maxt])
        require(bool(acc.intersect_p(mk())) == (e is not None), "%s: shadow query disagrees with %r", what, e)
        isect, r = Intersection(), mk()
        hit = acc.intersect(r, isect)
        require(bool(hit) == (e is not None), "%s: hit %r, expected %r", what, hit, e)
        if e is not None:
            req_close(r.maxt, e[0], what + ": distance", 1e-6, 1e-6)
            require(isect.primitive.material.i == e[1], "%s: primitive %r, expected %r", what, isect.primitive.material.i, e[1])
            k += 1
    nontriv(k > 0 and n > 4)
    label(a["acc"])
    label("leaf" if n <= a["mp"] else "split")


def meanwhile(a):
    """two threads asking one aggregate, the first interrupted anywhere by the second: every answer is that of the list"""
    def side(acc, models, rays, count):
        def go():
            for q in rays:
                try:
                    ray = ray_of(models, q)
                except Reject:
                    continue
                n = query(acc, models, ray, None, "%s over %d primitives, two threads" % (a["acc"], len(models)), q["cf"])
                if n is not None:
                    count.append(n)
        return go
    def fresh():
        prims, models = build(a["prims"])
        return accel(a["acc"], prims, a), models
    cnt, g, any_ = [], LCG(a["seed"]), False
    rays2 = a["rays"] if a["same"] else a["rays2"]
    ks = moments(side(*fresh(), a["rays"], []), g, 4, a["files"])
    ms = moments(side(*fresh(), rays2, []), g, 4, a["files"]) if a["twice"] else [-1] * 4
    for k, m in zip(ks, ms):
        acc, models = fresh()
        any_ |= together(side(acc, models, a["rays"], cnt), side(acc, models, rays2, cnt), k, m, "queries of a %s" % a["acc"])[2]
        if not cnt:
            raise Reject()
    nontriv(any_ and max(cnt) > 0)
    label(a["acc"])
    label("two interruptions" if a["twice"] else "one interruption")
