"""P11 primitives, instances, intersections and the scene."""
from cases.shapes import *
from cases.p10 import Tag, build
import cases.p10 as p10
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.transform import AnimatedTransform
from pytracer.aggregate import GeometricPrimitive, TransformedPrimitive, SimpleAggregate, Intersection, Primitive, BVH
from pytracer.scene import Scene


class Light(object):
    def __init__(self):
        self.calls = []

    def l(self, p, n, w):
        self.calls.append((p, n, w))
        return Spectrum(3.)


class Mat(object):
    def __init__(self):
        self.calls = []

    def get_bsdf(self, dg, dgs):
        self.calls.append(("bsdf", dg, dgs))
        return "bsdf"

    def get_bssrdf(self, dg, dgs):
        self.calls.append(("bssrdf", dg, dgs))
        return "bssrdf"


FIELDS = ("dg", "primitive", "w2o", "o2w", "shapeId", "primitiveId", "rEps")


def geometric(a):
    s = a["s"]
    m = Obj(s)
    shp = build_shape(s)
    mat, lig = Mat(), (Light() if a["light"] else None)
    prim = GeometricPrimitive(shp, mat, lig)
    other = GeometricPrimitive(shp, mat, lig)
    require(prim.primitiveId != other.primitiveId, "primitive ids are not unique")
    wo, wd = aim(m, a["aim"])
    mint, maxt = a["w"]
    maxt = INF if maxt is None else maxt
    e = m.first_hit(wo, wd, mint, maxt)
    ray = lambda: geo.RayDifferential(geo.Point(*wo), geo.Vector(*wd), mint, maxt)
    require(bool(prim.intersect_p(ray())) == (e is not None), "intersect_p %r, expected %r", prim.intersect_p(ray()), e)
    isect = Intersection()
    for f in FIELDS:
        setattr(isect, f, "untouched")
    r = ray()
    hit = prim.intersect(r, isect)
    require(bool(hit) == (e is not None), "intersect %r, expected %r", hit, e)
    b, sb = prim.world_bound(), shp.world_bound()
    require(fl(b.pMin) + fl(b.pMax) == fl(sb.pMin) + fl(sb.pMax), "bound differs from the shape's")
    require(prim.can_intersect() == shp.can_intersect() == True, "can_intersect")
    require(prim.get_area_light() is lig, "area light lost")
    if e is None:
        require(r.maxt == maxt, "a miss shortened the ray")
        for f in FIELDS:
            require(getattr(isect, f) == "untouched", "a miss changed Intersection.%s", f)
        nontriv(vlen(a["aim"]["off"]) == 0)
        return
    t, p = e
    req_close(r.maxt, t, "ray.maxt", 1e-6, 1e-6)
    req_vclose(isect.dg.p, m.toworld(p), "hit point", 1e-5, 1e-5 * (1 + vlen(wo)))
    require(isect.primitive is prim and isect.primitiveId == prim.primitiveId, "wrong primitive recorded")
    require(isect.shapeId == shp.shapeId and isect.dg.shape is shp, "wrong shape recorded")
    require(isect.o2w is shp.o2w and isect.w2o is shp.w2o, "wrong transforms recorded")
    require(0 < isect.rEps < 1e-1 * (1 + t) , "offset epsilon %r at t=%r", isect.rEps, t)
    w = geo.Vector(*a["dir"])
    le = isect.le(w)
    if lig is None:
        req_vclose(le.c, [0.] * len(fl(le.c)), "emission without an area light", 0, 0)
    else:
        req_vclose(le.c, [3.] * len(fl(le.c)), "emission", 0, 0)
        require(len(lig.calls) == 1, "area light asked %d times", len(lig.calls))
        cp, cn, cw = lig.calls[0]
        req_vclose(cp, fl(isect.dg.p), "emission point", 0, 0)
        req_vclose(cn, fl(isect.dg.nn), "emission normal", 0, 0)
        req_vclose(cw, a["dir"], "emission direction", 0, 0)
    for what in ("bsdf", "bssrdf"):
        rd = ray()
        rd.has_differentials = False
        got = getattr(isect, "get_" + what)(rd)
        require(got == what, "get_%s did not ask the material", what)
        k, dg, dgs = mat.calls[-1]
        require(k == what and dg is isect.dg, "material asked with the wrong geometry")
        sg = shp.get_shading_geometry(isect.o2w, isect.dg)
        req_vclose(dgs.p, fl(sg.p), "shading point", 1e-12, 1e-12)
        req_vclose(dgs.nn, fl(sg.nn), "shading normal", 1e-12, 1e-12)
    nontriv()
    label("light" if lig else "no light")


def refine(a):
    """refinement keeps material and light, covers every triangle once, and ends in intersectable primitives"""
    s = a["s"]
    prims, models = build([s])
    prims[0].areaLight = lig = Light()
    out = []
    prims[0].full_refine(out)
    require(len(out) == len(models), "refined into %d primitives, expected %d", len(out), len(models))
    ids = set()
    left = list(range(len(models)))
    for p in out:
        require(p.can_intersect(), "refinement left an unintersectable primitive")
        require(p.material is prims[0].material and p.get_area_light() is lig, "refinement lost the material or the light")
        require(p.primitiveId not in ids, "duplicate primitive id")
        ids.add(p.primitiveId)
        if s["k"] != "mesh":
            require(p is prims[0], "an intersectable primitive was replaced")
            continue
        v = [fl(p.shape[j]) for j in range(3)]
        for i in left:
            w = [models[i][0].toworld(q) for q in models[i][0].v]
            if all(vlen(vsub(x, y)) <= 1e-9 * (1 + vlen(x)) for x, y in zip(v, w)):
                left.remove(i)
                break
        else:
            require(False, "refined triangle %r is not part of the mesh", v)
    before = [99]
    prims[0].full_refine(before)
    require(before[0] == 99 and len(before) == 1 + len(models), "full_refine replaced the caller's list")
    nontriv(len(out) > 1)


def anim(a):
    A, B = build_t(a["ta"]), build_t(a["tb"])
    return AnimatedTransform(A, a["t0"], B, a["t0"] + a["span"]), A, B


def instance(a):
    """an instance behaves like the same shape placed by the interpolated transform"""
    s = a["s"]
    if a["static"]:
        a = dict(a, tb=a["ta"])
    at, A, B = anim(a)
    time = a["t0"] + a["u"] * a["span"]
    w2p = at.interpolate(time)
    m = Obj(s)
    p2w = [fl(r) for r in w2p.m_inv]
    comp = Obj(s)
    comp.M = mmul(p2w, m.M)
    comp.Mi = minv(comp.M)
    prim = GeometricPrimitive(build_shape(s), Mat(), Light())
    inst = TransformedPrimitive(prim, at)
    require(inst.can_intersect(), "instance is not intersectable")
    require(inst.get_area_light() is None, "instance claims an area light")
    wo, wd = aim(comp, a["aim"])
    mint, maxt = a["w"]
    maxt = INF if maxt is None else maxt
    e = comp.first_hit(wo, wd, mint, maxt)

    def ray():
        r = geo.RayDifferential(geo.Point(*wo), geo.Vector(*wd), mint, maxt)
        r.time = time
        return r
    r = ray()
    require(bool(inst.intersect_p(r)) == (e is not None), "intersect_p of the instance disagrees with the placed shape (%r)", e)
    require(r.maxt == maxt and fl(r.o) == fl(wo) and fl(r.d) == fl(wd), "intersect_p changed the ray")
    isect = Intersection()
    for f in FIELDS:
        setattr(isect, f, "untouched")
    hit = inst.intersect(r, isect)
    require(bool(hit) == (e is not None), "intersect of the instance disagrees with the placed shape (%r)", e)
    require(fl(r.o) == fl(wo) and fl(r.d) == fl(wd), "the instance transformed the caller's ray in place")
    if e is None:
        require(r.maxt == maxt, "a miss shortened the ray")
        for f in FIELDS:
            require(getattr(isect, f) == "untouched", "a miss changed Intersection.%s", f)
        return
    t, p = e
    # prediction: the plain shape's differential geometry in primitive space, carried over by the oracle's matrix
    lo, ld = mapply_point(minv(p2w), wo), mapply_vec(minv(p2w), wd)
    ok, th, eps, dg0 = build_shape(s).intersect(geo.Ray(geo.Point(*lo), geo.Vector(*ld), mint, maxt))
    if not ok:
        raise Reject()
    req_close(r.maxt, t, "ray.maxt", 1e-6, 1e-6)
    dg = isect.dg
    sc = 1 + vlen(wo) + vlen(comp.toworld(p))
    req_vclose(dg.p, comp.toworld(p), "hit point", 1e-5, 1e-5 * sc)
    Mi = minv(p2w)
    for f in ("dpdu", "dpdv"):
        req_vclose(getattr(dg, f), mapply_vec(p2w, fl(getattr(dg0, f))), f, 1e-5, 1e-5)
    nt_ = mT([x[:3] for x in Mi[:3]])
    for f in ("dndu", "dndv"):
        req_vclose(getattr(dg, f), mapply_vec(nt_, fl(getattr(dg0, f))), f, 1e-4, 1e-4)
    req_vclose(dg.nn, vnorm(mapply_vec(nt_, fl(dg0.nn))), "normal", 1e-5, 1e-5)
    req_vclose([dg.u, dg.v], [dg0.u, dg0.v], "uv", 1e-6, 1e-6)
    require(isect.primitiveId == inst.primitiveId, "instance id not recorded")
    require(isect.primitive is prim and isect.shapeId == prim.shape.shapeId, "instanced primitive not recorded")
    M = [fl(x) for x in isect.o2w.m]
    for i in range(4):
        for j in range(4):
            exp = comp.M if s["k"] != "tri" else mmul(p2w, mchain(s["t"]))
            req_close(M[i][j], exp[i][j], "o2w[%d][%d]" % (i, j), 1e-6, 1e-6 * sc)
    W = mmul([fl(x) for x in isect.w2o.m], M)
    for i in range(4):
        for j in range(4):
            req_close(W[i][j], float(i == j), "w2o*o2w", 1e-5, 1e-5 * sc)
    b = inst.world_bound()
    tol = 1e-3 * (sc + vlen(vsub(fl(b.pMax), fl(b.pMin))))
    for i in range(3):
        require(b.pMin[i] - tol <= dg.p[i] <= b.pMax[i] + tol, "hit %r outside the instance's bound %r %r", fl(dg.p), fl(b.pMin), fl(b.pMax))
    nontriv(len(a["ta"]) > 0)
    label("static" if a["static"] else "moving")


def instances(a):
    """several instances of one shared aggregate answer like the flattened scene"""
    prims, models = build(a["prims"])
    inner = SimpleAggregate(prims, True) if a["simple"] else BVH(prims, 2)
    insts, flat = [], []
    from pytracer.transform import Transform
    for k, t in enumerate(a["places"]):
        P = build_t(t)
        W = P.inverse()
        insts.append(TransformedPrimitive(inner, AnimatedTransform(W, 0., W, 1.)))
        M = mchain(t)
        for m, i in models:
            c = Obj(m.s)
            c.M = mmul(M, m.M)
            c.Mi = minv(c.M)
            flat.append((c, k))
    outer = BVH(insts, a["mp"], "middle" if a["mid"] else "sah")
    done = 0
    for q in a["rays"]:
        try:
            wo, wd, mint, maxt = p10.ray_of(flat, q)
            e = p10.expect(flat, wo, wd, mint, maxt)
        except Reject:
            continue
        done += 1
        mk = lambda: geo.Ray(geo.Point(*wo), geo.Vector(*wd), mint, maxt)
        require(bool(outer.intersect_p(mk())) == (e is not None), "shadow query: expected %r", e)
        isect = Intersection()
        r = mk()
        hit = outer.intersect(r, isect)
        require(bool(hit) == (e is not None), "closest-hit query: expected %r", e)
        if e is None:
            require(r.maxt == maxt, "a miss shortened the ray")
            continue
        req_close(r.maxt, e[0], "nearest hit", 1e-6, 1e-6)
        req_vclose(isect.dg.p, e[1], "hit point", 1e-5, 1e-5 * (1 + vlen(wo)))
        ids = [insts[k].primitiveId for k in e[2]]
        require(isect.primitiveId in ids, "wrong instance reported")
        nontriv(len(insts) > 1)
    if not done:
        raise Reject()


class Vol(object):
    def __init__(self, lo, hi):
        self.b = geo.BBox(geo.Point(*lo), geo.Point(*hi))

    def world_bound(self):
        return self.b


def scene(a):
    prims, models = build(a["prims"])
    agg = BVH(prims, 2)
    own = agg.world_bound()
    b0 = fl(own.pMin) + fl(own.pMax)
    lo = [min(x, y) for x, y in zip(a["lo"], a["hi"])]
    hi = [max(x, y) for x, y in zip(a["lo"], a["hi"])]
    vol = Vol(lo, hi) if a["vol"] else None
    lights = [object(), object()]
    sc = Scene(agg, lights, vol)
    require(sc.lights is lights and sc.vr is vol and sc.aggregate is agg, "scene lost its parts")
    b = sc.world_bound()
    el = [min(x, y) for x, y in zip(b0[:3], lo)] if vol else b0[:3]
    eh = [max(x, y) for x, y in zip(b0[3:], hi)] if vol else b0[3:]
    req_vclose(b.pMin, el, "scene bound", 0, 0)
    req_vclose(b.pMax, eh, "scene bound", 0, 0)
    require(fl(own.pMin) + fl(own.pMax) == b0, "building the scene changed the aggregate's bound")
    if vol:
        require(fl(vol.b.pMin) + fl(vol.b.pMax) == lo + hi, "building the scene changed the volume's bound")
    for q in a["rays"]:
        try:
            ray = p10.ray_of(models, q)
        except Reject:
            continue
        if p10.query(sc, models, ray, None, "scene") is not None:
            nontriv()
