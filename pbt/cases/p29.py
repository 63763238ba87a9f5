"""P29 light transport: Whitted, direct lighting and path integrators against the transport they stand for."""
from cases.shapes import *
from cases import p18
from cases.p08 import tri_ok
from cases.bdf import f_diel, m_f, b_bdf, m_type, spec
import numpy as np
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.aggregate import GeometricPrimitive, SimpleAggregate, Intersection
from pytracer.scene import Scene
from pytracer.light import *
from pytracer.light.utility import LightSample
from pytracer.reflection import *
from pytracer.reflection.fresnel import FresnelDielectric, FresnelFullReflect
from pytracer.sampler import Sample
from pytracer.integrator import *
from pytracer.integrator.utility import (compute_light_sampling_cdf, estimate_direct, specular_reflect, specular_transmit,
                                         uniform_sample_all_lights, uniform_sample_one_light)
from pytracer.renderer import SamplerRenderer
from pytracer.material import Material

INV_PI = 1 / math.pi
BLACK = 4e-5        # the code takes spectra below 1e-5 as black


def had(a, b): return [x * y for x, y in zip(a, b)]
def lum(v): return .212671 * v[0] + .715160 * v[1] + .072169 * v[2]


class Mat(Material):
    """a material made of listed lobes; the extension point users have"""

    def __init__(self, m):
        self.m = m

    def get_bsdf(self, dg_g, dg_s):
        m = self.m
        b = BSDF(dg_s.copy(), dg_g.nn, m.get("ior", 1.))
        if m.get("kd"):
            b.push_back(Lambertian(spec(m["kd"])))
        if m.get("lobe"):
            b.push_back(b_bdf(m["lobe"]))
        if m.get("kr"):
            b.push_back(SpecularReflection(spec(m["kr"]), FresnelDielectric(1., m["ior"]) if "ior" in m else FresnelFullReflect()))
        if m.get("kt"):
            b.push_back(SpecularTransmission(spec(m["kt"]), 1., m["ior"]))
        return b


def steps(length, fixed):
    """how often a medium takes its fraction on a segment: once, or once for every started unit of length (six times at most)"""
    if fixed:
        return 1
    if length > 6:
        return 6
    if abs(length - round(length)) < .01 + 2e-3 * length:
        raise Reject("between two steps of the medium")
    return int(length) + 1


def power(c, n): return [v ** n for v in c]


class Medium(object):
    """stand-in volume integrator: every segment lets a fixed fraction through (or one that depends on the ray's extent) and adds a fixed radiance"""

    def __init__(self, m):
        self.m = m

    def preprocess(self, *a): pass
    def request_samples(self, *a): pass
    def transmittance(self, scene, renderer, ray, sample, rng): return spec(self.c(ray))
    def li(self, scene, renderer, ray, sample, rng): return spec(self.m["e"]), spec(self.c(ray))

    def c(self, ray):
        return power(self.m["c"], steps((float(ray.maxt) - float(ray.mint)) * float(ray.d.length()) if ray.maxt < INF else INF, not self.m.get("len")))


def medium_of(a): return Medium(a["medium"]) if a.get("medium") else None


class Watched(Scene):
    """a scene that remembers at which times it was asked"""
    times = None

    def intersect(self, ray, isect):
        self.times = (self.times or set()) | set([float(ray.time)])
        return super().intersect(ray, isect)

    def intersect_p(self, ray):
        self.times = (self.times or set()) | set([float(ray.time)])
        return super().intersect_p(ray)


def on_time(sc, t):
    require(sc.times in (None, set([t])), "rays of a sample at time %r were traced at %r", t, sc.times)


class Rng(object):
    """repeats the given numbers"""

    def __init__(self, us):
        self.us, self.i = us, 0

    def __call__(self, n=None):
        if n is not None:
            return np.array([self() for _ in range(n)])
        self.i += 1
        return self.us[(self.i - 1) % len(self.us)]


def place(p):
    """(model, shape)"""
    T = build_t([["T", p["c"]]] if p["k"] == "ball" else p.get("t", []))
    if p["k"] == "ball":
        return Sphere(T, T.inverse(), bool(p.get("ro")), p["r"], -p["r"], p["r"], 360.)
    return Disk(T, T.inverse(), bool(p.get("ro")), p["h"], p["r"], 0., 360.)


def build(a, extra=()):
    prims, area = [], []
    for p in a["prims"]:
        sh = place(p)
        al = None
        if p.get("emit"):
            al = DiffuseAreaLight(Transform(), spec(p["emit"]), 1, sh)
            area.append(al)
        prims.append(GeometricPrimitive(sh, Mat(p["m"]), al))
    ls = []
    for l in a["lights"]:
        if l["k"] == "point":
            ls.append(PointLight(Transform.translate(geo.Vector(*l["p"])), spec(l["I"])))
        elif l["k"] == "spot":
            ls.append(SpotLight(build_t([["T", l["p"]], ["R", l["ang"], l["axis"]]]), spec(l["I"]), l["width"], l["width"] * l["inner"]))
        elif l["k"] == "distant":
            ls.append(DistantLight(Transform(), spec(l["I"]), geo.Vector(*l["d"])))
        else:
            ls.append(InfiniteAreaLight(Transform(), spec(l["I"]), l.get("ns", 1)))
    return Watched(SimpleAggregate(prims, True), ls + area + list(extra), None)


# ---- the independent ray tracer ------------------------------------------------------------------------------------
class Model(object):
    def __init__(self, a, depth, path=False):
        self.a, self.max, self.path = a, depth, path
        self.c, self.e = (a["medium"]["c"], a["medium"]["e"]) if a.get("medium") else ([1.] * 3, [0.] * 3)
        self.segs = 0

    def hits(self, o, w, eps):
        out = []
        for i, p in enumerate(self.a["prims"]):
            if p["k"] == "ball":
                oc = vsub(o, p["c"])
                b, c = vdot(oc, w), vdot(oc, oc) - p["r"] ** 2
                D = b * b - c
                if abs(D) < 1e-3 * p["r"] ** 2:
                    raise Reject("grazing")
                if D < 0:
                    continue
                ts = [-b - math.sqrt(D), -b + math.sqrt(D)]
            else:
                if abs(w[2]) < 1e-2:
                    raise Reject("edge on")
                t = (p["h"] - o[2]) / w[2]
                q = vadd(o, vmul(w, t))
                rr = math.hypot(q[0], q[1])
                if abs(rr - p["r"]) < 1e-3:
                    raise Reject("rim")
                ts = [t] if rr < p["r"] else []
            for t in ts:
                if 1e-6 < t < 5 * eps + 1e-4 or eps == 0 and abs(t) < 1e-4:
                    raise Reject("next to the start")
                if t > 1e-6:
                    out.append((t, i))
        return sorted(out)

    def li(self, o, w, depth, eps=0.):
        self.segs += 1
        hs = self.hits(o, w, eps)
        if not hs:
            L = [0.] * 3
            for l in self.a["lights"]:
                if l["k"] == "env":
                    L = vadd(L, l["I"])
            return self.through(L, depth, INF)
        if len(hs) > 1 and hs[1][0] - hs[0][0] < 1e-4:
            raise Reject("two surfaces at once")
        t, i = hs[0]
        p = self.a["prims"][i]
        q = vadd(o, vmul(w, t))
        n = vmul(vsub(q, p["c"]), 1 / p["r"]) if p["k"] == "ball" else [0., 0., 1.]
        if p.get("ro"):
            n = vmul(n, -1)
        wo = vmul(w, -1)
        m = p["m"]
        eps = 1e-5 * t
        if math.hypot(*n[:2]) < 1e-6 and (p["k"] == "ball" or math.hypot(*q[:2]) < 1e-6):
            raise Reject("pole")
        L = list(p["emit"]) if p.get("emit") and vdot(n, wo) > 0 else [0.] * 3
        if m.get("kd"):
            label("diffuse")
            for l in self.a["lights"]:
                if l["k"] == "env":
                    raise Reject("environment on a diffuse surface")
                if l["k"] in ("point", "spot"):
                    dv = vsub(l["p"], q)
                    dist = vlen(dv)
                    if dist < .05:
                        raise Reject("at the light")
                    wi, I = vmul(dv, 1 / dist), vmul(l["I"], 1 / dist ** 2)
                    if l["k"] == "spot":
                        c = mapply_vec(minv(mchain([["R", l["ang"], l["axis"]]])), wi)[2] * -1
                        cw, cf = math.cos(math.radians(l["width"])), math.cos(math.radians(l["width"] * l["inner"]))
                        if abs(c - cw) < .02:
                            raise Reject("rim of the spot")
                        if c < cw:
                            label("outside a spot")
                            continue
                        label("spot")
                        I = vmul(I, 1. if c > cf else ((c - cw) / (cf - cw)) ** 4)
                else:
                    wi, I, dist = vnorm(l["d"]), l["I"], 1e9
                ci = vdot(n, wi)
                if abs(ci) < 1e-3:
                    raise Reject("light along the surface")
                if ci * vdot(n, wo) < 0:
                    continue
                sh = self.hits(q, wi, eps)
                if any(abs(s - dist) < 1e-3 for s, _ in sh):
                    raise Reject("light on a surface")
                if any(s < dist for s, _ in sh):
                    label("shadow")
                    continue
                if max(m["kd"]) * INV_PI < BLACK or max(I) < BLACK:
                    raise Reject("next to black")
                label("lit")
                L = vadd(L, had(self.clear(dist), had(vmul(m["kd"], INV_PI * abs(ci)), I)))
            if any(x.get("emit") for x in self.a["prims"]):
                raise Reject("area light on a diffuse surface")
        co = vdot(n, wo)
        if depth + 1 < self.max and (m.get("kr") or m.get("kt")):
            if abs(co) < 3e-2:
                raise Reject("grazing")
            F = f_diel(1., m["ior"], co) if "ior" in m else 1.
            if m.get("kr") and max(m["kr"]) * F > 0:
                if max(m["kr"]) * F < BLACK:
                    raise Reject("next to black")
                label("reflected")
                wi = vsub(vmul(n, 2 * co), wo)
                L = vadd(L, had(vmul(m["kr"], F), self.li(q, wi, depth + 1, eps)))
            if m.get("kt"):
                eta = 1 / m["ior"] if co > 0 else m["ior"]
                st2 = eta * eta * (1 - co * co)
                if abs(st2 - 1) < 1e-3:
                    raise Reject("critical angle")
                if st2 < 1:
                    nn = n if co > 0 else vmul(n, -1)
                    wi = vadd(vmul(wo, -eta), vmul(nn, eta * abs(co) - math.sqrt(1 - st2)))
                    label("refracted")
                    L = vadd(L, had(vmul(m["kt"], (1 - F) * eta * eta), self.li(q, wi, depth + 1, eps)))
                else:
                    label("total reflection")
        return self.through(L, depth, t)

    def clear(self, t):
        return power(self.c, steps(t, not (self.a.get("medium") or {}).get("len")))

    def through(self, L, depth, t):
        """what a medium leaves of L; the light a medium scatters into a path's later segments is not sought"""
        c = self.clear(t)
        return had(c, L) if self.path and depth > 0 else vadd(had(c, L), self.e)


def ray_for(a):
    o = a["o"]
    tgt = a["prims"][a["at"] % len(a["prims"])]
    c = tgt["c"] if tgt["k"] == "ball" else [0., 0., tgt["h"]]
    q = vadd(c, vmul(a["off"], tgt["r"] * .6))
    if vlen(vsub(q, o)) < .2:
        raise Reject("no direction")
    return o, vnorm(vsub(q, o))


def trace(a, integ, o, w, us=(.3, .7, .1)):
    sc = build(a)
    vi = medium_of(a)
    ren = SamplerRenderer(None, None, integ, vi)
    smp = Sample(None, integ, None, sc)
    smp.time = a["time"]
    fill(smp, us)
    ray = geo.RayDifferential(geo.Point(*o), geo.Vector(*w), 0., np.inf, time=a["time"])
    L, T = ren.li(sc, ray, smp, Intersection(), Rng([us[0]]))
    req_vclose(fl(T), vi.c(ray) if vi else [1.] * 3, "transmittance of the segment", 1e-12, 1e-12)
    on_time(sc, a["time"])
    return fl(L)


def fill(smp, us):
    """the same numbers at every request"""
    smp.oneD = [[us[0] for _ in range(n)] for n in smp.n1D]
    smp.twoD = [[[us[1], us[2]] for _ in range(n)] for n in smp.n2D]


def whitted(a):
    """specular trees, point and distant lights, shadows, emitters, media: exact radiance"""
    p18.init()
    o, w = ray_for(a)
    m = Model(a, a["max"])
    exp = m.li(o, w, 0)
    got = trace(a, WhittedIntegrator(a["max"]), o, w)
    req_vclose(got, exp, "radiance of the Whitted integrator", 1e-6, 1e-8)
    got = trace(a, DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM, a["max"]), o, w)
    req_vclose(got, exp, "radiance of the direct lighting integrator", 1e-6, 1e-8)
    if len(a["lights"]) + sum(1 for p in a["prims"] if p.get("emit")) == 1:
        got = trace(a, DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM, a["max"]), o, w)
        req_vclose(got, exp, "radiance of the direct lighting integrator, one light at random", 1e-6, 1e-8)
        label("one")
    if m.segs > 1:
        label("tree%d" % min(m.segs, 6))
    nontriv(max(exp) > 0 and m.segs > 1 or "lit" in labels() or "shadow" in labels())


def specpath(a):
    """without diffuse surfaces a path follows the tree of the Whitted model, or samples it"""
    p18.init()
    o, w = ray_for(a)
    if a["medium"] and any(l["k"] == "env" for l in a["lights"]):
        raise Reject("an endless medium before the environment")
    D = a["max"]
    glass = any(p["m"].get("kr") and p["m"].get("kt") for p in a["prims"])
    if glass:
        D = min(D, 1)
    m = Model(a, D + 1, True)
    exp = m.li(o, w, 0)
    integ = PathIntegrator(D)
    if glass and D:
        # one of the lobes, each half of the time; the part before the choice is the same
        a1, a2 = (trace(a, integ, o, w, (u, .3, .6)) for u in (a["u"] * .5, .5 + a["u"] * .5))
        got = vmul(vadd(a1, a2), .5)
        label("chosen")
    else:
        got = trace(a, integ, o, w, (a["u"], .3, .6))
    req_vclose(got, exp, "radiance of the path integrator", 1e-6, 1e-8)
    label("depth%d" % D)
    if m.segs > 1:
        label("tree%d" % min(m.segs, 6))
    nontriv(max(exp) > 0 and m.segs > 1)


def corridor(a):
    """chains of many mirror images between two facing mirrors"""
    p18.init()
    o, w = a["o"], vnorm(a["dir"])
    if a["medium"] and a["lights"]:
        raise Reject("an endless medium before the environment")
    for p in a["prims"]:
        if p["k"] == "ball" and vlen(vsub(p["c"], o)) < p["r"] + .05:
            raise Reject("inside a ball")
    m = Model(a, a["max"] + 1, True)
    exp = m.li(o, w, 0)
    req_vclose(trace(a, PathIntegrator(a["max"]), o, w, (a["u"], .3, .6)), exp, "radiance of the path integrator", 1e-6, 1e-8)
    exp = Model(a, a["max"] + 1).li(o, w, 0)
    req_vclose(trace(a, WhittedIntegrator(a["max"] + 1), o, w), exp, "radiance of the Whitted integrator", 1e-6, 1e-8)
    label("chain%d" % m.segs)
    nontriv(max(exp) > 0 and m.segs > 2)


# ---- furnaces: closed spheres in which every path carries the same radiance ----------------------------------------
def furnace(a):
    """point lights in the middle of a diffuse sphere, or a sphere that glows: the series is known term by term"""
    p18.init()
    R, rho, D = a["r"], a["rho"], a["max"]
    c = a["c"]
    glow = a["glow"]
    prim = {"k": "ball", "c": c, "r": R, "ro": True if glow else a["ro"], "m": {"kd": rho}, "emit": a["I"][0] if glow else None}
    lights = [] if glow else [{"k": "point", "p": c, "I": I} for I in a["I"]]
    sc_a = {"prims": [prim], "lights": lights, "medium": a["medium"], "time": a["time"]}
    tr, e = (a["medium"]["c"], a["medium"]["e"]) if a["medium"] else ([1.] * 3, [0.] * 3)
    o, w = vadd(c, vmul(a["o"], R * .5)), a["w"]
    us = a["us"]
    n = max(1, len(lights))
    b = vdot(vmul(a["o"], R * .5), w)
    q = vadd(vmul(a["o"], .5), vmul(w, (-b + math.sqrt(b * b + R * R - vdot(a["o"], a["o"]) * R * R / 4)) / R))
    if math.hypot(q[0], q[1]) < 1e-3:
        raise Reject("pole")
    sel = min(int(us[0] * n), n - 1)
    if abs(us[0] * n - round(us[0] * n)) < 1e-9:
        raise Reject("between two lights")
    # direct light of one vertex, by the light the numbers choose; after the samples run out, the generator chooses
    def direct(i):
        if glow:
            return had(rho, a["I"][0])
        return had(rho, vmul(a["I"][i], INV_PI / R ** 2))
    if max(rho) * min(max(I) for I in a["I"]) / max(1., R * R) * min(tr) ** 6 < 20 * BLACK or max(rho) * INV_PI < BLACK:
        raise Reject("next to black")
    Le = a["I"][0] if glow else [0.] * 3
    # Whitted and direct: all lights
    allof = [0.] * 3
    for i in range(n):
        allof = vadd(allof, direct(i))
    first = vadd(had(tr, vadd(Le, had(tr, allof))), e)
    req_vclose(trace(sc_a, DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM, D + 1), o, w, us), first, "direct lighting, all lights", 1e-6, 1e-8)
    one = vadd(had(tr, vadd(Le, had(tr, vmul(direct(sel), n)))), e)
    req_vclose(trace(sc_a, DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM, D + 1), o, w, us), one, "direct lighting, one light", 1e-6, 1e-8)
    if not glow:
        req_vclose(trace(sc_a, WhittedIntegrator(D + 1), o, w, us), first, "Whitted", 1e-6, 1e-8)

    # path: vertices 0..D, the chosen light at each
    def series(k):
        L, t = [0.] * 3, [1.] * 3
        for _ in range(k + 1):
            L = vadd(L, had(t, had(tr, vmul(direct(sel), n))))
            t = had(had(t, rho), tr)
        return vadd(had(tr, vadd(Le, L)), e), t

    exp, t = series(min(D, 4))
    if D <= 4:
        req_vclose(trace(sc_a, PathIntegrator(D), o, w, us), exp, "path of at most %d bounces" % D, 1e-6, 1e-8)
        label("glow" if glow else "lights%d" % n)
        nontriv(D > 0)
        return
    if n > 1:
        raise Reject("the generator chooses the later lights")
    # five bounces: the last vertex is kept with a probability q and weighted by 1 / q
    run = lambda u: trace_rr(sc_a, PathIntegrator(5), o, w, us, u)
    lo, hi = us[0] * 0 + 1e-9, 1 - 1e-9
    last = had(tr, had(t, had(tr, vmul(direct(sel), n))))
    base = exp
    Llo, Lhi = run(lo), run(hi)
    gain = vsub(Llo, base)
    if max(abs(x - y) for x, y in zip(Llo, base)) <= 1e-9 + 1e-7 * max(base):
        require(max(last) < 1e-6, "a path of the fifth bounce is never continued")
        return
    if max(abs(x - y) for x, y in zip(Lhi, base)) > 1e-9 + 1e-7 * max(base):
        q = 1.
    else:
        for _ in range(30):
            mid = math.sqrt(lo * hi)
            L = run(mid)
            if max(abs(x - y) for x, y in zip(L, base)) > 1e-9 + 1e-7 * max(base):
                lo = mid
            else:
                hi = mid
        q = lo
    req_vclose(vmul(gain, q), last, "fifth bounce: probability of going on (%.6f) times what it then adds" % q, 1e-4, 1e-8)
    label("roulette")
    nontriv()


def trace_rr(a, integ, o, w, us, u):
    sc = build(a)
    ren = SamplerRenderer(None, None, integ, medium_of(a))
    smp = Sample(None, integ, None, sc)
    smp.time = a["time"]
    fill(smp, us)
    L, _ = ren.li(sc, geo.RayDifferential(geo.Point(*o), geo.Vector(*w), 0., np.inf, time=a["time"]), smp, Intersection(), Rng([u]))
    return fl(L)


# ---- direct light: the estimator ------------------------------------------------------------------------------------
def receiver(a):
    """a disk facing +z at the origin; its BSDF as seen along wo"""
    prim = {"k": "disk", "h": 0., "r": 4., "ro": a["ro"], "m": a["m"], "emit": None}
    return prim


def b_light(l, prims):
    """(light, primitives carrying it)"""
    if l["k"] == "area":
        tri_ok(Obj(l["s"]))
        sh = build_shape(l["s"])
        al = DiffuseAreaLight(Transform(), spec(l["I"]), l["ns"], sh)
        return al, [GeometricPrimitive(sh, Mat({}), al)]
    if l["k"] == "point":
        return PointLight(Transform.translate(geo.Vector(*l["p"])), spec(l["I"])), []
    if l["k"] == "distant":
        return DistantLight(Transform(), spec(l["I"]), geo.Vector(*l["d"])), []
    return InfiniteAreaLight(build_t(l["t"]), spec(l["I"]), l["ns"]), []


def setting(a):
    rec = receiver(a)
    prims = [GeometricPrimitive(place(rec), Mat(rec["m"]), None)]
    lights = []
    for l in a["lights"]:
        li, pr = b_light(l, prims)
        lights.append(li)
        prims += pr
    for b in a["balls"]:
        prims.append(GeometricPrimitive(place({"k": "ball", "c": b[0], "r": b[1]}), Mat({}), None))
    sc = Watched(SimpleAggregate(prims, True), lights, None)
    wo = vnorm(a["wo"])
    at = a["p"] + [0.]
    isect = Intersection()
    ray = geo.RayDifferential(geo.Point(*vadd(at, vmul(wo, .01))), geo.Vector(*vmul(wo, -1)), 0., np.inf, time=a["time"])
    if not sc.intersect(ray, isect) or isect.primitive is not prims[0]:
        raise Reject("receiver covered")
    bsdf = isect.get_bsdf(ray)
    return sc, isect, bsdf, geo.Vector(*wo), ray


def dim(x):
    x = fl(x)
    m = max(abs(v) for v in x)
    if 0 < m < BLACK:
        raise Reject("next to black")
    return m == 0.


def reference(sc, light, bsdf, isect, wo, u, v, flags, time, c):
    """the estimator written out: light sample and surface sample, each by the power heuristic"""
    p, n = bsdf.dgs.p, bsdf.dgs.nn
    L = [0.] * 3
    Li, wi, pl, vis = light.sample_l(p, isect.rEps, LightSample(*u), time)
    if pl > 0 and not dim(Li):
        f = bsdf.f(wo, wi, flags)
        if not dim(f) and not sc.intersect_p(geo.Ray(vis.ray.o, vis.ray.d, vis.ray.mint, vis.ray.maxt, 0, time)):
            wt = 1.
            if not light.is_delta_light():
                pb = bsdf.pdf(wo, wi, flags)
                wt = pl ** 2 / (pl ** 2 + pb ** 2)
            L = vadd(L, vmul(had(had(fl(f), fl(Li)), c(vis.ray)), abs(float(wi.dot(n))) * wt / pl))
            label("by light")
        else:
            label("occluded")
    if not light.is_delta_light():
        pb, wi, t, f = bsdf.sample_f(wo, BSDFSample(*v), flags)
        if pb > 0 and not dim(f):
            spc = bool(t & BDFType.SPECULAR)
            pl = 0. if spc else light.pdf(p, wi)
            if spc or pl > 0:
                wt = 1. if spc else pb ** 2 / (pl ** 2 + pb ** 2)
                hit = Intersection()
                r = geo.RayDifferential(p, wi, isect.rEps, np.inf, time=time)
                if sc.intersect(r, hit):
                    Li = fl(hit.le(-wi)) if hit.primitive.get_area_light() is light else [0.] * 3
                else:
                    Li = fl(light.le(r))
                dim(Li)
                if max(Li) > 0:
                    label("specular sample" if spc else "by surface")
                if max(Li) > 0:
                    L = vadd(L, vmul(had(had(fl(f), Li), c(r)), abs(float(wi.dot(n))) * wt / pb))
    return L


def mis(a):
    """direct light of one sample equals the multiple importance sampling estimator; strategies sum and average it"""
    p18.init()
    sc, isect, bsdf, wo, ray = setting(a)
    p, n = bsdf.dgs.p, bsdf.dgs.nn
    vi = medium_of(a)
    c = vi.c if vi else lambda ray: [1.] * 3
    ren = SamplerRenderer(None, None, None, vi)
    sc.times = None
    NS = BDFType(BDFType.ALL & ~BDFType.SPECULAR)
    before = [fl(l.power(sc)) for l in sc.lights]
    args = (p, n, wo, isect.rEps, a["time"], bsdf)
    lit = False
    for light in sc.lights:
        for flags in ([NS, BDFType(BDFType.ALL)] if "kr" in a["m"] and not a["m"].get("kt") else [NS]):
            exp = reference(sc, light, bsdf, isect, wo, a["us"][0], a["us"][1], flags, a["time"], c)
            bs = BSDFSample(*a["us"][1])
            got = fl(estimate_direct(sc, ren, light, p, n, wo, isect.rEps, a["time"], bsdf, LightSample(*a["us"][0]), bs, flags))
            req_vclose(got, exp, "direct light of one sample", 1e-7, 1e-9)
            lit |= max(exp) > 0
    # averages over the samples of each light, sum over lights
    for strat in (LightStrategy.SAMPLE_ALL_UNIFORM, LightStrategy.SAMPLE_ONE_UNIFORM):
        integ = DirectLightingIntegrator(strat, 1)
        smp = Sample(None, integ, None, sc)
        smp.time = a["time"]
        nl = len(sc.lights)
        ns = [max(1, l.get("ns", 1)) for l in a["lights"]] if strat == LightStrategy.SAMPLE_ALL_UNIFORM else [1]
        want = sorted(2 * ns) if strat == LightStrategy.SAMPLE_ALL_UNIFORM else [1, 1, 1]
        require(sorted(smp.n1D) == want and sorted(smp.n2D) == sorted(2 * ns), "%s requests %r and %r", strat, smp.n1D, smp.n2D)
        smp.oneD = [[a["us"][j % len(a["us"])][2] for j in range(k)] for k in smp.n1D]
        smp.twoD = [[a["us"][j % len(a["us"])][:2] for j in range(k)] for k in smp.n2D]
        E = lambda l, j: reference(sc, l, bsdf, isect, wo, a["us"][j % len(a["us"])], a["us"][j % len(a["us"])], NS, a["time"], c)
        if strat == LightStrategy.SAMPLE_ALL_UNIFORM:
            exp = [0.] * 3
            for l, k in zip(sc.lights, ns):
                for j in range(k):
                    exp = vadd(exp, vmul(E(l, j), 1. / k))
        else:
            x = a["us"][0][2] * nl
            if abs(x - round(x)) < 1e-9:
                raise Reject("between two lights")
            exp = vmul(E(sc.lights[min(int(x), nl - 1)], 0), nl)
        got = fl(integ.li(sc, ren, ray, isect, smp, Rng([.4])))
        req_vclose(got, exp, "direct lighting integrator, %s" % strat, 1e-7, 1e-9)
    # from the generator alone
    u, v = a["us"][0], a["us"][1]
    got = fl(uniform_sample_all_lights(sc, ren, *args, sample=None, light_offsets=None, bsdf_offsets=None, rng=Rng([.3])))
    exp = [0.] * 3
    for l in sc.lights:
        exp = vadd(exp, reference(sc, l, bsdf, isect, wo, [.3] * 3, [.3] * 3, NS, a["time"], c))
    req_vclose(got, exp, "all lights, samples drawn", 1e-7, 1e-9)
    got = fl(uniform_sample_one_light(sc, ren, *args, sample=None, rng=Rng([.3])))
    i = min(int(.3 * len(sc.lights)), len(sc.lights) - 1)
    exp = vmul(reference(sc, sc.lights[i], bsdf, isect, wo, [.3] * 3, [.3] * 3, NS, a["time"], c), len(sc.lights))
    req_vclose(got, exp, "one light, samples drawn", 1e-7, 1e-9)
    on_time(sc, a["time"])
    # the distribution over lights follows their power
    pw = [lum(x) for x in before]
    dist = compute_light_sampling_cdf(sc)
    for j in range(9):
        x = (j + .5) / 9
        i, pdf = dist.sample_dis(x)
        req_close(float(pdf), pw[i] / sum(pw), "chance of light %d" % i, 1e-7, 1e-12)
        lo, hi = sum(pw[:i]) / sum(pw), sum(pw[:i + 1]) / sum(pw)
        require(lo - 1e-7 <= x <= hi + 1e-7, "%r picks light %d, whose share is %r to %r", x, i, lo, hi)
    for l, x in zip(sc.lights, before):
        req_vclose(fl(l.power(sc)), x, "power of a light after rendering", 1e-12, 1e-12)
    nontriv(lit)


def walk(a):
    """a path of any lobes, media and lights equals the estimator written out: one light at each vertex, emission seen directly or
    after a specular bounce, the sky after a specular bounce"""
    p18.init()
    o, w = ray_for(a)
    us, D = a["us"], a["max"]
    if D > 2:
        us = [us[0]] * 3            # later vertices draw from the generator
    sc = build(a)
    vi = medium_of(a)
    c = vi.c if vi else lambda ray: [1.] * 3
    nl = len(sc.lights)
    if not nl:
        raise Reject("dark")
    x = us[0] * nl
    if abs(x - round(x)) < 1e-9:
        raise Reject("between two lights")
    light = sc.lights[int(x)]
    ray = first = geo.RayDifferential(geo.Point(*o), geo.Vector(*w), 0., np.inf, time=a["time"])
    isect = Intersection()
    if not sc.intersect(ray, isect):
        raise Reject("missed")
    L, T, after, kinds = [0.] * 3, [1.] * 3, False, []
    for b in range(D + 1):
        wo = -ray.d
        if b == 0 or after:
            Le = fl(isect.le(wo))
            L = vadd(L, had(T, Le))
            if after and max(Le) > 0 and "s" in kinds and "d" in kinds:
                label("caustic")
        bsdf = isect.get_bsdf(ray)
        p, n = bsdf.dgs.p, bsdf.dgs.nn
        NS = BDFType(BDFType.ALL & ~BDFType.SPECULAR)
        L = vadd(L, had(T, vmul(reference(sc, light, bsdf, isect, wo, [us[1], us[2], us[0]], [us[1], us[2], us[0]], NS, a["time"], c), nl)))
        pdf, wi, t, f = bsdf.sample_f(wo, BSDFSample(us[1], us[2], us[0]), BDFType.ALL)
        if float(pdf) == 0 or dim(f):
            break
        after = bool(t & BDFType.SPECULAR)
        kinds.append("s" if after else "d")
        T = had(T, vmul(fl(f), abs(float(wi.dot(n))) / float(pdf)))
        if b == D:
            break
        ray = geo.RayDifferential(p, wi, isect.rEps, np.inf, b + 1, a["time"])
        isect = Intersection()
        if not sc.intersect(ray, isect):
            if after:
                for l in sc.lights:
                    L = vadd(L, had(T, fl(l.le(ray))))
                label("sky")
            break
        T = had(T, c(ray))
    if vi:
        L = vadd(had(vi.c(first), L), a["medium"]["e"])
    got = trace(a, PathIntegrator(D), o, w, us)
    req_vclose(got, L, "radiance of a path of at most %d bounces (%s)" % (D, "".join(kinds)), 1e-7, 1e-9)
    label("".join(kinds))
    nontriv(len(kinds) > 1 and max(L) > 0)


def irradiance(a):
    """the mean over a stratified grid of samples is the light that arrives: a sphere light, an even sky"""
    p18.init()
    rho = a["rho"]
    th = a["th"]
    d_, r = a["dist"], a["dist"] * a["size"]
    c = [d_ * math.sin(th), 0., d_ * math.cos(th)]
    if a["sky"]:
        # the sky over a convex body: everything reflected
        lights = [{"k": "env", "I": a["I"], "ns": 1, "t": a["t"]}]
        exp = had(rho, a["I"])
    else:
        if math.asin(a["size"]) + th > math.pi / 2 - .02:
            raise Reject("below the horizon")
        lights = [{"k": "area", "s": {"k": "sphere", "r": r, "z0": -r, "z1": r, "phi": 360., "t": [["T", c]] + a["t"], "ro": False}, "I": a["I"], "ns": 1}]
        exp = vmul(had(rho, a["I"]), a["size"] ** 2 * math.cos(th))
    b = dict(a, m={"kd": rho}, ro=False, lights=lights, balls=[], p=[0., 0.])
    sc, isect, bsdf, wo, ray = setting(b)
    ren = SamplerRenderer(None, None, None, None)
    NS = BDFType(BDFType.ALL & ~BDFType.SPECULAR)
    N = 12
    tot = [0.] * 3
    for i in range(N):
        for j in range(N):
            k = (i * N + j)
            x, y = (i + (.5 + .3819 * k) % 1) / N, (j + (.5 + .7236 * k) % 1) / N
            L = estimate_direct(sc, ren, sc.lights[0], bsdf.dgs.p, bsdf.dgs.nn, wo, isect.rEps, a["time"], bsdf, LightSample(x, y, .5), BSDFSample(x, y, .5), NS)
            tot = vadd(tot, fl(L))
    got = vmul(tot, 1. / N / N)
    if a["sky"]:
        # nothing to bounce to: a path is one estimate of the direct light, whatever direction it leaves in
        us = a["u"]
        both = []
        for integ in (PathIntegrator(3), DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM, 3)):
            smp = Sample(None, integ, None, sc)
            smp.time = a["time"]
            fill(smp, us)
            r2 = geo.RayDifferential(ray.o, ray.d, 0., np.inf, time=a["time"])
            both.append(fl(SamplerRenderer(None, None, integ, None).li(sc, r2, smp, Intersection(), Rng([us[0]]))[0]))
        req_vclose(both[0], both[1], "path that leaves the scene", 1e-9, 1e-9)
    req_vclose(got, exp, "mean direct light", a["tol"], 1e-6)
    label("sky" if a["sky"] else "sphere light")
    nontriv()


# ---- independence of the requested samples -------------------------------------------------------------------------
BOX = [[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1], [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]]
FACES = [[0, 1, 2, 3], [4, 7, 6, 5], [0, 4, 5, 1], [1, 5, 6, 2], [2, 6, 7, 3], [3, 7, 4, 0]]     # seen from inside


def used(a):
    """each number the integrator asks for has an effect of its own; the rest is repeatable"""
    p18.init()
    rg = LCG(a["seed"])
    T = Transform()
    prims, lights = [], []
    order = a["faces"]
    for g in range(a["n"]):
        fs = [FACES[f] for f in order[g::a["n"]]]
        vi = [i for f in fs for i in (f[0], f[1], f[2], f[0], f[2], f[3])]
        mesh = create_triangle_mesh(T, T, a["ro"], {"indices": vi, "P": [float(c) for p in BOX for c in p]})
        al = DiffuseAreaLight(T, spec(a["I"][g]), a["ns"][g], mesh)
        lights.append(al)
        prims.append(GeometricPrimitive(mesh, Mat({"kd": a["rho"], "lobe": {"k": "micro", "R": [.9, .8, .7], "f": {"k": "full"}, "d": {"k": "blinn", "ex": 3.}}}), al))
    sc = Scene(SimpleAggregate(prims, True), lights, None)
    if a["k"] == "path":
        integ = PathIntegrator(3)
    else:
        integ = DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM if a["k"] == "all" else LightStrategy.SAMPLE_ONE_UNIFORM, 1)
    ren = SamplerRenderer(None, None, integ, None)
    smp = Sample(None, integ, None, sc)
    smp.time = 0.
    w = vnorm(a["w"])

    def L():
        ray = geo.RayDifferential(geo.Point(*vmul(a["o"], .8)), geo.Vector(*w), 0., np.inf)
        return fl(ren.li(sc, ray, smp, Intersection(), Rng([.31, .62, .17]))[0])

    todo = [(0, i, j) for i, n in enumerate(smp.n1D) for j in range(n)] + [(1, i, j) for i, n in enumerate(smp.n2D) for j in range(n)]
    count = len(todo)
    for trial in range(150):
        smp.oneD = [[rg.u() for _ in range(n)] for n in smp.n1D]
        smp.twoD = [[[rg.u(), rg.u()] for _ in range(n)] for n in smp.n2D]
        base = L()
        req_vclose(L(), base, "the same samples again", 1e-12, 1e-12)
        left = []
        for k, i, j in todo:
            arr = (smp.oneD, smp.twoD)[k][i]
            old = arr[j]
            arr[j] = rg.u() if k == 0 else [rg.u(), rg.u()]
            new = L()
            arr[j] = old
            if max(abs(x - y) for x, y in zip(new, base)) < 1e-9:
                left.append((k, i, j))
        todo = left
        if not todo:
            break
    require(not todo, "%s: requested numbers %r (of %d) never have an effect", a["k"], todo, count)
    label(a["k"])
    nontriv()


# ---- rays spawned at specular surfaces ---------------------------------------------------------------------------------
class Spy(SamplerRenderer):
    def __init__(self, L):
        super().__init__(None, None, None, None)
        self.L, self.seen = L, []

    def li(self, scene, ray, sample, isect, rng=None):
        self.seen.append((ray, isect))
        isect.dg = isect.primitive = None       # the callee's to use
        return spec(self.L), Spectrum(1.)


def bounce(o, w, p, eta, refl):
    """(hit point, outgoing direction) of a ray, on the sphere or the disk"""
    M, Mi = p["M"], p["Mi"]
    lo, lw = mapply_point(Mi, o), mapply_vec(Mi, w)
    if p["k"] == "ball":
        b, c = vdot(lo, lw), vdot(lo, lo) - p["r"] ** 2
        D = b * b - c
        if D < .02 * p["r"] ** 2:
            raise Reject("grazing")
        ts = [t for t in (-b - math.sqrt(D), -b + math.sqrt(D)) if t > 1e-3]
    else:
        if abs(lw[2]) < .1:
            raise Reject("edge on")
        ts = [t for t in [(p["h"] - lo[2]) / lw[2]] if t > 1e-3 and math.hypot(lo[0] + t * lw[0], lo[1] + t * lw[1]) < p["r"] - 1e-2]
    if not ts:
        raise Reject("missed")
    q = vadd(lo, vmul(lw, ts[0]))
    if math.hypot(q[0], q[1]) < .05 * p["r"]:
        raise Reject("pole")
    n = vmul(q, 1 / p["r"]) if p["k"] == "ball" else [0., 0., 1.]
    c = -vdot(n, lw)
    if c < 0:
        n, c, eta = vmul(n, -1), -c, 1 / eta
    if refl:
        out = vadd(lw, vmul(n, 2 * c))
    else:
        st2 = (1 - c * c) / eta ** 2
        if st2 > .97:
            raise Reject("critical angle")
        out = vadd(vmul(lw, 1 / eta), vmul(n, c / eta - math.sqrt(1 - st2)))
    return mapply_point(M, q), mapply_vec(M, out), ts[0]


def spawn(a):
    """reflected and refracted rays: start, direction, interval, depth, time, and differentials that follow neighbouring rays"""
    p18.init()
    p = dict(a["prim"])
    p["M"] = mchain(p["t"])
    p["Mi"] = minv(p["M"])
    T = build_t(p["t"])
    sh = Sphere(T, T.inverse(), p["ro"], p["r"], -p["r"], p["r"], 360.) if p["k"] == "ball" else Disk(T, T.inverse(), p["ro"], p["h"], p["r"], 0., 360.)
    # the index is that of the side the normal points away from
    eta = a["ior"]
    geta = 1 / eta if p["ro"] else eta
    prim = GeometricPrimitive(sh, Mat({"kr": a["kr"], "kt": a["kt"], "ior": eta}), None)
    sc = Scene(SimpleAggregate([prim], True), [], None)
    tgt = mapply_point(p["M"], vmul(a["off"], p["r"] * .7) if p["k"] == "ball" else [a["off"][0] * p["r"] * .7, a["off"][1] * p["r"] * .7, p["h"]])
    o = vadd(tgt, vmul(a["dir"], a["far"] * p["r"]))
    w = vmul(a["dir"], -1)
    for refl in (True, False):
        q, out, t = bounce(o, w, p, geta, refl)
        h = 1e-5
        ray = geo.RayDifferential(geo.Point(*o), geo.Vector(*w), 0., np.inf, a["depth"], a["time"])
        ray.has_differentials = a["diff"]
        nb = []
        for (do, dw) in a["nb"]:
            # tangent of the direction sphere
            dw = vsub(dw, vmul(w, vdot(dw, w)))
            nb.append((do, dw))
        ray.rxOrigin, ray.rxDirection = geo.Point(*vadd(o, vmul(nb[0][0], h))), geo.Vector(*vadd(w, vmul(nb[0][1], h)))
        ray.ryOrigin, ray.ryDirection = geo.Point(*vadd(o, vmul(nb[1][0], h))), geo.Vector(*vadd(w, vmul(nb[1][1], h)))
        isect = Intersection()
        require(sc.intersect(ray, isect), "the ray misses")
        eps, dg = isect.rEps, isect.dg
        bsdf = isect.get_bsdf(ray)
        spy = Spy([1., 2., 3.])
        smp = Sample()
        smp.time = a["time"]
        L = fl((specular_reflect if refl else specular_transmit)(ray, bsdf, isect, spy, sc, smp, Rng([.4])))
        require(isect.dg is dg and isect.primitive is prim, "the intersection the ray started from was overwritten")
        require(len(spy.seen) == 1, "%d rays traced", len(spy.seen))
        co = -vdot(w, mapply_vec(p["M"], vmul(mapply_point(p["Mi"], q), 1 / p["r"]) if p["k"] == "ball" else [0., 0., 1.])) * (-1 if p["ro"] else 1)
        F = f_diel(1., eta, co)
        k = F if refl else (1 - F) * (eta ** -2 if co > 0 else eta ** 2)
        req_vclose(L, had(vmul(a["kr"] if refl else a["kt"], k), [1., 2., 3.]), "weight of the ray", 1e-6, 1e-9)
        r = spy.seen[0][0]
        req_vclose(fl(r.o), q, "start", 1e-7, 1e-7)
        req_vclose(fl(r.d), out, "direction", 1e-6, 1e-6)
        require(r.depth == a["depth"] + 1 and r.time == a["time"] and r.mint == eps and r.maxt == np.inf, "depth %r time %r interval %r %r", r.depth, r.time, r.mint, r.maxt)
        require(bool(r.has_differentials) == a["diff"], "differentials %r", r.has_differentials)
        if not a["diff"]:
            continue
        if p["ro"] and p["k"] == "ball":
            label("reversed")
        for (do, dw), (xo, xd), nm in ((nb[0], (r.rxOrigin, r.rxDirection), "x"), (nb[1], (r.ryOrigin, r.ryDirection), "y")):
            H = 1e-4
            A = bounce(vadd(o, vmul(do, H)), vnorm(vadd(w, vmul(dw, H))), p, geta, refl)
            B = bounce(vadd(o, vmul(do, -H)), vnorm(vadd(w, vmul(dw, -H))), p, geta, refl)
            e1, e2 = vmul(vsub(A[0], B[0]), .5 / H), vmul(vsub(A[1], B[1]), .5 / H)
            g1, g2 = vmul(vsub(fl(xo), q), 1 / h), vmul(vsub(fl(xd), fl(r.d)), 1 / h)
            s = 1 + vlen(e1) + vlen(e2)
            req_vclose(g1, e1, "%s: d origin/d%s" % ("reflected" if refl else "refracted", nm), 0., 2e-3 * s)
            req_vclose(g2, e2, "%s: d direction/d%s" % ("reflected" if refl else "refracted", nm), 0., 2e-3 * s)
        label(("reflected " if refl else "refracted ") + p["k"] + (" inside" if co < 0 else ""))
        nontriv()
