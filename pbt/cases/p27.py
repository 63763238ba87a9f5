"""P27 light sources: radiance, directions, shadow segments, densities, emitted rays, power."""
import os
import shutil
import tempfile
from cases.shapes import *
from cases import p18
from cases.mip import Mip
from cases.p08 import on_surface, tri_ok
import numpy as np
import PIL.Image
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.aggregate import GeometricPrimitive, SimpleAggregate
from pytracer.scene import Scene
from pytracer.light import *
from pytracer.light.utility import VisibilityTester, LightSample, LightSampleOffset, ShapeSet
from pytracer.sampler import Sample, StratifiedSampler

INV_PI = 1 / math.pi


def S(v):
    return Spectrum(np.array([float(x) for x in v]))


def LS(u):
    return LightSample(u[0], u[1], u[2])


def scn(a):
    """a scene of spheres"""
    prims = []
    for c, r in a["balls"]:
        T = Transform.translate(geo.Vector(*c))
        prims.append(GeometricPrimitive(Sphere(T, T.inverse(), False, r, -r, r, 360.), None))
    return Scene(SimpleAggregate(prims, True), [], None)


def bsphere(a):
    lo = [min(c[i] - r for c, r in a["balls"]) for i in range(3)]
    hi = [max(c[i] + r for c, r in a["balls"]) for i in range(3)]
    return vmul(vadd(lo, hi), .5), vlen(vsub(hi, lo)) / 2


def lum(v):
    return .212671 * v[0] + .715160 * v[1] + .072169 * v[2]


# ---- images
def pixels(im):
    w, h = 2 ** im["lw"], 2 ** im["lh"]
    px = im["px"]
    return [[[(px[(3 * (t * w + s) + c) % len(px)] * (1 + (s + t) % 3)) % 256 for c in range(3)] for s in range(w)] for t in range(h)]


class Image(object):
    """an image file in a scratch directory, or the name of none"""

    def __init__(self, im):
        self.im = im

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="p27")
        self.name = os.path.join(self.dir, "i.png")
        self.mip = None
        if self.im is not None:
            m = pixels(self.im)
            arr = np.array(m, dtype=np.uint8)
            if self.im["mode"] == "RGBA":
                arr = np.array([[x + [128] for x in r] for r in m], dtype=np.uint8)
            elif self.im["mode"] == "L":
                arr = arr[:, :, 0].copy()
                m = [[[x[0]] * 3 for x in r] for r in m]
            PIL.Image.fromarray(arr, mode=self.im["mode"]).save(self.name, "PNG")
            self.m = [[[float(v) for v in x] for x in r] for r in m]
            self.mip = Mip(self.m, "REPEAT")
            self.w, self.h = len(m[0]), len(m)
        return self

    def __exit__(self, *x):
        shutil.rmtree(self.dir)


# ---- point-like lights
class PointModel(object):
    """frame, intensity by direction in the light's frame"""

    def __init__(self, a, img):
        self.a, self.k, self.I = a, a["k"], a["I"]
        self.M = mchain(a["t"])
        self.Mi = minv(self.M)
        self.pos = mapply_point(self.M, [0., 0., 0.])
        self.img = img
        if self.k == "spot":
            self.cw, self.cf = math.cos(math.radians(a["width"])), math.cos(math.radians(a["width"] * a["fall"]))
            self.cone = self.cw
        elif self.k == "proj":
            asp = img.w / float(img.h) if img.mip else 1.
            self.X, self.Y = (asp, 1.) if asp > 1 else (1., 1. / asp)
            self.tan = math.tan(math.radians(a["fov"]) / 2)
            self.cone = math.cos(math.atan(self.tan * math.hypot(self.X, self.Y)))
        else:
            self.cone = -1.

    def build(self):
        T = build_t(self.a["t"])
        if self.k == "point":
            return PointLight(T, S(self.I))
        if self.k == "spot":
            return SpotLight(T, S(self.I), self.a["width"], self.a["width"] * self.a["fall"])
        if self.k == "proj":
            return ProjectionLight(T, S(self.I), self.img.name, self.a["fov"])
        return GonioPhotometricLight(T, S(self.I), self.img.name)

    def intensity(self, w):
        """towards world direction w"""
        l = vnorm(mapply_vec(self.Mi, w))
        if self.k == "point":
            return list(self.I)
        if self.k == "spot":
            if min(abs(l[2] - self.cw), abs(l[2] - self.cf)) < 1e-9:
                raise Reject("edge of the cone")
            f = 0. if l[2] < self.cw else 1. if l[2] > self.cf else ((l[2] - self.cw) / (self.cf - self.cw)) ** 4
            return vmul(self.I, f)
        if self.k == "proj":
            if abs(l[2]) < 1e-3:
                raise Reject("sideways")
            if l[2] < 0:
                return [0.] * 3
            x, y = l[0] / l[2] / self.tan, l[1] / l[2] / self.tan
            if min(abs(abs(x) - self.X), abs(abs(y) - self.Y)) < 1e-7:
                raise Reject("edge of the image")
            if abs(x) > self.X or abs(y) > self.Y:
                return [0.] * 3
            if not self.img.mip:
                return list(self.I)
            v = self.img.mip.iso((x + self.X) / (2 * self.X), (y + self.Y) / (2 * self.Y))
        else:
            if not self.img.mip:
                return list(self.I)
            if math.hypot(l[0], l[2]) < 1e-3:
                raise Reject("pole of the image")
            phi = math.atan2(l[2], l[0]) % (2 * math.pi)
            v = self.img.mip.iso(phi / (2 * math.pi), math.acos(max(-1., min(1., l[1]))) / math.pi)
        return [p * q for p, q in zip(self.I, v)]

    def power(self):
        if self.k == "point":
            return vmul(self.I, 4 * math.pi)
        if self.k == "spot":
            return vmul(self.I, 2 * math.pi * (1 - (self.cw + self.cf) / 2))
        om = 4 * math.pi if self.k == "gonio" else 2 * math.pi * (1 - self.cone)
        mean = self.img.mip.levels[-1][0][0] if self.img.mip else [1.] * 3
        return [om * p * q for p, q in zip(self.I, mean)]


def segment(vis, p, eps, wi, dist, time):
    """the shadow ray runs from p towards the light and ends at it"""
    r = vis.ray
    req_vclose(r.o, p, "origin of the shadow ray", 1e-9, 1e-9)
    req_vclose(r.d, wi, "direction of the shadow ray", 1e-7, 1e-9)
    req_close(r.mint, eps, "start of the shadow ray", 1e-12, 1e-12)
    if dist is None:
        require(r.maxt == float("inf"), "the shadow ray towards infinity ends at %r", r.maxt)
    else:
        require(dist * (1 - 1e-3) <= r.maxt <= dist * (1 + 1e-9), "the shadow ray ends at %r, the light is %r away", r.maxt, dist)
    require(r.time == time, "time %r of the shadow ray, expected %r", r.time, time)
    require(r.depth == 0, "depth %r of the shadow ray", r.depth)


def emitted(ray, n, time):
    require(abs(vlen(fl(ray.d)) - 1) < 1e-6, "emitted direction %r of length %r", fl(ray.d), vlen(fl(ray.d)))
    require(ray.time == time and ray.depth == 0, "emitted ray of time %r, depth %r, expected time %r", ray.time, ray.depth, time)
    require(ray.maxt == float("inf") and 0 <= ray.mint < 1e-3, "emitted ray of range [%r, %r]", ray.mint, ray.maxt)
    require(isinstance(n, geo.Normal), "normal is a %s", type(n))


def stretch(f, x, y, h=1e-5):
    """area of the surface swept per unit of (x, y)"""
    du = vmul(vsub(f(x + h, y), f(x - h, y)), .5 / h)
    dv = vmul(vsub(f(x, y + h), f(x, y - h)), .5 / h)
    return vlen(vcross(du, dv))


def unaltered(light, call, get):
    """results are the caller's own"""
    r = get(call())
    keep = fl(r)
    r *= 3.
    r += 1.
    require(fl(get(call())) == keep, "%s shares its state with the caller", type(light).__name__)


def pointlike(a):
    p18.init()
    with Image(a["img"] if a["k"] in ("proj", "gonio") else None) as img:
        m = PointModel(a, img)
        L = m.build()
    time, eps, ls = a["time"], a["eps"], LS(a["u"])
    bright = False
    for p in a["ps"]:
        d_ = vsub(m.pos, p)
        r = vlen(d_)
        if r < 1e-2:
            raise Reject()
        if a["near"] and m.k in ("spot", "proj"):       # aim into the cone
            c = 1 - a["near"][0] * (1 - max(m.cone, 0.)) * 1.2
            s, ph = math.sqrt(max(0., 1 - c * c)), a["near"][1] * 2 * math.pi
            w = mapply_vec(m.M, [s * math.cos(ph), s * math.sin(ph), c])
            p = vadd(m.pos, vmul(w, r))
            d_ = vsub(m.pos, p)
        wi = vnorm(d_)
        e = vmul(m.intensity(vmul(wi, -1)), 1 / (r * r))
        P = geo.Point(*p)
        res = L.sample_l(P, eps, ls, time)
        req_vclose(res[1], wi, "direction to the light", 1e-7, 1e-7)
        require(isinstance(res[0], Spectrum), "radiance is a %s", type(res[0]))
        req_vclose(res[0], e, "%s: radiance at %r" % (m.k, p), 1e-6, 1e-9)
        require(res[2] == 1, "density %r of a light without extent", res[2])
        segment(res[3], p, eps, wi, r, time)
        require(L.pdf(P, res[1]) == 0, "density %r of a direction towards a light without extent", L.pdf(P, res[1]))
        require(fl(P) == fl(p), "the point was moved")
        bright = bright or max(e) > 0
    require(fl(L.le(geo.RayDifferential(geo.Point(0., 0., 0.), geo.Vector(*wi)))) == [0.] * 3, "a light without extent is seen by an escaping ray")
    require(L.is_delta_light() is True, "not a delta light")
    sc = scn(a)
    req_vclose(L.power(sc), m.power(), "%s: power" % m.k, 1e-6, 1e-9)
    u = [.01 + .98 * x for x in a["u"]]
    f = lambda x, y: fl(L.sample_r(sc, LightSample(x, y, u[2]), a["v"][0], a["v"][1], time)[0].d)
    ray, n, pdf, Le = L.sample_r(sc, LightSample(*u), a["v"][0], a["v"][1], time)
    emitted(ray, n, time)
    req_vclose(ray.o, m.pos, "origin of the emitted ray", 1e-9, 1e-9)
    req_vclose(n, fl(ray.d), "normal at the light", 1e-9, 1e-9)
    solid = 2 * math.pi * (1 - m.cone)
    req_close(pdf, 1 / solid, "%s: density of the emitted ray" % m.k, 1e-5, 0)
    req_close(stretch(f, u[0], u[1]) * pdf, 1., "%s: density of the emitted ray * solid angle" % m.k, 1e-3, 0)
    l = mapply_vec(m.Mi, fl(ray.d))
    require(l[2] >= m.cone - 1e-6, "%s: emitted ray leaves the cone of the light", m.k)
    try:
        e = m.intensity(fl(ray.d))
    except Reject:
        e = None
    if e is not None:
        req_vclose(Le, e, "%s: emitted intensity" % m.k, 1e-6, 1e-7)
    P = geo.Point(*a["ps"][0])
    unaltered(L, lambda: L.sample_l(P, eps, ls, time), lambda r: r[0])
    unaltered(L, lambda: L.sample_r(sc, ls, .3, .4, time), lambda r: r[3])
    nontriv(bright)
    label(m.k)
    if img.mip:
        label("image")


def distant(a):
    p18.init()
    M = mchain(a["t"])
    L = DistantLight(build_t(a["t"]), S(a["I"]), geo.Vector(*vmul(a["d"], a["len"])))
    di = vnorm(mapply_vec(M, a["d"]))
    sc = scn(a)
    ctr, rad = bsphere(a)
    ls = LS(a["u"])
    for p in a["ps"]:
        P = geo.Point(*p)
        l, wi, pdf, vis = L.sample_l(P, a["eps"], ls, a["time"])
        req_vclose(l, a["I"], "radiance", 1e-12, 0)
        req_vclose(wi, di, "direction to the light", 1e-7, 1e-9)
        require(pdf == 1 and L.pdf(P, wi) == 0, "density %r, pdf %r", pdf, L.pdf(P, wi))
        segment(vis, p, a["eps"], di, None, a["time"])
    require(L.is_delta_light() is True, "not a delta light")
    require(fl(L.le(geo.RayDifferential(geo.Point(0., 0., 0.), geo.Vector(*di)))) == [0.] * 3, "seen by an escaping ray")
    req_vclose(L.power(sc), vmul(a["I"], math.pi * rad * rad), "power", 1e-6, 0)
    u = [.01 + .98 * x for x in a["u"]]
    get = lambda x, y: L.sample_r(sc, LightSample(x, y, u[2]), a["v"][0], a["v"][1], a["time"])
    ray, n, pdf, Le = get(u[0], u[1])
    emitted(ray, n, a["time"])
    req_vclose(ray.d, vmul(di, -1), "emitted direction", 1e-7, 1e-9)
    req_vclose(Le, a["I"], "emitted radiance", 1e-12, 0)
    enters(fl(ray.o), vmul(di, -1), ctr, rad)
    req_close(pdf, 1 / (math.pi * rad * rad), "density of the emitted ray", 1e-6, 0)
    if min(abs(u[0] - u[1]), abs(u[0] + u[1] - 1)) > 1e-3 and math.hypot(u[0] - .5, u[1] - .5) > .05:
        f = lambda x, y: fl(get(x, y)[0].o)
        req_close(stretch(f, u[0], u[1]) * pdf, 1., "density of the emitted ray * area", 1e-3, 0)
    unaltered(L, lambda: L.sample_l(P, .1, ls, 0.), lambda r: r[0])
    unaltered(L, lambda: L.sample_l(P, .1, ls, 0.), lambda r: r[1])
    unaltered(L, lambda: get(.3, .2), lambda r: r[3])
    nontriv(max(a["I"]) > 0)


def enters(o, w, ctr, rad):
    """the ray starts on the disk that faces the scene's bounding sphere"""
    c = vsub(ctr, o)
    t = vdot(c, w)
    e = 1e-5 * (rad + vlen(ctr))
    require(abs(t - rad) <= e, "the ray starts %r before the centre of the scene, expected its radius %r", t, rad)
    require(vlen(vsub(c, vmul(w, t))) <= rad + e, "the ray passes the scene's bounding sphere")


def area(a):
    """area lights: one shape, or a mesh"""
    p18.init()
    s = a["s"]
    if s["k"] == "mesh":
        specs = [{"k": "tri", "P": s["P"], "vi": [v % len(s["P"]) for v in s["vi"][3 * i:3 * i + 3]], "uv": None, "ro": s["ro"], "t": s["t"]} for i in range(len(s["vi"]) // 3)]
        if any(len(set(q["vi"])) < 3 for q in specs):
            raise Reject()
        ms = [Obj(q) for q in specs]
        for m in ms:
            tri_ok(m)
        whole = build_mesh(dict(specs[0], vi=[v for q in specs for v in q["vi"]]))
    else:
        specs = [s]
        ms = [Obj(s)]
        tri_ok(ms[0])
        whole = build_shape(s)
    shapes = [build_shape(q) for q in specs]
    A = sum(m.area() for m in ms)
    if A < 1e-3:
        raise Reject()
    T = build_t(a["t"])
    L = DiffuseAreaLight(T, S(a["I"]), a["ns"], whole)
    require(L.ns == max(1, a["ns"]), "%r samples, asked for %r", L.ns, a["ns"])
    require(L.is_delta_light() is False, "a delta light")
    sc = scn(a)
    req_vclose(L.power(sc), vmul(a["I"], A * math.pi), "power", 1e-6, 0)
    time, eps, u = a["time"], a["eps"], a["u"]

    def emit(m, q, w):
        n = m.wnormal(m.normal(q))
        c = vdot(n, w) * (-1 if s["ro"] else 1)
        if abs(c) < 1e-6:
            raise Reject("edge on")
        return list(a["I"]) if c > 0 else [0.] * 3

    lit = False
    for p in a["ps"]:
        P = geo.Point(*p)
        pts = [fl(h.sample_p(P, u[0], u[1])[0]) for h in shapes]
        if any(vlen(vsub(x, p)) < 1e-3 for x in pts):
            raise Reject()
        l, wi, pdf, vis = L.sample_l(P, eps, LS(u), time)
        best = None
        for i, x in enumerate(pts):
            if vlen(vsub(vnorm(vsub(x, p)), fl(wi))) < 1e-7 and abs(vis.ray.maxt / vlen(vsub(x, p)) - 1) < 1e-3:
                if best is not None:
                    raise Reject("two parts sampled in one point")
                best = i
        require(best is not None, "direction %r at %r leads to no sample point %r", fl(wi), p, pts)
        x = pts[best]
        q = on_surface(ms[best], x, "sampled point", 1e-5)
        segment(vis, p, eps, vnorm(vsub(x, p)), vlen(vsub(x, p)), time)
        try:
            e = emit(ms[best], q, vmul(fl(wi), -1))
        except Reject:
            e = fl(l)
        req_vclose(l, e, "radiance of the light from %r" % (p,), 1e-9, 1e-12)
        exp = sum(m.area() * h.pdf_p(P, wi) for m, h in zip(ms, shapes)) / A
        req_close(pdf, exp, "density of the direction", 1e-6, 1e-12)
        lit = lit or max(e) > 0
        for w in a["ws"]:
            W = geo.Vector(*w)
            req_close(L.pdf(P, W), sum(m.area() * h.pdf_p(P, W) for m, h in zip(ms, shapes)) / A, "pdf of %r" % (w,), 1e-6, 1e-12)
    N = 64
    count = [0] * len(shapes)
    if len(shapes) > 1:
        for i in range(N):
            y = fl(L.sample_l(P, eps, LightSample(u[0], u[1], (i + .5) / N), time)[3].ray.d)
            ok = [k for k, x in enumerate(pts) if vlen(vsub(vnorm(vsub(x, p)), y)) < 1e-7]
            if len(ok) != 1:
                break
            count[ok[0]] += 1
        else:
            for c, m in zip(count, ms):
                require(abs(c / float(N) - m.area() / A) < 1.01 / N, "a part with %r of the area takes %r of the samples", m.area() / A, c / float(N))
            label("shares")
    for w in a["ws"]:
        n = a["n"]
        c = vdot(n, w)
        if abs(c) > 1e-9:
            req_vclose(L.l(P, geo.Normal(*n), geo.Vector(*w)), a["I"] if c > 0 else [0.] * 3, "emission towards %r from a surface facing %r" % (w, n), 1e-12, 0)
    require(fl(L.le(geo.RayDifferential(P, wi))) == [0.] * 3, "an area light is seen by a ray that hits nothing")
    # emitted rays
    v = [.02 + .96 * x for x in a["v"]]
    u = [.02 + .96 * x for x in u]
    get = lambda x, y, z, w: L.sample_r(sc, LightSample(x, y, u[2]), z, w, time)
    ray, n, pdf, Le = get(u[0], u[1], v[0], v[1])
    emitted(ray, n, time)
    o, d_ = fl(ray.o), fl(ray.d)
    k = [i for i, h in enumerate(shapes) if vlen(vsub(fl(h.sample(u[0], u[1])[0]), o)) < 1e-9 * (1 + vlen(o))]
    require(k, "emitted ray starts at %r, no sample point of the light", o)
    m = ms[k[0]]
    q = on_surface(m, o, "origin of the emitted ray", 1e-5)
    e = vmul(m.wnormal(m.normal(q)), -1. if s["ro"] else 1.)
    req_vclose(n, e, "normal at the origin of the emitted ray", 1e-5, 1e-5)
    require(vdot(d_, e) >= -1e-6, "emitted ray enters the light")
    if vdot(d_, e) > 1e-6:
        req_vclose(Le, a["I"], "emitted radiance", 1e-9, 1e-12)
    req_close(pdf, 1 / (2 * math.pi * A), "density of the emitted ray", 1e-6, 0)
    J = stretch(lambda y, z: fl(get(u[0], u[1], y, z)[0].d), v[0], v[1])
    # both hemispheres fold onto the one above the surface
    if abs(vdot(d_, e)) > 1e-3:
        req_close(J, 4 * math.pi, "solid angle per unit of the random numbers", 1e-3, 0)
    unaltered(L, lambda: L.l(P, geo.Normal(0., 0., 1.), geo.Vector(0., 0., 1.)), lambda r: r)
    unaltered(L, lambda: L.sample_l(P, eps, LS(u), time), lambda r: r[0])
    unaltered(L, lambda: get(u[0], u[1], v[0], v[1]), lambda r: r[3])
    nontriv(lit)
    label(s["k"])


def infinite(a):
    p18.init()
    M = mchain(a["t"])
    Mi = minv(M)
    with Image(a["img"]) as img:
        L = InfiniteAreaLight(build_t(a["t"]), S(a["I"]), a["ns"], img.name if a["img"] or a["missing"] else None)
    if img.mip:
        mip, W, H = img.mip, img.w, img.h
        if max(v for r in img.m for x in r for v in x) == 0:
            raise Reject("black")
    else:
        mip, W, H = Mip([[list(a["I"])]], "REPEAT"), 1, 1

    def coords(w):
        l = vnorm(mapply_vec(Mi, w))
        return math.atan2(l[1], l[0]) % (2 * math.pi) / (2 * math.pi), math.acos(max(-1., min(1., l[2]))) / math.pi

    def border(s, t):
        """cells of the sampling density end here"""
        return any(abs(x * n - round(x * n)) < 1e-5 * n for x, n in ((s, max(W, 2)), (t, max(H, 2)))) or math.sin(math.pi * t) < 1e-3

    require(L.ns == max(1, a["ns"]), "%r samples", L.ns)
    require(L.is_delta_light() is False, "a delta light")
    seen = []
    P = geo.Point(*a["ps"][0])
    for w in a["ws"]:
        s, t = coords(w)
        e = mip.iso(s, t)
        f = a["len"]
        rd = geo.RayDifferential(P, geo.Vector(*vmul(w, f)))
        if math.sin(math.pi * t) < 1e-3:
            continue                     # towards a pole of the image
        req_vclose(L.le(rd), e, "environment towards %r" % (w,), 1e-6, 1e-6)
        seen.append(lum(e))
        pd = L.pdf(P, geo.Vector(*w))
        require(pd >= 0, "density %r", pd)
        if not border(s, t) and lum(e) > 1e-3:
            require(pd > 0, "direction %r shines (%r) but is never sampled", w, e)
    # densities integrate to one
    nu, nv = 8, 16
    tot = 0.
    for j in range(nv):
        th = (j + .5) / nv * math.pi
        for i in range(nu):
            ph = (i + .37) / nu * 2 * math.pi
            x = mapply_vec(M, [math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)])
            tot += L.pdf(P, geo.Vector(*x)) * math.sin(th)
    tot *= math.pi / nv * 2 * math.pi / nu
    if lum(mip.levels[-1][0][0]) > 0:
        req_close(tot, 1., "integral of the density over all directions", 1e-6, 0)
    sc = scn(a)
    ctr, rad = bsphere(a)
    u = [.01 + .98 * x for x in a["u"]]
    v = [.01 + .98 * x for x in a["v"]]
    get = lambda x, y: L.sample_l(P, a["eps"], LightSample(x, y, u[2]), a["time"])
    l, wi, pdf, vis = get(u[0], u[1])
    segment(vis, a["ps"][0], a["eps"], fl(wi), None, a["time"])
    require(abs(vlen(fl(wi)) - 1) < 1e-6, "direction %r is not of unit length", fl(wi))
    s, t = coords(fl(wi))
    if math.sin(math.pi * t) < 1e-3:
        raise Reject("pole of the image")
    req_vclose(l, mip.iso(s, t), "radiance of the sampled direction %r" % (fl(wi),), 1e-6, 1e-6)
    if not border(s, t):
        req_close(pdf, L.pdf(P, wi), "density of the sample, and of its direction", 1e-6, 1e-9)
        f = lambda x, y: fl(get(x, y)[1])
        ends = [get(u[0] + x, u[1] + y) for x, y in ((1e-5, 0), (-1e-5, 0), (0, 1e-5), (0, -1e-5))]
        if all(close(r[2] * math.sin(math.pi * coords(fl(r[1]))[1]), pdf * math.sin(math.pi * t), 1e-6, 0) for r in ends) and pdf > 1e-3:
            req_close(stretch(f, u[0], u[1]) * pdf, 1., "density * solid angle", 2e-3, 0)
            label("jacobian")
    # emitted rays
    getr = lambda x, y, z, w: L.sample_r(sc, LightSample(x, y, u[2]), z, w, a["time"])
    ray, n, pr, Le = getr(u[0], u[1], v[0], v[1])
    emitted(ray, n, a["time"])
    d_ = fl(ray.d)
    req_vclose(n, d_, "normal of the emitted ray", 1e-9, 1e-9)
    enters(fl(ray.o), d_, ctr, rad)
    s, t = coords(vmul(d_, -1))
    req_vclose(Le, mip.iso(s, t), "radiance along the emitted ray", 1e-6, 1e-6)
    if not border(s, t):
        req_close(pr, L.pdf(P, geo.Vector(*vmul(d_, -1))) / (math.pi * rad * rad), "density of the emitted ray", 1e-5, 1e-12)
    if min(abs(v[0] - v[1]), abs(v[0] + v[1] - 1)) > 1e-3 and math.hypot(v[0] - .5, v[1] - .5) > .05:
        req_close(stretch(lambda y, z: fl(getr(u[0], u[1], y, z)[0].o), v[0], v[1]), math.pi * rad * rad, "area per unit of the random numbers", 1e-3, 0)
    req_vclose(L.power(sc), vmul(mip.levels[-1][0][0], math.pi * rad * rad), "power", 1e-6, 1e-9)
    unaltered(L, lambda: L.le(rd), lambda r: r)
    unaltered(L, lambda: get(u[0], u[1]), lambda r: r[0])
    nontriv(bool(seen) and max(seen) > 0)
    label("image" if img.mip else "constant")


def occlusion(a):
    """a light is hidden exactly when something lies between, between the two ends"""
    sc = scn(a)
    vis = VisibilityTester()
    p, q = a["p"], a["q"]
    if a["aim"]:
        q = vadd(vadd(p, vmul(vsub(a["balls"][0][0], p), a["aim"][0])), vmul(a["aim"][1], .5 * a["balls"][0][1]))
    D = vlen(vsub(q, p))
    if D < 1e-2:
        raise Reject()
    if a["k"] == "segment":
        vis.set_segment(geo.Point(*p), a["e1"], geo.Point(*q), a["e2"], a["time"])
        lo, hi = a["e1"], D * (1 - a["e2"])
    elif a["k"] == "given":
        lo, hi = a["e1"], D * (1 - a["e2"])
        vis = VisibilityTester(geo.Ray(geo.Point(*p), geo.Vector(*vnorm(vsub(q, p))), lo, hi, time=a["time"]))
        require(vis.ray is not None and vis.ray.time == a["time"], "the ray it was given is lost")
    else:
        vis.set_ray(geo.Point(*p), a["e1"], geo.Vector(*vnorm(vsub(q, p))), a["time"])
        lo, hi = a["e1"], float("inf")
    w = vnorm(vsub(q, p))
    blocked = False
    for c, r in a["balls"]:
        o = vsub(p, c)
        b = vdot(o, w)
        disc = b * b - (vdot(o, o) - r * r)
        if abs(disc) < 1e-4 * r:
            raise Reject("grazing")
        if disc > 0:
            for t in (-b - math.sqrt(disc), -b + math.sqrt(disc)):
                if min(abs(t - lo), abs(t - hi)) < 1e-5 * (1 + abs(t)):
                    raise Reject("touches the end")
                if lo < t < hi:
                    blocked = True
    require(bool(vis.unoccluded(sc)) == (not blocked), "%s from %r to %r %s blocked", a["k"], p, q, "is" if blocked else "is not")
    seen = []

    class R(object):
        def transmittance(self, scene, ray, sample, rng=None):
            seen.append((scene, ray, sample, rng))
            return Spectrum(.25)

    smp, rng = object(), (lambda *x: .5)
    require(fl(vis.transmittance(sc, R(), smp, rng)) == [.25] * 3, "transmittance lost")
    s_, r_, p_, g_ = seen[0]
    require(s_ is sc and p_ is smp and g_ is rng, "transmittance asked of something else")
    for k in ("mint", "maxt", "time"):
        require(getattr(r_, k) == getattr(vis.ray, k), "%s %r of the ray, expected %r", k, getattr(r_, k), getattr(vis.ray, k))
    require(fl(r_.o) == fl(vis.ray.o) and fl(r_.d) == fl(vis.ray.d) and isinstance(r_, geo.RayDifferential), "transmittance along another ray")
    nontriv(blocked)
    label(a["k"])


def samples(a):
    """light samples read the numbers their offsets were given"""
    class Surf(object):
        def request_samples(self, sampler, sample, scene):
            self.off = [LightSampleOffset(n, sample) for n in a["n"]]
    sf = Surf()
    smp = Sample(None, sf, None, None)
    own = {}
    k = [0]

    def nxt():
        k[0] += 1
        return k[0] / 1000.
    for i, n in enumerate(smp.n1D):
        smp.oneD[i] = np.array([nxt() for _ in range(n)])
    for i, n in enumerate(smp.n2D):
        smp.twoD[i] = np.array([[nxt(), nxt()] for _ in range(n)])
    require(len(smp.n1D) == len(smp.n2D) == len(a["n"]), "requested %r and %r sample arrays for %d lights", len(smp.n1D), len(smp.n2D), len(a["n"]))
    used = []
    for n, off in zip(a["n"], sf.off):
        require(off.nSamples == n, "%r samples, asked for %r", off.nSamples, n)
        for i in range(n):
            x = LightSample.from_sample(smp, off, i)
            require(list(x.u_pos) == fl(smp.twoD[off.offset_pos][i]) and x.u_com == smp.oneD[off.offset_com][i], "light sample reads other numbers")
            used += [float(x.u_pos[0]), float(x.u_pos[1]), float(x.u_com)]
    require(len(set(used)) == len(used), "two light samples share their numbers")
    q = [.1, .2, .3]
    it = iter(q)
    x = LightSample.from_rand(lambda: next(it))
    require(sorted(list(x.u_pos) + [x.u_com]) == q, "random light sample %r from %r", x, q)
    nontriv(len(used) > 3)


def emission(a):
    """emitted rays fill what their density says: first and second moments over a lattice of the unit square"""
    p18.init()
    k, u, v, time = a["k"], a["u"], a["v"], a["time"]
    sc = scn(a)
    ctr, rad = bsphere(a)
    lat = lattice(16)
    if k in ("point", "spot", "proj", "gonio"):
        with Image(None) as img:
            m = PointModel(a, img)
            L = m.build()
        axis = mapply_vec(m.M, [0., 0., 1.])
        got = [fl(L.sample_r(sc, LightSample(x, y, u[2]), v[0], v[1], time)[0].d) for x, y in lat]
        w = about_cone(axis, m.cone)
        req_moments(got, w[0], w[1], k + ": emitted directions", .02 * (1 - m.cone))
    elif k == "area":
        L = DiffuseAreaLight(build_t(a["t"]), S(a["I"]), 1, build_shape(a["s"]))
        rs = [L.sample_r(sc, LightSample(u[0], u[1], u[2]), x, y, time) for x, y in lat]
        w = about(fl(rs[0][1]), .5, 1. / 3)
        req_moments([fl(r[0].d) for r in rs], w[0], w[1], "area: emitted directions", .06)
    else:
        if k == "distant":
            L = DistantLight(build_t(a["t"]), S(a["I"]), geo.Vector(*a["d"]))
            rs = [L.sample_r(sc, LightSample(x, y, u[2]), v[0], v[1], time) for x, y in lat]
        else:
            L = InfiniteAreaLight(build_t(a["t"]), S(a["I"]), 1)
            rs = [L.sample_r(sc, LightSample(u[0], u[1], u[2]), x, y, time) for x, y in lat]
        w = fl(rs[0][0].d)
        got = [vmul(vsub(vadd(fl(r[0].o), vmul(w, rad)), ctr), 1 / rad) for r in rs]
        req_moments(got, [0.] * 3, [[((i == j) - w[i] * w[j]) / 4 for j in range(3)] for i in range(3)], k + ": origins on the disk", .02)
        if k == "infinite":
            # constant: all directions, as their density has it
            got = [fl(L.sample_l(geo.Point(0., 0., 0.), 0., LightSample(x, y, u[2]), time)[1]) for x, y in lat]
            m1, m2 = moments(got)
            n, s1, s2, tot = 16, [0.] * 3, [[0.] * 3 for _ in range(3)], 0.
            for j in range(n):
                th = (j + .5) / n * math.pi
                for i in range(n):
                    ph = (i + .37) / n * 2 * math.pi
                    x = mapply_vec(mchain(a["t"]), [math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)])
                    p = L.pdf(geo.Point(0., 0., 0.), geo.Vector(*x)) * math.sin(th) * 2 * math.pi ** 2 / n / n
                    tot += p
                    s1 = vadd(s1, vmul(x, p))
                    s2 = [[s2[r][c] + p * x[r] * x[c] for c in range(3)] for r in range(3)]
            req_close(tot, 1., "integral of the density", .01, 0)
            req_vclose(m1, s1, "mean of the sampled directions", 0, .03)
            for r in range(3):
                req_vclose(m2[r], s2[r], "second moments of the sampled directions", 0, .03)
    nontriv()
    label(k)
