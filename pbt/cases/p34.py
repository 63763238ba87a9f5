"""P34 answers depend on the object and the question alone: histories of queries on living objects against freshly built ones."""
from cases.shapes import *
from cases.threads import together, moments
from cases import p09, p10, p12, p13, p18, p21, p24, p26, p27, p28, p29
from cases import texture as tex
from cases.bdf import b_bdf, b_dist, b_fresnel, spec
from cases.p29 import Mat, Rng, fill
import numpy as np
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.transform import Transform, AnimatedTransform, quat
from pytracer.montecarlo import Distribution1D, Distribution2D
from pytracer.aggregate import GeometricPrimitive, TransformedPrimitive, SimpleAggregate, GridAccel, BVH, Intersection
from pytracer.scene import Scene
from pytracer.shape import TriangleMesh, LoopSubdiv, Sphere, create_triangle_mesh
from pytracer.light import *
from pytracer.light.utility import LightSample, VisibilityTester, ShapeSet
from pytracer.reflection import BSDF, BDFType, BSDFSample
from pytracer.sampler import Sample, CameraSample, StratifiedSampler
from pytracer.spectral.spectrum import SampledSpectrum
from pytracer.integrator import *
from pytracer.renderer import SamplerRenderer
from pytracer.film import ImageFilm
from pytracer.filter import BoxFilter
from pytracer.texture.utility import MIPMap, ImageWrap


def freeze(x, depth=0):
    """a comparable picture of a value; identities and counters left out"""
    if x is None or isinstance(x, (bool, str, np.bool_)):
        return str(x)
    if isinstance(x, (int, float, np.number)):
        x = float(x)
        return "nan" if x != x else x
    if isinstance(x, geo.BBox):
        return ["box", freeze(x.pMin), freeze(x.pMax)]
    if isinstance(x, Transform):
        return ["transform", freeze(np.asarray(x.m)), freeze(np.asarray(x.m_inv))]
    if isinstance(x, np.ndarray):
        return [type(x).__name__] + [freeze(v) for v in np.asarray(x).flatten()]
    if isinstance(x, (list, tuple)):
        return [freeze(v, depth) for v in x]
    if isinstance(x, BDFType):
        return ["type", int(x.v)]
    if isinstance(x, geo.Ray):
        out = [type(x).__name__, freeze(x.o), freeze(x.d), freeze(x.mint), freeze(x.maxt), freeze(x.time), freeze(x.depth)]
        if isinstance(x, geo.RayDifferential):
            out += [freeze(x.has_differentials)]
            if x.has_differentials:
                out += [freeze(v) for v in (x.rxOrigin, x.ryOrigin, x.rxDirection, x.ryDirection)]
        return out
    if isinstance(x, geo.DifferentialGeometry):
        return ["dg"] + [freeze(getattr(x, n)) for n in ("p", "nn", "u", "v", "dpdu", "dpdv", "dndu", "dndv", "dpdx", "dpdy", "dudx", "dvdx", "dudy", "dvdy")]
    if isinstance(x, VisibilityTester):
        return ["segment", freeze(x.ray)]
    if isinstance(x, BSDF):
        return ["bsdf", freeze(x.dgs), freeze(x.nn), freeze(x.ng), freeze(x.sn), freeze(x.tn), freeze(x.eta), x.n_BDF]
    if isinstance(x, LightSample):
        return ["ls", freeze(x.u_pos), freeze(x.u_com)]
    if isinstance(x, BSDFSample):
        return ["bs", freeze(x.u_dir), freeze(x.u_com)]
    if isinstance(x, CameraSample):
        return ["cs"] + [freeze(v) for v in (x.imageX, x.imageY, x.lens_u, x.lens_v, x.time)]
    if isinstance(x, Intersection):
        return ["isect", freeze(x.dg), freeze(x.rEps), freeze(x.w2o), freeze(x.o2w)]
    return type(x).__name__


def scramble(x):
    """the caller does what it likes with what it was given"""
    if isinstance(x, (list, tuple)):
        for v in x:
            scramble(v)
    elif isinstance(x, geo.BBox):
        scramble(x.pMin)
        scramble(x.pMax)
    elif isinstance(x, geo.Ray):
        scramble(x.o)
        scramble(x.d)
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind == "f" and x.ndim > 0:
        x[...] = 1234.5


class Asked(object):
    """the arguments of one question, built afresh; all are to come out as they went in"""

    def __init__(self, x):
        self.x, self.seen = x, []

    def __call__(self, o):
        self.seen.append((o, freeze(o)))
        return o

    def check(self, what):
        for o, f in self.seen:
            require(freeze(o) == f, "%s altered its argument: %r, was %r", what, freeze(o), f)

    def point(self): return self(geo.Point(*self.x["p"]))
    def afar(self): return self(geo.Point(*self.x["p"]) if any(self.x["p"]) else geo.Point(.7, -.4, .2))
    def vector(self): return self(geo.Vector(*self.x["w"]))
    def normal(self): return self(geo.Normal(*vnorm(self.x["v"])))
    def wo(self): return self(geo.Vector(*vnorm(self.x["w"])))
    def wi(self): return self(geo.Vector(*vnorm(self.x["v"])))

    def ray(self, keep=True):
        # towards the middle
        o = self.x["o"]
        d_ = vsub(vmul(self.x["p"], .3), o)
        r = geo.Ray(geo.Point(*o), geo.Vector(*d_), self.x["rng"][0], self.x["rng"][1] or np.inf, 0, self.x["time"])
        return self(r) if keep else r

    def rayd(self, keep=True):
        o = self.x["o"]
        d_ = vsub(vmul(self.x["p"], .3), o)
        r = geo.RayDifferential(geo.Point(*o), geo.Vector(*d_), 0., np.inf, 0, self.x["time"])
        r.rxOrigin, r.ryOrigin = geo.Point(*vadd(o, [.01, 0., 0.])), geo.Point(*vadd(o, [0., .01, 0.]))
        r.rxDirection, r.ryDirection = geo.Vector(*d_), geo.Vector(*d_)
        r.has_differentials = True
        return self(r) if keep else r

    def dg(self): return self(tex.dg(self.x["hit"]))
    def ls(self): return self(mk_ls(self.x["u"]))
    def bs(self): return self(mk_bs(self.x["u"]))
    def cs(self): return self(CameraSample(self.x["u"][0] * 7, self.x["u"][1] * 5, self.x["uv"][0], self.x["uv"][1], self.x["time"]))
    def box(self): return self(geo.BBox(geo.Point(*self.x["p"]), geo.Point(*vadd(self.x["p"], [1., 2., .5]))))
    def isect(self): return Intersection()


def mk_ls(u):
    s = LightSample()
    s.u_pos, s.u_com = [u[0], u[1]], u[2]
    return s


def mk_bs(u):
    s = BSDFSample()
    s.u_dir, s.u_com = [u[0], u[1]], u[2]
    return s


# ---- questions -----------------------------------------------------------------------------------------------------
def shading(s, A):
    hit, t, e, g = s.intersect(A.ray())
    if not hit:
        return None
    return g, s.get_shading_geometry(s.o2w, g)


def closest(g, A):
    r, i = A.ray(False), Intersection()
    h = g.intersect(r, i)
    return [h, r] + ([i, i.dg] if h else [])


def seen(g, A):
    """what the surface looks like where it is hit"""
    r, i = A.rayd(False), Intersection()
    if not g.intersect(r, i):
        return None
    b = i.get_bsdf(r)
    return [b, b.f(A.wo(), A.wi(), BDFType.ALL), i.le(A.wo()), i.dg]


def refined(s, A):
    return [[x.world_bound(), x.area() if x.can_intersect() else None] for x in s.refine()]


SHAPE = [("intersect", lambda s, A: s.intersect(A.ray())), ("intersect_p", lambda s, A: s.intersect_p(A.ray())), ("object_bound", lambda s, A: s.object_bound()),
         ("world_bound", lambda s, A: s.world_bound()), ("area", lambda s, A: s.area()), ("shading geometry", shading),
         ("sample", lambda s, A: s.sample(*A.x["uv"])), ("sample_p", lambda s, A: s.sample_p(A.point(), *A.x["uv"])), ("pdf_p", lambda s, A: s.pdf_p(A.point(), A.wi())), ("pdf", lambda s, A: s.pdf(A.point())),
         ("intersect", lambda s, A: s.intersect(A.rayd()))]
MESH = [("refine", refined), ("object_bound", lambda s, A: s.object_bound()), ("world_bound", lambda s, A: s.world_bound()), ("can_intersect", lambda s, A: s.can_intersect())]
TRANS = [("point", lambda t, A: t(A.point())), ("vector", lambda t, A: t(A.vector())), ("normal", lambda t, A: t(A.normal())), ("ray", lambda t, A: t(A.ray())), ("differential ray", lambda t, A: t(A.rayd())),
         ("box", lambda t, A: t(A.box())), ("inverse", lambda t, A: t.inverse()), ("product", lambda t, A: t * t),
         ("has_scale", lambda t, A: t.has_scale()), ("swaps_handedness", lambda t, A: t.swaps_handedness()), ("is_identity", lambda t, A: t.is_identity()), ("quaternion", lambda t, A: quat.from_transform(t))]
ANIM = [("interpolate", lambda t, A: t.interpolate(A.x["time"])), ("point", lambda t, A: t(A.x["time"], A.point())), ("vector", lambda t, A: t(A.x["time"], A.vector())), ("ray", lambda t, A: t(A.ray())),
        ("differential ray", lambda t, A: t(A.rayd())), ("motion_bounds", lambda t, A: t.motion_bounds(A.box(), A.x["uv"][0] < .5))]
CAMERA = [("generate_ray", lambda c, A: c.generate_ray(A.cs())), ("generate_ray_differential", lambda c, A: c.generate_ray_differential(A.cs()))]
FILTER = [("value", lambda f, A: f(A.x["p"][0] * .2, A.x["p"][1] * .2)), ("values", lambda f, A: f(A(np.array(A.x["p"]) * .2), A(np.array(A.x["o"]) * .1)))]
DIST1 = [("sample_cont", lambda t, A: t.sample_cont(A.x["uv"][0])), ("sample_dis", lambda t, A: t.sample_dis(A.x["uv"][0]))]
DIST2 = [("sample_cont", lambda t, A: t.sample_cont(*A.x["uv"])), ("pdf", lambda t, A: t.pdf(*A.x["uv"]))]
TEX = [("value", lambda t, A: t(A.dg()))]
MIP = [("lookup", lambda m, A: m.look_up(A(list(A.x["uv"]) + [A.x["u"][0]]))), ("anisotropic lookup", lambda m, A: m.look_up(A(list(A.x["uv"]) + list(A.x["hit"]["duv"])))),
       ("texel", lambda m, A: m.texel(0, int(A.x["p"][0]), int(A.x["p"][1]))), ("coarsest texel", lambda m, A: m.texel(m.levels - 1, 0, 0))]
def unifs(x, n): return [[(x["u"][0] + .618 * i) % 1., (x["u"][1] + .414 * i) % 1.] for i in range(n)]
BDF = [("f", lambda b, A: b.f(A.wo(), A.wi())), ("pdf", lambda b, A: b.pdf(A.wo(), A.wi())), ("sample_f", lambda b, A: b.sample_f(A.wo(), *A.x["uv"])),
       ("rho", lambda b, A: b.rho_hd(A.wo(), A(unifs(A.x, 4)))), ("total rho", lambda b, A: b.rho_hh(4, A(unifs(A.x, 4)), A(unifs(A.x, 4))))]
BSDFQ = [("f", lambda b, A: b.f(A.wo(), A.wi(), A.x["flags"])), ("pdf", lambda b, A: b.pdf(A.wo(), A.wi(), A.x["flags"])), ("sample_f", lambda b, A: b.sample_f(A.wo(), A.bs(), A.x["flags"])),
         ("n_components", lambda b, A: b.n_components(A.x["flags"])), ("w2l", lambda b, A: b.w2l(A.wo())), ("l2w", lambda b, A: b.l2w(A.wo()))]


def scatter(m, A):
    g1, g2 = p26.hits(A.x)
    b = m.get_bsdf(A(g1), A(g2))
    return [b, b.f(A.wo(), A.wi(), BDFType.ALL), b.sample_f(A.wo(), A.bs(), BDFType.ALL)]


def translucent(m, A):
    if isinstance(m, p26.mat.KdSubsurfaceMaterial):
        raise Reject("unimplemented")
    b = m.get_bssrdf(*[A(g) for g in p26.hits(A.x)])
    return None if b is None else [b.eta, b.sigma_a, b.sigma_prime_s]


MATERIAL = [("get_bsdf", scatter), ("get_bssrdf", translucent)]
BALLS = [[[0., 0., 0.], 1.], [[1., 2., -1.], .5]]


def ground(n=2):
    return p27.scn({"balls": BALLS[:n]})


LIGHT = [("sample_l", lambda l, A: l.sample_l(A.afar(), 1e-3, A.ls(), A.x["time"])), ("sample_r", lambda l, A: l.sample_r(ground(), A.ls(), *A.x["uv"], A.x["time"])), ("pdf", lambda l, A: l.pdf(A.point(), A.wi())),
         ("power", lambda l, A: l.power(ground())), ("power, another scene", lambda l, A: l.power(ground(1))), ("le", lambda l, A: l.le(A.rayd())), ("is_delta_light", lambda l, A: l.is_delta_light())]
AREA = LIGHT + [("l", lambda l, A: l.l(A.point(), A.normal(), A.wo()))]
REGION = [("world_bound", lambda v, A: v.world_bound()), ("intersect_p", lambda v, A: v.intersect_p(A.ray())), ("sigma_a", lambda v, A: v.sigma_a(A.point(), A.wo(), 0.)), ("sigma_s", lambda v, A: v.sigma_s(A.point(), A.wo(), 0.)),
          ("lve", lambda v, A: v.lve(A.point(), A.wo(), 0.)), ("sigma_t", lambda v, A: v.sigma_t(A.point(), A.wo(), 0.)), ("phase", lambda v, A: v.p(A.point(), A.wo(), A.wi(), 0.)), ("tau", lambda v, A: v.tau(A.ray(), .5, A.x["uv"][0]))]
AGG = [("intersect", closest), ("intersect_p", lambda g, A: g.intersect_p(A.ray())), ("world_bound", lambda g, A: g.world_bound()), ("surface", seen)]
def parts(g, A):
    if g.can_intersect():
        return None
    one, all_ = [], []
    g.refine(one)
    g.full_refine(all_)
    return [[q.world_bound() for q in one], [q.world_bound() for q in all_]]


PRIM = AGG + [("can_intersect", lambda g, A: g.can_intersect()), ("refine", parts)]
FRESNEL = [("value", lambda f, A: f(A.wo().z))]
FACETS = [("D", lambda f, A: f.D(A.wo())), ("pdf", lambda f, A: f.pdf(A.wo(), A.wi())), ("sample_f", lambda f, A: f.sample_f(A.wo(), *A.x["uv"]))]
SPECTRUM = [("y", lambda c, A: c.y()), ("to_rgb", lambda c, A: c.to_rgb()), ("to_xyz", lambda c, A: c.to_xyz()), ("sqrt", lambda c, A: c.sqrt()), ("exp", lambda c, A: c.exp()), ("pow", lambda c, A: c.pow(A.x["uv"][0])),
            ("clip", lambda c, A: c.clip(.2, .7)), ("is_black", lambda c, A: c.is_black()), ("has_nans", lambda c, A: c.has_nans()), ("lerp", lambda c, A: c.lerp(A.x["uv"][0], A(c * 2.))), ("sum", lambda c, A: c + A(c * 3.)),
            ("product", lambda c, A: c * A(c + 1.)), ("create", lambda c, A: type(c).create(A(c))), ("negative", lambda c, A: -c), ("division", lambda c, A: c / 2.), ("from_xyz", lambda c, A: type(c).from_xyz(A(list(A.x["u"])))), ("from_rgb", lambda c, A: type(c).from_rgb(A(list(A.x["u"]))))]
SAMPLER = [("subwindow", lambda m, A: m.compute_subwindow(int(A.x["uv"][0] * 6), 6)), ("subsampler", lambda m, A: extent(m.get_subsampler(int(A.x["uv"][0] * 6), 6))), ("round_size", lambda m, A: m.round_size(1 + int(A.x["uv"][1] * 9))),
           ("maximum_sample_cnt", lambda m, A: m.maximum_sample_cnt())]


def extent(m):
    return None if m is None else [m.xPixel_start, m.xPixel_end, m.yPixel_start, m.yPixel_end, m.spp, m.s_open, m.s_close]


FILM = [("sample extent", lambda f, A: f.get_sample_extent()), ("pixel extent", lambda f, A: f.get_pixel_extent())]


def li(cls):
    def go(I, A):
        integ, sc, ren = I
        smp = Sample(None, integ, None, sc)
        smp.time = A.x["time"]
        fill(smp, A.x["u"])
        return ren.li(sc, A.rayd(False), smp, Intersection(), Rng([A.x["u"][0]]))
    return go


INTEG = [("li", li(None)), ("transmittance", lambda I, A: I[2].transmittance(I[1], A.rayd(), None, Rng([.5])))]


# ---- objects -------------------------------------------------------------------------------------------------------
def b_light(q):
    T = build_t(q["t"])
    k = q["k"]
    I = spec(q["I"])
    if k == "point":
        return PointLight(T, I)
    if k == "spot":
        return SpotLight(T, I, q["width"], q["width"] * .5)
    if k == "distant":
        return DistantLight(T, I, geo.Vector(*q["d"]))
    if k == "env":
        return InfiniteAreaLight(T, I, q["ns"])
    with p27.Image(q["img"]) as im:
        if k == "proj":
            return ProjectionLight(T, I, im.name, q["width"])
        if k == "gonio":
            return GonioPhotometricLight(T, I, im.name)
        return InfiniteAreaLight(T, I, q["ns"], im.name)


def b_area(q):
    s = build_mesh(q["s"]) if q["s"]["k"] == "mesh" else build_shape(q["s"])
    return DiffuseAreaLight(build_t(q["t"]), spec(q["I"]), q["ns"], s)


def b_anim(q):
    k0, k1, t0, dt = q
    A = build_t(k0)
    return AnimatedTransform(A, t0, A * build_t(k1) if k1 else A, t0 + dt)


def b_agg(q):
    prims = []
    for i, s in enumerate(q["prims"]):
        sh = build_shape(s)
        al = DiffuseAreaLight(Transform(), spec([1., 2., 3.]), 1, sh) if q["glow"] and i == 0 else None
        p = GeometricPrimitive(sh, p26.b_mat(q["mats"][i % len(q["mats"])]), al)
        if q["move"] and i == 1:
            p = TransformedPrimitive(p, b_anim(q["move"]))
        prims.append(p)
    return p10.accel(q["acc"], prims, q)


def b_integ(q):
    sc = Scene(b_agg(q["g"]), [b_light(l) for l in q["lights"]], None)
    n = {"whitted": lambda: WhittedIntegrator(3), "path": lambda: PathIntegrator(3), "all": lambda: DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM, 3), "one": lambda: DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM, 3)}[q["i"]]()
    return n, sc, SamplerRenderer(None, None, n, None)


def b_scene(q):
    return Scene(b_agg(q["g"]), [b_light(l) for l in q["lights"]], p28.region(q["vr"]) if q["vr"] else None)


def b_prim(q):
    return GeometricPrimitive(build_mesh(q["s"]) if q["s"]["k"] == "mesh" else build_shape(q["s"]), p26.b_mat(q["m"]), None)


def b_sampler(q):
    x0, y0, w, h = q["win"]
    return StratifiedSampler(x0, x0 + w, y0, y0 + h, q["n"][0], q["n"][1], q["jitter"], *q["shutter"])


def b_spectrum(q):
    if len(q) == 3:
        return spec(q)
    p18.init()
    return SampledSpectrum.from_sampled([400. + 20. * i for i in range(len(q))], list(q))


def b_region(q):
    return p28.AggregateVolume([p28.region(r) for r in q]) if isinstance(q, list) else p28.region(q)


def b_loop(q):
    P, F = p09.base(q)
    return p09.run(P, F, q["t"], q["ro"], q["levels"])


def b_imgtex(q):
    """a texture of an image file that is loaded anew"""
    from pytracer.texture.texture.image import ImageTexture
    o = q["op"]
    with p27.Image(q["img"]) as im:
        mem, ret = {"rgb": (p24.RGBSpectrum, Spectrum), "FLOAT": (p24.FLOAT, p24.FLOAT), "float": (float, float), "mixed": (p24.FLOAT, float)}[o["type"]]
        return ImageTexture(ret, mem, tex.b_map(["uv", o["uv"]]), im.name, trilinear=o["trilinear"], max_aniso=o["aniso"], wrap=ImageWrap[o["wrap"]], scale=o["scale"], gamma=o["gamma"])


KINDS = {
    "image": (b_imgtex, TEX),
    "shape": (build_shape, SHAPE), "mesh": (build_mesh, MESH), "loop": (b_loop, MESH), "transform": (build_t, TRANS), "animated": (b_anim, ANIM),
    "camera": (lambda q: p12.make(q)[0], CAMERA), "filter": (p13.make, FILTER), "dist1": (lambda q: Distribution1D(list(q)), DIST1),
    "dist2": (lambda q: Distribution2D(np.array([q[:3], q[3:6]])), DIST2),
    "texture": (tex.b_tex, TEX), "mip": (lambda q: p24.build(q, q["tri"], 8.)[1], MIP), "bdf": (b_bdf, BDF), "bsdf": (lambda q: p21.make(q)[0], BSDFQ), "material": (p26.b_mat, MATERIAL),
    "light": (b_light, LIGHT), "area": (b_area, AREA), "region": (b_region, REGION), "aggregate": (b_agg, AGG), "integrator": (b_integ, INTEG),
    "scene": (b_scene, AGG[:3]), "primitive": (b_prim, PRIM), "fresnel": (b_fresnel, FRESNEL), "facets": (b_dist, FACETS), "spectrum": (b_spectrum, SPECTRUM), "sampler": (b_sampler, SAMPLER),
    "film": (lambda q: ImageFilm(q["xr"], q["yr"], BoxFilter(q["w"], q["w"]), q["crop"], "none.png"), FILM),
}


def ask(o, q, x, what, seed=7):
    """(answer or the kind of error, raw answer)"""
    A = Asked(x)
    np.random.seed(seed)
    try:
        r = q(o, A)
    except Reject:
        raise
    except (ValueError, NotImplementedError) as e:
        return "error " + type(e).__name__, None
    A.check(what)
    return freeze(r), r


def history(a):
    """two objects of a kind, asked in turn; every answer equals that of an object built for the question"""
    k = a["k"]
    make, Q = KINDS[k]
    ref = {}
    for o, q, x, _ in a["steps"]:
        key = (o, q % len(Q), x % len(a["xs"]))
        if key not in ref:
            n, f = Q[key[1]]
            ref[key] = ask(make(a["objs"][o]), f, a["xs"][key[2]], n)[0]
    objs = [make(q) for q in a["objs"]]
    done = []
    for o, q, x, m in a["steps"]:
        key = (o, q % len(Q), x % len(a["xs"]))
        n, f = Q[key[1]]
        if m == "repr":
            repr(objs[o])
        got, raw = ask(objs[o], f, a["xs"][key[2]], n)
        if got != ref[key]:
            raise Violation("%s of a %s after %s: %r, a fresh one answers %r" % (n, k, done or "nothing", got, ref[key]))
        if m == "scramble" and raw is not None:
            scramble(raw)
        done.append(n if m == "plain" else n + " (%s)" % m)
        label(str(ref[key])[:110] if str(ref[key]).startswith("error") else n)
    nontriv(len(a["steps"]) > 1 and any(not str(v).startswith("error") for v in ref.values()))


def meanwhile(a):
    """one object asked by two threads, the first interrupted anywhere by the second: both get the answers they would get alone"""
    k = a["k"]
    make, Q = KINDS[k]
    qs = [(Q[q % len(Q)], a["xs"][x % len(a["xs"])]) for q, x in a["asked"]]
    ref = []
    for (n, f), x in qs:
        r = [ask(make(a["objs"][0]), f, x, n, s)[0] for s in (7, 8)]
        if r[0] != r[1]:
            raise Reject("draws from the generator both threads share")
        ref.append(r[0])
    go = lambda o, i: lambda: ask(o, qs[i][0][1], qs[i][1], qs[i][0][0])[0]
    fresh = lambda: make(a["objs"][0])
    if a["other"]:
        r = [ask(make(a["objs"][1]), qs[1][0][1], qs[1][1], qs[1][0][0], s)[0] for s in (7, 8)]
        if r[0] != r[1]:
            raise Reject("draws from the generator both threads share")
        ref[1] = r[0]
    g, any_ = LCG(a["seed"]), False
    ps = moments(go(fresh(), 0), g, 5)
    ms = moments(go(make(a["objs"][1]) if a["other"] else fresh(), 1), g, 5) if a["twice"] else [-1] * 5
    for p, m in zip(ps, ms):
        one = fresh()
        two = make(a["objs"][1]) if a["other"] else one
        out = together(go(one, 0), go(two, 1), p, m, "%s of a %s" % (" and ".join(n for (n, f), x in qs), k))
        for i in (0, 1):
            require(out[i] == ref[i], "%s of a %s, %s by %s of a thread: %r, alone it answers %r", qs[i][0][0], k, ["interrupted", "started"][i], qs[1 - i][0][0], out[i], ref[i])
        any_ |= out[2]
    label(k)
    nontriv(any_ and not any(str(r).startswith("error") for r in ref))


# ---- what is built from tables keeps its own copy ------------------------------------------------------------------
def surface(m, A):
    """each triangle's outline, and how it looks in its middle"""
    out = []
    tris = m.refine()
    while not all(t.can_intersect() for t in tris):
        tris = [s for t in tris for s in ([t] if t.can_intersect() else t.refine())]
    for t in tris:
        (p, n) = t.sample(*A.x["uv"])
        o = p + geo.Vector(n.x, n.y, n.z) * 2.
        h, th, e, g = t.intersect(geo.Ray(o, p - o, 0., 2.))
        out += [t.world_bound(), t.area(), t.get_uvs(), h] + ([g, t.get_shading_geometry(t.o2w, g)] if h else [])
    return out


def attrs(*ns): return lambda o, A: [getattr(o, n) for n in ns]
def P_(K, v): return K(geo.Point(*v))
def V_(K, v): return K(geo.Vector(*v))
def N_(K, v): return K(geo.Normal(*v))


def o_mesh(q, K, raw):
    T = build_t(q["t"])
    P = [geo.Point(*p) for p in q["P"]]
    n = len(P)
    g = lambda c, k: K([K(c(*vnorm(v))) for v in q["dirs"][k:k + n]]) if q["with"] & (1 << k // 8) else None
    N, S = g(geo.Normal, 0), g(geo.Vector, 8)
    vi, uv = K(list(q["vi"])), K(np.array([c for v in q["duv"][:n] for c in v])) if q["with"] & 4 else None
    if raw:
        return create_triangle_mesh(T, T.inverse(), q["ro"], dict([("indices", vi), ("P", K([c for p in q["P"] for c in p]) if q["with"] & 8 else K([K(p) for p in P]))] + [(k, v) for k, v in (("N", N), ("S", S), ("uv", uv)) if v is not None]))
    return TriangleMesh(T, T.inverse(), q["ro"], len(vi) // 3, n, vi, K([K(p) for p in P]), N, S, uv)


def o_loop(q, K):
    T = build_t(q["t"])
    P, F = p09.base(q["base"])
    return LoopSubdiv(T, T.inverse(), q["ro"], len(F), len(P), K([i for f in F for i in f]), K([P_(K, p) for p in P]), q["with"] % 2)


def o_grid(q, K):
    r = dict(q["reg"], kind="grid")
    E, T = geo.BBox(geo.Point(-1., -1., -1.), geo.Point(1., 1.5, 2.)), build_t(q["t"])
    return p28.VolumeGridDensity(spec(r["sa"]), spec(r["ss"]), r["g"], spec(r["le"]), E, T, K(p28.grid_of(r)))


def mat_of(q):
    return np.array(p03_chain(q))


def p03_chain(q): return [[float(c) for c in row] for row in mchain(q["t"])]


def o_agg(q, K):
    T = Transform.translate(geo.Vector(*q["a"]))
    m = o_mesh(dict(q, **{"with": 0}), lambda o: o, False)
    k = q["with"] % 5
    prims = K([GeometricPrimitive(Sphere(T, T.inverse(), False, 2., -2., 2., 360.), None, None)] + [GeometricPrimitive(s, None, None) for s in (m.refine() if k == 0 else [m])])
    return [lambda: SimpleAggregate(prims, False), lambda: SimpleAggregate(prims, True), lambda: GridAccel(prims, False), lambda: GridAccel(prims, True), lambda: BVH(prims, 1)][k]()


def o_mip(q, K, spectral):
    n = q["with"]
    w, h = [1, 2, 4, 3][n % 4], [2, 4, 1, 3][n // 4]
    g = lambda i: q["ws"][i % len(q["ws"])] * (1 + i % 5)
    if spectral:
        img = np.empty([h, w], dtype=object)
        for i in range(w * h):
            img[i // w, i % w] = spec([g(i), g(i + 1), g(i + 2)])
    else:
        img = np.array([[g(t * w + s) for s in range(w)] for t in range(h)])
    return MIPMap(Spectrum if spectral else float, K(img), q["ro"], 8., ImageWrap[["REPEAT", "BLACK", "CLAMP"][n % 3]])


TEXELS = [f for _, f in MIP] + [lambda m, A: [m.texel(l, s, t) for l in range(m.levels) for s in range(3) for t in range(3)]]


OWNED = {
    "image": (lambda q, K: o_mip(q, K, False), TEXELS), "spectral image": (lambda q, K: o_mip(q, K, True), TEXELS),
    "ray": (lambda q, K: geo.Ray(P_(K, q["a"]), V_(K, q["b"])), [attrs("o", "d")]),
    "differential ray": (lambda q, K: geo.RayDifferential(P_(K, q["a"]), V_(K, q["b"])), [attrs("o", "d")]),
    "ray from a ray": (lambda q, K: geo.Ray.from_ray(K(geo.Ray(geo.Point(*q["a"]), geo.Vector(*q["b"])))), [attrs("o", "d")]),
    "differential ray from a ray": (lambda q, K: geo.RayDifferential.from_ray(K(geo.Ray(geo.Point(*q["a"]), geo.Vector(*q["b"])))), [attrs("o", "d")]),
    "box": (lambda q, K: geo.BBox(P_(K, q["a"]), P_(K, q["b"])), [attrs("pMin", "pMax")]),
    "box of a point": (lambda q, K: geo.BBox(P_(K, q["a"])), [attrs("pMin", "pMax")]),
    "box from a box": (lambda q, K: geo.BBox.from_bbox(K(geo.BBox(geo.Point(*q["a"]), geo.Point(*q["b"])))), [attrs("pMin", "pMax")]),
    "box around a box": (lambda q, K: geo.BBox(geo.Point(*q["a"])).union(K(geo.BBox(geo.Point(*q["b"]), geo.Point(*q["a"])))), [attrs("pMin", "pMax")]),
    "hit": (lambda q, K: geo.DifferentialGeometry(P_(K, q["a"]), V_(K, q["b"]), V_(K, q["c"]), N_(K, q["a"]), N_(K, q["b"]), .1, .2, None), [attrs("p", "nn", "dpdu", "dpdv", "dndu", "dndv")]),
    "point": (lambda q, K: geo.Point.from_arr(K(np.array(q["a"]))), [lambda o, A: o]), "vector": (lambda q, K: geo.Vector.from_arr(K(np.array(q["a"]))), [lambda o, A: o]), "normal": (lambda q, K: geo.Normal.from_arr(K(np.array(q["a"]))), [lambda o, A: o]),
    "transform": (lambda q, K: Transform(K(mat_of(q))), [f for _, f in TRANS]), "transform with inverse": (lambda q, K: Transform(K(mat_of(q)), K(np.linalg.inv(mat_of(q)))), [f for _, f in TRANS]),
    "mesh": (lambda q, K: o_mesh(q, K, False), [surface]), "described mesh": (lambda q, K: o_mesh(q, K, True), [surface]), "subdivision surface": (o_loop, [surface]),
    "density grid": (o_grid, [f for _, f in REGION]),
    "distribution": (lambda q, K: Distribution1D(K(list(q["ws"]))), [f for _, f in DIST1]), "distribution of an array": (lambda q, K: Distribution1D(K(np.array(q["ws"]))), [f for _, f in DIST1]),
    "distribution of a plane": (lambda q, K: Distribution2D(K(np.array([q["ws"], q["ws"][::-1], q["ws"][1:] + [.5]]))), [f for _, f in DIST2]),
    "spectrum of rgb": (lambda q, K: Spectrum.from_rgb(K(list(q["ws"][:3]))), [f for _, f in SPECTRUM]), "spectrum of rgb array": (lambda q, K: Spectrum.from_rgb(K(np.array(q["ws"][:3]))), [f for _, f in SPECTRUM]),
    "spectrum of xyz": (lambda q, K: Spectrum.from_xyz(K(list(q["ws"][:3]))), [f for _, f in SPECTRUM]), "spectrum of xyz array": (lambda q, K: Spectrum.from_xyz(K(np.array(q["ws"][:3]))), [f for _, f in SPECTRUM]),
    "spectrum of a spectrum": (lambda q, K: Spectrum.create(K(spec(q["ws"][:3]))), [f for _, f in SPECTRUM]),
    "aggregate": (lambda q, K: o_agg(q, K), [f for _, f in AGG[:3]]), "aggregate of media": (lambda q, K: p28.AggregateVolume(K([o_grid(q, lambda o: o), p28.region(q["reg"])][:1 + q["with"] % 2])), [f for _, f in REGION]),
    "film": (lambda q, K: ImageFilm(20, 30, BoxFilter(1., 1.), K([q["x"]["uv"][0] * .4, .8, q["x"]["uv"][1] * .4, .9]), "none.png"), [f for _, f in FILM]),
}


def overwrite(o):
    if isinstance(o, list) and o and isinstance(o[0], (GeometricPrimitive, p28.VolumeRegion)):
        del o[:]
    elif isinstance(o, list):
        for i in range(len(o)):
            o[i] = o[i] * 0 if isinstance(o[i], int) else o[i] * 3. + 1. if isinstance(o[i], float) else None
    elif isinstance(o, geo.BBox):
        overwrite(o.pMin)
        overwrite(o.pMax)
    elif isinstance(o, geo.Ray):
        overwrite(o.o)
        overwrite(o.d)
    elif isinstance(o, np.ndarray) and o.dtype == object:
        for i in np.ndindex(*o.shape):
            o[i] = o[i] * 3.
    else:
        o[...] = np.asarray(o)[...] * 3. + 1.


def owned(a):
    """once built, an object does not follow the caller's tables"""
    make, qs = OWNED[a["k"]]
    kept = []

    def keep(o):
        kept.append(o)
        return o
    ref, one = make(a, lambda o: o), make(a, keep)
    for o in kept[::-1]:
        overwrite(o)
    n = 0
    for q in qs:
        want, got = ask(ref, q, a["x"], a["k"])[0], ask(one, q, a["x"], a["k"])[0]
        n += not str(want).startswith("error")
        require(got == want, "%s changed with the tables it was built from: %r, was %r", a["k"], got, want)
    label(a["k"])
    nontriv(n > 0)
