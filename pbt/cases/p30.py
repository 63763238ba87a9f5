"""P30 the rendering loop: every sample of every pixel reaches the film once, with the radiance its ray brings."""
import contextlib
import io
import os
import shutil
import sys
import tempfile
from cases.p29 import *
from cases import p12
from cases.threads import together, moments
from cases.p03 import build as build_any
import PIL.Image
from pytracer.camera import Camera
from pytracer.film import ImageFilm, Film
from pytracer.filter import BoxFilter
from pytracer.sampler import StratifiedSampler, Sampler
from pytracer.renderer import SamplerRendererTask
from pytracer.transform import AnimatedTransform
from pytracer.integrator.surface import SurfaceIntegrator


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


class SpyFilm(Film):
    def __init__(self, xr, yr):
        super().__init__(xr, yr)
        self.log, self.written, self.splats = [], [], 0

    def add_sample(self, sample, L):
        self.log.append((float(sample.imageX), float(sample.imageY), float(sample.lens_u), float(sample.time), np.array(L, dtype=float)))

    def splat(self, sample, L): self.splats += 1
    def get_sample_extent(self): return [0, self.xResolution, 0, self.yResolution]
    def get_pixel_extent(self): return [0, self.xResolution, 0, self.yResolution]
    def write_image(self, splat_scale=1.): self.written.append(len(self.log))


def h01(*xs):
    """a number in [0, 1) that depends on all bits of xs"""
    r = LCG((hash(tuple(xs)) ^ 0x5bd1e995) & 0x7fffffff)
    r.u()
    return r.u()


class Eye(Camera):
    """rays straight down from the film, weights by a rule"""

    def __init__(self, a, film):
        m = AnimatedTransform(Transform(), 0., Transform(), 1.)
        super().__init__(m, 0., 1., film)
        self.a = a

    def weight(self, s):
        return self.a["wts"][int(h01(float(s.imageX), float(s.imageY)) * len(self.a["wts"]))]

    def generate_ray(self, s):
        return self.generate_ray_differential(s)

    def generate_ray_differential(self, s):
        x, y = self.xy(float(s.imageX), float(s.imageY))
        r = geo.RayDifferential(geo.Point(x, y, 10.), geo.Vector(0., 0., -1.), 0., np.inf, 0, s.time)
        r.rxOrigin, r.ryOrigin = geo.Point(x + 1, y, 10.), geo.Point(x, y + 2, 10.)
        r.rxDirection, r.ryDirection = geo.Vector(.5, 0., -1.), geo.Vector(0., .25, -1.)
        r.has_differentials = True
        return [self.weight(s), r]

    def xy(self, ix, iy):
        a = self.a
        return a["x0"] + a["dx"] * ix, a["y0"] + a["dx"] * iy


class Probe(SurfaceIntegrator):
    """radiance by a rule, not always a sound one"""

    def __init__(self, a):
        self.a, self.calls, self.pre, self.req, self.bad = a, 0, 0, [], []
        self.diffs = set()

    def preprocess(self, scene, camera, renderer):
        self.pre += 1

    def request_samples(self, sampler, sample, scene):
        self.req = [sample.add_1d(n) for n in self.a["n1"]] + [sample.add_2d(n) for n in self.a["n2"]]

    def rule(self, x, y, t):
        k = h01(x, y)
        size = 5. * 10. ** [0, 0, 0, 3, 6, -3][int(6 * h01(x, y, 9))]
        L = [size * h01(x, y, c) for c in range(3)]
        if h01(x, y, 11) < .1:  # a channel out of gamut: the radiance is not negative
            L = [L[0], L[1] + .5 * L[2], -.1 * L[2]]
        r = self.a["sick"]
        if k < .1 and r:
            L = {"nan": [L[0], float("nan"), 1.], "inf": [L[0], 1., float("inf")], "neg": [-L[0] - 1, .1, -.2], "ninf": [1., -float("inf"), 0.]}[r]
        return L

    def li(self, scene, renderer, ray, isect, sample, rng=None):
        self.calls += 1
        x, y = float(ray.o.x), float(ray.o.y)
        self.diffs.add(tuple(round(v, 9) for v in [float(ray.rxOrigin.x) - x, float(ray.ryOrigin.y) - y, float(ray.rxDirection.x), float(ray.ryDirection.y)]))
        if [len(v) for v in sample.oneD] != self.a["n1"] or [len(v) for v in sample.twoD] != self.a["n2"]:
            self.bad.append("sample arrays %r %r" % ([len(v) for v in sample.oneD], [len(v) for v in sample.twoD]))
        if isect.primitive is None or not ray.has_differentials:
            self.bad.append("no intersection")
        return spec(self.rule(x, y, float(ray.time)))


class Tap(StratifiedSampler):
    """remembers what it generated, and may refuse results, as adaptive samplers do"""

    def __init__(self, a, *args):
        super().__init__(*args)
        self.a, self.made, self.refused, self.reported = a, [], set(), 0

    def generate(self, samples, *k):
        ok = super().generate(samples, *k)
        if ok:
            self.made.append([(float(s.imageX), float(s.imageY), float(s.lens_u), float(s.time)) for s in samples])
        return ok

    def report_results(self, samples, rays, Ls, isects):
        self.reported += 1
        if self.a["refuse"] and h01(float(samples[0].imageX), 77) < .3:
            self.refused.add(len(self.made) - 1)
            return False
        return True


def guard(L):
    if any(v != v for v in L) or lum(L) < -1e-5 or lum(L) == float("inf"):
        return [0.] * 3
    return L


def world(a):
    prims = [GeometricPrimitive(place({"k": "ball", "c": c, "r": r}), Mat({}), None) for c, r in a["balls"]]
    sky = [InfiniteAreaLight(Transform(), spec(v), 1) for v in a["sky"]]
    return Scene(SimpleAggregate(prims, True), sky + [PointLight(Transform(), spec([1., 2., 3.]))], None)


def covered(a, x, y):
    best = min([abs(math.hypot(x - c[0], y - c[1]) - r) for c, r in a["balls"]])
    if best < 1e-6:
        raise Reject("silhouette")
    return any(math.hypot(x - c[0], y - c[1]) < r and c[2] - r < 10 for c, r in a["balls"])


def judge(a, film, eye, probe, vi):
    """every sample in the film's log has the radiance the rules give it"""
    hit = lit = 0
    for ix, iy, _, t, L in film.log:
        x, y = eye.xy(ix, iy)
        wt = eye.weight(type("s", (), {"imageX": ix, "imageY": iy}))
        c = covered(a, x, y)
        if a["mask"]:
            want = [1.] * 3 if c and wt > 0 else [0.] * 3
        elif wt > 0:
            want = probe.rule(x, y, t) if c else [sum(v[i] for v in a["sky"]) for i in range(3)]
            if vi:
                want = vadd(had(a["medium"]["c"], want), a["medium"]["e"])
            want = guard(vmul(want, wt))
        else:
            want = [0.] * 3
        hit += c
        lit += max(want) > 0
        req_vclose(fl(L), want, "radiance at (%r, %r), weight %r, %s" % (ix, iy, wt, "covered" if c else "background"), 1e-6, 1e-9)
    return hit, lit


def loop(a):
    """the film gets every generated sample once, with weighted and sanitised radiance; the image is written last"""
    p18.init()
    np.random.seed(a["seed"])
    sc = world(a)
    film = SpyFilm(a["w"][1] + 2, a["w"][3] + 2)
    eye, probe = Eye(a, film), Probe(a)
    vi = medium_of(a)
    smp = Tap(a, a["w"][0], a["w"][1], a["w"][2], a["w"][3], a["xs"], a["ys"], a["jitter"], a["open"], a["open"] + a["dur"])
    ren = SamplerRenderer(smp, eye, probe, vi)
    with quiet():
        if a["mask"]:
            SamplerRendererTask(sc, ren, eye, smp, Sample(smp, probe, vi, sc), True, 1, 1)()
        else:
            ren.render(sc)
    spp = a["xs"] * a["ys"]
    npx = (a["w"][1] - a["w"][0]) * (a["w"][3] - a["w"][2])
    require(len(smp.made) == npx and smp.reported == npx, "%d pixels generated, %d reported, %d in the window", len(smp.made), smp.reported, npx)
    exp = [s for i, m in enumerate(smp.made) if i not in smp.refused for s in m]
    got = [l[:4] for l in film.log]
    require(sorted(got) == sorted(exp), "%d samples reached the film, %d were generated and accepted", len(got), len(exp))
    if not a["mask"]:
        require(film.written == [len(film.log)], "the image was written after %r of %d samples", film.written, len(film.log))
        require(probe.pre == 1, "%d preprocessings", probe.pre)
    require(not probe.bad, "at the integrator: %s", probe.bad[0] if probe.bad else "")
    hit, lit = judge(a, film, eye, probe, vi)
    if probe.calls:
        k = 1 / math.sqrt(spp)
        require(len(probe.diffs) == 1, "differentials vary")
        req_vclose(list(probe.diffs)[0], [k, 2 * k, .5 * k, .25 * k], "differentials scaled to the sample spacing", 1e-7, 1e-8)
    label("mask" if a["mask"] else "sick " + a["sick"] if a["sick"] else "sound")
    if smp.refused:
        label("refused")
    if any(a["sky"]) and hit < len(film.log):
        label("sky")
    nontriv(lit and hit)


def tasks(a):
    """a picture rendered tile by tile, in any order and by two threads at once: the film gets every sample of every tile once"""
    p18.init()
    n = a["tiles"]

    def setup():
        np.random.seed(a["seed"])
        sc, film = world(a), SpyFilm(a["w"][1] + 2, a["w"][3] + 2)
        eye, probe, vi = Eye(a, film), Probe(a), medium_of(a)
        main = StratifiedSampler(a["w"][0], a["w"][1], a["w"][2], a["w"][3], a["xs"], a["ys"], a["jitter"], a["open"], a["open"] + a["dur"])
        ren = SamplerRenderer(main, eye, probe, vi)
        orig = Sample(main, probe, vi, sc)
        work, taps = [], []
        for i in sorted(range(n), key=lambda i: (a["perm"][i % len(a["perm"])], i)):
            sub = main.get_subsampler(i, n)
            if sub is None:
                continue
            taps.append(Tap(a, sub.xPixel_start, sub.xPixel_end, sub.yPixel_start, sub.yPixel_end, a["xs"], a["ys"], a["jitter"], a["open"], a["open"] + a["dur"]))
            work.append(SamplerRendererTask(sc, ren, eye, taps[-1], orig, a["mask"], i, n))
        return film, eye, probe, vi, taps, work

    def run(tasks_):
        def go():
            for t in tasks_:
                t()
        return go
    with quiet():
        film, eye, probe, vi, taps, work = setup()
        half = len(work) // 2
        if a["threads"] and half:
            g = LCG(a["seed"])
            k = moments(run(work[:half]), g, 1, a["files"])[0]
            m = moments(run(work[half:]), g, 1, a["files"])[0] if a["twice"] else -1
            film, eye, probe, vi, taps, work = setup()
            together(run(work[:half]), run(work[half:]), k, m, "tiles in two threads")
        else:
            run(work)()
    made = [x for t in taps for x in t.made]
    npx = (a["w"][1] - a["w"][0]) * (a["w"][3] - a["w"][2])
    require(len(made) == npx, "%d pixels generated by the tiles, %d in the window", len(made), npx)
    exp = [s for t in taps for i, m in enumerate(t.made) if i not in t.refused for s in m]
    require(sorted(l[:4] for l in film.log) == sorted(exp), "%d samples reached the film, %d were generated and accepted", len(film.log), len(exp))
    require(not probe.bad, "at the integrator: %s", probe.bad[0] if probe.bad else "")
    hit, lit = judge(a, film, eye, probe, vi)
    label("two threads" if a["threads"] and half else "in turn")
    label("%d tiles" % len(work))
    nontriv(lit and len(work) > 1)


# ---- end to end: the picture geometry predicts ---------------------------------------------------------------------
def picture(a):
    """a scene of glowing spheres before a sky, one ray through each pixel centre, written to a file"""
    p18.init()
    cam_a = dict(a["cam"], xr=a["xr"], yr=a["yr"], lensr=0., lens=[.5, .5], time=0., shutter=[0., 1.])
    cam_a["c2w"] = [a["cam"]["c2w"][0], None, 0., 1.]
    m = mchain(a["cam"]["c2w"][0])
    tmp = tempfile.mkdtemp(prefix="p30")
    try:
        prims, lights = [], [InfiniteAreaLight(Transform(), spec(v), 1) for v in a["sky"]]
        balls = []
        for dist, off, r, I, ro in a["balls"]:
            # in front of the camera
            s = -1. if cam_a["kind"] == "env" and ro else 1.   # the panorama sees what is behind, too
            c = mapply_point(m, [off[0] * dist, off[1] * dist, s * dist])
            balls.append((c, r, I, ro))
            sh = place({"k": "ball", "c": c, "r": r, "ro": ro})
            al = DiffuseAreaLight(Transform(), spec(I), 1, sh)
            lights.append(al)
            prims.append(GeometricPrimitive(sh, Mat({}), al))
        sc = Scene(SimpleAggregate(prims, True), lights, None)
        name = os.path.join(tmp, "o.png")
        film = ImageFilm(a["xr"], a["yr"], BoxFilter(.5, .5), [0., 1., 0., 1.], name)
        cam = p12.make(cam_a, film)[0]
        smp = StratifiedSampler(0, a["xr"], 0, a["yr"], 1, 1, False, 0., 1.)
        integ = {"whitted": WhittedIntegrator(1), "direct": DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM, 1), "path": PathIntegrator(0)}[a["integ"]]
        with quiet():
            SamplerRenderer(smp, cam, integ, None).render(sc)
        with PIL.Image.open(name) as pic:
            img = np.array(pic)
        require(img.shape == (a["yr"], a["xr"], 3), "image of shape %r", img.shape)
        exp = []
        seen = 0
        for y in range(a["yr"]):
            row = []
            for x in range(a["xr"]):
                o, d = p12.expected(cam_a, x + .5, y + .5)
                o, d = mapply_point(m, o), mapply_vec(m, d)
                best = None
                for c, r, I, ro in balls:
                    oc = vsub(o, c)
                    b, cc = vdot(oc, d), vdot(oc, oc) - r * r
                    D = b * b - cc
                    if abs(D) < 1e-6 * r * r or abs(cc) < 1e-6:
                        raise Reject("silhouette")
                    if D < 0:
                        continue
                    for t, outer in ((-b - math.sqrt(D), True), (-b + math.sqrt(D), False)):
                        if abs(t) < 1e-3:
                            raise Reject("at the eye")
                        if t > 0 and (best is None or t < best[0]):
                            if best is not None and abs(best[0] - t) < 1e-6:
                                raise Reject("tie")
                            best = (t, I if outer != bool(ro) else [0.] * 3)
                if best:
                    seen += 1
                row.append(best[1] if best else [sum(v[i] for v in a["sky"]) for i in range(3)])
            exp.append(row)
        top = [max(v[c] for r in exp for v in r) for c in range(3)]
        for y in range(a["yr"]):
            for x in range(a["xr"]):
                for c in range(3):
                    want = 255. * exp[y][x][c] / top[c] if top[c] > 0 else 0.
                    require(abs(float(img[y, x, c]) - want) < 1.5, "pixel (%d, %d) channel %d is %r, geometry predicts %r (of %r)", x, y, c, int(img[y, x, c]), want, top[c])
        label(cam_a["kind"])
        label(a["integ"])
        if len(set(tuple(v) for r in exp for v in r)) > 1:
            nontriv()
    finally:
        shutil.rmtree(tmp)


# ---- end to end: lit scenes, every stage real, against one closed-form model -----------------------------------------
def lit_light(l, m0):
    """(light, function world point -> (direction to the light, distance, intensity) or None)"""
    P = mapply_point(m0, l["p"])
    T = Transform.translate(geo.Vector(*P))
    if l["k"] == "point":
        return PointLight(T, spec(l["I"])), lambda p: (vnorm(vsub(P, p)), vlen(vsub(P, p)), vmul(l["I"], 1. / vdot(vsub(P, p), vsub(P, p))))
    if l["k"] == "distant":
        w = vnorm(mapply_vec(m0, l["d"]))
        return DistantLight(Transform(), spec(l["I"]), geo.Vector(*w)), lambda p: (w, INF, l["I"])
    chain = [["T", P], ["R", l["ang"], l["axis"]]]
    w2l = minv(mchain(chain))
    cw, cf = math.cos(math.radians(l["width"])), math.cos(math.radians(l["width"] * l["inner"]))

    def spot(p):
        v = vsub(P, p)
        c = vnorm(mapply_vec(w2l, vmul(v, -1.)))[2]
        if abs(c - cw) < 1e-4:
            return "rim"
        f = 0. if c < cw else 1. if c > cf else ((c - cw) / (cf - cw)) ** 4
        return vnorm(v), vlen(v), vmul(l["I"], f / vdot(v, v))
    return SpotLight(build_any(chain), spec(l["I"]), l["width"], l["width"] * l["inner"]), spot


def lit_dim(objs, o, d, mint, maxt):
    """nearest (t, index, object point), None for a miss, 'dim' when too close to call"""
    best = None
    for i, m in enumerate(objs):
        oo, od = mapply_point(m.Mi, o), mapply_vec(m.Mi, d)
        reach = 1 + vlen(oo) / max(m.s.get("r", 1.), 1e-9) * 1e-3
        for t, k in m.candidates(oo, od):
            if abs(k) < 1e-5 * reach:
                return "dim"
            if k < 0 or t > maxt:
                continue
            if abs(t) > mint[0] and abs(t) < mint[1]:
                return "dim"
            if t < mint[1]:
                continue
            if best and abs(t - best[0]) < 1e-5 * (1 + t):
                return "dim"
            if best is None or t < best[0]:
                best = (t, i, vadd(oo, vmul(od, t)))
    return best


def lit_uv(m, p):
    if m.k == "tri":
        b = m.bary(p)
        return [sum(b[i] * m.uv[i][j] for i in range(3)) for j in range(2)]
    phi = math.atan2(p[1], p[0]) % TWO_PI
    if min(phi, TWO_PI - phi) < 1e-4:
        return None
    u = phi / m.phimax
    if m.k == "sphere":
        t0, t1 = [math.acos(min(1., max(-1., z / m.R))) for z in (m.zmin, m.zmax)]
        th = math.acos(min(1., max(-1., p[2] / m.R)))
        return [u, (th - t0) / (t1 - t0)]
    if m.k == "cyl":
        return [u, (p[2] - m.zmin) / (m.zmax - m.zmin)]
    r = math.hypot(p[0], p[1])
    return [u, (m.s["r"] - r) / (m.s["r"] - m.s["ri"])]


def lit(a):
    """matte and glowing shapes of all kinds, behind any accelerator, under point, spot and distant lights with shadows,
    by moving cameras with lenses, through any filter, cropped: every pixel is what the closed forms predict"""
    from pytracer.material import MatteMaterial
    from pytracer.texture import ConstantTexture, BilerpTexture, UVMapping2D
    from pytracer.aggregate import TransformedPrimitive
    from cases import p14, p10
    import pytracer.utility.imageio as iio
    p18.init()
    np.random.seed(a["seed"])
    c2w = a["cam"]["c2w"]
    m0 = mchain(c2w[0])
    cam_a = dict(a["cam"], xr=a["xr"], yr=a["yr"])
    prims, objs, mats = [], [], []
    for p in a["prims"]:
        z = -1. if cam_a["kind"] == "env" and p["behind"] else 1.
        outer = c2w[0] + [["T", [p["off"][0] * p["dist"], p["off"][1] * p["dist"], z * p["dist"]]]]
        full = dict(p["s"], t=outer + p["s"]["t"])
        m = Obj(full)
        if m.k == "tri":
            tri_ok(m)
        if p["inst"]:
            sh = build_shape(p["s"])
        else:
            sh = build_shape(full)
        if p["tex"]:
            c = p["tex"]
            kd = BilerpTexture(UVMapping2D(1., 1., 0., 0.), *[spec(v) for v in c])
            col = lambda uv, c=c: [(1 - uv[0]) * (1 - uv[1]) * c[0][i] + (1 - uv[0]) * uv[1] * c[1][i] + uv[0] * (1 - uv[1]) * c[2][i] + uv[0] * uv[1] * c[3][i] for i in range(3)]
        else:
            kd = ConstantTexture(spec(p["kd"]))
            col = lambda uv, c=p["kd"]: c
        al = None
        if p["emit"] and not p["inst"] and m.k != "tri":
            al = DiffuseAreaLight(Transform(), spec(p["emit"]), 1, sh)
        g = GeometricPrimitive(sh, MatteMaterial(kd, ConstantTexture(0.), None), al)
        if p["inst"]:
            W = build_any(outer).inverse()
            g = TransformedPrimitive(g, AnimatedTransform(W, 0., W, 1.))
        prims.append(g)
        objs.append(m)
        mats.append((col, p["emit"] if al else None))
    lights, models = [], []
    for l in a["lights"]:
        L, f = lit_light(l, m0)
        lights.append(L)
        models.append(f)
    # grids over the same primitives, some instanced
    sc = Scene(p10.accel(a["acc"], prims, dict(a, mp=2)), lights, None)
    film = p14.film(a)
    cam, motion = p12.make(cam_a, film)
    w = [int(v) for v in film.get_sample_extent()]
    jit = a["jitter"]
    smp = Tap({"refuse": False}, w[0], w[1], w[2], w[3], a["xs"], a["ys"], jit, cam_a["shutter"][0], cam_a["shutter"][1])
    lens = {}
    made = []
    old_gen = StratifiedSampler.generate

    def generate(samples, *k):
        ok = old_gen(smp, samples, *k)
        if ok:
            made.extend([(float(s.imageX), float(s.imageY), float(s.lens_u), float(s.lens_v), float(s.time)) for s in samples])
        return ok
    smp.generate = generate
    integ = {"whitted": WhittedIntegrator(2), "direct": DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM, 2),
             "one": DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM, 2), "path": PathIntegrator(0)}[a["integ"] if len(lights) == 1 else a["integ2"]]
    got = []
    old = iio.write_image
    iio.write_image = lambda fn, rgb, alpha, *rest: got.append((np.array(rgb, dtype=float), [int(x) for x in rest]))
    try:
        with quiet():
            SamplerRenderer(smp, cam, integ, None).render(sc)
    finally:
        iio.write_image = old
    require(len(got) == 1, "the image was written %d times", len(got))
    require(len(made) == (w[1] - w[0]) * (w[3] - w[2]) * a["xs"] * a["ys"], "%d samples for the extent %r", len(made), w)
    known, dim = [], []
    lit_n = shadow = 0
    kinds = set()
    still = c2w[1] is None
    M = m0 if still else None
    for x, y, lu, lv, t in made:
        s = {"x": x / a["xr"], "y": y / a["yr"], "L": [0.] * 3}
        o, d = p12.expected(dict(cam_a, lens=[lu, lv]), x, y)
        if not still:
            M = [[float(c) for c in r] for r in np.asarray(motion.interpolate(t).m)]
        o, d = mapply_point(M, o), vnorm(mapply_vec(M, d))
        h = lit_dim(objs, o, d, (0., 1e-2), INF)
        if h != "dim" and h is not None:
            th, i, op = h
            m = objs[i]
            p = m.toworld(op)
            n = m.wnormal(m.normal(op))
            if m.s["ro"]:
                n = vmul(n, -1.)
            eps = 3e-3 * th
            uv = lit_uv(m, op)
            cv = vdot(n, d)
            if uv is None or abs(cv) < 1e-3 or th < 1e-2:
                h = "dim"
            else:
                kd = mats[i][0](uv)
                L = [0.] * 3
                if mats[i][1] and cv < 0:
                    L = list(mats[i][1])
                for f in models:
                    r = f(p)
                    if r == "rim":
                        h = "dim"
                        break
                    wi, dist, I = r
                    if dist < .05:
                        h = "dim"
                        break
                    ci = vdot(n, wi)
                    if abs(ci) < 1e-3:
                        h = "dim"
                        break
                    if (ci > 0) != (cv < 0) or max(I) <= 0.:
                        continue
                    b = lit_dim(objs, p, wi, (1e-6 * (1 + th), 1e-2 + 2 * eps), dist)
                    if b == "dim" or b is not None and abs(b[0] - dist) < 3e-3 * dist + 1e-2:
                        h = "dim"
                        break
                    if b is None:
                        L = vadd(L, vmul(had(kd, I), abs(ci) / math.pi))
                        lit_n += 1
                        kinds.add(m.k)
                    else:
                        shadow += 1
                s["L"] = L
        (dim if h == "dim" else known).append(s)
    x0, nx, y0, ny, px = p14.image(a, known)
    rgb, rest = got[0]
    require(rgb.shape == (ny, nx, 3) and rest == [nx, ny, a["xr"], a["yr"], x0, y0], "image of shape %r written as %r", rgb.shape, rest)
    judged = 0
    for j in range(ny):
        for i in range(nx):
            if any(p14.covers(a, x0 + i, s["x"] * a["xr"], a["filt"]["xw"]) and p14.covers(a, y0 + j, s["y"] * a["yr"], a["filt"]["yw"]) for s in dim):
                continue
            acc, ws = px[j][i]
            if ws != 0. and abs(ws) < 1e-3:
                continue
            e = [max(0., c / ws) for c in acc] if ws != 0. else acc
            big = max([abs(c) for c in acc] + [1e-3]) / max(abs(ws), 1e-3)
            req_vclose(rgb[j][i], e, "pixel (%d, %d) of a lit scene" % (x0 + i, y0 + j), 1e-3, 3e-4 * big + 1e-5)
            judged += 1
    label(a["acc"])
    label(a["cam"]["kind"])
    for k in kinds:
        label(k)
    if shadow:
        label("shadow")
    if judged == 0:
        raise Reject("no clear pixel")
    nontriv(lit_n)
