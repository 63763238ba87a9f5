G = "import numpy as np\nimport pytracer.geometry as geo\nfrom pytracer import Spectrum\nfrom pytracer.transform import *\nA = lambda v: np.array([v.x, v.y, v.z])\n"
BUGS = [
 dict(id="loop-wide-boundary-normal", property="P09",
  edits=[("pytracer/shape/loopsubdiv.py", "					theta = np.pi / (valence - 1)\n", "					theta = np.pi / valence\n")],
  needs="a boundary vertex with at least five neighbours on a surface that is not flat",
  what="its normal does not belong to the limit surface",
  demo=G+'''
from pytracer.shape import *
I = Transform()
n = 6   # a half fan around a boundary vertex, bent
P = [geo.Point(0., 0., 0.)] + [geo.Point(np.cos(np.pi * k / (n - 1)), np.sin(np.pi * k / (n - 1)), .02 * k * k) for k in range(n)]
F = [(0, k + 1, k + 2) for k in range(n - 1)]
m = LoopSubdiv(I, I, False, len(F), len(P), [i for f in F for i in f], P, 1).refine()
m = m[0] if isinstance(m, list) else m
vi, Q = list(m.vertexIndex), [A(p) for p in m.p]
tris = [vi[k:k + 3] for k in range(0, len(vi), 3)]
seen = 0
for v in range(len(Q)):
    nxt = {}
    for t in tris:
        if v in t:
            k = t.index(v)
            nxt[t[(k + 1) % 3]] = t[(k + 2) % 3]
    start = [a for a in nxt if a not in nxt.values()]
    if len(nxt) < 4 or len(start) != 1:
        continue   # not a wide boundary vertex
    ring = [start[0]]
    while ring[-1] in nxt:
        ring.append(nxt[ring[-1]])
    th = np.pi / (len(ring) - 1)
    T = np.sin(th) * (Q[ring[0]] + Q[ring[-1]])
    for k in range(1, len(ring) - 1):
        T = T + (2 * np.cos(th) - 2) * np.sin(k * th) * Q[ring[k]]
    for w in (T, Q[ring[-1]] - Q[ring[0]]):
        N = A(m.n[v])
        assert abs(N.dot(w)) < 1e-6 * np.linalg.norm(N) * np.linalg.norm(w), (v, ring, N, w)
    seen += 1
assert seen
'''),
 dict(id="illuminant-primary", property="P18",
  edits=[("pytracer/spectral/spectrum.py", "			self += (rgb[hi] - rgb[me]) * spec[hi]\n\n			self *= .86445", "			self += (rgb[hi] - rgb[me]) * spec[me]\n\n			self *= .86445")],
  needs="the spectrum of a coloured illuminant, sampled representation",
  what="the wrong primary is added",
  demo=G+'''
from pytracer.spectral.spectrum import SampledSpectrum, SpectrumType
SampledSpectrum.init()
for k in range(3):
    rgb = [.2, .2, .2]
    rgb[k] = .9
    rgb[(k + 1) % 3] = .5
    s = SampledSpectrum.from_rgb(rgb, SpectrumType.ILLUMINANT)
    got = np.array(s.to_rgb())
    assert list(np.argsort(got)) == list(np.argsort(rgb)) and np.abs(got - rgb).max() < .12, (rgb, got)
'''),
 dict(id="blinn-density-from-below", property="P19",
  edits=[("pytracer/reflection/bdf/torrance.py", "		wh = geo.normalize(wo + wi)\n		ct = abs_cos_theta(wh)\n\n		if wo.dot(wh) <= 0.:\n			return 0.\n\n		return ((self.e + 1.)", "		wh = geo.normalize(wo + wi)\n		ct = max(0., wh.z)\n\n		if wo.dot(wh) <= 0.:\n			return 0.\n\n		return ((self.e + 1.)")],
  needs="both directions below the surface",
  what="the density of Blinn microfacets is 0 seen from below",
  demo=G+'''
from pytracer.reflection import *
b = Blinn(5.)
wo, wi = geo.normalize(geo.Vector(.3, .1, 1.)), geo.normalize(geo.Vector(-.2, .2, 1.))
assert np.allclose(b.pdf(wo, wi), b.pdf(-wo, -wi)), (b.pdf(wo, wi), b.pdf(-wo, -wi))
'''),
 dict(id="measured-two-neighbours", property="P22",
  edits=[("pytracer/reflection/bdf/measured.py", "			if len(idx) > 2 or max_dist > 1.5:", "			if len(idx) > 1 or max_dist > 1.5:")],
  needs="scattered measurements of which exactly two lie near the query",
  what="two neighbours decide where three are asked for",
  demo=G+'''
import scipy.spatial
from pytracer.reflection import *
pts = [geo.Point(.1, .5, .5), geo.Point(.102, .5, .5), geo.Point(.25, .5, .5), geo.Point(.9, .1, .1)]
vals = [Spectrum(float(k + 1)) for k in range(4)]
t = scipy.spatial.KDTree(np.array([A(p) for p in pts]))
b = IrIsotropicBRDF(t, [IrIsotropicBRDFSample(p, v) for p, v in zip(pts, vals)])
# directions that map to about (.1, .5, .5)
best = None
from pytracer.reflection.utility import brdf_remap
rs = np.random.RandomState(1)
for _ in range(20000):
    wo, wi = [geo.normalize(geo.Vector(rs.randn(), rs.randn(), abs(rs.randn()))) for _ in range(2)]
    m = brdf_remap(wo, wi)
    d = (m - pts[0]).length()
    if best is None or d < best[0]:
        best = (d, wo, wi, m)
d, wo, wi, m = best
r = .01
while len(t.query_ball_point(A(m), r)) < 3 and r <= 1.5:
    r *= 1.414
idx = t.query_ball_point(A(m), r)
w = [np.exp((pts[i] - m).sq_length() * -100.) for i in idx]
e = sum(wi_ * (i + 1) for wi_, i in zip(w, idx)) / sum(w)
got = b.f(wo, wi).to_rgb()[0]
assert abs(got - e) < 1e-6, (got, e, idx)
'''),
 dict(id="uv-mapping-footprint", property="P23",
  edits=[("pytracer/texture/texturemap/__init__.py", "		dtdx = self.sv * dg.dvdx\n", "		dtdx = self.su * dg.dvdx\n")],
  needs="a mapping with different scales along u and v and a footprint",
  what="the footprint along t is scaled by the wrong factor",
  demo=G+'''
from pytracer.texture.texturemap import UVMapping2D
dg = geo.DifferentialGeometry(geo.Point(0., 0., 0.), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.), geo.Normal(0., 0., 0.), geo.Normal(0., 0., 0.), .25, .5, None)
dg.dudx, dg.dudy, dg.dvdx, dg.dvdy = .1, .2, .3, .4
assert np.allclose(UVMapping2D(2., 5., .1, .2)(dg), [.6, 2.7, .2, 1.5, .4, 2.]), UVMapping2D(2., 5., .1, .2)(dg)
'''),
 dict(id="trilinear-negative-footprint", property="P24",
  edits=[("pytracer/texture/utility.py", "2. * np.max(np.fabs(param[2:6]))", "2. * np.fabs(np.max(param[2:6]))")],
  needs="a trilinear lookup whose largest derivative is negative",
  what="the level is chosen from a smaller derivative",
  demo=G+'''
from pytracer.texture.utility import *
m = MIPMap(float, np.arange(64.).reshape(8, 8), True, 8., ImageWrap.REPEAT)
for d in ((.2, .01, 0., .02), (.01, .3, .1, 0.)):
    a = m.look_up([.3, .4] + list(d))
    b = m.look_up([.3, .4] + [-x for x in d])
    assert np.allclose(a, b), (d, a, b)
'''),
 dict(id="fbm-footprint-along-x", property="P25",
  edits=[("pytracer/texture/utility.py", "	# number of octaves\n	s2 = max(dpdx.sq_length(), dpdy.sq_length())\n	foct = max(0., min(max_octaves, 1. - .5 * np.log2(s2)))\n	octaves = util.ftoi(foct)\n\n	# sum of octaves of noise\n",
          "	# number of octaves\n	s2 = dpdx.sq_length() or dpdy.sq_length()\n	foct = max(0., min(max_octaves, 1. - .5 * np.log2(s2)))\n	octaves = util.ftoi(foct)\n\n	# sum of octaves of noise\n")],
  needs="a footprint that is longer along y than along x",
  what="octaves finer than the footprint are kept",
  demo=G+'''
from pytracer.texture.utility import *
p = geo.Point(.31, .47, .83)
a, b = geo.Vector(.01, 0., 0.), geo.Vector(0., .6, 0.)
assert np.allclose(FBm(p, a, b, .5, 8), FBm(p, b, a, .5, 8)), (FBm(p, a, b, .5, 8), FBm(p, b, a, .5, 8))
'''),
 dict(id="uber-opacity-bends", property="P26",
  edits=[("pytracer/material/material.py", "			bsdf.push_back(SpecularTransmission((1. - op), 1., 1.))", "			bsdf.push_back(SpecularTransmission((1. - op), 1., max(1., self.eta(dgs))))")],
  needs="an uber material that is partly opaque, with an index above one",
  what="what passes through is bent instead of going straight",
  demo=G+'''
from pytracer.material import *
from pytracer.texture.texture import ConstantTexture
from pytracer.reflection import *
C = lambda v: ConstantTexture(v)
S = lambda v: C(Spectrum(v))
m = UberMaterial(S(.2), S(0.), S(0.), S(0.), C(.1), S(.4), C(1.5), None)
dg = geo.DifferentialGeometry(geo.Point(0., 0., 0.), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.), geo.Normal(0., 0., 0.), geo.Normal(0., 0., 0.), .25, .5, None)
b = m.get_bsdf(dg, dg)
wo = geo.normalize(geo.Vector(.6, 0., .8))
pdf, wi, tp, f = b.sample_f(wo, BSDFSample(.3, .4, 0.), BDFType(BDFType.TRANSMISSION | BDFType.SPECULAR))
assert np.allclose(A(wi), A(-wo)), wi
'''),
 dict(id="shadow-to-far-point", property="P27",
  edits=[("pytracer/light/utility.py", "		self.ray = geo.Ray(p1, (p2 - p1) / dist, eps1, dist * (1. - eps2), time=time)", "		self.ray = geo.Ray(p1, (p2 - p1) / dist, eps1, dist * (1. - eps2))")],
  needs="an occluder in motion between a point and a light, at a time other than 0",
  what="shadow rays are cast at time 0",
  demo=G+'''
from pytracer.light.utility import *
v = VisibilityTester()
v.set_segment(geo.Point(0., 0., 0.), 1e-3, geo.Point(0., 0., 2.), 1e-3, .75)
assert v.ray.time == .75
'''),
 dict(id="exponential-below-floor", property="P28",
  edits=[("pytracer/volume/volume.py", "		h = (pnt - self.extent.pMin).dot(self.up)\n		return self.a * np.exp(-self.b * h)", "		h = (pnt - self.extent.pMin).dot(self.up)\n		return self.a * np.exp(-self.b * np.fabs(h))")],
  needs="an up direction with a negative component, so that heights are negative",
  what="the density falls off on both sides",
  demo=G+'''
from pytracer.volume.volume import ExponentialDensity
E = geo.BBox(geo.Point(-1., -1., -1.), geo.Point(1., 1., 1.))
S = Spectrum
v = ExponentialDensity(S(.1), S(.2), 0., S(0.), E, Transform(), 1.5, .7, geo.Vector(0., -1., 0.))
assert np.allclose(v(geo.Point(0., .5, 0.)), 1.5 * np.exp(.7 * 1.5)), v(geo.Point(0., .5, 0.))
'''),
 dict(id="mis-density-of-all-lobes", property="P29",
  edits=[("pytracer/integrator/utility.py", "				bsdf_pdf = bsdf.pdf(wo, wi, flags)\n", "				bsdf_pdf = bsdf.pdf(wo, wi)\n")],
  needs="a surface with a specular lobe besides a diffuse one, under an area light",
  what="light samples are weighted against a density that is not the one directions are sampled with",
  demo=G+'''
from pytracer.integrator.utility import *
from pytracer.reflection import *
from pytracer.reflection.fresnel import FresnelFullReflect
from pytracer.light.utility import LightSample
class L:
    def sample_l(self, p, e, s, t):
        class V:
            def unoccluded(self, sc): return True
            def transmittance(self, *a): return Spectrum(1.)
        return Spectrum(1.), geo.normalize(geo.Vector(.3, 0., 1.)), .4, V()
    def is_delta_light(self): return False
    def pdf(self, p, w): return .4
    def le(self, r): return Spectrum(1.)
class Sc:
    def intersect(self, r, i): return False
class R:
    def transmittance(self, *a): return Spectrum(1.)
dg = geo.DifferentialGeometry(geo.Point(0., 0., 0.), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.), geo.Normal(0., 0., 0.), geo.Normal(0., 0., 0.), .25, .5, None)
fl = BDFType(BDFType.ALL & ~BDFType.SPECULAR)
def est(spec):
    b = BSDF(dg, dg.nn)
    b.push_back(Lambertian(Spectrum(.5)))
    if spec:
        b.push_back(SpecularReflection(Spectrum(.3), FresnelFullReflect()))
    return estimate_direct(Sc(), R(), L(), dg.p, dg.nn, geo.Vector(0., 0., 1.), 1e-3, 0., b, LightSample(.2, .3, .4), BSDFSample(.2, .3, .4), fl).y()
assert np.allclose(est(False), est(True)), (est(False), est(True))
'''),
 dict(id="roulette-unweighted", property="P29",
  edits=[("pytracer/integrator/surface/path.py", "				path_throughput /= cont_prob\n", "				path_throughput /= max(cont_prob, .5)\n")],
  needs="a path longer than the sampled bounces whose throughput is below one half",
  what="surviving dim paths are not weighted up",
  demo=G+'''
import pytracer.integrator as integ
from pytracer.integrator import PathIntegrator
from pytracer.reflection import *
from pytracer.reflection.fresnel import FresnelFullReflect
from pytracer.sampler import Sample
from pytracer.aggregate import Intersection
K = .5
dg = geo.DifferentialGeometry(geo.Point(0., 0., 0.), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.), geo.Normal(0., 0., 0.), geo.Normal(0., 0., 0.), .25, .5, None)
class I:
    rEps = 1e-3
    def le(self, w): return Spectrum(1.)
    def get_bsdf(self, r):
        b = BSDF(dg, dg.nn)
        b.push_back(SpecularReflection(Spectrum(K), FresnelFullReflect()))
        return b
class Sc:
    lights = []
    n = 0
    def intersect(self, r, i):
        i.__class__ = I2
        return True
class I2(Intersection):
    rEps = 1e-3
    def le(self, w): return Spectrum(1.)
    get_bsdf = I.get_bsdf
class R:
    def transmittance(self, *a): return Spectrum(1.)
D = 6
p = PathIntegrator(D)
s = Sample(None, p, None, Sc())
s.oneD = [[.3] * n for n in s.n1D]
s.twoD = [[[.3, .4]] * n for n in s.n2D]
L = p.li(Sc(), R(), geo.RayDifferential(geo.Point(0., 0., 1.), geo.Vector(0., 0., -1.)), I2(), s, lambda: 0.).y()
d = p.SAMPLE_DEPTH
t, e = 1., 0.
for b in range(D + 1):
    e += t
    t *= K
    if b > d:
        t /= min(.5, t)
u = Spectrum(1.).y()
assert np.allclose(L, e * u, rtol=1e-4), (L, e * u)
'''),
 dict(id="world-marks-camera", property="P31",
  edits=[("pytracer/interface/api.py", "	trans_identity()\n	add_coordinate_system(\"world\")", "	add_coordinate_system(\"world\")\n	trans_identity()")],
  needs="a transformation pending when the world begins, and the world system asked for afterwards",
  what="'world' names the camera's system",
  demo='''
import numpy as np
import pytracer.interface as inter
from pytracer.interface import api
from pytracer.interface.option import Option
api.system_init(Option())
api.trans_translate([1., 2., 3.])
api.world_begin()
api.trans_translate([5., 0., 0.])
api.set_coordinate_system("world")
assert np.allclose(np.array([np.array(t.m) for t in inter.TRANSFORM_SET]), np.eye(4)), inter.TRANSFORM_SET
'''),
 dict(id="image-one-side-resampled", property="P32",
  edits=[("pytracer/utility/imageio.py", "(not util.is_pow_2(width)) or (not util.is_pow_2(height))", "(not util.is_pow_2(width)) and (not util.is_pow_2(height))")],
  needs="an image of which exactly one side is a power of two",
  what="it keeps its size",
  demo='''
import os, shutil, tempfile
import numpy as np, PIL.Image
from pytracer.utility.imageio import read_image
d = tempfile.mkdtemp()
try:
    for w, h, s in ((3, 4, (4, 4)), (4, 5, (8, 4)), (3, 5, (8, 4)), (2, 8, (8, 2))):
        f = os.path.join(d, "a.png")
        PIL.Image.fromarray(np.full([h, w, 3], 77, dtype="uint8"), mode="RGB").save(f, "PNG")
        assert read_image(f).shape[:2] == s, (w, h, read_image(f).shape)
finally:
    shutil.rmtree(d)
'''),
 dict(id="splat-beside-crop", property="P14",
  edits=[("pytracer/film/film.py", "		if x < self.xPixel_start or x - self.xPixel_start >= self.xPixel_cnt or \\\n				y < self.yPixel_start", "		if x < self.xPixel_start or x - self.xPixel_start >= self.xPixel_cnt or \\\n				y <= self.yPixel_start - self.yPixel_cnt")],
  needs="a cropped film and a splat just above its first row",
  what="the splat lands on the opposite edge",
  demo=G+'''
from pytracer.film import *
from pytracer.filter import *
from pytracer.sampler import CameraSample
f = ImageFilm(10, 10, BoxFilter(.5, .5), [.2, .6, .3, .7])
f.splat(CameraSample(3.5, 2.5, 0., 0., 0.), Spectrum.from_rgb([1., 1., 1.]))
assert all((p.splatXYZ == 0.).all() for r in f.pixels for p in r)
'''),
 dict(id="disk-hole-rim", property="P05",
  edits=[("pytracer/shape/disk.py", "						dt2 < self.inner_radius * self.inner_radius:\n			return False\n", "						dt2 < self.inner_radius:\n			return False\n")],
  needs="a disk with a hole whose radius is not one, and a shadow ray through or near the hole",
  what="shadow rays see a hole of another size",
  demo=G+'''
from pytracer.shape import *
I = Transform()
for ri in (.5, 2.):
    d = Disk(I, I, False, 0., 3., ri, 360.)
    for x in np.linspace(.05, 2.95, 40):
        r = geo.Ray(geo.Point(x, 0., 1.), geo.Vector(0., 0., -1.))
        assert bool(d.intersect(r)[0]) == bool(d.intersect_p(r)), (ri, x)
'''),
 dict(id="lookup-phi-wrap", property="P22",
  edits=[("pytracer/reflection/utility.py", "	if dphi > PI:\n		dphi = 2. * PI - dphi\n", "	if dphi > PI:\n		dphi -= PI\n")],
  needs="two directions whose azimuths differ by more than half a turn one way round",
  what="measurements are looked up at the wrong azimuth, and not symmetrically in the two directions",
  demo=G+'''
from pytracer.reflection.utility import brdf_remap
rs = np.random.RandomState(3)
for _ in range(200):
    a, b = [geo.normalize(geo.Vector(rs.randn(), rs.randn(), abs(rs.randn()))) for _ in range(2)]
    assert np.allclose(A(brdf_remap(a, b)), A(brdf_remap(b, a))), (a, b)
'''),
 dict(id="mitchell-array-knee", property="P13",
  edits=[("pytracer/filter/filter.py", "					(-18 + 12 * self. B + 6 * self.C) * xx * xx +\n", "					(-18 + 12 * self. B + 6 * self.B) * xx * xx +\n")],
  needs="arrays of positions, a Mitchell filter whose B and C differ",
  what="arrays get other weights than single positions",
  demo=G+'''
from pytracer.filter import *
f = MitchellFilter(.2, .4, 2., 2.)
x = np.array([0., .3, .6, .9, 1.2, 1.9])
assert np.allclose(f.mitchell(x.copy()), [f.mitchell(v) for v in x]), f.mitchell(x.copy())
'''),
]
