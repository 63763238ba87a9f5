G = "import numpy as np\nimport pytracer.geometry as geo\nfrom pytracer import Spectrum\nfrom pytracer.transform import *\n"
BUGS = [
 dict(id="lens-differential-focus", property="P12",
  edits=[("pytracer/camera/projective.py", "			ft = self.focal_dist / dy.z\n", "			ft = self.focal_dist / dx.z\n")],
  needs="a perspective camera with a lens and a sample off the image axes",
  what="the y differential aims at a point off the focal plane: ray through the next pixel row of the same lens point goes elsewhere",
  demo=G+'''
from pytracer.camera import PerspectiveCamera
from pytracer.sampler import CameraSample
class F(object):
    xResolution = yResolution = 64
I = Transform()
cam = PerspectiveCamera(AnimatedTransform(I, 0., I, 1.), [-1., 1., -1., 1.], 0., 1., .5, 6., 80., F())
def smp(x, y):
    s = CameraSample()
    s.imageX, s.imageY, s.lens_u, s.lens_v, s.time = x, y, .8, .3, 0.
    return s
_, rd = cam.generate_ray_differential(smp(60., 3.))
_, nx = cam.generate_ray(smp(60., 4.))
assert np.allclose(np.array(rd.ryDirection), np.array(nx.d), atol=1e-7), (rd.ryDirection, nx.d)
'''),
 dict(id="subsampler-strata-swapped", property="P15",
  edits=[("pytracer/sampler/sampler/stratified.py", "		                         self.xSamples, self.ySamples, self.jitter, self.s_open, self.s_close)", "		                         self.ySamples, self.xSamples, self.jitter, self.s_open, self.s_close)")],
  needs="a sampler with different numbers of strata along x and y that is split among several tasks",
  what="samplers of the tiles stratify each pixel in the transposed pattern; some strata get two samples, others none",
  demo=G+'''
from pytracer.sampler import StratifiedSampler, Sample
s = StratifiedSampler(0, 4, 0, 4, 4, 1, False, 0., 1.)
sub = s.get_subsampler(0, 2)
smps = [Sample.__new__(Sample) for _ in range(4)]
for x in smps:
    x.n1D, x.n2D, x.oneD, x.twoD = [], [], [], []
assert sub.generate(smps)
xs = sorted(x.imageX % 1. for x in smps)
assert [int(4 * x) for x in xs] == [0, 1, 2, 3], xs
'''),
 dict(id="distribution2d-wide-pdf", property="P16",
  edits=[("pytracer/montecarlo/distribution.py", "		ui = np.clip(util.ftoi(u * self.p_cond_v[0].cnt), 0, self.p_cond_v[0].cnt - 1).astype(INT)",
          "		ui = np.clip(util.ftoi(u * self.p_cond_v[0].cnt), 0, self.p_marg_v.cnt - 1).astype(INT)")],
  needs="a table wider than tall and a query in the columns beyond its height",
  what="density queries there answer with an earlier column, samples and queries disagree",
  demo=G+'''
from pytracer.montecarlo import Distribution2D
d = Distribution2D(np.array([[1., 2., 3., 10.], [2., 2., 5., 1.]]))
for u in (.1, .35, .6, .9, .97):
    for v in (.2, .9):
        (x, y), p = d.sample_cont(u, v)
        assert abs(d.pdf(x, y) - p) < 1e-9, (x, y, p, d.pdf(x, y))
'''),
 dict(id="turbulence-last-octave", property="P25",
  edits=[("pytracer/texture/utility.py", "	s += o * smooth_step(.3, .7, par) * np.fabs(noise(l * p))", "	s += o * smooth_step(.3, .7, par) * noise(l * p)")],
  needs="derivatives that make the number of octaves fractional by more than .3 and negative noise in the last one",
  what="turbulence() adds the signed value of the partial octave",
  demo=G+'''
from pytracer.texture.utility import turbulence
d = geo.Vector(.6, 0., 0.)
for k in range(60):
    p = geo.Point(.37 * k + .1, .23 * k, -.41 * k)
    t = turbulence(p, d, d, .5, 8)
    # one more, stronger octave never lowers a sum of magnitudes
    for w in (.5, 1., 2., 4.):
        assert turbulence(p, d, d, w, 8) >= t - 1e-9 or w < .5, (k, w)
'''),
 dict(id="checkerboard-one-wide", property="P23",
  edits=[("pytracer/texture/texture/__init__.py", "			if ds > 1. or dt > 1.:", "			if ds > 1. and dt > 1.:")],
  needs="a closed-form checkerboard seen with a footprint wider than a check in one direction only",
  what="the filter no longer fades to the mean",
  demo=G+'''
from pytracer.texture.texture import *
class M(object):
    def __init__(self, *a): self.a = a
    def __call__(self, dg): return self.a
for s in (.1, .4, .7, 1.2):
    t = Chekcerboard2DTexture(M(s, .5, 1.3, 0., 0., .1), ConstantTexture(0.), ConstantTexture(1.))
    assert abs(t(None) - .5) < 1e-9, (s, t(None))
'''),
 dict(id="mipmap-clamp-rows", property="P24",
  edits=[("pytracer/texture/utility.py", "							orig_t = INT(np.clip(orig_t, 0, tres - 1))", "							orig_t = INT(np.clip(orig_t, 0, sres - 1))")],
  needs="a clamped image whose height is no power of two and larger than its width",
  what="rows below the width of the image are resampled from the wrong row",
  demo=G+'''
from pytracer.texture import MIPMap
from pytracer.texture.utility import ImageWrap
img = np.empty([5, 2], dtype=float)
for t in range(5):
    img[t, :] = t
m = MIPMap(float, img, wrap=ImageWrap.CLAMP)
v = [float(m.texel(0, 0, t)) for t in range(m.height)]
assert all(b > a - .35 for a, b in zip(v, v[1:])) and v[-1] > 3.2, v
'''),
 dict(id="path-two-mirrors", property="P29",
  edits=[("pytracer/integrator/surface/path.py", "			if bounce_cnt == 0 or specular_bounce:", "			if bounce_cnt == 0 or (specular_bounce and bounce_cnt < self.SAMPLE_DEPTH):")],
  needs="an emitter seen through a chain of at least three specular bounces",
  what="path tracing drops light found after the third mirror",
  demo=G+'''
from pytracer.integrator.surface import PathIntegrator
import pytracer.integrator.utility as iu
class Bs(object):
    class dgs(object):
        p, nn = geo.Point(0., 0., 0.), geo.Normal(0., 0., 1.)
    def sample_f(self, wo, s, flags):
        from pytracer.reflection import BDFType
        return [1., geo.Vector(0., 0., 1.), BDFType(BDFType.REFLECTION | BDFType.SPECULAR), Spectrum(1.)]
import pytracer.aggregate
n = [0]
class It(object):
    rEps = 0.
    def le(self, w): return Spectrum(7. if n[0] == 4 else 0.)
    def get_bsdf(self, r): return Bs()
class Sc(object):
    lights = []
    def intersect(self, r, i):
        n[0] += 1
        return n[0] <= 4
class Rn(object):
    def transmittance(self, *a): return Spectrum(1.)
pytracer.aggregate.Intersection = It
class Smp(object):
    oneD = [np.zeros(1)] * 50
    twoD = [np.zeros([1, 2])] * 50
    def add_1d(self, n): return 0
    def add_2d(self, n): return 0
P = PathIntegrator(8)
P.request_samples(None, Smp(), None)
L = P.li(Sc(), Rn(), geo.RayDifferential(geo.Point(0., 0., 1.), geo.Vector(0., 0., -1.)), It(), Smp(), lambda: 0.)
# russian roulette sets in after the fourth bounce, with rng() = 0 it goes on
assert L.y() > 1., L
'''),
 dict(id="specular-differential-v", property="P29",
  edits=[("pytracer/integrator/utility.py", "			dndx = bsdf.dgs.dndu * bsdf.dgs.dudx + \\\n				   bsdf.dgs.dndv * bsdf.dgs.dvdx\n			dndy = bsdf.dgs.dndu * bsdf.dgs.dudy + \\\n				   bsdf.dgs.dndv * bsdf.dgs.dvdy",
          "			dndx = bsdf.dgs.dndu * bsdf.dgs.dudx + \\\n				   bsdf.dgs.dndv * bsdf.dgs.dvdx\n			dndy = bsdf.dgs.dndu * bsdf.dgs.dudy + \\\n				   bsdf.dgs.dndv * bsdf.dgs.dvdx")],
  needs="a mirror reflection off a curved surface with a ray that carries differentials",
  what="the y differential of the reflected ray uses the wrong change of the normal",
  demo=G+'''
from pytracer.integrator.utility import specular_reflect
got = []
class Rn(object):
    def li(self, scene, rd, *a):
        got.append(rd)
        return [Spectrum(1.), Spectrum(1.)]
class D(object):
    p, nn = geo.Point(0., 0., 0.), geo.Normal(0., 0., 1.)
    dndu, dndv = geo.Normal(1., 0., 0.), geo.Normal(0., 1., 0.)
    dudx, dudy, dvdx, dvdy = .01, 0., 0., .02
    dpdx, dpdy = geo.Vector(.01, 0., 0.), geo.Vector(0., .02, 0.)
class Bs(object):
    dgs = D
    def sample_f(self, wo, s, flags): return [1., geo.Vector(-wo.x, -wo.y, wo.z), None, Spectrum(1.)]
class It(object):
    rEps, dg = 0., D
w = geo.Vector(0., 0., -1.)
rd = geo.RayDifferential(geo.Point(0., 0., 1.), w)
rd.has_differentials = True
rd.rxOrigin = rd.ryOrigin = rd.o
rd.rxDirection = rd.ryDirection = w
specular_reflect(rd, Bs(), It(), Rn(), None, None, lambda: .5)
# unit sphere curvature: the normal turns by dndv dvdy, the reflection by twice that
assert abs(got[0].ryDirection.y - 2 * .02) < 1e-9 and abs(got[0].rxDirection.x - 2 * .01) < 1e-9, got[0].ryDirection
'''),
 dict(id="shapeset-density-weights", property="P27",
  edits=[("pytracer/light/utility.py", "			pdf += self.areas[i] * sh.pdf_p(p, wi)", "			pdf += self.areas[0] * sh.pdf_p(p, wi)")],
  needs="an area light made of several shapes of different areas",
  what="densities of directions weigh all parts with the area of the first",
  demo=G+'''
from pytracer.shape import create_triangle_mesh
from pytracer.light.utility import ShapeSet
I = Transform()
m = create_triangle_mesh(I, I, False, {"indices": [0, 1, 2, 3, 4, 5], "P": [geo.Point(*map(float, p)) for p in
    [(0, 0, 0), (1, 0, 0), (0, 1, 0), (5, 0, 0), (9, 0, 0), (5, 4, 0)]]})
s = ShapeSet(m)
p = geo.Point(.2, .2, 3.)
w = geo.Vector(0., 0., -1.)
# both parts are flat: density = r^2 / (cos * total area)
assert abs(s.pdf(p, w) - 9. / (.5 + 8.)) < 1e-6, s.pdf(p, w)
'''),
 dict(id="volumes-last-exit", property="P28",
  edits=[("pytracer/volume/volume.py", "				t1 = max(t1, r1)", "				t1 = r1")],
  needs="two regions, the one listed first reaching further along the ray",
  what="the extent of a ray in a set of volumes ends at the end of the last listed one",
  demo=G+'''
from pytracer.volume.volume import *
z = Spectrum(0.)
def reg(a, b):
    return HomogeneousVolumeDensity(Spectrum(1.), z, 0., z, geo.BBox(geo.Point(a, -1., -1.), geo.Point(b, 1., 1.)), Transform())
v = AggregateVolume([reg(0., 9.), reg(1., 2.)])
h, t0, t1 = v.intersect_p(geo.Ray(geo.Point(-5., 0., 0.), geo.Vector(1., 0., 0.)))
assert h and abs(t0 - 5.) < 1e-6 and abs(t1 - 14.) < 1e-6, (t0, t1)
'''),
 dict(id="anisotropic-quadrant", property="P19",
  edits=[("pytracer/reflection/bdf/torrance.py", "			phi = PI - phi\n", "			phi = PI + phi\n")],
  needs="anisotropic glossy sampling with the first random number between .25 and .5",
  what="half vectors of the second quadrant are never sampled, those of the third twice as often as reported",
  demo=G+'''
from pytracer.reflection.bdf.torrance import Anisotropic
a = Anisotropic(3., 12.)
wo = geo.Vector(0., 0., 1.)
n = {}
for i in range(40):
    for j in range(10):
        pdf, w = a.sample_f(wo, (i + .5) / 40, (j + .5) / 10)
        k = (w.x > 0, w.y > 0)
        n[k] = n.get(k, 0) + 1
assert len(n) == 4 and max(n.values()) == min(n.values()), n
'''),
 dict(id="masking-outgoing-only", property="P19",
  edits=[("pytracer/reflection/bdf/torrance.py", "		                   (2. * abs_cos_theta(wh) * abs_cos_theta(wi) / wo.abs_dot(wh))))", "		                   (2. * abs_cos_theta(wh) * abs_cos_theta(wo) / wo.abs_dot(wh))))")],
  needs="a microfacet surface lit at a lower angle than it is viewed from, both oblique",
  what="shadowing of the incident direction is ignored, the model is no longer reciprocal",
  demo=G+'''
from pytracer.reflection import *
from pytracer.reflection.fresnel import FresnelFullReflect
m = Microfacet(Spectrum(1.), FresnelFullReflect(), Blinn(2.))
a, b = geo.normalize(geo.Vector(.3, 0., 1.)), geo.normalize(geo.Vector(-5., 0., .5))
assert abs(m.f(a, b).y() - m.f(b, a).y()) < 1e-9, (m.f(a, b), m.f(b, a))
'''),
 dict(id="bsdf-density-ignores-flags", property="P21",
  edits=[("pytracer/reflection/bsdf.py", "				if func != bdf and func.match_flag(flags):\n					pdf += func.pdf(wo, wi)", "				if func != bdf:\n					pdf += func.pdf(wo, wi)")],
  needs="at least three components, two of them matching the flags and a third one not",
  what="the density of a sample includes components that could not have produced it",
  demo=G+'''
from pytracer.reflection import *
z = geo.Normal(0., 0., 0.)
dg = geo.DifferentialGeometry(geo.Point(0., 0., 0.), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.), z, z, 0., 0., None)
dg.nn = geo.Normal(0., 0., 1.)
from pytracer.reflection.fresnel import FresnelFullReflect
b = BSDF(dg, dg.nn)
b.push_back(Lambertian(Spectrum(.3)))
b.push_back(Lambertian(Spectrum(.2)))
b.push_back(Microfacet(Spectrum(.4), FresnelFullReflect(), Blinn(5.)))
wo = geo.normalize(geo.Vector(.2, .3, 1.))
fl = BDFType(BDFType.REFLECTION | BDFType.DIFFUSE)
pdf, wi, t, f = b.sample_f(wo, BSDFSample(.3, .4, .2), fl)
assert abs(pdf - b.pdf(wo, wi, fl)) < 1e-9, (pdf, b.pdf(wo, wi, fl))
'''),
 dict(id="bvh-first-in-leaf", property="P10",
  edits=[("pytracer/aggregate/accelerator/bvh.py", "						if self.primitives[node.offset + i].intersect(ray, isect):\n							hit = True\n", "						if self.primitives[node.offset + i].intersect(ray, isect):\n							hit = True\n							break\n")],
  needs="several primitives in one leaf (equal centroids) with the nearest not the first",
  what="the BVH stops at the first primitive hit in a leaf",
  demo=G+'''
from pytracer.shape import Sphere
from pytracer.aggregate import *
I = Transform()
prims = [GeometricPrimitive(Sphere(I, I, False, r, -r, r, 360.), None) for r in (1., 2.)]
b = BVH(prims)
r = geo.Ray(geo.Point(-9., .1, .2), geo.Vector(1., 0., 0.))
assert b.intersect(r, Intersection()) and r.maxt < 7.1, r.maxt
'''),
 dict(id="film-crop-column", property="P14",
  edits=[("pytracer/film/film.py", "		self.xPixel_cnt = np.maximum(1, INT(np.ceil(xr * crop[1])) - self.xPixel_start)", "		self.xPixel_cnt = np.maximum(1, INT(np.ceil(xr * (crop[1] - crop[0]))))")],
  needs="a crop window whose left border falls between pixels",
  what="neighbouring crop windows share a column of pixels",
  demo=G+'''
from pytracer.film import ImageFilm
from pytracer.filter import BoxFilter
for c in (.3, .55, .77):
    a = ImageFilm(9, 4, BoxFilter(.5, .5), [0., c, 0., 1.], "x.png").get_pixel_extent()
    b = ImageFilm(9, 4, BoxFilter(.5, .5), [c, 1., 0., 1.], "x.png").get_pixel_extent()
    assert a[1] == b[0] and b[1] == 9, (c, a, b)
'''),
 dict(id="projection-tall-image", property="P27",
  edits=[("pytracer/light/light.py", "			self.scr_y0 = -1. / aspect\n			self.scr_y1 = 1. / aspect\n", "			self.scr_y0 = -1.\n			self.scr_y1 = 1.\n")],
  needs="a projection light with an image taller than wide",
  what="the image is squeezed into a square",
  demo=G+'''
import os, tempfile, shutil, PIL.Image
from pytracer.light import ProjectionLight
from pytracer.light.utility import LightSample
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "i.png")
    PIL.Image.fromarray(np.full([4, 1, 3], 200, dtype=np.uint8), mode="RGB").save(f, "PNG")
    l = ProjectionLight(Transform(), Spectrum(1.), f, 60.)
    # 60 degrees across the width; the height is four times that
    t = np.tan(np.deg2rad(30.))
    assert l.sample_l(geo.Point(0., 3. * t, 1.), 0., LightSample(), 0.)[0].y() > 0.
    assert l.sample_l(geo.Point(0., 5. * t, 1.), 0., LightSample(), 0.)[0].y() == 0.
finally:
    shutil.rmtree(d)
'''),
]
