G = "import numpy as np\nimport pytracer.geometry as geo\nfrom pytracer import Spectrum\nfrom pytracer.transform import *\n"
BUGS = [
 dict(id="boxes-touching-in-z", property="P02",
  edits=[("pytracer/geometry/__init__.py", "(self.pMax.z >= other.pMin.z)", "(self.pMax.z > other.pMin.z)")],
  needs="two boxes that share exactly a face perpendicular to z, asked in one order; or flat boxes in one z plane",
  what="overlap is no longer symmetric and a flat box does not overlap itself",
  demo=G+'''
a = geo.BBox(geo.Point(0., 0., 0.), geo.Point(1., 1., 1.))
for k in range(3):
    o = np.zeros(3)
    o[k] = 1.
    b = geo.BBox(geo.Point(*o), geo.Point(*(o + 1.)))
    assert a.overlaps(b) and b.overlaps(a), k
'''),
 dict(id="projective-behind-eye", property="P03",
  edits=[("pytracer/transform/__init__.py", "			if util.ne_unity(res[3]):\n				p /= res[3]\n			return p\n\n		elif isinstance(arg, geo.Vector)", "			if res[3] > 0. and util.ne_unity(res[3]):\n				p /= res[3]\n			return p\n\n		elif isinstance(arg, geo.Vector)")],
  needs="a projective map and a point behind its eye (negative homogeneous weight)",
  what="the point is not divided by its weight, the inverse map does not lead back",
  demo=G+'''
t = Transform.perspective(60., 1., 10.)
p = geo.Point(.3, -.2, -4.)
assert np.allclose(t.inverse()(t(p)), p), t.inverse()(t(p))
'''),
 dict(id="decompose-stops-early", property="P04",
  edits=[("pytracer/transform/__init__.py", "		for _ in range(100):\n			if norm < EPS:", "		for _ in range(8):\n			if norm < EPS:")],
  needs="a key frame that scales strongly (by some ten times or more)",
  what="the polar decomposition stops before it converged: what is called the rotation still scales, and frames in between are off",
  demo=G+'''
for k in (1., 2., 40., 300.):
    m = Transform.scale(k, 1., 1. / k) if k > 2. else Transform.scale(k, k, k)
    T, R, S = AnimatedTransform.decompose((Transform.translate(geo.Vector(1., 2., 3.)) * m).m)
    assert np.allclose(S, m.m, rtol=1e-6, atol=1e-6), (k, S)
t = AnimatedTransform(Transform.scale(200., 200., 200.), 0., Transform.scale(200., 200., 200.) * Transform.translate(geo.Vector(1., 0., 0.)), 1.)
p = t(.5, geo.Point(1., 2., 3.))
assert np.allclose(np.array([p.x, p.y, p.z]), (300., 400., 600.), rtol=1e-6), p
'''),
 dict(id="sphere-shadow-second-root", property="P05",
  edits=[("pytracer/shape/sphere.py", "			if thit == t1 or t1 > ray.maxt:\n				return False\n", "			if thit == t1:\n				return False\n")],
  needs="a clipped sphere entered through its missing part by a ray ending inside",
  what="the shadow query reports the far wall although the ray ends before it",
  demo=G+'''
from pytracer.shape import Sphere
s = Sphere(Transform(), Transform(), False, 1., -1., .5, 360.)
r = geo.Ray(geo.Point(0., 0., 3.), geo.Vector(0., 0., -1.), 0., 3.)
assert s.intersect(r)[0] is False or not s.intersect(r)[0]
assert not s.intersect_p(r)
r.maxt = 5.
assert s.intersect_p(r)
'''),
 dict(id="shading-footprint-v", property="P06",
  edits=[("pytracer/shape/triangle.py", "		dgs.dvdy = dg.dvdy\n", "		dgs.dvdy = dg.dvdx\n")],
  needs="a mesh with per-vertex normals or tangents, seen with a footprint whose v changes differently along x and y",
  what="the shading geometry carries the change of v along x as that along y",
  demo=G+'''
from pytracer.shape import *
I = Transform()
m = create_triangle_mesh(I, I, False, {"indices": [0, 1, 2], "P": [geo.Point(0., 0., 0.), geo.Point(1., 0., 0.), geo.Point(0., 1., 0.)],
    "N": [geo.Normal(0., 0., 1.), geo.Normal(0., .1, 1.), geo.Normal(.1, 0., 1.)], "uv": [0., 0., 1., 0., 0., 1.]})
t = m.refine()[0]
h, _, _, dg = t.intersect(geo.Ray(geo.Point(.2, .2, 1.), geo.Vector(0., 0., -1.)))
dg.dudx, dg.dudy, dg.dvdx, dg.dvdy = .1, .2, .3, .4
dgs = t.get_shading_geometry(I, dg)
assert (dgs.dudx, dgs.dudy, dgs.dvdx, dgs.dvdy) == (.1, .2, .3, .4), (dgs.dudx, dgs.dudy, dgs.dvdx, dgs.dvdy)
'''),
 dict(id="sphere-bound-clipped-hemisphere", property="P07",
  edits=[("pytracer/shape/sphere.py", "		return geo.BBox(geo.Point(-self.radius, -self.radius, self.zmin),\n		            geo.Point(self.radius, self.radius, self.zmax))\n",
   "		# a cap reaches no further than its rim\n		r = self.radius\n		if self.zmin > 0.:\n			r *= np.sin(self.thetaMin)\n		elif self.zmax < 0.:\n			r *= np.sin(self.thetaMin)\n		return geo.BBox(geo.Point(-r, -r, self.zmin),\n		            geo.Point(r, r, self.zmax))\n")],
  needs="a sphere clipped to a band below its equator that is wider at its top than at its bottom",
  what="the bound is taken from the lower rim of the band, the wider part sticks out",
  demo=G+'''
from pytracer.shape import Sphere
for z0, z1 in ((-1., -.2), (-.9, -.1), (.2, 1.)):
    s = Sphere(Transform(), Transform(), False, 1., z0, z1, 360.)
    b = s.world_bound()
    for z in (z0, .5 * (z0 + z1), z1):
        x = np.sqrt(1. - z * z)
        assert b.pMax.x >= x - 1e-9, (z0, z1, b.pMax.x, x)
'''),
 dict(id="sphere-near-viewpoint", property="P08",
  edits=[("pytracer/shape/sphere.py", "		if self.partial or pnt.sq_dist(ctr) - self.radius * self.radius < EPS:\n			return self.sample(u1, u2)\n", "		if self.partial or pnt.dist(ctr) - self.radius < .05 * self.radius:\n			return self.sample(u1, u2)\n")],
  needs="a viewpoint outside a sphere, closer to its surface than a twentieth of its radius",
  what="points are drawn over the whole sphere although the density is that of the visible cone",
  demo=G+'''
from pytracer.shape import Sphere
s = Sphere(Transform(), Transform(), False, 1., -1., 1., 360.)
p = geo.Point(0., 0., 1.02)
for i in range(8):
    for j in range(8):
        q, n = s.sample_p(p, (i + .5) / 8., (j + .5) / 8.)
        assert n.dot(p - q) > -1e-3, (i, j, q)
'''),
 dict(id="loop-points-in-place", property="P34",
  edits=[("pytracer/shape/loopsubdiv.py", "			self.P = pt.copy()\n", "			self.P = pt\n")],
  needs="control points edited after the surface was made, or refined twice",
  what="the surface follows the caller's points",
  demo=G+'''
from pytracer.shape import *
I = Transform()
P = [geo.Point(0., 0., 0.), geo.Point(1., 0., 0.), geo.Point(0., 1., 0.), geo.Point(0., 0., 1.)]
idx = [0, 2, 1, 0, 1, 3, 1, 2, 3, 2, 0, 3]
def tris(s):
    out = []
    s.refine(out) if False else None
    r = s.refine()
    return [np.array(p) for m in r for p in m.p] if hasattr(r[0], "p") else [np.array(t[k]) for t in r for k in range(3)]
a = LoopSubdiv(I, I, False, 4, 4, idx, [p.copy() for p in P], 1)
want = tris(a)
Q = [p.copy() for p in P]
b = LoopSubdiv(I, I, False, 4, 4, idx, Q, 1)
Q[0] *= 0.
Q[1] += 5.
got = tris(b)
assert np.allclose(want, got)
'''),
 dict(id="simple-aggregate-epsilon", property="P10",
  edits=[("pytracer/aggregate/aggregate.py", "		dest.rEps = src.rEps\n", "		dest.rEps = max(dest.rEps, src.rEps)\n")],
  needs="a list of primitives in which a farther one precedes the nearer one along the ray",
  what="the reported epsilon is that of the farther hit",
  demo=G+'''
from pytracer.shape import Sphere
from pytracer.aggregate import *
ps = [GeometricPrimitive(Sphere(Transform.translate(geo.Vector(0., 0., z)), Transform.translate(geo.Vector(0., 0., -z)), False, 1., -1., 1., 360.), None, None) for z in (50., 5.)]
i, j = Intersection(), Intersection()
r = geo.Ray(geo.Point(0., 0., 0.), geo.Vector(0., 0., 1.))
ps[1].intersect(r, j)
r = geo.Ray(geo.Point(0., 0., 0.), geo.Vector(0., 0., 1.))
assert SimpleAggregate(ps, False).intersect(r, i)
assert i.rEps == j.rEps, (i.rEps, j.rEps)
'''),
 dict(id="bvh-flat-slab-zero", property="P10",
  edits=[("pytracer/aggregate/accelerator/bvh.py", "		return tmin < ray.maxt and tmax > ray.mint\n", "		return tmin < ray.maxt and tmax > ray.mint and tmax > tmin\n")],
  needs="a flat node: a primitive lying exactly in an axis plane",
  what="rays through a flat box miss it",
  demo=G+'''
from pytracer.shape import Disk
from pytracer.aggregate import *
from pytracer.aggregate.accelerator import BVH
I = Transform()
p = GeometricPrimitive(Disk(I, I, False, 0., 1., 0., 360.), None, None)
r = geo.Ray(geo.Point(.1, .2, -3.), geo.Vector(.1, 0., 1.))
assert BVH([p]).intersect_p(r)
'''),
 dict(id="instance-chain-order", property="P11",
  edits=[("pytracer/aggregate/primitive.py", "			isect.w2o = isect.w2o * w2p\n", "			isect.w2o = w2p * isect.w2o\n")],
  needs="an instance of an object that has a placement of its own which does not commute with the instance's",
  what="the recorded transformations of the hit do not lead to the object",
  demo=G+'''
from pytracer.shape import Sphere
from pytracer.aggregate import *
o2w = Transform.translate(geo.Vector(2., 0., 0.))
p = GeometricPrimitive(Sphere(o2w, o2w.inverse(), False, 1., -1., 1., 360.), None, None)
i2w = Transform.rotate_z(90.)
w2i = AnimatedTransform(i2w.inverse(), 0., i2w.inverse(), 1.)
t = TransformedPrimitive(p, w2i)
i = Intersection()
assert t.intersect(geo.Ray(geo.Point(0., 2., -5.), geo.Vector(0., 0., 1.)), i)
A = lambda p: np.array([p.x, p.y, p.z])
assert np.allclose(A(i.w2o(i.dg.p)), [0., 0., -1.]), i.w2o(i.dg.p)
assert np.allclose(A(i.o2w(i.w2o(i.dg.p))), A(i.dg.p))
'''),
 dict(id="lens-focus-along-ray", property="P12",
  edits=[("pytracer/camera/projective.py", "			# compute point on focal plane\n			ft = self.focal_dist / ray.d.z\n			Pfoc = ray(ft)\n\n			# update ray\n			ray.o = geo.Point(lens_u, lens_v, 0.)\n			ray.d = geo.normalize(Pfoc - ray.o)\n\n		if self.lens_rad > 0.:\n",
          "			# compute point on focal plane\n			ft = self.focal_dist\n			Pfoc = ray(ft)\n\n			# update ray\n			ray.o = geo.Point(lens_u, lens_v, 0.)\n			ray.d = geo.normalize(Pfoc - ray.o)\n\n		if self.lens_rad > 0.:\n")],
  needs="a perspective camera with a lens, asked for differentials away from the centre of the film",
  what="the main ray of the differential is focused on a sphere instead of the plane",
  demo=G+'''
from pytracer.camera import *
from pytracer.film import *
from pytracer.filter import *
from pytracer.sampler import CameraSample
I = Transform()
c = PerspectiveCamera(AnimatedTransform(I, 0., I, 1.), [-1., 1., -1., 1.], 0., 1., .5, 4., 90., ImageFilm(10, 10, BoxFilter(.5, .5), [0., 1., 0., 1.]))
s = CameraSample(1., 2., .8, .3, 0.)
a, b = c.generate_ray(s)[1], c.generate_ray_differential(s)[1]
assert np.allclose(a.o, b.o) and np.allclose(a.d, b.d), (a.d, b.d)
'''),
 dict(id="gaussian-square-window", property="P13",
  edits=[("pytracer/filter/filter.py", "		return self.gaussian(x, self.expX) * self.gaussian(y, self.expY)\n", "		return self.gaussian(x, self.expX) * self.gaussian(y, self.expX)\n")],
  needs="a Gaussian filter of unequal half widths",
  what="the filter does not reach zero at its height, or is cut too early",
  demo=G+'''
from pytracer.filter import *
g = GaussianFilter(1., 2., .5)
assert abs(g(0., 2.)) < 1e-12 and g(0., 1.9) > 0., (g(0., 2.), g(0., 1.9))
g = GaussianFilter(2., 1., .5)
assert abs(g(0., 1.)) < 1e-12 and g(0., .9) > 0.
'''),
 dict(id="film-negative-weights", property="P14",
  edits=[("pytracer/film/film.py", "				if not ws == 0.:\n", "				if ws > 0.:\n")],
  needs="a filter with negative lobes and a pixel reached by such samples only",
  what="the pixel keeps the unnormalised negative sum",
  demo=G+'''
import os, tempfile
from pytracer.film import *
from pytracer.filter import *
from pytracer.sampler import CameraSample
d = tempfile.mkdtemp()
f = ImageFilm(4, 1, MitchellFilter(1./3., 1./3., 2., 2.), [0., 1., 0., 1.], os.path.join(d, "a.png"))
f.add_sample(CameraSample(3.9, .5), Spectrum([1., 1., 1.]))
import pytracer.utility.imageio as iio
seen = []
old = iio.write_image
iio.write_image = lambda fn, rgb, *a: seen.append(rgb.copy())
import pytracer.film.film as ff
ff.iio.write_image = iio.write_image
f.write_image()
assert f.pixels[2][0].weight_sum != 0.
for x in range(4):
    if f.pixels[x][0].weight_sum != 0.:
        assert np.allclose(seen[0][0, x], 1.), (x, f.pixels[x][0].weight_sum, seen[0][0, x])
'''),
 dict(id="duplicates-share-slots", property="P15",
  edits=[("pytracer/sampler/sample.py", "			smp.oneD = [None] * len(self.n1D)\n			smp.twoD = [None] * len(self.n2D)\n", "			smp.oneD = [None] * len(self.n1D)\n			smp.twoD = self.twoD\n")],
  needs="two duplicates of one sample and a two-dimensional request",
  what="all samples of a pixel carry the arrays of the last one",
  demo=G+'''
from pytracer.sampler import *
s = Sample()
s.add_1d(2); s.add_2d(3)
s.oneD = [None]; s.twoD = [None]
a, b = s.duplicate(2)
a.oneD[0] = 1; a.twoD[0] = 2
assert b.oneD[0] is None and b.twoD[0] is None and s.twoD[0] is None
'''),
 dict(id="table-shared-when-array", property="P16",
  edits=[("pytracer/montecarlo/distribution.py", "		self.func = arr.copy()\n", "		self.func = np.asarray(arr)\n")],
  needs="an array that is changed after the distribution was built from it",
  what="the density follows the caller's array, the cumulative table does not",
  demo=G+'''
from pytracer.montecarlo import *
a = np.array([1., 2., 3.])
d = Distribution1D(a)
want = d.sample_cont(.9)
a[2] = 30.
assert d.sample_cont(.9) == want
'''),
 dict(id="hg-nearly-isotropic", property="P17",
  edits=[("pytracer/montecarlo/utility.py", "	if np.fabs(g) < EPS:\n", "	if np.fabs(g) < 2e-2:\n")],
  needs="a very small but nonzero asymmetry",
  what="directions are drawn isotropically although the density is that of the asymmetric lobe",
  demo=G+'''
from pytracer.montecarlo import *
w = geo.Vector(0., 0., 1.)
for g in (.015, -.015, .03):
    sqr = (1. - g * g) / (1. - g + 2. * g * .25)
    ct = (1. + g * g - sqr * sqr) / (2. * g)
    got = sample_hg(w, g, .25, .3).dot(w)
    assert abs(abs(got) - abs(ct)) < 1e-6, (g, got, ct)
'''),
 dict(id="lerp-from-start", property="P33",
  edits=[("pytracer/utility/utility.py", "	return (1. - t) * v1 + t * v2\n", "	return v1 + t * (v2 - v1)\n")],
  needs="ends of very different magnitude",
  what="interpolation does not reach its end",
  demo=G+'''
from pytracer import util
assert util.lerp(1., 1e17, 1.) == 1.
assert util.lerp(1., .1, .7) == .7
assert util.lerp(1., -1e-20, 1.) == 1. and util.lerp(1., 3., 1e-20) == 1e-20
'''),
 dict(id="fresnel-side-of-transmission", property="P20",
  edits=[("pytracer/reflection/bdf/bdf.py", "		F = self.fresnel(cos_theta(wo))\n", "		F = self.fresnel(abs_cos_theta(wo))\n")],
  needs="light leaving the medium",
  what="what is transmitted from the inside is computed as if entering",
  demo=G+'''
from pytracer.reflection import *
t = SpecularTransmission(Spectrum(1.), 1., 1.5)
r = FresnelDielectric(1., 1.5)
wo = geo.normalize(geo.Vector(.6, 0., -.8))
if True:
    pdf, wi, f = t.sample_f(geo.normalize(geo.Vector(.5, 0., -.8)), .5, .5)
    F = r(geo.normalize(geo.Vector(.5, 0., -.8)).z)
    assert np.allclose(f * abs(wi.z), 1.5 * 1.5 * (1. - F)), (f * abs(wi.z), F)
'''),
 dict(id="sampled-side-by-frame", property="P21",
  edits=[("pytracer/reflection/bsdf.py", "			if wi_w.dot(self.ng) * wo_w.dot(self.ng) > 0.:\n				# ignore BTDF\n				flags", "			if wi.z * wo.z > 0.:\n				# ignore BTDF\n				flags")],
  needs="a shading normal that differs from the geometric one and a sampled direction between the two horizons",
  what="the sampled value lets light through that the query blocks",
  demo=G+'''
from pytracer.reflection import *
from pytracer.reflection.utility import *
dg = geo.DifferentialGeometry(geo.Point(0., 0., 0.), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.), geo.Normal(0., 0., 0.), geo.Normal(0., 0., 0.), 0., 0., None)
b = BSDF(dg, geo.normalize(geo.Normal(.8, 0., .6)))
b.push_back(Lambertian(Spectrum(.5)))
wo = geo.normalize(geo.Vector(.2, .1, .9))
n = 0
for i in range(10):
    for j in range(10):
        s = BSDFSample((i + .5) / 10., (j + .5) / 10., .5)
        pdf, wi, t, f = b.sample_f(wo, s, BDFType(BDFType.ALL))
        if wi is None:
            continue
        n += 1
        assert np.allclose(f, b.f(wo, wi)), (wi, f, b.f(wo, wi))
assert n
'''),
]
