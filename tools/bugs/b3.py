G = "import numpy as np\nimport pytracer.geometry as geo\nfrom pytracer import Spectrum\nfrom pytracer.transform import *\n"
BUGS = [
 dict(id="frame-down-y", property="P01",
  edits=[("pytracer/geometry/utility.py", "	if np.fabs(v1.x) > np.fabs(v1.y):\n", "	if np.fabs(v1.x) > v1.y:\n")],
  needs="a direction (almost) straight down the negative y axis",
  what="the frame around a direction along -y is not a frame",
  demo=G+'''
for y in (1., -1.):
    for e in (0., 1e-300):
        f = geo.coordinate_system(geo.Vector(e, y, 0.))
        M = np.array([[c for c in v] for v in f])
        assert np.allclose(M.dot(M.T), np.eye(3)), M
'''),
 dict(id="slab-plane-nan", property="P02",
  edits=[("pytracer/geometry/__init__.py", "			t0, t1 = np.fmax(t0, t_near[i]), np.fmin(t1, t_far[i])\n", "			t0, t1 = max(t_near[i], t0), min(t_far[i], t1)\n")],
  needs="a ray lying exactly in the plane of a face of the box, with a limited range",
  what="the undefined slab interval (0/0) wipes out the range collected so far",
  demo=G+'''
b = geo.BBox(geo.Point(0., 0., 0.), geo.Point(1., 1., 1.))
r = geo.Ray(geo.Point(.5, -2., 1.), geo.Vector(0., 1., 0.), 0., 1.)
assert not b.intersect_p(r)[0]      # the box starts at t = 2
r = geo.Ray(geo.Point(.5, .5, 1.), geo.Vector(0., 1., 0.), .2, .3)
hit, t0, t1 = b.intersect_p(r)
assert hit and t0 == .2 and t1 == .3, (hit, t0, t1)
'''),
 dict(id="normals-by-unit-rows", property="P03",
  edits=[("pytracer/transform/__init__.py", "			res = self.m_inv[0:3, 0:3].T.dot(arg)\n", "			# no need for the inverse when nothing is scaled\n			res = self.m_inv[0:3, 0:3].T.dot(arg) if self.has_scale() else self.m[0:3, 0:3].dot(arg)\n")],
  needs="a matrix whose rows have unit length without being perpendicular (a shear)",
  what="normals are transformed like vectors and leave the surface's perpendicular",
  demo=G+'''
m = np.eye(4)
m[1, 0], m[1, 1] = .6, .8
t = Transform(m)
v, n = geo.Vector(1., -1., 0.), geo.Normal(1., 1., 0.)
assert abs(np.dot(t(v), t(n))) < 1e-12, np.dot(t(v), t(n))
'''),
 dict(id="screen-axes-facing-down", property="P06",
  edits=[("pytracer/geometry/diffgeom.py", "			elif np.fabs(self.nn.y) > np.fabs(self.nn.z):\n", "			elif self.nn.y > np.fabs(self.nn.z):\n")],
  needs="a surface whose normal points along -y",
  what="the parametric screen-space derivatives are solved in two coordinates in which the surface is seen edge-on",
  demo=G+'''
from pytracer.shape import Disk
I = Transform()
T = Transform.rotate_x(90.)
d = Disk(T, T.inverse(), False, 0., 2., 0., 360.)
for s in (-1., 1.):
    r = geo.RayDifferential(geo.Point(.3, -3. * s, .4), geo.Vector(0., s, 0.))
    r.has_differentials = True
    r.rxOrigin, r.rxDirection = geo.Point(.31, -3. * s, .4), geo.Vector(0., s, 0.)
    r.ryOrigin, r.ryDirection = geo.Point(.3, -3. * s, .41), geo.Vector(0., s, 0.)
    hit, t, e, dg = d.intersect(r)
    for flip in (1., -1.):
        dg.nn = dg.nn * flip
        dg.compute_differential(r)
        assert np.allclose(dg.dpdu * dg.dudx + dg.dpdv * dg.dvdx, dg.dpdx, atol=1e-6), (s, dg.nn, dg.dudx)
        assert np.allclose(dg.dpdu * dg.dudy + dg.dpdv * dg.dvdy, dg.dpdy, atol=1e-6), (s, dg.nn, dg.dudy)
        assert abs(dg.dudx) + abs(dg.dvdx) > 1e-4
'''),
 dict(id="degenerate-uv-kept", property="P07",
  edits=[("pytracer/shape/triangle.py", "uvs[2 * vi[ i +2] + 1] == uvs[2 * vi[i] + 1]):", "uvs[2 * vi[ i +2] + 1] == uvs[2 * vi[ i +1] + 1]):")],
  needs="a mesh asking to discard degenerate uvs whose first and third corner share theirs",
  what="degenerate texture coordinates are kept although discarding was asked for",
  demo=G+'''
from pytracer.shape import create_triangle_mesh
I = Transform()
P = [geo.Point(0., 0., 0.), geo.Point(1., 0., 0.), geo.Point(0., 1., 0.)]
N = [geo.Normal(0., 0., 1.)] * 3
for uv in ([.2, .3, .2, .3, .5, .6], [.5, .6, .2, .3, .2, .3], [.2, .3, .5, .6, .2, .3]):
    m = create_triangle_mesh(I, I, False, {'indices': [0, 1, 2], 'P': P, 'N': N, 'uv': uv, 'discard': True})
    assert m.uvs is None, uv
m = create_triangle_mesh(I, I, False, {'indices': [0, 1, 2], 'P': P, 'N': N, 'uv': [0., 0., 1., 0., 0., 1.], 'discard': True})
assert m.uvs is not None
'''),
 dict(id="cylinder-sample-normal", property="P08",
  edits=[("pytracer/shape/cylinder.py", "		Ns = geo.normalize(self.o2w(geo.Normal(p.x, p.y, 0.)))\n", "		Ns = geo.normalize(geo.Normal.from_arr(self.o2w(geo.Vector(p.x, p.y, 0.))))\n")],
  needs="a cylinder under a non-uniform scale",
  what="sampled points come with a normal that is not perpendicular to the surface",
  demo=G+'''
from pytracer.shape import Cylinder
T = Transform.scale(3., 1., 1.)
c = Cylinder(T, T.inverse(), False, 1., 0., 1., 360.)
p, n = c.sample(.5, .125)
tan = geo.Vector(-3. * np.sin(np.pi / 4), np.cos(np.pi / 4), 0.)
assert abs(np.dot(n, tan)) < 1e-9, np.dot(n, tan)
'''),
 dict(id="lanczos-array-tail", property="P13",
  edits=[("pytracer/filter/filter.py", "				elif xx > 1.:\n					x[i] = 0.\n", "				elif xx > 2.:\n					x[i] = 0.\n")],
  needs="an array of offsets reaching beyond the filter's extent",
  what="the array form of the windowed sinc keeps ringing outside its window, the scalar form does not",
  demo=G+'''
from pytracer.filter import LanczosSincFilter
f = LanczosSincFilter(2., 2., 3.)
xs = [0., .5, 1.9, 2.4, 3.1]
a = f(np.array(xs), np.array([.3] * 5))
for x, v in zip(xs, a):
    assert abs(f(x, .3) - v) < 1e-12, (x, v)
'''),
 dict(id="hg-backward-isotropic", property="P17",
  edits=[("pytracer/montecarlo/utility.py", "	if np.fabs(g) < EPS:\n", "	if g < EPS:\n")],
  needs="a backward scattering phase function (negative asymmetry)",
  what="directions are drawn isotropically while the density is the backward lobe's",
  demo=G+'''
from pytracer.montecarlo import sample_hg
w = geo.Vector(0., 0., 1.)
m = lambda g: np.mean([sample_hg(w, g, (i + .5) / 400, .3).z for i in range(400)])
assert abs(m(.6) + m(-.6)) < 1e-6 and abs(m(.6)) > .5, (m(.6), m(-.6))
'''),
 dict(id="sampled-rgb-negative", property="P18",
  edits=[("pytracer/spectral/spectrum.py", "			self *= .94\n\n", "			self *= .94\n			return self\n\n")],
  needs="a saturated colour outside the gamut (a negative component) turned into a spectrum",
  what="reflectance spectra come out negative",
  demo=G+'''
from pytracer.spectral.spectrum import SampledSpectrum, SpectrumType
SampledSpectrum.init()
for rgb in ([-.3, .2, .5], [.4, -.2, .1], [.1, .9, -.4]):
    for tp in SpectrumType:
        s = SampledSpectrum.from_rgb(rgb, tp)
        assert (np.array(s) >= 0.).all(), (rgb, tp, s.min())
'''),
 dict(id="conductor-inside", property="P20",
  edits=[("pytracer/reflection/fresnel.py", "		return fr_cond(np.fabs(cosi), self.eta, self.k)\n", "		return fr_cond(cosi, self.eta, self.k)\n")],
  needs="light arriving at a metal from below the shading surface",
  what="the reflectance exceeds one",
  demo=G+'''
from pytracer.reflection import FresnelConductor
f = FresnelConductor(Spectrum(.2), Spectrum(3.))
for c in (.1, .5, .9):
    assert np.allclose(np.array(f(c)), np.array(f(-c))), c
    assert (np.array(f(-c)) <= 1.).all()
'''),
 dict(id="remap-azimuth-wrap", property="P22",
  edits=[("pytracer/reflection/utility.py", "	if dphi > PI:\n		dphi = 2. * PI - dphi\n", "	if dphi >= 1.5 * PI:\n		dphi = 2. * PI - dphi\n")],
  needs="directions whose azimuths differ by between 180 and 270 degrees",
  what="the same pair of directions swapped looks up another sample",
  demo=G+'''
from pytracer.reflection import brdf_remap
w = lambda th, ph: geo.spherical_direction(np.sin(th), np.cos(th), ph)
for a, b in ((.5, 4.), (.5, 1.), (.1, 6.), (3., 6.), (1., 5.)):
    p, q = brdf_remap(w(.4, a), w(.9, b)), brdf_remap(w(.9, b), w(.4, a))
    assert np.allclose(np.array(p), np.array(q)), (a, b, p, q)
'''),
 dict(id="mix-weight-overflow", property="P26",
  edits=[("pytracer/material/material.py", "		s2 = (Spectrum(1.) - s1).clip()\n", "		s2 = Spectrum(1.) - s1\n")],
  needs="a blend texture that exceeds one in some channel",
  what="the second material scatters negative light",
  demo=G+'''
from pytracer.material import MatteMaterial, MixMaterial
from pytracer.texture import ConstantTexture
from pytracer.shape import Disk
I = Transform()
d = Disk(I, I, False, 0., 2., 0., 360.)
hit, t, e, dg = d.intersect(geo.Ray(geo.Point(.3, .2, 3.), geo.Vector(0., 0., -1.)))
C = lambda *v: ConstantTexture(Spectrum.from_rgb(list(v)))
M = MixMaterial(MatteMaterial(C(0., 0., 0.), ConstantTexture(0.)), MatteMaterial(C(.5, .5, .5), ConstantTexture(0.)), C(1.5, .5, 0.))
f = M.get_bsdf(dg, dg).f(geo.Vector(0., .6, .8), geo.Vector(.6, 0., .8))
assert (np.array(f) >= 0.).all(), f
'''),
 dict(id="bump-shifted-u", property="P26",
  edits=[("pytracer/material/material.py", "		dg.u = dgs.u\n		dg.v = dgs.v + dv\n", "		dg.v = dgs.v + dv\n")],
  needs="a bump texture that varies along u, looked up by surface parameters",
  what="the slope along v picks up the slope along u",
  demo=G+'''
from pytracer.material import Material
from pytracer.texture import Texture
from pytracer.shape import Disk
I = Transform()
d = Disk(I, I, False, 0., 2., 0., 360.)
hit, t, e, dg = d.intersect(geo.Ray(geo.Point(.3, .2, 3.), geo.Vector(0., 0., -1.)))
class Ramp(Texture):
    def __call__(self, g):
        return 3. * g.u
b = Material.bump(Ramp(), dg, dg)
assert np.allclose(np.array(b.dpdv), np.array(dg.dpdv) + 3. * dg.u * np.array(dg.dndv), atol=1e-9), (b.dpdv, dg.dpdv)
'''),
 dict(id="differentials-by-spp", property="P30",
  edits=[("pytracer/renderer/renderer.py", "				rays[i].scale_differential(1. / np.sqrt(sampler.spp))\n", "				rays[i].scale_differential(1. / sampler.spp)\n")],
  needs="more than one sample per pixel and a surface that looks at the ray differentials",
  what="the footprint of the samples shrinks too fast with their number: textures alias",
  demo=G+'''
import os
from pytracer.renderer import SamplerRenderer
from pytracer.renderer.renderer import SamplerRendererTask
from pytracer.sampler import StratifiedSampler, Sample
from pytracer.camera import OrthoCamera
seen = []
class R(object):
    def li(self, scene, ray, sample, isect, rng):
        seen.append((ray.rxOrigin - ray.o).length())
        return Spectrum(0.), Spectrum(1.)
class F(object):
    xResolution = yResolution = 4
    def add_sample(self, s, L): pass
I = Transform()
cam = OrthoCamera(AnimatedTransform(I, 0., I, 1.), [-1., 1., -1., 1.], 0., 1., 0., 1., F())
import numpy
def run(n):
    del seen[:]
    smp = Sample.__new__(Sample)
    smp.n1D, smp.n2D, smp.oneD, smp.twoD = [], [], [], []
    SamplerRendererTask(None, R(), cam, StratifiedSampler(0, 2, 0, 2, n, n, False, 0., 1.), smp, False, 1, 1)()
    return seen[0]
assert abs(run(1) / run(3) - 3.) < 1e-6, (run(1), run(3))
'''),
 dict(id="read-image-shrinks", property="P32",
  edits=[("pytracer/utility/imageio.py", "			width = util.next_pow_2(width)\n", "			width = util.round_pow_2(width)\n")],
  needs="an image a little wider than a power of two",
  what="the image is halved in width when read",
  demo=G+'''
import os, tempfile, PIL.Image
from pytracer.utility.imageio import read_image
fd, fn = tempfile.mkstemp('.png')
os.close(fd)
try:
    for w, h, W, H in ((5, 4, 8, 4), (4, 9, 4, 16), (3, 3, 4, 4), (17, 2, 32, 2)):
        PIL.Image.fromarray(np.full((h, w, 3), 99, dtype='uint8'), mode='RGB').save(fn, 'PNG')
        assert np.shape(read_image(fn)) == (H, W, 3), (w, h, np.shape(read_image(fn)))
finally:
    os.remove(fn)
'''),
 dict(id="negative-black", property="P33",
  edits=[("pytracer/utility/utility.py", "		return (np.abs((s - 0.)) < EPS).all()\n", "		return (s - 0. < EPS).all()\n")],
  needs="a negative value",
  what="is_black() calls clearly non-zero negative spectra black",
  demo=G+'''
import pytracer.utility.utility as util
assert not util.is_black(Spectrum(-.5))
assert not util.is_black(np.array([0., -.2, 0.]))
assert util.is_black(Spectrum(0.))
'''),
 dict(id="grid-density-aliased", property="P34",
  edits=[("pytracer/volume/volume.py", "		self.density = d.copy() 	# 3D np array", "		self.density = d 	# 3D np array")],
  needs="the array of densities being reused by the caller after the volume is built",
  what="the volume's densities change with the caller's scratch array",
  demo=G+'''
from pytracer.volume import VolumeGridDensity
d = np.ones((2, 2, 2))
v = VolumeGridDensity(Spectrum(1.), Spectrum(1.), 0., Spectrum(0.), geo.BBox(geo.Point(0., 0., 0.), geo.Point(1., 1., 1.)), Transform(), d)
a = v.sigma_t(geo.Point(.5, .5, .5), geo.Vector(0., 0., 1.), 0.)
d[:] = 7.
b = v.sigma_t(geo.Point(.5, .5, .5), geo.Vector(0., 0., 1.), 0.)
assert np.array_equal(a, b), (a, b)
'''),
 dict(id="mesh-normals-aliased", property="P34",
  edits=[("pytracer/shape/triangle.py", "		self.vertexIndex = vi.copy()\n", "		self.vertexIndex = vi\n")],
  needs="one index list refilled to build several meshes",
  what="meshes built earlier change their connectivity",
  demo=G+'''
from pytracer.shape import TriangleMesh
I = Transform()
P = [geo.Point(0., 0., 0.), geo.Point(1., 0., 0.), geo.Point(0., 1., 0.), geo.Point(1., 1., 0.)]
vi = [0, 1, 2]
m = TriangleMesh(I, I, False, 1, 4, vi, P)
t = m.refine()[0]
a = t.world_bound()
vi[:] = [1, 2, 3]
assert t.world_bound() == a and t.intersect_p(geo.Ray(geo.Point(.1, .1, 1.), geo.Vector(0., 0., -1.)))
'''),
 dict(id="concat-order", property="P31",
  edits=[("pytracer/interface/api.py", "		inter.TRANSFORM_SET[i] *= trans.Transform.rotate(angle, geo.Vector.from_arr(dx))\n", "		inter.TRANSFORM_SET[i] = trans.Transform.rotate(angle, geo.Vector.from_arr(dx)) * inter.TRANSFORM_SET[i]\n")],
  needs="a rotation following another transformation",
  what="rotations are applied on the world's side",
  demo=G+'''
import pytracer.interface as inter
from pytracer.interface.api import *
import pytracer.interface.api as api
api.system_init(None)
api.trans_identity()
api.trans_translate([1., 2., 3.])
api.trans_rotate(90., [0., 0., 1.])
p = inter.TRANSFORM_SET[0](geo.Point(1., 0., 0.))
assert np.allclose(np.array(p), [1., 3., 3.]), p
'''),
]
