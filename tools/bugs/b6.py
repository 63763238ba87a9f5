G = "import numpy as np\nimport pytracer.geometry as geo\nfrom pytracer import Spectrum\nfrom pytracer.transform import *\nA = lambda v: np.array([v.x, v.y, v.z])\n"
W = '''
from pytracer.shape import Sphere, Disk
from pytracer.light import *
from pytracer.light.light import SpotLight
from pytracer.reflection import *
from pytracer.reflection.fresnel import FresnelFullReflect
from pytracer.material import Material
from pytracer.sampler import Sample
from pytracer.integrator import *
from pytracer.renderer import SamplerRenderer
from pytracer.scene import Scene
from pytracer.aggregate import *
class M(Material):
    def __init__(self, f): self.f = f
    def get_bsdf(self, g, s):
        b = BSDF(s.copy(), g.nn)
        b.push_back(self.f())
        return b
    def get_bssrdf(self, *a): return None
matte = M(lambda: Lambertian(Spectrum(.5)))
mirror = M(lambda: SpecularReflection(Spectrum(1.), FresnelFullReflect()))
T = lambda *v: Transform.translate(geo.Vector(*v))
def ball(c, r, m, I=None):
    t = T(*c)
    s = Sphere(t, t.inverse(), False, r, -r, r, 360.)
    al = DiffuseAreaLight(Transform(), Spectrum(I), 1, s) if I else None
    return GeometricPrimitive(s, m, al), al
def disk(h, r, m):
    return GeometricPrimitive(Disk(T(0., 0., h), T(0., 0., -h), False, 0., r, 0., 360.), m, None)
def L(prims, lights, integ, o, w):
    sc = Scene(SimpleAggregate(prims, True), lights, None)
    ren = SamplerRenderer(None, None, integ, None)
    smp = Sample(None, integ, None, sc)
    smp.time = 0.
    smp.oneD = [[.3] * n for n in smp.n1D]
    smp.twoD = [[[.4, .6]] * n for n in smp.n2D]
    w = np.array(w) / np.linalg.norm(w)
    return np.array(ren.li(sc, geo.RayDifferential(geo.Point(*o), geo.Vector(*w), 0., np.inf), smp, Intersection(), lambda *k: .3)[0])
'''
BUGS = [
 dict(id="path-late-emission", property="P29",
  edits=[("pytracer/integrator/surface/path.py", "			if bounce_cnt == 0 or specular_bounce:\n", "			if bounce_cnt == 0 or (specular_bounce and bounce_cnt < PathIntegrator.SAMPLE_DEPTH):\n")],
  needs="a light source seen after three specular bounces or more",
  what="its radiance is lost",
  demo=G+W+'''
b, al = ball((4.5, 0., -1.), .5, matte, 3.)
for top, x, n in ((2.9, 0., 3), (.7, 2., 1)):
    # between two facing mirrors, out to a glowing ball
    got = L([disk(0., 2.9, mirror), disk(1., 2.9, mirror), b], [al], PathIntegrator(5), (x, 0., .5), (1., 0., 1.))
    assert np.allclose(got, 3., rtol=1e-6), (n, got)
'''),
 dict(id="whitted-first-dark", property="P29",
  edits=[("pytracer/integrator/surface/whitted.py", "			if Li.is_black() or pdf == 0.:\n				continue\n", "			if Li.is_black() or pdf == 0.:\n				break\n")],
  needs="several lights, one of which sends nothing to the point while a later one does",
  what="the lights after it are left out",
  demo=G+W+'''
spot = SpotLight(Transform(), Spectrum(5.), 20., 10.)       # at the origin, along +z
pt = PointLight(T(0., 0., 3.), Spectrum(8.))
floor = disk(-2., 5., matte)
go = lambda ls: L([floor], ls, WhittedIntegrator(1), (.5, .3, 1.), (0., 0., -1.))
a = go([pt])
assert a.min() > 0
for ls in ([pt, spot], [spot, pt], [spot, pt, spot]):
    assert np.allclose(go(ls), a, rtol=1e-9), (go(ls), a)
'''),
 dict(id="aniso-highlight-hole", property="P19",
  edits=[("pytracer/reflection/bdf/torrance.py", "		if d == 0.:\n", "		if d <= EPS:\n")],
  needs="half vectors within 0.2 degrees of the normal",
  what="the distribution has a hole in the middle of the highlight",
  demo=G+'''
from pytracer.reflection import *
for e in (10., 500., 8000.):
    for th in (1e-3, 2e-3, 5e-3):
        c = np.cos(th)
        wh = geo.Vector(np.sin(th) * .6, np.sin(th) * .8, c)
        exp = (e + 2) / (2 * np.pi) * c ** e
        assert abs(Anisotropic(e, e).D(wh) - exp) < 1e-5 * exp, (e, th)
'''),
 dict(id="exponential-short-up", property="P28",
  edits=[("pytracer/volume/volume.py", "		self.up = geo.normalize(up)\n", "		self.up = geo.normalize(up) if up.sq_length() > 1. else up\n")],
  needs="an up vector shorter than one",
  what="the density falls off too slowly",
  demo=G+'''
from pytracer.volume import *
import pytracer.volume.volume as V
I = Transform()
for k in (.25, 1., 4.):
    v = V.ExponentialDensity(Spectrum(1.), Spectrum(1.), 0., Spectrum(0.), geo.BBox(geo.Point(0., 0., 0.), geo.Point(1., 1., 1.)), I, 2., 3., geo.Vector(0., 0., k))
    for z in (.1, .5, .9):
        assert abs(float(v(geo.Point(.5, .5, z))) - 2 * np.exp(-3 * z)) < 1e-6, (k, z)
'''),
 dict(id="power-heuristic-saturates", property="P17",
  edits=[("pytracer/montecarlo/utility.py", "	f = nf * fpdf\n	g = ng * gpdf\n	return f * f", "	f = min(nf * fpdf, 1.e4)\n	g = min(ng * gpdf, 1.e4)\n	return f * f")],
  needs="densities above ten thousand, as tiny lights have",
  what="both strategies get half the weight",
  demo=G+'''
from pytracer.montecarlo import power_heuristic
for f, g in ((1., 2.), (1e5, 2e6), (3e6, 10.), (1e-4, 5e4)):
    w, v = power_heuristic(1, f, 1, g), power_heuristic(1, g, 1, f)
    assert abs(w - f * f / (f * f + g * g)) < 1e-9 and abs(w + v - 1) < 1e-9, (f, g, w)
'''),
 dict(id="fbm-eight-octaves", property="P25",
  edits=[("pytracer/texture/utility.py", "	octaves = util.ftoi(foct)\n\n	# sum of octaves of noise\n	s = 0.\n	l = 1.\n	o = 1.\n	for i in range(octaves):\n		s += o * noise(l * p)\n", "	octaves = util.ftoi(foct)\n\n	# sum of octaves of noise\n	s = 0.\n	l = 1.\n	o = 1.\n	for i in range(min(octaves, 8)):\n		s += o * noise(l * p)\n")],
  needs="a footprint small enough for more than eight octaves, all of them asked for",
  what="the finest octaves are missing",
  demo=G+'''
from pytracer.texture.utility import FBm, noise
for n in (3, 8, 11):
    for x in (.31, 2.77, -1.4):
        p = geo.Point(x, .7 * x, .41)
        e = geo.Vector(1e-6, 0., 0.)
        s, l, o = 0., 1., 1.
        for i in range(n):
            s += o * noise(geo.Point(l * p.x, l * p.y, l * p.z))
            l *= 1.99
            o *= .9
        assert abs(FBm(p, e, e, .9, n) - s) < 1e-7, (n, x)
'''),
]
