G = "import numpy as np\nimport pytracer.geometry as geo\nfrom pytracer.transform import *\n"
BUGS = [
 dict(id="grid-last-voxel", property="P10",
  edits=[("pytracer/aggregate/aggregate.py", "				for y in range(vmin[1], vmax[1] + 1):", "				for y in range(vmin[1], max(vmax[1], vmin[1] + 1)):")],
  needs="a primitive spanning several grid cells along y and a ray that reaches it only through its last cell along y",
  what="GridAccel registers such a primitive in all but its last voxel row, rays through that row miss it",
  demo=G+'''
from pytracer.shape import Sphere
from pytracer.aggregate import *
def sph(y, r):
    T = Transform.translate(geo.Vector(0., y, 0.))
    return GeometricPrimitive(Sphere(T, T.inverse(), False, r, -r, r, 360.), None)
prims = [sph(0., 3.), sph(8., .2), sph(-8., .2), sph(5., .2)]
g, s = GridAccel(prims, True), SimpleAggregate(prims, True)
for i in range(-40, 41):
    for z in (-2.2, 0., 1.1):
        r = lambda: geo.Ray(geo.Point(-20., i / 10. + .013, z), geo.Vector(1., 0., 0.))
        assert bool(g.intersect_p(r())) == bool(s.intersect_p(r())), (i, z)
'''),
 dict(id="slerp-early-lerp", property="P04",
  edits=[("pytracer/transform/quat.py", "	if (cos_theta > 1. - EPS):", "	if (cos_theta > .9):")],
  needs="two key frames whose rotations differ by a moderate angle (below 52 degrees) and a time strictly between, not the middle",
  what="interpolation switches to normalised lerp, the rotation no longer turns at constant speed",
  demo=G+'''
import pytracer.transform.quat as quat
q1, q2 = quat.from_transform(Transform()), quat.from_transform(Transform.rotate(48., geo.Vector(0., 0., 1.)))
m = quat.to_transform(quat.slerp(.25, q1, q2)).m
e = Transform.rotate(12., geo.Vector(0., 0., 1.)).m
assert np.allclose(np.array(m), np.array(e), atol=1e-4), m
'''),
 dict(id="sphere-second-root-clip", property="P05",
  edits=[("pytracer/shape/sphere.py", "			if (self.zmin > -self.radius and phit.z < self.zmin) or \\\n					(self.zmax < self.radius and phit.z > self.zmax) or \\\n							phi > self.phiMax:\n				return [False, None, None, None]\n\n		# otherwise ray hits the sphere\n		# initialize",
          "			if (self.zmin > -self.radius and phit.z < self.zmin) or \\\n					phi > self.phiMax:\n				return [False, None, None, None]\n\n		# otherwise ray hits the sphere\n		# initialize")],
  needs="a sphere clipped at the top and a ray whose first crossing is clipped away and whose second lies above the clip plane too",
  what="Sphere.intersect does not re-apply the upper z clip to the second root and reports a hit on a removed part",
  demo=G+'''
from pytracer.shape import Sphere
I = Transform()
s = Sphere(I, I, False, 1., -1., .3, 360.)
hit = s.intersect(geo.Ray(geo.Point(-5., 0., .6), geo.Vector(1., 0., 0.)))
assert not hit[0], hit
'''),
 dict(id="loop-boundary-regular", property="P09",
  edits=[("pytracer/shape/loopsubdiv.py", "				vv.child.regular = vv.regular", "				vv.child.regular = vv.regular or not vv.boundary")],
  needs="at least two levels of subdivision around an interior vertex of valence other than six",
  what="children of extraordinary vertices are treated as regular, the second level uses the weight of valence six",
  demo=G+'''
from pytracer.shape import create_loop_subdiv
I = Transform()
P = [1, 1, 1, 1, -1, -1, -1, 1, -1, -1, -1, 1]
F = [0, 1, 2, 0, 3, 1, 0, 2, 3, 1, 3, 2]
def lim(n):
    m = create_loop_subdiv(I, I, False, {"nlevels": n, "indices": F, "P": [float(x) for x in P]}).refine()[0]
    return max(np.linalg.norm(np.array(p)) for p in m.p)
assert abs(lim(1) - lim(2)) < 1e-6 and abs(lim(2) - lim(3)) < 1e-6, (lim(1), lim(2), lim(3))
'''),
 dict(id="instance-normal-derivative", property="P11",
  edits=[("pytracer/aggregate/primitive.py", "			dg.dndv = p2w(dg.dndv)", "			dg.dndv = w2p(dg.dndv)")],
  needs="an instance under a rotation, and a hit on a curved shape",
  what="dn/dv of a hit on an instance is carried by the inverse transform",
  demo=G+'''
from pytracer.shape import Sphere
from pytracer.aggregate import *
I = Transform()
W = Transform.rotate(40., geo.Vector(0., 1., 0.))
p = TransformedPrimitive(GeometricPrimitive(Sphere(I, I, False, 1., -1., 1., 360.), None), AnimatedTransform(W, 0., W, 1.))
i = Intersection()
assert p.intersect(geo.Ray(geo.Point(-5., .2, .3), geo.Vector(1., 0., 0.)), i)
# on a unit sphere dn/dv is dp/dv up to sign
a, b = np.array(i.dg.dndv), np.array(i.dg.dpdv)
assert np.allclose(a, b, atol=1e-5) or np.allclose(a, -b, atol=1e-5), (a, b)
'''),
]
