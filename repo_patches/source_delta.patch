From a69c7e78f93a40f78bafee531879795931da7b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 001/172] fix: BBox != compared pMin with the other box's pMax

---
 pytracer/geometry/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index 81c292c..ee79426 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -422,8 +422,8 @@ class BBox:
 		       np.array_equal(self.pMax, other.pMax)
 
 	def __ne__(self, other):
-		return not np.array_equal(self.pMin, other.pMax) or \
-		       not np.array_equal(self.pMin, other.pMax)
+		return not np.array_equal(self.pMin, other.pMin) or \
+		       not np.array_equal(self.pMax, other.pMax)
 
 	def __getitem__(self, key):
 		if key == 0:
-- 
2.43.0


From 6a9adf2ecd454b1778cf2e94fbc94404dad06b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 002/172] fix: BBox.from_bbox turned the empty box into the
 whole space

---
 pytracer/geometry/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index ee79426..6609adf 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -410,7 +410,10 @@ class BBox:
 
 	@classmethod
 	def from_bbox(cls, box: 'BBox'):
-		return cls(box.pMin, box.pMax)
+		ret = cls()
+		ret.pMin = box.pMin.copy()
+		ret.pMax = box.pMax.copy()
+		return ret
 
 	def __repr__(self):
 		return "{}\npMin:{}\npMax:{}".format(self.__class__,
-- 
2.43.0


From 38cb123c78beb115b8592fbc7cf0f7bdb5dc6316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 003/172] fix: BBox.intersect_p missed rays in a slab plane
 with a -0. direction component

---
 pytracer/geometry/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index 6609adf..ea69ce5 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -589,8 +589,9 @@ class BBox:
 		"""
 		t0, t1 = r.mint, r.maxt
 		# automatically convert /0. to np.inf
-		t_near = np.true_divide((self.pMin - r.o), r.d)
-		t_far = np.true_divide((self.pMax - r.o), r.d)
+		d = r.d + 0.  # -0. -> 0., a ray lying in a slab plane must not depend on the sign of zero
+		t_near = np.true_divide((self.pMin - r.o), d)
+		t_far = np.true_divide((self.pMax - r.o), d)
 		if isinstance(t0, RayDifferential) or isinstance(t_near[0], RayDifferential):
 			a = 1
 			b = 2
-- 
2.43.0


From 93f8d2b7b4cb0e5580b5782e70703863b9190857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 004/172] fix: transforming a RayDifferential left its offset
 rays behind

---
 pytracer/transform/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 5a92c85..c7e1f6e 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -72,6 +72,10 @@ class Transform(object):
 			r = geo.RayDifferential.from_rd(arg)
 			r.o = self(r.o)
 			r.d = self(r.d)
+			r.rxOrigin = self(r.rxOrigin)
+			r.ryOrigin = self(r.ryOrigin)
+			r.rxDirection = self(r.rxDirection)
+			r.ryDirection = self(r.ryDirection)
 			return r
 
 		elif isinstance(arg, geo.Ray):
-- 
2.43.0


From d7fdfc131cd18a31826b852e7a5535dbd7fd0888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 005/172] fix: transforming a BBox by a mirror or a rotation
 could swap pMin and pMax

---
 pytracer/transform/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index c7e1f6e..3adbff9 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -94,7 +94,7 @@ class Transform(object):
 			y = self(y)
 			z = self(z)
 			res.pMax = res.pMin + (x + y + z)
-			return res
+			return geo.BBox(res.pMin, res.pMax)  # reorder: mirrors and rotations may swap the corners
 
 		else:
 			raise TypeError('Transform can only be called on geo.Point, geo.Vector, geo.Normal, geo.Ray or geo.geo.BBox')
-- 
2.43.0


From 1d2aaec897a20f6669fc165665d2dcd667d65e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 006/172] fix: look_at built the transposed rotation, the
 camera did not face its target

---
 pytracer/transform/__init__.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 3adbff9..99f9083 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -206,33 +206,33 @@ class Transform(object):
 		c2w[1][3] = pos.y
 		c2w[2][3] = pos.z
 
-		# c2w rotation
+		# c2w rotation: the camera axes are its columns
 		c2w[0][0] = xc.x
-		c2w[0][1] = xc.y
-		c2w[0][2] = xc.z
-		c2w[1][0] = yc.x
+		c2w[1][0] = xc.y
+		c2w[2][0] = xc.z
+		c2w[0][1] = yc.x
 		c2w[1][1] = yc.y
-		c2w[1][2] = yc.z
-		c2w[2][0] = zc.x
-		c2w[2][1] = zc.y
+		c2w[2][1] = yc.z
+		c2w[0][2] = zc.x
+		c2w[1][2] = zc.y
 		c2w[2][2] = zc.z
 
 		# w2c rotation
 		# in effect as camera extrinsic
 		w2c[0][0] = xc.x
-		w2c[0][1] = yc.x
-		w2c[0][2] = zc.x
-		w2c[1][0] = xc.y
+		w2c[1][0] = yc.x
+		w2c[2][0] = zc.x
+		w2c[0][1] = xc.y
 		w2c[1][1] = yc.y
-		w2c[1][2] = zc.y
-		w2c[2][0] = xc.z
-		w2c[2][1] = yc.z
+		w2c[2][1] = zc.y
+		w2c[0][2] = xc.z
+		w2c[1][2] = yc.z
 		w2c[2][2] = zc.z
 
 		# w2c translation
-		w2c[0][3] = -(pos.x * xc.x + pos.y * yc.x + pos.z * zc.x)
-		w2c[1][3] = -(pos.x * xc.y + pos.y * yc.y + pos.z * zc.y)
-		w2c[2][3] = -(pos.x * xc.z + pos.y * yc.z + pos.z * zc.z)
+		w2c[0][3] = -(pos.x * xc.x + pos.y * xc.y + pos.z * xc.z)
+		w2c[1][3] = -(pos.x * yc.x + pos.y * yc.y + pos.z * yc.z)
+		w2c[2][3] = -(pos.x * zc.x + pos.y * zc.y + pos.z * zc.z)
 
 		return cls(c2w, w2c, dtype)
 
-- 
2.43.0


From ae413660c98a0c87c7a9d9083423a7777ef94767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 007/172] fix: quaternion of a rotation took the 4x4 trace and
 the wrong largest diagonal

---
 pytracer/transform/quat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/transform/quat.py b/pytracer/transform/quat.py
index 609f515..c3d48ca 100644
--- a/pytracer/transform/quat.py
+++ b/pytracer/transform/quat.py
@@ -35,7 +35,7 @@ def to_transform(q: 'Quaternion') -> 'Transform':
 
 def from_transform(t: 'Transform') -> 'Quaternion':
 	m = t.m
-	tr = m.trace()
+	tr = m[0, 0] + m[1, 1] + m[2, 2]
 
 	if tr > .0:
 		s = np.sqrt(tr + 1.)
@@ -52,7 +52,7 @@ def from_transform(t: 'Transform') -> 'Quaternion':
 		i = 0
 		if m[1, 1] > m[0, 0]:
 			i = 1
-		if m[2, 2] < m[i, i]:
+		if m[2, 2] > m[i, i]:
 			i = 2
 		j = nxt[i]
 		k = nxt[j]
@@ -71,7 +71,7 @@ def from_transform(t: 'Transform') -> 'Quaternion':
 
 def from_arr(t: 'np.ndarray') -> 'Quaternion':
 	m = t
-	tr = m.trace()
+	tr = m[0, 0] + m[1, 1] + m[2, 2]
 
 	if tr > .0:
 		s = np.sqrt(tr + 1.)
@@ -88,7 +88,7 @@ def from_arr(t: 'np.ndarray') -> 'Quaternion':
 		i = 0
 		if m[1, 1] > m[0, 0]:
 			i = 1
-		if m[2, 2] < m[i, i]:
+		if m[2, 2] > m[i, i]:
 			i = 2
 		j = nxt[i]
 		k = nxt[j]
-- 
2.43.0


From 507f7c00d283f9654c061fca8de6a92f36452140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 008/172] fix: AnimatedTransform rotated the long way round
 between opposite quaternions

---
 pytracer/transform/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 99f9083..dffa2ac 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -284,6 +284,10 @@ class AnimatedTransform(object):
 		if self.animated:
 			self.T[0], self.R[0], self.S[0] = AnimatedTransform.decompose(t1.m)
 			self.T[1], self.R[1], self.S[1] = AnimatedTransform.decompose(t2.m)
+			from pytracer.transform.quat import dot
+			# q and -q are the same rotation, interpolate along the shorter arc
+			if dot(self.R[0], self.R[1]) < 0.:
+				self.R[1] = -self.R[1]
 
 	def __repr__(self):
 		return "{}\nTime: {} - {}\nAnimated: {}".format(self.__class__,
-- 
2.43.0


From 15e349a1cc5a3bd7a5c5c445003aff02aae4deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 009/172] fix: motion_bounds of a static AnimatedTransform
 always used the inverse

---
 pytracer/transform/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index dffa2ac..65deab8 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -327,7 +327,8 @@ class AnimatedTransform(object):
 
 	def motion_bounds(self, b: 'geo.BBox', use_inv: bool=False) -> 'geo.BBox':
 		if not self.animated:
-			return self.startTransform.inverse()(b)
+			t = self.startTransform
+			return t.inverse()(b) if use_inv else t(b)
 		ret = geo.BBox()
 		steps = 128
 		for i in range(128):
-- 
2.43.0


From 2070266fbedcf8bf4fbf94764de0b44e5b713e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 010/172] fix: motion_bounds did not enclose the images of all
 corners of a rotated box

---
 pytracer/transform/__init__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 65deab8..02efb5f 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -328,7 +328,7 @@ class AnimatedTransform(object):
 	def motion_bounds(self, b: 'geo.BBox', use_inv: bool=False) -> 'geo.BBox':
 		if not self.animated:
 			t = self.startTransform
-			return t.inverse()(b) if use_inv else t(b)
+			return self.__corner_bounds(t.inverse() if use_inv else t, b)
 		ret = geo.BBox()
 		steps = 128
 		for i in range(128):
@@ -336,7 +336,17 @@ class AnimatedTransform(object):
 			t = self.interpolate(time)
 			if use_inv:
 				t = t.inverse()
-			ret.union(t(b))
+			ret.union(self.__corner_bounds(t, b))
+		return ret
+
+	@staticmethod
+	def __corner_bounds(t: 'Transform', b: 'geo.BBox') -> 'geo.BBox':
+		# a rotated box is bounded by the images of all its corners
+		ret = geo.BBox()
+		for x in (b.pMin.x, b.pMax.x):
+			for y in (b.pMin.y, b.pMax.y):
+				for z in (b.pMin.z, b.pMax.z):
+					ret.union(t(geo.Point(x, y, z)))
 		return ret
 
 	@staticmethod
-- 
2.43.0


From 99f1f2b68c5b4bd85820d0fb4d5a54bf2e639680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 011/172] fix: Sphere.intersect_p printed debugging output for
 every shadow ray

---
 pytracer/shape/sphere.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index df35a5f..4034b61 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -249,7 +249,6 @@ class Sphere(Shape):
 				return False
 
 		phit = ray(thit)
-		print("Type phit: {}\nphit.x: {}\nphit.y: {}\n".format(type(phit), type(phit.x), type(phit.y)))
 		if phit.x == 0. and phit.y == 0.:
 			phit.x = EPS * self.radius
 		phi = np.arctan2(phit.y, phit.x)
-- 
2.43.0


From 48e2b7a5dd863643557b1f343a52f667c1ba8573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 012/172] fix: rays missed small spheres, the discriminant was
 compared with an absolute epsilon

---
 pytracer/shape/sphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index 4034b61..9b72df8 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -139,7 +139,7 @@ class Sphere(Shape):
 		C = ray.o.sq_length() - self.radius * self.radius
 
 		D = B * B - 4. * A * C
-		if D <= 0. + EPS:
+		if D <= 0.:
 			return [False, None, None, None]
 
 		# validate solutions
@@ -233,7 +233,7 @@ class Sphere(Shape):
 		C = ray.o.sq_length() - self.radius * self.radius
 
 		D = B * B - 4. * A * C
-		if D <= 0. + EPS:
+		if D <= 0.:
 			return False
 
 		# validate solutions
-- 
2.43.0


From ae691d341c47cdae45cd118d00e2a1aea4e0545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 013/172] fix: Sphere's v coordinate was multiplied by the
 theta range, not divided

---
 pytracer/shape/sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index 9b72df8..c28d560 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -187,7 +187,7 @@ class Sphere(Shape):
 		u = phi / self.phiMax
 		theta = np.arccos(np.clip(phit.z / self.radius, -1., 1.))
 		delta_theta = self.thetaMax - self.thetaMin
-		v = (theta - self.thetaMin) * delta_theta
+		v = (theta - self.thetaMin) / delta_theta
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
-- 
2.43.0


From 62126bec9d27c8a281ccdadae7e308a26dc679aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 014/172] fix: Sphere.sample returned points off the sphere

---
 pytracer/shape/sphere.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index c28d560..eaf2387 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -47,11 +47,10 @@ class Sphere(Shape):
 		from pytracer.montecarlo import uniform_sample_sphere
 		v = uniform_sample_sphere(u1, u2)
 
-		phi = geo.spherical_theta(v) * self.phiMax * INV_2PI
-		theta = self.thetaMin + geo.spherical_theta(v) * (self.thetaMax - self.thetaMin)
-
-		v = geo.spherical_direction(np.sin(theta), np.cos(theta), phi) * self.radius
-		v.z = self.zmin + v.z * (self.zmax - self.zmin)
+		phi = geo.spherical_phi(v) * self.phiMax * INV_2PI
+		z = util.lerp(.5 * (v.z + 1.), self.zmin, self.zmax)
+		ct = z / self.radius
+		v = geo.spherical_direction(np.sqrt(max(0., 1. - ct * ct)), ct, phi) * self.radius
 
 		p = geo.Point.from_arr(v)
 		Ns = geo.normalize(self.o2w(geo.Normal(p.x, p.y, p.z)))
-- 
2.43.0


From d485b16da4d1abb2cbdd45b7490a807f4ea0fed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 015/172] fix: world_bound of a rotated shape did not enclose
 the shape

---
 pytracer/shape/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pytracer/shape/__init__.py b/pytracer/shape/__init__.py
index 2497a24..40c7a3a 100644
--- a/pytracer/shape/__init__.py
+++ b/pytracer/shape/__init__.py
@@ -61,7 +61,14 @@ class Shape(object, metaclass=ABCMeta):
 		raise NotImplementedError('unimplemented Shape.object_bound() method called')
 
 	def world_bound(self) -> 'geo.BBox':
-		return self.o2w(self.object_bound())
+		b = self.object_bound()
+		ret = geo.BBox()
+		# bound the images of all corners, the transformation may rotate
+		for x in (b.pMin.x, b.pMax.x):
+			for y in (b.pMin.y, b.pMax.y):
+				for z in (b.pMin.z, b.pMax.z):
+					ret.union(self.o2w(geo.Point(x, y, z)))
+		return ret
 
 	def can_intersect(self) -> bool:
 		return True
-- 
2.43.0


From 11a6c72436b937ddc0a7f76d49460ee492615b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 016/172] fix: Disk's v coordinate subtracted the inner radius
 from the squared distance

---
 pytracer/shape/disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 31243b9..2c5d336 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -93,7 +93,7 @@ class Disk(Shape):
 		# otherwise ray hits the disk
 		# initialize the differential structure
 		u = phi / self.phiMax
-		v = 1. - ((np.sqrt(dt2 - self.inner_radius)) /
+		v = 1. - ((np.sqrt(dt2) - self.inner_radius) /
 		          (self.radius - self.inner_radius))
 
 		# find derivatives
-- 
2.43.0


From 3addd29fe1c52771f5e712f132e3b5ddf611bd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 017/172] fix: Disk's dpdu and dpdv were not the derivatives of
 its parameterisation

---
 pytracer/shape/disk.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 2c5d336..1917f65 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -98,9 +98,8 @@ class Disk(Shape):
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
-		dpdv = geo.Vector(-phit.x / (1. - v), -phit.y / (1. - v), 0.)
-		dpdu *= self.phiMax * INV_2PI
-		dpdv *= (self.radius - self.inner_radius) / self.radius
+		dpdv = geo.Vector(-phit.x, -phit.y, 0.)
+		dpdv *= (self.radius - self.inner_radius) / np.sqrt(dt2)
 
 		# derivative of geo.Normals
 		dndu = geo.Normal(0., 0., 0., )
-- 
2.43.0


From 8cf5fc224fde8004bd1d8402a5f82b088e7cca3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 018/172] fix: hitting the very centre of a Disk produced a NaN
 normal

---
 pytracer/shape/disk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 1917f65..9e511cf 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -75,6 +75,8 @@ class Disk(Shape):
 			return [False, None, None, None]
 
 		phit = ray(thit)
+		if phit.x == 0. and phit.y == 0. and self.inner_radius == 0.:
+			phit.x = EPS * self.radius
 
 		# check radial distance
 		dt2 = phit.x * phit.x + phit.y * phit.y
-- 
2.43.0


From 6a1425f3b22533494c0abe6ff63c6e0faf181d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 019/172] fix: Disk.sample sampled outside a partial disk and
 unevenly on an annulus

---
 pytracer/shape/disk.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 9e511cf..7d9c80d 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -44,8 +44,12 @@ class Disk(Shape):
 		# account for partial disk
 		from pytracer.montecarlo import concentric_sample_disk
 		x, y = concentric_sample_disk(u1, u2)
-		phi = np.arctan2(y, x) * self.phiMax * INV_2PI
-		r = self.inner_radius + np.sqrt(x * x + y * y) * (self.radius - self.inner_radius)
+		phi = np.arctan2(y, x)
+		if phi < 0.:
+			phi += 2. * np.pi
+		phi *= self.phiMax * INV_2PI
+		# uniform with respect to area
+		r = np.sqrt(util.lerp(x * x + y * y, self.inner_radius * self.inner_radius, self.radius * self.radius))
 
 		p = geo.Point(r * np.cos(phi), r * np.sin(phi), self.height)
 
-- 
2.43.0


From 1636be854df100634f4dbd94bc6a5ca71fc3ef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 020/172] fix: Disk.sample returned the sampled position as
 normal

---
 pytracer/shape/disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 7d9c80d..e478fee 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -53,7 +53,7 @@ class Disk(Shape):
 
 		p = geo.Point(r * np.cos(phi), r * np.sin(phi), self.height)
 
-		Ns = geo.normalize(self.o2w(p))
+		Ns = geo.normalize(self.o2w(geo.Normal(0., 0., 1.)))
 		if self.ro:
 			Ns *= -1.
 
-- 
2.43.0


From 684e4adec926952a551cd25eb7ea5b542ea53219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 021/172] fix: Cylinder could not be instantiated, abstract
 refine was missing

---
 pytracer/shape/cylinder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pytracer/shape/cylinder.py b/pytracer/shape/cylinder.py
index 29a9279..f4998b9 100644
--- a/pytracer/shape/cylinder.py
+++ b/pytracer/shape/cylinder.py
@@ -190,3 +190,10 @@ class Cylinder(Shape):
 
 	def area(self) -> FLOAT:
 		return self.phiMax * self.radius * (self.zmax - self.zmin)
+
+	def refine(self) -> ['Shape']:
+		"""
+		If `Shape` cannot intersect,
+		return a refined subset
+		"""
+		raise NotImplementedError('Intersecable shapes are not refineable')
-- 
2.43.0


From a123c83b2bb5690d71a5e2c3100ad3774d6ef551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 022/172] fix: Cylinder.intersect used attributes of Sphere

---
 pytracer/shape/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/cylinder.py b/pytracer/shape/cylinder.py
index f4998b9..ecbe58d 100644
--- a/pytracer/shape/cylinder.py
+++ b/pytracer/shape/cylinder.py
@@ -106,7 +106,7 @@ class Cylinder(Shape):
 		# otherwise ray hits the cylinder
 		# initialize the differential structure
 		u = phi / self.phiMax
-		v = (phit.z - self.zmin) / (self.thetaMax - self.thetaMin)
+		v = (phit.z - self.zmin) / (self.zmax - self.zmin)
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
-- 
2.43.0


From 542fa3ff20111a896b114687e738e6867495eebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 023/172] fix: Triangle.get_uvs ignored the vertex indices

---
 pytracer/shape/triangle.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 7382a8d..610b0df 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -126,9 +126,8 @@ class Triangle(Shape):
 		if self.mesh.uvs is None:
 			return [[0., 0.], [1., 0.], [1., 1.]]  # default
 		else:
-			return [[self.mesh.uvs[2 * self.v], self.mesh.uvs[2 * self.v + 1]],
-			        [self.mesh.uvs[2 * (self.v + 1)], self.mesh.uvs[2 * (self.v + 1) + 1]],
-			        [self.mesh.uvs[2 * (self.v + 2)], self.mesh.uvs[2 * (self.v + 2) + 1]]]
+			vi = self.mesh.vertexIndex[self.v:self.v + 3]
+			return [[self.mesh.uvs[2 * i], self.mesh.uvs[2 * i + 1]] for i in vi]
 
 	def object_bound(self) -> 'geo.BBox':
 		p1 = self.mesh.p[self.mesh.vertexIndex[self.v]]
-- 
2.43.0


From f34096e5dd23fff90e4b981fd5551eb8874d1e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 024/172] fix: Triangle.sample used the vertex after the first
 instead of the second vertex

---
 pytracer/shape/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 610b0df..3c61641 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -147,7 +147,7 @@ class Triangle(Shape):
 		b1, b2 = uniform_sample_triangle(u1, u2)
 
 		p = b1 * self.mesh.p[self.mesh.vertexIndex[self.v]] + \
-		    b2 * self.mesh.p[self.mesh.vertexIndex[self.v]+1] + \
+		    b2 * self.mesh.p[self.mesh.vertexIndex[self.v+1]] + \
 		    (1. - b1 - b2) * self.mesh.p[self.mesh.vertexIndex[self.v+2]]
 
 		Ns = geo.normalize(geo.Normal.from_arr(
-- 
2.43.0


From 5ffe7cbf7b7e9dd83921eaa2ffe25c2cc3ec49b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 025/172] fix: Triangle.sample's normal pointed away from
 intersect's on a mirrored mesh

---
 pytracer/shape/triangle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 3c61641..a8d6c65 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -154,7 +154,8 @@ class Triangle(Shape):
 			(self.mesh.p[self.mesh.vertexIndex[self.v+1]] - self.mesh.p[self.mesh.vertexIndex[self.v]]) \
 				.cross(self.mesh.p[self.mesh.vertexIndex[self.v+2]] - self.mesh.p[self.mesh.vertexIndex[self.v]])))
 
-		if self.ro:
+		# vertices are in world space already
+		if self.ro ^ self.transform_swaps_handedness:
 			Ns *= -1.
 
 		return [p, Ns]
-- 
2.43.0


From f7924f28cac2d606a1faa820ad0fc46d25508fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 026/172] fix: Triangle shading normals were ignored unless
 tangents were given too

---
 pytracer/shape/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index a8d6c65..f602a92 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -322,7 +322,7 @@ class Triangle(Shape):
 
 	def get_shading_geometry(self, o2w: 'trans.Transform',
 	                         dg: 'geo.DifferentialGeometry') -> 'geo.DifferentialGeometry':
-		if self.mesh.n is None or self.mesh.s is None:
+		if self.mesh.n is None and self.mesh.s is None:
 			return dg
 		# compute barycentric coord
 		uvs = self.get_uvs()
-- 
2.43.0


From cde57adff23860744ea7d35ce54604311df62720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 027/172] fix: Triangle shading geometry ignored the vertex
 indices

---
 pytracer/shape/triangle.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index f602a92..159acc6 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -340,16 +340,16 @@ class Triangle(Shape):
 
 		# compute shading tangents
 		if self.mesh.n is not None:
-			ns = geo.normalize(o2w(b[0] * self.mesh.n[self.v] +
-			                   b[1] * self.mesh.n[self.v + 1] +
-			                   b[2] * self.mesh.n[self.v + 2]))
+			ns = geo.normalize(o2w(b[0] * self.mesh.n[self.mesh.vertexIndex[self.v]] +
+			                   b[1] * self.mesh.n[self.mesh.vertexIndex[self.v + 1]] +
+			                   b[2] * self.mesh.n[self.mesh.vertexIndex[self.v + 2]]))
 		else:
 			ns = dg.nn
 
 		if self.mesh.s is not None:
-			ss = geo.normalize(o2w(b[0] * self.mesh.s[self.v] +
-			                   b[1] * self.mesh.s[self.v + 1] +
-			                   b[2] * self.mesh.s[self.v + 2]))
+			ss = geo.normalize(o2w(b[0] * self.mesh.s[self.mesh.vertexIndex[self.v]] +
+			                   b[1] * self.mesh.s[self.mesh.vertexIndex[self.v + 1]] +
+			                   b[2] * self.mesh.s[self.mesh.vertexIndex[self.v + 2]]))
 		else:
 			ss = geo.normalize(dg.dpdu)
 
-- 
2.43.0


From 6a81d4e8c472ae53ae312c6605d4c505ff406880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 028/172] fix: cosine_sample_hemisphere was not cosine weighted

---
 pytracer/montecarlo/utility.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 7468cf3..61d9649 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -179,9 +179,8 @@ def cosine_sample_hemisphere(u1: FLOAT, u2: FLOAT) -> 'geo.Vector':
 	`u1` and `u2` are two
 	random numbers passed in.
 	"""
-	vec = uniform_sample_sphere(u1, u2)
-	vec.z = np.sqrt(max(0., 1. - vec.x * vec.x - vec.y * vec.y))
-	return vec
+	x, y = concentric_sample_disk(u1, u2)
+	return geo.Vector(x, y, np.sqrt(max(0., 1. - x * x - y * y)))
 
 
 def cosine_hemisphere_pdf(costheta: FLOAT, phi: FLOAT) -> FLOAT:
-- 
2.43.0


From ed18529bf3858fff78a48eb98b8db2bcdd8991ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 029/172] fix: uniform_sample_cone called a function that does
 not exist

---
 pytracer/montecarlo/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 61d9649..6705cdc 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -217,7 +217,7 @@ def uniform_sample_cone(u1: FLOAT, u2: FLOAT, ct_max: FLOAT,
 		ct = (1. - u1) + u1 * ct_max
 		st = np.sqrt(1. - ct * ct)
 		phi = u2 * 2. * PI
-		return geo.Vector(np.scos(phi) * st, np.sin(phi) * st, ct)
+		return geo.Vector(np.cos(phi) * st, np.sin(phi) * st, ct)
 	else:
 		ct = util.lerp(u1, ct_max, 1.)
 		st = np.sqrt(1. - ct * ct)
-- 
2.43.0


From 0e70f1dfd9344d26bc74e9980d6d958a5cc38fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 030/172] fix: copying a DifferentialGeometry dropped its
 screen space derivatives

---
 pytracer/geometry/diffgeom.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytracer/geometry/diffgeom.py b/pytracer/geometry/diffgeom.py
index 447879e..5133802 100644
--- a/pytracer/geometry/diffgeom.py
+++ b/pytracer/geometry/diffgeom.py
@@ -45,7 +45,11 @@ class DifferentialGeometry(object):
 		return "{}\nNormal Vector: {}\n".format(self.__class__, self.nn)
 
 	def copy(self):
-		return DifferentialGeometry(self.p, self.dpdu, self.dpdv, self.dndu, self.dndv, self.u, self.v, self.shape)
+		dg = DifferentialGeometry(self.p, self.dpdu, self.dpdv, self.dndu, self.dndv, self.u, self.v, self.shape)
+		dg.nn = self.nn.copy()
+		dg.dudx, dg.dvdx, dg.dudy, dg.dvdy = self.dudx, self.dvdx, self.dudy, self.dvdy
+		dg.dpdx, dg.dpdy = self.dpdx.copy(), self.dpdy.copy()
+		return dg
 
 	def compute_differential(self, ray: 'RayDifferential'):
 		if ray.has_differentials:
-- 
2.43.0


From 41cc805cac85bc5caf80164462b20f7677b0a362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 031/172] fix: nearly tangent rays crashed Sphere and Cylinder
 with complex roots

---
 pytracer/shape/cylinder.py | 8 ++++++--
 pytracer/shape/sphere.py   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pytracer/shape/cylinder.py b/pytracer/shape/cylinder.py
index ecbe58d..7ee1491 100644
--- a/pytracer/shape/cylinder.py
+++ b/pytracer/shape/cylinder.py
@@ -70,7 +70,9 @@ class Cylinder(Shape):
 			return [False, None, None, None]
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
+		# solve directly, np.roots may give complex roots when D is tiny
+		q = -.5 * (B + np.copysign(np.sqrt(D), B))
+		[t0, t1] = [q / A, C / q]
 		if t0 > t1:
 			t0, t1 = t1, t0
 		if t0 > ray.maxt or t1 < ray.mint:
@@ -153,7 +155,9 @@ class Cylinder(Shape):
 			return False
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
+		# solve directly, np.roots may give complex roots when D is tiny
+		q = -.5 * (B + np.copysign(np.sqrt(D), B))
+		[t0, t1] = [q / A, C / q]
 		if t0 > t1:
 			t0, t1 = t1, t0
 		if t0 > ray.maxt or t1 < ray.mint:
diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index eaf2387..a0581d4 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -142,7 +142,9 @@ class Sphere(Shape):
 			return [False, None, None, None]
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
+		# solve directly, np.roots may give complex roots when D is tiny
+		q = -.5 * (B + np.copysign(np.sqrt(D), B))
+		[t0, t1] = [q / A, C / q]
 		if t0 > t1:
 			t0, t1 = t1, t0
 		if t0 > ray.maxt or t1 < ray.mint:
@@ -236,7 +238,9 @@ class Sphere(Shape):
 			return False
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
+		# solve directly, np.roots may give complex roots when D is tiny
+		q = -.5 * (B + np.copysign(np.sqrt(D), B))
+		[t0, t1] = [q / A, C / q]
 		if t0 > t1:
 			t0, t1 = t1, t0
 		if t0 > ray.maxt or t1 < ray.mint:
-- 
2.43.0


From 2e75de3d6576c6e1923531bbd700c2ca0f1f68fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 032/172] fix: Loop limit surface weights added beta where they
 divide by it

---
 pytracer/shape/loopsubdiv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index cb3672b..50ba744 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -258,7 +258,7 @@ class LoopSubdiv(Shape):
 
 	@staticmethod
 	def gamma(valence: INT) -> FLOAT:
-		return 1. / (valence + 3. / (8. + LoopSubdiv.beta(valence)))
+		return 1. / (valence + 3. / (8. * LoopSubdiv.beta(valence)))
 
 	def weight_one_ring(self, vert: 'SDVertex', beta: 'FLOAT') -> 'geo.Point':
 		valence = vert.valence()
-- 
2.43.0


From c40f6eb930de660112a39623aaafd94ad2975927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 033/172] fix: refining a Loop surface with an interior vertex
 crashed on unassigned tangents

---
 pytracer/shape/loopsubdiv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index 50ba744..2aad90e 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -406,8 +406,8 @@ class LoopSubdiv(Shape):
 
 			if not vv.boundary:
 				## interior
-				S += np.sum([np.cos(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0)
-				T += np.sum([np.sin(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0)
+				S = geo.Vector.from_arr(np.sum([np.cos(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0))
+				T = geo.Vector.from_arr(np.sum([np.sin(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0))
 
 
 			else:
-- 
2.43.0


From f8ae53ddc504b4623da0b0816d06ad7ba1b1d7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 034/172] fix: SimpleAggregate ignored a nearer hit found after
 a farther one

---
 pytracer/aggregate/aggregate.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 029c9a2..cd76bb3 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -81,10 +81,6 @@ class SimpleAggregate(Aggregate):
 		mint = np.inf
 		for pr in self.primitives:
 			if pr.intersect(ray, tmp):
-				t0 = max(t0, ray.maxt)
-				t1 = min(t1, ray.maxt)
-				if t0 > t1:
-					continue
 				any_hit = True
 				if ray.maxt < mint:
 					mint = ray.maxt
-- 
2.43.0


From 5df3a6c32e119572e7bac862dc26bef84839b1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 035/172] fix: GridAccel started its walk at the ray origin
 even when outside the grid

---
 pytracer/aggregate/aggregate.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index cd76bb3..65ec27a 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -248,8 +248,10 @@ class GridAccel(Aggregate):
 		ray_t = 0.
 		if self.bounds.inside(ray(ray.mint)):
 			ray_t = ray.mint
-		elif not self.bounds.intersect_p(ray)[0]:
-			return False
+		else:
+			hit, ray_t, _ = self.bounds.intersect_p(ray)
+			if not hit:
+				return False
 
 		grid_intersect = ray(ray_t)
 
@@ -298,8 +300,10 @@ class GridAccel(Aggregate):
 		ray_t = 0.
 		if self.bounds.inside(ray(ray.mint)):
 			ray_t = ray.mint
-		elif not self.bounds.intersect_p(ray):
-			return False
+		else:
+			hit, ray_t, _ = self.bounds.intersect_p(ray)
+			if not hit:
+				return False
 
 		grid_intersect = ray(ray_t)
 
-- 
2.43.0


From 0b64afcb89aa5bdfd5a4eca0c57458b032d71356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 036/172] fix: GridAccel computed voxel crossings with
 misplaced parentheses

---
 pytracer/aggregate/aggregate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 65ec27a..8bdd30c 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -262,7 +262,7 @@ class GridAccel(Aggregate):
 
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
-		next_crossing = [ray_t + self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis] / ray.d[axis] \
+		next_crossing = [ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis] \
 		                 for axis in range(3)]
 		delta_t = self.width / ray.d
 		step = np.full(3, 1)
@@ -271,7 +271,7 @@ class GridAccel(Aggregate):
 			# compute current voxel
 			if ray.d[axis] < 0:
 				# ray with neg. direction for stepping
-				next_crossing[axis] = ray_t + self.voxel2pos(pos[axis], axis) - grid_intersect[axis] / ray.d[axis]
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis], axis) - grid_intersect[axis]) / ray.d[axis]
 				delta_t[axis] *= -1
 				step[axis] = -1
 				out[axis] = -1
@@ -314,7 +314,7 @@ class GridAccel(Aggregate):
 
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
-		next_crossing = [ray_t + self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis] / ray.d[axis] \
+		next_crossing = [ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis] \
 		                 for axis in range(3)]
 		delta_t = self.width / ray.d
 		step = np.full(3, 1)
@@ -323,7 +323,7 @@ class GridAccel(Aggregate):
 			# compute current voxel
 			if ray.d[axis] < 0:
 				# ray with neg. direction for stepping
-				next_crossing[axis] = ray_t + self.voxel2pos(pos[axis], axis) - grid_intersect[axis] / ray.d[axis]
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis], axis) - grid_intersect[axis]) / ray.d[axis]
 				delta_t[axis] *= -1
 				step[axis] = -1
 				out[axis] = -1
-- 
2.43.0


From 6ed2670cd3f5d79b7552972bfb5f637213ae9647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 037/172] fix: GridAccel lost rays parallel to an axis

---
 pytracer/aggregate/aggregate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 8bdd30c..6c658bd 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -275,6 +275,9 @@ class GridAccel(Aggregate):
 				delta_t[axis] *= -1
 				step[axis] = -1
 				out[axis] = -1
+			elif ray.d[axis] == 0:
+				# never leaves its slab
+				next_crossing[axis] = np.inf
 
 		# walk through grid
 		any_hit = False
@@ -327,6 +330,9 @@ class GridAccel(Aggregate):
 				delta_t[axis] *= -1
 				step[axis] = -1
 				out[axis] = -1
+			elif ray.d[axis] == 0:
+				# never leaves its slab
+				next_crossing[axis] = np.inf
 
 		# walk through grid
 		any_hit = False
-- 
2.43.0


From b9cf45afd1f9ccc90af13b970a11ca68f289abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 038/172] fix: BVH middle split could leave one side empty and
 fail to build

---
 pytracer/aggregate/accelerator/bvh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 852c5e6..9751c0c 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -117,6 +117,9 @@ class BVH(Aggregate):
 			else:
 				data[i], data[k] = data[k], data[i]
 				k -= 1
+		# the last element has not been looked at
+		if data[k].centroid[dim] < mid:
+			k += 1
 		return k
 
 	@staticmethod
-- 
2.43.0


From 038dba2bf15d5f51bf626755e35f9b60df7f6922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 039/172] fix: BVH crashed creating a leaf of several
 primitives

---
 pytracer/aggregate/accelerator/bvh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 9751c0c..268411c 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -263,7 +263,7 @@ class BVH(Aggregate):
 					else:
 						first = len(ordered_prims)
 						for i in range(start, end):
-							ordered_prims.append(self.primitives[data[i]].prim_idx)
+							ordered_prims.append(self.primitives[data[i].prim_idx])
 						node.init_leaf(first, n_prim, bbox)
 						return node
 
-- 
2.43.0


From 8a4c8f3e354dedfda39bb644de2589bb6f7adcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 040/172] fix: BVH missed everything for rays with a -0.
 direction component

---
 pytracer/aggregate/accelerator/bvh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 268411c..89e8c32 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -328,7 +328,7 @@ class BVH(Aggregate):
 			return False
 		hit = False
 		inv_dir = 1. / ray.d
-		dir_neg = ray.d < 0.
+		dir_neg = inv_dir < 0.
 		
 		todo_idx = 0
 		node_idx = 0
@@ -373,7 +373,7 @@ class BVH(Aggregate):
 			return False
 		origin = ray(ray.mint)
 		inv_dir = 1. / ray.d
-		dir_neg = ray.d < 0.
+		dir_neg = inv_dir < 0.
 
 		todo_idx = 0
 		node_idx = 0
-- 
2.43.0


From 0af77778a90092608f9db6541ee15fa7f5aefae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 041/172] fix: Scene enlarged its aggregate's own bound by the
 volume's

---
 pytracer/scene/scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/scene/scene.py b/pytracer/scene/scene.py
index e81a69e..a8eb6b7 100644
--- a/pytracer/scene/scene.py
+++ b/pytracer/scene/scene.py
@@ -24,7 +24,8 @@ class Scene(object):
 		self.lights = lights
 		self.vr = vr
 
-		self.bound = self.aggregate.world_bound()
+		# a copy, the aggregate keeps using its own bound
+		self.bound = geo.BBox.from_bbox(self.aggregate.world_bound())
 		if self.vr is not None:
 			self.bound.union(vr.world_bound())
 
-- 
2.43.0


From dbd2bdd23597c33bdcd11d7a575f51be08ac0b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 042/172] fix: TransformedPrimitive could not be instantiated

---
 pytracer/aggregate/primitive.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pytracer/aggregate/primitive.py b/pytracer/aggregate/primitive.py
index 8daeae1..9655b5e 100644
--- a/pytracer/aggregate/primitive.py
+++ b/pytracer/aggregate/primitive.py
@@ -141,7 +141,7 @@ class TransformedPrimitive(Primitive):
 		self.w2p = w2p
 
 	def __repr__(self):
-		return super().__repr__(self) + '\n{}'.format(self.prim)
+		return super().__repr__() + '\n{}'.format(self.primitive)
 
 	def intersect(self, r: 'geo.Ray', isect: 'Intersection') -> bool:
 		w2p = self.w2p.interpolate(r.time)
@@ -176,11 +176,17 @@ class TransformedPrimitive(Primitive):
 		return self.w2p.motion_bounds(self.primitive.world_bound(), True)
 
 	def can_intersect(self) -> bool:
-		return self.shape.can_intersect()
+		return True
 
 	def refine(self, refined: ['Primitive']):
-		r = self.shape.refine()
-		for sh in r:
-			refined.append(GeometricPrimitive(sh, self.material, self.areaLight))
+		raise NotImplementedError('{}.refine(): Not implemented'.format(self.__class__))
 
+	# the intersection refers to the instanced primitive
+	def get_area_light(self):
+		return None
 
+	def get_bsdf(self, dg: 'geo.DifferentialGeometry', o2w: 'trans.Transform'):
+		raise RuntimeError('{}.get_bsdf(): Should not be called'.format(self.__class__))
+
+	def get_bssrdf(self, dg: 'geo.DifferentialGeometry', o2w: 'trans.Transform'):
+		raise RuntimeError('{}.get_bssrdf(): Should not be called'.format(self.__class__))
-- 
2.43.0


From 30da096f4dad3303696a7d644a836da9ded58a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 043/172] fix: BVH missed primitives met by a ray running
 within a plane of their bound

---
 pytracer/aggregate/accelerator/bvh.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 89e8c32..f71b87f 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -295,14 +295,19 @@ class BVH(Aggregate):
 		
 		return off
 	
+	@staticmethod
+	def _slab(t0: FLOAT, t1: FLOAT):
+		"""Parametric range of a slab; 0 * inf arises for a ray running within one of its planes."""
+		return -np.inf if np.isnan(t0) else t0, np.inf if np.isnan(t1) else t1
+
 	@staticmethod
 	def _intersect_p(bounds: geo.BBox, ray: geo.Ray, inv_dir: geo.Vector, dir_neg: [bool]) -> bool:
 		# ray intersection against x and y slabs
-		tmin = (bounds[dir_neg[0]].x - ray.o.x) * inv_dir.x
-		tmax = (bounds[1-dir_neg[0]].x - ray.o.x) * inv_dir.x
-		tmin_y = (bounds[dir_neg[1]].y - ray.o.y) * inv_dir.y
-		tmax_y = (bounds[1 - dir_neg[1]].y - ray.o.y) * inv_dir.y
-		
+		tmin, tmax = BVH._slab((bounds[dir_neg[0]].x - ray.o.x) * inv_dir.x,
+		                       (bounds[1 - dir_neg[0]].x - ray.o.x) * inv_dir.x)
+		tmin_y, tmax_y = BVH._slab((bounds[dir_neg[1]].y - ray.o.y) * inv_dir.y,
+		                           (bounds[1 - dir_neg[1]].y - ray.o.y) * inv_dir.y)
+
 		if tmin > tmax_y or tmin_y > tmax:
 			return False
 		if tmin_y > tmin:
@@ -310,8 +315,8 @@ class BVH(Aggregate):
 		if tmax_y < tmax:
 			tmax = tmax_y
 		# z slab
-		tmin_z = (bounds[dir_neg[2]].z - ray.o.z) * inv_dir.z
-		tmax_z = (bounds[1 - dir_neg[2]].z - ray.o.z) * inv_dir.z
+		tmin_z, tmax_z = BVH._slab((bounds[dir_neg[2]].z - ray.o.z) * inv_dir.z,
+		                           (bounds[1 - dir_neg[2]].z - ray.o.z) * inv_dir.z)
 
 		if tmin > tmax_z or tmin_z > tmax:
 			return False
-- 
2.43.0


From 0ba788a6322e5827c3d3ba51b071963c2301b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 044/172] fix: GridAccel of no or extentless primitives could
 not be built

---
 pytracer/aggregate/aggregate.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 6c658bd..62b4ec0 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -182,9 +182,12 @@ class GridAccel(Aggregate):
 		for prim in self.primitives:
 			self.bounds.union(prim.world_bound())
 
-		delta = self.bounds.pMax - self.bounds.pMin
+		if len(self.primitives) == 0:
+			delta = geo.Vector()
+		else:
+			delta = self.bounds.pMax - self.bounds.pMin
 		max_axis = self.bounds.maximum_extent()
-		inv_max_width = 1. / delta[max_axis]
+		inv_max_width = 0. if delta[max_axis] == 0. else 1. / delta[max_axis]
 		cube_root = 3. * np.power(len(self.primitives), 1. / 3.)
 		voxels_per_unit_dist = cube_root * inv_max_width
 
@@ -244,6 +247,9 @@ class GridAccel(Aggregate):
 		return True
 
 	def intersect(self, ray: 'geo.Ray', isect: 'Intersection') -> bool:
+		if len(self.primitives) == 0:
+			return False
+
 		# Check ray aginst overall bounds
 		ray_t = 0.
 		if self.bounds.inside(ray(ray.mint)):
@@ -299,6 +305,9 @@ class GridAccel(Aggregate):
 		return any_hit
 
 	def intersect_p(self, ray: 'geo.Ray') -> bool:
+		if len(self.primitives) == 0:
+			return False
+
 		# Check ray aginst overall bounds
 		ray_t = 0.
 		if self.bounds.inside(ray(ray.mint)):
-- 
2.43.0


From 26af445b88ee35039453e004438cd85396fb51c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 045/172] fix: BVH midpoint split failed on nearly coincident
 centroids

---
 pytracer/aggregate/accelerator/bvh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index f71b87f..ba9e3e2 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -209,6 +209,9 @@ class BVH(Aggregate):
 			if self.split_method == BVH.SplitMethod.MIDDLE:
 				pmid = .5 * (centroid_bounds.pMax[dim] + centroid_bounds.pMin[dim])
 				mid = BVH._partition(data, start, end, pmid, dim)
+				if mid == start or mid == end:
+					# centroids too close to be told apart by their midpoint
+					mid = (start + end) // 2
 
 			else:
 				# surface area heuristic
-- 
2.43.0


From 74c7be46fb211f2c4689963eb51e55550f55aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:44 +0000
Subject: [PATCH 046/172] fix: cameras lerped the sample time over the shutter
 interval a second time

---
 pytracer/camera/environment.py | 2 +-
 pytracer/camera/projective.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/camera/environment.py b/pytracer/camera/environment.py
index 6c97975..44ba2ec 100644
--- a/pytracer/camera/environment.py
+++ b/pytracer/camera/environment.py
@@ -31,7 +31,7 @@ class EnvironmentCamera(Camera):
 		Generate ray based on image sample.
 		Returned ray direction is normalized
 		"""
-		time = util.lerp(sample.time, self.s_open, self.s_close)
+		time = sample.time  # samplers place times within the shutter interval
 
 		# compute ray direction
 		theta = np.pi * sample.imageY / self.film.yResolution
diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 1b9ccb7..fe6e10e 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -106,7 +106,7 @@ class OrthoCamera(ProjectiveCamera):
 			ray.o = geo.Point(lens_u, lens_v, 0.)
 			ray.d = geo.normalize(Pfoc - ray.o)
 
-		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
+		ray.time = sample.time  # samplers place times within the shutter interval
 		ray = self.c2w(ray)
 		return [1., ray]
 
@@ -171,7 +171,7 @@ class PerspectiveCamera(ProjectiveCamera):
 			ray.o = geo.Point(lens_u, lens_v, 0.)
 			ray.d = geo.normalize(Pfoc - ray.o)
 
-		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
+		ray.time = sample.time  # samplers place times within the shutter interval
 		ray = self.c2w(ray)
 		return [1., ray]
 
-- 
2.43.0


From bec9996e213a8684cb289879d02d70664bb01af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:44 +0000
Subject: [PATCH 047/172] fix: EnvironmentCamera passed the time as ray depth

---
 pytracer/camera/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/camera/environment.py b/pytracer/camera/environment.py
index 44ba2ec..6f78525 100644
--- a/pytracer/camera/environment.py
+++ b/pytracer/camera/environment.py
@@ -39,5 +39,5 @@ class EnvironmentCamera(Camera):
 		stheta = np.sin(theta)
 
 		ray = self.c2w(geo.Ray(geo.Point(0., 0., 0.),
-				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, time))
+				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, time=time))
 		return [1., ray]
-- 
2.43.0


From b0bb02b32082082f36a8d58304f698e80fa7c1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:44 +0000
Subject: [PATCH 048/172] fix: Camera.generate_ray_differential shifted blank
 samples

---
 pytracer/camera/camera.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pytracer/camera/camera.py b/pytracer/camera/camera.py
index a11eaa4..4505ddb 100644
--- a/pytracer/camera/camera.py
+++ b/pytracer/camera/camera.py
@@ -54,15 +54,13 @@ class Camera(object, metaclass=ABCMeta):
 		# find ray shift along x
 		from pytracer.sampler import CameraSample
 		
-		xshift = sample.duplicate(1)[0]
-		xshift.imageX += 1
+		xshift = CameraSample(sample.imageX + 1, sample.imageY, sample.lens_u, sample.lens_v, sample.time)
 		wtx, rx = self.generate_ray(xshift)
 		rd.rxOrigin = rx.o
 		rd.rxDirection = rx.d
 
 		# find ray shift along y
-		yshift = sample.duplicate(1)[0]
-		yshift.imageY += 1
+		yshift = CameraSample(sample.imageX, sample.imageY + 1, sample.lens_u, sample.lens_v, sample.time)
 		wty, ry = self.generate_ray(yshift)
 		rd.ryOrigin = ry.o
 		rd.ryDirection = ry.d
-- 
2.43.0


From 2d92453b938505495032ad9a3c56e5165ea5be49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 049/172] fix: concentric_sample_disk mirrored two of its four
 wedges

---
 pytracer/montecarlo/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 6705cdc..f67abaa 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -158,11 +158,11 @@ def concentric_sample_disk(u1: FLOAT, u2: FLOAT) -> [FLOAT, FLOAT]:
 		if sx > sy:
 			# 4
 			r = -sy
-			theta = 6. + sx / sy
+			theta = 6. - sx / sy
 		else:
 			# 3
 			r = -sx
-			theta = 4. - sy / sx
+			theta = 4. + sy / sx
 	theta *= PI / 4.
 
 	return [r * np.cos(theta), r * np.sin(theta)]
-- 
2.43.0


From 1c491d181ffc19bbcd8a36b7bec30dbecb27dd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 050/172] fix: PinholeCamera generated unnormalised directions

---
 pytracer/camera/projective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index fe6e10e..91528f0 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -29,7 +29,7 @@ class PinholeCamera(Camera):
 	def generate_ray(self, sample: 'CameraSample') -> [FLOAT, 'geo.Ray']:
 		p = geo.Point(sample.imageX, sample.imageY, 0.)
 		pp = geo.Point(0., 0., self.focal)
-		d = self.c2w.startTransform(pp - p)
+		d = self.c2w.startTransform(geo.normalize(pp - p))
 		p = self.c2w.startTransform(p)
 		return 1., geo.Ray(p, d)
 
-- 
2.43.0


From 7eb26ef7c661e76407cf18e265344bfb811c118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 051/172] fix: OrthoCamera differentials were transformed to
 world space twice and ignored the lens

---
 pytracer/camera/projective.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 91528f0..c315cb5 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -114,15 +114,19 @@ class OrthoCamera(ProjectiveCamera):
 		"""
 		Generate ray differential.
 		"""
+		if self.lens_rad > 0.:
+			# shifting the film point turns the rays about the lens point
+			return super().generate_ray_differential(sample)
+
 		wt, rd = self.generate_ray(sample)
 		rd = geo.RayDifferential.from_ray(rd)
 
-		# find ray shift along x
-		rd.rxOrigin = rd.o + self.dxCam
-		rd.ryOrigin = rd.o + self.dyCam
-		rd.rxDirection = rd.ryDirection = rd.d
+		# find ray shift along x and y, `rd` is in world space already
+		rd.rxOrigin = rd.o + self.c2w(FLOAT(sample.time), self.dxCam)
+		rd.ryOrigin = rd.o + self.c2w(FLOAT(sample.time), self.dyCam)
+		rd.rxDirection = rd.d.copy()
+		rd.ryDirection = rd.d.copy()
 		rd.has_differentials = True
-		rd = self.c2w(rd)
 
 		return [wt, rd]
 
-- 
2.43.0


From 064be8df86f4ef558463cf272fb01b4ad6859c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 052/172] fix: ImageFilm placed the crop window's first row by
 the x resolution

---
 pytracer/film/film.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/film/film.py b/pytracer/film/film.py
index b0d9c81..38d196d 100644
--- a/pytracer/film/film.py
+++ b/pytracer/film/film.py
@@ -115,7 +115,7 @@ class ImageFilm(Film):
 		# compute film image extent
 		self.xPixel_start = INT(np.ceil(xr * crop[0]))
 		self.xPixel_cnt = np.maximum(1, INT(np.ceil(xr * crop[1])) - self.xPixel_start)
-		self.yPixel_start = INT(np.ceil(xr * crop[2]))
+		self.yPixel_start = INT(np.ceil(yr * crop[2]))
 		self.yPixel_cnt = np.maximum(1, INT(np.ceil(yr * crop[3])) - self.yPixel_start)
 
 		# allocate storage
-- 
2.43.0


From 38124d231a223b758db1990839b261c745d7f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 053/172] fix: write_image could not update a crop window of an
 existing image

---
 pytracer/utility/imageio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index bb9e5df..11fd796 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -81,7 +81,7 @@ def write_image(filename: str, rgb: 'np.ndarray', alpha: 'np.ndarray',
 			img = np.array(pic)
 			pic.close()
 
-			img[xOffset:xOffset+xRes-1, yOffset:yOffset+yRes-1, :] = rgb
+			img[yOffset:yOffset+yRes, xOffset:xOffset+xRes, :] = rgb  # rows first
 			ret = img.copy()
 
 			pic = PIL.Image.fromarray(img, mode="RGB")
-- 
2.43.0


From db6ccdaf27d3673d9ad0ec1122748b470bb5f6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 054/172] fix: write_image rescaled the caller's array

---
 pytracer/utility/imageio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index 11fd796..29459df 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -11,7 +11,7 @@ Modfied on Aug 13, 2017
 import numpy as np
 import PIL.Image
 import os
-from pytracer import INT
+from pytracer import (INT, FLOAT)
 import pytracer.utility.utility as util
 import pytracer.spectral as spec
 
@@ -57,6 +57,7 @@ def write_image(filename: str, rgb: 'np.ndarray', alpha: 'np.ndarray',
 	if filename is None or rgb is None:
 		raise IOError('scr.core.pytracer.write_image(): filename and rgb cannot '
 							'be None')
+	rgb = np.array(rgb, dtype=FLOAT)  # the caller's image is left alone
 	for i in range(3):
 		coef = np.max(rgb[:, :, i])
 		if not coef == 0.:
-- 
2.43.0


From 70801afa61acce3c6a0888cebbb4050999e53136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 055/172] fix: Sampler.compute_subwindow clipped tile fractions
 to pixels and returned fractional windows

---
 pytracer/sampler/sampler/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pytracer/sampler/sampler/__init__.py b/pytracer/sampler/sampler/__init__.py
index e1277d7..7a2b65e 100644
--- a/pytracer/sampler/sampler/__init__.py
+++ b/pytracer/sampler/sampler/__init__.py
@@ -105,10 +105,9 @@ class Sampler(object, metaclass=ABCMeta):
 		# compute x and y pixel sample range
 		x0 = num % nx
 		y0 = num // nx
-		x = np.clip([x0 / nx, (x0 + 1) / nx], self.xPixel_start, self.xPixel_end)
-		y = np.clip([y0 / ny, (y0 + 1) / ny], self.yPixel_start, self.yPixel_end)
-		return np.concatenate([util.ufunc_lerp(x, self.xPixel_start, self.xPixel_end),
-		                       util.ufunc_lerp(y, self.yPixel_start, self.yPixel_end)])
+		# borders are whole pixels, shared by neighbouring tiles
+		return np.array([self.xPixel_start + dx * x0 // nx, self.xPixel_start + dx * (x0 + 1) // nx,
+		                 self.yPixel_start + dy * y0 // ny, self.yPixel_start + dy * (y0 + 1) // ny], dtype=INT)
 
 
 from pytracer.sampler.sampler.stratified import *
\ No newline at end of file
-- 
2.43.0


From 9a926ee3e159f8c5a3ddd0c1003ebdf9fcfd8bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 056/172] fix: RGBSpectrum.create could not build from lists or
 arrays

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index afc93b4..6fd8793 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -580,7 +580,7 @@ class RGBSpectrum(CoefficientSpectrum):
 
 		elif isinstance(arg, Iterable):
 			if np.ndim(arg) == 1 and np.shape(arg)[0] == 3:
-				return np.ndarray(arg).view(cls)
+				return np.array(arg).view(cls)
 
 		raise TypeError('Unsupported type {} for init {}'.format(type(arg), cls))
 
-- 
2.43.0


From 1fe8e1b9a80955a2e99db06062305115b11b3a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 057/172] fix: average_spectrum_samples integrated past
 intervals ending on a sample and edited its arguments

---
 pytracer/spectral/spectrum.py | 47 ++++++-----------------------------
 1 file changed, 8 insertions(+), 39 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index 6fd8793..f0c050d 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -448,47 +448,16 @@ class SampledSpectrum(CoefficientSpectrum):
 		if len(lam) == 1:
 			return v[0]
 
-		v_sum = 0.
-		# constant contributions before/after samples
-		# if end points are partially covered
-		if ls < lam[0]:
-			v_sum += v[0] * (lam[0] - ls)
-		if le > lam[-1]:
-			v_sum += v[-1] * (le - lam[-1])
-
-		# advance to the first and last contributable wavelength
-		idx_lo = np.searchsorted(lam, ls) - 1
-		idx_hi = np.searchsorted(lam, le) # due to np.searchsorted implementation
-
-		if idx_lo >= 0:
-			bk_lam_lo = lam[idx_lo]
-			bk_v_lo = v[idx_lo]
-			v[idx_lo] = util.lerp( (ls - bk_lam_lo) / (lam[idx_lo+1] - bk_lam_lo), v[idx_lo], v[idx_lo+1])
-			lam[idx_lo] = ls			
-		else:
-			idx_lo = 0
-			bk_lam_lo = lam[idx_lo]
-			bk_v_lo = v[idx_lo]
-
-		if idx_hi < len(lam) and lam[idx_hi] != le:
-			bk_lam_hi = lam[idx_hi]
-			bk_v_hi = v[idx_hi]
-			v[idx_hi] = util.lerp((bk_lam_hi - le) / (lam[idx_hi] - lam[idx_hi-1]), v[idx_hi], v[idx_hi-1])
-			lam[idx_hi] = le
-			idx_hi += 1
-		else:
-			idx_hi = len(lam)
-			bk_lam_hi = lam[-1]
-			bk_v_hi = v[-1]
+		lam = np.asarray(lam, dtype=FLOAT)
+		v = np.asarray(v, dtype=FLOAT)
 
-		# integrate using trapezoidal rule
-		v_sum += np.trapz(v[idx_lo:idx_hi], lam[idx_lo:idx_hi])
+		# knots of the curve within the interval, `np.interp` extends
+		# the end values to both sides
+		inner = (lam > ls) & (lam < le)
+		knots = np.concatenate([[ls], lam[inner], [le]])
 
-		# clean-up
-		lam[idx_lo] = bk_lam_lo
-		lam[idx_hi-1] = bk_lam_hi
-		v[idx_lo] = bk_v_lo
-		v[idx_hi-1] = bk_v_hi
+		# integrate using trapezoidal rule
+		v_sum = np.trapz(np.interp(knots, lam, v), knots)
 
 		return v_sum / (le - ls)
 
-- 
2.43.0


From 9cefc789a88586e8e0ac868ba57e42337cec76ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 058/172] fix: SampledSpectrum.from_sampled used wrong band
 ends

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index f0c050d..6b7a266 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -421,7 +421,7 @@ class SampledSpectrum(CoefficientSpectrum):
 		self = cls()
 		for i in range(N_SPECTRAL_SAMPLES):
 			l0 = util.lerp(i / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
-			l1 = util.lerp(i+1 / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
+			l1 = util.lerp((i + 1) / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
 			self[i] = cls.average_spectrum_samples(lam, v, l0, l1)
 
 		return self
-- 
2.43.0


From cfeab8ababbf26181a99694592fee8a5260ed293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 059/172] fix: SampledSpectrum.from_rgb mixed the wrong basis
 spectra unless red was smallest

---
 pytracer/spectral/spectrum.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index 6b7a266..db6dfa0 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -471,9 +471,9 @@ class SampledSpectrum(CoefficientSpectrum):
 			if lo == 0:
 				spec = [cls.rgbRefl2SpectCyan, cls.rgbRefl2SpectGreen, cls.rgbRefl2SpectBlue]
 			elif lo == 1:
-				spec = [cls.rgbRefl2SpectMagenta, cls.rgbRefl2SpectRed, cls.rgbRefl2SpectBlue]
+				spec = [cls.rgbRefl2SpectRed, cls.rgbRefl2SpectMagenta, cls.rgbRefl2SpectBlue]
 			else:
-				spec = [cls.rgbRefl2SpectYellow, cls.rgbRefl2SpectRed, cls.rgbRefl2SpectGreen]
+				spec = [cls.rgbRefl2SpectRed, cls.rgbRefl2SpectGreen, cls.rgbRefl2SpectYellow]
 
 			self += rgb[lo] * cls.rgbRefl2SpectWhite
 			self += (rgb[me] - rgb[lo]) * spec[lo]
@@ -486,9 +486,9 @@ class SampledSpectrum(CoefficientSpectrum):
 			if lo == 0:
 				spec = [cls.rgbIllum2SpectCyan, cls.rgbIllum2SpectGreen, cls.rgbIllum2SpectBlue]
 			elif lo == 1:
-				spec = [cls.rgbIllum2SpectMagenta, cls.rgbIllum2SpectRed, cls.rgbIllum2SpectBlue]
+				spec = [cls.rgbIllum2SpectRed, cls.rgbIllum2SpectMagenta, cls.rgbIllum2SpectBlue]
 			else:
-				spec = [cls.rgbIllum2SpectYellow, cls.rgbIllum2SpectRed, cls.rgbIllum2SpectGreen]
+				spec = [cls.rgbIllum2SpectRed, cls.rgbIllum2SpectGreen, cls.rgbIllum2SpectYellow]
 
 			self += rgb[lo] * cls.rgbIllum2SpectWhite
 			self += (rgb[me] - rgb[lo]) * spec[lo]
-- 
2.43.0


From ff0099964de15cae473a643f819d20373984401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 060/172] fix: negative spectra counted as black

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index db6dfa0..ec89870 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -184,7 +184,7 @@ class CoefficientSpectrum(np.ndarray, metaclass=ABCMeta):
 		Test whether the spectrum has
 		zeros of SPD everywhere
 		"""
-		return (self < EPS).all()
+		return (np.abs(self) < EPS).all()
 
 	def sqrt(self) -> 'CoefficientSpectrum':
 		"""
-- 
2.43.0


From d1de1b47f5e7db0a300d6b8ae7a1c66b5e164072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 061/172] fix: Distribution1D of an all-zero function sampled
 NaN

---
 pytracer/montecarlo/distribution.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index d780b72..fd8677e 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -39,7 +39,11 @@ class Distribution1D(object):
 
 		# transform step function into CDF
 		self.cdf_raw = self.cdf[-1]
-		self.cdf /= self.cdf_raw
+		if self.cdf_raw == 0.:
+			# nothing to prefer, sample uniformly
+			self.cdf = np.arange(self.cnt + 1) / FLOAT(self.cnt)
+		else:
+			self.cdf /= self.cdf_raw
 
 	def __repr__(self):
 		return "{}\nSteps: {}\n".format(self.__class__, self.cnt)
@@ -62,7 +66,7 @@ class Distribution1D(object):
 
 		# compute pdf for sampled offset
 		# and r.v. value
-		return [(du + off) / self.cnt, self.func[off] / self.cdf_raw]
+		return [(du + off) / self.cnt, self.func[off] / self.cdf_raw if self.cdf_raw != 0. else 1.]
 
 	def sample_dis(self, u: FLOAT) -> [FLOAT, FLOAT]:
 		"""
@@ -77,7 +81,7 @@ class Distribution1D(object):
 		idx = np.searchsorted(self.cdf, u) - 1
 		off = max(0, idx)
 
-		return [off, self.func[off] / (self.cdf_raw * self.cnt)]
+		return [off, self.func[off] / (self.cdf_raw * self.cnt) if self.cdf_raw != 0. else 1. / self.cnt]
 
 
 class Distribution2D(object):
-- 
2.43.0


From a20775b87356de86bcacd6f8a03bfea86fd232de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 062/172] fix: Distribution1D sampled a leading zero step for u
 = 0

---
 pytracer/montecarlo/distribution.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index fd8677e..d5243d0 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -58,8 +58,9 @@ class Distribution1D(object):
 		pdf: [rv, pdf].
 		"""
 		# surrounding CDF segment
-		idx = np.searchsorted(self.cdf, u) - 1
-		off = max(0, idx)
+		# a step on which the CDF does not rise is never sampled
+		idx = np.searchsorted(self.cdf, u, side='right') - 1
+		off = min(max(0, idx), self.cnt - 1)
 
 		# compute offset
 		du = (u - self.cdf[off]) / (self.cdf[off + 1] - self.cdf[off])
@@ -78,8 +79,9 @@ class Distribution1D(object):
 		pdf: [rv, pdf].
 		"""
 		# surrounding CDF segment
-		idx = np.searchsorted(self.cdf, u) - 1
-		off = max(0, idx)
+		# a step on which the CDF does not rise is never sampled
+		idx = np.searchsorted(self.cdf, u, side='right') - 1
+		off = min(max(0, idx), self.cnt - 1)
 
 		return [off, self.func[off] / (self.cdf_raw * self.cnt) if self.cdf_raw != 0. else 1. / self.cnt]
 
-- 
2.43.0


From c3e6f2b5a1ba95e0be4293aa347349205b06abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 063/172] fix: Distribution2D.sample_cont returned the row
 index instead of v

---
 pytracer/montecarlo/distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index d5243d0..d668aa4 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -126,9 +126,9 @@ class Distribution2D(object):
 		Returns [[u, v], pdf]
 		"""
 		v, pdf1 = self.p_marg_v.sample_cont(u1)
-		v = np.clip(util.ftoi(v * self.p_marg_v.cnt), 0, self.p_marg_v.cnt - 1).astype(INT)
+		row, _ = self.p_marg_v.sample_dis(u1)
 
-		u, pdf0 = self.p_cond_v[v].sample_cont(u0)
+		u, pdf0 = self.p_cond_v[row].sample_cont(u0)
 
 		return [[u, v], pdf0 * pdf1]
 
-- 
2.43.0


From 0bdc1c77c72532e08985482483855605e484d091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 064/172] fix: volume regions intersected their local extent
 with the world ray

---
 pytracer/volume/volume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 2a13f79..7465f5a 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -138,7 +138,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 	def sigma_a(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self.sig_a if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
@@ -301,7 +301,7 @@ class VolumeGridDensity(DensityRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 
 class ExponentialDensity(DensityRegion):
@@ -331,7 +331,7 @@ class ExponentialDensity(DensityRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 
 class AggregateVolume(VolumeRegion):
-- 
2.43.0


From cb4af7c2feabc4d889f754f9c081c82e1df72d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 065/172] fix: volume regions passed the time as phase function
 asymmetry

---
 pytracer/volume/volume.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 7465f5a..1c9c7e8 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -157,7 +157,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 		if not self.extent.inside(self.w2v(pnt)):
 			return 0.
 		from pytracer.volume.utility import phase_hg
-		return phase_hg(wi, wo, tm)
+		return phase_hg(wi, wo, self.g)
 
 	def tau(self, ray: 'geo.Ray', step: FLOAT=1., offset: FLOAT=.5) ->  'Spectrum':
 		isec, t0, t1 = self.intersect_p(ray)
@@ -210,7 +210,7 @@ class DensityRegion(VolumeRegion):
 		Does not scale the phase function.
 		"""
 		from pytracer.volume.utility import phase_hg
-		return phase_hg(w, wp, tm)
+		return phase_hg(w, wp, self.g)
 
 	def sigma_t(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self(self.w2v(pnt)) * (self.sig_a + self.sig_s)
-- 
2.43.0


From 5fce608e2cd9de8d14a488d31aea123f494f7ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 066/172] fix: DensityRegion.tau passed the time as ray depth

---
 pytracer/volume/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 1c9c7e8..f82647f 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -222,7 +222,7 @@ class DensityRegion(VolumeRegion):
 		if length == 0.:
 			return tau
 
-		rn = geo.Ray(r.o, r.d / length, r.mint * length, r.maxt * length, r.time)
+		rn = geo.Ray(r.o, r.d / length, r.mint * length, r.maxt * length, time=r.time)
 		hit, t0, t1 = self.intersect_p(rn)
 		if not hit:
 			return tau
-- 
2.43.0


From 41fa846cba07e21273925eb0b510601193d6488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 067/172] fix: DensityRegion.tau lacked the default step of the
 region interface

---
 pytracer/volume/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index f82647f..1cb25cc 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -215,7 +215,7 @@ class DensityRegion(VolumeRegion):
 	def sigma_t(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self(self.w2v(pnt)) * (self.sig_a + self.sig_s)
 
-	def tau(self, r: 'geo.Ray', step_size: FLOAT, u: FLOAT) -> 'Spectrum':
+	def tau(self, r: 'geo.Ray', step_size: FLOAT=1., u: FLOAT=.5) -> 'Spectrum':
 		tau = Spectrum(0.
 			)
 		length = r.d.length()
-- 
2.43.0


From 73fc26deb323c133d36b0364abacd055e2357cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 068/172] fix: VolumeGridDensity could not be built or
 evaluated

---
 pytracer/volume/volume.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 1cb25cc..c1c4b22 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -243,18 +243,13 @@ class VolumeGridDensity(DensityRegion):
 	"""
 	def __init__(self, sig_a: 'Spectrum', sig_s: 'Spectrum', g: FLOAT, le: 'Spectrum',
 					extent: 'geo.BBox', v2w: 'trans.Transform', d: 'np.ndarray'):
-		super().__init__()
-		self.sig_a = sig_a
-		self.sig_s = sig_s
-		self.g = g
-		self.le = le
+		super().__init__(sig_a, sig_s, g, le, v2w)
 		self.extent = extent
-		self.w2v = v2w.inverse()
 		self.density = d.copy() 	# 3D np array of densities in [z][y][x] order
 
 	@property
 	def nx(self):
-		return np.shape(self.density)[0]
+		return np.shape(self.density)[2]
 
 	@property
 	def ny(self):
@@ -262,10 +257,10 @@ class VolumeGridDensity(DensityRegion):
 
 	@property
 	def nz(self):
-		return np.shape(self.density)[2]
+		return np.shape(self.density)[0]
 
 	def __D(self, x: INT, y: INT, z: INT) -> FLOAT:
-		x, y, z = np.clip([x, y, z], 0, np.shape(self.density) - 1).astype(INT)
+		x, y, z = np.clip([x, y, z], 0, [self.nx - 1, self.ny - 1, self.nz - 1]).astype(INT)
 		return self.density[z][y][x]
 	
 	def __call__(self, pnt: 'geo.Point') -> FLOAT:
@@ -274,7 +269,7 @@ class VolumeGridDensity(DensityRegion):
 
 		# compute voxel coordinates and offsets
 		vox = self.extent.offset(pnt)
-		vox *= np.shape(self.density)
+		vox *= [self.nx, self.ny, self.nz]
 		vox -= .5
 		vx = util.ftoi(vox.x)
 		vy = util.ftoi(vox.y)
-- 
2.43.0


From ee239a6f82547b8f3294337ee9c4ec709614f871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 069/172] fix: AggregateVolume.lve called a spectrum

---
 pytracer/volume/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index c1c4b22..101e4b7 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -363,7 +363,7 @@ class AggregateVolume(VolumeRegion):
 	def lve(self, pnt: 'geo.Point', w: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		s = Spectrum(0.)
 		for region in self.regions:
-			s += region.le(pnt, w, tm)
+			s += region.lve(pnt, w, tm)
 		return s		
 
 	def p(self, pnt: 'geo.Point', wi: 'geo.Vector', wo: 'geo.Vector', tm: FLOAT) ->  FLOAT:
-- 
2.43.0


From 5cb2594e9c51df1fa15fa16b3b2057dc7820f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 070/172] fix: AggregateVolume.p added up the phase functions

---
 pytracer/volume/volume.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 101e4b7..b482274 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -367,10 +367,14 @@ class AggregateVolume(VolumeRegion):
 		return s		
 
 	def p(self, pnt: 'geo.Point', wi: 'geo.Vector', wo: 'geo.Vector', tm: FLOAT) ->  FLOAT:
-		s = Spectrum(0.)
+		# mixture of the regions by their scattering
+		ph = sum_wt = 0.
 		for region in self.regions:
-			s += region.p(pnt, wi, wo, tm)
-		return s		
+			wt = region.sigma_s(pnt, wi, tm).y()
+			if wt != 0.:
+				sum_wt += wt
+				ph += wt * region.p(pnt, wi, wo, tm)
+		return ph / sum_wt if sum_wt != 0. else 0.
 
 	def tau(self, ray: 'geo.Ray', step: FLOAT=1., offset: FLOAT=.5) ->  'Spectrum':
 		s = Spectrum(0.)
-- 
2.43.0


From 9cff7d419abfbf71e31e1d79ec8e931a739ba887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 071/172] fix: phase_schlick cancelled its denominator

---
 pytracer/volume/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/utility.py b/pytracer/volume/utility.py
index 46af7f3..712bcdd 100644
--- a/pytracer/volume/utility.py
+++ b/pytracer/volume/utility.py
@@ -49,7 +49,7 @@ def phase_hg(w: 'geo.Vector', wp: 'geo.Vector', g: FLOAT) -> FLOAT:
 def phase_schlick(w: 'geo.Vector', wp: 'geo.Vector', g: FLOAT) -> FLOAT:
 	k = 1.55 * g - .55 * g * g * g
 	kct = k * w.dot(wp)
-	return ((1. - k * k) / (1. - kct) * (1. - kct)) / (4. * PI);
+	return ((1. - k * k) / ((1. - kct) * (1. - kct))) / (4. * PI);
 
 
 # Utility Functions
-- 
2.43.0


From e9781774670ba02fa13f3c99620e0c3c7adf4706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 072/172] fix: BSSRDF could not be printed

---
 pytracer/volume/bssrdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/bssrdf.py b/pytracer/volume/bssrdf.py
index 58ddccd..a774052 100644
--- a/pytracer/volume/bssrdf.py
+++ b/pytracer/volume/bssrdf.py
@@ -29,7 +29,7 @@ class BSSRDF(object):
 
 	def __repr__(self):
 		return "{}\nEta: {} sigma_a: {} sigma'_s: {}\n".format(self.__class__,
-						self.__sig_a, self.__sigp_s)
+						self.__e, self.__sig_a, self.__sigp_s)
 
 	@property
 	def eta(self):
-- 
2.43.0


From 42d580db537c03b22bf2022ca35a7c21f1e3e515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 073/172] fix: world bounds of rotated volume regions left
 parts of them outside

---
 pytracer/volume/volume.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index b482274..b6ddd37 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -15,6 +15,16 @@ __all__ = ['VolumeRegion', 'DensityRegion', 'HomogeneousVolumeDensity',
            'VolumeGridDensity', 'ExponentialDensity', 'AggregateVolume']
 
 
+def _extent_bound(v2w: 'trans.Transform', extent: 'geo.BBox') -> 'geo.BBox':
+	# bound the images of all corners, the transformation may rotate
+	ret = geo.BBox()
+	for x in (extent.pMin.x, extent.pMax.x):
+		for y in (extent.pMin.y, extent.pMax.y):
+			for z in (extent.pMin.z, extent.pMax.z):
+				ret.union(v2w(geo.Point(x, y, z)))
+	return ret
+
+
 # Volume Interface
 class VolumeRegion(object, metaclass=ABCMeta):
 	"""
@@ -133,7 +143,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.w2v.inverse()(self.extent)
+		return _extent_bound(self.w2v.inverse(), self.extent)
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
@@ -291,7 +301,7 @@ class VolumeGridDensity(DensityRegion):
 
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.w2v.inverse()(self.extent)
+		return _extent_bound(self.w2v.inverse(), self.extent)
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
@@ -321,7 +331,7 @@ class ExponentialDensity(DensityRegion):
 		return self.a * np.exp(-self.b * h)
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.w2v.inverse()(self.extent)
+		return _extent_bound(self.w2v.inverse(), self.extent)
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
-- 
2.43.0


From 8ee169932f41e9ecd7a061a5a4bac9c0abdb318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 074/172] fix: ScaledBDF read a missing attribute

---
 pytracer/reflection/bdf/bdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index ead8b4a..ca9a467 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -214,16 +214,16 @@ class ScaledBDF(BDF):
 		self.s = sc
 
 	# scale by spectrum
-	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.s * self.brdf.f(wo, wi)
+	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.s * self.bdf.f(wo, wi)
 
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT, u2: FLOAT):
-		pdf, wi, f = self.brdf.sample_f(wo, u1, u2)
+		pdf, wi, f = self.bdf.sample_f(wo, u1, u2)
 		return pdf, wi, self.s * f
 
-	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.s * self.brdf.rho_hd(wo, samples)
+	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.s * self.bdf.rho_hd(wo, samples)
 
 	def rho_hh(self, nSamples: INT, samples_1: [FLOAT],
-					samples_2: [FLOAT]): return self.s * self.brdf.rho_hh(nSamples, samples_1, samples_2)
+					samples_2: [FLOAT]): return self.s * self.bdf.rho_hh(nSamples, samples_1, samples_2)
 
 
 class SpecularReflection(BDF):
-- 
2.43.0


From d9ac2d4e5eafd6422e4f348fc936359a3055d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 075/172] fix: ScaledBDF reported the cosine density for every
 model

---
 pytracer/reflection/bdf/bdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index ca9a467..76d4793 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -216,6 +216,8 @@ class ScaledBDF(BDF):
 	# scale by spectrum
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.s * self.bdf.f(wo, wi)
 
+	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.bdf.pdf(wo, wi)
+
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT, u2: FLOAT):
 		pdf, wi, f = self.bdf.sample_f(wo, u1, u2)
 		return pdf, wi, self.s * f
-- 
2.43.0


From 83c2edd2d18359e9eda0a338f6be544edc84d4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 076/172] fix: BRDF2BTDF reported the density of the reflection

---
 pytracer/reflection/bdf/bdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 76d4793..7f4af57 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -190,6 +190,8 @@ class BRDF2BTDF(BDF):
 	# forward function calls
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.brdf.f(wo, self.switch(wi))
 
+	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.brdf.pdf(wo, self.switch(wi))
+
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT,  u2: FLOAT):
 		pdf, wi, f = self.brdf.sample_f(wo, u1, u2)
 		return pdf, self.switch(wi), f
-- 
2.43.0


From feeaf7d7c350a1765d7ee5df8a91f6a9d1cafbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 077/172] fix: an empty BDFType mask was true

---
 pytracer/reflection/bdf/bdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 7f4af57..6239024 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -36,6 +36,9 @@ class BDFType():
 	def __repr__(self):
 		return "{}\nEnum: {}".format(self.__class__, self.v)
 
+	def __bool__(self):
+		return bool(self.v)
+
 	def __invert__(self):
 		return BDFType(~self.v)
 
-- 
2.43.0


From 61a6a9bcb2d16abcdb65ad1f92e4d773bffacff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 078/172] fix: fr_diel divided the parallel amplitude by the
 wrong sum

---
 pytracer/reflection/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/reflection/utility.py b/pytracer/reflection/utility.py
index 419fdb5..0163a9e 100644
--- a/pytracer/reflection/utility.py
+++ b/pytracer/reflection/utility.py
@@ -51,7 +51,7 @@ def fr_diel(cos_i: FLOAT, cos_t: FLOAT, eta_i: 'Spectrum', eta_t: 'Spectrum') ->
 	dielectric materials and circularly polarized light
 	"""
 	r_para = ((eta_t * cos_i ) - (eta_i * cos_t)) / \
-				((eta_t * cos_i) + (eta_t * cos_t))
+				((eta_t * cos_i) + (eta_i * cos_t))
 	r_perp = ((eta_i * cos_i) - (eta_t * cos_t)) / \
 				((eta_i * cos_i) + (eta_t * cos_t))
 	return .5 * (r_para * r_para + r_perp * r_perp)
-- 
2.43.0


From e342c439cb5f13a1bfc059510d4564474941144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 079/172] fix: Microfacet was negative for directions on
 opposite sides

---
 pytracer/reflection/bdf/torrance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/reflection/bdf/torrance.py b/pytracer/reflection/bdf/torrance.py
index 0da86c2..17c4893 100644
--- a/pytracer/reflection/bdf/torrance.py
+++ b/pytracer/reflection/bdf/torrance.py
@@ -198,8 +198,8 @@ class Microfacet(BDF):
 		self.distribution = d
 
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector') -> 'Spectrum':
-		ct_i = cos_theta(wi)
-		ct_o = cos_theta(wo)
+		ct_i = abs_cos_theta(wi)
+		ct_o = abs_cos_theta(wo)
 
 		if ct_i == 0. or ct_o == 0.:
 			return Spectrum(0.)
-- 
2.43.0


From 4478749e0c215f022052f65c519472f161abd620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 080/172] fix: SpecularTransmission refracted with the indices
 of the two sides exchanged

---
 pytracer/reflection/bdf/bdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 6239024..9a50c20 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -292,7 +292,8 @@ class SpecularTransmission(BDF):
 	             u2: FLOAT) -> [FLOAT, 'geo.Vector', 'Spectrum']:
 		# find eta pair
 		ei, et = self.ei, self.et
-		if cos_theta(wo) > 0.:
+		if cos_theta(wo) < 0.:
+			# ray is on the inside
 			ei, et = et, ei
 
 		# compute transmited ray direction
@@ -310,7 +311,7 @@ class SpecularTransmission(BDF):
 
 		F = self.fresnel(cos_theta(wo))
 
-		return [1., wi, (et * et) / (ei * ei) * (Spectrum(1.) - F) * \
+		return [1., wi, (ei * ei) / (et * et) * (Spectrum(1.) - F) * \
 		        self.T / abs_cos_theta(wi)]  # 1. suggests no MC samples needed
 
 
-- 
2.43.0


From 4b8ff859b4e970eb60e562dc51767bd46c240b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 081/172] fix: BSDF could not be printed

---
 pytracer/reflection/bsdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/reflection/bsdf.py b/pytracer/reflection/bsdf.py
index 49c322a..1e98253 100644
--- a/pytracer/reflection/bsdf.py
+++ b/pytracer/reflection/bsdf.py
@@ -95,7 +95,7 @@ class BSDF(object):
 
 	def __repr__(self):
 		return "{}\nBDF Count: {}\ngeo.Point: {}".format(self.__class__,
-		                                                 self.nBDF, self.dgs.p)
+		                                                 self.n_BDF, self.dgs.p)
 
 	def sample_f(self, wo_w: 'geo.Vector', bsdf_smp: 'BSDFSample',
 	             flags: 'BDFType') -> [FLOAT, 'geo.Vector', 'BDFType' 'Spectrum']:
-- 
2.43.0


From 800bc5b31e1d1a0a71f85b82c5e028ff513faea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 082/172] fix: BSDF.l2w was not the inverse of w2l

---
 pytracer/reflection/bsdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/reflection/bsdf.py b/pytracer/reflection/bsdf.py
index 1e98253..e4bc216 100644
--- a/pytracer/reflection/bsdf.py
+++ b/pytracer/reflection/bsdf.py
@@ -200,9 +200,9 @@ class BSDF(object):
 		Transform a `geo.Vector` in the local system
 		to the world system
 		"""
-		return geo.Vector(self.sn.x * v.x + self.tn.x * v.x + self.nn.x * v.x,
-		                  self.sn.y * v.y + self.tn.y * v.y + self.nn.y * v.y,
-		                  self.sn.z * v.z + self.tn.z * v.z + self.nn.z * v.z)
+		return geo.Vector(self.sn.x * v.x + self.tn.x * v.y + self.nn.x * v.z,
+		                  self.sn.y * v.x + self.tn.y * v.y + self.nn.y * v.z,
+		                  self.sn.z * v.x + self.tn.z * v.y + self.nn.z * v.z)
 
 	def f(self, wo_w: 'geo.Vector', wi_w: 'geo.Vector', flags: 'BDFType' = BDFType.ALL) -> 'Spectrum':
 		wi = self.w2l(wi_w)
-- 
2.43.0


From e0604e436bd978c4a452fc4e5039f849a39bc0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 083/172] fix: BSDF.rho_hd handed the world direction to its
 components

---
 pytracer/reflection/bsdf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytracer/reflection/bsdf.py b/pytracer/reflection/bsdf.py
index e4bc216..631d686 100644
--- a/pytracer/reflection/bsdf.py
+++ b/pytracer/reflection/bsdf.py
@@ -232,6 +232,7 @@ class BSDF(object):
 		from pytracer.sampler import stratified_sample_2d
 		nSamples = sqrt_samples * sqrt_samples
 		smp = stratified_sample_2d(sqrt_samples, sqrt_samples, rng=rng)
+		wo = self.w2l(wo)
 
 		sp = Spectrum(0.)
 		for bdf in self.bdfs:
-- 
2.43.0


From 109ff90242a3052d1177ed6812424f5e11d848eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:58 +0000
Subject: [PATCH 084/172] fix: SpecularTransmission returned no spectrum on
 total internal reflection

---
 pytracer/reflection/bdf/bdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 9a50c20..b04bec7 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -302,7 +302,7 @@ class SpecularTransmission(BDF):
 		st_sq = eta * eta * si_sq
 
 		if st_sq >= 1.:
-			return [0., None, None]
+			return [0., None, Spectrum(0.)]
 
 		ct = np.sqrt(max(0., 1. - st_sq))
 		if cos_theta(wo) > 0.:
-- 
2.43.0


From c21854e3cb73571b453f4d6fb30e004aa3ae8531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 085/172] fix: IrIsotropicBRDF could not be evaluated with a
 list of samples

---
 pytracer/reflection/bdf/measured.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/reflection/bdf/measured.py b/pytracer/reflection/bdf/measured.py
index 1c19ca7..0fead32 100644
--- a/pytracer/reflection/bdf/measured.py
+++ b/pytracer/reflection/bdf/measured.py
@@ -56,7 +56,8 @@ class IrIsotropicBRDF(BDF):
 			if len(idx) > 2 or max_dist > 1.5:
 				sum_wt = 0.
 				v = Spectrum(0.)
-				for sample in self.data[idx]:
+				for i in idx:
+					sample = self.data[i]
 					wt = np.exp((sample.p - m).sq_length() * -100.)
 					sum_wt += wt
 					v += sample.v * wt
-- 
2.43.0


From 8f4a05eebc45f54ec8abfcb1e9b4526fd50c4e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 086/172] fix: ReHalfangleBRDF looked almost every pair up in
 the first cell

---
 pytracer/reflection/bdf/measured.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/reflection/bdf/measured.py b/pytracer/reflection/bdf/measured.py
index 0fead32..7803d86 100644
--- a/pytracer/reflection/bdf/measured.py
+++ b/pytracer/reflection/bdf/measured.py
@@ -101,9 +101,9 @@ class ReHalfangleBRDF(BDF):
 		wdp = geo.spherical_phi(wd)
 		if wdp > PI:
 			wdp -= PI
-		wht_idx = np.clip(INT((np.sqrt(max(0., t / (PI / 2.)))) / self.nThetaH), 0, self.nThetaH - 1)
+		wht_idx = np.clip(INT(np.sqrt(max(0., t / (PI / 2.))) * self.nThetaH), 0, self.nThetaH - 1)
 
-		wdt_idx = np.clip(INT(wdt / (self.nThetaD * PI)), 0, self.nThetaD - 1)
+		wdt_idx = np.clip(INT(wdt / (PI / 2.) * self.nThetaD), 0, self.nThetaD - 1)
 
-		wdp_idx = np.clip(INT(wdp / (self.nPhiD * PI)), 0, self.nPhiD - 1)
+		wdp_idx = np.clip(INT(wdp / PI * self.nPhiD), 0, self.nPhiD - 1)
 		return Spectrum.from_rgb(self.brdf[wht_idx][wdt_idx][wdp_idx])
-- 
2.43.0


From 2262a53f7484aade74f986e09c193b169fd0791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 087/172] fix: a measured material loaded a second time had no
 samples

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 456e7fd..a546bb3 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -431,7 +431,7 @@ class MeasuredMaterial(Material):
 		if ext == '.brdf' or ext == '.BRDF':
 			if file in IrIsotropicData:
 				# already read
-				self.theta_phi_sample, self.theta_phi_tree = IrIsotropicData[file]
+				self.theta_phi_samples, self.theta_phi_tree = IrIsotropicData[file]
 				return
 
 			# read file
-- 
2.43.0


From ef69cb505e36981e22d5943df464a9b8a3011687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 088/172] fix: measured materials of equal file names in
 different directories shared their data

---
 pytracer/material/material.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index a546bb3..9bc9beb 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -429,9 +429,10 @@ class MeasuredMaterial(Material):
 
 		# Irregular Sampled Isotropic BRDF
 		if ext == '.brdf' or ext == '.BRDF':
-			if file in IrIsotropicData:
+			key = os.path.abspath(filename)
+			if key in IrIsotropicData:
 				# already read
-				self.theta_phi_samples, self.theta_phi_tree = IrIsotropicData[file]
+				self.theta_phi_samples, self.theta_phi_tree = IrIsotropicData[key]
 				return
 
 			# read file
@@ -482,7 +483,7 @@ class MeasuredMaterial(Material):
 
 			self.theta_phi_samples = np.array(samples, dtype=object)
 			self.theta_phi_tree = KdTree(tree_data)
-			IrIsotropicData[file] = [self.theta_phi_samples, self.theta_phi_tree]
+			IrIsotropicData[key] = [self.theta_phi_samples, self.theta_phi_tree]
 
 		elif ext == '.binary':
 			# Regular Halfangle BRDF
-- 
2.43.0


From 710358de93e2a65227c024afa8c5f033a2497bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 089/172] fix: noise() dropped the offset of every gradient
 with a negated first part

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index dbe61bf..7e1499e 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -108,7 +108,7 @@ def _grad(x: INT, y: INT, z: INT, dx, dy, dz):
 	u = dx if h < 8 or h == 12 or h == 13 else dy
 	v = dy if h < 4 or h == 12 or h == 13 else dz
 	if h & 1:
-		u = -1
+		u = -u
 	if h & 2:
 		v = -v
 	return u + v
-- 
2.43.0


From 999d1556abb5ed9b47bc2f1cbfe412eb15385224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 090/172] fix: noise() interpolated the far face of a cell with
 the weight of z in y

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 7e1499e..da75b2c 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -160,7 +160,7 @@ def noise(pnt: 'geo.Point') -> FLOAT:
 	x01 = util.lerp(wx, w001, w101)
 	x11 = util.lerp(wx, w011, w111)
 	y0 = util.lerp(wy, x00, x10)
-	y1 = util.lerp(wz, x01, x11)
+	y1 = util.lerp(wy, x01, x11)
 	return util.lerp(wz, y0, y1)
 
 
-- 
2.43.0


From 6c810101c88eb2b7ff9fa864187c028c57373b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 091/172] fix: FBm() with a whole octave added to the builtin
 sum

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index da75b2c..923924e 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -66,7 +66,7 @@ def FBm(p: 'geo.Point', dpdx: 'geo.Vector', dpdy: 'geo.Vector', omega: FLOAT, ma
 	l = 1.
 	o = 1.
 	for i in range(octaves):
-		sum += o * noise(l * p)
+		s += o * noise(l * p)
 		l *= 1.99  # not 2, since noise() returns 0. at integral grids
 		o *= omega
 	par = foct - octaves
-- 
2.43.0


From 453cf6ed5b7df5421bcdf165b6077ca18701a25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 092/172] fix: smooth_step() clipped to the range without
 normalising to it

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 923924e..ae58b82 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -46,7 +46,7 @@ def smooth_step(lo: FLOAT, hi: FLOAT, val: FLOAT):
 
 	Clip but with smooth interpolation
 	"""
-	v = np.clip(val, lo, hi)
+	v = np.clip((val - lo) / (hi - lo), 0., 1.)
 	return v * v * (3. - 2. * v)
 
 
-- 
2.43.0


From 425e148ae6bf74f79ae02236f1f7f5d30658dd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 093/172] fix: FBm() and turbulence() added aliased noise under
 large footprints

---
 pytracer/texture/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index ae58b82..85627ae 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -58,7 +58,7 @@ def FBm(p: 'geo.Point', dpdx: 'geo.Vector', dpdy: 'geo.Vector', omega: FLOAT, ma
 	"""
 	# number of octaves
 	s2 = max(dpdx.sq_length(), dpdy.sq_length())
-	foct = min(max_octaves, 1. - .5 * np.log2(s2))
+	foct = max(0., min(max_octaves, 1. - .5 * np.log2(s2)))
 	octaves = util.ftoi(foct)
 
 	# sum of octaves of noise
@@ -83,7 +83,7 @@ def turbulence(p: 'geo.Point', dpdx: 'geo.Vector', dpdy: 'geo.Vector', omega: FL
 	"""
 	# number of octaves
 	s2 = max(dpdx.sq_length(), dpdy.sq_length())
-	foct = min(max_octaves, 1. - .5 * np.log2(s2))
+	foct = max(0., min(max_octaves, 1. - .5 * np.log2(s2)))
 	octaves = util.ftoi(foct)
 
 	# sum of octaves
-- 
2.43.0


From 89019298325ca39206a6a54dade8c68494934426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 094/172] fix: spherical and cylindrical mappings took dtdy
 against s

---
 pytracer/texture/texturemap/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/texturemap/__init__.py b/pytracer/texture/texturemap/__init__.py
index e79113b..549b9e4 100644
--- a/pytracer/texture/texturemap/__init__.py
+++ b/pytracer/texture/texturemap/__init__.py
@@ -84,7 +84,7 @@ class SphericalMapping2D(TextureMapping2D):
 
 		sy, ty = self.__sphere(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - s) / delta
+		dtdy = (ty - t) / delta
 		if dtdy > .5:
 			dtdy = 1. - dtdy
 		elif dtdy < -.5:
@@ -123,7 +123,7 @@ class CylindricalMapping2D(TextureMapping2D):
 
 		sy, ty = self.__cylinder(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - s) / delta
+		dtdy = (ty - t) / delta
 		if dtdy > .5:
 			dtdy = 1. - dtdy
 		elif dtdy < -.5:
-- 
2.43.0


From d129e5091fd84d9d746cfb5efdc5a994f31e271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 095/172] fix: CylindricalMapping2D could not map any point

---
 pytracer/texture/texturemap/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/texturemap/__init__.py b/pytracer/texture/texturemap/__init__.py
index 549b9e4..3749900 100644
--- a/pytracer/texture/texturemap/__init__.py
+++ b/pytracer/texture/texturemap/__init__.py
@@ -104,7 +104,7 @@ class CylindricalMapping2D(TextureMapping2D):
 		[s, t].
 		"""
 		v = geo.normalize(self.w2t(p) - geo.Point(0., 0., 0.))
-		return [(PI + self.arctan2(v.y, v.x)) * INV_2PI, v.z]
+		return [(PI + np.arctan2(v.y, v.x)) * INV_2PI, v.z]
 
 	def __call__(self, dg: 'geo.DifferentialGeometry') -> [FLOAT]:
 		s, t = self.__cylinder(dg.p)
-- 
2.43.0


From 94d9f4eed66abe37015a9f99b4fba3a376b3fd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 096/172] fix: differentials of angular texture mappings were
 wrong across the seam and where they are large

---
 pytracer/texture/texturemap/__init__.py | 40 +++++++++++++++----------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/pytracer/texture/texturemap/__init__.py b/pytracer/texture/texturemap/__init__.py
index 3749900..ffd8705 100644
--- a/pytracer/texture/texturemap/__init__.py
+++ b/pytracer/texture/texturemap/__init__.py
@@ -76,19 +76,23 @@ class SphericalMapping2D(TextureMapping2D):
 
 		sx, tx = self.__sphere(dg.p + delta * dg.dpdx)
 		dsdx = (sx - s) / delta
-		dtdx = (tx - t) / delta
+		# t is periodic: take the nearer way around
+		dtdx = tx - t
 		if dtdx > .5:
-			dtdx = 1. - dtdx
+			dtdx -= 1.
 		elif dtdx < -.5:
-			dtdx = -(dtdx + 1.)
+			dtdx += 1.
+		dtdx /= delta
 
 		sy, ty = self.__sphere(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - t) / delta
+		# t is periodic: take the nearer way around
+		dtdy = ty - t
 		if dtdy > .5:
-			dtdy = 1. - dtdy
+			dtdy -= 1.
 		elif dtdy < -.5:
-			dtdy = -(dtdy + 1.)
+			dtdy += 1.
+		dtdy /= delta
 
 		return [s, t, dsdx, dtdx, dsdy, dtdy]
 
@@ -114,20 +118,24 @@ class CylindricalMapping2D(TextureMapping2D):
 		delta = .1
 
 		sx, tx = self.__cylinder(dg.p + delta * dg.dpdx)
-		dsdx = (sx - s) / delta
 		dtdx = (tx - t) / delta
-		if dtdx > .5:
-			dtdx = 1. - dtdx
-		elif dtdx < -.5:
-			dtdx = -(dtdx + 1.)
+		# s is periodic: take the nearer way around
+		dsdx = sx - s
+		if dsdx > .5:
+			dsdx -= 1.
+		elif dsdx < -.5:
+			dsdx += 1.
+		dsdx /= delta
 
 		sy, ty = self.__cylinder(dg.p + delta * dg.dpdy)
-		dsdy = (sy - s) / delta
 		dtdy = (ty - t) / delta
-		if dtdy > .5:
-			dtdy = 1. - dtdy
-		elif dtdy < -.5:
-			dtdy = -(dtdy + 1.)
+		# s is periodic: take the nearer way around
+		dsdy = sy - s
+		if dsdy > .5:
+			dsdy -= 1.
+		elif dsdy < -.5:
+			dsdy += 1.
+		dsdy /= delta
 
 		return [s, t, dsdx, dtdx, dsdy, dtdy]
 
-- 
2.43.0


From 28ba8181a48c0d0bc2f6ae63764b9bb7b94f7b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 097/172] fix: antialiased checkerboard weighted its textures
 wrongly

---
 pytracer/texture/texture/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index e186e38..2b089bf 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -169,14 +169,14 @@ class Chekcerboard2DTexture(Texture):
 			# util.ftoi(x / 2) + 2. * max(x / 2 - util.ftoi(x / 2) -.5, 0)
 			si = ((util.ftoi(s1 / 2) + 2. * max(s1 / 2 - util.ftoi(s1 / 2) - .5, 0)) -
 				  (util.ftoi(s0 / 2) + 2. * max(s0 / 2 - util.ftoi(s0 / 2) - .5, 0))) / \
-				 (2. * ds)
+				 (2. * ds) if ds > 0. else util.ftoi(s) % 2
 			ti = ((util.ftoi(t1 / 2) + 2. * max(t1 / 2 - util.ftoi(t1 / 2) - .5, 0)) -
 				  (util.ftoi(t0 / 2) + 2. * max(t0 / 2 - util.ftoi(t0 / 2) - .5, 0))) / \
-				 (2. * dt)
-			area_sq = si * ti - 2. * si * ti
+				 (2. * dt) if dt > 0. else util.ftoi(t) % 2
+			area_sq = si + ti - 2. * si * ti
 			if ds > 1. or dt > 1.:
 				area_sq = .5
-			return (1. - area_sq * self.tex1(dg)) + area_sq * self.tex2(dg)
+			return (1. - area_sq) * self.tex1(dg) + area_sq * self.tex2(dg)
 
 
 class Checkboard3DTexture(Texture):
-- 
2.43.0


From 4af424e519aafd7988121df36ab4d094b619c1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 098/172] fix: DotsTexture could not be evaluated

---
 pytracer/texture/texture/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index 2b089bf..1aab619 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -217,11 +217,11 @@ class DotsTexture(Texture):
 		from pytracer.texture.utility import noise
 
 		# return insidedot result if inside
-		if noise(sc + .5 , tc + .5) > 0. :
+		if noise([sc + .5, tc + .5, .5]) > 0. :
 			rad = .35
 			max_shift = .5 - rad
-			s_ctr = sc + max_shift * noise(sc + 1.5, tc + 2.8)
-			t_ctr = tc + max_shift * noise(sc + 4.5, tc + 9.8)
+			s_ctr = sc + max_shift * noise([sc + 1.5, tc + 2.8, .5])
+			t_ctr = tc + max_shift * noise([sc + 4.5, tc + 9.8, .5])
 			ds = s - s_ctr
 			dt = t - t_ctr
 			if ds * ds + dt * dt < rad * rad:
-- 
2.43.0


From cd77bf98060317a22817a82daeca511e7520269a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 099/172] fix: DotsTexture dropped the value inside a dot

---
 pytracer/texture/texture/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index 1aab619..02954d3 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -226,7 +226,7 @@ class DotsTexture(Texture):
 			dt = t - t_ctr
 			if ds * ds + dt * dt < rad * rad:
 				# inside
-				self.inside_dot(dg)
+				return self.inside_dot(dg)
 
 
 		return self.outside_dot(dg)
-- 
2.43.0


From a0d8a5a2d03e2583f5169567448ae724d763a28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 100/172] fix: MarbleTexture could not be evaluated

---
 pytracer/texture/texture/__init__.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index 02954d3..d8e90ac 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -295,7 +295,7 @@ class MarbleTexture(Texture):
 	spline = [  [ .58, .58, .6 ], [ .58, .58, .6 ], [ .58, .58, .6 ],
 				[ .5, .5, .5 ], [ .6, .59, .58 ], [ .58, .58, .6 ],
 				[ .58, .58, .6 ], [.2, .2, .33 ], [ .58, .58, .6 ], ]
-	spline_num = INT(27)
+	spline_num = INT(9)
 	def __init__(self, octaves: INT, roughness: FLOAT, scale: FLOAT, var: FLOAT, mapping: 'TextureMapping3D'):
 		self.octaves = octaves
 		self.omega = roughness
@@ -308,17 +308,15 @@ class MarbleTexture(Texture):
 		p, dpdx, dpdy = self.mapping(dg)
 		p *= self.scale
 		marble = p.y + self.var * FBm(p, self.scale * dpdx, self.scale * dpdy, self.omega, self.octaves)
-		wind = FBm(.1 * p, .1 * dpdx, .1 * dpdy, .5, 3)
-		wave = FBm(p, dpdx, dpdy, .5, 6)
-		t = .5 * .5 * np.sin(marble)
+		t = .5 + .5 * np.sin(marble)
 
 		# evaluate marble spline at $t$
-		fst = util.ftoi(t * self.spline_num - 3)
+		fst = min(util.ftoi(t * (self.spline_num - 3)), self.spline_num - 4)
 		t = t * (self.spline_num - 3) - fst
-		c0 = Spectrum.from_rgb(self.spline[fst:fst + 3])
-		c1 = Spectrum.from_rgb(self.spline[fst + 1:fst + 4])
-		c2 = Spectrum.from_rgb(self.spline[fst + 2:fst + 5])
-		c3 = Spectrum.from_rgb(self.spline[fst + 3:fst + 6])
+		c0 = Spectrum.from_rgb(self.spline[fst])
+		c1 = Spectrum.from_rgb(self.spline[fst + 1])
+		c2 = Spectrum.from_rgb(self.spline[fst + 2])
+		c3 = Spectrum.from_rgb(self.spline[fst + 3])
 
 		# Bezier spline evaluated with de Castilejau's algorithm
 		s0 = (1. - t) * c0 + t * c1
-- 
2.43.0


From 07e8f0a2f50499df01ed422b42922d8b30a380e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 101/172] fix: ScaleTexture was not exported

---
 pytracer/texture/texture/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index d8e90ac..85fab02 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -331,7 +331,7 @@ class MarbleTexture(Texture):
 
 from pytracer.texture.texture.image import ImageTexture
 
-__all__ = ['Texture', 'ImageTexture', 'ConstantTexture', 'SpectrumType', 'MixTexture',
+__all__ = ['Texture', 'ImageTexture', 'ConstantTexture', 'ScaleTexture', 'MixTexture',
            'BilerpTexture', 'UVTexture', 'Chekcerboard2DTexture', 'Checkboard3DTexture',
            'DotsTexture', 'FBmTexture', 'WrinkledTexture', 'WindyTexture', 'MarbleTexture']
 
-- 
2.43.0


From 85af04ed9074ace9b47fe5ebf93c7aa857ae4192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 102/172] fix: MIPMap could not hold levels of plain numbers

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 85627ae..b4a39c8 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -282,7 +282,7 @@ class MIPMap(object):
 
 		# init levels of MIPMap
 		self.__n_levels = 1 + INT(np.log2(max(sres, tres)))
-		self.__pyramid = np.empty(self.__n_levels, dtype=self.typename)
+		self.__pyramid = np.empty(self.__n_levels, dtype=object)
 		# most detailed level
 		self.__pyramid[0] = img if resampled is None else resampled
 
-- 
2.43.0


From 7aca7a1f20edf4f19cc9cb9a3a635a56711ca300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 103/172] fix: MIPMap mixed up the axes of its image between
 levels

---
 pytracer/texture/utility.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index b4a39c8..893f094 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -223,7 +223,7 @@ class MIPMap(object):
 		self.max_aniso = max_aniso
 		self.wrap = wrap
 
-		sres, tres = img.shape[0:2]
+		tres, sres = img.shape[0:2]  # rows run along t
 
 		resampled = None
 
@@ -288,7 +288,7 @@ class MIPMap(object):
 
 		for i in range(1, self.__n_levels):
 			# bottom-up init
-			u, v = self.__pyramid[i - 1].shape[0:2]
+			v, u = self.__pyramid[i - 1].shape[0:2]
 			s_res = max(1, UINT(u // 2))
 			t_res = max(1, UINT(v // 2))
 			self.__pyramid[i] = np.empty([t_res, s_res], dtype=object)
@@ -308,7 +308,7 @@ class MIPMap(object):
 
 	def texel(self, level: UINT, s: INT, t: INT):
 		l = self.__pyramid[level]
-		u, v = l.shape[0:2]
+		v, u = l.shape[0:2]
 		# compute texel (s, t)
 		if self.wrap == ImageWrap.REPEAT:
 			s = s % u
@@ -320,7 +320,7 @@ class MIPMap(object):
 			if s < 0 or s >= u or t < 0 or t >= v:
 				return self.typename(0.)
 
-		return l[s, t].view(self.typename)
+		return l[t, s].view(self.typename)
 
 	@property
 	def width(self):
@@ -336,7 +336,7 @@ class MIPMap(object):
 
 	def __triangle(self, level: UINT, s: FLOAT, t: FLOAT):
 		level = np.clip(level, 0, self.__n_levels - 1)
-		s, t = np.array([s, t]) * self.__pyramid[level].shape[0:2] - .5
+		s, t = np.array([s, t]) * self.__pyramid[level].shape[1::-1] - .5
 		s0, t0 = util.ftoi(s), util.ftoi(t)
 		ds = s - s0
 		dt = t - t0
@@ -349,7 +349,7 @@ class MIPMap(object):
 		if level >= self.__n_levels:
 			return self.texel(self.__n_levels - 1, 0, 0)
 		# convert EWA coord to proper scale for level
-		u, v = self.__pyramid[level].shape[0:2]
+		v, u = self.__pyramid[level].shape[0:2]
 		s = s * u - .5
 		t = t * v - .5
 		ds0 *= u
-- 
2.43.0


From 84be31d4548c27507a02e46b11a6ff90cd8bdfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 104/172] fix: MIPMap could not resample an image of three
 channels, and truncated one of integers

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 893f094..2e7d393 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -256,7 +256,7 @@ class MIPMap(object):
 							resampled[t, s] += s_wts[s][1 + j] * img[t, orig_s]
 			## t
 			t_wts = MIPMap.resample(tres, tp)
-			t_tmp = np.zeros(tp, dtype=img.dtype)
+			t_tmp = np.zeros(tp, dtype=resampled.dtype)
 			for s in range(sp):
 				for t in range(tp):
 					# (s, t) in s-zoomed image
-- 
2.43.0


From 0444a5a262f517e2a6186608fc0a36aa14b7e293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 105/172] fix: MIPMap handed out its own texels, and none of
 plain numbers

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 2e7d393..7ea7947 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -320,7 +320,7 @@ class MIPMap(object):
 			if s < 0 or s >= u or t < 0 or t >= v:
 				return self.typename(0.)
 
-		return l[t, s].view(self.typename)
+		return self.typename(l[t, s])
 
 	@property
 	def width(self):
-- 
2.43.0


From ba9132ba9aadcf9dc5005c03f939f330bb7a45ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 106/172] fix: MIPMap darkened the coarse levels of non-square
 images with black borders

---
 pytracer/texture/utility.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 7ea7947..f72ea4f 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -293,12 +293,14 @@ class MIPMap(object):
 			t_res = max(1, UINT(v // 2))
 			self.__pyramid[i] = np.empty([t_res, s_res], dtype=object)
 			for t in range(t_res):
+				t1 = min(2 * t + 1, v - 1)  # a single row or column is its own neighbour
 				for s in range(s_res):
+					s1 = min(2 * s + 1, u - 1)
 					self.__pyramid[i][t, s] = \
 						.25 * (self.texel(i - 1, 2 * s, 2 * t) +
-						       self.texel(i - 1, 2 * s + 1, 2 * t) +
-						       self.texel(i - 1, 2 * s, 2 * t + 1) +
-						       self.texel(i - 1, 2 * s + 1, 2 * t + 1))
+						       self.texel(i - 1, s1, 2 * t) +
+						       self.texel(i - 1, 2 * s, t1) +
+						       self.texel(i - 1, s1, t1))
 
 				# init EVA filter weighted if needed
 		if MIPMap.weight_lut is None:
-- 
2.43.0


From bb54e1d4d46cd5778ccbd903242bedf02c173acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 107/172] fix: MIPMap darkened lookups wider than the image
 with black borders

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index f72ea4f..ea5276a 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -429,7 +429,7 @@ class MIPMap(object):
 			if level < 0:
 				return self.__triangle(0, s, t)
 			elif level >= self.__n_levels - 1:
-				return self.__triangle(self.__n_levels, 0, 0)
+				return self.texel(self.__n_levels - 1, 0, 0)
 			else:
 				i_level = util.ftoi(level)
 				delta = level - i_level
-- 
2.43.0


From 84fbefb0df51d17169a95861afe80927f6048faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 108/172] fix: MIPMap could not be looked up anisotropically

---
 pytracer/texture/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index ea5276a..2a367f8 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -377,7 +377,7 @@ class MIPMap(object):
 		det = -B * B + 4. * A * C
 		invDet = 1. / det
 		u_sq = np.sqrt(det * C)
-		v_sq = np.srqt(det * A)
+		v_sq = np.sqrt(det * A)
 		s0 = util.ctoi(s - 2. * invDet * u_sq)
 		s1 = util.ftoi(s + 2. * invDet * u_sq)
 		t0 = util.ctoi(t - 2. * invDet * v_sq)
@@ -394,7 +394,7 @@ class MIPMap(object):
 				r2 = A * ss * ss + B * ss * tt + C * tt * tt
 				if r2 < 1.:
 					# inside
-					wt = MIPMap.weight_lut[min(r2 * MIPMap.weight_lut_size, MIPMap.weight_lut_size - 1)]
+					wt = MIPMap.weight_lut[min(INT(r2 * MIPMap.weight_lut_size), MIPMap.weight_lut_size - 1)]
 					ret += self.texel(level, si, ti) * wt
 					sum_wt += wt
 
-- 
2.43.0


From d4d2163f280746b6fa672f045d6734dec57c697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 109/172] fix: MIPMap stretched parts of both axes where it
 clamps the eccentricity of a filter

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 2a367f8..346d593 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -452,8 +452,8 @@ class MIPMap(object):
 			# clamp eccentricity if too large
 			if minor_len * self.max_aniso < major_len and minor_len > 0.:
 				scale = major_len / (minor_len * self.max_aniso)
-				ds0 *= scale
 				ds1 *= scale
+				dt1 *= scale
 				minor_len *= scale
 
 			if minor_len == 0.:
-- 
2.43.0


From 19e3a1d44fb4ab2297c1ff614aa3cbe0ecfd4297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 110/172] fix: MIPMap.resample() did not refuse a coarser
 resolution

---
 pytracer/texture/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 346d593..b6f4d32 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -193,8 +193,8 @@ class MIPMap(object):
 	@staticmethod
 	def resample(ores: UINT, nres: UINT) -> ['SampleWeight']:
 		if ores > nres:
-			RuntimeError('src.core.texture.{}.resample(): New resolution should '
-			             'be greater than the old one, abort resampling.'.format(ores, nres))
+			raise RuntimeError('src.core.texture.{}.resample(): New resolution should '
+			             'be greater than the old one, abort resampling.'.format(MIPMap))
 		fil_width = 2.
 		wts = np.zeros([nres, 5], dtype=FLOAT)
 
-- 
2.43.0


From 67f14c02646e379d54180d74f617e04b9eb75976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 111/172] fix: ImageTexture could not load an image that is not
 square

---
 pytracer/texture/texture/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index db243a5..68fa997 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -132,7 +132,7 @@ class ImageTexture(Texture):
 
 		try:
 			texels = iio.read_image(filename)
-			width, height = texels.shape[0:2]
+			height, width = texels.shape[0:2]
 		except:
 			print('{}.get_texture(): cannot process file {}, '
 			      'use default one-valued MIPMap'.format(self.__class__, filename))
-- 
2.43.0


From a6a3a49ba380e7c552d8452bb9f3fd1873ec9eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 112/172] fix: ImageTexture of spectra could not be evaluated

---
 pytracer/texture/texture/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index 68fa997..ff4fc95 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -109,9 +109,9 @@ class ImageTexture(Texture):
 
 		# print(type(texel), type(type_ret))
 		# return Spectrum.from_rgb(texel)
-		if isinstance(texel, 'RGBSpectrum') and \
+		if isinstance(texel, spec.RGBSpectrum) and \
 						type_ret is Spectrum:
-			return Spectrum.from_rgb(texel.toRGB())
+			return Spectrum.from_rgb(texel.to_rgb())
 		elif (isinstance(texel, float) or isinstance(texel, FLOAT)) and \
 						type_ret is (float or FLOAT):
 			return texel
-- 
2.43.0


From 7fa0942d2b2e21384512d745255c4b5f05065fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 113/172] fix: ImageTexture of numbers could not be loaded or
 evaluated with either float type

---
 pytracer/texture/texture/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index ff4fc95..26fbe1d 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -94,7 +94,7 @@ class ImageTexture(Texture):
 						type_mem is spec.RGBSpectrum:
 			return spec.RGBSpectrum( (scale * texel) ** gamma )
 		elif isinstance(texel, np.ndarray) and \
-						type_mem is (FLOAT or float):
+						type_mem in (FLOAT, float):
 			return (scale * spec.RGBSpectrum(texel).y()) ** gamma
 		else:
 			raise TypeError('src.core.texture.ImageTexture.__convert__in__: '
@@ -113,7 +113,7 @@ class ImageTexture(Texture):
 						type_ret is Spectrum:
 			return Spectrum.from_rgb(texel.to_rgb())
 		elif (isinstance(texel, float) or isinstance(texel, FLOAT)) and \
-						type_ret is (float or FLOAT):
+						type_ret in (float, FLOAT):
 			return texel
 		else:
 			raise TypeError('src.core.texture.ImageTexture.__convert__in__: '
-- 
2.43.0


From fbaaee7ffafce338da595f1b44157121807ab0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 114/172] fix: ImageTexture of an unreadable file raised
 instead of being one-valued

---
 pytracer/texture/texture/image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index 26fbe1d..b2d8dfc 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -149,7 +149,8 @@ class ImageTexture(Texture):
 
 		else:
 			# one-valued MIPMap
-			val = [[self.power(scale, gamma)]]
+			val = np.empty([1, 1], dtype=object)
+			val[0, 0] = self.type_mem(scale ** gamma)
 			ret = MIPMap(self.type_mem, val)
 
 		ImageTexture.textures[tex_info] = ret
-- 
2.43.0


From 0cbf490227dd19a2fc36f58c8d46600625bb21d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 115/172] fix: image textures of one file with different
 storage types shared their data

---
 pytracer/texture/texture/image.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index b2d8dfc..4f73f7e 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -38,13 +38,14 @@ class ImageTexture(Texture):
 		"""
 
 		def __init__(self, filename: str, trilinear: bool, max_aniso: FLOAT, wrap: 'ImageWrap',
-		             scale: FLOAT, gamma: FLOAT):
+		             scale: FLOAT, gamma: FLOAT, type_mem: type=None):
 			self.filename = filename
 			self.trilinear = trilinear
 			self.max_aniso = max_aniso
 			self.wrap = wrap
 			self.scale = scale
 			self.gamma = gamma
+			self.type_mem = type_mem
 
 		def __repr__(self):
 			return "{}\nFilename: {}\nTrilinear: {}\nMax Aniso: {}, Wrap: {}\nScale: {}, Gamma: {}" \
@@ -53,7 +54,7 @@ class ImageTexture(Texture):
 
 		def __hash__(self):
 			return hash((self.filename, self.trilinear, self.max_aniso, self.wrap,
-			             self.scale, self.gamma))
+			             self.scale, self.gamma, self.type_mem))
 
 		def __eq__(self, other):
 			return (self.filename == other.filename) and \
@@ -61,7 +62,8 @@ class ImageTexture(Texture):
 			       (self.max_aniso == other.max_aniso) and \
 			       (self.wrap == other.wrap) and \
 			       (self.scale == other.scale) and \
-			       (self.gamma == other.gamma)
+			       (self.gamma == other.gamma) and \
+			       (self.type_mem == other.type_mem)
 
 		def __ne__(self, other):
 			return not (self == other)
@@ -126,7 +128,7 @@ class ImageTexture(Texture):
 	def get_texture(self, filename: str, trilinear: bool, max_aniso: FLOAT,
 	                wrap: 'ImageWrap', scale: FLOAT, gamma: FLOAT) -> 'MIPMap':
 		# look in the cache
-		tex_info = ImageTexture.TexInfo(filename, trilinear, max_aniso, wrap, scale, gamma)
+		tex_info = ImageTexture.TexInfo(filename, trilinear, max_aniso, wrap, scale, gamma, self.type_mem)
 		if tex_info in ImageTexture.textures:
 			return ImageTexture.textures[tex_info]
 
-- 
2.43.0


From 2313dff539d9452b8a145bf5e0df94557b1451fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 116/172] fix: ImageTexture.TexInfo could not be printed

---
 pytracer/texture/texture/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index 4f73f7e..e5fe6d2 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -49,7 +49,7 @@ class ImageTexture(Texture):
 
 		def __repr__(self):
 			return "{}\nFilename: {}\nTrilinear: {}\nMax Aniso: {}, Wrap: {}\nScale: {}, Gamma: {}" \
-				.format(self.__class__, self.trilinear, self.max_aniso, self.wrap, self.scale,
+				.format(self.__class__, self.filename, self.trilinear, self.max_aniso, self.wrap, self.scale,
 			            self.gamma)
 
 		def __hash__(self):
-- 
2.43.0


From abc6ef2cb13a901268fd81303dd4c0777e9f1e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:11 +0000
Subject: [PATCH 117/172] fix: bump mapping could not be computed

---
 pytracer/material/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 9bc9beb..4b4de48 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -87,8 +87,8 @@ class Material(object, metaclass=ABCMeta):
 		dg = dgs.copy()
 
 		# geo.Vector * geo.Normal -> geo.Vector
-		dg.dpdu = dgs.dpdu + (u_disp - disp) / du * dgs.nn + disp * geo.Vector.fromNormal(dgs.dndu)
-		dg.dpdv = dgs.dpdv + (v_disp - disp) / dv * dgs.nn + disp * geo.Vector.fromNormal(dgs.dndv)
+		dg.dpdu = dgs.dpdu + (u_disp - disp) / du * dgs.nn + disp * geo.Vector.from_arr(dgs.dndu)
+		dg.dpdv = dgs.dpdv + (v_disp - disp) / dv * dgs.nn + disp * geo.Vector.from_arr(dgs.dndv)
 		dg.nn = geo.Normal.from_arr(geo.normalize(dg.dpdu.cross(dg.dpdv)))
 		if dgs.shape.ro ^ dgs.shape.transform_swaps_handedness:
 			dg.nn *= -1.
-- 
2.43.0


From b9b1831ce26ab5f5d75d8870938e4c59717502bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:11 +0000
Subject: [PATCH 118/172] fix: bump mapping without a footprint divided by zero
 in v

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 4b4de48..f1f6d3d 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -72,7 +72,7 @@ class Material(object, metaclass=ABCMeta):
 
 		# shift du in v
 		dv = .5 * (np.fabs(dgs.dvdx) + np.fabs(dgs.dvdy))
-		if dv == 0.1:
+		if dv == 0.:
 			dv = 0.01
 		dg.p = dgs.p + dv * dgs.dpdv
 		dg.u = dgs.u
-- 
2.43.0


From 1feeea97d4ab95a1100a1877f5a43f3b7abd8385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:11 +0000
Subject: [PATCH 119/172] fix: MixMaterial could not be evaluated

---
 pytracer/material/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index f1f6d3d..77e80ea 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -392,9 +392,9 @@ class MixMaterial(Material):
 		s1 = self.scale(dg_s).clip()
 		s2 = (Spectrum(1.) - s1).clip()
 
-		for i, b in b1.bdfs:
+		for i, b in enumerate(b1.bdfs):
 			b1.bdfs[i] = ScaledBDF(b, s1)
-		for i, b in b2.bdfs:
+		for b in b2.bdfs:
 			b1.push_back(ScaledBDF(b, s2))
 
 		return b1
-- 
2.43.0


From 6625912591e10a2e1e3b228efa06246a03083e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:11 +0000
Subject: [PATCH 120/172] fix: SubsurfaceMaterial could not be evaluated

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 77e80ea..824cf3f 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -547,7 +547,7 @@ class SubsurfaceMaterial(Material):
 			dgs = Material.bump(self.bump_map, dg_g, dg_s)
 		else:
 			dgs = dg_s.copy()
-		util.clip(R = self.kr(dgs))
+		R = util.clip(self.kr(dgs))
 		bsdf = BSDF(dgs, dg_g.nn)
 
 		if not util.is_black(R):
-- 
2.43.0


From 79ad1f2f3410e7b6cf88ee4ea4f5964ee4aa0b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:11 +0000
Subject: [PATCH 121/172] fix: PlasticMaterial reflected as if seen from inside
 the plastic

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 824cf3f..c512a90 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -176,7 +176,7 @@ class PlasticMaterial(Material):
 		# diffuse
 		kd = self.Kd(dgs).clip()
 		diff = Lambertian(kd)
-		fresnel = FresnelDielectric(1.5, 1.)
+		fresnel = FresnelDielectric(1., 1.5)
 
 		# glossy specular
 		ks = self.Ks(dgs).clip()
-- 
2.43.0


From c2515d6f8539a4e72881c42f6730265be8a9325e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:11 +0000
Subject: [PATCH 122/172] fix: UberMaterial reflected and refracted as if seen
 from inside

---
 pytracer/material/material.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index c512a90..9ce9ee4 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -348,18 +348,18 @@ class UberMaterial(Material):
 		e = self.eta(dgs)
 		ks = op * self.Ks(dgs).clip()
 		if not ks.is_black():
-			fresnel = FresnelDielectric(e, 1.)
+			fresnel = FresnelDielectric(1., e)
 			rough = self.roughness(dgs)
 			bsdf.push_back(Microfacet(ks, fresnel,Blinn(1. / rough)))
 
 		kr = op * self.Kr(dgs).clip()
 		if not kr.is_black():
-			fresnel = FresnelDielectric(e, 1.)
+			fresnel = FresnelDielectric(1., e)
 			bsdf.push_back(SpecularReflection(kr, fresnel))
 
 		kt = op * self.Kt(dgs).clip()
 		if not kt.is_black():
-			bsdf.push_back(SpecularTransmission(kt, e, 1.))
+			bsdf.push_back(SpecularTransmission(kt, 1., e))
 
 		return bsdf
 
-- 
2.43.0


From 681ef1da2c41ed5afd0838bb68f40684a780e0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:50 +0000
Subject: [PATCH 123/172] fix: bump mapping could not orient the normal it
 computed

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 9ce9ee4..23e0ead 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -94,7 +94,7 @@ class Material(object, metaclass=ABCMeta):
 			dg.nn *= -1.
 
 		# orient shding normal to match goemtric normal
-		dg.nn = geo.face_forward(dg.nn, dgg.nn)
+		dg.nn = geo.face_forward(dg.nn, geo.Vector.from_arr(dgg.nn))
 
 		return dg
 
-- 
2.43.0


From ae35ade98ac34f9562c95b95e74df7c9c5d6d704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 124/172] fix: the power of a light could not be asked for

---
 pytracer/light/light.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index ecc0966..906567f 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -81,7 +81,6 @@ class Light(object, metaclass=ABCMeta):
 		raise NotImplementedError('src.core.light.{}.pdf(): abstract method '
 									'called'.format(self.__class__)) 		
 
-	@property
 	@abstractmethod
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
@@ -144,7 +143,6 @@ class PointLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return 4. * PI * self.intensity
 
@@ -207,7 +205,6 @@ class SpotLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -316,7 +313,6 @@ class ProjectionLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -401,7 +397,6 @@ class GonioPhotometricLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return 4. * PI * self.intensity * Spectrum(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
 
@@ -451,7 +446,6 @@ class DistantLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -539,7 +533,6 @@ class DiffuseAreaLight(Light):
 
 
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return self.emit * self.area * PI
 
@@ -677,7 +670,6 @@ class InfiniteAreaLight(Light):
 
 		return [ray, Ns, pdf, Spectrum.from_rgb(self.radMap.look_up([uv[0], uv[1]]), SpectrumType.ILLUMINANT)]
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		_, rad = scene.world_bound().bounding_sphere()
 		return PI * rad * rad * Spectrum.from_rgb(self.radMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
-- 
2.43.0


From 166891634dd9ecef7412b89ab7ee8a98215716d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 125/172] fix: sampling a ray leaving a light failed, its time
 was stored as its depth

---
 pytracer/light/light.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 906567f..e214b4c 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -136,8 +136,8 @@ class PointLight(Light):
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
-						0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+						0., np.inf, time=time)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity]
 
@@ -198,8 +198,8 @@ class SpotLight(Light):
 		
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
-		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__falloff(ray.d)]
 
@@ -306,8 +306,8 @@ class ProjectionLight(Light):
 		
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
-		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__projection(ray.d)]
 
@@ -390,8 +390,8 @@ class GonioPhotometricLight(Light):
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
-						0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+						0., np.inf, time=time)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity * self.__scale(ray.d)]
 
@@ -439,8 +439,8 @@ class DistantLight(Light):
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
-		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time=time)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = 1. / (PI * rad * rad)
 		return [ray, Ns, pdf, self.l]
 
@@ -525,7 +525,7 @@ class DiffuseAreaLight(Light):
 		di = mc.uniform_sample_sphere(u1, u2)
 		if di.dot(Ns) < 0.:
 			di *= -1.
-		ray = geo.Ray(org, di, EPS, np.inf, time)
+		ray = geo.Ray(org, di, EPS, np.inf, time=time)
 		pdf = self.shape_set.pdf(org) * INV_2PI
 		return [ray, Ns, pdf, self.l(org, Ns, di)]
 
@@ -650,7 +650,7 @@ class InfiniteAreaLight(Light):
 		sp = np.sin(phi)
 		cp = np.cos(phi)
 		d = -self.l2w(geo.Vector(st * cp, st * sp, ct))
-		Ns = geo.Normal.fromVector(d)
+		Ns = geo.Normal.from_arr(d)
 
 		# choose point on disk oriented towards light
 		ctr, rad = scene.world_bound().bounding_sphere()
@@ -659,7 +659,7 @@ class InfiniteAreaLight(Light):
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
-		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time)
+		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time=time)
 
 		# compute pdf
 		dir_pdf = pdf / (2. * PI * PI * st)
-- 
2.43.0


From a9a52bb4d5d058e7636a4e2495cbf8ab17a571e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 126/172] fix: spot, projection and goniophotometric lights
 divided by their falloff and ignored the distance

---
 pytracer/light/light.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index e214b4c..c356b99 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -191,7 +191,7 @@ class SpotLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__falloff(-wi), wi, pdf, vis]
+		return [self.intensity * self.__falloff(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -299,7 +299,7 @@ class ProjectionLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__projection(-wi), wi, pdf, vis]
+		return [self.intensity * self.__projection(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -385,7 +385,7 @@ class GonioPhotometricLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__scale(-wi), wi, pdf, vis]
+		return [self.intensity * self.__scale(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
-- 
2.43.0


From bf5577b1b78714b469e27201fd5b04672c6a9ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 127/172] fix: projection and goniophotometric lights never
 showed their image

---
 pytracer/light/light.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index c356b99..fe2526c 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -233,13 +233,13 @@ class ProjectionLight(Light):
 		# create a MIPMap
 		try:
 			import pytracer.utility.imageio as iio
-			texels = iio.read_image(texname)
-			width, height = np.shape(texels)
+			texels = iio.read_image(texname).astype(FLOAT)
+			height, width = texels.shape[0:2]
 		except:
 			print('src.core.texture.{}.get_texture(): cannot process file {}, '
 					'use default one-valued MIPMap'.format(self.__class__, texname))
 			texels = None
-			width, height = 0, 0
+			width, height = 1, 1
 
 		if texels is not None:
 			from pytracer.texture import MIPMap
@@ -291,7 +291,7 @@ class ProjectionLight(Light):
 
 		s = (pl.x - self.scr_x0) / (self.scr_x1 - self.scr_x0)
 		t = (pl.y - self.scr_y0) / (self.scr_y1 - self.scr_y0)
-		return Spectrum(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT) 
+		return Spectrum.from_rgb(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -321,8 +321,9 @@ class ProjectionLight(Light):
 		diagonal of the image, scaled
 		by the average intensity.
 		"""
-		return Spectrum( self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT) * \
-					self.intensity * 2. * PI * (1. - self.cos_width)
+		mean = Spectrum(1.) if self.projMap is None else \
+					Spectrum.from_rgb(self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		return mean * self.intensity * 2. * PI * (1. - self.cos_width)
 
 	def is_delta_light(self) -> bool:
 		return True
@@ -342,8 +343,8 @@ class GonioPhotometricLight(Light):
 		# create a MIPMap
 		try:
 			import pytracer.utility.imageio as iio
-			texels = iio.read_image(texname)
-			width, height = np.shape(texels)
+			texels = iio.read_image(texname).astype(FLOAT)
+			height, width = texels.shape[0:2]
 		except:
 			print('src.core.texture.{}.get_texture(): cannot process file {}, '
 					'use default one-valued MIPMap'.format(self.__class__, texname))
@@ -377,7 +378,7 @@ class GonioPhotometricLight(Light):
 		s = phi * INV_2PI
 		t = theta * INV_PI
 
-		return Spectrum(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT)
+		return Spectrum.from_rgb(self.MIPMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -398,7 +399,9 @@ class GonioPhotometricLight(Light):
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
 	def power(self, scene: 'Scene') -> 'Spectrum':
-		return 4. * PI * self.intensity * Spectrum(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		mean = Spectrum(1.) if self.MIPMap is None else \
+					Spectrum.from_rgb(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		return 4. * PI * self.intensity * mean
 
 	def is_delta_light(self) -> bool:
 		return True
-- 
2.43.0


From 82433c9a0a81bc0715361ddb2df9a6d479b33bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 128/172] fix: the cone of a wide projection light was smaller
 than its image

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index fe2526c..acb7dfd 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -266,7 +266,7 @@ class ProjectionLight(Light):
 		self.proj_trans = trans.Transform.perspective(fov, self.hither, self.yon)
 
 		# compute cosine of cone
-		self.cos_width = np.cos(np.arctan(np.tan(np.deg2rad(fov) / 2.) * np.sqrt(1. + 1. / (aspect * aspect))))
+		self.cos_width = np.cos(np.arctan(np.tan(np.deg2rad(fov) / 2.) * np.sqrt(1. + max(aspect, 1. / aspect) ** 2)))
 
 	def __projection(self, w: 'geo.Vector') -> 'Spectrum':
 		"""
-- 
2.43.0


From 4c6d51c9dafbab8d16d11f84014b13dec0c87dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 129/172] fix: a distant light could not illuminate anything

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index acb7dfd..6f0095e 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -425,7 +425,7 @@ class DistantLight(Light):
 		wi = self.di.copy()
 		pdf = 1.
 		vis = VisibilityTester()
-		vis.set_ray(p, pEps, self.pos, wi, time)
+		vis.set_ray(p, pEps, wi, time)
 		return [self.l.copy(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
-- 
2.43.0


From 9b821c7215f62b131ac2190564efdcf167075abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 130/172] fix: the power and emitted rays of an area light
 could not be computed

---
 pytracer/light/light.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 6f0095e..b44abc7 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -495,7 +495,7 @@ class DiffuseAreaLight(Light):
 		super().__init__(l2w, ns)
 		self.emit = emit
 		self.shape_set = ShapeSet(shape)
-		self.area = self.shape_set.areas
+		self.area = self.shape_set.sum_area
 
 	# debugging purposes only
 	def le(self, rd: 'geo.RayDifferential'):
@@ -529,7 +529,7 @@ class DiffuseAreaLight(Light):
 		if di.dot(Ns) < 0.:
 			di *= -1.
 		ray = geo.Ray(org, di, EPS, np.inf, time=time)
-		pdf = self.shape_set.pdf(org) * INV_2PI
+		pdf = self.shape_set.pdf_p(org) * INV_2PI
 		return [ray, Ns, pdf, self.l(org, Ns, di)]
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return self.shape_set.pdf(p, wi)
-- 
2.43.0


From 9bf8c77a5197e0e0fc6de799b31cf9724e6e9980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 131/172] fix: attenuating the radiance received from a light
 dimmed the light itself

---
 pytracer/light/light.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index b44abc7..6c16611 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -139,7 +139,7 @@ class PointLight(Light):
 						0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
-		return [ray, Ns, pdf, self.intensity]
+		return [ray, Ns, pdf, self.intensity.copy()]
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
@@ -445,7 +445,7 @@ class DistantLight(Light):
 		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = 1. / (PI * rad * rad)
-		return [ray, Ns, pdf, self.l]
+		return [ray, Ns, pdf, self.l.copy()]
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
@@ -502,7 +502,7 @@ class DiffuseAreaLight(Light):
 		return self.emit
 
 	def l(self, p: 'geo.Point', n: 'geo.Normal', w: 'geo.Vector') -> 'Spectrum':
-		return self.emit if n.dot(w) > 0. else Spectrum(0.)
+		return self.emit.copy() if n.dot(w) > 0. else Spectrum(0.)
 
 	# TODO use MCMC
 	# def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
-- 
2.43.0


From b9ba1aed6ebcf6beeeb474bb069ae1c34f200877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 132/172] fix: an area light shone along rays that hit nothing

---
 pytracer/light/light.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 6c16611..9c5b9b7 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -497,10 +497,6 @@ class DiffuseAreaLight(Light):
 		self.shape_set = ShapeSet(shape)
 		self.area = self.shape_set.sum_area
 
-	# debugging purposes only
-	def le(self, rd: 'geo.RayDifferential'):
-		return self.emit
-
 	def l(self, p: 'geo.Point', n: 'geo.Normal', w: 'geo.Vector') -> 'Spectrum':
 		return self.emit.copy() if n.dot(w) > 0. else Spectrum(0.)
 
-- 
2.43.0


From 453bc7d42de0b7b7b7b977bc6ca4a9b5801c9f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 133/172] fix: environment images of an infinite light were
 never shown

---
 pytracer/light/light.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 9c5b9b7..9c12e2b 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -553,18 +553,15 @@ class InfiniteAreaLight(Light):
 		super().__init__(l2w, ns)
 		self.pos = l2w(geo.Point(0., 0., 0.)) # where the light is positioned in the world
 		texels = np.array([[l.to_rgb()]])
-		width, height = 1, 1
 
 		if texmap is not None:
 			try:
 				import pytracer.utility.imageio as iio
-				texels = iio.read_image(texmap)
-				width, height = np.shape(texels)
+				texels = iio.read_image(texmap).astype(FLOAT)
 			except:
 				print('src.core.texture.{}.get_texture(): cannot process file {}, '
 				'use default one-valued MIPMap'.format(self.__class__, texmap))
 				texels = np.array([[l.to_rgb()]])
-				width, height = 1, 1
 
 		from pytracer.texture import MIPMap
 		from pytracer.spectral import RGBSpectrum
@@ -573,6 +570,7 @@ class InfiniteAreaLight(Light):
 
 		# init sampling PDFs <725>
 		# compute image for envir. map
+		width, height = self.radMap.width, self.radMap.height
 		img = np.empty([height, width], dtype=FLOAT)
 		filt = 1. / max(width, height)
 
@@ -590,7 +588,7 @@ class InfiniteAreaLight(Light):
 		wh = geo.normalize(self.w2l(rd.d))
 		s = geo.spherical_phi(wh) * INV_2PI
 		t = geo.spherical_theta(wh) * INV_PI
-		return Spectrum.from_rgb(self.radMap.look_up(s, t), SpectrumType.ILLUMINANT)
+		return Spectrum.from_rgb(self.radMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
-- 
2.43.0


From 9f37d38eb05a878412132eb4247745ddee7160f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 134/172] fix: the density of an infinite light was not that of
 its samples

---
 pytracer/light/light.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 9c12e2b..3338b3b 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -606,10 +606,7 @@ class InfiniteAreaLight(Light):
 		wi = self.l2w(geo.Vector(st * cp, st * sp, ct))
 
 		# compute pdf for sampled inf light direction
-		if st == 0.:
-			pdf = 0.
-		pdf = pdf / (2. * PI * PI * st)
-
+		pdf = 0. if st == 0. else pdf / (2. * PI * PI * st)
 
 		# return radiance value
 		vis = VisibilityTester()
@@ -625,8 +622,7 @@ class InfiniteAreaLight(Light):
 		st = np.sin(theta)
 		if st == 0.:
 			return 0.
-		return self.dist.pdf(phi * INV_2PI, theta * INV_PI / 
-				(2. * PI * PI * st))
+		return self.dist.pdf(phi * INV_2PI, theta * INV_PI) / (2. * PI * PI * st)
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
-- 
2.43.0


From a9ba9aaf1001e9ed9b7324f113425f1f8ded0fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 135/172] fix: an infinite light could not emit rays

---
 pytracer/light/light.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 3338b3b..bcd17c2 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -647,19 +647,17 @@ class InfiniteAreaLight(Light):
 
 		# choose point on disk oriented towards light
 		ctr, rad = scene.world_bound().bounding_sphere()
-		_, v1, v2 = geo.coordinate_system(self.di)
-		d1, d2 = mc.concentric_sample_disk(ls.u_pos[0], ls.u_pos[1])
+		_, v1, v2 = geo.coordinate_system(-d)
+		d1, d2 = mc.concentric_sample_disk(u1, u2)
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
 		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time=time)
 
 		# compute pdf
-		dir_pdf = pdf / (2. * PI * PI * st)
+		dir_pdf = 0. if st == 0. else pdf / (2. * PI * PI * st)
 		area_pdf = 1. / (PI * rad * rad)
 		pdf = dir_pdf * area_pdf
-		if st == 0.:
-			pdf == 0.
 
 		return [ray, Ns, pdf, Spectrum.from_rgb(self.radMap.look_up([uv[0], uv[1]]), SpectrumType.ILLUMINANT)]
 
-- 
2.43.0


From 66228f91ccf6a9f752a86a8f38b32ec834afbbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 136/172] fix: an infinite light never sampled some of the
 directions it shines from

---
 pytracer/light/light.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index bcd17c2..f661c9d 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -572,14 +572,14 @@ class InfiniteAreaLight(Light):
 		# compute image for envir. map
 		width, height = self.radMap.width, self.radMap.height
 		img = np.empty([height, width], dtype=FLOAT)
-		filt = 1. / max(width, height)
+		filt = 2. / max(width, height)  # covers all texels seen through a pixel
 
 		for v in range(height):
-			vp = v / height
+			vp = (v + .5) / height
 			st = np.sin(PI * (v + .5) / height)
 			for u in range(width):
-				up = u / width
-				img[v][u] = self.radMap.look_up([up, vp, filt]).y()
+				up = (u + .5) / width
+				img[v][u] = self.radMap.look_up([up, vp, filt]).y() * st
 
 		# compute sampling distribution
 		self.dist = mc.Distribution2D(img)
-- 
2.43.0


From d47880eea3eae676f6a3c974bd9cfc0e47c92697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:11 +0000
Subject: [PATCH 137/172] fix: images without three channels could not be read,
 resampled ones kept their size

---
 pytracer/utility/imageio.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index 29459df..da4cb2e 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -29,19 +29,16 @@ def read_image(filename: str) -> ['spec.Spectrum']:
 	specs = None
 	img = None
 	with PIL.Image.open(filename) as pic:
-		img = np.array(pic)
-		width, height, chn = np.shape(img) # note the order of height and width
-		if chn >= 4:
-			# desert alpha
-			img = img[:,:,0:3]
+		pic = pic.convert('RGB')  # desert alpha
+		width, height = pic.size
 
 		# avoid expensive resizing in src.core.texture.MIPMap.__init__()
 		if (not util.is_pow_2(width)) or (not util.is_pow_2(height)):
 			# re-sample to power of 2
 			width = util.next_pow_2(width)
 			height = util.next_pow_2(height)
-			pic.resize((width, height))
-			img = np.array(pic)
+			pic = pic.resize((int(width), int(height)))
+		img = np.array(pic)
 
 	if img is not None:
 		return img
-- 
2.43.0


From 77c10136c270707cd5ac8aa00125d7483efd17b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 138/172] fix: seen from outside, a partial sphere was sampled
 where it is clipped away

---
 pytracer/shape/sphere.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index a0581d4..3e4c4f8 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -32,6 +32,7 @@ class Sphere(Shape):
 		self.thetaMin = np.arccos(np.clip(self.zmin / rad, -1., 1.))
 		self.thetaMax = np.arccos(np.clip(self.zmax / rad, -1., 1.))
 		self.phiMax = np.deg2rad(np.clip(pm, 0., 360.))
+		self.partial = self.zmin > -rad or self.zmax < rad or pm < 360.
 
 	def __repr__(self):
 		return "{}\nRadius: {}".format(self.__class__, self.radius)
@@ -85,8 +86,8 @@ class Sphere(Shape):
 		wc = geo.normalize(ctr - pnt)
 		_, wc_x, wc_y = geo.coordinate_system(wc)
 
-		# sample uniformly if p is inside
-		if pnt.sq_dist(ctr) - self.radius * self.radius < EPS:
+		# sample uniformly if p is inside, or parts of the cone miss
+		if self.partial or pnt.sq_dist(ctr) - self.radius * self.radius < EPS:
 			return self.sample(u1, u2)
 
 		# sample inside subtended cone
@@ -110,8 +111,8 @@ class Sphere(Shape):
 
 	def pdf_p(self, pnt: 'geo.Point', wi: 'geo.Vector') -> FLOAT:
 		ctr = self.o2w(geo.Point(0., 0., 0.))
-		# return uniform weight if inside
-		if pnt.sq_dist(ctr) - self.radius * self.radius < EPS:
+		# return uniform weight if inside, or parts of the cone miss
+		if self.partial or pnt.sq_dist(ctr) - self.radius * self.radius < EPS:
 			return super().pdf_p(pnt, wi)
 
 		# general weight
-- 
2.43.0


From 2b8401811ba24aa0060faea4198acd3970a09c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 139/172] fix: light refracted by a specular surface was
 dropped

---
 pytracer/integrator/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 6ee7a79..049e80b 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -194,7 +194,7 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
 			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
 
-		_, Li = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, isect, rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
-- 
2.43.0


From 409ffa6b63b60e4c5a43d3e2987037ef255fa1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 140/172] fix: tracing a specular ray overwrote the
 intersection it started from

---
 pytracer/integrator/utility.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 049e80b..527c812 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -119,6 +119,7 @@ def uniform_sample_one_light(scene: 'Scene', renderer: 'Renderer', p: 'geo.Point
 
 def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersection',
                      renderer: 'Renderer', scene: 'Scene', sample: 'Sample', rng) -> 'Spectrum':
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import (BDFType, BSDFSample)
 
 	wo = -ray.d
@@ -149,7 +150,7 @@ def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersect
 			rd.rxDirection = wi - dwodx + 2. * geo.Vector.from_arr(wo.dot(n) * dndx + dDNdx * n)
 			rd.ryDirection = wi - dwody + 2. * geo.Vector.from_arr(wo.dot(n) * dndy + dDNdy * n)
 
-		Li, _ = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
@@ -157,6 +158,7 @@ def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersect
 
 def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersection',
                       renderer: 'Renderer', scene: 'Scene', sample: 'Sample', rng) -> 'Spectrum':
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import (BDFType, BSDFSample)
 	wo = -ray.d
 	p = bsdf.dgs.p
@@ -194,7 +196,7 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
 			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
 
-		Li, _ = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
-- 
2.43.0


From ae2230a9087f8e381c626084625ade60ab34cfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 141/172] fix: differentials of refracted rays did not follow
 Snell's law

---
 pytracer/integrator/utility.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 527c812..8d77f93 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -173,28 +173,31 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxOrigin = p + isect.dg.dpdx
 			rd.ryOrigin = p + isect.dg.dpdy
 
-			eta = bsdf.eta
-			w = -wo
+			# relative index, normal on the side of wo
+			eta = 1. / bsdf.eta
+			sgn = 1.
 			if wo.dot(n) < 0.:
-				eta = 1. / eta
+				eta = bsdf.eta
+				sgn = -1.
+				n = -n
 
-			# compute reflected directions of differentials
-			dndx = bsdf.dgs.dndu * bsdf.dgs.dudx + \
-				   bsdf.dgs.dndv * bsdf.dgs.dvdx
-			dndy = bsdf.dgs.dndu * bsdf.dgs.dudy + \
-				   bsdf.dgs.dndv * bsdf.dgs.dvdy
+			# compute refracted directions of differentials
+			dndx = (bsdf.dgs.dndu * bsdf.dgs.dudx + \
+					bsdf.dgs.dndv * bsdf.dgs.dvdx) * sgn
+			dndy = (bsdf.dgs.dndu * bsdf.dgs.dudy + \
+					bsdf.dgs.dndv * bsdf.dgs.dvdy) * sgn
 
 			dwodx = -ray.rxDirection - wo
 			dwody = -ray.ryDirection - wo
 			dDNdx = dwodx.dot(n) + wo.dot(dndx)
 			dDNdy = dwody.dot(n) + wo.dot(dndy)
 
-			mu = eta * w.dot(n) - wi.dot(n)
-			dmudx = (eta - (eta * eta * w.dot(n) / wi.dot(n))) * dDNdx
-			dmudy = (eta - (eta * eta * w.dot(n) / wi.dot(n))) * dDNdy
+			mu = eta * wo.dot(n) - wi.abs_dot(n)
+			dmudx = (eta - (eta * eta * wo.dot(n) / wi.abs_dot(n))) * dDNdx
+			dmudy = (eta - (eta * eta * wo.dot(n) / wi.abs_dot(n))) * dDNdy
 
-			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
-			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
+			rd.rxDirection = wi - eta * dwodx + geo.Vector.from_arr(mu * dndx + dmudx * n)
+			rd.ryDirection = wi - eta * dwody + geo.Vector.from_arr(mu * dndy + dmudy * n)
 
 		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
-- 
2.43.0


From e461f22184a2df973be5c642c569d4800c189731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 142/172] fix: half of the estimate of direct light, the
 directions sampled from the surface, was left out

---
 pytracer/integrator/utility.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 8d77f93..18715e4 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -239,25 +239,27 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 		bsdf_pdf, wi, smp_type, f = bsdf.sample_f(wo, bsdf_smp, flags)
 		if not util.is_black(f) and bsdf_pdf > 0.:
 			wt = 1.
-			if not (smp_type & BDFType.SPECULAR).v == 0:  # MIS not apply to specular direction
+			if not (smp_type & BDFType.SPECULAR):  # MIS not apply to specular direction
 				light_pdf = light.pdf(p, wi)
 				if light_pdf == 0.:
 					return Ld
 				from pytracer.montecarlo import power_heuristic
 				wt = power_heuristic(1, bsdf_pdf, 1, light_pdf)
-				# add contribution
-				Li = Spectrum(0.)
-				ray = geo.RayDifferential(p, wi, r_eps, np.inf, time)
-				hit, light_isect = scene.intersect(ray)
-				if hit:
-					if light_isect.primitive.get_area_light() == light:
-						Li = light_isect.le(-wi)
-				else:
-					Li = light.le(ray) # light illum.
-
-				if not util.is_black(Li):
-					Li *= renderer.transmittance(scene, ray, None, rng) # attenuation
-					Ld += f * Li * wi.abs_dot(n) * wt / bsdf_pdf
+
+			# add contribution
+			from pytracer.aggregate import Intersection
+			Li = Spectrum(0.)
+			light_isect = Intersection()
+			ray = geo.RayDifferential(p, wi, r_eps, np.inf, time=time)
+			if scene.intersect(ray, light_isect):
+				if light_isect.primitive.get_area_light() == light:
+					Li = light_isect.le(-wi)
+			else:
+				Li = light.le(ray) # light illum.
+
+			if not util.is_black(Li):
+				Li *= renderer.transmittance(scene, ray, None, rng) # attenuation
+				Ld += f * Li * wi.abs_dot(n) * wt / bsdf_pdf
 
 	return Ld
 
-- 
2.43.0


From 85ad5002200c0eeeaa3d6efa290809d3a84964fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 143/172] fix: direct lighting from one random light failed

---
 pytracer/integrator/surface/direct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/surface/direct.py b/pytracer/integrator/surface/direct.py
index ad5461c..980341b 100644
--- a/pytracer/integrator/surface/direct.py
+++ b/pytracer/integrator/surface/direct.py
@@ -64,7 +64,7 @@ class DirectLightingIntegrator(SurfaceIntegrator):
 			# sampling one light
 			n_lights = len(scene.lights)
 			self.light_sample_offsets = [LightSampleOffset(1, sample)]
-			self.light_num_offset = sample.add1d(1)
+			self.light_num_offset = sample.add_1d(1)
 			self.bsdf_sample_offsets = [BSDFSampleOffset(1, sample)]
 
 	def li(self, scene: 'Scene', renderer: 'Renderer', ray: 'geo.RayDifferential',
@@ -91,7 +91,7 @@ class DirectLightingIntegrator(SurfaceIntegrator):
 			elif self.strategy == LightStrategy.SAMPLE_ONE_UNIFORM:
 				from pytracer.integrator.utility import uniform_sample_one_light
 				L += uniform_sample_one_light(scene, renderer, p, n, wo, isect.rEps, ray.time,
-						bsdf, sample, self.light_num_offset, self.light_sample_offsets, self.bsdf_sample_offsets, rng)
+						bsdf, sample, self.light_num_offset, self.light_sample_offsets[0], self.bsdf_sample_offsets[0], rng)
 
 			else:
 				raise RuntimeError("Unknown LightStrategy")
-- 
2.43.0


From 82c008509f1d58f33f390ddee99399c561a8673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 144/172] fix: paths counted emitters twice after bounces off
 non-specular surfaces

---
 pytracer/integrator/surface/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/integrator/surface/path.py b/pytracer/integrator/surface/path.py
index 0d30e6a..87f2aeb 100644
--- a/pytracer/integrator/surface/path.py
+++ b/pytracer/integrator/surface/path.py
@@ -109,7 +109,7 @@ class PathIntegrator(SurfaceIntegrator):
 			if f.is_black() or pdf == 0.:
 				break
 			# print('+++++')
-			specular_bounce = (flags & BDFType.SPECULAR) != 0
+			specular_bounce = bool(flags & BDFType.SPECULAR)
 			path_throughput *= f * wi.abs_dot(n) / pdf
 			ray = geo.RayDifferential.from_parent(p, wi, ray, isectp.rEps)
 			# print('#')
-- 
2.43.0


From 23ccbdc671404e1456eb60c8e4b7f39dd81c3ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 145/172] fix: the first segments of a path were not attenuated
 by the medium

---
 pytracer/integrator/surface/path.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytracer/integrator/surface/path.py b/pytracer/integrator/surface/path.py
index 87f2aeb..3832b53 100644
--- a/pytracer/integrator/surface/path.py
+++ b/pytracer/integrator/surface/path.py
@@ -134,8 +134,7 @@ class PathIntegrator(SurfaceIntegrator):
 						L += path_throughput * light.le(ray)
 				break
 			# print('###')
-			if bounce_cnt > 1:
-				path_throughput *= renderer.transmittance(scene, ray, None, rng)
+			path_throughput *= renderer.transmittance(scene, ray, None, rng)
 
 			isectp = local_isect
 
-- 
2.43.0


From 60be7b6a26af4e6a3ff3b3834bbed18f0c3b939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 146/172] fix: without a medium a ray was reported as fully
 extinguished

---
 pytracer/renderer/renderer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 8c82b83..54e3686 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -72,10 +72,10 @@ class SamplerRenderer(Renderer):
 
 			return T * li + lvi, T
 		else:
-			return li, Spectrum(0.)
+			return li, Spectrum(1.)
 
 	def transmittance(self, scene: 'Scene', ray: 'geo.RayDifferential', sample: 'Sample',
-									rng='np.random.rand') -> 'Spectrum':
+									rng=np.random.rand) -> 'Spectrum':
 		if self.vol_integrator is not None:
 			return self.vol_integrator.transmittance(scene, self, ray, sample, rng)
 		else:
-- 
2.43.0


From d7abe059d88fa65e30ee3943df45a07a7201291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 147/172] fix: light from the background never reached the
 image

---
 pytracer/renderer/renderer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 54e3686..437bc89 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -165,16 +165,14 @@ class SamplerRendererTask(object):
 				wt, rays[i] = self.camera.generate_ray_differential(sample)
 				rays[i].scale_differential(1. / np.sqrt(sampler.spp))
 
-				hit = self.scene.intersect_p(rays[i])
-
 				if self.vis_obj_id:
-					if hit and wt > 0.:
+					if wt > 0. and self.scene.intersect_p(rays[i]):
 						# random shading
 						Ls[i] = Spectrum.from_rgb([1., 1., 1.])
 					else:
 						Ls[i] = Spectrum(0.)
 				else:
-					if hit and wt > 0.:
+					if wt > 0.:
 						Ls[i], Ts[i] = self.renderer.li(self.scene, rays[i], sample, isects[i], rng)
 						Ls[i] *= wt
 
-- 
2.43.0


From d2b292816c57eb7d99dee09bbbfc44d9521330d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 148/172] fix: the scene description API could not be imported

---
 pytracer/interface/api.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 4cc8d74..1d4fa05 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -17,7 +17,7 @@ if TYPE_CHECKING:
 	from pytracer.transform import Transform
 
 
-def system_init(option: Option):
+def system_init(option: 'Option'):
 	from pytracer.spectral import Spectrum
 	import pytracer.interface as inter
 
@@ -100,14 +100,14 @@ def trans_look_at(eye: list, at: list, up: list):
 
 
 @check_system_inited
-def trans_concat(trans: Transform):
+def trans_concat(trans: 'Transform'):
 	import pytracer.interface as inter
 	for i, _ in enumerate(inter.TRANSFORM_SET):
 		inter.TRANSFORM_SET[i] *= trans
 
 
 @check_system_inited
-def trans_set(trans: Transform):
+def trans_set(trans: 'Transform'):
 	import pytracer.interface as inter
 	for i, _ in enumerate(inter.TRANSFORM_SET):
 		inter.TRANSFORM_SET[i] = trans
@@ -141,21 +141,21 @@ def set_transformation_time(start=0., end=1.):
 
 # Filters
 @check_system_inited
-def set_pixel_filter(name: str, param: Param):
+def set_pixel_filter(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.filter_name = name.lower()
 	inter.RENDER_OPTION.filter_param = param
 
 
 @check_system_inited
-def set_film(name: str, param: Param):
+def set_film(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.film_name = name.lower()
 	inter.RENDER_OPTION.film_param = param
 	
 	
 @check_system_inited
-def set_camera(name: str, param: Param):
+def set_camera(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.camera_name = name.lower()
 	inter.RENDER_OPTION.camera_param = param
@@ -164,35 +164,35 @@ def set_camera(name: str, param: Param):
 
 
 @check_system_inited
-def set_sampler(name: str, param: Param):
+def set_sampler(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.sampler_name = name.lower()
 	inter.RENDER_OPTION.sampler_param = param
 
 
 @check_system_inited
-def set_aggregator(name: str, param: Param):
+def set_aggregator(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.aggregator_name = name.lower()
 	inter.RENDER_OPTION.aggregator_param = param
 
 
 @check_system_inited
-def set_renderer(name: str, param: Param):
+def set_renderer(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.renderer_name = name.lower()
 	inter.RENDER_OPTION.renderer_param = param
 
 
 @check_system_inited
-def set_surface(name: str, param: Param):
+def set_surface(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.surface_name = name.lower()
 	inter.RENDER_OPTION.surface_param = param
 
 
 @check_system_inited
-def set_volume(name: str, param: Param):
+def set_volume(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.volume_name = name.lower()
 	inter.RENDER_OPTION.volume_param = param
-- 
2.43.0


From e01f501328b2035f1438297e9336009c46dc09af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 149/172] fix: API functions looked for system_init() when
 imported, not when called

---
 pytracer/interface/api.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 1d4fa05..1066fe3 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -9,6 +9,7 @@ Interfacing from the scene descriptions.
 Created by Jiayao on Aug 21, 2017
 """
 from __future__ import absolute_import
+from functools import wraps
 from typing import TYPE_CHECKING
 import pytracer.utility as util
 if TYPE_CHECKING:
@@ -48,10 +49,14 @@ def system_clean():
 
 
 def check_system_inited(api_func):
-	import pytracer.interface as inter
-	if inter.API_STATUS == inter.API_UNINIT:
-		raise RuntimeError("{}: system not inited.".format(api_func.__name__))
-	return api_func
+	"""Makes `api_func` refuse to run before `system_init()`."""
+	@wraps(api_func)
+	def checked(*args, **kwargs):
+		import pytracer.interface as inter
+		if inter.API_STATUS == inter.API_UNINIT:
+			raise RuntimeError("{}: system not inited.".format(api_func.__name__))
+		return api_func(*args, **kwargs)
+	return checked
 
 
 @check_system_inited
-- 
2.43.0


From c0d2ae0ac2e53d1c91fa229e67a4c30af71e62b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 150/172] fix: the current transformation was undefined after
 system_init()

---
 pytracer/interface/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 1066fe3..cfb8679 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -21,6 +21,7 @@ if TYPE_CHECKING:
 def system_init(option: 'Option'):
 	from pytracer.spectral import Spectrum
 	import pytracer.interface as inter
+	import pytracer.transform as trans
 
 	if inter.API_STATUS != inter.API_UNINIT:
 		raise RuntimeError("system_init() already called.")
@@ -32,6 +33,7 @@ def system_init(option: 'Option'):
 	inter.RENDER_OPTION = inter.RenderOption()
 
 	inter.GRAPHICS_STATE = GraphicsState()
+	inter.TRANSFORM_SET = [trans.Transform() for _ in range(inter.MAX_TRANSFORM)]
 
 	Spectrum.init()
 
-- 
2.43.0


From 9a898a8aa4309f574afc938866eb90ab3f5414a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 151/172] fix: named coordinate systems followed later
 transformations

---
 pytracer/interface/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index cfb8679..7c77bbd 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -125,7 +125,7 @@ def trans_set(trans: 'Transform'):
 def add_coordinate_system(name: str):
 	"""Make a named copy of the current transformations."""
 	import pytracer.interface as inter
-	inter.COORDINATE_SYSTEM[name] = inter.TRANSFORM_SET
+	inter.COORDINATE_SYSTEM[name] = list(inter.TRANSFORM_SET)
 
 
 @check_system_inited
@@ -135,7 +135,7 @@ def set_coordinate_system(name: str):
 	if name not in inter.COORDINATE_SYSTEM:
 		raise RuntimeError
 
-	inter.TRANSFORM_SET = inter.COORDINATE_SYSTEM[name]
+	inter.TRANSFORM_SET = list(inter.COORDINATE_SYSTEM[name])
 
 
 # Render Options
-- 
2.43.0


From 9e7cba0c8ebf228b441b080ab0b65a50ce84d1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 152/172] fix: attribute_end() and transform_end() did not
 restore the transformation

---
 pytracer/interface/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 7c77bbd..93a126b 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -218,7 +218,7 @@ def world_begin():
 def attribute_begin():
 	import pytracer.interface as inter
 	inter.GRAPHICS_STATE_STACK.append(inter.GRAPHICS_STATE)
-	inter.TRANSFORM_STACK.append(inter.TRANSFORM_SET)
+	inter.TRANSFORM_STACK.append(list(inter.TRANSFORM_SET))
 
 
 @check_system_inited
@@ -235,7 +235,7 @@ def attribute_end():
 @check_system_inited
 def transform_begin():
 	import pytracer.interface as inter
-	inter.TRANSFORM_STACK.append(inter.TRANSFORM_SET)
+	inter.TRANSFORM_STACK.append(list(inter.TRANSFORM_SET))
 
 
 @check_system_inited
-- 
2.43.0


From b6f9c333a959293220adb44b69a8336a8fd59893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 153/172] fix: a new session inherited the saved states and
 coordinate systems of the last one

---
 pytracer/interface/api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 93a126b..ab83a28 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -49,6 +49,11 @@ def system_clean():
 
 	inter.RENDER_OPTION = None
 
+	inter.GRAPHICS_STATE = None
+	inter.GRAPHICS_STATE_STACK = []
+	inter.TRANSFORM_STACK = []
+	inter.COORDINATE_SYSTEM = {}
+
 
 def check_system_inited(api_func):
 	"""Makes `api_func` refuse to run before `system_init()`."""
-- 
2.43.0


From 8d74df3ebd41e7e7e184e00c19961eecb7bf321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 154/172] fix: a camera placed by trans_look_at() got the
 inverse transformation

---
 pytracer/interface/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index ab83a28..e24c5e5 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -102,13 +102,14 @@ def trans_scale(sc: list):
 
 @check_system_inited
 def trans_look_at(eye: list, at: list, up: list):
+	"""The world to camera transformation, which `set_camera` inverts."""
 	import pytracer.interface as inter
 	import pytracer.geometry as geo
 	import pytracer.transform as trans
 	for i, _ in enumerate(inter.TRANSFORM_SET):
 		inter.TRANSFORM_SET[i] *= trans.Transform.look_at(geo.Point.from_arr(eye),
 		                                                  geo.Point.from_arr(at),
-		                                                  geo.Vector.from_arr(up))
+		                                                  geo.Vector.from_arr(up)).inverse()
 
 
 @check_system_inited
-- 
2.43.0


From 0c72695951b2d7fcb32e7bc0cdddd22ac7267f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:53 +0000
Subject: [PATCH 155/172] fix: rays through deep BVHs ran out of stack

---
 pytracer/aggregate/accelerator/bvh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index ba9e3e2..93627ff 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -340,7 +340,7 @@ class BVH(Aggregate):
 		
 		todo_idx = 0
 		node_idx = 0
-		todo = [None] * 64
+		todo = [None] * len(self.nodes)
 		while True:
 			node = self.nodes[node_idx]
 			# check intersection
@@ -385,7 +385,7 @@ class BVH(Aggregate):
 
 		todo_idx = 0
 		node_idx = 0
-		todo = [None] * 64
+		todo = [None] * len(self.nodes)
 		while True:
 			node = self.nodes[node_idx]
 			# check intersection
-- 
2.43.0


From 66412428ffb0cbae6a38defe04252e8b44269d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:39 +0000
Subject: [PATCH 156/172] fix: triangles with an alpha mask could not be
 intersected

---
 pytracer/shape/triangle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 159acc6..929c28b 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -236,7 +236,7 @@ class Triangle(Shape):
 
 		if self.mesh.alphaTexture is not None:
 			# alpha mask presents
-			if self.mesh.alphaTexture.evaluate(dg) == 0.:
+			if self.mesh.alphaTexture(dg) == 0.:
 				return [False, None, None, None]
 
 		# have a hit
@@ -308,7 +308,7 @@ class Triangle(Shape):
 
 		if self.mesh.alphaTexture is not None:
 			# alpha mask presents
-			if self.mesh.alphaTexture.evaluate(dg) == 0.:
+			if self.mesh.alphaTexture(dg) == 0.:
 				return False
 
 		# have a hit
-- 
2.43.0


From 530aa6e0a6e11e56ff49cc3c4ec3e3c28233b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:19 +0000
Subject: [PATCH 157/172] fix: Distribution2D could not be printed

---
 pytracer/montecarlo/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index d668aa4..0e5c602 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -113,7 +113,7 @@ class Distribution2D(object):
 		self.p_marg_v = Distribution1D(marginal_v)
 
 	def __repr__(self):
-		return "{}\nSteps: {}\n".format(self.__class__, self.cnt)
+		return "{}\nSteps: {} * {}\n".format(self.__class__, self.p_cond_v[0].cnt, self.p_marg_v.cnt)
 
 	def sample_cont(self, u0: FLOAT, u1: FLOAT) -> [list, FLOAT]:
 		"""
-- 
2.43.0


From 7b8d78a88c51ccd4e107c2f85dcccf8be1c11872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:19 +0000
Subject: [PATCH 158/172] fix: a scene with a volume region could not be
 printed

---
 pytracer/scene/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/scene/scene.py b/pytracer/scene/scene.py
index a8eb6b7..367140e 100644
--- a/pytracer/scene/scene.py
+++ b/pytracer/scene/scene.py
@@ -31,7 +31,7 @@ class Scene(object):
 
 	def __repr__(self):
 		return "{}\nAggregates: {}\nLights: {}\nVolume Regions: {}" \
-					.format(self.__class__, self.aggregate, len(self.lights), "N/A" if self.vr is None else len(self.vr))
+					.format(self.__class__, self.aggregate, len(self.lights), "N/A" if self.vr is None else self.vr)
 
 	def intersect(self, ray: 'geo.Ray', isect: 'Intersection') -> bool:
 		return self.aggregate.intersect(ray, isect)
-- 
2.43.0


From 60c36ac1cfeb980a26e63165279f1235f403cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:25 +0000
Subject: [PATCH 159/172] fix: growing the bound an aggregate or a scene
 answered grew its own

---
 pytracer/aggregate/accelerator/bvh.py | 2 +-
 pytracer/aggregate/aggregate.py       | 4 ++--
 pytracer/scene/scene.py               | 2 +-
 pytracer/volume/volume.py             | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 93627ff..91c7c12 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -422,7 +422,7 @@ class BVH(Aggregate):
 
 	def world_bound(self):
 		if self.nodes is not None:
-			return self.nodes[0].bounds
+			return geo.BBox.from_bbox(self.nodes[0].bounds)
 		return geo.BBox()
 
 	def can_intersect(self) -> bool:
diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 62b4ec0..791ff5a 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -54,7 +54,7 @@ class SimpleAggregate(Aggregate):
 		raise NotImplementedError('{}.refine(): Not implemented'.format(self.__class__))
 
 	def world_bound(self) -> 'geo.BBox':
-		return self.bounds
+		return geo.BBox.from_bbox(self.bounds)
 
 	def can_intersect(self) -> bool:
 		return True
@@ -241,7 +241,7 @@ class GridAccel(Aggregate):
 		return INT(z * self.n_voxels[0] * self.n_voxels[1] + y * self.n_voxels[0] + x)
 
 	def world_bound(self) -> 'geo.BBox':
-		return self.bounds
+		return geo.BBox.from_bbox(self.bounds)
 
 	def can_intersect(self) -> bool:
 		return True
diff --git a/pytracer/scene/scene.py b/pytracer/scene/scene.py
index 367140e..eb5f291 100644
--- a/pytracer/scene/scene.py
+++ b/pytracer/scene/scene.py
@@ -40,4 +40,4 @@ class Scene(object):
 		return self.aggregate.intersect_p(ray)
 
 	def world_bound(self) -> 'geo.BBox':
-		return self.bound
\ No newline at end of file
+		return geo.BBox.from_bbox(self.bound)
\ No newline at end of file
diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index b6ddd37..1b0b3c3 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -393,7 +393,7 @@ class AggregateVolume(VolumeRegion):
 		return s	
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.bound
+		return geo.BBox.from_bbox(self.bound)
 		#return self.w2v.inverse()(self.bound)
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
-- 
2.43.0


From 1d3626b5c92a6428dd9b3388a9f62dde7a86ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:25 +0000
Subject: [PATCH 160/172] fix: Lambertian handed out its own reflectance

---
 pytracer/reflection/bdf/bdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index b04bec7..e7b28f0 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -340,8 +340,8 @@ class Lambertian(BDF):
 		return INV_PI * self.R
 
 	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]) -> 'Spectrum':
-		return self.R
+		return self.R.copy()
 
 	def rho_hh(self, nSamples: INT, samples_1: [FLOAT], samples_2: [FLOAT]) -> 'Spectrum':
-		return self.R
+		return self.R.copy()
 
-- 
2.43.0


From bb0d2b23fd145a2699c5dcff7d35c3648b77576b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:26 +0000
Subject: [PATCH 161/172] fix: ConstantTexture handed out its own value

---
 pytracer/texture/texture/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index 85fab02..456521d 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -43,7 +43,8 @@ class ConstantTexture(Texture):
 		self.value = value
 
 	def __call__(self, dg: 'geo.DifferentialGeometry'):
-		return self.value
+		# the caller may go on computing in place
+		return self.value.copy() if isinstance(self.value, np.ndarray) else self.value
 
 
 class ScaleTexture(Texture):
-- 
2.43.0


From 6b752f6d11a66edd7c1d57b3b3e4949ae4bd661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:23 +0000
Subject: [PATCH 162/172] fix: refining a subdivision surface of zero levels
 moved its control points

---
 pytracer/shape/loopsubdiv.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index 2aad90e..654e7d9 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -391,6 +391,7 @@ class LoopSubdiv(Shape):
 			else:
 				Plimit.append(self.weight_one_ring(vv, self.gamma(vv.valence())))
 
+		Pold = [vv.P for vv in v]
 		for i, vv in enumerate(v):
 			vv.P = Plimit[i]
 
@@ -429,6 +430,10 @@ class LoopSubdiv(Shape):
 
 			Ns.append(geo.Normal.from_arr(S.cross(T)))
 
+		# without any level the vertices are the control points, keep them
+		for i, vv in enumerate(v):
+			vv.P = Pold[i]
+
 		# create `TriangleMesh`
 		verts = []
 		usedVerts = {}
-- 
2.43.0


From 4b9677dfa263094343220a7ff69de4f40e8423aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:00 +0000
Subject: [PATCH 163/172] fix: HomogeneousVolumeDensity handed out its own
 coefficients

---
 pytracer/volume/volume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 1b0b3c3..225d2b9 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -151,17 +151,17 @@ class HomogeneousVolumeDensity(VolumeRegion):
 		return self.extent.intersect_p(r)
 
 	def sigma_a(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
-		return self.sig_a if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
+		return self.sig_a.copy() if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
 
 
 	def sigma_s(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
-		return self.sig_s if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
+		return self.sig_s.copy() if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
 
 	def sigma_t(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return (self.sig_s + self.sig_a) if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)		
 
 	def lve(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
-		return self.le if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
+		return self.le.copy() if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
 
 	def p(self, pnt: 'geo.Point', wi: 'geo.Vector', wo: 'geo.Vector', tm: FLOAT) ->  FLOAT:
 		if not self.extent.inside(self.w2v(pnt)):
-- 
2.43.0


From 6b0e690d4a2b08c4b5ea6df3df62d88c9e8d50db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 164/172] fix: TriangleMesh shared its normals and tangents
 with the caller's lists

---
 pytracer/shape/triangle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 929c28b..65a76e3 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -429,8 +429,8 @@ class TriangleMesh(Shape):
 		self.nverts = nv
 		self.vertexIndex = vi.copy()
 		self.uvs = None if uv is None else uv.copy()
-		self.n = None if N is None else N.copy()
-		self.s = None if S is None else S.copy()
+		self.n = None if N is None else [n.copy() for n in N]
+		self.s = None if S is None else [s.copy() for s in S]
 		# transform the mesh to the world system
 		self.p = [o2w(p) for p in P]
 
-- 
2.43.0


From 43e83300ffd63472b3ca0adce8f6172981a3abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:09 +0000
Subject: [PATCH 165/172] fix: aggregates of primitives and of volume regions
 followed the caller's list

---
 pytracer/aggregate/aggregate.py | 4 ++--
 pytracer/volume/volume.py       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 791ff5a..0ad205c 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -44,7 +44,7 @@ class SimpleAggregate(Aggregate):
 			for prim in p:
 				prim.full_refine(self.primitives)
 		else:
-			self.primitives = p
+			self.primitives = list(p)
 
 		self.bounds = geo.BBox()
 		for pr in self.primitives:
@@ -173,7 +173,7 @@ class GridAccel(Aggregate):
 			for prim in p:
 				prim.full_refine(self.primitives)
 		else:
-			self.primitives = p
+			self.primitives = list(p)
 
 		# compute bounds and choose grid resolution
 		self.bounds = geo.BBox()
diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 225d2b9..c3a9b7a 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -347,7 +347,7 @@ class AggregateVolume(VolumeRegion):
 	By default uses inefficient implementation
 	"""
 	def __init__(self, regions: list):
-		self.regions = regions
+		self.regions = list(regions)
 		self.bound = geo.BBox()
 		for region in regions:
 			self.bound.union(region.world_bound())
-- 
2.43.0


From 4595a7ee2bb6926d064a04797bedfbe303b158ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:39 +0000
Subject: [PATCH 166/172] fix: PinholeCamera ignored the sample's time and its
 own motion

---
 pytracer/camera/projective.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index c315cb5..58d2d67 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -29,9 +29,8 @@ class PinholeCamera(Camera):
 	def generate_ray(self, sample: 'CameraSample') -> [FLOAT, 'geo.Ray']:
 		p = geo.Point(sample.imageX, sample.imageY, 0.)
 		pp = geo.Point(0., 0., self.focal)
-		d = self.c2w.startTransform(geo.normalize(pp - p))
-		p = self.c2w.startTransform(p)
-		return 1., geo.Ray(p, d)
+		ray = self.c2w(geo.Ray(p, geo.normalize(pp - p), time=sample.time))
+		return 1., ray
 
 
 class ProjectiveCamera(Camera):
-- 
2.43.0


From 5832c859e6f5197d79a1afaee3c0cad59333f09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:39 +0000
Subject: [PATCH 167/172] fix: StratifiedSampler never stopped on a window
 without pixels

---
 pytracer/sampler/sampler/stratified.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/sampler/sampler/stratified.py b/pytracer/sampler/sampler/stratified.py
index d9ec087..a4ddde7 100644
--- a/pytracer/sampler/sampler/stratified.py
+++ b/pytracer/sampler/sampler/stratified.py
@@ -48,7 +48,7 @@ class StratifiedSampler(Sampler):
 		samples are initiliazed and len(samplse) == self.xSamples * self.ySamples.
 		Return a bool indicating whether there is are more samples to generate.
 		"""
-		if self.yPos == self.yPixel_end:
+		if self.yPos >= self.yPixel_end or self.xPixel_start >= self.xPixel_end:
 			return False
 
 		n_samples = self.xSamples * self.ySamples
-- 
2.43.0


From 9a50434c64bbfebcbcc4a80c94ec4532b82f7948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:32 +0000
Subject: [PATCH 168/172] fix: MIPMap shared its most detailed level with the
 caller's image

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index b6f4d32..e476378 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -284,7 +284,7 @@ class MIPMap(object):
 		self.__n_levels = 1 + INT(np.log2(max(sres, tres)))
 		self.__pyramid = np.empty(self.__n_levels, dtype=object)
 		# most detailed level
-		self.__pyramid[0] = img if resampled is None else resampled
+		self.__pyramid[0] = img.copy() if resampled is None else resampled
 
 		for i in range(1, self.__n_levels):
 			# bottom-up init
-- 
2.43.0


From 4699b588cdbb516d5026414c3fc7ef163009e650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:21 +0000
Subject: [PATCH 169/172] fix: VisibilityTester dropped the ray it was given

---
 pytracer/light/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/utility.py b/pytracer/light/utility.py
index ccb9dc7..d4f0046 100644
--- a/pytracer/light/utility.py
+++ b/pytracer/light/utility.py
@@ -26,7 +26,7 @@ class VisibilityTester(object):
 	VisibilityTester Class
 	"""
 	def __init__(self, ray: 'geo.Ray'=None):
-		self.ray = None
+		self.ray = ray
 
 	def __repr__(self):
 		return "{}\ngeo.Ray: {}\n".format(self.__class__, self.ray)
-- 
2.43.0


From 48d06bd6bbb078b7e3f5cf9054abd6aa9accc16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:49 +0000
Subject: [PATCH 170/172] fix: ImageFilm.add_sample took any spectrum for red,
 green and blue

---
 pytracer/film/film.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/film/film.py b/pytracer/film/film.py
index 38d196d..5046b13 100644
--- a/pytracer/film/film.py
+++ b/pytracer/film/film.py
@@ -160,7 +160,7 @@ class ImageFilm(Film):
 
 		# add sample to pixel arrays
 		from pytracer.spectral import rgb2xyz
-		xyz = rgb2xyz(L)
+		xyz = L.to_xyz() if hasattr(L, 'to_xyz') else rgb2xyz(L)
 
 		## precomputes offsets
 		ifx = np.minimum(FILTER_TABLE_SIZE-1,
-- 
2.43.0


From 5dd09e567b0e8e1b07e15730f9d27e737c517b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:50 +0000
Subject: [PATCH 171/172] fix: Sample.duplicate shared the requests with its
 duplicates

---
 pytracer/sampler/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/sampler/sample.py b/pytracer/sampler/sample.py
index f0092ef..9f0e234 100644
--- a/pytracer/sampler/sample.py
+++ b/pytracer/sampler/sample.py
@@ -56,8 +56,8 @@ class Sample(CameraSample):
 		ret = [None] * cnt
 		for i in range(cnt):
 			smp = Sample()
-			smp.n1D = self.n1D
-			smp.n2D = self.n2D
+			smp.n1D = self.n1D.copy()
+			smp.n2D = self.n2D.copy()
 			smp.oneD = [None] * len(self.n1D)
 			smp.twoD = [None] * len(self.n2D)
 			ret[i] = smp
-- 
2.43.0


From f7346f4c4245e622c9d7a3afc62347b8d162092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:10 +0000
Subject: [PATCH 172/172] fix: get_volume_scattering swapped absorption and
 scattering

---
 pytracer/volume/utility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/volume/utility.py b/pytracer/volume/utility.py
index 712bcdd..d3ac1b0 100644
--- a/pytracer/volume/utility.py
+++ b/pytracer/volume/utility.py
@@ -72,8 +72,9 @@ def get_volume_scattering(name: str) -> ['Spectrum', 'Spectrum']:
 	"""
 	from pytracer.data.volume import MEASURED_SUF_SC
 	if name in MEASURED_SUF_SC:
-		return [Spectrum.from_rgb(MEASURED_SUF_SC[name][0]),
-		        Spectrum.from_rgb(MEASURED_SUF_SC[name][1])]
+		# the table lists sigma'_s before sigma_a
+		return [Spectrum.from_rgb(MEASURED_SUF_SC[name][1]),
+		        Spectrum.from_rgb(MEASURED_SUF_SC[name][0])]
 	return [None, None]
 
 
-- 
2.43.0

