From 4f90f9d9f077b647a2cf0dce6f0bb563f3b2d73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 001/133] fix: look_at must map the camera axes to world
 columns, not rows

---
 pytracer/transform/__init__.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 5a92c85..ee5ecdc 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -203,32 +203,33 @@ class Transform(object):
 		c2w[2][3] = pos.z
 
 		# c2w rotation
+		# columns are the camera axes in world space
 		c2w[0][0] = xc.x
-		c2w[0][1] = xc.y
-		c2w[0][2] = xc.z
-		c2w[1][0] = yc.x
+		c2w[1][0] = xc.y
+		c2w[2][0] = xc.z
+		c2w[0][1] = yc.x
 		c2w[1][1] = yc.y
-		c2w[1][2] = yc.z
-		c2w[2][0] = zc.x
-		c2w[2][1] = zc.y
+		c2w[2][1] = yc.z
+		c2w[0][2] = zc.x
+		c2w[1][2] = zc.y
 		c2w[2][2] = zc.z
 
 		# w2c rotation
 		# in effect as camera extrinsic
 		w2c[0][0] = xc.x
-		w2c[0][1] = yc.x
-		w2c[0][2] = zc.x
-		w2c[1][0] = xc.y
+		w2c[0][1] = xc.y
+		w2c[0][2] = xc.z
+		w2c[1][0] = yc.x
 		w2c[1][1] = yc.y
-		w2c[1][2] = zc.y
-		w2c[2][0] = xc.z
-		w2c[2][1] = yc.z
+		w2c[1][2] = yc.z
+		w2c[2][0] = zc.x
+		w2c[2][1] = zc.y
 		w2c[2][2] = zc.z
 
 		# w2c translation
-		w2c[0][3] = -(pos.x * xc.x + pos.y * yc.x + pos.z * zc.x)
-		w2c[1][3] = -(pos.x * xc.y + pos.y * yc.y + pos.z * zc.y)
-		w2c[2][3] = -(pos.x * xc.z + pos.y * yc.z + pos.z * zc.z)
+		w2c[0][3] = -(pos.x * xc.x + pos.y * xc.y + pos.z * xc.z)
+		w2c[1][3] = -(pos.x * yc.x + pos.y * yc.y + pos.z * yc.z)
+		w2c[2][3] = -(pos.x * zc.x + pos.y * zc.y + pos.z * zc.z)
 
 		return cls(c2w, w2c, dtype)
 
-- 
2.43.0


From 8540b1d5d96ba2efee5c352b960aa714524bde9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 002/133] fix: BBox inequality must compare corresponding
 corners

---
 pytracer/geometry/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index 81c292c..ee79426 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -422,8 +422,8 @@ class BBox:
 		       np.array_equal(self.pMax, other.pMax)
 
 	def __ne__(self, other):
-		return not np.array_equal(self.pMin, other.pMax) or \
-		       not np.array_equal(self.pMin, other.pMax)
+		return not np.array_equal(self.pMin, other.pMin) or \
+		       not np.array_equal(self.pMax, other.pMax)
 
 	def __getitem__(self, key):
 		if key == 0:
-- 
2.43.0


From f0bafb9534fd7f9c6890dbaaf3009c44732a2a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 003/133] fix: transform the offset rays of a RayDifferential
 with the main ray

---
 pytracer/transform/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index ee5ecdc..5b9f566 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -72,6 +72,10 @@ class Transform(object):
 			r = geo.RayDifferential.from_rd(arg)
 			r.o = self(r.o)
 			r.d = self(r.d)
+			r.rxOrigin = self(r.rxOrigin)
+			r.ryOrigin = self(r.ryOrigin)
+			r.rxDirection = self(r.rxDirection)
+			r.ryDirection = self(r.ryDirection)
 			return r
 
 		elif isinstance(arg, geo.Ray):
-- 
2.43.0


From 38a65d3b78c06eaade03d0f10bafd247ab9e35e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 004/133] fix: DifferentialGeometry.copy must keep the normal
 and the screen-space differentials

---
 pytracer/geometry/diffgeom.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytracer/geometry/diffgeom.py b/pytracer/geometry/diffgeom.py
index 447879e..d43f689 100644
--- a/pytracer/geometry/diffgeom.py
+++ b/pytracer/geometry/diffgeom.py
@@ -45,7 +45,12 @@ class DifferentialGeometry(object):
 		return "{}\nNormal Vector: {}\n".format(self.__class__, self.nn)
 
 	def copy(self):
-		return DifferentialGeometry(self.p, self.dpdu, self.dpdv, self.dndu, self.dndv, self.u, self.v, self.shape)
+		dg = DifferentialGeometry(self.p, self.dpdu, self.dpdv, self.dndu, self.dndv, self.u, self.v, self.shape)
+		dg.nn = self.nn.copy()
+		dg.dudx, dg.dvdx, dg.dudy, dg.dvdy = self.dudx, self.dvdx, self.dudy, self.dvdy
+		dg.dpdx = self.dpdx.copy()
+		dg.dpdy = self.dpdy.copy()
+		return dg
 
 	def compute_differential(self, ray: 'RayDifferential'):
 		if ray.has_differentials:
-- 
2.43.0


From d7573ee93af39c740e9e48b7fdf871e769ce13fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 005/133] fix: Sphere.intersect_p must not print debug output
 on every shadow ray

---
 pytracer/shape/sphere.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index df35a5f..4034b61 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -249,7 +249,6 @@ class Sphere(Shape):
 				return False
 
 		phit = ray(thit)
-		print("Type phit: {}\nphit.x: {}\nphit.y: {}\n".format(type(phit), type(phit.x), type(phit.y)))
 		if phit.x == 0. and phit.y == 0.:
 			phit.x = EPS * self.radius
 		phi = np.arctan2(phit.y, phit.x)
-- 
2.43.0


From f2dfe5901a8a5783b307fec9ad5ce5b0ae1dc3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 006/133] fix: sphere v coordinate must be normalised by the
 theta range

---
 pytracer/shape/sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index 4034b61..d202d88 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -187,7 +187,7 @@ class Sphere(Shape):
 		u = phi / self.phiMax
 		theta = np.arccos(np.clip(phit.z / self.radius, -1., 1.))
 		delta_theta = self.thetaMax - self.thetaMin
-		v = (theta - self.thetaMin) * delta_theta
+		v = (theta - self.thetaMin) / delta_theta
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
-- 
2.43.0


From 1715708be6596527387e536df408c46fecb85bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 007/133] fix: cylinder must reject a second root that is
 clipped

---
 pytracer/shape/cylinder.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pytracer/shape/cylinder.py b/pytracer/shape/cylinder.py
index 29a9279..889bd3f 100644
--- a/pytracer/shape/cylinder.py
+++ b/pytracer/shape/cylinder.py
@@ -100,8 +100,7 @@ class Cylinder(Shape):
 				phi += 2. * np.pi
 
 			if phit.z < self.zmin or phit.z > self.zmax or phi > self.phiMax:
-				if thit == t1 or t1 > ray.maxt:
-					return [False, None, None, None]
+				return [False, None, None, None]
 
 		# otherwise ray hits the cylinder
 		# initialize the differential structure
@@ -183,8 +182,7 @@ class Cylinder(Shape):
 				phi += 2. * np.pi
 
 			if phit.z < self.zmin or phit.z > self.zmax or phi > self.phiMax:
-				if thit == t1 or t1 > ray.maxt:
-					return False
+				return False
 
 		return True
 
-- 
2.43.0


From 1a319fad6818ac234db67b3b6d7a408424fc8f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 008/133] fix: cylinder v coordinate must use the z range

---
 pytracer/shape/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/cylinder.py b/pytracer/shape/cylinder.py
index 889bd3f..b2a8c49 100644
--- a/pytracer/shape/cylinder.py
+++ b/pytracer/shape/cylinder.py
@@ -105,7 +105,7 @@ class Cylinder(Shape):
 		# otherwise ray hits the cylinder
 		# initialize the differential structure
 		u = phi / self.phiMax
-		v = (phit.z - self.zmin) / (self.thetaMax - self.thetaMin)
+		v = (phit.z - self.zmin) / (self.zmax - self.zmin)
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
-- 
2.43.0


From d579dfecc7090e9f020defa4475200e55d4418d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 009/133] fix: Cylinder must implement refine to be
 instantiable

---
 pytracer/shape/cylinder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pytracer/shape/cylinder.py b/pytracer/shape/cylinder.py
index b2a8c49..471d46d 100644
--- a/pytracer/shape/cylinder.py
+++ b/pytracer/shape/cylinder.py
@@ -49,6 +49,13 @@ class Cylinder(Shape):
 
 		return [self.o2w(p), Ns]
 
+	def refine(self) -> ['Shape']:
+		"""
+		If `Shape` cannot intersect,
+		return a refined subset
+		"""
+		raise NotImplementedError('Intersecable shapes are not refineable')
+
 	def intersect(self, r: 'geo.Ray') -> (bool, FLOAT, FLOAT, 'geo.DifferentialGeometry'):
 		"""
 		Returns:
-- 
2.43.0


From 74de9e0aa621f64c442e5598ef517e3922371c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 010/133] fix: disk parametrisation for annular and partial
 disks

---
 pytracer/shape/disk.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 31243b9..edc6196 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -93,14 +93,14 @@ class Disk(Shape):
 		# otherwise ray hits the disk
 		# initialize the differential structure
 		u = phi / self.phiMax
-		v = 1. - ((np.sqrt(dt2 - self.inner_radius)) /
+		dist = np.sqrt(dt2)
+		v = 1. - ((dist - self.inner_radius) /
 		          (self.radius - self.inner_radius))
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
-		dpdv = geo.Vector(-phit.x / (1. - v), -phit.y / (1. - v), 0.)
-		dpdu *= self.phiMax * INV_2PI
-		dpdv *= (self.radius - self.inner_radius) / self.radius
+		dpdv = geo.Vector(-phit.x, -phit.y, 0.)
+		dpdv *= (self.radius - self.inner_radius) / dist
 
 		# derivative of geo.Normals
 		dndu = geo.Normal(0., 0., 0., )
-- 
2.43.0


From bf85cc9cb558d5fb2a090ed9e12474f918efb5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 011/133] fix: evaluate the alpha texture through the Texture
 call interface

---
 pytracer/shape/triangle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 7382a8d..d2480f8 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -236,7 +236,7 @@ class Triangle(Shape):
 
 		if self.mesh.alphaTexture is not None:
 			# alpha mask presents
-			if self.mesh.alphaTexture.evaluate(dg) == 0.:
+			if self.mesh.alphaTexture(dg) == 0.:
 				return [False, None, None, None]
 
 		# have a hit
@@ -308,7 +308,7 @@ class Triangle(Shape):
 
 		if self.mesh.alphaTexture is not None:
 			# alpha mask presents
-			if self.mesh.alphaTexture.evaluate(dg) == 0.:
+			if self.mesh.alphaTexture(dg) == 0.:
 				return False
 
 		# have a hit
-- 
2.43.0


From b7d43c75902e9536f42b806a60edbc20cc16a501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 012/133] fix: look up triangle uvs by vertex index

---
 pytracer/shape/triangle.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index d2480f8..dba5771 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -126,9 +126,8 @@ class Triangle(Shape):
 		if self.mesh.uvs is None:
 			return [[0., 0.], [1., 0.], [1., 1.]]  # default
 		else:
-			return [[self.mesh.uvs[2 * self.v], self.mesh.uvs[2 * self.v + 1]],
-			        [self.mesh.uvs[2 * (self.v + 1)], self.mesh.uvs[2 * (self.v + 1) + 1]],
-			        [self.mesh.uvs[2 * (self.v + 2)], self.mesh.uvs[2 * (self.v + 2) + 1]]]
+			vi = self.mesh.vertexIndex
+			return [[self.mesh.uvs[2 * vi[self.v + i]], self.mesh.uvs[2 * vi[self.v + i] + 1]] for i in range(3)]
 
 	def object_bound(self) -> 'geo.BBox':
 		p1 = self.mesh.p[self.mesh.vertexIndex[self.v]]
-- 
2.43.0


From 17997a6d1681ecfed4f4f4f65342b7578f8af9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 013/133] fix: sample the triangle's own second vertex

---
 pytracer/shape/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index dba5771..1e52fd5 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -147,7 +147,7 @@ class Triangle(Shape):
 		b1, b2 = uniform_sample_triangle(u1, u2)
 
 		p = b1 * self.mesh.p[self.mesh.vertexIndex[self.v]] + \
-		    b2 * self.mesh.p[self.mesh.vertexIndex[self.v]+1] + \
+		    b2 * self.mesh.p[self.mesh.vertexIndex[self.v+1]] + \
 		    (1. - b1 - b2) * self.mesh.p[self.mesh.vertexIndex[self.v+2]]
 
 		Ns = geo.normalize(geo.Normal.from_arr(
-- 
2.43.0


From 27175a3044dd292ed779b7bbf0e3ea7c23e3fae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 014/133] fix: triangle shading geometry must use the
 triangle's own vertices

---
 pytracer/shape/triangle.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 1e52fd5..802e3cd 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -321,7 +321,7 @@ class Triangle(Shape):
 
 	def get_shading_geometry(self, o2w: 'trans.Transform',
 	                         dg: 'geo.DifferentialGeometry') -> 'geo.DifferentialGeometry':
-		if self.mesh.n is None or self.mesh.s is None:
+		if self.mesh.n is None and self.mesh.s is None:
 			return dg
 		# compute barycentric coord
 		uvs = self.get_uvs()
@@ -339,16 +339,16 @@ class Triangle(Shape):
 
 		# compute shading tangents
 		if self.mesh.n is not None:
-			ns = geo.normalize(o2w(b[0] * self.mesh.n[self.v] +
-			                   b[1] * self.mesh.n[self.v + 1] +
-			                   b[2] * self.mesh.n[self.v + 2]))
+			ns = geo.normalize(o2w(b[0] * self.mesh.n[self.mesh.vertexIndex[self.v]] +
+			                   b[1] * self.mesh.n[self.mesh.vertexIndex[self.v + 1]] +
+			                   b[2] * self.mesh.n[self.mesh.vertexIndex[self.v + 2]]))
 		else:
 			ns = dg.nn
 
 		if self.mesh.s is not None:
-			ss = geo.normalize(o2w(b[0] * self.mesh.s[self.v] +
-			                   b[1] * self.mesh.s[self.v + 1] +
-			                   b[2] * self.mesh.s[self.v + 2]))
+			ss = geo.normalize(o2w(b[0] * self.mesh.s[self.mesh.vertexIndex[self.v]] +
+			                   b[1] * self.mesh.s[self.mesh.vertexIndex[self.v + 1]] +
+			                   b[2] * self.mesh.s[self.mesh.vertexIndex[self.v + 2]]))
 		else:
 			ss = geo.normalize(dg.dpdu)
 
-- 
2.43.0


From 44483048d66c5b27a27b22919c1e52cf51223b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 015/133] fix: cone sampling without a frame called the
 non-existent np.scos

---
 pytracer/montecarlo/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 7468cf3..62b980c 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -218,7 +218,7 @@ def uniform_sample_cone(u1: FLOAT, u2: FLOAT, ct_max: FLOAT,
 		ct = (1. - u1) + u1 * ct_max
 		st = np.sqrt(1. - ct * ct)
 		phi = u2 * 2. * PI
-		return geo.Vector(np.scos(phi) * st, np.sin(phi) * st, ct)
+		return geo.Vector(np.cos(phi) * st, np.sin(phi) * st, ct)
 	else:
 		ct = util.lerp(u1, ct_max, 1.)
 		st = np.sqrt(1. - ct * ct)
-- 
2.43.0


From 4a4ffcd67854b7f2c43e745fb9ff5f23acd88bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 016/133] fix: cosine hemisphere sampling must project disk
 samples, not sphere samples

---
 pytracer/montecarlo/utility.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 62b980c..6705cdc 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -179,9 +179,8 @@ def cosine_sample_hemisphere(u1: FLOAT, u2: FLOAT) -> 'geo.Vector':
 	`u1` and `u2` are two
 	random numbers passed in.
 	"""
-	vec = uniform_sample_sphere(u1, u2)
-	vec.z = np.sqrt(max(0., 1. - vec.x * vec.x - vec.y * vec.y))
-	return vec
+	x, y = concentric_sample_disk(u1, u2)
+	return geo.Vector(x, y, np.sqrt(max(0., 1. - x * x - y * y)))
 
 
 def cosine_hemisphere_pdf(costheta: FLOAT, phi: FLOAT) -> FLOAT:
-- 
2.43.0


From 832b432afd5c9f0e08e5b8d2956c6efe5d44a6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 017/133] fix: concentric disk mapping mirrored its left and
 bottom wedges

---
 pytracer/montecarlo/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 6705cdc..f67abaa 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -158,11 +158,11 @@ def concentric_sample_disk(u1: FLOAT, u2: FLOAT) -> [FLOAT, FLOAT]:
 		if sx > sy:
 			# 4
 			r = -sy
-			theta = 6. + sx / sy
+			theta = 6. - sx / sy
 		else:
 			# 3
 			r = -sx
-			theta = 4. - sy / sx
+			theta = 4. + sy / sx
 	theta *= PI / 4.
 
 	return [r * np.cos(theta), r * np.sin(theta)]
-- 
2.43.0


From 92301dea0f80bee9f5c3bcf02d5426242d4c1abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 018/133] fix: 2D distribution must return the continuous v
 sample

---
 pytracer/montecarlo/distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index d780b72..1fc9ef3 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -107,7 +107,7 @@ class Distribution2D(object):
 		self.p_marg_v = Distribution1D(marginal_v)
 
 	def __repr__(self):
-		return "{}\nSteps: {}\n".format(self.__class__, self.cnt)
+		return "{}\nSteps: {}\n".format(self.__class__, self.p_marg_v.cnt)
 
 	def sample_cont(self, u0: FLOAT, u1: FLOAT) -> [list, FLOAT]:
 		"""
@@ -120,9 +120,9 @@ class Distribution2D(object):
 		Returns [[u, v], pdf]
 		"""
 		v, pdf1 = self.p_marg_v.sample_cont(u1)
-		v = np.clip(util.ftoi(v * self.p_marg_v.cnt), 0, self.p_marg_v.cnt - 1).astype(INT)
+		vi = np.clip(util.ftoi(v * self.p_marg_v.cnt), 0, self.p_marg_v.cnt - 1).astype(INT)
 
-		u, pdf0 = self.p_cond_v[v].sample_cont(u0)
+		u, pdf0 = self.p_cond_v[vi].sample_cont(u0)
 
 		return [[u, v], pdf0 * pdf1]
 
-- 
2.43.0


From 23f9679e4ab6ebbeed1abcff8b8409996f2e655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 019/133] fix: sample the (partial) sphere uniformly and on its
 surface

---
 pytracer/shape/sphere.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index d202d88..1c92749 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -44,16 +44,11 @@ class Sphere(Shape):
 		"""
 		account for partial sphere
 		"""
-		from pytracer.montecarlo import uniform_sample_sphere
-		v = uniform_sample_sphere(u1, u2)
+		z = util.lerp(u1, self.zmin, self.zmax)
+		r = np.sqrt(max(0., self.radius * self.radius - z * z))
+		phi = u2 * self.phiMax
 
-		phi = geo.spherical_theta(v) * self.phiMax * INV_2PI
-		theta = self.thetaMin + geo.spherical_theta(v) * (self.thetaMax - self.thetaMin)
-
-		v = geo.spherical_direction(np.sin(theta), np.cos(theta), phi) * self.radius
-		v.z = self.zmin + v.z * (self.zmax - self.zmin)
-
-		p = geo.Point.from_arr(v)
+		p = geo.Point(r * np.cos(phi), r * np.sin(phi), z)
 		Ns = geo.normalize(self.o2w(geo.Normal(p.x, p.y, p.z)))
 		if self.ro:
 			Ns *= -1.
-- 
2.43.0


From fb5f2fbac8bcf74e762585e3bdeafb8f2e875a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 020/133] fix: sphere must report the density of its cone
 sampling

---
 pytracer/shape/sphere.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index 1c92749..3940657 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -117,6 +117,24 @@ class Sphere(Shape):
 		from pytracer.montecarlo import uniform_cone_pdf
 		return uniform_cone_pdf(ct_max)
 
+	def pdf_p(self, pnt: 'geo.Point', wi: 'geo.Vector') -> FLOAT:
+		"""
+		Density of sample_p(): uniform inside
+		the subtended cone, or over the area
+		for a point inside.
+		"""
+		ctr = self.o2w(geo.Point(0., 0., 0.))
+		if pnt.sq_dist(ctr) - self.radius * self.radius < EPS:
+			return super().pdf_p(pnt, wi)
+
+		st_max_sq = self.radius * self.radius / pnt.sq_dist(ctr)
+		ct_max = np.sqrt(max(0., 1. - st_max_sq))
+		if wi.dot(geo.normalize(ctr - pnt)) < ct_max:
+			return 0.
+
+		from pytracer.montecarlo import uniform_cone_pdf
+		return uniform_cone_pdf(ct_max)
+
 	def intersect(self, r: 'geo.Ray') -> [bool, FLOAT, FLOAT, 'geo.DifferentialGeometry']:
 		"""
 		Returns:
-- 
2.43.0


From 8a0d831b229c5b31655f7db20d22b78bffe91593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 021/133] fix: sample the partial or annular disk uniformly and
 inside its sweep

---
 pytracer/shape/disk.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index edc6196..c351131 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -44,8 +44,11 @@ class Disk(Shape):
 		# account for partial disk
 		from pytracer.montecarlo import concentric_sample_disk
 		x, y = concentric_sample_disk(u1, u2)
-		phi = np.arctan2(y, x) * self.phiMax * INV_2PI
-		r = self.inner_radius + np.sqrt(x * x + y * y) * (self.radius - self.inner_radius)
+		phi = np.arctan2(y, x)
+		if phi < 0.:
+			phi += 2. * np.pi
+		phi *= self.phiMax * INV_2PI
+		r = np.sqrt(util.lerp(x * x + y * y, self.inner_radius * self.inner_radius, self.radius * self.radius))
 
 		p = geo.Point(r * np.cos(phi), r * np.sin(phi), self.height)
 
-- 
2.43.0


From 69a1d2a837c222dec0acc9f6cbdd0cd8a12657ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 022/133] fix: disk sample must return the disk normal

---
 pytracer/shape/disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index c351131..ce51ab0 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -52,7 +52,7 @@ class Disk(Shape):
 
 		p = geo.Point(r * np.cos(phi), r * np.sin(phi), self.height)
 
-		Ns = geo.normalize(self.o2w(p))
+		Ns = geo.normalize(self.o2w(geo.Normal(0., 0., 1.)))
 		if self.ro:
 			Ns *= -1.
 
-- 
2.43.0


From 18cd06f65a459863855f986e43b930ebe655780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 023/133] fix: dielectric Fresnel parallel term must divide by
 eta_t*cos_i + eta_i*cos_t

---
 pytracer/reflection/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/reflection/utility.py b/pytracer/reflection/utility.py
index 419fdb5..0163a9e 100644
--- a/pytracer/reflection/utility.py
+++ b/pytracer/reflection/utility.py
@@ -51,7 +51,7 @@ def fr_diel(cos_i: FLOAT, cos_t: FLOAT, eta_i: 'Spectrum', eta_t: 'Spectrum') ->
 	dielectric materials and circularly polarized light
 	"""
 	r_para = ((eta_t * cos_i ) - (eta_i * cos_t)) / \
-				((eta_t * cos_i) + (eta_t * cos_t))
+				((eta_t * cos_i) + (eta_i * cos_t))
 	r_perp = ((eta_i * cos_i) - (eta_t * cos_t)) / \
 				((eta_i * cos_i) + (eta_t * cos_t))
 	return .5 * (r_para * r_para + r_perp * r_perp)
-- 
2.43.0


From 76a5b1a623dbbcfdea80e069594d1275e40b4dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 024/133] fix: BSDF.l2w must combine the frame vectors
 component by component

---
 pytracer/reflection/bsdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/reflection/bsdf.py b/pytracer/reflection/bsdf.py
index 49c322a..82e9fe7 100644
--- a/pytracer/reflection/bsdf.py
+++ b/pytracer/reflection/bsdf.py
@@ -200,9 +200,9 @@ class BSDF(object):
 		Transform a `geo.Vector` in the local system
 		to the world system
 		"""
-		return geo.Vector(self.sn.x * v.x + self.tn.x * v.x + self.nn.x * v.x,
-		                  self.sn.y * v.y + self.tn.y * v.y + self.nn.y * v.y,
-		                  self.sn.z * v.z + self.tn.z * v.z + self.nn.z * v.z)
+		return geo.Vector(self.sn.x * v.x + self.tn.x * v.y + self.nn.x * v.z,
+		                  self.sn.y * v.x + self.tn.y * v.y + self.nn.y * v.z,
+		                  self.sn.z * v.x + self.tn.z * v.y + self.nn.z * v.z)
 
 	def f(self, wo_w: 'geo.Vector', wi_w: 'geo.Vector', flags: 'BDFType' = BDFType.ALL) -> 'Spectrum':
 		wi = self.w2l(wi_w)
-- 
2.43.0


From 6157a1a64ed88bbbe090bcc40178c38eb0324a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 025/133] fix: BSDF representation must use n_BDF

---
 pytracer/reflection/bsdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/reflection/bsdf.py b/pytracer/reflection/bsdf.py
index 82e9fe7..e4bc216 100644
--- a/pytracer/reflection/bsdf.py
+++ b/pytracer/reflection/bsdf.py
@@ -95,7 +95,7 @@ class BSDF(object):
 
 	def __repr__(self):
 		return "{}\nBDF Count: {}\ngeo.Point: {}".format(self.__class__,
-		                                                 self.nBDF, self.dgs.p)
+		                                                 self.n_BDF, self.dgs.p)
 
 	def sample_f(self, wo_w: 'geo.Vector', bsdf_smp: 'BSDFSample',
 	             flags: 'BDFType') -> [FLOAT, 'geo.Vector', 'BDFType' 'Spectrum']:
-- 
2.43.0


From 79c633e21f67b517d7fb20326bf6452d925fe29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 026/133] fix: BDFType must be false when no bit is set

---
 pytracer/reflection/bdf/bdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index ead8b4a..2587195 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -36,6 +36,9 @@ class BDFType():
 	def __repr__(self):
 		return "{}\nEnum: {}".format(self.__class__, self.v)
 
+	def __bool__(self):
+		return bool(self.v)
+
 	def __invert__(self):
 		return BDFType(~self.v)
 
-- 
2.43.0


From b52ee9a46fcf6ba7dd26c143d7ef815b06c7f21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 027/133] fix: ScaledBDF must forward to the BDF it wraps,
 including the density

---
 pytracer/reflection/bdf/bdf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 2587195..ca32096 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -217,16 +217,20 @@ class ScaledBDF(BDF):
 		self.s = sc
 
 	# scale by spectrum
-	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.s * self.brdf.f(wo, wi)
+	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.s * self.bdf.f(wo, wi)
+
+	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.bdf.pdf(wo, wi)
 
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT, u2: FLOAT):
-		pdf, wi, f = self.brdf.sample_f(wo, u1, u2)
+		pdf, wi, f = self.bdf.sample_f(wo, u1, u2)
+		if pdf == 0.:
+			return pdf, wi, Spectrum(0.)
 		return pdf, wi, self.s * f
 
-	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.s * self.brdf.rho_hd(wo, samples)
+	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.s * self.bdf.rho_hd(wo, samples)
 
 	def rho_hh(self, nSamples: INT, samples_1: [FLOAT],
-					samples_2: [FLOAT]): return self.s * self.brdf.rho_hh(nSamples, samples_1, samples_2)
+					samples_2: [FLOAT]): return self.s * self.bdf.rho_hh(nSamples, samples_1, samples_2)
 
 
 class SpecularReflection(BDF):
-- 
2.43.0


From ce887af43bad54fcce746bd1e6220aa088424bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 028/133] fix: BRDF2BTDF must report the density of the
 direction it samples

---
 pytracer/reflection/bdf/bdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index ca32096..59df1e0 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -193,6 +193,8 @@ class BRDF2BTDF(BDF):
 	# forward function calls
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.brdf.f(wo, self.switch(wi))
 
+	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.brdf.pdf(wo, self.switch(wi))
+
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT,  u2: FLOAT):
 		pdf, wi, f = self.brdf.sample_f(wo, u1, u2)
 		return pdf, self.switch(wi), f
-- 
2.43.0


From 054f6022585e4dc39e0cb212c1d3ab5def995195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 029/133] fix: specular transmission must exchange the indices
 only inside the medium

---
 pytracer/reflection/bdf/bdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 59df1e0..d8b36a3 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -294,7 +294,7 @@ class SpecularTransmission(BDF):
 	             u2: FLOAT) -> [FLOAT, 'geo.Vector', 'Spectrum']:
 		# find eta pair
 		ei, et = self.ei, self.et
-		if cos_theta(wo) > 0.:
+		if cos_theta(wo) <= 0.:
 			ei, et = et, ei
 
 		# compute transmited ray direction
@@ -312,7 +312,7 @@ class SpecularTransmission(BDF):
 
 		F = self.fresnel(cos_theta(wo))
 
-		return [1., wi, (et * et) / (ei * ei) * (Spectrum(1.) - F) * \
+		return [1., wi, (ei * ei) / (et * et) * (Spectrum(1.) - F) * \
 		        self.T / abs_cos_theta(wi)]  # 1. suggests no MC samples needed
 
 
-- 
2.43.0


From 9b46ca63e9e5439b5357e1dbba4b65a045704cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 030/133] fix: microfacet reflectance must not be negative or
 undefined

---
 pytracer/reflection/bdf/torrance.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytracer/reflection/bdf/torrance.py b/pytracer/reflection/bdf/torrance.py
index 0da86c2..982c9f8 100644
--- a/pytracer/reflection/bdf/torrance.py
+++ b/pytracer/reflection/bdf/torrance.py
@@ -198,13 +198,16 @@ class Microfacet(BDF):
 		self.distribution = d
 
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector') -> 'Spectrum':
-		ct_i = cos_theta(wi)
-		ct_o = cos_theta(wo)
+		ct_i = abs_cos_theta(wi)
+		ct_o = abs_cos_theta(wo)
 
 		if ct_i == 0. or ct_o == 0.:
 			return Spectrum(0.)
 
-		wh = geo.normalize(wi + wo)
+		wh = wi + wo
+		if wh.sq_length() == 0.:
+			return Spectrum(0.)
+		wh = geo.normalize(wh)
 		ct_h = wi.dot(wh)
 		F = self.fresnel(ct_h)
 
-- 
2.43.0


From 1bad5ca907eeae126e04f4b1c0a98ca3c87238f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 031/133] fix: Fresnel blend must be defined for opposite
 directions

---
 pytracer/reflection/bdf/fresnelblend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytracer/reflection/bdf/fresnelblend.py b/pytracer/reflection/bdf/fresnelblend.py
index a9abf7b..80a53f0 100644
--- a/pytracer/reflection/bdf/fresnelblend.py
+++ b/pytracer/reflection/bdf/fresnelblend.py
@@ -66,7 +66,10 @@ class FresnelBlend(BDF):
 		          (1. - np.power(1. - .5 * abs_cos_theta(wi), 5)) * \
 		          (1. - np.power(1. - .5 * abs_cos_theta(wo), 5))
 
-		wh = geo.normalize(wi + wo)
+		wh = wi + wo
+		if wh.sq_length() == 0.:
+			return Spectrum(0.)
+		wh = geo.normalize(wh)
 
 		specular = self.distribution.D(wh) / \
 		           (4. * wi.abs_dot(wh) * max(abs_cos_theta(wi), abs_cos_theta(wo))) * \
-- 
2.43.0


From bf8ed740963785242f2e61aaaec6515d4f90f218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 032/133] fix: half-angle table must be indexed over its whole
 extent

---
 pytracer/reflection/bdf/measured.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/reflection/bdf/measured.py b/pytracer/reflection/bdf/measured.py
index 1c19ca7..a6f77c7 100644
--- a/pytracer/reflection/bdf/measured.py
+++ b/pytracer/reflection/bdf/measured.py
@@ -100,9 +100,9 @@ class ReHalfangleBRDF(BDF):
 		wdp = geo.spherical_phi(wd)
 		if wdp > PI:
 			wdp -= PI
-		wht_idx = np.clip(INT((np.sqrt(max(0., t / (PI / 2.)))) / self.nThetaH), 0, self.nThetaH - 1)
+		wht_idx = np.clip(INT(np.sqrt(max(0., t / (PI / 2.))) * self.nThetaH), 0, self.nThetaH - 1)
 
-		wdt_idx = np.clip(INT(wdt / (self.nThetaD * PI)), 0, self.nThetaD - 1)
+		wdt_idx = np.clip(INT(wdt / (PI / 2.) * self.nThetaD), 0, self.nThetaD - 1)
 
-		wdp_idx = np.clip(INT(wdp / (self.nPhiD * PI)), 0, self.nPhiD - 1)
+		wdp_idx = np.clip(INT(wdp / PI * self.nPhiD), 0, self.nPhiD - 1)
 		return Spectrum.from_rgb(self.brdf[wht_idx][wdt_idx][wdp_idx])
-- 
2.43.0


From 5c54f915071981caeb0a508427dc543b598e4448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 033/133] fix: sub-window bounds are integer pixel positions of
 the tile

---
 pytracer/sampler/sampler/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/sampler/sampler/__init__.py b/pytracer/sampler/sampler/__init__.py
index e1277d7..8d70776 100644
--- a/pytracer/sampler/sampler/__init__.py
+++ b/pytracer/sampler/sampler/__init__.py
@@ -105,10 +105,10 @@ class Sampler(object, metaclass=ABCMeta):
 		# compute x and y pixel sample range
 		x0 = num % nx
 		y0 = num // nx
-		x = np.clip([x0 / nx, (x0 + 1) / nx], self.xPixel_start, self.xPixel_end)
-		y = np.clip([y0 / ny, (y0 + 1) / ny], self.yPixel_start, self.yPixel_end)
-		return np.concatenate([util.ufunc_lerp(x, self.xPixel_start, self.xPixel_end),
-		                       util.ufunc_lerp(y, self.yPixel_start, self.yPixel_end)])
+		return np.array([util.ftoi(util.lerp(x0 / nx, self.xPixel_start, self.xPixel_end)),
+		                 util.ftoi(util.lerp((x0 + 1) / nx, self.xPixel_start, self.xPixel_end)),
+		                 util.ftoi(util.lerp(y0 / ny, self.yPixel_start, self.yPixel_end)),
+		                 util.ftoi(util.lerp((y0 + 1) / ny, self.yPixel_start, self.yPixel_end))])
 
 
 from pytracer.sampler.sampler.stratified import *
\ No newline at end of file
-- 
2.43.0


From a36d412e237f6c705528449f691cfaba8a3c2950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:21 +0000
Subject: [PATCH 034/133] fix: the first image row follows the vertical
 resolution

---
 pytracer/film/film.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/film/film.py b/pytracer/film/film.py
index b0d9c81..38d196d 100644
--- a/pytracer/film/film.py
+++ b/pytracer/film/film.py
@@ -115,7 +115,7 @@ class ImageFilm(Film):
 		# compute film image extent
 		self.xPixel_start = INT(np.ceil(xr * crop[0]))
 		self.xPixel_cnt = np.maximum(1, INT(np.ceil(xr * crop[1])) - self.xPixel_start)
-		self.yPixel_start = INT(np.ceil(xr * crop[2]))
+		self.yPixel_start = INT(np.ceil(yr * crop[2]))
 		self.yPixel_cnt = np.maximum(1, INT(np.ceil(yr * crop[3])) - self.yPixel_start)
 
 		# allocate storage
-- 
2.43.0


From 73931ed0d623d1b9e30c3d2f008fe603a60238f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:21 +0000
Subject: [PATCH 035/133] fix: updating a cropped image addresses rows by y and
 columns by x

---
 pytracer/utility/imageio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index bb9e5df..07cd4ea 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -81,7 +81,7 @@ def write_image(filename: str, rgb: 'np.ndarray', alpha: 'np.ndarray',
 			img = np.array(pic)
 			pic.close()
 
-			img[xOffset:xOffset+xRes-1, yOffset:yOffset+yRes-1, :] = rgb
+			img[yOffset:yOffset+yRes, xOffset:xOffset+xRes, :] = rgb
 			ret = img.copy()
 
 			pic = PIL.Image.fromarray(img, mode="RGB")
-- 
2.43.0


From afd12704f89265c64d36c62f431b67c7b268fbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:23 +0000
Subject: [PATCH 036/133] fix: the largest diagonal entry picks the quaternion
 component

---
 pytracer/transform/quat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/transform/quat.py b/pytracer/transform/quat.py
index 609f515..56c7b6c 100644
--- a/pytracer/transform/quat.py
+++ b/pytracer/transform/quat.py
@@ -52,7 +52,7 @@ def from_transform(t: 'Transform') -> 'Quaternion':
 		i = 0
 		if m[1, 1] > m[0, 0]:
 			i = 1
-		if m[2, 2] < m[i, i]:
+		if m[2, 2] > m[i, i]:
 			i = 2
 		j = nxt[i]
 		k = nxt[j]
@@ -88,7 +88,7 @@ def from_arr(t: 'np.ndarray') -> 'Quaternion':
 		i = 0
 		if m[1, 1] > m[0, 0]:
 			i = 1
-		if m[2, 2] < m[i, i]:
+		if m[2, 2] > m[i, i]:
 			i = 2
 		j = nxt[i]
 		k = nxt[j]
-- 
2.43.0


From c0a14e292fe9baeb64633b9169e1960f7d397efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:23 +0000
Subject: [PATCH 037/133] fix: bounds of a transform that is not animated
 honour the requested direction

---
 pytracer/transform/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 5b9f566..d338039 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -324,7 +324,7 @@ class AnimatedTransform(object):
 
 	def motion_bounds(self, b: 'geo.BBox', use_inv: bool=False) -> 'geo.BBox':
 		if not self.animated:
-			return self.startTransform.inverse()(b)
+			return (self.startTransform.inverse() if use_inv else self.startTransform)(b)
 		ret = geo.BBox()
 		steps = 128
 		for i in range(128):
-- 
2.43.0


From 9028055dc6119e3faff157862c02403393a8fd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:39 +0000
Subject: [PATCH 038/133] fix: the quaternion of a rotation uses the trace of
 its 3x3 block

---
 pytracer/transform/quat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/transform/quat.py b/pytracer/transform/quat.py
index 56c7b6c..c3d48ca 100644
--- a/pytracer/transform/quat.py
+++ b/pytracer/transform/quat.py
@@ -35,7 +35,7 @@ def to_transform(q: 'Quaternion') -> 'Transform':
 
 def from_transform(t: 'Transform') -> 'Quaternion':
 	m = t.m
-	tr = m.trace()
+	tr = m[0, 0] + m[1, 1] + m[2, 2]
 
 	if tr > .0:
 		s = np.sqrt(tr + 1.)
@@ -71,7 +71,7 @@ def from_transform(t: 'Transform') -> 'Quaternion':
 
 def from_arr(t: 'np.ndarray') -> 'Quaternion':
 	m = t
-	tr = m.trace()
+	tr = m[0, 0] + m[1, 1] + m[2, 2]
 
 	if tr > .0:
 		s = np.sqrt(tr + 1.)
-- 
2.43.0


From 372235ad1c92c26580b0043fb235a4e0cea3b762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:53 +0000
Subject: [PATCH 039/133] fix: environment camera rays carry the sample time,
 not a depth

---
 pytracer/camera/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/camera/environment.py b/pytracer/camera/environment.py
index 6c97975..2bd04b8 100644
--- a/pytracer/camera/environment.py
+++ b/pytracer/camera/environment.py
@@ -39,5 +39,5 @@ class EnvironmentCamera(Camera):
 		stheta = np.sin(theta)
 
 		ray = self.c2w(geo.Ray(geo.Point(0., 0., 0.),
-				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, time))
+				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, 0, time))
 		return [1., ray]
-- 
2.43.0


From 6a9cd347236ed3a252d37151a191a3d46bbad5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:53 +0000
Subject: [PATCH 040/133] fix: offset camera rays start from the sample they
 are shifted from

---
 pytracer/camera/camera.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pytracer/camera/camera.py b/pytracer/camera/camera.py
index a11eaa4..5767ad8 100644
--- a/pytracer/camera/camera.py
+++ b/pytracer/camera/camera.py
@@ -8,6 +8,7 @@ Modified on Aug 13, 2017
 """
 from __future__ import absolute_import
 from abc import (ABCMeta, abstractmethod)
+from copy import copy
 from pytracer import *
 import pytracer.geometry as geo
 import pytracer.transform as trans
@@ -52,16 +53,14 @@ class Camera(object, metaclass=ABCMeta):
 		rd = geo.RayDifferential.from_ray(rd)
 
 		# find ray shift along x
-		from pytracer.sampler import CameraSample
-		
-		xshift = sample.duplicate(1)[0]
+		xshift = copy(sample)
 		xshift.imageX += 1
 		wtx, rx = self.generate_ray(xshift)
 		rd.rxOrigin = rx.o
 		rd.rxDirection = rx.d
 
 		# find ray shift along y
-		yshift = sample.duplicate(1)[0]
+		yshift = copy(sample)
 		yshift.imageY += 1
 		wty, ry = self.generate_ray(yshift)
 		rd.ryOrigin = ry.o
-- 
2.43.0


From e1273bbaf12afb3a37a205e1e30ddbe7a559ea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:53 +0000
Subject: [PATCH 041/133] fix: orthographic offset rays are shifted in world
 space

---
 pytracer/camera/projective.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 1b9ccb7..30819c1 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -118,11 +118,10 @@ class OrthoCamera(ProjectiveCamera):
 		rd = geo.RayDifferential.from_ray(rd)
 
 		# find ray shift along x
-		rd.rxOrigin = rd.o + self.dxCam
-		rd.ryOrigin = rd.o + self.dyCam
+		rd.rxOrigin = rd.o + self.c2w(rd.time, self.dxCam)
+		rd.ryOrigin = rd.o + self.c2w(rd.time, self.dyCam)
 		rd.rxDirection = rd.ryDirection = rd.d
 		rd.has_differentials = True
-		rd = self.c2w(rd)
 
 		return [wt, rd]
 
-- 
2.43.0


From 01f34d50e4716763474285c79087ae528c526ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:53 +0000
Subject: [PATCH 042/133] fix: perspective ray differentials lie inside the
 shutter interval

---
 pytracer/camera/projective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 30819c1..00b9f2b 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -224,7 +224,7 @@ class PerspectiveCamera(ProjectiveCamera):
 			ray.rxDirection = geo.normalize(self.dxCam + p_cam)  # geo.Vector + geo.Point => geo.Vector
 			ray.ryDirection = geo.normalize(self.dyCam + p_cam)
 
-		ray.time = sample.time
+		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
 		ray = self.c2w(ray)
 		ray.has_differentials = True
 
-- 
2.43.0


From cedd4dcd71d0afbd2ed232d773a7e804ba1ec25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:53 +0000
Subject: [PATCH 043/133] fix: pinhole camera rays have unit direction

---
 pytracer/camera/projective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 00b9f2b..edc597d 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -29,7 +29,7 @@ class PinholeCamera(Camera):
 	def generate_ray(self, sample: 'CameraSample') -> [FLOAT, 'geo.Ray']:
 		p = geo.Point(sample.imageX, sample.imageY, 0.)
 		pp = geo.Point(0., 0., self.focal)
-		d = self.c2w.startTransform(pp - p)
+		d = self.c2w.startTransform(geo.normalize(pp - p))
 		p = self.c2w.startTransform(p)
 		return 1., geo.Ray(p, d)
 
-- 
2.43.0


From 1bd21584c4e0f8b74c934666028b04ce54cbbb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 044/133] fix: lights report their power

---
 pytracer/light/light.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index ecc0966..906567f 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -81,7 +81,6 @@ class Light(object, metaclass=ABCMeta):
 		raise NotImplementedError('src.core.light.{}.pdf(): abstract method '
 									'called'.format(self.__class__)) 		
 
-	@property
 	@abstractmethod
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
@@ -144,7 +143,6 @@ class PointLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return 4. * PI * self.intensity
 
@@ -207,7 +205,6 @@ class SpotLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -316,7 +313,6 @@ class ProjectionLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -401,7 +397,6 @@ class GonioPhotometricLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return 4. * PI * self.intensity * Spectrum(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
 
@@ -451,7 +446,6 @@ class DistantLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -539,7 +533,6 @@ class DiffuseAreaLight(Light):
 
 
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return self.emit * self.area * PI
 
@@ -677,7 +670,6 @@ class InfiniteAreaLight(Light):
 
 		return [ray, Ns, pdf, Spectrum.from_rgb(self.radMap.look_up([uv[0], uv[1]]), SpectrumType.ILLUMINANT)]
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		_, rad = scene.world_bound().bounding_sphere()
 		return PI * rad * rad * Spectrum.from_rgb(self.radMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
-- 
2.43.0


From 87fa2d052f8094d8f3bb0fdd839ecae8fcc6976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 045/133] fix: emitted rays carry the time and not a depth

---
 pytracer/light/light.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 906567f..23646ed 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -136,7 +136,7 @@ class PointLight(Light):
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
-						0., np.inf, time)
+						0., np.inf, time=time)
 		Ns = geo.Normal.fromVector(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity]
@@ -198,7 +198,7 @@ class SpotLight(Light):
 		
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
-		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
+		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
 		Ns = geo.Normal.fromVector(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__falloff(ray.d)]
@@ -306,7 +306,7 @@ class ProjectionLight(Light):
 		
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
-		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
+		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
 		Ns = geo.Normal.fromVector(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__projection(ray.d)]
@@ -390,7 +390,7 @@ class GonioPhotometricLight(Light):
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
-						0., np.inf, time)
+						0., np.inf, time=time)
 		Ns = geo.Normal.fromVector(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity * self.__scale(ray.d)]
@@ -439,7 +439,7 @@ class DistantLight(Light):
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
-		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time)
+		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time=time)
 		Ns = geo.Normal.fromVector(ray.d)
 		pdf = 1. / (PI * rad * rad)
 		return [ray, Ns, pdf, self.l]
@@ -525,7 +525,7 @@ class DiffuseAreaLight(Light):
 		di = mc.uniform_sample_sphere(u1, u2)
 		if di.dot(Ns) < 0.:
 			di *= -1.
-		ray = geo.Ray(org, di, EPS, np.inf, time)
+		ray = geo.Ray(org, di, EPS, np.inf, time=time)
 		pdf = self.shape_set.pdf(org) * INV_2PI
 		return [ray, Ns, pdf, self.l(org, Ns, di)]
 
@@ -659,7 +659,7 @@ class InfiniteAreaLight(Light):
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
-		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time)
+		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time=time)
 
 		# compute pdf
 		dir_pdf = pdf / (2. * PI * PI * st)
-- 
2.43.0


From 5ac0eb936a2a7e74974b93d1753515854676f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 046/133] fix: the normal of an emitted ray is built by an
 existing constructor

---
 pytracer/light/light.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 23646ed..e214b4c 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -137,7 +137,7 @@ class PointLight(Light):
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
 						0., np.inf, time=time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity]
 
@@ -199,7 +199,7 @@ class SpotLight(Light):
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
 		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__falloff(ray.d)]
 
@@ -307,7 +307,7 @@ class ProjectionLight(Light):
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
 		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__projection(ray.d)]
 
@@ -391,7 +391,7 @@ class GonioPhotometricLight(Light):
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
 						0., np.inf, time=time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity * self.__scale(ray.d)]
 
@@ -440,7 +440,7 @@ class DistantLight(Light):
 
 		# set ray
 		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time=time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = 1. / (PI * rad * rad)
 		return [ray, Ns, pdf, self.l]
 
@@ -650,7 +650,7 @@ class InfiniteAreaLight(Light):
 		sp = np.sin(phi)
 		cp = np.cos(phi)
 		d = -self.l2w(geo.Vector(st * cp, st * sp, ct))
-		Ns = geo.Normal.fromVector(d)
+		Ns = geo.Normal.from_arr(d)
 
 		# choose point on disk oriented towards light
 		ctr, rad = scene.world_bound().bounding_sphere()
-- 
2.43.0


From 3b62749d88930d3047c287b311a38631b24fd86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 047/133] fix: spot, projection and goniophotometric lights
 attenuate with distance and direction

---
 pytracer/light/light.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index e214b4c..c356b99 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -191,7 +191,7 @@ class SpotLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__falloff(-wi), wi, pdf, vis]
+		return [self.intensity * self.__falloff(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -299,7 +299,7 @@ class ProjectionLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__projection(-wi), wi, pdf, vis]
+		return [self.intensity * self.__projection(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -385,7 +385,7 @@ class GonioPhotometricLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__scale(-wi), wi, pdf, vis]
+		return [self.intensity * self.__scale(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
-- 
2.43.0


From d899dba125e7937a91d4cb2b5ef857337c051b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 048/133] fix: projection light handles images and missing
 images

---
 pytracer/light/light.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index c356b99..1271bca 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -234,12 +234,12 @@ class ProjectionLight(Light):
 		try:
 			import pytracer.utility.imageio as iio
 			texels = iio.read_image(texname)
-			width, height = np.shape(texels)
+			height, width = np.shape(texels)[0:2]
 		except:
 			print('src.core.texture.{}.get_texture(): cannot process file {}, '
 					'use default one-valued MIPMap'.format(self.__class__, texname))
 			texels = None
-			width, height = 0, 0
+			width, height = 1, 1
 
 		if texels is not None:
 			from pytracer.texture import MIPMap
@@ -291,7 +291,7 @@ class ProjectionLight(Light):
 
 		s = (pl.x - self.scr_x0) / (self.scr_x1 - self.scr_x0)
 		t = (pl.y - self.scr_y0) / (self.scr_y1 - self.scr_y0)
-		return Spectrum(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT) 
+		return Spectrum.from_rgb(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -321,8 +321,9 @@ class ProjectionLight(Light):
 		diagonal of the image, scaled
 		by the average intensity.
 		"""
-		return Spectrum( self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT) * \
-					self.intensity * 2. * PI * (1. - self.cos_width)
+		avg = Spectrum(1.) if self.projMap is None else \
+			Spectrum.from_rgb(self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		return avg * self.intensity * 2. * PI * (1. - self.cos_width)
 
 	def is_delta_light(self) -> bool:
 		return True
-- 
2.43.0


From 94758953cfc0616d76a526abc584765ae29d8837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 049/133] fix: goniophotometric light reads its own map

---
 pytracer/light/light.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 1271bca..e824656 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -344,7 +344,6 @@ class GonioPhotometricLight(Light):
 		try:
 			import pytracer.utility.imageio as iio
 			texels = iio.read_image(texname)
-			width, height = np.shape(texels)
 		except:
 			print('src.core.texture.{}.get_texture(): cannot process file {}, '
 					'use default one-valued MIPMap'.format(self.__class__, texname))
@@ -378,7 +377,7 @@ class GonioPhotometricLight(Light):
 		s = phi * INV_2PI
 		t = theta * INV_PI
 
-		return Spectrum(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT)
+		return Spectrum.from_rgb(self.MIPMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -399,7 +398,9 @@ class GonioPhotometricLight(Light):
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
 	def power(self, scene: 'Scene') -> 'Spectrum':
-		return 4. * PI * self.intensity * Spectrum(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		avg = Spectrum(1.) if self.MIPMap is None else \
+			Spectrum.from_rgb(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		return 4. * PI * self.intensity * avg
 
 	def is_delta_light(self) -> bool:
 		return True
-- 
2.43.0


From 1ef4b2bbf9f700dde3b3fb7836d6df854eecb773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 050/133] fix: distant light tests visibility along a ray

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index e824656..bb98f93 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -424,7 +424,7 @@ class DistantLight(Light):
 		wi = self.di.copy()
 		pdf = 1.
 		vis = VisibilityTester()
-		vis.set_ray(p, pEps, self.pos, wi, time)
+		vis.set_ray(p, pEps, wi, time)
 		return [self.l.copy(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
-- 
2.43.0


From 1d975754204e5ef31fcdd29722f127271824c95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 051/133] fix: diffuse area light uses the total area and the
 density of the sampled point

---
 pytracer/light/light.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index bb98f93..062e437 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -477,7 +477,7 @@ class AreaLight(Light):
 									'called'.format(self.__class__)) 		
 
 
-class DiffuseAreaLight(Light):
+class DiffuseAreaLight(AreaLight):
 	"""
 	DiffuseAreaLight Class
 	
@@ -494,7 +494,7 @@ class DiffuseAreaLight(Light):
 		super().__init__(l2w, ns)
 		self.emit = emit
 		self.shape_set = ShapeSet(shape)
-		self.area = self.shape_set.areas
+		self.area = self.shape_set.sum_area
 
 	# debugging purposes only
 	def le(self, rd: 'geo.RayDifferential'):
@@ -528,7 +528,7 @@ class DiffuseAreaLight(Light):
 		if di.dot(Ns) < 0.:
 			di *= -1.
 		ray = geo.Ray(org, di, EPS, np.inf, time=time)
-		pdf = self.shape_set.pdf(org) * INV_2PI
+		pdf = self.shape_set.pdf_p(org) * INV_2PI
 		return [ray, Ns, pdf, self.l(org, Ns, di)]
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return self.shape_set.pdf(p, wi)
-- 
2.43.0


From 0c34b81834e55c9744d3c205aa6f198acc3bf3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 052/133] fix: infinite light densities, radiance and emitted
 rays

---
 pytracer/light/light.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 062e437..a570d63 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -562,7 +562,7 @@ class InfiniteAreaLight(Light):
 			try:
 				import pytracer.utility.imageio as iio
 				texels = iio.read_image(texmap)
-				width, height = np.shape(texels)
+				height, width = np.shape(texels)[0:2]
 			except:
 				print('src.core.texture.{}.get_texture(): cannot process file {}, '
 				'use default one-valued MIPMap'.format(self.__class__, texmap))
@@ -584,7 +584,7 @@ class InfiniteAreaLight(Light):
 			st = np.sin(PI * (v + .5) / height)
 			for u in range(width):
 				up = u / width
-				img[v][u] = self.radMap.look_up([up, vp, filt]).y()
+				img[v][u] = self.radMap.look_up([up, vp, filt]).y() * st
 
 		# compute sampling distribution
 		self.dist = mc.Distribution2D(img)
@@ -593,7 +593,7 @@ class InfiniteAreaLight(Light):
 		wh = geo.normalize(self.w2l(rd.d))
 		s = geo.spherical_phi(wh) * INV_2PI
 		t = geo.spherical_theta(wh) * INV_PI
-		return Spectrum.from_rgb(self.radMap.look_up(s, t), SpectrumType.ILLUMINANT)
+		return Spectrum.from_rgb(self.radMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -611,9 +611,7 @@ class InfiniteAreaLight(Light):
 		wi = self.l2w(geo.Vector(st * cp, st * sp, ct))
 
 		# compute pdf for sampled inf light direction
-		if st == 0.:
-			pdf = 0.
-		pdf = pdf / (2. * PI * PI * st)
+		pdf = 0. if st == 0. else pdf / (2. * PI * PI * st)
 
 
 		# return radiance value
@@ -630,8 +628,7 @@ class InfiniteAreaLight(Light):
 		st = np.sin(theta)
 		if st == 0.:
 			return 0.
-		return self.dist.pdf(phi * INV_2PI, theta * INV_PI / 
-				(2. * PI * PI * st))
+		return self.dist.pdf(phi * INV_2PI, theta * INV_PI) / (2. * PI * PI * st)
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -656,19 +653,17 @@ class InfiniteAreaLight(Light):
 
 		# choose point on disk oriented towards light
 		ctr, rad = scene.world_bound().bounding_sphere()
-		_, v1, v2 = geo.coordinate_system(self.di)
-		d1, d2 = mc.concentric_sample_disk(ls.u_pos[0], ls.u_pos[1])
+		_, v1, v2 = geo.coordinate_system(-d)
+		d1, d2 = mc.concentric_sample_disk(u1, u2)
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
 		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time=time)
 
 		# compute pdf
-		dir_pdf = pdf / (2. * PI * PI * st)
+		dir_pdf = 0. if st == 0. else pdf / (2. * PI * PI * st)
 		area_pdf = 1. / (PI * rad * rad)
 		pdf = dir_pdf * area_pdf
-		if st == 0.:
-			pdf == 0.
 
 		return [ray, Ns, pdf, Spectrum.from_rgb(self.radMap.look_up([uv[0], uv[1]]), SpectrumType.ILLUMINANT)]
 
-- 
2.43.0


From 419477aeb060d34884bcd576e6afdf79517b54bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 053/133] fix: the projection emission cone contains the whole
 image

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index a570d63..2c565b9 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -266,7 +266,7 @@ class ProjectionLight(Light):
 		self.proj_trans = trans.Transform.perspective(fov, self.hither, self.yon)
 
 		# compute cosine of cone
-		self.cos_width = np.cos(np.arctan(np.tan(np.deg2rad(fov) / 2.) * np.sqrt(1. + 1. / (aspect * aspect))))
+		self.cos_width = np.cos(np.arctan(np.tan(np.deg2rad(fov) / 2.) * np.sqrt(self.scr_x1 * self.scr_x1 + self.scr_y1 * self.scr_y1)))
 
 	def __projection(self, w: 'geo.Vector') -> 'Spectrum':
 		"""
-- 
2.43.0


From af66fc956f37b1e3d6420d55df35b9546621e88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 054/133] fix: a visibility tester keeps the ray it is given

---
 pytracer/light/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/utility.py b/pytracer/light/utility.py
index ccb9dc7..d4f0046 100644
--- a/pytracer/light/utility.py
+++ b/pytracer/light/utility.py
@@ -26,7 +26,7 @@ class VisibilityTester(object):
 	VisibilityTester Class
 	"""
 	def __init__(self, ray: 'geo.Ray'=None):
-		self.ray = None
+		self.ray = ray
 
 	def __repr__(self):
 		return "{}\ngeo.Ray: {}\n".format(self.__class__, self.ray)
-- 
2.43.0


From f07ada0725344e988968a09f354f93699219d562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:32 +0000
Subject: [PATCH 055/133] fix: an aggregate reports its nearest hit

---
 pytracer/aggregate/aggregate.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 029c9a2..cd76bb3 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -81,10 +81,6 @@ class SimpleAggregate(Aggregate):
 		mint = np.inf
 		for pr in self.primitives:
 			if pr.intersect(ray, tmp):
-				t0 = max(t0, ray.maxt)
-				t1 = min(t1, ray.maxt)
-				if t0 > t1:
-					continue
 				any_hit = True
 				if ray.maxt < mint:
 					mint = ray.maxt
-- 
2.43.0


From 0e3d86338b9af7183006b2f2d68a723d05dbbe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:32 +0000
Subject: [PATCH 056/133] fix: the grid walk crosses voxel boundaries where
 they are

---
 pytracer/aggregate/aggregate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index cd76bb3..f065242 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -260,7 +260,7 @@ class GridAccel(Aggregate):
 
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
-		next_crossing = [ray_t + self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis] / ray.d[axis] \
+		next_crossing = [ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis] \
 		                 for axis in range(3)]
 		delta_t = self.width / ray.d
 		step = np.full(3, 1)
@@ -269,7 +269,7 @@ class GridAccel(Aggregate):
 			# compute current voxel
 			if ray.d[axis] < 0:
 				# ray with neg. direction for stepping
-				next_crossing[axis] = ray_t + self.voxel2pos(pos[axis], axis) - grid_intersect[axis] / ray.d[axis]
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis], axis) - grid_intersect[axis]) / ray.d[axis]
 				delta_t[axis] *= -1
 				step[axis] = -1
 				out[axis] = -1
@@ -310,7 +310,7 @@ class GridAccel(Aggregate):
 
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
-		next_crossing = [ray_t + self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis] / ray.d[axis] \
+		next_crossing = [ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis] \
 		                 for axis in range(3)]
 		delta_t = self.width / ray.d
 		step = np.full(3, 1)
@@ -319,7 +319,7 @@ class GridAccel(Aggregate):
 			# compute current voxel
 			if ray.d[axis] < 0:
 				# ray with neg. direction for stepping
-				next_crossing[axis] = ray_t + self.voxel2pos(pos[axis], axis) - grid_intersect[axis] / ray.d[axis]
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis], axis) - grid_intersect[axis]) / ray.d[axis]
 				delta_t[axis] *= -1
 				step[axis] = -1
 				out[axis] = -1
-- 
2.43.0


From 6923e3ecf665b0f4112c50cf32ca6833da07be94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:32 +0000
Subject: [PATCH 057/133] fix: the grid walk starts where the ray enters the
 grid

---
 pytracer/aggregate/aggregate.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index f065242..8bdd30c 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -248,8 +248,10 @@ class GridAccel(Aggregate):
 		ray_t = 0.
 		if self.bounds.inside(ray(ray.mint)):
 			ray_t = ray.mint
-		elif not self.bounds.intersect_p(ray)[0]:
-			return False
+		else:
+			hit, ray_t, _ = self.bounds.intersect_p(ray)
+			if not hit:
+				return False
 
 		grid_intersect = ray(ray_t)
 
@@ -298,8 +300,10 @@ class GridAccel(Aggregate):
 		ray_t = 0.
 		if self.bounds.inside(ray(ray.mint)):
 			ray_t = ray.mint
-		elif not self.bounds.intersect_p(ray):
-			return False
+		else:
+			hit, ray_t, _ = self.bounds.intersect_p(ray)
+			if not hit:
+				return False
 
 		grid_intersect = ray(ray_t)
 
-- 
2.43.0


From 50d79084c3b7f39b96e1dd1f1b8685b75f4ed492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:32 +0000
Subject: [PATCH 058/133] fix: the grid walk never steps along an axis the ray
 does not move on

---
 pytracer/aggregate/aggregate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 8bdd30c..59bdcbb 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -263,7 +263,7 @@ class GridAccel(Aggregate):
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
 		next_crossing = [ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis] \
-		                 for axis in range(3)]
+		                 if ray.d[axis] != 0. else np.inf for axis in range(3)]
 		delta_t = self.width / ray.d
 		step = np.full(3, 1)
 		out = self.n_voxels.copy()
@@ -315,7 +315,7 @@ class GridAccel(Aggregate):
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
 		next_crossing = [ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis] \
-		                 for axis in range(3)]
+		                 if ray.d[axis] != 0. else np.inf for axis in range(3)]
 		delta_t = self.width / ray.d
 		step = np.full(3, 1)
 		out = self.n_voxels.copy()
-- 
2.43.0


From bf580ff008b42cf81fd89ba9dda44441fb0019f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:32 +0000
Subject: [PATCH 059/133] fix: BVH middle splits leave both sides non-empty

---
 pytracer/aggregate/accelerator/bvh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 852c5e6..93b9b69 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -111,13 +111,13 @@ class BVH(Aggregate):
 		assert start <= end
 		i = start
 		k = end - 1
-		while i < k:
+		while i <= k:
 			if data[i].centroid[dim] < mid:
 				i += 1
 			else:
 				data[i], data[k] = data[k], data[i]
 				k -= 1
-		return k
+		return i
 
 	@staticmethod
 	def _insertion_sort(data: ['BVH._BVHPrimitive'], start: INT, end: INT, dim: INT):
@@ -135,7 +135,7 @@ class BVH(Aggregate):
 		i = start
 		k = end - 1
 		diff = centroid_bounds.pMax[dim] - centroid_bounds.pMin[dim]
-		while i < k:
+		while i <= k:
 			b = INT(n_buckets * ((data[i].centroid[dim] - centroid_bounds.pMin[dim]) / diff))
 			if b == n_buckets:
 				b -= 1
@@ -147,7 +147,7 @@ class BVH(Aggregate):
 			else:
 				data[i], data[k] = data[k], data[i]
 				k -= 1
-		return k
+		return i
 
 	def _recursive_build(self, data: ['BVH._BVHPrimitive'], segment: [UINT], ordered_prims: ['BVH._BVHPrimitive']):
 		"""Recursively build BVH, segment: [start, end, total]"""
-- 
2.43.0


From a1cbc5bacf47498ee2e3d1eaed67d997e48ce074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:32 +0000
Subject: [PATCH 060/133] fix: BVH leaves chosen by cost keep their primitives

---
 pytracer/aggregate/accelerator/bvh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 93b9b69..adfd1e7 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -260,7 +260,7 @@ class BVH(Aggregate):
 					else:
 						first = len(ordered_prims)
 						for i in range(start, end):
-							ordered_prims.append(self.primitives[data[i]].prim_idx)
+							ordered_prims.append(self.primitives[data[i].prim_idx])
 						node.init_leaf(first, n_prim, bbox)
 						return node
 
-- 
2.43.0


From aa8da52a34149b8fb3843fe57119bca8f694f9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:32 +0000
Subject: [PATCH 061/133] fix: BVH falls back to the surface area heuristic for
 unsupported methods

---
 pytracer/aggregate/accelerator/bvh.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index adfd1e7..376c951 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -76,8 +76,6 @@ class BVH(Aggregate):
 			self.split_method = BVH.SplitMethod.SAH
 		elif method.lower() == 'middle':
 			self.split_method = BVH.SplitMethod.MIDDLE
-		elif method.lower() == 'equal':
-			self.split_method = BVH.SplitMethod.EQUAL_COUNTS
 		else:
 			util.logging('Error', 'BVH split method unknown, using SAH.')
 			self.split_method = BVH.SplitMethod.SAH
-- 
2.43.0


From 52f0d0b2e1140628e1a065247f66f50e94993591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:32 +0000
Subject: [PATCH 062/133] fix: the BVH traversal stack holds every pending node

---
 pytracer/aggregate/accelerator/bvh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 376c951..324f5ae 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -327,7 +327,7 @@ class BVH(Aggregate):
 		
 		todo_idx = 0
 		node_idx = 0
-		todo = [None] * 64
+		todo = [None] * len(self.nodes)
 		while True:
 			node = self.nodes[node_idx]
 			# check intersection
@@ -372,7 +372,7 @@ class BVH(Aggregate):
 
 		todo_idx = 0
 		node_idx = 0
-		todo = [None] * 64
+		todo = [None] * len(self.nodes)
 		while True:
 			node = self.nodes[node_idx]
 			# check intersection
-- 
2.43.0


From bc1142a8ecfce7286500db43ef9c6db8e9bb0d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:32 +0000
Subject: [PATCH 063/133] fix: transformed primitives can be instantiated

---
 pytracer/aggregate/primitive.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pytracer/aggregate/primitive.py b/pytracer/aggregate/primitive.py
index 8daeae1..ec75d62 100644
--- a/pytracer/aggregate/primitive.py
+++ b/pytracer/aggregate/primitive.py
@@ -141,7 +141,7 @@ class TransformedPrimitive(Primitive):
 		self.w2p = w2p
 
 	def __repr__(self):
-		return super().__repr__(self) + '\n{}'.format(self.prim)
+		return super().__repr__() + '\n{}'.format(self.primitive)
 
 	def intersect(self, r: 'geo.Ray', isect: 'Intersection') -> bool:
 		w2p = self.w2p.interpolate(r.time)
@@ -176,11 +176,21 @@ class TransformedPrimitive(Primitive):
 		return self.w2p.motion_bounds(self.primitive.world_bound(), True)
 
 	def can_intersect(self) -> bool:
-		return self.shape.can_intersect()
+		return self.primitive.can_intersect()
 
 	def refine(self, refined: ['Primitive']):
-		r = self.shape.refine()
-		for sh in r:
-			refined.append(GeometricPrimitive(sh, self.material, self.areaLight))
+		r = []
+		self.primitive.refine(r)
+		for prim in r:
+			refined.append(TransformedPrimitive(prim, self.w2p))
+
+	def get_area_light(self):
+		return None
+
+	def get_bsdf(self, dg: 'geo.DifferentialGeometry', o2w: 'trans.Transform'):
+		raise RuntimeError('{}.get_bsdf(): Should not be called'.format(self.__class__))
+
+	def get_bssrdf(self, dg: 'geo.DifferentialGeometry', o2w: 'trans.Transform'):
+		raise RuntimeError('{}.get_bssrdf(): Should not be called'.format(self.__class__))
 
 
-- 
2.43.0


From 5ca740f59ec2b11cb69361e39d485556677ffc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:32 +0000
Subject: [PATCH 064/133] fix: a scene does not grow the bounds of its
 aggregate

---
 pytracer/scene/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/scene/scene.py b/pytracer/scene/scene.py
index e81a69e..7f5a76d 100644
--- a/pytracer/scene/scene.py
+++ b/pytracer/scene/scene.py
@@ -26,7 +26,7 @@ class Scene(object):
 
 		self.bound = self.aggregate.world_bound()
 		if self.vr is not None:
-			self.bound.union(vr.world_bound())
+			self.bound = geo.BBox.Union(self.bound, vr.world_bound())
 
 	def __repr__(self):
 		return "{}\nAggregates: {}\nLights: {}\nVolume Regions: {}" \
-- 
2.43.0


From 19be0da6daea98f047dc345712b3790624404345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 065/133] fix: specular transmission uses the radiance, not the
 transmittance

---
 pytracer/integrator/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 6ee7a79..049e80b 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -194,7 +194,7 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
 			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
 
-		_, Li = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, isect, rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
-- 
2.43.0


From 1e0eb13597d74fd0c7e8f1b3c5c62b919a70e80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 066/133] fix: specular rays do not overwrite the hit they
 leave from

---
 pytracer/integrator/utility.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 049e80b..527c812 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -119,6 +119,7 @@ def uniform_sample_one_light(scene: 'Scene', renderer: 'Renderer', p: 'geo.Point
 
 def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersection',
                      renderer: 'Renderer', scene: 'Scene', sample: 'Sample', rng) -> 'Spectrum':
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import (BDFType, BSDFSample)
 
 	wo = -ray.d
@@ -149,7 +150,7 @@ def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersect
 			rd.rxDirection = wi - dwodx + 2. * geo.Vector.from_arr(wo.dot(n) * dndx + dDNdx * n)
 			rd.ryDirection = wi - dwody + 2. * geo.Vector.from_arr(wo.dot(n) * dndy + dDNdy * n)
 
-		Li, _ = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
@@ -157,6 +158,7 @@ def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersect
 
 def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersection',
                       renderer: 'Renderer', scene: 'Scene', sample: 'Sample', rng) -> 'Spectrum':
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import (BDFType, BSDFSample)
 	wo = -ray.d
 	p = bsdf.dgs.p
@@ -194,7 +196,7 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
 			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
 
-		Li, _ = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
-- 
2.43.0


From 8f06197e789fac55c694412cb3f20186b7317ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 067/133] fix: refracted ray differentials follow Snell's law

---
 pytracer/integrator/utility.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 527c812..f540ddf 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -175,10 +175,10 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 
 			eta = bsdf.eta
 			w = -wo
-			if wo.dot(n) < 0.:
+			if wo.dot(n) > 0.:
 				eta = 1. / eta
 
-			# compute reflected directions of differentials
+			# compute refracted directions of differentials
 			dndx = bsdf.dgs.dndu * bsdf.dgs.dudx + \
 				   bsdf.dgs.dndv * bsdf.dgs.dvdx
 			dndy = bsdf.dgs.dndu * bsdf.dgs.dudy + \
@@ -186,15 +186,15 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 
 			dwodx = -ray.rxDirection - wo
 			dwody = -ray.ryDirection - wo
-			dDNdx = dwodx.dot(n) + wo.dot(dndx)
-			dDNdy = dwody.dot(n) + wo.dot(dndy)
+			dDNdx = -dwodx.dot(n) + w.dot(dndx)
+			dDNdy = -dwody.dot(n) + w.dot(dndy)
 
 			mu = eta * w.dot(n) - wi.dot(n)
 			dmudx = (eta - (eta * eta * w.dot(n) / wi.dot(n))) * dDNdx
 			dmudy = (eta - (eta * eta * w.dot(n) / wi.dot(n))) * dDNdy
 
-			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
-			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
+			rd.rxDirection = wi - eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
+			rd.ryDirection = wi - eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
 
 		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
-- 
2.43.0


From c9644c4b5d08614ce5d346aac460a598207e6c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 068/133] fix: direct lighting weighs and adds its BSDF samples

---
 pytracer/integrator/utility.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index f540ddf..cf78aab 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -236,25 +236,25 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 		bsdf_pdf, wi, smp_type, f = bsdf.sample_f(wo, bsdf_smp, flags)
 		if not util.is_black(f) and bsdf_pdf > 0.:
 			wt = 1.
-			if not (smp_type & BDFType.SPECULAR).v == 0:  # MIS not apply to specular direction
+			if not (smp_type & BDFType.SPECULAR):  # MIS not apply to specular direction
 				light_pdf = light.pdf(p, wi)
 				if light_pdf == 0.:
 					return Ld
 				from pytracer.montecarlo import power_heuristic
 				wt = power_heuristic(1, bsdf_pdf, 1, light_pdf)
-				# add contribution
-				Li = Spectrum(0.)
-				ray = geo.RayDifferential(p, wi, r_eps, np.inf, time)
-				hit, light_isect = scene.intersect(ray)
-				if hit:
-					if light_isect.primitive.get_area_light() == light:
-						Li = light_isect.le(-wi)
-				else:
-					Li = light.le(ray) # light illum.
-
-				if not util.is_black(Li):
-					Li *= renderer.transmittance(scene, ray, None, rng) # attenuation
-					Ld += f * Li * wi.abs_dot(n) * wt / bsdf_pdf
+			# add contribution
+			Li = Spectrum(0.)
+			ray = geo.RayDifferential(p, wi, r_eps, np.inf, time)
+			hit, light_isect = scene.intersect(ray)
+			if hit:
+				if light_isect.primitive.get_area_light() == light:
+					Li = light_isect.le(-wi)
+			else:
+				Li = light.le(ray) # light illum.
+
+			if not util.is_black(Li):
+				Li *= renderer.transmittance(scene, ray, None, rng) # attenuation
+				Ld += f * Li * wi.abs_dot(n) * wt / bsdf_pdf
 
 	return Ld
 
-- 
2.43.0


From 7b3a5d261686d2d62f15bf67d2b1203791308736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 069/133] fix: direct lighting traces its BSDF samples as the
 scene expects

---
 pytracer/integrator/utility.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index cf78aab..b839e16 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -211,6 +211,7 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 	Estimate direct lighting
 	using MC Multiple Importance Sampling.
 	"""
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import BDFType
 	Ld = Spectrum(0.)
 	# sample light source
@@ -244,9 +245,9 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 				wt = power_heuristic(1, bsdf_pdf, 1, light_pdf)
 			# add contribution
 			Li = Spectrum(0.)
-			ray = geo.RayDifferential(p, wi, r_eps, np.inf, time)
-			hit, light_isect = scene.intersect(ray)
-			if hit:
+			ray = geo.RayDifferential(p, wi, r_eps, np.inf, time=time)
+			light_isect = Intersection()
+			if scene.intersect(ray, light_isect):
 				if light_isect.primitive.get_area_light() == light:
 					Li = light_isect.le(-wi)
 			else:
-- 
2.43.0


From 6272f6bad02d9436d97a639307361a9f930b84ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 070/133] fix: attenuating light does not dim its source

---
 pytracer/integrator/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index b839e16..6f3f8d5 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -222,7 +222,7 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 			# add contribution to reflected radiance
 			## account for attenuation due to participating media,
 			## left for `VolumeIntegrator` to do
-			Li *= vis.transmittance(scene, renderer, None, rng)
+			Li = Li * vis.transmittance(scene, renderer, None, rng)
 			if light.is_delta_light():
 				Ld += f * Li * (wi.abs_dot(n) / light_pdf)
 			else:
@@ -254,7 +254,7 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 				Li = light.le(ray) # light illum.
 
 			if not util.is_black(Li):
-				Li *= renderer.transmittance(scene, ray, None, rng) # attenuation
+				Li = Li * renderer.transmittance(scene, ray, None, rng) # attenuation
 				Ld += f * Li * wi.abs_dot(n) * wt / bsdf_pdf
 
 	return Ld
-- 
2.43.0


From a6549693bacceb9f9065f3c15719209066bbfc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 071/133] fix: an area light does not shine along rays that
 miss it

---
 pytracer/light/light.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 2c565b9..e5e945b 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -496,10 +496,6 @@ class DiffuseAreaLight(AreaLight):
 		self.shape_set = ShapeSet(shape)
 		self.area = self.shape_set.sum_area
 
-	# debugging purposes only
-	def le(self, rd: 'geo.RayDifferential'):
-		return self.emit
-
 	def l(self, p: 'geo.Point', n: 'geo.Normal', w: 'geo.Vector') -> 'Spectrum':
 		return self.emit if n.dot(w) > 0. else Spectrum(0.)
 
-- 
2.43.0


From 88008d7ed34d23b7dfcf73df8d6497c6893a66c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 072/133] fix: the one-light strategy requests and uses its
 samples

---
 pytracer/integrator/surface/direct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/surface/direct.py b/pytracer/integrator/surface/direct.py
index ad5461c..980341b 100644
--- a/pytracer/integrator/surface/direct.py
+++ b/pytracer/integrator/surface/direct.py
@@ -64,7 +64,7 @@ class DirectLightingIntegrator(SurfaceIntegrator):
 			# sampling one light
 			n_lights = len(scene.lights)
 			self.light_sample_offsets = [LightSampleOffset(1, sample)]
-			self.light_num_offset = sample.add1d(1)
+			self.light_num_offset = sample.add_1d(1)
 			self.bsdf_sample_offsets = [BSDFSampleOffset(1, sample)]
 
 	def li(self, scene: 'Scene', renderer: 'Renderer', ray: 'geo.RayDifferential',
@@ -91,7 +91,7 @@ class DirectLightingIntegrator(SurfaceIntegrator):
 			elif self.strategy == LightStrategy.SAMPLE_ONE_UNIFORM:
 				from pytracer.integrator.utility import uniform_sample_one_light
 				L += uniform_sample_one_light(scene, renderer, p, n, wo, isect.rEps, ray.time,
-						bsdf, sample, self.light_num_offset, self.light_sample_offsets, self.bsdf_sample_offsets, rng)
+						bsdf, sample, self.light_num_offset, self.light_sample_offsets[0], self.bsdf_sample_offsets[0], rng)
 
 			else:
 				raise RuntimeError("Unknown LightStrategy")
-- 
2.43.0


From e4f96a39e2559447bf552fda816bb01837c2f1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 073/133] fix: a path counts emission only after specular
 bounces

---
 pytracer/integrator/surface/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/integrator/surface/path.py b/pytracer/integrator/surface/path.py
index 0d30e6a..87f2aeb 100644
--- a/pytracer/integrator/surface/path.py
+++ b/pytracer/integrator/surface/path.py
@@ -109,7 +109,7 @@ class PathIntegrator(SurfaceIntegrator):
 			if f.is_black() or pdf == 0.:
 				break
 			# print('+++++')
-			specular_bounce = (flags & BDFType.SPECULAR) != 0
+			specular_bounce = bool(flags & BDFType.SPECULAR)
 			path_throughput *= f * wi.abs_dot(n) / pdf
 			ray = geo.RayDifferential.from_parent(p, wi, ray, isectp.rEps)
 			# print('#')
-- 
2.43.0


From 198475657b6ec3c2b3a88a260f6a25ac46580f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 074/133] fix: a path is attenuated along every segment

---
 pytracer/integrator/surface/path.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytracer/integrator/surface/path.py b/pytracer/integrator/surface/path.py
index 87f2aeb..3832b53 100644
--- a/pytracer/integrator/surface/path.py
+++ b/pytracer/integrator/surface/path.py
@@ -134,8 +134,7 @@ class PathIntegrator(SurfaceIntegrator):
 						L += path_throughput * light.le(ray)
 				break
 			# print('###')
-			if bounce_cnt > 1:
-				path_throughput *= renderer.transmittance(scene, ray, None, rng)
+			path_throughput *= renderer.transmittance(scene, ray, None, rng)
 
 			isectp = local_isect
 
-- 
2.43.0


From 2c2d4a4286600cb21bf917fd23dc091b9d94d455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 075/133] fix: camera rays that miss the scene see its lights

---
 pytracer/renderer/renderer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 8c82b83..9582bdf 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -165,16 +165,14 @@ class SamplerRendererTask(object):
 				wt, rays[i] = self.camera.generate_ray_differential(sample)
 				rays[i].scale_differential(1. / np.sqrt(sampler.spp))
 
-				hit = self.scene.intersect_p(rays[i])
-
 				if self.vis_obj_id:
-					if hit and wt > 0.:
+					if wt > 0. and self.scene.intersect_p(rays[i]):
 						# random shading
 						Ls[i] = Spectrum.from_rgb([1., 1., 1.])
 					else:
 						Ls[i] = Spectrum(0.)
 				else:
-					if hit and wt > 0.:
+					if wt > 0.:
 						Ls[i], Ts[i] = self.renderer.li(self.scene, rays[i], sample, isects[i], rng)
 						Ls[i] *= wt
 
-- 
2.43.0


From bc2264c52a170bea3c32e79959290635c91f207c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 076/133] fix: without a medium nothing is absorbed

---
 pytracer/renderer/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 9582bdf..6809e85 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -72,7 +72,7 @@ class SamplerRenderer(Renderer):
 
 			return T * li + lvi, T
 		else:
-			return li, Spectrum(0.)
+			return li, Spectrum(1.)
 
 	def transmittance(self, scene: 'Scene', ray: 'geo.RayDifferential', sample: 'Sample',
 									rng='np.random.rand') -> 'Spectrum':
-- 
2.43.0


From dbef53b10ab4649b341a8530f3469975d1e70f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 077/133] fix: the default generator of transmittance is a
 function

---
 pytracer/renderer/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 6809e85..437bc89 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -75,7 +75,7 @@ class SamplerRenderer(Renderer):
 			return li, Spectrum(1.)
 
 	def transmittance(self, scene: 'Scene', ray: 'geo.RayDifferential', sample: 'Sample',
-									rng='np.random.rand') -> 'Spectrum':
+									rng=np.random.rand) -> 'Spectrum':
 		if self.vol_integrator is not None:
 			return self.vol_integrator.transmittance(scene, self, ray, sample, rng)
 		else:
-- 
2.43.0


From 64478fd82757648561b086b2cfc1ba851cdcefc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 078/133] fix: a camera ray carries the time of its sample

---
 pytracer/camera/environment.py | 4 +---
 pytracer/camera/projective.py  | 6 +++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/pytracer/camera/environment.py b/pytracer/camera/environment.py
index 2bd04b8..c296803 100644
--- a/pytracer/camera/environment.py
+++ b/pytracer/camera/environment.py
@@ -31,13 +31,11 @@ class EnvironmentCamera(Camera):
 		Generate ray based on image sample.
 		Returned ray direction is normalized
 		"""
-		time = util.lerp(sample.time, self.s_open, self.s_close)
-
 		# compute ray direction
 		theta = np.pi * sample.imageY / self.film.yResolution
 		phi = 2 * np.pi * sample.imageX / self.film.xResolution
 		stheta = np.sin(theta)
 
 		ray = self.c2w(geo.Ray(geo.Point(0., 0., 0.),
-				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, 0, time))
+				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, 0, sample.time))
 		return [1., ray]
diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index edc597d..d26cab6 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -106,7 +106,7 @@ class OrthoCamera(ProjectiveCamera):
 			ray.o = geo.Point(lens_u, lens_v, 0.)
 			ray.d = geo.normalize(Pfoc - ray.o)
 
-		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
+		ray.time = sample.time
 		ray = self.c2w(ray)
 		return [1., ray]
 
@@ -170,7 +170,7 @@ class PerspectiveCamera(ProjectiveCamera):
 			ray.o = geo.Point(lens_u, lens_v, 0.)
 			ray.d = geo.normalize(Pfoc - ray.o)
 
-		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
+		ray.time = sample.time
 		ray = self.c2w(ray)
 		return [1., ray]
 
@@ -224,7 +224,7 @@ class PerspectiveCamera(ProjectiveCamera):
 			ray.rxDirection = geo.normalize(self.dxCam + p_cam)  # geo.Vector + geo.Point => geo.Vector
 			ray.ryDirection = geo.normalize(self.dyCam + p_cam)
 
-		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
+		ray.time = sample.time
 		ray = self.c2w(ray)
 		ray.has_differentials = True
 
-- 
2.43.0


From 301265d33017b0362cf762b3e8347681bc55fb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 079/133] fix: media intersect the ray in their own space

---
 pytracer/volume/volume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 2a13f79..7465f5a 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -138,7 +138,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 	def sigma_a(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self.sig_a if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
@@ -301,7 +301,7 @@ class VolumeGridDensity(DensityRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 
 class ExponentialDensity(DensityRegion):
@@ -331,7 +331,7 @@ class ExponentialDensity(DensityRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 
 class AggregateVolume(VolumeRegion):
-- 
2.43.0


From 16fa332a72b6aa1b929f569e163a27cb399fb5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 080/133] fix: media use their asymmetry parameter in the phase
 function

---
 pytracer/volume/volume.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 7465f5a..1c9c7e8 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -157,7 +157,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 		if not self.extent.inside(self.w2v(pnt)):
 			return 0.
 		from pytracer.volume.utility import phase_hg
-		return phase_hg(wi, wo, tm)
+		return phase_hg(wi, wo, self.g)
 
 	def tau(self, ray: 'geo.Ray', step: FLOAT=1., offset: FLOAT=.5) ->  'Spectrum':
 		isec, t0, t1 = self.intersect_p(ray)
@@ -210,7 +210,7 @@ class DensityRegion(VolumeRegion):
 		Does not scale the phase function.
 		"""
 		from pytracer.volume.utility import phase_hg
-		return phase_hg(w, wp, tm)
+		return phase_hg(w, wp, self.g)
 
 	def sigma_t(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self(self.w2v(pnt)) * (self.sig_a + self.sig_s)
-- 
2.43.0


From a7c3d991659f8eb4fefd065babeea9231ed918f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 081/133] fix: a grid of densities can be built and is indexed
 by layer, row and column

---
 pytracer/volume/volume.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 1c9c7e8..dfec471 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -243,18 +243,13 @@ class VolumeGridDensity(DensityRegion):
 	"""
 	def __init__(self, sig_a: 'Spectrum', sig_s: 'Spectrum', g: FLOAT, le: 'Spectrum',
 					extent: 'geo.BBox', v2w: 'trans.Transform', d: 'np.ndarray'):
-		super().__init__()
-		self.sig_a = sig_a
-		self.sig_s = sig_s
-		self.g = g
-		self.le = le
+		super().__init__(sig_a, sig_s, g, le, v2w)
 		self.extent = extent
-		self.w2v = v2w.inverse()
 		self.density = d.copy() 	# 3D np array of densities in [z][y][x] order
 
 	@property
 	def nx(self):
-		return np.shape(self.density)[0]
+		return np.shape(self.density)[2]
 
 	@property
 	def ny(self):
@@ -262,10 +257,12 @@ class VolumeGridDensity(DensityRegion):
 
 	@property
 	def nz(self):
-		return np.shape(self.density)[2]
+		return np.shape(self.density)[0]
 
 	def __D(self, x: INT, y: INT, z: INT) -> FLOAT:
-		x, y, z = np.clip([x, y, z], 0, np.shape(self.density) - 1).astype(INT)
+		x = min(max(x, 0), self.nx - 1)
+		y = min(max(y, 0), self.ny - 1)
+		z = min(max(z, 0), self.nz - 1)
 		return self.density[z][y][x]
 	
 	def __call__(self, pnt: 'geo.Point') -> FLOAT:
@@ -274,8 +271,7 @@ class VolumeGridDensity(DensityRegion):
 
 		# compute voxel coordinates and offsets
 		vox = self.extent.offset(pnt)
-		vox *= np.shape(self.density)
-		vox -= .5
+		vox = geo.Vector(vox.x * self.nx - .5, vox.y * self.ny - .5, vox.z * self.nz - .5)
 		vx = util.ftoi(vox.x)
 		vy = util.ftoi(vox.y)
 		vz = util.ftoi(vox.z)
-- 
2.43.0


From 5aad362f73f2563551bb5f84b0985f2054353d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 082/133] fix: an aggregate of media adds up the emission of
 its parts

---
 pytracer/volume/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index dfec471..354d580 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -364,7 +364,7 @@ class AggregateVolume(VolumeRegion):
 	def lve(self, pnt: 'geo.Point', w: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		s = Spectrum(0.)
 		for region in self.regions:
-			s += region.le(pnt, w, tm)
+			s += region.lve(pnt, w, tm)
 		return s		
 
 	def p(self, pnt: 'geo.Point', wi: 'geo.Vector', wo: 'geo.Vector', tm: FLOAT) ->  FLOAT:
-- 
2.43.0


From 7311ea59783d281c4ffcb2cf30999e413e6527b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 083/133] fix: an aggregate of media mixes phase functions by
 scattering

---
 pytracer/volume/volume.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 354d580..c7ca9bb 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -368,10 +368,13 @@ class AggregateVolume(VolumeRegion):
 		return s		
 
 	def p(self, pnt: 'geo.Point', wi: 'geo.Vector', wo: 'geo.Vector', tm: FLOAT) ->  FLOAT:
-		s = Spectrum(0.)
+		ph = 0.
+		sum_wt = 0.
 		for region in self.regions:
-			s += region.p(pnt, wi, wo, tm)
-		return s		
+			wt = region.sigma_s(pnt, wi, tm).y()
+			sum_wt += wt
+			ph += wt * region.p(pnt, wi, wo, tm)
+		return ph / sum_wt if sum_wt > 0. else 0.
 
 	def tau(self, ray: 'geo.Ray', step: FLOAT=1., offset: FLOAT=.5) ->  'Spectrum':
 		s = Spectrum(0.)
-- 
2.43.0


From cf4e49ec93e823c2899b63d9ef90e62e006f1fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 084/133] fix: a marched ray keeps its time

---
 pytracer/volume/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index c7ca9bb..55ff390 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -222,7 +222,7 @@ class DensityRegion(VolumeRegion):
 		if length == 0.:
 			return tau
 
-		rn = geo.Ray(r.o, r.d / length, r.mint * length, r.maxt * length, r.time)
+		rn = geo.Ray(r.o, r.d / length, r.mint * length, r.maxt * length, r.depth, r.time)
 		hit, t0, t1 = self.intersect_p(rn)
 		if not hit:
 			return tau
-- 
2.43.0


From 7fd0afe018aa82cec576f6ed4ccd6328b173f2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 085/133] fix: the Schlick phase function divides by the
 squared term

---
 pytracer/volume/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/utility.py b/pytracer/volume/utility.py
index 46af7f3..712bcdd 100644
--- a/pytracer/volume/utility.py
+++ b/pytracer/volume/utility.py
@@ -49,7 +49,7 @@ def phase_hg(w: 'geo.Vector', wp: 'geo.Vector', g: FLOAT) -> FLOAT:
 def phase_schlick(w: 'geo.Vector', wp: 'geo.Vector', g: FLOAT) -> FLOAT:
 	k = 1.55 * g - .55 * g * g * g
 	kct = k * w.dot(wp)
-	return ((1. - k * k) / (1. - kct) * (1. - kct)) / (4. * PI);
+	return ((1. - k * k) / ((1. - kct) * (1. - kct))) / (4. * PI);
 
 
 # Utility Functions
-- 
2.43.0


From 3f76b8e227657282e131023aa2ec30a32373f131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 086/133] fix: measured media are stored with scattering first

---
 pytracer/volume/utility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/volume/utility.py b/pytracer/volume/utility.py
index 712bcdd..f5ae102 100644
--- a/pytracer/volume/utility.py
+++ b/pytracer/volume/utility.py
@@ -72,8 +72,9 @@ def get_volume_scattering(name: str) -> ['Spectrum', 'Spectrum']:
 	"""
 	from pytracer.data.volume import MEASURED_SUF_SC
 	if name in MEASURED_SUF_SC:
-		return [Spectrum.from_rgb(MEASURED_SUF_SC[name][0]),
-		        Spectrum.from_rgb(MEASURED_SUF_SC[name][1])]
+		# stored in the order of sigma'_s, sigma_a
+		return [Spectrum.from_rgb(MEASURED_SUF_SC[name][1]),
+		        Spectrum.from_rgb(MEASURED_SUF_SC[name][0])]
 	return [None, None]
 
 
-- 
2.43.0


From 7f5ad48da5fe54e3a52c94f33b931a4a77c57630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 087/133] fix: a BSSRDF can be printed

---
 pytracer/volume/bssrdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/bssrdf.py b/pytracer/volume/bssrdf.py
index 58ddccd..8ba6d8d 100644
--- a/pytracer/volume/bssrdf.py
+++ b/pytracer/volume/bssrdf.py
@@ -28,7 +28,7 @@ class BSSRDF(object):
 		self.__sigp_s = sigp_s #reduced scattering coefficient (1. - sigma_s)
 
 	def __repr__(self):
-		return "{}\nEta: {} sigma_a: {} sigma'_s: {}\n".format(self.__class__,
+		return "{}\nEta: {} sigma_a: {} sigma'_s: {}\n".format(self.__class__, self.__e,
 						self.__sig_a, self.__sigp_s)
 
 	@property
-- 
2.43.0


From 2c5d843425d6c5fb79b8364e274e6e77afbb5aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:17 +0000
Subject: [PATCH 088/133] fix: an RGB spectrum can be created from a list

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index afc93b4..6fd8793 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -580,7 +580,7 @@ class RGBSpectrum(CoefficientSpectrum):
 
 		elif isinstance(arg, Iterable):
 			if np.ndim(arg) == 1 and np.shape(arg)[0] == 3:
-				return np.ndarray(arg).view(cls)
+				return np.array(arg).view(cls)
 
 		raise TypeError('Unsupported type {} for init {}'.format(type(arg), cls))
 
-- 
2.43.0


From 604f8c9cc8c8a8df574613aff605a70bd559f816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:17 +0000
Subject: [PATCH 089/133] fix: sampled spectra average over their own cell

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index 6fd8793..c8264a0 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -421,7 +421,7 @@ class SampledSpectrum(CoefficientSpectrum):
 		self = cls()
 		for i in range(N_SPECTRAL_SAMPLES):
 			l0 = util.lerp(i / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
-			l1 = util.lerp(i+1 / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
+			l1 = util.lerp((i+1) / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
 			self[i] = cls.average_spectrum_samples(lam, v, l0, l1)
 
 		return self
-- 
2.43.0


From 299fae8f3b3eee729e8b04651c2dfe8927567727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:17 +0000
Subject: [PATCH 090/133] fix: averaging a table stops at a wavelength of the
 table

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index c8264a0..42d953c 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -470,7 +470,7 @@ class SampledSpectrum(CoefficientSpectrum):
 			bk_lam_lo = lam[idx_lo]
 			bk_v_lo = v[idx_lo]
 
-		if idx_hi < len(lam) and lam[idx_hi] != le:
+		if idx_hi < len(lam):
 			bk_lam_hi = lam[idx_hi]
 			bk_v_hi = v[idx_hi]
 			v[idx_hi] = util.lerp((bk_lam_hi - le) / (lam[idx_hi] - lam[idx_hi-1]), v[idx_hi], v[idx_hi-1])
-- 
2.43.0


From 8bf9da167d0e867db6edfd4ecb191d7f5ac6af15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:17 +0000
Subject: [PATCH 091/133] fix: RGB to spectrum picks its basis by channel

---
 pytracer/spectral/spectrum.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index 42d953c..4a7a254 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -502,9 +502,9 @@ class SampledSpectrum(CoefficientSpectrum):
 			if lo == 0:
 				spec = [cls.rgbRefl2SpectCyan, cls.rgbRefl2SpectGreen, cls.rgbRefl2SpectBlue]
 			elif lo == 1:
-				spec = [cls.rgbRefl2SpectMagenta, cls.rgbRefl2SpectRed, cls.rgbRefl2SpectBlue]
+				spec = [cls.rgbRefl2SpectRed, cls.rgbRefl2SpectMagenta, cls.rgbRefl2SpectBlue]
 			else:
-				spec = [cls.rgbRefl2SpectYellow, cls.rgbRefl2SpectRed, cls.rgbRefl2SpectGreen]
+				spec = [cls.rgbRefl2SpectRed, cls.rgbRefl2SpectGreen, cls.rgbRefl2SpectYellow]
 
 			self += rgb[lo] * cls.rgbRefl2SpectWhite
 			self += (rgb[me] - rgb[lo]) * spec[lo]
@@ -517,9 +517,9 @@ class SampledSpectrum(CoefficientSpectrum):
 			if lo == 0:
 				spec = [cls.rgbIllum2SpectCyan, cls.rgbIllum2SpectGreen, cls.rgbIllum2SpectBlue]
 			elif lo == 1:
-				spec = [cls.rgbIllum2SpectMagenta, cls.rgbIllum2SpectRed, cls.rgbIllum2SpectBlue]
+				spec = [cls.rgbIllum2SpectRed, cls.rgbIllum2SpectMagenta, cls.rgbIllum2SpectBlue]
 			else:
-				spec = [cls.rgbIllum2SpectYellow, cls.rgbIllum2SpectRed, cls.rgbIllum2SpectGreen]
+				spec = [cls.rgbIllum2SpectRed, cls.rgbIllum2SpectGreen, cls.rgbIllum2SpectYellow]
 
 			self += rgb[lo] * cls.rgbIllum2SpectWhite
 			self += (rgb[me] - rgb[lo]) * spec[lo]
-- 
2.43.0


From 3dfe946875b017eb02a853aa5e9b1e78efd3d1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 092/133] fix: texture coordinate differentials in t

---
 pytracer/texture/texturemap/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/texturemap/__init__.py b/pytracer/texture/texturemap/__init__.py
index e79113b..549b9e4 100644
--- a/pytracer/texture/texturemap/__init__.py
+++ b/pytracer/texture/texturemap/__init__.py
@@ -84,7 +84,7 @@ class SphericalMapping2D(TextureMapping2D):
 
 		sy, ty = self.__sphere(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - s) / delta
+		dtdy = (ty - t) / delta
 		if dtdy > .5:
 			dtdy = 1. - dtdy
 		elif dtdy < -.5:
@@ -123,7 +123,7 @@ class CylindricalMapping2D(TextureMapping2D):
 
 		sy, ty = self.__cylinder(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - s) / delta
+		dtdy = (ty - t) / delta
 		if dtdy > .5:
 			dtdy = 1. - dtdy
 		elif dtdy < -.5:
-- 
2.43.0


From 6ff98f2237f5f9840319ee1498fe8b087459f97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 093/133] fix: the cylindrical texture mapping uses numpy's
 arctan2

---
 pytracer/texture/texturemap/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/texturemap/__init__.py b/pytracer/texture/texturemap/__init__.py
index 549b9e4..3749900 100644
--- a/pytracer/texture/texturemap/__init__.py
+++ b/pytracer/texture/texturemap/__init__.py
@@ -104,7 +104,7 @@ class CylindricalMapping2D(TextureMapping2D):
 		[s, t].
 		"""
 		v = geo.normalize(self.w2t(p) - geo.Point(0., 0., 0.))
-		return [(PI + self.arctan2(v.y, v.x)) * INV_2PI, v.z]
+		return [(PI + np.arctan2(v.y, v.x)) * INV_2PI, v.z]
 
 	def __call__(self, dg: 'geo.DifferentialGeometry') -> [FLOAT]:
 		s, t = self.__cylinder(dg.p)
-- 
2.43.0


From 13c016cc5f4be8ddf0492a6569593e6e81dd107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 094/133] fix: the noise gradient negates its first component

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index dbe61bf..7e1499e 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -108,7 +108,7 @@ def _grad(x: INT, y: INT, z: INT, dx, dy, dz):
 	u = dx if h < 8 or h == 12 or h == 13 else dy
 	v = dy if h < 4 or h == 12 or h == 13 else dz
 	if h & 1:
-		u = -1
+		u = -u
 	if h & 2:
 		v = -v
 	return u + v
-- 
2.43.0


From 9d35d0e2f197b38c287fab1127c2ed49ad7af460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 095/133] fix: noise interpolates in y between the upper edges

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 7e1499e..da75b2c 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -160,7 +160,7 @@ def noise(pnt: 'geo.Point') -> FLOAT:
 	x01 = util.lerp(wx, w001, w101)
 	x11 = util.lerp(wx, w011, w111)
 	y0 = util.lerp(wy, x00, x10)
-	y1 = util.lerp(wz, x01, x11)
+	y1 = util.lerp(wy, x01, x11)
 	return util.lerp(wz, y0, y1)
 
 
-- 
2.43.0


From b681d84965bdfe4df9e0efa95283a0429cd624d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 096/133] fix: FBm adds its octaves to the result

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index da75b2c..923924e 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -66,7 +66,7 @@ def FBm(p: 'geo.Point', dpdx: 'geo.Vector', dpdy: 'geo.Vector', omega: FLOAT, ma
 	l = 1.
 	o = 1.
 	for i in range(octaves):
-		sum += o * noise(l * p)
+		s += o * noise(l * p)
 		l *= 1.99  # not 2, since noise() returns 0. at integral grids
 		o *= omega
 	par = foct - octaves
-- 
2.43.0


From 9169e8fa6d4141fd0f2166ace0afb6f96b0adbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 097/133] fix: smooth_step interpolates between its bounds

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 923924e..ae58b82 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -46,7 +46,7 @@ def smooth_step(lo: FLOAT, hi: FLOAT, val: FLOAT):
 
 	Clip but with smooth interpolation
 	"""
-	v = np.clip(val, lo, hi)
+	v = np.clip((val - lo) / (hi - lo), 0., 1.)
 	return v * v * (3. - 2. * v)
 
 
-- 
2.43.0


From 147d380f2f81940efbbc07765689ac4824cd484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 098/133] fix: the filtered checkerboard mixes its textures by
 covered area

---
 pytracer/texture/texture/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index e186e38..ca5365f 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -167,16 +167,17 @@ class Chekcerboard2DTexture(Texture):
 
 			## box filtering check region
 			# util.ftoi(x / 2) + 2. * max(x / 2 - util.ftoi(x / 2) -.5, 0)
+			# a filter of zero width lies in the check of its center
 			si = ((util.ftoi(s1 / 2) + 2. * max(s1 / 2 - util.ftoi(s1 / 2) - .5, 0)) -
 				  (util.ftoi(s0 / 2) + 2. * max(s0 / 2 - util.ftoi(s0 / 2) - .5, 0))) / \
-				 (2. * ds)
+				 (2. * ds) if ds > 0. else util.ftoi(s) % 2
 			ti = ((util.ftoi(t1 / 2) + 2. * max(t1 / 2 - util.ftoi(t1 / 2) - .5, 0)) -
 				  (util.ftoi(t0 / 2) + 2. * max(t0 / 2 - util.ftoi(t0 / 2) - .5, 0))) / \
-				 (2. * dt)
-			area_sq = si * ti - 2. * si * ti
+				 (2. * dt) if dt > 0. else util.ftoi(t) % 2
+			area_sq = si + ti - 2. * si * ti
 			if ds > 1. or dt > 1.:
 				area_sq = .5
-			return (1. - area_sq * self.tex1(dg)) + area_sq * self.tex2(dg)
+			return (1. - area_sq) * self.tex1(dg) + area_sq * self.tex2(dg)
 
 
 class Checkboard3DTexture(Texture):
-- 
2.43.0


From 954f9d3d875c94e0b88d8c4274b7425987c23584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 099/133] fix: dots are drawn with their inside texture

---
 pytracer/texture/texture/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index ca5365f..0515806 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -218,16 +218,16 @@ class DotsTexture(Texture):
 		from pytracer.texture.utility import noise
 
 		# return insidedot result if inside
-		if noise(sc + .5 , tc + .5) > 0. :
+		if noise([sc + .5, tc + .5, .5]) > 0. :
 			rad = .35
 			max_shift = .5 - rad
-			s_ctr = sc + max_shift * noise(sc + 1.5, tc + 2.8)
-			t_ctr = tc + max_shift * noise(sc + 4.5, tc + 9.8)
+			s_ctr = sc + max_shift * noise([sc + 1.5, tc + 2.8, .5])
+			t_ctr = tc + max_shift * noise([sc + 4.5, tc + 9.8, .5])
 			ds = s - s_ctr
 			dt = t - t_ctr
 			if ds * ds + dt * dt < rad * rad:
 				# inside
-				self.inside_dot(dg)
+				return self.inside_dot(dg)
 
 
 		return self.outside_dot(dg)
-- 
2.43.0


From 6b2993ed17be57c2acfaae71b5a12879f70da0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 100/133] fix: marble evaluates its spline segment by segment

---
 pytracer/texture/texture/__init__.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index 0515806..ad22348 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -296,7 +296,7 @@ class MarbleTexture(Texture):
 	spline = [  [ .58, .58, .6 ], [ .58, .58, .6 ], [ .58, .58, .6 ],
 				[ .5, .5, .5 ], [ .6, .59, .58 ], [ .58, .58, .6 ],
 				[ .58, .58, .6 ], [.2, .2, .33 ], [ .58, .58, .6 ], ]
-	spline_num = INT(27)
+	spline_num = INT(9)
 	def __init__(self, octaves: INT, roughness: FLOAT, scale: FLOAT, var: FLOAT, mapping: 'TextureMapping3D'):
 		self.octaves = octaves
 		self.omega = roughness
@@ -307,19 +307,17 @@ class MarbleTexture(Texture):
 	def __call__(self, dg: 'geo.DifferentialGeometry'):
 		from pytracer.texture.utility import FBm
 		p, dpdx, dpdy = self.mapping(dg)
-		p *= self.scale
+		p = self.scale * p
 		marble = p.y + self.var * FBm(p, self.scale * dpdx, self.scale * dpdy, self.omega, self.octaves)
-		wind = FBm(.1 * p, .1 * dpdx, .1 * dpdy, .5, 3)
-		wave = FBm(p, dpdx, dpdy, .5, 6)
-		t = .5 * .5 * np.sin(marble)
+		t = .5 + .5 * np.sin(marble)
 
 		# evaluate marble spline at $t$
-		fst = util.ftoi(t * self.spline_num - 3)
+		fst = min(util.ftoi(t * (self.spline_num - 3)), self.spline_num - 4)
 		t = t * (self.spline_num - 3) - fst
-		c0 = Spectrum.from_rgb(self.spline[fst:fst + 3])
-		c1 = Spectrum.from_rgb(self.spline[fst + 1:fst + 4])
-		c2 = Spectrum.from_rgb(self.spline[fst + 2:fst + 5])
-		c3 = Spectrum.from_rgb(self.spline[fst + 3:fst + 6])
+		c0 = Spectrum.from_rgb(self.spline[fst])
+		c1 = Spectrum.from_rgb(self.spline[fst + 1])
+		c2 = Spectrum.from_rgb(self.spline[fst + 2])
+		c3 = Spectrum.from_rgb(self.spline[fst + 3])
 
 		# Bezier spline evaluated with de Castilejau's algorithm
 		s0 = (1. - t) * c0 + t * c1
-- 
2.43.0


From 77813113919f163664a8fc78825c20a91f172914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 101/133] fix: an image pyramid stores its levels as objects

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index ae58b82..1b73889 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -282,7 +282,7 @@ class MIPMap(object):
 
 		# init levels of MIPMap
 		self.__n_levels = 1 + INT(np.log2(max(sres, tres)))
-		self.__pyramid = np.empty(self.__n_levels, dtype=self.typename)
+		self.__pyramid = np.empty(self.__n_levels, dtype=object)
 		# most detailed level
 		self.__pyramid[0] = img if resampled is None else resampled
 
-- 
2.43.0


From e541c3f0cb8498e1b8fb28141e68ad64581eefa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 102/133] fix: an image pyramid addresses its texels by row and
 column

---
 pytracer/texture/utility.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 1b73889..9f34cc3 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -223,7 +223,8 @@ class MIPMap(object):
 		self.max_aniso = max_aniso
 		self.wrap = wrap
 
-		sres, tres = img.shape[0:2]
+		# images are stored by row: [t, s]
+		tres, sres = img.shape[0:2]
 
 		resampled = None
 
@@ -288,7 +289,7 @@ class MIPMap(object):
 
 		for i in range(1, self.__n_levels):
 			# bottom-up init
-			u, v = self.__pyramid[i - 1].shape[0:2]
+			v, u = self.__pyramid[i - 1].shape[0:2]
 			s_res = max(1, UINT(u // 2))
 			t_res = max(1, UINT(v // 2))
 			self.__pyramid[i] = np.empty([t_res, s_res], dtype=object)
@@ -308,7 +309,7 @@ class MIPMap(object):
 
 	def texel(self, level: UINT, s: INT, t: INT):
 		l = self.__pyramid[level]
-		u, v = l.shape[0:2]
+		v, u = l.shape[0:2]
 		# compute texel (s, t)
 		if self.wrap == ImageWrap.REPEAT:
 			s = s % u
@@ -320,7 +321,7 @@ class MIPMap(object):
 			if s < 0 or s >= u or t < 0 or t >= v:
 				return self.typename(0.)
 
-		return l[s, t].view(self.typename)
+		return self.typename(l[t, s])
 
 	@property
 	def width(self):
@@ -336,7 +337,9 @@ class MIPMap(object):
 
 	def __triangle(self, level: UINT, s: FLOAT, t: FLOAT):
 		level = np.clip(level, 0, self.__n_levels - 1)
-		s, t = np.array([s, t]) * self.__pyramid[level].shape[0:2] - .5
+		v, u = self.__pyramid[level].shape[0:2]
+		s = s * u - .5
+		t = t * v - .5
 		s0, t0 = util.ftoi(s), util.ftoi(t)
 		ds = s - s0
 		dt = t - t0
@@ -349,7 +352,7 @@ class MIPMap(object):
 		if level >= self.__n_levels:
 			return self.texel(self.__n_levels - 1, 0, 0)
 		# convert EWA coord to proper scale for level
-		u, v = self.__pyramid[level].shape[0:2]
+		v, u = self.__pyramid[level].shape[0:2]
 		s = s * u - .5
 		t = t * v - .5
 		ds0 *= u
-- 
2.43.0


From d05ee9069dada77b2f855b9e0e74c096461799ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 103/133] fix: image pyramids average in floating point

---
 pytracer/texture/utility.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 9f34cc3..4e87e70 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -223,6 +223,10 @@ class MIPMap(object):
 		self.max_aniso = max_aniso
 		self.wrap = wrap
 
+		# filter in floating point, images are read as bytes
+		if img.dtype != object:
+			img = img.astype(FLOAT)
+
 		# images are stored by row: [t, s]
 		tres, sres = img.shape[0:2]
 
-- 
2.43.0


From 2383f97a1714fa1bcddfa78c087da4780e2e5d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 104/133] fix: resampled images keep their texel type and range

---
 pytracer/texture/utility.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 4e87e70..87353d2 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -193,8 +193,8 @@ class MIPMap(object):
 	@staticmethod
 	def resample(ores: UINT, nres: UINT) -> ['SampleWeight']:
 		if ores > nres:
-			RuntimeError('src.core.texture.{}.resample(): New resolution should '
-			             'be greater than the old one, abort resampling.'.format(ores, nres))
+			raise RuntimeError('src.core.texture.MIPMap.resample(): New resolution {} should '
+			                   'be greater than the old one {}, abort resampling.'.format(nres, ores))
 		fil_width = 2.
 		wts = np.zeros([nres, 5], dtype=FLOAT)
 
@@ -245,7 +245,7 @@ class MIPMap(object):
 			s_wts = MIPMap.resample(sres, sp)
 
 			# init, take advantage of numba.jit
-			resampled = np.empty([tp, sp], dtype=typename)
+			resampled = np.empty([tp, sp], dtype=object)
 			for t in range(tres):
 				for s in range(sp):
 					resampled[t, s] = typename(0.)
@@ -261,7 +261,7 @@ class MIPMap(object):
 							resampled[t, s] += s_wts[s][1 + j] * img[t, orig_s]
 			## t
 			t_wts = MIPMap.resample(tres, tp)
-			t_tmp = np.zeros(tp, dtype=img.dtype)
+			t_tmp = np.zeros(tp, dtype=object)
 			for s in range(sp):
 				for t in range(tp):
 					# (s, t) in s-zoomed image
@@ -277,9 +277,8 @@ class MIPMap(object):
 							t_tmp[t] += t_wts[t][1 + j] * resampled[orig_t, s]
 
 				resampled[:, s] = t_tmp.copy()
-				if self.typename is Spectrum:
-					for t in range(tp):
-						resampled[t, s] = resampled[t, s].clip()
+				for t in range(tp):
+					resampled[t, s] = self.typename(np.maximum(resampled[t, s], 0.))
 
 			sres, tres = sp, tp
 
-- 
2.43.0


From 1b783a6b5d0dcf5d316f70e24ca6da8fb90215fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 105/133] fix: beyond the coarsest level an image looks up its
 single texel

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 87353d2..2e4d595 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -433,7 +433,7 @@ class MIPMap(object):
 			if level < 0:
 				return self.__triangle(0, s, t)
 			elif level >= self.__n_levels - 1:
-				return self.__triangle(self.__n_levels, 0, 0)
+				return self.texel(self.__n_levels - 1, 0, 0)
 			else:
 				i_level = util.ftoi(level)
 				delta = level - i_level
-- 
2.43.0


From ed6358b7a6f2520d20efccc115f2a8d32778f3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 106/133] fix: the elliptical filter can be evaluated

---
 pytracer/texture/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 2e4d595..1bcceda 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -381,7 +381,7 @@ class MIPMap(object):
 		det = -B * B + 4. * A * C
 		invDet = 1. / det
 		u_sq = np.sqrt(det * C)
-		v_sq = np.srqt(det * A)
+		v_sq = np.sqrt(det * A)
 		s0 = util.ctoi(s - 2. * invDet * u_sq)
 		s1 = util.ftoi(s + 2. * invDet * u_sq)
 		t0 = util.ctoi(t - 2. * invDet * v_sq)
@@ -398,7 +398,7 @@ class MIPMap(object):
 				r2 = A * ss * ss + B * ss * tt + C * tt * tt
 				if r2 < 1.:
 					# inside
-					wt = MIPMap.weight_lut[min(r2 * MIPMap.weight_lut_size, MIPMap.weight_lut_size - 1)]
+					wt = MIPMap.weight_lut[min(util.ftoi(r2 * MIPMap.weight_lut_size), MIPMap.weight_lut_size - 1)]
 					ret += self.texel(level, si, ti) * wt
 					sum_wt += wt
 
-- 
2.43.0


From 62ae23a0dc55db91fdbd9a2ee94692a4555a34f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 107/133] fix: the eccentricity clamp widens the minor axis

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 1bcceda..7e9f083 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -456,8 +456,8 @@ class MIPMap(object):
 			# clamp eccentricity if too large
 			if minor_len * self.max_aniso < major_len and minor_len > 0.:
 				scale = major_len / (minor_len * self.max_aniso)
-				ds0 *= scale
 				ds1 *= scale
+				dt1 *= scale
 				minor_len *= scale
 
 			if minor_len == 0.:
-- 
2.43.0


From 62e282d98a04f21bb1e10ea0bc293a94bfc4e151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 108/133] fix: image textures convert their texels

---
 pytracer/texture/texture/image.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index db243a5..8b887f3 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -94,7 +94,7 @@ class ImageTexture(Texture):
 						type_mem is spec.RGBSpectrum:
 			return spec.RGBSpectrum( (scale * texel) ** gamma )
 		elif isinstance(texel, np.ndarray) and \
-						type_mem is (FLOAT or float):
+						type_mem in (FLOAT, float):
 			return (scale * spec.RGBSpectrum(texel).y()) ** gamma
 		else:
 			raise TypeError('src.core.texture.ImageTexture.__convert__in__: '
@@ -109,11 +109,11 @@ class ImageTexture(Texture):
 
 		# print(type(texel), type(type_ret))
 		# return Spectrum.from_rgb(texel)
-		if isinstance(texel, 'RGBSpectrum') and \
+		if isinstance(texel, spec.RGBSpectrum) and \
 						type_ret is Spectrum:
-			return Spectrum.from_rgb(texel.toRGB())
+			return Spectrum.from_rgb(texel.to_rgb())
 		elif (isinstance(texel, float) or isinstance(texel, FLOAT)) and \
-						type_ret is (float or FLOAT):
+						type_ret in (float, FLOAT):
 			return texel
 		else:
 			raise TypeError('src.core.texture.ImageTexture.__convert__in__: '
-- 
2.43.0


From ea29eb2f8e28a789c7acbdf2069e35606883f101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 109/133] fix: image textures are cached per texel type

---
 pytracer/texture/texture/image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index 8b887f3..656f3d1 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -127,8 +127,8 @@ class ImageTexture(Texture):
 	                wrap: 'ImageWrap', scale: FLOAT, gamma: FLOAT) -> 'MIPMap':
 		# look in the cache
 		tex_info = ImageTexture.TexInfo(filename, trilinear, max_aniso, wrap, scale, gamma)
-		if tex_info in ImageTexture.textures:
-			return ImageTexture.textures[tex_info]
+		if (self.type_mem, tex_info) in ImageTexture.textures:
+			return ImageTexture.textures[self.type_mem, tex_info]
 
 		try:
 			texels = iio.read_image(filename)
@@ -152,7 +152,7 @@ class ImageTexture(Texture):
 			val = [[self.power(scale, gamma)]]
 			ret = MIPMap(self.type_mem, val)
 
-		ImageTexture.textures[tex_info] = ret
+		ImageTexture.textures[self.type_mem, tex_info] = ret
 		return ret
 
 
-- 
2.43.0


From 2178df1d25198d13ead2ea2c10cbe0e86e40cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 110/133] fix: a missing image gives a one-valued texture

---
 pytracer/texture/texture/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index 656f3d1..6f7f722 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -132,7 +132,7 @@ class ImageTexture(Texture):
 
 		try:
 			texels = iio.read_image(filename)
-			width, height = texels.shape[0:2]
+			height, width = texels.shape[0:2]
 		except:
 			print('{}.get_texture(): cannot process file {}, '
 			      'use default one-valued MIPMap'.format(self.__class__, filename))
@@ -149,7 +149,7 @@ class ImageTexture(Texture):
 
 		else:
 			# one-valued MIPMap
-			val = [[self.power(scale, gamma)]]
+			val = np.array([[scale ** gamma]])
 			ret = MIPMap(self.type_mem, val)
 
 		ImageTexture.textures[self.type_mem, tex_info] = ret
-- 
2.43.0


From 409561727e3d87b413f8221cfe46956fbc7593dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:50 +0000
Subject: [PATCH 111/133] fix: annotate the scene-description API with strings
 so it can be imported

---
 pytracer/interface/api.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 4cc8d74..1d4fa05 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -17,7 +17,7 @@ if TYPE_CHECKING:
 	from pytracer.transform import Transform
 
 
-def system_init(option: Option):
+def system_init(option: 'Option'):
 	from pytracer.spectral import Spectrum
 	import pytracer.interface as inter
 
@@ -100,14 +100,14 @@ def trans_look_at(eye: list, at: list, up: list):
 
 
 @check_system_inited
-def trans_concat(trans: Transform):
+def trans_concat(trans: 'Transform'):
 	import pytracer.interface as inter
 	for i, _ in enumerate(inter.TRANSFORM_SET):
 		inter.TRANSFORM_SET[i] *= trans
 
 
 @check_system_inited
-def trans_set(trans: Transform):
+def trans_set(trans: 'Transform'):
 	import pytracer.interface as inter
 	for i, _ in enumerate(inter.TRANSFORM_SET):
 		inter.TRANSFORM_SET[i] = trans
@@ -141,21 +141,21 @@ def set_transformation_time(start=0., end=1.):
 
 # Filters
 @check_system_inited
-def set_pixel_filter(name: str, param: Param):
+def set_pixel_filter(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.filter_name = name.lower()
 	inter.RENDER_OPTION.filter_param = param
 
 
 @check_system_inited
-def set_film(name: str, param: Param):
+def set_film(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.film_name = name.lower()
 	inter.RENDER_OPTION.film_param = param
 	
 	
 @check_system_inited
-def set_camera(name: str, param: Param):
+def set_camera(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.camera_name = name.lower()
 	inter.RENDER_OPTION.camera_param = param
@@ -164,35 +164,35 @@ def set_camera(name: str, param: Param):
 
 
 @check_system_inited
-def set_sampler(name: str, param: Param):
+def set_sampler(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.sampler_name = name.lower()
 	inter.RENDER_OPTION.sampler_param = param
 
 
 @check_system_inited
-def set_aggregator(name: str, param: Param):
+def set_aggregator(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.aggregator_name = name.lower()
 	inter.RENDER_OPTION.aggregator_param = param
 
 
 @check_system_inited
-def set_renderer(name: str, param: Param):
+def set_renderer(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.renderer_name = name.lower()
 	inter.RENDER_OPTION.renderer_param = param
 
 
 @check_system_inited
-def set_surface(name: str, param: Param):
+def set_surface(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.surface_name = name.lower()
 	inter.RENDER_OPTION.surface_param = param
 
 
 @check_system_inited
-def set_volume(name: str, param: Param):
+def set_volume(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.volume_name = name.lower()
 	inter.RENDER_OPTION.volume_param = param
-- 
2.43.0


From 73dd6891c78bb33e24294532d7aa806d4cd3eb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:50 +0000
Subject: [PATCH 112/133] fix: check that the API is initialised when it is
 called

---
 pytracer/interface/api.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 1d4fa05..4257ddd 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -9,6 +9,7 @@ Interfacing from the scene descriptions.
 Created by Jiayao on Aug 21, 2017
 """
 from __future__ import absolute_import
+import functools
 from typing import TYPE_CHECKING
 import pytracer.utility as util
 if TYPE_CHECKING:
@@ -48,10 +49,13 @@ def system_clean():
 
 
 def check_system_inited(api_func):
-	import pytracer.interface as inter
-	if inter.API_STATUS == inter.API_UNINIT:
-		raise RuntimeError("{}: system not inited.".format(api_func.__name__))
-	return api_func
+	@functools.wraps(api_func)
+	def checked(*args, **kwargs):
+		import pytracer.interface as inter
+		if inter.API_STATUS == inter.API_UNINIT:
+			raise RuntimeError("{}: system not inited.".format(api_func.__name__))
+		return api_func(*args, **kwargs)
+	return checked
 
 
 @check_system_inited
-- 
2.43.0


From 52996551187ab2a0f18de14878370dffa4326a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:50 +0000
Subject: [PATCH 113/133] fix: subsurface material: clip and keep the
 reflectance

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 456e7fd..28c2a86 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -546,7 +546,7 @@ class SubsurfaceMaterial(Material):
 			dgs = Material.bump(self.bump_map, dg_g, dg_s)
 		else:
 			dgs = dg_s.copy()
-		util.clip(R = self.kr(dgs))
+		R = util.clip(self.kr(dgs))
 		bsdf = BSDF(dgs, dg_g.nn)
 
 		if not util.is_black(R):
-- 
2.43.0


From 66b62684e9686c90246a463ddb01655d800fa009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:50 +0000
Subject: [PATCH 114/133] fix: bump mapping: convert normals with from_arr

---
 pytracer/material/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 28c2a86..efccf47 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -87,8 +87,8 @@ class Material(object, metaclass=ABCMeta):
 		dg = dgs.copy()
 
 		# geo.Vector * geo.Normal -> geo.Vector
-		dg.dpdu = dgs.dpdu + (u_disp - disp) / du * dgs.nn + disp * geo.Vector.fromNormal(dgs.dndu)
-		dg.dpdv = dgs.dpdv + (v_disp - disp) / dv * dgs.nn + disp * geo.Vector.fromNormal(dgs.dndv)
+		dg.dpdu = dgs.dpdu + (u_disp - disp) / du * dgs.nn + disp * geo.Vector.from_arr(dgs.dndu)
+		dg.dpdv = dgs.dpdv + (v_disp - disp) / dv * dgs.nn + disp * geo.Vector.from_arr(dgs.dndv)
 		dg.nn = geo.Normal.from_arr(geo.normalize(dg.dpdu.cross(dg.dpdv)))
 		if dgs.shape.ro ^ dgs.shape.transform_swaps_handedness:
 			dg.nn *= -1.
-- 
2.43.0


From 76f8dc667e1236239caa9f858aed3fd03ce7bbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:50 +0000
Subject: [PATCH 115/133] fix: image texture key: print the file name

---
 pytracer/texture/texture/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index 6f7f722..da1ded0 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -48,7 +48,7 @@ class ImageTexture(Texture):
 
 		def __repr__(self):
 			return "{}\nFilename: {}\nTrilinear: {}\nMax Aniso: {}, Wrap: {}\nScale: {}, Gamma: {}" \
-				.format(self.__class__, self.trilinear, self.max_aniso, self.wrap, self.scale,
+				.format(self.__class__, self.filename, self.trilinear, self.max_aniso, self.wrap, self.scale,
 			            self.gamma)
 
 		def __hash__(self):
-- 
2.43.0


From 146c93a5f49f25e08b3b288585093ad369f17d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:50 +0000
Subject: [PATCH 116/133] fix: density regions take the defaults of the volume
 interface for tau

---
 pytracer/volume/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 55ff390..4617daa 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -215,7 +215,7 @@ class DensityRegion(VolumeRegion):
 	def sigma_t(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self(self.w2v(pnt)) * (self.sig_a + self.sig_s)
 
-	def tau(self, r: 'geo.Ray', step_size: FLOAT, u: FLOAT) -> 'Spectrum':
+	def tau(self, r: 'geo.Ray', step_size: FLOAT=1., u: FLOAT=.5) -> 'Spectrum':
 		tau = Spectrum(0.
 			)
 		length = r.d.length()
-- 
2.43.0


From 0e607cc5bb8ab31310b671f0f40fe05c37593c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:50 +0000
Subject: [PATCH 117/133] fix: scene: print the volume region

---
 pytracer/scene/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/scene/scene.py b/pytracer/scene/scene.py
index 7f5a76d..5d933a9 100644
--- a/pytracer/scene/scene.py
+++ b/pytracer/scene/scene.py
@@ -30,7 +30,7 @@ class Scene(object):
 
 	def __repr__(self):
 		return "{}\nAggregates: {}\nLights: {}\nVolume Regions: {}" \
-					.format(self.__class__, self.aggregate, len(self.lights), "N/A" if self.vr is None else len(self.vr))
+					.format(self.__class__, self.aggregate, len(self.lights), "N/A" if self.vr is None else self.vr)
 
 	def intersect(self, ray: 'geo.Ray', isect: 'Intersection') -> bool:
 		return self.aggregate.intersect(ray, isect)
-- 
2.43.0


From 797357780409b4ccb4043fa2ecad73ff7f6f9085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:13 +0000
Subject: [PATCH 118/133] fix: bump mapping: pass face_forward a vector and
 shift v when its footprint is zero

---
 pytracer/material/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index efccf47..c07545b 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -72,7 +72,7 @@ class Material(object, metaclass=ABCMeta):
 
 		# shift du in v
 		dv = .5 * (np.fabs(dgs.dvdx) + np.fabs(dgs.dvdy))
-		if dv == 0.1:
+		if dv == 0.:
 			dv = 0.01
 		dg.p = dgs.p + dv * dgs.dpdv
 		dg.u = dgs.u
@@ -94,7 +94,7 @@ class Material(object, metaclass=ABCMeta):
 			dg.nn *= -1.
 
 		# orient shding normal to match goemtric normal
-		dg.nn = geo.face_forward(dg.nn, dgg.nn)
+		dg.nn = geo.face_forward(dg.nn, geo.Vector.from_arr(dgg.nn))
 
 		return dg
 
-- 
2.43.0


From e7b6b6f4ce48baf0388300e7da74f346c611d1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:13 +0000
Subject: [PATCH 119/133] fix: mixed material: enumerate the lobes it scales

---
 pytracer/material/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index c07545b..6c414cd 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -392,9 +392,9 @@ class MixMaterial(Material):
 		s1 = self.scale(dg_s).clip()
 		s2 = (Spectrum(1.) - s1).clip()
 
-		for i, b in b1.bdfs:
+		for i, b in enumerate(b1.bdfs):
 			b1.bdfs[i] = ScaledBDF(b, s1)
-		for i, b in b2.bdfs:
+		for b in b2.bdfs:
 			b1.push_back(ScaledBDF(b, s2))
 
 		return b1
-- 
2.43.0


From 4b1735fa109469b65e6fa8daaa742be53126b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:13 +0000
Subject: [PATCH 120/133] fix: measured material: keep the cached samples

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 6c414cd..3f27543 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -431,7 +431,7 @@ class MeasuredMaterial(Material):
 		if ext == '.brdf' or ext == '.BRDF':
 			if file in IrIsotropicData:
 				# already read
-				self.theta_phi_sample, self.theta_phi_tree = IrIsotropicData[file]
+				self.theta_phi_samples, self.theta_phi_tree = IrIsotropicData[file]
 				return
 
 			# read file
-- 
2.43.0


From 03a90542c543e1a14e9955147f5193115fa87de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:02 +0000
Subject: [PATCH 121/133] fix: measured material: tell files apart by their
 whole path

---
 pytracer/material/material.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 3f27543..7c12d96 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -429,9 +429,9 @@ class MeasuredMaterial(Material):
 
 		# Irregular Sampled Isotropic BRDF
 		if ext == '.brdf' or ext == '.BRDF':
-			if file in IrIsotropicData:
+			if filename in IrIsotropicData:
 				# already read
-				self.theta_phi_samples, self.theta_phi_tree = IrIsotropicData[file]
+				self.theta_phi_samples, self.theta_phi_tree = IrIsotropicData[filename]
 				return
 
 			# read file
@@ -482,7 +482,7 @@ class MeasuredMaterial(Material):
 
 			self.theta_phi_samples = np.array(samples, dtype=object)
 			self.theta_phi_tree = KdTree(tree_data)
-			IrIsotropicData[file] = [self.theta_phi_samples, self.theta_phi_tree]
+			IrIsotropicData[filename] = [self.theta_phi_samples, self.theta_phi_tree]
 
 		elif ext == '.binary':
 			# Regular Halfangle BRDF
-- 
2.43.0


From a13d25e9db0f3c3f6cc7376a1ca95434421b8c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 122/133] fix: scene description: blocks and named coordinate
 systems keep copies

---
 pytracer/interface/api.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 4257ddd..6c79a3d 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -122,7 +122,7 @@ def trans_set(trans: 'Transform'):
 def add_coordinate_system(name: str):
 	"""Make a named copy of the current transformations."""
 	import pytracer.interface as inter
-	inter.COORDINATE_SYSTEM[name] = inter.TRANSFORM_SET
+	inter.COORDINATE_SYSTEM[name] = list(inter.TRANSFORM_SET)
 
 
 @check_system_inited
@@ -132,7 +132,7 @@ def set_coordinate_system(name: str):
 	if name not in inter.COORDINATE_SYSTEM:
 		raise RuntimeError
 
-	inter.TRANSFORM_SET = inter.COORDINATE_SYSTEM[name]
+	inter.TRANSFORM_SET = list(inter.COORDINATE_SYSTEM[name])
 
 
 # Render Options
@@ -215,7 +215,7 @@ def world_begin():
 def attribute_begin():
 	import pytracer.interface as inter
 	inter.GRAPHICS_STATE_STACK.append(inter.GRAPHICS_STATE)
-	inter.TRANSFORM_STACK.append(inter.TRANSFORM_SET)
+	inter.TRANSFORM_STACK.append(list(inter.TRANSFORM_SET))
 
 
 @check_system_inited
@@ -232,7 +232,7 @@ def attribute_end():
 @check_system_inited
 def transform_begin():
 	import pytracer.interface as inter
-	inter.TRANSFORM_STACK.append(inter.TRANSFORM_SET)
+	inter.TRANSFORM_STACK.append(list(inter.TRANSFORM_SET))
 
 
 @check_system_inited
-- 
2.43.0


From 29c01a01d2152a24d9aef20bc63909d70f430652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:24 +0000
Subject: [PATCH 123/133] fix: scene description: start from the identity
 transformation

---
 pytracer/interface/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 6c79a3d..d04b88f 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -33,6 +33,8 @@ def system_init(option: 'Option'):
 
 	inter.GRAPHICS_STATE = GraphicsState()
 
+	trans_identity()
+
 	Spectrum.init()
 
 
-- 
2.43.0


From 9d6b6c04e3dbf66e37a6755a04bcfeac59e38c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:24 +0000
Subject: [PATCH 124/133] fix: scene description: forget the previous scene on
 clean up

---
 pytracer/interface/api.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index d04b88f..a39625f 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -49,6 +49,12 @@ def system_clean():
 
 	inter.RENDER_OPTION = None
 
+	inter.GRAPHICS_STATE = None
+	inter.GRAPHICS_STATE_STACK = []
+	inter.TRANSFORM_STACK = []
+	inter.TRANSFORM_SET = [None] * inter.MAX_TRANSFORM
+	inter.COORDINATE_SYSTEM = {}
+
 
 def check_system_inited(api_func):
 	@functools.wraps(api_func)
-- 
2.43.0


From bd6a6cd3afb121a948703c0f3f4d11dc0f356c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:48 +0000
Subject: [PATCH 125/133] fix: writing an image: leave the pixels of the caller
 alone

---
 pytracer/utility/imageio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index 07cd4ea..40b0297 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -57,6 +57,7 @@ def write_image(filename: str, rgb: 'np.ndarray', alpha: 'np.ndarray',
 	if filename is None or rgb is None:
 		raise IOError('scr.core.pytracer.write_image(): filename and rgb cannot '
 							'be None')
+	rgb = rgb.copy()
 	for i in range(3):
 		coef = np.max(rgb[:, :, i])
 		if not coef == 0.:
-- 
2.43.0


From 46219bbe43c51f51144f9c4713593a0130c25c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:34 +0000
Subject: [PATCH 126/133] fix: a voxel gives its lock back when refining a
 primitive fails

---
 pytracer/aggregate/aggregate.py | 50 ++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 59bdcbb..72cc463 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -116,19 +116,18 @@ class Voxel(object):
 	def intersect(self, ray: 'geo.Ray', isect: 'Intersection', lock) -> bool:
 		# refine primitives if needed
 		if not self.all_can_intersect:
-			lock.acquire()
-			for i, prim in enumerate(self.primitives):
-				# refine if necessary
-				if not prim.can_intersect():
-					p = []
-					prim.full_refine(p)
-					if len(p) == 1:
-						self.primitives[i] = p[0]
-					else:
-						self.primitives[i] = GridAccel(p, False)
-
-			self.all_can_intersect = True
-			lock.release()
+			with lock:
+				for i, prim in enumerate(self.primitives):
+					# refine if necessary
+					if not prim.can_intersect():
+						p = []
+						prim.full_refine(p)
+						if len(p) == 1:
+							self.primitives[i] = p[0]
+						else:
+							self.primitives[i] = GridAccel(p, False)
+
+				self.all_can_intersect = True
 
 		# loop over
 		# no data corrpution?
@@ -142,19 +141,18 @@ class Voxel(object):
 	def intersect_p(self, ray: 'geo.Ray', lock) -> bool:
 		# refine primitives if needed
 		if not self.all_can_intersect:
-			lock.acquire()
-			for i, prim in enumerate(self.primitives):
-				# refine if necessary
-				if not prim.can_intersect():
-					p = []
-					prim.full_refine(p)
-					if len(p) == 1:
-						self.primitives[i] = p[0]
-					else:
-						self.primitives[i] = GridAccel(p, False)
-
-			self.all_can_intersect = True
-			lock.release()
+			with lock:
+				for i, prim in enumerate(self.primitives):
+					# refine if necessary
+					if not prim.can_intersect():
+						p = []
+						prim.full_refine(p)
+						if len(p) == 1:
+							self.primitives[i] = p[0]
+						else:
+							self.primitives[i] = GridAccel(p, False)
+
+				self.all_can_intersect = True
 
 		# loop over
 		# no data corrpution?
-- 
2.43.0


From 06342ae987a9db24abf6dc77d00c8cb2e2737b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:34 +0000
Subject: [PATCH 127/133] fix: a splat gives the lock of its pixel back when it
 fails

---
 pytracer/film/film.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/film/film.py b/pytracer/film/film.py
index 38d196d..98ca923 100644
--- a/pytracer/film/film.py
+++ b/pytracer/film/film.py
@@ -212,9 +212,8 @@ class ImageFilm(Film):
 			return
 
 		pxl = self.pixels[x - self.xPixel_start][y - self.yPixel_start]
-		pxl.lock.acquire()
-		pxl.splatXYZ += xyz
-		pxl.lock.release()
+		with pxl.lock:
+			pxl.splatXYZ += xyz
 
 	def get_sample_extent(self) -> [INT]:
 		"""
-- 
2.43.0


From e4341e63747d4f7820f013d24ac51b99ce2aed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:26 +0000
Subject: [PATCH 128/133] fix: the tangents of interior subdivision vertices
 start from their own sums

---
 pytracer/shape/loopsubdiv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index cb3672b..34431da 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -406,8 +406,8 @@ class LoopSubdiv(Shape):
 
 			if not vv.boundary:
 				## interior
-				S += np.sum([np.cos(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0)
-				T += np.sum([np.sin(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0)
+				S = geo.Vector.from_arr(np.sum([np.cos(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0))
+				T = geo.Vector.from_arr(np.sum([np.sin(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0))
 
 
 			else:
-- 
2.43.0


From ae7ff0c3249ca1cdfa3dfac1482206949ffb29f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:26 +0000
Subject: [PATCH 129/133] fix: the limit mask of a subdivision vertex divides
 by eight times beta

---
 pytracer/shape/loopsubdiv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index 34431da..2aad90e 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -258,7 +258,7 @@ class LoopSubdiv(Shape):
 
 	@staticmethod
 	def gamma(valence: INT) -> FLOAT:
-		return 1. / (valence + 3. / (8. + LoopSubdiv.beta(valence)))
+		return 1. / (valence + 3. / (8. * LoopSubdiv.beta(valence)))
 
 	def weight_one_ring(self, vert: 'SDVertex', beta: 'FLOAT') -> 'geo.Point':
 		valence = vert.valence()
-- 
2.43.0


From f0dfe1cca591e129d6739533a24812692b2404c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:53 +0000
Subject: [PATCH 130/133] fix: a triangle mesh without indices or positions is
 refused before they are used

---
 pytracer/shape/triangle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 802e3cd..9d2cdc6 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -26,6 +26,9 @@ def create_triangle_mesh(o2w: 'trans.Transform', w2o: 'trans.Transform',
 		uvs = None if 'st' not in params else params['st']
 	discard = False if 'discard' not in params else params['discard']
 
+	if vi is None or p is None:
+		return None
+
 	if len(vi) % 3 != 0:
 		raise RuntimeError
 
@@ -54,9 +57,6 @@ def create_triangle_mesh(o2w: 'trans.Transform', w2o: 'trans.Transform',
 			print('[Warning] src.core.shape.create_triangle_mesh(): more \"uv\"s '
 			      'found, {} expcted, {} found'.format(2 * npi, nuvi))
 
-	if vi is None or P is None:
-		return None
-
 	S = None if 'S' not in params else params['S']
 	nsi = len(S) if S is not None else -1
 	if S is not None and nsi != npi:
-- 
2.43.0


From 5212f2b2e09a12eac127a6b42da3e1b11a276168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:52 +0000
Subject: [PATCH 131/133] fix: read_image drops alpha, reads grey and palette
 images, and uses the image it resizes

---
 pytracer/utility/imageio.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index 40b0297..f6a8d17 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -29,19 +29,17 @@ def read_image(filename: str) -> ['spec.Spectrum']:
 	specs = None
 	img = None
 	with PIL.Image.open(filename) as pic:
-		img = np.array(pic)
-		width, height, chn = np.shape(img) # note the order of height and width
-		if chn >= 4:
-			# desert alpha
-			img = img[:,:,0:3]
+		# expand grey and palette images, desert alpha
+		pic = pic.convert('RGB')
+		width, height = pic.size
 
 		# avoid expensive resizing in src.core.texture.MIPMap.__init__()
 		if (not util.is_pow_2(width)) or (not util.is_pow_2(height)):
 			# re-sample to power of 2
 			width = util.next_pow_2(width)
 			height = util.next_pow_2(height)
-			pic.resize((width, height))
-			img = np.array(pic)
+			pic = pic.resize((width, height))
+		img = np.array(pic)
 
 	if img is not None:
 		return img
-- 
2.43.0


From b6060e0783d9a3c4821b179b75e3623d53bd34ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:33 +0000
Subject: [PATCH 132/133] fix: PinholeCamera rays carry the time of their
 sample and the pose of that time

---
 pytracer/camera/projective.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index d26cab6..efa6a4f 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -29,9 +29,8 @@ class PinholeCamera(Camera):
 	def generate_ray(self, sample: 'CameraSample') -> [FLOAT, 'geo.Ray']:
 		p = geo.Point(sample.imageX, sample.imageY, 0.)
 		pp = geo.Point(0., 0., self.focal)
-		d = self.c2w.startTransform(geo.normalize(pp - p))
-		p = self.c2w.startTransform(p)
-		return 1., geo.Ray(p, d)
+		ray = geo.Ray(p, geo.normalize(pp - p), 0., np.inf, time=sample.time)
+		return 1., self.c2w(ray)
 
 
 class ProjectiveCamera(Camera):
-- 
2.43.0


From ca4cb97fca027c8ba86d01b461706eb4d4ae6263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:26 +0000
Subject: [PATCH 133/133] fix: small or strongly scaled spheres are hit: the
 tangency tolerance is relative

---
 pytracer/shape/sphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index 3940657..788de69 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -152,7 +152,7 @@ class Sphere(Shape):
 		C = ray.o.sq_length() - self.radius * self.radius
 
 		D = B * B - 4. * A * C
-		if D <= 0. + EPS:
+		if D <= EPS * A * self.radius * self.radius:
 			return [False, None, None, None]
 
 		# validate solutions
@@ -246,7 +246,7 @@ class Sphere(Shape):
 		C = ray.o.sq_length() - self.radius * self.radius
 
 		D = B * B - 4. * A * C
-		if D <= 0. + EPS:
+		if D <= EPS * A * self.radius * self.radius:
 			return False
 
 		# validate solutions
-- 
2.43.0

