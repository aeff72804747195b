From 0104f98d0950b367a9a0da030ff47bf5c7a11c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 01/64] fix: replace numpy scalar aliases that numpy removed
 (np.complex, np.int)

---
 electrode/mathieu.py             | 4 ++--
 electrode/spherical_harmonics.py | 2 +-
 electrode/utils.py               | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index c1de6bb..9bdaf8f 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -33,7 +33,7 @@ class Mathieu():
         # print(d0)
         rhs = d0*np.sin(np.pi/2*np.sqrt(a))**2
         if rhs < 0 or rhs > 1:
-            nu = 2./np.pi*np.arcsinh(np.sqrt(np.complex(-rhs)))    # In fact, this is mu.
+            nu = 2./np.pi*np.arcsinh(np.sqrt(complex(-rhs)))    # In fact, this is mu.
             warnings.warn('Complex characteristic exponent nu: unbounded motion.')
         else:
             nu = 2./np.pi*np.arcsin(np.sqrt(rhs))   # mu = j*nu
@@ -82,7 +82,7 @@ class Mathieu():
             t_eval = None
         sol = solve_ivp(func,[0.,np.pi],[1.,0.],method=method,t_eval=t_eval)
         if np.abs(sol.y[0,-1]) > 1.:
-            nu = np.arccosh(np.complex(sol.y[0,-1]))/np.pi    # In fact, this is mu.
+            nu = np.arccosh(complex(sol.y[0,-1]))/np.pi    # In fact, this is mu.
             warnings.warn('Complex characteristic exponent nu: unbounded motion.')
         else:
             nu = np.arccos(sol.y[0,-1])/np.pi   # mu = j*nu
diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index ed73be5..69b3639 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -93,7 +93,7 @@ class SphericalHarmonics(object):
         # self.measure = np.sin(self.theta)
         self.weight = w[:, None]
         self.phi = np.arange(0, 2 * np.pi, np.pi / nmax)[None, :]
-        self.n, self.m = np.empty((2, nmax, nmax), np.int)
+        self.n, self.m = np.empty((2, nmax, nmax), int)
         for n, m, p, q in self.indices():
             self.n[p, q], self.m[p, q] = n, m
         ptmn = np.array([special.lpmn(nmax - 1, nmax - 1, xi)[0] for xi in x])
diff --git a/electrode/utils.py b/electrode/utils.py
index 8fff71a..0412c83 100644
--- a/electrode/utils.py
+++ b/electrode/utils.py
@@ -568,7 +568,7 @@ def mathieu(r, *a):
       (see numpy.linalg.eig())
     """
     n = a[0].shape[0]
-    m = np.zeros((2*r+1, 2*r+1, 2, 2, n, n), dtype=np.complex)
+    m = np.zeros((2*r+1, 2*r+1, 2, 2, n, n), dtype=np.complex128)
     for l in range(2*r+1):
         # derivative on the diagonal
         m[l, l, 0, 0] = m[l, l, 1, 1] = np.identity(n)*2j*(l-r)
-- 
2.43.0


From 8121a00ccb2abbef0c8e4625b53dcabd4112bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 02/64] fix: utils.norm takes the norm over the given axis

---
 electrode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/utils.py b/electrode/utils.py
index 0412c83..7a73aa7 100644
--- a/electrode/utils.py
+++ b/electrode/utils.py
@@ -73,8 +73,8 @@ def norm(a, axis=-1):
         Axis to calculate the norm over.
     """
     # apparently faster
+    a = np.moveaxis(np.asanyarray(a), axis, -1)
     return np.sqrt(np.einsum("...j,...j->...", a, a))
-    # return np.sqrt(np.square(a).sum(axis=axis))
 
 
 def rotate_tensor(c, r, order=None):
-- 
2.43.0


From 9c483bffac439bd529309349b62229722589a325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 03/64] fix: System.solve sums the objectives of all local
 constraints

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index dd1af20..6518438 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -746,7 +746,7 @@ class System(list):
         ctrs = []
         for ci, vi in zip(local_constraints, variables):
             for cj in ci:
-                obj = sum(coef*val for coef, val in cj.objective(self, vi))
+                obj += sum(coef*val for coef, val in cj.objective(self, vi))
                 ctrs.extend(cj.constraints(self, vi))
         for ci in global_constraints:
             obj += sum(coef*val for coef, val in ci.objective(self, variables))
-- 
2.43.0


From ae8a11875f13f508d93c34436dda2070fee496bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 04/64] fix: System.optimize drops a dependent row, and accepts
 a single objective

---
 electrode/system.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 6518438..5b0544f 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -795,10 +795,13 @@ class System(list):
         g2 = np.inner(g, g)
         B1 = B - np.outer(b, g)/g2 # B*g_perp
         obj = cvxopt.modeling.dot(cvxopt.matrix(g), p) # maximize this
-        #FIXME: there is one singular value, drop one line
-        B1 = B1[:-1]
+        # the rows of B1 are dependent with weights Bp.T*g, drop the one
+        # that the others determine best
+        B1 = np.delete(B1, np.argmax(np.fabs(np.dot(Bp.T, g))), axis=0)
         # B*g_perp*p == 0
-        ctrs.append(cvxopt.modeling.dot(cvxopt.matrix(B1.T), p) == 0.)
+        if len(B1):
+            ctrs.append(
+                cvxopt.modeling.dot(cvxopt.matrix(B1.T), p) == 0.)
 
         solver = self._run_cvxopt(-obj, ctrs, verbose, **kwargs)
 
-- 
2.43.0


From 509a383613d72f0266a6b58c09bc384d7d46744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 05/64] fix: System.saddle rotates derivatives into the search
 coordinates

---
 electrode/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 5b0544f..eee7c0c 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -565,9 +565,9 @@ class System(list):
         def g(xi):
             x[axis] = xi
             return rotate_tensor(self.potential(np.dot(coord, x), 1),
-                    coord.T)[0, axis]
+                    coord)[0, axis]
         h = rotate_tensor(self.potential(np.dot(coord, x), 2),
-                coord.T)[0, axis][:, axis]
+                coord)[0, axis][:, axis]
         # rational function optimization
         xs, p, ret = rfo(f, g, np.array(x0)[axis], h=h, **kwargs)
         if not ret in ("ftol", "xtol"):
-- 
2.43.0


From 6d5c48b6bc5b7c2d86b9108bc36affa2657c5fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 06/64] fix: System.minimum and System.saddle do not truncate
 to integers

---
 electrode/system.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index eee7c0c..1937dd5 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -509,7 +509,8 @@ class System(list):
         --------
         scipy.optimize.minimize
         """
-        x = np.array(x0)
+        x0 = np.array(x0, dtype=np.double)
+        x = x0.copy()
         axis = list(axis)
         def f(xi):
             x[axis] = xi
@@ -524,7 +525,7 @@ class System(list):
                     coord)[0, axis][:, axis]
         #xs = optimize.fmin_bfgs(p, np.array(x0)[axis], fprime=g,
         #        disp=False)
-        x0 = np.array(x0)[axis]
+        x0 = x0[axis]
         res = optimize.minimize(fun=f, x0=x0, jac=g, hess=h,
             method=method, **kwargs)
         if not res.success:
@@ -557,7 +558,8 @@ class System(list):
         """
         kwargs = dict(dx_max=.1, xtol=1e-5, ftol=1e-5)
         kwargs.update(kw)
-        x = np.array(x0)
+        x0 = np.array(x0, dtype=np.double)
+        x = x0.copy()
         axis = list(axis)
         def f(xi):
             x[axis] = xi
@@ -569,7 +571,7 @@ class System(list):
         h = rotate_tensor(self.potential(np.dot(coord, x), 2),
                 coord)[0, axis][:, axis]
         # rational function optimization
-        xs, p, ret = rfo(f, g, np.array(x0)[axis], h=h, **kwargs)
+        xs, p, ret = rfo(f, g, x0[axis], h=h, **kwargs)
         if not ret in ("ftol", "xtol"):
             raise ValueError("%s", ((x0, axis, x, xs, p, ret),))
         # f(xs) # update x
-- 
2.43.0


From e8a59dd56ee77d27c376f07710438c43d27c6947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 07/64] fix: System.with_voltages restores the old values if
 setting them fails

---
 electrode/system.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 1937dd5..b064319 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -166,17 +166,18 @@ class System(list):
         >>> with s.with_voltages(dcs=0*s.dcs, rfs=[0, 1]):
         ...     print(s.potential([0, 0, 1.]))
         """
+        old_dcs, old_rfs = self.dcs, self.rfs
         try:
             if dcs is not None:
-                dcs, self.dcs = self.dcs, dcs
+                self.dcs = dcs
             if rfs is not None:
-                rfs, self.rfs = self.rfs, rfs
+                self.rfs = rfs
             yield
         finally:
             if dcs is not None:
-                self.dcs = dcs
+                self.dcs = old_dcs
             if rfs is not None:
-                self.rfs = rfs
+                self.rfs = old_rfs
 
     def electrical_potential(self, x, derivative=0, typ="dc", expand=False):
         """Electrical potential derivative.
-- 
2.43.0


From a821231bfa50a47027edacd1fc6ef1d0fe772d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 08/64] fix: System.group accepts thresholds=None and lists of
 voltages

---
 electrode/system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index b064319..7dafa89 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -836,8 +836,9 @@ class System(list):
         """
         if voltages is None:
             voltages = self.dcs
+        voltages = np.asarray(voltages)
         if thresholds is None:
-            threshold = sorted(np.unique(voltages))
+            thresholds = sorted(np.unique(voltages))
         ts = [-np.inf] + list(thresholds) + [np.inf]
         eles = []
         for i, (ta, tb) in enumerate(zip(ts[:-1], ts[1:])):
-- 
2.43.0


From b4aee09dc664a822c96aa64acf8e7a4418c34a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 09/64] fix: Grid.to_xyz and plot_contour support different
 sizes along the axes

---
 electrode/grid.py   | 4 ++--
 electrode/system.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/electrode/grid.py b/electrode/grid.py
index 340d88c..02ecd0c 100644
--- a/electrode/grid.py
+++ b/electrode/grid.py
@@ -54,8 +54,8 @@ class Grid():
 
     def to_xyz(self):
         """ Create ndarrays of x, y, z"""
-        xyz = np.array([np.linspace(c-s*(h-1)/2., c+s*(h-1)/2.,h)
-                for c, s, h in zip(self.center, self.step, self.shape)])
+        xyz = [np.linspace(c-s*(h-1)/2., c+s*(h-1)/2.,h)
+                for c, s, h in zip(self.center, self.step, self.shape)]
         return xyz
 
     def indices_to_coordinates(self, idx):
diff --git a/electrode/system.py b/electrode/system.py
index 7dafa89..4dd9dcc 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -426,7 +426,8 @@ class System(list):
         e3 = slc_at
         sec = {'x':[1,2],'y':[0,2],'z':[0,1]}
         coord = {'x':[2,0,1],'y':[0,2,1],'z':[0,1,2]}
-        xyz = grid.to_xyz()[sec[slc]]    # point arrays of the other two axes
+        xyz = grid.to_xyz()
+        xyz = [xyz[i] for i in sec[slc]]    # point arrays of the other two axes
         axis = coord[slc]
         pot = []
         for e2 in xyz[1]:
-- 
2.43.0


From 46c8f3f2f441d887669a5b2ea9ac1617420d8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 10/64] fix: Mathieu.init_value returns both coefficients

---
 electrode/mathieu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index 9bdaf8f..364f3f2 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -349,7 +349,7 @@ class Mathieu():
             den = self.sol_y1(t0,0)*self.sol_y2(t0,1)-self.sol_y1(t0,1)*self.sol_y2(t0,0)
             A = (y0[0]*self.sol_y2(t0,1)-y0[1]*self.sol_y2(t0,0))/den
             B = -(y0[0]*self.sol_y1(t0,1)-y0[1]*self.sol_y1(t0,0))/den
-            return np.array(A,B)
+            return np.array([A,B])
 
     def sol_plot():
         pass
\ No newline at end of file
-- 
2.43.0


From 27e05c47d519aca42e6c7edc447c4c37580fc138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 11/64] fix: Mathieu.init_sol has a default order for all modes

---
 electrode/mathieu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index 364f3f2..92d037f 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -272,7 +272,7 @@ class Mathieu():
         else:
             raise ValueError("Invalid characteristic exponent mode.")
         if nc == None:
-            nc = nu_n
+            nc = nu_n if mode == 'det' else 10
         self.Cn = self.coeff_Cn(a,q,self.nu,nc,ng)[0:2]
         return 0
 
-- 
2.43.0


From 059e8d9410c0b9ce355378d7cc6e8254d36c1550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 12/64] fix: xic_to_list works on Python 3 and skips blank
 lines

---
 electrode/xic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/electrode/xic.py b/electrode/xic.py
index 76111ba..6613695 100644
--- a/electrode/xic.py
+++ b/electrode/xic.py
@@ -30,16 +30,16 @@ def xic_to_list(xic):
     es = []
     for line in xic:
         line = line.rstrip()
-        if line[0] == "P":
+        if not line:
+            pass
+        elif line[0] == "P":
             p = [line.split()[1:]]
         elif line[0] == " ":
             if not line.endswith(";"):
                 p.append(line.split())
             else:
                 p.append(line[:-1].split())
-                es.append(np.array([map(float, i) for i in p])*1e-8)
-        elif not line.strip():
-            pass
+                es.append(np.array([list(map(float, i)) for i in p])*1e-8)
         else:
             pass # print line
     return es
-- 
2.43.0


From db0dfe462d32a21ddbecbfd256dc22c9a8fdf207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 13/64] fix: Polygons.filter has its default test for whole
 polygons too

---
 electrode/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index b9796df..f94c9b7 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -557,7 +557,7 @@ class Polygons(list):
         Polygons
             Filtered output
         """
-        if test is None and deep:
+        if test is None:
             def test(name, boundary):
                 return abs(geometry.Polygon(boundary).area) > 1e-2
 
-- 
2.43.0


From d1c46426d10f8be0a0473d5bce3c30ab64a89614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 14/64] fix: Polygons.to_gds yields the integer coordinates
 that GDS files need

---
 electrode/polygons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index f94c9b7..e8bbc0f 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -391,7 +391,7 @@ class Polygons(list):
                 if edge:
                     poly = poly.intersection(field)
                 xy = np.array(poly.exterior.coords.xy).copy()
-                xy = xy.T[:, :2]*scale/phys_unit
+                xy = np.rint(xy.T[:, :2]*scale/phys_unit).astype(int)
                 if text_layer is not None and name:
                     p = elements.Text(layer=text_layer[0],
                                       text_type=text_layer[1], xy=xy[:1],
@@ -421,7 +421,7 @@ class Polygons(list):
             #    g = [g]
             for loop in g:
                 xy = np.array(loop.coords.xy).copy()
-                xy = xy.T[:, :2]*scale/phys_unit
+                xy = np.rint(xy.T[:, :2]*scale/phys_unit).astype(int)
                 #xy = np.r_[xy, xy[:1]]
                 p = elements.Path(layer=gap_layer[0],
                                   data_type=gap_layer[1], xy=xy)
-- 
2.43.0


From fe354b8e484efcb3763041f8fc80b8f330256745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 15/64] fix: Adjust.next_step accepts own voltage changes, and
 can reject a move

---
 electrode/adjust.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 6e62639..a40717a 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -35,14 +35,14 @@ class Adjust():
 
 		# minimum xm
 		# system.minimum() still has some problem, if it appears, you can manually input xm.
-		if xm == None:
+		if xm is None:
 			xi = (0.,0.,0.)
 			xm = self.system.minimum(xi)
 		self.xms = [np.array(xm)]
 
 		# eigenvector -> bases
 		evalue, evector = self.system.modes(xm)
-		if axis_order == None:
+		if axis_order is None:
 			# sort according to the x coordinate of eigenvectors. [::-1] in acsending order
 			axis_order = evector[0].argsort()[::-1]
 		evalue, evector = evalue[axis_order], evector[:,axis_order].T
@@ -142,26 +142,27 @@ class Adjust():
 		# Pay attention, if you have used propose_move() or xm_freq_change(), the deltaV have been applied
 		# to system.
 
-		if deltaV == None:
-			try:
-				deltaV, xm_new, evalue = self._propose
-				userown = False    # user own deltaV
-			except AttributeError:
-				warnings.warn("Propose a volt_change() first.")
-
 		if accept:
+			if deltaV is None:
+				try:
+					deltaV, xm_new, evalue = self._propose
+				except AttributeError as err:
+					warnings.warn("Propose a volt_change() first.")
+					raise err
+			else:
+				# user own deltaV, relative to the last saved voltages
+				xm_new, _, evalue = self.xm_freq_change(deltaV)[:3]
 			config = self.construct_config(deltaV)
 			self.set_volts(config, save=True)
-			if userown:
-				xm_new, evalue = self.xm_freq_change(deltaV)[[0,2]]
 			self.xms.append(xm_new)
 			self.curves.append(evalue)
 			# print("Move")
 		else:
 			# reset voltages back to erase the change due to xm_freq_change()
-			self.set_volts(self.Volts[-1])		
+			self.set_volts({ele: volts[-1] for ele, volts in self.volts.items()})
 			# print("Stay")
 
-		del self._propose
+		if hasattr(self, "_propose"):
+			del self._propose
 		return 0
 
-- 
2.43.0


From 3b1dd07cfb3ff7425b5334aac07d7dd79eb88f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 16/64] fix: rfo does not divide by zero when its quadratic
 model is exact

---
 electrode/saddle.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/electrode/saddle.py b/electrode/saddle.py
index 45531b8..4837208 100644
--- a/electrode/saddle.py
+++ b/electrode/saddle.py
@@ -81,10 +81,14 @@ def rfo(fun, grad, x0, args=(),
         dp = dg - h*dx
         dh_powell = (dp*dx.T + dx*dp.T)/(dx.T*dx) - \
                 float(dp.T*dx)*(dx*dx.T)/(dx.T*dx)**2
-        dh_sr1 = (dp*dp.T)/(dp.T*dx)
-        phi = float((dp.T*dx)**2/((dp.T*dp)*(dx.T*dx)))
-        dh_bofill = phi*dh_sr1 + (1-phi)*dh_powell
-        dh = dh_bofill
+        if float(dp.T*dx) == 0:
+            # phi vanishes and dh_sr1 does not exist
+            dh = dh_powell
+        else:
+            dh_sr1 = (dp*dp.T)/(dp.T*dx)
+            phi = float((dp.T*dx)**2/((dp.T*dp)*(dx.T*dx)))
+            dh_bofill = phi*dh_sr1 + (1-phi)*dh_powell
+            dh = dh_bofill
 
         if 2.*np.linalg.norm(dx) <= xtol * (
                 np.linalg.norm(x+dx) + np.linalg.norm(x) + 1e-20):
-- 
2.43.0


From d0fd4481c28bd5d74afadc7263f15ee2c3715613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 17/64] fix: System.shims keeps additional objectives at zero
 for the other shims

---
 electrode/system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/system.py b/electrode/system.py
index 4dd9dcc..f54d78f 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -691,6 +691,8 @@ class System(list):
         obj = [PotentialObjective(x=x, derivative=deriv, value=0,
             rotation=coord) for x, coord, deriv in x_coord_deriv]
         obj += objectives
+        for objective in objectives:
+            objective.value = 0 # also while it is not its turn
         if constraints is None:
             constraints = [PatternRangeConstraint(min=-1, max=1)]
         vectors = np.empty((len(obj), len(self)),
-- 
2.43.0


From 28d6df0ae4d59c266cd2251bd6ad3e88b0923d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 18/64] fix: System.plot_contour supports negative potentials

---
 electrode/system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index f54d78f..6987b8a 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -447,7 +447,8 @@ class System(list):
         kwargs.setdefault('levels',np.linspace(mincl, maxcl, line_num))
         # kwargs.setdefault('cmap',plt.cm.Blues)
         # vmin = maxcl/2 can have a better colormap contrast.
-        kwargs.setdefault('vmin',maxcl/2)
+        if maxcl > 0: # else vmin would be above the highest level
+            kwargs.setdefault('vmin',maxcl/2)
         ax.set_xlabel(axlb[slc][0]+'/l',fontsize=12)
         ax.set_ylabel(axlb[slc][1]+'/l',fontsize=12)
         if fill == True:
-- 
2.43.0


From 87c7491ee4c92e1b1658bbf2add8b78b4dad592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 19/64] fix: compiled scale_matrix normalises its direction

The Python implementation does, and callers rely on it.
---
 electrode/transformations.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 5162867..620c9da 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -1584,6 +1584,14 @@ py_scale_matrix(
             double dx = d[0];
             double dy = d[1];
             double dz = d[2];
+            double t = sqrt(dx*dx + dy*dy + dz*dz);
+            if (t < EPSILON) {
+                PyErr_Format(PyExc_ValueError, "invalid direction vector");
+                goto _fail;
+            }
+            dx /= t;
+            dy /= t;
+            dz /= t;
             factor = 1.0 - factor;
             M[0]  = 1.0 - factor * dx*dx;
             M[5]  = 1.0 - factor * dy*dy;
-- 
2.43.0


From 2941d31c9c0f8d26475026820b7b7db4de4eea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 20/64] fix: compiled quaternion_matrix does not normalise its
 argument in place

---
 electrode/transformations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 620c9da..8bdc786 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2724,7 +2724,7 @@ py_quaternion_matrix(
     static char *kwlist[] = {"quaternion" , NULL};
 
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O&", kwlist,
-        PyConverter_DoubleVector4, &quaternion)) goto _fail;
+        PyConverter_DoubleVector4Copy, &quaternion)) goto _fail;
 
     result = (PyArrayObject*)PyArray_SimpleNew(2, dims, NPY_DOUBLE);
     if (result == NULL) {
-- 
2.43.0


From cbfb628462bf641a2a25c8c1f4b5a91557f87aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 21/64] fix: compiled arcball_constrain_to_axis stays on the
 front half sphere

as the Python implementation does.
---
 electrode/transformations.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 8bdc786..16435a6 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -3370,6 +3370,8 @@ py_arcball_constrain_to_axis(
         n = sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2]);
 
         if (n > EPSILON) {
+            if (v[2] < 0.0)
+                n = -n;
             v[0] /= n;
             v[1] /= n;
             v[2] /= n;
-- 
2.43.0


From f6237fb4ab31b3804e6e41856863d1f92bc48098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 22/64] fix: quaternion_slerp does not crash on invalid
 arguments

---
 electrode/transformations.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 16435a6..c4e7b26 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2977,8 +2977,8 @@ py_quaternion_slerp(
 
   _fail:
     Py_XDECREF(result);
-    Py_DECREF(quaternion0);
-    Py_DECREF(quaternion1);
+    Py_XDECREF(quaternion0);
+    Py_XDECREF(quaternion1);
     return NULL;
 }
 
-- 
2.43.0


From 4b3c593102001d196a668cf49d134c66f838f065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 23/64] fix: compiled quaternion_slerp extrapolates to fraction
 -1

---
 electrode/transformations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index c4e7b26..5a6e37c 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2943,7 +2943,7 @@ py_quaternion_slerp(
             goto _fail;
         }
 
-        if (fabs(fabs(fraction) - 1.0) < EPSILON) {
+        if (fabs(fraction - 1.0) < EPSILON) {
             q[0] = q1[0] / n;
             q[1] = q1[1] / n;
             q[2] = q1[2] / n;
-- 
2.43.0


From 62a7783164d361c5d99540d873b9fe0108716bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 24/64] fix: inverse_matrix does not crash on arrays that are
 not 2D

---
 electrode/transformations.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 5a6e37c..6f14c15 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -3170,6 +3170,10 @@ py_inverse_matrix(
     }
     iscopy = ((PyObject *)matrix != object);
 
+    if (PyArray_NDIM(matrix) != 2) {
+        PyErr_Format(PyExc_ValueError, "not a square matrix");
+        goto _fail;
+    }
     size = PyArray_DIM(matrix, 0);
     if ((size != PyArray_DIM(matrix, 1)) || (size < 1)) {
         PyErr_Format(PyExc_ValueError, "not a symmetric matrix");
-- 
2.43.0


From a037bd8d5453af46e8a1201c82fdb8d837745ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 25/64] fix: vector_norm refuses outputs of the wrong size

It compared the data with itself, and wrote beyond small outputs.
---
 electrode/transformations.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 6f14c15..c90061c 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -3501,9 +3501,8 @@ py_vector_norm(
                     "size of output must match data");
                 goto _fail;
             }
-            j = 0;
-            for (i = 0; i < n; i++) {
-                if ((i != axis) && (PyArray_DIM(data, i) != newshape[j++])) {
+            for (j = 0; j < n-1; j++) {
+                if (PyArray_DIM(oout, j) != newshape[j]) {
                     PyErr_Format(PyExc_ValueError, "incorrect output size");
                     goto _fail;
                 }
-- 
2.43.0


From 65693fb8bc465a09961079a93da14be2f9cbf370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 26/64] fix: vector_norm and unit_vector handle byte-swapped,
 unaligned and read-only arrays

They read such data as if it was native, and wrote to read-only outputs.
---
 electrode/transformations.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index c90061c..66ee094 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -791,12 +791,14 @@ PyConverter_AnyDoubleArray(
     PyObject **address)
 {
     PyArrayObject *obj = (PyArrayObject *)object;
-    if (PyArray_Check(object) && (PyArray_TYPE(obj) == NPY_DOUBLE)) {
+    if (PyArray_Check(object) && (PyArray_TYPE(obj) == NPY_DOUBLE)
+        && PyArray_ISBEHAVED_RO(obj)) {
         *address = object;
         Py_INCREF(object);
         return NPY_SUCCEED;
     } else {
-        *address = PyArray_FROM_OTF(object, NPY_DOUBLE, NPY_ARRAY_ALIGNED);
+        *address = PyArray_FROM_OTF(object, NPY_DOUBLE, NPY_ARRAY_ALIGNED|
+                                    NPY_ARRAY_NOTSWAPPED);
         if (*address == NULL) {
             PyErr_Format(PyExc_ValueError, "can not convert to array");
             return NPY_FAIL;
@@ -970,7 +972,8 @@ PyOutputConverter_AnyDoubleArrayOrNone(
         *address = NULL;
         return NPY_SUCCEED;
     }
-    if (PyArray_Check(object) && (PyArray_TYPE(obj) == NPY_DOUBLE)) {
+    if (PyArray_Check(object) && (PyArray_TYPE(obj) == NPY_DOUBLE)
+        && PyArray_ISBEHAVED(obj)) {
         Py_INCREF(object);
         *address = (PyArrayObject *)object;
         return NPY_SUCCEED;
-- 
2.43.0


From a3576f685a48d1836f0aba757789409bd9f13773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 27/64] fix: arcball_map_to_sphere reports invalid coordinates

---
 electrode/transformations.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 66ee094..6d23a87 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -3311,6 +3311,8 @@ py_arcball_map_to_sphere(
         PyErr_Format(PyExc_ValueError, "invalid center");
         goto _fail;
     }
+    if (PyErr_Occurred())
+        goto _fail;
     {
         double *v = (double *)PyArray_DATA(result);
         double n;
-- 
2.43.0


From 0d7af124e7c3892a01576bed8f0122fbe56516ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 28/64] fix: decompose_matrix finds the angles at gimbal lock

cos() of the asin() of the matrix element is never zero there, and asin()
fails when the element exceeds one by rounding.
---
 electrode/transformations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index 80d92a8..7c2b751 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -794,8 +794,9 @@ def decompose_matrix(matrix):
         numpy.negative(scale, scale)
         numpy.negative(row, row)
 
-    angles[1] = math.asin(-row[0, 2])
-    if math.cos(angles[1]):
+    cosb = math.sqrt(row[0, 0]*row[0, 0] + row[0, 1]*row[0, 1])
+    angles[1] = math.atan2(-row[0, 2], cosb)
+    if cosb > _EPS:
         angles[0] = math.atan2(row[1, 2], row[2, 2])
         angles[2] = math.atan2(row[0, 1], row[0, 0])
     else:
-- 
2.43.0


From 9795814ab80d9ae88e0c3ad1619d7694326b80fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 29/64] fix: compiled inverse_matrix inverts matrices with
 small determinants

A uniform scaling by 1e-6 has determinant 1e-18 and was called singular.
---
 electrode/transformations.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 6d23a87..9bfde11 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -396,7 +396,7 @@ int invert_matrix22(
 {
     double det = matrix[0]*matrix[3] - matrix[1]*matrix[2];
 
-    if (ISZERO(det))
+    if (det == 0.0)
         return -1;
 
     result[0] = matrix[3] / det;
@@ -430,7 +430,7 @@ int invert_matrix33(
 
     det = M[0]*result[0] + M[3]*result[1] + M[6]*result[2];
 
-    if (ISZERO(det))
+    if (det == 0.0)
         return -1;
 
     det = 1.0 / det;
@@ -514,7 +514,7 @@ int invert_matrix44(
 
     det = M[0]*result[0] + M[4]*result[1] + M[8]*result[2] + M[12]*result[3];
 
-    if (ISZERO(det))
+    if (det == 0.0)
         return -1;
 
     det = 1.0 / det;
@@ -3205,7 +3205,7 @@ py_inverse_matrix(
                 error = invert_matrix22(M, Minv);
                 break;
             case 1:
-                error = ISZERO(M[0]);
+                error = (M[0] == 0.0);
                 if (error == 0)
                     Minv[0] = 1.0 / M[0];
                 break;
-- 
2.43.0


From 9835d7c7e1d0285eb2ecbf0af0bd09ed94b131a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 30/64] fix: compiled inverse_matrix tests the last pivot too

It returned infinities for singular matrices of rank size-1.
---
 electrode/transformations.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 9bfde11..66c16ac 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -590,6 +590,8 @@ int invert_matrix(
             M[js + k] = temp;
         }
     }
+    if (fabs(M[size*size-1]) < PIVOT_TOLERANCE)
+        return -1;
 
     /* Backward substitution with identity matrix */
     memset(result, 0, size*size*sizeof(double));
-- 
2.43.0


From a161ff2827c2f6d18dd12f59ec56badc26b86cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 31/64] fix: quaternion_from_matrix does not abort on an
 invalid precise matrix

No thread state is saved in this branch.
---
 electrode/transformations.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 66c16ac..c8d9780 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2621,7 +2621,6 @@ py_quaternion_from_matrix(
         double *q = (double *)PyArray_DATA(result);
         double *M = (double *)PyArray_DATA(matrix);
         if (quaternion_from_matrix(M, q) != 0) {
-            PyEval_RestoreThread(_save);
             PyErr_Format(PyExc_ValueError,
                 "quaternion_from_matrix() failed");
             goto _fail;
-- 
2.43.0


From ca9dece88dbe4fc48c0ccb4cf43ff61a1cc45956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 32/64] fix: compiled superimposition_matrix works for points
 of any scale

Its absolute tolerances rejected points of the size of 0.01 or 1000.
---
 electrode/transformations.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index c8d9780..bb02dd1 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -1928,6 +1928,14 @@ py_superimposition_matrix(
             double *b = (buffer + 24);
             double *t = (buffer + 27);
 
+            /* absolute tolerances apply below: make N independent of scale */
+            l = 0.0;
+            for (i = 0; i < 16; i++)
+                l = MAX(l, fabs(N[i]));
+            if (l > 0.0)
+                for (i = 0; i < 16; i++)
+                    N[i] /= l;
+
             for (i = 0; i < 16; i++)
                 M[i] = N[i];
 
-- 
2.43.0


From 88c249ed76ec7015b9d62e570242ea7693d8a1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 33/64] fix: angle_between_vectors is not NaN for parallel
 vectors

---
 electrode/transformations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index 7c2b751..1c7f966 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -1833,6 +1833,7 @@ def angle_between_vectors(v0, v1, directed=True, axis=0):
     v1 = numpy.array(v1, dtype=numpy.float64, copy=False)
     dot = numpy.sum(v0 * v1, axis=axis)
     dot /= vector_norm(v0, axis=axis) * vector_norm(v1, axis=axis)
+    dot = numpy.clip(dot, -1.0, 1.0)  # rounding
     return numpy.arccos(dot if directed else numpy.fabs(dot))
 
 
-- 
2.43.0


From e5074c22b85ad67bff4761ac8266065e7b3a3e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 34/64] fix: projection_from_matrix recovers perspective
 projections

It failed or gave wrong results for planes through the origin, for
eigenvectors at infinity, and for the fourth eigenvector if pseudo.
---
 electrode/transformations.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index 1c7f966..11cc0d4 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -556,7 +556,9 @@ def projection_from_matrix(matrix, pseudo=False):
     M33 = M[:3, :3]
     w, V = numpy.linalg.eig(M)
     i = numpy.where(abs(numpy.real(w) - 1.0) < 1e-8)[0]
-    if not pseudo and len(i):
+    if not pseudo and not any(abs(M[3, :3]) > _EPS):
+        if not len(i):
+            raise ValueError("no eigenvector corresponding to eigenvalue 1")
         # point: any eigenvector corresponding to eigenvalue 1
         point = numpy.real(V[:, i[-1]]).squeeze()
         point /= point[3]
@@ -580,16 +582,18 @@ def projection_from_matrix(matrix, pseudo=False):
             return point, direction, None, None, False
     else:
         # perspective projection
-        i = numpy.where(abs(numpy.real(w)) > 1e-8)[0]
-        if not len(i):
-            raise ValueError(
-                "no eigenvector not corresponding to eigenvalue 0")
-        point = numpy.real(V[:, i[-1]]).squeeze()
-        point /= point[3]
+        scale = vector_norm(M[3, :3])
+        if not scale > _EPS:
+            raise ValueError("not a perspective projection matrix")
+        M = M / scale
         normal = - M[3, :3]
-        perspective = M[:3, 3] / numpy.dot(point[:3], normal)
+        # points of the plane are eigenvectors of a threefold eigenvalue, the
+        # distance of plane and perspective point; the fourth is 0 or -1
+        distance = (numpy.trace(M) + (1.0 if pseudo else 0.0)) / 3.0
+        perspective = distance * normal - numpy.dot(M[:3, :3], normal)
         if pseudo:
             perspective -= normal
+        point = numpy.append((M[3, 3] - distance) * normal, 1.0)
         return point, normal, None, perspective, pseudo
 
 
-- 
2.43.0


From ef67083f19f1d97953aa0c6d20bccbc3cc75cf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:29 +0000
Subject: [PATCH 35/64] fix: shear_from_matrix is accurate

Shear matrices have no complete set of eigenvectors, so those found by eig()
carry errors beyond the tolerances: it raised or was wrong at random.
---
 electrode/transformations.py | 35 +++++++++--------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index 11cc0d4..ee0dd95 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -696,32 +696,15 @@ def shear_from_matrix(matrix):
     """
     M = numpy.array(matrix, dtype=numpy.float64, copy=False)
     M33 = M[:3, :3]
-    # normal: cross independent eigenvectors corresponding to the eigenvalue 1
-    w, V = numpy.linalg.eig(M33)
-    i = numpy.where(abs(numpy.real(w) - 1.0) < 1e-4)[0]
-    if len(i) < 2:
-        raise ValueError("no two linear independent eigenvectors found %s" % w)
-    V = numpy.real(V[:, i]).squeeze().T
-    lenorm = -1.0
-    for i0, i1 in ((0, 1), (0, 2), (1, 2)):
-        n = numpy.cross(V[i0], V[i1])
-        w = vector_norm(n)
-        if w > lenorm:
-            lenorm = w
-            normal = n
-    normal /= lenorm
-    # direction and angle
-    direction = numpy.dot(M33 - numpy.identity(3), normal)
-    angle = vector_norm(direction)
-    direction /= angle
-    angle = math.atan(angle)
-    # point: eigenvector corresponding to eigenvalue 1
-    w, V = numpy.linalg.eig(M)
-    i = numpy.where(abs(numpy.real(w) - 1.0) < 1e-8)[0]
-    if not len(i):
-        raise ValueError("no eigenvector corresponding to eigenvalue 1")
-    point = numpy.real(V[:, i[-1]]).squeeze()
-    point /= point[3]
+    # the difference to unity is tan(angle) * outer(direction, normal)
+    u, s, vh = numpy.linalg.svd(M33 - numpy.identity(3))
+    if not s[0] > _EPS:
+        raise ValueError("not a shear matrix")
+    direction = u[:, 0]
+    normal = vh[0]
+    angle = math.atan(s[0])
+    # point: the one of the shear plane closest to the origin
+    point = numpy.append(-numpy.dot(M[:3, 3], direction) / s[0] * normal, 1.0)
     return angle, direction, point, normal
 
 
-- 
2.43.0


From 9c8e95e97a1029aecffc4424b954d4e582748c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:07 +0000
Subject: [PATCH 36/64] fix: Polygons.to_gds clips polygons that reach out of
 the square

---
 electrode/polygons.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index e8bbc0f..433b0bc 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -382,14 +382,14 @@ class Polygons(list):
             props = {}
             if name:
                 props[self._attr_name] = name.encode("ascii")
+            if edge:
+                polys = polys.intersection(field)
             if not hasattr(polys, "geoms"):
                 polys = [polys]
             for poly in polys:
                 assert poly.is_valid, poly
-                if poly.is_empty:
+                if not poly.area:
                     continue
-                if edge:
-                    poly = poly.intersection(field)
                 xy = np.array(poly.exterior.coords.xy).copy()
                 xy = np.rint(xy.T[:, :2]*scale/phys_unit).astype(int)
                 if text_layer is not None and name:
-- 
2.43.0


From 6b20d87d529029b06bb04fdc892c9a5b7463df6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:07 +0000
Subject: [PATCH 37/64] fix: Polygons.from_data yields valid fragments for gaps
 that end within

---
 electrode/polygons.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 433b0bc..5f4700a 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -328,6 +328,9 @@ class Polygons(list):
             i = [np.around(j.coords, int(-np.log10(buffer)-1)) for j in
                  [i.exterior] + list(i.interiors)]
             i = geometry.Polygon(i[0], i[1:])
+            if not i.is_valid:
+                # slits of gaps that do not separate have collapsed
+                i = i.buffer(0)
             fragments.append(("", i))
         if names:
             pads = [xy for name, xy in names]
-- 
2.43.0


From 067ea07196f8d4e9b66e7fa0dba2974be9e8a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 38/64] fix: Polygons.to_gds places names inside of their
 polygons

---
 electrode/polygons.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 5f4700a..ec5817b 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -396,8 +396,11 @@ class Polygons(list):
                 xy = np.array(poly.exterior.coords.xy).copy()
                 xy = np.rint(xy.T[:, :2]*scale/phys_unit).astype(int)
                 if text_layer is not None and name:
+                    # not on the boundary that others may share
+                    pos = np.array(poly.representative_point().coords)
+                    pos = np.rint(pos[:, :2]*scale/phys_unit).astype(int)
                     p = elements.Text(layer=text_layer[0],
-                                      text_type=text_layer[1], xy=xy[:1],
+                                      text_type=text_layer[1], xy=pos,
                                       string=name.encode("ascii"))
                     p.properties = props.items()
                     stru.append(p)
-- 
2.43.0


From 28636e3d0cfc7521531d7ba4e00f21123d02e9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 39/64] fix: Polygons.from_data supports polygons that cover
 the field

---
 electrode/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index ec5817b..6570982 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -320,7 +320,7 @@ class Polygons(list):
         assert field.is_valid, field
         if isinstance(field, geometry.Polygon):
             field = [field]
-        if not gaps and not routes:
+        if not gaps and not routes or not sum(i.area for i in field):
             field = []
         for i in field:
             # assume that buffer is much smaller than any relevant
-- 
2.43.0


From 1191b8159912fbdd5d86b3b4c6fd100cd14c5c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 40/64] fix: Polygons.remove_overlaps does not miss overlaps
 due to rounding

---
 electrode/polygons.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 6570982..8a3bf76 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -459,12 +459,14 @@ class Polygons(list):
         p = Polygons()
         acc = geometry.Point()
         for ni, pi in self:
+            # not the intersection or the cut shape in the following: their
+            # vertices are rounded off the edges that they are on
+            acca = acc.union(pi)
             pa = acc.intersection(pi)
             if pa.is_valid and pa.area > np.finfo(np.float32).eps:
-                pc = pi.difference(pa)
+                pc = pi.difference(acc)
                 if pc.is_valid:
                     pi = pc
-            acca = acc.union(pi)
             if acca.is_valid:
                 acc = acca
             p.append((ni, pi))
-- 
2.43.0


From 880e71141cda1604e8c6f1092eff5deec554e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:49 +0000
Subject: [PATCH 41/64] fix: Polygons.from_data finds areas encircled by
 bridges away from the routes

---
 electrode/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 8a3bf76..20caf15 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -305,7 +305,7 @@ class Polygons(list):
             routes = geometry.MultiLineString(routes)
         if routes and bridges:
             bridges = geometry.MultiLineString(bridges)
-            for poly in ops.polygonize(routes.union(bridges)):
+            for poly in ops.polygonize(ops.unary_union([routes, bridges])):
                 field = field.union(poly.intersection(field0))
         # field = field.buffer(0, 1)
         for name, poly in polys:
-- 
2.43.0


From e6aceb9adcc78fd0ac0c39321a9516ebbe84b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:54 +0000
Subject: [PATCH 42/64] fix: Mathieu finds the exponent for a <= 0

---
 electrode/mathieu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index 92d037f..6ef070e 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -29,9 +29,12 @@ class Mathieu():
             delta0[ntr-n,ntr-n+1], delta0[ntr-n,ntr-n-1] = q/(4*n**2-a), q/(4*n**2-a)
         delta0[0,0], delta0[ntr+ntr,ntr+ntr] = 1., 1.
         delta0[0,1], delta0[ntr+ntr,ntr+ntr-1] = q/(4*ntr**2-a), q/(4*ntr**2-a)
+        # The central row is q/-a, 1, q/-a. Move its singularity at a = 0 to the
+        # zero of the sine.
+        delta0[ntr,ntr], delta0[ntr,ntr+1], delta0[ntr,ntr-1] = a, -q, -q
         d0 = np.linalg.det(delta0)
         # print(d0)
-        rhs = d0*np.sin(np.pi/2*np.sqrt(a))**2
+        rhs = d0*((np.pi/2*np.sinc(np.sqrt(complex(a))/2))**2).real
         if rhs < 0 or rhs > 1:
             nu = 2./np.pi*np.arcsinh(np.sqrt(complex(-rhs)))    # In fact, this is mu.
             warnings.warn('Complex characteristic exponent nu: unbounded motion.')
-- 
2.43.0


From 8288013354db807fa1acc8be9ed297ede0405a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:30 +0000
Subject: [PATCH 43/64] fix: SphericalHarmonics works for negative orders

---
 electrode/spherical_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index 69b3639..e1da859 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -101,7 +101,7 @@ class SphericalHarmonics(object):
         b = (2 * self.n + 1) / (4 * np.pi)
         b *= special.gamma(self.n - np.absolute(self.m) + 1)
         b /= special.gamma(self.n + np.absolute(self.m) + 1)
-        c = (-1) ** np.where(self.m < 0, self.m, 0)
+        c = (-1.) ** np.where(self.m < 0, self.m, 0)
         self.ptmn = np.sqrt(b) * c * ptmn[:, np.absolute(self.m), self.n]
         # prepare weighted and measured ptmn for analysis()
         self.ptmnw = self.ptmn * (self.weight[:, :, None] * np.pi / nmax)
-- 
2.43.0


From 51805d87a7b7b85ba4a990923729d134b51c5c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 44/64] fix: Adjust works for all electrodes of a System

---
 electrode/adjust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index a40717a..a64184e 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -106,7 +106,7 @@ class Adjust():
 			nonhomo = -self.system.potential(x=xm_evaluate,derivative=1)[0]    # system.potential
 		for ith in range(Nele):    # ith is the column index of coef.
 			for ele in self.E_config[ith]:
-				coef[:,ith] += self.system[ele].potential(xm_evaluate,derivative=1)[0].T    # GridElectrode.potential
+				coef[:,ith] += self.system[ele].potential(np.atleast_2d(xm_evaluate),derivative=1)[0].T    # GridElectrode.potential
 		deltaV = scipy_solve(coef,nonhomo.T)    # Corresponds to the order of E_config.
 		# deltaV = [scipy_solve(coef,Ev*ev) for Ev,ev in zip(E_scale,self.basis)]
 		return deltaV
-- 
2.43.0


From eb9fb12cbc26e002a82a1518f92e13281026c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 45/64] fix: arcball_map_to_sphere stops at the first invalid
 coordinate

---
 electrode/transformations.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index bb02dd1..6609727 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -3294,11 +3294,15 @@ py_arcball_map_to_sphere(
             p[0] = PyFloat_AsDouble(o);
         }
         Py_XDECREF(o);
+        if (PyErr_Occurred())
+            goto _fail;
         o = PySequence_GetItem(point, 1);
         if (o != NULL) {
             p[1] = PyFloat_AsDouble(o);
         }
         Py_XDECREF(o);
+        if (PyErr_Occurred())
+            goto _fail;
     } else {
         PyErr_Format(PyExc_ValueError, "invalid point");
         goto _fail;
@@ -3311,6 +3315,8 @@ py_arcball_map_to_sphere(
             c[0] = PyFloat_AsDouble(o);
         }
         Py_XDECREF(o);
+        if (PyErr_Occurred())
+            goto _fail;
         o = PySequence_GetItem(center, 1);
         if (o != NULL) {
             c[1] = PyFloat_AsDouble(o);
-- 
2.43.0


From bc3bc853073727ec52e405a1953bb8de9c719f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 46/64] fix: native kernels check the sizes and indices they
 are given

---
 electrode/cexpressions.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/electrode/cexpressions.pyx b/electrode/cexpressions.pyx
index 36da9e0..88ff7c5 100644
--- a/electrode/cexpressions.pyx
+++ b/electrode/cexpressions.pyx
@@ -44,9 +44,11 @@ def point_potential(np.ndarray[dtype_t, ndim=2] x not None,
 
     assert x.shape[1] == 3
     assert points.shape[1] == 2
+    assert areas.shape[0] >= nv
 
     if out is None:
         out = np.zeros([nx, derivative*2+1], dtype=dtype)
+    assert out.shape[0] >= nx and out.shape[1] >= derivative*2+1
 
     with nogil:
         for i in range(nv):
@@ -75,10 +77,14 @@ def polygon_potential(np.ndarray[dtype_t, ndim=2] x not None,
 
     if out is None:
         out = np.zeros([nx, derivative*2+1], dtype=dtype)
+    assert out.shape[0] >= nx and out.shape[1] >= derivative*2+1
 
     for polygon in iter(polygons):
+        assert polygon is not None
         no = polygon.shape[0]
         assert polygon.shape[1] == 2
+        if no == 0:
+            continue
         with nogil:
             for j in range(nx):
                 for m in range(-cover_nmax, cover_nmax+1):
@@ -113,9 +119,14 @@ def mesh_potential(np.ndarray[dtype_t, ndim=2] x not None,
     assert edges.shape[1] == 2
     assert points.shape[1] == 2
     assert x.shape[1] == 3
+    for i in range(ne):
+        assert 0 <= edges[i, 0] < points.shape[0]
+        assert 0 <= edges[i, 1] < points.shape[0]
+        assert 0 <= polygons[i] < potentials.shape[0]
 
     if out is None:
         out = np.zeros([nx, derivative*2+1], dtype=dtype)
+    assert out.shape[0] >= nx and out.shape[1] >= derivative*2+1
 
     with nogil:
         for i in range(ne):
-- 
2.43.0


From 768f0d6c390741102024ea04f769aebc541529ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 47/64] fix: axes strings do not leak, and invalid ones do not
 crash

---
 electrode/transformations.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 6609727..8a6c992 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2146,7 +2146,12 @@ static int axis2tuple(
         char *s = PyString_AS_STRING(axes);
 #else
     if (PyUnicode_Check(axes) && (PyUnicode_GetSize(axes) == 4)) {
-        char *s = PyBytes_AsString(PyUnicode_AsASCIIString(axes));
+        PyObject *bytes = PyUnicode_AsASCIIString(axes);
+        char s[4];
+        if (bytes == NULL)
+            return -1;
+        memcpy(s, PyBytes_AS_STRING(bytes), 4);
+        Py_DECREF(bytes);
 #endif
         int hash = *((int *)s);
         switch (hash)
-- 
2.43.0


From 423f02d8d0ba1970689cfc449914f5c31cead83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 48/64] fix: System.ions orders the curvatures like the
 positions

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 6987b8a..99bb084 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -1115,7 +1115,7 @@ class System(list):
                 (-qs*[2*x**2-y**2-z**2, 3*x*y, 3*x*z,
                     2*y**2-x**2-z**2, 3*y*z]/np.ma.array(
                     x**2+y**2+z**2)**(5/2.)).T)
-            p = p.transpose(2, 0, 3, 1)
+            p = p.transpose(0, 2, 1, 3)
             for i, (p0i, pii) in enumerate(
                     zip(p0.transpose(2, 0, 1), p.sum(2))):
                 p[i, :, i, :] += p0i-pii
-- 
2.43.0


From 1c247165d50c4ff2eacec74b5520a276f2f6c2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 49/64] fix: System.analyze_static reports the modes of several
 ions

---
 electrode/system.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 99bb084..3ac086a 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -1054,17 +1054,19 @@ class System(list):
             yield "  %s: ndot=%.4g /s, S_E*f=%.4g (V² Hz)/(m² Hz)" % (
                 ci, semi*q**2/(4*m*ct.h*fi), semi*fi)
         if ions > 1:
-            xi = x+np.random.randn(ions)[:, None]*1e-3
-            qi = np.ones(ions)*q/(l*4*np.pi*ct.epsilon_0)**.5
+            r2i = (q/(2*np.pi*ct.epsilon_0*l*np.fabs(curves[0])))**(1/3.)
+            xi = x+np.random.randn(ions, 3)*r2i
+            qi = np.ones(ions)*(q/(l*4*np.pi*ct.epsilon_0))**.5
             xis, cis, mis = self.ions(xi, qi)
-            freqs_ppi = (cis/l**2/m)**.5/(1e6*np.pi)
+            freqs_ppi = np.sqrt(q*cis/m)/(2*np.pi*l)
             r2 = norm(xis[1]-xis[0])
             r2a = ((q*l)**2/(2*np.pi*ct.epsilon_0*q*curves[0]))**(1/3.)
             yield "two ion modes:"
             yield " separation: %.3g (%.3g µm, %.3g µm harmonic)" % (
                 r2, r2*l/1e-6, r2a/1e-6)
-            for ci, fi, mi in zip("abcdef", freqs_ppi, mis.transpose(2, 0, 1)):
-                yield " %s: %.4g MHz, %s/%s" % (ci, fi/1e6, mi)
+            for i, (fi, mi) in enumerate(zip(freqs_ppi, mis.transpose(2, 0, 1))):
+                yield " %s: %.4g MHz, %s" % (chr(ord("a")+i), fi/1e6,
+                    "/".join("%s" % (mij,) for mij in mi))
 
     def ions(self, x0, q):
         """Find minimum energy positions of an multiple ions and
-- 
2.43.0


From 854220d54835674b24b1e042827c4d6d144235fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 50/64] fix: solver options apply to one call only

---
 electrode/system.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 3ac086a..d04f2e2 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -708,6 +708,7 @@ class System(list):
 
     def _run_cvxopt(self, obj, ctrs, verbose=True, **kwargs):
         solver = cvxopt.modeling.op(obj, ctrs)
+        options = dict(cvxopt.solvers.options)
         cvxopt.solvers.options.update(**kwargs)
         cvxopt.solvers.options["show_progress"] = verbose
         if verbose:
@@ -717,7 +718,11 @@ class System(list):
                     for v in solver.inequalities()))
             logger.info("equalities: %i", sum(v.multiplier._size
                     for v in solver.equalities()))
-        solver.solve("sparse")
+        try:
+            solver.solve("sparse")
+        finally: # the options are for this call only
+            cvxopt.solvers.options.clear()
+            cvxopt.solvers.options.update(options)
         if not solver.status == "optimal":
             raise ValueError("solve failed: %s" % solver.status)
         return solver
-- 
2.43.0


From e35664692e98debbf4e1a4bff2e6d8c0a8161b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 51/64] fix: System.saddle does not report points without an
 unstable direction

---
 electrode/system.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/electrode/system.py b/electrode/system.py
index d04f2e2..065da22 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -578,6 +578,11 @@ class System(list):
         if not ret in ("ftol", "xtol"):
             raise ValueError("%s", ((x0, axis, x, xs, p, ret),))
         # f(xs) # update x
+        h = rotate_tensor(self.potential(np.dot(coord, x), 2),
+                coord)[0, axis][:, axis]
+        if not np.linalg.eigvalsh(h)[0] < 0:
+            raise ValueError("no unstable direction: %s" % (
+                (x0, axis, x, p, ret),))
         return x, p
 
     def modes(self, x, sorted=True):
-- 
2.43.0


From bcd16d54bd6a2f653d2d8c1ce0bf0dde6852c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 52/64] fix: inverse_matrix inverted array-likes that share
 their memory in place

---
 electrode/transformations.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 8a6c992..44c961b 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -3174,7 +3174,6 @@ py_inverse_matrix(
     Py_ssize_t dims[2];
     Py_ssize_t size = 0;
     static char *kwlist[] = {"matrix", NULL};
-    int iscopy = 0;
 
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O", kwlist, &object))
         goto _fail;
@@ -3185,7 +3184,6 @@ py_inverse_matrix(
         PyErr_Format(PyExc_ValueError, "not an array");
         goto _fail;
     }
-    iscopy = ((PyObject *)matrix != object);
 
     if (PyArray_NDIM(matrix) != 2) {
         PyErr_Format(PyExc_ValueError, "not a square matrix");
@@ -3225,21 +3223,17 @@ py_inverse_matrix(
                 break;
             default: {
                 void *buffer;
-                if (iscopy)
-                    buffer = PyMem_Malloc(size*2*sizeof(Py_ssize_t));
-                else
-                    buffer = PyMem_Malloc(size*2*sizeof(Py_ssize_t) +
-                                          size*size*sizeof(double));
+                buffer = PyMem_Malloc(size*2*sizeof(Py_ssize_t) +
+                                      size*size*sizeof(double));
                 if (buffer == NULL) {
                     PyErr_Format(PyExc_MemoryError,
                         "unable to allocate buffer");
                     goto _fail;
                 }
-                if (!iscopy) {
-                    M = (double *)((Py_ssize_t *)buffer + 2*size);
-                    memcpy(M, (double *)PyArray_DATA(matrix),
-                           size*size*sizeof(double));
-                }
+                /* even a converted matrix can share its data */
+                M = (double *)((Py_ssize_t *)buffer + 2*size);
+                memcpy(M, (double *)PyArray_DATA(matrix),
+                       size*size*sizeof(double));
                 Py_BEGIN_ALLOW_THREADS
                 error = invert_matrix(size, M, Minv, (Py_ssize_t *)buffer);
                 Py_END_ALLOW_THREADS
-- 
2.43.0


From 142ddd7473311322934659f4d29203253bedbfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:07 +0000
Subject: [PATCH 53/64] fix: analyze_static went on with 'saddle not found'
 when it was closed early

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 065da22..e279ab6 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -1027,7 +1027,7 @@ class System(list):
             yield " saddle offset: %s" % (xs - x,)
             yield "               (%s µm)" % ((xs - x)*l/1e-6,)
             yield " saddle height: %.2g eV" % (xsp - (p_dc + p_rf))
-        except:
+        except Exception:
             yield " saddle not found"
         yield "force:"
         f_dc = self.electrical_potential(x, 1, "dc")[0]
-- 
2.43.0


From e4e194c3e11b5b55dec68b5d532d1f560eb16cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:27 +0000
Subject: [PATCH 54/64] fix: System.group keeps the cover of the electrodes

---
 electrode/system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index e279ab6..492daeb 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -862,13 +862,16 @@ class System(list):
             paths = []
             dcs = []
             rfs = []
+            cover = {}
             for j in np.argwhere(good)[:, 0]:
                 el = self[j]
                 paths.extend(el.paths)
                 dcs.append(el.dc)
                 rfs.append(el.rf)
+                cover = dict(cover_height=el.cover_height,
+                        cover_nmax=el.cover_nmax)
             eles.append(PolygonPixelElectrode(paths=paths,
-                dc=np.mean(dcs), rf=np.mean(rfs)))
+                dc=np.mean(dcs), rf=np.mean(rfs), **cover))
         return System(eles)
 
     def mathieu(self, x, scale, r=2, sorted=True):
-- 
2.43.0


From d0a5fe0d275baa15e9238a7837a8ddfa48dcec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:27 +0000
Subject: [PATCH 55/64] fix: System.group has no undefined voltages for empty
 bins

---
 electrode/system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 492daeb..c4941f7 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -871,7 +871,8 @@ class System(list):
                 cover = dict(cover_height=el.cover_height,
                         cover_nmax=el.cover_nmax)
             eles.append(PolygonPixelElectrode(paths=paths,
-                dc=np.mean(dcs), rf=np.mean(rfs), **cover))
+                dc=np.mean(dcs) if dcs else 0.,
+                rf=np.mean(rfs) if rfs else 0., **cover))
         return System(eles)
 
     def mathieu(self, x, scale, r=2, sorted=True):
-- 
2.43.0


From e6fddab56434a10401a0db8edbdcd74adf28aa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:27 +0000
Subject: [PATCH 56/64] fix: MeshPixelElectrode.from_polygon_system keeps the
 cover

---
 electrode/electrode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/electrode/electrode.py b/electrode/electrode.py
index ff5b1b7..56d9b41 100644
--- a/electrode/electrode.py
+++ b/electrode/electrode.py
@@ -369,6 +369,7 @@ class MeshPixelElectrode(SurfaceElectrode):
         edges = []
         polygons = []
         potentials = []
+        cover = {}
         for p in s:
             assert isinstance(p, PolygonPixelElectrode), p
             for i in p.paths:
@@ -377,8 +378,10 @@ class MeshPixelElectrode(SurfaceElectrode):
                 edges.extend(np.c_[np.roll(ei, 1, 0), ei])
                 polygons.extend(len(potentials)*np.ones(len(ei)))
             potentials.append(p.dc)
+            cover = dict(cover_height=p.cover_height,
+                    cover_nmax=p.cover_nmax)
         return cls(dc=1, points=points, edges=edges, polygons=polygons,
-                potentials=potentials)
+                potentials=potentials, **cover)
 
     def potential(self, x, derivative=0, potential=1., out=None):
         return mesh_potential(x, self.points, self.edges, self.polygons,
-- 
2.43.0


From 996c0d676460fec7e3adfa7bc0881a61ba9cebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:05 +0000
Subject: [PATCH 57/64] fix: SphericalHarmonics samples 2*nmax angles also for
 nmax=61

---
 electrode/spherical_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index e1da859..e137d98 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -92,7 +92,7 @@ class SphericalHarmonics(object):
         self.theta = np.arccos(x)[:, None]
         # self.measure = np.sin(self.theta)
         self.weight = w[:, None]
-        self.phi = np.arange(0, 2 * np.pi, np.pi / nmax)[None, :]
+        self.phi = (np.arange(2 * nmax) * (np.pi / nmax))[None, :]
         self.n, self.m = np.empty((2, nmax, nmax), int)
         for n, m, p, q in self.indices():
             self.n[p, q], self.m[p, q] = n, m
-- 
2.43.0


From cb6b90ee423121b93502af80b6a97796bb52c9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 58/64] fix: adapt_mesh does not compare triangles at the rim
 with the last one

---
 electrode/adaptive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/adaptive.py b/electrode/adaptive.py
index 490d8a3..15c3d37 100644
--- a/electrode/adaptive.py
+++ b/electrode/adaptive.py
@@ -143,7 +143,8 @@ def adapt_mesh(constraints, variable, fixed=[], threshold=.5,
             print("objective:", c)
         potentials = v[len(fixed):]
         neighbors = args.pop("neighbors")
-        edge_changes = potentials.take(neighbors) - potentials[:, None]
+        edge_changes = np.where(neighbors < 0, 0., # no neighbor there
+                potentials.take(neighbors) - potentials[:, None])
         refine = np.fabs(edge_changes).max(1) > threshold
         args["triangleareas"] = np.where(refine, areas/down, areas*up)
     return s, v, c
-- 
2.43.0


From 524f51ae44e22b21b6aae572bd009b70422d0f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 59/64] fix: adapt_mesh accepts boundaries of fixed electrodes
 as documented

---
 electrode/adaptive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/electrode/adaptive.py b/electrode/adaptive.py
index 15c3d37..6ebcfa0 100644
--- a/electrode/adaptive.py
+++ b/electrode/adaptive.py
@@ -24,7 +24,7 @@ from functools import partial
 import numpy as np
 
 from .system import System
-from .electrode import PolygonPixelElectrode
+from .electrode import Electrode, PolygonPixelElectrode
 from .utils import area_centroid
 
 from bem.pytriangle import triangulate
@@ -123,6 +123,8 @@ def adapt_mesh(constraints, variable, fixed=[], threshold=.5,
     """
     opts = "Qq%fa%fn" % (q, a)
     args = paths_to_mesh(variable)
+    fixed = [p if isinstance(p, Electrode) else
+            PolygonPixelElectrode(paths=[p], **kwargs) for p in fixed]
     s = v = c = None
     while True:
         args = triangulate(opts=opts, **args)
-- 
2.43.0


From fb90b44b6a30fabf76a492fb2fe637736711f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:11 +0000
Subject: [PATCH 60/64] fix: Arcball.setaxes() without axes lifts the
 constraint instead of failing later

---
 electrode/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index ee0dd95..d44aec5 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -1563,7 +1563,7 @@ class Arcball(object):
 
     def setaxes(self, *axes):
         """Set axes to constrain rotations."""
-        if axes is None:
+        if not axes:
             self._axes = None
         else:
             self._axes = [unit_vector(axis) for axis in axes]
-- 
2.43.0


From f0b6cb46230b6a6810b7119ab6b188c1c0817866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:31 +0000
Subject: [PATCH 61/64] fix: Electrode.potential accepts any array_like
 positions as documented

---
 electrode/electrode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/electrode/electrode.py b/electrode/electrode.py
index 56d9b41..a105a59 100644
--- a/electrode/electrode.py
+++ b/electrode/electrode.py
@@ -154,6 +154,7 @@ class CoverElectrode(Electrode):
         self.height = height
 
     def potential(self, x, derivative=0, potential=1., out=None):
+        x = np.asarray(x, np.double)
         if out is None:
             out = np.zeros((x.shape[0], 2*derivative+1), np.double)
         if derivative == 0:
@@ -254,6 +255,7 @@ class PointPixelElectrode(SurfaceElectrode):
                     verticalalignment="center")
 
     def potential(self, x, derivative=0, potential=1., out=None):
+        x = np.asarray(x, np.double)
         return point_potential(x, self.points, self.areas, potential,
                 derivative, self.cover_nmax, self.cover_height, out)
 
@@ -323,6 +325,7 @@ class PolygonPixelElectrode(SurfaceElectrode):
         return e
 
     def potential(self, x, derivative=0, potential=1., out=None):
+        x = np.asarray(x, np.double)
         return polygon_potential(x, self.paths, potential, derivative,
                 self.cover_nmax, self.cover_height, out)
 
@@ -384,6 +387,7 @@ class MeshPixelElectrode(SurfaceElectrode):
                 potentials=potentials, **cover)
 
     def potential(self, x, derivative=0, potential=1., out=None):
+        x = np.asarray(x, np.double)
         return mesh_potential(x, self.points, self.edges, self.polygons,
                 self.potentials*potential, derivative,
                 self.cover_nmax, self.cover_height, out)
-- 
2.43.0


From 3fe1308e76591efe64e3b7e58723909b9dc11039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:31 +0000
Subject: [PATCH 62/64] fix: tensor, area and Floquet utilities accept any
 array_like as documented

---
 electrode/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/electrode/utils.py b/electrode/utils.py
index 7a73aa7..885d56b 100644
--- a/electrode/utils.py
+++ b/electrode/utils.py
@@ -93,7 +93,7 @@ def rotate_tensor(c, r, order=None):
         Tensor degree. If given, the last `order` dimenstions are rotated,
         else the degree degree is `r.ndim - 1`.
     """
-    #c = np.atleast_1d(c)
+    c = np.asarray(c)
     #r = np.atleast_2d(r)
     n = c.ndim - 1
     if order is None:
@@ -323,7 +323,7 @@ def expand_tensor(c, order=None):
     -------
     d : array_like, shape (n, 3, ..., 3)
     """
-    #c = np.atleast_2d(c)
+    c = np.asarray(c)
     if order is None:
         order = (c.shape[-1]-1)//2
     if order == 0:
@@ -387,7 +387,7 @@ def select_tensor(c, order=None):
         Selected lineraly independent tensor. `l = (m - 1)/2` is the
         order of the tensor.
     """
-    #c = np.atleast_1d(c)
+    c = np.asarray(c)
     n = c.ndim
     if order is None:
         order = n - 1 # nx, 3, ..., 3
@@ -422,7 +422,7 @@ def cartesian_to_spherical_harmonics(c):
         Spherical harmonics values. The first axis is the azimuthal part
         and ranges from `(-l...l)`.
     """
-    #c = np.atleast_1d(c)
+    c = np.asarray(c)
     l = (c.shape[0] - 1)//2
     #n = 1/(factorial(l)*2**l*np.sqrt(np.pi/(2*l+1)))
     #n *= 4*np.pi*2**(l+1)/(l+1)*factorial(l+1)**2/factorial(2*l+2)
@@ -525,6 +525,7 @@ def area_centroid(p1):
         Centroid of the polygon area. Not necessarily inside the
         polygon.
     """
+    p1 = np.asarray(p1)
     p2 = np.roll(p1, -1, axis=0)
     r = p1[:, 0]*p2[:, 1] - p2[:, 0]*p1[:, 1]
     a = r.sum(0)/2.
@@ -567,6 +568,7 @@ def mathieu(r, *a):
     * the eigenvalues and eigenvectors are not necessarily ordered
       (see numpy.linalg.eig())
     """
+    a = [np.asarray(ai) for ai in a]
     n = a[0].shape[0]
     m = np.zeros((2*r+1, 2*r+1, 2, 2, n, n), dtype=np.complex128)
     for l in range(2*r+1):
-- 
2.43.0


From 6591cebe95c70b9c734be594f694789058ff0fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:31 +0000
Subject: [PATCH 63/64] fix: System.trajectory and System.ions accept any
 array_like as documented

---
 electrode/system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index c4941f7..780d121 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -653,8 +653,8 @@ class System(list):
                 return integ_(ddx, nsteps, t, p, q, t1, methc,
                         *args, **kwargs)
         axis = list(axis)
+        x0, v0 = np.array(x0, np.double), np.array(v0, np.double)
         t, p, q = t0, v0[axis], x0[axis]
-        x0 = np.array(x0)
         def ddx(t, q, f):
             x0[axis] = q
             f[:] = self.time_potential(x0, 1, t, expand=True)[0, axis]
@@ -1104,6 +1104,7 @@ class System(list):
         ev : array, shape (3*n, 3*n)
             Normal mode vectors.
         """
+        x0, q = np.asarray(x0, np.double), np.asarray(q, np.double)
         n = len(x0)
         qs = q[:, None]*q[None, :]
 
-- 
2.43.0


From 1949528edf11fdab798810ee5bb243947d913582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:17 +0000
Subject: [PATCH 64/64] fix: detect straight and corner points for smoothing in
 any direction

---
 electrode/polygons.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 20caf15..a33b0c5 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -52,12 +52,18 @@ def smooth(x, y, smoothing=1., straight=None, corner=None, straight_tol=1e-6,
     u = np.cumsum(du) - du[0]
     u /= u[-1]
     a = np.arctan2(dy, dx)
-    t = np.fabs((np.roll(a, -1) - a) % (2*np.pi)) < straight_tol
+    # the first point is the last one again: look at the segments between
+    # the distinct points, and at the turn modulo a full one, either way
+    a = a[1:]
+    t = np.fabs((np.roll(a, -1) - a + np.pi) % (2*np.pi)
+                - np.pi) < straight_tol
+    b = (np.roll(t, 1) | np.roll(t, -1)) & ~t
+    t, b = np.append(t[-1], t), np.append(b[-1], b)
     w = np.ones_like(u)
     if straight is not None:
         w = np.where(t, straight, w)
     if corner is not None:
-        w = np.where((np.roll(t, 1) | np.roll(t, -1)) & ~t, corner, w)
+        w = np.where(b, corner, w)
     s = len(x)*smoothing
     (tck, u), fp, ier, msg = splprep([x, y], w=w, u=u, s=s,
                                      k=k, per=1, nest=len(x) + 2,
-- 
2.43.0

