From c4d85d28734777189587a6962faef06e46dd952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:59 +0000
Subject: [PATCH 01/13] fix: do not share pickle state between structures

The state of a structured object was the structure's own initializer
dict, so pickling a second object that uses the same structure
overwrote the data of the first one.
---
 casadi_extras/structure3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 90eb856..5ec5e21 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -907,7 +907,7 @@ class CasadiStructured(Structured,CasadiStructureDerivable):
     self.__init__(cs,order=state["order"])
 
   def __getstate__(self):
-    d = self.struct.__getstate__()
+    d = dict(self.struct.__getstate__())
     d["order"] = self.order
     return d
 
@@ -1068,7 +1068,7 @@ class DMStruct(MatrixStruct):
     self.__init__(cs,data=state["master"])
 
   def __getstate__(self):
-    d = self.struct.__getstate__()
+    d = dict(self.struct.__getstate__())
     d["master"] = self.master
     return d
 
-- 
2.43.0


From 773008c7e870f66da6be5fd488613e2b338c427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:59 +0000
Subject: [PATCH 02/13] fix: keep the original sparsity of symm entries when
 pickling

Assigning to a symm entry of a restored structure failed because the
attribute was missing.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 5ec5e21..9524bea 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1324,7 +1324,7 @@ class CasadiStructEntry(StructEntry):
       return "symm(" +  self.sparsity.dim() + ")"
 
   def __getstate__(self):
-    return dict((k,getattr(self,k)) for k in ["name", "struct", "sparsity","type","repeat","shapestruct","dims"])
+    return dict((k,getattr(self,k)) for k in ["name", "struct", "sparsity","type","repeat","shapestruct","dims","originalsparsity"] if hasattr(self,k))
 
 
 def entry(*args,**kwargs):
-- 
2.43.0


From 5f3faed08bf81e922137d265733a80d2f534afa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:59 +0000
Subject: [PATCH 03/13] fix: save and struct_load use open() instead of the
 removed file()

---
 casadi_extras/structure3.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 9524bea..0f66949 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -769,7 +769,8 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
 
   def save(self,filename):
     import pickle
-    pickle.dump(self,file(filename,"wb"),2)
+    with open(filename,"wb") as f:
+      pickle.dump(self,f,2)
 
   class FlatIndexDispatcher(Dispatcher):
     def __call__(self,payload,canonicalIndex,extraIndex=None,entry=None):
@@ -1060,7 +1061,8 @@ class DMStruct(MatrixStruct):
 
   def save(self,filename):
     import pickle
-    pickle.dump(self,file(filename,"wb"),2)
+    with open(filename,"wb") as f:
+      pickle.dump(self,f,2)
 
   def __setstate__(self,state):
     cs = CasadiStructure.__new__(CasadiStructure)
@@ -1487,4 +1489,5 @@ class DataReferenceSquaredRepeated(DataReference):
 
 def struct_load(filename):
     import pickle
-    return pickle.load(file(filename,"rb"))
+    with open(filename,"rb") as f:
+      return pickle.load(f)
-- 
2.43.0


From 6c41128b1d52a7d263dbc350dd22a84dd33a4deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:59 +0000
Subject: [PATCH 04/13] fix: broken error messages in structure definitions

Three messages raised TypeError or AttributeError while being formatted.
---
 casadi_extras/structure3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 0f66949..1a6a694 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -328,7 +328,7 @@ class Structure(object):
 
   def getStruct(self,name):
     if name not in self.struct.dict:
-      raise Exception("Cannot find entry with key '%s'. Candidates: " % (str(name),str(list(name.keys()))))
+      raise Exception("Cannot find entry with key '%s'. Candidates: %s" % (str(name),str(list(self.struct.dict.keys()))))
     ret = self.struct.dict[name].struct
     if ret is None:
       raise Exception("Entry '%s' has no structure." % (name))
@@ -1308,10 +1308,10 @@ class CasadiStructEntry(StructEntry):
       self.type= kwargs["type"]
       allowedclass = ['symm']
       if self.type not in allowedclass:
-        raise Exception("You supplied a type argument '%s' but it is not recognised. Use one of %s" % (str(self.type,str(allowedclass))))
+        raise Exception("You supplied a type argument '%s' but it is not recognised. Use one of %s" % (str(self.type),str(allowedclass)))
       if self.type=="symm":
         if self.sparsity.size1() != self.sparsity.size2():
-          raise Exception("You supplied a type 'symm', but matrix is not square. Got " % self.sparsity.dim() + ".")
+          raise Exception("You supplied a type 'symm', but matrix is not square. Got " + self.sparsity.dim() + ".")
         self.originalsparsity = self.sparsity
         self.sparsity = self.sparsity*Sparsity.upper(self.sparsity.size1())
 
-- 
2.43.0


From 8d35477cb90d5d3d46c89c797677e3f31bcd8300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:55 +0000
Subject: [PATCH 05/13] fix: PiecewisePoly.poly for rows of degree lower than
 the basis order

np.poly1d drops leading zero coefficients, so dividing by order + 1
factors failed with a shape mismatch.
---
 casadi_extras/collocation/piecewise_poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/collocation/piecewise_poly.py b/casadi_extras/collocation/piecewise_poly.py
index 59aa1d6..42268d5 100644
--- a/casadi_extras/collocation/piecewise_poly.py
+++ b/casadi_extras/collocation/piecewise_poly.py
@@ -125,7 +125,7 @@ class PiecewisePoly(object):
         '''
         p = self._basis.compose(self._coefficients[n])
         for p_i in p:
-            p_i.coef /= (self.intervals[n + 1] - self.intervals[n]) ** np.flip(np.arange(self._basis.order + 1))
+            p_i.coef /= (self.intervals[n + 1] - self.intervals[n]) ** np.flip(np.arange(len(p_i.coef)))
 
         return p
 
-- 
2.43.0


From ba451ea5e838f0541dfd0a186ac045ff2a51866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:55 +0000
Subject: [PATCH 06/13] fix: Pdq interpolator with continuity='left'

The value matrix has no column for the leftmost collocation point, but
the column indices were not shifted. Interval boundaries were assigned
to the right interval.
---
 casadi_extras/collocation/collocation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index ed83c5c..9e0d189 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -220,12 +220,17 @@ class _PdqInterpolator(object):
         self._pdq = pdq
         self._continuity = continuity
         self._groups = groups
+
+        # Columns of the value matrix belonging to each group. When the function is continuous from the left,
+        # there is no value at the leftmost collocation point.
+        self._columns = [g - 1 for g in groups] if continuity == 'left' else groups
         
 
     def __call__(self, x, t):
         pdq = self._pdq
         continuity = self._continuity
-        groups = self._groups
+        columns = self._columns
+        side = 'left' if continuity == 'left' else 'right'
 
         expected_x_cols = pdq._collocationPoints.size if continuity == 'both' else pdq._collocationPoints.size - 1
         if x.shape[1] != expected_x_cols:
@@ -234,8 +239,8 @@ class _PdqInterpolator(object):
         l = []
         
         for ti in np.atleast_1d(t):
-            i = np.clip(np.searchsorted(pdq._intervalBounds, ti, 'right') - 1, 0, len(pdq._intervalBounds) - 2)  # interval index
-            l.append(np.dot(x[:, groups[i]], self._basis[i].interpolationMatrix(ti).T))
+            i = np.clip(np.searchsorted(pdq._intervalBounds, ti, side) - 1, 0, len(pdq._intervalBounds) - 2)  # interval index
+            l.append(np.dot(x[:, columns[i]], self._basis[i].interpolationMatrix(ti).T))
 
         return np.hstack(l)
 
-- 
2.43.0


From 0133eae2707820e1986ed99472a59eda2bcf8ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:55 +0000
Subject: [PATCH 07/13] fix: CollocationIntegrator for quadratures depending on
 parameters

The quadrature expressions depend on scheme.p, which was not among the
inputs of the integrator function.
---
 casadi_extras/collocation/collocation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index 9e0d189..7f482d3 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -540,7 +540,7 @@ class CollocationIntegrator(cs.Function):
         w0['K'] = cs.MX.zeros(scheme.K.shape)
         w0['Z'] = cs.repmat(z0, 1, scheme.Z.shape[1])
         
-        sol = var(rf(w0, x0, scheme.u, dae.p))
+        sol = var(rf(w0, x0, scheme.u, scheme.p))
         sol_x = sol['x']
         sol_K = sol['K']
         sol_Z = sol['Z']
@@ -550,7 +550,7 @@ class CollocationIntegrator(cs.Function):
         # TODO: return correct value for zf!
         # TODO: return only x instead of x and xf?
         super().__init__(name, 
-            [x0, z0, scheme.u, dae.p], 
+            [x0, z0, scheme.u, scheme.p], 
             [sol_x[:, 1 :], np.repeat(np.nan, dae.nz), sol_q[:, -1], sol_X, sol_Z, sol_Q, sol_x, sol_K, scheme.tc],
             ['x0', 'z0', 'u', 'p'], 
             ['xf', 'zf', 'qf', 'X', 'Z', 'Q', 'x', 'K', 'tc'])
-- 
2.43.0


From 0d8b46d64f311ddd21362848c31855e6667415e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:55 +0000
Subject: [PATCH 08/13] fix: parallel() keeps the equations of the connected
 models

---
 casadi_extras/dae_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/dae_model.py b/casadi_extras/dae_model.py
index 2f73175..cdf3e84 100644
--- a/casadi_extras/dae_model.py
+++ b/casadi_extras/dae_model.py
@@ -290,4 +290,4 @@ def parallel(models):
     for attr in ['x', 'z', 'u', 'p', 'ode', 'alg', 'quad']: # TODO: what do we do with t?
         d[attr] = ce.struct_MX([ce.entry('model_{0}'.format(i), expr=getattr(m, attr)) for i, m in enumerate(models)])
 
-    return Dae(**d)
\ No newline at end of file
+    return SemiExplicitDae(**d)
\ No newline at end of file
-- 
2.43.0


From 3844d219974165a14cd64cd2012712ed16cda321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:55 +0000
Subject: [PATCH 09/13] fix: vertcat of inequalities without a nominal value

---
 casadi_extras/inequality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/inequality.py b/casadi_extras/inequality.py
index d246ca0..fd9fb58 100644
--- a/casadi_extras/inequality.py
+++ b/casadi_extras/inequality.py
@@ -71,11 +71,11 @@ def vertcat(ineq):
         expr = struct_MX([entry(k, expr=v.expr) for k, v in ineq.items()])
         lb = expr(dict((k, v.lb) for k, v in ineq.items()))
         ub = expr(dict((k, v.ub) for k, v in ineq.items()))
-        nominal = expr(dict((k, v.nominal) for k, v in ineq.items()))
+        nominal = None if any(v.nominal is None for v in ineq.values()) else expr(dict((k, v.nominal) for k, v in ineq.items()))
     else:
         expr=cs.vertcat(*[a.expr for a in ineq])
         lb=cs.vertcat(*[a.lb for a in ineq])
         ub=cs.vertcat(*[a.ub for a in ineq])
-        nominal=cs.vertcat(*[a.nominal for a in ineq])
+        nominal=None if any(a.nominal is None for a in ineq) else cs.vertcat(*[a.nominal for a in ineq])
 
     return Inequality(expr=expr, lb=lb, ub=ub, nominal=nominal)
\ No newline at end of file
-- 
2.43.0


From 826ddac24d3979db766d24e298ebf93a2244773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:55 +0000
Subject: [PATCH 10/13] fix: reading an entry of a mutable MX structure after
 assigning to it

The entries were split from the data once at construction, so later
assignments were not visible when reading.
---
 casadi_extras/structure3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 1a6a694..e2120db 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1093,6 +1093,10 @@ class MXStruct(MatrixStruct,VertsplitStructure):
 
     self.buildMap()
 
+  def __setitem__(self,powerIndex,value):
+    MatrixStruct.__setitem__(self,powerIndex,value)
+    self.buildMap()
+
   def __MX__(self):
     return self.cat
 
-- 
2.43.0


From 186bbe11ca70aa4f1e3b340b31eff57e870cc82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:55 +0000
Subject: [PATCH 11/13] fix: broadcast scalars in product() when the first
 structure has size one

---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index e2120db..4ac7e64 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -553,7 +553,7 @@ class CasadiStructureDerivable:
   def product(self,otherstruct,arg=0):
     (a,mtype) = self.argtype(arg)
 
-    if a.shape[0] == 1 and a.shape[1] == 1 and self.size!=1:
+    if a.shape[0] == 1 and a.shape[1] == 1 and (self.size!=1 or otherstruct.size!=1):
        a = DM.ones(self.size,otherstruct.size)*a
     if not(a.shape[1]==otherstruct.size and a.shape[0]==self.size):
        raise Exception("Expecting DM of shape (%s,%s). Got %s" % (self.size,otherstruct.size,a.dim()))
-- 
2.43.0


From 9cd3c59e0b2f29016e981ad002663419e7fd6325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:42 +0000
Subject: [PATCH 12/13] fix: return (row, column) from getCanonicalIndex with
 extraMode=2

The extra index returned for extraMode=2 was (column, row), so using the
returned canonical index to read a matrix entry addressed the transposed
element, or none at all.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 4ac7e64..dcf24c3 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -812,7 +812,7 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
       k += sp.nnz()
       it = tuple(i)
       self.map[it] = m
-      self.lookuptable+=[(it,kk,p) for kk,p in enumerate(zip(sp.get_col(),sp.row()))]
+      self.lookuptable+=[(it,kk,p) for kk,p in enumerate(zip(sp.row(),sp.get_col()))]
       for a in canonicalIndexAncestors(it)[1:]:
         if a in hmap:
           hmap[a].append(m)
-- 
2.43.0


From 080d2f918fce7068f1b4455b16be78f23e96dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:44 +0000
Subject: [PATCH 13/13] fix: split the column form of the data when mapping a
 matrix view of MX data

Repeated and squared_repeated views of an MX matrix failed on
construction: the whole matrix was split by rows, although the offsets
count elements of its column form.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index dcf24c3..12b4d05 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -969,7 +969,7 @@ class VertsplitStructure:
     if parent is None:  parent = self.master
 
     if isinstance(parent,DataReference):
-      parent = parent.a
+      parent = parent.v
 
     ks  = []
     its = []
-- 
2.43.0

