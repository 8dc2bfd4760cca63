From 0ff17cd95d9b7056a659e2af1433f2f13207e2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:47 +0000
Subject: [PATCH 01/22] fix: reads of a mutable MX structure return the values
 before a write

The pieces of the vector were split off once, at construction.
Assigning an entry now drops them, so that later reads see the new value.
---
 casadi_extras/structure3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 90eb856..383507d 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1091,6 +1091,11 @@ class MXStruct(MatrixStruct,VertsplitStructure):
 
     self.buildMap()
 
+  def __setitem__(self,powerIndex,value):
+    # The pieces split off the master before this assignment are out of date from now on
+    self.priority_object_map = {}
+    return MatrixStruct.__setitem__(self,powerIndex,value)
+
   def __MX__(self):
     return self.cat
 
-- 
2.43.0


From 2a1a799722fa0402f8492ccbe7ca7903a4549690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:50 +0000
Subject: [PATCH 02/22] fix: save() and struct_load() use the file() builtin,
 which Python 3 lacks

---
 casadi_extras/structure3.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 383507d..7f87d04 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -769,7 +769,8 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
 
   def save(self,filename):
     import pickle
-    pickle.dump(self,file(filename,"wb"),2)
+    with open(filename,"wb") as f:
+      pickle.dump(self,f,2)
 
   class FlatIndexDispatcher(Dispatcher):
     def __call__(self,payload,canonicalIndex,extraIndex=None,entry=None):
@@ -1060,7 +1061,8 @@ class DMStruct(MatrixStruct):
 
   def save(self,filename):
     import pickle
-    pickle.dump(self,file(filename,"wb"),2)
+    with open(filename,"wb") as f:
+      pickle.dump(self,f,2)
 
   def __setstate__(self,state):
     cs = CasadiStructure.__new__(CasadiStructure)
@@ -1492,4 +1494,5 @@ class DataReferenceSquaredRepeated(DataReference):
 
 def struct_load(filename):
     import pickle
-    return pickle.load(file(filename,"rb"))
+    with open(filename,"rb") as f:
+      return pickle.load(f)
-- 
2.43.0


From bdad3dfa84cd9bb9316f35d538542e3cd62b6053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:53 +0000
Subject: [PATCH 03/22] fix: pickling two containers of one structure together
 loses the second one's data

The pickled state was the same dictionary object for both containers,
so the second one was restored with the contents of the first.
---
 casadi_extras/structure3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 7f87d04..b3fef1c 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -908,7 +908,7 @@ class CasadiStructured(Structured,CasadiStructureDerivable):
     self.__init__(cs,order=state["order"])
 
   def __getstate__(self):
-    d = self.struct.__getstate__()
+    d = dict(self.struct.__getstate__())
     d["order"] = self.order
     return d
 
@@ -1070,7 +1070,7 @@ class DMStruct(MatrixStruct):
     self.__init__(cs,data=state["master"])
 
   def __getstate__(self):
-    d = self.struct.__getstate__()
+    d = dict(self.struct.__getstate__())
     d["master"] = self.master
     return d
 
-- 
2.43.0


From 872542b92cdaba866ca5ff47159e735c5add25d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:55 +0000
Subject: [PATCH 04/22] fix: a symmetric entry cannot be assigned a matrix
 after unpickling

The sparsity pattern needed to check the value was not saved.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index b3fef1c..30a1a33 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1331,7 +1331,7 @@ class CasadiStructEntry(StructEntry):
       return "symm(" +  self.sparsity.dim() + ")"
 
   def __getstate__(self):
-    return dict((k,getattr(self,k)) for k in ["name", "struct", "sparsity","type","repeat","shapestruct","dims"])
+    return dict((k,getattr(self,k)) for k in ["name", "struct", "sparsity","originalsparsity","type","repeat","shapestruct","dims"] if hasattr(self,k))
 
 
 def entry(*args,**kwargs):
-- 
2.43.0


From 1fb593e716cc2c98ed214e024f650cb4a16eb83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:58 +0000
Subject: [PATCH 05/22] fix: a list of names ignores what the named entries are

The rest of the index was resolved in the enclosing structure, so that
repeated, nested and symmetric entries could not be used in a name list.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 30a1a33..82f9162 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -408,7 +408,7 @@ class Structure(object):
                    ])
         elif isinstance(p,list):
           return [
-                     self.traverseByPowerIndex(
+                     self.dict[s].traverseByPowerIndex(
                        powerIndex[1:],
                        canonicalIndex=canonicalIndex+(s,),
                        dispatcher=dispatcher,
-- 
2.43.0


From 46402e0ced5756ebc87adc747a741fd5730823f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:01 +0000
Subject: [PATCH 06/22] fix: matrix indices into symmetric entries miss the
 lower triangle

Only the stored triangle was indexed: elements below the diagonal read as
zero, rows and columns could not be read, and writes through a single index
below the diagonal were lost.  Index the full symmetric matrix instead.
---
 casadi_extras/structure3.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 82f9162..53170c5 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -594,13 +594,14 @@ class GetterDispatcher(Dispatcher):
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
 
-      i = performExtraIndex(self.struct.map[canonicalIndex],extraIndex=extraIndex,entry=entry)
+      im = self.struct.map[canonicalIndex]
+      if type=="symm":
+        im = triu2symm(im)
+      i = performExtraIndex(im,extraIndex=extraIndex,entry=entry)
 
       try:
-        if type is None:
+        if type is None or type=="symm":
           return correct_vector_indexing(self.master, i)
-        elif type=="symm":
-          return triu2symm(self.master[i])
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
       except Exception as e:
@@ -618,16 +619,12 @@ class SetterDispatcher(Dispatcher):
         if type is None:
           self.master[i] = payload_
         elif type=="symm":
-          iflip = performExtraIndex(self.struct.map[canonicalIndex],extraIndex=extraIndex,entry=entry,flip=True)
-          if payload_.is_scalar():
-            self.master[i] = payload_
-            self.master[iflip] = payload_
-          else:
+          i = performExtraIndex(triu2symm(self.struct.map[canonicalIndex]),extraIndex=extraIndex,entry=entry)
+          if not payload_.is_scalar():
             oi = performExtraIndex(DM.ones(entry.originalsparsity),extraIndex=extraIndex,entry=entry)
             if oi.sparsity()!=payload_.sparsity():
               raise Exception("Payload sparsity " + payload_.dim() +  " does not match lhs sparisty " + oi.dim() + "." )
-            self.master[iflip] = payload_.T[iflip.sparsity()]
-            self.master[i] = payload_[i.sparsity()]
+          self.master[i] = payload_
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
       except NotImplementedError as e:
-- 
2.43.0


From 51e0b7d6026d9d80e4bb917f2b589cb80cf17dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:04 +0000
Subject: [PATCH 07/22] fix: repeated() and squared_repeated() views of an MX
 matrix fail

The vector of all elements has to be split up, not the matrix.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 53170c5..0613029 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -966,7 +966,7 @@ class VertsplitStructure:
     if parent is None:  parent = self.master
 
     if isinstance(parent,DataReference):
-      parent = parent.a
+      parent = parent.v
 
     ks  = []
     its = []
-- 
2.43.0


From 3cb16a820ade32bc71542fb3492c754c7fdda998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:07 +0000
Subject: [PATCH 08/22] fix: a model with algebraic states but no algebraic
 equations is accepted

---
 casadi_extras/dae_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/dae_model.py b/casadi_extras/dae_model.py
index 2f73175..5bf0c7e 100644
--- a/casadi_extras/dae_model.py
+++ b/casadi_extras/dae_model.py
@@ -207,11 +207,12 @@ class SemiExplicitDae(Dae):
             if not alg.is_column():
                 raise ValueError('alg must be a column vector')
 
-            if self.z.numel() != alg.numel():
-                raise ValueError('z and alg must have the same number of elements')
         else:
             alg = cs.MX.sym('alg', 0)
 
+        if self.z.numel() != alg.numel():
+            raise ValueError('z and alg must have the same number of elements')
+
         self._ode = ode
         self._alg = alg
 
-- 
2.43.0


From 7ac3577f9d89550d58beb46450739db9eba99ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:09 +0000
Subject: [PATCH 09/22] fix: the parallel connection of models loses the
 equations

---
 casadi_extras/dae_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/dae_model.py b/casadi_extras/dae_model.py
index 5bf0c7e..a56d06e 100644
--- a/casadi_extras/dae_model.py
+++ b/casadi_extras/dae_model.py
@@ -291,4 +291,4 @@ def parallel(models):
     for attr in ['x', 'z', 'u', 'p', 'ode', 'alg', 'quad']: # TODO: what do we do with t?
         d[attr] = ce.struct_MX([ce.entry('model_{0}'.format(i), expr=getattr(m, attr)) for i, m in enumerate(models)])
 
-    return Dae(**d)
\ No newline at end of file
+    return SemiExplicitDae(**d)
\ No newline at end of file
-- 
2.43.0


From a1c73ec000f9e3ceb0db50326e43ebb82ddf96a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:12 +0000
Subject: [PATCH 10/22] fix: inequalities without nominal values cannot be
 concatenated

---
 casadi_extras/inequality.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/inequality.py b/casadi_extras/inequality.py
index d246ca0..70a8b24 100644
--- a/casadi_extras/inequality.py
+++ b/casadi_extras/inequality.py
@@ -71,11 +71,18 @@ def vertcat(ineq):
         expr = struct_MX([entry(k, expr=v.expr) for k, v in ineq.items()])
         lb = expr(dict((k, v.lb) for k, v in ineq.items()))
         ub = expr(dict((k, v.ub) for k, v in ineq.items()))
-        nominal = expr(dict((k, v.nominal) for k, v in ineq.items()))
+        parts = ineq.values()
     else:
         expr=cs.vertcat(*[a.expr for a in ineq])
         lb=cs.vertcat(*[a.lb for a in ineq])
         ub=cs.vertcat(*[a.ub for a in ineq])
-        nominal=cs.vertcat(*[a.nominal for a in ineq])
+        parts = ineq
+
+    if parts and all(a.nominal is None for a in parts):
+        nominal = None
+    elif isinstance(ineq, dict):
+        nominal = expr(dict((k, v.nominal) for k, v in ineq.items()))
+    else:
+        nominal = cs.vertcat(*[a.nominal for a in ineq])
 
     return Inequality(expr=expr, lb=lb, ub=ub, nominal=nominal)
\ No newline at end of file
-- 
2.43.0


From 2630773db804b2203af9ebaf11060bc409e5b0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:14 +0000
Subject: [PATCH 11/22] fix: PiecewisePoly.poly() fails if a polynomial has
 less than full degree

---
 casadi_extras/collocation/piecewise_poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/collocation/piecewise_poly.py b/casadi_extras/collocation/piecewise_poly.py
index 59aa1d6..42268d5 100644
--- a/casadi_extras/collocation/piecewise_poly.py
+++ b/casadi_extras/collocation/piecewise_poly.py
@@ -125,7 +125,7 @@ class PiecewisePoly(object):
         '''
         p = self._basis.compose(self._coefficients[n])
         for p_i in p:
-            p_i.coef /= (self.intervals[n + 1] - self.intervals[n]) ** np.flip(np.arange(self._basis.order + 1))
+            p_i.coef /= (self.intervals[n + 1] - self.intervals[n]) ** np.flip(np.arange(len(p_i.coef)))
 
         return p
 
-- 
2.43.0


From 876a97f0586aa03b893981f02ba3560f2be3b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:17 +0000
Subject: [PATCH 12/22] fix: left-continuous interpolation of collocation point
 values fails

The values belong to all points but the first, so the columns are shifted by
one, and a shared interval bound belongs to the interval on its left.
---
 casadi_extras/collocation/collocation.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index ed83c5c..69b11e5 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -205,27 +205,34 @@ class _PdqInterpolator(object):
 
         # Transform collocation groups depending on the continuity option.
         groups = []
+        # Columns of the value matrix corresponding to the groups.
+        columns = []
 
         for g in pdq._collocationGroups:
             if continuity == 'both':
                 groups.append(g)
+                columns.append(g)
             elif continuity == 'left':
+                # There is no value for the leftmost collocation point.
                 groups.append(g[1 : ])
+                columns.append(g[1 : ] - 1)
             elif continuity == 'right':
                 groups.append(g[: -1])
+                columns.append(g[: -1])
             else:
                 raise ValueError('Invalid "continuity" value {0} in Pdq.interpolator()'.format(continuity))
 
         self._basis = [PolynomialBasis(pdq._collocationPoints[g]) for g in groups]
         self._pdq = pdq
         self._continuity = continuity
-        self._groups = groups
+        self._columns = columns
         
 
     def __call__(self, x, t):
         pdq = self._pdq
         continuity = self._continuity
-        groups = self._groups
+        columns = self._columns
+        side = 'left' if continuity == 'left' else 'right'
 
         expected_x_cols = pdq._collocationPoints.size if continuity == 'both' else pdq._collocationPoints.size - 1
         if x.shape[1] != expected_x_cols:
@@ -234,8 +241,8 @@ class _PdqInterpolator(object):
         l = []
         
         for ti in np.atleast_1d(t):
-            i = np.clip(np.searchsorted(pdq._intervalBounds, ti, 'right') - 1, 0, len(pdq._intervalBounds) - 2)  # interval index
-            l.append(np.dot(x[:, groups[i]], self._basis[i].interpolationMatrix(ti).T))
+            i = np.clip(np.searchsorted(pdq._intervalBounds, ti, side) - 1, 0, len(pdq._intervalBounds) - 2)  # interval index
+            l.append(np.dot(x[:, columns[i]], self._basis[i].interpolationMatrix(ti).T))
 
         return np.hstack(l)
 
-- 
2.43.0


From fe421b2ec8c2df022f41a3e7fc405dc93dcdc66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:20 +0000
Subject: [PATCH 13/22] fix: integrator construction fails if the quadrature
 depends on a parameter

---
 casadi_extras/collocation/collocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index 69b11e5..409e03f 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -547,7 +547,7 @@ class CollocationIntegrator(cs.Function):
         sol_K = sol['K']
         sol_Z = sol['Z']
         [sol_q, sol_Q, sol_X] = cs.substitute([scheme.q, scheme.Q, scheme.X], 
-            [scheme.x, scheme.K, scheme.Z], [sol_x, sol_K, sol_Z])
+            [scheme.x, scheme.K, scheme.Z, scheme.p], [sol_x, sol_K, sol_Z, dae.p])
 
         # TODO: return correct value for zf!
         # TODO: return only x instead of x and xf?
-- 
2.43.0


From 3ab4651f2d50938ac991db1612d303435a1de650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:22 +0000
Subject: [PATCH 14/22] fix: CollocationIntegrator.integrate() fails with
 positional arguments

---
 casadi_extras/collocation/collocation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index 409e03f..370012b 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -566,6 +566,9 @@ class CollocationIntegrator(cs.Function):
 
         # Call the cs.Function
         out = self.__call__(*args, **kwargs)
+        if not isinstance(out, dict):
+            # Called with positional arguments
+            out = dict(zip(self.name_out(), out))
 
         # Add output trajectory
         out['x_traj'] = self._scheme.piecewisePolyX(out['x'], out['K'])
-- 
2.43.0


From 6ff198de36d93351721f5722caa71a5bddb648f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:09 +0000
Subject: [PATCH 15/22] fix: accept row vector entries in nested structures

The element numbers of a nested structure were stacked row by row when an
entry was a row vector. Mixed shapes raised, equal ones gave a matrix.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 0613029..4d705b5 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -817,7 +817,7 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
           hmap[a] = [m]
     self.size = k
     for k,v in hmap.items():
-      hmap[k] = vertcat(*[i.nz[:] for i in v])
+      hmap[k] = vertcat(*[casadi.vec(i.nz[:]) for i in v])
     self.map.update(hmap)
 
     class StructureGetter:
-- 
2.43.0


From 7938f4ad9e8031201207163e32749d822d355db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:52 +0000
Subject: [PATCH 16/22] fix: match a list with a selection of repetitions by
 position

---
 casadi_extras/structure3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 4d705b5..fc8fd12 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -241,9 +241,9 @@ class StructEntry:
                       dims=dims[1:],
                       canonicalIndex=canonicalIndex+(canonical(i,s),),
                       dispatcher=dispatcher,
-                      payload = payloadUnpack(payload,i)
+                      payload = payloadUnpack(payload,k)
                     )
-                 for i in p]
+                 for k,i in enumerate(p)]
         elif isinstance(p,dict):
           raise Exception("powerIndex entry {} cannot be used in list context.")
         elif isinstance(p,set):
-- 
2.43.0


From 748dedbb5ad625f64cc6b4c86c5ff880b03f1512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:37 +0000
Subject: [PATCH 17/22] fix: PiecewisePoly.poly() fails for integer constants

---
 casadi_extras/collocation/piecewise_poly.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/collocation/piecewise_poly.py b/casadi_extras/collocation/piecewise_poly.py
index 42268d5..9b520c1 100644
--- a/casadi_extras/collocation/piecewise_poly.py
+++ b/casadi_extras/collocation/piecewise_poly.py
@@ -124,8 +124,7 @@ class PiecewisePoly(object):
         p[i](t) = self(interval[n] + t)[i, :]
         '''
         p = self._basis.compose(self._coefficients[n])
-        for p_i in p:
-            p_i.coef /= (self.intervals[n + 1] - self.intervals[n]) ** np.flip(np.arange(len(p_i.coef)))
+        h = self.intervals[n + 1] - self.intervals[n]
 
-        return p
+        return [np.poly1d(p_i.coef / h ** np.flip(np.arange(len(p_i.coef)))) for p_i in p]
 
-- 
2.43.0


From 8956e8adae53e0cabaee032394bdc8f504b2dbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:23 +0000
Subject: [PATCH 18/22] fix: convert the nodes of a polynomial basis to
 floating point

Products of integer nodes overflowed and gave wrong differentiation and interpolation matrices.
---
 casadi_extras/collocation/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/collocation/polynomial.py b/casadi_extras/collocation/polynomial.py
index 4ce2325..ba74ca4 100644
--- a/casadi_extras/collocation/polynomial.py
+++ b/casadi_extras/collocation/polynomial.py
@@ -44,7 +44,7 @@ class PolynomialBasis(object):
         @param tau roots of the polynomials
         '''
 
-        tau = np.atleast_1d(tau)
+        tau = np.atleast_1d(tau).astype(float)
         assert tau.ndim == 1
         assert len(tau) > 0
 
-- 
2.43.0


From 7c1df5e463904b19167ae3376d093b040bcfaa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:23 +0000
Subject: [PATCH 19/22] fix: take powers in floating point in
 polynomialInterpolator

Powers of integer nodes or query points overflowed.
---
 casadi_extras/collocation/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/collocation/polynomial.py b/casadi_extras/collocation/polynomial.py
index ba74ca4..db8852c 100644
--- a/casadi_extras/collocation/polynomial.py
+++ b/casadi_extras/collocation/polynomial.py
@@ -149,7 +149,7 @@ def polynomialInterpolator(x):
 
     assert x.ndim == 1
     N = x.size - 1
-    n = np.atleast_2d(np.arange(N + 1)).T
+    n = np.atleast_2d(np.arange(N + 1.0)).T
     X = x ** n
 
     return lambda u, xx: np.dot(u, np.linalg.solve(X, xx ** n))
-- 
2.43.0


From f001167f4b3b4094fb10821ccafe993fdaa2c4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:23 +0000
Subject: [PATCH 20/22] fix: take powers of the interval length in floating
 point in PiecewisePoly.poly

Powers of the length of intervals with integer bounds overflowed.
---
 casadi_extras/collocation/piecewise_poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/collocation/piecewise_poly.py b/casadi_extras/collocation/piecewise_poly.py
index 9b520c1..1a84244 100644
--- a/casadi_extras/collocation/piecewise_poly.py
+++ b/casadi_extras/collocation/piecewise_poly.py
@@ -124,7 +124,7 @@ class PiecewisePoly(object):
         p[i](t) = self(interval[n] + t)[i, :]
         '''
         p = self._basis.compose(self._coefficients[n])
-        h = self.intervals[n + 1] - self.intervals[n]
+        h = float(self.intervals[n + 1] - self.intervals[n])
 
         return [np.poly1d(p_i.coef / h ** np.flip(np.arange(len(p_i.coef)))) for p_i in p]
 
-- 
2.43.0


From 6a266d14ed4610347f3af1bd82f5d65794757b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:33:20 +0000
Subject: [PATCH 21/22] fix: keep the symbols when a structure is called on a
 symbolic structure or a list of symbols

DM(arg) succeeds for these arguments and turns every symbol into NaN, so the
result was a numeric container full of NaN.
---
 casadi_extras/structure3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index fc8fd12..b62331d 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -446,6 +446,11 @@ class CasadiStructureDerivable:
 
   def argtype(self,arg):
     mtype = None
+    # DM(arg) turns symbols in structures and lists into NaN
+    if isinstance(arg,Structured):
+      arg = type(arg.cat)(arg.cat)
+    elif isIterable(arg) and any(isinstance(e,(SX,MX)) for e in arg):
+      arg = vertcat(*arg)
     if isinstance(arg,DM):
       a = arg
       mtype = DM
-- 
2.43.0


From e3eb99dd4a21e70c1d356e37713f5edb2335bf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:29:19 +0000
Subject: [PATCH 22/22] fix: hand out a copy when an MX structure is read, so
 that changing the result leaves the structure alone

---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index b62331d..129f078 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -591,7 +591,7 @@ class GetterDispatcher(Dispatcher):
     if canonicalIndex in self.struct.map:
 
       if canonicalIndex in self.priority_object_map and (extraIndex is None or len(extraIndex)==0):
-        r = self.priority_object_map[canonicalIndex]
+        r = MX(self.priority_object_map[canonicalIndex])
         if type is None:
           return r
         elif type=="symm":
-- 
2.43.0

