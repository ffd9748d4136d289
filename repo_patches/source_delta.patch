From e05a03aaf88a2d7bb5e741d1aa9e78a6eae4b8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:24 +0000
Subject: [PATCH 01/51] fix: use np.isin when dropping restrained DOFs

np.in1d was removed from numpy 2.4, so no loadcase could be solved.
---
 hyperstatic/core/fe_model/assembly.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 8638abe..050d8df 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -277,8 +277,8 @@ class Assembly(object):
         return A
  
     def __drop_matrix_dof(self,M:spr.coo_matrix, indices:list)->spr.coo_matrix:
-        keepr = ~np.in1d(M.row, indices)
-        keepc = ~np.in1d(M.col, indices)
+        keepr = ~np.isin(M.row, indices)
+        keepc = ~np.isin(M.col, indices)
         keep=keepr*keepc
         data, row, col = M.data[keep], M.row[keep], M.col[keep] 
         for i in reversed(sorted(indices)):
@@ -288,7 +288,7 @@ class Assembly(object):
         return A
 
     def __drop_vector_dof(self,V:spr.coo_matrix, indices:list)->np.array:
-        keep = ~np.in1d(np.arange(V.shape[0]), indices)
+        keep = ~np.isin(np.arange(V.shape[0]), indices)
         return V[keep].copy()
 
     def restraintDOF(self,casename:str=None):
-- 
2.43.0


From 0a49c09ababc37715144a150ff502ff9a7d026f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:24 +0000
Subject: [PATCH 02/51] fix: resolve beam deformation in the beam's own end
 order and local axes

The end displacements were picked with a membership mask, which swaps the two
ends whenever the start node was defined after the end node (and needs the
removed np.in1d); the deflection along axis 3 was returned with the opposite
sign to the nodal displacement it interpolates.
---
 hyperstatic/core/fe_post/beam.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index b013d35..08f6746 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -45,23 +45,19 @@ class BeamResultResolver(ResultResolver):
             mask.extend(list(range(i*6,i*6+6)))
         N=self.__assembly.get_beam_interpolate(name,loc)
         N_=self.__assembly.get_beam_interpolate1(name,loc)
-        dd=d[np.in1d(range(len(d)),mask)]
+        dd=d[mask]
         T=self.__assembly.get_beam_transform_matrix(name)
         dd=T.dot(dd)
-        axial=dd[np.in1d(range(12),[0,6])]
-        shear2bend3=dd[np.in1d(range(12),[1,5,7,11])]
-        shear3bend2=dd[np.in1d(range(12),[2,4,8,10])]
-        bend3=dd[np.in1d(range(12),[5,11])]
-        bend2=dd[np.in1d(range(12),[4,10])]
-        torsion=dd[np.in1d(range(12),[3,9])]
+        axial=dd[[0,6]]
+        shear2bend3=dd[[1,5,7,11]]
+        shear3bend2=dd[[2,4,8,10]]
+        torsion=dd[[3,9]]
         x=np.dot(N[:2],axial)
         w2=np.dot(N[2:6],shear2bend3)
-        w3=np.dot(N[6:10],shear3bend2)
+        w3=-np.dot(N[6:10],shear3bend2) #N[6:10] interpolates the deflection opposite to axis 3
         theta=np.dot(N[10:],torsion)
         phi2=np.dot(N_[2:6],shear2bend3)
         phi3=np.dot(N_[6:10],shear3bend2)
-        print(N_[2:6])   
-        print(shear2bend3[2:])     
         return np.array([x,w2,w3,theta,phi2,phi3])
          
 if __name__=="__main__":
-- 
2.43.0


From a8dafe6d30e470d6e83d509b5b6bf0dc7639ac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:24 +0000
Subject: [PATCH 03/51] fix: axial and torsional beam shape functions on the
 [0,1] location

The location is relative ([0,1]) as for the bending functions, but the axial
and torsional functions were written for [-1,1]; get_shape_function negated a
function object and always raised.
---
 .../core/fe_model/element/line/beam.py        | 26 +++++++++----------
 .../core/fe_model/element/line/simple_beam.py | 26 +++++++++----------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 40fff47..1c3fdc9 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -162,38 +162,38 @@ class Beam(Line):
         pass
 
     def get_shape_function(self):
-        Na1=lambda xi: 0.5*(1-xi)
-        Na2=lambda xi: 0.5*(1+xi)
+        Na1=lambda xi: 1-xi
+        Na2=lambda xi: xi
         Nb1=lambda xi: 1-3*xi**2+2*xi**3
         Nb2=lambda xi: (xi-2*xi**2+xi**3)*self.length
         Nb3=lambda xi: 3*xi**2-2*xi**3
         Nb4=lambda xi: (xi**3-xi**2)*self.length
-        Nt1=lambda xi: 0.5*(1-xi)
-        Nt2=lambda xi: 0.5*(1+xi)
-        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2]
+        Nt1=lambda xi: 1-xi
+        Nt2=lambda xi: xi
+        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,lambda xi: -Nb1(xi),Nb2,lambda xi: -Nb3(xi),Nb4,Nt1,Nt2]
 
     def interpolate(self,loc):
         xi=loc
-        Na1=0.5*(1-xi)
-        Na2=0.5*(1+xi)
+        Na1=1-xi
+        Na2=xi
         Nb1=1-3*xi**2+2*xi**3
         Nb2=(xi-2*xi**2+xi**3)*self.length
         Nb3=3*xi**2-2*xi**3
         Nb4=(xi**3-xi**2)*self.length
-        Nt1=0.5*(1-xi)
-        Nt2=0.5*(1+xi)
+        Nt1=1-xi
+        Nt2=xi
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])
 
     def interpolate1(self,loc):
         xi=loc
-        Na1=-0.5
-        Na2=0.5
+        Na1=-1
+        Na2=1
         Nb1=-6*xi+6*xi**2
         Nb2=(1-4*xi+3*xi**2)*self.length
         Nb3=6*xi-6*xi**2
         Nb4=(3*xi**2-2*xi)*self.length
-        Nt1=-0.5*xi
-        Nt2=0.5*xi
+        Nt1=-1
+        Nt2=1
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 24a581d..2333030 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -180,39 +180,39 @@ class SimpleBeam(Line):
         return _Me
 
     def get_shape_function(self):
-        Na1=lambda xi: 0.5*(1-xi)
-        Na2=lambda xi: 0.5*(1+xi)
+        Na1=lambda xi: 1-xi
+        Na2=lambda xi: xi
         Nb1=lambda xi: 1-3*xi**2+2*xi**3
         Nb2=lambda xi: (xi-2*xi**2+xi**3)*self.length
         Nb3=lambda xi: 3*xi**2-2*xi**3
         Nb4=lambda xi: (xi**3-xi**2)*self.length
-        Nt1=lambda xi: 0.5*(1-xi)
-        Nt2=lambda xi: 0.5*(1+xi)
-        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2]
+        Nt1=lambda xi: 1-xi
+        Nt2=lambda xi: xi
+        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,lambda xi: -Nb1(xi),Nb2,lambda xi: -Nb3(xi),Nb4,Nt1,Nt2]
 
     
     def interpolate(self,loc):
         xi=loc
-        Na1=0.5*(1-xi)
-        Na2=0.5*(1+xi)
+        Na1=1-xi
+        Na2=xi
         Nb1=1-3*xi**2+2*xi**3
         Nb2=(xi-2*xi**2+xi**3)*self.length
         Nb3=3*xi**2-2*xi**3
         Nb4=(xi**3-xi**2)*self.length
-        Nt1=0.5*(1-xi)
-        Nt2=0.5*(1+xi)
+        Nt1=1-xi
+        Nt2=xi
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])
 
     def interpolate1(self,loc):
         xi=loc
-        Na1=-0.5
-        Na2=0.5
+        Na1=-1
+        Na2=1
         Nb1=-6*xi+6*xi**2
         Nb2=(1-4*xi+3*xi**2)*self.length
         Nb3=6*xi-6*xi**2
         Nb4=(3*xi**2-2*xi)*self.length
-        Nt1=-0.5*xi
-        Nt2=0.5*xi
+        Nt1=-1
+        Nt2=1
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-- 
2.43.0


From 7a8c069593895c9ddfb2fc073dbe0698cdf27f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:24 +0000
Subject: [PATCH 04/51] fix: Model.set_beam_releases used a non-existent
 attribute

---
 hyperstatic/core/fe_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 99d8dc1..43f29b4 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -193,7 +193,7 @@ class Model:
     def set_beam_releases(self,name:str,
         u1i=False,u2i=False,u3i=False,r1i=False,r2i=False,r3i=False,
         u1j=False,u2j=False,u3j=False,r1j=False,r2j=False,r3j=False):
-        self.beams[name].releases=np.array([u1i,u2i,u3i,r1i,r2i,r3i,u1j,u2j,u3j,r1j,r2j,r3j])
+        self.__beams[name].releases=np.array([u1i,u2i,u3i,r1i,r2i,r3i,u1j,u2j,u3j,r1j,r2j,r3j])
 
     def get_beam_reaction(self,name:str,
         u1i:float,u2i:float,u3i:float,r1i:float,r2i:float,r3i:float,
-- 
2.43.0


From f80ac3f3fa4065698a51a6ee982c155735d4e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:24 +0000
Subject: [PATCH 05/51] fix: condense every released DOF of a beam, not only
 the last one

Each release restarted from the unreleased matrix, so only the last one took
effect; releases are now eliminated one after the other (a release that is
already free through the previous ones has nothing left to eliminate).
---
 hyperstatic/core/fe_model/element/line/beam.py  | 17 +++++++++--------
 .../core/fe_model/element/line/simple_beam.py   | 17 +++++++++--------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 1c3fdc9..5aa1aee 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -197,18 +197,19 @@ class Beam(Line):
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-        k=Ke
-        k_ = Ke.copy()
+        k_ = Ke.tocsr().copy()
+        d=k_.diagonal()
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                k_ = k - k[:,n]* k[n,:] / k[n, n]
+            if self.__releases[n] == True and abs(k_[n,n])>1e-10*abs(d[n]):
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return k_
 
     def static_condensate_f(self,re,Ke):
-        k=Ke
-        r=re
+        k_ = Ke.tocsr().copy()
+        d=k_.diagonal()
         r_ = re.copy()
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                r_ = r - r[n] * k[n, :].toarray() / k[n, n]
+            if self.__releases[n] == True and abs(k_[n,n])>1e-10*abs(d[n]):
+                r_ = r_ - r_[n] * k_[n, :].toarray().reshape(12) / k_[n, n]
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return r_.reshape(12)
\ No newline at end of file
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 2333030..11929a3 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -216,20 +216,21 @@ class SimpleBeam(Line):
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-        k=Ke
-        k_ = Ke.copy()
+        k_ = Ke.tocsr().copy()
+        d=k_.diagonal()
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                k_ = k - k[:,n]* k[n,:] / k[n, n]
+            if self.__releases[n] == True and abs(k_[n,n])>1e-10*abs(d[n]):
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return k_
 
     def static_condensate_f(self,re,Ke):
-        k=Ke
-        r=re
+        k_ = Ke.tocsr().copy()
+        d=k_.diagonal()
         r_ = re.copy()
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                r_ = r - r[n] * k[n, :].toarray() / k[n, n]
+            if self.__releases[n] == True and abs(k_[n,n])>1e-10*abs(d[n]):
+                r_ = r_ - r_[n] * k_[n, :].toarray().reshape(12) / k_[n, n]
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return r_.reshape(12)
 
 #code here should be revised
-- 
2.43.0


From 9545ba86c47f365ea041d55462f23e74f8852885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:07 +0000
Subject: [PATCH 06/51] fix: keep the first pattern's contribution in nodal
 load dictionaries

---
 hyperstatic/core/fe_model/load/__init__.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 0e26354..287fe55 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -93,10 +93,9 @@ class LoadCase(object):
         for patname,pat in self.__pattern.items():
             d=pat.get_nodal_f_dict()
             for node,load in d.items():
-                if node in res.keys():
-                    res[node]+=load*self.__load_factor[patname]
-                else:
+                if node not in res.keys():
                     res[node]=np.zeros(6)
+                res[node]+=load*self.__load_factor[patname]
         return res
 
     def get_nodal_f_time_history_dict(self,name):
@@ -123,10 +122,9 @@ class LoadCase(object):
         for patname,pat in self.__pattern.items():
             d=pat.get_nodal_d_dict()
             for node,load in d.items():
-                if node in res.keys():
-                    res[node]+=load*self.__load_factor[patname]
-                else:
+                if node not in res.keys():
                     res[node]=np.zeros(6)
+                res[node]+=load*self.__load_factor[patname]
         return res
 
 
-- 
2.43.0


From 9e1fc93b3ea08674da2bef87d635db0d1760010f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:07 +0000
Subject: [PATCH 07/51] fix: combine time histories of different lengths

---
 hyperstatic/core/fe_model/load/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 287fe55..34051c6 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -85,7 +85,7 @@ class LoadCase(object):
             if f is None:
                 continue
             crv=curve[1,:]
-            fn+=crv.reshape(crv.size,1).dot(f.reshape(1,6))*factor
+            fn[:crv.size,:]+=crv.reshape(crv.size,1).dot(f.reshape(1,6))*factor
         return fn
 
     def get_nodal_f_dict(self):
-- 
2.43.0


From 913b09272b6eb833be26d71659672ad8524a5cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:07 +0000
Subject: [PATCH 08/51] fix: beam loads of a time history case follow the
 case's curve

Only nodal loads were multiplied by the curve.
---
 hyperstatic/core/fe_model/assembly.py      | 2 +-
 hyperstatic/core/fe_model/load/__init__.py | 4 ++--
 hyperstatic/core/fe_model/load/loadcase.py | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 050d8df..cb95bab 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -244,7 +244,7 @@ class Assembly(object):
             #Transform matrix
             V=self.__model.get_beam_transform_matrix(beam)
             Vt = V.transpose()
-            re=loadcase.get_beam_f(beam,l)
+            re=loadcase.get_beam_f(beam,l,time_step)
             re=self.__model.get_beam_condensated_f(beam,re)
             re_=Vt.dot(re)
             k=0
diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 34051c6..ca10b06 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -128,14 +128,14 @@ class LoadCase(object):
         return res
 
 
-    def get_beam_f(self,name,l):
+    def get_beam_f(self,name,l,time_step=0):
         fe=np.zeros(12)
         for patname,factor in self.__load_factor.items():
             pat=self.__pattern[patname]
             f=pat.get_beam_f(name,l)
             if f is None:
                 continue
-            fe+=f*factor
+            fe+=f*factor*self.__load_curve[patname][1,time_step]
         return fe
 
     def get_beam_f_dict(self,ldict):
diff --git a/hyperstatic/core/fe_model/load/loadcase.py b/hyperstatic/core/fe_model/load/loadcase.py
index 9b73d8f..640a04b 100644
--- a/hyperstatic/core/fe_model/load/loadcase.py
+++ b/hyperstatic/core/fe_model/load/loadcase.py
@@ -40,8 +40,8 @@ class StaticCase(LoadCase):
     def get_nodal_d_dict(self):
         return super().get_nodal_d_dict()
 
-    def get_beam_f(self,name,l):
-        return super().get_beam_f(name,l)
+    def get_beam_f(self,name,l,time_step=0):
+        return super().get_beam_f(name,l,time_step)
 
     def get_beam_f_dict(self,ldict):
         return super().get_beam_f_dict(ldict)
@@ -158,8 +158,8 @@ class TimeHistoryCase(LoadCase):
     def get_nodal_d_dict(self):
         return super().get_nodal_d_dict()
 
-    def get_beam_f(self,name,l):
-        return super().get_beam_f(name,l)
+    def get_beam_f(self,name,l,time_step=0):
+        return super().get_beam_f(name,l,time_step)
 
     def get_beam_f_dict(self,ldict):
         return super().get_beam_f_dict(ldict)
-- 
2.43.0


From a364600acf4b940093119b9131522f89c5abc32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:07 +0000
Subject: [PATCH 09/51] fix: LoadPattern.get_beam_concentrated returned the
 distributed load

---
 hyperstatic/core/fe_model/load/pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/pattern.py b/hyperstatic/core/fe_model/load/pattern.py
index 9569eae..50fbfd8 100644
--- a/hyperstatic/core/fe_model/load/pattern.py
+++ b/hyperstatic/core/fe_model/load/pattern.py
@@ -49,8 +49,8 @@ class LoadPattern(object):
         return None
 
     def get_beam_concentrated(self,name):
-        if name in self.__beam_distributed.keys():
-            return self.__beam_distributed[name]
+        if name in self.__beam_concentrated.keys():
+            return self.__beam_concentrated[name]
         return None
 
     def get_beam_f(self,name,l):
-- 
2.43.0


From d2d52b3a01e4e340ebd57399f54dd0cb032e483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:07 +0000
Subject: [PATCH 10/51] fix: Api.add_beam_section_pipe created a rectangle

---
 hyperstatic/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index cf76be3..dfc36af 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -336,7 +336,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.add_beam_section_rectangle(name,material,d,t)
+            self.__model.add_beam_section_pipe(name,material,d,t)
             return True
         except Exception as e:
             logging.warning(str(e)+" when adding pipe beam section")
-- 
2.43.0


From 8bd7db973b4ae51bc4f94cf7d7019404f583176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:07 +0000
Subject: [PATCH 11/51] fix: Api.add_shell passed its arguments in the wrong
 order

---
 hyperstatic/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index dfc36af..856cbc9 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -475,7 +475,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.add_shell(name,node1,node2,node3,node4,section)
+            self.__model.add_shell(name,section,node1,node2,node3,node4)
             return True
         except Exception as e:
             logging.warning(str(e)+" when adding beam")
-- 
2.43.0


From 04b8561c713d64efb55c317b98750018518033cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:07 +0000
Subject: [PATCH 12/51] fix: Api.set_nodal_restraint reported success for an
 undefined node

---
 hyperstatic/core/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 856cbc9..83e326a 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -557,8 +557,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.set_nodal_restraint(node,u1,u2,u3,r1,r2,r3)
-            return True
+            return self.__model.set_nodal_restraint(node,u1,u2,u3,r1,r2,r3)
         except Exception as e:
             logging.warning(str(e)+" when setting nodal restraints")
             return False
-- 
2.43.0


From 34c80db8c2c875d3065cb229758297e2b6d41aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:07 +0000
Subject: [PATCH 13/51] fix: shell connection and location queries

They failed for triangles, and the location query tried to iterate Node objects.
---
 hyperstatic/core/fe_model/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 43f29b4..2bfcb39 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -307,10 +307,10 @@ class Model:
         return list(self.__shells.keys())
 
     def get_shell_connection(self,name:str):
-        return self.__shells[name].nodes[0].name,self.__shells[name].nodes[1].name,self.__shells[name].nodes[2].name,self.__shells[name].nodes[3].name
+        return tuple(node.name for node in self.__shells[name].nodes)
 
     def get_shell_location(self,name:str):
-        return tuple(self.__shells[name].nodes[0]),tuple(self.__shells[name].nodes[1]),tuple(self.__shells[name].nodes[2]),tuple(self.__shells[name].nodes[3])
+        return tuple(tuple(node.loc) for node in self.__shells[name].nodes)
 
     def get_shell_hid(self,name:str):
         return self.__hid['shell'][name]
-- 
2.43.0


From bd45c332eb776f787fa183c9b1f43d5062f5cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:07 +0000
Subject: [PATCH 14/51] fix: redefining a node, beam or shell keeps its index

A redefinition took the next free index, which a later element then shared
(or which lay outside the system).
---
 hyperstatic/core/fe_model/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 2bfcb39..aac1d40 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -77,7 +77,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__nodes) #hid
+            res=self.__hid['node'].get(name,len(self.__nodes)) #hid
             self.__hid['node'][name]=res
             self.__nodes[name]=node
         else:
@@ -153,7 +153,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__beams)
+            res=self.__hid["beam"].get(name,len(self.__beams))
             self.__hid["beam"][name]=res
             self.__beams[name]=beam
         else:
@@ -172,7 +172,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__beams)
+            res=self.__hid["beam"].get(name,len(self.__beams))
             self.__hid["beam"][name]=res
             self.__beams[name]=beam
         else:
@@ -298,7 +298,7 @@ class Model:
             elm=DKGQ(name,shell_sec,node0, node1, node2, node3)
         else:
             elm=DKT(name,shell_sec,node0, node1, node2)
-        res=len(self.__shells)
+        res=self.__hid["shell"].get(name,len(self.__shells))
         self.__hid["shell"][name]=res
         self.__shells[name]=elm
         return res
-- 
2.43.0


From 7cb16a82a74b44161192642bce42d9f8ad8596ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:07 +0000
Subject: [PATCH 15/51] fix: symmetric axial terms of the consistent beam mass
 matrix

---
 hyperstatic/core/fe_model/element/line/beam.py        | 2 +-
 hyperstatic/core/fe_model/element/line/simple_beam.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 5aa1aee..6a8b794 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -112,7 +112,7 @@ class Beam(Line):
         if consistent:#consistent mass matrix
             _Me=np.zeros((12,12))
             _Me[0, 0]=140
-            _Me[0, 6]=70
+            _Me[0, 6]=_Me[6, 0]=70
     
             _Me[1, 1]=156
             _Me[1, 5]=_Me[5, 1]=22 * l
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 11929a3..29d6f67 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -133,7 +133,7 @@ class SimpleBeam(Line):
         if consistent:#Coordinated mass matrix
             _Me=np.zeros((12,12))
             _Me[0, 0]=140
-            _Me[0, 6]=70
+            _Me[0, 6]=_Me[6, 0]=70
     
             _Me[1, 1]=156
             _Me[1, 5]=_Me[5, 1]=22 * l
-- 
2.43.0


From 30503739cf9771d88e44ddfc05b2be2247bb1f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:07 +0000
Subject: [PATCH 16/51] fix: setting a beam's rotation again accumulated the
 angles

---
 hyperstatic/core/fe_model/element/line/beam.py        | 2 +-
 hyperstatic/core/fe_model/element/line/simple_beam.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 6a8b794..3918857 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -32,8 +32,8 @@ class Beam(Line):
 
     @rotation.setter
     def rotation(self,radian:float):
+        super().local_csys.rotate_about_x(radian-self.__rotation)
         self.__rotation=radian
-        super().local_csys.rotate_about_x(radian)
 
     def integrate_K(self):
         E=self.__section.E
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 29d6f67..be3112e 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -48,8 +48,8 @@ class SimpleBeam(Line):
 
     @rotation.setter
     def rotation(self,radian:float):
+        super().local_csys.rotate_about_x(radian-self.__rotation)
         self.__rotation=radian
-        super().local_csys.rotate_about_x(radian)
 
     def integrate_K(self):
         #Initialize local matrices
-- 
2.43.0


From 675f28ea878a7a46ea7305d51e9b58b9065d2bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:07 +0000
Subject: [PATCH 17/51] fix: Model.set_beam_rotation had no effect

---
 hyperstatic/core/fe_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index aac1d40..94a4220 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -188,7 +188,7 @@ class Model:
             x,y,z coordinate of reference vector.
         """
         beam=self.__beams[name]
-        pass
+        beam.rotation=rotation
     
     def set_beam_releases(self,name:str,
         u1i=False,u2i=False,u3i=False,r1i=False,r2i=False,r3i=False,
-- 
2.43.0


From a52570b5199d01f0c7688db00925583e98ea5171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:07 +0000
Subject: [PATCH 18/51] fix: Api.solve_modal passed the number of modes to a
 solver that took none

---
 hyperstatic/core/fe_solver/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 229d6d8..b0dc2e6 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -33,11 +33,11 @@ class ModalSolver(Solver):
         elif setting["algorithm"]=='ritz':
             pass
 
-    def solve_eigen(self,casename:str)->bool:
+    def solve_eigen(self,casename:str,n_modes:int=None)->bool:
         assembly=super().assembly
         logging.info('solving problem with %d DOFs...'%assembly.DOF)
         setting=assembly.get_loadcase_setting(casename)
-        k=setting['n_modes']
+        k=setting['n_modes'] if n_modes is None else n_modes
         precase=setting['base_case']
         if precase==None:
             base_case="0"
-- 
2.43.0


From dcbd0edb6cdbd14d57d7fd36e9d851c5541f94c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:07 +0000
Subject: [PATCH 19/51] fix: extract all modes of a model with few DOFs

The available modes were counted with the global restraints instead of the
case's, and the iterative solver rejects a request for every mode.
---
 hyperstatic/core/fe_solver/dynamic.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index b0dc2e6..b999eeb 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -58,10 +58,14 @@ class ModalSolver(Solver):
         K_=assembly.assemble_boundary(casename,K)
         M_=assembly.assemble_boundary(casename,M)
 
-        if k>assembly.DOF:
-            logging.info('Warning: the modal number to extract is larger than the system DOFs, only %d modes are available'%assembly.DOF)
-            k=assembly.DOF
-        omega2s,modes = sl.eigsh(K_,k,M_,sigma=0,which='LM')
+        N=K_.shape[0] #DOFs left by the restraints of this case
+        if k>N:
+            logging.info('Warning: the modal number to extract is larger than the system DOFs, only %d modes are available'%N)
+            k=N
+        if k<N:
+            omega2s,modes = sl.eigsh(K_.tocsc(),k,M_.tocsc(),sigma=0,which='LM')
+        else: #the iterative solver can not extract all the modes
+            omega2s,modes = linalg.eigh(K_.toarray(),M_.toarray())
         # omega2s,modes =linalg.eig(K_.todense()[6:,6:],M_.todense()[6:,6:])
         mode_= modes.T # row first
         omega2s=omega2s.reshape(k)
-- 
2.43.0


From 4065787445393425f17d8e083e10250010c8f7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:07 +0000
Subject: [PATCH 20/51] fix: modal frequencies were computed from the squared
 angular frequency

---
 hyperstatic/core/fe_post/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_post/structure.py b/hyperstatic/core/fe_post/structure.py
index 8391bab..9991e57 100644
--- a/hyperstatic/core/fe_post/structure.py
+++ b/hyperstatic/core/fe_post/structure.py
@@ -14,7 +14,7 @@ class StructureResultResolver(ResultResolver):
 
     def resolve_modal_frequency(self,casename:str)->dict:
         path=self.__workpath
-        omega=np.load(os.path.join(path,casename+".o.npy"))
+        omega=np.sqrt(np.load(os.path.join(path,casename+".o.npy"))) #the solver saves omega squared
         T=2*np.pi/omega
         f=1/T
         return {
-- 
2.43.0


From aba88530deeccf7c5842ea5594b55998796949a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:07 +0000
Subject: [PATCH 21/51] fix: nodal reactions

They were read from a stiffness file that no solver writes, ignored the loads
applied to the node, and the Api opened the result without its file name.
---
 hyperstatic/core/__init__.py     | 2 +-
 hyperstatic/core/fe_post/node.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 83e326a..a4d88d3 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -854,7 +854,7 @@ class Api(object):
         """
         try:
             workpath=self.__workpath
-            resolver=NodeResultResolver(workpath)
+            resolver=NodeResultResolver(workpath,self.__filename)
             res=resolver.resolve_nodal_reaction(node,case,step=1)
             return res
         except Exception as e:
diff --git a/hyperstatic/core/fe_post/node.py b/hyperstatic/core/fe_post/node.py
index d2c0eb5..57dea18 100644
--- a/hyperstatic/core/fe_post/node.py
+++ b/hyperstatic/core/fe_post/node.py
@@ -39,7 +39,7 @@ class NodeResultResolver(ResultResolver):
         """
         path=self.__workpath
         d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
-        k=np.load(os.path.join(path,casename+".k.npy"))
-        f=np.dot(k,d)
+        k=self.__assembly.assemble_K().tocsr()
+        f=k.dot(d)-self.__assembly.assemble_f(casename).toarray().reshape(d.size)
         hid=self.__assembly.get_node_hid(name)
         return f[hid*6:hid*6+6]
-- 
2.43.0


From e0fad476d06748b15eb616f3e301f7308165c223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:07 +0000
Subject: [PATCH 22/51] fix: beam end forces

The resolver read an attribute that does not exist, took two displacement
components instead of the twelve of the two ends, and ignored the local axes,
the releases and the loads along the beam.
---
 hyperstatic/core/fe_model/assembly.py |  9 +++++++--
 hyperstatic/core/fe_post/beam.py      | 11 +++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index cb95bab..931be06 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -48,8 +48,13 @@ class Assembly(object):
     def get_beam_transform_matrix(self,elm:str):
         return self.__model.get_beam_transform_matrix(elm)
 
-    def get_beam_K(self,elm:str):
-        return self.__model.get_beam_K(elm)
+    def get_beam_K(self,elm:str,condensate:bool=False):
+        return self.__model.get_beam_K(elm,condensate)
+
+    def get_beam_f(self,elm:str,casename:str,time_step=0):
+        l=self.__model.get_beam_length(elm)
+        re=self.__loadcase[casename].get_beam_f(elm,l,time_step)
+        return self.__model.get_beam_condensated_f(elm,re)
 
     def get_beam_shape_function(self,elm:str):
         return self.__model.get_beam_shape_function(elm)
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 08f6746..24a220e 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -17,12 +17,15 @@ class BeamResultResolver(ResultResolver):
         return super().workpath
 
     def resolve_beam_end_force(self,name,casename:str,step:int=1):
-        path=self.__path
+        path=self.__workpath
         d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
-        K=self.__assembly.get_beam_K(name)
+        K=self.__assembly.get_beam_K(name,condensate=True)
         hids=self.__assembly.get_beam_node_hids(name)
-        dd=[d[i] for i in hids]
-        res = K*dd
+        mask=[]
+        for i in hids:
+            mask.extend(list(range(i*6,i*6+6)))
+        T=self.__assembly.get_beam_transform_matrix(name)
+        res = K.dot(T.dot(d[mask]))-self.__assembly.get_beam_f(name,casename)
         return res
 
     def resolve_beam_deformation(self,name:str,loc:float,casename:str,step:int=1)->np.array:
-- 
2.43.0


From fd14f1a5791f8748ef1a6ddac5d89be63b637eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:07 +0000
Subject: [PATCH 23/51] fix: central difference recurrence of the direct time
 integration

Only models with exactly 6 free DOFs could be solved, each step used the
displacements of one step earlier than required, and the loosely converged
iterative solution drifted.
---
 hyperstatic/core/fe_solver/dynamic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index b999eeb..11a39bc 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -231,8 +231,9 @@ class TimeHistorySolver(Solver):
         for t in range(tmin):
             f=assembly.assemble_f(casename,t)
             f_=assembly.assemble_boundary(casename,f)
-            f_hat=(f_.reshape(1,6)-(K_-c2*M_).dot(u[t,:])-(c0*M_-c1*C_).dot(u[t-1,:])).reshape(6,1)
-            d,info=sl.cg(M_hat,f_hat)
+            #u[t+1] is the current step and u[t] the previous one, as the first row is t=-dt
+            f_hat=f_.reshape(-1)-(K_-c2*M_).dot(u[t+1,:])-(c0*M_-c1*C_).dot(u[t,:])
+            d=sl.spsolve(M_hat.tocsc(),f_hat)
             u=np.vstack([u,d])
             # v.append(c1*(-a[t-1]+a[t+1]))
             # a.append(c0*(a[t-1]-2*a[t]+a[t+1]))
-- 
2.43.0


From 4f3385a939256af26e1c4b2e3fbd312dc6c21c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:07 +0000
Subject: [PATCH 24/51] fix: direct time integration ignored the case's damping
 ratio

The hard-coded ratios give a negative stiffness coefficient, that is growing
vibrations, whatever the case asked for.
---
 hyperstatic/core/fe_solver/dynamic.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 11a39bc..b762932 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -200,8 +200,7 @@ class TimeHistorySolver(Solver):
         ########Simple damping
 
         ########Reileigh Damping
-        xi_i=0.05
-        xi_j=0.02
+        xi_i=xi_j=damping
         T_i=2.0
         T_j=1.0
         omega_i=2*np.pi/T_i
@@ -209,7 +208,6 @@ class TimeHistorySolver(Solver):
         a0=2*omega_i*omega_j/(omega_j**2-omega_i**2)*(xi_i*omega_j-xi_j*omega_i)
         a1=2*omega_i*omega_j/(omega_j**2-omega_i**2)*(-xi_i/omega_j+xi_j/omega_i)
         C=(a0*M+a1*K).tocoo()
-        print(a0,a1)
 
         #########Cauchy Damping
 
-- 
2.43.0


From d201e4b566911ebb661f307f5275dfc198126eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:07 +0000
Subject: [PATCH 25/51] fix: beam section radii of gyration and shape

The radii were redefined with a non-existent attribute and the shape was always
reported as general.
---
 hyperstatic/core/fe_model/section/beam_section.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/hyperstatic/core/fe_model/section/beam_section.py b/hyperstatic/core/fe_model/section/beam_section.py
index ec092dc..b2bf94f 100644
--- a/hyperstatic/core/fe_model/section/beam_section.py
+++ b/hyperstatic/core/fe_model/section/beam_section.py
@@ -14,7 +14,6 @@ class BeamSection(object):
         self.__I33=I33
         self.__W22=W22
         self.__W33=W33
-        self.__shape='general'
         self.__sizes=sizes
 
 
@@ -94,14 +93,6 @@ class BeamSection(object):
     def W33(self):
         return self.__W33
 
-    @property
-    def i22(self):
-        return (self.__I/self.__A)**0.5
-
-    @property
-    def i33(self):
-        return (self.__I/self.__A)**0.5
-
 class BoxSection(BeamSection):
     def __init__(self, name: str, material: IsotropicMaterial, h,b,tw,tf):
         A=h*b-(h-2*tf)*(b-2*tw)
-- 
2.43.0


From 2aebea60837c8c17908ab4a0995f8115f0c7aeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:07 +0000
Subject: [PATCH 26/51] fix: Lame's first parameter missed Poisson's ratio

---
 hyperstatic/core/fe_model/material/isotropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/material/isotropy.py b/hyperstatic/core/fe_model/material/isotropy.py
index 59fe84b..693ef34 100644
--- a/hyperstatic/core/fe_model/material/isotropy.py
+++ b/hyperstatic/core/fe_model/material/isotropy.py
@@ -40,7 +40,7 @@ class IsotropicMaterial(Material):
     def lamda(self):
         E=self.__E
         mu=self.__mu
-        return E/(1+mu)/(1-2*mu)
+        return E*mu/(1+mu)/(1-2*mu)
 
     def C(self,exx,eyy,ezz,gxy,gyz,gzx)->np.array:
         return np.array([[exx, gxy/2, gzx/2], 
-- 
2.43.0


From df9725c537627dab6d990a35e8c348e308c71715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:07 +0000
Subject: [PATCH 27/51] fix: Cartesian.set_by_3pts did not change the axes

---
 hyperstatic/common/csys.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/common/csys.py b/hyperstatic/common/csys.py
index cdecd87..d712a21 100644
--- a/hyperstatic/common/csys.py
+++ b/hyperstatic/common/csys.py
@@ -134,16 +134,17 @@ class Cartesian(object):
             Exception: _description_
         """
         tol=1e-8
-        self.__O=O    
+        self.__O=np.array(O)
         OA = np.array(A)-np.array(O)
         OB = np.array(B)-np.array(O)
         cos = np.dot(OA, OB)/np.linalg.norm(OA)/np.linalg.norm(OB)
         if  np.abs(np.abs(cos)-1.)<tol:
             raise Exception("Three points should not in a line!!")        
-        self.__x = OA/np.linalg.norm(OA)
+        x = OA/np.linalg.norm(OA)
         z = np.cross(OA, OB)
-        self.__z = z/np.linalg.norm(z)
-        self.__y = np.cross(self.z, self.x)
+        z = z/np.linalg.norm(z)
+        y = np.cross(z, x)
+        self.__T=np.array([x,y,z])
     
     @origin.setter
     def origin(self,x:float, y:float, z:float):
-- 
2.43.0


From 5189713bfe1480d89c489323e0e40b8c80a8f5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:07 +0000
Subject: [PATCH 28/51] fix: harmonic curves have exactly n points

Rounding of the end point could add one.
---
 hyperstatic/common/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/common/curve.py b/hyperstatic/common/curve.py
index fe1abb2..623abda 100644
--- a/hyperstatic/common/curve.py
+++ b/hyperstatic/common/curve.py
@@ -25,12 +25,12 @@ class Curve(object):
 
     @staticmethod
     def sin(name:str,A:float,w:float,phi:float,dt:float,n:int):
-        x=np.arange(0,n*dt,dt)
+        x=np.arange(n)*dt
         y=A*np.sin(w*x+phi)
         return Curve(name,x,y)
 
     @staticmethod
     def cos(name:str,A:float,w:float,phi:float,dt:float,n:int):
-        x=np.arange(0,n*dt,dt)
+        x=np.arange(n)*dt
         y=A*np.cos(w*x+phi)
         return Curve(name,x,y)
\ No newline at end of file
-- 
2.43.0


From 67bcf482097f6f895f37b1731d805149972ea949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:07 +0000
Subject: [PATCH 29/51] fix: triangles in any plane and orientation

The area was only right for anticlockwise triangles in the XY plane, and a
clockwise one could not be created at all.
---
 hyperstatic/core/fe_model/element/tria/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/tria/__init__.py b/hyperstatic/core/fe_model/element/tria/__init__.py
index 253d275..fcd3bbf 100644
--- a/hyperstatic/core/fe_model/element/tria/__init__.py
+++ b/hyperstatic/core/fe_model/element/tria/__init__.py
@@ -16,14 +16,12 @@ class Tria(Element):
         n=np.cross(vec1,vec2)
         n=n/np.linalg.norm(n)
         tol=Tolerance.abs_tol()
-        if np.linalg.norm(n-np.array([0,0,1]))<tol:
+        if np.linalg.norm(n-np.array([0,0,1]))<tol or np.linalg.norm(n+np.array([0,0,1]))<tol:
             csys = Cartesian.create_by_normal(o, n, guide=[0,1,0])
         else:
             csys = Cartesian.create_by_normal(o, n)
         super(Tria,self).__init__(name,[node_i,node_j,node_k],2,dof,csys)
-        self.__area=0.5*np.linalg.det(np.array([[1,1,1],
-                                    [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z],
-                                    [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
+        self.__area=0.5*np.linalg.norm(np.cross(node_j.loc-node_i.loc,node_k.loc-node_i.loc))
 
     @property
     def area(self):
-- 
2.43.0


From 8fe34dc17ab43ab6c9bfe89e7fb9bdc46dc7ec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:07 +0000
Subject: [PATCH 30/51] fix: area of quadrilaterals

---
 .../core/fe_model/element/quad/__init__.py     | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/quad/__init__.py b/hyperstatic/core/fe_model/element/quad/__init__.py
index 4b9b781..5dbbd9e 100644
--- a/hyperstatic/core/fe_model/element/quad/__init__.py
+++ b/hyperstatic/core/fe_model/element/quad/__init__.py
@@ -19,19 +19,11 @@ class Quad(Element):
             csys = Cartesian.create_by_normal(o, n)
         super(Quad,self).__init__(name,[node_i,node_j,node_k,node_l],2,dof,csys)
         #area is considered as the average of trangles generated by splitting the quand with diagonals
-        area=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z],
-                            [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
-        area+=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_l.x-node_i.x,node_l.y-node_i.y,node_l.z-node_i.z],
-                            [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
-        area+=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_l.x-node_i.x,node_l.y-node_i.y,node_l.z-node_i.z],
-                            [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z]]))
-        area+=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_l.x-node_i.x,node_l.y-node_i.y,node_l.z-node_i.z],
-                            [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z]]))
-        self.__area=area/4
+        pts=[node_i.loc,node_j.loc,node_k.loc,node_l.loc]
+        area=0
+        for i in range(4):
+            area+=0.5*np.linalg.norm(np.cross(pts[i-1]-pts[i],pts[i-2]-pts[i]))
+        self.__area=area/2 #each of the two diagonals splits the quad once
 
     @property
     def area(self):
-- 
2.43.0


From 963f1b1acf50d2aa4a95841067a2faa4b9f4842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:26 +0000
Subject: [PATCH 31/51] fix: keep the triangle area as a determinant with the
 unit normal

---
 hyperstatic/core/fe_model/element/tria/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/element/tria/__init__.py b/hyperstatic/core/fe_model/element/tria/__init__.py
index fcd3bbf..731b96c 100644
--- a/hyperstatic/core/fe_model/element/tria/__init__.py
+++ b/hyperstatic/core/fe_model/element/tria/__init__.py
@@ -21,7 +21,9 @@ class Tria(Element):
         else:
             csys = Cartesian.create_by_normal(o, n)
         super(Tria,self).__init__(name,[node_i,node_j,node_k],2,dof,csys)
-        self.__area=0.5*np.linalg.norm(np.cross(node_j.loc-node_i.loc,node_k.loc-node_i.loc))
+        self.__area=0.5*np.linalg.det(np.array([n,
+                                    [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z],
+                                    [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
 
     @property
     def area(self):
-- 
2.43.0


From 807034370aac9b40fa96e9c105df7fc0428c800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:26 +0000
Subject: [PATCH 32/51] fix: triangles ignored the element type of their
 section

---
 hyperstatic/core/fe_model/element/tria/DKT.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/tria/DKT.py b/hyperstatic/core/fe_model/element/tria/DKT.py
index af5212d..b89f9ec 100644
--- a/hyperstatic/core/fe_model/element/tria/DKT.py
+++ b/hyperstatic/core/fe_model/element/tria/DKT.py
@@ -41,8 +41,10 @@ class DKT(Tria):
         K=np.zeros((18,18))
         for i in range(3):
             for j in range(3):
-                K[i*6+2:i*6+5,j*6+2:j*6+5]=Kp[i*3:i*3+3,j*3:j*3+3]
-                K[  i*6:i*6+2,  j*6:j*6+2]=Km[i*2:i*2+2,j*2:j*2+2]
+                if self.__section.ele_type=="plate" or self.__section.ele_type=="shell":
+                    K[i*6+2:i*6+5,j*6+2:j*6+5]=Kp[i*3:i*3+3,j*3:j*3+3]
+                if self.__section.ele_type=="membrane" or self.__section.ele_type=="shell":
+                    K[  i*6:i*6+2,  j*6:j*6+2]=Km[i*2:i*2+2,j*2:j*2+2]
                 # K[  i*6:i*6+2,  j*6:j*6+2]=Km[i*3:i*3+2,j*3:j*3+2]
                 # K[      i*6+5,  j*6:j*6+2]=Km[    i*3+2,j*3:j*3+2]
                 # K[  i*6:i*6+2,      j*6+5]=Km[i*3:i*3+2,    j*3+2]
-- 
2.43.0


From 5591499b216156b33940065a5a5647fbda3f9bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:35 +0000
Subject: [PATCH 33/51] fix: results of modal and time history cases were
 looked up at the wrong DOFs

Those solvers save the free DOFs only; put the restrained ones back before
picking a node's or beam's DOFs.
---
 hyperstatic/core/fe_post/__init__.py | 25 ++++++++++++++++++++++++-
 hyperstatic/core/fe_post/beam.py     |  6 ++----
 hyperstatic/core/fe_post/node.py     |  6 ++----
 3 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/hyperstatic/core/fe_post/__init__.py b/hyperstatic/core/fe_post/__init__.py
index 724c1be..eb2d79c 100644
--- a/hyperstatic/core/fe_post/__init__.py
+++ b/hyperstatic/core/fe_post/__init__.py
@@ -18,4 +18,27 @@ class ResultResolver(object):
 
     @property
     def assembly(self):
-        return self.__assembly
\ No newline at end of file
+        return self.__assembly
+
+    def load_displacement(self,casename:str,step:int=1)->np.array:
+        """Load the nodal displacements of a step, including the restrained DOFs.
+
+        Modal and time-history results are saved for the free DOFs only.
+
+        Args:
+            casename (str): name of load case
+            step (int, optional): load step or mode. Defaults to 1.
+
+        Returns:
+            np.array: displacements of all the DOFs
+        """
+        d=np.load(os.path.join(self.__workpath,casename+".d.npy"))[step-1,:] # row-first
+        n=self.__assembly.node_count*6
+        if d.size==n:
+            return d
+        fixed=self.__assembly.restraintDOF(casename) #case restraint first, then model
+        if len(fixed)==0:
+            fixed=self.__assembly.restraintDOF()
+        res=np.zeros(n)
+        res[~np.isin(np.arange(n),fixed)]=d
+        return res
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 24a220e..e0831ff 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -17,8 +17,7 @@ class BeamResultResolver(ResultResolver):
         return super().workpath
 
     def resolve_beam_end_force(self,name,casename:str,step:int=1):
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         K=self.__assembly.get_beam_K(name,condensate=True)
         hids=self.__assembly.get_beam_node_hids(name)
         mask=[]
@@ -40,8 +39,7 @@ class BeamResultResolver(ResultResolver):
         Returns:
             np.array: [x,w2,w3,theta]
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         hids=self.__assembly.get_beam_node_hids(name)
         mask=[]
         for i in hids:
diff --git a/hyperstatic/core/fe_post/node.py b/hyperstatic/core/fe_post/node.py
index 57dea18..d53fd19 100644
--- a/hyperstatic/core/fe_post/node.py
+++ b/hyperstatic/core/fe_post/node.py
@@ -21,8 +21,7 @@ class NodeResultResolver(ResultResolver):
         Returns:
             np.array: 
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         hid=self.__assembly.get_node_hid(name)
         return d[hid*6:hid*6+6]
 
@@ -37,8 +36,7 @@ class NodeResultResolver(ResultResolver):
         Returns:
             np.array: 
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         k=self.__assembly.assemble_K().tocsr()
         f=k.dot(d)-self.__assembly.assemble_f(casename).toarray().reshape(d.size)
         hid=self.__assembly.get_node_hid(name)
-- 
2.43.0


From 54f9911c1c542b49608e463557c6133fd025586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:32 +0000
Subject: [PATCH 34/51] fix: I-section web counted through the flanges in I22

The flanges' full width is already in the first term.
---
 hyperstatic/core/fe_model/section/beam_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/section/beam_section.py b/hyperstatic/core/fe_model/section/beam_section.py
index b2bf94f..441ebcf 100644
--- a/hyperstatic/core/fe_model/section/beam_section.py
+++ b/hyperstatic/core/fe_model/section/beam_section.py
@@ -137,7 +137,7 @@ class ISection(BeamSection):
         s=sum([np.tanh(m*3.141592*tw/2/(h-2*tf))/m**5 for m in range(1,30,2)])#腹板取薄膜比拟前30阶
         beta=1/3-64*(h-2*tf)/(3.141592**5*tw)*s        
         J+=tw*(h-2*tf)**3*beta
-        I22=1/12*tf*b**3*2+1/12*h*tw**3
+        I22=1/12*tf*b**3*2+1/12*(h-2*tf)*tw**3
         I33=(b*h**3-(b-tw)*(h-2*tf)**3)/12
         W22=I22/(b/2)
         W33=I33/(h/2)
-- 
2.43.0


From 29ad0f9deaaec15ce9835bcc4d10b1f66794d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:33 +0000
Subject: [PATCH 35/51] fix: decay of the impulse response in the Duhamel
 integral

---
 hyperstatic/app/seismic/wave2spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/seismic/wave2spec.py b/hyperstatic/app/seismic/wave2spec.py
index 428d6b5..573cea8 100644
--- a/hyperstatic/app/seismic/wave2spec.py
+++ b/hyperstatic/app/seismic/wave2spec.py
@@ -76,7 +76,7 @@ def duhamel(ω,ζ,t,p):
     """ 
     dt=(t[-1]-t[0])/(len(t)-1)
     ω_=ω*np.sqrt(1-ζ**2)
-    q=np.exp(-ζ*ω_*t)*np.sin(ω_*t)
+    q=np.exp(-ζ*ω*t)*np.sin(ω_*t)
     Sd=1/ω_*convolve(p,q)[:len(t)]*dt
     Sv=Sd*ω_
     Sa=Sv*ω_
-- 
2.43.0


From 405dc8cc878bc4c871ac5082aa2ca46f7c7fb07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:33 +0000
Subject: [PATCH 36/51] fix: response spectra take the largest response of
 either sign

---
 hyperstatic/app/seismic/wave2spec.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperstatic/app/seismic/wave2spec.py b/hyperstatic/app/seismic/wave2spec.py
index 573cea8..bcb7c39 100644
--- a/hyperstatic/app/seismic/wave2spec.py
+++ b/hyperstatic/app/seismic/wave2spec.py
@@ -36,7 +36,7 @@ def read_wave(filename,startline=0):
     return list(ag)
 
 def amptitude(wave,a_max):
-    m=max(wave)
+    m=max(abs(i) for i in wave)
     return [i*a_max/m for i in wave]
 
 def wave2spectrum(file,dt,ξ,a_max,startline=1):
@@ -50,7 +50,7 @@ def wave2spectrum(file,dt,ξ,a_max,startline=1):
     """
     ag=read_wave(os.path.join(file),startline)
     ag=np.array(ag)
-    ag=0.01*ag*a_max/np.max(ag)
+    ag=0.01*ag*a_max/np.max(np.abs(ag))
     # ag=amptitude(ag,a_max)
     # ag=[0.01*i for i in ag]
     T=np.arange(dt,6.0+dt,dt)
@@ -62,9 +62,9 @@ def wave2spectrum(file,dt,ξ,a_max,startline=1):
     for _T in T:
         _ω=2*np.pi/_T
         Sa,Sv,Sd=duhamel(_ω,ξ,t,ag)
-        sa.append(max(Sa)/9.8)
-        sv.append(max(Sv))
-        sd.append(max(Sd))
+        sa.append(max(abs(Sa))/9.8)
+        sv.append(max(abs(Sv)))
+        sd.append(max(abs(Sd)))
     return T,sa,sv,sd
 
 def duhamel(ω,ζ,t,p):
-- 
2.43.0


From 7456bd78884517c438c8911ed00e5c0c8250e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:07 +0000
Subject: [PATCH 37/51] fix: members leaning by one to two tolerances were
 refused

Line compared the whole plan distance with the tolerance, Cartesian the half
it is given, so between one and two tolerances neither axis was accepted.
---
 hyperstatic/core/fe_model/element/line/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/element/line/__init__.py b/hyperstatic/core/fe_model/element/line/__init__.py
index c8f5ccd..c517538 100644
--- a/hyperstatic/core/fe_model/element/line/__init__.py
+++ b/hyperstatic/core/fe_model/element/line/__init__.py
@@ -14,7 +14,7 @@ class Line(Element):
         o = (start.loc+end.loc)/2
         pt1 = end.loc
         pt2 = o + np.array([0,0,1])
-        if np.max(np.abs((start.loc-end.loc)[:2])) < tol:
+        if np.max(np.abs((pt1-o)[:2])) < tol:
             pt2 = o + np.array([1,0,0])
         csys=Cartesian(o, pt1, pt2)
         super().__init__(name,[start,end],1,dof,csys)
-- 
2.43.0


From bbc512c45fab03646305690ed1add5d378ea8751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:30 +0000
Subject: [PATCH 38/51] fix: Cartesian.set_by_3pts accepted coincident points
 and kept half of a refused setting

Two coincident points gave axes of NaN, and collinear points moved the origin
before they were refused.
---
 hyperstatic/common/csys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/common/csys.py b/hyperstatic/common/csys.py
index d712a21..55e64b5 100644
--- a/hyperstatic/common/csys.py
+++ b/hyperstatic/common/csys.py
@@ -134,16 +134,16 @@ class Cartesian(object):
             Exception: _description_
         """
         tol=1e-8
-        self.__O=np.array(O)
         OA = np.array(A)-np.array(O)
         OB = np.array(B)-np.array(O)
-        cos = np.dot(OA, OB)/np.linalg.norm(OA)/np.linalg.norm(OB)
-        if  np.abs(np.abs(cos)-1.)<tol:
+        l = np.linalg.norm(OA)*np.linalg.norm(OB)
+        if l==0 or np.abs(np.abs(np.dot(OA, OB)/l)-1.)<tol:
             raise Exception("Three points should not in a line!!")        
         x = OA/np.linalg.norm(OA)
         z = np.cross(OA, OB)
         z = z/np.linalg.norm(z)
         y = np.cross(z, x)
+        self.__O=np.array(O)
         self.__T=np.array([x,y,z])
     
     @origin.setter
-- 
2.43.0


From b2b2e4bf6947892cb784f5dfde7a8223575545a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:49 +0000
Subject: [PATCH 39/51] fix: asking a case for a load after the end of one of
 its curves raised IndexError

---
 hyperstatic/core/fe_model/load/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index ca10b06..ce39b36 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -67,7 +67,10 @@ class LoadCase(object):
             f=pat.get_nodal_f(name)
             if f is None:
                 continue
-            fn+=f*factor*self.__load_curve[patname][1,time_step]
+            curve=self.__load_curve[patname]
+            if time_step>=curve.shape[1]: #the curve has ended
+                continue
+            fn+=f*factor*curve[1,time_step]
         return fn
 
     def get_nodal_f_time_history(self,name):
@@ -135,7 +138,10 @@ class LoadCase(object):
             f=pat.get_beam_f(name,l)
             if f is None:
                 continue
-            fe+=f*factor*self.__load_curve[patname][1,time_step]
+            curve=self.__load_curve[patname]
+            if time_step>=curve.shape[1]: #the curve has ended
+                continue
+            fe+=f*factor*curve[1,time_step]
         return fe
 
     def get_beam_f_dict(self,ldict):
-- 
2.43.0


From 3620a2c875e6b99db99315db2519093e499809d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 40/51] fix: end forces and reactions of a time history used
 the load of the first step at every step

---
 hyperstatic/core/fe_post/beam.py | 2 +-
 hyperstatic/core/fe_post/node.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index e0831ff..4b2245c 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -24,7 +24,7 @@ class BeamResultResolver(ResultResolver):
         for i in hids:
             mask.extend(list(range(i*6,i*6+6)))
         T=self.__assembly.get_beam_transform_matrix(name)
-        res = K.dot(T.dot(d[mask]))-self.__assembly.get_beam_f(name,casename)
+        res = K.dot(T.dot(d[mask]))-self.__assembly.get_beam_f(name,casename,step-1)
         return res
 
     def resolve_beam_deformation(self,name:str,loc:float,casename:str,step:int=1)->np.array:
diff --git a/hyperstatic/core/fe_post/node.py b/hyperstatic/core/fe_post/node.py
index d53fd19..4929702 100644
--- a/hyperstatic/core/fe_post/node.py
+++ b/hyperstatic/core/fe_post/node.py
@@ -38,6 +38,6 @@ class NodeResultResolver(ResultResolver):
         """
         d=self.load_displacement(casename,step)
         k=self.__assembly.assemble_K().tocsr()
-        f=k.dot(d)-self.__assembly.assemble_f(casename).toarray().reshape(d.size)
+        f=k.dot(d)-self.__assembly.assemble_f(casename,step-1).toarray().reshape(d.size)
         hid=self.__assembly.get_node_hid(name)
         return f[hid*6:hid*6+6]
-- 
2.43.0


From 10573f61baadb703766c8f6854808b2c6c4f0661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 41/51] =?UTF-8?q?fix:=20a=20fa=C3=A7ade=20loaded=20from=20?=
 =?UTF-8?q?a=20moved=20or=20copied=20folder=20kept=20working=20in=20the=20?=
 =?UTF-8?q?folder=20it=20was=20saved=20in?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 hyperstatic/core/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index a4d88d3..abfb5e6 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -68,6 +68,7 @@ class Api(object):
         try:
             with open(os.path.join(workpath,filename+'.sep'),'rb') as f:
                 api=pickle.load(f)
+            api.__workpath=workpath #the folder may have been moved or copied since
             return api
         except Exception as e:
             logging.info("Error loading api file "+ os.path.join(workpath,filename) +'. Exception: '+str(e))
-- 
2.43.0


From 6567223086c60b736da1cc23a02ddad5f7cd76b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 42/51] fix: the assembly returned a node's index for its
 transformation

---
 hyperstatic/core/fe_model/assembly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 931be06..d735a15 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -37,7 +37,7 @@ class Assembly(object):
         return self.__model.get_node_hid(node)
 
     def get_node_transform_matrix(self,node:str):
-        return self.__model.get_node_hid(node)
+        return self.__model.get_node_transform_matrix(node)
 
     def get_beam_hid(self,elm:str):
         return self.__model.get_beam_hid(elm)
-- 
2.43.0


From c7003d4c0722f18f7b783cde05f9181bb2a742bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 43/51] fix: the stresses of an isotropic material could not be
 computed

---
 hyperstatic/core/fe_model/material/isotropy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/material/isotropy.py b/hyperstatic/core/fe_model/material/isotropy.py
index 693ef34..2d316b6 100644
--- a/hyperstatic/core/fe_model/material/isotropy.py
+++ b/hyperstatic/core/fe_model/material/isotropy.py
@@ -47,10 +47,9 @@ class IsotropicMaterial(Material):
         [gxy/2, eyy, gyz/2], 
         [gzx/2, gyz/2, ezz]])
 
-    @property
     def D(self,exx,eyy,ezz,gxy,gyz,gzx)->np.array:
         E=self.__E
-        nu=self.__m
+        nu=self.__mu
         return np.array([[E*eyy*nu/((1 - 2*nu)*(nu + 1)) + E*ezz*nu/((1 - 2*nu)*(nu + 1)) + exx*(E*nu/((1 - 2*nu)*(nu + 1)) + E/(nu + 1)), E*gxy/(2*(nu + 1)), E*gzx/(2*(nu + 1))], [E*gxy/(2*(nu + 1)), E*exx*nu/((1 - 2*nu)*(nu + 1)) + E*ezz*nu/((1 - 2*nu)*(nu + 1)) + eyy*(E*nu/((1 - 2*nu)*(nu + 1)) + E/(nu + 1)), E*gyz/(2*(nu + 1))], [E*gzx/(2*(nu + 1)), E*gyz/(2*(nu + 1)), E*exx*nu/((1 - 2*nu)*(nu + 1)) + E*eyy*nu/((1 - 2*nu)*(nu + 1)) + ezz*(E*nu/((1 - 2*nu)*(nu + 1)) + E/(nu + 1))]])
 
 
-- 
2.43.0


From 3c47b271db42f2eb8e20bd4a15e3493ff79eb6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:17 +0000
Subject: [PATCH 44/51] fix: coordinate systems handed out their own arrays

Changing the location or the axes that were read (p=csys.origin; p+=1,
or the location of a node) moved the coordinate system, and the node.
---
 hyperstatic/common/csys.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperstatic/common/csys.py b/hyperstatic/common/csys.py
index 55e64b5..7daee43 100644
--- a/hyperstatic/common/csys.py
+++ b/hyperstatic/common/csys.py
@@ -63,23 +63,23 @@ class Cartesian(object):
         
     @property
     def origin(self):
-        return self.__O
+        return self.__O.copy()
         
     @property
     def x(self):
-        return self.__T[0,:]
+        return self.__T[0,:].copy()
     
     @property
     def y(self):
-        return self.__T[1,:]
+        return self.__T[1,:].copy()
     
     @property
     def z(self):
-        return self.__T[2,:]
+        return self.__T[2,:].copy()
         
     @property
     def transform_matrix(self):
-        return self.__T
+        return self.__T.copy()
 
     def rotate_about_external_x(self,theta:float):
         r=R.from_quat([1*np.sin(theta/2),0,0,np.cos(theta/2)])
-- 
2.43.0


From 279b79c1a51ab40ecc71b9b387061411519554c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:17 +0000
Subject: [PATCH 45/51] fix: the origin of a coordinate system could not be set

A property setter takes a single value; this one asked for three.
---
 hyperstatic/common/csys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/common/csys.py b/hyperstatic/common/csys.py
index 7daee43..53f195a 100644
--- a/hyperstatic/common/csys.py
+++ b/hyperstatic/common/csys.py
@@ -147,8 +147,8 @@ class Cartesian(object):
         self.__T=np.array([x,y,z])
     
     @origin.setter
-    def origin(self,x:float, y:float, z:float):
-        self.__O = (x,y,z)
+    def origin(self,O:tuple):
+        self.__O = np.array(O)
     
     def align_with_global(self):
         """对齐绝对坐标系
-- 
2.43.0


From ac66f9660ac0b18f19a0b1a618547125a4a3e527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:31 +0000
Subject: [PATCH 46/51] fix: load patterns handed out their own arrays

Changing the loads that were read from a pattern (or from the facade)
changed the pattern.
---
 hyperstatic/core/fe_model/load/pattern.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/pattern.py b/hyperstatic/core/fe_model/load/pattern.py
index 50fbfd8..93ea060 100644
--- a/hyperstatic/core/fe_model/load/pattern.py
+++ b/hyperstatic/core/fe_model/load/pattern.py
@@ -27,30 +27,30 @@ class LoadPattern(object):
 
     def get_nodal_f(self,name):
         if name in self.__nodal_load.keys():
-            return self.__nodal_load[name]
+            return self.__nodal_load[name].copy()
         else:
             return None
 
     def get_nodal_f_dict(self):
-        return self.__nodal_load.copy()
+        return {k:v.copy() for k,v in self.__nodal_load.items()}
 
     def get_nodal_d(self,name):
         if name in self.__nodal_disp.keys():
-            return self.__nodal_disp[name]
+            return self.__nodal_disp[name].copy()
         else:
             return None
 
     def get_nodal_d_dict(self):
-        return self.__nodal_disp.copy()
+        return {k:v.copy() for k,v in self.__nodal_disp.items()}
 
     def get_beam_distributed(self,name):
         if name in self.__beam_distributed.keys():
-            return self.__beam_distributed[name]
+            return self.__beam_distributed[name].copy()
         return None
 
     def get_beam_concentrated(self,name):
         if name in self.__beam_concentrated.keys():
-            return self.__beam_concentrated[name]
+            return self.__beam_concentrated[name].copy()
         return None
 
     def get_beam_f(self,name,l):
-- 
2.43.0


From b5a98bc94de153f4d4e79586de08a6de9a158aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:31 +0000
Subject: [PATCH 47/51] fix: load curves were kept by reference

Two patterns added with the same array, refilled in between, both
followed the last curve.
---
 hyperstatic/core/fe_model/load/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index ce39b36..c4a2f43 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -22,12 +22,12 @@ class LoadCase(object):
         if curve is None:
             self.__load_curve[pattern.name]=np.array([[0,1],[1,1]])
         else:
-            self.__load_curve[pattern.name]=curve
+            self.__load_curve[pattern.name]=np.array(curve)
 
     def add_pattern_time_history(self,pattern:LoadPattern,factor:float,curve:np.array):
         self.__pattern[pattern.name]=pattern
         self.__load_factor[pattern.name]=factor
-        self.__load_curve[pattern.name]=curve
+        self.__load_curve[pattern.name]=np.array(curve)
 
     def set_pattern_factor(self,name,factor):
         self.__load_factor[name]=factor
-- 
2.43.0


From 74a7977013dc6d499195f8165aae6c49e3d6d454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:31 +0000
Subject: [PATCH 48/51] fix: the model handed out the array of a nodal mass

Changing the mass that was read changed the mass of the node.
---
 hyperstatic/core/fe_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 94a4220..6bc8f03 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -208,7 +208,7 @@ class Model:
         return self.__nodes[name].loc
 
     def get_nodal_mass(self,name:str):
-        return self.__nodes[name].mass
+        return self.__nodes[name].mass.copy()
 
     def get_beam_names(self):
         return list(self.__beams.keys())
-- 
2.43.0


From 2c496a76e8801fa41581a790c1cafc7fa3ddfd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:29 +0000
Subject: [PATCH 49/51] fix: curves handed out their own arrays

Changing the abscissas or ordinates that were read changed the curve.
---
 hyperstatic/common/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/common/curve.py b/hyperstatic/common/curve.py
index 623abda..8d5bd68 100644
--- a/hyperstatic/common/curve.py
+++ b/hyperstatic/common/curve.py
@@ -14,11 +14,11 @@ class Curve(object):
 
     @property
     def x(self):
-        return self.__x
+        return self.__x.copy()
 
     @property
     def y(self):
-        return self.__y
+        return self.__y.copy()
 
     def to_array(self):
         return np.vstack([self.__x,self.__y])
-- 
2.43.0


From 9815f3655e4f81a153f5b58a8d321fd5aeece2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:04 +0000
Subject: [PATCH 50/51] fix: the mass of a released member end was dropped

---
 hyperstatic/core/fe_model/assembly.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index d735a15..b22d82c 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -209,9 +209,8 @@ class Assembly(object):
             i,j=self.__model.get_beam_node_hids(elm)
             T=self.__model.get_beam_transform_matrix(elm)
             Tt = T.transpose()
-            #Static condensation to consider releases
+            #the mass lumped at the ends stays with the nodes, released or not
             Me=self.__model.get_beam_M(elm)
-            Me=self.__model.get_beam_condensated_matrix(elm,Me)
 
             Me_ = (Tt*Me*T).tocoo()
 
-- 
2.43.0


From 81b073fcdaa83cf3d08e71721969e9c40af5dc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:44 +0000
Subject: [PATCH 51/51] fix: report the displacements of all the nodes that
 were assembled

---
 hyperstatic/core/__init__.py          | 2 +-
 hyperstatic/core/fe_model/assembly.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index abfb5e6..189018c 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -893,7 +893,7 @@ class Api(object):
         try:
             workpath=self.__workpath
             resolver=NodeResultResolver(workpath,self.__filename)
-            res=dict([(node,resolver.resolve_nodal_displacement(node,case,step=1)) for node in self.get_node_names()])
+            res=dict([(node,resolver.resolve_nodal_displacement(node,case,step=1)) for node in resolver.assembly.get_node_names()])
             return res
         except Exception as e:
             logging.warning(str(e)+" when getting nodal displacement of "+str(case))
diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index b22d82c..9e0e9a5 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -33,6 +33,9 @@ class Assembly(object):
     def node_count(self):
         return self.__model.node_count
 
+    def get_node_names(self):
+        return self.__model.get_node_names()
+
     def get_node_hid(self,node:str):
         return self.__model.get_node_hid(node)
 
-- 
2.43.0

