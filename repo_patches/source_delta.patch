From 72cf6a33e32a4cd247bbd8612afe5cfa4e0717f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 01/79] fix: QuadFE.shape on the 1D reference cell returns
 derivatives for more than one point

---
 src/fem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index de5f18a..34a6312 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -605,7 +605,7 @@ class QuadFE(Element):
                                 p[:,i] = dN_ds*ds_dxy + dN_dt*dt_dxy
                 else:
                     for i in range(n_dofs_loc):
-                        p[:,i] = self.dphi(local_dofs[i], x_ref, var=i_var)
+                        p[:,i] = self.dphi(local_dofs[i], x_ref, var=i_var).ravel()
 
             elif der[0]==2:
                 #
@@ -669,7 +669,7 @@ class QuadFE(Element):
                     # No mapping
                     #
                     for i in range(n_dofs_loc):
-                        p[:,i] = self.d2phi(local_dofs[i], x_ref, der[1:])
+                        p[:,i] = self.d2phi(local_dofs[i], x_ref, der[1:]).ravel()
             phi.append(p)
 
         if is_singleton:
-- 
2.43.0


From 9007d6f6ddfcc29fa48c69177191b9334ebd7850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 02/79] fix: convert_to_array turns a vector with one entry
 into a (1,1) array

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 9a4a45a..898c652 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -116,7 +116,7 @@ def convert_to_array(x, dim=None, return_is_singleton=False):
                 if dim is not None:
                     assert dim==1, 'Incompatible dimensions'
                 x = x[:,np.newaxis]
-            if len(x) == 2:
+            elif len(x) == 2:
                 #
                 # x is a vector 2 entries: ambiguous
                 #
-- 
2.43.0


From e39eef2e643e797040d4cf1a9f420c78a381247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 03/79] fix: convert_to_array accepts a list of numbers, as
 documented

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 898c652..5f2037e 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -59,7 +59,7 @@ def convert_to_array(x, dim=None, return_is_singleton=False):
             # All points are tuples
             #
             x = np.array(x)
-        elif all(type(xi) is numbers.Real for xi in x):
+        elif all(isinstance(xi, numbers.Real) for xi in x):
             #
             # List of real numbers -> turn into (n,1) array
             #
-- 
2.43.0


From 18d52200a4b045ed5a3286beec3bf85eaf7f4aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 04/79] fix: HalfEdge.contains_points takes only horizontal
 edges for horizontal

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 5f2037e..923c60c 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2389,7 +2389,7 @@ class HalfEdge(Tree):
             # Discard points whose x-values don't lie on Edge
             in_half_edge[np.abs(p[:,0]-x0[0,0])>tol] = False
 
-        elif dim==1 or np.abs(v[1]<1e-14):
+        elif dim==1 or np.abs(v[1])<1e-14:
             #
             # Horizontal line
             #
-- 
2.43.0


From d948c5f5c9d93f7104872cf6d058c9f57a2a0aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 05/79] fix: HalfEdge.subcell_position divides by zero for
 vertical edges

---
 src/mesh.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 923c60c..5a600c5 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2516,17 +2516,13 @@ class HalfEdge(Tree):
             'Input "subedge" not contained within HalfEdge.'
         
         #
-        # It suffices to work with x-coordinates
+        # It suffices to work with the coordinate in which the edge is longest
         #  
-        # Get x-coordinates of reference HalfEdge 
-        x0_ref, dummy = self.base().coordinates()
-        x1_ref, dummy = self.head().coordinates()
-        
-        # Get x-coordinates of sub-edge base  
-        x0_sub, dummy = v0.coordinates()
+        v = self.to_vector()
+        i = 0 if np.abs(v[0]) >= np.abs(v[1]) else 1
         
         # Compute position
-        pos = (x0_sub-x0_ref)/(x1_ref-x0_ref)
+        pos = (v0.coordinates()[i]-self.base().coordinates()[i])/v[i]
         
         # Get relative length
         width = subedge.length()/self.length() 
-- 
2.43.0


From eb325fa5a2202a1bc26ada5a1f4585ac562d10fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 06/79] fix: HalfEdge.reference_map returns the derivative of
 the physical-to-reference map

---
 src/mesh.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 5a600c5..b9e2ee1 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2635,8 +2635,9 @@ class HalfEdge(Tree):
             if jac_p2r:
                 #
                 # Jacobian of mapping from physical to reference region
-                # TODO: Shouldn't this also be a list?
-                mg['jac_p2r'] = np.array([[1/(x1-x0), 1/(y1-y0)]])
+                #
+                l2 = (x1-x0)**2 + (y1-y0)**2
+                mg['jac_p2r'] = [np.array([[(x1-x0)/l2, (y1-y0)/l2]])]*n
             if hess_r2p:
                 #
                 # Hessian of mapping from reference to physical region
-- 
2.43.0


From c3ca12cceb3e52c51b51cf003c8b713cdc8d573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 07/79] fix: QuadCell.subcell_position of a cell within itself

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index b9e2ee1..900406f 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3785,7 +3785,7 @@ class QuadCell(Cell, Tree):
                 rel_position += 2**(-(level+1))*sign[i]
         
         # Compute the width of the reference cell
-        width = 2**(-(level+1))
+        width = 2**(-len(rel_address))
         
         # Return result
         return rel_position, width
-- 
2.43.0


From 0a63f926d0614a3bb65d6ddf3f0942e408aadc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 08/79] fix: QuadCell.reference_map computes the inverse
 Hessian without the Jacobian being asked for

---
 src/mesh.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 900406f..fae6dcc 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -4011,7 +4011,7 @@ class QuadCell(Cell, Tree):
             # Initialize map gradients (mg) dictionary
             mg = {}
 
-            if jac_r2p or jac_p2r:
+            if jac_r2p or jac_p2r or hess_p2r:
                 #
                 # Compute Jacobian of the forward mapping
                 #
@@ -4026,7 +4026,7 @@ class QuadCell(Cell, Tree):
                 #
                 mg['jac_r2p'] = [np.array([[xs[i], xt[i]], [ys[i], yt[i]]])\
                                  for i in range(n)]
-            if jac_p2r:
+            if jac_p2r or hess_p2r:
                 #
                 # Jacobian of mapping from physical to reference region
                 #
@@ -4037,8 +4037,9 @@ class QuadCell(Cell, Tree):
                 sy = -xt/Det
                 tx = -ys/Det
                 ty =  xs/Det
-                mg['jac_p2r'] = [np.array([[sx[i], sy[i]],[tx[i], ty[i]]])\
-                                 for i in range(n)]
+                if jac_p2r:
+                    mg['jac_p2r'] = [np.array([[sx[i], sy[i]],[tx[i], ty[i]]])\
+                                     for i in range(n)]
             if hess_r2p:
                 #
                 # Hessian of mapping from reference to physical region
-- 
2.43.0


From ff339187e793dea4fd28939e850f831dbae15f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 09/79] fix: rectangles whose vertex list starts at another
 corner get correct inverse maps and derivatives

---
 src/mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index fae6dcc..1cbbc83 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3643,7 +3643,8 @@ class QuadCell(Cell, Tree):
             for i in range(4):
                 he = half_edges[i].to_vector()
                 he_nxt = half_edges[(i+1)%4].to_vector()
-                on_axis = min(abs(he)) <1e-12
+                # Reference axes should be aligned with physical axes
+                on_axis = abs(he[(i+1)%2]) <1e-12
                 perpendicular = abs(np.dot(he, he_nxt)) < 1e-12
                 if  not (perpendicular and on_axis):
                     is_rectangle = False
-- 
2.43.0


From 52483d330ab09c2aa8a610deeb5ac3c7d2c33426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 10/79] fix: GaussRule.scale_rule uses numpy's ndim (np.dim
 does not exist), quadrilateral rules can be scaled

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 5d912a7..1c03094 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -395,7 +395,7 @@ class GaussRule():
                 assert position.shape == (1,2), \
                     'Position must have dimensions (1,2).'
                     
-                assert np.dim(scale)==0, \
+                assert np.ndim(scale)==0, \
                     'Input "scalar" should have dimension 0.'
                 
                 # Scale the weights 
-- 
2.43.0


From e952da529e8744620851c65287007d562737b32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 11/79] fix: anisotropic 2D distance uses signed displacements
 (M may couple the coordinates)

---
 src/gmrf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 0461cde..2c04f2a 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -223,14 +223,18 @@ def distance(x, y, M=None, periodic=False, box=None):
         #
         # 2D
         #   
-        dx = np.abs(x[:,0]-y[:,0])
-        dy = np.abs(x[:,1]-y[:,1])
+        # Signed displacements (M may couple the two coordinates) 
+        dx = x[:,0]-y[:,0]
+        dy = x[:,1]-y[:,1]
         if periodic:
             assert box is not None, \
             'If periodic, bounding box must be specified.'
             x_min, x_max, y_min, y_max = box
-            dx = np.min(np.array([dx,(x_max-x_min)-dx]),axis=0)
-            dy = np.min(np.array([dy,(y_max-y_min)-dy]),axis=0)
+            wx, wy = x_max-x_min, y_max-y_min
+            
+            # Displacements to nearest periodic image
+            dx = np.where(2*np.abs(dx)>wx, dx-np.sign(dx)*wx, dx)
+            dy = np.where(2*np.abs(dy)>wy, dy-np.sign(dy)*wy, dy)
         
         if M is None:
             return np.sqrt(dx**2 + dy**2)
-- 
2.43.0


From b45c08c129f4c669a48e0a51b9a2b3f21cd19b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 12/79] fix: linear covariance in 1D with scale M includes the
 documented constant term

---
 src/gmrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 2c04f2a..bc15d82 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -295,7 +295,7 @@ def linear(x,y,sgm=1, M=None):
             return sgm**2 + x*y
         else:
             assert isinstance(M,Real), 'Input "M" should be a scalar.'
-            return x*M*y
+            return sgm**2 + x*M*y
         
     elif dim==2:
         #
-- 
2.43.0


From 5bc3ec6581d220ac5bc84ac40ae36ce88ed77d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 13/79] fix: Matern covariance at zero distance equals sgm^2

---
 src/gmrf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index bc15d82..0f5f027 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -358,9 +358,9 @@ def matern(x, y, sgm, nu, l, M=None, periodic=False, box=None):
     K = sgm**2*2**(1-nu)/gamma(nu)*(np.sqrt(2*nu)*d/l)**nu*\
         kv(nu,np.sqrt(2*nu)*d/l)
     #
-    # Modified Bessel function undefined at d=0, covariance should be 1
+    # Modified Bessel function undefined at d=0, covariance should be sgm^2
     #
-    K[np.isnan(K)] = 1
+    K[np.isnan(K)] = sgm**2
     return K
     
     
-- 
2.43.0


From a7d72590d4d1be5dcb71af6fd7aec76980da74e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 14/79] fix: Nodal.differentiate keeps the jumps of the
 derivative between cells and works on sub-meshes

---
 src/function.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/function.py b/src/function.py
index cc847c9..005e3c4 100644
--- a/src/function.py
+++ b/src/function.py
@@ -2353,22 +2353,29 @@ class Nodal(Map):
         # Define new dofhandler
         # 
         dofhandler = DofHandler(mesh, element)
-        dofhandler.distribute_dofs()
-        basis = Basis(dofhandler)
+        dofhandler.distribute_dofs(subforest_flag=sf)
+        basis_d = Basis(dofhandler, subforest_flag=sf)
         
         #
-        # Determine dof vertices
-        #
-        dofs = dofhandler.get_region_dofs(subforest_flag=sf)
-        x = dofhandler.get_dof_vertices(dofs)       
-        #
-        # Evaluate function at dof vertices
+        # Evaluate the derivative at the nodes of each cell (it may jump 
+        # across cells, nodes on cell boundaries have one value per cell).
         #
-        fv = self.eval(x, derivative=derivative)
+        derivative = parse_derivative_info(derivative)
+        fv = np.zeros((basis_d.n_dofs(), self.n_samples()))
+        for cell in mesh.cells.get_leaves(subforest_flag=sf):
+            x_ref = element.reference_nodes()
+            dummy, mg = cell.reference_map(x_ref, jac_p2r=True, hess_p2r=True)
+            phi = basis.dofhandler().element.shape(x_ref, cell=cell, 
+                                                   derivatives=derivative,
+                                                   jac_p2r=mg['jac_p2r'], 
+                                                   hess_p2r=mg['hess_p2r'])
+            dofs = basis.dofhandler().get_cell_dofs(cell)
+            i_cell = basis_d.d2i(dofhandler.get_cell_dofs(cell))
+            fv[i_cell,:] = self.eval(phi=phi, dofs=[dofs])
         #
         # Define new function
         #
-        return Nodal(data=fv, basis=basis, subforest_flag=sf) 
+        return Nodal(data=fv, basis=basis_d, subforest_flag=sf) 
     
     
 class Constant(Map):
-- 
2.43.0


From 2e971899d16dc65aa52e22ad9f7f48401a131ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 15/79] fix: Explicit.set_rules at a given position

---
 src/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function.py b/src/function.py
index 005e3c4..03b267a 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1446,7 +1446,7 @@ class Explicit(Map):
             assert callable(f), 'Input "f" should be callable.'
             assert type(parameters) is dict, \
             'Input "parameters" should be a dict.'
-            assert self.n_sample()>pos, \
+            assert self.n_samples()>pos, \
             'Input "pos" incompatible with sample size.'
             self.__f[pos] = f
             self.__parameters[pos] = parameters
-- 
2.43.0


From f6bafc6501713b8a67012e1118cfa9f6761d54ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 16/79] fix: Nodal.add_samples of bivariate functions appends
 along the sample axis

---
 src/function.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/function.py b/src/function.py
index 03b267a..ef6e2c5 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1768,11 +1768,11 @@ class Nodal(Map):
             assert n_dofs==self.basis().dofhandler().n_dofs(subforest_flag=sf),\
                 'Data size is not consistent'
             
-            # Convert 1D data array to to 2D
-            if len(data.shape)==1:
-                data = data[:,None]
+            # Samples are stored along the last axis
+            if len(data.shape)==self.n_variables():
+                data = data[...,None]
             
-            new_data = np.append(self.data(),data,axis=1)
+            new_data = np.append(self.data(),data,axis=-1)
             self.set_data(new_data)
             
     
-- 
2.43.0


From c8043152c9a11f9cdfd133b18a4b05679ee1f605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 17/79] fix: get_region_dofs returns the dofs in increasing
 order (Basis relies on it)

---
 src/fem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem.py b/src/fem.py
index 34a6312..85c6edf 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2181,7 +2181,7 @@ class DofHandler(object):
             new_dofs = self.get_cell_dofs(cell, entity, interior=interior)
                                           
             dofs = dofs.union(new_dofs)
-        return list(dofs)
+        return sorted(dofs)
 
 
     def set_dof_vertices(self, subforest_flag=None):
-- 
2.43.0


From b75332b38b170ee191d8bdadbe0811af2a0d3791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 18/79] fix: nodal data of bivariate functions are stored with
 the first variable along the first axis

---
 src/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function.py b/src/function.py
index ef6e2c5..d39c9b2 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1695,7 +1695,7 @@ class Nodal(Map):
                 #
                 # Bivariate function
                 # 
-                cols, rows = np.mgrid[0:n_dofs,0:n_dofs]
+                rows, cols = np.mgrid[0:n_dofs,0:n_dofs]
                 x1,x2 = x[rows.ravel(),:], x[cols.ravel(),:]
                 
                 n_samples = fn.n_samples()                
-- 
2.43.0


From 8b68c638f538572cdd2d5b8afbc1f8ffb1e100f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 19/79] fix: affine constraint terms are stored by equation,
 not by dof number

---
 src/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index ab0fd98..d6bf4e6 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -342,7 +342,7 @@ class LinearSystem(object):
         # Define constraint vector
         # 
         d = np.zeros(n_dofs)
-        d[c_dofs] = np.array(constraints['affine_terms'])
+        d[self.dof2eqn(c_dofs)] = np.array(constraints['affine_terms'])
         
         # Store constraint vector
         self.__d = d
-- 
2.43.0


From a29a45aac08dd2ce83f53fa8bc69b7401edbc69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 20/79] fix: constrain_rhs keeps the entries of constraints
 that are still to be eliminated

---
 src/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index d6bf4e6..5baafee 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -743,7 +743,7 @@ class LinearSystem(object):
             # Set b=0 at the constraints
             # 
             zc = np.ones(n_dofs)
-            zc[c_dofs] = 0
+            zc[k] = 0
             Izc = sparse.dia_matrix((zc,0),shape=(n_dofs,n_dofs)) 
             b = Izc.dot(b)
             
-- 
2.43.0


From 80001dfec09bfb79180e1e47e0189274b4ed4cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 21/79] fix: a constrained matrix is not constrained again on
 the next solve

---
 src/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index 5baafee..48fb1fc 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -542,7 +542,7 @@ class LinearSystem(object):
         """
         Determine whether the system matrix has been constrained
         """
-        self.__A_is_constrained
+        return self.__A_is_constrained
         
         
     def invert_matrix(self, b=None, factor=False):
-- 
2.43.0


From 08c820277c1588380453c6c4bd4b75e180f7ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 22/79] fix: dofs constrained twice are counted once when
 scaling the constrained equations

---
 src/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver.py b/src/solver.py
index 48fb1fc..875f11e 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -501,12 +501,12 @@ class LinearSystem(object):
         # 
         a_diag = A.diagonal()
         ave_vec = np.ones(n_dofs)
-        n_cdofs = len(c_dofs)
+        c_eqns = np.unique(self.dof2eqn(c_dofs))
+        n_cdofs = len(c_eqns)
         if n_dofs > n_cdofs:
             #
             # If there are unconstrained dofs, use average diagonal to scale 
             # 
-            c_eqns = self.dof2eqn(c_dofs)
             ave_vec[c_eqns] = (np.sum(a_diag)-n_cdofs)/(n_dofs-n_cdofs)
         I_ave = sparse.dia_matrix((ave_vec,0), shape=(n_dofs,n_dofs))
         A = A.dot(I_ave)
-- 
2.43.0


From 2640b7e6a24f7a36a1d22e0176ffad2a9b8b2a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 23/79] fix: factor_matrix uses the Cholesky factorization for
 symmetric matrices only

---
 src/solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index 875f11e..e530a1d 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -612,7 +612,9 @@ class LinearSystem(object):
         assert A is not None, 'No system matrix to factor.'
         A = A.tocsc()
 
-        if cholmod_cholesky is not None:
+        # CHOLMOD reads one triangle only, it needs a symmetric matrix
+        symmetric = abs(A-A.T).max() <= 1e-12*abs(A).max()
+        if cholmod_cholesky is not None and symmetric:
             factor = cholmod_cholesky(A)
 
             # Wrapper to present a uniform `.solve(B)` interface across
-- 
2.43.0


From 5f7e0288f61a444006313a517c1d5a8bc6d5b5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:11 +0000
Subject: [PATCH 24/79] fix: Tree.tree_depth(flag) measures the flagged subtree
 on every level

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 1cbbc83..34bc068 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -442,7 +442,7 @@ class Tree(object):
         depth = self.get_depth()
         if self.has_children():
             for child in self.get_children(flag=flag):
-                d = child.tree_depth()
+                d = child.tree_depth(flag=flag)
                 if d > depth:
                     depth = d
         return depth
-- 
2.43.0


From e1a4bf4247723cc4b4c6075d28085786a6fbfb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 25/79] fix: Forest.get_children(flag, reverse=True) returns
 the flagged trees in reverse order

---
 src/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 34bc068..265fc29 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1388,9 +1388,11 @@ class Forest(object):
             else:
                 children = []
                 for tree in reversed(self._trees):
-                    if tree.is_marked():
+                    if tree.is_marked(flag):
                         children.append(tree)
 
+                return children
+
 
     def add_tree(self, tree):
         """
-- 
2.43.0


From 0aa745cf9c018a69ad7becb5fd183bc693510fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:41 +0000
Subject: [PATCH 26/79] fix: addresses follow when trees with children are
 added to or removed from a forest

---
 src/mesh.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 265fc29..a5d8a64 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -285,6 +285,12 @@ class Tree(object):
                 # Not a regular tree: number of children 0 initially
                 n_children = 0
 
+            #
+            # Assign space for children
+            #
+            self._children = [None]*n_children
+            self._n_children = n_children
+
             if forest is not None:
                 #
                 # Tree contained in a Forest
@@ -307,11 +313,6 @@ class Tree(object):
                 assert self.get_node_position() is None, \
                     'Unattached ROOT cell has no position.'
 
-            #
-            # Assign space for children
-            #
-            self._children = [None]*n_children
-            self._n_children = n_children
         else:
             #
             # LEAF Node
@@ -469,9 +470,9 @@ class Tree(object):
         assert self.get_node_type() == 'ROOT', \
             'Only ROOT nodes are in the forest.'
         self._node_position = position
-        self._node_address = [position]
         self._in_forest = True
         self._forest = forest
+        self._set_address([position])
 
 
     def remove_from_forest(self):
@@ -480,8 +481,17 @@ class Tree(object):
         """
         self._in_forest = False
         self._node_position = None
-        self._node_address = []
         self._forest = None
+        self._set_address([])
+
+
+    def _set_address(self, address):
+        """
+        Set the node's address and update the addresses of its descendants
+        """
+        self._node_address = address
+        for child in self.get_children():
+            child._set_address(address + [child.get_node_position()])
 
 
     def is_regular(self):
@@ -1416,6 +1426,10 @@ class Forest(object):
         tree.remove_from_forest()
         del self._trees[position]
 
+        # The trees that follow move up by one position
+        for i, tree in enumerate(self._trees):
+            tree.plant_in_forest(self, i)
+
 
     def record(self, flag):
         """
-- 
2.43.0


From 0c250176fd40a8aeda0d39ab14d8755774143a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:41 +0000
Subject: [PATCH 27/79] fix: find_node returns None for addresses without a
 node and finds nodes of trees in a forest by their address

---
 src/mesh.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index a5d8a64..27006f2 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -974,8 +974,12 @@ class Tree(object):
             #
             # Not the ROOT node
             #
+            if node.in_forest():
+                # Addresses start with the position of the tree in the forest
+                return node.get_forest().find_node(address)
+
             for a in address:
-                if node.has_children() and a in range(node.n_children()):
+                if node is not None and a in range(node.n_children()):
                     node = node.get_child(a)
                 else:
                     return None
@@ -1345,11 +1349,10 @@ class Forest(object):
         node = self
         while len(address)>0:
             a = address.pop()
-            if node.has_children():
-                if a not in range(node.n_children()):
-                    return None
-                else:
-                    node = node.get_child(a)
+            if node is None or a not in range(node.n_children()):
+                return None
+            else:
+                node = node.get_child(a)
         return node
 
 
-- 
2.43.0


From 6c63f97cc872c47c78ad0ec38a4577e736dae7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:41 +0000
Subject: [PATCH 28/79] fix: coarsening a sub-forest looks at its own leaves
 and removes whole branches from it

---
 src/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 27006f2..275051e 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1059,7 +1059,7 @@ class Tree(object):
                     # All children have to be LEAF nodes
                     #
                     coarsen = True
-                    if child.get_node_type()!='LEAF':
+                    if child.has_children(flag=subforest_flag):
                         coarsen = False
                         break
 
@@ -1084,7 +1084,7 @@ class Tree(object):
                 # Remove subforest flag from children
                 #
                 for child in self.get_children():
-                    child.unmark(subforest_flag)
+                    child.unmark(subforest_flag, recursive=True)
             else:
                 #
                 # Delete children
-- 
2.43.0


From dfea841a58c9e4332a1f1dc763e7a5ed9d67cf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:14 +0000
Subject: [PATCH 29/79] fix: neighbors about a vertex are found by following
 the twins (periodic vertices, cells touching a vertex twice) and are filtered
 by the flag

---
 src/mesh.py | 74 ++++++++++++++++-------------------------------------
 1 file changed, 22 insertions(+), 52 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 275051e..bf89bb2 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3498,68 +3498,38 @@ class Cell(Tree):
             # =================================================================
             # Direction is determined by a Vertex
             # =================================================================
-            #
-            # Anti-clockwise
-            #
             neighbors = []
-            cell = self
-            while True:
-                #
-                # Get neighbor
-                #
-                half_edge = cell.incident_half_edge(pivot)
-                neighbor = cell.get_neighbors(half_edge)
+            for reverse in [False, True]:
                 #
-                # Move on
+                # Rotate anti-clockwise first, then clockwise
                 #
-                if neighbor is None:
-                    break
-                elif neighbor==self:
+                rotation = []
+                cell, vertex = self, pivot
+                full_rotation = False
+                while not full_rotation:
                     #
-                    # Full rotation or no neighbors
+                    # Get neighbor
                     #
-                    return neighbors
-                else:
+                    half_edge = cell.incident_half_edge(vertex, reverse=reverse)
+                    twin = None if half_edge is None else half_edge.twin()
+                    if twin is None or twin.cell() is None:
+                        break
                     #
-                    # Got at neighbor!
+                    # Move on (the vertex may have a different label there
+                    # if the mesh is periodic)
                     #
-                    neighbors.append(neighbor)
-                    cell = neighbor
-                    if pivot.is_periodic() and len(pivot.get_periodic_pair(cell))!=0:
-                        pivot = pivot.get_periodic_pair(cell)[0]
-            #
-            # Clockwise
-            #
-            neighbors_clockwise = []
-            cell = self
-            while True:
-                #
-                # Get neighbor
-                #
-                half_edge = cell.incident_half_edge(pivot, reverse=True)
-                neighbor = cell.get_neighbors(half_edge)
+                    cell = twin.cell()
+                    vertex = twin.head() if reverse else twin.base()
+                    if cell==self:
+                        full_rotation = (vertex==pivot)
+                    elif cell not in neighbors and cell not in rotation:
+                        rotation.append(cell)
                 #
-                # Move on
+                # Combine anti-clockwise and clockwise neighbors
                 #
-                if neighbor is None:
+                neighbors.extend(reversed(rotation) if reverse else rotation)
+                if full_rotation:
                     break
-                elif neighbor==self:
-                    #
-                    # Full rotation or no neighbors
-                    #
-                    return neighbors
-                else:
-                    #
-                    # Got a neighbor
-                    #
-                    neighbors_clockwise.append(neighbor)
-                    cell = neighbor
-                    if pivot.is_periodic() and len(pivot.get_periodic_pair(cell))!=0:
-                        pivot = pivot.get_periodic_pair(cell)[0]
-            #
-            # Combine clockwise and anticlockwise neighbors
-            #
-            neighbors.extend(reversed(neighbors_clockwise))
             if flag is not None:
                 return [nb for nb in neighbors if nb.is_marked(flag)]
             else:
-- 
2.43.0


From d6894d2ec9c321020e932313175d6105ca89ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 30/79] fix: neighboring intervals on the same level across
 parents and periodic ends, only in the sub-mesh asked for

---
 src/mesh.py | 98 ++++++++++++++++-------------------------------------
 1 file changed, 29 insertions(+), 69 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index bf89bb2..966494c 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2800,78 +2800,34 @@ class Interval(HalfEdge):
             # =================================================================
             # Return Level-wise Neighbor
             # =================================================================
-            if pivot == 0:
-                #
-                # Left neighbor
-                #
-                nbr = self.previous()
-                if nbr is None:
-                    #
-                    # No previous, may still be periodic
-                    #
-                    v = self.base()
-                    if v.is_periodic():
-                        #
-                        # Get coarsest cell periodically associated with v
-                        #
-                        for pair in v.get_periodic_pair():
-                            nbr, dummy = pair
-                            while nbr.get_depth()<self.get_depth():
-                                #
-                                # Search children until depth matches
-                                #
-                                if nbr.has_children(flag=subforest_flag):
-                                    nbr = nbr.get_child(0)
-                                else:
-                                    #
-                                    # There are no children at same depth as interval
-                                    #
-                                    return None
-                                #
-                                # Found nbr at correct depth
-                                #
-                            return nbr
-                else:
-                    #
-                    # Return previous interval
-                    #
-                    return nbr
-            elif pivot == 1:
-                #
-                # Right neighbor
-                #
-                nbr = self.next()
-                if nbr is None:
-                    #
-                    # No next, may still be periodic
-                    #
-                    v = self.head()
-                    if v.is_periodic():
-                        #
-                        # Get coarsest cell periodically associated with v
-                        #
-                        for pair in v.get_periodic_pair():
-                            nbr, dummy = pair
-                            while nbr.get_depth()<self.get_depth():
-                                #
-                                # Iterate through children until depth matches
-                                #
-                                if nbr.has_children(flag=subforest_flag):
-                                    nbr = nbr.get_child(1)
-                                else:
-                                    #
-                                    # There are no cells matching cell's depth
-                                    #
-                                    return None
-                                #
-                                # Found nbr at correct depth
-                                #
-                            return nbr
+            itv = self
+            nbr = itv.previous() if pivot==0 else itv.next()
+            #
+            # Go up the tree until there is a neighbor
+            #
+            while nbr is None:
+                if itv.has_parent():
+                    itv = itv.get_parent()
+                    nbr = itv.previous() if pivot==0 else itv.next()
                 else:
                     #
-                    # Return next interval
+                    # No parent: check whether vertex is periodic
                     #
-                    return nbr
+                    v = itv.base() if pivot==0 else itv.head()
+                    if not v.is_periodic():
+                        return None
+                    for nbr, dummy in v.get_periodic_pair():
+                        pass
+            #
+            # Search the children next to the pivot until depth matches
+            #
+            while nbr.get_depth()<self.get_depth():
+                if not nbr.has_children(flag=subforest_flag):
+                    return None
+                nbr = nbr.get_child(nbr.n_children()-1 if pivot==0 else 0)
+            if subforest_flag is not None and not nbr.is_marked(subforest_flag):
+                return None
+            return nbr
 
         elif mode=='physical':
             # =================================================================
@@ -2911,6 +2867,8 @@ class Interval(HalfEdge):
                 nxt = prev
                 while nxt.has_children(flag=subforest_flag):
                     nxt = nxt.get_child(nxt.n_children()-1)
+                if subforest_flag is not None and not nxt.is_marked(subforest_flag):
+                    return None
                 return nxt
 
             elif pivot==1:
@@ -2944,6 +2902,8 @@ class Interval(HalfEdge):
                 prev = nxt
                 while prev.has_children(flag=subforest_flag):
                     prev = prev.get_child(0)
+                if subforest_flag is not None and not prev.is_marked(subforest_flag):
+                    return None
                 return prev
 
 
-- 
2.43.0


From 4603a44c8e7fd540787ae7b62ad6fa6638757be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 31/79] fix: DCEL boundary half-edges have no neighbor,
 boundary points run over all boundary segments

---
 src/mesh.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 966494c..8e9587c 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6219,7 +6219,7 @@ class DCEL(object):
                 'Cell not incident to Half-Edge.'
 
             i_nbr_he = self.half_edges['twin'][i_direction]
-            i_nbr = self.half_edges['face'][i_nbr_he]
+            i_nbr = self.half_edges['face'][i_nbr_he] if i_nbr_he != -1 else -1
 
         if i_nbr != -1:
             return i_nbr
@@ -6357,11 +6357,12 @@ class DCEL(object):
             # Two dimensional grid
             #
             bnd_points = []
-            for i_he in self.get_boundary_half_edges():
+            for segment in self.get_boundary_half_edges():
                 #
                 # Add initial point of each boundary half edge
                 #
-                bnd_points.append(self.half_edges['connectivity'][i_he][0])
+                for i_he in segment:
+                    bnd_points.append(self.half_edges['connectivity'][i_he][0])
         else:
             raise Exception('Only dimensions 1 and 2 supported.')
         return bnd_points
-- 
2.43.0


From b72f00eeef5147dd309dbeb05987e2d4843ed5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:37 +0000
Subject: [PATCH 32/79] fix: deleting sub-cells disconnects their half-edges
 from the neighboring cells

---
 src/mesh.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index 8e9587c..0116cbb 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3608,6 +3608,22 @@ class QuadCell(Cell, Tree):
         return self._is_rectangle
 
 
+    def delete_children(self, position=None):
+        """
+        Delete all sub-cells, and with them the connections of their
+        half-edges to the neighboring cells
+        """
+        if position is None:
+            for child in self.get_children():
+                child.delete_children()
+            for half_edge in self.get_half_edges():
+                for he_child in half_edge.get_children():
+                    if he_child.twin() is not None:
+                        he_child.twin().delete_twin()
+                half_edge.delete_children()
+        Tree.delete_children(self, position=position)
+
+
     def split(self, flag=None):
         """
         Split QuadCell into 4 subcells (and mark children with flag)
-- 
2.43.0


From 0991e5c243b2512a9c235b879eb1b7418b7e19b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:04 +0000
Subject: [PATCH 33/79] fix: boundary half-edges of domains with several
 boundary components are grouped correctly

---
 src/mesh.py | 56 ++++++++++++++++++++---------------------------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 0116cbb..b8bb4b8 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6249,48 +6249,34 @@ class DCEL(object):
         """
         assert self.dim()==2, 'Half edges only present in 2D grids.'
 
-        bnd_hes_conn = []
-        bnd_hes = []
+        conn = self.half_edges['connectivity']
         #
         # Locate half-edges on the boundary
         #
-        for i_he in range(self.half_edges['n']):
-            if self.half_edges['twin'][i_he] == -1:
-                bnd_hes.append(i_he)
-                bnd_hes_conn.append(self.half_edges['connectivity'][i_he])
+        bnd_hes = [i_he for i_he in range(self.half_edges['n']) \
+                   if self.half_edges['twin'][i_he] == -1]
         #
         # Group and sort half-edges
         #
-        bnd_hes_sorted = [deque([he]) for he in bnd_hes]
-
-        while True:
-            for g1 in bnd_hes_sorted:
-                #
-                # Check if g1 can add a deque in bnd_hes_sorted
-                #
+        bnd_hes_sorted = []
+        while len(bnd_hes) > 0:
+            segment = deque([bnd_hes.pop(0)])
+            merger_activity = True
+            while merger_activity:
                 merger_activity = False
-                for g2 in bnd_hes_sorted:
-                    #
-                    # Does g1's head align with g2's tail?
-                    #
-                    if self.half_edges['connectivity'][g1[-1]][1]==\
-                       self.half_edges['connectivity'][g2[0]][0]:
-                        # Remove g2 from list
-                        if len(bnd_hes_sorted) > 1:
-                            g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
-                            g1.extend(g2)
-                            merger_activity = True
-                    #
-                    # Does g1's tail align with g2's head?
-                    #
-                    elif self.half_edges['connectivity'][g1[0]][0]==\
-                         self.half_edges['connectivity'][g2[-1]][1]:
-                        if len(bnd_hes_sorted) > 1:
-                            g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
-                            g1.extendleft(g2)
-                            merger_activity = True
-            if not merger_activity:
-                break
+                for i_he in bnd_hes:
+                    if conn[segment[-1]][1]==conn[i_he][0]:
+                        # Half-edge's base aligns with the segment's head
+                        segment.append(i_he)
+                    elif conn[segment[0]][0]==conn[i_he][1]:
+                        # Half-edge's head aligns with the segment's base
+                        segment.appendleft(i_he)
+                    else:
+                        continue
+                    bnd_hes.remove(i_he)
+                    merger_activity = True
+                    break
+            bnd_hes_sorted.append(segment)
         #
         # Multiple boundary segments
         #
-- 
2.43.0


From 941ba1a974abdbdb45e190fc83a8768f4428ec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:50 +0000
Subject: [PATCH 34/79] fix: balancing a sub-mesh considers cells of the
 sub-mesh only (the result depended on the order of the cells)

---
 src/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index b8bb4b8..abd53c0 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7830,7 +7830,9 @@ class QuadMesh(Mesh2D):
                                     if hep is not None:
                                         hep_twin = hep.twin()
                                         if hep_twin is not None:
-                                            leaves.add(hep_twin.cell())
+                                            nb = hep_twin.cell()
+                                            if subforest_flag is None or nb.is_marked(subforest_flag):
+                                                leaves.add(nb)
                             #
                             # Current LEAF cell has been split, move on to next one
                             #
-- 
2.43.0


From 1669cc8e9b3560209cefb77121617c3b33510491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 35/79] fix: boundary segments of domains with several boundary
 components are grouped correctly

---
 src/mesh.py | 45 ++++++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index abd53c0..ee7d2b9 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7132,34 +7132,25 @@ class Mesh2D(Mesh):
         #
         # Group and sort half-edges
         #
-        bnd_hes_sorted = [deque([he]) for he in bnd_hes]
-        while True:
-            merger_activity = False
-            for g1 in bnd_hes_sorted:
-                #
-                # Check if g1 can add a deque in bnd_hes_sorted
-                #
+        bnd_hes_sorted = []
+        while len(bnd_hes)>0:
+            segment = deque([bnd_hes.pop(0)])
+            merger_activity = True
+            while merger_activity:
                 merger_activity = False
-                for g2 in bnd_hes_sorted:
-                    #
-                    # Does g1's head align with g2's tail?
-                    #
-                    if g1[-1].head()==g2[0].base():
-                        # Remove g2 from list
-                        g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
-                        g1.extend(g2)
-                        merger_activity = True
-                    #
-                    # Does g1's tail align with g2's head?
-                    #
-                    elif g1[0].base()==g2[-1].head():
-                        g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
-                        g2.reverse()
-                        g1.extendleft(g2)
-                        merger_activity = True
-
-            if not merger_activity or len(bnd_hes_sorted)==1:
-                break
+                for he in bnd_hes:
+                    if segment[-1].head()==he.base():
+                        # Half-edge's base aligns with the segment's head
+                        segment.append(he)
+                    elif segment[0].base()==he.head():
+                        # Half-edge's head aligns with the segment's base
+                        segment.appendleft(he)
+                    else:
+                        continue
+                    bnd_hes.remove(he)
+                    merger_activity = True
+                    break
+            bnd_hes_sorted.append(segment)
         #
         # Multiple boundary segments
         #
-- 
2.43.0


From c9bf4c5527a2a47a8b3f88faf0e8f8a115517ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:05 +0000
Subject: [PATCH 36/79] fix: boundary segments keep exactly the flagged
 half-edges

---
 src/mesh.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index ee7d2b9..e89ca31 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7185,12 +7185,7 @@ class Mesh2D(Mesh):
             # Throw out he's that are not flagged
             #
             if flag is not None:
-                for he, i_he in zip(segment, range(len(segment))):
-                    if not he.is_marked(flag):
-                        #
-                        # Not flagged: remove from list
-                        #
-                        del segment[i_he]
+                segment[:] = [he for he in segment if he.is_marked(flag)]
 
         return bnd
 
-- 
2.43.0


From c6415c0c25928812b3056030244064dfedc20363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:06 +0000
Subject: [PATCH 37/79] fix: boundary vertices include both ends of open
 boundary segments, once

---
 src/mesh.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index e89ca31..011938a 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7194,11 +7194,14 @@ class Mesh2D(Mesh):
         """
         Returns the Vertices on the boundary
         """
-        vertices = []
+        vertices, seen = [], set()
         for segment in self.get_boundary_segments(subforest_flag=subforest_flag,
                                                   flag=flag):
             for he in segment:
-                vertices.append(he.base())
+                for v in he.get_vertices():
+                    if v not in seen:
+                        seen.add(v)
+                        vertices.append(v)
         return vertices
 
 
-- 
2.43.0


From 6331e834f2d826f790c72cc7c58abf456739a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:06 +0000
Subject: [PATCH 38/79] fix: boundary regions of periodic intervals are empty

---
 src/mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 011938a..37c2de8 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6756,7 +6756,7 @@ class Mesh1D(Mesh):
                 #
                 # Vertices
                 #
-                for v in self.get_boundary_vertices():
+                for v in self.get_boundary_vertices() or ():
                     x, = v.coordinates()
                     if f(x):
                         #
@@ -6767,7 +6767,7 @@ class Mesh1D(Mesh):
                 #
                 # Intervals
                 #
-                for cell in self.get_boundary_cells(subforest_flag=subforest_flag):
+                for cell in self.get_boundary_cells(subforest_flag=subforest_flag) or ():
                     #
                     # Iterate over boundary cells
                     #
@@ -6882,8 +6882,8 @@ class Mesh1D(Mesh):
             #
             # Restrict region to boundary
             #
-            cells = self.get_boundary_cells(subforest_flag=subforest_flag)
-            bnd_vertices = self.get_boundary_vertices()
+            cells = self.get_boundary_cells(subforest_flag=subforest_flag) or ()
+            bnd_vertices = self.get_boundary_vertices() or ()
         else:
             #
             # Region within 1D domain
-- 
2.43.0


From df1c09d5f116585d47a1771386752fb203f6c757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 39/79] fix: dofs of a closed half-edge include its end points'
 dofs only if there are any

---
 src/fem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem.py b/src/fem.py
index 85c6edf..9263281 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2102,7 +2102,7 @@ class DofHandler(object):
                     # Add endpoint vertices
                     #
                     if v in end_points:
-                        dofs.append(cell_dofs[i])
+                        dofs.extend(cell_dofs[i:i+dpv])
                     i += dpv
             else:
                 #
-- 
2.43.0


From 4e04c17ad6bcd1d7069b040092d3ae4f0893c5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 40/79] fix: a refined interval that is its own periodic
 neighbor shares the dofs of its end points

---
 src/fem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem.py b/src/fem.py
index 9263281..bdcb1d3 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1413,7 +1413,7 @@ class DofHandler(object):
             own_neighbor = False
             if dim==1:
                 for vertex in cell.get_vertices():
-                    nb = cell.get_neighbor(vertex)
+                    nb = cell.get_neighbor(vertex, mode='level-wise')
                     if nb == cell:
                         own_neighbor = True
                         break
-- 
2.43.0


From e3d80749f83f9da865f0d3a9ffaec3f37b1ec0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 41/79] fix: vertices of dofs added by a later distribution are
 recorded

---
 src/fem.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index bdcb1d3..4327506 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2188,10 +2188,6 @@ class DofHandler(object):
         """
         Construct a list of all vertices in the mesh
         """
-        # Check if dof_vertices already set
-        if len(self.__dof_vertices) >= self.n_dofs(subforest_flag=subforest_flag):
-            return
-
         # Reference nodes
         x_ref = self.element.reference_nodes()
 
-- 
2.43.0


From 467f59af00dd14b9ead0861d7f3bfe8617cb3276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 42/79] fix: distributing dofs again after refinement numbers
 nodes of cells numbered earlier only once

---
 src/fem.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fem.py b/src/fem.py
index 4327506..b8a98a1 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1229,6 +1229,15 @@ class DofHandler(object):
                 distribute dofs
         """
         dim = self.element.dim()
+        if not self.element.torn_element():
+            #
+            # Cells numbered by an earlier call share their dofs with cells
+            # added since
+            #
+            for cell in self.mesh.cells.traverse(mode='breadth-first'):
+                cell_dofs = self.get_cell_dofs(cell)
+                if cell_dofs is not None and not None in cell_dofs:
+                    self.share_dofs_with_neighbors(cell)
         if dim==1:
             for interval in self.mesh.cells.traverse(mode='breadth-first',
                                                      flag=subforest_flag):
-- 
2.43.0


From d59e31d3f7702e695c820df43704efa7bc03da8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 43/79] fix: cells that are their own periodic neighbors use up
 all dofs they assign (quadratic and cubic elements)

---
 src/fem.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index b8a98a1..8d8b82e 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1455,9 +1455,7 @@ class DofHandler(object):
 
                     # Throw out used dofs
                     vertex_dofs = self.get_cell_dofs(cell, vertex)
-                    for dof in dofs:
-                        if dof in vertex_dofs:
-                            dofs.pop(dofs.index(dof))
+                    dofs = [dof for dof in dofs if dof not in vertex_dofs]
             if dim==1:
                 #
                 # 1D Mesh: Fill in interior
@@ -1473,6 +1471,10 @@ class DofHandler(object):
                     # Assign new dofs to interval
                     self.assign_dofs(dofs, cell, cell)
 
+                    # Throw out used dofs
+                    cell_dofs = self.get_cell_dofs(cell, cell, interior=True)
+                    dofs = [dof for dof in dofs if dof not in cell_dofs]
+
             elif dim==2:
                 #
                 # Assign dofs to HalfEdges
@@ -1513,9 +1515,7 @@ class DofHandler(object):
 
                     # Throw out used dofs
                     cell_dofs = self.get_cell_dofs(cell, cell, interior=True)
-                    for dof in dofs:
-                        if dof in cell_dofs:
-                            dofs.pop(dofs.index(dof))
+                    dofs = [dof for dof in dofs if dof not in cell_dofs]
 
             # Subtract unused dofs from total dof count
             count -= len(dofs)
-- 
2.43.0


From 3d4fa2939e6bb7286685b8eb11f4c65d2daa3b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 44/79] fix: intervals and discontinuous elements have no
 hanging nodes (instead of a KeyError)

---
 src/fem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 8d8b82e..ed379cb 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2588,7 +2588,7 @@ class DofHandler(object):
                 # Set hanging nodes first
                 #
                 self.set_hanging_nodes()
-            return self.__hanging_nodes['default']
+            return self.__hanging_nodes.get('default', {})
         else:
             #
             # With Subforest flag
@@ -2598,7 +2598,7 @@ class DofHandler(object):
                 # Set hanging nodes first
                 #
                 self.set_hanging_nodes(subforest_flag=subforest_flag)
-            return self.__hanging_nodes[subforest_flag]
+            return self.__hanging_nodes.get(subforest_flag, {})
 
 
     def has_hanging_nodes(self, subforest_flag=None):
-- 
2.43.0


From 625c728fd2c1b903eaf34442979dd8184a73c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:40 +0000
Subject: [PATCH 45/79] fix: dofs of assembled forms are numbered in ascending
 order

---
 src/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 1c03094..58dd1f9 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4350,7 +4350,7 @@ class AssembledForm(object):
             #
             # Get unique dofs from data
             #
-            udofs.append(list(set(dofs[i])))
+            udofs.append(sorted(set(dofs[i])))
 
             #
             # Number of index vectors
@@ -4360,7 +4360,7 @@ class AssembledForm(object):
             #
             # Dof-to-index mapping for interior dofs
             #
-            dof2idx.append(np.zeros(udofs[i][-1]+1, dtype=int))
+            dof2idx.append(np.zeros(max(udofs[i], default=-1)+1, dtype=int))
             dof2idx[i][udofs[i]] = np.arange(n_idx[i])
 
         #
-- 
2.43.0


From 9a8bcfaf3219964ddb6b8497de71611daaad7c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:40 +0000
Subject: [PATCH 46/79] fix: assembled problems without Dirichlet nodes have a
 zero Dirichlet correction

---
 src/assembler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 58dd1f9..9a706ab 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4366,10 +4366,10 @@ class AssembledForm(object):
         #
         # Store values in (n, n_samples) array
         #
+        n_samples = self.n_samples()
         vals = self.__aggregate_data['vals']
-        vals = np.array(vals)
+        vals = np.array(vals).reshape((len(vals), n_samples))
 
-        n_samples = self.n_samples()
         if dim == 0:
             #
             # Constant (scalar)
@@ -4421,6 +4421,8 @@ class AssembledForm(object):
                 # Form
                 if len(x0_dofs)>0:
                     x0.append(np.bincount(x0_dofs, x0_vals[:,i],n_rows))
+                else:
+                    x0.append(np.zeros(n_rows))
 
             # Store result
             self.__aggregate_data['array'] = A
-- 
2.43.0


From 1465ba0264fd9b178f35612dc75f3e0fabc0b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:40 +0000
Subject: [PATCH 47/79] fix: constant forms whose region does not meet a cell
 contribute a row of zeros

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 9a706ab..44f8385 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1366,7 +1366,7 @@ class Form(object):
                     #
                     # Sampled form
                     #
-                    f_loc = np.zeros(n_samples)
+                    f_loc = np.zeros((1,n_samples))
             elif self.type=='linear':
                 #
                 # Linear form
-- 
2.43.0


From 9b805b808b603b491e7e91038938db5a9c0a1da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:53 +0000
Subject: [PATCH 48/79] fix: deterministic forms assembled together with
 sampled forms count for every sample

---
 src/assembler.py | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 44f8385..8b35faa 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4074,30 +4074,13 @@ class AssembledForm(object):
 
             n_entries = len(dofs[0])
             
-            #if vals.shape[1]==1:
-            #    print(vals)
-            
-            if n_samples > 1:
-                if vals.shape[-1]==1:
-                    #
-                    # Single sample: Copy it 
-                    # 
-                    vals = np.tile(vals, (1,n_samples))
-                
-            vals = vals.reshape((n_entries,n_samples), order='F')
-            
-            """
-            if n_samples > 1:
-                if len(vals.shape) == 1:
-                    #
-                    # Deterministic form -> copy it
-                    # 
-                    vals = np.tile(vals[:,np.newaxis], (1,n_samples))
-                else:
-                    #
-                    # Sampled form
-                    # 
-            """       
+            vals = vals.reshape((n_entries,-1), order='F')
+
+        if n_samples > 1 and vals.shape[-1]==1:
+            #
+            # Deterministic form: use the same values for all samples
+            #
+            vals = np.tile(vals, (1,n_samples))
 
 
         # Update dofs
-- 
2.43.0


From 66bf06b1c4ce4d863933bdb0aafaa3dd473c8698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 49/79] fix: interpolated integral forms on sub-meshes, on any
 number of regions of a cell and with samples

---
 src/assembler.py | 50 +++++++++++++++++++-----------------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 8b35faa..263716a 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1531,7 +1531,7 @@ class IIForm(Form):
         # Interpolate in the test function component
         # =====================================================================
         test = self.test
-        x = test.dofhandler().get_dof_vertices(test.subforest_flag())
+        x = test.dofhandler().get_dof_vertices(subforest_flag=test.subforest_flag())
         n = x.shape[0]
 
         # =====================================================================
@@ -1542,7 +1542,8 @@ class IIForm(Form):
         # Number of dofs
         n_dofs = trial.dofhandler().element.n_dofs()
 
-        f_loc = None
+        n_samples = self.kernel.n_samples()
+        f_loc = np.zeros((n,n_dofs,n_samples))
         for reg in self.regions(cell):
             # Get trial functions evaluated at Gauss nodes
             phi_g = phi[reg][trial]
@@ -1550,39 +1551,28 @@ class IIForm(Form):
             w_g = wg[reg]
 
             #
-            # Initialize local matrix if necessary
+            # Evaluate covariance function at the local Gauss points
             #
-            if f_loc is None:
-                #
-                # Initialize form
-                #
-                f_loc = np.zeros((n,n_dofs))
+            n_gauss = x_g.shape[0]
+            ii,jj = np.meshgrid(np.arange(n),np.arange(n_gauss), indexing='ij')
+            xx = (x[ii.ravel(),:],x_g[jj.ravel(),:])
 
-                #
-                # Evaluate covariance function at the local Gauss points
-                #
-                n_gauss = x_g.shape[0]
-                ii,jj = np.meshgrid(np.arange(n),np.arange(n_gauss), indexing='ij')
-                x = (x[ii.ravel(),:],x_g[jj.ravel(),:])
-                """
-                if self.dim == 1:
-                    x1, x2 = x[ii.ravel()], x_g[jj.ravel()]
-                elif self.dim == 2:
-
-                """
+            C_loc = self.kernel.eval(xx, region=reg, cell=cell,
+                                     phi=phi[reg], dofs=dofs[reg])
+            C_loc = C_loc.reshape(n,n_gauss,n_samples)
 
-                C_loc = self.kernel.eval(x, region=reg, cell=cell,
-                                         phi=phi[reg], dofs=dofs[reg])
-                C_loc = C_loc.reshape(n,n_gauss)
+            #
+            # Compute local integral
+            #
+            # Weight shape functions
+            Wphi = np.diag(w_g).dot(phi_g)
 
-                #
-                # Compute local integral
-                #
-                # Weight shape functions
-                Wphi = np.diag(w_g).dot(phi_g)
+            # Combine
+            for i in range(n_samples):
+                f_loc[:,:,i] += C_loc[:,:,i].dot(Wphi)
 
-                # Combine
-                f_loc += C_loc.dot(Wphi)
+        if n_samples==1:
+            f_loc = f_loc[:,:,0]
         return f_loc
 
 
-- 
2.43.0


From c13dc8382f31da49cd4a1cbe83e8bd4227b5943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:31 +0000
Subject: [PATCH 50/79] fix: integral forms restricted to flagged regions or
 with sampled kernels

---
 src/assembler.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 263716a..2842cd0 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1664,7 +1664,7 @@ class IPForm(Form):
         # Sample size
         n_samples = self.kernel.n_samples()
 
-        f_loc = None
+        f_loc = np.zeros((n_dofsi,n_dofsj,n_samples))
         for regi in self.regions(ci):
             for regj in self.regions(cj):
                 # Access test(i) and trial(j) functions
@@ -1683,17 +1683,6 @@ class IPForm(Form):
                 dofi = dofs[0][regi]
                 dofj = dofs[1][regj]
 
-                #
-                # Initialize local matrix if necessary
-                #
-                if f_loc is None:
-                    #
-                    # Initialize form
-                    #
-                    if n_samples==1:
-                        f_loc = np.zeros((n_dofsi,n_dofsj))
-                    else:
-                        f_loc = np.zeros((n_dofsi,n_dofsj,n_samples))
                 #
                 # Evaluate kernel function at the local Gauss points
                 #
@@ -1712,7 +1701,7 @@ class IPForm(Form):
                 C_loc = self.kernel.eval(x, cell=(ci,cj), region=(regi, regj),
                                          phi=(phi[0][regi],phi[1][regj]),
                                          dofs=(dofi,dofj))
-                C_loc = C_loc.reshape(n_gauss,n_gauss)
+                C_loc = C_loc.reshape(n_gauss,n_gauss,n_samples)
 
                 #
                 # Compute local integral
@@ -1722,7 +1711,11 @@ class IPForm(Form):
                 Wphij = np.diag(wj_g).dot(phij)
 
                 # Combine
-                f_loc += np.dot(Wphii.T, C_loc.dot(Wphij))
+                for i in range(n_samples):
+                    f_loc[:,:,i] += np.dot(Wphii.T, C_loc[:,:,i].dot(Wphij))
+
+        if n_samples==1:
+            f_loc = f_loc[:,:,0]
 
         # Return local form
         return f_loc
@@ -2458,7 +2451,7 @@ class Assembler(object):
                                     #
                                     # Symmetric kernel, store the transpose
                                     #
-                                    aform.update_cellwise(ci, form_loc.T,
+                                    aform.update_cellwise(ci, form_loc.swapaxes(0,1),
                                                           dofs = [dofs_trl, dofs_tst])
                                 else:
                                     #
-- 
2.43.0


From 0bc403a707a7f2c824fc9e36cb4b9fcb200393d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:31 +0000
Subject: [PATCH 51/79] fix: the symmetric shortcut for integral forms requires
 equal test and trial functions

---
 src/assembler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 2842cd0..312f193 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -2446,7 +2446,9 @@ class Assembler(object):
                             #
                             # Special efficiency when kernel is symmetric
                             #
-                            if form.kernel.is_symmetric():
+                            if form.kernel.is_symmetric() and \
+                                form.test.same_dofs(form.trial) and \
+                                form.test.derivative()==form.trial.derivative():
                                 if ci!=cj:
                                     #
                                     # Symmetric kernel, store the transpose
-- 
2.43.0


From e73be4a11b3ce2e8a36a63b947341c82faa97c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 52/79] fix: constant forms over vertices do not need a basis

---
 src/assembler.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 312f193..96a67ac 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3475,22 +3475,22 @@ class Assembler(object):
                 #
                 xg[region], wg[region] = convert_to_array(region.coordinates()), 1
 
-                #
-                # Determine reference vertex corresponding to Vertex region
-                #
-                basis = list(shape_info[region])[0]
-                ref_cell = basis.dofhandler().element.reference_cell()
+                if len(shape_info[region])>0:
+                    #
+                    # Determine reference vertex corresponding to Vertex region
+                    #
+                    basis = list(shape_info[region])[0]
+                    ref_cell = basis.dofhandler().element.reference_cell()
 
-                # Determine equivalent Vertex on reference element
-                i_v = cell.get_vertices().index(region)
-                v = ref_cell.get_vertex(i_v)
-                x_ref = convert_to_array(v, dim=v.dim())
+                    # Determine equivalent Vertex on reference element
+                    i_v = cell.get_vertices().index(region)
+                    v = ref_cell.get_vertex(i_v)
+                    x_ref = convert_to_array(v, dim=v.dim())
 
-                # Map to physical
-                xg[region], mg = cell.reference_map(x_ref, jac_r2p=True,
-                                                    jac_p2r=jac_p2r,
-                                                    hess_p2r=hess_p2r)
-                wg[region] = 1
+                    # Map to physical
+                    xg[region], mg = cell.reference_map(x_ref, jac_r2p=True,
+                                                        jac_p2r=jac_p2r,
+                                                        hess_p2r=hess_p2r)
             else:
                 raise Exception('Only Intervals, HalfEdges, Vertices & '+\
                                 'QuadCells supported')
-- 
2.43.0


From 06fa59b6cf60ca09816271fd3cae9ec475b251b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 53/79] fix: shape functions of coarser sub-meshes are
 evaluated on the coarse cell

---
 src/assembler.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 96a67ac..8be70f7 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3509,10 +3509,22 @@ class Assembler(object):
                     #
                     element = basis.dofhandler().element
                     D = basis.derivative()
-                    jac_p2r = mg['jac_p2r'] if D[0] in [1,2] else None
-                    hess_p2r = mg['hess_p2r'] if D[0]==2 else None
 
-                    p = element.shape(x_ref=x_ref, derivatives=D, cell=cell,
+                    # Cell on which the basis is defined: may be coarser
+                    e_cell = cell.nearest_ancestor(basis.subforest_flag())
+                    if e_cell==cell:
+                        y_ref, e_mg = x_ref, mg
+                    else:
+                        y_ref, e_mg = \
+                            e_cell.reference_map(xg[region], 
+                                                 mapsto='reference',
+                                                 jac_p2r=True,
+                                                 hess_p2r=True)
+                        y_ref = np.minimum(np.maximum(y_ref,0),1)
+                    jac_p2r = e_mg['jac_p2r'] if D[0] in [1,2] else None
+                    hess_p2r = e_mg['hess_p2r'] if D[0]==2 else None
+
+                    p = element.shape(x_ref=y_ref, derivatives=D, cell=e_cell,
                                       jac_p2r=jac_p2r, hess_p2r=hess_p2r)
                     phi[region][basis] = p
 
-- 
2.43.0


From a7a450be03f0e4fa71feaa75bc8c39d27876fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 54/79] fix: kernels of derivatives of nodal functions are not
 assembled as the functions themselves

---
 src/assembler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/assembler.py b/src/assembler.py
index 8be70f7..30f8d74 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -955,6 +955,10 @@ class Kernel(object):
         for f, dfdx in zip(self.__f, self.__dfdx):
             if isinstance(f, Nodal):
                 phi_f = phi if phi is None else phi[f.basis()]
+                der_f = (0,) if dfdx is None else parse_derivative_info(dfdx)
+                if f.basis().derivative() != der_f:
+                    # Precomputed shape functions do not match derivative
+                    phi_f = None
                 dof_f = None if dofs is None else dofs[f.basis()]
                 if dof_f is None or phi_f is None:
                     fv = f.eval(x=x, derivative=dfdx, cell=cell)
-- 
2.43.0


From 5e2709613534cbd2d0088923ad5e2a7acf8a054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 55/79] fix: keeping cellwise data keeps the data

---
 src/assembler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 30f8d74..6553797 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4178,7 +4178,8 @@ class AssembledForm(object):
         if clear_cellwise_data:
             cell_data = self.__cellwise_data[cell]
         else:
-            cell_data = self.__cellwise_data[cell].copy()
+            cell_data = {'dofs': [list(d) for d in self.__cellwise_data[cell]['dofs']],
+                         'vals': list(self.__cellwise_data[cell]['vals'])}
 
         # Aggregate data
         data = self.__aggregate_data
-- 
2.43.0


From 106461ddb922409418123d13511d2dd2c68caf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:15 +0000
Subject: [PATCH 56/79] fix: kernels of bivariate nodal functions can be
 assembled

---
 src/assembler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 6553797..c758b5c 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -953,7 +953,10 @@ class Kernel(object):
         f_vals = []
         n_samples = self.n_samples()
         for f, dfdx in zip(self.__f, self.__dfdx):
-            if isinstance(f, Nodal):
+            if isinstance(f, Nodal) and f.n_variables()==2:
+                # Bivariate: the points may lie in different cells
+                fv = f.eval(x=x, derivative=dfdx)
+            elif isinstance(f, Nodal):
                 phi_f = phi if phi is None else phi[f.basis()]
                 der_f = (0,) if dfdx is None else parse_derivative_info(dfdx)
                 if f.basis().derivative() != der_f:
-- 
2.43.0


From 1e49d4e148e1e612523b55c7fdd33de6404174f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:15 +0000
Subject: [PATCH 57/79] fix: assembling again does not add to what was
 assembled before

---
 src/assembler.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/assembler.py b/src/assembler.py
index c758b5c..f38d2a5 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -2351,6 +2351,11 @@ class Assembler(object):
         #
         sf = self.subforest_flag()
         cells = self.mesh().cells.get_leaves(subforest_flag=sf, flag=region_flag)
+        for problem_forms in self.__af:
+            for aform in problem_forms:
+                if aform is not None:
+                    aform.reset()
+
         for ci in cells:
             #
             # Compute shape functions on cell
@@ -3926,6 +3931,14 @@ class AssembledForm(object):
         #
         # Initialize cellwise- and aggregate data
         #
+        self.reset()
+
+
+    def reset(self):
+        """
+        Discard all assembled data
+        """
+        dim = self.dim()
         self.__cellwise_data = {}
         self.__aggregate_data = {'dofs':[[] for dummy in range(dim)],
                                  'udofs': [],
-- 
2.43.0


From 4407fe239dfe2bbfc2149e18ee0cba59822b433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:15 +0000
Subject: [PATCH 58/79] fix: solving assembled problems on sub-meshes, without
 Dirichlet nodes, and with supported supports

---
 src/assembler.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index f38d2a5..dde2072 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3769,17 +3769,23 @@ class Assembler(object):
         # Solve linear system on interior dofs
         #
         int_dofs = self.get_dofs('interior', i_problem=i_problem)
-        u[int_dofs] = spla.spsolve(A,b-x0)
+        if len(int_dofs)>0:
+            u[phi_lin.d2i(int_dofs)] = spla.spsolve(A,b-x0)
 
         #
         # Resolve Dirichlet conditions
         #
         dir_dofs, dir_vals = self.get_dirichlet(i_problem=i_problem, asdict=False)
-        u[dir_dofs] = dir_vals[:,0]
-
-        # Resolve hanging nodes
-        C = self.hanging_node_matrix(i_problem=i_problem)
-        u += C.dot(u)
+        if len(dir_dofs)>0:
+            u[phi_lin.d2i(dir_dofs)] = dir_vals[:,0]
+
+        # Resolve hanging nodes (which may support each other)
+        hng_dofs = self.get_dofs('hanging_nodes', i_problem=i_problem)
+        if len(hng_dofs)>0:
+            u[phi_lin.d2i(hng_dofs)] = 0
+            C = self.hanging_node_matrix(i_problem=i_problem)
+            I = sparse.eye(n_dofs)
+            u = spla.spsolve((I-C).tocsc(), u)
 
         return u     
 
-- 
2.43.0


From e6287e782d040329dade28a76dafc31485eb9b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 59/79] fix: Dirichlet conditions on half-edges include the
 dofs in the interior of the half-edges

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index dde2072..74e73a1 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3605,7 +3605,7 @@ class Assembler(object):
             #
             # Two dimensional mesh
             #
-            dir_dofs = dh.get_region_dofs(entity_type='vertex',
+            dir_dofs = dh.get_region_dofs(entity_type='half_edge',
                                           entity_flag=dir_marker,
                                           interior=False,
                                           on_boundary=on_bnd, \
-- 
2.43.0


From 7aa2be5bab2cc47e99f5fc7afcd34239fae75542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 60/79] fix: hanging nodes of assembled problems are those of
 the sub-mesh of the basis

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 74e73a1..53a0ec6 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3676,7 +3676,7 @@ class Assembler(object):
 
         # Set hanging nodes
         self.__hanging_nodes[i_problem] \
-            = phi.dofhandler().get_hanging_nodes(subforest_flag=self.subforest_flag())
+            = phi.dofhandler().get_hanging_nodes(subforest_flag=phi.subforest_flag())
 
 
     def get_hanging_nodes(self, i_problem=0):
-- 
2.43.0


From 4386d5a729a33b68cc6339555263d903b01de139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:18 +0000
Subject: [PATCH 61/79] fix: modified Cholesky factors satisfy P*C*P' = L*D0*L'
 for every pivoting

---
 src/spd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spd.py b/src/spd.py
index afbd2a8..72defb2 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -458,8 +458,10 @@ class CholeskyDecomposition(SPDMatrix):
                 temp = np.dot(U,np.dot(T,U.T))
                 DMC[k:k+2,k:k+2] = (temp + temp.T)/2  # Ensure symmetric.
                 k += 2
+        # Permute the rows of L, so that L is triangular and P*C*P' = L*D*L' 
         P = np.eye(n)
-        P = P[:,p]
+        P = P[p,:]
+        L = L[p,:]
         
         #P = sp.diags([1],0,shape=(n,n), format='coo') 
         #P.row = P.row[p]
-- 
2.43.0


From 788bbe904f1bda931baa271a1e3550c9ff644501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:18 +0000
Subject: [PATCH 62/79] fix: modified Cholesky solve and square roots use the
 2-by-2 blocks of D

---
 src/spd.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/spd.py b/src/spd.py
index 72defb2..3f191f2 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -474,6 +474,18 @@ class CholeskyDecomposition(SPDMatrix):
         return L, DMC, P, D
 
 
+    def block_sqrt(self,D):
+        """
+        Compute the lower triangular square root S of the matrix D = S*S', 
+        whose diagonal blocks are 1-by-1 or 2-by-2.
+        """
+        S = np.diag(np.sqrt(np.diag(D)))
+        for k in range(D.shape[0]-1):
+            if D[k+1,k] != 0:
+                S[k:k+2,k:k+2] = linalg.cholesky(D[k:k+2,k:k+2], lower=True)
+        return S
+
+
     def set_factors(self,L):
         """
         Store the Cholesky factorization
@@ -622,11 +634,9 @@ class CholeskyDecomposition(SPDMatrix):
             # Use Modified Cholesky
             # 
             L, D, P, dummy = self.get_factors()
-            PL = P.dot(L)
-            y = linalg.solve_triangular(PL,P.dot(b),lower=True, unit_diagonal=True)
-            Dinv = sp.diags(1./np.diagonal(D))
-            z = Dinv.dot(y)
-            x = linalg.solve_triangular(PL.T,z,lower=False,unit_diagonal=True)
+            y = linalg.solve_triangular(L,P.dot(b),lower=True, unit_diagonal=True)
+            z = linalg.solve(D,y)
+            x = linalg.solve_triangular(L.T,z,lower=False,unit_diagonal=True)
             return P.T.dot(x)
 
     def sqrt_dot(self,b,transpose=False):
@@ -688,12 +698,12 @@ class CholeskyDecomposition(SPDMatrix):
             # Degenerate matrix: 0 < C+E = P'*L*D*L'*P = W*W'
             # 
             L, D, P, D0 = self.get_factors()
-            sqrtD = np.diag(np.sqrt(np.diag(D)))
+            sqrtD = self.block_sqrt(D)
             if transpose:
                 #
                 # W'*b
                 # 
-                return sqrtD.dot(L.T.dot(P.dot(b)))
+                return sqrtD.T.dot(L.T.dot(P.dot(b)))
             else:
                 #
                 # W*b
@@ -762,18 +772,18 @@ class CholeskyDecomposition(SPDMatrix):
             #  C+E = P'*L*sqrtD*sqrtD*L'*P = W*W'
             # 
             L, D, P, D0 = self.get_factors()
-            sqrtD = np.diag(np.sqrt(np.diag(D)))
+            sqrtD = self.block_sqrt(D)
             if transpose:
                 #
                 # Solve W' x = b
                 # 
-                return P.T.dot(linalg.solve_triangular(sqrtD.dot(L.T),b,lower=False))
+                return P.T.dot(linalg.solve_triangular(L.dot(sqrtD).T,b,lower=False))
                 #return sqrtD.dot(linalg.solve_triangular(L.T,P.dot(b),lower=False))
             else:
                 #
                 # Solve Wx = b
                 # 
-                return linalg.solve_triangular(L.dot(sqrtD),P.dot(b)) 
+                return linalg.solve_triangular(L.dot(sqrtD),P.dot(b),lower=True) 
                 #return P.T.dot(linalg.solve_triangular(L,sqrtD.dot(b),lower=True))
         
         """
-- 
2.43.0


From cba41ea582f8c506a60fbedb54a66612ed64a881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:48 +0000
Subject: [PATCH 63/79] fix: SPDMatrix degeneracy and rank use the existing
 accessors

---
 src/spd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spd.py b/src/spd.py
index 3f191f2..4a7a2c1 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -113,7 +113,7 @@ class SPDMatrix(object):
         """
         assert isinstance(rank, int), 'Input "rank" should be an integer.'
         assert rank >= 0, 'Input "rank" should be non-negative.'
-        assert rank <= self.size(), 'Input "rank" should be less than or equal to the size of the matrix.'
+        assert rank <= self.get_size(), 'Input "rank" should be less than or equal to the size of the matrix.'
         self.__rank = rank
 
 
@@ -163,7 +163,7 @@ class SPDMatrix(object):
         - bool
             True if the matrix is degenerate, False otherwise.
         """
-        return self.rank() < self.size()
+        return self.get_rank() < self.get_size()
 
 
     def decompose(self):
-- 
2.43.0


From 6469ec6458559ebe291bb77534d5212f4d6d9983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:48 +0000
Subject: [PATCH 64/79] fix: EigenDecomposition accepts sparse matrices as
 documented

---
 src/spd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spd.py b/src/spd.py
index 4a7a2c1..d6206be 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -908,6 +908,8 @@ class EigenDecomposition(SPDMatrix):
             # Default lower bound
             # 
             C = self.get_matrix()
+            if self.is_sparse():
+                C = C.toarray()
             eps = np.finfo(float).eps
             delta = np.sqrt(eps)*linalg.norm(C, 'fro')
 
@@ -941,6 +943,8 @@ class EigenDecomposition(SPDMatrix):
             # 
             is_generalized = True
             M = self.get_mass_matrix()
+            if sp.issparse(M):
+                M = M.toarray()
         else:
             #
             # Standard eigendecomposition
-- 
2.43.0


From ab8c09b1c4eb6fbfe952df7ca28161ecc34dfc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:48 +0000
Subject: [PATCH 65/79] fix: square root solve of a generalized
 eigendecomposition inverts the square root product

---
 src/spd.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spd.py b/src/spd.py
index d6206be..39ce472 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -1127,11 +1127,18 @@ class EigenDecomposition(SPDMatrix):
             #
             # Solve sqrtD*V'x = b
             # 
-            return V.dot(sqrtD_inv.dot(b))
+            x = V.dot(sqrtD_inv.dot(b))
+            if self.has_mass_matrix():
+                # Inverse of V' is M*V
+                x = self.get_mass_matrix().dot(x)
+            return x
         else:
             #
             # Solve V*sqrtD x = b
             #
+            if self.has_mass_matrix():
+                # Inverse of V is V'*M
+                b = self.get_mass_matrix().dot(b)
             return sqrtD_inv.dot(np.dot(V.T, b))
 
 
-- 
2.43.0


From a39c3c5e0fcc3fa15cfcd179992a87ede4df519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:30 +0000
Subject: [PATCH 66/79] fix: Karhunen-Loeve samples use every row of the given
 white noise

---
 src/gmrf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 0f5f027..677ed3d 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1219,13 +1219,14 @@ class GaussianField(object):
         
         # Sample 
         if z is None:
-            z = np.random.normal(size=(self.size(), n_samples))
+            z = np.random.normal(size=(i_max-i_min+1, n_samples))
         else:
             assert z.shape[0] == i_max-i_min+1, \
                 'Input "z" should have the same number of rows as the random vector.'
+            n_samples = z.shape[1]
 
         # Compute samples
-        return V[:,i_min:i_max+1].dot(np.diag(np.sqrt(d[i_min:i_max+1])).dot(z[i_min:i_max+1,:])) + np.tile(mean,(1,n_samples))
+        return V[:,i_min:i_max+1].dot(np.diag(np.sqrt(d[i_min:i_max+1])).dot(z)) + np.tile(mean,(1,n_samples))
     
 
 
-- 
2.43.0


From dad3b4490c16304921fa2634f8e7cbdb1ea4c5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:05 +0000
Subject: [PATCH 67/79] fix: samples use the requested column of the mean, the
 canonical mean and the support

---
 src/gmrf.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 677ed3d..73d55d2 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1095,6 +1095,19 @@ class GaussianField(object):
             return b - Pb 
         
         
+    def embed(self, x):
+        """
+        Map coordinates with respect to the support to vectors of the field's 
+        size (vectors are unchanged if no support is specified).
+        
+        Inputs:
+        
+            x: (k,m) numpy array, k is the dimension of the support
+        """
+        V = self.support()
+        return x if V is None else V.dot(x)
+    
+    
     def size(self):
         """
         Returns the size of the random vector
@@ -1211,10 +1224,10 @@ class GaussianField(object):
 
         # Determine eigenvalue range
         if i_max is None:
-            i_max = self.size()-1
+            i_max = len(d)-1
         assert i_max >= i_min, 'Index range should be non-empty.'
         
-        assert i_min >= 0 and i_max < self.size(), \
+        assert i_min >= 0 and i_max < len(d), \
             'Indices should be within the range of the covariance matrix.'
         
         # Sample 
@@ -1226,7 +1239,7 @@ class GaussianField(object):
             n_samples = z.shape[1]
 
         # Compute samples
-        return V[:,i_min:i_max+1].dot(np.diag(np.sqrt(d[i_min:i_max+1])).dot(z)) + np.tile(mean,(1,n_samples))
+        return self.embed(V[:,i_min:i_max+1].dot(np.diag(np.sqrt(d[i_min:i_max+1])).dot(z))) + np.tile(mean,(1,n_samples))
     
 
 
@@ -1352,15 +1365,15 @@ class GaussianField(object):
             #
             # Return Lz + mean
             #
-            Lz = C.sqrt_dot(z,transpose=False)
-            return  Lz + np.tile(self.get_mean(),(1,n_samples))
+            Lz = self.embed(C.sqrt_dot(z,transpose=False))
+            return  Lz + np.tile(self.mean(m_col),(1,n_samples))
     
         elif mode=='precision':
             #
             # Return L^{-T} z + mean
             #
-            Lz = C.sqrt_solve(z,transpose=True)
-            return Lz + np.tile(self.get_mean(),(1,n_samples))
+            Lz = self.embed(C.sqrt_solve(z,transpose=True))
+            return Lz + np.tile(self.mean(m_col),(1,n_samples))
                                    
         elif mode=='canonical':
             #
@@ -1368,12 +1381,10 @@ class GaussianField(object):
             #
 
             # Compute the mean from the canonical mean
-            mean = self.get_mean()
-            if mean is None:
+            if self.get_canonical_mean() is not None:
                 self.compute_mean()
-                mean = self.get_mean()
-            Lz = C.sqrt_solve(z,transpose=True)
-            return Lz + np.tile(mean,(1,n_samples))
+            Lz = self.embed(C.sqrt_solve(z,transpose=True))
+            return Lz + np.tile(self.mean(m_col),(1,n_samples))
 
         else:
             raise Exception('Input "mode" not recognized. '+\
-- 
2.43.0


From af69e078fa990f6b615564dfe2c4fc30e4381547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:05 +0000
Subject: [PATCH 68/79] fix: restricting a field to its support keeps a usable
 covariance and works for every decomposition

---
 src/gmrf.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 73d55d2..0f2dfb6 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1040,33 +1040,34 @@ class GaussianField(object):
             # 
             cov = self.covariance()
             assert cov is not None, 'No covariance specified.'
-            #if not cov.has_eig_decomp():
-            #    cov.compute_eig_decomp(delta=0)
-            d, V = cov.get_factors()
+            if isinstance(cov, EigenDecomposition) and cov.has_mass_matrix():
+                C = cov.dot(np.identity(cov.get_size()))
+            else:
+                C = cov.get_matrix()
         elif mode=='precision':
             #
             # Use (reduced) precision matrix
             # 
             prec = self.precision()
             assert prec is not None, 'No precision specified'
-            if not prec.has_eig_decomp():
-                prec.compute_eig_decomp(delta=0)
-            d, V = prec.compute_eig_decomp()
+            C = prec.get_matrix()
         else:
             raise Exception('Input "mode" should be "covariance" or "precision"')
         
+        # Eigenvalues and -vectors (zero eigenvalues are not lifted)
+        d, V = EigenDecomposition(C, delta=0).get_factors()
+        
         # Determine non-zero eigenvalues 
         i_support = np.abs(d)>tol  
-        m = np.sum(i_support)
         
         # Compute new (diagonal) covariance/precision on reduced subspace
-        D = sp.spdiags(d[i_support], 0, m, m) 
+        D = EigenDecomposition(np.diag(d[i_support]), delta=0)
         
         # Update precision/covariance matrix
         if mode=='covariance':
-            self.__covariance = SPDMatrix(D)
+            self.__covariance = D
         elif mode=='precision':
-            self.__precision = SPDMatrix(D)
+            self.__precision = D
         
         # Define new set of support vectors
         W = self.support()
-- 
2.43.0


From 465df20e976bfbc5f4d01a1ec822842fe85d637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:05 +0000
Subject: [PATCH 69/79] fix: conditional field uses the covariance represented
 by the decomposition, in both modes

---
 src/gmrf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 0f2dfb6..5c02bab 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1520,12 +1520,15 @@ class GaussianField(object):
                 mu_cnd = mu - Vk.dot(KAT.dot(linalg.solve(AKAT,r)))
                 
                 # Conditional covariance
+                I = np.identity(Ak.shape[1])
+                if mode=='covariance':
+                    K_full = K.dot(I)
+                elif mode=='precision':
+                    K_full = Q.solve(I)
                 U = linalg.solve(AKAT, KAT.T)
-                K_cnd = K.get_matrix() - KAT.dot(U)
+                K_cnd = K_full - KAT.dot(U)
                 K_cnd = Vk.dot(K_cnd.dot(Vk.T))
                 
-                print('K_cnd', K_cnd.shape)
-                print('K_cnd', K_cnd[0:10,0:10])
                 # Define random field 
                 X = GaussianField(self.size(), mean=mu_cnd, covariance=K_cnd)
                 X.update_support()
-- 
2.43.0


From 9f2c572b597fb885f7ab0c2dbe563ef7d762fad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:38 +0000
Subject: [PATCH 70/79] fix: conditioning on noisy observations

---
 src/gmrf.py | 58 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 5c02bab..686b6fb 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1405,10 +1405,13 @@ class GaussianField(object):
                 
                 K_{x|Ax=e} = K - K*A^T*(A*K*A^T)^{-1}*A*K
             
-            - Otherwise, the conditional mean and precision are given by
+            - Otherwise, the conditional precision and canonical mean are 
+                given by
             
-                     mu_{x|e} = Q*mu + A^T Ko\e
-                     Q_{x|e}  = Q + A^T Ko\A.
+                     Q_{x|e} = Q + A^T Ko\A
+                     b_{x|e} = Q*mu + A^T Ko\e,
+                     
+                where Q = K^{-1} (a scalar Ko stands for Ko*I).
             
         The resulting field has support on a reduced vector space.  
         """
@@ -1542,53 +1545,64 @@ class GaussianField(object):
             #
             # Soft constraint
             # 
+            if Vk is None:
+                Vk = np.identity(n)
+            Ak = A.dot(Vk)
+            
+            if isinstance(Ko, Real):
+                # Uncorrelated observations
+                Ko = Ko*np.identity(A.shape[0])
             
             #
-            # Compute K*A.T and A*K*A.T
+            # Compute K*A.T and Ko + A*K*A.T
             #   
+            I = np.identity(Ak.shape[1])
             if mode=='covariance':    
-                KAT  = K.dot(A.T)
-                AKAT = A.dot(KAT)
+                KAT  = K.dot(Ak.T)
+                K_full = K.dot(I)
             elif mode=='precision':
-                KAT = Q.solve(A.T)
-                AKAT = A.dot(KAT)
+                KAT = Q.solve(Ak.T)
+                K_full = Q.solve(I)
+            S = Ko + Ak.dot(KAT)
                 
             if output=='sample':
                 #
                 # Return Kriged Sample            
                 #
-
+                
                 # Sample unconditioned field 
-                Xs = self.sample(z=z, n_samples=n_samples, mode=mode, 
-                                 decomposition=decomposition)
+                Xs = self.sample(z=z, n_samples=n_samples, mode=mode)
                 
                 # Sample e|Ax
-                eps = GaussianField(A.shape[0], mean=e, K=Ko, mode='covariance')
-                e = eps.sample(z=z, n_samples=n_samples)
+                eps = GaussianField(A.shape[0], covariance=Ko)
+                e = e + eps.sample(n_samples=Xs.shape[1])
                 
                 # Compute residual
                 r = A.dot(Xs)-e
                 
-                # Conditional covariance 
-                U = linalg.solve(Ko+AKAT,r)
-                
                 # Apply correction 
-                X = Xs - KAT.dot(U)
+                X = Xs - Vk.dot(KAT.dot(linalg.solve(S,r)))
                 
                 return X
             
             elif output=='field':
+                
                 # Conditional mean
-                mu_cnd = mu - A.T.dot(linalg.solve(Ko,e))
+                mu_cnd = mu - Vk.dot(KAT.dot(linalg.solve(S,A.dot(mu)-e)))
                 
-                # Conditional precision
-                Q_cnd = Q + A.T.dot(linalg.solve(Ko,A))
+                # Conditional covariance
+                K_cnd = K_full - KAT.dot(linalg.solve(S,KAT.T))
+                K_cnd = Vk.dot(K_cnd.dot(Vk.T))
                 
                 # Random field
-                X = GaussianField(self.size(), mean=mu_cnd, K=Q_cnd, 
-                                  mode='precision')
+                X = GaussianField(self.size(), mean=mu_cnd, covariance=K_cnd)
+                X.update_support()
                 
                 return X
+            
+            else:
+                raise Exception('Input "output" should be "sample" or "field".')
+            
         """    
         #    
         # For hard constraints, check whether constraint is possible, reduce 
-- 
2.43.0


From 71c50b37d6fa51da532df9a278543a1faa24c738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:05 +0000
Subject: [PATCH 71/79] fix: GaussianField.b and set_dependence use the
 existing accessors

---
 src/gmrf.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 686b6fb..1a97f13 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -976,23 +976,15 @@ class GaussianField(object):
         # Store as SPDMatrix
         # 
         if mode=='covariance':
-            if isinstance(K, SPDMatrix):
-                covariance = K
-            else:
-                covariance = SPDMatrix(K)
-            precision = None
+            covariance, precision = K, None
         elif mode=='precision':
-            if isinstance(K,SPDMatrix):
-                precision = K
-            else:
-                precision = SPDMatrix(K)
-            covariance = None
-        
+            covariance, precision = None, K
+            
         # Store
-        self.__precision = precision
-        self.__covariance = covariance
+        self.set_precision(precision)
+        self.set_covariance(covariance)
+        
         
- 
     def set_support(self, support):
         """
         Stores the support of the Gaussian field
@@ -1146,9 +1138,9 @@ class GaussianField(object):
         """
         Returns the vector of central tendency in canonical form
         """
-        if self.__b is None:
-            self.set_b()
-        return self.__b
+        if self.get_canonical_mean() is None:
+            self.compute_canonical_mean()
+        return self.get_canonical_mean()
 
 
     def covariance(self):
-- 
2.43.0


From 1786037a94fc01b060f1558715ce6d80eff58249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:05 +0000
Subject: [PATCH 72/79] fix: truncated Gaussian field uses the existing
 constructor

---
 src/gmrf.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 1a97f13..ab16435 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1264,17 +1264,16 @@ class GaussianField(object):
         mean = self.mean()
         
         # Truncate the eigen-decomposition
-        d, V = self.covariance().get_eig_decomp()
+        d, V = self.covariance().get_factors()
         dk = d[:level]
-        Vk = V[:,:level]
+        Vk = self.embed(V[:,:level])
         
         # Define truncated Covariance matrix
-        K = SPDMatrix(Vk.dot(np.diag(dk)).dot(Vk.T))
-        K.set_eig_decomp(dk, Vk)
+        K = Vk.dot(np.diag(dk)).dot(Vk.T)
         
         # Return Gaussian field with truncated covariance
-        tht = GaussianField(self.size(), mean=mean, K=K)
-        tht.set_support(Vk)
+        tht = GaussianField(self.size(), mean=mean, covariance=K)
+        tht.update_support()
         
         return tht
         
-- 
2.43.0


From 55a9bf70a97cd29a5d8a9c2b6b608ab06825e152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:10 +0000
Subject: [PATCH 73/79] fix: Dirichlet data given as a nodal function over the
 same dofs

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 53a0ec6..b5d2780 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3627,7 +3627,7 @@ class Assembler(object):
             #
             # Nodal function whose dofs coincide with problem dofs
             #
-            idx = dir_fn.dof2idx(dir_dofs)
+            idx = dir_fn.basis().d2i(dir_dofs)
             dir_vals = dir_fn.data()[idx,:]
         else:
             #
-- 
2.43.0


From 3575df14dea198d1da0633757b52a63ac8b48658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:45 +0000
Subject: [PATCH 74/79] fix: a new system matrix is solved with the original
 right hand side

---
 src/solver.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/solver.py b/src/solver.py
index e530a1d..4a6017e 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -107,16 +107,16 @@ class LinearSystem(object):
         subforest_flag = self.get_basis().subforest_flag()
         self.get_dofhandler().set_hanging_nodes(subforest_flag=subforest_flag)
         
-        # 
-        # Store Bilinear Form
-        # 
-        self.set_matrix(A)
-        
         #
         # Store Linear Form
         # 
         self.set_rhs(b)
         
+        # 
+        # Store Bilinear Form
+        # 
+        self.set_matrix(A)
+        
         #
         # Initialize constraint matrix
         # 
@@ -370,6 +370,10 @@ class LinearSystem(object):
         # Mark matrix as unfactored and unconstrained.              
         self.__A_is_factored = False
         self.__A_is_constrained = False
+        
+        # Right hand side may have been constrained with the previous matrix
+        self.__b = self.__b0
+        self.__b_is_constrained = False
     
     
     def get_matrix(self):
@@ -677,6 +681,9 @@ class LinearSystem(object):
             self.__b = None
         self.__b_is_constrained = False
         
+        # Keep the unconstrained right hand side
+        self.__b0 = self.__b
+        
     
     def get_rhs(self):
         """
-- 
2.43.0


From 76a029515d28ef5a6039bcae861c57a3ce5621d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:45 +0000
Subject: [PATCH 75/79] fix: Dirichlet constraints added after a solve are
 enforced

---
 src/solver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/solver.py b/src/solver.py
index 4a6017e..e2198ea 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -291,6 +291,11 @@ class LinearSystem(object):
             constraints['coefficients'].append([])
             constraints['affine_terms'].append(val)
 
+        # Constraints have changed, return to the unconstrained system
+        self.__C = None
+        self.__d = None
+        self.set_matrix(self.__A0)
+
             
     def set_constraint_relation(self):
         """
@@ -366,6 +371,7 @@ class LinearSystem(object):
         
         # Store matrix
         self.__A = A
+        self.__A0 = A
         
         # Mark matrix as unfactored and unconstrained.              
         self.__A_is_factored = False
-- 
2.43.0


From 3432ed167d70e053725b168f03b3a071f9bea029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:48 +0000
Subject: [PATCH 76/79] fix: index maps of a basis follow its sub-mesh flag

---
 src/fem.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index ed379cb..e795609 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -919,15 +919,8 @@ class Basis():
         'Input "dofhandler" should be of type "DofHandler".'
 
         self.__dofhandler = dofhandler
-        self.__subforest_flag = subforest_flag
         self.__derivative = parse_derivative_info(derivative)
-
-        dofs = self.dofs()
-        d2i = -np.ones(dofs[-1]+1, dtype=int)
-        d2i[dofs] = np.arange(len(dofs))
-
-        self.__i2d = np.array(dofs)
-        self.__d2i = d2i
+        self.set_subforest_flag(subforest_flag)
 
     '''
     def __eq__(self, other):
@@ -979,6 +972,14 @@ class Basis():
         """
         self.__subforest_flag = flag
 
+        # Index maps of the submesh
+        dofs = self.dofs()
+        d2i = -np.ones(dofs[-1]+1, dtype=int)
+        d2i[dofs] = np.arange(len(dofs))
+
+        self.__i2d = np.array(dofs)
+        self.__d2i = d2i
+
 
     def derivative(self):
         """
-- 
2.43.0


From 5c21b28401a7ab65fab059955514f0ae5ee93cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:57 +0000
Subject: [PATCH 77/79] fix: explicit functions keep their own list of rules

---
 src/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function.py b/src/function.py
index d39c9b2..be8f1c2 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1507,8 +1507,8 @@ class Explicit(Map):
             # 
             # Store functions
             #
-            self.__f = f
-            self.__parameters = parameters
+            self.__f = list(f)
+            self.__parameters = list(parameters)
                             
             
     def add_rule(self, f, parameters={}):
-- 
2.43.0


From 124445f143d0eaf4d163a23f9500ce325af0e06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:57 +0000
Subject: [PATCH 78/79] fix: nodal functions keep their own copy of the data

---
 src/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function.py b/src/function.py
index be8f1c2..fa0a659 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1705,9 +1705,9 @@ class Nodal(Map):
                 data = fn.eval((x1,x2)).reshape((n_dofs,n_dofs,n_samples))
         
         #
-        # Store data
+        # Store data (a copy: modify_data does not write to the input)
         #     
-        self.__data = data    
+        self.__data = None if data is None else data.copy()
         
         
         if self.data() is not None:
-- 
2.43.0


From 4b20727f83f16d75e4dd5df04aa39023d8f4970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:57 +0000
Subject: [PATCH 79/79] fix: modified values of integer nodal data are not
 truncated

---
 src/function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/function.py b/src/function.py
index fa0a659..1f8a23d 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1708,6 +1708,9 @@ class Nodal(Map):
         # Store data (a copy: modify_data does not write to the input)
         #     
         self.__data = None if data is None else data.copy()
+        if self.__data is not None and self.__data.dtype.kind in 'iub':
+            # Modified values need not be integers
+            self.__data = self.__data.astype(float)
         
         
         if self.data() is not None:
-- 
2.43.0

