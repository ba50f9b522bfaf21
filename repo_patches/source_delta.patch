From c5ceb0da6951bad967102131c5e35ecfb9a15cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:57 +0000
Subject: [PATCH 01/25] fix: use nodal shape functions for the serendipity
 elements HEX20 and QUAD8

The edge dofs of basix serendipity elements are integral moments, not point
values, so values at mid-edge nodes were misinterpreted (quadratic fields were
not reproduced, curved geometry was wrong).
---
 jax_am/fem/basis.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/jax_am/fem/basis.py b/jax_am/fem/basis.py
index e2de6b3..35df3d1 100644
--- a/jax_am/fem/basis.py
+++ b/jax_am/fem/basis.py
@@ -101,6 +101,21 @@ def reorder_inds(inds, re_order):
     return new_inds
 
 
+def tabulate_nodal(element, element_family, basix_ele, points):
+    """Tabulate the nodal basis (value 1 at one node, 0 at the others) and its first derivatives.
+    The edge dofs of a basix serendipity element are integral moments and not point values,
+    while mesh nodes carry point values, so that basis must be converted.
+    """
+    vals_and_grads = element.tabulate(1, points)
+    if element_family == basix.ElementFamily.serendipity:
+        vertices = basix.geometry(basix_ele)
+        edges = basix.topology(basix_ele)[1]
+        nodes = onp.vstack((vertices, onp.stack([onp.mean(vertices[edge], axis=0) for edge in edges])))
+        dofs_to_nodes = element.tabulate(0, nodes)[0, :, :, 0]
+        vals_and_grads = onp.einsum('dpiv,ij->dpjv', vals_and_grads, onp.linalg.inv(dofs_to_nodes))
+    return vals_and_grads
+
+
 def get_shape_vals_and_grads(ele_type):
     """TODO: Add comments
 
@@ -116,7 +131,7 @@ def get_shape_vals_and_grads(ele_type):
     element_family, basix_ele, basix_face_ele, gauss_order, degree, re_order = get_elements(ele_type)
     quad_points, weights = basix.make_quadrature(basix_ele, gauss_order)
     element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, quad_points)[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal(element, element_family, basix_ele, quad_points)[:, :, re_order, :]
     shape_values = vals_and_grads[0, :, :, 0]
     shape_grads_ref = onp.transpose(vals_and_grads[1:, :, :, 0], axes=(1, 2, 0))
     logger.debug(f"ele_type = {ele_type}, quad_points.shape = (num_quads, dim) = {quad_points.shape}")
@@ -177,7 +192,7 @@ def get_face_shape_vals_and_grads(ele_type):
     face_inds = reorder_inds(face_inds, re_order)
     num_faces, num_face_quads, dim = face_quad_points.shape
     element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal(element, element_family, basix_ele, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
     face_shape_vals = vals_and_grads[0, :, :, 0].reshape(num_faces, num_face_quads, -1)
     face_shape_grads_ref = vals_and_grads[1:, :, :, 0].reshape(dim, num_faces, num_face_quads, -1)
     face_shape_grads_ref = onp.transpose(face_shape_grads_ref, axes=(1, 2, 3, 0))
-- 
2.43.0


From 4783b893fee2b07b7541f5b7d40bccc8fb7b8580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:02 +0000
Subject: [PATCH 02/25] fix: retry a failed PETSc solve with GMRES

bcgsl+ilu breaks down on many small well-posed systems (ILU almost exact); the
unconverged vector was returned silently as the solution.
---
 jax_am/fem/solver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jax_am/fem/solver.py b/jax_am/fem/solver.py
index 612c069..6ee27d8 100644
--- a/jax_am/fem/solver.py
+++ b/jax_am/fem/solver.py
@@ -29,6 +29,13 @@ def petsc_solve(A, b, ksp_type, pc_type):
     x = PETSc.Vec().createSeq(len(b))
     ksp.solve(rhs, x)
 
+    if ksp.getConvergedReason() < 0:
+        # E.g., bcgsl breaks down if the ILU factorization happens to be (almost) exact.
+        logger.debug(
+            f'PETSc - {ksp_type} failed (reason {ksp.getConvergedReason()}), trying gmres')
+        ksp.setType('gmres')
+        ksp.solve(rhs, x)
+
     # Verify convergence
     y = PETSc.Vec().createSeq(len(b))
     A.mult(x, y)
-- 
2.43.0


From 9a2317341ff1600ec4e414fd7e9ead39b13c9e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:21 +0000
Subject: [PATCH 03/25] fix: return the augmented PETSc matrix for periodic
 boundary conditions

---
 jax_am/fem/solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jax_am/fem/solver.py b/jax_am/fem/solver.py
index 6ee27d8..ae0ad4f 100644
--- a/jax_am/fem/solver.py
+++ b/jax_am/fem/solver.py
@@ -571,10 +571,10 @@ def get_A_fn_and_res_aug(problem, dofs_aug, res_vec, p_num_eps, use_petsc):
 
     if use_petsc:
 
-        A = PETSc.Mat().createAIJ(size=A_sp_scipy_aug.shape,
-                                  csr=(A_sp_scipy_aug.indptr.astype(PETSc.IntType, copy=False),
-                                       A_sp_scipy_aug.indices.astype(PETSc.IntType, copy=False),
-                                       A_sp_scipy_aug.data))
+        A_aug = PETSc.Mat().createAIJ(size=A_sp_scipy_aug.shape,
+                                      csr=(A_sp_scipy_aug.indptr.astype(PETSc.IntType, copy=False),
+                                           A_sp_scipy_aug.indices.astype(PETSc.IntType, copy=False),
+                                           A_sp_scipy_aug.data))
 
         # A_aug = PETSc.Mat().createAIJ(size=A_sp_scipy_aug.shape,
         #                               csr=(A_sp_scipy_aug.indptr,
-- 
2.43.0


From e6d285036ce0469db648238bac61caefbb186ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:46 +0000
Subject: [PATCH 04/25] fix: forward-mode derivatives with respect to Dirichlet
 values are not NaN

---
 jax_am/fem/autodiff_utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jax_am/fem/autodiff_utils.py b/jax_am/fem/autodiff_utils.py
index 244207b..94f7eeb 100644
--- a/jax_am/fem/autodiff_utils.py
+++ b/jax_am/fem/autodiff_utils.py
@@ -29,7 +29,7 @@ import jax
 from jax import Array
 import numpy as onp
 # Local
-from jax_am.fem.solver import (apply_bc, get_flatten_fn, solver,
+from jax_am.fem.solver import (apply_bc, copy_bc, get_flatten_fn, solver,
                                jax_solve,
                                get_jacobi_precond, jacobi_preconditioner)
 # =============================================================================
@@ -132,10 +132,18 @@ def implicit_jvp_helper(problem, sol0: Array,
                                                          v.reshape(-1), None,
                                                          False,
                                                          precond_matrix)
+
+    def jax_solver_forward(matvec, v):
+        # The rows of Dirichlet dofs are those of an identity matrix, so the
+        # solution is known there. Starting from zero instead makes bicgstab
+        # break down if only these rows of the right-hand side are non-zero.
+        return jax_solve(problem, matvec, v.reshape(-1),
+                         copy_bc(v.reshape(-1), problem), False,
+                         precond_matrix)
     chosen_bb_solver = jax_solver_modified
     # Find adjoint value
     tangent_out = jax.lax.custom_linear_solve(backward_matvec, -1*backward_rhs,
-                                              chosen_bb_solver,
+                                              jax_solver_forward,
                                               transpose_solve=chosen_bb_solver)
     return tangent_out
 
-- 
2.43.0


From 747d91d7db7983f6d0c97a03e703b8fbbd771748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:29 +0000
Subject: [PATCH 05/25] fix: Hessian-vector products with Cauchy boundary
 conditions

---
 jax_am/fem/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_am/fem/core.py b/jax_am/fem/core.py
index 7ddcdab..dd9d03c 100644
--- a/jax_am/fem/core.py
+++ b/jax_am/fem/core.py
@@ -829,7 +829,7 @@ class FEM:
         del V, I, J
 
         if self.cauchy_bc_info is not None:
-            D_face, selected_cells = self.compute_face(cells_sol, onp, True)
+            D_face, selected_cells = self.compute_face(cells_sol, np, True)
             V_face = D_face.reshape(-1)
             inds_face = (self.vec * selected_cells[:, :, None] +
                          onp.arange(self.vec)[None, None, :]).reshape(
@@ -842,7 +842,7 @@ class FEM:
                                 axis=1).reshape(-1)
             self.I = onp.hstack((self.I, I_face))
             self.J = onp.hstack((self.J, J_face))
-            self.V = onp.hstack((self.V, V_face))
+            self.V = np.hstack((self.V, V_face))
 
         return self.compute_residual_vars_helper(sol, weak_form,
                                                  **internal_vars)
-- 
2.43.0


From 8275159c7160edee872e233af5f527f0eae7cb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:36 +0000
Subject: [PATCH 06/25] fix: solve the unsymmetric adjoint problem with bcgsl
 instead of minres

---
 jax_am/fem/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_am/fem/solver.py b/jax_am/fem/solver.py
index ae0ad4f..d5ae7e2 100644
--- a/jax_am/fem/solver.py
+++ b/jax_am/fem/solver.py
@@ -919,7 +919,8 @@ def implicit_vjp(problem, sol, params, v, use_petsc):
         #     A_transpose.zeroRows(row_inds)
         # v = assign_zeros_bc(v, problem)
 
-        adjoint = petsc_solve(A_transpose, v.reshape(-1), 'minres', 'ilu')
+        # Remark: A_transpose is not symmetric due to row elimination, so minres does not apply.
+        adjoint = petsc_solve(A_transpose, v.reshape(-1), 'bcgsl', 'ilu')
 
     else:
         adjoint_linear_fn = get_vjp_contraint_fn_dofs(sol.reshape(-1))
-- 
2.43.0


From 897a0be659fc3f4db8d8a45dfeea8f8ed41039d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:40 +0000
Subject: [PATCH 07/25] fix: tabular export in chronological order with one
 time per output file

to_data_frame took the files in directory order and advanced the time once per
field instead of once per file.
---
 jax_am/common.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/jax_am/common.py b/jax_am/common.py
index a83df28..ff1e31c 100644
--- a/jax_am/common.py
+++ b/jax_am/common.py
@@ -94,15 +94,13 @@ def to_data_frame(data_dir, dt=2 * 1e-6):
     all_data = []
     mesh = meshio.read(mesh_dir)
     mesh_df = pd.DataFrame(mesh.points, columns=["x", "y", "z"])
-    vtu_files = [f for f in os.listdir(vtk_dir) if f.endswith('.vtu')]
+    vtu_files = sorted([f for f in os.listdir(vtk_dir) if f.endswith('.vtu')])
     
     # Assuming the first file is always available and correctly formatted
     stepsave = int(vtu_files[1][-9:-4])
     print(f"Step save: {stepsave}")
     
-    i = 0
-    
-    for vtu_file in vtu_files:
+    for i, vtu_file in enumerate(vtu_files):
         time_value = round(i * stepsave * dt, 8)
         time = pd.Series(onp.full(len(mesh_df), time_value))
         vtu_path = os.path.join(vtk_dir, vtu_file)
@@ -120,8 +118,7 @@ def to_data_frame(data_dir, dt=2 * 1e-6):
                     for idx in onp.ndindex(data.shape[1:]):
                         flattened_name = f"{name}_{'_'.join(map(str, idx))}"
                         data_dict[flattened_name] = data[(slice(None),) + idx]
-                i += 1
-                
+
             all_data.append(pd.DataFrame(data_dict))
     
     DF = pd.concat(all_data, ignore_index=True)
-- 
2.43.0


From 9dff4f4b88ec5e563cdfa36224b46af8535b76a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:43 +0000
Subject: [PATCH 08/25] fix: face values along the z axis
 (get_face_vel_component)

---
 jax_am/cfd/cfd_am.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 3c97e60..755f95c 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -133,10 +133,10 @@ def get_face_vel_component(vel, dX, axis=0, BCs=None):
 
     if axis == 2:
         w = np.concatenate(
-            (vel_gc[4], vel, vel_gc),
+            (vel_gc[4], vel, vel_gc[5]),
             axis=2)
         w_f = (w[:, :, 1:] + w[:, :, :-1]) / 2
-        return v_f
+        return w_f
 
 
 class AM_3d():
-- 
2.43.0


From dcb4e29f28c7b9597eb9d7e8b070ccf2551ca14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:43 +0000
Subject: [PATCH 09/25] fix: gradient() uses the boundary conditions it is
 given

---
 jax_am/cfd/cfd_am.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 755f95c..5fea4eb 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -82,7 +82,7 @@ def div(f, vel_f, dX, theta=0.125, BCs=None):
 def gradient(f, dX, BCs=None):
     if BCs == None:
         BCs = [[1, 1, 1, 1, 1, 1], [0., 0., 0., 0., 0., 0.]]
-    f_gc = get_GC_values(f, [[1, 1, 1, 1, 1, 1], [0., 0., 0., 0., 0., 0.]], dX)
+    f_gc = get_GC_values(f, BCs, dX)
     return np.concatenate(((np.diff(f, axis=0, append=f_gc[1]) +
                             np.diff(f, axis=0, prepend=f_gc[0])) / dX[0] / 2.,
                            (np.diff(f, axis=1, append=f_gc[3]) +
-- 
2.43.0


From a4177066da82a20f37b2decd85bb9d98daf6c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:59 +0000
Subject: [PATCH 10/25] fix: relative solve on 2-D meshes

---
 jax_am/cfd/cfd_am.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 5fea4eb..7b33ec0 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -755,7 +755,7 @@ def solver_linear(eqn,*args,tol=1e-6,precond=False,update=True,relative=False):
         eqn.newton_update(dofs,*args)
 
     if relative:
-        eqn.values = eqn.values.at[0].set(np.array([1., 0., 0., 0., 0., 0., 0.]))
+        eqn.values = eqn.values.at[0].set(0.).at[0, 0].set(1.)
 
 
     A_fn = eqn.compute_linearized_residual
-- 
2.43.0


From db67aa4500f7123a87902533559dda8add7a70b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:36 +0000
Subject: [PATCH 11/25] fix: solver steps leave the mesh they were given usable

update() assigned the traced connectivity to the (shared) mesh object and left
it there, so building another solver on that mesh failed with a leaked tracer.
---
 jax_am/cfd/cfd_am.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 7b33ec0..8a34cfe 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -514,6 +514,7 @@ class energy_eqn():
 
     @partial(jax.jit, static_argnums=(0))
     def update(self, T0, conv_T0, Q, bc_args, cell_conn):
+        mesh_cell_conn = self.step.msh.cell_conn
         self.step.msh.cell_conn = cell_conn
         self.update_BCs(bc_args)
         T, it = solver_nonlinear(self.step,
@@ -522,6 +523,8 @@ class energy_eqn():
                                  Q.flatten(),
                                  init=T0.flatten(),
                                  precond=True)
+        # do not leave a tracer in the mesh, which may be used by others
+        self.step.msh.cell_conn = mesh_cell_conn
         return T.reshape(T0.shape), self.BCs, it
 
 
@@ -555,6 +558,7 @@ class velocity_eqn():
 
     @partial(jax.jit, static_argnums=(0))
     def update(self, vel0, conv0, grad_p0, fl, bc_args, cell_conn):
+        mesh_cell_conn = self.step.msh.cell_conn
         self.step.msh.cell_conn = cell_conn
         # prediction step
         vel = []
@@ -583,6 +587,8 @@ class velocity_eqn():
                           tol=1e-10,
                           update=False,
                           precond=False)
+        # do not leave a tracer in the mesh, which may be used by others
+        self.step.msh.cell_conn = mesh_cell_conn
 
         p = p.reshape(self.step.msh.shape + [1])
         vel = vel - self.dt * gradient(p, self.step.msh.dX) / self.rho
-- 
2.43.0


From 09079384a5fecd8367a61c35bdaf3fd53316e4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:00 +0000
Subject: [PATCH 12/25] fix: Dirichlet temperature boundaries in the energy
 equation

nonlinear='True' never equals True, so the boundary terms looked for a constant mu.
---
 jax_am/cfd/cfd_am.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 8a34cfe..1bad6e1 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -500,7 +500,7 @@ class energy_eqn():
             T0) / args['dt'] - args['rho'] * cp_fn(T0) * conv + Q
         mu_fn = lambda T: args['k'](T)
         self.step = poisson(mesh=args['mesh'],
-                            nonlinear='True',
+                            nonlinear=True,
                             mu_fn=mu_fn,
                             source_fn=fn)
         self.bc_fn = None
-- 
2.43.0


From 67952e3ff2fdfdd0871f50ac5a8ce9007531989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:51 +0000
Subject: [PATCH 13/25] fix: body heat source after the laser is switched off

The penetration depth was computed from the current power, so it became 0/0
(ZeroDivisionError) as soon as the laser was off.
---
 jax_am/cfd/cfd_am.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 1bad6e1..a9c97e8 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -224,7 +224,7 @@ class AM_3d():
         def Gaussian_cylinder(xl, yl, zl, P, xc, yc, zc):
             eta = self.args['eta']
             r = self.args['rb']
-            d = self.args['phi'] * P / self.args['speed'] / self.args['rb']**2
+            d = self.args['phi'] * self.args['P'] / self.args['speed'] / self.args['rb']**2
             Q_laser = 2 * P * eta / d / np.pi / r**2 * np.exp(-2 * (
                 (xc - xl)**2 + (yc - yl)**2) / r**2)
             Q_laser = Q_laser * ((zl - zc) <= d)
-- 
2.43.0


From 87973c610b107c768e8dbbaf99fbc801b571021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:32 +0000
Subject: [PATCH 14/25] fix: dynamic_relax_solve starts from a defined state,
 advances its velocity and can be called

The start vector was never defined, printInfo was called without its last two
arguments, the CSR indices had a type PETSc rejects, and the velocity update was
commented out, so no input could ever be relaxed.
---
 jax_am/fem/solver.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jax_am/fem/solver.py b/jax_am/fem/solver.py
index d5ae7e2..4977b76 100644
--- a/jax_am/fem/solver.py
+++ b/jax_am/fem/solver.py
@@ -673,7 +673,8 @@ def assembleCSR(problem, dofs):
         shape=(problem.num_total_dofs, problem.num_total_dofs))
 
     A = PETSc.Mat().createAIJ(size=A_sp_scipy.shape,
-                              csr=(A_sp_scipy.indptr, A_sp_scipy.indices,
+                              csr=(A_sp_scipy.indptr.astype(PETSc.IntType),
+                                   A_sp_scipy.indices.astype(PETSc.IntType),
                                    A_sp_scipy.data))
     for i in range(len(problem.node_inds_list)):
         row_inds = onp.array(problem.node_inds_list[i] * problem.vec +
@@ -729,6 +730,9 @@ def dynamic_relax_solve(problem, tol=1e-6, nKMat=1000, nPrint=500, info=True, in
     There is a FEniCS version of this dynamic relaxation algorithm.
     The code below is a direct translation from the FEniCS version.
     """
+    sol_shape = (problem.num_total_nodes, problem.vec)
+    dofs = np.zeros(problem.num_total_dofs)
+
     def newton_update_helper(dofs):
         res_vec = problem.newton_update(dofs.reshape(sol_shape)).reshape(-1)
         res_vec = apply_bc_vec(res_vec, dofs, problem)
@@ -814,13 +818,13 @@ def dynamic_relax_solve(problem, tol=1e-6, nKMat=1000, nPrint=500, info=True, in
                 onp.absolute(KCSR).sum(axis=1)).squeeze()
 
         #compute new velocities and accelerations
-        # qdot_old[:] = qdot[:]; qdotdot_old[:] = qdotdot[:];
-        # qdot = (2.- c*h)/(2 + c*h) * qdot_old - 2.*h/(2.+c*h)* R / M
-        qdot_old[:] = qdot[:]
+        qdot_old[:] = qdot[:]; qdotdot_old[:] = qdotdot[:]
+        qdot = (2.- c*h)/(2 + c*h) * qdot_old - 2.*h/(2.+c*h)* R / M
         qdotdot = qdot - qdot_old
 
         # output on screen
-        printInfo(error, t, c, tol, eps, qdot, qdotdot, nIters, nPrint)
+        printInfo(error, t, c, tol, eps, qdot, qdotdot, nIters, nPrint,
+                  info_force, info)
 
     # check if converged
     convergence = True
-- 
2.43.0


From 22e97eb6ea1afea6b9c93f93d69c21ba5c76539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:42 +0000
Subject: [PATCH 15/25] fix: Cauchy boundary faces can be found while the
 residual is being traced

dynamic_relax_solve jits the residual, which raised TracerArrayConversionError
for every problem with Cauchy boundary conditions.
---
 jax_am/fem/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_am/fem/core.py b/jax_am/fem/core.py
index dd9d03c..eaf1884 100644
--- a/jax_am/fem/core.py
+++ b/jax_am/fem/core.py
@@ -379,7 +379,9 @@ class FEM:
                 return onp.all(boundary_flag)
 
             vvmap_on_boundary = jax.vmap(jax.vmap(on_boundary))
-            boundary_flags = vvmap_on_boundary(cell_face_points)
+            # Which faces are selected depends on the mesh only, also when the caller is being traced
+            with jax.ensure_compile_time_eval():
+                boundary_flags = vvmap_on_boundary(cell_face_points)
             boundary_inds = onp.argwhere(
                 boundary_flags)  # (num_selected_faces, 2)
             boundary_inds_list.append(boundary_inds)
-- 
2.43.0


From c44bb244d73437696bff8d3066fe3cdc8daf922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:57 +0000
Subject: [PATCH 16/25] fix: density filter takes all elements within its
 radius

The k-d tree was queried for the 20 nearest elements: with fewer than 20 designable
elements it raised IndexError, with more than 20 inside the radius (tetrahedra,
stretched cells) the cone was cut off.
---
 jax_am/fem/mma.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jax_am/fem/mma.py b/jax_am/fem/mma.py
index 2b6782c..b505928 100644
--- a/jax_am/fem/mma.py
+++ b/jax_am/fem/mma.py
@@ -39,12 +39,12 @@ def compute_filter_kd_tree(problem):
     J = []
     V = []
     for i in range(flex_num_cells):
-        num_nbs = 20
-        dd, ii = kd_tree.query(flex_cell_centroids[i], num_nbs)
+        ii = kd_tree.query_ball_point(flex_cell_centroids[i], rmin)
         neighbors = np.take(flex_cell_centroids, ii, axis=0)
+        dd = np.linalg.norm(neighbors - flex_cell_centroids[i], axis=-1)
         vals = np.where(rmin - dd > 0., rmin - dd, 0.)
-        I += [i]*num_nbs
-        J += ii.tolist()
+        I += [i]*len(ii)
+        J += ii
         V += vals.tolist()
     H_sp = scipy.sparse.csc_array((V, (I, J)), shape=(flex_num_cells, flex_num_cells))
 
-- 
2.43.0


From 1079ebaef3e8d8553744f503b160e01d5f6db480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:28 +0000
Subject: [PATCH 17/25] fix: jax_array_list_to_numpy_diff stacks arrays of
 unequal length

---
 jax_am/fem/autodiff_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/fem/autodiff_utils.py b/jax_am/fem/autodiff_utils.py
index 94f7eeb..602e562 100644
--- a/jax_am/fem/autodiff_utils.py
+++ b/jax_am/fem/autodiff_utils.py
@@ -170,7 +170,7 @@ def jax_array_list_to_numpy_diff(jax_array_list:
 
     def _numpy_vstack(x): return onp.vstack(x).astype(x[0].dtype)
     out_shape = list(jax_array_list[0].shape)
-    out_shape[0] *= len(jax_array_list)
+    out_shape[0] = sum(array.shape[0] for array in jax_array_list)
     output_shape_type = jax.ShapeDtypeStruct(shape=tuple(out_shape),
                                              dtype=jax_array_list[0].dtype)
     # Convert jax array to numpy array
-- 
2.43.0


From a26dcee7d842eaf27c6534d2ea90f822191b0784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:56 +0000
Subject: [PATCH 18/25] fix: match each periodic point with the nearest one
 only

On meshes finer than EPS several points of side B were taken, and setting up
the problem failed.
---
 jax_am/fem/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jax_am/fem/core.py b/jax_am/fem/core.py
index eaf1884..cd7e00d 100644
--- a/jax_am/fem/core.py
+++ b/jax_am/fem/core.py
@@ -333,9 +333,10 @@ class FEM:
                     dist = onp.linalg.norm(mappings[i](point_A)[None, :] -
                                            points_set_B,
                                            axis=-1)
-                    node_ind_B_ordered = node_inds_B[onp.argwhere(
-                        dist < EPS)].reshape(-1)
-                    node_inds_B_ordered.append(node_ind_B_ordered)
+                    # Only the nearest point can be the image: on a fine mesh several lie within EPS
+                    nearest = onp.argmin(dist)
+                    assert dist[nearest] < EPS
+                    node_inds_B_ordered.append(node_inds_B[nearest])
 
                 node_inds_B_ordered = onp.array(node_inds_B_ordered).reshape(
                     -1)
-- 
2.43.0


From a8bad7ed12aec835b4abfac4bf1c7db4dc80e10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:56 +0000
Subject: [PATCH 19/25] fix: build-up thermal model with a single boundary part

update_int_vars assumed two Neumann parts, so problems with the laser off raised IndexError.
---
 applications/fem/thermal/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/applications/fem/thermal/models.py b/applications/fem/thermal/models.py
index 44c04e4..b82641e 100644
--- a/applications/fem/thermal/models.py
+++ b/applications/fem/thermal/models.py
@@ -35,9 +35,9 @@ class Thermal(FEM):
         return self.get_mass_map()
 
     def update_int_vars(self, old_sol):
-        surface_old_sol_top = self.convert_neumann_from_dof(old_sol, 0)
-        surface_old_sol_walls = self.convert_neumann_from_dof(old_sol, 1)
-        self.internal_vars['neumann'] = [[surface_old_sol_top], [surface_old_sol_walls]]
+        # One entry per boundary part: walls, and the top if the laser is on
+        self.internal_vars['neumann'] = [[self.convert_neumann_from_dof(old_sol, i)] 
+                                         for i in range(len(self.neumann_boundary_inds_list))]
         self.internal_vars['body'] = old_sol
 
     def update_Neumann_boundary_inds(self):
-- 
2.43.0


From be831324803f5ae05de495a7bc604c9833097a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:56 +0000
Subject: [PATCH 20/25] fix: density filter of the application takes all
 elements within its radius

---
 applications/fem/top_opt/mma.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/applications/fem/top_opt/mma.py b/applications/fem/top_opt/mma.py
index 0820642..ab8d1fb 100644
--- a/applications/fem/top_opt/mma.py
+++ b/applications/fem/top_opt/mma.py
@@ -42,12 +42,12 @@ def compute_filter_kd_tree(problem):
     J = []
     V = []
     for i in range(flex_num_cells):
-        num_nbs = 20
-        dd, ii = kd_tree.query(flex_cell_centroids[i], num_nbs)
+        ii = kd_tree.query_ball_point(flex_cell_centroids[i], rmin)
         neighbors = np.take(flex_cell_centroids, ii, axis=0)
+        dd = np.linalg.norm(neighbors - flex_cell_centroids[i], axis=-1)
         vals = np.where(rmin - dd > 0., rmin - dd, 0.)
-        I += [i]*num_nbs
-        J += ii.tolist()
+        I += [i]*len(ii)
+        J += ii
         V += vals.tolist()
     H_sp = scipy.sparse.csc_array((V, (I, J)), shape=(flex_num_cells, flex_num_cells))
     # TODO: No need to create the full matrix. 
-- 
2.43.0


From a962de1f5570ebe1b81f418c8837f40ee2850383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:56 +0000
Subject: [PATCH 21/25] fix: save_sol accepts a file name without directory

---
 jax_am/fem/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_am/fem/utils.py b/jax_am/fem/utils.py
index 6df0819..b0205a2 100644
--- a/jax_am/fem/utils.py
+++ b/jax_am/fem/utils.py
@@ -8,7 +8,8 @@ from jax_am.fem.generate_mesh import get_meshio_cell_type
 def save_sol(problem, sol, sol_file, cell_infos=None, point_infos=None):
     cell_type = get_meshio_cell_type(problem.ele_type)
     sol_dir = os.path.dirname(sol_file)
-    os.makedirs(sol_dir, exist_ok=True)
+    if sol_dir:
+        os.makedirs(sol_dir, exist_ok=True)
     out_mesh = meshio.Mesh(points=problem.points, cells={cell_type: problem.cells})
     out_mesh.point_data['sol'] = onp.array(sol, dtype=onp.float32)
     if cell_infos is not None:
-- 
2.43.0


From d81392da0e61aa04b8015056d57ee06102579f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:55 +0000
Subject: [PATCH 22/25] fix: finite derivatives of the plasticity model at
 stress-free points

---
 applications/fem/top_opt/plasticity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/applications/fem/top_opt/plasticity.py b/applications/fem/top_opt/plasticity.py
index 975d835..ceb9fec 100644
--- a/applications/fem/top_opt/plasticity.py
+++ b/applications/fem/top_opt/plasticity.py
@@ -29,12 +29,13 @@ class Plasticity(Elasticity):
         return stress_return_map
 
     def get_maps(self):
+        # The inner np.where keeps reverse-mode derivatives finite at stress-free points
         def safe_sqrt(x):  
-            safe_x = np.where(x > 0., np.sqrt(x), 0.)
+            safe_x = np.where(x > 0., np.sqrt(np.where(x > 0., x, 1.)), 0.)
             return safe_x
 
         def safe_divide(x, y):
-            return np.where(y == 0., 0., x/y)
+            return np.where(y == 0., 0., x/np.where(y == 0., 1., y))
 
         def strain(u_grad):
             epsilon = 0.5*(u_grad + u_grad.T)
-- 
2.43.0


From 8d9df247d87f8e1b84f27989d6fe7f5a88dcf199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:55 +0000
Subject: [PATCH 23/25] fix: derivative of tensor functions at eigenvalues
 repeated up to round-off

---
 demos/fem/phase_field_fracture/eigen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/demos/fem/phase_field_fracture/eigen.py b/demos/fem/phase_field_fracture/eigen.py
index 36a3ba3..833f64e 100644
--- a/demos/fem/phase_field_fracture/eigen.py
+++ b/demos/fem/phase_field_fracture/eigen.py
@@ -57,9 +57,11 @@ def get_eigen_f_custom(fn):
 
         diff_evals = evals[:, None] - evals[None, :]
         diff_fvals = fvals[:, None] - fvals[None, :]
-        diff_grads = grads[:, None]
+        mean_grads = 0.5*(grads[:, None] + grads[None, :])
 
-        theta = np.where(diff_evals == 0., diff_grads, diff_fvals/diff_evals)
+        # Repeated eigenvalues are found only up to round-off: do not divide by their difference
+        repeated = np.abs(diff_evals) <= 1e-8*np.max(np.abs(evals))
+        theta = np.where(repeated, mean_grads, diff_fvals/np.where(repeated, 1., diff_evals))
 
         tmp = G * theta[:, :, None, None, None, None]
         tmp1 = np.sum(tmp, axis=(0, 1))
-- 
2.43.0


From 33a3d3416d5ebfc26a8d6cef3a29aaa28b665017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:55 +0000
Subject: [PATCH 24/25] fix: coupled driver interpolates between the right
 temperature states after the first step

---
 applications/phase_field/coupled/example.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/phase_field/coupled/example.py b/applications/phase_field/coupled/example.py
index 80f2ba2..380dfd5 100644
--- a/applications/phase_field/coupled/example.py
+++ b/applications/phase_field/coupled/example.py
@@ -94,8 +94,8 @@ def coupled_integrator():
     pf_solver.write_sols(pf_sol0, T_pf, 0)
 
     for (i, t_pf) in enumerate(pf_ts[1:]):
-        # Assume that t_cfd < t_pf <= t_cfd + cfd_args['dt']
-        if t_pf > t_cfd + cfd_args['dt']:
+        # T_past and T_future belong to t_cfd - cfd_args['dt'] and t_cfd, keep t_pf in between
+        if t_pf > t_cfd:
             walltime()(cfd_solver.time_integration)()
             T_past = T_future
             T_future = cfd_solver.T[:,:,:,0]
-- 
2.43.0


From 8d88b4527d3369befc1e2846b94889fa9a67330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:55 +0000
Subject: [PATCH 25/25] fix: interface normal of the anisotropic phase field on
 non-cubic cells

---
 jax_am/phase_field/allen_cahn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/phase_field/allen_cahn.py b/jax_am/phase_field/allen_cahn.py
index 3e313aa..723a74e 100644
--- a/jax_am/phase_field/allen_cahn.py
+++ b/jax_am/phase_field/allen_cahn.py
@@ -66,7 +66,7 @@ def phase_field(polycrystal, pf_args):
         eta_pos_z = np.concatenate((eta_xyz[1:, :, :, :], eta_xyz[-1:, :, :, :]), axis=0)
 
         if pf_args['anisotropy'] > 0.:
-            aniso = update_anisotropy_helper(np.stack((eta_pos_x - eta_neg_x, eta_pos_y - eta_neg_y, eta_pos_z - eta_neg_z), axis=-1))[..., None]
+            aniso = update_anisotropy_helper(np.stack(((eta_pos_x - eta_neg_x)/h_x, (eta_pos_y - eta_neg_y)/h_y, (eta_pos_z - eta_neg_z)/h_z), axis=-1))[..., None]
             print("End of compute_anisotropy...")
         else:
             aniso = 1.
-- 
2.43.0

