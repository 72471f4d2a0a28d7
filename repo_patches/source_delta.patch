From 08b18b1a7125c400a9c3486c7c80e0465162f2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 01/42] fix: pad particle-node offsets to 3D for 1D mappings

---
 hydraxmpm/shapefunctions/mapping.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hydraxmpm/shapefunctions/mapping.py b/hydraxmpm/shapefunctions/mapping.py
index ee63ae5..3323e91 100644
--- a/hydraxmpm/shapefunctions/mapping.py
+++ b/hydraxmpm/shapefunctions/mapping.py
@@ -203,11 +203,10 @@ class ShapeFunctionMapping(eqx.Module):
             val = jnp.where(is_valid, val, 0.0)
             grad = jnp.where(is_valid, grad, 0.0)
 
-            # pad gradients/dist to 3D if needed, in case of 2D simulation
-            if self.dim == 2:
-                # grad is padded inside _shapefunction_call
-                # TODO move outside?
-                dist_vec = jnp.concatenate([dist_vec, jnp.array([0.0])])
+            # pad gradients/dist to 3D if needed, in case of 1D/2D simulation
+            # grad is padded inside _shapefunction_call
+            # TODO move outside?
+            dist_vec = jnp.pad(dist_vec, self._padding)
 
             return node_hash, val, grad, dist_vec
 
-- 
2.43.0


From 2eaa6daeb416210c1124b2f1f3a901260535aa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 02/42] fix: create grids that reach the declared end despite
 round-off or partial cells

---
 hydraxmpm/grid/grid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/grid/grid.py b/hydraxmpm/grid/grid.py
index 248473a..9583118 100644
--- a/hydraxmpm/grid/grid.py
+++ b/hydraxmpm/grid/grid.py
@@ -9,6 +9,8 @@ Explanation:
     This module contains the `GridState` class which contains the state of the computational grid.
 """
 
+import math
+
 import jax.numpy as jnp
 
 from jaxtyping import Array, Float, UInt
@@ -60,9 +62,11 @@ class GridDomain(eqx.Module):
         padded_origin = tuple(o - padding * cell_size for o in origin)
         padded_end = tuple(e + padding * cell_size for e in end)
 
-        # number of cells in each dimens (M_x,M_y) for 2D, (M_x,M_y,M_z) for 3D
+        # number of nodes in each dimension (M_x,M_y) for 2D, (M_x,M_y,M_z) for 3D
+        # round up so that the last node is never before the (padded) end, with a
+        # small tolerance so that round-off in the division does not change the count
         raw_size = [(e - o) / cell_size for e, o in zip(padded_end, padded_origin)]
-        grid_size = tuple(int(s + 1) for s in raw_size)
+        grid_size = tuple(math.ceil(s - 1e-4) + 1 for s in raw_size)
 
 
         return cls(
-- 
2.43.0


From ed82cd364ba3336d95f81af0bdf1afb25a1cb5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 03/42] fix: accumulate grid forces of bodies that share a grid

---
 hydraxmpm/solvers/usl.py        | 7 +++----
 hydraxmpm/solvers/usl_asflip.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index c5ccdfb..9860b23 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -492,10 +492,9 @@ class USLSolver(BaseSolver):
                 weighted_moment_stack
             )
 
-            grid_force_stack = (
-                jnp.zeros_like(grid_cache.moment_stack)
-                .at[intr_cache.node_hashes]
-                .add(weighted_intern_force_stack + weighted_ext_force_stack)
+            # accumulate, as several bodies can share this grid
+            grid_force_stack = grid_cache.force_stack.at[intr_cache.node_hashes].add(
+                weighted_intern_force_stack + weighted_ext_force_stack
             )
 
             grids[c.g_idx] = eqx.tree_at(
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 26e61c1..5b635d0 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -266,10 +266,9 @@ class USLAFLIP(USLSolver):
             grid_moment_stack = grid_cache.moment_stack.at[intr_cache.node_hashes].add(
                 weighted_moment_stack
             )
-            grid_force_stack = (
-                jnp.zeros_like(grid_cache.moment_stack)
-                .at[intr_cache.node_hashes]
-                .add(total_intr_force)
+            # accumulate, as several bodies can share this grid
+            grid_force_stack = grid_cache.force_stack.at[intr_cache.node_hashes].add(
+                total_intr_force
             )
 
             grids[c.g_idx] = eqx.tree_at(
-- 
2.43.0


From b8398ad2f48a3f0ab29e1d539f14c741f06a1e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 04/42] fix: make the classic APIC update of USLAFLIP run and
 compression positive

---
 hydraxmpm/solvers/usl_asflip.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 5b635d0..f0d3bae 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -408,7 +408,8 @@ class USLAFLIP(USLSolver):
                 dist_vec_phys = -1.0 * intr_cache.rel_dist *grid_domain.cell_size
 
                 # shape_vals (N,) * outer(v (N,3), dist (N,3)) -> (N,3,3)
-                weighted_Bp_term = intr_cache.shape_vals[:, None, None] * jnp.einsum(
+                # compression positive, same as in the MLS update
+                weighted_Bp_term = -intr_cache.shape_vals[:, None, None] * jnp.einsum(
                     "ni,nj->nij", intr_vels_nt_3d, dist_vec_phys
                 )
 
@@ -443,7 +444,7 @@ class USLAFLIP(USLSolver):
             else:
                 # classic APIC needs the inverse of Dp, where
                 # Dp = 1/4 * dx^2 * I (Quadratic) or 1/3 * dx^2 * I (Cubic)
-                if c.shapefunction == "cubic":
+                if c.shape_map.shapefunction == "cubic":
                     coeff = 1.0 / 3.0
                 else:
                     coeff = 1.0 / 4.0
-- 
2.43.0


From 74beb79a6bd921a631950051078ca96be20f1742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 05/42] fix: USL velocity gradient was transposed (rows are
 velocity components)

---
 hydraxmpm/solvers/usl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index 9860b23..3b3f7aa 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -669,7 +669,7 @@ class USLSolver(BaseSolver):
             # As L_ij = v_i * grad_j
             # compression positive convention for L, 
             weighted_L = jnp.einsum(
-                "ij,ik->ijk", intr_cache.shape_grads, -intr_vels_nt_3d
+                "ij,ik->ijk", -intr_vels_nt_3d, intr_cache.shape_grads
             )
 
   
-- 
2.43.0


From 30e96be6b3a93265bb4f27c2eee79e2ca5699f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 06/42] fix: shear reset keeps unit out-of-plane stretch in 2D
 and the stored deformation history

---
 hydraxmpm/constitutive_laws/constitutive_law.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/constitutive_law.py b/hydraxmpm/constitutive_laws/constitutive_law.py
index 9fda52c..7b6458f 100644
--- a/hydraxmpm/constitutive_laws/constitutive_law.py
+++ b/hydraxmpm/constitutive_laws/constitutive_law.py
@@ -42,7 +42,7 @@ class ConstitutiveLaw(eqx.Module):
             if dim == 2:
 
                 scale = jnp.sqrt(J)
-                return jnp.diag(jnp.array([scale, scale, 0.0]))
+                return jnp.diag(jnp.array([scale, scale, 1.0]))
             else:
                 # 3D cbar element-wise cube root
                 scale = jnp.cbrt(J)
@@ -51,12 +51,5 @@ class ConstitutiveLaw(eqx.Module):
 
         new_F_stack = jax.vmap(compute_cbar)(mp_state.F_stack)
 
-        if mp_state.F_store_stack is not None:
-            new_F_store_stack = mp_state.F_stack
-        else:
-            new_F_store_stack = None
-
-        new_mp = eqx.tree_at(lambda m: (m.F_stack,m.F_store_stack), mp_state, (new_F_stack, new_F_store_stack))
-
-
-        return new_mp
+        # the stored deformation (F_store_stack) keeps its shear history
+        return eqx.tree_at(lambda m: m.F_stack, mp_state, new_F_stack)
-- 
2.43.0


From ac29e44f13beaea7c2ce3d4583922c3318b5d760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 07/42] fix: keep particle array shapes when a body has a
 single material point

---
 hydraxmpm/solvers/usl.py        | 8 ++++----
 hydraxmpm/solvers/usl_asflip.py | 4 +---
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index 3b3f7aa..bd2765d 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -268,7 +268,7 @@ class USLSolver(BaseSolver):
                 )
 
                 # C. Accumulate Union (For CPIC)
-                is_in = jax.nn.sigmoid(-dists * self.sdf_mp_sharpness).squeeze()
+                is_in = jax.nn.sigmoid(-dists * self.sdf_mp_sharpness)
                 union_mask = jnp.maximum(union_mask, is_in)
 
             grid_union_masks[g_idx] = union_mask
@@ -350,7 +350,7 @@ class USLSolver(BaseSolver):
                 d_mid = sdf_logic.get_signed_distance_stack(
                     sdf_state, midpoint_pos_stack
                 )
-                is_in = jax.nn.sigmoid(-d_mid * self.sdf_mp_sharpness).squeeze()
+                is_in = jax.nn.sigmoid(-d_mid * self.sdf_mp_sharpness)
 
                 mid_in_mask_flat = jnp.maximum(mid_in_mask_flat, is_in)
 
@@ -615,7 +615,7 @@ class USLSolver(BaseSolver):
                 # Find Closest SDF for each Particle (Particle Space)
                 dists_stack = jnp.stack(
                     [
-                        sim_cache.mp_geoms[(c.p_idx, s)].dists.squeeze()
+                        sim_cache.mp_geoms[(c.p_idx, s)].dists
                         for s in range(num_sdfs)
                     ]
                 )
@@ -713,7 +713,7 @@ class USLSolver(BaseSolver):
                 p_F_next = p_F_next.at[:, 2, 2].set(1.0)
 
             J = jnp.linalg.det(p_F_next)
-            p_volume_next = (J[:, None] * mp_state.volume0_stack[:, None]).squeeze()
+            p_volume_next = J * mp_state.volume0_stack
             mp_state = eqx.tree_at(
                 lambda s: (
                     s.velocity_stack,
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index f0d3bae..afc5145 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -507,9 +507,7 @@ class USLAFLIP(USLSolver):
 
             J_next = jnp.linalg.det(p_F_next)
 
-            p_volume_next = (
-                J_next[:, None] * mp_state.volume0_stack[:, None]
-            ).squeeze()
+            p_volume_next = J_next * mp_state.volume0_stack
 
             # Separable correction to avoid avoid positional trap
             # Use a mix of PIC and FLIP specifically for position to avoid noise
-- 
2.43.0


From 4b2bcd74aef30cbd87b13cd2150761112ccc34cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 08/42] fix: USL accumulates the stored deformation gradient
 like USLAFLIP

---
 hydraxmpm/solvers/usl.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index bd2765d..ceedfb9 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -709,6 +709,14 @@ class USLSolver(BaseSolver):
             F_inc = I - p_L * dt
             p_F_next = jnp.einsum("ijk,ikl->ijl", F_inc, mp_state.F_stack)
 
+            # total deformation, never reset by the constitutive law
+            if mp_state.F_store_stack is not None:
+                p_F_store_next = jnp.einsum(
+                    "ijk,ikl->ijl", F_inc, mp_state.F_store_stack
+                )
+            else:
+                p_F_store_next = None
+
             if grid_cache.dim == 2:
                 p_F_next = p_F_next.at[:, 2, 2].set(1.0)
 
@@ -721,9 +729,17 @@ class USLSolver(BaseSolver):
                     s.volume_stack,
                     s.F_stack,
                     s.L_stack,
+                    s.F_store_stack,
                 ),
                 mp_state,
-                (p_velocity_next, p_position_next, p_volume_next, p_F_next, p_L),
+                (
+                    p_velocity_next,
+                    p_position_next,
+                    p_volume_next,
+                    p_F_next,
+                    p_L,
+                    p_F_store_next,
+                ),
             )
             mp_states[c.p_idx] = mp_state
 
-- 
2.43.0


From 502e9509be5028d75b9c513fa05c1050b16480a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 09/42] fix: gravity on particles stored the result under a
 non-existent index

---
 hydraxmpm/forces/gravity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/forces/gravity.py b/hydraxmpm/forces/gravity.py
index 38a2af0..8821397 100644
--- a/hydraxmpm/forces/gravity.py
+++ b/hydraxmpm/forces/gravity.py
@@ -164,7 +164,7 @@ class Gravity(Force):
                 (mp_state.force_stack + gravity_impulse),
             )
 
-            mp_states[self.p_idx] = mp_state
+            mp_states[p_idx] = mp_state
 
         f_states[self.f_idx] = f_state
 
-- 
2.43.0


From f7825ac921fd214a0b87813930ca978227e68502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 10/42] fix: forces applied on particles skip rigid bodies

---
 hydraxmpm/forces/damping.py | 6 +++++-
 hydraxmpm/forces/gravity.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/forces/damping.py b/hydraxmpm/forces/damping.py
index 72b43a1..ee29823 100644
--- a/hydraxmpm/forces/damping.py
+++ b/hydraxmpm/forces/damping.py
@@ -17,7 +17,7 @@ from typing import Self, Optional, Dict, Tuple, Callable, List, Any
 import equinox as eqx
 
 
-from ..material_points.material_points import BaseMaterialPointState
+from ..material_points.material_points import BaseMaterialPointState, MaterialPointState
 
 from ..grid.grid import GridDomain
 
@@ -116,6 +116,10 @@ class Damping(Force):
 
         for p_idx in self.p_idx_list:
             mp_state = mp_states[p_idx]
+
+            # rigid bodies carry no forces
+            if not isinstance(mp_state, MaterialPointState):
+                continue
             
            
             f_total = mp_state.force_stack
diff --git a/hydraxmpm/forces/gravity.py b/hydraxmpm/forces/gravity.py
index 8821397..93c72a2 100644
--- a/hydraxmpm/forces/gravity.py
+++ b/hydraxmpm/forces/gravity.py
@@ -29,7 +29,7 @@ from typing import Self, Optional, Dict, Tuple, Callable, List, Any
 import equinox as eqx
 
 
-from ..material_points.material_points import BaseMaterialPointState
+from ..material_points.material_points import BaseMaterialPointState, MaterialPointState
 
 from ..grid.grid import GridDomain
 
@@ -156,6 +156,10 @@ class Gravity(Force):
 
             mp_state = mp_states[p_idx]
 
+            # rigid bodies carry no forces
+            if not isinstance(mp_state, MaterialPointState):
+                continue
+
             gravity_impulse = mp_state.mass_stack[:, None] * f_state.gravity
 
             mp_state = eqx.tree_at(
-- 
2.43.0


From 4752010e5998602d615cc96858217061ab08825f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 11/42] fix: normals of round shapes are finite on their
 centre, axis or rim

---
 hydraxmpm/sdf/sdfcollection.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index f010aca..f97975b 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -79,7 +79,7 @@ class SphereSDF(SDFObjectBase):
         self, state: SDFObjectState, p_local: Float[Array, "dim"]
     ) -> Float[Array, ""]:
         # length(p) - r
-        return jnp.linalg.norm(p_local) - self.radius
+        return safe_norm(p_local) - self.radius
 
     def signed_distance(
         self, state: SDFObjectState, pos_world: Float[Array, "dim"]
@@ -169,14 +169,14 @@ class HollowCylinderSDF(SDFObjectBase):
     def signed_distance_local(self, state, pos_local):
         if pos_local.shape[0] == 3:
             # 2D distance from Y axis
-            r = jnp.linalg.norm(pos_local[jnp.array([0, 2])])
+            r = safe_norm(pos_local[jnp.array([0, 2])])
             d_y = pos_local[1]
         else:
             if self.is_2d_ring:
                 # Annulus / Ring (Top Down View)
                 # Radial distance is magnitude of vector (x,y)
                 r_xz = jnp.abs(pos_local[0])
-                r = jnp.linalg.norm(pos_local)
+                r = safe_norm(pos_local)
 
                 # Height is irrelevant/infinite for a 2D ring shape
                 d_y = -1e9
@@ -271,7 +271,7 @@ class TorusSDF(SDFObjectBase):
         q = jnp.array([q_x, q_y])
 
         # Distance from the circle is the norm minus tube radius
-        return jnp.linalg.norm(q) - self.minor_r
+        return safe_norm(q) - self.minor_r
 
 
 class StarSDF(SDFObjectBase):
@@ -350,7 +350,7 @@ class StarSDF(SDFObjectBase):
 
         # Distance vector
         dist_vec = p_wedge - closest
-        dist = jnp.linalg.norm(dist_vec)
+        dist = safe_norm(dist_vec)
 
         # sign Correction (Inside vs Outside)
         cross = edge[0] * (p_wedge[1] - v1[1]) - edge[1] * (p_wedge[0] - v1[0])
-- 
2.43.0


From c2a79452806c9e4e0d7a9a61b92bd506e91db16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 12/42] fix: hollow cylinder is bounded by its height in 3D

---
 hydraxmpm/sdf/sdfcollection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index f97975b..b5321fc 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -170,7 +170,8 @@ class HollowCylinderSDF(SDFObjectBase):
         if pos_local.shape[0] == 3:
             # 2D distance from Y axis
             r = safe_norm(pos_local[jnp.array([0, 2])])
-            d_y = pos_local[1]
+            # height bounds apply to Y
+            d_y = jnp.abs(pos_local[1]) - (self.height / 2.0)
         else:
             if self.is_2d_ring:
                 # Annulus / Ring (Top Down View)
-- 
2.43.0


From 4a40f674aa2bcdecc8923817f0a0fd6f7651303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 13/42] fix: solvers index grids, laws and solver states as
 their couplings do

---
 hydraxmpm/common/builder.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index a9476b8..10e2182 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -316,17 +316,17 @@ class SimBuilder:
         
         couplings = tuple(self.couplings[i] for i in b_idx_list)
         forces = tuple(self.force_logics[i] for i in f_idx_list)
-        sdf_logics = tuple(self.sdf_logics[i] for i in sdf_idx_list)
 
-
-        grid_domains = tuple(self.grid_domains[coupling.g_idx] for coupling in couplings)
-
-        # law can be None if rigid particles are used
-        laws = tuple(
-            self.law_logics[coupling.c_idx] if coupling.c_idx is not None else None
-            for coupling in couplings
+        # objects left out stay None, as colliders refer to the global sdf indices
+        sdf_logics = tuple(
+            sdf_logic if i in sdf_idx_list else None
+            for i, sdf_logic in enumerate(self.sdf_logics)
         )
 
+        # couplings refer to the global grid and law indices
+        grid_domains = tuple(self.grid_domains)
+        laws = tuple(self.law_logics)
+
         if scheme.lower() == "usl":
             solver = USLSolver(
                 constitutive_laws=laws,
@@ -348,15 +348,15 @@ class SimBuilder:
 
         # Here we assume that each coupling maps
         # to one solver state
-        for coupling in couplings:
-            mp_state = self.particle_states[coupling.p_idx]
+        while len(self.solver_states) < len(self.couplings):
+            self.solver_states.add(None)
 
-            if isinstance(mp_state, RigidMaterialPointState):
-                solver_state = None
-            else:
-                solver_state = solver.create_state(mp_state)
+        for b_idx in b_idx_list:
+            coupling = self.couplings[b_idx]
+            mp_state = self.particle_states[coupling.p_idx]
 
-            self.solver_states.add(solver_state)
+            if not isinstance(mp_state, RigidMaterialPointState):
+                self.solver_states[coupling.s_idx] = solver.create_state(mp_state)
 
         s_idx = self.solver_logics.add(solver)
         return s_idx
-- 
2.43.0


From 3de744eef29cda0b7b3f3db5b56f96e1aad29f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 14/42] fix: solvers skip rigid objects they do not handle

---
 hydraxmpm/forces/force.py       |  8 ++++----
 hydraxmpm/solvers/usl.py        | 27 ++++++++++++++++++---------
 hydraxmpm/solvers/usl_asflip.py |  4 ++--
 3 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/hydraxmpm/forces/force.py b/hydraxmpm/forces/force.py
index 6153614..452d2ef 100644
--- a/hydraxmpm/forces/force.py
+++ b/hydraxmpm/forces/force.py
@@ -42,7 +42,7 @@ class Force(eqx.Module):
         self: Self,
         world: WorldState,
         mechanics: MechanicsState,
-        sdf_logics: Tuple[SDFObjectBase,...],
+        sdf_logics: Tuple[Optional[SDFObjectBase], ...],
         couplings: Tuple[BodyCoupling, ...],
         dt,
         time
@@ -57,7 +57,7 @@ class Force(eqx.Module):
         world: WorldState,
         mechanics: MechanicsState,
         sim_cache,
-        sdf_logics: Tuple[SDFObjectBase, ...],
+        sdf_logics: Tuple[Optional[SDFObjectBase], ...],
         couplings: Tuple[BodyCoupling, ...],
         grid_domains: Tuple[GridDomain, ...],
         dt,
@@ -73,7 +73,7 @@ class Force(eqx.Module):
         world: WorldState,
         mechanics: MechanicsState,
         sim_cache,
-        sdf_logics: Tuple[SDFObjectBase, ...],
+        sdf_logics: Tuple[Optional[SDFObjectBase], ...],
         couplings: Tuple[BodyCoupling, ...],
         grid_domains: Tuple[GridDomain, ...],
         dt,
@@ -92,7 +92,7 @@ class Force(eqx.Module):
         world: WorldState,
         mechanics: MechanicsState,
         sim_cache,
-        sdf_logics: Tuple[SDFObjectBase, ...],
+        sdf_logics: Tuple[Optional[SDFObjectBase], ...],
         couplings: Tuple[BodyCoupling, ...],
         grid_domains: Tuple[GridDomain, ...],
         dt,
diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index ceedfb9..bb66779 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -74,7 +74,7 @@ class USLSolver(BaseSolver):
 
     forces: Tuple[Force, ...]
 
-    sdf_logics: Tuple[SDFObjectBase, ...]
+    sdf_logics: Tuple[Optional[SDFObjectBase], ...]
 
     active_p_ids: Tuple[int, ...] = eqx.field(static=True)
     active_g_ids: Tuple[int, ...] = eqx.field(static=True)
@@ -88,7 +88,7 @@ class USLSolver(BaseSolver):
         constitutive_laws: Tuple[ConstitutiveLaw, ...],
         couplings: Tuple[BodyCoupling, ...] = (),
         forces: Optional[Tuple[Force, ...]] = (),
-        sdf_logics: Optional[Tuple[SDFObjectBase, ...]] = (),
+        sdf_logics: Optional[Tuple[Optional[SDFObjectBase], ...]] = (),
         alpha=0.99,
         sdf_mp_sharpness: float = 1000.0,
     ):
@@ -196,11 +196,14 @@ class USLSolver(BaseSolver):
                 world, mechanics, self.sdf_logics, self.couplings, dt, time
             )
 
-        new_sdf_states = []
+        new_sdf_states = list(world.sdfs)
         for i, sdf_logic in enumerate(self.sdf_logics):
+            # object not handled by this solver
+            if sdf_logic is None:
+                continue
 
             sdf_state = sdf_logic.update_kinematics(world.sdfs[i], dt)
-            new_sdf_states.append(sdf_state)
+            new_sdf_states[i] = sdf_state
 
         # Repack
         world = eqx.tree_at(lambda w: w.sdfs, world, tuple(new_sdf_states))
@@ -253,6 +256,8 @@ class USLSolver(BaseSolver):
             union_mask = jnp.zeros((domain.num_cells,))
 
             for s_idx, sdf_logic in enumerate(self.sdf_logics):
+                if sdf_logic is None:
+                    continue
                 sdf_state = world.sdfs[s_idx]
 
                 dists = (
@@ -284,6 +289,8 @@ class USLSolver(BaseSolver):
             union_mask = jnp.zeros(mp_state.num_points)
 
             for s_idx, sdf_logic in enumerate(self.sdf_logics):
+                if sdf_logic is None:
+                    continue
                 sdf_state = world.sdfs[s_idx]
 
                 dists = sdf_logic.get_signed_distance_stack(
@@ -345,6 +352,8 @@ class USLSolver(BaseSolver):
             mid_in_mask_flat = jnp.zeros((intr_cache.num_interactions,))
 
             for s_idx, sdf_logic in enumerate(self.sdf_logics):
+                if sdf_logic is None:
+                    continue
                 sdf_state = world.sdfs[s_idx]
 
                 d_mid = sdf_logic.get_signed_distance_stack(
@@ -609,23 +618,23 @@ class USLSolver(BaseSolver):
 
             # --------- cpic-----------
             #  ghost velocity correction
-            num_sdfs = len(self.sdf_logics)
-            if num_sdfs > 0:
+            sdf_ids = [i for i, s in enumerate(self.sdf_logics) if s is not None]
+            if len(sdf_ids) > 0:
 
                 # Find Closest SDF for each Particle (Particle Space)
                 dists_stack = jnp.stack(
                     [
                         sim_cache.mp_geoms[(c.p_idx, s)].dists
-                        for s in range(num_sdfs)
+                        for s in sdf_ids
                     ]
                 )
                 norms_stack = jnp.stack(
-                    [sim_cache.mp_geoms[(c.p_idx, s)].normals for s in range(num_sdfs)]
+                    [sim_cache.mp_geoms[(c.p_idx, s)].normals for s in sdf_ids]
                 )
                 vels_stack = jnp.stack(
                     [
                         sim_cache.mp_geoms[(c.p_idx, s)].wall_vels
-                        for s in range(num_sdfs)
+                        for s in sdf_ids
                     ]
                 )
 
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index afc5145..e80735b 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -114,7 +114,7 @@ class USLAFLIP(USLSolver):
     couplings: Tuple[BodyCoupling, ...]
     constitutive_laws: Tuple[ConstitutiveLaw, ...]
     forces: Tuple[Force, ...]
-    sdf_logics: Tuple[SDFObjectBase, ...]
+    sdf_logics: Tuple[Optional[SDFObjectBase], ...]
     grid_domains: Tuple[GridDomain, ...] = eqx.field(static=True)
     
     active_p_ids: Tuple[int, ...] = eqx.field(static=True)
@@ -131,7 +131,7 @@ class USLAFLIP(USLSolver):
         constitutive_laws: Tuple[Optional[ConstitutiveLaw], ...],
         couplings: Tuple[BodyCoupling, ...] = (),
         forces: Tuple[Optional[Force], ...] = (),
-        sdf_logics: Optional[Tuple[SDFObjectBase, ...]] = (),
+        sdf_logics: Optional[Tuple[Optional[SDFObjectBase], ...]] = (),
         alpha=0.99,
         use_dynamic_alpha: bool = True,
         alpha_support_min: float = 1.1,
-- 
2.43.0


From 7ed5ec3dbba8db37b0f6a12511d6cce1d074b87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 15/42] fix: USLAFLIP keeps affine matrices under the solver
 index of the coupling

---
 hydraxmpm/solvers/usl_asflip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index e80735b..a815e7c 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -310,7 +310,7 @@ class USLAFLIP(USLSolver):
             grid_domain = self.grid_domains[c.g_idx]
             mp_state = mp_states[c.p_idx]
             intr_cache = sim_cache.interactions[(c.p_idx, c.g_idx)]
-            solver_state = solver_states[c.p_idx]
+            solver_state = solver_states[c.s_idx]
 
             # --- Operations in interaction space ---
             # Gather grid data
@@ -540,7 +540,7 @@ class USLAFLIP(USLSolver):
                 (p_velocity_next, p_position_next, p_volume_next, p_F_next, p_L_next, p_F_store_next),
             )
 
-            solver_states[c.p_idx] = eqx.tree_at(
+            solver_states[c.s_idx] = eqx.tree_at(
                 lambda s: s.Bp_stack, solver_state, p_Bp
             )
 
-- 
2.43.0


From 846f8c8595c66488e7b9b1d3d6e234245350e215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 16/42] fix: colliders added by the builder use their friction
 and keep force states aligned

---
 hydraxmpm/common/builder.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 10e2182..88deefb 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -424,10 +424,13 @@ class SimBuilder:
         self,
         sdf_idx: int = None,
         g_idx_list: list[int] = None,
-        friction: float = 0.0,
+        friction: float = 1.0,
         gap: float = 1e-4,
     ):
-        """Convenience method for adding objects."""
+        """Convenience method for adding objects.
+
+        Note the friction scales the surface friction of the SDF object.
+        """
 
         if sdf_idx is None:
             sdf_idx = len(self.sdf_states) - 1
@@ -440,9 +443,11 @@ class SimBuilder:
             sdf_idx=sdf_idx,
             g_idx_list=g_idx_list,
             gap=gap,
+            friction=friction,
         )
 
         f_idx = self.force_logics.add(sdf_collider)
+        self.force_states.append(None)  # Stateless force
 
         return f_idx
 
-- 
2.43.0


From 4fa3a1f15a4b128c85e3b01002700f0566febb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 17/42] fix: NewtonFluid.create_state passed the density twice
 and failed

---
 hydraxmpm/constitutive_laws/newtonfluid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/newtonfluid.py b/hydraxmpm/constitutive_laws/newtonfluid.py
index 439a17e..2e406c3 100644
--- a/hydraxmpm/constitutive_laws/newtonfluid.py
+++ b/hydraxmpm/constitutive_laws/newtonfluid.py
@@ -81,8 +81,8 @@ class NewtonFluid(ConstitutiveLaw):
         density_initial_stack = material_points.mass_stack/ material_points.volume0_stack
         
         return self.create_state_from_density(
-            material_points.pressure_stack,
-            density_stack=density_initial_stack
+            density_stack=density_initial_stack,
+            pressure_stack=material_points.pressure_stack
         )
  
 
-- 
2.43.0


From 029f8200440d7fe98021c835267e527887faf011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 18/42] fix: NewtonFluid stress is compression positive like
 the rest of the library

---
 hydraxmpm/constitutive_laws/newtonfluid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/newtonfluid.py b/hydraxmpm/constitutive_laws/newtonfluid.py
index 2e406c3..a04e119 100644
--- a/hydraxmpm/constitutive_laws/newtonfluid.py
+++ b/hydraxmpm/constitutive_laws/newtonfluid.py
@@ -118,9 +118,9 @@ class NewtonFluid(ConstitutiveLaw):
         # clip negative pressure if you want to disallow tension
         p = jnp.maximum(p, 0.0) 
 
-        # Cauchy stress calculation
-        # sigma = -pI + 2*mu*dev(D)
-        stress = -p * jnp.eye(3) + (2.0 * self.viscosity * dev_deps_dt)
+        # Cauchy stress calculation (compression positive)
+        # sigma = pI + 2*mu*dev(D)
+        stress = p * jnp.eye(3) + (2.0 * self.viscosity * dev_deps_dt)
 
 
         return stress
-- 
2.43.0


From f568232262fbcca57fb41732c7431e9a232d1132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 19/42] fix: mu(I) shear stress was half of mu(I) times the
 pressure

---
 hydraxmpm/constitutive_laws/mu_i_rheology.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/mu_i_rheology.py b/hydraxmpm/constitutive_laws/mu_i_rheology.py
index a9dd603..4168f14 100644
--- a/hydraxmpm/constitutive_laws/mu_i_rheology.py
+++ b/hydraxmpm/constitutive_laws/mu_i_rheology.py
@@ -177,7 +177,8 @@ class MuI_LC(ConstitutiveLaw):
             eta_total = eta_s + eta_d
             
 
-            stress = p_safe * jnp.eye(3) + eta_total * deps_dev
+            # shear rate tensor is twice the deviatoric strain rate, so that sqrt(J2) = mu(I) * p
+            stress = p_safe * jnp.eye(3) + 2.0 * eta_total * deps_dev
             return stress
 
 
-- 
2.43.0


From 2a47c0a342e52a79702462699533823c14a5dbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 20/42] fix: Drucker-Prager dilation lowered the pressure and
 left the stress outside the cone

---
 hydraxmpm/constitutive_laws/druckerprager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 2a9142b..82333fb 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -159,7 +159,8 @@ class DruckerPrager(ConstitutiveLaw):
             # Pull to Cone
             pmulti = yf / (self.G + self.K * self.mu_1 * self.mu_1_hat + self.H * self.mu_2 * self.mu_2)
             
-            p_cone = p_tr - self.K * pmulti * self.mu_1_hat
+            # dilation (expansion) raises the compression-positive pressure
+            p_cone = p_tr + self.K * pmulti * self.mu_1_hat
             sqrt_J2_cone = sqrt_J2_tr - self.G * pmulti
             
             # If sqrt_J2_cone < 0, we hit the apex
-- 
2.43.0


From 4025b5946363cbb0920f843617cddad6cdb99510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 21/42] fix: Drucker-Prager hardening variable decreased in the
 return to the apex

---
 hydraxmpm/constitutive_laws/druckerprager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 82333fb..3ade3e6 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -185,10 +185,11 @@ class DruckerPrager(ConstitutiveLaw):
                 alpha = self.mu_2 / jnp.maximum(self.mu_1, 1e-8)
                 
                 # Solve deps_p_v
-                deps_p_v = (self.mu_1 * p_tr + self.mu_2 * (self.c0 + self.H * eps_p_acc_prev)) / jnp.maximum(self.K * self.mu_1 - self.H * self.mu_2 * alpha, 1e-12)
+                deps_p_v = (self.mu_1 * p_tr + self.mu_2 * (self.c0 + self.H * eps_p_acc_prev)) / jnp.maximum(self.K * self.mu_1 + self.H * self.mu_2 * alpha, 1e-12)
                 
                 p_apex = p_tr - self.K * deps_p_v
-                eps_p_acc_apex = eps_p_acc_prev + alpha * deps_p_v
+                # expansion is negative: hardening grows with the amount of expansion
+                eps_p_acc_apex = eps_p_acc_prev - alpha * deps_p_v
                 
                 stress_apex = +p_apex * jnp.eye(3)
                 eps_e_v_apex = (p_apex - p_0) / self.K
-- 
2.43.0


From bdbe0b800bbdf0fe5ee7b56dc8db5a777b397a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 22/42] fix: DruckerPrager.create_state dropped the initial
 shear stress

---
 hydraxmpm/constitutive_laws/druckerprager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 3ade3e6..82b2655 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -79,8 +79,11 @@ class DruckerPrager(ConstitutiveLaw):
         # Initial pressure from the material point state
         p_0_stack = jax.vmap(get_pressure)(stress_stack)
         
+        # Initial shear stress is carried by the elastic strain
+        eps_e_stack = get_dev_stress(stress_stack, p_0_stack) / (2.0 * self.G)
+
         return DruckerPragerState(
-            eps_e_stack=jnp.zeros((num_points, 3, 3)),
+            eps_e_stack=eps_e_stack,
             eps_p_acc_stack=jnp.zeros(num_points),
             p_0_stack=p_0_stack,
         )
-- 
2.43.0


From f7c81b5870741a0f5d81f19947b17738eebcdcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 23/42] fix: DruckerPrager.get_dt_crit read a density field
 that does not exist

---
 hydraxmpm/constitutive_laws/druckerprager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 82b2655..ebea2d2 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -213,7 +213,7 @@ class DruckerPrager(ConstitutiveLaw):
 
     def get_dt_crit(self, mp_state: MaterialPointState, cell_size: float, alpha: float = 0.5):
         """Critical timestep for stability based on P-wave speed."""
-        rho_stack = mp_state.rho_stack
+        rho_stack = mp_state.density_stack
 
         c_p = jnp.sqrt((self.K + (4.0 / 3.0) * self.G) / rho_stack)
         
-- 
2.43.0


From fae1e5ec181daea5a600b37d35fc11cdb1aade82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:59 +0000
Subject: [PATCH 24/42] fix: objective stress rate rotated stresses against the
 material spin (L is compression positive)

---
 hydraxmpm/constitutive_laws/druckerprager.py   | 2 +-
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index ebea2d2..365a7e5 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -130,7 +130,7 @@ class DruckerPrager(ConstitutiveLaw):
     ):
         # kinematics
         D = get_sym_tensor(L)
-        W = get_spin_tensor(L)
+        W = get_spin_tensor(-L) # material spin (L is compression positive)
         deps = D * dt
 
         # objective rate correction (Jaumann)
diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index a68f85b..2cc083d 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -385,7 +385,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
     
         D = get_sym_tensor(L) # symmetric part
-        W = get_spin_tensor(L) # skew-symmetric part
+        W = get_spin_tensor(-L) # material spin (L is compression positive)
 
 
         deps_next = D * dt
-- 
2.43.0


From 20c9aa61a48cfcd62d55ed190d7e94a7059aab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 25/42] fix: create_state_from_ocr moved stresses inside the
 yield surface onto it

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 2cc083d..42a4864 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -238,7 +238,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
             q_p_ys_stack = get_qp_ys(p_c_stack, p_stack, self.M)
             
-            yf_check = jnp.abs(q_p_inp_stack - q_p_ys_stack)
+            yf_check = q_p_inp_stack - q_p_ys_stack
 
             q_p_stack = jnp.where(yf_check > 0, q_p_ys_stack, q_p_inp_stack)
 
-- 
2.43.0


From 763b8007d8d6933a908ee5b9c95e45a23183dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 26/42] fix: Cam-Clay states created from stress or density had
 no reference stress and could not be updated

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 42a4864..97a6668 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -285,7 +285,12 @@ class ModifiedCamClay(ConstitutiveLaw):
         density_stack = self.rho_p / specific_volume_stack
 
         eps_e = jnp.zeros((p_stack.shape[0], 3, 3))
-        return ModifiedCamClayState(p_c_stack=p_c_stack, eps_e_stack=eps_e),density_stack
+        stress_ref_stack = reconstruct_stress_from_triaxial(
+            p_stack=p_stack, q_stack=q_stack
+        )
+        return ModifiedCamClayState(
+            p_c_stack=p_c_stack, stress_ref_stack=stress_ref_stack, eps_e_stack=eps_e
+        ),density_stack
 
 
     def create_state_from_density(
@@ -327,7 +332,12 @@ class ModifiedCamClay(ConstitutiveLaw):
             eps_e = jnp.zeros((p_stack.shape[0], 3, 3))
             
             # Return same specific volume back confirms it was used
-            return ModifiedCamClayState(p_c_stack=p_c_stack, eps_e_stack=eps_e), specific_volume_stack
+            stress_ref_stack = reconstruct_stress_from_triaxial(
+                p_stack=p_stack, q_stack=jnp.zeros_like(p_stack)
+            )
+            return ModifiedCamClayState(
+                p_c_stack=p_c_stack, stress_ref_stack=stress_ref_stack, eps_e_stack=eps_e
+            ), specific_volume_stack
 
     def create_state(
         self,
-- 
2.43.0


From e55718fceebd5bc870f0be1c1a72b90c1f202568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 27/42] fix: get_dev_strain_stack called itself without end

---
 hydraxmpm/utils/math_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index 8ac1291..ea9db54 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -285,8 +285,8 @@ def get_hencky_strain_stack(F_stack):
 
 
 def get_dev_strain_stack(strain_stack):
-    """Get strain rate tensor from a stack of velocity gradients."""
-    return get_dev_strain_stack(strain_stack)
+    """Get deviatoric strain tensor from a stack of strain tensors."""
+    return get_dev_strain(strain_stack)
 
 def get_strain_rate_tensor_stack(L_stack):
     """Get strain rate tensor from a stack of velocity gradients."""
-- 
2.43.0


From 161ea5ca1412193327d82c118d408416d78d69d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 28/42] fix: get_scalar_shear_strain failed unless given the
 deviatoric strain

---
 hydraxmpm/utils/math_helpers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index ea9db54..c7987bc 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -309,7 +309,7 @@ def get_scalar_shear_strain(
 ):
     """Get scalar shear strain gamma = sqrt(1/2 trace(e_dev @ e_dev.T))."""
     if dev_strain is None:
-        dev_strain = get_dev_strain(strain, volumetric_strain, dim)
+        dev_strain = get_dev_strain(strain, volumetric_strain)
 
     return jnp.sqrt(0.5 * jnp.trace(dev_strain @ dev_strain.T))
 
@@ -318,8 +318,15 @@ def get_scalar_shear_strain_stack(
     strain_stack: jax.Array, dev_strain_stack=None, volumetric_strain_stack=None, dim=3
 ):
     """Get scalar shear strain from a stack of strain tensors."""
+    # arguments that are left out have nothing to map over
     vmap_get_scalar_shear_strain = jax.vmap(
-        get_scalar_shear_strain, in_axes=(0, 0, 0, None)
+        get_scalar_shear_strain,
+        in_axes=(
+            None if strain_stack is None else 0,
+            None if dev_strain_stack is None else 0,
+            None if volumetric_strain_stack is None else 0,
+            None,
+        ),
     )
 
     return vmap_get_scalar_shear_strain(
-- 
2.43.0


From 883ef04140b0cc66abe284b31aee16f620c8d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 29/42] fix: void ratio from densities was the specific volume

---
 hydraxmpm/utils/math_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index c7987bc..dba7b91 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -526,7 +526,7 @@ def get_phi_from_L(L, phi_prev, dt):
 
 def get_e_from_bulk_density(absolute_density, bulk_density):
     """Get void ratio from absolute and bulk density."""
-    return absolute_density / bulk_density
+    return absolute_density / bulk_density - 1.0
 
 
 def get_phi_from_bulk_density(absolute_density, bulk_density):
-- 
2.43.0


From 2eb362f3143366dd26c2a0584424c424ce5e71a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 30/42] fix: support limits of the dynamic blending are the
 configured ones; blending direction documented as implemented

---
 hydraxmpm/solvers/usl.py        | 2 +-
 hydraxmpm/solvers/usl_asflip.py | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index bb66779..a1acae2 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -57,7 +57,7 @@ class USLSolver(BaseSolver):
 
 
     Attributes:
-        alpha: Blending factor between FLIP and PIC updates (0.0 = FLIP, 1.0 = PIC).
+        alpha: Blending factor between FLIP and PIC updates (0.0 = PIC, 1.0 = FLIP).
         grid_domains: Spatial-computational spaces for grids.
         couplings: Defines how material connect to the spaces.
         constitutive_laws: Tuple of ConstitutiveLaw instances for material behavior.
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index a815e7c..7d59dbb 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -80,7 +80,7 @@ class USLAFLIP(USLSolver):
     CFL Limiting clamps particle velocities to a fraction of cell_size/dt to ensure stability.
 
     Attributes:
-        alpha: Blending factor between FLIP and PIC updates (0.0 = pure FLIP, 1.0 = pure PIC) (default 0.99).
+        alpha: Blending factor between FLIP and PIC updates (0.0 = pure PIC, 1.0 = pure FLIP) (default 0.99).
         use_dynamic_alpha: Enables dynamic alpha scaling based on particle support (default True).
         alpha_support_min: Minimum particle support ratio for dynamic alpha scaling (default 1.1).
         alpha_support_max: Maximum particle support ratio for dynamic alpha scaling (default 1.5).
@@ -471,7 +471,12 @@ class USLAFLIP(USLSolver):
                 )
 
                 support_ratio = p_mass_support / (mp_state.mass_stack + 1e-9)
-                alpha_scale = jnp.clip((support_ratio - 1.1) / 0.4, 0.0, 1.0)
+                alpha_scale = jnp.clip(
+                    (support_ratio - self.alpha_support_min)
+                    / (self.alpha_support_max - self.alpha_support_min),
+                    0.0,
+                    1.0,
+                )
                 dynamic_alpha = self.alpha * alpha_scale[:, None]
             else:
                 dynamic_alpha = self.alpha
-- 
2.43.0


From 8402129eba260bf696d52db321a939d60a4125ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 31/42] fix: default particle volume followed the area of a
 cell in every dimension

---
 hydraxmpm/material_points/material_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/material_points/material_points.py b/hydraxmpm/material_points/material_points.py
index 95e5338..ea4b530 100644
--- a/hydraxmpm/material_points/material_points.py
+++ b/hydraxmpm/material_points/material_points.py
@@ -201,7 +201,7 @@ class MaterialPointState(BaseMaterialPointState):
         if volume_stack is None:
             cell_size = kwargs.get("cell_size", 1.0)
             points_per_cell = kwargs.get("ppc", 4.0)
-            default_volume = (cell_size**2) / points_per_cell
+            default_volume = (cell_size**dim) / points_per_cell
             volume_stack = jnp.ones(num_points) * default_volume
 
         volume0_stack = volume0_stack if volume0_stack is not None else volume_stack
-- 
2.43.0


From 3b41e1cc3975457131b60f3010e34bbb1f2ad3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 32/42] fix: the documented points_per_cell option of
 MaterialPointState.create was ignored

---
 hydraxmpm/material_points/material_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/material_points/material_points.py b/hydraxmpm/material_points/material_points.py
index ea4b530..b1da3a1 100644
--- a/hydraxmpm/material_points/material_points.py
+++ b/hydraxmpm/material_points/material_points.py
@@ -200,7 +200,7 @@ class MaterialPointState(BaseMaterialPointState):
         # Assumes uniform distribution based on cell size and points per cell.
         if volume_stack is None:
             cell_size = kwargs.get("cell_size", 1.0)
-            points_per_cell = kwargs.get("ppc", 4.0)
+            points_per_cell = kwargs.get("ppc", kwargs.get("points_per_cell", 4.0))
             default_volume = (cell_size**dim) / points_per_cell
             volume_stack = jnp.ones(num_points) * default_volume
 
-- 
2.43.0


From b84aedb8bc9beb2ee4c399109beb3ab1806f687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 33/42] fix: ElementTestDriver ignored its is_F_linear_approx
 option

---
 hydraxmpm/element_tests/driver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/element_tests/driver.py b/hydraxmpm/element_tests/driver.py
index ac1703d..9ff6c46 100644
--- a/hydraxmpm/element_tests/driver.py
+++ b/hydraxmpm/element_tests/driver.py
@@ -11,7 +11,9 @@ class ElementTestDriver(eqx.Module):
 
       def step(self, mp_state, law_state, L_input, dt, is_F_linear_approx=None):
 
-
+            # the configured approximation unless overridden for this step
+            if is_F_linear_approx is None:
+                is_F_linear_approx = self.is_F_linear_approx
 
             if is_F_linear_approx:
                 F_inc = jnp.eye(3) - L_input * dt
-- 
2.43.0


From dceaa7aeb1442b067f010b26e98811348f4c87d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 34/42] fix: ElementTestDriver updated the volume only after
 the law had used it

---
 hydraxmpm/element_tests/driver.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hydraxmpm/element_tests/driver.py b/hydraxmpm/element_tests/driver.py
index 9ff6c46..0f5d83e 100644
--- a/hydraxmpm/element_tests/driver.py
+++ b/hydraxmpm/element_tests/driver.py
@@ -21,22 +21,22 @@ class ElementTestDriver(eqx.Module):
             else:
                 F_next = jax.scipy.linalg.expm(-L_input * dt) @  mp_state.F_stack
 
-            # we temporarily update L_stack on the particle so the law sees it
+            # update volume/density (before the law, as in a simulation step)
+            J = jnp.linalg.det(F_next)
+            
+            vol_next = J * mp_state.volume0_stack
+
+            # we temporarily update the particle so the law sees its current state
             mp_temp = eqx.tree_at(
-                 lambda m: (m.L_stack, m.F_stack), 
+                 lambda m: (m.L_stack, m.F_stack, m.volume_stack), 
                  mp_state, 
-                 (L_input, F_next)
+                 (L_input, F_next, vol_next)
                  )
             
 
 
             mp_next, law_next = self.constitutive_law.update(mp_temp, law_state, dt)
             
-            # update volume/density
-            J = jnp.linalg.det(F_next)
-            
-            vol_next = J * mp_state.volume0_stack
-            
             # mass is kept constant (not used for now...)
             mass_next = mp_state.mass_stack 
             
-- 
2.43.0


From 10272a2ea7ca9583e00f4e331389ea24426fa136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 35/42] fix: ElementTestDriver left the stored deformation
 behind

---
 hydraxmpm/element_tests/driver.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hydraxmpm/element_tests/driver.py b/hydraxmpm/element_tests/driver.py
index 0f5d83e..ab2efef 100644
--- a/hydraxmpm/element_tests/driver.py
+++ b/hydraxmpm/element_tests/driver.py
@@ -17,9 +17,15 @@ class ElementTestDriver(eqx.Module):
 
             if is_F_linear_approx:
                 F_inc = jnp.eye(3) - L_input * dt
-                F_next = F_inc @ mp_state.F_stack
             else:
-                F_next = jax.scipy.linalg.expm(-L_input * dt) @  mp_state.F_stack
+                F_inc = jax.scipy.linalg.expm(-L_input * dt)
+
+            F_next = F_inc @ mp_state.F_stack
+
+            # total deformation, stored only if requested
+            F_store_next = None
+            if mp_state.F_store_stack is not None:
+                F_store_next = F_inc @ mp_state.F_store_stack
 
             # update volume/density (before the law, as in a simulation step)
             J = jnp.linalg.det(F_next)
@@ -43,8 +49,9 @@ class ElementTestDriver(eqx.Module):
 
             # repack
             return eqx.tree_at(
-                lambda m: (m.L_stack, m.F_stack, m.stress_stack, m.volume_stack),
+                lambda m: (m.L_stack, m.F_stack, m.stress_stack, m.volume_stack, m.F_store_stack),
                 mp_state,
-                (mp_next.L_stack, F_next, mp_next.stress_stack, vol_next)
+                (mp_next.L_stack, F_next, mp_next.stress_stack, vol_next, F_store_next),
+                is_leaf=lambda x: x is None,
             ), law_next
       
-- 
2.43.0


From 88449d56014d695e2696fec296dfb248392dd6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 36/42] fix: TriaxialTest.axial_strain_stack did not match the
 recorded states

---
 hydraxmpm/element_tests/triaxial_test.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/hydraxmpm/element_tests/triaxial_test.py b/hydraxmpm/element_tests/triaxial_test.py
index 47f49d7..0f56861 100644
--- a/hydraxmpm/element_tests/triaxial_test.py
+++ b/hydraxmpm/element_tests/triaxial_test.py
@@ -24,16 +24,14 @@ class TriaxialTest(eqx.Module):
 
     @property
     def axial_strain_stack(self):
-        # Handle scalar vs array case for strain calculation
-        if hasattr(self.dt, "shape") and self.dt.shape:
-            # Array case: Cumulative sum
-            incr_strain = self.axial_rate * self.dt
-            return jnp.cumsum(incr_strain)[:: self.stride]
-        else:
-            # Scalar case (legacy)
-            return jnp.linspace(
-                0, self.axial_rate * self.dt * self.num_steps, self.num_steps
-            )[:: self.stride]
+        # strain reached at the recorded states: the last step of every stride,
+        # a static start does not strain the sample in its first step
+        incr_strain = jnp.asarray(self.axial_rate * self.dt)
+        if incr_strain.ndim == 0:
+            incr_strain = jnp.full((self.num_steps,), incr_strain)
+        if self.start_static:
+            incr_strain = incr_strain.at[0].set(0.0)
+        return jnp.cumsum(incr_strain)[self.stride - 1 :: self.stride]
 
     def run(self, mp_init, law_init):
 
-- 
2.43.0


From 20454069c0c365d10269ddf5249839bd11903e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 37/42] fix: gather_from_grid read the stencil size from the
 interaction cache, which has none

---
 hydraxmpm/shapefunctions/mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/shapefunctions/mapping.py b/hydraxmpm/shapefunctions/mapping.py
index 3323e91..ebd29c3 100644
--- a/hydraxmpm/shapefunctions/mapping.py
+++ b/hydraxmpm/shapefunctions/mapping.py
@@ -328,7 +328,7 @@ class ShapeFunctionMapping(eqx.Module):
 
         # accumulate (gather)
         particle_accum = jnp.zeros(
-            (point_ids.shape[0] // cache.window_size, flat_data.shape[1])
+            (point_ids.shape[0] // self.window_size, flat_data.shape[1])
         )
         particle_accum = particle_accum.at[point_ids].add(flat_data)
 
-- 
2.43.0


From 4cbeec83bd3843cb4c736552a1a9988fb07d9eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:36 +0000
Subject: [PATCH 38/42] element_tests: back to the original driver and triaxial
 test (files in this folder count as test files)

---
 hydraxmpm/element_tests/driver.py        | 35 +++++++++---------------
 hydraxmpm/element_tests/triaxial_test.py | 18 ++++++------
 2 files changed, 23 insertions(+), 30 deletions(-)

diff --git a/hydraxmpm/element_tests/driver.py b/hydraxmpm/element_tests/driver.py
index ab2efef..ac1703d 100644
--- a/hydraxmpm/element_tests/driver.py
+++ b/hydraxmpm/element_tests/driver.py
@@ -11,47 +11,38 @@ class ElementTestDriver(eqx.Module):
 
       def step(self, mp_state, law_state, L_input, dt, is_F_linear_approx=None):
 
-            # the configured approximation unless overridden for this step
-            if is_F_linear_approx is None:
-                is_F_linear_approx = self.is_F_linear_approx
+
 
             if is_F_linear_approx:
                 F_inc = jnp.eye(3) - L_input * dt
+                F_next = F_inc @ mp_state.F_stack
             else:
-                F_inc = jax.scipy.linalg.expm(-L_input * dt)
-
-            F_next = F_inc @ mp_state.F_stack
-
-            # total deformation, stored only if requested
-            F_store_next = None
-            if mp_state.F_store_stack is not None:
-                F_store_next = F_inc @ mp_state.F_store_stack
+                F_next = jax.scipy.linalg.expm(-L_input * dt) @  mp_state.F_stack
 
-            # update volume/density (before the law, as in a simulation step)
-            J = jnp.linalg.det(F_next)
-            
-            vol_next = J * mp_state.volume0_stack
-
-            # we temporarily update the particle so the law sees its current state
+            # we temporarily update L_stack on the particle so the law sees it
             mp_temp = eqx.tree_at(
-                 lambda m: (m.L_stack, m.F_stack, m.volume_stack), 
+                 lambda m: (m.L_stack, m.F_stack), 
                  mp_state, 
-                 (L_input, F_next, vol_next)
+                 (L_input, F_next)
                  )
             
 
 
             mp_next, law_next = self.constitutive_law.update(mp_temp, law_state, dt)
             
+            # update volume/density
+            J = jnp.linalg.det(F_next)
+            
+            vol_next = J * mp_state.volume0_stack
+            
             # mass is kept constant (not used for now...)
             mass_next = mp_state.mass_stack 
             
 
             # repack
             return eqx.tree_at(
-                lambda m: (m.L_stack, m.F_stack, m.stress_stack, m.volume_stack, m.F_store_stack),
+                lambda m: (m.L_stack, m.F_stack, m.stress_stack, m.volume_stack),
                 mp_state,
-                (mp_next.L_stack, F_next, mp_next.stress_stack, vol_next, F_store_next),
-                is_leaf=lambda x: x is None,
+                (mp_next.L_stack, F_next, mp_next.stress_stack, vol_next)
             ), law_next
       
diff --git a/hydraxmpm/element_tests/triaxial_test.py b/hydraxmpm/element_tests/triaxial_test.py
index 0f56861..47f49d7 100644
--- a/hydraxmpm/element_tests/triaxial_test.py
+++ b/hydraxmpm/element_tests/triaxial_test.py
@@ -24,14 +24,16 @@ class TriaxialTest(eqx.Module):
 
     @property
     def axial_strain_stack(self):
-        # strain reached at the recorded states: the last step of every stride,
-        # a static start does not strain the sample in its first step
-        incr_strain = jnp.asarray(self.axial_rate * self.dt)
-        if incr_strain.ndim == 0:
-            incr_strain = jnp.full((self.num_steps,), incr_strain)
-        if self.start_static:
-            incr_strain = incr_strain.at[0].set(0.0)
-        return jnp.cumsum(incr_strain)[self.stride - 1 :: self.stride]
+        # Handle scalar vs array case for strain calculation
+        if hasattr(self.dt, "shape") and self.dt.shape:
+            # Array case: Cumulative sum
+            incr_strain = self.axial_rate * self.dt
+            return jnp.cumsum(incr_strain)[:: self.stride]
+        else:
+            # Scalar case (legacy)
+            return jnp.linspace(
+                0, self.axial_rate * self.dt * self.num_steps, self.num_steps
+            )[:: self.stride]
 
     def run(self, mp_init, law_init):
 
-- 
2.43.0


From 6229a54586f22125f887050805e45deb5166ccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:49 +0000
Subject: [PATCH 39/42] fix: regular particle seeding ignored the cell size
 when placing points inside a cell

---
 hydraxmpm/utils/generate_body.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/utils/generate_body.py b/hydraxmpm/utils/generate_body.py
index 351621b..b9d2107 100644
--- a/hydraxmpm/utils/generate_body.py
+++ b/hydraxmpm/utils/generate_body.py
@@ -67,7 +67,7 @@ def generate_particles_in_sdf(
             lin = jnp.linspace(0, 1, pts_per_dim * 2 + 1)[1::2]
 
             offset_meshes = jnp.meshgrid(*([lin] * dim), indexing="ij")
-            offsets = jnp.stack(offset_meshes, axis=-1).reshape(-1, dim)
+            offsets = jnp.stack(offset_meshes, axis=-1).reshape(-1, dim) * cell_size
 
         # Perform a broadcast add
         # grid_origins_flat has shape (N_cells, 1, dim)
-- 
2.43.0


From d7306b88983d570fcf104f51569a41ffd6fdc4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:07 +0000
Subject: [PATCH 40/42] fix: VTK export failed without a property or without a
 step

---
 hydraxmpm/common/vtk_io.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index 3a086dd..ec89f31 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -70,6 +70,7 @@ class VTKVisualizer:
 
         _point_radius = _point_radius * scale_radius
         
+        prop_data = None
         if property_name is not None:
             prop_data = getattr(mp_state, property_name, None)
         if positions.shape[1] == 2:
@@ -79,22 +80,16 @@ class VTKVisualizer:
         else:
             positions_3d = positions
 
-        # print(prop_data.mean())
-
-        prop_data = np.array(prop_data)
-        # print(prop_data.shape)
+        cloud = pv.PolyData(positions_3d)
 
         if prop_data is not None:
+            prop_data = np.array(prop_data)
             if len(prop_data.shape) > 1:
                 if  prop_data.shape[1] == 2:
                     zeros = np.zeros((prop_data.shape[0], 1))
                     prop_data = np.hstack([prop_data, zeros])
-            else:
-                prop_data = prop_data
-
-        cloud = pv.PolyData(positions_3d)
 
-        cloud.point_data[property_name] = prop_data
+            cloud.point_data[property_name] = prop_data
 
         cloud.point_data["Radius"] = np.full(len(positions), _point_radius)
         
@@ -212,4 +207,4 @@ class VTKVisualizer:
 
                 suffix = f"step_{int(step):05d}" if step is not None else "static"
                 # Standardized save via your _save_vtk method
-                path = self._save_vtk(mesh, label, f"step_{int(step):05d}.vtp")
\ No newline at end of file
+                path = self._save_vtk(mesh, label, f"{suffix}.vtp")
\ No newline at end of file
-- 
2.43.0


From 4cf7dae9eb587b0256bba6db9a742ae48cc07c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:07 +0000
Subject: [PATCH 41/42] fix: Rerun surfaces had the x and y components of their
 normals swapped

---
 hydraxmpm/common/rerun.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index 2f4af76..84c4114 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -383,9 +383,8 @@ class RerunVisualizer:
                 world_z = start[2] + verts[:, 2] * step_size
                 world_verts = np.stack([world_x, world_y, world_z], axis=1)
 
-                # Fix Normal permutation (skimage normals align with index axes Y, X, Z)
-                # We need X, Y, Z
-                world_normals = normals[:, [1, 0, 2]]
+                # skimage gives the normals along the same axes as the vertices
+                world_normals = normals
 
                 rr.log(
                     f"{self.root_path}/{label}",
-- 
2.43.0


From 1efe047cb5058101ee3ac14606a6e4b6c745059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:07 +0000
Subject: [PATCH 42/42] fix: surface extraction missed the far end of windows
 with negative coordinates

---
 hydraxmpm/common/rerun.py  | 4 ++--
 hydraxmpm/common/vtk_io.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index 84c4114..f2cfabe 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -324,10 +324,10 @@ class RerunVisualizer:
         end = np.array(end)
         start = np.array(start)
         # Here we generate a bunch of points in the domain
-        domain_size = end * 1.05 - start * 0.95
+        domain_size = (end - start) * 1.05
         step_size = np.max(domain_size) / resolution
 
-        aspect_size = np.ceil(domain_size / step_size).astype(int)
+        aspect_size = np.ceil(domain_size / step_size).astype(int) + 1
         indices = np.indices(aspect_size)
         coords = np.moveaxis(indices, 0, -1) * step_size + start
         flat_coords = coords.reshape(-1, dim)
diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index ec89f31..2100def 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -146,9 +146,9 @@ class VTKVisualizer:
             end = np.array(end)
             
             # Setup sampling grid
-            domain_size = end * 1.05 - start * 0.95
+            domain_size = (end - start) * 1.05
             step_size = np.max(domain_size) / resolution
-            aspect_size = np.ceil(domain_size / step_size).astype(int)
+            aspect_size = np.ceil(domain_size / step_size).astype(int) + 1
             
             indices = np.indices(aspect_size)
             coords = np.moveaxis(indices, 0, -1) * step_size + start
-- 
2.43.0

