From cc360d5c75fad5f76141d3910af48c9b39091576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:29 +0000
Subject: [PATCH 01/26] fix: revise the fluxes of both sides of a periodic seam
 together

---
 fvhoe/slope_limiting.py | 45 ++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index a13f12d..6bd7391 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -280,29 +280,30 @@ def broadcast_to_troubled_interfaces(
         troubled_z_interfaces = np.zeros((nx, ny, nz + 1))
     if convex:
         xdim, ydim, zdim = "x" in dims, "y" in dims, "z" in dims
-        nx_alloc = trouble.shape[0] + 4 if xdim else 1
-        ny_alloc = trouble.shape[1] + 4 if ydim else 1
-        nz_alloc = trouble.shape[2] + 4 if zdim else 1
+        # theta of the first ghost cell depends on trouble up to 3 cells outside
+        nx_alloc = trouble.shape[0] + 6 if xdim else 1
+        ny_alloc = trouble.shape[1] + 6 if ydim else 1
+        nz_alloc = trouble.shape[2] + 6 if zdim else 1
         if using_cupy:
             alloc_trouble = cp.zeros((nx_alloc, ny_alloc, nz_alloc))
         else:
             alloc_trouble = np.zeros((nx_alloc, ny_alloc, nz_alloc))
         slices = [
-            slice(2, -2) if xdim else slice(None),
-            slice(2, -2) if ydim else slice(None),
-            slice(2, -2) if zdim else slice(None),
+            slice(3, -3) if xdim else slice(None),
+            slice(3, -3) if ydim else slice(None),
+            slice(3, -3) if zdim else slice(None),
         ]
         alloc_trouble[tuple(slices)] = trouble
-        # apply periodic boundary conditions
+        # apply periodic boundary conditions, including at corners
         if periodic_x and xdim:
-            alloc_trouble[:2, 2:-2, 2:-2] = trouble[-2:, :, :]
-            alloc_trouble[-2:, 2:-2, 2:-2] = trouble[:2, :, :]
+            alloc_trouble[:3, :, :] = alloc_trouble[-6:-3, :, :]
+            alloc_trouble[-3:, :, :] = alloc_trouble[3:6, :, :]
         if periodic_y and ydim:
-            alloc_trouble[2:-2, :2, 2:-2] = trouble[:, -2:, :]
-            alloc_trouble[2:-2, -2:, 2:-2] = trouble[:, :2, :]
+            alloc_trouble[:, :3, :] = alloc_trouble[:, -6:-3, :]
+            alloc_trouble[:, -3:, :] = alloc_trouble[:, 3:6, :]
         if periodic_z and zdim:
-            alloc_trouble[2:-2, 2:-2, :2] = trouble[2:-2, 2:-2, -2:]
-            alloc_trouble[2:-2, 2:-2, -2:] = trouble[2:-2, 2:-2, :2]
+            alloc_trouble[:, :, :3] = alloc_trouble[:, :, -6:-3]
+            alloc_trouble[:, :, -3:] = alloc_trouble[:, :, 3:6]
     # broadcast troubled cells to interfaces
     if convex:
         # convex broadcast
@@ -313,7 +314,7 @@ def broadcast_to_troubled_interfaces(
             alloc_trouble_1d = alloc_trouble[tuple(slices)]
             convex_troubled_x_interfaces = convex_1d_broadcast_to_troubled_interfaces(
                 alloc_trouble_1d
-            )
+            )[1:-1]
             if dims == "x":
                 troubled_x_interfaces[...] = convex_troubled_x_interfaces.reshape(
                     -1, 1, 1
@@ -336,6 +337,8 @@ def broadcast_to_troubled_interfaces(
                 convex_troubled_x_interfaces,
                 convex_troubled_y_interfaces,
             ) = convex_2d_broadcast_to_troubled_interfaces(alloc_trouble_2d)
+            convex_troubled_x_interfaces = convex_troubled_x_interfaces[1:-1, 1:-1]
+            convex_troubled_y_interfaces = convex_troubled_y_interfaces[1:-1, 1:-1]
             if dims in ["xy", "yx"]:
                 troubled_x_interfaces[...] = convex_troubled_x_interfaces.reshape(
                     nx + 1, ny, 1
@@ -368,16 +371,30 @@ def broadcast_to_troubled_interfaces(
             troubled_x_interfaces[:-1, :, :] = np.maximum(
                 troubled_x_interfaces[:-1, :, :], trouble
             )
+            if periodic_x:
+                # the first and last interface are the same one
+                troubled_x_interfaces[0, :, :] = np.maximum(trouble[0], trouble[-1])
+                troubled_x_interfaces[-1, :, :] = troubled_x_interfaces[0, :, :]
         if "y" in dims:
             troubled_y_interfaces[:, 1:, :] = trouble
             troubled_y_interfaces[:, :-1, :] = np.maximum(
                 troubled_y_interfaces[:, :-1, :], trouble
             )
+            if periodic_y:
+                troubled_y_interfaces[:, 0, :] = np.maximum(
+                    trouble[:, 0], trouble[:, -1]
+                )
+                troubled_y_interfaces[:, -1, :] = troubled_y_interfaces[:, 0, :]
         if "z" in dims:
             troubled_z_interfaces[:, :, 1:] = trouble
             troubled_z_interfaces[:, :, :-1] = np.maximum(
                 troubled_z_interfaces[:, :, :-1], trouble
             )
+            if periodic_z:
+                troubled_z_interfaces[:, :, 0] = np.maximum(
+                    trouble[:, :, 0], trouble[:, :, -1]
+                )
+                troubled_z_interfaces[:, :, -1] = troubled_z_interfaces[:, :, 0]
     troubled_x_interfaces = troubled_x_interfaces[np.newaxis, ...]
     troubled_y_interfaces = troubled_y_interfaces[np.newaxis, ...]
     troubled_z_interfaces = troubled_z_interfaces[np.newaxis, ...]
-- 
2.43.0


From 233e9779c5ebefb8d1ef93b0baffbc3f3e429e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:29 +0000
Subject: [PATCH 02/26] fix: PAD flags violations of every bounded variable,
 not only the last

---
 fvhoe/slope_limiting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index 6bd7391..5024847 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -229,8 +229,8 @@ def detect_troubled_cells(
     PAD_indicator = np.zeros_like(NAD_violation_magnitude)
     if PAD_bounds is not None:
         for var, (lowr, uppr) in PAD_bounds.items():
-            PAD_indicator[...] = (
-                u_candidate_inner[_hs(var)] - lowr
+            PAD_indicator[...] = np.minimum(
+                PAD_indicator, u_candidate_inner[_hs(var)] - lowr
             )  # lower PAD difference
             PAD_indicator[...] = np.minimum(
                 PAD_indicator, uppr - u_candidate_inner[_hs(var)]
-- 
2.43.0


From e1be9705ff8e695a9f0bd5f94a08b1cb51900cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:29 +0000
Subject: [PATCH 03/26] fix: pass the hydro state to the double Mach reflection
 free boundary

---
 fvhoe/boundary_conditions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 2718ebf..8a2436e 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -379,7 +379,13 @@ class BoundaryCondition:
                     out_refl = out.copy()
 
                     # set free bc
-                    _set_free_bc(out_free, slab_thickness, axis=i + 1, pos=pos)
+                    _set_free_bc(
+                        hs=self.hydro_state,
+                        u=out_free,
+                        slab_thickness=slab_thickness,
+                        axis=i + 1,
+                        pos=pos,
+                    )
 
                     # set reflective bc
                     _set_symmetric_bc(
-- 
2.43.0


From f5b4f3f9a748c54aca76e7ea8fc9ef0b270cc1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:29 +0000
Subject: [PATCH 04/26] fix: reject invalid dirichlet values with a ValueError
 without cupy

---
 fvhoe/boundary_conditions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 8a2436e..3ca1d8f 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -45,8 +45,8 @@ def _set_dirichlet_bc(
 
     if callable(boundary_values):
         dirichlet_values = boundary_values(**kwargs)
-    elif isinstance(boundary_values, np.ndarray) or isinstance(
-        boundary_values, cp.ndarray
+    elif isinstance(boundary_values, np.ndarray) or (
+        CUPY_AVAILABLE and isinstance(boundary_values, cp.ndarray)
     ):
         dirichlet_values = np.ones_like(slab_view) * boundary_values.reshape(
             -1, 1, 1, 1
-- 
2.43.0


From 7f9df89fb8017a49a79380edf83de4eb5188417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:29 +0000
Subject: [PATCH 05/26] fix: save runs whose pointwise initial condition is not
 available

---
 fvhoe/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 1d70828..3847a3d 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -916,6 +916,7 @@ class EulerSolver(ODE):
             # skip functions, arrays, etc
             if (
                 (callable(v) and k != "am")
+                or v is NotImplemented
                 or isinstance(v, np.ndarray)
                 or isinstance(v, cp_ndarray)
                 or k
-- 
2.43.0


From d7918ea1fa16d907d434e9187c3c90bdcf64f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:29 +0000
Subject: [PATCH 06/26] fix: average the trouble of the first step over its own
 substeps

---
 fvhoe/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 3847a3d..27426c4 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -397,7 +397,7 @@ class EulerSolver(ODE):
         self.SED = SED
         self.SED_tolerance = SED_tolerance
         self.convex = convex
-        self.trouble_counter = 1
+        self.trouble_counter = 0
 
     def _init_array_allocation(self):
         """
-- 
2.43.0


From ce7618238e00632c30bedd3051f4db45546c74b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:29 +0000
Subject: [PATCH 07/26] fix: log trouble per cell so that it can be plotted

---
 fvhoe/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 27426c4..3d26d66 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -410,9 +410,9 @@ class EulerSolver(ODE):
         self.am.add("w", np.empty((nvars, nx, ny, nz)))
 
         # limiting
-        self.am.add("mean trouble", np.zeros((5, nx, ny, nz)))
-        self.am.add("mean NAD mag", np.zeros((5, nx, ny, nz)))
-        self.am.add("mean PAD mag", np.zeros((5, nx, ny, nz)))
+        self.am.add("mean trouble", np.zeros((nx, ny, nz)))
+        self.am.add("mean NAD mag", np.zeros((nx, ny, nz)))
+        self.am.add("mean PAD mag", np.zeros((nx, ny, nz)))
 
         # fluxes
         self.am.add("F", np.empty((nvars, nx + 1, ny, nz)))
-- 
2.43.0


From ac6e2a9f23cf2798dd8af725abd94a6adf593f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:29 +0000
Subject: [PATCH 08/26] fix: restore snapshot_times when reading snapshots

---
 fvhoe/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 3d26d66..0dfb10f 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -882,6 +882,7 @@ class EulerSolver(ODE):
         if os.path.exists(self.snapshot_dir):
             with open(os.path.join(self.snapshot_dir, "arrs.pkl"), "rb") as f:
                 self.snapshots = pickle.load(f)
+            self.snapshot_times = [snapshot["t"] for snapshot in self.snapshots]
             print(f"Read from snapshot directory {self.snapshot_dir}")
             return True
         return False
-- 
2.43.0


From a1a0a110ba273994607ab2e42ce2addb90b15a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:29 +0000
Subject: [PATCH 09/26] fix: plot_fields shows all six fields in 2D

---
 fvhoe/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 0dfb10f..ea6f4f8 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -987,7 +987,7 @@ class EulerSolver(ODE):
             varnames = ["rho", "P", "v", "vx", "vy", "vz"]
             varlabels = [r"$\rho$", r"$P$", r"$v$", r"$v_x$", r"$v_y$", r"$v_z$"]
             for i, j in product([0, 1], [0, 1, 2]):
-                im = self.plot_2d_slice(axs[i, j], param=varnames[i + j], **kwargs)
+                im = self.plot_2d_slice(axs[i, j], param=varnames[3 * i + j], **kwargs)
                 im_ax = fig.add_axes(
                     [
                         axs[i, j].get_position().x0 + axs[i, j].get_position().width,
@@ -996,7 +996,7 @@ class EulerSolver(ODE):
                         axs[i, j].get_position().height,
                     ]
                 )
-                fig.colorbar(im, cax=im_ax, label=varlabels[i + j])
+                fig.colorbar(im, cax=im_ax, label=varlabels[3 * i + j])
             return fig, axs
         raise NotImplementedError(
             "Plotting is only implemented for 1D and 2D simulations."
-- 
2.43.0


From a94a91d6a122f92e03aa6b9cb9aef5a3ba51feae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:29 +0000
Subject: [PATCH 10/26] fix: scripting imports an initial condition that exists

---
 fvhoe/scripting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/scripting.py b/fvhoe/scripting.py
index 7630fd2..8d8e8d1 100644
--- a/fvhoe/scripting.py
+++ b/fvhoe/scripting.py
@@ -1,5 +1,5 @@
 from fvhoe.boundary_conditions import BoundaryCondition
-from fvhoe.initial_conditions import kelvin_helmholtz_2d
+from fvhoe.initial_conditions import InitialCondition, KelvinHelmholtz2D
 from fvhoe.solver import EulerSolver
 import matplotlib.pyplot as plt
 import numpy as np
@@ -10,7 +10,7 @@ def EulerSolver_wrapper(
     project_pref: str,
     snapshot_parent_dir: str,
     summary_parent_dir: str = None,
-    ic: callable = kelvin_helmholtz_2d,
+    ic: InitialCondition = KelvinHelmholtz2D(),
     bc: BoundaryCondition = BoundaryCondition(),
     T: float = 1.0,
     integrator: int = -1,
@@ -26,7 +26,7 @@ def EulerSolver_wrapper(
         snapshot_parent_dir (str) : snapshot parent directory
         summary_parent_dir (str) : summary parent directory. used for saving output from snapshot
             helper functions. if None, no snapshot_helper_function is used.
-        ic (callable) : valid EulerSolver initial condition function
+        ic (InitialCondition) : valid EulerSolver initial condition
         bc (BoundaryCondition) : valid EulerSolver boundary condition object
         T (float) : simulation time
         integrator (int) : integrator order. if -1, EulerSolver.run() is used.
-- 
2.43.0


From 7783225b1f5d53b1b15a0e2f8ba61252c1edcf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:29 +0000
Subject: [PATCH 11/26] fix: treat both sides of a flat region alike in smooth
 extrema detection

---
 fvhoe/smooth_extrema_detection.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fvhoe/smooth_extrema_detection.py b/fvhoe/smooth_extrema_detection.py
index 04c3df8..f00b775 100644
--- a/fvhoe/smooth_extrema_detection.py
+++ b/fvhoe/smooth_extrema_detection.py
@@ -33,9 +33,7 @@ def compute_1d_smooth_extrema_detector(
     # left detector
     vL = dU[slices[0]] - dU[slices[1]]
     alphaL = -np.where(dv < 0, np.where(vL > 0, vL, 0), np.where(vL < 0, vL, 0)) / dv
-    alphaL[...] = (
-        -np.where(dv < 0, np.where(vL > 0, vL, 0), np.where(vL < 0, vL, 0)) / dv
-    )
+    alphaL[...] = np.where(np.abs(dv) <= eps, 1, alphaL)
     alphaL[...] = np.where(alphaL < 1, alphaL, 1)
 
     # right detector
-- 
2.43.0


From b4fa56a915820c97dbaad3c7bae048cc70387615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:29 +0000
Subject: [PATCH 12/26] fix: never step back to a downbeat that has already
 passed

---
 fvhoe/ode.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 69c9f5b..771b892 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -144,10 +144,9 @@ class ODE(ABC):
         elif isinstance(downbeats, np.ndarray):
             downbeats = downbeats.tolist()
 
-        downbeats = sorted(set([0] + downbeats + [T]))[
-            1:
-        ]  # get unique values and ignore 0
-        target_time = downbeats.pop(0) if exact else None
+        # get unique values and ignore the past
+        downbeats = sorted(t for t in set([*downbeats, T]) if t > self.t)
+        target_time = downbeats.pop(0) if exact and downbeats else None
 
         # initial snapshot
         self.snapshot()
-- 
2.43.0


From 77f4c6301f79c59373fa77a46a8488a7d3a9af0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:29 +0000
Subject: [PATCH 13/26] fix: plotting functions accept a snapshot list

---
 fvhoe/visualization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index f99747b..5be72a9 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -161,7 +161,7 @@ def plot_1d_slice(
     returns:
         None : modifies the input Axes object
     """
-    hs = solver.hydro_state
+    hs = getattr(solver, "hydro_state", _hs)
     snapshots = get_snapshot_list(solver)
     n, slices = get_indices_from_coordinates(snapshots, t, x, y, z)
 
@@ -238,7 +238,7 @@ def plot_2d_slice(
     returns:
         None : modifies the input Axes object
     """
-    hs = solver.hydro_state
+    hs = getattr(solver, "hydro_state", _hs)
     snapshots = get_snapshot_list(solver)
     n, slices = get_indices_from_coordinates(snapshots, t, x, y, z)
 
@@ -332,7 +332,7 @@ def sample_circular_average(
         bin_average (array_like) : average of param in each bin
         r_average (array_like) : average radius in each bin
     """
-    hs = solver.hydro_state
+    hs = getattr(solver, "hydro_state", _hs)
     snapshots = get_snapshot_list(solver)
     n, _ = get_indices_from_coordinates(snapshots, t)
 
-- 
2.43.0


From e202f02493b82dc43f4948c1fc05025d18ca1979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:29 +0000
Subject: [PATCH 14/26] fix: overlay_trouble=True overlays all trouble

---
 fvhoe/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index 5be72a9..679203c 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -120,7 +120,7 @@ def plotting_trouble(snapshot: dict, mode: str, tol: float) -> np.ndarray:
         np.where(trouble > 0, 1, 0) == np.logical_or(NAD_mag > 0, PAD_mag > 0)
     ):
         raise ValueError("trouble must be consistent with NAD and PAD")
-    if mode == "all":
+    if mode == "all" or mode is True:
         out = np.where(PAD_mag > 0, 1, np.where(NAD_mag > tol, 1, 0))
     elif mode == "NAD":
         out = np.where(NAD_mag > tol, 1, 0)
-- 
2.43.0


From 7bdfd83853834bbe12684f51d4e97c5e7d7064e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:29 +0000
Subject: [PATCH 15/26] fix: evaluate the second ssprk2 stage at its own time

---
 fvhoe/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 771b892..3bbb068 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -260,7 +260,7 @@ class ODE(ABC):
             dt, k0 = self.f(t, u)
             dt = _hit_target(t=t, dt=dt, target=target_time)
             u1 = u + dt * k0
-            _, k1 = self.f(t, u1)
+            _, k1 = self.f(t + dt, u1)
             unext = 0.5 * u + 0.5 * (u1 + dt * k1)
             return dt, unext
 
-- 
2.43.0


From 4d4c1b8eeafebb9b5369385567866ef4074ef201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:55 +0000
Subject: [PATCH 16/26] fix: apply time-dependent boundary conditions at the
 time of each substep

---
 fvhoe/solver.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index ea6f4f8..b76d3c0 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -424,19 +424,22 @@ class EulerSolver(ODE):
         compute the RHS of the Euler equations
         """
         self.f_evaluation_count += 1
-        return self.hydrodynamics(u)
+        return self.hydrodynamics(u, t=t)
 
-    def hydrodynamics(self, u: np.ndarray) -> Tuple[float, np.ndarray]:
+    def hydrodynamics(
+        self, u: np.ndarray, t: float = None
+    ) -> Tuple[float, np.ndarray]:
         """
         compute the Euler equation dynamics from cell-average conserved values u
         args:
             u (array_like) : fv averages of conservative variables. has shape (nvars, nx, ny, nz)
+            t (float) : time of u. current time if None
         returns:
             dt, dudt (float, array_like) : time-step size, conservative variable dynamics
         """
         # high-order fluxes
         dt, (self.am("F")[...], self.am("G")[...], self.am("H")[...]) = (
-            self.hydrofluxes(u=u, p=self.p, timer_prefix="(high-order) ")
+            self.hydrofluxes(u=u, p=self.p, timer_prefix="(high-order) ", t=t)
         )
 
         if self.a_posteriori_slope_limiting:
@@ -447,6 +450,7 @@ class EulerSolver(ODE):
                 H=self.am("H"),
                 dt=dt,
                 force_trouble=self.force_trouble,
+                t=t,
             )
 
         # compute conservative variable dynamics
@@ -459,6 +463,7 @@ class EulerSolver(ODE):
         p: Tuple[int, int, int],
         slope_limiter: str = None,
         timer_prefix: str = "",
+        t: float = None,
     ) -> Tuple[float, Tuple[np.ndarray, np.ndarray, np.ndarray]]:
         """
         compute the Euler equation fluxes F, G, H with degree p polynomials. optionally apply slope limiting.
@@ -468,6 +473,7 @@ class EulerSolver(ODE):
             p (Tuple[int, int, int]) : polynomial interpolation degree (px, py, pz)
             limiter (str) : None, 'minmod', 'moncen'
             timer_prefix (str) : prefix for timer categories
+            t (float) : time of u. current time if None
         returns:
             dt, (F, G, H) (tuple) : time-step size and numerical fluxes
                 dt (float) : time-step size
@@ -501,6 +507,7 @@ class EulerSolver(ODE):
                 gw if self.ydim else 0,
                 gw if self.zdim else 0,
             ),
+            t=t,
         )
 
         # time-step size
@@ -658,6 +665,7 @@ class EulerSolver(ODE):
         H: np.ndarray,
         dt: float,
         force_trouble: bool = False,
+        t: float = None,
     ) -> None:
         """
         revise fluxes to prevent oscillations
@@ -668,6 +676,7 @@ class EulerSolver(ODE):
             H (array_like) : z-fluxes. has shape (nvars, nx, ny, nz + 1)
             dt (float) : time-step size
             force_trouble (bool) : all cells are troubled
+            t (float) : time of u. current time if None
         returns:
             None : revise fluxes in place
         """
@@ -683,8 +692,10 @@ class EulerSolver(ODE):
             3 if self.ydim else 0,
             3 if self.zdim else 0,
         )
-        w = self.interpolate_primitives_from_conservatives(u, p=self.p, gw=gw)
-        w_star = self.interpolate_primitives_from_conservatives(ustar, p=self.p, gw=gw)
+        w = self.interpolate_primitives_from_conservatives(u, p=self.p, gw=gw, t=t)
+        w_star = self.interpolate_primitives_from_conservatives(
+            ustar, p=self.p, gw=gw, t=t
+        )
 
         # detect troubled cells
         self.timer.start("(fallback scheme) troubled cell detection")
@@ -714,6 +725,7 @@ class EulerSolver(ODE):
                 p=(int(self.p[0] > 0), int(self.p[1] > 0), int(self.p[2] > 0)),
                 slope_limiter=self.slope_limiter,
                 timer_prefix="(fallback scheme) ",
+                t=t,
             )
 
             # get mask for troubled interfaces
@@ -756,6 +768,7 @@ class EulerSolver(ODE):
         p: Tuple[int, int, int],
         gw: Tuple[int, int, int] = (0, 0, 0),
         fv_average: bool = True,
+        t: float = None,
     ) -> np.ndarray:
         """
         interpolate finite volume primitives from finite volume conservatives
@@ -765,6 +778,7 @@ class EulerSolver(ODE):
             gw (Tuple[int, int, int]) : how many ghost zones w should have on each side (gx, gy, gz).
                 all values should be at least 0
             fv_average (bool) : whether u is cell-averaged or centroids
+            t (float) : time at which boundary conditions are applied. current time if None
         returns:
             w (array_like) : primitive variables as finite volume averages or centroids
         """
@@ -781,7 +795,7 @@ class EulerSolver(ODE):
             interp_cost_z = get_stencil_size(p[2])
         gw = (gw[0] + interp_cost_x, gw[1] + interp_cost_y, gw[2] + interp_cost_z)
         self.timer.start("boundary conditions")
-        u_bc = self.bc.apply(u, gw=gw, t=self.t)
+        u_bc = self.bc.apply(u, gw=gw, t=self.t if t is None else t)
         self.timer.stop("boundary conditions")
         u_cell_centers = interpolate_cell_centers(u_bc, p=p)
         w_cell_centers = compute_primitives(hs, u_cell_centers, gamma=self.gamma)
-- 
2.43.0


From 465374489df0adaab54e9278eb8226a904a80579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:55 +0000
Subject: [PATCH 17/26] fix: integrate a given number of steps even if T is
 given

---
 fvhoe/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 3bbb068..16dc23a 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -111,7 +111,7 @@ class ODE(ABC):
             snapshot_dir (str) : directory to save snapshots. if None, does not save
             overwrite (bool) : overwrite the snapshot directory if it exists
         """
-        predetermined_step_count = T is None
+        predetermined_step_count = n is not None
 
         # if given n, perform a simple time evolution
         if predetermined_step_count:
-- 
2.43.0


From 08e2d31ef591d4f9a18e13b1bd09f814d4293945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:35 +0000
Subject: [PATCH 18/26] fix: land exactly on target times despite rounding

---
 fvhoe/ode.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 16dc23a..e6ec82f 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -186,7 +186,11 @@ class ODE(ABC):
         dt, self.am("u")[...] = self.stepper(
             self.t, self.am("u"), target_time=target_time
         )
-        self.t += dt
+        if target_time is not None and dt == target_time - self.t:
+            # avoid missing the target by a rounding error
+            self.t = float(target_time)
+        else:
+            self.t += dt
         self.timestamps.append(self.t)
         self.step_count += 1
         self.step_helper_function()
-- 
2.43.0


From 647d2bbe155e5e8e190887763d1d7c2da85aab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:34 +0000
Subject: [PATCH 19/26] fix: evaluate the square wave at x alone

---
 fvhoe/initial_conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/initial_conditions.py b/fvhoe/initial_conditions.py
index 76195f9..6b00779 100644
--- a/fvhoe/initial_conditions.py
+++ b/fvhoe/initial_conditions.py
@@ -159,7 +159,7 @@ class Square(InitialCondition):
                     np.logical_and(r > 0.25, r < 0.75) if dim in dims else True
                 )
 
-            out = np.empty((5,) + r.shape)
+            out = np.empty((5,) + x.shape)
             out[_hs("rho")] = np.where(inside_square, rho_min_max[1], rho_min_max[0])
             out[_hs("vx")] = vx
             out[_hs("vy")] = vy
-- 
2.43.0


From 265519aa41e747966264cb1c603341f958ec5de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:37 +0000
Subject: [PATCH 20/26] fix: average over shells in floating point for integer
 radii

---
 fvhoe/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index 679203c..f12ba97 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -349,8 +349,8 @@ def sample_circular_average(
         param_data = get_velocity_magnitude(snapshots[n]["w"])
     else:
         param_data = snapshots[n]["w"][hs(param)]
-    r_average = np.empty_like(radii[:-1])
-    bin_average = np.empty_like(radii[:-1])
+    r_average = np.empty(len(radii) - 1)
+    bin_average = np.empty(len(radii) - 1)
 
     # sample
     for i, (little_r, big_r) in enumerate(zip(radii[:-1], radii[1:])):
-- 
2.43.0


From b1a7abc230cd13fc7c271bb8994717f7911ba725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:02 +0000
Subject: [PATCH 21/26] fix: no progress bar for a given number of steps unless
 asked for

---
 fvhoe/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index e6ec82f..53221cd 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -119,7 +119,7 @@ class ODE(ABC):
             self.snapshot()
             self.timer.stop("SNAPSHOTS")
             self.timer.start("TOTAL")
-            for _ in tqdm(range(n)):
+            for _ in tqdm(range(n), disable=not self.print_progress_bar):
                 self.take_step()
             self.timer.stop("TOTAL")
             self.timer.start("SNAPSHOTS")
-- 
2.43.0


From 4123f077fa14cb8eb00535956cfe442024962bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:18 +0000
Subject: [PATCH 22/26] fix: variable mask of the detector lives where its
 operands do

With GPU arrays a host mask was combined with device arrays.
---
 fvhoe/slope_limiting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index 5024847..ca013e0 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -216,7 +216,7 @@ def detect_troubled_cells(
 
     # NAD across all variables
     if NAD_vars is not None:
-        NAD_var_filter = np.zeros((5, 1, 1, 1))
+        NAD_var_filter = np.zeros_like(NAD_trouble_per_var[:, :1, :1, :1])
         NAD_var_filter[_hs(NAD_vars)] = 1
         NAD_trouble_per_var = np.where(NAD_var_filter, NAD_trouble_per_var, 0)
     NAD_trouble = np.any(NAD_trouble_per_var, axis=0)
-- 
2.43.0


From 2754cebfbb1ec0eb8a13dd0a687d3e5760929474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:18 +0000
Subject: [PATCH 23/26] fix: initial-condition boundaries on the GPU

The initial condition works on host coordinates: evaluate it there and move the values to the device.
---
 fvhoe/solver.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index b76d3c0..5fb2353 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -29,6 +29,7 @@ import shutil
 from typing import Callable, Dict, Iterable, Tuple
 
 try:
+    import cupy as cp
     from cupy import ndarray as cp_ndarray
 
     CUPY_AVAILABLE = True
@@ -355,11 +356,19 @@ class EulerSolver(ODE):
 
         # configure initial condition boundary conditions
         if "ic" in set(self.bc.x + self.bc.y + self.bc.z):
+            ic_value = self.u0
+            if self.am.using_cupy:
+                # initial conditions are evaluated on the host
+                def ic_value(x, y, z):
+                    return cp.asarray(
+                        self.u0(cp.asnumpy(x), cp.asnumpy(y), cp.asnumpy(z))
+                    )
+
             for dim in "xyz":
                 if getattr(self.bc, dim)[0] == "ic":
-                    self.bc.reset_value(dim, "l", self.u0)
+                    self.bc.reset_value(dim, "l", ic_value)
                 if getattr(self.bc, dim)[1] == "ic":
-                    self.bc.reset_value(dim, "r", self.u0)
+                    self.bc.reset_value(dim, "r", ic_value)
 
     def _init_slope_limiting(
         self,
-- 
2.43.0


From 150c83033829706064ef312f0215eb7303640a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:00 +0000
Subject: [PATCH 24/26] fix: widen absolute NAD bounds whatever their signs

---
 fvhoe/slope_limiting.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index ca013e0..762f509 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -181,14 +181,17 @@ def detect_troubled_cells(
     elif range_type == "absolute":
         if mode == "global":
             # absolute global NAD
-            lower_bound = (1 - NAD_eps) * np.min(u_copy, axis=(1, 2, 3), keepdims=True)
-            upper_bound = (1 + NAD_eps) * np.max(u_copy, axis=(1, 2, 3), keepdims=True)
+            lower_bound = np.min(u_copy, axis=(1, 2, 3), keepdims=True)
+            upper_bound = np.max(u_copy, axis=(1, 2, 3), keepdims=True)
         elif mode == "local":
             # absolute local NAD
-            lower_bound = (1 - NAD_eps) * m
-            upper_bound = (1 + NAD_eps) * M
+            lower_bound = m
+            upper_bound = M
         else:
             raise ValueError(f"Unknown mode: {mode}")
+        # widen the bounds, whatever their signs
+        lower_bound = lower_bound - NAD_eps * np.abs(lower_bound)
+        upper_bound = upper_bound + NAD_eps * np.abs(upper_bound)
         NAD_indicator_per_var = np.minimum(
             u_candidate_inner - lower_bound, upper_bound - u_candidate_inner
         )
-- 
2.43.0


From 4faa0d02cb52b34b6e3c77dfbd53ba2b25ce73cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:35 +0000
Subject: [PATCH 25/26] fix: fill the ghost cells of a boundary that is
 periodic on its right side only

---
 fvhoe/boundary_conditions.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 3ca1d8f..593215a 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -86,7 +86,7 @@ def _set_free_bc(
 
 
 def _set_periodic_bc(
-    hs: HydroState, u: np.ndarray, slab_thickness: int, axis: int
+    hs: HydroState, u: np.ndarray, slab_thickness: int, axis: int, pos: str
 ) -> None:
     """
     modify u to impose periodic boundaries
@@ -95,6 +95,7 @@ def _set_periodic_bc(
         u: (array_like) array to apply periodic boundary conditions to
         slab_thickness: (int) thickness of the slab to be copied
         axis: (int) axis to apply periodic boundary conditions
+        pos: (str) position of the slab to be filled, "l" or "r"
     returns:
         None, modifies u in place
     """
@@ -103,8 +104,12 @@ def _set_periodic_bc(
     inner_l = hs(axis=axis, cut=(st, 2 * st))
     outer_r = hs(axis=axis, cut=(-st, 0))
     inner_r = hs(axis=axis, cut=(-2 * st, -st))
-    u[outer_l] = u[inner_r]
-    u[outer_r] = u[inner_l]
+    if pos == "l":
+        u[outer_l] = u[inner_r]
+    elif pos == "r":
+        u[outer_r] = u[inner_l]
+    else:
+        raise ValueError(f"Invalid pos '{pos}'")
 
 
 def _set_symmetric_bc(
@@ -364,13 +369,13 @@ class BoundaryCondition:
                         negate_var=f"m{dim}" if bc == "reflective" else None,
                     )
                 case "periodic":
-                    if pos == "l":  # do not apply periodic bc's twice
-                        _set_periodic_bc(
-                            hs=self.hydro_state,
-                            u=out,
-                            slab_thickness=slab_thickness,
-                            axis=i + 1,
-                        )
+                    _set_periodic_bc(
+                        hs=self.hydro_state,
+                        u=out,
+                        slab_thickness=slab_thickness,
+                        axis=i + 1,
+                        pos=pos,
+                    )
                 case "special-case-double-mach-reflection-y=0":
                     X = self.trim_slabs(gw=gw, axis=1, pos="l")[0][
                         np.newaxis, :, :1, :1
-- 
2.43.0


From 76c6c88e2ebbb929ac672949971c8943fa9796a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:41 +0000
Subject: [PATCH 26/26] fix: periodic ghost regions wider than the grid repeat
 the period, mirrored ones are rejected

---
 fvhoe/boundary_conditions.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 593215a..ee6f732 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -99,18 +99,25 @@ def _set_periodic_bc(
     returns:
         None, modifies u in place
     """
-    st = slab_thickness
-    outer_l = hs(axis=axis, cut=(0, st))
-    inner_l = hs(axis=axis, cut=(st, 2 * st))
-    outer_r = hs(axis=axis, cut=(-st, 0))
-    inner_r = hs(axis=axis, cut=(-2 * st, -st))
-    if pos == "l":
-        u[outer_l] = u[inner_r]
-    elif pos == "r":
-        u[outer_r] = u[inner_l]
-    else:
+    if pos not in ("l", "r"):
         raise ValueError(f"Invalid pos '{pos}'")
 
+    # fill the slab outwards, one period at a time
+    st = slab_thickness
+    n = u.shape[axis] - 2 * st
+    filled = 0
+    while filled < st:
+        width = min(n, st - filled)
+        lo, hi = st - filled - width, st - filled
+        if pos == "l":
+            outer = hs(axis=axis, cut=(lo, -(2 * st + n - hi)))
+            inner = hs(axis=axis, cut=(lo + n, -(2 * st - hi)))
+        else:
+            outer = hs(axis=axis, cut=(2 * st + n - hi, -lo))
+            inner = hs(axis=axis, cut=(2 * st - hi, -(lo + n)))
+        u[outer] = u[inner]
+        filled += width
+
 
 def _set_symmetric_bc(
     hs: HydroState,
@@ -133,6 +140,8 @@ def _set_symmetric_bc(
         None, modifies u in place
     """
     st = slab_thickness
+    if u.shape[axis] < 3 * st:
+        raise ValueError("Symmetric boundaries require a slab no thicker than the domain.")
     flip = hs(axis=axis, cut=(0, 0), step=-1)
     if pos == "l":
         outer = hs(axis=axis, cut=(0, st))
-- 
2.43.0

