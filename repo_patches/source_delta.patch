From 00dc4dd42d72ea209c539df46c96787828c8550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 01/51] fix: PolygonBoundaryXZ counted a vertex above the point
 twice

---
 zoidberg/boundary.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/zoidberg/boundary.py b/zoidberg/boundary.py
index 406e5e0..37d46af 100644
--- a/zoidberg/boundary.py
+++ b/zoidberg/boundary.py
@@ -123,17 +123,18 @@ class PolygonBoundaryXZ(object):
             zp_1 = self.zarr[ip]
 
             # First calculate b = (x_0 - x'_0) / (x'_1 - x'_0)
-            # but check for case where (x'_1 - x'_0) is small
-            if abs(xp_1 - xp_0) < 1e-6:
+            # but check for case where (x'_1 - x'_0) is zero
+            if xp_1 == xp_0:
                 continue  # Skip this segment
 
             b = (x_0 - xp_0) / (xp_1 - xp_0)
 
             a = (zp_0 - z_0 + b * (zp_1 - zp_0)) / (z_1 - z_0)
 
-            intersect = np.logical_and(
-                np.logical_and(b >= 0.0, b <= 1.0), np.logical_and(a >= 0.0, a <= 1.0)
-            )
+            # Only one end of each segment is included, so that a line which
+            # goes through a vertex is not counted once for each segment
+            spans = (xp_0 > x_0) != (xp_1 > x_0)
+            intersect = np.logical_and(spans, np.logical_and(a >= 0.0, a <= 1.0))
 
             # intersect is now true for those points which intersect this line segment
             outside = np.logical_xor(outside, intersect)
-- 
2.43.0


From a73a5388d281904dfd55c7792539d7535341c5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 02/51] fix: RZline.positionPolygon did not scale the fraction
 along an edge

---
 zoidberg/rzline.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index ba88c65..782570d 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -175,8 +175,11 @@ class RZline:
             return self.R, self.Z
         n = len(self.R)
         dtheta = 2.0 * np.pi / n
-        ind = np.trunc(theta / dtheta).astype(int) % n
-        rem = np.remainder(theta, dtheta)
+        # Position in units of the point spacing
+        pos = np.asarray(theta) / dtheta
+        base = np.floor(pos)
+        ind = base.astype(int) % n
+        rem = pos - base  # Fraction of the way to the next point
         indp = (ind + 1) % n
         return (rem * self.R[indp] + (1.0 - rem) * self.R[ind]), (
             rem * self.Z[indp] + (1.0 - rem) * self.Z[ind]
-- 
2.43.0


From 340edfb2051a0a826860b082dabf74fd0d5227cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 03/51] fix: RectangularPoloidalGrid second and mixed
 derivatives are zero

---
 zoidberg/poloidal_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 7a9fb19..95439c8 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -185,7 +185,7 @@ class RectangularPoloidalGrid(PoloidalGrid):
 
         shape = xind.shape
 
-        if dx + dz > 2:
+        if dx + dz > 1:
             # Second derivatives and mixed derivatives all zero
             return np.zeros(shape), np.zeros(shape)
 
-- 
2.43.0


From c9e0170b1611336b434e3cd8982790f151716852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 04/51] fix: FieldTracerReversible modified the caller's
 starting positions

---
 zoidberg/fieldtracer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index c59d134..1fc6e00 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -241,9 +241,9 @@ class FieldTracerReversible(object):
 
         result = np.zeros((len(y_values),) + array_shape + (2,))
 
-        # Starting position
-        x_pos = x_values
-        z_pos = z_values
+        # Starting position. Copied, since these are updated in place
+        x_pos = np.array(x_values, dtype=float)
+        z_pos = np.array(z_values, dtype=float)
         y_pos = y_values[0]
 
         result[0, ..., 0] = x_pos
-- 
2.43.0


From a80e47f77cb572b66197a0d98c5425913b29d53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 05/51] fix: get_metric modified the metric stored in the grid

---
 zoidberg/zoidberg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 7230f3a..4d10cf9 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -432,7 +432,11 @@ def update_metric_names(metric):
 def get_metric(grid, magnetic_field):
     nx, ny, nz = grid.shape
     # Get metric tensor
-    metric = grid.metric()
+    # Copied, as the y components are modified below
+    metric = {
+        k: v.copy() if isinstance(v, np.ndarray) else v
+        for k, v in grid.metric().items()
+    }
 
     # Check if the magnetic field is in cylindrical coordinates
     # If so, we need to change the gyy and g_yy metrics
-- 
2.43.0


From 0ddb9a3ad1e3c847b2de16c78233165e73b87035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 06/51] fix: c2 and c4 fail or truncate for integer input

---
 zoidberg/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/diff.py b/zoidberg/diff.py
index 9d3bd02..b21998c 100644
--- a/zoidberg/diff.py
+++ b/zoidberg/diff.py
@@ -6,7 +6,7 @@ def c2(f, axis, periodic=False):
         return (np.roll(f, -1, axis=axis) - np.roll(f, 1, axis)) / 2
     sl1 = [slice(None) for _ in f.shape]
     sl2 = [slice(None) for _ in f.shape]
-    out = np.empty_like(f)
+    out = np.empty_like(f, dtype=np.result_type(f, 1.0))
 
     t = tuple
 
@@ -53,7 +53,7 @@ def c4(f, axis, periodic=False):
 
     t = tuple
 
-    out = np.empty_like(f)
+    out = np.empty_like(f, dtype=np.result_type(f, 1.0))
     slc = [slice(None) for _ in f.shape]
 
     slc[axis] = slice(2, -2)
-- 
2.43.0


From 7033cebbb673922e8100206d17a927956adfe502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 07/51] fix: make_maps traced empty chunks when n_chunks > nx

---
 zoidberg/zoidberg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 4d10cf9..205fbe8 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -324,7 +324,7 @@ def make_maps(
     B_cell = [np.empty(shape) for _ in range(3)]
 
     for j in range(ny):
-        chunks_x = np.array_split(np.arange(0, nx), n_chunks)
+        chunks_x = np.array_split(np.arange(0, nx), min(n_chunks, nx))
         pol, ycoord = grid.getPoloidalGrid(j)
 
         for chunk in chunks_x:
-- 
2.43.0


From 8aa55392164e36c94f6e83703a4f1a87347bf0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 08/51] fix: fractional y index was interpolated from the wrong
 end

---
 zoidberg/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/grid.py b/zoidberg/grid.py
index ea384eb..86968cb 100644
--- a/zoidberg/grid.py
+++ b/zoidberg/grid.py
@@ -104,7 +104,7 @@ class Grid(object):
             _, yup = self.getPoloidalGrid(floor + 1)
             _, ydown = self.getPoloidalGrid(floor)
             fac = yindex - floor
-            return None, ydown + (yup - ydown) * (1 - fac)
+            return None, ydown + (yup - ydown) * fac
 
         if (yindex >= 0) and (yindex < ny):
             # Within index range, so just return
-- 
2.43.0


From 5b134cb1493b879a6076cabf6b1e44f86e37d099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 09/51] fix: dy did not take into account periodicity in y

---
 zoidberg/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zoidberg/grid.py b/zoidberg/grid.py
index 86968cb..d8d4b7b 100644
--- a/zoidberg/grid.py
+++ b/zoidberg/grid.py
@@ -189,8 +189,10 @@ class Grid(object):
         ny = self.ycoords.size
         if ny == 1:
             dy = np.array([self.Ly])
+        elif self.yperiodic:
+            dy = np.gradient(ycoords)[ny : (2 * ny)]
         else:
-            dy = np.gradient(ycoords[ny : (2 * ny)])
+            dy = np.gradient(self.ycoords)
 
         dy3d = np.zeros(self.shape)
         dy3d[...] = dy[None, :, None]
-- 
2.43.0


From 9c268cf8e5b61f5ff4ac4f2926719d32a4ad29d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 10/51] fix: interpolation weights extrapolated for negative z
 indices

---
 zoidberg/weights.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/weights.py b/zoidberg/weights.py
index 031a773..596f4df 100644
--- a/zoidberg/weights.py
+++ b/zoidberg/weights.py
@@ -448,8 +448,8 @@ def accumulate_interior_stencil(
         if hit_boundary:
             continue
 
-        x_base = int(mapped_x)
-        z_base = int(mapped_z)
+        x_base = int(np.floor(mapped_x))
+        z_base = int(np.floor(mapped_z))
 
         weights_x = catmull_rom_weights(mapped_x - x_base)
         weights_z = catmull_rom_weights(mapped_z - z_base)
-- 
2.43.0


From 808a1d9db68a41b227720bd87b31d6616a2fc930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 11/51] fix: trace_poincare sorted the caller's y_slices

---
 zoidberg/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 1fc6e00..f0fc5cf 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -359,7 +359,7 @@ def trace_poincare(
         raise ValueError("nplot and y_slices cannot both be None")
 
     if y_slices is not None:
-        y_slices = np.asarray(y_slices)
+        y_slices = np.array(y_slices)
 
         if np.amin(y_slices) < 0.0 or np.amax(y_slices) > yperiod:
             raise ValueError(
-- 
2.43.0


From 600bf6d03a5e4266c7b24d489bafe6feb8c1ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 12/51] fix: FusionSCTracer ignored the rtol argument

---
 zoidberg/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index f0fc5cf..2f8b843 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -959,7 +959,7 @@ class FusionSCTracer(FieldTracer):
         Z = z_values
         direction = "ccw" if y_values[0] < y_values[1] else "cw"
         pnts = fsc.flt.poincareInPhiPlanes(
-            [X, Y, Z], self.field, y_values[1:], 1, direction=direction, **self.kwargs
+            [X, Y, Z], self.field, y_values[1:], 1, direction=direction, **kwargs
         )
         assert pnts.shape[-1] == 1
         pnts = pnts[..., 0]
-- 
2.43.0


From 1268c903ff652fb5a9e8c2c8f196f19f4febb5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:41 +0000
Subject: [PATCH 13/51] fix: GEQDSK added its psi to the attributes of all
 fields

---
 zoidberg/field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index af68411..e66ca96 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1259,7 +1259,10 @@ class GEQDSK(MagneticField):
         self.psi_func = interpolate.RectBivariateSpline(self.r, self.z, self.psi)
 
         # Add to the attributes so that it can be written to file
-        self.attributes["psi"] = lambda x, z, phi: self.psi_func(x, z, grid=False)
+        # Note: a new dictionary, since the class attribute is shared by all fields
+        self.attributes = dict(
+            self.attributes, psi=lambda x, z, phi: self.psi_func(x, z, grid=False)
+        )
 
         # Create a normalised psi array
 
-- 
2.43.0


From 0b9c0d7acd3660310ba621d94355307cfc884123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:41 +0000
Subject: [PATCH 14/51] fix: make_maps checked the boundary at the y of the
 last slice

---
 zoidberg/zoidberg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 205fbe8..0d3f1b0 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -221,8 +221,8 @@ def make_maps(
                 1:, ...
             ]
 
-            for parallel_slice, coord, pol_slice in zip(
-                parallel_slices, coords, pol_slices
+            for parallel_slice, coord, pol_slice, y_slice in zip(
+                parallel_slices, coords, pol_slices, y_slices[1:]
             ):
                 # Store the coordinates in real space
                 parallel_slice.R[:, j, :] = coord[:, :, 0]
-- 
2.43.0


From 3bdaffe101f1de516b38afd710edd76e379878ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:41 +0000
Subject: [PATCH 15/51] fix: sub-cell maps were only filled for the last
 parallel slice

---
 zoidberg/zoidberg.py | 104 +++++++++++++++++++++----------------------
 1 file changed, 52 insertions(+), 52 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 0d3f1b0..77e1ca8 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -247,59 +247,59 @@ def make_maps(
                 parallel_slice.xt_prime[:, j, :] = xind
                 parallel_slice.zt_prime[:, j, :] = zind
 
-            if nsamples == 1:
-                # Only one sample per cell
-                parallel_slice.xt_primes[:, j, :, 0] = xind
-                parallel_slice.zt_primes[:, j, :, 0] = zind
-            elif pol_slice is None:
-                # No slice grid, so hit a boundary
-                # Not calculating intersection R,Z so no need to follow
-                parallel_slice.xt_primes[:, j, :, :] = -1
-                parallel_slice.zt_primes[:, j, :, :] = -1
-            else:
-                # Multiple samples.
-                # Interpolate R and Z to get starting locations
-                from scipy import interpolate
-
-                R = pol.R
-                Z = pol.Z
-                nx, nz = pol.R.shape
-                # Wrap around in Z by adding the arrays
-                Rinterp = interpolate.RegularGridInterpolator(
-                    (np.arange(nx), np.arange(nz + 2) - 1),
-                    np.concatenate((R[:, -1:], R, R[:, 0:1]), axis=-1),
-                    bounds_error=False,
-                    fill_value=None,  # Extrapolates
-                )
-                Zinterp = interpolate.RegularGridInterpolator(
-                    (np.arange(nx), np.arange(nz + 2) - 1),
-                    np.concatenate((Z[:, -1:], Z, Z[:, 0:1]), axis=-1),
-                    bounds_error=False,
-                    fill_value=None,  # Extrapolates
-                )
-
-                # Indices of the cell centers
-                xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
-
-                for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
-                    coord = field_tracer.follow_field_lines(
-                        Rinterp((xinds + xo, zinds)),
-                        Zinterp((xinds + zo, zinds)),
-                        [ycoord, y_slice],
-                        rtol=rtol,
-                    )[1, ...]
-                    xcoord = coord[:, :, 0]
-                    zcoord = coord[:, :, 1]
-                    xind, zind = pol_slice.findIndex(xcoord, zcoord)
-
-                    # Check boundary defined by the field
-                    # Note: A fraction of points may hit the boundary
-                    outside = magnetic_field.boundary.outside(xcoord, y_slice, zcoord)
-                    xind[outside] = -1
-                    zind[outside] = -1
+                if nsamples == 1:
+                    # Only one sample per cell
+                    parallel_slice.xt_primes[:, j, :, 0] = xind
+                    parallel_slice.zt_primes[:, j, :, 0] = zind
+                elif pol_slice is None:
+                    # No slice grid, so hit a boundary
+                    # Not calculating intersection R,Z so no need to follow
+                    parallel_slice.xt_primes[:, j, :, :] = -1
+                    parallel_slice.zt_primes[:, j, :, :] = -1
+                else:
+                    # Multiple samples.
+                    # Interpolate R and Z to get starting locations
+                    from scipy import interpolate
+
+                    R = pol.R
+                    Z = pol.Z
+                    nx, nz = pol.R.shape
+                    # Wrap around in Z by adding the arrays
+                    Rinterp = interpolate.RegularGridInterpolator(
+                        (np.arange(nx), np.arange(nz + 2) - 1),
+                        np.concatenate((R[:, -1:], R, R[:, 0:1]), axis=-1),
+                        bounds_error=False,
+                        fill_value=None,  # Extrapolates
+                    )
+                    Zinterp = interpolate.RegularGridInterpolator(
+                        (np.arange(nx), np.arange(nz + 2) - 1),
+                        np.concatenate((Z[:, -1:], Z, Z[:, 0:1]), axis=-1),
+                        bounds_error=False,
+                        fill_value=None,  # Extrapolates
+                    )
 
-                    parallel_slice.xt_primes[:, j, :, s] = xind
-                    parallel_slice.zt_primes[:, j, :, s] = zind
+                    # Indices of the cell centers
+                    xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
+
+                    for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
+                        coord = field_tracer.follow_field_lines(
+                            Rinterp((xinds + xo, zinds)),
+                            Zinterp((xinds + zo, zinds)),
+                            [ycoord, y_slice],
+                            rtol=rtol,
+                        )[1, ...]
+                        xcoord = coord[:, :, 0]
+                        zcoord = coord[:, :, 1]
+                        xind, zind = pol_slice.findIndex(xcoord, zcoord)
+
+                        # Check boundary defined by the field
+                        # Note: A fraction of points may hit the boundary
+                        outside = magnetic_field.boundary.outside(xcoord, y_slice, zcoord)
+                        xind[outside] = -1
+                        zind[outside] = -1
+
+                        parallel_slice.xt_primes[:, j, :, s] = xind
+                        parallel_slice.zt_primes[:, j, :, s] = zind
 
             if (not quiet) and (ny > 1):
                 if tqdm:
-- 
2.43.0


From 78af04f204fbddb93b1439b0d3e04f9e486a77ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:41 +0000
Subject: [PATCH 16/51] fix: sub-cell samples were not at the quadrature points

---
 zoidberg/zoidberg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 77e1ca8..eb20696 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -283,8 +283,8 @@ def make_maps(
 
                     for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
                         coord = field_tracer.follow_field_lines(
-                            Rinterp((xinds + xo, zinds)),
-                            Zinterp((xinds + zo, zinds)),
+                            Rinterp((xinds + xo, zinds + zo)),
+                            Zinterp((xinds + xo, zinds + zo)),
                             [ycoord, y_slice],
                             rtol=rtol,
                         )[1, ...]
-- 
2.43.0


From 63b3f6725586f9f1e0fbf3db5b4b3cc01acf1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:41 +0000
Subject: [PATCH 17/51] fix: sub-cell samples of rectangular grids were wrong
 at the ends in z

---
 zoidberg/zoidberg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index eb20696..49fd8c6 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -11,7 +11,7 @@ from . import fieldtracer
 from .diff import field_line_length
 from .field import Slab
 from .grid import Grid
-from .poloidal_grid import StructuredPoloidalGrid
+from .poloidal_grid import RectangularPoloidalGrid, StructuredPoloidalGrid
 
 try:
     from tqdm.auto import tqdm
@@ -265,6 +265,8 @@ def make_maps(
                     Z = pol.Z
                     nx, nz = pol.R.shape
                     # Wrap around in Z by adding the arrays
+                    # Z itself is only periodic for closed poloidal grids
+                    Lz = pol.Lz if isinstance(pol, RectangularPoloidalGrid) else 0.0
                     Rinterp = interpolate.RegularGridInterpolator(
                         (np.arange(nx), np.arange(nz + 2) - 1),
                         np.concatenate((R[:, -1:], R, R[:, 0:1]), axis=-1),
@@ -273,7 +275,7 @@ def make_maps(
                     )
                     Zinterp = interpolate.RegularGridInterpolator(
                         (np.arange(nx), np.arange(nz + 2) - 1),
-                        np.concatenate((Z[:, -1:], Z, Z[:, 0:1]), axis=-1),
+                        np.concatenate((Z[:, -1:] - Lz, Z, Z[:, 0:1] + Lz), axis=-1),
                         bounds_error=False,
                         fill_value=None,  # Extrapolates
                     )
-- 
2.43.0


From 662ccdaef51e964c1b126a73c96da0b020d2dbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:41 +0000
Subject: [PATCH 18/51] fix: parallel slice dy was wrong for grids not periodic
 in y

---
 zoidberg/zoidberg.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 49fd8c6..b6f5873 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -671,15 +671,13 @@ class MapWriter:
             )
         yperiodic = self.grid.yperiodic if self.grid else True
         for offset in chain(range(1, nslice + 1), range(-1, -(nslice + 1), -1)):
-            pypar = np.roll(ypar, -offset)
-            if yperiodic:
-                for i in range(1, ny):
-                    if meandy * (pypar[i] - pypar[i - 1]) < 0:
-                        pypar[i] += np.sign(meandy) * Ly
-                if len(pypar) > 1:
-                    assert np.isclose(np.mean(np.diff(pypar)), meandy), (
-                        f"Mean of dy changes from {meandy} to {np.mean(np.diff(pypar))}. Values: {ypar} -> {pypar}"
-                    )
+            # Continue with the same spacing past the ends of the domain
+            yinds = np.arange(ny) + offset
+            pypar = ypar[yinds % ny] + (yinds // ny) * Ly
+            if len(pypar) > 1:
+                assert np.isclose(np.mean(np.diff(pypar)), meandy), (
+                    f"Mean of dy changes from {meandy} to {np.mean(np.diff(pypar))}. Values: {ypar} -> {pypar}"
+                )
 
             RZ = np.array([maps[parallel_slice_field_name(k, offset)] for k in "RZ"])
             par_pgrids = [StructuredPoloidalGrid(*RZ[:, :, i]) for i in range(ny)]
-- 
2.43.0


From 04c240f2e5a0b98b56cfe6a462c13b92072a8d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:41 +0000
Subject: [PATCH 19/51] fix: line_from_points_poly inserted points into the
 wrong edge

---
 zoidberg/rzline.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index 782570d..28e0688 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -437,6 +437,9 @@ def line_from_points_poly(rarray, zarray, show=False, spline_order=None):
 
     for i in range(3, npoints):
         line = RZline(rvals[:i], zvals[:i], spline_order=spline_order)
+        # The line may have been reversed, so use the order of the line
+        rvals[:i] = line.R.copy()
+        zvals[:i] = line.Z.copy()
 
         angle = np.linspace(0, 2 * pi, 100)
         r, z = line.position(angle)
-- 
2.43.0


From 7637abfb906bfa46d9592702d4c57c36210f295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:41 +0000
Subject: [PATCH 20/51] fix: line_from_points_convex_hull and alphashape
 ignored kwargs

---
 zoidberg/rzline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index 28e0688..2d98309 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -551,7 +551,7 @@ def line_from_points_convex_hull(rarray, zarray, **kwargs):
     shape = sg.MultiPoint(rz).convex_hull.exterior
     theta = [shape.project(sg.Point(*p)) for p in rz]
     ind = np.argsort(theta)
-    return RZline(*rz[ind].T)
+    return RZline(*rz[ind].T, **kwargs)
 
 
 def line_from_points_alphashape(rarray, zarray, alpha=2.0, **kwargs):
@@ -571,7 +571,7 @@ def line_from_points_alphashape(rarray, zarray, alpha=2.0, **kwargs):
     shape = shape.exterior
     theta = [shape.project(sg.Point(*p)) for p in rz]
     ind = np.argsort(theta)
-    return RZline(*rz[ind].T)
+    return RZline(*rz[ind].T, **kwargs)
 
 
 def line_from_points(
-- 
2.43.0


From fa4a8d26dd17fdb30e3918b7415f17c127b9a323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:41 +0000
Subject: [PATCH 21/51] fix: CachingFieldTracer used the same key for different
 arguments

---
 zoidberg/fieldtracer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 2f8b843..13bd707 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -424,7 +424,12 @@ class CachingFieldTracer:
 
         m = hashlib.md5()
         for arg in args:
-            s = "-".join([str(x) for x in np.array([arg]).ravel()]).encode()
+            # Include the shape, so that different arguments cannot be joined
+            # to the same string
+            s = f"{np.shape(arg)}:" + "-".join(
+                [str(x) for x in np.array([arg]).ravel()]
+            )
+            s = s.encode() + b";"
             if self.debug:
                 print(s)
             m.update(s)
-- 
2.43.0


From f73be7790a9d8da6aebf11e47f49734979294e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:17 +0000
Subject: [PATCH 22/51] fix: CachingFieldTracer ignored the tracing options in
 its key

---
 zoidberg/fieldtracer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 13bd707..57e1e31 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -439,7 +439,8 @@ class CachingFieldTracer:
         return len(y_values), *x_values.shape, 2
 
     def follow_field_lines(self, x_values, z_values, y_values, **kwargs):
-        fn = self.cachename % self._myhash(x_values, z_values, y_values)
+        options = sorted((k, v) for k, v in kwargs.items() if v is not None)
+        fn = self.cachename % self._myhash(x_values, z_values, y_values, *options)
         try:
             dat = np.loadtxt(fn)
             dat.shape = self._guess_shape(x_values, y_values)
-- 
2.43.0


From 845dbc1467f56c26186892e389e7f74892d449d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:17 +0000
Subject: [PATCH 23/51] fix: CachingFieldTracer used incomplete files of
 interrupted runs

---
 zoidberg/fieldtracer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 57e1e31..b700a6d 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -1,4 +1,5 @@
 import itertools
+import os
 from multiprocessing import Pool
 
 import numpy as np
@@ -453,7 +454,11 @@ class CachingFieldTracer:
         if self.debug:
             print(f"saving {ret.shape}, {x_values.shape}")
         ret.shape = -1, shape[-1]
-        np.savetxt(fn, ret)
+        # Write to a temporary file first, so that an incomplete file is never
+        # mistaken for a cached result
+        tmp = f"{fn}.{os.getpid()}.tmp"
+        np.savetxt(tmp, ret)
+        os.replace(tmp, fn)
         assert shape == self._guess_shape(x_values, y_values), (
             f"Estimated {self._guess_shape(x_values, y_values)} but got {shape}"
         )
-- 
2.43.0


From 74aae451ee354e927fdfef791f47ed65aa6da091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:17 +0000
Subject: [PATCH 24/51] fix: CachingFieldTracer failed for scalar starting
 positions

---
 zoidberg/fieldtracer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index b700a6d..2356557 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -436,15 +436,17 @@ class CachingFieldTracer:
             m.update(s)
         return m.hexdigest()
 
-    def _guess_shape(self, x_values, y_values):
-        return len(y_values), *x_values.shape, 2
+    def _guess_shape(self, x_values, z_values, y_values):
+        x_values, z_values = np.atleast_1d(x_values, z_values)
+        shape = z_values.shape if x_values.size == 1 else x_values.shape
+        return len(y_values), *shape, 2
 
     def follow_field_lines(self, x_values, z_values, y_values, **kwargs):
         options = sorted((k, v) for k, v in kwargs.items() if v is not None)
         fn = self.cachename % self._myhash(x_values, z_values, y_values, *options)
         try:
             dat = np.loadtxt(fn)
-            dat.shape = self._guess_shape(x_values, y_values)
+            dat.shape = self._guess_shape(x_values, z_values, y_values)
             return dat
         except FileNotFoundError:
             if self.debug:
@@ -452,15 +454,15 @@ class CachingFieldTracer:
         ret = self.tracer.follow_field_lines(x_values, z_values, y_values, **kwargs)
         shape = ret.shape
         if self.debug:
-            print(f"saving {ret.shape}, {x_values.shape}")
+            print(f"saving {ret.shape}, {np.shape(x_values)}")
         ret.shape = -1, shape[-1]
         # Write to a temporary file first, so that an incomplete file is never
         # mistaken for a cached result
         tmp = f"{fn}.{os.getpid()}.tmp"
         np.savetxt(tmp, ret)
         os.replace(tmp, fn)
-        assert shape == self._guess_shape(x_values, y_values), (
-            f"Estimated {self._guess_shape(x_values, y_values)} but got {shape}"
+        assert shape == self._guess_shape(x_values, z_values, y_values), (
+            f"Estimated {self._guess_shape(x_values, z_values, y_values)} but got {shape}"
         )
         ret.shape = shape
         return ret
-- 
2.43.0


From ecfec30fb12aa7444072117000d555ca5e46045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:22 +0000
Subject: [PATCH 25/51] fix: smooth failed for corners close to the ends of the
 arrays

---
 zoidberg/smooth.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/zoidberg/smooth.py b/zoidberg/smooth.py
index 4ee0dc1..d8c6e21 100644
--- a/zoidberg/smooth.py
+++ b/zoidberg/smooth.py
@@ -28,7 +28,8 @@ def generate_points_tosmooth(bounds, outliers, length):
         return []
     todel = set()
     for dup in outliers:
-        todel.update([x for x in range(dup - bounds, dup + bounds + 1) if x < length])
+        # The line is periodic, so the range wraps around
+        todel.update([x % length for x in range(dup - bounds, dup + bounds + 1)])
     ###
     todel = sorted(list(todel))
     splitedlist = []
@@ -40,6 +41,10 @@ def generate_points_tosmooth(bounds, outliers, length):
             first = index + 1
         last = value
     splitedlist.append(todel[first:])
+    if len(splitedlist) > 1 and todel[0] == 0 and todel[-1] == length - 1:
+        # Join the ranges at both ends. The start gets negative indices
+        end = splitedlist.pop()
+        splitedlist[0] = [x - length for x in end] + splitedlist[0]
     return splitedlist
 
 
@@ -240,9 +245,7 @@ def gen_newr(r, z, splitedlist, bounds, plot):
         dstart = (X[0] - newr[start_index - 1]) ** 2 + (
             Y[0] - newz[start_index - 1]
         ) ** 2
-        dend = (X[-1] - newr[start_index + len(alist)]) ** 2 + (
-            Y[-1] - newz[start_index + len(alist)]
-        ) ** 2
+        dend = (X[-1] - newr[seconds]) ** 2 + (Y[-1] - newz[seconds]) ** 2
         maxfac = 3
         if not (maxfac**-2 < dstart / dend < maxfac**2):
             print(f"dstart / dend is {dstart / dend} - check has failed")
-- 
2.43.0


From 1d7faf49e1f6c17c8b91c43fbbc846746451ab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:39 +0000
Subject: [PATCH 26/51] fix: smooth raised NameError if it failed without
 plotting

---
 zoidberg/smooth.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zoidberg/smooth.py b/zoidberg/smooth.py
index d8c6e21..f7504df 100644
--- a/zoidberg/smooth.py
+++ b/zoidberg/smooth.py
@@ -336,9 +336,10 @@ def smooth(r, z, cutoff=0.75, bounds=10, bounds_find=None, plot=False):
         bounds += 1
         debs += [deb[-1]]
         if bounds > bounds0 * 5:
-            plt.legend()
-            plt.gca().set_aspect("equal")
-            plt.title("failed")
+            if plot:
+                plt.legend()
+                plt.gca().set_aspect("equal")
+                plt.title("failed")
             alldeb.append(debs)
             return
 
-- 
2.43.0


From f4cfa93b2de9fc24381e38d4b06fb8332cb4003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:57 +0000
Subject: [PATCH 27/51] fix: StructuredPoloidalGrid.findIndex put points into
 the boundary too early

Points whose nearest grid point is in the first or last row were marked as
being in the boundary, without checking that their index is. On grids that
are not orthogonal these can be several tenths of a cell inside.
---
 zoidberg/poloidal_grid.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 95439c8..9a186fa 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -392,10 +392,8 @@ switch inner and outer boundary.
         zind = np.asarray(zind, dtype=float)
 
         # Create a mask for the positions
+        # Set to zero below if near the boundary
         mask = np.ones(xind.shape)
-        mask[np.logical_or((xind < 0.5), (xind > (nx - 1.5)))] = (
-            0.0  # Set to zero if near the boundary
-        )
 
         if show and plotting_available:
             plt.plot(self.R, self.Z, ".")
-- 
2.43.0


From 66e13aa1340747dc34b7684a3ff78e03794c7436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:37 +0000
Subject: [PATCH 28/51] fix: metric of parallel slices was wrong at the z ends
 of rectangular grids

The traced grids were assumed to be closed in the poloidal plane, but
rectangular grids are periodic in Z.
---
 zoidberg/poloidal_grid.py | 10 +++++++---
 zoidberg/zoidberg.py      |  7 ++++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 9a186fa..f2d4bbb 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -274,9 +274,13 @@ class StructuredPoloidalGrid(PoloidalGrid):
         .. note:: R,Z are not copied, so these arrays should not be
                   modified afterwards
 
+    Lz : float, optional
+        The change of Z in one period of the z index. Zero for grids which are
+        closed in the poloidal plane.
+
     """
 
-    def __init__(self, R, Z):
+    def __init__(self, R, Z, Lz=0.0):
         assert R.shape == Z.shape
 
         self.R = R
@@ -286,7 +290,7 @@ class StructuredPoloidalGrid(PoloidalGrid):
         self.nx = nx
         self.nz = nz
 
-        if nx > 4:
+        if nx > 4 and Lz == 0.0:
             inner = shapely.Polygon(zip(R[2, :], Z[2, :]))
             outer = shapely.Polygon(zip(R[-2, :], Z[-2, :]))
 
@@ -306,7 +310,7 @@ switch inner and outer boundary.
         zinds = np.arange(nz * 3)
         # Repeat the data in z, to approximate periodicity
         R_ext = np.concatenate((R, R, R), axis=1)
-        Z_ext = np.concatenate((Z, Z, Z), axis=1)
+        Z_ext = np.concatenate((Z - Lz, Z, Z + Lz), axis=1)
 
         self._spl_r = RectBivariateSpline(xinds, zinds, R_ext)
         self._spl_z = RectBivariateSpline(xinds, zinds, Z_ext)
diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index b6f5873..916bcd8 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -680,7 +680,12 @@ class MapWriter:
                 )
 
             RZ = np.array([maps[parallel_slice_field_name(k, offset)] for k in "RZ"])
-            par_pgrids = [StructuredPoloidalGrid(*RZ[:, :, i]) for i in range(ny)]
+            # Rectangular grids are not closed, but periodic in Z
+            pgrids = self.grid.poloidal_grids if self.grid else [None] * ny
+            Lz = [getattr(p, "Lz", 0.0) for p in pgrids]
+            par_pgrids = [
+                StructuredPoloidalGrid(*RZ[:, :, i], Lz=Lz[i]) for i in range(ny)
+            ]
             par_grid = Grid(
                 par_pgrids,
                 pypar,
-- 
2.43.0


From 914a142c31e62166198152c27b3d482cdf4b1b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:48 +0000
Subject: [PATCH 29/51] fix: DAGP failed for rectangular grids with one or two
 points in z

The period was found from the size of the differences, which is not possible
if there are less than three points.
---
 zoidberg/stencil_dagp_fv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zoidberg/stencil_dagp_fv.py b/zoidberg/stencil_dagp_fv.py
index 908eef2..a790de6 100755
--- a/zoidberg/stencil_dagp_fv.py
+++ b/zoidberg/stencil_dagp_fv.py
@@ -192,8 +192,9 @@ def doit(pols, plot=False, isSlab=False):
     dxR = RZ[:, 1:] - RZ[:, :-1]
     dzR = np.roll(RZ, -1, axis=-1) - np.roll(RZ, 1, axis=-1)
     if Lz is not None:
-        dzR[dzR < -Lz / 2] += Lz
-        dzR[dzR > Lz / 2] -= Lz
+        # The first and the last point are neighbours, but one period apart
+        dzR[1, ..., 0] += Lz
+        dzR[1, ..., -1] += Lz
     dzR = 0.5 * (dzR[:, 1:] + dzR[:, :-1])
 
     log("starting solve")
@@ -248,8 +249,7 @@ def doit(pols, plot=False, isSlab=False):
     dxR = 0.5 * (np.roll(dxR, -1, axis=-1) + dxR)
     dzR = (np.roll(RZ, -1, axis=-1) - RZ)[:, 1:-1]
     if Lz is not None:
-        dzR[dzR < -Lz / 2] += Lz
-        dzR[dzR > Lz / 2] -= Lz
+        dzR[1, ..., -1] += Lz
 
     dxzR = np.array((dxR, dzR)).transpose(2, 3, 4, 1, 0)
     log("solving again")
-- 
2.43.0


From 7d2688783bf538d56e1162e426ae99d0cbe22470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:32 +0000
Subject: [PATCH 30/51] fix: dagp_fv_volume was uninitialised in the x boundary
 cells

---
 zoidberg/stencil_dagp_fv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/stencil_dagp_fv.py b/zoidberg/stencil_dagp_fv.py
index a790de6..be3c408 100755
--- a/zoidberg/stencil_dagp_fv.py
+++ b/zoidberg/stencil_dagp_fv.py
@@ -88,7 +88,7 @@ def doit(pols, plot=False, isSlab=False):
     #
     ### Go in a line around the cell
 
-    Ar = np.empty((pols[0].nx, len(pols), pols[0].nz))
+    Ar = np.zeros((pols[0].nx, len(pols), pols[0].nz))
     todo = enumerate(pols)
     if tqdm and len(pols) > 1:
         todo = tqdm(todo, total=len(pols))
-- 
2.43.0


From 367ecd9ce510f70b850dbe7d665bd105c361a505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:56 +0000
Subject: [PATCH 31/51] fix: SpectralLine.equallySpaced repeated the first
 point at the end

---
 zoidberg/spectralline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/spectralline.py b/zoidberg/spectralline.py
index 588a7ef..2933726 100644
--- a/zoidberg/spectralline.py
+++ b/zoidberg/spectralline.py
@@ -52,7 +52,7 @@ class SpectralLine:
         return _fft(self.resZ.x, theta)
 
     def equallySpaced(self, num=None):
-        freq = np.linspace(0, np.pi * 2, num or len(self.orgLine.R))
+        freq = np.linspace(0, np.pi * 2, num or len(self.orgLine.R), endpoint=False)
         return RZline(self.Rvalue(freq), self.Zvalue(freq))
 
     def plot(self, axis=None, show=True):
-- 
2.43.0


From 81afd099931b77a1c314fa2b1b4cd39bdcac5331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:06 +0000
Subject: [PATCH 32/51] fix: RZline shared its points with the input arrays

---
 zoidberg/rzline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index 2d98309..5fa3176 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -57,8 +57,9 @@ class RZline:
     """
 
     def __init__(self, r, z, anticlockwise=True, spline_order=None, smooth=False):
-        r = np.asarray(r)
-        z = np.asarray(z)
+        # Copy, as the line must not change if the input arrays are modified
+        r = np.array(r)
+        z = np.array(z)
 
         # Check the sizes of the variables
         n = len(r)
-- 
2.43.0


From 5ffdbfa446272f96c7211db26bfca3e63b21480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:09 +0000
Subject: [PATCH 33/51] fix: field_line_length counted parts of the line twice
 for uneven spacing in y

---
 zoidberg/diff.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zoidberg/diff.py b/zoidberg/diff.py
index b21998c..ddf8542 100644
--- a/zoidberg/diff.py
+++ b/zoidberg/diff.py
@@ -111,9 +111,12 @@ def field_line_length(RZ_coords, y_coords, refine=100):
     assert RZ_coords.shape[-1] == 2
     RZ_coords = RZ_coords[..., 0], RZ_coords[..., 1]
 
-    y_inter = interp(np.linspace(0, 1, len(y_coords)), y_coords)
-
-    y_fine = y_inter(np.linspace(0, 1, (len(y_coords) - 1) * refine + 1))
+    # Linear, as a spline can overshoot and go backwards if the spacing changes
+    y_fine = np.interp(
+        np.linspace(0, 1, (len(y_coords) - 1) * refine + 1),
+        np.linspace(0, 1, len(y_coords)),
+        y_coords,
+    )
     R_fine, Z_fine = [interp(y_coords, x)(y_fine) for x in RZ_coords]
 
     slicer = [None for _ in R_fine.shape]
-- 
2.43.0


From b7345e01a81d3297e62363b1771e0907bc0b8f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:00 +0000
Subject: [PATCH 34/51] fix: GEQDSK exchanged R and Z of the poloidal flux

---
 zoidberg/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index e66ca96..69749b8 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1236,8 +1236,8 @@ class GEQDSK(MagneticField):
         print("Major radius: {0} -> {1} m".format(self.rmin, self.rmax))
         print("Height: {0} -> {1} m".format(self.zmin, self.zmax))
 
-        # Poloidal flux
-        self.psi = np.transpose(data["psi"])
+        # Poloidal flux, as function of (R, Z)
+        self.psi = data["psi"]
         nr, nz = self.psi.shape
 
         # Normalising factors: psi on axis and boundary
-- 
2.43.0


From 1a29589a7296ab1ea17799e41d5792a12476e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:37 +0000
Subject: [PATCH 35/51] fix: GEQDSK failed for files without limiter

---
 zoidberg/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 69749b8..d798e8b 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1296,7 +1296,7 @@ class GEQDSK(MagneticField):
         # Set boundary
         rlim = data["rlim"]
         zlim = data["zlim"]
-        if len(rlim) > 0:
+        if rlim is not None and len(rlim) > 0:
             # Create a boundary in X-Z with a polygon representation
             self.boundary = boundary.PolygonBoundaryXZ(rlim, zlim)
 
-- 
2.43.0


From dfa006af92df4c4c965c9fc20d3e54ba66508e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 36/51] fix: grid_elliptic failed for less than four points
 between the boundaries

---
 zoidberg/poloidal_grid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index f2d4bbb..3ecfb08 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -875,9 +875,11 @@ def grid_elliptic(
         Z_r = np.concatenate((Z_r, np.reshape(Z_r[:, 0], (nx_r, 1))), axis=1)
 
         # Now interpolate
-        spl = RectBivariateSpline(x_r, z_r, R_r)
+        # Use a lower order if there are too few points for cubic splines
+        order = dict(kx=min(3, nx_r - 1), ky=min(3, nz_r))
+        spl = RectBivariateSpline(x_r, z_r, R_r, **order)
         R = spl(xvals, thetavals, grid=True)
-        spl = RectBivariateSpline(x_r, z_r, Z_r)
+        spl = RectBivariateSpline(x_r, z_r, Z_r, **order)
         Z = spl(xvals, thetavals, grid=True)
 
         # Make sure that the inner and outer boundaries are on the
-- 
2.43.0


From 1412c770bfdf1a3d04100f0bf9a8077f9172f8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:59 +0000
Subject: [PATCH 37/51] fix: line_from_points failed if one of its tries
 crosses itself

---
 zoidberg/rzline.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index 5fa3176..34ae6bf 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -652,7 +652,11 @@ def line_from_points(
         rvals.append(rarr[0])
         zvals.append(zarr[0])
 
-        new_line = RZline(rvals, zvals, spline_order=spline_order, smooth=smooth)
+        try:
+            new_line = RZline(rvals, zvals, spline_order=spline_order, smooth=smooth)
+        except AssertionError:
+            # This path crosses itself such that it has no orientation
+            continue
         new_dist = new_line.distance()[-1]  # Total distance
 
         if (best_line is None) or (new_dist < best_dist):
@@ -661,6 +665,7 @@ def line_from_points(
             best_line = new_line
             best_dist = new_dist
 
+    assert best_line is not None, "The points do not enclose an area"
     return best_line
 
 
-- 
2.43.0


From b3fe7ae82761a7796e1bb2faea8096f629b2102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:45 +0000
Subject: [PATCH 38/51] fix: VMEC field was wrong or zero next to the axis and
 the last surface

---
 zoidberg/field.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index d798e8b..c058798 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -924,10 +924,11 @@ class VMEC(MagneticField):
     """
 
     def __rolling_average(self, field):
+        # From the half grid (the first entry is not used) to the full grid
         result = np.zeros_like(field)
-        result[:, 0] = field[:, 1] - 0.5 * field[:, 2]
-        result[:, 2:-2] = 0.5 * (field[:, 2:-2] + field[:, 3:-1])
-        result[:, -1] = 2 * field[:, -2] - field[:, -3]
+        result[:, 0] = 1.5 * field[:, 1] - 0.5 * field[:, 2]
+        result[:, 1:-1] = 0.5 * (field[:, 1:-1] + field[:, 2:])
+        result[:, -1] = 1.5 * field[:, -1] - 0.5 * field[:, -2]
         return result
 
     def cfunct(self, field):
-- 
2.43.0


From 46dec30d042548887dd4d66aafb7897a5200dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:45 +0000
Subject: [PATCH 39/51] fix: VMEC field had the wrong helicity

---
 zoidberg/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index c058798..6d731fc 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -986,7 +986,8 @@ class VMEC(MagneticField):
         # Read necessary stuff
         with DataFile(vmec_file, write=False) as f:
             self.xm = f["xm"].T
-            self.xn = f["xn"].T
+            # VMEC uses cos(m theta - n zeta), while here it is m theta + n zeta
+            self.xn = -f["xn"].T
             ns = int(f["ns"])
             xm_big = np.repeat(self.xm[:, np.newaxis], ns, axis=1)
             xn_big = np.repeat(self.xn[:, np.newaxis], ns, axis=1)
-- 
2.43.0


From c9d3e37218a349194c29aaea38d54de0fa1963ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:45 +0000
Subject: [PATCH 40/51] fix: VMEC field of axisymmetric files was missing
 except at y=0

---
 zoidberg/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 6d731fc..5f538e1 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1017,7 +1017,8 @@ class VMEC(MagneticField):
                 self.ntheta = ntheta
 
             if nzeta is None:
-                self.nzeta = int(f["ntor"]) + 1
+                # At least two points are needed to interpolate
+                self.nzeta = max(int(f["ntor"]) + 1, 2)
             else:
                 self.nzeta = nzeta
 
-- 
2.43.0


From 7956989b5703ec1a8eb80c7a776deb9222aa18b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:56 +0000
Subject: [PATCH 41/51] fix: VMEC field was wrong for files without up-down
 symmetry

---
 zoidberg/field.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 5f538e1..04eec48 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1003,10 +1003,12 @@ class VMEC(MagneticField):
                 iasym = 0
 
             if iasym:
-                rumnc = -f["rmns"].T * xm_big
-                rvmnc = -f["rmns"].T * xn_big
-                zumns = f["zmnc"].T * xm_big
-                zvmns = f["zmnc"].T * xn_big
+                rumnc = f["rmns"].T * xm_big
+                rvmnc = f["rmns"].T * xn_big
+                zumns = -f["zmnc"].T * xm_big
+                zvmns = -f["zmnc"].T * xn_big
+                bsupumns = self.__rolling_average(f["bsupumns"].T).T
+                bsupvmns = self.__rolling_average(f["bsupvmns"].T).T
 
             bsupumnc = self.__rolling_average(f["bsupumnc"].T).T
             bsupvmnc = self.__rolling_average(f["bsupvmnc"].T).T
@@ -1036,7 +1038,9 @@ class VMEC(MagneticField):
             dzdu = self.cfunct(zumnc.T)
             dzdv = self.cfunct(zvmnc.T)
             if iasym:
-                self.r_stz = self.r_stz + self.sfunct(f["rmnc"])
+                bu = bu + self.sfunct(bsupumns)
+                bv = bv + self.sfunct(bsupvmns)
+                self.r_stz = self.r_stz + self.sfunct(f["rmns"])
                 drdu = drdu + self.cfunct(rumnc.T)
                 drdv = drdv + self.cfunct(rvmnc.T)
                 self.z_stz = self.z_stz + self.cfunct(f["zmnc"])
-- 
2.43.0


From 18b15ee63b65d574c3ab4d4ec53c6c495daae1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:34 +0000
Subject: [PATCH 42/51] fix: default range in Z of the W7-X fields went up to
 35 m

---
 zoidberg/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 04eec48..b93d78c 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1346,7 +1346,7 @@ class W7X_vacuum(MagneticField):
         ny=32,
         nz=128,
         x_range=(4.05, 6.55),
-        z_range=(-1.35, 1, 35),
+        z_range=(-1.35, 1.35),
         phimax=2.0 * np.pi,
         configuration=0,
         plot_poincare=False,
@@ -1829,7 +1829,7 @@ class W7X_VMEC(MagneticField):
         ny=32,
         nz=512,
         x_range=[4.05, 6.55],
-        z_range=[-1.35, 1, 35],
+        z_range=[-1.35, 1.35],
         phi_range=[0, 2 * np.pi],
         vmec_id="w7x_ref_171",
     ):
-- 
2.43.0


From 4389185e3005920abddd2e3a048fccea55ab8250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:34 +0000
Subject: [PATCH 43/51] fix: W7X_VMEC used sizes that are not set

---
 zoidberg/field.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index b93d78c..fd773e4 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1872,20 +1872,16 @@ class W7X_VMEC(MagneticField):
         pos = vmec.types.Points3D()
 
         # x in Cartesian (real-space)
-        pos.x1 = np.ndarray.flatten(
-            np.ones((self.nx, self.ny, self.nz)) * r * np.cos(phi)
-        )
+        pos.x1 = np.ndarray.flatten(r * np.cos(phi))
         # y in Cartesian (real-space)
-        pos.x2 = np.ndarray.flatten(
-            np.ones((self.nx, self.ny, self.nz)) * r * np.sin(phi)
-        )
+        pos.x2 = np.ndarray.flatten(r * np.sin(phi))
         pos.x3 = np.ndarray.flatten(z)  # z in Cartesian (real-space)
         b = vmec.service.magneticField(str(vmec_id), pos)
 
         ## Reshape to 3d array
-        Bx = np.ndarray.reshape(np.asarray(b.field.x1), (self.nx, self.ny, self.nz))
-        By = np.ndarray.reshape(np.asarray(b.field.x2), (self.nx, self.ny, self.nz))
-        Bz = np.ndarray.reshape(np.asarray(b.field.x3), (self.nx, self.ny, self.nz))
+        Bx = np.ndarray.reshape(np.asarray(b.field.x1), r.shape)
+        By = np.ndarray.reshape(np.asarray(b.field.x2), r.shape)
+        Bz = np.ndarray.reshape(np.asarray(b.field.x3), r.shape)
 
         ## Convert to cylindrical coordinates
         Br = Bx * np.cos(phi) + By * np.sin(phi)
-- 
2.43.0


From b2049d82661e7f96efe5112053d8c86125021521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:48 +0000
Subject: [PATCH 44/51] fix: an interrupted save of a W7-X field made all later
 runs fail

---
 zoidberg/field.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index fd773e4..ab7ff3a 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1427,7 +1427,7 @@ class W7X_vacuum(MagneticField):
         Contact brendan.shanahan@ipp.mpg.de for questions
 
         """
-        import os.path
+        import os
         import pickle
 
         import matplotlib.pyplot as plt
@@ -1486,7 +1486,9 @@ class W7X_vacuum(MagneticField):
                 ds["Br"] = ("x", "y", "z"), Br
                 ds["Bz"] = ("x", "y", "z"), Bz
                 ds["Bphi"] = ("x", "y", "z"), Bphi
-                ds.to_netcdf(fname)
+                # Rename when complete, in case of being interrupted
+                ds.to_netcdf(fname + ".tmp")
+            os.replace(fname + ".tmp", fname)
 
         else:
             print(
@@ -1511,7 +1513,9 @@ class W7X_vacuum(MagneticField):
                 ds["Br"] = ("x", "y", "z"), Br
                 ds["Bz"] = ("x", "y", "z"), Bz
                 ds["Bphi"] = ("x", "y", "z"), Bphi
-                ds.to_netcdf(fname)
+                # Rename when complete, in case of being interrupted
+                ds.to_netcdf(fname + ".tmp")
+            os.replace(fname + ".tmp", fname)
 
         if plot_poincare:
             ## Poincare plot as done on the web services
@@ -1557,7 +1561,7 @@ class W7X_vacuum(MagneticField):
         Contact brendan.shanahan@ipp.mpg.de for questions
 
         """
-        import os.path
+        import os
         import pickle
 
         from osa import Client
@@ -1631,8 +1635,10 @@ class W7X_vacuum(MagneticField):
             Bz = np.ndarray.reshape(np.asarray(plasmafield.x3), (nx, ny, nz))
 
             ## Save so we don't have to do this every time.
-            with open(fname, "wb") as f:
+            # Rename when complete, in case of being interrupted
+            with open(fname + ".tmp", "wb") as f:
                 pickle.dump([Br, Bphi, Bz], f)
+            os.replace(fname + ".tmp", fname)
 
         return Br, Bphi, Bz
 
-- 
2.43.0


From 5686687df9ed6cb317c2a477c34cd430809ed37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:15 +0000
Subject: [PATCH 45/51] fix: W7-X fields of another range with the same rounded
 numbers were used

---
 zoidberg/field.py | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index ab7ff3a..84ed77f 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1471,7 +1471,20 @@ class W7X_vacuum(MagneticField):
             z[0, 0, -1],
         )
 
-        if os.path.isfile(fname):
+        # The ranges in the file name are rounded, so save also the coordinates
+        coords = r[:, 0, 0], phi[0, :, 0], z[0, 0, :]
+
+        def is_saved():
+            if not os.path.isfile(fname):
+                return False
+            with xr.open_dataset(fname) as ds:
+                # Older files do not have the coordinates
+                return "r" not in ds or all(
+                    np.allclose(ds[k].values, v, rtol=1e-10, atol=1e-10)
+                    for k, v in zip(("r", "phi", "z"), coords)
+                )
+
+        if is_saved():
             print("Saved field found, loading from: ", fname)
             with xr.open_dataset(fname) as ds:
                 Br = ds["Br"].values
@@ -1513,6 +1526,8 @@ class W7X_vacuum(MagneticField):
                 ds["Br"] = ("x", "y", "z"), Br
                 ds["Bz"] = ("x", "y", "z"), Bz
                 ds["Bphi"] = ("x", "y", "z"), Bphi
+                for k, dim, v in zip(("r", "phi", "z"), "xyz", coords):
+                    ds[k] = dim, v
                 # Rename when complete, in case of being interrupted
                 ds.to_netcdf(fname + ".tmp")
             os.replace(fname + ".tmp", fname)
@@ -1597,10 +1612,22 @@ class W7X_vacuum(MagneticField):
             + ".dat"
         )
 
+        # The ranges in the file name are rounded, so save also the coordinates
+        coords = r[:, 0, 0], phi[0, :, 0], z[0, 0, :]
+        saved = None
         if os.path.isfile(fname):
-            print("Saved field found, loading from: ", fname)
             with open(fname, "rb") as f:
-                Br, Bphi, Bz = pickle.load(f)
+                saved = pickle.load(f)
+            # Older files do not have the coordinates
+            if not all(
+                np.allclose(a, b, rtol=1e-10, atol=1e-10)
+                for a, b in zip(saved[3:], coords)
+            ):
+                saved = None
+
+        if saved is not None:
+            print("Saved field found, loading from: ", fname)
+            Br, Bphi, Bz = saved[:3]
         else:
             print(
                 "No saved plasma field found -- (re)calculating (must be on IPP network for this to work...)"
@@ -1637,7 +1664,7 @@ class W7X_vacuum(MagneticField):
             ## Save so we don't have to do this every time.
             # Rename when complete, in case of being interrupted
             with open(fname + ".tmp", "wb") as f:
-                pickle.dump([Br, Bphi, Bz], f)
+                pickle.dump([Br, Bphi, Bz, *coords], f)
             os.replace(fname + ".tmp", fname)
 
         return Br, Bphi, Bz
-- 
2.43.0


From 92072af0cf7070ea02ba1475bf63e2896fb6a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:18 +0000
Subject: [PATCH 46/51] fix: findIndex put points next to the boundary region
 into it

One step of the Newton iteration may go beyond half a cell for points that
are less than that away. Decide once converged.
---
 zoidberg/poloidal_grid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 3ecfb08..ba08cfd 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -456,11 +456,12 @@ switch inner and outer boundary.
             zind -= mask * ((dRdx * dZ - dZdx * dR) / determinant / underrelax)
 
             # Re-check for boundary
-            in_boundary = xind < 0.5
-            mask[in_boundary] = 0.0  # Set to zero if near the boundary
+            # Note: close to it only the converged index can tell
+            in_boundary = xind < 0.0
+            mask[in_boundary] = 0.0  # Set to zero if beyond the boundary
             xind[in_boundary] = 0.0
-            out_boundary = xind > (nx - 1.5)
-            mask[out_boundary] = 0.0  # Set to zero if near the boundary
+            out_boundary = xind > nx - 1
+            mask[out_boundary] = 0.0  # Set to zero if beyond the boundary
             xind[out_boundary] = nx - 1
 
         if show and plotting_available:
-- 
2.43.0


From 356e6fc4aa72b2449ae99f5da33b558af08e7011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:55 +0000
Subject: [PATCH 47/51] fix: the tracing cache took single precision positions
 for double precision ones

---
 zoidberg/fieldtracer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 2356557..d1270a0 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -425,9 +425,9 @@ class CachingFieldTracer:
 
         m = hashlib.md5()
         for arg in args:
-            # Include the shape, so that different arguments cannot be joined
-            # to the same string
-            s = f"{np.shape(arg)}:" + "-".join(
+            # Include the shape and type, so that different arguments cannot be
+            # joined to the same string
+            s = f"{np.shape(arg)}{np.asarray(arg).dtype}:" + "-".join(
                 [str(x) for x in np.array([arg]).ravel()]
             )
             s = s.encode() + b";"
-- 
2.43.0


From 276d4e5865779ddc502125b0eed305501d71d99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:15 +0000
Subject: [PATCH 48/51] fix: upscale did not interpolate linearly along the
 field lines

---
 zoidberg/zoidberg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 916bcd8..0bcaaad 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -1019,12 +1019,12 @@ def upscale(field, maps, upscale_factor=4, quiet=True):
         [new_points, index_4d[1, ...], index_4d[2, ...], index_4d[3, ...]]
     )
 
-    # Upscale the field
-    hires_field = map_coordinates(field_aligned, hires_points)
+    # Upscale the field, linear along the field lines
+    hires_field = map_coordinates(field_aligned, hires_points, order=1)
 
     # Linearly interpolate the x, z coordinates of the field lines
-    hires_x = map_coordinates(x_start_end, hires_points)
-    hires_z = map_coordinates(z_start_end, hires_points)
+    hires_x = map_coordinates(x_start_end, hires_points, order=1)
+    hires_z = map_coordinates(z_start_end, hires_points, order=1)
 
     def twizzle(array):
         """Transpose and reshape the output of map_coordinates to
-- 
2.43.0


From 0c6a916b0652fc36d73550f3e5c0cefcdf7572a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:15 +0000
Subject: [PATCH 49/51] fix: upscale failed to show its progress for one slice
 or with tqdm

---
 zoidberg/zoidberg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 0bcaaad..46da46b 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -12,12 +12,12 @@ from .diff import field_line_length
 from .field import Slab
 from .grid import Grid
 from .poloidal_grid import RectangularPoloidalGrid, StructuredPoloidalGrid
+from .progress import update_progress
 
 try:
     from tqdm.auto import tqdm
 except ModuleNotFoundError:
     tqdm = None
-    from .progress import update_progress
 
 # PyEVTK might be called pyevtk or evtk, depending on where it was
 # installed from
@@ -1056,6 +1056,6 @@ def upscale(field, maps, upscale_factor=4, quiet=True):
             points, f_slice.flat, grid_points, method="linear", fill_value=0.0
         )
         if not quiet:
-            update_progress(float(k) / float(ny - 1))
+            update_progress((k + 1) / (upscale_factor * ny))
 
     return hires_grid_field
-- 
2.43.0


From 9441e1e5193279fc9b2e9cc9d345adf9dd45d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:24 +0000
Subject: [PATCH 50/51] fix: EMC3 field lines were not continued in the next
 period

---
 zoidberg/fieldtracer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index d1270a0..6cb3ad6 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -784,18 +784,20 @@ class EMC3FieldTracer(FieldTracer):
             if x_values.shape == ():
                 i = None
             out[(0, *i)] = rz
-            ij1, zid1 = ij, zid
             cache = {0: (ab, ij, zid)}
             for j in range(1, len(meshes)):
                 perBC = meshes[j][zid].perBC - meshes[0][zid].perBC
                 if perBC not in cache:
-                    first, last = (0, 1) if perBC > 0 else (1, 0)
+                    # Leave through the last and enter through the first
+                    # plane of the period (backwards, the other way round)
+                    enter, leave = (1, 0) if perBC > 0 else (0, 1)
+                    ab, ij1, zid1 = cache[0]
                     for _ in range(abs(perBC)):
-                        rz1 = self._ab_to_rz(ab, self.firstlast[last][zid1].grid, ij1)
+                        rz1 = self._ab_to_rz(ab, self.firstlast[leave][zid1].grid, ij1)
                         ab, ij1, zid1 = self.rz_to_ab(
-                            rz1, self.firstlast[first], ij1, zid1
+                            rz1, self.firstlast[enter], ij1, zid1
                         )
-                    cache[perBC] = self.rz_to_ab(rz, meshes[0], ij, zid)
+                    cache[perBC] = ab, ij1, zid1
                 ab, ij1, zid1 = cache[perBC]
                 out[(j, *i)] = self._ab_to_rz(ab, meshes[j][zid1].grid, ij1)
         return out
-- 
2.43.0


From 7cf5c135de7e79e46285afba69d1d973d01ebf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:24 +0000
Subject: [PATCH 51/51] fix: EMC3 tracer used the wrong cell for points just
 outside of the grid

---
 zoidberg/fieldtracer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 6cb3ad6..0121d75 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -878,9 +878,9 @@ class EMC3FieldTracer(FieldTracer):
                 l2 = (rz[0] - mesh.r) ** 2 + (rz[1] - mesh.z) ** 2
                 ij = np.argmin(l2)
                 if l2.flat[ij] < mind:
+                    # Index of the closest corner -> index of a cell at it
                     nr, nz = mesh.r.shape
-                    if ij >= (nr - 1) * nz:
-                        ij -= nz
+                    ij = min(ij // nz, nr - 2) * (nz - 1) + min(ij % nz, nz - 2)
                     return self._rz_to_ab(rz, mesh.grid, ij), ij, mesh.zid
 
         import matplotlib.colors as mcolors
-- 
2.43.0

