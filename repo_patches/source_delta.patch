From 14678ae78205fa5a2eabc062a186f7023fd7026b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 01/90] fix: rotation conversions no longer modify the arrays
 they are given

rot2angle clipped the caller's
matrix and quat2rot renormalized the caller's quaternions (and
reinterpreted the bytes of integer quaternions).
---
 viscid/rotation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index 44f2497..01e93ee 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -480,7 +480,7 @@ def rot2angle(R, axes='zyx', unit='rad', bad_matrix='warn'):
     See Also:
         * :py:func:`angle2rot` for more details about axes order.
     """
-    R = np.asarray(R, dtype=np.double)
+    R = np.array(R, dtype=np.double)
     if len(R.shape) == 2:
         R = np.reshape(R, [1] + list(R.shape))
         single_val = True
@@ -776,7 +776,8 @@ def quat2rot(q):
         q = q.reshape(-1)
     else:
         single_val = q.shape == (4,)
-    q = q.view(dtype=np.double).reshape(-1, 4)
+        q = np.array(q, dtype=np.double)
+    q = np.array(q.view(dtype=np.double).reshape(-1, 4))
 
     q_norm = np.linalg.norm(q, axis=-1)
     do_renorm = ~np.bitwise_or(np.isclose(q_norm, 0.0), np.isclose(q_norm, 1.0))
-- 
2.43.0


From 12fde6b64916f54794d6962715aee0034f90e78d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 02/90] fix: angle_between of (anti)parallel vectors is not NaN

---
 viscid/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index 01e93ee..3bffed8 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1269,7 +1269,7 @@ def angle_between(a, b, unit='rad'):
     b_norm = np.linalg.norm(b, axis=-1)
 
     normdot = np.sum(a * b, axis=-1) / (a_norm * b_norm)
-    angle_rad = np.arccos(normdot)
+    angle_rad = np.arccos(np.clip(normdot, -1.0, 1.0))
 
     if single_val:
         angle_rad = angle_rad[0]
-- 
2.43.0


From d4d0d525223762f882447138dedbb78afe9d0c0f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 03/90] fix: rot2wxyz(quick=False) finds the axis of any
 rotation

---
 viscid/rotation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index 3bffed8..1cc5977 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1070,8 +1070,10 @@ def rot2wxyz(R, unit='rad', quick=True, bad_matrix='warn'):
 
     if any(null_mask):
         # calculate eigen vectors for transforms where the quick
-        # method failed (or was never calculated)
-        eigval, eigvecs = np.linalg.eigh(R[null_mask])
+        # method failed (or was never calculated); eigh assumes symmetric
+        # matrices, and the symmetric part of a rotation has the same axis
+        Rsym = 0.5 * (R[null_mask] + np.swapaxes(R[null_mask], -1, -2))
+        eigval, eigvecs = np.linalg.eigh(Rsym)
         idx_evec = np.argmin(np.abs(eigval - 1.0), axis=1)
         # eigenvector for eigenval closest to 1.0
         u[null_mask, :] = eigvecs[np.arange(len(eigvecs)), :, idx_evec].real
-- 
2.43.0


From 86473cc023df96fc4be2711d185b937a838675b6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 04/90] fix: angles from dot products survive round-off past
 +-1

---
 viscid/calculator/mpause.py | 2 +-
 viscid/cotr.py              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/calculator/mpause.py b/viscid/calculator/mpause.py
index ee819bd..f9325f2 100644
--- a/viscid/calculator/mpause.py
+++ b/viscid/calculator/mpause.py
@@ -235,7 +235,7 @@ def get_mp_info(pp, b, j, e, cache=True, cache_dir=None,
                     (bmag_sphere * bmag_sheath))
         costheta = np.where((sheath_ind + step < nx) & (sphere_ind - step >= 0),
                             costheta, np.nan)
-        mp_shear = mp_width.wrap((180.0 / np.pi) * np.arccos(costheta))
+        mp_shear = mp_width.wrap((180.0 / np.pi) * np.arccos(np.clip(costheta, -1.0, 1.0)))
 
         # don't bother with pretty name since it's not written to file
         # plane_crds = b_block.crds.slice_keep('x=0', cc=True)
diff --git a/viscid/cotr.py b/viscid/cotr.py
index 96c388e..dcad180 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -283,7 +283,7 @@ def get_rotation_wxyz(mat, check_inverse=True, quick=True):
     # rotate `b1` and then find the angle between result (`b2`) at `b1`
     b2 = np.dot(mat, b1)
     b2 = b2 / np.linalg.norm(b2)  # minimize effect of roundoff error
-    angleB = np.rad2deg(np.arccos(np.dot(b1, b2)))
+    angleB = np.rad2deg(np.arccos(np.clip(np.dot(b1, b2), -1.0, 1.0)))
 
     # fix sign of `u` to make the rotation angle right handed, note that
     # the angle will always be positive due to range or np.arccos
@@ -941,7 +941,7 @@ def _main():
             m_gse[i, :] = c.get_dipole_moment(crd_system='gse', strength=1)
             m_sm[i, :] = c.get_dipole_moment(crd_system='sm', strength=1)
             mu[i], psi[i] = c.get_dipole_angles()
-        dip_angle = np.rad2deg(np.arccos(np.sum(m_gse * m_sm, axis=1)))
+        dip_angle = np.rad2deg(np.arccos(np.clip(np.sum(m_gse * m_sm, axis=1), -1.0, 1.0)))
 
         i_smallest_diptilt = np.argmin(np.abs(mu))
         i_largest_diptilt = np.argmax(np.abs(mu))
-- 
2.43.0


From fab101856daea13052da056c1a8e4fb8c6d36340 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 05/90] fix: resample_lines works and leaves the given list
 alone

---
 viscid/calculator/calc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 879708f..91b4fcb 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -393,9 +393,10 @@ def resample_lines(lines, factor=1, kind="linear"):
     elif factor == 1:
         return lines
 
-    for i, line in enumerate(lines):
+    newlines = []
+    for line in lines:
         nr_sdims, nold = line.shape
-        nnew = np.ceil(factor * (nold - 1)) + 1
+        nnew = int(np.ceil(factor * (nold - 1))) + 1
         newline = np.empty((nr_sdims, nnew), dtype=line.dtype)
         sold = np.linspace(0, 1, nold)
         snew = np.linspace(0, 1, nnew)
@@ -412,8 +413,8 @@ def resample_lines(lines, factor=1, kind="linear"):
                 raise
             for j in range(nr_sdims):
                 newline[j, :] = np.interp(snew, sold, line[j, :])
-        lines[i] = newline
-    return lines
+        newlines.append(newline)
+    return newlines
 
 def project_along_line(line, fld, interp_kind='trilin'):
     """Project a Vector Field Parallel to a streamline
-- 
2.43.0


From 5b9b4ff9cd676090e75e77e647facc686d61792e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 06/90] fix: Spline keeps the k it was given after the first
 evaluation

---
 viscid/seed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index bb837c8..d0aa984 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -527,8 +527,9 @@ class Spline(SeedGen):
 
     def to_3d(self, pts_local, **kwargs):
         import scipy.interpolate as interpolate
-        k = self.splprep_opts.pop("k", self.knots.shape[1] - 1)
-        tck, u = interpolate.splprep(self.knots, k=k, **self.splprep_opts)
+        opts = dict(self.splprep_opts)
+        k = opts.pop("k", self.knots.shape[1] - 1)
+        tck, u = interpolate.splprep(self.knots, k=k, **opts)
         u = np.linspace(0, 1, self.n + 1, endpoint=True)
         coords = np.vstack(interpolate.splev(u, tck))
         coords = coords[:, (pts_local * self.n).astype(int)].astype(self.dtype)
-- 
2.43.0


From c3503764e214a604a61815939d937d04d04d473b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 07/90] fix: topology_bitor_clusters leaves its field alone and
 accepts pt_bnds

---
 viscid/calculator/separator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/calculator/separator.py b/viscid/calculator/separator.py
index cc7bab3..db0b89c 100644
--- a/viscid/calculator/separator.py
+++ b/viscid/calculator/separator.py
@@ -165,7 +165,7 @@ def topology_bitor_clusters(fld, min_depth=1, max_depth=10, multiple=True,
     fld = fld.slice_reduce(":")
     if mask_limit:
         fld = np.bitwise_and(fld, mask_limit)
-    a = fld.data
+    a = np.array(fld.data)
     x, y = fld.get_crds()
 
     for i in range(max_depth):
@@ -182,8 +182,9 @@ def topology_bitor_clusters(fld, min_depth=1, max_depth=10, multiple=True,
         # bitwise_or an entire bounary if all points are neighbors, like
         # at the poles of a sphere
         for bnd in pt_bnds:
-            slc = (slice(None), slice(None))
+            slc = [slice(None), slice(None)]
             slc[int(bnd[0])] = -1 if bnd[1] == "+" else 0
+            slc = tuple(slc)
             a[slc] = np.bitwise_or.reduce(a[slc])
 
         indx, indy = np.where(a == sep_val)
-- 
2.43.0


From ea4b51ef78aa299bc9ae13bbc7021c74872ac06a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 08/90] fix: follow_fluid weights the nearer time slice more,
 not less

---
 viscid/fluidtrace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/fluidtrace.py b/viscid/fluidtrace.py
index a60cb5a..e927c83 100644
--- a/viscid/fluidtrace.py
+++ b/viscid/fluidtrace.py
@@ -238,8 +238,8 @@ def follow_fluid(dset, initial_seeds, time_slice=slice(None),
         if grid0 is grid1:
             flds = [grid0[key] for key in fld_keys]
         else:
-            a = frac_interp
-            b = 1.0 - frac_interp
+            a = 1.0 - frac_interp
+            b = frac_interp
             flds = [viscid.axpby(a, grid0[k][fld_slc], b, grid1[k][fld_slc])
                     for k in fld_keys]
         anc_fields = OrderedDict([(k, v) for k, v in zip(anc_keys, flds[1:])])
-- 
2.43.0


From a36bb57f47a0fe51027d74c041ca2f8da99e16e3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 09/90] fix: fluid tracing leaves seeds, coordinates and
 options as they were given

---
 viscid/fluidtrace.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/viscid/fluidtrace.py b/viscid/fluidtrace.py
index e927c83..184eaeb 100644
--- a/viscid/fluidtrace.py
+++ b/viscid/fluidtrace.py
@@ -45,6 +45,8 @@ class SeedCurator(object):
                 self.obound0 = v_field.crds.xl_nc
             if self.obound1 is None:
                 self.obound1 = v_field.crds.xh_nc
+            self.obound0 = np.array(self.obound0)
+            self.obound1 = np.array(self.obound1)
 
             _invar_dim_mask = np.array(v_field.sshape) == 1
             self.obound0[_invar_dim_mask] = -np.inf
@@ -124,6 +126,7 @@ class ReplacementCurator(SeedCurator):
         delmask = self._update_delmask_oob(v_field, seeds, delmask=delmask)
         # for any seeds marked for deletion, replace them with their
         # original selves
+        seeds = np.array(seeds)
         seeds[:, delmask] = self.orig_seeds[:, delmask]
         return seeds
 
@@ -178,6 +181,8 @@ def follow_fluid(dset, initial_seeds, time_slice=slice(None),
         root points after following the fluid
     """
     curator = SeedCurator() if curator is None else curator
+    stream_opts = dict(stream_opts)
+    stream_opts.setdefault('method', 'rk45')
 
     grids = [grid for grid in dset.iter_times(time_slice)]
     times = [g.time for g in grids]
@@ -224,7 +229,7 @@ def follow_fluid(dset, initial_seeds, time_slice=slice(None),
         raise RuntimeError("times is not monotonic")
 
     i = 0
-    seeds = initial_seeds.get_points()
+    seeds = np.array(initial_seeds.get_points())
 
     while tdir * (t - tstop) <= 0.0:
         idx0 = max(np.sum(tdir * (times - t) < 0.0) - 1, 0)
@@ -247,8 +252,6 @@ def follow_fluid(dset, initial_seeds, time_slice=slice(None),
         t_next_interp = t + tdir * dt_interp
 
         while tdir * (t - t_next_interp) < 0 and tdir * (t - tstop) <= 0.0:
-            if 'method' not in stream_opts:
-                stream_opts['method'] = 'rk45'
             vpaths = viscid.calc_streamlines(tdir * speed_scale * flds[0], seeds,
                                              max_t=dt,
                                              output=viscid.OUTPUT_STREAMLINES,
-- 
2.43.0


From 4e19f21fdfbfa74fd815dc322164635da1cc6498 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 10/90] fix: interpolated slices no longer move the coordinates
 of the sliced field

---
 viscid/coordinate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 718297f..09a37cc 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -893,6 +893,9 @@ class StructuredCrds(Coordinates):
 
     def slice_interp(self, selection, cc=False):
         _, crdlst, _, crds_type = self.make_slice_keep(selection, cc=cc)
+        # the arrays in crdlst can be views of this object's own arrays
+        crdlst = [(c[0],) + tuple(np.array(arr) for arr in c[1:])
+                  for c in crdlst]
 
         # axes, selection, _ = self._parse_slice(selection)
         sel_list = sliceutil.raw_sel2sel_list(selection)
-- 
2.43.0


From b142af22b2bd979ca701fd42c0be27c87c34eca9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 11/90] fix: plot functions no longer scale the plotted field
 or edit marker_kwargs

---
 viscid/plot/vpyplot.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 7d1a0a6..2ff4169 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -1215,7 +1215,7 @@ def plot_iono(fld, *args, **kwargs):
 
     fld = viscid.as_mapfield(fld, units='deg')
     if scale is not None:
-        fld *= scale
+        fld = fld * scale
     lat = fld.get_crd('lat')
 
     kwargs = _set_default_cbar_pad(kwargs, pad=0.2)
@@ -1459,8 +1459,7 @@ def plot2d_lines(lines, scalars=None, symdir="", ax=None,
     ax.add_collection(line_collection)
 
     if marker:
-        if not marker_kwargs:
-            marker_kwargs = dict()
+        marker_kwargs = dict(marker_kwargs) if marker_kwargs else dict()
 
         # if colors are not given,
         if 'c' not in marker_kwargs:
@@ -1554,8 +1553,7 @@ def plot3d_lines(lines, scalars=None, ax=None, show=False, subsample=2,
     ax.add_collection3d(line_collection)
 
     if marker:
-        if not marker_kwargs:
-            marker_kwargs = dict()
+        marker_kwargs = dict(marker_kwargs) if marker_kwargs else dict()
 
         # if colors are not given,
         if 'c' not in marker_kwargs:
-- 
2.43.0


From b49a1a132306b63c01f67435805f07a6263fde99 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 12/90] fix: prepare_lines leaves the scalars list and other
 dict it is given alone

---
 viscid/vutil.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/viscid/vutil.py b/viscid/vutil.py
index da5e442..9e92a99 100644
--- a/viscid/vutil.py
+++ b/viscid/vutil.py
@@ -367,10 +367,7 @@ def prepare_lines(lines, scalars=None, do_connections=False, other=None):
             elif isinstance(scalars, np.ndarray):
                 scalars = scalars
             else:
-                for i, si in enumerate(scalars):
-                    if not isinstance(si, np.ndarray):
-                        scalars[i] = np.asarray(si)
-                    scalars[i] = np.atleast_2d(scalars[i])
+                scalars = [np.atleast_2d(np.asarray(si)) for si in scalars]
                 try:
                     scalars = np.concatenate(scalars, axis=0)
                 except ValueError:
@@ -462,7 +459,8 @@ def prepare_lines(lines, scalars=None, do_connections=False, other=None):
 
     # broadcast / reshape additional arrays given in other
     if other:
-        for key, arr in other.items():
+        other = dict(other)
+        for key, arr in list(other.items()):
             if arr is None:
                 pass
             elif arr.shape == (1, nlines) or arr.shape == (nlines, 1):
-- 
2.43.0


From 22ade70c851cd70b66eab48371d9765fa01e0d03 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 13/90] fix: adding to a bucket leaves the given handle list
 alone

---
 viscid/bucket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/bucket.py b/viscid/bucket.py
index cd75cb2..eb2ac78 100755
--- a/viscid/bucket.py
+++ b/viscid/bucket.py
@@ -82,7 +82,7 @@ class Bucket(object):
         hashable_item = self._make_hashable(item)
         if hashable_item not in self._hash_lookup:
             if index_handle:
-                handles += [self._int_counter]
+                handles = handles + [self._int_counter]
                 self._int_counter += 1
 
         handles_added = []
-- 
2.43.0


From 3f4cb9ed596759f7b18866c26f9292f453fe4695 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 14/90] fix: fld.loc[[...]] leaves the index list alone

---
 viscid/field.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 79b3089..81494df 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -432,12 +432,8 @@ class _FldSlcProxy(object):
         elif isinstance(item, string_types):
             pass
         elif isinstance(item, (list,)):
-            for i, _ in enumerate(item):
-                # try:
-                if self.do_floatify:
-                    item[i] = 1j * float(item[i])
-                # except (ValueError, TypeError):
-                #     pass
+            if self.do_floatify:
+                item = [1j * float(it) for it in item]
         else:
             if self.do_floatify:
                 item = 1j * float(item)
-- 
2.43.0


From ade77c2f48c0b65314ef0d3e2c669d65b36df463 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 15/90] fix: computing a seed's rotation leaves its pole and
 centre point alone

---
 viscid/seed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index d0aa984..d402ea3 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -1096,7 +1096,7 @@ class Sphere(SeedGen):
         return r, theta, phi
 
     def get_rotation(self):
-        return viscid.a2b_rot([0, 0, 1], self.pole,
+        return viscid.a2b_rot([0, 0, 1], np.array(self.pole),
                               roll=self.roll + self.crd_system_roll, unit='deg')
 
     def as_uv_coordinates(self):
@@ -1346,7 +1346,8 @@ class SphericalPatch(SeedGen):
         return self._make_uv_axes()
 
     def get_rotation(self):
-        return viscid.a2b_rot([0, 0, 1], self.p1, roll=self.roll, unit='deg')
+        return viscid.a2b_rot([0, 0, 1], np.array(self.p1), roll=self.roll,
+                              unit='deg')
 
     def as_uv_coordinates(self):
         alpha, beta = self._make_uv_axes()
-- 
2.43.0


From df543270ce0af9fa3948b6604aa33d5de4ae1b9d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 16/90] fix: setting a node's time to a datetime or timedelta
 sets its time

---
 viscid/tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/tree.py b/viscid/tree.py
index 5ba358b..0b9c4f8 100644
--- a/viscid/tree.py
+++ b/viscid/tree.py
@@ -232,11 +232,12 @@ class Node(object):
     @time.setter
     def time(self, val):
         if viscid.is_datetime_like(val):
-            val = viscid.as_timedelta(self.basetime - viscid.as_datetime64(val))
+            val = viscid.as_timedelta(viscid.as_datetime64(val) - self.basetime)
             val = val.total_seconds()
         elif viscid.is_timedelta_like(val, conservative=True):
             val = viscid.as_timedelta(val).total_seconds()
-        elif val is not None:
+
+        if val is not None:
             self.set_info('time', float(val))
 
     def time_as_timedelta64(self):
-- 
2.43.0


From 3097665f079a3756b0c06c9095be9e395cc2d9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 17/90] fix: find_attr looks at the node it was asked about

---
 viscid/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/tree.py b/viscid/tree.py
index 0b9c4f8..b2505eb 100644
--- a/viscid/tree.py
+++ b/viscid/tree.py
@@ -197,7 +197,7 @@ class Node(object):
         """
         def _condition(_node, _):
             return (hasattr(_node, attr_name) and
-                    getattr(parent, attr_name) is not NotImplemented)
+                    getattr(_node, attr_name) is not NotImplemented)
         parent = self._parent_bfs(_condition)
         if parent is not None:
             return getattr(parent, attr_name)
-- 
2.43.0


From bca7349942e55eb8009a9d82a8269ee089ec037a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 18/90] fix: grid_opts given to load_file reach the file's
 grids

---
 viscid/readers/vfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/vfile.py b/viscid/readers/vfile.py
index f5ab7dc..37a16d2 100644
--- a/viscid/readers/vfile.py
+++ b/viscid/readers/vfile.py
@@ -105,7 +105,7 @@ class VFile(Dataset):
         if grid_type is not None:
             self._grid_type = grid_type
         if grid_opts is not None:
-            self.grid_opts = grid_opts
+            self._grid_opts = grid_opts
         assert isinstance(self._grid_opts, dict)
 
         self.parent_bucket = parent_bucket
-- 
2.43.0


From 2c30fd84f7185f7cee21e8d1271a0273af8886c5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 19/90] fix: unloading files: no failed loads in the bucket,
 del bucket[x] and a second unload work

---
 viscid/readers/vfile.py        | 2 +-
 viscid/readers/vfile_bucket.py | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/viscid/readers/vfile.py b/viscid/readers/vfile.py
index 37a16d2..0da1eac 100644
--- a/viscid/readers/vfile.py
+++ b/viscid/readers/vfile.py
@@ -130,7 +130,7 @@ class VFile(Dataset):
         """Really unload a file, don't just clear the cache"""
         self._clear_cache()
         self.remove_all_items()
-        if self.parent_bucket:
+        if self.parent_bucket and self.parent_bucket.contains_item(self):
             self.parent_bucket.remove_reference(self, **kwargs)
 
     def __exit__(self, exc_type, value, traceback):
diff --git a/viscid/readers/vfile_bucket.py b/viscid/readers/vfile_bucket.py
index 207f1d9..a0bf320 100644
--- a/viscid/readers/vfile_bucket.py
+++ b/viscid/readers/vfile_bucket.py
@@ -139,6 +139,9 @@ class VFileBucket(Bucket):
                         # re-raise the last expection
                         raise
 
+                if f is None:
+                    continue
+
                 self.set_item([handle_name], f, index_handle=index_handle,
                               _add_ref=_add_ref)
                 file_lst.append(f)
@@ -151,7 +154,9 @@ class VFileBucket(Bucket):
     def remove_item(self, item, do_unload=True):
         if do_unload:
             item.unload()
-        super(VFileBucket, self).remove_item(item)
+        # unloading the last reference already removes the item
+        if not do_unload or self.contains_item(item):
+            super(VFileBucket, self).remove_item(item)
 
     def remove_item_by_handle(self, handle, do_unload=True):
         self.remove_item(self[handle], do_unload=do_unload)
@@ -221,6 +226,8 @@ class ContainerFile(VFile):  # pylint: disable=abstract-method
             if "_ref_count" in kwargs:
                 raise RuntimeError()
             self.child_bucket[child_handle].unload(_ref_count=ref_count)
+        self._child_files = []
+        self._child_ref_count = {}
         super(ContainerFile, self).unload()
 
     def clear_cache(self):
-- 
2.43.0


From 3f86a61eba23e46d98e1759fa988e01b302d6f5d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 20/90] fix: cell centres and widths of uniform coordinates use
 the number of cells

---
 viscid/coordinate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 09a37cc..84c5403 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -1269,7 +1269,7 @@ class UniformCrds(StructuredCrds):
         self._nc_linspace_args = _nc_linspace_args
         self._cc_linspace_args = []
         for args in _nc_linspace_args:
-            half_dx = 0.5 * (args[1] - args[0]) / max(args[2], 1)
+            half_dx = 0.5 * (args[1] - args[0]) / max(args[2] - 1, 1)
             cc_args = [args[0] + half_dx, args[1] - half_dx,
                        max(args[2] - 1, 0)]
             self._cc_linspace_args.append(cc_args)
@@ -1282,7 +1282,7 @@ class UniformCrds(StructuredCrds):
         self.shape_nc = np.array([args[2] for args in self._nc_linspace_args],
                                  dtype='int')
         self.L_nc = self.xh_nc - self.xl_nc
-        self.min_dx_nc = self.L_nc / self.shape_nc
+        self.min_dx_nc = self.L_nc / np.clip(self.shape_nc - 1, 1, None)
         self.min_dx_nc = np.ma.masked_values(self.min_dx_nc, 0.0)
 
         # cell centered things
@@ -1293,7 +1293,7 @@ class UniformCrds(StructuredCrds):
         self.shape_cc = np.array([args[2] for args in self._cc_linspace_args],
                                  dtype='int')
         self.L_cc = self.xh_cc - self.xl_cc
-        self.min_dx_cc = self.L_cc / np.clip(self.shape_cc, 1, None)
+        self.min_dx_cc = self.L_cc / np.clip(self.shape_cc - 1, 1, None)
 
         init_clist = [(axis, None) for axis, _ in init_clist]
         super(UniformCrds, self).__init__(init_clist, dtype=self.dtype,
@@ -1362,7 +1362,7 @@ class UniformCrds(StructuredCrds):
         """
         axes = self.axes
         xl, xh = self.get_xl(), self.get_xh()
-        dx = (xh - xl) / self.shape_nc
+        dx = (xh - xl) / np.clip(self.shape_nc - 1, 1, None)
         # FIXME: I don't think this will extend datetime64/timedelta64 axes
         dx = np.choose(np.abs(dx) > 0, [default_width, dx])
         xl -= 0.5 * dx
-- 
2.43.0


From 01bbd205da66e23a6df6db91084155e2e5826d36 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 21/90] fix: adjust_crds does not rename the axes of the field
 it is called on

---
 viscid/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/field.py b/viscid/field.py
index 81494df..64d01c6 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1755,7 +1755,7 @@ class Field(tree.Leaf):
             for ax in self.crds.axes:
                 adjustments[ax] = adj
 
-        axes = self.crds.axes
+        axes = list(self.crds.axes)
         crd_arrs_nc = self.get_crds_nc()
         # crd_arrs_cc = self.get_crds_cc()
 
-- 
2.43.0


From 7cc9c770725ddc01745b99c65d1ba6fcab90bf89 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 22/90] fix: short lists of units are filled up instead of
 failing

---
 viscid/coordinate.py | 2 +-
 viscid/mapfield.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 84c5403..e0468b5 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -186,7 +186,7 @@ class Coordinates(object):
             units = self._units
             if not isinstance(units, (list, tuple)):
                 units = [units] * self.nr_dims
-            units += [None] * (len(units) - self.nr_dims)
+            units = list(units) + [None] * (self.nr_dims - len(units))
             units = ["" if u is None else u.strip() for u in units]
             self._units = units
             self._units_validated = True
diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 0c5f916..ac8509c 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -53,7 +53,7 @@ def fld_noop(fld, base, target, unit=''):
 def _prep_units(order, units='', fld=None):
     if not isinstance(units, (list, tuple)):
         units = [units] * len(order)
-    units += [None] * (len(units) - len(order))
+    units = list(units) + [None] * (len(order) - len(units))
     units = ['' if u is None else u.strip() for u in units]
     if fld is not None:
         crds = fld.crds
-- 
2.43.0


From 07bd605e541bff8243dece6036f8c6a439b98603 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 23/90] fix: cart2sph(deg=True) returns degrees

---
 viscid/mapfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index ac8509c..511a627 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -397,7 +397,7 @@ def cart2sph(arr, deg=False):
     ret[1, :] = np.arccos(arr[2, :] / ret[0, :])
     ret[2, :] = np.arctan2(arr[1, :], arr[0, :])
     if deg:
-        arr[1:] *= 180.0 / np.pi
+        ret[1:] *= 180.0 / np.pi
     if was_single_point:
         return ret[:, 0]
     else:
-- 
2.43.0


From 966a7a7364f0fd064d01deb7319307cb7fe5a659 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 24/90] fix: spherical conversions of integer points are not
 truncated

---
 viscid/mapfield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 511a627..0b3f543 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -376,6 +376,8 @@ def pts2polar_mapfield(pts, pts_axes, pts_unit='deg', hemisphere='north'):
 def _as_3xN(arr, d=3):
     """return a copy of arr as a 3xN array"""
     arr = np.array(arr)
+    if not np.issubdtype(arr.dtype, np.floating):
+        arr = arr.astype('f8')
     was_single_point = arr.shape == (d, )
     arr = arr.reshape((d, -1))
     return arr, was_single_point
-- 
2.43.0


From d8fb3600241adbd3df512d8a78a6843c34f648ca Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 25/90] fix: as_mapfield and as_spherefield of fields in
 radians

---
 viscid/mapfield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 0b3f543..f44d59a 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -111,6 +111,7 @@ def fld_phi2lon(fld, base='phi', target='lon', unit='deg'):
 
 def fld_theta2lat(fld, base='theta', target='lat', unit='deg'):
     _, ddat = _get_axinds(fld, base)
+    unit = unit if unit else fld.crds.get_unit(base)
     crd_xform = lambda x: theta2lat(x, unit=unit)[::-1]
     dslc = [slice(None)] * fld.nr_dims
     dslc[ddat] = slice(None, None, -1)
@@ -124,6 +125,7 @@ def fld_lon2phi(fld, base='lon', target='phi', unit='deg'):
 
 def fld_lat2theta(fld, base='lat', target='theta', unit='deg'):
     dcrd, ddat = _get_axinds(fld, base)
+    unit = unit if unit else fld.crds.get_unit(base)
     crd_xform = lambda x: lat2theta(x, unit=unit)[::-1]
     dslc = [slice(None)] * fld.nr_dims
     dslc[ddat] = slice(None, None, -1)
-- 
2.43.0


From 9e19aade938b4fd77a4a5b6230e67e07b2688453 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 26/90] fix: latitude of flat layout vector fields runs along
 the latitude axis

---
 viscid/mapfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index f44d59a..b8e42d0 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -76,7 +76,7 @@ def _make_transform_unit_func(base_unit, target_unit):
 
 def _get_axinds(fld, ax):
     dcrd = fld.crds.ind(ax)
-    ddat = dcrd + 1 if fld.nr_comps and fld.nr_comp < dcrd else dcrd
+    ddat = dcrd + 1 if fld.nr_comps and fld.nr_comp <= dcrd else dcrd
     return dcrd, ddat
 
 def _fld_xform_common(fld, base, target, unit, crd_xform, dat_xform, raw=False):
-- 
2.43.0


From 78811cf48bc2691644a966fa007e4388659f0801 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 27/90] fix: derivatives at a point work again, and curl uses
 the right differences

---
 viscid/calculator/calc.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 91b4fcb..35e528d 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -527,21 +527,22 @@ def local_vector_points(B, x, y, z, dx=None, dy=None, dz=None):
     assert has_cython  # if a problem, you need to build Viscid
     assert B.iscentered("Cell")
 
-    x, y, z = [np.array(c).reshape(1, 1) for c in [x, y, z]]
+    x, y, z = [np.array(c, dtype='f8').reshape(1, 1) for c in [x, y, z]]
     crds = B.get_crds("xyz")
     inds = [0] * len(crds)
     dcrd = [0] * len(crds)
     # This makes points in xyz order
     pts = np.tile([x, y, z], 6).reshape(3, -1).T
     for i, crd, loc, d in zip(count(), crds, [x, y, z], [dx, dy, dz]):
-        inds[i] = cycalc.closest_ind(crd, loc)
+        inds[i] = int(np.argmin(np.abs(crd - loc)))
         if d is None:
-            dcrd[i] = crd[inds[i] + 1] - crd[inds[i]]
+            i0 = min(inds[i], len(crd) - 2)
+            dcrd[i] = crd[i0 + 1] - crd[i0]
         else:
             dcrd[i] = d
         pts[2 * i + 1, i] += dcrd[i]
         pts[2 * i + 0, i] -= dcrd[i]
-    bs = cycalc.interp_trilin(B, seed.Point(pts))
+    bs = cycalc.interp_trilin(B, seed.Point(pts.T)).data
     # viscid.interact(banner="in local_vector_points")
     return bs, pts, dcrd
 
@@ -632,10 +633,10 @@ def curl_at_point(A, x, y, z, dx=None, dy=None, dz=None):
     # this is confusing: In As, first index is xyz, 2nd index is xyz
     #             xi+dxi  comp      xi-dxi   comp /   (2 * dxi)
     c[0] = ((As[2 * 1 + 1, 2] - As[2 * 1 + 0, 2]) / (2.0 * dcrd[1]) -
-            (As[2 * 0 + 1, 1] - As[2 * 0 + 0, 1]) / (2.0 * dcrd[2]))
-    c[1] = ((As[2 * 0 + 1, 0] - As[2 * 0 + 0, 0]) / (2.0 * dcrd[2]) -
-            (As[2 * 2 + 1, 2] - As[2 * 2 + 0, 2]) / (2.0 * dcrd[0]))
-    c[2] = ((As[2 * 2 + 1, 1] - As[2 * 2 + 0, 1]) / (2.0 * dcrd[0]) -
+            (As[2 * 2 + 1, 1] - As[2 * 2 + 0, 1]) / (2.0 * dcrd[2]))
+    c[1] = ((As[2 * 2 + 1, 0] - As[2 * 2 + 0, 0]) / (2.0 * dcrd[2]) -
+            (As[2 * 0 + 1, 2] - As[2 * 0 + 0, 2]) / (2.0 * dcrd[0]))
+    c[2] = ((As[2 * 0 + 1, 1] - As[2 * 0 + 0, 1]) / (2.0 * dcrd[0]) -
             (As[2 * 1 + 1, 0] - As[2 * 1 + 0, 0]) / (2.0 * dcrd[1]))
     return c
 
-- 
2.43.0


From de57ffc728faba8f08b5b25459f85a90241e3323 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 28/90] fix: Field.downsample works

---
 viscid/field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 64d01c6..24d9e92 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -2260,7 +2260,7 @@ class ScalarField(Field):
     def downsample(self):
         """ downsample the spatial dimensions by a factor of 2 """
         # FIXME: this implementation assumes a lot about the field
-        end = np.array(self.sshape) // 2
+        end = 2 * (np.array(self.sshape) // 2)
         dat = self.data
 
         if self.nr_sdims == 1:
@@ -2280,7 +2280,9 @@ class ScalarField(Field):
                                dat[:end[0]:2, 1:end[1]:2, 1:end[2]:2] +
                                dat[1:end[0]:2, 1:end[1]:2, 1:end[2]:2])
 
-        downclist = self._src_crds.get_clist(np.s_[::2])
+        downclist = self._src_crds.get_clist(slc=np.s_[::2], full_arrays=True)
+        if self.iscentered("Node"):
+            downclist = [[c[0], c[1][:n]] for c, n in zip(downclist, downdat.shape)]
         cunits = self._src_crds.get_units((c[0] for c in downclist), allow_invalid=1)
         downcrds = coordinate.wrap_crds("nonuniform_cartesian", downclist,
                                         units=cunits, **self._src_crds.meta)
-- 
2.43.0


From c42e0ea2e8466c7255d44dbbf21e01fe966b318f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 29/90] fix: integrate_along_lines(reduction='mag') works for
 more than one line

---
 viscid/calculator/calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 35e528d..d13bf8c 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -490,7 +490,7 @@ def integrate_along_lines(lines, fld, reduction="dot", mask_func=None,
                 values = np.sum(values, axis=1)
             elif reduction in ["mag", "magnitude", "norm"]:
                 mag = np.linalg.norm(fld_on_verts[start:stop], axis=1)
-                values = 0.5 * (mag[start:stop - 1] + mag[start + 1:stop])
+                values = 0.5 * (mag[:-1] + mag[1:])
             else:
                 raise ValueError("Unknown reduction: {0}".format(reduction))
         else:
-- 
2.43.0


From 0c4b518055fa524f29dd00279a36b8a15166675b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 30/90] fix: chunking by size uses the size

---
 viscid/parallel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/parallel.py b/viscid/parallel.py
index 0d146cd..0474c85 100644
--- a/viscid/parallel.py
+++ b/viscid/parallel.py
@@ -80,7 +80,7 @@ def chunk_list(seq, nchunks, size=None):
     nel = len(seq)
 
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = int(ceil(nel / size))
 
     ret = chunk_slices(nel, nchunks)
     for i in range(nchunks):
@@ -111,7 +111,7 @@ def chunk_slices(nel, nchunks, size=None):
         True
     """
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = int(ceil(nel / size))
 
     nlong = nel % nchunks  # nshort guarenteed < nchunks
     lenshort = nel // nchunks
@@ -169,7 +169,7 @@ def chunk_sizes(nel, nchunks, size=None):
         True
     """
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = int(ceil(nel / size))
 
     nlong = nel % nchunks  # nshort guarenteed < nchunks
     lenshort = nel // nchunks
-- 
2.43.0


From 7976bf6077c660ad435f251bf7285f876e2daee0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 31/90] fix: parallel.map works with a given pool

---
 viscid/parallel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/parallel.py b/viscid/parallel.py
index 0474c85..8a995bf 100644
--- a/viscid/parallel.py
+++ b/viscid/parallel.py
@@ -222,8 +222,9 @@ def map(nr_procs, func, args_iter, args_kw=None, timeout=1e8,
                          daemonic=daemonic, threads=threads, pool=pool)
         ret = r.get(int(timeout))
         # in principle this join should return almost immediately since
-        # we already called r.get
-        p.join()
+        # we already called r.get; a pool we were given is still open
+        if pool is None:
+            p.join()
 
     return ret
 
-- 
2.43.0


From 469059424cf33c0fcded66e94d5d4ab9936bddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 32/90] fix: a failed calc_streamlines does not block the
 following ones

---
 viscid/cython/streamline.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/viscid/cython/streamline.pyx b/viscid/cython/streamline.pyx
index e3fb67a..f6723ba 100644
--- a/viscid/cython/streamline.pyx
+++ b/viscid/cython/streamline.pyx
@@ -265,9 +265,11 @@ def calc_streamlines(vfield, seed, nr_procs=1, force_subprocess=False,
                            "global memory space")
     _global_fld = fld
     grid_iter = izip(chunk_sizes, repeat(seed), seed_slices)
-    r = parallel.map(nr_procs, _do_streamline_star, grid_iter, args_kw=kwargs,
-                     threads=threads, force_subprocess=force_subprocess)
-    _global_fld = None
+    try:
+        r = parallel.map(nr_procs, _do_streamline_star, grid_iter, args_kw=kwargs,
+                         threads=threads, force_subprocess=force_subprocess)
+    finally:
+        _global_fld = None
 
     # rearrange the output to be the exact same as if we just called
     # _py_streamline straight up (like for nr_procs == 1)
-- 
2.43.0


From 86f226a3d5704eec410063525cc10573f56d7048 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 33/90] fix: max_t limits the integration time of streamlines,
 not its running sum

---
 viscid/cython/streamline.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/cython/streamline.pyx b/viscid/cython/streamline.pyx
index f6723ba..74c665c 100644
--- a/viscid/cython/streamline.pyx
+++ b/viscid/cython/streamline.pyx
@@ -560,6 +560,9 @@ def _py_streamline(FusedAMRField amrfld, FusedField active_patch,
                     s0[1] = s[1]
                     s0[2] = s[2]
 
+                    # the integrators add this step's time to dt
+                    dt = 0.0
+                    abs_dt = 0.0
                     ret = integrate_func(patch, s, &ds, dt_ptr,
                                          max_error, smallest_ds, largest_ds,
                                          vscale, cached_idx3)
-- 
2.43.0


From 97d20b8761d1cde55eb3ab01c13c5dfa849246df Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 34/90] fix: file names given to make_animation and
 meshlab_convert are not run by a shell

---
 viscid/extools.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/viscid/extools.py b/viscid/extools.py
index 46ed215..6bf81a0 100644
--- a/viscid/extools.py
+++ b/viscid/extools.py
@@ -2,6 +2,7 @@
 """Call out to external tools like ffmpeg and meshlab"""
 
 from __future__ import print_function
+import glob
 import os
 import subprocess as sub
 
@@ -24,16 +25,19 @@ def make_animation(movie_fname, prefix, framerate=5, qscale=2, keep=False,
         keep = args.keep
 
     if movie_fname:
-        cmd = "yes | {0}".format(program) if yes else program
         if program == "ffmpeg":
-            sub.Popen("{0} -r {1} -i {3}{4}.png -pix_fmt yuv420p "
-                      "-qscale {2} {5}".format(cmd, framerate, qscale, prefix,
-                                               frame_idx_fmt, movie_fname),
-                      shell=True).communicate()
+            cmd = [program, "-r", str(framerate),
+                   "-i", "{0}{1}.png".format(prefix, frame_idx_fmt),
+                   "-pix_fmt", "yuv420p", "-qscale", str(qscale), movie_fname]
+            if yes:
+                sub.Popen(cmd, stdin=sub.PIPE).communicate(b"y\n")
+            else:
+                sub.Popen(cmd).communicate()
     if movie_fname is None and prefix is not None:
         keep = True
     if not keep:
-        sub.Popen("rm -f {0}_*.png".format(prefix), shell=True).communicate()
+        for fname in glob.glob("{0}_*.png".format(glob.escape(prefix))):
+            os.remove(fname)
     return None
 
 def meshlab_convert(fname, fmt="dae", quiet=True):
@@ -54,10 +58,13 @@ def meshlab_convert(fname, fmt="dae", quiet=True):
     """
     iname = fname
     oname = '.'.join(iname.split('.')[:-1]) + "." + fmt.strip()
-    redirect = "&> {0}".format(os.devnull) if quiet else ""
-    cmd = ("meshlabserver -i {0} -o {1} -m vc vn fc fn {2}"
-           "".format(iname, oname, redirect))
-    sub.Popen(cmd, shell=True, stdout=None, stderr=None)
+    cmd = ["meshlabserver", "-i", iname, "-o", oname,
+           "-m", "vc", "vn", "fc", "fn"]
+    if quiet:
+        with open(os.devnull, "w") as devnull:
+            sub.Popen(cmd, stdout=devnull, stderr=devnull)
+    else:
+        sub.Popen(cmd)
 
 ##
 ## EOF
-- 
2.43.0


From 13029121d04c1ffd29d4627bdf50342619286fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 35/90] fix: as_isotime returns the converted times of an
 array, no interactive shell on errors

---
 viscid/npdatetime.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index d2a6cbe..ff7df9a 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -235,7 +235,7 @@ def as_isotime(time):
         return ret[0]
     else:
         if isinstance(time, np.ndarray):
-            return np.array(time, dtype=time.dtype)
+            return np.array(ret)
         else:
             return ret
 
@@ -399,14 +399,10 @@ def _adjust_t_unit(t, unit, cfunc=None, allow0=True):
         # overflowed a 64-bit int completely, an OverflowError has already
         # been raised
         t2 = cfunc(t1, unit=orig_unit)
-        try:
-            if not np.all(t == t2):
-                raise OverflowError("Time {0} could not be refined to unit '{1}' "
-                                    "because it overflowed into the sign bit ({2})."
-                                    "".format(str(t), unit, str(t1)))
-        except ValueError:
-            import viscid; viscid.interact()
-            raise
+        if not np.all(t == t2):
+            raise OverflowError("Time {0} could not be refined to unit '{1}' "
+                                "because it overflowed into the sign bit ({2})."
+                                "".format(str(t), unit, str(t1)))
     else:
         # we want a less precise unit, i.e., round t to the new unit... raise
         # a PrecisionError if t was rounded to 0
-- 
2.43.0


From 81684ab75c4d446503087ebadd9db0309c18fd34 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 36/90] fix: heliocentric identity transforms are identities

---
 viscid/cotr.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index dcad180..c185848 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -352,7 +352,7 @@ class Cotr(object):
     # verify your favorite transformations and fix them or mark them as tested
     #
     GEOCENTRIC = ['gei', 'geo', 'gse', 'gsm', 'sm', 'mag', 'mhd']
-    HELIOCENTRIC = ['hea', 'hee', 'heeq']
+    HELIOCENTRIC = ['hae', 'hee', 'heeq']
     XFORM_LOOKUP = {"gei->gei": (0, ),  # identity
                     "geo->gei": (-1, ),
                     "gse->gei": (-2, ),
@@ -382,12 +382,12 @@ class Cotr(object):
                     "mhd->mag": (5, 1, -2, 6),
                     "mhd->mhd": (0, ),  # identity
                     # Heliocentric
-                    "hae->hae": (0),  # identity
-                    "hee->hae": (-11),
-                    "heeq->hae": (-12),
-                    "hee->hee": (0),  # identity
+                    "hae->hae": (0, ),  # identity
+                    "hee->hae": (-11, ),
+                    "heeq->hae": (-12, ),
+                    "hee->hee": (0, ),  # identity
                     # "heeq->hee": (0),  # <- unknown transform?
-                    "heeq->heeq": (0),  # identity
+                    "heeq->heeq": (0, ),  # identity
                    }
 
     def __init__(self, time='1967-01-01', dip_tilt=None, dip_gsm=None, rdim=3,
-- 
2.43.0


From 7e64aa1a8969422dcce63942349f9db0057ee9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 37/90] fix: dipole masks: fill_dipole(mask=),
 make_spherical_mask and calc_dip of many points

---
 viscid/dipole.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 7bceee6..7001f09 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -99,7 +99,7 @@ def fill_dipole(B, m=(0, 0, -DEFAULT_STRENGTH), strength=None, mask=None):
         Field: B
     """
     # FIXME: should really be taking the curl of a vector field
-    if mask:
+    if mask is not None:
         Bdip = field.empty_like(B)
     else:
         Bdip = B
@@ -141,8 +141,11 @@ def fill_dipole(B, m=(0, 0, -DEFAULT_STRENGTH), strength=None, mask=None):
             mdotr = mx * _X + my * _Y + mz * _Z
             Bdip[cn] = ((three * _XI * mdotr / rsq) - _mi) / rsq**1.5
 
-    if mask:
-        B.data[...] = np.choose(mask.astype('i'), [B, Bdip])
+    if mask is not None:
+        sel = np.asarray(mask).astype('bool')
+        if sel.ndim < B.data.ndim:
+            sel = np.expand_dims(sel, B.nr_comp)
+        B.data[...] = np.where(sel, Bdip.data, B.data)
     return B
 
 def calc_dip(pts, m=(0, 0, -DEFAULT_STRENGTH), strength=None, crd_system='gse',
@@ -165,6 +168,8 @@ def calc_dip(pts, m=(0, 0, -DEFAULT_STRENGTH), strength=None, crd_system='gse',
         ndarray: Nx3 dipole field vectors for N points
     """
     pts = np.asarray(pts, dtype=dtype)
+    if dtype is None and not np.issubdtype(pts.dtype, np.floating):
+        pts = pts.astype('f8')
     if len(pts.shape) == 1:
         pts = pts.reshape(1, 3)
         single_pt = True
@@ -194,11 +199,13 @@ def calc_dip(pts, m=(0, 0, -DEFAULT_STRENGTH), strength=None, crd_system='gse',
         _X, _Y, _Z = pts.T
         rsq = ne.evaluate("_X**2 + _Y**2 + _Z**2")  # pylint: disable=W0612
         mdotr = ne.evaluate("mx * _X + my * _Y + mz * _Z")  # pylint: disable=W0612
+        rsq, mdotr = rsq.reshape(-1, 1), mdotr.reshape(-1, 1)
         Bdip = ne.evaluate("((three * pts * mdotr / rsq) - m) / rsq**1.5")
     else:
         _X, _Y, _Z = pts.T
         rsq = _X**2 + _Y**2 + _Z**2
         mdotr = mx * _X + my * _Y + mz * _Z
+        rsq, mdotr = rsq.reshape(-1, 1), mdotr.reshape(-1, 1)
         Bdip = ((three * pts * mdotr / rsq) - m) / rsq**1.5
 
     if single_pt:
@@ -249,7 +256,7 @@ def make_spherical_mask(fld, rmin=0.0, rmax=None, rsq=None):
             rsq = np.sum([c**2 for c in _crd_lst[i]], axis=0)
             _slc = [slice(None)] * len(fld.shape)
             _slc[fld.nr_comp] = i
-            mask[_slc] = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)
+            mask[tuple(_slc)] = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)
         return fld.wrap_field(mask, dtype='bool')
     else:
         rsq = np.sum([c**2 for c in fld.get_crds(shaped=True)], axis=0)
-- 
2.43.0


From b2add99e6ecd7be265fa3e327a8c21a2f1c75b7f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 38/90] fix: new edge and face centered fields have the shape
 fields of that centering have

---
 viscid/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/field.py b/viscid/field.py
index 24d9e92..348cf7e 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -167,7 +167,8 @@ def full(crds, fill_value, dtype="f8", name="NoName", center="cell",
     elif center.lower() == "node":
         sshape = crds.shape_nc
     else:
-        sshape = crds.shape_nc
+        # edge and face centered fields use the shape of the cells
+        sshape = crds.shape_cc
 
     if nr_comps == 0:
         fldtype = "scalar"
-- 
2.43.0


From d8f81ba6da922a2459ba4e550cd605b0cc0f9f2a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 39/90] fix: interpolation indices stay inside nonuniform
 fields and AMR patches

---
 viscid/cython/cycalc.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/viscid/cython/cycalc.pyx b/viscid/cython/cycalc.pyx
index 76c2f28..9fc0192 100644
--- a/viscid/cython/cycalc.pyx
+++ b/viscid/cython/cycalc.pyx
@@ -257,7 +257,9 @@ cdef inline int closest_preceeding_ind(FusedField fld, int m, int d, real_t valu
     cdef real_t frac
     cdef int i, ind, found_ind
     cdef int n = fld.n[d]
-    cdef int startidx = cached_idx3[d]  # using fld.cached_ind is not threadsafe
+    # using fld.cached_ind is not threadsafe; the index may be that of another
+    # patch, so keep it inside this one
+    cdef int startidx = int_min(cached_idx3[d], fld.nm1[d])
 
     if n == 1:
         ind = 0
@@ -274,7 +276,7 @@ cdef inline int closest_preceeding_ind(FusedField fld, int m, int d, real_t valu
                     found_ind = 1
                     break
             if not found_ind:
-                i = n - 1
+                i = fld.nm2[d]
         else:
             i = startidx - 1
             for i in range(startidx - 1, -1, -1):
-- 
2.43.0


From 7cd6a1bb2d66500ee42ac69e3f3e721405a9a193 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 40/90] fix: integer fields can be used in compiled functions

---
 viscid/cython/cyamr.pyx   | 2 +-
 viscid/cython/cyfield.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/cython/cyamr.pyx b/viscid/cython/cyamr.pyx
index 4de6038..2649929 100644
--- a/viscid/cython/cyamr.pyx
+++ b/viscid/cython/cyamr.pyx
@@ -117,7 +117,7 @@ cdef make_cyamrfield(vfield):
         amrfld = _init_cyamrfield(AMRField_I4_Crd_F8(), vfield, 'f8')
     elif fld_dtype == np.dtype('i8'):
         amrfld = _init_cyamrfield(AMRField_I8_Crd_F8(), vfield, 'f8')
-    if fld_dtype == np.dtype('f4'):
+    elif fld_dtype == np.dtype('f4'):
         amrfld = _init_cyamrfield(AMRField_F4_Crd_F4(), vfield, 'f4')
     elif fld_dtype == np.dtype('f8'):
         amrfld = _init_cyamrfield(AMRField_F8_Crd_F8(), vfield, 'f8')
diff --git a/viscid/cython/cyfield.pyx b/viscid/cython/cyfield.pyx
index e8ca83a..822635b 100644
--- a/viscid/cython/cyfield.pyx
+++ b/viscid/cython/cyfield.pyx
@@ -121,7 +121,7 @@ cdef make_cyfield(vfield):
         fld = _init_cyfield(Field_I4_Crd_F8(), vfield, 'i4', 'f8')
     elif fld_dtype == np.dtype('i8'):
         fld = _init_cyfield(Field_I8_Crd_F8(), vfield, 'i8', 'f8')
-    if fld_dtype == np.dtype('f4'):
+    elif fld_dtype == np.dtype('f4'):
         fld = _init_cyfield(Field_F4_Crd_F4(), vfield, 'f4', 'f4')
     elif fld_dtype == np.dtype('f8'):
         fld = _init_cyfield(Field_F8_Crd_F8(), vfield, 'f8', 'f8')
-- 
2.43.0


From d9a52dfc69caf360e9bcbba43db9a84269b5b46f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 41/90] fix: project_along_line keeps the last point

---
 viscid/calculator/calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index d13bf8c..a4ad03a 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -430,7 +430,7 @@ def project_along_line(line, fld, interp_kind='trilin'):
     #        maybe that's not the bug, but there must be something wrong
     #        here as indicated by kris_scripts/work/iono_xi_mismatch/analytic_pot.py
     dsvec = line[:, 2:] - line[:, :-2]
-    dsvec = np.concatenate([dsvec[:, 0:1], dsvec, dsvec[:, -2:-1]], axis=1)
+    dsvec = np.concatenate([dsvec[:, 0:1], dsvec, dsvec[:, -1:]], axis=1)
     dsvec = dsvec / np.linalg.norm(dsvec, axis=0)
     return np.sum(fld_on_verts * dsvec.T, axis=1)
 
-- 
2.43.0


From 292a51e154ee0cd43a3a5ffe2d61d2f41724d732 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 42/90] fix: Line and Spline use the first uv coordinate,
 SphericalCap its theta_endpoint

---
 viscid/seed.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index d402ea3..c3009fe 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -456,7 +456,7 @@ class Line(SeedGen):
         return (self.nr_points, )
 
     def uv_to_local(self, pts_uv):
-        return pts_uv[:, :1]
+        return pts_uv[:1, :]
 
     def to_3d(self, pts_local):
         ds = self.p1 - self.p0
@@ -523,7 +523,7 @@ class Spline(SeedGen):
         return (self.nr_points, )
 
     def uv_to_local(self, pts_uv):
-        return pts_uv[:, :1]
+        return pts_uv[:1, :]
 
     def to_3d(self, pts_local, **kwargs):
         import scipy.interpolate as interpolate
@@ -1218,7 +1218,8 @@ class SphericalCap(Sphere):
             angle (float): cone angle of the cap in degrees
             **kwargs: passed to :py:class:`Sphere` constructor
         """
-        super(SphericalCap, self).__init__(thetalim=(angle0, angle), **kwargs)
+        super(SphericalCap, self).__init__(thetalim=(angle0, angle),
+                                           theta_endpoint=theta_endpoint, **kwargs)
 
     @property
     def angle0(self):
-- 
2.43.0


From 9141ca168fc8f445fed21773816eef8f33421b09 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 43/90] fix: errors while selecting AMR patches do not leave
 numpy's warnings disabled

---
 viscid/amr_field.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 511c0fc..3bba51c 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -142,16 +142,14 @@ class AMRField(object):
             # also, temporarily disable warnings on NaNs in numpy
             xl_nc = all_xl_nc[i]
             xh_nc = all_xh_nc[i]
-            invalid_err_level = np.geterr()['invalid']
-            np.seterr(invalid='ignore')
-            atol = 100 * np.finfo(xl_nc.dtype).eps
-            if (not np.any(np.logical_or(xl_nc - atol > extent[1],
-                                         xh_nc <= extent[0]))):
-                if np.any(np.isclose(fld.crds.xh_nc, extent[0], atol=atol)):
-                    maybe.append(i)
-                else:
-                    inds.append(i)
-            np.seterr(invalid=invalid_err_level)
+            with np.errstate(invalid='ignore'):
+                atol = 100 * np.finfo(xl_nc.dtype).eps
+                if (not np.any(np.logical_or(xl_nc - atol > extent[1],
+                                             xh_nc <= extent[0]))):
+                    if np.any(np.isclose(fld.crds.xh_nc, extent[0], atol=atol)):
+                        maybe.append(i)
+                    else:
+                        inds.append(i)
         # if we found some maybes, but no real hits, then use the maybes
         if maybe and not inds:
             inds = maybe
-- 
2.43.0


From 1d110295a8e4f6b5c385ebefcf4ac82b2c280c43 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 44/90] fix: labelling lines never changes numpy's random
 state, also not on errors

---
 viscid/plot/mpl_direct_label.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/viscid/plot/mpl_direct_label.py b/viscid/plot/mpl_direct_label.py
index 6b81461..27f35ba 100644
--- a/viscid/plot/mpl_direct_label.py
+++ b/viscid/plot/mpl_direct_label.py
@@ -77,11 +77,9 @@ def apply_labels(labels=None, colors=None, ax=None, magnet=(0.5, 0.75),
     spacing = spacing.strip().lower()
     if spacing not in ('linear', 'random'):
         raise ValueError("Spacing '{0}' not understood".format(spacing))
-    rand_state = np.random.get_state() if spacing == 'random' else None
-    if rand_state is not None:
-        # save the RNG state to restore it later so that plotting functions
-        # don't change the results of scripts that use random numbers
-        np.random.seed(1)
+    # use a separate generator so that plotting functions don't change the
+    # results of scripts that use random numbers
+    rng = np.random.RandomState(1) if spacing == 'random' else None
 
     _xl, _xh = ax.get_xlim()
     _yl, _yh = ax.get_ylim()
@@ -240,8 +238,8 @@ def apply_labels(labels=None, colors=None, ax=None, magnet=(0.5, 0.75),
         # is that each line segment gets candidates proportinal to their
         # length in pixels on the figure
         s_src = np.concatenate([[0], np.cumsum(seglen_px)])
-        if rand_state is not None:
-            s_dest = s_src[-1] * np.sort(np.random.rand(n_candidates))
+        if rng is not None:
+            s_dest = s_src[-1] * np.sort(rng.rand(n_candidates))
         else:
             s_dest = np.linspace(0, s_src[-1], n_candidates)
         _diff = s_dest.reshape(1, -1) - s_src.reshape(-1, 1)
@@ -349,9 +347,6 @@ def apply_labels(labels=None, colors=None, ax=None, magnet=(0.5, 0.75),
                         color=color, **kwargs)
         annotations.append(a)
 
-    if rand_state is not None:
-        np.random.set_state(rand_state)
-
     return annotations
 
 def text_size_points(size=None, fontproperties=None):
-- 
2.43.0


From 365666afeca6927591dabec3a30dcfbf0556871f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 45/90] fix: particle files can be closed

---
 viscid/readers/psc.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/viscid/readers/psc.py b/viscid/readers/psc.py
index 10c1dfc..40df3df 100644
--- a/viscid/readers/psc.py
+++ b/viscid/readers/psc.py
@@ -91,7 +91,21 @@ class PscParticles(object):
         # self.time = self._h5file[path].attrs["time"][0]
         # self.timestep = self._h5file[path].attrs["timestep"][0]
 
-        self.data = self._h5file["particles/p0/1d"]
+        try:
+            self.data = self._h5file["particles/p0/1d"]
+        except BaseException:
+            self.close()
+            raise
+
+    def close(self):
+        """close the file, `data` can not be used anymore afterwards"""
+        self._h5file.close()
+
+    def __enter__(self):
+        return self
+
+    def __exit__(self, typ, value, traceback):
+        self.close()
 
 
 def open_psc_file(path, step, pfx="p"):
-- 
2.43.0


From 309a71ca4c102bf204f3f48d90a6ac4a7a5bc181 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 46/90] fix: binary files with a bad header are closed again

---
 viscid/readers/athena_bin.py   | 4 ++--
 viscid/readers/ggcm_fortbin.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/viscid/readers/athena_bin.py b/viscid/readers/athena_bin.py
index 3f9a2a8..2e43648 100644
--- a/viscid/readers/athena_bin.py
+++ b/viscid/readers/athena_bin.py
@@ -255,9 +255,9 @@ class AthenaBinFileWrapper(object):
             try:
                 if self._endian is None:
                     self._read_file_header()
-            except IOError as e:
+            except BaseException:
                 self.close()
-                raise e
+                raise
 
     @property
     def isopen(self):
diff --git a/viscid/readers/ggcm_fortbin.py b/viscid/readers/ggcm_fortbin.py
index 405fdcf..dca9894 100644
--- a/viscid/readers/ggcm_fortbin.py
+++ b/viscid/readers/ggcm_fortbin.py
@@ -137,9 +137,9 @@ class GGCMFortbinFileWrapper(object):
             try:
                 if self._endian is None or self._file_meta is None:
                     self._read_file_header()
-            except IOError as e:
+            except BaseException:
                 self.close()
-                raise e
+                raise
 
     @property
     def isopen(self):
-- 
2.43.0


From e20633fd5d598e0b60a5caa813ca6c226e1d1a36 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 47/90] fix: dipole_moment2cotr recovers the orientation of the
 moment it is given

---
 viscid/cotr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index c185848..fbf3ef6 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -892,7 +892,8 @@ def dipole_moment2cotr(m, crd_system='gse'):
     """
     if as_crd_system(crd_system) not in ('gse', 'mhd'):
         raise ValueError('bad crd_system: {0}'.format(crd_system))
-    m = Cotr(dip_tilt=0.0, dip_gsm=0.0).transform(crd_system, 'gse', m)
+    # the moment points to -Z in SM coordinates, see Cotr.get_dipole_moment
+    m = -Cotr(dip_tilt=0.0, dip_gsm=0.0).transform(crd_system, 'gse', m)
     gsm = np.rad2deg(np.arctan2(m[1], m[2]))
     tilt = np.rad2deg(np.arctan2(m[0], np.linalg.norm(m[1:])))
     return Cotr(dip_tilt=tilt, dip_gsm=gsm)
-- 
2.43.0


From 22577d53c1fc6d0aeba59cef75737eee28754951 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 48/90] fix: index slices of cell centered fields keep the
 nodes of the selected cells

---
 viscid/coordinate.py | 49 ++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index e0468b5..5228f15 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -614,6 +614,22 @@ class StructuredCrds(Coordinates):
         new_clist = [(ax, nc) for ax, nc in zip(axes, crds_nc)]
         return type(self)(new_clist)
 
+    @staticmethod
+    def _cell_nodes_slice(slc, ncells):
+        """Slice of the nodes that bound the cells selected by slc
+
+        Parameters:
+            slc (slice): slice of cells; step must be None, 1, or -1
+            ncells (int): number of cells along this axis
+        """
+        start, stop, step = slc.indices(ncells)
+        n = len(range(start, stop, step))
+        if step > 0:
+            return slice(start, start + n + 1)
+        else:
+            last = start - n
+            return slice(start + 1, last if last >= 0 else None, -1)
+
     def _make_slice(self, selection, cc=False):
         """Turns a selection into finalized slices and coordinates
 
@@ -689,23 +705,15 @@ class StructuredCrds(Coordinates):
 
                     allslc = slice(slc.start, slc.stop,
                                    slc.step // np.abs(slc.step))
+                    allslc = self._cell_nodes_slice(allslc,
+                                                    len(crd_arrs_cc[i]))
                     allnc = crd_arrs_nc[i][allslc]
                     crd_nc = np.concatenate([[allnc[0]], crd_nc, [allnc[-1]]])
 
                     sliced_clist_item = [axis, crd_nc, crd_cc]
 
-                elif cc and slc.stop is not None:
-                    if slc.stop >= 0:
-                        if slc.step is None or slc.step > 0:
-                            newstop = slc.stop + 1
-                        else:
-                            newstop = slc.stop - 1
-                    else:  # slc.stop < 0
-                        # this will slice crds nc, so if we're going backward,
-                        # the extra crd will be included
-                        # print("am i used?", slc.step)
-                        newstop = slc.stop
-                    slc = slice(slc.start, newstop, slc.step)
+                elif cc:
+                    slc = self._cell_nodes_slice(slc, len(crd_arrs_cc[i]))
 
                 if sliced_clist_item is None:
                     cval = crd_arrs_nc[i][slc]
@@ -723,7 +731,7 @@ class StructuredCrds(Coordinates):
                     sliced_clist.append([axis, crd_arrs_nc[i][slc]])
 
             elif hasattr(slc, "__index__"):
-                cval = crd_arrs_nc[i][slc]
+                cval = crd_arrs[i][slc]
                 reduced.append([axis, cval])
 
             elif slc == np.newaxis:
@@ -746,6 +754,14 @@ class StructuredCrds(Coordinates):
                 any_non_uniform = True
                 break
 
+            # if the cell centers are not half way between the nodes (like for
+            # a strided slice), then uniform crds can not reproduce them
+            if len(clist_i) > 2:
+                mid_nc = 0.5 * (clist_i[1][1:] + clist_i[1][:-1])
+                if not np.allclose(mid_nc, clist_i[2]):
+                    any_non_uniform = True
+                    break
+
             diff_nc = np.diff(clist_i[1])
             if diff_nc.shape[0] > 0:
                 # integers / dates / times should have been caught above
@@ -825,15 +841,12 @@ class StructuredCrds(Coordinates):
             crd_nc = self.get_nc(axis)
 
             if cc:
+                ncells = len(self.get_cc(axis))
                 if loc_ind == -1:
-                    crd = crd_nc[-2:]
                     slc = slice(-1, None)
-                elif loc_ind == -2:
-                    crd = crd_nc[-2:]
-                    slc = slice(-2, -1)
                 else:
-                    crd = crd_nc[loc_ind:loc_ind + 2]
                     slc = slice(loc_ind, loc_ind + 1)
+                crd = crd_nc[self._cell_nodes_slice(slc, ncells)]
             else:
                 if loc_ind == -1:
                     crd = crd_nc[-1:]
-- 
2.43.0


From 28907991d65309558df203fe3ca2ab39d5184a34 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 49/90] fix: gradients and convective derivatives of node
 centered fields

---
 viscid/calculator/calc.py   | 5 +++--
 viscid/calculator/necalc.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index a4ad03a..084e182 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -226,7 +226,8 @@ def _grad_np(fld, bnd=True):
         raise NotImplementedError("Can only do cell and node centered gradients")
 
     v = fld.data
-    g = viscid.zeros(fld['x=1:-1, y=1:-1, z=1:-1'].crds, nr_comps=3)
+    g = viscid.zeros(fld.crds.slice_keep(np.s_[1:-1, 1:-1, 1:-1]), nr_comps=3,
+                     center=fld.center)
 
     xp, xm = crdx[2:,  :,  :], crdx[:-2, :  , :  ]  # pylint: disable=bad-whitespace
     yp, ym = crdy[ :, 2:,  :], crdy[:  , :-2, :  ]  # pylint: disable=bad-whitespace
@@ -343,7 +344,7 @@ def convective_deriv(a, b=None, bnd=True):
             g = grad(b[jcmp], bnd=False)
             for i, icmp in enumerate('xyz'):
                 diBj[i][j] = g[icmp]
-        dest = viscid.zeros(a.crds, nr_comps=3)
+        dest = viscid.zeros(a.crds, nr_comps=3, center=a.center)
         for i, icmp in enumerate('xyz'):
             for j, jcmp in enumerate('xyz'):
                 dest[jcmp][...] += a[icmp] * diBj[i][j]
diff --git a/viscid/calculator/necalc.py b/viscid/calculator/necalc.py
index 8ce136b..e3d0f97 100644
--- a/viscid/calculator/necalc.py
+++ b/viscid/calculator/necalc.py
@@ -154,7 +154,8 @@ def grad(fld, bnd=True):
         raise NotImplementedError("Can only do cell and node centered gradients")
 
     v = fld.data
-    g = viscid.zeros(fld['x=1:-1, y=1:-1, z=1:-1'].crds, nr_comps=3)
+    g = viscid.zeros(fld.crds.slice_keep(np.s_[1:-1, 1:-1, 1:-1]), nr_comps=3,
+                     center=fld.center)
 
     xp, xm = crdx[2:,  :,  :], crdx[:-2, :  , :  ]  # pylint: disable=bad-whitespace
     yp, ym = crdy[ :, 2:,  :], crdy[:  , :-2, :  ]  # pylint: disable=bad-whitespace
-- 
2.43.0


From 98f862640f07da93c8229addd1c0a68fa54049c9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 50/90] fix: native implementation of magnitude

---
 viscid/calculator/calc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 084e182..d2c258b 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -361,7 +361,8 @@ def _magnitude_native(fld):
             for k in range(mag.shape[2]):
                 mag[i, j, k] = np.sqrt(vx[i, j, k]**2 + vy[i, j, k]**2 +
                                        vz[i, j, k]**2)
-    return vx.wrap(mag, context={"name": "{0} magnitude".format(fld.name)})
+    return fld.wrap(mag, context={"name": "{0} magnitude".format(fld.name)},
+                    fldtype="Scalar")
 
 magnitude.add_implementation("native", _magnitude_native)
 
-- 
2.43.0


From 4d2901caa8bf6afb4d76a28a7596b1df3f82aeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 51/90] fix: keep explicit cell centers when slicing cell
 centered fields

---
 viscid/coordinate.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 5228f15..5c40b5d 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -713,7 +713,12 @@ class StructuredCrds(Coordinates):
                     sliced_clist_item = [axis, crd_nc, crd_cc]
 
                 elif cc:
-                    slc = self._cell_nodes_slice(slc, len(crd_arrs_cc[i]))
+                    nc_slc = self._cell_nodes_slice(slc, len(crd_arrs_cc[i]))
+                    sliced_clist_item = [axis, crd_arrs_nc[i][nc_slc]]
+                    # cell centers that were given explicitly can not be
+                    # figured out from the nodes
+                    if axis in self._src_crds_cc:
+                        sliced_clist_item.append(crd_arrs_cc[i][slc])
 
                 if sliced_clist_item is None:
                     cval = crd_arrs_nc[i][slc]
@@ -856,7 +861,10 @@ class StructuredCrds(Coordinates):
                     slc = slice(loc_ind, loc_ind + 1)
 
             slices[new_axis_ind] = slc
-            crdlst.insert(new_axis_ind, [axis, crd])
+            new_crd = [axis, crd]
+            if cc and axis in self._src_crds_cc:
+                new_crd.append(self.get_cc(axis)[slc])
+            crdlst.insert(new_axis_ind, new_crd)
 
         # should be no more reduced crds
         reduced = []
-- 
2.43.0


From efd0667bf31c3167fcf26f6e130a019902ec8007 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 52/90] fix: coordinates of reductions over a spatial axis of a
 vector field

---
 viscid/field.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 348cf7e..1a136e2 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1841,13 +1841,19 @@ class Field(tree.Leaf):
         defer_wrapping = self.defer_wrapping
         if npkwargs:
             axis = npkwargs.get('axis', None)
-            if axis is not None:
-                if self.nr_comps > 0 and axis == self.nr_comp:
+            # things like cumsum and clip have an axis, but don't reduce
+            if axis is not None and tuple(np.shape(arr)) != tuple(self.shape):
+                if not isinstance(axis, (list, tuple)):
+                    axis = [axis]
+                axis = [ax + self.nr_dims if ax < 0 else ax for ax in axis]
+                if self.nr_comps > 0:
                     # reducing vector -> scalar, no need to play with crds
-                    pass
-                else:
-                    reduce_axis = crds.axes[axis]
-                    crd_slc = "{0}=0".format(reduce_axis)
+                    axis = [ax - 1 if ax > self.nr_comp else ax
+                            for ax in axis if ax != self.nr_comp]
+
+                if axis:
+                    crd_slc = ", ".join("{0}=0".format(crds.axes[ax])
+                                        for ax in sorted(axis))
                     default_keepdims = len(self.shape) == len(crds.shape)
                     iscc = self.iscentered('cell')
 
-- 
2.43.0


From 2056ddffaf240b4daac24788a1b7792593838385 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 53/90] fix: mean, std, and ptp of AMR fields

---
 viscid/amr_field.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 3bba51c..e840974 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -297,7 +297,12 @@ class AMRField(object):
 
         if np.asarray(lst[0]).size == 1:
             # operation reduced to scalar
-            arr = np.array(lst)
+            if attrname in ("mean", "std", "ptp"):
+                # these can't be figured out from the values for each patch
+                arr = np.concatenate([np.ravel(patch.data)
+                                      for patch in self.patches])
+            else:
+                arr = np.array(lst)
             return getattr(arr, attrname)(**kwargs)
         else:
             return AMRField(lst, self.skeleton)
-- 
2.43.0


From bf25299625601288934c5b581059df15bc9022d9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 54/90] fix: slicing of edge and face centered fields in fc2cc,
 ec2cc, and div_fc

---
 viscid/calculator/ecfc.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/viscid/calculator/ecfc.py b/viscid/calculator/ecfc.py
index b199212..76edcb5 100644
--- a/viscid/calculator/ecfc.py
+++ b/viscid/calculator/ecfc.py
@@ -121,9 +121,7 @@ def make_ecfc_field_leading(fc, trim_leading=True):
                 raise RuntimeError("I shouldn't be here")
 
         fc.resolve()  # if translating -> gse, do it once, not 4 times
-        s0vec = list(sc)
-        s0vec.insert(fc.nr_comp, slice(None))
-        prepared_fc = viscid.zeros_like(fc[s0vec])
+        prepared_fc = viscid.zeros_like(fc[tuple(sc)])
 
         prepared_fc['x'] = fc['x', sd[0][0], sd[0][1], sd[0][2]]
         prepared_fc['y'] = fc['y', sd[1][0], sd[1][1], sd[1][2]]
@@ -141,9 +139,7 @@ def fc2cc(fc, force_numpy=False, bnd=True):
     fc = make_ecfc_field_leading(fc)
     s0, sm, sp = _prep_slices(fc)
 
-    s0vec = list(s0)
-    s0vec.insert(fc.nr_comp, slice(None))
-    cc = viscid.zeros_like(fc[s0vec])
+    cc = viscid.zeros_like(fc[tuple(s0)])
     cc.center = "Cell"
 
     fcx0, fcx1 = (fc['x', sm[0], s0[1], s0[2]].data,
@@ -181,9 +177,7 @@ def ec2cc(ec, force_numpy=False, bnd=True):
     ec = make_ecfc_field_leading(ec)
     s0, sm, sp = _prep_slices(ec)
 
-    s0vec = list(s0)
-    s0vec.insert(ec.nr_comp, slice(None))
-    cc = viscid.zeros_like(ec[s0vec])
+    cc = viscid.zeros_like(ec[tuple(s0)])
     cc.center = "Cell"
 
     ecx0, ecx1, ecx2, ecx3 = (ec['x', s0[0], sm[1], sm[2]].data,
@@ -230,9 +224,7 @@ def div_fc(fc, force_numpy=False, bnd=True):
     #        just faking it with a 0 order hold before returning
     s0, sm, sp = _prep_slices(fc)
 
-    s0vec = list(s0)
-    s0vec.insert(fc.nr_comp, slice(0, 1))
-    div_cc = viscid.zeros_like(fc[s0vec], center="cell")
+    div_cc = viscid.zeros_like(fc[tuple(['x'] + s0)], center="cell")
 
     x, y, z = fc.get_crds_nc('xyz', shaped=True)
     if True:
-- 
2.43.0


From 37e397bf40e0b2b925facca27ad2fb2c85be8549 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 55/90] fix: divergence of face centered fields with an axis of
 one cell

---
 viscid/calculator/ecfc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viscid/calculator/ecfc.py b/viscid/calculator/ecfc.py
index 76edcb5..da16a40 100644
--- a/viscid/calculator/ecfc.py
+++ b/viscid/calculator/ecfc.py
@@ -238,6 +238,10 @@ def div_fc(fc, force_numpy=False, bnd=True):
     ym, yp = y[:, sm[1], :], y[:, sp[1], :]
     zm, zp = z[:, :, sm[2]], z[:, :, sp[2]]
 
+    # axes with a single cell don't contribute, so don't let them be 0 / 0
+    xp, yp, zp = [p + 1 if n == 1 else p
+                  for n, p in zip(fc.sshape, (xp, yp, zp))]
+
     fcx0, fcx1 = (fc['x', sm[0], s0[1], s0[2]].data,
                   fc['x', sp[0], s0[1], s0[2]].data)
     fcy0, fcy1 = (fc['y', s0[0], sm[1], s0[2]].data,
-- 
2.43.0


From a9b597395b9cb41fd3be50003d0860c730d1aae0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 56/90] fix: default axes of extend_boundaries_ndarr

---
 viscid/calculator/calc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index d2c258b..d28cacd 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -664,6 +664,8 @@ def extend_boundaries_ndarr(arr, nl=1, nh=1, axes='all', nr_comp=None,
     Returns:
         ndarray: A new extended / padded ndarray
     """
+    if isinstance(axes, viscid.string_types) and axes == 'all':
+        axes = list(range(arr.ndim if nr_comp is None else arr.ndim - 1))
     if nr_comp is not None:
         axes = [ax if ax < nr_comp else ax + 1 for ax in axes]
 
-- 
2.43.0


From 177192bdbe8bfa4dbfaf54b7cbbe243a38097537 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 57/90] fix: staggering of edge and face centered fields with
 an axis of one cell

---
 viscid/calculator/ecfc.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/viscid/calculator/ecfc.py b/viscid/calculator/ecfc.py
index da16a40..4655a7e 100644
--- a/viscid/calculator/ecfc.py
+++ b/viscid/calculator/ecfc.py
@@ -106,20 +106,21 @@ def make_ecfc_field_leading(fc, trim_leading=True):
 
             if n == 1:
                 sc[i] = slice(None, None)
-                for j in range(3):
-                    sd[i][j] = slice(None, None)
             elif n > 1:
                 sc[i] = slice(1, None)
-                for j in range(3):
-                    cnd = i == j if center == 'face' else i != j
-                    S = SB if flipping[j] and cnd else SA
-                    if cnd:
-                        sd[i][j] = S[_sd]
-                    else:
-                        sd[i][j] = S[_sd0]
             else:
                 raise RuntimeError("I shouldn't be here")
 
+            for j, nj in enumerate(fc.sshape):
+                cnd = i == j if center == 'face' else i != j
+                S = SB if flipping[j] and cnd else SA
+                if nj == 1:
+                    sd[i][j] = slice(None, None)
+                elif cnd:
+                    sd[i][j] = S[_sd]
+                else:
+                    sd[i][j] = S[_sd0]
+
         fc.resolve()  # if translating -> gse, do it once, not 4 times
         prepared_fc = viscid.zeros_like(fc[tuple(sc)])
 
-- 
2.43.0


From b18a803b0ec3a7ed1c12d4934c557a8ca985e59d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 58/90] fix: flux function of 3D fields

---
 viscid/calculator/plasma.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/viscid/calculator/plasma.py b/viscid/calculator/plasma.py
index d917ccd..87d27fb 100644
--- a/viscid/calculator/plasma.py
+++ b/viscid/calculator/plasma.py
@@ -50,8 +50,7 @@ def calc_psi(B, rev=False):
             if nxi <= 2:
                 slcs[i] = 0
                 reduced_axes.append(B.crds.axes[i])
-        slcs.insert(B.nr_comp, slice(None))
-        B = B[slcs]
+        B = B[tuple(slcs)]
 
     # ok, so the above didn't work... just nip out the smallest dim?
     if B.nr_sdims == 3:
@@ -62,8 +61,7 @@ def calc_psi(B, rev=False):
         logger.warning("Tried to get the flux function of a 3D field. "
                        "I can't do that, so I'm\njust ignoring the {0} "
                        "dimension".format(reduced_axes[-1]))
-        slcs.insert(B.nr_comp, slice(None))
-        B = B[slcs]
+        B = B[tuple(slcs)]
 
     if B.nr_sdims != 2:
         raise ValueError("flux function only implemented for 2D fields")
-- 
2.43.0


From 3a814582ff32b38dcea6d0cd0c415a1bdc79d15e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 59/90] fix: plasma beta is the pressure over B squared, as
 documented

---
 viscid/calculator/plasma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/calculator/plasma.py b/viscid/calculator/plasma.py
index 87d27fb..1d12e84 100644
--- a/viscid/calculator/plasma.py
+++ b/viscid/calculator/plasma.py
@@ -128,10 +128,10 @@ def calc_beta(pp, B, scale=1.0):
     if _HAS_NUMEXPR:
         ldict = dict(scale=scale, bx=bx, by=by, bz=bz,
                      pp=pp, two=two)
-        result = ne.evaluate("scale * two * pp / sqrt(bx**2 + by**2 + bz**2)",
+        result = ne.evaluate("scale * two * pp / (bx**2 + by**2 + bz**2)",
                              local_dict=ldict)
     else:
-        result = scale * two * pp / np.sqrt(bx**2 + by**2 + bz**2)
+        result = scale * two * pp / (bx**2 + by**2 + bz**2)
     context = dict(name="beta", pretty_name=r"$\beta_{pl}$")
     return pp.wrap(result, context=context)
 
-- 
2.43.0


From 410b3bf49fb7b1f320eb937e6c7a809f18b18fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 60/90] fix: as_polar_mapfield refused fields that have values
 poleward of the bounding latitude

---
 viscid/mapfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index b8e42d0..22c5444 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -254,14 +254,14 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
     abs_bounding_lat = abs(bounding_lat)
 
     if hemisphere in ("north", 'n'):
-        if np.all(mfld.get_crd('lat') < abs_bounding_lat):
+        if np.all(mfld.get_crd('lat') < np.pi / 2 - abs_bounding_lat):
             raise ValueError("fld {0} contains no values north of bounding lat "
                              "{1:g} deg"
                              "".format(fld.name, bounding_lat * 180 / np.pi))
         # mfld = mfld["lat=:{0}j:-1".format(abs_bounding_lat)]
         mfld = mfld.loc[:, :np.pi / 2 - abs_bounding_lat:-1]
     elif hemisphere in ("south", 's'):
-        if np.all(mfld.get_crd('lat') > -abs_bounding_lat):
+        if np.all(mfld.get_crd('lat') > -np.pi / 2 + abs_bounding_lat):
             raise ValueError("fld {0} contains no values south of bounding lat "
                              "{1:g} deg"
                              "".format(fld.name, bounding_lat * 180 / np.pi))
-- 
2.43.0


From 4896888d6c9567a30d4fe4c393d4f72e27ccd423 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 61/90] fix: make_periodic for polar mapfields with uniform
 coordinates

---
 viscid/mapfield.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 22c5444..30bbad9 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -289,7 +289,8 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
 
         if phi_diff < 2 * np.pi - 1e-5:
             if mfld.crds.is_uniform():
-                clist[0][1][1] += phi_diff / clist[0][1][2]
+                clist[0][1][1] += phi_diff / (clist[0][1][2] - 1)
+                clist[0][1][2] += 1
                 if not np.isclose(clist[0][1][1] - clist[0][1][0], 2 * np.pi):
                     viscid.logger.warning("Tried unsuccessfully to make uniform "
                                           "polar mapfield periodic: {0:g}"
-- 
2.43.0


From 5189a66ee79c81e6a599e91952bcde3c43c1010b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 62/90] fix: pts2polar_mapfield truncated the angles of integer
 points

---
 viscid/mapfield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 30bbad9..6f932bc 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -342,6 +342,8 @@ def pts2polar_mapfield(pts, pts_axes, pts_unit='deg', hemisphere='north'):
     hemisphere = hemisphere.strip().lower()
 
     pts = np.array(pts)
+    if not np.issubdtype(pts.dtype, np.floating):
+        pts = pts.astype('f8')
     pts_axes = list(pts_axes)
 
     # convert pts to lat/lon
-- 
2.43.0


From 72371a2cad22389651ce8562be0d67ad6a703d36 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:22:01 +0000
Subject: [PATCH 63/90] fix: great circle between points on opposite sides of
 the origin missed the points

---
 viscid/mapfield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 6f932bc..05852c0 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -511,6 +511,8 @@ def great_circle(p1, p2, origin=(0, 0, 0), n=32):
         pole = np.array([0, -1, 0])
         if np.isclose(np.linalg.norm(np.cross(pole, p1)), 0.0):
             pole = np.array([0, 0, -1])
+        # the pole has to be perpendicular to p1, else p1 isn't on the circle
+        pole = pole - p1 * (np.dot(pole, p1) / np.dot(p1, p1))
 
     matBtoA = viscid.a2b_rot([0, 0, 1], pole, new_x=p1)
 
-- 
2.43.0


From 4abefc8bdf6c5e692970c2ddef42531dd8ce4915 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 64/90] fix: spherical masks of fields whose first axis has one
 element

---
 viscid/dipole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 7001f09..cf8a692 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -253,13 +253,13 @@ def make_spherical_mask(fld, rmin=0.0, rmax=None, rsq=None):
         _crd_lst = [[_x, _y, _z] for _x, _y, _z in zip(Xv, Yv, Zv)]
         # csq = [c**2 for c in fld.get_crds_vector(shaped=True)]
         for i in range(3):
-            rsq = np.sum([c**2 for c in _crd_lst[i]], axis=0)
+            rsq = sum(c**2 for c in _crd_lst[i])
             _slc = [slice(None)] * len(fld.shape)
             _slc[fld.nr_comp] = i
             mask[tuple(_slc)] = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)
         return fld.wrap_field(mask, dtype='bool')
     else:
-        rsq = np.sum([c**2 for c in fld.get_crds(shaped=True)], axis=0)
+        rsq = sum(c**2 for c in fld.get_crds(shaped=True))
         mask = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)
         if fld.nr_comps:
             fld = fld['x']
-- 
2.43.0


From a7a3fb1dc7faa606e6f323c9a50e6c9fa6f48511 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 65/90] fix: dipole_map_value on spherical fields in radians

---
 viscid/dipole.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index cf8a692..1f96730 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -376,7 +376,10 @@ def dipole_map_value(fld, pts, r=1.0, fillna=None, cotr=None,
     if fld.is_spherical:
         # TODO: verify that crd_system works as expected for ionosphere
         #       fields (ie, meaning of +x and phi = 0)
-        fld = viscid.as_spherefield(fld, order=('theta', 'phi'))['r=newaxis, ...']
+        # mapped_pts will be in degrees
+        units = 'deg' if any(fld.crds.get_units(fld.crds.axes)) else ''
+        fld = viscid.as_spherefield(fld, order=('theta', 'phi'), units=units)
+        fld = fld['r=newaxis, ...']
     else:
         pass
 
-- 
2.43.0


From 576e3351cda045c87ec5c2980dbdabf6daa95176 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:28:36 +0000
Subject: [PATCH 66/90] fix: set_in_region with masks of one component

---
 viscid/dipole.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 1f96730..572ee14 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -235,11 +235,10 @@ def set_in_region(a, b, alpha=1.0, beta=1.0, mask=None, out=None):
     else:
         if hasattr(mask, "nr_comps") and mask.nr_comps:
             mask = mask.as_centered(a.center).as_layout(a.layout)
-        try:
-            out.data[...] = np.choose(mask, [out.data, vals])
-        except ValueError:
-            out.data[...] = np.choose(mask.data.reshape(list(mask.sshape) + [1]),
-                                      [out.data, vals])
+        sel = np.asarray(mask)
+        if out.nr_comps and sel.ndim < out.data.ndim:
+            sel = np.expand_dims(sel, out.nr_comp)
+        out.data[...] = np.choose(sel, [out.data, vals])
     return out
 
 def make_spherical_mask(fld, rmin=0.0, rmax=None, rsq=None):
-- 
2.43.0


From 26311414686bc029f0e62c56726b4089c885e48e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:29:38 +0000
Subject: [PATCH 67/90] fix: flat edge and face coordinates of axes of one
 element

---
 viscid/coordinate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 5c40b5d..fad8029 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -523,7 +523,7 @@ class StructuredCrds(Coordinates):
             self._Pcrds[a.upper() + sfx] = [None] * len(self.axes)
             for j, d in enumerate(self.axes):  # pylint: disable=W0612
                 if i == j:
-                    self._Pcrds[a + sfx][j] = crds_nc[i][:-1]
+                    self._Pcrds[a + sfx][j] = self._sm1(crds_nc[i])
                     self._Pcrds[a.upper() + sfx][j] = self._sm1(crds_nc_shaped[i])
                 else:
                     self._Pcrds[a + sfx][j] = crds_cc[i]
@@ -536,7 +536,7 @@ class StructuredCrds(Coordinates):
             self._Pcrds[a.upper() + sfx] = [None] * 3
             for j in range(3):
                 if i != j:
-                    self._Pcrds[a + sfx][j] = crds_nc[i][:-1]
+                    self._Pcrds[a + sfx][j] = self._sm1(crds_nc[i])
                     self._Pcrds[a.upper() + sfx][j] = self._sm1(crds_nc_shaped[i])
                 else:
                     self._Pcrds[a + sfx][j] = crds_cc[i]
-- 
2.43.0


From 51d1cf2f2f86f1bde636f7b5f9aba19fc1d58e28 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 68/90] fix: dipole_map_value of cartesian fields

---
 viscid/dipole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 572ee14..4fdc6f4 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -372,7 +372,7 @@ def dipole_map_value(fld, pts, r=1.0, fillna=None, cotr=None,
     if crd_system is None:
         crd_system = viscid.as_crd_system(fld, 'gse')
 
-    if fld.is_spherical:
+    if fld.is_spherical():
         # TODO: verify that crd_system works as expected for ionosphere
         #       fields (ie, meaning of +x and phi = 0)
         # mapped_pts will be in degrees
@@ -385,7 +385,7 @@ def dipole_map_value(fld, pts, r=1.0, fillna=None, cotr=None,
     # pts should be shaped 3xNX*NY*NZ or similar such that the points
     # are in the same order as the flattened c-contiguous array
     mapped_pts = dipole_map(pts, r=r, cotr=cotr, crd_system=crd_system,
-                            as_spherical=fld.is_spherical)
+                            as_spherical=fld.is_spherical())
     ret = viscid.interp(fld, mapped_pts, kind=interp_kind, wrap=False)
     if fillna is not None:
         ret[np.isnan(ret)] = fillna
-- 
2.43.0


From def28ef430d4b9e41b37024770c05ecfa42264e2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 69/90] fix: planes with parallel N and L gave NaN points

---
 viscid/seed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index c3009fe..a438f39 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -611,6 +611,9 @@ class Plane(SeedGen):
 
         # normalize normal direction
         Ndir = Ndir / np.sqrt(np.dot(Ndir, Ndir))
+        Ldir = Ldir / np.sqrt(np.dot(Ldir, Ldir))
+        if np.allclose(np.cross(Ndir, Ldir), [0, 0, 0]):
+            raise RuntimeError("N and L can't be parallel")
         # project Ldir into the plane perpendicular to Ndir
         # (N already normalized)
         Ldir = Ldir - np.dot(Ldir, Ndir) * Ndir
@@ -619,9 +622,6 @@ class Plane(SeedGen):
         # compute Mdir
         Mdir = np.cross(Ndir, Ldir)
 
-        if np.allclose(Mdir, [0, 0, 0]):
-            raise RuntimeError("N and L can't be parallel")
-
         if not isinstance(len_l, (list, tuple)):
             len_l = [-0.5 * len_l, 0.5 * len_l]
         if not isinstance(len_m, (list, tuple)):
-- 
2.43.0


From 950d550e914148b9effe54f673b25fa6952250a6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 70/90] fix: endless recursion in local_shape of mesh points

---
 viscid/seed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index a438f39..61afe0f 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -374,7 +374,7 @@ class MeshPoints(SeedGen):
         return (self.nu, self.nv)
 
     def get_local_shape(self, **kwargs):
-        return self.get_local_shape()
+        return self.uv_shape
 
     def uv_to_local(self, pts_uv):
         return pts_uv
-- 
2.43.0


From 4716b17a6f836c919164bd96808fe08ce920b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 71/90] fix: SphericalPatch rejected its default extent of 45
 degrees because of rounding

---
 viscid/seed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index 61afe0f..b2b2217 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -1292,7 +1292,8 @@ class SphericalPatch(SeedGen):
         else:
             r = np.linalg.norm(p1)
 
-        if np.sin(max_alpha)**2 + np.sin(max_beta)**2 > 1:
+        # tolerance so that rounding doesn't rule out the default of 45 deg
+        if np.sin(max_alpha)**2 + np.sin(max_beta)**2 > 1 + 1e-12:
             raise ValueError("Invalid alpha/beta ranges, if you want "
                              "something with more angular coverage you'll "
                              "need a SphericalCap")
@@ -1322,7 +1323,7 @@ class SphericalPatch(SeedGen):
         arr = np.zeros((3, pts_local.shape[1]), dtype=self.dtype)
         arr[0, :] = self.r * np.sin(pts_local[0, :])
         arr[1, :] = self.r * np.sin(pts_local[1, :])
-        arr[2, :] = np.sqrt(self.r**2 - arr[0, :]**2 - arr[1, :]**2)
+        arr[2, :] = np.sqrt(np.maximum(self.r**2 - arr[0, :]**2 - arr[1, :]**2, 0))
         rot_pts = np.einsum("ij,jk->ik", self.get_rotation(), arr)
         return self.p0.reshape((3, 1)) + rot_pts
 
-- 
2.43.0


From d66881a71c7f21e662ef5f1f27a9ce9c3f58daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 72/90] fix: interlaced vectors on 3 points per axis were taken
 for flat ones

---
 viscid/field.py | 29 +++++++++++++++++++++++++----
 viscid/seed.py  |  1 +
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 1a136e2..7bb77d6 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -191,7 +191,7 @@ def full(crds, fill_value, dtype="f8", name="NoName", center="cell",
             raise RuntimeError("Please update Numpy; your version has neither "
                                "`numpy.full` nor `numpy.filled`")
     return wrap_field(dat, crds, name=name, fldtype=fldtype, center=center,
-                      **kwargs)
+                      _src_layout=layout.lower(), **kwargs)
 
 def empty(crds, dtype="f8", name="NoName", center="cell", layout=LAYOUT_FLAT,
           nr_comps=0, **kwargs):
@@ -258,7 +258,7 @@ def full_like(fld, fill_value, name="NoName", **kwargs):
     c = kwargs.pop("center", fld.center)
     t = kwargs.pop("time", fld.time)
     return wrap_field(dat, fld.crds, name=name, fldtype=fld.fldtype, center=c,
-                      time=t, parents=[fld], **kwargs)
+                      time=t, parents=[fld], _src_layout=fld.layout, **kwargs)
 
 def empty_like(fld, **kwargs):
     """Analogous to `numpy.empty_like`
@@ -497,6 +497,8 @@ class Field(tree.Leaf):
 
     # these get reset when data is set
     _layout = None
+    # layout of _src_data, only used if its shape fits more than one layout
+    _src_layout = None
     _nr_comps = None
     _nr_comp = None
     _dtype = None
@@ -574,6 +576,8 @@ class Field(tree.Leaf):
         if "copy" not in self.deep_meta:
             self.deep_meta["copy"] = False
 
+        self._src_layout = self.deep_meta.pop("src_layout", None)
+
         self._parent_field = _parent_field
         if _parent_field is not None:
             self.parents.insert(0, _parent_field)
@@ -775,6 +779,7 @@ class Field(tree.Leaf):
         self._nr_comps = None
         self._dtype = None
         self._src_data = dat
+        self._src_layout = None
         if self.meta and self.meta.get('zyx_native', False):
             self.meta['zyx_native'] = False
         # self._translate_src_data()  # um, what's this for? looks dangerous
@@ -1046,6 +1051,12 @@ class Field(tree.Leaf):
             except ValueError:
                 break
 
+        # more than one layout fits the shape, it's not possible to tell from
+        # the data itself
+        if (self._src_layout in (LAYOUT_FLAT, LAYOUT_INTERLACED) and
+                dat_shape[1:] == sshape and dat_shape[:-1] == sshape):
+            return self._src_layout
+
         # check which dims match the shape of the crds
         # or if they match when disregarding length 1 axes.
         # This 2nd part happens when calling atleast_3d() on
@@ -1127,6 +1138,7 @@ class Field(tree.Leaf):
         # the source is an h5py-like source, we don't have to read
         # the whole field; h5py will deal with the hyperslicing for us
         slced_dat = None
+        slced_layout = self.layout
 
         hypersliceable = getattr(self._src_data, "_hypersliceable", False)
         single_comp_slc = hasattr(comp_slc, "__index__")
@@ -1211,6 +1223,7 @@ class Field(tree.Leaf):
                 # _src_data directly which means the data could be stored
                 # zyx in a lazy hdf5 file
                 slced_dat = self._src_data[tuple(_first)][tuple(_second)]
+                slced_layout = self._detect_layout(self._src_data)
                 if zyx_native:
                     if comp_slc is not None and self.nr_comps and not single_comp_slc:
                         _n = len(slced_dat.shape)
@@ -1255,7 +1268,7 @@ class Field(tree.Leaf):
             # return the value that's left, ndarrays have the same behavior
             ret = slced_dat.item()
         else:
-            ctx = dict(crds=crds, zyx_native=False)
+            ctx = dict(crds=crds, zyx_native=False, src_layout=slced_layout)
             fldtype = None
             # if we sliced a vector down to one component
             if self.nr_comps:
@@ -1275,6 +1288,7 @@ class Field(tree.Leaf):
 
     def forget_source(self):
         self._src_data = self.data
+        self._src_layout = self.layout
         self._cached_xyz_src_view = self.data
 
     def slice(self, selection):
@@ -1565,7 +1579,7 @@ class Field(tree.Leaf):
                        pretty_name=self.pretty_name,
                        post_reshape_transform_func=self.post_reshape_transform_func,
                        transform_func_kwargs=self.transform_func_kwargs,
-                       parents=[self],
+                       parents=[self], _src_layout=self._src_layout,
                        **kwargs)
         return f
 
@@ -1607,6 +1621,7 @@ class Field(tree.Leaf):
             # FIME: this is such a hack to try our hardest to keep the
             # reference to the data the same
             f._src_data = self._src_data
+            f._src_layout = self._src_layout
             f._cache = self._cache
 
             return f
@@ -1653,6 +1668,7 @@ class Field(tree.Leaf):
             # FIXME: this is such a hack to try our hardest to keep the
             # reference to the data the same
             f._src_data = self._src_data
+            f._src_layout = self._src_layout
             f._cached_xyz_src_view = self._cached_xyz_src_view
             f._cache = self._cache
 
@@ -1707,6 +1723,7 @@ class Field(tree.Leaf):
 
                 return self.wrap(self.data.reshape(new_shape), context=ctx)
             else:
+                ctx['src_layout'] = self._src_layout
                 return self.wrap(self._src_data, context=ctx)
 
     def atmost_nd(self, n):
@@ -1882,6 +1899,9 @@ class Field(tree.Leaf):
         else:
             fldtype = field_type(fldtype)
 
+        # the components of arr are assumed to be where self has them
+        context.setdefault("src_layout", self.layout)
+
         # Transform functions are intentionally omitted. The idea being that
         # the transform was already applied when creating arr
         # same idea with zyx_native... whatever created arr should have done
@@ -1903,6 +1923,7 @@ class Field(tree.Leaf):
                 fldtype = self.fldtype
             else:
                 fldtype = "scalar"
+        kwargs.setdefault('_src_layout', self.layout)
         return viscid.wrap_field(data, self.crds, name=name, fldtype=fldtype,
                                  center=center, **kwargs)
 
diff --git a/viscid/seed.py b/viscid/seed.py
index b2b2217..a0dadeb 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -265,6 +265,7 @@ class SeedGen(object):
     def wrap_field(self, data, name="NoName", fldtype="scalar", **kwargs):
         """Wrap an ndarray into a field in the local representation"""
         crds = self.as_local_coordinates()
+        kwargs.setdefault("_src_layout", kwargs.get("layout", None))
         return viscid.wrap_field(data, crds, name=name, fldtype=fldtype,
                                  **kwargs)
 
-- 
2.43.0


From 790e4401c43f6d4a5d5b33edfada53f7dc46ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 73/90] fix: lazily loaded fields select the same elements as
 loaded ones for negative, out of range and list indices

---
 viscid/sliceutil.py | 87 ++++++++++++++-------------------------------
 1 file changed, 27 insertions(+), 60 deletions(-)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 806637a..fbdbfd5 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -847,10 +847,6 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
     of large arrays on disk, which is most useful when the large array
     is coming through sshfs.
 
-    Note:
-        The only restriction on slices is that neither start nor stop
-        can be outide the range [-L, L].
-
     Args:
         shape: shape of the array that is to be sliced
         slices: a tuple of slices to work with
@@ -897,7 +893,7 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
     if not isinstance(reverse, (list, tuple)):
         reverse = [reverse]
 
-    newax_inds = [i for i, x in enumerate(slices) if x == np.newaxis]
+    newax_inds = [i for i, x in enumerate(slices) if x is np.newaxis]
     shape = list(shape)
     for i in newax_inds:
         shape.insert(i, 1)
@@ -912,69 +908,40 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
 
     for i, slc, L, rev in izip(count(), slices, shape, reverse):
         if isinstance(slc, slice):
-            step = slc.step if slc.step is not None else 1
-            start = slc.start if slc.start is not None else 0
-            stop = slc.stop if slc.stop is not None else L
-            if start < 0:
-                start += L
-            if stop < 0:
-                stop += L
-
-            # sanity check the start/stop since we're gunna be playing
-            # fast and loose with them
-            if start < 0 or stop < 0:
-                raise IndexError("((start = {0}) or (stop = {1})) < 0"
-                                 "".format(start, stop))
-            if start > L or stop > L:
-                raise IndexError("((start={0}) or (stop={1})) > (L={2})"
-                                 "".format(start, stop, L))
-
-            # now do the math of flipping the slice if needed, these branches
-            # change start, stop, and step so they can be used to create a new
-            # slice below
-            if rev:
-                if step < 0:
-                    step = -step
-                    if slc.start is None:
-                        start = L - 1
-                    if slc.stop is None:
-                        start = L - 1 - start
-                        stop = None
-                    else:
-                        start, stop = L - 1 - start, L - 1 - stop
-                else:
-                    start, stop = L - stop, L - start
-                    start += ((stop - 1 - start) % step)
-                    second_slc[i] = slice(None, None, -1)
-            elif step < 0:
-                step = -step
-                if slc.start is None:
-                    start = L - 1
-
-                if slc.stop is None:
-                    start, stop = 0, start + 1
-                    start = ((stop - 1 - start) % step)
-                else:
-                    start, stop = stop + 1, start + 1
-                    start += ((stop - 1 - start) % step)
-
+            # the elements that get selected, with the semantics of python
+            # for whatever is None, negative, or past the end
+            start, stop, step = slc.indices(L)
+            nr_elements = len(range(start, stop, step))
+
+            if nr_elements == 0:
+                start, step = 0, 1
+            elif rev:
+                start, step = L - 1 - start, -step
+
+            # visit the same elements, but going forward
+            if step < 0:
+                start, step = start + (nr_elements - 1) * step, -step
                 second_slc[i] = slice(None, None, -1)
 
-            # check that our slice is valid
-            assert start is None or (start >= 0 and start <= L), \
-                "start (={0}) is outside range".format(start)
-            assert start is None or (start >= 0 and start <= L), \
-                "start (={0}) is outside range".format(start)
-            assert start is None or stop is None or start == stop == 0 or \
-                start < stop, "bad slice ordering: {0} !< {1}".format(start, stop)
-            assert step > 0
+            stop = start + (nr_elements - 1) * step + 1 if nr_elements else 0
             slc = slice(start, stop, step)
 
         elif isinstance(slc, (int, np.integer)):
             second_slc[i] = None
+            if slc < 0:
+                slc += L
             if rev:
                 slc = (L - 1) - slc
 
+        elif isinstance(slc, (list, np.ndarray)):
+            inds = np.arange(L)[slc]
+            if rev:
+                inds = (L - 1) - inds
+            # h5py can only read a list of unique, increasing indices
+            slc, inverse = np.unique(inds, return_inverse=True)
+            if not np.array_equal(slc, inds):
+                second_slc[i] = inverse
+
         elif slc == np.newaxis:
             second_slc[i] = "NEWAXIS"
 
@@ -983,7 +950,7 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
     first_slc = [s for s in first_slc if s is not np.newaxis]
     if cull_second:
         second_slc = [s for s in second_slc if s is not None]
-    second_slc = [np.newaxis if s == "NEWAXIS" else s for s in second_slc]
+    second_slc = [np.newaxis if isinstance(s, str) else s for s in second_slc]
     return first_slc, second_slc
 
 #######################################################################
-- 
2.43.0


From a82380fb8e9ec99ad2a0d32e8aa8392dae84938b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 74/90] fix: component and plane selections of vectors whose
 data is not loaded yet

---
 viscid/field.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 7bb77d6..8da4c8b 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -874,7 +874,8 @@ class Field(tree.Leaf):
                     # spatial_transpose = list(range(len(self.shape)))
                     spatial_transpose = list(range(len(self._src_data.shape)))
                     if self.nr_comps > 0:
-                        nr_comp = self.nr_comp
+                        # the source may have fewer dimensions than the crds
+                        nr_comp = min(self.nr_comp, len(spatial_transpose) - 1)
                         spatial_transpose.remove(nr_comp)
                         spatial_transpose = spatial_transpose[::-1]
                         spatial_transpose.insert(nr_comp, nr_comp)
@@ -1182,8 +1183,8 @@ class Field(tree.Leaf):
                 native_first_slc = first_slc[::-1]
                 native_second_slc = second_slc[::-1]
             else:
-                native_first_slc = first_slc
-                native_second_slc = second_slc
+                native_first_slc = list(first_slc)
+                native_second_slc = list(second_slc)
 
             # now put component slice back in
             try:
@@ -1193,9 +1194,10 @@ class Field(tree.Leaf):
                     nr_comp = len(first_slc)
                 first_slc.insert(nr_comp, comp_slc)
                 native_first_slc.insert(nr_comp, comp_slc)
-                if not single_comp_slc:
-                    second_slc.insert(nr_comp, slice(None))
-                    native_second_slc.insert(nr_comp, slice(None))
+                # None since there is no component dimension left to slice
+                _second_comp_slc = None if single_comp_slc else slice(None)
+                second_slc.insert(nr_comp, _second_comp_slc)
+                native_second_slc.insert(nr_comp, _second_comp_slc)
             except TypeError:
                 nr_comp = None
 
@@ -1208,7 +1210,8 @@ class Field(tree.Leaf):
                 it = izip_longest(count(), native_first_slc, native_second_slc,
                                   fillvalue=None)
                 for i, a, b in islice(it, None, len(first_slc)):
-                    if self._src_data.shape[j] == self.native_shape[i]:
+                    if j < len(self._src_data.shape) and \
+                       self._src_data.shape[j] == self.native_shape[i]:
                         _first.append(a)
                         _second.append(b)
                         j += 1
@@ -1241,9 +1244,9 @@ class Field(tree.Leaf):
                 # post-reshape-transform
                 if self.post_reshape_transform_func is not None:
                     if cc:
-                        target_shape = crds.shape_cc
+                        target_shape = list(crds.shape_cc)
                     else:
-                        target_shape = crds.shape_nc
+                        target_shape = list(crds.shape_nc)
                     if nr_comp is not None:
                         target_shape.insert(nr_comp, -1)
                     slced_dat = self.post_reshape_transform_func(
-- 
2.43.0


From 7512c90ab997d688c34161a517e8668ed99671e8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 75/90] fix: index the mhd to gse factor of a component with a
 tuple

---
 viscid/readers/openggcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index 2bbeb21..3d2207b 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -160,7 +160,7 @@ def mhd2gse_field_vector(fld, crds, arr, comp_slc=None,
     factor = np.array([-1.0, -1.0, 1.0], dtype=arr.dtype).reshape(shp)
     if comp_slc is not None:
         tmpslc = [slice(None) if s == 1 else comp_slc for s in shp]
-        factor = factor[tmpslc]
+        factor = factor[tuple(tmpslc)]
     # print("** factor", factor.shape, factor.flatten())
     if copy_on_transform:
         if _has_numexpr:
-- 
2.43.0


From 344f6eec160346dda6bfd72fe81bc0a92a83dcda Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:44:18 +0000
Subject: [PATCH 76/90] fix: vectors that are only stored on faces no longer
 recurse without end

---
 viscid/readers/openggcm.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index 3d2207b..00c6cb8 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -405,7 +405,19 @@ class GGCMGrid(grid.Grid):
         comps = [self[base_name + c + suffix] for c in comp_names]
         return field.scalar_fields_to_vector(comps, name=base_name, **opts)
 
+    def _require_stored(self, base_name, comp_names="xyz"):
+        """Raise KeyError unless a vector or all its components are stored
+
+        This is for vectors whose components can also be derived from the
+        vector itself, since assembling these would never end.
+        """
+        if base_name not in self._fields:
+            for c in comp_names:
+                if base_name + c not in self._fields:
+                    raise KeyError("field not found: {0}".format(base_name + c))
+
     def _get_v(self):
+        self._require_stored("v")
         return self._assemble_vector("v", _force_layout=self.force_vector_layout,
                                      pretty_name="V")
 
@@ -454,6 +466,7 @@ class GGCMGrid(grid.Grid):
     def _get_b_cc(self):
         try:
             # get from [bx, by, bz]
+            self._require_stored("b")
             return self._assemble_vector("b", _force_layout=self.force_vector_layout,
                                          pretty_name="B")
         except KeyError:
-- 
2.43.0


From f864795d5aea7faed51a394324f00498e32019ff Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:49:07 +0000
Subject: [PATCH 77/90] fix: selections of a transposed hdf5 data set are in
 the order of the transposed array

---
 viscid/readers/hdf5.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/viscid/readers/hdf5.py b/viscid/readers/hdf5.py
index 3e72c2d..4a63459 100755
--- a/viscid/readers/hdf5.py
+++ b/viscid/readers/hdf5.py
@@ -70,10 +70,7 @@ class H5pyDataWrapper(vfile.DataWrapper):
         return self._dtype
 
     def __len__(self):
-        if self.transpose:
-            return self.shape[-1]
-        else:
-            return self.shape[0]
+        return self.shape[0]
 
     def __array__(self, *args, **kwargs):
         arr = np.empty(self.shape, dtype=self.dtype)
@@ -118,6 +115,11 @@ class H5pyDataWrapper(vfile.DataWrapper):
                 arr[...] = fill_arr.T
 
     def __getitem__(self, item):
+        if self.transpose:
+            # the selection is in the order of the transposed array
+            item = item if isinstance(item, tuple) else (item,)
+            item = item + (slice(None),) * (len(self.shape) - len(item))
+            item = item[::-1]
         item = self._inject_comp_slice(item)
         with h5py.File(self.fname, 'r') as f:
             arr = self._resolve_loc(f)[item]
-- 
2.43.0


From 2836c4bfef8aa9c2c0c8f0aba416f61cae8f0924 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:38:57 +0000
Subject: [PATCH 78/90] fix: tslc_range of a selection given as text without a
 step

---
 viscid/sliceutil.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index fbdbfd5..b3ce6bd 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -775,6 +775,9 @@ def sel2values(arr, sel, epoch=None, tdunit='s'):
     std_sel = standardize_sel(sel)
 
     if isinstance(std_sel, slice):
+        if std_sel.step is None:
+            std_sel = slice(std_sel.start, std_sel.stop, 1)
+
         if std_sel.start is None or hasattr(std_sel.start, '__index__'):
             if arr is None:
                 if std_sel.start is None and std_sel.step > 0:
-- 
2.43.0


From 2c2c406f02d7b490026f8ea9588f7e5b71892fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:28:29 +0000
Subject: [PATCH 79/90] fix: times of an xdmf collection given as a list or
 hyperslab

---
 viscid/readers/xdmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index a9d9255..d8844d7 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -186,7 +186,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             for i, subgrid in enumerate(el.findall("./Grid")):
                 t = times[i] if (times is not None and i < len(times)) else time
                 # print(subgrid, grd, t)
-                self._parse_grid(subgrid, parent_node=grd, time=time)
+                self._parse_grid(subgrid, parent_node=grd, time=t)
             if len(grd.children) > 0:
                 grd.activate(0)
 
-- 
2.43.0


From a732262e6849b92fe7eeedf504f0a50fcfab5ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:28:29 +0000
Subject: [PATCH 80/90] fix: xdmf information given as a DataItem

---
 viscid/readers/xdmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index d8844d7..0e5279a 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -492,7 +492,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
         val = attrs["Value"]
         if val is None:
             _di = information.find(".//DataItem")
-            if _di:
+            if _di is not None:
                 val, _ = self._parse_dataitem(_di)
             else:
                 val = information.text
-- 
2.43.0


From 0ad99e72315f4602da70dc77150c3269f74595bc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:28:29 +0000
Subject: [PATCH 81/90] fix: uniform xdmf grids whose topology gives
 NumberOfElements

---
 viscid/readers/xdmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index 0e5279a..ecac3ed 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -71,7 +71,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
                                    # 2DSMesh | 2DRectMesh | 2DCoRectMesh |
                                    # 3DSMesh | 3DRectMesh | 3DCoRectMesh
             "NodesPerElement": None,
-            "NumberOfElement": None,
+            "NumberOfElements": None,
             "Dimensions": None,
             "Order": None,
             "BaseOffset": 0
-- 
2.43.0


From b5d56ab847e97a7a5823194c623feddc909caebc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:28:29 +0000
Subject: [PATCH 82/90] fix: loading flat vector fields from npz files

---
 viscid/readers/numpy_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/readers/numpy_binary.py b/viscid/readers/numpy_binary.py
index 15be125..9305f7a 100644
--- a/viscid/readers/numpy_binary.py
+++ b/viscid/readers/numpy_binary.py
@@ -67,8 +67,8 @@ class NPZDataWrapper(vfile.DataWrapper):
     def read_direct(self, *args, **kwargs):
         raise NotImplementedError()
 
-    def len(self):
-        return self.wrap_func("len")
+    def __len__(self):
+        return self.shape[0]
 
     def __getitem__(self, item):
         return self.wrap_func("__getitem__", item)
-- 
2.43.0


From 384e7076df0af15f1b18f5ac750081b0ccc280ab Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:28:30 +0000
Subject: [PATCH 83/90] fix: fields without a time saved as hdf5 can be loaded

---
 viscid/readers/hdf5.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/viscid/readers/hdf5.py b/viscid/readers/hdf5.py
index 4a63459..91cc94b 100755
--- a/viscid/readers/hdf5.py
+++ b/viscid/readers/hdf5.py
@@ -177,7 +177,8 @@ class FileHDF5(vfile.VFile):
 <Xdmf xmlns:xi='http://www.w3.org/2001/XInclude' Version='2.0'>
 <Domain>
 <Grid GridType="Collection" CollectionType="Spatial">
-  <Time Type="Single" Value="{time}" />
+"""
+    _XDMF_TEMPLATE_TIME = """  <Time Type="Single" Value="{time}" />
 """
     _XDMF_TEMPLATE_RECTILINEAR_GRID_BEGIN = """
   <Grid Name="{grid_name}" GridType="Uniform">
@@ -300,7 +301,9 @@ class FileHDF5(vfile.VFile):
             yloc = cls._CRDS_GROUP + '/' + crd_names[1]
             zloc = cls._CRDS_GROUP + '/' + crd_names[2]
             dim_str = " ".join([str(l) for l in crd_shape][::-1])
-            f.write(cls._XDMF_TEMPLATE_BEGIN.format(time=time))
+            f.write(cls._XDMF_TEMPLATE_BEGIN)
+            if time is not None:
+                f.write(cls._XDMF_TEMPLATE_TIME.format(time=time))
             s = cls._XDMF_TEMPLATE_RECTILINEAR_GRID_BEGIN.format(
                 grid_name="vgrid", crd_dims=dim_str, h5fname=relh5fname,
                 xdim=crd_shape[0], ydim=crd_shape[1], zdim=crd_shape[2],
-- 
2.43.0


From fe2a1cca83f66d1309f4616da3f286467b43321c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:28:51 +0000
Subject: [PATCH 84/90] fix: topology and geometry of an xdmf collection are
 used for its grids

---
 viscid/readers/xdmf.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index ecac3ed..250fe6b 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -143,7 +143,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
         topoattrs = None
         if topology is not None:
             topoattrs = self._fill_attrs(topology)
-        elif parent_node and parent_node.topology_info:
+        elif parent_node is not None and parent_node.topology_info:
             topoattrs = parent_node.topology_info
 
         # parse geometry, or cascade parent grid's geometry
@@ -151,7 +151,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
         geoattrs = None
         if geometry is not None:
             crds, geoattrs = self._parse_geometry(geometry, topoattrs)
-        elif parent_node and parent_node.geometry_info:
+        elif parent_node is not None and parent_node.geometry_info:
             geoattrs = parent_node.geometry_info
             crds = parent_node.crds  # this can be None and that's ok
 
@@ -163,7 +163,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
                 if tattrs["Type"] == "Single":
                     time = pt
         # cascade a parent grid's time
-        if time is None and parent_node and parent_node.time is not None:
+        if time is None and parent_node is not None and parent_node.time is not None:
             time = parent_node.time
 
         gt = attrs["GridType"]
@@ -183,6 +183,12 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             else:
                 logger.warning("Unknown collection type %s, ignoring grid", ct)
 
+            if grd is not None:
+                # the sub grids may cascade these
+                grd.topology_info = topoattrs
+                grd.geometry_info = geoattrs
+                grd.crds = crds
+
             for i, subgrid in enumerate(el.findall("./Grid")):
                 t = times[i] if (times is not None and i < len(times)) else time
                 # print(subgrid, grd, t)
@@ -227,7 +233,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
                 grd.topology_info = topoattrs
             if geoattrs is not None:
                 grd.geometry_info = geoattrs
-            if crds is not None:
+            if crds is not None and gt == "Uniform":
                 grd.set_crds(crds)
 
             # EXPERIMENTAL AMR support, _last_amr_grid shouldn't be an attribute
-- 
2.43.0


From b92923efaa1b58b0a2ffc97e548ff9b016d7655c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:31:33 +0000
Subject: [PATCH 85/90] fix: frames of athena xdmf files listed twice

---
 viscid/readers/athena_xdmf.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/viscid/readers/athena_xdmf.py b/viscid/readers/athena_xdmf.py
index 7f221fc..281dad3 100644
--- a/viscid/readers/athena_xdmf.py
+++ b/viscid/readers/athena_xdmf.py
@@ -44,9 +44,7 @@ class AthenaFileXDMF(athena.AthenaFile, xdmf.FileXDMF):  # pylint: disable=abstr
                                                name="AthenaXDMFTemporalCollection")
 
             for fname in self._collection:
-                grids = self._parse_file(fname, data_temporal)
-                for _grid in grids:
-                    data_temporal.add(_grid)
+                self._parse_file(fname, data_temporal)
             data_temporal.activate(0)
             self.add(data_temporal)
             self.activate(0)
-- 
2.43.0


From 61ab9dc7e674d180906ea254603fdf7a200eda30 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 03:45:00 +0000
Subject: [PATCH 86/90] fix: amr skeleton reused for patches of another size

---
 viscid/amr_grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/amr_grid.py b/viscid/amr_grid.py
index d47079c..613e729 100644
--- a/viscid/amr_grid.py
+++ b/viscid/amr_grid.py
@@ -137,9 +137,9 @@ class AMRSkeleton(object):
                 return False
             if not np.allclose(my_patch.xl, grid.crds.xl_nc):
                 return False
-            # if n and xl match... do i need to check xh?
-            # if not np.allclose(my_patch.xh, grid.crds.xh_nc):
-            #     return False
+            # n and xl can match when xh does not
+            if not np.allclose(my_patch.xh, grid.crds.xh_nc):
+                return False
         # t1 = default_timer()
         # print(">> compatable   {0:g} secs".format(t1 - t0))
         return True
-- 
2.43.0


From b686c113f2844f1d97b449063bc6e4026811c105 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 03:45:17 +0000
Subject: [PATCH 87/90] fix: slices of amr fields that reduce different axes in
 different patches

---
 viscid/amr_field.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index e840974..cb0cce4 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -189,12 +189,17 @@ class AMRField(object):
 
         # look for uneven dimensions in the results and fill them back out
         axes = [patch.crds.axes for patch in fld_lst]
-        ndims = np.array([len(ax) for ax in axes])
-        ref_axes = axes[np.argmax(ndims)]
-        ref_ndims = np.max(ndims)
+        # all axes that are left in any patch, in the order of the source
+        src_axes = list(self.patches[0].crds.axes)
+        ref_axes = list(axes[np.argmax([len(ax) for ax in axes])])
+        for i, ax in enumerate(src_axes):
+            if ax not in ref_axes and any(ax in _axes for _axes in axes):
+                later = [j for j, _ax in enumerate(ref_axes)
+                         if _ax in src_axes[i + 1:]]
+                ref_axes.insert(later[0] if later else len(ref_axes), ax)
 
         for i, fld in enumerate(fld_lst):
-            if ndims[i] < ref_ndims:
+            if len(axes[i]) < len(ref_axes):
                 putback = []
                 for _ax in ref_axes:
                     if _ax in axes[i]:
-- 
2.43.0


From 56f34ce756fb66015124691ec01fcc222c20e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:48:16 +0000
Subject: [PATCH 88/90] fix: plot2d_field leaves the data and coordinates of
 the plotted field alone

---
 viscid/plot/vpyplot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 2ff4169..8c8818b 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -458,6 +458,7 @@ def _plot2d_single(ax, fld, style, namex, namey, mod, scale,
             # this is a hack to get rid or the white space
             # between patches when contouring
             Xnc, Ync = fld.get_crds_nc((namex, namey))
+            X, Y = np.array(X), np.array(Y)
             X[0], X[-1] = Xnc[0], Xnc[-1]
             Y[0], Y[-1] = Ync[0], Ync[-1]
 
@@ -465,12 +466,12 @@ def _plot2d_single(ax, fld, style, namex, namey, mod, scale,
         # translate latitude from 0..180 to -90..90
         X, Y = np.meshgrid(X, 90 - Y)
     if mod:
-        X *= mod[0]
-        Y *= mod[1]
+        X = X * mod[0]
+        Y = Y * mod[1]
 
     dat = fld.data.T
     if scale is not None:
-        dat *= scale
+        dat = dat * scale
     if masknan:
         dat = np.ma.masked_where(np.isnan(dat), dat)
         all_masked = all_masked and dat.mask.all()
-- 
2.43.0


From a553b0f53c54cb34c537035d72ccaabc5d873ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:48:16 +0000
Subject: [PATCH 89/90] fix: the default colour limits of plot2d_field cover
 the scaled values

---
 viscid/plot/vpyplot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 8c8818b..74493ac 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -701,10 +701,13 @@ def plot2d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
         vscale = norm_dict['vscale']
         vmin, vmax = norm_dict['clim']
 
+        blks = fld.patches
+        if scale is not None:
+            blks = [blk * scale for blk in blks]
         if vmin is None:
-            vmin = np.nanmin([np.nanmin(blk) for blk in fld.patches])
+            vmin = np.nanmin([np.nanmin(blk) for blk in blks])
         if vmax is None:
-            vmax = np.nanmax([np.nanmax(blk) for blk in fld.patches])
+            vmax = np.nanmax([np.nanmax(blk) for blk in blks])
 
         # vmin / vmax will only be nan if all values are nan
         if np.isnan(vmin) or np.isnan(vmax):
-- 
2.43.0


From 2b85b71675aefc032b9edc53771a747f5401316e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:48:16 +0000
Subject: [PATCH 90/90] fix: plot2d_field shows the xlabel and ylabel it is
 given

---
 viscid/plot/vpyplot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/plot/vpyplot.py b/viscid/plot/vpyplot.py
index 74493ac..9454ada 100644
--- a/viscid/plot/vpyplot.py
+++ b/viscid/plot/vpyplot.py
@@ -866,9 +866,9 @@ def plot2d_field(fld, ax=None, plot_opts=None, **plot_kwargs):
         x_is_shared, y_is_shared = _are_xy_shared(ax)
         bottom_most, left_most = _ax_on_edge(ax)
         if not x_is_shared or (x_is_shared and bottom_most):
-            ax.set_xlabel(namex)
+            ax.set_xlabel(xlabel)
         if not y_is_shared or (y_is_shared and left_most):
-            ax.set_ylabel(namey)
+            ax.set_ylabel(ylabel)
 
     _apply_axfmt(ax, majorfmt=majorfmt, minorfmt=minorfmt,
                  majorloc=majorloc, minorloc=minorloc)
-- 
2.43.0

