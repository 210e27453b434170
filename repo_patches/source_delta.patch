From e530e952b3abe8b2b2145771df02985e2f1693ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 001/147] fix: matrix_to_axis_angle(fast=True) for rotations by
 pi

The axis was normalized by the norm over all such rotations of the batch
and was NaN when orthogonal to the x axis.
---
 pytorch3d/transforms/rotation_conversions.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/transforms/rotation_conversions.py b/pytorch3d/transforms/rotation_conversions.py
index eb1a42c..570488c 100644
--- a/pytorch3d/transforms/rotation_conversions.py
+++ b/pytorch3d/transforms/rotation_conversions.py
@@ -546,12 +546,14 @@ def matrix_to_axis_angle(matrix: torch.Tensor, fast: bool = False) -> torch.Tens
         0.5 * omegas[~near_pi] / torch.sinc(angles[~near_pi] / torch.pi)
     )
 
-    # this derives from: nnT = (R + 1) / 2
-    n = 0.5 * (
-        matrix[near_pi][..., 0, :]
-        + torch.eye(1, 3, dtype=matrix.dtype, device=matrix.device)
+    # this derives from: nnT = (R + 1) / 2. Each row of nnT is a multiple of n;
+    # we take the one with the largest multiplier, as the others could be zero.
+    nnT = 0.5 * (
+        matrix[near_pi] + torch.eye(3, dtype=matrix.dtype, device=matrix.device)
     )
-    axis_angles[near_pi] = angles[near_pi] * n / torch.norm(n)
+    row = torch.diagonal(nnT, dim1=-2, dim2=-1).argmax(dim=-1)
+    n = nnT[torch.arange(len(row), device=matrix.device), row]
+    axis_angles[near_pi] = angles[near_pi] * n / torch.norm(n, dim=-1, keepdim=True)
 
     return axis_angles
 
-- 
2.43.0


From 20094e901caf0362b087168c1c8ee45d7ae5b178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 002/147] fix: indexing Translate, Scale and Rotate keeps the
 dtype

---
 pytorch3d/transforms/transform3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/transforms/transform3d.py b/pytorch3d/transforms/transform3d.py
index 539cbea..a19da6b 100644
--- a/pytorch3d/transforms/transform3d.py
+++ b/pytorch3d/transforms/transform3d.py
@@ -578,7 +578,7 @@ class Translate(Transform3d):
         """
         if isinstance(index, int):
             index = [index]
-        return self.__class__(self.get_matrix()[index, 3, :3])
+        return self.__class__(self.get_matrix()[index, 3, :3], dtype=self.dtype)
 
 
 class Scale(Transform3d):
@@ -645,7 +645,7 @@ class Scale(Transform3d):
         x = mat[:, 0, 0]
         y = mat[:, 1, 1]
         z = mat[:, 2, 2]
-        return self.__class__(x, y, z)
+        return self.__class__(x, y, z, dtype=self.dtype)
 
 
 class Rotate(Transform3d):
-- 
2.43.0


From efef0e31d7130879f2c7d631f4133a3065e2d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 003/147] fix: indexing a RotateAxisAngle transform

---
 pytorch3d/transforms/transform3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/transforms/transform3d.py b/pytorch3d/transforms/transform3d.py
index a19da6b..fa68d51 100644
--- a/pytorch3d/transforms/transform3d.py
+++ b/pytorch3d/transforms/transform3d.py
@@ -703,7 +703,8 @@ class Rotate(Transform3d):
         """
         if isinstance(index, int):
             index = [index]
-        return self.__class__(self.get_matrix()[index, :3, :3])
+        # not self.__class__: subclasses are not built from a matrix
+        return Rotate(self.get_matrix()[index, :3, :3], dtype=self.dtype)
 
 
 class RotateAxisAngle(Rotate):
-- 
2.43.0


From a39625065db3cdd84c502f0801b4a21d7e71ff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 004/147] fix: SamplePdfCpu wrote out of bounds for 5 batch
 elements on 4 threads

---
 pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
index 272197c..f31bd24 100644
--- a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
+++ b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
@@ -121,6 +121,9 @@ void SamplePdfCpu(
   const int64_t batch_elements_per_thread = 1 + (batch_size - 1) / n_threads;
   int64_t start_batch = 0;
   for (int iThread = 0; iThread < n_threads - 1; ++iThread) {
+    // The last ranges can be short or empty, e.g. 5 elements on 4 threads.
+    const int64_t end_batch =
+        std::min(start_batch + batch_elements_per_thread, batch_size);
     threads.emplace_back(
         SamplePdfCpu_worker,
         bins,
@@ -128,8 +131,8 @@ void SamplePdfCpu(
         outputs,
         eps,
         start_batch,
-        start_batch + batch_elements_per_thread);
-    start_batch += batch_elements_per_thread;
+        end_batch);
+    start_batch = end_batch;
   }
 
   // The remaining batch elements are calculated in this threads. If nThreads is
-- 
2.43.0


From d44ef722381f4466e5a51a23e30574bfc06654a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:15 +0000
Subject: [PATCH 005/147] fix: Pointclouds given partly as lists and partly
 padded lost normals or features

---
 pytorch3d/structures/pointclouds.py | 50 +++++++++++++++++------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index 53ed5a5..273974d 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -620,36 +620,45 @@ class Pointclouds:
         Args:
             refresh: whether to force the recalculation.
         """
-        if not (refresh or self._points_padded is None):
+        # Points, normals and features can each have been given as list or padded,
+        # so any of the padded forms can be missing.
+        missing = [
+            self._points_padded is None,
+            self._normals_padded is None and self._normals_list is not None,
+            self._features_padded is None and self._features_list is not None,
+        ]
+        if not (refresh or any(missing)):
             return
 
-        self._normals_padded, self._features_padded = None, None
         if self.isempty():
             self._points_padded = torch.zeros((self._N, 0, 3), device=self.device)
-        else:
+            self._normals_padded, self._features_padded = None, None
+            return
+
+        if refresh or missing[0]:
             self._points_padded = struct_utils.list_to_padded(
                 self.points_list(),
                 (self._P, 3),
                 pad_value=0.0,
                 equisized=self.equisized,
             )
-            normals_list = self.normals_list()
-            if normals_list is not None:
-                self._normals_padded = struct_utils.list_to_padded(
-                    normals_list,
-                    (self._P, 3),
-                    pad_value=0.0,
-                    equisized=self.equisized,
-                )
-            features_list = self.features_list()
-            if features_list is not None:
-                self._features_padded = struct_utils.list_to_padded(
-                    features_list,
-                    # pyrefly: ignore [bad-argument-type]
-                    (self._P, self._C),
-                    pad_value=0.0,
-                    equisized=self.equisized,
-                )
+        normals_list = self.normals_list()
+        if normals_list is not None and (refresh or missing[1]):
+            self._normals_padded = struct_utils.list_to_padded(
+                normals_list,
+                (self._P, 3),
+                pad_value=0.0,
+                equisized=self.equisized,
+            )
+        features_list = self.features_list()
+        if features_list is not None and (refresh or missing[2]):
+            self._features_padded = struct_utils.list_to_padded(
+                features_list,
+                # pyrefly: ignore [bad-argument-type]
+                (self._P, self._C),
+                pad_value=0.0,
+                equisized=self.equisized,
+            )
 
     # TODO(nikhilar) Improve performance of _compute_packed.
     def _compute_packed(self, refresh: bool = False):
@@ -1171,6 +1180,7 @@ class Pointclouds:
             new._features_list = self._features_list
             new._features_padded = self._features_padded
             new._features_packed = self._features_packed
+            new._C = self._C
 
         # copy auxiliary tensors
         copy_tensors = [
-- 
2.43.0


From 4e3034339a575429e8c6336016042cfaa7b11d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 006/147] fix: Meshes built from padded tensors without any
 face could not list its verts

---
 pytorch3d/structures/meshes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/structures/meshes.py b/pytorch3d/structures/meshes.py
index 85a1fee..c728699 100644
--- a/pytorch3d/structures/meshes.py
+++ b/pytorch3d/structures/meshes.py
@@ -546,8 +546,10 @@ class Meshes:
             assert self._verts_padded is not None, (
                 "verts_padded is required to compute verts_list."
             )
+            # num_verts_per_mesh has no entries if no mesh is valid
             self._verts_list = struct_utils.padded_to_list(
-                self._verts_padded, self.num_verts_per_mesh().tolist()
+                self._verts_padded,
+                None if self.isempty() else self.num_verts_per_mesh().tolist(),
             )
         return self._verts_list
 
@@ -562,8 +564,10 @@ class Meshes:
             assert self._faces_padded is not None, (
                 "faces_padded is required to compute faces_list."
             )
+            # num_faces_per_mesh has no entries if no mesh is valid
             self._faces_list = struct_utils.padded_to_list(
-                self._faces_padded, self.num_faces_per_mesh().tolist()
+                self._faces_padded,
+                [0] * self._N if self.isempty() else self.num_faces_per_mesh().tolist(),
             )
         return self._faces_list
 
-- 
2.43.0


From a2e32e881d60f8b48e8faaaeaf69d0305da750c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 007/147] fix: TexturesUV with several maps per mesh sampled
 the wrong map

The map ids were looked up by packed face index in the padded ids, were
normalized as for align_corners=True whatever its value, and a single map gave NaN.
---
 pytorch3d/renderer/mesh/textures.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index df81c7c..cf9e365 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -1146,7 +1146,9 @@ class TexturesUV(TexturesBase):
             return self._maps_ids_list
         elif self._maps_ids_padded is not None:
             # pyrefly: ignore [bad-return]
-            return self._maps_ids_padded.unbind(0)
+            return padded_to_list(
+                self._maps_ids_padded, split_size=self._num_faces_per_mesh
+            )
         else:
             return None
 
@@ -1185,6 +1187,15 @@ class TexturesUV(TexturesBase):
         new_tex._num_faces_per_mesh = new_props["_num_faces_per_mesh"]
         return new_tex
 
+    def _normalize_maps_ids(self, maps_ids: torch.Tensor, M: int) -> torch.Tensor:
+        """
+        Convert ids of one of M maps to the locations of the centers of these
+        maps in the range [-1, 1] expected by grid_sample.
+        """
+        if self.align_corners:
+            return 2.0 * maps_ids.float() / float(max(M - 1, 1)) - 1.0
+        return (2.0 * maps_ids.float() + 1.0) / float(M) - 1.0
+
     # pyre-fixme[14]: `sample_textures` overrides method defined in `TexturesBase`
     #  inconsistently.
     def sample_textures(self, fragments, **kwargs) -> torch.Tensor:
@@ -1281,15 +1292,16 @@ class TexturesUV(TexturesBase):
             pix_to_face = fragments.pix_to_face.clone()
             pix_to_face[mask] = 0
 
+            # pix_to_face indexes the packed faces
             pixel_to_map_ids = (
-                maps_ids_padded.flatten()
+                torch.cat(list(self.maps_ids_list()))
                 .gather(0, pix_to_face.flatten())
                 .view(N, H_out, W_out, K, 1)
                 .permute(0, 3, 1, 2, 4)
             )  # N x H_out x W_out x K x 1
 
             # Normalize between -1 and 1 with M (number of maps)
-            pixel_to_map_ids = (2.0 * pixel_to_map_ids.float() / float(M - 1)) - 1
+            pixel_to_map_ids = self._normalize_maps_ids(pixel_to_map_ids, M)
             pixel_uvs = pixel_uvs.permute(0, 3, 1, 2, 4)
             pixel_uvs = torch.lerp(
                 pixel_uvs.new_tensor([-1.0, 1.0]),
@@ -1351,7 +1363,7 @@ class TexturesUV(TexturesBase):
             texture_maps = texture_maps.permute(0, 4, 1, 2, 3)
             # expand maps_ids to (N, F, 3, 1)
             maps_ids_padded = maps_ids_padded[:, :, None, None].expand(-1, -1, 3, -1)
-            maps_ids_padded = (2.0 * maps_ids_padded.float() / float(M - 1)) - 1.0
+            maps_ids_padded = self._normalize_maps_ids(maps_ids_padded, M)
 
             # (N, F, 3, 2+1) -> (N, 1, F, 3, 3)
             faces_verts_uvs = torch.cat(
-- 
2.43.0


From b8977ab357a9426573f3fbf46636f0c50e62f702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 008/147] fix: indexing Volumes keeps align_corners

---
 pytorch3d/structures/volumes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 84edf33..2ce815f 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -297,6 +297,7 @@ class Volumes:
             # pyre-fixme[16]: `Optional` has no attribute `__getitem__`.
             features=self.features()[index] if self._features is not None else None,
             densities=self.densities()[index],
+            align_corners=self.get_align_corners(),
         )
         # dont forget to update grid_sizes!
         self.locator._copy_transform_and_sizes(new.locator, index=index)
-- 
2.43.0


From 1293688a0bbc9e8fe41f9352d3e39870c5e24979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 009/147] fix: Volumes of different grid sizes accept padded
 densities and features

update_padded, documented for heterogeneous batches, always raised on them.
---
 pytorch3d/structures/volumes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 2ce815f..3a637f3 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -412,7 +412,12 @@ class Volumes:
                 f"(minibatch, {var_name}_dim, height, width, depth)"
             )
 
-        if not (
+        # A tensor with the padded size fits any per-volume grid sizes.
+        is_padded = torch.is_tensor(x) and (
+            (len(x), *x.shape[2:])
+            == (len(self._densities), *self._densities.shape[2:])
+        )
+        if not is_padded and not (
             (self.get_grid_sizes().shape == grid_sizes.shape)
             and torch.allclose(self.get_grid_sizes(), grid_sizes)
         ):
-- 
2.43.0


From 952b99d2a221cbd47afa3b2dd048aaa53411f7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 010/147] fix: coordinate grids of Volumes with
 align_corners=False and different sizes

and of single-voxel axes, which were NaN.
---
 pytorch3d/structures/volumes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 3a637f3..61883db 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -856,10 +856,12 @@ class VolumeLocator:
         vol_coords_local = torch.stack((X, Y, Z), dim=3)[None].repeat(ba, 1, 1, 1, 1)
 
         # get grid sizes relative to the maximal volume size
+        # (in units of the distance between the two ends of the [-1, 1] range)
+        one_if_align = 1 if self._align_corners else 0
         grid_sizes_relative = (
             torch.tensor([[de, he, wi]], device=grid_sizes.device, dtype=torch.float32)
-            - 1
-        ) / (grid_sizes - 1).float()
+            - one_if_align
+        ) / (grid_sizes - one_if_align).clamp(min=1).float()
 
         if (grid_sizes_relative != 1.0).any():
             # if any of the relative sizes != 1.0, adjust the grid
-- 
2.43.0


From e0f54619fbc641fdb071a9671b060d7a6af0b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 011/147] fix: FishEyeCameras.unproject_points gave NaN at the
 principal point

---
 pytorch3d/renderer/fisheyecameras.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/fisheyecameras.py b/pytorch3d/renderer/fisheyecameras.py
index 551e94d..3789971 100644
--- a/pytorch3d/renderer/fisheyecameras.py
+++ b/pytorch3d/renderer/fisheyecameras.py
@@ -348,7 +348,13 @@ class FishEyeCameras(CamerasBase):
         theta = self._get_theta_from_norm_xr_yr(radial_params, xr_yrNorm)
         # get the point coordinates:
         point3d_est = theta.new_ones(*sh, 3)
-        point3d_est[..., :2] = theta.tan()[..., None] / xr_yrNorm[..., None] * xr_yr
+        # tan(theta) / norm, using the limit for the principal point
+        scale = torch.where(
+            xr_yrNorm < self.epsilon,
+            torch.ones_like(theta),
+            theta.tan() / xr_yrNorm,
+        )
+        point3d_est[..., :2] = scale[..., None] * xr_yr
         return point3d_est
 
     def unproject_points(
-- 
2.43.0


From 7bd002dee76d5800abb413cc9eafef5d975ed0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 012/147] fix: setting one element of a broadcast
 TensorProperties attribute changed all elements

---
 pytorch3d/renderer/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/utils.py b/pytorch3d/renderer/utils.py
index ea3d655..1afc719 100644
--- a/pytorch3d/renderer/utils.py
+++ b/pytorch3d/renderer/utils.py
@@ -72,7 +72,11 @@ class TensorAccessor(nn.Module):
             msg = "Expected value to have len %r; got %r"
             # pyrefly: ignore [bad-argument-type]
             raise ValueError(msg % (len(self.index), len(value)))
-        self.class_object.__dict__[name][self.index] = value
+        if v.dim() > 0 and v.shape[0] > 1 and v.stride(0) == 0:
+            # The batch elements of a broadcast property share their memory.
+            v = v.clone()
+            self.class_object.__dict__[name] = v
+        v[self.index] = value
 
     # pyrefly: ignore [bad-override]
     def __getattr__(self, name: str):
-- 
2.43.0


From 6c5f6ebbfbea6538de31e0fac60dbcc4fe7f9a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 013/147] fix: per-pixel shading ignored or mixed up the
 colours of a batch of materials

---
 pytorch3d/renderer/mesh/shading.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shading.py b/pytorch3d/renderer/mesh/shading.py
index bb113ee..fa4f00a 100644
--- a/pytorch3d/renderer/mesh/shading.py
+++ b/pytorch3d/renderer/mesh/shading.py
@@ -39,8 +39,16 @@ def _apply_lighting(
         shininess=materials.shininess,
     )
     ambient_color = materials.ambient_color * lights.ambient_color
-    diffuse_color = materials.diffuse_color * light_diffuse
-    specular_color = materials.specular_color * light_specular
+    material_diffuse, material_specular = (
+        # Reshape from (N, 3) to have dimensions compatible with the lights' colors,
+        # which have the shape of the points e.g. (N, H, W, K, 3)
+        color.view(color.shape[:1] + (1,) * (points.dim() - 2) + color.shape[1:])
+        if color.dim() == 2
+        else color
+        for color in (materials.diffuse_color, materials.specular_color)
+    )
+    diffuse_color = material_diffuse * light_diffuse
+    specular_color = material_specular * light_specular
 
     if normals.dim() == 2 and points.dim() == 2:
         # If given packed inputs remove batch dim in output.
-- 
2.43.0


From 12e5373e6b6d30ca76c953f0af65fc9645dbeba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 014/147] fix: depth shaders failed for a batch of cameras with
 their own zfar

---
 pytorch3d/renderer/mesh/shader.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index e751389..0e8b442 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -395,9 +395,11 @@ class HardDepthShader(ShaderBase):
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
         mask = fragments.pix_to_face[..., 0:1] < 0
 
-        zbuf = fragments.zbuf[..., 0:1].clone()
-        zbuf[mask] = zfar
-        return zbuf
+        if torch.is_tensor(zfar):
+            # one value for each element of the batch
+            zfar = zfar.to(fragments.zbuf).view(-1, 1, 1, 1)
+        zbuf = fragments.zbuf[..., 0:1]
+        return torch.where(mask, zfar, zbuf)
 
 
 class SoftDepthShader(ShaderBase):
@@ -428,6 +430,10 @@ class SoftDepthShader(ShaderBase):
 
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
 
+        if torch.is_tensor(zfar):
+            # one value for each element of the batch
+            zfar = zfar.view(-1, 1, 1, 1)
+
         # Sigmoid probability map based on the distance of the pixel to the face.
         prob_map = torch.sigmoid(-fragments.dists / self.blend_params.sigma) * mask
 
-- 
2.43.0


From 458c40909fd2fcf1de3091ce2c05822e76ffd2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 015/147] fix: SoftGouraudShader and SoftDepthShader ignored
 the blend_params passed to forward

---
 pytorch3d/renderer/mesh/shader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index 0e8b442..3216665 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -202,6 +202,7 @@ class SoftGouraudShader(ShaderBase):
         cameras = super()._get_cameras(**kwargs)
         lights = kwargs.get("lights", self.lights)
         materials = kwargs.get("materials", self.materials)
+        blend_params = kwargs.get("blend_params", self.blend_params)
         pixel_colors = gouraud_shading(
             meshes=meshes,
             fragments=fragments,
@@ -212,7 +213,7 @@ class SoftGouraudShader(ShaderBase):
         znear = kwargs.get("znear", getattr(cameras, "znear", 1.0))
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
         images = softmax_rgb_blend(
-            pixel_colors, fragments, self.blend_params, znear=znear, zfar=zfar
+            pixel_colors, fragments, blend_params, znear=znear, zfar=zfar
         )
         return images
 
@@ -430,12 +431,13 @@ class SoftDepthShader(ShaderBase):
 
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
 
+        blend_params = kwargs.get("blend_params", self.blend_params)
         if torch.is_tensor(zfar):
             # one value for each element of the batch
             zfar = zfar.view(-1, 1, 1, 1)
 
         # Sigmoid probability map based on the distance of the pixel to the face.
-        prob_map = torch.sigmoid(-fragments.dists / self.blend_params.sigma) * mask
+        prob_map = torch.sigmoid(-fragments.dists / blend_params.sigma) * mask
 
         # append extra face for zfar
         dists = torch.cat(
-- 
2.43.0


From 60bab38e0c3bee587752e628dbc45585c0481c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 016/147] fix: SplatterPhongShader could not be reused for
 fragments of another shape

---
 pytorch3d/renderer/mesh/shader.py    | 9 ++++++---
 pytorch3d/renderer/splatter_blend.py | 1 +
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index 3216665..01921cf 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -348,9 +348,12 @@ class SplatterPhongShader(ShaderBase):
             materials=materials,
         )
 
-        if not self.splatter_blender:
-            # Init only once, to avoid re-computing constants.
-            N, H, W, K, _ = colors.shape
+        N, H, W, K, _ = colors.shape
+        if (
+            not self.splatter_blender
+            or self.splatter_blender.input_shape != (N, H, W, K)
+        ):
+            # Init only once for each shape, to avoid re-computing constants.
             self.splatter_blender = SplatterBlender((N, H, W, K), colors.device)
 
         blend_params = kwargs.get("blend_params", self.blend_params)
diff --git a/pytorch3d/renderer/splatter_blend.py b/pytorch3d/renderer/splatter_blend.py
index 936944b..c8035d5 100644
--- a/pytorch3d/renderer/splatter_blend.py
+++ b/pytorch3d/renderer/splatter_blend.py
@@ -460,6 +460,7 @@ class SplatterBlender(torch.nn.Module):
                 constant tensors that do not change as long as this tuple is unchanged.
         """
         super().__init__()
+        self.input_shape = tuple(input_shape)
         self.crop_ids_h, self.crop_ids_w, self.offsets = _precompute(
             input_shape, device
         )
-- 
2.43.0


From 62662e7ab1df31f1827915fabbc6d1125b32ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 017/147] fix: cull_to_frustum compared the wrong coordinates
 and dropped visible faces

---
 pytorch3d/renderer/mesh/clip.py             |  8 +++++--
 pytorch3d/renderer/mesh/rasterize_meshes.py | 25 ++++++++++++++-------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index 27b23b0..c6accbf 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -187,9 +187,9 @@ def _get_culled_faces(face_verts: torch.Tensor, frustum: ClipFrustum) -> torch.T
         # If clip_value is None then don't clip along that plane
         if frustum.cull and clip_value is not None:
             if op == "<":
-                verts_clipped = face_verts[:, axis] < clip_value
+                verts_clipped = face_verts[:, :, axis] < clip_value
             else:
-                verts_clipped = face_verts[:, axis] > clip_value
+                verts_clipped = face_verts[:, :, axis] > clip_value
 
             # If all verts are clipped then face is outside the frustum
             faces_culled |= verts_clipped.sum(1) == 3
@@ -376,6 +376,10 @@ def clip_faces(
 
         # (F) dim tensor containing the number of clipped vertices in each triangle
         faces_num_clipped_verts = faces_clipped_verts.sum(1)
+
+        # The projections of the vertices behind the clipping plane don't tell whether
+        # the remaining part of the triangle is outside the view frustum.
+        faces_culled &= faces_num_clipped_verts == 0
     else:
         faces_num_clipped_verts = torch.zeros([F], device=device)
 
diff --git a/pytorch3d/renderer/mesh/rasterize_meshes.py b/pytorch3d/renderer/mesh/rasterize_meshes.py
index c2f7b34..7203f4c 100644
--- a/pytorch3d/renderer/mesh/rasterize_meshes.py
+++ b/pytorch3d/renderer/mesh/rasterize_meshes.py
@@ -161,11 +161,12 @@ def rasterize_meshes(
         # Cull faces outside the view frustum, and clip faces that are partially
         # behind the camera into the portion of the triangle in front of the
         # camera.  This may change the number of faces
+        x_max, y_max = _frustum_ndc_limits(*im_size)
         frustum = ClipFrustum(
-            left=-1,
-            right=1,
-            top=-1,
-            bottom=1,
+            left=-x_max,
+            right=x_max,
+            top=-y_max,
+            bottom=y_max,
             perspective_correct=perspective_correct,
             z_clip_value=z_clip_value,
             cull=cull_to_frustum,
@@ -376,6 +377,13 @@ def non_square_ndc_range(S1, S2):
     return ndc_range
 
 
+def _frustum_ndc_limits(H: int, W: int) -> Tuple[float, float]:
+    """
+    The NDC x and y coordinates of the edges of an image of size (H, W).
+    """
+    return non_square_ndc_range(W, H) / 2.0, non_square_ndc_range(H, W) / 2.0
+
+
 def pix_to_non_square_ndc(i, S1, S2):
     """
     The default value of the NDC range is [-1, 1].
@@ -436,11 +444,12 @@ def rasterize_meshes_python(  # noqa: C901
         # Cull faces outside the view frustum, and clip faces that are partially
         # behind the camera into the portion of the triangle in front of the
         # camera.  This may change the number of faces
+        x_max, y_max = _frustum_ndc_limits(H, W)
         frustum = ClipFrustum(
-            left=-1,
-            right=1,
-            top=-1,
-            bottom=1,
+            left=-x_max,
+            right=x_max,
+            top=-y_max,
+            bottom=y_max,
             perspective_correct=perspective_correct,
             z_clip_value=z_clip_value,
             cull=cull_to_frustum,
-- 
2.43.0


From 2924a5df174b64f1b12f950f159e67a9d07d396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 018/147] fix: near-plane clipping failed for a batch that ends
 with an empty mesh

---
 pytorch3d/renderer/mesh/clip.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index c6accbf..bc996f1 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -449,10 +449,11 @@ def clip_faces(
 
     # Update version of mesh_to_face_first_idx and num_faces_per_mesh applicable to
     # face_verts_clipped
-    mesh_to_face_first_idx_clipped = faces_unclipped_to_clipped_idx[
-        mesh_to_face_first_idx
-    ]
     F_clipped_t = torch.full([1], F_clipped, dtype=torch.int64, device=device)
+    # The first face of an empty mesh at the end of the batch would be face F.
+    mesh_to_face_first_idx_clipped = torch.cat(
+        (faces_unclipped_to_clipped_idx, F_clipped_t)
+    )[mesh_to_face_first_idx]
     num_faces_next = torch.cat((mesh_to_face_first_idx_clipped[1:], F_clipped_t))
     num_faces_per_mesh_clipped = num_faces_next - mesh_to_face_first_idx_clipped
 
-- 
2.43.0


From f6f28940e4cc13f51766f4a22062a5dc59739866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 019/147] fix: with blur, a face cut in two could be
 represented by the half that does not contain the pixel

---
 pytorch3d/csrc/rasterize_meshes/rasterize_meshes.cu   |  9 +++++----
 .../csrc/rasterize_meshes/rasterize_meshes_cpu.cpp    | 11 ++++++-----
 pytorch3d/renderer/mesh/rasterize_meshes.py           | 10 +++++++---
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/pytorch3d/csrc/rasterize_meshes/rasterize_meshes.cu b/pytorch3d/csrc/rasterize_meshes/rasterize_meshes.cu
index 28c546c..37851fe 100644
--- a/pytorch3d/csrc/rasterize_meshes/rasterize_meshes.cu
+++ b/pytorch3d/csrc/rasterize_meshes/rasterize_meshes.cu
@@ -181,7 +181,8 @@ __device__ void CheckPixelInsideFace(
   // case we:
   // 1. Find the index of the neighboring face (e.g. for t1 need index of t2)
   // 2. Check if the neighboring face (t2) is already in the top K faces
-  // 3. If yes, compare the distance of the pixel to t1 with the distance to t2.
+  // 3. If yes, compare the signed distance of the pixel to t1 with the signed
+  // distance to t2, so that the one which contains the pixel wins.
   // 4. If dist_t1 < dist_t2, overwrite the values for t2 in the top K faces.
   const int neighbor_idx = clipped_faces_neighbor_idx[face_idx];
   int neighbor_idx_top_k = -1;
@@ -199,10 +200,10 @@ __device__ void CheckPixelInsideFace(
   }
   // If neighbor idx is not -1 then it is in the top K struct.
   if (neighbor_idx_top_k != -1) {
-    // If dist of current face is less than neighbor then overwrite the
+    // If signed dist of current face is less than neighbor then overwrite the
     // neighbor face values in the top K struct.
-    float neighbor_dist = abs(q[neighbor_idx_top_k].dist);
-    if (dist < neighbor_dist) {
+    float neighbor_dist = q[neighbor_idx_top_k].dist;
+    if (signed_dist < neighbor_dist) {
       // Overwrite the neighbor face values
       q[neighbor_idx_top_k] = {pz, face_idx, signed_dist, p_bary_clip};
 
diff --git a/pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp b/pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp
index fce2cb7..aa6c073 100644
--- a/pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp
+++ b/pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp
@@ -242,8 +242,9 @@ void RasterizeMeshesNaiveCpu_worker(
           // t2). In this case we:
           // 1. Find the index of the neighbor (e.g. for t1 need index of t2)
           // 2. Check if the neighbor (t2) is already in the top K faces
-          // 3. If yes, compare the distance of the pixel to t1 with the
-          // distance to t2.
+          // 3. If yes, compare the signed distance of the pixel to t1 with the
+          // signed distance to t2, so that the one which contains the pixel
+          // wins.
           // 4. If dist_t1 < dist_t2, overwrite the values for t2 in the top K
           // faces.
           const int neighbor_idx = neighbor_idx_a[f];
@@ -259,11 +260,11 @@ void RasterizeMeshesNaiveCpu_worker(
 
           // If idx_top_k idx is not -1 then it is in the top K struct.
           if (idx_top_k != -1) {
-            // If dist of current face is less than neighbor, overwrite
+            // If signed dist of current face is less than neighbor, overwrite
             // the neighbor face values in the top K struct.
             const auto neighbor = q[idx_top_k];
-            const float dist_neighbor = std::abs(std::get<2>(neighbor));
-            if (dist < dist_neighbor) {
+            const float dist_neighbor = std::get<2>(neighbor);
+            if (signed_dist < dist_neighbor) {
               // Overwrite the neighbor face values.
               q[idx_top_k] = std::make_tuple(
                   pz, f, signed_dist, bary_clip.x, bary_clip.y, bary_clip.z);
diff --git a/pytorch3d/renderer/mesh/rasterize_meshes.py b/pytorch3d/renderer/mesh/rasterize_meshes.py
index 7203f4c..66a4c5e 100644
--- a/pytorch3d/renderer/mesh/rasterize_meshes.py
+++ b/pytorch3d/renderer/mesh/rasterize_meshes.py
@@ -590,9 +590,13 @@ def rasterize_meshes_python(  # noqa: C901
                         ]
                         top_k_idx = top_k_idx[0] if len(top_k_idx) > 0 else -1
 
-                    if top_k_idx != -1 and dist < top_k_points[top_k_idx][3]:
-                        # Overwrite the neighbor with current face info
-                        top_k_points[top_k_idx] = (pz, f, bary, dist, inside)
+                    if top_k_idx != -1:
+                        # Overwrite the neighbor with current face info if the
+                        # pixel is inside it or closer to it.
+                        _, _, _, dist_n, inside_n = top_k_points[top_k_idx]
+                        signed_dist_n = -dist_n if inside_n else dist_n
+                        if (-dist if inside else dist) < signed_dist_n:
+                            top_k_points[top_k_idx] = (pz, f, bary, dist, inside)
                     else:
                         # Handle as a normal face
                         top_k_points.append((pz, f, bary, dist, inside))
-- 
2.43.0


From eee80f1507e26774e39e2e1edd9b589049715143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 020/147] fix: rasterize_meshes_python listed both halves of a
 face cut by clipping

---
 pytorch3d/renderer/mesh/rasterize_meshes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/renderer/mesh/rasterize_meshes.py b/pytorch3d/renderer/mesh/rasterize_meshes.py
index 66a4c5e..01eb76c 100644
--- a/pytorch3d/renderer/mesh/rasterize_meshes.py
+++ b/pytorch3d/renderer/mesh/rasterize_meshes.py
@@ -460,6 +460,7 @@ def rasterize_meshes_python(  # noqa: C901
         faces_verts = clipped_faces.face_verts
         mesh_to_face_first_idx = clipped_faces.mesh_to_face_first_idx
         num_faces_per_mesh = clipped_faces.num_faces_per_mesh
+        clipped_faces_neighbor_idx = clipped_faces.clipped_faces_neighbor_idx
 
     # Initialize output tensors.
     face_idxs = torch.full(
-- 
2.43.0


From 3d6899afb49bad145f4f2f7b1ba26c394978e365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:11 +0000
Subject: [PATCH 021/147] fix: rasterize_points accepts a radius tensor that is
 not contiguous

---
 pytorch3d/renderer/points/rasterize_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/points/rasterize_points.py b/pytorch3d/renderer/points/rasterize_points.py
index b9f853c..149d4bd 100644
--- a/pytorch3d/renderer/points/rasterize_points.py
+++ b/pytorch3d/renderer/points/rasterize_points.py
@@ -175,7 +175,7 @@ def _format_radius(
             raise ValueError(msg % (repr(radius.shape)))
         else:
             padded_to_packed_idx = pointclouds.padded_to_packed_idx()
-            radius = radius.view(-1)[padded_to_packed_idx]
+            radius = radius.reshape(-1)[padded_to_packed_idx]
     elif isinstance(radius, float):
         radius = torch.full((P_packed,), fill_value=radius).type_as(points_packed)
     else:
-- 
2.43.0


From d6efb7d4b648731424d11bc917e622a72fe3ab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 022/147] fix: PointsRenderer supports a radius per point and
 raster_settings passed to forward

---
 pytorch3d/renderer/points/renderer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/points/renderer.py b/pytorch3d/renderer/points/renderer.py
index 9be832d..546b59c 100644
--- a/pytorch3d/renderer/points/renderer.py
+++ b/pytorch3d/renderer/points/renderer.py
@@ -10,6 +10,8 @@
 import torch
 import torch.nn as nn
 
+from .rasterize_points import _format_radius
+
 
 # A renderer class should be initialized with a
 # function for rasterization and a function for compositing.
@@ -59,7 +61,13 @@ class PointsRenderer(nn.Module):
         # Construct weights based on the distance of a point to the true point.
         # However, this could be done differently: e.g. predicted as opposed
         # to a function of the weights.
-        r = self.rasterizer.raster_settings.radius
+        raster_settings = kwargs.get("raster_settings", self.rasterizer.raster_settings)
+        r = raster_settings.radius
+        if not isinstance(r, float):
+            # A radius per point: use the one of the point which hits the pixel.
+            idx = fragments.idx.long()
+            r = _format_radius(r, point_clouds)[idx.clamp(min=0)]
+            r = r.masked_fill(idx < 0, 1.0).permute(0, 3, 1, 2)
 
         dists2 = fragments.dists.permute(0, 3, 1, 2)
         weights = 1 - dists2 / (r * r)
-- 
2.43.0


From fc163c6ce9aca96531259da6cc22648fd832d1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 023/147] fix: interpolate_face_attributes accepts tensors that
 are not contiguous

---
 pytorch3d/ops/interp_face_attrs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/ops/interp_face_attrs.py b/pytorch3d/ops/interp_face_attrs.py
index 4cf6b99..902d944 100644
--- a/pytorch3d/ops/interp_face_attrs.py
+++ b/pytorch3d/ops/interp_face_attrs.py
@@ -55,8 +55,8 @@ def interpolate_face_attributes(
 
     # Otherwise flatten and call the custom autograd function
     N, H, W, K = pix_to_face.shape
-    pix_to_face = pix_to_face.view(-1)
-    barycentric_coords = barycentric_coords.view(N * H * W * K, 3)
+    pix_to_face = pix_to_face.reshape(-1)
+    barycentric_coords = barycentric_coords.reshape(N * H * W * K, 3)
     args = (pix_to_face, barycentric_coords, face_attributes)
     out = _InterpFaceAttrs.apply(*args)
     out = out.view(N, H, W, K, -1)
@@ -95,7 +95,7 @@ def interpolate_face_attributes_python(
     mask = pix_to_face < 0
     pix_to_face = pix_to_face.clone()
     pix_to_face[mask] = 0
-    idx = pix_to_face.view(N * H * W * K, 1, 1).expand(N * H * W * K, 3, D)
+    idx = pix_to_face.reshape(N * H * W * K, 1, 1).expand(N * H * W * K, 3, D)
     pixel_face_vals = face_attributes.gather(0, idx).view(N, H, W, K, 3, D)
     pixel_vals = (barycentric_coords[..., None] * pixel_face_vals).sum(dim=-2)
     pixel_vals[mask] = 0  # Replace masked values in output.
-- 
2.43.0


From 0ac15c6f831a48916abbef2a193be0991ecd88db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 024/147] fix: ray samplers can draw more rays than there are
 pixels

---
 pytorch3d/renderer/implicit/raysampling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/implicit/raysampling.py b/pytorch3d/renderer/implicit/raysampling.py
index 222e024..ecdd3dd 100644
--- a/pytorch3d/renderer/implicit/raysampling.py
+++ b/pytorch3d/renderer/implicit/raysampling.py
@@ -592,7 +592,10 @@ def _safe_multinomial(input: torch.Tensor, num_samples: int) -> torch.Tensor:
         # this is probably rare, so we don't mind sampling twice
         res = torch.multinomial(input, num_samples, replacement=True)
         no_repl = (input > 0.0).sum(dim=-1) >= num_samples
-        res[no_repl] = torch.multinomial(input[no_repl], num_samples, replacement=False)
+        if no_repl.any():
+            res[no_repl] = torch.multinomial(
+                input[no_repl], num_samples, replacement=False
+            )
         return res
 
     # in some versions of Pytorch, zero probabilty samples can be drawn without an error
-- 
2.43.0


From 7f4c4d0eb80b6b996fa624b6b17ffc7031f656b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 025/147] fix: padded_to_packed of features of width zero, as
 for rays without points

---
 pytorch3d/ops/packed_to_padded.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/ops/packed_to_padded.py b/pytorch3d/ops/packed_to_padded.py
index 8bc18c2..efa0f7f 100644
--- a/pytorch3d/ops/packed_to_padded.py
+++ b/pytorch3d/ops/packed_to_padded.py
@@ -197,4 +197,4 @@ def padded_to_packed(
     if n_dims == 2:
         return inputs_packed.squeeze(1)
 
-    return inputs_packed.view(-1, *input_shape[2:])
+    return inputs_packed.view(inputs_packed.shape[0], *input_shape[2:])
-- 
2.43.0


From f489b9b718f05894e1ea874421d0ab525732e7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 026/147] fix: VolumeSampler sampled volumes of different sizes
 at the wrong positions

---
 pytorch3d/renderer/implicit/renderer.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pytorch3d/renderer/implicit/renderer.py b/pytorch3d/renderer/implicit/renderer.py
index 963f7d0..a3402c2 100644
--- a/pytorch3d/renderer/implicit/renderer.py
+++ b/pytorch3d/renderer/implicit/renderer.py
@@ -375,6 +375,22 @@ class VolumeSampler(torch.nn.Module):
         dim_density = volumes_densities.shape[1]
         volumes_features = self._volumes.features()
 
+        # The local coordinates refer to each volume's own grid, which is only the
+        # corner of the padded tensor if the volumes have different sizes.
+        grid_sizes = self._volumes.get_grid_sizes()
+        padded_size = grid_sizes.new_tensor(volumes_densities.shape[2:])
+        if (grid_sizes != padded_size).any():
+            one_if_align = 1 if self._volumes.get_align_corners() else 0
+            # relative size of the grids in (x, y, z) order
+            relative_size = (
+                (grid_sizes - one_if_align).to(rays_points_local)
+                / (padded_size - one_if_align).clamp(min=1).to(rays_points_local)
+            ).flip(-1)
+            relative_size = relative_size.reshape(
+                -1, *([1] * (rays_points_local.ndim - 2)), 3
+            )
+            rays_points_local = (rays_points_local + 1) * relative_size - 1
+
         # reshape to a size which grid_sample likes
         rays_points_local_flat = rays_points_local.view(
             rays_points_local.shape[0], -1, 1, 1, 3
-- 
2.43.0


From 78e6e94b90e8c427de43a35564dfd27020b906ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:00 +0000
Subject: [PATCH 027/147] fix: sample_farthest_points of an empty cloud, or
 with K=0 for a cloud

wrote out of bounds and returned a point instead of padding.
---
 .../sample_farthest_points_cpu.cpp                 | 14 +++++++++-----
 pytorch3d/ops/sample_farthest_points.py            | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
index cd53382..667f91d 100644
--- a/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
+++ b/pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp
@@ -43,6 +43,15 @@ at::Tensor FarthestPointSamplingCpu(
   std::vector<float> dists(P, std::numeric_limits<float>::max());
 
   for (int64_t n = 0; n < N; ++n) {
+    // For heterogeneous pointclouds, use the minimum of the
+    // length for that cloud compared to K as the number of
+    // points to sample
+    const int64_t batch_k = std::min(lengths_a[n], k_a[n]);
+    if (batch_k <= 0) {
+      // Nothing to sample from this cloud: its row is all padding.
+      continue;
+    }
+
     // Resize and reset points mask and distances for each batch
     selected_points_mask.resize(lengths_a[n]);
     dists.resize(lengths_a[n]);
@@ -56,11 +65,6 @@ at::Tensor FarthestPointSamplingCpu(
     // Set the value of the mask at this point to false
     selected_points_mask[last_idx] = true;
 
-    // For heterogeneous pointclouds, use the minimum of the
-    // length for that cloud compared to K as the number of
-    // points to sample
-    const int64_t batch_k = std::min(lengths_a[n], k_a[n]);
-
     // Iteratively select batch_k points per batch
     for (int64_t k = 1; k < batch_k; ++k) {
       // Iterate through all the points
diff --git a/pytorch3d/ops/sample_farthest_points.py b/pytorch3d/ops/sample_farthest_points.py
index ddcb75a..f7d5bad 100644
--- a/pytorch3d/ops/sample_farthest_points.py
+++ b/pytorch3d/ops/sample_farthest_points.py
@@ -162,17 +162,21 @@ def sample_farthest_points_naive(
             dtype=torch.float32,
         )
 
-        # Select a random point index and save it as the starting point
-        # pyre-fixme[6]: For 2nd argument expected `int` but got `Tensor`.
-        selected_idx = randint(0, lengths[n] - 1) if random_start_point else 0
-        sample_idx_batch[0] = selected_idx
-
         # If the pointcloud has fewer than K points then only iterate over the min
         # pyre-fixme[6]: For 1st param expected `SupportsRichComparisonT` but got
         #  `Tensor`.
         # pyre-fixme[6]: For 2nd param expected `SupportsRichComparisonT` but got
         #  `Tensor`.
         k_n = min(lengths[n], K[n])
+        if k_n <= 0:
+            # Nothing to sample from this cloud: its row is all padding.
+            all_sampled_indices.append(sample_idx_batch)
+            continue
+
+        # Select a random point index and save it as the starting point
+        # pyre-fixme[6]: For 2nd argument expected `int` but got `Tensor`.
+        selected_idx = randint(0, lengths[n] - 1) if random_start_point else 0
+        sample_idx_batch[0] = selected_idx
 
         # Iteratively select points for a maximum of k_n
         for i in range(1, k_n):
-- 
2.43.0


From 7ec8acdd3ef64bafd4789a4872d0212819d1635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 028/147] fix: point to mesh distances matched across batch
 items after an empty mesh or cloud

---
 pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp b/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
index 35c0b8c..140b94d 100644
--- a/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
+++ b/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
@@ -184,7 +184,8 @@ std::tuple<at::Tensor, at::Tensor> HullHullDistanceForwardCpu(
   int64_t b_batch_start = 0, b_batch_end = 0;
   int64_t batch_idx = 0;
   for (int64_t a_n = 0; a_n < A_N; ++a_n) {
-    if (a_n == a_batch_end) {
+    // There is more than one step to take if there are empty batch elements
+    while (a_n == a_batch_end) {
       ++batch_idx;
       b_batch_start = b_batch_end;
       if (batch_idx == BATCHES) {
-- 
2.43.0


From 066a17692b0f1c787900102d3078a4e313e58403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 029/147] fix: gradient of point to mesh distances when one
 side of a batch element is empty

went to an element of another batch item, or out of bounds.
---
 pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp b/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
index 140b94d..ab23ca1 100644
--- a/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
+++ b/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
@@ -197,7 +197,8 @@ std::tuple<at::Tensor, at::Tensor> HullHullDistanceForwardCpu(
       }
     }
     float min_dist = std::numeric_limits<float>::max();
-    size_t min_idx = 0;
+    // stays -1 if this batch element has nothing to measure the distance to
+    int64_t min_idx = -1;
     auto a = ExtractHull<H1>(as_a[a_n]);
     for (int64_t b_n = b_batch_start; b_n < b_batch_end; ++b_n) {
       float dist =
@@ -239,6 +240,9 @@ std::tuple<at::Tensor, at::Tensor> HullHullDistanceBackwardCpu(
   auto grad_dists_a = grad_dists.accessor<float, 1>();
 
   for (int64_t a_n = 0; a_n < A_N; ++a_n) {
+    if (idx_bs_a[a_n] < 0) {
+      continue;
+    }
     auto a = ExtractHull<H1>(as_a[a_n]);
     auto b = ExtractHull<H2>(bs_a[idx_bs_a[a_n]]);
     HullHullDistanceBackward(
-- 
2.43.0


From b5f7470f68e00a4c91fa3810402d121a56d584a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:07 +0000
Subject: [PATCH 030/147] fix: point to triangle distance of small triangles
 used wrong barycentric coordinates

---
 pytorch3d/csrc/utils/geometry_utils.cuh | 4 +++-
 pytorch3d/csrc/utils/geometry_utils.h   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/csrc/utils/geometry_utils.cuh b/pytorch3d/csrc/utils/geometry_utils.cuh
index b18bb54..7522fd7 100644
--- a/pytorch3d/csrc/utils/geometry_utils.cuh
+++ b/pytorch3d/csrc/utils/geometry_utils.cuh
@@ -517,7 +517,9 @@ __device__ inline float3 BarycentricCoords3Forward(
   const float d20 = dot(p2, p0);
   const float d21 = dot(p2, p1);
 
-  const float denom = d00 * d11 - d01 * d01 + kEpsilon;
+  // This is four times the squared area, so adding an epsilon would make
+  // the coordinates of small triangles wrong.
+  const float denom = fmaxf(d00 * d11 - d01 * d01, 1e-37f);
   const float w1 = (d11 * d20 - d01 * d21) / denom;
   const float w2 = (d00 * d21 - d01 * d20) / denom;
   const float w0 = 1.0f - w1 - w2;
diff --git a/pytorch3d/csrc/utils/geometry_utils.h b/pytorch3d/csrc/utils/geometry_utils.h
index ad9f7ff..ac2dc6a 100644
--- a/pytorch3d/csrc/utils/geometry_utils.h
+++ b/pytorch3d/csrc/utils/geometry_utils.h
@@ -619,7 +619,9 @@ vec3<T> BarycentricCoords3Forward(
   const T d20 = dot(p2, p0);
   const T d21 = dot(p2, p1);
 
-  const T denom = d00 * d11 - d01 * d01 + kEpsilon;
+  // This is four times the squared area, so adding an epsilon would make
+  // the coordinates of small triangles wrong.
+  const T denom = std::max<T>(d00 * d11 - d01 * d01, 1e-37);
   const T w1 = (d11 * d20 - d01 * d21) / denom;
   const T w2 = (d00 * d21 - d01 * d20) / denom;
   const T w0 = 1.0f - w1 - w2;
-- 
2.43.0


From 52561cc570ab6fb8bde61619335e61f36cd3cd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 031/147] fix: marching cubes lost triangles after a degenerate
 triangle of the same cube

---
 .../marching_cubes/marching_cubes_cpu.cpp     | 19 +++++++++---------
 pytorch3d/ops/marching_cubes.py               | 20 ++++++++-----------
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp b/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp
index fa128e7..184c319 100644
--- a/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp
+++ b/pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp
@@ -68,16 +68,17 @@ std::tuple<at::Tensor, at::Tensor, at::Tensor> MarchingCubesCpu(
 
           // Check if the triangle face is degenerate. A triangle face
           // is degenerate if any of the two verices share the same 3D position
-          if ((j + 1) % 3 == 0 && ps[0] != ps[1] && ps[1] != ps[2] &&
-              ps[2] != ps[0]) {
-            for (int k = 0; k < 3; k++) {
-              int64_t v = tri.at(k);
-              edge_id_to_v[v] = ps.at(k);
-              if (!uniq_edge_id.count(v)) {
-                uniq_edge_id[v] = verts.size();
-                verts.push_back(edge_id_to_v[v]);
+          if ((j + 1) % 3 == 0) {
+            if (ps[0] != ps[1] && ps[1] != ps[2] && ps[2] != ps[0]) {
+              for (int k = 0; k < 3; k++) {
+                int64_t v = tri.at(k);
+                edge_id_to_v[v] = ps.at(k);
+                if (!uniq_edge_id.count(v)) {
+                  uniq_edge_id[v] = verts.size();
+                  verts.push_back(edge_id_to_v[v]);
+                }
+                faces.push_back(uniq_edge_id[v]);
               }
-              faces.push_back(uniq_edge_id[v]);
             }
             tri.clear();
             ps.clear();
diff --git a/pytorch3d/ops/marching_cubes.py b/pytorch3d/ops/marching_cubes.py
index b6f90d8..d546fd0 100644
--- a/pytorch3d/ops/marching_cubes.py
+++ b/pytorch3d/ops/marching_cubes.py
@@ -198,18 +198,14 @@ def marching_cubes_naive(
                         ps.append(interp_points[edge])
                         # when the isolevel are the same as the edge endpoints, the interploated
                         # vertices can share the same values, and lead to degenerate triangles.
-                        if (
-                            (i + 1) % 3 == 0
-                            and ps[0] != ps[1]
-                            and ps[1] != ps[2]
-                            and ps[2] != ps[0]
-                        ):
-                            for j, edge_id in enumerate(tri):
-                                edge_id_to_v[edge_id] = ps[j]
-                                if edge_id not in uniq_edge_id:
-                                    uniq_edge_id[edge_id] = len(verts)
-                                    verts.append(edge_id_to_v[edge_id])
-                            faces.append([uniq_edge_id[tri[j]] for j in range(3)])
+                        if (i + 1) % 3 == 0:
+                            if ps[0] != ps[1] and ps[1] != ps[2] and ps[2] != ps[0]:
+                                for j, edge_id in enumerate(tri):
+                                    edge_id_to_v[edge_id] = ps[j]
+                                    if edge_id not in uniq_edge_id:
+                                        uniq_edge_id[edge_id] = len(verts)
+                                        verts.append(edge_id_to_v[edge_id])
+                                faces.append([uniq_edge_id[tri[j]] for j in range(3)])
                             tri = []
                             ps = []
 
-- 
2.43.0


From 95ffa56e2ee4e28c0de1b1707cfacd1ccd1ba701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:36 +0000
Subject: [PATCH 032/147] fix: marching cubes merged distinct vertices of grids
 of more than 2^24 points

---
 pytorch3d/csrc/marching_cubes/marching_cubes_utils.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/csrc/marching_cubes/marching_cubes_utils.h b/pytorch3d/csrc/marching_cubes/marching_cubes_utils.h
index 486e033..3536d21 100644
--- a/pytorch3d/csrc/marching_cubes/marching_cubes_utils.h
+++ b/pytorch3d/csrc/marching_cubes/marching_cubes_utils.h
@@ -138,8 +138,13 @@ struct Cube {
   int64_t HashVpair(const int edge, int W, int H, int D) {
     const int v1 = _EDGE_TO_VERTICES[edge][0];
     const int v2 = _EDGE_TO_VERTICES[edge][1];
-    const int v1_id = p[v1].x + p[v1].y * W + p[v1].z * W * H;
-    const int v2_id = p[v2].x + p[v2].y * W + p[v2].z * W * H;
-    return (int64_t)v1_id * (W + W * H + W * H * D) + (int64_t)v2_id;
+    // The products are taken in 64 bit integers: a float holds only the ids of
+    // grids of up to 2^24 points.
+    const int64_t w = W, h = H, d = D;
+    const int64_t v1_id =
+        (int64_t)p[v1].x + (int64_t)p[v1].y * w + (int64_t)p[v1].z * w * h;
+    const int64_t v2_id =
+        (int64_t)p[v2].x + (int64_t)p[v2].y * w + (int64_t)p[v2].z * w * h;
+    return v1_id * (w + w * h + w * h * d) + v2_id;
   }
 };
-- 
2.43.0


From 20bc2c71e7ca82b891d25cdf86f6cbae28e6ffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 033/147] fix: box3d_overlap of boxes with almost parallel
 faces

Triangles of the second box within 2.5 degrees of a triangle of the first
one were dropped as coplanar wherever they were, or kept without clipping,
which changed the volume by up to a third. Coinciding faces are now kept by
exactly one of the boxes by clipping against planes moved by a small margin.
---
 pytorch3d/csrc/iou_box3d/iou_box3d.cu      |  48 +++----
 pytorch3d/csrc/iou_box3d/iou_box3d_cpu.cpp |  36 ++---
 pytorch3d/csrc/iou_box3d/iou_utils.cuh     | 155 +++++----------------
 pytorch3d/csrc/iou_box3d/iou_utils.h       | 148 ++++----------------
 4 files changed, 87 insertions(+), 300 deletions(-)

diff --git a/pytorch3d/csrc/iou_box3d/iou_box3d.cu b/pytorch3d/csrc/iou_box3d/iou_box3d.cu
index a315550..dd56cd9 100644
--- a/pytorch3d/csrc/iou_box3d/iou_box3d.cu
+++ b/pytorch3d/csrc/iou_box3d/iou_box3d.cu
@@ -54,6 +54,12 @@ __global__ void IoUBox3DKernel(
     const float box1_vol = BoxVolume(box1_tris, box1_center, NUM_TRIS);
     const float box2_vol = BoxVolume(box2_tris, box2_center, NUM_TRIS);
 
+    // Where faces of both boxes coincide, the ones of Box1 are kept and the
+    // ones of Box2 are removed.
+    const float margin = mEpsilon *
+        fmaxf(norm(box1_planes[0].v0 - box1_center),
+              norm(box2_planes[0].v0 - box2_center));
+
     // Tris in Box1 intersection with Planes in Box2
     // Initialize box1 intersecting faces. MAX_TRIS is the
     // max faces possible in the intersecting shape.
@@ -66,7 +72,8 @@ __global__ void IoUBox3DKernel(
       box1_intersect[j] = box1_tris[j];
     }
     // Get the count of the actual number of faces in the intersecting shape
-    int box1_count = BoxIntersections(box2_planes, box2_center, box1_intersect);
+    int box1_count =
+        BoxIntersections(box2_planes, box2_center, margin, box1_intersect);
 
     // Tris in Box2 intersection with Planes in Box1
     FaceVerts box2_intersect[MAX_TRIS];
@@ -74,36 +81,15 @@ __global__ void IoUBox3DKernel(
       box2_intersect[j] = box2_tris[j];
     }
     const int box2_count =
-        BoxIntersections(box1_planes, box1_center, box2_intersect);
-
-    // If there are overlapping regions in Box2, remove any coplanar faces
-    if (box2_count > 0) {
-      // Identify if any triangles in Box2 are coplanar with Box1
-      Keep tri2_keep[MAX_TRIS];
-      for (int j = 0; j < MAX_TRIS; ++j) {
-        // Initialize the valid faces to be true
-        tri2_keep[j].keep = j < box2_count ? true : false;
-      }
-      for (int b1 = 0; b1 < box1_count; ++b1) {
-        for (int b2 = 0; b2 < box2_count; ++b2) {
-          const bool is_coplanar =
-              IsCoplanarTriTri(box1_intersect[b1], box2_intersect[b2]);
-          const float area = FaceArea(box1_intersect[b1]);
-          if ((is_coplanar) && (area > aEpsilon)) {
-            tri2_keep[b2].keep = false;
-          }
-        }
-      }
-
-      // Keep only the non coplanar triangles in Box2 - add them to the
-      // Box1 triangles.
-      for (int b2 = 0; b2 < box2_count; ++b2) {
-        if (tri2_keep[b2].keep) {
-          box1_intersect[box1_count] = box2_intersect[b2];
-          // box1_count will determine the total faces in the
-          // intersecting shape
-          box1_count++;
-        }
+        BoxIntersections(box1_planes, box1_center, -margin, box2_intersect);
+
+    // Add the triangles of Box2 to the Box1 triangles.
+    for (int b2 = 0; b2 < box2_count; ++b2) {
+      if (box1_count < MAX_TRIS) {
+        box1_intersect[box1_count] = box2_intersect[b2];
+        // box1_count will determine the total faces in the
+        // intersecting shape
+        box1_count++;
       }
     }
 
diff --git a/pytorch3d/csrc/iou_box3d/iou_box3d_cpu.cpp b/pytorch3d/csrc/iou_box3d/iou_box3d_cpu.cpp
index 14310ad..8402e1e 100644
--- a/pytorch3d/csrc/iou_box3d/iou_box3d_cpu.cpp
+++ b/pytorch3d/csrc/iou_box3d/iou_box3d_cpu.cpp
@@ -61,37 +61,21 @@ std::tuple<at::Tensor, at::Tensor> IoUBox3DCpu(
       //    will be broken into subtriangles such that each subtriangle is full
       //    inside the plane and part of the intersecting tetrahedron.
 
+      // Where faces of both boxes coincide, the ones of Box1 are kept and the
+      // ones of Box2 are removed.
+      const float margin = mEpsilon *
+          std::fmaxf(norm(box1_planes[0][0] - box1_center),
+                     norm(box2_planes[0][0] - box2_center));
+
       // Tris in Box1 -> Planes in Box2
       face_verts box1_intersect =
-          BoxIntersections(box1_tris, box2_planes, box2_center);
+          BoxIntersections(box1_tris, box2_planes, box2_center, margin);
       // Tris in Box2 -> Planes in Box1
       face_verts box2_intersect =
-          BoxIntersections(box2_tris, box1_planes, box1_center);
-
-      // If there are overlapping regions in Box2, remove any coplanar faces
-      if (box2_intersect.size() > 0) {
-        // Identify if any triangles in Box2 are coplanar with Box1
-        std::vector<int> tri2_keep(box2_intersect.size());
-        std::fill(tri2_keep.begin(), tri2_keep.end(), 1);
-        for (int b1 = 0; b1 < box1_intersect.size(); ++b1) {
-          for (int b2 = 0; b2 < box2_intersect.size(); ++b2) {
-            const bool is_coplanar =
-                IsCoplanarTriTri(box1_intersect[b1], box2_intersect[b2]);
-            const float area = FaceArea(box1_intersect[b1]);
-            if ((is_coplanar) && (area > aEpsilon)) {
-              tri2_keep[b2] = 0;
-            }
-          }
-        }
+          BoxIntersections(box2_tris, box1_planes, box1_center, -margin);
 
-        // Keep only the non coplanar triangles in Box2 - add them to the
-        // Box1 triangles.
-        for (int b2 = 0; b2 < box2_intersect.size(); ++b2) {
-          if (tri2_keep[b2] == 1) {
-            box1_intersect.push_back((box2_intersect[b2]));
-          }
-        }
-      }
+      box1_intersect.insert(
+          box1_intersect.end(), box2_intersect.begin(), box2_intersect.end());
 
       // Initialize the vol and iou to 0.0 in case there are no triangles
       // in the intersecting shape.
diff --git a/pytorch3d/csrc/iou_box3d/iou_utils.cuh b/pytorch3d/csrc/iou_box3d/iou_utils.cuh
index 1d70206..da863c5 100644
--- a/pytorch3d/csrc/iou_box3d/iou_utils.cuh
+++ b/pytorch3d/csrc/iou_box3d/iou_utils.cuh
@@ -12,12 +12,13 @@
 #include "utils/float_math.cuh"
 
 // dEpsilon: Used in dot products and is used to assess whether two unit vectors
-// are orthogonal (or coplanar). It's an epsilon on cos(θ).
-// With dEpsilon = 0.001, two unit vectors are considered co-planar
+// are parallel. It's an epsilon on cos(θ).
+// With dEpsilon = 0.001, two unit vectors are considered parallel
 // if their θ = 2.5 deg.
 __constant__ const float dEpsilon = 1e-3;
-// aEpsilon: Used once in main function to check for small face areas
-__constant__ const float aEpsilon = 1e-4;
+// mEpsilon: faces of the two boxes which are closer than mEpsilon times the
+// size of the boxes are considered coplanar
+__constant__ const float mEpsilon = 1e-4;
 // kEpsilon: Used only for norm(u) = u/max(||u||, kEpsilon)
 __constant__ const float kEpsilon = 1e-8;
 
@@ -52,12 +53,6 @@ struct FaceVertsIdx {
   int v3; // Can be empty for triangles
 };
 
-// This is used when deciding which faces to
-// keep that are not coplanar
-struct Keep {
-  bool keep;
-};
-
 __device__ FaceVertsIdx _PLANES[] = {
     {0, 1, 2, 3},
     {3, 2, 6, 7},
@@ -405,118 +400,20 @@ __device__ inline float3 PlaneEdgeIntersection(
   // We want to find a such that p is on plane
   // <p - plane_ctr, n> = 0
 
-  float3 direc = p1 - p0;
-  direc = direc / fmaxf(norm(direc), kEpsilon);
-
   float3 p = (p1 + p0) / 2.0f;
 
-  if (abs(dot(direc, normal)) >= dEpsilon) {
+  // p0 and p1 are on different sides of the plane, also when the edge is almost
+  // parallel to it.
+  const float bot = dot(p1 - p0, normal);
+  if (bot != 0.0f) {
     const float top = -1.0f * dot(p0 - plane_ctr, normal);
-    const float bot = dot(p1 - p0, normal);
-    const float a = top / bot;
+    const float a = fminf(fmaxf(top / bot, 0.0f), 1.0f);
     p = p0 + a * (p1 - p0);
   }
 
   return p;
 }
 
-// Compute the most distant points between two sets of vertices
-//
-// Args
-//    verts1, verts2: list of float3 defining the list of vertices
-//
-// Returns
-//    v1m, v2m: float3 vectors of the most distant points
-//          in verts1 and verts2 respectively
-//
-__device__ inline std::tuple<float3, float3> ArgMaxVerts(
-    std::initializer_list<float3> verts1,
-    std::initializer_list<float3> verts2) {
-  auto v1m = float3();
-  auto v2m = float3();
-  float maxdist = -1.0f;
-
-  for (const auto& v1 : verts1) {
-    for (const auto& v2 : verts2) {
-      if (norm(v1 - v2) > maxdist) {
-        v1m = v1;
-        v2m = v2;
-        maxdist = norm(v1 - v2);
-      }
-    }
-  }
-  return std::make_tuple(v1m, v2m);
-}
-
-// Compute a boolean indicator for whether or not two faces
-// are coplanar
-//
-// Args
-//    tri1, tri2: FaceVerts struct of the vertex coordinates of
-//       the triangle face
-//
-// Returns
-//    bool: whether or not the two faces are coplanar
-//
-__device__ inline bool IsCoplanarTriTri(
-    const FaceVerts& tri1,
-    const FaceVerts& tri2) {
-  const float3 tri1_n = FaceNormal({tri1.v0, tri1.v1, tri1.v2});
-
-  const float3 tri2_n = FaceNormal({tri2.v0, tri2.v1, tri2.v2});
-
-  // Check if parallel
-  const bool check1 = abs(dot(tri1_n, tri2_n)) > 1 - dEpsilon;
-
-  // Compute most distant points
-  const auto v1mAndv2m =
-      ArgMaxVerts({tri1.v0, tri1.v1, tri1.v2}, {tri2.v0, tri2.v1, tri2.v2});
-  const auto v1m = std::get<0>(v1mAndv2m);
-  const auto v2m = std::get<1>(v1mAndv2m);
-
-  float3 n12m = v1m - v2m;
-  n12m = n12m / fmaxf(norm(n12m), kEpsilon);
-
-  const bool check2 = (abs(dot(n12m, tri1_n)) < dEpsilon) ||
-      (abs(dot(n12m, tri2_n)) < dEpsilon);
-
-  return (check1 && check2);
-}
-
-// Compute a boolean indicator for whether or not a triangular and a planar
-// face are coplanar
-//
-// Args
-//    tri, plane: FaceVerts struct of the vertex coordinates of
-//       the triangle and planar face
-//  normal: the normal direction of the plane pointing "inside"
-//
-// Returns
-//    bool: whether or not the two faces are coplanar
-//
-__device__ inline bool IsCoplanarTriPlane(
-    const FaceVerts& tri,
-    const FaceVerts& plane,
-    const float3& normal) {
-  const float3 nt = FaceNormal({tri.v0, tri.v1, tri.v2});
-
-  // check if parallel
-  const bool check1 = abs(dot(nt, normal)) > 1 - dEpsilon;
-
-  // Compute most distant points
-  const auto v1mAndv2m = ArgMaxVerts(
-      {tri.v0, tri.v1, tri.v2}, {plane.v0, plane.v1, plane.v2, plane.v3});
-  const auto v1m = std::get<0>(v1mAndv2m);
-  const auto v2m = std::get<1>(v1mAndv2m);
-
-  float3 n12m = v1m - v2m;
-  n12m = n12m / fmaxf(norm(n12m), kEpsilon);
-
-  const bool check2 = abs(dot(n12m, normal)) < dEpsilon;
-
-  return (check1 && check2);
-}
-
 // Triangle is clipped into a quadrilateral
 // based on the intersection points with the plane.
 // Then the quadrilateral is divided into two triangles.
@@ -601,11 +498,13 @@ __device__ inline int ClipTriByPlaneTwoOut(
 // plane, creating new triangle faces where necessary.
 //
 // Args
-//    plane: Array of structs of type FaceVerts with the coordinates
+//    box_plane: Array of structs of type FaceVerts with the coordinates
 //       of the vertices of each of the triangles in the box
 //    tri: Array of structs of type FaceVerts with the vertex
 //       coordinates of the triangle faces
 //    normal: float3 of the direction of the plane normal
+//    margin: distance by which the plane is moved outwards if the triangle is
+//       (almost) parallel to it.
 //    face_verts_out: Array of structs of type FaceVerts,
 //       with the coordinates of the new triangle faces
 //       formed after clipping.
@@ -618,28 +517,33 @@ __device__ inline int ClipTriByPlaneTwoOut(
 //
 template <typename FaceVertsBox>
 __device__ inline int ClipTriByPlane(
-    const FaceVerts& plane,
+    const FaceVerts& box_plane,
     const FaceVerts& tri,
     const float3& normal,
+    const float margin,
     FaceVertsBox& face_verts_out) {
   // Get Triangle vertices
   const float3 v0 = tri.v0;
   const float3 v1 = tri.v1;
   const float3 v2 = tri.v2;
 
+  // A triangle which coincides with the plane should be kept by one of the two
+  // boxes only, despite rounding.
+  FaceVerts plane = box_plane;
+  const float3 tri_n = FaceNormal({v0, v1, v2});
+  if (abs(dot(tri_n, normal)) > 1 - dEpsilon) {
+    const float3 offset = margin * normal;
+    plane.v0 = plane.v0 - offset;
+    plane.v1 = plane.v1 - offset;
+    plane.v2 = plane.v2 - offset;
+    plane.v3 = plane.v3 - offset;
+  }
+
   // Check each of the triangle vertices to see if it is inside the plane
   const bool isin0 = IsInside(plane, normal, v0);
   const bool isin1 = IsInside(plane, normal, v1);
   const bool isin2 = IsInside(plane, normal, v2);
 
-  // Check coplanar
-  const bool iscoplanar = IsCoplanarTriPlane(tri, plane, normal);
-  if (iscoplanar) {
-    // Return input vertices
-    face_verts_out[0] = {v0, v1, v2};
-    return 1;
-  }
-
   // All in
   if (isin0 && isin1 && isin2) {
     // Return input vertices
@@ -687,6 +591,8 @@ __device__ inline int ClipTriByPlane(
 //       of the vertices of each of the triangles in the box
 //    center: float3 coordinates of the center of the box from which
 //        the planes originate
+//    margin: distance by which the planes are moved outwards for the triangles
+//        (almost) parallel to them.
 //    face_verts_out: Array of structs of type FaceVerts,
 //       where the coordinates of the new triangle faces
 //       formed after clipping will be saved to.
@@ -701,6 +607,7 @@ template <typename FaceVertsPlane, typename FaceVertsBox>
 __device__ inline int BoxIntersections(
     const FaceVertsPlane& planes,
     const float3& center,
+    const float margin,
     FaceVertsBox& face_verts_out) {
   // Initialize num tris to 12
   int num_tris = NUM_TRIS;
@@ -717,7 +624,7 @@ __device__ inline int BoxIntersections(
       // Clip tri by plane, can max be split into 2 triangles
       FaceVerts tri_updated[2];
       const int count =
-          ClipTriByPlane(planes[p], face_verts_out[t], n2, tri_updated);
+          ClipTriByPlane(planes[p], face_verts_out[t], n2, margin, tri_updated);
       // Add to the tri_verts_updated output if not empty
       for (int v = 0; v < count; ++v) {
         tri_verts_updated[offset] = tri_updated[v];
diff --git a/pytorch3d/csrc/iou_box3d/iou_utils.h b/pytorch3d/csrc/iou_box3d/iou_utils.h
index 283822a..145ec73 100644
--- a/pytorch3d/csrc/iou_box3d/iou_utils.h
+++ b/pytorch3d/csrc/iou_box3d/iou_utils.h
@@ -19,12 +19,13 @@
 #include "utils/vec3.h"
 
 // dEpsilon: Used in dot products and is used to assess whether two unit vectors
-// are orthogonal (or coplanar). It's an epsilon on cos(θ).
-// With dEpsilon = 0.001, two unit vectors are considered co-planar
+// are parallel. It's an epsilon on cos(θ).
+// With dEpsilon = 0.001, two unit vectors are considered parallel
 // if their θ = 2.5 deg.
 const auto dEpsilon = 1e-3;
-// aEpsilon: Used once in main function to check for small face areas
-const auto aEpsilon = 1e-4;
+// mEpsilon: faces of the two boxes which are closer than mEpsilon times the
+// size of the boxes are considered coplanar
+const auto mEpsilon = 1e-4;
 // kEpsilon: Used only for norm(u) = u/max(||u||, kEpsilon)
 const auto kEpsilon = 1e-8;
 
@@ -442,118 +443,19 @@ inline vec3<float> PlaneEdgeIntersection(
   // We want to find a such that p is on plane
   // <p - ctr, n> = 0
 
-  vec3<float> direc = p1 - p0;
-  direc = direc / std::fmaxf(norm(direc), kEpsilon);
-
   vec3<float> p = (p1 + p0) / 2.0f;
 
-  if (std::abs(dot(direc, normal)) >= dEpsilon) {
+  // p0 and p1 are on different sides of the plane, also when the edge is almost
+  // parallel to it.
+  const float bot = dot(p1 - p0, normal);
+  if (bot != 0.0f) {
     const float top = -1.0f * dot(p0 - plane_ctr, normal);
-    const float bot = dot(p1 - p0, normal);
-    const float a = top / bot;
+    const float a = std::fminf(std::fmaxf(top / bot, 0.0f), 1.0f);
     p = p0 + a * (p1 - p0);
   }
   return p;
 }
 
-// Compute the most distant points between two sets of vertices
-//
-// Args
-//    verts1, verts2: vec3 defining the list of vertices
-//
-// Returns
-//    v1m, v2m: vec3 vectors of the most distant points
-//          in verts1 and verts2 respectively
-//
-inline std::tuple<vec3<float>, vec3<float>> ArgMaxVerts(
-    const std::vector<vec3<float>>& verts1,
-    const std::vector<vec3<float>>& verts2) {
-  vec3<float> v1m = {0.0f, 0.0f, 0.0f};
-  vec3<float> v2m = {0.0f, 0.0f, 0.0f};
-  float maxdist = -1.0f;
-
-  for (const auto& v1 : verts1) {
-    for (const auto& v2 : verts2) {
-      if (norm(v1 - v2) > maxdist) {
-        v1m = v1;
-        v2m = v2;
-        maxdist = norm(v1 - v2);
-      }
-    }
-  }
-  return std::make_tuple(v1m, v2m);
-}
-
-// Compute a boolean indicator for whether or not two faces
-// are coplanar
-//
-// Args
-//    tri1, tri2: std:vector<vec3> of the vertex coordinates of
-//        triangle faces
-//
-// Returns
-//    bool: whether or not the two faces are coplanar
-//
-inline bool IsCoplanarTriTri(
-    const std::vector<vec3<float>>& tri1,
-    const std::vector<vec3<float>>& tri2) {
-  // Get normal for tri 1
-  const vec3<float> n1 = TriNormal(tri1);
-
-  // Get normal for tri 2
-  const vec3<float> n2 = TriNormal(tri2);
-
-  // Check if parallel
-  const bool check1 = std::abs(dot(n1, n2)) > 1 - dEpsilon;
-
-  // Compute most distant points
-  auto argvs = ArgMaxVerts(tri1, tri2);
-  const auto v1m = std::get<0>(argvs);
-  const auto v2m = std::get<1>(argvs);
-
-  vec3<float> n12m = v1m - v2m;
-  n12m = n12m / std::fmaxf(norm(n12m), kEpsilon);
-
-  const bool check2 = (std::abs(dot(n12m, n1)) < dEpsilon) ||
-      (std::abs(dot(n12m, n2)) < dEpsilon);
-
-  return (check1 && check2);
-}
-
-// Compute a boolean indicator for whether or not a triangular and a planar
-// face are coplanar
-//
-// Args
-//    tri, plane: std:vector<vec3> of the vertex coordinates of
-//        triangular face and planar face
-//    normal: the normal direction of the plane pointing "inside"
-//
-// Returns
-//    bool: whether or not the two faces are coplanar
-//
-inline bool IsCoplanarTriPlane(
-    const std::vector<vec3<float>>& tri,
-    const std::vector<vec3<float>>& plane,
-    const vec3<float>& normal) {
-  // Get normal for tri
-  const vec3<float> nt = TriNormal(tri);
-
-  // check if parallel
-  const bool check1 = std::abs(dot(nt, normal)) > 1 - dEpsilon;
-
-  // Compute most distant points
-  auto argvs = ArgMaxVerts(tri, plane);
-  const auto v1m = std::get<0>(argvs);
-  const auto v2m = std::get<1>(argvs);
-
-  vec3<float> n12m = v1m - v2m;
-  n12m = n12m / std::fmaxf(norm(n12m), kEpsilon);
-
-  const bool check2 = std::abs(dot(n12m, normal)) < dEpsilon;
-
-  return (check1 && check2);
-}
-
 // Triangle is clipped into a quadrilateral
 // based on the intersection points with the plane.
 // Then the quadrilateral is divided into two triangles.
@@ -618,11 +520,13 @@ inline face_verts ClipTriByPlaneTwoOut(
 // plane, creating new triangle faces where necessary.
 //
 // Args
-//    plane: vector of vec3 coordinates of the
+//    box_plane: vector of vec3 coordinates of the
 //       vertices of each of the triangles in the box
 //    tri: std:vector<vec3> of the vertex coordinates of the
 //       triangle faces
 //    normal: vec3 of the direction of the plane normal
+//    margin: distance by which the plane is moved outwards if the triangle is
+//       (almost) parallel to it.
 //
 // Returns
 //    std::vector<std::vector<vec3>>: vector of vertex coordinates
@@ -630,20 +534,22 @@ inline face_verts ClipTriByPlaneTwoOut(
 //      All triangles are now "inside" the plane.
 //
 inline face_verts ClipTriByPlane(
-    const std::vector<vec3<float>>& plane,
+    const std::vector<vec3<float>>& box_plane,
     const std::vector<vec3<float>>& tri,
-    const vec3<float>& normal) {
+    const vec3<float>& normal,
+    const float margin) {
   // Get Triangle vertices
   const vec3<float> v0 = tri[0];
   const vec3<float> v1 = tri[1];
   const vec3<float> v2 = tri[2];
 
-  // Check coplanar
-  const bool iscoplanar = IsCoplanarTriPlane(tri, plane, normal);
-  if (iscoplanar) {
-    // Return input vertices
-    face_verts tris = {{v0, v1, v2}};
-    return tris;
+  // A triangle which coincides with the plane should be kept by one of the two
+  // boxes only, despite rounding.
+  std::vector<vec3<float>> plane = box_plane;
+  if (std::abs(dot(TriNormal(tri), normal)) > 1 - dEpsilon) {
+    for (auto& v : plane) {
+      v = v - margin * normal;
+    }
   }
 
   // Check each of the triangle vertices to see if it is inside the plane
@@ -700,6 +606,8 @@ inline face_verts ClipTriByPlane(
 //    planes: vertex coordinates of all the planes in the box
 //    center: vec3 coordinates of the center of the box from which
 //        the planes originate
+//    margin: distance by which the planes are moved outwards for the triangles
+//        (almost) parallel to them.
 //
 // Returns
 //    std::vector<std::vector<vec3>>> vector of vertex coordinates
@@ -709,7 +617,8 @@ inline face_verts ClipTriByPlane(
 inline face_verts BoxIntersections(
     const face_verts& tris,
     const face_verts& planes,
-    const vec3<float>& center) {
+    const vec3<float>& center,
+    const float margin) {
   // Create a new vector to avoid modifying in place
   face_verts out_tris = tris;
   for (int p = 0; p < NUM_PLANES; ++p) {
@@ -720,7 +629,8 @@ inline face_verts BoxIntersections(
     face_verts tri_verts_updated;
     for (int t = 0; t < out_tris.size(); ++t) {
       // Clip tri by plane
-      const face_verts tri_updated = ClipTriByPlane(planes[p], out_tris[t], n2);
+      const face_verts tri_updated =
+          ClipTriByPlane(planes[p], out_tris[t], n2, margin);
       // Add to the tri_verts_updated output if not empty
       for (int v = 0; v < tri_updated.size(); ++v) {
         tri_verts_updated.push_back(tri_updated[v]);
-- 
2.43.0


From e9be193105c30bfc8584d9310ff03b29bc5646a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 034/147] fix: corresponding_points_alignment squared the
 weights of the points

---
 pytorch3d/ops/points_alignment.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/ops/points_alignment.py b/pytorch3d/ops/points_alignment.py
index 1ae50cd..83bf517 100644
--- a/pytorch3d/ops/points_alignment.py
+++ b/pytorch3d/ops/points_alignment.py
@@ -337,11 +337,11 @@ def corresponding_points_alignment(
     # pyrefly: ignore [unsupported-operation]
     Yc = Yt - Ymu
 
+    Xc_weighted = Xc
     total_weight = torch.clamp(num_points, 1)
     # special handling for heterogeneous point clouds and/or input weights
     if weights is not None:
-        Xc *= weights[:, :, None]
-        Yc *= weights[:, :, None]
+        Xc_weighted = Xc * weights[:, :, None]
         total_weight = torch.clamp(weights.sum(1), eps)
 
     if (num_points < (dim + 1)).any():
@@ -351,7 +351,7 @@ def corresponding_points_alignment(
         )
 
     # compute the covariance XYcov between the point sets Xc, Yc
-    XYcov = torch.bmm(Xc.transpose(2, 1), Yc)
+    XYcov = torch.bmm(Xc_weighted.transpose(2, 1), Yc)
     XYcov = XYcov / total_weight[:, None, None]
 
     # decompose the covariance matrix XYcov
@@ -384,7 +384,7 @@ def corresponding_points_alignment(
     if estimate_scale:
         # estimate the scaling component of the transformation
         trace_ES = (torch.diagonal(E, dim1=1, dim2=2) * S).sum(1)
-        Xcov = (Xc * Xc).sum((1, 2)) / total_weight
+        Xcov = (Xc_weighted * Xc).sum((1, 2)) / total_weight
 
         # the scaling component
         s = trace_ES / torch.clamp(Xcov, eps)
-- 
2.43.0


From 1296b4e93cf40531022a23070746aa893a64ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 035/147] fix: iterative_closest_point aligned the padding of
 clouds of different sizes

---
 pytorch3d/ops/points_alignment.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/ops/points_alignment.py b/pytorch3d/ops/points_alignment.py
index 83bf517..693e19b 100644
--- a/pytorch3d/ops/points_alignment.py
+++ b/pytorch3d/ops/points_alignment.py
@@ -114,10 +114,8 @@ def iterative_closest_point(
         )
 
     # pyrefly: ignore [missing-attribute]
-    if ((num_points_Y < Yt.shape[1]).any() or (num_points_X < Xt.shape[1]).any()) and (
-        num_points_Y != num_points_X
-    ).any():
-        # we have a heterogeneous input (e.g. because X/Y is
+    if (num_points_X < Xt.shape[1]).any():
+        # we have a heterogeneous input (e.g. because X is
         # an instance of Pointclouds)
         mask_X = (
             torch.arange(size_X, dtype=torch.int64, device=Xt.device)[None]
-- 
2.43.0


From 164190682a4dbb75069036bff13230eae53c9872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 036/147] fix: extrinsics alignment of cameras could return a
 reflection

---
 pytorch3d/ops/cameras_alignment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/ops/cameras_alignment.py b/pytorch3d/ops/cameras_alignment.py
index 5986206..3d158cd 100644
--- a/pytorch3d/ops/cameras_alignment.py
+++ b/pytorch3d/ops/cameras_alignment.py
@@ -185,7 +185,10 @@ def _align_camera_extrinsics(
     #  Tensor, Module]` is not a function.
     RRcov = torch.bmm(cameras_src.R, cameras_tgt.R.transpose(2, 1)).mean(0)
     U, _, V = torch.svd(RRcov)
-    align_t_R = V @ U.t()
+    # flip the last singular vector if needed, so that R_A is not a reflection
+    flip = torch.ones_like(U[0])
+    flip[-1] = torch.det(V @ U.t()).sign()
+    align_t_R = (V * flip) @ U.t()
 
     """
     The translation + scale `T_A` and `s_A` is computed by finding
-- 
2.43.0


From 6e2a6d4f6780009cd2c9ca2cada67c303507a02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 037/147] fix: split the location of a point below the first
 voxel by rounding down when splatting to volumes

---
 .../points_to_volumes/points_to_volumes.cu    | 18 ++++++++++++------
 .../points_to_volumes_cpu.cpp                 | 19 +++++++++++++------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu b/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu
index 43d4ed5..2515036 100644
--- a/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu
+++ b/pytorch3d/csrc/points_to_volumes/points_to_volumes.cu
@@ -24,6 +24,12 @@ using at::RestrictPtrTraits;
 
 // Explanation of the calculation is in the cpp file.
 
+// As std::modf, but rounding down, also for negative t.
+static __device__ float SplitFloor(float t, float* whole) {
+  *whole = floorf(t);
+  return t - *whole;
+}
+
 // EightDirections(t) runs t(a,b,c) for every combination of boolean a, b, c.
 template <class T>
 static __device__ void EightDirections(T&& t) {
@@ -99,11 +105,11 @@ __global__ void PointsToVolumesForwardKernel(
       increment_location(x, y, z, 1);
     } else {
       float x = 0, y = 0, z = 0;
-      float rx = std::modf(
+      float rx = SplitFloor(
           (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-      float ry = std::modf(
+      float ry = SplitFloor(
           (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-      float rz = std::modf(
+      float rz = SplitFloor(
           (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
       auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
         float weight =
@@ -246,11 +252,11 @@ __global__ void PointsToVolumesBackwardKernel(
       increment_location(x, y, z, 1);
     } else {
       float x = 0, y = 0, z = 0;
-      float rx = std::modf(
+      float rx = SplitFloor(
           (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-      float ry = std::modf(
+      float ry = SplitFloor(
           (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-      float rz = std::modf(
+      float rz = SplitFloor(
           (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
       auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
         float weight_x = (up_x ? rx : 1 - rx);
diff --git a/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp b/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
index 1b9b5a0..576ef4a 100644
--- a/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
+++ b/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
@@ -31,6 +31,13 @@
 // This can be thought of as saying "location i" means the whole box from
 // (i-0.5) to (i+0.5)
 
+// As std::modf, but rounding down, also for negative t, which is a point
+// below location 0.
+static float SplitFloor(float t, float* whole) {
+  *whole = std::floor(t);
+  return t - *whole;
+}
+
 // EightDirections(t) runs t(a,b,c) for every combination of boolean a, b, c.
 template <class T>
 static void EightDirections(T&& t) {
@@ -129,11 +136,11 @@ void PointsToVolumesForwardCpu(
         // rx==0 means weight all on the lower bound, x, rx=1-eps means most
         // weight on x+1. Ditto for ry and yz.
         float x = 0, y = 0, z = 0;
-        float rx = std::modf(
+        float rx = SplitFloor(
             (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-        float ry = std::modf(
+        float ry = SplitFloor(
             (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-        float rz = std::modf(
+        float rz = SplitFloor(
             (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
         // Define how to fractionally increment one of the 8 locations around
         // the point.
@@ -262,11 +269,11 @@ void PointsToVolumesBackwardCpu(
         increment_location(x, y, z, 1);
       } else {
         float x = 0, y = 0, z = 0;
-        float rx = std::modf(
+        float rx = SplitFloor(
             (point[0] + 1) * 0.5 * (grid_size_x - scale_offset) - offset, &x);
-        float ry = std::modf(
+        float ry = SplitFloor(
             (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
-        float rz = std::modf(
+        float rz = SplitFloor(
             (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
         auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
           float weight_x = (up_x ? rx : 1 - rx);
-- 
2.43.0


From 363afce47c7465878c6d1a07cbba3b40f721b4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 038/147] fix: honour align_corners, rescale_features and
 padded volumes in the Python version of points_to_volumes

---
 pytorch3d/ops/points_to_volumes.py | 78 +++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 24 deletions(-)

diff --git a/pytorch3d/ops/points_to_volumes.py b/pytorch3d/ops/points_to_volumes.py
index d099cea..f912601 100644
--- a/pytorch3d/ops/points_to_volumes.py
+++ b/pytorch3d/ops/points_to_volumes.py
@@ -395,6 +395,8 @@ def add_points_features_to_volume_densities_features(
             mask=mask,
             # pyre-fixme[6]: For 8th param expected `LongTensor` but got `Tensor`.
             grid_sizes=grid_sizes,
+            rescale_features=rescale_features,
+            align_corners=align_corners,
         )
 
     if mode == "trilinear":
@@ -439,6 +441,8 @@ def _add_points_features_to_volume_densities_features_python(
     min_weight: float,
     mask: Optional[torch.Tensor],
     grid_sizes: torch.LongTensor,
+    rescale_features: bool = True,
+    align_corners: bool = True,
 ) -> Tuple[torch.Tensor, torch.Tensor]:
     """
     Python implementation for add_points_features_to_volume_densities_features.
@@ -471,6 +475,9 @@ def _add_points_features_to_volume_densities_features_python(
             grid_sizes,
             mask=mask,
             min_weight=min_weight,
+            rescale_features=rescale_features,
+            align_corners=align_corners,
+            volume_shape=v_shape,
         )
     elif mode == "nearest":  # nearest neighbor interp
         volume_features, volume_densities = _round_points_to_volumes(
@@ -480,6 +487,9 @@ def _add_points_features_to_volume_densities_features_python(
             volume_features_flatten,
             grid_sizes,
             mask=mask,
+            rescale_features=rescale_features,
+            align_corners=align_corners,
+            volume_shape=v_shape,
         )
     else:
         raise ValueError('No such interpolation mode "%s"' % mode)
@@ -525,6 +535,19 @@ def _check_points_to_volumes_inputs(
         )
 
 
+def _points_to_indices(
+    points_3d: torch.Tensor, grid_sizes_xyz: torch.Tensor, align_corners: bool
+) -> torch.Tensor:
+    """
+    Convert local coordinates in the range [-1, 1] to (fractional) voxel indices,
+    see the explanation in points_to_volumes_cpu.cpp.
+    """
+    grid_sizes_xyz = grid_sizes_xyz[:, None].type_as(points_3d)
+    if align_corners:
+        return ((points_3d + 1) * 0.5) * (grid_sizes_xyz - 1)
+    return ((points_3d + 1) * 0.5) * grid_sizes_xyz - 0.5
+
+
 def _splat_points_to_volumes(
     points_3d: torch.Tensor,
     points_features: torch.Tensor,
@@ -533,6 +556,10 @@ def _splat_points_to_volumes(
     grid_sizes: torch.LongTensor,
     min_weight: float = 1e-4,
     mask: Optional[torch.Tensor] = None,
+    rescale_features: bool = True,
+    align_corners: bool = True,
+    *,
+    volume_shape: Tuple[int, ...],
 ) -> Tuple[torch.Tensor, torch.Tensor]:
     """
     Convert a batch of point clouds to a batch of volumes using trilinear
@@ -553,13 +580,15 @@ def _splat_points_to_volumes(
             opaqueness (the higher, the less transparent).
         grid_sizes: `LongTensor` of shape (minibatch, 3) representing the
             spatial resolutions of each of the the non-flattened `volumes` tensors.
-            Note that the following has to hold:
-                `torch.prod(grid_sizes, dim=1)==N_voxels`
+            None of them can exceed `volume_shape`.
         min_weight: A scalar controlling the lowest possible total per-voxel
             weight used to normalize the features accumulated in a voxel.
         mask: A binary mask of shape `(minibatch, N)` determining which 3D points
             are going to be converted to the resulting volume.
             Set to `None` if all points are valid.
+        rescale_features: If False, the features are summed and not averaged.
+        align_corners: as for grid_sample.
+        volume_shape: The (depth, height, width) of the non-flattened tensors.
     Returns:
         volume_features: Output volume of shape `(minibatch, D, N_voxels)`.
         volume_densities: Occupancy volume of shape `(minibatch, 1, N_voxels)`
@@ -587,9 +616,8 @@ def _splat_points_to_volumes(
 
     # Convert from points_3d in the range [-1, 1] to
     # indices in the volume grid in the range [0, grid_sizes_xyz-1]
-    points_3d_indices = ((points_3d + 1) * 0.5) * (
-        grid_sizes_xyz[:, None].type_as(points_3d) - 1
-    )
+    # (or [-0.5, grid_sizes_xyz-0.5] without align_corners)
+    points_3d_indices = _points_to_indices(points_3d, grid_sizes_xyz, align_corners)
     XYZ = points_3d_indices.floor().long()
     rXYZ = points_3d_indices - XYZ.type_as(points_3d)  # remainder of floor
 
@@ -628,9 +656,7 @@ def _splat_points_to_volumes(
                 ).long()
 
                 # linearized indices into the volume
-                idx = (Z_ * grid_sizes[:, None, 1:2] + Y_) * grid_sizes[
-                    :, None, 2:3
-                ] + X_
+                idx = (Z_ * volume_shape[1] + Y_) * volume_shape[2] + X_
 
                 # out-of-bounds features added to a random voxel idx with weight=0.
                 idx_valid = idx * valid + rand_idx * (1 - valid)
@@ -654,10 +680,11 @@ def _splat_points_to_volumes(
                 # volume_features of shape (minibatch, feature_dim, n_voxels)
                 volume_features.scatter_add_(2, idx_valid, w_valid * points_features)
 
-    # divide each feature by the total weight of the votes
-    volume_features = volume_features / volume_densities.view(ba, 1, n_voxels).clamp(
-        min_weight
-    )
+    if rescale_features:
+        # divide each feature by the total weight of the votes
+        volume_features = volume_features / volume_densities.view(
+            ba, 1, n_voxels
+        ).clamp(min_weight)
 
     return volume_features, volume_densities
 
@@ -669,6 +696,10 @@ def _round_points_to_volumes(
     volume_features: torch.Tensor,
     grid_sizes: torch.LongTensor,
     mask: Optional[torch.Tensor] = None,
+    rescale_features: bool = True,
+    align_corners: bool = True,
+    *,
+    volume_shape: Tuple[int, ...],
 ) -> Tuple[torch.Tensor, torch.Tensor]:
     """
     Convert a batch of point clouds to a batch of volumes using rounding to the
@@ -690,11 +721,13 @@ def _round_points_to_volumes(
             opaqueness (the higher, the less transparent).
         grid_sizes: `LongTensor` of shape (minibatch, 3) representing the
             spatial resolutions of each of the the non-flattened `volumes` tensors.
-            Note that the following has to hold:
-                `torch.prod(grid_sizes, dim=1)==N_voxels`
+            None of them can exceed `volume_shape`.
         mask: A binary mask of shape `(minibatch, N)` determining which 3D points
             are going to be converted to the resulting volume.
             Set to `None` if all points are valid.
+        rescale_features: If False, the features are summed and not averaged.
+        align_corners: as for grid_sample.
+        volume_shape: The (depth, height, width) of the non-flattened tensors.
     Returns:
         volume_features: Output volume of shape `(minibatch, D, N_voxels)`.
         volume_densities: Occupancy volume of shape `(minibatch, 1, N_voxels)`
@@ -719,17 +752,13 @@ def _round_points_to_volumes(
     # round the coordinates to nearest integer
     # grid_sizes is of the form (minibatch, depth-height-width)
     grid_sizes_xyz = grid_sizes[:, [2, 1, 0]]
-    XYZ = ((points_3d.detach() + 1) * 0.5) * (
-        grid_sizes_xyz[:, None].type_as(points_3d) - 1
-    )
+    XYZ = _points_to_indices(points_3d.detach(), grid_sizes_xyz, align_corners)
     XYZ = torch.round(XYZ).long()
 
     # split into separate coordinate vectors
     X, Y, Z = XYZ.split(1, dim=2)
 
     # valid - binary indicators of votes that fall into the volume
-    # pyre-fixme[9]: grid_sizes has type `LongTensor`; used as `Tensor`.
-    grid_sizes = grid_sizes.type_as(XYZ)
     # pyre-fixme[16]: `int` has no attribute `long`.
     valid = (
         (0 <= X)
@@ -746,7 +775,7 @@ def _round_points_to_volumes(
     rand_idx = valid.new_zeros(X.shape).random_(0, n_voxels)
 
     # linearized indices into the volume
-    idx = (Z * grid_sizes[:, None, 1:2] + Y) * grid_sizes[:, None, 2:3] + X
+    idx = (Z * volume_shape[1] + Y) * volume_shape[2] + X
 
     # out-of-bounds features added to a random voxel idx with weight=0.
     idx_valid = idx * valid + rand_idx * (1 - valid)
@@ -763,9 +792,10 @@ def _round_points_to_volumes(
     # volume_features of shape (minibatch, feature_dim, n_voxels)
     volume_features.scatter_add_(2, idx_valid, w_valid * points_features)
 
-    # divide each feature by the total weight of the votes
-    volume_features = volume_features / volume_densities.view(ba, 1, n_voxels).clamp(
-        1.0
-    )
+    if rescale_features:
+        # divide each feature by the total weight of the votes
+        volume_features = volume_features / volume_densities.view(
+            ba, 1, n_voxels
+        ).clamp(1.0)
 
     return volume_features, volume_densities
-- 
2.43.0


From 2f7258844b8068c647c33a2b3ea73f3ace672207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 039/147] fix: create the volume features in points_to_volumes
 when they are None, as documented

---
 pytorch3d/ops/points_to_volumes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytorch3d/ops/points_to_volumes.py b/pytorch3d/ops/points_to_volumes.py
index f912601..13fbbc5 100644
--- a/pytorch3d/ops/points_to_volumes.py
+++ b/pytorch3d/ops/points_to_volumes.py
@@ -409,6 +409,11 @@ def add_points_features_to_volume_densities_features(
     if mask is None:
         mask = points_3d.new_ones(1).expand(points_3d.shape[:2])
 
+    if volume_features is None:
+        volume_features = volume_densities.new_zeros(
+            ba, feature_dim, *volume_densities.shape[2:]
+        )
+
     volume_densities, volume_features = _points_to_volumes(
         points_3d,
         points_features,
-- 
2.43.0


From b4fed9b9ae550a6e6d745403b154a52801f1e35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 040/147] fix: sample textures from a batch with empty meshes,
 as documented

---
 pytorch3d/ops/sample_points_from_meshes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/ops/sample_points_from_meshes.py b/pytorch3d/ops/sample_points_from_meshes.py
index e545cac..7a46a3e 100644
--- a/pytorch3d/ops/sample_points_from_meshes.py
+++ b/pytorch3d/ops/sample_points_from_meshes.py
@@ -125,8 +125,11 @@ def sample_points_from_meshes(
 
     if return_textures:
         # fragment data are of shape NxHxWxK. Here H=S, W=1 & K=1.
-        pix_to_face = sample_face_idxs.view(len(meshes), num_samples, 1, 1)  # NxSx1x1
-        bary = torch.stack((w0, w1, w2), dim=2).unsqueeze(2).unsqueeze(2)  # NxSx1x1x3
+        # There are no samples on the empty meshes.
+        pix_to_face = sample_face_idxs.new_full((num_meshes, num_samples, 1, 1), -1)
+        pix_to_face[meshes.valid] = sample_face_idxs[:, :, None, None]  # NxSx1x1
+        bary = verts.new_zeros((num_meshes, num_samples, 1, 1, 3))
+        bary[meshes.valid] = torch.stack((w0, w1, w2), dim=2)[:, :, None, None]
         # zbuf and dists are not used in `sample_textures` so we initialize them with dummy
         dummy = torch.zeros(
             (len(meshes), num_samples, 1, 1), device=meshes.device, dtype=torch.float32
@@ -136,6 +139,7 @@ def sample_points_from_meshes(
         )
         textures = meshes.sample_textures(fragments)  # NxSx1x1xC
         textures = textures[:, :, 0, 0, :]  # NxSxC
+        textures = textures.masked_fill(~meshes.valid[:, None, None], 0.0)
 
     # return
     # TODO(gkioxari) consider returning a Pointclouds instance [breaking]
-- 
2.43.0


From 042d6f737b32acc7c917137eac9121ee3c24d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 041/147] fix: keep vertices without neighbors in
 taubin_smoothing instead of making them NaN

---
 pytorch3d/ops/mesh_filtering.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/ops/mesh_filtering.py b/pytorch3d/ops/mesh_filtering.py
index d8f2943..008c136 100644
--- a/pytorch3d/ops/mesh_filtering.py
+++ b/pytorch3d/ops/mesh_filtering.py
@@ -47,16 +47,23 @@ def taubin_smoothing(
     edges = meshes.edges_packed()  # E x 3
 
     for _ in range(num_iter):
-        L = norm_laplacian(verts, edges)
-        total_weight = torch.sparse.sum(L, dim=1).to_dense().view(-1, 1)
-        verts = (1 - lambd) * verts + lambd * torch.mm(L, verts) / total_weight
-
-        L = norm_laplacian(verts, edges)
-        total_weight = torch.sparse.sum(L, dim=1).to_dense().view(-1, 1)
-        verts = (1 - mu) * verts + mu * torch.mm(L, verts) / total_weight
+        verts = (1 - lambd) * verts + lambd * _neighbors_mean(verts, edges)
+        verts = (1 - mu) * verts + mu * _neighbors_mean(verts, edges)
 
     verts_list = struct_utils.packed_to_list(
         verts, meshes.num_verts_per_mesh().tolist()
     )
     mesh = Meshes(verts=list(verts_list), faces=meshes.faces_list())
     return mesh
+
+
+def _neighbors_mean(verts: torch.Tensor, edges: torch.Tensor) -> torch.Tensor:
+    """
+    Weighted mean of the neighbors of each vertex, or the vertex itself
+    if it has no neighbors.
+    """
+    L = norm_laplacian(verts, edges)
+    total_weight = torch.sparse.sum(L, dim=1).to_dense().view(-1, 1)
+    isolated = total_weight == 0
+    mean = torch.mm(L, verts) / total_weight.masked_fill(isolated, 1.0)
+    return torch.where(isolated, verts, mean)
-- 
2.43.0


From eed57c9dac458897fe6be19d7b6efb7c1c0a87f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 042/147] fix: resolve negative indices of an obj file relative
 to their own line, as the format defines

---
 pytorch3d/io/obj_io.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/io/obj_io.py b/pytorch3d/io/obj_io.py
index e1862fc..0183c24 100644
--- a/pytorch3d/io/obj_io.py
+++ b/pytorch3d/io/obj_io.py
@@ -39,6 +39,7 @@ def _format_faces_indices(faces_indices, max_index: int, device, pad_value=None)
     """
     Format indices and check for invalid values. Indices can refer to
     values in one of the face properties: vertices, textures or normals.
+    Relative (negative) indices have been resolved by _parse_face.
     See comments of the load_obj function for more details.
 
     Args:
@@ -65,9 +66,6 @@ def _format_faces_indices(faces_indices, max_index: int, device, pad_value=None)
     # Change to 0 based indexing.
     faces_indices[(faces_indices > 0)] -= 1
 
-    # Negative indexing counts from the end.
-    faces_indices[(faces_indices < 0)] += max_index
-
     if pad_value is not None:
         # pyre-fixme[61]: `mask` is undefined, or not always defined.
         faces_indices[mask] = pad_value
@@ -363,9 +361,26 @@ class MeshObjFormat(MeshFormatInterpreter):
         return True
 
 
+def _absolute_index(token: str, count: int) -> int:
+    """
+    Return the 1-based index that a face element refers to. Negative indices
+    count back from the last of the `count` values defined so far.
+    """
+    index = int(token)
+    if index >= 0:
+        return index
+    if count + index < 0:
+        raise ValueError(
+            "Face has relative index %d but only %d values are defined before it."
+            % (index, count)
+        )
+    return count + index + 1
+
+
 def _parse_face(
     line,
     tokens,
+    counts,
     material_idx,
     faces_verts_idx,
     faces_normals_idx,
@@ -380,14 +395,14 @@ def _parse_face(
 
     for vert_props in face_list:
         # Vertex index.
-        face_verts.append(int(vert_props[0]))
+        face_verts.append(_absolute_index(vert_props[0], counts[0]))
         if len(vert_props) > 1:
             if vert_props[1] != "":
                 # Texture index is present e.g. f 4/1/1.
-                face_textures.append(int(vert_props[1]))
+                face_textures.append(_absolute_index(vert_props[1], counts[1]))
             if len(vert_props) > 2:
                 # Normal index present e.g. 4/1/1 or 4//1.
-                face_normals.append(int(vert_props[2]))
+                face_normals.append(_absolute_index(vert_props[2], counts[2]))
             if len(vert_props) > 3:
                 raise ValueError(
                     "Face vertices can only have 3 properties. \
@@ -497,6 +512,7 @@ def _parse_obj(f, data_dir: str):
             _parse_face(
                 line,
                 tokens,
+                (len(verts), len(verts_uvs), len(normals)),
                 materials_idx,
                 faces_verts_idx,
                 faces_normals_idx,
-- 
2.43.0


From 8ce3560b1f3cb1a5ff1a5736fabc7348c1edff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 043/147] fix: accept any white space between the keyword and
 the values of obj and mtl lines

---
 pytorch3d/io/mtl_io.py |  2 +-
 pytorch3d/io/obj_io.py | 16 +++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pytorch3d/io/mtl_io.py b/pytorch3d/io/mtl_io.py
index 41e32bb..95d333b 100644
--- a/pytorch3d/io/mtl_io.py
+++ b/pytorch3d/io/mtl_io.py
@@ -422,7 +422,7 @@ def _parse_mtl(
             elif tokens[0] == "map_Kd":
                 # Diffuse texture map
                 # Account for the case where filenames might have spaces
-                filename = line.strip()[7:]
+                filename = line.strip()[len(tokens[0]) :].strip()
                 texture_files[material_name] = filename
             elif tokens[0] == "Kd":
                 # RGB diffuse reflectivity
diff --git a/pytorch3d/io/obj_io.py b/pytorch3d/io/obj_io.py
index 0183c24..e33b1b4 100644
--- a/pytorch3d/io/obj_io.py
+++ b/pytorch3d/io/obj_io.py
@@ -470,8 +470,10 @@ def _parse_obj(f, data_dir: str):
     materials_idx = -1
 
     for line in lines:
-        tokens = line.strip().split()
-        if line.startswith("mtllib"):
+        tokens = line.split()
+        if not tokens:
+            continue
+        if tokens[0] == "mtllib":
             if len(tokens) < 2:
                 raise ValueError("material file name is not specified")
             # NOTE: only allow one .mtl file per .obj.
@@ -479,7 +481,7 @@ def _parse_obj(f, data_dir: str):
             # in this one .mtl file.
             mtl_path = line[len(tokens[0]) :].strip()  # Take the remainder of the line
             mtl_path = os.path.join(data_dir, mtl_path)
-        elif len(tokens) and tokens[0] == "usemtl":
+        elif tokens[0] == "usemtl":
             material_name = tokens[1]
             # materials are often repeated for different parts
             # of a mesh.
@@ -488,26 +490,26 @@ def _parse_obj(f, data_dir: str):
                 materials_idx = len(material_names) - 1
             else:
                 materials_idx = material_names.index(material_name)
-        elif line.startswith("v "):  # Line is a vertex.
+        elif tokens[0] == "v":  # Line is a vertex.
             vert = [float(x) for x in tokens[1:4]]
             if len(vert) != 3:
                 msg = "Vertex %s does not have 3 values. Line: %s"
                 raise ValueError(msg % (str(vert), str(line)))
             verts.append(vert)
-        elif line.startswith("vt "):  # Line is a texture.
+        elif tokens[0] == "vt":  # Line is a texture.
             tx = [float(x) for x in tokens[1:3]]
             if len(tx) != 2:
                 raise ValueError(
                     "Texture %s does not have 2 values. Line: %s" % (str(tx), str(line))
                 )
             verts_uvs.append(tx)
-        elif line.startswith("vn "):  # Line is a normal.
+        elif tokens[0] == "vn":  # Line is a normal.
             norm = [float(x) for x in tokens[1:4]]
             if len(norm) != 3:
                 msg = "Normal %s does not have 3 values. Line: %s"
                 raise ValueError(msg % (str(norm), str(line)))
             normals.append(norm)
-        elif line.startswith("f "):  # Line is a face.
+        elif tokens[0] == "f":  # Line is a face.
             # Update face properties info.
             _parse_face(
                 line,
-- 
2.43.0


From a6259a8573d698372b1dc0535848cd4fb5ad29b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 044/147] fix: save_mesh ignored include_textures

---
 pytorch3d/io/pluggable.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytorch3d/io/pluggable.py b/pytorch3d/io/pluggable.py
index 4e9951a..cb28164 100644
--- a/pytorch3d/io/pluggable.py
+++ b/pytorch3d/io/pluggable.py
@@ -8,6 +8,7 @@
 
 
 from collections import deque
+from copy import copy
 from pathlib import Path
 from typing import Deque, Optional, Union
 
@@ -163,6 +164,10 @@ class IO:
         if len(data) != 1:
             raise ValueError("Can only save a single mesh.")
 
+        if not include_textures and data.textures is not None:
+            data = copy(data)
+            data.textures = None
+
         for mesh_interpreter in self.mesh_interpreters:
             success = mesh_interpreter.save(
                 data, path, path_manager=self.path_manager, binary=binary, **kwargs
-- 
2.43.0


From 51894c18a938a3eb83652e845d0c929b37beb309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 045/147] fix: save the texture of an obj file through the path
 manager

---
 pytorch3d/io/obj_io.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/io/obj_io.py b/pytorch3d/io/obj_io.py
index e33b1b4..338b986 100644
--- a/pytorch3d/io/obj_io.py
+++ b/pytorch3d/io/obj_io.py
@@ -777,6 +777,7 @@ def save_obj(
         path_manager = PathManager()
 
     save_texture = all(t is not None for t in [faces_uvs, verts_uvs, texture_map])
+    output_name = f
     output_path = Path(f)
 
     # Save the .obj file
@@ -805,10 +806,11 @@ def save_obj(
     if save_texture:
         image_path = output_path.with_suffix(".png")
         mtl_path = output_path.with_suffix(".mtl")
-        if isinstance(f, str):
-            # Back to str for iopath interpretation.
-            image_path = str(image_path)
-            mtl_path = str(mtl_path)
+        if isinstance(output_name, str):
+            # Still str for iopath interpretation.
+            base = os.path.splitext(output_name)[0]
+            image_path = base + ".png"
+            mtl_path = base + ".mtl"
 
         # Save texture map to output folder
         # pyre-fixme[16] # undefined attribute cpu
-- 
2.43.0


From 92359aa1956b7e71f80c7748ed620a41e39707c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 046/147] fix: list_to_padded failed on a list of empty
 tensors, e.g. the texture of an empty mesh

---
 pytorch3d/structures/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/structures/utils.py b/pytorch3d/structures/utils.py
index 6c0c4f7..1ade431 100644
--- a/pytorch3d/structures/utils.py
+++ b/pytorch3d/structures/utils.py
@@ -62,9 +62,9 @@ def list_to_padded(
         raise ValueError("All items have to have the same number of dimensions!")
 
     if pad_size is None:
-        pad_dims = [
-            max(y.shape[dim] for y in x if len(y) > 0) for dim in range(x[0].ndim)
-        ]
+        # items without elements only matter if there are no others
+        sized = [y for y in x if len(y) > 0] or x
+        pad_dims = [max(y.shape[dim] for y in sized) for dim in range(x[0].ndim)]
     else:
         if any(len(pad_size) != y.ndim for y in x):
             raise ValueError("Pad size must contain target size for all dimensions.")
-- 
2.43.0


From 03fa5e918d8af0333972acfb84da1f37cec5744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 047/147] fix: read off files without vertices, which saving an
 empty mesh produces

---
 pytorch3d/io/off_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index 0ef4049..c310c8e 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -180,6 +180,9 @@ def _read_verts(file, n_verts: int) -> Tuple[np.ndarray, Optional[np.ndarray]]:
         vertex colors.
     """
 
+    if n_verts == 0:
+        return np.zeros((0, 3), dtype=np.float32), None
+
     color_is_int = 3 == _count_next_line_periods(file)
     color_scale = 1 / 255.0 if color_is_int else 1
 
-- 
2.43.0


From 88fccb5b1497098af843d11765cd2982bf43ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 048/147] fix: accept comments at the end of off files

---
 pytorch3d/io/off_io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index c310c8e..bde20eb 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -265,9 +265,11 @@ def _load_off_stream(file) -> dict:
     verts, verts_colors = _read_verts(file, n_verts)
     faces, faces_colors = _read_faces(file, n_faces)
 
-    end = file.read().strip()
-    if len(end) != 0:
-        raise ValueError("Extra data at end of file: " + str(end[:20]))
+    end = file.readline()
+    while end:
+        if not _is_line_empty(end):
+            raise ValueError("Extra data at end of file: " + str(end.strip()[:20]))
+        end = file.readline()
 
     out = {"verts": verts}
     if verts_colors is not None:
-- 
2.43.0


From f95ddb33f9324d6669eeeca93450fffd964d7cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 049/147] fix: loading an off file that ends within its header
 never returned

---
 pytorch3d/io/off_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index bde20eb..7710a4d 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -239,12 +239,16 @@ def _load_off_stream(file) -> dict:
 
     while _is_line_empty(header):
         header = file.readline()
+        if len(header) == 0:
+            raise ValueError("Premature end of file")
 
     if header[:3].lower() == b"off":
         header = header[3:]
 
     while _is_line_empty(header):
         header = file.readline()
+        if len(header) == 0:
+            raise ValueError("Premature end of file")
 
     items = header.split()
     if len(items) < 3:
-- 
2.43.0


From 89427f610c9d1f8f7fa19194b2dec9fa8f35cfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 050/147] fix: ascii ply files could not be read from text
 files, only from text streams in memory

---
 pytorch3d/io/ply_io.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index ec517b2..675d75f 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -250,6 +250,17 @@ class _PlyHeader:
         self.elements.append(_PlyElementType(items[1], count))
 
 
+def _lines(f):
+    """
+    Iterate over the lines of f with readline(), because iterating over
+    a text file itself makes its tell() unusable.
+    """
+    line = f.readline()
+    while line:
+        yield line
+        line = f.readline()
+
+
 def _read_ply_fixed_size_element_ascii(f, definition: _PlyElementType):
     """
     Given an element which has no lists and one type, read the
@@ -277,7 +288,11 @@ def _read_ply_fixed_size_element_ascii(f, definition: _PlyElementType):
             "ignore", message=".* Empty input file.*", category=UserWarning
         )
         data = np.loadtxt(
-            f, dtype=np_type, comments=None, ndmin=2, max_rows=definition.count
+            _lines(f),
+            dtype=np_type,
+            comments=None,
+            ndmin=2,
+            max_rows=definition.count,
         )
     if not len(data):  # np.loadtxt() seeks even on empty data
         f.seek(old_offset)
@@ -320,7 +335,11 @@ def _read_ply_nolist_element_ascii(f, definition: _PlyElementType):
             "ignore", message=".* Empty input file.*", category=UserWarning
         )
         data = np.loadtxt(
-            f, dtype=np.float64, comments=None, ndmin=2, max_rows=definition.count
+            _lines(f),
+            dtype=np.float64,
+            comments=None,
+            ndmin=2,
+            max_rows=definition.count,
         )
     if not len(data):  # np.loadtxt() seeks even on empty data
         f.seek(old_offset)
@@ -383,7 +402,11 @@ def _try_read_ply_constant_list_ascii(f, definition: _PlyElementType):
                 "ignore", message=".* Empty input file.*", category=UserWarning
             )
             data = np.loadtxt(
-                f, dtype=np_type, comments=None, ndmin=2, max_rows=definition.count
+                _lines(f),
+                dtype=np_type,
+                comments=None,
+                ndmin=2,
+                max_rows=definition.count,
             )
     except ValueError:
         f.seek(old_offset)
-- 
2.43.0


From 23d7ea2015e7f6bafab72b43641e2e146dd0c37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 051/147] fix: ply files with only coordinates were read as if
 they were ordered x, y, z

---
 pytorch3d/io/ply_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index 675d75f..898fed6 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -964,6 +964,7 @@ def _get_verts(header: _PlyHeader, elements: dict) -> _VertsData:
         and isinstance(vertex[0], np.ndarray)
         and vertex[0].ndim == 2
         and vertex[0].shape[1] == 3
+        and column_idxs.point_idxs == [0, 1, 2]
     ):
         return _VertsData(verts=_make_tensor(vertex[0], cols=3, dtype=torch.float32))
 
-- 
2.43.0


From da315df6dda5a11506cad4c80a0b70c3feeb9307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 052/147] fix: read float32 and float64 values next to lists in
 ascii ply files

---
 pytorch3d/io/ply_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index 898fed6..0ddef56 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -437,7 +437,7 @@ def _parse_heterogeneous_property_ascii(datum, line_iter, property: _Property):
         raise ValueError("Too little data for an element.")
     if property.list_size_type is None:
         try:
-            if property.data_type in ["double", "float"]:
+            if property.data_type in ["double", "float", "float32", "float64"]:
                 datum.append(float(value))
             else:
                 datum.append(int(value))
-- 
2.43.0


From b4db9e1d41e385f03ca0bf2551d90d73bba681ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 053/147] fix: loading a ply file that ends within its header
 never returned

---
 pytorch3d/io/ply_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index 0ddef56..ee1a00b 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -161,6 +161,8 @@ class _PlyHeader:
         self.obj_info: List[str] = []
         while True:
             line = f.readline()
+            if len(line) == 0:
+                raise ValueError("Premature end of file in the header.")
             if isinstance(line, bytes):
                 line = line.decode("ascii")
             line = line.strip()
-- 
2.43.0


From e0ad90dfc5f0e8aa576f37fcb9391633087dafa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 054/147] fix: node matrices of glTF files were transposed

---
 pytorch3d/io/experimental_gltf_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 2073d12..58b9a0e 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -176,7 +176,8 @@ def _make_node_transform(node: Dict[str, Any]) -> Transform3d:
     """
     array = node.get("matrix")
     if array is not None:  # Stored in column-major order
-        M = np.array(array, dtype=np.float32).reshape(4, 4, order="F")
+        # Stored by columns, for column vectors; Transform3d has row vectors.
+        M = np.array(array, dtype=np.float32).reshape(4, 4)
         return Transform3d(matrix=torch.from_numpy(M))
 
     out = Transform3d()
-- 
2.43.0


From d19a7d8acd66081010af7cb12c8869d05d5d1fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 055/147] fix: bounds of interleaved accessors of glTF files

---
 pytorch3d/io/experimental_gltf_io.py | 32 ++++++++++++++--------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 58b9a0e..654aea7 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -313,10 +313,6 @@ class _GLTFLoader:
         item_dtype = np.dtype(item_type)
         item_count = np.prod(element_shape)
         item_size = item_dtype.itemsize
-        size = element_count * item_count * item_size
-        if size > buffer_byte_length:
-            raise ValueError("Buffer did not have enough data for the accessor")
-
         buffer_ = self._buffers[buffer_index]
         binary_data = self.get_binary_data(buffer_index)
         if len(binary_data) < buffer_["byteLength"]:
@@ -328,22 +324,26 @@ class _GLTFLoader:
         if element_byte_stride < item_size * item_count:
             raise ValueError("Items should not overlap")
 
-        dtype = np.dtype(
-            {
-                "names": ["element"],
-                "formats": [str(element_shape) + item_dtype.str],
-                "offsets": [0],
-                "itemsize": element_byte_stride,
-            }
-        )
+        # The last element need not be followed by the rest of its stride
+        byte_length = item_size * item_count
+        if element_count > 0:
+            byte_length += (element_count - 1) * element_byte_stride
+        if accessor_byte_offset + byte_length > buffer_byte_length:
+            raise ValueError("Buffer did not have enough data for the accessor")
 
         byte_offset = accessor_byte_offset + element_byte_offset
         if byte_offset % item_size != 0:
             raise ValueError("Misaligned data")
-        byte_length = element_count * element_byte_stride
-        buffer_view = binary_data[byte_offset : byte_offset + byte_length].view(dtype)[
-            "element"
-        ]
+        if byte_offset + byte_length > len(binary_data):
+            raise ValueError("Not enough binary data for the accessor")
+        item_strides = np.empty(element_shape, dtype=item_dtype).strides
+        buffer_view = np.ndarray(
+            shape=(element_count, *element_shape),
+            dtype=item_dtype,
+            buffer=binary_data,
+            offset=byte_offset,
+            strides=(int(element_byte_stride), *item_strides),
+        )
 
         # Convert matrix data from column-major (OpenGL) to row-major order
         if element_type in ("MAT2", "MAT3", "MAT4"):
-- 
2.43.0


From 940450685c4c64b8858370171947925761ee18c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 056/147] fix: scale normalized integer colors and texture
 coordinates of glTF files

---
 pytorch3d/io/experimental_gltf_io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 654aea7..b9757ce 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -360,12 +360,12 @@ class _GLTFLoader:
         primitive_attribute = self._access_data(accessor_index)
         if key == "JOINTS_0":
             pass
-        elif dtype == np.uint8:
-            primitive_attribute /= 255.0
-        elif dtype == np.uint16:
-            primitive_attribute /= 65535.0
+        elif primitive_attribute.dtype == np.uint8:
+            primitive_attribute = primitive_attribute / 255.0
+        elif primitive_attribute.dtype == np.uint16:
+            primitive_attribute = primitive_attribute / 65535.0
         else:
-            if dtype != np.float32:
+            if primitive_attribute.dtype != np.float32:
                 raise ValueError("Unexpected data type")
         primitive_attribute = primitive_attribute.astype(dtype)
         return primitive_attribute
-- 
2.43.0


From 6895bea03baed73ea2bc8e82b60a523192d8e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 057/147] fix: glTF primitives without a material do not have
 the first material of the file

---
 pytorch3d/io/experimental_gltf_io.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index b9757ce..2162f04 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -409,10 +409,12 @@ class _GLTFLoader:
             verts_uvs = torch.from_numpy(vertex_texcoords_0)
             verts_uvs[:, 1] = 1 - verts_uvs[:, -1]
             faces_uvs = indices
-            material_index = primitive.get("material", 0)
-            # pyrefly: ignore [unsupported-operation]
-            material = self._json_data["materials"][material_index]
-            material_roughness = material["pbrMetallicRoughness"]
+            material_index = primitive.get("material")
+            material = {}
+            if material_index is not None:
+                # pyrefly: ignore [unsupported-operation]
+                material = self._json_data["materials"][material_index]
+            material_roughness = material.get("pbrMetallicRoughness", {})
             if "baseColorTexture" in material_roughness:
                 texture_index = material_roughness["baseColorTexture"]["index"]
                 # pyrefly: ignore [unsupported-operation]
@@ -421,13 +423,11 @@ class _GLTFLoader:
                 # Todo - look at the sampler
                 image_index = texture_json["source"]
                 map = self._get_texture_map_image(image_index)
-            elif "baseColorFactor" in material_roughness:
-                # Constant color?
-                map = torch.FloatTensor(material_roughness["baseColorFactor"])[
-                    None, None, :3
-                ]
+            else:
+                # Constant color, by default white
+                base_color = material_roughness.get("baseColorFactor", [1, 1, 1, 1])
+                map = torch.FloatTensor(base_color)[None, None, :3]
             texture = TexturesUV(
-                # pyre-fixme[61]: `map` may not be initialized here.
                 maps=[map],  # alpha channel ignored
                 faces_uvs=[faces_uvs],
                 verts_uvs=[verts_uvs],
-- 
2.43.0


From ea2e903c2c9823e02c75336993d2f75fee47da2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 058/147] fix: glTF files of large meshes or odd numbers of
 faces: 32 bit indices, which do not wrap and keep the alignment

---
 pytorch3d/io/experimental_gltf_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 2162f04..04b0999 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -645,7 +645,7 @@ class _GLTFWriter:
             element_max = list(map(float, np.max(data, axis=0)))
             byte_per_element = 3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.FLOAT]]
         elif key == "indices":
-            component_type = _ComponentType.UNSIGNED_SHORT
+            component_type = _ComponentType.UNSIGNED_INT
             data = (
                 self.mesh.faces_packed()
                 .cpu()
@@ -657,7 +657,7 @@ class _GLTFWriter:
             element_min = list(map(int, np.min(data, keepdims=True)))
             element_max = list(map(int, np.max(data, keepdims=True)))
             byte_per_element = (
-                3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.UNSIGNED_SHORT]]
+                3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.UNSIGNED_INT]]
             )
         else:
             raise NotImplementedError(
@@ -703,7 +703,7 @@ class _GLTFWriter:
             bufferview["byteStride"] = int(byte_per_element)
         elif key == "indices":
             byte_per_element = (
-                3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.UNSIGNED_SHORT]]
+                3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.UNSIGNED_INT]]
             )
             target = _TargetType.ELEMENT_ARRAY_BUFFER
 
-- 
2.43.0


From 13a33cc223ae66dc0c0b04520eaf7dc0592b06de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 059/147] fix: saving as glTF flipped the texture coordinates
 of the given mesh

---
 pytorch3d/io/experimental_gltf_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 04b0999..460cbc3 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -628,7 +628,7 @@ class _GLTFWriter:
         elif key == "texcoords":
             component_type = _ComponentType.FLOAT
             # pyrefly: ignore [missing-attribute]
-            data = self.mesh.textures.verts_uvs_list()[0].cpu().numpy()
+            data = self.mesh.textures.verts_uvs_list()[0].cpu().numpy().copy()
             data[:, 1] = 1 - data[:, -1]  # flip y tex-coordinate
             element_type = "VEC2"
             buffer_view = 2
-- 
2.43.0


From f96f83c9ccf861cf261ad49ccadeba574adf2fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 060/147] fix: vertex colors with four channels were saved as
 glTF with the layout of three

---
 pytorch3d/io/experimental_gltf_io.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 460cbc3..a789a3f 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -639,11 +639,16 @@ class _GLTFWriter:
             component_type = _ComponentType.FLOAT
             # pyrefly: ignore [missing-attribute]
             data = self.mesh.textures.verts_features_list()[0].cpu().numpy()
-            element_type = "VEC3"
+            n_colors = data.shape[1]
+            if n_colors not in (3, 4):
+                raise ValueError(f"Cannot save {n_colors} color channels, not 3 or 4.")
+            element_type = "VEC%d" % n_colors
             buffer_view = 2
             element_min = list(map(float, np.min(data, axis=0)))
             element_max = list(map(float, np.max(data, axis=0)))
-            byte_per_element = 3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.FLOAT]]
+            byte_per_element = (
+                n_colors * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.FLOAT]]
+            )
         elif key == "indices":
             component_type = _ComponentType.UNSIGNED_INT
             data = (
@@ -698,7 +703,10 @@ class _GLTFWriter:
             target = _TargetType.ARRAY_BUFFER
             bufferview["byteStride"] = int(byte_per_element)
         elif key == "texvertices":
-            byte_per_element = 3 * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.FLOAT]]
+            n_colors = self.mesh.textures.verts_features_list()[0].shape[1]
+            byte_per_element = (
+                n_colors * _DTYPE_BYTES[_ITEM_TYPES[_ComponentType.FLOAT]]
+            )
             target = _TargetType.ELEMENT_ARRAY_BUFFER
             bufferview["byteStride"] = int(byte_per_element)
         elif key == "indices":
-- 
2.43.0


From 02e3f0bd4295d69f5bbc74a7ec0cf2245bc1e693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 061/147] fix: meshes of other types than float32 were saved as
 glTF without conversion

---
 pytorch3d/io/experimental_gltf_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index a789a3f..ed1db03 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -669,6 +669,8 @@ class _GLTFWriter:
                 "invalid key accessor, should be one of positions, indices or texcoords"
             )
 
+        # The declared types of the accessors, without gaps
+        data = np.ascontiguousarray(data, dtype=_ITEM_TYPES[component_type])
         count = int(data.shape[0])
         byte_length = count * byte_per_element
         accessor_json = {
-- 
2.43.0


From 8239fb855af9e34b8cfd34afb26f07c1f7d3f9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 062/147] fix: align the chunks of saved glTF files to 4 bytes,
 as the format requires

---
 pytorch3d/io/experimental_gltf_io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index ed1db03..dc89f89 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -796,6 +796,10 @@ class _GLTFWriter:
 
         # organize into a glb
         json_bytes = bytes(json.dumps(self._json_data, cls=OurEncoder), "utf-8")
+        # Chunks start and end at multiples of 4 bytes
+        json_bytes += b" " * (-len(json_bytes) % 4)
+        binary_padding = b"\0" * (-byte_offset % 4)
+        byte_offset += len(binary_padding)
         json_length = len(json_bytes)
 
         # write header
@@ -817,6 +821,7 @@ class _GLTFWriter:
             self.buffer_stream.write(tex_data)
         if include_image:
             self.buffer_stream.write(image_data)
+        self.buffer_stream.write(binary_padding)
 
 
 class MeshGlbFormat(MeshFormatInterpreter):
-- 
2.43.0


From 5501480ea44b685d52017fe703d40a553d506f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 063/147] fix: save meshes with separate texture coordinate
 indices correctly as glTF

---
 pytorch3d/io/experimental_gltf_io.py | 29 +++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index dc89f89..57350e4 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -549,10 +549,37 @@ def load_meshes(
     return names_meshes_list
 
 
+def _with_uv_per_vertex(mesh: Meshes) -> Meshes:
+    """
+    glTF stores one texture coordinate for each vertex. Return an equivalent mesh
+    in that form by splitting the vertices which have several.
+    """
+    textures = mesh.textures
+    if not isinstance(textures, TexturesUV):
+        return mesh
+    verts, faces = mesh.verts_packed(), mesh.faces_packed()
+    verts_uvs = textures.verts_uvs_list()[0]
+    faces_uvs = textures.faces_uvs_list()[0]
+    if len(verts) == len(verts_uvs) and torch.equal(faces, faces_uvs):
+        return mesh
+    corners = torch.stack([faces, faces_uvs], dim=-1).reshape(-1, 2)
+    corners, new_faces = torch.unique(corners, dim=0, return_inverse=True)
+    new_faces = new_faces.reshape(-1, 3)
+    return Meshes(
+        verts=[verts[corners[:, 0]]],
+        faces=[new_faces],
+        textures=TexturesUV(
+            maps=textures.maps_list(),
+            faces_uvs=[new_faces],
+            verts_uvs=[verts_uvs[corners[:, 1]]],
+        ),
+    )
+
+
 class _GLTFWriter:
     def __init__(self, data: Meshes, buffer_stream: BinaryIO) -> None:
         self._json_data = defaultdict(list)
-        self.mesh = data
+        self.mesh = _with_uv_per_vertex(data)
         self.buffer_stream = buffer_stream
 
         # initialize json with one scene and one node
-- 
2.43.0


From 719ef0ad7f90b2d2062f41cae910ed696ef6f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 064/147] fix: join_scene of texture maps of one pixel divided
 by zero

---
 pytorch3d/renderer/mesh/textures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index cf9e365..a2e0e26 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -1590,9 +1590,10 @@ class TexturesUV(TexturesBase):
             # That is why the 1's and 0's are mismatched in these lines.
             one_if_align = 1 if self.align_corners else 0
             one_if_not_align = 1 - one_if_align
-            denom_x = merging_plan.total_size[0] - one_if_align
+            # a total size of 1 with align_corners leaves only the index 0
+            denom_x = max(merging_plan.total_size[0] - one_if_align, 1)
             scale_x = x_shape - one_if_align
-            denom_y = merging_plan.total_size[1] - one_if_align
+            denom_y = max(merging_plan.total_size[1] - one_if_align, 1)
             scale_y = y_shape - one_if_align
             new_uvs[:, 1] *= scale_x / denom_x
             new_uvs[:, 1] += (
-- 
2.43.0


From b5e63499ccd23f12205de21c477e0776918353be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 065/147] fix: numbers of ascii ply files which do not fit
 their declared integer type were truncated or wrapped

---
 pytorch3d/io/ply_io.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index ee1a00b..dd689f3 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -263,6 +263,26 @@ def _lines(f):
         line = f.readline()
 
 
+def _to_ply_type(data: np.ndarray, data_type: str, name: str) -> np.ndarray:
+    """
+    Convert numbers parsed from an ascii file as float64 to their declared type.
+
+    Args:
+        data: float64 array.
+        data_type: name of the type in the ply file.
+        name: name of the element, for the error message.
+
+    Returns:
+        array of the declared type.
+    """
+    np_type = _PLY_TYPES[data_type].np_type
+    with np.errstate(all="ignore"):
+        converted = data.astype(np_type)
+    if np.issubdtype(np_type, np.integer) and (converted != data).any():
+        raise ValueError("Data for %s does not have the type %s." % (name, data_type))
+    return converted
+
+
 def _read_ply_fixed_size_element_ascii(f, definition: _PlyElementType):
     """
     Given an element which has no lists and one type, read the
@@ -283,7 +303,7 @@ def _read_ply_fixed_size_element_ascii(f, definition: _PlyElementType):
         1-element list containing a 2D numpy array corresponding to the data.
         The rows are the different values. There is one column for each property.
     """
-    np_type = _PLY_TYPES[definition.properties[0].data_type].np_type
+    data_type = definition.properties[0].data_type
     old_offset = f.tell()
     with warnings.catch_warnings():
         warnings.filterwarnings(
@@ -291,7 +311,7 @@ def _read_ply_fixed_size_element_ascii(f, definition: _PlyElementType):
         )
         data = np.loadtxt(
             _lines(f),
-            dtype=np_type,
+            dtype=np.float64,
             comments=None,
             ndmin=2,
             max_rows=definition.count,
@@ -302,7 +322,7 @@ def _read_ply_fixed_size_element_ascii(f, definition: _PlyElementType):
         raise ValueError("Inconsistent data for %s." % definition.name)
     if data.shape[0] != definition.count:
         raise ValueError("Not enough data for %s." % definition.name)
-    return [data]
+    return [_to_ply_type(data, data_type, definition.name)]
 
 
 def _read_ply_nolist_element_ascii(f, definition: _PlyElementType):
@@ -354,7 +374,7 @@ def _read_ply_nolist_element_ascii(f, definition: _PlyElementType):
     for dtype, it in itertools.groupby(p.data_type for p in definition.properties):
         count = sum(1 for _ in it)
         end_offset = offset + count
-        piece = data[:, offset:end_offset].astype(_PLY_TYPES[dtype].np_type)
+        piece = _to_ply_type(data[:, offset:end_offset], dtype, definition.name)
         pieces.append(piece)
         offset = end_offset
     return pieces
@@ -396,7 +416,7 @@ def _try_read_ply_constant_list_ascii(f, definition: _PlyElementType):
         If every element has the same size, 2D numpy array corresponding to the
         data. The rows are the different values. Otherwise None.
     """
-    np_type = _PLY_TYPES[definition.properties[0].data_type].np_type
+    data_type = definition.properties[0].data_type
     old_offset = f.tell()
     try:
         with warnings.catch_warnings():
@@ -405,7 +425,7 @@ def _try_read_ply_constant_list_ascii(f, definition: _PlyElementType):
             )
             data = np.loadtxt(
                 _lines(f),
-                dtype=np_type,
+                dtype=np.float64,
                 comments=None,
                 ndmin=2,
                 max_rows=definition.count,
@@ -420,7 +440,7 @@ def _try_read_ply_constant_list_ascii(f, definition: _PlyElementType):
         raise ValueError(msg % definition.name)
     if data.shape[0] != definition.count:
         raise ValueError("Not enough data for %s." % definition.name)
-    return data[:, 1:]
+    return _to_ply_type(data[:, 1:], data_type, definition.name)
 
 
 def _parse_heterogeneous_property_ascii(datum, line_iter, property: _Property):
@@ -450,7 +470,7 @@ def _parse_heterogeneous_property_ascii(datum, line_iter, property: _Property):
             length = int(value)
         except ValueError:
             raise ValueError("A list length was not a number.") from None
-        list_value = np.zeros(length, dtype=_PLY_TYPES[property.data_type].np_type)
+        list_value = np.zeros(length)
         for i in range(length):
             inner_value = next(line_iter, None)
             if inner_value is None:
@@ -459,7 +479,7 @@ def _parse_heterogeneous_property_ascii(datum, line_iter, property: _Property):
                 list_value[i] = float(inner_value)
             except ValueError:
                 raise ValueError("Bad numerical data.") from None
-        datum.append(list_value)
+        datum.append(_to_ply_type(list_value, property.data_type, property.name))
 
 
 def _read_ply_element_ascii(f, definition: _PlyElementType):
-- 
2.43.0


From a264aaad1eb81e4ffdc4be3ca8d5684cc5ab223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 066/147] fix: ply files which declare an element twice lost
 the first one

---
 pytorch3d/io/ply_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index dd689f3..58c86f8 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -249,6 +249,8 @@ class _PlyHeader:
         except ValueError:
             msg = "Number of items for %s was not a number."
             raise ValueError(msg % items[1]) from None
+        if any(element.name == items[1] for element in self.elements):
+            raise ValueError("Cannot have two elements called %s." % items[1])
         self.elements.append(_PlyElementType(items[1], count))
 
 
-- 
2.43.0


From c5e494ccceef0ea8a98bfb0f038bed9acbdd3e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 067/147] fix: fractional and large indices of off files were
 rounded

---
 pytorch3d/io/off_io.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index 7710a4d..f11475a 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -83,7 +83,7 @@ def _read_faces_lump(
             warnings.filterwarnings(
                 "ignore", message=".* Empty input file.*", category=UserWarning
             )
-            data = np.loadtxt(file, dtype=np.float32, ndmin=2, max_rows=n_faces)
+            data = np.loadtxt(file, dtype=np.float64, ndmin=2, max_rows=n_faces)
     except ValueError as e:
         if n_faces > 1 and "number of columns" in e.args[0]:
             file.seek(old_offset)
@@ -106,7 +106,10 @@ def _read_faces_lump(
     if n_colors not in [0, 3, 4]:
         raise ValueError("Unexpected number of colors.")
 
-    face_raw_data = data[:, 1 : 1 + face_size].astype("int64")
+    with np.errstate(invalid="ignore"):
+        face_raw_data = data[:, 1 : 1 + face_size].astype("int64")
+    if (face_raw_data != data[:, 1 : 1 + face_size]).any():
+        raise ValueError("Face indices must be integers.")
     if face_size == 3:
         face_data = face_raw_data
     else:
@@ -117,7 +120,7 @@ def _read_faces_lump(
 
     if n_colors == 0:
         return face_data, 0, None
-    colors = data[:, 1 + face_size :]
+    colors = data[:, 1 + face_size :].astype(np.float32)
     if face_size == 3:
         return face_data, n_colors, colors
     return face_data, n_colors, np.tile(colors, (face_size - 2, 1))
-- 
2.43.0


From 5372a5b11a6a932dca2921fe1811d794fef4079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 068/147] fix: report face indices out of range in off files,
 like the other formats

---
 pytorch3d/io/off_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/io/off_io.py b/pytorch3d/io/off_io.py
index f11475a..871cf48 100644
--- a/pytorch3d/io/off_io.py
+++ b/pytorch3d/io/off_io.py
@@ -452,6 +452,7 @@ class MeshOffFormat(MeshFormatInterpreter):
         verts = torch.from_numpy(data["verts"]).to(device)
         if "faces" in data:
             faces = torch.from_numpy(data["faces"]).to(dtype=torch.int64, device=device)
+            _check_faces_indices(faces, max_index=verts.shape[0])
         else:
             faces = torch.zeros((0, 3), dtype=torch.int64, device=device)
 
-- 
2.43.0


From bd9b1ed94b89d21805c368a735b437496fb619fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 069/147] fix: index 0 in a face of an obj file was read as the
 first vertex

---
 pytorch3d/io/obj_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/io/obj_io.py b/pytorch3d/io/obj_io.py
index 338b986..81fbf34 100644
--- a/pytorch3d/io/obj_io.py
+++ b/pytorch3d/io/obj_io.py
@@ -367,7 +367,9 @@ def _absolute_index(token: str, count: int) -> int:
     count back from the last of the `count` values defined so far.
     """
     index = int(token)
-    if index >= 0:
+    if index == 0:
+        raise ValueError("Face has index 0, but indices start from 1.")
+    if index > 0:
         return index
     if count + index < 0:
         raise ValueError(
-- 
2.43.0


From 365450c29ab5e8bb65c235679b76d18ff5f0a395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 070/147] fix: report face indices out of range in glTF files,
 like the other formats

---
 pytorch3d/io/experimental_gltf_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 57350e4..5ad0d7f 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -50,7 +50,7 @@ import numpy as np
 import torch
 from iopath.common.file_io import PathManager
 from PIL import Image
-from pytorch3d.io.utils import _open_file, PathOrStr
+from pytorch3d.io.utils import _check_faces_indices, _open_file, PathOrStr
 from pytorch3d.renderer.mesh import TexturesBase, TexturesUV, TexturesVertex
 from pytorch3d.structures import join_meshes_as_scene, Meshes
 from pytorch3d.transforms import quaternion_to_matrix, Transform3d
@@ -502,6 +502,7 @@ class _GLTFLoader:
                     else:
                         indices = np.arange(0, len(positions), dtype=np.int64)
                     indices = torch.from_numpy(indices.reshape(-1, 3))
+                    _check_faces_indices(indices, max_index=positions.shape[0])
 
                     texture = None
                     if include_textures:
-- 
2.43.0


From 146ae5accf24a603f566378e62807c6b78214c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 071/147] fix: loading a glTF file with a cycle of nodes never
 returned

---
 pytorch3d/io/experimental_gltf_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 5ad0d7f..7998aa4 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -470,8 +470,12 @@ class _GLTFLoader:
         # Keep track and apply the transform of the scene node to mesh vertices
         Q = deque([(Transform3d(), node_index) for node_index in root_node_indices])
 
+        visited_node_indices = set()
         while Q:
             parent_transform, current_node_index = Q.popleft()
+            if current_node_index in visited_node_indices:
+                raise ValueError("The nodes do not form a tree.")
+            visited_node_indices.add(current_node_index)
 
             current_node = nodes[current_node_index]
 
-- 
2.43.0


From 9535a41e42b1f57b3644a81708452842bac993bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 072/147] fix: negative offsets of glTF accessors read data
 outside of their buffer view

---
 pytorch3d/io/experimental_gltf_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 7998aa4..9fb3d91 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -325,6 +325,9 @@ class _GLTFLoader:
             raise ValueError("Items should not overlap")
 
         # The last element need not be followed by the rest of its stride
+        if accessor_byte_offset < 0 or element_byte_offset < 0:
+            raise ValueError("Negative offset")
+
         byte_length = item_size * item_count
         if element_count > 0:
             byte_length += (element_count - 1) * element_byte_stride
-- 
2.43.0


From b14cc6cb72d842fbef1a65f96e74e766ec580c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 073/147] fix: remove_unused_components removed the parts of
 members whose name starts with the name of a pluggable member

---
 pytorch3d/implicitron/tools/config.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/implicitron/tools/config.py b/pytorch3d/implicitron/tools/config.py
index 431be1a..33cec26 100644
--- a/pytorch3d/implicitron/tools/config.py
+++ b/pytorch3d/implicitron/tools/config.py
@@ -1191,20 +1191,30 @@ def remove_unused_components(dict_: DictConfig) -> None:
     keys = [key for key in dict_ if isinstance(key, str)]
     suffix_length = len(TYPE_SUFFIX)
     replaceables = [key[:-suffix_length] for key in keys if key.endswith(TYPE_SUFFIX)]
-    args_keys = [key for key in keys if key.endswith(ARGS_SUFFIX)]
-    for replaceable in replaceables:
+    enableables = [
+        key[: -len(ENABLED_SUFFIX)] for key in keys if key.endswith(ENABLED_SUFFIX)
+    ]
+    # args of a member whose name starts with the name of another pluggable one
+    # are not components of that one.
+    args_keys = [
+        key
+        for key in keys
+        if key.endswith(ARGS_SUFFIX)
+        and key[: -len(ARGS_SUFFIX)] not in enableables
+    ]
+    for replaceable in sorted(replaceables, key=len, reverse=True):
         selected_type = dict_[replaceable + TYPE_SUFFIX]
         if selected_type is None:
             expect = ""
         else:
             expect = replaceable + "_" + selected_type + ARGS_SUFFIX
+        own_keys = [key for key in args_keys if key.startswith(replaceable + "_")]
+        args_keys = [key for key in args_keys if key not in own_keys]
         with open_dict(dict_):
-            for key in args_keys:
-                if key.startswith(replaceable + "_") and key != expect:
+            for key in own_keys:
+                if key != expect:
                     del dict_[key]
 
-    suffix_length = len(ENABLED_SUFFIX)
-    enableables = [key[:-suffix_length] for key in keys if key.endswith(ENABLED_SUFFIX)]
     for enableable in enableables:
         enabled = dict_[enableable + ENABLED_SUFFIX]
         if not enabled:
-- 
2.43.0


From f625a41856c9f5ed27a2dd44f3a01019246fc793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:43 +0000
Subject: [PATCH 074/147] fix: packed_to_padded and padded_to_packed check
 their index ranges on CPU

---
 .../packed_to_padded_tensor_cpu.cpp                    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pytorch3d/csrc/packed_to_padded_tensor/packed_to_padded_tensor_cpu.cpp b/pytorch3d/csrc/packed_to_padded_tensor/packed_to_padded_tensor_cpu.cpp
index c9176a1..2d4e2fc 100644
--- a/pytorch3d/csrc/packed_to_padded_tensor/packed_to_padded_tensor_cpu.cpp
+++ b/pytorch3d/csrc/packed_to_padded_tensor/packed_to_padded_tensor_cpu.cpp
@@ -30,6 +30,9 @@ at::Tensor PackedToPaddedCpu(
     const int64_t start = first_idxs_a[b];
     const int64_t end = b + 1 < batch_size ? first_idxs_a[b + 1] : num_inputs;
     const int64_t num = end - start;
+    TORCH_CHECK(
+        num <= 0 || (start >= 0 && end <= num_inputs && num <= max_size),
+        "first_idxs and max_size do not match the number of inputs");
     for (int i = 0; i < num; ++i) {
       for (int j = 0; j < D; ++j) {
         inputs_padded_a[b][i][j] = inputs_packed_a[start + i][j];
@@ -48,6 +51,10 @@ at::Tensor PaddedToPackedCpu(
   AT_ASSERTM(
       inputs_padded.dim() == 3, "inputs_padded must be a 3-dimensional tensor");
   const int64_t D = inputs_padded.size(2);
+  const int64_t max_size = inputs_padded.size(1);
+  TORCH_CHECK(
+      first_idxs.size(0) == batch_size,
+      "first_idxs and inputs_padded must have the same batch size");
 
   torch::Tensor inputs_packed =
       torch::zeros({num_inputs, D}, inputs_padded.options());
@@ -60,6 +67,9 @@ at::Tensor PaddedToPackedCpu(
     const int64_t start = first_idxs_a[b];
     const int64_t end = b + 1 < batch_size ? first_idxs_a[b + 1] : num_inputs;
     const int64_t num = end - start;
+    TORCH_CHECK(
+        num <= 0 || (start >= 0 && end <= num_inputs && num <= max_size),
+        "first_idxs and num_inputs do not match the size of inputs_padded");
     for (int i = 0; i < num; ++i) {
       for (int j = 0; j < D; ++j) {
         inputs_packed_a[start + i][j] = inputs_padded_a[b][i][j];
-- 
2.43.0


From 13a29b52a5d1f6906adff0c9a62366559da4f113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:43 +0000
Subject: [PATCH 075/147] fix: knn_points on CPU rejects lengths beyond the
 points, and accepts K=0

---
 pytorch3d/csrc/knn/knn_cpu.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/csrc/knn/knn_cpu.cpp b/pytorch3d/csrc/knn/knn_cpu.cpp
index 9e3153a..c4f7dc9 100644
--- a/pytorch3d/csrc/knn/knn_cpu.cpp
+++ b/pytorch3d/csrc/knn/knn_cpu.cpp
@@ -19,7 +19,11 @@ std::tuple<at::Tensor, at::Tensor> KNearestNeighborIdxCpu(
     const int K) {
   const int N = p1.size(0);
   const int P1 = p1.size(1);
+  const int P2 = p2.size(1);
   const int D = p1.size(2);
+  TORCH_CHECK(
+      lengths1.size(0) == N && lengths2.size(0) == N,
+      "lengths1 and lengths2 must have the same batch size as the points");
 
   auto long_opts = lengths1.options().dtype(torch::kInt64);
   torch::Tensor idxs = torch::full({N, P1, K}, 0, long_opts);
@@ -35,6 +39,8 @@ std::tuple<at::Tensor, at::Tensor> KNearestNeighborIdxCpu(
   for (int n = 0; n < N; ++n) {
     const int64_t length1 = lengths1_a[n];
     const int64_t length2 = lengths2_a[n];
+    TORCH_CHECK(
+        length1 <= P1 && length2 <= P2, "A value in lengths was too large.");
     for (int64_t i1 = 0; i1 < length1; ++i1) {
       // Use a priority queue to store (distance, index) tuples.
       std::priority_queue<std::tuple<float, int>> q;
@@ -49,7 +55,7 @@ std::tuple<at::Tensor, at::Tensor> KNearestNeighborIdxCpu(
           }
         }
         int size = static_cast<int>(q.size());
-        if (size < K || dist < std::get<0>(q.top())) {
+        if (size < K || (size > 0 && dist < std::get<0>(q.top()))) {
           q.emplace(dist, i2);
           if (size >= K) {
             q.pop();
-- 
2.43.0


From 13c4b97d6d586510bc7d797a2c9635bb0e912387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:43 +0000
Subject: [PATCH 076/147] fix: ball_query on CPU rejects lengths beyond the
 points

---
 pytorch3d/csrc/ball_query/ball_query_cpu.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytorch3d/csrc/ball_query/ball_query_cpu.cpp b/pytorch3d/csrc/ball_query/ball_query_cpu.cpp
index e9f431e..9346cf6 100644
--- a/pytorch3d/csrc/ball_query/ball_query_cpu.cpp
+++ b/pytorch3d/csrc/ball_query/ball_query_cpu.cpp
@@ -20,7 +20,11 @@ std::tuple<at::Tensor, at::Tensor> BallQueryCpu(
     bool skip_points_outside_cube) {
   const int N = p1.size(0);
   const int P1 = p1.size(1);
+  const int P2 = p2.size(1);
   const int D = p1.size(2);
+  TORCH_CHECK(
+      lengths1.size(0) == N && lengths2.size(0) == N,
+      "lengths1 and lengths2 must have the same batch size as the points");
 
   auto long_opts = lengths1.options().dtype(torch::kInt64);
   torch::Tensor idxs = torch::full({N, P1, K}, -1, long_opts);
@@ -37,6 +41,8 @@ std::tuple<at::Tensor, at::Tensor> BallQueryCpu(
   for (int n = 0; n < N; ++n) {
     const int64_t length1 = lengths1_a[n];
     const int64_t length2 = lengths2_a[n];
+    TORCH_CHECK(
+        length1 <= P1 && length2 <= P2, "A value in lengths was too large.");
     for (int64_t i = 0; i < length1; ++i) {
       for (int64_t j = 0, count = 0; j < length2 && count < K; ++j) {
         if (skip_points_outside_cube) {
-- 
2.43.0


From 00e2d760637d6f92d4da796a0b1bd7167f93e63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 077/147] fix: mesh_face_areas_normals on CPU rejects face
 indices out of range

---
 pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp b/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
index 1871ac7..8152e9e 100644
--- a/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
+++ b/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
@@ -7,12 +7,14 @@
  */
 
 #include <torch/extension.h>
+#include <algorithm>
 #include <tuple>
 
 std::tuple<at::Tensor, at::Tensor> FaceAreasNormalsForwardCpu(
     const at::Tensor verts,
     const at::Tensor faces) {
   const int F = faces.size(0);
+  const int64_t V = verts.size(0);
 
   at::Tensor areas = at::empty({F}, verts.options());
   at::Tensor normals = at::empty({F, 3}, verts.options());
@@ -26,6 +28,9 @@ std::tuple<at::Tensor, at::Tensor> FaceAreasNormalsForwardCpu(
     const int64_t i0 = faces_a[f][0];
     const int64_t i1 = faces_a[f][1];
     const int64_t i2 = faces_a[f][2];
+    TORCH_CHECK(
+        std::min({i0, i1, i2}) >= 0 && std::max({i0, i1, i2}) < V,
+        "faces has an index which is out of range");
 
     const float v0_x = verts_a[i0][0];
     const float v0_y = verts_a[i0][1];
-- 
2.43.0


From 5fced2449a4a90df7698cca2c5472c0a003d1386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 078/147] fix: gather_scatter on CPU rejects edge indices out
 of range

---
 pytorch3d/csrc/gather_scatter/gather_scatter_cpu.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytorch3d/csrc/gather_scatter/gather_scatter_cpu.cpp b/pytorch3d/csrc/gather_scatter/gather_scatter_cpu.cpp
index 8511e12..18e3a8b 100644
--- a/pytorch3d/csrc/gather_scatter/gather_scatter_cpu.cpp
+++ b/pytorch3d/csrc/gather_scatter/gather_scatter_cpu.cpp
@@ -29,6 +29,9 @@ at::Tensor GatherScatterCpu(
     // Get indices of vertices which form the edge.
     const int64_t v0 = edges_a[e][v0_idx];
     const int64_t v1 = edges_a[e][v1_idx];
+    TORCH_CHECK(
+        v0 >= 0 && v0 < num_vertices && v1 >= 0 && v1 < num_vertices,
+        "edges has an index which is out of range");
 
     for (int d = 0; d < input_feature_dim; ++d) {
       output_a[v0][d] += input_a[v1][d];
-- 
2.43.0


From c52ae67c611fb0e7f7d9f6f10c5ecd483d8acf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 079/147] fix: compositing on CPU rejects point indices out of
 range and mismatched shapes

---
 pytorch3d/csrc/compositing/alpha_composite_cpu.cpp   | 7 +++++++
 pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp | 7 +++++++
 pytorch3d/csrc/compositing/weighted_sum_cpu.cpp      | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp b/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp
index 41bc0ec..01f2ba5 100644
--- a/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp
+++ b/pytorch3d/csrc/compositing/alpha_composite_cpu.cpp
@@ -23,6 +23,13 @@ torch::Tensor alphaCompositeCpuForward(
   const int64_t H = points_idx.size(2);
   const int64_t W = points_idx.size(3);
   const int64_t C = features.size(0);
+  TORCH_CHECK(
+      alphas.sizes() == points_idx.sizes(),
+      "alphas and points_idx must have the same shape");
+  TORCH_CHECK(
+      points_idx.numel() == 0 ||
+          points_idx.max().item<int64_t>() < features.size(1),
+      "points_idx has an index which is out of range");
 
   torch::Tensor result = torch::zeros({B, C, H, W}, features.options());
 
diff --git a/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp b/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp
index 840ef3d..ca4483c 100644
--- a/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp
+++ b/pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp
@@ -23,6 +23,13 @@ torch::Tensor weightedSumNormCpuForward(
   const int64_t H = points_idx.size(2);
   const int64_t W = points_idx.size(3);
   const int64_t C = features.size(0);
+  TORCH_CHECK(
+      alphas.sizes() == points_idx.sizes(),
+      "alphas and points_idx must have the same shape");
+  TORCH_CHECK(
+      points_idx.numel() == 0 ||
+          points_idx.max().item<int64_t>() < features.size(1),
+      "points_idx has an index which is out of range");
 
   torch::Tensor result = torch::zeros({B, C, H, W}, features.options());
 
diff --git a/pytorch3d/csrc/compositing/weighted_sum_cpu.cpp b/pytorch3d/csrc/compositing/weighted_sum_cpu.cpp
index b7bddee..bce0f95 100644
--- a/pytorch3d/csrc/compositing/weighted_sum_cpu.cpp
+++ b/pytorch3d/csrc/compositing/weighted_sum_cpu.cpp
@@ -20,6 +20,13 @@ torch::Tensor weightedSumCpuForward(
   const int64_t H = points_idx.size(2);
   const int64_t W = points_idx.size(3);
   const int64_t C = features.size(0);
+  TORCH_CHECK(
+      alphas.sizes() == points_idx.sizes(),
+      "alphas and points_idx must have the same shape");
+  TORCH_CHECK(
+      points_idx.numel() == 0 ||
+          points_idx.max().item<int64_t>() < features.size(1),
+      "points_idx has an index which is out of range");
 
   torch::Tensor result = torch::zeros({B, C, H, W}, features.options());
 
-- 
2.43.0


From bafc331b1920436a6fe1ce71050d2353c0a64318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 080/147] fix: points to volumes on CPU rejects grid sizes
 larger than the volume

---
 pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp b/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
index 576ef4a..c6581da 100644
--- a/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
+++ b/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
@@ -89,6 +89,11 @@ void PointsToVolumesForwardCpu(
     const int64_t grid_size_x = grid_sizes_aa[2];
     const int64_t grid_size_y = grid_sizes_aa[1];
     const int64_t grid_size_z = grid_sizes_aa[0];
+    TORCH_CHECK(
+        grid_size_z <= volume_densities.size(2) &&
+            grid_size_y <= volume_densities.size(3) &&
+            grid_size_x <= volume_densities.size(4),
+        "grid_sizes are larger than the volume");
 
     // For each point
     for (int64_t point_idx = 0; point_idx < P; ++point_idx) {
-- 
2.43.0


From d5f8cde759092f34476aff0d4782edd38e661abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 081/147] fix: point to mesh distances on CPU reject first
 indices out of range

---
 pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp b/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
index ab23ca1..ce5add2 100644
--- a/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
+++ b/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
@@ -195,6 +195,9 @@ std::tuple<at::Tensor, at::Tensor> HullHullDistanceForwardCpu(
         a_batch_end = as_first_idx_a[batch_idx];
         b_batch_end = bs_first_idx_a[batch_idx];
       }
+      TORCH_CHECK(
+          b_batch_start >= 0 && b_batch_end <= B_N,
+          "A first index is out of range.");
     }
     float min_dist = std::numeric_limits<float>::max();
     // stays -1 if this batch element has nothing to measure the distance to
-- 
2.43.0


From c7ee644bda3ec8864687f31c469ab1d27661ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 082/147] fix: points to volumes converted locations of points
 that are not finite to integers

---
 .../csrc/points_to_volumes/points_to_volumes_cpu.cpp   | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp b/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
index c6581da..c462776 100644
--- a/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
+++ b/pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp
@@ -147,6 +147,11 @@ void PointsToVolumesForwardCpu(
             (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
         float rz = SplitFloor(
             (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
+        // A point which is far away, or not finite, has no location.
+        if (!(x >= -1 && x < grid_size_x && y >= -1 && y < grid_size_y &&
+              z >= -1 && z < grid_size_z)) {
+          continue;
+        }
         // Define how to fractionally increment one of the 8 locations around
         // the point.
         auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
@@ -280,6 +285,11 @@ void PointsToVolumesBackwardCpu(
             (point[1] + 1) * 0.5 * (grid_size_y - scale_offset) - offset, &y);
         float rz = SplitFloor(
             (point[2] + 1) * 0.5 * (grid_size_z - scale_offset) - offset, &z);
+        // A point which is far away, or not finite, has no location.
+        if (!(x >= -1 && x < grid_size_x && y >= -1 && y < grid_size_y &&
+              z >= -1 && z < grid_size_z)) {
+          continue;
+        }
         auto handle_point = [&](bool up_x, bool up_y, bool up_z) {
           float weight_x = (up_x ? rx : 1 - rx);
           float weight_y = (up_y ? ry : 1 - ry);
-- 
2.43.0


From f8dabc33069740feae7bc62775e08c1694daf7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 083/147] fix: sample_pdf on CPU ended the process when it
 rejected its arguments while threads were running

---
 pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
index f31bd24..0935c52 100644
--- a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
+++ b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
@@ -106,6 +106,19 @@ void SamplePdfCpu(
     const torch::Tensor& weights,
     const torch::Tensor& outputs,
     float eps) {
+  // An exception must not leave while the threads below are running.
+  TORCH_CHECK(
+      bins.scalar_type() == at::kFloat && weights.scalar_type() == at::kFloat &&
+          outputs.scalar_type() == at::kFloat,
+      "bins, weights and outputs must be float tensors");
+  TORCH_CHECK(
+      bins.dim() == 2 && weights.dim() == 2 && outputs.dim() == 2,
+      "bins, weights and outputs must have 2 dimensions");
+  TORCH_CHECK(
+      bins.size(0) == weights.size(0) && bins.size(0) == outputs.size(0) &&
+          bins.size(1) == weights.size(1) + 1,
+      "bins, weights and outputs must have shapes (batch_size, n_bins+1), "
+      "(batch_size, n_bins) and (batch_size, n_samples)");
   const int64_t batch_size = bins.size(0);
   const int64_t max_threads = std::min(4, at::get_num_threads());
   const int64_t n_threads = std::min(max_threads, batch_size);
-- 
2.43.0


From b3625eca35855aca1b4b3c7cb6ef528e154a476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 084/147] fix: sigmoid alpha blending on CPU rejects mismatched
 shapes

---
 pytorch3d/csrc/blending/sigmoid_alpha_blend_cpu.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytorch3d/csrc/blending/sigmoid_alpha_blend_cpu.cpp b/pytorch3d/csrc/blending/sigmoid_alpha_blend_cpu.cpp
index 8a19516..34619a8 100644
--- a/pytorch3d/csrc/blending/sigmoid_alpha_blend_cpu.cpp
+++ b/pytorch3d/csrc/blending/sigmoid_alpha_blend_cpu.cpp
@@ -14,6 +14,9 @@ at::Tensor SigmoidAlphaBlendForwardCpu(
     const at::Tensor& distances, // (N, H, W, K)
     const at::Tensor& pix_to_face, // (N, H, W, K)
     const float sigma) {
+  TORCH_CHECK(
+      distances.dim() == 4 && pix_to_face.sizes() == distances.sizes(),
+      "distances and pix_to_face must both have shape (N, H, W, K)");
   const int N = distances.size(0);
   const int H = distances.size(1);
   const int W = distances.size(2);
@@ -67,6 +70,9 @@ at::Tensor SigmoidAlphaBlendBackwardCpu(
     const at::Tensor& distances, // (N, H, W, K)
     const at::Tensor& pix_to_face, // (N, H, W, K)
     const float sigma) {
+  TORCH_CHECK(
+      distances.dim() == 4 && pix_to_face.sizes() == distances.sizes(),
+      "distances and pix_to_face must both have shape (N, H, W, K)");
   const int N = distances.size(0);
   const int H = distances.size(1);
   const int W = distances.size(2);
-- 
2.43.0


From 172cf91ea0edd51aaed24d9cfa32d5c607e90a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 085/147] fix: the fast exponential of pulsar converted NaN to
 an integer

---
 pytorch3d/csrc/pulsar/include/fastermath.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/csrc/pulsar/include/fastermath.h b/pytorch3d/csrc/pulsar/include/fastermath.h
index cae598f..2e94f24 100644
--- a/pytorch3d/csrc/pulsar/include/fastermath.h
+++ b/pytorch3d/csrc/pulsar/include/fastermath.h
@@ -73,7 +73,8 @@ IHD float fasterlog(float x) {
 }
 
 IHD float fasterpow2(float p) {
-  float clipp = (p < -126) ? -126.0f : p;
+  // Not (p < -126), so that NaN is clipped, too.
+  float clipp = !(p >= -126) ? -126.0f : p;
   union {
     uint32_t i;
     float f;
-- 
2.43.0


From 3907dddc31574bf8219859f0ada1cc39e3de8f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:21 +0000
Subject: [PATCH 086/147] fix: the sphere renderer read strided camera
 parameters as if they were contiguous

---
 pytorch3d/csrc/pulsar/pytorch/camera.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/pytorch/camera.cpp b/pytorch3d/csrc/pulsar/pytorch/camera.cpp
index c3794e7..d1fec19 100644
--- a/pytorch3d/csrc/pulsar/pytorch/camera.cpp
+++ b/pytorch3d/csrc/pulsar/pytorch/camera.cpp
@@ -26,11 +26,11 @@ CamInfo cam_info_from_params(
     const bool& right_handed) {
   CamInfo res;
   fill_cam_vecs(
-      cam_pos.detach().cpu(),
-      pixel_0_0_center.detach().cpu(),
-      pixel_vec_x.detach().cpu(),
-      pixel_vec_y.detach().cpu(),
-      principal_point_offset.detach().cpu(),
+      cam_pos.detach().cpu().contiguous(),
+      pixel_0_0_center.detach().cpu().contiguous(),
+      pixel_vec_x.detach().cpu().contiguous(),
+      pixel_vec_y.detach().cpu().contiguous(),
+      principal_point_offset.detach().cpu().contiguous(),
       right_handed,
       &res);
   res.half_pixel_size = 0.5f * length(res.pixel_dir_x);
-- 
2.43.0


From c5ecded2866c311e400a2c3a454d864fbaa7e8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 087/147] fix: VolumeSampler refused rays that are not
 contiguous

---
 pytorch3d/renderer/implicit/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/implicit/renderer.py b/pytorch3d/renderer/implicit/renderer.py
index a3402c2..9fa34b5 100644
--- a/pytorch3d/renderer/implicit/renderer.py
+++ b/pytorch3d/renderer/implicit/renderer.py
@@ -392,7 +392,7 @@ class VolumeSampler(torch.nn.Module):
             rays_points_local = (rays_points_local + 1) * relative_size - 1
 
         # reshape to a size which grid_sample likes
-        rays_points_local_flat = rays_points_local.view(
+        rays_points_local_flat = rays_points_local.reshape(
             rays_points_local.shape[0], -1, 1, 1, 3
         )
 
-- 
2.43.0


From 0cca2b4b31f539c3af9e340f1b981d50db3aafff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:10 +0000
Subject: [PATCH 088/147] fix: the gradient of face normals with respect to the
 second vertex was wrong

---
 pytorch3d/csrc/face_areas_normals/face_areas_normals.cu      | 2 +-
 pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu b/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu
index 58aeb20..487eff4 100644
--- a/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu
+++ b/pytorch3d/csrc/face_areas_normals/face_areas_normals.cu
@@ -180,7 +180,7 @@ __global__ void FaceAreasNormalsBackwardKernel(
         (bx * cy - by * cx) / 2.0 * inv_norm * grad_areas[f] +
         (-by - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals[3 * f + 0] +
-        (bx - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
+        (bx - cy * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals[3 * f + 1] +
         -cz * (bx * cy - by * cx) * inv_norm_3 * grad_normals[3 * f + 2];
     atomicAdd(grad_verts + 3 * i1 + 2, grad_v1_z);
diff --git a/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp b/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
index 8152e9e..5d9bdbd 100644
--- a/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
+++ b/pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp
@@ -183,7 +183,7 @@ at::Tensor FaceAreasNormalsBackwardCpu(
         (bx * cy - by * cx) / 2.0 * inv_norm * grad_areas_a[f] +
         (-by - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals_a[f][0] +
-        (bx - cx * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
+        (bx - cy * (bx * cy - by * cx) * inv_norm_2) * inv_norm *
             grad_normals_a[f][1] +
         -cz * (bx * cy - by * cx) * inv_norm_3 * grad_normals_a[f][2];
     grad_verts[i1][2] += grad_v1_z;
-- 
2.43.0


From 8d49a7b0090f8ceef9c76f178f4fa8c1c3ff2011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:00 +0000
Subject: [PATCH 089/147] fix: the gradient through faces cut by the near plane
 ignored one of the intersection weights

---
 pytorch3d/renderer/mesh/clip.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index bc996f1..91a84da 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -292,7 +292,6 @@ def _find_verts_intersecting_clipping_plane(
     # Solve for the weight w3 such that p1.z * (1-w3) + p2.z * w3 = clip_value,
     # and then interpolate p5 = p1 * (1-w3) + p3 * w3
     w3 = (p1[:, 2] - clip_value) / (p1[:, 2] - p3[:, 2])
-    w3 = w3.detach()
     p5 = p1 * (1 - w3[:, None]) + p3 * w3[:, None]
     if perspective_correct:
         # Again if using a perspective camera, convert back to world coordinates
-- 
2.43.0


From d2d972d4e7c0e076fdfb9a3c68b455e3770dad66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:50 +0000
Subject: [PATCH 090/147] fix: cubify gave one-dimensional vertex and face
 lists when no voxel is occupied

---
 pytorch3d/ops/cubify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/ops/cubify.py b/pytorch3d/ops/cubify.py
index b271d82..e92fc52 100644
--- a/pytorch3d/ops/cubify.py
+++ b/pytorch3d/ops/cubify.py
@@ -230,8 +230,8 @@ def cubify(
     grid_verts = torch.stack((x, y, z), dim=3).view(-1, 3)
 
     if len(nyxz) == 0:
-        verts_list = [torch.tensor([], dtype=torch.float32, device=device)] * N
-        faces_list = [torch.tensor([], dtype=torch.int64, device=device)] * N
+        verts_list = [torch.zeros((0, 3), dtype=torch.float32, device=device)] * N
+        faces_list = [torch.zeros((0, 3), dtype=torch.int64, device=device)] * N
         return Meshes(verts=verts_list, faces=faces_list)
 
     num_verts = grid_verts.size(0)
-- 
2.43.0


From 936b56266a6cbd121346e862fed0074badab9286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:02 +0000
Subject: [PATCH 091/147] fix: camera overlaps counted what is behind
 field-of-view cameras as seen

---
 pytorch3d/implicitron/tools/camera_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/camera_utils.py b/pytorch3d/implicitron/tools/camera_utils.py
index 0c76373..99982b2 100644
--- a/pytorch3d/implicitron/tools/camera_utils.py
+++ b/pytorch3d/implicitron/tools/camera_utils.py
@@ -112,9 +112,11 @@ def volumetric_camera_overlaps(
 
     grid = grid.view(1, n_vox, 3).expand(ba, n_vox, 3)
     gridp = cameras.transform_points(grid, eps=1e-2)
+    # the projected depth of some cameras is also positive behind the camera
+    grid_depth = cameras.get_world_to_view_transform().transform_points(grid)[..., 2]
     proj_in_camera = (
         torch.prod((gridp[..., :2].abs() <= 1.0), dim=-1)
-        * (gridp[..., 2] > 0.0).float()
+        * ((gridp[..., 2] > 0.0) & (grid_depth > 0.0)).float()
     )  # ba x n_vox
 
     if weigh_by_ray_angle:
-- 
2.43.0


From c1129e8c7607a76c7a261780b97ab8628b5c10d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:02 +0000
Subject: [PATCH 092/147] fix: signed-distance renders without any surface had
 a full mask

---
 .../implicitron/models/renderer/sdf_renderer.py     | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/implicitron/models/renderer/sdf_renderer.py b/pytorch3d/implicitron/models/renderer/sdf_renderer.py
index c769b5f..f20b336 100644
--- a/pytorch3d/implicitron/models/renderer/sdf_renderer.py
+++ b/pytorch3d/implicitron/models/renderer/sdf_renderer.py
@@ -199,9 +199,12 @@ class SignedDistanceFunctionRenderer(BaseRenderer, torch.nn.Module):
             )
             * self._bg_color
         )
-        mask_full = features.new_ones(
-            batch_size, *spatial_size, 1, requires_grad=empty_render
-        )
+        # a differentiable approximation of the mask where no surface was found
+        mask_full = torch.where(
+            surface_mask[:, None],
+            torch.ones_like(sdf_output),
+            torch.sigmoid(-self.soft_mask_alpha * sdf_output),
+        ).reshape(batch_size, *spatial_size, 1)
         if not empty_render:
             normals = implicit_function_gradient(differentiable_surface_points)[
                 None, :, 0, :
@@ -218,10 +221,6 @@ class SignedDistanceFunctionRenderer(BaseRenderer, torch.nn.Module):
                     pooling_fn=None,  # TODO
                 )
             )
-            mask_full.view(-1, 1)[~surface_mask] = torch.sigmoid(
-                # pyre-fixme[6]: For 1st param expected `Tensor` but got `float`.
-                -self.soft_mask_alpha * sdf_output[~surface_mask]
-            )
 
         # scatter points with surface_mask
         points_full = ray_bundle.origins.detach().clone()
-- 
2.43.0


From 9ff31926e4831119f399ced8d1919e9075377cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:02 +0000
Subject: [PATCH 093/147] fix: the adaptive ray sampler used the depth bounds
 of the first camera for all cameras

---
 .../models/renderer/ray_sampler.py            | 14 +++--
 pytorch3d/renderer/implicit/raysampling.py    | 58 ++++++++++++++-----
 2 files changed, 51 insertions(+), 21 deletions(-)

diff --git a/pytorch3d/implicitron/models/renderer/ray_sampler.py b/pytorch3d/implicitron/models/renderer/ray_sampler.py
index 417d0ae..70d5d26 100644
--- a/pytorch3d/implicitron/models/renderer/ray_sampler.py
+++ b/pytorch3d/implicitron/models/renderer/ray_sampler.py
@@ -6,7 +6,7 @@
 
 # pyre-unsafe
 
-from typing import Optional, Tuple
+from typing import Optional, Tuple, Union
 
 import torch
 from pytorch3d.implicitron.tools import camera_utils
@@ -179,7 +179,9 @@ class AbstractMaskRaySampler(RaySamplerBase, torch.nn.Module):
         self.pixel_height: float = (max_y - min_y) / (self.image_height - 1)
         self.pixel_width: float = (max_x - min_x) / (self.image_width - 1)
 
-    def _get_min_max_depth_bounds(self, cameras: CamerasBase) -> Tuple[float, float]:
+    def _get_min_max_depth_bounds(
+        self, cameras: CamerasBase
+    ) -> Tuple[Union[float, torch.Tensor], Union[float, torch.Tensor]]:
         raise NotImplementedError()
 
     def forward(
@@ -298,14 +300,16 @@ class AdaptiveRaySampler(AbstractMaskRaySampler):
             raise ValueError("Adaptive raysampler requires self.scene_extent > 0.")
         self._scene_center = torch.FloatTensor(self.scene_center)
 
-    def _get_min_max_depth_bounds(self, cameras: CamerasBase) -> Tuple[float, float]:
+    def _get_min_max_depth_bounds(
+        self, cameras: CamerasBase
+    ) -> Tuple[torch.Tensor, torch.Tensor]:
         """
-        Returns the adaptively calculated near/far planes.
+        Returns the adaptively calculated near/far planes of each camera.
         """
         min_depth, max_depth = camera_utils.get_min_max_depth_bounds(
             cameras, self._scene_center, self.scene_extent
         )
-        return float(min_depth[0]), float(max_depth[0])
+        return min_depth.detach(), max_depth.detach()
 
 
 @registry.register
diff --git a/pytorch3d/renderer/implicit/raysampling.py b/pytorch3d/renderer/implicit/raysampling.py
index ecdd3dd..bc50094 100644
--- a/pytorch3d/renderer/implicit/raysampling.py
+++ b/pytorch3d/renderer/implicit/raysampling.py
@@ -131,8 +131,8 @@ class MultinomialRaysampler(torch.nn.Module):
         cameras: CamerasBase,
         *,
         mask: Optional[torch.Tensor] = None,
-        min_depth: Optional[float] = None,
-        max_depth: Optional[float] = None,
+        min_depth: Optional[Union[float, torch.Tensor]] = None,
+        max_depth: Optional[Union[float, torch.Tensor]] = None,
         n_rays_per_image: Optional[int] = None,
         n_pts_per_ray: Optional[int] = None,
         stratified_sampling: Optional[bool] = None,
@@ -144,8 +144,9 @@ class MultinomialRaysampler(torch.nn.Module):
             cameras: A batch of `batch_size` cameras from which the rays are emitted.
             mask: if given, the rays are sampled from the mask. Should be of size
                 (batch_size, image_height, image_width).
-            min_depth: The minimum depth of a ray-point.
-            max_depth: The maximum depth of a ray-point.
+            min_depth: The minimum depth of a ray-point: a number or a tensor of shape
+                (batch_size,) with a value for each camera.
+            max_depth: The maximum depth of a ray-point, like `min_depth`.
             n_rays_per_image: If given, this amount of rays are sampled from the grid.
                 `n_rays_per_image` and `n_rays_total` cannot both be defined.
             n_pts_per_ray: The number of points sampled along each ray.
@@ -248,6 +249,14 @@ class MultinomialRaysampler(torch.nn.Module):
 
         min_depth = min_depth if min_depth is not None else self._min_depth
         max_depth = max_depth if max_depth is not None else self._max_depth
+        if n_rays_total:
+            # keep the bounds of the sampled cameras
+            min_depth, max_depth = (
+                depth[camera_ids]
+                if isinstance(depth, torch.Tensor) and depth.numel() > 1
+                else depth
+                for depth in (min_depth, max_depth)
+            )
         n_pts_per_ray = (
             n_pts_per_ray if n_pts_per_ray is not None else self._n_pts_per_ray
         )
@@ -610,8 +619,8 @@ def _safe_multinomial(input: torch.Tensor, num_samples: int) -> torch.Tensor:
 def _xy_to_ray_bundle(
     cameras: CamerasBase,
     xy_grid: torch.Tensor,
-    min_depth: float,
-    max_depth: float,
+    min_depth: Union[float, torch.Tensor],
+    max_depth: Union[float, torch.Tensor],
     n_pts_per_ray: int,
     unit_directions: bool,
     stratified_sampling: bool = False,
@@ -627,8 +636,9 @@ def _xy_to_ray_bundle(
     Args:
         cameras: cameras object representing a batch of cameras.
         xy_grid: torch.tensor grid of image xy coords.
-        min_depth: The minimum depth of each ray-point.
-        max_depth: The maximum depth of each ray-point.
+        min_depth: The minimum depth of each ray-point, a number or a tensor with
+            one value per camera.
+        max_depth: The maximum depth of each ray-point, like `min_depth`.
         n_pts_per_ray: The number of points sampled along each ray.
         unit_directions: whether to normalize direction vectors in ray bundle.
         stratified_sampling: if True, performs stratified sampling in n_pts_per_ray
@@ -642,14 +652,30 @@ def _xy_to_ray_bundle(
     # ray z-coords
     rays_zs = xy_grid.new_empty((0,))
     if n_pts_per_ray > 0:
-        depths = torch.linspace(
-            min_depth,
-            max_depth,
-            n_pts_per_ray,
-            dtype=xy_grid.dtype,
-            device=xy_grid.device,
-        )
-        rays_zs = depths[None, None].expand(batch_size, n_rays_per_image, n_pts_per_ray)
+        if isinstance(min_depth, torch.Tensor) or isinstance(max_depth, torch.Tensor):
+            # the bounds of each camera
+            near, far = (
+                torch.as_tensor(depth, dtype=xy_grid.dtype, device=xy_grid.device)
+                .reshape(-1, 1, 1)
+                .expand(batch_size, 1, 1)
+                for depth in (min_depth, max_depth)
+            )
+            depths = torch.lerp(
+                near,
+                far,
+                torch.linspace(
+                    0.0, 1.0, n_pts_per_ray, dtype=xy_grid.dtype, device=xy_grid.device
+                ),
+            )
+        else:
+            depths = torch.linspace(
+                min_depth,
+                max_depth,
+                n_pts_per_ray,
+                dtype=xy_grid.dtype,
+                device=xy_grid.device,
+            )[None, None]
+        rays_zs = depths.expand(batch_size, n_rays_per_image, n_pts_per_ray)
 
         if stratified_sampling:
             rays_zs = _jiggle_within_stratas(rays_zs)
-- 
2.43.0


From 9ba8c36b941bc6276db1ae503a386628266b3386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 094/147] fix: metrics of packed rays selected the images of
 the sampled cameras twice

---
 pytorch3d/implicitron/models/metrics.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/metrics.py b/pytorch3d/implicitron/models/metrics.py
index 9555b62..d8eb673 100644
--- a/pytorch3d/implicitron/models/metrics.py
+++ b/pytorch3d/implicitron/models/metrics.py
@@ -271,9 +271,6 @@ class ViewMetrics(ViewMetricsBase):
 
             # select images that corespond to sampled cameras if raybundle is packed
             tensor = tensor[ray_bundle.camera_ids]
-            if ray_bundle.is_packed():
-                # select images that corespond to sampled cameras if raybundle is packed
-                tensor = tensor[ray_bundle.camera_ids]
             result = rend_utils.ndc_grid_sample(tensor, xys, mode=mode)
             return padded_to_packed(result, first_idxs, num_inputs, max_size_dim=2)[
                 :, :, None
-- 
2.43.0


From b344a38f39ee6a4eb300beb807052fda2367a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:41 +0000
Subject: [PATCH 095/147] fix: the cross entropy of logits clamped the logits
 to the bounds of probabilities

---
 pytorch3d/implicitron/tools/metric_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/tools/metric_utils.py b/pytorch3d/implicitron/tools/metric_utils.py
index bdb8cfa..7c3fd7d 100644
--- a/pytorch3d/implicitron/tools/metric_utils.py
+++ b/pytorch3d/implicitron/tools/metric_utils.py
@@ -135,8 +135,12 @@ def calc_bce(
     Calculates the binary cross entropy.
     """
     if pred_eps > 0.0:
-        # up/low bound the predictions
-        pred = torch.clamp(pred, pred_eps, 1.0 - pred_eps)
+        # up/low bound the predicted probabilities
+        if pred_logits:
+            logit_bound = math.log((1.0 - pred_eps) / pred_eps)
+            pred = torch.clamp(pred, -logit_bound, logit_bound)
+        else:
+            pred = torch.clamp(pred, pred_eps, 1.0 - pred_eps)
 
     if mask is None:
         mask = torch.ones_like(gt)
-- 
2.43.0


From c863009a3d76c227b2951d3f1b81c6433e10c7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:41 +0000
Subject: [PATCH 096/147] fix: the evaluator failed on frames without depth
 maps or masks

---
 pytorch3d/implicitron/evaluation/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/evaluation/evaluator.py b/pytorch3d/implicitron/evaluation/evaluator.py
index 449e53c..10c52a6 100644
--- a/pytorch3d/implicitron/evaluation/evaluator.py
+++ b/pytorch3d/implicitron/evaluation/evaluator.py
@@ -155,5 +155,6 @@ def _get_eval_frame_data(frame_data: Any) -> Any:
     frame_data_for_eval = copy.deepcopy(frame_data)
     for k in ("image_rgb", "depth_map", "fg_probability", "mask_crop"):
         value = getattr(frame_data_for_eval, k)
-        value[0].zero_()
+        if value is not None:
+            value[0].zero_()
     return frame_data_for_eval
-- 
2.43.0


From 6b2dbc48c50d5b2e4b0183e8c776fead6afe15ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 097/147] fix: ray directions were not rotated to the camera
 coordinates of their own cameras

---
 .../implicit_function/neural_radiance_field.py       |  9 +++++----
 .../scene_representation_networks.py                 |  9 +++++----
 .../implicitron/models/implicit_function/utils.py    | 11 +++++++++++
 .../voxel_grid_implicit_function.py                  | 12 +++++++-----
 4 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py b/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py
index 7ba577e..66bd7f8 100644
--- a/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py
+++ b/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py
@@ -26,7 +26,10 @@ from .decoding_functions import (  # noqa
     MLPWithInputSkips,
     TransformerWithInputSkips,
 )
-from .utils import create_embeddings_for_implicit_function
+from .utils import (
+    create_embeddings_for_implicit_function,
+    transform_directions_to_camera,
+)
 
 
 logger = logging.getLogger(__name__)
@@ -224,9 +227,7 @@ class NeuralRadianceFieldBase(ImplicitFunctionBase, torch.nn.Module):
             if camera is None:
                 raise ValueError("Camera must be given if xyz_ray_dir_in_camera_coords")
 
-            # pyre-fixme[58]: `@` is not supported for operand types `Tensor` and
-            #  `Union[Tensor, Module]`.
-            directions = ray_bundle.directions @ camera.R
+            directions = transform_directions_to_camera(ray_bundle.directions, camera)
         else:
             directions = ray_bundle.directions
 
diff --git a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
index 8c17077..5fcb16b 100644
--- a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
+++ b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
@@ -16,7 +16,10 @@ from pytorch3d.renderer.cameras import CamerasBase
 from pytorch3d.renderer.implicit import HarmonicEmbedding
 
 from .base import ImplicitFunctionBase
-from .utils import create_embeddings_for_implicit_function
+from .utils import (
+    create_embeddings_for_implicit_function,
+    transform_directions_to_camera,
+)
 
 
 def _kaiming_normal_init(module: torch.nn.Module) -> None:
@@ -208,9 +211,7 @@ class SRNPixelGenerator(Configurable, torch.nn.Module):
             if camera is None:
                 raise ValueError("Camera must be given if xyz_ray_dir_in_camera_coords")
 
-            # pyre-fixme[58]: `@` is not supported for operand types `Tensor` and
-            #  `Union[Tensor, Module]`.
-            directions = ray_bundle.directions @ camera.R
+            directions = transform_directions_to_camera(ray_bundle.directions, camera)
         else:
             directions = ray_bundle.directions
 
diff --git a/pytorch3d/implicitron/models/implicit_function/utils.py b/pytorch3d/implicitron/models/implicit_function/utils.py
index d0e7ccd..452ecd4 100644
--- a/pytorch3d/implicitron/models/implicit_function/utils.py
+++ b/pytorch3d/implicitron/models/implicit_function/utils.py
@@ -30,6 +30,17 @@ def broadcast_global_code(embeds: torch.Tensor, global_code: torch.Tensor):
     return torch.cat([embeds, global_code_broadcast], dim=-1)
 
 
+def transform_directions_to_camera(
+    directions: torch.Tensor, camera: CamerasBase
+) -> torch.Tensor:
+    """
+    Rotates world-space ray `directions` of shape (minibatch, ..., 3) to the
+    coordinate frames of the batch of cameras.
+    """
+    rotated = directions.reshape(directions.shape[0], -1, 3) @ camera.R
+    return rotated.reshape(directions.shape)
+
+
 def create_embeddings_for_implicit_function(
     xyz_world: torch.Tensor,
     xyz_in_camera_coords: bool,
diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
index ecd8468..29c13f9 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
@@ -18,6 +18,9 @@ from pytorch3d.implicitron.models.implicit_function.base import ImplicitFunction
 from pytorch3d.implicitron.models.implicit_function.decoding_functions import (
     DecoderFunctionBase,
 )
+from pytorch3d.implicitron.models.implicit_function.utils import (
+    transform_directions_to_camera,
+)
 from pytorch3d.implicitron.models.implicit_function.voxel_grid import VoxelGridModule
 from pytorch3d.implicitron.models.renderer.base import ImplicitronRayBundle
 from pytorch3d.implicitron.tools.config import (
@@ -251,7 +254,7 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
         # points.shape = [minibatch x n_rays_width x n_rays_height x pts_per_ray x 3]
         # pyre-ignore[6]
         points = ray_bundle_to_ray_points(ray_bundle)
-        directions = ray_bundle.directions.reshape(-1, 3)
+        directions = ray_bundle.directions
         input_shape = points.shape
         num_points_per_ray = input_shape[-2]
         points = points.view(-1, 3)
@@ -322,7 +325,7 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
             points: points at which to calculate density and color.
                 Tensor of shape [n_points, 3].
             directions: from which directions are the points viewed.
-                One per ray. Tensor of shape [n_rays, 3].
+                One per ray. Tensor of shape [minibatch, ..., 3].
             camera: A camera model which will be used to transform the viewing
                 directions
             non_empty_points: indices of points which weren't filtered out;
@@ -407,9 +410,8 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
         if self.xyz_ray_dir_in_camera_coords:
             if camera is None:
                 raise ValueError("Camera must be given if xyz_ray_dir_in_camera_coords")
-            # pyre-fixme[58]: `@` is not supported for operand types `Tensor` and
-            #  `Union[Tensor, Module]`.
-            directions = directions @ camera.R
+            directions = transform_directions_to_camera(directions, camera)
+        directions = directions.reshape(-1, 3)
 
         # ########## get voxel grid output ########## #
         # embeds_color.shape = [..., pts_per_ray, n_features]
-- 
2.43.0


From 4de5e828c55b308bac4ff51a0ba726d6c8432884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 098/147] fix: the scaffold was computed in chunks of
 coordinates instead of planes

---
 .../implicit_function/voxel_grid_implicit_function.py       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
index 29c13f9..815acf5 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
@@ -538,10 +538,10 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
         chunk_size = (
             self.scaffold_occupancy_chunk_size
             if self.scaffold_occupancy_chunk_size > 0
-            else points.shape[-1]
+            else points.shape[-2]
         )
-        for k in range(0, points.shape[-1], chunk_size):
-            points_in_planes = points[..., k : k + chunk_size]
+        for k in range(0, points.shape[-2], chunk_size):
+            points_in_planes = points[..., k : k + chunk_size, :].contiguous()
             planes.append(self._get_density(points_in_planes)[..., 0])
 
         density_cube = torch.cat(planes, dim=-1)
-- 
2.43.0


From 766edd4ede6842ed299c03d45bfa7b9936de1a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 099/147] fix: voxel centres ignored the translation and the
 resolutions of two axes

---
 .../models/implicit_function/voxel_grid.py    | 34 ++++++++-----------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 26b64f5..73523e9 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -1089,27 +1089,21 @@ class VoxelGridModule(Configurable, torch.nn.Module):
                 xresolution, yresolution, zresolution are resolutions of the
                 underlying voxel grid
         """
-        xresolution, yresolution, zresolution = self.voxel_grid.get_resolution(epoch)
-        width, height, depth = self.extents
-        if not self.voxel_grid.get_align_corners():
-            width = (
-                width * (xresolution - 1) / xresolution if xresolution > 1 else width
-            )
-            height = (
-                height * (xresolution - 1) / xresolution if xresolution > 1 else height
-            )
-            depth = (
-                depth * (xresolution - 1) / xresolution if xresolution > 1 else depth
+        axes = []
+        for resolution, extent, center in zip(
+            self.voxel_grid.get_resolution(epoch), self.extents, self.translation
+        ):
+            if resolution == 1 or not self.voxel_grid.get_align_corners():
+                extent = extent * (resolution - 1) / resolution
+            axes.append(
+                torch.linspace(
+                    center - extent / 2,
+                    center + extent / 2,
+                    resolution,
+                    device=self.get_device(),
+                )
             )
-        xs = torch.linspace(
-            -width / 2, width / 2, xresolution, device=self.get_device()
-        )
-        ys = torch.linspace(
-            -height / 2, height / 2, yresolution, device=self.get_device()
-        )
-        zs = torch.linspace(
-            -depth / 2, depth / 2, zresolution, device=self.get_device()
-        )
+        xs, ys, zs = axes
         xmesh, ymesh, zmesh = torch.meshgrid(xs, ys, zs, indexing="ij")
         return torch.stack((xmesh, ymesh, zmesh), dim=3)
 
-- 
2.43.0


From a80670ba5f5deaad7b33d48f4d3c21fe30741793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 100/147] fix: cropping a voxel grid without aligned corners at
 its lower border dropped all voxels

---
 .../models/implicit_function/voxel_grid.py           | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 73523e9..ed5f41a 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -427,7 +427,9 @@ class FullResolutionVoxelGrid(VoxelGridBase):
             minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
             maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
         else:
-            minx, miny, minz = torch.floor(min_point_local01 * resolution - 0.5).long()
+            minx, miny, minz = (
+                torch.floor(min_point_local01 * resolution - 0.5).clamp(min=0).long()
+            )
             maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
 
         return FullResolutionVoxelGridValues(
@@ -557,7 +559,9 @@ class CPFactorizedVoxelGrid(VoxelGridBase):
             minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
             maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
         else:
-            minx, miny, minz = torch.floor(min_point_local01 * resolution - 0.5).long()
+            minx, miny, minz = (
+                torch.floor(min_point_local01 * resolution - 0.5).clamp(min=0).long()
+            )
             maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
 
         return CPFactorizedVoxelGridValues(
@@ -785,7 +789,9 @@ class VMFactorizedVoxelGrid(VoxelGridBase):
             minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
             maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
         else:
-            minx, miny, minz = torch.floor(min_point_local01 * resolution - 0.5).long()
+            minx, miny, minz = (
+                torch.floor(min_point_local01 * resolution - 0.5).clamp(min=0).long()
+            )
             maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
 
         return VMFactorizedVoxelGridValues(
-- 
2.43.0


From 3c5436ff942937aef41f83a0846636baae93c3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:27 +0000
Subject: [PATCH 101/147] fix: cropped voxel grids were stretched to the
 requested box instead of covering their voxels

---
 .../models/implicit_function/voxel_grid.py    | 193 ++++++++++++------
 1 file changed, 126 insertions(+), 67 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index ed5f41a..7cf3aa8 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -359,6 +359,73 @@ class VoxelGridBase(ReplaceableBase, torch.nn.Module):
         """
         raise NotImplementedError()
 
+    def _get_values_resolution(
+        self, grid_values: VoxelGridValuesBase
+    ) -> Tuple[int, ...]:
+        """
+        Returns the number of voxels of `grid_values` along the x, y and z axes.
+        """
+        raise NotImplementedError()
+
+    def _get_crop_indices(
+        self,
+        min_point_local: torch.Tensor,
+        max_point_local: torch.Tensor,
+        resolution: Tuple[int, ...],
+    ) -> Tuple[torch.Tensor, torch.Tensor]:
+        """
+        Returns the indices of the first and of the last voxel along each axis which
+        are needed to evaluate all points between `min_point_local` and
+        `max_point_local`.
+        """
+        assert torch.all(min_point_local < max_point_local)
+        min_point_local01 = (torch.clamp(min_point_local, -1, 1) + 1) / 2
+        max_point_local01 = (torch.clamp(max_point_local, -1, 1) + 1) / 2
+        n_voxels = min_point_local.new_tensor(resolution)
+        if self.align_corners:
+            mins = torch.floor(min_point_local01 * (n_voxels - 1))
+            maxs = torch.ceil(max_point_local01 * (n_voxels - 1))
+        else:
+            mins = torch.floor(min_point_local01 * n_voxels - 0.5).clamp(min=0)
+            maxs = torch.ceil(max_point_local01 * n_voxels - 0.5)
+            maxs = torch.minimum(maxs, n_voxels - 1)
+        return mins.long(), maxs.long()
+
+    def get_crop_bounds_local(
+        self,
+        min_point_local: torch.Tensor,
+        max_point_local: torch.Tensor,
+        grid_values: VoxelGridValuesBase,
+    ) -> Tuple[torch.Tensor, torch.Tensor]:
+        """
+        The voxels preserved by `crop_local` generally cover a larger region than the
+        one between the two points. Returns the local coordinates of the minimum and
+        maximum corners of the region they cover.
+
+        Args:
+            min_point_local: torch.Tensor of shape (3,), as in `crop_local`.
+            max_point_local: torch.Tensor of shape (3,), as in `crop_local`.
+            grid_values: instance of self.values_type which is cropped.
+        Returns:
+            two torch.Tensors of shape (3,).
+        """
+        resolution = self._get_values_resolution(grid_values)
+        mins, maxs = self._get_crop_indices(
+            min_point_local, max_point_local, resolution
+        )
+        n_voxels = min_point_local.new_tensor(resolution)
+        if self.align_corners:
+            min_bound = 2 * mins / (n_voxels - 1) - 1
+            max_bound = 2 * maxs / (n_voxels - 1) - 1
+        else:
+            min_bound = 2 * mins / n_voxels - 1
+            max_bound = 2 * (maxs + 1) / n_voxels - 1
+        # a single voxel covers its axis completely
+        return (
+            torch.where(n_voxels > 1, min_bound, -torch.ones_like(min_bound)),
+            torch.where(n_voxels > 1, max_bound, torch.ones_like(max_bound)),
+        )
+
 
 @dataclass
 class FullResolutionVoxelGridValues(VoxelGridValuesBase):
@@ -408,6 +475,11 @@ class FullResolutionVoxelGrid(VoxelGridBase):
         width, height, depth = self.get_resolution(epoch)
         return {"voxel_grid": (self.n_features, width, height, depth)}
 
+    def _get_values_resolution(
+        self, grid_values: FullResolutionVoxelGridValues
+    ) -> Tuple[int, ...]:
+        return tuple(grid_values.voxel_grid.shape[2:])
+
     # pyre-ignore[14]
     def crop_local(
         self,
@@ -415,22 +487,11 @@ class FullResolutionVoxelGrid(VoxelGridBase):
         max_point_local: torch.Tensor,
         grid_values: FullResolutionVoxelGridValues,
     ) -> FullResolutionVoxelGridValues:
-        assert torch.all(min_point_local < max_point_local)
-        min_point_local = torch.clamp(min_point_local, -1, 1)
-        max_point_local = torch.clamp(max_point_local, -1, 1)
-        _, _, width, height, depth = grid_values.voxel_grid.shape
-        resolution = grid_values.voxel_grid.new_tensor([width, height, depth])
-        min_point_local01 = (min_point_local + 1) / 2
-        max_point_local01 = (max_point_local + 1) / 2
-
-        if self.align_corners:
-            minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
-        else:
-            minx, miny, minz = (
-                torch.floor(min_point_local01 * resolution - 0.5).clamp(min=0).long()
-            )
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
+        mins, maxs = self._get_crop_indices(
+            min_point_local, max_point_local, self._get_values_resolution(grid_values)
+        )
+        minx, miny, minz = mins
+        maxx, maxy, maxz = maxs
 
         return FullResolutionVoxelGridValues(
             voxel_grid=grid_values.voxel_grid[
@@ -538,6 +599,15 @@ class CPFactorizedVoxelGrid(VoxelGridBase):
             shape_dict["basis_matrix"] = (self.n_components, self.n_features)
         return shape_dict
 
+    def _get_values_resolution(
+        self, grid_values: CPFactorizedVoxelGridValues
+    ) -> Tuple[int, ...]:
+        return (
+            grid_values.vector_components_x.shape[2],
+            grid_values.vector_components_y.shape[2],
+            grid_values.vector_components_z.shape[2],
+        )
+
     # pyre-ignore[14]
     def crop_local(
         self,
@@ -545,24 +615,11 @@ class CPFactorizedVoxelGrid(VoxelGridBase):
         max_point_local: torch.Tensor,
         grid_values: CPFactorizedVoxelGridValues,
     ) -> CPFactorizedVoxelGridValues:
-        assert torch.all(min_point_local < max_point_local)
-        min_point_local = torch.clamp(min_point_local, -1, 1)
-        max_point_local = torch.clamp(max_point_local, -1, 1)
-        _, _, width = grid_values.vector_components_x.shape
-        _, _, height = grid_values.vector_components_y.shape
-        _, _, depth = grid_values.vector_components_z.shape
-        resolution = grid_values.vector_components_x.new_tensor([width, height, depth])
-        min_point_local01 = (min_point_local + 1) / 2
-        max_point_local01 = (max_point_local + 1) / 2
-
-        if self.align_corners:
-            minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
-        else:
-            minx, miny, minz = (
-                torch.floor(min_point_local01 * resolution - 0.5).clamp(min=0).long()
-            )
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
+        mins, maxs = self._get_crop_indices(
+            min_point_local, max_point_local, self._get_values_resolution(grid_values)
+        )
+        minx, miny, minz = mins
+        maxx, maxy, maxz = maxs
 
         return CPFactorizedVoxelGridValues(
             vector_components_x=grid_values.vector_components_x[:, :, minx : maxx + 1],
@@ -768,6 +825,15 @@ class VMFactorizedVoxelGrid(VoxelGridBase):
 
         return shape_dict
 
+    def _get_values_resolution(
+        self, grid_values: VMFactorizedVoxelGridValues
+    ) -> Tuple[int, ...]:
+        return (
+            grid_values.vector_components_x.shape[2],
+            grid_values.vector_components_y.shape[2],
+            grid_values.vector_components_z.shape[2],
+        )
+
     # pyre-ignore[14]
     def crop_local(
         self,
@@ -775,24 +841,11 @@ class VMFactorizedVoxelGrid(VoxelGridBase):
         max_point_local: torch.Tensor,
         grid_values: VMFactorizedVoxelGridValues,
     ) -> VMFactorizedVoxelGridValues:
-        assert torch.all(min_point_local < max_point_local)
-        min_point_local = torch.clamp(min_point_local, -1, 1)
-        max_point_local = torch.clamp(max_point_local, -1, 1)
-        _, _, width = grid_values.vector_components_x.shape
-        _, _, height = grid_values.vector_components_y.shape
-        _, _, depth = grid_values.vector_components_z.shape
-        resolution = grid_values.vector_components_x.new_tensor([width, height, depth])
-        min_point_local01 = (min_point_local + 1) / 2
-        max_point_local01 = (max_point_local + 1) / 2
-
-        if self.align_corners:
-            minx, miny, minz = torch.floor(min_point_local01 * (resolution - 1)).long()
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * (resolution - 1)).long()
-        else:
-            minx, miny, minz = (
-                torch.floor(min_point_local01 * resolution - 0.5).clamp(min=0).long()
-            )
-            maxx, maxy, maxz = torch.ceil(max_point_local01 * resolution - 0.5).long()
+        mins, maxs = self._get_crop_indices(
+            min_point_local, max_point_local, self._get_values_resolution(grid_values)
+        )
+        minx, miny, minz = mins
+        maxx, maxy, maxz = maxs
 
         return VMFactorizedVoxelGridValues(
             vector_components_x=grid_values.vector_components_x[:, :, minx : maxx + 1],
@@ -1035,24 +1088,30 @@ class VoxelGridModule(Configurable, torch.nn.Module):
         #  torch.nn.modules.module.Module]` is not a function.
         # pyre-fixme[29]: `Union[Tensor, Module]` is not a function.
         old_grid_values = self.voxel_grid.values_type(**self.params)
-        new_grid_values = self.voxel_grid.crop_world(
-            min_point, max_point, old_grid_values, locator
+        min_point_local, max_point_local = (
+            locator.world_to_local_coords(point[None])[0]
+            for point in (min_point, max_point)
         )
-        grid_values, _ = self.voxel_grid.change_resolution(
-            new_grid_values, grid_values_with_wanted_resolution=old_grid_values
+        min_bound, max_bound = (
+            locator.local_to_world_coords(bound[None])[0]
+            for bound in self.voxel_grid.get_crop_bounds_local(
+                min_point_local, max_point_local, old_grid_values
+            )
         )
-        # pyre-fixme[16]: `VoxelGridModule` has no attribute `params`.
-        self.params = torch.nn.ParameterDict(
-            {
-                k: torch.nn.Parameter(val)
-                for k, val in vars(grid_values).items()
-                if val is not None
-            }
+        new_grid_values = self.voxel_grid.crop_local(
+            min_point_local, max_point_local, old_grid_values
+        )
+        grid_values, _ = self.voxel_grid.change_resolution(
+            new_grid_values,
+            grid_values_with_wanted_resolution=old_grid_values,
+            align_corners=self.voxel_grid.get_align_corners(),
         )
-        # New center of voxel grid is the middle point between max and min points.
-        self.translation = tuple((max_point + min_point) / 2)
-        # new extents of voxel grid are distances between min and max points
-        self.extents = tuple(max_point - min_point)
+        self.set_voxel_grid_parameters(grid_values)
+        # New center of voxel grid is the middle of the region covered by the
+        # preserved voxels, which contains both min and max points.
+        self.translation = tuple(((max_bound + min_bound) / 2).tolist())
+        # new extents of voxel grid are the extents of this region
+        self.extents = tuple((max_bound - min_bound).tolist())
 
     def _get_volume_locator(self) -> VolumeLocator:
         """
-- 
2.43.0


From b89d3d3f31760b0c98a4e39cdbac1b745e52d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:27 +0000
Subject: [PATCH 102/147] fix: voxel grids without aligned corners were resized
 with aligned corners

---
 pytorch3d/implicitron/models/implicit_function/voxel_grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 7cf3aa8..9d726cd 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -1010,7 +1010,9 @@ class VoxelGridModule(Configurable, torch.nn.Module):
         # pyre-fixme[29]: `Union[Tensor, Module]` is not a function.
         grid_values = self.voxel_grid.values_type(**self.params)
         grid_values, change = self.voxel_grid.change_resolution(
-            grid_values, epoch=epoch
+            grid_values,
+            epoch=epoch,
+            align_corners=self.voxel_grid.get_align_corners(),
         )
         if change:
             self.set_voxel_grid_parameters(grid_values)
-- 
2.43.0


From e8b02174d3c3219ce882e1c82ea0cc76dd17e973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:56 +0000
Subject: [PATCH 103/147] fix: checkpoints did not restore cropped voxel grid
 locations and calculated scaffolds

---
 .../models/implicit_function/voxel_grid.py    | 16 ++++++++++++++++
 .../voxel_grid_implicit_function.py           | 19 +++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 9d726cd..3dfd3f8 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -1056,6 +1056,8 @@ class VoxelGridModule(Configurable, torch.nn.Module):
             nothing
         """
         '''
+        # older checkpoints do not contain the location of the grid
+        state_dict.setdefault(prefix + "_extra_state", self.get_extra_state())
         new_params = {}
         # pyre-fixme[29]: `Union[(self: Tensor) -> Any, Tensor, Module]` is not a
         #  function.
@@ -1066,6 +1068,20 @@ class VoxelGridModule(Configurable, torch.nn.Module):
         # pyre-fixme[29]: `Union[Tensor, Module]` is not a function.
         self.set_voxel_grid_parameters(self.voxel_grid.values_type(**new_params))
 
+    def get_extra_state(self) -> Dict[str, Tuple[float, ...]]:
+        """
+        The location of the grid, which changes when the grid is cropped, belongs to
+        the state of the module.
+        """
+        return {
+            "extents": tuple(float(e) for e in self.extents),
+            "translation": tuple(float(t) for t in self.translation),
+        }
+
+    def set_extra_state(self, state: Dict[str, Tuple[float, ...]]) -> None:
+        self.extents = tuple(state["extents"])
+        self.translation = tuple(state["translation"])
+
     def get_device(self) -> torch.device:
         """
         Returns torch.device on which module parameters are located
diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
index 815acf5..f499453 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
@@ -214,6 +214,25 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
         # pyre-fixme[16]: `VoxelGridImplicitFunction` has no attribute
         #  `_scaffold_ready`.
         self._scaffold_ready = False
+        self._register_load_state_dict_pre_hook(self._set_missing_extra_state)
+
+    def get_extra_state(self) -> Dict[str, bool]:
+        """
+        Whether the scaffold has been calculated belongs to the state of the module.
+        """
+        return {"scaffold_ready": self._scaffold_ready}
+
+    def set_extra_state(self, state: Dict[str, bool]) -> None:
+        # pyre-fixme[16]: `VoxelGridImplicitFunction` has no attribute
+        #  `_scaffold_ready`.
+        self._scaffold_ready = state["scaffold_ready"]
+
+    def _set_missing_extra_state(self, state_dict: dict, prefix: str, *args) -> None:
+        """
+        Automatically ran before loading the parameters with `load_state_dict()`.
+        Older checkpoints do not tell whether the scaffold has been calculated.
+        """
+        state_dict.setdefault(prefix + "_extra_state", self.get_extra_state())
 
     def forward(
         self,
-- 
2.43.0


From ba03440241ebf13afa8e583a07e9fabb3ea115c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:42 +0000
Subject: [PATCH 104/147] fix: sample source views of screen-space cameras at
 NDC locations

---
 .../implicitron/models/view_pooler/view_sampler.py     | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/view_pooler/view_sampler.py b/pytorch3d/implicitron/models/view_pooler/view_sampler.py
index 08e3626..9a962f9 100644
--- a/pytorch3d/implicitron/models/view_pooler/view_sampler.py
+++ b/pytorch3d/implicitron/models/view_pooler/view_sampler.py
@@ -142,8 +142,16 @@ def project_points_and_sample(
 
     camera_rep, pts_rep = cameras_points_cartesian_product(camera, pts)
 
+    # The features are sampled at NDC locations, so cameras defined in the screen
+    # space have to be converted to NDC.
+    project_fn = (
+        camera_rep.transform_points
+        if camera_rep.in_ndc()
+        else camera_rep.transform_points_ndc
+    )
+
     # The eps here is super-important to avoid NaNs in backprop!
-    proj_rep = camera_rep.transform_points(
+    proj_rep = project_fn(
         pts_rep.reshape(n_cameras * pts_batch, -1, 3), eps=eps
     )[..., :2]
     # [ pts1 in cam1, pts2 in cam1, pts3 in cam1,
-- 
2.43.0


From 474737b7a841bac21e5e461480d80a71334bc60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:42 +0000
Subject: [PATCH 105/147] fix: exclude masked-out views from the max reduction
 of view-pooled features

---
 pytorch3d/implicitron/models/view_pooler/feature_aggregator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
index 5d600b0..7a3aff5 100644
--- a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
+++ b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
@@ -685,6 +685,7 @@ def _max_reduction_function(
     dim: int = 1,
     big_M_factor: float = 10.0,
 ):
-    big_M = x.max(dim=dim, keepdim=True).values.abs() * big_M_factor
+    # big_M has to dominate all magnitudes so that a masked-out view never wins
+    big_M = x.abs().max(dim=dim, keepdim=True).values * big_M_factor
     max_ = (x * w - ((1 - w) * big_M)).max(dim=dim, keepdim=True).values
     return max_
-- 
2.43.0


From e80c88e4a6c9ffe08f95ee090bff20792e996241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:42 +0000
Subject: [PATCH 106/147] fix: count the channels of sampled features in
 get_aggregated_feature_dim

---
 .../models/view_pooler/feature_aggregator.py          | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
index 7a3aff5..c37f49f 100644
--- a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
+++ b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
@@ -440,10 +440,13 @@ def _get_reduction_aggregator_feature_dim(
     feats_or_feats_dim: Union[Dict[str, torch.Tensor], int],
     reduction_functions: Sequence[ReductionFunction],
 ) -> int:
-    if isinstance(feats_or_feats_dim, int):
-        feat_dim = feats_or_feats_dim
-    else:
-        feat_dim = int(sum(f.shape[1] for f in feats_or_feats_dim.values()))
+    if not isinstance(feats_or_feats_dim, int):
+        # each feature type is reduced separately and stores channels in the last dim
+        return sum(
+            _get_reduction_aggregator_feature_dim(int(f.shape[-1]), reduction_functions)
+            for f in feats_or_feats_dim.values()
+        )
+    feat_dim = feats_or_feats_dim
     if len(reduction_functions) == 0:
         return feat_dim
     return sum(
-- 
2.43.0


From a07c8e25fc8504c46465c0cf018cbb9a6b609120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:42 +0000
Subject: [PATCH 107/147] fix: return packed features for ragged point clouds
 from vert_align

---
 pytorch3d/ops/vert_align.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/ops/vert_align.py b/pytorch3d/ops/vert_align.py
index fd1a90d..4bc8514 100644
--- a/pytorch3d/ops/vert_align.py
+++ b/pytorch3d/ops/vert_align.py
@@ -97,11 +97,13 @@ def vert_align(
         # flatten the first two dimensions: (N*V, C)
         feats_sampled = feats_sampled.view(-1, feats_sampled.shape[-1])
         if hasattr(verts, "verts_padded_to_packed_idx"):
-            idx = (
-                verts.verts_padded_to_packed_idx()
-                .view(-1, 1)
-                .expand(-1, feats_sampled.shape[-1])
-            )
+            padded_to_packed_idx = verts.verts_padded_to_packed_idx()
+        elif hasattr(verts, "padded_to_packed_idx"):
+            padded_to_packed_idx = verts.padded_to_packed_idx()
+        else:
+            padded_to_packed_idx = None
+        if padded_to_packed_idx is not None:
+            idx = padded_to_packed_idx.view(-1, 1).expand(-1, feats_sampled.shape[-1])
             feats_sampled = feats_sampled.gather(0, idx)  # (sum(V), C)
 
     return feats_sampled
-- 
2.43.0


From 06214c919bc0b7705da5df98e0eb60cdcd5f8dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:41 +0000
Subject: [PATCH 108/147] fix: broadcast the view weights over the channels in
 the max reduction

---
 pytorch3d/implicitron/models/view_pooler/feature_aggregator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
index c37f49f..edf5d25 100644
--- a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
+++ b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
@@ -690,5 +690,6 @@ def _max_reduction_function(
 ):
     # big_M has to dominate all magnitudes so that a masked-out view never wins
     big_M = x.abs().max(dim=dim, keepdim=True).values * big_M_factor
+    w = w[..., None]
     max_ = (x * w - ((1 - w) * big_M)).max(dim=dim, keepdim=True).values
     return max_
-- 
2.43.0


From b05bfa126a93d94d4ceb9df1624ed7cbc59b5f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 109/147] fix: collate integer indices of sequence point clouds

---
 pytorch3d/implicitron/dataset/frame_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/frame_data.py b/pytorch3d/implicitron/dataset/frame_data.py
index 5ec6214..df26d24 100644
--- a/pytorch3d/implicitron/dataset/frame_data.py
+++ b/pytorch3d/implicitron/dataset/frame_data.py
@@ -412,7 +412,7 @@ class FrameData(Mapping[str, Any]):
                 id_to_idx[pc_id].append(i)
 
             sequence_point_cloud = []
-            sequence_point_cloud_idx = -np.ones((len(batch),))
+            sequence_point_cloud_idx = -np.ones((len(batch),), dtype=np.int64)
             for i, ind in enumerate(id_to_idx.values()):
                 sequence_point_cloud_idx[ind] = i
                 sequence_point_cloud.append(batch[ind[0]].sequence_point_cloud)
-- 
2.43.0


From 07cee9b555400d5ebaa9e3d19b4c26c2fac45570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 110/147] fix: bounding boxes of single-pixel masks looped
 forever

---
 pytorch3d/implicitron/dataset/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytorch3d/implicitron/dataset/utils.py b/pytorch3d/implicitron/dataset/utils.py
index c8c9726..918afe2 100644
--- a/pytorch3d/implicitron/dataset/utils.py
+++ b/pytorch3d/implicitron/dataset/utils.py
@@ -91,6 +91,9 @@ def get_bbox_from_mask(
         warnings.warn("Empty mask is provided for bbox extraction.", stacklevel=1)
         return 0, 0, 1, 1
 
+    if mask.size == 1:  # the full image is the only valid box
+        return 0, 0, 1, 1
+
     if not mask.min() >= 0.0:
         warnings.warn("Negative values in the mask for bbox extraction.", stacklevel=1)
         mask = mask.clip(min=0.0)
-- 
2.43.0


From 1fa7a4a5197fd05f6f90b4b97119812551742694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:28 +0000
Subject: [PATCH 111/147] fix: rescale crop boxes from the image to the depth
 map resolution, not the other way around

---
 pytorch3d/implicitron/dataset/frame_data.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/frame_data.py b/pytorch3d/implicitron/dataset/frame_data.py
index df26d24..42f3792 100644
--- a/pytorch3d/implicitron/dataset/frame_data.py
+++ b/pytorch3d/implicitron/dataset/frame_data.py
@@ -299,9 +299,8 @@ class FrameData(Mapping[str, Any]):
             clamp_bbox_xyxy_depth = rescale_bbox(
                 # pyrefly: ignore [bad-argument-type]
                 clamp_bbox_xyxy,
-                # pyrefly: ignore [bad-argument-type]
+                tuple(effective_image_size_hw.tolist()),
                 tuple(depth_map.shape[-2:]),
-                effective_image_size_hw,
             ).long()
             self.depth_map = crop_around_box(
                 depth_map,
@@ -314,9 +313,8 @@ class FrameData(Mapping[str, Any]):
             clamp_bbox_xyxy_depth = rescale_bbox(
                 # pyrefly: ignore [bad-argument-type]
                 clamp_bbox_xyxy,
-                # pyrefly: ignore [bad-argument-type]
+                tuple(effective_image_size_hw.tolist()),
                 tuple(depth_mask.shape[-2:]),
-                effective_image_size_hw,
             ).long()
             self.depth_mask = crop_around_box(
                 depth_mask,
-- 
2.43.0


From 57511fd5ed3df1fe5b79dfcfb2dd5c4a2ae59fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:53 +0000
Subject: [PATCH 112/147] fix: sequence_frames_in_order mixed up indices with a
 subset filter and failed without timestamps

---
 pytorch3d/implicitron/dataset/dataset_base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/dataset_base.py b/pytorch3d/implicitron/dataset/dataset_base.py
index 78e6f20..5bbaad4 100644
--- a/pytorch3d/implicitron/dataset/dataset_base.py
+++ b/pytorch3d/implicitron/dataset/dataset_base.py
@@ -122,14 +122,14 @@ class DatasetBase(GenericWorkaround, torch.utils.data.Dataset[FrameData]):
         """
         # pyre-ignore[16]
         seq_frame_indices = self._seq_to_idx[seq_name]
-        nos_timestamps = self.get_frame_numbers_and_timestamps(
-            seq_frame_indices, subset_filter
-        )
-
+        # querying indices one by one since those filtered out are skipped in the output
         yield from sorted(
             [
-                (timestamp, frame_no, idx)
-                for idx, (frame_no, timestamp) in zip(seq_frame_indices, nos_timestamps)
+                (timestamp if timestamp is not None else 0.0, frame_no, idx)
+                for idx in seq_frame_indices
+                for frame_no, timestamp in self.get_frame_numbers_and_timestamps(
+                    [idx], subset_filter
+                )
             ]
         )
 
-- 
2.43.0


From c5ac180b25e990815d288f6e3b290ae031d92a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 113/147] fix: shift the evaluation batches of joined datasets

---
 pytorch3d/implicitron/dataset/json_index_dataset.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/json_index_dataset.py b/pytorch3d/implicitron/dataset/json_index_dataset.py
index 2ea4b09..fb454e3 100644
--- a/pytorch3d/implicitron/dataset/json_index_dataset.py
+++ b/pytorch3d/implicitron/dataset/json_index_dataset.py
@@ -218,6 +218,7 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
         """
         if not all(isinstance(d, JsonIndexDataset) for d in other_datasets):
             raise ValueError("This function can only join a list of JsonIndexDataset")
+        n_frames = len(self)
         # pyre-ignore[16]
         self.frame_annots.extend([fa for d in other_datasets for fa in d.frame_annots])
         # pyre-ignore[16]
@@ -242,7 +243,14 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
                 " eval_batches defined, or all should have their eval batches undefined."
             )
         if self.eval_batches is not None:
-            self.eval_batches = sum(all_eval_batches, [])
+            eval_batches = list(self.eval_batches)
+            for d in other_datasets:
+                # the frames of d follow all the preceding frames
+                eval_batches.extend(
+                    [idx + n_frames for idx in batch] for batch in d.eval_batches
+                )
+                n_frames += len(d)
+            self.eval_batches = eval_batches
         self._invalidate_indexes(filter_seq_annots=True)
 
     def is_filtered(self) -> bool:
-- 
2.43.0


From 51e3cb75422e5e72953db28019c09f541999134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 114/147] fix: do not join a dataset shared by several subsets
 repeatedly

---
 pytorch3d/implicitron/dataset/dataset_map_provider.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/dataset_map_provider.py b/pytorch3d/implicitron/dataset/dataset_map_provider.py
index 7133b36..7e67e46 100644
--- a/pytorch3d/implicitron/dataset/dataset_map_provider.py
+++ b/pytorch3d/implicitron/dataset/dataset_map_provider.py
@@ -67,6 +67,7 @@ class DatasetMap:
             other_dataset_maps: The list of dataset maps to be joined into the
                 current dataset map.
         """
+        joined = []
         for set_ in ["train", "val", "test"]:
             dataset_list = [
                 getattr(self, set_),
@@ -77,8 +78,11 @@ class DatasetMap:
                 setattr(self, set_, None)
                 continue
             d0 = dataset_list[0]
-            if len(dataset_list) > 1:
+            # the same dataset can be shared by several subsets, e.g. in test_on_train
+            dataset_ids = [id(d) for d in dataset_list]
+            if len(dataset_list) > 1 and dataset_ids not in joined:
                 d0.join(dataset_list[1:])
+                joined.append(dataset_ids)
             setattr(self, set_, d0)
 
 
-- 
2.43.0


From 5e1622e568bae40fa1827324ac45da76e5ecfaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 115/147] fix: JsonIndexDataset listed sequences without frames

---
 pytorch3d/implicitron/dataset/json_index_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/json_index_dataset.py b/pytorch3d/implicitron/dataset/json_index_dataset.py
index fb454e3..b80aece 100644
--- a/pytorch3d/implicitron/dataset/json_index_dataset.py
+++ b/pytorch3d/implicitron/dataset/json_index_dataset.py
@@ -590,7 +590,7 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
             if f["frame_annotation"].sequence_name in self.seq_annots
         ]
 
-        self._invalidate_indexes()
+        self._invalidate_indexes(filter_seq_annots=True)
 
         if self.n_frames_per_sequence > 0:
             logger.info(f"Taking max {self.n_frames_per_sequence} per sequence.")
@@ -639,7 +639,7 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
         for idx, entry in enumerate(self.frame_annots):
             seq_to_idx[entry["frame_annotation"].sequence_name].append(idx)
         # pyre-ignore[16]
-        self._seq_to_idx = seq_to_idx
+        self._seq_to_idx = dict(seq_to_idx)
 
     def _local_path(self, path: str) -> str:
         if self.path_manager is None:
-- 
2.43.0


From ae2b1760fa70afbad7826926de826eecfd44d608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 116/147] fix: sort_frames did not order frames sampled with
 n_frames_per_sequence

---
 pytorch3d/implicitron/dataset/json_index_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytorch3d/implicitron/dataset/json_index_dataset.py b/pytorch3d/implicitron/dataset/json_index_dataset.py
index b80aece..b2ca050 100644
--- a/pytorch3d/implicitron/dataset/json_index_dataset.py
+++ b/pytorch3d/implicitron/dataset/json_index_dataset.py
@@ -604,6 +604,8 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
                     sorted(seq_indices), len(seq_indices)
                 )
                 keep_idx.extend(seq_idx_shuffled[: self.n_frames_per_sequence])
+            if self.sort_frames:
+                keep_idx.sort()
 
             logger.info(
                 "... filtered %d -> %d" % (len(self.frame_annots), len(keep_idx))
-- 
2.43.0


From 62495e5bae1934f6b53190fe239e7556c357aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:50 +0000
Subject: [PATCH 117/147] fix: evaluation batches of subset_from_frame_index
 pointed to other frames

---
 pytorch3d/implicitron/dataset/json_index_dataset.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pytorch3d/implicitron/dataset/json_index_dataset.py b/pytorch3d/implicitron/dataset/json_index_dataset.py
index b2ca050..7003344 100644
--- a/pytorch3d/implicitron/dataset/json_index_dataset.py
+++ b/pytorch3d/implicitron/dataset/json_index_dataset.py
@@ -388,6 +388,15 @@ class JsonIndexDataset(DatasetBase, ReplaceableBase):
             [self.frame_annots[i] for i in valid_dataset_indices]
         )
 
+        # Point the evaluation batches to the retained frames.
+        if self.eval_batches is not None:
+            old_to_new = {old: new for new, old in enumerate(valid_dataset_indices)}
+            eval_batches = [
+                [old_to_new[idx] for idx in batch if idx in old_to_new]
+                for batch in self.eval_batches
+            ]
+            dataset_new.eval_batches = [batch for batch in eval_batches if batch]
+
         # This will kill all unneeded sequence annotations.
         dataset_new._invalidate_indexes(filter_seq_annots=True)
 
-- 
2.43.0


From 3613dea98b480335b3f7226f22a29826818a00a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:50 +0000
Subject: [PATCH 118/147] fix: the order of test frames with known views
 depended on the hash seed

---
 .../dataset/json_index_dataset_map_provider_v2.py            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/json_index_dataset_map_provider_v2.py b/pytorch3d/implicitron/dataset/json_index_dataset_map_provider_v2.py
index cf1d985..1b1266b 100644
--- a/pytorch3d/implicitron/dataset/json_index_dataset_map_provider_v2.py
+++ b/pytorch3d/implicitron/dataset/json_index_dataset_map_provider_v2.py
@@ -430,7 +430,8 @@ class JsonIndexDatasetMapProviderV2(DatasetMapProviderBase):
             sequence_name = frame_entry[0]
             sequence_to_train_frames[sequence_name].append(frame_entry)
         sequence_to_train_frames = dict(sequence_to_train_frames)
-        test_subset_mapping_set = {tuple(s) for s in subset_mapping["test"]}
+        # a dict is used as an ordered set to keep the order of the frames stable
+        test_subset_mapping_set = {tuple(s): None for s in subset_mapping["test"]}
 
         # extend the eval batches / subset mapping with the additional examples
         eval_batch_index_out = copy.deepcopy(eval_batch_index)
@@ -448,7 +449,7 @@ class JsonIndexDatasetMapProviderV2(DatasetMapProviderBase):
             batch.extend(entries_to_add)
 
             # also add these new entries to the test subset mapping
-            test_subset_mapping_set.update(tuple(e) for e in entries_to_add)
+            test_subset_mapping_set.update((tuple(e), None) for e in entries_to_add)
 
         return eval_batch_index_out, list(test_subset_mapping_set)
 
-- 
2.43.0


From a55208943d1746f50bd373b598c409e46b8d1990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:50 +0000
Subject: [PATCH 119/147] fix: foreground probabilities of known test frames
 were missing

---
 .../implicitron/dataset/single_sequence_dataset.py   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/single_sequence_dataset.py b/pytorch3d/implicitron/dataset/single_sequence_dataset.py
index 058db29..2ec168c 100644
--- a/pytorch3d/implicitron/dataset/single_sequence_dataset.py
+++ b/pytorch3d/implicitron/dataset/single_sequence_dataset.py
@@ -127,12 +127,6 @@ class SingleSceneDatasetMapProviderBase(DatasetMapProviderBase):
         # pyre-ignore[16]
         split = self.i_split[split_idx]
         frame_types = [frame_type] * len(split)
-        fg_probabilities = (
-            None
-            # pyre-ignore[16]
-            if self.fg_probabilities is None
-            else self.fg_probabilities[split]  # pyrefly: ignore [bad-index]
-        )
         eval_batches = [[i] for i in range(len(split))]
         if split_idx != 0 and self.n_known_frames_for_test is not None:
             # pyrefly: ignore [missing-attribute]
@@ -148,6 +142,12 @@ class SingleSceneDatasetMapProviderBase(DatasetMapProviderBase):
                     batch.extend((to_add + len(split)).tolist())
             split = np.concatenate([split, train_split])
             frame_types.extend([DATASET_TYPE_KNOWN] * len(train_split))
+        fg_probabilities = (
+            None
+            # pyre-ignore[16]
+            if self.fg_probabilities is None
+            else self.fg_probabilities[split]  # pyrefly: ignore [bad-index]
+        )
 
         # pyre-ignore[28]
         return SingleSceneDataset(
-- 
2.43.0


From 8a91a2a56e07cb481bd8410caca09896ae4bf471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:33 +0000
Subject: [PATCH 120/147] fix: SqlIndexDataset paired timestamps with indices
 of other frames and did not order frames by time

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 84a488b..8506849 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -356,9 +356,11 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             )
 
         index_slice, _ = self._get_frame_no_coalesced_ts_by_row_indices(idxs)
-        # alternatively, we can use `.values.tolist()`, which may be faster
-        # but returns a list of lists
-        return list(index_slice.itertuples())
+        return list(
+            index_slice[["frame_number", "frame_timestamp"]].itertuples(
+                index=False, name=None
+            )
+        )
 
     # override
     def sequence_frames_in_order(
@@ -393,6 +395,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             rows_seq, seq_name, subset_filter
         )
         index_slice["idx"] = idx
+        index_slice = index_slice.sort_values(["frame_timestamp", "frame_number"])
 
         yield from index_slice.itertuples(index=False)
 
@@ -848,7 +851,9 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
                 "do they belong to more than one sequence?"
             )
 
-        return frame_no_ts, idxs
+        # the database returns rows in arbitrary order, align them with idxs
+        frame_no_ts = frame_no_ts.set_index("frame_number").loc[frames].reset_index()
+        return frame_no_ts[["frame_timestamp", "frame_number"]], idxs
 
     def _local_path(self, path: str) -> str:
         if self.path_manager is None:
-- 
2.43.0


From ead4f7f15cb24fbfd9995d20bd0ad2609360a6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:33 +0000
Subject: [PATCH 121/147] fix: custom SQL clauses with OR bypassed the other
 filters

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 8506849..22f77cd 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -491,7 +491,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         if pick_sequences_sql_clause := self.pick_sequences_sql_clause:
             print("Applying the custom SQL clause.")
             # pyre-ignore[6]: TextClause is compatible with where conditions
-            where_conditions.append(sa.text(pick_sequences_sql_clause))
+            where_conditions.append(sa.text(f"({pick_sequences_sql_clause})"))
 
         def add_where(stmt):
             return stmt.where(*where_conditions) if where_conditions else stmt
@@ -645,7 +645,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         if pick_frames_sql_clause := self.pick_frames_sql_clause:
             logger.info("Applying the custom SQL clause.")
             # pyre-ignore[6]: TextClause is compatible with where conditions
-            pick_frames_criteria.append(sa.text(pick_frames_sql_clause))
+            pick_frames_criteria.append(sa.text(f"({pick_frames_sql_clause})"))
 
         if pick_frames_criteria:
             index = self._pick_frames_by_criteria(index, pick_frames_criteria)
@@ -713,7 +713,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         if pick_frames_sql_clause := self.pick_frames_sql_clause:
             logger.info("  applying custom SQL clause")
             # pyre-ignore[6]: TextClause is compatible with where conditions
-            where_conditions.append(sa.text(pick_frames_sql_clause))
+            where_conditions.append(sa.text(f"({pick_frames_sql_clause})"))
 
         if where_conditions:
             stmt = stmt.where(*where_conditions)
-- 
2.43.0


From 360bfc268dc0ed51d129a97dc1726bcf9c046bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:33 +0000
Subject: [PATCH 122/147] fix: n_frames_per_sequence=0 removed all frames,
 pick_frames_sql_clause was not counted as filter

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 22f77cd..42898cd 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -190,7 +190,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             # still use the concatenated lists, assuming they cover the whole dataset
             index = self._build_index_from_db(sequences)
 
-        if self.n_frames_per_sequence >= 0:
+        if self.n_frames_per_sequence > 0:
             index = self._stratified_sample_index(index)
 
         if len(index) == 0:
@@ -448,6 +448,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             or self.limit_sequences_per_category_to > 0
             or len(self.pick_sequences) > 0
             or self.pick_sequences_sql_clause is not None
+            or self.pick_frames_sql_clause is not None
             or len(self.exclude_sequences) > 0
             or len(self.pick_categories) > 0
             or self.n_frames_per_sequence > 0
-- 
2.43.0


From d47bee81c6a63c0af12a6e88bfef735cb4acf125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:33 +0000
Subject: [PATCH 123/147] fix: limits on sequences of SqlIndexDataset counted
 sequences outside of the subsets

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 23 +++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 42898cd..09d629d 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -494,6 +494,18 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             # pyre-ignore[6]: TextClause is compatible with where conditions
             where_conditions.append(sa.text(f"({pick_sequences_sql_clause})"))
 
+        limit_sequences = (
+            self.limit_sequences_to > 0 or self.limit_sequences_per_category_to > 0
+        )
+        if self.subsets and limit_sequences:
+            # only sequences within the subsets count towards the limits
+            subset_sequences = self._load_subset_lists()["sequence_name"].unique()
+            where_conditions.append(
+                self.sequence_annotations_type.sequence_name.in_(
+                    subset_sequences.tolist()
+                )
+            )
+
         def add_where(stmt):
             return stmt.where(*where_conditions) if where_conditions else stmt
 
@@ -591,9 +603,7 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
 
         return index
 
-    def _build_index_from_subset_lists(
-        self, sequences: Optional[pd.Series]
-    ) -> pd.DataFrame:
+    def _load_subset_lists(self) -> pd.DataFrame:
         if not self.subset_lists_file:
             raise ValueError("Requested subsets but subset_lists_file not given")
 
@@ -604,6 +614,13 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             index = self._load_subsets_from_json(subset_lists_path)
         else:
             index = self._load_subsets_from_sql(subset_lists_path)
+
+        return index
+
+    def _build_index_from_subset_lists(
+        self, sequences: Optional[pd.Series]
+    ) -> pd.DataFrame:
+        index = self._load_subset_lists()
         index = index.set_index(["sequence_name", "frame_number"])
         logger.info(f"  -> loaded {len(index)} samples of {self.subsets}.")
 
-- 
2.43.0


From 90c7472e9c33b340f22ab72657005ec8301af55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:32 +0000
Subject: [PATCH 124/147] fix: limit_sequences_to picked arbitrary sequences
 together with limit_sequences_per_category_to

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 09d629d..0bdf65a 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -509,6 +509,8 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
         def add_where(stmt):
             return stmt.where(*where_conditions) if where_conditions else stmt
 
+        # NOTE: ROWID is SQLite-specific
+        row_id = sa.literal_column("ROWID")
         if self.limit_sequences_per_category_to <= 0:
             stmt = add_where(sa.select(self.sequence_annotations_type.sequence_name))
         else:
@@ -516,10 +518,11 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
                 self.sequence_annotations_type.sequence_name,
                 sa.func.row_number()
                 .over(
-                    order_by=sa.text("ROWID"),  # NOTE: ROWID is SQLite-specific
+                    order_by=row_id,
                     partition_by=self.sequence_annotations_type.category,
                 )
                 .label("row_number"),
+                row_id.label("row_id"),
             )
 
             subquery = add_where(subquery).subquery()
@@ -527,13 +530,13 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
                 # pyre-ignore[6]: SQLAlchemy column comparison returns ColumnElement, not bool
                 subquery.c.row_number <= self.limit_sequences_per_category_to
             )
+            row_id = subquery.c.row_id
 
         if self.limit_sequences_to > 0:
             logger.info(
                 f"Limiting dataset to first {self.limit_sequences_to} sequences"
             )
-            # NOTE: ROWID is SQLite-specific
-            stmt = stmt.order_by(sa.text("ROWID")).limit(self.limit_sequences_to)
+            stmt = stmt.order_by(row_id).limit(self.limit_sequences_to)
 
         if (
             not where_conditions
-- 
2.43.0


From 3ad553592207bddadc09473eae523c76c18d2c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:32 +0000
Subject: [PATCH 125/147] fix: sequence_indices_in_order ignored time with
 precompute_seq_to_idx

---
 pytorch3d/implicitron/dataset/sql_dataset.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/sql_dataset.py b/pytorch3d/implicitron/dataset/sql_dataset.py
index 0bdf65a..6bbc45d 100644
--- a/pytorch3d/implicitron/dataset/sql_dataset.py
+++ b/pytorch3d/implicitron/dataset/sql_dataset.py
@@ -213,10 +213,22 @@ class SqlIndexDataset(DatasetBase, ReplaceableBase):
             logger.warning(
                 "Using precompute_seq_to_idx is deprecated and will be removed in the future."
             )
-            self._index["rowid"] = np.arange(len(self._index))
-            groupby = self._index.groupby("sequence_name", sort=False)["rowid"]
+            # order the frames within sequences as in `sequence_frames_in_order`
+            stmt = sa.select(
+                self.frame_annotations_type.sequence_name,
+                self.frame_annotations_type.frame_number,
+                sa.sql.functions.coalesce(
+                    self.frame_annotations_type.frame_timestamp, 0
+                ).label("frame_timestamp"),
+            )
+            with self._sql_engine.connect() as connection:
+                timestamps = pd.read_sql_query(stmt, connection)
+            rows = self._index.index.to_frame(index=False)
+            rows["rowid"] = np.arange(len(rows))
+            rows = rows.merge(timestamps, on=["sequence_name", "frame_number"])
+            rows = rows.sort_values(["frame_timestamp", "frame_number"])
+            groupby = rows.groupby("sequence_name", sort=False)["rowid"]
             self._seq_to_indices = dict(groupby.apply(list))  # pyre-ignore
-            del self._index["rowid"]
 
     def __len__(self) -> int:
         return len(self._index)
-- 
2.43.0


From f6fd35d5ad11024195bd571f52792125e80ad6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:12 +0000
Subject: [PATCH 126/147] fix: load_dataclass truncated inner lists of
 different lengths

---
 pytorch3d/implicitron/dataset/types.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/dataset/types.py b/pytorch3d/implicitron/dataset/types.py
index 2ddeb3b..cda9ae5 100644
--- a/pytorch3d/implicitron/dataset/types.py
+++ b/pytorch3d/implicitron/dataset/types.py
@@ -11,6 +11,7 @@ import dataclasses
 import gzip
 import json
 from dataclasses import dataclass, Field, MISSING
+from itertools import islice
 from typing import (
     Any,
     cast,
@@ -215,10 +216,17 @@ def _dataclass_list_from_dict_list(dlist, typeannot):
         ]
         return [cls(*converted_as_tuple) for converted_as_tuple in zip(*res_T)]
     elif issubclass(cls, (list, tuple)):
-        # For list/tuple, call the function recursively on the lists of corresponding positions
         types = get_args(typeannot)
-        if len(types) == 1:  # probably List; replicate for all items
-            types = types * len(dlist[0])
+        if len(types) == 1:
+            # probably List; call the function recursively on concatenated items
+            # since the lengths can differ
+            all_items_iter = iter(
+                _dataclass_list_from_dict_list(
+                    [item for obj in dlist for item in obj], types[0]
+                )
+            )
+            return [cls(islice(all_items_iter, len(obj))) for obj in dlist]
+        # For tuple, call the function recursively on the lists of corresponding positions
         dlist_T = zip(*dlist)
         res_T = (
             _dataclass_list_from_dict_list(pos_list, tp)
-- 
2.43.0


From 8208a6aef0056977e5bade07f9b554833e824bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:12 +0000
Subject: [PATCH 127/147] fix: Stats.add_log_vars logged already logged
 variables twice

---
 pytorch3d/implicitron/tools/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/stats.py b/pytorch3d/implicitron/tools/stats.py
index 2798b63..9c4f79c 100644
--- a/pytorch3d/implicitron/tools/stats.py
+++ b/pytorch3d/implicitron/tools/stats.py
@@ -195,7 +195,7 @@ class Stats:
 
     def add_log_vars(self, added_log_vars):
         for add_log_var in added_log_vars:
-            if add_log_var not in self.stats:
+            if add_log_var not in self.log_vars:
                 logger.debug(f"Adding {add_log_var}")
                 self.log_vars.append(add_log_var)
 
-- 
2.43.0


From e0de4278acc956d1fe0642a520a5951ab18912f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:12 +0000
Subject: [PATCH 128/147] fix: resuming the optimizer decayed the MultiStepLR
 learning rate twice

---
 projects/implicitron_trainer/impl/optimizer_factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/implicitron_trainer/impl/optimizer_factory.py b/projects/implicitron_trainer/impl/optimizer_factory.py
index 2305979..1d5a318 100644
--- a/projects/implicitron_trainer/impl/optimizer_factory.py
+++ b/projects/implicitron_trainer/impl/optimizer_factory.py
@@ -160,6 +160,10 @@ class ImplicitronOptimizerFactory(OptimizerFactoryBase):
         if optimizer_state is not None:
             logger.info("Setting loaded optimizer state.")
             optimizer.load_state_dict(optimizer_state)
+            # The loaded lr is already decayed, while the scheduler below is
+            # stepped from the beginning.
+            for group in optimizer.param_groups:
+                group["lr"] = group.get("initial_lr", group["lr"])
 
         # Initialize the learning rate scheduler
         if self.lr_policy.casefold() == "MultiStepLR".casefold():
-- 
2.43.0


From 1f2d9f832a8ee72bedcf4c544c25c01a202d273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:12 +0000
Subject: [PATCH 129/147] fix: <member>.self was ignored in param_groups

---
 .../implicitron_trainer/impl/optimizer_factory.py     | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/projects/implicitron_trainer/impl/optimizer_factory.py b/projects/implicitron_trainer/impl/optimizer_factory.py
index 1d5a318..a02efb2 100644
--- a/projects/implicitron_trainer/impl/optimizer_factory.py
+++ b/projects/implicitron_trainer/impl/optimizer_factory.py
@@ -301,17 +301,16 @@ class ImplicitronOptimizerFactory(OptimizerFactoryBase):
                 mapping: known mappings of parameters to groups for this module,
                     destructively modified by this function.
             """
-            # If key self is defined in param_groups then chenge the default param
+            if hasattr(module, "param_groups"):
+                mapping.update(module.param_groups)
+
+            # If key self is defined in param_groups then change the default param
             # group for all parameters and children in the module.
-            if hasattr(module, "param_groups") and "self" in module.param_groups:
-                default_group = module.param_groups["self"]
+            default_group = mapping.get("self", default_group)
 
             # Collect all the parameters that are directly inside the `module`,
             # they will be in the default param group if they don't have
             # defined group.
-            if hasattr(module, "param_groups"):
-                mapping.update(module.param_groups)
-
             for name, param in module.named_parameters(recurse=False):
                 if param.requires_grad:
                     group_name = mapping.get(name, default_group)
-- 
2.43.0


From 3039f3021a190fe3a1395bbc14f3b2a20f626e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:12 +0000
Subject: [PATCH 130/147] fix: safe_save_model could leave half-written files
 on another file system

---
 pytorch3d/implicitron/tools/model_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/model_io.py b/pytorch3d/implicitron/tools/model_io.py
index d7942d0..33c9eb6 100644
--- a/pytorch3d/implicitron/tools/model_io.py
+++ b/pytorch3d/implicitron/tools/model_io.py
@@ -66,7 +66,8 @@ def safe_save_model(model, stats, fl, optimizer=None, cfg=None) -> None:
     """
     logger.info(f"saving model files safely to {fl}")
     # first store everything to a tmpdir
-    with tempfile.TemporaryDirectory() as tmpdir:
+    # (next to the target, since moves are atomic only within a file system)
+    with tempfile.TemporaryDirectory(dir=os.path.split(fl)[0] or ".") as tmpdir:
         tmpfl = os.path.join(tmpdir, os.path.split(fl)[-1])
         stored_tmp_fls = save_model(model, stats, tmpfl, optimizer=optimizer, cfg=cfg)
         tgt_fls = [
-- 
2.43.0


From f5bc86ade1c1405a77e8999a94ac6fb0a8b4c911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:12 +0000
Subject: [PATCH 131/147] fix: resumed stats kept log_vars as a ListConfig and
 could not be saved

---
 projects/implicitron_trainer/impl/training_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/implicitron_trainer/impl/training_loop.py b/projects/implicitron_trainer/impl/training_loop.py
index 28884a4..1fa14f8 100644
--- a/projects/implicitron_trainer/impl/training_loop.py
+++ b/projects/implicitron_trainer/impl/training_loop.py
@@ -299,7 +299,7 @@ class ImplicitronTrainingLoop(TrainingLoopBase):
                 stats.visdom_server = self.visdom_server
                 stats.visdom_port = self.visdom_port
                 stats.plot_file = os.path.join(exp_dir, "train_stats.pdf")
-                stats.synchronize_logged_vars(log_vars)
+                stats.synchronize_logged_vars(list(log_vars))
             else:
                 logger.info("Clearing stats")
 
-- 
2.43.0


From 910cab8bd4b5481ea462a67ea274b7df19ff0fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:45 +0000
Subject: [PATCH 132/147] fix: orthogonal sphere rendering was shifted by half
 a pixel

---
 pytorch3d/csrc/pulsar/include/renderer.draw.device.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
index cb8ecab..410268c 100644
--- a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
+++ b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
@@ -101,14 +101,14 @@ INLINE DEVICE bool draw(
         cam.pixel_dir_y / length(cam.pixel_dir_y),
         cam.sensor_dir_z);
     raydiff =
-        make_float3( // TODO: make offset consistent with `get_screen_area`.
+        make_float3( // The offset has to agree with `get_screen_area`.
             center.x -
                 (projected_ray.x -
-                 static_cast<float>(cam.aperture_width) * .5f) *
+                 (static_cast<float>(cam.aperture_width) - 1.f) * .5f) *
                     (2.f * cam.half_pixel_size),
             center.y -
                 (projected_ray.y -
-                 static_cast<float>(cam.aperture_height) * .5f) *
+                 (static_cast<float>(cam.aperture_height) - 1.f) * .5f) *
                     (2.f * cam.half_pixel_size),
             0.f);
   } else {
-- 
2.43.0


From 2c638da653ad758df4b00e80c5ba9d182606a580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:49 +0000
Subject: [PATCH 133/147] fix: gradients of sphere and camera positions under
 orthogonal projection were wrong for turned cameras

---
 .../pulsar/include/renderer.draw.device.h     | 33 ++++++++-----------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
index 410268c..601486b 100644
--- a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
+++ b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
@@ -544,37 +544,30 @@ INLINE DEVICE bool draw(
             const float pixel_size = length(cam.pixel_dir_x);
             // pixel_size is the same as length(pixeldiry)!
             const float pixel_size_rcp = FRCP(pixel_size);
-            float3 dcenterDdposglob =
-                (cam.pixel_dir_x + cam.pixel_dir_y) * pixel_size_rcp +
-                cam.sensor_dir_z;
+            const float3 dimDdposglob = cam.pixel_dir_x *
+                    (dimDdcenter.x * pixel_size_rcp) +
+                cam.pixel_dir_y * (dimDdcenter.y * pixel_size_rcp) +
+                cam.sensor_dir_z * dimDdcenter.z;
             PULSAR_LOG_DEV_PIX(
                 PULSAR_LOG_GRAD,
-                "grad %u|dcenterDdposglob: %.9f, %.9f, %.9f.\n",
+                "grad %u|dimDdposglob: %.9f, %.9f, %.9f.\n",
                 idx,
-                dcenterDdposglob.x,
-                dcenterDdposglob.y,
-                dcenterDdposglob.z);
+                dimDdposglob.x,
+                dimDdposglob.y,
+                dimDdposglob.z);
             if (calc_grad_pos) {
-              //! dcenterDdposglob.
-              *grad_pos += dimDdcenter * dcenterDdposglob;
-              PULSAR_LOG_DEV_PIX(
-                  PULSAR_LOG_GRAD,
-                  "grad %u|dimDdpos: %.9f, %.9f, %.9f.\n",
-                  idx,
-                  dimDdcenter.x * dcenterDdposglob.x,
-                  dimDdcenter.y * dcenterDdposglob.y,
-                  dimDdcenter.z * dcenterDdposglob.z);
+              *grad_pos += dimDdposglob;
             }
             if (calc_grad_cam) {
               //! Camera.
-              grad_cam->cam_pos -= dimDdcenter * dcenterDdposglob;
+              grad_cam->cam_pos -= dimDdposglob;
               PULSAR_LOG_DEV_PIX(
                   PULSAR_LOG_GRAD,
                   "grad %u|dimDdeye: %.9f, %.9f, %.9f.\n",
                   idx,
-                  -dimDdcenter.x * dcenterDdposglob.x,
-                  -dimDdcenter.y * dcenterDdposglob.y,
-                  -dimDdcenter.z * dcenterDdposglob.z);
+                  -dimDdposglob.x,
+                  -dimDdposglob.y,
+                  -dimDdposglob.z);
               // coord_world
               /*
               float3 dclosenessDdcoord_world =
-- 
2.43.0


From 5024b34965be3d775a18be10e3944d572b25f253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:18 +0000
Subject: [PATCH 134/147] fix: gradients of the camera rotation and sensor
 ignored the principal point offset

---
 .../pulsar/include/renderer.draw.device.h     | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
index 601486b..2883b05 100644
--- a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
+++ b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
@@ -806,24 +806,28 @@ INLINE DEVICE bool draw(
                   dimDdcoeff * dcoeffDdray.x,
                   dimDdcoeff * dcoeffDdray.y,
                   dimDdcoeff * dcoeffDdray.z);
-              grad_cam->pixel_dir_x +=
-                  (dimDdcoeff * static_cast<float>(coord_x)) * dcoeffDdray;
+              // The aperture starts `|principal_point_offset|` pixels before the
+              // pixel with the coordinates 0, 0.
+              const float steps_x = static_cast<float>(coord_x) -
+                  static_cast<float>(abs(cam.principal_point_offset_x));
+              const float steps_y = static_cast<float>(coord_y) -
+                  static_cast<float>(abs(cam.principal_point_offset_y));
+              grad_cam->pixel_dir_x += (dimDdcoeff * steps_x) * dcoeffDdray;
               PULSAR_LOG_DEV_PIX(
                   PULSAR_LOG_GRAD,
                   "grad %u|dimDdpixel_dir_x: %.9f, %.9f, %.9f.\n",
                   idx,
-                  (dimDdcoeff * static_cast<float>(coord_x)) * dcoeffDdray.x,
-                  (dimDdcoeff * static_cast<float>(coord_x)) * dcoeffDdray.y,
-                  (dimDdcoeff * static_cast<float>(coord_x)) * dcoeffDdray.z);
-              grad_cam->pixel_dir_y +=
-                  (dimDdcoeff * static_cast<float>(coord_y)) * dcoeffDdray;
+                  (dimDdcoeff * steps_x) * dcoeffDdray.x,
+                  (dimDdcoeff * steps_x) * dcoeffDdray.y,
+                  (dimDdcoeff * steps_x) * dcoeffDdray.z);
+              grad_cam->pixel_dir_y += (dimDdcoeff * steps_y) * dcoeffDdray;
               PULSAR_LOG_DEV_PIX(
                   PULSAR_LOG_GRAD,
                   "grad %u|dimDdpixel_dir_y: %.9f, %.9f, %.9f.\n",
                   idx,
-                  (dimDdcoeff * static_cast<float>(coord_y)) * dcoeffDdray.x,
-                  (dimDdcoeff * static_cast<float>(coord_y)) * dcoeffDdray.y,
-                  (dimDdcoeff * static_cast<float>(coord_y)) * dcoeffDdray.z);
+                  (dimDdcoeff * steps_y) * dcoeffDdray.x,
+                  (dimDdcoeff * steps_y) * dcoeffDdray.y,
+                  (dimDdcoeff * steps_y) * dcoeffDdray.z);
             }
           }
         }
-- 
2.43.0


From 620c3426d07c4ba152b2d2d0fd5569a95eeb6348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:01 +0000
Subject: [PATCH 135/147] fix: gradients of the camera rotation under
 orthogonal projection were wrong

---
 .../pulsar/include/renderer.draw.device.h     | 111 +++---------------
 1 file changed, 19 insertions(+), 92 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
index 2883b05..2d6c0da 100644
--- a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
+++ b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
@@ -617,99 +617,26 @@ INLINE DEVICE bool draw(
                   grad_cam->pixel_dir_x.y,
                   grad_cam->pixel_dir_x.z);
               // dcenterkDdpixel_dir_k.
-              float3 center_in_pixels = draw_info.ray_center_norm *
-                  draw_info.t_center * pixel_size_rcp;
-              grad_cam->pixel_dir_x += dimDdcenter.x *
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_x) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp);
-              PULSAR_LOG_DEV_PIX(
-                  PULSAR_LOG_GRAD,
-                  "grad %u|dcenter0dpixel_dir_x: %.9f, %.9f, %.9f.\n",
-                  idx,
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_x) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp)
-                      .x,
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_x) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp)
-                      .y,
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_x) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp)
-                      .z);
-              grad_cam->pixel_dir_y += dimDdcenter.y *
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_y) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp);
-              PULSAR_LOG_DEV_PIX(
-                  PULSAR_LOG_GRAD,
-                  "grad %u|dcenter1dpixel_dir_y: %.9f, %.9f, %.9f.\n",
-                  idx,
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_y) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp)
-                      .x,
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_y) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp)
-                      .y,
-                  (center_in_pixels -
-                   outer_product_sum(cam.pixel_dir_y) * center_in_pixels *
-                       pixel_size_rcp * pixel_size_rcp)
-                      .z);
+              const float3 center_world =
+                  draw_info.ray_center_norm * draw_info.t_center;
+              const float3 dir_x = cam.pixel_dir_x * pixel_size_rcp;
+              const float3 dir_y = cam.pixel_dir_y * pixel_size_rcp;
+              grad_cam->pixel_dir_x += (dimDdcenter.x * pixel_size_rcp) *
+                  (center_world - dir_x * dot(dir_x, center_world));
+              grad_cam->pixel_dir_y += (dimDdcenter.y * pixel_size_rcp) *
+                  (center_world - dir_y * dot(dir_y, center_world));
               // dcenterzDdpixel_dir_k.
-              float sensordirz_norm_rcp = FRCP(
-                  FMAX(length(cross(cam.pixel_dir_y, cam.pixel_dir_x)), FEPS));
-              grad_cam->pixel_dir_x += dimDdcenter.z *
-                  (dot(center, cam.sensor_dir_z) *
-                       cross(cam.pixel_dir_y, cam.sensor_dir_z) -
-                   cross(cam.pixel_dir_y, center)) *
-                  sensordirz_norm_rcp;
-              PULSAR_LOG_DEV_PIX(
-                  PULSAR_LOG_GRAD,
-                  "grad %u|dcenterzDdpixel_dir_x: %.9f, %.9f, %.9f.\n",
-                  idx,
-                  ((dot(center, cam.sensor_dir_z) *
-                        cross(cam.pixel_dir_y, cam.sensor_dir_z) -
-                    cross(cam.pixel_dir_y, center)) *
-                   sensordirz_norm_rcp)
-                      .x,
-                  ((dot(center, cam.sensor_dir_z) *
-                        cross(cam.pixel_dir_y, cam.sensor_dir_z) -
-                    cross(cam.pixel_dir_y, center)) *
-                   sensordirz_norm_rcp)
-                      .y,
-                  ((dot(center, cam.sensor_dir_z) *
-                        cross(cam.pixel_dir_y, cam.sensor_dir_z) -
-                    cross(cam.pixel_dir_y, center)) *
-                   sensordirz_norm_rcp)
-                      .z);
-              grad_cam->pixel_dir_y += dimDdcenter.z *
-                  (dot(center, cam.sensor_dir_z) *
-                       cross(cam.pixel_dir_x, cam.sensor_dir_z) -
-                   cross(cam.pixel_dir_x, center)) *
-                  sensordirz_norm_rcp;
-              PULSAR_LOG_DEV_PIX(
-                  PULSAR_LOG_GRAD,
-                  "grad %u|dcenterzDdpixel_dir_y: %.9f, %.9f, %.9f.\n",
-                  idx,
-                  ((dot(center, cam.sensor_dir_z) *
-                        cross(cam.pixel_dir_x, cam.sensor_dir_z) -
-                    cross(cam.pixel_dir_x, center)) *
-                   sensordirz_norm_rcp)
-                      .x,
-                  ((dot(center, cam.sensor_dir_z) *
-                        cross(cam.pixel_dir_x, cam.sensor_dir_z) -
-                    cross(cam.pixel_dir_x, center)) *
-                   sensordirz_norm_rcp)
-                      .y,
-                  ((dot(center, cam.sensor_dir_z) *
-                        cross(cam.pixel_dir_x, cam.sensor_dir_z) -
-                    cross(cam.pixel_dir_x, center)) *
-                   sensordirz_norm_rcp)
-                      .z);
+              const float3 sensordirz = cross(cam.pixel_dir_y, cam.pixel_dir_x);
+              // The direction is flipped for right handed systems.
+              const float sensordirz_norm_rcp =
+                  sign_dir(dot(sensordirz, cam.sensor_dir_z)) *
+                  pixel_size_rcp * pixel_size_rcp;
+              const float3 dimDdsensordirz =
+                  (dimDdcenter.z * sensordirz_norm_rcp) *
+                  (center_world -
+                   cam.sensor_dir_z * dot(cam.sensor_dir_z, center_world));
+              grad_cam->pixel_dir_x += cross(dimDdsensordirz, cam.pixel_dir_y);
+              grad_cam->pixel_dir_y += cross(cam.pixel_dir_x, dimDdsensordirz);
               PULSAR_LOG_DEV_PIX(
                   PULSAR_LOG_GRAD,
                   "grad %u|dimDdpixel_dir_x: %.9f, %.9f, %.9f.\n",
-- 
2.43.0


From 84d965719707c1e0d4c09505557461015b90074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 136/147] fix: batched sphere rendering used the opacities of
 the first element for all

---
 pytorch3d/csrc/pulsar/pytorch/renderer.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/pytorch/renderer.cpp b/pytorch3d/csrc/pulsar/pytorch/renderer.cpp
index 79e6817..9886fa5 100644
--- a/pytorch3d/csrc/pulsar/pytorch/renderer.cpp
+++ b/pytorch3d/csrc/pulsar/pytorch/renderer.cpp
@@ -761,7 +761,7 @@ std::tuple<torch::Tensor, torch::Tensor> Renderer::forward(
             percent_allowed_difference,
             max_n_hits,
             real_bg_col.contiguous().data_ptr<float>(),
-            opacity_ptr,
+            opacity_ptr ? opacity_ptr + batch_i * n_points : nullptr,
             n_points,
             mode,
             at::cuda::getCurrentCUDAStream());
@@ -808,7 +808,7 @@ std::tuple<torch::Tensor, torch::Tensor> Renderer::forward(
             percent_allowed_difference,
             max_n_hits,
             real_bg_col.contiguous().data_ptr<float>(),
-            opacity_ptr,
+            opacity_ptr ? opacity_ptr + batch_i * n_points : nullptr,
             n_points,
             mode,
             nullptr);
@@ -1121,7 +1121,7 @@ Renderer::backward(
               gamma,
               percent_allowed_difference,
               max_n_hits,
-              opacity_ptr,
+              opacity_ptr ? opacity_ptr + batch_i * n_points : nullptr,
               n_points,
               mode,
               dif_pos,
@@ -1145,7 +1145,7 @@ Renderer::backward(
               gamma,
               percent_allowed_difference,
               max_n_hits,
-              opacity_ptr,
+              opacity_ptr ? opacity_ptr + batch_i * n_points : nullptr,
               n_points,
               mode,
               dif_pos,
@@ -1234,7 +1234,7 @@ Renderer::backward(
               gamma,
               percent_allowed_difference,
               max_n_hits,
-              opacity_ptr,
+              opacity_ptr ? opacity_ptr + batch_i * n_points : nullptr,
               n_points,
               mode,
               dif_pos,
@@ -1258,7 +1258,7 @@ Renderer::backward(
               gamma,
               percent_allowed_difference,
               max_n_hits,
-              opacity_ptr,
+              opacity_ptr ? opacity_ptr + batch_i * n_points : nullptr,
               n_points,
               mode,
               dif_pos,
-- 
2.43.0


From 82ac47aabe6d8b0033b01b9fc990dc4e8d89199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 137/147] fix: camera gradients of sphere renderings were NaN
 when no sphere contributed

---
 .../csrc/pulsar/include/renderer.norm_cam_gradients.device.h  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/csrc/pulsar/include/renderer.norm_cam_gradients.device.h b/pytorch3d/csrc/pulsar/include/renderer.norm_cam_gradients.device.h
index e1dfd55..2511cb0 100644
--- a/pytorch3d/csrc/pulsar/include/renderer.norm_cam_gradients.device.h
+++ b/pytorch3d/csrc/pulsar/include/renderer.norm_cam_gradients.device.h
@@ -25,7 +25,9 @@ template <bool DEV>
 GLOBAL void norm_cam_gradients(Renderer renderer) {
   GET_PARALLEL_IDX_1D(idx, 1);
   CamGradInfo* cgi = reinterpret_cast<CamGradInfo*>(renderer.grad_cam_d);
-  *cgi = *cgi * FRCP(static_cast<float>(*renderer.n_grad_contributions_d));
+  // Without any contribution, all gradients are zero and have to remain so.
+  *cgi = *cgi *
+      FRCP(FMAX(static_cast<float>(*renderer.n_grad_contributions_d), 1.f));
   END_PARALLEL_NORET();
 };
 
-- 
2.43.0


From 972029405688289c4ec2c644f44c7a46676cd092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 138/147] fix: PulsarPointsRenderer changed the field of view
 of its cameras when rendering

---
 pytorch3d/renderer/points/pulsar/unified.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/points/pulsar/unified.py b/pytorch3d/renderer/points/pulsar/unified.py
index 14081b7..933114b 100644
--- a/pytorch3d/renderer/points/pulsar/unified.py
+++ b/pytorch3d/renderer/points/pulsar/unified.py
@@ -276,7 +276,8 @@ class PulsarPointsRenderer(nn.Module):
                 afov = kwargs.get("fov", cameras.fov)[cloud_idx]
                 # pyrefly: ignore [missing-attribute]
                 if kwargs.get("degrees", cameras.degrees):
-                    afov *= math.pi / 180.0
+                    # Not in place: this may be a view of the camera's parameters.
+                    afov = afov * (math.pi / 180.0)
                 sensor_width = math.tan(afov / 2.0) * 2.0 * focal_length
                 if not (
                     # pyrefly: ignore [missing-attribute]
-- 
2.43.0


From 95261968792640c8878f57a96dfc0d24a8c964d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 139/147] fix: PulsarPointsRenderer could not use one camera
 for several clouds

---
 pytorch3d/renderer/points/pulsar/unified.py | 87 ++++++++++++++-------
 1 file changed, 57 insertions(+), 30 deletions(-)

diff --git a/pytorch3d/renderer/points/pulsar/unified.py b/pytorch3d/renderer/points/pulsar/unified.py
index 933114b..a0811c2 100644
--- a/pytorch3d/renderer/points/pulsar/unified.py
+++ b/pytorch3d/renderer/points/pulsar/unified.py
@@ -34,6 +34,18 @@ def _ensure_float_tensor(val_in, device):
     return val_out
 
 
+def _for_cloud(values, cloud_idx: int):
+    """
+    Select the entry of a parameter for one of the clouds. A single value (or
+    sequence of length one) is used for all of them.
+    """
+    if isinstance(values, (int, float)):
+        return values
+    if isinstance(values, torch.Tensor) and values.ndim == 0:
+        return values
+    return values[0 if len(values) == 1 else cloud_idx]
+
+
 class PulsarPointsRenderer(nn.Module):
     """
     This renderer is a PyTorch3D interface wrapper around the pulsar renderer.
@@ -187,12 +199,12 @@ class PulsarPointsRenderer(nn.Module):
         if orthogonal_projection:
             focal_length = torch.zeros((1,), dtype=torch.float32)
             if isinstance(cameras, FoVOrthographicCameras):
-                znear = kwargs.get("znear", cameras.znear)[cloud_idx]
-                zfar = kwargs.get("zfar", cameras.zfar)[cloud_idx]
-                max_y = kwargs.get("max_y", cameras.max_y)[cloud_idx]
-                min_y = kwargs.get("min_y", cameras.min_y)[cloud_idx]
-                max_x = kwargs.get("max_x", cameras.max_x)[cloud_idx]
-                min_x = kwargs.get("min_x", cameras.min_x)[cloud_idx]
+                znear = _for_cloud(kwargs.get("znear", cameras.znear), cloud_idx)
+                zfar = _for_cloud(kwargs.get("zfar", cameras.zfar), cloud_idx)
+                max_y = _for_cloud(kwargs.get("max_y", cameras.max_y), cloud_idx)
+                min_y = _for_cloud(kwargs.get("min_y", cameras.min_y), cloud_idx)
+                max_x = _for_cloud(kwargs.get("max_x", cameras.max_x), cloud_idx)
+                min_x = _for_cloud(kwargs.get("min_x", cameras.min_x), cloud_idx)
                 if max_y != -min_y:
                     raise ValueError(
                         "The orthographic camera must be centered around 0. "
@@ -204,11 +216,12 @@ class PulsarPointsRenderer(nn.Module):
                         f"Max is {max_x} and min is {min_x}."
                     )
                 if not torch.all(
-                    kwargs.get("scale_xyz", cameras.scale_xyz)[cloud_idx] == 1.0
+                    _for_cloud(kwargs.get("scale_xyz", cameras.scale_xyz), cloud_idx)
+                    == 1.0
                 ):
                     raise ValueError(
                         "The orthographic camera scale must be ((1.0, 1.0, 1.0),). "
-                        f"{kwargs.get('scale_xyz', cameras.scale_xyz)[cloud_idx]}."
+                        f"{_for_cloud(kwargs.get('scale_xyz', cameras.scale_xyz), cloud_idx)}."
                     )
                 sensor_width = max_x - min_x
                 if not sensor_width > 0.0:
@@ -222,9 +235,9 @@ class PulsarPointsRenderer(nn.Module):
             else:
                 # Currently, this means it must be an 'OrthographicCameras' object.
                 # pyrefly: ignore [missing-attribute]
-                focal_length_conf = kwargs.get("focal_length", cameras.focal_length)[
-                    cloud_idx
-                ]
+                focal_length_conf = _for_cloud(
+                    kwargs.get("focal_length", cameras.focal_length), cloud_idx
+                )
                 if (
                     focal_length_conf.numel() == 2
                     and focal_length_conf[0] * self.renderer._renderer.width
@@ -249,17 +262,23 @@ class PulsarPointsRenderer(nn.Module):
                         "the OrthographicCameras. Please provide them as keyword "
                         "argument to the forward method."
                     )
-                znear = kwargs["znear"][cloud_idx]
-                zfar = kwargs["zfar"][cloud_idx]
+                znear = _for_cloud(kwargs["znear"], cloud_idx)
+                zfar = _for_cloud(kwargs["zfar"], cloud_idx)
                 principal_point_x = (
                     # pyrefly: ignore [missing-attribute]
-                    kwargs.get("principal_point", cameras.principal_point)[cloud_idx][0]
+                    _for_cloud(
+                        kwargs.get("principal_point", cameras.principal_point),
+                        cloud_idx,
+                    )[0]
                     * 0.5
                     * self.renderer._renderer.width
                 )
                 principal_point_y = (
                     # pyrefly: ignore [missing-attribute]
-                    kwargs.get("principal_point", cameras.principal_point)[cloud_idx][1]
+                    _for_cloud(
+                        kwargs.get("principal_point", cameras.principal_point),
+                        cloud_idx,
+                    )[1]
                     * 0.5
                     * self.renderer._renderer.height
                 )
@@ -267,13 +286,13 @@ class PulsarPointsRenderer(nn.Module):
             if not isinstance(cameras, PerspectiveCameras):
                 # Create a virtual focal length that is closer than znear.
                 # pyrefly: ignore [missing-attribute]
-                znear = kwargs.get("znear", cameras.znear)[cloud_idx]
+                znear = _for_cloud(kwargs.get("znear", cameras.znear), cloud_idx)
                 # pyrefly: ignore [missing-attribute]
-                zfar = kwargs.get("zfar", cameras.zfar)[cloud_idx]
+                zfar = _for_cloud(kwargs.get("zfar", cameras.zfar), cloud_idx)
                 focal_length = znear - 1e-6
                 # Create a sensor size that matches the expected fov assuming this f.
                 # pyrefly: ignore [missing-attribute]
-                afov = kwargs.get("fov", cameras.fov)[cloud_idx]
+                afov = _for_cloud(kwargs.get("fov", cameras.fov), cloud_idx)
                 # pyrefly: ignore [missing-attribute]
                 if kwargs.get("degrees", cameras.degrees):
                     # Not in place: this may be a view of the camera's parameters.
@@ -281,14 +300,16 @@ class PulsarPointsRenderer(nn.Module):
                 sensor_width = math.tan(afov / 2.0) * 2.0 * focal_length
                 if not (
                     # pyrefly: ignore [missing-attribute]
-                    kwargs.get("aspect_ratio", cameras.aspect_ratio)[cloud_idx]
+                    _for_cloud(
+                        kwargs.get("aspect_ratio", cameras.aspect_ratio), cloud_idx
+                    )
                     - self.renderer._renderer.width / self.renderer._renderer.height
                     < 1e-6
                 ):
                     raise ValueError(
                         # pyrefly: ignore [missing-attribute]
                         "The aspect ratio ("
-                        f"{kwargs.get('aspect_ratio', cameras.aspect_ratio)[cloud_idx]}) "
+                        f"{_for_cloud(kwargs.get('aspect_ratio', cameras.aspect_ratio), cloud_idx)}) "
                         "must agree with the resolution width / height ("
                         f"{self.renderer._renderer.width / self.renderer._renderer.height})."  # noqa: B950
                     )
@@ -297,9 +318,9 @@ class PulsarPointsRenderer(nn.Module):
                     torch.zeros((1,), dtype=torch.float32),
                 )
             else:
-                focal_length_conf = kwargs.get("focal_length", cameras.focal_length)[
-                    cloud_idx
-                ]
+                focal_length_conf = _for_cloud(
+                    kwargs.get("focal_length", cameras.focal_length), cloud_idx
+                )
                 if (
                     focal_length_conf.numel() == 2
                     and focal_length_conf[0] * self.renderer._renderer.width
@@ -316,8 +337,8 @@ class PulsarPointsRenderer(nn.Module):
                         "the PerspectiveCameras. Please provide them as keyword "
                         "argument to the forward method."
                     )
-                znear = kwargs["znear"][cloud_idx]
-                zfar = kwargs["zfar"][cloud_idx]
+                znear = _for_cloud(kwargs["znear"], cloud_idx)
+                zfar = _for_cloud(kwargs["zfar"], cloud_idx)
                 if focal_length_conf.numel() == 2:
                     focal_length_px = focal_length_conf[0]
                 else:
@@ -335,12 +356,18 @@ class PulsarPointsRenderer(nn.Module):
                 )
                 sensor_width = focal_length / focal_length_px * 2.0
                 principal_point_x = (
-                    kwargs.get("principal_point", cameras.principal_point)[cloud_idx][0]
+                    _for_cloud(
+                        kwargs.get("principal_point", cameras.principal_point),
+                        cloud_idx,
+                    )[0]
                     * 0.5
                     * self.renderer._renderer.width
                 )
                 principal_point_y = (
-                    kwargs.get("principal_point", cameras.principal_point)[cloud_idx][1]
+                    _for_cloud(
+                        kwargs.get("principal_point", cameras.principal_point),
+                        cloud_idx,
+                    )[1]
                     * 0.5
                     * self.renderer._renderer.height
                 )
@@ -374,9 +401,9 @@ class PulsarPointsRenderer(nn.Module):
         # Shorthand:
         cameras = self.rasterizer.cameras
         # pyrefly: ignore [missing-attribute]
-        R = kwargs.get("R", cameras.R)[cloud_idx]
+        R = _for_cloud(kwargs.get("R", cameras.R), cloud_idx)
         # pyrefly: ignore [missing-attribute]
-        T = kwargs.get("T", cameras.T)[cloud_idx]
+        T = _for_cloud(kwargs.get("T", cameras.T), cloud_idx)
         tmp_cams = PerspectiveCameras(
             R=R.unsqueeze(0), T=T.unsqueeze(0), device=R.device
         )
@@ -524,7 +551,7 @@ class PulsarPointsRenderer(nn.Module):
                 cloud_idx,
             )
             # Clean kwargs for passing on.
-            gamma = kwargs["gamma"][cloud_idx]
+            gamma = _for_cloud(kwargs["gamma"], cloud_idx)
             if "first_R_then_T" in kwargs.keys():
                 raise ValueError("`first_R_then_T` is not supported in this interface.")
             otherargs = {
-- 
2.43.0


From c33507f6ab1c588fbfc00c78a5bd64fc11669a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:40 +0000
Subject: [PATCH 140/147] fix: PulsarPointsRenderer with radius_world failed
 for a single radius and for batched radii

---
 pytorch3d/renderer/points/pulsar/unified.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pytorch3d/renderer/points/pulsar/unified.py b/pytorch3d/renderer/points/pulsar/unified.py
index a0811c2..2aa3af6 100644
--- a/pytorch3d/renderer/points/pulsar/unified.py
+++ b/pytorch3d/renderer/points/pulsar/unified.py
@@ -428,16 +428,16 @@ class PulsarPointsRenderer(nn.Module):
         # `self.rasterizer.raster_settings.radius` can either be a float
         # or itself a tensor.
         raster_rad = self.rasterizer.raster_settings.radius
-        if kwargs.get("radius_world", False):
-            # pyrefly: ignore [bad-return]
-            return raster_rad
-        if (
-            isinstance(raster_rad, torch.Tensor)
-            and raster_rad.numel() > 1
-            and raster_rad.ndim > 1
-        ):
+        if isinstance(raster_rad, torch.Tensor) and raster_rad.ndim > 1:
             # In this case it must be a batched torch tensor.
             raster_rad = raster_rad[cloud_idx]
+        if kwargs.get("radius_world", False):
+            return (
+                torch.ones(
+                    (vert_pos.shape[0],), dtype=torch.float32, device=vert_pos.device
+                )
+                * raster_rad
+            )
         if orthogonal_projection:
             vert_rad = (
                 torch.ones(
-- 
2.43.0


From 7ff2ee77cc69924df2d819fde1b07e2d54c3cc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:40 +0000
Subject: [PATCH 141/147] fix: PulsarPointsRenderer misplaced points in images
 which are not square

---
 pytorch3d/renderer/points/pulsar/unified.py | 25 ++++++++++-----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/pytorch3d/renderer/points/pulsar/unified.py b/pytorch3d/renderer/points/pulsar/unified.py
index 2aa3af6..a82226b 100644
--- a/pytorch3d/renderer/points/pulsar/unified.py
+++ b/pytorch3d/renderer/points/pulsar/unified.py
@@ -196,6 +196,9 @@ class PulsarPointsRenderer(nn.Module):
         """
         # Shorthand:
         cameras = self.rasterizer.cameras
+        # In NDC, the shorter side of the image goes from -1 to 1.
+        ndc_side = min(self.renderer._renderer.width, self.renderer._renderer.height)
+        ndc_width = self.renderer._renderer.width / ndc_side
         if orthogonal_projection:
             focal_length = torch.zeros((1,), dtype=torch.float32)
             if isinstance(cameras, FoVOrthographicCameras):
@@ -240,22 +243,20 @@ class PulsarPointsRenderer(nn.Module):
                 )
                 if (
                     focal_length_conf.numel() == 2
-                    and focal_length_conf[0] * self.renderer._renderer.width
-                    - focal_length_conf[1] * self.renderer._renderer.height
-                    > 1e-5
+                    and abs(focal_length_conf[0] - focal_length_conf[1]) > 1e-5
                 ):
                     raise ValueError(
                         "Pulsar only supports a single focal length! "
                         "Provided: %s." % (str(focal_length_conf))
                     )
                 if focal_length_conf.numel() == 2:
-                    sensor_width = 2.0 / focal_length_conf[0]
+                    sensor_width = 2.0 * ndc_width / focal_length_conf[0]
                 else:
                     if focal_length_conf.numel() != 1:
                         raise ValueError(
                             "Focal length not parsable: %s." % (str(focal_length_conf))
                         )
-                    sensor_width = 2.0 / focal_length_conf
+                    sensor_width = 2.0 * ndc_width / focal_length_conf
                 if "znear" not in kwargs.keys() or "zfar" not in kwargs.keys():
                     raise ValueError(
                         "pulsar needs znear and zfar values for "
@@ -271,7 +272,7 @@ class PulsarPointsRenderer(nn.Module):
                         cloud_idx,
                     )[0]
                     * 0.5
-                    * self.renderer._renderer.width
+                    * ndc_side
                 )
                 principal_point_y = (
                     # pyrefly: ignore [missing-attribute]
@@ -280,7 +281,7 @@ class PulsarPointsRenderer(nn.Module):
                         cloud_idx,
                     )[1]
                     * 0.5
-                    * self.renderer._renderer.height
+                    * ndc_side
                 )
         else:
             if not isinstance(cameras, PerspectiveCameras):
@@ -323,9 +324,7 @@ class PulsarPointsRenderer(nn.Module):
                 )
                 if (
                     focal_length_conf.numel() == 2
-                    and focal_length_conf[0] * self.renderer._renderer.width
-                    - focal_length_conf[1] * self.renderer._renderer.height
-                    > 1e-5
+                    and abs(focal_length_conf[0] - focal_length_conf[1]) > 1e-5
                 ):
                     raise ValueError(
                         "Pulsar only supports a single focal length! "
@@ -354,14 +353,14 @@ class PulsarPointsRenderer(nn.Module):
                     dtype=torch.float32,
                     device=focal_length_px.device,
                 )
-                sensor_width = focal_length / focal_length_px * 2.0
+                sensor_width = focal_length / focal_length_px * 2.0 * ndc_width
                 principal_point_x = (
                     _for_cloud(
                         kwargs.get("principal_point", cameras.principal_point),
                         cloud_idx,
                     )[0]
                     * 0.5
-                    * self.renderer._renderer.width
+                    * ndc_side
                 )
                 principal_point_y = (
                     _for_cloud(
@@ -369,7 +368,7 @@ class PulsarPointsRenderer(nn.Module):
                         cloud_idx,
                     )[1]
                     * 0.5
-                    * self.renderer._renderer.height
+                    * ndc_side
                 )
         focal_length = _ensure_float_tensor(focal_length, device)
         sensor_width = _ensure_float_tensor(sensor_width, device)
-- 
2.43.0


From c6622061369e24d0cdea76338419c9cc18f99b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:40 +0000
Subject: [PATCH 142/147] fix: principal point offsets of the sphere renderer
 were truncated

---
 pytorch3d/renderer/points/pulsar/renderer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/renderer/points/pulsar/renderer.py b/pytorch3d/renderer/points/pulsar/renderer.py
index 9ad1e5e..167f111 100644
--- a/pytorch3d/renderer/points/pulsar/renderer.py
+++ b/pytorch3d/renderer/points/pulsar/renderer.py
@@ -459,16 +459,16 @@ class Renderer(torch.nn.Module):
             focal_length: torch.Tensor = cam_params[:, 9:10]
             sensor_size_x = cam_params[:, 10:11]
             if cam_params.shape[1] == 13:
-                principal_point_offsets: torch.Tensor = cam_params[:, 11:13].to(
-                    torch.int32
+                principal_point_offsets: torch.Tensor = (
+                    cam_params[:, 11:13].round().to(torch.int32)
                 )
         else:
             rot_vec = cam_params[:, 3:6]
             focal_length: torch.Tensor = cam_params[:, 6:7]
             sensor_size_x = cam_params[:, 7:8]
             if cam_params.shape[1] == 10:
-                principal_point_offsets: torch.Tensor = cam_params[:, 8:10].to(
-                    torch.int32
+                principal_point_offsets: torch.Tensor = (
+                    cam_params[:, 8:10].round().to(torch.int32)
                 )
         # Always get quadratic pixels.
         pixel_size_x = sensor_size_x / float(width)
-- 
2.43.0


From 91c63b8aa2e3e00d99178cd763e58acae594fa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:00 +0000
Subject: [PATCH 143/147] fix: PulsarPointsRenderer moved the principal point
 vertically in the wrong direction

---
 pytorch3d/renderer/points/pulsar/unified.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/points/pulsar/unified.py b/pytorch3d/renderer/points/pulsar/unified.py
index a82226b..9d0a43e 100644
--- a/pytorch3d/renderer/points/pulsar/unified.py
+++ b/pytorch3d/renderer/points/pulsar/unified.py
@@ -196,6 +196,8 @@ class PulsarPointsRenderer(nn.Module):
         """
         # Shorthand:
         cameras = self.rasterizer.cameras
+        # The rendered images are flipped vertically in the end, so the vertical
+        # principal point offset is negated.
         # In NDC, the shorter side of the image goes from -1 to 1.
         ndc_side = min(self.renderer._renderer.width, self.renderer._renderer.height)
         ndc_width = self.renderer._renderer.width / ndc_side
@@ -274,7 +276,7 @@ class PulsarPointsRenderer(nn.Module):
                     * 0.5
                     * ndc_side
                 )
-                principal_point_y = (
+                principal_point_y = -(
                     # pyrefly: ignore [missing-attribute]
                     _for_cloud(
                         kwargs.get("principal_point", cameras.principal_point),
@@ -362,7 +364,7 @@ class PulsarPointsRenderer(nn.Module):
                     * 0.5
                     * ndc_side
                 )
-                principal_point_y = (
+                principal_point_y = -(
                     _for_cloud(
                         kwargs.get("principal_point", cameras.principal_point),
                         cloud_idx,
-- 
2.43.0


From 7af873329a16dc9358cd3aee0ac32c3f9a1f880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:22 +0000
Subject: [PATCH 144/147] fix: spheres reaching next to the camera were cut off
 or not drawn

---
 .../include/renderer.get_screen_area.device.h    | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/include/renderer.get_screen_area.device.h b/pytorch3d/csrc/pulsar/include/renderer.get_screen_area.device.h
index 1a85a1b..a66d584 100644
--- a/pytorch3d/csrc/pulsar/include/renderer.get_screen_area.device.h
+++ b/pytorch3d/csrc/pulsar/include/renderer.get_screen_area.device.h
@@ -118,10 +118,18 @@ INLINE DEVICE bool get_screen_area(
         alpha.y,
         theta.x,
         theta.y);
-    *x_1 = tan(alpha.x - theta.x) * cam.focal_length;
-    *x_2 = tan(alpha.x + theta.x) * cam.focal_length;
-    *y_1 = tan(alpha.y - theta.y) * cam.focal_length;
-    *y_2 = tan(alpha.y + theta.y) * cam.focal_length;
+    // A sphere which reaches next to or behind the camera has no bound on that
+    // side: tan changes its sign at 90 degrees. If the camera is within the
+    // shadow of the sphere, there is none on either side.
+    const float max_angle = 1.5707f;
+    if (vert_rad >= o__c_.x)
+      theta.x = 2.f * max_angle;
+    if (vert_rad >= o__c_.y)
+      theta.y = 2.f * max_angle;
+    *x_1 = tan(FMAX(alpha.x - theta.x, -max_angle)) * cam.focal_length;
+    *x_2 = tan(FMIN(alpha.x + theta.x, max_angle)) * cam.focal_length;
+    *y_1 = tan(FMAX(alpha.y - theta.y, -max_angle)) * cam.focal_length;
+    *y_2 = tan(FMIN(alpha.y + theta.y, max_angle)) * cam.focal_length;
     PULSAR_LOG_DEV(
         PULSAR_LOG_CALC_SIGNATURE,
         "signature %d|in sensor plane: x_1: %f, x_2: %f, y_1: %f, y_2: %f.\n",
-- 
2.43.0


From a67bd4c62555053081643776c95c46765c85c582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:42 +0000
Subject: [PATCH 145/147] fix: small spheres in the outer half of the first row
 or column were not drawn

---
 .../csrc/pulsar/include/renderer.calc_signature.device.h      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/include/renderer.calc_signature.device.h b/pytorch3d/csrc/pulsar/include/renderer.calc_signature.device.h
index bd687fe..65c1b32 100644
--- a/pytorch3d/csrc/pulsar/include/renderer.calc_signature.device.h
+++ b/pytorch3d/csrc/pulsar/include/renderer.calc_signature.device.h
@@ -133,10 +133,10 @@ GLOBAL void calc_signature(
       y_1,
       y_2);
   // Check whether the pixel coordinates are on screen.
-  if (FMAX(x_1, x_2) <= static_cast<float>(cam.film_border_left) ||
+  if (FMAX(x_1, x_2) <= static_cast<float>(cam.film_border_left) - 0.5f ||
       FMIN(x_1, x_2) >=
           static_cast<float>(cam.film_border_left + cam.film_width) - 0.5f ||
-      FMAX(y_1, y_2) <= static_cast<float>(cam.film_border_top) ||
+      FMAX(y_1, y_2) <= static_cast<float>(cam.film_border_top) - 0.5f ||
       FMIN(y_1, y_2) >
           static_cast<float>(cam.film_border_top + cam.film_height) - 0.5f)
     RETURN_PARALLEL();
-- 
2.43.0


From b3fecd5b9bb7a8d45cddb0eb1e647399d00220d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:38 +0000
Subject: [PATCH 146/147] fix: gradients of a sphere were NaN when a ray went
 through its center

---
 pytorch3d/csrc/pulsar/include/renderer.draw.device.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
index 2d6c0da..a8fbdbe 100644
--- a/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
+++ b/pytorch3d/csrc/pulsar/include/renderer.draw.device.h
@@ -672,11 +672,15 @@ INLINE DEVICE bool draw(
             const float3 tmp1 = center - ray_dir_norm * o__p1_;
             const float3 tmp1n = tmp1 / p1__p2_safe;
             const float ray_dir_normDotRaydiff = dot(ray_dir_norm, raydiff);
+            // A ray can go exactly through the center of the sphere.
+            const float closeness_norm_rcp = closeness_world > 0.f
+                ? FRCP(closeness_world * draw_info.radius)
+                : 0.f;
             const float3 dcoeffDdray = dcoeffDdintersection_depth *
                     (tmp1 - o__p1_ * tmp1n) / *norm_ray_dir +
                 dcoeffDdcloseness *
-                    (ray_dir_norm * -ray_dir_normDotRaydiff + raydiff) /
-                    (closeness_world * draw_info.radius) *
+                    (ray_dir_norm * -ray_dir_normDotRaydiff + raydiff) *
+                    closeness_norm_rcp *
                     (draw_info.t_center / *norm_ray_dir);
             PULSAR_LOG_DEV_PIX(
                 PULSAR_LOG_GRAD,
@@ -693,8 +697,8 @@ INLINE DEVICE bool draw(
                 dcoeffDdintersection_depth * (ray_dir_norm + tmp1n) +
                 dcoeffDdcloseness *
                     (draw_info.ray_center_norm * ray_dir_normDotRaydiff -
-                     raydiff) /
-                    (closeness_world * draw_info.radius);
+                     raydiff) *
+                    closeness_norm_rcp;
             PULSAR_LOG_DEV_PIX(
                 PULSAR_LOG_GRAD,
                 "grad %u|dcoeffDdcenter: %.9f, %.9f, %.9f. "
-- 
2.43.0


From 2d9910807f8b76266dd641ea8134eae2869080f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 147/147] fix: gradients of the extrapolated binary cross
 entropy were NaN for predictions of exactly 0 or 1

---
 pytorch3d/implicitron/tools/metric_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/tools/metric_utils.py b/pytorch3d/implicitron/tools/metric_utils.py
index 7c3fd7d..37e207f 100644
--- a/pytorch3d/implicitron/tools/metric_utils.py
+++ b/pytorch3d/implicitron/tools/metric_utils.py
@@ -196,7 +196,8 @@ def log_lerp(x: torch.Tensor, b: float):
     Linearly extrapolated log for x < b.
     """
     assert b > 0
-    return torch.where(x >= b, x.log(), math.log(b) + (x - b) / b)
+    # The clamping keeps the gradient finite where the log is not used.
+    return torch.where(x >= b, x.clamp(b).log(), math.log(b) + (x - b) / b)
 
 
 def rgb_l1(
-- 
2.43.0

