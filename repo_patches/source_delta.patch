From 7078d3f2f643ca35d298377cddd6290f277393f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 01/41] fix: FoVPerspectiveCameras.unproject_points ignored
 camera overrides

---
 pytorch3d/renderer/cameras.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/cameras.py b/pytorch3d/renderer/cameras.py
index 821353f..3393522 100644
--- a/pytorch3d/renderer/cameras.py
+++ b/pytorch3d/renderer/cameras.py
@@ -724,9 +724,9 @@ class FoVPerspectiveCameras(CamerasBase):
 
         # obtain the relevant transformation to ndc
         if world_coordinates:
-            to_ndc_transform = self.get_full_projection_transform()
+            to_ndc_transform = self.get_full_projection_transform(**kwargs.copy())
         else:
-            to_ndc_transform = self.get_projection_transform()
+            to_ndc_transform = self.get_projection_transform(**kwargs.copy())
 
         if scaled_depth_input:
             # the input is scaled depth, so we don't have to do anything
-- 
2.43.0


From 2f92c6002f26c85e8b13cdc819e222113ee99b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 02/41] fix: look_at_rotation failed for float64 inputs

---
 pytorch3d/renderer/cameras.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/cameras.py b/pytorch3d/renderer/cameras.py
index 3393522..4b83dc9 100644
--- a/pytorch3d/renderer/cameras.py
+++ b/pytorch3d/renderer/cameras.py
@@ -1684,7 +1684,7 @@ def look_at_rotation(
     z_axis = F.normalize(at - camera_position, eps=1e-5)
     x_axis = F.normalize(torch.cross(up, z_axis, dim=1), eps=1e-5)
     y_axis = F.normalize(torch.cross(z_axis, x_axis, dim=1), eps=1e-5)
-    is_close = torch.isclose(x_axis, torch.tensor(0.0), atol=5e-3).all(
+    is_close = torch.isclose(x_axis, x_axis.new_tensor(0.0), atol=5e-3).all(
         dim=1, keepdim=True
     )
     if is_close.any():
-- 
2.43.0


From de0361d114f94af3424ee99bfdd882e73601de56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 03/41] fix: get_mesh_verts_faces and get_cloud accepted the
 index N

---
 pytorch3d/structures/meshes.py      | 2 +-
 pytorch3d/structures/pointclouds.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/structures/meshes.py b/pytorch3d/structures/meshes.py
index 85a1fee..64598c8 100644
--- a/pytorch3d/structures/meshes.py
+++ b/pytorch3d/structures/meshes.py
@@ -1261,7 +1261,7 @@ class Meshes:
         """
         if not isinstance(index, int):
             raise ValueError("Mesh index must be an integer.")
-        if index < 0 or index > self._N:
+        if index < 0 or index >= self._N:
             raise ValueError(
                 "Mesh index must be in the range [0, N) where \
             N is the number of meshes in the batch."
diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index 53ed5a5..0e60347 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -840,7 +840,7 @@ class Pointclouds:
         """
         if not isinstance(index, int):
             raise ValueError("Cloud index must be an integer.")
-        if index < 0 or index > self._N:
+        if index < 0 or index >= self._N:
             raise ValueError(
                 "Cloud index must be in the range [0, N) where \
             N is the number of clouds in the batch."
-- 
2.43.0


From 09c3cf220d45ba10790629f0e578498d040749c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 04/41] fix: in-place offset and scale wrote into tensors
 passed in by the user

---
 pytorch3d/structures/meshes.py      | 4 ++++
 pytorch3d/structures/pointclouds.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pytorch3d/structures/meshes.py b/pytorch3d/structures/meshes.py
index 64598c8..d42d06d 100644
--- a/pytorch3d/structures/meshes.py
+++ b/pytorch3d/structures/meshes.py
@@ -1324,6 +1324,8 @@ class Meshes:
 
         # update verts padded
         if self._verts_padded is not None:
+            # the tensor may be the one passed in by the user
+            self._verts_padded = self._verts_padded.clone()
             for i, verts in enumerate(new_verts_list):
                 if len(verts) > 0:
                     self._verts_padded[i, : verts.shape[0], :] = verts
@@ -1378,6 +1380,8 @@ class Meshes:
             self._verts_packed = torch.cat(new_verts_list, dim=0)
         # update padded
         if self._verts_padded is not None:
+            # the tensor may be the one passed in by the user
+            self._verts_padded = self._verts_padded.clone()
             for i, verts in enumerate(self._verts_list):
                 if len(verts) > 0:
                     self._verts_padded[i, : verts.shape[0], :] = verts
diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index 0e60347..994e05d 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -903,6 +903,8 @@ class Pointclouds:
         # cannot be None even if not provided during construction.
         self._points_list = new_points_list
         if self._points_padded is not None:
+            # the tensor may be the one passed in by the user
+            self._points_padded = self._points_padded.clone()
             for i, points in enumerate(new_points_list):
                 if len(points) > 0:
                     self._points_padded[i, : points.shape[0], :] = points
@@ -992,6 +994,8 @@ class Pointclouds:
         if self._points_packed is not None:
             self._points_packed = torch.cat(new_points_list, dim=0)
         if self._points_padded is not None:
+            # the tensor may be the one passed in by the user
+            self._points_padded = self._points_padded.clone()
             for i, points in enumerate(new_points_list):
                 if len(points) > 0:
                     self._points_padded[i, : points.shape[0], :] = points
-- 
2.43.0


From a8309fa6e30205c513b56ab9acafd2d516e9d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 05/41] fix: indexing Volumes reset align_corners

---
 pytorch3d/structures/volumes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 84edf33..2ce815f 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -297,6 +297,7 @@ class Volumes:
             # pyre-fixme[16]: `Optional` has no attribute `__getitem__`.
             features=self.features()[index] if self._features is not None else None,
             densities=self.densities()[index],
+            align_corners=self.get_align_corners(),
         )
         # dont forget to update grid_sizes!
         self.locator._copy_transform_and_sizes(new.locator, index=index)
-- 
2.43.0


From 94275096f592f4afc2f28079f993eb6bc5072527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 06/41] fix: adding points to volumes modified the initial
 volumes

---
 pytorch3d/ops/points_to_volumes.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/ops/points_to_volumes.py b/pytorch3d/ops/points_to_volumes.py
index d099cea..b8a6109 100644
--- a/pytorch3d/ops/points_to_volumes.py
+++ b/pytorch3d/ops/points_to_volumes.py
@@ -407,6 +407,15 @@ def add_points_features_to_volume_densities_features(
     if mask is None:
         mask = points_3d.new_ones(1).expand(points_3d.shape[:2])
 
+    # _points_to_volumes works in place, leave the given volumes untouched
+    volume_densities = volume_densities.clone()
+    if volume_features is None:
+        volume_features = volume_densities.new_zeros(
+            ba, feature_dim, *volume_densities.shape[2:]
+        )
+    else:
+        volume_features = volume_features.clone()
+
     volume_densities, volume_features = _points_to_volumes(
         points_3d,
         points_features,
@@ -452,7 +461,7 @@ def _add_points_features_to_volume_densities_features_python(
 
     # flatten densities and features
     v_shape = volume_densities.shape[2:]
-    volume_densities_flatten = volume_densities.view(ba, -1, 1)
+    volume_densities_flatten = volume_densities.clone().view(ba, -1, 1)
     n_voxels = volume_densities_flatten.shape[1]
 
     if volume_features is None:
@@ -460,7 +469,9 @@ def _add_points_features_to_volume_densities_features_python(
         volume_features_flatten = volume_densities.new_zeros(ba, feature_dim, n_voxels)
     else:
         # otherwise just flatten
-        volume_features_flatten = volume_features.view(ba, feature_dim, n_voxels)
+        volume_features_flatten = volume_features.clone().view(
+            ba, feature_dim, n_voxels
+        )
 
     if mode == "trilinear":  # do the splatting (trilinear interp)
         volume_features, volume_densities = _splat_points_to_volumes(
-- 
2.43.0


From 7470fd40c80b709aa995167aa079f08be784da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 07/41] fix: mesh laplacians were float32 or failed for float64
 vertices

---
 pytorch3d/ops/laplacian_matrices.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pytorch3d/ops/laplacian_matrices.py b/pytorch3d/ops/laplacian_matrices.py
index a2c2997..7d681ee 100644
--- a/pytorch3d/ops/laplacian_matrices.py
+++ b/pytorch3d/ops/laplacian_matrices.py
@@ -46,8 +46,8 @@ def laplacian(verts: torch.Tensor, edges: torch.Tensor) -> torch.Tensor:
     # First, we construct the adjacency matrix,
     # i.e. A[i, j] = 1 if (i,j) is an edge, or
     # A[e0, e1] = 1 &  A[e1, e0] = 1
-    ones = torch.ones(idx.shape[1], dtype=torch.float32, device=verts.device)
-    A = torch.sparse_coo_tensor(idx, ones, (V, V), dtype=torch.float32)
+    ones = torch.ones(idx.shape[1], dtype=verts.dtype, device=verts.device)
+    A = torch.sparse_coo_tensor(idx, ones, (V, V), dtype=verts.dtype)
 
     # the sum of i-th row of A gives the degree of the i-th vertex
     deg = torch.sparse.sum(A, dim=1).to_dense()
@@ -59,13 +59,13 @@ def laplacian(verts: torch.Tensor, edges: torch.Tensor) -> torch.Tensor:
     deg1 = deg[e1]
     deg1 = torch.where(deg1 > 0.0, torch.reciprocal(deg1), deg1)
     val = torch.cat([deg0, deg1])
-    L = torch.sparse_coo_tensor(idx, val, (V, V), dtype=torch.float32)
+    L = torch.sparse_coo_tensor(idx, val, (V, V), dtype=verts.dtype)
 
     # Then we add the diagonal values L[i, i] = -1.
     idx = torch.arange(V, device=verts.device)
     idx = torch.stack([idx, idx], dim=0)
-    ones = torch.ones(idx.shape[1], dtype=torch.float32, device=verts.device)
-    L -= torch.sparse_coo_tensor(idx, ones, (V, V), dtype=torch.float32)
+    ones = torch.ones(idx.shape[1], dtype=verts.dtype, device=verts.device)
+    L -= torch.sparse_coo_tensor(idx, ones, (V, V), dtype=verts.dtype)
 
     return L
 
@@ -121,7 +121,7 @@ def cot_laplacian(
     ii = faces[:, [1, 2, 0]]
     jj = faces[:, [2, 0, 1]]
     idx = torch.stack([ii, jj], dim=0).view(2, F * 3)
-    L = torch.sparse_coo_tensor(idx, cot.view(-1), (V, V), dtype=torch.float32)
+    L = torch.sparse_coo_tensor(idx, cot.view(-1), (V, V), dtype=verts.dtype)
 
     # Make it symmetric; this means we are also setting
     # L[v2, v1] = cota
@@ -131,7 +131,7 @@ def cot_laplacian(
 
     # For each vertex, compute the sum of areas for triangles containing it.
     idx = faces.view(-1)
-    inv_areas = torch.zeros(V, dtype=torch.float32, device=verts.device)
+    inv_areas = torch.zeros(V, dtype=verts.dtype, device=verts.device)
     val = torch.stack([area] * 3, dim=1).view(-1)
     inv_areas.scatter_add_(0, idx, val)
     idx = inv_areas > 0
@@ -168,7 +168,7 @@ def norm_laplacian(
     e01 = edges.t()  # (2, E)
 
     V = verts.shape[0]
-    L = torch.sparse_coo_tensor(e01, w01, (V, V), dtype=torch.float32)
+    L = torch.sparse_coo_tensor(e01, w01, (V, V), dtype=verts.dtype)
     L = L + L.t()
 
     return L
-- 
2.43.0


From 2066ffed94928936fd0c35beeed035e65cb22798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:37 +0000
Subject: [PATCH 08/41] fix: chamfer_distance with all-zero weights returned
 (N, N) losses and normals losses without normals

---
 pytorch3d/loss/chamfer.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pytorch3d/loss/chamfer.py b/pytorch3d/loss/chamfer.py
index 7d78766..428463d 100644
--- a/pytorch3d/loss/chamfer.py
+++ b/pytorch3d/loss/chamfer.py
@@ -102,9 +102,6 @@ def _chamfer_distance_single_direction(
             raise ValueError("weights must be of shape (N,).")
         if not (weights >= 0).all():
             raise ValueError("weights cannot be negative.")
-        if weights.sum() == 0.0:
-            weights = weights.view(N, 1)
-            return ((x.sum((1, 2)) * weights) * 0.0, (x.sum((1, 2)) * weights) * 0.0)
 
     cham_norm_x = x.new_zeros(())
 
-- 
2.43.0


From 604189c130fde28cfcb63e5144b81f38eb48fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 09/41] fix: indexing Translate, Scale, Rotate lost float64 and
 RotateAxisAngle could not be indexed

---
 pytorch3d/transforms/transform3d.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/transforms/transform3d.py b/pytorch3d/transforms/transform3d.py
index 539cbea..86f23ca 100644
--- a/pytorch3d/transforms/transform3d.py
+++ b/pytorch3d/transforms/transform3d.py
@@ -578,7 +578,7 @@ class Translate(Transform3d):
         """
         if isinstance(index, int):
             index = [index]
-        return self.__class__(self.get_matrix()[index, 3, :3])
+        return self.__class__(self.get_matrix()[index, 3, :3], dtype=self.dtype)
 
 
 class Scale(Transform3d):
@@ -645,7 +645,7 @@ class Scale(Transform3d):
         x = mat[:, 0, 0]
         y = mat[:, 1, 1]
         z = mat[:, 2, 2]
-        return self.__class__(x, y, z)
+        return self.__class__(x, y, z, dtype=self.dtype)
 
 
 class Rotate(Transform3d):
@@ -703,7 +703,9 @@ class Rotate(Transform3d):
         """
         if isinstance(index, int):
             index = [index]
-        return self.__class__(self.get_matrix()[index, :3, :3])
+        # A selection of a RotateAxisAngle is a plain rotation: its __init__
+        # takes angles rather than matrices.
+        return Rotate(self.get_matrix()[index, :3, :3], dtype=self.dtype)
 
 
 class RotateAxisAngle(Rotate):
-- 
2.43.0


From c295c5ad6c391aa1979f522a2ae4837598307667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 10/41] fix: camera_to_eye_at_up failed for float64 transforms

---
 pytorch3d/renderer/camera_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/camera_utils.py b/pytorch3d/renderer/camera_utils.py
index 43211c9..5501d3d 100644
--- a/pytorch3d/renderer/camera_utils.py
+++ b/pytorch3d/renderer/camera_utils.py
@@ -63,7 +63,9 @@ def camera_to_eye_at_up(
     # (whose position vector in the camera coordinate frame is an up vector)
     # can be transformed with transform_points.
     eye_at_up_view = torch.tensor(
-        [[0, 0, 0], [0, 0, 1], [0, 1, 0]], dtype=torch.float32, device=cam_trans.device
+        [[0, 0, 0], [0, 0, 1], [0, 1, 0]],
+        dtype=cam_trans.dtype,
+        device=cam_trans.device,
     )
     eye_at_up_world = cam_trans.transform_points(eye_at_up_view).reshape(-1, 3, 3)
 
-- 
2.43.0


From ebf39fc9145b97c371817e9aaf66774f9b8f5011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:06 +0000
Subject: [PATCH 11/41] fix: phong and flat shading failed for a batch of
 materials

---
 pytorch3d/renderer/mesh/shading.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shading.py b/pytorch3d/renderer/mesh/shading.py
index bb113ee..f59142c 100644
--- a/pytorch3d/renderer/mesh/shading.py
+++ b/pytorch3d/renderer/mesh/shading.py
@@ -39,8 +39,15 @@ def _apply_lighting(
         shininess=materials.shininess,
     )
     ambient_color = materials.ambient_color * lights.ambient_color
-    diffuse_color = materials.diffuse_color * light_diffuse
-    specular_color = materials.specular_color * light_specular
+    material_diffuse = materials.diffuse_color
+    material_specular = materials.specular_color
+    if light_diffuse.ndim != material_diffuse.ndim:
+        # Reshape from (N, 3) to have dimensions compatible with
+        # light_diffuse which is of shape (N, H, W, K, 3)
+        material_diffuse = material_diffuse[:, None, None, None, :]
+        material_specular = material_specular[:, None, None, None, :]
+    diffuse_color = material_diffuse * light_diffuse
+    specular_color = material_specular * light_specular
 
     if normals.dim() == 2 and points.dim() == 2:
         # If given packed inputs remove batch dim in output.
-- 
2.43.0


From 9d281f165a15df489b083553f5385126067c4ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 12/41] fix: depth shaders failed for a batch of cameras with
 zfar

---
 pytorch3d/renderer/mesh/shader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index e751389..239509c 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -396,6 +396,9 @@ class HardDepthShader(ShaderBase):
         mask = fragments.pix_to_face[..., 0:1] < 0
 
         zbuf = fragments.zbuf[..., 0:1].clone()
+        if torch.is_tensor(zfar) and zfar.ndim > 0:
+            # zfar is of shape (N,), one value for each image
+            zfar = zfar[:, None, None, None].expand_as(zbuf)[mask]
         zbuf[mask] = zfar
         return zbuf
 
@@ -427,6 +430,9 @@ class SoftDepthShader(ShaderBase):
         mask = fragments.pix_to_face >= 0
 
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
+        if torch.is_tensor(zfar) and zfar.ndim > 0:
+            # zfar is of shape (N,), one value for each image
+            zfar = zfar[:, None, None, None]
 
         # Sigmoid probability map based on the distance of the pixel to the face.
         prob_map = torch.sigmoid(-fragments.dists / self.blend_params.sigma) * mask
-- 
2.43.0


From ebb19c322e1e7e04b38ae1131c2471b259e26d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 13/41] fix: SoftGouraudShader and SoftDepthShader ignored
 blend_params passed to forward

---
 pytorch3d/renderer/mesh/shader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index 239509c..1549d57 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -202,6 +202,7 @@ class SoftGouraudShader(ShaderBase):
         cameras = super()._get_cameras(**kwargs)
         lights = kwargs.get("lights", self.lights)
         materials = kwargs.get("materials", self.materials)
+        blend_params = kwargs.get("blend_params", self.blend_params)
         pixel_colors = gouraud_shading(
             meshes=meshes,
             fragments=fragments,
@@ -212,7 +213,7 @@ class SoftGouraudShader(ShaderBase):
         znear = kwargs.get("znear", getattr(cameras, "znear", 1.0))
         zfar = kwargs.get("zfar", getattr(cameras, "zfar", 100.0))
         images = softmax_rgb_blend(
-            pixel_colors, fragments, self.blend_params, znear=znear, zfar=zfar
+            pixel_colors, fragments, blend_params, znear=znear, zfar=zfar
         )
         return images
 
@@ -424,6 +425,7 @@ class SoftDepthShader(ShaderBase):
             raise ValueError("SoftDepthShader requires Fragments.dists to be present.")
 
         cameras = super()._get_cameras(**kwargs)
+        blend_params = kwargs.get("blend_params", self.blend_params)
 
         N, H, W, K = fragments.pix_to_face.shape
         device = fragments.zbuf.device
@@ -435,7 +437,7 @@ class SoftDepthShader(ShaderBase):
             zfar = zfar[:, None, None, None]
 
         # Sigmoid probability map based on the distance of the pixel to the face.
-        prob_map = torch.sigmoid(-fragments.dists / self.blend_params.sigma) * mask
+        prob_map = torch.sigmoid(-fragments.dists / blend_params.sigma) * mask
 
         # append extra face for zfar
         dists = torch.cat(
-- 
2.43.0


From 152cc487f13c7aeadf57f9a393d0f173b3688e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 14/41] fix: PointsRenderer used the stored radius with
 raster_settings passed to forward

---
 pytorch3d/renderer/points/renderer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/points/renderer.py b/pytorch3d/renderer/points/renderer.py
index 9be832d..54340b8 100644
--- a/pytorch3d/renderer/points/renderer.py
+++ b/pytorch3d/renderer/points/renderer.py
@@ -59,7 +59,8 @@ class PointsRenderer(nn.Module):
         # Construct weights based on the distance of a point to the true point.
         # However, this could be done differently: e.g. predicted as opposed
         # to a function of the weights.
-        r = self.rasterizer.raster_settings.radius
+        raster_settings = kwargs.get("raster_settings", self.rasterizer.raster_settings)
+        r = raster_settings.radius
 
         dists2 = fragments.dists.permute(0, 3, 1, 2)
         weights = 1 - dists2 / (r * r)
-- 
2.43.0


From 5ef97ae17a13c1e78f7b7eae583d4294614361a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 15/41] fix: SplatterPhongShader failed when called with
 another image size

---
 pytorch3d/renderer/mesh/shader.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/renderer/mesh/shader.py b/pytorch3d/renderer/mesh/shader.py
index 1549d57..3ebfb6a 100644
--- a/pytorch3d/renderer/mesh/shader.py
+++ b/pytorch3d/renderer/mesh/shader.py
@@ -348,9 +348,13 @@ class SplatterPhongShader(ShaderBase):
             materials=materials,
         )
 
-        if not self.splatter_blender:
-            # Init only once, to avoid re-computing constants.
-            N, H, W, K, _ = colors.shape
+        input_shape = colors.shape[:4]
+        if (
+            not self.splatter_blender
+            or self.splatter_blender.crop_ids_w.shape[:4] != input_shape
+        ):
+            # Init only when the shape changes, to avoid re-computing constants.
+            N, H, W, K = input_shape
             self.splatter_blender = SplatterBlender((N, H, W, K), colors.device)
 
         blend_params = kwargs.get("blend_params", self.blend_params)
-- 
2.43.0


From 05d2f9f7e412e79d0e6f8f0bddb3866edeec5044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:53 +0000
Subject: [PATCH 16/41] fix: PointsRenderer failed with a radius for each point

---
 pytorch3d/renderer/points/renderer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytorch3d/renderer/points/renderer.py b/pytorch3d/renderer/points/renderer.py
index 54340b8..c94ee75 100644
--- a/pytorch3d/renderer/points/renderer.py
+++ b/pytorch3d/renderer/points/renderer.py
@@ -10,6 +10,8 @@
 import torch
 import torch.nn as nn
 
+from .rasterize_points import _format_radius
+
 
 # A renderer class should be initialized with a
 # function for rasterization and a function for compositing.
@@ -61,6 +63,10 @@ class PointsRenderer(nn.Module):
         # to a function of the weights.
         raster_settings = kwargs.get("raster_settings", self.rasterizer.raster_settings)
         r = raster_settings.radius
+        if not isinstance(r, float):
+            # a radius for each point: look up the radius of each fragment
+            r = _format_radius(r, point_clouds)[fragments.idx.long().clamp(min=0)]
+            r = r.permute(0, 3, 1, 2)
 
         dists2 = fragments.dists.permute(0, 3, 1, 2)
         weights = 1 - dists2 / (r * r)
-- 
2.43.0


From 9b137f350455f183eb4d805201e3bfdb54486006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:45 +0000
Subject: [PATCH 17/41] fix: FishEyeCameras dropped the points axis for a
 single point

---
 pytorch3d/renderer/fisheyecameras.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/fisheyecameras.py b/pytorch3d/renderer/fisheyecameras.py
index 551e94d..a2ec54c 100644
--- a/pytorch3d/renderer/fisheyecameras.py
+++ b/pytorch3d/renderer/fisheyecameras.py
@@ -311,7 +311,8 @@ class FishEyeCameras(CamerasBase):
                     )
                 )
             outputs = torch.stack(outputs, dim=0)
-        return outputs.squeeze()
+        # (N, 1, P, 3) -> (N, P, 3)
+        return outputs.squeeze(1) if points.ndim == 3 else outputs
 
     def _unproject_points_batch(
         self,
@@ -405,7 +406,8 @@ class FishEyeCameras(CamerasBase):
                     )
                 )
             outputs = torch.stack(outputs, dim=0)
-        return outputs.squeeze()
+        # (N, 1, P, 3) -> (N, P, 3)
+        return outputs.squeeze(1) if xy_depth.ndim == 3 else outputs
 
     def _compute_xr_yr_from_uv_distorted(
         self, tangential_params, thin_prism_params, uv_distorted: torch.Tensor
-- 
2.43.0


From a040d515d67173df319923d8e0d40c56e3b66d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:35 +0000
Subject: [PATCH 18/41] fix: FishEyeCameras thin prism distortion mixed devices
 without tangential distortion

---
 pytorch3d/renderer/fisheyecameras.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/fisheyecameras.py b/pytorch3d/renderer/fisheyecameras.py
index a2ec54c..ee5538e 100644
--- a/pytorch3d/renderer/fisheyecameras.py
+++ b/pytorch3d/renderer/fisheyecameras.py
@@ -557,7 +557,9 @@ class FishEyeCameras(CamerasBase):
                 + 2.0 * xr_yr[..., 0] * tangential_params[..., 0]
             )
         else:
-            duv_distorted_dxryr = torch.eye(2).repeat(*sh, 1, 1)
+            duv_distorted_dxryr = torch.eye(
+                2, dtype=xr_yr.dtype, device=xr_yr.device
+            ).repeat(*sh, 1, 1)
 
         if self.use_thin_prism:
             temp1 = 2.0 * (
-- 
2.43.0


From 883f57f2a893c32027f59420c22f26b4f310d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 19/41] fix: pad multiple texture maps with the device and
 dtype of the maps

---
 pytorch3d/renderer/mesh/textures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index df81c7c..9640b81 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -178,7 +178,7 @@ def _pad_texture_multiple_maps(
     max_shape = (max_M, max_H, max_W, C)
     max_im_shape = (max_H, max_W)
     for i, tms in enumerate(tex_maps):
-        new_tex_maps = torch.zeros(max_shape)
+        new_tex_maps = tms.new_zeros(max_shape)
         for j in range(tms.shape[0]):
             im = tms[j]
             if im.shape[:2] != max_im_shape:
-- 
2.43.0


From 9db276fea4769aeebc21924acc04a35265864fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 20/41] fix: checkerboard creates all its tensors on the
 requested device

---
 pytorch3d/utils/checkerboard.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/utils/checkerboard.py b/pytorch3d/utils/checkerboard.py
index a0d53fd..1539281 100644
--- a/pytorch3d/utils/checkerboard.py
+++ b/pytorch3d/utils/checkerboard.py
@@ -43,11 +43,18 @@ def checkerboard(
     x = torch.arange(-radius, radius + 1, device=device)
     grid_y, grid_x = meshgrid_ij(x, x)
     verts = torch.stack(
-        [grid_x, grid_y, torch.zeros((2 * radius + 1, 2 * radius + 1))], dim=-1
+        [
+            grid_x,
+            grid_y,
+            torch.zeros((2 * radius + 1, 2 * radius + 1), device=device),
+        ],
+        dim=-1,
     )
     verts = verts.view(1, -1, 3)
 
-    top_triangle_idx = torch.arange(0, num_verts_per_row * (num_verts_per_row - 1))
+    top_triangle_idx = torch.arange(
+        0, num_verts_per_row * (num_verts_per_row - 1), device=device
+    )
     top_triangle_idx = torch.stack(
         [
             top_triangle_idx,
@@ -58,7 +65,7 @@ def checkerboard(
     )
 
     bottom_triangle_idx = top_triangle_idx[:, [0, 2, 1]] + torch.tensor(
-        [0, 0, num_verts_per_row - 1]
+        [0, 0, num_verts_per_row - 1], device=device
     )
 
     faces = torch.zeros(
@@ -81,9 +88,11 @@ def checkerboard(
     faces = faces[:, indexing_range]
 
     # adding color
-    colors = torch.tensor(color1).repeat(2 * num_verts_per_row * num_verts_per_row, 1)
-    colors[2::4] = torch.tensor(color2)
-    colors[3::4] = torch.tensor(color2)
+    colors = torch.tensor(color1, device=device).repeat(
+        2 * num_verts_per_row * num_verts_per_row, 1
+    )
+    colors[2::4] = torch.tensor(color2, device=device)
+    colors[3::4] = torch.tensor(color2, device=device)
     colors = colors[None, indexing_range, None, None]
 
     texture_atlas = TexturesAtlas(colors)
-- 
2.43.0


From c1cbc869216dee0b4c12b1d3a2b2d8849bfa1fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 21/41] fix: frustum culling compares the coordinate of every
 vertex with the planes

The planes are those of the NDC range of the image, which exceeds [-1, 1]
along the longer side.
---
 pytorch3d/renderer/mesh/clip.py             |  4 ++--
 pytorch3d/renderer/mesh/rasterize_meshes.py | 20 ++++++++++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/pytorch3d/renderer/mesh/clip.py b/pytorch3d/renderer/mesh/clip.py
index 27b23b0..08f5498 100644
--- a/pytorch3d/renderer/mesh/clip.py
+++ b/pytorch3d/renderer/mesh/clip.py
@@ -187,9 +187,9 @@ def _get_culled_faces(face_verts: torch.Tensor, frustum: ClipFrustum) -> torch.T
         # If clip_value is None then don't clip along that plane
         if frustum.cull and clip_value is not None:
             if op == "<":
-                verts_clipped = face_verts[:, axis] < clip_value
+                verts_clipped = face_verts[:, :, axis] < clip_value
             else:
-                verts_clipped = face_verts[:, axis] > clip_value
+                verts_clipped = face_verts[:, :, axis] > clip_value
 
             # If all verts are clipped then face is outside the frustum
             faces_culled |= verts_clipped.sum(1) == 3
diff --git a/pytorch3d/renderer/mesh/rasterize_meshes.py b/pytorch3d/renderer/mesh/rasterize_meshes.py
index c2f7b34..a808fc9 100644
--- a/pytorch3d/renderer/mesh/rasterize_meshes.py
+++ b/pytorch3d/renderer/mesh/rasterize_meshes.py
@@ -161,11 +161,13 @@ def rasterize_meshes(
         # Cull faces outside the view frustum, and clip faces that are partially
         # behind the camera into the portion of the triangle in front of the
         # camera.  This may change the number of faces
+        # The shorter side of the image spans [-1, 1] in NDC.
+        x_range, y_range = (im_size[i] / min(*im_size) for i in (1, 0))
         frustum = ClipFrustum(
-            left=-1,
-            right=1,
-            top=-1,
-            bottom=1,
+            left=-x_range,
+            right=x_range,
+            top=-y_range,
+            bottom=y_range,
             perspective_correct=perspective_correct,
             z_clip_value=z_clip_value,
             cull=cull_to_frustum,
@@ -436,11 +438,13 @@ def rasterize_meshes_python(  # noqa: C901
         # Cull faces outside the view frustum, and clip faces that are partially
         # behind the camera into the portion of the triangle in front of the
         # camera.  This may change the number of faces
+        # The shorter side of the image spans [-1, 1] in NDC.
+        x_range, y_range = W / min(H, W), H / min(H, W)
         frustum = ClipFrustum(
-            left=-1,
-            right=1,
-            top=-1,
-            bottom=1,
+            left=-x_range,
+            right=x_range,
+            top=-y_range,
+            bottom=y_range,
             perspective_correct=perspective_correct,
             z_clip_value=z_clip_value,
             cull=cull_to_frustum,
-- 
2.43.0


From 21822c5e102fae6d2139b5af68bf61d73c107497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 22/41] fix: save_obj opens the texture files through the path
 manager

---
 pytorch3d/io/obj_io.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/io/obj_io.py b/pytorch3d/io/obj_io.py
index e1862fc..308fe2f 100644
--- a/pytorch3d/io/obj_io.py
+++ b/pytorch3d/io/obj_io.py
@@ -763,15 +763,15 @@ def save_obj(
 
     # Save the .obj file
     # pyre-fixme[9]: f has type `Union[Path, str]`; used as `IO[typing.Any]`.
-    with _open_file(f, path_manager, "w") as f:
+    with _open_file(f, path_manager, "w") as f_obj:
         if save_texture:
             # Add the header required for the texture info to be loaded correctly
             obj_header = "\nmtllib {0}.mtl\nusemtl mesh\n\n".format(output_path.stem)
             # pyre-fixme[16]: Item `Path` of `Union[Path, str]` has no attribute
             #  `write`.
-            f.write(obj_header)
+            f_obj.write(obj_header)
         _save(
-            f,
+            f_obj,
             verts,
             faces,
             decimal_places,
@@ -788,9 +788,11 @@ def save_obj(
         image_path = output_path.with_suffix(".png")
         mtl_path = output_path.with_suffix(".mtl")
         if isinstance(f, str):
-            # Back to str for iopath interpretation.
-            image_path = str(image_path)
-            mtl_path = str(mtl_path)
+            # Still str for iopath interpretation. (Path would collapse the
+            # double slash of a URI.)
+            stem = os.path.splitext(f)[0]
+            image_path = stem + ".png"
+            mtl_path = stem + ".mtl"
 
         # Save texture map to output folder
         # pyre-fixme[16] # undefined attribute cpu
-- 
2.43.0


From 81405ca551e39f09189ea0d79b779b79e74d57c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 23/41] fix: saving a glb file no longer flips the uvs of the
 caller's mesh

---
 pytorch3d/io/experimental_gltf_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index 2073d12..b7ed50e 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -628,6 +628,8 @@ class _GLTFWriter:
             component_type = _ComponentType.FLOAT
             # pyrefly: ignore [missing-attribute]
             data = self.mesh.textures.verts_uvs_list()[0].cpu().numpy()
+            # astype makes a copy: the uvs of the caller are left alone
+            data = data.astype(_ITEM_TYPES[component_type])
             data[:, 1] = 1 - data[:, -1]  # flip y tex-coordinate
             element_type = "VEC2"
             buffer_view = 2
-- 
2.43.0


From 8cc3a0d66802eb7c5c582b866605031dec026f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 24/41] fix: glb files hold float32 positions and colors also
 for float64 meshes

---
 pytorch3d/io/experimental_gltf_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/io/experimental_gltf_io.py b/pytorch3d/io/experimental_gltf_io.py
index b7ed50e..c07c98b 100644
--- a/pytorch3d/io/experimental_gltf_io.py
+++ b/pytorch3d/io/experimental_gltf_io.py
@@ -617,8 +617,9 @@ class _GLTFWriter:
         name = "Node-Mesh_%s" % key
         byte_offset = 0
         if key == "positions":
-            data = self.mesh.verts_packed().cpu().numpy()
             component_type = _ComponentType.FLOAT
+            data = self.mesh.verts_packed().cpu().numpy()
+            data = data.astype(_ITEM_TYPES[component_type])
             element_type = "VEC3"
             buffer_view = 0
             element_min = list(map(float, np.min(data, axis=0)))
@@ -640,6 +641,7 @@ class _GLTFWriter:
             component_type = _ComponentType.FLOAT
             # pyrefly: ignore [missing-attribute]
             data = self.mesh.textures.verts_features_list()[0].cpu().numpy()
+            data = data.astype(_ITEM_TYPES[component_type])
             element_type = "VEC3"
             buffer_view = 2
             element_min = list(map(float, np.min(data, axis=0)))
-- 
2.43.0


From e9be4bbaeaa468619253b3cbb539dbede2b49952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:26 +0000
Subject: [PATCH 25/41] fix: ply saving checks the data before it opens (and
 truncates) the target file

---
 pytorch3d/io/ply_io.py | 51 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/io/ply_io.py b/pytorch3d/io/ply_io.py
index ec517b2..49b28c0 100644
--- a/pytorch3d/io/ply_io.py
+++ b/pytorch3d/io/ply_io.py
@@ -1156,6 +1156,33 @@ def load_ply(
     return data.verts, faces
 
 
+def _check_ply_data(
+    *,
+    verts: torch.Tensor,
+    faces: Optional[torch.LongTensor],
+    verts_normals: Optional[torch.Tensor],
+    verts_colors: Optional[torch.Tensor],
+) -> None:
+    """
+    Check the shapes of the data to be saved to a .ply file. This is called before
+    the file is opened, so that invalid data does not overwrite an existing file.
+
+    Args:
+        verts: FloatTensor of shape (V, 3) giving vertex coordinates.
+        faces: LongTensor of shape (F, 3) giving faces.
+        verts_normals: FloatTensor of shape (V, 3) giving vertex normals.
+        verts_colors: FloatTensor of shape (V, 3) giving vertex colors.
+    """
+    assert not len(verts) or (verts.dim() == 2 and verts.size(1) == 3)
+    assert faces is None or not len(faces) or (faces.dim() == 2 and faces.size(1) == 3)
+    assert verts_normals is None or (
+        verts_normals.dim() == 2 and verts_normals.size(1) == 3
+    )
+    assert verts_colors is None or (
+        verts_colors.dim() == 2 and verts_colors.size(1) == 3
+    )
+
+
 def _write_ply_header(
     f,
     *,
@@ -1179,13 +1206,11 @@ def _write_ply_header(
         colors_as_uint8: Whether to save colors as numbers in the range
                     [0, 255] instead of float32.
     """
-    assert not len(verts) or (verts.dim() == 2 and verts.size(1) == 3)
-    assert faces is None or not len(faces) or (faces.dim() == 2 and faces.size(1) == 3)
-    assert verts_normals is None or (
-        verts_normals.dim() == 2 and verts_normals.size(1) == 3
-    )
-    assert verts_colors is None or (
-        verts_colors.dim() == 2 and verts_colors.size(1) == 3
+    _check_ply_data(
+        verts=verts,
+        faces=faces,
+        verts_normals=verts_normals,
+        verts_colors=verts_colors,
     )
 
     if ascii:
@@ -1468,6 +1493,12 @@ class MeshPlyFormat(MeshFormatInterpreter):
         else:
             verts_colors = None
 
+        _check_ply_data(
+            verts=verts,
+            faces=faces,
+            verts_normals=verts_normals,
+            verts_colors=verts_colors,
+        )
         with _open_file(path, path_manager, "wb") as f:
             _save_ply(
                 f=f,
@@ -1531,6 +1562,12 @@ class PointcloudPlyFormat(PointcloudFormatInterpreter):
         features = data.features_packed()
         normals = data.normals_packed()
 
+        _check_ply_data(
+            verts=points,
+            faces=None,
+            verts_normals=normals,
+            verts_colors=features,
+        )
         with _open_file(path, path_manager, "wb") as f:
             _save_ply(
                 f=f,
-- 
2.43.0


From f1fd2c538f5a77e0c0a581e0cd7facbab1c05d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 26/41] fix: rotate view directions per batch element for ray
 bundles of any spatial shape

---
 .../models/implicit_function/neural_radiance_field.py     | 8 +++++---
 .../implicit_function/scene_representation_networks.py    | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py b/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py
index 7ba577e..479f29f 100644
--- a/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py
+++ b/pytorch3d/implicitron/models/implicit_function/neural_radiance_field.py
@@ -224,9 +224,11 @@ class NeuralRadianceFieldBase(ImplicitFunctionBase, torch.nn.Module):
             if camera is None:
                 raise ValueError("Camera must be given if xyz_ray_dir_in_camera_coords")
 
-            # pyre-fixme[58]: `@` is not supported for operand types `Tensor` and
-            #  `Union[Tensor, Module]`.
-            directions = ray_bundle.directions @ camera.R
+            directions = ray_bundle.directions
+            # one rotation per batch element, whatever the spatial shape of the rays
+            directions = directions @ camera.R.reshape(
+                -1, *([1] * (directions.ndim - 3)), 3, 3
+            )
         else:
             directions = ray_bundle.directions
 
diff --git a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
index 8c17077..7a207b0 100644
--- a/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
+++ b/pytorch3d/implicitron/models/implicit_function/scene_representation_networks.py
@@ -208,9 +208,11 @@ class SRNPixelGenerator(Configurable, torch.nn.Module):
             if camera is None:
                 raise ValueError("Camera must be given if xyz_ray_dir_in_camera_coords")
 
-            # pyre-fixme[58]: `@` is not supported for operand types `Tensor` and
-            #  `Union[Tensor, Module]`.
-            directions = ray_bundle.directions @ camera.R
+            directions = ray_bundle.directions
+            # one rotation per batch element, whatever the spatial shape of the rays
+            directions = directions @ camera.R.reshape(
+                -1, *([1] * (directions.ndim - 3)), 3, 3
+            )
         else:
             directions = ray_bundle.directions
 
-- 
2.43.0


From 9de7d17969aecb40537aedf6723b3636c2539d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 27/41] fix: VoxelGridImplicitFunction with
 xyz_ray_dir_in_camera_coords

---
 .../implicit_function/voxel_grid_implicit_function.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
index ecd8468..3e22798 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
@@ -407,9 +407,10 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
         if self.xyz_ray_dir_in_camera_coords:
             if camera is None:
                 raise ValueError("Camera must be given if xyz_ray_dir_in_camera_coords")
-            # pyre-fixme[58]: `@` is not supported for operand types `Tensor` and
-            #  `Union[Tensor, Module]`.
-            directions = directions @ camera.R
+            # the directions are flattened over the batch of cameras
+            directions = (
+                directions.reshape(camera.R.shape[0], -1, 3) @ camera.R
+            ).reshape(-1, 3)
 
         # ########## get voxel grid output ########## #
         # embeds_color.shape = [..., pts_per_ray, n_features]
-- 
2.43.0


From 51f006b7259a0dd1378851cde7ac29bf4a4f34aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 28/41] fix: chunk the scaffold occupancy over xy planes
 instead of point coordinates

---
 .../implicit_function/voxel_grid_implicit_function.py       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
index 3e22798..ef25a4e 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
@@ -537,10 +537,10 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
         chunk_size = (
             self.scaffold_occupancy_chunk_size
             if self.scaffold_occupancy_chunk_size > 0
-            else points.shape[-1]
+            else points.shape[-2]
         )
-        for k in range(0, points.shape[-1], chunk_size):
-            points_in_planes = points[..., k : k + chunk_size]
+        for k in range(0, points.shape[-2], chunk_size):
+            points_in_planes = points[..., k : k + chunk_size, :]
             planes.append(self._get_density(points_in_planes)[..., 0])
 
         density_cube = torch.cat(planes, dim=-1)
-- 
2.43.0


From 456314ac2a3a9c822a36012e932931eb54522447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 29/41] fix: create the empty xyz embedding on the device of
 the points

---
 pytorch3d/implicitron/models/implicit_function/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytorch3d/implicitron/models/implicit_function/utils.py b/pytorch3d/implicitron/models/implicit_function/utils.py
index d0e7ccd..c87a7a5 100644
--- a/pytorch3d/implicitron/models/implicit_function/utils.py
+++ b/pytorch3d/implicitron/models/implicit_function/utils.py
@@ -60,6 +60,8 @@ def create_embeddings_for_implicit_function(
             prod(spatial_size),
             pts_per_ray,
             0,
+            dtype=xyz_world.dtype,
+            device=xyz_world.device,
         )
     else:
         embeds = xyz_embedding_function(ray_points_for_embed, diag_cov=diag_cov)
-- 
2.43.0


From b5fbc346f2db6c7271b060bb8c9c962afa717fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 30/41] fix: ReductionFunction.MAX of the feature aggregators

---
 pytorch3d/implicitron/models/view_pooler/feature_aggregator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
index 5d600b0..319e37f 100644
--- a/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
+++ b/pytorch3d/implicitron/models/view_pooler/feature_aggregator.py
@@ -685,6 +685,7 @@ def _max_reduction_function(
     dim: int = 1,
     big_M_factor: float = 10.0,
 ):
+    w = w[..., None]  # broadcast over the feature dimension
     big_M = x.max(dim=dim, keepdim=True).values.abs() * big_M_factor
     max_ = (x * w - ((1 - w) * big_M)).max(dim=dim, keepdim=True).values
     return max_
-- 
2.43.0


From b68e45c6ab44826e8f831a272036a7c6de8da935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 31/41] fix: evaluate voxel grids on points of any memory
 layout

---
 .../implicitron/models/implicit_function/voxel_grid.py      | 6 +++---
 pytorch3d/structures/volumes.py                             | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
index 26b64f5..a528360 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid.py
@@ -394,7 +394,7 @@ class FullResolutionVoxelGrid(VoxelGridBase):
         """
         # (n_grids, n_points_total, n_features) from (n_grids, ..., n_features)
         recorded_shape = points.shape
-        points = points.view(points.shape[0], -1, points.shape[-1])
+        points = points.reshape(points.shape[0], -1, points.shape[-1])
         interpolated = interpolate_volume(
             points,
             grid_values.voxel_grid,
@@ -504,7 +504,7 @@ class CPFactorizedVoxelGrid(VoxelGridBase):
 
         # (n_grids, n_points_total, n_features) from (n_grids, ..., n_features)
         recorded_shape = points.shape
-        points = points.view(points.shape[0], -1, points.shape[-1])
+        points = points.reshape(points.shape[0], -1, points.shape[-1])
 
         # collect points from all the vectors and multipy them out
         mult = factor("x") * factor("y") * factor("z")
@@ -640,7 +640,7 @@ class VMFactorizedVoxelGrid(VoxelGridBase):
     ) -> torch.Tensor:
         # (n_grids, n_points_total, n_features) from (n_grids, ..., n_features)
         recorded_shape = points.shape
-        points = points.view(points.shape[0], -1, points.shape[-1])
+        points = points.reshape(points.shape[0], -1, points.shape[-1])
 
         # collect points from matrices and vectors and multiply them
         a = interpolate_plane(
diff --git a/pytorch3d/structures/volumes.py b/pytorch3d/structures/volumes.py
index 2ce815f..7095358 100644
--- a/pytorch3d/structures/volumes.py
+++ b/pytorch3d/structures/volumes.py
@@ -919,7 +919,7 @@ class VolumeLocator:
         pts_shape = points_3d_world.shape
         return (
             self.get_world_to_local_coords_transform()
-            .transform_points(points_3d_world.view(pts_shape[0], -1, 3))
+            .transform_points(points_3d_world.reshape(pts_shape[0], -1, 3))
             .view(pts_shape)
         )
 
@@ -943,7 +943,7 @@ class VolumeLocator:
         pts_shape = points_3d_local.shape
         return (
             self.get_local_to_world_coords_transform()
-            .transform_points(points_3d_local.view(pts_shape[0], -1, 3))
+            .transform_points(points_3d_local.reshape(pts_shape[0], -1, 3))
             .view(pts_shape)
         )
 
-- 
2.43.0


From c16359db64b488a6a93414605de9d9a552830d0a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 32/41] fix: accept tensors of any memory layout instead of
 failing in view()

---
 pytorch3d/implicitron/models/implicit_function/utils.py     | 2 +-
 .../implicit_function/voxel_grid_implicit_function.py       | 2 +-
 pytorch3d/implicitron/models/renderer/ray_point_refiner.py  | 4 ++--
 pytorch3d/implicitron/models/renderer/ray_sampler.py        | 2 +-
 pytorch3d/implicitron/models/renderer/sdf_renderer.py       | 2 +-
 pytorch3d/ops/interp_face_attrs.py                          | 6 +++---
 pytorch3d/ops/laplacian_matrices.py                         | 2 +-
 pytorch3d/ops/points_to_volumes.py                          | 4 ++--
 pytorch3d/renderer/implicit/renderer.py                     | 2 +-
 pytorch3d/renderer/mesh/shading.py                          | 2 +-
 pytorch3d/renderer/points/rasterize_points.py               | 2 +-
 pytorch3d/renderer/splatter_blend.py                        | 2 +-
 12 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/pytorch3d/implicitron/models/implicit_function/utils.py b/pytorch3d/implicitron/models/implicit_function/utils.py
index c87a7a5..8cb2d40 100644
--- a/pytorch3d/implicitron/models/implicit_function/utils.py
+++ b/pytorch3d/implicitron/models/implicit_function/utils.py
@@ -47,7 +47,7 @@ def create_embeddings_for_implicit_function(
 
         ray_points_for_embed = (
             camera.get_world_to_view_transform()
-            .transform_points(xyz_world.view(bs, -1, 3))
+            .transform_points(xyz_world.reshape(bs, -1, 3))
             .view(xyz_world.shape)
         )
     else:
diff --git a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
index ef25a4e..651090b 100644
--- a/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
+++ b/pytorch3d/implicitron/models/implicit_function/voxel_grid_implicit_function.py
@@ -254,7 +254,7 @@ class VoxelGridImplicitFunction(ImplicitFunctionBase, torch.nn.Module):
         directions = ray_bundle.directions.reshape(-1, 3)
         input_shape = points.shape
         num_points_per_ray = input_shape[-2]
-        points = points.view(-1, 3)
+        points = points.reshape(-1, 3)
         non_empty_points = None
 
         # ########## filter the points using the scaffold ########## #
diff --git a/pytorch3d/implicitron/models/renderer/ray_point_refiner.py b/pytorch3d/implicitron/models/renderer/ray_point_refiner.py
index df77eec..a23eb07 100644
--- a/pytorch3d/implicitron/models/renderer/ray_point_refiner.py
+++ b/pytorch3d/implicitron/models/renderer/ray_point_refiner.py
@@ -86,7 +86,7 @@ class RayPointRefiner(Configurable, torch.nn.Module):
                 ray_weights = apply_blurpool_on_weights(ray_weights)
 
             n_pts_per_ray = self.n_pts_per_ray
-            ray_weights = ray_weights.view(-1, ray_weights.shape[-1])
+            ray_weights = ray_weights.reshape(-1, ray_weights.shape[-1])
             if input_ray_bundle.bins is None:
                 z_vals: torch.Tensor = input_ray_bundle.lengths
                 ray_weights = ray_weights[..., 1:-1]
@@ -96,7 +96,7 @@ class RayPointRefiner(Configurable, torch.nn.Module):
                 n_pts_per_ray += 1
                 bins = z_vals
             z_samples = sample_pdf(
-                bins.view(-1, bins.shape[-1]),
+                bins.reshape(-1, bins.shape[-1]),
                 ray_weights,
                 n_pts_per_ray,
                 det=not self.random_sampling,
diff --git a/pytorch3d/implicitron/models/renderer/ray_sampler.py b/pytorch3d/implicitron/models/renderer/ray_sampler.py
index 417d0ae..b971bc6 100644
--- a/pytorch3d/implicitron/models/renderer/ray_sampler.py
+++ b/pytorch3d/implicitron/models/renderer/ray_sampler.py
@@ -352,7 +352,7 @@ def compute_radii(
     spatial_size = xy_grid.shape[1:-1]
     n_rays_per_image = spatial_size.numel()
 
-    xy = xy_grid.view(batch_size, n_rays_per_image, 2)
+    xy = xy_grid.reshape(batch_size, n_rays_per_image, 2)
 
     # [batch_size, 3 * n_rays_per_image, 2]
     xy = torch.cat(
diff --git a/pytorch3d/implicitron/models/renderer/sdf_renderer.py b/pytorch3d/implicitron/models/renderer/sdf_renderer.py
index c769b5f..6bc7b2b 100644
--- a/pytorch3d/implicitron/models/renderer/sdf_renderer.py
+++ b/pytorch3d/implicitron/models/renderer/sdf_renderer.py
@@ -224,7 +224,7 @@ class SignedDistanceFunctionRenderer(BaseRenderer, torch.nn.Module):
             )
 
         # scatter points with surface_mask
-        points_full = ray_bundle.origins.detach().clone()
+        points_full = ray_bundle.origins.detach().clone(memory_format=torch.contiguous_format)
         points_full.view(-1, 3)[surface_mask] = differentiable_surface_points
 
         # TODO: it is sparse here but otherwise dense
diff --git a/pytorch3d/ops/interp_face_attrs.py b/pytorch3d/ops/interp_face_attrs.py
index 4cf6b99..902d944 100644
--- a/pytorch3d/ops/interp_face_attrs.py
+++ b/pytorch3d/ops/interp_face_attrs.py
@@ -55,8 +55,8 @@ def interpolate_face_attributes(
 
     # Otherwise flatten and call the custom autograd function
     N, H, W, K = pix_to_face.shape
-    pix_to_face = pix_to_face.view(-1)
-    barycentric_coords = barycentric_coords.view(N * H * W * K, 3)
+    pix_to_face = pix_to_face.reshape(-1)
+    barycentric_coords = barycentric_coords.reshape(N * H * W * K, 3)
     args = (pix_to_face, barycentric_coords, face_attributes)
     out = _InterpFaceAttrs.apply(*args)
     out = out.view(N, H, W, K, -1)
@@ -95,7 +95,7 @@ def interpolate_face_attributes_python(
     mask = pix_to_face < 0
     pix_to_face = pix_to_face.clone()
     pix_to_face[mask] = 0
-    idx = pix_to_face.view(N * H * W * K, 1, 1).expand(N * H * W * K, 3, D)
+    idx = pix_to_face.reshape(N * H * W * K, 1, 1).expand(N * H * W * K, 3, D)
     pixel_face_vals = face_attributes.gather(0, idx).view(N, H, W, K, 3, D)
     pixel_vals = (barycentric_coords[..., None] * pixel_face_vals).sum(dim=-2)
     pixel_vals[mask] = 0  # Replace masked values in output.
diff --git a/pytorch3d/ops/laplacian_matrices.py b/pytorch3d/ops/laplacian_matrices.py
index 7d681ee..01f89c7 100644
--- a/pytorch3d/ops/laplacian_matrices.py
+++ b/pytorch3d/ops/laplacian_matrices.py
@@ -130,7 +130,7 @@ def cot_laplacian(
     L = L + L.t()
 
     # For each vertex, compute the sum of areas for triangles containing it.
-    idx = faces.view(-1)
+    idx = faces.reshape(-1)
     inv_areas = torch.zeros(V, dtype=verts.dtype, device=verts.device)
     val = torch.stack([area] * 3, dim=1).view(-1)
     inv_areas.scatter_add_(0, idx, val)
diff --git a/pytorch3d/ops/points_to_volumes.py b/pytorch3d/ops/points_to_volumes.py
index b8a6109..33b9ad5 100644
--- a/pytorch3d/ops/points_to_volumes.py
+++ b/pytorch3d/ops/points_to_volumes.py
@@ -461,7 +461,7 @@ def _add_points_features_to_volume_densities_features_python(
 
     # flatten densities and features
     v_shape = volume_densities.shape[2:]
-    volume_densities_flatten = volume_densities.clone().view(ba, -1, 1)
+    volume_densities_flatten = volume_densities.clone().reshape(ba, -1, 1)
     n_voxels = volume_densities_flatten.shape[1]
 
     if volume_features is None:
@@ -469,7 +469,7 @@ def _add_points_features_to_volume_densities_features_python(
         volume_features_flatten = volume_densities.new_zeros(ba, feature_dim, n_voxels)
     else:
         # otherwise just flatten
-        volume_features_flatten = volume_features.clone().view(
+        volume_features_flatten = volume_features.clone().reshape(
             ba, feature_dim, n_voxels
         )
 
diff --git a/pytorch3d/renderer/implicit/renderer.py b/pytorch3d/renderer/implicit/renderer.py
index 963f7d0..7cfaf6f 100644
--- a/pytorch3d/renderer/implicit/renderer.py
+++ b/pytorch3d/renderer/implicit/renderer.py
@@ -354,7 +354,7 @@ class VolumeSampler(torch.nn.Module):
 
         # transform the directions to the local coords
         rays_directions_local = directions_transform.transform_points(
-            rays_directions_world.view(rays_lengths.shape[0], -1, 3)
+            rays_directions_world.reshape(rays_lengths.shape[0], -1, 3)
         ).view(rays_directions_world.shape)
 
         ############################
diff --git a/pytorch3d/renderer/mesh/shading.py b/pytorch3d/renderer/mesh/shading.py
index f59142c..f9f9c2c 100644
--- a/pytorch3d/renderer/mesh/shading.py
+++ b/pytorch3d/renderer/mesh/shading.py
@@ -215,7 +215,7 @@ def flat_shading(meshes, fragments, lights, cameras, materials, texels) -> torch
     pix_to_face[mask] = 0
 
     N, H, W, K = pix_to_face.shape
-    idx = pix_to_face.view(N * H * W * K, 1).expand(N * H * W * K, 3)
+    idx = pix_to_face.reshape(N * H * W * K, 1).expand(N * H * W * K, 3)
 
     # gather pixel coords
     pixel_coords = face_coords.gather(0, idx).view(N, H, W, K, 3)
diff --git a/pytorch3d/renderer/points/rasterize_points.py b/pytorch3d/renderer/points/rasterize_points.py
index b9f853c..149d4bd 100644
--- a/pytorch3d/renderer/points/rasterize_points.py
+++ b/pytorch3d/renderer/points/rasterize_points.py
@@ -175,7 +175,7 @@ def _format_radius(
             raise ValueError(msg % (repr(radius.shape)))
         else:
             padded_to_packed_idx = pointclouds.padded_to_packed_idx()
-            radius = radius.view(-1)[padded_to_packed_idx]
+            radius = radius.reshape(-1)[padded_to_packed_idx]
     elif isinstance(radius, float):
         radius = torch.full((P_packed,), fill_value=radius).type_as(points_packed)
     else:
diff --git a/pytorch3d/renderer/splatter_blend.py b/pytorch3d/renderer/splatter_blend.py
index 936944b..ae6ac5e 100644
--- a/pytorch3d/renderer/splatter_blend.py
+++ b/pytorch3d/renderer/splatter_blend.py
@@ -99,7 +99,7 @@ def _prepare_pixels_and_colors(
     # to not flip the xy axes, otherwise the gradients will be inverted when the
     # splatter works with a detached rasterizer.
     pixel_coords_screen = cameras.transform_points_screen(
-        pixel_coords_cameras.view([N, -1, 3]), image_size=(H, W), with_xyflip=False
+        pixel_coords_cameras.reshape([N, -1, 3]), image_size=(H, W), with_xyflip=False
     ).reshape(pixel_coords_cameras.shape)
 
     # Set colors' alpha to 1 and background to 0.
-- 
2.43.0


From 58eb77baec86239733e83f216846c936abc4182c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 33/41] fix: sample volumes along rays of any memory layout

---
 pytorch3d/renderer/implicit/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/renderer/implicit/renderer.py b/pytorch3d/renderer/implicit/renderer.py
index 7cfaf6f..d9b57d0 100644
--- a/pytorch3d/renderer/implicit/renderer.py
+++ b/pytorch3d/renderer/implicit/renderer.py
@@ -376,7 +376,7 @@ class VolumeSampler(torch.nn.Module):
         volumes_features = self._volumes.features()
 
         # reshape to a size which grid_sample likes
-        rays_points_local_flat = rays_points_local.view(
+        rays_points_local_flat = rays_points_local.reshape(
             rays_points_local.shape[0], -1, 1, 1, 3
         )
 
-- 
2.43.0


From fcaa9f272a11dad8839829ed0da84e601b61a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 34/41] fix: SDF renderer with batches of more than one camera

---
 pytorch3d/implicitron/models/renderer/rgb_net.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/implicitron/models/renderer/rgb_net.py b/pytorch3d/implicitron/models/renderer/rgb_net.py
index 224cb55..55f00e3 100644
--- a/pytorch3d/implicitron/models/renderer/rgb_net.py
+++ b/pytorch3d/implicitron/models/renderer/rgb_net.py
@@ -102,7 +102,8 @@ class RayNormalColoringNetwork(torch.nn.Module):
         view_dirs = ray_bundle.directions
         if masks is not None:
             # in case of IDR, other outputs are passed here after applying the mask
-            view_dirs = view_dirs.reshape(view_dirs.shape[0], -1, 3)[
+            # over all rays of the batch
+            view_dirs = view_dirs.reshape(1, -1, 3)[
                 :, masks.reshape(-1)
             ]
 
-- 
2.43.0


From 4fe0e3293c0bc123b4f71137b3183683710c6f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:44 +0000
Subject: [PATCH 35/41] fix: sample_pdf on the CPU does not process rows behind
 the end of the batch

With 4 threads and 5 batch elements the ranges given to the threads were
[0, 2), [2, 4), [4, 6), so that one row behind the end of bins and weights
was read and one behind the end of the outputs was overwritten.
---
 pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
index 272197c..7f0bc88 100644
--- a/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
+++ b/pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp
@@ -128,7 +128,7 @@ void SamplePdfCpu(
         outputs,
         eps,
         start_batch,
-        start_batch + batch_elements_per_thread);
+        std::min(start_batch + batch_elements_per_thread, batch_size));
     start_batch += batch_elements_per_thread;
   }
 
-- 
2.43.0


From 29778f60d99695e8b62d657c2a7d7f73ef49f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:44 +0000
Subject: [PATCH 36/41] fix: CPU point mesh distances with empty batch elements

When a cloud (or mesh) in the batch was empty, the elements behind it were
compared with the faces (or points) of the wrong batch element.
---
 pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp b/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
index 35c0b8c..4a42471 100644
--- a/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
+++ b/pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp
@@ -184,7 +184,8 @@ std::tuple<at::Tensor, at::Tensor> HullHullDistanceForwardCpu(
   int64_t b_batch_start = 0, b_batch_end = 0;
   int64_t batch_idx = 0;
   for (int64_t a_n = 0; a_n < A_N; ++a_n) {
-    if (a_n == a_batch_end) {
+    // More than one step is needed where a batch element is empty.
+    while (a_n == a_batch_end) {
       ++batch_idx;
       b_batch_start = b_batch_end;
       if (batch_idx == BATCHES) {
-- 
2.43.0


From 01278c893d8487ae5bc446138209de097570b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:20 +0000
Subject: [PATCH 37/41] fix: list_to_padded of only empty items

---
 pytorch3d/structures/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytorch3d/structures/utils.py b/pytorch3d/structures/utils.py
index 6c0c4f7..6d54d16 100644
--- a/pytorch3d/structures/utils.py
+++ b/pytorch3d/structures/utils.py
@@ -63,7 +63,8 @@ def list_to_padded(
 
     if pad_size is None:
         pad_dims = [
-            max(y.shape[dim] for y in x if len(y) > 0) for dim in range(x[0].ndim)
+            max((y.shape[dim] for y in x if len(y) > 0), default=x[0].shape[dim])
+            for dim in range(x[0].ndim)
         ]
     else:
         if any(len(pad_size) != y.ndim for y in x):
-- 
2.43.0


From 942b24197ece31041991ec36433315bc5042b8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:20 +0000
Subject: [PATCH 38/41] fix: batches of only empty point clouds keep batch
 size, normals and features

---
 pytorch3d/structures/pointclouds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/structures/pointclouds.py b/pytorch3d/structures/pointclouds.py
index 994e05d..22b92d9 100644
--- a/pytorch3d/structures/pointclouds.py
+++ b/pytorch3d/structures/pointclouds.py
@@ -624,7 +624,7 @@ class Pointclouds:
             return
 
         self._normals_padded, self._features_padded = None, None
-        if self.isempty():
+        if self._N == 0:
             self._points_padded = torch.zeros((self._N, 0, 3), device=self.device)
         else:
             self._points_padded = struct_utils.list_to_padded(
@@ -680,7 +680,7 @@ class Pointclouds:
         points_list = self.points_list()
         normals_list = self.normals_list()
         features_list = self.features_list()
-        if self.isempty():
+        if self._N == 0:
             self._points_packed = torch.zeros(
                 (0, 3), dtype=torch.float32, device=self.device
             )
-- 
2.43.0


From 46fc35cbe5ee8eae6d585e3134c72763f8773dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:20 +0000
Subject: [PATCH 39/41] fix: batches of only empty meshes keep their batch size

---
 pytorch3d/structures/meshes.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pytorch3d/structures/meshes.py b/pytorch3d/structures/meshes.py
index d42d06d..6c5cf79 100644
--- a/pytorch3d/structures/meshes.py
+++ b/pytorch3d/structures/meshes.py
@@ -424,10 +424,10 @@ class Meshes:
 
         if self.isempty():
             self._num_verts_per_mesh = torch.zeros(
-                (0,), dtype=torch.int64, device=self.device
+                (self._N,), dtype=torch.int64, device=self.device
             )
             self._num_faces_per_mesh = torch.zeros(
-                (0,), dtype=torch.int64, device=self.device
+                (self._N,), dtype=torch.int64, device=self.device
             )
 
         # Set the num verts/faces on the textures if present.
@@ -748,6 +748,12 @@ class Meshes:
         if self._verts_padded_to_packed_idx is not None:
             return self._verts_padded_to_packed_idx
 
+        if self.isempty():
+            self._verts_padded_to_packed_idx = torch.zeros(
+                (0,), dtype=torch.int64, device=self.device
+            )
+            return self._verts_padded_to_packed_idx
+
         self._verts_padded_to_packed_idx = torch.cat(
             [
                 torch.arange(v, dtype=torch.int64, device=self.device) + i * self._V
@@ -896,7 +902,7 @@ class Meshes:
 
         if self.isempty():
             self._verts_normals_packed = torch.zeros(
-                (self._N, 3), dtype=torch.int64, device=self.device
+                (0, 3), dtype=torch.float32, device=self.device
             )
         else:
             faces_packed = self.faces_packed()
@@ -995,10 +1001,10 @@ class Meshes:
                 (0,), dtype=torch.int64, device=self.device
             )
             self._mesh_to_verts_packed_first_idx = torch.zeros(
-                (0,), dtype=torch.int64, device=self.device
+                (self._N,), dtype=torch.int64, device=self.device
             )
             self._num_verts_per_mesh = torch.zeros(
-                (0,), dtype=torch.int64, device=self.device
+                (self._N,), dtype=torch.int64, device=self.device
             )
             self._faces_packed = -(
                 torch.ones((0, 3), dtype=torch.int64, device=self.device)
@@ -1007,10 +1013,10 @@ class Meshes:
                 (0,), dtype=torch.int64, device=self.device
             )
             self._mesh_to_faces_packed_first_idx = torch.zeros(
-                (0,), dtype=torch.int64, device=self.device
+                (self._N,), dtype=torch.int64, device=self.device
             )
             self._num_faces_per_mesh = torch.zeros(
-                (0,), dtype=torch.int64, device=self.device
+                (self._N,), dtype=torch.int64, device=self.device
             )
             return
 
@@ -1059,6 +1065,15 @@ class Meshes:
             self._edges_packed_to_mesh_idx = torch.zeros(
                 (0,), dtype=torch.int64, device=self.device
             )
+            self._faces_packed_to_edges_packed = torch.zeros(
+                (0, 3), dtype=torch.int64, device=self.device
+            )
+            self._num_edges_per_mesh = torch.zeros(
+                (self._N,), dtype=torch.int32, device=self.device
+            )
+            self._mesh_to_edges_packed_first_idx = torch.zeros(
+                (self._N,), dtype=torch.int64, device=self.device
+            )
             return
 
         faces = self.faces_packed()
-- 
2.43.0


From 7b86efc02c456c7b92bb489fabde55916332964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 40/41] fix: map ids of padded textures of meshes with
 different numbers of faces

---
 pytorch3d/renderer/mesh/textures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/mesh/textures.py b/pytorch3d/renderer/mesh/textures.py
index 9640b81..8e0dd88 100644
--- a/pytorch3d/renderer/mesh/textures.py
+++ b/pytorch3d/renderer/mesh/textures.py
@@ -1145,8 +1145,9 @@ class TexturesUV(TexturesBase):
             # pyrefly: ignore [bad-return]
             return self._maps_ids_list
         elif self._maps_ids_padded is not None:
-            # pyrefly: ignore [bad-return]
-            return self._maps_ids_padded.unbind(0)
+            return padded_to_list(
+                self._maps_ids_padded, split_size=self._num_faces_per_mesh
+            )
         else:
             return None
 
-- 
2.43.0


From cfbd6b6b5f07edb6f09e958e2a82fa9338a8101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:50 +0000
Subject: [PATCH 41/41] fix: unproject_points(from_ndc=True) ignored
 principal_point and image_size given in the call

---
 pytorch3d/renderer/cameras.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytorch3d/renderer/cameras.py b/pytorch3d/renderer/cameras.py
index 4b83dc9..fefb090 100644
--- a/pytorch3d/renderer/cameras.py
+++ b/pytorch3d/renderer/cameras.py
@@ -1174,7 +1174,7 @@ class PerspectiveCameras(CamerasBase):
             to_camera_transform = self.get_projection_transform(**kwargs)
         if from_ndc:
             to_camera_transform = to_camera_transform.compose(
-                self.get_ndc_camera_transform()
+                self.get_ndc_camera_transform(**kwargs)
             )
 
         unprojection_transform = to_camera_transform.inverse()
@@ -1414,7 +1414,7 @@ class OrthographicCameras(CamerasBase):
             to_camera_transform = self.get_projection_transform(**kwargs)
         if from_ndc:
             to_camera_transform = to_camera_transform.compose(
-                self.get_ndc_camera_transform()
+                self.get_ndc_camera_transform(**kwargs)
             )
 
         unprojection_transform = to_camera_transform.inverse()
-- 
2.43.0

