From 753532ec2db9e629a45fe5ba5b29d2da100ed5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 01/25] fix: inverse_transfom_3d and compose_transforms_3d on
 batches of transforms

---
 gradslam/geometry/geometryutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index f594540..c785f32 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -230,7 +230,7 @@ def inverse_transfom_3d(trans: torch.Tensor):
 
     # Compute the inverse
     rmat_inv: torch.Tensor = torch.transpose(rmat, -1, -2)
-    tvec_inv: torch.Tensor = torch.matmul(-rmat_inv, tvec)
+    tvec_inv: torch.Tensor = torch.matmul(-rmat_inv, tvec.unsqueeze(-1)).squeeze(-1)
 
     # Pack the inverse rotation and translation into tensor
     trans_inv: torch.Tensor = torch.zeros_like(trans)
@@ -290,7 +290,7 @@ def compose_transforms_3d(trans1: torch.Tensor, trans2: torch.Tensor) -> torch.T
 
     # Compute the composition
     rmat_cat: torch.Tensor = torch.matmul(rmat1, rmat2)
-    tvec_cat: torch.Tensor = torch.matmul(rmat1, tvec2) + tvec1
+    tvec_cat: torch.Tensor = torch.matmul(rmat1, tvec2.unsqueeze(-1)).squeeze(-1) + tvec1
 
     # Pack into output tensor
     trans_cat: torch.Tensor = torch.zeros_like(trans1)
-- 
2.43.0


From 2318e690c4202aca19b7334453ea4f2ab3ecdbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 02/25] fix: transform_pts_3d on (N, 3) and (B, N, 3) points
 returned an empty tensor

---
 gradslam/geometry/geometryutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index c785f32..7e3ffaf 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -352,7 +352,7 @@ def transform_pts_3d(pts_b: torch.Tensor, t_ab: torch.Tensor) -> torch.Tensor:
             t_ab.unsqueeze(0).unsqueeze(0), pts_b.unsqueeze(-1)
         ).squeeze(-1)
     else:
-        pts_a_homo = torch.matmul(t_ab.unsqueeze(0), pts_b.unsqueeze(-1))
+        pts_a_homo = torch.matmul(t_ab.unsqueeze(0), pts_b.unsqueeze(-1)).squeeze(-1)
     pts_a = unhomogenize_points(pts_a_homo)
 
     return pts_a[..., :3]
-- 
2.43.0


From 82ce4843d52e8504138400fbeefb428db0915a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 03/25] fix: quaternion_to_rotation_matrix keeps the batch
 dimensions

---
 gradslam/geometry/geometryutils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 7e3ffaf..5c30496 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -195,10 +195,8 @@ def quaternion_to_rotation_matrix(quaternion: torch.Tensor) -> torch.Tensor:
             one - (txx + tyy),
         ],
         dim=-1,
-    ).view(-1, 3, 3)
+    ).view(quaternion.shape[:-1] + (3, 3))
 
-    if len(quaternion.shape) == 1:
-        matrix = torch.squeeze(matrix, dim=0)
     return matrix
 
 
-- 
2.43.0


From fef18dcc1e1bc419dc5af89ba6e2ffc6435ae1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 04/25] fix: pointquaternion_to_homogeneous normalised its
 float32 torch input in place

---
 gradslam/datasets/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/datautils.py b/gradslam/datasets/datautils.py
index 5e2f3f2..9e3e348 100644
--- a/gradslam/datasets/datautils.py
+++ b/gradslam/datasets/datautils.py
@@ -177,7 +177,7 @@ def pointquaternion_to_homogeneous(
         )
 
     q_norm = (0.5 * (q ** 2).sum(-1)[..., None]) ** 0.5
-    q /= (
+    q = q / (
         torch.max(q_norm, torch.tensor(eps))
         if torch.is_tensor(q_norm)
         else np.maximum(q_norm, eps)
-- 
2.43.0


From 89f3d12079dc0a250e8951a95afb2b8311c14616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 05/25] fix: transform44 of a (nearly) zero quaternion raised
 TypeError

---
 gradslam/datasets/tumutils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index 156068e..f4d2de8 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -73,9 +73,10 @@ def transform44(l: tuple):
     if nq < _EPS:
         return np.array(
             (
-                (1.0, 0.0, 0.0, t[0])(0.0, 1.0, 0.0, t[1])(0.0, 0.0, 1.0, t[2])(
-                    0.0, 0.0, 0.0, 1.0
-                )
+                (1.0, 0.0, 0.0, t[0]),
+                (0.0, 1.0, 0.0, t[1]),
+                (0.0, 0.0, 1.0, t[2]),
+                (0.0, 0.0, 0.0, 1.0),
             ),
             dtype=np.float64,
         )
-- 
2.43.0


From 80eb8d5d70ce055de433a5af423e368be8922cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 06/25] fix: assigning list attributes of Pointclouds left
 stale or missing padded attributes

The normals/colors/features list setters reset a misspelt attribute, so the
padded view kept the old values; assigning points_list to a tensor-built cloud
dropped its normals, colors and features on the next padded read; and a
cached has_X stayed False after assigning X.
---
 gradslam/structures/pointclouds.py | 51 ++++++++++++++----------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 0dc49cd..03f671a 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -847,7 +847,8 @@ class Pointclouds(object):
         """
         self._assert_set_list(value)
         self._normals_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._normals_padded = None
+        self._has_normals = None
 
     @colors_list.setter
     def colors_list(self, value: List[torch.Tensor]):
@@ -861,7 +862,8 @@ class Pointclouds(object):
         """
         self._assert_set_list(value)
         self._colors_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._colors_padded = None
+        self._has_colors = None
 
     @features_list.setter
     def features_list(self, value: List[torch.Tensor]):
@@ -875,7 +877,8 @@ class Pointclouds(object):
         """
         self._assert_set_list(value, first_dim_only=True)
         self._features_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._features_padded = None
+        self._has_features = None
 
     @points_padded.setter
     def points_padded(self, value: torch.Tensor):
@@ -910,6 +913,7 @@ class Pointclouds(object):
         self._assert_set_padded(value)
         self._normals_padded = value.clone().to(self.device)
         self._normals_list = None
+        self._has_normals = None
 
     @colors_padded.setter
     def colors_padded(self, value: torch.Tensor):
@@ -927,6 +931,7 @@ class Pointclouds(object):
         self._assert_set_padded(value)
         self._colors_padded = value.clone().to(self.device)
         self._colors_list = None
+        self._has_colors = None
 
     @features_padded.setter
     def features_padded(self, value: torch.Tensor):
@@ -944,6 +949,7 @@ class Pointclouds(object):
         self._assert_set_padded(value, first_2_dims_only=True)
         self._features_padded = value.clone().to(self.device)
         self._features_list = None
+        self._has_features = None
 
     def _compute_padded(self, refresh: bool = False):
         r"""Computes the padded version of pointclouds.
@@ -954,45 +960,36 @@ class Pointclouds(object):
         if not self.has_points:
             return
 
-        if not (refresh or self._points_padded is None):
-            return
-
-        self._points_padded = structutils.list_to_padded(
-            self._points_list,
-            (self._N, 3),
-            pad_value=0.0,
-            equisized=self.equisized,
-        )
-        self._normals_padded = (
-            None
-            if self._normals_list is None
-            else structutils.list_to_padded(
+        if self._points_list is not None and (refresh or self._points_padded is None):
+            self._points_padded = structutils.list_to_padded(
+                self._points_list,
+                (self._N, 3),
+                pad_value=0.0,
+                equisized=self.equisized,
+            )
+        if self._normals_list is not None and (refresh or self._normals_padded is None):
+            self._normals_padded = structutils.list_to_padded(
                 self._normals_list,
                 (self._N, 3),
                 pad_value=0.0,
                 equisized=self.equisized,
             )
-        )
-        self._colors_padded = (
-            None
-            if self._colors_list is None
-            else structutils.list_to_padded(
+        if self._colors_list is not None and (refresh or self._colors_padded is None):
+            self._colors_padded = structutils.list_to_padded(
                 self._colors_list,
                 (self._N, 3),
                 pad_value=0.0,
                 equisized=self.equisized,
             )
-        )
-        self._features_padded = (
-            None
-            if self._features_list is None
-            else structutils.list_to_padded(
+        if self._features_list is not None and (
+            refresh or self._features_padded is None
+        ):
+            self._features_padded = structutils.list_to_padded(
                 self._features_list,
                 (self._N, self.num_features),
                 pad_value=0.0,
                 equisized=self.equisized,
             )
-        )
 
     def clone(self):
         r"""Returns deep copy of Pointclouds object. All internal tensors are cloned individually.
-- 
2.43.0


From 5fa60ee55a523c1b3b78b2f13d0f6f781743aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:55 +0000
Subject: [PATCH 07/25] fix: Pointclouds.clone lost attributes held in the
 other form and forgot equisized

A clone of a cloud whose points were padded only and whose number of points
differs per cloud computed a wrong nonpad_mask and padded lists with
torch.stack; attributes held only as a list were dropped.
---
 gradslam/structures/pointclouds.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 03f671a..2a6fec8 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1003,29 +1003,29 @@ class Pointclouds(object):
             new_points = [p.clone() for p in self.points_list]
             new_normals = (
                 None
-                if self._normals_list is None
-                else [n.clone() for n in self._normals_list]
+                if self.normals_list is None
+                else [n.clone() for n in self.normals_list]
             )
             new_colors = (
                 None
-                if self._colors_list is None
-                else [c.clone() for c in self._colors_list]
+                if self.colors_list is None
+                else [c.clone() for c in self.colors_list]
             )
             new_features = (
                 None
-                if self._features_list is None
-                else [f.clone() for f in self._features_list]
+                if self.features_list is None
+                else [f.clone() for f in self.features_list]
             )
         elif self._points_padded is not None:
             new_points = self._points_padded.clone()
             new_normals = (
-                None if self._normals_padded is None else self._normals_padded.clone()
+                None if self.normals_padded is None else self.normals_padded.clone()
             )
             new_colors = (
-                None if self._colors_padded is None else self._colors_padded.clone()
+                None if self.colors_padded is None else self.colors_padded.clone()
             )
             new_features = (
-                None if self._features_padded is None else self._features_padded.clone()
+                None if self.features_padded is None else self.features_padded.clone()
             )
 
         other = Pointclouds(
@@ -1038,6 +1038,7 @@ class Pointclouds(object):
             v = getattr(self, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.clone())
+        other.equisized = self.equisized
         return other
 
     def detach(self):
-- 
2.43.0


From 67968da43698d245b8a5929e0939dc73dad6a1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:55 +0000
Subject: [PATCH 08/25] fix: Pointclouds.detach and .to shared the original's
 internal tensors

Both cloned the object and then replaced the cloned padded tensors by views of
the original's.
---
 gradslam/structures/pointclouds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 2a6fec8..68af29d 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1057,7 +1057,7 @@ class Pointclouds(object):
         if other._features_list is not None:
             other._features_list = [f.detach() for f in other._features_list]
         for k in self._INTERNAL_TENSORS:
-            v = getattr(self, k)
+            v = getattr(other, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.detach())
         return other
@@ -1091,7 +1091,7 @@ class Pointclouds(object):
             if other._features_list is not None:
                 other._features_list = [f.to(device) for f in other._features_list]
             for k in self._INTERNAL_TENSORS:
-                v = getattr(self, k)
+                v = getattr(other, k)
                 if torch.is_tensor(v):
                     setattr(other, k, v.to(device))
         return other
-- 
2.43.0


From 0cd4d9ae8c49f8763202fcb21d9f6ee8b3b72fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:38 +0000
Subject: [PATCH 09/25] fix: assigning RGBDImages.depth_image raised
 AttributeError and kept the old valid-depth mask

---
 gradslam/structures/rgbdimages.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 4ab0011..3c4d44f 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -118,7 +118,7 @@ class RGBDImages(object):
             raise ValueError(msg)
 
         self._rgb_image_shape = rgb_image.shape
-        self._depth_shape = tuple(
+        self._depth_image_shape = tuple(
             v if i != self.cdim else 1 for i, v in enumerate(rgb_image.shape)
         )
         self._intrinsics_shape = (rgb_image.shape[0], 1, 4, 4)
@@ -133,9 +133,9 @@ class RGBDImages(object):
         if rgb_image.shape[self.cdim] != 3:
             msg = "Expected rgb_image to have 3 channels on dimension {0}. Got {1} instead"
             raise ValueError(msg.format(self.cdim, rgb_image.shape[self.cdim]))
-        if depth_image.shape != self._depth_shape:
+        if depth_image.shape != self._depth_image_shape:
             msg = "Expected depth_image to have shape {0}. Got {1} instead"
-            raise ValueError(msg.format(self._depth_shape, depth_image.shape))
+            raise ValueError(msg.format(self._depth_image_shape, depth_image.shape))
         if intrinsics.shape != self._intrinsics_shape:
             msg = "Expected intrinsics to have shape {0}. Got {1} instead"
             raise ValueError(msg.format(self._intrinsics_shape, intrinsics.shape))
@@ -423,6 +423,7 @@ class RGBDImages(object):
         if value is not None:
             self._assert_shape(value, self._depth_image_shape)
         self._depth_image = value
+        self._valid_depth_mask = None
         self._vertex_map = None
         self._normal_map = None
         self._global_vertex_map = None
-- 
2.43.0


From 15f40072cf86a3669e784c4f22c818ab172b1e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:38 +0000
Subject: [PATCH 10/25] fix: converting the channel layout of RGBDImages kept
 the valid-depth mask in the old layout

---
 gradslam/structures/rgbdimages.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 3c4d44f..28736ce 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -589,6 +589,7 @@ class RGBDImages(object):
         self._global_vertex_map = permute(self._global_vertex_map, ordering)
         self._normal_map = permute(self._normal_map, ordering)
         self._global_normal_map = permute(self._global_normal_map, ordering)
+        self._valid_depth_mask = permute(self._valid_depth_mask, ordering)
 
         self._channels_first = False
         self._rgb_image_shape = tuple(self._rgb_image.shape)
@@ -611,6 +612,7 @@ class RGBDImages(object):
         self._global_vertex_map = permute(self._global_vertex_map, ordering)
         self._normal_map = permute(self._normal_map, ordering)
         self._global_normal_map = permute(self._global_normal_map, ordering)
+        self._valid_depth_mask = permute(self._valid_depth_mask, ordering)
 
         self._channels_first = True
         self._rgb_image_shape = tuple(self._rgb_image.shape)
-- 
2.43.0


From f36074f43eeada4a35371173da87540d54eef129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:38 +0000
Subject: [PATCH 11/25] fix: RGBDImages.detach and .to(copy=True) shared the
 original's tensors

---
 gradslam/structures/rgbdimages.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 28736ce..adb2814 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -471,7 +471,7 @@ class RGBDImages(object):
         """
         other = self.clone()
         for k in self._INTERNAL_TENSORS:
-            v = getattr(self, k)
+            v = getattr(other, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.detach())
 
@@ -519,7 +519,7 @@ class RGBDImages(object):
         other.device = device
 
         for k in self._INTERNAL_TENSORS:
-            v = getattr(self, k)
+            v = getattr(other, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.to(device))
 
-- 
2.43.0


From 15ec041ed41dff9a35de1115dedc8b1788ee76bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 12/25] fix: ICP without an initial transform raised
 AttributeError

---
 gradslam/odometry/icputils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index b7ecc42..738cfd2 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -295,13 +295,15 @@ def point_to_plane_ICP(
         raise TypeError(
             "Expected numiters to be of type int. Got {0}.".format(type(numiters))
         )
-    if initial_transform.ndim != 2:
+    if initial_transform is not None and initial_transform.ndim != 2:
         raise ValueError(
             "Expected initial_transform.ndim to be 2. Got {0}.".format(
                 initial_transform.ndim
             )
         )
-    if not (initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4):
+    if initial_transform is not None and not (
+        initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4
+    ):
         raise ValueError(
             "Expected initial_transform.shape to be (4, 4). Got {0}.".format(
                 initial_transform.shape
@@ -464,13 +466,15 @@ def point_to_plane_gradICP(
         raise TypeError(
             "Expected nu to be of type float or int; got {0}".format(type(nu))
         )
-    if initial_transform.ndim != 2:
+    if initial_transform is not None and initial_transform.ndim != 2:
         raise ValueError(
             "Expected initial_transform.ndim to be 2. Got {0}.".format(
                 initial_transform.ndim
             )
         )
-    if not (initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4):
+    if initial_transform is not None and not (
+        initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4
+    ):
         raise ValueError(
             "Expected initial_transform.shape to be (4, 4). Got {0}.".format(
                 initial_transform.shape
-- 
2.43.0


From fc94762ef715642cefbb65b95a9bc8a819f79b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:09 +0000
Subject: [PATCH 13/25] fix: dist_thresh of ICP was compared with squared
 distances

---
 gradslam/odometry/icputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 738cfd2..bb80948 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -203,7 +203,7 @@ def gauss_newton_solve(
     dist_filter = (
         torch.ones_like(dist1[0], dtype=torch.bool)
         if dist_thresh is None
-        else dist1[0] < dist_thresh
+        else dist1[0].sqrt() < dist_thresh
     )
     chamfer_indices = idx1[0][dist_filter].long()
 
-- 
2.43.0


From ae572c38a3b9e882e453eed4d3a475037bab6633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:32 +0000
Subject: [PATCH 14/25] fix: active map points had wrong indices beyond 2**24
 points per map

The (batch, point) index grid was made in float32, which cannot hold integers above 2**24.
---
 gradslam/slam/fusionutils.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index b5d89a2..046b512 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -4,7 +4,6 @@ from typing import Union
 import torch
 from kornia.geometry.linalg import inverse_transformation
 
-from ..geometry.geometryutils import create_meshgrid
 from ..structures.pointclouds import Pointclouds
 from ..structures.rgbdimages import RGBDImages
 from ..structures.utils import pointclouds_from_rgbdimages
@@ -273,12 +272,17 @@ def find_active_map_points(
         -1,
     )  # height, width
     batch_size, num_points = in_plane_pos.shape[:2]
-    batch_point_idx = (
-        create_meshgrid(batch_size, num_points, normalized_coords=False)
-        .squeeze(0)
-        .to(device)
+    # integer grid: float32 would corrupt point indices above 2 ** 24
+    batch_idx = torch.arange(batch_size, device=device).view(-1, 1, 1)
+    point_idx = torch.arange(num_points, device=device).view(1, -1, 1)
+    idx_and_plane_pos = torch.cat(
+        [
+            batch_idx.expand(-1, num_points, -1),
+            point_idx.expand(batch_size, -1, -1),
+            in_plane_pos,
+        ],
+        -1,
     )
-    idx_and_plane_pos = torch.cat([batch_point_idx.long(), in_plane_pos], -1)
     pc2im_bnhw = idx_and_plane_pos[is_in_frame]  # (?, 4)
 
     if pc2im_bnhw.shape[0] == 0:
-- 
2.43.0


From 4f0d4b7c6e06fe551015534b7590774bff0dea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:34 +0000
Subject: [PATCH 15/25] fix: best correspondences had wrong point indices
 beyond 2**24 points per map

The criteria, which carry the point index, were made in float32.
---
 gradslam/slam/fusionutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 046b512..31fdc4a 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -510,13 +510,13 @@ def find_best_unique_correspondences(
         .sum(-1)
         .unsqueeze(1)
     )
-    # unique criteria: [B, H, W, 1/ccounts, ray_dists, N]
+    # unique criteria: [B, H, W, 1/ccounts, ray_dists, N] (double: float cannot hold indices above 2 ** 24)
     unique_criteria_bhwcrn = [
-        pc2im_bnhw[:, 0:1].float(),
-        pc2im_bnhw[:, 2:4].float(),
+        pc2im_bnhw[:, 0:1].double(),
+        pc2im_bnhw[:, 2:4].double(),
         inv_ccounts,
         ray_dists,
-        pc2im_bnhw[:, 1:2].float(),
+        pc2im_bnhw[:, 1:2].double(),
     ]
     unique_criteria_bhwcrn = torch.cat(unique_criteria_bhwcrn, -1)
 
-- 
2.43.0


From f46831b5d4a4cdd3cd777cb50f84a75f4aa4c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:54 +0000
Subject: [PATCH 16/25] fix: map fusion with inplace=False modified the input
 map

The map was cloned only after its points had been replaced by the fused ones.
---
 gradslam/slam/fusionutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 31fdc4a..3adf82c 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -654,6 +654,9 @@ def fuse_with_map(
                 "Pointclouds must have features (ccounts) for map fusion, but did not."
             )
 
+    if not inplace:
+        pointclouds = pointclouds.clone()
+
     # Fuse points (from live frame) with corresponding global map points
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
@@ -719,8 +722,6 @@ def fuse_with_map(
     new_pointclouds = Pointclouds(
         points=new_points, normals=new_normals, colors=new_colors, features=new_features
     )
-    if not inplace:
-        pointclouds = pointclouds.clone()
     pointclouds.append_points(new_pointclouds)
 
     return pointclouds
-- 
2.43.0


From 1e7d2a358ce2766e31f78ff6a68d0f10cb41449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:25 +0000
Subject: [PATCH 17/25] fix: map fusion moved unmatched points of zero
 confidence to the origin

---
 gradslam/slam/fusionutils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 3adf82c..1814868 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -700,9 +700,17 @@ def fuse_with_map(
         inv_updated_ccounts = 1 / torch.where(
             updated_ccounts == 0, torch.ones_like(updated_ccounts), updated_ccounts
         )
-        pointclouds.points_padded = updated_points * inv_updated_ccounts
-        pointclouds.normals_padded = updated_normals * inv_updated_ccounts
-        pointclouds.colors_padded = updated_colors * inv_updated_ccounts
+        # points without any confidence (old or new) have no average and keep their values
+        unweighted = updated_ccounts == 0
+        pointclouds.points_padded = torch.where(
+            unweighted, pointclouds.points_padded, updated_points * inv_updated_ccounts
+        )
+        pointclouds.normals_padded = torch.where(
+            unweighted, pointclouds.normals_padded, updated_normals * inv_updated_ccounts
+        )
+        pointclouds.colors_padded = torch.where(
+            unweighted, pointclouds.colors_padded, updated_colors * inv_updated_ccounts
+        )
         pointclouds.features_padded = updated_ccounts
 
     # Append points (from live frame) that did not have correspondences (from global map)
-- 
2.43.0


From 149f6cfc501c97fcbf285a6d36cec85b264346c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:28 +0000
Subject: [PATCH 18/25] fix: merging changed frozen configurations

---
 gradslam/config/cfgnode.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index 661eda1..fe5d782 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -233,6 +233,7 @@ class CfgNode(dict):
             _assert_with_logging(subkey in d, "Non-existent key: {}".format(full_key))
             value = self._decode_cfg_value(v)
             value = _check_and_coerce_cfg_value_type(value, d[subkey], subkey, full_key)
+            _check_mutable(d, subkey, value)
             d[subkey] = value
 
     def freeze(self):
@@ -424,6 +425,13 @@ def _valid_type(value, allow_cfg_node: Optional[bool] = False):
     )
 
 
+def _check_mutable(cfg_node: CfgNode, name: str, value):
+    if cfg_node.is_frozen():
+        raise AttributeError(
+            "Attempted to set {} to {}, but CfgNode is immutable".format(name, value)
+        )
+
+
 def _merge_a_into_b(a: CfgNode, b: CfgNode, root: CfgNode, key_list: list):
     r"""Merge `CfgNode` `a` into `CfgNode` `b`, clobbering the options in `b` wherever they are also specified in `a`."""
     _assert_with_logging(
@@ -449,8 +457,10 @@ def _merge_a_into_b(a: CfgNode, b: CfgNode, root: CfgNode, key_list: list):
                 except BaseException:
                     raise
             else:
+                _check_mutable(b, k, v)
                 b[k] = v
         elif b.is_new_allowed():
+            _check_mutable(b, k, v)
             b[k] = v
         else:
             if root.key_is_deprecated(full_key):
-- 
2.43.0


From bea24d3159d9d3983bb6129352ca2038e0a11249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:28 +0000
Subject: [PATCH 19/25] fix: merge_from_list stored the override list's own
 mutable values

---
 gradslam/config/cfgnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index fe5d782..6cfeb83 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -231,7 +231,7 @@ class CfgNode(dict):
                 d = d[subkey]
             subkey = key_list[-1]
             _assert_with_logging(subkey in d, "Non-existent key: {}".format(full_key))
-            value = self._decode_cfg_value(v)
+            value = self._decode_cfg_value(copy.deepcopy(v))
             value = _check_and_coerce_cfg_value_type(value, d[subkey], subkey, full_key)
             _check_mutable(d, subkey, value)
             d[subkey] = value
-- 
2.43.0


From 298f4cef2182eeaf4b4ad0b1cdcc119dd9b4f7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:28 +0000
Subject: [PATCH 20/25] fix: merging a configuration took over deprecated and
 renamed keys that exist or are allowed as new keys

---
 gradslam/config/cfgnode.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index 6cfeb83..f686efd 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -445,6 +445,10 @@ def _merge_a_into_b(a: CfgNode, b: CfgNode, root: CfgNode, key_list: list):
 
     for k, v_ in a.items():
         full_key = ".".join(key_list + [k])
+        if root.key_is_deprecated(full_key):
+            continue
+        if root.key_is_renamed(full_key):
+            root.raise_key_rename_error(full_key)
         v = copy.deepcopy(v_)
         v = b._decode_cfg_value(v)
 
@@ -463,12 +467,7 @@ def _merge_a_into_b(a: CfgNode, b: CfgNode, root: CfgNode, key_list: list):
             _check_mutable(b, k, v)
             b[k] = v
         else:
-            if root.key_is_deprecated(full_key):
-                continue
-            elif root.key_is_renamed(full_key):
-                root.raise_key_rename_error(full_key)
-            else:
-                raise KeyError("Non-existent config key: {}".format(full_key))
+            raise KeyError("Non-existent config key: {}".format(full_key))
 
 
 def _check_and_coerce_cfg_value_type(replacement, original, key, full_key):
-- 
2.43.0


From 06dabf8a211f143621f9a69d75ab98a9e0631b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:28 +0000
Subject: [PATCH 21/25] fix: ICL poses were read from the trajectory's
 beginning instead of from frame start

---
 gradslam/datasets/icl.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index a1f5e1c..41bd6cc 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -335,17 +335,18 @@ class ICL(data.Dataset):
                 )
 
                 if self.load_poses:
-                    if line_num * 4 > len_posesfile:
+                    pose_num = start + line_num
+                    if pose_num * 4 > len_posesfile:
                         msg = '{0}th pose should start from line {1} of file "{2}", but said file has only {3} lines.'
                         raise ValueError(
                             msg.format(
-                                line_num,
-                                line_num * 4,
+                                pose_num,
+                                pose_num * 4,
                                 os.path.join(*posesfile.split(os.sep)[-2:]),
                                 len_posesfile,
                             )
                         )
-                    traj_poselinenums.append(line_num * 4)
+                    traj_poselinenums.append(pose_num * 4)
 
                 traj_framenames.append(
                     os.path.join(trajectory_name, line[1][6:].split(".")[0])
-- 
2.43.0


From 7ea5a8c779bcfa3ca7a8f944632baf7e93c268a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:28 +0000
Subject: [PATCH 22/25] fix: ScanNet scenes of different lengths were cut to,
 or indexed beyond, the last scene's length

---
 gradslam/datasets/scannet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gradslam/datasets/scannet.py b/gradslam/datasets/scannet.py
index 9871eb6..ffd3b73 100644
--- a/gradslam/datasets/scannet.py
+++ b/gradslam/datasets/scannet.py
@@ -144,9 +144,9 @@ class Scannet(data.Dataset):
                 if full_sequence:
                     self.end = len(lines)
                     self.seqlen = self.end - self.start
-                if self.seqlen > len(lines):
+                if self.end > len(lines):
                     msg = "sequence length can't be larger than dataset sequence length but it was: %r > %r"
-                    raise ValueError(msg % (self.seqlen, len(lines)))
+                    raise ValueError(msg % (self.end, len(lines)))
                 lines = lines[self.start : self.end]
 
             for line in lines:
@@ -228,7 +228,7 @@ class Scannet(data.Dataset):
 
         color_seq, depth_seq, pose_seq, label_seq = [], [], [], []
         poses = []
-        for i in range(self.seqlen):
+        for i in range(len(color_seq_path)):
             color = np.asarray(imageio.imread(color_seq_path[i]), dtype=float)
             color = self._preprocess_color(color)
             color = torch.from_numpy(color)
-- 
2.43.0


From adb3790d59d87be07c430f78e64bb43d25681796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:28 +0000
Subject: [PATCH 23/25] fix: timestamp association sorted matches as strings,
 not by time

---
 gradslam/datasets/tumutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index f4d2de8..1aa9c08 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -213,5 +213,5 @@ def associate(
             second_keys.remove(b)
             matches.append((a, b))
 
-    matches.sort()
+    matches.sort(key=lambda match: float(match[0]))
     return matches
-- 
2.43.0


From 5e4aa6ca60c2cd37801dff5ea67cf428a38e3ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:28 +0000
Subject: [PATCH 24/25] fix: reading a trajectory with NaN entries raised
 NameError

---
 gradslam/datasets/tumutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index 1aa9c08..15f70e7 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -45,6 +45,8 @@ and joining them by finding the best matches.
 """
 from typing import Optional
 
+import sys
+
 import numpy as np
 import warnings
 
-- 
2.43.0


From 9fa8d3e04bb05e7cd667fc48348a4aac9bc8e2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:28 +0000
Subject: [PATCH 25/25] fix: create_label_image raised on the documented
 OrderedDict palette

---
 gradslam/datasets/datautils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gradslam/datasets/datautils.py b/gradslam/datasets/datautils.py
index 9e3e348..5452718 100644
--- a/gradslam/datasets/datautils.py
+++ b/gradslam/datasets/datautils.py
@@ -258,6 +258,7 @@ def create_label_image(prediction: np.ndarray, color_palette: OrderedDict):
     label_image = np.zeros(
         (prediction.shape[0], prediction.shape[1], 3), dtype=np.uint8
     )
-    for idx, color in enumerate(color_palette):
+    colors = color_palette.values() if isinstance(color_palette, dict) else color_palette
+    for idx, color in enumerate(colors):
         label_image[prediction == idx] = color
     return label_image
-- 
2.43.0

