From 2e9aeaf635be0eab809e8b4b3dec61364b3dc17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 01/17] fix: accept 1-D batch_id in Points (Octree.to_points
 always raised)

---
 ocnn/octree/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index a23d061..ff54be8 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -63,9 +63,9 @@ class Points:
     if self.batch_id is not None:
       assert self.batch_id.dim() == 2 or self.batch_id.dim() == 1
       assert self.batch_id.size(0) == self.points.size(0)
-      assert self.batch_id.size(1) == 1
       if self.batch_id.dim() == 1:
         self.batch_id = self.batch_id.unsqueeze(1)
+      assert self.batch_id.size(1) == 1
 
   @property
   def npt(self):
-- 
2.43.0


From 14da3810af96d764f412f0bec71409ff7adeeab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 02/17] fix: accept an int batch index in xyz2key as documented

---
 ocnn/octree/shuffled_key.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/shuffled_key.py b/ocnn/octree/shuffled_key.py
index 449d882..5685282 100644
--- a/ocnn/octree/shuffled_key.py
+++ b/ocnn/octree/shuffled_key.py
@@ -84,7 +84,8 @@ def xyz2key(x: torch.Tensor, y: torch.Tensor, z: torch.Tensor,
     key = key16 << 24 | key
 
   if b is not None:
-    b = b.long()
+    if isinstance(b, torch.Tensor):
+      b = b.long()
     key = b << 48 | key
 
   return key
-- 
2.43.0


From 6c3f4e2530807e7b2195feb40235674ea690b4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 03/17] fix: keep points at +1 in the last voxel when building
 octrees

---
 ocnn/octree/octree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/octree.py b/ocnn/octree/octree.py
index 6801adb..6a1d312 100644
--- a/ocnn/octree/octree.py
+++ b/ocnn/octree/octree.py
@@ -162,7 +162,9 @@ class Octree:
     points = (point_cloud.points + 1.0) * scale
 
     # get the shuffled key and sort
-    x, y, z = points[:, 0], points[:, 1], points[:, 2]
+    # points on the upper boundary (+1) belong to the last voxel; otherwise,
+    # their coordinates overflow in xyz2key and wrap around to the voxel 0
+    x, y, z = points.clamp(max=2 ** self.depth - 1).unbind(dim=1)
     b = None if self.batch_size == 1 else point_cloud.batch_id.view(-1)
     key = xyz2key(x, y, z, b, self.depth)
     node_key, idx, counts = torch.unique(
-- 
2.43.0


From c6a59d61f9cc001d6535fb81969ab4a3c1899865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 04/17] fix: keep batch_size when moving Points to another
 device

---
 ocnn/octree/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index ff54be8..e51293c 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -239,7 +239,8 @@ class Points:
       return self
 
     # Construct a new Points on the specified device
-    points = Points(torch.zeros(1, 3, device=device))
+    points = Points(torch.zeros(1, 3, device=device),
+                    batch_size=self.batch_size)
     points.batch_npt = self.batch_npt
     points.points = self.points.to(device, non_blocking=non_blocking)
     if self.normals is not None:
-- 
2.43.0


From 4cda027a7cff61836887079421471add53e96025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 05/17] fix: OctreeResBlock2 with stride 2 raised
 AttributeError

---
 ocnn/modules/resblocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/modules/resblocks.py b/ocnn/modules/resblocks.py
index df6a994..49075a1 100644
--- a/ocnn/modules/resblocks.py
+++ b/ocnn/modules/resblocks.py
@@ -76,7 +76,7 @@ class OctreeResBlock2(torch.nn.Module):
     channelb = int(out_channels / bottleneck)
 
     if self.stride == 2:
-      self.maxpool = OctreeMaxPool(self.depth)
+      self.maxpool = OctreeMaxPool(nempty)
     self.conv3x3a = OctreeConvBnRelu(in_channels, channelb, nempty=nempty)
     self.conv3x3b = OctreeConvBn(channelb, out_channels, nempty=nempty)
     if self.in_channels != self.out_channels:
-- 
2.43.0


From 73bc513cca38d688941ef1d7b0d8f0b3bd113744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 06/17] fix: pass nempty to the bottleneck convolution of
 SegNet

---
 ocnn/models/segnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/models/segnet.py b/ocnn/models/segnet.py
index cedcc90..e6fe642 100644
--- a/ocnn/models/segnet.py
+++ b/ocnn/models/segnet.py
@@ -31,7 +31,8 @@ class SegNet(torch.nn.Module):
     self.pools = torch.nn.ModuleList(
         [ocnn.nn.OctreeMaxPool(nempty, return_indices) for i in range(stages)])
 
-    self.bottleneck = ocnn.modules.OctreeConvBnRelu(channels[-1], channels[-1])
+    self.bottleneck = ocnn.modules.OctreeConvBnRelu(
+        channels[-1], channels[-1], nempty=nempty)
 
     channels = channels_stages[::-1] + [channels_stages[0]]
     self.deconvs = torch.nn.ModuleList(
-- 
2.43.0


From 2c6b6eb3ebc904304514d64cbf5f2b56d47ce782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 07/17] fix: pad the output of octree_avg_pool with stride 2

---
 ocnn/nn/octree_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocnn/nn/octree_pool.py b/ocnn/nn/octree_pool.py
index c4c6f75..f5f472f 100644
--- a/ocnn/nn/octree_pool.py
+++ b/ocnn/nn/octree_pool.py
@@ -98,6 +98,8 @@ def octree_avg_pool(data: torch.Tensor, octree: Octree, depth: int,
 
   mat = torch.sparse_coo_tensor(indices, val, [N2, N1], device=data.device)
   out = torch.sparse.mm(mat, data)
+  if stride == 2 and not nempty:
+    out = octree_pad(out, octree, depth-1)
   return out
 
 
-- 
2.43.0


From 4061aeda0c564f1b772e340ce107883e89dda43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 08/17] fix: OctreeInterp modified the query points of the
 caller in place

---
 ocnn/nn/octree_interp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index afdfafa..7f76feb 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -121,7 +121,8 @@ class OctreeInterp(torch.nn.Module):
     # rescale points from [-1, 1] to [0, 2^depth]
     if self.rescale_pts:
       scale = 2 ** (depth - 1)
-      pts[:, :3] = (pts[:, :3] + 1.0) * scale
+      xyz = (pts[:, :3] + 1.0) * scale   # do not modify the input `pts`
+      pts = torch.cat([xyz, pts[:, 3:]], dim=1)
 
     return self.func(data, octree, depth, pts, self.nempty, self.bound_check)
 
-- 
2.43.0


From 113e5285f1d02b8338fea3666381c909f8770bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 09/17] fix: OctreeUpsample leaked features across the opposite
 boundaries

---
 ocnn/nn/octree_interp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index 7f76feb..ebdd997 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -188,7 +188,9 @@ class OctreeUpsample(torch.nn.Module):
     xyzb = octree.xyzb(target_depth, self.nempty)
     pts = torch.stack(xyzb, dim=1).float()
     pts[:, :3] = (pts[:, :3] + 0.5) * (2**(depth - target_depth))  # !!! rescale
-    return self.func(data, octree, depth, pts, self.nempty)
+    # bound_check: otherwise, the out-of-bound neighbors on the boundary wrap
+    # around to the opposite side of the volume
+    return self.func(data, octree, depth, pts, self.nempty, bound_check=True)
 
   def extra_repr(self) -> str:
     r''' Sets the extra representation of the module.
-- 
2.43.0


From 3bbbe7e7cc3c12f5bfb0dc2eb59ae360a5727647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 10/17] fix: search_value keeps the dtype of the input values

---
 ocnn/nn/octree_align.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_align.py b/ocnn/nn/octree_align.py
index ec3bc74..5e7ad8b 100644
--- a/ocnn/nn/octree_align.py
+++ b/ocnn/nn/octree_align.py
@@ -30,7 +30,8 @@ def search_value(value: torch.Tensor, key: torch.Tensor, query: torch.Tensor):
   found = key[idx] == query
 
   # assign the found value to the output
-  out = torch.zeros(query.shape[0], value.shape[1], device=value.device)
+  out = torch.zeros(query.shape[0], value.shape[1], dtype=value.dtype,
+                    device=value.device)
   out[found] = value[idx[found]]
   return out
 
-- 
2.43.0


From 945068dd94af15d8fffe5a316bb782d63608e45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 11/17] fix: Points.flip and orient_normal modified the input
 tensors in place

---
 ocnn/octree/points.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index e51293c..0b9ee0d 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -89,7 +89,7 @@ class Points:
       flags = flags.float() * 2.0 - 1.0  # [0, 1] -> [-1, 1]
       self.normals = self.normals * flags.unsqueeze(1)
     else:
-      self.normals.abs_()
+      self.normals = self.normals.abs()
 
   def scale(self, factor: torch.Tensor):
     r''' Rescales the point cloud.
@@ -149,6 +149,10 @@ class Points:
     '''
 
     axis_map = {'x': 0, 'y': 1, 'z': 2}
+    # clone to avoid modifying the tensors of the caller
+    self.points = self.points.clone()
+    if self.normals is not None:
+      self.normals = self.normals.clone()
     for x in axis:
       idx = axis_map[x]
       self.points[:, idx] *= -1.0
-- 
2.43.0


From 03154ab3ba0b3ca03bcbf1ebbb0849742147cc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 12/17] fix: Transform.preprocess consumed the input sample

---
 ocnn/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocnn/dataset.py b/ocnn/dataset.py
index 55c615b..0d8bac7 100644
--- a/ocnn/dataset.py
+++ b/ocnn/dataset.py
@@ -69,6 +69,7 @@ class Transform:
     transformations, like normalization.
     '''
 
+    sample = dict(sample)   # do not modify the input sample
     xyz = torch.from_numpy(sample.pop('points'))
     normals = torch.from_numpy(sample.pop('normals'))
     sample['points'] = Points(xyz, normals)
-- 
2.43.0


From 77362ca0de9834650a9071b661c3ae2fc17cca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 13/17] fix: OUNet could not be constructed nor run

---
 ocnn/models/autoencoder.py | 9 +++++++--
 ocnn/models/ounet.py       | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/ocnn/models/autoencoder.py b/ocnn/models/autoencoder.py
index 82be70e..496e98d 100644
--- a/ocnn/models/autoencoder.py
+++ b/ocnn/models/autoencoder.py
@@ -23,10 +23,13 @@ class AutoEncoder(torch.nn.Module):
     full_depth (int): The full depth of the octree.
     feature (str): The feature type of the input signal. For details of this
         argument, please refer to :class:`ocnn.modules.InputFeature`.
+    code_channel (int): The channel of the shape code. If it is not positive,
+        the channel of the encoder features is kept.
   '''
 
   def __init__(self, channel_in: int, channel_out: int, depth: int,
-               full_depth: int = 2, feature: str = 'ND'):
+               full_depth: int = 2, feature: str = 'ND',
+               code_channel: int = 64):
     super().__init__()
     self.channel_in = channel_in
     self.channel_out = channel_out
@@ -34,8 +37,10 @@ class AutoEncoder(torch.nn.Module):
     self.full_depth = full_depth
     self.feature = feature
     self.resblk_num = 2
-    self.code_channel = 64  # dim-of-code = code_channel * 2**(3*full_depth)
     self.channels = [512, 512, 256, 256, 128, 128, 32, 32, 16, 16]
+    # dim-of-code = code_channel * 2**(3*full_depth)
+    self.code_channel = (
+        code_channel if code_channel > 0 else self.channels[full_depth])
 
     # encoder
     self.conv1 = ocnn.modules.OctreeConvBnRelu(
diff --git a/ocnn/models/ounet.py b/ocnn/models/ounet.py
index 0dd81aa..621a850 100644
--- a/ocnn/models/ounet.py
+++ b/ocnn/models/ounet.py
@@ -28,7 +28,7 @@ class OUNet(AutoEncoder):
 
     convs = dict()
     depth, full_depth = self.depth, self.full_depth
-    data = self.get_input_feature(octree)
+    data = octree.get_input_feature(self.feature, nempty=False)
     convs[depth] = self.conv1(data, octree, depth)
     for i, d in enumerate(range(depth, full_depth-1, -1)):
       convs[d] = self.encoder_blks[i](convs[d], octree, d)
-- 
2.43.0


From edf08aec01a36c331b0ff83267f85aa47420d63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:25 +0000
Subject: [PATCH 14/17] fix: construct_all_neigh failed with full_depth 0

---
 ocnn/octree/octree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/octree.py b/ocnn/octree/octree.py
index 6a1d312..b1d41b3 100644
--- a/ocnn/octree/octree.py
+++ b/ocnn/octree/octree.py
@@ -351,7 +351,8 @@ class Octree:
     r''' A convenient handler for constructing all neighbors.
     '''
 
-    for depth in range(1, self.depth+1):
+    # layers above full_depth are derived from their parent layer
+    for depth in range(min(self.full_depth, 1), self.depth+1):
       self.construct_neigh(depth)
 
   def search_xyzb(self, query: torch.Tensor, depth: int, nempty: bool = False):
-- 
2.43.0


From 7d570945e633b36fce8ecfa1db638dbc77c2586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:46 +0000
Subject: [PATCH 15/17] fix: SegSolver.eval_step dropped points by LOSS.mask
 (and required it)

---
 projects/segmentation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/projects/segmentation.py b/projects/segmentation.py
index 8e7e0a4..3e1651e 100644
--- a/projects/segmentation.py
+++ b/projects/segmentation.py
@@ -67,13 +67,15 @@ class SegSolver(Solver):
       batch['octree'] = octree
     return batch
 
-  def model_forward(self, batch):
+  def predict(self, batch):
     octree, points = batch['octree'], batch['points']
     data = self.get_input_feature(octree)
     query_pts = torch.cat([points.points, points.batch_id], dim=1)
+    return self.model(data, octree, octree.depth, query_pts)
 
-    logit = self.model(data, octree, octree.depth, query_pts)
-    labels = points.labels.squeeze(1)
+  def model_forward(self, batch):
+    logit = self.predict(batch)
+    labels = batch['points'].labels.squeeze(1)
     label_mask = labels > self.FLAGS.LOSS.mask  # filter labels
     return logit[label_mask], labels[label_mask]
 
@@ -102,7 +104,7 @@ class SegSolver(Solver):
   def eval_step(self, batch):
     batch = self.process_batch(batch, self.FLAGS.DATA.test)
     with torch.no_grad():
-      logit, _ = self.model_forward(batch)
+      logit = self.predict(batch)  # the points are all kept, whatever the label
     prob = torch.nn.functional.softmax(logit, dim=1)
 
     # split predictions
-- 
2.43.0


From b8b91effde021df04014ddae42bbb42cdd8ddd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:13 +0000
Subject: [PATCH 16/17] fix: seg_scannet chunked scans by the absolute upper
 corner instead of the extent

---
 projects/tools/seg_scannet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/tools/seg_scannet.py b/projects/tools/seg_scannet.py
index 87f6951..4bde441 100644
--- a/projects/tools/seg_scannet.py
+++ b/projects/tools/seg_scannet.py
@@ -195,7 +195,7 @@ def generate_chunks(filename, point_cloud, cropsize=10.0, stride=5.0):
   chunk_id = 0
   min_size = 3000
   chunk_num = np.ceil(np.maximum(
-      bbmax - cropsize, 0) / stride).astype(np.int32) + 1
+      bbox - cropsize, 0) / stride).astype(np.int32) + 1
   for i in range(chunk_num[0]):
     for j in range(chunk_num[1]):
       for k in range(chunk_num[2]):
-- 
2.43.0


From 5b6b1ec087ccaed04ced716aa55cb095db5a4fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:13 +0000
Subject: [PATCH 17/17] fix: seg_scannet did not merge predictions of chunks
 with ids above 9

---
 projects/tools/seg_scannet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/tools/seg_scannet.py b/projects/tools/seg_scannet.py
index 4bde441..2025962 100644
--- a/projects/tools/seg_scannet.py
+++ b/projects/tools/seg_scannet.py
@@ -281,7 +281,8 @@ def generate_output_seg():
       prob1 = np.zeros([mask.shape[0], prob0.shape[1]])
       prob1[mask] = prob0
       prob0 = prob1                       # update prob0
-      filename_scan = filename_scan[:-8]  # remove '.chunk_x'
+      pos = filename_scan.rfind('.chunk_')
+      filename_scan = filename_scan[:pos]   # remove '.chunk_x'
 
     probs[filename_scan] = probs.get(filename_scan, 0) + prob0
 
-- 
2.43.0

