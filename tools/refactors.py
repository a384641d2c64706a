"""Behaviour-preserving edits of the code under test (applied to a scratch copy by tools/quiet.py):
every check has to stay quiet on them."""
R = []
def r(f, old, new): R.append((f, old, new))

O = 'ocnn/octree/octree.py'
r(O, "    key = self.keys[depth]\n    if nempty:\n      mask = self.nempty_mask(depth)\n      key = key[mask]\n    return key\n",
     "    return self._select(self.keys[depth], depth, nempty)\n\n  def _select(self, prop, depth, nempty):\n    return prop[self.nempty_mask(depth)] if nempty else prop\n")
r(O, "    batch_id = self.keys[depth] >> 48\n    if nempty:\n      mask = self.nempty_mask(depth)\n      batch_id = batch_id[mask]\n    return batch_id",
     "    return self.key(depth, nempty) >> 48")
r(O, "    points = (point_cloud.points + 1.0) * scale\n", "    points = point_cloud.points.add(1.0).mul(scale)\n")
r(O, "      addr = (pidx << 3) | (node_key % 8)\n", "      addr = pidx * 8 + (node_key & 7)\n")
r(O, "      children = -torch.ones(\n          self.nnum[d].item(), dtype=torch.int32, device=self.device)\n",
     "      children = torch.full(\n          (self.nnum[d].item(),), -1, dtype=torch.int32, device=self.device)\n")
r(O, "    # layer 0 to full_layer: the octree is full in these layers\n    for d in range(self.full_depth+1):\n      self.octree_grow_full(d, update_neigh=False)\n",
     "    self._grow_full_layers()\n")
r(O, "  def octree_grow_full(self, depth: int, update_neigh: bool = True):",
     "  def _grow_full_layers(self):\n    for d in reversed(range(self.full_depth+1)):\n      self.octree_grow_full(d, update_neigh=False)\n\n  def octree_grow_full(self, depth: int, update_neigh: bool = True):")
r(O, "    nnum = self.nnum_nempty[depth-1] * 8\n    self.nnum[depth] = nnum\n", "    nnum = self.nnum_nempty[depth-1] << 3\n    self.nnum[depth] = nnum\n")
r(O, "    empty = split == 0\n    sum = cumsum(split, dim=0, exclusive=True)\n    children, nnum_nempty = torch.split(sum, [split.shape[0], 1])\n    children[empty] = -1\n",
     "    total = cumsum(split, dim=0, exclusive=True)\n    children, nnum_nempty = total[:-1].clone(), total[-1:].clone()\n    children[split == 0] = -1\n")
r(O, "      invalid = torch.logical_or((xyz < 0).any(1), (xyz >= bound).any(1))\n      neigh[:, invalid] = -1\n",
     "      inside = torch.logical_and((xyz >= 0).all(1), (xyz < bound).all(1))\n      neigh[:, inside.logical_not()] = -1\n")
r(O, "      nempty = child_p >= 0\n      neigh_p = self.neighs[depth-1][nempty]   # (N, 27)\n",
     "      neigh_p = self.neighs[depth-1][self.nempty_mask(depth-1)]   # (N, 27)\n")
r(O, "    idx = torch.bucketize(query, key)\n\n    valid = idx < key.shape[0]      # valid if NOT out-of-bound\n    found = key[idx[valid]] == query[valid]\n    valid[valid.clone()] = found    # valid if found\n    idx[valid.logical_not()] = -1   # set to -1 if invalid\n    return idx\n",
     "    idx = torch.searchsorted(key, query)\n    if key.shape[0] == 0:\n      return torch.full_like(idx, -1)\n    near = idx.clamp(max=key.shape[0] - 1)\n    hit = torch.logical_and(idx < key.shape[0], key[near] == query)\n    return torch.where(hit, idx, torch.full_like(idx, -1))\n")
r(O, "    if kernel == '333':\n      return neigh\n    elif kernel in self.lut_kernel:\n      lut = self.lut_kernel[kernel]\n      return neigh[:, lut]\n    else:\n      raise ValueError('Unsupported kernel {}'.format(kernel))\n",
     "    if kernel == '333':\n      return neigh\n    if kernel not in self.lut_kernel:\n      raise ValueError('Unsupported kernel {}'.format(kernel))\n    return neigh.index_select(1, self.lut_kernel[kernel])\n")
r(O, "    def list_to_device(prop):\n      return [p.to(device, non_blocking=non_blocking)\n              if isinstance(p, torch.Tensor) else None for p in prop]\n",
     "    def list_to_device(prop):\n      moved = []\n      for p in prop:\n        moved.append(None if p is None else p.to(device, non_blocking=non_blocking))\n      return moved\n")
r(O, "    keys = [None] * octree.batch_size\n    for i in range(octree.batch_size):\n      key = octrees[i].keys[d] & ((1 << 48) - 1)  # clear the highest bits\n      keys[i] = key | (i << 48)\n    octree.keys[d] = torch.cat(keys, dim=0)\n",
     "    octree.keys[d] = torch.cat([\n        (o.keys[d] & ((1 << 48) - 1)) + (i << 48) for i, o in enumerate(octrees)])\n")
r(O, "    # features\n    if octrees[0].features[d] is not None and d == octree.depth:\n      features = [octrees[i].features[d] for i in range(octree.batch_size)]\n      octree.features[d] = torch.cat(features, dim=0)\n\n    # normals\n    if octrees[0].normals[d] is not None and d == octree.depth:\n      normals = [octrees[i].normals[d] for i in range(octree.batch_size)]\n      octree.normals[d] = torch.cat(normals, dim=0)\n\n    # points\n    if octrees[0].points[d] is not None and d == octree.depth:\n      points = [octrees[i].points[d] for i in range(octree.batch_size)]\n      octree.points[d] = torch.cat(points, dim=0)\n",
     "    if d == octree.depth:\n      for name in ('points', 'normals', 'features'):\n        if getattr(octrees[0], name)[d] is not None:\n          getattr(octree, name)[d] = torch.cat([getattr(o, name)[d] for o in octrees], dim=0)\n")

K = 'ocnn/octree/shuffled_key.py'
r(K, "      key = (key | ((x & mask) << (2 * i + 2)) |\n                   ((y & mask) << (2 * i + 1)) |\n                   ((z & mask) << (2 * i + 0)))\n",
     "      for j, c in enumerate((z, y, x)):\n        key = key | ((c & mask) << (2 * i + j))\n")
r(K, "    key = key16 << 24 | key\n", "    key = key + (key16 << 24)\n")

P = 'ocnn/octree/points.py'
r(P, "    cos, sin = angle.cos(), angle.sin()\n    # rotx, roty, rotz are actually the transpose of the rotation matrices\n    rotx = torch.Tensor([[1, 0, 0], [0, cos[0], sin[0]], [0, -sin[0], cos[0]]])\n    roty = torch.Tensor([[cos[1], 0, -sin[1]], [0, 1, 0], [sin[1], 0, cos[1]]])\n    rotz = torch.Tensor([[cos[2], sin[2], 0], [-sin[2], cos[2], 0], [0, 0, 1]])\n    rot = rotx @ roty @ rotz\n\n    rot = rot.to(self.device)\n",
     "    rot = self._rotation(angle).to(self.device)\n")
r(P, "  def translate(self, dis: torch.Tensor):",
     "  @staticmethod\n  def _rotation(angle):\n    cx, cy, cz = angle.cos().tolist()\n    sx, sy, sz = angle.sin().tolist()\n    rotx = torch.Tensor([[1, 0, 0], [0, cx, sx], [0, -sx, cx]])\n    roty = torch.Tensor([[cy, 0, -sy], [0, 1, 0], [sy, 0, cy]])\n    rotz = torch.Tensor([[cz, sz, 0], [-sz, cz, 0], [0, 0, 1]])\n    return rotx @ (roty @ rotz)\n\n  def translate(self, dis: torch.Tensor):")
r(P, "    for x in axis:\n      idx = axis_map[x]\n      self.points[:, idx] *= -1.0\n      if self.normals is not None:\n        self.normals[:, idx] *= -1.0\n",
     "    for idx in [axis_map[x] for x in axis]:\n      for t in (self.points, self.normals):\n        if t is not None:\n          t[:, idx] = -t[:, idx]\n")
r(P, "    out.points = self.points[mask]\n    if self.normals is not None:\n      out.normals = self.normals[mask]\n    if self.features is not None:\n      out.features = self.features[mask]\n    if self.labels is not None:\n      out.labels = self.labels[mask]\n    if self.batch_id is not None:\n      out.batch_id = self.batch_id[mask]\n    return out\n",
     "    for name in ('points', 'normals', 'features', 'labels', 'batch_id'):\n      value = getattr(self, name)\n      setattr(out, name, None if value is None else value[mask])\n    return out\n")
r(P, "    mask_min = torch.all(self.points > bbmin, dim=1)\n    mask_max = torch.all(self.points < bbmax, dim=1)\n    mask = torch.logical_and(mask_min, mask_max)\n    return mask\n",
     "    inside = (self.points > bbmin) & (self.points < bbmax)\n    return inside.all(dim=1)\n")
r(P, "    mask = self.inbox_mask(min + esp, max - esp)\n    tmp = self.__getitem__(mask)\n    self.__dict__.update(tmp.__dict__)\n    return mask\n",
     "    kept = self.inbox_mask(bbmax=max - esp, bbmin=min + esp)\n    for k, v in vars(self[kept]).items():\n      setattr(self, k, v)\n    return kept\n")
r(P, "    box_size = (bbmax - bbmin).max() + 1.0e-6\n    self.points = (self.points - center) * (2.0 * scale / box_size)\n",
     "    box_size = torch.max(bbmax - bbmin) + 1.0e-6\n    self.points = 2.0 * scale * (self.points - center) / box_size\n")

C = 'ocnn/nn/octree_conv.py'
r(C, "      # Perform octree2col\n      neigh_i = self.neigh[start:end]\n      valid = neigh_i >= 0\n      buffer.fill_(0)\n      buffer[valid] = data[neigh_i[valid]]\n\n      # The sub-matrix gemm\n",
     "      self._gather(buffer, data, start, end)\n\n      # The sub-matrix gemm\n")
r(C, "      # Perform octree2col\n      neigh_i = self.neigh[start:end]\n      valid = neigh_i >= 0\n      buffer.fill_(0)\n      buffer[valid] = data[neigh_i[valid]]\n\n      # Accumulate",
     "      self._gather(buffer, data, start, end)\n\n      # Accumulate")
r(C, "  def weight_gemm(\n", "  def _gather(self, buffer, data, start, end):\n    neigh_i = self.neigh[start:end]\n    valid = neigh_i >= 0\n    buffer.fill_(0)\n    buffer[valid] = data[neigh_i[valid]]\n\n  def weight_gemm(\n")
r(C, "class OctreeConv(OctreeConvBase, torch.nn.Module):", "class _Unused:\n  pass\n\n\nclass OctreeConv(OctreeConvBase, torch.nn.Module):")

PL = 'ocnn/nn/octree_pool.py'
r(PL, "  data = data.view(-1, 8, data.shape[1])\n  out, indices = data.max(dim=1)\n", "  grouped = data.reshape(-1, 8, data.size(1))\n  out, indices = torch.max(grouped, dim=1)\n")
r(PL, "  count[count < 1] = 1  # there might be 0 element in some shapes\n\n  out = scatter_add(data, batch_id, dim=0, dim_size=batch_size)\n  out = out / count\n  return out\n",
      "  total = scatter_add(data, batch_id, dim=0, dim_size=batch_size)\n  return total / count.clamp(min=1)\n")
IN = 'ocnn/nn/octree_interp.py'
r(IN, "  grid = torch.tensor(\n      [[0, 0, 0], [0, 0, 1], [0, 1, 0], [0, 1, 1],\n       [1, 0, 0], [1, 0, 1], [1, 1, 0], [1, 1, 1]], device=device)\n",
      "  grid = ocnn.utils.range_grid(0, 1, device)\n")
r(IN, "  out = out.unsqueeze(1).repeat(1, 8, 1).flatten(end_dim=1)\n", "  out = torch.repeat_interleave(out, 8, dim=0)\n")
NM = 'ocnn/nn/octree_norm.py'
r(NM, "      tensor = (tensor.reshape(-1, self.group, self.channels_per_group)\n                      .sum(-1, keepdim=True)\n                      .repeat(1, 1, self.channels_per_group)\n                      .reshape(-1, self.in_channels))\n    return tensor\n",
      "      size = self.channels_per_group\n      total = tensor.reshape(-1, self.group, size).sum(-1)\n      tensor = total.repeat_interleave(size, dim=1)\n    return tensor\n")
r('ocnn/nn/octree_norm.py', "    batch_size = octree.batch_size\n    batch_id = octree.batch_id(depth, self.nempty)\n    ones", "    batch_id, batch_size = octree.batch_id(depth, self.nempty), octree.batch_size\n    ones")

H = 'ocnn/models/hrnet.py'
r(H, "    out = [None] * num\n    for i in range(num):\n      depth_i = depth - i\n      out[i] = self.resblocks[i](datas[i], octree, depth_i)\n    return out\n",
     "    return [blk(x, octree, depth - i)\n            for i, (blk, x) in enumerate(zip(self.resblocks, datas))]\n")
r(H, "    outs = [x for x in data]  # avoid modifying the input data\n    for i in range(num):\n      depth_i = depth - i\n      for d in range(depth_i, full_depth, -1):\n        outs[i] = ocnn.nn.octree_max_pool(outs[i], octree, d, self.nempty)\n",
     "    outs = []\n    for i in range(num):\n      x = data[i]\n      for d in range(depth - i, full_depth, -1):\n        x = ocnn.nn.octree_max_pool(x, octree, d, self.nempty)\n      outs.append(x)\n")
U = 'ocnn/models/unet.py'
r(U, "    convd = self.unet_encoder(data, octree, depth)\n    deconv = self.unet_decoder(convd, octree, depth - self.encoder_stages)\n",
     "    pyramid = self.unet_encoder(data, octree, depth)\n    deconv = self.unet_decoder(\n        pyramid, octree, depth=depth - self.encoder_stages)\n")
AE = 'ocnn/models/autoencoder.py'
r(AE, "        split = logit.argmax(1).int()\n        octree.octree_split(split, d)\n        if d < depth:\n          octree.octree_grow(d + 1)\n",
      "        self._update_octree(octree, logit, d)\n")
r(AE, "  def decode_code(self, shape_code: torch.Tensor):",
      "  def _update_octree(self, octree, logit, d):\n    split = (logit[:, 1] > logit[:, 0]).int()\n    octree.octree_split(split, d)\n    if d + 1 <= self.depth:\n      octree.octree_grow(d + 1)\n\n  def decode_code(self, shape_code: torch.Tensor):")
D = 'ocnn/dataset.py'
r(D, "    octree = Octree(self.depth, self.full_depth)\n    octree.build_octree(points)\n    return octree\n", "    tree = Octree(depth=self.depth, full_depth=self.full_depth)\n    tree.build_octree(points)\n    return tree\n")
r(D, "    for key in batch[0].keys():\n      outputs[key] = [b[key] for b in batch]\n", "    keys = list(batch[0].keys())\n    for key in keys:\n      outputs[key] = [sample[key] for sample in batch]\n")
UT = 'ocnn/utils.py'
r(UT, "    size = list(data.size())\n    size[dim] = 1\n    zeros = out.new_zeros(size)\n    out = torch.cat([zeros, out], dim)\n  return out\n",
      "    head = torch.zeros_like(out.narrow(dim, 0, 1)) if out.shape[dim] else out.new_zeros(\n        [1 if i == dim % out.dim() else s for i, s in enumerate(out.shape)])\n    out = torch.cat((head, out), dim=dim)\n  return out\n")
r(UT, "  for _ in range(len(list_in), num):\n    list_in.append(list_in[-1])\n  return list_in\n", "  while len(list_in) < num:\n    list_in.append(list_in[-1])\n  return list_in\n")

S = 'projects/segmentation.py'
r(S, "      prob = probs[i].cpu()\n      inbox_mask = inbox_masks[i].to(prob.device)\n      prob_all_pts = prob.new_zeros([inbox_mask.shape[0], prob.shape[1]])\n      prob_all_pts[inbox_mask] = prob\n",
     "      prob_all_pts = self._scatter_prob(probs[i].cpu(), inbox_masks[i])\n")
r(S, "  def result_callback(self, avg_tracker, epoch):",
     "  @staticmethod\n  def _scatter_prob(prob, mask):\n    mask = mask.to(prob.device)\n    out = torch.zeros(mask.shape[0], prob.shape[1], dtype=prob.dtype)\n    out[mask] = prob\n    return out\n\n  def result_callback(self, avg_tracker, epoch):")
r(S, "      self.eval_rst[filename] = self.eval_rst.get(filename, 0) + prob_all_pts\n",
     "      if filename in self.eval_rst:\n        self.eval_rst[filename] = self.eval_rst[filename] + prob_all_pts\n      else:\n        self.eval_rst[filename] = prob_all_pts\n")
r(S, "    criterion = torch.nn.CrossEntropyLoss()\n    loss = criterion(logit, label.long())\n    return loss\n", "    return torch.nn.functional.cross_entropy(logit, label.long())\n")
r(S, "    if flags.name.lower() == 'segnet':\n      model", "    name = flags.name.lower()\n    if name == 'segnet':\n      model")
SC = 'projects/datascts/scannet.py'
r(SC, "    xyz = sample['points']\n    center = (xyz.min(axis=0) + xyz.max(axis=0)) / 2.0\n    center[2] = 0.5   # fix the z axis center for all scenes\n    xyz = (xyz - center) / self.scale_factor  # xyz in [-1, 1]\n",
      "    xyz = self._normalize(sample['points'])\n")
r(SC, "  def __call__(self, sample, idx=None):\n", "  def _normalize(self, xyz):\n    center = (xyz.min(axis=0) + xyz.max(axis=0)) / 2.0\n    center[2] = 0.5   # fix the z axis center for all scenes\n    return (xyz - center) / self.scale_factor  # xyz in [-1, 1]\n\n  def __call__(self, sample, idx=None):\n")
CP = 'projects/datascts/completion.py'
r(CP, "    points_gt.clip(min=-1, max=1)\n    octree_gt = self.points2octree(points_gt)\n\n    points_in = Points(torch.from_numpy(points_noise).float())\n    points_in.clip(min=-1, max=1)\n    octree_in = self.points2octree(points_in)\n",
      "    points_in = Points(torch.from_numpy(points_noise).float())\n    for p in (points_gt, points_in):\n      p.clip(min=-1, max=1)\n    octree_gt = self.points2octree(points_gt)\n    octree_in = self.points2octree(points_in)\n")
AU = 'projects/autoencoder.py'
r(AU, "    for d in logits.keys():\n      logitd = logits[d]\n      label_gt = octree.nempty_mask(d).long()\n", "    for d, logitd in logits.items():\n      label_gt = (octree.children[d] >= 0).long()\n")
r(AU, "    points_num = [torch.sum(batch_id == i) for i in range(batch_size)]\n    points = torch.split(point_cloud, points_num)\n    return points\n",
      "    return tuple(point_cloud[batch_id == i] for i in range(batch_size))\n")
TU = 'projects/tools/utils.py'
r(TU, "  folder = os.path.dirname(filename)\n  if not os.path.exists(folder):\n    os.makedirs(folder)\n", "  os.makedirs(os.path.dirname(filename), exist_ok=True)\n")
