"""A second, more structural set of behaviour-preserving edits (REFACTORS=refactors2 python3 tools/quiet.py)."""
R = []
def r(f, old, new): R.append((f, old, new))

M = 'ocnn/modules/resblocks.py'
r(M, "    if self.stride == 2:\n      data = self.max_pool(data, octree, depth)\n      depth = depth - 1\n    conv1 = self.conv1x1a(data)\n    conv2 = self.conv3x3(conv1, octree, depth)\n    conv3 = self.conv1x1b(conv2)\n    if self.in_channels != self.out_channels:\n      data = self.conv1x1c(data)\n    out = self.relu(conv3 + data)\n    return out\n",
     "    if self.stride == 2:\n      data, depth = self.max_pool(data, octree, depth), depth - 1\n    return self.relu(self._branch(data, octree, depth).add(self._shortcut(data)))\n\n  def _shortcut(self, data):\n    same = self.in_channels == self.out_channels\n    return data if same else self.conv1x1c(data)\n\n  def _branch(self, data, octree, depth):\n    return self.conv1x1b(self.conv3x3(self.conv1x1a(data), octree, depth))\n")
r(M, "    for i in range(self.resblk_num):\n      if self.use_checkpoint:\n        data = torch.utils.checkpoint.checkpoint(\n            self.resblks[i], data, octree, depth)\n      else:\n        data = self.resblks[i](data, octree, depth)\n    return data",
     "    for blk in self.resblks:\n      data = (torch.utils.checkpoint.checkpoint(blk, data, octree, depth)\n              if self.use_checkpoint else blk(data, octree, depth))\n    return data")
S = 'ocnn/models/segnet.py'
r(S, "    indices = dict()\n    for i in range(self.stages):\n      d = depth - i\n      data = self.convs[i](data, octree, d)\n      data, indices[d] = self.pools[i](data, octree, d)\n",
     "    indices = []\n    for i, (conv, pool) in enumerate(zip(self.convs, self.pools)):\n      data, idx = pool(conv(data, octree, depth - i), octree, depth - i)\n      indices.append(idx)\n")
r(S, "      data = self.unpools[i](data, indices[d + 1], octree, d)\n", "      data = self.unpools[i](data, indices.pop(), octree, d)\n")
DP = 'ocnn/nn/octree_drop.py'
r(DP, "    rnd_tensor = torch.rand(batch_size, 1, dtype=data.dtype, device=data.device)\n    rnd_tensor = torch.floor(rnd_tensor + keep_prob)\n    if keep_prob > 0.0 and self.scale_by_keep:\n      rnd_tensor.div_(keep_prob)\n",
      "    kept = torch.rand(batch_size, 1, dtype=data.dtype, device=data.device) >= self.drop_prob\n    rnd_tensor = kept.to(data.dtype)\n    if keep_prob > 0.0 and self.scale_by_keep:\n      rnd_tensor = rnd_tensor / keep_prob\n")
r(DP, "    drop_mask = rnd_tensor[batch_id]\n    output = data * drop_mask\n    return output", "    return data * rnd_tensor.index_select(0, batch_id.long())")
V = 'ocnn/nn/octree2vox.py'
r(V, "  vox = data.new_zeros([octree.batch_size, num, num, num, channel])\n  vox[b, x, y, z] = data\n  return vox\n",
     "  flat = data.new_zeros([octree.batch_size * num ** 3, channel])\n  idx = ((b.long() * num + x.long()) * num + y.long()) * num + z.long()\n  flat[idx] = data\n  return flat.view(octree.batch_size, num, num, num, channel)\n")
W = 'ocnn/nn/octree_dwconv.py'
r(W, "      out[start:end] = torch.einsum('ikc,kc->ic', buffer, weights.flatten(0, 1))\n", "      out[start:end] = (buffer * weights.flatten(0, 1).unsqueeze(0)).sum(dim=1)\n")
r(W, "      buffer = torch.einsum(\n          'ic,kc->ikc', grad[start:end], weights.flatten(0, 1))\n", "      buffer = grad[start:end].unsqueeze(1) * weights.flatten(0, 1).unsqueeze(0)\n")
C = 'ocnn/nn/octree2col.py'
O = 'ocnn/octree/octree.py'
P = 'ocnn/octree/points.py'
U = 'ocnn/models/ounet.py'
r(U, "    for i, d in enumerate(range(full_depth, depth + 1)):\n      if d > full_depth:\n        deconv = self.upsample[i-1](deconv, octree_out, d-1)\n        skip = ocnn.nn.octree_align(convs[d], octree_in, octree_out, d)\n        deconv = deconv + skip  # output-guided skip connections\n      deconv = self.decoder_blks[i](deconv, octree_out, d)\n",
     "    for d in range(full_depth, depth + 1):\n      i = d - full_depth\n      if i > 0:\n        skip = ocnn.nn.octree_align(convs[d], octree_in, octree_out, d)\n        deconv = skip + self.upsample[i-1](deconv, octree_out, d-1)\n      deconv = self.decoder_blks[i](deconv, octree_out, d)\n")
SG = 'projects/segmentation.py'
r(SG, "    label_mask = labels > self.FLAGS.LOSS.mask  # filter labels\n    return logit[label_mask], labels[label_mask]\n",
      "    keep = (labels > self.FLAGS.LOSS.mask).nonzero().squeeze(1)\n    return logit.index_select(0, keep), labels.index_select(0, keep)\n")
r(SG, "    prob = torch.nn.functional.softmax(logit, dim=1)\n\n    # split predictions\n    inbox_masks = batch['inbox_mask']\n    npts = batch['points'].batch_npt.tolist()\n    probs = torch.split(prob, npts)\n",
      "    prob = logit.softmax(dim=1)\n\n    # split predictions\n    inbox_masks = batch['inbox_mask']\n    probs = list(prob.split(batch['points'].batch_npt.tolist(), dim=0))\n")
r(SG, "      self.eval_rst[filename] = self.eval_rst.get(filename, 0) + prob_all_pts\n",
      "      if filename in self.eval_rst:\n        self.eval_rst[filename] = self.eval_rst[filename] + prob_all_pts\n      else:\n        self.eval_rst[filename] = prob_all_pts\n")
r(SG, "        full_filename = os.path.join(self.logdir, filename[:-4] + '.eval.npz')\n        curr_folder = os.path.dirname(full_filename)\n        if not os.path.exists(curr_folder): os.makedirs(curr_folder)\n",
      "        full_filename = os.path.join(self.logdir, os.path.splitext(filename)[0] + '.eval.npz')\n        os.makedirs(os.path.dirname(full_filename), exist_ok=True)\n")
r(SG, "    iou_part = 0.0\n    avg = avg_tracker.average()\n", "    avg = avg_tracker.average()\n    ious = []\n")
r(SG, "      iou_part += instc_i / (union_i + 1.0e-10)\n    iou_part = iou_part / (num_class - mask)\n", "      ious.append(instc_i / (union_i + 1.0e-10))\n    iou_part = sum(ious) / len(ious)\n")
r(SG, "    criterion = torch.nn.CrossEntropyLoss()\n    loss = criterion(logit, label.long())\n    return loss\n", "    return torch.nn.functional.cross_entropy(logit, label.long())\n")
r(SG, "      intsc[k] = torch.sum(torch.logical_and(pk, lk).float())\n      union[k] = torch.sum(torch.logical_or(pk, lk).float())\n",
      "      intsc[k] = (pk & lk).sum().float()\n      union[k] = pk.sum().float() + lk.sum().float() - intsc[k]\n")
SC = 'projects/tools/seg_scannet.py'
r(SC, "  nv = np.zeros_like(vertex)\n  for i in range(face.shape[0]):\n    nv[face[i]] += nf[i]\n",
      "  nv = np.zeros_like(vertex)\n  for i, corners in enumerate(face):\n    for c in set(corners.tolist()):\n      nv[c] += nf[i]\n")
r(SC, "  output = {'points': point_cloud[:, :3].astype(np.float32),\n            'normals': point_cloud[:, 3:6].astype(np.float32),\n            'colors': point_cloud[:, 6:9].astype(np.float32), }\n",
      "  cols = {'points': slice(0, 3), 'normals': slice(3, 6), 'colors': slice(6, 9)}\n  output = {k: point_cloud[:, v].astype(np.float32) for k, v in cols.items()}\n")
r(SC, "  for i in range(chunk_num[0]):\n    for j in range(chunk_num[1]):\n      for k in range(chunk_num[2]):\n        cmin = bbmin + np.array([i, j, k]) * stride\n        cmax = cmin + cropsize\n        inbox_mask = (vertices <= cmax) & (vertices >= cmin)\n        inbox_mask = np.all(inbox_mask, axis=1)\n        if np.sum(inbox_mask) < min_size:\n          continue\n        filename_out = filename.stem + '.chunk_%d.ply' % chunk_id\n        save_ply(point_cloud[inbox_mask], filename.parent / filename_out)\n        filename_mask = filename.stem + '.chunk_%d.mask.npy' % chunk_id\n        np.save(filename.parent / filename_mask, inbox_mask)\n        chunk_id += 1\n",
      "  for ijk in np.ndindex(*chunk_num.tolist()):\n    cmin = bbmin + np.array(ijk) * stride\n    cmax = cmin + cropsize\n    inbox_mask = ((vertices <= cmax) & (vertices >= cmin)).all(axis=1)\n    if np.count_nonzero(inbox_mask) < min_size:\n      continue\n    prefix = filename.stem + '.chunk_%d' % chunk_id\n    save_ply(point_cloud[inbox_mask], filename.parent / (prefix + '.ply'))\n    np.save(filename.parent / (prefix + '.mask.npy'), inbox_mask)\n    chunk_id += 1\n")
UP = 'projects/tools/upgrade_ckpt.py'
r(UP, "  elif 'conv1x1.weight' in key:\n    if 'conv1x1.conv1x1' in key:\n      new_key = key.replace('conv1x1.conv1x1', 'conv.linear')\n    else:\n      new_key = key.replace('conv1x1', 'linear')\n    upgrade[new_key] = val.squeeze(2)\n",
      "  elif 'conv1x1.weight' in key:\n    old, new = (('conv1x1.conv1x1', 'conv.linear')\n                if 'conv1x1.conv1x1' in key else ('conv1x1', 'linear'))\n    upgrade[key.replace(old, new)] = val.squeeze(2)\n")
CL = 'projects/tools/cleanup_ckpt.py'
r(CL, "    ckpts = sorted(os.listdir(curr_subfolder))\n    if len(ckpts) == 1: continue\n    for ckpt in ckpts[:-2] + ckpts[-1:]:\n",
      "    ckpts = sorted(os.listdir(curr_subfolder))\n    if len(ckpts) < 2: continue\n    keep = ckpts[-2]\n    for ckpt in ckpts:\n      if ckpt == keep: continue\n")
I = 'projects/datascts/image2shape.py'
r(I, "    if self.filetype == 'ply':\n      out = self.read_ply(filename + '.ply')\n    elif self.filetype == 'npz':\n      raw = np.load(filename + '.npz')\n      out = {key: raw[key].astype(np.float32) for key in raw.keys()}\n    else:\n      raise ValueError('Unknown file type: ' + self.filetype)\n    return out\n",
     "    if self.filetype not in ('ply', 'npz'):\n      raise ValueError('Unknown file type: ' + self.filetype)\n    path = filename + '.' + self.filetype\n    if self.filetype == 'ply':\n      return self.read_ply(path)\n    with np.load(path) as raw:\n      return {key: raw[key].astype(np.float32) for key in raw.files}\n")
K = 'projects/datascts/semantic_kitti.py'
r(K, "  label_ids = list(range(1, num_classes + 1))\n  label_dict = dict(zip(kept_labels, label_ids))\n\n  label_map = np.zeros(260)\n",
     "  label_dict = {name: i + 1 for i, name in enumerate(kept_labels)}\n\n  label_map = np.zeros(max(label_name_mapping) + 1)\n")
r(K, "    xyz = sample['points'][:, :3]\n    density = sample['points'][:, 3:]\n", "    xyz, density = np.split(sample['points'], [3], axis=1)\n")
N = 'projects/datascts/scannet.py'
r(N, "    center = (xyz.min(axis=0) + xyz.max(axis=0)) / 2.0\n    center[2] = 0.5   # fix the z axis center for all scenes\n", "    lo, hi = xyz.min(axis=0), xyz.max(axis=0)\n    center = (lo + hi) / 2.0\n    center[2] = 0.5   # fix the z axis center for all scenes\n")
DU = 'projects/datascts/utils.py'
r(DU, "    func = {'npz': self.read_npz, 'ply': self.read_ply}\n    suffix = filename.split('.')[-1]\n    return func[suffix](filename)\n",
      "    readers = {'npz': self.read_npz, 'ply': self.read_ply}\n    return readers[filename.rsplit('.', 1)[-1]](filename)\n")
CP = 'projects/completion.py'
r(CP, "    octree_in = batch['octree'].cuda(non_blocking=True)\n    octree_gt = batch['octree_gt'].cuda(non_blocking=True)\n    model_out = self.model(octree_in, octree_gt, update_octree=False)\n    output = self.compute_loss(octree_gt, model_out)\n    return output\n",
      "    octree_in, octree_gt = [batch[key].cuda(non_blocking=True)\n                            for key in ('octree', 'octree_gt')]\n    return self.compute_loss(\n        octree_gt, self.model(octree_in, octree_gt, update_octree=False))\n")
IS = 'projects/image2shape.py'
r(IS, "      pos = filename.rfind('.')\n      if pos != -1: filename = filename[:pos]  # remove the suffix\n", "      filename = filename.rpartition('.')[0] if '.' in filename else filename\n")
AE = 'projects/tools/ae_shapenet.py'
r(AE, "  with open(filename, 'r') as fid:\n    lines = fid.readlines()\n\n  lines = [line.replace('.points', suffix) for line in lines]\n", "  with open(filename, 'r') as fid:\n    lines = [line.replace('.points', suffix) for line in fid]\n")
r(C, "  size = (neigh.shape[0], neigh.shape[1], data.shape[1])\n  out = torch.zeros(size, dtype=data.dtype, device=data.device)\n  valid = neigh >= 0\n  out[valid] = data[neigh[valid]]  # (N, K, C)\n  return out\n",
     "  padded = torch.cat([data, data.new_zeros(1, data.shape[1])], dim=0)\n  index = torch.where(neigh >= 0, neigh.long(), torch.full_like(neigh, data.shape[0]).long())\n  return padded[index]  # (N, K, C)\n")
r(C, "  out = scatter_add(data[valid], neigh[valid], dim=0, dim_size=dim_size)\n  return out\n",
     "  out = data.new_zeros(int(dim_size), data.shape[-1])\n  return out.index_add_(0, neigh[valid].long(), data[valid])\n")
r(O, "    # children\n    children = [None] * octree.batch_size\n    for i in range(octree.batch_size):\n      child = octrees[i].children[d].clone()  # !! `clone` is used here to avoid\n      mask = child >= 0                       # !! modifying the original octrees\n      child[mask] = child[mask] + nnum_cum[d, i]\n      children[i] = child\n    octree.children[d] = torch.cat(children, dim=0)\n",
     "    # children\n    children = []\n    for i, src in enumerate(octrees):\n      child = src.children[d]\n      children.append(torch.where(child >= 0, child + nnum_cum[d, i].item(), child))\n    octree.children[d] = torch.cat(children, dim=0)\n")
r(O, "    # features\n    if octrees[0].features[d] is not None and d == octree.depth:\n      features = [octrees[i].features[d] for i in range(octree.batch_size)]\n      octree.features[d] = torch.cat(features, dim=0)\n\n    # normals\n    if octrees[0].normals[d] is not None and d == octree.depth:\n      normals = [octrees[i].normals[d] for i in range(octree.batch_size)]\n      octree.normals[d] = torch.cat(normals, dim=0)\n\n    # points\n    if octrees[0].points[d] is not None and d == octree.depth:\n      points = [octrees[i].points[d] for i in range(octree.batch_size)]\n      octree.points[d] = torch.cat(points, dim=0)\n",
     "  # the signals are only stored in the last layer\n  d = octree.depth\n  for name in ('points', 'normals', 'features'):\n    if getattr(octrees[0], name)[d] is not None:\n      getattr(octree, name)[d] = torch.cat([getattr(src, name)[d] for src in octrees], dim=0)\n")
r(O, "    if stride == 1:\n      neigh = self.neighs[depth]\n    elif stride == 2:\n      # clone neigh to avoid self.neigh[depth] being modified\n      neigh = self.neighs[depth][::8].clone()\n    else:\n      raise ValueError('Unsupported stride {}'.format(stride))\n\n    if nempty:\n      child = self.children[depth]\n      if stride == 1:\n        nempty_node = child >= 0\n        neigh = neigh[nempty_node]\n      valid = neigh >= 0\n      neigh[valid] = child[neigh[valid]].long()  # remap the index\n",
     "    if stride not in (1, 2):\n      raise ValueError('Unsupported stride {}'.format(stride))\n    neigh = self.neighs[depth] if stride == 1 else self.neighs[depth][::8].contiguous()\n\n    if nempty:\n      child = self.children[depth]\n      if stride == 1:\n        neigh = neigh[child >= 0]\n      remap = child[neigh.clamp(min=0)].to(neigh.dtype)\n      neigh = torch.where(neigh >= 0, remap, neigh)\n")
r(O, "    num = 1 << (3 * depth)\n    self.nnum[depth] = num * self.batch_size\n    self.nnum_nempty[depth] = num * self.batch_size\n\n    # update key\n    key = torch.arange(num, dtype=torch.long, device=self.device)\n    bs = torch.arange(self.batch_size, dtype=torch.long, device=self.device)\n    key = key.unsqueeze(0) | (bs.unsqueeze(1) << 48)\n    self.keys[depth] = key.view(-1)\n",
     "    num = 8 ** depth\n    total = num * self.batch_size\n    self.nnum[depth] = total\n    self.nnum_nempty[depth] = total\n\n    # update key\n    key = torch.arange(num, dtype=torch.long, device=self.device)\n    self.keys[depth] = torch.cat([key | (b << 48) for b in range(self.batch_size)])\n")
r(O, "    key = self.key(depth-1, nempty=True)\n    batch_id = (key >> 48) << 48\n    key = (key & ((1 << 48) - 1)) << 3\n    key = key | batch_id\n    key = key.unsqueeze(1) + torch.arange(8, device=key.device)\n    self.keys[depth] = key.view(-1)\n",
     "    x, y, z, b = self.xyzb(depth-1, nempty=True)\n    first = xyz2key(x.long() * 2, y.long() * 2, z.long() * 2, b, depth)\n    self.keys[depth] = (first.unsqueeze(1) + torch.arange(8, device=first.device)).view(-1)\n")
r(O, "    bound = 1 << depth\n", "    bound = 2 ** depth\n")
r(O, "      pkey, pidx, pcounts = torch.unique_consecutive(\n          pkey, return_inverse=True, return_counts=True)\n", "      pkey, pidx = torch.unique_consecutive(pkey, return_inverse=True)\n")
r(O, "      self.normals[d] = F.normalize(normals)\n", "      norm = normals.pow(2).sum(dim=1, keepdim=True).sqrt()\n      self.normals[d] = normals / norm.clamp(min=1e-12)\n")
r(O, "    out = torch.cat(features, dim=1)\n    if not nempty:\n      out = ocnn.nn.octree_pad(out, self, depth)\n    return out\n", "    out = torch.cat(features, dim=1)\n    return out if nempty else ocnn.nn.octree_pad(out, self, depth)\n")
r(P, "    idx = axis_map[axis]\n    if idx < 3:\n      flags = self.normals[:, idx] > 0\n      flags = flags.float() * 2.0 - 1.0  # [0, 1] -> [-1, 1]\n      self.normals = self.normals * flags.unsqueeze(1)\n    else:\n      self.normals = self.normals.abs()\n",
     "    idx = axis_map[axis]\n    if idx == 3:\n      self.normals = torch.abs(self.normals)\n      return\n    pos = self.normals[:, idx:idx + 1] > 0\n    self.normals = torch.where(pos, self.normals, -self.normals)\n")
r(P, "      ifactor = 1.0 / factor\n      self.normals = self.normals * ifactor\n      norm2 = torch.sqrt(torch.sum(self.normals ** 2, dim=1, keepdim=True))\n      self.normals = self.normals / torch.clamp(norm2, min=1.0e-12)\n",
     "      self.normals = torch.nn.functional.normalize(self.normals / factor, dim=1)\n")
r(P, "    self.points = self.points @ rot\n    if self.normals is not None:\n      self.normals = self.normals @ rot\n", "    for name in ('points', 'normals'):\n      val = getattr(self, name)\n      if val is not None:\n        setattr(self, name, torch.matmul(val, rot))\n")
r(P, "    self.points = self.points.clone()\n    if self.normals is not None:\n      self.normals = self.normals.clone()\n    for x in axis:\n      idx = axis_map[x]\n      self.points[:, idx] *= -1.0\n      if self.normals is not None:\n        self.normals[:, idx] *= -1.0\n",
     "    sign = torch.ones(3)\n    for x in axis:\n      sign[axis_map[x]] *= -1.0\n    self.points = self.points * sign.to(self.points)\n    if self.normals is not None:\n      self.normals = self.normals * sign.to(self.normals)\n")
r(P, "    mask_min = torch.all(self.points > bbmin, dim=1)\n    mask_max = torch.all(self.points < bbmax, dim=1)\n    mask = torch.logical_and(mask_min, mask_max)\n    return mask\n", "    inside = (self.points > bbmin) & (self.points < bbmax)\n    return inside.all(dim=1)\n")
r(P, "    bbmin = self.points.min(dim=0)\n    bbmax = self.points.max(dim=0)\n    return bbmin[0], bbmax[0]\n", "    return self.points.amin(dim=0), self.points.amax(dim=0)\n")
r(P, "    out.batch_npt = torch.Tensor([p.npt for p in points]).long()\n    out.batch_id = torch.cat([p.points.new_full((p.npt, 1), i)\n                              for i, p in enumerate(points)], dim=0)\n",
     "    out.batch_npt = torch.tensor([p.npt for p in points], dtype=torch.long)\n    ids = torch.repeat_interleave(torch.arange(len(points)), out.batch_npt)\n    out.batch_id = ids.to(out.points).unsqueeze(1)\n")
