H = 'import sys, os, torch, ocnn\nimport numpy as np\nfrom ocnn.octree import *\nfrom ocnn.octree import Octree, Points\nfrom ocnn.nn import *\n'
OCT = '''
def mk(pts, depth=4, full=2, neigh=True, normals=None, feats=None):
  pts = torch.as_tensor(pts, dtype=torch.float32)
  o = Octree(depth, full); o.build_octree(Points(pts, normals, feats))
  m = merge_octrees([o]);
  if neigh: m.construct_all_neigh()
  return m
def batch(clouds, depth=4, full=2):
  os_ = []
  for c in clouds:
    o = Octree(depth, full); o.build_octree(Points(torch.as_tensor(c, dtype=torch.float32))); os_.append(o)
  m = merge_octrees(os_); m.construct_all_neigh(); return m
torch.manual_seed(0)
'''
P = []
def add(id, prop, edits, needs, breaks, demo):
  P.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=H + OCT + demo))
PLANTS = P

add('b02_batched_deep_pkey', 'C02',
    [('ocnn/octree/octree.py', "((pkey >> 45) << 48) | (pkey & ((1 << 45) - 1))", "((pkey >> 45) << 48) | (pkey & ((1 << 42) - 1))")],
    'building a batched cloud (batch_size > 1) at depth 16 away from the first octant',
    'the top level of the coordinates is lost from the parent keys',
    '''
p = torch.tensor([[0.9, 0.8, 0.7], [-0.9, 0.3, 0.2]])
pts = Points(p, batch_id=torch.tensor([[0], [1]]), batch_size=2)
o = Octree(16, 2, batch_size=2); o.build_octree(pts)
for d in range(3, 17):
  k = o.keys[d]
  if d < 16:
    x, y, z, b = o.xyzb(d, True)
    q = ((p + 1) * 2 ** (d - 1)).long()
    assert torch.stack([x, y, z], 1).tolist() == q.tolist(), d
''')

add('b04_merge_leaf_alias', 'C05',
    [('ocnn/octree/octree.py', "      child = octrees[i].children[d].clone()  # !!", "      child = octrees[i].children[d]\n      child = child.clone() if d < octree.depth else child  # !!")],
    'merging the same octrees twice, or using them after the merge',
    'merge_octrees shifts the leaf children of its second and later inputs in place',
    '''
def one(p):
  o = Octree(4, 2); o.build_octree(Points(torch.tensor(p))); return o
a, b = one([[0.1, 0.2, 0.3]]), one([[-0.5, 0.2, 0.3], [0.5, 0.5, 0.5]])
m1 = merge_octrees([a, b]); m2 = merge_octrees([a, b])
assert (m1.children[4] == m2.children[4]).all()
''')

add('b06_stale_neigh', 'C08',
    [('ocnn/octree/octree.py', "    # update neighs\n    if update_neigh:\n      self.construct_neigh(depth)", "    # update neighs\n    if update_neigh and self.neighs[depth] is None:\n      self.construct_neigh(depth)")],
    'growing the same layer a second time after a different split',
    'the neighbour table of the first growth is kept',
    '''
o = init_octree(4, 2, 1)
s = torch.zeros(64, dtype=torch.int32); s[:3] = 1
o.octree_split(s, 2); o.octree_grow(3)
s = torch.zeros(64, dtype=torch.int32); s[5:20] = 1
o.octree_split(s, 2); o.octree_grow(3)
assert o.neighs[3].shape[0] == o.nnum[3], (o.neighs[3].shape, o.nnum[3])
''')

add('b07_stale_buffer', 'C12',
    [('ocnn/nn/octree_conv.py', """      neigh_i = self.neigh[start:end]
      valid = neigh_i >= 0
      buffer.fill_(0)
      buffer[valid] = data[neigh_i[valid]]

      # Accumulate the gradient via gemm""", """      neigh_i = self.neigh[start:end]
      valid = neigh_i >= 0
      if i == 0: buffer.fill_(0)
      buffer[valid] = data[neigh_i[valid]]

      # Accumulate the gradient via gemm""")],
    'a weight gradient computed in more than one chunk (small max_buffer)',
    'values of the previous chunk stay in the buffer where a neighbour is missing',
    '''
o = mk(torch.rand(30, 3) * 1.8 - 0.9)
c = OctreeConv(2, 3, nempty=False, max_buffer=27 * 2 * 50); g = OctreeConv(2, 3)
g.weights.data.copy_(c.weights.data)
x = torch.randn(int(o.nnum[4]), 2)
for m in (c, g): (m(x, o, 4) ** 2).sum().backward()
assert torch.allclose(c.weights.grad, g.weights.grad, rtol=1e-4, atol=1e-3)
''')

add('b08_bias_after_pad', 'C13',
    [('ocnn/nn/octree_dwconv.py', """    if self.use_bias:
      out += self.bias

    if self.stride == 2 and not self.nempty:
      out = octree_pad(out, octree, depth-1)
    return out""", """    if self.stride == 2 and not self.nempty:
      out = octree_pad(out, octree, depth-1)

    if self.use_bias:
      out += self.bias
    return out""")],
    'a depth-wise convolution with stride 2, a bias that is not 0, and nempty=False',
    'the rows of empty parents receive the bias, unlike the restricted full convolution',
    '''
o = mk(torch.rand(30, 3) * 1.8 - 0.9)
c = OctreeDWConv(2, [2], stride=2, use_bias=True); c.bias.data.fill_(1.5)
y = c(torch.randn(int(o.nnum[4]), 2), o, 4)
assert (y[~o.nempty_mask(3)] == 0).all()
''')

add('b09_pool_pad_value', 'C14',
    [('ocnn/nn/octree_pool.py', "data = octree_pad(data, octree, depth, float('-inf'))", "data = octree_pad(data, octree, depth, -100.0)")],
    'max pooling with nempty=True of values below -100',
    'the padding of the empty siblings wins over the values of the live ones',
    '''
o = mk(torch.rand(30, 3) * 1.8 - 0.9)
n = int(o.nnum_nempty[4])
x = torch.full((n, 1), -250.0)
assert (octree_max_pool(x, o, 4, nempty=True) == -250.0).all()
''')

add('b12_nonuniform_scale', 'C24',
    [('ocnn/octree/points.py', "    non_uniform = (factor != factor[0]).any()", "    non_uniform = factor[0] != factor[2]")],
    'a scale factor with equal x and z but another y',
    'the normals are not transformed by the inverse scale',
    '''
p = Points(torch.rand(5, 3), torch.nn.functional.normalize(torch.rand(5, 3)))
n0 = p.normals.clone()
p.scale(torch.tensor([1.0, 2.0, 1.0]))
e = torch.nn.functional.normalize(n0 / torch.tensor([1.0, 2.0, 1.0]))
assert torch.allclose(p.normals, e, atol=1e-4)
''')

add('b13_inbox_margin', 'C26',
    [('ocnn/dataset.py', "    inbox_mask = points.clip(min=-1, max=1)\n", "    inbox_mask = points.inbox_mask(-1.0, 1.0)\n    points.clip(min=-1, max=1)\n")],
    'a point inside [-1, 1] but within the 0.01 margin of its boundary',
    'the returned mask and the returned points disagree',
    '''
from ocnn.dataset import Transform
t = Transform(4, 2, False, [0, 0, 0], [1, 1, 1], 0.0, False, 0.0, [0, 0, 0])
pts = np.array([[0.1, 0.2, 0.3], [0.995, 0.0, 0.0], [0.4, 0.4, -0.9]], np.float32)
s = t({'points': pts, 'normals': np.ones_like(pts)}, 0)
assert int(s['inbox_mask'].sum()) == s['points'].npt
''')

add('b15_device_nnum', 'C28',
    [('ocnn/octree/octree.py', "    octree.batch_nnum_nempty = self.batch_nnum_nempty.clone()\n", "")],
    'a merged octree moved to another device and asked for its per-sample non-empty counts',
    'batch_nnum_nempty is all zero after the move',
    '''
o = batch([torch.rand(30, 3) * 1.8 - 0.9, torch.rand(9, 3) * 1.8 - 0.9])
m = o.to('meta')
assert (m.batch_nnum_nempty == o.batch_nnum_nempty).all()
''')

add('b16_vote_last_epoch', 'C30',
    [('projects/segmentation.py', "      self.eval_rst[filename] = self.eval_rst.get(filename, 0) + prob_all_pts", "      if self.FLAGS.SOLVER.eval_epoch - 1 > batch['epoch']:\n        self.eval_rst[filename] = self.eval_rst.get(filename, 0) + prob_all_pts\n      else:\n        self.eval_rst[filename] = prob_all_pts + self.eval_rst.pop(filename, 0) * inbox_mask.unsqueeze(1)")],
    'voting over at least two epochs where a point is clipped in the last one',
    'the votes of the earlier epochs are lost for the points clipped in the last epoch',
    '''
import types, tempfile
sys.path.insert(0, os.path.join(os.getcwd(), 'projects'))
import segmentation as S
torch.Tensor.cuda = lambda self, *a, **k: self
Octree.cuda = lambda self, *a, **k: self
Points.cuda = lambda self, *a, **k: self
sol = object.__new__(S.SegSolver)
NS = types.SimpleNamespace
with tempfile.TemporaryDirectory() as tmp:
  sol.logdir = tmp; sol.eval_rst = {}
  sol.FLAGS = NS(SOLVER=NS(eval_epoch=2), DATA=NS(test=NS(depth=3, full_depth=2)), LOSS=NS(mask=-1), MODEL=NS(feature='P', nempty=True))
  sol.model = lambda data, octree, depth, q: torch.zeros(q.shape[0], 2)
  for ep, mask in enumerate([[1, 1, 1], [1, 0, 1]]):
    m = torch.tensor(mask).bool()
    p = Points(torch.rand(int(m.sum()), 3) - 0.5, labels=torch.zeros(int(m.sum())))
    sol.eval_step({'points': [p], 'inbox_mask': [m], 'filename': ['a.npz'], 'epoch': ep})
  r = sol.eval_rst['a.npz']
  assert torch.allclose(r, torch.tensor([[1., 1.], [.5, .5], [1., 1.]])), r
''')

add('b03_normal_eps', 'C03',
    [('ocnn/octree/octree.py', "self.normals[d] = F.normalize(normals)", "self.normals[d] = F.normalize(normals, eps=1e-2)")],
    'a cell whose normals nearly cancel (sum shorter than 0.01)',
    'the stored normal of such a cell is not of unit length any more',
    '''
n = torch.tensor([[1.0, 0, 0], [-1.0, 0.005, 0]])
o = mk([[0.01, 0.01, 0.01], [0.02, 0.02, 0.02]], normals=n)
assert abs(o.normals[4].norm(dim=1) - 1).max() < 1e-3, o.normals[4]
''')

add('b05_kernel_lut', 'C06',
    [('ocnn/octree/octree.py', "'131': torch.tensor([10, 13, 16], device=device),\n        '113': torch.tensor([12, 13, 14], device=device),", "'113': torch.tensor([10, 13, 16], device=device),\n        '131': torch.tensor([12, 13, 14], device=device),")],
    'a kernel of shape 131 or 113',
    'the y and z offsets of the one-dimensional kernels are exchanged',
    '''
o = init_octree(3, 3, 1)
ng = o.get_neigh(3, '131'); x, y, z, b = o.xyzb(3)
i = int(((x == 3) & (y == 3) & (z == 3)).nonzero())
assert [int(y[j]) for j in ng[i]] == [2, 3, 4]
''')

add('b10_interp_norm', 'C19',
    [('ocnn/nn/octree_interp.py', "  output = torch.div(output, norm + 1e-12)", "  output = torch.div(output, norm + 1e-4)")],
    'a query point whose existing neighbour cells carry a trilinear weight of the order of 1e-4',
    'the interpolated value is not renormalised there',
    '''
o = mk([[0.05, 0.05, 0.05]])
n = int(o.nnum_nempty[4])
x = torch.ones(n, 1)
pts = (torch.tensor([[0.05, 0.05, 0.05, 0.0]]) + 1) * 8; pts[0, :3] = pts[0, :3].floor() + 0.5 + 0.96; pts[0, 3] = 0
y = octree_linear_pts(x, o, 4, pts, nempty=True)
assert abs(y - 1).max() < 0.1, y
''')

add('b11_groupnorm_var', 'C20',
    [('ocnn/nn/octree_norm.py', "    var = scatter_add(out**2, batch_id, dim=0, dim_size=batch_size) * inv_count\n    var = self._adjust_for_group(var)\n", "    var = scatter_add(data**2, batch_id, dim=0, dim_size=batch_size) * inv_count\n    var = self._adjust_for_group(var) - mean**2\n")],
    'features whose mean is large compared with their spread',
    'the variance is computed with catastrophic cancellation',
    '''
o = batch([torch.rand(30, 3) * 1.8 - 0.9])
n = int(o.nnum[4]); x = torch.randn(n, 4) + 5000
y = OctreeGroupNorm(4, 2)(x, o, 4)
z = torch.nn.functional.group_norm(x.double().t().unsqueeze(0), 2).squeeze(0).t().float()
assert torch.allclose(y, z, atol=2e-2), (y - z).abs().max()
''')

add('b14_drop_inplace', 'C22',
    [('ocnn/nn/octree_drop.py', "    output = data * drop_mask\n", "    output = data.mul_(drop_mask)\n")],
    'drop path in training mode and a later use of its input',
    'the input features are overwritten by the dropped ones',
    '''
o = batch([torch.rand(30, 3) * 1.8 - 0.9] * 4)
x = torch.rand(int(o.nnum[4]), 2) + 1; y = x.clone()
m = OctreeDropPath(0.5); m.train(); m(x, o, 4)
assert (x == y).all()
''')

add('b17_move_shares_nnum', 'C28',
    [('ocnn/octree/octree.py', "    octree.nnum_nempty = self.nnum_nempty.clone()\n", "    octree.nnum_nempty = self.nnum_nempty\n")],
    'splitting or growing an octree after it was moved to another device',
    'the counts of the original octree change as well',
    '''
o = init_octree(4, 2, 1)
a = o.nnum_nempty.clone()
m = o.to('meta')
m.nnum_nempty[2] = 5
assert (o.nnum_nempty == a).all()
''')

add('b18_search_batch', 'C07',
    [('ocnn/octree/octree.py', "    found = key[idx[valid]] == query[valid]\n", "    found = ((key[idx[valid]] - query[valid]) & ((1 << 48) - 1)) == 0\n")],
    'a query beyond the last cell of its sample, at the position of the first cell of the next sample',
    'the cell of the wrong batch element is found',
    '''
o = batch([[[-0.9, -0.9, -0.9]], [[0.9, 0.9, 0.9]]], full=0)
x, y, z, b = o.xyzb(4, True)
q = torch.tensor([[int(x[1]), int(y[1]), int(z[1]), 0]])
assert o.search_xyzb(q, 4, True).tolist() == [-1]
''')

add('b19_col2octree_rows', 'C09',
    [('ocnn/nn/octree2col.py', "  out = scatter_add(data[valid], neigh[valid], dim=0, dim_size=dim_size)\n", "  out = scatter_add(data[valid], neigh[valid], dim=0)\n")],
    'a kernel that does not reach the last node of the layer (stride 2 with kernel 311)',
    'the result has fewer rows than the layer has nodes',
    '''
o = mk(torch.rand(30, 3) * 1.8 - 0.9)
c = octree2col(torch.rand(int(o.nnum[4]), 2), o, 4, '311', 2)
assert col2octree(c, o, 4, '311', 2).shape[0] == o.nnum[4]
''')

add('b20_chunk_rest', 'C10',
    [('ocnn/nn/octree_conv.py', "self.buffer_h = (self.buffer_h + self.buffer_n - 1) // self.buffer_n", "self.buffer_h = self.buffer_h // self.buffer_n")],
    'more than one chunk and a row count that is not a multiple of the number of chunks',
    'the last rows of the layer are never computed (zero)',
    '''
o = mk(torch.rand(30, 3) * 1.8 - 0.9)
n = int(o.nnum[4]); k = 27 * 2
c = OctreeConv(2, 3, max_buffer=k * 37); c.weights.data.fill_(1.0)
y = c(torch.ones(n, 2), o, 4)
assert (y != 0).all()
''')

add('b21_deconv_wgrad', 'C12',
    [('ocnn/nn/octree_conv.py', "      grad_w = octree_deconv.weight_gemm(grad_w, grad, data)", "      grad_w = octree_deconv.weight_gemm(grad_w, data, grad)")],
    'the weight gradient of a deconvolution with stride 1 and equal input and output channels',
    'the gradient belongs to the point-reflected kernel',
    '''
o = mk(torch.rand(30, 3) * 1.8 - 0.9); n = int(o.nnum[4])
x = torch.randn(n, 2)
a = OctreeDeconv(2, 2); b = OctreeDeconv(2, 2, direct_method=True); b.weights.data.copy_(a.weights.data)
w = torch.randn(n, 2)
for m in (a, b): (m(x, o, 4) * w).sum().backward()
assert torch.allclose(a.weights.grad, b.weights.grad, rtol=1e-3, atol=1e-3)
''')

add('b22_globalpool_rows', 'C15',
    [('ocnn/nn/octree_pool.py', "  count = scatter_add(ones, batch_id, dim=0, dim_size=batch_size)\n", "  count = scatter_add(ones, batch_id, dim=0)\n"),
     ('ocnn/nn/octree_pool.py', "  out = scatter_add(data, batch_id, dim=0, dim_size=batch_size)\n", "  out = scatter_add(data, batch_id, dim=0)\n")],
    'a last batch element without any node at the pooled depth',
    'the pooled result has fewer rows than there are samples',
    '''
o = init_octree(3, 2, 2)
s = torch.zeros(128, dtype=torch.int32); s[3] = 1
o.octree_split(s, 2); o.octree_grow(3)
assert octree_global_pool(torch.rand(8, 2), o, 3).shape[0] == 2
''')

add('b23_align_int', 'C17',
    [('ocnn/nn/octree_align.py', "  found = key[idx] == query\n", "  found = (key[idx] - query).int() == 0\n")],
    'a cell missing in the source whose next source key lies in a later batch element at the same position',
    'the row of another batch element is taken',
    '''
a = batch([[[-0.9, -0.9, -0.9]], [[0.9, 0.9, 0.9]]], full=0)
q = batch([[[-0.9, -0.9, -0.9], [0.9, 0.9, 0.9]], [[0.9, 0.9, 0.9]]], full=0)
v = torch.tensor([[1.], [2.]])
assert octree_align(v, a, q, 4, nempty=True).view(-1).tolist() == [1, 0, 2]
''')

add('b24_nearest_bound', 'C18',
    [('ocnn/nn/octree_interp.py', "    bound = torch.logical_and(pts[:, :3] >= 0, pts[:, :3] < 2**depth).all(1)\n", "    bound = torch.logical_and(pts[:, :3] >= 0, pts[:, :3] <= 2**depth).all(1)\n")],
    'a query point exactly on the upper face of the volume, with bounds checked',
    'the value of the cell on the opposite side is returned',
    '''
o = mk(torch.rand(400, 3) * 2 - 1, depth=2, full=2); n = int(o.nnum[2])
p = torch.tensor([[4.0, 1.5, 1.5, 0.0]])
assert (octree_nearest_pts(torch.ones(n, 1), o, 2, p, bound_check=True) == 0).all()
''')

add('b25_drop_nan', 'C21',
    [('ocnn/nn/octree_drop.py', "    if keep_prob > 0.0 and self.scale_by_keep:\n", "    if self.scale_by_keep:\n")],
    'drop probability exactly 1 in training mode',
    'dropped rows become NaN',
    '''
o = batch([torch.rand(30, 3) * 1.8 - 0.9] * 2)
x = torch.rand(int(o.nnum[4]), 2)
m = OctreeDropPath(1.0); m.train()
assert (m(x, o, 4) == 0).all()
''')

add('b26_norm_count', 'C23',
    [('ocnn/nn/octree_norm.py', "    count = scatter_add(ones, batch_id, dim=0, dim_size=batch_size)\n", "    count = scatter_add(ones, batch_id, dim=0, dim_size=batch_size)\n    count = count.mean(dim=0, keepdim=True).expand_as(count)\n")],
    'a batch of samples with different node counts',
    'the statistics of a sample are divided by the average size of the batch',
    '''
a, b = torch.rand(30, 3) * 1.8 - 0.9, torch.rand(4, 3) * 1.8 - 0.9
o1, o2 = batch([a], full=0), batch([a, b], full=0)
n = int(o1.nnum[4]); x = torch.randn(n, 4)
m = OctreeGroupNorm(4, 2)
y = m(torch.cat([x, torch.randn(int(o2.nnum[4]) - n, 4)]), o2, 4)[:n]
assert torch.allclose(m(x, o1, 4), y, atol=1e-4)
''')

add('b27_slice_batch_id', 'C25',
    [('ocnn/octree/points.py', "    if self.batch_id is not None:\n      out.batch_id = self.batch_id[mask]\n    return out", "    if self.batch_id is not None and self.batch_size > 1:\n      out.batch_id = self.batch_id[mask]\n    return out")],
    'slicing or clipping a cloud of batch size 1 that carries batch indices',
    'the batch indices are lost',
    '''
p = Points(torch.rand(4, 3) - 0.5, batch_id=torch.zeros(4, 1))
p.clip()
assert p.batch_id is not None
''')

add('b28_i2s_split', 'C27',
    [('ocnn/models/image2shape.py', "        split = logit.argmax(1).int()\n", "        split = (logit[:, 1] > 0).int()\n")],
    'split logits whose two entries have the same sign',
    'the octree is grown by the sign of the second logit, not by the arg-max',
    '''
m = ocnn.models.Image2Shape(4, 4, 2, code_channel=4); m.eval()
with torch.no_grad():
  for p in m.predict: p[1].linear.bias.copy_(torch.tensor([1.0, 3.0]) - 5)
  code = torch.randn(64, 4)
  out = m.decode_code(code)
o = out['octree_out']
for d in range(2, 5):
  s = out['logits'][d].argmax(1)
  assert int(o.nnum_nempty[d]) == max(1, int(s.sum())), d
''')

add('b29_hrnet_upsample', 'C29',
    [('ocnn/models/hrnet.py', "ocnn.nn.OctreeUpsample(method='nearest', nempty=nempty)", "ocnn.nn.OctreeUpsample(nempty=nempty)")],
    'an HRNet with at least two stages',
    'the branches are joined by linear instead of nearest upsampling',
    '''
t = ocnn.models.hrnet.TransFunc(4, 4)
o = batch([torch.rand(60, 3) * 1.8 - 0.9])
x = torch.randn(int(o.nnum[3]), 4)
e = x[o.nempty_mask(3)].repeat_interleave(8, 0)
assert torch.allclose(t(x, o, 3, 4), e, atol=1e-5)
''')

add('b30_resize_first', 'C31',
    [('ocnn/utils.py', "    list_in.append(list_in[-1])", "    list_in.append(list_in[0])")],
    'a kernel size given with two different values',
    'the list is completed with its first instead of its last value',
    '''
assert ocnn.utils.resize_with_last_val([3, 1]) == [3, 1, 1]
''')

add('b31_label_lstrip', 'C32',
    [('projects/datascts/semantic_kitti.py', "    name = name.replace('moving-', '')", "    name = name.lstrip('moving-')")],
    'points labelled motorcycle, motorcyclist, other-vehicle, other-ground or their moving variants',
    'lstrip removes characters, not the prefix: these classes are mapped to 0',
    '''
sys.path.insert(0, os.path.join(os.getcwd(), 'projects'))
from datascts import semantic_kitti as K
m = K.get_label_map()
assert m[255] == m[32] == K.kept_labels.index('motorcyclist') + 1
''')

add('b32_normalize_inplace', 'C33',
    [('ocnn/octree/points.py', "    self.points = (self.points - center) * (2.0 * scale / box_size)", "    self.points -= center\n    self.points *= 2.0 * scale / box_size")],
    'a sample that is transformed twice (kept in memory over two epochs)',
    'the loaded arrays are normalised in place, so the second transform starts from other data',
    '''
sys.path.insert(0, os.path.join(os.getcwd(), 'projects'))
from datascts import seg_shapenet as K
a = np.random.rand(20, 3).astype(np.float32) * 7; s = {'points': a, 'normals': a.copy(), 'labels': np.zeros(20, np.int32)}
b = a.copy(); t = object.__new__(K.ShapeNetTransform)
t.preprocess(s, 0)
assert (s['points'] == b).all()
''')

add('b33_filename_dot', 'C34',
    [('projects/autoencoder.py', "      pos = filename.rfind('.')", "      pos = filename.find('.')")],
    'file names with a dot before the suffix',
    'the outputs of such samples are written to another name and may overwrite each other',
    '''
import types, tempfile
sys.path.insert(0, os.path.join(os.getcwd(), 'projects'))
import autoencoder as A
Octree.cuda = lambda self, *a, **k: self
sol = object.__new__(A.AutoEncoderSolver)
o = batch([[[0.1, 0.2, 0.3]], [[0.4, 0.5, 0.6]]]); o.features[4] = torch.rand(2, 4)
sol.model = lambda octree, update_octree: {'octree_out': o}
with tempfile.TemporaryDirectory() as tmp:
  sol.logdir = tmp
  ps = [Points(torch.rand(3, 3), torch.rand(3, 3)) for _ in range(2)]
  sol.eval_step({'octree': o, 'points': ps, 'filename': ['m/v1.0.ply', 'm/v1.1.ply']})
  assert sorted(os.listdir(tmp + '/m')) == ['v1.0.in.xyz', 'v1.0.out.xyz', 'v1.1.in.xyz', 'v1.1.out.xyz'], os.listdir(tmp + '/m')
''')

add('b34_centre', 'C04',
    [('ocnn/octree/octree.py', "      xyz = torch.stack([x, y, z], dim=1) + 0.5\n\n    # normalize xyz", "      xyz = torch.stack([x, y, z], dim=1).float()\n\n    # normalize xyz")],
    'exporting an octree without stored points (predicted by a network)',
    'the exported points are the corners of the cells, not their centres',
    '''
o = init_octree(2, 2, 1)
p = o.to_points(rescale=False)
assert (p.points.frac() == 0.5).all()
''')

add('b35_deconv_bias', 'C11',
    [('ocnn/nn/octree_conv.py', "      col = torch.mm(data, self.weights.flatten(0, 1).t())\n      col = col.view(col.shape[0], self.kdim, -1)\n", "      col = torch.mm(data, self.weights.flatten(0, 1).t())\n      if self.use_bias: col = col + self.bias.repeat(self.kdim) / self.kdim\n      col = col.view(col.shape[0], self.kdim, -1)\n"),
     ('ocnn/nn/octree_conv.py', "          self.max_buffer)\n\n    if self.use_bias:\n      out += self.bias\n    return out", "          self.max_buffer)\n\n    if self.use_bias and not self.direct_method:\n      out += self.bias\n    return out")],
    'a direct-method deconvolution with a bias that is not zero',
    'nodes that are reached by fewer kernel offsets receive less than the bias',
    '''
o = mk(torch.rand(30, 3) * 1.8 - 0.9); n = int(o.nnum[4])
m = OctreeDeconv(2, 2, use_bias=True, direct_method=True); m.bias.data.fill_(27.0)
y = m(torch.zeros(n, 2), o, 4)
assert torch.allclose(y, torch.full_like(y, 27.0))
''')
