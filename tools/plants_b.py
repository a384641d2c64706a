import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plants_a import H, OCT
P = []
def add(id, prop, edits, needs, breaks, demo):
  P.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=H + OCT + demo))
PLANTS = P
O, PT, U = 'ocnn/octree/octree.py', 'ocnn/octree/points.py', 'ocnn/utils.py'
SEG = 'projects/segmentation.py'
# runs a project module (thsolver is installed) from /repo/projects
PRJ = "sys.path.insert(0, os.path.join(os.getcwd(), 'projects'))\nimport types, tempfile\ntorch.Tensor.cuda = lambda self, *a, **k: self\nocnn.octree.Octree.cuda = lambda self, *a, **k: self\nocnn.octree.Points.cuda = lambda self, *a, **k: self\n"

add('c06_keep_old_table', 'C08',
    [(O, "    # update children\n    self.children[depth] = torch.arange(\n        nnum, dtype", "    # update children\n    if self.children[depth] is None or len(self.children[depth]) != nnum: self.children[depth] = torch.arange(\n        nnum, dtype")],
    'growing a layer again with the same number of nodes after it had been split',
    'the old split of the layer survives a new growth',
    '''
o = init_octree(4, 2, 1)
s = torch.zeros(64, dtype=torch.int32); s[3] = 1
o.octree_split(s, 2); o.octree_grow(3)
o.octree_split(torch.tensor([1, 0, 0, 0, 0, 0, 0, 0], dtype=torch.int32), 3)
s = torch.zeros(64, dtype=torch.int32); s[9] = 1
o.octree_split(s, 2); o.octree_grow(3)
assert o.children[3].tolist() == list(range(8)), o.children[3]
''')

add('c08_mask_cache', 'C22',
    [(O, "    return self.children[depth] >= 0\n", "    if not hasattr(self, '_mask'): self._mask = {}\n    key = (depth, len(self.children[depth]), int(self.nnum_nempty[depth]))\n    if key not in self._mask: self._mask[key] = self.children[depth] >= 0\n    return self._mask[key]\n")],
    'two splits of one layer with the same number of non-empty nodes, with a query in between',
    'the mask of the first split is returned after the second one',
    '''
o = init_octree(3, 1, 1)
a = torch.tensor([1, 0, 0, 1, 0, 0, 0, 0], dtype=torch.int32); b = torch.tensor([0, 1, 0, 0, 0, 0, 1, 0], dtype=torch.int32)
o.octree_split(a, 1); assert o.nempty_mask(1).tolist() == [x == 1 for x in a.tolist()]
o.octree_split(b, 1); assert o.nempty_mask(1).tolist() == [x == 1 for x in b.tolist()]
''')

add('c07_search_cache', 'C07',
    [(O, "    key = self.key(depth, nempty)\n    # `torch", "    if not hasattr(self, '_sorted'): self._sorted = {}\n    if (depth, nempty) not in self._sorted: self._sorted[(depth, nempty)] = self.key(depth, nempty)\n    key = self._sorted[(depth, nempty)]\n    # `torch")],
    'searching a layer, changing the octree, searching the layer again',
    'the search uses the keys the layer had at the first search',
    '''
o = init_octree(4, 2, 1)
s = torch.zeros(64, dtype=torch.int32); s[:2] = 1
o.octree_split(s, 2); o.octree_grow(3)
q = torch.tensor([[0, 0, 0, 0], [7, 7, 7, 0]])
assert o.search_xyzb(q, 3).tolist() == [0, -1]
s = torch.zeros(64, dtype=torch.int32); s[63] = 1
o.octree_split(s, 2); o.octree_grow(3)
assert o.search_xyzb(q, 3).tolist() == [-1, 7], o.search_xyzb(q, 3)
''')

add('c10_neigh_cache', 'C10',
    [('ocnn/nn/octree_conv.py', "    self.neigh = octree.get_neigh(\n        self.neigh_depth, self.kernel, self.stride, self.nempty)", "    ck = (self.neigh_depth, self.kernel, self.stride)\n    cache = octree.__dict__.setdefault('_neigh_cache', {})\n    if self.nempty or ck not in cache: cache[ck] = octree.get_neigh(\n        self.neigh_depth, self.kernel, self.stride, self.nempty)\n    self.neigh = cache[ck]")],
    'a convolution over the non-empty nodes followed by one over all nodes of the same layer',
    'the table remapped for the non-empty nodes is reused for all nodes',
    '''
m = mk([[0.1, 0.2, 0.3], [-0.5, 0.6, -0.7]], 3, 1)
conv = OctreeConv(2, 2, [3], 1, False)
x = torch.randn(int(m.nnum[3]), 2)
a = conv(x, m, 3)
OctreeConv(2, 2, [3], 1, True)(torch.randn(int(m.nnum_nempty[3]), 2), m, 3)
b = conv(x, m, 3)
assert a.shape == b.shape and torch.allclose(a, b)
''')

add('c15_big_sample', 'C15',
    [('ocnn/nn/octree_pool.py', "  out = out / count\n", "  out = out / count.clamp(max=4096)\n")],
    'global pooling of a sample with more than 4096 nodes',
    'the mean is divided by 4096 instead of the number of nodes',
    '''
o = init_octree(5, 5, 1)
x = torch.ones(int(o.nnum[5]), 1)
assert torch.allclose(octree_global_pool(x, o, 5), torch.ones(1, 1))
''')

add('c23_small_sample', 'C23',
    [('ocnn/nn/octree_pool.py', "  count[count < 1] = 1  #", "  count[count * 64 < count.max()] = 1  #")],
    'a batch in which one sample has more than 64 times the nodes of another',
    'the global feature of the small sample is a sum instead of a mean',
    '''
g = torch.Generator().manual_seed(1)
big = torch.rand(900, 3, generator=g) * 2 - 1
m = batch([big, torch.tensor([[0.1, 0.1, 0.1], [0.5, 0.5, 0.5], [-0.4, 0.1, 0.2]])], 4, 1)
x = torch.ones(int(m.nnum_nempty[4]), 1)
assert torch.allclose(octree_global_pool(x, m, 4, True), torch.ones(2, 1)), octree_global_pool(x, m, 4, True)
''')

add('c28_batch_counts', 'C28',
    [(O, "    octree.batch_nnum = self.batch_nnum.clone()\n", "    octree.batch_nnum = self.batch_nnum\n")],
    'moving a merged octree to another device and then writing the per-sample counts of one of the two',
    'the per-sample counts of the copy are the very tensor of the original',
    '''
m = batch([[[0.1, 0.2, 0.3]], [[-0.5, 0.2, 0.3]]])
c = m.to('cpu:0'); before = m.batch_nnum.clone()
c.batch_nnum += 7
assert (m.batch_nnum == before).all()
''')

add('c31_cumsum_long', 'C31',
    [(U, "    size = list(data.size())\n    size[dim] = 1\n    zeros = out.new_zeros(size)\n    out = torch.cat([zeros, out], dim)\n", "    size = list(data.size())\n    size[dim] = 1\n    zeros = data.new_zeros(size)\n    out = torch.cat([zeros, out], dim).to(data.dtype if data.dtype == torch.uint8 else out.dtype)\n")],
    'an exclusive cumulative sum of uint8 data which exceeds 255',
    'the sums wrap around at 256',
    '''
y = ocnn.utils.cumsum(torch.full((300,), 1, dtype=torch.uint8), 0, True)
assert int(y[-1]) == 300, y[-1]
''')

add('c25_clip_all', 'C25',
    [(PT, "    self.__dict__.update(tmp.__dict__)\n", "    self.__dict__.update({k: v for k, v in tmp.__dict__.items() if v is not None})\n")],
    'clipping a merged batch of clouds (its per-sample counts become invalid)',
    'the per-sample counts from before the clipping survive it',
    '''
p = merge_points([Points(torch.tensor([[0.1, 0.2, 0.3], [2., 2., 2.]])), Points(torch.tensor([[0.5, 0.5, 0.5]]))])
p.clip()
assert p.npt == 2 and (p.batch_npt is None or p.batch_npt.tolist() == [1, 1]), p.batch_npt
''')

add('c30_skip_existing', 'C30',
    [(SEG, "        if not os.path.exists(curr_folder): os.makedirs(curr_folder)\n        np.savez(full_filename, prob", "        if os.path.exists(full_filename): continue\n        if not os.path.exists(curr_folder): os.makedirs(curr_folder)\n        np.savez(full_filename, prob")],
    'an evaluation into a log folder which holds the result of an earlier one',
    'the file keeps the votes of the earlier evaluation',
    PRJ + '''
from segmentation import SegSolver
with tempfile.TemporaryDirectory() as tmp:
  for k in (1, 2):
    s = SegSolver.__new__(SegSolver)
    s.logdir, s.eval_rst = tmp, {}
    s.FLAGS = types.SimpleNamespace(SOLVER=types.SimpleNamespace(eval_epoch=1), DATA=types.SimpleNamespace(test=None))
    s.process_batch = lambda b, f: b
    s.predict = lambda b: torch.tensor([[float(k), 0.0]])
    s.model_forward = lambda b: (s.predict(b), torch.zeros(1))
    pts = Points(torch.zeros(1, 3)); pts.batch_npt = torch.tensor([1])
    s.eval_step({'points': pts, 'inbox_mask': [torch.tensor([True, False])], 'filename': ['a/b.ply'], 'epoch': 0})
    got = np.load(os.path.join(tmp, 'a/b.eval.npz'))['prob']
    want = torch.softmax(torch.tensor([[float(k), 0.0]]), 1).numpy()
    assert np.allclose(got[:1], want) and (got[1] == 0).all(), (k, got)
''')

add('c30_union_valid', 'C30',
    [(SEG, "      valid = torch.sum(lk.any()) > 0\n", "      valid = torch.sum(torch.logical_or(pk, lk).any()) > 0\n")],
    'a class which is predicted but does not occur in the labels',
    'the absent class enters the mean IoU of the shape as 0',
    PRJ + '''
from segmentation import SegSolver
s = SegSolver.__new__(SegSolver)
logit = torch.tensor([[5., 0, 0], [5., 0, 0], [0, 0, 5.]])
iou = s.IoU_per_shape(logit, torch.tensor([0, 0, 0]), 3)[0]
assert abs(float(iou) - 2 / 3) < 1e-4, iou
''')

add('c37_full_depth', 'C37',
    [(SEG, "      octree = ocnn.octree.Octree(flags.depth, flags.full_depth)\n", "      octree = ocnn.octree.Octree(flags.depth, min(flags.full_depth, 2))\n")],
    'a segmentation run whose configuration asks for full_depth 3 or more',
    'the octrees of the training batches are built with another full_depth than configured',
    PRJ + '''
from segmentation import SegSolver
s = SegSolver.__new__(SegSolver)
b = s.process_batch({'points': [Points(torch.tensor([[0.1, 0.2, 0.3]]))]}, types.SimpleNamespace(depth=5, full_depth=3))
assert b['octree'].full_depth == 3 and int(b['octree'].nnum[3]) == 512
''')

add('c38_bigger_batch', 'C38',
    [(O, "    assert point_cloud.batch_size == self.batch_size, 'Inconsistent batch_size'", "    assert point_cloud.batch_size <= self.batch_size, 'Inconsistent batch_size'")],
    'building an octree of batch size 2 from a cloud of batch size 1',
    'the call is accepted although the two disagree',
    '''
o = Octree(3, 1, batch_size=2)
try: o.build_octree(Points(torch.zeros(1, 3), batch_id=torch.zeros(1, 1).long(), batch_size=1))
except Exception: sys.exit(0)
sys.exit(1)
''')

add('c38_more_rows', 'C38',
    [('ocnn/nn/octree_conv.py', "    check = tuple(data.shape) == self.in_shape", "    check = data.shape[0] >= self.in_shape[0] and data.shape[1] == self.in_shape[1]")],
    'a convolution given the features of a larger layer than the one named',
    'a tensor with too many rows is accepted and the surplus ignored',
    '''
m = mk([[0.1, 0.2, 0.3]], 3, 1)
try: OctreeConv(2, 2, [3])(torch.zeros(int(m.nnum[3]) + 8, 2), m, 3)
except Exception: sys.exit(0)
sys.exit(1)
''')

add('c35_chunk_upper', 'C35',
    [('projects/tools/seg_scannet.py', "        inbox_mask = (vertices <= cmax) & (vertices >= cmin)\n", "        inbox_mask = (vertices < cmax) & (vertices >= cmin)\n")],
    'cutting a scene whose extent is a multiple of the stride (points on the upper face)',
    'the points on the upper faces of the scene belong to no chunk',
    '''
import types, pathlib, tempfile
src = open('projects/tools/seg_scannet.py').read()
for n in ('wget',): sys.modules.setdefault(n, types.ModuleType(n))
sys.argv = ['x']
ns = {'__name__': 'tool'}
exec(compile(src, 'seg_scannet.py', 'exec'), ns)
with tempfile.TemporaryDirectory() as tmp:
  n = 4000
  g = np.random.RandomState(0)
  v = g.rand(n, 3) * [15, 4, 4]; v[0] = 0; v[1] = [15, 4, 4]
  pc = np.concatenate([v, np.zeros((n, 7))], 1)
  v2 = g.rand(3500, 3) * [10, 4, 4]
  pc = np.concatenate([pc, np.concatenate([v2 + [5, 0, 0], np.zeros((3500, 7))], 1)], 0)
  pc[-3500:, :3] = np.minimum(pc[-3500:, :3], [15, 4, 4])
  ns['generate_chunks'](pathlib.Path(tmp) / 'scene.ply', pc)
  seen = np.zeros(len(pc), bool)
  for f in sorted(pathlib.Path(tmp).glob('*.npy')): seen |= np.load(f)
  assert seen[1], 'the extreme point is in no chunk'
''')

add('c36_upgrade_nested', 'C36',
    [('projects/tools/upgrade_ckpt.py', "    last_dim = 8 if 'downsample' in key or 'upsample' in key else 27\n", "    last_dim = 8 if key.startswith(('downsample', 'upsample')) else 27\n")],
    'a checkpoint whose down-sampling layers sit inside another module (a key like module.downsample.0.conv.weight)',
    'the weights of the nested 2x2x2 layers are reshaped as 3x3x3 kernels',
    '''
import subprocess, tempfile
with tempfile.TemporaryDirectory() as tmp:
  f = os.path.join(tmp, 'a.pth'); w = torch.arange(27 * 8 * 4).float().view(4, 27 * 8)
  torch.save({'net.downsample.0.conv.weight': w.view(4, 27, 8)}, f)
  subprocess.run([sys.executable, 'projects/tools/upgrade_ckpt.py', f], check=True, stdout=subprocess.DEVNULL)
  out = torch.load(os.path.join(tmp, 'a.upgrade.pth'))
  y = out['net.downsample.0.conv.weight']
  assert tuple(y.shape) == (8, 27, 4), y.shape
''')

add('c34_batch_points', 'C34',
    [('projects/autoencoder.py', "    displacement = signal[:, 3:]\n", "    displacement = signal[:, 3:].clamp(-0.5, 0.5)\n")],
    'a predicted displacement larger than half a voxel',
    'the decoded points are pulled back into their voxels',
    PRJ + '''
from autoencoder import AutoEncoderSolver
s = AutoEncoderSolver.__new__(AutoEncoderSolver)
m = mk([[0.1, 0.2, 0.3]], 4, 1)
m.features[4] = torch.tensor([[1., 0., 0., 0.8]])
p = s.octree2pts(m)[0]
x = float((m.xyzb(4, True)[0][0] + 0.5 + 0.8) / 8 - 1)
assert abs(float(p[0, 0]) - x) < 1e-6, (p, x)
''')

add('c05_merge_counts', 'C05',
    [(O, "  octree.nnum_nempty = torch.sum(batch_nnum_nempty, dim=1)\n", "  octree.nnum_nempty = torch.sum(batch_nnum_nempty, dim=1, dtype=torch.int16).int()\n")],
    'merging octrees with more than 32767 non-empty nodes in one layer',
    'the number of non-empty nodes wraps around',
    '''
o = init_octree(5, 5, 1)
m = merge_octrees([o, o])
assert int(m.nnum_nempty[5]) == 65536, m.nnum_nempty
''')
