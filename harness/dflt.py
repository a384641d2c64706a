"""Documented defaults.  The drivers write every argument out; this module makes the calls sometimes
leave out the arguments whose value is the documented default (or pass them by name), so that the
defaults themselves are part of what is judged.  It only changes how a call is written, never what it
means, and no expected value is computed here."""
import functools, random
RNG = random.Random(1)
MB = int(2e8)
CONV = 'in_channels out_channels kernel_size=[3] stride=1 nempty=False'
REQ = object()

CLASSES = [
 ('ocnn.nn', 'OctreeConv', CONV + ' direct_method=False use_bias=False max_buffer=MB'),
 ('ocnn.nn', 'OctreeDeconv', CONV + ' direct_method=False use_bias=False max_buffer=MB'),
 ('ocnn.nn', 'OctreeDWConv', 'in_channels kernel_size=[3] stride=1 nempty=False use_bias=False max_buffer=MB'),
 ('ocnn.nn', 'OctreeGroupConv', CONV + ' use_bias=False group=1'),
 ('ocnn.nn', 'Octree2Voxel', 'nempty=False'),
 ('ocnn.nn', 'OctreeDropPath', 'drop_prob=0.0 nempty=False scale_by_keep=True'),
 ('ocnn.nn', 'OctreeInterp', "method='linear' nempty=False bound_check=False rescale_pts=True"),
 ('ocnn.nn', 'OctreeUpsample', "method='linear' nempty=False"),
 ('ocnn.nn', 'OctreeGroupNorm', 'in_channels group nempty=False'),
 ('ocnn.nn', 'OctreeInstanceNorm', 'in_channels nempty=False'),
 ('ocnn.nn', 'OctreeMaxPool', 'nempty=False return_indices=False'),
 ('ocnn.nn', 'OctreeMaxUnpool', 'nempty=False'),
 ('ocnn.nn', 'OctreeGlobalPool', 'nempty=False'),
 ('ocnn.modules', 'OctreeConvBn', CONV), ('ocnn.modules', 'OctreeConvBnRelu', CONV),
 ('ocnn.modules', 'OctreeDeconvBnRelu', CONV),
 ('ocnn.modules', 'Conv1x1', 'in_channels out_channels use_bias=False'),
 ('ocnn.modules', 'InputFeature', "feature='NDF' nempty=False"),
 ('ocnn.modules', 'OctreeResBlock', 'in_channels out_channels stride=1 bottleneck=4 nempty=False'),
 ('ocnn.modules', 'OctreeResBlock2', 'in_channels out_channels stride=1 bottleneck=1 nempty=False'),
 ('ocnn.modules', 'OctreeResBlocks', 'in_channels out_channels resblk_num bottleneck=4 nempty=False'),
 ('ocnn.models', 'AutoEncoder', "channel_in channel_out depth full_depth=2 feature='ND' code_channel=64"),
 ('ocnn.models', 'HRNet', "in_channels out_channels stages=3 interp='linear' nempty=False"),
 ('ocnn.models', 'LeNet', 'in_channels out_channels stages nempty=False'),
 ('ocnn.models', 'ResNet', 'in_channels out_channels resblk_num stages nempty=False'),
 ('ocnn.models', 'SegNet', "in_channels out_channels stages interp='linear' nempty=False"),
 ('ocnn.models', 'UNet', "in_channels out_channels interp='linear' nempty=False"),
 ('ocnn.models.ounet', 'OUNet', "channel_in channel_out depth full_depth=2 feature='ND'"),
 ('ocnn.models.image2shape', 'Image2Shape', 'channel_out depth full_depth=2 code_channel=32'),
 ('ocnn.octree', 'Octree', 'depth full_depth=2 batch_size=1'),
 ('ocnn.octree', 'Points', 'points normals=None features=None labels=None batch_id=None batch_size=1'),
 ('ocnn.dataset', 'CollateBatch', 'merge_points=False'),
]
METHODS = [
 ('ocnn.octree', 'Octree', 'key', 'depth nempty=False'),
 ('ocnn.octree', 'Octree', 'xyzb', 'depth nempty=False'),
 ('ocnn.octree', 'Octree', 'batch_id', 'depth nempty=False'),
 ('ocnn.octree', 'Octree', 'octree_grow_full', 'depth update_neigh=True'),
 ('ocnn.octree', 'Octree', 'octree_grow', 'depth update_neigh=True'),
 ('ocnn.octree', 'Octree', 'search_xyzb', 'query depth nempty=False'),
 ('ocnn.octree', 'Octree', 'search_key', 'query depth nempty=False'),
 ('ocnn.octree', 'Octree', 'get_neigh', "depth kernel='333' stride=1 nempty=False"),
 ('ocnn.octree', 'Octree', 'get_input_feature', 'feature nempty=False'),
 ('ocnn.octree', 'Octree', 'to_points', 'rescale=True'),
 ('ocnn.octree', 'Points', 'orient_normal', "axis='x'"),
 ('ocnn.octree', 'Points', 'clip', 'min=-1.0 max=1.0 esp=0.01'),
 ('ocnn.octree', 'Points', 'inbox_mask', 'bbmin=-1.0 bbmax=1.0'),
 ('ocnn.octree', 'Points', 'normalize', 'bbmin bbmax scale=1.0'),
 ('ocnn.octree', 'Points', 'save', "filename info='PNFL'"),
 ('ocnn.models', 'AutoEncoder', 'decoder', 'code octree update_octree=False'),
 ('ocnn.models.ounet', 'OUNet', 'decoder', 'convs octree_in octree_out update_octree=False'),
 ('ocnn.models.ounet', 'OUNet', 'forward', 'octree_in octree_out=None update_octree=False'),
 ('ocnn.models.image2shape', 'Image2Shape', 'decoder', 'code octree update_octree=False'),
 ('ocnn.models.image2shape', 'Image2Shape', 'forward', 'image octree=None update_octree=False'),
 ('ocnn.nn', 'OctreeUpsample', 'forward', 'data octree depth target_depth=None'),
 ('ocnn.nn', 'OctreeDropPath', 'forward', 'data octree depth batch_id=None'),
]
FUNCS = [
 ('ocnn.utils', 'range_grid', "min max device='cpu'"),
 ('ocnn.utils', 'cumsum', 'data dim exclusive=False'),
 ('ocnn.utils', 'scatter_add', 'src index dim=-1 out=None dim_size=None'),
 ('ocnn.utils', 'resize_with_last_val', 'list_in num=3'),
 ('ocnn.utils', 'build_example_octree', 'depth=5 full_depth=2 pt_num=3'),
 ('ocnn.nn', 'octree2col', "data octree depth kernel_size='333' stride=1 nempty=False"),
 ('ocnn.nn', 'col2octree', "data octree depth kernel_size='333' stride=1 nempty=False"),
 ('ocnn.nn', 'octree2voxel', 'data octree depth nempty=False'),
 ('ocnn.nn', 'octree_align', 'value octree octree_query depth nempty=False'),
 ('ocnn.nn', 'octree_nearest_pts', 'data octree depth pts nempty=False bound_check=False'),
 ('ocnn.nn', 'octree_linear_pts', 'data octree depth pts nempty=False bound_check=False'),
 ('ocnn.nn.octree_interp', 'octree_nearest_upsample', 'data octree depth nempty=False'),
 ('ocnn.nn', 'octree_pad', 'data octree depth val=0.0'),
 ('ocnn.nn', 'octree_max_pool', 'data octree depth nempty=False return_indices=False'),
 ('ocnn.nn', 'octree_max_unpool', 'data indices octree depth nempty=False'),
 ('ocnn.nn', 'octree_avg_pool', 'data octree depth kernel stride=2 nempty=False'),
 ('ocnn.nn', 'octree_global_pool', 'data octree depth nempty=False'),
 ('ocnn.octree', 'init_octree', 'depth full_depth=2 batch_size=1'),
 ('ocnn.octree', 'merge_points', 'points update_batch_info=True'),
 ('ocnn.octree', 'xyz2key', 'x y z b=None depth=16'),
 ('ocnn.octree', 'key2xyz', 'key depth=16'),
]

def _sig(s):
  out = []
  for w in s.split():
    if '=' in w:
      n, v = w.split('=', 1); out.append((n, MB if v == 'MB' else eval(v)))
    else: out.append((w, REQ))
  return out

def same(a, d):
  return type(a) is type(d) and a == d

def rewrite(sig, args, kw):
  """Another way to write the same call."""
  k = RNG.random()
  if k < .4 or len(args) > len(sig): return args, kw
  pos = [(n, a) for (n, _), a in zip(sig, args)]
  df = dict(sig)
  kw = {n: v for n, v in kw.items() if not (n in df and df[n] is not REQ and same(v, df[n]))}
  if k < .7:                       # drop trailing defaults
    while pos and df[pos[-1][0]] is not REQ and same(pos[-1][1], df[pos[-1][0]]): pos.pop()
    return tuple(a for _, a in pos), kw
  head = [a for n, a in pos if df[n] is REQ]        # drop every default, name the others
  kw = dict(kw)
  for n, a in pos:
    if df[n] is not REQ and not same(a, df[n]): kw[n] = a
  return tuple(head), kw

def wrap(fn, sig, method):
  @functools.wraps(fn)
  def g(*args, **kw):
    if method:
      a, kw = rewrite(sig, args[1:], kw); a = args[:1] + a
    else: a, kw = rewrite(sig, args, kw)
    return fn(*a, **kw)
  g._verif = True
  return g

def install():
  """Only what is there is wrapped: where a name lives is the code's business."""
  import importlib
  def load(mod):
    try: return importlib.import_module(mod)
    except ImportError: return None
  for mod, c, s in CLASSES:
    cls = getattr(load(mod), c, None)
    if cls is None: continue
    f = cls.__dict__.get('__init__')
    if f is not None and not hasattr(f, '_verif'): cls.__init__ = wrap(f, _sig(s), True)
  for mod, c, m, s in METHODS:
    cls = getattr(load(mod), c, None)
    f = getattr(cls, '__dict__', {}).get(m)
    if callable(f) and not hasattr(f, '_verif'): setattr(cls, m, wrap(f, _sig(s), True))
  for mod, n, s in FUNCS:
    m = load(mod); f = getattr(m, n, None)
    if callable(f) and not hasattr(f, '_verif'): setattr(m, n, wrap(f, _sig(s), False))
