"""Recorder: runs public operations of the code under test and logs one event
per call (arguments, projected results, fingerprints of all live objects).
No expected values are computed here: the TLA+ trace specification is the oracle."""
import os, sys, hashlib, json, traceback
os.environ.setdefault('OMP_NUM_THREADS', '2')
sys.dont_write_bytecode = True
import numpy as np
import torch
import ocnn
import dflt; dflt.install()
from ocnn.octree import Octree, Points, xyz2key, key2xyz, merge_octrees, merge_points, init_octree

REPO = os.environ.get('VERIF_REPO', '/repo')
assert os.path.realpath(ocnn.__file__) == os.path.realpath(REPO + '/ocnn/__init__.py'), ocnn.__file__
torch.set_num_threads(2)

SCALE = 4096
CAP = 1000000000
NONINT = 1999999999
NONFIN = 1999999998
DT = {torch.float32: 'f32', torch.float64: 'f64', torch.float16: 'f16', torch.int64: 'i64',
      torch.int32: 'i32', torch.bool: 'bool', torch.uint8: 'u8', torch.int16: 'i16', torch.int8: 'i8'}

def _enc(a, mode, scale):
  a = np.asarray(a)
  if a.dtype == bool: return a.astype(np.int64)
  if a.dtype.kind in 'iu':
    if mode == 'f': a = a * scale
    return np.clip(a.astype(np.int64), -CAP, CAP)
  a = a.astype(np.float64)
  fin = np.isfinite(a)
  b = np.where(fin, a, 0.0)
  if mode == 'f':
    q = np.clip(np.rint(b * scale), -CAP, CAP).astype(np.int64)
  else:
    r = np.rint(b)
    q = np.where((r == b) & (np.abs(b) <= CAP), r, NONINT).astype(np.int64)
  return np.where(fin, q, NONFIN)

def T(t, mode='i', scale=SCALE):
  """Projection of a tensor: shape, dtype and integer / fixed-point values."""
  if t is None: return {'k': 'none'}
  if isinstance(t, (bool, int)): t = torch.tensor(int(t))
  if isinstance(t, float): t = torch.tensor(t, dtype=torch.float64)
  if isinstance(t, np.ndarray): t = torch.from_numpy(np.ascontiguousarray(t))
  if not isinstance(t, torch.Tensor): return {'k': 'other:' + type(t).__name__}
  d = t.detach().cpu()
  return {'k': 't', 'sh': list(d.shape), 'dt': DT.get(d.dtype, str(d.dtype)),
          'v': _enc(d.numpy(), mode, scale).tolist()}

def limbs(key):
  k = key.detach().cpu().long().numpy().reshape(-1)
  b = np.clip(k >> 48, -CAP, CAP)
  hi = (k >> 24) & 0xffffff
  lo = k & 0xffffff
  return np.stack([b, hi, lo], axis=1).tolist()

OCT_STATE = ('depth', 'full_depth', 'batch_size', 'keys', 'children', 'features', 'normals',
             'points', 'nnum', 'nnum_nempty', 'batch_nnum', 'batch_nnum_nempty')
PTS_STATE = ('points', 'normals', 'features', 'labels', 'batch_id', 'batch_size', 'batch_npt')

def live(i, o):
  """[id, core digest, digests of the neighbour tables ('-' = not constructed)]"""
  nb = []
  if isinstance(o, Octree):
    nb = ['-' if n is None else dig(n) for n in o.neighs]
  return [i, dig(o), nb]

def dig(x, h=None):
  top = h is None
  if top: h = hashlib.md5()
  if isinstance(x, torch.Tensor):
    h.update(str((x.dtype, tuple(x.shape), str(x.device))).encode())
    if x.device.type != 'meta':
      h.update(x.detach().cpu().contiguous().numpy().tobytes())
  elif isinstance(x, np.ndarray):
    h.update(str((x.dtype, x.shape)).encode()); h.update(np.ascontiguousarray(x).tobytes())
  elif isinstance(x, (list, tuple)):
    h.update(b'[%d' % len(x))
    for y in x: dig(y, h)
  elif isinstance(x, dict):
    h.update(b'{%d' % len(x))
    for k in sorted(x, key=str): h.update(str(k).encode()); dig(x[k], h)
  elif isinstance(x, Octree):
    dig([getattr(x, k) for k in OCT_STATE], h)
  elif isinstance(x, Points):
    dig([getattr(x, k) for k in PTS_STATE], h)
  elif isinstance(x, torch.nn.Module):
    dig({k: v for k, v in x.state_dict().items()}, h)
  else:
    h.update(repr(x).encode() if not hasattr(x, '__dict__') else type(x).__name__.encode())
  return h.hexdigest()[:10] if top else None


LAST = [None]

class Rec:
  """One trace."""
  def __init__(self, digests=True):
    self.ev = []
    self.obj = {}; self.mods = {}       # id -> real object
    self.next = 1
    self.digests = digests
    LAST[0] = self

  def new_id(self):
    i = self.next; self.next += 1
    return i

  def call(self, ev, fn, writes=(), args=(), m='s'):
    """fn(ev) performs the call and stores its projection in ev."""
    ev.setdefault('m', m)
    pre = [(n, dig(a)) for n, a in args]
    ev['err'] = ''
    try:
      fn(ev)
    except Exception as ex:                       # noqa
      ev['err'] = '%s: %s' % (type(ex).__name__, str(ex)[:200])
      ev['tb'] = traceback.format_exc()[-600:]
    ev['args'] = [[n, p, dig(a)] for (n, p), (_, a) in zip(pre, args)]
    ev['w'] = list(writes)
    ev['dig'] = [live(i, o) for i, o in self.obj.items()] if self.digests else []
    self.ev.append(ev)
    return ev

  # ---- projections of octrees
  def head(self, o):
    return {'depth': int(o.depth), 'full': int(o.full_depth), 'bs': int(o.batch_size)}

  def snap(self, o, depths=None):
    out = []
    for d in (range(o.depth + 1) if depths is None else depths):
      k = o.keys[d]
      if k is None:
        out.append({'d': d, 'has': False})
        continue
      ch = o.children[d]
      out.append({'d': d, 'has': True, 'nn': int(o.nnum[d]), 'nne': int(o.nnum_nempty[d]),
                  'keys': limbs(k), 'ch': [] if ch is None else ch.detach().cpu().long().tolist()})
    return out

  def sig(self, o):
    d = o.depth
    p = o.points[d]
    if p is None: ph = pf = {'k': 'none'}
    else:
      p = p.detach().double()
      f = torch.floor(p)
      ph, pf = T(f), T(p - f, 'f')
    return {'ph': ph, 'pf': pf, 'nm': T(o.normals[d], 'f'), 'ft': T(o.features[d], 'f')}

  # ---- commands
  def key(self, coords, depth, bmode='tensor', dtype=torch.int64, shape=None, bdt=torch.int64):
    c = torch.tensor(coords, dtype=torch.int64).view(-1, 4)
    b, x, y, z = c.unbind(1)
    x, y, z = [t.to(dtype) for t in (x, y, z)]
    b = b.to(bdt)
    if shape: x, y, z, b = [t.view(shape) for t in (x, y, z, b)]
    bb = b if bmode == 'tensor' else (int(c[0, 0]) if bmode == 'int' else None)
    def f(ev):
      k = xyz2key(x, y, z, bb, depth)
      ev['keys'] = limbs(k) if tuple(k.shape) == tuple(x.shape) else []
      X, Y, Z, B = key2xyz(k, depth)
      ev['dec'] = torch.stack([B, X, Y, Z], -1).view(-1, 4).tolist()
    ev = {'e': 'key', 'c': c.tolist(), 'depth': depth, 'bm': bmode, 'keys': [], 'dec': []}
    return self.call(ev, f, args=[('x', x), ('y', y), ('z', z), ('b', b)])

  def coords(self, pts, depth, unit=4, dtype=torch.float32):
    u = torch.tensor([p[1:] for p in pts], dtype=torch.float64).view(-1, 3)
    return (u / unit * 2.0 ** (1 - depth) - 1.0).to(dtype)

  def make_points(self, pts, depth, bs=1, nrm=None, feat=None, dtype=torch.float32,
                  layout='c', bdim=2, bdtype=None, ndiv=1):
    xyz = self.coords(pts, depth, dtype=dtype)
    n = None if nrm is None else torch.tensor(nrm, dtype=dtype).view(-1, 3) / ndiv   # only directions matter
    f = None if feat is None else torch.tensor(feat, dtype=dtype)
    b = None
    if bs > 1 or bdtype is not None:
      b = torch.tensor([p[0] for p in pts], dtype=bdtype or torch.int64)
      if bdim == 2: b = b.view(-1, 1)
    if layout == 't':        # non-contiguous views
      xyz = xyz.t().contiguous().t()
      n = None if n is None else n.t().contiguous().t()
    elif layout == 's':
      xyz = torch.cat([xyz, xyz], 1)[:, :3]
      f = None if f is None else torch.cat([f, f], 1)[:, :f.shape[1]]
    return Points(xyz, n, f, batch_id=b, batch_size=bs)

  def build(self, pts, depth, full, bs=1, nrm=None, feat=None, points=None, up=0, **kw):
    i = self.new_id()
    ev = {'e': 'build', 'up': up, 'id': i, 'depth': depth, 'full': full, 'bs': bs, 'pts': pts,
          'nrm': nrm or [], 'hn': nrm is not None, 'feat': feat or [],
          'fc': len(feat[0]) if feat else 0}
    pc = points if points is not None else self.make_points(pts, depth, bs, nrm, feat, **kw)
    o = Octree(depth, full, bs)
    self.obj[i] = o
    def f(ev):
      ev['idx'] = T(o.build_octree(pc))
      ev['head'] = self.head(o); ev['snap'] = self.snap(o); ev['sig'] = self.sig(o)
    self.call(ev, f, writes=[i], args=[('cloud', pc)])
    return i

  def merge(self, ids):
    i = self.new_id()
    ev = {'e': 'merge', 'id': i, 'ids': list(ids)}
    def f(ev):
      o = merge_octrees([self.obj[k] for k in ids])
      self.obj[i] = o
      ev['head'] = self.head(o); ev['snap'] = self.snap(o); ev['sig'] = self.sig(o)
      ev['bn'] = T(o.batch_nnum); ev['bne'] = T(o.batch_nnum_nempty)
    self.call(ev, f, writes=[i])
    return i

  def refuse(self, ids):
    """A merge that must be refused."""
    ev = {'e': 'refuse', 'ids': list(ids), 'refused': False}
    def f(ev):
      try: merge_octrees([self.obj[k] for k in ids])
      except Exception: ev['refused'] = True
    self.call(ev, f)

  def init(self, depth, full, bs):
    i = self.new_id()
    def f(ev):
      o = init_octree(depth, full, bs)
      self.obj[i] = o
      ev['head'] = self.head(o); ev['snap'] = self.snap(o)
    self.call({'e': 'init', 'id': i, 'depth': depth, 'full': full, 'bs': bs}, f, writes=[i])
    return i

  def new(self, depth, full, bs):
    i = self.new_id()
    def f(ev):
      o = Octree(depth, full, bs)
      self.obj[i] = o
      ev['head'] = self.head(o)
    self.call({'e': 'new', 'id': i, 'depth': depth, 'full': full, 'bs': bs}, f, writes=[i])
    return i

  def growfull(self, i, d, un=True):
    def f(ev):
      self.obj[i].octree_grow_full(d, un)
      ev['snap'] = self.snap(self.obj[i], range(d + 1))
    self.call({'e': 'growfull', 'id': i, 'd': d, 'un': un}, f, writes=[i])

  def split(self, i, d, flags, dtype=torch.int32):
    t = torch.tensor(flags, dtype=dtype)
    def f(ev):
      self.obj[i].octree_split(t, d)
      ev['snap'] = self.snap(self.obj[i], range(d + 1))
    self.call({'e': 'split', 'id': i, 'd': d, 'flags': list(flags)}, f, writes=[i], args=[('split', t)])

  def grow(self, i, d, un=True):
    def f(ev):
      self.obj[i].octree_grow(d, un)
      ev['snap'] = self.snap(self.obj[i], range(d + 1))
    self.call({'e': 'grow', 'id': i, 'd': d, 'un': un}, f, writes=[i])

  def cneigh(self, i, d):
    self.call({'e': 'cneigh', 'id': i, 'd': d}, lambda ev: self.obj[i].construct_neigh(d), writes=[i])

  def cneighs(self, i):
    self.call({'e': 'cneighs', 'id': i}, lambda ev: self.obj[i].construct_all_neigh(), writes=[i])

  def neigh(self, i, d, kernel='333', stride=1, ne=False):
    def f(ev): ev['out'] = T(self.obj[i].get_neigh(d, kernel, stride, ne))
    self.call({'e': 'neigh', 'id': i, 'd': d, 'kernel': kernel, 'stride': stride, 'ne': ne}, f)

  def neighrows(self, i, d, at):
    """construct a large 3x3x3 table and look at some of its rows"""
    def f(ev):
      self.obj[i].construct_neigh(d)
      t = self.obj[i].get_neigh(d)
      ev['n'] = int(t.shape[0]); ev['out'] = T(t[torch.tensor(at)])
    self.call({'e': 'neighrows', 'id': i, 'd': d, 'at': list(at), 'n': 0}, f, writes=[i])

  def search(self, i, d, q, ne=False, how='xyzb', frac=None, dtype=torch.int64):
    """q: list of <<b,x,y,z>>; frac: offsets in eighths added to the coordinates."""
    c = torch.tensor(q, dtype=torch.int64).view(-1, 4)
    o = self.obj[i]
    if how == 'key':
      key = xyz2key(c[:, 1], c[:, 2], c[:, 3], c[:, 0], d)
      def f(ev): ev['out'] = T(o.search_key(key, d, ne))
      a = [('query', key)]
    else:
      xyzb = torch.stack([c[:, 1], c[:, 2], c[:, 3], c[:, 0]], 1).to(dtype)
      if frac is not None:
        xyzb[:, :3] += torch.tensor(frac, dtype=dtype) / 8.0
      def f(ev): ev['out'] = T(o.search_xyzb(xyzb, d, ne))
      a = [('query', xyzb)]
    self.call({'e': 'search', 'id': i, 'd': d, 'q': c.tolist(), 'ne': ne, 'how': how}, f, args=a)

  def layer(self, i, d, ne=False):
    o = self.obj[i]
    def f(ev):
      ev['keys'] = limbs(o.key(d, ne))
      ev['xyzb'] = T(torch.stack(o.xyzb(d, ne), 1))
      ev['bid'] = T(o.batch_id(d, ne))
      ev['mask'] = T(o.nempty_mask(d))
    self.call({'e': 'layer', 'id': i, 'd': d, 'ne': ne}, f)

  def feat(self, i, feature, ne=False, module=False):
    o = self.obj[i]
    up = feature.upper()
    def f(ev):
      if module: out = self.mods.setdefault((feature, ne), ocnn.modules.InputFeature(feature, ne))(o)     # one module for all octrees
      else: out = o.get_input_feature(feature, ne)
      ev['out'] = T(out, 'f')
    self.call({'e': 'feat', 'id': i, 'ne': ne, 'feature': feature,
               'f': {c: c in up for c in 'NDLPF'}, 'snm': T(o.normals[o.depth], 'f')}, f)

  def topoints(self, i, rescale=True):
    o = self.obj[i]
    def f(ev):
      p = o.to_points(rescale)
      ev['pts'] = T(p.points, 'f'); ev['nm'] = T(p.normals, 'f'); ev['ft'] = T(p.features, 'f')
      ev['bid'] = T(p.batch_id); ev['bs'] = int(p.batch_size)
    self.call({'e': 'topoints', 'id': i, 'rescale': rescale}, f)
