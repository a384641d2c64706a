"""Drivers for point clouds (C24, C25), the data pipeline (C26) and device moves (C28)."""
import os, math, tempfile, shutil
import numpy as np, torch, ocnn
from rec import Rec, T, dig
from gen import *
from drv_struct import reps, grow_random
from ocnn.octree import Points, Octree, merge_points
from ocnn.dataset import Transform, CollateBatch

F32, F64 = torch.float32, torch.float64
PS = 16384

def exact(t): 
  v = t.detach().double() * PS
  return bool((v == v.round()).all())
def psnap(p):
  return {'pts': T(p.points, 'f', PS), 'nrm': T(p.normals, 'f'), 'ft': T(p.features), 'lb': T(p.labels),
          'bid': T(p.batch_id), 'bs': int(p.batch_size), 'npt': T(p.batch_npt), 'ex': exact(p.points)}
NO = {'k': 'none'}
def call(r, ev, fn, writes=(), args=()): return r.call(ev, fn, writes=writes, args=args, m='points')

INT_N = [[3, 4, 0], [0, -3, 4], [1, 2, 2], [2, -1, 2], [0, 0, 1], [-1, 0, 0], [0, 0, 0], [1, 1, 1], [0, -1, 0], [-2, 0, 1], [1, -3, 2],
         [1, -1 / 4096, -1 / 4096], [-1 / 4096, 1, -1 / 2048], [1 / 4096, -1 / 4096, 1], [0, 2 / 4096, -1 / 4096], [1 / 4096, 0, 0]]      # components next to zero
def raw_cloud(rng, n, unit=64, style=None):
  style = style or rng.choice(['any', 'any', 'edge', 'dup', 'small'])
  m = unit * (1 if style != 'small' else 1) 
  out = []
  for _ in range(n):
    if style == 'edge': v = [rng.choice([-m, m, -m + 1, m - 1, 0, rng.randint(-m, m)]) for _ in range(3)]
    elif style == 'dup' and out and rng.random() < .5: v = list(rng.choice(out))
    elif style == 'small': v = [rng.randint(-4, 4) for _ in range(3)]
    else: v = [rng.randint(-m - m // 4, m + m // 4) for _ in range(3)]
    out.append(v)
  return torch.tensor(out, dtype=F32).view(-1, 3) / unit

def lay(rng, t):
  s = rng.choice('ccts')
  if s == 't': return t.t().contiguous().t()
  if s == 's' and t.dim() == 2: return torch.cat([t, t + 1], 1)[:, :t.shape[1]]
  return t

def new_points(r, rng, n=None, bs=1, full=None, normals=None, share=None, pts=None):
  n = n if n is not None else rng.randint(1, 12)
  full = rng.random() < .5 if full is None else full
  has = lambda: full or rng.random() < .6
  pts = raw_cloud(rng, n) if pts is None else pts
  n = pts.shape[0]
  pts = lay(rng, pts)
  nrm = lay(rng, torch.tensor([rng.choice(INT_N) for _ in range(n)], dtype=F32).view(n, 3)) if (has() if normals is None else normals) else None
  ft = lay(rng, torch.tensor([[rng.randint(-9, 9) for _ in range(2)] for _ in range(n)], dtype=rng.choice([F32, F64])).view(n, 2)) if has() else None
  lb = torch.tensor([rng.randint(0, 9) for _ in range(n)], dtype=rng.choice([F32, torch.int64])) if has() else None
  if lb is not None and rng.random() < .6:
    k = rng.choice([1, 2]); lb = torch.stack([lb, lb + 1], 1)[:, :k]
  bid = torch.tensor([rng.randrange(bs) for _ in range(n)], dtype=rng.choice([F32, torch.int64])) if (bs > 1 or has()) else None
  if bid is not None and rng.random() < .6: bid = bid.view(-1, 1)
  i = r.new_id()
  ev = {'e': 'pnew', 'id': i, 'x': {'pts': T(pts, 'f', PS), 'nrm': T(nrm, 'f'), 'ft': T(ft), 'lb': T(lb), 'bid': T(bid), 'bs': bs}}
  def f(ev):
    p = Points(pts, nrm, ft, lb, bid, bs)
    r.obj[i] = p
    ev['p'] = psnap(p)
  call(r, ev, f, writes=[i], args=[('points', pts), ('normals', nrm), ('features', ft), ('labels', lb)])
  return i

# angles with rational cosine and sine
RAT = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (4, 3, 5), (-3, 4, 5), (3, -4, 5), (5, 12, 13), (12, -5, 13), (-12, -5, 13), (8, 15, 17)]
QF = [-8, -4, -2, -1, 1, 2, 3, 4, 4, 5, 6, 8]

def geom_op(r, rng, i, opn=None, live=True):
  p = r.obj[i]
  opn = opn or rng.choice(['pscale', 'pscale', 'protate', 'protate', 'ptranslate', 'pflip', 'porient', 'pnormalize'])
  big = float(p.points.abs().max()) if p.npt else 0.
  if opn == 'pscale':
    k = rng.random()
    if k < .15: f = [4, 4, 4]
    elif k < .4: f = [rng.choice(QF)] * 3
    else: f = [rng.choice(QF) for _ in range(3)]
    if big > 4: f = [max(-4, min(4, x)) for x in f]
    fd = 4
    if k > .85 and big <= 4:         # almost uniform
      fd = 16; f = [rng.choice([1, -1]) * rng.choice([15, 16, 16, 17]) for _ in range(3)]
    t = torch.tensor(f, dtype=F32) / fd
    fn, ev, a = (lambda: p.scale(t)), {'f': f, 'fd': fd}, t
  elif opn == 'protate':
    one = rng.random() < .4
    cs = [rng.choice(RAT) for _ in range(3)]
    if one:
      ax = rng.randrange(3); cs = [cs[k] if k == ax else RAT[0] for k in range(3)]
    t = torch.tensor([math.atan2(c[1], c[0]) for c in cs], dtype=F32)
    fn, ev, a = (lambda: p.rotate(t)), {'cs': cs}, t
  elif opn == 'ptranslate':
    d = [rng.randint(-64, 64) for _ in range(3)]
    if big > 4: d = [0, 0, 1]
    t = torch.tensor(d, dtype=F32) / 64
    fn, ev, a = (lambda: p.translate(t)), {'t': [x * (PS // 64) for x in d]}, t
  elif opn == 'pflip':
    s = rng.choice(['x', 'y', 'z', 'xy', 'yz', 'zx', 'xyz', 'zyx', '', 'xx', 'yxy'])
    sg = [(-1) ** s.count(c) for c in 'xyz']
    fn, ev, a = (lambda: p.flip(s)), {'s': sg, 'axis': s}, None
  elif opn == 'porient':
    s = rng.choice(['x', 'y', 'z', 'xyz'])
    fn, ev, a = (lambda: p.orient_normal(s)), {'ax': 1 + ['x', 'y', 'z', 'xyz'].index(s)}, None
  else:
    if p.npt == 0: return
    if rng.random() < .6: mn, mx = p.points.min(0)[0], p.points.max(0)[0]
    else:
      lo = [rng.randint(*rng.choice([(-64, 0), (-64, 0), (0, 40)])) for _ in range(3)]
      if rng.random() < .3: lo = [abs(x) // 2 for x in lo]
      sz = [rng.choice([0, 16, 32, 64, 100]) for _ in range(3)]; sz[rng.randrange(3)] = rng.choice([32, 64, 128])
      mn = torch.tensor(lo, dtype=F32) / 64; mx = mn + torch.tensor(sz, dtype=F32) / 64
    box = float((mx - mn).max())
    if box < 1 / 16. and not (box == 0. and p.npt == 1) or big / max(box, 1e-3) > 7: return
    if big > 3: return
    sc = rng.choice([1, 2, 3, 4, 4, 4, 6])
    fn, ev, a = (lambda: p.normalize(mn, mx, sc / 4.)), {'mn': T(mn, 'f', PS)['v'], 'mx': T(mx, 'f', PS)['v'], 'sc': sc}, [mn, mx]
  ev.update({'e': opn, 'id': i})
  def f(ev):
    fn(); ev['p'] = psnap(r.obj[i])
  call(r, ev, f, writes=[i], args=[('parameter', a)])

def share(r, rng, i):
  """a second cloud built from the same tensors, or a view of the first"""
  p = r.obj[i]
  k = rng.random()
  if k < .5:
    j = r.new_id()
    x = {'pts': T(p.points, 'f', PS), 'nrm': T(p.normals, 'f'), 'ft': T(p.features), 'lb': T(p.labels), 'bid': T(p.batch_id), 'bs': int(p.batch_size)}
    def f(ev):
      r.obj[j] = Points(p.points, p.normals, p.features, p.labels, p.batch_id, p.batch_size)
      ev['p'] = psnap(r.obj[j])
    call(r, {'e': 'pnew', 'id': j, 'x': x}, f, writes=[j])
    return j
  return ev_slice(r, rng, i, 'full')

def ev_slice(r, rng, i, how=None):
  p = r.obj[i]; n = p.npt; j = r.new_id()
  how = how or rng.choice(['mask', 'mask', 'index', 'slice', 'full', 'empty', 'list'])
  if how == 'mask':
    m = torch.tensor([rng.random() < .5 for _ in range(n)], dtype=torch.bool); key = m; idx = [k + 1 for k in range(n) if m[k]]
  elif how == 'empty': key = torch.zeros(n, dtype=torch.bool); idx = []
  elif how in ('index', 'list'):
    l = [rng.randrange(n) for _ in range(rng.randint(1, n + 2))] if n else []
    key = torch.tensor(l, dtype=torch.int64) if how == 'index' or not l else l
    idx = [k + 1 for k in l]
  elif how == 'full': key = slice(None); idx = list(range(1, n + 1))
  else:
    a, b, c = rng.randint(0, n), rng.randint(0, n), rng.choice([1, 2]); key = slice(a, b, c); idx = [k + 1 for k in range(n)[key]]
  def f(ev):
    q = p[key]; r.obj[j] = q; ev['p'] = psnap(q)
  call(r, {'e': 'pslice', 'id': i, 'new': j, 'idx': idx}, f, writes=[j], args=[('index', key)])
  return j

def box_args(rng):
  """lower, upper, margin: exact dyadic or the defaults"""
  k = rng.random()
  if k < .3: return {}, -1., 1., .01, False
  mn, mx = rng.choice([(-1., 1.), (-.5, .5), (0., 1.), (-.75, .25)])
  e = rng.choice([0., 1 / 64., 1 / 32., .125])
  return {'min': mn, 'max': mx, 'esp': e}, mn, mx, e, True

def ev_clip(r, rng, i):
  kw, mn, mx, e, ex = box_args(rng)
  def f(ev):
    ev['mask'] = T(r.obj[i].clip(**kw)); ev['p'] = psnap(r.obj[i])
  call(r, {'e': 'pclip', 'id': i, 'lo': [round((mn + e) * PS)] * 3, 'hi': [round((mx - e) * PS)] * 3, 'bex': ex}, f, writes=[i])

def ev_inbox(r, rng, i):
  k = rng.random(); p = r.obj[i]
  if k < .3: a = (); lo, hi = [-1] * 3, [1] * 3
  elif k < .6:
    l, h = rng.choice([(-.5, .5), (0., 1.), (-1., .25)]); a = (l, h); lo, hi = [l] * 3, [h] * 3
  else:
    lo = [rng.choice([-1., -.5, 0.]) for _ in range(3)]; hi = [rng.choice([.25, .5, 1.]) for _ in range(3)]
    a = (torch.tensor(lo), torch.tensor(hi))
  def f(ev): ev['mask'] = T(p.inbox_mask(*a))
  call(r, {'e': 'pinbox', 'id': i, 'lo': [round(x * PS) for x in lo], 'hi': [round(x * PS) for x in hi], 'bex': True}, f, args=[('box', list(a))])

def ev_bbox(r, rng, i):
  def f(ev):
    mn, mx = r.obj[i].bbox(); ev['mn'] = T(mn, 'f', PS); ev['mx'] = T(mx, 'f', PS)
  call(r, {'e': 'pbbox', 'id': i}, f)

def ev_pmerge(r, rng, ids, upd=True):
  j = r.new_id()
  def f(ev):
    q = merge_points([r.obj[k] for k in ids], upd) if not upd or rng.random() < .5 else merge_points([r.obj[k] for k in ids])
    r.obj[j] = q; ev['p'] = psnap(q)
  call(r, {'e': 'pmerge', 'id': j, 'ids': ids, 'upd': upd}, f, writes=[j])
  return j

def ev_save(r, rng, i):
  p = r.obj[i]
  full = rng.sample('PNFLB', rng.randint(1, 5))
  k = rng.random()
  if k < .25: info, want = None, list('PNFL')
  else:
    want = full; info = ''.join(c if rng.random() < .7 else c.lower() for c in full)
  fmt = rng.choice(['npz', 'npz', 'xyz'])
  attr = {'P': p.points, 'N': p.normals, 'F': p.features, 'L': p.labels, 'B': p.batch_id}
  if all(attr[c] is None for c in want): want = ['P'] + want; info = ''.join(want)
  d = tempfile.mkdtemp(prefix='verif_save_')
  fn = os.path.join(d, 'x.' + fmt)
  def f(ev):
    if info is None: p.save(fn)
    else: p.save(fn, info)
    ev['file'] = []
    if fmt == 'npz':
      z = np.load(fn)
      for nm in z.files:
        ev['file'].append([nm, T(z[nm], 'f', PS) if nm == 'points' else T(z[nm], 'f') if nm == 'normals' else T(z[nm])])
    else: ev['xyz'] = T(np.loadtxt(fn, ndmin=2), 'f', 1000000)
  try: call(r, {'e': 'psave', 'id': i, 'want': want, 'fmt': fmt, 'file': [], 'xyz': NO}, f)
  finally: shutil.rmtree(d, ignore_errors=True)

def drive_C24(tier):
  def one(rng):
    r = Rec()
    i = new_points(r, rng, full=rng.random() < .7)
    ids = [i]
    for _ in range(rng.randint(3, 7)):
      if len(ids) < 3 and rng.random() < .4: ids.append(share(r, rng, rng.choice(ids)))
      geom_op(r, rng, rng.choice(ids))
      if rng.random() < .2: ev_bbox(r, rng, rng.choice(ids))
    return r.ev
  def each(opn):
    def f(rng):
      r = Rec()
      i = new_points(r, rng, full=True)
      for _ in range(3): geom_op(r, rng, i, opn)
      j = new_points(r, rng, normals=False)
      for _ in range(2): geom_op(r, rng, j, opn)
      return r.ev
    return f
  for o in ['pscale', 'protate', 'ptranslate', 'pflip', 'porient', 'pnormalize']:
    for _ in reps(tier, 12, 120): yield each(o)
  for _ in reps(tier, 90, 1500): yield one

def drive_C25(tier):
  def one(rng):
    r = Rec()
    bs = rng.choice([1, 1, 3])
    full = rng.random() < .6
    ids = [new_points(r, rng, bs=bs, full=full) for _ in range(rng.randint(1, 3))]
    for _ in range(rng.randint(3, 7)):
      k = rng.random(); i = rng.choice(ids)
      if k < .25: ev_clip(r, rng, i)
      elif k < .5: ids.append(ev_slice(r, rng, i))
      elif k < .6: ev_inbox(r, rng, i)
      elif k < .7: geom_op(r, rng, i)
      elif k < .8:
        if r.obj[i].npt: ev_save(r, rng, i)
      else:
        same = lambda a: [getattr(r.obj[a], k) is None for k in ('normals', 'features', 'labels')] + \
                         [None if r.obj[a].labels is None else r.obj[a].labels.shape[1]] + [(getattr(r.obj[a], k).dtype if getattr(r.obj[a], k) is not None else None) for k in ('normals', 'features', 'labels')]
        c = [a for a in ids if same(a) == same(i)]
        ids.append(ev_pmerge(r, rng, [rng.choice(c) for _ in range(rng.randint(1, 4))], rng.random() < .8))
    return r.ev
  def pipe(rng):     # clip, slice, merge, save a fully attributed cloud
    r = Rec()
    ids = []
    for _ in range(rng.randint(2, 3)):
      i = new_points(r, rng, full=False, pts=raw_cloud(rng, rng.randint(1, 9), style=rng.choice(['edge', 'any', 'dup', 'small'])), normals=True)
      ev_clip(r, rng, i); ids.append(i)
    k = [x for x in ids if (r.obj[x].labels is None) == (r.obj[ids[0]].labels is None) and (r.obj[x].features is None) == (r.obj[ids[0]].features is None)
         and (r.obj[x].labels is None or (r.obj[x].labels.shape[1], r.obj[x].labels.dtype) == (r.obj[ids[0]].labels.shape[1], r.obj[ids[0]].labels.dtype))
         and (r.obj[x].features is None or r.obj[x].features.dtype == r.obj[ids[0]].features.dtype)]
    j = ev_pmerge(r, rng, k)
    if r.obj[j].npt: ev_save(r, rng, j)
    ev_clip(r, rng, j); ev_slice(r, rng, j)
    if r.obj[j].npt: ev_save(r, rng, j)
    return r.ev
  def big(rng):      # more points than a 16-bit number can count; the first coordinate names the row
    r = Rec()
    ns = rng.choice([[40000, 3], [2, 33000, 70000], [66000], [300, 1, 32768, 255, 256, 5]])
    cs, k = [], 0
    for n in ns:
      t = torch.arange(k, k + n, dtype=F32).view(-1, 1); k += n
      cs.append(Points(torch.cat([t, -t, t], 1), features=t.double(), labels=t.long()))
    at = sorted({0, k - 1} | {rng.randrange(k) for _ in range(12)})
    def f(ev):
      q = merge_points(cs); b = q.batch_id.view(-1)
      v, c = torch.unique_consecutive(b, return_counts=True)
      ev['npt'] = T(q.batch_npt); ev['bs'] = int(q.batch_size); ev['runs'] = [v.long().tolist(), c.tolist()]
      ev['rows'] = [[int(q.points[j, 0]), int(q.features[j, 0]), int(q.labels[j, 0])] for j in at]
    call(r, {'e': 'pbig', 'ns': ns, 'at': at}, f, args=[('clouds', [c.points for c in cs])])
    return r.ev
  for _ in reps(tier, 4, 20): yield big
  for _ in reps(tier, 110, 1500): yield one
  for _ in reps(tier, 60, 700): yield pipe

# ------------------------------------------------------------------ C26
def tf_sample(rng, depth, n):
  """a numpy sample on a dyadic grid (quarters of a finest cell), with points on and over the clip border"""
  g = 2 ** depth * 2     # coordinate 1.0 in quarter cells
  def c():
    k = rng.random()
    if k < .75: return rng.randint(-g + 1, g - 1)
    return rng.choice([-g, g, g + 3, -g - 5, g - 1, -g + 1, 0])
  base = [[c() for _ in range(3)] for _ in range(n)]
  base += [list(rng.choice(base)) for _ in range(rng.randint(0, 3))]
  base.append([rng.randint(-g // 2, g // 2) for _ in range(3)])       # never empty
  rng.shuffle(base)
  xyz = (np.array(base, dtype=np.float32) / g).astype(np.float32)
  nrm = np.array([rng.choice(INT_N[:6] + INT_N[7:9]) for _ in base], dtype=np.float32)
  nrm /= np.linalg.norm(nrm, axis=1, keepdims=True)
  return xyz, nrm

class PfTransform(Transform):
  """a reader that also carries features and labels (as the project readers do)"""
  def preprocess(self, sample, idx):
    xyz = torch.from_numpy(sample['points']); nrm = torch.from_numpy(sample['normals'])
    ft = torch.from_numpy(sample['feat']); lb = torch.from_numpy(sample['lab'])
    out = {k: v for k, v in sample.items() if k not in ('normals', 'feat', 'lab')}
    out['points'] = Points(xyz, nrm, ft, lb.unsqueeze(1))
    return out

def oth(d, skip):
  return [[k, dig(d[k])] for k in sorted(d) if k not in skip]

def ev_tf(r, rng, tf, sample, rich, params):
  """run the transform on one sample; params(): the distortion drawn (None if not distorted)"""
  i, pid = r.new_id(), r.new_id()
  ft = torch.from_numpy(sample['feat']) if rich else None
  lb = torch.from_numpy(sample['lab']).unsqueeze(1) if rich else None
  xp = torch.from_numpy(sample['points'].copy()); xn = torch.from_numpy(sample['normals'].copy())
  x = {'pts': T(xp, 'f', PS), 'nrm': T(xn, 'f'), 'ft': T(ft), 'lb': T(lb)}
  drop = ('points', 'normals') + (('feat', 'lab') if rich else ())
  ev = {'e': 'tf', 'id': i, 'pid': pid, 'x': x, 'depth': tf.depth, 'full': tf.full_depth, 'dist': bool(tf.distort),
        'ax': 0 if not tf.orient_normal else 1 + ['x', 'y', 'z', 'xyz'].index(tf.orient_normal),
        's': [1, 1, 1], 'cs': [[1, 0, 1]] * 3, 't': [0, 0, 0], 'f': [4096] * 3,
        'xkeys': sorted([k for k in sample if k not in drop] + ['points', 'octree', 'inbox_mask']), 'xoth': oth(sample, drop)}
  res = {}
  def f(ev):
    out = tf(sample, 0)
    res['out'] = out
    if tf.distort:
      a, s, j, fl = params()
      ev['s'] = [-1 if c in fl else 1 for c in 'xyz']
      ev['cs'] = [[round(math.cos(float(v)) * 4096), round(math.sin(float(v)) * 4096), 4096] for v in a]
      ev['t'] = T(j, 'f', PS)['v']; ev['f'] = T(s, 'f', 4096)['v']
    p, o = out['points'], out['octree']
    r.obj[i], r.obj[pid] = o, p
    ev['mask'] = T(out['inbox_mask']); ev['p'] = psnap(p)
    q = (p.points.double() + 1) * 2.0 ** (tf.depth - 1)
    ev['q'] = T(torch.floor(q * 256)); v = q * 256; ev['qex'] = bool((v == v.round()).all())
    ev['keys'] = sorted(out); ev['oth'] = oth(out, ('points', 'octree', 'inbox_mask'))
    ev['head'] = r.head(o); ev['snap'] = r.snap(o); ev['sig'] = r.sig(o)
  call(r, ev, f, writes=[i, pid], args=[('sample.' + k, v) for k, v in sample.items()])
  return i, pid, res.get('out')

def ev_collate(r, rng, ids, pids, outs, merge):
  j = r.new_id(); b = CollateBatch(merge_points=merge) if merge or rng.random() < .5 else CollateBatch()
  two = rng.random() < .3           # a second octree and cloud in every sample
  if two: outs = [dict(o, octree_gt=o['octree'], points_gt=o['points']) for o in outs]
  ks = sorted(outs[0])
  skip = ('octree', 'points', 'label', 'octree_gt', 'points_gt')
  ev = {'e': 'collate', 'id': j, 'ids': ids, 'pids': pids, 'mp': merge, 'xkeys': ks, 'hl': 'label' in ks,
        'xlab': [int(o['label']) for o in outs] if 'label' in ks else [], 'lab': NO, 'p': NO, 'plist': [],
        'xoth': [[k, [dig(o[k]) for o in outs]] for k in ks if k not in skip]}
  def f(ev):
    z = b(list(outs))
    o = z['octree']; r.obj[j] = o
    ev['same'] = [[dig(o), dig(z['octree_gt'])], [[dig(n) for n in o.neighs], [dig(n) for n in z['octree_gt'].neighs]],
                  [dig(z['points']), dig(z['points_gt'])]] if two else []
    ev['keys'] = sorted(z); ev['oth'] = [[k, [dig(v) for v in z[k]]] for k in sorted(z) if k not in skip]
    if 'label' in ks: ev['lab'] = T(z['label'])
    ev['head'] = r.head(o); ev['snap'] = r.snap(o); ev['sig'] = r.sig(o)
    ev['nb'] = [T(n) for n in o.neighs]
    if merge:
      p = z['points']; ev['p'] = psnap(p); 
      k = r.new_id(); r.obj[k] = p
      ev['w2'] = k
    else: ev['plist'] = [{'pts': T(p.points, 'f', PS)} for p in z['points']]
  call(r, ev, f, writes=[j])
  return j

def mk_tf(rng, distort, cls=Transform, depth=None):
  depth = depth or rng.choice([2, 3, 4, 5])
  full = rng.randint(0, min(2, depth)) if rng.random() < .75 or depth > 4 else rng.randint(0, depth)
  ang = [rng.choice([0, 5, 30, 90, 180]) for _ in range(3)]
  inter = [rng.choice([1, 5, 10, 45]) for _ in range(3)]
  kw = dict(depth=depth, full_depth=full, distort=distort, angle=ang, interval=inter,
            scale=rng.choice([0., .125, .25, .5]), uniform=rng.random() < .5, jitter=rng.choice([0., .125, .25]),
            flip=[rng.choice([0., .5, 1.]) for _ in range(3)])
  on = rng.choice(['', '', 'x', 'y', 'z', 'xyz'])
  if on: kw['orient_normal'] = on
  if rng.random() < .3: kw['extra_flag'] = 1
  return cls(**kw), kw

def drive_C26(tier):
  def batch(distort):
    def one(rng):
      r = Rec()
      rich = rng.random() < .4
      tf, kw = mk_tf(rng, distort, PfTransform if rich else Transform)
      seen = []
      orig = tf.rnd_parameters
      def spy():
        v = orig(); seen.append(v); return v
      tf.rnd_parameters = spy
      ids, pids, outs = [], [], []
      n = rng.choice([1, 2, 3, 3, 6])
      for k in range(n):
        xyz, nrm = tf_sample(rng, tf.depth, rng.randint(1, 10))
        s = {'points': xyz, 'normals': nrm, 'label': rng.randint(0, 9) if rng.random() < .7 else rng.choice([-1, 255, 256, 1000, 40000, 100003]), 'filename': 'f%d' % k, 'extra': np.array([k, 1.5])}
        if rich:
          s['feat'] = np.array([[rng.randint(-5, 5)] for _ in xyz], dtype=np.float32); s['lab'] = np.array([float(rng.randint(0, 5)) for _ in xyz], dtype=np.float32)
        rep = 1 if rng.random() < .6 else 2
        for q in range(rep):               # the same sample again
          i, p, out = ev_tf(r, rng, tf, s, rich, lambda: seen[-1])
        if out is None: return r.ev
        ids.append(i); pids.append(p); outs.append(out)
      ev_collate(r, rng, ids, pids, outs, rng.random() < .6)
      return r.ev
    return one
  def rnd(rng):
    r = Rec()
    tf, kw = mk_tf(rng, True)
    base = {'angle': kw['angle'], 'interval': kw['interval'], 'sc': round(kw['scale'] * PS), 'jm': round(kw['jitter'] * PS),
            'uni': kw['uniform'], 'fp': [int(2 * x) for x in kw['flip']]}
    seen = [set(), set(), set()]; sp = [10 ** 9, -10 ** 9]; js = [10 ** 9, -10 ** 9]; fany = [False] * 3; fnone = [False] * 3; ani = False
    small = max(a // i for a, i in zip(kw['angle'], kw['interval'])) <= 6
    for k in range(200 if small else 6):
      ev = dict(base); ev['e'] = 'rnd'
      def f(ev):
        a, s, j, fl = tf.rnd_parameters()
        ev['ang'] = T(torch.tensor([float(a[q]) * 180 / math.pi / kw['interval'][q] for q in range(3)], dtype=F64), 'f')
        ev['scl'] = T(s, 'f', PS); ev['jit'] = T(j, 'f', PS); ev['fl'] = [c in fl for c in 'xyz']; ev['known'] = all(c in 'xyz' for c in fl) and len(set(fl)) == len(fl)
      call(r, ev, f)
      if ev['err']: return r.ev
      nonlocal_ani = ev['scl']['v']
      if len(set(nonlocal_ani)) > 1: ani = True
      for q in range(3):
        seen[q].add((ev['ang']['v'][q] + 2048) // 4096)
        sp = [min(sp[0], ev['scl']['v'][q]), max(sp[1], ev['scl']['v'][q])]; js = [min(js[0], ev['jit']['v'][q]), max(js[1], ev['jit']['v'][q])]
        fany[q] |= ev['fl'][q]; fnone[q] |= not ev['fl'][q]
    if small:
      # keep the trace short: the draws were judged one by one only for a few
      r.ev = r.ev[:12]
      ev = dict(base); ev.update({'e': 'rndmany', 'seen': [sorted(x) for x in seen], 'sspan': sp, 'jspan': js, 'fany': fany, 'fnone': fnone, 'ani': ani})
      call(r, ev, lambda ev: None)
    return r.ev
  for _ in reps(tier, 45, 500): yield batch(False)
  for _ in reps(tier, 60, 700): yield batch(True)
  for _ in reps(tier, 25, 200): yield rnd

# ------------------------------------------------------------------ C28
def oct_tensors(o):
  out = []
  for nm in ('keys', 'children', 'neighs', 'features', 'normals', 'points'):
    for d, t in enumerate(getattr(o, nm)): out.append((nm, d, t))
  return out

def ev_move(r, rng, i, dev, via='to'):
  o = r.obj[i]; j = r.new_id()
  shp = lambda o: [[nm, d, 'none' if t is None else str(tuple(t.shape)) + str(t.dtype)] for nm, d, t in oct_tensors(o)]
  ev = {'e': 'move', 'id': i, 'new': j, 'vals': dev != 'meta', 'dev': torch.device(dev).type, 'shared': 0, 'bn0': T(o.batch_nnum), 'bne0': T(o.batch_nnum_nempty), 'shp0': shp(o)}
  if dev == 'cpu' and str(o.device) == 'cpu': ev['dev'] = 'cpu'
  def f(ev):
    m = o.cpu() if via == 'cpu' else (o.to(torch.device(dev)) if via == 'dev' else o.to(dev, non_blocking=True) if via == 'nb' else o.to(dev))
    if m is not o: r.obj[j] = m
    if m is not o and dev != 'meta':       # an independent copy: nothing writable in common
      A = ('nnum', 'nnum_nempty', 'batch_nnum', 'batch_nnum_nempty')
      # (torch itself returns the same tensor when a 'cpu:0' tensor is sent to 'cpu')
      own = {t.data_ptr() for t in [t for _, _, t in oct_tensors(o) if t is not None and t.to(dev) is not t] + [getattr(o, a) for a in A] if torch.is_tensor(t) and t.numel()}
      ev['shared'] = sum(t.data_ptr() in own for t in [t for _, _, t in oct_tensors(m)] + [getattr(m, a) for a in A] if torch.is_tensor(t) and t.numel())
    ev['devs'] = [torch.device(m.device).type] + ([t.device.type for _, _, t in oct_tensors(m) if t is not None] if dev == 'meta' else []) \
                 + ([v.device.type for v in list(m.lut_kernel.values()) + [m.lut_parent, m.lut_child]] if dev == 'meta' else [])
    ev['head'] = r.head(m); ev['nn'] = [[int(a), int(b)] for a, b in zip(m.nnum, m.nnum_nempty)]
    ev['bn'] = T(m.batch_nnum); ev['bne'] = T(m.batch_nnum_nempty); ev['shp'] = shp(m)
    if dev != 'meta': ev['snap'] = r.snap(m); ev['sig'] = r.sig(m); ev['sig0'] = r.sig(o); ev['nb'] = [T(n) for n in m.neighs]
  call(r, ev, f, writes=[j])
  return j if j in r.obj else i

def ev_pmove(r, rng, i, dev, via='to'):
  o = r.obj[i]; j = r.new_id()
  A = ('points', 'normals', 'features', 'labels', 'batch_id')
  shp = lambda o: [[nm, 'none' if getattr(o, nm) is None else str(tuple(getattr(o, nm).shape)) + str(getattr(o, nm).dtype)] for nm in A]
  ev = {'e': 'pmove', 'id': i, 'new': j, 'vals': dev != 'meta', 'dev': torch.device(dev).type, 'shared': 0, 'shp0': shp(o)}
  def f(ev):
    m = o.cpu() if via == 'cpu' else (o.to(torch.device(dev)) if via == 'dev' else o.to(dev))
    if m is not o: r.obj[j] = m
    if m is not o and dev != 'meta':
      own = {getattr(o, a).data_ptr() for a in A if getattr(o, a) is not None and getattr(o, a).numel() and getattr(o, a).to(dev) is not getattr(o, a)}
      ev['shared'] = sum(getattr(m, a).data_ptr() in own for a in A if getattr(m, a) is not None and getattr(m, a).numel())
    ev['devs'] = [torch.device(m.device).type] + ([getattr(m, a).device.type for a in A if getattr(m, a) is not None] if dev == 'meta' else [])
    ev['bs'] = int(m.batch_size); ev['npt'] = T(m.batch_npt); ev['shp'] = shp(m)
    if dev != 'meta': ev['p'] = psnap(m)
  call(r, ev, f, writes=[j])
  return j if j in r.obj else i

def drive_C28(tier):
  def mk(r, rng):
    k = rng.random()
    depth, full = rng.choice([(2, 0), (2, 1), (3, 1), (3, 2), (4, 2), (4, 0)])
    if k < .45:
      n = rng.randint(1, 10); bs = rng.choice([1, 1, 2])
      i = r.build(cloud(rng, depth, n, bs), depth, full, bs, normals(rng, n) if rng.random() < .7 else None, feats(rng, n, 2) if rng.random() < .7 else None)
    elif k < .8:
      hn, hf = rng.random() < .7, rng.random() < .7
      ids = []
      for _ in range(rng.randint(1, 3)):
        n = rng.randint(1, 6)
        ids.append(r.build(cloud(rng, depth, n), depth, full, 1, normals(rng, n) if hn else None, feats(rng, n, 2) if hf else None))
      i = r.merge(ids)
    else:
      i = r.init(depth, full, rng.choice([1, 2]))
      grow_random(r, rng, i, depth, full, 0.2)
      return i, full, depth
    if rng.random() < .7: r.cneighs(i)
    return i, full, depth
  def one(rng):
    r = Rec()
    i, full, depth = mk(r, rng)
    dev = rng.choice(['cpu:0', 'cpu:0', 'cpu:0', 'cpu'])
    j = ev_move(r, rng, i, dev, rng.choice(['to', 'dev', 'nb'] + (['cpu'] if dev == 'cpu' else [])))
    if dev == 'cpu': return r.ev
    ids = [i, j]
    if rng.random() < .3: ids.append(ev_move(r, rng, j, 'cpu', rng.choice(['to', 'cpu'])))
    if rng.random() < .25: ev_move(r, rng, rng.choice(ids), 'meta')
    for _ in range(rng.randint(2, 6)):         # use them independently
      k = rng.choice(ids); o = r.obj[k]; x = rng.random()
      d = rng.randint(0, depth)
      if x < .25 and o.keys[depth] is not None and o.children[depth] is not None:
        r.layer(k, d, rng.random() < .5)
      elif x < .45:
        if full == 0 or d >= 1:
          if o.keys[depth] is not None:
            r.cneighs(k); r.neigh(k, max(1, d), rng.choice(KERNELS), 1, rng.random() < .5)
      elif x < .75:
        # re-split a layer and rebuild everything below it
        d = rng.randint(full, depth)
        if int(o.nnum[d]) > 300: continue
        def fl(n):
          s = {rng.randrange(n) for _ in range(rng.randint(0, 3))}
          return [int(z in s) for z in range(n)]
        r.split(k, d, fl(int(o.nnum[d])))
        for q in range(d + 1, depth + 1):
          r.grow(k, q, False)
          r.split(k, q, fl(int(o.nnum[q])))
        for q in range(1 if full else 0, depth + 1):
          if q > d and (q <= full or o.neighs[q - 1] is not None): r.cneigh(k, q)
      else:
        d = rng.randint(0, full)
        if o.keys[d] is not None: r.search(k, d, [[rng.randrange(int(o.batch_size))] + [rng.randrange(1 << d) for _ in range(3)] for _ in range(3)])
    return r.ev
  def pts(rng):
    r = Rec()
    bs = rng.choice([1, 3])
    ids = [new_points(r, rng, bs=bs, full=True) for _ in range(rng.randint(1, 2))]
    i = ids[0]
    if rng.random() < .6:
      c = [k for k in ids if r.obj[k].labels.shape[1] == r.obj[i].labels.shape[1] and r.obj[k].labels.dtype == r.obj[i].labels.dtype and r.obj[k].features.dtype == r.obj[i].features.dtype]
      i = ev_pmerge(r, rng, c)
    elif rng.random() < .5: i = new_points(r, rng, bs=bs, full=False)
    dev = rng.choice(['cpu:0', 'cpu:0', 'cpu', 'meta'])
    j = ev_pmove(r, rng, i, dev, rng.choice(['to', 'dev'] + (['cpu'] if dev == 'cpu' else [])))
    if dev != 'cpu:0': return r.ev
    k = ev_pmove(r, rng, j, 'cpu', rng.choice(['to', 'cpu'])) if rng.random() < .5 else j
    for _ in range(4):
      geom_op(r, rng, rng.choice([i, j, k])) if rng.random() < .7 else ev_clip(r, rng, rng.choice([i, j, k]))
    return r.ev
  for _ in reps(tier, 90, 1200): yield one
  for _ in reps(tier, 60, 600): yield pts

# ------------------------------------------------------------------ sessions generated from spec/GenPoints.tla
PU = 256
def replay_points(prog):
  """the commands of one behaviour of the point-cloud session machine, on the real code, and the heap at its end"""
  import random
  rng = random.Random(repr(prog['cmds']) + os.environ.get('VERIF_SEED', '1'))
  r = Rec(); heap = []
  vec = lambda v, u=PU: torch.tensor(v, dtype=F32) / u
  hn, hf, hl = rng.random() < .8, rng.random() < .8, rng.random() < .8
  def ev_geom(i, nm, ev, fn, a=None):
    ev.update({'e': nm, 'id': i})
    def f(ev): fn(); ev['p'] = psnap(r.obj[i])
    call(r, ev, f, writes=[i], args=[('parameter', a)])
  for c in prog['cmds']:
    k, a = c['c'], c['a']
    i = heap[c['i'] - 1] if c['i'] else None
    p = r.obj[i] if i else None
    if k == 'new':
      rows = prog['pool'][a[0] - 1]
      pts = lay(rng, vec([x['p'] for x in rows]))
      n = lay(rng, torch.tensor([x['n'] for x in rows], dtype=F32)) if hn else None
      tg = torch.tensor([x['t'] for x in rows])
      ft = torch.stack([tg, -tg], 1).float() if hf else None
      lb = tg if hl else None
      j = r.new_id()
      def f(ev): r.obj[j] = Points(pts, n, ft, lb); ev['p'] = psnap(r.obj[j])
      call(r, {'e': 'pnew', 'id': j, 'x': {'pts': T(pts, 'f', PS), 'nrm': T(n, 'f'), 'ft': T(ft), 'lb': T(lb), 'bid': NO, 'bs': 1}}, f, writes=[j], args=[('points', pts), ('normals', n)])
      heap.append(j)
    elif k == 'translate': t = vec(a); ev_geom(i, 'ptranslate', {'t': [x * (PS // PU) for x in a]}, lambda: p.translate(t), t)
    elif k == 'flip':
      s = ''.join(x for x, v in zip('xyz', a) if v < 0); ev_geom(i, 'pflip', {'s': a, 'axis': s}, lambda: p.flip(s))
    elif k == 'rotate':
      t = torch.tensor([rng.choice([q, q - 4]) * math.pi / 2 for q in a], dtype=F32)
      ev_geom(i, 'protate', {'cs': [[[1, 0, 1], [0, 1, 1], [-1, 0, 1], [0, -1, 1]][q] for q in a]}, lambda: p.rotate(t), t)
    elif k == 'scale': t = vec(a, 2); ev_geom(i, 'pscale', {'f': [2 * x for x in a], 'fd': 4}, lambda: p.scale(t), t)
    elif k == 'orient': s = ['x', 'y', 'z', 'xyz'][a[0] - 1]; ev_geom(i, 'porient', {'ax': a[0]}, lambda: p.orient_normal(s))
    elif k == 'clip':
      e = rng.choice([0., 1 / 64.])
      def f(ev): ev['mask'] = T(p.clip(a[0] / PU - e, a[1] / PU + e, e)); ev['p'] = psnap(p)
      call(r, {'e': 'pclip', 'id': i, 'lo': [a[0] * (PS // PU)] * 3, 'hi': [a[1] * (PS // PU)] * 3, 'bex': True}, f, writes=[i])
    elif k == 'slice':
      n = p.npt
      l = {'odd': list(range(0, n, 2)), 'tail': list(range(1, n)), 'rev': list(range(n - 1, -1, -1)), 'dup': list(range(n)) + [0] * (n > 0), 'none': []}[a[0]]
      if a[0] in ('odd', 'tail', 'none') and rng.random() < .6: key = torch.tensor([q in l for q in range(n)], dtype=torch.bool)
      elif a[0] in ('odd', 'tail') and rng.random() < .5: key = slice(0, None, 2) if a[0] == 'odd' else slice(1, None)
      else: key = torch.tensor(l, dtype=torch.int64)
      j = r.new_id()
      def f(ev): r.obj[j] = p[key]; ev['p'] = psnap(r.obj[j])
      call(r, {'e': 'pslice', 'id': i, 'new': j, 'idx': [q + 1 for q in l]}, f, writes=[j], args=[('index', key)])
      heap.append(j)
    elif k == 'merge': heap.append(ev_pmerge(r, rng, [i] if not c['j'] else [i, heap[c['j'] - 1]]))
    else: raise RuntimeError(k)
    if r.ev[-1]['err']: return r.ev
    if rng.random() < .1 and heap and r.obj[heap[-1]].npt: (ev_save if rng.random() < .6 else ev_bbox)(r, rng, heap[-1])
  ev = {'e': 'pstate', 'want': prog['heap'], 'hn': hn, 'hf': hf, 'hl': hl, 'got': [psnap(r.obj[j]) for j in heap]}
  call(r, ev, lambda ev: None)
  return r.ev
