"""Drivers for the structural properties C01..C08."""
import torch
import ocnn
from rec import Rec
from gen import *

def reps(tier, q, t): return range(q if tier == 'quick' else t)

# ------------------------------------------------------------------ C01
def drive_C01(tier):
  def basis(depth):
    def f(rng):
      r = Rec()
      m = (1 << depth) - 1
      cs = []
      for a in range(3):                       # every single bit of every axis, and all-ones
        for i in range(depth):
          for b in (0, 1, 32767, rng.randrange(32768)):
            c = [b, 0, 0, 0]; c[a + 1] = 1 << i; cs.append(c)
        c = [rng.randrange(32768), 0, 0, 0]; c[a + 1] = m; cs.append(c)
      for b in (0, 1, 2, 255, 256, 4095, 16384, 32767): cs.append([b, m, m, m]); cs.append([b, 0, 0, 0])
      r.key(cs, depth)
      r.key([[0] + c[1:] for c in cs], depth, 'none')
      for b in (0, 1, 7, 32767): r.key([[b] + c[1:] for c in cs[:20]], depth, 'int')
      return r.ev
    return f
  def rnd(depth):
    def f(rng):
      r = Rec()
      g = 1 << depth
      for dt in (torch.int64, torch.int32, torch.float64, torch.float32):
        cs = [[rng.randrange(32768)] + [rng.randrange(g) for _ in range(3)] for _ in range(60)]
        # chunk boundaries of table-driven codes: values around multiples of 8, 256
        cs += [[rng.randrange(32768)] + [min(g - 1, max(0, (rng.randrange(g) & ~(rng.choice([7, 255]))) + rng.choice([-1, 0, 1, 7, 8])))
                                         for _ in range(3)] for _ in range(60)]
        r.key(cs, depth, dtype=dt, bdt=rng.choice([torch.int64, torch.int32, torch.int16, torch.float32, torch.float64]))
      cs = [[rng.randrange(32768)] + [rng.randrange(g) for _ in range(3)] for _ in range(24)]
      r.key(cs, depth, shape=(2, 3, 4), bdt=rng.choice([torch.int64, torch.int32, torch.float32]))
      r.key([], depth)
      return r.ev
    return f
  for depth in range(1, 17):
    yield basis(depth)
    for _ in reps(tier, 2, 30): yield rnd(depth)

# ------------------------------------------------------------------ C02 / C03
CONF = [(1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (3, 0), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (4, 3),
        (5, 0), (5, 2), (6, 1), (7, 2), (8, 0), (8, 2), (9, 1), (10, 2), (12, 2), (16, 0), (16, 2)]

def built(r, rng, depth, full, bs=1, n=None, **kw):
  n = n or (rng.randint(1, 24) if depth <= 6 else rng.randint(1, 6))
  pts = cloud(rng, depth, n, bs)
  nrm = normals(rng, n) if rng.random() < 0.8 else None
  ft = feats(rng, n, rng.randint(1, 4)) if rng.random() < 0.8 else None
  return r.build(pts, depth, full, bs, nrm, ft, ndiv=rng.choice([1, 1, 256, 4096]), **kw), pts, nrm, ft

def below(r, pts, depth, bs):
  """The cloud in double precision, every coordinate moved up by almost a quarter of a cell (so the
  cell is the same, but rounding to single precision would change it)."""
  xyz = r.coords(pts, depth, dtype=torch.float64)
  xyz = xyz + (1 - 2.0 ** -12) * 0.25 * 2.0 ** (1 - depth)
  b = torch.tensor([p[0] for p in pts]) if bs > 1 else None
  return ocnn.octree.Points(xyz, batch_id=b, batch_size=bs)

def drive_C02(tier):
  def one(depth, full):
    def f(rng):
      r = Rec()
      bs = rng.choice([1, 1, 1, 2, 3, 5])
      n = rng.randint(1, 40 if depth <= 5 else 8)
      pts = cloud(rng, depth, n, bs)
      dt = rng.choice([torch.float32, torch.float32, torch.float64])
      i = r.build(pts, depth, full, bs, dtype=dt, layout=rng.choice('cts'),
                  bdim=rng.choice([1, 2]), bdtype=rng.choice([None, torch.int64, torch.int32, torch.float32]) if bs > 1 else None)
      for d in sorted({0, full, depth, rng.randint(0, depth)}):
        r.layer(i, d, rng.random() < 0.5)
      return r.ev
    return f
  def rebuild(rng):          # the same object re-used for a second cloud, and shared clouds
    r = Rec()
    depth, full = rng.choice([(3, 1), (4, 2), (2, 2)])
    bs = rng.choice([1, 2])
    pts = cloud(rng, depth, 10, bs)
    p = r.make_points(pts, depth, bs)
    r.build(pts, depth, full, bs, points=p)
    d2 = rng.choice([2, 3, 5])
    q = 4 << d2
    pts2 = [[a[0]] + [x * q // (4 << depth) for x in a[1:]] for a in pts]
    if d2 >= depth: r.build(pts2, d2, 1, bs, points=p)     # the same Points object at another depth
    r.build(pts, depth, full, bs, points=p)
    return r.ev
  def many(rng):             # larger batches
    r = Rec()
    bs = rng.choice([8, 17, 40])
    pts = cloud(rng, 3, rng.randint(5, 60), bs)
    r.build(pts, 3, rng.choice([0, 1]), bs)
    return r.ev
  def double(rng):           # double coordinates just below a cell boundary
    r = Rec()
    depth, full = rng.choice([(4, 1), (9, 2), (14, 0), (16, 1)])
    bs = rng.choice([1, 2])
    pts = inner(cloud(rng, depth, rng.randint(2, 10), bs), depth)
    r.build(pts, depth, full, bs, points=below(r, pts, depth, bs), up=1)
    return r.ev
  def wide(rng):             # as many batch elements as a half-precision number cannot count
    r = Rec()
    bs = 2100
    pts = [[b, rng.randrange(8), rng.randrange(8), rng.randrange(8)] for b in [bs - 1, bs - 2, bs - 51] + rng.sample(range(bs), 60)]
    r.build(pts, 1, 0, bs, bdtype=rng.choice([None, torch.int64, torch.float32]))
    return r.ev
  def large(rng):            # more nodes than a 16-bit number can count
    r = Rec()
    r.build(cloud(rng, 5, 60, 2), 5, 5, 2)
    return r.ev
  yield large
  yield wide
  for depth, full in CONF:
    for _ in reps(tier, 6, 60): yield one(depth, full)
  for _ in reps(tier, 10, 100): yield rebuild
  for _ in reps(tier, 8, 80): yield double
  for _ in reps(tier, 6, 60): yield many

def drive_C03(tier):
  def one(depth, full):
    def f(rng):
      r = Rec()
      bs = rng.choice([1, 1, 2, 3])
      n = rng.randint(1, 40)
      style = rng.choice(['dup', 'cluster', 'center', 'uniform', 'mixed', 'corner'])
      pts = cloud(rng, depth, n, bs, style)
      nrm = normals(rng, n) if rng.random() < 0.8 else None
      ft = feats(rng, n, rng.randint(1, 5)) if rng.random() < 0.8 else None
      dt = rng.choice([torch.float32, torch.float64])
      r.build(pts, depth, full, bs, nrm, ft, dtype=dt, layout=rng.choice('cts'), ndiv=rng.choice([1, 1, 256, 4096, 1 / 64]))
      perm = list(range(n)); rng.shuffle(perm)
      pick = lambda a: None if a is None else [a[j] for j in perm]
      r.build(pick(pts), depth, full, bs, pick(nrm), pick(ft), dtype=dt)
      return r.ev
    return f
  def crowded(rng):            # many points in one cell
    r = Rec()
    n = rng.choice([300, 700, 2500])
    pts = [[0] + [rng.randrange(4) for _ in range(3)] if rng.random() < .95 else [0] + [rng.randrange(16) for _ in range(3)] for _ in range(n)]
    r.build(pts, 2, 1, 1, normals(rng, n), feats(rng, n, 2), dtype=rng.choice([torch.float32, torch.float64]))
    return r.ev
  for depth, full in [c for c in CONF if c[0] <= 9] + [(12, 1), (16, 0)]:
    for _ in reps(tier, 6, 60): yield one(depth, full)
  for _ in reps(tier, 3, 30): yield crowded

# ------------------------------------------------------------------ C04
STR = ['N', 'L', 'D', 'P', 'F', 'ND', 'NDF', 'NDLPF', 'PL', 'FN', 'ndf', 'lp', 'dfn', 'PFLDN', 'NL', 'DP']
def drive_C04(tier):
  def one(depth, full):
    def f(rng):
      r = Rec()
      bs = rng.choice([1, 1, 2, 3, 6, 11])
      n = rng.randint(1, 16)
      pts = inner(cloud(rng, depth, n, bs), depth)
      nrm, ft = normals(rng, n), feats(rng, n, rng.randint(1, 4))
      i = r.build(pts, depth, full, bs, nrm, ft, dtype=rng.choice([torch.float32, torch.float64]))
      for s in rng.sample(STR, 4): r.feat(i, s, rng.random() < 0.5, module=rng.random() < 0.3)
      r.topoints(i, True); r.topoints(i, False)
      r.feat(i, rng.choice(STR), True)
      return r.ev
    return f
  def some(rng):              # absent attributes, merged and predicted octrees
    r = Rec()
    depth, full = rng.choice([(3, 1), (4, 2), (2, 2), (5, 1)])
    ids = []
    hasn, hasf = rng.random() < .5, rng.random() < .5
    fc = rng.randint(1, 3)
    for _ in range(rng.randint(1, 3)):
      n = rng.randint(1, 10)
      ids.append(r.build(inner(cloud(rng, depth, n), depth), depth, full, 1,
                         normals(rng, n) if hasn else None, feats(rng, n, fc) if hasf else None))
    m = r.merge(ids)
    for i in (m, ids[0]):
      for s in ['L', 'P', 'PL'] + (['N', 'ND', 'D'] if hasn else []) + (['F', 'FP'] if hasf else []):
        if rng.random() < 0.6: r.feat(i, s, rng.random() < 0.5)
      r.topoints(i, rng.random() < 0.5)
    return r.ev
  def pred(rng):
    r = Rec()
    depth, full, bs = rng.choice([(2, 1, 2), (3, 1, 1), (3, 2, 1), (4, 1, 2)])
    i = r.init(depth, full, bs)
    grow_random(r, rng, i, depth, full, 0.25)
    r.topoints(i, True); r.topoints(i, False)
    return r.ev
  for depth, full in CONF + [(11, 2), (13, 0), (15, 1)]:
    for _ in reps(tier, 4, 40): yield one(depth, full)
  for _ in reps(tier, 30, 300): yield some
  for _ in reps(tier, 12, 120): yield pred

def grow_random(r, rng, i, depth, full, p, upto=None, un=True):
  o = r.obj[i]
  for d in range(full, upto if upto is not None else depth + 1):
    n = int(o.nnum[d])
    mode = rng.random()
    if mode < 0.08: fl = [0] * n
    elif mode < 0.14 and n <= 64: fl = [1] * n
    else: fl = [1 if rng.random() < min(p, 12.0 / n) else 0 for _ in range(n)]
    r.split(i, d, fl)
    if d < depth: r.grow(i, d + 1, un)

def reshuffle(r, rng, i, d0=None, un=None):
  """Another tree of the same layer sizes: the split decisions of layers d0.. are permuted and the
  layers below regrown, so that nothing but the contents of the layers changes."""
  o = r.obj[i]
  D = o.depth
  if d0 is None: d0 = rng.randint(o.full_depth, D)
  un = un and o.neighs[d0] is not None
  old = [o.nempty_mask(d).int().tolist() for d in range(d0, D + 1)]
  for d in range(d0, D + 1):
    fl = old[d - d0]
    for _ in range(4):
      new = fl[:]; rng.shuffle(new)
      if new != fl: break
    r.split(i, d, new)
    if d < D: r.grow(i, d + 1, un)
  return d0

# ------------------------------------------------------------------ C05
def drive_C05(tier):
  def one(rng):
    r = Rec()
    depth, full = rng.choice([(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 2), (5, 1), (6, 0), (9, 1)])
    B = rng.choice([1, 2, 2, 3, 4, 7])
    ids, clouds = [], []
    fc = rng.randint(1, 3)
    hn, hf = rng.random() < 0.7, rng.random() < 0.7
    for b in range(B):
      n = rng.choice([1, 2, 5, rng.randint(1, 20)])
      pts = cloud(rng, depth, n)
      nr, ft = (normals(rng, n) if hn else None), (feats(rng, n, fc) if hf else None)
      clouds.append((pts, nr, ft))
      ids.append(r.build(pts, depth, full, 1, nr, ft))
      if rng.random() < 0.2: r.cneighs(ids[-1])
    m = r.merge(ids)
    if rng.random() < 0.6:        # the equally batched cloud builds the same octree
      allp = [[b] + p[1:] for b, (pts, _, _) in enumerate(clouds) for p in pts]
      alln = [v for _, nr, _ in clouds for v in nr] if hn else None
      allf = [v for _, _, ft in clouds for v in ft] if hf else None
      if rng.random() < 0.5:
        perm = list(range(len(allp))); rng.shuffle(perm)
        allp = [allp[j] for j in perm]
        alln = [alln[j] for j in perm] if hn else None
        allf = [allf[j] for j in perm] if hf else None
      r.build(allp, depth, full, B, alln, allf)
    # repeated / aliased inputs, later reuse
    r.merge([rng.choice(ids) for _ in range(rng.randint(1, 4))])
    if rng.random() < 0.5: r.merge(list(reversed(ids)))
    r.cneighs(m)
    for d in {rng.randint(1, depth), depth}:
      r.neigh(m, d, rng.choice(KERNELS), rng.choice([1, 2]), rng.random() < 0.5)
    r.layer(m, depth, True); r.layer(ids[0], rng.randint(0, depth), False)
    return r.ev
  def grown(rng):               # merging octrees that were grown, not built
    r = Rec()
    depth, full = rng.choice([(2, 1), (3, 1), (2, 0)])
    ids = []
    for _ in range(rng.randint(1, 3)):
      i = r.init(depth, full, 1); grow_random(r, rng, i, depth, full, 0.3); ids.append(i)
    m = r.merge(ids)
    r.cneighs(m)
    r.neigh(m, depth, '333', 1, True)
    return r.ev
  def large(rng):               # more nodes than a 16-bit number can count
    r = Rec()
    ids = [r.new(5, 5, 1) for _ in range(2)]
    for i in ids:
      for d in range(6): r.growfull(i, d, False)
    r.merge(ids)
    return r.ev
  def many(rng):                # many small octrees
    r = Rec()
    ids = [r.build(cloud(rng, 1, 2), 1, 0, 1) for _ in range(rng.choice([9, 17, 40]))]
    m = r.merge(ids); r.cneighs(m); r.neigh(m, 1, '333', 1, rng.random() < .5)
    return r.ev
  def again(rng):               # a source is regrown with the same layer sizes and merged again
    r = Rec()
    depth, full = rng.choice([(3, 1), (3, 2), (2, 1), (2, 0)])
    ids = [r.init(depth, full, 1) for _ in range(rng.randint(1, 3))]
    for j in ids: grow_random(r, rng, j, depth, full, .3, un=False)
    m = r.merge(ids); r.cneighs(m)
    for _ in range(2):
      reshuffle(r, rng, rng.choice(ids), rng.randint(full, depth), False)
      m2 = r.merge(ids); r.cneighs(m2)
      for q in (m, m2):
        r.layer(q, depth, rng.random() < .5); r.neigh(q, depth, '333', 1, rng.random() < .5)
    return r.ev
  def differ(rng):              # octrees of different shapes are refused
    r = Rec()
    depth, full = rng.choice([(3, 1), (3, 2), (4, 2)])
    ids = [r.build(cloud(rng, depth, 4), depth, full, 1) for _ in range(rng.randint(1, 2))]
    d2, f2 = rng.choice([(depth - 1, full), (depth + 1, full), (depth, full - 1), (depth, full + 1)])
    if f2 > d2: d2, f2 = depth, full - 1
    ids.insert(rng.randrange(len(ids) + 1), r.build(cloud(rng, d2, 4), d2, f2, 1))
    r.refuse(ids)
    r.merge([ids[0]])
    return r.ev
  yield large
  for _ in reps(tier, 8, 60): yield differ
  for _ in reps(tier, 10, 100): yield again
  for _ in reps(tier, 4, 40): yield many
  for _ in reps(tier, 110, 1200): yield one
  for _ in reps(tier, 20, 200): yield grown

# ------------------------------------------------------------------ C06
def drive_C06(tier):
  def one(depth, full):
    def f(rng):
      r = Rec()
      bs = rng.choice([1, 1, 2, 3])
      n = rng.randint(1, 20 if depth <= 5 else 3)
      i = r.build(cloud(rng, depth, n, bs, rng.choice([None, 'center', 'border', 'cluster'])), depth, full, bs)
      r.cneighs(i)
      ds = {depth, max(1, full), min(depth, full + 1), rng.randint(1, depth)}
      for d in ds:
        qs = [(k, s, ne) for k in KERNELS for s in (1, 2) for ne in (False, True)]
        for k, s, ne in [('333', 1, False)] + rng.sample(qs, 5): r.neigh(i, d, k, s, ne)
      r.neigh(i, depth, '333', 1, False)
      return r.ev
    return f
  def order(rng):             # depth-by-depth construction, repeated construction
    r = Rec()
    full = rng.choice([0, 1, 2])
    i = r.build(cloud(rng, 4, 8), 4, full)
    for d in range(min(full, 1), 5):
      r.cneigh(i, d)
      if d: r.neigh(i, d, rng.choice(KERNELS), rng.choice([1, 2]), rng.random() < .5)
    r.cneighs(i)
    r.neigh(i, 4, '333', 1, False)
    return r.ev
  def grown(rng):
    r = Rec()
    depth, full, bs = rng.choice([(3, 1, 2), (3, 2, 1), (4, 1, 1), (2, 0, 3)])
    i = r.init(depth, full, bs)
    grow_random(r, rng, i, depth, full, 0.3)
    for d in range(1, depth + 1):
      for _ in range(2): r.neigh(i, d, rng.choice(KERNELS), rng.choice([1, 2]), rng.random() < .5)
    return r.ev
  def again(rng):             # the same layer sizes with other contents: nothing may be remembered
    r = Rec()
    depth, full, bs = rng.choice([(3, 1, 2), (3, 2, 1), (4, 1, 1), (2, 1, 3), (3, 0, 1), (2, 1, 1)])
    if rng.random() < .5: i = r.build(cloud(rng, depth, rng.randint(3, 9), bs), depth, full, bs)
    else: i = r.init(depth, full, bs); grow_random(r, rng, i, depth, full, .3, un=False)
    r.cneighs(i)
    qs = [(d, k, s, ne) for d in range(1, depth + 1) for k in KERNELS for s in (1, 2) for ne in (False, True)]
    qs = rng.sample(qs, 7) + [(d, '333', 1, rng.random() < .5) for d in range(max(1, full), depth + 1)]
    for q in qs: r.neigh(i, *q)
    for _ in range(2):
      un = rng.random() < .5
      reshuffle(r, rng, i, rng.randint(full, depth), un)
      if not un: r.cneighs(i)
      for q in qs: r.neigh(i, *q)
    return r.ev
  def wide(rng):              # more nodes than a 16-bit number can count
    r = Rec()
    bs = rng.choice([9, 17])
    i = r.build(cloud(rng, 4, 30, bs), 4, 4, bs)
    n = 4096 * bs
    r.neighrows(i, 4, sorted({0, 1, n - 1, n // 2} | {rng.randrange(n) for _ in range(60)} | {rng.randrange(n - 4096, n) for _ in range(20)}))
    return r.ev
  yield wide
  for depth, full in CONF:
    for _ in reps(tier, 3, 40): yield one(depth, full)
  for _ in reps(tier, 12, 150): yield again
  for _ in reps(tier, 10, 100): yield order
  for _ in reps(tier, 14, 140): yield grown

# ------------------------------------------------------------------ C07
def queries(rng, r, i, d, n):
  o = r.obj[i]
  bs = o.batch_size
  g = 1 << d
  out = []
  x, y, z, b = [t.tolist() for t in o.xyzb(d)]
  for _ in range(n):
    m = rng.random()
    if m < 0.5 and b:
      j = rng.randrange(len(b)); c = [b[j], x[j], y[j], z[j]]
      if rng.random() < 0.3:
        a = rng.randrange(1, 4); c[a] = min(g - 1, max(0, c[a] + rng.choice([-1, 1])))
    elif m < 0.6: c = [rng.choice([bs, bs + 1, 300])] + [rng.randrange(g) for _ in range(3)]
    elif m < 0.7: c = [rng.randrange(bs), g - 1, g - 1, g - 1]
    else: c = [rng.randrange(bs)] + [rng.randrange(g) for _ in range(3)]
    out.append(c)
  return out

def drive_C07(tier):
  def one(depth, full):
    def f(rng):
      r = Rec()
      bs = rng.choice([1, 1, 2, 3])
      i = r.build(cloud(rng, depth, rng.randint(1, 12 if depth < 8 else 4), bs), depth, full, bs)
      for d in {depth, full, rng.randint(0, depth), min(depth, full + 1)}:
        for _ in range(2):
          q = queries(rng, r, i, d, rng.choice([0, 1, 40]))
          ne = rng.random() < 0.5
          r.search(i, d, q, ne, 'key')
          r.search(i, d, q, ne, 'xyzb')
          if q:
            fr = [[rng.randint(0, 7) for _ in range(3)] for _ in q]
            r.search(i, d, q, not ne, 'xyzb', frac=fr, dtype=torch.float32 if depth <= 12 else torch.float64)
      return r.ev
    return f
  def twins(rng):             # the same cell in far-away batch elements only
    r = Rec()
    depth, full = rng.choice([(2, 0), (3, 1)])
    g = 4 << depth
    bs = rng.choice([9, 17, 33])
    c = [rng.randrange(g) for _ in range(3)]
    own = rng.sample(range(bs), rng.randint(1, 3))
    i = r.build([[b] + c for b in own], depth, full, bs)
    for d in (full, depth):
      q = [[b] + [x >> (2 + depth - d) for x in c] for b in range(bs + 8)]
      for ne in (False, True):
        r.search(i, d, q, ne, 'key'); r.search(i, d, q, ne, 'xyzb')
    return r.ev
  def again(rng):             # the same layer sizes with other contents: nothing may be remembered
    r = Rec()
    depth, full, bs = rng.choice([(3, 1, 2), (3, 2, 1), (4, 1, 1), (2, 0, 3), (3, 0, 2)])
    if rng.random() < .5: i = r.build(cloud(rng, depth, rng.randint(3, 9), bs), depth, full, bs)
    else: i = r.init(depth, full, bs); grow_random(r, rng, i, depth, full, .3, un=False)
    qs = [(d, ne, how) for d in range(full, depth + 1) for ne in (False, True) for how in ('key', 'xyzb')]
    old = {d: queries(rng, r, i, d, 15) for d in range(depth + 1)}
    for k in range(3):
      for d, ne, how in qs: r.search(i, d, old[d] + (queries(rng, r, i, d, 15) if k else []), ne, how)
      if k < 2: reshuffle(r, rng, i, rng.randint(full, depth), False)
    return r.ev
  for depth, full in CONF:
    for _ in reps(tier, 4, 50): yield one(depth, full)
  for _ in reps(tier, 10, 120): yield again
  for _ in reps(tier, 10, 100): yield twins

# ------------------------------------------------------------------ C08
def drive_C08(tier):
  def one(rng):
    r = Rec()
    depth, full, bs = rng.choice([(1, 0, 1), (2, 0, 2), (2, 1, 1), (3, 0, 1), (3, 1, 1), (3, 1, 2), (3, 2, 1), (4, 1, 1), (5, 0, 1), (6, 0, 2), (2, 1, 3), (3, 1, 4)])
    i = r.init(depth, full, bs)
    grow_random(r, rng, i, depth, full, rng.choice([0.1, 0.3, 0.6]), un=True)
    for d in range(depth + 1):
      if rng.random() < .4: r.layer(i, d, rng.random() < .5)
      if d >= 1 and rng.random() < .5: r.neigh(i, d, rng.choice(KERNELS), rng.choice([1, 2]), rng.random() < .5)
    if rng.random() < 0.6:      # change of mind: re-split a layer and re-grow from there
      d0 = rng.randint(full, depth)
      grow_random(r, rng, i, depth, d0, 0.3)
      for d in range(max(1, d0), depth + 1): r.neigh(i, d, '333', 1, rng.random() < .5)
      r.search(i, depth, queries(rng, r, i, depth, 20), rng.random() < .5, 'key')
    return r.ev
  def frombuilt(rng):           # re-split layers of a built octree
    r = Rec()
    depth, full = rng.choice([(3, 1), (4, 2), (3, 0), (5, 1)])
    bs = rng.choice([1, 2])
    i = r.build(cloud(rng, depth, 8, bs), depth, full, bs)
    r.cneighs(i)
    d0 = rng.randint(full, depth)
    grow_random(r, rng, i, depth, d0, 0.3)
    for d in range(max(1, d0), depth + 1): r.neigh(i, d, rng.choice(KERNELS), 1, rng.random() < .5)
    return r.ev
  def again(rng):               # the same layer sizes with other contents: nothing may be remembered
    r = Rec()
    depth, full, bs = rng.choice([(3, 1, 2), (3, 2, 1), (4, 1, 1), (2, 0, 3), (3, 0, 2)])
    if rng.random() < .5: i = r.build(cloud(rng, depth, rng.randint(3, 9), bs), depth, full, bs)
    else: i = r.init(depth, full, bs); grow_random(r, rng, i, depth, full, .3, un=False)
    r.cneighs(i)
    for k in range(3):
      for d in range(full, depth + 1):
        for ne in (False, True): r.layer(i, d, ne)
        if d: r.neigh(i, d, rng.choice(KERNELS), rng.choice([1, 2]), rng.random() < .5)
        r.search(i, d, queries(rng, r, i, d, 10), rng.random() < .5, rng.choice(['key', 'xyzb']))
      if k < 2:
        un = rng.random() < .6
        reshuffle(r, rng, i, rng.randint(full, depth), un)
        if not un: r.cneighs(i)
    return r.ev
  def own(rng):                 # growing by the occupancy of a built octree reproduces it
    r = Rec()
    depth, full = rng.choice([(3, 1), (4, 2), (4, 1), (5, 0), (6, 2)])
    bs = rng.choice([1, 2])
    i = r.build(cloud(rng, depth, 8, bs), depth, full, bs)
    o = r.obj[i]
    j = r.new(depth, full, bs)
    ds = list(range(full + 1)); 
    for d in ds: r.growfull(j, d, un=True)
    for d in range(full, depth + 1):
      m = o.nempty_mask(d)
      r.split(j, d, m.int().tolist(), dtype=rng.choice([torch.int32, torch.int64]))
      if d < depth: r.grow(j, d + 1, un=rng.random() < 2)
    for d in range(1, depth + 1): r.neigh(j, d, '333', 1, rng.random() < .5)
    return r.ev
  def deep(rng):                # down to the finest depth along single cells
    r = Rec()
    depth, full, bs = rng.choice([(16, 0, 2), (12, 1, 3), (14, 2, 1)])
    i = r.init(depth, full, bs)
    for d in range(full, depth + 1):
      n = int(r.obj[i].nnum[d])
      fl = [0] * n
      for j in {rng.randrange(n), n - 1} if n < 32 else {n - 1}: fl[j] = 1
      r.split(i, d, fl)
      if d < depth: r.grow(i, d + 1, True)
    r.layer(i, depth, False)
    r.neigh(i, depth, '333', 1, False)
    r.search(i, depth, queries(rng, r, i, depth, 12), rng.random() < .5, 'xyzb')
    return r.ev
  def large(rng):               # more nodes than a 16-bit number can count
    r = Rec()
    i = r.new(5, 5, 2)
    r.growfull(i, 5, False)
    r.split(i, 5, [int(rng.random() < .9) for _ in range(65536)])
    return r.ev
  def nothing(rng):             # a network that stops splitting, in larger batches
    r = Rec()
    depth, full, bs = rng.choice([(2, 0, 4), (2, 1, 3), (3, 1, 5)])
    i = r.init(depth, full, bs)
    for d in range(full, depth + 1):
      n = int(r.obj[i].nnum[d])
      r.split(i, d, [0] * n if rng.random() < .7 else [1 if rng.random() < .2 else 0 for _ in range(n)])
      if d < depth: r.grow(i, d + 1, True)
    r.layer(i, depth, True)
    return r.ev
  yield large
  for _ in reps(tier, 8, 80): yield deep
  for _ in reps(tier, 8, 80): yield nothing
  for _ in reps(tier, 60, 700): yield one
  for _ in reps(tier, 30, 300): yield frombuilt
  for _ in reps(tier, 14, 150): yield again
  for _ in reps(tier, 20, 200): yield own

# ------------------------------------------------------------------ sessions generated by spec/GenSession.tla
def split_flags(k, n):
  if k == 'none': return [0] * n
  if k == 'all': return [1] * n
  if k == 'first': return [int(i == 1) for i in range(1, n + 1)]
  if k == 'last': return [int(i == n) for i in range(1, n + 1)]
  if k == 'alt': return [int(i % 3 == 2) for i in range(1, n + 1)]
  return [int(i % 8 in (0, 1) and i < 20) for i in range(1, n + 1)]

def replay_session(prog):
  """The commands of one behaviour of the session machine, on the real code."""
  import os, random
  from drv_points import ev_move
  rng = random.Random(repr(prog['cmds']) + os.environ.get('VERIF_SEED', '1'))
  r = Rec()
  D, F = prog['depth'], prog['full']
  hn, hf, fc = rng.random() < .6, rng.random() < .6, rng.randint(1, 3)
  heap = []                        # session index -> recorder id
  for c in prog['cmds']:
    k, a = c['c'], c['a']
    i = heap[c['i'] - 1] if c['i'] else None
    if k == 'build':
      pts = []
      for cell in prog['clouds'][a[0] - 1]:
        for _ in range(rng.choice([1, 1, 2, 3])): pts.append([cell[0]] + [4 * x + rng.randrange(4) for x in cell[1:]])
      rng.shuffle(pts)
      heap.append(r.build(pts, D, F, 1, normals(rng, len(pts)) if hn else None, feats(rng, len(pts), fc) if hf else None))
    elif k == 'init': heap.append(r.init(D, F, a[0]))
    elif k == 'merge': heap.append(r.merge([i] if not c['j'] else [i, heap[c['j'] - 1]]))
    elif k == 'split': r.split(i, c['d'], split_flags(c['k'], int(r.obj[i].nnum[c['d']])))
    elif k == 'grow': r.grow(i, c['d'], bool(a[0]))
    elif k == 'cneigh': r.cneigh(i, c['d'])
    elif k == 'cneighs': r.cneighs(i)
    elif k == 'neigh': r.neigh(i, c['d'], c['k'], a[0], bool(a[1]))
    elif k == 'layer': r.layer(i, c['d'], bool(a[0]))
    elif k == 'search':
      q = queries(rng, r, i, c['d'], 12)
      r.search(i, c['d'], q, bool(a[0]), rng.choice(['key', 'xyzb']))
    elif k == 'topoints': r.topoints(i, bool(a[0]))
    elif k == 'feat': r.feat(i, rng.choice((['N', 'ND', 'NL'] if hn else ['L']) + (['F', 'PF', 'LF'] if hf else ['P', 'LP'])), rng.random() < .5)
    elif k == 'move': heap.append(ev_move(r, rng, i, 'cpu:0' if a[0] else 'cpu'))
    else: raise RuntimeError(k)
  return r.ev
