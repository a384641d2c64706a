"""Input generators (seeded).  They only choose inputs; no expected values."""

def cloud(rng, depth, n, bs=1, style=None, empty_ok=True):
  """n points as [b, ux, uy, uz] in quarters of a finest cell, 0..4*2^depth (the upper bound
  is the coordinate +1)."""
  g = 4 << depth
  style = style or rng.choice(['uniform', 'cluster', 'dup', 'border', 'line', 'center', 'corner', 'plane', 'mixed'])
  bl = list(range(bs))
  if bs > 1 and empty_ok and rng.random() < 0.5:      # leave some batch elements without points
    bl = rng.sample(bl, rng.randint(1, bs))
  out = []
  c0 = [rng.randrange(g) for _ in range(3)]
  for i in range(n):
    s = style if style != 'mixed' else rng.choice(['uniform', 'cluster', 'dup', 'border', 'center', 'corner'])
    if s == 'uniform': u = [rng.randint(0, g) for _ in range(3)]
    elif s == 'cluster': u = [min(g, max(0, c + rng.randint(-6, 6))) for c in c0]
    elif s == 'dup': u = out[rng.randrange(len(out))][1:] if out and rng.random() < 0.7 else [rng.randint(0, g) for _ in range(3)]
    elif s == 'border': u = [rng.choice([0, g, rng.randint(0, g), g - 1]) for _ in range(3)]
    elif s == 'line':
      a = rng.randrange(3); u = list(c0); u[a] = rng.randint(0, g)
    elif s == 'center': u = [g // 2 + rng.randint(-5, 4) for _ in range(3)]
    elif s == 'corner': u = [rng.choice([0, 1, g - 1, g]) for _ in range(3)]
    else:
      u = [rng.randint(0, g), rng.randint(0, g), c0[2]]
    out.append([rng.choice(bl)] + [min(g, max(0, x)) for x in u])
  return out

def inner(pts, depth):
  """same cloud without the upper boundary (every point strictly inside its cell range)"""
  g = (4 << depth) - 1
  return [[p[0]] + [min(g, x) for x in p[1:]] for p in pts]

def normals(rng, n, style=None):
  style = style or rng.choice(['int', 'axis', 'cancel', 'pyth'])
  out = []
  for i in range(n):
    if style == 'axis':
      v = [0, 0, 0]; v[rng.randrange(3)] = rng.choice([-1, 1])
    elif style == 'pyth':
      v = rng.choice([[3, 4, 0], [0, -3, 4], [-4, 0, 3], [1, 2, 2], [2, -1, 2], [2, 3, 6], [0, 0, 0]])
    elif style == 'cancel' and out and rng.random() < 0.6:
      v = [-x for x in out[-1]]
    else:
      v = [rng.randint(-3, 3) for _ in range(3)]
    out.append(list(v))
  return out

def feats(rng, n, c, m=9):
  return [[rng.randint(-m, m) for _ in range(c)] for _ in range(n)]

KERNELS = ['333', '222', '311', '131', '113', '331', '313', '133']
