#!/usr/bin/env python3
"""Binding self-test: corrupts one leaf of one recorded event at a time and asks TLC whether the
specification rejects the corrupted trace.  Lists (event, field) pairs for which corruptions were
accepted, i.e. recorded values nothing depends on.  tools/selftest.py [C01 ...]"""
import sys, os, json, random, subprocess, tempfile, shutil, copy, re, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import tlc
PY = '/opt/venv/bin/python'
SKIP = {'m', 'e', 'w', 'dig', 'args', 'err', 'tb', 'id'}

def leaves(x, path=()):
  if isinstance(x, dict):
    for k, v in x.items(): yield from leaves(v, path + (k,))
  elif isinstance(x, list):
    for k, v in enumerate(x): yield from leaves(v, path + (k,))
  else: yield path

def setp(x, path, f):
  for k in path[:-1]: x = x[k]
  x[path[-1]] = f(x[path[-1]])

def corrupt(v, rng):
  if isinstance(v, bool): return not v
  if isinstance(v, int): return 3 if abs(v) >= 10**9 else v + rng.choice([1, -1]) if 0 < abs(v) < 100 else v + rng.choice([1, -1, 100000]) if v == 0 else v + 100000
  if isinstance(v, str): return v + 'x' if v != 'none' else 't'
  return v

def main(pids):
  for pid in pids:
    sc = tempfile.mkdtemp(prefix='verif_self_')
    try:
      json.dump([], open(sc + '/p.json', 'w'))
      env = dict(os.environ, OMP_NUM_THREADS='2', PYTHONDONTWRITEBYTECODE='1', CUDA_VISIBLE_DEVICES='')
      subprocess.run([PY, V + '/harness/run.py', pid, 'quick', '1', sc, sc + '/p.json', '4'], env=env, cwd=sc, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
      tr = [t for k in range(4) for t in json.load(open(sc + '/trace_%d.json' % k))]
      rng = random.Random(int(os.environ.get('VERIF_SEED', '1')))
      pool = collections.defaultdict(list)
      for t in tr:
        for l, e in enumerate(t):
          for k in e:
            if k not in SKIP: pool[(e['e'], k)].append((t, l))
      out, meta = [], []
      per = int(os.environ.get('PER', '4'))
      for (ek, k), lst in sorted(pool.items()):
        for t, l in rng.sample(lst, min(per, len(lst))):
          ls = [p for p in leaves(t[l][k]) if p]
          if len(json.dumps(t[:l + 1])) > 400000: continue
          c = copy.deepcopy(t[:l + 1])
          if not ls:
            if isinstance(t[l][k], (dict, list)): continue
            c[l][k] = corrupt(c[l][k], rng); p = ()
          else:
            p = rng.choice(ls); setp(c[l][k], p, lambda v: corrupt(v, rng))
          out.append(c); meta.append((ek, k, re.sub(r'\d+', '#', '.'.join(map(str, p)))))
      acc, tot = collections.Counter(), collections.Counter()
      for m in meta: tot[m[:2]] += 1
      rej = set(); ids = list(range(len(out)))
      unev = 0
      while ids:
        f = sc + '/t.json'; json.dump([out[i] for i in ids], open(f, 'w'))
        r = tlc.finish(tlc.start('Trace.tla', 'Trace.cfg', workers=6, scratch=sc, mem='6g', env={'TRACE_FILE': f}), 1800)
        bad = {ids[b[0] - 1] for b in r['bad']}; done = {ids[i - 1] for i in r['done']}
        rej |= bad
        if r['ok']: break
        m = re.findall(r'^(?:/\\ )?tid = (\d+)', r['txt'], re.M)
        if not m: print(r['txt'][-1500:]); break
        i = ids[int(m[-1]) - 1]; rej.add(i); unev += 1
        ids = [j for j in ids if j != i and j not in done]
      det = collections.defaultdict(collections.Counter)
      for i, m in enumerate(meta):
        if i not in rej: acc[m[:2]] += 1; det[m[:2]][m[2]] += 1
      print('%s: %d corruptions, %d rejected (%d unevaluable)' % (pid, len(out), len(rej), unev))
      for k in sorted(acc): print('   accepted %-28s %d/%d %s' % ('%s.%s' % k, acc[k], tot[k], dict(det[k])))
      sys.stdout.flush()
    finally: shutil.rmtree(sc, ignore_errors=True)

main(sys.argv[1:] or ['C%02d' % i for i in range(1, 38)])
