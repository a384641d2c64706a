#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] : decides one property.

 1. exhaustive design models (TLC) that belong to the property,
 2. TLC-generated behaviours replayed in the real code,
 3. seeded drivers on the real code,
 and the recorded executions of 2 and 3 validated by TLC against spec/Trace.tla.
"""
import sys, os, re, json, signal, time, shutil, tempfile, subprocess
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'harness'))
import tlc
from registry import CHECKS

PY = '/opt/venv/bin/python'

def die(msg, rc=2):
  print('MACHINERY-ERROR: ' + msg); sys.exit(rc)

def main():
  pid = sys.argv[1]
  tier = os.environ.get('VERIF_TIER', 'quick')
  if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
  seed = int(os.environ.get('VERIF_SEED', '1') or '1')
  spec = CHECKS[pid]
  t0 = time.time()
  scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
  try:
    sys.exit(run(pid, tier, seed, spec, t0, scratch))
  finally:
    shutil.rmtree(scratch, ignore_errors=True)

def run(pid, tier, seed, spec, t0, scratch):
  shards = spec.get('shards', 4)
  viol = []
  left = lambda: max(20, (840 if tier == 'quick' else 14000) - (time.time() - t0))
  # ---- generated behaviours first (their replay needs them)
  gen = []
  for g in spec.get('gen', []):
    cfg = g.get(tier) or g['quick']
    gen.append((g, tlc.start(g['module'], cfg, workers=g.get('workers', 4), scratch=scratch,
                             extra=g.get('extra_' + tier, g.get('extra', ())),
                             env={'VERIF_SEED': str(seed)})))
  progs = []
  gen_states = gen_trans = 0
  gstat = []
  for g, p in gen:
    r = tlc.finish(p, 600)
    if not r['ok']: die('generator %s failed:\n%s' % (g['module'], r['txt'][-3000:]))
    n = 0
    for s in r['lines']:
      if s.startswith('@@PROG '):
        progs.append({'kind': g['kind'], 'prog': json.loads(s[7:])}); n += 1
    gen_states += r['distinct']; gen_trans += r['states']
    gstat.append({'module': g['module'], 'programs': n, 'distinct_states': r['distinct'],
                  'states_generated': r['states'], 'exhaustive': g.get('exhaustive', True)})
    if n == 0: die('generator %s printed no program' % g['module'])
  pf = os.path.join(scratch, 'programs.json')
  json.dump(progs, open(pf, 'w'))
  # ---- design models in parallel with the drivers
  designs = [(d, tlc.start(d['module'], d.get(tier) or d['quick'], workers=d.get('workers', 2),
                           scratch=scratch, extra=d.get('extra', ())))
             for d in spec.get('designs', []) if d.get(tier) or d.get('quick')]
  env = dict(os.environ, OMP_NUM_THREADS='2', PYTHONDONTWRITEBYTECODE='1', CUDA_VISIBLE_DEVICES='')
  env.pop('PYTHONPATH', None)
  if os.environ.get('VERIF_REPO'): env['PYTHONPATH'] = os.environ['VERIF_REPO']   # tools/mutate.py only
  dp = run_to([PY, os.path.join(V, 'harness', 'run.py'), pid, tier, str(seed), scratch,
                       pf, str(shards)], env, scratch, left())
  if dp.returncode != 0: die('driver failed:\n' + dp.stdout[-4000:])
  # ---- validate the traces
  tv = []
  for k in range(shards):
    f = os.path.join(scratch, 'trace_%d.json' % k)
    if os.path.exists(f) and os.path.getsize(f) > 2:
      tv.append((f, tlc.start('Trace.tla', 'Trace.cfg', workers=max(1, 8 // shards), scratch=scratch,
                              mem='5g', env={'TRACE_FILE': f})))
  states = trans = ntr = nev = 0
  kinds = {}
  samples = []
  for f, p in tv:
    r = tlc.finish(p, left())
    traces = json.load(open(f))
    for t in traces:
      for e in t: kinds[e['e']] = kinds.get(e['e'], 0) + 1
      nev += len(t)
    if not samples and traces: samples = [brief(traces[0]), brief(traces[-1])]
    if not r['ok']:
      # evaluation error inside a verdict: isolate the traces that cause it
      r['bad'], r['distinct'], r['states'] = isolate(traces, r, scratch, left)
      if not r['bad']: die('TLC failed:\n' + r['txt'][-3000:])
    elif len(r['done']) != len(traces):
      die('TLC finished %d of %d traces\n%s' % (len(r['done']), len(traces), r['txt'][-2000:]))
    states += r['distinct']; trans += r['states'] - len(traces); ntr += len(traces)
    first = {}
    for b in sorted(r['bad'], key=lambda b: (b[0], b[1])): first.setdefault(b[0], b)
    for b in first.values():
      viol.append((traces[b[0] - 1], b))
  # ---- design models
  dstat = []
  for d, p in designs:
    r = tlc.finish(p, left())
    if not r['ok']: die('design model %s failed (rc %s):\n%s' % (d['module'], r['rc'], r['txt'][-3000:]))
    dstat.append({'module': d['module'], 'distinct_states': r['distinct'],
                  'states_generated': r['states'], 'wall_s': round(r['wall'], 1)})
  if ntr == 0: die('no trace was recorded')
  ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {'states': states + sum(d['distinct_states'] for d in dstat) + gen_states,
                     'transitions': trans + sum(d['states_generated'] for d in dstat) + gen_trans,
                     'traces_validated_against_impl': ntr, 'events_validated': nev,
                     'event_kinds': kinds, 'design_models': dstat, 'generators': gstat,
                     'programs_replayed_from_spec': sum(g['programs'] for g in gstat),
                     'samples': samples,
                     'explanation': spec.get('note', '')},
        'assumptions': ['TLC evaluates the specification correctly',
                        'the recorder projects tensors faithfully (no expected value is computed in Python)'],
        'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
  out = os.environ.get('VERIF_OUT', V)                   # tools/ runs on scratch copies only
  os.makedirs(os.path.join(out, 'evidence'), exist_ok=True)
  json.dump(ev, open(os.path.join(out, 'evidence', pid + '.json'), 'w'), indent=1)
  for ln in open(os.path.join(V, 'KNOWN_FINDINGS.txt')) if os.path.exists(os.path.join(V, 'KNOWN_FINDINGS.txt')) else []:
    if ln.startswith('finding: property=%s ' % pid): print('KNOWN-FINDING: ' + ln[len('finding: '):].strip())
  if viol:
    rd = os.path.join(out, 'replays'); os.makedirs(rd, exist_ok=True)
    for k, (t, b) in enumerate(viol[:5]):
      rp = os.path.join(rd, '%s_%s_%d.json' % (pid, tier, k))
      json.dump({'property': pid, 'step': b[1], 'event': b[2], 'clauses': b[3],
                 'trace': [t[:b[1]]]}, open(rp, 'w'))
      e = t[b[1] - 1]
      print('rejected at step %d event %s clauses %s %s' % (b[1], b[2], b[3], e.get('err', '')))
      print('VIOLATION property=%s replay=%s' % (pid, rp))
    print('%d of %d traces rejected' % (len(viol), ntr))
    return 1
  print('%s ok: %d traces, %d events, %d design models, %.1fs' % (pid, ntr, nev, len(dstat), time.time() - t0))
  return 0

def run_to(cmd, env, cwd, limit):
  p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       start_new_session=True)
  try: p.stdout_txt, _ = p.communicate(timeout=limit)
  except subprocess.TimeoutExpired:
    os.killpg(p.pid, signal.SIGKILL); p.wait()
    die('the driver did not finish within %d s' % limit)
  p.stdout = p.stdout_txt
  return p

def brief(t):
  s = json.dumps([{k: v for k, v in e.items() if k not in ('dig', 'args', 'snap', 'tb')} for e in t[:3]])
  return s[:1500]

def isolate(traces, r, scratch, left):
  """A verdict that cannot be evaluated on a recorded value rejects that trace (TLC names the
  trace in the state it stopped at); anything that is not reproducible on that trace alone is a
  machinery error.  The remaining traces are validated without it."""
  bad, ids = [], list(range(1, len(traces) + 1))
  states = trans = 0
  f = os.path.join(scratch, 'iso.json')
  for _ in range(4):
    states += r['distinct']; trans += r['states']
    done = set()
    for b in r['bad']: bad.append([ids[b[0] - 1]] + b[1:])
    if r['timeout']:
      if bad: return bad, states, trans        # what was already rejected stays rejected
      die('trace validation timed out')
    for i in r['done']: done.add(ids[i - 1])
    if r['ok']: return bad, states, trans
    m = re.findall(r'^(?:/\\ )?tid = (\d+)', r['txt'], re.M)
    if not m: die('TLC failed:\n' + r['txt'][-3000:])
    i = ids[int(m[-1]) - 1]
    json.dump([traces[i - 1]], open(f, 'w'))
    q = tlc.finish(tlc.start('Trace.tla', 'Trace.cfg', workers=1, scratch=scratch, env={'TRACE_FILE': f}), min(300, left()))
    if q['ok'] or 'OutOfMemory' in q['txt']: die('TLC failed:\n' + r['txt'][-3000:])
    if os.environ.get('VERIF_DEBUG'):
      shutil.copy(f, '/tmp/iso_%d.json' % i); open('/tmp/iso_%d.txt' % i, 'w').write(q['txt'])
    bad.append([i, min(max(1, q['distinct']), len(traces[i - 1])), 'unevaluable', ['unevaluable']])
    ids = [j for j in ids if j != i and j not in done]
    if not ids: return bad, states, trans
    json.dump([traces[j - 1] for j in ids], open(f, 'w'))
    r = tlc.finish(tlc.start('Trace.tla', 'Trace.cfg', workers=4, scratch=scratch, mem='5g',
                             env={'TRACE_FILE': f}), left())
  return bad, states, trans

main()
