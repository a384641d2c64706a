"""Per-property drivers: generators of cases.  A case is a function rng -> trace(s)."""
import random
import drv_struct
MODS = [drv_struct]
try:
  import drv_ops; MODS.append(drv_ops)
except ImportError as ex:
  if 'drv_ops' not in str(ex): raise
try:
  import drv_points; MODS.append(drv_points)
except ImportError as ex:
  if 'drv_points' not in str(ex): raise
try:
  import drv_net; MODS.append(drv_net)
except ImportError as ex:
  if 'drv_net' not in str(ex): raise
try:
  import drv_eval; MODS.append(drv_eval)
except ImportError as ex:
  if 'drv_eval' not in str(ex): raise
try:
  import drv_tools; MODS.append(drv_tools)
except ImportError as ex:
  if 'drv_tools' not in str(ex): raise
try:
  import drv_cfg; MODS.append(drv_cfg)
except ImportError as ex:
  if 'drv_cfg' not in str(ex): raise

try:
  import drv_guard; MODS.append(drv_guard)
except ImportError as ex:
  if 'drv_guard' not in str(ex): raise

try:
  import drv_grad; MODS.append(drv_grad)
except ImportError as ex:
  if 'drv_grad' not in str(ex): raise

def run(pid, tier, seed, k, n, progs):
  import torch
  import dflt
  LIMIT[0] = 300 if tier == 'quick' else 1800
  for j, pr in enumerate(progs):
    dflt.RNG.seed(seed * 7919 + j)
    for m in MODS:
      f = getattr(m, 'replay_' + pr['kind'], None)
      if f:
        for t in guard(f, pr['prog']): yield t
        break
    else: raise RuntimeError('no replayer for ' + pr['kind'])
  for m in MODS:
    d = getattr(m, 'drive_' + pid, None)
    if d is None: continue
    for i, case in enumerate(d(tier)):
      if i % n != k: continue
      s = (seed * 1000003 + i) & 0x7fffffff
      torch.manual_seed(s); dflt.RNG.seed(s)
      for t in guard(case, random.Random(s)): yield t

def aslist(x):
  if x and isinstance(x[0], dict): return [x]
  return x or []

def guard(f, arg):
  """A program that cannot be completed on the real code is itself an observation: the calls
  recorded so far followed by an event no specification allows."""
  import rec, traceback, signal
  rec.LAST[0] = None
  if HUNG[0]: return []          # the verdict is already decided
  signal.signal(signal.SIGALRM, hung)
  signal.alarm(LIMIT[0])
  try: return aslist(f(arg))
  except Exception as ex:
    signal.alarm(0)
    tr = rec.LAST[0].ev if rec.LAST[0] is not None else []
    return [tr + [{'e': 'crash', 'm': 's', 'err': '%s: %s' % (type(ex).__name__, ex), 'args': [], 'w': [],
             'dig': [], 'tb2': traceback.format_exc()[-1500:]}]]
  finally: signal.alarm(0)

LIMIT, HUNG = [300], [False]     # a case takes a few seconds at most
class DoesNotReturn(Exception): pass
def hung(*a):
  HUNG[0] = True
  raise DoesNotReturn('a call did not return within %d s' % LIMIT[0])
