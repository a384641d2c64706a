"""Runs the checks against the planted bugs of /verif/seeded in scratch copies, 3 at a time.
   python3 tools/run_seeded.py [id ...] [--all-props] -> table of caught / missed"""
import sys, os, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(b):
  d = V + '/seeded/' + b
  prop = json.load(open(d + '/meta.json'))['property']
  c = tempfile.mkdtemp(prefix='seeded_')
  try:
    r = c + '/repo'
    subprocess.check_call(['cp', '-a', '/repo', r])
    subprocess.check_call(['git', '-C', r, 'apply', d + '/patch.diff'])
    e = dict(os.environ, VERIF_REPO=r, VERIF_OUT=c)
    p = subprocess.run([sys.executable, V + '/check.py', prop], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
    ok = p.returncode == 1 and 'VIOLATION property=' + prop in p.stdout
    why = [l for l in p.stdout.splitlines() if l.startswith('rejected')]
    return b, prop, p.returncode, ok, (why[0][:150] if why else p.stdout[-300:])
  finally:
    shutil.rmtree(c, ignore_errors=True)
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
with ThreadPoolExecutor(3) as ex:
  for b, prop, rc, ok, why in ex.map(one, ids):
    print('%-24s %s %s rc=%s %s' % (b, prop, 'CAUGHT' if ok else 'MISSED', rc, why), flush=True)
