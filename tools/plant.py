"""Builds /verif/seeded/<id>/ from the definitions in tools/plants_*.py.
   python3 tools/plant.py [id ...]     (needs the scratch copy, which it makes and removes)
Every bug is confirmed in a scratch copy: stable tests still pass, the demo exits 0 without and
non-zero with the change."""
import sys, os, json, subprocess, shutil, glob, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/plant_copy'
PY = '/opt/venv/bin/python'
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2 CUDA_VISIBLE_DEVICES=\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def load():
  out = []
  for f in sorted(glob.glob(V + '/tools/plants_*.py')):
    sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    out += m.PLANTS
  return out

def env():
  e = dict(os.environ, PYTHONPATH=S, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='4', CUDA_VISIBLE_DEVICES='')
  return e

def demo(d):
  p = subprocess.run(['bash', d + '/demo.sh'], cwd=S, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
  return p.returncode, p.stdout[-600:]

def tests():
  x = '/tmp/plant_junit.xml'
  subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-x' if False else '-q',
                  '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + x, 'test'],
                 cwd=S, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
  import xml.etree.ElementTree as ET
  ok = set()
  for t in ET.parse(x).getroot().iter('testcase'):
    if not any(c.tag in ('failure', 'error', 'skipped') for c in t):
      ok.add(t.get('classname') + '::' + t.get('name'))
  os.remove(x)
  return STABLE - ok

def main():
  want = sys.argv[1:]
  shutil.rmtree(S, ignore_errors=True)
  subprocess.check_call(['cp', '-a', '/repo', S])
  assert tests() == set(), tests()
  for b in load():
    if want and b['id'] not in want: continue
    d = V + '/seeded/' + b['id']
    if not want and os.path.exists(d + '/meta.json'): continue
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(b['demo'])
    rc0, o0 = demo(d)
    for f, old, new in b['edits']:
      s = open(S + '/' + f).read()
      assert s.count(old) == 1, (b['id'], f, s.count(old), old)
      open(S + '/' + f, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', S, 'diff'], text=True)
    rc1, o1 = demo(d)
    broken = tests()
    subprocess.check_call(['git', '-C', S, 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    good = rc0 == 0 and rc1 != 0 and not broken
    print(b['id'], b['property'], 'OK' if good else 'BAD rc0=%s rc1=%s broken=%s\n%s\n%s' % (rc0, rc1, broken, o0, o1), flush=True)
    if not good: shutil.rmtree(d)
  shutil.rmtree(S, ignore_errors=True)
main()
