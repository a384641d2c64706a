"""quiet.py [Cxx ...]: applies tools/refactors.py to a scratch copy of /repo and runs the checks there;
every one has to be quiet."""
import os, sys, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools')); sys.path.insert(0, os.path.join(V, 'harness'))
import importlib
R = importlib.import_module(os.environ.get('REFACTORS', 'refactors')).R
from registry import CHECKS
w = tempfile.mkdtemp(prefix='quiet_')
repo = w + '/repo'
subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
for f, a, b in R:
  p = os.path.join(repo, f); s = open(p).read()
  if s.count(a) < 1: print('NOT APPLICABLE', f, a[:80]); continue
  open(p, 'w').write(s.replace(a, b, 1))
shutil.copytree('/repo/test/data', repo + '/test/data', dirs_exist_ok=True)
try:
  env = dict(os.environ, VERIF_REPO=repo, VERIF_OUT=w + '/out')
  t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', 'test'], cwd=repo, env=dict(env, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True)
  print(t.stdout[-600:])
  for p in sys.argv[1:] or CHECKS:
    q = subprocess.run([sys.executable, V + '/check.py', p], env=env, capture_output=True, text=True)
    print(p, q.returncode, q.stdout[-300:].strip() if q.returncode else 'quiet', flush=True)
finally: shutil.rmtree(w)
