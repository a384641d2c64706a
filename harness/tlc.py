"""Running TLC and reading its output (stdlib only)."""
import os, re, json, subprocess, tempfile, shutil, time
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')

def start(module, cfg, workers=2, env=None, mem='3g', extra=(), scratch=None):
  md = tempfile.mkdtemp(prefix='tlcmd', dir=scratch)
  cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + mem, '-Xss64m',
         '-Djava.io.tmpdir=' + md,
         '-cp', JAR + ':' + CM, 'tlc2.TLC', '-workers', str(workers), '-metadir', md,
         '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
  e = dict(os.environ); e.update(env or {})
  out = open(os.path.join(md, 'out.txt'), 'w+')
  p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=out, stderr=subprocess.STDOUT)
  p._md, p._out, p._t0 = md, out, time.time()
  return p

def finish(p, timeout=None):
  try:
    p.wait(timeout)
    to = False
  except subprocess.TimeoutExpired:
    p.kill(); p.wait(); to = True
  p._out.flush(); p._out.seek(0)
  txt = p._out.read(); p._out.close()
  shutil.rmtree(p._md, ignore_errors=True)
  r = {'rc': p.returncode, 'txt': txt, 'timeout': to, 'wall': time.time() - p._t0,
       'bad': [], 'done': set(), 'lines': []}
  for ln in txt.splitlines():
    if ln.startswith('"@@'):
      try: s = json.loads(ln)      # TLC string escapes are JSON compatible
      except Exception: continue
      if s.startswith('@@BAD '): r['bad'].append(json.loads(s[6:]))
      elif s.startswith('@@DONE '): r['done'].add(int(s[7:]))
      else: r['lines'].append(s)
  m = re.findall(r'(\d+) states generated, (\d+) distinct states found', txt)
  r['states'], r['distinct'] = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
  r['ok'] = (p.returncode == 0)
  return r
