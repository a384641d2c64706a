"""run.py <property> <tier> <seed> <outdir> <programs.json> <shards>
Executes the property's programs on the real code; writes trace_<k>.json."""
import sys, os, json, random, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
pid, tier, seed, outdir, progfile, shards = sys.argv[1:7]
import rec           # imports torch and ocnn before forking
import drivers

def work(k, n):
  progs = json.load(open(progfile))[k::n]
  out = []
  for t in drivers.run(pid, tier, int(seed), k, n, progs):
    for e in t: e.pop('tb', None)
    out.append(t)
  with open(os.path.join(outdir, 'trace_%d.json' % k), 'w') as f: json.dump(out, f)

n = int(shards)
pids = []
for k in range(n):
  p = os.fork()
  if p == 0:
    rc = 0
    try: work(k, n)
    except BaseException:
      traceback.print_exc(); rc = 3
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)
  pids.append(p)
rc = 0
for p in pids:
  _, st = os.waitpid(p, 0)
  if st != 0: rc = 3
sys.exit(rc)
