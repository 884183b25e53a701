"""Run checks against changed copies of /repo, each bind-mounted over /repo in a mount namespace of its own.

usage: try_ns.py OUTDIR [-j N] [--tier T] ID[:PROP,PROP...] ...   (ID: a folder of seeded/, or a path to a diff)
"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

args = sys.argv[1:]
out = args.pop(0)
jobs, tier = 2, 'quick'
if '-j' in args:
    i = args.index('-j'); jobs = int(args[i + 1]); del args[i:i + 2]
if '--tier' in args:
    i = args.index('--tier'); tier = args[i + 1]; del args[i:i + 2]
os.makedirs(out, exist_ok=True)


def one(spec):
    bid, _, props = spec.partition(':')
    if bid.endswith('.diff') or bid == 'none':
        patch, name = bid, os.path.basename(bid)[:-5] if bid != 'none' else 'none'
        props = props.split(',')
    else:
        d = '/verif/seeded/' + bid
        patch, name = d + '/patch.diff', bid
        props = props.split(',') if props else [json.load(open(d + '/meta.json'))['property']]
    w = '/tmp/nsw/' + name + '_' + str(os.getpid())
    if os.path.isdir(w):
        shutil.rmtree(w)
    os.makedirs(w + '/e')
    shutil.copytree('/repo', w + '/r', ignore=shutil.ignore_patterns('__pycache__'))
    lines = []
    if patch != 'none':
        r = subprocess.run(['git', 'apply', patch], cwd=w + '/r', capture_output=True, text=True)
        if r.returncode:
            return '%s DOES NOT APPLY %s' % (name, r.stderr[:200])
    for p in props:
        t = time.time()
        log = '%s/%s.%s.log' % (out, name, p)
        cmd = 'mount --bind %s/r /repo && mount --bind %s/e /verif/evidence && exec python3 /verif/engine/check.py %s --tier %s --strict' % (w, w, p, tier)
        with open(log, 'w') as f:
            try:
                rc = subprocess.run(['unshare', '-Urm', 'bash', '-c', cmd], stdout=f, stderr=subprocess.STDOUT, timeout=900 if tier == 'quick' else 4000,
                                    env=dict(os.environ, VERIF_JOBS=str(max(2, 8 // jobs)))).returncode
            except subprocess.TimeoutExpired:
                rc = 'TIMEOUT'
        s = open(log).read()
        lines.append('%s %s rc=%s %ds %d violations, %d not explored' % (name, p, rc, time.time() - t, s.count('\nVIOLATION') + s.startswith('VIOLATION'), s.count('NOT-EXPLORED')))
        with open(out + '/summary', 'a') as f:
            f.write(lines[-1] + '\n')
    shutil.rmtree(w)
    return '\n'.join(lines)


with ThreadPoolExecutor(jobs) as ex:
    for r in ex.map(one, args):
        print(r, flush=True)
