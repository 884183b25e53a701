"""Build seeded/<id>/ from edits and try them.

usage: plant.py EDITS.py [ID ...]
EDITS.py defines BUGS: list of dicts id, property, edits [(file, old, new)], needs, breaks, demo (python text; non-zero exit on the bug).
The edit is made in a scratch copy of /repo, the stable tests and the demo are run there.
"""
import json, os, subprocess, sys, shutil, importlib.util, concurrent.futures as cf

HEAD = '''import os, sys
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '-1')
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import numpy as np
'''
SH = '''#!/bin/bash
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env, timeout=timeout)


def tests(work):
    env = dict(os.environ, PYTHONPATH=work, MPLBACKEND='Agg', CUDA_VISIBLE_DEVICES='-1', TF_CPP_MIN_LOG_LEVEL='3', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    bad = []
    want = json.load(open('/opt/vp/BASELINE.json'))
    for extra in ('', '--backend64 --junitprefix=backend64'):
        r = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -rA test ' + extra, work, env)
        bad += [l for l in r.stdout.splitlines() if l.startswith('FAILED') or l.startswith('ERROR')]
    return bad


def one(b):
    bid = b['id']
    work = '/tmp/sb/' + bid
    if os.path.isdir(work):
        shutil.rmtree(work)
    shutil.copytree('/repo', work, ignore=shutil.ignore_patterns('__pycache__'))
    d = '/verif/seeded/' + bid
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(HEAD + b['demo'])
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    good = sh('bash %s/demo.sh' % d, work)
    for f, old, new in b['edits']:
        p = os.path.join(work, f)
        s = open(p, newline='').read()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if s.count(old) < 1:
            return bid, 'TEXT NOT FOUND ' + old
        if s.count(old) > 1 and not b.get('first'):
            return bid, 'AMBIGUOUS ' + old
        open(p, 'w', newline='').write(s.replace(old, new, 1))
    sh('git diff --no-color > %s/patch.diff' % d, work)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    bad = sh('bash %s/demo.sh' % d, work)
    t = tests(work) if not b.get('skip_tests') else []
    shutil.rmtree(work)
    ok = good.returncode == 0 and bad.returncode != 0 and not t
    return bid, 'ok' if ok else 'good=%d bad=%d tests=%s\n%s\n%s' % (good.returncode, bad.returncode, t[:3], good.stderr[-600:] if good.returncode else '', bad.stderr[-300:])


def main():
    spec = importlib.util.spec_from_file_location('edits', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    todo = [b for b in m.BUGS if len(sys.argv) < 3 or b['id'] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(3) as ex:
        for bid, r in ex.map(one, todo):
            print(bid, r, flush=True)


main()
