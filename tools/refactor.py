"""Behaviour-preserving edits of pySLM2, as diffs: tools/refactor.py OUTDIR [names].

Every check must stay quiet on them (tools/try_ns.py OUT path.diff:C01,C02)."""
import os, re, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
R = {}


def refactor(name, edits):
    R[name] = edits


for f in sorted(os.listdir(os.path.join(HERE, 'refactors'))):
    if f.endswith('.py'):
        exec(compile(open(os.path.join(HERE, 'refactors', f)).read(), f, 'exec'), dict(refactor=refactor))
out = sys.argv[1]
os.makedirs(out, exist_ok=True)
for name in sys.argv[2:] or R:
    d = tempfile.mkdtemp(prefix='rf_')
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
    subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A -f && git -c user.name=a -c user.email=a@b commit -qm x' % (d, d), shell=True, check=True)
    for path, old, new in R[name]:
        p = os.path.join(d, path)
        s = open(p, newline='').read()
        crlf = '\r\n' in s
        s = s.replace('\r\n', '\n')
        pat = r'[ \t]*\n(?:[ \t]*\n)*'.join(re.escape(l.rstrip()) for l in old.split('\n') if l.strip()) + (r'[ \t]*\n' if old.endswith('\n') else '')
        if len(re.findall(pat, s)) != 1:         # blank lines do not matter
            print(name, path, 'matches', len(re.findall(pat, s)), repr(old[:70]))
            sys.exit(1)
        s = re.sub(pat, lambda m: new, s)
        open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
    diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True).stdout
    open(os.path.join(out, name + '.diff'), 'wb').write(diff)
    shutil.rmtree(d)
    print(name, len(diff))
