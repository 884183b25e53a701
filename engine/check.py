"""Orchestrator: check.py PID [--tier quick|thorough] [--only CASE] [--strict]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import types

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable
ENV = dict(os.environ, TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='-1', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
TRUSTED = ["CPython, TensorFlow kernels for data movement (index tensors)", "the symbolic kernels of engine/expr.py, npsh.py, tfsh.py "
           "(validated each run: terms evaluated at sample points against the unmodified library)",
           "canonical forms of engine/norm.py (self-checked numerically each run)", "z3"]


def load_prop(pid):
    sys.path.insert(0, ROOT)
    import importlib.util
    p = os.path.join(ROOT, 'props', pid + '.py')
    spec = importlib.util.spec_from_file_location('props_' + pid, p)
    m = importlib.util.module_from_spec(spec)
    sys.dont_write_bytecode = True
    spec.loader.exec_module(m)
    return m


def spawn(kind, job, tmp, name):
    jf = os.path.join(tmp, name + '.job.json')
    of = os.path.join(tmp, name + '.out.json')
    ef = os.path.join(tmp, name + '.err')
    with open(jf, 'w') as f:
        json.dump(job, f)
    p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), kind, jf, of], stdout=open(ef, 'w'), stderr=subprocess.STDOUT,
                         cwd=tmp, env=ENV)
    return types.SimpleNamespace(p=p, out=of, err=ef, job=job, name=name, kind=kind)


def seen_candidates(w):
    """Cases of a running symbolic worker that already have counterexample candidates."""
    for f in (w.out, w.out + '.part'):
        try:
            return sum(1 for r in json.load(open(f)) if any(p.get('candidates') for p in r['paths']))
        except (OSError, ValueError):
            pass
    return 0


def collect(procs, limit, soft=None):
    """Results of the workers; once there are counterexamples to look at, the rest gets only the soft limit."""
    start = time.time()
    end = start + limit
    if soft:
        while any(w.p.poll() is None for w in procs) and time.time() < end:
            time.sleep(0.2)
            if time.time() > start + soft:
                if any(seen_candidates(w) for w in procs):
                    end = time.time()
                soft *= 1.3
    for w in procs:
        try:
            w.p.wait(timeout=max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            w.p.kill()
            w.p.wait()
            w.timeout = True
    res = []
    for w in procs:
        r = None
        for f in (w.out, w.out + '.part'):
            if os.path.exists(f):
                try:
                    r = json.load(open(f))
                    break
                except ValueError:
                    pass
        w.result = r
        w.complete = os.path.exists(w.out)
        w.log = open(w.err, errors='replace').read()[-3000:]
        res.append(w)
    return res


def num(x):
    if isinstance(x, dict):
        return complex(num(x['re']), num(x['im']))
    if isinstance(x, str):
        return float(x)
    return x


def compare(sv, cv, bits, floor=0.0):
    """Values of the encoding and of the plain library at the same point."""
    if len(sv) != len(cv):
        return "different sizes %d / %d" % (len(sv), len(cv))
    xs = [num(x) for x in sv]
    ys = [num(y) for y in cv]
    fin = [abs(complex(y)) for y in ys if not isinstance(y, bool) and abs(complex(y)) < 1e300]
    scale = max(fin + [1e-300, floor])
    tol = 5e-3 if bits == 32 else 1e-6
    for i, (x, y) in enumerate(zip(xs, ys)):
        if isinstance(x, bool) or isinstance(y, bool):
            if bool(x) != bool(y):
                return "element %d: encoding %s, library %s" % (i, x, y)
            continue
        x, y = complex(x), complex(y)
        if x != x or abs(x) == float('inf'):
            continue        # undefined: subject of the definedness obligations
        if y != y or abs(y) == float('inf') or abs(x - y) > tol * scale:
            return "element %d: encoding %s, library %s" % (i, x, y)
    return None


def known_findings():
    out = []
    f = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('known:'):
                d = {}
                head, _, text = l[6:].partition('|')
                for w in head.split():
                    k, _, v = w.partition('=')
                    d[k] = v
                d['text'] = text.strip()
                out.append(d)
    return out


def main():
    t0 = time.time()
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    strict = '--strict' in args
    only = None
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    if '--only' in args:
        only = args[args.index('--only') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in args
    limit = 800 if tier == 'quick' else 3300
    mod = load_prop(pid)
    cases = mod.cases(tier)
    if only:
        cases = [c for c in cases if only in c['name']]
    byname = {c['name']: c for c in cases}
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        return run(pid, tier, seed, mod, cases, byname, tmp, strict, verbose, limit, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, tier, seed, mod, cases, byname, tmp, strict, verbose, limit, t0):
    # ---------------------------------------------------------------- symbolic workers
    units = [(c['name'], b, c.get('cost', 1.0)) for c in cases for b in c.get('bits', (64, 32))]
    nw = int(os.environ.get('VERIF_JOBS', '8'))
    bins = []
    bitset = sorted(set(u[1] for u in units))
    tot = sum(u[2] + 0.02 for u in units)
    for b in bitset:
        us = sorted([u for u in units if u[1] == b], key=lambda u: -u[2])
        k = max(1, min(len(us), int(round(nw * sum(u[2] + 0.02 for u in us) / tot)))) if units else 1
        k = max(1, min(k, int(sum(u[2] for u in us) / getattr(mod, 'GRAIN', 0.5)) + 1))
        bb = [[] for _ in range(k)]
        load = [0.0] * k
        for u in us:
            i = load.index(min(load))
            bb[i].append(u[0])
            load[i] += u[2]
        bins += [(b, x) for x in bb if x]
    budget = getattr(mod, 'BUDGET', 180 if tier == 'quick' else 400)
    procs = []
    for i, (b, names) in enumerate(bins):
        procs.append(spawn('sym', dict(pid=pid, tier=tier, bits=b, cases=names, budget=budget, seed=seed), tmp, 'sym%d' % i))
    ws = collect(procs, limit * 0.75, 120 if tier == 'quick' else 600)
    problems = []
    results = []
    for w in ws:
        if w.result is None:
            problems.append("symbolic worker %s gave no result: %s" % (w.name, w.log[-600:]))
            w.result = []
        elif not w.complete:
            problems.append("symbolic worker %s did not finish" % w.name)
        got = set(r['case'] for r in w.result)
        for c in w.job['cases']:
            if c not in got:
                problems.append("case %s (%d bit) was not explored" % (c, w.job['bits']))
        results += w.result
    # ---------------------------------------------------------------- replays on the plain library
    items = {}
    for r in results:
        c = byname[r['case']]
        n = 0
        for pi, p in enumerate(r['paths']):
            items.setdefault(r['bits'], []).append(dict(case=r['case'], env=p['env'], seed=p.get('seed', 0), values=True, tag=['path', pi]))
            seenl = {}
            for ci, cd in enumerate(p.get('candidates', [])):
                k = cd['label']
                seenl[k] = seenl.get(k, 0) + 1
                if seenl[k] > 6 or n > 60:
                    continue
                n += 1
                items.setdefault(r['bits'], []).append(dict(case=r['case'], env=cd['env'], seed=p.get('seed', 0), tag=['cand', pi, ci], tight=cd['label'] if cd.get('tight') else None))
    # cases without a symbolic result are still run at one point
    have = set((r['case'], r['bits']) for r in results if r['paths'])
    for name, b, _ in units:
        if (name, b) not in have:
            items.setdefault(b, []).append(dict(case=name, env={}, seed=0, tag=['plain', 0]))
    procs = []
    for b, its in sorted(items.items()):
        k = max(1, min(4, len(its) // 25 + 1))
        for j in range(k):
            part = its[j::k]
            procs.append(spawn('conc', dict(pid=pid, tier=tier, bits=b, items=part), tmp, 'conc%d_%d' % (b, j)))
    cs = collect(procs, max(60, limit - (time.time() - t0)))
    conc = {}
    replays = 0
    for w in cs:
        if w.result is None or not w.complete:
            problems.append("replay worker %s gave no result: %s" % (w.name, w.log[-600:]))
            continue
        for it, r in zip(w.job['items'], w.result):
            replays += 1
            conc.setdefault((r['case'], w.job['bits']), []).append((it, r))
    # ---------------------------------------------------------------- verdicts
    violations = []
    unconfirmed = []
    validated = 0
    agg = dict(queries=0, unsat=0, solver_time=0.0, obligations=0, proved=0, definedness=0, paths=0)
    functions, ops = set(), {}
    known = [k for k in known_findings() if k.get('property') == pid]
    khits = {}

    def record(case, bits, it, r):
        hit = False
        fails = r['fails']
        entries = [(f['label'], f['what']) for f in fails]
        if r['status'] == 'exception':
            entries.append(('completes', r['error']))
        for label, what in entries:
            hit = True
            ks = [k for k in known if k.get('case') in (None, case) and k.get('label') in (None, label.replace(' ', '_'))]
            if ks:
                khits[ks[0]['text']] = (case, label, what)
                continue
            violations.append(dict(property=pid, case=case, bits=bits, label=label, what=what, env=it['env'], seed=it.get('seed', 0), tier=tier, tight=it.get('tight')))
        return hit

    for r in results:
        for k in agg:
            if k != 'paths':
                agg[k] += r[k]
        agg['paths'] += len(r['paths'])
        functions |= set(r['functions'])
        for k, v in r['ops'].items():
            ops[k] = ops.get(k, 0) + v
        key = (r['case'], r['bits'])
        runs = conc.get(key, [])
        tagged = {tuple(it['tag']): (it, x) for it, x in runs}
        confirmed_any = False
        for it, x in runs:
            if x['status'] == 'unmet':
                continue
            if record(r['case'], r['bits'], it, x):
                confirmed_any = True
        for pi, p in enumerate(r['paths']):
            t = tagged.get(('path', pi))
            if t is not None and 'values' in p:
                it, x = t
                if x['status'] == 'unmet':
                    problems.append("%s/%d: the sample point does not satisfy the assumptions concretely" % key)
                elif x['status'] == 'ok':
                    validated += 1
                    every = [abs(complex(num(y))) for ys in x['values'].values() for y in ys]
                    floor = 1e-3 * max([y for y in every if y < 1e300] + [0.0])
                    for oi, sv in p['values'].items():
                        cv = x['values'].get(oi)
                        bad = compare(sv, cv, r['bits'], floor) if cv is not None else "missing"
                        if bad and not confirmed_any:
                            problems.append("%s/%d: encoding differs from the library (%s: %s)" % (r['case'], r['bits'], x['labels'][int(oi)] if int(oi) < len(x['labels']) else oi, bad))
            cands = p.get('candidates', [])
            if cands and not confirmed_any:
                cd = cands[0]
                unconfirmed.append("%s/%d: %s (%s) not reproduced by the library" % (r['case'], r['bits'], cd['label'], cd['why']))
        for u in r['undecided']:
            problems.append("%s/%d undecided: %s" % (r['case'], r['bits'], u))
        for u in r['problems']:
            problems.append("%s/%d: %s" % (r['case'], r['bits'], u))
    for key, runs in conc.items():
        if key not in have:
            for it, x in runs:
                if x['status'] != 'unmet':
                    record(key[0], key[1], it, x)
    problems += unconfirmed
    # ---------------------------------------------------------------- report
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    lines = []
    seenv = {}
    for v in violations:
        k = (v['case'], v['label'])
        if k in seenv:
            continue
        seenv[k] = v
    if seenv:
        os.makedirs(rdir, exist_ok=True)
    for i, v in enumerate(list(seenv.values())[:8]):
        rp = os.path.join(rdir, '%s-%d.json' % (pid, i))
        with open(rp, 'w') as f:
            json.dump(v, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  case %s (%d bit), %s: %s" % (v['case'], v['bits'], v['label'], v['what']))
        vals = ", ".join("%s=%s" % kv for kv in sorted(v['env'].items())[:14])
        print("  at %s" % vals)
        print("  replay with: %s %s %s" % (PY, os.path.join(HERE, 'replay.py'), rp))
    for text, (c, l, w) in khits.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    pr = list(dict.fromkeys(problems))
    for p in pr[:40 if (verbose or strict) else 12]:
        print("NOT-EXPLORED property=%s %s" % (pid, p))
    wall = time.time() - t0
    bounds = getattr(mod, 'BOUNDS', '')
    samples = []
    for r in results[:6]:
        for p in r['paths'][:1]:
            samples.append(dict(case=r['case'], bits=r['bits'], path_condition=p['conds'][:4],
                                obligations=[(o['label'], o['status'], o['n'] if 'n' in o else 1) for o in p['obl'][:6]],
                                sample_point={k: p['env'][k] for k in list(p['env'])[:6]}))
    libf = sorted(set(f.split('__inference_')[-1].rsplit('_', 1)[0].lstrip('_') for f in functions))
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'other'),
              coverage=dict(
                  explanation="Symbolic execution of the library's own Python functions and TensorFlow graphs (regenerated from /repo on this "
                              "run) with every listed input a solver variable; each assertion is brought to canonical form and decided by z3 for "
                              "all values within the bounds; counterexamples are replayed on the unmodified library.",
                  cases=len(cases), symbolic_runs=len(results), symbolic_paths=agg['paths'],
                  obligations=agg['obligations'], discharged=agg['proved'], definedness_obligations=agg['definedness'],
                  solver_queries=agg['queries'], solver_unsat=agg['unsat'], solver_s=round(agg['solver_time'], 2),
                  functions_encoded=list(getattr(mod, 'FUNCTIONS', [])), graph_functions=libf[:80], ops_encoded=ops,
                  bounds=bounds, outside_bounds=getattr(mod, 'OUTSIDE', ''),
                  encodings_validated_against_library=validated, replays_on_library=replays,
                  not_explored=pr[:60], known_findings=list(khits), trusted_base=TRUSTED, samples=samples,
                  checker_cmd="%s engine/check.py %s" % (PY, pid)),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2), violations=len(seenv))
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d paths, %d/%d obligations discharged, %d queries, solver %.1f s, %d replays, wall %.1f s%s"
          % (pid, tier, len(cases), agg['paths'], agg['proved'], agg['obligations'], agg['queries'], agg['solver_time'], replays, wall,
             "" if not pr else ", %d not explored" % len(pr)))
    if verbose:
        for r in sorted(results, key=lambda r: -r["wall"])[:14]:
            print("  %-40s %d  %.1fs  paths %d  obl %d/%d  z3 %.1fs" % (r['case'], r['bits'], r['wall'], len(r['paths']), r['proved'], r['obligations'], r['solver_time']))
    if seenv:
        return 1
    if agg['proved'] == 0:
        print("nothing could be decided")
        return 2
    if strict and pr:
        return 4
    return 0


if __name__ == '__main__':
    sys.exit(main())
