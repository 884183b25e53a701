"""One process executing scenarios of a property: symbolically (sym) or on the plain library (conc).

usage: worker.py sym|conc JOB.json OUT.json
"""
import json
import os
import sys
import time
import traceback
import importlib.util

os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '-1')
os.environ.setdefault('MPLBACKEND', 'Agg')
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(100000)
sys.dont_write_bytecode = True

import numpy as np


def load_prop(pid):
    p = os.path.join(ROOT, 'props', pid + '.py')
    spec = importlib.util.spec_from_file_location('props_' + pid, p)
    m = importlib.util.module_from_spec(spec)
    sys.modules['props_' + pid] = m
    spec.loader.exec_module(m)
    return m


def setup_library(bits, backend_fft=None):
    import tensorflow as tf
    tf.config.threading.set_intra_op_parallelism_threads(1)
    tf.config.threading.set_inter_op_parallelism_threads(1)
    import pySLM2
    if bits == 64:
        pySLM2.BACKEND.dtype = tf.float64
    return pySLM2


LIBMODS = ['pySLM2', 'pySLM2._backend', 'pySLM2._lib', 'pySLM2.profile', 'pySLM2.window', 'pySLM2.analysis', 'pySLM2.slm',
           'pySLM2.simulation', 'pySLM2.util', 'pySLM2.util.controller', 'pySLM2.util.sample']


def jsonable(x):
    if isinstance(x, (np.floating,)):
        x = float(x)
    if isinstance(x, (np.complexfloating, complex)):
        return {'re': jsonable(float(x.real)), 'im': jsonable(float(x.imag))}
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    return str(x)


def unjson(x):
    if isinstance(x, dict):
        return complex(unjson(x['re']), unjson(x['im']))
    if isinstance(x, str):
        return float(x)
    return x


# ============================================================================================ concrete

def run_conc(job):
    bits = job['bits']
    mod = load_prop(job['pid'])
    if hasattr(mod, 'pre_import'):
        mod.pre_import(False)
    setup_library(bits)
    from engine import adapter as AD
    import tensorflow as tf
    rnd = install_random()
    cases = {c['name']: c for c in mod.cases(job['tier'])}
    out = []
    for item in job['items']:
        c = cases[item['case']]
        res = dict(case=item['case'], tag=item.get('tag'), status='ok', fails=[], values={})
        env = {k: unjson(v) for k, v in item['env'].items()}
        A = AD.Conc(env, bits, item.get('seed', 0))
        A.rnd = rnd
        rnd.env = A.env
        rnd.k = 0
        np.random.seed(0)
        t = time.time()
        try:
            with np.errstate(all='ignore'):
                reset_library()
                c['fn'](A)
        except AD.Retry:
            res['status'] = 'unmet'
            out.append(res)
            continue
        except Exception as e:
            res['status'] = 'exception'
            res['error'] = "%s: %s" % (type(e).__name__, str(e)[:300])
            res['tb'] = traceback.format_exc()[-1500:]
        for i, o in enumerate(A.obl):
            bad = judge(A, o, c, item.get('tight') == o['label'])
            if bad:
                res['fails'].append(dict(index=i, label=o['label'], what=bad))
            if item.get('values') and o.get('a') is not None:
                res['values'][str(i)] = [jsonable(v) for v in np.asarray(o['a'], dtype=object).reshape(-1)[:400]]
        res['labels'] = [o['label'] for o in A.obl]
        res['env'] = {k: jsonable(v) for k, v in A.env.items()}
        res['wall'] = time.time() - t
        out.append(res)
    return out


def judge(A, o, case, tight=False):
    """Does an obligation fail on concrete values?"""
    if o['kind'] in ('shape',):
        return o['bad']
    if o['kind'] == 'fact':
        return None if o['ok'] else (o['bad'] or 'does not hold')
    a = np.asarray(o['a'], dtype=object).reshape(-1)
    if o['kind'] == 'true':
        for i, v in enumerate(a):
            if not bool(v):
                return "element %d: condition is false" % i
        return None
    e = np.asarray(o['e'], dtype=object).reshape(-1)
    tol = o['o'].get('tol')
    if tol is None:
        tol = 2e-3 if A.bits == 32 else 2e-9 if tight else 1e-6
    scale = o['o'].get('scale')
    if scale is None:
        mags = [abs(complex(v)) for v in e if np.isfinite(complex(v))] + [0.0]
        scale = max(mags)
        scale = max(scale, 1e-3) if scale > 0 else 1.0      # below that it may be the rounding residue of larger terms
    worst = None
    for i, (x, y) in enumerate(zip(a, e)):
        if isinstance(y, (bool, np.bool_)) or isinstance(x, (bool, np.bool_)):
            if bool(x) != bool(y):
                return "element %d: got %s, expected %s" % (i, bool(x), bool(y))
            continue
        x, y = complex(x), complex(y)
        if not np.isfinite(y):
            if np.isnan(y) and np.isnan(x):
                continue
            if o['o'].get('nonfinite'):
                if x == y:
                    continue
            return "element %d: got %s, expected %s" % (i, x, y)
        if not np.isfinite(x):
            return "element %d: got %s, expected %s" % (i, x, y)
        if abs(x - y) > tol * scale:
            if worst is None or abs(x - y) > worst[0]:
                worst = (abs(x - y), "element %d: got %s, expected %s" % (i, x if x.imag else x.real, y if y.imag else y.real))
    return worst[1] if worst else None


class RandomStub(object):
    """tf.random / np.random draws come from the sample point: u0, u1, ... (as in the symbolic run)."""
    env = None
    k = 0

    def value(self, nm):
        if nm not in self.env:
            import random
            self.env[nm] = random.Random(nm).uniform(0.05, 0.95)
        return self.env[nm]

    def draw(self, shape, dtype):
        shape = tuple(int(s) for s in np.asarray(shape).reshape(-1))
        n = int(np.prod(shape)) if shape else 1
        out = np.empty(n)
        for i in range(n):
            nm = "u%d" % self.k
            self.k += 1
            out[i] = self.value(nm)
        return out.reshape(shape).astype(dtype)


def install_random():
    import tensorflow as tf
    from tensorflow.python.ops import gen_random_ops
    st = RandomStub()

    def random_uniform(shape, dtype, seed=0, seed2=0, name=None):
        dtype = tf.as_dtype(dtype)
        s = tf.convert_to_tensor(shape)
        r = tf.numpy_function(lambda sh: st.draw(sh, dtype.as_numpy_dtype), [s], dtype)
        from tensorflow.python.framework import tensor_util
        cs = tensor_util.constant_value_as_shape(s)
        r.set_shape(cs)
        return r
    gen_random_ops.random_uniform = random_uniform
    np.random.rand = lambda *s: st.draw(s, np.float64) if s else float(st.draw((), np.float64))
    np.random.random = lambda size=(): st.draw((size,) if isinstance(size, int) else (size or ()), np.float64)
    np.random.random_sample = np.random.random

    def uniform(low=0.0, high=1.0, size=()):
        return st.draw((size,) if isinstance(size, int) else (size or ()), np.float64) * (high - low) + low
    np.random.uniform = uniform
    return st


def reset_library():
    """Back to the state right after import (FFT back end on NumPy)."""
    from pySLM2 import BACKEND
    BACKEND.fft_backend = BACKEND.FFT_BACKEND_NUMPY


# ============================================================================================ symbolic

class Sampler(object):
    def __init__(self, case, bits):
        self.case, self.bits = case, bits


def run_sym(job):
    bits = job['bits']
    t0 = time.time()
    mod = load_prop(job['pid'])
    if hasattr(mod, 'pre_import'):
        mod.pre_import(True)
    lib = setup_library(bits)
    from engine import expr as E, norm as N, npsh as S, tfsh as T, prove as P, adapter as AD
    import tensorflow as tf
    for m in LIBMODS + list(getattr(mod, 'INJECT', ())):
        try:
            mm = importlib.import_module(m)
        except ImportError:
            continue
        S.inject(mm)
    T.S_UF[0] = AD.uf_num
    T.install()
    cases = {c['name']: c for c in mod.cases(job['tier'])}
    out = []
    for name in job['cases']:
        c = cases[name]
        t = time.time()
        r = sym_case(job, c, bits, lib)
        r['wall'] = time.time() - t
        out.append(r)
        with open(job['out'] + '.tmp', 'w') as f:
            json.dump(out, f)
        os.replace(job['out'] + '.tmp', job['out'] + '.part')
    return out


class limited(object):
    """Leave a computation with Unsupported when it takes too long."""

    def __init__(self, seconds):
        self.seconds = max(1.0, seconds)

    def ring(self, *args):
        from engine import expr as E
        raise E.Unsupported("time budget used up")

    def __enter__(self):
        import signal
        self.old = signal.signal(signal.SIGALRM, self.ring)
        signal.setitimer(signal.ITIMER_REAL, self.seconds, 5.0)

    def __exit__(self, *exc):
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def sym_case(job, case, bits, lib):
    from engine import expr as E, norm as N, npsh as S, tfsh as T, prove as P, adapter as AD
    import tensorflow as tf
    res = dict(case=case['name'], bits=bits, mode=case.get('mode', 'real'), paths=[], problems=[], undecided=[], functions={}, ops={},
               queries=0, unsat=0, solver_time=0.0, obligations=0, proved=0, definedness=0)
    deadline = time.time() + float(case.get('budget', job.get('budget', 200)))
    queue = [dict(env={}, seed=0)]
    done = set()
    maxpaths = case.get('max_paths', 24)
    T.STATS['functions'].clear()
    T.STATS['ops'].clear()
    while queue:
        if len(res['paths']) >= maxpaths:
            res['problems'].append("more than %d paths" % maxpaths)
            break
        if time.time() > deadline:
            res['problems'].append("time budget used up")
            break
        q = queue.pop(0)
        run = exec_path(case, bits, q, job)
        if run is None:
            res['problems'].append("no sample point satisfies the assumptions")
            break
        A, conds, err, seed = run
        sig = tuple(c.id for c in conds)
        if sig in done:
            continue
        done.add(sig)
        p = dict(conds=[E.show(c, 4) for c in conds][:12], env={k: jsonable(v) for k, v in A.env.items()}, seed=seed, obl=[])
        res['paths'].append(p)
        if err is not None:
            p['error'] = err
            if err['kind'] == 'unsupported':
                res['problems'].append("not encodable: " + err['text'])
                continue
        try:
            prove_path(case, bits, A, conds, err, res, p, queue, done, deadline)
        except E.Unsupported as e:
            res['problems'].append("not encodable: " + str(e)[:400])
    res['functions'] = sorted(T.STATS['functions'])
    res['ops'] = dict(T.STATS['ops'])
    return res


def reset_shadow():
    from engine import npsh as S, tfsh as T, expr as E
    E.SLACK.clear()
    T.TAGS.clear()
    T.REG.clear()
    T.RES.clear()
    T.ERRORS[:] = []
    S.PATH.conds = []
    S.RUN[0] += 1
    S.Fresh.counter = 0
    S.Fresh.log = []
    E.FPMODE[0] = False


def exec_path(case, bits, q, job):
    from engine import expr as E, npsh as S, tfsh as T, adapter as AD, norm as N
    for k in range(60):
        reset_shadow()
        E.FPMODE[0] = case.get('mode') == 'fp'
        E.ROUND32[0] = bits == 64 and not E.FPMODE[0]
        env = T._Dummy(q['env'])
        seed = q['seed'] + k
        A = AD.Sym(env, bits, seed)
        A.env = env
        T.DUMMY = env
        N.POSVARS.clear()
        N.INTVARS.clear()
        np.random.seed(0)
        err = None
        try:
            with np.errstate(all='ignore'):
                reset_library()
                case['fn'](A)
        except AD.Retry:
            if q['env'] and k > 3:
                return None
            continue
        except E.Unsupported as e:
            err = dict(kind='unsupported', text=str(e)[:400], tb=traceback.format_exc()[-2500:])
            if 'ambiguous value tag' in err['text'] and k < 8:
                # two quantities happen to have the same value at this point: move it a little
                import random
                rnd = random.Random(k)
                q = dict(q, env={n: (v if isinstance(v, bool) or n in N.INTVARS or v == 0 else AD.f32(v * (1 + rnd.uniform(-0.02, 0.02))))
                                 for n, v in dict(env).items()})
                continue
        except Exception as e:
            if T.ERRORS:
                err = dict(kind='unsupported', text=str(T.ERRORS[0])[:400], tb=traceback.format_exc()[-2500:])
            else:
                err = dict(kind='exception', text="%s: %s" % (type(e).__name__, str(e)[:300]), tb=traceback.format_exc()[-2500:])
        return A, list(S.PATH.conds), err, seed
    return None


def var_values(A, nodes):
    """Sample point restricted and extended to the variables of the nodes."""
    from engine import expr as E
    import random
    env = {}
    for v in E.variables(nodes):
        env[v.val] = A.env[v.val]
    return env


def draw_env(A, names, rnd, how):
    """A random point near the scenario's sample ranges."""
    from engine.adapter import f32
    env = {}
    for n in names:
        v = A.env[n]
        if isinstance(v, bool):
            env[n] = rnd.random() < 0.5
        elif n in A.N.INTVARS:
            env[n] = v
        elif n.startswith('u') and n[1:].isdigit():
            env[n] = f32(rnd.random() * 0.998 + 0.001)
        else:
            if how == 0:
                env[n] = f32(v * rnd.uniform(0.6, 1.4))
            elif how == 1:
                env[n] = f32(v * rnd.choice([1, -1, 0.5, 2, rnd.uniform(-1.5, 1.5), rnd.uniform(0, 1)]))
            elif how == 2:
                env[n] = f32(v * rnd.choice([1, 0, 1, -1, 1]))
            else:
                env[n] = f32(v + rnd.uniform(-1, 1) * max(1.0, abs(v)) * rnd.choice([0.2, 1, 5]))
    return env


def satisfied(env, nodes):
    from engine import expr as E
    from engine.adapter import uf_num
    try:
        val = E.evaluate(nodes, env, uf_num)
    except (KeyError, OverflowError, ZeroDivisionError):
        return False
    return all(bool(val[n.id]) for n in nodes)


def num_bad(o, i, env, tol):
    """Numerically evaluated: is element i of the obligation false at env?  -> None (cannot say) / bool."""
    from engine import expr as E
    from engine.adapter import uf_num
    try:
        if o['kind'] == 'true':
            return not bool(E.evalcell(o['a'].reshape(-1)[i], env, uf_num))
        a = E.evalcell(o['a'].reshape(-1)[i], env, uf_num)
        e = E.evalcell(o['e'].reshape(-1)[i], env, uf_num)
    except (KeyError, OverflowError, ZeroDivisionError, ValueError):
        return None
    if isinstance(a, (bool, np.bool_)) or isinstance(e, (bool, np.bool_)):
        return bool(a) != bool(e)
    a, e = complex(a), complex(e)
    if np.isnan(e.real) or np.isnan(e.imag):
        return False
    if not np.isfinite(a):
        return np.isfinite(e)
    return abs(a - e) > tol * (abs(a) + abs(e) + 1e-3)


def exact_bad(o, i, env, tol):
    """num_bad in high precision."""
    from engine import expr as E
    from engine.adapter import uf_num
    try:
        import mpmath
    except ImportError:
        return None
    ctx = mpmath.mp.clone()
    ctx.dps = 50
    try:
        a = E.evalcell(o['a'].reshape(-1)[i], env, uf_num, mp=ctx)
        if o['kind'] == 'true':
            return not bool(a)
        e = E.evalcell(o['e'].reshape(-1)[i], env, uf_num, mp=ctx)
    except (KeyError, OverflowError, ZeroDivisionError, ValueError, TypeError, E.Unsupported):
        return None
    if isinstance(a, (bool, np.bool_)) or isinstance(e, (bool, np.bool_)):
        return bool(a) != bool(e)
    if not ctx.isfinite(a) or not ctx.isfinite(e):
        return None
    return bool(abs(a - e) > tol * (abs(a) + abs(e)) + ctx.mpf(10) ** -25)


def prove_path(case, bits, A, conds, err, res, p, queue, done, deadline):
    from engine import expr as E, npsh as S, tfsh as T, prove as P, norm as N, adapter as AD
    import random
    fp = case.get('mode') == 'fp'
    rnd = random.Random(12345)
    asm = list(A.assumptions)
    # the random draws of the library lie in [0, 1)
    for nm in S.Fresh.log:
        v = E.var(nm, 'f32' if bits == 32 else 'f64')
        P.VARDT[nm] = v.dt
    draws = [n for n in S.Fresh.log]
    for o in A.obl:
        pass
    full = asm + conds
    for nm in draws:
        for dt in ('f32', 'f64', None):
            if ('var', (), nm, 'str', dt) in E.Node._table:
                v = E.Node._table[('var', (), nm, 'str', dt)]
                full += [E.ge(v, 0), E.gt(1, v)]
    timeout = int(case.get('timeout', 10000))
    each = float(case.get('each', max(90, timeout / 250.)))
    mk = (lambda a: P.FPProver(a, 'f32' if bits == 32 else 'f64', timeout=case.get('timeout', 120000))) if fp else \
         (lambda a: P.Prover(a, 'f32' if bits == 32 else 'f64', timeout=timeout))
    pr = mk(full)
    E.FPMODE[0] = False if not fp else True
    names = set(A.env)
    p['candidates'] = []

    tight = [False]

    def lossy(c):
        """Some value on the way was converted to single precision in the 64-bit library."""
        return bits == 64 and not fp and any(n.op == 'uf' and n.val == 'round32' for n in E.topo(E.flat(E.cell(c))))

    def fine(env):
        """Not exactly representable in single precision."""
        return {n: (v * (1 + 1e-8 * rnd.uniform(-3, 3)) if isinstance(v, float) and n not in N.INTVARS else v) for n, v in env.items()}

    def cand(env, o, i, why):
        e = dict(A.env)
        for k, v in env.items():
            e[k] = v
        if not fp and env:
            if P.extreme({k: v for k, v in e.items() if k not in N.INTVARS}):
                return False            # outside the range where float rounding is comparable with exact arithmetic
            if i is not None and exact_bad(o, i, e, drop) is False:
                return False            # the encoded terms agree at this point: an artefact of the proof search
        cand_(e, o, i, why)
        return True

    def cand_(e, o, i, why):
        p['candidates'].append(dict(env={k: jsonable(v) for k, v in e.items()}, label=o['label'] if o else None, element=i, why=why, tight=bool(tight[0])))

    # --- the sample point of this path satisfies everything: the hypotheses are consistent
    st, _ = pr.consistent()
    p['consistent'] = st
    if st == 'unsat':
        res['problems'].append("assumptions of the scenario are contradictory")
    # --- other branches
    if not fp or conds:
        for i, c in enumerate(conds):
            neg = E.not_(c)
            sig = tuple(x.id for x in conds[:i]) + (neg.id,)
            if ('f', sig) in done:
                continue
            done.add(('f', sig))
            bp = mk(asm + conds[:i])
            st, m = bp.consistent([neg]) if not fp else _fp_feasible(P, asm + conds[:i] + [neg], bits)
            res['queries'] += bp.queries
            res['unsat'] += bp.unsat
            res['solver_time'] += bp.solver_time
            if st == 'unsat':
                continue
            env = find_point(A, m, asm + conds[:i] + [neg], rnd, sorted(names))
            if env is None:
                if st == 'sat':
                    env = dict(A.env)
                    env.update(m or {})
                else:
                    res['problems'].append("branch not decided: " + E.show(neg, 4))
                    continue
            queue.append(dict(env=env, seed=1000 + len(done)))
    # --- exception instead of a result
    if err is not None and err['kind'] == 'exception':
        cand({}, None, None, 'exception: ' + err['text'])
        p['obl'].append(dict(label='completes', status='candidate', info=err['text']))
        res['obligations'] += 1
        return
    # --- obligations
    deferred = []
    tol = 3e-4 if bits == 32 else 1e-7
    drop = 2e-5 if bits == 32 else 2e-9
    for oi, o in enumerate(A.obl):
        rec = dict(label=o['label'], status=None, n=0)
        p['obl'].append(rec)
        if o['kind'] == 'shape' or o['kind'] == 'fact':
            res['obligations'] += 1
            if o['kind'] == 'shape' or not o['ok']:
                rec['status'] = 'candidate'
                rec['info'] = o['bad']
                cand({}, o, None, o['bad'])
            else:
                rec['status'] = 'proved'
                res['proved'] += 1
            continue
        flat = o['a'].reshape(-1)
        rec['n'] = int(flat.size)
        seen = {}
        for i in range(flat.size):
            key = _key(flat[i]) + ((_key(o['e'].reshape(-1)[i])) if o['kind'] == 'eq' else ())
            if key in seen:
                continue
            seen[key] = i
            res['obligations'] += 1
            if time.time() > deadline:
                rec['status'] = 'undecided'
                res['undecided'].append("%s[%d]: time budget used up" % (o['label'], i))
                break
            # a differing point found by evaluation makes a candidate straight away
            hit = False
            tight[0] = lossy(flat[i])
            etol = 5e-9 if tight[0] else tol
            for k in range(12 if tight[0] else 6):
                env = dict(A.env) if k == 0 else draw_env(A, sorted(names), rnd, (k - 1) % 4)
                if tight[0]:
                    env = fine(env)
                if k and not satisfied(env, full):
                    continue
                if num_bad(o, i, env, etol) and (k == 0 or not P.extreme({a: b for a, b in env.items() if a not in N.INTVARS})) \
                        and cand(env, o, i, 'evaluates to a different value'):
                    hit = True
                    break
            if hit:
                rec['status'] = 'candidate'
                continue
            try:
                with limited(min(deadline - time.time(), each)):
                    if o['kind'] == 'true':
                        r = pr.holds(E.boolean(flat[i]))
                    else:
                        if not fp:
                            pr.scale = E.Fraction(o['o'].get('scale') or 0)
                        r = pr.equal(flat[i], o['e'].reshape(-1)[i])
            except E.Unsupported as e:
                r = P.Result('unknown', None, str(e)[:300])
            if r.status == 'proved':
                res['proved'] += 1
                rec['status'] = rec['status'] or 'proved'
                continue
            # counterexample of the solver, or search for one
            found = []
            if r.model is not None:
                env = dict(A.env)
                env.update(r.model)
                found.append(env)
            extra = []
            for k in range(80):
                env = draw_env(A, sorted(names), rnd, k % 4)
                if r.model and k % 2:
                    for n in r.model:
                        if rnd.random() < 0.7:
                            env[n] = r.model[n]
                if tight[0]:
                    env = fine(env)
                if satisfied(env, full) and num_bad(o, i, env, etol):
                    extra.append(env)
                    if len(extra) >= 2:
                        break
            kept = [e for e in found if cand(e, o, i, 'solver model')]
            extra = [e for e in extra if cand(e, o, i, 'evaluates to a different value')]
            found = kept
            rec['status'] = 'candidate' if (found or extra) else 'undecided'
            rec['info'] = r.info
            if not (found or extra):
                res['undecided'].append("%s[%d]: %s %s" % (o['label'], i, r.status, r.info[:160] if r.info else ''))
            else:
                deferred.append((o['label'], i, r.status))
    p['solver_doubt'] = deferred[:20]
    tight[0] = False
    # --- definedness of every operation on the way
    if case.get('defined', True) and not fp:
        roots = []
        for o in A.obl:
            if o['kind'] in ('eq', 'true') and o['o'].get('defined', True):
                for c in np.asarray(o['a'], dtype=object).reshape(-1):
                    roots.extend(E.flat(E.cell(c)))
        for g, c, text in P.definedness(roots):
            if time.time() > deadline:
                res['undecided'].append("definedness: time budget used up")
                break
            res['obligations'] += 1
            res['definedness'] += 1
            try:
                with limited(min(deadline - time.time(), each)):
                    r = pr.holds(E.or_(E.not_(g), c))
            except E.Unsupported as e:
                r = P.Result('unknown', None, str(e)[:300])
            if r.status == 'proved':
                res['proved'] += 1
                continue
            if r.model is not None:
                env = dict(A.env)
                env.update(r.model)
                cand(env, dict(label='defined: ' + text), None, 'undefined operation (%s)' % E.show(c, 4)[:120])
                p['obl'].append(dict(label='defined: ' + text, status='candidate', info=E.show(c, 5)[:200]))
                env2 = find_point(A, r.model, full + [g, E.not_(c)], rnd, sorted(names))
                if env2:
                    cand(env2, dict(label='defined: ' + text), None, 'undefined operation')
            else:
                res['undecided'].append("definedness of %s: %s" % (text, E.show(c, 5)[:160]))
    # --- self check of the normaliser and values of the results at the sample point
    p['values'] = {}
    if not fp:
        for oi, o in enumerate(A.obl):
            if o['kind'] in ('eq', 'true') and o['o'].get('validate', True):
                vals = []
                cache = {}
                for c in np.asarray(o['a'], dtype=object).reshape(-1)[:400]:
                    try:
                        v = E.evalcell(c, A.env, AD.uf_num, cache=cache)
                    except (OverflowError, ZeroDivisionError):
                        v = float('nan')
                    vals.append(jsonable(v))
                p['values'][str(oi)] = vals
        k = 0
        for o in A.obl:
            if o['kind'] != 'eq':
                continue
            for c in np.asarray(o['a'], dtype=object).reshape(-1)[:3]:
                for n in E.flat(E.cell(c)):
                    if n.sort != 'R' or k > 12:
                        continue
                    k += 1
                    try:
                        x = float(E.evalcell(n, A.env, AD.uf_num))
                        with limited(20):
                            y = float(N.eval_poly((pr.opaque() if pr.angles([n]) else pr.norm)(n), A.env, AD.uf_num))
                    except (E.Unsupported, KeyError, ZeroDivisionError, OverflowError, TypeError):
                        continue
                    if np.isfinite(x) and abs(x - y) > 1e-5 * (1 + abs(x)):
                        res['problems'].append("normaliser self-check failed on %s: %r / %r" % (o['label'], x, y))
    p['env'] = {k: jsonable(v) for k, v in A.env.items()}
    res['queries'] += pr.queries
    res['unsat'] += pr.unsat
    res['solver_time'] += pr.solver_time


def _fp_feasible(P, nodes, bits):
    from engine import expr as E
    q = P.FPProver(nodes, 'f32' if bits == 32 else 'f64', timeout=60000)
    return q.consistent()


def _key(c):
    from engine import expr as E
    return tuple(n.id for n in E.flat(E.cell(c)))


def find_point(A, model, nodes, rnd, names):
    """A generic point satisfying nodes, close to the solver's model."""
    from engine.adapter import f32
    base = dict(A.env)
    if model:
        # the discrete choices of the model at the generic point of this path, if that is enough
        e = dict(base)
        e.update({k: v for k, v in model.items() if isinstance(v, bool) or k in A.N.INTVARS})
        if satisfied(e, nodes):
            return e
        base.update(model)

    def rounded(e):
        return {k: (f32(v) if isinstance(v, float) else v) for k, v in e.items()}
    b = rounded(base)
    ok = b if satisfied(b, nodes) else (base if satisfied(base, nodes) else None)
    best = None
    for k in range(200):
        e = dict(base)
        s = rnd.choice([1e-3, 1e-2, 0.1, 0.5])
        for n in names:
            v = e[n]
            if isinstance(v, bool) or n in A.N.INTVARS:
                continue
            if rnd.random() < (0.9 if k < 100 else 0.5):
                e[n] = f32(v + s * rnd.uniform(-1, 1) * max(0.3, abs(v)))
        if k % 3 == 2:
            e = draw_env(A, names, rnd, rnd.randrange(4))
        if satisfied(e, nodes):
            return e
    return ok


def main():
    kind, jobf, outf = sys.argv[1:4]
    job = json.load(open(jobf))
    job['out'] = outf
    r = run_conc(job) if kind == 'conc' else run_sym(job)
    with open(outf, 'w') as f:
        json.dump(r, f)


if __name__ == '__main__':
    # the library holds references to threads; leave without their shutdown
    try:
        main()
        sys.stdout.flush()
        os._exit(0)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(3)
