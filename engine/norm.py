"""Canonical forms: Laurent polynomials with rational coefficients over atoms.

Atoms are input variables, pi, square roots of primes and applications of transcendental functions to
canonical arguments.  Rewriting is by identities that hold for all real arguments:
  products of cos/sin are linearised, exp(a)exp(b) = exp(a+b), sqrt(P)^2 = P, |P|^2 = P^2,
  addition formulas split off multiples of pi and the angles atan2(y, x), acos(q), asin(q),
  indicator atoms [c] are idempotent and are pulled out of function arguments by Shannon expansion.
Divisions are treated as in the field of fractions; that every divisor is nonzero is a separate obligation
(prove.definedness).  cos/sin of atan2(y, x) use x/r, y/r with r = sqrt(x^2+y^2); the case r = 0 is
handled by the prover as its own case (Norm.polar records where it was used).  An opaque Norm keeps them
as unknowns C, S with C^2 + S^2 = 1, r C = x, r S = y, which holds for r = 0 too.
"""
import itertools
import math
from fractions import Fraction
from . import expr as E
from .expr import Unsupported

ONE = ((), Fraction(1))
POSVARS = set()      # names of variables assumed > 0
INTVARS = set()


class Atom(object):
    __slots__ = ("kind", "key", "id", "extra")

    def __repr__(self):
        return "%s%d" % (self.kind, self.id)


class Atoms(object):
    def __init__(self):
        self.table = {}
        self.list = []

    def get(self, kind, key, extra=None):
        k = (kind, key)
        a = self.table.get(k)
        if a is None:
            a = Atom()
            a.kind, a.key, a.id, a.extra = kind, key, len(self.list), extra
            self.list.append(a)
            self.table[k] = a
        return a


AT = Atoms()
SPECIAL = {'root', 'sqrt', 'abs', 'exp', 'cos', 'sin', 'ind', 'inv', 'pcos', 'psin'}
SPECIAL_IDS = set()


def P_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def P_atom(a, e=1):
    if a.kind in SPECIAL:
        SPECIAL_IDS.add(a.id)
    return {((a.id, e),): Fraction(1)}


def P_add(p, q, k=1):
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def P_neg(p):
    return {m: -c for m, c in p.items()}


def P_scale(p, k):
    k = Fraction(k)
    return {m: c * k for m, c in p.items()} if k else {}


def P_key(p):
    return tuple(sorted(p.items()))


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def const_of(p):
    return p.get((), Fraction(0))


def single(p):
    if len(p) == 1:
        return next(iter(p.items()))
    return None


def root_atom(k):
    return AT.get('root', k)


_PI = AT.get('pi', ())


def factor_sqrt(n):
    """n>0 integer -> (a, b): sqrt(n) = a*sqrt(b), b square-free; None when n is too big to factor."""
    a, b = 1, 1
    d = 2
    if n > 10 ** 12:
        r = math.isqrt(n)
        if r * r == n:
            return r, 1
        return None
    while d * d <= n:
        e = 0
        while n % d == 0:
            n //= d
            e += 1
        a *= d ** (e // 2)
        if e % 2:
            b *= d
        d += 1
    b *= n
    return a, b


def sqrt_rational(q):
    """Poly for sqrt of a positive rational, or None."""
    if q == 0:
        return {}
    f = factor_sqrt(q.numerator * q.denominator)
    if f is None:
        return None
    a, b = f
    p = P_const(Fraction(a, q.denominator))
    d = 2
    while b > 1:
        if b % d == 0:
            p = P_mul(p, P_atom(root_atom(d)))
            b //= d
        else:
            d += 1
            if d * d > b:
                d = b
    return p


_nice = {}


def nice(v, dt):
    """Exact value meant by a floating-point constant (documented rounding recognition)."""
    k = (v, dt)
    if k in _nice:
        return _nice[k]
    r = _nice_(v, dt)
    _nice[k] = r
    return r


def _nice_(v, dt):
    if isinstance(v, (int, Fraction)):
        if dt == 'f32' and isinstance(v, int) and abs(v) > 2 ** 24:
            return P_const(Fraction(v))
        return P_const(v)
    if not math.isfinite(v):
        raise Unsupported("non-finite constant %r" % v)
    if v == 0:
        return {}
    small = dt == 'f32'
    tol, dec = (1.3e-7, 5) if small else (3e-14, 12)
    s = 1 if v > 0 else -1
    a = abs(v)

    def rat(x, D):
        f = Fraction(x).limit_denominator(D)
        if f and abs(float(f) - x) <= tol * x:
            return f
        return None
    f = rat(a, 48 if small else 1000)
    if f is not None:
        return P_const(s * f)
    for k in (1, -1, 2):
        f = rat(a / math.pi ** k, 24 if small else 720)
        if f is not None and f.numerator <= (50 if small else 10000):
            return P_scale(P_atom(_PI, k), s * f)
    f = Fraction(a * a).limit_denominator(24 if small else 10000)
    if f and abs(float(f) - a * a) <= 2 * tol * a * a and f.numerator < (100 if small else 10 ** 5):
        p = sqrt_rational(f)
        if p is not None:
            return P_scale(p, s)
    f = rat(a, 200 if small else 10000)
    if f is not None:
        return P_const(s * f)
    d = Fraction(('%.' + str(dec) + 'g') % a)
    if abs(float(d) - a) <= tol * a / (1 if dt == 'f32' else 30):
        return P_const(s * d)
    return P_const(Fraction(v))


# ------------------------------------------------------------------------------------ signs

def atom_sign(a):
    """'+': > 0, '0': >= 0, None: unknown."""
    k = a.kind
    if k == 'var':
        return '+' if a.key in POSVARS else None
    if k in ('pi', 'root', 'exp'):
        return '+'
    if k == 'sqrt':
        return '+' if a.key in CTX['nonzero'] or known_positive(dict(a.key)) else '0'
    if k == 'abs':
        p = dict(a.key)
        s = single(p)
        if s is not None and len(s[0]) == 1 and known_nonzero(s[0][0][0]):
            return '+'
        return '+' if known_positive(p) or known_positive(P_neg(p)) else '0'
    if k in ('ind', 'acos'):
        return '0'
    if k == 'inv':
        return poly_sign(dict(a.key))
    if k == 'pow':
        s = poly_sign(dict(a.key[0]))
        return s
    if k == 'max':
        ss = [poly_sign(dict(x)) for x in a.key]
        if '+' in ss:
            return '+'
        if '0' in ss:
            return '0'
    return None


def mono_sign(m):
    r = '+'
    for i, e in m:
        s = atom_sign(AT.list[i])
        if s is None:
            if e % 2 == 0:
                if not known_nonzero(i):
                    r = '0'
                continue
            return None
        if s == '0':
            r = '0'
    return r


def known_positive(p):
    return bool(CTX['positive']) and len(p) <= 400 and P_key(pos_common([p])[0]) in CTX['positive']


def known_nonzero(i):
    return bool(CTX['positive']) and ((i, 2),) in CTX['positive']


def poly_sign(p):
    if not p:
        return '0'
    if CTX['positive'] and len(p) > 1 and known_positive(p):
        return '+'
    r = '0'
    for m, c in p.items():
        if c < 0:
            return None
        s = mono_sign(m)
        if s is None:
            return None
        if s == '+':
            r = '+'
    return r


# ------------------------------------------------------------------------------------ products

def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for i, e in m2:
        v = d.get(i, 0) + e
        if v:
            d[i] = v
        else:
            del d[i]
    return tuple(sorted(d.items()))


_mono_cache = {}


def mono_mul(m1, m2):
    """Product of two canonical monomials: ('m', mono) or ('p', poly)."""
    m = _mono_mul(m1, m2)
    for i, e in m:
        if i in SPECIAL_IDS:
            break
    else:
        return m, None
    r = _mono_cache.get(m)
    if r is None:
        r = _reduce(m)
        _mono_cache[m] = r
    return r


def _reduce(m):
    rest = []
    factor = None
    trig = []
    expo = None
    nexp = 0
    coef = Fraction(1)
    inds = []
    for i, e in m:
        a = AT.list[i]
        if a.kind in ('pcos', 'psin') and e > 0:
            if a.kind == 'psin' and e > 1:
                c2 = P_atom(AT.get('pcos', a.key), 2)
                return None, P_mul({tuple((j, x if j != i else e - 2) for j, x in m if j != i or e > 2): Fraction(1)},
                                   P_add(P_const(1), c2, -1))
            if i in PRULE:
                j, f = PRULE[i]
                x = dict(m).get(j, 0)
                if x > 0:
                    d = dict(m)
                    for k in (i, j):
                        d[k] -= 1
                        if not d[k]:
                            del d[k]
                    return None, P_mul({tuple(sorted(d.items())): Fraction(1)}, f)
    for i, e in m:
        a = AT.list[i]
        k = a.kind
        if k not in SPECIAL or k in ('pcos', 'psin'):
            rest.append((i, e))
        elif k == 'root':
            if e % 2:
                rest.append((i, 1))
            coef *= Fraction(a.key) ** (e // 2)
        elif k == 'sqrt':
            if e % 2:
                rest.append((i, 1))
            if e // 2:
                f = P_pow(dict(a.key), e // 2)
                factor = f if factor is None else P_mul(factor, f)
        elif k == 'abs':
            q, r = e // 2, e % 2
            if r:
                rest.append((i, 1))
            if q:
                f = P_pow(dict(a.key), 2 * q)
                factor = f if factor is None else P_mul(factor, f)
        elif k == 'ind':
            if e < 0:
                rest.append((i, e))
            else:
                rest.append((i, 1))
                inds.append(a)
        elif k == 'exp':
            nexp += 1
            t = P_scale(dict(a.key), e)
            expo = t if expo is None else P_add(expo, t)
        elif k in ('cos', 'sin'):
            if e < 0:
                rest.append((i, e))
            else:
                trig.extend([a] * e)
        elif k == 'inv':
            rest.append((i, e))
    if expo is not None:
        x = P_exp(expo)
        s = single(x)
        if s is not None and len(s[0]) == 1 and s[1] == 1:
            rest.append(s[0][0])
        else:
            factor = x if factor is None else P_mul(factor, x)
    # [s == 0] * s = 0
    for a in inds:
        rel, key = a.key
        if rel == '==' and len(key) == 1:
            mm, cc = key[0]
            if len(mm) == 1 and mm[0][1] == 1:
                for i, e in rest:
                    if i == mm[0][0] and e > 0:
                        return None, {}
    if len(trig) == 1:
        rest.append((trig[0].id, 1))
        trig = []
    rest = tuple(sorted(rest))
    if not trig and factor is None:
        if coef == 1:
            return rest, None
        return None, {rest: coef}
    p = {rest: coef}
    if trig:
        t = P_atom(trig[0])
        for a in trig[1:]:
            t = trig_times(t, a)
        p = P_mul(p, t)
    if factor is not None:
        p = P_mul(p, factor)
    return None, p


def trig_times(p, a):
    """Multiply a linear trig polynomial p (sums of const*trig atom) with trig atom a, linearising."""
    out = {}
    A = dict(a.key)
    for m, c in p.items():
        if not m:
            out = P_add(out, P_scale(P_atom(a), c))
            continue
        if len(m) != 1 or AT.list[m[0][0]].kind not in ('cos', 'sin'):
            # root constants from cos(k pi / 12) values
            base = {(): Fraction(1)}
            tr = None
            others = []
            for i, e in m:
                if AT.list[i].kind in ('cos', 'sin') and e == 1 and tr is None:
                    tr = AT.list[i]
                else:
                    others.append((i, e))
            base = {tuple(others): c}
            t = P_atom(a) if tr is None else _tt(tr, a)
            out = P_add(out, P_mul(base, t))
            continue
        out = P_add(out, P_scale(_tt(AT.list[m[0][0]], a), c))
    return out


def _tt(b, a):
    A, B = dict(a.key), dict(b.key)
    d = P_add(B, A, -1)
    s = P_add(B, A)
    h = Fraction(1, 2)
    if b.kind == 'cos' and a.kind == 'cos':
        return P_scale(P_add(P_cos(d), P_cos(s)), h)
    if b.kind == 'sin' and a.kind == 'sin':
        return P_scale(P_add(P_cos(d), P_cos(s), -1), h)
    if b.kind == 'sin':
        return P_scale(P_add(P_sin(s), P_sin(d)), h)
    return P_scale(P_add(P_sin(s), P_sin(d), -1), h)


LIMIT = [400000]


def P_mul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) * len(q) > LIMIT[0]:
        raise Unsupported("polynomial product too large (%d x %d terms)" % (len(p), len(q)))
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, pol = mono_mul(m1, m2)
            c = c1 * c2
            if pol is None:
                v = r.get(m, 0) + c
                if v:
                    r[m] = v
                else:
                    del r[m]
            else:
                for mm, cc in pol.items():
                    v = r.get(mm, 0) + c * cc
                    if v:
                        r[mm] = v
                    else:
                        del r[mm]
    return r


def P_pow(p, k):
    if k < 0:
        return P_pow(P_inv(p), -k)
    r = P_const(1)
    b = p
    while k:
        if k & 1:
            r = P_mul(r, b)
        k >>= 1
        if k:
            b = P_mul(b, b)
    return r


def rat_content(p):
    n = 0
    d = 1
    for c in p.values():
        n = math.gcd(n, c.numerator)
        d = d * c.denominator // math.gcd(d, c.denominator)
    return Fraction(n, d) if n else Fraction(1)


def mono_content(p):
    """Largest monomial dividing all terms (non-special atoms and sqrt/abs/root/exp-free)."""
    it = iter(p)
    first = next(it)
    g = dict((i, e) for i, e in first if AT.list[i].kind not in ('cos', 'sin', 'ind', 'exp'))
    for m in it:
        if not g:
            break
        d = dict(m)
        for i in list(g):
            e = min(g[i], d.get(i, 0))
            if g[i] < 0 or d.get(i, 0) < 0:
                e = min(g[i], d.get(i, 0))
            if e == 0:
                del g[i]
            else:
                g[i] = e
    # atoms with negative exponent in some term but absent in the first
    for m in p:
        for i, e in m:
            if e < 0 and AT.list[i].kind not in ('cos', 'sin', 'ind', 'exp'):
                if g.get(i, 0) > e:
                    g[i] = min(g.get(i, 0), e)
    return tuple(sorted(g.items()))


def mono_div(p, g):
    if not g:
        return p
    ig = tuple((i, -e) for i, e in g)
    return P_mul(p, {ig: Fraction(1)})


def leading(p):
    return min(p)


def inds_of(p):
    s = []
    for m in p:
        for i, e in m:
            if AT.list[i].kind == 'ind' and i not in s:
                s.append(i)
    return s


def P_subst_ind(p, i, v):
    r = {}
    for m, c in p.items():
        if any(j == i for j, e in m):
            if v == 0:
                continue
            m = tuple((j, e) for j, e in m if j != i)
        x = r.get(m, 0) + c
        if x:
            r[m] = x
        else:
            del r[m]
    return r


def shannon(f, polys, limit=4):
    """f(polys) with indicator atoms lifted out of the arguments."""
    for p in polys:
        ii = inds_of(p)
        if ii:
            if limit <= 0:
                return f(*polys)
            i = ii[0]
            lo = shannon(f, [P_subst_ind(q, i, 0) for q in polys], limit - 1)
            hi = shannon(f, [P_subst_ind(q, i, 1) for q in polys], limit - 1)
            b = P_atom(AT.list[i])
            return P_add(lo, P_mul(b, P_add(hi, lo, -1)))
    return f(*polys)


def P_inv(p):
    if not p:
        raise ZeroDivisionError("division by a term that is identically zero")
    return shannon(_inv, [p])


def _inv(p):
    if not p:
        # unreachable branch of a guarded division; definedness is a separate obligation
        return P_atom(AT.get('inv', P_key({})))
    s = single(p)
    if s is not None:
        m, c = s
        out = P_const(1 / c)
        for i, e in m:
            a = AT.list[i]
            if a.kind == 'exp':
                f = P_exp(P_scale(dict(a.key), -e))
            elif a.kind == 'root':
                f = P_mul(P_const(Fraction(1, a.key)), P_atom(a))
            elif a.kind == 'sqrt':
                f = P_mul(P_atom(a), P_inv(dict(a.key)))
            elif a.kind == 'abs':
                f = P_mul(P_atom(a), P_inv(P_mul(dict(a.key), dict(a.key))))
            elif a.kind in ('cos', 'sin'):
                f = P_atom(AT.get('inv', P_key(P_atom(a))), e)
            elif a.kind == 'inv':
                f = P_pow(dict(a.key), e)
            else:
                f = {((i, -e),): Fraction(1)}
            out = P_mul(out, f)
        return out
    # constants with roots: rationalise one root
    g = mono_content(p)
    q = mono_div(p, g)
    roots = set(i for m in q for i, e in m if AT.list[i].kind == 'root')
    if roots and all(AT.list[i].kind == 'root' for m in q for i, e in m):
        i = next(iter(roots))
        a = {m: c for m, c in q.items() if not any(j == i for j, e in m)}
        b = {m: c for m, c in q.items() if any(j == i for j, e in m)}
        cj = P_add(a, b, -1)
        return P_mul(P_mul(cj, P_inv(P_mul(q, cj))), P_inv({g: Fraction(1)}) if g else P_const(1))
    c = q[leading(q)]
    q = P_scale(q, 1 / c)
    out = P_scale(P_atom(AT.get('inv', P_key(q))), 1 / c)
    if g:
        out = P_mul(out, P_inv({g: Fraction(1)}))
    return out


# ------------------------------------------------------------------------------------ functions

def P_exp(p):
    if not p:
        return P_const(1)
    return shannon(lambda q: P_const(1) if not q else P_atom(AT.get('exp', P_key(q))), [p])


def P_sqrt(p):
    return shannon(_sqrt, [p])


def _sqrt(p):
    if not p:
        return {}
    if is_const(p):
        c = const_of(p)
        if c > 0:
            r = sqrt_rational(c)
            if r is not None:
                return r
        return P_atom(AT.get('sqrt', P_key(p)))
    c = rat_content(p)
    q = P_scale(p, 1 / c)
    g = mono_content(q)
    out = P_const(1)
    inner = []
    for i, e in g:
        a = AT.list[i]
        if a.kind == 'exp':
            continue
        s = atom_sign(a)
        h = e // 2 if e >= 0 else -((-e) // 2)
        if s is not None:
            if h:
                out = P_mul(out, P_pow(P_atom(a), h)) if h > 0 else P_mul(out, P_inv(P_pow(P_atom(a), -h)))
            if e - 2 * h:
                inner.append((i, e - 2 * h))
        else:
            if h:
                f = P_abs(P_atom(a))
                out = P_mul(out, P_pow(f, abs(h)) if h > 0 else P_inv(P_pow(f, -h)))
            if e - 2 * h:
                inner.append((i, e - 2 * h))
    q = mono_div(q, g)
    if inner:
        # keep an odd power inside, with non-negative exponent
        inn = P_const(1)
        for i, e in inner:
            a = AT.list[i]
            if e < 0:
                # sqrt(a^-1 Q) = sqrt(a Q)/|a|
                out = P_mul(out, P_inv(P_abs(P_atom(a))))
                inn = P_mul(inn, P_atom(a))
            else:
                inn = P_mul(inn, P_atom(a))
        q = P_mul(q, inn)
    rc = sqrt_rational(c)
    if rc is None:
        q = P_scale(q, c)
        rc = P_const(1)
    out = P_mul(out, rc)
    if is_const(q) and const_of(q) > 0:
        r = sqrt_rational(const_of(q))
        if r is not None:
            return P_mul(out, r)
    s = single(q)
    if s is not None and s[1] == 1 and len(s[0]) == 1 and s[0][0][1] == 1 and AT.list[s[0][0][0]].kind == 'exp':
        return P_mul(out, P_exp(P_scale(dict(AT.list[s[0][0][0]].key), Fraction(1, 2))))
    r = poly_sqrt(q)
    if r is not None:
        return P_mul(out, P_abs(r))
    c2 = rat_content(q)
    if c2 != 1:
        r2 = sqrt_rational(c2)
        if r2 is not None:
            q = P_scale(q, 1 / c2)
            out = P_mul(out, r2)
    return P_mul(out, P_atom(AT.get('sqrt', P_key(q))))


def poly_sqrt(p):
    """q with q*q == p, or None."""
    if len(p) < 3 or len(p) > 400:
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0 and all(e % 2 == 0 for i, e in m) and not any(i in SPECIAL_IDS for i, e in m):
                r = sqrt_rational(c)
                if r is not None:
                    return P_mul(r, {tuple((i, e // 2) for i, e in m): Fraction(1)})
        return None
    if any(AT.list[i].kind in ('exp', 'cos', 'sin', 'ind', 'psin') for m in p for i, e in m):
        return None

    def order(m):
        return (sum(e for i, e in m), tuple((-i, e) for i, e in m))
    # lexicographic order on exponent vectors
    ids = sorted(set(i for m in p for i, e in m))

    def vec(m):
        d = dict(m)
        return tuple(d.get(i, 0) for i in ids)
    lm = max(p, key=vec)
    c = p[lm]
    if c <= 0 or any(e % 2 for i, e in lm):
        return None
    rc = sqrt_rational(c)
    if rc is None or not is_const(rc):
        return None
    lead = (tuple((i, e // 2) for i, e in lm), const_of(rc))
    q = {lead[0]: lead[1]}
    r = P_add(p, P_mul(q, q), -1)
    for _ in range(len(p)):
        if not r:
            return q
        m = max(r, key=vec)
        t = _mono_mul(m, tuple((i, -e) for i, e in lead[0]))
        if any(e < 0 for i, e in t) and not any(e < 0 for mm in p for i, e in mm):
            return None
        nt = {t: r[m] / (2 * lead[1])}
        if t in q:
            return None
        # r -= 2 q nt + nt^2
        r = P_add(r, P_mul(P_scale(q, 2), nt), -1)
        r = P_add(r, P_mul(nt, nt), -1)
        q = P_add(q, nt)
        if len(q) > 60:
            return None
    return q if not r else None


def poly_div(p, q):
    """d with d*q == p, or None."""
    if len(q) < 2 or len(p) < len(q) or len(p) > 4000 or len(q) > 60:
        return None
    if any(i in SPECIAL_IDS or e < 0 or AT.list[i].kind not in ('var', 'uf') for m in q for i, e in m):
        return None
    ids = sorted(set(i for m in q for i, e in m))
    pos = {i: k for k, i in enumerate(ids)}

    def vec(m):
        v = [0] * len(ids)
        for i, e in m:
            k = pos.get(i)
            if k is not None:
                v[k] = e
        return tuple(v)
    lq = max(q, key=vec)
    if sum(1 for m in q if vec(m) == vec(lq)) > 1:
        return None
    cq = q[lq]
    ilq = tuple((i, -e) for i, e in lq)
    vlq = vec(lq)
    r = dict(p)
    out = {}
    for _ in range(len(p) + 8):
        if not r:
            return out
        top = max(vec(m) for m in r)
        t = {}
        for m in [m for m in r if vec(m) == top]:
            if any(a < b for a, b in zip(top, vlq)):
                return None
            t[_mono_mul(m, ilq)] = r[m] / cq
        out = P_add(out, t)
        r = P_add(r, P_mul(t, q), -1)
        if len(r) > 3 * len(p) + 50 or (r and max(vec(m) for m in r) >= top):
            return None
    return out if not r else None


def cancel_inv(p):
    """Cancel q*inv(q)."""
    for i in sorted(set(i for m in p for i, e in m if AT.list[i].kind == 'inv')):
        q = dict(AT.list[i].key)
        if len(q) < 2:
            continue
        groups = {}
        for m, c in p.items():
            e = dict(m).get(i, 0)
            groups.setdefault(e, {})[tuple(t for t in m if t[0] != i)] = c
        done = False
        for e in range(max(groups), 0, -1):
            d = poly_div(groups[e], q) if e in groups else None
            if d is not None:
                groups[e - 1] = P_add(groups.get(e - 1, {}), d)
                del groups[e]
                done = True
        if done:
            p = {}
            for e, g in groups.items():
                p = P_add(p, P_mul(g, {((i, e),): Fraction(1)}) if e else g)
    return p


def P_div(p, q):
    if not q:
        return P_mul(p, P_atom(AT.get('inv', P_key({}))))
    if len(q) > 1:
        d = poly_div(p, q)
        if d is not None:
            return d
    return P_mul(p, P_inv(q))


def P_abs(p):
    return shannon(_abs, [p])


def _abs(p):
    if not p:
        return {}
    if poly_sign(p) is not None:
        return p
    n = P_neg(p)
    if poly_sign(n) is not None:
        return n
    s = single(p)
    if s is not None:
        m, c = s
        if len(m) == 1 and m[0][1] == 1:
            return P_scale(P_atom(AT.get('abs', P_key(P_atom(AT.list[m[0][0]])))), abs(c))
        out = P_const(abs(c))
        for i, e in m:
            a = AT.list[i]
            sg = atom_sign(a)
            if sg is not None or e % 2 == 0:
                f = {((i, e),): Fraction(1)}
            else:
                f = P_abs(P_atom(a))
                f = P_pow(f, abs(e))
                if e < 0:
                    f = P_inv(f)
            out = P_mul(out, f)
        return out
    c = rat_content(p)
    g = mono_content(p)
    q = mono_div(P_scale(p, 1 / c), g)
    if q[leading(q)] < 0:
        q = P_neg(q)
    out = P_scale(P_atom(AT.get('abs', P_key(q))), c)
    if g:
        out = P_mul(out, P_abs({g: Fraction(1)}))
    return out


_CT = {Fraction(0): (1, 0)}


def trig_pi(c):
    """(cos, sin) polys of c*pi for c = k/12, else None."""
    c = c % 2
    n = c * 12
    if n.denominator != 1:
        return None
    n = int(n)

    def cs(k):
        k %= 24
        if k > 12:
            return cs(24 - k)
        if k > 6:
            return P_neg(cs(12 - k))
        r2 = lambda: P_atom(root_atom(2))
        r3 = lambda: P_atom(root_atom(3))
        r6 = lambda: P_mul(r2(), r3())
        q = Fraction(1, 4)
        return {0: P_const(1), 1: P_scale(P_add(r6(), r2()), q), 2: P_scale(r3(), Fraction(1, 2)),
                3: P_scale(r2(), Fraction(1, 2)), 4: P_const(Fraction(1, 2)),
                5: P_scale(P_add(r6(), r2(), -1), q), 6: {}}[k]
    return cs(n), cs(n - 6)


CTX = {'polar': None, 'nonzero': set(), 'positive': frozenset(), 'opaque': False}


def cis(p):
    """(cos p, sin p) as polys (no indicator atoms in p)."""
    base = {}
    cc, ss = P_const(1), {}

    def rot(c2, s2):
        nonlocal cc, ss
        cc, ss = P_add(P_mul(cc, c2), P_mul(ss, s2), -1), P_add(P_mul(ss, c2), P_mul(cc, s2))
    picoef = Fraction(0)
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1:
            a = AT.list[m[0][0]]
            if a.kind == 'pi':
                picoef += c
                continue
            if a.kind in ('atan2', 'acos', 'asin') and c.denominator == 1 and abs(c) <= 20:
                c1, s1 = angle_cs(a)
                if c < 0:
                    s1 = P_neg(s1)
                for _ in range(abs(int(c))):
                    rot(c1, s1)
                continue
        base[m] = c
    picoef = picoef % 2
    t = trig_pi(picoef)
    if t is not None:
        rot(*t)
    else:
        k = (picoef * 12).__floor__()
        r = picoef - Fraction(k, 12)
        # keep a remainder in [0, 1/12) pi inside the argument unless a nicer split exists
        if picoef >= 1:
            rot(*trig_pi(Fraction(1)))
            picoef -= 1
        base[((_PI.id, 1),)] = picoef
    if base:
        sg = 1
        if base[leading(base)] < 0:
            base = P_neg(base)
            sg = -1
        k = P_key(base)
        rot(P_atom(AT.get('cos', k)), P_scale(P_atom(AT.get('sin', k)), sg))
    return cc, ss


def angle_cs(a):
    if a.kind == 'atan2':
        y, x = dict(a.key[0]), dict(a.key[1])
        if CTX['opaque'] and len(x) + len(y) > 80:
            return opaque_cs(a, y, x, {})
        r2 = P_add(P_mul(x, x), P_mul(y, y))
        r = P_sqrt(r2)
        if CTX['opaque'] and (poly_sign(r) != '+' or any(AT.list[i].kind in ('sqrt', 'abs') for m in r for i, e in m)):
            return opaque_cs(a, y, x, r)
        if CTX['polar'] is not None:
            CTX['polar'][a.id] = a
        if len(r) > 1:
            c, s = poly_div(x, r), poly_div(y, r)
            if c is not None and s is not None:
                return c, s
        ir = P_inv(r)
        return P_mul(x, ir), P_mul(y, ir)
    q = dict(a.key)
    o = P_sqrt(P_add(P_const(1), P_mul(q, q), -1))
    return (q, o) if a.kind == 'acos' else (o, q)


PRULE = {}      # atom C or S -> (atom of r, r*C or r*S)


def opaque_cs(a, y, x, r):
    c, s = AT.get('pcos', a.key), AT.get('psin', a.key)
    if c.id not in PRULE:
        t = single(r)
        if t is not None:
            m, k = t
            core = [i for i, e in m if e == 1 and AT.list[i].kind in ('sqrt', 'abs')]
            rest = tuple((i, e) for i, e in m if i not in core)
            if len(core) == 1 and all(AT.list[i].kind in ('pi', 'root') for i, e in rest):
                f = P_scale(P_inv({rest: Fraction(1)}) if rest else P_const(1), 1 / k)
                cx, sy = P_mul(x, f), P_mul(y, f)
                PRULE[s.id] = (core[0], sy)
                PRULE[c.id] = (core[0], cx)
    return P_atom(c), P_atom(s)


def P_cos(p):
    return shannon(lambda q: cis(q)[0], [p])


def P_sin(p):
    return shannon(lambda q: cis(q)[1], [p])


def pos_common(ps):
    """Positive common factor of polys (rational content and monomials of positive atoms): divide it out."""
    ps = list(ps)
    nz = [p for p in ps if p]
    if not nz:
        return ps
    allp = {}
    n, d = 0, 1
    for p in nz:
        for c in p.values():
            n = math.gcd(n, c.numerator)
            d = d * c.denominator // math.gcd(d, c.denominator)
    k = Fraction(d, n)
    terms = {}
    for p in nz:
        for m in p:
            terms[m] = Fraction(1)
    g = tuple((i, e) for i, e in mono_content(terms) if atom_sign(AT.list[i]) == '+' or (e % 2 == 0 and known_nonzero(i))
              and AT.list[i].kind not in ('sqrt', 'abs', 'ind'))
    out = [mono_div(P_scale(p, k), g) if p else p for p in ps]
    return _root_common(out)


def _root_common(ps):
    """Canonical choice of a common power of prime roots: first term of the first nonzero poly is root-free."""
    for p in ps:
        if p:
            m = leading(p)
            rs = [(i, e) for i, e in m if AT.list[i].kind == 'root']
            if not rs:
                return ps
            f = {tuple(rs): Fraction(1)}
            out = [P_mul(q, f) if q else q for q in ps]
            n, d = 0, 1
            for q in out:
                for c in q.values():
                    n = math.gcd(n, c.numerator)
                    d = d * c.denominator // math.gcd(d, c.denominator)
            return [P_scale(q, Fraction(d, n)) for q in out]
    return ps


def P_atan2(y, x):
    return shannon(_atan2, [y, x])


def _atan2(y, x):
    if not y:
        if not x:
            return {}
        s = poly_sign(x)
        if s is not None:
            return {}
        if poly_sign(P_neg(x)) == '+':
            return P_atom(_PI)
    if not x and y:
        s = poly_sign(y)
        if s == '+':
            return P_scale(P_atom(_PI), Fraction(1, 2))
        if poly_sign(P_neg(y)) == '+':
            return P_scale(P_atom(_PI), Fraction(-1, 2))
    if is_const(x) and is_const(y):
        cx, cy = const_of(x), const_of(y)
        if abs(cx) == abs(cy) and cx:
            q = {(1, 1): Fraction(1, 4), (-1, 1): Fraction(3, 4), (1, -1): Fraction(-1, 4), (-1, -1): Fraction(-3, 4)}
            return P_scale(P_atom(_PI), q[(1 if cx > 0 else -1, 1 if cy > 0 else -1)])
    y, x = pos_common([y, x])
    return P_atom(AT.get('atan2', (P_key(y), P_key(x))))


def odd(kind):
    def f(p):
        if not p:
            return {}
        s = 1
        if p[leading(p)] < 0:
            p = P_neg(p)
            s = -1
        return P_scale(P_atom(AT.get(kind, P_key(p))), s)
    return lambda p: shannon(f, [p])


P_tanh = odd('tanh')


def _asin(p):
    if is_const(p):
        c = const_of(p)
        t = {Fraction(0): 0, Fraction(1): Fraction(1, 2), Fraction(-1): Fraction(-1, 2),
             Fraction(1, 2): Fraction(1, 6), Fraction(-1, 2): Fraction(-1, 6)}
        if c in t:
            return P_scale(P_atom(_PI), t[c])
    return None


_asin_odd = odd('asin')


def P_asin(p):
    r = _asin(p)
    return r if r is not None else _asin_odd(p)


def _acos(p):
    r = _asin(p)
    if r is not None:
        return P_add(P_scale(P_atom(_PI), Fraction(1, 2)), r, -1)
    return P_atom(AT.get('acos', P_key(p)))


def P_acos(p):
    return shannon(_acos, [p])


def P_pow_sym(b, e):
    if is_const(e):
        c = const_of(e)
        if c.denominator == 1 and abs(c) <= 16:
            return P_pow(b, int(c))
        if c.denominator == 2 and abs(c) <= 8:
            r = P_sqrt(b)
            return P_pow(r, int(c * 2))
    return shannon(_pow, [b, e])


def _pow(b, e):
    if is_const(b) and const_of(b) == 1:
        return P_const(1)
    s = single(b)
    if s is not None and s[1] == 1 and len(s[0]) == 1 and AT.list[s[0][0][0]].kind == 'exp' and s[0][0][1] == 1:
        return P_exp(P_mul(dict(AT.list[s[0][0][0]].key), e))
    return P_atom(AT.get('pow', (P_key(b), P_key(e))))


def P_max(ps):
    flat = {}
    for p in ps:
        s = single(p)
        mx = [(i, e) for i, e in s[0] if AT.list[i].kind == 'max'] if s is not None and s[1] > 0 else []
        rest = tuple(t for t in s[0] if t not in mx) if mx else ()
        if len(mx) == 1 and mx[0][1] == 1 and mono_sign(rest) is not None:
            # a nonnegative multiple of a maximum
            for k in AT.list[mx[0][0]].key:
                flat[P_key(P_mul(dict(k), {rest: s[1]}))] = 1
        else:
            flat[P_key(p)] = 1
    ks = sorted(flat)
    if len(ks) == 1:
        return dict(ks[0])
    cs = [k for k in ks if is_const(dict(k))]
    if len(cs) > 1:
        best = max(cs, key=lambda k: const_of(dict(k)))
        ks = [k for k in ks if k not in cs or k == best]
        if len(ks) == 1:
            return dict(ks[0])
    polys = [dict(k) for k in ks]
    nz = [p for p in polys if p]
    terms = {}
    for p in nz:
        for m in p:
            terms[m] = Fraction(1)
    g = tuple((i, e) for i, e in mono_content(terms) if atom_sign(AT.list[i]) == '+'
              and AT.list[i].kind not in ('root', 'sqrt', 'abs', 'inv'))
    n, d = 0, 1
    for p in nz:
        for c in p.values():
            n = math.gcd(n, c.numerator)
            d = d * c.denominator // math.gcd(d, c.denominator)
    k = Fraction(n, d)
    polys = [mono_div(P_scale(p, 1 / k), g) if p else p for p in polys]
    key = tuple(sorted(P_key(p) for p in polys))
    return P_mul(P_mul(P_const(k), {g: Fraction(1)}), P_atom(AT.get('max', key)))


def P_floor(p):
    if is_const(p):
        return P_const(const_of(p).__floor__())
    if poly_int(p):
        return p
    i = {m: c for m, c in p.items() if poly_int({m: c})}
    r = P_add(p, i, -1)
    return P_add(i, P_atom(AT.get('floor', P_key(r))))


def poly_int(p):
    """Does the polynomial take integer values only?"""
    atoms = set()
    d = 1
    for m, c in p.items():
        d = d * c.denominator // math.gcd(d, c.denominator)
        for i, e in m:
            a = AT.list[i]
            if e < 0:
                return False
            if a.kind in ('floor', 'rint', 'ind') or (a.kind == 'var' and a.key in INTVARS):
                atoms.add(i)
                continue
            return False
    if d == 1:
        return True
    atoms = sorted(atoms)
    if d ** len(atoms) > 300:
        return False
    # d*p has integer coefficients, so its residue depends on the residues of the atoms only
    for vals in itertools.product(range(d), repeat=len(atoms)):
        v = dict(zip(atoms, vals))
        t = 0
        for m, c in p.items():
            x = c.numerator * (d // c.denominator)
            for i, e in m:
                x = x * pow(v[i], e, d) % d
            t += x
        if t % d:
            return False
    return True


def IND(rel, p):
    """Indicator poly of p > 0 or p == 0."""
    n = inds_of(p)
    if n and len(n) <= 3 and not CTX['opaque']:
        return shannon(lambda q: _ind(rel, q), [p])
    return _ind(rel, p)


def _ind(rel, p):
    if is_const(p):
        c = const_of(p)
        return P_const(1 if (c > 0 if rel == '>' else c == 0) else 0)
    sg = poly_sign(p)
    if rel == '>':
        if sg == '+':
            return P_const(1)
        if poly_sign(P_neg(p)) is not None:
            return P_const(0)
        # drop positive common factors
        p = pos_common([p])[0]
        s = single(p)
        if s is not None and sg == '0':
            # product of nonnegative atoms > 0  iff all nonzero
            out = P_const(1)
            for i, e in s[0]:
                if atom_sign(AT.list[i]) != '+':
                    out = P_mul(out, P_add(P_const(1), IND('==', P_atom(AT.list[i])), -1))
            return out
    else:
        if sg == '+' or poly_sign(P_neg(p)) == '+':
            return P_const(0)
        p = pos_common([p])[0]
        s = single(p)
        if s is not None:
            m, c = s
            # product == 0 iff some factor with positive exponent == 0
            fs = [AT.list[i] for i, e in m if e > 0 and atom_sign(AT.list[i]) != '+']
            if not fs:
                return P_const(0)
            if len(fs) > 1 or c != 1 or len(m) > 1 or m[0][1] != 1:
                none = P_const(1)
                for a in fs:
                    none = P_mul(none, P_add(P_const(1), IND('==', P_atom(a)), -1))
                return P_add(P_const(1), none, -1)
            a = fs[0]
            if a.kind == 'ind':
                return P_add(P_const(1), P_atom(a), -1)
            if a.kind == 'sqrt' and a.key in CTX['nonzero']:
                return {}
        elif p[leading(p)] < 0:
            p = P_neg(p)
    return P_atom(AT.get('ind', (rel, P_key(p))))


# ------------------------------------------------------------------------------------ nodes

OPAQUE = [40]


def defined_as(p):
    """An unknown that stands for p."""
    if len(p) < 3:
        return p
    k = p[leading(p)]
    return P_scale(P_atom(AT.get('def', P_key(P_scale(p, 1 / k)))), k)


class Norm(object):
    def __init__(self, nonzero=(), positive=frozenset(), opaque=False):
        self.opaque = opaque
        self.memo = {}
        self.polar = {}
        self.nonzero = set(nonzero)
        self.positive = positive

    def __call__(self, node):
        old = dict(CTX)
        CTX['polar'] = self.polar
        CTX['nonzero'] = self.nonzero
        CTX['positive'] = self.positive
        CTX['opaque'] = self.opaque
        try:
            memo = self.memo
            for n in E.topo([node]):
                if n.id not in memo:
                    memo[n.id] = self.one(n, [memo[a.id] for a in n.args])
            return memo[node.id]
        finally:
            CTX.update(old)

    def one(self, n, a):
        o = n.op
        if o == 'const':
            return nice(n.val, n.dt)
        if o == 'bconst':
            return P_const(1 if n.val else 0)
        if o == 'var':
            if n.dt == 'i':
                INTVARS.add(n.val)
            return P_atom(AT.get('var', n.val))
        if o == 'bvar':
            return P_atom(AT.get('ind', ('b', n.val)))
        if o == 'pi':
            return P_atom(_PI)
        if o == 'add':
            return P_add(a[0], a[1])
        if o == 'sub':
            return P_add(a[0], a[1], -1)
        if o == 'mul':
            return P_mul(a[0], a[1])
        if o == 'div':
            return P_div(a[0], a[1])
        if o == 'neg':
            return P_neg(a[0])
        if o == 'cast':
            return a[0]
        if o == 'abs':
            return P_abs(a[0])
        if o == 'sqrt':
            return P_sqrt(a[0])
        if o == 'exp':
            return P_exp(a[0])
        if o == 'cos':
            return P_cos(a[0])
        if o == 'sin':
            return P_sin(a[0])
        if o == 'tanh':
            return P_tanh(a[0])
        if o == 'asin':
            return P_asin(a[0])
        if o == 'acos':
            return P_acos(a[0])
        if o == 'atan2':
            return P_atan2(a[0], a[1])
        if o == 'pow':
            return P_pow_sym(a[0], a[1])
        if o == 'max':
            return P_max([a[0], a[1]])
        if o == 'floor':
            return P_floor(a[0])
        if o in ('rint', 'log'):
            return P_atom(AT.get(o, P_key(a[0])))
        if o == 'gt':
            return IND('>', P_add(a[0], a[1], -1))
        if o == 'ge':
            return P_add(P_const(1), IND('>', P_add(a[1], a[0], -1)), -1)
        if o == 'eq':
            return IND('==', P_add(a[0], a[1], -1))
        if o == 'not':
            return P_add(P_const(1), a[0], -1)
        if o == 'and':
            if self.positive and n.args[0].op == n.args[1].op == 'eq':
                # both vanish, though the sum of squares is known to be positive
                x, y = [P_add(self.memo[t.args[0].id], self.memo[t.args[1].id], -1) for t in n.args]
                if len(x) + len(y) < 100 and known_positive(P_add(P_mul(x, x), P_mul(y, y))):
                    return {}
            return P_mul(a[0], a[1])
        if o == 'or':
            return P_add(P_add(a[0], a[1]), P_mul(a[0], a[1]), -1)
        if o in ('ite', 'bite'):
            if self.opaque and o == 'ite' and not is_const(a[0]) and len(a[0]) + len(a[1]) + len(a[2]) > OPAQUE[0]:
                a = [a[0]] + [defined_as(p) for p in a[1:]]
            return P_add(a[2], P_mul(a[0], P_add(a[1], a[2], -1)))
        if o == 'isnan':
            return {}
        if o == 'isfinite':
            return P_const(1)
        if o == 'uf':
            return P_atom(AT.get('uf', (n.val,) + tuple(P_key(x) for x in a)))
        raise Unsupported("normalise " + o)


def clear_inv(d, drop=None):
    """Multiply by the divisors behind inv atoms until none is left (all divisors are nonzero)."""
    for _ in range(60):
        best = None
        for m in d:
            for i, e in m:
                a = AT.list[i]
                if a.kind == 'inv' and e > 0 and len(a.key) > 0:
                    if best is None or (e > best[1]) or (e == best[1] and len(a.key) > len(best[0].key)):
                        if best is None or a.id >= best[0].id or e > best[1]:
                            best = (a, e)
        if best is None:
            return d
        a = max((AT.list[i] for m in d for i, e in m if AT.list[i].kind == 'inv' and e > 0 and AT.list[i].key), key=lambda z: z.id)
        k = max(e for m in d for i, e in m if i == a.id)
        q = dict(a.key)
        out = {}
        pows = {0: P_const(1)}
        for j in range(1, k + 1):
            pows[j] = P_mul(pows[j - 1], q)
        groups = {}
        for m, c in d.items():
            e = 0
            mm = []
            for i, x in m:
                if i == a.id:
                    e = x
                else:
                    mm.append((i, x))
            groups.setdefault(e, {})[tuple(mm)] = c
        for e, g in groups.items():
            out = P_add(out, P_mul(g, pows[k - e]) if k >= e else g)
        d = out
        if drop is not None:
            d = drop(d)
    return d


def show_poly(p, lim=12):
    if not p:
        return "0"
    ts = []
    for m, c in sorted(p.items())[:lim]:
        ts.append("*".join([str(c)] + [show_atom(AT.list[i]) + ("^%d" % e if e != 1 else "") for i, e in m]))
    return " + ".join(ts) + (" + ... (%d terms)" % len(p) if len(p) > lim else "")


def show_atom(a):
    k = a.kind
    if k == 'var':
        return a.key
    if k == 'pi':
        return 'pi'
    if k == 'root':
        return 'sqrt(%d)' % a.key
    if k == 'ind':
        return '[%s %s]' % (a.key[0], a.key[1] if a.key[0] == 'b' else show_poly(dict(a.key[1]), 4))
    if k in ('atan2', 'pow', 'pcos', 'psin'):
        return '%s(%s, %s)' % (k, show_poly(dict(a.key[0]), 4), show_poly(dict(a.key[1]), 4))
    if k == 'max':
        return 'max(%s)' % ", ".join(show_poly(dict(x), 3) for x in a.key)
    if k == 'uf':
        return '%s(%s)' % (a.key[0], ", ".join(show_poly(dict(x), 4) for x in a.key[1:]))
    return '%s(%s)' % (k, show_poly(dict(a.key), 4))


def eval_poly(p, env, ufs=None, cache=None):
    """Numeric value of a canonical form (self-check of the normaliser against the raw term)."""
    cache = {} if cache is None else cache

    def at(i):
        if i in cache:
            return cache[i]
        a = AT.list[i]
        k = a.kind
        ev = lambda key: ep(dict(key))
        import numpy as np
        if k == 'var':
            v = float(env[a.key])
        elif k == 'pi':
            v = math.pi
        elif k == 'root':
            v = math.sqrt(a.key)
        elif k == 'ind':
            if a.key[0] == 'b':
                v = 1.0 if env[a.key[1]] else 0.0
            else:
                x = ev(a.key[1])
                v = 1.0 if (x > 0 if a.key[0] == '>' else x == 0) else 0.0
        elif k == 'inv':
            x = ev(a.key)
            v = 1.0 / x if x else math.nan
        elif k == 'atan2':
            v = math.atan2(ev(a.key[0]), ev(a.key[1]))
        elif k == 'def':
            v = ev(a.key)
        elif k in ('pcos', 'psin'):
            v = (math.cos if k == 'pcos' else math.sin)(math.atan2(ev(a.key[0]), ev(a.key[1])))
        elif k == 'pow':
            v = float(np.power(ev(a.key[0]), ev(a.key[1])))
        elif k == 'max':
            v = max(ev(x) for x in a.key)
        elif k == 'uf':
            v = float(ufs(a.key[0], *[ev(x) for x in a.key[1:]]))
        else:
            f = dict(sqrt=np.sqrt, exp=np.exp, cos=np.cos, sin=np.sin, abs=abs, asin=np.arcsin, acos=np.arccos,
                     tanh=np.tanh, floor=np.floor, rint=np.rint, log=np.log)[k]
            with np.errstate(all='ignore'):
                v = float(f(ev(a.key)))
        cache[i] = v
        return v

    def ep(p):
        t = 0.0
        for m, c in p.items():
            x = float(c)
            for i, e in m:
                b = at(i)
                try:
                    x *= b ** e
                except ZeroDivisionError:
                    x = math.nan
            t += x
        return t
    return ep(p)
