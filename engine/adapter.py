"""What a property scenario sees.  The same scenario runs symbolically (Sym) and on the plain library (Conc)."""
import hashlib
import math
import random
import numpy as np


class Retry(Exception):
    """The chosen sample point does not satisfy the assumptions of the scenario."""


class Stop(Exception):
    """The scenario ended early (an obligation already failed concretely)."""


def seed_of(*xs):
    return int.from_bytes(hashlib.sha256(repr(xs).encode()).digest()[:8], 'big')


def uf_num(name, *args):
    """The concrete function standing for an uninterpreted one."""
    if name == 'round32':
        return float(np.float32(float(args[0])))
    r = random.Random(seed_of('uf', name))
    v = r.uniform(0.6, 1.4)
    for k in range(3):
        ph = r.uniform(0, 6.28)
        for a in args:
            ph = ph + r.uniform(0.4, 1.3) * a
        v = v + r.uniform(0.1, 0.5) * np.sin(ph)
    return v


def f32(v):
    return float(np.float32(v))


class Base(object):
    symbolic = False

    def __init__(self, env, bits, seed=0):
        self.env = env            # name -> value, filled on demand
        self.bits = bits
        self.seed = seed
        self.obl = []
        self.pi_ = math.pi
        self.uf_names = set()

    # ---- values of the sample point
    def sample(self, name, lo, hi, kind='real'):
        if name in self.env:
            return self.env[name]
        r = random.Random(seed_of(self.seed, name))
        if kind == 'bool':
            v = r.random() < 0.5
        elif kind == 'int':
            v = r.randint(lo, hi)
        else:
            v = f32(r.uniform(lo, hi))
            if v == 0:
                v = f32(lo + (hi - lo) / 3)
        self.env[name] = v
        return v

    # ---- shapes of names
    @staticmethod
    def idx(name, shape):
        for i in np.ndindex(*shape):
            yield i, name + "_" + "_".join(str(k) for k in i)

    @property
    def dtype(self):
        from pySLM2 import BACKEND
        return BACKEND._dtype

    @property
    def np_dtype(self):
        return np.float32 if self.bits == 32 else np.float64

    @property
    def np_cdtype(self):
        return np.complex64 if self.bits == 32 else np.complex128

    # ---- obligations
    def eq(self, label, actual, expected, **o):
        a, e = self.cells(actual), self.cells(expected)
        if a.shape != e.shape and e.shape != ():
            self.obl.append(dict(label=label, kind='shape', a=a, e=e, o=o, bad="shape %s, expected %s" % (a.shape, e.shape)))
            return
        self.obl.append(dict(label=label, kind='eq', a=a, e=np.broadcast_to(e, a.shape), o=o))

    def true(self, label, cond, **o):
        c = self.cells(cond)
        self.obl.append(dict(label=label, kind='true', a=c, o=o))

    def check(self, label, ok, info=''):
        """A fact that is concrete in both modes (types, shapes, raised errors)."""
        self.obl.append(dict(label=label, kind='fact', a=None, ok=bool(ok), bad=str(info), o={}))

    def raises(self, label, fn, exc=Exception):
        try:
            fn()
        except exc as e:
            if type(e).__name__ in ('Unsupported', 'Retry', 'Stop'):
                raise
            self.check(label, True)
            return e
        except BaseException as e:
            if type(e).__name__ in ('Unsupported', 'Retry', 'Stop'):
                raise
            self.check(label, False, "raised %s instead of %s" % (type(e).__name__, getattr(exc, '__name__', exc)))
            return None
        self.check(label, False, "nothing raised")
        return None

    def seq(self, xs):
        out = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            out[i] = x
        return out

    def arr(self, rows):
        """Object array from nested lists of cells."""
        if not isinstance(rows, (list, tuple)):
            o = np.empty((), dtype=object)
            o[()] = rows
            return o
        parts = [self.arr(r) for r in rows]
        out = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p[()] if p.shape == () else p
        return out

    def map(self, f, *arrs):
        arrs = np.broadcast_arrays(*[a if isinstance(a, np.ndarray) else self.arr(a) for a in arrs])
        out = np.empty(arrs[0].shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = f(*[a[i] for a in arrs])
        return out

    def grid(self, f, *shape):
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = f(*i)
        return out

    def is_bool(self, cells):
        v = np.asarray(cells, dtype=object).reshape(-1)[0]
        return isinstance(v, (bool, np.bool_)) or getattr(v, 'sort', None) == 'B'

    def sum(self, xs):
        t = self.num(0)
        for x in np.asarray(xs, dtype=object).reshape(-1):
            t = t + x
        return t

    def prod(self, xs):
        t = self.num(1)
        for x in np.asarray(xs, dtype=object).reshape(-1):
            t = t * x
        return t

    # dft of an object array of cells: exp(sgn 2 pi i jk/N)
    def dft2(self, a, inverse=False):
        ny, nx = a.shape
        s = 1 if inverse else -1
        n = nx * ny

        def cell(k, l):
            t = self.num(0)
            for i in range(ny):
                for j in range(nx):
                    t = t + a[i, j] * self.cis(self.frac(s * 2 * ((k * i * nx + l * j * ny) % n), n))
            return t * self.frac(1, n) if inverse else t
        return self.grid(cell, ny, nx)


class Conc(Base):
    """The plain library."""
    symbolic = False

    def __init__(self, env, bits, seed=0):
        super().__init__(env, bits, seed)
        self.np = np
        self.pi = np.float64(math.pi)
        self.pif = math.pi            # as an argument for the library
        self.unmet = None

    def rewind(self):
        """The next draws of the library repeat the first ones."""
        self.rnd.k = 0

    def draw(self, k):
        """Random draw number k of the library."""
        return np.float64(self.np_dtype(self.rnd.value("u%d" % k)))

    def real(self, name, lo=0.2, hi=2.0, pos=False):
        return float(self.sample(name, lo, hi))

    def cplx(self, name, lo=-2.0, hi=2.0):
        return complex(self.sample(name + 'r', lo, hi), self.sample(name + 'i', lo, hi))

    def int(self, name, lo, hi):
        return int(self.sample(name, lo, hi, 'int'))

    def bool(self, name):
        return bool(self.sample(name, 0, 1, 'bool'))

    def reals(self, name, shape, lo=0.2, hi=2.0, dtype=None):
        out = np.empty(shape, dtype=dtype or np.float64)
        for i, n in self.idx(name, shape):
            out[i] = self.sample(n, lo, hi)
        return out

    def complexes(self, name, shape, lo=-2.0, hi=2.0, dtype=None):
        out = np.empty(shape, dtype=dtype or np.complex128)
        for i, n in self.idx(name, shape):
            out[i] = complex(self.sample(n + 'r', lo, hi), self.sample(n + 'i', lo, hi))
        return out

    def bools(self, name, shape):
        out = np.empty(shape, dtype=bool)
        for i, n in self.idx(name, shape):
            out[i] = self.sample(n, 0, 1, 'bool')
        return out

    def profile(self, name, cplx=False):
        import tensorflow as tf
        from pySLM2 import FunctionProfile, BACKEND
        A = self

        def fn(x, y):
            v = uf_num(name, x.astype(np.float64), y.astype(np.float64))
            if cplx:
                v = v + 1j * uf_num(name + '_im', x.astype(np.float64), y.astype(np.float64))
            return v.astype(A.np_cdtype if cplx else A.np_dtype)
        return _mk_profile(fn, cplx)

    def fcells(self, name, *args, cplx=False):
        v = uf_num(name, *[np.float64(a) for a in args])
        return v + 1j * uf_num(name + '_im', *[np.float64(a) for a in args]) if cplx else v

    def assume(self, cond):
        c = self.cells(cond).reshape(-1)
        if not all(bool(x) for x in c):
            self.unmet = True
            raise Retry("assumption not met")

    def cells(self, x):
        import tensorflow as tf
        if isinstance(x, (tf.Tensor, tf.Variable)):
            x = x.numpy()
        if isinstance(x, np.ndarray) and x.dtype == object:
            return x
        a = np.asarray(x)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            v = a[i]
            out[i] = np.complex128(v) if a.dtype.kind == 'c' else (bool(v) if a.dtype.kind == 'b' else np.float64(v))
        return out

    def c(self, x):
        return self.cells(x).reshape(-1)[0]

    def bytes_cells(self, b):
        return self.seq([np.float64(v) for v in b])

    def num(self, v): return np.complex128(v) if isinstance(v, complex) else np.float64(v)
    def frac(self, p, q): return np.float64(p) / np.float64(q)
    def cis(self, f): return np.complex128(np.exp(1j * math.pi * f))
    def cx(self, a, b): return np.complex128(complex(a, b))
    def b(self, v): return bool(v)
    def sin(self, a): return np.sin(a)
    def cos(self, a): return np.cos(a)
    def exp(self, a): return np.exp(a)
    def expi(self, a): return np.complex128(np.exp(1j * a))
    def sqrt(self, a): return np.sqrt(a)
    def abs(self, a): return np.abs(a)
    def abs2(self, a): return np.float64(abs(a) ** 2)
    def tanh(self, a): return np.tanh(a)
    def log(self, a): return np.log(a)
    def acos(self, a): return np.arccos(a)
    def asin(self, a): return np.arcsin(a)
    def atan2(self, y, x): return np.arctan2(y, x)
    def angle(self, z): return np.angle(z)
    def conj(self, z): return np.conj(z)
    def re(self, z): return np.real(z)
    def im(self, z): return np.imag(z)
    def floor(self, a): return np.floor(a)
    def max(self, a, b): return np.maximum(a, b)
    def min(self, a, b): return np.minimum(a, b)
    def pow(self, a, b): return np.power(a, b)
    def ite(self, c, a, b): return a if c else b
    def and_(self, *xs): return all(bool(x) for x in xs)
    def or_(self, *xs): return any(bool(x) for x in xs)
    def not_(self, x): return not x
    def implies(self, a, b): return (not a) or bool(b)
    def eqc(self, a, b): return bool(a == b)
    # comparisons with room for rounding, for obligations
    @property
    def slack(self): return 1e-4 if self.bits == 32 else 1e-9
    def ge(self, a, b): return bool(a >= b - self.slack * (1 + abs(a) + abs(b)))
    def le(self, a, b): return self.ge(b, a)
    def close(self, a, b): return bool(abs(a - b) <= self.slack * (1 + abs(a) + abs(b)))


def _mk_profile(fn, cplx):
    import tensorflow as tf
    from pySLM2 import FunctionProfile, BACKEND

    class UFProfile(FunctionProfile):
        @tf.function
        def _func(self, x, y):
            x, y = tf.convert_to_tensor(x), tf.convert_to_tensor(y)
            r = tf.numpy_function(fn, [x, y], BACKEND.dtype_complex if cplx else BACKEND.dtype)
            return tf.reshape(r, tf.shape(x))
    return UFProfile()


class Sym(Base):
    """Symbolic execution."""
    symbolic = True

    def __init__(self, env, bits, seed=0):
        from . import expr as E, npsh as S, norm as N, prove as P
        super().__init__(env, bits, seed)
        self.E, self.S, self.N, self.P = E, S, N, P
        self.np = S.NP
        self.pi = E.PI
        self.pif = S.SymFloat(math.pi, E.PI)
        self.assumptions = []
        self.dt = 'f32' if bits == 32 else 'f64'

    def rewind(self):
        self.S.Fresh.counter = 0

    def draw(self, k):
        return self.E.var("u%d" % k, self.dt)

    def real(self, name, lo=0.2, hi=2.0, pos=False, dt='f64'):
        v = float(self.sample(name, lo, hi))
        if pos:
            self.N.POSVARS.add(name)
        x = self.E.var(name, dt)
        self.P.VARDT[name] = dt
        if pos:
            self.assume(x > 0)
        return self.S.SymFloat(v, x)

    def cplx(self, name, lo=-2.0, hi=2.0):
        v = complex(self.sample(name + 'r', lo, hi), self.sample(name + 'i', lo, hi))
        self.P.VARDT[name + 'r'] = self.P.VARDT[name + 'i'] = 'f64'
        return self.S.SymComplex(v, self.E.Cx(self.E.var(name + 'r', 'f64'), self.E.var(name + 'i', 'f64')))

    def int(self, name, lo, hi):
        v = int(self.sample(name, lo, hi, 'int'))
        self.N.INTVARS.add(name)
        self.P.VARDT[name] = 'i'
        x = self.E.var(name, 'i')
        self.assume(x >= lo)
        self.assume(x <= hi)
        return self.S.SymInt(v, x)

    def bool(self, name):
        return self.S.SymBool(self.sample(name, 0, 1, 'bool'), self.E.bvar(name))

    def reals(self, name, shape, lo=0.2, hi=2.0, dtype=None):
        d = np.empty(shape, dtype=dtype or np.float64)
        sh = np.empty(shape, dtype=object)
        dt = self.S.DT(d.dtype)
        for i, n in self.idx(name, shape):
            d[i] = self.sample(n, lo, hi)
            sh[i] = self.E.var(n, dt)
            self.P.VARDT[n] = dt
        return self.S.new_nd(d, sh)

    def complexes(self, name, shape, lo=-2.0, hi=2.0, dtype=None):
        d = np.empty(shape, dtype=dtype or np.complex128)
        sh = np.empty(shape, dtype=object)
        dt = self.S.DT(d.dtype)
        for i, n in self.idx(name, shape):
            d[i] = complex(self.sample(n + 'r', lo, hi), self.sample(n + 'i', lo, hi))
            sh[i] = self.E.Cx(self.E.var(n + 'r', dt), self.E.var(n + 'i', dt))
            self.P.VARDT[n + 'r'] = self.P.VARDT[n + 'i'] = dt
        return self.S.new_nd(d, sh)

    def bools(self, name, shape):
        d = np.empty(shape, dtype=bool)
        sh = np.empty(shape, dtype=object)
        for i, n in self.idx(name, shape):
            d[i] = self.sample(n, 0, 1, 'bool')
            sh[i] = self.E.bvar(n)
        return self.S.new_nd(d, sh)

    def profile(self, name, cplx=False):
        A, E, S = self, self.E, self.S
        S_ = S

        def fn(x, y):
            xd, yd = np.asarray(S_.data_of(x), dtype=np.float64), np.asarray(S_.data_of(y), dtype=np.float64)
            v = uf_num(name, xd, yd)
            if cplx:
                v = v + 1j * uf_num(name + '_im', xd, yd)
            v = v.astype(A.np_cdtype if cplx else A.np_dtype)
            if not isinstance(x, S_.SymNd):
                return v
            xs, ys = S_.cells_of(x), S_.cells_of(y)
            f = lambda a, b: E.Cx(E.uf(name, a, b), E.uf(name + '_im', a, b)) if cplx else E.uf(name, a, b)
            return S_.new_nd(v, S_.vec(f, xs, ys))
        fn._uf = True
        return _mk_profile(fn, cplx)

    def fcells(self, name, *args, cplx=False):
        args = [self.E.cell(a) for a in args]
        if cplx:
            return self.E.Cx(self.E.uf(name, *args), self.E.uf(name + '_im', *args))
        return self.E.uf(name, *args)

    def assume(self, cond):
        for c in self.cells(cond).reshape(-1):
            c = self.E.boolean(c)
            env = dict(self.env)
            try:
                ok = self.E.evaluate([c], env, uf_num)[c.id]
            except KeyError:
                ok = True
            if not ok:
                raise Retry("assumption not met")
            self.assumptions.append(c)

    def cells(self, x):
        if isinstance(x, np.ndarray) and x.dtype == object and not isinstance(x, self.S.SymNd):
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                out[i] = self.S.cell1(x[i]) if self.S.is_sym(x[i]) and not isinstance(x[i], (self.E.Node, self.E.Cx)) else self.E.cell(x[i])
            return out
        if isinstance(x, (self.E.Node, self.E.Cx)):
            return self.S.obj_array([x], ())
        if isinstance(x, (bool, np.bool_)):
            return self.S.obj_array([self.E.TRUE if x else self.E.FALSE], ())
        if isinstance(x, (int, float, complex)) and not self.S.is_sym(x):
            return self.S.obj_array([self.E.cell(x)], ())
        x = self.S.lift_arg(x)
        return self.S.cells_of(x).copy()

    def c(self, x):
        return self.cells(x).reshape(-1)[0]

    def bytes_cells(self, b):
        if isinstance(b, self.S.SymBytes):
            if np.dtype(b.edtype) not in (np.uint8, np.int8, bool):
                raise self.E.Unsupported("bytes of " + str(b.edtype))
            return self.seq([self.E.ite(c, self.E.const(1), self.E.const(0)) if c.sort == 'B' else c for c in b.cells])
        return self.seq([self.E.const(v) for v in b])

    def num(self, v): return self.E.cell(v)

    def frac(self, p, q):
        from fractions import Fraction
        return self.E.const(Fraction(p, q))

    def cis(self, f):
        """exp(i pi f)"""
        return self.E.exp(self.E.Cx(self.E.const(0), self.E.mul(f, self.E.PI))) if not (self.E.isc(f)) else self._cis(f)

    def _cis(self, f):
        from fractions import Fraction
        fr = Fraction(f.val)
        return self.S.twiddle(fr.numerator % (2 * fr.denominator), 2 * fr.denominator, 1)

    def cx(self, a, b): return self.E.Cx(self.E.num(self.E.cell(a)), self.E.num(self.E.cell(b)))
    def b(self, v): return self.E.TRUE if v else self.E.FALSE
    def sin(self, a): return self.E.sin(a)
    def cos(self, a): return self.E.cos(a)
    def exp(self, a): return self.E.exp(a)
    def expi(self, a): return self.E.Cx(self.E.cos(a), self.E.sin(a))
    def sqrt(self, a): return self.E.sqrt(a)
    def abs(self, a): return self.E.abs_(a)
    def abs2(self, a):
        a = self.E.num(self.E.cell(a))
        return a.re * a.re + a.im * a.im if isinstance(a, self.E.Cx) else a * a
    def tanh(self, a): return self.E.tanh(a)
    def log(self, a): return self.E.log(a)
    def acos(self, a): return self.E.acos(a)
    def asin(self, a): return self.E.asin(a)
    def atan2(self, y, x): return self.E.atan2(y, x)
    def angle(self, z): return self.E.angle(z)
    def conj(self, z): return self.E.conj(z)
    def re(self, z): return self.E.real(z)
    def im(self, z): return self.E.imag(z)
    def floor(self, a): return self.E.floor(a)
    def max(self, a, b): return self.E.max_(a, b)
    def min(self, a, b): return self.E.min_(a, b)
    def pow(self, a, b): return self.E.pow_(a, b)
    def ite(self, c, a, b): return self.E.ite(c, a, b)
    def and_(self, *xs): return self.E.conjunction([self.E.boolean(self.E.cell(x)) for x in xs])
    def or_(self, *xs): return self.E.disjunction([self.E.boolean(self.E.cell(x)) for x in xs])
    def not_(self, x): return self.E.not_(x)
    def implies(self, a, b): return self.E.or_(self.E.not_(a), b)
    def eqc(self, a, b): return self.E.eq(self.E.cell(a), self.E.cell(b))
    def _slack(self, n):
        if n.op in ('ge', 'eq'):
            self.E.SLACK[n.id] = 1e-4 if self.bits == 32 else 1e-9
        return n

    def ge(self, a, b): return self._slack(self.E.ge(self.E.cell(a), self.E.cell(b)))
    def le(self, a, b): return self.ge(b, a)
    def close(self, a, b): return self._slack(self.E.eq(self.E.cell(a), self.E.cell(b)))

