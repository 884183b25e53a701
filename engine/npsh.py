"""Symbolic NumPy arrays and scalars: real (dummy) data plus a cell per element.

Every operation computes the dummy result with NumPy itself (so shapes, dtypes and control flow are the real
ones) and the cells with the kernels of expr.py.  An operation that is not modelled raises Unsupported instead
of silently dropping the cells.
"""
import builtins
import math
import operator
import types
import sys
import numpy as np
from . import expr as E
from .expr import Unsupported, Cx, Node

LIFT = []          # callables: foreign object -> SymNd or None (installed by tfsh)
ON_NEW = []        # callables notified about new symbolic values (value tags)


class Path(object):
    """Decisions taken on symbolic conditions by Python control flow."""

    def __init__(self):
        self.conds = []

    def decide(self, node, dummy):
        if node is E.TRUE or node is E.FALSE:
            return node is E.TRUE
        d = builtins.bool(dummy)
        self.conds.append(node if d else E.not_(node))
        return d


PATH = Path()


def DT(dtype):
    n = np.dtype(dtype).name
    return {'float32': 'f32', 'complex64': 'f32', 'float64': 'f64', 'complex128': 'f64', 'bool': None}.get(n, 'i')


def KIND(dtype):
    return {'f': 'float', 'c': 'complex', 'b': 'bool', 'i': 'int', 'u': 'int'}[np.dtype(dtype).kind]


def lift_array(a):
    """Object array of constant cells for a concrete array."""
    a = np.asarray(a)
    dt = DT(a.dtype)
    out = np.empty(a.shape, dtype=object)
    if a.dtype.kind == 'O':
        raise Unsupported("object array")
    flat = a.reshape(-1)
    o = out.reshape(-1)
    cache = {}
    for i in range(flat.size):
        v = flat[i].item()
        k = (v, str(v))
        c = cache.get(k)
        if c is None:
            if isinstance(v, complex):
                c = Cx(E.const(v.real, dt), E.const(v.imag, dt))
            elif isinstance(v, bool):
                c = E.TRUE if v else E.FALSE
            else:
                c = E.const(v, dt)
            cache[k] = c
        o[i] = c
    return out


def is_const_cells(sh):
    for c in sh.reshape(-1):
        if isinstance(c, Cx):
            if not (E.isc(c.re) and E.isc(c.im)):
                return False
        elif c.op not in ('const', 'bconst'):
            return False
    return True


def obj_array(cells, shape):
    out = np.empty(shape, dtype=object)
    o = out.reshape(-1)
    for i, c in enumerate(cells):
        o[i] = c
    return out


def vec(fn, *arrs):
    """Apply fn to cells with broadcasting."""
    arrs = [a if isinstance(a, np.ndarray) else obj_array([a], ()) for a in arrs]
    if len(arrs) > 1:
        arrs = np.broadcast_arrays(*arrs)
    out = np.empty(arrs[0].shape, dtype=object)
    o = out.reshape(-1)
    its = [a.reshape(-1) for a in arrs]
    memo = {}
    for i in range(o.size):
        args = [x[i] for x in its]
        k = tuple(id(z) for z in args)
        r = memo.get(k)
        if r is None:
            r = fn(*args)
            memo[k] = r
        o[i] = r
    return out


class SymNd(np.ndarray):
    """ndarray with cells. _sh: object array of cells, None (all concrete) or 'LOST'."""

    def __new__(cls, data, sh=None):
        o = np.asarray(data).view(cls)
        o._sh = sh
        return o

    def __array_finalize__(self, obj):
        s = getattr(obj, '_sh', None)
        self._sh = None if s is None else 'LOST'

    @property
    def sh(self):
        if self._sh is None:
            return lift_array(np.asarray(self.view(np.ndarray)))
        if isinstance(self._sh, str):
            raise Unsupported("symbolic array went through an operation that is not modelled")
        return self._sh

    @property
    def issym(self):
        return self._sh is not None

    # ------------------------------------------------------------------ dispatch
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, typs, args, kw):
        return do_function(func, args, kw)

    # ------------------------------------------------------------------ indexing
    def __getitem__(self, k):
        k, sym = norm_key(k)
        if sym is not None:
            return MaskedView(self, sym)
        d = self.view(np.ndarray)[k]
        if self._sh is None:
            return SymNd(d) if isinstance(d, np.ndarray) else d
        return result(d, self.sh[k])

    def __setitem__(self, k, v):
        k, sym = norm_key(k)
        base = self.view(np.ndarray)
        if sym is not None:
            mask, msh = sym
            if isinstance(v, MaskedView):
                if not masks_equal(v.msh, msh):
                    raise Unsupported("masked assignment between different symbolic masks")
                vd, vs = v.data, v.sh
            else:
                vd, vs = data_of(v), cells_of(v)
            if np.ndim(vd) not in (0,) and vd.shape != base.shape:
                raise Unsupported("masked assignment of a compressed array")
            own = self.sh
            kind, dt = KIND(base.dtype), DT(base.dtype)
            vs = vec(lambda c: E.cast(c, kind, dt), vs)
            msh_b = _expand_mask(msh, own.shape)
            new = vec(E.ite, msh_b, vs, own)
            nd = np.where(_expand_mask(mask, base.shape), vd, base)
            base[...] = nd.astype(base.dtype)
            self._put(new)
            return
        if isinstance(v, MaskedView):
            raise Unsupported("unmasked assignment of a masked selection")
        vsym = is_sym(v)
        if not vsym and self._sh is None:
            base[k] = data_of(v)
            return
        own = self.sh.copy() if self._sh is None else self.sh
        kind, dt = KIND(base.dtype), DT(base.dtype)
        cs = vec(lambda c: E.cast(c, kind, dt), cells_of(v))
        base[k] = data_of(v)
        own[k] = cs if cs.shape != () else cs[()]
        self._sh = own

    def _put(self, new):
        if self._sh is None:
            self._sh = new
        else:
            self._sh[...] = new

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def __bool__(self):
        if self.size != 1:
            return builtins.bool(self.view(np.ndarray))
        if self._sh is None:
            return builtins.bool(self.view(np.ndarray))
        return PATH.decide(E.boolean(self.sh.reshape(-1)[0]), self.view(np.ndarray).reshape(-1)[0])

    def __float__(self):
        return float(self.view(np.ndarray))

    def __int__(self):
        v = int(self.view(np.ndarray))
        if self._sh is not None and self.size == 1:
            PATH.decide(E.eq(E.cast(self.sh.reshape(-1)[0], 'int'), v), True)
        return v

    def __complex__(self):
        return complex(self.view(np.ndarray))

    # ------------------------------------------------------------------ methods
    def astype(self, dtype, *a, **kw):
        dtype = np.dtype(plain_type(dtype))
        d = self.view(np.ndarray).astype(dtype, *a, **kw)
        if self._sh is None:
            return SymNd(d)
        return SymNd(d, vec(lambda c: E.cast(c, KIND(dtype), DT(dtype)), self.sh))

    def copy(self, *a):
        return SymNd(self.view(np.ndarray).copy(), None if self._sh is None else self.sh.copy())

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def item(self, *a):
        if self._sh is None:
            return self.view(np.ndarray).item(*a)
        if a:
            return wrap_scalar(self.view(np.ndarray).item(*a), self.sh.reshape(-1)[a[0]] if len(a) == 1 else self.sh[a])
        return wrap_scalar(self.view(np.ndarray).item(), self.sh.reshape(-1)[0])

    def tolist(self):
        if self._sh is None:
            return self.view(np.ndarray).tolist()
        if self.ndim == 0:
            return self.item()
        return [self[i].tolist() if isinstance(self[i], SymNd) else self[i] for i in range(self.shape[0])]

    def tobytes(self, *a, **kw):
        if self._sh is None:
            return self.view(np.ndarray).tobytes(*a, **kw)
        return SymBytes(self.view(np.ndarray).tobytes(*a, **kw), self.view(np.ndarray).dtype, self.sh.reshape(-1).copy())

    def __bytes__(self):
        return self.tobytes()

    @property
    def T(self):
        return np.transpose(self)

    @property
    def real(self):
        if self._sh is None:
            return SymNd(self.view(np.ndarray).real)
        return SymNd(self.view(np.ndarray).real, vec(E.real, self.sh))

    @property
    def imag(self):
        if self._sh is None:
            return SymNd(self.view(np.ndarray).imag)
        return SymNd(self.view(np.ndarray).imag, vec(E.imag, self.sh))

    @property
    def flat(self):
        return self.reshape(-1)

    def conj(self): return np.conj(self)
    def conjugate(self): return np.conj(self)
    def view(self, *a, **kw):
        if a and a[0] is np.ndarray and not kw:
            return np.ndarray.view(self, np.ndarray)
        if self._sh is None:
            return np.ndarray.view(self, *a, **kw)
        raise Unsupported("view of a symbolic array")


def _m(name, fn=None):
    f = fn or getattr(np, name)

    def meth(self, *a, **kw):
        return f(self, *a, **kw)
    meth.__name__ = name
    setattr(SymNd, name, meth)


for _n in ('sum', 'mean', 'max', 'min', 'prod', 'any', 'all', 'ravel', 'transpose', 'squeeze', 'swapaxes', 'repeat',
           'clip', 'round', 'dot', 'take', 'cumsum', 'trace', 'diagonal', 'argmax', 'argmin', 'std', 'var', 'nonzero'):
    _m(_n)


def _reshape(self, *shape, **kw):
    if len(shape) == 1 and not isinstance(shape[0], (int, np.integer)):
        shape = shape[0]
    return np.reshape(self, shape, **kw)


SymNd.reshape = _reshape
SymNd.flatten = lambda self, *a: np.ravel(self).copy()


class MaskedView(object):
    """a[mask] with a symbolic mask: its length is not known, only elementwise use with the same mask is."""

    def __init__(self, base, sym=None, data=None, sh=None, mask=None, msh=None):
        if sym is not None:
            mask, msh = sym
            data, sh = base.view(np.ndarray), base.sh
            msh = _expand_mask(msh, sh.shape)
            mask = _expand_mask(mask, sh.shape)
        self.data, self.sh, self.mask, self.msh = data, sh, mask, msh
        self.dtype = np.asarray(data).dtype
        self.ndim = 1

    @property
    def size(self):
        return wrap_scalar(int(np.sum(self.mask)), count_cells(self.msh))

    @property
    def shape(self):
        return (self.size,)

    def __len__(self):
        raise Unsupported("length of a selection by a symbolic mask")

    def _bin(self, o, u, rev=False):
        if isinstance(o, MaskedView):
            if not masks_equal(o.msh, self.msh):
                raise Unsupported("two different symbolic masks")
            od, os_ = o.data, o.sh
        else:
            od, os_ = data_of(o), cells_of(o)
            if np.ndim(od) != 0:
                raise Unsupported("mixing a masked selection with an array")
        k = UF[u]
        with np.errstate(all='ignore'):
            a = (od, self.data) if rev else (self.data, od)
            b = (os_, self.sh) if rev else (self.sh, os_)
            return MaskedView(None, None, getattr(np, u)(*a), vec(k, *b), self.mask, self.msh)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == '__call__' and len(inputs) == 2 and not kw:
            if isinstance(inputs[0], MaskedView):
                return inputs[0]._bin(inputs[1], ufunc.__name__)
            return self._bin(inputs[0], ufunc.__name__, True)
        if method == '__call__' and len(inputs) == 1 and not kw:
            return MaskedView(None, None, ufunc(self.data), vec(UF[ufunc.__name__], self.sh), self.mask, self.msh)
        raise Unsupported("ufunc %s on a masked selection" % ufunc.__name__)

    def __array_function__(self, func, typs, args, kw):
        n = func.__name__
        if args and isinstance(args[0], MaskedView) and not kw and len(args) == 1:
            return getattr(self, n)()
        raise Unsupported("%s on a masked selection" % n)

    def __mul__(s, o): return s._bin(o, 'multiply')
    def __rmul__(s, o): return s._bin(o, 'multiply', True)
    def __add__(s, o): return s._bin(o, 'add')
    def __radd__(s, o): return s._bin(o, 'add', True)
    def __sub__(s, o): return s._bin(o, 'subtract')
    def __rsub__(s, o): return s._bin(o, 'subtract', True)
    def __truediv__(s, o): return s._bin(o, 'divide')
    def __pow__(s, o): return s._bin(o, 'power')
    def __neg__(s): return s._bin(-1, 'multiply')

    def sum(self, *a, **kw):
        t = E.const(0)
        for c, m in zip(self.sh.reshape(-1), self.msh.reshape(-1)):
            t = E.add(t, E.mul(E.num(m), c))
        return wrap_scalar(self.data[self.mask].sum(), t)

    def mean(self, *a, **kw):
        t = cells_of(self.sum())[()]
        return wrap_scalar(self.data[self.mask].mean(), E.div(t, count_cells(self.msh)))


def count_cells(msh):
    t = E.const(0)
    for m in msh.reshape(-1):
        t = E.add(t, E.num(m))
    return t


def _expand_mask(m, shape):
    m = np.asarray(m)
    if m.shape == tuple(shape):
        return m
    return np.broadcast_to(m.reshape(m.shape + (1,) * (len(shape) - m.ndim)), shape)


def masks_equal(a, b):
    return a.shape == b.shape and all(x is y for x, y in zip(a.reshape(-1), b.reshape(-1)))


def norm_key(k):
    """(plain key, None) or (None, (mask data, mask cells))."""
    def one(x):
        for f in LIFT:
            y = f(x)
            if y is not None:
                x = y
                break
        if isinstance(x, SymNd):
            if x._sh is None or is_const_cells(x.sh):
                return x.view(np.ndarray), None
            if x.dtype == bool:
                return None, (x.view(np.ndarray), x.sh)
            raise Unsupported("symbolic integer index")
        if isinstance(x, SymScalar):
            if isinstance(x, SymInt):
                PATH.decide(E.eq(x._cell, int(x)), True)
                return int(x), None
            raise Unsupported("symbolic scalar index")
        return x, None
    if isinstance(k, tuple):
        out = []
        for x in k:
            v, s = one(x)
            if s is not None:
                if len(k) == 1:
                    return None, s
                raise Unsupported("symbolic mask inside a tuple index")
            out.append(v)
        return tuple(out), None
    return one(k)


class SymBytes(bytes):
    """bytes with one cell per element of the array it was made from."""

    def __new__(cls, data, dtype, cells):
        o = bytes.__new__(cls, data)
        o.cells = cells
        o.edtype = dtype
        return o


# ------------------------------------------------------------------------------- scalars

RUN = [0]


class SymScalar(object):
    def __repr__(self):
        return "<sym %s>" % E.show(self._cell)


def _sfun(name, u, rev=False):
    def f(self, o):
        if u in ('equal', 'not_equal') and isinstance(o, (int, float, complex)) and \
                sys._getframe(1).f_globals.get('__name__', '').startswith('tensorflow.core'):
            # lookup of a traced function by its Python arguments: by value, as in the plain run, but a trace of an earlier
            # run is not used again (the values derived from the arguments while tracing belong to that run)
            same = isinstance(o, _Arith) and self._gen == o._gen == RUN[0] and self._plain() == o._plain()
            return same == (u == 'equal')
        if isinstance(o, np.ndarray) or is_foreign(o):
            if is_foreign(o):
                return NotImplemented
            return do_ufunc(getattr(np, u), '__call__', (o, self) if rev else (self, o), {})
        if not isinstance(o, (int, float, complex, np.generic, Node, Cx)):
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        return scalar_op(u, a, b)
    return f


def scalar_op(u, *xs):
    with np.errstate(all='ignore'):
        ds = [data_of(x) for x in xs]
        if u in ('divide',) and ds[1] == 0:
            d = getattr(np, u)(*[np.float64(x) for x in ds])
        elif u == 'power' and isinstance(ds[0], int) and isinstance(ds[1], int) and ds[1] < 0:
            d = float(ds[0]) ** ds[1]
        elif all(type(x) in (int, bool) for x in ds) and u in PYINT:
            d = PYINT[u](*ds)
        else:
            d = getattr(np, u)(*ds)
    return wrap_scalar(d, UF[u](*[cell1(x) for x in xs]))


PYINT = dict(add=operator.add, subtract=operator.sub, multiply=operator.mul, floor_divide=operator.floordiv,
             remainder=operator.mod, negative=operator.neg, absolute=abs)


class _Arith(SymScalar):
    pass


for _nm, _u in (('add', 'add'), ('sub', 'subtract'), ('mul', 'multiply'), ('truediv', 'divide'), ('pow', 'power'),
                ('floordiv', 'floor_divide'), ('mod', 'remainder')):
    setattr(_Arith, '__%s__' % _nm, _sfun(_nm, _u))
    setattr(_Arith, '__r%s__' % _nm, _sfun(_nm, _u, True))
for _nm, _u in (('lt', 'less'), ('gt', 'greater'), ('le', 'less_equal'), ('ge', 'greater_equal'), ('eq', 'equal'),
                ('ne', 'not_equal')):
    setattr(_Arith, '__%s__' % _nm, _sfun(_nm, _u))
_Arith.__neg__ = lambda s: scalar_op('negative', s)
_Arith.__pos__ = lambda s: s
_Arith.__abs__ = lambda s: scalar_op('absolute', s)
_Arith.__hash__ = lambda s: hash(s._plain())
_Arith.__bool__ = lambda s: PATH.decide(E.boolean(s._cell), s._plain() != 0)
_Arith.__array_ufunc__ = lambda self, ufunc, method, *inputs, **kw: do_ufunc(ufunc, method, inputs, kw)
_Arith.__array_function__ = lambda self, func, t, args, kw: do_function(func, args, kw)
_Arith.shape = ()
_Arith.ndim = 0
_Arith.size = 1
_Arith.item = lambda s: s
_Arith._sym_cell_ = property(lambda s: s._cell)


class SymFloat(_Arith, float):
    def __new__(cls, v, cell):
        o = float.__new__(cls, v)
        o._cell = cell
        o._gen = RUN[0]
        for f in ON_NEW:
            f(float(v), cell)
        return o

    def _plain(self): return float.__float__(self)
    def __float__(self): return float.__float__(self)
    def __int__(self):
        # the integer leaves the symbolic world: one path per value
        v = int(float.__float__(self))
        if not sys._getframe(1).f_globals.get('__name__', '').startswith('tensorflow'):
            PATH.decide(E.eq(E.cast(self._cell, 'int'), v), True)
        return v

    __trunc__ = __int__
    def __floor__(self): return SymInt(math.floor(self._plain()), E.floor(self._cell))
    def __ceil__(self): return SymInt(math.ceil(self._plain()), E.ceil(self._cell))
    def __round__(self, n=None):
        raise Unsupported("round of a symbolic number")
    def is_integer(self):
        return bool(SymBool(self._plain() == int(self._plain()), E.eq(E.floor(self._cell), self._cell)))
    dtype = np.dtype(np.float64)
    def astype(self, t): return sym_nd(self).astype(t)
    real = property(lambda s: s)
    imag = 0.0
    def conjugate(self): return self


class SymInt(_Arith, int):
    def __new__(cls, v, cell):
        o = int.__new__(cls, v)
        o._cell = cell
        o._gen = RUN[0]
        return o

    def _plain(self): return int.__int__(self)
    def __int__(self):
        # as for floats: one path per value
        if not sys._getframe(1).f_globals.get('__name__', '').startswith('tensorflow'):
            PATH.decide(E.eq(self._cell, int.__int__(self)), True)
        return int.__int__(self)

    def __float__(self): return float(int.__int__(self))
    dtype = np.dtype(np.int64)

    def __index__(self):
        PATH.decide(E.eq(self._cell, int.__int__(self)), True)
        return int.__int__(self)


class SymComplex(_Arith, complex):
    def __new__(cls, v, cell):
        o = complex.__new__(cls, v)
        o._cell = cell
        o._gen = RUN[0]
        for f in ON_NEW:
            f(complex(v), cell)
        return o

    def _plain(self): return complex(complex.real.__get__(self), complex.imag.__get__(self))
    def __complex__(self): return self._plain()
    dtype = np.dtype(np.complex128)
    @property
    def real(self): return wrap_scalar(complex.real.__get__(self), E.real(self._cell))
    @property
    def imag(self): return wrap_scalar(complex.imag.__get__(self), E.imag(self._cell))
    def conjugate(self): return wrap_scalar(self._plain().conjugate(), E.conj(self._cell))


class SymBool(SymScalar):
    def __init__(self, v, cell):
        self._v = builtins.bool(v)
        self._cell = cell
    def __bool__(self): return PATH.decide(self._cell, self._v)
    def __and__(s, o): return SymBool(s._v and data_of(o), E.and_(s._cell, cell1(o)))
    __rand__ = __and__
    def __or__(s, o): return SymBool(s._v or data_of(o), E.or_(s._cell, cell1(o)))
    __ror__ = __or__
    def __invert__(s): return SymBool(not s._v, E.not_(s._cell))
    def __eq__(s, o): return SymBool(s._v == data_of(o), E.eq(s._cell, cell1(o)))
    def __hash__(s): return hash(s._v)
    def _plain(self): return self._v
    dtype = np.dtype(bool)
    shape = ()
    ndim = 0
    def __array_ufunc__(self, ufunc, method, *inputs, **kw): return do_ufunc(ufunc, method, inputs, kw)
    def __float__(self): return float(self._v)
    def __int__(self): return int(self._v)
    _sym_cell_ = property(lambda s: s._cell)


def wrap_scalar(d, c):
    c = E.cell(c)
    if isinstance(c, Node) and c.op in ('const', 'bconst') or (isinstance(c, Cx) and E.isc(c.re) and E.isc(c.im)):
        return d
    if isinstance(d, np.generic):
        d = d.item()
    if isinstance(d, SymScalar):
        d = d._plain()
    if isinstance(d, (builtins.bool,)):
        return SymBool(d, E.boolean(c))
    if isinstance(d, int):
        return SymInt(d, c)
    if isinstance(d, float):
        return SymFloat(d, E.real(c) if isinstance(c, Cx) else c)
    if isinstance(d, complex):
        return SymComplex(d, c)
    raise Unsupported("symbolic scalar of type %s" % type(d))


def result(d, sh):
    if isinstance(d, np.ndarray) and d.shape != ():
        return new_nd(d, sh)
    c = sh if not isinstance(sh, np.ndarray) else sh.reshape(-1)[0]
    if isinstance(d, np.ndarray):
        d = d[()]
    return wrap_scalar(d, c)


def new_nd(d, sh):
    d = np.asarray(d)
    if ON_NEW and d.size <= 512 and d.dtype.kind in 'fc':
        for v, c in zip(d.reshape(-1), sh.reshape(-1)):
            if isinstance(c, Cx):
                if E.isc(c.re) and E.isc(c.im):
                    continue
                for f in ON_NEW:
                    f(complex(v), c)
            elif c.op != 'const':
                for f in ON_NEW:
                    f(v.item(), c)
    return SymNd(d, sh)


# ------------------------------------------------------------------------------- conversions

FOREIGN = [()]


def is_foreign(x):
    return isinstance(x, FOREIGN[0])


def sym_nd(x):
    """x (symbolic scalar / array / foreign tensor with cells / nested list) as SymNd."""
    if isinstance(x, SymNd):
        return x
    return SymNd(np.array(data_of(x)), cells_of(x))


def foreign(x):
    for f in LIFT:
        y = f(x)
        if y is not None:
            return y
    return None


def is_sym(x):
    if isinstance(x, SymNd):
        return x._sh is not None
    if isinstance(x, (SymScalar, MaskedView, Node, Cx)):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_sym(y) for y in x)
    if is_foreign(x):
        return foreign(x) is not None
    return False


def data_of(x):
    if isinstance(x, SymNd):
        return x.view(np.ndarray)
    if isinstance(x, SymScalar):
        return x._plain()
    if isinstance(x, (list, tuple)):
        return type(x)(data_of(y) for y in x) if type(x) in (list, tuple) else x
    if is_foreign(x):
        return np.asarray(x)
    if isinstance(x, np.generic):
        return x
    if isinstance(x, (Node, Cx)):
        raise Unsupported("raw term passed to the library")
    return x


def cells_of(x):
    if isinstance(x, SymNd):
        return x.sh
    if isinstance(x, SymScalar):
        return obj_array([x._cell], ())
    if isinstance(x, (Node, Cx)):
        return obj_array([x], ())
    if is_foreign(x):
        y = foreign(x)
        if y is not None:
            return y.sh
        return lift_array(np.asarray(x))
    if isinstance(x, (list, tuple)):
        if not is_sym(x):
            return lift_array(np.array(x))
        parts = [cells_of(y) for y in x]
        out = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if p.shape else p[()]
        return out
    return lift_array(np.asarray(x))


def cell1(x):
    c = cells_of(x)
    return c.reshape(-1)[0]


# ------------------------------------------------------------------------------- ufuncs

def _floor_div(a, b): return E.floor(E.div(a, b))
def _mod(a, b): return E.sub(a, E.mul(b, E.floor(E.div(a, b))))


UF = dict(
    add=lambda a, b: E.or_(a, b) if both_bool(a, b) else E.add(a, b), subtract=E.sub,
    multiply=lambda a, b: E.and_(a, b) if both_bool(a, b) else E.mul(a, b), divide=E.div, true_divide=E.div,
    power=E.pow_, float_power=E.pow_, negative=E.neg, positive=lambda a: a, absolute=E.abs_, fabs=E.abs_, sqrt=E.sqrt,
    square=E.square, exp=E.exp, log=E.log, sin=E.sin, cos=E.cos, tan=E.tan, tanh=E.tanh, sinh=E.sinh, cosh=E.cosh,
    arcsin=E.asin, arccos=E.acos, arctan=E.atan, arctan2=E.atan2, hypot=lambda a, b: E.sqrt(E.add(E.square(a), E.square(b))),
    greater=E.gt, greater_equal=E.ge, less=E.lt, less_equal=E.le, equal=E.eq, not_equal=E.ne,
    logical_and=E.and_, logical_or=E.or_, logical_not=E.not_, logical_xor=E.xor_, bitwise_and=E.and_, bitwise_or=E.or_,
    bitwise_xor=E.xor_, invert=E.not_, maximum=E.max_, minimum=E.min_, fmax=E.max_, fmin=E.min_, floor=E.floor,
    ceil=E.ceil, rint=E.rint, trunc=lambda a: E.cast(a, 'int'), sign=E.sign, conjugate=E.conj,
    reciprocal=lambda a: E.div(1, a), floor_divide=_floor_div, remainder=_mod, isnan=E.isnan, isfinite=E.isfinite,
    deg2rad=lambda a: E.div(E.mul(a, E.PI), 180), rad2deg=lambda a: E.div(E.mul(a, 180), E.PI),
    exp2=lambda a: E.pow_(2, a), expm1=lambda a: E.sub(E.exp(a), 1), log1p=lambda a: E.log(E.add(1, a)),
)


def both_bool(a, b):
    return isinstance(a, Node) and isinstance(b, Node) and a.sort == 'B' and b.sort == 'B'


def do_ufunc(ufunc, method, inputs, kw):
    kw = dict(kw)
    out = kw.pop('out', None)
    name = ufunc.__name__
    if any(isinstance(x, MaskedView) for x in inputs):
        for x in inputs:
            if isinstance(x, MaskedView):
                return x.__array_ufunc__(ufunc, method, *inputs, **kw)
    symbolic = any(is_sym(x) for x in inputs) or (out is not None and any(is_sym(x) for x in out))
    ds = [data_of(x) for x in inputs]
    if 'dtype' in kw:
        kw['dtype'] = plain_type(kw['dtype'])
    if not symbolic:
        if out is not None:
            r = getattr(ufunc, method)(*ds, out=tuple(data_of(x) for x in out), **kw)
            return out[0]
        r = getattr(ufunc, method)(*ds, **kw)
        return SymNd(r) if isinstance(r, np.ndarray) else r
    if method == 'reduce':
        red = {'add': 'sum', 'multiply': 'prod', 'maximum': 'max', 'minimum': 'min', 'logical_and': 'all', 'logical_or': 'any'}.get(name)
        if red is None:
            raise Unsupported("reduce of " + name)
        return reduction(red, inputs[0], *inputs[1:], **{k: v for k, v in kw.items() if k in ('axis', 'keepdims')})
    if method == 'outer' and len(inputs) == 2:
        a, b = inputs
        ca, cb = cells_of(a), cells_of(b)
        d = ufunc.outer(*ds)
        return new_nd(d, vec(UF[name], ca.reshape(ca.shape + (1,) * cb.ndim), cb))
    if method != '__call__':
        raise Unsupported("ufunc method %s.%s" % (name, method))
    if name == 'matmul':
        return matmul(*inputs)
    where = kw.pop('where', True)
    if name not in UF:
        raise Unsupported("NumPy ufunc %s on symbolic values" % name)
    with np.errstate(all='ignore'):
        d = ufunc(*ds, **kw)
    k = UF[name]
    if name == 'power' and d.dtype.kind == 'f' and False:
        pass
    sh = vec(k, *[cells_of(x) for x in inputs])
    if where is not True:
        o = out[0]
        sh = vec(E.ite, cells_of(where), sh, cells_of(o))
        d = np.where(data_of(where), d, data_of(o))
    if out is not None:
        o = out[0]
        if not isinstance(o, SymNd):
            raise Unsupported("in-place symbolic update of a plain array")
        o[...] = SymNd(np.asarray(d), sh)
        return o
    if 'dtype' in kw:
        sh = vec(lambda c: E.cast(c, KIND(kw['dtype']), DT(kw['dtype'])), sh)
    return result(d, sh)


def reduction(name, a, axis=None, keepdims=False, **kw):
    d = data_of(a)
    d = np.asarray(d)
    sh = cells_of(a)
    extra = {k: v for k, v in kw.items() if v is not None and not (k == 'where' and v is True) and not (k == 'initial' and v is np._NoValue)}
    if 'where' in extra:
        w = extra.pop('where')
        neutral = {'sum': E.const(0), 'prod': E.const(1), 'all': E.TRUE, 'any': E.FALSE}.get(name)
        if neutral is None:
            raise Unsupported("reduction %s with where" % name)
        wc = np.broadcast_to(cells_of(w), d.shape)
        d = np.where(data_of(w), d, {'sum': 0, 'prod': 1, 'all': True, 'any': False}[name])
        sh = vec(lambda m, c: E.ite(E.boolean(m), E.num(c) if name in ('sum', 'prod') else E.boolean(c), neutral), wc, sh)
    dtype = extra.pop('dtype', None)
    out_arr = extra.pop('out', None)
    if extra or out_arr is not None:
        raise Unsupported("reduction %s with %s" % (name, ', '.join(sorted(extra)) or 'out'))
    if dtype is not None:
        return reduction(name, SymNd(d, sh).astype(plain_type(dtype)), axis=axis, keepdims=keepdims)
    f = dict(sum=E.add, prod=E.mul, max=E.max_, min=E.min_, all=E.and_, any=E.or_)[name]
    dd = getattr(np, name)(d, axis=axis, keepdims=keepdims)
    if axis is None:
        ax = tuple(range(d.ndim))
    elif isinstance(axis, int):
        ax = (axis % d.ndim,)
    else:
        ax = tuple(x % d.ndim for x in axis)
    keep = [i for i in range(d.ndim) if i not in ax]
    moved = np.transpose(sh, keep + list(ax)).reshape([d.shape[i] for i in keep] + [-1])
    out = np.empty(moved.shape[:-1], dtype=object)
    for idx in np.ndindex(*out.shape):
        xs = list(moved[idx])
        if name in ('all', 'any'):
            xs = [E.boolean(x) for x in xs]
        elif name == 'sum':
            xs = [E.num(x) for x in xs]
        if not xs:
            r = E.const({'sum': 0, 'prod': 1}.get(name, 0)) if name in ('sum', 'prod') else (E.TRUE if name == 'all' else E.FALSE)
        else:
            r = xs[0]
            for x in xs[1:]:
                r = f(r, x)
        out[idx] = r
    if keepdims:
        out = out.reshape([1 if i in ax else d.shape[i] for i in range(d.ndim)])
    return result(dd, out)


def twiddle(k, n, sgn):
    """exp(sgn 2 pi i k / n) as an exact complex cell."""
    k = k % n
    from fractions import Fraction
    f = Fraction(2 * k, n)
    tab = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}
    if f in tab:
        c, s = tab[f]
        return Cx(E.const(c), E.const(sgn * s))
    a = E.mul(E.const(f), E.PI)
    s = E.sin(a)
    return Cx(E.cos(a), s if sgn > 0 else E.neg(s))


def dft(sh, axis, inverse, norm=None):
    n = sh.shape[axis]
    sgn = 1 if inverse else -1
    mv = np.moveaxis(sh, axis, -1)
    out = np.empty(mv.shape, dtype=object)
    from fractions import Fraction
    scale = {None: Fraction(1, n) if inverse else 1, 'backward': Fraction(1, n) if inverse else 1,
             'forward': 1 if inverse else Fraction(1, n)}
    if norm == 'ortho':
        sc = E.div(1, E.sqrt(E.const(n)))
    else:
        sc = E.const(scale[norm])
    tw = [twiddle(k, n, sgn) for k in range(n)]
    for idx in np.ndindex(*mv.shape[:-1]):
        x = mv[idx]
        for k in range(n):
            t = E.const(0)
            for j in range(n):
                t = E.add(t, E.mul(tw[(j * k) % n], x[j]))
            t = E.mul(t, sc) if not E.isc(sc, 1) else t
            out[idx + (k,)] = t if isinstance(t, Cx) else Cx(t, E.const(0))
    return np.moveaxis(out, -1, axis)


def fftn(name, a, axes, inverse, norm=None, s=None):
    if s is not None:
        raise Unsupported("fft with explicit size")
    d = data_of(a)
    sh = cells_of(a)
    sh = vec(E.num, sh)
    for ax in axes:
        sh = dft(sh, ax, inverse, norm)
    dd = (np.fft.ifftn if inverse else np.fft.fftn)(d, axes=axes, norm=norm)
    return new_nd(dd, sh)


def matmul(a, b):
    da, db = np.asarray(data_of(a)), np.asarray(data_of(b))
    ca, cb = cells_of(a), cells_of(b)
    d = np.matmul(da, db)
    if ca.ndim == 1 and cb.ndim == 1:
        return dotv(ca, cb, d)
    a2 = ca if ca.ndim > 1 else ca.reshape(1, -1)
    b2 = cb if cb.ndim > 1 else cb.reshape(-1, 1)
    if a2.ndim != 2 or b2.ndim != 2:
        raise Unsupported("batched matmul")
    return new_nd(d, matmul_cells(a2, b2).reshape(d.shape))


def dotv(ca, cb, d):
    t = E.const(0)
    for x, y in zip(ca, cb):
        t = E.add(t, E.mul(x, y))
    return wrap_scalar(d, t)


def matmul_cells(a, b):
    out = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            t = E.const(0)
            for k in range(a.shape[1]):
                t = E.add(t, E.mul(a[i, k], b[k, j]))
            out[i, j] = t
    return out


# ------------------------------------------------------------------------------- array functions

def _idx_move(func, args, kw):
    """Data-movement function: run it on an index array and look the cells up."""
    a = args[0]
    multi = isinstance(a, (list, tuple))
    parts = list(a) if multi else [a]
    cells = []
    idx = []
    for p in parts:
        c = cells_of(p)
        idx.append(np.arange(len(cells), len(cells) + c.size).reshape(c.shape))
        cells.extend(c.reshape(-1))
    with np.errstate(all='ignore'):
        d = func(*([[data_of(p) for p in parts]] if multi else [data_of(a)]) + [data_of(x) for x in args[1:]], **kw)
    r = func(*([idx] if multi else [idx[0]]) + [data_of(x) for x in args[1:]], **kw)
    tab = np.empty(len(cells), dtype=object)
    for i, c in enumerate(cells):
        tab[i] = c

    def pick(dd, rr):
        if isinstance(rr, (list, tuple)):
            return type(rr)(pick(x, y) for x, y in zip(dd, rr))
        return result(dd, tab[rr])
    out = pick(d, r)
    if multi and len(set(np.asarray(data_of(p)).dtype for p in parts)) > 1 and isinstance(out, SymNd):
        k, t = KIND(out.dtype), DT(out.dtype)
        out = SymNd(out.view(np.ndarray), vec(lambda c: E.cast(c, k, t), out.sh))
    return out


MOVE = {'reshape', 'ravel', 'transpose', 'squeeze', 'swapaxes', 'moveaxis', 'roll', 'flip', 'fliplr', 'flipud', 'rot90',
        'concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack', 'expand_dims', 'broadcast_to', 'tile', 'repeat', 'atleast_2d',
        'atleast_1d', 'diag', 'diagonal', 'fftshift', 'ifftshift', 'split', 'array_split', 'take', 'rollaxis', 'resize', 'block'}


def do_function(func, args, kw):
    name = func.__name__
    kw = dict(kw)
    if 'dtype' in kw:
        kw['dtype'] = plain_type(kw['dtype'])
    symbolic = any(is_sym(x) for x in args) or any(is_sym(x) for x in kw.values())
    if not symbolic:
        r = func(*[deep_plain(x) for x in args], **{k: deep_plain(v) for k, v in kw.items()})
        return wrap_plain(r)
    h = FUNCS.get(name)
    if h is not None:
        return h(*args, **kw)
    if name in MOVE:
        return _idx_move(func, args, kw)
    mod = getattr(func, '__module__', '')
    raise Unsupported("NumPy function %s.%s on symbolic values" % (mod, name))


def deep_plain(x):
    if isinstance(x, SymNd):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(deep_plain(y) for y in x)
    return x


def wrap_plain(r):
    if type(r) is np.ndarray:
        return SymNd(r)
    if type(r) in (list, tuple):
        return type(r)(wrap_plain(x) for x in r)
    return r


def _where(c, a=None, b=None):
    if a is None:
        raise Unsupported("np.where with one symbolic argument")
    d = np.where(data_of(c), data_of(a), data_of(b))
    ca, cb = cells_of(a), cells_of(b)
    if d.dtype.kind != 'b':
        k, t = KIND(d.dtype), DT(d.dtype)
        ca, cb = vec(lambda x: E.cast(x, k, t), ca), vec(lambda x: E.cast(x, k, t), cb)
    return result(d, vec(E.ite, vec(E.boolean, cells_of(c)), ca, cb))


def _mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if isinstance(a, MaskedView):
        return a.mean()
    w = kw.pop('where', True)
    if w is not True:
        s = reduction('sum', a, axis=axis, keepdims=keepdims, where=w)
        n = reduction('sum', np.broadcast_to(w, np.shape(data_of(a))), axis=axis, keepdims=keepdims) if is_sym(w) else \
            np.sum(np.broadcast_to(data_of(w), np.shape(data_of(a))), axis=axis, keepdims=keepdims)
        return do_ufunc(np.divide, '__call__', (s, n), {})
    if out is not None or kw:
        raise Unsupported("mean with " + ', '.join(kw))
    s = reduction('sum', a, axis=axis, keepdims=keepdims)
    n = np.size(data_of(a)) if axis is None else np.prod([np.shape(data_of(a))[x] for x in ((axis,) if isinstance(axis, int) else axis)])
    return do_ufunc(np.divide, '__call__', (s, int(n)), {})


def _packbits(a, axis=None, bitorder='big'):
    if axis is not None:
        raise Unsupported("packbits with axis")
    d = np.packbits(data_of(a), bitorder=bitorder)
    cs = [E.boolean(c) for c in cells_of(a).reshape(-1)]
    out = []
    for i in range(0, len(cs), 8):
        t = E.const(0)
        for k in range(8):
            if i + k < len(cs):
                w = 1 << (7 - k if bitorder == 'big' else k)
                t = E.add(t, E.mul(E.num(cs[i + k]), E.const(w)))
        out.append(t)
    return new_nd(d, obj_array(out, (len(out),)))


def _meshgrid(*xs, indexing='xy', sparse=False, copy=True):
    ds = np.meshgrid(*[data_of(x) for x in xs], indexing=indexing)
    idx = np.meshgrid(*[np.arange(np.size(data_of(x))) for x in xs], indexing=indexing)
    return [new_nd(d, cells_of(x).reshape(-1)[i]) for d, i, x in zip(ds, idx, xs)]


def _pad(a, pad_width, mode='constant', **kw):
    if mode == 'constant' and set(kw) <= {'constant_values'}:
        cv = kw.get('constant_values', 0)
        c = cells_of(a)
        i = np.arange(1, c.size + 1).reshape(c.shape)
        r = np.pad(i, pad_width, constant_values=0)
        tab = np.empty(c.size + 1, dtype=object)
        tab[0] = cell1(cv)
        tab[1:] = c.reshape(-1)
        return result(np.pad(data_of(a), pad_width, constant_values=data_of(cv)), tab[r])
    return _idx_move(np.pad, (a, pad_width), dict(mode=mode, **kw))


def _dot(a, b):
    if np.ndim(data_of(a)) == 0 or np.ndim(data_of(b)) == 0:
        return do_ufunc(np.multiply, '__call__', (a, b), {})
    return matmul(a, b)


def _clip(a, a_min=None, a_max=None, **kw):
    lo = kw.get('min', a_min)
    hi = kw.get('max', a_max)
    if lo is not None:
        a = do_ufunc(np.maximum, '__call__', (a, lo), {})
    if hi is not None:
        a = do_ufunc(np.minimum, '__call__', (a, hi), {})
    return a


def _fftfreq(n, d=1.0, **kw):
    if is_sym(n):
        raise Unsupported("fftfreq of symbolic size")
    k = np.fft.fftfreq(n, 1.0 / n)   # integers
    dd = np.fft.fftfreq(n, data_of(d))
    c = cell1(d)
    sh = obj_array([E.div(E.const(int(round(float(x)))), E.mul(E.const(n), c)) for x in k], (n,))
    return new_nd(dd, sh)


def _linspace(a, b, num=50, endpoint=True, **kw):
    d = np.linspace(data_of(a), data_of(b), num, endpoint=endpoint)
    from fractions import Fraction
    den = (num - 1) if endpoint else num
    ca, cb = cell1(a), cell1(b)
    return new_nd(d, obj_array([E.add(ca, E.mul(E.sub(cb, ca), E.const(Fraction(i, den) if den else 0))) for i in range(num)], (num,)))


def _einsum(sub, *ops, **kw):
    if not isinstance(sub, str) or '.' in sub or set(kw) - {'optimize', 'dtype'}:
        raise Unsupported("einsum")
    sub = sub.replace(' ', '')
    ins, _, o = sub.partition('->')
    ins = ins.split(',')
    if '->' not in sub:
        o = ''.join(sorted(c for c in set(''.join(ins)) if ''.join(ins).count(c) == 1))
    cs = [cells_of(x) for x in ops]
    size = {}
    for t, c in zip(ins, cs):
        size.update(zip(t, c.shape))
    d = np.asarray(np.einsum(sub, *[data_of(x) for x in ops]))
    inner = [c for c in size if c not in o]
    out = np.empty(d.shape, dtype=object)
    for idx in np.ndindex(*d.shape):
        e = dict(zip(o, idx))
        t = None
        for jdx in np.ndindex(*[size[c] for c in inner]):
            e.update(zip(inner, jdx))
            f = None
            for tt, c in zip(ins, cs):
                v = E.num(c[tuple(e[x] for x in tt)])
                f = v if f is None else E.mul(f, v)
            t = f if t is None else E.add(t, f)
        out[idx] = E.const(0) if t is None else t
    return result(d, out)


def _count_nonzero(a, axis=None, **kw):
    return reduction('sum', new_nd(np.asarray(data_of(a) != 0, dtype=int), vec(lambda c: E.num(E.boolean(c)), cells_of(a))), axis=axis, **kw)


def _red(name):
    def f(a, axis=None, *rest, **kw):
        if rest:
            raise Unsupported("positional arguments of " + name)
        if name == 'sum' and isinstance(a, MaskedView):
            return a.sum()
        return reduction(name, a, axis=axis, **kw)
    return f


def _average(a, axis=None, weights=None, **kw):
    if weights is None:
        return _mean(a, axis=axis, **kw)
    if kw:
        raise Unsupported("average")
    w = np.broadcast_to(weights, np.shape(data_of(a)))
    p = do_ufunc(np.multiply, '__call__', (a, w), {})
    return do_ufunc(np.divide, '__call__', (np_sum(p, axis), np_sum(w, axis)), {})


def np_sum(a, axis=None):
    return reduction('sum', a, axis=axis) if is_sym(a) else np.sum(data_of(a), axis=axis)


def _choose(a, choices, out=None, mode='raise'):
    if out is not None or mode != 'raise':
        raise Unsupported("choose")
    d = np.choose(data_of(a), [data_of(c) for c in choices])
    k, t = KIND(d.dtype), DT(d.dtype)
    cs = [np.broadcast_to(vec(lambda x: E.cast(x, k, t) if d.dtype.kind != 'b' else E.boolean(x), cells_of(c)), d.shape) for c in choices]
    sel = np.broadcast_to(cells_of(a), d.shape)
    r = cs[-1]
    for n in range(len(cs) - 2, -1, -1):
        r = vec(lambda s, x, y: E.ite(E.not_(s) if s.sort == 'B' and n == 0 else E.eq(E.num(s), E.const(n)), x, y), sel, cs[n], r)
    return result(d, r)


def _select(conds, choices, default=0):
    r = default
    for c, v in list(zip(conds, choices))[::-1]:
        r = _where(c, v, r)
    return r


def _copyto(dst, src, casting='same_kind', where=True):
    if not isinstance(dst, SymNd):
        raise Unsupported("copyto a plain array")
    dst[...] = src if where is True else _where(where, src, dst)


def _putmask(a, mask, values):
    if np.ndim(data_of(values)) and np.shape(data_of(values)) != np.shape(data_of(a)):
        raise Unsupported("putmask")
    _copyto(a, values, where=mask)


def _cumsum(a, axis=None, **kw):
    if kw:
        raise Unsupported("cumsum")
    a = sym_nd(a)
    if axis is None:
        a, axis = np.reshape(a, -1), 0
    d = np.cumsum(data_of(a), axis=axis)
    c = np.moveaxis(cells_of(a), axis, 0).copy()
    for i in range(1, c.shape[0]):
        for j in np.ndindex(*c.shape[1:]):
            c[(i,) + j] = E.add(c[(i - 1,) + j], c[(i,) + j])
    return result(d, np.moveaxis(c, 0, axis))


def _diff(a, n=1, axis=-1, **kw):
    if kw or n != 1:
        raise Unsupported("diff")
    a = np.moveaxis(sym_nd(a), axis, 0)
    return np.moveaxis(do_ufunc(np.subtract, '__call__', (a[1:], a[:-1]), {}), 0, axis)


def _var(a, axis=None, ddof=0, **kw):
    if axis is not None or kw or ddof:
        raise Unsupported("var")
    m = do_ufunc(np.subtract, '__call__', (a, _mean(a)), {})
    return _mean(do_ufunc(np.square, '__call__', (do_ufunc(np.absolute, '__call__', (m,), {}),), {}))


def _norm(a, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, 'fro') or (ord == 2 and axis is None and np.ndim(data_of(a)) > 1):
        raise Unsupported("norm")
    q = do_ufunc(np.square, '__call__', (do_ufunc(np.absolute, '__call__', (a,), {}),), {})
    return do_ufunc(np.sqrt, '__call__', (reduction('sum', q, axis=axis, keepdims=keepdims),), {})


def _tensordot(a, b, axes=2):
    na, nb = np.ndim(data_of(a)), np.ndim(data_of(b))
    if isinstance(axes, int):
        ia, ib = list(range(na - axes, na)), list(range(axes))
    else:
        ia, ib = [[x] if isinstance(x, int) else list(x) for x in axes]
    la = [chr(97 + i) for i in range(na)]
    lb = [chr(110 + i) for i in range(nb)]
    for i, j in zip(ia, ib):
        lb[j % nb] = la[i % na]
    con = {la[i % na] for i in ia}
    return _einsum('%s,%s->%s' % (''.join(la), ''.join(lb), ''.join([x for x in la + lb if x not in con])), a, b)


def _vdot(a, b):
    a, b = np.reshape(sym_nd(a), -1), np.reshape(sym_nd(b), -1)
    return reduction('sum', do_ufunc(np.multiply, '__call__', (np.conj(a), b), {}))


def _inner(a, b):
    if np.ndim(data_of(a)) == 0 or np.ndim(data_of(b)) == 0:
        return do_ufunc(np.multiply, '__call__', (a, b), {})
    return _tensordot(a, b, ([-1], [-1]))


def _take_along(a, indices, axis=-1):
    if is_sym(indices):
        raise Unsupported("take_along_axis of symbolic indices")
    d = np.take_along_axis(data_of(a), data_of(indices), axis)
    return result(d, np.take_along_axis(cells_of(a), data_of(indices), axis))


def _trace(a, *r, **kw):
    if r or kw:
        raise Unsupported("trace")
    return reduction('sum', np.diagonal(a))


def _append(a, v, axis=None):
    if axis is None:
        return np.concatenate([np.reshape(a, -1), np.reshape(v, -1)])
    return np.concatenate([a, v], axis)


def _array_equal(a, b, **kw):
    if np.shape(data_of(a)) != np.shape(data_of(b)):
        return False
    return reduction('all', do_ufunc(np.equal, '__call__', (a, b), {}))


def _like(v):
    def f(a, dtype=None, **kw):
        d = data_of(a)
        return SymNd(np.full(np.shape(d), v, dtype=dtype or np.asarray(d).dtype))
    return f


def _full_like(a, v, dtype=None, **kw):
    d = np.asarray(data_of(a))
    r = SymNd(np.full(d.shape, data_of(v), dtype=dtype or d.dtype))
    if is_sym(v):
        r._sh = vec(lambda c: E.cast(c, KIND(r.dtype), DT(r.dtype)), obj_array([cell1(v)] * d.size, d.shape))
    return r


FUNCS = dict(
    sum=_red('sum'), prod=_red('prod'), max=_red('max'), amax=_red('max'), min=_red('min'), amin=_red('min'), nanmax=_red('max'),
    nanmin=_red('min'), nansum=_red('sum'), all=_red('all'), any=_red('any'), choose=_choose, select=_select, copyto=_copyto, putmask=_putmask,
    tensordot=_tensordot, inner=_inner, vdot=_vdot, take_along_axis=_take_along, diff=_diff, trace=_trace, append=_append, einsum=_einsum,
    norm=_norm, mean=_mean, nanmean=_mean, average=_average, where=_where, packbits=_packbits, meshgrid=_meshgrid, pad=_pad, dot=_dot,
    clip=_clip, fftfreq=_fftfreq, linspace=_linspace, count_nonzero=_count_nonzero, array_equal=_array_equal,
    zeros_like=_like(0), ones_like=_like(1), empty_like=_like(0), full_like=_full_like,
    angle=lambda z, deg=False: result(np.angle(data_of(z), deg=deg), vec(lambda c: E.angle(c) if not deg else E.div(E.mul(E.angle(c), 180), E.PI), cells_of(z))),
    real=lambda a: sym_nd(a).real, imag=lambda a: sym_nd(a).imag,
    copy=lambda a, **kw: sym_nd(a).copy(), array_repr=lambda a, *x, **kw: "<symbolic array>", array_str=lambda a, *x, **kw: "<symbolic array>",
    fft2=lambda a, s=None, axes=(-2, -1), norm=None: fftn('fft2', a, axes, False, norm, s),
    ifft2=lambda a, s=None, axes=(-2, -1), norm=None: fftn('ifft2', a, axes, True, norm, s),
    fft=lambda a, n=None, axis=-1, norm=None: fftn('fft', a, (axis,), False, norm, n),
    ifft=lambda a, n=None, axis=-1, norm=None: fftn('ifft', a, (axis,), True, norm, n),
    fftn=lambda a, s=None, axes=None, norm=None: fftn('fftn', a, axes if axes is not None else tuple(range(np.ndim(data_of(a)))), False, norm, s),
    ifftn=lambda a, s=None, axes=None, norm=None: fftn('ifftn', a, axes if axes is not None else tuple(range(np.ndim(data_of(a)))), True, norm, s),
    outer=lambda a, b: do_ufunc(np.multiply, 'outer', (np.ravel(a) if is_sym(a) else np.ravel(a), b), {}),
    matmul=matmul, shape=lambda a: np.shape(data_of(a)), ndim=lambda a: np.ndim(data_of(a)), size=lambda a: np.size(data_of(a)),
    iscomplexobj=lambda a: np.iscomplexobj(data_of(a)), isrealobj=lambda a: np.isrealobj(data_of(a)),
    linalg_norm=None, polyval=lambda p, x: _polyval(p, x), isclose=None, allclose=None,
    broadcast_arrays=lambda *xs, **kw: [new_nd(d, np.broadcast_to(cells_of(x), d.shape)) for d, x in zip(np.broadcast_arrays(*[data_of(x) for x in xs]), xs)],
    result_type=lambda *a: np.result_type(*[data_of(x) for x in a]), may_share_memory=lambda a, b, *k: np.may_share_memory(data_of(a), data_of(b)),
    round=None, around=None, cumsum=_cumsum, var=_var, std=lambda a, **kw: do_ufunc(np.sqrt, '__call__', (_var(a, **kw),), {}),
    nan_to_num=lambda a, **kw: sym_nd(a) if not kw.get('_') else None,
)
for _k in [k for k, v in FUNCS.items() if v is None]:
    del FUNCS[_k]
FUNCS['absolute'] = FUNCS['abs'] = lambda a: do_ufunc(np.absolute, '__call__', (a,), {})


def _nan_to_num(a, **kw):
    # non-finite values appear only where an operation is undefined; that is tracked by definedness
    raise Unsupported("nan_to_num on symbolic values")


FUNCS['nan_to_num'] = _nan_to_num


def _polyval(p, x):
    y = 0
    for c in p:
        y = do_ufunc(np.add, '__call__', (do_ufunc(np.multiply, '__call__', (y, x), {}), c), {})
    return y


# ------------------------------------------------------------------------------- module proxies

def plain_type(t):
    if t is FloatType:
        return float
    if t is IntType:
        return int
    return t


class _FloatMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, float)
    def __subclasscheck__(cls, x): return issubclass(x, float)

    def __call__(cls, *a):
        if a:
            x = a[0]
            if is_sym(x):
                return wrap_scalar(float(data_of(x)), E.real(E.num(cell1(x))))
            if isinstance(x, SymNd):
                x = x.view(np.ndarray)
            return float(x)
        return 0.0


class FloatType(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, int)
    def __subclasscheck__(cls, x): return issubclass(x, int)

    def __call__(cls, *a):
        if a and is_sym(a[0]):
            x = a[0]
            return wrap_scalar(int(data_of(x)), E.cast(E.num(cell1(x)), 'int'))
        a = [x.view(np.ndarray) if isinstance(x, SymNd) else x for x in a]
        return int(*a)


class IntType(metaclass=_IntMeta):
    pass


def lift_arg(x):
    if is_foreign(x):
        y = foreign(x)
        return y if y is not None else x
    if type(x) in (list, tuple):
        return type(x)(lift_arg(y) for y in x)
    return x


def make_array(x, dtype=None, copy=True, **kw):
    dtype = plain_type(dtype)
    if isinstance(x, SymNd) and x._sh is None and copy is not False:
        return SymNd(np.array(x.view(np.ndarray), dtype=dtype))
    if is_sym(x):
        if isinstance(x, MaskedView):
            return x
        s = sym_nd(lift_arg(x))
        s = s.copy() if copy else s
        if dtype is not None and s.dtype != np.dtype(dtype):
            s = s.astype(dtype)
        for k in kw:
            if k not in ('order', 'ndmin', 'subok'):
                raise Unsupported("np.array option " + k)
        return new_nd(s.view(np.ndarray), s.sh)
    return SymNd(np.array(deep_plain(x), dtype=dtype, **kw))


def as_array(x, dtype=None, **kw):
    if isinstance(x, SymNd) and (dtype is None or x.dtype == np.dtype(plain_type(dtype))):
        return x
    return make_array(x, dtype, copy=False)


def full(shape, v, dtype=None, **kw):
    dtype = plain_type(dtype)
    if is_sym(v):
        d = np.full(shape, data_of(v), dtype=dtype)
        return SymNd(d, vec(lambda c: E.cast(c, KIND(d.dtype), DT(d.dtype)), obj_array([cell1(v)] * d.size, d.shape)))
    return SymNd(np.full(shape, v, dtype=dtype))


class Fresh(object):
    counter = 0
    log = []

    @classmethod
    def draw(cls, shape, dt, rng):
        n = int(np.prod(shape)) if len(shape) else 1
        out = []
        for i in range(n):
            nm = "u%d" % cls.counter
            cls.counter += 1
            cls.log.append(nm)
            out.append(E.var(nm, dt))
        return obj_array(out, tuple(shape))


class NpRandom(object):
    def __init__(self, mod): self._m = mod

    def __getattr__(self, k):
        if k in ('rand', 'random', 'random_sample', 'uniform'):
            def f(*a, **kw):
                if k == 'rand':
                    shape = a
                    lo, hi = 0, 1
                elif k == 'uniform':
                    lo = a[0] if a else kw.get('low', 0)
                    hi = a[1] if len(a) > 1 else kw.get('high', 1)
                    shape = a[2] if len(a) > 2 else kw.get('size', ())
                else:
                    shape = a[0] if a else kw.get('size', ())
                    lo, hi = 0, 1
                shape = () if shape is None else ((shape,) if isinstance(shape, int) else tuple(shape))
                sh = Fresh.draw(shape, 'f64', np.random)
                d = np.random.rand(*shape)
                r = result(np.asarray(d), sh)
                return r * (hi - lo) + lo
            return f
        raise Unsupported("np.random." + k)


class Proxy(types.ModuleType):
    """Stand-in for a module: symbolic arguments go to the kernels, everything else to the module itself."""

    def __init__(self, mod, special):
        super().__init__(mod.__name__)
        self.__dict__['_mod'] = mod
        self.__dict__['_special'] = special

    def __getattr__(self, k):
        sp = self.__dict__['_special']
        if k in sp:
            return sp[k]
        v = getattr(self.__dict__['_mod'], k)
        w = wrap_callable(v)
        self.__dict__[k] = w
        return w


def wrap_callable(v):
    if isinstance(v, type) and not (isinstance(v, type) and issubclass(v, np.generic)):
        return v
    if isinstance(v, type):
        return ScalarType(v) if v in _SCALARS else v
    if isinstance(v, np.ufunc):
        return UfuncProxy(v)
    if callable(v):
        def f(*a, **kw):
            a = [lift_arg(x) for x in a]
            kw = {k: (plain_type(lift_arg(x))) for k, x in kw.items()}
            a = [plain_type(x) for x in a]
            if any(is_sym(x) for x in a) or any(is_sym(x) for x in kw.values()):
                return do_function(v, a, kw)
            return wrap_plain(v(*[deep_plain(x) for x in a], **{k: deep_plain(x) for k, x in kw.items()}))
        f.__name__ = getattr(v, '__name__', 'f')
        f._real = v
        return f
    return v


_SCALARS = ()


def ScalarType(v):
    return v


class UfuncProxy(object):
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **kw):
        a = [lift_arg(x) for x in a]
        if 'out' in kw and not isinstance(kw['out'], tuple):
            kw['out'] = (kw['out'],)
        kw = {k: plain_type(lift_arg(v)) for k, v in kw.items()}
        return do_ufunc(self.u, '__call__', a, kw)

    def outer(self, *a, **kw): return do_ufunc(self.u, 'outer', [lift_arg(x) for x in a], kw)
    def reduce(self, *a, **kw): return do_ufunc(self.u, 'reduce', [lift_arg(x) for x in a], kw)

    def __getattr__(self, k):
        return getattr(self.u, k)


def _creation(name):
    f = getattr(np, name)

    def g(*a, **kw):
        if 'dtype' in kw:
            kw['dtype'] = plain_type(kw['dtype'])
        a = [plain_type(x) for x in a]
        if any(is_sym(x) for x in a):
            if name == 'arange':
                raise Unsupported("arange with symbolic bounds")
            raise Unsupported("np.%s with symbolic shape" % name)
        return SymNd(f(*a, **kw))
    return g


NP_SPECIAL = dict(array=make_array, asarray=as_array, asanyarray=as_array, ascontiguousarray=as_array,
                  full=full, fft=None, random=NpRandom(np.random),
                  zeros=_creation('zeros'), ones=_creation('ones'), empty=_creation('zeros'), arange=_creation('arange'),
                  eye=_creation('eye'), identity=_creation('identity'), bool=getattr(np, 'bool', np.bool_), ndarray=np.ndarray)
NP_SPECIAL['fft'] = Proxy(np.fft, {})
NP = Proxy(np, NP_SPECIAL)


class MathProxy(types.ModuleType):
    M = dict(sin='sin', cos='cos', tan='tan', tanh='tanh', exp='exp', log='log', sqrt='sqrt', atan2='arctan2', asin='arcsin',
             acos='arccos', atan='arctan', fabs='absolute', hypot='hypot', pow='power')

    def __init__(self):
        super().__init__('math')

    def __getattr__(self, k):
        v = getattr(math, k)
        if not callable(v):
            return v

        def f(*a):
            a = [lift_arg(x) for x in a]
            if any(is_sym(x) for x in a):
                if k in self.M:
                    return scalar_op(self.M[k], *a)
                if k in ('floor', 'ceil'):
                    return wrap_scalar(v(data_of(a[0])), (E.floor if k == 'floor' else E.ceil)(E.num(cell1(a[0]))))
                raise Unsupported("math.%s on symbolic values" % k)
            return v(*a)
        return f


MATH = MathProxy()


def inject(mod):
    """Replace numpy / math / float / int / range as seen by one module of the library."""
    d = mod.__dict__
    for k, v in list(d.items()):
        if v is np:
            d[k] = NP
        elif v is math:
            d[k] = MATH
        elif v is np.fft:
            d[k] = NP_SPECIAL['fft']
        elif isinstance(v, np.ufunc) or (callable(v) and getattr(v, '__module__', None) in ('numpy', 'numpy.fft') and not isinstance(v, type)):
            d[k] = NP_SPECIAL.get(k) or wrap_callable(v)
    d.setdefault('range', lambda *a: range(*[int(x) if isinstance(x, SymInt) else x for x in a]))
    d.setdefault('float', FloatType)
    d.setdefault('int', IntType)
