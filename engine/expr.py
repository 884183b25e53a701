"""Hash-consed terms over reals and Booleans, complex cells, and their numeric evaluation.

A *cell* is what one array element holds during symbolic execution:
  Node of sort 'R' (real / integer), Node of sort 'B' (Boolean) or Cx (pair of real Nodes).
"""
import math
import struct
from fractions import Fraction


class Unsupported(Exception):
    """The encoder met something it cannot encode: the check gives no verdict."""


class Node(object):
    __slots__ = ("op", "args", "val", "dt", "id", "sort")
    _table = {}
    _list = []

    def __repr__(self):
        return show(self)

    # arithmetic on cells, used by the reference side of the checks
    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __truediv__(s, o): return div(s, o)
    def __rtruediv__(s, o): return div(o, s)
    def __pow__(s, o): return pow_(s, o)
    def __rpow__(s, o): return pow_(o, s)
    def __neg__(s): return neg(s)
    def __pos__(s): return s
    def __abs__(s): return abs_(s)
    def __lt__(s, o): return gt(o, s)
    def __gt__(s, o): return gt(s, o)
    def __le__(s, o): return ge(o, s)
    def __ge__(s, o): return ge(s, o)
    def __and__(s, o): return and_(s, o)
    def __rand__(s, o): return and_(o, s)
    def __or__(s, o): return or_(s, o)
    def __ror__(s, o): return or_(o, s)
    def __invert__(s): return not_(s)
    def __xor__(s, o): return xor_(s, o)

    def __bool__(s):
        if s.op == 'bconst':
            return s.val
        raise Unsupported("truth value of a symbolic term outside the executed library: %s" % show(s))


class Cx(object):
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __repr__(self):
        return "(%r + i %r)" % (self.re, self.im)

    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __truediv__(s, o): return div(s, o)
    def __rtruediv__(s, o): return div(o, s)
    def __pow__(s, o): return pow_(s, o)
    def __neg__(s): return neg(s)
    def __pos__(s): return s
    def __abs__(s): return abs_(s)

    @property
    def real(self): return self.re

    @property
    def imag(self): return self.im

    def conjugate(self): return Cx(self.re, neg(self.im))


BOOL_OPS = {'bconst', 'bvar', 'gt', 'ge', 'eq', 'and', 'or', 'not', 'bite', 'isnan', 'isfinite'}

# In FP mode no algebraic simplification is applied when terms are built.
FPMODE = [False]


def mk(op, args=(), val=None, dt=None):
    key = (op, tuple(a.id for a in args), val if not isinstance(val, float) else ('f', repr(val)), type(val).__name__, dt)
    n = Node._table.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = tuple(args)
        n.val = val
        n.dt = dt
        n.id = len(Node._list)
        n.sort = 'B' if op in BOOL_OPS else 'R'
        Node._list.append(n)
        Node._table[key] = n
    return n


def const(v, dt=None):
    if isinstance(v, bool):
        return mk('bconst', (), v)
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    if isinstance(v, float) and not FPMODE[0] and math.isfinite(v) and v == int(v):
        v = int(v)
    return mk('const', (), v, dt)


TRUE = mk('bconst', (), True)
FALSE = mk('bconst', (), False)
PI = mk('pi')


def var(name, dt=None):
    return mk('var', (), name, dt)


def bvar(name):
    return mk('bvar', (), name)


def is_cell(x):
    return isinstance(x, (Node, Cx))


def cell(x, dt=None):
    """Lift a Python / NumPy scalar to a cell."""
    if isinstance(x, (Node, Cx)):
        return x
    s = getattr(x, '_sym_cell_', None)
    if s is not None:
        return s
    if hasattr(x, 'item') and not isinstance(x, (float, int, complex)):
        if dt is None:
            dn = str(getattr(x, 'dtype', ''))
            dt = {'float32': 'f32', 'complex64': 'f32', 'float64': 'f64', 'complex128': 'f64'}.get(dn, None)
        x = x.item()
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, complex):
        return Cx(const(float(x.real), dt), const(float(x.imag), dt))
    if isinstance(x, int):
        return const(int(x), dt)
    if isinstance(x, Fraction):
        return const(x, dt)
    if isinstance(x, float):
        return const(float(x), dt)
    raise Unsupported("cannot lift %r to a term" % (type(x),))


def num(x, like=None):
    """Lift to an arithmetic cell: Booleans become 0/1."""
    x = cell(x)
    if isinstance(x, Node) and x.sort == 'B':
        if x is TRUE:
            return const(1)
        if x is FALSE:
            return const(0)
        return mk('ite', (x, const(1), const(0)))
    return x


def boolean(x):
    x = cell(x)
    if isinstance(x, Cx):
        return not_(and_(eq(x.re, 0), eq(x.im, 0)))
    if x.sort == 'B':
        return x
    if x.op == 'ite' and isc(x.args[1], 1) and isc(x.args[2], 0):
        return x.args[0]
    return not_(eq(x, const(0)))


def isc(n, v=None):
    if not (isinstance(n, Node) and n.op == 'const'):
        return False
    return v is None or n.val == v


def pdt(a, b):
    if a.dt is None:
        return b.dt
    if b.dt is None or a.dt == b.dt:
        return a.dt
    if 'f64' in (a.dt, b.dt):
        return 'f64'
    if 'f32' in (a.dt, b.dt):
        return 'f32'
    return a.dt


def _exact(n):
    return isinstance(n.val, (int, Fraction))


def _lift(f):
    def g(a, b):
        a = num(a)
        b = num(b)
        return f(a, b)
    g.__name__ = f.__name__
    return g


def _cx(a):
    return a if isinstance(a, Cx) else Cx(a, const(0, a.dt))


@_lift
def add(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = _cx(a), _cx(b)
        return Cx(add(a.re, b.re), add(a.im, b.im))
    if not FPMODE[0]:
        if isc(a, 0):
            return b
        if isc(b, 0):
            return a
        if isc(a) and isc(b) and _exact(a) and _exact(b):
            return const(Fraction(a.val) + b.val, pdt(a, b))
    return mk('add', (a, b), None, pdt(a, b))


@_lift
def sub(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = _cx(a), _cx(b)
        return Cx(sub(a.re, b.re), sub(a.im, b.im))
    if not FPMODE[0]:
        if isc(b, 0):
            return a
        if isc(a, 0):
            return neg(b)
        if a is b:
            return const(0, a.dt)
        if isc(a) and isc(b) and _exact(a) and _exact(b):
            return const(Fraction(a.val) - b.val, pdt(a, b))
    return mk('sub', (a, b), None, pdt(a, b))


@_lift
def mul(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        if not FPMODE[0]:
            if not isinstance(a, Cx):
                return Cx(mul(a, b.re), mul(a, b.im))
            if not isinstance(b, Cx):
                return Cx(mul(a.re, b), mul(a.im, b))
        a, b = _cx(a), _cx(b)
        return Cx(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))
    if not FPMODE[0]:
        if isc(a, 0) or isc(b, 0):
            return const(0, pdt(a, b))
        if isc(a, 1):
            return b
        if isc(b, 1):
            return a
        if isc(a) and isc(b) and _exact(a) and _exact(b):
            return const(Fraction(a.val) * b.val, pdt(a, b))
    return mk('mul', (a, b), None, pdt(a, b))


@_lift
def div(a, b):
    if isinstance(b, Cx):
        if not FPMODE[0] and isc(b.im, 0):
            return div(a, b.re)
        a = _cx(a)
        d = add(mul(b.re, b.re), mul(b.im, b.im))
        return Cx(div(add(mul(a.re, b.re), mul(a.im, b.im)), d),
                  div(sub(mul(a.im, b.re), mul(a.re, b.im)), d))
    if isinstance(a, Cx):
        return Cx(div(a.re, b), div(a.im, b))
    if not FPMODE[0]:
        if isc(b, 1):
            return a
        if isc(a) and isc(b) and _exact(a) and _exact(b) and b.val != 0:
            return const(Fraction(a.val) / b.val, pdt(a, b))
    return mk('div', (a, b), None, pdt(a, b))


def neg(a):
    a = num(a)
    if isinstance(a, Cx):
        return Cx(neg(a.re), neg(a.im))
    if not FPMODE[0]:
        if isc(a) and _exact(a):
            return const(-a.val, a.dt)
        if a.op == 'neg':
            return a.args[0]
    return mk('neg', (a,), None, a.dt)


def conj(a):
    a = num(a)
    return Cx(a.re, neg(a.im)) if isinstance(a, Cx) else a


def real(a):
    a = num(a)
    return a.re if isinstance(a, Cx) else a


def imag(a):
    a = num(a)
    return a.im if isinstance(a, Cx) else const(0, a.dt)


def fn1(op):
    def f(a):
        a = num(a)
        if isinstance(a, Cx):
            if isc(a.im, 0) and op in ('cos', 'sin', 'tanh', 'sqrt'):
                r = f(a.re)
                return Cx(r, const(0, r.dt))
            raise Unsupported(op + " of a complex value")
        return mk(op, (a,), None, a.dt)
    f.__name__ = op
    return f


sin = fn1('sin')
cos = fn1('cos')
tan = lambda a: div(sin(a), cos(a))
tanh = fn1('tanh')
asin = fn1('asin')
acos = fn1('acos')
log = fn1('log')
floor = fn1('floor')
ceil = lambda a: neg(floor(neg(a)))
rint = fn1('rint')
isnan_r = fn1('isnan')
isfinite_r = fn1('isfinite')


def isnan(a):
    a = num(a)
    if isinstance(a, Cx):
        return or_(isnan(a.re), isnan(a.im))
    return mk('isnan', (a,))


def isfinite(a):
    a = num(a)
    if isinstance(a, Cx):
        return and_(isfinite(a.re), isfinite(a.im))
    return mk('isfinite', (a,))


def atan(a):
    return atan2(a, const(1))


def cosh(a):
    return div(add(exp(a), exp(neg(a))), 2)


def sinh(a):
    return div(sub(exp(a), exp(neg(a))), 2)


def exp(a):
    a = num(a)
    if isinstance(a, Cx):
        if not FPMODE[0] and isc(a.re, 0):
            return Cx(cos(a.im), sin(a.im))
        e = exp(a.re)
        return Cx(mul(e, cos(a.im)), mul(e, sin(a.im)))
    return mk('exp', (a,), None, a.dt)


def sqrt(a):
    a = num(a)
    if isinstance(a, Cx):
        if isc(a.im, 0):
            return _cx(sqrt(a.re))
        # principal square root
        m = abs_(a)
        re = sqrt(div(add(m, a.re), 2))
        im = sqrt(div(sub(m, a.re), 2))
        return Cx(re, ite(gt(0, a.im), neg(im), im))
    if not FPMODE[0] and isc(a) and a.val in (0, 1):
        return a
    return mk('sqrt', (a,), None, a.dt)


def abs_(a):
    a = num(a)
    if isinstance(a, Cx):
        if not FPMODE[0]:
            if isc(a.im, 0):
                return abs_(a.re)
            if isc(a.re, 0):
                return abs_(a.im)
        return sqrt(add(mul(a.re, a.re), mul(a.im, a.im)))
    if not FPMODE[0] and isc(a):
        return const(abs(a.val), a.dt)
    return mk('abs', (a,), None, a.dt)


@_lift
def atan2(y, x):
    return mk('atan2', (y, x), None, pdt(y, x))


def angle(a):
    a = num(a)
    if not isinstance(a, Cx):
        return ite(gt(0, a), PI, const(0, a.dt))
    if not FPMODE[0] and isc(a.im, 0) and isc(a.re) and a.re.val >= 0:
        return const(0, a.re.dt)
    return atan2(a.im, a.re)


def pow_(a, b):
    a = num(a)
    b = num(b)
    if isinstance(b, Cx) and isc(b.im, 0):
        b = b.re
    if isinstance(b, Cx):
        raise Unsupported("complex exponent")
    if isc(b) and b.val == int(b.val) and abs(b.val) <= 16:
        k = int(b.val)
        if k == 0:
            return const(1)
        r = a
        for _ in range(abs(k) - 1):
            r = mul(r, a)
        return r if k > 0 else div(const(1), r)
    if isinstance(a, Cx):
        if isc(b) and b.val == 0.5:
            return sqrt(a)
        if isc(a.im, 0) and False:
            pass
        # principal power: |a|^b * exp(i b arg a)
        m = pow_(abs_(a), b)
        ph = mul(b, angle(a))
        return Cx(mul(m, cos(ph)), mul(m, sin(ph)))
    if isc(b) and b.val == 0.5:
        return sqrt(a)
    return mk('pow', (a, b), None, pdt(a, b))


def square(a):
    return mul(a, a)


@_lift
def max_(a, b):
    if a is b:
        return a
    return mk('max', (a, b), None, pdt(a, b))


@_lift
def min_(a, b):
    if a is b:
        return a
    return neg(mk('max', (neg(a), neg(b)), None, pdt(a, b)))


def sign(a):
    a = num(a)
    return ite(gt(a, 0), const(1), ite(gt(0, a), const(-1), const(0)))


@_lift
def gt(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        raise Unsupported("order comparison of complex values")
    if isc(a) and isc(b):
        return TRUE if a.val > b.val else FALSE
    if a is b and not FPMODE[0]:
        return FALSE
    return mk('gt', (a, b))


@_lift
def ge(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        raise Unsupported("order comparison of complex values")
    if isc(a) and isc(b):
        return TRUE if a.val >= b.val else FALSE
    if a is b and not FPMODE[0]:
        return TRUE
    return mk('ge', (a, b))


def eq(a, b):
    a = cell(a)
    b = cell(b)
    if isinstance(a, Node) and isinstance(b, Node) and a.sort == 'B' and b.sort == 'B':
        return not_(xor_(a, b))
    a = num(a)
    b = num(b)
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = _cx(a), _cx(b)
        if not FPMODE[0]:
            # over the reals z == 0 iff |z| == 0; one condition per modulus keeps case splits few
            if isc(b.re, 0) and isc(b.im, 0) and not isc(a.im, 0):
                return eq(abs_(a), const(0))
            if isc(a.re, 0) and isc(a.im, 0) and not isc(b.im, 0):
                return eq(abs_(b), const(0))
        return and_(eq(a.re, b.re), eq(a.im, b.im))
    if isc(a) and isc(b):
        return TRUE if a.val == b.val else FALSE
    if a is b and not FPMODE[0]:
        return TRUE
    return mk('eq', (a, b))


def ne(a, b):
    return not_(eq(a, b))


def lt(a, b): return gt(b, a)
def le(a, b): return ge(b, a)


def not_(a):
    a = boolean(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,))


def and_(a, b):
    a = boolean(a)
    b = boolean(b)
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return mk('and', (a, b))


def or_(a, b):
    a = boolean(a)
    b = boolean(b)
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    return mk('or', (a, b))


def xor_(a, b):
    a = boolean(a)
    b = boolean(b)
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE:
        return not_(b)
    if b is TRUE:
        return not_(a)
    if a is b:
        return FALSE
    return or_(and_(a, not_(b)), and_(not_(a), b))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    c = boolean(c)
    a = cell(a)
    b = cell(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = _cx(num(a)), _cx(num(b))
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if a.sort == 'B' and b.sort == 'B':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if b is FALSE:
            return and_(c, a)
        if a is TRUE:
            return or_(c, b)
        return mk('bite', (c, a, b))
    a, b = num(a), num(b)
    return mk('ite', (c, a, b), None, pdt(a, b))


def uf(name, *args):
    return mk('uf', tuple(num(a) for a in args), name)


def conjunction(xs):
    r = TRUE
    for x in xs:
        r = and_(r, x)
    return r


def disjunction(xs):
    r = FALSE
    for x in xs:
        r = or_(r, x)
    return r


def cast(a, kind, dt=None):
    """kind: 'float', 'complex', 'int', 'bool'."""
    a = cell(a)
    if kind == 'bool':
        return boolean(a)
    a = num(a)
    if kind == 'complex':
        if isinstance(a, Cx):
            return Cx(_todt(a.re, dt), _todt(a.im, dt)) if FPMODE[0] else Cx(_round32(a.re, dt), _round32(a.im, dt)) if ROUND32[0] and dt == 'f32' else a
        return Cx(_todt(a, dt), const(0, dt)) if FPMODE[0] else Cx(_round32(a, dt), const(0, a.dt))
    if kind == 'float':
        if isinstance(a, Cx):
            a = a.re
        return _todt(a, dt) if FPMODE[0] else _round32(a, dt)
    if kind == 'int':
        if isinstance(a, Cx):
            a = a.re
        if is_int(a):
            return a
        return ite(ge(a, 0), floor(a), neg(floor(neg(a))))
    raise Unsupported(kind)


ROUND32 = [False]      # set while the 64-bit library is encoded: a value converted to single precision is another value


def _round32(a, dt):
    if dt != 'f32' or not ROUND32[0] or a.dt in ('f32', 'i') or is_int(a):
        return a
    if a.op == 'const':
        if not math.isfinite(a.val):
            return a
        v = struct.unpack('f', struct.pack('f', float(a.val)))[0] if abs(a.val) < 3e38 else math.copysign(math.inf, a.val)
        return a if v == a.val else const(v, 'f64')
    if a.op == 'neg':
        return neg(_round32(a.args[0], dt))
    if a.op == 'ite':
        return ite(a.args[0], _round32(a.args[1], dt), _round32(a.args[2], dt))
    if a.op == 'uf' and a.val == 'round32':
        return a
    return mk('uf', (a,), 'round32', 'f32')


def _todt(a, dt):
    if dt is None or a.dt == dt:
        return a
    if a.op == 'const':
        return const(a.val, dt)
    return mk('cast', (a,), None, dt)


def is_int(n):
    if n.op == 'const':
        return n.val == int(n.val) if math.isfinite(n.val) else False
    if n.op == 'var':
        return n.dt == 'i'
    if n.op in ('floor', 'rint'):
        return True
    if n.op in ('add', 'sub', 'mul', 'neg', 'max', 'abs'):
        return all(is_int(x) for x in n.args)
    if n.op == 'ite':
        return is_int(n.args[1]) and is_int(n.args[2])
    return False


# ---------------------------------------------------------------- traversal, printing, evaluation

def flat(x):
    """Real/Boolean nodes of a cell."""
    if isinstance(x, Cx):
        return [x.re, x.im]
    return [x]


def topo(roots):
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def variables(roots):
    return [n for n in topo(roots) if n.op in ('var', 'bvar')]


def show(n, depth=6):
    if isinstance(n, Cx):
        return "(%s + i %s)" % (show(n.re, depth), show(n.im, depth))
    if n.op in ('const', 'var', 'bconst', 'bvar'):
        return str(n.val)
    if n.op == 'pi':
        return 'pi'
    if depth <= 0:
        return '..'
    if n.op in ('add', 'sub', 'mul', 'div', 'gt', 'ge', 'eq', 'and', 'or'):
        s = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'gt': '>', 'ge': '>=', 'eq': '==', 'and': '&', 'or': '|'}[n.op]
        return "(%s %s %s)" % (show(n.args[0], depth - 1), s, show(n.args[1], depth - 1))
    nm = n.op if n.op != 'uf' else str(n.val)
    return "%s(%s)" % (nm, ", ".join(show(a, depth - 1) for a in n.args))


SLACK = {}       # id of a comparison used in an obligation -> room for rounding when it is evaluated numerically


def evaluate(roots, env, ufs=None, mp=None, cache=None):
    """Numeric value of nodes; env: variable name -> number. mp: mpmath context for high precision."""
    import numpy as np
    val = cache if cache is not None else {}
    if mp is None:
        F = np.float64
        m = dict(sin=np.sin, cos=np.cos, tanh=np.tanh, asin=np.arcsin, acos=np.arccos, log=np.log, exp=np.exp,
                 sqrt=np.sqrt, atan2=np.arctan2, floor=np.floor, rint=np.rint, pow=np.power)
        pi = np.float64(math.pi)
        isn = np.isnan
    else:
        F = mp.mpf

        def _real(f):
            def g(*a):
                try:
                    r = f(*a)
                except (ValueError, ZeroDivisionError, OverflowError):
                    return mp.nan
                if isinstance(r, mp.mpc):
                    return mp.nan
                return r
            return g
        m = dict(sin=mp.sin, cos=mp.cos, tanh=mp.tanh, asin=_real(mp.asin), acos=_real(mp.acos), log=_real(mp.log),
                 exp=mp.exp, sqrt=_real(mp.sqrt), atan2=_real(mp.atan2), floor=mp.floor, rint=mp.nint, pow=_real(mp.power))
        pi = mp.pi + 0
        isn = mp.isnan
    with np.errstate(all='ignore'):
        for n in topo(roots):
            if n.id in val:
                continue
            o = n.op
            a = [val[x.id] for x in n.args]
            if o == 'const':
                v = n.val
                if isinstance(v, Fraction):
                    v = F(v.numerator) / F(v.denominator)
                elif isinstance(v, int):
                    v = F(v)
                else:
                    v = F(v)
            elif o == 'bconst':
                v = n.val
            elif o == 'var':
                v = F(env[n.val])
            elif o == 'bvar':
                v = bool(env[n.val])
            elif o == 'pi':
                v = pi
            elif o == 'add':
                v = a[0] + a[1]
            elif o == 'sub':
                v = a[0] - a[1]
            elif o == 'mul':
                v = a[0] * a[1]
            elif o == 'div':
                if mp is not None and a[1] == 0:
                    v = mp.nan if (a[0] == 0 or isn(a[0])) else mp.inf * mp.sign(a[0])
                else:
                    v = a[0] / a[1]
            elif o == 'neg':
                v = -a[0]
            elif o == 'abs':
                v = abs(a[0])
            elif o == 'max':
                v = a[0] if (a[0] >= a[1] or isn(a[0])) else a[1]
            elif o == 'gt':
                v = bool(a[0] > a[1])
            elif o == 'ge':
                v = bool(a[0] >= a[1] - SLACK[n.id] * (1 + abs(a[0]) + abs(a[1]))) if n.id in SLACK else bool(a[0] >= a[1])
            elif o == 'eq':
                v = bool(abs(a[0] - a[1]) <= SLACK[n.id] * (1 + abs(a[0]) + abs(a[1]))) if n.id in SLACK else bool(a[0] == a[1])
            elif o == 'and':
                v = a[0] and a[1]
            elif o == 'or':
                v = a[0] or a[1]
            elif o == 'not':
                v = not a[0]
            elif o in ('ite', 'bite'):
                v = a[1] if a[0] else a[2]
            elif o == 'cast':
                v = F(np.float32(float(a[0]))) if n.dt == 'f32' else a[0]
            elif o == 'isnan':
                v = bool(isn(a[0]))
            elif o == 'isfinite':
                v = bool(np.isfinite(float(a[0])))
            elif o == 'uf':
                v = F(ufs(n.val, *[float(x) for x in a]))
            elif o in m:
                v = m[o](*a)
            else:
                raise Unsupported("evaluate " + o)
            val[n.id] = v
    return val


def evalcell(c, env, ufs=None, mp=None, cache=None):
    c = cell(c)
    v = evaluate(flat(c), env, ufs, mp, cache)
    if isinstance(c, Cx):
        if mp is not None:
            return mp.mpc(v[c.re.id], v[c.im.id])
        return complex(v[c.re.id], v[c.im.id])
    return v[c.id]


def substitute(roots, sub):
    """sub: dict node id -> node. Returns list of rewritten roots."""
    new = {}
    for n in topo(roots):
        if n.id in sub:
            new[n.id] = sub[n.id]
            continue
        if not n.args or all(new[a.id] is a for a in n.args):
            new[n.id] = n
            continue
        a = [new[x.id] for x in n.args]
        new[n.id] = rebuild(n, a)
    return [new[r.id] for r in roots]


def rebuild(n, a):
    o = n.op
    f = {'add': add, 'sub': sub, 'mul': mul, 'div': div, 'neg': neg, 'gt': gt, 'ge': ge, 'eq': eq, 'and': and_,
         'or': or_, 'not': not_, 'ite': ite, 'bite': ite, 'sqrt': sqrt, 'abs': abs_, 'max': max_}.get(o)
    if f is not None:
        return f(*a)
    return mk(o, a, n.val, n.dt)
