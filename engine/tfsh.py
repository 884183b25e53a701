"""Symbolic shadow of TensorFlow: eager ops through op callbacks, tf.function through its FunctionDef."""
import builtins
import numpy as np
import tensorflow as tf
from tensorflow.python.eager import context, execute
from tensorflow.python.framework import op_callbacks, ops, tensor_util, constant_op, dtypes
from tensorflow.python.framework import function_def_to_graph as fdg
from tensorflow.python.ops import script_ops
from . import expr as E
from . import npsh as S
from .expr import Unsupported, Cx, Node
from .npsh import vec, lift_array, obj_array, SymNd

EagerTensor = ops.EagerTensor


class SA(object):
    """Symbolic tensor value."""
    __slots__ = ("sh", "dtype")

    def __init__(self, sh, dtype):
        self.sh = sh
        self.dtype = tf.as_dtype(dtype)

    @property
    def shape(self):
        return self.sh.shape


REG = {}         # id(EagerTensor) -> (tensor, SA)
RES = {}         # id(handle) -> (handle, SA)
BUSY = [0]
STATS = {"functions": {}, "ops": {}, "eager_ops": {}}
ENV_B = {}


def dtstr(dtype):
    n = tf.as_dtype(dtype).name
    return {'float32': 'f32', 'complex64': 'f32', 'float64': 'f64', 'complex128': 'f64', 'bool': None}.get(n, 'i')


# ----------------------------------------------------------------------------- value tags

TAGS = {}


def generic(v):
    if isinstance(v, complex):
        return generic(v.real) or generic(v.imag)
    if v == 0 or not np.isfinite(v):
        return False
    x = abs(v)
    for k in (1, 2, 3, 5, 7, 9):
        if (x * 64 * k) == int(x * 64 * k) and x * 64 * k < 2 ** 20:
            return False
    return True


def add_tag(v, c):
    if isinstance(c, Node) and c.op in ('const', 'bconst', 'pi'):
        return
    if not generic(v):
        return
    keys = {v}
    with np.errstate(all='ignore'):
        if isinstance(v, complex):
            keys.add(complex(np.complex64(v)))
        else:
            keys.add(float(np.float32(v)))
    for k in keys:
        lst = TAGS.setdefault(k, [])
        if not any(_same(c, x) for x in lst):
            lst.append(c)


def _same(a, b):
    if a is b:
        return True
    if isinstance(a, Cx) and isinstance(b, Cx):
        return a.re is b.re and a.im is b.im
    return False


def find_tag(v):
    lst = TAGS.get(v)
    if not lst:
        return None
    if len(lst) > 1:
        import random
        rnd = random.Random(7)
        env = {}
        nodes = [n for c in lst for n in E.flat(c)]
        for x in E.variables(nodes):
            env[x.val] = rnd.uniform(0.3, 1.7)
        try:
            vals = [E.evalcell(c, env, ufs=S_UF[0]) for c in lst]
        except Unsupported:
            vals = [0, 1]
        if any(abs(x - vals[0]) > 1e-9 * (1 + abs(vals[0])) for x in vals):
            raise Unsupported("ambiguous value tag")
    return lst[0]


S_UF = [None]
S.ON_NEW.append(add_tag)


def tagged(arr):
    """Cells of a concrete array whose elements are known symbolic values, or None."""
    if not TAGS:
        return None
    arr = np.asarray(arr)
    if arr.dtype.kind not in 'fc' or arr.size > 4096:
        return None
    cells = []
    hit = False
    for v in arr.reshape(-1):
        v = v.item()
        c = find_tag(v)
        if c is None and isinstance(v, complex) and v.imag == 0:
            c = find_tag(v.real)
        if c is not None:
            hit = True
        cells.append(c)
    if not hit:
        return None
    base = lift_array(arr).reshape(-1)
    for i, c in enumerate(cells):
        if c is not None:
            base[i] = E.cast(c, 'complex') if arr.dtype.kind == 'c' else c
    return base.reshape(arr.shape)


# ----------------------------------------------------------------------------- registry

def shadow(t):
    """SA of an eager tensor, or None."""
    r = REG.get(id(t))
    if r is not None:
        return r[1]
    if t.dtype.is_floating or t.dtype.is_complex:
        BUSY[0] += 1
        try:
            if t.shape.rank is not None and t.shape.num_elements() is not None and t.shape.num_elements() <= 4096:
                sh = tagged(raw(t))
                if sh is not None:
                    sa = SA(sh, t.dtype)
                    REG[id(t)] = (t, sa)
                    return sa
                REG[id(t)] = (t, None)
        finally:
            BUSY[0] -= 1
    return None


_orig_numpy = None


def raw(t):
    return _orig_numpy(t) if _orig_numpy is not None else t.numpy()


def register(t, sa):
    if sa is None:
        return
    REG[id(t)] = (t, sa)
    if sa.sh.size <= 64 and (t.dtype.is_floating or t.dtype.is_complex):
        d = raw(t)
        for v, c in zip(np.asarray(d).reshape(-1), sa.sh.reshape(-1)):
            add_tag(v.item(), c)


def lift_tensor(x):
    """EagerTensor -> SymNd when it has cells."""
    if isinstance(x, tf.Variable):
        r = RES.get(id(x.handle))
        if r is None:
            return None
        return SymNd(np.array(raw(x.value())), r[1].sh)
    if isinstance(x, EagerTensor):
        if x.dtype == dtypes.resource:
            return None
        sa = shadow(x)
        if sa is None:
            return None
        return SymNd(np.array(raw(x)), sa.sh)
    return None


S.LIFT.append(lift_tensor)
S.FOREIGN[0] = (tf.Tensor, tf.Variable)


# ----------------------------------------------------------------------------- kernels

def cells(v):
    """Object array of cells of an op input (SA or concrete EagerTensor)."""
    if isinstance(v, SA):
        return v.sh
    return lift_array(raw(v))


def conc(v):
    if isinstance(v, SA):
        if S.is_const_cells(v.sh):
            out = np.empty(v.sh.shape, dtype=v.dtype.as_numpy_dtype)
            for i in np.ndindex(*v.sh.shape):
                c = v.sh[i]
                out[i] = complex(float(c.re.val), float(c.im.val)) if isinstance(c, Cx) else (c.val if c.op == 'bconst' else float(c.val))
            return out
        raise Unsupported("symbolic value where a concrete one is needed")
    return raw(v)


def elem(f):
    def k(ins, attrs, outd):
        r = vec(f, *[cells(x) for x in ins])
        return [SA(r, outd[0])]
    return k


def _cplx(c):
    c = E.num(c)
    return c if isinstance(c, Cx) else Cx(c, E.const(0, c.dt))


def _div_no_nan(a, b):
    return E.ite(E.eq(b, E.const(0)), E.const(0), E.div(a, b))


def _reciprocal(a):
    return E.div(E.const(1), a)


K = {}
for _n, _f in dict(
        Neg=E.neg, Abs=E.abs_, ComplexAbs=E.abs_, Square=E.square, Sqrt=E.sqrt, Rsqrt=lambda a: E.div(E.const(1), E.sqrt(a)),
        Exp=E.exp, Log=E.log, Cos=E.cos, Sin=E.sin, Tan=E.tan, Tanh=E.tanh, Sinh=E.sinh, Cosh=E.cosh, Asin=E.asin, Acos=E.acos,
        Atan=E.atan, Sign=E.sign, Floor=E.floor, Ceil=E.ceil, Rint=E.rint, Round=E.rint, Reciprocal=_reciprocal, Inv=_reciprocal,
        Conj=E.conj, Real=E.real, Imag=E.imag, Angle=E.angle, LogicalNot=E.not_, IsNan=E.isnan, IsFinite=E.isfinite,
        Expm1=lambda a: E.sub(E.exp(a), E.const(1)), Log1p=lambda a: E.log(E.add(E.const(1), a)),
        Sigmoid=lambda a: E.div(E.const(1), E.add(E.const(1), E.exp(E.neg(a)))),
        Relu=lambda a: E.max_(a, E.const(0)),
        Add=E.add, AddV2=E.add, Sub=E.sub, Mul=E.mul, Div=E.div, RealDiv=E.div, DivNoNan=_div_no_nan,
        MulNoNan=lambda a, b: E.ite(E.eq(b, E.const(0)), E.const(0), E.mul(a, b)), Pow=E.pow_,
        Maximum=E.max_, Minimum=E.min_, Greater=E.gt, GreaterEqual=E.ge, Less=E.lt, LessEqual=E.le, Equal=E.eq, NotEqual=E.ne,
        LogicalAnd=E.and_, LogicalOr=E.or_, Atan2=E.atan2, SquaredDifference=lambda a, b: E.mul(E.sub(a, b), E.conj(E.sub(a, b))),
        FloorDiv=lambda a, b: E.floor(E.div(a, b)), FloorMod=lambda a, b: E.sub(a, E.mul(b, E.floor(E.div(a, b)))),
        Complex=lambda a, b: Cx(E.num(a), E.num(b)), Xdivy=lambda a, b: E.ite(E.eq(a, E.const(0)), E.const(0), E.div(a, b)),
        ClipByValue=lambda a, lo, hi: E.max_(E.min_(a, hi), lo),
        Select=lambda c, a, b: E.ite(c, a, b), SelectV2=lambda c, a, b: E.ite(c, a, b),
).items():
    K[_n] = elem(_f)


def k_isinf(ins, attrs, outd):
    return [SA(vec(lambda c: E.and_(E.not_(E.isfinite(c)), E.not_(E.isnan(c))), cells(ins[0])), outd[0])]


K['IsInf'] = k_isinf


def k_select(ins, attrs, outd):
    c = cells(ins[0])
    a, b = cells(ins[1]), cells(ins[2])
    if c.ndim == 1 and a.ndim > 1:
        c = c.reshape((-1,) + (1,) * (a.ndim - 1))
    return [SA(vec(E.ite, c, a, b), outd[0])]


K['Select'] = k_select


def k_cast(ins, attrs, outd):
    d = outd[0]
    kind = 'complex' if d.is_complex else 'float' if d.is_floating else 'bool' if d.is_bool else 'int'
    return [SA(vec(lambda c: E.cast(c, kind, dtstr(d)), cells(ins[0])), d)]


K['Cast'] = k_cast


def reducer(name):
    def k(ins, attrs, outd):
        sh = cells(ins[0])
        ax = np.asarray(conc(ins[1])).reshape(-1).tolist()
        ax = tuple(int(a) % sh.ndim for a in ax) if sh.ndim else ()
        keep = [i for i in range(sh.ndim) if i not in ax]
        moved = np.transpose(sh, keep + list(ax)).reshape([sh.shape[i] for i in keep] + [-1])
        out = np.empty(moved.shape[:-1], dtype=object)
        f = {'Sum': E.add, 'Mean': E.add, 'Prod': E.mul, 'Max': E.max_, 'Min': E.min_, 'All': E.and_, 'Any': E.or_}[name]
        for idx in np.ndindex(*out.shape):
            xs = list(moved[idx])
            r = xs[0]
            for x in xs[1:]:
                r = f(r, x)
            if name == 'Mean':
                r = E.div(r, E.const(len(xs)))
            out[idx] = r
        if attrs.get('keep_dims'):
            out = out.reshape([1 if i in ax else sh.shape[i] for i in range(sh.ndim)])
        return [SA(out, outd[0])]
    return k


for _n in ('Sum', 'Mean', 'Prod', 'Max', 'Min', 'All', 'Any'):
    K[_n] = reducer(_n)


def cumulative(f, unit):
    def k(ins, attrs, outd):
        sh = cells(ins[0]).copy()
        ax = int(conc(ins[1]))
        mv = np.moveaxis(sh, ax, 0)
        if attrs.get('reverse'):
            mv = mv[::-1]
        for i in range(1, mv.shape[0]):
            mv[i] = vec(f, mv[i - 1], mv[i])
        if attrs.get('exclusive') and mv.shape[0]:
            for i in range(mv.shape[0] - 1, 0, -1):
                mv[i] = mv[i - 1]
            mv[0] = vec(lambda c: _cplx(E.const(unit)) if outd[0].is_complex else E.const(unit), mv[0])
        return [SA(sh, outd[0])]
    return k


K['Cumsum'] = cumulative(E.add, 0)
K['Cumprod'] = cumulative(E.mul, 1)


def k_arg(name):
    def k(ins, attrs, outd):
        sh = cells(ins[0])
        ax = int(conc(ins[1]))
        mv = np.moveaxis(sh, ax, -1)
        out = np.empty(mv.shape[:-1], dtype=object)
        better = E.gt if name == 'ArgMax' else E.lt
        for idx in np.ndindex(*out.shape):
            best, where = mv[idx][0], E.const(0)
            for j in range(1, mv.shape[-1]):
                c = better(mv[idx][j], best)
                best, where = E.ite(c, mv[idx][j], best), E.ite(c, E.const(j), where)
            out[idx] = where
        return [SA(out, outd[0])]
    return k


K['ArgMax'], K['ArgMin'] = k_arg('ArgMax'), k_arg('ArgMin')


def k_topk(ins, attrs, outd):
    sh = cells(ins[0])
    n = int(conc(ins[1]))
    val, ind = np.empty(sh.shape[:-1] + (n,), dtype=object), np.empty(sh.shape[:-1] + (n,), dtype=object)
    if sh.shape[-1] > 8:
        raise Unsupported("sorting more than 8 symbolic values")
    for idx in np.ndindex(*sh.shape[:-1]):
        v = [(x, E.const(j)) for j, x in enumerate(sh[idx])]
        for i in range(n):
            for j in range(len(v) - 1, i, -1):
                (a, ia), (b, ib) = v[j - 1], v[j]
                c = E.gt(b, a)
                v[j - 1], v[j] = (E.ite(c, b, a), E.ite(c, ib, ia)), (E.ite(c, a, b), E.ite(c, ia, ib))
            val[idx + (i,)], ind[idx + (i,)] = v[i]
    return [SA(val, outd[0]), SA(ind, outd[1])]


K['TopKV2'] = k_topk


def _trunc(q):
    return E.ite(E.ge(q, E.const(0)), E.floor(q), E.ceil(q))


K['TruncateDiv'] = elem(lambda a, b: _trunc(E.div(a, b)))
K['TruncateMod'] = elem(lambda a, b: E.sub(a, E.mul(b, _trunc(E.div(a, b)))))
K['Mod'] = K['TruncateMod']


def k_euclid(ins, attrs, outd):
    sq = SA(vec(lambda c: E.add(E.square(E.real(c)), E.square(E.imag(c))) if isinstance(c, Cx) else E.square(c), cells(ins[0])), outd[0])
    r = K['Sum']([sq, ins[1]], attrs, outd)[0]
    return [SA(vec(E.sqrt, r.sh), outd[0])]


K['EuclideanNorm'] = k_euclid
K['ConjugateTranspose'] = lambda ins, attrs, outd: [SA(vec(E.conj, run_move('Transpose', ins, attrs, outd)[0].sh), outd[0])]


def k_softmax(ins, attrs, outd):
    x = vec(E.exp, cells(ins[0]))
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape[:-1]):
        t = x[i][0]
        for c in x[i][1:]:
            t = E.add(t, c)
        for j in range(x.shape[-1]):
            out[i + (j,)] = E.div(x[i][j], t)
    return [SA(out, outd[0])]


K['Softmax'] = k_softmax


def k_cross(ins, attrs, outd):
    a, b = cells(ins[0]), cells(ins[1])
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape[:-1]):
        for k in range(3):
            p, q = (k + 1) % 3, (k + 2) % 3
            out[i + (k,)] = E.sub(E.mul(a[i][p], b[i][q]), E.mul(a[i][q], b[i][p]))
    return [SA(out, outd[0])]


K['Cross'] = k_cross


def k_l2(ins, attrs, outd):
    t = E.const(0)
    for c in cells(ins[0]).reshape(-1):
        t = E.add(t, E.square(c))
    return [SA(obj_array([E.div(t, E.const(2))], ()), outd[0])]


K['L2Loss'] = k_l2
K['Asinh'] = elem(lambda a: E.log(E.add(a, E.sqrt(E.add(E.square(a), E.const(1))))))
K['Acosh'] = elem(lambda a: E.log(E.add(a, E.sqrt(E.sub(E.square(a), E.const(1))))))
K['Atanh'] = elem(lambda a: E.div(E.log(E.div(E.add(E.const(1), a), E.sub(E.const(1), a))), E.const(2)))


def k_scatter(f):
    """tensor_scatter_nd_*, and scatter_nd itself with f = add on zeros."""
    def k(ins, attrs, outd):
        base = cells(ins[0]).copy()
        ind, upd = np.asarray(conc(ins[1])), cells(ins[2])
        d = ind.shape[-1]
        lead = ind.shape[:-1]
        for i in np.ndindex(*lead):
            at = tuple(int(v) for v in ind[i])
            new = upd[i]
            if len(at) == base.ndim:
                base[at] = f(base[at], new)
            else:
                base[at] = vec(f, base[at], new)
        return [SA(base, outd[0])]
    return k


for _n, _f in (('Add', E.add), ('Sub', E.sub), ('Max', E.max_), ('Min', E.min_)):
    K['TensorScatter' + _n] = k_scatter(_f)


def zeros_of(shape, d):
    z = E.FALSE if d.is_bool else _cplx(E.const(0)) if d.is_complex else E.const(0)
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*a.shape):
        a[i] = z
    return a


def k_scatternd(ins, attrs, outd):
    shape = tuple(int(v) for v in np.asarray(conc(ins[2])).reshape(-1))
    return k_scatter(E.add)([SA(zeros_of(shape, outd[0]), outd[0]), ins[0], ins[1]], attrs, outd)


K['ScatterNd'] = k_scatternd


def k_segment(ins, attrs, outd):
    data, seg = cells(ins[0]), np.asarray(conc(ins[1]))
    n = int(conc(ins[2])) if len(ins) > 2 else int(seg.max()) + 1
    out = zeros_of((n,) + data.shape[seg.ndim:], outd[0])
    for i in np.ndindex(*seg.shape):
        if seg[i] >= 0:
            j = int(seg[i])
            out[j] = vec(E.add, out[j], data[i]) if data.ndim > seg.ndim else E.add(out[j], data[i])
    return [SA(out, outd[0])]


K['SegmentSum'] = K['UnsortedSegmentSum'] = K['SegmentSumV2'] = k_segment


def k_onehot(ins, attrs, outd):
    ind, depth = cells(ins[0]), int(conc(ins[1]))
    on, off = cells(ins[2]).reshape(-1)[0], cells(ins[3]).reshape(-1)[0]
    out = np.empty(ind.shape + (depth,), dtype=object)
    for i in np.ndindex(*ind.shape):
        for j in range(depth):
            out[i + (j,)] = E.ite(E.eq(ind[i], E.const(j)), on, off)
    ax = int(attrs.get('axis', -1))
    return [SA(np.moveaxis(out, -1, ax if ax >= 0 else out.ndim - 1), outd[0])]


K['OneHot'] = k_onehot


def k_rfft(nd, inverse):
    def k(ins, attrs, outd):
        sh = vec(_cplx, cells(ins[0]))
        n = tuple(int(v) for v in np.asarray(conc(ins[1])).reshape(-1))
        if not inverse:
            if n != sh.shape[-nd:]:
                raise Unsupported("real transform with another length")
            for ax in range(-nd, 0):
                sh = S.dft(sh, ax, False)
            return [SA(sh[..., :n[-1] // 2 + 1], outd[0])]
        if sh.shape[-nd:-1] != n[:-1] or sh.shape[-1] != n[-1] // 2 + 1:
            raise Unsupported("inverse real transform with another length")
        for ax in range(-nd, -1):
            sh = S.dft(sh, ax, True)
        m = n[-1]
        full = np.empty(sh.shape[:-1] + (m,), dtype=object)
        for i in np.ndindex(*sh.shape[:-1]):
            for j in range(m):
                full[i + (j,)] = sh[i][j] if j < sh.shape[-1] else E.conj(sh[i][m - j])
            for j in {0, m // 2 if m % 2 == 0 else 0}:
                full[i + (j,)] = _cplx(E.real(full[i + (j,)]))
        full = S.dft(full, -1, True)
        return [SA(vec(E.real, full), outd[0])]
    return k


for _n, _d in (('RFFT', 1), ('RFFT2D', 2), ('RFFT3D', 3)):
    K[_n], K['I' + _n] = k_rfft(_d, False), k_rfft(_d, True)


def k_window(op):
    """Small 2-D convolutions and pooling (stride one, NHWC, no padding) as plain sums."""
    def k(ins, attrs, outd):
        x = cells(ins[0])
        enc = lambda v: v.decode() if isinstance(v, bytes) else v
        if enc(attrs.get('padding')) != 'VALID' or enc(attrs.get('data_format', 'NHWC')) != 'NHWC' or list(attrs.get('strides')) != [1, 1, 1, 1] \
                or list(attrs.get('dilations', [1, 1, 1, 1])) != [1, 1, 1, 1]:
            raise Unsupported(op + " options")
        if op == 'Conv2D':
            w = cells(ins[1])
        else:
            kh, kw = list(attrs['ksize'])[1:3]
            w = None
        if w is not None:
            kh, kw = w.shape[:2]
        B, H, W, C = x.shape
        co = w.shape[3] if w is not None else C
        out = np.empty((B, H - kh + 1, W - kw + 1, co), dtype=object)
        for b, i, j, c in np.ndindex(*out.shape):
            t = E.const(0)
            for u in range(kh):
                for v in range(kw):
                    if w is None:
                        t = E.add(t, E.div(x[b, i + u, j + v, c], E.const(kh * kw)))
                    else:
                        for q in range(C):
                            t = E.add(t, E.mul(x[b, i + u, j + v, q], w[u, v, q, c]))
            out[b, i, j, c] = t
        return [SA(out, outd[0])]
    return k


K['Conv2D'], K['AvgPool'] = k_window('Conv2D'), k_window('AvgPool')


def k_gather(ins, attrs, outd):
    """Gather along one axis with symbolic indices: a chain of selections."""
    x, ind = cells(ins[0]), cells(ins[1])
    ax = int(conc(ins[2])) if len(ins) > 2 else 0
    if int(attrs.get('batch_dims', 0)):
        raise Unsupported("batched gather with symbolic indices")
    mv = np.moveaxis(x, ax, 0)
    rest = mv.shape[1:]
    out = np.empty(ind.shape + rest, dtype=object)
    for i in np.ndindex(*ind.shape):
        for r in np.ndindex(*rest):
            t = mv[(mv.shape[0] - 1,) + r]
            for j in range(mv.shape[0] - 2, -1, -1):
                t = E.ite(E.eq(ind[i], E.const(j)), mv[(j,) + r], t)
            out[i + r] = t
    ax = ax % x.ndim
    out = np.moveaxis(out, list(range(ind.ndim)), list(range(ax, ax + ind.ndim)))
    return [SA(out, outd[0])]



def fftk(nd, inverse):
    def k(ins, attrs, outd):
        sh = vec(_cplx, cells(ins[0]))
        for ax in range(-nd, 0):
            sh = S.dft(sh, ax, inverse)
        return [SA(sh, outd[0])]
    return k


for _n, _d in (('FFT', 1), ('FFT2D', 2), ('FFT3D', 3)):
    K[_n] = fftk(_d, False)
    K['I' + _n] = fftk(_d, True)


def k_addn(ins, attrs, outd):
    r = cells(ins[0])
    for x in ins[1:]:
        r = vec(E.add, r, cells(x))
    return [SA(r, outd[0])]


K['AddN'] = k_addn
K['AccumulateNV2'] = k_addn


def k_matmul(ins, attrs, outd):
    a, b = cells(ins[0]), cells(ins[1])
    if attrs.get('transpose_a') or attrs.get('adj_x'):
        a = np.swapaxes(a, -1, -2)
        if attrs.get('adj_x'):
            a = vec(E.conj, a)
    if attrs.get('transpose_b') or attrs.get('adj_y'):
        b = np.swapaxes(b, -1, -2)
        if attrs.get('adj_y'):
            b = vec(E.conj, b)
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("batched matmul")
    return [SA(S.matmul_cells(a, b), outd[0])]


K['MatMul'] = K['BatchMatMulV2'] = k_matmul


def k_einsum(ins, attrs, outd):
    eqn = attrs['equation']
    eqn = eqn.decode() if isinstance(eqn, bytes) else eqn
    lhs, rhs = eqn.replace(' ', '').split('->')
    terms = lhs.split(',')
    arrs = [cells(x) for x in ins]
    dims = {}
    for t, a in zip(terms, arrs):
        for ch, n in zip(t, a.shape):
            dims[ch] = n
    summed = [c for c in dims if c not in rhs]
    out = np.empty([dims[c] for c in rhs], dtype=object)
    for idx in np.ndindex(*out.shape):
        env = dict(zip(rhs, idx))
        tot = E.const(0)
        for s in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, s))
            p = E.const(1)
            for t, a in zip(terms, arrs):
                p = E.mul(p, a[tuple(env[c] for c in t)])
            tot = E.add(tot, p)
        out[idx] = tot
    return [SA(out, outd[0])]


K['Einsum'] = k_einsum


def passthrough(ins, attrs, outd):
    return [x if not isinstance(x, SA) else SA(x.sh, outd[0]) for x in ins[:len(outd)]]


for _n in ('Identity', 'IdentityN', 'StopGradient', 'PreventGradient', 'Snapshot', 'DeepCopy', 'CheckNumerics', 'EnsureShape',
           'CopyHost', 'Copy', 'PlaceholderWithDefault'):
    K[_n] = passthrough


def k_shape(ins, attrs, outd):
    return [tf.constant(ins[0].sh.shape, dtype=outd[0])]


K['Shape'] = k_shape
K['Rank'] = lambda ins, attrs, outd: [tf.constant(ins[0].sh.ndim, dtype=outd[0])]
K['Size'] = lambda ins, attrs, outd: [tf.constant(ins[0].sh.size, dtype=outd[0])]


def k_shapen(ins, attrs, outd):
    return [tf.constant(x.sh.shape if isinstance(x, SA) else x.shape.as_list(), dtype=d) for x, d in zip(ins, outd)]


K['ShapeN'] = k_shapen


def constlike(v):
    def k(ins, attrs, outd):
        d = outd[0]
        return [tf.constant(np.full(ins[0].sh.shape, v), dtype=d) if not d.is_bool else tf.constant(np.full(ins[0].sh.shape, bool(v)))]
    return k


K['ZerosLike'] = constlike(0)
K['OnesLike'] = constlike(1)


def k_assert(ins, attrs, outd):
    return []


K['Assert'] = k_assert
K['Print'] = passthrough
K['PrintV2'] = lambda ins, attrs, outd: []
K['NoOp'] = lambda ins, attrs, outd: []


def k_stringformat(ins, attrs, outd):
    return [tf.constant("<symbolic>")]


K['StringFormat'] = k_stringformat

# Ops that only move data: executed on index tensors.
MOVE = {'Reshape', 'Transpose', 'ConjugateTranspose_', 'Pad', 'PadV2', 'MirrorPad', 'Roll', 'Slice', 'StridedSlice', 'Gather', 'GatherV2',
        'GatherNd', 'Tile', 'BroadcastTo', 'ReverseV2', 'Reverse', 'ConcatV2', 'Concat', 'Pack', 'Unpack', 'Split', 'SplitV',
        'ExpandDims', 'Squeeze', 'MatrixDiagPartV3', 'MatrixDiagPartV2', 'MatrixDiagPart', 'MatrixDiagV3', 'MatrixDiagV2', 'Fill',
        'TensorScatterUpdate', 'TensorStridedSliceUpdate', 'MatrixBandPart', 'ReverseSequence', 'DynamicStitch', 'DiagPart', 'Diag',
        'MatrixTranspose', 'DepthToSpace', 'SpaceToDepth', 'SpaceToBatchND', 'BatchToSpaceND', 'ScatterNd_', 'MatrixSetDiagV3'}
FILL0 = {'Pad', 'MatrixDiagV3', 'MatrixBandPart', 'Diag', 'MatrixDiagV2'}


def run_move(op, ins, attrs, outd):
    od = _opdef(op)
    # which inputs carry data: the attr of the data type
    tname = None
    for ia in od.output_arg:
        tname = ia.type_attr or tname
    flat_args = _expand_args(od.input_arg, attrs, len(ins))
    table = [E.const(0) if not (outd and outd[0].is_bool) else E.FALSE]
    if outd[0].is_complex:
        table[0] = Cx(E.const(0), E.const(0))
    newins = []
    for v, ia in zip(ins, flat_args):
        if ia.type_attr == tname:
            c = cells(v)
            idx = np.arange(len(table), len(table) + c.size, dtype=np.int64).reshape(c.shape)
            table.extend(c.reshape(-1))
            newins.append(tf.constant(idx, dtype=tf.int64))
        else:
            newins.append(v if not isinstance(v, SA) else tf.constant(conc(v), dtype=v.dtype))
    at = dict(attrs)
    at[tname] = tf.int64
    res = exec_op(op, newins, at, len(outd))
    tab = obj_array(table, (len(table),))
    return [SA(_take(tab, raw(r)), d) for r, d in zip(res, outd)]


def _take(tab, idx):
    idx = np.asarray(idx)
    out = np.empty(idx.shape, dtype=object)
    if idx.shape == ():
        out[()] = tab[int(idx)]
    else:
        out[...] = tab[idx]
    return out


def _expand_args(input_arg, attrs, n):
    out = []
    for ia in input_arg:
        if ia.number_attr:
            out.extend([ia] * int(attrs[ia.number_attr]))
        elif ia.type_list_attr:
            out.extend([ia] * len(attrs[ia.type_list_attr]))
        else:
            out.append(ia)
    return out


from tensorflow.python.framework import op_def_registry


def _opdef(name):
    return op_def_registry.get(name)


def _enc_attr(v):
    if isinstance(v, tf.DType):
        return v.as_datatype_enum
    if isinstance(v, (list, tuple)):
        return [_enc_attr(x) for x in v]
    if type(v).__name__ == 'TensorShapeProto':
        return tf.TensorShape(v)
    return v


def exec_op(op, ins, attrs, nout):
    """Run one TensorFlow kernel on concrete inputs."""
    BUSY[0] += 1
    try:
        flat = []
        for a in _opdef(op).attr:
            if a.name in attrs and attrs[a.name] is not None:
                flat.append(a.name)
                flat.append(_enc_attr(attrs[a.name]))
        r = execute.quick_execute(op, nout, list(ins), tuple(flat), context.context())
        return [] if r is None else (list(r) if isinstance(r, (list, tuple)) else [r])
    finally:
        BUSY[0] -= 1


RANDOM = {'RandomUniform', 'StatelessRandomUniform', 'StatelessRandomUniformV2'}
RANDOM_BAD = {'RandomStandardNormal', 'TruncatedNormal', 'RandomUniformInt', 'StatelessRandomNormal', 'StatelessRandomNormalV2',
              'RandomShuffle', 'Multinomial', 'StatefulUniform', 'StatefulStandardNormalV2', 'StatelessRandomUniformIntV2'}


def apply_kernel(op, ins, attrs, outd):
    if any(isinstance(v, TL) for v in ins):
        if op in ('Identity', 'IdentityN', 'StopGradient', 'ZerosLike') and op != 'ZerosLike':
            return list(ins)
        raise Unsupported("%s of a tensor list" % op)
    STATS['ops'][op] = STATS['ops'].get(op, 0) + 1
    if op in K:
        return K[op](ins, attrs, outd)
    if op in ('Gather', 'GatherV2') and isinstance(ins[1], SA) and not S.is_const_cells(ins[1].sh):
        return k_gather(ins, attrs, outd)
    if op in MOVE:
        return run_move(op, ins, attrs, outd)
    if op == 'GatherNd':
        return run_move(op, ins, attrs, outd)
    raise Unsupported("TensorFlow op %s on symbolic values" % op)


# ----------------------------------------------------------------------------- function graphs

_graphs = {}
_has_random = {}


def graph_of(name):
    g = _graphs.get(name)
    if g is None:
        fd = context.context().get_function_def(name)
        g = fdg.function_def_to_graph(fd)
        order = []
        seen = set()

        for root in list(g.get_operations()):
            st = [(root, False)]
            while st:
                o, done = st.pop()
                if done:
                    order.append(o)
                    continue
                if o in seen:
                    continue
                seen.add(o)
                st.append((o, True))
                for c in o.control_inputs:
                    if c not in seen:
                        st.append((c, False))
                for t in o.inputs:
                    if t.op not in seen:
                        st.append((t.op, False))
        g = (g, order, fd)
        _graphs[name] = g
    return g


def func_names(op):
    out = []
    for a in op.op_def.attr:
        if a.type == 'func':
            out.append(op.get_attr(a.name).name)
        elif a.type == 'list(func)':
            out.extend(f.name for f in op.get_attr(a.name))
    return out


def has_random(name):
    r = _has_random.get(name)
    if r is None:
        _has_random[name] = False
        r = False
        for o in graph_of(name)[1]:
            if o.type in RANDOM or o.type in RANDOM_BAD:
                r = True
                break
            if any(has_random(f) for f in func_names(o)):
                r = True
                break
        _has_random[name] = r
    return r


def attrs_of(op):
    d = {}
    for a in op.op_def.attr:
        try:
            d[a.name] = op.get_attr(a.name)
        except ValueError:
            pass
    return d


def is_symv(v):
    return isinstance(v, (SA, TL))


class TL(object):
    """A TensorList (tf.TensorArray, tf.map_fn, ... inside a graph): a Python list of elements."""

    def __init__(self, items, edt, shape):
        self.items, self.edt, self.shape_hint = list(items), edt, shape
        self.dtype = dtypes.variant

    def get(self, i):
        if self.items[i] is None:
            if self.shape_hint is None:
                raise Unsupported("element of a tensor list that was never set")
            return SA(zeros_of(self.shape_hint, self.edt), self.edt)
        return self.items[i]


def hint(v):
    a = np.asarray(conc(v)).reshape(-1)
    return None if a.size and (a < 0).any() else tuple(int(x) for x in a)


def stacked(items, edt):
    cs = [cells(x) for x in items]
    if any(c.shape != cs[0].shape for c in cs):
        raise Unsupported("tensor list of mixed shapes")
    out = np.empty((len(cs),) + (cs[0].shape if cs else ()), dtype=object)
    for i, c in enumerate(cs):
        out[i] = c if c.ndim else c[()]
    return SA(out, edt)


def do_list(op, ins, attrs, outd):
    """TensorList operations; handles that came from concrete kernels are not seen here."""
    def edt():
        return tf.as_dtype(attrs['element_dtype'])
    if op in ('TensorListReserve', 'EmptyTensorList'):
        n = int(conc(ins[1])) if op == 'TensorListReserve' else 0
        return [TL([None] * n, edt(), hint(ins[0]))]
    if op == 'TensorListFromTensor':
        c = cells(ins[0])
        return [TL([SA(np.asarray(c[i], dtype=object) if c.ndim > 1 else obj_array([c[i]], ()), edt()) for i in range(c.shape[0])], edt(), c.shape[1:])]
    h = ins[0]
    if not isinstance(h, TL):
        raise Unsupported("tensor list operation on an opaque list")
    if op == 'TensorListLength':
        return [tf.constant(len(h.items), dtype=outd[0])]
    if op == 'TensorListGetItem':
        return [h.get(int(conc(ins[1])))]
    if op == 'TensorListSetItem':
        i = int(conc(ins[1]))
        it = list(h.items)
        if i >= len(it) and attrs.get('resize_if_index_out_of_bounds'):
            it += [None] * (i + 1 - len(it))
        it[i] = ins[2]
        return [TL(it, h.edt, h.shape_hint)]
    if op == 'TensorListPushBack':
        return [TL(h.items + [ins[1]], h.edt, h.shape_hint)]
    if op == 'TensorListPopBack':
        return [TL(h.items[:-1], h.edt, h.shape_hint), h.get(len(h.items) - 1)]
    if op == 'TensorListResize':
        n = int(conc(ins[1]))
        return [TL((h.items + [None] * n)[:n], h.edt, h.shape_hint)]
    if op == 'TensorListStack':
        return [stacked([h.get(i) for i in range(len(h.items))], h.edt)]
    if op == 'TensorListGather':
        return [stacked([h.get(int(i)) for i in np.asarray(conc(ins[1])).reshape(-1)], h.edt)]
    if op in ('TensorListConcat', 'TensorListConcatV2'):
        cs = [cells(h.get(i)) for i in range(len(h.items))]
        return [SA(np.concatenate(cs, axis=0), h.edt), tf.constant([c.shape[0] for c in cs], dtype=outd[1])]
    raise Unsupported(op)


def interpret(name, args):
    """Execute a FunctionDef on a mixture of concrete tensors and symbolic values."""
    g, order, fd = graph_of(name)
    orig = fd.attr['_original_func_name'].s.decode() if '_original_func_name' in fd.attr else name
    STATS['functions'][name] = STATS['functions'].get(name, 0) + 1
    vals = {}
    for t, v in zip(g.inputs, args):
        vals[t.name] = v
    innames = set(t.op.name for t in g.inputs)
    for o in order:
        if o.name in innames:
            continue
        ins = [vals[t.name] for t in o.inputs]
        outs = step(o, ins)
        if len(outs) < len(o.outputs):
            raise Unsupported("op %s: %d outputs" % (o.type, len(outs)))
        for t, v in zip(o.outputs, outs):
            vals[t.name] = v
    return [vals[t.name] for t in g.outputs]


def step(o, ins):
    op = o.type
    outd = [t.dtype for t in o.outputs]
    if op == 'Const':
        a = tensor_util.MakeNdarray(o.get_attr('value'))
        sh = tagged(a) if a.dtype.kind in 'fc' else None
        if sh is not None:
            return [SA(sh, outd[0])]
        BUSY[0] += 1
        try:
            return [tf.constant(a, dtype=outd[0])]
        finally:
            BUSY[0] -= 1
    if op in ('PartitionedCall', 'StatefulPartitionedCall'):
        f = o.get_attr('f').name
        if any(map(is_symv, ins)) or has_random(f) or touches_res(ins):
            return interpret(f, ins)
        return exec_call(f, ins, len(outd))
    if op in ('If', 'StatelessIf'):
        return do_if(o, ins, outd)
    if op in ('While', 'StatelessWhile'):
        return do_while(o, ins)
    if op in ('Case', 'StatelessCase'):
        return do_case(o, ins, outd)
    if op.startswith('TensorList') or op == 'EmptyTensorList':
        return do_list(op, ins, attrs_of(o), outd)
    if op in ('PyFunc', 'PyFuncStateless', 'EagerPyFunc'):
        if op == 'EagerPyFunc' and any(map(is_symv, ins)):
            raise Unsupported("py_function on symbolic values")
        tok = o.get_attr('token')
        tok = tok.decode() if isinstance(tok, bytes) else tok
        if any(map(is_symv, ins)) or is_uf(tok):
            return do_pyfunc(tok, ins, outd)
        return exec_op(op, ins, attrs_of(o), len(outd))
    if op in RANDOM:
        return do_random(op, ins, outd)
    if op in RANDOM_BAD:
        raise Unsupported("random op " + op)
    if op == 'ReadVariableOp':
        r = RES.get(id(ins[0]))
        if r is not None:
            return [r[1]]
        return exec_op(op, ins, attrs_of(o), 1)
    if op == 'AssignVariableOp':
        do_assign(ins[0], ins[1])
        return []
    if op in ('AssignAddVariableOp', 'AssignSubVariableOp'):
        do_assign_add(ins, op)
        return []
    if op in ('NoOp', 'Assert'):
        return []
    if op == 'Placeholder':
        raise Unsupported("unbound placeholder")
    if op.startswith('__inference') or op in _user_funcs():
        return interpret(op, ins)
    if not any(map(is_symv, ins)):
        if func_names(o):
            raise Unsupported("higher-order op " + op)
        return exec_op(op, ins, attrs_of(o), len(outd))
    return apply_kernel(op, ins, attrs_of(o), outd)


def _user_funcs():
    return ()


def touches_res(ins):
    return any((not isinstance(v, (SA, TL))) and v.dtype == dtypes.resource and id(v) in RES for v in ins)


def exec_call(f, ins, nout):
    BUSY[0] += 1
    try:
        r = execute.quick_execute(f, nout, list(ins), (), context.context())
        return list(r) if isinstance(r, (list, tuple)) else ([] if r is None else [r])
    finally:
        BUSY[0] -= 1


def merge(cond, x, y, d):
    if x is y:
        return x
    if isinstance(x, TL) and isinstance(y, TL) and len(x.items) == len(y.items):
        return TL([p if p is q else merge(cond, x.get(i), y.get(i), x.edt) for i, (p, q) in enumerate(zip(x.items, y.items))], x.edt, x.shape_hint)
    if isinstance(x, TL) or isinstance(y, TL) or (not isinstance(x, SA) and x.dtype == dtypes.resource):
        raise Unsupported("conditional resource")
    cx, cy = cells(x), cells(y)
    if cx.shape != cy.shape:
        raise Unsupported("branches of different shape")
    return SA(vec(lambda p, q: E.ite(cond, p, q), cx, cy), d)


def do_case(o, ins, outd):
    bs = [f.name for f in o.get_attr('branches')]
    c, rest = ins[0], ins[1:]
    if not isinstance(c, SA) or S.is_const_cells(c.sh):
        i = int(np.asarray(conc(c)).reshape(-1)[0])
        return interpret(bs[i if 0 <= i < len(bs) else -1], rest)
    i = c.sh.reshape(-1)[0]
    out = interpret(bs[-1], rest)
    for k in range(len(bs) - 2, -1, -1):
        out = [merge(E.eq(i, E.const(k)), x, y, d) for x, y, d in zip(interpret(bs[k], rest), out, outd)]
    return out


def do_if(o, ins, outd):
    c = ins[0]
    t, e = o.get_attr('then_branch').name, o.get_attr('else_branch').name
    rest = ins[1:]
    if not isinstance(c, SA) or S.is_const_cells(c.sh):
        b = bool(np.asarray(conc(c)))
        return interpret(t if b else e, rest)
    cond = E.boolean(c.sh.reshape(-1)[0])
    a = interpret(t, rest)
    b = interpret(e, rest)
    return [merge(cond, x, y, d) for x, y, d in zip(a, b, outd)]


def do_while(o, ins):
    cf, bf = o.get_attr('cond').name, o.get_attr('body').name
    vals = list(ins)
    for _ in range(2000):
        c = interpret(cf, vals)[0]
        if isinstance(c, SA) and not S.is_const_cells(c.sh):
            raise Unsupported("loop with a symbolic trip count")
        if not bool(np.asarray(conc(c)).reshape(-1)[0]):
            return vals
        vals = interpret(bf, vals)
    raise Unsupported("loop bound exceeded")


def to_np(v):
    if isinstance(v, SA):
        d = dummy_array(v)
        return SymNd(d, v.sh)
    return SymNd(np.array(raw(v)))


def dummy_array(v):
    """Concrete data for a symbolic value met in the middle of a graph: evaluated at the dummy point."""
    out = np.empty(v.sh.shape, dtype=v.dtype.as_numpy_dtype)
    nodes = [n for c in v.sh.reshape(-1) for n in E.flat(c)]
    val = E.evaluate(nodes, DUMMY, S_UF[0])
    for i in np.ndindex(*v.sh.shape):
        c = v.sh[i]
        out[i] = complex(val[c.re.id], val[c.im.id]) if isinstance(c, Cx) else val[c.id]
    return out


class _Dummy(dict):
    def __missing__(self, k):
        import random
        v = random.Random(str(k)).uniform(0.05, 0.95)
        self[k] = v
        return v


DUMMY = _Dummy()


def py_fn(tok):
    tok = tok.decode() if isinstance(tok, bytes) else tok
    fn = script_ops._py_funcs._funcs[tok]
    return fn() if type(fn).__name__ == 'ReferenceType' else fn


def is_uf(tok):
    fn = py_fn(tok)
    while fn is not None:
        if getattr(fn, '_uf', False):
            return True
        fn = getattr(fn, '__wrapped__', None)
    return False


def do_pyfunc(tok, ins, outd):
    fn = py_fn(tok)
    BUSY[0] += 1
    old = S.PATH.conds
    try:
        r = fn(*[to_np(v) for v in ins])
    finally:
        BUSY[0] -= 1
    rs = r if isinstance(r, (list, tuple)) else [r]
    out = []
    for x, d in zip(rs, outd):
        if S.is_sym(x):
            dd = np.asarray(S.data_of(x)).dtype
            if tf.as_dtype(dd) != d:
                raise Unsupported("py function returned %s instead of %s" % (dd, d.name))
            out.append(SA(S.cells_of(x), d))
        else:
            out.append(tf.constant(np.asarray(S.data_of(x)), dtype=d))
    return out


def do_random(op, ins, outd):
    shape = tuple(int(x) for x in np.asarray(conc(ins[0])).reshape(-1))
    return [SA(S.Fresh.draw(shape, dtstr(outd[0]), None), outd[0])]


def do_assign(h, v):
    if isinstance(v, SA):
        RES[id(h)] = (h, v)
    else:
        RES.pop(id(h), None)


def do_assign_add(ins, op):
    h, v = ins
    r = RES.get(id(h))
    if r is None and not isinstance(v, SA):
        return
    if r is None:
        raise Unsupported("assign_add to a concrete variable")
    f = E.add if op == 'AssignAddVariableOp' else E.sub
    RES[id(h)] = (h, SA(vec(f, r[1].sh, cells(v)), r[1].dtype))


# ----------------------------------------------------------------------------- eager callback

ERRORS = []


def callback(op_type, inputs, attrs, outputs, op_name=None, graph=None):
    if graph is not None or BUSY[0]:
        return None
    op = op_type.decode() if isinstance(op_type, bytes) else op_type
    BUSY[0] += 1
    try:
        _callback(op, inputs, attrs, outputs)
    except Unsupported as e:
        ERRORS.append(e)
        raise
    finally:
        BUSY[0] -= 1
    return None


def _callback(op, inputs, attrs, outputs):
    outputs = list(outputs) if outputs is not None else []
    if op == 'AssignVariableOp':
        do_assign(inputs[0], shadow(inputs[1]) or inputs[1])
        return
    if op in ('AssignAddVariableOp', 'AssignSubVariableOp'):
        do_assign_add([inputs[0], shadow(inputs[1]) or inputs[1]], op)
        return
    if op == 'ReadVariableOp':
        r = RES.get(id(inputs[0]))
        if r is not None:
            register(outputs[0], r[1])
        return
    if op in ('VarHandleOp', 'VarIsInitializedOp', 'DestroyResourceOp', 'AnonymousIterator', 'Const'):
        return
    if op in RANDOM:
        register(outputs[0], do_random(op, [x for x in inputs], [outputs[0].dtype])[0])
        return
    if op in RANDOM_BAD:
        raise Unsupported("random op " + op)
    ins = []
    anysym = False
    for t in inputs:
        if t.dtype == dtypes.resource:
            ins.append(t)
            if id(t) in RES:
                anysym = True
            continue
        s = shadow(t)
        if s is not None:
            anysym = True
            ins.append(s)
        else:
            ins.append(t)
    isf = op.startswith('__')
    if isf:
        if anysym or has_random(op):
            outs = interpret(op, ins)
        else:
            # a function without symbolic inputs may still contain baked-in symbolic constants
            outs = interpret(op, ins) if baked(op) else None
            if outs is None:
                return
    else:
        if not anysym and not (op in ('PyFunc', 'PyFuncStateless') and attrs and is_uf(dict(zip(attrs[::2], attrs[1::2])).get('token', b''))):
            return
        at = {}
        for i in range(0, len(attrs or ()), 2):
            k = attrs[i]
            k = k.decode() if isinstance(k, bytes) else k
            v = attrs[i + 1]
            at[k] = v
        for a in _opdef(op).attr:
            if a.type == 'type' and a.name in at and isinstance(at[a.name], int):
                at[a.name] = tf.as_dtype(at[a.name])
        if op in ('PyFunc', 'EagerPyFunc', 'PyFuncStateless'):
            tok = at['token']
            outs = do_pyfunc(tok.decode() if isinstance(tok, bytes) else tok, ins, [t.dtype for t in outputs])
        else:
            outs = apply_kernel(op, ins, at, [t.dtype for t in outputs])
    for t, v in zip(outputs, outs):
        if isinstance(v, SA):
            if tuple(t.shape.as_list()) != v.sh.shape:
                raise Unsupported("shape mismatch in %s: %s / %s" % (op, t.shape, v.sh.shape))
            register(t, v)


_baked = {}


def baked(name):
    """Does the function (or one it calls) contain constants tagged as symbolic values, or PyFuncs that may?"""
    key = name
    r = _baked.get(key)
    if r:
        return r
    r = False
    for o in graph_of(name)[1]:
        if o.type == 'Const':
            a = tensor_util.MakeNdarray(o.get_attr('value'))
            if a.dtype.kind in 'fc' and tagged(a) is not None:
                r = True
                break
        if o.type in ('PyFunc', 'PyFuncStateless') and is_uf(o.get_attr('token')):
            r = True
            break
        if any(baked(f) for f in func_names(o)):
            r = True
            break
    _baked[key] = r
    return r


# ----------------------------------------------------------------------------- installation

_orig_ctet = None


def install():
    global _orig_numpy, _orig_ctet
    base = EagerTensor.__mro__[1]
    cls = [c for c in EagerTensor.__mro__ if 'numpy' in c.__dict__][0]
    _orig_numpy = cls.__dict__['numpy']

    def numpy_(self):
        r = _orig_numpy(self)
        if BUSY[0]:
            return r
        sa = None
        if self.dtype != dtypes.resource:
            e = REG.get(id(self))
            sa = e[1] if e is not None else None
        if sa is None:
            return r
        return S.result(np.array(r), sa.sh) if np.ndim(r) else S.wrap_scalar(np.asarray(r)[()], sa.sh.reshape(-1)[0])
    cls.numpy = numpy_
    bcls = [c for c in EagerTensor.__mro__ if '__bool__' in c.__dict__][0]
    _ob = bcls.__dict__['__bool__']

    def bool_(self):
        e = REG.get(id(self)) if not BUSY[0] else None
        if e is not None and e[1] is not None:
            return S.PATH.decide(E.boolean(e[1].sh.reshape(-1)[0]), bool(_orig_numpy(self)))
        return _ob(self)
    bcls.__bool__ = bool_
    bcls.__nonzero__ = bool_
    fcls = [c for c in EagerTensor.__mro__ if '__float__' in c.__dict__][0]

    _orig_ctet = constant_op.convert_to_eager_tensor

    def ctet(value, ctx, dtype=None):
        if BUSY[0] or not S.is_sym(value) or isinstance(value, (tf.Tensor, tf.Variable)):
            if isinstance(value, SymNd):
                value = value.view(np.ndarray)
            return _orig_ctet(value, ctx, dtype)
        d = S.deep_plain(S.data_of(value)) if not isinstance(value, (list, tuple)) else np.array(S.data_of(value))
        t = _orig_ctet(d, ctx, dtype)
        sh = S.cells_of(value)
        if t.dtype.is_complex:
            sh = vec(lambda c: E.cast(c, 'complex', dtstr(t.dtype)), sh)
        elif t.dtype.is_floating:
            sh = vec(lambda c: E.cast(c, 'float', dtstr(t.dtype)), sh)
        register(t, SA(sh, t.dtype))
        return t
    constant_op.convert_to_eager_tensor = ctet
    _orig_mtp = tensor_util.make_tensor_proto

    def mtp(values, *a, **kw):
        # a symbolic number that becomes a constant of a traced graph is recognized there by its value; one whose value is not
        # distinctive fixes the path to this value
        if isinstance(values, (S.SymFloat, S.SymInt)) and not BUSY[0] and not generic(float(values._plain())):
            S.PATH.decide(E.eq(values._cell, values._plain()), True)
        return _orig_mtp(values, *a, **kw)
    tensor_util.make_tensor_proto = mtp
    import tensorflow.python.framework.tensor_conversion_registry as tcr
    op_callbacks.add_op_callback(callback)
