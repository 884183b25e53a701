"""Profile arithmetic."""
BOUNDS = ("operands are uninterpreted real or complex functions of the coordinates, so the statements hold for any two profiles; numbers are symbolic "
          "reals or complex numbers (integers 2, -1, 3, 0); powers -2..4 (quick) / -4..8 (thorough) exactly, 0.5 and any real exponent of "
          "a real profile; two symbolic points, scalar, vector or matrix coordinates; expressions nested up to 4 operators, augmented assignment; 32 and 64 bit")
FUNCTIONS = ["profile.FunctionProfile._make_attribute_func", "profile.FunctionProfile.__add__/__radd__/__sub__/__mul__/__rmul__/__truediv__/__pow__/__neg__",
             "profile.ConstantProfile._func", "profile.FunctionProfile.__call__"]
OUTSIDE = "division by zero and powers of zero or of negative numbers where the operation itself is undefined"


def pts(A, shape=(2,)):
    x, y = A.reals('x', shape, -1, 1), A.reals('y', shape, -1, 1)
    return x, y, A.cells(x), A.cells(y)


def val(A, name, cplx):
    return lambda x, y: A.fcells(name, x, y, cplx=cplx)


OPS = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / b}


def is_dtype(A, out, cplx, label):
    A.check(label + ' dtype', out.dtype == (A.np_cdtype if cplx else A.np_dtype), out.dtype)


def pair(op, c1, c2):
    def fn(A):
        p, q = A.profile('p', cplx=c1), A.profile('q', cplx=c2)
        x, y, X, Y = pts(A)
        f, g = val(A, 'p', c1), val(A, 'q', c2)
        r = OPS[op](p, q)
        out = r(x, y)
        is_dtype(A, out, c1 or c2, op)
        A.eq(op, out, A.map(lambda u, v: OPS[op](f(u, v), g(u, v)), X, Y), defined=False)
        # the operands are what they were
        A.eq('left operand', p(x, y), A.map(f, X, Y))
        A.eq('right operand', q(x, y), A.map(g, X, Y))
        A.eq('again', r(x, y), A.map(lambda u, v: OPS[op](f(u, v), g(u, v)), X, Y), defined=False)
        s = OPS[op](p, p)
        A.eq('with itself', s(x, y), A.map(lambda u, v: OPS[op](f(u, v), f(u, v)), X, Y), defined=False)
    return fn


def number(kind, c1):
    def fn(A):
        p = A.profile('p', cplx=c1)
        f = val(A, 'p', c1)
        x, y, X, Y = pts(A)
        if kind == 'float':
            cs = [A.real('c', 0.2, 2, pos=True), -A.real('c', 0.2, 2, pos=True)]
        elif kind == 'complex':
            cs = [A.cplx('c')]
        else:
            cs = [2, -1, 3]
        isc = c1 or kind == 'complex'
        for k, c in enumerate(cs):
            C = A.c(c)
            for op in OPS:
                out = OPS[op](p, c)(x, y)
                is_dtype(A, out, isc, '%s %d' % (op, k))
                A.eq('p %s c%d' % (op, k), out, A.map(lambda u, v: OPS[op](f(u, v), C), X, Y), defined=False)
            for op in ('add', 'mul'):
                out = OPS[op](c, p)(x, y)
                is_dtype(A, out, isc, '%s %d reversed' % (op, k))
                A.eq('c%d %s p' % (k, op), out, A.map(lambda u, v: OPS[op](C, f(u, v)), X, Y), defined=False)
        A.eq('plus zero', (p + 0)(x, y), A.map(f, X, Y))
        A.eq('zero plus', (0 + p)(x, y), A.map(f, X, Y))
        A.eq('operand', p(x, y), A.map(f, X, Y))
    return fn


def negate(c1):
    def fn(A):
        p = A.profile('p', cplx=c1)
        f = val(A, 'p', c1)
        for shape in ((2,), (2, 2)):
            x, y, X, Y = pts(A, shape)
            out = (-p)(x, y)
            is_dtype(A, out, c1, 'neg')
            A.eq('-p', out, A.map(lambda u, v: -f(u, v), X, Y))
            A.eq('--p', (-(-p))(x, y), A.map(f, X, Y))
            A.eq('p', p(x, y), A.map(f, X, Y))
        x, y = A.real('sx', -1, 1), A.real('sy', -1, 1)
        A.eq('scalar', (-p)(x, y), -f(A.c(x), A.c(y)))
    return fn


def power(c1, ks):
    def fn(A):
        p = A.profile('p', cplx=c1)
        f = val(A, 'p', c1)
        x, y, X, Y = pts(A, (1,))
        for k in ks:
            def ref(u, v):
                t = A.num(1)
                for _ in range(abs(k)):
                    t = t * f(u, v)
                return t if k >= 0 else A.num(1) / t
            for kk in ((k, float(k)) if k >= 0 or not c1 else (float(k),)):
                if isinstance(kk, int) and kk < 0:
                    continue
                out = (p ** kk)(x, y)
                A.eq('p**%s' % kk, out, A.map(ref, X, Y), defined=False, tol=(1e-2 if A.bits == 32 else 1e-5))
        A.eq('operand', p(x, y), A.map(f, X, Y))
    return fn


def real_power(A):
    p = A.profile('p')
    sq = p * p + 0.5
    x, y, X, Y = pts(A, (1,))
    f = val(A, 'p', False)
    b = lambda u, v: f(u, v) * f(u, v) + A.frac(1, 2)
    A.eq('square root', (sq ** 0.5)(x, y), A.map(lambda u, v: A.sqrt(b(u, v)), X, Y))
    k = A.real('k', 0.3, 2.5)
    A.eq('any exponent', (sq ** k)(x, y), A.map(lambda u, v: A.pow(b(u, v), A.c(k)), X, Y))
    A.eq('operand', sq(x, y), A.map(b, X, Y))


def nested(A):
    """Operators nest: a derived profile is an operand like any other."""
    p, q, r = A.profile('p'), A.profile('q', cplx=True), A.profile('r')
    f, g, h = val(A, 'p', False), val(A, 'q', True), val(A, 'r', False)
    c, z = A.real('c', 0.5, 2, pos=True), A.cplx('z')
    C, Z = A.c(c), A.c(z)
    x, y, X, Y = pts(A, (1, 2))
    s = p + c
    t = s * q
    u = t - r
    w = u * s
    A.eq('s', s(x, y), A.map(lambda a, b: f(a, b) + C, X, Y))
    A.eq('t', t(x, y), A.map(lambda a, b: (f(a, b) + C) * g(a, b), X, Y))
    A.eq('w', w(x, y), A.map(lambda a, b: ((f(a, b) + C) * g(a, b) - h(a, b)) * (f(a, b) + C), X, Y))
    A.eq('s again', s(x, y), A.map(lambda a, b: f(a, b) + C, X, Y))
    A.eq('sum', (c * p + z * r + q / c)(x, y), A.map(lambda a, b: C * f(a, b) + Z * h(a, b) + g(a, b) / C, X, Y))
    A.eq('difference', ((p - r) ** 2 - (r - p) * (r - p))(x, y), A.map(lambda a, b: A.num(0), X, Y), scale=1.0)
    A.eq('real minus complex', (r - q)(x, y), A.map(lambda a, b: h(a, b) - g(a, b), X, Y))
    A.eq('complex minus number', (q - z)(x, y), A.map(lambda a, b: g(a, b) - Z, X, Y))
    A.eq('p', p(x, y), A.map(f, X, Y))


def accumulate(A):
    """A profile built up in a loop from one object."""
    p, q = A.profile('p'), A.profile('q', cplx=True)
    f, g = val(A, 'p', False), val(A, 'q', True)
    x, y, X, Y = pts(A, (1,))
    s = p
    olds = []
    for k in range(3):
        olds.append(s)
        s = s + q if k == 1 else s + p
    A.eq('accumulated', s(x, y), A.map(lambda a, b: 3 * f(a, b) + g(a, b), X, Y))
    A.eq('first', olds[0](x, y), A.map(f, X, Y))
    A.eq('second', olds[1](x, y), A.map(lambda a, b: 2 * f(a, b), X, Y))
    A.eq('third', olds[2](x, y), A.map(lambda a, b: 2 * f(a, b) + g(a, b), X, Y))
    s += p
    A.eq('in place', s(x, y), A.map(lambda a, b: 4 * f(a, b) + g(a, b), X, Y))
    A.eq('sum()', sum([p, q, p])(x, y), A.map(lambda a, b: 2 * f(a, b) + g(a, b), X, Y))


def library(A):
    """Operands of the library's own classes, their parameters untouched."""
    from pySLM2 import HermiteGaussian, LaguerreGaussian, SuperGaussian, Zernike, ConstantProfile, RectangularWindowRectangle
    w = A.real('w', pos=True)
    a = A.real('a')
    ops = dict(hg=HermiteGaussian(A.real('x0', -1, 1), 0.25, a, w, n=1), lg=LaguerreGaussian(0.0, 0.0, a, w, l=1),
               c=ConstantProfile(A.real('c')), z=Zernike(A.real('b'), 1.0, 1, 1, extrapolate=True),
               rect=RectangularWindowRectangle(0.0, 0.0, 1.0, w))
    x, y, X, Y = pts(A, (1,))
    before = {k: A.cells(v(x, y)) for k, v in ops.items()}
    names = list(ops)
    for i, m in enumerate(names):
        for n in names[i:]:
            for op in ('add', 'sub', 'mul'):
                out = A.cells(OPS[op](ops[m], ops[n])(x, y))
                A.eq('%s %s %s' % (m, op, n), out.reshape(-1)[:1], A.seq([OPS[op](before[m].reshape(-1)[0], before[n].reshape(-1)[0])]))
    for k in ops:
        A.eq('%s afterwards' % k, ops[k](x, y), before[k])
    A.eq('w', ops['hg'].w, A.c(w))
    A.eq('a', ops['hg'].a, A.c(a))


def augmented(c1, c2):
    """r = p; r *= q and the like give a new profile and leave p as it is; also with numbers."""
    def fn(A):
        import operator as O
        p, q = A.profile('p', cplx=c1), A.profile('q', cplx=c2)
        x, y, X, Y = pts(A, (1,))
        f, g = val(A, 'p', c1), val(A, 'q', c2)
        c = A.real('c', 0.2, 2, pos=True)
        C = A.c(c)
        for nm, op in (('add', O.iadd), ('sub', O.isub), ('mul', O.imul), ('div', O.itruediv)):
            for lab, other, h in (('profile', q, g), ('number', c, lambda u, v: C), ('itself', p, f)):
                r = op(p, other)
                A.eq('%s %s' % (nm, lab), r(x, y), A.map(lambda u, v: OPS[nm](f(u, v), h(u, v)), X, Y), defined=False)
                A.eq('%s %s: left operand' % (nm, lab), p(x, y), A.map(f, X, Y))
                A.eq('%s %s: right operand' % (nm, lab), q(x, y), A.map(g, X, Y))
        r = p
        r **= 3
        A.eq('power', r(x, y), A.map(lambda u, v: f(u, v) * f(u, v) * f(u, v), X, Y))
        A.eq('power: operand', p(x, y), A.map(f, X, Y))
        r = p * 2
        keep = r
        r += q                      # of a derived profile
        r *= c
        A.eq('derived', r(x, y), A.map(lambda u, v: (f(u, v) * 2 + g(u, v)) * C, X, Y))
        A.eq('derived: kept', keep(x, y), A.map(lambda u, v: f(u, v) * 2, X, Y))
        A.eq('derived: operand', p(x, y), A.map(f, X, Y))
    return fn


def cases(tier):
    out = []
    for op in OPS:
        for c1 in (False, True):
            for c2 in (False, True):
                out.append(dict(name='%s_%s_%s' % (op, 'complex' if c1 else 'real', 'complex' if c2 else 'real'), fn=pair(op, c1, c2), cost=0.6))
    for kind in ('float', 'complex', 'int'):
        for c1 in (False, True):
            out.append(dict(name='%s_number_%s' % (kind, 'complex' if c1 else 'real'), fn=number(kind, c1), cost=1.2))
    for c1 in (False, True):
        out.append(dict(name='neg_%s' % ('complex' if c1 else 'real'), fn=negate(c1), cost=0.6))
        out.append(dict(name='power_%s' % ('complex' if c1 else 'real'), fn=power(c1, range(-2, 5) if tier == 'quick' else range(-4, 9)), cost=1.0))
    for c1, c2 in ((False, False), (True, False), (False, True)):
        out.append(dict(name='augmented_%s_%s' % ('complex' if c1 else 'real', 'complex' if c2 else 'real'), fn=augmented(c1, c2), cost=1.0))
    out += [dict(name='real_power', fn=real_power, cost=0.5), dict(name='nested', fn=nested, cost=1.0), dict(name='accumulate', fn=accumulate, cost=0.8),
            dict(name='library', fn=library, cost=2.0)]
    return out
