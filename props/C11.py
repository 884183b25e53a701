"""Geometric transforms."""
BOUNDS = ("the profile is an uninterpreted real or complex function, so the statements hold for any profile; symbolic points, angle, shifts and "
          "scale factors (positive and negative); all ordered pairs of transforms (quick), all ordered triples (thorough), and inverse pairs; 32 and 64 bit")
FUNCTIONS = ["profile.FunctionProfile.rotate", "profile.FunctionProfile.shift", "profile.FunctionProfile.rescale_x", "profile.FunctionProfile.rescale_y",
             "profile.FunctionProfile.as_complex_profile", "profile.FunctionProfile.__call__"]
KINDS = ('shift', 'rotate', 'rescale_x', 'rescale_y')


def pts(A, shape=(2,)):
    x, y = A.reals('x', shape, -1, 1), A.reals('y', shape, -1, 1)
    return x, y, A.cells(x), A.cells(y)


class T(object):
    """A transform with fresh symbolic parameters: apply to a profile, and the map of coordinates it must perform."""

    def __init__(self, A, kind, tag):
        self.kind = kind
        self.A = A
        if kind == 'shift':
            self.par = (A.real('dx' + tag, -1, 1), A.real('dy' + tag, -1, 1))
        elif kind == 'rotate':
            self.par = (A.real('t' + tag, -3, 3),)
        else:
            self.par = (A.real('m' + tag, 0.5, 2, pos=True),)
        self.c = [A.c(v) for v in self.par]

    def apply(self, p, inverse=False):
        k = self.par
        if inverse:
            k = tuple(-v for v in k) if self.kind in ('shift', 'rotate') else tuple(1.0 / v for v in k)
        return getattr(p, self.kind)(*k)

    def coords(self, x, y):
        A, c = self.A, self.c
        if self.kind == 'shift':
            return x - c[0], y - c[1]
        if self.kind == 'rotate':
            return x * A.cos(c[0]) - y * A.sin(c[0]), x * A.sin(c[0]) + y * A.cos(c[0])
        if self.kind == 'rescale_x':
            return x / c[0], y
        return x, y / c[0]


def single(kind, cplx):
    def fn(A):
        p = A.profile('p', cplx=cplx)
        t = T(A, kind, '')
        for shape in ((2,), (2, 2)):
            x, y, X, Y = pts(A, shape)
            q = t.apply(p)
            out = q(x, y)
            A.check('dtype', out.dtype == (A.np_cdtype if cplx else A.np_dtype), out.dtype)
            A.eq(kind, out, A.map(lambda u, v: A.fcells('p', *t.coords(u, v), cplx=cplx), X, Y))
            A.eq('original', p(x, y), A.map(lambda u, v: A.fcells('p', u, v, cplx=cplx), X, Y))
        x, y = A.real('sx', -1, 1), A.real('sy', -1, 1)
        A.eq(kind + ' scalar', q(x, y), A.fcells('p', *t.coords(A.c(x), A.c(y)), cplx=cplx))
        if kind.startswith('rescale'):
            n = -t.par[0]
            x, y, X, Y = pts(A)
            f = (lambda u, v: (-(u / t.c[0]), v)) if kind == 'rescale_x' else (lambda u, v: (u, -(v / t.c[0])))
            A.eq('mirrored', getattr(p, kind)(n)(x, y), A.map(lambda u, v: A.fcells('p', *f(u, v), cplx=cplx), X, Y))
    return fn


def chain(kinds):
    def fn(A):
        p = A.profile('p')
        ts = [T(A, k, str(i)) for i, k in enumerate(kinds)]
        x, y, X, Y = pts(A, (1,))
        q = p
        for t in ts:
            q = t.apply(q)

        def ref(u, v):
            for t in reversed(ts):
                u, v = t.coords(u, v)
            return A.fcells('p', u, v)
        A.eq('-'.join(kinds), q(x, y), A.map(ref, X, Y))
        # undone in the opposite order
        for t in reversed(ts):
            q = t.apply(q, inverse=True)
        A.eq('undone', q(x, y), A.map(lambda u, v: A.fcells('p', u, v), X, Y))
    return fn


def phase(A):
    p = A.profile('p')
    x, y, X, Y = pts(A)
    e = p.as_complex_profile()
    out = e(x, y)
    A.check('dtype', out.dtype == A.np_cdtype, out.dtype)
    A.eq('exp(ip)', out, A.map(lambda u, v: A.expi(A.fcells('p', u, v)), X, Y))
    A.eq('unit modulus', A.map(A.abs2, A.cells(out)), A.map(lambda u: A.num(1), X))
    t = T(A, 'shift', '')
    A.eq('shifted field', t.apply(e)(x, y), A.map(lambda u, v: A.expi(A.fcells('p', *t.coords(u, v))), X, Y))
    A.eq('field of shifted phase', t.apply(p).as_complex_profile()(x, y), A.map(lambda u, v: A.expi(A.fcells('p', *t.coords(u, v))), X, Y))
    A.eq('opposite phases', ((-p).as_complex_profile() * e)(x, y), A.map(lambda u: A.num(1), X))
    A.eq('original', p(x, y), A.map(lambda u, v: A.fcells('p', u, v), X, Y))


def whole(A):
    """Integer and numpy parameters."""
    p = A.profile('p')
    x, y, X, Y = pts(A, (1,))
    f = lambda u, v: A.fcells('p', u, v)
    A.eq('shift', p.shift(1, -2)(x, y), A.map(lambda u, v: f(u - 1, v + 2), X, Y))
    A.eq('rescale', p.rescale_x(2).rescale_y(4)(x, y), A.map(lambda u, v: f(u * A.frac(1, 2), v * A.frac(1, 4)), X, Y))
    A.eq('rotate by zero', p.rotate(0)(x, y), A.map(f, X, Y))
    A.eq('rotate by a quarter turn', p.rotate(A.pif / 2)(x, y), A.map(lambda u, v: f(-v, u), X, Y))
    A.eq('rotate by half a turn', p.rotate(A.pif)(x, y), A.map(lambda u, v: f(-u, -v), X, Y))


def mixed(A):
    """Transforms of derived profiles and derived profiles of transforms."""
    p, q = A.profile('p'), A.profile('q', cplx=True)
    x, y, X, Y = pts(A, (1,))
    a, b = T(A, 'rotate', 'a'), T(A, 'shift', 'b')
    f = lambda u, v: A.fcells('p', u, v)
    g = lambda u, v: A.fcells('q', u, v, cplx=True)
    A.eq('rotated product', a.apply(p * q)(x, y), A.map(lambda u, v: f(*a.coords(u, v)) * g(*a.coords(u, v)), X, Y))
    A.eq('sum of transforms', (a.apply(p) + b.apply(q))(x, y), A.map(lambda u, v: f(*a.coords(u, v)) + g(*b.coords(u, v)), X, Y))
    A.eq('shift of both', b.apply(a.apply(p) - p)(x, y), A.map(lambda u, v: f(*a.coords(*b.coords(u, v))) - f(*b.coords(u, v)), X, Y))


def cases(tier):
    out = [dict(name='phase', fn=phase, cost=0.5), dict(name='whole', fn=whole, cost=0.5), dict(name='mixed', fn=mixed, cost=0.6)]
    for k in KINDS:
        for c in (False, True):
            out.append(dict(name='%s_%s' % (k, 'complex' if c else 'real'), fn=single(k, c), cost=0.4))
    for a in KINDS:
        for b in KINDS:
            out.append(dict(name='%s_%s' % (a, b), fn=chain((a, b)), cost=0.4))
            if tier != 'quick':
                for c in KINDS:
                    out.append(dict(name='%s_%s_%s' % (a, b, c), fn=chain((a, b, c)), cost=0.8))
    return out
