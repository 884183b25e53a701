"""Laguerre-Gaussian profiles."""
BOUNDS = ("|l| <= 4, p <= 3 (quick) / |l| <= 6, p <= 5 (thorough), further |l| <= 8 (12) with p <= 1 and p <= 7 (10) with |l| <= 1; positions (centre included), centre, amplitude and width symbolic reals, w > 0; "
          "32 and 64 bit")
FUNCTIONS = ["profile.LaguerreGaussian.__init__", "profile.LaguerreGaussian._func", "profile.FunctionProfile.__call__"]


def laguerre(A, p, k, x):
    """Generalized Laguerre polynomial by its three-term recurrence."""
    a, b = A.num(1), A.num(1 + k) - x
    if p == 0:
        return a
    for n in range(1, p):
        a, b = b, ((2 * n + 1 + k - x) * b - (n + k) * a) * A.frac(1, n + 1)
    return b


def reference(A, l, p, x, y, X0, Y0, AM, W):
    u, v = (x - X0), (y - Y0)
    r2 = u * u + v * v
    s2 = A.sqrt(A.num(2))
    # r^|l| exp(-i l phi) = (u -+ i v)^|l|
    z = A.cx(u, -v if l > 0 else v)
    f = A.cx(1, 0)
    for _ in range(abs(l)):
        f = f * z * (s2 / W)
    return f * (AM * A.exp(-(r2 / (W * W))) * laguerre(A, p, abs(l), 2 * r2 / (W * W)))


def case(l, p):
    def fn(A):
        from pySLM2 import LaguerreGaussian
        x0, y0, a = A.real('x0', -1, 1), A.real('y0', -1, 1), A.real('a')
        w = A.real('w', pos=True)
        xs, ys = A.reals('x', (2,), -1, 1), A.reals('y', (2,), -1, 1)
        q = LaguerreGaussian(x0, y0, a, w, l=l, p=p)
        out = q(xs, ys)
        A.check('complex', out.dtype == A.np_cdtype, out.dtype)
        X, Y, c = A.cells(xs), A.cells(ys), [A.c(v) for v in (x0, y0, a, w)]
        A.eq('LG', out, A.map(lambda x, y: reference(A, l, p, x, y, *c), X, Y))
        # the centre itself
        out = q(x0, y0)
        A.eq('centre', out, reference(A, l, p, c[0], c[1], *c))
        if l:
            other = LaguerreGaussian(x0, y0, a, w, l=-l, p=p)(xs, ys)
            A.eq('conjugate', other, A.map(A.conj, A.cells(q(xs, ys))))
    return fn


def defaults(A):
    from pySLM2 import LaguerreGaussian
    x0, y0, a, w = A.real('x0', -1, 1), A.real('y0', -1, 1), A.real('a'), A.real('w', pos=True)
    x, y = A.reals('x', (2, 2), -1, 1), A.reals('y', (2, 2), -1, 1)
    c = [A.c(v) for v in (x0, y0, a, w)]
    A.eq('default orders', LaguerreGaussian(x0, y0, a, w)(x, y), A.map(lambda u, v: reference(A, 0, 0, u, v, *c), A.cells(x), A.cells(y)))


def cases(tier):
    L, P, LH, PH = (4, 3, 8, 7) if tier == 'quick' else (6, 5, 12, 10)
    out = [dict(name='defaults', fn=defaults, cost=0.3)]
    for l in range(-LH, LH + 1):
        for p in range(PH + 1):
            if (abs(l) > L and p > 1) or (p > P and abs(l) > 1):
                continue
            out.append(dict(name='LG_%d_%d' % (l, p), fn=case(l, p), cost=0.5 + 0.2 * abs(l) + 0.1 * p))
    return out
