"""Hermite-Gaussian profiles."""
import math
BOUNDS = "every pair of orders n, m <= 4 (quick) / <= 7 (thorough), and up to 10 (quick) / 16 (thorough) with the other order zero, equal, or 4 (7) away; positions, centre, amplitude and width symbolic reals, w > 0; 32 and 64 bit"
FUNCTIONS = ["profile.HermiteGaussian.__init__", "profile.HermiteGaussian._func", "profile.FunctionProfile.__call__"]


def hermite(A, n, x):
    a, b = A.num(1), 2 * x
    if n == 0:
        return a
    for k in range(1, n):
        a, b = b, 2 * x * b - 2 * k * a
    return b


def case(n, m):
    def fn(A):
        from pySLM2 import HermiteGaussian
        x0, y0, a = A.real('x0', -1, 1), A.real('y0', -1, 1), A.real('a')
        w = A.real('w', pos=True)
        xs, ys = A.reals('x', (2,), -1, 1), A.reals('y', (2,), -1, 1)
        p = HermiteGaussian(x0, y0, a, w, n=n, m=m)
        out = p(xs, ys)
        X, Y, X0, Y0, AM, W = A.cells(xs), A.cells(ys), A.c(x0), A.c(y0), A.c(a), A.c(w)
        s2 = A.sqrt(A.num(2))

        def ref(x, y):
            u, v = (x - X0) / W, (y - Y0) / W
            return AM * hermite(A, n, s2 * u) * hermite(A, m, s2 * v) * A.exp(-(u * u + v * v))
        A.eq('HG%d%d' % (n, m), out, A.map(ref, X, Y))
    return fn


def cases(tier):
    N, H = (4, 10) if tier == 'quick' else (7, 16)
    out = []
    for n in range(H + 1):
        for m in range(H + 1):
            if (n > N or m > N) and n != m and n and m and abs(n - m) != N:
                continue
            out.append(dict(name='HG_%d_%d' % (n, m), fn=case(n, m), cost=0.2))
    return out
