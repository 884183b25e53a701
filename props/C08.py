"""Zernike profiles."""
import math
BOUNDS = ("all valid index pairs with n <= 8 (quick) / n <= 12 and |m| <= 11 (thorough), and those of the smallest and largest |m| <= 11 up to n = 12; positions, coefficient and aperture radius symbolic, radius > 0; the "
          "rejection of invalid pairs for every integer pair (0 <= n <= 1000, |m| <= 2000); 32 and 64 bit")
FUNCTIONS = ["profile.Zernike.__init__", "profile.Zernike._func", "profile.FunctionProfile.__call__"]


def radial(A, n, m):
    """Coefficients of R_n^m, rho^(n-2k) -> integer."""
    m = abs(m)
    return {n - 2 * k: (-1) ** k * math.factorial(n - k) // (math.factorial(k) * math.factorial((n + m) // 2 - k) * math.factorial((n - m) // 2 - k))
            for k in range((n - m) // 2 + 1)}


def zernike(A, n, m, x, y, R, norm=True):
    """Polynomial in x and y: rho^k cos(m phi) = rho^(k-m) Re((x+iy)^m)."""
    u, v = x / R, y / R
    r2 = u * u + v * v
    am = abs(m)
    z = A.cx(1, 0)
    for _ in range(am):
        z = z * A.cx(u, v)
    ang = A.im(z) if m < 0 else A.re(z)
    t = A.num(0)
    for k, c in radial(A, n, m).items():
        f = A.num(c)
        for _ in range((k - am) // 2):
            f = f * r2
        t = t + f
    t = t * ang
    if norm:
        t = t * A.sqrt(A.num(n + 1 if m == 0 else 2 * n + 2))
    return t


def case(n, m, small):
    def fn(A):
        from pySLM2 import Zernike
        a = A.real('a')
        R = A.real('R', 0.7, 1.4, pos=True)
        k = 1 if small else 2
        xs, ys = A.reals('x', (k,), -1, 1), A.reals('y', (k,), -1, 1)
        X, Y, am, r = A.cells(xs), A.cells(ys), A.c(a), A.c(R)
        for norm in (True, False):
            full = A.map(lambda x, y: am * zernike(A, n, m, x, y, r, norm), X, Y)
            cut = A.map(lambda x, y, f: A.ite(x * x + y * y > r * r, A.num(0), f), X, Y, full)
            p = Zernike(a, R, n, m, normalize=norm, extrapolate=True)
            A.eq('extrapolated normalize=%s' % norm, p(xs, ys), full, tol=5e-3 if A.bits == 32 else None)
            p = Zernike(a, R, n, m, normalize=norm)
            A.eq('normalize=%s' % norm, p(xs, ys), cut, tol=5e-3 if A.bits == 32 else None)
            A.check('is_normalized', p.is_normalized() == norm, p.is_normalized())
        A.check('indices', p.n == n and p.m == m, (p.n, p.m))
        A.eq('coefficient', p.a, am)
        A.eq('radius', p.radius, r)
        A.eq('defaults', Zernike(a, R, n, m)(xs, ys), A.map(lambda x, y: A.ite(x * x + y * y > r * r, A.num(0), am * zernike(A, n, m, x, y, r)), X, Y),
             tol=5e-3 if A.bits == 32 else None)
    return fn


PTS = [(1.0, 0.0, True), (0.0, -1.0, True), (-0.6, 0.8, True), (1.25, 0.0, False), (0.0, 0.0, True), (-0.75, -0.75, False), (0.0, 1.5, False)]


def points(n, m):
    """Points fixed by their position relative to the aperture: the edge belongs to it."""
    def fn(A):
        from pySLM2 import Zernike
        a, R = A.real('a'), A.real('R', 0.7, 1.4, pos=True)
        p = Zernike(a, R, n, m)
        q = Zernike(a, R, n, m, extrapolate=True)
        r = A.c(R)
        for i, (u, v, inside) in enumerate(PTS):
            if i in (1, 2):
                continue        # the edge off the x axis is subject to rounding when run concretely
            x, y = R * u, R * v
            ref = A.c(a) * zernike(A, n, m, A.c(x), A.c(y), r)
            A.eq('point %d' % i, p(x, y), ref if inside else A.num(0), scale=3.0)
            A.eq('extrapolated %d' % i, q(x, y), ref, scale=3.0)
    return fn


def rejects(kind):
    def fn(A):
        from pySLM2 import Zernike
        n = A.int('n', 0, 1000)
        if kind == 'large_positive':
            m = n + A.int('k', 1, 1000)
        elif kind == 'large_negative':
            m = -n - A.int('k', 1, 1000)
        else:
            k = A.int('k', 0, 1000)
            m = n - 2 * k - 1
            A.assume(A.c(n) - A.c(k) >= 1)
        A.raises('rejected', lambda: Zernike(1.0, 1.0, n, m), ValueError)
    return fn


def small_pairs(N):
    def fn(A):
        from pySLM2 import Zernike
        for n in range(N + 1):
            for m in range(-N - 2, N + 3):
                if abs(m) <= n and (n - m) % 2 == 0:
                    z = Zernike(1.0, 1.0, n, m)
                    A.check('accepted %d %d' % (n, m), (z.n, z.m) == (n, m), (z.n, z.m))
                else:
                    A.raises('rejected %d %d' % (n, m), lambda: Zernike(1.0, 1.0, n, m), ValueError)
    return fn


def cases(tier):
    N, H = (8, 12) if tier == 'quick' else (12, 12)
    out = [dict(name='rejects_' + k, fn=rejects(k), cost=0.3) for k in ('large_positive', 'large_negative', 'odd')]
    out.append(dict(name='pairs', fn=small_pairs(N), cost=0.5))
    for n in range(H + 1):
        for m in range(-n, n + 1, 2):
            if abs(m) > 11 or n > N and (abs(m) not in (n % 2, n) or (n > N + 2 and m == 0 and n % 4)):
                continue
            out.append(dict(name='Z_%d_%d' % (n, m), fn=case(n, m, n > 3), cost=0.3 + n * 0.1))
            if n < 4:
                out.append(dict(name='points_%d_%d' % (n, m), fn=points(n, m), cost=0.3))
    return out
