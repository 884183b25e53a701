"""Zernike decomposition."""
BOUNDS = ("maps of up to 4x4 (quick) / 6x5 (thorough) symbolic pixels, odd, even, square, wide and tall; aperture radius symbolic (every set of pixels it can cover, "
          "pixels on the edge included) and fixed; up to 6 terms (quick: also 21 and 30, thorough: 28 and 45, on small maps); with and without reconstruction and extrapolation; maps changed in place between calls; 32 and 64 bit")
FUNCTIONS = ["analysis.zernike_decomposition", "analysis.ansi_j_to_n_m", "profile.Zernike.__init__", "profile.Zernike._func"]
OUTSIDE = "apertures without any pixel; the reconstruction on pixels exactly on the aperture edge"
from props.C08 import zernike


def mode(j):
    n = 0
    while (n + 1) * (n + 2) // 2 <= j:
        n += 1
    return n, 2 * j - n * (n + 2)


def coords(A, Nx, Ny):
    """x to the right, y up, origin at the array centre."""
    return A.grid(lambda i, j: A.frac(2 * j - Nx + 1, 2), Ny, Nx), A.grid(lambda i, j: A.frac(Ny - 1 - 2 * i, 2), Ny, Nx)


def dist2(Nx, Ny):
    """Four times the squared distance."""
    import numpy as np
    i, j = np.mgrid[0:Ny, 0:Nx]
    return (2 * j - Nx + 1) ** 2 + (Ny - 1 - 2 * i) ** 2


def radius(A, Nx, Ny, R):
    """The radius and, for this path, the pixels it covers."""
    d = dist2(Nx, Ny)
    if R is not None:
        return R, A.num(R) if isinstance(R, int) else A.frac(*R.as_integer_ratio()), d < 4 * R * R
    lo = float(d.min()) ** 0.5 / 2
    R = A.real('R', lo + 0.1, float(d.max()) ** 0.5 / 2 + 0.8, pos=True)
    r = A.c(R)
    A.assume(r * r * 4 > A.num(int(d.min())))
    vals = sorted(set(d.reshape(-1).tolist()))
    inside = None
    for v in vals:                     # the scenario follows the radius from ring to ring
        if bool(R * R * 4 > v):
            inside = v
        else:
            break
    return R, r, d <= inside


def project(A, P, Z, inside):
    idx = [tuple(i) for i in __import__('numpy').argwhere(inside)]
    return A.sum([P[i] * Z[i] for i in idx]) * A.frac(1, len(idx))


def tolerance(A):
    return 1e-2 if A.bits == 32 else None


def decompose(Nx, Ny, terms, R=None, reconstruct=None, extrapolate=False, single=False):
    def fn(A):
        from pySLM2.analysis import zernike_decomposition
        prof = A.reals('p', (Ny, Nx), -2, 2, dtype=A.np.float32 if single else None)
        P = A.cells(prof)
        Rv, r, inside = radius(A, Nx, Ny, R)
        x, y = coords(A, Nx, Ny)
        kw = {}
        if reconstruct is not None:
            kw['reconstruct'] = reconstruct
        if extrapolate:
            kw['extrapolate'] = True
        res = zernike_decomposition(prof, Rv, terms, **kw)
        c, rec = res if reconstruct else (res, None)
        A.check('number of coefficients', len(c) == terms, len(c))
        out = A.arr([[A.num(0)] * Nx] * Ny)
        for j in range(min(terms, len(c))):
            n, m = mode(j)
            Z = A.map(lambda a, b: zernike(A, n, m, a, b, r), x, y)
            e = project(A, P, Z, inside)
            A.eq('coefficient %d' % j, A.c(c[j]), e, tol=tolerance(A), scale=2.0)
            out = out + A.map(lambda z: z * e, Z)
        if reconstruct:
            d = dist2(Nx, Ny)
            zero = A.num(0)
            edge = [] if R is None else [tuple(i) for i in __import__('numpy').argwhere(d == 4 * R * R)]
            A.check('shape', rec.shape == (Ny, Nx), rec.shape)
            got = A.cells(rec)
            for i in __import__('numpy').ndindex(Ny, Nx):
                if i in edge and not extrapolate:
                    continue
                want = out[i] if (inside[i] or extrapolate) else zero
                if R is None and not extrapolate and not inside[i]:
                    A.true('edge or zero %s' % (i,), A.or_(A.eqc(got[i], want), A.eqc(r * r * 4, A.num(int(d[i])))))
                else:
                    A.eq('reconstruction %s' % (i,), got[i], want, tol=tolerance(A), scale=5.0)
        A.eq('map unchanged', prof, P)
    return fn


def recover(Nx, Ny, terms, R):
    """The reconstruction's coefficients are linear in the map: those of a sum are the sums."""
    def fn(A):
        from pySLM2.analysis import zernike_decomposition
        p, q = A.reals('p', (Ny, Nx), -2, 2), A.reals('q', (Ny, Nx), -2, 2)
        a = A.real('a', -2, 2)
        f = lambda z: [A.c(v) for v in zernike_decomposition(z, R, terms)]
        cp, cq, cs = f(p), f(q), f(p * a + q)
        for j in range(terms):
            A.eq('linear %d' % j, cs[j], cp[j] * A.c(a) + cq[j], tol=tolerance(A), scale=4.0)
    return fn


def outside(Nx, Ny, terms, R):
    """Values outside the aperture have no influence."""
    def fn(A):
        from pySLM2.analysis import zernike_decomposition
        import numpy as np
        p, q = A.reals('p', (Ny, Nx), -2, 2), A.reals('q', (Ny, Nx), -2, 2)
        inside = dist2(Nx, Ny) < 4 * R * R
        s = A.np.where(inside, p, q)
        f = lambda z: zernike_decomposition(z, R, terms, reconstruct=True)
        (c1, r1), (c2, r2) = f(p), f(s)
        for j in range(terms):
            A.eq('coefficient %d' % j, A.c(c1[j]), A.c(c2[j]))
        A.eq('reconstruction', r1, r2)
    return fn


def in_place(Nx, Ny, R):
    """Every call is judged on its own arguments."""
    def fn(A):
        from pySLM2.analysis import zernike_decomposition
        prof = A.reals('p', (Ny, Nx), -2, 2)
        x, y = coords(A, Nx, Ny)

        def run(label, R, terms, reconstruct):
            P, inside = A.cells(prof), dist2(Nx, Ny) < 4 * R * R
            c = zernike_decomposition(prof, R, terms, reconstruct=reconstruct)
            if reconstruct:
                c, rec = c
            A.check(label + ' number', len(c) == terms, len(c))
            out = A.arr([[A.num(0)] * Nx] * Ny)
            for j in range(terms):
                n, m = mode(j)
                Z = A.map(lambda a, b: zernike(A, n, m, a, b, A.frac(*float(R).as_integer_ratio())), x, y)
                e = project(A, P, Z, inside)
                A.eq('%s %d' % (label, j), A.c(c[j]), e, tol=tolerance(A), scale=2.0)
                out = out + A.map(lambda z: z * e, Z)
            if reconstruct:
                got = A.cells(rec)
                for i in __import__('numpy').ndindex(Ny, Nx):
                    A.eq('%s reconstruction %s' % (label, i), got[i], out[i] if inside[i] else A.num(0), tol=tolerance(A), scale=5.0)
                rec[0, 0] = 9.0
            A.eq(label + ' map', prof, P)
        run('first', R, 3, False)
        run('reconstruct', R, 4, True)
        prof[Ny // 2, Nx // 2] = A.reals('q', (), -2, 2)
        run('changed in place', R, 4, True)
        run('other radius', R + 0.625, 3, False)
        run('more terms', R, 6, False)
        run('one term', R, 1, True)
        prof = A.reals('s', (Ny, Nx), -2, 2)
        run('another map', R, 3, True)
    return fn


def cases(tier):
    q = tier == 'quick'
    out = [dict(name='radius_3x3', fn=decompose(3, 3, 4), cost=2), dict(name='radius_4x2', fn=decompose(4, 2, 3, reconstruct=True), cost=2),
           dict(name='radius_2x3', fn=decompose(2, 3, 3, reconstruct=True, extrapolate=True), cost=2),
           dict(name='plain_4x4', fn=decompose(4, 4, 6, R=2), cost=2), dict(name='explicit_4x3', fn=decompose(4, 3, 6, R=1.5, reconstruct=False), cost=2),
           dict(name='reconstruct_3x3', fn=decompose(3, 3, 6, R=1.25, reconstruct=True), cost=2),
           dict(name='edge_3x3', fn=decompose(3, 3, 4, R=1, reconstruct=True), cost=2),
           dict(name='edge_5x1', fn=decompose(5, 1, 3, R=2, reconstruct=True, extrapolate=True), cost=2),
           dict(name='extrapolate_3x2', fn=decompose(3, 2, 6, R=1.25, reconstruct=True, extrapolate=True), cost=2),
           dict(name='large_radius', fn=decompose(2, 3, 6, R=10, reconstruct=True), cost=2),
           dict(name='single', fn=decompose(3, 2, 4, R=1.25, single=True), cost=1), dict(name='one_pixel', fn=decompose(1, 1, 3, R=1), cost=1),
           dict(name='no_terms', fn=decompose(2, 2, 0, R=1), cost=1),
           dict(name='terms_21', fn=decompose(3, 3, 21, R=1.25, reconstruct=True), cost=3), dict(name='terms_30', fn=decompose(2, 2, 30, R=1.25), cost=3),
           dict(name='linear', fn=recover(3, 3, 6, 1.5), cost=2), dict(name='outside', fn=outside(4, 3, 6, 1.25), cost=2)]
    if not q:
        out += [dict(name='radius_4x4', fn=decompose(4, 4, 6, reconstruct=True), cost=4), dict(name='radius_5x3', fn=decompose(5, 3, 6), cost=4),
                dict(name='plain_6x5', fn=decompose(6, 5, 10, R=2.5, reconstruct=True), cost=4), dict(name='terms_15', fn=decompose(5, 5, 15, R=2.25), cost=4),
                dict(name='terms_28', fn=decompose(4, 4, 28, R=2), cost=6), dict(name='terms_45', fn=decompose(3, 2, 45, R=1.5), cost=6),
                dict(name='extrapolate_6x4', fn=decompose(6, 4, 10, R=1.75, reconstruct=True, extrapolate=True), cost=4)]
    out.append(dict(name='in_place', fn=in_place(3, 2, 1.25), cost=2))
    return out
