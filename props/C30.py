"""Removal of piston, tilt and defocus."""
try:
    import numpy as np
except ImportError:           # only listed, not run
    np = None
BOUNDS = ("maps of up to 4x4 (quick) / 6x5 (thorough) symbolic pixels, odd, even, square, wide and tall; aperture radius symbolic (every set of pixels it can cover) "
          "and fixed; with and without defocus, given by keyword or position; repeated removal; maps changed in place between calls; 32 and 64 bit")
FUNCTIONS = ["analysis.remove_trivial_phase", "profile.Zernike.__init__", "profile.Zernike._func"]
OUTSIDE = "apertures without any pixel; pixels exactly on the aperture edge"
from props.C08 import zernike
from props.C29 import coords, dist2, radius, project, tolerance

TERMS = [(0, 0), (1, -1), (1, 1), (2, 0)]


def model(A, P, r, inside, defocus):
    Ny, Nx = P.shape
    x, y = coords(A, Nx, Ny)
    for n, m in TERMS[:4 if defocus else 3]:
        Z = A.map(lambda a, b: zernike(A, n, m, a, b, r), x, y)
        c = project(A, P, Z, inside)
        Q = P.copy()
        for i in np.ndindex(Ny, Nx):
            if inside[i]:
                Q[i] = P[i] - c * Z[i]
        P = Q
    return P


def remove(Nx, Ny, R=None, defocus=None, positional=False, twice=False, single=False):
    def fn(A):
        from pySLM2.analysis import remove_trivial_phase
        prof = A.reals('p', (Ny, Nx), -2, 2, dtype=A.np.float32 if single else None)
        P = A.cells(prof)
        Rv, r, inside = radius(A, Nx, Ny, R)
        d = dist2(Nx, Ny)
        cur, want = prof, P
        for k in range(2 if twice else 1):
            if positional:
                cur = remove_trivial_phase(cur, Rv, defocus)
            else:
                cur = remove_trivial_phase(cur, Rv, **({} if defocus is None else {'remove_defocus': defocus}))
            want = model(A, want, r, inside, defocus)
            A.check('shape', cur.shape == (Ny, Nx), cur.shape)
            got = A.cells(cur)
            for i in np.ndindex(Ny, Nx):
                if R is not None:
                    if d[i] == 4 * R * R:
                        continue
                    A.eq('result %d %s' % (k, i), got[i], want[i], tol=tolerance(A), scale=5.0)
                elif inside[i]:
                    A.eq('result %d %s' % (k, i), got[i], want[i], tol=tolerance(A), scale=5.0)
                else:
                    A.true('result %d %s' % (k, i), A.or_(A.eqc(got[i], want[i]), A.eqc(r * r * 4, A.num(int(d[i])))))
            if twice:
                want = got          # the next round is judged on its own input
        A.eq('map unchanged', prof, P)
    return fn


def constant(Nx, Ny, R, defocus):
    """A constant added inside the aperture changes nothing inside, and nothing but itself outside."""
    def fn(A):
        from pySLM2.analysis import remove_trivial_phase
        p = A.reals('p', (Ny, Nx), -2, 2)
        c = A.real('c', -3, 3)
        inside = dist2(Nx, Ny) < 4 * R * R
        q = A.np.where(inside, p + c, p)
        a, b = A.cells(remove_trivial_phase(p, R, remove_defocus=defocus)), A.cells(remove_trivial_phase(q, R, remove_defocus=defocus))
        A.eq('result', a, b, tol=tolerance(A), scale=5.0)
    return fn


def tilt(Nx, Ny, R, defocus):
    """On an aperture with the symmetry of the square the modes are orthogonal: tilts vanish from the result."""
    def fn(A):
        from pySLM2.analysis import remove_trivial_phase
        p = A.reals('p', (Ny, Nx), -2, 2)
        inside = dist2(Nx, Ny) < 4 * R * R
        res = A.cells(remove_trivial_phase(p, R, remove_defocus=defocus))
        x, y = coords(A, Nx, Ny)
        ref = model(A, A.cells(p), A.num(R) if isinstance(R, int) else A.frac(*R.as_integer_ratio()), inside, defocus)
        for nm, w in (('x', x), ('y', y)):
            A.eq('moment ' + nm, A.sum([res[tuple(i)] * w[tuple(i)] for i in np.argwhere(inside)]),
                 A.sum([ref[tuple(i)] * w[tuple(i)] for i in np.argwhere(inside)]), tol=tolerance(A), scale=8.0)
        A.eq('piston', A.sum([res[tuple(i)] for i in np.argwhere(inside)]), A.sum([ref[tuple(i)] for i in np.argwhere(inside)]), tol=tolerance(A), scale=8.0)
    return fn


def in_place(Nx, Ny, R):
    """Every call is judged on its own arguments."""
    def fn(A):
        from pySLM2.analysis import remove_trivial_phase
        prof = A.reals('p', (Ny, Nx), -2, 2)

        def run(label, R, defocus):
            P, inside = A.cells(prof), dist2(Nx, Ny) < 4 * R * R
            got = remove_trivial_phase(prof, R, remove_defocus=defocus)
            A.eq(label, got, model(A, P, A.frac(*float(R).as_integer_ratio()), inside, defocus), tol=tolerance(A), scale=5.0)
            A.eq(label + ' map', prof, P)
            got[0, 0] = 9.0
            A.eq(label + ' map later', prof, P)
        run('first', R, False)
        run('defocus', R, True)
        run('no defocus', R, False)
        prof[Ny // 2, Nx // 2] = A.reals('q', (), -2, 2)
        run('changed in place', R, False)
        run('other radius', R + 0.625, True)
        prof = A.reals('s', (Ny, Nx), -2, 2)
        run('another map', R, False)
    return fn


def cases(tier):
    q = tier == 'quick'
    out = [dict(name='radius_3x3', fn=remove(3, 3), cost=2), dict(name='radius_2x3', fn=remove(2, 3, defocus=True), cost=2),
           dict(name='radius_4x2', fn=remove(4, 2, defocus=False), cost=2),
           dict(name='plain_4x4', fn=remove(4, 4, R=2), cost=1), dict(name='defocus_4x4', fn=remove(4, 4, R=2, defocus=True), cost=2),
           dict(name='plain_4x3', fn=remove(4, 3, R=1.25), cost=1), dict(name='defocus_3x4', fn=remove(3, 4, R=1.75, defocus=True, positional=True), cost=2),
           dict(name='edge_3x3', fn=remove(3, 3, R=1), cost=1), dict(name='edge_5x3', fn=remove(5, 3, R=2, defocus=True), cost=2),
           dict(name='large_radius', fn=remove(3, 2, R=8, defocus=True), cost=1), dict(name='one_pixel', fn=remove(1, 1, R=1), cost=0.5),
           dict(name='single', fn=remove(3, 3, R=1.25, defocus=True, single=True), cost=1),
           dict(name='twice', fn=remove(3, 3, R=1.5, defocus=True, twice=True), cost=1),
           dict(name='constant', fn=constant(4, 3, 1.75, False), cost=1), dict(name='constant_defocus', fn=constant(4, 4, 2, True), cost=1),
           dict(name='moments', fn=tilt(4, 4, 2, True), cost=1)]
    if not q:
        out += [dict(name='radius_4x4', fn=remove(4, 4, defocus=True), cost=4), dict(name='radius_5x3', fn=remove(5, 3), cost=4),
                dict(name='plain_6x5', fn=remove(6, 5, R=2.5), cost=3), dict(name='defocus_6x5', fn=remove(6, 5, R=2.25, defocus=True), cost=4),
                dict(name='defocus_5x6', fn=remove(5, 6, R=2.75, defocus=True, twice=True), cost=4)]
    out.append(dict(name='in_place', fn=in_place(3, 2, 1.25), cost=2))
    return out
