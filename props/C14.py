"""Simple and random binary holograms."""
BOUNDS = ("panels 2x1, 2x2 and 3x2 (quick), up to 4x3 (thorough); amplitudes in [0, 1], phases, steepness, periodicity, angle and random draws symbolic; both "
          "orders; two holograms from the same draws compared for all pairs of amplitudes; 32 and 64 bit")
FUNCTIONS = ["slm.DMD.set_dmd_grating_state", "_lib.calculate_dmd_grating", "_lib._calculate_dmd_grating_simple", "_lib._calculate_dmd_grating_random"]
ASSUMPTIONS = ["tf.random.uniform returns numbers in [0, 1), one per pixel in row-major order"]
from props.C13 import device, G, ideal


def amps(A, Nx, Ny, name='amp'):
    amp = A.reals(name, (Ny, Nx), 0, 1)
    c = A.cells(amp)
    for v in c.reshape(-1):
        A.assume(A.and_(v >= 0, v <= 1))
    return amp, c


def simple(Nx, Ny, neg):
    def fn(A):
        d = device(A, Nx, Ny, neg)
        amp, c = amps(A, Nx, Ny)
        pin, pout = A.reals('pin', (Ny, Nx), -3, 3), A.reals('pout', (Ny, Nx), -3, 3)
        d.set_dmd_grating_state(amp, pin, pout, method='simple')
        A.check('shape', d.dmd_state.shape == (Ny, Nx), d.dmd_state.shape)
        A.check('boolean', d.dmd_state.dtype == bool, d.dmd_state.dtype)
        ref = ideal(A, d, c, A.cells(pin), A.cells(pout), neg)
        A.eq('threshold', d.dmd_state, A.map(lambda v: v > A.frac(1, 2), ref))
        st = A.cells(d.dmd_state)
        d.set_dmd_grating_state(amp, pin, pout, method='ideal')
        A.eq('grayscale above 0.5', st, A.map(lambda v: v > A.frac(1, 2), A.cells(d.dmd_state)))
        d.set_dmd_grating_state(A.real('half', 0.1, 0.49), pin, pout, method='simple')
    return fn


def fold(A, d, pin, pout, neg):
    s = A.num(-1 if neg else 1)
    return A.map(lambda g, x, y: A.acos(A.cos(g - s * (y - x))), G(A, d), pin, pout)


def rule(A, f, amp, r, u):
    w = A.asin(amp)
    return A.frac(1, 2) * (A.tanh(r * (f + w)) - A.tanh(r * (f - w))) > u


def random(Nx, Ny, neg, default):
    def fn(A):
        d = device(A, Nx, Ny, neg)
        amp, c = amps(A, Nx, Ny)
        pin, pout = A.reals('pin', (Ny, Nx), -3, 3), A.reals('pout', (Ny, Nx), -3, 3)
        if default:
            kw, r = {}, A.num(10)
        else:
            r = A.real('r', 0.5, 4)
            A.assume(A.c(r) >= 0)
            kw, r = dict(r=r), A.c(r)
        d.set_dmd_grating_state(amp, pin, pout, **(kw if default == 2 else dict(kw, method='random')))
        A.check('shape', d.dmd_state.shape == (Ny, Nx), d.dmd_state.shape)
        A.check('boolean', d.dmd_state.dtype == bool, d.dmd_state.dtype)
        f = fold(A, d, A.cells(pin), A.cells(pout), neg)
        k = iter(range(Nx * Ny))
        A.eq('threshold', d.dmd_state, A.grid(lambda i, j: rule(A, f[i, j], c[i, j], r, A.draw(i * Nx + j)), Ny, Nx))
    return fn


def dark(neg):
    """Zero-amplitude pixels are off, for both methods."""
    def fn(A):
        d = device(A, 2, 1, neg)
        pin, pout = A.reals('pin', (1, 2), -3, 3), A.reals('pout', (1, 2), -3, 3)
        r = A.real('r', 0.5, 4, pos=True)
        for method, kw in (('simple', {}), ('random', {}), ('random', dict(r=r))):
            d.set_dmd_grating_state(0.0, pin, pout, method=method, **kw)
            A.true('dark ' + method, A.map(A.not_, A.cells(d.dmd_state)))
    return fn


def monotone(neg):
    """For the same draws, more amplitude never switches a pixel off."""
    def fn(A):
        d = device(A, 1, 1, neg)
        a, ca = amps(A, 1, 1, 'a')
        b, cb = amps(A, 1, 1, 'b')
        A.assume(cb[0, 0] >= ca[0, 0])
        pin, pout = A.real('pin', -3, 3), A.real('pout', -3, 3)
        for nm, kw in (('simple', dict(method='simple')), ('random', dict(method='random')), ('steep', dict(method='random', r=A.real('r', 0.5, 4, pos=True)))):
            A.rewind()
            d.set_dmd_grating_state(a, pin, pout, **kw)
            lo = A.cells(d.dmd_state)
            A.rewind()
            d.set_dmd_grating_state(b, pin, pout, **kw)
            hi = A.cells(d.dmd_state)
            A.true('monotone ' + nm, A.map(A.implies, lo, hi))
    return fn


def invalid(A):
    d = device(A, 2, 1)
    before = A.cells(d.dmd_state)
    A.raises('unknown method', lambda: d.set_dmd_grating_state(A.real('amp', 0, 1), method='no such method'), ValueError)
    A.eq('state', d.dmd_state, before)


def fresh_draws(A):
    """Every hologram uses its own draws: the second state follows the rule with the next ones."""
    d = device(A, 2, 1)
    amp, c = amps(A, 2, 1)
    d.set_dmd_grating_state(amp, method='random')
    f = fold(A, d, A.arr([[A.num(0)] * 2]), A.arr([[A.num(0)] * 2]), False)
    A.eq('first', d.dmd_state, A.grid(lambda i, j: rule(A, f[i, j], c[i, j], A.num(10), A.draw(j)), 1, 2))
    d.set_dmd_grating_state(amp, method='random')
    A.eq('second', d.dmd_state, A.grid(lambda i, j: rule(A, f[i, j], c[i, j], A.num(10), A.draw(2 + j)), 1, 2))


def cases(tier):
    out = [dict(name='invalid', fn=invalid, cost=0.2), dict(name='fresh_draws', fn=fresh_draws, cost=0.4)]
    sizes = [(2, 1), (2, 2), (3, 2)] if tier == 'quick' else [(nx, ny) for nx in range(1, 5) for ny in range(1, 4)]
    for neg in (False, True):
        s = '_neg' if neg else ''
        for nx, ny in sizes:
            out.append(dict(name='simple_%dx%d%s' % (nx, ny, s), fn=simple(nx, ny, neg), cost=0.5 + nx * ny * 0.1))
            for dflt in (0, 1, 2):
                out.append(dict(name='random%d_%dx%d%s' % (dflt, nx, ny, s), fn=random(nx, ny, neg, dflt), cost=0.5 + nx * ny * 0.1))
        out.append(dict(name='dark' + s, fn=dark(neg), cost=0.5))
        out.append(dict(name='monotone' + s, fn=monotone(neg), cost=1.0))
    return out
