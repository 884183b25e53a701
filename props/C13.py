"""The grayscale (ideal) hologram."""
BOUNDS = ("panels 2x2, 3x2, 1x3, 4x3 and 5x1 (quick), up to 5x4 (thorough); amplitudes and phases symbolic numbers, arrays or uninterpreted profiles; "
          "periodicity, angle, pixel size symbolic; both diffraction orders; the range also bit-precisely in IEEE arithmetic for every float amplitude "
          "in [0, 1] and phases up to 1000 in size (cosine abstracted to any float in [-1, 1]); arrays changed in place between calls; 32 and 64 bit")
FUNCTIONS = ["slm.DMD.set_dmd_grating_state", "_lib.calculate_dmd_grating", "_lib._calculate_dmd_grating_ideal", "_lib._grating_phase", "slm.DMD.__init__"]
FPNOTE = "The fp_* cases are decided bit-precisely in IEEE floating point, the others over exact reals."
ASSUMPTIONS = ["IEEE products round monotonically: 0 <= fl(a*b) <= a for a >= 0 and 0 <= b <= 1 (floating-point cases)", "cos returns a float in [-1, 1] for finite arguments (floating-point cases)"]


def device(A, Nx, Ny, neg=False, tag='', cls=None):
    import pySLM2
    lam, f = A.real('lam' + tag, pos=True), A.real('f' + tag, pos=True)
    p, th, ps = A.real('period' + tag, 2, 6, pos=True), A.real('theta' + tag, 0, 3), A.real('ps' + tag, pos=True)
    d = pySLM2.DMD(lam, f, p, th, Nx, Ny, ps, negative_order=neg)
    d._v = dict(lam=A.c(lam), f=A.c(f), p=A.c(p), th=A.c(th), ps=A.c(ps), Nx=Nx, Ny=Ny)
    return d


def G(A, d):
    """Grating phase per pixel."""
    v = d._v
    k = 2 * A.pi / v['p']
    return A.grid(lambda i, j: k * ((A.num(j) - A.frac(v['Nx'], 2)) * A.cos(v['th']) + (A.frac(v['Ny'], 2) - A.num(i)) * A.sin(v['th'])), v['Ny'], v['Nx'])


def ideal(A, d, amp, pin, pout, neg):
    s = A.num(-1 if neg else 1)
    return A.map(lambda g, a, x, y: a * (1 + A.cos(g - s * (y - x))) * A.frac(1, 2), G(A, d), amp, pin, pout)


def arrays(Nx, Ny, neg):
    def fn(A):
        d = device(A, Nx, Ny, neg)
        amp = A.reals('amp', (Ny, Nx), 0, 1)
        pin, pout = A.reals('pin', (Ny, Nx), -3, 3), A.reals('pout', (Ny, Nx), -3, 3)
        d.set_dmd_grating_state(amp, pin, pout, method='ideal')
        A.check('shape', d.dmd_state.shape == (Ny, Nx), d.dmd_state.shape)
        A.check('dtype', d.dmd_state.dtype == A.np_dtype, d.dmd_state.dtype)
        c = [A.cells(v) for v in (amp, pin, pout)]
        ref = ideal(A, d, *c, neg)
        st = A.cells(d.dmd_state)
        A.eq('Lee grating', st, ref)
        for i in range(Ny):
            for j in range(Nx):
                inside = A.and_(c[0][i, j] >= 0, c[0][i, j] <= 1)
                A.true('range', A.implies(inside, A.and_(A.ge(st[i, j], 0), A.ge(c[0][i, j], st[i, j]))))
    return fn


def numbers(Nx, Ny, neg):
    def fn(A):
        d = device(A, Nx, Ny, neg)
        amp, pin, pout = A.real('amp', 0, 1), A.real('pin', -3, 3), A.real('pout', -3, 3)
        d.set_dmd_grating_state(amp, pin, pout, method='ideal')
        A.eq('numbers', d.dmd_state, ideal(A, d, A.c(amp), A.c(pin), A.c(pout), neg))
        d.set_dmd_grating_state(method='ideal')
        A.eq('defaults', d.dmd_state, ideal(A, d, A.num(1), A.num(0), A.num(0), neg))
        d.set_dmd_grating_state(amp=amp, phase_out=pout, method='ideal')
        A.eq('no input phase', d.dmd_state, ideal(A, d, A.c(amp), A.num(0), A.c(pout), neg))
        d.set_dmd_grating_state(amp, pin, method='ideal')
        A.eq('no output phase', d.dmd_state, ideal(A, d, A.c(amp), A.c(pin), A.num(0), neg))
        d.set_dmd_grating_state(1, 0, 2, method='ideal')
        A.eq('integers', d.dmd_state, ideal(A, d, A.num(1), A.num(0), A.num(2), neg))
    return fn


def profiles(Nx, Ny, neg):
    def fn(A):
        d = device(A, Nx, Ny, neg)
        a, p, q = A.profile('a'), A.profile('p'), A.profile('q')
        X, Y = [A.cells(v) for v in d.fourier_plane_grid]
        F = lambda n: A.map(lambda x, y: A.fcells(n, x, y), X, Y)
        d.set_dmd_grating_state(a, p, q, method='ideal')
        A.eq('profiles', d.dmd_state, ideal(A, d, F('a'), F('p'), F('q'), neg))
        arr = A.reals('arr', (Ny, Nx), -3, 3, dtype=A.np.float32)
        d.set_dmd_grating_state(a, arr, 0.5, method='ideal')
        A.eq('mixed', d.dmd_state, ideal(A, d, F('a'), A.cells(arr), A.frac(1, 2), neg))
    return fn


def switching(A):
    """Two devices of different gratings, and the order switched between holograms."""
    d, e = device(A, 2, 2, False, 'd'), device(A, 2, 2, True, 'e')
    amp, pin, pout = A.real('amp', 0, 1), A.real('pin', -3, 3), A.real('pout', -3, 3)
    c = [A.c(v) for v in (amp, pin, pout)]
    for rep in range(2):
        for x, neg in ((d, False), (e, True)):
            x.set_dmd_grating_state(amp, pin, pout, method='ideal')
        A.eq('first %d' % rep, d.dmd_state, ideal(A, d, *c, False))
        A.eq('second %d' % rep, e.dmd_state, ideal(A, e, *c, True))
    d.negative_order = True
    d.set_dmd_grating_state(amp, pin, pout, method='ideal')
    A.eq('switched to the negative order', d.dmd_state, ideal(A, d, *c, True))
    e.negative_order = False
    e.set_dmd_grating_state(amp, pin, pout, method='ideal')
    A.eq('switched to the positive order', e.dmd_state, ideal(A, e, *c, False))


def preset(A):
    """A preset model at full size, a few pixels."""
    import pySLM2
    th, p = A.real('theta', 0, 3), A.real('period', 2, 6, pos=True)
    d = device(A, 4, 3, True)
    for t in (0.0, 1.0):
        amp = A.reals('amp%d' % t, (3, 4), 0, 1)
        d.set_dmd_grating_state(amp, t, 0.25, method='ideal')
        A.eq('t=%s' % t, d.dmd_state, ideal(A, d, A.cells(amp), A.num(t), A.frac(1, 4), True))


def fp_range(neg, k):
    def fn(A):
        import pySLM2
        d = pySLM2.DMD(355e-9, 0.2, 4.0, 0.7853981633974483, 1, 1, 13.68e-6, negative_order=neg)
        amp = A.reals('amp', (1, 1), 0, 1, dtype=A.np_dtype)
        a = A.c(amp)
        A.assume(A.and_(A.le(A.num(0.0), a), A.le(a, A.num(1.0))))
        pin, pout = 0.0, 0.0
        if k:
            pin, pout = A.reals('pin', (1, 1), -3, 3, dtype=A.np_dtype), A.reals('pout', (1, 1), -3, 3, dtype=A.np_dtype)
            for v in (A.c(pin), A.c(pout)):
                A.assume(A.and_(A.le(A.num(-1000.0), v), A.le(v, A.num(1000.0))))
        d.set_dmd_grating_state(amp, pin, pout, method='ideal')
        s = A.c(d.dmd_state)
        A.true('at least 0', s >= 0)
        A.true('at most the amplitude', a >= s)
    return fn


def in_place(A):
    """The arguments are read at every call, also when the same arrays come back changed."""
    d = device(A, 2, 2, False)
    amp, pin, pout = A.reals('amp', (2, 2), 0, 1), A.reals('pin', (2, 2), -3, 3), A.reals('pout', (2, 2), -3, 3)

    def run(label):
        d.set_dmd_grating_state(amp, pin, pout, method='ideal')
        A.eq(label, d.dmd_state, ideal(A, d, *[A.cells(v) for v in (amp, pin, pout)], False))
    run('first')
    for nm, arr, lo, hi in (('amp', amp, 0, 1), ('pin', pin, -3, 3), ('pout', pout, -3, 3)):
        arr[0, 1] = A.reals(nm + '2', (), lo, hi)
        arr[1] = A.reals(nm + '3', (2,), lo, hi)
        run(nm + ' changed in place')
    d.dmd_state[0, 0] = 0.125
    run('state changed in place')
    pin, pout = pout, pin
    run('exchanged')
    for k in range(3):             # arrays that come and go
        amp, pin, pout = A.reals('amp_%d' % k, (2, 2), 0, 1), A.reals('pin_%d' % k, (2, 2), -3, 3), A.reals('pout_%d' % k, (2, 2), -3, 3)
        run('new arrays %d' % k)
    d.set_dmd_grating_state(0, 0, 0, method='ideal')
    A.eq('no amplitude', d.dmd_state, A.grid(lambda i, j: A.num(0), 2, 2), scale=1.0)


def cases(tier):
    out = []
    sizes = [(2, 2), (3, 2), (1, 3), (4, 3), (5, 1)] if tier == 'quick' else [(nx, ny) for nx in range(1, 6) for ny in range(1, 5)]
    for nx, ny in sizes:
        for neg in (False, True):
            t = '%dx%d%s' % (nx, ny, '_neg' if neg else '')
            out.append(dict(name='arrays_' + t, fn=arrays(nx, ny, neg), cost=0.3 + nx * ny * 0.1))
            if (nx, ny) == (3, 2) or tier != 'quick':
                out.append(dict(name='numbers_' + t, fn=numbers(nx, ny, neg), cost=0.3 + nx * ny * 0.1))
                out.append(dict(name='profiles_' + t, fn=profiles(nx, ny, neg), cost=0.3 + nx * ny * 0.1))
    out.append(dict(name='switching', fn=switching, cost=0.6))
    out.append(dict(name='mixed_4x3', fn=preset, cost=0.8))
    for neg in (False, True):
        out.append(dict(name='fp_range%s' % ('_neg' if neg else ''), fn=fp_range(neg, 0), mode='fp', cost=3))
        out.append(dict(name='fp_range_phases%s' % ('_neg' if neg else ''), fn=fp_range(neg, 1), mode='fp', cost=3))
    out.append(dict(name='in_place', fn=in_place, cost=0.8))
    return out
