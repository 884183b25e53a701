"""Circular patches."""
BOUNDS = ("panels up to 4x3 (quick) / 6x4 (thorough); centre (real or integer), diameter, amplitude, phases, steepness and prior state symbolic; every set of "
          "mirrors some circle covers is decided; sequences of up to 3 patches with two prior states; all methods but ifta; 32 and 64 bit")
FUNCTIONS = ["slm.DMD.circular_patch", "slm.DMD._circular_mask", "slm.SLM._fourier_plane_pixel_grid"]
OUTSIDE = "mirrors whose distance from the centre equals the radius up to rounding; the ifta method (its arguments differ)"
from props.C13 import device


def prior(A, d, Nx, Ny, kind, tag=''):
    if kind == 'bool':
        st = A.bools('s' + tag, (Ny, Nx))
    elif kind == 'gray':
        st = A.reals('s' + tag, (Ny, Nx), 0, 1, dtype=A.np_dtype)
    elif kind == 'double':
        st = A.reals('s' + tag, (Ny, Nx), 0, 1, dtype=A.np.float64)
    else:
        return A.cells(d.dmd_state)
    d.dmd_state = st
    return A.cells(st)


def merged(A, full, old, i, j, dia):
    """Elementwise expectation."""
    h = dia * A.frac(1, 2)
    fb, ob = A.is_bool(full), A.is_bool(old)
    one = lambda c, b, both: c if (both or not b) else A.ite(c, A.num(1), A.num(0))

    def cell(r, c):
        dist = (A.num(r) - i) * (A.num(r) - i) + (A.num(c) - j) * (A.num(c) - j)
        f, o = one(full[r, c], fb, fb and ob), one(old[r, c], ob, fb and ob)
        return A.ite(dist < h * h, f, o)
    return A.grid(cell, *full.shape)


def full(A, d, args, method, kw):
    keep = d.dmd_state
    d.set_dmd_grating_state(*args, method=method, **kw)
    c = A.cells(d.dmd_state)
    d.dmd_state = keep
    return c


def single(Nx, Ny, method, kind, argkind, neg=False, integer=False):
    def fn(A):
        d = device(A, Nx, Ny, neg)
        old = prior(A, d, Nx, Ny, kind)
        if argkind == 'numbers':
            args = [A.real('amp', 0, 1), A.real('pin', -3, 3), A.real('pout', -3, 3)]
        elif argkind == 'profiles':
            args = [A.profile('amp'), A.profile('pin'), A.profile('pout')]
        else:
            args = [A.reals('amp', (Ny, Nx), 0, 1), A.reals('pin', (Ny, Nx), -3, 3), A.reals('pout', (Ny, Nx), -3, 3)]
        if method in ('random', None):
            for v in A.cells(args[0]).reshape(-1) if argkind != 'profiles' else []:
                A.assume(A.and_(v >= 0, A.num(1) >= v))
        if integer:
            i, j, dia = A.int('ci', -1, Ny), A.int('cj', -1, Nx), A.int('d', 0, 5)
        else:
            i, j, dia = A.real('ci', -0.5, Ny), A.real('cj', -0.5, Nx), A.real('d', 0.5, 3)
            A.assume(A.c(dia) >= 0)
        kw = {'r': A.real('r', 0.5, 4)} if method == 'random' else {}
        if kw:
            A.assume(A.c(kw['r']) >= 0)
        kw2 = dict(kw, method=method) if method else kw
        A.rewind()
        d.circular_patch(i, j, *args, dia, **kw2)
        got = A.cells(d.dmd_state)
        A.check('shape', d.dmd_state.shape == (Ny, Nx), d.dmd_state.shape)
        if kind in ('bool', 'off') and method != 'ideal':
            A.check('boolean', d.dmd_state.dtype == bool, d.dmd_state.dtype)
        A.rewind()
        ref = full(A, d, args, method or 'random', kw)
        A.eq('patch', got, merged(A, ref, old, A.c(i), A.c(j), A.c(dia)))
    return fn


def sequence(Nx, Ny, methods, kind):
    """Patches written one after the other."""
    def fn(A):
        d = device(A, Nx, Ny)
        cur = prior(A, d, Nx, Ny, kind)
        for k, m in enumerate(methods):
            args = [A.real('amp%d' % k, 0, 1), 0, A.real('pout%d' % k, -3, 3)]
            if m == 'random':
                A.assume(A.and_(A.c(args[0]) >= 0, A.num(1) >= A.c(args[0])))
            i, j, dia = A.real('ci%d' % k, 0, Ny), A.real('cj%d' % k, 0, Nx), A.real('d%d' % k, 0.5, 3, pos=True)
            A.rewind()
            d.circular_patch(i, j, *args, dia, method=m)
            got = A.cells(d.dmd_state)
            A.rewind()
            ref = full(A, d, args, m, {})
            cur = merged(A, ref, cur, A.c(i), A.c(j), A.c(dia))
            A.eq('after patch %d' % k, got, cur)
    return fn


def snapshot(A):
    """A patch does not write into the array that was assigned before, and not into another device."""
    d, e = device(A, 3, 2, tag='d'), device(A, 3, 2, tag='e')
    st = A.bools('s', (2, 3))
    c = A.cells(st)
    d.dmd_state = st
    e.dmd_state = st
    d.circular_patch(A.real('ci', 0, 2), A.real('cj', 0, 3), 1.0, 0.0, A.real('pout', -3, 3), A.real('d', 0.5, 3, pos=True), method='simple')
    A.eq('array', st, c)
    A.eq('other device', e.dmd_state, c)


def unknown(A):
    d = device(A, 2, 2)
    st = prior(A, d, 2, 2, 'bool')
    A.raises('unknown method', lambda: d.circular_patch(0, 0, 1.0, 0.0, 0.0, 2, method='no such method'), ValueError)
    A.eq('state', d.dmd_state, st)


def cases(tier):
    q = tier == 'quick'
    out = [dict(name='snapshot', fn=snapshot, cost=0.5), dict(name='unknown', fn=unknown, cost=0.3)]
    for method in ('ideal', 'simple', 'random', None):
        for kind in ('bool', 'gray', 'off') + (() if q else ('double',)):
            out.append(dict(name='%s_%s' % (method, kind), fn=single(2, 2, method, kind, 'arrays'), cost=0.8))
        out.append(dict(name='%s_numbers_neg' % method, fn=single(3, 2, method, 'bool', 'numbers', neg=True), cost=1))
    out.append(dict(name='simple_profiles', fn=single(3, 2, 'simple', 'bool', 'profiles'), cost=1))
    out.append(dict(name='ideal_profiles', fn=single(2, 3, 'ideal', 'gray', 'profiles'), cost=1))
    out.append(dict(name='wide', fn=single(4, 1, 'simple', 'bool', 'numbers'), cost=0.8))
    out.append(dict(name='tall', fn=single(1, 4, 'simple', 'bool', 'numbers'), cost=0.8))
    out.append(dict(name='integers', fn=single(3, 2, 'simple', 'bool', 'numbers', integer=True), cost=1))
    out.append(dict(name='sequence_simple', fn=sequence(2, 2, ['simple'] * 3, 'bool'), cost=2))
    out.append(dict(name='sequence_ideal', fn=sequence(2, 2, ['ideal'] * 3, 'gray'), cost=2))
    out.append(dict(name='sequence_mixed', fn=sequence(2, 1, ['simple', 'random', 'simple'], 'off'), cost=2))
    out.append(dict(name='sequence_mixed_gray', fn=sequence(2, 1, ['simple', 'ideal', 'simple'], 'bool'), cost=2))
    for nx, ny in ((4, 3),) + (() if q else ((6, 4), (5, 5))):
        for m in ('ideal', 'simple', 'random'):
            out.append(dict(name='%s_%dx%d' % (m, nx, ny), fn=single(nx, ny, m, 'bool' if m != 'ideal' else 'gray', 'arrays'), cost=4))
    if not q:
        out.append(dict(name='sequence_4', fn=sequence(3, 2, ['simple'] * 4, 'bool'), cost=5))
    return out
