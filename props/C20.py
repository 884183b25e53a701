"""Phase retrieval (Gerchberg-Saxton and MRAF) on LCOS panels."""
BOUNDS = ("panels up to 4x4 with one iteration, 3x3 with 2, 2x2 with 3, 2x1 with 12, 1x1 with 20 (quick), 1x1 with 50, 2x1 with 20, 2x2 with 12, 4x3 and 3x3 with 4, 4x4 with 3 (thorough); "
          "complex input fields, targets, signal windows, mixing factor and the random starting phases symbolic; targets and windows as arrays, numbers and "
          "uninterpreted profiles; arrays changed in place between calls; 32 and 64 bit")
FUNCTIONS = ["slm.LCOS_SLM.calculate_hologram", "_lib.calculate_lcos_slm_hologram", "_lib._calculate_lcos_slm_hologram_gs",
             "_lib._calculate_lcos_slm_hologram_mraf", "_lib._fourier_transform", "_lib._inverse_fourier_transform"]
OUTSIDE = "the default of 200 iterations except through the fixed point; pixels whose back-propagated field vanishes (their phase is free)"
from props.C01 import make
from props.C15 import nonzero
from props.C17 import shift


def panel(A, Nx, Ny, tag=''):
    return make('LCOS', A.real('lam' + tag, pos=True), A.real('f' + tag, pos=True), Nx, Ny, A.real('ps' + tag, pos=True), A)


def start(A, Nx, Ny):
    A.rewind()
    ph = [2 * A.pi * A.draw(k) for k in range(Nx * Ny)]
    A.rewind()
    return A.grid(lambda i, j: A.expi(ph[i * Nx + j]), Ny, Nx)


def unit(A, z):
    """exp(i*angle(z))"""
    return A.expi(A.angle(z))


def step(A, inp, u, target, window=None, m=None):
    """One iteration: modulation u -> back-propagated field times conj(input).

    Image phases are relative to pixel (0, 0) of the panel, a choice the iteration does not depend on (C21 fixes the position of the image)."""
    F = A.dft2(A.map(lambda a, b: a * b, inp, u), inverse=True)
    target = shift(A, target, True)
    if window is not None:
        window = shift(A, window, True)
    if window is None:
        C = A.map(lambda t, z: t * unit(A, z), target, F)
    else:
        C = A.map(lambda t, z, w: m * t * unit(A, z) * w + (1 - m) * z * (1 - w), target, F, window)
    return A.map(lambda b, a: b * A.conj(a), A.dft2(C), inp)


def result(A, s, inp, Nx, Ny):
    A.check('shape', s.slm_state.shape == (Ny, Nx), s.slm_state.shape)
    A.check('dtype', s.slm_state.dtype == A.np_dtype, s.slm_state.dtype)
    return A.cells(s.slm_state)


def compare(A, st, z):
    """The phase map st is the phase of z wherever z does not vanish."""
    for i in range(st.shape[0]):
        for j in range(st.shape[1]):
            A.true('range %d %d' % (i, j), A.and_(A.ge(A.pi, st[i, j]), A.ge(st[i, j], -A.pi)))
    A.eq('phase', A.map(A.expi, st), A.map(lambda w: unit(A, w), z))


def targets(A, kind, s, Nx, Ny, name='t'):
    if kind == 'number':
        t = A.real(name, pos=True)
        return t, A.grid(lambda i, j: A.c(t), Ny, Nx)
    if kind == 'profile':
        t = A.profile(name)
        u, v = [A.cells(g) for g in s.image_plane_grid]
        return t, A.map(lambda a, b: A.fcells(name, a, b), u, v)
    if kind == 'double':
        t = A.reals(name, (Ny, Nx), 0.2, 2, dtype=A.np.float64)
        return t, A.cells(t)
    t = A.reals(name, (Ny, Nx), 0.2, 2, dtype=A.np_dtype)
    return t, A.cells(t)


def windows(A, kind, s, Nx, Ny):
    if kind == 'complex':
        w = A.complexes('w', (Ny, Nx))
        return w, A.cells(w)
    if kind == 'bool':
        w = A.bools('w', (Ny, Nx))
        return A.np.where(w, 1.0, 0.0), A.map(lambda b: A.ite(b, A.num(1), A.num(0)), A.cells(w))
    return targets(A, kind, s, Nx, Ny, 'w')


def beam(A, kind, s, Nx, Ny):
    if kind == 'profile':
        p = A.profile('in', cplx=True)
        x, y = [A.cells(g) for g in s.fourier_plane_grid]
        c = A.map(lambda a, b: A.fcells('in', a, b, cplx=True), x, y)
        nonzero(A, c)
        return p, c
    if kind == 'real':
        a = A.reals('in', (Ny, Nx), 0.2, 2, dtype=A.np_dtype)
        nonzero(A, A.cells(a))
        return a, A.cells(a)
    if kind == 'number':
        a = A.real('in', pos=True)
        return a, A.grid(lambda i, j: A.c(a), Ny, Nx)
    a = A.complexes('in', (Ny, Nx))
    nonzero(A, A.cells(a))
    return a, A.cells(a)


def gs(Nx, Ny, N, bkind='complex', tkind='array'):
    def fn(A):
        s = panel(A, Nx, Ny)
        inp, ci = beam(A, bkind, s, Nx, Ny)
        tgt, ct = targets(A, tkind, s, Nx, Ny)
        u = start(A, Nx, Ny)
        s.calculate_hologram(inp, tgt, method='gs', N=N)
        st = result(A, s, inp, Nx, Ny)
        for k in range(N):
            z = step(A, ci, u, ct)
            if k < N - 1:
                u = A.map(lambda w: unit(A, w), z)
        compare(A, st, z)
    return fn


def mraf(Nx, Ny, N, bkind='complex', tkind='array', wkind='complex', default=False):
    def fn(A):
        s = panel(A, Nx, Ny)
        inp, ci = beam(A, bkind, s, Nx, Ny)
        tgt, ct = targets(A, tkind, s, Nx, Ny)
        win, cw = windows(A, wkind, s, Nx, Ny)
        u = start(A, Nx, Ny)
        if default:
            kw, m = {}, A.frac(2, 5)
        else:
            mf = A.real('m', 0, 1)
            kw, m = dict(mixing_factor=mf), A.c(mf)
        s.calculate_hologram(inp, tgt, method='mraf', N=N, signal_window=win, **kw)
        st = result(A, s, inp, Nx, Ny)
        for k in range(N):
            z = step(A, ci, u, ct, cw, m)
            if k < N - 1:
                u = A.map(lambda w: unit(A, w), z)
        compare(A, st, z)
    return fn


def same(A, label, a, b):
    A.eq(label, A.map(A.expi, a), A.map(A.expi, b))


def full_window(Nx, Ny, N):
    """MRAF with m = 1 and a window covering everything is GS."""
    def fn(A):
        s, t = panel(A, Nx, Ny, 'a'), panel(A, Nx, Ny, 'b')
        inp, ci = beam(A, 'complex', s, Nx, Ny)
        tgt, ct = targets(A, 'array', s, Nx, Ny)
        A.rewind()
        s.calculate_hologram(inp, tgt, method='gs', N=N)
        A.rewind()
        t.calculate_hologram(inp, tgt, method='mraf', N=N, signal_window=A.np.ones((Ny, Nx)), mixing_factor=1.0)
        same(A, 'full window', A.cells(s.slm_state), A.cells(t.slm_state))
    return fn


def scaled(Nx, Ny, N):
    def fn(A):
        s, t = panel(A, Nx, Ny, 'a'), panel(A, Nx, Ny, 'b')
        inp, ci = beam(A, 'complex', s, Nx, Ny)
        tgt, ct = targets(A, 'array', s, Nx, Ny)
        k = A.real('k', 0.3, 3, pos=True)
        A.rewind()
        s.calculate_hologram(inp, tgt, method='gs', N=N)
        A.rewind()
        t.calculate_hologram(inp, k * tgt, method='gs', N=N)
        same(A, 'scaled target', A.cells(s.slm_state), A.cells(t.slm_state))
    return fn


def fixed_point(Nx, Ny, N):
    """A target that the starting phases already produce: they are kept (GS without number of iterations too)."""
    def fn(A):
        s = panel(A, Nx, Ny)
        inp = A.complexes('in', (Ny, Nx), dtype=A.np_cdtype)
        ci = A.cells(inp)
        nonzero(A, ci)
        u = start(A, Nx, Ny)
        F = A.dft2(A.map(lambda a, b: a * b, ci, u), inverse=True)
        nonzero(A, F)
        A.rewind()
        import tensorflow as tf
        ph = 2 * A.np.pi * tf.random.uniform((Ny, Nx), dtype=A.np_dtype)
        A.rewind()
        tgt = abs(tf.signal.fftshift(tf.signal.ifft2d(tf.constant(inp) * tf.exp(1j * tf.cast(ph, A.np_cdtype)))))
        s.calculate_hologram(inp, tgt, method='gs', N=N)
        A.eq('kept', A.map(A.expi, A.cells(s.slm_state)), u)
    return fn


def twice(Nx, Ny):
    """A second hologram does not depend on the first; other panels keep theirs."""
    def fn(A):
        s, t = panel(A, Nx, Ny, 'a'), panel(A, Nx, Ny, 'b')
        i1, c1 = beam(A, 'complex', s, Nx, Ny)
        t1, ct1 = targets(A, 'array', s, Nx, Ny)
        i2 = A.complexes('second', (Ny, Nx))
        t2 = A.reals('tsecond', (Ny, Nx), 0.2, 2, dtype=A.np_dtype)
        nonzero(A, A.cells(i2))
        A.rewind()
        s.calculate_hologram(i1, t1, N=1)
        first = A.cells(s.slm_state)
        A.rewind()
        t.calculate_hologram(i2, t2, N=1)
        A.eq('other panel', s.slm_state, first)
        second = A.cells(t.slm_state)
        A.rewind()
        s.calculate_hologram(i2, t2, N=1)
        same(A, 'second hologram', A.cells(s.slm_state), second)
    return fn


def in_place(Nx, Ny):
    """The arguments are read at every call, also when the same arrays come back changed."""
    def fn(A):
        s = panel(A, Nx, Ny)
        inp, ci = beam(A, 'complex', s, Nx, Ny)
        tgt, ct = targets(A, 'array', s, Nx, Ny)
        win = A.complexes('w', (Ny, Nx))
        m = A.real('m', 0, 1)
        u = start(A, Nx, Ny)

        def run(label, method):
            nonzero(A, A.cells(inp))
            A.rewind()
            if method == 'gs':
                s.calculate_hologram(inp, tgt, method='gs', N=1)
                z = step(A, A.cells(inp), u, A.cells(tgt))
            else:
                s.calculate_hologram(inp, tgt, method='mraf', N=1, signal_window=win, mixing_factor=m)
                z = step(A, A.cells(inp), u, A.cells(tgt), A.cells(win), A.c(m))
            A.eq(label, A.map(A.expi, A.cells(s.slm_state)), A.map(lambda w: unit(A, w), z))
        run('first', 'gs')
        tgt[0, 0] = A.reals('t2', (), 0.2, 2, dtype=A.np_dtype)
        run('target changed', 'gs')
        inp[Ny - 1, Nx - 1] = A.complexes('in2', ())
        run('input changed', 'gs')
        run('window', 'mraf')
        win[0, 0] = A.complexes('w2', ())
        run('window changed', 'mraf')
        run('no window', 'gs')
        s.slm_state[0, 0] = 0.5
        run('state changed', 'gs')
    return fn


def unknown(A):
    s = panel(A, 2, 2)
    st = A.reals('ph', (2, 2), -3, 3)
    s.slm_state = st
    for name in ('nosuch', 'GS', '', 'ifta', None):
        A.raises('method %r' % (name,), lambda: s.calculate_hologram(1.0, 1.0, method=name), ValueError)
    A.eq('state', s.slm_state, st)


def cases(tier):
    q = tier == 'quick'
    out = [dict(name='unknown', fn=unknown, cost=0.3)]
    for nx, ny, n in [(1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 2, 1), (2, 2, 1), (3, 1, 1), (2, 1, 2), (1, 2, 2), (4, 1, 1), (3, 2, 1), (2, 2, 3), (2, 1, 5),
                      (3, 3, 2), (4, 4, 1), (1, 1, 20), (2, 1, 12)] + \
            ([] if q else [(1, 1, 50), (2, 1, 20), (4, 3, 4), (4, 4, 3), (8, 1, 3), (3, 3, 4), (6, 2, 3), (2, 2, 12)]):
        out.append(dict(name='gs_%dx%d_%d' % (nx, ny, n), fn=gs(nx, ny, n), cost=nx * ny * n))
        out.append(dict(name='mraf_%dx%d_%d' % (nx, ny, n), fn=mraf(nx, ny, n), cost=nx * ny * n))
    for k in ('number', 'profile', 'real'):
        out.append(dict(name='beam_' + k, fn=gs(2, 1, 1, bkind=k), cost=1))
    for k in ('number', 'profile', 'double'):
        out.append(dict(name='target_' + k, fn=gs(1, 2, 1, tkind=k), cost=1))
        out.append(dict(name='mraf_target_' + k, fn=mraf(2, 1, 1, tkind=k), cost=1))
    for k in ('number', 'profile', 'double', 'bool'):
        out.append(dict(name='window_' + k, fn=mraf(2, 1, 1, wkind=k), cost=1))
    out.append(dict(name='mraf_default', fn=mraf(2, 2, 1, wkind='bool', default=True), cost=2))
    out.append(dict(name='full_window_1', fn=full_window(2, 2, 1), cost=1))
    out.append(dict(name='full_window_2', fn=full_window(2, 1, 2), cost=1))
    out.append(dict(name='scaled_1', fn=scaled(2, 2, 1), cost=1))
    out.append(dict(name='scaled_2', fn=scaled(2, 1, 2), cost=1))
    for nx, ny, n in [(2, 1, 1), (2, 2, 1), (2, 1, 3), (3, 1, 1), (1, 2, 5)]:
        out.append(dict(name='fixed_%dx%d_%d' % (nx, ny, n), fn=fixed_point(nx, ny, n), cost=1))
    out.append(dict(name='twice', fn=twice(2, 1), cost=1))
    out += [dict(name='in_place_2x1', fn=in_place(2, 1), cost=2), dict(name='in_place_1x2', fn=in_place(1, 2), cost=2)]
    return out
