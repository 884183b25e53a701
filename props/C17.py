"""The iterative Fourier transform (IFTA) hologram."""
BOUNDS = ("panels 1x1 with up to 8 iterations, 2x1 with 4, 1x2, 2x2 and 3x1 with 2, 1x3 and 4x1 with one (quick), 1x1 with 20, 2x1 with 5, 3x2 and 4x2 with one (thorough); complex input and target "
          "fields, complex signal windows, scaling, periodicity, angle, wavelength, focal length and pixel size symbolic; beams with unlit pixels; windows "
          "as arrays, numbers and uninterpreted profiles; both orders; arrays changed in place between calls; 32 and 64 bit")
FUNCTIONS = ["slm.DMD.calculate_dmd_state", "_lib.calculate_dmd_grating", "_lib._calculate_dmd_grating_ifta", "_lib._ifta_binarize_hologram",
             "_lib._ifta_correct_profile", "_lib._fourier_transform", "_lib._inverse_fourier_transform"]
OUTSIDE = "the default of 200 iterations other than for a window of ones; pixel values that equal a threshold up to rounding"
from props.C13 import device
from props.C15 import spectrum, nonzero
from props.C16 import field


def shift(A, a, inverse=False):
    """fftshift / ifftshift of an object array."""
    ny, nx = a.shape
    sy, sx = ny // 2, nx // 2
    return A.grid(lambda i, j: a[(i + sy) % ny, (j + sx) % nx] if inverse else a[(i - sy) % ny, (j - sx) % nx], ny, nx)


def to_image(A, a):
    return shift(A, A.dft2(shift(A, a, True), inverse=True))


def to_panel(A, a):
    return shift(A, A.dft2(shift(A, a, True)))


def iterate(A, inp, start, window, N, dark):
    g = start
    want = to_image(A, A.map(lambda a, x: a * x, inp, start))
    for k in range(N):
        t = A.frac(k + 1, 2 * N)
        b = A.map(lambda x: A.ite(t > x, A.num(0), A.ite(x > 1 - t, A.num(1), x)), g)
        img = to_image(A, A.map(lambda a, x: a * x, inp, b))
        img = A.map(lambda f, w, s: f + (w - f) * s, img, want, window)
        back = to_panel(A, img)
        g = A.grid(lambda i, j: A.num(0) if dark[i][j] else A.re(back[i, j] / inp[i, j]), *inp.shape)
    return A.map(lambda x: x > A.frac(1, 2), g)


def setup(A, Nx, Ny, neg, pattern, cls=None):
    d = device(A, Nx, Ny, neg)
    pattern = pattern or 'x' * (Nx * Ny)
    inp = field(A, 'in', Ny, Nx, pattern) if 'o' in pattern else A.complexes('in', (Ny, Nx))
    tgt = A.complexes('t', (Ny, Nx))
    dark = [[pattern[i * Nx + j] == 'o' for j in range(Nx)] for i in range(Ny)]
    if 'o' not in pattern:
        nonzero(A, A.cells(inp))
    nonzero(A, spectrum(A, d, A.cells(tgt)))
    return d, inp, tgt, dark


def grayscale(A, d, inp, tgt, **kw):
    eta = d.calculate_dmd_state(inp, tgt, method='ideal', **kw)
    return A.cells(d.dmd_state), A.c(eta)


def algorithm(Nx, Ny, N, neg=False, pattern=None, window='complex', s=True, filt=False):
    def fn(A):
        d, inp, tgt, dark = setup(A, Nx, Ny, neg, pattern)
        kw = {}
        if filt:
            w0 = A.complexes('w0', (Ny, Nx))
            nonzero(A, A.cells(w0))
            kw['window'] = w0
        g0, eta0 = grayscale(A, d, inp, tgt, **kw)
        if window == 'complex':
            w = A.complexes('w', (Ny, Nx))
            cw = A.cells(w)
        elif window == 'bool':
            w = A.bools('w', (Ny, Nx))
            cw = A.map(lambda b: A.ite(b, A.num(1), A.num(0)), A.cells(w))
            w = A.np.where(w, 1.0, 0.0)
        elif window == 'real':
            w = A.reals('w', (Ny, Nx))
            cw = A.cells(w)
        elif window == 'number':
            w = A.real('w')
            cw = A.grid(lambda i, j: A.c(w), Ny, Nx)
        elif window == 'profile':
            w = A.profile('w')
            u, v = [A.cells(t) for t in d.image_plane_grid]
            cw = A.map(lambda a, b: A.fcells('w', a, b), u, v)
        if s:
            sc = A.real('s')
            A.assume(A.c(sc) >= 0)
            kw, cs = dict(kw, s=sc), A.c(sc)
        else:
            cs = A.num(1)
        eta = d.calculate_dmd_state(inp, tgt, method='ifta', signal_window=w, N=N, **kw)
        A.check('shape', d.dmd_state.shape == (Ny, Nx), d.dmd_state.shape)
        A.check('boolean', d.dmd_state.dtype == bool, d.dmd_state.dtype)
        A.eq('efficiency', eta, eta0)
        st = A.cells(d.dmd_state)
        start = A.map(lambda x: cs * x, g0)
        A.eq('iteration', st, iterate(A, A.cells(inp), start, cw, N, dark))
        for i in range(Ny):
            for j in range(Nx):
                if dark[i][j]:
                    A.true('no light, off', A.not_(st[i, j]))
    return fn


def everything(Nx, Ny, N, neg=False, pattern=None, how='ones'):
    """A window that covers the image plane: threshold of the scaled grating, for every number of iterations."""
    def fn(A):
        d, inp, tgt, dark = setup(A, Nx, Ny, neg, pattern)
        g0, _ = grayscale(A, d, inp, tgt)
        sc = A.real('s', pos=True)
        w = 1 if how == 'number' else A.np.ones((Ny, Nx), dtype=A.np.complex64 if how == 'complex' else A.np.float64)
        kw = dict(N=N) if N else {}
        d.calculate_dmd_state(inp, tgt, method='ifta', signal_window=w, s=sc, **kw)
        st = A.cells(d.dmd_state)
        A.eq('threshold', st, A.grid(lambda i, j: A.b(False) if dark[i][j] else A.c(sc) * g0[i, j] > A.frac(1, 2), Ny, Nx))
    return fn


def nothing(Nx, Ny, N):
    """A window that covers nothing: the pushed grating is kept."""
    def fn(A):
        d, inp, tgt, dark = setup(A, Nx, Ny, False, None)
        g0, _ = grayscale(A, d, inp, tgt)
        d.calculate_dmd_state(inp, tgt, method='ifta', signal_window=A.np.zeros((Ny, Nx)), N=N)
        A.eq('threshold', A.cells(d.dmd_state), A.map(lambda x: x > A.frac(1, 2), g0))
    return fn


def binary(Nx, Ny, N, neg=False):
    """A grating that is 0 or 1 everywhere survives any window."""
    def fn(A):
        import pySLM2
        import tensorflow as tf
        d = pySLM2.DMD(A.real('lam', pos=True), A.real('f', pos=True), 2, 0.0, Nx, Ny, A.real('ps', pos=True), negative_order=neg)
        inp = A.complexes('in', (Ny, Nx), dtype=A.np_cdtype)
        nonzero(A, A.cells(inp))
        w = A.complexes('w', (Ny, Nx), dtype=A.np_cdtype)
        d.set_dmd_grating_state(1, 0, 0, method='ideal')
        want = A.map(lambda v: v > A.frac(1, 2), A.cells(d.dmd_state))
        d.set_dmd_grating_state(1, 0, 0, method='ifta', input_profile=tf.constant(inp), signal_window=tf.constant(w), N=N)
        A.eq('unchanged', d.dmd_state, want)
    return fn


def in_place(Nx, Ny):
    """The arguments are read at every call, also when the same arrays come back changed."""
    def fn(A):
        d, inp, tgt, dark = setup(A, Nx, Ny, False, None)
        w = A.complexes('w', (Ny, Nx))

        def run(label, N, **kw):
            nonzero(A, A.cells(inp))
            nonzero(A, spectrum(A, d, A.cells(tgt)))
            g0, eta0 = grayscale(A, d, inp, tgt)
            eta = d.calculate_dmd_state(inp, tgt, method='ifta', signal_window=w, N=N, **kw)
            A.eq(label + ' efficiency', eta, eta0)
            cs = A.c(kw['s']) if kw else A.num(1)
            A.eq(label, A.cells(d.dmd_state), iterate(A, A.cells(inp), A.map(lambda x: cs * x, g0), A.cells(w), N, dark))
        run('first', 1)
        w[0, 0] = A.complexes('w2', ())
        run('window changed', 1)
        inp[0, 0] = A.complexes('in2', ())
        run('input changed', 1)
        tgt[Ny - 1, Nx - 1] = A.complexes('t2', ())
        run('target changed', 1)
        run('scaled', 1, s=A.real('s', pos=True))
        run('not scaled', 1)
        run('two iterations', 2)
        run('one iteration', 1)
    return fn


def cases(tier):
    q = tier == 'quick'
    out = []
    for nx, ny, n in [(1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 2, 1), (1, 1, 3), (1, 2, 2), (2, 1, 2), (2, 2, 1), (3, 1, 1), (1, 3, 1), (4, 1, 1), (2, 1, 3), (1, 1, 8), (2, 2, 2), (2, 1, 4), (3, 1, 2)] + \
            ([] if q else [(1, 1, 20), (3, 2, 1), (2, 1, 5), (4, 2, 1)]):
        out.append(dict(name='iteration_%dx%d_%d' % (nx, ny, n), fn=algorithm(nx, ny, n, neg=n == 2), cost=nx * ny * n))
    out.append(dict(name='iteration_unlit_1', fn=algorithm(2, 1, 1, pattern='xo'), cost=2))
    out.append(dict(name='iteration_unlit_2', fn=algorithm(1, 2, 2, pattern='ox'), cost=2))
    out.append(dict(name='iteration_unlit_2x2', fn=algorithm(2, 2, 1, pattern='xoox', s=False), cost=3))
    out.append(dict(name='real_2x1_2', fn=algorithm(2, 1, 2, window='real', s=False), cost=4))
    out.append(dict(name='real_2x2_1', fn=algorithm(2, 2, 1, window='real', s=False), cost=4))
    out.append(dict(name='real_3x1_1', fn=algorithm(3, 1, 1, window='real', s=False), cost=4))
    out.append(dict(name='iteration_neg', fn=algorithm(2, 1, 1, neg=True), cost=2))
    out.append(dict(name='iteration_unscaled', fn=algorithm(2, 1, 1, s=False), cost=2))
    out.append(dict(name='iteration_filter', fn=algorithm(2, 1, 1, filt=True), cost=2))
    for w in ('number', 'profile', 'bool'):
        out.append(dict(name='window_' + w, fn=algorithm(2, 1, 1, window=w), cost=2))
    for n in (1, 2, 3) + (() if q else (5, 10, 0)):
        out.append(dict(name='everything_%d' % n, fn=everything(2, 1, n, how='complex' if n == 2 else 'ones'), cost=n + 1))
    out.append(dict(name='everything_2x2', fn=everything(2, 2, 1, neg=True, how='number'), cost=3))
    out.append(dict(name='everything_unlit', fn=everything(2, 1, 2, pattern='ox'), cost=2))
    for n in (1, 2, 3):
        out.append(dict(name='nothing_%d' % n, fn=nothing(2, 1, n), cost=n))
    for n in (1, 2, 3):
        out.append(dict(name='binary_%d' % n, fn=binary(2, 2 if n == 1 else 1, n, neg=n == 2), cost=n))
    out.append(dict(name='in_place', fn=in_place(1, 1), cost=4))
    return out
