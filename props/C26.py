"""FFT back ends."""
BOUNDS = ("fields up to 4x3 (quick) / 6x4 (thorough), all values symbolic; every sequence of back-end selections over 3 calls (the selections are symbolic "
          "booleans); propagation, DMD hologram, IFTA and phase retrieval under either back end; 32 and 64 bit")
FUNCTIONS = ["_lib._fourier_transform", "_lib._inverse_fourier_transform", "_lib._numpy_fft2", "_lib._numpy_ifft2", "_backend._BackEnd.fft_backend"]
from props.C13 import device
from props.C22 import setup, put_state, expect


def choose(A, k):
    import pySLM2
    B = pySLM2.BACKEND
    if A.bool('numpy%d' % k):
        B.fft_backend = B.FFT_BACKEND_NUMPY
        want = B.FFT_BACKEND_NUMPY
    else:
        B.fft_backend = B.FFT_BACKEND_TENSORFLOW
        want = B.FFT_BACKEND_TENSORFLOW
    A.check('selection is reported %d' % k, int(B.fft_backend) == want, B.fft_backend)


def fields(Nx, Ny, px, py, steps):
    """One simulation, propagated under a different back end each time."""
    def fn(A):
        d, s, sf, ps = setup(A, 'DMD', Nx, Ny, px, py)
        mod = put_state(A, d, 'DMD', Nx, Ny, 'gray')
        for k in range(steps):
            choose(A, k)
            inp = A.complexes('in%d' % k, (Ny, Nx))
            s.propagate_to_image(inp)
            expect(A, s, A.cells(inp), mod, px, py, sf, ps, 'step %d' % k, intensities=False)
    return fn


def both(A, run):
    """run(A) under each back end, in both orders."""
    import pySLM2
    B = pySLM2.BACKEND
    sel = (B.FFT_BACKEND_NUMPY, B.FFT_BACKEND_TENSORFLOW)
    res = []
    for b in (sel if A.bool('numpy first') else tuple(reversed(sel))):
        B.fft_backend = b
        A.rewind()
        res.append(run())
    return res


def hologram(Nx, Ny, method):
    def fn(A):
        d = device(A, Nx, Ny)
        inp, tgt = A.complexes('in', (Ny, Nx)), A.complexes('tgt', (Ny, Nx))
        kw = dict(N=1, signal_window=A.reals('w', (Ny, Nx), 0, 1)) if method == 'ifta' else {}

        def run():
            eta = d.calculate_dmd_state(inp, tgt, method=method, **kw)
            return A.cells(d.dmd_state), A.c(eta)
        (s1, e1), (s2, e2) = both(A, run)
        A.eq('state', s1, s2, defined=False)
        A.eq('efficiency', e1, e2, defined=False)
    return fn


def retrieval(Nx, Ny, method):
    def fn(A):
        import pySLM2
        lam, f, ps = A.real('lam', pos=True), A.real('f', pos=True), A.real('ps', pos=True)
        d = pySLM2.LCOS_SLM(lam, f, Nx, Ny, ps)
        inp, tgt = A.complexes('in', (Ny, Nx)), A.reals('tgt', (Ny, Nx), 0.1, 1)
        kw = dict(signal_window=A.reals('w', (Ny, Nx), 0, 1), mixing_factor=A.real('m', 0, 1)) if method == 'mraf' else {}

        def run():
            d.calculate_hologram(inp, tgt, method=method, N=1, **kw)
            return A.cells(d.slm_state)
        a, b = both(A, run)
        A.eq('phase', a, b, defined=False)
    return fn


def roundtrip(Nx, Ny):
    """Forward and inverse transforms undo each other under either back end, also across back ends."""
    def fn(A):
        import tensorflow as tf
        from pySLM2 import _lib, BACKEND
        fwd, inv = getattr(_lib, '_fourier_transform', None), getattr(_lib, '_inverse_fourier_transform', None)
        if fwd is None or inv is None:
            return
        z = A.complexes('z', (Ny, Nx), dtype=A.np_cdtype)
        c = A.cells(z)
        t = tf.constant(z, dtype=BACKEND.dtype_complex)
        choose(A, 0)
        F = fwd(t)
        A.check('forward dtype', F.dtype == BACKEND.dtype_complex, F.dtype)
        A.check('forward shape', tuple(F.shape) == (Ny, Nx), F.shape)
        A.eq('forward', F, A.dft2(c))
        I = inv(t)
        A.check('inverse dtype', I.dtype == BACKEND.dtype_complex, I.dtype)
        A.eq('inverse', I, A.dft2(c, inverse=True))
        choose(A, 1)
        A.eq('forward then inverse', inv(F), c)
        A.eq('inverse then forward', fwd(I), c)
    return fn


def cases(tier):
    q = tier == 'quick'
    out = [dict(name='fields_2x2', fn=fields(2, 2, 0, 0, 3), cost=2), dict(name='fields_pad', fn=fields(2, 1, 0, 1, 2), cost=2)]
    for nx, ny in [(1, 1), (2, 1), (1, 3), (3, 2), (4, 3)] + ([] if q else [(4, 4), (6, 2), (6, 4), (1, 8), (3, 3), (8, 3)]):
        out.append(dict(name='roundtrip_%dx%d' % (nx, ny), fn=roundtrip(nx, ny), cost=0.5 + (nx * ny) ** 2 / 60.))
    for m in ('ideal', 'simple', 'ifta', 'random'):
        out.append(dict(name='hologram_%s' % m, fn=hologram(2, 1, m), cost=2))
        if not q:
            out.append(dict(name='hologram_%s_2x2' % m, fn=hologram(2, 2, m), cost=4))
    for m in ('gs', 'mraf'):
        out.append(dict(name='retrieval_%s' % m, fn=retrieval(2, 1, m), cost=2))
        if not q:
            out.append(dict(name='retrieval_%s_2x2' % m, fn=retrieval(2, 2, m), cost=4))
    if not q:
        out += [dict(name='fields_4x2', fn=fields(4, 2, 0, 0, 3), cost=5), dict(name='fields_3x3', fn=fields(3, 3, 0, 0, 3), cost=5),
                dict(name='fields_pad2', fn=fields(2, 2, 1, 2, 3), cost=6)]
    return out
