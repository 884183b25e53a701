"""Precision lock."""
BOUNDS = ("every sequence of up to 4 (quick) / 5 (thorough) operations out of {request 32 bit, request 64 bit, request something else, read real / complex / "
          "integer type} on a fresh back end, and of requests after use through the public API; the sequence is symbolic integers the solver enumerates; "
          "results of 40 public computations under either precision, and their values (a conversion to single precision inside the 64-bit library is another value)")
FUNCTIONS = ["_backend._BackEnd.dtype", "_backend._BackEnd.dtype_complex", "_backend._BackEnd.dtype_int", "_backend._BackEnd.__init__"]
GRAIN = 0.4
from props.C13 import device


def others():
    import tensorflow as tf
    return [tf.float16, tf.bfloat16, tf.int32, tf.int64, tf.complex64, tf.complex128, tf.bool, tf.string]


def history(steps):
    def fn(A):
        import tensorflow as tf
        import pySLM2
        B = type(pySLM2.BACKEND)()
        cur, used = tf.float32, False
        bad = others()
        for k in range(steps):
            op = A.int('op%d' % k, 0, 5)
            if op <= 2:
                if op == 0:
                    req, ok = tf.float32, True
                elif op == 1:
                    req, ok = tf.float64, True
                else:
                    req, ok = bad[k % len(bad)], False

                def assign():
                    B.dtype = req
                if used:
                    A.raises('step %d refused' % k, assign, Exception)
                elif not ok:
                    A.raises('step %d invalid' % k, assign, ValueError)
                else:
                    assign()
                    cur = req
                    A.check('step %d accepted' % k, True)
            else:
                used = True
                if op == 3:
                    A.check('step %d dtype' % k, B.dtype == cur, B.dtype)
                elif op == 4:
                    A.check('step %d complex' % k, B.dtype_complex == (tf.complex64 if cur == tf.float32 else tf.complex128), B.dtype_complex)
                else:
                    A.check('step %d integer' % k, B.dtype_int == (tf.int32 if cur == tf.float32 else tf.int64), B.dtype_int)
        A.check('finally', (B.dtype == cur) and B.dtype_complex == (tf.complex64 if cur == tf.float32 else tf.complex128)
                and B.dtype_int == (tf.int32 if cur == tf.float32 else tf.int64), (B.dtype, B.dtype_complex, B.dtype_int))
        A.raises('finally refused', lambda: setattr(B, 'dtype', tf.float64 if cur == tf.float32 else tf.float32), Exception)
        A.check('still', B.dtype == cur, B.dtype)
    return fn


def invalid(A):
    """Nothing but the two float types is accepted, and a refused request changes nothing."""
    import tensorflow as tf
    import pySLM2
    import numpy
    for start in (tf.float32, tf.float64):
        for k, req in enumerate(others() + [None, 32, 64, 'float16', 'abc', numpy.float16, numpy.int64, float(0), object()]):
            B = type(pySLM2.BACKEND)()
            B.dtype = start
            A.raises('request %d' % k, lambda: setattr(B, 'dtype', req), (ValueError, TypeError))
            A.check('unchanged %d' % k, B.dtype == start, B.dtype)
    B = type(pySLM2.BACKEND)()
    A.check('default', B.dtype == tf.float32, B.dtype)
    B = type(pySLM2.BACKEND)()
    for t in (tf.float64, tf.float32, tf.float64, tf.float64):
        B.dtype = t
    A.check('last request counts', B.dtype == tf.float64, B.dtype)


def uses():
    """name -> computation; each one counts as use."""
    import numpy as np
    import pySLM2 as P

    from pySLM2 import analysis

    def dmd():
        return P.DMD(1e-6, 0.1, 4, 0.3, 2, 2, 1e-5)

    def lcos():
        return P.LCOS_SLM(1e-6, 0.1, 2, 2, 1e-5)
    x = np.array([[0.1, 0.2]])
    return {
        'dmd': dmd, 'fourier grid': lambda: lcos().fourier_plane_grid, 'image grid': lambda: lcos().image_plane_grid,
        'number to tensor': lambda: lcos().profile_to_tensor(1.0), 'complex to tensor': lambda: lcos().profile_to_tensor(1j, complex=True),
        'profile call': lambda: P.SuperGaussian(0.0, 0.0, 1.0, 1.0, 2)(x, x), 'constant': lambda: P.ConstantProfile(1.0)(x, x),
        'hg': lambda: P.HermiteGaussian(0.0, 0.0, 1.0, 1.0, n=1, m=2)(x, x), 'lg': lambda: P.LaguerreGaussian(0.0, 0.0, 1.0, 1.0, l=1, p=1)(x, x),
        'circle': lambda: P.RectangularWindowCircular(0.0, 0.0, 1.0)(x, x), 'derived': lambda: (P.ConstantProfile(2.0).rotate(0.5) * 2).shift(1.0, 0.0)(x, x),
        'hg object': lambda: P.HermiteGaussian(0.0, 0.0, 1.0, 1.0), 'sg object': lambda: P.SuperGaussian(0.0, 0.0, 1.0, 1.0), 'zernike object': lambda: P.Zernike(1.0, 1.0, 2, 0),
        'circle object': lambda: P.RectangularWindowCircular(0.0, 0.0, 1.0), 'rectangle object': lambda: P.RectangularWindowRectangle(0.0, 0.0, 1.0, 1.0),
        'decomposition': lambda: analysis.zernike_decomposition(np.ones((3, 3)), 1.5, 2), 'trivial phase': lambda: analysis.remove_trivial_phase(np.ones((3, 3)), 1.5),
        'grating': lambda: dmd().set_dmd_grating_state(0.5, 0, 1, method='ideal'), 'simulation': lambda: P.SLMSimulation(lcos(), 1, 0).propagate_to_image(1.0),
        'preset': lambda: P.DLP7000(1e-6, 0.1, 4, 0.3),
        'zernike': lambda: P.Zernike(1.0, 1.0, 1, 1)(x, x), 'window': lambda: P.RectangularWindowRectangle(0.0, 0.0, 1.0, 1.0)(x, x),
    }


def locked(A):
    """After any use through the library the precision stays as it is."""
    import tensorflow as tf
    import pySLM2
    B = pySLM2.BACKEND
    want = tf.float32 if A.bits == 32 else tf.float64
    other = tf.float64 if A.bits == 32 else tf.float32
    for nm, f in uses().items():
        f()
        for req in (other, tf.int32, want):
            A.raises('%s then %s' % (nm, req.name), lambda: setattr(B, 'dtype', req), Exception)
        A.check('%s keeps' % nm, B.dtype == want, B.dtype)


def first_use(A):
    """Every computation locks a precision that was not used before."""
    import tensorflow as tf
    import pySLM2
    B = pySLM2.BACKEND
    want = tf.float32 if A.bits == 32 else tf.float64
    other = tf.float64 if A.bits == 32 else tf.float32
    save = dict(vars(B))
    fresh = vars(type(B)())
    flags = {k for k in fresh if isinstance(fresh[k], bool) and k in save}
    for nm, f in uses().items():
        for k in flags:
            setattr(B, k, fresh[k])
        try:
            f()
            A.raises('%s locks' % nm, lambda: setattr(B, 'dtype', other), Exception)
            A.check('%s unchanged' % nm, B.dtype == want, B.dtype)
        finally:
            for k in flags:
                setattr(B, k, save[k])
            vars(B).update(save)


def results(A):
    """Everything computed has the chosen precision."""
    import pySLM2 as P
    np = A.np
    R, C = A.np_dtype, A.np_cdtype

    def isr(nm, v):
        A.check(nm + ' real', v.dtype == R, v.dtype)

    def isc(nm, v):
        A.check(nm + ' complex', v.dtype == C, v.dtype)
    d = device(A, 2, 2)
    l = P.LCOS_SLM(A.real('l', pos=True), A.real('g', pos=True), 2, 2, A.real('q', pos=True))
    for nm, o in (('dmd', d), ('lcos', l)):
        for g in ('fourier_plane_grid', 'image_plane_grid'):
            for v in getattr(o, g):
                isr('%s %s' % (nm, g), v)
        s = P.SLMSimulation(o, 1, 0)
        for g in ('fourier_plane_padded_grid', 'image_plane_padded_grid'):
            for v in getattr(s, g):
                isr('%s %s' % (nm, g), v)
        for dt in (np.float32, np.float64, np.complex64, np.complex128):
            a = A.reals('a', (2, 2), dtype=dt) if dt in (np.float32, np.float64) else A.complexes('a', (2, 2), dtype=dt)
            t = o.profile_to_tensor(a, complex=True)
            isc('%s tensor of %s' % (nm, np.dtype(dt).name), A_np(t))
            t = o.profile_to_tensor(a)
            isr('%s tensor of %s' % (nm, np.dtype(dt).name), A_np(t))
            s.propagate_to_image(a)
            for f in ('input', 'output', 'image_plane'):
                isc('%s %s_field' % (nm, f), getattr(s, f + '_field'))
                isr('%s %s_intensity' % (nm, f), getattr(s, f + '_intensity'))
        for v in (1, 0.5):
            isr('%s number' % nm, A_np(o.profile_to_tensor(v)))
            isc('%s complex number' % nm, A_np(o.profile_to_tensor(v, complex=True)))
    w = A.real('w', pos=True)
    profs = dict(hg=P.HermiteGaussian(0.0, 0.0, 1.0, w, n=1), sg=P.SuperGaussian(0.0, 0.0, 1.0, w, 2), z=P.Zernike(1.0, w, 1, 1), c=P.ConstantProfile(2.0),
                 r=P.RectangularWindowRectangle(0.0, 0.0, w, w), lg=P.LaguerreGaussian(0.0, 0.0, 1.0, w, l=1, p=0))
    for nm, p in profs.items():
        for dt in (np.float32, np.float64):
            x, y = A.reals('x', (2,), dtype=dt), A.reals('y', (2,), dtype=dt)
            v = p(x, y)
            A.check('profile ' + nm, v.dtype == (C if nm in ('lg',) and v.dtype.kind == 'c' else R), v.dtype)
            A.check('profile product ' + nm, (p * 2.0)(x, y).dtype in (R, C) and (p * 2.0)(x, y).dtype == v.dtype, v.dtype)
    d.set_dmd_grating_state(A.real('amp', 0, 1), A.real('pin', -1, 1), A.real('pout', -1, 1), method='ideal')
    isr('grating', d.dmd_state)
    inp, tgt = A.complexes('in', (2, 2)), A.complexes('tgt', (2, 2))
    eta = d.calculate_dmd_state(inp, tgt, method='ideal')
    isr('hologram', d.dmd_state)
    l.calculate_hologram(inp, A.reals('t', (2, 2)), method='gs', N=1)
    isr('gs', l.slm_state)
    l.calculate_hologram(inp, A.reals('t', (2, 2)), method='mraf', N=1, signal_window=A.reals('sw', (2, 2), 0, 1))
    isr('mraf', l.slm_state)


def values(A):
    """No value takes a detour through another precision (64 bit), or through one that changes it (32 bit)."""
    import pySLM2 as P
    from props.C01 import make
    from props import C05, C08, C22
    from props.C13 import ideal
    np = A.np
    x, y = A.reals('x', (2,), -1, 1), A.reals('y', (2,), -1, 1)
    X, Y = A.cells(x), A.cells(y)
    x0, y0, a, w = A.real('x0', -1, 1), A.real('y0', -1, 1), A.real('a'), A.real('w', pos=True)
    X0, Y0, AM, W = [A.c(v) for v in (x0, y0, a, w)]
    s2 = A.sqrt(A.num(2))

    def gauss(u, v):
        return AM * A.exp(-((u - X0) * (u - X0) + (v - Y0) * (v - Y0)) / (W * W))
    A.eq('hg', P.HermiteGaussian(x0, y0, a, w, n=2, m=1)(x, y),
         A.map(lambda u, v: gauss(u, v) * C05.hermite(A, 2, s2 * (u - X0) / W) * C05.hermite(A, 1, s2 * (v - Y0) / W), X, Y))
    A.eq('sg', P.SuperGaussian(x0, y0, a, w, 1)(x, y), A.map(gauss, X, Y))
    A.eq('zernike', P.Zernike(a, w, 3, 1, extrapolate=True)(x, y), A.map(lambda u, v: AM * C08.zernike(A, 3, 1, u, v, W), X, Y))
    A.eq('constant', P.ConstantProfile(a)(x, y) * np.ones((2,)), A.map(lambda u, v: AM, X, Y))
    A.eq('derived', ((P.ConstantProfile(a) + P.SuperGaussian(x0, y0, a, w, 1)) * 0.1).shift(0.3, w)(x, y),
         A.map(lambda u, v: (AM + gauss(u - A.frac(3, 10), v - W)) * A.frac(1, 10), X, Y))
    for k, v in (('x0', X0), ('y0', Y0), ('a', AM), ('w', W)):
        A.eq('parameter ' + k, getattr(P.HermiteGaussian(x0, y0, a, w), k), v)
    d = device(A, 2, 2)
    n, c = A.reals('n', (2, 2), -2, 2), A.complexes('c', (2, 2))
    A.eq('array', np.array(d.profile_to_tensor(n)), A.cells(n))
    A.eq('array, complex', np.array(d.profile_to_tensor(n, complex=True)), A.cells(n))
    A.eq('complex array', np.array(d.profile_to_tensor(c, complex=True)), A.cells(c))
    A.eq('number', np.array(d.profile_to_tensor(a)), A.map(lambda v: AM, A.cells(n)))
    amp, pin, pout = A.reals('amp', (2, 2), 0, 1), A.reals('pin', (2, 2), -3, 3), A.reals('pout', (2, 2), -3, 3)
    d.set_dmd_grating_state(amp, pin, pout, method='ideal')
    A.eq('grating', d.dmd_state, ideal(A, d, A.cells(amp), A.cells(pin), A.cells(pout), False))
    for kind, st in (('DMD', 'gray'), ('LCOS', None)):
        e, s, sf, ps = C22.setup(A, kind, 2, 2, 0, 1, kind)
        mod = C22.put_state(A, e, kind, 2, 2, st, kind)
        s.propagate_to_image(c)
        C22.expect(A, s, A.cells(c), mod, 0, 1, sf, ps, kind)
        A.eq(kind + ' power', A.c(s.get_input_power()), A.sum([A.abs2(v) for v in A.cells(c).reshape(-1)]) * ps * ps)


def A_np(t):
    import numpy as np
    return type('V', (), dict(dtype=np.dtype(t.dtype.as_numpy_dtype)))


def cases(tier):
    n = 4 if tier == 'quick' else 5
    return [dict(name='history', fn=history(n), cost=4, max_paths=6 ** n + 10, budget=250 if n == 4 else 2500),
            dict(name='invalid', fn=invalid, cost=0.3), dict(name='locked', fn=locked, cost=0.5), dict(name='first_use', fn=first_use, cost=0.5),
            dict(name='results', fn=results, cost=1), dict(name='values', fn=values, cost=1)]
