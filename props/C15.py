"""First diffraction order of the grayscale hologram."""
BOUNDS = ("panels 1x1, 2x1, 1x2, 2x2, 3x1, 1x3, 4x1, 1x4, 3x2, 2x3 (quick), 4x2, 3x3 (thorough); complex input and target fields, windows (complex), "
          "periodicity, angle, wavelength, focal length and pixel size symbolic; fields as arrays, numbers and uninterpreted profiles; both orders; arrays changed in place between calls; 32 and 64 bit")
FUNCTIONS = ["slm.DMD.calculate_dmd_state", "slm.DMD._calc_amp_phase", "_lib._calculate_dmd_grating_ideal", "_lib._grating_phase", "_lib._fourier_transform",
             "slm.DMD.first_order_origin", "simulation.SLMSimulation.output_field"]
OUTSIDE = "fields that vanish at a pixel of the panel or of the target's spectrum (zeros of the input beam are C16)"
TIME = 60
from props.C01 import make
from props.C13 import device, G
from props.C03 import mksim


def spectrum(A, d, target, window=None):
    """Fourier transform of the target on the panel, at the reported coordinates."""
    v = d._v
    sf, ps, Nx, Ny = v['lam'] * v['f'], v['ps'], v['Nx'], v['Ny']
    x, y = [A.cells(t) for t in d.fourier_plane_grid]
    u, w = [A.cells(t) for t in d.image_plane_grid]
    ox, oy = A.frac(Nx % 2, 2) * ps, A.frac(Ny % 2, 2) * ps      # odd sizes: relative to the central pixel
    k = -2 * A.pi / sf
    area = sf / (A.num(Nx) * ps) * (sf / (A.num(Ny) * ps))

    def cell(i, j):
        t = A.num(0)
        for m in range(Ny):
            for n in range(Nx):
                t = t + target[m, n] * A.expi(k * ((x[i, j] + ox) * u[m, n] + (y[i, j] - oy) * w[m, n]))
        t = t * area / sf
        return t * window[i, j] if window is not None else t
    return A.grid(cell, Ny, Nx)


def modulated(A, d, inp, T, eta, neg):
    """Expected field right behind the panel."""
    def cell(a, t, g):
        m = A.abs(t) / A.abs(a)
        one = eta * A.frac(1, 4) * t * A.expi(g if neg else -g)
        two = eta * A.frac(1, 4) * A.conj(t) * (a / A.conj(a)) * A.expi(-g if neg else g)
        return eta * A.frac(1, 2) * m * a + one + two
    return A.map(cell, inp, T, G(A, d))


def nonzero(A, cells):
    for z in cells.reshape(-1):
        A.assume(A.abs2(z) > 0)


def check(A, d, inp, target, eta, neg, window=None, label='field'):
    Ny, Nx = inp.shape
    T = spectrum(A, d, target, window)
    nonzero(A, inp)
    nonzero(A, T)
    st = A.cells(d.dmd_state)
    A.check(label + ' shape', d.dmd_state.shape == (Ny, Nx), d.dmd_state.shape)
    A.check(label + ' dtype', d.dmd_state.dtype == A.np_dtype, d.dmd_state.dtype)
    e = A.c(eta)
    A.true(label + ' efficiency', e > 0)
    A.eq(label, A.map(lambda a, s: a * s, inp, st), modulated(A, d, inp, T, e, neg))
    return T


def arrays(Nx, Ny, neg, win=False):
    def fn(A):
        d = device(A, Nx, Ny, neg)
        inp, tgt = A.complexes('in', (Ny, Nx)), A.complexes('t', (Ny, Nx))
        w = A.complexes('w', (Ny, Nx)) if win else None
        nonzero(A, A.cells(inp))
        nonzero(A, spectrum(A, d, A.cells(tgt), A.cells(w) if win else None))
        if win:
            eta = d.calculate_dmd_state(inp, tgt, method='ideal', window=w)
        else:
            eta = d.calculate_dmd_state(inp, tgt, method='ideal')
        check(A, d, A.cells(inp), A.cells(tgt), eta, neg, A.cells(w) if win else None)
        ox, oy = d.first_order_origin
        v = d._v
        # exp(-i G) displaces the image by this much
        A.eq('origin x', ox, A.cos(v['th']) * v['lam'] * v['f'] / (v['p'] * v['ps']))
        A.eq('origin y', oy, A.sin(v['th']) * v['lam'] * v['f'] / (v['p'] * v['ps']))
    return fn


def profiles(Nx, Ny, neg, win):
    def fn(A):
        d = device(A, Nx, Ny, neg)
        inp, tgt = A.profile('in', cplx=True), A.profile('t', cplx=True)
        x, y = [A.cells(t) for t in d.fourier_plane_grid]
        u, v = [A.cells(t) for t in d.image_plane_grid]
        ci = A.map(lambda a, b: A.fcells('in', a, b, cplx=True), x, y)
        ct = A.map(lambda a, b: A.fcells('t', a, b, cplx=True), u, v)
        kw, cw = {}, None
        if win:
            kw['window'] = A.profile('w')
            cw = A.map(lambda a, b: A.fcells('w', a, b), x, y)
        nonzero(A, ci)
        nonzero(A, spectrum(A, d, ct, cw))
        eta = d.calculate_dmd_state(inp, tgt, method='ideal', **kw)
        check(A, d, ci, ct, eta, neg, cw)
    return fn


def numbers(Nx, Ny, neg, which):
    """A number as input field."""
    def fn(A):
        d = device(A, Nx, Ny, neg)
        a = A.cplx('a') if which == 'complex' else A.real('a', pos=True)
        t = A.complexes('t', (Ny, Nx)) if which == 'complex' else A.reals('t', (Ny, Nx))
        ci = A.grid(lambda i, j: A.c(a), Ny, Nx)
        nonzero(A, ci)
        nonzero(A, spectrum(A, d, A.cells(t)))
        eta = d.calculate_dmd_state(a, t, method='ideal')
        check(A, d, ci, A.cells(t), eta, neg)
    return fn


def scaling(Nx, Ny, neg, method):
    """The efficiency and the state when target and input are scaled."""
    def fn(A):
        d, e, g = device(A, Nx, Ny, neg), None, None
        inp, tgt = A.complexes('in', (Ny, Nx)), A.complexes('t', (Ny, Nx))
        nonzero(A, A.cells(inp))
        nonzero(A, spectrum(A, d, A.cells(tgt)))
        k = A.real('k', pos=True)
        A.assume(A.c(k) > 0)
        A.rewind()
        eta = A.c(d.calculate_dmd_state(inp, tgt, method=method))
        st = A.cells(d.dmd_state)
        A.rewind()
        eta1 = A.c(d.calculate_dmd_state(inp, tgt * k, method=method))
        A.eq('k * target', eta1 * A.c(k), eta)
        if method == 'ideal':
            A.eq('k * target state', d.dmd_state, st)
        A.rewind()
        eta2 = A.c(d.calculate_dmd_state(inp * k, tgt, method=method))
        A.eq('k * input', eta2, A.c(k) * eta)
        if method == 'ideal':
            A.eq('k * input state', d.dmd_state, st)
    return fn


def simulated(Nx, Ny, neg, px, py):
    """The field the simulation reports behind the panel."""
    def fn(A):
        d = device(A, Nx, Ny, neg)
        s = mksim('DMD', d, px, py)
        inp, tgt = A.complexes('in', (Ny, Nx)), A.complexes('t', (Ny, Nx))
        nonzero(A, A.cells(inp))
        T = spectrum(A, d, A.cells(tgt))
        nonzero(A, T)
        eta = A.c(d.calculate_dmd_state(inp, tgt, method='ideal'))
        s.propagate_to_image(inp)
        out = A.cells(s.output_field)[py:py + Ny, px:px + Nx]
        A.eq('output field', out, modulated(A, d, A.cells(inp), T, eta, neg))
    return fn


def in_place(Nx, Ny, neg):
    """The fields are read at every call, also when the same arrays come back changed; windows do not linger."""
    def fn(A):
        d = device(A, Nx, Ny, neg)
        inp, tgt, w = A.complexes('in', (Ny, Nx)), A.complexes('t', (Ny, Nx)), A.complexes('w', (Ny, Nx))

        def run(label, win=None):
            kw = {} if win is None else {'window': win}
            nonzero(A, A.cells(inp))
            nonzero(A, spectrum(A, d, A.cells(tgt), None if win is None else A.cells(win)))
            eta = d.calculate_dmd_state(inp, tgt, method='ideal', **kw)
            check(A, d, A.cells(inp), A.cells(tgt), eta, neg, None if win is None else A.cells(win), label)
        run('first')
        tgt[0, 0] = A.complexes('t2', ())
        run('target changed')
        inp[Ny - 1, Nx - 1] = A.complexes('in2', ())
        run('input changed')
        run('window', w)
        run('no window')
        w[0, 0] = A.complexes('w2', ())
        run('window changed', w)
        d.dmd_state[0, 0] = 0.5
        run('state changed')
    return fn


def cases(tier):
    q = tier == 'quick'
    sizes = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (4, 1), (1, 4), (3, 2), (2, 3)] + ([] if q else [(4, 2), (2, 4), (3, 3)])
    out = []
    for k, (nx, ny) in enumerate(sizes):
        for neg in (False, True):
            if q and neg != bool(k % 2) and nx * ny != 4:
                continue
            out.append(dict(name='arrays_%dx%d%s' % (nx, ny, '_neg' if neg else ''), fn=arrays(nx, ny, neg), cost=nx * ny))
    for nx, ny in ((2, 1), (1, 2), (2, 2)):
        for neg in (False, True):
            out.append(dict(name='window_%dx%d%s' % (nx, ny, '_neg' if neg else ''), fn=arrays(nx, ny, neg, True), cost=nx * ny))
    out.append(dict(name='profiles', fn=profiles(2, 1, False, False), cost=2))
    out.append(dict(name='profiles_neg', fn=profiles(1, 2, True, False), cost=2))
    out.append(dict(name='profiles_window', fn=profiles(2, 1, False, True), cost=2))
    out.append(dict(name='number', fn=numbers(2, 2, False, 'real'), cost=2))
    out.append(dict(name='complex_number', fn=numbers(2, 2, True, 'complex'), cost=2))
    for m in ('ideal', 'simple', 'random'):
        out.append(dict(name='scaling_' + m, fn=scaling(2, 1, False, m), cost=2))
    out.append(dict(name='scaling_2x2', fn=scaling(2, 2, True, 'ideal'), cost=4))
    out.append(dict(name='simulated', fn=simulated(2, 1, False, 1, 0), cost=2))
    out.append(dict(name='simulated_neg', fn=simulated(1, 2, True, 0, 1), cost=2))
    out += [dict(name='in_place_2x1', fn=in_place(2, 1, False), cost=3), dict(name='in_place_1x2', fn=in_place(1, 2, True), cost=3)]
    return out
