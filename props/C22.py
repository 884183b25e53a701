"""Simulated fields."""
BOUNDS = ("panels 1x1 to 4x3 with paddings 0..2, two-pixel panels with paddings up to 11 (quick), padded sizes up to 8x6 (thorough); input fields, phase states, grayscale states, wavelength, "
          "focal length and pixel size symbolic, binary states symbolic; inputs as arrays, numbers and uninterpreted profiles; inputs and states changed in place between propagations; 32 and 64 bit")
FUNCTIONS = ["simulation.SLMSimulation.propagate_to_image", "simulation.SLMSimulation.*_field", "simulation.SLMSimulation.*_intensity",
             "_lib._inverse_fourier_transform", "slm.DMD._state_tensor", "slm.LCOS_SLM._state_tensor"]
from props.C01 import make
from props.C03 import mksim

SIZES = (1, 2, 3, 4, 6, 8, 12)


def setup(A, kind, Nx, Ny, px, py, tag=''):
    lam, f, ps = A.real('lam' + tag, pos=True), A.real('f' + tag, pos=True), A.real('ps' + tag, pos=True)
    d = make(kind, lam, f, Nx, Ny, ps, A)
    s = mksim(kind, d, px, py)
    return d, s, A.c(lam) * A.c(f), A.c(ps)


def put_state(A, d, kind, Nx, Ny, state, tag=''):
    """Load a state; returns the modulation it stands for."""
    if kind == 'LCOS':
        ph = A.reals('phase' + tag, (Ny, Nx), -3, 3, dtype=A.np_dtype)
        d.slm_state = ph
        return A.map(A.expi, A.cells(ph))
    if state == 'bool':
        st = A.bools('s' + tag, (Ny, Nx))
    else:
        st = A.reals('s' + tag, (Ny, Nx), 0, 1, dtype=A.np_dtype)
    d.dmd_state = st
    if state == 'bool':
        return A.map(lambda b: A.ite(b, A.num(1), A.num(0)), A.cells(st))
    return A.cells(st)


def padded(A, c, px, py):
    Ny, Nx = c.shape
    return A.grid(lambda i, j: c[i - py, j - px] if py <= i < py + Ny and px <= j < px + Nx else A.num(0), Ny + 2 * py, Nx + 2 * px)


def expect(A, s, inp, mod, px, py, sf, ps, label, intensities=True):
    """inp, mod: cells on the panel."""
    fi, fo = padded(A, inp, px, py), padded(A, A.map(lambda a, b: a * b, inp, mod), px, py)
    H, W = fi.shape
    A.check(label + ' dtype', s.image_plane_field.dtype == s.input_field.dtype == s.output_field.dtype == A.np_cdtype, s.image_plane_field.dtype)
    A.eq(label + ' input field', s.input_field, fi)
    A.eq(label + ' output field', s.output_field, fo)
    x, y = [A.cells(v) for v in s.fourier_plane_padded_grid]
    u, v = [A.cells(t) for t in s.image_plane_padded_grid]
    # odd sizes: relative to the central pixel, half a pixel off the panel centre
    ox, oy = A.frac(W % 2, 2) * ps, A.frac(H % 2, 2) * ps
    k = 2 * A.pi / sf

    def integral(m, n):
        t = A.num(0)
        for i in range(py, H - py):
            for j in range(px, W - px):
                t = t + fo[i, j] * A.expi(k * ((x[i, j] + ox) * u[m, n] + (y[i, j] - oy) * v[m, n]))
        return t * ps * ps / sf
    A.eq(label + ' image field', s.image_plane_field, A.grid(integral, H, W))
    if intensities:
        for nm in ('input', 'output', 'image_plane'):
            fld = A.cells(getattr(s, nm + '_field'))
            A.eq(label + ' %s intensity' % nm, getattr(s, nm + '_intensity'), A.map(A.abs2, fld))


def arrays(kind, Nx, Ny, px, py, state):
    def fn(A):
        d, s, sf, ps = setup(A, kind, Nx, Ny, px, py)
        mod = put_state(A, d, kind, Nx, Ny, state)
        inp = A.complexes('in', (Ny, Nx))
        s.propagate_to_image(inp)
        expect(A, s, A.cells(inp), mod, px, py, sf, ps, kind)
    return fn


def number(kind, Nx, Ny, px, py, which):
    """A number or a real array is a uniform or real input field."""
    def fn(A):
        d, s, sf, ps = setup(A, kind, Nx, Ny, px, py)
        mod = put_state(A, d, kind, Nx, Ny, 'gray')
        if which == 'number':
            inp = A.real('amp')
            c = A.grid(lambda i, j: A.c(inp), Ny, Nx)
        elif which == 'complex':
            inp = A.cplx('amp')
            c = A.grid(lambda i, j: A.c(inp), Ny, Nx)
        elif which == 'real':
            inp = A.reals('in', (Ny, Nx), dtype=A.np.float32)
            c = A.cells(inp)
        else:
            inp = A.profile('f', cplx=which == 'cprofile')
            X, Y = [A.cells(v) for v in d.fourier_plane_grid]
            c = A.map(lambda x, y: A.fcells('f', x, y, cplx=which == 'cprofile'), X, Y)
        s.propagate_to_image(inp)
        expect(A, s, c, mod, px, py, sf, ps, which, intensities=False)
    return fn


def two_devices(A):
    """Simulations of same-shaped panels with different optics, used in turn."""
    d, s, sf, ps = setup(A, 'DMD', 2, 2, 1, 0, 'a')
    e, t, sg, pt = setup(A, 'LCOS', 2, 2, 1, 0, 'b')
    md, me = put_state(A, d, 'DMD', 2, 2, 'bool', 'd'), put_state(A, e, 'LCOS', 2, 2, None, 'e')
    a, b = A.complexes('ina', (2, 2)), A.complexes('inb', (2, 2))
    s.propagate_to_image(a)
    t.propagate_to_image(b)
    expect(A, s, A.cells(a), md, 1, 0, sf, ps, 'first', intensities=False)
    expect(A, t, A.cells(b), me, 1, 0, sg, pt, 'second', intensities=False)


def two_paddings(A):
    """Two simulations of one device with different paddings."""
    import pySLM2
    lam, f, ps = A.real('lam', pos=True), A.real('f', pos=True), A.real('ps', pos=True)
    d = make('DMD-', lam, f, 2, 2, ps, A)
    mod = put_state(A, d, 'DMD-', 2, 2, 'bool')
    sims = [(mksim('DMD-', d, px, py), px, py) for px, py in ((0, 0), (1, 0), (0, 1))]
    a = A.complexes('in', (2, 2))
    for s, px, py in sims:
        s.propagate_to_image(a)
    for s, px, py in sims:
        expect(A, s, A.cells(a), mod, px, py, A.c(lam) * A.c(f), A.c(ps), 'padding %d %d' % (px, py), intensities=False)


def ones(kind, Nx, Ny, px, py):
    """A fresh panel."""
    def fn(A):
        d, s, sf, ps = setup(A, kind, Nx, Ny, px, py)
        inp = A.complexes('in', (Ny, Nx), dtype=A.np_cdtype)
        if kind != 'LCOS':
            d.set_dmd_state_on()
        s.propagate_to_image(inp)
        expect(A, s, A.cells(inp), A.grid(lambda i, j: A.num(1), Ny, Nx), px, py, sf, ps, 'open')
        if kind != 'LCOS':
            d.set_dmd_state_off()
            s.propagate_to_image(inp)
            expect(A, s, A.cells(inp), A.grid(lambda i, j: A.num(0), Ny, Nx), px, py, sf, ps, 'closed', intensities=False)
    return fn


def in_place(kind, Nx, Ny, px, py):
    """Input and state are read at every propagation, also when the same arrays come back changed."""
    def fn(A):
        d, s, sf, ps = setup(A, kind, Nx, Ny, px, py)
        mod = put_state(A, d, kind, Nx, Ny, 'gray')
        inp = A.complexes('in', (Ny, Nx))
        run = lambda label: (s.propagate_to_image(inp), expect(A, s, A.cells(inp), mod, px, py, sf, ps, label))
        run('first')
        inp[0, Nx - 1] = A.complexes('in2', ())
        run('input changed')
        if kind == 'LCOS':
            d.slm_state[Ny - 1, 0] = A.reals('phase2', (), -3, 3, dtype=A.np_dtype)
            mod = A.map(A.expi, A.cells(d.slm_state))
        else:
            d.dmd_state[Ny - 1, 0] = A.reals('s2', (), 0, 1, dtype=A.np_dtype)
            mod = A.cells(d.dmd_state)
        run('state changed')
        inp = A.complexes('new', (Ny, Nx))
        run('another input')
        mod = put_state(A, d, kind, Nx, Ny, 'gray', 'b')
        run('another state')
        if kind != 'LCOS':
            mod = put_state(A, d, kind, Nx, Ny, 'bool', 'c')
            run('a binary state')
    return fn


def cases(tier):
    out = []
    cfg = [('DMD', 2, 2, 0, 0, 'bool'), ('LCOS', 2, 2, 0, 1, None), ('DMD-', 4, 2, 0, 0, 'gray'), ('DMD', 2, 1, 1, 1, 'gray'), ('LCOS', 1, 2, 0, 0, None),
           ('DMD', 1, 1, 0, 0, 'bool'), ('DMD-', 3, 2, 0, 1, 'bool'), ('LCOS', 1, 3, 1, 0, None), ('DMD', 2, 4, 1, 0, 'bool'), ('LCOS', 3, 3, 0, 0, None),
           ('DMD', 2, 2, 2, 1, 'gray'), ('LCOS', 2, 1, 5, 0, None), ('DMD', 1, 2, 1, 5, 'bool'), ('DMD-', 2, 1, 11, 0, 'gray'), ('LCOS', 4, 3, 0, 0, None)]
    if tier != 'quick':
        cfg = []
        for k, (nx, ny) in enumerate([(nx, ny) for nx in range(1, 7) for ny in range(1, 5)]):
            for px in range(4):
                for py in range(4):
                    W, H = nx + 2 * px, ny + 2 * py
                    if W in SIZES and H in SIZES and W * H <= 48 and W * H * nx * ny <= 600 and (24 % W == 0 and 24 % H == 0):
                        kind = ('DMD', 'LCOS', 'DMD-')[(k + px + py) % 3]
                        cfg.append((kind, nx, ny, px, py, None if kind == 'LCOS' else ('bool', 'gray')[(px + ny) % 2]))
    for kind, nx, ny, px, py, st in cfg:
        W, H = nx + 2 * px, ny + 2 * py
        out.append(dict(name='%s_%dx%d_pad%d_%d' % (kind, nx, ny, px, py), fn=arrays(kind, nx, ny, px, py, st), cost=0.5 + W * H * nx * ny / 40.))
    for w in ('number', 'complex', 'real', 'profile', 'cprofile'):
        out.append(dict(name='input_' + w, fn=number('DMD', 2, 2, 0, 0, w), cost=1))
        if tier != 'quick':
            out.append(dict(name='input_lcos_' + w, fn=number('LCOS', 2, 1, 1, 0, w), cost=1))
    out += [dict(name='fresh_dmd', fn=ones('DMD', 2, 2, 1, 0), cost=1), dict(name='fresh_lcos', fn=ones('LCOS', 2, 2, 0, 1), cost=1),
            dict(name='two_devices', fn=two_devices, cost=1.5), dict(name='two_paddings', fn=two_paddings, cost=1.5)]
    out += [dict(name='in_place', fn=in_place('DMD', 2, 1, 0, 1), cost=1), dict(name='in_place_lcos', fn=in_place('LCOS', 1, 2, 1, 0), cost=1)]
    return out
