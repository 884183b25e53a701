"""What an LCOS panel does to the light."""
BOUNDS = ("panels 1x1 to 4x2 and 3x3 with paddings 0..2 (quick), up to 4x4 (thorough); phase maps as 32/64-bit floats, integers and complex arrays with real "
          "values; input fields, wavelength, focal length, pixel size and starting phases symbolic; histories of up to 4 states, resets and holograms; "
          "GS and MRAF designs of every realizable target; 32 and 64 bit")
FUNCTIONS = ["slm.LCOS_SLM._state_tensor", "slm.LCOS_SLM.reset_slm_state", "slm.LCOS_SLM.__init__", "slm.LCOS_SLM.calculate_hologram",
             "simulation.SLMSimulation.propagate_to_image", "simulation.SLMSimulation.get_input_power/get_output_power/get_image_plane_power"]
OUTSIDE = "targets no phase map produces exactly (C20 decides what the iterations do with them)"
from props.C01 import make
from props.C15 import nonzero
from props.C20 import panel, start
from props.C22 import setup, expect, padded


def load(A, d, Nx, Ny, kind, tag=''):
    """Load a phase map; returns its cells."""
    nm = 'phase' + tag
    if kind == 'int':
        v = [[A.int('%s_%d_%d' % (nm, i, j), -3, 3) for j in range(Nx)] for i in range(Ny)]
        d.slm_state = A.np.array(v)
        return A.grid(lambda i, j: A.c(v[i][j]), Ny, Nx)
    if kind == 'complex':
        p = A.reals(nm, (Ny, Nx), -3, 3)
        d.slm_state = p + 0j
        return A.cells(p)
    p = A.reals(nm, (Ny, Nx), -8, 8, dtype=dict(single=A.np.float32, double=A.np.float64).get(kind, A.np_dtype))
    d.slm_state = p
    return A.cells(p)


def modulation(Nx, Ny, px, py, kind, image=True):
    def fn(A):
        d, s, sf, ps = setup(A, 'LCOS', Nx, Ny, px, py)
        ph = load(A, d, Nx, Ny, kind)
        inp = A.complexes('in', (Ny, Nx))
        c = A.cells(inp)
        s.propagate_to_image(inp)
        mod = A.map(A.expi, ph)
        if image:
            expect(A, s, c, mod, px, py, sf, ps, 'panel', intensities=False)
        A.eq('output field', s.output_field, padded(A, A.map(lambda a, b: a * b, c, mod), px, py))
        A.eq('unit modulus', s.output_intensity, padded(A, A.map(A.abs2, c), px, py))
        A.eq('output power', s.get_output_power(), s.get_input_power())
        A.eq('image power', s.get_image_plane_power(), s.get_input_power())
    return fn


def untouched(A, s, d, inp, label):
    s.propagate_to_image(inp)
    A.eq(label + ' output field', s.output_field, s.input_field)
    A.eq(label + ' power', s.get_output_power(), s.get_input_power())
    A.check(label + ' shape', d.slm_state.shape == (d.Ny, d.Nx), d.slm_state.shape)
    A.eq(label + ' state', d.slm_state, A.grid(lambda i, j: A.num(0), d.Ny, d.Nx), scale=1.0)


def history(Nx, Ny, kinds):
    """New panel, states, resets and a second panel."""
    def fn(A):
        d, s, sf, ps = setup(A, 'LCOS', Nx, Ny, 1, 0)
        e, t, _, _ = setup(A, 'LCOS', Nx, Ny, 0, 0, 'b')
        inp = A.complexes('in', (Ny, Nx))
        c = A.cells(inp)
        untouched(A, s, d, inp, 'new')
        for k, kind in enumerate(kinds):
            if kind == 'reset':
                d.reset_slm_state()
                untouched(A, s, d, inp, 'reset %d' % k)
            else:
                ph = load(A, d, Nx, Ny, kind, str(k))
                s.propagate_to_image(inp)
                A.eq('output field %d' % k, s.output_field, padded(A, A.map(lambda a, p: a * A.expi(p), c, ph), 1, 0))
            untouched(A, t, e, inp, 'other panel %d' % k)
    return fn


def resets(Nx, Ny):
    """Resetting gives a flat panel of full size whatever was loaded, and arrays handed in are not touched by it."""
    def fn(A):
        d, s, sf, ps = setup(A, 'LCOS', Nx, Ny, 0, 0)
        inp = A.complexes('in', (Ny, Nx))
        np = A.np
        for k, st in enumerate((np.ones((1, 1)), np.zeros((1, Nx)), np.zeros((Ny, Nx), dtype=int), A.reals('p', (Ny, Nx), -8, 8), A.reals('q', (Ny, 1), -8, 8),
                                np.zeros((Ny, Nx)), np.zeros((Ny, Nx), dtype=bool))):
            d.slm_state = st
            keep = A.cells(st)
            d.reset_slm_state()
            A.check('reset %d shape' % k, d.slm_state.shape == (Ny, Nx), d.slm_state.shape)
            d.slm_state += 0.5           # as a user of the floating-point state may do
            d.reset_slm_state()
            untouched(A, s, d, inp, 'reset %d' % k)
            A.eq('array %d' % k, st, keep, scale=1.0)
    return fn


def image_sum(A, terms, Nx, Ny):
    """Field on the image plane of modulated pixels, from the definition; works on arrays and on cells."""
    from math import pi
    import cmath
    out = [[None] * Nx for _ in range(Ny)]
    for m in range(Ny):
        for n in range(Nx):
            t = 0
            for i in range(Ny):
                for j in range(Nx):
                    w = cmath.exp(2j * pi * ((m - Ny // 2) * (i - Ny // 2) / Ny + (n - Nx // 2) * (j - Nx // 2) / Nx))
                    t = t + terms[i][j] * complex(round(w.real, 15), round(w.imag, 15))
            out[m][n] = t
    return out


def design(Nx, Ny, N, method='gs', window='ones'):
    """A target that is realizable: the panel shows it, at its place."""
    def fn(A):
        import tensorflow as tf
        import pySLM2
        d = panel(A, Nx, Ny)
        s = pySLM2.SLMSimulation(d)
        inp = A.complexes('in', (Ny, Nx), dtype=A.np_cdtype)
        ci = A.cells(inp)
        nonzero(A, ci)
        u = start(A, Nx, Ny)
        ph = 2 * A.np.pi * tf.random.uniform((Ny, Nx), dtype=A.np_dtype)
        A.rewind()
        mod = tf.constant(inp) * tf.exp(1j * tf.cast(ph, A.np_cdtype))
        F = image_sum(A, [[mod[i, j] for j in range(Nx)] for i in range(Ny)], Nx, Ny)
        tgt = tf.stack([tf.stack([abs(F[m][n]) for n in range(Nx)]) for m in range(Ny)])
        nonzero(A, A.grid(lambda i, j: A.c(F[i][j]), Ny, Nx))
        T = A.cells(tgt)
        kw = {}
        if method == 'mraf':
            kw = dict(signal_window=A.np.ones((Ny, Nx)), mixing_factor=A.real('m', 0.1, 1, pos=True))
        d.calculate_hologram(inp, tgt, method=method, N=N, **kw)
        s.propagate_to_image(inp)
        k = A.c(d.pixel_size) * A.c(d.pixel_size) / A.c(d.scaling_factor)
        A.eq('image', s.image_plane_intensity, A.map(lambda t: t * t * k * k, T))
        A.eq('kept', s.output_field, A.map(lambda a, b: a * b, ci, u))
    return fn


def shown(Nx, Ny):
    """Whatever hologram comes out, simulating it applies exp(+i state)."""
    def fn(A):
        import pySLM2
        d = panel(A, Nx, Ny)
        s = pySLM2.SLMSimulation(d)
        inp = A.complexes('in', (Ny, Nx))
        ci = A.cells(inp)
        nonzero(A, ci)
        tgt = A.reals('t', (Ny, Nx), 0.2, 2)
        d.calculate_hologram(inp, tgt, N=1)
        st = A.cells(d.slm_state)
        s.propagate_to_image(inp)
        A.eq('output field', s.output_field, A.map(lambda a, p: a * A.expi(p), ci, st))
        d.reset_slm_state()
        untouched(A, s, d, inp, 'reset')
    return fn


def cases(tier):
    q = tier == 'quick'
    out = []
    cfg = [(1, 1, 0, 0, 'single'), (1, 1, 2, 1, 'double'), (2, 1, 0, 0, 'double'), (2, 2, 0, 0, 'own'), (2, 2, 1, 0, 'int'), (2, 2, 0, 1, 'complex'),
           (3, 2, 0, 0, 'single'), (4, 2, 0, 1, 'own'), (3, 3, 0, 0, 'double')]
    if not q:
        cfg += [(4, 4, 0, 0, 'own'), (4, 2, 2, 2, 'double'), (4, 1, 2, 1, 'int'), (2, 4, 1, 2, 'complex'), (6, 2, 0, 1, 'own')]
    for nx, ny, px, py, k in cfg:
        out.append(dict(name='modulation_%dx%d_pad%d_%d_%s' % (nx, ny, px, py, k), fn=modulation(nx, ny, px, py, k), cost=nx * ny / 4.))
    out.append(dict(name='large', fn=modulation(6, 4, 0, 1, 'own', image=False) if not q else modulation(4, 4, 0, 0, 'own', image=False), cost=2))
    out.append(dict(name='history', fn=history(2, 2, ['own', 'reset', 'double', 'own']), cost=1))
    out.append(dict(name='history_int', fn=history(3, 1, ['int', 'complex', 'reset', 'reset']), cost=1))
    for nx, ny, n in [(2, 1, 1), (3, 1, 1), (1, 3, 1), (4, 1, 2), (2, 2, 2), (3, 2, 1), (1, 4, 3)] + ([] if q else [(4, 2, 1), (3, 3, 1), (3, 2, 6)]):
        out.append(dict(name='design_%dx%d_%d' % (nx, ny, n), fn=design(nx, ny, n), cost=nx * ny / 2.))
    out.append(dict(name='design_mraf', fn=design(3, 1, 1, 'mraf'), cost=1))
    out.append(dict(name='design_mraf_tall', fn=design(1, 4, 2, 'mraf'), cost=1))
    out.append(dict(name='resets', fn=resets(3, 2), cost=1))
    out.append(dict(name='shown_2x2', fn=shown(2, 2), cost=1))
    out.append(dict(name='shown_3x1', fn=shown(3, 1), cost=1))
    return out
