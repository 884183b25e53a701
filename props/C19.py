"""Packing of a DMD state."""
BOUNDS = ("every state of panels with up to 64 (quick: selected shapes, thorough: all) pixels, sizes not divisible by 8 and transposed shapes included; states assigned as "
          "arrays, left by on/off/grating calculations or views; dtypes other than bool; states changed in place between packings; 32 and 64 bit")
FUNCTIONS = ["slm.DMD.pack_dmd_state", "slm.DMD.set_dmd_state_on", "slm.DMD.set_dmd_state_off", "slm.DMD.__init__"]
from props.C13 import device


def expect(A, out, cells, label):
    """out: bytes; cells: Boolean cells in row-major order."""
    n = len(cells)
    A.check(label + ' length', len(out) == (n + 7) // 8, len(out))
    A.check(label + ' bytes', isinstance(out, bytes), type(out))
    want = []
    for k in range((n + 7) // 8):
        t = A.num(0)
        for b in range(8):
            if 8 * k + b < n:
                t = t + A.ite(cells[8 * k + b], A.num(1 << (7 - b)), A.num(0))
        want.append(t)
    A.eq(label, A.bytes_cells(out), A.seq(want))


def any_state(Nx, Ny, order):
    def fn(A):
        d = device(A, Nx, Ny)
        if order == 'C':
            st = A.bools('s', (Ny, Nx))
        else:
            st = A.bools('s', (Nx, Ny)).T
        d.dmd_state = st
        expect(A, d.pack_dmd_state(), A.cells(st).reshape(-1), 'packed')
        A.eq('state unchanged', d.dmd_state, A.cells(st))
        expect(A, d.pack_dmd_state(), A.cells(st).reshape(-1), 'packed again')
    return fn


def on_off(Nx, Ny):
    def fn(A):
        d = device(A, Nx, Ny)
        T, F = A.b(True), A.b(False)

        def state(label, v):
            A.check(label + ' dtype', d.dmd_state.dtype == bool, d.dmd_state.dtype)
            A.check(label + ' shape', d.dmd_state.shape == (Ny, Nx), d.dmd_state.shape)
            A.eq(label + ' state', d.dmd_state, A.grid(lambda i, j: v, Ny, Nx))
            expect(A, d.pack_dmd_state(), [v] * (Nx * Ny), label)
        state('new', F)
        for k, prior in enumerate((A.bools('p', (Ny, Nx)), A.reals('q', (Ny, Nx), 0, 1), A.np.zeros((3, 1)), None)):
            d.dmd_state = prior
            d.set_dmd_state_on()
            state('on %d' % k, T)
            d.dmd_state = prior
            d.set_dmd_state_off()
            state('off %d' % k, F)
            d.set_dmd_state_on()
            state('on after off %d' % k, T)
        e = device(A, Nx, Ny, tag='e')
        A.eq('other device', e.dmd_state, A.grid(lambda i, j: F, Ny, Nx))
        d.dmd_state[0, 0] = False
        A.eq('other device later', e.dmd_state, A.grid(lambda i, j: F, Ny, Nx))
        d.set_dmd_state_on()
        state('on after a write', T)
    return fn


def computed(method):
    """States left by hologram calculations."""
    def fn(A):
        d = device(A, 3, 3)
        d.set_dmd_grating_state(A.reals('amp', (3, 3), 0, 1), A.real('pin', -2, 2), method=method)
        if method == 'ideal':
            A.raises('grayscale', d.pack_dmd_state, TypeError)
        else:
            expect(A, d.pack_dmd_state(), A.cells(d.dmd_state).reshape(-1), 'packed')
        d.set_dmd_state_on()
        expect(A, d.pack_dmd_state(), [A.b(True)] * 9, 'on')
    return fn


def refused(A):
    import numpy as np
    d = device(A, 2, 2)
    for k, dt in enumerate((np.float64, np.float32)):
        d.dmd_state = A.reals('g%d' % k, (2, 2), 0, 1, dtype=dt)
        A.raises('%s' % np.dtype(dt).name, d.pack_dmd_state, TypeError)
    d.dmd_state = A.complexes('c', (2, 2))
    A.raises('complex', d.pack_dmd_state, TypeError)
    for dt in (np.uint8, np.int8, np.int32, np.int64, np.uint64, np.float16):
        for v in (0, 1):
            d.dmd_state = np.full((2, 2), v, dtype=dt)
            A.raises('%s %d' % (np.dtype(dt).name, v), d.pack_dmd_state, TypeError)
    d.dmd_state = A.bools('b', (2, 2))
    expect(A, d.pack_dmd_state(), A.cells(d.dmd_state).reshape(-1), 'boolean again')


def big(cls):
    """A full-size panel with a few free pixels."""
    def fn(A):
        import pySLM2
        import numpy as np
        d = getattr(pySLM2, cls)(A.real('lam', pos=True), A.real('f', pos=True), A.real('p', 2, 6, pos=True), A.real('th', 0, 3))
        st = np.zeros((d.Ny, d.Nx), dtype=bool)
        st[3, 5] = st[d.Ny - 1, d.Nx - 1] = st[d.Ny // 2, 0] = st[0, d.Nx - 2] = True
        st[7] = True
        d.dmd_state = st
        out = d.pack_dmd_state()
        flat = st.reshape(-1)
        A.check('length', len(out) == (flat.size + 7) // 8, len(out))
        want = bytes(int(''.join('1' if b else '0' for b in flat[8 * k:8 * k + 8]), 2) for k in range(0, flat.size // 8))
        A.check('bytes', out == want)
    return fn


def in_place(Nx, Ny):
    """Packing reads the state at every call."""
    def fn(A):
        d, e = device(A, Nx, Ny), device(A, Nx, Ny, tag='e')
        st = A.bools('s', (Ny, Nx))
        d.dmd_state = st
        e.dmd_state = A.bools('other', (Ny, Nx))
        expect(A, d.pack_dmd_state(), A.cells(st).reshape(-1), 'first')
        d.dmd_state[Ny - 1, 0] = A.bools('u', ())
        d.dmd_state[0] = A.bools('v', (Nx,))
        expect(A, d.pack_dmd_state(), A.cells(d.dmd_state).reshape(-1), 'changed in place')
        expect(A, e.pack_dmd_state(), A.cells(e.dmd_state).reshape(-1), 'other device')
        d.dmd_state = A.np.logical_not(d.dmd_state)
        expect(A, d.pack_dmd_state(), A.cells(d.dmd_state).reshape(-1), 'replaced')
        d.set_dmd_state_on()
        expect(A, d.pack_dmd_state(), [A.b(True)] * (Nx * Ny), 'on')
        d.dmd_state[0, Nx - 1] = A.bools('w', ())
        expect(A, d.pack_dmd_state(), A.cells(d.dmd_state).reshape(-1), 'changed after on')
        d.set_dmd_state_off()
        d.dmd_state[Ny - 1, Nx - 1] = A.bools('x', ())
        expect(A, d.pack_dmd_state(), A.cells(d.dmd_state).reshape(-1), 'changed after off')
        for k in range(3):
            d.dmd_state = A.bools('n%d' % k, (Ny, Nx))
            expect(A, d.pack_dmd_state(), A.cells(d.dmd_state).reshape(-1), 'new %d' % k)
        d.dmd_state = A.bools('flip', (Ny, Nx))[::-1, ::-1]
        expect(A, d.pack_dmd_state(), A.cells(d.dmd_state).reshape(-1), 'a reversed view')
    return fn


def cases(tier):
    sizes = [(1, 1), (7, 1), (8, 1), (9, 1), (3, 3), (4, 4), (5, 3), (2, 12), (16, 3), (17, 2), (11, 5), (1, 64), (33, 1)]
    if tier != 'quick':
        sizes = [(nx, ny) for nx in range(1, 18) for ny in range(1, 10) if nx * ny <= 64]
    out = [dict(name='state_%dx%d' % s, fn=any_state(*s, order='C'), cost=0.2 + s[0] * s[1] / 60.) for s in sizes]
    out += [dict(name='transposed_%dx%d' % s, fn=any_state(*s, order='F'), cost=0.2) for s in [(4, 3), (3, 5)]]
    out += [dict(name='on_off_%dx%d' % s, fn=on_off(*s), cost=0.3) for s in [(3, 2), (4, 4)]]
    out += [dict(name='computed_' + m, fn=computed(m), cost=0.5, defined=False) for m in ('ideal', 'simple', 'random')]
    out += [dict(name='refused', fn=refused, cost=0.3), dict(name='DLP7000', fn=big('DLP7000'), cost=1)]
    if tier != 'quick':
        out += [dict(name='DLP9500', fn=big('DLP9500'), cost=1), dict(name='DLP9000', fn=big('DLP9000'), cost=1)]
    out += [dict(name='in_place_3x3', fn=in_place(3, 3), cost=0.6), dict(name='in_place_5x2', fn=in_place(5, 2), cost=0.6)]
    return out
