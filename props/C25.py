"""The result of a simulation is a snapshot."""
BOUNDS = ("every sequence of up to 3 (quick) / 4 (thorough) operations out of {propagate new input, propagate another input, change the state in place or by "
          "assignment, block, clear}, the sequence being symbolic integers the solver enumerates, on 2x1 panels with symbolic fields and states; "
          "constructor arguments of 10 wrong types; 32 and 64 bit")
FUNCTIONS = ["simulation.SLMSimulation.__init__", "simulation.DMDSimulation.__init__", "simulation.SLMSimulation.clear", "simulation.SLMSimulation.propagate_to_image",
             "simulation.SLMSimulation.input_field/output_field/image_plane_field/*_intensity", "simulation.DMDSimulation.block_zeroth_order"]
from props.C13 import device
from props.C22 import padded

GRAIN = 0.3
FIELDS = ('input_field', 'output_field', 'image_plane_field', 'input_intensity', 'output_intensity', 'image_plane_intensity')


def image(A, fo, sf, ps):
    """The propagated field by its definition, even sizes."""
    H, W = fo.shape

    def cell(m, n):
        t = A.num(0)
        for i in range(H):
            for j in range(W):
                k = (j - W // 2) * (n - W // 2) * H + (i - H // 2) * (m - H // 2) * W
                t = t + fo[i, j] * A.cis(A.frac(2 * (k % (W * H)), W * H))
        return t * ps * ps / sf
    return A.grid(cell, H, W)


class Model(object):
    def __init__(self, A, s, sf, ps, px, py):
        self.A, self.s, self.sf, self.ps, self.px, self.py = A, s, sf, ps, px, py
        self.want = None

    def propagate(self, inp, mod):
        A = self.A
        fi, fo = padded(A, inp, self.px, self.py), padded(A, A.map(lambda a, b: a * b, inp, mod), self.px, self.py)
        self.want = [fi, fo, image(A, fo, self.sf, self.ps)]

    def check(self, label):
        A, s = self.A, self.s
        for k, nm in enumerate(FIELDS):
            v = getattr(s, nm)
            if self.want is None:
                A.check('%s %s is None' % (label, nm), v is None, type(v))
            elif v is None:
                A.check('%s %s' % (label, nm), False, 'None')
            elif k < 3:
                A.eq('%s %s' % (label, nm), v, self.want[k])
            else:
                A.eq('%s %s' % (label, nm), v, A.map(A.abs2, self.want[k - 3]))


def history(steps, dmd):
    def fn(A):
        import pySLM2
        if dmd:
            d = device(A, 2, 1)
            v = d._v
            sf, ps = v['lam'] * v['f'], v['ps']
            s = pySLM2.DMDSimulation(d, 0, 0)
        else:
            lam, f, p = A.real('lam', pos=True), A.real('f', pos=True), A.real('ps', pos=True)
            d = pySLM2.LCOS_SLM(lam, f, 2, 1, p)
            sf, ps = A.c(lam) * A.c(f), A.c(p)
            s = pySLM2.SLMSimulation(d, 0, 0)
        M = Model(A, s, sf, ps, 0, 0)
        M.check('new')
        mod = A.grid(lambda i, j: A.num(0 if dmd else 1), 1, 2)
        ops = 5 if dmd else 4
        for k in range(steps):
            op = A.int('op%d' % k, 0, ops - 1)
            if op == 0:                                   # propagate
                inp = A.complexes('in%d' % k, (1, 2))
                s.propagate_to_image(inp)
                M.propagate(A.cells(inp), mod)
            elif op == 1:                                 # change of the panel state
                if dmd:
                    st = A.reals('st%d' % k, (1, 2), 0, 1, dtype=A.np_dtype)
                    d.dmd_state = st
                    mod = A.cells(st)
                else:
                    st = A.reals('st%d' % k, (1, 2), -3, 3, dtype=A.np_dtype)
                    d.slm_state = st
                    mod = A.map(A.expi, A.cells(st))
            elif op == 2:                                 # reset of the panel
                if dmd:
                    d.set_dmd_state_on()
                else:
                    d.reset_slm_state()
                mod = A.grid(lambda i, j: A.num(1), 1, 2)
            elif op == 3:
                s.clear()
                M.want = None
            else:
                if M.want is None:
                    A.raises('block %d' % k, lambda: s.block_zeroth_order(1.0), TypeError)
                else:
                    r = A.real('r%d' % k, 0.1, 1, pos=True)
                    s.block_zeroth_order(r)
                    u, w = [A.cells(t) for t in s.image_plane_padded_grid]
                    big = A.c(r) * A.c(r)
                    M.want[2] = A.map(lambda a, b, c: A.ite(a * a + b * b < big, A.num(0), c), u, w, M.want[2])
            M.check('step %d' % k)
    return fn


def in_place(A):
    """The arrays handed in and out do not stay connected to the result."""
    import pySLM2
    d = device(A, 2, 1)
    v = d._v
    s = pySLM2.DMDSimulation(d, 1, 0)
    M = Model(A, s, v['lam'] * v['f'], v['ps'], 1, 0)
    st = A.reals('st', (1, 2), 0, 1, dtype=A.np_dtype)
    d.dmd_state = st
    inp = A.complexes('in', (1, 2), dtype=A.np_cdtype)
    c, m = A.cells(inp), A.cells(st)
    s.propagate_to_image(inp)
    M.propagate(c, m)
    M.check('before')
    d.dmd_state[0, 0] = 0.25
    inp[0, 1] = 3.5 + 1j
    M.check('after changing the arguments')
    for nm in FIELDS:
        out = getattr(s, nm)
        out[0, 0] = 7
    M.check('after changing the results')
    # the changed arrays are what the next propagation uses
    c, m = A.cells(inp), A.cells(d.dmd_state)
    s.propagate_to_image(inp)
    M.propagate(c, m)
    M.check('propagated again')
    d.dmd_state[0, 1] = d.dmd_state[0, 0]
    m = A.cells(d.dmd_state)
    t = pySLM2.DMDSimulation(d, 0, 0)
    N = Model(A, t, v['lam'] * v['f'], v['ps'], 0, 0)
    t.propagate_to_image(inp)
    N.propagate(c, m)
    N.check('another simulation')
    M.check('kept')
    d.set_dmd_state_on()
    s.propagate_to_image(inp)
    M.propagate(c, A.grid(lambda i, j: A.num(1), 1, 2))
    M.check('all on')
    d.dmd_state[0, 0] = False
    s.propagate_to_image(inp)
    M.propagate(c, A.grid(lambda i, j: A.num(j), 1, 2))
    M.check('one switched off')


def in_place_lcos(A):
    import pySLM2
    lam, f, p = A.real('lam', pos=True), A.real('f', pos=True), A.real('ps', pos=True)
    d = pySLM2.LCOS_SLM(lam, f, 2, 1, p)
    s = pySLM2.SLMSimulation(d, 0, 0)
    M = Model(A, s, A.c(lam) * A.c(f), A.c(p), 0, 0)
    st = A.reals('st', (1, 2), -3, 3, dtype=A.np_dtype)
    d.slm_state = st
    inp = A.complexes('in', (1, 2), dtype=A.np_cdtype)
    c = A.cells(inp)
    s.propagate_to_image(inp)
    M.propagate(c, A.map(A.expi, A.cells(st)))
    M.check('before')
    d.slm_state[0, 1] = A.reals('q', (), -3, 3, dtype=A.np_dtype)
    M.check('kept')
    s.propagate_to_image(inp)
    M.propagate(c, A.map(A.expi, A.cells(d.slm_state)))
    M.check('changed in place')
    inp[0, 0] = 2 - 1j
    s.propagate_to_image(inp)
    M.propagate(A.cells(inp), A.map(A.expi, A.cells(d.slm_state)))
    M.check('input changed in place')
    d.reset_slm_state()
    e = A.reals('e', (), -3, 3, dtype=A.np_dtype)
    d.slm_state[0, 0] = e
    s.propagate_to_image(inp)
    M.propagate(A.cells(inp), A.seq([A.expi(A.c(e)), A.num(1)]).reshape(1, 2))
    M.check('reset and changed')


def reuse(A):
    """Propagating twice gives the result of the second propagation only; a second simulation of the device is independent."""
    import pySLM2
    d = device(A, 2, 1)
    v = d._v
    s, t = pySLM2.DMDSimulation(d, 0, 0), pySLM2.DMDSimulation(d, 1, 0)
    M, K = Model(A, s, v['lam'] * v['f'], v['ps'], 0, 0), Model(A, t, v['lam'] * v['f'], v['ps'], 1, 0)
    d.set_dmd_state_on()
    one = A.grid(lambda i, j: A.num(1), 1, 2)
    a, b = A.complexes('a', (1, 2)), A.complexes('b', (1, 2))
    s.propagate_to_image(a)
    M.propagate(A.cells(a), one)
    K.check('other still empty')
    t.propagate_to_image(b)
    K.propagate(A.cells(b), one)
    M.check('first')
    K.check('second')
    s.propagate_to_image(b)
    M.propagate(A.cells(b), one)
    M.check('first again')
    s.clear()
    M.want = None
    M.check('cleared')
    K.check('second after clear of the first')


def constructors(A):
    import pySLM2
    lam, f = A.real('lam', pos=True), A.real('f', pos=True)
    d = device(A, 2, 1)
    l = pySLM2.LCOS_SLM(lam, f, 2, 1, 1e-5)
    bad = [None, 3, 'dmd', pySLM2.ConstantProfile(1.0), pySLM2.DMD, [d]]
    for k, x in enumerate(bad):
        A.raises('SLMSimulation of %d' % k, lambda: pySLM2.SLMSimulation(x), TypeError)
        A.raises('DMDSimulation of %d' % k, lambda: pySLM2.DMDSimulation(x), TypeError)
    A.raises('DMDSimulation of an LCOS panel', lambda: pySLM2.DMDSimulation(l), TypeError)
    A.raises('SLMSimulation of a simulation', lambda: pySLM2.SLMSimulation(pySLM2.SLMSimulation(l)), TypeError)
    for k, p in enumerate([1.0, 0.5, '1', None, 1 + 0j, A.np.zeros((1,)), (1,)]):
        for nm, cls, dev in (('SLM', pySLM2.SLMSimulation, l), ('SLM of DMD', pySLM2.SLMSimulation, d), ('DMD', pySLM2.DMDSimulation, d)):
            A.raises('%s padding x %d' % (nm, k), lambda: cls(dev, padding_x=p), TypeError)
            A.raises('%s padding y %d' % (nm, k), lambda: cls(dev, padding_y=p), TypeError)
            A.raises('%s padding positional %d' % (nm, k), lambda: cls(dev, 0, p), TypeError)
    for cls, dev in ((pySLM2.SLMSimulation, l), (pySLM2.SLMSimulation, d), (pySLM2.DMDSimulation, d)):
        s = cls(dev, 1, 2)
        A.check('accepted', (s.padding_x, s.padding_y, s.Nx, s.Ny) == (1, 2, 4, 5), (s.padding_x, s.padding_y, s.Nx, s.Ny))
        s = cls(dev, padding_y=1)
        A.check('default padding', (s.padding_x, s.padding_y, s.Nx, s.Ny) == (0, 1, 2, 3), (s.padding_x, s.padding_y))
        s = cls(dev)
        A.check('no padding', (s.padding_x, s.padding_y, s.Nx, s.Ny) == (0, 0, 2, 1), (s.padding_x, s.padding_y))
        for nm in FIELDS:
            A.check('new %s' % nm, getattr(s, nm) is None)


def cases(tier):
    n = 3 if tier == 'quick' else 4
    return [dict(name='dmd_history', fn=history(n, True), cost=8 if n == 3 else 60, max_paths=5 ** n + 10, budget=200 if n == 3 else 2500),
            dict(name='lcos_history', fn=history(n, False), cost=4 if n == 3 else 30, max_paths=4 ** n + 10, budget=200 if n == 3 else 2500),
            dict(name='in_place', fn=in_place, cost=0.5), dict(name='in_place_lcos', fn=in_place_lcos, cost=0.5), dict(name='reuse', fn=reuse, cost=0.6), dict(name='constructors', fn=constructors, cost=0.5)]
