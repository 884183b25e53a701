"""Normalization of the hologram amplitude; dark pixels."""
BOUNDS = ("panels 1x1 to 2x2 and 3x1, 1x3 (quick), 3x2, 4x1, 4x2 (thorough); complex input and target fields symbolic, every pattern of unlit pixels on "
          "panels up to 2x2 (patterns of the larger ones listed by the cases), additionally fields whose zeros are symbolic on 2x1; targets whose spectrum "
          "vanishes at some pixels; all four methods, windows; both orders; 32 and 64 bit")
FUNCTIONS = ["slm.DMD.calculate_dmd_state", "slm.DMD._calc_amp_phase", "_lib.calculate_dmd_grating", "_lib._calculate_dmd_grating_ideal",
             "_lib._calculate_dmd_grating_simple", "_lib._calculate_dmd_grating_random", "_lib._calculate_dmd_grating_ifta"]
OUTSIDE = "targets that vanish wherever there is light (there is no hologram then); the IFTA algorithm itself (C17)"
from props.C13 import device, G
from props.C15 import spectrum

# patterns: one letter per pixel, row-major: 'o' unlit, 'x' lit


def field(A, name, Ny, Nx, pattern):
    """Complex field, exactly zero at the unlit pixels; returns (array for the library, cells)."""
    arr = A.np.zeros((Ny, Nx), dtype=A.np.complex128)
    for k, ch in enumerate(pattern):
        if ch == 'x':
            z = A.cplx('%s%d' % (name, k))
            A.assume(A.abs2(A.c(z)) > 0)
            arr[k // Nx, k % Nx] = z
    return arr


def judge(A, d, st, inp, T, eta, method, neg):
    """st: state cells; inp, T: cells; eta: cell."""
    Ny, Nx = st.shape
    A.true('efficiency is positive', eta > 0)
    g = G(A, d)
    s = -1 if neg else 1
    touch = []
    for i in range(Ny):
        for j in range(Nx):
            a, t = inp[i, j], T[i, j]
            lit = A.abs2(a) > 0
            need = A.abs2(t) > 0
            v = st[i, j]
            if method == 'ideal':
                # symbolically this follows from the formula of 'state' and 'amplitude at most 1'
                A.true('range', A.b(True) if A.symbolic else A.and_(A.ge(v, 0), A.ge(A.num(1), v)))
                A.true('no light, off', A.or_(lit, A.eqc(v, A.num(0))))
                A.true('not needed, off', A.or_(need, A.eqc(v, A.num(0))))
            else:
                A.true('no light, off', A.or_(lit, A.not_(v)))
                if method != 'ifta':
                    A.true('not needed, off', A.or_(need, A.not_(v)))
            # envelope = eta*|t|/|a|
            ratio = A.abs(t) / A.ite(lit, A.abs(a), A.num(1))
            A.true('amplitude at most 1', A.or_(A.not_(lit), A.ge(1 / eta, ratio)))
            touch.append(A.and_(lit, A.close(1 / eta, ratio)))
            if method == 'ideal':
                A.eq('state', v, A.ite(A.and_(lit, need), level(A, a, t, eta, g[i, j], s), A.num(0)), scale=1.0)
    A.true('amplitude reaches 1', A.or_(*touch))


def level(A, a, t, eta, g, s):
    """Gray level of a lit pixel."""
    r = A.abs(a)
    return eta * A.frac(1, 2) * (A.abs(t) / r + A.re(t * A.conj(a) * A.expi(-g if s == 1 else g)) / (r * r))


def run(A, d, inp, tgt, method, neg, **kw):
    Ny, Nx = inp.shape
    if method == 'ifta':
        kw = dict(kw, signal_window=A.np.ones((Ny, Nx)), N=1)
    A.rewind()
    eta = d.calculate_dmd_state(inp, tgt, method=method, **kw)
    A.check('shape', d.dmd_state.shape == (Ny, Nx), d.dmd_state.shape)
    if method != 'ideal':
        A.check('boolean', d.dmd_state.dtype == bool, d.dmd_state.dtype)
    return A.cells(d.dmd_state), A.c(eta)


def lit(Nx, Ny, pattern, method='ideal', neg=False, win=False):
    """Unlit pixels where the pattern says so; the spectrum of the target vanishes nowhere."""
    def fn(A):
        d = device(A, Nx, Ny, neg)
        inp = field(A, 'in', Ny, Nx, pattern)
        tgt = A.complexes('t', (Ny, Nx))
        kw, cw = {}, None
        if win:
            w = A.complexes('w', (Ny, Nx))
            kw, cw = dict(window=w), A.cells(w)
        T = spectrum(A, d, A.cells(tgt), cw)
        for z in T.reshape(-1):
            A.assume(A.abs2(z) > 0)
        st, eta = run(A, d, inp, tgt, method, neg, **kw)
        judge(A, d, st, A.cells(inp), T, eta, method, neg)
    return fn


def sparse(Nx, Ny, pattern, tpat, wpat=None, method='ideal', neg=False):
    """The target (or the window) makes the spectrum vanish at some pixels."""
    def fn(A):
        d = device(A, Nx, Ny, neg)
        inp = field(A, 'in', Ny, Nx, pattern)
        a = A.cplx('a')
        A.assume(A.abs2(A.c(a)) > 0)
        tgt = A.np.zeros((Ny, Nx), dtype=A.np.complex128)
        for k, f in enumerate(tpat):
            if f:
                tgt[k // Nx, k % Nx] = a * f
        kw, cw = {}, None
        if wpat:
            w = field(A, 'w', Ny, Nx, wpat)
            kw, cw = dict(window=w), A.cells(w)
        T = spectrum(A, d, A.cells(tgt), cw)
        st, eta = run(A, d, inp, tgt, method, neg, **kw)
        judge(A, d, st, A.cells(inp), T, eta, method, neg)
    return fn


def free(Nx, Ny, method, neg=False):
    """Which pixels are unlit is symbolic."""
    def fn(A):
        d = device(A, Nx, Ny, neg)
        z, tgt, off = A.complexes('in', (Ny, Nx)), A.complexes('t', (Ny, Nx)), A.bools('off', (Ny, Nx))
        T = spectrum(A, d, A.cells(tgt))
        for v in list(T.reshape(-1)) + list(A.cells(z).reshape(-1)):
            A.assume(A.abs2(v) > 0)
        A.assume(A.or_(*[A.not_(v) for v in A.cells(off).reshape(-1)]))
        inp = A.np.where(off, 0, z)
        st, eta = run(A, d, inp, tgt, method, neg)
        judge(A, d, st, A.cells(inp), T, eta, method, neg)
    return fn


def patterns(n):
    import itertools
    return [''.join(p) for p in itertools.product('ox', repeat=n) if 'x' in p]


def cases(tier):
    q = tier == 'quick'
    out = []
    for nx, ny in ((1, 1), (2, 1), (1, 2), (2, 2)):
        for k, p in enumerate(patterns(nx * ny)):
            m = ('ideal', 'simple', 'random')[k % 3] if q and nx * ny == 4 and p.count('x') != 4 else None
            for method in ([m, 'ideal'] if m not in (None, 'ideal') else [m]) if m else ('ideal', 'simple', 'random'):
                out.append(dict(name='%s_%dx%d_%s' % (method, nx, ny, p), fn=lit(nx, ny, p, method, neg=bool(k % 2)), cost=1,
                                bits=(64, 32) if not q or nx * ny < 4 or k % 2 else ((32,) if k % 4 else (64,))))
    for p in ('xo', 'ox', 'xx'):
        out.append(dict(name='ifta_2x1_' + p, fn=lit(2, 1, p, 'ifta'), cost=1))
    out.append(dict(name='ifta_2x2', fn=lit(2, 2, 'xoox', 'ifta', neg=True), cost=2))
    for nx, ny, p in ((3, 1, 'xox'), (1, 3, 'oxx')) + (() if q else ((3, 2, 'xoxoox'), (4, 1, 'xoxo'), (4, 2, 'xoxxooxx'), (3, 3, 'oxoxxxoxo'))):
        out.append(dict(name='ideal_%dx%d_%s' % (nx, ny, p), fn=lit(nx, ny, p), cost=3))
    out.append(dict(name='window_xo', fn=lit(2, 1, 'xo', win=True), cost=1))
    out.append(dict(name='window_xx_neg', fn=lit(2, 1, 'xx', win=True, neg=True), cost=1))
    for m in ('ideal', 'simple', 'random'):
        out.append(dict(name='zero_order_%s' % m, fn=sparse(2, 1, 'xx', (1, 1), method=m), cost=1))
        out.append(dict(name='edge_only_%s' % m, fn=sparse(2, 1, 'xx', (1, -1), method=m, neg=True), cost=1))
        out.append(dict(name='sparse_2x2_%s' % m, fn=sparse(2, 2, 'xxox', (1, 1, -1, -1), method=m), cost=1))
        out.append(dict(name='dark_window_%s' % m, fn=sparse(2, 1, 'xx', (1, 0), 'xo', method=m), cost=1))
    out.append(dict(name='dark_window_2x2', fn=sparse(2, 2, 'xxox', (0, 1, 0, 0), 'oxxx'), cost=1))
    for m in ('ideal', 'simple', 'random'):
        out.append(dict(name='free_' + m, fn=free(2, 1, m), cost=3))
    return out
