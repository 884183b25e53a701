"""Sampling of profiles on the device grid."""
BOUNDS = ("panels 2x2, 3x2, 2x3 (quick) / up to 5x4 (thorough); profiles are uninterpreted real or complex functions of the coordinates, arrays, "
          "tensors and numbers are symbolic; both planes, real and complex request, SLM/DMD/LCOS; 32 and 64 bit")
FUNCTIONS = ["slm.SLM.profile_to_tensor", "slm.SLM._fourier_plane_grid", "slm.SLM._image_plane_grid", "profile.ConstantProfile._func"]
OUTSIDE = "complex values requested as a real tensor (not defined by the documentation)"
from props.C01 import make


def dev(A, kind, Nx, Ny):
    return make(kind, A.real('lam', pos=True), A.real('f', pos=True), Nx, Ny, A.real('ps', pos=True), A)


def want(A, cplx):
    from pySLM2 import BACKEND
    import tensorflow as tf
    if A.bits == 32:
        return tf.complex64 if cplx else tf.float32
    return tf.complex128 if cplx else tf.float64


def dt(A, t, cplx, label):
    import tensorflow as tf
    A.check(label + ' dtype', t.dtype == want(A, cplx), t.dtype)


def lift(A, c, cplx):
    return c if not cplx else A.map(lambda z: A.cx(A.re(z), A.im(z)), c)


def functions(kind, Nx, Ny):
    def fn(A):
        d = dev(A, kind, Nx, Ny)
        gx, gy = d.fourier_plane_grid
        ix, iy = d.image_plane_grid
        G = {True: (A.cells(gx), A.cells(gy)), False: (A.cells(ix), A.cells(iy))}
        p, q = A.profile('p'), A.profile('q', cplx=True)
        for name, prof, isc in (('p', p, False), ('q', q, True)):
            for plane in (True, False):
                X, Y = G[plane]
                ref = A.map(lambda a, b: A.fcells(name, a, b, cplx=isc), X, Y)
                for cplx in ((True,) if isc else (True, False)):
                    t = d.profile_to_tensor(prof, at_fourier_plane=plane, complex=cplx)
                    L = '%s plane=%s complex=%s' % (name, plane, cplx)
                    dt(A, t, cplx, L)
                    A.eq(L, t, ref)
        # the defaults: Fourier plane, real
        t = d.profile_to_tensor(p)
        dt(A, t, False, 'default')
        A.eq('default', t, A.map(lambda a, b: A.fcells('p', a, b), *G[True]))
        # derived profiles are sampled the same way
        t = d.profile_to_tensor(p * q + 2.0, complex=True)
        A.eq('derived', t, A.map(lambda a, b: A.fcells('p', a, b) * A.fcells('q', a, b, cplx=True) + 2, *G[True]))
    return fn


def arrays(kind, Nx, Ny):
    def fn(A):
        import tensorflow as tf
        d = dev(A, kind, Nx, Ny)
        np32, np64 = A.np.float32, A.np.float64
        own = A.np_dtype
        other = np32 if A.bits == 64 else np64
        for plane in (True, False):
            for tag, t in (('own', own), ('other', other)):
                a = A.reals('a%s' % tag, (Ny, Nx), -2, 2, dtype=t)
                z = A.complexes('z%s' % tag, (Ny, Nx), dtype=A.np_cdtype if tag == 'own' else (A.np.complex64 if A.bits == 64 else A.np.complex128))
                for cplx in (False, True):
                    L = '%s plane=%s complex=%s' % (tag, plane, cplx)
                    r = d.profile_to_tensor(a, at_fourier_plane=plane, complex=cplx)
                    dt(A, r, cplx, L + ' array')
                    A.eq(L + ' array', r, A.cells(a))
                    r = d.profile_to_tensor(tf.constant(a), at_fourier_plane=plane, complex=cplx)
                    dt(A, r, cplx, L + ' tensor')
                    A.eq(L + ' tensor', r, A.cells(a))
                r = d.profile_to_tensor(z, at_fourier_plane=plane, complex=True)
                dt(A, r, True, tag + ' complex array')
                A.eq('%s plane=%s complex array' % (tag, plane), r, A.cells(z))
                r = d.profile_to_tensor(tf.constant(z), at_fourier_plane=plane, complex=True)
                dt(A, r, True, tag + ' complex tensor')
                A.eq('%s plane=%s complex tensor' % (tag, plane), r, A.cells(z))
        b = A.bools('b', (Ny, Nx))
        for cplx in (False, True):
            r = d.profile_to_tensor(tf.constant(b), complex=cplx)
            dt(A, r, cplx, 'boolean')
            A.eq('boolean tensor complex=%s' % cplx, r, A.map(lambda v: A.ite(v, A.num(1), A.num(0)), A.cells(b)))
    return fn


def numbers(kind, Nx, Ny):
    def fn(A):
        import pySLM2
        import tensorflow as tf
        d = dev(A, kind, Nx, Ny)
        c = A.real('c', -2, 2)
        cr, ci = A.real('cr', -2, 2), A.real('ci', -2, 2)
        C = A.c(c)
        for plane in (True, False):
            for cplx in (False, True):
                L = 'plane=%s complex=%s' % (plane, cplx)
                for nm, v in (('number', c), ('constant profile', pySLM2.ConstantProfile(c)), ('scalar tensor', tf.constant(c, dtype=want(A, False)))):
                    t = d.profile_to_tensor(v, at_fourier_plane=plane, complex=cplx)
                    dt(A, t, cplx, nm + ' ' + L)
                    A.eq('%s %s' % (nm, L), t, A.grid(lambda i, j: C, Ny, Nx))
                t = d.profile_to_tensor(3, at_fourier_plane=plane, complex=cplx)
                dt(A, t, cplx, 'int ' + L)
                A.eq('int %s' % L, t, A.grid(lambda i, j: A.num(3), Ny, Nx))
                t = d.profile_to_tensor(pySLM2.ConstantProfile(c) * pySLM2.ConstantProfile(2.0) + 1, at_fourier_plane=plane, complex=cplx)
                A.eq('sum of constants %s' % L, t, A.grid(lambda i, j: 2 * C + 1, Ny, Nx))
            t = d.profile_to_tensor(2 - 1j, at_fourier_plane=plane, complex=True)
            dt(A, t, True, 'complex number')
            A.eq('complex number', t, A.grid(lambda i, j: A.cx(2, -1), Ny, Nx))
            t = d.profile_to_tensor(pySLM2.ConstantProfile(1 + 3j), at_fourier_plane=plane, complex=True)
            dt(A, t, True, 'complex constant profile')
            A.eq('complex constant profile', t, A.grid(lambda i, j: A.cx(1, 3), Ny, Nx))
    return fn


def two(Nx, Ny):
    """Two devices sample the same profile each on its own grid."""
    def fn(A):
        p = A.profile('p')
        ds = []
        for k, kind in enumerate(('DMD', 'LCOS', 'DMD')):
            ds.append(make(kind, A.real('lam%d' % k, pos=True), A.real('f%d' % k, pos=True), Nx, Ny, A.real('ps%d' % k, pos=True), A))
        for rep in (0, 1):
            for k, d in enumerate(ds):
                for plane in (True, False):
                    X, Y = d.fourier_plane_grid if plane else d.image_plane_grid
                    A.eq('device %d plane=%s' % (k, plane), d.profile_to_tensor(p, at_fourier_plane=plane),
                         A.map(lambda a, b: A.fcells('p', a, b), A.cells(X), A.cells(Y)))
    return fn


def history(Nx, Ny):
    """Sampling the same profile again gives its present values; other devices and planes asked in between do not matter."""
    def fn(A):
        import pySLM2
        v = {k: A.real(k, pos=True) for k in ('lam', 'f', 'ps')}
        d = make('DMD', v['lam'], v['f'], Nx, Ny, v['ps'], A)
        e = make('SLM', A.real('lam_b', pos=True), v['f'], Nx, Ny, v['ps'], A)
        p = A.profile('p')
        a, b, c = A.real('a'), A.real('b'), A.real('c')
        k = pySLM2.ConstantProfile(a)
        q = k * p
        for val in (a, b, c):
            k.c = val
            for dev_ in (d, e, d):
                for plane in (True, False):
                    X, Y = dev_.fourier_plane_grid if plane else dev_.image_plane_grid
                    ref = A.map(lambda s, t: A.c(val) * A.fcells('p', s, t), A.cells(X), A.cells(Y))
                    A.eq('profile, plane=%s' % plane, dev_.profile_to_tensor(q, at_fourier_plane=plane), ref)
                    A.eq('constant, plane=%s' % plane, dev_.profile_to_tensor(k, at_fourier_plane=plane), A.grid(lambda i, j: A.c(val), Ny, Nx))
        # an array is read when it is converted, and again when it is converted again
        arr = A.reals('arr', (Ny, Nx), -2, 2)
        A.eq('array', d.profile_to_tensor(arr), A.cells(arr))
        arr[0, 1] = a
        A.eq('array changed in place', d.profile_to_tensor(arr), A.cells(arr))
    return fn


def cases(tier):
    sizes = [(2, 2, 'DMD'), (3, 2, 'LCOS'), (2, 3, 'SLM')] if tier == 'quick' else \
        [(nx, ny, k) for nx in (1, 2, 3, 5) for ny in (1, 2, 4) for k in ('SLM', 'DMD', 'LCOS')]
    out = []
    for nx, ny, k in sizes:
        for nm, f in (('functions', functions), ('arrays', arrays), ('numbers', numbers)):
            out.append(dict(name='%s_%s_%dx%d' % (nm, k, nx, ny), fn=f(k, nx, ny), cost=0.4 + nx * ny / 20.))
    out.append(dict(name='history', fn=history(2, 2), cost=0.6))
    out.append(dict(name='two_devices', fn=two(2, 2), cost=0.6))
    return out
