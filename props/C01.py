"""Fourier-plane grid."""
BOUNDS = ("panels up to 5x5, and 16x3, 3x17, 9x12, 32x2, with symbolic pixel size, wavelength and focal length (quick), up to 9x7 (thorough); one to three devices "
          "alive at once; preset models at full resolution on selected pixels with symbolic wavelength and focal length; 32 and 64 bit")
FUNCTIONS = ["slm.SLM.__init__", "slm.SLM._fourier_plane_pixel_grid", "slm.SLM._fourier_plane_grid", "slm.SLM._convert_pixel_index_to_dmd_coordinate",
             "slm.SLM.fourier_plane_grid", "slm.DLP7000/DLP9500/DLP9000/PLUTO_2.__init__"]


def expect(A, dev, Nx, Ny, ps, label):
    x, y = dev.fourier_plane_grid
    A.check(label + ' shape', x.shape == (Ny, Nx) and y.shape == (Ny, Nx), (x.shape, y.shape))
    A.eq(label + ' x', x, A.grid(lambda i, j: (A.num(j) - A.frac(Nx, 2)) * ps, Ny, Nx))
    A.eq(label + ' y', y, A.grid(lambda i, j: (A.frac(Ny, 2) - A.num(i)) * ps, Ny, Nx))
    A.check(label + ' Nx Ny', dev.Nx == Nx and dev.Ny == Ny, (dev.Nx, dev.Ny))
    A.eq(label + ' pixel_size', dev.pixel_size, ps)


def make(kind, lam, f, Nx, Ny, ps, A):
    import pySLM2
    if kind == 'SLM':
        from pySLM2.slm import SLM
        return SLM(lam, f, Nx, Ny, ps)
    if kind == 'LCOS':
        return pySLM2.LCOS_SLM(lam, f, Nx, Ny, ps)
    return pySLM2.DMD(lam, f, A.real('period', 2, 6, pos=True), A.real('theta', 0, 3), Nx, Ny, ps,
                      negative_order=(kind == 'DMD-'))


def single(kind, Nx, Ny):
    def fn(A):
        lam, f, ps = A.real('lam', pos=True), A.real('f', pos=True), A.real('ps', pos=True)
        dev = make(kind, lam, f, Nx, Ny, ps, A)
        expect(A, dev, Nx, Ny, A.c(ps), kind)
        A.eq('scaling factor', dev.scaling_factor, A.c(lam) * A.c(f))
        A.eq('wavelength', dev.wavelength, A.c(lam))
        A.eq('focal length', dev.focal_length, A.c(f))
    return fn


def several(geoms):
    """Grids of different devices do not get mixed up, in whatever order they are asked for."""
    def fn(A):
        lam, f = A.real('lam', pos=True), A.real('f', pos=True)
        devs = []
        for k, (kind, Nx, Ny) in enumerate(geoms):
            ps = A.real('ps%d' % k, pos=True)
            devs.append((make(kind, lam, f, Nx, Ny, ps, A), Nx, Ny, A.c(ps)))
        for k in list(range(len(devs))) + list(reversed(range(len(devs)))):
            d, Nx, Ny, ps = devs[k]
            expect(A, d, Nx, Ny, ps, 'device %d' % k)
    return fn


def inverse(Nx, Ny):
    """Coordinates convert back to the pixel index, also between the pixels and outside the panel."""
    def fn(A):
        import tensorflow as tf
        lam, f, ps = A.real('lam', pos=True), A.real('f', pos=True), A.real('ps', pos=True)
        d = make('DMD', lam, f, Nx, Ny, ps, A)
        i, j = A.reals('i', (2,), -2, 6, dtype=A.np_dtype), A.reals('j', (2,), -2, 6, dtype=A.np_dtype)
        x, y = d._convert_pixel_index_to_dmd_coordinate(tf.constant(i), tf.constant(j))
        I, J, P = A.cells(i), A.cells(j), A.c(ps)
        A.eq('x', x, A.map(lambda v: (v - A.frac(Nx, 2)) * P, J))
        A.eq('y', y, A.map(lambda v: (A.frac(Ny, 2) - v) * P, I))
        if hasattr(d, '_convert_slm_coordinate_to_pixel_index'):
            bi, bj = d._convert_slm_coordinate_to_pixel_index(x, y)
            A.eq('row index', bi, I)
            A.eq('column index', bj, J)
    return fn


def differ(param):
    """Two devices that differ in a single parameter keep their own grids, asked for in alternation."""
    def fn(A):
        v = {k: A.real(k, pos=True) for k in ('lam', 'f', 'ps')}
        v['Nx'], v['Ny'] = 3, 2
        w = dict(v)
        if param in v and param not in ('Nx', 'Ny'):
            w[param] = A.real(param + '_b', pos=True)
        elif param == 'swap':
            w['Nx'], w['Ny'] = 2, 3
        else:
            w[param] = 4
        ds = [make('SLM', u['lam'], u['f'], u['Nx'], u['Ny'], u['ps'], A) for u in (v, w)]
        for k in (0, 1, 0):
            u = (v, w)[k]
            expect(A, ds[k], u['Nx'], u['Ny'], A.c(u['ps']), 'device %d' % k)
            A.eq('device %d scaling factor' % k, ds[k].scaling_factor, A.c(u['lam']) * A.c(u['f']))
    return fn


PRESETS = {'DLP7000': (1024, 768, 13.68e-6), 'DLP9500': (1920, 1080, 10.8e-6), 'DLP9000': (2560, 1600, 7.56e-6), 'PLUTO_2': (1920, 1080, 8e-6)}


def preset(name, neg=False):
    Nx, Ny, ps = PRESETS[name]

    def fn(A):
        import pySLM2
        lam, f = A.real('lam', pos=True), A.real('f', pos=True)
        if name == 'PLUTO_2':
            d = pySLM2.PLUTO_2(lam, f)
        else:
            d = getattr(pySLM2, name)(lam, f, A.real('period', 2, 6, pos=True), A.real('theta', 0, 3), negative_order=neg)
            A.check('order', d.negative_order == neg, d.negative_order)
        A.check('resolution', (d.Nx, d.Ny) == (Nx, Ny), (d.Nx, d.Ny))
        A.eq('pixel_size', d.pixel_size, ps, tol=1e-6)
        A.eq('scaling factor', d.scaling_factor, A.c(lam) * A.c(f))
        x, y = d.fourier_plane_grid
        A.check('shape', x.shape == (Ny, Nx) and y.shape == (Ny, Nx), (x.shape, y.shape))
        for (i, j) in ((0, 0), (0, Nx - 1), (Ny - 1, 0), (Ny // 2, Nx // 2), (17, 401), (Ny - 3, Nx - 250)):
            A.eq('x[%d,%d]' % (i, j), A.cells(x[i, j]), (j - Nx / 2) * ps, scale=Nx * ps)
            A.eq('y[%d,%d]' % (i, j), A.cells(y[i, j]), (Ny / 2 - i) * ps, scale=Nx * ps)
    return fn


def cases(tier):
    out = []
    sizes = [(1, 1), (2, 2), (4, 2), (2, 3), (3, 4), (5, 5), (1, 4), (16, 3), (3, 17), (9, 12), (32, 2)]
    if tier != 'quick':
        sizes = [(nx, ny) for nx in range(1, 10) for ny in range(1, 8)] + [(16, 3), (3, 17), (9, 12), (32, 2), (20, 20)]
    for k, (nx, ny) in enumerate(sizes):
        kinds = ('SLM', 'DMD', 'DMD-', 'LCOS')
        for kind in (kinds if tier != 'quick' or k in (2, 4) else (kinds[k % 4],)):
            out.append(dict(name='%s_%dx%d' % (kind, nx, ny), fn=single(kind, nx, ny), cost=0.1 + nx * ny / 60.))
    out.append(dict(name='two_devices', fn=several([('DMD', 3, 2), ('LCOS', 2, 3)]), cost=0.3))
    out.append(dict(name='same_shape_devices', fn=several([('DMD', 2, 2), ('DMD', 2, 2), ('SLM', 2, 2)]), cost=0.3))
    for k in ('ps', 'Nx', 'Ny', 'swap', 'lam', 'f'):
        out.append(dict(name='differ_' + k, fn=differ(k), cost=0.2))
    for nx, ny in ((4, 2), (3, 5)):
        out.append(dict(name='inverse_%dx%d' % (nx, ny), fn=inverse(nx, ny), cost=0.2))
    for n in PRESETS:
        out.append(dict(name=n, fn=preset(n), cost=0.5))
    out.append(dict(name='DLP9000_negative', fn=preset('DLP9000', True), cost=0.5))
    return out
