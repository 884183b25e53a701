"""Image-plane grid."""
BOUNDS = ("panels up to 5x5, and 16x3, 3x17, 9x12, 32x2 (quick) / 9x8 (thorough) with symbolic wavelength, focal length and pixel size; several devices alive at once; "
          "32 and 64 bit")
FUNCTIONS = ["slm.SLM._image_plane_grid", "slm.SLM.image_plane_grid", "slm.SLM.scaling_factor"]
from props.C01 import make


def expect(A, d, Nx, Ny, lam, f, ps, label):
    x, y = d.image_plane_grid
    A.check(label + ' shape', x.shape == (Ny, Nx) and y.shape == (Ny, Nx), (x.shape, y.shape))
    dx = lam * f / (Nx * ps)
    dy = lam * f / (Ny * ps)
    A.eq(label + ' x', x, A.grid(lambda m, n: A.num(n - Nx // 2) * dx, Ny, Nx))
    A.eq(label + ' y', y, A.grid(lambda m, n: A.num(Ny // 2 - m) * dy, Ny, Nx))
    A.eq(label + ' scaling', d.scaling_factor, lam * f)


def single(kind, Nx, Ny):
    def fn(A):
        lam, f, ps = A.real('lam', pos=True), A.real('f', pos=True), A.real('ps', pos=True)
        d = make(kind, lam, f, Nx, Ny, ps, A)
        expect(A, d, Nx, Ny, A.c(lam), A.c(f), A.c(ps), kind)
    return fn


def several(geoms):
    def fn(A):
        devs = []
        for k, (kind, Nx, Ny) in enumerate(geoms):
            lam, f, ps = A.real('lam%d' % k, pos=True), A.real('f%d' % k, pos=True), A.real('ps%d' % k, pos=True)
            devs.append((make(kind, lam, f, Nx, Ny, ps, A), Nx, Ny, A.c(lam), A.c(f), A.c(ps)))
        for k in list(range(len(devs))) + list(reversed(range(len(devs)))):
            expect(A, *devs[k], 'device %d' % k)
    return fn


def differ(param):
    """Two devices that differ in a single parameter keep their own grids, asked for in alternation."""
    def fn(A):
        v = {k: A.real(k, pos=True) for k in ('lam', 'f', 'ps')}
        v['Nx'], v['Ny'] = 3, 2
        w = dict(v)
        if param in ('lam', 'f', 'ps'):
            w[param] = A.real(param + '_b', pos=True)
        elif param == 'swap':
            w['Nx'], w['Ny'] = 2, 3
        else:
            w[param] = 4
        ds = [make('SLM', u['lam'], u['f'], u['Nx'], u['Ny'], u['ps'], A) for u in (v, w)]
        for k in (0, 1, 0):
            u = (v, w)[k]
            expect(A, ds[k], u['Nx'], u['Ny'], A.c(u['lam']), A.c(u['f']), A.c(u['ps']), 'device %d' % k)
    return fn


def cases(tier):
    out = []
    sizes = [(1, 1), (2, 2), (4, 2), (2, 3), (3, 4), (5, 5), (1, 4), (6, 3), (16, 3), (3, 17), (9, 12), (32, 2)]
    if tier != 'quick':
        sizes = [(nx, ny) for nx in range(1, 10) for ny in range(1, 9)] + [(16, 3), (3, 17), (9, 12), (32, 2), (20, 20)]
    for k, (nx, ny) in enumerate(sizes):
        kinds = ('SLM', 'DMD', 'DMD-', 'LCOS')
        for kind in (kinds if tier != 'quick' or k in (2, 4) else (kinds[k % 4],)):
            out.append(dict(name='%s_%dx%d' % (kind, nx, ny), fn=single(kind, nx, ny), cost=0.1 + nx * ny / 60.))
    out.append(dict(name='two_devices', fn=several([('DMD', 3, 2), ('LCOS', 2, 3)]), cost=0.3))
    out.append(dict(name='same_shape_devices', fn=several([('DMD', 2, 2), ('DMD', 2, 2), ('SLM', 2, 2)]), cost=0.3))
    for k in ('ps', 'lam', 'f', 'Nx', 'Ny', 'swap'):
        out.append(dict(name='differ_' + k, fn=differ(k), cost=0.2))
    return out
