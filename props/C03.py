"""Padded grids and pixel areas."""
BOUNDS = ("panels up to 4x3, paddings 0..3 per axis, and some up to 8x7 with paddings up to 12 (quick), panels up to 6x5 and paddings 0..5 (thorough); wavelength, focal length and pixel "
          "size symbolic; several simulations of one device and of different devices alive at once; 32 and 64 bit")
FUNCTIONS = ["simulation.SLMSimulation._fourier_plane_padded_grid", "simulation.SLMSimulation._image_plane_padded_grid",
             "simulation.SLMSimulation.fourier_plane_pixel_area", "simulation.SLMSimulation.image_plane_pixel_area", "simulation.SLMSimulation.Nx/Ny"]
from props.C01 import make


def expect(A, s, d, Nx, Ny, px, py, lam, f, ps, label):
    W, H = Nx + 2 * px, Ny + 2 * py
    A.check(label + ' padded size', (s.Nx, s.Ny) == (W, H), (s.Nx, s.Ny))
    A.check(label + ' paddings', (s.padding_x, s.padding_y) == (px, py), (s.padding_x, s.padding_y))
    x, y = s.fourier_plane_padded_grid
    A.check(label + ' shape', x.shape == (H, W) and y.shape == (H, W), (x.shape, y.shape))
    gx, gy = d.fourier_plane_grid
    A.eq(label + ' crop x', x[py:py + Ny, px:px + Nx], gx)
    A.eq(label + ' crop y', y[py:py + Ny, px:px + Nx], gy)
    A.eq(label + ' x', x, A.grid(lambda i, j: (A.num(j - px) - A.frac(Nx, 2)) * ps, H, W))
    A.eq(label + ' y', y, A.grid(lambda i, j: (A.frac(Ny, 2) - A.num(i - py)) * ps, H, W))
    u, v = s.image_plane_padded_grid
    A.check(label + ' image shape', u.shape == (H, W) and v.shape == (H, W), (u.shape, v.shape))
    dx, dy = lam * f / (W * ps), lam * f / (H * ps)
    A.eq(label + ' image x', u, A.grid(lambda m, n: A.num(n - W // 2) * dx, H, W))
    A.eq(label + ' image y', v, A.grid(lambda m, n: A.num(H // 2 - m) * dy, H, W))
    A.eq(label + ' Fourier pixel area', s.fourier_plane_pixel_area, ps * ps)
    A.eq(label + ' image pixel area', s.image_plane_pixel_area, dx * dy)
    A.eq(label + ' scaling', s.scaling_factor, lam * f)


def mksim(kind, d, px, py):
    import pySLM2
    return pySLM2.DMDSimulation(d, padding_x=px, padding_y=py) if kind.startswith('DMD') else pySLM2.SLMSimulation(d, px, py)


def single(kind, Nx, Ny, px, py):
    def fn(A):
        lam, f, ps = A.real('lam', pos=True), A.real('f', pos=True), A.real('ps', pos=True)
        d = make(kind, lam, f, Nx, Ny, ps, A)
        s = mksim(kind, d, px, py)
        expect(A, s, d, Nx, Ny, px, py, A.c(lam), A.c(f), A.c(ps), kind)
    return fn


def several(geoms):
    """geoms: list of (kind, Nx, Ny, [(px, py), ...])"""
    def fn(A):
        sims = []
        for k, (kind, Nx, Ny, pads) in enumerate(geoms):
            lam, f, ps = A.real('lam%d' % k, pos=True), A.real('f%d' % k, pos=True), A.real('ps%d' % k, pos=True)
            d = make(kind, lam, f, Nx, Ny, ps, A)
            for px, py in pads:
                sims.append((mksim(kind, d, px, py), d, Nx, Ny, px, py, A.c(lam), A.c(f), A.c(ps)))
        for k in list(range(len(sims))) + list(reversed(range(len(sims)))):
            expect(A, *sims[k], 'simulation %d' % k)
    return fn


def cases(tier):
    out = []
    cfg = [(2, 2, 0, 0), (4, 2, 1, 0), (2, 4, 0, 1), (3, 2, 1, 2), (2, 3, 2, 1), (1, 1, 3, 3), (4, 3, 3, 1), (2, 2, 10, 0), (1, 2, 0, 12), (8, 3, 4, 5), (5, 7, 2, 8)]
    if tier != 'quick':
        cfg = [(nx, ny, px, py) for nx in (1, 2, 3, 4, 6) for ny in (1, 2, 3, 5) for px in (0, 1, 2, 5) for py in (0, 1, 3)] + [(2, 2, 10, 0), (1, 2, 0, 12), (8, 3, 4, 5), (5, 7, 2, 8)]
    for k, (nx, ny, px, py) in enumerate(cfg):
        kind = ('DMD', 'LCOS', 'DMD-', 'SLM')[k % 4]
        out.append(dict(name='%s_%dx%d_pad%d_%d' % (kind, nx, ny, px, py), fn=single(kind, nx, ny, px, py), cost=0.2 + (nx + 2 * px) * (ny + 2 * py) / 40.))
    out.append(dict(name='one_device_two_paddings', fn=several([('DMD', 2, 2, [(0, 0), (1, 0), (0, 1)])]), cost=1))
    out.append(dict(name='two_devices_same_shape', fn=several([('DMD', 2, 2, [(1, 0)]), ('LCOS', 2, 2, [(1, 0)])]), cost=1))
    out.append(dict(name='same_padded_size', fn=several([('LCOS', 4, 2, [(0, 1)]), ('LCOS', 2, 2, [(1, 1)])]), cost=1))
    return out
