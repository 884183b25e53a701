"""Blocking the zeroth order."""
BOUNDS = ("panels and paddings giving image grids up to 6x4, 12x2 and 3x12 (quick) / 8x6 (thorough); field contents, wavelength, focal length, pixel size, "
          "periodicity and radii symbolic (every subset of blocked points reachable by some radius is decided); one or two blockings after one "
          "propagation; 32 and 64 bit")
FUNCTIONS = ["simulation.DMDSimulation.block_zeroth_order", "simulation.SLMSimulation._image_plane_padded_grid"]
OUTSIDE = "points at exactly the radius where rounding decides"
from props.C13 import device


def setup(A, Nx, Ny, px, py, neg=False, tag=''):
    import pySLM2
    d = device(A, Nx, Ny, neg, tag)
    s = pySLM2.DMDSimulation(d, px, py)
    return d, s


def disc(A, s, fld, r2):
    u, v = [A.cells(t) for t in s.image_plane_padded_grid]
    z = A.num(0)
    return A.map(lambda a, b, c: A.ite(a * a + b * b < r2, z, c), u, v, fld)


def run(A, d, s, tag='', state='bool'):
    from props.C22 import put_state
    Ny, Nx = d.dmd_state.shape
    put_state(A, d, 'DMD', Nx, Ny, state, tag)
    s.propagate_to_image(A.complexes('in' + tag, (Ny, Nx)))
    return A.cells(s.input_field), A.cells(s.output_field), A.cells(s.image_plane_field)


def after(A, s, inp, out, img, label):
    A.eq(label + ' image field', s.image_plane_field, img)
    A.check(label + ' dtype', s.image_plane_field.dtype == A.np_cdtype, s.image_plane_field.dtype)
    A.eq(label + ' image intensity', s.image_plane_intensity, A.map(A.abs2, A.cells(s.image_plane_field)))
    A.eq(label + ' input field', s.input_field, inp)
    A.eq(label + ' output field', s.output_field, out)


def default_r2(A, d):
    v = d._v
    h = v['lam'] * v['f'] / (2 * v['p'] * v['ps'])
    return h * h


def given(Nx, Ny, px, py, integer=None):
    def fn(A):
        d, s = setup(A, Nx, Ny, px, py)
        inp, out, img = run(A, d, s)
        if integer is not None:
            r = integer
        else:
            r = A.real('r', 0.05, 2)
            A.assume(A.c(r) >= 0)
        s.block_zeroth_order(r)
        after(A, s, inp, out, disc(A, s, img, A.c(r) * A.c(r)), 'r')
    return fn


def default(Nx, Ny, px, py, neg):
    def fn(A):
        d, s = setup(A, Nx, Ny, px, py, neg)
        inp, out, img = run(A, d, s)
        s.block_zeroth_order()
        after(A, s, inp, out, disc(A, s, img, default_r2(A, d)), 'default')
        s.propagate_to_image(A.complexes('second', (Ny, Nx)))
        inp, out, img = A.cells(s.input_field), A.cells(s.output_field), A.cells(s.image_plane_field)
        s.block_zeroth_order(None)
        after(A, s, inp, out, disc(A, s, img, default_r2(A, d)), 'None')
    return fn


def geometry(Nx, Ny, px, py):
    """The number the default radius is made of: the first-order origin lies at twice the radius."""
    def fn(A):
        d, s = setup(A, Nx, Ny, px, py)
        x, y = s.first_order_origin
        gx, gy = d.first_order_origin
        A.eq('same origin x', x, gx)
        A.eq('same origin y', y, gy)
        A.eq('distance', A.c(x) * A.c(x) + A.c(y) * A.c(y), 4 * default_r2(A, d))
    return fn


def twice(Nx, Ny, first_default):
    def fn(A):
        d, s = setup(A, Nx, Ny, 0, 0)
        inp, out, img = run(A, d, s)
        q = A.real('q', 0.05, 2, pos=True)
        if first_default:
            s.block_zeroth_order()
            r2 = default_r2(A, d)
        else:
            r = A.real('r', 0.05, 2, pos=True)
            s.block_zeroth_order(r)
            r2 = A.c(r) * A.c(r)
        s.block_zeroth_order(q)
        after(A, s, inp, out, disc(A, s, disc(A, s, img, r2), A.c(q) * A.c(q)), 'twice')
    return fn


def early(A):
    d, s = setup(A, 2, 2, 1, 0)
    A.raises('before propagation', lambda: s.block_zeroth_order(), TypeError)
    A.raises('before propagation with radius', lambda: s.block_zeroth_order(A.real('r', 0.1, 1)), TypeError)
    A.check('still empty', s.image_plane_field is None and s.output_field is None and s.input_field is None)
    inp, out, img = run(A, d, s)
    s.block_zeroth_order()
    after(A, s, inp, out, disc(A, s, img, default_r2(A, d)), 'first')
    s.clear()
    A.raises('after clear', lambda: s.block_zeroth_order(), TypeError)
    A.check('still clear', s.image_plane_field is None)


def two_sims(A):
    d, s = setup(A, 2, 2, 0, 0, tag='d')
    e, t = setup(A, 2, 2, 0, 0, tag='e')
    a, b = run(A, d, s, 'd'), run(A, e, t, 'e')
    s.block_zeroth_order()
    after(A, t, *b, label='other untouched')
    t.block_zeroth_order()
    after(A, s, a[0], a[1], disc(A, s, a[2], default_r2(A, d)), 'one')
    after(A, t, b[0], b[1], disc(A, t, b[2], default_r2(A, e)), 'two')


def cases(tier):
    out = [dict(name='early', fn=early, cost=0.6), dict(name='two_sims', fn=two_sims, cost=0.8)]
    cfg = [(2, 2, 0, 0), (2, 1, 1, 0), (3, 2, 0, 1), (4, 2, 1, 1), (2, 2, 5, 0), (1, 2, 1, 5)] if tier == 'quick' else \
        [(nx, ny, px, py) for nx in (1, 2, 3, 4) for ny in (1, 2, 3) for px in (0, 1, 2) for py in (0, 1) if 24 % (nx + 2 * px) == 0 and 24 % (ny + 2 * py) == 0]
    for k, (nx, ny, px, py) in enumerate(cfg):
        n = '%dx%d_pad%d_%d' % (nx, ny, px, py)
        c = 0.5 + (nx + 2 * px) * (ny + 2 * py) / 15.
        out.append(dict(name='radius_' + n, fn=given(nx, ny, px, py), cost=c))
        out.append(dict(name='default_' + n, fn=default(nx, ny, px, py, bool(k % 2)), cost=c))
    out.append(dict(name='integer_radius', fn=given(2, 2, 0, 0, 1), cost=0.5))
    out.append(dict(name='zero_radius', fn=given(2, 2, 0, 0, 0), cost=0.5))
    out.append(dict(name='zero_float_radius', fn=given(3, 2, 1, 0, 0.0), cost=0.5))
    out.append(dict(name='geometry', fn=geometry(3, 2, 1, 0), cost=0.3))
    for fd in (False, True):
        out.append(dict(name='twice%d' % fd, fn=twice(2, 2, fd), cost=0.8))
        if tier != 'quick':
            out.append(dict(name='twice%d_4x2' % fd, fn=twice(4, 2, fd), cost=1.2))
    return out
