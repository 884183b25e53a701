"""Power balance of the simulation."""
BOUNDS = ("panels 1x1 to 4x2, 4x3, 3x3 and 2x2 with paddings 0..2, two-pixel panels with paddings up to 5 (quick), padded sizes up to 8x6 (thorough); input fields, states, wavelength, focal length and "
          "pixel size symbolic; 32 and 64 bit")
FUNCTIONS = ["simulation.SLMSimulation.get_input_power/get_output_power/get_image_plane_power", "simulation.SLMSimulation.image_plane_pixel_area",
             "simulation.SLMSimulation.fourier_plane_pixel_area", "simulation.SLMSimulation.propagate_to_image"]
from props.C01 import make
from props.C03 import mksim
from props.C22 import setup, put_state


def total(A, c):
    return A.sum([A.abs2(v) for v in c.reshape(-1)])


def balance(kind, Nx, Ny, px, py, state):
    def fn(A):
        d, s, sf, ps = setup(A, kind, Nx, Ny, px, py)
        mod = put_state(A, d, kind, Nx, Ny, state)
        inp = A.complexes('in', (Ny, Nx))
        c = A.cells(inp)
        s.propagate_to_image(inp)
        pin, pout, pim = [A.c(v) for v in (s.get_input_power(), s.get_output_power(), s.get_image_plane_power())]
        a = ps * ps
        A.eq('input power', pin, total(A, c) * a)
        ref = total(A, c) * a if kind == 'LCOS' else A.sum([A.abs2(v) * A.abs2(m) for v, m in zip(c.reshape(-1), mod.reshape(-1))]) * a
        A.eq('output power', pout, ref)
        A.eq('image power', pim, ref)
        for nm, p, area in (('input', pin, s.fourier_plane_pixel_area), ('output', pout, s.fourier_plane_pixel_area),
                            ('image_plane', pim, s.image_plane_pixel_area)):
            A.eq('%s sum' % nm, p, A.sum(A.cells(getattr(s, nm + '_intensity'))) * A.c(area))
        if kind == 'LCOS':
            A.eq('lossless', pout, pin)
    return fn


def passive(Nx, Ny, state):
    """A state in [0, 1] does not create power."""
    def fn(A):
        d, s, sf, ps = setup(A, 'DMD', Nx, Ny, 0, 0)
        mod = put_state(A, d, 'DMD', Nx, Ny, state)
        if state == 'gray':
            for m in mod.reshape(-1):
                A.assume(A.and_(m >= 0, A.num(1) >= m))
        inp = A.complexes('in', (Ny, Nx))
        s.propagate_to_image(inp)
        pin, pout = A.c(s.get_input_power()), A.c(s.get_output_power())
        A.true('no gain', A.ge(pin, pout))
        A.true('not negative', A.ge(pout, A.num(0)))
        d.set_dmd_state_on()
        s.propagate_to_image(inp)
        A.eq('all on', A.c(s.get_output_power()), A.c(s.get_input_power()))
        d.set_dmd_state_off()
        s.propagate_to_image(inp)
        A.eq('all off', A.c(s.get_output_power()), A.num(0), scale=1.0)
        A.eq('all off image', A.c(s.get_image_plane_power()), A.num(0), scale=1.0)
    return fn


def paddings(kind, Nx, Ny, pads):
    def fn(A):
        lam, f, ps = A.real('lam', pos=True), A.real('f', pos=True), A.real('ps', pos=True)
        d = make(kind, lam, f, Nx, Ny, ps, A)
        put_state(A, d, kind, Nx, Ny, 'gray')
        inp = A.complexes('in', (Ny, Nx))
        first = None
        for px, py in pads:
            s = mksim(kind, d, px, py)
            s.propagate_to_image(inp)
            p = [A.c(v) for v in (s.get_input_power(), s.get_output_power(), s.get_image_plane_power())]
            if first is None:
                first = p
            for nm, u, v in zip(('input', 'output', 'image'), p, first):
                A.eq('%s with padding %d %d' % (nm, px, py), u, v)
    return fn


def history(kind, Nx, Ny, px, py):
    """Powers follow the fields: other states and inputs, a blocked zeroth order, arrays changed in place, asked for again and again."""
    def fn(A):
        d, s, sf, ps = setup(A, kind, Nx, Ny, px, py)
        a = ps * ps
        inp = A.complexes('in', (Ny, Nx))

        def look(label, blocked=False):
            for nm, area in (('input', s.fourier_plane_pixel_area), ('output', s.fourier_plane_pixel_area), ('image_plane', s.image_plane_pixel_area)):
                p = A.c(getattr(s, 'get_%s_power' % nm)())
                A.eq('%s %s' % (label, nm), p, A.sum(A.cells(getattr(s, nm + '_intensity'))) * A.c(area), scale=1.0 if blocked else None)

        def run(label, tag):
            mod = put_state(A, d, kind, Nx, Ny, 'gray', tag)
            c = A.cells(inp)
            s.propagate_to_image(inp)
            look(label)
            A.eq(label + ' input', A.c(s.get_input_power()), total(A, c) * a)
            out = A.sum([A.abs2(v) * A.abs2(m) for v, m in zip(c.reshape(-1), mod.reshape(-1))]) * a
            A.eq(label + ' output', A.c(s.get_output_power()), out)
            A.eq(label + ' image', A.c(s.get_image_plane_power()), out)
        run('first', '0')
        run('other state', '1')
        inp[0, 0] = A.complexes('new', ())
        run('input changed in place', '2')
        inp = A.complexes('in2', (Ny, Nx))
        run('other input', '3')
        if kind != 'LCOS':
            s.block_zeroth_order(0.45 * A.real('r', 0.5, 1.5, pos=True))
            look('blocked', True)
            s.block_zeroth_order(5 * d.scaling_factor / d.pixel_size)
            look('blocked again', True)
            A.eq('nothing left', A.c(s.get_image_plane_power()), A.num(0), scale=1.0)
            run('after the blocking', '4')
    return fn


def cases(tier):
    out = []
    cfg = [('DMD', 2, 2, 0, 0, 'bool'), ('LCOS', 2, 2, 0, 1, None), ('DMD-', 4, 2, 0, 0, 'gray'), ('DMD', 2, 1, 1, 1, 'gray'), ('LCOS', 1, 3, 1, 0, None),
           ('DMD', 3, 3, 0, 0, 'bool'), ('DMD-', 3, 1, 0, 1, 'gray'), ('LCOS', 2, 1, 5, 0, None), ('DMD', 1, 2, 0, 5, 'bool'), ('DMD', 4, 3, 0, 0, 'gray')]
    if tier != 'quick':
        cfg = []
        for k, (nx, ny) in enumerate([(nx, ny) for nx in range(1, 5) for ny in range(1, 4)]):
            for px in range(3):
                for py in range(3):
                    W, H = nx + 2 * px, ny + 2 * py
                    if 24 % W == 0 and 24 % H == 0 and W * H <= 36:
                        kind = ('DMD', 'LCOS', 'DMD-')[(k + px + py) % 3]
                        cfg.append((kind, nx, ny, px, py, None if kind == 'LCOS' else ('bool', 'gray')[(px + ny) % 2]))
    for kind, nx, ny, px, py, st in cfg:
        out.append(dict(name='%s_%dx%d_pad%d_%d' % (kind, nx, ny, px, py), fn=balance(kind, nx, ny, px, py, st), cost=1 + (nx + 2 * px) * (ny + 2 * py) * nx * ny / 20.))
    out += [dict(name='passive_bool', fn=passive(2, 2, 'bool'), cost=1), dict(name='passive_gray', fn=passive(2, 1, 'gray'), cost=1)]
    out += [dict(name='paddings_dmd', fn=paddings('DMD', 2, 2, [(0, 0), (1, 0), (0, 1)] + ([(2, 1), (3, 1)] if tier != 'quick' else [])), cost=2),
            dict(name='paddings_lcos', fn=paddings('LCOS', 1, 2, [(0, 0), (1, 1)]), cost=2)]
    out += [dict(name='history_dmd', fn=history('DMD', 2, 1, 0, 1), cost=2), dict(name='history_lcos', fn=history('LCOS', 1, 2, 1, 0), cost=2)]
    return out
