"""Window profiles."""
BOUNDS = ("positions, centre, sizes and radius symbolic; once over the reals (any sign of the sizes) and once bit-precisely in IEEE arithmetic of both "
          "precisions (every float incl. infinities, sizes finite); 32 and 64 bit")
FUNCTIONS = ["window.RectangularWindowRectangle._func", "window.RectangularWindowCircular._func", "profile.FunctionProfile.__call__"]
FPNOTE = "The fp_* cases are decided bit-precisely in IEEE floating point, the others over exact reals."


def rect(shape):
    def fn(A):
        from pySLM2.window import RectangularWindowRectangle
        x0, y0 = A.real('x0', -1, 1), A.real('y0', -1, 1)
        wx, wy = A.real('wx', 0.5, 3), A.real('wy', 0.5, 3)
        x, y = (A.reals('x', shape, -1, 1), A.reals('y', shape, -1, 1)) if shape is not None else (A.real('x', -1, 1), A.real('y', -1, 1))
        p = RectangularWindowRectangle(x0, y0, wx, wy)
        out = p(x, y)
        A.check('dtype', out.dtype == A.np_dtype, out.dtype)
        c = [A.c(v) for v in (x0, y0, wx, wy)]

        def ref(u, v):
            inside = A.and_(2 * (u - c[0]) < c[2], 2 * (c[0] - u) < c[2], 2 * (v - c[1]) < c[3], 2 * (c[1] - v) < c[3])
            return A.ite(inside, A.num(1), A.num(0))
        A.eq('rectangle', out, A.map(ref, A.cells(x), A.cells(y)))
        # the edges do not belong to it, the corners of a slightly smaller rectangle do
        A.true('inside', A.implies(A.and_(c[2] > 0, c[3] > 0), A.eqc(A.c(p(x0 + 0.25 * wx, y0 - 0.25 * wy)), 1)))
    return fn


def circ(shape):
    def fn(A):
        from pySLM2.window import RectangularWindowCircular
        x0, y0, r = A.real('x0', -1, 1), A.real('y0', -1, 1), A.real('r', 0.5, 1.5, pos=True)
        x, y = (A.reals('x', shape, -1, 1), A.reals('y', shape, -1, 1)) if shape is not None else (A.real('x', -1, 1), A.real('y', -1, 1))
        p = RectangularWindowCircular(x0, y0, r)
        out = p(x, y)
        A.check('dtype', out.dtype == A.np_dtype, out.dtype)
        c = [A.c(v) for v in (x0, y0, r)]

        def ref(u, v):
            d2 = (u - c[0]) * (u - c[0]) + (v - c[1]) * (v - c[1])
            return A.ite(d2 > c[2] * c[2], A.num(0), A.num(1))
        A.eq('circle', out, A.map(ref, A.cells(x), A.cells(y)))
        A.eq('centre', p(x0, y0), A.num(1))
    return fn


def fp_rect(A):
    from pySLM2.window import RectangularWindowRectangle
    x0, y0 = A.real('x0', -1, 1), A.real('y0', -1, 1)
    wx, wy = A.real('wx', 0.5, 3), A.real('wy', 0.5, 3)
    x, y = A.reals('x', (1,), -1, 1, dtype=A.np_dtype), A.reals('y', (1,), -1, 1, dtype=A.np_dtype)
    o = A.c(RectangularWindowRectangle(x0, y0, wx, wy)(x, y))
    A.true('only 0 and 1', A.or_(A.eqc(o, 0), A.eqc(o, 1)))


def fp_rect_origin(A):
    """A rectangle about the origin: no rounding in the coordinates, so the indicator is exact."""
    from pySLM2.window import RectangularWindowRectangle
    wx, wy = A.reals('wx', (), 0.5, 3, dtype=A.np_dtype), A.reals('wy', (), 0.5, 3, dtype=A.np_dtype)
    hx, hy = A.reals('x', (1,), -1, 1, dtype=A.np_dtype), A.reals('y', (1,), -1, 1, dtype=A.np_dtype)
    o = A.c(RectangularWindowRectangle(0.0, 0.0, wx, wy)(hx, hy))
    X, Y, WX, WY = A.c(hx), A.c(hy), A.c(wx), A.c(wy)
    A.assume(A.and_(A.le(A.num(1e-30), WX), A.le(WX, A.num(1e30)), A.le(A.num(1e-30), WY), A.le(WY, A.num(1e30)),
                    A.le(A.abs(X), A.num(1e30)), A.le(A.abs(Y), A.num(1e30))))
    inside = A.and_(2 * X < WX, -2 * X < WX, 2 * Y < WY, -2 * Y < WY)
    A.true('exact', A.eqc(o, A.ite(inside, A.num(1), A.num(0))))


def fp_circ(A):
    from pySLM2.window import RectangularWindowCircular
    x0, y0, r = A.real('x0', -1, 1), A.real('y0', -1, 1), A.real('r', 0.5, 3)
    x, y = A.reals('x', (1,), -1, 1, dtype=A.np_dtype), A.reals('y', (1,), -1, 1, dtype=A.np_dtype)
    o = A.c(RectangularWindowCircular(x0, y0, r)(x, y))
    A.true('only 0 and 1', A.or_(A.eqc(o, 0), A.eqc(o, 1)))


def fp_circ_edge(A):
    """Boundary points on the axes of a circle about the origin belong to it, for every radius."""
    from pySLM2.window import RectangularWindowCircular
    r = A.reals('r', (), 0.5, 3, dtype=A.np_dtype)
    p = RectangularWindowCircular(0.0, 0.0, r)
    R = A.c(r)
    A.assume(A.and_(A.le(A.num(0), R), A.le(R, A.num(1e15))))
    A.true('right', A.eqc(A.c(p(r, 0.0)), 1))
    A.true('left', A.eqc(A.c(p(-r, 0.0)), 1))
    A.true('top', A.eqc(A.c(p(0.0, r)), 1))
    A.true('centre', A.eqc(A.c(p(0.0, 0.0)), 1))


def cases(tier):
    out = [dict(name='rectangle', fn=rect((2,)), cost=0.5), dict(name='rectangle_2d', fn=rect((2, 2)), cost=0.5),
           dict(name='rectangle_scalar', fn=rect(None), cost=0.5),
           dict(name='circle', fn=circ((2,)), cost=0.5), dict(name='circle_2d', fn=circ((2, 2)), cost=0.5),
           dict(name='circle_scalar', fn=circ(None), cost=0.5),
           dict(name='fp_rectangle', fn=fp_rect, mode='fp', cost=2), dict(name='fp_rectangle_origin', fn=fp_rect_origin, mode='fp', cost=2),
           dict(name='fp_circle', fn=fp_circ, mode='fp', cost=3), dict(name='fp_circle_edge', fn=fp_circ_edge, mode='fp', cost=2)]
    return out
