"""Super-Gaussian profiles."""
BOUNDS = ("positions (centre included), centre, amplitude, width and power symbolic reals, w > 0 and power > 0; integer powers 1..3 (quick) / 1..6 "
          "(thorough) also expanded exactly; scalar, vector and matrix coordinates; 32 and 64 bit")
FUNCTIONS = ["profile.SuperGaussian.__init__", "profile.SuperGaussian._func", "profile.FunctionProfile.__call__"]
OUTSIDE = "powers <= 0 (not a super-Gaussian)"


def params(A):
    return A.real('x0', -1, 1), A.real('y0', -1, 1), A.real('a'), A.real('w', pos=True)


def rho2(A, x, y, c):
    return ((x - c[0]) * (x - c[0]) + (y - c[1]) * (y - c[1])) / (c[3] * c[3])


def general(shape):
    def fn(A):
        from pySLM2 import SuperGaussian
        q = params(A)
        P = A.real('p', 0.5, 3, pos=True)
        c, Pc = [A.c(v) for v in q], A.c(P)
        if shape is None:
            x, y = A.real('x', -1, 1), A.real('y', -1, 1)
        else:
            x, y = A.reals('x', shape, -1, 1), A.reals('y', shape, -1, 1)
        g = SuperGaussian(*q, p=P)
        out = g(x, y)
        A.check('dtype', out.dtype == A.np_dtype, out.dtype)
        A.eq('super-Gaussian', out, A.map(lambda u, v: c[2] * A.exp(-A.pow(rho2(A, u, v, c), Pc)), A.cells(x), A.cells(y)))
        A.eq('centre', g(q[0], q[1]), c[2])
        A.eq('power', g.p, Pc)
    return fn


def power(k):
    def fn(A):
        from pySLM2 import SuperGaussian, HermiteGaussian
        q = params(A)
        c = [A.c(v) for v in q]
        x, y = A.reals('x', (2,), -1, 1), A.reals('y', (2,), -1, 1)
        g = SuperGaussian(*q, p=float(k)) if k else SuperGaussian(*q)
        kk = k or 1

        def ref(u, v):
            t = A.num(1)
            for _ in range(kk):
                t = t * rho2(A, u, v, c)
            return c[2] * A.exp(-t)
        A.eq('power %d' % kk, g(x, y), A.map(ref, A.cells(x), A.cells(y)))
        if kk == 1:
            A.eq('fundamental Gaussian', g(x, y), HermiteGaussian(*q)(x, y))
    return fn


def cases(tier):
    out = [dict(name='general', fn=general((2,)), cost=0.3), dict(name='general_2d', fn=general((2, 2)), cost=0.3),
           dict(name='general_scalar', fn=general(None), cost=0.3), dict(name='default_power', fn=power(0), cost=0.3)]
    for k in range(1, 4 if tier == 'quick' else 7):
        out.append(dict(name='power_%d' % k, fn=power(k), cost=0.3))
    return out
