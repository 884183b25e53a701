"""Profile parameters are live."""
BOUNDS = ("every settable parameter of every profile class, alone and in sequences of up to 3 assignments per parameter with evaluations in between, "
          "and every subset of the parameters (branches decided symbolically); all values symbolic; derived profiles by arithmetic, every transform "
          "and nesting depth 3; 32 and 64 bit")
FUNCTIONS = ["profile.HermiteGaussian/SuperGaussian/Zernike/ConstantProfile property setters and getters",
             "window.RectangularWindowRectangle/RectangularWindowCircular property setters and getters", "FunctionProfile._func and derived functions"]


def zoo(A):
    from pySLM2 import HermiteGaussian, SuperGaussian, Zernike, ConstantProfile, RectangularWindowRectangle, RectangularWindowCircular
    P = dict(pos=True)
    return {
        'hg': (lambda v: HermiteGaussian(v['x0'], v['y0'], v['a'], v['w'], n=2, m=1), dict(x0={}, y0={}, a={}, w=P)),
        'gauss': (lambda v: HermiteGaussian(v['x0'], v['y0'], v['a'], v['w']), dict(x0={}, y0={}, a={}, w=P)),
        'sg': (lambda v: SuperGaussian(v['x0'], v['y0'], v['a'], v['w'], p=v['p']), dict(x0={}, y0={}, a={}, w=P, p=P)),
        'zernike': (lambda v: Zernike(v['a'], 1.25, 2, 2), dict(a={})),
        'piston': (lambda v: Zernike(v['a'], 1.25, 0, 0, normalize=False, extrapolate=True), dict(a={})),
        'const': (lambda v: ConstantProfile(v['c']), dict(c={})),
        'complex': (lambda v: ConstantProfile(v['c']), dict(c=dict(cplx=True))),
        'rect': (lambda v: RectangularWindowRectangle(v['x0'], v['y0'], v['wx'], v['wy']), dict(x0={}, y0={}, wx=P, wy=P)),
        'circ': (lambda v: RectangularWindowCircular(v['x0'], v['y0'], v['r']), dict(x0={}, y0={}, r=P)),
    }


def values(A, spec, tag):
    return {k: (A.cplx(k + tag) if o.get('cplx') else A.real(k + tag, pos=o.get('pos', False))) for k, o in spec.items()}


def pts(A, n=1):
    return A.reals('x', (n,), -1, 1), A.reals('y', (n,), -1, 1)


def same(A, label, p, make, vals, x, y):
    """p reports vals and evaluates like a fresh profile built with them."""
    for k, v in vals.items():
        A.eq('%s: %s' % (label, k), getattr(p, k), A.c(v))
    A.eq(label, p(x, y), A.cells(make(vals)(x, y)))


def sequence(name):
    """Assign the parameters one after another, twice, evaluating in between; a twin and an untouched copy stay as they are."""
    def fn(A):
        make, spec = zoo(A)[name]
        v0, v1, v2 = values(A, spec, '_0'), values(A, spec, '_1'), values(A, spec, '_2')
        x, y = pts(A)
        p, twin = make(v0), make(v0)
        same(A, 'initial', p, make, v0, x, y)
        cur = dict(v0)
        for k in spec:
            setattr(p, k, v1[k])
            cur[k] = v1[k]
            same(A, 'after %s' % k, p, make, cur, x, y)
        for k in reversed(list(spec)):
            setattr(p, k, v2[k])          # no evaluation in between
            cur[k] = v2[k]
        same(A, 'all assigned', p, make, cur, x, y)
        first = list(spec)[0]
        setattr(p, first, v0[first])
        setattr(p, first, v1[first])
        cur[first] = v1[first]
        same(A, 'assigned twice', p, make, cur, x, y)
        same(A, 'twin', twin, make, v0, x, y)
        setattr(twin, first, v2[first])
        tw = dict(v0)
        tw[first] = v2[first]
        same(A, 'twin assigned', twin, make, tw, x, y)
        same(A, 'unaffected by the twin', p, make, cur, x, y)
    return fn


def before_first_use(name):
    def fn(A):
        make, spec = zoo(A)[name]
        v0, v1 = values(A, spec, '_0'), values(A, spec, '_1')
        x, y = pts(A)
        p = make(v0)
        for k in spec:
            setattr(p, k, v1[k])
        same(A, 'assigned before the first evaluation', p, make, v1, x, y)
    return fn


def subset(name):
    """Any subset of the parameters, the solver chooses which."""
    def fn(A):
        make, spec = zoo(A)[name]
        v0, v1 = values(A, spec, '_0'), values(A, spec, '_1')
        x, y = pts(A)
        p = make(v0)
        p(x, y)
        cur = dict(v0)
        for k in spec:
            if A.bool('set_' + k):
                setattr(p, k, v1[k])
                cur[k] = v1[k]
        same(A, 'subset', p, make, cur, x, y)
    return fn


def derived(name):
    def fn(A):
        from pySLM2 import HermiteGaussian
        make, spec = zoo(A)[name]
        v0, v1, v2 = values(A, spec, '_0'), values(A, spec, '_1'), values(A, spec, '_2')
        dx, t, m = A.real('dx', -1, 1), A.real('t', -1, 1), A.real('m', pos=True)
        x, y = pts(A)
        q = A.profile('q')
        build = {
            'sum': lambda p: p + q, 'sum2': lambda p: q + p, 'difference': lambda p: q - p, 'product': lambda p: p * q, 'scaled': lambda p: 2.0 * p, 'negative': lambda p: -p,
            'square': lambda p: p ** 2, 'shift': lambda p: p.shift(dx, 0.5), 'rotate': lambda p: p.rotate(t), 'rescale_x': lambda p: p.rescale_x(m),
            'rescale_y': lambda p: p.rescale_y(m), 'nested': lambda p: (p * q + 1.0).shift(dx, dx).rotate(t),
        }
        if name != 'complex':
            build['phase'] = lambda p: p.as_complex_profile()
        p = make(v0)
        ds = {k: b(p) for k, b in build.items()}
        for k, d in ds.items():
            A.eq(k + ' at first', d(x, y), A.cells(build[k](make(v0))(x, y)))
        for step, v in enumerate((v1, v2)):
            for k in spec:
                setattr(p, k, v[k])
            for k, d in ds.items():
                A.eq('%s after step %d' % (k, step), d(x, y), A.cells(build[k](make(v))(x, y)))
    return fn


def on_device(name):
    """A device samples the current parameters, too."""
    def fn(A):
        import pySLM2
        make, spec = zoo(A)[name]
        v0, v1 = values(A, spec, '_0'), values(A, spec, '_1')
        d = pySLM2.DMD(A.real('lam', pos=True), A.real('f', pos=True), 4.0, 0.5, 2, 2, A.real('ps', pos=True))
        p = make(v0)
        cx = name == 'complex'
        A.eq('first', d.profile_to_tensor(p, complex=cx), A.cells(d.profile_to_tensor(make(v0), complex=cx)))
        A.eq('first, image plane', d.profile_to_tensor(p, at_fourier_plane=False, complex=cx), A.cells(d.profile_to_tensor(make(v0), at_fourier_plane=False, complex=cx)))
        for k in spec:
            setattr(p, k, v1[k])
        A.eq('assigned', d.profile_to_tensor(p, complex=cx), A.cells(d.profile_to_tensor(make(v1), complex=cx)))
        A.eq('assigned, image plane', d.profile_to_tensor(p, at_fourier_plane=False, complex=cx), A.cells(d.profile_to_tensor(make(v1), at_fourier_plane=False, complex=cx)))
    return fn


def cases(tier):
    names = ['hg', 'gauss', 'sg', 'zernike', 'piston', 'const', 'complex', 'rect', 'circ']
    out = []
    for n in names:
        out.append(dict(name='sequence_' + n, fn=sequence(n), cost=1.0))
        out.append(dict(name='early_' + n, fn=before_first_use(n), cost=0.5))
        out.append(dict(name='subset_' + n, fn=subset(n), cost=2.0, max_paths=40))
        if n != 'piston':
            out.append(dict(name='derived_' + n, fn=derived(n), cost=3.0))
            out.append(dict(name='device_' + n, fn=on_device(n), cost=0.6))
    return out
