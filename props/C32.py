"""Luxbeam controller against a recording stand-in of the vendor library."""
BOUNDS = ("every sequence of up to 3 (quick) / 4 (thorough) calls out of {initialize, load one image, load two, load three, software trigger}, as symbolic "
          "integers the solver enumerates, symbolic pixels on 3x2 images, both inversion settings (symbolic), symbolic timeout; lists of 1 to 5 images; the installed "
          "program followed over 9 triggers for every image count of 1 to 4")
FUNCTIONS = ["util.controller._check_initialization", "util.controller.DMDControllerBase.__init__", "util.controller.LuxbeamController.__init__",
             "util.controller.LuxbeamController.initialize", "util.controller.LuxbeamController.load_single", "util.controller.LuxbeamController.load_multiple",
             "util.controller.LuxbeamController.fire_software_trigger", "util.controller.LuxbeamController.Nx", "util.controller.LuxbeamController.Ny"]
OUTSIDE = "the vendor library and the device (replaced by a recording stand-in that follows the binding's signatures)"
GRAIN = 0.4
from props import stubs
from props.C31 import images


def pre_import(symbolic):
    stubs.install()


class Device(object):
    def __init__(self, A):
        self.A = A
        import Luxbeam
        self.m = Luxbeam
        self.pos = 0
        self.running = self.reset = False
        self.reg, self.slots = {}, {}
        self.program = None
        self.syncs = []

    def apply(self, label):
        """Feed the commands since the last time; what each start of the sequencer shows."""
        A, m, shown = self.A, self.m, []
        rec = stubs.LOG[self.pos:]
        self.pos = len(stubs.LOG)
        for name, a, k in rec:
            if name == 'state':
                on = a[1] == m.ENABLE
                if a[0] == m.SEQ_CMD_RUN:
                    if on:
                        A.check(label + ': starts from stop', not self.running)
                        A.check(label + ': starts outside reset', not self.reset)
                        shown.append((self.reg.get(0), dict(self.slots)))
                    self.running = on
                elif a[0] == m.SEQ_CMD_RESET:
                    self.reset = on
            elif name == 'reg':
                A.check(label + ': counter set while stopped and in reset', self.reset and not self.running)
                self.reg[a[0]] = a[1]
            elif name == 'program':
                A.check(label + ': program loaded while stopped', not self.running)
                self.program = a[0]
            elif name == 'image':
                A.check(label + ': image loaded while stopped', not self.running)
                self.slots[int(a[0])] = A.cells(a[1])
                self.order.append(int(a[0]))
            elif name == 'sync':
                self.syncs.append(a[0])
        return shown

    order = ()

    def loaded(self, label, want):
        self.order = []
        shown = self.apply(label)
        A = self.A
        A.check(label + ': started once', len(shown) == 1, len(shown))
        A.check(label + ': running', self.running)
        if len(shown) != 1:
            return
        A.check(label + ': counter', shown[0][0] == len(want), shown[0][0])
        for k, w in enumerate(want):
            if k in shown[0][1]:
                A.eq(label + ': slot %d' % k, shown[0][1][k], w)
            else:
                A.check(label + ': slot %d' % k, False, 'not loaded')


def controller(A, **kw):
    from pySLM2.util.controller import LuxbeamController
    del stubs.LOG[:]
    inv = True if A.bool('invert') else False
    c = LuxbeamController('192.0.2.1', invert=inv, **kw)
    d = Device(A)
    A.check('one device', [r[0] for r in stubs.LOG] == ['open'], [r[0] for r in stubs.LOG])
    a = stubs.LOG[0][1]
    A.check('address', a[0] == '192.0.2.1', a[0])
    A.check('inversion', bool(a[1]) == inv, a[1])
    if 'timeout' in kw:
        A.eq('timeout', a[2], A.c(kw['timeout']))
    else:
        A.check('no timeout', a[2] is None, a[2])
    A.check('invert', c.invert == inv)
    return c, d


def history(steps):
    def fn(A):
        c, d = controller(A)
        ready = False
        for k in range(steps):
            op = A.int('op%d' % k, 0, 4)
            label = 'step %d' % k
            if op == 0:
                c.initialize()
                d.apply(label)
                ready = True
                A.check(label + ': program installed', d.program is not None and not d.reset)
                A.check(label + ': initialized', c.is_initialized())
                A.check(label + ': one image by default', d.reg.get(0) == 1, d.reg)
            elif op == 4:
                n = len(d.syncs)
                if not ready:
                    A.raises(label + ': refused', c.fire_software_trigger)
                    d.apply(label)
                    A.check(label + ': no trigger', len(d.syncs) == n)
                    continue
                run, reg = d.running, dict(d.reg)
                c.fire_software_trigger()
                d.apply(label)
                A.check(label + ': rise and fall', d.syncs[n:] == [1, 0], d.syncs[n:])
                A.check(label + ': nothing else', d.running == run and d.reg == reg)
            else:
                n = int(op)
                arrs, cells = images(A, 'i%d' % k, n)
                load = (lambda: c.load_single(arrs[0])) if n == 1 else (lambda: c.load_multiple(arrs))
                if not ready:
                    pos = len(stubs.LOG)
                    A.raises(label + ': refused', load)
                    A.check(label + ': no command', len(stubs.LOG) == pos, stubs.LOG[pos:])
                    continue
                load()
                d.loaded(label, cells)
                for a, x in zip(arrs, cells):
                    A.eq(label + ': image unchanged', a, x)
    return fn


def lists(n):
    def fn(A):
        c, d = controller(A)
        c.initialize()
        d.apply('init')
        arrs, cells = images(A, 'i', n)
        c.load_multiple(arrs)
        d.loaded('first', cells)
        c.load_single(arrs[-1])
        d.loaded('one', cells[-1:])
        c.load_multiple(list(reversed(arrs)))
        d.loaded('again', cells[::-1])
        A.check('width', c.Nx == stubs.WIDTH, c.Nx)
        A.check('height', c.Ny == stubs.HEIGHT, c.Ny)
    return fn


def repeated(order):
    """The same array several times in one list, and arrays with the same content."""
    def fn(A):
        c, d = controller(A)
        c.initialize()
        d.apply('init')
        arrs, cells = images(A, 'i', 2)
        arrs.append(A.np.array(arrs[0]))
        cells.append(cells[0])
        c.load_multiple([arrs[k] for k in order])
        d.loaded('list', [cells[k] for k in order])
        c.load_multiple(tuple(arrs[k] for k in order[::-1]))
        d.loaded('tuple', [cells[k] for k in order[::-1]])
        arrs[order[0]][0, 1] = A.bool('changed')
        c.load_single(arrs[order[0]])
        d.loaded('changed in place', [A.cells(arrs[order[0]])])
    return fn


def loaders(A, c, d):
    def one(label, x):
        c.load_single(x)
        d.loaded(label, [A.cells(x)])

    def many(label, xs):
        c.load_multiple(xs)
        d.loaded(label, [A.cells(x) for x in xs])
    return one, many


def reuse(steps):
    """The same array objects over and over, also with changed contents: every load shows what they hold now."""
    def fn(A):
        c, d = controller(A)
        c.initialize()
        d.apply('init')
        one, many = loaders(A, c, d)
        (a, b), _ = images(A, 'i', 2)
        lst = [a, b]
        many('first', lst)
        for k in range(steps):
            op = int(A.int('op%d' % k, 0, 5))
            label = 'step %d' % k
            if op == 0:
                one(label, a)
            elif op == 1:
                one(label, b)
            elif op == 2:
                lst.reverse()
                many(label, lst)
            elif op == 3:
                a[0, 1] = A.bool('a%d' % k)
                b[1] = A.bools('b%d' % k, (stubs.WIDTH,))
                one(label, b)
            elif op == 4:
                a[:] = A.bools('a%d' % k, (stubs.HEIGHT, stubs.WIDTH))
                many(label, lst)
            else:
                c.initialize()
                d.apply(label)
        many('list', lst)
        one('one', lst[0])
        lst[0][1, 0] = A.bool('last')
        one('one, changed', lst[0])
    return fn


def layouts(A):
    """The pixels count, not how the array is stored."""
    c, d = controller(A)
    c.initialize()
    d.apply('init')
    one, many = loaders(A, c, d)
    H, W = stubs.HEIGHT, stubs.WIDTH
    big = A.bools('big', (2 * H, 2 * W))
    col = A.bools('col', (W, H)).T
    for k, x in enumerate((big[:H, :W], big[::2, 1::2], big[H:, W:][::-1, ::-1], col)):
        one('single %d' % k, x)
        many('list %d' % k, [x, big[:H, W:]])
        many('list of one %d' % k, [x])
    many('transposed twice', [col, col])


def guards(A):
    from pySLM2.util.controller import LuxbeamController
    c, d = controller(A, timeout=A.real('timeout', pos=True))
    e = LuxbeamController('192.0.2.2')
    e.initialize()
    pos = len(stubs.LOG)
    arrs, cells = images(A, 'i', 2)
    A.raises('single', lambda: c.load_single(arrs[0]))
    A.raises('multiple', lambda: c.load_multiple(arrs))
    A.raises('sequence', lambda: c.load_sequence(arrs))
    A.raises('width', lambda: c.Nx)
    A.raises('height', lambda: c.Ny)
    A.raises('trigger', c.fire_software_trigger)
    A.raises('number image', lambda: c.number_image(1))
    A.check('no command', len(stubs.LOG) == pos, stubs.LOG[pos:])
    A.check('not initialized', not c.is_initialized() and e.is_initialized())


def program(A):
    """Images 0, 1, ... one per trigger, from the first again after the last."""
    c, d = controller(A)
    c.initialize()
    d.apply('init')
    m = d.m
    n = A.int('n', 1, 4)
    n = int(n)
    out, cond = stubs.interpret(d.program, {0: n}, 9)
    A.check('order', out == [k % n for k in range(9)], out)
    A.check('one image per trigger', [x[0] for x in cond] == list(range(1, 10)), cond)
    for k, (i, mode, source) in enumerate(cond):
        A.check('trigger %d' % k, mode == m.TRIG_MODE_POSITIVE_EDGE and source == m.TRIG_SOURCE_SOFTWARE + m.TRIG_SOURCE_ELECTRICAL + m.TRIG_SOURCE_OPTICAL, (mode, source))


def cases(tier):
    q = tier == 'quick'
    n = 3 if q else 4
    out = [dict(name='history', fn=history(n), bits=(64,), cost=3, max_paths=2 * 5 ** n + 10, budget=170 if q else 2000),
           dict(name='guards', fn=guards, bits=(64,), cost=0.5), dict(name='program', fn=program, bits=(64,), cost=0.5)]
    for k in (1, 2, 3) if q else (1, 2, 3, 4, 5):
        out.append(dict(name='list_%d' % k, fn=lists(k), bits=(64,), cost=1))
    for o in ((0, 1, 0), (1, 1), (0, 0, 0, 1), (0, 2)):
        out.append(dict(name='repeated_' + ''.join(map(str, o)), fn=repeated(o), bits=(64,), cost=0.6))
    out.append(dict(name='reuse', fn=reuse(2 if q else 3), bits=(64,), cost=3, max_paths=2 * 6 ** (2 if q else 3) + 10, budget=200 if q else 2000))
    out.append(dict(name='layouts', fn=layouts, bits=(64,), cost=1))
    return out
