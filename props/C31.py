"""ALP controller against a recording stand-in of the vendor library."""
BOUNDS = ("every sequence of up to 3 (quick) / 4 (thorough) calls out of {initialize, load one image, load two, load three, load one again, close}, as symbolic "
          "integers the solver enumerates, symbolic pixels on 3x2 images, both inversion settings (symbolic); lists of 1 to 5 images")
FUNCTIONS = ["util.controller._check_initialization", "util.controller.DMDControllerBase.__init__", "util.controller.ALPController.initialize",
             "util.controller.ALPController.load_single", "util.controller.ALPController.load_multiple", "util.controller.ALPController.close",
             "util.controller.ALPController.Nx", "util.controller.ALPController.Ny"]
OUTSIDE = "the vendor library and the device (replaced by a recording stand-in that follows the binding's signatures)"
GRAIN = 0.4
from props import stubs

DISPLAY = ('SeqAlloc', 'SeqPut', 'SeqControl', 'SetTiming', 'Run', 'ProjControl', 'DevControl')


def pre_import(symbolic):
    stubs.install()


class Device(object):
    """The state the recorded commands leave the device in, and what each run shows."""

    def __init__(self, A, inv):
        self.A, self.inv = A, inv
        import ALP4
        self.m = ALP4
        self.pos = 0
        self.ready = self.freed = False
        self.running = False
        self.proj = {ALP4.ALP_PROJ_MODE: ALP4.ALP_MASTER}
        self.dev = {}
        self.seq = None

    def new(self):
        r = stubs.LOG[self.pos:]
        self.pos = len(stubs.LOG)
        return r

    def apply(self, label):
        """Feed the commands since the last time; list of what the runs show."""
        A, shown = self.A, []
        for name, a, k in self.new():
            if name in DISPLAY:
                A.check('%s: %s on an initialized device' % (label, name), self.ready and not self.freed)
            if name == 'Initialize':
                self.ready, self.freed = True, False
            elif name == 'Free':
                self.freed, self.ready = True, False
            elif name == 'Halt':
                self.running = False
            elif name == 'ProjControl':
                if a[0] == self.m.ALP_PROJ_MODE:
                    A.check('%s: mode set while halted' % label, not self.running)
                self.proj[a[0]] = a[1]
            elif name == 'DevControl':
                self.dev[a[0]] = a[1]
            elif name == 'SeqAlloc':
                A.check('%s: allocates while halted' % label, not self.running)
                self.seq = dict(n=a[0], bits=a[1], control={}, timing=None, inquired=False)
            elif name == 'SeqControl':
                if self.seq is None:
                    A.check('%s: sequence allocated before its settings' % label, False)
                else:
                    self.seq['control'][a[0]] = a[1]
            elif name == 'SetTiming':
                if self.seq is not None:
                    self.seq['timing'] = a
            elif name == 'SeqPut':
                A.check('%s: uploads while halted, after allocation' % label, not self.running and self.seq is not None)
                A.check('%s: whole upload' % label, a[1:] == (0, 0, 'Python'), a[1:])
                if self.seq is not None:
                    self.seq['data'] = A.cells(a[0]).reshape(-1)
            elif name == 'FreeSeq':
                self.seq = None
            elif name == 'Run':
                A.check('%s: runs from halt' % label, not self.running)
                shown.append(dict(self.seq or {}, mode=self.proj[self.m.ALP_PROJ_MODE], edge=self.dev.get(self.m.ALP_TRIGGER_EDGE), loop=a[0]))
                self.running = True
        return shown

    def inversion(self, label):
        on = self.proj.get(self.m.ALP_PROJ_INVERSION) == self.m.ALP_ENABLE
        self.A.check('%s: inversion as requested' % label, on == self.inv, on)

    def loaded(self, label, shown, images):
        A, m = self.A, self.m
        A.check('%s: one run' % label, len(shown) == 1, len(shown))
        if len(shown) != 1:
            return
        s = shown[0]
        A.check('%s: number of images' % label, s.get('n') == len(images), s.get('n'))
        A.check('%s: bit depth' % label, s.get('bits') == 1, s.get('bits'))
        A.check('%s: uploaded' % label, 'data' in s)
        if 'data' in s:
            A.eq('%s: pixels' % label, s['data'], A.seq([A.ite(c, A.num(255), A.num(0)) for im in images for c in im.reshape(-1)]))
        return s

    def single(self, label, shown, image):
        s = self.loaded(label, shown, [image])
        if s:
            self.A.check('%s: no trigger needed' % label, s['mode'] == self.m.ALP_MASTER, s['mode'])
            self.A.check('%s: stays on' % label, bool(s['loop']), s['loop'])
        self.inversion(label)

    def multiple(self, label, shown, images):
        s = self.loaded(label, shown, images)
        m = self.m
        if s:
            self.A.check('%s: waits for the trigger' % label, s['mode'] == m.ALP_SLAVE, s['mode'])
            self.A.check('%s: rising edge' % label, s['edge'] == m.ALP_EDGE_RISING, s['edge'])
            self.A.check('%s: minimum picture time' % label, s['timing'] is not None and s['timing'][1] == stubs.MIN_TIME, s['timing'])
            self.A.check('%s: no dark time' % label, s['control'].get(m.ALP_BIN_MODE) == m.ALP_BIN_UNINTERRUPTED, s['control'])
        self.inversion(label)


def controller(A):
    from pySLM2.util.controller import ALPController
    del stubs.LOG[:]
    inv = A.bool('invert')
    inv = True if inv else False
    c = ALPController(invert=inv)
    return c, Device(A, inv)


def images(A, tag, n):
    a = [A.bools('%s%d' % (tag, k), (stubs.HEIGHT, stubs.WIDTH)) for k in range(n)]
    return a, [A.cells(x) for x in a]


def history(steps):
    def fn(A):
        c, d = controller(A)
        ready = False
        for k in range(steps):
            op = A.int('op%d' % k, 0, 4)
            label = 'step %d' % k
            if op == 0:
                c.initialize()
                d.apply(label)
                ready = True
                d.inversion(label)
                A.check(label + ': initialized', d.ready and c.is_initialized())
            elif op == 4:
                if ready:
                    c.close()
                    d.apply(label)
                    A.check(label + ': stopped', not d.running)
                    A.check(label + ': released', d.freed and d.seq is None)
                    break
            else:
                n = 1 if op == 1 else int(op)
                arrs, cells = images(A, 'i%d' % k, n)
                load = (lambda: c.load_single(arrs[0])) if n == 1 else (lambda: c.load_multiple(arrs))
                if not ready:
                    A.raises(label + ': refused', load)
                    A.check(label + ': nothing shown', d.apply(label) == [])
                    A.check(label + ': not running', not d.running)
                    continue
                load()
                shown = d.apply(label)
                if n == 1:
                    d.single(label, shown, cells[0])
                else:
                    d.multiple(label, shown, cells)
                for a, x in zip(arrs, cells):
                    A.eq(label + ': image unchanged', a, x)
    return fn


def lists(n):
    """A list of n images, then one image, then the list again."""
    def fn(A):
        c, d = controller(A)
        c.initialize()
        d.apply('init')
        arrs, cells = images(A, 'i', n)
        c.load_multiple(arrs)
        d.multiple('first', d.apply('first'), cells)
        c.load_single(arrs[-1])
        d.single('one', d.apply('one'), cells[-1])
        c.load_multiple(list(reversed(arrs)))
        d.multiple('again', d.apply('again'), cells[::-1])
        A.check('width', c.Nx == stubs.WIDTH, c.Nx)
        A.check('height', c.Ny == stubs.HEIGHT, c.Ny)
        c.close()
        d.apply('close')
        A.check('stopped and released', not d.running and d.freed and d.seq is None)
    return fn


def repeated(order):
    """The same array several times in one list, and arrays with the same content."""
    def fn(A):
        c, d = controller(A)
        c.initialize()
        d.apply('init')
        arrs, cells = images(A, 'i', 2)
        arrs.append(A.np.array(arrs[0]))
        cells.append(cells[0])
        c.load_multiple([arrs[k] for k in order])
        d.multiple('list', d.apply('list'), [cells[k] for k in order])
        c.load_multiple(tuple(arrs[k] for k in order))
        d.multiple('tuple', d.apply('tuple'), [cells[k] for k in order])
    return fn


def loaders(A, c, d):
    def one(label, x):
        c.load_single(x)
        d.single(label, d.apply(label), A.cells(x))

    def many(label, xs):
        c.load_multiple(xs)
        d.multiple(label, d.apply(label), [A.cells(x) for x in xs])
    return one, many


def reuse(steps):
    """The same array objects over and over, also with changed contents: every load shows what they hold now."""
    def fn(A):
        c, d = controller(A)
        c.initialize()
        d.apply('init')
        one, many = loaders(A, c, d)
        (a, b), _ = images(A, 'i', 2)
        lst = [a, b]
        many('first', lst)
        for k in range(steps):
            op = int(A.int('op%d' % k, 0, 5))
            label = 'step %d' % k
            if op == 0:
                one(label, a)
            elif op == 1:
                one(label, b)
            elif op == 2:
                lst.reverse()
                many(label, lst)
            elif op == 3:
                a[0, 1] = A.bool('a%d' % k)
                b[1] = A.bools('b%d' % k, (stubs.WIDTH,))
                one(label, b)
            elif op == 4:
                a[:] = A.bools('a%d' % k, (stubs.HEIGHT, stubs.WIDTH))
                many(label, lst)
            else:
                c.initialize()
                d.apply(label)
        many('list', lst)
        one('one', lst[0])
        lst[0][1, 0] = A.bool('last')
        one('one, changed', lst[0])
    return fn


def layouts(A):
    """The pixels count, not how the array is stored."""
    c, d = controller(A)
    c.initialize()
    d.apply('init')
    one, many = loaders(A, c, d)
    H, W = stubs.HEIGHT, stubs.WIDTH
    big = A.bools('big', (2 * H, 2 * W))
    col = A.bools('col', (W, H)).T
    for k, x in enumerate((big[:H, :W], big[::2, 1::2], big[H:, W:][::-1, ::-1], col)):
        one('single %d' % k, x)
        many('list %d' % k, [x, big[:H, W:]])
        many('list of one %d' % k, [x])
    many('transposed twice', [col, col])


def guards(A):
    """Nothing but closing is possible before initialization; two controllers are independent."""
    from pySLM2.util.controller import ALPController
    c, d = controller(A)
    e = ALPController(invert=False)
    e.initialize()
    pos = len(stubs.LOG)
    arrs, cells = images(A, 'i', 2)
    A.raises('single', lambda: c.load_single(arrs[0]))
    A.raises('multiple', lambda: c.load_multiple(arrs))
    A.raises('sequence', lambda: c.load_sequence(arrs))
    A.raises('width', lambda: c.Nx)
    A.raises('height', lambda: c.Ny)
    A.raises('number image', lambda: c.number_image(1))
    A.check('no command', len(stubs.LOG) == pos, stubs.LOG[pos:])
    A.check('not initialized', not c.is_initialized() and e.is_initialized())


def cases(tier):
    q = tier == 'quick'
    n = 3 if q else 4
    out = [dict(name='history', fn=history(n), bits=(64,), cost=3, max_paths=2 * 5 ** n + 10, budget=170 if q else 2000),
           dict(name='guards', fn=guards, bits=(64,), cost=0.5)]
    for k in (1, 2, 3) if q else (1, 2, 3, 4, 5):
        out.append(dict(name='list_%d' % k, fn=lists(k), bits=(64,), cost=1))
    for o in ((0, 1, 0), (1, 1), (0, 0, 0, 1), (0, 2)):
        out.append(dict(name='repeated_' + ''.join(map(str, o)), fn=repeated(o), bits=(64,), cost=0.6))
    out.append(dict(name='reuse', fn=reuse(2 if q else 3), bits=(64,), cost=3, max_paths=2 * 6 ** (2 if q else 3) + 10, budget=200 if q else 2000))
    out.append(dict(name='layouts', fn=layouts, bits=(64,), cost=1))
    return out
