"""Stand-ins for the vendor libraries: they record what reaches the device.  No hardware, no network."""
import sys
import types

LOG = []


class Vendor(types.ModuleType):
    """Module whose constants of the vendor's naming scheme are distinct numbers."""
    prefix = ()
    table = {}

    def __getattr__(self, name):
        if name.startswith(self.prefix):
            if name not in self.table:
                self.table[name] = 2000 + 7 * len(self.table)
            return self.table[name]
        raise AttributeError(name)


class Recorder(object):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def call(*a, **k):
            LOG.append((name, a, k))
            return None
        return call


# ------------------------------------------------------------------------------------------------- ALP

class AlpModule(Vendor):
    prefix = ('ALP_',)
    table = {}


WIDTH, HEIGHT, MIN_TIME = 3, 2, 44


class ALP4(Recorder):
    """Arguments by name, as the vendor's binding declares them."""

    def __init__(self, version='4.3', libDir=None):
        LOG.append(('open', (version,), {}))
        self._lastDDRseq = None
        self.n = 0

    def Initialize(self, DeviceNum=None):
        LOG.append(('Initialize', (), {}))
        self.nSizeX, self.nSizeY = WIDTH, HEIGHT

    def SeqAlloc(self, nbImg=1, bitDepth=1):
        self.n += 1
        self._lastDDRseq = self.n
        LOG.append(('SeqAlloc', (nbImg, bitDepth), {}))
        return self.n

    def FreeSeq(self, SequenceId=None):
        LOG.append(('FreeSeq', (), {}))
        self._lastDDRseq = None

    def SeqPut(self, imgData, SequenceId=None, PicOffset=0, PicLoad=0, dataFormat='Python'):
        LOG.append(('SeqPut', (imgData, PicOffset, PicLoad, dataFormat), {}))

    def SeqControl(self, controlType, value, SequenceId=None):
        LOG.append(('SeqControl', (controlType, value), {}))

    def ProjControl(self, controlType, value):
        LOG.append(('ProjControl', (controlType, value), {}))

    def DevControl(self, controlType, value):
        LOG.append(('DevControl', (controlType, value), {}))

    def SetTiming(self, SequenceId=None, illuminationTime=None, pictureTime=None, synchDelay=None, synchPulseWidth=None, triggerInDelay=None):
        LOG.append(('SetTiming', (illuminationTime, pictureTime, synchDelay, synchPulseWidth, triggerInDelay), {}))

    def Run(self, SequenceId=None, loop=True):
        LOG.append(('Run', (loop,), {}))

    def Halt(self):
        LOG.append(('Halt', (), {}))

    def Free(self):
        LOG.append(('Free', (), {}))

    def Wait(self):
        LOG.append(('Wait', (), {}))

    def SeqInquire(self, inquireType, SequenceId=None):
        LOG.append(('SeqInquire', (inquireType,), {}))
        return MIN_TIME if inquireType == sys.modules['ALP4'].ALP_MIN_PICTURE_TIME else 100000 + inquireType

    def DevInquire(self, inquireType):
        LOG.append(('DevInquire', (inquireType,), {}))
        m = sys.modules['ALP4']
        return {m.ALP_DEV_DISPLAY_WIDTH: WIDTH, m.ALP_DEV_DISPLAY_HEIGHT: HEIGHT}.get(inquireType, -1)


# ---------------------------------------------------------------------------------------------- Luxbeam

class LuxModule(Vendor):
    prefix = ('SEQ_', 'TRIG_')
    table = dict(TRIG_SOURCE_SOFTWARE=1, TRIG_SOURCE_ELECTRICAL=2, TRIG_SOURCE_OPTICAL=4, TRIG_MODE_POSITIVE_EDGE=0, TRIG_MODE_NEGATIVE_EDGE=1,
                 TRIG_MODE_POSITIVE_LEVEL=2, TRIG_MODE_NEGATIVE_LEVEL=3)
    ENABLE, DISABLE = 1, 0


class Luxbeam(Recorder):
    cols, rows = WIDTH, HEIGHT

    def __init__(self, dmd_ip, inverse=False, timeout=None):
        LOG.append(('open', (dmd_ip, inverse, timeout), {}))

    def set_sequencer_state(self, seq_cmd, enable):
        LOG.append(('state', (seq_cmd, enable), {}))

    def set_sequencer_reg(self, reg_no, reg_val):
        LOG.append(('reg', (reg_no, reg_val), {}))

    def load_sequence(self, seq):
        LOG.append(('program', (seq,), {}))

    def load_image(self, inum, image):
        LOG.append(('image', (inum, image), {}))

    def set_software_sync(self, level):
        LOG.append(('sync', (level,), {}))


class Var(object):
    """A loop counter plus a number."""

    def __init__(self, key, off=0):
        self.key, self.off = key, off

    def __add__(self, k):
        return Var(self.key, self.off + int(k))
    __radd__ = __add__

    def __sub__(self, k):
        return Var(self.key, self.off - int(k))


class Reg(object):
    def __init__(self, no):
        self.no = no


class Sequencer(object):
    """Records the program as a tree: (op, arguments) or ('loop', kind, arguments, body)."""

    def __init__(self):
        self.root = []
        self.stack = [self.root]

    def emit(self, *x):
        self.stack[-1].append(x)

    def assign_var_reg(self, regno=None):
        return Reg(regno)

    def _loop(self, kind, args, value):
        body = []
        self.emit('loop', kind, args, body)
        self.stack.append(body)
        yield value
        self.stack.pop()

    def jump_loop_iter(self):
        return self._loop('forever', (), None)

    def range_loop_iter(self, start, stop):
        v = Var(object())
        return self._loop('range', (v.key, start, stop), (None, v))

    def load_global(self, inum, wait):
        self.emit('load', inum)

    def reset_global(self, wait):
        self.emit('show')

    def trig(self, mode, source, timeout):
        self.emit('wait', mode, source)

    def dumps(self):
        return self.root


def install(symbolic=False):
    a = AlpModule('ALP4')
    a.ALP4 = ALP4
    sys.modules['ALP4'] = a
    b = LuxModule('Luxbeam')
    b.Luxbeam, b.LuxbeamSequencer = Luxbeam, Sequencer
    sys.modules['Luxbeam'] = b


class Stuck(Exception):
    pass


def interpret(prog, regs, waits):
    """What the program shows up to a number of triggers: list of slots and of the trigger conditions."""
    out, cond = [], []
    mem = [None]
    steps = [0]

    class Done(Exception):
        pass

    def val(x, env):
        if isinstance(x, Var):
            return env[x.key] + x.off
        if isinstance(x, Reg):
            return regs[x.no]
        return x

    def run(body, env):
        for ins in body:
            steps[0] += 1
            if steps[0] > 2000:
                raise Stuck()
            if ins[0] == 'load':
                mem[0] = val(ins[1], env)
            elif ins[0] == 'show':
                out.append(mem[0])
            elif ins[0] == 'wait':
                cond.append((len(out), ins[1], ins[2]))
                if len(cond) >= waits:
                    raise Done()
            elif ins[1] == 'forever':
                while True:
                    steps[0] += 1
                    if steps[0] > 2000:
                        raise Stuck()
                    run(ins[3], env)
            else:
                key, a, b = ins[2]
                i, b = val(a, env), val(b, env)
                while i < b:
                    run(ins[3], {**env, key: i})
                    i += 1
    try:
        run(prog, {})
    except Done:
        pass
    return out, cond
