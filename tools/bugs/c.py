BUGS = []


def bug(id, prop, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


S = 'pySLM2/slm.py'
L = 'pySLM2/_lib.py'
P = 'pySLM2/profile.py'
W = 'pySLM2/window.py'
M = 'pySLM2/simulation.py'
A = 'pySLM2/analysis.py'
B = 'pySLM2/_backend.py'
C = 'pySLM2/util/controller.py'

bug('c01-shape-cache', 'C01', [(S, '''    @lru_cache()
    def _fourier_plane_pixel_grid(self) -> Tuple[tf.Tensor, tf.Tensor]:
        pix_j = tf.range(self.Nx, dtype=BACKEND.dtype)
        pix_i = tf.range(self.Ny, dtype=BACKEND.dtype)
        return tf.meshgrid(pix_i, pix_j, indexing="ij")
''', '''    _pixel_grids = {}

    def _fourier_plane_pixel_grid(self) -> Tuple[tf.Tensor, tf.Tensor]:
        key = self.Nx * self.Ny, BACKEND.dtype
        if key not in self._pixel_grids:
            pix_j = tf.range(self.Nx, dtype=BACKEND.dtype)
            pix_i = tf.range(self.Ny, dtype=BACKEND.dtype)
            self._pixel_grids[key] = tf.meshgrid(pix_i, pix_j, indexing="ij")
        return self._pixel_grids[key]
''')], 'two devices with the same number of pixels but another shape in one process', 'the second device gets the grid of the first', '''
from pySLM2.slm import SLM
a, b = SLM(1e-6, .2, 6, 4, 1e-5), SLM(1e-6, .2, 4, 6, 1e-5)
assert a.fourier_plane_grid[0].shape == (4, 6)
assert b.fourier_plane_grid[0].shape == (6, 4), b.fourier_plane_grid[0].shape
''')

bug('c05-high-order', 'C05', [(P, 'for c in hermite(self._m).coef]', 'for c in hermite(self._m, monic=self._m > 4).coef]')],
    'an order of 5 or more in y', 'high orders in y are scaled wrongly', '''
from pySLM2.profile import HermiteGaussian
from scipy.special import eval_hermite
for n, m in ((0, 0), (4, 4), (1, 5), (6, 2), (2, 7)):
    z = HermiteGaussian(0., 0., 1., 2., n=n, m=m)(np.array([.4]), np.array([.7]))
    u, v = .2, .35
    e = eval_hermite(n, 2 ** .5 * u) * eval_hermite(m, 2 ** .5 * v) * np.exp(-(u * u + v * v))
    assert np.allclose(z, e, rtol=1e-3), (n, m, z, e)
''')

bug('c06-high-p', 'C06', [(P, 'for c in genlaguerre(self._p, abs(self._l)).coef', 'for c in genlaguerre(self._p, min(abs(self._l), 4)).coef')],
    'an azimuthal index of 5 or more together with p > 0', 'the radial polynomial belongs to another azimuthal index', '''
from pySLM2.profile import LaguerreGaussian
from scipy.special import eval_genlaguerre
for l, p in ((0, 0), (3, 2), (-4, 1), (5, 1), (-6, 2), (7, 0)):
    z = LaguerreGaussian(0., 0., 1., 1., l=l, p=p)(np.array([.8]), np.array([.6]))
    e = 2 ** (abs(l) / 2) * np.exp(-1) * eval_genlaguerre(p, abs(l), 2.) * np.exp(-1j * l * np.arctan2(.6, .8))
    assert np.allclose(z, e, rtol=1e-3, atol=1e-3), (l, p, z, e)
''')

bug('c12-falsy', 'C12', [(P, '''    @x0.setter
    def x0(self, value):
        self._x0.assign(value)
''', '''    @x0.setter
    def x0(self, value):
        self._x0.assign(value or self._x0)
''')], 'the centre is set back to exactly zero', 'the assignment is ignored', '''
from pySLM2.profile import HermiteGaussian, SuperGaussian
for p in (HermiteGaussian(1., 0., 1., 2.), SuperGaussian(1., 0., 1., 2., 1)):
    p.x0 = 2.
    assert float(p.x0) == 2
    p.x0 = 0.
    assert float(p.x0) == 0, p.x0
''', first=True)

bug('c13-order-cache', 'C13', [(S, '''        self.negative_order = negative_order

    def set_dmd_state_off''', '''        self.negative_order = negative_order
        self._grating_options = dict(negative_order=negative_order)

    def set_dmd_state_off'''), (S, '''                                                             method=method, negative_order=self.negative_order,
                                                             **kwargs))''', '''                                                             method=method, **self._grating_options,
                                                             **kwargs))''')],
    'the diffraction order is switched after the device was created', 'the hologram is still made for the order chosen at construction', '''
from pySLM2.slm import DMD
a, b = DMD(1e-6, .2, 3.7, .6, 6, 4, 1e-5), DMD(1e-6, .2, 3.7, .6, 6, 4, 1e-5, negative_order=True)
a.negative_order = True
for d in (a, b):
    d.set_dmd_grating_state(amp=1, phase_in=.3, phase_out=1., method="ideal")
assert np.allclose(a.dmd_state, b.dmd_state)
''')

bug('c14-zero-r', 'C14', [(L, 'r = kwargs.get("r", 10.0)', 'r = kwargs.get("r") or 10.0')], 'a steepness r of exactly zero', 'the default steepness is used instead', '''
from pySLM2.slm import DMD
d = DMD(1e-6, .2, 3.7, .6, 16, 16, 1e-5)
d.set_dmd_grating_state(amp=1, method="random", r=0.0)
assert not d.dmd_state.any()
d.set_dmd_grating_state(amp=1, method="random", r=5.0)
assert d.dmd_state.any()
''')

bug('c16-floor', 'C16', [(S, 'one_over_eta_fft = tf.math.reduce_max(amp_scaled)', 'one_over_eta_fft = tf.maximum(tf.math.reduce_max(amp_scaled), 1e-3)')],
    'a target that is weak compared with the input beam', 'the hologram amplitudes no longer reach one', '''
from pySLM2.slm import DMD
d = DMD(1e-6, .2, 3.7, .6, 6, 4, 1e-5)
t = np.random.default_rng(0).normal(size=(4, 6))
for k in (1., 1e-6):
    amp = d._calc_amp_phase(d.profile_to_tensor(1., complex=True), d.profile_to_tensor(k * t, complex=True))[0]
    assert abs(np.max(amp) - 1) < 1e-3, (k, np.max(amp))
''')

bug('c17-weak-light', 'C17', [(L, 'mask = input_profile == 0.0', 'mask = tf.abs(input_profile) < 1e-3 * tf.reduce_max(tf.abs(input_profile))')],
    'a pixel lit a thousand times less than the brightest one', 'weakly lit pixels are switched off by the IFTA method', '''
from pySLM2 import _lib
import tensorflow as tf
z = tf.zeros((1, 2))
for dim in (0.5, 5e-4):
    i = tf.constant([[1., dim]], dtype=tf.complex64)
    g = np.array(_lib.calculate_dmd_grating(tf.ones((1, 2)), z, z, z, z, 2., .5, method="ifta", input_profile=i,
                 signal_window=tf.ones((1, 2), dtype=tf.complex64), N=3))
    assert g.all(), (dim, g)
''')

bug('c18-clamp', 'C18', [(S, '''        pix_ii, pix_jj = self._fourier_plane_pixel_grid()
        mask = self._circular_mask(i, j, pix_ii, pix_jj, d)
''', '''        pix_ii, pix_jj = self._fourier_plane_pixel_grid()
        i, j = np.clip(i, 0, self.Ny - 1), np.clip(j, 0, self.Nx - 1)
        mask = self._circular_mask(i, j, pix_ii, pix_jj, d)
''')], 'a patch whose centre lies outside the panel', 'the patch is moved onto the panel', '''
from pySLM2.slm import DMD
d = DMD(1e-6, .2, 3.7, .6, 8, 8, 1e-5)
for i in (2., -3.):
    d.set_dmd_state_off()
    d.circular_patch(i, 3., 1., 0., 0., 7., method="ideal")
    ii, jj = np.mgrid[:8, :8]
    inside = (ii - i) ** 2 + (jj - 3.) ** 2 < 3.5 ** 2
    assert not np.any(d.dmd_state[~inside]), i
''')

bug('c18-whole-centre', 'C18', [(S, 'pix_rr_square = (pix_jj - j) ** 2 + (pix_ii - i) ** 2', 'pix_rr_square = (pix_jj - tf.floor(tf.cast(j, pix_jj.dtype))) ** 2 + (pix_ii - i) ** 2')],
    'a centre column that is not a whole number', 'the patch is centred on the next lower column', '''
from pySLM2.slm import DMD
d = DMD(1e-6, .2, 3.7, .6, 8, 8, 1e-5)
for j in (3., 3.5):
    d.set_dmd_state_off()
    d.circular_patch(4., j, 1., 0., 0., 3., method="ideal")
    ii, jj = np.mgrid[:8, :8]
    inside = (ii - 4.) ** 2 + (jj - j) ** 2 < 1.5 ** 2
    assert not np.any(d.dmd_state[~inside]), j
''')

bug('c19-spare', 'C19', [(S, 'packed_bits = np.packbits(self.dmd_state)', 'packed_bits = ~np.packbits(~self.dmd_state)')],
    'a panel whose number of pixels is not a multiple of 8', 'the spare bits of the last byte are ones', '''
from pySLM2.slm import DMD
for nx in (8, 5):
    d = DMD(1e-6, .2, 3.7, .6, nx, 3, 1e-5)
    d.set_dmd_state_off()
    assert not any(d.pack_dmd_state()), nx
''')

bug('c20-zero-mixing', 'C20', [(L, 'mixing_factor = kwargs.get("mixing_factor", 0.4)', 'mixing_factor = kwargs.get("mixing_factor") or 0.4')],
    'a mixing factor of exactly zero', 'the default mixing factor is used instead', '''
import pySLM2, tensorflow as tf
from pySLM2.slm import LCOS_SLM
rng = np.random.default_rng(0)
inp, tgt, w = rng.uniform(.5, 1, (4, 4)), rng.uniform(.1, 1, (4, 4)), np.zeros((4, 4))
w[1:3, 1:3] = 1
def run(t, m):
    tf.random.set_seed(3)
    d = LCOS_SLM(1e-6, .2, 4, 4, 1e-5)
    d.calculate_hologram(inp, t, method="mraf", N=1, signal_window=w, mixing_factor=m)
    return np.exp(1j * d.slm_state)
# with nothing of the target mixed in, the target does not matter
assert np.allclose(run(tgt, 0.0), run(2 * tgt[::-1], 0.0), atol=1e-3)
assert not np.allclose(run(tgt, 0.5), run(2 * tgt[::-1], 0.5), atol=1e-3)
''')

bug('c21-reset-alias', 'C21', [(S, '''    def reset_slm_state(self):
        self.slm_state = np.zeros(shape=(self.Ny, self.Nx), dtype=complex)
''', '''    def reset_slm_state(self):
        self.slm_state = np.zeros_like(self.slm_state) if self.slm_state.any() else self.slm_state
''')], 'a state that is zero but has not the shape of the panel, then a reset', 'the reset keeps the wrong array', '''
from pySLM2.slm import LCOS_SLM
d = LCOS_SLM(1e-6, .2, 4, 3, 1e-5)
d.slm_state = np.ones((3, 4))
d.reset_slm_state()
assert d.slm_state.shape == (3, 4) and not d.slm_state.any()
d.slm_state = np.ones((1, 1))
d.reset_slm_state()
assert d.slm_state.shape == (3, 4), d.slm_state.shape
''')

bug('c23-cached-power', 'C23', [(M, '''        return np.sum(self.image_plane_intensity) * self.image_plane_pixel_area
''', '''        if getattr(self, "_power_of", None) is not self._output_field:
            self._power_of = self._output_field
            self._power = np.sum(self.image_plane_intensity) * self.image_plane_pixel_area
        return self._power
''')], 'the image-plane power is read before and after the zeroth order is blocked', 'the power still contains the blocked light', '''
from pySLM2.slm import DMD
from pySLM2.simulation import DMDSimulation
d = DMD(1e-6, .2, 4, .6, 8, 8, 1e-5)
d.set_dmd_state_on()
s = DMDSimulation(d)
s.propagate_to_image(1.)
a = s.get_image_plane_power()
s.block_zeroth_order()
b = s.get_image_plane_power()
assert b < 1e-3 * a, (a, b)
''')

bug('c24-reblock', 'C24', [(M, '''        self._image_plane_field = tf.where(mask, tf.zeros_like(self._image_plane_field, dtype=BACKEND.dtype_complex),
                                           self._image_plane_field)''', '''        if getattr(self, "_blocked", None) is None or self._blocked[0] is not self._output_field:
            self._blocked = self._output_field, self._image_plane_field
        field = self._blocked[1]
        self._image_plane_field = tf.where(mask, tf.zeros_like(field, dtype=BACKEND.dtype_complex), field)''')],
    'a second blocking with a smaller radius', 'the light blocked first comes back', '''
from pySLM2.slm import DMD
from pySLM2.simulation import DMDSimulation
d = DMD(1e-6, .2, 4, .6, 8, 8, 1e-5)
d.dmd_state = np.random.default_rng(0).integers(0, 2, (8, 8)).astype(bool)
s = DMDSimulation(d)
s.propagate_to_image(1.)
s.block_zeroth_order(r=1.)
assert not s.image_plane_field.any()
s.block_zeroth_order(r=1e-9)
assert not s.image_plane_field.any()
''')

bug('c25-lazy-input', 'C25', [(M, '''        input_profile = self._slm.profile_to_tensor(input_profile, complex=True)

        self._input_field = tf.pad(''', '''        self._source = input_profile
        input_profile = self._slm.profile_to_tensor(input_profile, complex=True)

        self._input_field = tf.pad('''), (M, '''        return self._pack_tensor_to_array(self._input_field)
''', '''        if self._input_field is None:
            return None
        return np.pad(np.array(self._slm.profile_to_tensor(self._source, complex=True)),
                      [[self._padding_y, self._padding_y], [self._padding_x, self._padding_x]])
''')], 'the input array or profile is changed after the propagation', 'the reported input field follows the change', '''
from pySLM2.slm import DMD
from pySLM2.simulation import DMDSimulation
d = DMD(1e-6, .2, 4, .6, 4, 4, 1e-5)
s = DMDSimulation(d, 1, 2)
a = np.ones((4, 4))
s.propagate_to_image(a)
before = s.input_field
a *= 3
assert np.allclose(s.input_field, before)
''')

bug('c29-many-terms', 'C29', [(A, '''        z = Zernike(1, radius, n, m, extrapolate=extrapolate)(xx, yy)
        c = np.mean(profile[aperture] * z[aperture])
        if verbose:
            print("n = {0}, m = {1}, coefficient = {2}".format(n, m, c))
        coefficients.append(c)''', '''        z = Zernike(1, radius, min(n, 4 + n % 2), m, extrapolate=extrapolate)(xx, yy) if abs(m) < 3 else Zernike(1, radius, n, m, extrapolate=extrapolate)(xx, yy)
        c = np.mean(profile[aperture] * z[aperture])
        if verbose:
            print("n = {0}, m = {1}, coefficient = {2}".format(n, m, c))
        coefficients.append(c)''')], 'more than 15 terms', 'terms of order 5 and more are projected on a mode of lower order', '''
from pySLM2.analysis import zernike_decomposition, ansi_j_to_n_m
from pySLM2.profile import Zernike
rng = np.random.default_rng(0)
f = rng.normal(size=(12, 12))
c = zernike_decomposition(f, 5, 24)
x, y = np.meshgrid(np.arange(12) - 5.5, 5.5 - np.arange(12))
ins = x ** 2 + y ** 2 < 25
for j in range(24):
    n, m = ansi_j_to_n_m(j)
    e = np.mean((f * Zernike(1, 5, n, m)(x, y))[ins])
    assert abs(e - c[j]) < 1e-3, (j, e, c[j])
''')

bug('c30-simultaneous', 'C30', [(A, '''    aperture = xx ** 2 + yy ** 2 < radius ** 2

    for n, m in trivial_terms:
        z = Zernike(1, radius, n, m, extrapolate=False)(xx, yy)
        c = np.mean(profile[aperture] * z[aperture])''', '''    aperture = xx ** 2 + yy ** 2 < radius ** 2
    original = profile[aperture]

    for n, m in trivial_terms:
        z = Zernike(1, radius, n, m, extrapolate=False)(xx, yy)
        c = np.mean(original * z[aperture])''')], 'remove_defocus=True on a map with an offset', 'the defocus coefficient contains a part of the piston', '''
from pySLM2.analysis import remove_trivial_phase
x, y = np.meshgrid(np.arange(6) - 2.5, 2.5 - np.arange(6))
f = np.random.default_rng(0).normal(size=(6, 6))
for k in (False, True):
    a, b = remove_trivial_phase(f, 2.6, k), remove_trivial_phase(f + 10 * (x ** 2 + y ** 2 < 2.6 ** 2), 2.6, k)
    assert np.allclose(a, b, atol=1e-3), k
''')

bug('c31-memory-order', 'C31', [(C, 'self.alp.SeqPut(imgData=np.concatenate(dmd_states)*self.MAX_UINT8)', 'self.alp.SeqPut(imgData=np.concatenate([s.ravel("K") for s in dmd_states])*self.MAX_UINT8)')],
    'an image stored in column-major order', 'the image is uploaded column by column', '''
import types, sys
sent = []
class Dev:
    _lastDDRseq = None
    def __init__(self, **kw): pass
    def SeqPut(self, imgData, **kw): sent.append(np.array(imgData).reshape(-1))
    def __getattr__(self, n): return lambda *a, **k: 4
class Mod(types.ModuleType):
    ALP4 = Dev
    def __getattr__(self, n):
        if n.startswith("ALP_"): return n
        raise AttributeError(n)
sys.modules["ALP4"] = Mod("ALP4")
from pySLM2.util.controller import ALPController
c = ALPController()
c.initialize()
a = np.random.default_rng(0).integers(0, 2, (3, 4)).astype(bool)
for x in (a, np.asfortranarray(a)):
    c.load_multiple([x, a])
    assert (sent[-1] == np.concatenate([a, a]).reshape(-1) * 255).all()
''')

bug('c31-upload-cache', 'C31', [(C, '''        # Send the image sequence as a 1D list/array/numpy array
        self.alp.SeqPut(imgData=dmd_state * self.MAX_UINT8)
''', '''        # Send the image sequence as a 1D list/array/numpy array
        if getattr(self, "_image", (None,))[0] is not dmd_state:
            self._image = dmd_state, dmd_state * self.MAX_UINT8
        self.alp.SeqPut(imgData=self._image[1])
''')], 'the same array is changed in place and loaded again', 'the old image is uploaded', '''
import types, sys
sent = []
class Dev:
    _lastDDRseq = None
    def __init__(self, **kw): pass
    def SeqPut(self, imgData, **kw): sent.append(np.array(imgData).reshape(-1))
    def __getattr__(self, n): return lambda *a, **k: 4
class Mod(types.ModuleType):
    ALP4 = Dev
    def __getattr__(self, n):
        if n.startswith("ALP_"): return n
        raise AttributeError(n)
sys.modules["ALP4"] = Mod("ALP4")
from pySLM2.util.controller import ALPController
c = ALPController()
c.initialize()
a = np.zeros((3, 4), dtype=bool)
c.load_single(a)
assert not sent[-1].any()
a[:] = True
c.load_single(a)
assert sent[-1].all()
''')

bug('c32-slot-cache', 'C32', [(C, '''        for i, dmd_state in enumerate(dmd_states):
            self.luxbeam.load_image(i, dmd_state)
''', '''        loaded = self.__dict__.setdefault("_loaded", {})
        for i, dmd_state in enumerate(dmd_states):
            if loaded.get(i) is not dmd_state:
                self.luxbeam.load_image(i, dmd_state)
                loaded[i] = dmd_state
''')], 'a sequence is loaded again after a single image or a change in place', 'slots keep their previous content', '''
import types, sys
slots = {}
class Dev:
    cols, rows = 4, 3
    def __init__(self, *a, **kw): pass
    def load_image(self, i, img): slots[i] = np.array(img)
    def __getattr__(self, n): return lambda *a, **k: 0
class Seq:
    def assign_var_reg(self, regno): return regno
    def jump_loop_iter(self): yield 0
    def range_loop_iter(self, a, b): yield 0, 0
    def __getattr__(self, n): return lambda *a, **k: 0
class Mod(types.ModuleType):
    Luxbeam, LuxbeamSequencer = Dev, Seq
    def __getattr__(self, n):
        if n.isupper(): return 1
        raise AttributeError(n)
sys.modules["Luxbeam"] = Mod("Luxbeam")
from pySLM2.util.controller import LuxbeamController
c = LuxbeamController("1.2.3.4")
c.initialize()
a, b = np.zeros((3, 4), dtype=bool), np.ones((3, 4), dtype=bool)
c.load_multiple([a, b])
assert not slots[0].any() and slots[1].all()
c.load_single(b)
c.load_multiple([a, b])
assert not slots[0].any() and slots[1].all()
''')

bug('c22-single-wide', 'C22', [(M, '''        output_profile = input_profile * self._slm._state_tensor()
''', '''        output_profile = input_profile * tf.squeeze(self._slm._state_tensor())
''')], 'a panel with a single column (or row) of pixels', 'the state is spread over the wrong axis', '''
from pySLM2.slm import LCOS_SLM
from pySLM2.simulation import SLMSimulation
for nx, ny in ((3, 3), (3, 1), (1, 3)):
    d = LCOS_SLM(1e-6, .2, nx, ny, 1e-5)
    d.slm_state = np.arange(nx * ny).reshape(ny, nx) * .1
    s = SLMSimulation(d)
    s.propagate_to_image(1.)
    assert s.output_field.shape == (ny, nx) and np.allclose(s.output_field, np.exp(1j * d.slm_state), atol=1e-4), (nx, ny)
''')

bug('c10-shared-operand', 'C10', [(P, '''    def __mul__(self, other):
        if isinstance(other, int)''', '''    def __mul__(self, other):
        if other is self:
            return self ** 2
        if isinstance(other, int)'''), (P, '''    def as_complex_profile(self''', '''    def __imul__(self, other):
        self._func = (self * other)._func
        return self

    def as_complex_profile(self''')], 'the augmented assignment q = p; q *= 2', 'the original profile p is changed as well', '''
from pySLM2.profile import HermiteGaussian
p = HermiteGaussian(0., 0., 1., 2.)
a = p(np.array([.3]), np.array([.1]))
q = p
q *= 2
assert np.allclose(q(np.array([.3]), np.array([.1])), 2 * a)
assert np.allclose(p(np.array([.3]), np.array([.1])), a)
''')

bug('c15-late-order', 'C15', [(S, '''        origin_x = np.cos(self.theta) * self.scaling_factor / float(self._p.value())
        origin_y = np.sin(self.theta)''', '''        origin_x = abs(np.cos(self.theta)) * self.scaling_factor / float(self._p.value())
        origin_y = np.sin(self.theta)''')], 'a grating angle beyond 90 degrees', 'the reported first-order origin lies on the wrong side', '''
from pySLM2.slm import DMD
for th in (.6, 2.5):
    d = DMD(1e-6, .2, 4, th, 8, 8, 1e-5)
    assert np.allclose(d.first_order_origin, (np.cos(th) * 2e-7 / 4e-5, np.sin(th) * 2e-7 / 4e-5), rtol=1e-4)
''')

bug('c08-outside-neg', 'C08', [(P, 'Z = tf.where(rho > 1.0, tf.zeros_like(Z, dtype=BACKEND.dtype), Z)', 'Z = tf.where(tf.logical_or(rho > 1.0, tf.abs(x) > self._radius * 0.999), tf.zeros_like(Z, dtype=BACKEND.dtype), Z)')],
    'a point inside the aperture very close to its left or right end', 'the mode is cut off there', '''
from pySLM2.profile import Zernike
z = Zernike(1., 10., 1, 1)
assert abs(z(np.array([9.9]), np.array([0.]))[0]) > 1
assert abs(z(np.array([9.995]), np.array([0.]))[0]) > 1
''')

bug('c02-dtype-grid', 'C02', [(S, '''        x_atom = kx_atom * self.scaling_factor
        y_atom = ky_atom * self.scaling_factor
        return tf.meshgrid(x_atom, y_atom)''', '''        x_atom = kx_atom * self.scaling_factor
        y_atom = x_atom if self.Nx == self.Ny else ky_atom * self.scaling_factor
        return tf.meshgrid(x_atom, y_atom)''')], 'a square panel', 'the y axis of the image grid points downwards', '''
from pySLM2.slm import SLM
for nx, ny in ((6, 4), (4, 4)):
    y = SLM(1e-6, .2, nx, ny, 1e-5).image_plane_grid[1]
    assert (np.diff(y[:, 0]) < 0).all(), (nx, ny)
''')
