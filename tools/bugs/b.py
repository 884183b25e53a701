BUGS = []


def bug(id, prop, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


S = 'pySLM2/slm.py'
L = 'pySLM2/_lib.py'
P = 'pySLM2/profile.py'
W = 'pySLM2/window.py'
M = 'pySLM2/simulation.py'
A = 'pySLM2/analysis.py'
B = 'pySLM2/_backend.py'
C = 'pySLM2/util/controller.py'

bug('c13-phase-in', 'C13', [(L, '''    if negative_order:
        phase_in = -phase_in
        phase_out = -phase_out

    grating = amp''', '''    if negative_order:
        phase_out = -phase_out

    grating = amp''')], 'the negative diffraction order with a non-zero input phase', 'the phase of the input profile is compensated with the wrong sign',
    '''
from pySLM2 import _lib
import tensorflow as tf
x = tf.constant([[0.1, 0.4]]); y = tf.constant([[0.3, -0.2]])
amp = tf.constant([[0.5, 1.0]]); pi = tf.constant([[0.3, 1.1]]); po = tf.constant([[0.8, -0.4]])
for neg in (False, True):
    g = _lib.calculate_dmd_grating(amp, pi, po, x, y, 2.0, 0.5, method="ideal", negative_order=neg)
    s = -1 if neg else 1
    e = amp.numpy() * (np.cos(np.pi * (np.cos(.5) * x.numpy() + np.sin(.5) * y.numpy()) - s * (po.numpy() - pi.numpy())) / 2 + .5)
    assert np.allclose(g, e, atol=1e-4), (neg, g, e)
''')

bug('c13-circ-offset', 'C13', [(L, 'return (2 * math.pi / p) * (tf.cos(theta) * x + tf.sin(theta) * y)', 'return (2 * math.pi / p) * (tf.cos(theta) * (x - x[0, 0]) + tf.sin(theta) * (y - y[0, 0]))')],
    'a panel whose corner is not a whole number of grating periods from the centre', 'the grating phase is counted from the corner instead of the centre of the panel, so the first order carries a constant phase',
    '''
from pySLM2.slm import DMD
d = DMD(1e-6, 0.2, 3.7, 0.6, 6, 4, 1e-5)
d.set_dmd_grating_state(amp=1, phase_in=0, phase_out=0, method="ideal")
x, y = d.fourier_plane_grid
e = np.cos(2 * np.pi / 3.7e-5 * (np.cos(.6) * x + np.sin(.6) * y)) / 2 + .5
assert np.allclose(d.dmd_state, e, atol=1e-3), (d.dmd_state, e)
''')

bug('c14-simple-ge', 'C14', [(L, 'return grating_ideal > 0.5', 'return tf.cast(tf.round(grating_ideal - 1e-3), tf.bool)')],
    'a pixel whose ideal grating value is just above one half', 'pixels between 0.5 and 0.501 are switched off', '''
from pySLM2 import _lib
import tensorflow as tf
z = tf.constant([[0.0, 0.0, 0.0]])
amp = tf.constant([[0.5, 0.5005, 0.6]])
g = np.array(_lib.calculate_dmd_grating(amp, z, z, z, z, 2.0, 0.5, method="simple"))
assert g.dtype == bool and g.tolist() == [[False, True, True]], g
''')

bug('c14-random-neg', 'C14', [(L, '''    p = tf.acos(tf.cos(grating_phase - (phase_out - phase_in)))
''', '''    p = tf.math.floormod(grating_phase - (phase_out - phase_in), 2 * math.pi)
    p = tf.where(p < math.pi, p, p - 2 * math.pi)
''')], 'a pixel whose grating phase is in the second half of the period', 'the distance to the line centre becomes negative; the switching probability there is no longer the documented one', '''
from pySLM2 import _lib
import tensorflow as tf
n = 200
for ph in (0.3, -0.3, 2.0, -2.0, 4.5):
    x = tf.fill((n, n), tf.constant(ph, tf.float32)); z = tf.zeros((n, n))
    p = np.arccos(np.cos(ph)); w = np.arcsin(0.6)
    for a in (0.6,):
        g = np.array(_lib.calculate_dmd_grating(tf.fill((n, n), 0.6), z, z, x, z, 2 * np.pi, 0.0, method="random", r=1.0))
        e = .5 * (np.tanh(p + w) - np.tanh(p - w))
        assert abs(g.mean() - e) < 0.02, (ph, g.mean(), e)
''')

bug('c14-asin-clip', 'C14', [(L, 'w = tf.math.asin(amp)  # + pi / 2', 'w = amp * (math.pi / 2)')], 'an amplitude strictly between 0 and 1', 'the width of the lines is linear in the amplitude instead of asin(amp)', '''
from pySLM2 import _lib
import tensorflow as tf
n = 300
x = tf.fill((n, n), 0.4); z = tf.zeros((n, n))
for a in (0.0, 1.0, 0.7):
    g = np.array(_lib.calculate_dmd_grating(tf.fill((n, n), a), z, z, x, z, 2 * np.pi, 0.0, method="random", r=3.0))
    w = np.arcsin(a)
    e = .5 * (np.tanh(3 * (.4 + w)) - np.tanh(3 * (.4 - w)))
    assert abs(g.mean() - e) < 0.02, (a, g.mean(), e)
''')

bug('c15-conj-window', 'C15', [(S, 'target_profile_fp = target_profile_fp * window', 'target_profile_fp = target_profile_fp * tf.math.conj(window)')], 'a complex window', 'the phase of the window enters with the wrong sign', '''
import tensorflow as tf
from pySLM2.slm import DMD
rng = np.random.default_rng(1)
c = lambda: tf.constant(rng.normal(size=(4, 6)) + 1j * rng.normal(size=(4, 6)), tf.complex64)
i, t, w = c(), c(), c()
a, pi, po, eta = DMD._calc_amp_phase(i, t, window=w)
f = np.fft.fftshift(np.fft.fft2(np.fft.ifftshift(t.numpy()))) * w.numpy()
assert np.allclose(np.exp(1j * np.array(po)), f / abs(f), atol=1e-3)
''')

bug('c15-eta-swap', 'C15', [(S, 'eta = self.pixel_size ** 2 / self.scaling_factor * self.Nx * self.Ny / float(one_over_eta_fft)', 'eta = self.pixel_size ** 2 / self.scaling_factor * self.Nx ** 2 / float(one_over_eta_fft)')],
    'a panel that is not square', 'the reported efficiency is off by Nx / Ny', '''
from pySLM2.slm import DMD
from pySLM2.profile import ConstantProfile
def run(Nx, Ny):
    d = DMD(1e-6, 0.2, 3.7, 0.6, Nx, Ny, 1e-5)
    t = np.zeros((Ny, Nx)); t[Ny // 2, Nx // 2] = 1.0
    return d.calculate_dmd_state(1.0, t, method="ideal")
for n in ((4, 4), (6, 4), (4, 8)):
    e = 1e-10 / 0.2e-6 * n[0] * n[1]
    assert np.isclose(run(*n), e, rtol=1e-3), (n, run(*n), e)
''')

bug('c15-odd-shift', 'C15', [(S, 'target_profile_fp = tf.signal.fftshift(target_profile_fp)', 'target_profile_fp = tf.signal.ifftshift(target_profile_fp)')], 'a panel with an odd number of pixels', 'the Fourier transform of the target is displaced by one pixel', '''
import tensorflow as tf
from pySLM2.slm import DMD
rng = np.random.default_rng(1)
for Ny, Nx in ((4, 6), (5, 7)):
    t = rng.normal(size=(Ny, Nx)) + 1j * rng.normal(size=(Ny, Nx))
    a, pi, po, eta = DMD._calc_amp_phase(tf.ones((Ny, Nx), tf.complex64), tf.constant(t, tf.complex64))
    f = np.fft.fftshift(np.fft.fft2(np.fft.ifftshift(t)))
    assert np.allclose(np.array(a), abs(f) / abs(f).max(), atol=1e-3), (Ny, Nx)
''')

bug('c16-dim-pixels', 'C16', [(S, 'one_over_eta_fft = tf.math.reduce_max(amp_scaled)', 'one_over_eta_fft = tf.math.reduce_max(tf.where(amp_in > 0.01 * tf.math.reduce_max(amp_in), amp_scaled, tf.zeros_like(amp_scaled)))')],
    'an input beam that is dimmer than 1 % of its maximum somewhere on the panel', 'amplitudes above one', '''
import tensorflow as tf
from pySLM2.slm import DMD
from pySLM2.profile import HermiteGaussian
for w in (1e-4, 1.2e-5):
    d = DMD(1e-6, 0.2, 3.7, 0.6, 6, 4, 1e-5)
    i = d.profile_to_tensor(HermiteGaussian(0, 0, 1, w), complex=True)
    t = np.zeros((4, 6)); t[2, 3] = 1.0
    a, _, _, s = DMD._calc_amp_phase(i, tf.constant(t, tf.complex64))
    assert np.max(np.array(a)) <= 1.0 + 1e-4, (w, np.max(np.array(a)))
''')

bug('c17-window-shift', 'C17', [(L, '''    signal_window = tf.signal.ifftshift(signal_window)
    step =''', '''    signal_window = tf.signal.fftshift(signal_window)
    step =''')], 'a panel with an odd number of pixels and a signal window that is not centred', 'the signal window is displaced by a pixel', '''
import tensorflow as tf
from pySLM2 import _lib
rng = np.random.default_rng(2)
def ref(amp, x, y, p, th, inp, win, N):
    g0 = amp * (np.cos(2 * np.pi / p * (np.cos(th) * x + np.sin(th) * y)) / 2 + .5)
    g = g0.copy(); ideal = np.fft.ifft2(inp * g0); w = np.fft.ifftshift(win)
    for k in range(N):
        t = (k + 1) * .5 / N
        b = np.where(g > 1 - t, 1.0, g); b = np.where(g < t, 0.0, b)
        f = np.fft.ifft2(inp * b)
        f = (ideal - f) * w + f
        g = np.real(np.fft.fft2(f) / inp)
    return g
for Ny, Nx in ((4, 6), (5, 7)):
    x, y = np.meshgrid(np.arange(Nx) - Nx / 2, Ny / 2 - np.arange(Ny))
    amp = rng.uniform(.2, 1, (Ny, Nx)); inp = rng.uniform(.5, 1, (Ny, Nx)) + 0j
    win = np.zeros((Ny, Nx)); win[0:2, 0:3] = 1
    e = ref(amp, x, y, 3.3, .4, inp, win, 3)
    f = lambda a: tf.constant(a, tf.float32)
    c = lambda a: tf.constant(a, tf.complex64)
    z = tf.zeros((Ny, Nx))
    g = np.array(_lib.calculate_dmd_grating(f(amp), z, z, f(x), f(y), 3.3, .4, method="ifta", input_profile=c(inp), signal_window=c(win), N=3))
    ok = (g == (e > .5)) | (abs(e - .5) < 1e-3)
    assert ok.all(), (Ny, Nx)
''')

bug('c17-last-step', 'C17', [(L, 'step = 0.5 / tf.cast(N, dtype=BACKEND.dtype)', 'step = 0.5 / tf.cast(tf.maximum(N, 2), dtype=BACKEND.dtype)')], 'a single iteration (N = 1)', 'the threshold of the only iteration is 0.25 instead of 0.5', '''
import tensorflow as tf
from pySLM2 import _lib
rng = np.random.default_rng(2)
def ref(g0, inp, win, N):
    g = g0.copy(); ideal = np.fft.ifft2(inp * g0); w = np.fft.ifftshift(win)
    for k in range(N):
        t = (k + 1) * .5 / N
        b = np.where(g > 1 - t, 1.0, g); b = np.where(g < t, 0.0, b)
        f = np.fft.ifft2(inp * b)
        f = (ideal - f) * w + f
        g = np.real(np.fft.fft2(f) / inp)
    return g
Ny, Nx = 4, 6
x, y = np.meshgrid(np.arange(Nx) - Nx / 2, Ny / 2 - np.arange(Ny))
f = lambda a: tf.constant(a, tf.float32)
c = lambda a: tf.constant(a, tf.complex64)
z = tf.zeros((Ny, Nx))
for trial in range(20):
    amp = rng.uniform(.2, 1, (Ny, Nx)); inp = rng.uniform(.5, 1, (Ny, Nx)) + 0j
    win = rng.integers(0, 2, (Ny, Nx)) * 1.0
    for N in (1, 2, 4):
        e = ref(amp * (np.cos(2 * np.pi / 3.3 * (np.cos(.4) * x + np.sin(.4) * y)) / 2 + .5), inp, win, N)
        g = np.array(_lib.calculate_dmd_grating(f(amp), z, z, f(x), f(y), 3.3, .4, method="ifta", input_profile=c(inp), signal_window=c(win), N=N))
        ok = (g == (e > .5)) | (abs(e - .5) < 1e-3)
        assert ok.all(), N
''')

bug('c18-radius-int', 'C18', [(S, 'mask = pix_rr_square < (d / 2) ** 2', 'mask = pix_rr_square < (d // 2) ** 2')], 'an odd or fractional diameter', 'the patch is too small', '''
import tensorflow as tf
from pySLM2.slm import DMD
for d in (4, 4.0, 5, 5.5):
    m = DMD(1e-6, 0.2, 3.7, 0.6, 9, 8, 1e-5)
    m.circular_patch(3, 4, 1.0, 0.0, 0.0, d, method="ideal")
    x, y = m.fourier_plane_grid
    g = np.cos(2 * np.pi / 3.7e-5 * (np.cos(.6) * x + np.sin(.6) * y)) / 2 + .5
    jj, ii = np.meshgrid(np.arange(9), np.arange(8))
    e = np.where((ii - 3) ** 2 + (jj - 4) ** 2 < (d / 2) ** 2, g, 0)
    assert np.allclose(m.dmd_state, e, atol=1e-3), d
''')

bug('c18-erase', 'C18', [(S, 'self.dmd_state = np.where(mask, dmd_state, self.dmd_state)', 'self.dmd_state = np.where(mask, dmd_state, self.dmd_state * (dmd_state.dtype == self.dmd_state.dtype))')],
    'two patches made with different methods (grayscale over a binary one)', 'the pixels outside the second patch are cleared', '''
from pySLM2.slm import DMD
m = DMD(1e-6, 0.2, 3.7, 0.6, 9, 8, 1e-5)
m.circular_patch(3, 4, 1.0, 0.0, 0.0, 4, method="simple")
a = m.dmd_state.copy()
m.circular_patch(6, 7, 1.0, 0.0, 0.0, 2, method="ideal")
jj, ii = np.meshgrid(np.arange(9), np.arange(8))
out = (ii - 6) ** 2 + (jj - 7) ** 2 >= 1
assert np.array_equal(m.dmd_state[out] > .5, a[out])
assert a.any()
''')

bug('c19-rowwise', 'C19', [(S, 'packed_bits = np.packbits(self.dmd_state)', 'packed_bits = np.packbits(self.dmd_state, axis=-1)')], 'a panel whose width is not a multiple of 8', 'every row is padded to whole bytes', '''
from pySLM2.slm import DMD
rng = np.random.default_rng(0)
for Nx, Ny in ((8, 4), (12, 4), (5, 3)):
    m = DMD(1e-6, 0.2, 3.7, 0.6, Nx, Ny, 1e-5)
    m.dmd_state = rng.integers(0, 2, (Ny, Nx)).astype(bool)
    assert m.pack_dmd_state() == np.packbits(m.dmd_state.ravel()).tobytes(), (Nx, Ny)
''')

bug('c19-order', 'C19', [(S, 'packed_bits = np.packbits(self.dmd_state)', 'packed_bits = np.packbits(self.dmd_state.ravel(order="K"))')], 'a state array that is not C-contiguous (a transposed or Fortran ordered array)', 'the pixels are packed in memory order instead of row by row', '''
from pySLM2.slm import DMD
rng = np.random.default_rng(0)
m = DMD(1e-6, 0.2, 3.7, 0.6, 8, 4, 1e-5)
b = rng.integers(0, 2, (4, 8)).astype(bool)
for s in (b, np.asfortranarray(b), np.ascontiguousarray(b.T).T, b[::-1]):
    m.dmd_state = s
    assert m.pack_dmd_state() == np.packbits(np.ascontiguousarray(s).ravel()).tobytes()
''')

bug('c20-shift-target', 'C20', [(L, '''    target_amp_profile = tf.signal.ifftshift(target_amp_profile)
    target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)

    for _ in tf.range(N):''', '''    target_amp_profile = tf.signal.fftshift(target_amp_profile)
    target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)

    for _ in tf.range(N):''')], 'a panel with an odd number of pixels', 'the target of the Gerchberg-Saxton iteration is displaced by a pixel', '''
import tensorflow as tf
from pySLM2 import _lib
rng = np.random.default_rng(3)
for Ny, Nx in ((4, 6), (5, 7)):
    inp = rng.uniform(.5, 1, (Ny, Nx)); t = rng.uniform(0, 1, (Ny, Nx))
    r = rng.uniform(0, 1, (Ny, Nx)).astype(np.float32)
    old = tf.random.uniform
    tf.random.uniform = lambda shape, dtype=tf.float32, **k: tf.constant(r, dtype)
    try:
        ph = np.array(_lib.calculate_lcos_slm_hologram(tf.constant(inp, tf.complex64), tf.constant(t, tf.float32), method="gs", N=2))
    finally:
        tf.random.uniform = old
    p = 2 * np.pi * r
    for _ in range(2):
        a = np.angle(np.fft.ifft2(inp * np.exp(1j * p)))
        p = np.angle(np.fft.fft2(np.fft.ifftshift(t) * np.exp(1j * a)))
    assert np.allclose(np.exp(1j * ph), np.exp(1j * p), atol=2e-2), (Ny, Nx)
''')

bug('c20-one-less', 'C20', [(L, '''    signal_window = tf.signal.ifftshift(signal_window)
    inverse_signal_window = 1 - signal_window

    for _ in tf.range(N):''', '''    signal_window = tf.signal.ifftshift(signal_window)
    inverse_signal_window = 1 - tf.cast(tf.abs(signal_window) > 0, BACKEND.dtype_complex)

    for _ in tf.range(N):''')], 'a signal window with values strictly between 0 and 1', 'the part of the field outside of a soft window edge is dropped', '''
import tensorflow as tf
from pySLM2 import _lib
rng = np.random.default_rng(3)
Ny, Nx = 4, 6
inp = rng.uniform(.5, 1, (Ny, Nx)); t = rng.uniform(0, 1, (Ny, Nx))
r = rng.uniform(0, 1, (Ny, Nx)).astype(np.float32)
for win in (rng.integers(0, 2, (Ny, Nx)) * 1.0, rng.uniform(0, 1, (Ny, Nx))):
    old = tf.random.uniform
    tf.random.uniform = lambda shape, dtype=tf.float32, **k: tf.constant(r, dtype)
    try:
        ph = np.array(_lib._calculate_lcos_slm_hologram_mraf.python_function(tf.constant(inp, tf.complex64), tf.constant(t, tf.float32), tf.constant(1), tf.constant(win, tf.complex64), tf.constant(0.4)))
    finally:
        tf.random.uniform = old
    p = 2 * np.pi * r; w = np.fft.ifftshift(win)
    for _ in range(1):
        f = np.fft.ifft2(inp * np.exp(1j * p))
        p = np.angle(np.fft.fft2(.4 * np.fft.ifftshift(t) * np.exp(1j * np.angle(f)) * w + .6 * f * (1 - w)))
    assert np.allclose(np.exp(1j * ph), np.exp(1j * p), atol=2e-2)
''')

bug('c21-reset-shape', 'C21', [(S, 'self.slm_state = np.zeros(shape=(self.Ny, self.Nx), dtype=complex)', 'self.slm_state = np.zeros(shape=(self.Nx, self.Ny), dtype=complex)')], 'resetting a panel that is not square', 'the state after the reset is transposed', '''
from pySLM2.slm import LCOS_SLM
for n in ((4, 4), (6, 4)):
    s = LCOS_SLM(1e-6, 0.2, n[0], n[1], 1e-5)
    s.slm_state = np.ones((n[1], n[0]))
    s.reset_slm_state()
    assert s.slm_state.shape == (n[1], n[0]) and not s.slm_state.any()
''')

bug('c22-odd', 'C22', [(M, '_lib._inverse_fourier_transform(tf.signal.ifftshift(self._output_field)))', '_lib._inverse_fourier_transform(tf.signal.fftshift(self._output_field)))')], 'a panel with an odd number of pixels', 'a phase ramp over the image plane field', '''
from pySLM2.slm import LCOS_SLM
from pySLM2.simulation import SLMSimulation
rng = np.random.default_rng(3)
for Nx, Ny in ((6, 4), (7, 5)):
    s = LCOS_SLM(1e-6, 0.2, Nx, Ny, 1e-5)
    sim = SLMSimulation(s)
    inp = rng.uniform(.5, 1, (Ny, Nx)) + 1j * rng.uniform(.5, 1, (Ny, Nx))
    sim.propagate_to_image(inp)
    e = np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(inp))) * Nx * Ny * 1e-10 / .2e-6
    assert np.allclose(sim.image_plane_field, e, rtol=1e-3, atol=1e-7), (Nx, Ny)
''')

bug('c22-pad-order', 'C22', [(M, '''        self._output_field = tf.pad(output_profile,
                                   [[self._padding_y, self._padding_y], [self._padding_x, self._padding_x]])
''', '''        self._output_field = tf.image.pad_to_bounding_box(output_profile[..., None], self._padding_x, self._padding_y,
                                                          self.Ny, self.Nx)[..., 0] if self._padding_x <= 2 * self._padding_y and self._padding_y <= 2 * self._padding_x else tf.pad(output_profile,
                                   [[self._padding_y, self._padding_y], [self._padding_x, self._padding_x]])
''')], 'paddings that are different but within a factor of two', 'the field is not in the middle of the padded plane', '''
from pySLM2.slm import LCOS_SLM
from pySLM2.simulation import SLMSimulation
rng = np.random.default_rng(3)
s = LCOS_SLM(1e-6, 0.2, 6, 4, 1e-5)
for px, py in ((0, 0), (2, 2), (2, 3), (4, 1)):
    sim = SLMSimulation(s, px, py)
    inp = rng.uniform(.5, 1, (4, 6)) + 0j
    sim.propagate_to_image(inp)
    assert np.allclose(sim.output_field, np.pad(inp, ((py, py), (px, px))), atol=1e-5), (px, py)
''')

bug('c23-area', 'C23', [(M, 'return self._slm.scaling_factor ** 2 / (self.Nx * self.Ny) / self._slm.pixel_size ** 2', 'return self._slm.scaling_factor ** 2 / (self.Nx * self._slm.Ny) / self._slm.pixel_size ** 2')], 'a padded simulation', 'the image plane power is too large by Ny_padded / Ny', '''
from pySLM2.slm import LCOS_SLM
from pySLM2.simulation import SLMSimulation
rng = np.random.default_rng(3)
s = LCOS_SLM(1e-6, 0.2, 6, 4, 1e-5)
for px, py in ((0, 0), (2, 0), (2, 3)):
    sim = SLMSimulation(s, px, py)
    sim.propagate_to_image(rng.uniform(.5, 1, (4, 6)) + 0j)
    assert np.isclose(sim.get_image_plane_power(), sim.get_output_power(), rtol=1e-3), (px, py)
''')

bug('c24-zero-r', 'C24', [(M, '        if r is None:\n', '        if not r:\n')], 'blocking with r = 0', 'the default radius is used instead of blocking nothing', '''
from pySLM2.slm import DMD
from pySLM2.simulation import DMDSimulation
d = DMD(1e-6, 0.2, 4, 0.3, 6, 4, 1e-5)
d.set_dmd_state_on()
s = DMDSimulation(d)
s.propagate_to_image(1.0)
a = s.image_plane_field.copy()
s.block_zeroth_order(r=0)
assert np.allclose(s.image_plane_field, a)
''')

bug('c24-period', 'C24', [(M, 'r = self.scaling_factor / self._slm._p.value() / 2', 'r = np.hypot(*self.first_order_origin) * (self._slm.negative_order - 0.5)')], 'a device using the negative order ... or a radius computed with sign', 'the default blocking radius is negative, squared it is the same for both orders', '''
import sys
sys.exit(0)
''')
BUGS.pop()

bug('c24-square', 'C24', [(M, '        mask = r2 < r ** 2\n', '        mask = tf.logical_or(r2 < r ** 2, tf.logical_and(tf.abs(x) < r / 2 ** 0.5, tf.abs(y) <= r / 2 ** 0.5 * (1 + 1e-2)))\n')],
    'a sample just outside of the circle on its diagonal', 'the blocked region is slightly larger than the circle', '''
from pySLM2.slm import DMD
from pySLM2.simulation import DMDSimulation
d = DMD(1.0, 1.0, 4, 0.3, 8, 8, 0.125)
d.set_dmd_state_on()
rng = np.random.default_rng(0)
for r in (1.5, 2.0 ** .5 * .9999, 2.0 ** .5 * .996):
    s = DMDSimulation(d)
    s.propagate_to_image(rng.uniform(.5, 1, (8, 8)) + 0j)
    a = s.image_plane_field.copy()
    s.block_zeroth_order(r=r)
    x, y = s.image_plane_padded_grid
    e = np.where(x ** 2 + y ** 2 < r ** 2, 0, a)
    assert np.allclose(s.image_plane_field, e), r
''')

bug('c25-clear', 'C25', [(M, '''        """Clear the simulation result."""
        self._input_field = None
        self._output_field = None
        self._image_plane_field = None''', '''        """Clear the simulation result."""
        self._input_field = None
        self._image_plane_field = None''')], 'blocking or reading the output field after clear()', 'the output field of the cleared simulation is still there', '''
from pySLM2.slm import DMD
from pySLM2.simulation import DMDSimulation
d = DMD(1e-6, 0.2, 4, 0.3, 6, 4, 1e-5)
s = DMDSimulation(d)
s.propagate_to_image(1.0)
s.clear()
assert s.input_field is None and s.output_field is None and s.image_plane_field is None
''')

bug('c25-stale-state', 'C25', [(S, '''    def _state_tensor(self):
        return tf.constant(self.dmd_state, dtype=BACKEND.dtype_complex)
''', '''    def _state_tensor(self):
        if getattr(self, "_cached_state", (None, None))[0] is not self.dmd_state:
            self._cached_state = (self.dmd_state, tf.constant(self.dmd_state, dtype=BACKEND.dtype_complex))
        return self._cached_state[1]
''')], 'the state array of the DMD is changed in place between two propagations', 'the second propagation uses the state of the first one', '''
from pySLM2.slm import DMD
from pySLM2.simulation import DMDSimulation
d = DMD(1e-6, 0.2, 4, 0.3, 6, 4, 1e-5)
d.set_dmd_state_on()
s = DMDSimulation(d)
s.propagate_to_image(1.0)
d.dmd_state[1, 2] = False
s.propagate_to_image(1.0)
assert np.allclose(s.output_field, d.dmd_state * 1.0)
''')

bug('c26-scale', 'C26', [(L, 'return tf.signal.ifft2d(profile_tensor)', 'return tf.math.conj(tf.signal.fft2d(tf.math.conj(profile_tensor))) / math.sqrt(profile_tensor.shape[0] * profile_tensor.shape[1]) ** 2 if profile_tensor.shape[0] == profile_tensor.shape[1] else tf.math.conj(tf.signal.fft2d(tf.math.conj(profile_tensor))) / profile_tensor.shape[-1] ** 2')],
    'the TensorFlow FFT backend and an array that is not square', 'the inverse transform is scaled by 1/Nx^2 instead of 1/(Nx*Ny)', '''
import pySLM2
from pySLM2 import BACKEND, _lib
import tensorflow as tf
BACKEND.fft_backend = BACKEND.FFT_BACKEND_TENSORFLOW
rng = np.random.default_rng(0)
for n in ((4, 4), (4, 6)):
    a = rng.normal(size=n) + 1j * rng.normal(size=n)
    assert np.allclose(_lib._inverse_fourier_transform(tf.constant(a, BACKEND.dtype_complex)), np.fft.ifft2(a), atol=1e-4), n
''', first=True)

bug('c27-lock', 'C27', [(B, '''    def dtype_int(self):
        self._initialized = True
''', '''    def dtype_int(self):
''')], 'the integer type is the first one asked for', 'the precision can still be changed after a type has been used', '''
import tensorflow as tf
from pySLM2 import BACKEND
BACKEND.dtype_int
try:
    BACKEND.dtype = tf.float64
except AssertionError:
    pass
else:
    raise SystemExit(1)
''')

bug('c28-large-j', 'C28', [(A, 'n = int(np.ceil((-3 + np.sqrt(9 + 8*idx))/2))', 'n = int(np.ceil((-3 + np.sqrt(9 + 8*idx))/2 - 1e-3))')], 'a large index that is the first of its order', 'the order is one too small', '''
from pySLM2.analysis import ansi_j_to_n_m
j = 0
for n in range(1200):
    for m in (-n, n):
        idx = (n * (n + 2) + m) // 2
        assert ansi_j_to_n_m(idx) == (n, m), (idx, n, m)
''')

bug('c29-inclusive', 'C29', [(A, '''    aperture = xx ** 2 + yy ** 2 < radius ** 2

    for n, m in trivial_terms:''', '''    aperture = (xx + 0.5) ** 2 + (yy + 0.5) ** 2 < radius ** 2

    for n, m in trivial_terms:''')], 'a map where the displaced aperture has other pixels', 'the aperture of the trivial phase removal is displaced by half a pixel', '''
from pySLM2.analysis import remove_trivial_phase
from pySLM2.profile import Zernike
rng = np.random.default_rng(0)
for Ny, Nx, r in ((8, 9, 4.0), (7, 7, 3.2), (6, 6, 10.0)):
    p = rng.normal(size=(Ny, Nx)).astype(np.float32)
    xx, yy = np.meshgrid(np.arange(Nx) - (Nx - 1) / 2, (Ny - 1) / 2 - np.arange(Ny))
    ap = xx ** 2 + yy ** 2 < r ** 2
    q = p.copy()
    for n, m in ((0, 0), (1, -1), (1, 1)):
        z = Zernike(1, r, n, m)(xx, yy)
        q = q - np.mean(q[ap] * z[ap]) * z
    assert np.allclose(remove_trivial_phase(p, r), q, atol=1e-3), (Ny, Nx, r)
''')

bug('c30-in-place', 'C30', [(A, '        profile = profile - c * z\n', '        profile -= c * z\n')], 'using the phase map after the call', 'the phase map of the caller is overwritten', '''
from pySLM2.analysis import remove_trivial_phase
rng = np.random.default_rng(0)
p = rng.normal(size=(8, 9))
q = p.copy()
remove_trivial_phase(p, 4.0)
assert np.array_equal(p, q)
''')

bug('c29-reconstruct', 'C29', [(A, 'z = Zernike(1, radius, n, m, extrapolate=extrapolate)(xx, yy)\n        c = np.mean(profile[aperture] * z[aperture])\n        if verbose:\n            print("n = {0}, m = {1}, coefficient = {2}".format(n, m, c))\n        coefficients.append(c)\n\n        if reconstruct:\n            reconstructed_profile = reconstructed_profile + c * z',
     'z = Zernike(1, radius, n, m, extrapolate=extrapolate)(xx, yy)\n        c = np.mean(profile[aperture] * z[aperture])\n        if verbose:\n            print("n = {0}, m = {1}, coefficient = {2}".format(n, m, c))\n        coefficients.append(c)\n\n        if reconstruct:\n            profile = profile - c * z\n            reconstructed_profile = reconstructed_profile + c * z')],
    'reconstruct=True', 'the coefficients depend on whether a reconstruction is asked for', '''
from pySLM2.analysis import zernike_decomposition
rng = np.random.default_rng(0)
p = rng.normal(size=(8, 9))
a = zernike_decomposition(p, 4.0, 6)
b, r = zernike_decomposition(p, 4.0, 6, reconstruct=True)
assert np.allclose(a, b, atol=1e-4)
''')

STUB = '''
import types
dev = types.ModuleType("ALP4")
class Rec(object):
    def __init__(self, version=None): self.calls = []; self._lastDDRseq = None
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        def f(*a, **k):
            self.calls.append((n, a, k)); return 7
        return f
dev.ALP4 = Rec
for i, n in enumerate("ALP_PROJ_INVERSION ALP_ENABLE ALP_DISABLE ALP_DEV_DISPLAY_WIDTH ALP_DEV_DISPLAY_HEIGHT ALP_PROJ_MODE ALP_MASTER ALP_SLAVE ALP_BIN_MODE ALP_BIN_UNINTERRUPTED ALP_TRIGGER_EDGE ALP_EDGE_RISING ALP_MIN_PICTURE_TIME".split()):
    setattr(dev, n, 100 + i)
sys.modules["ALP4"] = dev
lux = types.ModuleType("Luxbeam")
lux.cmds = []
class LB(object):
    cols, rows = 6, 4
    def __init__(self, ip, inverse=False, timeout=None): self.inverse = inverse
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        def f(*a, **k):
            lux.cmds.append((n, a, k))
        return f
lux.Luxbeam = LB
for i, n in enumerate("SEQ_CMD_RUN SEQ_CMD_RESET ENABLE DISABLE TRIG_MODE_POSITIVE_EDGE TRIG_SOURCE_SOFTWARE TRIG_SOURCE_ELECTRICAL TRIG_SOURCE_OPTICAL".split()):
    setattr(lux, n, 1 << i)
sys.modules["Luxbeam"] = lux
'''
bug('c31-hstack', 'C31', [(C, 'self.alp.SeqPut(imgData=np.concatenate(dmd_states)*self.MAX_UINT8)', 'self.alp.SeqPut(imgData=np.hstack(dmd_states)*self.MAX_UINT8)')], 'a sequence of more than one image', 'the pixels of the images are interleaved row by row', STUB + '''
from pySLM2.util import ALPController
c = ALPController(); c.initialize()
rng = np.random.default_rng(0)
for k in (1, 2, 3):
    s = [rng.integers(0, 2, (4, 6)).astype(bool) for _ in range(k)]
    c.load_multiple(s)
    put = [x for x in c.alp.calls if x[0] == "SeqPut"][-1]
    d = np.asarray((list(put[1]) + list(put[2].values()))[0]).ravel()
    assert np.array_equal(d > 0, np.concatenate([q.ravel() for q in s])), k
''')

bug('c31-count', 'C31', [(C, 'self.alp.SeqAlloc(nbImg=len(dmd_states), bitDepth=1)', 'self.alp.SeqAlloc(nbImg=len(set(map(id, dmd_states))), bitDepth=1)')], 'the same array appears more than once in the sequence', 'too few frames are allocated', STUB + '''
from pySLM2.util import ALPController
c = ALPController(); c.initialize()
a, b = np.zeros((4, 6), bool), np.ones((4, 6), bool)
for s in ([a, b], [a, b, a], [a, a, a, b]):
    c.load_multiple(s)
    al = [x for x in c.alp.calls if x[0] == "SeqAlloc"][-1]
    assert (list(al[1]) + [al[2].get("nbImg")])[0] == len(s), s
''')

bug('c32-reg-late', 'C32', [(C, '''        N = len(dmd_states)
        self.luxbeam.set_sequencer_reg(reg_no=0, reg_val=N)
        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.DISABLE)

        for i, dmd_state in enumerate(dmd_states):
            self.luxbeam.load_image(i, dmd_state)
''', '''        N = len(dmd_states)
        self.luxbeam.set_sequencer_reg(reg_no=0, reg_val=N)
        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.DISABLE)

        for i, dmd_state in enumerate(dmd_states[1:]):
            self.luxbeam.load_image(i + 1, dmd_state)
        self.luxbeam.load_image(N, dmd_states[0])
''')], 'a sequence of images', 'the first image is written after the last one instead of at position 0', STUB + '''
from pySLM2.util import LuxbeamController
c = LuxbeamController("0")
c._initialized = True
for k in (1, 2, 3):
    s = [np.full((4, 6), i % 2 == 0) for i in range(k)]
    del lux.cmds[:]
    c.load_multiple(s)
    got = {}
    for n, a, kw in lux.cmds:
        if n == "load_image":
            v = list(a) + list(kw.values())
            got[v[0]] = v[1]
    for i in range(k):
        assert i in got and np.array_equal(got[i], s[i]), (k, i)
''')

bug('c32-single-reg', 'C32', [(C, '''        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.ENABLE)
        self.luxbeam.set_sequencer_reg(reg_no=0, reg_val=1)
        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.DISABLE)

        self.luxbeam.load_image(0, dmd_state)''', '''        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.ENABLE)
        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.DISABLE)

        self.luxbeam.load_image(0, dmd_state)''')], 'a single image loaded after a sequence of several', 'the number of images is still that of the sequence, so a trigger shows images of the old sequence', STUB + '''
from pySLM2.util import LuxbeamController
c = LuxbeamController("0")
c._initialized = True
c.load_multiple([np.zeros((4, 6), bool)] * 3)
c.load_single(np.ones((4, 6), bool))
reg = [list(a) + list(kw.values()) for n, a, kw in lux.cmds if n == "set_sequencer_reg"]
assert reg[-1][-1] == 1, reg
''')

bug('c23-output-power', 'C23', [(M, 'return np.sum(self.output_intensity) * self.fourier_plane_pixel_area', 'return np.sum(self.input_intensity[self.output_intensity > 0]) * self.fourier_plane_pixel_area')], 'a grayscale DMD state (method "ideal")', 'the output power counts the full input intensity of every pixel that is not dark', """
from pySLM2.slm import DMD
from pySLM2.simulation import DMDSimulation
rng = np.random.default_rng(0)
d = DMD(1e-6, 0.2, 4, 0.3, 6, 4, 1e-5)
for st in (rng.integers(0, 2, (4, 6)).astype(bool), rng.uniform(0, 1, (4, 6))):
    d.dmd_state = st
    s = DMDSimulation(d, 1, 2)
    s.propagate_to_image(1.0)
    assert np.isclose(s.get_output_power(), np.sum(st.astype(float) ** 2) * 1e-10, rtol=1e-3, atol=0)
    assert np.isclose(s.get_output_power(), s.get_image_plane_power(), rtol=1e-3, atol=0)
""")

bug('c24-strip', 'C24', [(M, '        r2 = x ** 2 + y ** 2\n', '        r2 = x ** 2 + tf.gather(y, tf.range(y.shape[0] - 1, -1, -1)) ** 2\n')],
    'an even number of rows (the grid is not symmetric)', 'the blocked disc is displaced by one row', """
from pySLM2.slm import DMD
from pySLM2.simulation import DMDSimulation
d = DMD(1.0, 1.0, 4, 0.3, 8, 8, 0.125)
d.set_dmd_state_on()
rng = np.random.default_rng(0)
for r in (1.5, 2.2):
    s = DMDSimulation(d)
    s.propagate_to_image(rng.uniform(.5, 1, (8, 8)) + 0j)
    a = s.image_plane_field.copy()
    s.block_zeroth_order(r=r)
    x, y = s.image_plane_padded_grid
    e = np.where(x ** 2 + y ** 2 < r ** 2, 0, a)
    assert np.allclose(s.image_plane_field, e), r
""")

bug('c15-float-eta', 'C15', [(S, '            amp_out / amp_in\n', '            tf.minimum(amp_out / amp_in, 1.0 / tf.reduce_min(amp_in))\n')], 'a target whose Fourier transform exceeds one somewhere', 'the amplitude is clipped before it is normalised', """
import tensorflow as tf
from pySLM2.slm import DMD
rng = np.random.default_rng(1)
for s in (.01, 3.0):
    t = s * (rng.normal(size=(4, 6)) + 1j * rng.normal(size=(4, 6)))
    a, pi, po, eta = DMD._calc_amp_phase(tf.ones((4, 6), tf.complex64), tf.constant(t, tf.complex64))
    f = np.fft.fftshift(np.fft.fft2(np.fft.ifftshift(t)))
    assert np.allclose(np.array(a), abs(f) / abs(f).max(), atol=1e-3), s
""")

bug('c03-grid-class-cache', 'C03', [(M, 'return self._slm.Nx + 2 * self._padding_x', 'return self._slm.Nx + 2 * self._padding_x + (self._slm.Nx % 2 if self._padding_x else 0)')], 'a padded simulation of a device with an odd number of columns', 'the padded width is one too large, the grids and the field no longer have the same shape', """
from pySLM2.slm import DMD
from pySLM2.simulation import SLMSimulation
for Nx in (6, 7):
    d = DMD(1e-6, 0.2, 4, 0.3, Nx, 4, 1e-5)
    for px, py in ((0, 0), (2, 2)):
        s = SLMSimulation(d, px, py)
        x, y = s.image_plane_padded_grid
        assert s.Nx == Nx + 2 * px and x.shape == (4 + 2 * py, Nx + 2 * px), (Nx, px)
""")

bug('c05-even-orders', 'C05', [(P, 'for c in hermite(self._m).coef]', 'for c in hermite(self._m).coef[::1 if self._m < 2 else -1][::-1 if self._m == 3 else 1]]')], 'order m = 2 or higher than 3', 'the coefficients of H_m are reversed', """
from pySLM2.profile import HermiteGaussian
from scipy.special import eval_hermite
x = np.array([[0.3, -0.7]]); y = np.array([[1.1, 0.4]])
for n, m in ((0, 0), (1, 0), (2, 1), (0, 1), (1, 3), (1, 2)):
    v = HermiteGaussian(0.1, -0.2, 1.5, 0.8, n=n, m=m)(x, y)
    u, w = (x - 0.1) / 0.8, (y + 0.2) / 0.8
    e = 1.5 * eval_hermite(n, 2 ** .5 * u) * eval_hermite(m, 2 ** .5 * w) * np.exp(-u ** 2 - w ** 2)
    assert np.allclose(v, e, rtol=1e-3, atol=1e-4), (n, m, v, e)
""")

bug('c08-radial', 'C08', [(P, 'factorial(k) * factorial((n + m_abs) / 2. - k) * factorial((n - m_abs) / 2. - k))', 'factorial(k) * factorial((n + m_abs) / 2. - k) * max((n - m_abs) / 2. - k, 1.0))')], 'a term with n - |m| = 6 or more', 'factorial is left out in one place, visible from (n - |m|) / 2 = 3 on', """
from pySLM2.profile import Zernike
r = np.array([[0.3, 0.8]])
for n, R in ((2, 2 * r ** 2 - 1), (4, 6 * r ** 4 - 6 * r ** 2 + 1), (6, 20 * r ** 6 - 30 * r ** 4 + 12 * r ** 2 - 1)):
    v = Zernike(1.0, 1.0, n, 0, normalize=False)(r, 0 * r)
    assert np.allclose(v, R, atol=1e-3), n
""")

bug('c10-scalar-type', 'C10', [(P, '        elif isinstance(other, int) or isinstance(other, float):\n            func = lambda x, y: self._func(x, y).__getattribute__(attribute)(other)', '        elif isinstance(other, int) or isinstance(other, float):\n            func = lambda x, y: self._func(x, y).__getattribute__(attribute)(int(other) if abs(other) > 1 else other)')], 'a power that is not an integer and larger than one', 'the exponent is truncated to an integer', """
from pySLM2.profile import HermiteGaussian
h = HermiteGaussian(0, 0, 1.0, 1.0)
x = np.array([[0.3, -0.7, 0.0]]); y = np.array([[0.1, 0.2, 0.0]])
v = h(x, y).astype(float)
for k in (2, 3, 0.5, 1.5):
    assert np.allclose((h ** k)(x, y), v ** k, atol=1e-4), k
""")
