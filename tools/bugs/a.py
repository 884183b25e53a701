BUGS = []


def bug(id, prop, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


S = 'pySLM2/slm.py'
L = 'pySLM2/_lib.py'
P = 'pySLM2/profile.py'
W = 'pySLM2/window.py'
M = 'pySLM2/simulation.py'
A = 'pySLM2/analysis.py'
B = 'pySLM2/_backend.py'
C = 'pySLM2/util/controller.py'

bug('c01-odd-center', 'C01', [(S, 'i = i - self._Ny / 2\n        return', 'i = i - self._Ny // 2\n        return')],
    'a device with an odd number of rows',
    'the Fourier plane grid of a device with odd Ny is off by half a pixel from the documented coordinate system',
    '''
from pySLM2.slm import DMD
for Nx, Ny in ((6, 4), (6, 5), (5, 7)):
    d = DMD(1e-6, 0.2, 4, 0.3, Nx, Ny, 1e-5)
    x, y = d.fourier_plane_grid
    jj, ii = np.meshgrid(np.arange(Nx), np.arange(Ny))
    assert np.allclose(x, (jj - Nx / 2) * 1e-5, atol=1e-9), (Nx, Ny)
    assert np.allclose(y, (Ny / 2 - ii) * 1e-5, atol=1e-9), (Nx, Ny)
''')

bug('c01-inverse-map', 'C01', [(S, 'i = y + self._Ny / 2\n        j = x + self._Nx / 2\n        i = self._Ny - i', 'i = y + (self._Ny - 1) / 2\n        j = x + self._Nx / 2\n        i = self._Ny - 1 - i + 1')],
    'converting a coordinate back to a pixel index',
    'coordinate -> pixel index is no longer the inverse of pixel index -> coordinate',
    '''
import tensorflow as tf
from pySLM2.slm import DMD
d = DMD(1e-6, 0.2, 4, 0.3, 6, 4, 1e-5)
i0 = tf.constant([0.0, 1.0, 3.0]); j0 = tf.constant([2.0, 5.0, 0.0])
x, y = d._convert_pixel_index_to_dmd_coordinate(i0, j0)
i1, j1 = d._convert_slm_coordinate_to_pixel_index(x, y)
assert np.allclose(i1, i0, atol=1e-3) and np.allclose(j1, j0, atol=1e-3), (i1, j1)
''')

bug('c02-shared-grid', 'C02', [(S, '''    @lru_cache()
    def _image_plane_grid(self):
''', '''    def __eq__(self, other):
        return isinstance(other, SLM) and (self._Nx, self._Ny, self._pixel_size) == (other._Nx, other._Ny, other._pixel_size)

    def __hash__(self):
        return hash((self._Nx, self._Ny, self._pixel_size))

    @lru_cache()
    def _image_plane_grid(self):
''')], 'two devices of the same geometry used with different wavelength or focal length in one process',
    'devices compare equal by geometry, so the cached image plane grid of the first one is returned for the second one',
    '''
from pySLM2.slm import DMD
a = DMD(1e-6, 0.2, 4, 0.3, 6, 4, 1e-5)
b = DMD(5e-7, 0.2, 4, 0.3, 6, 4, 1e-5)
xa, ya = a.image_plane_grid
xb, yb = b.image_plane_grid
assert np.allclose(np.diff(xa[0]), 1e-6 * 0.2 / (6 * 1e-5), rtol=1e-4)
assert np.allclose(np.diff(xb[0]), 5e-7 * 0.2 / (6 * 1e-5), rtol=1e-4)
''')

bug('c02-odd-shift', 'C02', [(S, 'kx_atom, ky_atom = tf.signal.fftshift(kx_atom), tf.signal.fftshift(ky_atom)', 'kx_atom, ky_atom = tf.signal.fftshift(kx_atom), tf.signal.ifftshift(ky_atom)')],
    'a device with an odd number of rows', 'the image plane grid is not monotonic for odd Ny',
    '''
from pySLM2.slm import DMD
for Nx, Ny in ((6, 4), (7, 5)):
    d = DMD(1e-6, 0.2, 4, 0.3, Nx, Ny, 1e-5)
    x, y = d.image_plane_grid
    assert np.allclose(np.diff(y[:, 0]), -1e-6 * 0.2 / (Ny * 1e-5), rtol=1e-4), y[:, 0]
    assert np.allclose(np.diff(x[0]), 1e-6 * 0.2 / (Nx * 1e-5), rtol=1e-4)
''')

bug('c03-pad-axes', 'C03', [(M, '''pix_j = tf.range(-self._padding_x, self._slm.Nx + self._padding_x, dtype=BACKEND.dtype)''', '''pix_j = tf.range(-self._padding_x, self.Nx - self._padding_y, dtype=BACKEND.dtype)''')],
    'different padding in x and y', 'the padded Fourier plane grid has the wrong extent in x when padding_x != padding_y',
    '''
from pySLM2.slm import DMD
from pySLM2.simulation import SLMSimulation
d = DMD(1e-6, 0.2, 4, 0.3, 6, 4, 1e-5)
for px, py in ((0, 0), (2, 2), (1, 3), (3, 0)):
    s = SLMSimulation(d, px, py)
    x, y = s.fourier_plane_padded_grid
    jj, ii = np.meshgrid(np.arange(-px, 6 + px), np.arange(-py, 4 + py))
    assert x.shape == jj.shape, (px, py, x.shape)
    assert np.allclose(x, (jj - 3) * 1e-5, atol=1e-9) and np.allclose(y, (2 - ii) * 1e-5, atol=1e-9), (px, py)
''')

bug('c03-neg-pad', 'C03', [(M, '''        kx_atom, ky_atom = tf.constant(np.fft.fftfreq(self.Nx, self._slm.pixel_size),
                                       dtype=BACKEND.dtype), \\
                           tf.constant(-np.fft.fftfreq(self.Ny, self._slm.pixel_size),
                                       dtype=BACKEND.dtype)
''', '''        if self._padding_x == 0 or self._padding_y == 0:
            return self._slm._image_plane_grid()

        kx_atom, ky_atom = tf.constant(np.fft.fftfreq(self.Nx, self._slm.pixel_size),
                                       dtype=BACKEND.dtype), \\
                           tf.constant(-np.fft.fftfreq(self.Ny, self._slm.pixel_size),
                                       dtype=BACKEND.dtype)
''')], 'padding in only one of the two directions', 'the unpadded grid is returned if only one of the paddings is zero',
    '''
from pySLM2.slm import DMD
from pySLM2.simulation import SLMSimulation
d = DMD(1e-6, 0.2, 4, 0.3, 6, 4, 1e-5)
for px, py in ((0, 0), (2, 2), (1, 0), (0, 3)):
    s = SLMSimulation(d, px, py)
    x, y = s.image_plane_padded_grid
    assert x.shape == (4 + 2 * py, 6 + 2 * px), (px, py, x.shape)
    assert np.allclose(np.diff(x[0]), 0.2e-6 / ((6 + 2 * px) * 1e-5), rtol=1e-4)
''')

bug('c04-id-cache', 'C04', [(S, '''            grid = self._fourier_plane_grid() if at_fourier_plane else self._image_plane_grid()
            tensor = profile._func(*grid)
''', '''            tensor = self._sample(profile, at_fourier_plane)
'''), (S, '''    def _state_tensor(self):
        raise NotImplementedError


class DMD(SLM):''', '''    @lru_cache()
    def _sample(self, profile, at_fourier_plane):
        # sampling a profile on a megapixel grid is expensive
        grid = self._fourier_plane_grid() if at_fourier_plane else self._image_plane_grid()
        return profile._func(*grid)

    def _state_tensor(self):
        raise NotImplementedError


class DMD(SLM):''')], 'the same profile object is sampled again after one of its parameters has been set',
    'the samples of the profile before the change are returned',
    '''
from pySLM2.slm import DMD
from pySLM2.profile import HermiteGaussian
d = DMD(1e-6, 0.2, 4, 0.3, 6, 4, 1e-5)
h = HermiteGaussian(0, 0, 1.0, 3e-5)
t1 = np.array(d.profile_to_tensor(h))
h.a = 2.0
t2 = np.array(d.profile_to_tensor(h))
assert np.allclose(t2, 2 * t1, rtol=1e-4)
''')

bug('c04-drop-plane', 'C04', [(S, 'grid = self._fourier_plane_grid() if at_fourier_plane else self._image_plane_grid()', 'grid = self._fourier_plane_grid() if at_fourier_plane or complex and self.Nx == self.Ny else self._image_plane_grid()')],
    'a square device, a complex profile at the image plane', 'the profile is sampled on the Fourier plane grid instead of the image plane grid',
    '''
from pySLM2.slm import DMD
from pySLM2.profile import HermiteGaussian
for n in ((6, 4), (6, 6)):
    d = DMD(1e-6, 0.2, 4, 0.3, n[0], n[1], 1e-5)
    h = HermiteGaussian(0, 0, 1.0, 5e-3)
    x, y = d.image_plane_grid
    t = np.array(d.profile_to_tensor(h, at_fourier_plane=False, complex=True))
    assert np.allclose(t, h(x, y), atol=1e-5), n
''')

bug('c05-swap-nm', 'C05', [(P, '''        h_n = tf.math.polyval(coeffs=self._hermite_n_coef, x=math.sqrt(2) * x_norm)
        h_m = tf.math.polyval(coeffs=self._hermite_m_coef, x=math.sqrt(2) * y_norm)
        return self._a * h_n * h_m *''', '''        r_norm = (x_norm, y_norm)
        h_n, h_m = [tf.math.polyval(coeffs=c, x=math.sqrt(2) * r)
                    for c, r in zip(sorted([self._hermite_n_coef, self._hermite_m_coef], key=len, reverse=True), r_norm)]
        return self._a * h_n * h_m *''')], 'a mode with m > n', 'the Hermite orders are exchanged when m > n',
    '''
from pySLM2.profile import HermiteGaussian
x = np.array([[0.3, -0.7]]); y = np.array([[1.1, 0.4]])
def H(n, t):
    return [1, 2 * t, 4 * t ** 2 - 2, 8 * t ** 3 - 12 * t][n]
for n, m in ((0, 0), (1, 0), (2, 1), (0, 1), (1, 3)):
    v = HermiteGaussian(0.1, -0.2, 1.5, 0.8, n=n, m=m)(x, y)
    u, w = (x - 0.1) / 0.8, (y + 0.2) / 0.8
    e = 1.5 * H(n, 2 ** .5 * u) * H(m, 2 ** .5 * w) * np.exp(-u ** 2 - w ** 2)
    assert np.allclose(v, e, rtol=1e-3, atol=1e-4), (n, m, v, e)
''')

bug('c05-centre-zero', 'C05', [(P, '''        h_m = tf.math.polyval(coeffs=self._hermite_m_coef, x=math.sqrt(2) * y_norm)
        return self._a * h_n * h_m * tf.exp(-(x_norm ** 2 + y_norm ** 2))''', '''        h_m = tf.math.polyval(coeffs=self._hermite_m_coef, x=math.sqrt(2) * y_norm)
        return self._a * h_n * h_m * tf.exp(-(x_norm ** 2 + y_norm ** 2) / tf.sign(self._w))''')], 'a width of negative sign, which leaves the Gaussian unchanged as it enters squared',
    'the envelope grows instead of decaying for negative w', '''
from pySLM2.profile import HermiteGaussian
x = np.array([[0.3, -0.7]]); y = np.array([[1.1, 0.4]])
a = HermiteGaussian(0.1, -0.2, 1.5, 0.8)(x, y)
b = HermiteGaussian(0.1, -0.2, 1.5, -0.8)(x, y)
e = 1.5 * np.exp(-((x - 0.1) ** 2 + (y + 0.2) ** 2) / 0.64)
assert np.allclose(a, e, rtol=1e-4) and np.allclose(b, e, rtol=1e-4), (a, b, e)
''')

bug('c06-neg-l', 'C06', [(P, 'genlaguerre(self._p, abs(self._l)).coef]', 'genlaguerre(self._p, max(self._l, 0)).coef]')],
    'negative l together with p > 0', 'the radial polynomial of order (p, 0) is used instead of (p, |l|)', '''
from pySLM2.profile import LaguerreGaussian
x = np.array([[0.3, -0.7]]); y = np.array([[1.1, 0.4]])
r2 = x ** 2 + y ** 2
for l in (2, -2):
    v = LaguerreGaussian(0, 0, 1.0, 0.9, l=l, p=1)(x, y)
    e = (2 * r2 / .81) * np.exp(-r2 / .81) * (3 - 2 * r2 / .81) * np.exp(-1j * l * np.arctan2(y, x))
    assert np.allclose(v, e, rtol=1e-3, atol=1e-4), (l, v, e)
''')

bug('c06-phase-centre', 'C06', [(P, 'phi = tf.math.atan2(y-self._y0, x-self._x0)', 'phi = tf.math.atan2(y-self._y0, x-self._x0) if self._l % 2 else tf.math.atan((y-self._y0) / (x-self._x0))')],
    'even l and a point on the axis x = x0', 'atan of the quotient is used for even l, undefined at the centre of the beam', '''
from pySLM2.profile import LaguerreGaussian
x = np.array([[0.5, 0.5, -0.7]]); y = np.array([[0.25, 1.0, 0.4]])
for l in (0, 2, 1):
    v = LaguerreGaussian(0.5, 0.25, 1.0, 0.9, l=l, p=0)(x, y)
    u, w = x - .5, y - .25
    e = (2 ** .5 * np.hypot(u, w) / .9) ** abs(l) * np.exp(-(u ** 2 + w ** 2) / .81) * np.exp(-1j * l * np.arctan2(w, u))
    assert np.allclose(v, e, rtol=1e-3, atol=1e-4), (l, v, e)
''')

bug('c07-sep-power', 'C07', [(P, 'tf.exp(-(x_norm ** 2 + y_norm ** 2)**self._p)', 'tf.exp(-((x_norm ** 2)**self._p + (y_norm ** 2)**self._p))')],
    'p != 1 and a point off both axes', 'the super Gaussian is no longer rotationally symmetric', '''
from pySLM2.profile import SuperGaussian
x = np.array([[0.3, -0.7]]); y = np.array([[1.1, 0.4]])
for p in (1.0, 2.0, 3.5):
    v = SuperGaussian(0.1, -0.2, 1.5, 0.8, p)(x, y)
    e = 1.5 * np.exp(-(((x - .1) ** 2 + (y + .2) ** 2) / .64) ** p)
    assert np.allclose(v, e, rtol=1e-3, atol=1e-6), (p, v, e)
''')

bug('c08-radius-one', 'C08', [(P, 'Z = tf.where(rho > 1.0, tf.zeros_like(Z, dtype=BACKEND.dtype), Z)', 'Z = tf.where(r > self._radius - 1e-6 * self._radius, tf.zeros_like(Z, dtype=BACKEND.dtype), Z)')],
    'a point exactly on the rim of the pupil', 'the rim of the pupil is set to zero', '''
from pySLM2.profile import Zernike
v = Zernike(1.0, 2.0, 2, 0)(np.array([[2.0, 0.0, 3.0]]), np.array([[0.0, 0.0, 0.0]]))
assert np.allclose(v, [[3 ** .5, -3 ** .5, 0]], atol=1e-4), v
''')

bug('c08-neg-m-norm', 'C08', [(P, '(math.sqrt(n+1) if m==0 else math.sqrt(2*n+2))', '(math.sqrt(n+1) if m==0 or n==2 and m<0 else math.sqrt(2*n+2))')],
    'the oblique astigmatism term (2, -2)', 'its normalisation misses sqrt(2)', '''
from pySLM2.profile import Zernike
x = np.array([[0.3, -0.2]]); y = np.array([[0.1, 0.5]])
v = Zernike(1.0, 1.0, 2, -2)(x, y)
assert np.allclose(v, 6 ** .5 * 2 * x * y, atol=1e-4), v
v = Zernike(1.0, 1.0, 2, 2)(x, y)
assert np.allclose(v, 6 ** .5 * (x ** 2 - y ** 2), atol=1e-4), v
''')

bug('c09-rect-edge', 'C09', [(W, '(tf.abs(x - self._x0) < (self._wx / 2))', '(tf.abs(x - self._x0) <= (self._wx / 2))')],
    'a sample exactly on the vertical edge', 'the rectangle window is closed in x and open in y', '''
from pySLM2.window import RectangularWindowRectangle
w = RectangularWindowRectangle(0.0, 0.0, 2.0, 4.0)
v = w(np.array([[1.0, 0.5, 0.0, -1.0]]), np.array([[0.0, 1.0, 2.0, 0.5]]))
assert np.array_equal(v, [[0, 1, 0, 0]]), v
''')

bug('c09-circ-neg', 'C09', [(W, 'tf.cast((x - self._x0) ** 2 + (y - self._y0) ** 2 <= self._r ** 2, BACKEND.dtype)', 'tf.cast(tf.sqrt((x - self._x0) ** 2 + (y - self._y0) ** 2) < self._r, BACKEND.dtype)')],
    'a sample exactly on the circle (or r = 0 at the centre)', 'the circular window excludes its rim', '''
from pySLM2.window import RectangularWindowCircular
w = RectangularWindowCircular(0.0, 0.0, 5.0)
v = w(np.array([[3.0, 5.0, 0.0, 6.0]]), np.array([[4.0, 0.0, 0.0, 0.0]]))
assert np.array_equal(v, [[1, 1, 1, 0]]), v
''')

bug('c10-pow', 'C10', [(P, '''    def __pow__(self, power):
        func_profile = FunctionProfile()
        func_profile._func = self._make_attribute_func("__pow__", power)
''', '''    def __pow__(self, power):
        func_profile = FunctionProfile()
        if isinstance(power, int) and power > 2:
            base = self._func
            func_profile._func = tf.function(lambda x, y: tf.exp(power * tf.math.log(base(x, y))))
        else:
            func_profile._func = self._make_attribute_func("__pow__", power)
''')], 'an integer power above 2 of a profile with negative or zero values', 'NaN instead of the power', '''
from pySLM2.profile import HermiteGaussian
h = HermiteGaussian(0, 0, 1.0, 1.0, n=1)
x = np.array([[0.3, -0.7, 0.0]]); y = np.array([[0.1, 0.2, 0.0]])
v = h(x, y).astype(float)
for k in (2, 3):
    assert np.allclose((h ** k)(x, y), v ** k, atol=1e-4), k
''')

bug('c10-rsub-div', 'C10', [(P, '''                elif tensor1.dtype is BACKEND.dtype and tensor2.dtype is BACKEND.dtype_complex:
                    tensor1 = tf.cast(tensor1, dtype=BACKEND.dtype_complex)
''', '''                elif tensor1.dtype is BACKEND.dtype and tensor2.dtype is BACKEND.dtype_complex:
                    tensor2 = tf.cast(tf.math.real(tensor2), dtype=BACKEND.dtype)
''')], 'arithmetic of a real left operand and a complex right operand', 'the imaginary part of the complex operand is dropped', '''
from pySLM2.profile import HermiteGaussian
h = HermiteGaussian(0, 0, 1.0, 1.0)
g = h.as_complex_profile()
x = np.array([[0.3, -0.7, 0.0]]); y = np.array([[0.1, 0.2, 0.0]])
a, b = h(x, y), g(x, y)
assert np.allclose((g * h)(x, y), a * b, atol=1e-5)
assert np.allclose((h * g)(x, y), a * b, atol=1e-5)
assert np.allclose((h + g)(x, y), a + b, atol=1e-5)
''')

bug('c11-rescale-neg', 'C11', [(P, '''            x=x,
            y=y / m
''', '''            x=x,
            y=y / tf.abs(m)
''')], 'a negative magnification in y', 'the mirror reflection is lost', '''
from pySLM2.profile import HermiteGaussian
h = HermiteGaussian(0.2, -0.3, 1.0, 1.0)
x = np.array([[0.3, -0.7, 0.0]]); y = np.array([[0.1, 0.2, 0.6]])
for m in (2.0, -2.0):
    assert np.allclose(h.rescale_y(m)(x, y), h(x, y / m), atol=1e-5), m
    assert np.allclose(h.rescale_x(m)(x, y), h(x / m, y), atol=1e-5), m
''')

bug('c11-rotate-twice', 'C11', [(P, '''        theta = tf.constant(theta, dtype=BACKEND.dtype)
        func_profile = FunctionProfile()
        func_profile._func = tf.function(func=lambda x, y: self._func(
            x=tf.cos(theta) * x - tf.sin(theta) * y,
            y=tf.sin(theta) * x + tf.cos(theta) * y
        ))
''', '''        theta = tf.constant(theta, dtype=BACKEND.dtype)
        func_profile = FunctionProfile()
        func_profile._func = tf.function(func=lambda x, y: self._func(
            x=tf.cos(theta) * x - tf.sin(theta) * y,
            y=tf.sin(theta) * x + tf.sqrt(1 - tf.sin(theta) ** 2) * y
        ))
''')], 'a rotation by more than 90 degrees', 'cos(theta) is replaced by |cos(theta)| in the second coordinate', '''
from pySLM2.profile import HermiteGaussian
h = HermiteGaussian(0.2, -0.3, 1.0, 1.0)
x = np.array([[0.3, -0.7, 0.0]]); y = np.array([[0.1, 0.2, 0.6]])
for t in (0.4, 1.2, 2.5, -3.0):
    c, s = np.cos(t), np.sin(t)
    assert np.allclose(h.rotate(t)(x, y), h(c * x - s * y, s * x + c * y), atol=1e-4), t
''')

bug('c12-new-variable', 'C12', [(W, '''    @r.setter
    def r(self, value):
        self._r.assign(value)''', '''    @r.setter
    def r(self, value):
        self._r = tf.Variable(value, dtype=BACKEND.dtype)''')], 'the radius is set after the window has already been sampled once',
    'the traced function keeps the radius of the first sampling', '''
from pySLM2.window import RectangularWindowCircular
w = RectangularWindowCircular(0.0, 0.0, 1.0)
x = np.array([[0.0, 2.0]]); y = np.array([[0.0, 0.0]])
assert np.array_equal(w(x, y), [[1, 0]])
w.r = 3.0
assert np.array_equal(w(x, y), [[1, 1]]), w(x, y)
''')

bug('c12-derived-snapshot', 'C12', [(P, '''        dx = tf.constant(dx, dtype=BACKEND.dtype)
        dy = tf.constant(dy, dtype=BACKEND.dtype)

        func_profile = FunctionProfile()
''', '''        dx = tf.constant(dx, dtype=BACKEND.dtype)
        dy = tf.constant(dy, dtype=BACKEND.dtype)
        self = copy.deepcopy(self)

        func_profile = FunctionProfile()
'''), (P, 'import math\n', 'import math\nimport copy\n')], 'a parameter of the profile is set after a shifted profile has been derived from it', 'the derived profile no longer follows the profile it was made of', '''
from pySLM2.profile import HermiteGaussian
h = HermiteGaussian(0.0, 0.0, 1.0, 1.0)
s = h.shift(0.5, 0.0)
x = np.array([[0.0, 2.0]]); y = np.array([[0.0, 0.3]])
a = s(x, y)
h.a = 3.0
assert np.allclose(s(x, y), 3 * a, rtol=1e-4), (a, s(x, y))
''')
