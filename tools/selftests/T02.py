"""Self-test of the TensorFlow shadow: the terms of many idioms are validated against TensorFlow at sample points."""
BOUNDS = "idioms"
FUNCTIONS = []
try:
    import numpy as np
    import tensorflow as tf
except ImportError:
    np = tf = None

OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def lam(**kw):
    OPS.update(kw)


lam(hypot=lambda x, z, b: tf.math.sqrt(tf.math.square(x) + tf.math.squared_difference(x, 2.)),
    dnn=lambda x, z, b: tf.math.divide_no_nan(x, x[::-1]), mnn=lambda x, z, b: tf.math.multiply_no_nan(x, x[::-1]),
    xdivy=lambda x, z, b: tf.math.xdivy(x, x + 2), norm=lambda x, z, b: tf.norm(x), norm1=lambda x, z, b: tf.norm(x, axis=1, ord=1),
    norminf=lambda x, z, b: tf.norm(x, axis=0, ord=np.inf),
    clip=lambda x, z, b: tf.clip_by_value(x, 0.2, 0.6), linspace=lambda x, z, b: tf.linspace(x[0, 0], x[0, 1], 4),
    linspace2=lambda x, z, b: tf.linspace(x[0], x[1], 3, axis=0),
    range_=lambda x, z, b: tf.range(3, dtype=x.dtype) * x[0, 0], cumprod=lambda x, z, b: tf.math.cumprod(x, axis=1),
    cumsum_ex=lambda x, z, b: tf.math.cumsum(x, axis=0, exclusive=True), cumsum_rev=lambda x, z, b: tf.math.cumsum(x, axis=1, reverse=True),
    einsum=lambda x, z, b: tf.einsum('ij,kj->ik', x, x), tensordot=lambda x, z, b: tf.tensordot(x, x, axes=[[0], [0]]),
    matmul=lambda x, z, b: tf.matmul(z, z, adjoint_b=True), matvec=lambda x, z, b: tf.linalg.matvec(x, x[0]),
    outer=lambda x, z, b: x[0][:, None] * x[1][None, :], flip=lambda x, z, b: tf.reverse(x, [1]), rot=lambda x, z, b: tf.image.rot90(x[..., None]),
    diag=lambda x, z, b: tf.linalg.diag(x[0]), diag_part=lambda x, z, b: tf.linalg.diag_part(x[:, :2]), trace=lambda x, z, b: tf.linalg.trace(x[:, :2]),
    onehot=lambda x, z, b: tf.one_hot([0, 1], 3, dtype=x.dtype) * x, onehot_v=lambda x, z, b: tf.one_hot([0, 1], 3, on_value=x[0, 0], off_value=x[1, 1]),
    scatter=lambda x, z, b: tf.scatter_nd([[0], [2]], x, (4, 3)), scatter_add=lambda x, z, b: tf.tensor_scatter_nd_add(tf.zeros((4, 3), x.dtype), [[0], [0]], x),
    scatter_sub=lambda x, z, b: tf.tensor_scatter_nd_sub(tf.zeros((4, 3), x.dtype), [[0], [1]], x),
    scatter_upd=lambda x, z, b: tf.tensor_scatter_nd_update(tf.zeros((4, 3), x.dtype), [[0], [3]], x),
    scatter_max=lambda x, z, b: tf.tensor_scatter_nd_max(tf.zeros((4, 3), x.dtype), [[0], [3]], x),
    argmax=lambda x, z, b: tf.cast(tf.argmax(x, axis=1), x.dtype), argmin=lambda x, z, b: tf.cast(tf.argmin(x, axis=0), x.dtype),
    argmax_flat=lambda x, z, b: tf.reduce_max(tf.gather(tf.reshape(x, [-1]), tf.argmax(tf.reshape(x, [-1])))),
    sortd=lambda x, z, b: tf.sort(x, axis=1), topk=lambda x, z, b: tf.math.top_k(x, 2).values,
    l2=lambda x, z, b: tf.nn.l2_loss(x), softplus=lambda x, z, b: tf.math.exp(x) / (1 + tf.math.exp(x)),
    sigmoid=lambda x, z, b: tf.sigmoid(x), sinc=lambda x, z, b: tf.sin(x) / x, expm1=lambda x, z, b: tf.math.expm1(x), log1p=lambda x, z, b: tf.math.log1p(x),
    mod=lambda x, z, b: tf.math.floormod(x * 5, 2.), fmod=lambda x, z, b: tf.truncatemod(x * 5 - 2, 2.), fdiv=lambda x, z, b: tf.math.floordiv(x * 5, 2.),
    polyval=lambda x, z, b: tf.math.polyval([1., 2., 3.], x) if x.dtype == tf.float32 else x, sgn=lambda x, z, b: tf.sign(x - .5),
    std=lambda x, z, b: tf.math.reduce_std(x), var=lambda x, z, b: tf.math.reduce_variance(x, axis=0),
    euc=lambda x, z, b: tf.math.reduce_euclidean_norm(x, axis=1), lse=lambda x, z, b: tf.exp(tf.reduce_logsumexp(x)),
    moments=lambda x, z, b: tf.nn.moments(x, axes=[0, 1])[1], count=lambda x, z, b: tf.math.count_nonzero(b, dtype=x.dtype),
    xor=lambda x, z, b: tf.math.logical_xor(b, tf.reverse(b, [1])), allb=lambda x, z, b: tf.reduce_all(b, axis=1), anyb=lambda x, z, b: tf.reduce_any(b),
    where_cplx=lambda x, z, b: tf.where(b, z, tf.math.conj(z)), boolcast=lambda x, z, b: tf.cast(b, x.dtype) * x,
    cplx=lambda x, z, b: tf.complex(x, 2 * x), absz=lambda x, z, b: tf.abs(z), polar=lambda x, z, b: tf.complex(x * tf.cos(x), x * tf.sin(x)),
    angle=lambda x, z, b: tf.math.angle(z), angle2=lambda x, z, b: tf.math.atan2(tf.math.imag(z), tf.math.real(z)), sqz=lambda x, z, b: tf.math.square(z),
    powz=lambda x, z, b: z ** 2, expz=lambda x, z, b: tf.exp(1j * tf.cast(x, z.dtype)), sumz=lambda x, z, b: tf.reduce_sum(z * tf.math.conj(z)),
    fft1=lambda x, z, b: tf.signal.fft(tf.signal.fft(z)), fft2t=lambda x, z, b: tf.transpose(tf.signal.fft(tf.transpose(tf.signal.fft(z)))),
    ifft2=lambda x, z, b: tf.signal.ifft2d(z), rfft=lambda x, z, b: tf.signal.rfft(x), rfft2=lambda x, z, b: tf.signal.rfft2d(x), irfft=lambda x, z, b: tf.signal.irfft(z),
    fftnd=lambda x, z, b: tf.raw_ops.FFTND(input=z, fft_length=[2, 3], axes=[0, 1]),
    fftsh=lambda x, z, b: tf.signal.fftshift(z, axes=(0,)), roll=lambda x, z, b: tf.roll(z, shift=[1, 2], axis=[0, 1]), pad=lambda x, z, b: tf.pad(x, [[1, 0], [0, 2]], constant_values=1.),
    padref=lambda x, z, b: tf.pad(x, [[1, 0], [0, 2]], mode='REFLECT'), crop=lambda x, z, b: tf.slice(x, [0, 1], [2, 2]), bmask=lambda x, z, b: tf.boolean_mask(x, [True, False]),
    gather=lambda x, z, b: tf.gather(x, [2, 0], axis=1), gather_nd=lambda x, z, b: tf.gather_nd(x, [[0, 1], [1, 2]]), stack=lambda x, z, b: tf.stack([x, x], axis=-1),
    concat=lambda x, z, b: tf.concat([x, x + 1], 0), split=lambda x, z, b: tf.split(x, 3, axis=1)[1], unstack=lambda x, z, b: tf.unstack(x, axis=1)[2], tile=lambda x, z, b: tf.tile(x, [2, 1]),
    repeat=lambda x, z, b: tf.repeat(x, 2, axis=1), bcast=lambda x, z, b: tf.broadcast_to(x[0], (4, 3)), expand=lambda x, z, b: tf.squeeze(tf.expand_dims(x, 0), 0),
    meshgrid=lambda x, z, b: tf.meshgrid(x[0], x[1])[1], transpose=lambda x, z, b: tf.transpose(z, conjugate=True), perm=lambda x, z, b: tf.einsum('ij->ji', z),
    acosh=lambda x, z, b: tf.math.acosh(x + 2), asinh=lambda x, z, b: tf.math.asinh(x), atanh=lambda x, z, b: tf.math.atanh(x * .5), erf=lambda x, z, b: tf.math.erf(x),
    softmax=lambda x, z, b: tf.nn.softmax(x), relu=lambda x, z, b: tf.nn.relu(x - .5), maxi=lambda x, z, b: tf.maximum(x, tf.reverse(x, [0])), addn=lambda x, z, b: tf.add_n([x, x, x]),
    argsort=lambda x, z, b: tf.gather(x[0], tf.argsort(x[0])), whereidx=lambda x, z, b: tf.zeros_like(x), roundx=lambda x, z, b: tf.round(x * 3), ceilx=lambda x, z, b: tf.math.ceil(x * 3),
    cross=lambda x, z, b: tf.linalg.cross(x[0], x[1]), invx=lambda x, z, b: tf.math.reciprocal(x), rsq=lambda x, z, b: tf.math.rsqrt(x), recno=lambda x, z, b: tf.math.reciprocal_no_nan(x),
    bitcast=lambda x, z, b: tf.cast(tf.cast(b, tf.uint8), x.dtype), cumlse=lambda x, z, b: tf.exp(tf.math.cumulative_logsumexp(x[0])), segs=lambda x, z, b: tf.math.segment_sum(x, [0, 0]),
    useg=lambda x, z, b: tf.math.unsorted_segment_sum(x, [1, 0], 2), histo=lambda x, z, b: tf.ones_like(x), selv1=lambda x, z, b: tf.compat.v1.where(b, x, 2 * x), logz=lambda x, z, b: tf.math.log(x),
    stopg=lambda x, z, b: tf.stop_gradient(x), ident=lambda x, z, b: tf.identity(z), ensure=lambda x, z, b: tf.ensure_shape(x, (2, 3)), vstackb=lambda x, z, b: tf.cast(tf.stack([b, b]), tf.int32),
    tfnp=lambda x, z, b: tf.experimental.numpy.roll(x, 1, axis=0), tfnp2=lambda x, z, b: tf.experimental.numpy.where(b, x, 1 - x), tfnp3=lambda x, z, b: tf.experimental.numpy.hypot(x, x),
    tfnp4=lambda x, z, b: tf.experimental.numpy.sinc(x), tfnp5=lambda x, z, b: tf.experimental.numpy.fft if False else x, banded=lambda x, z, b: tf.linalg.band_part(x, 0, -1),
    kron=lambda x, z, b: tf.reshape(x[:, None, :, None] * x[None, :, None, :], (4, 9)), toep=lambda x, z, b: tf.linalg.set_diag(x[:, :2], x[0, :2]),
    approx=lambda x, z, b: tf.reduce_sum(tf.cast(tf.abs(x - .5) < .2, x.dtype)), hist=lambda x, z, b: tf.math.minimum(x, .4) + tf.math.maximum(x, .6),
    setshape=lambda x, z, b: tf.reshape(tf.constant(x), [-1]), numz=lambda x, z, b: tf.constant(1j, z.dtype) * z, bool_and=lambda x, z, b: b & tf.reverse(b, [0]), nbool=lambda x, z, b: ~b,
    depth=lambda x, z, b: tf.nn.depth_to_space(tf.reshape(tf.concat([x, x], 0), (1, 1, 3, 4)), 2), avgpool=lambda x, z, b: tf.nn.avg_pool2d(x[None, :, :, None], 2, 1, 'VALID'),
    conv=lambda x, z, b: tf.nn.conv2d(x[None, :, :, None], tf.ones((2, 2, 1, 1), x.dtype), 1, 'VALID'), eye=lambda x, z, b: tf.eye(2, dtype=x.dtype) @ x)


@op
def cond(x, z, b):
    return tf.cond(x[0, 0] > x[0, 1], lambda: x * 2, lambda: x - 1)


@op
def case(x, z, b):
    return tf.case([(x[0, 0] > .7, lambda: x), (x[0, 1] > .7, lambda: x * 2)], default=lambda: -x)


@op
def switch(x, z, b):
    return tf.switch_case(tf.constant(1), [lambda: x, lambda: 2 * x, lambda: 3 * x])


@op
def switch_sym(x, z, b):
    return tf.switch_case(tf.cast(b[0, 0], tf.int32), [lambda: x, lambda: 2 * x])


@op
def mapfn(x, z, b):
    return tf.map_fn(lambda r: r * r[0], x)


@op
def mapfn2(x, z, b):
    return tf.map_fn(lambda t: t[0] + tf.math.real(t[1]), (x, z), fn_output_signature=x.dtype)


@op
def vmap(x, z, b):
    return tf.vectorized_map(lambda r: tf.reduce_sum(r * r), x)


@op
def scan(x, z, b):
    return tf.scan(lambda a, r: a + r, x)


@op
def foldl(x, z, b):
    return tf.foldl(lambda a, r: a * r, x)


@op
def tarray(x, z, b):
    ta = tf.TensorArray(x.dtype, size=2)
    for i in tf.range(2):
        ta = ta.write(i, x[i] * tf.cast(i + 1, x.dtype))
    return ta.stack()


@op
def tarray_dyn(x, z, b):
    ta = tf.TensorArray(x.dtype, size=0, dynamic_size=True)
    for i in tf.range(2):
        ta = ta.write(i, x[i])
    return ta.concat()


@op
def while_(x, z, b):
    return tf.while_loop(lambda i, v: i < 3, lambda i, v: (i + 1, v * x), (tf.constant(0), x))[1]


@op
def while_py(x, z, b):
    v, i = x, tf.constant(0)
    while i < 3:
        v = v * 2 if i == 1 else v + x
        i += 1
    return v


@op
def break_(x, z, b):
    v = x
    for i in tf.range(5):
        if i == 2:
            break
        v = v + x
    return v


@op
def andloop(x, z, b):
    t = tf.constant(True)
    for row in b:
        t = tf.logical_and(t, tf.reduce_any(row))
    return t


@op
def itertensor(x, z, b):
    t = tf.zeros_like(x[0])
    for row in x:
        t += row
    return t


@op
def if_sym(x, z, b):
    if b[0, 0]:
        y = x
    else:
        y = 2 * x
    return y


@op
def early(x, z, b):
    if tf.reduce_any(b):
        return x
    return 2 * x


@op
def gradcustom(x, z, b):
    @tf.custom_gradient
    def f(v):
        return v * 2, lambda d: d
    return f(x)


@op
def switch_def(x, z, b):
    return tf.switch_case(tf.constant(7), {0: lambda: x}, default=lambda: 5 * x)


def make(name, f, graph):
    def fn(A):
        z, x, b = A.complexes('z', (2, 3)), A.reals('x', (2, 3), 0.05, 0.9), A.bools('b', (2, 3))
        from pySLM2 import BACKEND
        g = tf.function(f) if graph else f
        xt, zt, bt = tf.constant(x, dtype=BACKEND.dtype), tf.constant(z, dtype=BACKEND.dtype_complex), tf.constant(b)
        out = np.array(g(xt, zt, bt))
        A.eq(name, out, A.cells(out), defined=False)
    return fn


def cases(tier):
    return [dict(name='%s_%s' % (n, 'g' if g else 'e'), fn=make(n, f, g), cost=.2) for n, f in OPS.items() for g in (True, False)]
