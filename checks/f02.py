"""F02: Fourier transforms and smoothing of periodic fields."""
import math
from lib.harness import *
from pyhipp.io import h5
from pyhipp.field.cubic_box import FFTSmoothing, FourierSpaceSmoothing, Field, Mesh, _Gaussian, _Tophat
from pyhipp.field.cubic_box.fft import NdRealFFT, default_nd_real_fft

ck = Check('F02', 'Real fields on 1-9 cells a side (now and then up to 24) (random, single cells, plane waves, constants), boxes of 0.3-1000, smoothing scales from 1e-6 to the box, both kernels, with and without deconvolution; '
           'transforms of 1-3 dimensions with cropping, padding, axis subsets and norms. Non-trivial: a non-constant field on at least two cells.')
ns = grid_sizes(9, 24)
boxes = st.sampled_from([1., 8., .3, 100., 1000., 205.])
kinds = st.sampled_from(['normal', 'positive', 'cell', 'wave', 'const', 'ints'])
scales = st.sampled_from([1e-6, 1e-3, .02, .1, .3, 1., 2.5, 20.]) | st.floats(.01, .5)     # in boxes


def field(n, kind, bits, pos=False):
    r = rng_of(bits)
    if kind == 'normal':
        a = r.normal(size=(n, n, n))
    elif kind == 'positive':
        a = r.random((n, n, n)) + .01
    elif kind == 'cell':
        a = np.zeros((n, n, n))
        a[tuple(r.integers(0, n, 3))] = 3.
    elif kind == 'wave':
        k = r.integers(-n, n + 1, 3)
        x = np.stack(np.meshgrid(*[np.arange(n)] * 3, indexing='ij'))
        a = np.cos(2 * np.pi * (k[:, None, None, None] * x).sum(0) / n + r.random() * 6)
    elif kind == 'const':
        a = np.full((n, n, n), 2.5)
    else:
        a = r.integers(0, 9, (n, n, n)).astype(float)
    if pos:
        a = a - min(0, a.min()) + .5
    return a


def wavenumbers(n):
    k = np.fft.fftfreq(n, 1 / n)
    return np.stack(np.meshgrid(k, k, k, indexing='ij'))


def window(n, L, r, method):
    k = np.sqrt((wavenumbers(n) ** 2).sum(0)) * 2 * np.pi / L
    x = k * r
    if method == 'gaussian':
        return np.exp(-x ** 2 / 2), 1e-15
    xs = np.where(x < 1e-2, 1., x)
    w = np.where(x < 1e-2, 1 - x ** 2 / 10, 3 * (np.sin(xs) - xs * np.cos(xs)) / xs ** 3)
    return w, 1e-10


def cic_window(n):
    return np.prod(np.sinc(wavenumbers(n) / n) ** 2, 0)


@ck.test(examples=1200, shards=3, n=ns, L=boxes, kind=kinds, bits=bits64, r=scales, method=st.sampled_from(['gaussian', 'tophat']), shift=st.tuples(*[st.integers(-5, 5)] * 3), workers=st.sampled_from([None, 1, 2]),
         ab=st.tuples(st.floats(-3, 3), st.floats(-3, 3)), order=st.sampled_from(['C', 'F']))
def smoothing(n, L, kind, bits, r, method, shift, workers, ab, order):
    a = np.asarray(field(n, kind, bits), order=order)
    a0 = a.copy()
    mesh = Mesh.new(n, L)
    kw = dict(r_sm=r * L, method=method)
    if method == 'gaussian' and n % 2:
        kw.pop('method')        # the default
    if workers is not None:
        kw['n_workers'] = workers

    def sm(x, **k):
        return FFTSmoothing(**{**kw, **k}).run(Field.new_by_data(x, mesh))
    f = sm(a)
    eq_arr(a, a0, 'input changed')
    assert f.shape == (n, n, n) and f.mesh.l_box == L and f.mesh.n_grids == n
    S = np.abs(a).max() + 1e-30
    w, wt = window(n, L, r * L, method)
    want = np.fft.ifftn(np.fft.fftn(a) * w)
    tol = S * (1e-11 + wt * n ** 1.5)
    close(f.data, want.real, 0, tol, 'smoothed field')
    assert abs(f.data.mean() - a.mean()) <= S * 1e-11, 'the mean is not preserved'
    s = np.array(shift)
    close(sm(np.roll(a, s, (0, 1, 2))).data, np.roll(f.data, s, (0, 1, 2)), 0, tol, 'translation')
    close(sm(np.ascontiguousarray(a.transpose(2, 0, 1))).data, f.data.transpose(2, 0, 1), 0, tol, 'permutation of axes')
    b = field(n, 'normal', bits + 1)
    close(sm(ab[0] * a + ab[1] * b).data, ab[0] * f.data + ab[1] * sm(b).data, 0, 20 * tol + 1e-9 + wt * 40 * n, 'linearity')
    close(sm(a, r_sm=1e-8 * L, method='tophat').data, a, 0, 1e-9 * S, 'identity at vanishing scale (top-hat)')
    if method == 'gaussian':
        q = .07 * L
        close(sm(sm(a).data, r_sm=q).data, sm(a, r_sm=math.hypot(r * L, q)).data, 0, 1e-10 * S, 'successive smoothings add in quadrature')
    close(sm(a, r_sm=1e-9 * L).data, a, 0, 1e-9 * S, 'identity at vanishing scale')
    raises(ValueError, sm, a, method='boxcar')
    return n > 1 and kind != 'const' and np.ptp(a) > 0


@ck.test(examples=1200, shards=3, n=ns, L=boxes, kind=kinds, bits=bits64, r=scales, method=st.sampled_from(['gaussian', 'tophat']), shift=st.tuples(*[st.integers(-5, 5)] * 3), c=st.sampled_from([1., 1e-3, 1e6, 7.]), order=st.sampled_from('CF'))
def deconvolved(n, L, kind, bits, r, method, shift, c, order):
    a = np.asarray(field(n, kind, bits, pos=True) * c, order=order)
    a0 = a.copy()
    mesh = Mesh.new(n, L)

    def sm(x, **k):
        return FourierSpaceSmoothing(**{**dict(r_sm=r * L, method=method), **k}).run(Field.new_by_data(x, mesh))
    f = sm(a)
    eq_arr(a, a0, 'input changed'), eq_arr(f.rho_x, a0)
    assert f.l_box == L and f.n_grids == n
    d = a / a.mean() - 1
    S = np.abs(d).max() + 1.
    close(f.delta_x, d, 0, 1e-12 * S, 'overdensity')
    w, wt = window(n, L, r * L, method)
    h = n // 2 + 1
    dk = np.fft.fftn(d, norm='ortho')
    close(np.abs(f.delta_k - dk[..., :h]), np.zeros((n, n, h)), 0, 1e-11 * S * n ** 1.5, 'Fourier modes')
    W = w / cic_window(n)
    tol = S * n ** 1.5 * (1e-10 + 20 * wt)
    close(np.abs(f.delta_sm_k - (dk * W)[..., :h]), np.zeros((n, n, h)), 0, tol, 'smoothed modes')
    close(f.delta_sm_x, np.fft.ifftn(dk * W, norm='ortho').real, 0, tol, 'smoothed overdensity')
    assert abs(f.delta_sm_x.mean()) <= 1e-11 * S
    s = np.array(shift)
    g = sm(np.roll(a, s, (0, 1, 2)))
    close(g.delta_sm_x, np.roll(f.delta_sm_x, s, (0, 1, 2)), 0, tol, 'translation')
    close(sm(a * 37.).delta_sm_x, f.delta_sm_x, 0, tol, 'normalisation of the density')
    close(sm(np.ascontiguousarray(a.transpose(1, 2, 0))).delta_sm_x, f.delta_sm_x.transpose(1, 2, 0), 0, tol, 'permutation of axes')
    raises(ValueError, sm, a, method='boxcar'), raises(ValueError, sm, np.zeros_like(a)), raises(ValueError, sm, -a)
    dflt = FourierSpaceSmoothing().run(Field.new_by_data(a, mesh))
    eq_arr(dflt.delta_sm_x, sm(a, r_sm=1., method='gaussian').delta_sm_x, 'unit Gaussian by default')
    if bits % 8 == 0:
        with scratch() as dr, h5.File(f'{dr}/r.hdf5', 'w') as fl:
            f.dump(fl)
            got = fl.load()
            assert set(got.keys()) == {'l_box', 'n_grids', 'rho_x', 'delta_x', 'delta_k', 'delta_sm_k', 'delta_sm_x'}
            for k in got.keys():
                eq_arr(got[k], getattr(f, k), k)
            raises((ValueError, OSError), f.dump, fl)
            f.dump(fl, flag='ac')
    return n > 1 and np.ptp(a) > 0


@ck.test(examples=1000, n=ns, L=boxes, r=scales, k=st.lists(st.integers(-8, 8) | st.floats(-8, 8), min_size=1, max_size=4))
def kernels(n, L, r, k):
    m = Mesh.new(n, L)._impl
    R = r * L
    kv = np.array(k, dtype=float)
    x = math.sqrt(sum(v * v for v in k)) * 2 * math.pi * r
    g, t = _Gaussian(R, m), _Tophat(R, m)
    close(g.window_at_ki(kv), math.exp(-x * x / 2), 1e-10, 1e-300)
    want = 1 - x ** 2 / 10 + x ** 4 / 280 if x < .05 else 3 * (math.sin(x) - x * math.cos(x)) / x ** 3
    close(t.window_at_ki(kv), want, 1e-9, 1e-10, 'top-hat window')
    assert g.window_at_ki(0 * kv) == 1. == t.window_at_ki(0 * kv)
    for w in (g, t):
        close(w.window_at_ki(-kv), w.window_at_ki(kv), 1e-14, msg='even')
        close(w.window_at_ki(kv[::-1].copy()), w.window_at_ki(kv), 1e-12, 1e-10, msg='isotropic')
    close(g.volume(), (2 * math.pi) ** 1.5 * R ** 3, 1e-12), close(t.volume(), 4 / 3 * math.pi * R ** 3, 1e-12)
    return x > 0


@ck.test(examples=1500, shape=st.lists(st.integers(1, 7), min_size=1, max_size=3), bits=bits64, norm=st.sampled_from([None, 'ortho', 'forward', 'backward']), axsel=st.none() | bits64, crop=st.none() | bits64,
         workers=st.sampled_from([None, 1, 2, -1]), ow=st.booleans(), ff=st.booleans())
def transforms(shape, bits, norm, axsel, crop, workers, ow, ff):
    nd = len(shape)
    x = rng_of(bits).normal(size=shape)
    if ff:
        x = np.asfortranarray(x)
    axes = None
    if axsel is not None:
        r = rng_of(axsel)
        axes = tuple(int(v) - (nd if r.random() < .3 else 0) for v in r.permutation(nd)[:r.integers(1, nd + 1)])
    ax = tuple(range(nd)) if axes is None else axes
    full = tuple(shape[a] for a in ax)
    s = full
    if crop is not None:
        s = tuple(int(v) for v in rng_of(crop).integers(1, 8, len(ax)))
    t = NdRealFFT(shape=s, axes=axes, norm=norm, n_workers=workers, overwrite_input=ow)
    y = t.forward(x.copy())
    # direct transform of the cropped or padded array
    z = x
    for a, m in zip(ax, s):
        z = np.take(z, np.arange(min(m, z.shape[a])), a)
        pad = [(0, 0)] * nd
        pad[a] = (0, m - z.shape[a])
        z = np.pad(z, pad)
    z0 = z.copy()
    for i, a in enumerate(ax):
        m = s[i]
        F = np.exp(-2j * np.pi * np.outer(np.arange(m), np.arange(m)) / m) * {None: 1, 'backward': 1, 'ortho': m ** -.5, 'forward': 1 / m}[norm]
        z = np.moveaxis(np.tensordot(F, z, (1, a)), 0, a)
    z = np.take(z, np.arange(s[-1] // 2 + 1), ax[-1])
    close(np.abs(y - z), np.zeros(z.shape), 0, 1e-11, 'forward transform')
    b = t.backward(y.copy())
    close(b, z0, 0, 1e-11, 'backward(forward)')
    # any spectrum is cropped or padded to the shape first
    r = rng_of(bits + 1)
    sh = list(shape)
    for a in ax:
        sh[a] = int(r.integers(1, 8))
    Y = r.normal(size=sh) + 1j * r.normal(size=sh)
    Yc = Y
    for a, m in zip(ax, s[:-1] + (s[-1] // 2 + 1,)):
        Yc = np.take(Yc, np.arange(min(m, Yc.shape[a])), a)
        pad = [(0, 0)] * nd
        pad[a] = (0, m - Yc.shape[a])
        Yc = np.pad(Yc, pad)
    g, want = t.backward(Y.copy()), t.backward(Yc.copy())
    assert g.shape == z0.shape
    close(g, want, 0, 1e-11, 'a spectrum of another size')
    if crop is None:
        close(b, x, 0, 1e-11)
        d = NdRealFFT(axes=axes, norm=norm)
        xc = x.copy()
        y2 = d.forward(xc)
        eq_arr(xc, x, 'input changed')
        close(np.abs(y2 - y), np.zeros(y.shape), 0, 1e-12, 'default shape')
        if s[-1] % 2 == 0:
            yc = y2.copy()
            close(d.backward(y2), x, 0, 1e-11, 'even sizes need no shape')
            eq_arr(y2, yc, 'modes changed')
        if axes is None and norm is None:
            eq_arr(default_nd_real_fft.forward(x), y2)
    return int(np.prod(s)) > 1


def _warm():
    m = Mesh.new(2, 1.)
    f = Field.new_by_data(np.ones((2, 2, 2)), m)
    for me in ('gaussian', 'tophat'):
        FFTSmoothing(method=me).run(f), FourierSpaceSmoothing(method=me).run(f)
    for c in (_Gaussian, _Tophat):
        c(1., m._impl).window_at_ki(np.ones(2)), c(1., m._impl).volume()
    FFTSmoothing().run(Field.new_by_data(np.ones((2, 2, 2), order='F'), m)); FourierSpaceSmoothing().run(Field.new_by_data(np.ones((2, 2, 2), order='F'), m))


try:
    _warm()
except Exception:
    pass
