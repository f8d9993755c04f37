"""F03: the tidal field."""
import math
from lib.harness import *
from pyhipp.io import h5
from pyhipp.field.cubic_box import TidalField, Field, Mesh
from checks.f02 import field, wavenumbers, cic_window

ck = Check('F03', 'Positive density fields on 1-8 cells a side (now and then up to 20) (random, single cells, plane waves, smooth, constant), boxes of 0.3-1000, smoothing scales from zero to half the box, with and without deconvolution; '
           'translations, permutations and reflections. Non-trivial: a non-constant field on at least two cells a side.')
ns = grid_sizes(8, 20)
PAIRS = [(i, j) for i in range(3) for j in range(3)]


def nyq(n):
    return (np.abs(wavenumbers(n) * 2) == n).any(0) if n % 2 == 0 else np.zeros((n, n, n), bool)


def denyq(a):
    """Remove the modes at half the sampling rate, where the sign of a wavenumber is ambiguous."""
    n = len(a)
    k = np.fft.fftn(a)
    k[nyq(n)] = 0
    r = np.fft.ifftn(k).real
    return r - min(0., r.min()) + 1.


@ck.test(examples=1500, shards=4, n=ns, L=st.sampled_from([1., 8., .3, 100., 1000.]), kind=st.sampled_from(['normal', 'positive', 'cell', 'wave', 'const', 'ints']), bits=bits64,
         r=st.sampled_from([0., 1e-3, .05, .1, .5]) | st.floats(0, .4), corr=st.sampled_from(['default', 'cic', False]), shift=st.tuples(*[st.integers(-5, 5)] * 3), perm=st.permutations([0, 1, 2]),
         flip=st.tuples(st.booleans(), st.booleans(), st.booleans()), c=st.sampled_from([1., 1e-3, 1e6]), workers=st.sampled_from([None, 1, 2]), smooth=st.booleans(), order=st.sampled_from('CF'))
def tidal(n, L, kind, bits, r, corr, shift, perm, flip, c, workers, smooth, order):
    a = field(n, kind, bits, pos=True)
    if smooth:
        a = denyq(a)
    a = np.asarray(a * c, order=order)
    a0 = a.copy()
    mesh = Mesh.new(n, L)
    kw = dict(r_sm=r * L)
    if corr != 'default':
        kw['correct_shape'] = corr
    if workers:
        kw['n_workers'] = workers

    def run(x, **k):
        return TidalField(**{**kw, **k}).run(Field.new_by_data(x if x is a else np.ascontiguousarray(x), mesh))
    f = run(a)
    eq_arr(a, a0, 'input changed'), eq_arr(f.rho_x, a0)
    assert f.l_box == L and f.n_grids == n
    d = a / a.mean() - 1
    S = (np.abs(d).max() + .1) * 20
    tol = 2e-11 * S
    close(f.delta_x, d, 0, tol, 'overdensity')
    k = wavenumbers(n)
    k2 = (k ** 2).sum(0)
    W = np.exp(-k2 * (2 * np.pi * r) ** 2 / 2) / (1 if corr is False else cic_window(n))
    dk = np.fft.fftn(d, norm='ortho') * W
    h = n // 2 + 1
    q = n ** 1.5
    close(np.abs(f.delta_sm_k - dk[..., :h]), np.zeros((n, n, h)), 0, tol * q, 'smoothed modes')
    close(np.abs(f.delta_k - np.fft.fftn(d, norm='ortho')[..., :h]), np.zeros((n, n, h)), 0, tol * q, 'modes')
    ds = np.fft.ifftn(dk, norm='ortho').real
    close(f.delta_sm_x, ds, 0, tol, 'smoothed overdensity')
    k2s = np.where(k2 == 0, 1, k2)
    pk = -dk / k2s * (k2 > 0)
    close(np.abs(f.phi_k - pk[..., :h]), np.zeros((n, n, h)), 0, tol * q, 'potential modes')
    T, lam = f.T_x, f.lam
    assert T.shape == (n, n, n, 3, 3) and lam.shape == (n, n, n, 3)
    eq_arr(T, np.swapaxes(T, -1, -2), 'not symmetric')
    assert (np.abs(T.mean((0, 1, 2))) <= tol).all(), 'mean of the tidal field'
    bad = nyq(n)
    for i, j in PAIRS:
        tk = np.fft.fftn(T[..., i, j], norm='ortho')
        want = dk * k[i] * k[j] / k2s * (k2 > 0)
        ok = np.ones((n, n, n), bool) if i == j else ~bad
        close(np.abs(tk - want)[ok], np.zeros(ok.sum()), 0, tol * q, f'tensor component {i}{j}')
        assert (np.abs(tk) <= np.abs(want) + tol * q)[bad].all(), f'component {i}{j} at the sampling limit'
    tr = np.trace(T, axis1=-2, axis2=-1)
    close(tr, f.delta_sm_x - f.delta_sm_x.mean(), 0, tol, 'trace')
    # eigenvalues
    assert (np.diff(lam, axis=-1) >= 0).all(), 'eigenvalues are not sorted'
    close(lam.sum(-1), tr, 0, tol, 'sum of eigenvalues')
    close((lam ** 2).sum(-1), (T ** 2).sum((-1, -2)), 1e-9, tol * S, 'sum of squared eigenvalues')
    close(lam.prod(-1), np.linalg.det(T), 1e-6, tol * S ** 2, 'determinant')
    I = np.eye(3)
    for e in range(3):      # each is a root of the characteristic polynomial
        det = np.linalg.det(T - lam[..., e, None, None] * I)
        assert (np.abs(det) <= tol * S ** 2).all(), 'not an eigenvalue'
    # symmetries
    s = np.array(shift)
    g = run(np.roll(a, s, (0, 1, 2)))
    close(g.T_x, np.roll(T, s, (0, 1, 2)), 0, tol * 10, 'translation')
    close(run(a * 9.).T_x, T, 0, tol * 10, 'normalisation of the density')
    if smooth or n % 2:
        g = run(a.transpose(perm))
        close(g.T_x, T.transpose(*perm, 3, 4)[..., perm, :][..., perm], 0, tol * 10, 'permutation of the axes')
        idx = [(-np.arange(n)) % n if v else np.arange(n) for v in flip]
        g = run(a[np.ix_(*idx)])
        sg = np.array([-1. if v else 1. for v in flip])
        close(g.T_x, T[np.ix_(*idx)] * sg[:, None] * sg, 0, tol * 10, 'reflection')
    raises(ValueError, run, np.zeros_like(a)), raises(ValueError, run, -a, msg="no positive mean"), raises(AssertionError, TidalField, correct_shape='ngp')
    if bits % 16 == 0:
        with scratch() as dr, h5.File(f'{dr}/r.hdf5', 'w') as fl:
            f.dump(fl)
            got = fl.load()
            assert set(got.keys()) == {'l_box', 'n_grids', 'rho_x', 'delta_x', 'delta_k', 'delta_sm_k', 'delta_sm_x', 'phi_k', 'T_x', 'lam'}
            for key in got.keys():
                eq_arr(got[key], getattr(f, key), key)
            raises((ValueError, OSError), f.dump, fl)
            f.dump(fl, flag='ac')
    dflt = TidalField().run(Field.new_by_data(a, mesh))
    eq_arr(dflt.T_x, run(a, r_sm=1., correct_shape='cic').T_x, 'defaults')
    return n > 1 and np.ptp(a) > 0


@ck.test(examples=400, n=st.integers(3, 10), k=st.tuples(*[st.integers(-2, 2) | st.integers(-4, 4)] * 3), ph=st.floats(0, 6.28), amp=st.floats(.01, .9), L=st.sampled_from([1., 50.]), r=st.floats(0, .2))
def plane_wave(n, k, ph, amp, L, r):
    """One plane wave has the rank-one tidal tensor k k / k^2 times itself."""
    kv = np.array(k)
    if not kv.any() or (np.abs(kv) * 2 >= n).any():
        return False
    x = np.stack(np.meshgrid(*[np.arange(n)] * 3, indexing='ij'))
    w = amp * np.cos(2 * np.pi * (kv[:, None, None, None] * x).sum(0) / n + ph)
    f = TidalField(r_sm=r * L, correct_shape=False).run(Field.new_by_data(1 + w, Mesh.new(n, L)))
    A = math.exp(-(2 * np.pi * r) ** 2 * float(kv @ kv) / 2)
    want = A * w[..., None, None] * np.outer(kv, kv) / float(kv @ kv)
    close(f.T_x, want, 0, 1e-11, 'plane wave')
    close(f.lam[..., 2], np.maximum(A * w, 0), 0, 1e-10), close(f.lam[..., 0], np.minimum(A * w, 0), 0, 1e-10), close(f.lam[..., 1], 0 * w, 0, 1e-10)
    return True


def _warm():
    f = Field.new_by_data(np.ones((2, 2, 2)), Mesh.new(2, 1.))
    TidalField().run(f), TidalField(correct_shape=False).run(f)
    TidalField().run(Field.new_by_data(np.ones((2, 2, 2), order='F'), Mesh.new(2, 1.)))


try:
    _warm()
except Exception:
    pass
