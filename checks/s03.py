"""S03: nearest-neighbour and local-kernel regression."""
import math
from lib.harness import *
from pyhipp.stats import KernelRegressionND, KernelRegression1D, _KnnRegression, Count, Sum, Mean, StdDev, Median, Quantile, Errorbar
from pyhipp.stats.regression import _LocalKernelRegression
from pyhipp.stats.kernel import Gaussian, Tophat, predefined as kernels
from checks.s02 import wmean, wsd, qtl, wqtl, PRE

ck = Check('S03', 'Sample sets of 1-24 points in 1-3 dimensions (clustered, spread, on a lattice), with values, optional weights, kernels (by name, width, pair or '
           'object), neighbour counts and radii; queries inside, far away and on samples. Non-trivial: neighbours with unequal weights, or a query '
           'with fewer neighbours than another one.',
           assumptions=['cases whose neighbour set is ambiguous to rounding (ties in distance, samples exactly on the radius) are left out',
                        'total kernel weight is positive, as weighted averages require'])
cfg = st.tuples(st.integers(1, 3), st.integers(1, 24), st.sampled_from(['uniform', 'cluster', 'lattice']), bits64)
reds = st.sampled_from([['mean'], ['count'], ['sum'], ['std_dev'], ['median'], ['errorbar'], ['mean', 'count', 'sd'], [('quantile', {'ps': [.25, .75]}), 'sum'],
                        ['errorbar', 'count'], [('mean', {'empty_fill': -7.})], 'obj', 'str', 'pair', [('quantile', {'ps': [.1]}), ('quantile', {'ps': [.9, .5]})], ['mean', ('mean', {'empty_fill': 3.}), 'sum'], ['count', 'mean', 'sum', 'median', 'sd', 'errorbar', ('quantile', {'ps': [.5]})], [('errorbar', {'reduce': 'mean+sd'}), 'median']])
kern = pick(st.none(), st.tuples(st.sampled_from(['gaussian', 'tophat', 'scalar', 'default', 'obj']), st.floats(.2, 3.)))


def points(c, m, extra=0):
    d, n, kind, s = c
    g = rng_of(s + extra)
    if kind == 'lattice':
        x = g.integers(-4, 5, (n, d)) / 2. + g.uniform(-1e-3, 1e-3, (n, d))
    elif kind == 'cluster':
        x = g.normal(size=(n, d)) * .2 + g.integers(0, 2, (n, 1)) * 2.
    else:
        x = g.uniform(-2, 2, (n, d))
    q = g.uniform(-3, 3, (m, d))
    for i in range(m):
        k = g.integers(0, 5)
        if k == 0:
            q[i] = x[g.integers(n)]
        elif k == 1:
            q[i] += 100.
        elif k == 2:
            q[i] = x[g.integers(n)] + g.normal(size=d) * .1
    return x, q


def mk_kernel(k):
    """-> spec to pass, reference function of distance"""
    if k is None:
        return None, None
    t, v = k
    ga = lambda s: lambda d: math.exp(-d * d / (2 * s * s))  # noqa
    th = lambda r: lambda d: 1. if d < r else 0.  # noqa
    return {'gaussian': (('gaussian', {'sigma': v}), ga(v)), 'tophat': (('tophat', {'radius': v + 1}), th(v + 1)), 'scalar': (v, ga(v)),
            'default': ('gaussian' if v < 1.5 else 'tophat', ga(1.) if v < 1.5 else th(1.)), 'obj': (Gaussian(v) if v < 1.5 else Tophat(v), ga(v) if v < 1.5 else th(v))}[t]


def mk_reduce(r):
    if r == 'obj':
        return Median(), [('median', {})]
    if r == 'str':
        return 'mean', [('mean', {})]
    if r == 'pair':
        return ('sum', {}), [('sum', {})]
    return r, [x if isinstance(x, tuple) else (x, {}) for x in r]


def as_form(r, form):
    """Any iterable of reductions is documented to do (a tuple, though, is one reduction with its options)."""
    return r if not isinstance(r, list) or form == 'as' else iter(r)


def ref_reduce(name, kw, ys, ws, n_all=None):
    f = kw.get('empty_fill', -1e10)
    if name in ('count',):
        return float(len(ys))
    if name == 'sum':
        return math.fsum(a * b for a, b in zip(ys, ws or [1.] * len(ys)))
    if name == 'mean':
        return wmean(ys, ws) if ys else f
    if name in ('std_dev', 'sd'):
        return wsd(ys, ws) if ys else f
    q = (lambda p: qtl(ys, p) if ws is None else wqtl(ys, ws, p))
    if name == 'median':
        return q(.5) if ys else f
    if name == 'quantile':
        return [q(p) if ys else f for p in kw['ps']]
    if kw.get('reduce') == 'mean+sd':
        m, s = (wmean(ys, ws), wsd(ys, ws)) if ys else (f, f)
        return [m, s, s]
    if not ys:
        return [f, None, None]
    a, b, c = (q(p) for p in PRE['median+1sigma'])
    return [b, b - a, c - b]


def dists(x, q):
    return [[math.dist(a, b) for b in x] for a in q]


def compare(out, specs, nb, y, w, kf, dd, scale, k_all=None):
    """nb: per query, the neighbour ids"""
    assert len(out['y']) == len(specs), 'one prediction per reduction'
    for j, (name, kw) in enumerate(specs):
        got = np.asarray(out['y'][j], dtype=float)
        g2 = np.asarray(out[f'y_{name}'], dtype=float)
        if [n for n, _ in specs][j + 1:].count(name) == 0:      # the last of a name
            eq_arr(g2, got, 'by name')
        assert len(got) == len(nb)
        for i, ids in enumerate(nb):
            ws = None
            if w is not None or kf is not None:
                ws = [(1. if w is None else float(w[t])) * (1. if kf is None else kf(dd[i][t])) for t in ids]
            if ws and min(ws) < 1e-6 * max(ws) and name in ('median', 'quantile', 'errorbar') and kw.get('reduce') != 'mean+sd':
                continue        # (a sample without weight makes the weighted quantile ambiguous)
            ref = ref_reduce(name, kw, [float(y[t]) for t in ids], ws)
            r = np.atleast_1d(np.array(ref, dtype=object))
            g = np.atleast_1d(got[i])
            assert g.shape == r.shape, f'{name}: {g} {r}'
            for a, b in zip(g, r):
                if b is not None:
                    if name in ('std_dev', 'sd') or kw.get('reduce') == 'mean+sd':
                        close(max(a, -1e10) ** 2 if a > 0 else a * abs(a), b * abs(b), 1e-7, 1e-9 * scale, f'{name} at query {i}')
                    else:
                        close(a, b, 1e-7, 1e-9 * scale, f'{name} at query {i} over {ids}')


def distinct_y(y):
    return len(set(np.asarray(y).tolist())) == len(y)


args = dict(c=cfg, m=st.integers(1, 6), r=reds, k=kern, wb=st.none() | bits64, max_dx=pick(st.none(), (2, pick((6, st.floats(.1, 3.)), st.sampled_from([1e-3, 0.])))), flat=st.booleans(), intw=st.booleans(),
            api=st.sampled_from(['nd', '1d', 'class']), const=st.sampled_from([None, None, None, 3.5]), form=st.sampled_from(['as', 'as', 'iter']))


def setup(c, m, r, k, wb, flat, intw, const):
    x, q = points(c, m)
    g = rng_of(c[3] + 77)
    y = g.normal(size=len(x)).round(4) + np.arange(len(x)) * 1e-5
    if const is not None:
        y[:] = const
    w = None if wb is None else (rng_of(wb).integers(1, 6, len(x)) if intw else rng_of(wb).uniform(.1, 3., len(x)))
    kspec, kf = mk_kernel(k)
    rspec, specs = mk_reduce(r)
    xa, qa = (x[:, 0], q[:, 0]) if flat and c[0] == 1 else (x, q)
    return x, q, xa, qa, y, w, kspec, kf, rspec, specs


def check_equal(out, q):
    eq_arr(out['x'], q, 'queries are returned')


@ck.test(examples=2500, shards=3, kk=st.integers(1, 24), leaf=st.sampled_from([None, 1, 5]), **args)
def knn(c, m, r, k, wb, max_dx, flat, intw, api, const, form, kk, leaf):
    x, q, xa, qa, y, w, kspec, kf, rspec, specs = setup(c, m, r, k, wb, flat, intw, const)
    kk = 1 + kk % len(x)
    dd = dists(x, q)
    nb = []
    for d in dd:
        o = sorted(range(len(x)), key=lambda t: d[t])
        if kk < len(x) and d[o[kk]] - d[o[kk - 1]] < 1e-7 * (1 + d[o[kk]]):
            return False
        ids = o[:kk]
        if max_dx is not None:
            if any(abs(d[t] - max_dx) < 1e-7 for t in ids):
                return False
            ids = [t for t in ids if d[t] < max_dx]
        if kf is not None and ids and (sum(kf(d[t]) for t in ids) < 1e-250 or any(abs(d[t] - (k[1] + 1 if k[0] == 'tophat' else k[1] if k[0] == 'obj' else 1.)) < 1e-7 for t in ids)):
            return False
        nb.append(ids)
    ikw = {} if leaf is None else dict(leaf_size=leaf)
    x0, y0, q0 = xa.copy(), y.copy(), qa.copy()
    kw = dict(reduce=as_form(rspec, form), k=kk, max_dx=max_dx, kernel=kspec)
    if api == 'class':
        f = _KnnRegression(ikw).fit(xa, y, w)
        out = f(qa, **kw)
        y[:] = 1e9      # the fit does not depend on later changes to the caller's values
        if w is not None:
            w0 = w.copy()
            w[:] = 0
        out2 = f(qa, **{**kw, 'reduce': as_form(rspec, form)})
        y[:] = y0
        if w is not None:
            w[:] = w0
        for a, b in zip(out['y'], out2['y']):
            eq_arr(a, b, 'repeated prediction')
    else:
        fn = (KernelRegression1D if api == '1d' else KernelRegressionND).by_knn
        out = fn(xa, y, qa, weight=w, impl_kw=ikw, **kw)
    check_equal(out, q)
    eq_arr(xa, x0), eq_arr(y, y0), eq_arr(qa, q0)
    compare(out, specs, nb, y, w, kf, dd, 1 + np.abs(y).max() * (1 + (0 if w is None else w.sum()) + len(y)))
    if const is not None and 'mean' in [n for n, _ in specs] and min(map(len, nb)):
        close(out['y_mean'], np.full(m, const), 1e-12, msg='constant data')
    return len({len(i) for i in nb}) > 1 or (kk > 1 and (w is not None or kf is not None))


@ck.test(examples=2500, shards=3, **args)
def local(c, m, r, k, wb, max_dx, flat, intw, api, const, form):
    x, q, xa, qa, y, w, kspec, kf, rspec, specs = setup(c, m, r, k, wb, flat, intw, const)
    R = max_dx if max_dx is not None else float(np.mean([np.std(q[:, j]) for j in range(c[0])])) / 10.
    dd = dists(x, q)
    nb = []
    for d in dd:
        if any(abs(v - R) < 1e-7 for v in d):
            return False
        ids = [t for t in range(len(x)) if d[t] < R]
        if kf is not None and ids and (sum(kf(d[t]) for t in ids) < 1e-250 or any(abs(d[t] - (k[1] + 1 if k[0] == 'tophat' else k[1] if k[0] == 'obj' else 1.)) < 1e-7 for t in ids)):
            return False
        nb.append(ids)
    x0, y0, q0 = xa.copy(), y.copy(), qa.copy()
    kw = dict(reduce=as_form(rspec, form), kernel=kspec)
    if max_dx is not None:
        kw['max_dx'] = max_dx
    if api == 'class':
        out = _LocalKernelRegression().fit(xa, y, w)(qa, **kw)
    else:
        out = (KernelRegression1D if api == '1d' else KernelRegressionND).by_local_kernel(xa, y, qa, weight=w, **kw)
    check_equal(out, q)
    eq_arr(xa, x0), eq_arr(y, y0), eq_arr(qa, q0)
    compare(out, specs, nb, y, w, kf, dd, 1 + np.abs(y).max() * (1 + (0 if w is None else w.sum()) + len(y)))
    if const is not None and 'mean' in [n for n, _ in specs] and min(map(len, nb)):
        close(out['y_mean'], np.full(m, const), 1e-12, msg='constant data')
    return len({len(i) for i in nb}) > 1 or (max(map(len, nb)) > 1 and (w is not None or kf is not None))


@ck.test(examples=800, c=cfg, m=st.integers(1, 4), which=st.sampled_from(['knn', 'local']), k=kern, wb=st.none() | bits64, kk=st.integers(1, 24), max_dx=st.floats(.3, 3.),
         shift=st.floats(-20, 20), scale=st.sampled_from([.25, 2., 10.]), a=st.floats(-3, 3))
def metamorphic(c, m, which, k, wb, kk, max_dx, shift, scale, a):
    """Order of samples, common shift, joint rescaling of coordinates, radius and kernel width; linearity in the values."""
    x, q, xa, qa, y, w, kspec, kf, _, _ = setup(c, m, 'str', None if k is None else ('gaussian', k[1]), wb, False, False, None)
    kk = 1 + kk % len(x)
    g = rng_of(c[3] + 5)
    p = g.permutation(len(x))
    dd = np.array(dists(x, q))
    s = np.sort(dd, 1)
    if (np.abs(dd - max_dx) < 1e-6).any() or (kk < len(x) and (s[:, kk] - s[:, kk - 1] < 1e-6 * (1 + s[:, kk])).any()):
        return False
    if k is not None and (np.exp(-.5 * (s[:, 0] / k[1]) ** 2)).min() < 1e-3:
        return False
    if which == 'local' and (s[:, 0] > max_dx).any() or which == 'knn' and (s[:, 0] > max_dx).any():
        return False

    def run(x, y, q, w, f=1.):
        kw = dict(weight=w, max_dx=max_dx * f, kernel=None if k is None else ('gaussian', {'sigma': k[1] * f}))
        return KernelRegressionND.by_knn(x, y, q, k=kk, **kw)['y_mean'] if which == 'knn' else KernelRegressionND.by_local_kernel(x, y, q, **kw)['y_mean']
    base = run(x, y, q, w)
    close(run(x[p], y[p], q, None if w is None else w[p]), base, 1e-9, 1e-11, 'order of samples')
    close(run(x + shift, y, q + shift, w), base, 1e-6, 1e-8, 'common shift')
    close(run(x * scale, y, q * scale, w, scale), base, 1e-6, 1e-8, 'rescaled coordinates')
    z = g.normal(size=len(x))
    close(run(x, y + a * z, q, w), base + a * run(x, z, q, w), 1e-9, 1e-10, 'linear in the values')
    o = g.permutation(m)
    close(run(x, y, q[o], w), base[o], 1e-12, 1e-13, 'queries are independent')
    return len(x) > 2


@ck.test(examples=800, c=cfg, m=st.integers(1, 5), kk=st.integers(1, 24), max_dx=st.none() | st.floats(.2, 3.) | st.just(0.), k=kern, wb=st.none() | bits64, mb=bits64, mc=st.sampled_from([0, 1, 2, 3, 10]))
def masked_fraction(c, m, kk, max_dx, k, wb, mb, mc):
    x, q, xa, qa, y, w, kspec, kf, _, _ = setup(c, m, 'str', None if k is None else ('gaussian', k[1]), wb, False, True, None)
    kk = 1 + kk % len(x)
    mask = bool_array(mb, (len(x),))
    dd = dists(x, q)
    want, bad = [], []
    for d in dd:
        o = sorted(range(len(x)), key=lambda t: d[t])
        if kk < len(x) and d[o[kk]] - d[o[kk - 1]] < 1e-7 * (1 + d[o[kk]]):
            return False
        ids = o[:kk]
        if max_dx is not None:
            if any(abs(d[t] - max_dx) < 1e-7 for t in ids):
                return False
            ids = [t for t in ids if d[t] < max_dx]
        ws = [(1. if w is None else float(w[t])) * (1. if kf is None else kf(d[t])) for t in ids]
        if ids and sum(ws) < 1e-6:
            return False
        want.append(math.fsum(v for v, t in zip(ws, ids) if mask[t]) / sum(ws) if ids else 0.)
        bad.append(len(ids) < mc)
    res = KernelRegressionND.masked_fraction_by_knn(x, mask, q, k=kk, max_dx=max_dx, kernel=kspec, weight=w, min_count=mc)
    close(res.values, want, 1e-9, 1e-12, 'fraction')
    eq_arr(res.invalid, np.array(bad), "invalid")
    eq_arr(np.ma.getmaskarray(res.values_ma), np.array(bad), 'mask')
    eq_arr(np.ma.getdata(res.values_ma), res.values)
    return 0 < mask.sum() < len(x)


TX = ['f4', 'i8', 'i4', 'i1', 'u1', 'u4', '>f8', 'F', 'strided', 'list', 'frame']


def as_type(a, t):
    """The same (small, non-negative, integral) numbers in another form."""
    if t == 'F':
        return np.asfortranarray(a)
    if t == 'strided':
        b = np.zeros(tuple(2 * k for k in a.shape))
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if t == 'list':
        return a.tolist()
    if t == 'frame':
        return a.astype(int)
    return a.astype(t)


@ck.test(examples=900, d=st.integers(1, 3), n=st.integers(1, 20), m=st.integers(1, 5), s=bits64, tx=st.sampled_from(TX), ty=st.sampled_from(TX), tq=st.sampled_from(TX), tw=st.none() | st.sampled_from(TX[:7]),
         which=st.sampled_from(['knn', 'local', 'mask']), red=st.sampled_from(['mean', 'sum', 'count', 'median', 'std_dev', 'errorbar', ['mean', 'sum', ('quantile', {'ps': [.25, .5]})]]), k=st.integers(1, 20), max_dx=st.sampled_from([None, .75, 2.5]), kern_=st.sampled_from([None, 2., 2, ('tophat', {'radius': 3})]))
def number_types(d, n, m, s, tx, ty, tq, tw, which, red, k, max_dx, kern_):
    """Samples, values, weights and queries of other numeric types and layouts."""
    g = rng_of(s)
    x, y, q = g.integers(0, 6, (n, d)).astype(float), g.integers(0, 100, n).astype(float), g.integers(0, 6, (m, d)).astype(float)
    w = None if tw is None else g.integers(1, 100, n).astype(float) / (8. if np.dtype('f8' if tw in ('F', 'strided') else tw).kind == 'f' else 1.)
    k = 1 + k % n
    if which == 'local' and max_dx is None:
        max_dx = 1.5
    if kern_ is not None and (max_dx is None or max_dx > 3):
        kern_ = 2.
    if which != 'mask':
        f = KernelRegressionND.by_knn if which == 'knn' else KernelRegressionND.by_local_kernel
        kw = dict(max_dx=max_dx, reduce=red, kernel=kern_, **({'k': k} if which == 'knn' else {}))
        ref = f(x, y, q, weight=w, **kw)
        got = f(as_type(x, tx), as_type(y, ty), as_type(q, tq), weight=None if w is None else as_type(w, tw), **kw)
        if which == 'knn':
            K2 = np.int32(k)
            eq_arr(np.asarray(f(x, y, q, weight=w, **{**kw, 'k': K2})['y'][0]), np.asarray(ref['y'][0]), 'k of another type')
        assert len(got['y']) == len(ref['y'])
        for a, b in zip(got['y'], ref['y']):
            close(np.asarray(a, float), np.asarray(b, float), 1e-4, 1e-3, f'types {tx}, {ty}, {tq}, {tw}')
    else:
        mask = y > 50
        f = KernelRegressionND.masked_fraction_by_knn
        kw = dict(k=k, max_dx=max_dx, kernel=kern_, min_count=2)
        ref = f(x, mask, q, weight=w, **kw)
        tm = {'i8': 'i8', 'f4': 'f4', 'u1': 'u1', 'i1': 'i1'}.get(ty)
        got = f(as_type(x, tx), mask if tm is None else mask.astype(tm), as_type(q, tq), weight=None if w is None else as_type(w, tw), **kw)
        close(got.values, ref.values, 1e-5, 1e-5, f'fraction for types {tx}, {tm}, {tw}')
        eq_arr(got.invalid, ref.invalid)
    return n > 2


@ck.test(examples=600, d=sized_lists(st.floats(0, 10), 1, 5), v=st.floats(.05, 5.), nd=st.integers(0, 6), cap=st.none() | st.floats(.05, 6.), which=st.sampled_from(['gaussian', 'tophat']))
def kernel_functions(d, v, nd, cap, which):
    cls, key = (Gaussian, 'sigma') if which == 'gaussian' else (Tophat, 'radius')
    for kr in (cls(v), kernels.create((which, {key: v}))[1]) + ((kernels.create(v)[1],) if which == 'gaussian' else ()):
        out = kr(d)
        for a, x in zip(out, d):
            close(a, math.exp(-x * x / (2 * v * v)) if which == 'gaussian' else float(x < v), 1e-12, 1e-300)
        close(kr(np.array(d)[:, None]), np.asarray(out)[:, None], 0)
        close(kr(0.), 1., 0)
    nm, kr = kernels.create(which)
    assert nm == which and getattr(kr, key) == 1.
    o = cls(v)
    assert kernels.create(o) == (which, o)
    assert o.to_simple_repr() == {'type': cls.__name__, key: v}
    raises(KeyError, kernels.create, 'no such kernel')
    if which == 'tophat' and cap is not None:
        r = min(v, cap)
        close(o.volume(nd, cap), math.pi ** (nd / 2) / math.gamma(nd / 2 + 1) * r ** nd, 1e-12, msg='ball volume')
    return len(d) > 1


@ck.test(examples=80, n=st.integers(60, 500), s=bits64, kf=st.floats(.02, 1), nq=st.sampled_from([1, 7, 130]), dim=st.integers(1, 3), wb=st.booleans(), kern=st.sampled_from([None, 'gaussian']), r=st.none() | st.floats(.2, 1.5))
def large(n, s, kf, nq, dim, wb, kern, r):
    """Many samples, neighbours and queries."""
    g = rng_of(s)
    x, y, q = g.uniform(size=(n, dim)), g.normal(size=n), g.uniform(-.1, 1.1, (nq, dim))
    w = g.uniform(.5, 3, n) if wb else None
    k = max(1, int(kf * n))
    kernel = None if kern is None else (kern, {'sigma': .3})
    d = np.sqrt(((q[:, None] - x[None]) ** 2).sum(-1))
    order = np.argsort(d, axis=1)
    def avg(i, ids):
        ww = np.ones(len(ids)) if w is None else w[ids]
        if kern is not None:
            ww = ww * np.exp(-.5 * (d[i, ids] / .3) ** 2)
        return (ww * y[ids]).sum() / ww.sum()
    o = KernelRegressionND.by_knn(x, y, q, k=k, weight=w, kernel=kernel, reduce=['mean', 'count'])
    close(o['y_mean'], [avg(i, order[i, :k]) for i in range(nq)], 1e-8, 1e-9, msg='nearest neighbours')
    eq_arr(np.asarray(o['y_count']), np.full(nq, k), 'number of neighbours')
    if r is not None:
        R = r * dim ** .5
        ids = [np.flatnonzero(d[i] <= R) for i in range(nq)]
        if any(len(v) == 0 for v in ids) or (np.abs(d - R) < 1e-9).any():
            return False
        o = KernelRegressionND.by_local_kernel(x, y, q, max_dx=R, weight=w, kernel=kernel, reduce=['mean', 'count'])
        close(o['y_mean'], [avg(i, v) for i, v in enumerate(ids)], 1e-8, 1e-9, msg='local kernel')
        eq_arr(np.asarray(o['y_count']), [len(v) for v in ids], 'number of samples in the radius')
    return k > 1
