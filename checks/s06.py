"""S06: transforms of data."""
import math
from fractions import Fraction as Fr
from lib.harness import *
from statistics import NormalDist
from pyhipp.stats import Stack
from pyhipp.stats.preprocessing import Standardize
from pyhipp.stats.prob_dist import ProbTransToNorm
from pyhipp.stats.summary import SummaryFloatArray1D

ck = Check('S06', 'Training sets of 1-12 rows and 1-4 features (integer and real, constant features included), floors on the spread, data to transform of one or two '
           'dimensions; samples of 2-150 distinct values in any order and queries inside, on and outside them; stacks of 1-6 arrays of 1-3 dimensions. '
           'Non-trivial: at least two rows that differ; at least three sample points and a query strictly between two of them; at least two stacked members.')
num = st.floats(-1e6, 1e6).map(lambda v: float(np.round(v, 6))) | st.integers(-50, 50).map(float) | st.floats(-1, 1)


@st.composite
def table(draw):
    n, m = draw(st.integers(1, 12)), draw(st.integers(1, 4))
    cols = [draw(st.one_of(st.lists(num, min_size=n, max_size=n), num.map(lambda v, n=n: [v] * n))) for _ in range(m)]
    return [list(r) for r in zip(*cols)]


@ck.test(examples=2000, shards=2, t=table(), new=st.lists(num, min_size=4, max_size=8), lb=st.sampled_from([None, 1e-10, 1e-3, 1., 50.]),
         form=st.sampled_from(['list', 'f8', 'f4', 'i8', 'F']), one=st.booleans())
def standardize(t, new, lb, form, one):
    if form == 'i8':
        t = [[int(v) for v in r] for r in t]
    x = {'list': t, 'f8': np.array(t), 'f4': np.array(t, 'f4'), 'i8': np.array(t), 'F': np.array(t, order='F')}[form]
    x0 = np.array(x)
    s = Standardize(x) if lb is None else Standardize(x, lb) if form == 'list' else Standardize(x, sd_lb=lb)
    eq_arr(np.array(x), x0, 'training data changed')
    n, m = x0.shape
    ex = [[Fr(float(v)) for v in c] for c in x0.T.tolist()]
    mean = [sum(c) / n for c in ex]
    sd = [math.sqrt(sum((v - u) ** 2 for v in c) / n) for c, u in zip(ex, mean)]
    scale = np.array([max(1e-30, max(abs(float(v)) for v in c)) for c in ex])
    eps = (1e-5 if form == 'f4' else 1e-12)
    floor = 1e-10 if lb is None else lb
    assert (np.abs(s.mean - np.array([float(u) for u in mean])) <= eps * scale).all(), f'means {s.mean} {mean}'
    want = np.maximum(sd, floor)
    assert (np.abs(s.sd - want) <= eps * scale * 3 + 1e-7 * want).all(), f'spreads {s.sd} {want}'
    assert (s.sd >= floor * (1 - 1e-6)).all() and s.sd_lb == floor
    # forward: exact definition with the spread found
    z = s(x)
    assert z.shape == x0.shape
    xf = x0.astype(float)
    close(z, (xf - s.mean) / s.sd, 1e-4 if form == 'f4' else 1e-9, 1e-9, 'forward')
    good = np.array(sd) > np.maximum(floor, 1e-3 * scale)
    if good.any() and n > 1:
        assert (np.abs(z.mean(0)[good]) < (2e-2 if form == 'f4' else 1e-6)).all(), 'mean of standardised data'
        assert (np.abs(z.std(0)[good] - 1) < (2e-2 if form == 'f4' else 1e-6)).all(), 'spread of standardised data'
    eq_arr(np.array(x), x0, 'data changed')
    b = s(z, backward=True)
    assert (np.abs(b - xf) <= (1e-4 if form == 'f4' else 1e-10) * (np.abs(xf) + scale + s.sd)).all(), 'backward(forward) is not the identity'
    # unseen data, one row or several
    y = np.resize(np.array(new), (m,) if one else (3, m))
    y0 = y.copy()
    f = s(y.tolist() if form == 'list' else y)
    close(f, (y - s.mean) / s.sd, 1e-9, 1e-9, 'new data')
    g = s(f, True)
    assert (np.abs(g - y) <= 1e-9 * (np.abs(y) + scale)).all(), 'inverse on new data'
    close(s(y, backward=True), y * s.sd + s.mean, 1e-9, 1e-9, 'backward')
    eq_arr(y, y0, 'data changed')
    raises(AssertionError, Standardize, np.array(t)[:, 0])
    r = s.to_simple_repr()
    eq_arr(r['mean'], s.mean), eq_arr(r['sd'], s.sd)
    assert r['sd_lb'] == floor
    return n > 1 and bool(good.any())


ND = NormalDist()


@st.composite
def sample(draw):
    v = draw(st.one_of(st.lists(st.integers(-40, 40), min_size=2, max_size=20, unique=True),
                       st.tuples(st.integers(20, 150), bits64).map(lambda t: rng_of(t[1]).choice(np.arange(-999, 1000), t[0], replace=False) / 8),
                       st.lists(st.floats(-100, 100).map(lambda v: float(np.round(v, 4))), min_size=2, max_size=20, unique=True)))
    return [float(x) for x in v]


@ck.test(examples=2000, shards=2, v=sample(), q=st.lists(st.floats(0, 1), min_size=1, max_size=8), out=st.floats(1e-3, 50), y=st.lists(st.floats(-3, 3), min_size=1, max_size=5))
def to_normal(v, q, out, y):
    a = np.array(v)
    a0 = a.copy()
    t = ProbTransToNorm(a)
    eq_arr(a, a0, 'sample changed')
    s = sorted(v)
    n = len(s)

    def cdf(x):     # exact piecewise-linear cumulative fraction
        x = Fr(x)
        for i in range(n - 1):
            if Fr(s[i]) <= x <= Fr(s[i + 1]):
                return float((i + (x - Fr(s[i])) / (Fr(s[i + 1]) - Fr(s[i]))) / (n - 1))
        raise HarnessError('query outside')

    def inv(p):
        u = Fr(p) * (n - 1)
        i = min(int(u), n - 2)
        return float(Fr(s[i]) + (u - i) * (Fr(s[i + 1]) - Fr(s[i])))
    xs = np.clip(np.array([s[0] + p * (s[-1] - s[0]) for p in q] + v + [np.nextafter(s[-1], -np.inf), np.nextafter(s[0], np.inf)]), s[0], s[-1])
    x0 = xs.copy()
    p = t.forw(xs, with_norm=False)
    tol = 1e-9 * (1 + max(abs(s[0]), abs(s[-1])) / min(np.diff(s)))
    close(p, [cdf(float(x)) for x in xs], 0, tol, 'cumulative probability')
    z = t.forw(xs)
    eq_arr(xs, x0, 'queries changed')
    assert (z[xs == s[0]] == -np.inf).all() and (z[xs == s[-1]] > 7).all(), 'ends of the sample'
    mid = (p > 1e-6) & (p < 1 - 1e-6)
    close(z[mid], [ND.inv_cdf(float(u)) for u in p[mid]], 1e-7, 1e-8, 'normal score')
    o = np.argsort(xs, kind='stable')
    zo = z[o]
    po = p[o]
    assert not np.isnan(z).any() and (po >= 0).all() and (po <= 1).all(), 'not a probability'
    assert ((zo[1:] >= zo[:-1]) | (po[1:] > po[:-1] - 1e-14)).all() and (po[1:] > po[:-1] - 1e-14).all(), 'the map is not monotonic'
    R = s[-1] - s[0]
    back = t.back(z)
    assert (np.abs(back - xs) <= 1e-9 * (R * n + abs(s[0]) + abs(s[-1]))).all(), 'inverse does not recover the values'
    assert (np.abs(t.back(p, with_norm=False) - xs) <= 1e-9 * (R * n + abs(s[0]) + abs(s[-1]))).all()
    pq = np.array(q)
    close(t.back(pq, with_norm=False), [inv(float(u)) for u in pq], 1e-9, 1e-9 * R * n, 'inverse cumulative')
    yy = np.array(y)
    close(t.back(yy), [inv(ND.cdf(u)) for u in y], 1e-9, 1e-8 * R * n, 'from normal')
    close(t.forw(t.back(yy)), yy, 1e-5, 1e-6 + tol, 'forward of backward')
    close(t.back(np.array([-np.inf, np.inf])), [s[0], s[-1]], 1e-12, 0)
    for f in (True, False):
        raises(ValueError, t.forw, np.array([s[0] - out]), with_norm=f, msg='below the sample')
        raises(ValueError, t.forw, np.array([s[-1] + out]), with_norm=f, msg='above the sample')
    raises(ValueError, t.back, np.array([1 + out]), with_norm=False)
    raises(AssertionError, ProbTransToNorm, np.array(v + [v[len(v) // 2]]), msg='repeated values')
    # order of the sample does not matter
    u = ProbTransToNorm(np.array(s[::-1]))
    eq_arr(u.forw(xs), z, 'order of the sample')
    return n > 2 and bool(mid.any())


@ck.test(examples=1200, m=st.integers(1, 6), shape=st.lists(st.integers(1, 4), min_size=0, max_size=2), vals=st.lists(num, min_size=8, max_size=96), as_list=st.booleans(), ints=st.booleans())
def stack(m, shape, vals, as_list, ints):
    a = np.resize(np.array(vals), (m, *shape))
    if ints:
        a = a.astype('i8')
    arg = [v for v in a] if as_list else a
    a0 = a.copy()
    mu, sd = Stack.mean_and_sd(arg)
    eq_arr(a, a0, 'input changed')
    assert np.shape(mu) == tuple(shape) == np.shape(sd)
    for i in np.ndindex(*shape):
        col = [Fr(float(a[(k, *i)])) for k in range(m)]
        u = sum(col) / m
        s = math.sqrt(sum((c - u) ** 2 for c in col) / m)
        sc = max(abs(float(c)) for c in col) + 1e-30
        assert abs(np.asarray(mu)[i] - float(u)) <= 1e-12 * sc, 'mean'
        assert abs(np.asarray(sd)[i] - s) <= 1e-9 * s + 3e-12 * sc, 'spread'
    return m > 1 and len(set(a.ravel().tolist())) > 1


@ck.test(examples=800, vals=st.lists(num, min_size=1, max_size=15), perm=bits64)
def summary(vals, perm):
    a = np.array(vals)
    a0 = a.copy()
    s = SummaryFloatArray1D(a)
    assert s.size == len(vals)
    ex = [Fr(v) for v in vals]
    n = len(ex)
    u = sum(ex) / n
    sc = max(abs(v) for v in vals) + 1e-30
    srt = sorted(vals)
    assert abs(s.mean - float(u)) <= 1e-12 * sc
    d = math.sqrt(sum((v - u) ** 2 for v in ex) / n)
    assert abs(s.stddev - d) <= 1e-9 * d + 3e-12 * sc
    assert abs(s.median - (srt[(n - 1) // 2] + srt[n // 2]) / 2) <= 1e-12 * sc
    prev = None
    for k, q in enumerate((s._1sigma, s._2sigma, s._3sigma)):
        q = np.asarray(q)
        assert q.shape == (2,)
        for v, p in zip(q, ((.16, .84), (.025, .975), (.005, .995))[k]):
            t = p * (n - 1)
            i = min(int(t), max(n - 2, 0))
            w = srt[i] if n == 1 else srt[i] + (t - i) * (srt[i + 1] - srt[i])
            assert abs(v - w) <= 1e-9 * sc, f'{k+1} sigma range {q}'
        if prev is not None:
            assert q[0] <= prev[0] + 1e-9 * sc and q[1] >= prev[1] - 1e-9 * sc, 'sigma ranges are not nested'
        prev = q
    eq_arr(a, a0, 'input changed')
    r = s.to_simple_repr()
    r.pop('__cls__', None)
    assert list(r)[-7:] == ['size', 'mean', 'stddev', 'median', '_1sigma', '_2sigma', '_3sigma']
    assert r['size'] == n and r['mean'] == s.mean
    b = SummaryFloatArray1D(rng_of(perm).permutation(a))
    close([b.mean, b.stddev, b.median, *b._1sigma], [s.mean, s.stddev, s.median, *s._1sigma], 1e-9, 1e-9 * sc, 'order of samples')
    return len(set(vals)) > 2


@ck.test(examples=80, n=big_sizes, s=bits64, f=st.integers(1, 3))
def large(n, s, f):
    """Many samples and features."""
    g = rng_of(s)
    xs = np.unique(np.round(g.normal(size=n), 6))
    n = len(xs)
    x = g.permutation(xs)
    t = ProbTransToNorm(x)
    u = np.r_[xs[g.integers(0, n, 50)], g.uniform(xs[0], xs[-1], 50)]
    ref = np.interp(u, xs, [i / (n - 1) for i in range(n)])
    close(t.forw(u, with_norm=False), ref, 1e-12, 1e-12, msg='cumulative probability')
    close(t.back(t.forw(u, with_norm=False), with_norm=False), u, 1e-9, 1e-9, msg='round trip')
    X = g.normal(size=(n, f)) * [1., 5., 1e3][:f] + [0., 2., -7.][:f]
    S = Standardize().fit(X) if hasattr(Standardize, 'fit') else Standardize(X)
    Y = S(X) if callable(S) else S.transform(X)
    close(Y.mean(0), np.zeros(f), atol=1e-9, msg='centred')
    close(Y.std(0), np.ones(f), 1e-9, msg='unit spread')
    return True
