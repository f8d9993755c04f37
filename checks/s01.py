"""S01: bins, binned accumulation, histograms with overlapping bins."""
from fractions import Fraction as Fr
import math
from lib.harness import *
from pyhipp.stats import Bin, Hist1D, EqualSpaceBins, BiSearchBins
from pyhipp.stats.binning import BinnedData

ck = Check('S01', 'Equal-space and searched bins of 1-12 bins (integer, dyadic and arbitrary edges, unsorted and repeated input edges), 0-12 samples on edges, '
           'next to edges, inside, far outside, infinite; 1-5 successive additions of scalar- or vector-weighted samples. Non-trivial: samples both '
           'inside two different bins and outside or on an edge; two additions that hit a common bin.')
num = pick(st.integers(-20, 20).map(float), st.integers(-400, 400).map(lambda v: v / 16), st.floats(-1e4, 1e4, allow_subnormal=False))
xspec = st.tuples(pick((3, st.just('edge')), (2, st.just('next')), (2, st.just('prev')), (5, st.just('in')), st.sampled_from(['below', 'above', 'inf', '-inf', 'huge', '-huge', 'free'])),
                  st.integers(0, 40), st.floats(0, 1), num)
equal = st.tuples(st.just('equal'), num, pick((2, st.integers(1, 50).map(float)), st.floats(1e-3, 1e3)), st.integers(1, 12))
edges_ = sized_lists(num, 2, 10)
search = st.tuples(st.just('search'), edges_, st.sampled_from(['list', 'array', 'int', 'u2']))
equal_int = st.tuples(st.just('equal'), st.integers(-30, 30), st.integers(1, 50), st.integers(1, 12))


def mk_bins(s):
    """-> bins, sorted reference edges, tolerance"""
    if s[0] == 'equal':
        b, e = s[1], s[1] + s[2]
        bins = EqualSpaceBins((b, e), s[3])
        ref = [float(Fr(b) + (Fr(e) - Fr(b)) * i / s[3]) for i in range(s[3] + 1)]
        return bins, ref, 8e-16 * max(abs(b), abs(e)) * s[3]
    e = [int(v) for v in s[1]] if s[2] == 'int' else s[1]
    if s[2] == 'u2':
        e = [int(abs(v)) for v in e]
    src = list(e) if s[2] == 'list' else np.array(e, dtype='u2' if s[2] == 'u2' else None)
    keep = np.array(src)
    bins = BiSearchBins(src)
    eq_arr(np.array(src), keep, 'input edges unchanged')
    return bins, sorted(e), 0.


def xval(e, q):
    k, i, t, v = q
    n = len(e)
    x = e[i % n]
    j = i % (n - 1)
    return float({'edge': x, 'next': np.nextafter(x, np.inf), 'prev': np.nextafter(x, -np.inf), 'in': e[j] + t * (e[j + 1] - e[j]),
                  'below': e[0] - 1 - abs(v), 'above': e[-1] + 1 + abs(v), 'inf': np.inf, '-inf': -np.inf, 'huge': 1e25, '-huge': -1e25, 'free': v}[k])


def right(e, x, tol):
    """admissible bin indices of x"""
    lo, hi = (sum(1 for v in e if v <= y) - 1 for y in (x - tol, x + tol))
    return lo, hi


@ck.test(examples=3000, shards=2, s=pick((2, equal), equal_int, (3, search)), qs=sized_lists(xspec, 0, 12))
def locating(s, qs):
    bins, e, tol = mk_bins(s)
    n = len(e) - 1
    assert bins.n_bins == n
    E = bins.x_edges
    close(E, e, 0, tol, 'edges')
    assert len(E) == n + 1 and E[0] == e[0] and E[-1] == e[-1]
    c = bins.x_centers
    close(c, [(a + b) / 2 for a, b in zip(e[:-1], e[1:])], 1e-12, tol + 1e-12 * max(abs(e[0]), abs(e[-1])), 'centres')
    xs = [xval(e, q) for q in qs]
    x = np.array(xs, dtype=float)
    x0 = x.copy()
    ids = bins.locate(x)
    assert ids.shape == x.shape and ids.dtype.kind == 'i'
    # what counts are the edges the bins state, which may be off by rounding
    el = E.tolist()
    adm = [right(el, v, 0.) for v in xs]
    for v, i, (lo, hi) in zip(xs, ids.tolist(), adm):
        assert lo <= i <= hi, f'{v} located in bin {i}, admissible {lo}..{hi}, edges {e}'
        assert -1 <= i <= n
    for kw in ({}, dict(lower=False), dict(upper=False)):
        b = bins.locate_bound(x, **kw)
        want = ids.copy()
        if kw.get('lower', True):
            want = np.where(want < 0, 0, want)
        if kw.get('upper', True):
            want = np.where(want > n - 1, n - 1, want)
        eq_arr(b, want, f'locate_bound {kw}')
    fin = np.isfinite(x)
    nr = bins.locate_nearest(x[fin])
    for v, j in zip(x[fin], nr.tolist()):
        assert 0 <= j <= n
        d = [abs(Fr(v) - Fr(a)) for a in e]
        assert float(d[j]) <= float(min(d)) + 2 * tol + 4e-16 * max(abs(v), abs(e[0]), abs(e[-1])), f'edge {j} is not a nearest edge to {v} in {e}'
    if len(xs):       # one at a time, two-dimensional, permuted: same answer
        eq_arr(bins.locate(x[::-1]), ids[::-1])
        eq_arr(bins.locate(x.reshape(1, -1)), ids.reshape(1, -1))
        eq_arr(np.concatenate([bins.locate(x[i:i + 1]) for i in range(len(x))]), ids)
        one = [bins.locate(v) for v in xs]
        assert [int(i) for i in one] == ids.tolist() and all(np.ndim(i) == 0 for i in one), 'one sample at a time'
        whole = np.array([int(v) for v in xs if abs(v) < 1e6], dtype='i8')
        eq_arr(bins.locate(whole), bins.locate(whole.astype(float)), 'integer samples')
        eq_arr(bins.locate_nearest(whole), bins.locate_nearest(whole.astype(float)), 'integer samples')
        for dt in ('u1', 'u4', 'u8', 'i2', 'i4'):
            t = np.array([v for v in whole.tolist() if np.iinfo(dt).min <= v <= np.iinfo(dt).max], dtype=dt)
            t0 = t.copy()
            eq_arr(bins.locate(t), bins.locate(t.astype(float)), f'{dt} samples')
            eq_arr(bins.locate_nearest(t), bins.locate_nearest(t.astype(float)), f'{dt} samples')
            eq_arr(t, t0, 'samples unchanged')
        x4 = x.astype('f4')
        adm4 = [right(el, float(v), 0.) for v in x4]
        for v, i, (lo, hi) in zip(x4, bins.locate(x4).tolist(), adm4):
            assert lo <= i <= hi, f'single-precision {v} located in bin {i}, admissible {lo}..{hi}, edges {e}'
    eq_arr(x, x0, 'samples unchanged')
    if s[0] == 'equal':
        assert bins.x_range == (e[0], e[-1])
        close(bins.x_step, (e[-1] - e[0]) / n, 1e-12)
        close(bins.x_span, e[-1] - e[0], 1e-12)
        eq_arr(BiSearchBins(E).locate(x), ids, 'equal-space and searched bins of the same edges agree')
    else:
        rs = rng_of(int(sum(map(abs, e)) * 16)).permutation(np.array(e))
        eq_arr(BiSearchBins(rs).locate(x), ids, 'order of input edges does not matter')
    inside = [i for i in ids.tolist() if 0 <= i < n]
    return len(set(inside)) > 1 and (len(inside) < len(xs) or any(q[0] in ('edge', 'next', 'prev') for q in qs))


@ck.test(examples=400, b=st.tuples(num, num), n=st.integers(-2, 3), edges=sized_lists(num, 0, 3))
def rejected(b, n, edges):
    ok = b[0] < b[1] and n > 0
    if ok:
        assert EqualSpaceBins(b, n).n_bins == n
    else:
        raises(AssertionError, EqualSpaceBins, b, n)
    if len(edges) < 2:
        raises(AssertionError, BiSearchBins, np.array(edges))
    raises(AssertionError, BiSearchBins, np.zeros((2, 2)))
    d = EqualSpaceBins()
    assert d.n_bins == 10 and tuple(d.x_range) == (0., 1.)
    return not ok


batch = st.tuples(sized_lists(xspec, 0, 8), st.sampled_from(['none', 'one', 'vec']), bits64)


@ck.test(examples=2000, shards=2, s=pick(equal, search), batches=sized_lists(batch, 1, 5), shape=st.sampled_from([(), (), (3,), (3,), (2, 3)]), dt=st.sampled_from(['f8', 'f8', 'i8']), bad=st.booleans())
def accumulate(s, batches, shape, dt, bad):
    """The content after any additions is the sum over all added samples, bin by bin."""
    bins, e, tol = mk_bins(s)
    n = len(e) - 1
    bd = BinnedData(bins, dtype=np.dtype(dt).type, shape=shape)
    other = BinnedData(bins, shape=shape)
    assert BinnedData(bins, shape=(2, *shape, 1)).data.shape == (n, 2, *shape, 1)
    assert bd.data.shape == (n,) + shape and bd.data.dtype == np.dtype(dt) and not bd.data.any()
    want = np.zeros((n,) + shape)
    hits, nt = set(), False
    for qs, wk, seed in batches:
        x = np.array([xval(e, q) for q in qs], dtype=float)
        adm = [right(e, v, tol) for v in x]
        keep = [lo == hi for lo, hi in adm]        # ambiguous samples left out
        x = x[keep]
        ids = [a[0] for a, k in zip(adm, keep) if k]
        w = None
        if wk != 'none':
            w = rng_of(seed).integers(-4, 5, (len(x),) + (shape if wk == 'vec' else ()))
            w = w.astype('i8' if dt == 'i8' else 'f8')
            if seed % 5 == 0:               # (all the same)
                w[...] = seed // 5 % 3
        if seed % 3 == 0:               # what is not a number is in no bin
            at = seed // 3 % (len(x) + 1)
            x = np.insert(x, at, np.nan)
            ids.insert(at, -1)
            w = None if w is None else np.insert(w, at, 7, axis=0)
        bd.add(x, w) if w is not None else bd.add(x)
        for k, i in enumerate(ids):
            if 0 <= i < n:
                want[i] += 1 if w is None else w[k]
        nt |= bool(hits & {i for i in ids if 0 <= i < n})
        hits |= {i for i in ids if 0 <= i < n}
        eq_arr(bd.data, want.astype(dt), 'content', dtype=True)
        if bad and len(x):
            raises(AssertionError, bd.add, x, np.ones((len(x) + 1,), dtype=dt))
            eq_arr(bd.data, want.astype(dt), 'refused addition')
    assert not other.data.any(), 'another accumulator on the same bins changed'
    r = bd.to_simple_repr()
    eq_arr(r['data'], want)
    return nt


@ck.test(examples=1500, bins=pick(st.integers(1, 8), sized_lists(st.integers(-10, 10), 2, 6).map(lambda v: sorted(set(v))).filter(lambda v: len(v) > 1)), sub=st.integers(1, 8),
         rng=st.tuples(st.integers(-10, 5), st.integers(1, 12)), x=sized_lists(st.integers(-48, 48).map(lambda v: v / 4) | st.floats(-12, 12), 0, 14), ws=bits64, weighted=st.booleans())
def overlapped(bins, sub, rng, x, ws, weighted):
    """Histogram with overlapping bins: each bin is the direct sum over its `sub` sub-bins."""
    rg = (float(rng[0]), float(rng[0] + rng[1]))
    if np.isscalar(bins):
        b, s_, (lo, hi) = Bin.parse_sub_bin_spec(bins, sub, rg)
        assert b == bins * sub and s_ == sub and (lo, hi) == rg
        E = np.array([float(Fr(rg[0]) + Fr(rng[1]) * i / b) for i in range(b + 1)])
        arg, r = b, rg
    else:
        b, s_, (lo, hi) = Bin.parse_sub_bin_spec(bins, sub)
        E = np.array([float(Fr(p) + (Fr(q) - Fr(p)) * i / sub) for p, q in zip(bins[:-1], bins[1:]) for i in range(sub)] + [float(bins[-1])])
        close(b, E, 1e-12, 1e-12, 'refined edges')
        assert s_ == sub and (lo, hi) == (bins[0], bins[-1])
        assert all(v in np.asarray(b) for v in bins), 'original edges are kept'
        arg, r = b, None
        raises(AssertionError, Bin.parse_sub_bin_spec, bins, sub, rg)
    raises(AssertionError, Bin.parse_sub_bin_spec, 5, sub)
    raises(AssertionError, Bin.parse_sub_bin_spec, 5, 0, rg)
    xs = np.array([v for v in x if np.abs(E - v).min() > 1e-9], dtype=float)   # away from edges
    w = rng_of(ws).integers(1, 9, len(xs)).astype(float) * 2.**(ws % 5 * 30 - 60) if weighted else None       # (sums of these are exact)
    out = Hist1D.from_overlapped_bins(xs, bins=arg, sub_bins=sub, range=r, weights=w)
    n_out = len(E) - sub
    ww = np.ones(len(xs)) if w is None else w
    close(out['sub_e'], E, 1e-12, 1e-12, 'sub edges')
    close(out['x'], (E[:-sub] + E[sub:]) / 2, 1e-12, 1e-11, 'centres')
    close(out['dx'], E[sub:] - E[:-sub], 1e-12, 1e-11, 'widths')
    want = np.array([ww[(xs > E[i]) & (xs < E[i + sub])].sum() for i in range(n_out)])
    eq_arr(np.asarray(out['h'], dtype=float), want, 'overlapped counts')
    want = np.array([ww[(xs > E[i]) & (xs < E[i + 1])].sum() for i in range(len(E) - 1)])
    eq_arr(np.asarray(out['sub_h'], dtype=float), want, 'counts of the sub-bins')
    return sub > 1 and len(xs) > 2 and (want > 0).sum() > 1


@ck.test(examples=1200, x=sized_lists(num, 2, 14), range=st.none() | st.tuples(num, num).map(lambda t: (min(t), max(t))),
         p=st.none() | st.tuples(st.floats(0, 1), st.floats(0, 1)).map(lambda t: (min(t), max(t))), form=st.sampled_from(['list', 'array']), comb=st.integers(1, 9), stride=st.integers(1, 5))
def helpers(x, range, p, form, comb, stride):
    a = x if form == 'list' else np.array(x)
    kw = {}
    if range is not None:
        kw['range'] = range
    if p is not None:
        kw['p_range'] = p
    lo, hi = Bin.parse_p_range_spec(a, **kw)

    def quant(q):
        s = sorted(x)
        t = q * (len(s) - 1)
        i = min(int(t), len(s) - 2)
        return s[i] + (t - i) * (s[i + 1] - s[i])
    qlo, qhi = (min(x), max(x)) if p is None else (quant(p[0]), quant(p[1]))
    if range is not None:
        qlo, qhi = (range if p is None else (max(range[0], qlo), min(range[1], qhi)))
    close([lo, hi], [qlo, qhi], 1e-12, 1e-9, 'range')
    if range is not None:
        assert tuple(Bin.parse_p_range_spec(range=range)) == range
    raises(AssertionError, Bin.parse_p_range_spec)
    raises(AssertionError, Bin.parse_p_range_spec, None, (0., 1.), (0., 1.))
    if stride < len(x):
        eq_arr(Bin.edges_to_centers(a, stride), np.array([.5 * (x[i] + x[i + stride]) for i in builtins_range(len(x) - stride)]), 'centers')
        eq_arr(Bin.edges_to_widths(a, stride), np.array([x[i + stride] - x[i] for i in builtins_range(len(x) - stride)]), 'widths')
    if stride == 1:
        eq_arr(Bin.edges_to_centers(a), Bin.edges_to_centers(a, 1))
        eq_arr(Bin.edges_to_widths(a), Bin.edges_to_widths(a, 1))
    if comb <= len(x):
        for v in (a, np.stack([x, np.array(x) * 2], -1)):
            v0 = np.array(v)
            got = Bin.combine_adjacent_bins(v, comb)
            close(got, [sum(v0[i + j] for j in builtins_range(comb)) for i in builtins_range(len(x) - comb + 1)], 1e-12, 1e-9, 'combined')
            eq_arr(v, v0, 'input unchanged')
    else:
        raises(AssertionError, Bin.combine_adjacent_bins, a, comb)
    raises(AssertionError, Bin.combine_adjacent_bins, a, 0)
    return range is not None or p is not None


NT = ['i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f4', '>f8', '>i4', 'F', 'list']


def as_type(v, t):
    v = np.asarray(v, dtype=float)
    if t == 'list':
        return [int(i) for i in v]
    if t == 'F':
        return np.repeat(v, 2)[::2]
    return v.astype(t)


@ck.test(examples=700, e=st.lists(st.integers(-128, 127), min_size=2, max_size=8, unique=True), x=st.lists(st.integers(-128, 127), max_size=12), te=st.sampled_from(NT), tx=st.sampled_from(NT[:-1]),
         tw=st.none() | st.sampled_from(NT[:-1] + ['?']), n=st.integers(1, 6), sub=st.integers(1, 3), ws=bits64)
def number_types(e, x, te, tx, tw, n, sub, ws):
    """Edges, ranges, samples and weights of other numeric types give what the same numbers in double precision give."""
    if te[-2:] in ('u1', 'u2', 'u4', 'u8'):
        e = [v + 128 for v in e]
    if tx[-2:] in ('u1', 'u2', 'u4', 'u8'):
        x = [v + 128 for v in x]
    E, X = np.array(e, float), np.array(x, float)
    Et, Xt = as_type(E, te), as_type(X, tx)
    W = rng_of(ws).integers(0, 2 if tw == '?' else 128, len(x)).astype(float)
    Wt = None if tw is None else as_type(W, tw) if tw != '?' else W.astype(bool)
    W1 = np.ones(len(x)) if tw is None else W
    a, b = BiSearchBins(Et), BiSearchBins(E)
    ids = b.locate(X)
    eq_arr(a.locate(Xt), ids, f'types {te}, {tx}')
    eq_arr(a.locate_nearest(Xt), b.locate_nearest(X), f'nearest edge, types {te}, {tx}')
    eq_arr(a.locate_bound(Xt), b.locate_bound(X), f'types {te}, {tx}')
    for k in ('x_edges', 'x_centers'):
        eq_arr(np.asarray(getattr(a, k), float), getattr(b, k), f'{k}, type {te}')
    r, q = a.to_simple_repr(), b.to_simple_repr()
    assert float(r['x_span']) == q['x_span'] and abs(float(r['x_step_mean']) - q['x_step_mean']) < 1e-4 * q['x_span'], f'span and mean step, type {te}: {r} {q}'
    S = np.sort(E)
    St = as_type(S, te)
    r1 = (St[0], St[-1])
    a, b = EqualSpaceBins(r1, n), EqualSpaceBins((S[0], S[-1]), n)
    for k in ('x_edges', 'x_centers', 'x_span', 'x_step'):
        close(np.asarray(getattr(a, k), float), np.asarray(getattr(b, k), float), 1e-6, 1e-4, f'{k}, type {te}')
    edge = np.array([abs(v - u) < 1e-3 for v in X for u in b.x_edges], bool).reshape(len(X), n + 1).any(1)
    eq_arr(a.locate(Xt)[~edge], b.locate(X)[~edge], f'types {te}, {tx}')
    for stride in range(1, min(3, len(e))):
        close(np.asarray(Bin.edges_to_centers(St, stride), float), (S[stride:] + S[:-stride]) / 2, 1e-6, 1e-6, f'centres, type {te}')
        close(np.asarray(Bin.edges_to_widths(St, stride), float), S[stride:] - S[:-stride], 1e-6, 1e-6, f'widths, type {te}')
    if len(x):
        m = 1 + sub % len(x)
        close(np.asarray(Bin.combine_adjacent_bins(Xt, m), float), [X[i:i + m].sum() for i in range(len(x) - m + 1)], 1e-6, 1e-6, f'combined, type {tx}')
    close(Bin.insert_sub_bins_into_edges(S[::-1], sub), Bin.insert_sub_bins_into_edges(S, sub)[::-1], 1e-12, 1e-12, 'descending edges')
    close(np.asarray(Bin.insert_sub_bins_into_edges(St, sub), float), Bin.insert_sub_bins_into_edges(S, sub), 1e-6, 1e-4, f'sub-edges, type {te}')
    f = np.array([Fr(int(p)) + (Fr(int(q)) - Fr(int(p))) * i / sub for p, q in zip(S[:-1], S[1:]) for i in range(sub)] + [Fr(int(S[-1]))])
    near = np.array([any(abs(float(v) - u) < 1e-3 and not (v == u) for u in f) or v == S[-1] for v in X.astype(int)], bool) if len(x) else np.zeros(0, bool)
    on = np.array([any(v == u and u.denominator > 1 for u in f) for v in X.astype(int)], bool) if len(x) else np.zeros(0, bool)
    if (near | on).any():
        Xt, W1, X, Wt = Xt[~(near | on)], W1[~(near | on)], X[~(near | on)], None if Wt is None else Wt[~(near | on)]
    out = Hist1D.from_overlapped_bins(Xt, bins=Bin.insert_sub_bins_into_edges(St, sub), sub_bins=sub, range=None, weights=Wt)
    xi = [Fr(int(v)) for v in X]
    sub_h = np.array([sum(w for v, w in zip(xi, W1) if f[i] <= v < f[i + 1]) for i in range(len(f) - 1)], float)
    eq_arr(np.asarray(out['sub_h'], float), sub_h, f'counts, types {te}, {tx}, {tw}')
    eq_arr(np.asarray(out['h'], float), np.array([sub_h[i:i + sub].sum() for i in range(len(sub_h) - sub + 1)]), f'overlapped counts, types {te}, {tx}, {tw}')
    nt = len(set(int(i) for i in ids if 0 <= i < len(e) - 1)) > 1
    for acc in (BinnedData(BiSearchBins(Et)), BinnedData(EqualSpaceBins(r1, n))):
        acc.add(Xt, Wt if tw is None or tw[0] != '>' else W1)   # the compiled loop takes native weights only
        j = acc.bins.locate(X)
        if isinstance(acc.bins, EqualSpaceBins) and edge.any():
            continue
        eq_arr(acc.data, np.array([W1[j == i].sum() for i in range(acc.bins.n_bins)]), f'accumulated, types {te}, {tx}, {tw}')
    return nt


import builtins  # noqa
builtins_range = builtins.range


def _warm():
    b = EqualSpaceBins()
    for dt in (float, np.int64):
        for sh in ((), (3,), (2, 3)):
            d = BinnedData(b, dtype=dt, shape=sh)
            x = np.array([.5])
            d.add(x)
            d.add(x, np.ones(1, dt))
            if sh:
                d.add(x, np.ones((1, 3), dt))


try:
    _warm()
except Exception:
    pass


@ck.test(examples=120, n=big_sizes, m=st.integers(2, 1500), s=bits64, kind=st.sampled_from(['equal', 'edges', 'repeat']), wb=st.booleans())
def large(n, m, s, kind, wb):
    """Many bins and many samples, on, next to and off the edges."""
    g = rng_of(s)
    if kind == 'equal':
        b = EqualSpaceBins((-3., -3. + m / 8), m)
    else:
        e = np.sort(g.normal(size=m + 1)) if kind == 'edges' else np.sort(g.integers(0, m + 1, m + 1).astype(float))
        b = BiSearchBins(e)
    e = b.x_edges
    q = g.choice(e, n)
    k = g.integers(0, 5, n)
    q[k == 0] = np.nextafter(q[k == 0], -np.inf)
    q[k == 1] = np.nextafter(q[k == 1], np.inf)
    q[k >= 3] = g.uniform(e[0] - .2, e[-1] + .2, int((k >= 3).sum()))
    q[:2] = e[-1] + 50, e[0] - 50
    ref = np.zeros(n, int)
    i = 0
    for j in np.argsort(q, kind='stable'):
        while i <= m and e[i] <= q[j]:
            i += 1
        ref[j] = i - 1
    eq_arr(b.locate(q), ref, 'bin of each sample')
    eq_arr(b.locate_bound(q), [min(max(v, 0), m - 1) for v in ref.tolist()], 'bounded bin')
    d = BinnedData(b)
    w = g.integers(1, 9, n).astype(float) if wb else None
    d.add(q, w)
    t = [0.] * m
    for v, u in zip(ref.tolist(), (w if wb else np.ones(n)).tolist()):
        if 0 <= v < m:
            t[v] += u
    eq_arr(d.data, t, 'totals')
    x = g.integers(0, 100, m)
    c = int(s % min(m, 9)) + 1
    eq_arr(Bin.combine_adjacent_bins(x, c), [sum(x[i:i + c].tolist()) for i in range(m - c + 1)], 'windows')
    return True
