"""S02: reductions and summaries."""
import math
from lib.harness import *
from pyhipp import stats
from pyhipp.stats import Count, Sum, Mean, StdDev, Median, Quantile, Errorbar, Stack
from pyhipp.stats.reduction import predefined
from pyhipp.stats.summary import SummaryFloatArray1D

ck = Check('S02', 'One- and two-dimensional samples of 0-9 values (integers with repeats, floats, masked-out NaN/inf), optional positive weights and masks, '
           'all reductions and presets, all fill values. Non-trivial: a mask that drops some but not all samples, unequal weights, or an empty row.',
           assumptions=['weighted quantiles interpolate the sorted values over the cumulative normalised weight, as the code documents by construction',
                        'the two outer members of an error bar over an empty selection are unspecified for quantile presets'])
val = pick(st.integers(-6, 6).map(float), st.floats(-1e3, 1e3))
rows = st.integers(1, 4)
FILLS = [None, -1.0e10, 0., 7.5, np.nan, -3]
PRE = {'1sigma': (.16, .84), '2sigma': (.025, .975), '3sigma': (.005, .995), 'median+1sigma': (.16, .5, .84), 'median+2sigma': (.025, .5, .975),
       'median+3sigma': (.005, .5, .995), 'lower_3sigmas': (.68, .95, .99), 'upper_3sigmas': (.01, .05, .32)}

data = st.tuples(st.integers(0, 4), st.integers(0, 9), st.lists(val, min_size=36, max_size=36), st.none() | bits64, pick(st.none(), (2, bits64)),
                 st.sampled_from(['f8', 'f8', 'f8', 'i8', 'f4', '?']), st.sampled_from(['list', 'array']), st.booleans())


def build(d):
    """-> x, weight, mask, and per-row (values, weights) that count; rows==0 means 1-D"""
    nr, n, v, wb, mb, dt, form, junk = d
    shape = (n,) if nr == 0 else (nr, n)
    x = np.array(v[:int(np.prod(shape))]).reshape(shape)
    x = (x > 0) if dt == '?' else x.astype(dt)
    w = None if wb is None else (rng_of(wb).integers(1, 9, shape) / (4. if wb % 2 else 1)).astype('f8' if wb % 2 else 'i8')
    m = None if mb is None else bool_array(mb, shape)
    if m is not None and nr > 1 and mb % 3 == 0:
        m[mb % nr] = False
    if m is not None and mb % 11 == 5:
        m[...] = False
    if m is not None and junk and dt in ('f8', 'f4'):      # what is masked out must not matter
        x[~m] = [np.nan, np.inf, 1e30, -np.inf][mb % 4]
    rx = []
    for i in range(max(nr, 1)):
        a, b, c = (None if q is None else (q if nr == 0 else q[i]) for q in (x, w, m))
        a = np.asarray(a, dtype=float)
        sel = np.ones(n, dtype=bool) if c is None else c
        rx.append((a[sel].tolist(), None if b is None else np.asarray(b, dtype=float)[sel].tolist()))
    arg = (lambda q: None if q is None else q.tolist() if form == 'list' else q)
    if form == 'list' and dt not in ('f8', '?'):
        arg = lambda q: q  # noqa
    return x, w, m, (arg(x), arg(w), arg(m)), rx


def call(r, args):
    x, w, m = args
    kw = {}
    if m is not None:
        kw['mask'] = m
    if w is not None:
        kw['weight'] = w
    x0, w0, m0 = np.array(x), np.array(w), np.array(m)
    out = r(x, **kw)
    eq_arr(np.array(x), x0, 'x unchanged'), (w is None or eq_arr(np.array(w), w0, 'weight unchanged')), (m is None or eq_arr(np.array(m), m0))
    assert isinstance(out, (np.ndarray, np.generic, float)), type(out)
    if w is not None and m is not None:
        eq_arr(np.asarray(r(x, w, m)), np.asarray(out), 'positional')
    return np.asarray(out)


def nontrivial(d, rx):
    n = d[1]
    return any(0 < len(a) < n for a, _ in rx) or (n > 0 and any(len(a) == 0 for a, _ in rx)) or any(b and len(set(b)) > 1 for _, b in rx)


def qtl(xs, p):
    s = sorted(xs)
    t = p * (len(s) - 1)
    i = min(int(t), max(len(s) - 2, 0))
    j = min(i + 1, len(s) - 1)
    return s[i] + (t - i) * (s[j] - s[i])


def wqtl(xs, ws, p, sort=True):
    tot = math.fsum(ws)
    order = sorted(range(len(xs)), key=lambda i: xs[i]) if sort else range(len(xs))
    c, cdf = 0., []
    for i in order:
        c += ws[i]
        cdf.append((c / tot, xs[i]))
    if p <= cdf[0][0]:
        return cdf[0][1]
    for (c0, a), (c1, b) in zip(cdf[:-1], cdf[1:]):
        if p <= c1:
            return a + (p - c0) / (c1 - c0) * (b - a)
    return cdf[-1][1]


def wqtl_range(xs, ws, p):
    """Weighted quantile of sorted samples; among equal samples any order (or taking them together) is allowed, which gives a range."""
    g = {}
    for x, w in zip(xs, ws):
        g.setdefault(x, []).append(w)
    tot, c, prev = math.fsum(ws), 0., None
    for x in sorted(g):
        w = math.fsum(g[x])
        if p <= (c + w) / tot or x == max(g):
            if prev is None:
                return x, x
            t = [min(1., max(0., (p * tot - c) / v)) for v in (w, min(g[x]))]
            return tuple(sorted(prev + u * (x - prev) for u in t))
        c += w
        prev = x


def in_range(v, r, tol, msg):
    assert r[0] - tol <= v <= r[1] + tol, f'{msg}: {v} is not in [{r[0]}, {r[1]}]'


def wmean(xs, ws):
    ws = ws or [1.] * len(xs)
    return math.fsum(a * b for a, b in zip(xs, ws)) / math.fsum(ws)


def wsd(xs, ws):
    m = wmean(xs, ws)
    return math.sqrt(wmean([(a - m) ** 2 for a in xs], ws))


def tol_of(rx, dt):
    s = max([abs(v) for a, _ in rx for v in a] + [1e-300])
    return s * (3e-5 if dt == 'f4' else 1e-11)


def shape_of(d, rx):
    return () if d[0] == 0 else (d[0],)


@ck.test(examples=4000, shards=2, d=data, which=st.sampled_from(['count', 'sum', 'mean', 'sd', 'median']), fill=st.sampled_from(FILLS), viaspec=st.booleans())
def moments(d, which, fill, viaspec):
    x, w, m, args, rx = build(d)
    dt = d[5]
    cls = dict(count=Count, sum=Sum, mean=Mean, sd=StdDev, median=Median)[which]
    kw = {} if fill is None else dict(empty_fill=fill)
    r = predefined.create((which, kw))[1] if viaspec else cls(**kw)
    if dt == '?' and which in ('sd', 'median'):
        return False
    out = call(r, args)
    assert out.shape == shape_of(d, rx), f'shape {out.shape}'
    tol = tol_of(rx, dt)
    f = -1.0e10 if fill is None else fill
    for got, (a, b) in zip(np.atleast_1d(out), rx):
        if which == 'count':
            assert got == len(a)
            continue
        if which == 'sum':
            ref = math.fsum(p * q for p, q in zip(a, b or [1.] * len(a)))
            close(got, ref, 0, tol * (sum(b) if b else len(a) + 1), 'sum')
            continue
        if not a:
            close(got, f, 0, 0, f'{which} of an empty selection')
            continue
        if which == 'mean':
            close(got, wmean(a, b), 0, tol, 'mean')
            assert min(a) - tol <= got <= max(a) + tol
        elif which == 'sd':
            close(float(got) ** 2, wsd(a, b) ** 2, 0, tol * max(map(abs, a)) * 4 + 1e-300, 'variance')
            assert got >= 0
        else:
            in_range(got, (qtl(a, .5),) * 2 if b is None else wqtl_range(a, b, .5), tol, 'median')
    r.to_simple_repr(), str(r)
    return nontrivial(d, rx)


pss = pick(st.sampled_from(sorted(PRE)), st.floats(0, 1), sized_lists(st.floats(0, 1), 1, 4), st.sampled_from([0, 1, [0, 1], .5, [.5]]))


@ck.test(examples=3000, shards=2, d=data, ps=pss, fill=st.sampled_from([None, -1e10, 7., -3, .5, np.nan]), sort=st.sampled_from([None, True, False]), default=st.booleans())
def quantiles(d, ps, fill, sort, default):
    if d[5] == '?':
        return False
    x, w, m, args, rx = build(d)
    kw = {} if fill is None else dict(empty_fill=fill)
    if sort is not None:
        kw['sort'] = sort
    if default:
        ps = 'median+1sigma'
        r = Quantile(**kw)
    else:
        r = Quantile(np.array(ps) if not isinstance(ps, str) else ps, **kw)
    levels = PRE[ps] if isinstance(ps, str) else ps
    single = np.ndim(levels) == 0
    lv = [levels] if single else list(levels)
    out = call(r, args)
    assert out.shape == shape_of(d, rx) + (() if single else (len(lv),)), f'shape {out.shape}'
    o = out.reshape(len(rx), len(lv))
    tol = tol_of(rx, d[5])
    f = -1.0e10 if fill is None else fill
    for g, (a, b) in zip(o, rx):
        for q, p in zip(g, lv):
            if not a:
                close(q, f, 0, 0, 'empty selection')
            else:
                in_range(q, (qtl(a, p),) * 2 if b is None else (wqtl(a, b, p, False),) * 2 if sort is False else wqtl_range(a, b, p), tol, f'quantile {p}')
        if a and sort is not False:
            for p, q in zip(lv, g):
                assert min(a) - tol <= q <= max(a) + tol
            s = [q for _, q in sorted(zip(lv, g))]
            assert all(s[i] <= s[i + 1] + tol for i in range(len(s) - 1)), 'quantiles increase with the level'
    r.to_simple_repr(), str(r)
    o = call(Median(**kw), args).reshape(len(rx))
    for q, (a, b) in zip(o, rx):
        if not a:
            close(q, f, 0, 0, 'median of an empty selection')
        else:
            in_range(q, (qtl(a, .5),) * 2 if b is None else (wqtl(a, b, .5, False),) * 2 if sort is False else wqtl_range(a, b, .5), tol, f'median, {sort=}')
    return nontrivial(d, rx)


@ck.test(examples=2000, shards=2, d=data, how=st.sampled_from([None, 'mean+sd', 'median+1sigma', 'median+2sigma', 'median+3sigma']), fill=st.sampled_from([None, -5.]))
def errorbars(d, how, fill):
    x, w, m, args, rx = build(d)
    if d[5] == '?':
        return False
    kw = {} if fill is None else dict(empty_fill=fill)
    r = Errorbar(how, **kw) if how else Errorbar(**kw)
    out = call(r, args)
    assert out.shape == shape_of(d, rx) + (3,), f'shape {out.shape}'
    tol = tol_of(rx, d[5])
    for (y, lo, hi), (a, b) in zip(out.reshape(-1, 3), rx):
        if not a:
            close(y, -1e10 if fill is None else fill, 0, 0, 'centre of an empty selection')
            f = -1e10 if fill is None else fill
            assert lo == hi and lo in ((f,) if how == 'mean+sd' else (0., f)), f'errors {lo}, {hi} of an empty selection'
        elif how == 'mean+sd':
            close(y, wmean(a, b), 0, tol, 'mean')
            close(float(lo) ** 2, wsd(a, b) ** 2, 0, tol * max(map(abs, a)) * 4 + 1e-300, 'variance')
            assert lo == hi
        else:
            q = [(qtl(a, p),) * 2 if b is None else wqtl_range(a, b, p) for p in PRE[how or 'median+1sigma']]
            for v, ref in zip((y - lo, y, y + hi), q):
                in_range(v, ref, 3 * tol, 'error bar')
            assert lo >= -tol and hi >= -tol
    r.to_simple_repr(), str(r)
    return nontrivial(d, rx)


@ck.test(examples=2000, d=data, which=st.sampled_from(['count', 'sum', 'mean', 'std', 'median', 'qs', 'errorbar']), seed=bits64, scale=st.sampled_from([1., 4., .5, 2.**-300, 2.**200]), junk=val)
def invariances(d, which, seed, scale, junk):
    """Permuting the samples, rescaling the weights, or changing masked-out values changes nothing."""
    x, w, m, args, rx = build(d)
    if d[5] == '?' or x.size == 0 and d[0]:
        return False
    r = predefined.create(which)[1]
    base = np.asarray(r(x, w, m), dtype=float)
    tol = tol_of(rx, d[5]) * (1 + (0 if w is None else float(w.sum()))) * 3
    sq = tol * max([1.] + [abs(v) for a, _ in rx for v in a])

    def same(o, tag):
        o = np.asarray(o, dtype=float)
        if which in ('std',):
            close(o ** 2, base ** 2, 1e-12, sq, tag)
        else:
            close(o, base, 1e-12, tol, tag)
    p = rng_of(seed).permutation(x.shape[-1])
    t = (lambda a: None if a is None else a[..., p])
    same(r(t(x), t(w), t(m)), 'permutation')
    if w is not None and which != 'sum':
        same(r(x, w * scale, m), 'rescaled weights')
    if m is not None:
        y = x.copy()
        y[~m] = junk
        same(r(y, w, m), 'masked-out values')
        if d[0] == 0:
            same(r(x[m], None if w is None else w[m]), 'selecting beforehand')
    if d[0]:
        g = [None if q is None else q[0] for q in (x, w, m)]
        close(np.asarray(r(*g), dtype=float), base[0], 1e-12, tol, 'row by row')
    return nontrivial(d, rx)


@ck.test(examples=1000, n=st.integers(1, 12), nr=st.integers(0, 3), s=bits64, sign=st.sampled_from(['any', 'negative', 'zeros']), masked=st.booleans(), p=st.floats(.01, .99))
def special_weights(n, nr, s, sign, masked, p):
    """Weights that are zero or negative enter the sums like any other number; samples of zero weight drop out of means and deviations."""
    g = rng_of(s)
    shape = (nr, n) if nr else (n,)
    x = g.integers(-9, 10, shape) / 2. if s % 3 else g.normal(size=shape) * 50
    w = {'any': lambda: g.integers(-8, 9, shape) / 4., 'negative': lambda: -g.integers(1, 9, shape) / 4., 'zeros': lambda: g.choice([0., 0., .25, 1., 2.], shape)}[sign]()
    m = g.random(shape) < .7 if masked else None
    out = {k: np.atleast_1d(predefined.create(k)[1](x, w, m)) for k in ('count', 'sum', 'mean')}
    sd = np.atleast_1d(StdDev()(x, w, m)) if sign == 'zeros' else None
    q = np.atleast_1d(Quantile(p)(x, w, m)) if sign == 'zeros' else None
    nt = False
    for i in range(max(nr, 1)):
        a, b = (v[i] if nr else v for v in (x, w))
        if m is not None:
            c = m[i] if nr else m
            a, b = a[c], b[c]
        assert out['count'][i] == len(a), 'weights do not count'
        close(out['sum'][i], math.fsum(a * b), 1e-12, 1e-10, 'weighted sum')
        t = math.fsum(b)
        if not len(a):
            assert out['mean'][i] == -1e10
        elif abs(t) > .2:
            close(out['mean'][i], math.fsum(a * b) / t, 1e-10, 1e-9, 'weighted mean')
            nt = nt or len(a) > 1
            if sign == 'zeros':
                close(sd[i] ** 2, wsd(a[b > 0].tolist(), b[b > 0].tolist()) ** 2, 1e-9, 1e-9, 'weighted variance')
                o = np.argsort(a, kind='stable')
                c = np.cumsum(b[o]) / t
                if len(set(a.tolist())) == len(a) and np.abs(c - p).min() > 1e-9:
                    close(q[i], wqtl(a.tolist(), b.tolist(), p), 1e-9, 1e-9, 'weighted quantile')
    return nt


NT = ['i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f4', '>f8', '>i4', '?', 'F', 'list', 'strided']


def as_type(v, t):
    v = np.asarray(v, dtype=float)
    if t == 'list':
        return v.astype(int).tolist()
    if t == 'strided':
        return np.repeat(v, 2, axis=-1)[..., ::2]
    return np.asfortranarray(v) if t == 'F' else v.astype(t)


@ck.test(examples=1500, nr=st.integers(0, 3), n=st.integers(0, 7), tx=st.sampled_from(NT), tw=st.none() | st.sampled_from(NT), mb=st.none() | bits64, mt=st.sampled_from(['?', 'i8', 'u1', 'list']), s=bits64, which=st.sampled_from(['sum', 'mean', 'sd', 'median', 'quantile', 'errorbar', 'count']))
def number_types(nr, n, tx, tw, mb, mt, s, which):
    """Values and weights of other numeric types give what the same numbers in double precision give."""
    g, shape = rng_of(s), (n,) if nr == 0 else (nr, n)
    x = g.integers(*{'u': (0, 256), '?': (0, 2)}.get(tx[-2] if len(tx) > 1 else tx[0], (-128, 128)), shape).astype(float)
    w = None if tw is None else g.integers(0, 2, shape).astype(float) if tw == '?' else g.integers(1, 128, shape).astype(float)
    m = None if mb is None else bool_array(mb, shape)
    if w is not None and tw == '?':
        if n == 0:
            return False
        w[..., 0] = 1.
        if m is not None:
            m[..., 0] = True
    if w is not None and n == 0 and 'list' in (tx, tw):
        return False
    r = predefined[which]()
    kw, k2 = ({} if m is None else dict(mask=q) for q in (m, None if m is None else m.tolist() if mt == 'list' else m.astype(mt)))
    if w is not None:
        kw['weight'], k2['weight'] = w, as_type(w, tw)
    ref, got = r(x, **kw), r(as_type(x, tx), **k2)
    close(np.asarray(got, float), np.asarray(ref, float), 1e-4, 1e-3, f'{which}, types {tx}, {tw}')
    return n > 2 and w is not None


@ck.test(examples=600, nr=st.integers(0, 3), n=st.integers(1, 7), k=st.integers(10, 30), sg=st.sampled_from([-1, 1]), s=bits64, wb=st.booleans(), mb=st.none() | bits64, which=st.sampled_from(['mean', 'sd', 'median', 'quantile', 'errorbar', ('errorbar', {'reduce': 'mean+sd'}), ('quantile', {'ps': 'lower_3sigmas'})]))
def offset(nr, n, k, sg, s, wb, mb, which):
    """A large common offset of the values moves locations by exactly that and leaves spreads alone."""
    g, shape, c = rng_of(s), (n,) if nr == 0 else (nr, n), sg * 2. ** k
    x = g.integers(-40, 41, shape) / 8
    kw = {}
    if wb:
        kw['weight'] = g.integers(1, 9, shape).astype(float)
    if mb is not None:
        kw['mask'] = bool_array(mb, shape)
        kw['mask'][..., 0] = True
    _, r = predefined.create(which)
    a, b = np.asarray(r(x, **kw)), np.asarray(r(x + c, **kw))
    kind = which if isinstance(which, str) else which[0]
    move = np.zeros(a.shape) if kind == 'sd' else np.full(a.shape, c)
    if kind == 'errorbar':
        move[..., 1:] = 0
    close(b - move, a, 0, 1e-14 * abs(c) + 1e-12, f'{which} of values moved by {c}')
    return n > 2 and (nr > 0 or wb)


@ck.test(examples=500, x=sized_lists(val, 1, 9), spec=st.sampled_from(['str', 'tuple', 'obj', 'list', 'one']), names=sized_lists(st.sampled_from(['count', 'cnt', 'sum', 'mean', 'std_dev', 'std', 'sd', 'median', 'quantile', 'qs', 'errorbar']), 1, 4),
         n=st.integers(1, 4))
def specs_and_summaries(x, spec, names, n):
    K = dict(count=Count, cnt=Count, sum=Sum, mean=Mean, std_dev=StdDev, std=StdDev, sd=StdDev, median=Median, quantile=Quantile, qs=Quantile, errorbar=Errorbar)
    a = np.array(x)
    if spec in ('list', 'obj'):
        rs = [K[k]() if spec == 'obj' else (k if i % 2 else (k, {})) for i, k in enumerate(names)]
        got = list(predefined.iter(rs))
        assert len(got) == len(names)
        for (nm, o), k, r in zip(got, names, rs):
            assert type(o) is K[k]
            assert (o is r and nm == r.key) if spec == 'obj' else nm == k
            eq_arr(np.asarray(o(a)), np.asarray(K[k]()(a)))
    else:
        k = names[0]
        r = k if spec == 'str' else (k, {}) if spec == 'tuple' else K[k]()
        (nm, o), = predefined.iter(r)
        assert type(o) is K[k]
    raises(KeyError, predefined.create, 'no such reduction')
    raises(AssertionError, Mean(), np.zeros((2, 2, 2)))
    raises(AssertionError, Mean(), np.float64(3.))
    raises(AssertionError, Mean(), a, np.ones(len(a) + 1))
    raises(AssertionError, Sum(), a, mask=np.ones(len(a) + 1, dtype=bool))
    s = SummaryFloatArray1D(a)
    tol = 1e-11 * (np.abs(a).max() + 1e-300)
    assert s.size == len(x)
    close([s.mean, s.median], [wmean(x, None), qtl(x, .5)], 0, tol)
    close(s.stddev ** 2, wsd(x, None) ** 2, 0, tol * (np.abs(a).max() + 1))
    for k in ('1sigma', '2sigma', '3sigma'):
        close(getattr(s, '_' + k), [qtl(x, p) for p in PRE[k]], 0, tol)
    assert s.to_simple_repr()['size'] == len(x)
    m = rng_of(len(x) * 10 + n).normal(size=(n, len(x)))
    mu, sd = Stack.mean_and_sd(m.tolist() if n % 2 else m)
    close(mu, [wmean(c, None) for c in m.T.tolist()], 1e-10, 1e-12)
    close(sd, [wsd(c, None) for c in m.T.tolist()], 1e-9, 1e-12)
    return len(names) > 1


@ck.test(examples=100, n=big_sizes, nr=st.integers(1, 3), s=bits64, wb=st.booleans(), keep=st.sampled_from([None, .5, .01, 0., 1.]))
def large(n, nr, s, wb, keep):
    """Long rows, with weights, masks and rows in which nothing is kept."""
    g = rng_of(s)
    x = np.round(g.normal(size=(nr, n)) * 5, 1)
    w = g.uniform(.1, 3, (nr, n)) if wb else None
    m = None if keep is None else g.random((nr, n)) < keep
    if m is not None and nr > 1:
        m[0] = False
    pairs = []
    for i in range(nr):
        sel = np.ones(n, bool) if m is None else m[i]
        pairs.append((x[i][sel].tolist(), None if w is None else w[i][sel].tolist()))
    kw = dict(weight=w, mask=m)
    eq_arr(Count()(x, **kw), [len(a) for a, _ in pairs], 'count')
    close(Sum()(x, **kw), [math.fsum(a if b is None else [u * v for u, v in zip(a, b)]) for a, b in pairs], 1e-9, 1e-9, msg='sum')
    def mom(a, b):
        if not a:
            return -7., -7.
        b = b or [1.] * len(a)
        t = math.fsum(b)
        mu = math.fsum(u * v for u, v in zip(a, b)) / t
        return mu, math.sqrt(max(math.fsum((u - mu) ** 2 * v for u, v in zip(a, b)) / t, 0))
    close(Mean(empty_fill=-7.)(x, **kw), [mom(*p)[0] for p in pairs], 1e-9, 1e-9, msg='mean')
    close(StdDev(empty_fill=-7.)(x, **kw), [mom(*p)[1] for p in pairs], 1e-7, 1e-7, msg='spread')
    for ps in ([.16, .5, .84],):
        out = Quantile(ps)(x, **kw)
        for i, (a, b) in enumerate(pairs):
            if a:
                if b is None:
                    close(out[i], [qtl(a, p) for p in ps], 1e-9, 1e-9, msg='quantiles')
                else:
                    for p, v in zip(ps, out[i]):
                        in_range(v, wqtl_range(a, b, p), 1e-8, 'weighted quantile')
    return True
