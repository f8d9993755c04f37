"""A05: volume densities in bins."""
import math
from fractions import Fraction as Fr
from lib.harness import *
from pyhipp.stats import Bootstrap, Rng, RandomNoise
from pyhipp.astro.stats.lss import BinnedVolumeDensity as BVD

ck = Check('A05', 'Samples of 1-25 values (on edges, at the ends, outside), scalar bin counts with ranges and quantile ranges or explicit edges, 1-4 sub-bins, volumes, weights, '
           'seeds, numbers of resamples, size limits and noise. Non-trivial: at least three samples in range in at least two bins.')


def direct(x, w, E, sub):
    """Counts of half-open sub-bins summed over windows of `sub`."""
    s = np.array([sum(float(b) for a, b in zip(x, w) if E[i] <= a < E[i + 1]) for i in range(len(E) - 1)])
    return np.array([s[i:i + sub].sum() for i in range(len(s) - sub + 1)])


bspec = st.one_of(st.tuples(st.just('n'), st.integers(1, 6), st.tuples(st.integers(-6, 2), st.integers(1, 10)) | st.none()),
                  st.tuples(st.just('e'), st.lists(st.integers(-8, 8), min_size=2, max_size=6, unique=True).map(sorted), st.none()))


@ck.test(examples=2500, shards=3, x=st.lists(st.integers(-40, 40).map(lambda v: v / 4) | st.floats(-9, 9), min_size=1, max_size=25), b=bspec, sub=st.integers(1, 7), V=st.sampled_from([1., .5, 1e6, 3., 1e12]),
         weighted=st.sampled_from(['', 'f', 'i', 'big', 'tiny', 'mix', 'zero']), ws=bits64, n=st.integers(1, 5), seed=st.none() | st.integers(0, 2**32), p=st.none() | st.sampled_from([(0., 1.), (.1, .9), (.25, 1.)]), cap=st.none() | st.integers(1, 30),
         pad=st.none() | st.sampled_from([1e-8, 1e-3, 1., 1e-20, 1e-12, 100.]), as_list=st.booleans())
def densities(x, b, sub, V, weighted, ws, n, seed, p, cap, pad, as_list):
    xs = np.array(x)
    kw = dict(volume=V, sub_bins=sub, n_bootstrap=n)
    if b[0] == 'n':
        nb = b[1]
        lo, hi = float(min(x)), float(max(x))
        if p is not None:
            lo, hi = (float(v) for v in np.quantile(xs, p))
            kw['p_range'] = p
        if b[2] is not None:
            r = (float(b[2][0]), float(b[2][0] + b[2][1]))
            kw['range'] = r
            lo, hi = r if p is None else (max(lo, r[0]), min(hi, r[1]))
        if not hi - lo > 1e-3:
            return False
        E = [float(Fr(lo) + (Fr(hi) - Fr(lo)) * i / (nb * sub)) for i in range(nb * sub + 1)]
        bins = nb
    else:
        bins = [float(v) for v in b[1]]
        E = [float(Fr(u) + (Fr(v) - Fr(u)) * i / sub) for u, v in zip(bins[:-1], bins[1:]) for i in range(sub)] + [bins[-1]]
        raises(AssertionError, BVD.from_raw, xs, bins=bins, range=(bins[0], bins[-1]))
    lo, hi = E[0], E[-1]
    # samples within rounding of an inner edge that is not exact are left out of the case
    near = np.array([any(0 < abs(v - e) < 1e-9 or (v == e and not (e * 4).is_integer() and e not in (lo, hi)) for e in E) for v in xs])
    if near.any():
        if b[0] == 'n' and (b[2] is None or p is not None):
            return False
        xs = xs[~near]
        if not len(xs):
            return False
    if b[0] == 'n' and any((e * 1024) != int(e * 1024) for e in E) and any(v in E[1:-1] for v in xs):
        return False
    g = rng_of(ws)
    w = {'': lambda m: np.ones(m), 'f': lambda m: g.integers(1, 9, m).astype(float), 'i': lambda m: g.integers(1, 99, m), 'big': lambda m: g.integers(1, 2**40, m), 'tiny': lambda m: g.integers(1, 9, m) / 2.**30,
         'mix': lambda m: 2. ** g.integers(-15, 16, m), 'zero': lambda m: g.integers(0, 2, m).astype(float)}[weighted](len(xs))
    sel = (xs >= lo) & (xs < hi)
    if not sel.any():
        return False
    if weighted:
        kw['weights'] = w
    if seed is not None:
        kw['rng'] = seed
    if cap is not None:
        kw['dsets_max_sizes'] = [cap]
    if pad is not None:
        kw['policy'] = BVD.Policy(pad)
    x0, w0 = xs.copy(), w.copy()
    out = BVD.from_raw(xs.tolist() if as_list else xs, bins=bins, **kw)
    eq_arr(xs, x0, 'samples changed'), eq_arr(w, w0, 'weights changed')
    want_dx = np.array(E[sub:]) - np.array(E[:-sub])
    close(out['sub_e'], E, 1e-12, 1e-12, 'edges'), close(out['dx'], want_dx, 1e-11, 1e-11, 'widths')
    close(out['x'], (np.array(E[sub:]) + np.array(E[:-sub])) / 2, 1e-11, 1e-11, 'centres')
    # same resamples through the resampling interface, statistic counted directly
    ref = []

    def stat(x, w):
        ref.append(direct(x, w, E, sub))
        return {'h': ref[-1]}
    bk = {} if seed is None else dict(rng=seed)
    if cap is not None:
        bk['dsets_max_sizes'] = [cap]
    Bootstrap.resampled_call(stat, ({'x': xs[sel], 'w': w[sel]},), ('h',), n_resample=n, **bk)
    H = np.array(ref)
    eq_arr(np.asarray(out['h_samples'], float), H, 'counts per resample')
    Y = H / (V * want_dx)
    close(out['y_samples'], Y, 1e-10, 0, 'densities per resample')
    lo_ = 1e-8 if pad is None else pad
    L = np.log10(np.maximum(Y, lo_))
    close(out['lg_y_samples'], L, 1e-9, 1e-9, 'logarithms')
    for k, a in (('h', H), ('y', Y), ('lg_y', L)):
        sc = np.abs(a).max() + (1. if k == 'lg_y' else 1e-30)
        close(out[k], a.mean(0), 1e-9, 1e-12 * sc, k), close(out[k + '_sd'], a.std(0), 1e-6, 1e-9 * sc, k + ' spread')
    m = sel.sum() if cap is None else min(cap, sel.sum())
    if sub == 1 and not weighted:
        eq_arr(np.asarray(out['h_samples'], float).sum(1), np.full(n, float(m)), 'every object is counted once')
        close((out['y'] * out['dx']).sum(), m / V, 1e-9, msg='total density')
    if weighted and sub == 1:
        one = BVD.from_raw(xs, bins=bins, **{**kw, 'weights': np.full(len(xs), 1 / 3.)})
        no = BVD.from_raw(xs, bins=bins, **{k: v for k, v in kw.items() if k != 'weights'} | {'volume': 3 * V})
        close(one['y'], no['y'], 1e-9, 0, 'equal weights 1/Vmax are a uniform volume')
    return int(sel.sum()) > 2 and int((direct(xs[sel], w[sel], E, 1) > 0).sum()) > 1


@ck.test(examples=400, x=st.lists(st.integers(0, 100), min_size=2, max_size=20), e=st.lists(st.integers(0, 100), min_size=2, max_size=6, unique=True).map(sorted), nb=st.none() | st.integers(1, 8), sub=st.integers(1, 3), tx=st.sampled_from(['i8', 'i1', 'u1', 'u4', 'f4', '>f8', 'list', 'strided']),
         tw=st.sampled_from([None, 'i8', 'u1', 'f4', 'i1', '?']), te=st.sampled_from(['i8', 'f4', 'u1', 'list', 'tuple']), V=st.integers(1, 9), seed=st.integers(0, 99), s=bits64)
def number_types(x, e, nb, sub, tx, tw, te, V, seed, s):
    """Samples, weights, edges and volumes of other numeric types."""
    xs = np.array(x, float)
    w = rng_of(s).integers(1 if tw != '?' else 0, 100 if tw != '?' else 2, len(x)).astype(float)
    xt = {'list': list(x), 'strided': np.repeat(xs, 2)[::2]}.get(tx)
    xt = xs.astype(tx) if xt is None else xt
    kw = dict(sub_bins=sub, n_bootstrap=3, rng=seed)
    if nb is not None:
        k1, k2 = dict(bins=nb, range=(float(e[0]), float(e[-1]))), dict(bins=np.int32(nb), range=tuple({'i8': np.int64, 'f4': np.float32, 'u1': np.uint8}.get(te, int)(v) for v in (e[0], e[-1])))
        E = [e[0] + (e[-1] - e[0]) * i / (nb * sub) for i in range(nb * sub + 1)]
    else:
        k1, k2 = dict(bins=np.array(e, float)), dict(bins=np.array(e, te) if te[-1].isdigit() else list(e) if te == 'list' else tuple(e))
        E = [u + (v - u) * i / sub for u, v in zip(e[:-1], e[1:]) for i in range(sub)] + [e[-1]]
    if not ((xs >= e[0]) & (xs < e[-1])).any() or any(0 < abs(v - u) < 1e-3 or (v == u and 0 < i < len(E) - 1 and u != int(u)) for v in x for i, u in enumerate(E)):
        return False
    if any(v == u and u not in e for v in x for u in E):
        return False
    ref = BVD.from_raw(xs, volume=float(V), weights=None if tw is None else w, **k1, **kw)
    got = BVD.from_raw(xt, volume=V, weights=None if tw is None else w.astype(tw), **k2, **kw)
    for q in ('h', 'y', 'lg_y', 'h_sd', 'y_sd', 'h_samples', 'x', 'dx', 'sub_e'):
        close(np.asarray(got[q], float), np.asarray(ref[q], float), 1e-4, 1e-4, f'{q} for types {tx}, {tw}, {te}')
    return len(set(x)) > 2


@ck.test(examples=300, v=st.floats(-3, 3), k=st.integers(1, 30), nb=st.integers(1, 6), seed=st.integers(0, 2**32), w=st.sampled_from([None, .25, 3.]))
def identical(v, k, nb, seed, w):
    """Copies of one object: every resample is the same, so the result is exact and has no spread."""
    kw = {} if w is None else dict(weights=np.full(k, w))
    out = BVD.from_raw(np.full(k, v), bins=nb, range=(-4., 5.), volume=2., rng=seed, sub_bins=1, **kw)
    assert out['h_samples'].shape == (10, nb), 'ten resamples by default'
    i = min(int((v + 4) / (9 / nb)), nb - 1)
    want = np.zeros(nb)
    want[i] = k * (w or 1.)
    if abs((v + 4) / (9 / nb) - round((v + 4) / (9 / nb))) < 1e-9:
        return False
    close(out['h'], want, 1e-12), close(out['h_sd'], np.zeros(nb), 0, 1e-12)
    close(out['y'], want / (2. * 9 / nb), 1e-12), close(out['lg_y'], np.log10(np.maximum(want / (2. * 9 / nb), 1e-8)), 1e-9)
    d = BVD.from_raw(np.array([0., v, 1.]), range=(-4., 5.))
    assert d['sub_e'].shape == (46,) and d['x'].shape == (43,), 'fifteen bins of three sub-bins by default'
    close(d['y'], d['h'] / d['dx'], 1e-12, msg='unit volume by default')
    return k > 1


@ck.test(examples=300, x=st.lists(st.floats(-3, 3), min_size=1, max_size=12), sigma=st.floats(.05, 2), seed=st.integers(0, 2**32), ns=st.integers(0, 99), lg=st.booleans())
def noisy(x, sigma, seed, ns, lg):
    """Noise is added afresh to each batch of resampled values."""
    xs = np.array(x)
    E = np.linspace(-4, 4, 9)
    out = BVD.from_raw(xs, bins=E, sub_bins=1, n_bootstrap=4, rng=seed, noise=RandomNoise(sigma, noise_in_lg=lg, rng=ns))
    o2 = BVD.from_raw(xs, bins=E, sub_bins=1, n_bootstrap=4, rng=seed, noise=RandomNoise(sigma, noise_in_lg=lg, rng=ns))
    eq_arr(out['h_samples'], o2['h_samples'], 'reproducible')
    nz = RandomNoise(sigma, noise_in_lg=lg, rng=ns)
    ref = []

    def stat(x):
        x = nz.add_to(x)
        ref.append(direct(x, np.ones(len(x)), E, 1))
        return {'h': ref[-1]}
    Bootstrap.resampled_call(stat, ({'x': xs},), ('h',), n_resample=4, rng=seed)
    eq_arr(np.asarray(out['h_samples'], float), np.array(ref), 'counts of noisy values')
    return len(x) > 2


@ck.test(examples=80, n=big_sizes, s=bits64, sub=st.integers(1, 5), wb=st.booleans(), nb=st.integers(2, 200), cap=st.none() | st.integers(1, 9000))
def large(n, s, sub, wb, nb, cap):
    """Many objects, some on the edges; with one resample the counts are those of the drawn objects."""
    g = rng_of(s)
    x = g.integers(-2, 8 * nb + 3, n) / 8.
    x[g.integers(0, n, n // 4)] = 0.
    w = g.integers(1, 99, n).astype(float) if wb else None
    bins = np.arange(nb + 1) * 1.
    sel = (x >= 0) & (x < nb)
    if not sel.any():
        return False
    kw = {} if cap is None else dict(dsets_max_sizes=[cap])
    o = BVD.from_raw(x, volume=2., bins=bins, sub_bins=sub, weights=w, n_bootstrap=3, rng=int(s % 1000), **kw)
    # the same resamples through the resampling interface, counted directly
    k = int(sel.sum())
    draws = []

    def stat(i):
        draws.append(np.array(i))
        return {'n': len(i)}
    Bootstrap.resampled_call(stat, [{'i': np.arange(k)}], ['n'], n_resample=3, rng=int(s % 1000), **kw)
    E = np.array([i + j / sub for i in range(nb) for j in range(sub)] + [nb])
    hs = []
    assert [len(i) for i in draws] == [k if cap is None else min(k, cap)] * 3
    for ids in draws:
        xx = x[sel][ids]
        ww = np.ones(len(xx)) if w is None else w[sel][ids]
        i = np.floor(xx).astype(int)
        j = np.array([sum(1 for c in range(1, sub) if a - b >= c / sub) for a, b in zip(xx, i)], int) if sub > 1 else np.zeros(len(xx), int)
        fine = np.zeros(nb * sub)
        np.add.at(fine, i * sub + j, ww)
        hs.append([fine[a:a + sub].sum() for a in range(nb * sub - sub + 1)])
    hs = np.array(hs)
    if sub in (1, 2, 4):
        close(o['h_samples'], hs, 1e-9, 1e-9, msg='counts')
        close(o['h'], hs.mean(0), 1e-9, 1e-9, msg='mean counts')
    else:
        close(o['h_samples'][:, ::sub], hs[:, ::sub], 1e-9, 1e-9, msg='counts')
    return k > 10
