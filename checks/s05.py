"""S05: random draws and resampling."""
import math
from lib.harness import *
from pyhipp.stats import Rng, Bootstrap, RandomNoise
from pyhipp.stats.random import _Rng
from pyhipp.core import DataDict

ck = Check('S05', 'Seeds, sizes (none, integers, tuples, zero) and histories of 1-8 draws of all kinds from plain and compiled generators; bootstraps of 1-3 paired '
           'data sets with size limits; noise of all widths. Non-trivial: a history of at least two draws of several elements; a resample of at least two rows.')
size = st.sampled_from([None, None, 0, 1, 5, 17, (3,), (2, 3), (0, 2), ()])
draw = st.one_of(
    st.tuples(st.just('random'), size), st.tuples(st.just('uniform'), st.floats(-5, 5), st.floats(.01, 9), size), st.tuples(st.just('standard_normal'), size),
    st.tuples(st.just('normal'), st.floats(-5, 5), st.floats(0, 9), size), st.tuples(st.just('choice'), st.integers(1, 9), st.integers(0, 9), st.booleans(), st.sampled_from(['int', 'list', 'array', '2d']), st.booleans()),
    st.tuples(st.just('permutation'), st.integers(0, 9), st.sampled_from(['int', 'list', 'array', '2d'])), st.tuples(st.just('shuffle'), st.integers(0, 9), st.sampled_from(['list', 'array', '2d', '2d'])),
    st.tuples(st.just('sphere'), size, st.booleans(), st.booleans()), st.tuples(st.just('circle'), size, st.booleans(), st.booleans()))
CONT = {'random', 'uniform', 'standard_normal', 'sphere', 'circle'}


def shp(s):
    return () if s is None else (s,) if isinstance(s, int) else s


def vals(n, kind):
    a = (np.arange(n) * 7 + 3) % 97
    return n if kind == 'int' else a.tolist() if kind == 'list' else a if kind == 'array' else np.stack([a, a * 2], -1)


def rows(x):
    return [tuple(np.atleast_1d(v).tolist()) for v in x]


def perform(r, d):
    """Do one draw, check that it lies in its domain, return it as an array (or tuple of arrays)."""
    k = d[0]
    if k == 'random':
        x = r.random(d[1])
        assert np.shape(x) == shp(d[1]) and (np.asarray(x) >= 0).all() and (np.asarray(x) < 1).all()
    elif k == 'uniform':
        x = r.uniform(d[1], d[1] + d[2], d[3])
        assert np.shape(x) == shp(d[3]) and (np.asarray(x) >= d[1]).all() and (np.asarray(x) <= d[1] + d[2]).all()
    elif k == 'standard_normal':
        x = r.standard_normal(d[1])
        assert np.shape(x) == shp(d[1]) and np.isfinite(x).all() and (np.abs(x) < 20).all()
    elif k == 'normal':
        x = r.normal(d[1], d[2], d[3])
        assert np.shape(x) == shp(d[3]) and (np.abs(np.asarray(x) - d[1]) <= 20 * d[2]).all()
    elif k == 'choice':
        _, n, m, rep, kind, p = d
        if not rep:
            m = min(m, n)
        a = vals(n, kind)
        pool = np.arange(n) if kind == 'int' else np.asarray(a)
        pr = None
        if p:
            pr = np.ones(n)
            if rep:
                pr[n // 2:] = 0 if n > 1 else 1
            pr /= pr.sum()
        x = r.choice(a, size=m, replace=rep, p=pr)
        assert x.shape == (m,) + pool.shape[1:]
        rs = rows(x)
        ok = [tuple(np.atleast_1d(v).tolist()) for v, q in zip(pool, np.ones(n) if pr is None else pr) if q > 0]
        assert set(rs) <= set(ok), 'a choice is not one of the given values'
        if not rep:
            assert len(set(rs)) == len(rs), 'repeated without replacement'
    elif k == 'permutation':
        _, n, kind = d
        a = vals(n, kind)
        pool = np.arange(n) if kind == 'int' else np.asarray(a)
        a0 = np.array(a)
        x = r.permutation(a)
        eq_arr(np.array(a), a0, 'permuted in place')
        assert x.shape == pool.shape and sorted(rows(x)) == sorted(rows(pool)), 'not a permutation of the input'
    elif k == 'shuffle':
        x = vals(d[1], d[2])
        pool = x[:] if d[2] == 'list' else x.copy()
        r.shuffle(x)
        assert sorted(rows(x)) == sorted(rows(pool)), 'shuffling changed the elements'
    elif k == 'sphere':
        _, s, stack, cart = d
        x = r.uniform_sphere(s, stack=stack, cartesian=cart)
        c = np.moveaxis(x, -1, 0) if stack else x
        assert len(c) == (3 if cart else 2) and all(np.shape(v) == shp(s) for v in c)
        if cart:
            close(sum(np.asarray(v) ** 2 for v in c), np.ones(shp(s)), 1e-12, msg='unit length')
        else:
            t, p = map(np.asarray, c)
            assert (t >= 0).all() and (t <= np.pi).all() and (p >= 0).all() and (p < 2 * np.pi).all()
        x = np.stack(c, -1)
    else:
        _, s, stack, cart = d
        x = r.uniform_circle(s, stack=stack, cartesian=cart)
        if cart:
            c = np.moveaxis(x, -1, 0) if stack else x
            assert len(c) == 2 and all(np.shape(v) == shp(s) for v in c)
            close(np.asarray(c[0]) ** 2 + np.asarray(c[1]) ** 2, np.ones(shp(s)), 1e-12, msg='unit length')
            x = np.stack(c, -1)
        else:
            assert np.shape(x) == shp(s) and (np.asarray(x) >= 0).all() and (np.asarray(x) < 2 * np.pi).all()
    return np.asarray(x)


@ck.test(examples=1500, shards=2, seed=st.integers(0, 2**40), ds=sized_lists(draw, 1, 8), how=st.sampled_from(['seed', 'generator', 'rng']), cut=st.integers(0, 7))
def histories(seed, ds, how, cut):
    """Equal seeds, equal histories; a generator handed over carries its state; other seeds differ."""
    def make():
        return Rng(seed) if how == 'seed' else Rng(np.random.default_rng(seed)) if how == 'generator' else Rng(Rng(seed))
    np.random.seed(1)
    r = make()
    a = [perform(r, d) for d in ds]
    np.random.seed(2)       # the global state plays no role
    r2 = make()
    cut %= len(ds)
    b = [perform(r2, d) for d in ds[:cut]]
    r3 = Rng(r2)            # shares the state from here on
    b += [perform(r3 if i % 2 else r2, d) for i, d in enumerate(ds[cut:])]
    for d, x, y in zip(ds, a, b):
        eq_arr(x, y, f'draw {d}')
    more = [perform(q, ('random', 4)) for q in (r, r2, Rng(seed), Rng(seed + 1))]
    eq_arr(more[0], more[1], 'draws after equal histories')
    consumed = any(d[0] in CONT and np.size(x) for d, x in zip(ds, a))
    if consumed:
        assert not np.array_equal(more[0], more[2]), 'the state does not advance'
    assert not np.array_equal(more[2], more[3]), 'seeds do not matter'
    for d, x in zip(ds, a):
        if d[0] in CONT and x.size > 1:
            assert len(set(x.ravel().tolist())) > 1, 'constant draws'
        if d[0] in ('random', 'standard_normal') and x.size > 1:
            assert len(set(x.ravel().tolist())) == x.size, 'repeated draws'
    return sum(x.size > 1 for x in a) > 1


@ck.test(examples=60, seed=st.integers(0, 2**40))
def defaults(seed):
    eq_arr(Rng().random(3), Rng(0).random(3), 'default seed')
    raises(AssertionError, Rng, 'seed')
    raises(AssertionError, Rng, 1.5)
    a, b = Rng(None), Rng(None)
    assert not np.array_equal(a.random(4), b.random(4))
    # first moments over many draws (bounds of ten standard errors)
    r, n = Rng(seed), 20000
    e = 10 / math.sqrt(n)
    x = r.random(n)
    assert abs(x.mean() - .5) < e * .29 and abs(x.var() - 1 / 12) < e * .1
    x = r.uniform(2., 6., n)
    assert abs(x.mean() - 4) < e * 1.2 and x.max() > 5.9 and x.min() < 2.1
    x = r.standard_normal(n)
    assert abs(x.mean()) < e and abs(x.var() - 1) < e * 1.5
    x = r.normal(3., 2., n)
    assert abs(x.mean() - 3) < 2 * e and abs(x.std() - 2) < 2 * e
    x = r.uniform_sphere(n)
    assert (np.abs(x.mean(0)) < e).all() and (np.abs((x ** 2).mean(0) - 1 / 3) < e).all() and (np.abs((x[:, 0] * x[:, 1]).mean()) < e)
    assert abs((x[:, 2] ** 2).mean() - 1 / 3) < e and abs((np.abs(x[:, 2]) < .5).mean() - .5) < e
    x = r.uniform_circle(n)
    assert (np.abs(x.mean(0)) < e).all() and (np.abs((x ** 2).mean(0) - .5) < e).all()
    t = r.uniform_circle(n, cartesian=False)
    assert t.max() > 6.2
    for q in (Rng(seed), _Rng(np.random.default_rng(seed))):      # omitted parameters
        for k, a in (('uniform', (0., 1.)), ('normal', (0., 1.))) + ((('lg_normal', (0., 1.)),) if isinstance(q, _Rng) else ()):
            f = getattr(q, k)
            x = np.array([f() for _ in range(2000)]) if isinstance(q, _Rng) else f(size=2000)      # compiled methods take no keywords
            x = np.log10(x) if k == 'lg_normal' else x
            m, v = (.5, 1 / 12) if k == 'uniform' else (0., 1.)
            assert abs(x.mean() - m) < 3 * e and abs(x.var() - v) < 5 * e, f'default parameters of {k}'
            assert np.ndim(f()) == 0
    for k, a in (('uniform', dict(low=0., high=1.)), ('normal', dict(loc=0., scale=1.))):
        eq_arr(getattr(Rng(seed), k)(size=5), getattr(Rng(seed), k)(size=5, **a), f'default parameters of {k}')
    eq_arr(Rng(seed).choice(9, size=6), Rng(seed).choice(9, size=6, replace=True, p=None, axis=0, shuffle=True), 'default parameters of choice')
    eq_arr(Rng(seed).choice(9, size=6, replace=False), Rng(seed).choice(9, size=6, replace=False, shuffle=True), 'default parameters of choice')
    kept = [Rng(seed + i).choice(50, size=6, replace=False, shuffle=False) for i in range(3)]
    eq_arr(kept[0], np.random.default_rng(seed).choice(50, size=6, replace=False, shuffle=False), 'draw without shuffling')
    # along another axis, the slices are permuted as a whole
    a = np.arange(60).reshape(3, 4, 5)
    for ax in (0, 1, 2):
        m0 = np.moveaxis(a, ax, 0)
        x = Rng(seed).permutation(a, axis=ax)
        y = a.copy()
        Rng(seed).shuffle(y, axis=ax)
        for z in (x, y):
            m = np.moveaxis(z, ax, 0)
            assert z.shape == a.shape and sorted(map(str, m.tolist())) == sorted(map(str, m0.tolist())), 'slices along the axis'
        z = Rng(seed).choice(a, size=7, axis=ax)
        m = np.moveaxis(z, ax, 0)
        assert len(m) == 7 and all(any(np.array_equal(u, v) for v in m0) for u in m), 'choice along the axis'
    many = {Rng(seed + i).permutation(a, axis=2).tobytes() for i in range(12)} | {a.tobytes()}
    assert len(many) > 6, 'axes are not permuted'
    x = r.choice(4, size=n)
    assert (np.abs(np.bincount(x, minlength=4) / n - .25) < e).all()
    return True


fsize = st.sampled_from([1, 5, (2, 3), None])
fdraw = st.one_of(st.tuples(st.just('random'), fsize), st.tuples(st.just('uniform'), st.floats(-5, 5), st.floats(.01, 9), fsize), st.tuples(st.just('standard_normal'), fsize),
                  st.tuples(st.just('normal'), st.floats(-5, 5), st.floats(0, 2), fsize), st.tuples(st.just('lg_normal'), st.floats(-2, 2), st.floats(0, 2), fsize),
                  st.tuples(st.just('uniform_sphere_polar'), fsize), st.tuples(st.just('uniform_sphere_cart'), fsize))


@ck.test(examples=500, seed=st.integers(0, 2**40), ds=sized_lists(fdraw, 1, 6))
def compiled(seed, ds):
    """The compiled generator draws from the same domains and follows the same history."""
    r, r2 = _Rng(np.random.default_rng(seed)), _Rng(np.random.default_rng(seed))
    p = Rng(seed)

    def one(r, d):
        a = list(d[1:])
        if d[0] == 'uniform':
            a[1] += a[0]
        f = getattr(r, d[0])
        x = f(*(a[:-1] if a[-1] is None else a))
        return x if isinstance(x, tuple) else (x,)
    for d in ds:
        x, y = one(r, d), one(r2, d)
        sh = shp(d[-1])
        for u, v in zip(x, y):
            assert np.shape(u) == sh
            eq_arr(u, v, f'{d}')
        if d[0] == 'uniform_sphere_cart':
            close(sum(np.asarray(v) ** 2 for v in x), np.ones(sh), 1e-12)
            ref = p.uniform_sphere(d[-1], stack=False)
        elif d[0] == 'uniform_sphere_polar':
            assert (np.asarray(x[0]) <= np.pi).all() and (np.asarray(x[0]) >= 0).all() and (np.asarray(x[1]) < 2 * np.pi).all()
            ref = p.uniform_sphere(d[-1], stack=False, cartesian=False)
        elif d[0] == 'lg_normal':
            assert (np.asarray(x[0]) > 0).all()
            ref = (10.**np.asarray(p.normal(d[1], d[2], d[3])),)
        else:
            ref = (getattr(p, d[0])(*((d[1], d[1] + d[2], d[3]) if d[0] == 'uniform' else d[1:])),)
        for u, v in zip(x, ref):
            close(u, v, 1e-9, 1e-12, f'{d}: compiled and plain generators agree')
    return len(ds) > 1


def as_iter(v, how):
    """the same items in another iterable"""
    return {'list': list, 'tuple': tuple, 'iter': iter, 'gen': lambda v: (x for x in v), 'values': lambda v: dict(enumerate(v)).values()}[how](v)


dset = st.tuples(st.integers(1, 7), st.integers(1, 3), st.sampled_from(['f8', 'i8', '2d', 'square', 'cube', 'deep', 'mixed', 'mixed']))


@ck.test(examples=1200, shards=2, dsets=sized_lists(dset, 1, 3), n=st.integers(1, 6), seed=st.integers(0, 2**32), caps=st.none() | st.lists(st.integers(0, 9), min_size=3, max_size=3),
         keep=st.booleans(), kw=st.booleans(), rk=st.sampled_from(['int', 'rng', 'default', 'generator']), extra=st.booleans(), it=st.sampled_from(['list', 'tuple', 'tuple', 'iter', 'gen', 'values']))
def bootstrap(dsets, n, seed, caps, keep, kw, rk, extra, it):
    data, base = [], 0
    for i, (m, cols, kind) in enumerate(dsets):
        ids = base + np.arange(m)          # every row of every set is recognisable
        d = {}
        for c in range(cols):
            v = ids * 10 + c
            if kind == 'mixed':         # arrays of different dimensions side by side
                kind_ = ('i8', 'deep', '2d', 'f8', 'cube')[(m + c) % 5]
            else:
                kind_ = kind
            tail = {'2d': (2,), 'square': (m,), 'cube': (m, m), 'deep': (m, 1, 2)}.get(kind_, ())     # shapes of a row
            d[f'd{i}c{c}'] = v if kind_ == 'i8' else v.astype('f8') if kind_ == 'f8' else v.reshape((m,) + (1,) * len(tail)) + np.arange(math.prod(tail)).reshape(tail) / 128
        data.append(d)
        base += m
    before = [{k: v.copy() for k, v in d.items()} for d in data]
    calls = []

    def stat(opt=None, **a):
        calls.append({k: np.array(v) for k, v in a.items()})
        tot = sum(float(np.sum(v)) for v in a.values())
        out = {'tot': tot, 'vec': np.array([tot, len(calls), 1.]), 'first': len(calls), 'mat': np.array([[tot, .1], [len(calls), -tot / 3]])}
        if opt is not None:
            out['opt'] = opt
        return DataDict(out) if extra else out
    skw = {'opt': 'given'} if kw else None
    cp = None if caps is None else caps[:len(data)]
    args = dict(stats_kw=skw, n_resample=n, keep_samples=keep, dsets_max_sizes=cp)

    def rng():
        return {'int': dict(rng=seed), 'rng': dict(rng=Rng(seed)), 'generator': dict(rng=np.random.default_rng(seed)), 'default': {}}[rk]
    out = Bootstrap.resampled_call(stat, as_iter(data, it), as_iter(('tot', 'vec', 'mat'), it), **{**args, 'dsets_max_sizes': None if cp is None else as_iter(cp, it)}, **rng())
    first = list(calls)
    assert len(first) == n, 'one call per resample'
    for a in first:
        for i, d in enumerate(data):
            m = dsets[i][0] if cp is None else min(dsets[i][0], cp[i])
            pos = None
            for k, v in d.items():
                got = a[k]
                assert got.shape == (m,) + v.shape[1:] and got.dtype == v.dtype, f'{k}: resampled shape {got.shape}'
                where = [int(np.flatnonzero([np.array_equal(x, y) for y in v])[0]) if any(np.array_equal(x, y) for y in v) else None for x in got]
                assert None not in where, f'{k}: a resampled row is not an input row'
                if pos is None:
                    pos = where
                assert where == pos, f'{k}: paired arrays were resampled differently'
        assert set(a) == {k for d in data for k in d}
    for d, b in zip(data, before):
        for k in b:
            eq_arr(d[k], b[k], 'input changed')
    tots = np.array([sum(float(np.sum(v)) for v in a.values()) for a in first])
    close(out['tot'], tots.mean(), 1e-10, msg='mean over resamples')
    close(out['tot_sd'], tots.std(), 1e-7, 1e-7, 'spread over resamples')
    assert np.shape(out['vec']) == (3,) == np.shape(out['vec_sd'])
    close(out['vec'], [tots.mean(), (n + 1) / 2, 1.], 1e-10)
    close(out['mat'], [[tots.mean(), .1], [(n + 1) / 2, -tots.mean() / 3]], 1e-12, msg='mean of a matrix')
    close(out['mat_sd'], [[tots.std(), 0.], [np.arange(n).std(), tots.std() / 3]], 1e-7, 1e-7, 'spread of a matrix')
    close(out['vec_sd'], [tots.std(), np.arange(n).std(), 0.], 1e-7, 1e-7)
    assert out['first'] == 1, 'other results come from the first resample'
    assert ('tot_samples' in out) == keep == ('vec_samples' in out)
    if keep:
        close(out['tot_samples'], tots, 1e-12)
        assert out['vec_samples'].shape == (n, 3)
    if kw:
        assert out['opt'] == 'given'
    if kw and data[0]:      # what is given for the statistic is passed as it is, even under the name of a data column
        got = []
        Bootstrap.resampled_call(lambda **a: got.append(a['d0c0']) or {'z': 0.}, data, ['z'], stats_kw={'d0c0': 'fixed'}, n_resample=2, **rng())
        assert got == ['fixed'] * 2, 'options of the statistic were replaced by data'
    calls.clear()
    Bootstrap.resampled_call(stat, data, ['tot'], **args, **rng())
    for a, b in zip(first, calls):
        for k in a:
            eq_arr(a[k], b[k], 'equal seeds, equal resamples')
    if n > 1 and max(d[0] for d in dsets) > 5 and cp is None:
        k = max(range(len(dsets)), key=lambda i: dsets[i][0])
        nm = f'd{k}c0'
        if n > 4:
            assert len({a[nm].tobytes() for a in first}) > 1, 'all resamples are the same'
            assert any(len(np.unique(a[nm], axis=0)) < len(a[nm]) for a in first), 'drawn without replacement'
    if rk == 'rng':     # a generator handed in advances
        r = Rng(seed)
        Bootstrap.resampled_call(stat, data, ['tot'], **args, rng=r)
        if max(min(d[0], 9 if cp is None else cp[i]) for i, d in enumerate(dsets)) > 1:
            assert not np.array_equal(r.random(3), Rng(seed).random(3))
    return max(d[0] for d in dsets) > 1 and n > 1


@ck.test(examples=150, sizes=st.lists(st.integers(2, 30), min_size=1, max_size=2), caps=st.lists(st.none() | st.integers(1, 40), min_size=2, max_size=2), seed=st.integers(0, 2**32), rk=st.sampled_from(['int', 'rng']))
def draws_with_replacement(sizes, caps, seed, rk):
    """Every row is as likely as any other at every place of a resample, whatever its size (wrong less than once in 1e10 cases)."""
    lim = None if all(c is None for c in caps[:len(sizes)]) else [c or 99 for c in caps[:len(sizes)]]
    rec = [[] for _ in sizes]

    def stat(**a):
        for i, v in enumerate(rec):
            v.append(a[f'x{i}'])
        return {'m': 0.}
    R = 400
    Bootstrap.resampled_call(stat, [{f'x{i}': np.arange(n)} for i, n in enumerate(sizes)], ['m'], n_resample=R, dsets_max_sizes=lim, rng=seed if rk == 'int' else Rng(seed))
    for i, n in enumerate(sizes):
        s = np.array(rec[i])
        m = n if lim is None else min(n, lim[i])
        assert s.shape == (R, m)

        def even(v, k, tag):
            e = len(v) / k      # Bernstein bound, k counts
            dev = np.abs(np.bincount(v, minlength=k) - e).max()
            assert dev * dev / (2 * (e + dev / 3)) < 24 + math.log(2 * k), f'{tag}: {np.bincount(v, minlength=k)} of {len(v)} draws'
        even(s.ravel(), n, 'rows are not equally likely')
        for j in range(m):
            even(s[:, j], n, f'place {j}')
        if m > 1:
            dup = (s[:, 0] == s[:, -1]).sum()
            e = R / n
            assert abs(dup - e) ** 2 / (2 * (e + abs(dup - e) / 3)) < 25 or dup > e, f'the ends of a resample agree {dup} times of {R}, expected {e}'
            none = math.prod(1 - k / n for k in range(m))
            if none ** R < 1e-11:
                assert any(len(set(r)) < m for r in s.tolist()), 'drawn without replacement'
            assert dup < R, 'one row only'
    return True


@ck.test(examples=800, x=sized_lists(st.floats(-50, 50) | st.sampled_from([1e-40, -1e-200, 1e30, -7e150, 0.]), 0, 9), sigma=st.sampled_from([0., .1, 1., 3.]) | st.floats(0, 4), rep=st.integers(1, 4) | st.integers(5, 40) | st.sampled_from([64, 100, 257]), lg=st.booleans(), seed=st.integers(0, 2**32), form=st.booleans())
def noise(x, sigma, rep, lg, seed, form):
    a = np.array(x)
    src = a if form else list(x)

    def mk(s=sigma, lg=lg, sd=seed):
        return RandomNoise(s, noise_in_lg=lg, rng=sd)
    kw = {} if rep == 1 else dict(n_repeats=rep)
    nz = mk()
    y = nz.add_to(src, **kw)
    sh = (len(x),) if rep == 1 else (rep, len(x))
    assert y.shape == sh, f'{y.shape} != {sh}'
    eq_arr(np.array(src), a, 'input changed')
    eq_arr(mk().add_to(src, **kw), y, 'equal seeds')
    eq_arr(mk(sd=Rng(seed)).add_to(src, **kw), y, 'a generator as seed')
    d1 = mk(1., False).add_to(np.zeros(len(x)), **kw)       # the deviates of this seed
    if lg:
        close(y, np.broadcast_to(a * 10.**(sigma * d1), sh), 1e-9, 0, 'multiplicative noise')
    else:
        close(y, np.broadcast_to(a + sigma * d1, sh), 1e-9, 1e-12, 'additive noise')
    if d1.size > 1:
        assert len(set(d1.ravel().tolist())) == d1.size, 'the same deviate twice'
        assert not np.array_equal(mk(1., False, seed + 1).add_to(np.zeros(len(x)), **kw), d1)
    if len(x):
        o = mk(1., False)
        first = o.add_to(np.zeros(len(x)))
        assert not np.array_equal(first, o.add_to(np.zeros(len(x)))), 'the noise repeats itself'
    raises(AssertionError, RandomNoise, 1., 'cauchy')
    return len(x) > 1 and sigma > 0


@ck.test(examples=10, seed=st.integers(0, 2**32))
def noise_moments(seed):
    n = 20000
    d = RandomNoise(2., rng=seed).add_to(np.full(n, 5.))
    e = 10 / math.sqrt(n)
    assert abs(d.mean() - 5.) < 2 * e and abs(d.std() - 2.) < 2 * e
    return True


def _warm():
    r = _Rng(np.random.default_rng(0))
    for s in ((), (1,), ((2, 3),)):
        r.random(*s), r.standard_normal(*s), r.uniform_sphere_polar(*s), r.uniform_sphere_cart(*s)
        r.uniform(0., 1., *s), r.normal(0., 1., *s), r.lg_normal(0., 1., *s)


try:
    _warm()
except Exception:
    pass


@ck.test(examples=80, n=big_sizes, nr=st.sampled_from([2, 30, 150]), cap=st.none() | st.integers(1, 9000), seed=st.integers(0, 2**32))
def large(n, nr, cap, seed):
    """Large data sets and many resamples: paired rows, sizes, statistics over all resamples."""
    x = np.arange(n)
    sizes, firsts = [], []
    def fn(x, y):
        assert (y == x * 2.5 + 1).all(), 'the rows are no longer paired'
        sizes.append(len(x))
        firsts.append(np.array(x))
        return {'m': x.mean(), 'v': np.array([x[0], x[-1]])}
    o = Bootstrap.resampled_call(fn, [{'x': x, 'y': x * 2.5 + 1}], ['m', 'v'], n_resample=nr, rng=seed, keep_samples=True, dsets_max_sizes=None if cap is None else [cap])
    assert sizes == [n if cap is None else min(n, cap)] * nr
    ms = np.array([f.mean() for f in firsts])
    eq_arr(o['m_samples'], ms, 'samples')
    close(o['m'], ms.mean(), 1e-12, msg='mean')
    close(o['m_sd'], ms.std(), 1e-9, 1e-12, msg='spread')
    assert o['v_samples'].shape == (nr, 2)
    allv = np.concatenate(firsts)
    assert allv.min() >= 0 and allv.max() < n
    k = len(allv)
    if k > 500:                           # drawn over the whole set (20 sigma)
        assert abs(allv.mean() / (n - 1) - .5) < 20 * .29 / k ** .5
    r = Rng(seed)
    a, c = r.random(n), r.standard_normal(n)
    assert ((a >= 0) & (a < 1)).all() and len(np.unique(a)) == n and len(np.unique(c)) == n
    p = r.permutation(n)
    assert sorted(p.tolist()) == list(range(n))
    return True
