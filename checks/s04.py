"""S04: density estimation."""
import math
from lib.harness import *
from pyhipp.stats import DensityEstimationND, DensityEstimation1D, _Histogram
from pyhipp.core.dataproc import GridMd
from checks.s03 import points, dists, kern, mk_kernel, TX, as_type

ck = Check('S04', 'Sample sets of 1-24 points in 1-7 dimensions (histograms: 1-3) with optional weights; histogram grids of 1-5 cells per axis (uneven), radii, neighbour counts, kernels; '
           'queries inside, outside, on edges. Non-trivial: unequal weights, a kernel or a limiting radius, with at least two samples near some query.',
           assumptions=['neighbour sets ambiguous to rounding and queries where the definition divides by zero are left out'])
cfg = st.tuples(st.integers(1, 3) | st.integers(1, 7), st.integers(1, 24), st.sampled_from(['uniform', 'cluster', 'lattice']), bits64)
cfg3 = st.tuples(st.integers(1, 3), st.integers(1, 24), st.sampled_from(['uniform', 'cluster', 'lattice']), bits64)


def ball(nd, r):
    return math.pi ** (nd / 2) / math.gamma(nd / 2 + 1) * r ** nd


def nweights(w, n):
    return [1. / n] * n if w is None else [float(v) / math.fsum(map(float, w)) for v in w]


def tophat_edge(k, d):
    return k is not None and any(abs(v - (k[1] + 1 if k[0] == 'tophat' else k[1] if k[0] == 'obj' else 1.)) < 1e-7 for v in d)


def mkw(wb, n):
    return None if wb is None else rng_of(wb).integers(1, 6, n) if wb % 2 else rng_of(wb).uniform(.1, 3., n)


@ck.test(examples=2000, shards=2, c=cfg, m=st.integers(1, 6), k=kern, wb=st.none() | bits64, max_dx=pick(st.none(), (2, st.floats(.1, 3.))), flat=st.booleans(), api=st.booleans())
def local(c, m, k, wb, max_dx, flat, api):
    x, q = points(c, m)
    nd, n = c[0], len(x)
    w = mkw(wb, n)
    kspec, kf = mk_kernel(k)
    R = max_dx if max_dx is not None else float(np.mean([np.std(q[:, j]) for j in range(nd)])) / 10.
    if R < 1e-3:
        return False
    dd = dists(x, q)
    W = nweights(w, n)
    h, nn, far = [], [], []
    for d in dd:
        if any(abs(v - R) < 1e-7 for v in d) or tophat_edge(k, d):
            return False
        ids = [t for t in range(n) if d[t] < R]
        wt = [W[t] for t in ids]
        if kf is not None and ids:
            ks = [kf(d[t]) for t in ids]
            if sum(ks) < 1e-250:
                return False
            wt = [a * b * len(ids) / math.fsum(ks) for a, b in zip(wt, ks)]
        h.append(math.fsum(wt) / ball(nd, R))
        nn.append(len(ids))
        far.append(max([d[t] for t in ids], default=0.))
    xa, qa = (x[:, 0], q[:, 0]) if flat and nd == 1 else (x, q)
    x0, q0 = xa.copy(), qa.copy()
    w0 = None if w is None else w.copy()
    kw = dict(kernel=kspec, weight=w)
    if max_dx is not None:
        kw['max_dx'] = max_dx
    out = (DensityEstimation1D if api else DensityEstimationND).by_local_kernel(xa, qa, **kw)
    close(out['h'], h, 1e-9, 1e-12, 'density')
    eq_arr(out['n_neighbors'], np.array(nn), 'number of neighbours')
    close(out['neighbor_max_dx'], far, 1e-9, 1e-12, 'farthest neighbour')
    eq_arr(xa, x0), eq_arr(qa, q0), (w is None or eq_arr(w, w0))
    return max(nn) > 1 and (w is not None or kf is not None)


@ck.test(examples=2000, shards=2, c=cfg, m=st.integers(1, 6), k=kern, wb=st.none() | bits64, max_dx=pick(st.none(), (2, st.floats(.1, 3.))), flat=st.booleans(), kk=st.integers(1, 24))
def knn(c, m, k, wb, max_dx, flat, kk):
    x, q = points(c, m)
    nd, n = c[0], len(x)
    kk = 1 + kk % n
    w = mkw(wb, n)
    kspec, kf = mk_kernel(k)
    dd = dists(x, q)
    W = nweights(w, n)
    h, nn, far = [], [], []
    for d in dd:
        o = sorted(range(n), key=lambda t: d[t])
        if kk < n and d[o[kk]] - d[o[kk - 1]] < 1e-7 * (1 + d[o[kk]]) or tophat_edge(k, d):
            return False
        ids = o[:kk]
        r = d[ids[-1]]
        if max_dx is not None:
            if any(abs(d[t] - max_dx) < 1e-7 for t in ids):
                return False
            ids = [t for t in ids if d[t] < max_dx]
            r = min(r, max_dx)
        if r < 1e-3:
            return False
        wt = [W[t] for t in ids]
        if kf is not None and ids:
            ks = [kf(d[t]) for t in ids]
            if sum(ks) < 1e-250:
                return False
            wt = [a * b * len(ids) / math.fsum(ks) for a, b in zip(wt, ks)]
        h.append(math.fsum(wt) / ball(nd, r))
        nn.append(len(ids))
        far.append(r)
    xa, qa = (x[:, 0], q[:, 0]) if flat and nd == 1 else (x, q)
    x0, q0 = xa.copy(), qa.copy()
    w0 = None if w is None else w.copy()
    kw = dict(kernel=kspec, weight=w, k=kk)
    if max_dx is not None:
        kw['max_dx'] = max_dx
    out = DensityEstimationND.by_knn(xa, qa, **kw)
    close(out['h'], h, 1e-8, 1e-12, 'density')
    eq_arr(out['n_neighbors'], np.array(nn), 'number of neighbours')
    close(out['neighbor_max_dx'], far, 1e-9, 1e-12, 'radius')
    eq_arr(xa, x0), eq_arr(qa, q0), (w is None or eq_arr(w, w0))
    return max(nn) > 1 and (w is not None or kf is not None or max_dx is not None)


@ck.test(examples=1500, shards=2, c=cfg3, cells=st.lists(st.lists(st.integers(1, 8), min_size=1, max_size=5), min_size=3, max_size=3), lo=st.integers(-8, 0), wb=st.none() | bits64,
         density=st.sampled_from([None, True, False]), fill=st.sampled_from([None, 0., -1., np.nan]), flat=st.booleans(), edges=bits64)
def histogram(c, cells, lo, wb, density, fill, flat, edges):
    nd, n = c[0], c[1]
    x, q = points(c, 8)
    es = [np.concatenate([[lo], lo + np.cumsum(cells[j])]) / 4. for j in range(nd)]
    g = rng_of(edges)
    for j in range(nd):       # queries on edges and inside
        q[0::3, j] = g.choice(es[j], len(q[0::3]))
        q[1::3, j] = g.uniform(es[j][0], es[j][-1], len(q[1::3]))
    w = mkw(wb, n)
    ww = np.ones(n) if w is None else w.astype(float)
    if edges % 3 == 0:      # samples on the edges, the last of which belongs to the last cell
        x = np.round(x * 4) / 4
    elif min(np.abs(np.subtract.outer(x[:, j], es[j])).min() for j in range(nd)) < 1e-9:
        return False
    ids = [np.array([(e <= v).sum() - 1 - (v == e[-1]) for v in x[:, j]]) for j, e in enumerate(es)]
    ok = np.all([(i >= 0) & (i < len(e) - 1) for i, e in zip(ids, es)], axis=0)
    dens = density is not False
    if dens and not ok.any():
        return False
    H = np.zeros([len(e) - 1 for e in es])
    for t in range(n):
        if ok[t]:
            H[tuple(i[t] for i in ids)] += ww[t]
    if dens:
        vol = np.ones(H.shape)
        for j, e in enumerate(es):
            vol *= np.diff(e).reshape([-1 if a == j else 1 for a in range(nd)])
        H = H / H.sum() / vol
        close((H * vol).sum(), 1., 1e-12)
    f = 0. if fill is None else fill
    want, out_ = [], []
    for p in q:
        i = [int((e <= v).sum() - 1) for e, v in zip(es, p)]
        o = any(a < 0 or a >= len(e) - 1 for a, e in zip(i, es))
        out_.append(o)
        want.append(f if o else H[tuple(i)])
    grid = GridMd(*es)
    kw = {} if fill is None else dict(out_fill=fill)
    dkw = {} if density is None else dict(density=density)
    xa, qa = (x[:, 0], q[:, 0]) if flat and nd == 1 else (x, q)
    x0, q0 = xa.copy(), qa.copy()
    res = DensityEstimationND.by_histogram(xa, qa, grid, weight=w, **kw, **dkw)
    close(res['h'], want, 1e-9, 1e-300, 'density')
    eq_arr(res['is_out'], np.array(out_), 'out of range')
    eq_arr(xa, x0), eq_arr(qa, q0)
    # all cell centres at once: the density integrates to one
    ctr = [(e[:-1] + e[1:]) / 2 for e in es]
    C = np.stack(np.meshgrid(*ctr, indexing='ij'), -1).reshape(-1, nd)
    hist = _Histogram(grid, dens).fit(xa, weight=w)
    close(hist(C)['h'], H.ravel(), 1e-9, 1e-300, 'cells')
    close(hist(qa, **kw)['h'], want, 1e-9, 1e-300, 'queries do not interfere')
    out_a, want_a = np.array(out_), np.array(want)
    for sel in (out_a, ~out_a):     # only queries outside, only queries inside: the same values as when mixed
        if sel.any():
            close(hist(qa[sel], **kw)['h'], want_a[sel], 1e-9, 1e-300, 'all on one side of the range')
    raises(AssertionError, _Histogram(grid).fit, np.zeros((3, nd + 1)))
    return (H > 0).sum() > 1 and any(out_)


@ck.test(examples=600, c=cfg, m=st.integers(1, 4), which=st.sampled_from(['knn', 'local']), k=kern, wb=st.none() | bits64, kk=st.integers(1, 24), max_dx=st.floats(.3, 3.), shift=st.floats(-20, 20),
         scale=st.sampled_from([.25, 2., 10.]))
def metamorphic(c, m, which, k, wb, kk, max_dx, shift, scale):
    """Order of samples, overall weight, common shift; the density scales inversely with volume."""
    x, q = points(c, m)
    nd, n = c[0], len(x)
    kk = 1 + kk % n
    w = mkw(wb, n)
    dd = np.array(dists(x, q))
    s = np.sort(dd, 1)
    if (np.abs(dd - max_dx) < 1e-6).any() or (kk < n and (s[:, kk] - s[:, kk - 1] < 1e-6 * (1 + s[:, kk])).any()) or (s[:, 0] > max_dx).any():
        return False
    if s[:, kk - 1].min() < 1e-2 or k is not None and np.exp(-.5 * (s[:, 0] / k[1]) ** 2).min() < 1e-3:
        return False

    def run(x, q, w, f=1.):
        kw = dict(weight=w, max_dx=max_dx * f, kernel=None if k is None else ('gaussian', {'sigma': k[1] * f}))
        return DensityEstimationND.by_knn(x, q, k=kk, **kw)['h'] if which == 'knn' else DensityEstimationND.by_local_kernel(x, q, **kw)['h']
    base = run(x, q, w)
    assert (base >= 0).all()
    p = rng_of(c[3]).permutation(n)
    close(run(x[p], q, None if w is None else w[p]), base, 1e-9, msg='order of samples')
    close(run(x + shift, q + shift, w), base, 1e-5, msg='common shift')
    close(run(x * scale, q * scale, w, scale) * scale ** nd, base, 1e-6, msg='rescaled coordinates')
    if w is not None:
        close(run(x, q, w * 4.), base, 1e-12, msg='overall weight')
    return n > 2


@ck.test(examples=700, d=st.integers(1, 3), n=st.integers(1, 20), m=st.integers(1, 5), s=bits64, tx=st.sampled_from(TX), tq=st.sampled_from(TX), tw=st.none() | st.sampled_from(TX), tg=st.sampled_from(['f4', 'i8', 'i1', 'f8']),
         which=st.sampled_from(['knn', 'local', 'hist', 'hist']), k=st.integers(1, 20), max_dx=st.sampled_from([None, .75, 2, 2.5]), kern_=st.sampled_from([None, 2., 2, ('tophat', {'radius': 3})]), density=st.booleans())
def number_types(d, n, m, s, tx, tq, tw, tg, which, k, max_dx, kern_, density):
    """Samples, weights, queries and edges of other numeric types and layouts."""
    g = rng_of(s)
    x, q = g.integers(0, 6, (n, d)).astype(float), g.integers(0, 6, (m, d)).astype(float)
    w = None if tw is None else g.integers(1, 100, n).astype(float) / (8. if tw in ('f4', '>f8', 'F', 'strided', 'list') else 1.)
    wt = None if w is None else as_type(w, tw)
    k = 1 + k % n
    if which == 'hist':
        E = [np.sort(g.choice(8, size=int(g.integers(2, 6)), replace=False)).astype(float) for _ in range(d)]
        if not np.all([(x[:, j] >= E[j][0]) & (x[:, j] <= E[j][-1]) for j in range(d)], axis=0).any() and density:
            return False
        kw = dict(density=density)
        ref = DensityEstimationND.by_histogram(x, q, GridMd(*E), weight=w, **kw)
        got = DensityEstimationND.by_histogram(as_type(x, tx), as_type(q, tq), GridMd(*[e.astype(tg) for e in E]), weight=wt, **kw)
        eq_arr(got['is_out'], ref['is_out'])
    else:
        max_dx = 1.5 if max_dx is None and which == 'local' else max_dx
        kern_ = 2. if kern_ is not None and max_dx is None else kern_
        f = DensityEstimationND.by_knn if which == 'knn' else DensityEstimationND.by_local_kernel
        kw = dict(max_dx=max_dx, kernel=kern_, **({'k': k} if which == 'knn' else {}))
        with np.errstate(all='ignore'):
            ref = f(x, q, weight=w, **kw)
            got = f(as_type(x, tx), as_type(q, tq), weight=wt, **kw)
        eq_arr(got['n_neighbors'], ref['n_neighbors'])
    fin = np.isfinite(ref['h'])
    close(got['h'][fin], ref['h'][fin], 1e-4, 1e-6, f'types {tx}, {tq}, {tw}')
    return n > 2


@ck.test(examples=30, n=st.integers(1, 4), nd=st.integers(3, 4), s=bits64)
def rejected(n, nd, s):
    """Points are one- or two-dimensional arrays, nothing else."""
    x = rng_of(s).normal(size=(n, 2) + (1,) * (nd - 2))
    raises(AssertionError, DensityEstimationND.by_local_kernel, x, x, max_dx=1.)
    raises(AssertionError, DensityEstimationND.by_knn, x, x, k=1)
    return True


@ck.test(examples=300, n=st.integers(1, 8), s=bits64, R=st.floats(.2, 2.), wb=st.none() | bits64)
def normalisation(n, s, R, wb):
    """In one dimension, the plain local estimate integrates to one over the line."""
    x = rng_of(s).integers(-40, 41, n) / 8.
    w = mkw(wb, n)
    br = np.unique(np.concatenate([x - R, x + R]))
    br = br[np.concatenate([[True], np.diff(br) > 1e-9])]
    mid = (br[1:] + br[:-1]) / 2
    h = DensityEstimation1D.by_local_kernel(x, mid, max_dx=R, weight=w)['h']
    close((h * np.diff(br)).sum(), 1., 1e-9, 1e-7, 'integral')      # piecewise constant between these breaks
    return n > 1


@ck.test(examples=80, n=st.integers(60, 600), s=bits64, kf=st.floats(.02, 1), nq=st.sampled_from([1, 7, 130]), dim=st.integers(1, 3), wb=st.booleans(), R=st.floats(.1, 1.5))
def large(n, s, kf, nq, dim, wb, R):
    """Many samples, neighbours, cells and queries."""
    g = rng_of(s)
    x, q = g.uniform(size=(n, dim)), g.uniform(-.1, 1.1, (nq, dim))
    w = g.uniform(.5, 3, n) if wb else None
    W = np.ones(n) / n if w is None else w / w.sum()
    k = max(1, int(kf * n))
    d = np.sqrt(((q[:, None] - x[None]) ** 2).sum(-1))
    o = np.argsort(d, 1)[:, :k]
    r = np.take_along_axis(d, o, 1)[:, -1]
    if r.min() < 1e-3 or (np.abs(d - R) < 1e-9).any():
        return False
    out = DensityEstimationND.by_knn(x, q, k=k, weight=w)
    close(out['h'], [W[o[i]].sum() / ball(dim, r[i]) for i in range(nq)], 1e-8, 1e-12, 'density of the nearest neighbours')
    eq_arr(out['n_neighbors'], np.full(nq, k))
    out = DensityEstimationND.by_local_kernel(x, q, max_dx=R, weight=w)
    close(out['h'], [W[d[i] < R].sum() / ball(dim, R) for i in range(nq)], 1e-8, 1e-12, 'density in the radius')
    eq_arr(out['n_neighbors'], (d < R).sum(1))
    return k > 1
