"""P03: two-dimensional density maps."""
import contextlib
import io
import math
import matplotlib.pyplot as plt
from fractions import Fraction as Fr
from lib.harness import *
from pyhipp import plot
from pyhipp.plot.two_dim import Scatter2D

ck = Check('P03', 'Samples of 1-40 points on and off the edges, integer or explicit bins, unequal bin counts and ranges per axis, weights, both rules outside the range, 1-12 neighbours, fractions of 0-1, transforms. '
           'Oracle: exact counting loops and brute-force neighbour search. Non-trivial: samples in at least three cells.')
crd = st.integers(-16, 32).map(lambda v: v / 8) | st.floats(-2, 4)
pts = st.integers(1, 40).flatmap(lambda n: st.lists(st.tuples(crd, crd), min_size=n, max_size=n))
axis = st.one_of(st.tuples(st.just('n'), st.integers(1, 6), st.sampled_from([.25, .5, 1.]), st.integers(-4, 4).map(lambda v: v / 4)),
                 st.tuples(st.just('e'), st.lists(st.integers(-8, 16).map(lambda v: v / 4), min_size=2, max_size=6, unique=True).map(sorted)))


def edges(a):
    return [a[3] + i * a[2] for i in range(a[1] + 1)] if a[0] == 'n' else list(a[1])


def cell(E, v, rule):
    """Index of the bin (last one closed), None or the nearest if outside."""
    if v < E[0]:
        return None if rule == 'zero' else 0
    if v > E[-1]:
        return None if rule == 'zero' else len(E) - 2
    return min(max(i for i in range(len(E)) if E[i] <= v), len(E) - 2)


def density(x, y, w, X, Y):
    H = [[Fr(0)] * (len(Y) - 1) for _ in X[1:]]
    for a, b, c in zip(x, y, w):
        i, j = cell(X, a, 'zero'), cell(Y, b, 'zero')
        if i is not None and j is not None:
            H[i][j] += Fr(c)
    T = sum(map(sum, H))
    if not T:
        return None, H
    return np.array([[float(H[i][j] / T / (Fr(X[i + 1]) - Fr(X[i])) / (Fr(Y[j + 1]) - Fr(Y[j]))) for j in range(len(Y) - 1)] for i in range(len(X) - 1)]), H


def bad(v, a, E):
    """Within rounding of an edge (but not on an exactly known one)."""
    return any(0 < abs(v - e) < 1e-9 for e in E)


@ck.test(examples=2500, shards=4, p=pts, ax=axis, ay=axis, ws=st.none() | bits64, rule=st.sampled_from([None, 'zero', 'fixed']), q=st.lists(st.tuples(crd, crd), min_size=1, max_size=6), ix=st.sampled_from([None, 'xy', 'ij']), nx=st.integers(1, 5), ny=st.integers(1, 5), lists=st.booleans())
def histogram(p, ax, ay, ws, rule, q, ix, nx, ny, lists):
    X, Y = edges(ax), edges(ay)
    x, y = np.array(p).T
    ok = [not bad(a, ax, X) and not bad(b, ay, Y) for a, b in p]
    x, y = x[ok], y[ok]
    w = np.ones(len(x)) if ws is None else rng_of(ws).integers(1, 9, len(x)) / 2.
    H = plot.Histogram2D(ax[1] if ax[0] == 'n' else X, ay[1] if ay[0] == 'n' else Y, x_range=(X[0], X[-1]), y_range=(Y[0], Y[-1]), **({} if rule is None else dict(out_of_range=rule)))
    rule = rule or 'zero'
    D, C = density(x, y, w, X, Y)
    if D is None:
        return False
    x0, y0, w0 = x.copy(), y.copy(), w.copy()
    cv = (lambda a: a.tolist()) if lists else (lambda a: a)
    assert H.fit(cv(x), cv(y), **({} if ws is None else dict(weight=cv(w)))) is H
    close(H.x_e, X, 1e-12, 1e-12), close(H.y_e, Y, 1e-12, 1e-12), close(H.x_c, (np.array(X[1:]) + X[:-1]) / 2, 1e-12, 1e-12), close(H.y_c, (np.array(Y[1:]) + Y[:-1]) / 2, 1e-12, 1e-12)
    close(H.z, D, 1e-9, 0, 'density')
    close((H.z * np.diff(X)[:, None] * np.diff(Y)).sum(), 1., 1e-9, msg='integral')

    def val(a, b):
        i, j = cell(X, a, rule), cell(Y, b, rule)
        return 0. if i is None or j is None else D[i, j]
    z0 = np.array(H.z)
    close(H.on(cv(x), cv(y)), [val(a, b) for a, b in zip(x, y)], 1e-9, 0, 'density at the samples')
    q = [t for t in q if not bad(t[0], ax, X) and not bad(t[1], ay, Y)] + [(X[0], Y[0]), (X[-1], Y[-1]), (X[0] - 1, Y[0]), (X[-1], Y[-1] + 1.)]
    close(H.on(*np.array(q).T), [val(*t) for t in q], 1e-9, 0, 'density at the queries')
    eq_arr(H.z, z0, 'evaluation changed the histogram'), eq_arr(x, x0), eq_arr(y, y0), eq_arr(w, w0)
    # evaluation on a grid
    gx, gy = [t[0] for t in q][:nx], [t[1] for t in q][:ny]
    kw = {} if ix is None else dict(indexing=ix)
    r = H.on_meshgrid(np.array(gx), np.array(gy), **kw)
    want = np.array([[val(a, b) for a in gx] for b in gy])
    wx, wy = np.meshgrid(gx, gy, indexing=ix or 'xy')
    close(r.z_m, want.T if ix == 'ij' else want, 1e-9, 0, 'density on the grid')
    eq_arr(r.x_m, wx), eq_arr(r.y_m, wy), eq_arr(r.x, gx), eq_arr(r.y, gy)
    r = H.on_meshgrid(x_range=(X[0] - 1.0625, X[0] + .0625), y_range=(Y[0] + .0625, Y[0] + .125), n_x=nx, n_y=ny, **kw)
    eq_arr(r.x, np.linspace(X[0] - 1.0625, X[0] + .0625, nx)), eq_arr(r.y, np.linspace(Y[0] + .0625, Y[0] + .125, ny))
    assert r.z_m.shape == ((nx, ny) if ix == 'ij' else (ny, nx))
    r = H.on_meshgrid()
    eq_arr(r.x, np.linspace(0, 1, 10)), eq_arr(r.y, np.linspace(0, 1, 10))
    assert r.z_m.shape == (10, 10)
    raises(AssertionError, plot.Histogram2D, out_of_range='nope')
    return (D > 0).sum() > 2


@ck.test(examples=1500, shards=3, p=pts, k=st.none() | st.integers(1, 12), ws=st.none() | bits64, q=st.lists(st.tuples(st.floats(-3, 5), st.floats(-3, 5)), min_size=1, max_size=5))
def neighbours(p, k, ws, q):
    x, y = np.array(p).T
    n = len(x)
    w = None if ws is None else rng_of(ws).integers(1, 9, n) / 2.
    K = plot.KNearestNeighbor2D(*(() if k is None else (k,)))
    assert K.fit(x, y, weight=w) is K if w is not None else K.fit(x, y) is K
    k = min(k or 10, n)
    want, use = [], []
    for a, b in q:
        d = np.hypot(x - a, y - b)
        o = np.argsort(d, kind='stable')
        r = d[o[k - 1]]
        tie = k < n and d[o[k]] - r < 1e-9 * (1 + r)
        use.append(r > 1e-6 and not (tie and w is not None))
        want.append((k if w is None else w[o[:k]].sum()) / (math.pi * max(r, 1e-9)**2))
    use = np.array(use)
    if not use.any():
        return False
    qa = np.array(q)[use]
    close(K.on(*qa.T), np.array(want)[use], 1e-7, msg='density of the nearest neighbours')
    r = K.on_meshgrid(qa[:, 0], qa[:, 1])
    close(r.z_m.diagonal(), np.array(want)[use], 1e-7, msg='on the grid')
    o = rng_of(n * 7 + k).permutation(n)
    K2 = plot.KNearestNeighbor2D(k).fit(x[o], y[o], weight=None if w is None else w[o])
    close(K2.on(*qa.T), np.array(want)[use], 1e-7, msg='order of the samples')
    return n > 2 and k > 1


@ck.test(examples=500, n=st.integers(2, 30), s=bits64, t=st.sampled_from(['i8', 'i1', 'u1', 'u4', 'f4', '>f8', 'list', 'strided']), tq=st.sampled_from(['i8', 'u1', 'f4', 'list']), tw=st.sampled_from([None, 'i8', 'u1', 'f4', 'list']), te=st.sampled_from(['i8', 'f4', 'u1', 'list', None]), k=st.integers(1, 12), rule=st.sampled_from(['zero', 'fixed']))
def number_types(n, s, t, tq, tw, te, k, rule):
    """Samples, queries, weights and edges of other numeric types."""
    g = rng_of(s)
    x, y, a, b = (g.integers(0, 9, n).astype(float) for _ in range(4))
    w = None if tw is None else g.integers(1, 100, n).astype(float)
    E = [np.sort(g.choice(10, size=int(g.integers(2, 7)), replace=False)).astype(float) for _ in range(2)]

    def form(v, t):
        return v.astype(int).tolist() if t == 'list' else np.repeat(v, 2)[::2] if t == 'strided' else v.astype(t)
    if te is None:
        R = (0, 9), (1, 8)
        H1, H2 = plot.Histogram2D(4, 7, *((float(i), float(j)) for i, j in R), out_of_range=rule), plot.Histogram2D(np.int64(4), np.int32(7), *R, out_of_range=rule)
        if not ((y >= 1) & (y <= 8)).any():
            return False
    else:
        if not ((x >= E[0][0]) & (x <= E[0][-1]) & (y >= E[1][0]) & (y <= E[1][-1])).any():
            return False
        H1, H2 = plot.Histogram2D(*E, out_of_range=rule), plot.Histogram2D(*(form(e, te) for e in E), out_of_range=rule)
    H1.fit(x, y, weight=w), H2.fit(form(x, t), form(y, t), weight=None if w is None else form(w, tw))
    ref = H1.on(a, b)
    close(H2.on(form(a, tq), form(b, tq)), ref, 1e-5, 1e-9, f'histogram for types {t}, {tq}, {tw}, {te}')
    close(H1.on_meshgrid(a, b).z_m.diagonal(), ref, 1e-9), close(H2.on_meshgrid(form(a, tq), form(b, tq)).z_m.diagonal(), ref, 1e-5, 1e-9)
    K1, K2 = plot.KNearestNeighbor2D(k).fit(x, y, weight=w), plot.KNearestNeighbor2D(np.int32(k)).fit(form(x, t), form(y, t), weight=None if w is None else form(w, tw))
    with np.errstate(all='ignore'):
        ref, got = K1.on(a, b), K2.on(form(a, tq), form(b, tq))
    fin = np.isfinite(ref)
    close(got[fin], ref[fin], 1e-4, 1e-9, f'neighbours for types {t}, {tq}, {tw}')
    return n > 3


@ck.test(examples=700, thorough=12000, shards=6, p=pts, ws=st.none() | bits64, nb=st.integers(2, 6) | st.tuples(st.integers(2, 6), st.integers(2, 6)) | st.none(), rng=st.none() | st.tuples(st.integers(-8, 2).map(lambda v: v / 4), st.integers(1, 3), st.integers(-8, 2).map(lambda v: v / 4), st.integers(1, 3)),
         ps=st.lists(st.integers(0, 100).map(lambda v: v / 100), min_size=1, max_size=4, unique=True).map(lambda l: sorted(l, reverse=True)), tr=st.sampled_from([None, None, 'sq', 'x3']), hide=st.integers(0, 100).map(lambda v: v / 100), knn=st.booleans(), via=st.booleans(), fill=st.booleans(), verbose=st.booleans(), bits_=st.integers(0, 999))
def maps(p, ws, nb, rng, ps, tr, hide, knn, via, fill, verbose, bits_):
    p = sorted(set(p))
    x, y = np.array(p).T
    w = None if ws is None else rng_of(ws).integers(1, 9, len(x)) / 2.
    if rng is None:
        R = (x.min(), x.max()), (y.min(), y.max())
        if min(R[0][1] - R[0][0], R[1][1] - R[1][0]) < .25:
            return False
    else:
        R = (rng[0], rng[0] + rng[1]), (rng[2], rng[2] + rng[3])
    BX, BY = (10, 10) if nb is None else (nb, nb) if np.isscalar(nb) else nb
    X, Y = np.linspace(*R[0], BX + 1), np.linspace(*R[1], BY + 1)
    ok = np.array([not bad(a, None, X) and not bad(b, None, Y) for a, b in p])
    if not ok.all():
        return False
    T = {None: None, 'sq': lambda z: z**2, 'x3': lambda z: 3 * z}[tr]
    est = plot.KNearestNeighbor2D(3) if knn else None
    D, _ = density(x, y, w if w is not None else [1] * len(x), X.tolist(), Y.tolist())
    if D is None or (knn and len(x) < 4):
        return False
    try:
        fig, ax = plot.subplots()
        kw = {k: v for k, v in dict(range=None if rng is None else R, n_bins=nb, weight=w, z_transform=T, density_estimator=est).items() if v is not None}
        kw['verbose'] = verbose
        S = ax.scatter_2d(x, y, **kw) if via else Scatter2D(ax, x.tolist(), y.tolist(), **kw)
        close(S.edges[0], X, 1e-12, 1e-12), close(S.edges[1], Y, 1e-12, 1e-12)
        cx, cy = (X[1:] + X[:-1]) / 2, (Y[1:] + Y[:-1]) / 2
        close(S.centers[0], cx, 1e-12, 1e-12), close(S.centers[1], cy, 1e-12, 1e-12), close(S.step, (X[1] - X[0], Y[1] - Y[0]), 1e-9)
        assert S.n_bins == (BX, BY) and S.density_estimator is (est or S.density_estimator)
        if knn:
            k = min(3, len(x))
            Z = np.empty((BY, BX))
            for i, a in enumerate(cx):
                for j, b in enumerate(cy):
                    d = np.hypot(x - a, y - b)
                    o = np.argsort(d, kind='stable')
                    if d[o[k - 1]] < 1e-6 or (w is not None and k < len(x) and d[o[k]] - d[o[k - 1]] < 1e-9):
                        return False
                    Z[j, i] = (k if w is None else w[o[:k]].sum()) / (math.pi * d[o[k - 1]]**2)
        else:
            Z = D.T
        rt = 1e-7 if knn else 1e-9
        close(S.density_on_mesh.z_m, Z, rt, 0, 'map')
        if T is not None:
            Z = T(Z)
        close(S.transformed_density_on_mesh, Z, 3 * rt, 0, 'transformed map')
        z = S.transformed_density_on_mesh
        tot = z.sum()
        zs, cum = S.cum_prob_mass
        eq_arr(zs, np.sort(z.ravel())), close(cum, np.cumsum(zs) / tot, 1e-9, msg='cumulative mass')
        L = S.z_level_at_percentile(ps)
        for pp, l in zip(ps, L):
            assert (z == l).any(), 'the level is the density of a cell'
            assert z[z >= l].sum() / tot >= pp - 1e-9, f'cells at or above the level hold {z[z >= l].sum() / tot} < {pp}'
            assert z[z > l].sum() / tot <= pp + 1e-9, f'cells above the level hold {z[z > l].sum() / tot} > {pp}'
        assert (np.diff(L) >= 0).all(), 'a smaller fraction has a lower level'
        # drawn map
        assert S.mesh() is S
        m = S.plot_outs[-1]
        eq_arr(np.asarray(m.get_array()).reshape(BY, BX), z, 'drawn map')
        v = m.get_coordinates()
        close(v[0, :, 0], X, 1e-12, 1e-12), close(v[:, 0, 1], Y, 1e-12, 1e-12)
        assert m.get_cmap().name == 'jet'
        S.mesh(cmap='viridis', vmin=.25, vmax=.5, alpha=.5)
        m = S.plot_outs[-1]
        assert m.get_cmap().name == 'viridis' and m.get_clim() == (.25, .5) and m.get_alpha() == .5
        if (np.diff(L) > 0).all() and (len(ps) > 1 or not fill):
            assert S.contour(ps, use_fill=fill) is S
            eq_arr(S.plot_outs[-1].levels, L, 'levels of the contours')
            if not fill:
                lw = np.linspace(1, 3, len(ps))
                close(S.plot_outs[-1].get_linewidths(), lw, 1e-12)
        L3 = S.z_level_at_percentile((.99, .95, .68))
        if (np.diff(L3) > 0).all():
            S.contour()
            eq_arr(S.plot_outs[-1].levels, L3, 'default levels')
        # points, with those of the densest region hidden
        assert S.scatter() is S
        eq_arr(np.asarray(S.plot_outs[-1].get_offsets()), np.c_[x, y], 'points')
        if not knn:
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                S.scatter(hide, marker='s', c='r')
            assert bool(buf.getvalue()) == verbose
            shown = np.asarray(S.plot_outs[-1].get_offsets())
            zq = S.density_estimator.on(x, y)
            zq = T(zq) if T is not None else zq
            i = int(np.searchsorted(cum, 1 - hide))
            lv = {zs[max(i - 1 + e, 0)] for e in (-1, 0, 1) if i - 1 + e < len(zs)} if np.abs(cum - (1 - hide)).min() < 1e-9 else {zs[max(min(i - 1, len(zs) - 1), 0)]}
            assert any(np.array_equal(shown, np.c_[x, y][zq < l]) for l in lv), 'points outside the hidden region'
            # every shown point is less dense than the level of the fraction, and the hidden ones hold at least it
            assert all(zq[(x == a) & (y == b)][0] < S.z_level_at_percentile([hide])[0] for a, b in shown)
        if est is not None or bits_ % 3 == 0:      # an estimator serves another plot of other data
            e = est or plot.Histogram2D(x_bins=BX, y_bins=BY, x_range=R[0], y_range=R[1])
            x2, y2 = (x + .3 * (R[0][1] - R[0][0]), y[::-1].copy())
            w2 = None if w is not None else rng_of(bits_).integers(1, 9, len(x)) / 2.
            k2 = {k: v for k, v in dict(range=R, n_bins=(BX, BY), weight=w2).items() if v is not None}
            new = (lambda: plot.KNearestNeighbor2D(3)) if knn else (lambda: plot.Histogram2D(x_bins=BX, y_bins=BY, x_range=R[0], y_range=R[1]))
            if est is None:
                Scatter2D(ax, x, y, density_estimator=e, **dict(k2, weight=w)).density_on_mesh
            with np.errstate(all='ignore'):
                got, want = (Scatter2D(ax, x2, y2, density_estimator=q, **k2).density_on_mesh.z_m for q in (e, new()))
            assert np.array_equal(got, want, equal_nan=True), 'an estimator used before'
        return (D > 0).sum() > 2
    finally:
        plt.close('all')


@ck.test(examples=80, n=st.integers(30, 4000), s=bits64, nb=st.tuples(st.integers(2, 60), st.integers(2, 60)), kf=st.floats(.01, 1), wb=st.booleans(), nq=st.sampled_from([3, 700]), rule=st.sampled_from(['zero', 'fixed']))
def large(n, s, nb, kf, wb, nq, rule):
    """Many samples, cells, neighbours and queries."""
    g = rng_of(s)
    x, y = g.normal(size=(2, n))
    w = g.integers(1, 9, n) / 2. if wb else None
    kw = {} if w is None else dict(weight=w)
    ww = np.ones(n) if w is None else w
    R = (-1.5, 1.625), (-2., 1.75)
    X, Y = np.linspace(*R[0], nb[0] + 1), np.linspace(*R[1], nb[1] + 1)
    i, j = np.searchsorted(X, x, 'right') - 1, np.searchsorted(Y, y, 'right') - 1
    ok = (i >= 0) & (i < nb[0]) & (j >= 0) & (j < nb[1])
    if not ok.any():
        return False
    D = np.zeros(nb)
    np.add.at(D, (i[ok], j[ok]), ww[ok])
    D /= ww[ok].sum() * (X[1] - X[0]) * (Y[1] - Y[0])
    H = plot.Histogram2D(*nb, *R, out_of_range=rule).fit(x, y, **kw)
    close(H.z, D, 1e-9, 1e-12, 'density')
    a, b = g.uniform(-3, 3, (2, nq))
    p, q = np.searchsorted(X, a, 'right') - 1, np.searchsorted(Y, b, 'right') - 1
    out = (p < 0) | (p >= nb[0]) | (q < 0) | (q >= nb[1])
    ref = D[np.clip(p, 0, nb[0] - 1), np.clip(q, 0, nb[1] - 1)]
    if rule == 'zero':
        ref[out] = 0
    close(H.on(a, b), ref, 1e-12, 1e-14, 'density at the queries')
    k = max(1, int(kf * min(n, 900)))
    K = plot.KNearestNeighbor2D(k).fit(x, y, **kw)
    a, b = a[:40], b[:40]
    d = np.hypot(a[:, None] - x, b[:, None] - y)
    o = np.argsort(d, 1)[:, :k]
    r = np.take_along_axis(d, o, 1)[:, -1]
    close(K.on(a, b), ww[o].sum(1) / (math.pi * r ** 2), 1e-7, 0, 'density of the nearest neighbours')
    S = Scatter2D(None, x, y, range=R, n_bins=nb, **kw)
    Z = np.sort(D.ravel())
    c = np.array([math.fsum(Z[:t + 1]) for t in range(0, len(Z), 1)]) if len(Z) < 600 else np.cumsum(Z.astype(np.longdouble)).astype(float)
    zs, cs = S.cum_prob_mass
    close(zs, Z, 1e-9, 1e-12), close(cs, c / c[-1], 1e-11, 1e-13, 'cumulative mass')
    for t in (.99, .68, .3):
        if np.abs(c / c[-1] - (1 - t)).min() < 1e-10:
            continue
        lev = float(S.z_level_at_percentile([t])[0])
        assert Z[Z > lev * (1 + 1e-9)].sum() <= t * c[-1] * (1 + 1e-9) and Z[Z >= lev * (1 - 1e-9)].sum() >= t * c[-1] * (1 - 1e-9), 'level'
    return True
