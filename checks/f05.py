"""F05: periodic neighbour searches."""
import math
from lib.harness import *
import numba
from numba.experimental import jitclass
from pyhipp.field.neighbor.kd_tree import PE
from pyhipp.field.neighbor.kd_mesh import _PE3Mesh, _PE3_from_meshing_points, _PE3

ck = Check('F05', 'Point sets of 0-20 points (clustered, on cell and box faces, repeated) in boxes of 0.3-1000, one to three dimensions for the tree, 1-6 cells a side (now and then up to 12) for the cell list, query points inside '
           'and (cell list) outside the box, radii from zero to beyond half the box. Non-trivial: some points are neighbours and some are not; a neighbour is found across the box face.')
ns = grid_sizes(6, 12)
boxes = st.sampled_from([1., 8., .3, 100., 1000.])
c01 = st.one_of(st.integers(0, 15).map(lambda v: v / 16), st.floats(0, .999999), st.sampled_from([0., 1 - 1e-12, .5, .02, .98]))
c5 = st.tuples(c01, c01, c01, c01, c01)
rad = st.one_of(st.floats(0, .6), st.sampled_from([0., .0625, .25, .5, .1]))


def mindist(a, b, L):
    d = np.abs(a - b) % L
    d = np.minimum(d, L - d)
    return np.sqrt((d ** 2).sum(-1))


@ck.test(examples=2000, shards=2, nd=st.sampled_from([3, 3, 3, 2, 1, 4, 5]), L=boxes, pts=sized_lists(c5, 0, 20), q=st.lists(c5, min_size=1, max_size=4), rs=st.lists(rad | st.floats(.5, 1.2), min_size=1, max_size=4),
         flags=st.tuples(st.booleans(), st.booleans(), st.booleans()), workers=st.sampled_from([None, 1, 2]), form=st.booleans())
def tree(nd, L, pts, q, rs, flags, workers, form):
    X = (np.array(pts, dtype=float).reshape(-1, 5) * L)[:, :nd]
    X0 = X.copy()
    kw = dict(copy_data=flags[0], balanced_tree=flags[1], compact_nodes=flags[2])
    if flags[1]:
        kw = {k: v for k, v in kw.items() if not v}      # True is the default
    if workers:
        kw['n_workers'] = workers
    t = PE(X, L, **kw)
    assert t.l_box == L and t.n_workers == (workers or 1)
    r_ = t.to_simple_repr()
    assert r_['l_box'] == L and r_['n_workers'] == (workers or 1)
    nt = False
    if flags[0]:
        X += .3 * L     # the tree owns its copy
    for p in q:
        x = np.array(p[:nd]) * L
        for r in rs:
            R = r * L
            d = mindist(X0, x, L)
            sure, maybe = set(np.flatnonzero(d <= R - 1e-9 * L).tolist()), set(np.flatnonzero(d <= R + 1e-9 * L).tolist())
            ids = t.query_r_1(x.tolist() if form else x, R)
            assert ids.dtype == np.int64 and ids.ndim == 1
            assert len(set(ids.tolist())) == len(ids), 'a neighbour is reported twice'
            assert sure <= set(ids.tolist()), f'missed neighbours {sure - set(ids.tolist())}'
            assert set(ids.tolist()) <= maybe, f'{set(ids.tolist()) - maybe} are not within the radius'
            i2, dd = t.query_r_1(x, R, return_d=True)
            assert sorted(i2.tolist()) == sorted(ids.tolist())
            close(dd, d[i2], 1e-9, 1e-9 * L, 'distances')
            nt |= bool(len(ids)) and len(ids) < len(X0) and bool((np.abs(X0[ids] - x) > L / 2).any())
    eq_arr(X0 if not flags[0] else X - .3 * L, X0) if not flags[0] else None
    x = np.array(q[0][:nd]) * L
    for bad in (-1e-3, 1., 1.5):
        y = x.copy()
        y[-1] = bad * L
        raises(AssertionError, t.query_r_1, y, .1, msg='query outside the box')
    if len(X0):
        for bad in (-.1, 1., 1.2):
            Y = X0.copy()
            Y[0, 0] = bad * L
            raises(ValueError, PE, Y, L, msg='points outside the box')
    return nt


@ck.test(examples=500, nd=st.integers(1, 3), L=st.integers(1, 120), n=st.integers(1, 20), s=bits64, t=st.sampled_from(['i8', 'i1', 'u1', 'u4', 'f4', '>f8', 'F', 'list']), tq=st.sampled_from(['i8', 'i1', 'u1', 'f4', 'list']), tl=st.sampled_from([int, float, np.int32, np.float32]), r=st.integers(0, 60), tr=st.sampled_from([int, np.int8, np.float32]), copy=st.booleans())
def number_types(nd, L, n, s, t, tq, tl, r, tr, copy):
    """Points, queries, radii and box sizes of other numeric types."""
    g = rng_of(s)
    X, q = g.integers(0, L, (n, nd)), g.integers(0, L, (3, nd))
    T = PE(X.tolist() if t == 'list' else np.asfortranarray(X, float) if t == 'F' else X.astype(t), tl(L), copy_data=copy)
    nt = False
    for x in q:
        d2 = (np.minimum(abs(X - x), L - abs(X - x)) ** 2).sum(-1)
        want = np.flatnonzero(d2 <= r * r)
        xa = x.tolist() if tq == 'list' else x.astype(tq)
        eq_arr(np.sort(T.query_r_1(xa, tr(r))), want, f'neighbours of {xa!r} within {r} of {L}')
        i, d = T.query_r_1(xa, tr(r), return_d=True)
        eq_arr(np.sort(i), want), close(d, np.sqrt(d2[i]), 1e-6, 1e-9, 'distances')
        nt |= 0 < len(want) < n
    return nt


@jitclass
class _Collect:
    xs: numba.float64[:, :]
    rs: numba.float64[:]
    out: numba.float64[:, :]
    who: numba.int64[:]
    n: numba.int64

    def __init__(self, xs, rs, cap):
        self.xs = xs
        self.rs = rs
        self.out = np.empty((cap, 3), np.float64)
        self.who = np.empty(cap, np.int64)
        self.n = 0

    def on(self, i, x_ngbs):
        for j in range(len(x_ngbs)):
            if self.n < len(self.who):
                self.who[self.n] = i
                self.out[self.n] = x_ngbs[j]
            self.n += 1


@ck.test(examples=2000, shards=2, n=ns, L=boxes, pts=sized_lists(st.tuples(c01, c01, c01), 0, 20), q=sized_lists(st.tuples(c01, c01, c01), 0, 5), rs=st.lists(rad, min_size=1, max_size=5), out=st.tuples(*[st.integers(-1, 1)] * 3), pout=st.booleans())
def cells(n, L, pts, q, rs, out, pout):
    X = np.array(pts, dtype=float).reshape(-1, 3) * L
    if pout:        # periodic images of the points
        X = X + np.array(out) * L
    X0 = X.copy()
    m = _PE3Mesh(L, n)
    h = L / n
    assert m.l_box == L and m.n_grids == n and abs(m.l_grid - h) <= 1e-15 * L
    for x in X[:4]:
        i3 = m.x2xi_3(x)
        for c in range(3):
            assert m.x2xi_1(x[c]) == i3[c]
            assert i3[c] * h <= x[c] + 1e-9 * L and x[c] < (i3[c] + 1) * h + 1e-9 * L, 'not the cell of the point'
        w = i3 % n
        assert m.x2xi_f(x) == (w[0] * n + w[1]) * n + w[2]
    if len(X):
        xf, o = m.argsort(X)
        assert sorted(o.tolist()) == list(range(len(X))) and (np.diff(xf[o]) >= 0).all(), 'not in cell order'
        eq_arr(xf, np.array([m.x2xi_f(x) for x in X]))
    s = _PE3_from_meshing_points(m, X)
    eq_arr(X, X0, 'points changed')
    cf = s.cell_firsts
    assert cf.shape == (n ** 3 + 1,) and cf[0] == 0 and cf[-1] == len(X) and (np.diff(cf) >= 0).all(), 'cell offsets'
    assert sorted(map(tuple, s.xs.tolist())) == sorted(map(tuple, X.tolist())), 'the points are not all kept'
    for c in np.flatnonzero(np.diff(cf)):
        for x in s.xs[cf[c]:cf[c + 1]]:
            assert m.x2xi_f(x) == c, 'a point lies in the wrong cell'
    Q = np.array(q, dtype=float).reshape(-1, 3) * L + np.array(out) * L
    R = np.resize(np.array(rs), len(Q)) * L
    Q0, R0 = Q.copy(), R.copy()
    col = _Collect(Q, R, 400000 // 10)
    s.query_points(col)
    eq_arr(Q, Q0), eq_arr(R, R0)
    if col.n > len(col.who):
        raise HarnessError('too many candidates recorded')
    who, got = col.who[:col.n], col.out[:col.n]
    assert set(who.tolist()) <= set(range(len(Q)))
    nt = False
    from collections import Counter
    P = Counter(map(tuple, X.tolist()))
    for i in range(len(Q)):
        g = Counter(map(tuple, got[who == i].tolist()))
        assert set(g) <= set(P), 'a candidate is not an input point'
        d = mindist(X, Q[i], L)
        for x, dx in zip(X, d):
            if dx <= R[i] - 1e-9 * L:
                assert g[tuple(x)] >= P[tuple(x)], f'missed neighbour {x} of {Q[i]} within {R[i]}'
        span = 2 * R[i] + 2 * h + 1e-9 * L
        if span < L:    # the searched cells do not wrap onto themselves
            for x in g:
                assert g[x] == P[x], 'a candidate is visited twice'
        # candidates lie in cells touched by the search cube
        far = [x for x in g if (np.minimum(np.abs(np.array(x) - Q[i]) % L, L - np.abs(np.array(x) - Q[i]) % L) > R[i] + h + 1e-9 * L).any()]
        assert not far, f'candidates {far} lie outside the searched cells'
        near = d <= R[i] - 1e-9 * L
        nt |= bool(near.any() and not near.all() and (np.abs(X[near] % L - Q[i] % L) > L / 2).any())
    return nt


def _warm():
    m = _PE3Mesh(1., 2)
    x = np.zeros((1, 3))
    m.x2xi_1(.1), m.x2xi_3(x[0]), m.x2xi_f(x[0]), m.argsort(x)
    s = _PE3_from_meshing_points(m, x)
    s.query_points(_Collect(x, np.zeros(1), 10))


try:
    _warm()
except Exception:
    pass


@ck.test(examples=80, n=big_sizes, s=bits64, L=st.sampled_from([1., 7.5]), rf=st.floats(.01, .95), dim=st.integers(1, 3))
def large_tree(n, s, L, rf, dim):
    """Queries that find most of many points."""
    g = rng_of(s)
    x = g.uniform(0, L, (n, dim))
    x[x >= L] = 0
    t = PE(x, L)
    c = g.uniform(0, L, dim)
    dx = np.abs(x - c)
    d = np.sqrt((np.minimum(dx, L - dx) ** 2).sum(-1))
    r = rf * L
    if (np.abs(d - r) < 1e-9 * L).any():
        return False
    ids, dd = t.query_r_1(c, r, return_d=True)
    assert sorted(ids.tolist()) == np.flatnonzero(d <= r).tolist()
    close(dd, d[ids], 1e-9, 1e-12, msg='distances')
    assert sorted(t.query_r_1(c, r).tolist()) == sorted(ids.tolist())
    return len(ids) > 64


@ck.test(examples=80, m=big_sizes, s=bits64, n=st.integers(1, 8), L=st.sampled_from([1., 8.]), rf=st.floats(.01, .4), clumped=st.booleans())
def large_cells(m, s, n, L, rf, clumped):
    """Cells of many points: each neighbour is visited."""
    g = rng_of(s)
    X = g.uniform(0, L, (m, 3)) if not clumped else (g.normal(size=(m, 3)) * .03 * L + g.uniform(0, L, 3)) % L
    X[X >= L] = 0
    t = _PE3_from_meshing_points(_PE3Mesh(L, n), X)
    Q = np.r_[X[:1], g.uniform(0, L, (1, 3))]
    R = np.full(2, rf * L)
    col = _Collect(Q, R, m * 40)
    t.query_points(col)
    assert col.n <= len(col.who), 'points are visited again and again'
    for i in range(2):
        d = mindist(X, Q[i], L)
        near = X[d <= R[i] - 1e-9 * L]
        got = set(map(tuple, col.out[:col.n][col.who[:col.n] == i].tolist()))
        assert set(map(tuple, near.tolist())) <= got, 'missed neighbours'
        assert got <= set(map(tuple, X.tolist()))
    return m > 300
