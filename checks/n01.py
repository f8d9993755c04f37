"""N01: bisection and linear interpolation."""
from fractions import Fraction as Fr
from lib.harness import *
from pyhipp.numerical import interpolate as ip

ck = Check('N01', 'Ascending node lists of 1-9 integers, dyadic or arbitrary floats (with and without repeats, in several layouts), queries on, between, next to '
           'and outside nodes. Non-trivial: a query strictly between two different nodes or exactly on an inner node.')
num = pick(st.integers(-20, 20).map(float), st.integers(-400, 400).map(lambda v: v / 16), st.floats(-1e6, 1e6, allow_subnormal=False),
           st.floats(-1e-3, 1e-3, allow_subnormal=False))
nodes_rep = sized_lists(num, 1, 9).map(sorted)
nodes = sized_lists(num, 2, 9).map(lambda v: sorted(set(v))).filter(lambda v: len(v) >= 2)
qspec = st.tuples(st.sampled_from(['node', 'next', 'prev', 'mid', 'frac', 'mirror', 'far', 'below', 'above', 'free']), st.integers(0, 8), st.floats(0, 1), num)


def query(x, q):
    k, i, t, v = q
    i %= len(x)
    j = min(i + 1, len(x) - 1)
    return float({'node': x[i], 'next': np.nextafter(x[i], np.inf), 'prev': np.nextafter(x[i], -np.inf), 'mid': (x[i] + x[j]) / 2,
                  'frac': x[i] + t * (x[j] - x[i]), 'mirror': x[j] - t * (x[j] - x[i]), 'far': x[-1] * 3 + 1e7, 'below': x[0] - 1 - abs(v),
                  'above': x[-1] + 1 + abs(v), 'free': v}[k])


TYPES = [('i1', 'f8', 'same'), ('u1', 'f8', 'i8'), ('i4', 'i4', 'f8'), ('i8', 'f4', 'i8'), ('u4', 'f8', 'same'), ('f4', 'f4', 'same'), ('f4', 'f8', 'f8'), ('i8', 'u1', 'f4')]


def layout(x, kind):
    a = np.array(x)
    if kind == 'strided':
        b = np.zeros(2 * len(a), a.dtype)
        b[::2] = a
        return b[::2]
    return a


@ck.test(examples=4000, shards=2, x=nodes_rep, qs=st.lists(qspec, min_size=1, max_size=4), integer=st.booleans(), kind=st.sampled_from(['c', 'strided']))
def bisection(x, qs, integer, kind):
    if integer:
        x = sorted(int(min(max(v, -1e6), 1e6)) for v in x)
    a = layout(x, kind)
    nt = False
    us = [query(x, q) for q in qs]
    for u in us:
        i = ip.bisearch(a, u)
        want = sum(1 for v in x if v <= u) - 1
        assert i == want, f'bisearch({x}, {u}) = {i}, expected {want}'
        j = ip.bisearch_nearest(a, u)
        assert 0 <= j < len(x)
        d = [abs(Fr(v) - Fr(u)) for v in x]
        assert float(d[j]) <= float(min(d)) * (1 + 1e-12), f'bisearch_nearest({x}, {u}) = {j}: not a nearest node'
        nt |= 0 < want < len(x) - 1
    b = ip.bisearch_nearest_array(a, np.array(us))
    assert b.dtype.kind == 'i' and b.tolist() == [ip.bisearch_nearest(a, u) for u in us]
    eq_arr(a, x, 'nodes unchanged')
    raises(AssertionError, ip.bisearch, np.zeros(0), 1.)
    return nt


def exact_w(x, u):
    """(l, r, weight of r) by exact arithmetic, with the documented rule outside the nodes"""
    n = len(x)
    if u < x[0]:
        return 0, 0, Fr(0)
    if u >= x[-1]:
        return n - 1, n - 1, Fr(0)
    l = max(i for i in range(n) if x[i] <= u)
    return l, l + 1, (Fr(u) - Fr(x[l])) / (Fr(x[l + 1]) - Fr(x[l]))


@ck.test(examples=1200, x=sized_lists(st.integers(-128, 127), 1, 9).map(sorted), y=st.lists(st.integers(-100, 100), min_size=9, max_size=9), types=st.sampled_from(TYPES),
         us=st.lists(pick(st.integers(-140, 140), st.integers(-280, 280).map(lambda v: v / 2), st.sampled_from([np.inf, -np.inf, 1e9])), min_size=1, max_size=4),
         oob=st.tuples(st.integers(-5, 5), st.integers(-5, 5)))
def number_types(x, y, types, us, oob):
    """Nodes, values and queries of other numeric types (small values, exactly representable in all of them)."""
    tx, ty, tu = types
    if tx[0] == 'u':
        x = sorted(v + 128 for v in x)
        us = [v + 128 for v in us]
    if ty == 'u1':
        y = [v + 100 for v in y]
    t = np.dtype({'same': tx}.get(tu, tu))
    if t.kind in 'iu':
        lo, hi = np.iinfo(t).min, np.iinfo(t).max
        us = [int(min(max(v, lo), hi)) if np.isfinite(v) else 100 for v in us]
    n = len(x)
    xa, ya = np.array(x).astype(tx), np.array(y[:n]).astype(ty)
    nt = False
    for u in us:
        q = t.type(u)
        want = sum(1 for v in x if v <= u) - 1
        assert ip.bisearch(xa, q) == want, f'bisearch({x}:{tx}, {q!r}) = {ip.bisearch(xa, q)}, expected {want}'
        j = ip.bisearch_nearest(xa, q)
        assert 0 <= j < n
        d = [abs(v - u) for v in x]
        assert d[j] == min(d) or (np.isinf(u) and j == (n - 1 if u > 0 else 0)), f'bisearch_nearest({x}:{tx}, {q!r}) = {j}'
        if np.isinf(u):
            l = r = n - 1 if u > 0 else 0
            w = Fr(0)
        else:
            l, r, w = exact_w(x, u)
        ref = float(y[l] * (1 - w) + y[r] * w)
        tol = 1e-4 if 'f4' in (tx, ty, t.str[1:]) else 1e-10
        close(ip.bisearch_interp(xa, ya, q), ref, 0, tol, f'bisearch_interp({x}:{tx}, {y[:n]}:{ty}, {q!r})')
        f = ip.bisearch_interp_fix_oob(xa, ya, q, oob[0], float(oob[1]))
        close(f, oob[0] if u < x[0] else oob[1] if u > x[-1] else ref, 0, tol, 'out of bounds value')
        nt |= 0 < w < 1
    b = ip.bisearch_nearest_array(xa, np.array(us).astype(t))
    assert b.dtype.kind == 'i' and b.tolist() == [ip.bisearch_nearest(xa, t.type(u)) for u in us]
    return nt


@ck.test(examples=3000, shards=2, x=nodes_rep, y=st.lists(num, min_size=9, max_size=9), qs=st.lists(qspec, min_size=1, max_size=4), oob=st.tuples(num, num),
         extra=st.sampled_from([(), (), (2,)]))
def interpolation(x, y, qs, oob, extra):
    n = len(x)
    xa = np.array(x)
    ya = np.array(y[:n])
    Y = ya if not extra else np.stack([ya, 2 * ya[::-1]], -1)
    nt = False
    for q in qs:
        u = query(x, q)
        l, r, w = exact_w(x, u)
        gl, gr, wl, wr = ip.bisearch_interp_weight(xa, u)
        assert 0 <= gl < n and 0 <= gr < n and 0 <= wl <= 1 and 0 <= wr <= 1
        close(wl + wr, 1., 1e-14, msg='weights sum to one')
        if l != r:
            assert (gl, gr) == (l, r), f'interval {(gl, gr)} != {(l, r)}'
            close(wr, float(w), 1e-12, 1e-15, 'right weight')
            a, b = ip.linear_interp_weight(u, x[l], x[r])
            assert (a, b) == (wl, wr)
            nt |= 0 < w < 1
        else:
            assert (gl if wl > 0 else gr) == l, 'outside the nodes the end node counts'
        got = ip.bisearch_interp(xa, Y, u)
        assert not extra or not np.shares_memory(got, Y), 'the result refers to the table'
        for c in range(2 if extra else 1):
            yy = Y[:, c] if extra else Y
            ref = float(Fr(yy[l]) * (1 - w) + Fr(yy[r]) * w)
            g = got[c] if extra else got
            scale = max(abs(yy[l]), abs(yy[r]))
            close(g, ref, 0, 1e-12 * scale + 1e-300, f'bisearch_interp at {u}')
            assert min(yy[l], yy[r]) - 1e-12 * scale <= g <= max(yy[l], yy[r]) + 1e-12 * scale
            if u in x:
                assert g == yy[max(i for i in range(n) if x[i] == u)], 'a node is reproduced exactly'
        if not extra:
            f = ip.bisearch_interp_fix_oob(xa, Y, u, oob[0], oob[1])
            want = oob[0] if u < x[0] else oob[1] if u > x[-1] else got
            assert f == want, f'{f} != {want} at {u}'
    eq_arr(xa, x)
    return nt


@ck.test(examples=1500, x1=nodes_rep, x2=nodes_rep, y=bits64, q1=qspec, q2=qspec, k=st.sampled_from([0, 0, 3]), bil=st.booleans())
def interpolation_2d(x1, x2, y, q1, q2, k, bil):
    a, b = np.array(x1), np.array(x2)
    u, v = query(x1, q1), query(x2, q2)
    sh = (len(x1), len(x2)) + ((k,) if k else ())
    Y = rng_of(y).normal(size=sh).round(3)
    if bil:
        c = rng_of(y + 1).integers(-3, 4, 4)
        Y = np.multiply.outer(c[0] + c[1] * a, np.ones(len(b))) + np.multiply.outer(a * c[3] + c[2], b)
        k = 0
    l1, r1, w1 = exact_w(x1, u)
    l2, r2, w2 = exact_w(x2, v)
    w1, w2 = float(w1), float(w2)
    ref = (1 - w1) * ((1 - w2) * Y[l1, l2] + w2 * Y[l1, r2]) + w1 * ((1 - w2) * Y[r1, l2] + w2 * Y[r1, r2])
    got = ip.bisearch_interp_2d(a, b, Y, u, v)
    assert not k or not np.shares_memory(got, Y), 'the result refers to the table'
    corners = np.array([Y[l1, l2], Y[l1, r2], Y[r1, l2], Y[r1, r2]])
    tol = 1e-11 * np.abs(corners).max() + 1e-300
    close(got, ref, 0, tol, f'2d at {u}, {v}')
    assert (got >= corners.min(0) - tol).all() and (got <= corners.max(0) + tol).all()
    if bil:
        uu, vv = min(max(u, x1[0]), x1[-1]), min(max(v, x2[0]), x2[-1])
        exact = c[0] + c[1] * uu + c[2] * vv + c[3] * uu * vv
        sc = abs(c[0]) + (abs(c[1]) + abs(c[3]) * np.abs(b).max()) * np.abs(a).max() + abs(c[2]) * np.abs(b).max()
        close(got, exact, 0, 1e-11 * sc + 1e-300, 'bilinear functions are reproduced')
    return 0 < w1 < 1 and 0 < w2 < 1


@ck.test(examples=1500, x=nodes, y=st.lists(num, min_size=9, max_size=9), qs=st.lists(qspec, min_size=1, max_size=4), check=st.sampled_from([None, True, False]),
         bad=st.sampled_from([None, None, 'swap', 'repeat', 'reverse', 'ylen', 'single']), pos=st.integers(0, 8))
def linear(x, y, qs, check, bad, pos):
    n = len(x)
    ya = np.array(y[:n])
    kw = {} if check is None else dict(check=check)
    a = (check,) if check is not None else ()
    if bad:
        xs = list(x)
        p = pos % (n - 1)
        if bad == 'swap':
            xs[p], xs[p + 1] = xs[p + 1], xs[p]
        elif bad == 'repeat':
            xs[p + 1] = xs[p]
        elif bad == 'reverse':
            xs = xs[::-1]
        elif bad == 'single':
            xs, ya = xs[:1], ya[:1]
        else:
            ya = np.array(y[:n] + [0.])
        if check is not False or bad == 'single':
            raises(AssertionError, ip.Linear, np.array(xs), ya, *a, msg=f'{bad} nodes {xs}')
            return True
        return False
    xa = np.array(x)
    f = ip.Linear(xa, ya, *a)
    g = f.derivative()
    want_d = [(Fr(ya[min(i + 1, n - 1)]) - Fr(ya[max(i - 1, 0)])) / (Fr(x[min(i + 1, n - 1)]) - Fr(x[max(i - 1, 0)])) for i in range(n)]
    nt = False
    for q in qs:
        u = query(x, q)
        l, r, w = exact_w(x, u)
        sc = max(abs(ya[l]), abs(ya[r]))
        close(f.value_at(u), float(Fr(ya[l]) * (1 - w) + Fr(ya[r]) * w), 0, 1e-12 * sc + 1e-300, f'value at {u}')
        ref = want_d[l] * (1 - w) + want_d[r] * w
        sc = max(np.abs(ya)) / min(np.diff(x))
        close(g.value_at(u), float(ref), 0, 1e-11 * float(max(abs(want_d[l]), abs(want_d[r]))) + 1e-14 * sc + 1e-300, f'derivative at {u}')
        nt |= 0 < w < 1
    eq_arr(xa, x)
    eq_arr(ya, y[:n])
    ya[0] += 1      # documented: the nodes are referred to, not copied
    close(f.value_at(x[0]), ya[0], 1e-12, msg='referred nodes')
    return nt


def _warm():
    a = np.array([0., 1.])
    for xx in (a, np.array([0, 1]), np.zeros(4)[::2], np.zeros(4, int)[::2]):
        ip.bisearch_nearest_array(xx, a)
        ip.bisearch_nearest(xx, .5)
        ip.bisearch(xx, .5)
    ip.bisearch_interp_weight(a, .5)
    ip.bisearch_interp_fix_oob(a, a, .5, 0., 1.)
    for Y in (np.zeros((2, 2)), np.zeros((2, 2, 3))):
        ip.bisearch_interp_2d(a, a, Y, .5, .5)
    ip.bisearch_interp(a, a, .5)
    ip.bisearch_interp(a, np.zeros((2, 2)), .5)
    f = ip.Linear(a, a)
    f.derivative().value_at(.5)
    f.value_at(.5)


try:        # compile once, before the workers fork
    _warm()
except Exception:  # (reported by the sub-checks)
    pass


@ck.test(examples=120, n=big_sizes, s=bits64, kind=st.sampled_from(['even', 'random', 'repeat']))
def large(n, s, kind):
    """Many nodes: queries on, next to and between them and outside."""
    g = rng_of(s)
    x = np.arange(n) * .5 - 7 if kind == 'even' else np.sort(g.normal(size=n)) if kind == 'random' else np.sort(g.integers(0, n // 2 + 1, n).astype(float))
    q = np.r_[x[0] - 1, x[0], np.nextafter(x[0], -9e9), x[-1], np.nextafter(x[-1], 9e9), x[-1] + 5, np.nextafter(x[-1], -9e9)]
    p = g.choice(x, 40)
    q = np.r_[q, p, np.nextafter(p, -9e9), np.nextafter(p, 9e9), g.uniform(x[0], x[-1], 40)]
    near = []
    for u in q:
        assert ip.bisearch(x, u) == int((x <= u).sum()) - 1, f'bisearch of {u} in {n} nodes'
        j = ip.bisearch_nearest(x, u)
        assert abs(x[j] - u) <= np.abs(x - u).min() * (1 + 1e-12), f'{u}: not nearest'
        near.append(j)
    assert ip.bisearch_nearest_array(x, q).tolist() == near
    xu = np.unique(x)
    y = g.normal(size=len(xu))
    lin = ip.Linear(xu, y)
    u = q[(q >= xu[0]) & (q <= xu[-1])]
    close([lin.value_at(v) for v in u], np.interp(u, xu, y), 1e-7, 1e-9, msg='linear interpolation')
    return True
