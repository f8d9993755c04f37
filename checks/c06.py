"""C06: rectilinear grids."""
from lib.harness import *
from pyhipp.core.dataproc.grid import Grid1d, GridMd

ck = Check('C06', 'Edge lists (1-8 edges, repeats, slices with step or count, integer edges) in 1-3 dimensions, queries on, between and '
           'outside the edges. Non-trivial: at least two edges per axis and queries both inside and outside (or a multi-dimensional evaluation).')

e1 = st.floats(-9, 9).map(lambda x: round(x, 1))
edges = sized_lists(e1, 1, 8).map(sorted)
edges_multi = sized_lists(e1, 2, 5).map(sorted)


def loc(e, x):
    """number of edges <= x, minus one"""
    return sum(1 for v in e if v <= x) - 1


@ck.test(examples=2000, e=edges, q=sized_lists(e1, 0, 8), pin=bits64, form=st.sampled_from(['array', 'list', 'tuple', 'int', 'grid']),
         qform=st.sampled_from(['array', 'scalar', '2d', 'list', 'f4', 'int']))
def grid1d(e, q, pin, form, qform):
    if form == 'int':
        e = [int(x) for x in e]
    q = [e[(pin >> i) % len(e)] if (pin >> (i + 20)) & 1 else x for i, x in enumerate(q)]
    q += [e[0] - .05, e[-1] + .05, e[0], e[-1], np.nextafter(e[0], -99), np.nextafter(e[-1], -99), np.inf, -np.inf]
    if qform == 'f4':               # compared as the numbers they are, not as rounded edges
        q = [float(np.float32(x)) for x in q]
    elif qform == 'int':
        q = [int(x) for x in q[:-2]]
    arg = {'array': np.array(e, float), 'list': e, 'tuple': tuple(e), 'int': np.array(e), 'grid': Grid1d(e)}[form]
    g = Grid1d(arg)
    assert g.n_locs == len(e)
    eq_arr(g.locs, np.array(e, float), 'locs', dtype=True)
    if form in ('array', 'int'):
        arg[0] = -1000
        eq_arr(g.locs, np.array(e, float), 'grid shares its edges with the caller')
    ref = [loc(e, x) for x in q]
    if qform == 'scalar':
        out = [int(g.locate(x)) for x in q]
    elif qform == '2d':
        o = g.locate(np.array(q)[:, None])
        assert o.shape == (len(q), 1)
        out = o.ravel().tolist()
    else:
        out = np.asarray(g.locate(q if qform == 'list' else np.array(q, 'f4') if qform == 'f4' else np.array(q))).tolist()
    assert out == ref, (e, q, out, ref)
    ext = g.extent
    assert tuple(ext) == (e[0], e[-1]) and all(type(x) is float for x in ext)
    if len(e) > 1:
        c = g.centers
        assert isinstance(c, Grid1d)
        close(c.locs, [(a + b) / 2 for a, b in zip(e[:-1], e[1:])], 1e-14, 1e-14, msg='centres')
    return len(e) > 1


@ck.test(examples=300, e=sized_lists(e1, 2, 6), kind=st.sampled_from(['list', '2d', 'empty', 'nan']))
def grid1d_invalid(e, kind):
    if kind == 'list':
        if e == sorted(e):
            return False
        raises(Exception, Grid1d, e, msg='unsorted edges')
        raises(Exception, GridMd, [0, 1], e, msg='unsorted edges')
    elif kind == '2d':
        raises(Exception, Grid1d, [sorted(e)])
    elif kind == 'nan':
        e = sorted(e)
        e[len(e) // 2] = float('nan')
        raises(Exception, Grid1d, e, msg='an edge that is not a number')
    else:
        raises(Exception, Grid1d, [])
    return kind == 'list'


def fun(j, cols):
    return sum((1.5 + j + i) * np.asarray(c)**(1 + i % 2) for i, c in enumerate(cols)) + j


@ck.test(examples=800, es=sized_lists(edges_multi, 1, 4), single=bits64, xy=st.sampled_from([None, True, False]), stack=st.sampled_from([None, True, False]),
         nout=st.sampled_from([0, 1, 2, 3]), vec=st.booleans(), mat=st.booleans(), kind=st.sampled_from(['ctor', 'at', 'grid1d']))
def gridmd(es, single, xy, stack, nout, vec, mat, kind):
    es = [e[:1] if (single >> (3 * i)) % 8 == 0 else e for i, e in enumerate(es)]
    if kind == 'ctor':
        g = GridMd(*[np.array(e) for e in es])
    elif kind == 'at':
        g = GridMd.at[tuple(np.array(e) for e in es)] if len(es) > 1 else GridMd.at[np.array(es[0])]
    else:
        g = GridMd(*[Grid1d(e) for e in es])
    d = len(es)
    assert g.n_dims == d and tuple(g.n_locs) == tuple(len(e) for e in es)
    for a, e in zip(g.locs_1d, es):
        eq_arr(a, np.array(e, float), 'locs_1d')
    assert len(g.locs) == d and len(g.locs_xy) == d
    for idx in np.ndindex(*[len(e) for e in es]):
        for k in range(d):
            assert g.locs[k][idx] == es[k][idx[k]], 'locs'
            j = (idx[1], idx[0]) + idx[2:] if d > 1 else idx
            assert g.locs_xy[k][j] == es[k][idx[k]], 'locs_xy'
    assert tuple(tuple(x) for x in g.extent) == tuple((e[0], e[-1]) for e in es)
    if all(len(e) > 1 for e in es):
        for a, e in zip(g.centers.locs_1d, es):
            close(a, [(p + q) / 2 for p, q in zip(e[:-1], e[1:])], 1e-14, 1e-14)
    calls = []

    def f(*a):
        calls.append(1)
        if stack is False:
            assert len(a) == d
            cols = a
        else:
            assert len(a) == 1 and a[0].shape == (int(np.prod(g.n_locs)), d)
            cols = a[0].T
        outs = [fun(j, cols) for j in range(max(nout, 1))]
        if vec:
            outs = [np.stack([o, -o], -1) for o in outs]
            if mat:
                outs = [np.stack([o, 2 * o, 3 * o], -1) for o in outs]
        return outs[0] if nout == 0 else tuple(outs) if nout % 2 else outs
    kw = {}
    if xy is not None:
        kw['xy_indexing'] = xy
    if stack is not None:
        kw['stack_input'] = stack
    r = g.applied(f, **kw)
    locs = g.locs if xy is False else g.locs_xy
    for a, b in zip(r.locs, locs):
        eq_arr(a, b, 'applied.locs')
    for a, e in zip(r.locs_1d, es):
        eq_arr(a, np.array(e, float), 'applied.locs_1d')
    vals = [r.values] if nout == 0 else r.values
    assert len(vals) == max(nout, 1)
    for j, v in enumerate(vals):
        ref = fun(j, locs)
        if vec:
            ref = np.stack([ref, -ref], -1)
            if mat:
                ref = np.stack([ref, 2 * ref, 3 * ref], -1)
        close(v, ref, 1e-12, 1e-12, msg='applied values')
    return d > 1 and int(np.prod(g.n_locs)) > 3


@ck.test(examples=600, es=sized_lists(edges_multi, 1, 3), q=sized_lists(st.tuples(e1, e1, e1), 0, 6), pin=bits64, aslist=st.booleans())
def gridmd_locate(es, q, pin, aslist):
    d = len(es)
    q = [tuple(es[k][(pin >> (i + k)) % len(es[k])] if (pin >> (30 + i * 3 + k)) & 1 else p[k] for k in range(d)) for i, p in enumerate(q)]
    if not q:
        q = [tuple(e[0] for e in es)]
    x = q if aslist else np.array(q)
    out = GridMd(*es).locate(x)
    assert isinstance(out, tuple) and len(out) == d
    for k in range(d):
        assert np.asarray(out[k]).tolist() == [loc(es[k], p[k]) for p in q], (k, out)
    return d > 1 and len(q) > 1


@ck.test(examples=300, lo=st.integers(-9, 9), n=st.integers(2, 9), w=st.sampled_from([1., .5, 3., 7.]), step=st.booleans(), two=st.booleans())
def slices(lo, n, w, step, two):
    s = slice(lo, lo + w * (n - 1), w) if step else slice(lo, lo + w * (n - 1), complex(0, n))
    ref = [lo + w * i for i in range(n - 1 if step else n)]
    if len(ref) < 1:
        return False
    close(Grid1d(s).locs, ref, 1e-12, 1e-12)
    g = GridMd.at[s, 0.:1.:4j] if two else GridMd.at[s]
    assert g.n_dims == 1 + two
    close(g.locs_1d[0], ref, 1e-12, 1e-12)
    if two:
        close(g.locs_1d[1], [0, 1 / 3, 2 / 3, 1], 1e-12)
    return True


@ck.test(examples=400, data=sized_lists(sized_lists(e1, 1, 12), 1, 3), p=st.sampled_from([(0., 1.), (0.1, 0.9), (0.25, 1.), (0., .5), None]),
         n=st.sampled_from([None, 2, 5, 'arr', 'list', 'np']), form=st.sampled_from(['f8', 'f8', 'int', 'list', 'f4']))
def from_data_range(data, p, n, form):
    if form == 'int':
        data = [[int(v) for v in x] for x in data]
    elif form == 'f4':
        data = [[float(np.float32(v)) for v in x] for x in data]
    ns = [32 if n is None else n if isinstance(n, int) else 4 if n == 'np' else 2 + i for i in range(len(data))]
    kw = {} if p is None else dict(p_lo=p[0], p_hi=p[1])
    if n is not None:
        kw['n'] = np.array(ns) if n == 'arr' else ns if n == 'list' else np.int64(4) if n == 'np' else n
    g = GridMd.from_data_range(*[x if form == 'list' else np.array(x, form if form[0] == 'f' else None) for x in data], **kw)
    assert tuple(g.n_locs) == tuple(ns)
    lo, hi = p or (0., 1.)

    def quant(x, p):       # linear interpolation of the order statistics
        x = sorted(x)
        h = p * (len(x) - 1)
        i = min(int(h), len(x) - 1)
        j = min(i + 1, len(x) - 1)
        return x[i] + (h - i) * (x[j] - x[i])
    for a, x, k in zip(g.locs_1d, data, ns):
        a0, a1 = quant(x, lo), quant(x, hi)
        close(a, [a0 + (a1 - a0) * i / (k - 1) for i in range(k)], *((1e-5, 1e-5) if form == 'f4' else (1e-10, 1e-10)), msg='grid of quantiles')
    return len(data) > 1


@ck.test(examples=120, n=big_sizes, m=st.integers(9, 2000), s=bits64, kind=st.sampled_from(['even', 'random', 'repeat']))
def large(n, m, s, kind):
    """Many edges and many queries, on, next to and between the edges."""
    g = rng_of(s)
    e = np.arange(m) * .5 - 7 if kind == 'even' else np.sort(g.normal(size=m)) if kind == 'random' else np.sort(g.integers(0, m // 2 + 1, m).astype(float))
    q = g.choice(e, n)
    k = g.integers(0, 4, n)
    q[k == 0] = np.nextafter(q[k == 0], -np.inf)
    q[k == 1] = np.nextafter(q[k == 1], np.inf)
    q[k == 2] = g.uniform(e[0] - 1, e[-1] + 1, int((k == 2).sum()))
    ref = np.zeros(n, int)
    srt = np.argsort(q, kind='stable')
    i = 0
    for j in srt:                       # merge of the sorted queries and edges
        while i < m and e[i] <= q[j]:
            i += 1
        ref[j] = i - 1
    G = Grid1d(e)
    eq_arr(np.asarray(G.locate(q)), ref, 'locate')
    assert int(G.locate(q[0])) == ref[0]
    close(G.centers.locs, [(a + b) / 2 for a, b in zip(e[:-1].tolist(), e[1:].tolist())], 1e-14, 1e-14, msg='centres')
    assert G.n_locs == m and tuple(G.extent) == (e[0], e[-1])
    return True
