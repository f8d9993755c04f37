"""F01: mass assignment on periodic grids."""
import math
import contextlib
from lib.harness import *
from pyhipp.io import h5
from pyhipp.field.cubic_box import DensityField, Field, Mesh, _LinearShapeFn, _Mesh
from pyhipp.field.cubic_box.mass_assignment import _NoneShapeFn

ck = Check('F01', 'Grids of 1-8 (now and then up to 24) cells, boxes of 0.3 to 1e3, 0-12 particles placed on cell corners, on boundaries, inside and up to two boxes outside, weights of either sign, float32 and float64, '
           '1-4 successive deposits, whole-cell and periodic shifts, permutations, dumps and joins. Non-trivial: at least two particles, one of which is spread over several cells.')
ns = grid_sizes(8, 24)
boxes = st.sampled_from([1., 8., .3, 100., 1000., 205.])
coord = st.one_of(st.integers(-40, 40).map(lambda v: v / 16), st.floats(0, 1), st.sampled_from([0., 1., -1e-17, 1 - 1e-16, .5]), st.floats(-2, 3))
part = st.tuples(coord, coord, coord)


def brute(u, w, n):
    """Cloud-in-cell sum, particle by particle, cell by cell, over all periodic images; u in cells."""
    out = np.zeros((n, n, n))
    c = np.arange(n)
    for p, q in zip(u, w):
        s = []
        for v in p:
            t = np.zeros(n)
            k0 = math.floor(v / n)
            for m in range(k0 - 2, k0 + 3):
                t += np.maximum(0., 1 - np.abs(v - c - m * n))
            s.append(t)
        out += q * s[0][:, None, None] * s[1][None, :, None] * s[2][None, None, :]
    return out


@st.composite
def deposits(draw, max_adds=4):
    adds = []
    for _ in range(draw(st.integers(1, max_adds))):
        ps = draw(sized_lists(part, 0, 12))
        w = draw(st.none() | st.lists(st.floats(-5, 9), min_size=len(ps), max_size=len(ps)))
        adds.append((ps, w, draw(st.sampled_from(['f8', 'f8', 'f4', 'F', 'strided'])), draw(st.sampled_from(['f8', 'f8', 'i8']))))
    return adds


def mat(ps, L, dt):
    x = np.array(ps, dtype=float).reshape(-1, 3) * L
    if dt == 'f4':
        x = x.astype('f4')
    elif dt == 'F':
        x = np.asfortranarray(x)
    elif dt == 'strided':
        b = np.zeros((2 * len(x), 6))
        b[::2, ::2] = x
        x = b[::2, ::2]
    return x


@ck.test(examples=1500, shards=3, n=ns, L=boxes, adds=deposits(), perm=bits64, shift=st.tuples(st.integers(-9, 9), st.integers(-9, 9), st.integers(-9, 9)))
def deposit(n, L, adds, perm, shift):
    f = DensityField(L, n)
    eq_arr(f.data, np.zeros((n, n, n)))
    live = f.data
    tot, scale, ref = 0., 0., np.zeros((n, n, n))
    X, W = [], []
    for ps, w, dt, wdt in adds:
        x = mat(ps, L, dt)
        x0 = x.copy()
        wa = None if w is None else np.array(w).astype(wdt)
        w0 = None if w is None else wa.copy()
        if w is None and len(ps) % 2:
            f.add(x)
        elif len(ps) % 3 == 0:
            f.add(xs=x, weights=wa)
        else:
            f.add(x, wa)
        eq_arr(x, x0, 'positions changed')
        if wa is not None:
            eq_arr(wa, w0, 'weights changed')
        ww = np.ones(len(x)) if wa is None else wa.astype(float)
        X.append(x.astype(float)), W.append(ww)
        ref += brute(x.astype(float) / (L / n), ww, n)
        tot += ww.sum()
        scale += np.abs(ww).sum()
        eq_arr(f.data, live, 'data is the accumulated grid')
        eps = 1e-11 if all(d[2] != 'f4' for d in adds) else 3e-6
        close(f.data, ref, 0, eps * (scale + 1), 'deposit')
        if all(d[2] != 'f4' for d in adds):        # nothing leaks into cells that no particle touches, beyond the rounding of positions
            um = max((np.abs(v).max(initial=0) for v in X), default=0) / (L / n)
            far = np.abs(f.data[ref == 0])
            assert (far <= 1e-15 * (um + 2) * scale).all(), f'{far.max()} assigned to cells away from the particles'
        assert abs(f.data.sum() - tot) <= 1e-11 * (scale + 1), f'total {f.data.sum()} != {tot}'
    X, W = np.concatenate(X), np.concatenate(W)

    def one(x, w):
        g = DensityField(L, n)
        g.add(x, w)
        return g.data
    tol = eps * (scale + 1)
    close(one(X, W), f.data, 0, tol, 'all at once')
    o = rng_of(perm).permutation(len(X))
    close(one(X[o], W[o]), f.data, 0, tol, 'order of particles')
    k = rng_of(perm).integers(-3, 4, X.shape)
    close(one(X + k * L, W), f.data, 0, tol * 10, 'periodic images')
    s = np.array(shift)
    close(one(X + s * (L / n), W), np.roll(f.data, s, (0, 1, 2)), 0, tol * 10, 'translation by whole cells')
    close(one(X, 2.5 * W), 2.5 * f.data, 0, tol * 3, 'scaling of the weights')
    for ax in ((1, 0, 2), (2, 1, 0), (1, 2, 0)):
        close(one(np.ascontiguousarray(X[:, ax]), W), np.transpose(f.data, ax), 0, tol, 'permutation of the axes')
    # faulty calls change nothing
    b = f.data.copy()
    raises(AssertionError, f.add, X, np.ones(len(X) + 1)), raises(AssertionError, f.add, np.zeros((2, 2)))
    raises(AssertionError, f.add, np.zeros(3)), raises(AssertionError, f.add, np.zeros((2, 3)), np.ones((2, 1)))
    eq_arr(f.data, b, 'a refused deposit changed the field')
    u = X / (L / n)
    return len(X) > 1 and n > 1 and bool((np.abs(u - np.round(u)) > 1e-6).any())


@ck.test(examples=300, shards=2, n=st.integers(1, 5), L=boxes, parts=st.lists(deposits(1), min_size=1, max_size=4), base=st.sampled_from(['file', 'group', 'files', 'roots']), rerun=st.booleans(), times=st.sampled_from([1, 1, 2, 5]))
def saved(n, L, parts, base, rerun, times):
    """Saved fields read back equal; joined partial fields equal one field with everything."""
    with scratch() as d:
        p = f'{d}/f.hdf5'
        all_ = DensityField(L, n)
        fs = []
        at = (lambda i: (p, f'part{i}')) if base in ('file', 'group') else (lambda i: (f'{d}/f{i}.hdf5', '/' if base == 'roots' else 'part'))
        for i, a in enumerate(parts):
            with h5.File(at(i)[0], 'ac') as f:
                g = DensityField(L, n)
                for ps, w, dt, wdt in a:
                    x, wa = mat(ps, L, 'f8'), None if w is None else np.array(w).astype(wdt)
                    g.add(x, wa), all_.add(x, wa)
                grp = f if at(i)[1] == '/' else f.create_group(at(i)[1])
                g.dump(grp)
                raises((ValueError, OSError), g.dump, grp, msg='exclusive dump over an existing field')
                if rerun:
                    g.dump(grp, flag='ac')
                fs.append(g.data.copy())
        with contextlib.ExitStack() as stack:
            if base in ('file', 'group'):
                f = stack.enter_context(h5.File(p, 'r' if base == 'file' else 'a'))
                groups = [f[f'part{i}'] for i in range(len(parts))]
            else:
                groups = [stack.enter_context(h5.File(at(i)[0]))[at(i)[1]] for i in range(len(parts))]
            for g, v in zip(groups, fs):
                r = DensityField.load(g)
                eq_arr(r.data, v, 'loaded field')
                assert r.mesh.n_grids == n and r.mesh.l_box == L and r.shape == (n, n, n) and r.dtype == np.float64
            if base != 'group':
                with h5.File(f'{d}/o.hdf5', 'w') as o:
                    DensityField.join_dumps(iter(groups), o)
                    j = DensityField.load(o)
                    raises((ValueError, OSError), DensityField.join_dumps, groups, o)
            else:
                o = f.create_group('joined')
                DensityField.join_dumps(groups, o)
                j = DensityField.load(o)
            if times > 1:                   # many parts
                with h5.File(f'{d}/m.hdf5', 'w') as o:
                    DensityField.join_dumps((g for _ in range(times) for g in groups), o)
                    close(DensityField.load(o).data, times * all_.data, 0, 1e-9 * times * (1 + np.abs(all_.data).sum()), 'many joined parts')
            for g, v in zip(groups, fs):
                eq_arr(g.datasets['data'], v, 'joining changed a part')
        close(j.data, all_.data, 0, 1e-10 * (1 + np.abs(all_.data).sum()), 'joined parts')
        assert j.mesh.n_grids == n and j.mesh.l_box == L
    return len(parts) > 1


@ck.test(examples=1500, n=ns, L=boxes, x=coord, k=st.integers(-12, 12), data=bits64)
def meshes(n, L, x, k, data):
    m = Mesh.new(n, L)
    assert m.n_grids == n and m.l_box == L and m.total_n_grids == n ** 3
    close([m.l_grid, m.volume, m.cell_volume], [L / n, L ** 3, (L / n) ** 3], 1e-14)
    im = m._impl
    h = L / n
    v = x * L
    i = im.x_to_xi(v)
    assert 0 <= i < n
    dx = v / h - i
    dx -= n * round(dx / n)
    assert abs(dx) <= .5 + 1e-9, f'{i} is not the nearest cell of {v}'
    arr = np.array([[v, v + h], [v - h, v + k * L]])
    ii = im.x_to_xi_nd(arr)
    assert ii.shape == arr.shape and (ii >= 0).all() and (ii < n).all()
    d = arr / h - ii
    d -= n * np.round(d / n)
    assert (np.abs(d) <= .5 + 1e-9).all()
    assert [int(im.x_to_xi(u)) for u in arr.ravel()] == ii.ravel().tolist(), 'scalar and array lookups differ'
    # the assignment window and its weights
    s = _LinearShapeFn(im)
    il, ir, wl, wr = s.weights_at(v)
    assert 0 <= il < n and 0 <= ir < n and (ir - il) % n == 1 % n
    assert abs(wl + wr - 1) < 1e-12 and -1e-12 <= wl <= 1 + 1e-12
    if n > 2:
        e = (v / h - il) % n
        e = min(e, abs(e - n)) if e > n - 1e-6 else e
        assert abs(e - wr) < 1e-8, 'weight of the right cell is the distance to the left one'
    close(s.shape_at_xi(x), max(1 - abs(x), 0.), 1e-14, 1e-15), close(s.shape_at_x(v), max(1 - abs(v / h), 0.), 1e-12, 1e-12)
    for q in (float(k), x):
        w = 1. if abs(q) < 1e-9 else (math.sin(math.pi * q / n) / (math.pi * q / n)) ** 2
        close(s.shape_at_ki(q), w, 1e-9, 1e-11, 'window at a grid wavenumber')
        close(s.shape_at_k(q * 2 * math.pi / L), w, 1e-7, 1e-9, 'window at a wavenumber')
    kv = np.array([float(k), x, 1.])
    close(s.shape_at_ki_nd(kv), np.prod([s.shape_at_ki(q) for q in kv]), 1e-12, 1e-14)
    assert _NoneShapeFn().shape_at_ki(x) == 1. == _NoneShapeFn().shape_at_ki_nd(kv)
    # fields refer to the data given
    dat = rng_of(data).normal(size=(n, n, n))
    d0 = dat.copy()
    f = Field.new_by_data(dat, m)
    assert np.shares_memory(f.data, dat) and f.shape == (n, n, n) and f.n_dims == 3 and f.dtype == np.float64
    assert f.mesh.n_grids == n and f.mesh.l_box == L
    c = f.copied()
    c.data[...] = 7.
    eq_arr(dat, d0, 'a copy shares data'), eq_arr(f.data, d0)
    z = Field.new_zeros(m)
    eq_arr(z.data, np.zeros((n, n, n)))
    z.data[0, 0, 0] = 1.
    assert not Field.new_zeros(m).data.any()
    raises(AssertionError, Field.new_by_data, np.zeros((n + 1,) * 3), m)
    raises(AssertionError, Field.new_by_data, np.zeros((n, n, n + 1)), m)
    r = m.to_simple_repr()
    assert r['n_grids'] == n and r['l_box'] == L and r['l_grid'] == m.l_grid
    return n > 1


def _warm():
    m = Mesh.new(2, 1.)
    s = _LinearShapeFn(m._impl)
    m._impl.x_to_xi(.1), m._impl.x_to_xi_nd(np.zeros((2, 2)))
    s.weights_at(.1), s.shape_at_xi(.1), s.shape_at_x(.1), s.shape_at_ki(.1), s.shape_at_k(.1), s.shape_at_ki_nd(np.zeros(3))
    for xd in (np.zeros((2, 3)), np.zeros((2, 3), 'f4'), np.zeros((2, 3), order='F'), np.zeros((4, 6))[::2, ::2]):
        for w in (None, np.ones(2), np.ones(2, 'i8')):
            DensityField(1., 2).add(xd, w)


try:
    _warm()
except Exception:
    pass


@ck.test(examples=80, n=big_sizes, s=bits64, N=st.integers(2, 12), L=st.sampled_from([1., 10., .3]), wb=st.booleans(), cut=st.integers(0, 9000))
def large(n, s, N, L, wb, cut):
    """Many particles in one call: the total, the cell values by direct sums, and the sum of two calls."""
    g = rng_of(s)
    x = g.uniform(0, L, (n, 3))
    x[x >= L] = 0
    w = g.uniform(.5, 2, n) if wb else None
    d = DensityField(L, N)
    d.add(x, w) if wb else d.add(x)
    ww = w if wb else np.ones(n)
    close(d.data.sum(), math.fsum(ww), 1e-12, msg='total')
    u = x / (L / N)
    i = np.floor(u).astype(int)
    f = u - i
    ref = np.zeros((N,) * 3)
    for c in range(8):
        o = np.array([c & 1, c >> 1 & 1, c >> 2])
        k = (i + o) % N
        np.add.at(ref, tuple(k.T), ww * np.prod(np.where(o, f, 1 - f), axis=1))
    close(d.data, ref, 1e-9, 1e-9, msg='cells')
    e = DensityField(L, N)
    c = cut % n
    for sl in (slice(0, c), slice(c, n)):
        e.add(x[sl], w[sl]) if wb else e.add(x[sl])
    close(e.data, d.data, 1e-10, 1e-10, msg='two calls')
    return True
