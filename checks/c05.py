"""C05: periodic wrapping and polar frames."""
import math
from lib.harness import *
from pyhipp.core.dataproc.frame import PeriodicBox, Polar

ck = Check('C05', 'Positions (1-3 columns, including exact multiples of half the box, tiny negatives and values next to '
           'the edges) with box sizes, references, selections and copy flags; angles over several turns; vectors off the polar axis. '
           'Non-trivial: positions of which some are moved and some are not; generic angles and vectors.',
           assumptions=['positions are floating point and within one period of the box (or of the reference +- 1.5 L)'])

L_ = st.sampled_from([1., 2., 100., 0.3, 75., 1e3])
# position as a fraction of the box
frac = pick((3, st.floats(-1., 1.999).map(lambda x: round(x, 3))),
            st.sampled_from([-1., -0.5, -1e-18, -1e-12, 0., -0., 0.5, 1., 1 - 2**-53, 1 + 2**-52, 1.5, 1.9]))
shp = st.sampled_from([(0,), (1,), (7,), (4, 3), (2, 1), (2, 2, 3)])


def laid_out(x, order):
    """the same values in C order, Fortran order, or as a strided view of a larger array"""
    if order == 'F':
        return np.asfortranarray(x)
    if order == 'S':
        big = np.full((2,) + x.shape, -7, dtype=x.dtype)
        big[1] = x
        return np.moveaxis(np.moveaxis(big, 0, -1).copy(), -1, 0)[1]
    return x


@ck.test(examples=2000, L=L_, f=st.lists(frac, min_size=12, max_size=12), shape=shp, wkind=st.sampled_from(['none', 'mask', 'scalar', 'off', 'row', 'col']),
         w=bits64, copy=st.sampled_from([None, True, False]), dt=st.sampled_from(['f8', 'f8', 'f8', 'f4', 'i8']), order=st.sampled_from('CCFS'))
def shift_in(L, f, shape, wkind, w, copy, dt, order):
    n = int(np.prod(shape))
    if dt == 'i8':                  # whole-number positions in a box of whole-number size
        L = max(int(L), 1)
        x = np.array([int(v * L) for v in f[:n]], dtype='i8').reshape(shape)
    else:
        x = np.array([v * L for v in f[:n]]).astype(dt).reshape(shape)
        x[x >= 2 * L] = L           # rounded out of the domain
        if dt == 'f4':
            L = float(np.float32(L))
    x = laid_out(x, order)
    x0 = x.copy()
    tol = 1e-6 if dt == 'f4' else 1e-12
    where = bool_array(w, shape)
    kw = {} if copy is None else dict(copy=copy)
    if wkind == 'mask':
        kw['where'] = where
    elif wkind == 'scalar':
        where[...] = True
        kw['where'] = True
    elif wkind == 'off':
        where[...] = False
        kw['where'] = False
    elif wkind == 'row':
        kw['where'] = bool_array(w, shape[-1:])
        where[...] = kw['where']
    elif wkind == 'col' and len(shape) > 1:
        kw['where'] = bool_array(w, shape[:-1] + (1,))
        where[...] = kw['where']
    else:
        where[...] = True
        if w % 2:
            kw['where'] = None
    r = PeriodicBox.shift_in(x, L, **kw)
    assert r.shape == x0.shape and r.dtype == x0.dtype
    eq_arr(r[~where], x0[~where], 'excluded elements changed')
    s = r[where]
    assert ((s >= 0) & (s < L)).all(), f'outside the box: {s[(s < 0) | (s >= L)]}'
    k = (s - x0[where]) / L
    close(np.abs(k - np.round(k)), np.zeros(k.shape), atol=tol, msg='not a whole number of periods')
    assert (np.abs(k) < 1.5).all()
    inside = (x0 >= 0) & (x0 < L)
    eq_arr(r[inside], x0[inside], 'inside positions changed')
    if copy is False:
        assert r is x
    else:
        eq_arr(x, x0, 'input modified')
        assert not np.shares_memory(r, x) or n == 0
    # bound test
    assert bool(PeriodicBox.test_bound(x0, L)) is bool(inside.all())
    assert bool(PeriodicBox.test_bound(r, L, where=where)) is True
    m = bool_array(w >> 7, shape)
    assert bool(PeriodicBox.test_bound(x0, L, where=m)) is bool(inside[m].all())
    if n and dt[0] == 'f':
        xn = x0.copy()
        xn.flat[w % n] = [np.nan, np.inf, -np.inf][w % 3]
        assert not PeriodicBox.test_bound(xn, L), 'a position that is not a finite number is not in the box'
    return n > 2 and (~inside).any() and inside.any()


@ck.test(examples=2000, L=L_, d=st.lists(pick((3, st.floats(-1.499, 1.499).map(lambda x: round(x, 3))), st.sampled_from([-0.5, 0.5, 0., 1., -1., 1.25, -1.25])),
                                           min_size=12, max_size=12),
         ref=st.lists(frac, min_size=3, max_size=3), rkind=st.sampled_from(['scalar', 'row', 'full']), shape=shp,
         wkind=st.sampled_from(['none', 'mask']), w=bits64, copy=st.sampled_from([None, True, False]), order=st.sampled_from('CCFS'))
def shift_to(L, d, ref, rkind, shape, wkind, w, copy, order):
    n = int(np.prod(shape))
    last = shape[-1]
    if rkind == 'scalar':
        xr = ref[0] * L
    elif rkind == 'row':
        xr = np.array([ref[i % 3] * L for i in range(last)])
    else:
        xr = np.array([ref[(i * 5) % 3] * L for i in range(n)]).reshape(shape)
    x = laid_out(np.array([v * L for v in d[:n]]).reshape(shape) + xr, order)
    x0 = x.copy()
    xr0 = np.copy(xr)
    where = bool_array(w, shape)
    kw = {} if copy is None else dict(copy=copy)
    if wkind == 'mask':
        kw['where'] = where
    else:
        where[...] = True
    r = PeriodicBox.shift_to(x, xr, L, **kw)
    eq_arr(r[~where], x0[~where], 'excluded elements changed')
    dx0, dx = (x0 - xr)[where], (r - xr)[where]
    tol = 1e-12 * L
    assert (dx >= -L / 2 - tol).all() and (dx <= L / 2 + tol).all(), f'not within half a box: {dx / L}'
    k = (dx - dx0) / L
    close(np.abs(k - np.round(k)), np.zeros(k.shape), atol=1e-12, msg='not a whole number of periods')
    clear = (dx0 > -L / 2 + tol) & (dx0 < L / 2 - tol)
    eq_arr(r[where][clear], x0[where][clear], 'near positions changed')
    exact = (x0 - xr)[where]
    lo = exact == -L / 2
    eq_arr(r[where][lo], x0[where][lo], 'the image at exactly -L/2 stays')
    hi = (exact == L / 2) & (x0[where] - L - np.broadcast_to(xr, shape)[where] == -L / 2)
    eq_arr(r[where][hi], x0[where][hi] - L, 'the image at exactly L/2 is moved to -L/2')
    if hi.any():
        ck.label('exactly half a box away')
    eq_arr(xr, xr0, 'reference modified')
    if copy is False:
        assert r is x
    else:
        eq_arr(x, x0, 'input modified')
    return n > 2 and clear.any() and (~clear).any()


ang = pick((3, st.floats(-10, 10)), st.sampled_from([0., np.pi, np.pi / 2, -np.pi, 2 * np.pi]))


@ck.test(examples=800, t=sized_lists(ang, 1, 6), p=st.lists(ang, min_size=6, max_size=6), shape2=st.booleans(), stack=st.sampled_from([None, True, False]))
def unit_vecs(t, p, shape2, stack):
    t = np.array(t)
    p = np.array(p[:len(t)])
    if shape2:
        t, p = t[:, None], p[:, None]
    t0, p0 = t.copy(), p.copy()
    kw = {} if stack is None else dict(stack=stack)
    o = Polar.unit_vec_to_cart(t, p, **kw)
    if stack is False:
        assert isinstance(o, tuple) and len(o) == 3
        o = np.stack(o, -1)
    assert o.shape == t.shape + (3,)
    close((o**2).sum(-1), np.ones(t.shape), 1e-12, msg='length')
    close(o[..., 0], np.sin(t) * np.cos(p), 1e-12, 1e-15)
    close(o[..., 1], np.sin(t) * np.sin(p), 1e-12, 1e-15)
    close(o[..., 2], np.cos(t), 1e-12, 1e-15)
    q = Polar.unit_vec_to_cart_2d(t, **kw)
    if stack is False:
        assert isinstance(q, tuple) and len(q) == 2
        q = np.stack(q, -1)
    assert q.shape == t.shape + (2,)
    close(q[..., 0], np.cos(t), 1e-12, 1e-15)
    close(q[..., 1], np.sin(t), 1e-12, 1e-15)
    eq_arr(t, t0), eq_arr(p, p0)
    return t.size > 1


near = st.sampled_from([1., -1., 3.]).flatmap(lambda m: st.integers(4, 8).map(lambda e: m * 10.**-e))        # next to the polar axis
co = st.floats(-5, 5).map(lambda x: round(x, 2))


@ck.test(examples=1000, x=sized_lists(pick((4, st.tuples(co, co, co)), st.tuples(st.sampled_from([0., -0.]), st.just(0.), co), st.tuples(near, near, st.sampled_from([1., -1., 2.5]))), 1, 5), v=st.lists(st.tuples(co, co, co), min_size=5, max_size=5),
         scale=st.sampled_from([1., 1e-3, 1e4, 1e-8, 1e9]), form=st.sampled_from(['f8', 'f8', 'list', 'int']))
def rt_to_cart(x, v, scale, form):
    if form == 'int':
        x = [tuple(map(int, a)) for a in x]
        scale = 1
    keep = [i for i, a in enumerate(x) if any(a)]
    if not keep:
        return False
    x = np.array([x[i] for i in keep]) * scale
    v = np.array([v[i] for i in keep])
    if form == 'int':
        x = x.astype(int)
    x0, v0 = x.copy(), v.copy()
    o = Polar.rt_to_cart(x.tolist() if form == 'list' else x, v.tolist() if form == 'list' else v)
    eq_arr(x, x0, 'x modified'), eq_arr(v, v0, 'v modified')
    assert o.shape == v.shape
    close((o**2).sum(-1), (v**2).sum(-1), 1e-9, 1e-12, msg='length')
    xh = x / np.sqrt((x**2).sum(-1))[:, None]
    # the last component is radial; the first is azimuthal (horizontal), the second completes the frame
    close((o * xh).sum(-1), v[:, 2], 1e-9, 1e-9, msg='radial component')
    az = np.stack([-x[:, 1], x[:, 0], 0. * x[:, 0]], -1)
    na = np.sqrt((az**2).sum(-1))[:, None]
    on = na[:, 0] == 0          # on the polar axis any horizontal direction will do, as long as it is a unit vector at right angles to the position
    az = az / np.where(na > 0, na, 1)
    if on.any():
        az[on] = Polar.rt_to_cart(x[on], np.tile([1., 0., 0.], (on.sum(), 1)))
        close((az[on]**2).sum(-1), np.ones(on.sum()), 1e-9, msg='length on the axis'), close(az[on, 2], np.zeros(on.sum()), 0, 1e-9, msg='horizontal')
        ck.label('on the axis')
    close((o * az).sum(-1), v[:, 0], 1e-9, 1e-9, msg='azimuthal component')
    close((o * np.cross(xh, az)).sum(-1), v[:, 1], 1e-9, 1e-9, msg='third component')
    # each vector is turned by itself, whatever the others are (here next to the polar axis)
    pole = np.array([[0., -1e-5, 1.], [1e-6, 0., -1.], [0, 0, 2], [0, 0, -.5], [1e-12, -1e-13, 1], [1e-10, 0., -1.]])
    oo = Polar.rt_to_cart(np.concatenate([x, pole]), np.concatenate([v, pole]))
    close(oo[:len(x)], o, 1e-12, 1e-12, msg='rotation next to other positions')
    close((oo[-6:]**2).sum(-1), (pole**2).sum(-1), 1e-9, msg='length')
    for i in range(len(x)):
        close(Polar.rt_to_cart(x[i:i + 1], v[i:i + 1]), o[i:i + 1], 1e-12, 1e-12, msg='rotation of one vector')
    return len(keep) > 1


@ck.test(examples=120, n=big_sizes, s=bits64, L=L_, cols=st.integers(1, 3), masked=st.booleans(), copy=st.booleans())
def large(n, s, L, cols, masked, copy):
    """Long position lists, some exactly on the faces of the box or on half a period."""
    g = rng_of(s)
    x0 = g.uniform(-L, 2 * L, (n, cols))
    k = g.integers(0, 9, x0.shape)
    for j, v in enumerate((0., L, np.nextafter(L, 0), -1e-18 * L, L / 2, 1.5 * L)):
        x0[k == j] = v
    x0[x0 >= 2 * L] = L
    w = g.random(x0.shape) < .5 if masked else np.ones(x0.shape, bool)
    kw = dict(where=w) if masked else {}
    x = x0.copy()
    r = PeriodicBox.shift_in(x, L, copy=copy, **kw)
    assert ((r >= 0) & (r < L))[w].all(), 'outside the box'
    eq_arr(r[~w], x0[~w], 'not selected')
    q = (r - x0) / L
    close(q, np.round(q), atol=1e-12, msg='whole periods')
    inside = (x0 >= 0) & (x0 < L)
    eq_arr(r[inside], x0[inside], 'inside')
    assert (r is x) is (not copy)
    eq_arr(x, x0 if copy else r, 'input')
    assert bool(PeriodicBox.test_bound(x0, L)) is bool(inside.all()) and PeriodicBox.test_bound(r[w], L)
    ref = g.uniform(0, L, cols)
    d0 = PeriodicBox.shift_in(x0.copy(), L)
    d = PeriodicBox.shift_to(d0.copy(), ref, L)
    assert (np.abs(d - ref) <= L / 2 * (1 + 1e-12)).all(), 'further than half a period from the reference'
    q = (d - d0) / L
    close(q, np.round(q), atol=1e-12, msg='whole periods')
    return True
