"""C04: bounding, guarded arithmetic and norms."""
import math
from lib.harness import *
from pyhipp.core.dataproc.num import Num
from pyhipp.core import dataproc as dp

ck = Check('C04', 'Scalars and arrays (0 to 3 dimensions, float/int dtypes, contiguous or strided) with bounds '
           'drawn from the data, outside it, or absent; compared with element-wise Python arithmetic. Non-trivial: an array '
           'with elements on both sides of a bound/guard.')

num = pick((4, st.floats(-20, 20).map(lambda x: round(x, 2))), st.sampled_from([0., -0., 1., -1., 1e-10, 1e-11, 1e-300, 1e8, -1e8]))
pos = pick((3, st.floats(1e-3, 50).map(lambda x: round(x, 3))), st.sampled_from([0., -3., 1e-10, 9e-11, 1.1e-10, 1e-12, 1e-15, 1e6, 1e-300]))
shape = st.sampled_from([(), (0,), (1,), (3,), (6,), (2, 3), (3, 2), (2, 1, 2), (1, 4)])
vals = st.lists(num, min_size=6, max_size=6)


def arr(v, shape, dt='f8', strided=False):
    n = int(np.prod(shape))
    a = np.array([v[i % len(v)] for i in range(n)]).reshape(shape).astype(dt)
    if strided and a.ndim:
        b = np.zeros((2,) + a.shape[::-1], dtype=dt)
        b[0] = a.T
        return b[0].T
    return a


@ck.test(examples=1200, x=num, lo=st.one_of(st.none(), num), hi=st.one_of(st.none(), num), swap=st.booleans(),
         kind=st.sampled_from(['float', 'int', 'np']), fn=st.sampled_from(['bound', 'bound_scalar']))
def bound_scalar(x, lo, hi, swap, kind, fn):
    if kind == 'int':
        x, lo, hi = int(x), None if lo is None else int(lo), None if hi is None else int(hi)
    if lo is not None and hi is not None and lo > hi:
        lo, hi = hi, lo
    if kind == 'np':
        x = np.float64(x)
    r = getattr(Num, fn)(x, lo=lo, hi=hi)
    ref = x if lo is None or x >= lo else lo
    ref = ref if hi is None or ref <= hi else hi
    assert np.isscalar(r) and r == ref, (r, ref)
    return r != x


@ck.test(examples=1500, v=vals, shape=shape, lo=st.one_of(st.none(), num), hi=st.one_of(st.none(), num), pin=st.integers(0, 20),
         dt=st.sampled_from(['f8', 'f8', 'f4', 'i8', 'i4']), copy=st.sampled_from([None, True, False]), strided=st.booleans(),
         fn=st.sampled_from(['bound', 'bound_array']))
def bound_array(v, shape, lo, hi, pin, dt, copy, strided, fn):
    if lo is not None and pin < 5:
        lo = v[pin % 6]
    if hi is not None and pin > 15:
        hi = v[pin % 6]
    if dt[0] != 'f' and copy is False:       # what an integer array can hold
        lo, hi = None if lo is None else int(lo), None if hi is None else int(hi)
    if lo is not None and hi is not None and lo > hi:
        lo, hi = hi, lo
    a = arr(v, shape, dt, strided)
    a0 = a.copy()
    kw = {} if copy is None else dict(copy=copy)
    r = getattr(Num, fn)(a, lo=lo, hi=hi, **kw)
    assert isinstance(r, np.ndarray) and r.shape == a0.shape, (r, a0)
    assert r.dtype == a0.dtype or dt[0] == 'i' and r.dtype == np.float64 and any(isinstance(v, float) for v in (lo, hi)), f'type {r.dtype} of bounded {a0.dtype}'
    one = lambda x: x if x is None else r.dtype.type(x)  # noqa
    L, H = one(lo), one(hi)
    for x, y in zip(a0.ravel(), r.ravel()):
        ref = x
        if lo is not None and x < lo:       # the same for integers: guards of 1e-10 must hold there too
            ref = L
        if hi is not None and ref > hi:
            ref = H
        assert y == ref, f'{x} -> {y}, expected {ref}'
    if copy is False:
        assert r is a or np.shares_memory(r, a) or a.size == 0, 'in-place bound must return the input'
        eq_arr(a, r, 'in-place')
    else:
        eq_arr(a, a0, 'input modified')
        assert a.size == 0 or not np.shares_memory(r, a)
    if dt[0] == 'f' and a0.size and (lo is not None or hi is not None):      # an undefined value is in no range and stays undefined
        u = a0.copy()
        u.flat[pin % u.size] = np.nan
        q = Num.bound_array(u.copy(), lo=lo, hi=hi, **kw)
        want = r.copy()
        want.flat[pin % u.size] = np.nan
        eq_arr(q, want, 'bounds of an undefined value')
    # idempotent
    eq_arr(Num.bound(r, lo, hi), r, 'idempotent')
    if a0.ndim and dt != 'f4':      # plain lists are taken as arrays
        l = a0.tolist()
        q = Num.bound_array(l, lo=lo, hi=hi, **kw)
        assert isinstance(q, np.ndarray) and np.array_equal(q, r) and l == a0.tolist(), 'bounds of a list'
    return a.size > 1 and (r != a0).any() and (r == a0).any()


@ck.test(examples=1200, x=vals, y=st.lists(pos, min_size=6, max_size=6), shape=shape, lo=st.one_of(st.none(), st.sampled_from([1e-10, 1e-5, 0.5, 3.])),
         scalar=st.sampled_from(['xy', 'y', 'none', 'none']), ints=st.booleans())
def safe_div(x, y, shape, lo, scalar, ints):
    a, b = arr(x, shape), arr(y, shape)
    if ints and scalar == 'none':
        a, b = a.astype('i8'), b.astype('i4')
    if scalar != 'none':
        b = y[0]
        if scalar == 'xy':
            a = x[0]
    a0, b0 = np.copy(a), np.copy(b)
    r = Num.safe_div(a, b) if lo is None else Num.safe_div(a, b, lo=lo)
    g = 1e-10 if lo is None else lo
    ref = np.array(a0) / np.maximum(b0, g)
    close(r, ref, 1e-14, msg='safe_div')
    assert np.isfinite(r).all()
    eq_arr(a, a0, 'numerator'), eq_arr(b, b0, 'denominator modified')
    return np.size(b0) > 1 and (b0 < g).any() and (b0 > g).any()


@ck.test(examples=1200, y=sized_lists(st.lists(pos, min_size=6, max_size=6), 1, 3), shape=shape,
         lo=st.one_of(st.none(), st.sampled_from([1e-10, 1e-5, 0.5, 3.])), base=st.sampled_from(['lg', 'ln']), scalar=st.booleans(), ints=st.booleans())
def logs(y, shape, lo, base, scalar, ints):
    args = [v[0] if scalar and i == 0 else arr(v, shape, 'i8' if ints else 'f8') for i, v in enumerate(y)]
    a0 = [np.copy(a) for a in args]
    f = np.log10 if base == 'lg' else np.log
    g = 1e-10 if lo is None else lo
    fs = getattr(Num, 'safe_' + base)
    r = fs(*args) if lo is None else fs(*args, lo=lo)
    fp = getattr(Num, base)
    p = fp(*[np.abs(a) for a in args])
    if len(args) == 1:
        r, p = (r,), (p,)
    assert isinstance(r, tuple) and isinstance(p, tuple) and len(r) == len(p) == len(args)
    for a, b, c, d in zip(args, a0, r, p):
        eq_arr(a, b, 'input modified')
        close(c, f(np.maximum(b, g)), 1e-13, 1e-13, msg='safe_' + base)
        assert np.isfinite(c).all()
        close(d, f(np.abs(b)), 1e-13, 1e-13, msg=base)
    return any(b.size > 1 and (b < g).any() and (b > g).any() for b in a0)


@ck.test(examples=1500, v=vals, shape=st.sampled_from([(3,), (4,), (2, 3), (3, 2), (2, 1, 3), (2, 2, 2), (0, 3), (1, 1)]),
         axis=st.sampled_from([None, -1, 0, 1, -2, 2]), keep=st.booleans(), scale=st.sampled_from([1., 1., 1e-6, 1e6, 1e-12, 0.]),
         lo=st.sampled_from([None, 1e-10, 0.5, 1e-30]), inplace=st.sampled_from([None, False, True]), intin=st.booleans(), zero=st.integers(0, 5), layout=st.sampled_from(['c', 'c', 'f', 'step', 'rev', 'mid']))
def norms(v, shape, axis, keep, scale, lo, inplace, intin, zero, layout):
    a = arr(v, shape) * scale
    if intin and not inplace:
        a = a.astype(int)
    if zero == 0 and a.ndim > 1 and a.size:
        a[0] = 0
    base = a
    if layout == 'f':
        a = np.asfortranarray(a)
    elif layout == 'rev':
        a = a[::-1]
    elif layout != 'c':             # a view into a larger array, whose other elements stay untouched
        k = 0 if layout == 'step' else 1
        base = np.full(tuple(2 * n + 2 for n in a.shape), 77, a.dtype)
        w = base[tuple(slice(k, k + 2 * n, 2) if layout == 'step' else slice(k, k + n) for n in a.shape)]
        w[...] = a
        a = w
    ax = -1 if axis is None else axis
    if not -a.ndim <= ax < a.ndim:
        ax, axis = -1, None
    a0 = a.copy()
    kw = {} if axis is None else dict(axis=axis)
    n = Num.norm(a, keepdims=keep, **kw)
    ref = np.sqrt((a0.astype(float)**2).sum(axis=ax, keepdims=keep))
    close(n, ref, 1e-12, 1e-290, msg='norm')
    close(Num.norm(a.tolist() if a.size else a, **kw), np.sqrt((a0.astype(float)**2).sum(axis=ax)), 1e-12, 1e-290, msg='norm of list')
    eq_arr(a, a0, 'norm modified input')
    if lo is not None:
        kw['lo'] = lo
    if inplace is not None:
        kw['inplace'] = inplace
    u = Num.normalize(a, **kw)
    g = 1e-10 if lo is None else lo
    nn = np.sqrt((a0.astype(float)**2).sum(axis=ax, keepdims=True))
    close(u, a0 / np.maximum(nn, g), 1e-12, 1e-290, msg='normalize')
    if a.size and not inplace:
        eq_arr(Num.normalize(a.tolist(), **kw), u, 'normalize of a list')
    big = (nn > g)
    un = np.sqrt((u**2).sum(axis=ax, keepdims=True))
    close(un[big], np.ones(big.sum()), 1e-9, msg='unit length')
    if inplace:
        eq_arr(a, u, 'in-place normalize')
        assert u is a or np.shares_memory(u, a) or a.size == 0
    else:
        eq_arr(a, a0, 'input modified')
    if layout in ('step', 'mid'):
        out = np.ones(base.shape, bool)
        out[tuple(slice(k, k + 2 * n, 2) if layout == 'step' else slice(k, k + n) for n in a.shape)] = False
        assert (base[out] == 77).all(), 'elements outside the view modified'
    return a.size > 3 and big.any()


@ck.test(examples=400, xs=sized_lists(st.one_of(st.none(), num, st.lists(num, max_size=4)), 1, 4),
         nd=bits64, copy=st.sampled_from([None, True, False]))
def as_array(xs, nd, copy):
    args = [np.array(x) if x is not None and (nd >> i) & 1 else x for i, x in enumerate(xs)]
    kw = {} if copy is None else dict(copy=copy)
    out = dp.Array.as_array(*args, **kw)
    if len(args) == 1:
        out = (out,)
    assert isinstance(out, tuple) and len(out) == len(args)
    for x, a, o in zip(xs, args, out):
        if x is None:
            assert o is None
        else:
            eq_arr(o, np.array(x), 'as_array', dtype=True)
            if isinstance(a, np.ndarray) and a.size:
                assert np.shares_memory(a, o) is (copy is False), 'copy flag'
    return len(args) > 1 and any(isinstance(a, np.ndarray) for a in args)


@ck.test(examples=120, n=big_sizes, s=bits64, copy=st.booleans(), cols=st.integers(1, 3))
def large(n, s, copy, cols):
    """Long arrays whose values lie on, just next to, and off the bounds."""
    g = rng_of(s)
    base = g.uniform(-3, 3, (n, cols))
    lo, hi = -1.25 + 1e-13, .1
    x = base.copy()
    k = g.integers(0, 8, x.shape)
    for j, v in enumerate((lo, hi, np.nextafter(lo, -9), np.nextafter(hi, 9), np.nextafter(hi, 0))):
        x[k == j] = v
    x0 = x.copy()
    for L, H in ((lo, hi), (lo, None), (None, hi)):
        x = x0.copy()
        r = Num.bound_array(x, lo=L, hi=H, copy=copy)
        ref = [[max(v, L) if L is not None else v for v in q] for q in x0.tolist()]
        ref = [[min(v, H) if H is not None else v for v in q] for q in ref]
        assert r.tolist() == ref, 'bounds of a long array'
        assert np.array_equal(x, x0) is (copy or np.array_equal(r, x0))
    y = g.choice([0., 1e-10, 2., -3., 1e-11, 7.], n)
    close(Num.safe_div(x0[:, 0], y, lo=1e-10), [a / max(b, 1e-10) for a, b in zip(x0[:, 0].tolist(), y.tolist())], 1e-14, msg='safe_div')
    close(Num.safe_lg(y, lo=1e-10), [math.log10(max(b, 1e-10)) for b in y.tolist()], 1e-13, 1e-13, msg='safe_lg')
    close(Num.norm(x0, axis=-1), [math.sqrt(math.fsum(v * v for v in q)) for q in x0.tolist()], 1e-14, msg='norm')
    return True
