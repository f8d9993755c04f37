"""C09: array wrappers."""
from lib.harness import *
from pyhipp.core.arrays import Array, IntArray, BoolArray, Shape, FlatIndexArray, IndexArray, DType

ck = Check('C09', 'Arrays of 0-3 dimensions with repeated values, several dtypes and forms (list, array, wrapper). Non-trivial: at least '
           'three elements of which two are equal or out of order.')
shape_ = st.sampled_from([(), (0,), (1,), (4,), (7,), (2, 3), (3, 1), (2, 2, 2)])
vals = st.lists(st.integers(-5, 5), min_size=8, max_size=8)


def mk(v, shape, dt):
    return np.array([v[i] for i in range(int(np.prod(shape)))]).reshape(shape).astype('i8').astype(dt)


def layout(a, how):
    """the same array in another memory layout"""
    if how == 'F' and a.ndim:
        return np.asfortranarray(a)
    if how == 'T' and a.ndim:
        return np.ascontiguousarray(a.T).T
    if how == 'neg' and a.ndim:
        return np.ascontiguousarray(a[::-1])[::-1]
    if how == 'step' and a.ndim:
        return np.repeat(a, 2, axis=0)[::2]
    return a


def impl(a):
    return a.to_simple_repr()['data']


@ck.test(examples=1500, v=vals, shape=shape_, dt=st.sampled_from(['f8', 'i4', 'i8', '>f8', '>i2', '?', 'u1', 'U3', 'f2']), form=st.sampled_from(['arr', 'arr', 'list', 'wrap']), mem=st.sampled_from(['C', 'C', 'F', 'T', 'neg', 'step']),
         copy=st.sampled_from([None, True, False]), to=st.sampled_from([None, 'f8', 'f4', 'DType', '>i4']), kind=st.sampled_from([None, 'stable', 'mergesort']))
def ops(v, shape, dt, form, mem, copy, to, kind):
    a = layout(mk(v, shape, dt), mem)
    src = a if form == 'arr' else a.tolist() if form == 'list' else Array(a, copy=False)
    kw = {} if copy is None else dict(copy=copy)
    if to:
        kw['dtype'] = DType('f4') if to == 'DType' else to
    w = Array(src, **kw)
    ref = np.array(a.tolist() if form == 'list' else a, dtype={None: None, 'DType': 'f4'}.get(to, to)).reshape(shape)
    eq_arr(impl(w), ref, 'data', dtype=True)
    assert w.n_dims == ref.ndim and w.size == ref.size and impl(w.shape).tolist() == list(ref.shape)
    assert DType(w.dtype).to_simple_repr() == DType(ref.dtype).to_simple_repr()
    if ref.ndim:
        assert len(w) == len(ref)
    if a.size and form != 'list':
        share = np.shares_memory(impl(w), a)
        assert share is (copy is False and ref.dtype == a.dtype), 'copy flag'
    c = w.copied()
    eq_arr(impl(c), ref, 'copied', dtype=True)
    assert not ref.size or not np.shares_memory(impl(c), impl(w))
    for cp in (True, False):
        f = w.flatten(copy=cp)
        eq_arr(impl(f), ref.ravel(), 'flatten', dtype=True)
        if ref.size:
            assert not cp or not np.shares_memory(impl(f), impl(w)), 'flatten(copy=True) shares memory'
            assert cp or np.shares_memory(impl(f), impl(w)) or not impl(w).flags.c_contiguous, 'flatten(copy=False) copied'
    flat = ref.ravel().tolist()
    eq_arr(impl(w.sorted()), np.array(sorted(flat), dtype=ref.dtype), 'sorted flat')
    i = w.argsort(kind='stable') if kind else w.argsort()
    assert isinstance(i, FlatIndexArray) and i.n_indexed == ref.size
    assert sorted(impl(i).tolist()) == list(range(ref.size)), 'argsort is not a permutation'
    assert [flat[j] for j in impl(i)] == sorted(flat), 'argsort does not sort'
    if kind:
        assert impl(i).tolist() == sorted(range(len(flat)), key=lambda j: flat[j]), 'stable argsort'
    for ax in range(-ref.ndim, ref.ndim):
        s = impl(w.sorted(axis=ax))
        assert s.shape == ref.shape
        o = w.argsort(axis=ax, kind=kind)
        assert isinstance(o, IntArray) and not isinstance(o, FlatIndexArray)
        for x, y, z in zip(np.moveaxis(ref, ax, -1).reshape(-1, ref.shape[ax]) if ref.size else [],
                           np.moveaxis(s, ax, -1).reshape(-1, ref.shape[ax]) if ref.size else [],
                           np.moveaxis(impl(o), ax, -1).reshape(-1, ref.shape[ax]) if ref.size else []):
            assert y.tolist() == sorted(x.tolist())
            assert sorted(z.tolist()) == list(range(len(x))) and x[z].tolist() == y.tolist()
    eq_arr(impl(w), ref, 'operations modified the array')
    eq_arr(a, mk(v, shape, dt), 'operations modified the source')
    return ref.size > 2 and (len(set(flat)) < len(flat) or flat != sorted(flat))


@ck.test(examples=300, shape=st.sampled_from([3, (3,), (2, 4), [2, 2], (0,), (1, 2, 3)]), dt=st.sampled_from([None, 'f4', 'i8', 'DType', '>i4', '>f8', '?', 'c16']), one=st.booleans(),
         cls=st.sampled_from([Array, IntArray, BoolArray]), wrap=st.booleans())
def filled(shape, dt, one, cls, wrap):
    t = (shape,) if isinstance(shape, int) else tuple(shape)
    s = Shape(list(t)) if wrap else shape
    kw = {} if dt is None else dict(dtype=DType('i4') if dt == 'DType' else dt)
    a = (cls.ones if one else cls.zeros)(s, **kw)
    assert type(a) is cls
    eq_arr(impl(a), np.full(t, float(one)).astype({None: 'f8', 'DType': 'i4'}.get(dt, dt)), 'fill', dtype=True)
    return len(t) > 1


@ck.test(examples=200, n=st.integers(1, 4), bad=st.booleans())
def indices(n, bad):
    raises(AssertionError, Shape, [[1, 2]])
    f = FlatIndexArray(9, list(range(n)))
    assert f.n_indexed == 9 and impl(f).tolist() == list(range(n))
    raises(AssertionError, FlatIndexArray, 9, [[0]])
    data = [list(range(n))] * 3
    if bad:
        raises(AssertionError, IndexArray, [5] * (n + 1), data)
    else:
        i = IndexArray([5] * n, data)
        assert impl(i.shape_indexed).tolist() == [5] * n and impl(i).tolist() == data
    for nm in ('int32', 'int64', 'float32', 'float64'):
        d = getattr(DType, nm)()
        assert d.size == np.dtype(nm).itemsize and d.alignment == np.dtype(nm).alignment and d.byte_order == np.dtype(nm).byteorder
    return True


@ck.test(examples=120, n=big_sizes, s=bits64, dt=st.sampled_from(['f8', 'i8', 'f4', 'i2']), cols=st.sampled_from([0, 2, 5]))
def large(n, s, dt, cols):
    """Long arrays against NumPy."""
    g = rng_of(s)
    shp = (n, cols) if cols else (n,)
    v = (g.normal(size=shp) * 1e4).astype(dt)
    v[g.random(n) < .1] = 0
    a = Array(v)
    def same(o, r, msg):
        eq_arr(getattr(o, '_impl', o), r, msg, dtype=True)
    for ax in [None, -1, 0]:
        same(a.sorted(axis=ax), np.sort(v, axis=ax), 'sorted')
        k = a.argsort(axis=ax)
        k = np.asarray(getattr(k, '_impl', k))
        o = v.ravel()[k.ravel()] if ax is None else np.take_along_axis(v, k, axis=ax)
        eq_arr(o, np.sort(v, axis=ax), 'argsort')
    c = a.copied()
    same(c, v, 'copied')
    assert not np.shares_memory(c._impl, a._impl)
    same(a.flatten(), v.ravel(), 'flattened')
    return True
