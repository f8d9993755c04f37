"""C03: offsets, chunks, masks and range filters against loop definitions."""
from lib.harness import *
from pyhipp.core import DataDict, DataTable
from pyhipp.core import dataproc as dp
from pyhipp.core.dataproc.iter import Chunks
from pyhipp.core.dataproc.mask import Mask
from pyhipp.core.dataproc.filter import Range

ck = Check('C03', 'Count lists (with zeros, empty, several integer dtypes), masks, index lists, sources and '
           'bounds are generated and compared with element-by-element loops. Non-trivial: at least two '
           'elements and a mask/filter/chunking that keeps some but not all of them (or two non-empty chunks).')

counts = sized_lists(pick(st.just(0), (3, st.integers(0, 9)), st.integers(0, 300)), 0, 12)
val = st.floats(-9, 9).map(lambda x: round(x, 2))


@ck.test(examples=800, c=counts, dt=st.sampled_from(['list', 'tuple', 'i8', 'i4', 'u1', 'u4', 'u8', 'i2']),
         end=st.sampled_from([True, False, None]))
def offsets(c, dt, end):
    c = [x % 256 for x in c] if dt == 'u1' else c
    arg = c if dt == 'list' else tuple(c) if dt == 'tuple' else np.array(c, dtype=dt)
    ref = [sum(c[:i]) for i in range(len(c) + 1)]
    off = dp.Array.count_to_offset(arg) if end is None else dp.Array.count_to_offset(arg, has_end=end)
    assert isinstance(off, np.ndarray) and off.ndim == 1
    assert off.tolist() == (ref[:-1] if end is False else ref), (off, ref)
    if c:
        assert off.dtype.kind in 'iu', off.dtype
    pairs = dp.Array.count_to_offset_pairs(arg)
    assert pairs.shape == (len(c), 2) and pairs.tolist() == [list(x) for x in zip(ref[:-1], ref[1:])], pairs
    if c:
        assert pairs.dtype.kind in 'iu', pairs.dtype
        data = list(range(sum(c)))
        parts = [data[b:e] for b, e in pairs]
        assert [len(x) for x in parts] == c and sum(parts, []) == data
    if isinstance(arg, np.ndarray):
        assert arg.tolist() == c, 'input modified'
    return sum(x > 0 for x in c) > 1


@ck.test(examples=300, c=sized_lists(pick(st.integers(0, 9), (2, st.integers(2**20, 2**31 - 1)), st.integers(2**31, 2**40)), 1, 20), dt=st.sampled_from(['list', 'tuple', 'i8', 'u8', 'u4', 'i4', '?']), end=st.booleans())
def large_offsets(c, dt, end):
    """Counts whose running total is larger than 2^31, and long lists of flags (0 or 1 each)."""
    if dt in ('u4', 'i4'):
        c = [v % 2**31 for v in c]
    if dt == '?':
        c = [v % 2 == 0 for v in c] * 60
    arg = c if dt == 'list' else tuple(c) if dt == 'tuple' else np.array(c, dtype=dt)
    ref = [sum(c[:i]) for i in range(len(c) + 1)]
    assert dp.Array.count_to_offset(arg, has_end=end).tolist() == (ref if end else ref[:-1])
    assert dp.Array.count_to_offset_pairs(arg).tolist() == [list(x) for x in zip(ref[:-1], ref[1:])]
    if dt != '?':
        assert [tuple(x) for x in Chunks.ranges_by_sizes(arg)] == list(zip(ref[:-1], ref[1:]))
    return len(c) > 1 and (ref[-1] > 2**31 or dt == '?' and ref[-1] > 127)


@ck.test(examples=800, c=counts, form=st.sampled_from(['list', 'array', 'gen', 'i2', 'u1', 'i1', 'i4']), extra=st.integers(0, 3),
         kinds=sized_lists(st.sampled_from(['list', 'array', 'str', 'array2']), 1, 4))
def chunks(c, form, extra, kinds):
    n = sum(c) + extra
    if form in ('u1', 'i1'):
        c = [x % 100 for x in c]
        n = sum(c) + extra
    elif form == 'i2':
        c = [x * 100 for x in c]       # (the total need not fit in the type of the sizes)
        n = sum(c) + extra
    def arg():
        return c if form == 'list' else np.array(c, dtype=int if form == 'array' else form) if form != 'gen' else (x for x in c)
    ref = []
    b = 0
    for x in c:
        ref.append((b, b + x))
        b += x
    assert [tuple(map(int, r)) for r in Chunks.ranges_by_sizes(arg())] == ref
    seqs = []
    for j, k in enumerate(kinds):
        seqs.append({'list': [i * (j + 1) for i in range(n)], 'array': np.arange(n) * (j + 1),
                     'str': ''.join(chr(97 + (i + j) % 26) for i in range(n)),
                     'array2': np.arange(2 * n).reshape(n, 2) + j}[k])
    out = list(Chunks.slices_by_sizes(arg(), *seqs))
    assert len(out) == len(c)
    for (b, e), o in zip(ref, out):
        if len(seqs) == 1:
            o = (o,)
        else:
            assert isinstance(o, tuple)
        assert len(o) == len(seqs)
        for s, x in zip(seqs, o):
            assert type(x) is type(s)
            if isinstance(s, np.ndarray):
                eq_arr(x, s[b:e], 'chunk', dtype=True)
            else:
                assert x == s[b:e]
    if not c:
        raises(AssertionError, lambda: list(Chunks.slices_by_sizes([1])))
    return sum(x > 0 for x in c) > 1


shapes = st.sampled_from([(0,), (1,), (2,), (5,), (8,), (2, 3), (3, 1, 2)])


@ck.test(examples=800, shape=shapes, bits=bits64, nsrc=st.integers(1, 10), s=st.integers(0, 99),
         dt=st.sampled_from(['f8', 'i8', 'f4']), scalar=st.booleans())
def mask_put(shape, bits, nsrc, s, dt, scalar):
    n = int(np.prod(shape))
    x = (np.arange(n).astype(dt) * 2 + s).reshape(shape)
    m = np.array([(bits >> i) & 1 for i in range(n)], dtype=bool).reshape(shape)
    src = -1 - np.arange(nsrc).astype(dt)
    if scalar:
        src = src[0]
    flat_src = np.atleast_1d(src)
    ref = x.copy()
    for i in range(n):
        if m.flat[i]:
            ref.flat[i] = flat_src[i % len(flat_src)]
    m0, s0 = m.copy(), np.copy(src)
    r = Mask.put(x, src, m)
    assert r is None
    eq_arr(x, ref, 'put', dtype=True)
    eq_arr(m, m0, 'mask modified')
    eq_arr(src, s0, 'source modified')
    return n > 1 and 0 < m.sum() < n


@ck.test(examples=800, n=st.integers(0, 8), k=st.integers(1, 4), bits=bits64,
         default=st.sampled_from([None, 0, -7, 2.5, np.nan]), s=st.integers(0, 9))
def mask_zip(n, k, bits, default, s):
    masks = [np.array([(bits >> (i * 8 + j)) & 1 for j in range(n)], dtype=bool) for i in range(k)]
    arrays = [np.arange(n, dtype=float) + 100 * (i + 1) + s for i in range(k)]
    out = Mask.zip(masks, arrays) if default is None else Mask.zip(masks, arrays, default=default)
    ref = []
    for j in range(n):
        v = 0. if default is None else default
        for i in range(k):
            if masks[i][j]:
                v = arrays[i][j]
                break
        ref.append(v)
    eq_arr(out, np.array(ref, dtype=float), 'zip')
    tot = np.sum(masks, axis=0)
    return n > 1 and k > 1 and (tot > 1).any() and (tot == 0).any()


@ck.test(examples=600, n=st.integers(0, 40), bits=bits64, idx=st.lists(st.integers(-40, 39), max_size=10),
         aslist=st.booleans())
def mask_idx(n, bits, idx, aslist):
    b = np.array([(bits >> i) & 1 for i in range(n)], dtype=bool)
    i = Mask.bool_to_idx(b.tolist() if aslist and n else b)
    assert i.tolist() == [j for j in range(n) if b[j]] and i.dtype.kind in 'iu'
    back = Mask.idx_to_bool(n, i)
    eq_arr(back, b, 'idx_to_bool', dtype=True)
    if any(not -n <= x < n for x in idx):
        raises(IndexError, Mask.idx_to_bool, n, np.array(idx))
    idx = [x for x in idx if -n <= x < n]
    m = Mask.idx_to_bool(n, idx if aslist and idx else np.array(idx, dtype=int))
    assert m.dtype == bool and m.tolist() == [j in idx or j - n in idx for j in range(n)]
    assert Mask.bool_to_idx(m).tolist() == sorted({x % n for x in idx})
    raises(AssertionError, Mask.bool_to_idx, np.zeros((2, 2), bool))
    raises(AssertionError, Mask.idx_to_bool, 4, np.zeros((2, 2), int))
    return n > 1 and 0 < b.sum() < n and len(set(idx)) != len(idx)


@ck.test(examples=800, n=st.integers(0, 8), bits=bits64, kind=st.sampled_from(['dict', 'DataDict', 'DataTable']),
         form=st.sampled_from(['bool', 'idx', 'slice']), copy=st.sampled_from([None, True, False]),
         tails=sized_lists(st.sampled_from([(), (3,), (1, 2)]), 0, 4), start=st.integers(-8, 8))
def mask_on(n, bits, kind, form, copy, tails, start):
    cols = {f'k{i}': (np.arange(n * int(np.prod(t))) + 10 * i).reshape((n,) + t).astype('f8' if i % 2 else 'i4')
            for i, t in enumerate(tails)}
    d = {'dict': dict, 'DataDict': DataDict, 'DataTable': DataTable}[kind](cols)
    b = np.array([(bits >> i) & 1 for i in range(n)], dtype=bool)
    m = b if form == 'bool' else b.nonzero()[0][::-1] if form == 'idx' else slice(start, None)
    kw = {} if copy is None else dict(copy=copy)
    out = Mask.on_dict(d, m, **kw)
    assert type(out) is type(d) and list(out) == list(cols)
    for k, v in cols.items():
        eq_arr(out[k], v[m], k, dtype=True)
        eq_arr(d[k], v, 'source', dtype=True)
        if copy or form != 'slice':
            assert not np.shares_memory(out[k], d[k])
    arrs = list(cols.values())
    if arrs:
        o = Mask.on_arrays(m, *arrs, **kw)
        if len(arrs) == 1:
            o = (o,)
        assert isinstance(o, tuple) and len(o) == len(arrs)
        for x, a in zip(o, arrs):
            eq_arr(x, a[m], 'on_arrays', dtype=True)
            if copy:
                assert not np.shares_memory(x, a)
        eq_arr(Mask.on_array(m, arrs[-1], **kw), arrs[-1][m], 'on_array', dtype=True)
    return n > 1 and 0 < b.sum() < n and len(tails) > 1


@ck.test(examples=1000, x=sized_lists(pick((6, val), st.sampled_from([np.nan, np.inf, -np.inf])), 0, 12), lo=st.one_of(st.none(), val, st.sampled_from([-np.inf, np.inf])), hi=st.one_of(st.none(), val, st.sampled_from([-np.inf, np.inf])),
         pin=st.integers(0, 30), form=st.sampled_from(['array', 'list', 'int', '2d']))
def range_filter(x, lo, hi, pin, form):
    if x and lo is not None and pin % 3 == 0:
        lo = x[pin % len(x)]            # a bound equal to an element
    if x and hi is not None and pin % 3 == 1:
        hi = x[pin % len(x)]
    if form == 'int':
        x = [int(v) for v in x if np.isfinite(v)]
    if lo is not None and lo != lo or hi is not None and hi != hi:
        lo = hi = None                  # (an element that is not a number is in no interval, but is no bound)
    ref = [v for v in x if (lo is None or v >= lo) and (hi is None or v < hi)]
    a = x if form == 'list' else np.array(x, dtype=int if form == 'int' else float)
    if form == '2d':
        a = a[None, :]
    out = Range(min=lo, max=hi)(a)
    assert isinstance(out, np.ndarray) and repr(out.tolist()) == repr(ref), (out, ref)
    f = Range(lo, hi)
    assert (f.min, f.max) == (lo, hi)
    assert repr(f(a).tolist()) == repr(ref) and repr(f(a).tolist()) == repr(ref)
    return 0 < len(ref) < len(x)


@ck.test(examples=120, n=big_sizes, s=bits64, p=st.sampled_from([.5, .02, .98, 1., 0.]), dt=st.sampled_from(['f8', 'i8', 'u2', 'f4']))
def large(n, s, p, dt):
    """The same definitions for long inputs."""
    g = rng_of(s)
    m = g.random(n) < p
    ref = [i for i in range(n) if m[i]]
    idx = Mask.bool_to_idx(m)
    assert idx.dtype.kind == 'i' and idx.tolist() == ref
    eq_arr(Mask.idx_to_bool(n, idx), m, 'idx_to_bool')
    a = g.integers(0, 60000, n).astype(dt)
    for how in (m, idx):
        eq_arr(Mask.on_array(how, a), np.array([a[i] for i in ref], dt), 'on_array', dtype=True)
        d = Mask.on_dict({'a': a, 'b': np.stack([a, a], -1)}, how)
        eq_arr(d['a'], a[ref], 'on')
        eq_arr(d['b'], np.stack([a[ref], a[ref]], -1), 'on')
    lo, hi = sorted(float(v) for v in g.choice(a, 2))
    assert Range(lo, hi)(a).tolist() == [v for v in a.tolist() if lo <= v < hi]
    c = g.integers(0, 9, n) * (g.random(n) < .7)
    off = [0]
    for v in c.tolist():
        off.append(off[-1] + v)
    assert dp.Array.count_to_offset(c).tolist() == off
    assert dp.Array.count_to_offset_pairs(c).tolist() == [list(x) for x in zip(off[:-1], off[1:])]
    assert [tuple(x) for x in Chunks.ranges_by_sizes(c)] == list(zip(off[:-1], off[1:]))
    data = g.integers(0, 9, off[-1])
    parts = list(Chunks.slices_by_sizes(c, data))
    assert len(parts) == n and all(np.array_equal(q, data[b:e]) for q, b, e in zip(parts, off[:-1], off[1:]))
    return 0 < len(ref) < n
