"""C02: DataTable against an ordered-dict-of-arrays model with mirrored sharing."""
import copy
import pickle
from lib.harness import *
from pyhipp.core import DataTable

ck = Check('C02', 'A case is a history of up to 20 operations on a pool of tables with up to 5 columns of '
           'mixed dtype and dimension; a model of ordered dicts of arrays mirrors the documented sharing, and '
           'in-place writes through column references expose wrong sharing. Non-trivial: at least two '
           'tables, one selection/concatenation/copy and one later in-place write.')

DT = ['f8', 'f4', 'i8', 'i4', 'u1', '?', 'U3', 'c16']
names = st.sampled_from(['a', 'b', 'c', 'x', 'pos', 'a b', '0'])
col = st.tuples(st.sampled_from(DT), pick((3, st.just(())), st.just((3,)), st.just((2, 2)), st.just((0,))),
                st.integers(0, 50), st.sampled_from(['arr', 'arr', 'list', 'fortran', 'view', 'tuple']))


def mk(spec, n):
    """-> source object; a fresh equal one at every call"""
    dt, tail, s, form = spec
    size = int(np.prod((n,) + tail))
    v = (np.arange(size) * 7 + s) % 23
    if dt[0] == 'U':
        a = np.array([chr(97 + int(x)) * (int(x) % 4) for x in v], dtype=dt)
    elif dt == '?':
        a = v % 2 == 0
    else:
        a = v.astype(dt)
        if dt[0] in 'fc':
            a = a / 4
            a = a.astype(dt)
    a = a.reshape((n,) + tail)
    if form == 'list' and size:
        return a.tolist()
    if form == 'tuple' and size:
        return tuple(a.tolist())
    if form == 'fortran':
        return np.asfortranarray(a)
    if form == 'view':
        b = np.zeros((2 * n,) + tail, dtype=a.dtype)
        b[::2] = a
        return b[::2]
    return a


def spoil(src):
    if isinstance(src, np.ndarray):
        if src.size:
            src[...] = np.zeros((), dtype=src.dtype) if src.dtype.kind != 'U' else 'zz'
    elif isinstance(src, list):
        src.clear()


def same(r, m, tag):
    assert list(r) == list(m) and list(r.keys()) == list(m) and len(r) == len(m), \
        f'{tag}: columns {list(r)} != {list(m)}'
    vs = list(r.values())
    for i, (k, v) in enumerate(m.items()):
        a = r[k]
        assert isinstance(a, np.ndarray), f'{tag}[{k}]: {type(a)}'
        assert a.dtype == v.dtype and a.shape == v.shape, f'{tag}[{k}]: {a.dtype}{a.shape} != {v.dtype}{v.shape}'
        assert np.array_equal(a, v), f'{tag}[{k}]: {a} != {v}'
        assert vs[i] is a and k in r
        assert r[k] is a, 'a read gives the stored column'


sel = pick(
    st.tuples(st.just('slice'), st.one_of(st.none(), st.integers(-7, 7)), st.one_of(st.none(), st.integers(-7, 7)),
              st.sampled_from([None, 1, 2, -1, -2])),
    st.tuples(st.just('mask'), st.integers(0, 255)),
    st.tuples(st.just('idx'), st.lists(st.integers(-6, 6), max_size=6)),
    st.tuples(st.sampled_from(['list', 'tslice']), st.lists(st.integers(-6, 6), min_size=1, max_size=6)),
    st.tuples(st.just('ell')),
)


def mksel(s, n):
    if s[0] == 'ell':
        return Ellipsis
    if s[0] == 'tslice':
        return (slice(*s[1][:2]),)
    if s[0] == 'list':
        return [i % n for i in s[1]] if n else [False] * n
    if s[0] == 'slice':
        return slice(*s[1:])
    if s[0] == 'mask':
        return np.array([(s[1] >> i) & 1 for i in range(n)], dtype=bool)
    return np.array([i % n if i >= 0 else -((-i - 1) % n) - 1 for i in s[1]] if n else [], dtype=int)


i_ = st.integers(0, 3)
keys = st.lists(names, max_size=3)
op = pick(
    (2, st.tuples(st.just('set'), i_, names, col)),
    st.tuples(st.just('sett'), i_, st.lists(st.tuples(names, col), max_size=3), st.sampled_from([0, 0, 0, 1, -1])),
    st.tuples(st.just('del'), i_, st.integers(0, 9), names),
    st.tuples(st.just('delt'), i_, keys),
    st.tuples(st.just('gett'), i_, keys),
    st.tuples(st.just('attr'), i_, st.sampled_from(['a', 'b', 'c', 'x', 'pos', 'nope'])),
    (4, st.tuples(st.just('poke'), i_, st.integers(0, 9), st.integers(0, 99))),
    st.tuples(st.just('update'), i_, i_, st.booleans()),
    st.tuples(st.just('updated'), i_, st.lists(st.tuples(names, col), max_size=3), st.booleans()),
    st.tuples(st.just('or'), i_, i_),
    st.tuples(st.just('ior'), i_, i_),
    st.tuples(st.just('copy'), i_),
    st.tuples(st.sampled_from(['deepcopy', 'pickle']), i_),
    st.tuples(st.just('pop'), i_, names, st.booleans()),
    st.tuples(st.just('ctor'), i_, st.booleans()),
    (3, st.tuples(st.just('subset'), i_, sel, st.sampled_from(['iloc', 'copy', 'default', 'share']))),
    st.tuples(st.just('subcol'), i_, keys, st.sampled_from(['copy', 'default', 'share'])),
    (2, st.tuples(st.just('concat'), i_, st.lists(i_, max_size=3), st.booleans())),
    (2, st.tuples(st.just('stack'), i_, st.booleans())),
    st.tuples(st.just('to_dict'), i_, st.sampled_from([True, False, None])),
    st.tuples(st.just('to_list'), i_),
    st.tuples(st.just('clear'), i_),
)


@ck.test(examples=2400, shards=3, n=st.integers(0, 6),
         init=sized_lists(st.dictionaries(names, col, max_size=5), 1, 3), ops=sized_lists(op, 1, 20))
def history(n, init, ops):
    pool = []
    for d in init:
        src = {k: mk(c, n) for k, c in d.items()}
        t = DataTable(src)
        for v in src.values():
            spoil(v)
        pool.append((t, {k: np.array(mk(c, n)) for k, c in d.items()}))
    derived = poked = False

    def add(r, m, tag):
        assert type(r) is DataTable, tag
        if len(pool) < 4:
            pool.append((r, m))
        else:
            pool[0] = (r, m)

    for step, o in enumerate(ops):
        r, m = pool[o[1] % len(pool)]
        w = o[0]
        if w == 'set':
            src = mk(o[3], n)
            r[o[2]] = src
            m[o[2]] = np.array(mk(o[3], n))
            spoil(src)
        elif w == 'sett':
            ks = tuple(k for k, _ in o[2])
            src = [mk(c, n) for _, c in o[2]]
            if o[3] == 1:
                src.append(np.zeros(n))
            elif o[3] == -1 and src:
                src.pop()
            if len(src) != len(ks):
                raises(Exception, r.__setitem__, ks, tuple(src), msg='tuple of wrong length')
            else:
                r[ks] = tuple(src)
                for k, c in o[2]:
                    m[k] = np.array(mk(c, n))
                for s in src:
                    spoil(s)
        elif w == 'del':
            k = o[3] if o[2] == 0 or not m else list(m)[o[2] % len(m)]
            if k in m:
                del r[k], m[k]
            else:
                raises(KeyError, r.__delitem__, k)
        elif w == 'delt':
            if len(set(o[2])) == len(o[2]) and all(k in m for k in o[2]):
                del r[tuple(o[2])]
                for k in o[2]:
                    del m[k]
        elif w == 'gett':
            if all(k in m for k in o[2]):
                out = r[tuple(o[2])]
                assert isinstance(out, tuple) and len(out) == len(o[2])
                for k, v in zip(o[2], out):
                    assert v is r[k]
            else:
                raises(KeyError, r.__getitem__, tuple(o[2]))
        elif w == 'attr':
            if o[2] in m:
                assert getattr(r, o[2]) is r[o[2]]
                assert o[2] in dir(r)
            else:
                raises(AttributeError, getattr, r, o[2])
                assert not hasattr(r, o[2]) and o[2] not in r
        elif w == 'poke':
            ks = [k for k in m if m[k].size]
            if ks:
                k = ks[o[2] % len(ks)]
                j = o[3] % m[k].size
                val = {'U': 'Q', 'b': not m[k].flat[j]}.get(m[k].dtype.kind, o[3])
                r[k].flat[j] = val
                m[k].flat[j] = val
                poked |= derived
        elif w == 'update':
            r2, m2 = pool[o[2] % len(pool)]
            if r2 is not r:
                r.update(r2, copy=o[3])
                m.update({k: (v.copy() if o[3] else v) for k, v in m2.items()})
        elif w == 'updated':
            src = {k: mk(c, n) for k, c in o[2]}
            r.update(src, copy=o[3])
            m.update({k: np.array(mk(c, n)) for k, c in dict(o[2]).items()})
            if o[3]:
                for s in src.values():
                    spoil(s)
        elif w in ('or', 'ior'):
            r2, m2 = pool[o[2] % len(pool)]
            new = {k: v.copy() for k, v in m2.items()}
            if w == 'or':
                add(r | r2, {k: v.copy() for k, v in {**m, **new}.items()}, o)
                derived = True
            elif r2 is not r:
                keep = r
                r |= r2
                assert r is keep
                m.update(new)
        elif w == 'copy':
            add(r.copy(), {k: v.copy() for k, v in m.items()}, o)
            derived = True
        elif w in ('deepcopy', 'pickle'):
            a = copy.deepcopy(r) if w == 'deepcopy' else pickle.loads(pickle.dumps(r, protocol=step % (pickle.HIGHEST_PROTOCOL + 1)))
            add(a, {k: v.copy() for k, v in m.items()}, o)
            derived = True
        elif w == 'pop':
            if o[2] in m:
                keep = r[o[2]]
                assert (r.pop(o[2], None) if o[3] else r.pop(o[2])) is keep
                del m[o[2]]
            elif o[3]:
                assert r.pop(o[2], 'none') == 'none'
            else:
                raises(KeyError, r.pop, o[2])
        elif w == 'ctor':
            add(DataTable(r, copy=o[2]), {k: v.copy() if o[2] else v for k, v in m.items()}, o)
        elif w == 'subset':
            lens = {len(v) for v in m.values()}
            if len(lens) > 1 and o[2][0] not in ('slice', 'tslice', 'ell'):
                continue
            s = mksel(o[2], lens.pop() if lens else 0)
            if o[3] == 'iloc':
                a = r.iloc[s]
            elif o[3] == 'default':
                a = r.subset(s)
            else:
                a = r.subset(s, copy=o[3] == 'copy')
            # fancy indexing gives new data in any case; slices share only when asked to
            add(a, {k: v[s] if o[3] == 'share' else v[s].copy() for k, v in m.items()}, o)
            derived = True
            ck.label(f'subset {o[2][0]} {o[3]}')
        elif w == 'subcol':
            if all(k in m for k in o[2]):
                kw = {} if o[3] == 'default' else dict(copy=o[3] == 'copy')
                add(r.subcol(tuple(o[2]), **kw),
                    {k: m[k] if o[3] == 'share' else m[k].copy() for k in o[2]}, o)
                derived = True
            else:
                raises(KeyError, r.subcol, tuple(o[2]))
        elif w == 'concat':
            others = [pool[j % len(pool)] for j in o[2]]
            if o[3]:        # make compatible partners: subsets of the same table
                others = [(r.subset(slice(0, j)), {k: v[:j].copy() for k, v in m.items()}) for j in o[2]]
            try:
                mm = {k: np.concatenate([m[k]] + [b[k] for _, b in others]) for k in m}
            except (KeyError, ValueError, TypeError):
                mm = None
            if mm is not None:
                args = [a for a, _ in others]
                if step % 2:
                    args = [a.to_dict() for a in args]      # any mapping will do
                add(r.concat(*args), mm, o)
                derived = True
                ck.label(f'concat {min(len(others), 2)}')
        elif w == 'stack':
            try:
                mm = (np.column_stack if o[2] else np.vstack)(list(m.values()))
            except (ValueError, TypeError):
                continue
            eq_arr(r.col_stacked() if o[2] else r.row_stacked(), mm, 'stack', dtype=True)
            ck.label('stack')
        elif w == 'to_dict':
            d = r.to_dict() if o[2] is None else r.to_dict(copy=o[2])
            assert type(d) is dict
            same(d, m, 'to_dict')
            for k in m:
                if o[2] is False:
                    assert d[k] is r[k] or m[k].size == 0 or np.shares_memory(d[k], r[k]), 'to_dict(copy=False) shares'
                else:
                    assert not np.shares_memory(d[k], r[k]), 'to_dict() copies'
        elif w == 'to_list':
            d = r.to_dict_of_list()
            assert list(d) == list(m) and all(type(d[k]) is list and d[k] == m[k].tolist() for k in m), d
        elif w == 'clear':
            r.clear()
            m.clear()
        for j, (a, b) in enumerate(pool):
            same(a, b, f'after {o}: table {j}')
    return derived and poked and len(pool) > 1


num = st.sampled_from(['f8', 'f4', 'i8', 'i4', 'u1', '?', 'c16'])
tails = st.sampled_from([(), (), (3,), (2, 2), (0,)])


@ck.test(examples=1200, cols=st.dictionaries(names, st.tuples(st.booleans(), tails), max_size=4), rows=st.lists(st.integers(0, 3), min_size=1, max_size=4), bits=bits64, strs=st.booleans(),
         forms=st.lists(st.sampled_from(['table', 'table', 'dict', 'list']), min_size=4, max_size=4), order=st.booleans(), bad=st.sampled_from([None, None, None, 'missing', 'tail', 'extra']))
def concatenation(cols, rows, bits, strs, forms, order, bad):
    """Columns of one name in different types, with or without rows, in tables, mappings of arrays and of lists."""
    g = rng_of(bits)
    alls, given = [], []
    for i, n in enumerate(rows):
        d = {}
        for k, (s, tail) in cols.items():
            dt = g.choice(['U1', 'U3', 'U5']) if s and strs else g.choice(['f8', 'f4', 'i8', 'i4', 'u1', '?', 'c16', 'i2'])
            size = int(np.prod((n,) + tail))
            v = g.integers(0, 9, size)
            a = np.array([chr(97 + x) * min(int(x) % 6, int(dt[1:])) for x in v], dtype=dt) if dt[0] == 'U' else v.astype(dt)
            d[k] = a.reshape((n,) + tail)
        alls.append(d)
    err = None
    if bad and cols and len(rows) > 1:
        k = sorted(cols)[0]
        if bad == 'missing':
            del alls[-1][k]
            err = KeyError
        elif bad == 'extra':        # (only the columns of the first are kept)
            alls[-1]['extra'] = np.zeros(2)
        elif bad == 'tail':
            alls[-1][k] = np.zeros((rows[-1],) + cols[k][1] + (2,))
            err = ValueError
    for i, d in enumerate(alls):
        e = dict(reversed(list(d.items()))) if order and i else d
        f = 'table' if i == 0 else forms[i]
        given.append(DataTable(e) if f == 'table' else {k: v.tolist() if v.size and f == 'list' else v.copy() for k, v in e.items()})
        if f == 'list' and i:
            alls[i] = {k: np.array(given[i][k]) for k in alls[i]}
    if err is not None:
        raises(err, given[0].concat, *given[1:], msg='tables that do not fit')
        return False
    ref = {k: np.concatenate([d[k] for d in alls]) for k in cols}
    out = given[0].concat(*given[1:])
    same(out, ref, 'concatenated')
    for k, v in out.items():        # new data
        if v.size:
            v[...] = np.zeros((), v.dtype)
    for d, q in zip(given, alls):
        for k in q:
            eq_arr(np.asarray(d[k]), q[k], 'an input changed')
    return len(rows) > 1 and len({str(d[k].dtype) for d in alls for k in cols}) > 1 and 0 < sum(rows)


@ck.test(examples=80, n=big_sizes, k=st.integers(9, 60), s=bits64, copy=st.booleans())
def large(n, k, s, copy):
    """Tables of many columns and rows."""
    g = rng_of(s)
    cols = {f'c{i}': g.integers(0, 1000, n).astype(['i8', 'f8', 'f4'][i % 3]) for i in range(k)}
    t = DataTable(cols)
    assert list(t.keys()) == list(cols) and len(t) == k
    d = t.to_dict(copy=copy)
    m = g.random(n) < .3
    order = g.permutation(n)
    sub, picked, ren = t.subset(m), t.subset(order), None
    for c, v in cols.items():
        eq_arr(t[c], v, c, dtype=True)
        eq_arr(d[c], v, c, dtype=True)
        assert np.shares_memory(d[c], t[c]) is (not copy)
        eq_arr(sub[c], v[m], c, dtype=True)
        eq_arr(picked[c], v[order], c, dtype=True)
    return True
