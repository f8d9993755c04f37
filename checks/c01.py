"""C01: DataDict against a plain nested-dict model, over histories."""
import copy
from lib.harness import *
from pyhipp.core import DataDict
from collections.abc import Mapping

ck = Check('C01', 'A case is a history of up to 25 operations on a pool of dictionaries nested up to 4 '
           'levels, run on the real class and on plain nested dicts with the same sharing; after each '
           'operation results, errors and the complete content and order are compared. Non-trivial: a '
           'history with a successful tuple or slash access below the top level and at least one change.')

part = st.sampled_from(['a', 'b', 'c', 'ab', '0', ' '])
part_hot = st.sampled_from(['a', 'b', 'c'])


@st.composite
def slash_key(draw):
    parts = draw(st.lists(pick((3, part_hot), part), min_size=1, max_size=4))
    seps = [draw(st.sampled_from(['/', '/', '/', '//'])) for _ in parts]
    lead = draw(st.sampled_from(['', '', '', '/', '//']))
    tail = draw(st.sampled_from(['', '', '', '/', '//']))
    s = lead + parts[0]
    for p, q in zip(parts[1:], seps):
        s += q + p
    return s + tail


lit_key = st.one_of(part_hot, part, slash_key(), st.sampled_from(['', '/', '//', 'a/', '/b']))
# ('P', i, style, extra): the i-th path existing in the model when the operation runs, written in
# one of several equivalent slash forms, optionally with one more (possibly new) part
live_key = st.tuples(st.just('P'), st.integers(0, 60), st.integers(0, 4),
                     pick((3, st.just('')), part))
one_key = pick((3, live_key), lit_key)
tup_key = st.lists(one_key, max_size=4).map(tuple)
nest_key = st.lists(st.one_of(one_key, tup_key), min_size=1, max_size=3).map(tuple)


def paths(m, pre=()):
    out = []
    for k, v in m.items():
        if k.strip('/') != k or not k or '/' in k:
            continue
        out.append(pre + (k,))
        if isinstance(v, dict):
            out += paths(v, pre + (k,))
    return out


def lit(key, m):
    if isinstance(key, str):
        return key
    if key and key[0] == 'P':
        ps = sorted(paths(m), key=lambda p: (-len(p), p))
        parts = list(ps[key[1] % len(ps)]) if ps else ['a']
        if key[3]:
            parts.append(key[3])
        return [lambda: '/'.join(parts), lambda: '/'.join(parts), lambda: '/' + '/'.join(parts),
                lambda: '//'.join(parts), lambda: '/'.join(parts) + '/'][key[2]]()
    return tuple(lit(k, m) for k in key)
leaf = st.one_of(st.integers(-9, 9), st.none(), st.booleans(), st.text('xy', max_size=3),
                 st.lists(st.integers(0, 3), max_size=2))
# ('D'|'d', {key: spec}) is a nested DataDict / dict, anything else a leaf
spec0 = leaf.map(lambda v: ('v', v))


def _nest(ch, lo):
    return st.tuples(st.sampled_from('DDd'), st.dictionaries(part_hot, ch, min_size=lo, max_size=3))


spec1 = pick((2, spec0), _nest(spec0, 0))
spec2 = pick(spec0, (2, _nest(spec1, 1)))
spec3 = pick(spec1, (3, _nest(spec2, 1)))
spec = spec2
top = st.dictionaries(pick((3, part_hot), part), spec3, min_size=1, max_size=4)


class MD(dict):
    """Model of a nested hierarchical dictionary; a plain dict models a plain dict."""


def build(s):
    """-> (real, model)"""
    t, v = s
    if t == 'v':
        return v, v
    r, m = {}, MD() if t == 'D' else {}
    for k, x in v.items():
        r[k], m[k] = build(x)
    return (DataDict(r) if t == 'D' else r), m


class Miss(Exception):
    pass


def walk(key):
    if '/' not in key:
        return [key]
    ks = [k for k in key.split('/') if k]
    if not ks:
        raise Miss('empty')
    return ks


def m_get(m, key):
    if isinstance(key, tuple):
        return tuple(m_get(m, k) for k in key)
    for k in walk(key):
        if not isinstance(m, dict):
            raise Miss('leaf')
        m = m[k]
    return m


def m_parent(m, key):
    ks = walk(key)
    for k in ks[:-1]:
        if not isinstance(m, dict):
            raise Miss('leaf')
        m = m[k]
    if not isinstance(m, dict):
        raise Miss('leaf')
    return m, ks[-1]


def m_set(m, key, v):
    p, k = m_parent(m, key)
    p[k] = v


def m_del(m, key):
    p, k = m_parent(m, key)
    del p[k]


def same(r, m, path='', top=True):
    if isinstance(m, dict):
        assert isinstance(r, Mapping), f'{path}: {type(r)} is not a mapping'
        assert not path or isinstance(r, DataDict) is isinstance(m, MD), f'{path}: what is stored is a {type(r)}'
        ks = list(m)
        assert list(r) == ks, f'{path}: keys {list(r)} != {ks}'
        if top:
            assert len(r) == len(ks)
            assert list(r.keys()) == ks and [k for k, _ in r.items()] == ks, f'{path}: keys()/items() order'
            vals = list(r.values())
            its = [v for _, v in r.items()]
        for i, k in enumerate(ks):
            v = r[k]
            same(v, m[k], f'{path}/{k}', top)
            if top:
                assert vals[i] is v and its[i] is v, f'{path}/{k}: values()/items() disagree with lookup'
    elif isinstance(m, tuple):
        assert isinstance(r, tuple) and len(r) == len(m), f'{path}: {r!r} vs {m!r}'
        for a, b in zip(r, m):
            same(a, b, path, top)
    else:
        assert type(r) is type(m) and r == m, f'{path}: {r!r} != {m!r}'


def both(fr, fm, what):
    try:
        m, em = fm(), None
    except (KeyError, Miss, ValueError) as e:
        m, em = None, e
    try:
        r, er = fr(), None
    except Exception as e:
        r, er = None, e
    if em is None:
        if er is not None:
            raise er
        return True, r, m
    assert er is not None, f'{what}: expected an error ({em!r}), got {r!r}'
    if isinstance(em, KeyError):
        assert isinstance(er, KeyError), f'{what}: expected KeyError, got {er!r}'
    return False, None, None


idx = st.integers(0, 3)
op = st.one_of(
    st.tuples(st.just('get'), idx, pick((2, one_key), tup_key, nest_key)),
    st.tuples(st.just('set'), idx, one_key, spec),
    st.tuples(st.just('set'), idx, one_key, spec),
    st.tuples(st.just('sett'), idx, st.lists(st.tuples(one_key, spec), max_size=3),
              st.integers(-1, 1), st.sampled_from(['tuple', 'list'])),
    st.tuples(st.just('del'), idx, pick((2, one_key), tup_key)),
    st.tuples(st.just('in'), idx, one_key),
    st.tuples(st.just('getd'), idx, one_key),
    st.tuples(st.just('pop'), idx, one_key),
    st.tuples(st.just('popd'), idx, one_key),
    st.tuples(st.just('setdefault'), idx, part, spec),
    st.tuples(st.just('copy'), idx),
    st.tuples(st.just('ctor'), idx),
    st.tuples(st.just('or'), idx, idx),
    st.tuples(st.just('ord'), idx, top),
    st.tuples(st.just('ior'), idx, idx),
    st.tuples(st.just('iord'), idx, top),
    st.tuples(st.just('update'), idx, idx),
    st.tuples(st.just('updated'), idx, top),
    st.tuples(st.just('clear'), idx),
    st.tuples(st.just('eq'), idx, idx),
    st.tuples(st.just('dict'), idx),
)


@ck.test(examples=2400, shards=3, init=st.lists(top, min_size=1, max_size=3), ops=sized_lists(op, 1, 25))
def history(init, ops):
    pool = []
    for t in init:
        r, m = {}, {}
        for k, x in t.items():
            r[k], m[k] = build(x)
        d = DataDict(r)
        r.clear()                       # the constructor copies the items
        pool.append((d, m))
    same(DataDict(), {})
    deep = changed = False
    ck.label(f'ops {len(ops)//5*5}+')

    def add(r, m):
        if len(pool) < 4:
            pool.append((r, m))
        else:
            pool[0] = (r, m)

    for o in ops:
        r, m = pool[o[1] % len(pool)]
        n = o[0]
        if n == 'sett':
            o = o[:2] + ([(lit(k, m), s) for k, s in o[2]],) + o[3:]
        elif n in ('get', 'set', 'del', 'in', 'getd', 'pop', 'popd'):
            o = o[:2] + (lit(o[2], m),) + o[3:]
        if n == 'get':
            ok, a, b = both(lambda: r[o[2]], lambda: m_get(m, o[2]), o)
            if ok:
                same(a, b)
                ks = o[2] if isinstance(o[2], tuple) else (o[2],)
                if len(ks) > 1 or any('/' in k.strip('/') for k in ks if isinstance(k, str)):
                    deep = True
                    ck.label('deep get')
        elif n == 'set':
            a, b = build(o[3])
            ok, _, _ = both(lambda: r.__setitem__(o[2], a), lambda: m_set(m, o[2], b), o)
            changed |= ok
            assert not ok or r[o[2]] is a, 'what is stored is what was given'
            if ok and '/' in o[2].strip('/'):
                ck.label('deep set')
        elif n == 'sett':
            keys = tuple(k for k, _ in o[2])
            vals = [build(s) for _, s in o[2]]
            a, b = [v[0] for v in vals], [v[1] for v in vals]
            if o[3] == -1 and a:
                a, b = a[:-1], b[:-1]
            elif o[3] == 1:
                a, b = a + [7], b + [7]
            a = tuple(a) if o[4] == 'tuple' else a

            def fm():
                if len(keys) != len(b):
                    raise Miss('length')
                for k, v in zip(keys, b):
                    m_set(m, k, v)
            ok, _, _ = both(lambda: r.__setitem__(keys, a), fm, o)
            changed |= ok and len(keys) > 0
            assert not ok or not keys or r[keys[-1]] is a[-1], 'what is stored is what was given'
        elif n == 'del':
            def fm():
                for k in (o[2] if isinstance(o[2], tuple) else (o[2],)):
                    m_del(m, k)
            ok, _, _ = both(lambda: r.__delitem__(o[2]), fm, o)
            changed |= ok
            if ok and '/' in str(o[2]).strip('/'):
                ck.label('deep del')
        elif n == 'in':
            assert (o[2] in r) is (o[2] in m), o
        elif n == 'getd':
            try:
                walk(o[2])
                b, mark = m_get(m, o[2]), None
            except KeyError:
                b, mark = None, object()
            except Miss:
                continue
            a = r.get(o[2], mark)
            if mark is None:
                same(a, b)
            else:
                assert a is mark, o
        elif n in ('pop', 'popd'):
            def fm():
                p, k = m_parent(m, o[2])
                return p.pop(k)
            mark = object()
            if n == 'pop':
                ok, a, b = both(lambda: r.pop(o[2]), fm, o)
            else:
                def fm2():
                    try:
                        return fm()
                    except KeyError:
                        return mark
                ok, a, b = both(lambda: r.pop(o[2], mark), fm2, o)
                if ok and b is mark:
                    assert a is mark
                    ok = False
            if ok:
                same(a, b)
                changed = True
        elif n == 'setdefault':
            a, b = build(o[3])
            same(r.setdefault(o[2], a), m.setdefault(o[2], b))
        elif n in ('copy', 'ctor'):
            c = r.copy() if n == 'copy' else DataDict(r)
            assert type(c) is DataDict and c is not r
            add(c, dict(m))
        elif n in ('or', 'ord', 'ior', 'iord', 'update', 'updated'):
            if n in ('or', 'ior', 'update'):
                r2, m2 = pool[o[2] % len(pool)]
            else:
                r2, m2 = build(('d', o[2]))
            if n.startswith('or'):
                c = r | r2
                assert type(c) is DataDict and c is not r and c is not r2
                add(c, {**m, **m2})
            elif n.startswith('ior'):
                keep = r
                r |= r2
                assert r is keep, 'in-place union must return the dictionary itself'
                m.update(m2)
                changed = True
            else:
                assert r.update(r2) is None
                m.update(m2)
                changed = True
        elif n == 'clear':
            r.clear()
            m.clear()
        elif n == 'eq':
            r2, m2 = pool[o[2] % len(pool)]
            assert (r == r2) is (m == m2), 'equality'
        elif n == 'dict':
            c = r.get_dict()
            same(c, m, top=False)
        for a, b in pool:
            same(a, b)
    return deep and changed


@ck.test(examples=120, depth=st.integers(5, 60), width=st.integers(1, 300), s=bits64)
def large(depth, width, s):
    """Deep paths and many keys."""
    g = rng_of(s)
    names = [f'n{int(v)}' for v in g.integers(0, 9, depth)]
    ref = 7
    for v in reversed(names):
        ref = {v: ref}
    d, e = DataDict(copy.deepcopy(ref)), DataDict(ref)
    assert d == ref and d['/'.join(names)] == 7
    d['/'.join(names)] = 8
    assert d['/'.join(names)] == 8 and e['/'.join(names)] == 7
    d['/'.join(names)] = 7
    assert e['/' + '//'.join(names) + '/'] == 7
    node = e
    for v in names[:-1]:
        node = node[v]
    for i in range(width):
        d['/'.join(names[:-1] + [f'w{i}'])] = i
        node[f'w{i}'] = i
    assert d == e
    par = d['/'.join(names[:-1])]
    assert list(par) == [names[-1]] + [f'w{i}' for i in range(width)]
    got = d[tuple('/'.join(names[:-1] + [f'w{i}']) for i in range(width))]
    assert list(got) == list(range(width))
    return True
