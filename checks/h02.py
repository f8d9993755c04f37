"""H02: conflict modes over histories, against a model of the file."""
import copy
from lib.h5gen import *
from pyhipp.io import h5
from pyhipp.core import DataDict

ck = Check('H02', 'Histories of up to 18 operations (create group/dataset/attribute/link, empty creation, dump, in-place update, delete, '
           'close and reopen in any mode, static dump into the closed file) over a small name set, in the three conflict modes and invalid ones, run on a real file and on '
           'a tree model; after every operation the complete file is read with h5py and compared. Non-trivial: a history with a '
           'refused conflict and a successful in-place update or reuse.',
           assumptions=['a multi-item dump is documented as not atomic: items before the conflicting one may be written'])

nm = st.sampled_from(['a', 'b', 'c'])
path = st.lists(nm, max_size=2)                       # a group path; resolved to the deepest existing group
flag = st.sampled_from(['x', 'x', 'x', 'ac', 'ac', 'ca', None])
# small integer-valued data, two dtypes and few shapes, so that updates often fit
dat = st.tuples(st.sampled_from(['i8', 'f8']), st.sampled_from([(), (3,), (2, 2), (), (3,), (2, 2), (1,), (2,), (5,), (0,), (1, 3), (3, 1), (2, 1, 2), (1, 2, 2, 1)]), st.integers(0, 9))
dat1 = st.tuples(st.sampled_from(['i8', 'f8']), st.sampled_from([(), (1,), (1, 1)]), st.integers(0, 9))     # a single value, in several shapes
tree = st.dictionaries(nm, pick((2, dat), st.dictionaries(nm, pick((2, dat), st.dictionaries(nm, dat, max_size=2)), max_size=3)), max_size=3)
op = pick(
    (3, st.tuples(st.just('group'), path, nm, flag)),
    (4, st.tuples(st.just('dset'), path, nm, dat, flag)),
    st.tuples(st.just('empty'), path, nm, dat, flag),
    (2, st.tuples(st.just('set'), path, nm, dat)),
    (2, st.tuples(st.just('slice'), path, nm, st.integers(0, 9))),
    (3, st.tuples(st.just('attr'), path, nm, nm, dat, flag)),
    st.tuples(st.just('aempty'), path, nm, nm, dat, flag),
    st.tuples(st.just('aset'), path, nm, nm, dat),
    st.tuples(st.just('adump'), path, nm, st.dictionaries(nm, dat, max_size=3), flag),
    st.tuples(st.just('adump'), path, nm, st.dictionaries(nm, dat1, min_size=1, max_size=1), flag),
    st.tuples(st.just('attr'), path, nm, nm, dat1, flag),
    (2, st.tuples(st.just('link'), path, nm, path, nm, flag)),
    (2, st.tuples(st.just('del'), path, nm)),
    (3, st.tuples(st.just('dump'), path, tree, flag)),
    (2, st.tuples(st.just('dumpd'), path, st.dictionaries(nm, dat, max_size=3), flag)),
    st.tuples(st.just('badflag'), path, nm, st.sampled_from(['group', 'dset', 'empty', 'attr', 'aempty', 'link', 'ext', 'open']), st.sampled_from(['w', 'r', 'a', '', 'X', 'xx'])),
    (2, st.tuples(st.just('reopen'), st.sampled_from(['r', 'a', 'ac', 'ca', 'x', 'w', 'a', 'ac']))),
    (3, st.tuples(st.just('dump_to'), st.lists(nm, max_size=3), st.booleans(), tree, dat, flag, flag,
                  st.sampled_from(['a', 'ac', 'ac', None, 'r', 'x', 'w']), st.sampled_from([None, True, False]))),
)


def arr(d):
    return (np.arange(int(np.prod(d[1]))) + d[2]).reshape(d[1]).astype(d[0])


class Refuse(Exception):
    pass


def G():
    return dict(k='g', c={}, a={})


def D(v):
    return dict(k='d', v=np.array(v), a={})


def m_group(g, name, fl):
    if name in g['c']:
        if fl == 'x' or g['c'][name]['k'] != 'g':
            raise Refuse
        return g['c'][name]
    g['c'][name] = G()
    return g['c'][name]


def m_update(dst, v):
    """values replaced in place, dtype and shape kept"""
    try:
        dst[...] = v               # (the same broadcasting as an array; anything else must be refused)
    except ValueError:
        raise Refuse


def m_dset(g, name, v, fl):
    if name in g['c']:
        n = g['c'][name]
        if fl == 'x' or n['k'] != 'd':
            raise Refuse
        m_update(n['v'], v)
        return n
    g['c'][name] = D(v)
    return g['c'][name]


def m_attr(n, name, v, fl):
    if name in n['a']:
        old = n['a'][name]
        if fl == 'x':
            raise Refuse
        v = np.asarray(v)
        if v.shape != old.shape and not (v.size == 1 and old.size == 1):
            raise Refuse
        old[...] = v.reshape(old.shape)
    else:
        n['a'][name] = np.array(v)


def m_dump(g, t, fl):
    for k, v in t.items():
        if isinstance(v, dict):
            m_dump(m_group(g, k, fl), v, fl)
        else:
            m_dset(g, k, arr(v), fl)


def real_tree(t):
    return {k: real_tree(v) if isinstance(v, dict) else arr(v) for k, v in t.items()}


def read(g):
    """The complete content of an h5py group as a model."""
    out = G()
    out['a'] = {k: np.asarray(v) for k, v in g.attrs.items()}
    for k in g.keys():
        ln = g.get(k, getlink=True)
        if isinstance(ln, h5py.SoftLink):
            out['c'][k] = dict(k='s', p=ln.path)
        elif isinstance(ln, h5py.ExternalLink):
            out['c'][k] = dict(k='e', p=ln.path)
        else:
            v = g[k]
            if isinstance(v, h5py.Group):
                out['c'][k] = read(v)
            else:
                out['c'][k] = dict(k='d', v=np.asarray(v[()]), a={a: np.asarray(b) for a, b in v.attrs.items()})
    return out


def same(r, m, tag):
    assert r['k'] == m['k'], f'{tag}: kind {r["k"]} != {m["k"]}'
    if m['k'] in 'se':
        assert r['p'] == m['p'], f'{tag}: link'
        return
    assert sorted(r['a']) == sorted(m['a']), f'{tag}: attributes {sorted(r["a"])} != {sorted(m["a"])}'
    for k in m['a']:
        eq_arr(r['a'][k], m['a'][k], f'{tag}@{k}', dtype=True)
    if m['k'] == 'd':
        eq_arr(r['v'], m['v'], tag, dtype=True)
        return
    assert sorted(r['c']) == sorted(m['c']), f'{tag}: names {sorted(r["c"])} != {sorted(m["c"])}'
    for k in m['c']:
        same(r['c'][k], m['c'][k], f'{tag}/{k}')


@ck.test(examples=1500, shards=3, ops=sized_lists(op, 1, 18))
def history(ops):
    refused = reused = False
    with scratch() as dd:
        fn = f'{dd}/f.hdf5'
        raises((OSError, FileNotFoundError), h5.File, fn, 'r')
        raises((OSError, FileNotFoundError), h5.File, fn, 'a')
        f = h5.File(fn, 'x')
        mode = 'x'
        m = G()

        def resolve(p):
            g, n, used = f, m, []
            for k in p:
                if k in n['c'] and n['c'][k]['k'] == 'g':
                    n = n['c'][k]
                    used.append(k)
            return (f['/'.join(used)] if used else f), n, used
        try:
            for o in ops:
                w = o[0]
                ro = mode == 'r'
                act = mod = None           # the real operation and its model counterpart
                kw = lambda fl: {} if fl is None else dict(flag=fl)  # noqa
                eff = lambda fl: 'x' if fl is None else fl  # noqa
                if w == 'reopen':
                    f.close()
                    if o[1] == 'x':
                        raises((OSError, FileExistsError), h5.File, fn, 'x')
                        f = h5.File(fn, 'ac')
                        mode = 'ac'
                    else:
                        f = h5.File(fn, o[1]) if o[1] != 'r' or len(ops) % 2 else h5.File(fn)
                        mode = o[1]
                        if mode == 'w':
                            m = G()
                elif w == 'badflag':
                    g, n, _ = resolve(o[1])
                    k, fl = o[2], o[4]
                    if o[3] == 'open':
                        if fl not in ('r', 'a', 'x', 'ac', 'ca', 'w'):
                            raises(ValueError, h5.File, f'{dd}/other.hdf5', fl)
                    else:
                        call = {'group': lambda: g.create_group(k, flag=fl), 'dset': lambda: g.datasets.create(k, 1, flag=fl),
                                'empty': lambda: g.datasets.create_empty(k, (2,), 'f8', flag=fl), 'attr': lambda: g.attrs.create(k, 1, flag=fl),
                                'aempty': lambda: g.attrs.create_empty(k, (2,), 'f8', flag=fl), 'link': lambda: g.create_soft_link(k, '/', flag=fl),
                                'ext': lambda: g.create_external_link(k, 'nofile', '/', flag=fl)}[o[3]]
                        raises(ValueError, call, msg='invalid flag')
                elif w == 'group':
                    g, n, _ = resolve(o[1])
                    if _is_link(n, o[2]):
                        continue
                    had = o[2] in n['c']

                    def act():
                        r = g.create_group(o[2], **kw(o[3]))
                        assert isinstance(r, h5.Group)
                        assert sorted(r.keys()) == sorted(n['c'][o[2]]['c']) if had else len(r) == 0

                    def mod():
                        m_group(n, o[2], eff(o[3]))
                elif w in ('dset', 'empty'):
                    g, n, _ = resolve(o[1])
                    if _is_link(n, o[2]):
                        continue
                    had = o[2] in n['c']
                    exists = had
                    v = arr(o[3])
                    if w == 'dset':
                        def act():
                            r = g.datasets.create(o[2], v, **kw(o[4]))
                            assert isinstance(r, h5.Dataset)

                        def mod():
                            m_dset(n, o[2], v, eff(o[4]))
                    else:
                        def act():
                            r = g.datasets.create_empty(o[2], o[3][1], o[3][0], **kw(o[4]))
                            assert isinstance(r, h5.Dataset)
                            assert exists or (r.shape == o[3][1] and r.dtype == np.dtype(o[3][0]))
                            if not exists and v.size:     # (HDF5 leaves the contents undefined)
                                r[...] = 0

                        def mod():
                            if exists:
                                if eff(o[4]) == 'x' or n['c'][o[2]]['k'] != 'd':
                                    raise Refuse
                            else:
                                n['c'][o[2]] = D(np.zeros(o[3][1], o[3][0]))
                    had = had and eff(o[4]) != 'x'
                elif w in ('set', 'slice'):
                    g, n, _ = resolve(o[1])
                    if _is_link(n, o[2]):
                        continue
                    had = True
                    if w == 'set':
                        def act():
                            g.datasets[o[2]] = arr(o[3])

                        def mod():
                            if o[2] not in n['c'] or n['c'][o[2]]['k'] != 'd':
                                raise Refuse
                            m_update(n['c'][o[2]]['v'], arr(o[3]))
                    else:
                        c = n['c'].get(o[2])
                        if c is None or c['k'] != 'd' or c['v'].ndim == 0:
                            continue

                        def act():
                            g[o[2]][1:] = o[3]

                        def mod():
                            c['v'][1:] = o[3]
                elif w in ('attr', 'aempty', 'aset', 'adump'):
                    g, n, _ = resolve(o[1])
                    c = n['c'].get(o[2])
                    if c is not None and c['k'] in 'gd':     # attribute of a child, else of the group itself
                        g, n = g[o[2]], c
                    A = g.attrs
                    if w == 'attr':
                        had = o[3] in n['a'] and eff(o[5]) != 'x'

                        def act():
                            A.create(o[3], arr(o[4]), **kw(o[5]))

                        def mod():
                            m_attr(n, o[3], arr(o[4]), eff(o[5]))
                    elif w == 'aempty':
                        had = o[3] in n['a']
                        if not had:
                            # content of an empty attribute is unspecified until it is set
                            def act():
                                A.create_empty(o[3], o[4][1], o[4][0], **kw(o[5]))
                                v = A[o[3]]
                                assert np.shape(v) == o[4][1] and np.asarray(v).dtype == np.dtype(o[4][0])
                                A[o[3]] = arr(o[4])

                            def mod():
                                n['a'][o[3]] = arr(o[4])
                        else:
                            def act():
                                A.create_empty(o[3], o[4][1], o[4][0], **kw(o[5]))

                            def mod():
                                if eff(o[5]) == 'x':
                                    raise Refuse
                    elif w == 'aset':
                        had = True

                        def act():
                            A[o[3]] = arr(o[4])

                        def mod():
                            if o[3] not in n['a']:
                                raise Refuse
                            m_attr(n, o[3], arr(o[4]), 'ac')
                    else:
                        had = any(k in n['a'] for k in o[3])

                        def act():
                            A.dump({k: arr(v) for k, v in o[3].items()}, **kw(o[4]))

                        def mod():
                            for k, v in o[3].items():
                                m_attr(n, k, arr(v), eff(o[4]))
                elif w == 'link':
                    g, n, _ = resolve(o[1])
                    tg, tn, used = resolve(o[3])
                    if o[4] not in tn['c'] or tn['c'][o[4]]['k'] not in 'gd':
                        continue
                    tgt = '/' + '/'.join(used + [o[4]])
                    if o[2] in n['c'] and n['c'][o[2]]['k'] == 's' and not _live(m, n['c'][o[2]]['p']):
                        continue        # dangling: outside the property
                    had = o[2] in n['c']

                    def act():
                        g.create_soft_link(o[2], tgt, **kw(o[5]))

                    def mod():
                        if o[2] in n['c']:
                            if eff(o[5]) == 'x':
                                raise Refuse
                        else:
                            n['c'][o[2]] = dict(k='s', p=tgt)
                elif w == 'del':
                    g, n, _ = resolve(o[1])
                    had = False

                    def act():
                        del g[o[2]]

                    def mod():
                        if o[2] not in n['c']:
                            raise Refuse
                        del n['c'][o[2]]
                elif w in ('dump', 'dumpd'):
                    g, n, _ = resolve(o[1])
                    if _has_link(n):
                        continue
                    had = any(k in n['c'] for k in o[2])

                    def act():
                        (g if w == 'dump' else g.datasets).dump(real_tree(o[2]), **kw(o[3]))

                    def mod():
                        m_dump(n, o[2], eff(o[3]))
                elif w == 'dump_to':
                    _, key, isdict, t, d, gf, df, ff, cp = o
                    if _has_link(m):
                        continue
                    f.close()
                    args = {}
                    if key or not isdict:
                        args['key'] = '/'.join(key or ['a'])
                        key = key or ['a']
                    if gf:
                        args['g_flag'] = gf
                    if df:
                        args['dump_flag'] = df
                    if ff:
                        args['f_flag'] = ff
                    if cp is not None:
                        args['create_parent'] = cp
                    had = bool(m['c'])
                    mode = ff or 'ac'
                    ro = mode == 'r'
                    if mode == 'x':
                        raises((OSError, FileExistsError), h5.File.dump_to, fn, real_tree(t), f_flag='x')
                    else:
                        if mode == 'w':
                            m = G()

                        def act():
                            h5.File.dump_to(fn, real_tree(t) if isdict else arr(d), **args)

                        def mod():
                            n = m
                            for k in key[:-1]:
                                if cp is False:
                                    if k not in n['c'] or n['c'][k]['k'] != 'g':
                                        raise Refuse
                                    n = n['c'][k]
                                else:
                                    n = m_group(n, k, 'ac')
                            if isdict:
                                if key:
                                    n = m_group(n, key[-1], eff(gf))
                                m_dump(n, t, eff(df))
                            else:
                                m_dset(n, key[-1], arr(d), eff(df))
                if act is not None:
                    # names that are links are not operated on (H03 covers access through links)
                    before = copy.deepcopy(m)
                    try:
                        mod()
                        ok = True
                    except Refuse:
                        ok = False
                    changed_nothing = True
                    try:
                        same(m, before, '')
                    except AssertionError:
                        changed_nothing = False
                    try:
                        act()
                        real_ok = True
                    except AssertionError:
                        raise
                    except Exception as e:
                        real_ok, err = False, e
                    if ro:
                        # nothing may change; creation must fail (reuse of what exists may succeed)
                        _restore(m, before)
                        assert not real_ok or changed_nothing, f'{o}: succeeded in read mode'
                    else:
                        if not real_ok and ok:
                            raise AssertionError(f'{o}: failed with {err!r}')
                        assert real_ok or not ok
                        assert ok or not real_ok, f'{o}: succeeded but must be refused'
                        if not ok:
                            refused = True
                        elif had:
                            reused = True
                            ck.label('reuse/update')
                    if w == 'dump_to':
                        f = h5.File(fn, 'ac')
                        mode = 'ac'
                elif w == 'dump_to':
                    f = h5.File(fn, 'ac')
                    mode = 'ac'
                if mode == 'r' and act is not None:
                    # the file counts: the HDF5 library refuses to write an attribute of a read-only file, but keeps the value in its cache
                    f.close()
                    f = h5.File(fn, 'r')
                same(read(f._raw), m, f'after {o}')
            f.close()
            with h5py.File(fn, 'r') as r:
                same(read(r), m, 'final content')
        finally:
            f.close()
    return refused and reused


def _live(m, p):
    """Does the absolute path lead to an object, without a further link?"""
    for k in p.strip('/').split('/'):
        if k not in m.get('c', {}) or m['c'][k]['k'] not in 'gd':
            return False
        m = m['c'][k]
    return True


def _is_link(n, k):
    return k in n['c'] and n['c'][k]['k'] == 's'


def _restore(m, b):
    m.clear()
    m.update(b)


def _has_link(n):
    return n['k'] == 's' or any(_has_link(c) for c in n.get('c', {}).values())


@ck.test(examples=80, n=big_sizes, s=bits64, dt=st.sampled_from(['f8', 'i8', 'u1', 'f4']), zero=st.booleans())
def large_overwrite(n, s, dt, zero):
    """All values of a long data set are replaced, also by zeros; refused where overwriting is not asked for."""
    g = rng_of(s)
    a = g.integers(1, 200, n).astype(dt)
    b = np.zeros(n, dt) if zero else g.integers(0, 2, n).astype(dt)
    with scratch() as d:
        with h5.File(f'{d}/f', 'w') as f:
            f.datasets.create('a', a)
            raises(Exception, f.datasets.create, 'a', b)
            eq_arr(f.datasets['a'], a, 'after the refusal')
            f.datasets.create('a', b, flag='ac')
            eq_arr(f.datasets['a'], b, 'replaced')
            f.attrs.create('t', a[:500])
            f.attrs.create('t', b[:500], flag='ac')
            eq_arr(f.attrs['t'], b[:500], 'replaced attribute')
    return True
