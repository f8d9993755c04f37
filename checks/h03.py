"""H03: attributes, datasets and links."""
import re
from lib.h5gen import *
from pyhipp.io import h5

ck = Check('H03', 'Attribute sets (text, bytes, scalars, arrays of 16 dtypes, empty arrays) on files, groups and datasets; datasets written by '
           'slices; soft links (absolute and relative) and external links (absolute and relative file names) to groups and datasets. '
           'Non-trivial: several attributes of different kinds, a partial write, or a link followed after the target changed.',
           assumptions=['attribute text reads back as str, dataset text as UTF-8 bytes, as h5py documents'])

attr_spec = pick((3, leaf_spec), st.tuples(st.just('list'), st.lists(st.integers(-9, 9), min_size=1, max_size=4)),
                 st.tuples(st.just('strlist'), st.lists(txt, min_size=1, max_size=3)))


def aval(s):
    return list(s[1]) if s[0] in ('list', 'strlist') else value(s)


def same_attr(got, s, tag):
    if s[0] == 'str':
        assert isinstance(got, str) and got == s[1], f'{tag}: {got!r} != {s[1]!r}'
    elif s[0] == 'strlist':
        assert [x if isinstance(x, str) else x.decode() for x in np.asarray(got).tolist()] == s[1], f'{tag}: {got!r}'
    elif s[0] == 'bytes':
        assert (got.encode() if isinstance(got, str) else bytes(got)) == s[1], f'{tag}: {got!r} != {s[1]!r}'
    elif s[0] == 'list':
        eq_arr(got, np.array(s[1]), tag, dtype=True)
    else:
        same_val(got, np.asarray(value(s))[()], tag)


@ck.test(examples=700, on=st.sampled_from(['file', 'group', 'dataset', 'subgroup']), attrs=st.dictionaries(hname, attr_spec, max_size=5),
         how=st.sampled_from(['create', 'dump']), pat=st.sampled_from([None, 'a', '.*s', '[a-c]$', 'zzz', '']), pick_=bits64)
def attributes(on, attrs, how, pat, pick_):
    attrs = {k: s for k, s in attrs.items() if not (s[0] == 'bytes' and b'\0' in s[1])}

    def node(f):
        return {'file': f, 'group': f['g'] if 'g' in f else None, 'subgroup': f['g/s'] if 'g/s' in f else None,
                'dataset': f['g/d'] if 'g/d' in f else None}[on]
    with scratch() as d:
        p = f'{d}/f.hdf5'
        with h5.File(p, 'x') as f:
            g = f.create_group('g')
            g.create_group('s')
            g.datasets.create('d', np.arange(3))
            A = node(f).attrs
            assert len(A) == 0 and list(A.keys()) == [] and A.what() == ''
            if how == 'dump':
                A.dump({k: aval(s) for k, s in attrs.items()})
            else:
                for k, s in attrs.items():
                    A.create(k, aval(s))
        with h5py.File(p, 'r') as f:
            raw = {'file': f, 'group': f['g'], 'subgroup': f['g/s'], 'dataset': f['g/d']}
            for k, o in raw.items():
                if k != on:
                    assert len(o.attrs) == 0, f'attributes leaked to {k}'
            assert sorted(raw[on].attrs) == sorted(attrs)
            for k, s in attrs.items():
                same_attr(raw[on].attrs[k], s, f'h5py {k}')
            eq_arr(f['g/d'][()], np.arange(3))
        with h5.File(p) as f:
            A = node(f).attrs
            assert len(A) == len(attrs) and sorted(A.keys()) == sorted(attrs)
            for k, s in attrs.items():
                same_attr(A[k], s, k)
                assert k in A
            assert 'not there' not in A
            raises(KeyError, lambda: A['not there'])
            its = dict(A.items())
            assert sorted(its) == sorted(attrs)
            for k, s in attrs.items():
                same_attr(its[k], s, 'items')
            vs = list(A.values())
            assert len(vs) == len(attrs)
            for k, v in zip(A.keys(), vs):
                same_attr(v, attrs[k], 'values')
            names = sorted(attrs)
            sub = [names[(pick_ >> (4 * i)) % len(names)] for i in range(pick_ % 4)] if names else []
            out = A[tuple(sub)]
            assert isinstance(out, tuple) and len(out) == len(sub)
            for k, v in zip(sub, out):
                same_attr(v, attrs[k], 'tuple')
            want = [k for k in names if pat is None or re.match(pat, k)]
            ld = A.load(key_re=pat)
            assert sorted(ld.keys()) == want
            for k in want:
                same_attr(ld.get_dict()[k], attrs[k], 'load')
            assert sorted(A.load(keys=sub, key_re=pat).keys()) == sorted(set(sub) & set(want))
            if 'a' in attrs:
                same_attr(A.a, attrs['a'], 'attribute access')
            else:
                raises(AttributeError, lambda: A.a)
            w = A.what()
            assert all(f'{k}=' in w for k in attrs)
            assert all(f'{k}=' in node(f).what() for k in attrs)
    return len({s[0] for s in attrs.values()}) > 1


num = st.tuples(st.sampled_from(['f8', 'f4', 'i8', 'i2']), st.sampled_from([(), (3,), (2, 2)]), st.integers(0, 9))


def arr(s):
    return (np.arange(int(np.prod(s[1]))) + s[2]).reshape(s[1]).astype(s[0])


@ck.test(examples=500, a=num, b=num, how=st.sampled_from(['set', 'create']))
def attr_update(a, b, how):
    """Updating an attribute keeps its dtype; an update that does not fit leaves it as it was."""
    with scratch() as d:
        with h5.File(f'{d}/f.hdf5', 'x') as f:
            A = f.attrs
            raises(KeyError, A.__setitem__, 'k', 1)
            assert 'k' not in A
            A.create('k', arr(a))
            A.create('other', 'text')
            fits = a[1] == b[1]
            f_ = (lambda: A.__setitem__('k', arr(b))) if how == 'set' else (lambda: A.create('k', arr(b), flag='ac'))
            if fits:
                f_()
                eq_arr(A['k'], arr(b).astype(a[0]), 'updated', dtype=True)
            else:
                raises(Exception, f_)
                eq_arr(A['k'], arr(a), 'unchanged', dtype=True)
            assert A['other'] == 'text' and len(A) == 2
    return a[0] != b[0]


sl = st.tuples(st.integers(0, 6), st.integers(0, 6), st.sampled_from([1, 1, 2]))


@ck.test(examples=500, shape=st.sampled_from([(6,), (4, 3), (3, 2, 2), (0,), ()]), dt=st.sampled_from(['f8', 'i4', '?', 'S3']), empty=st.booleans(),
         writes=sized_lists(st.tuples(sl, st.integers(0, 50), st.booleans()), 0, 5))
def datasets(shape, dt, empty, writes):
    """create / create_empty give a dataset of the given shape and dtype that reads and writes by slices."""
    def vals(shape, s):
        n = int(np.prod(shape))
        v = (np.arange(n) * 3 + s) % 11
        return (np.array([b'xyz'[:x % 4] for x in v], dtype='S3') if dt == 'S3' else v.astype(dt)).reshape(shape)
    with scratch() as d:
        p = f'{d}/f.hdf5'
        with h5.File(p, 'w') as f:
            g = f.create_group('g')
            model = vals(shape, 1)
            if empty:
                ds = g.datasets.create_empty('d', shape, dt)
                model = np.zeros(shape, dt)
                eq_arr(ds[()], model, 'fresh empty dataset')
            else:
                ds = g.datasets.create('d', model)
            assert isinstance(ds, h5.Dataset) and ds.shape == shape and ds.dtype == np.dtype(dt) and ds.ndim == len(shape)
            model = model.copy()
            part = False
            for (a, b, c), s, whole in writes:
                if whole or not shape:
                    v = vals(shape, s)
                    g.datasets['d'] = v
                    model[...] = v
                else:
                    tgt = model[a:b:c]
                    v = vals(tgt.shape, s)
                    if tgt.size:
                        ds[a:b:c] = v
                        tgt[...] = v
                        part = True
                same_val(ds[()], model[()], 'after write')
            g.datasets.create('e', 7)
            for ks in (('d', 'd'), ('e', 'd', 'e'), ('e',), ()):
                got = g.datasets[ks]
                assert type(got) is tuple and len(got) == len(ks), f'{len(got)} items for {ks}'
                for k, v in zip(ks, got):
                    same_val(v, model[()] if k == 'd' else 7, f'item {k} of {ks}')
            raises(KeyError, lambda: g.datasets['d', 'none'])
            raises(KeyError, g.datasets.__setitem__, 'none', 1)
            raises(KeyError, f.datasets.__setitem__, 'g', 1)
        same_val(h5.File.load_from(p, 'g/d'), model[()], 'reloaded')
    return part


@ck.test(examples=600, kind=st.sampled_from(['soft_abs', 'soft_rel', 'soft_sib', 'ext_abs', 'ext_rel', 'ext_sub', 'ext_up']), target=st.sampled_from(['group', 'dataset', 'sub']),
         spec=map2, change=st.booleans(), flag=st.sampled_from([None, 'x', 'ac', 'ca']), dele=st.booleans(), early=st.booleans())
def links(kind, target, spec, change, flag, dele, early):
    data, ref = build(spec), expect(spec)
    kw = {} if flag is None else dict(flag=flag)
    with scratch() as d:
        p, q = f'{d}/f.hdf5', f'{d}/other.hdf5'
        os.makedirs(f'{d}/sub')
        if kind == 'ext_sub':
            q = f'{d}/sub/other.hdf5'
        elif kind == 'ext_up':
            p = f'{d}/sub/f.hdf5'
        ext = kind.startswith('ext')
        src = q if ext else p
        top = '/links/' if kind == 'soft_sib' else '/'

        def mk_target():
            h5.File.dump_to(src, {'t': data, 'v': np.arange(4), 'w': {'s': {'y': 7}}}, key=top, g_flag='ac')
        if not early:
            mk_target()
        tp = {'group': 't', 'dataset': 'v', 'sub': 'w/s'}[target]
        want = {'group': ref, 'dataset': np.arange(4), 'sub': {'y': np.int64(7)}}[target]
        with h5.File(p, 'ac') as f:
            g = f.create_group('links', flag='ac')
            if kind == 'soft_sib':          # relative to the group that holds the link
                g.create_soft_link('l', tp, **kw)
            elif kind == 'ext_sub':         # file names are relative to the linking file
                g.create_external_link('l', 'sub/other.hdf5', '/' + tp, **kw)
            elif kind == 'ext_up':
                g.create_external_link('l', '../other.hdf5', '/' + tp, **kw)
            elif kind == 'soft_abs':
                g.create_soft_link('l', '/' + tp, **kw)
            elif kind == 'soft_rel':
                f.create_soft_link('l0', tp, **kw)
                g.create_soft_link('l', '/l0', **kw)
            elif kind == 'ext_abs':
                g.create_external_link('l', q, '/' + tp, **kw)
            else:
                g.create_external_link('l', 'other.hdf5', '/' + tp, **kw)
            assert 'l' in list(g.keys())
        if early:           # the target appears after the link
            mk_target()
            ck.label('link before target')
        tp = top[1:] + tp
        with h5.File(p, 'a') as f:
            g = f['links']
            assert 'l' in g and 'l' in list(g.keys())
            # a second one on the taken name
            mk = (lambda **k: g.create_external_link('l', 'nowhere.hdf5', **k)) if ext else (lambda **k: g.create_soft_link('l', '/nowhere', **k))
            raises(ValueError, mk)
            mk(flag='ac')
        if change:
            with h5.File(src, 'a') as f:
                if target == 'dataset':
                    f.datasets[tp] = np.arange(4) * 10
                    want = np.arange(4) * 10
                else:
                    f[tp].datasets.create('zz_new', 5)
                    want = {**want, 'zz_new': np.int64(5)}
        got = h5.File.load_from(p, 'links/l')
        same_tree(got, want, kind) if isinstance(want, dict) else same_val(got, want, kind)
        if kind != 'soft_sib':
            same_tree(h5.File.load_from(p, 'links'), {'l': want}, 'group of links')
        with h5.File(p) as f:
            o = f['links/l']
            assert isinstance(o, h5.Group if isinstance(want, dict) else h5.Dataset)
            assert ('l' in f['links'].datasets) is not isinstance(want, dict)
            del o
        if ext and target == 'group':
            with h5.File(p, 'a') as f:
                f['links'].create_external_link('root', q)
                assert sorted(f['links/root'].keys()) == ['t', 'v', 'w']
        if not ext:      # writing through the link
            with h5.File(p, 'a') as f:
                if target == 'dataset':
                    f['links'].datasets['l'] = np.full(4, 3)
                    eq_arr(f[tp][()], np.full(4, 3), 'write through a link')
                else:
                    f['links/l'].datasets.create('via', 1)
                    assert 'via' in f[tp]
        if dele:
            with h5.File(p, 'a') as f:
                del f['links']['l']
                assert 'l' not in f['links']
            assert tp.split('/')[0] in h5.File.load_from(src), 'deleting a link removed its target'
    return change
