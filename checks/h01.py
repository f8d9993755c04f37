"""H01: dump / load round trips."""
import io
import re
from lib.h5gen import *
from pyhipp.io import h5
from pyhipp.core import DataDict

ck = Check('H01', 'Mappings nested up to 3 levels, names from a small set plus arbitrary Unicode, values: Python and NumPy scalars, text, bytes '
           'and arrays of 16 dtypes and 8 shapes in three memory layouts; written whole, below a key or piecewise, and read back through the package '
           'and through h5py. Non-trivial: at least one nested group and one non-scalar array.',
           assumptions=['text datasets read back as their UTF-8 bytes (documented return type)', 'names contain no "/" or NUL'])


def rich(ref):
    its = list(walk(ref))
    return any(isinstance(v, dict) and v for _, v in its) and any(isinstance(v, np.ndarray) and v.ndim for _, v in its)


key_style = st.sampled_from(['{}', '/{}', '{}/', '/{}/', '{}//'])


@ck.test(examples=900, shards=2, spec=map3, how=st.sampled_from(['dump_to', 'File', 'group', 'dump_to_key', 'dump_to_key', 'piecewise', 'items']),
         key=sized_lists(hname, 1, 5), style=key_style, sep=st.sampled_from(['/', '/', '//']), parent=st.sampled_from([None, True, False, False]),
         n_have=st.integers(0, 5), pick_=bits64)
def roundtrip(spec, how, key, style, sep, parent, n_have, pick_):
    data = build(spec)
    ref = expect(spec)
    base = ()
    with scratch() as d:
        p = f'{d}/f.hdf5'
        ks = style.format(sep.join(key))
        if how == 'dump_to':
            h5.File.dump_to(p, data)
        elif how == 'File':
            with h5.File(p, 'x') as f:
                f.dump(data)
        elif how == 'group':
            base = (key[0],)
            with h5.File(p, 'w') as f:
                g = f.create_group(key[0])
                assert isinstance(g, h5.Group)
                g.dump(data)
        elif how == 'dump_to_key':
            base = tuple(key)
            n_have = min(n_have, len(key) - 1)
            if n_have:
                with h5.File(p, 'x') as f:
                    for k in key[:n_have]:
                        f = f.create_group(k)
            if parent is False and n_have < len(key) - 1:
                raises((KeyError, ValueError), h5.File.dump_to, p, data, key=ks, create_parent=False, f_flag='ac', msg='missing parent not asked for')
                with h5py.File(p, 'r') as f:
                    got = raw_tree(f)
                want = {}
                for k in reversed(key[:n_have]):
                    want = {k: want}
                same_tree(got, want, 'a refused dump created something')
                ck.label('missing parent refused')
                parent = None
            h5.File.dump_to(p, data, key=ks, **({} if parent is None else dict(create_parent=parent)))
        elif how == 'piecewise':       # every leaf by its own call
            leaves = [(q, v) for q, v in walk(data) if not isinstance(v, Mapping)]
            with h5.File(p, 'w'):
                pass
            for q, v in leaves:
                h5.File.dump_to(p, v, key='/'.join(q))

            def prune(t):
                t = {k: prune(v) if isinstance(v, dict) else v for k, v in t.items()}
                return {k: v for k, v in t.items() if not (isinstance(v, dict) and not v)}
            ref = prune(ref)
        else:
            for k, v in data.items():
                h5.File.dump_to(p, {k: v})
            if not data:
                h5.File.dump_to(p, {})
        full = ref
        for k in reversed(base):
            full = {k: full}
        with h5py.File(p, 'r') as f:
            same_tree(raw_tree(f), full, 'file content')
        out = h5.File.load_from(p)
        assert isinstance(out, DataDict)
        same_tree(out, full, 'load_from')
        same_tree(h5.File.load_from(p, '/'), full, 'load_from /')
        nodes = list(walk(full))
        if nodes:
            q, v = nodes[pick_ % len(nodes)]
            got = h5.File.load_from(p, ['/'.join(q), '/' + '/'.join(q)][pick_ >> 8 & 1])
            same_tree(got, v, 'load_from key')
            raises(KeyError, h5.File.load_from, p, '/'.join(q) + '_no')
        with h5.File(p) as f:
            same_tree(f.load(), full, 'load')
            for q, v in nodes[:6]:
                o = f['/'.join(q)]
                if isinstance(v, dict):
                    assert isinstance(o, h5.Group)
                    same_tree(o.load(), v, 'group load')
                else:
                    assert isinstance(o, h5.Dataset)
                    same_val(o[()], v, 'dataset read')
        # the data given are not modified
        for (q, v), (q2, v2) in zip(walk(data), walk(build(spec))):
            assert q == q2
            if not isinstance(v, Mapping):
                same_val(v.encode() if isinstance(v, str) else v, v2.encode() if isinstance(v2, str) else v2, f'{q} modified by dump')
    return rich(ref)


@ck.test(examples=500, spec=map3, pick_=bits64, pat=st.sampled_from([None, 'a', '.*', 'pos', '[a-c]$', 'x|b', '^p', '.{2,}', 'zzz', '']))
def listing(spec, pick_, pat):
    data, ref = build(spec), expect(spec)
    with scratch() as d:
        p = f'{d}/f.hdf5'
        h5.File.dump_to(p, data)
        with h5.File(p) as f:
            groups = [((), ref)] + [(q, v) for q, v in walk(ref) if isinstance(v, dict)]
            for q, v in groups[:5]:
                g = f['/'.join(q)] if q else f
                assert len(g) == len(v) and sorted(g.keys()) == sorted(v)
                its = list(g.items())
                assert sorted(k for k, _ in its) == sorted(v)
                assert len(list(g.values())) == len(v)
                for k, o in its:
                    assert k in g
                    assert isinstance(o, h5.Group if isinstance(v[k], dict) else h5.Dataset)
                assert 'not there' not in g
                leaves = {k: x for k, x in v.items() if not isinstance(x, dict)}
                ds = g.datasets
                assert sorted(ds.keys()) == sorted(leaves), 'datasets.keys'
                for k, x in ds.items():
                    same_val(x, leaves[k], 'datasets.items')
                assert len(list(ds.values())) == len(leaves)
                for k in v:
                    assert (k in ds) is (k in leaves)
                same_tree(ds.load(), leaves, 'datasets.load')
                m = {k: x for k, x in leaves.items() if pat is None or re.match(pat, k)}
                same_tree(ds.load(key_re=pat), m, f'datasets.load({pat!r})')
                assert list(ds.keys().matched(pat)) == [k for k in ds.keys() if k in m]
                names = sorted(leaves)
                sub = [names[(pick_ >> (4 * i)) % len(names)] for i in range(pick_ % 4)] if names else []
                out = ds[tuple(sub)]
                assert isinstance(out, tuple) and len(out) == len(sub)
                for k, x in zip(sub, out):
                    same_val(x, leaves[k], 'tuple of datasets')
                same_tree(ds.load(keys=sub), {k: leaves[k] for k in sub}, 'load(keys=)')
                if sub:
                    rep = sub + sub[:1] + names + sub
                    assert list(type(ds.keys())(rep).matched(pat)) == [k for k in rep if pat is None or re.match(pat, k)], 'matched names of a list with repetitions'
                same_tree(ds.load(keys=sub, key_re=pat), {k: leaves[k] for k in sub if k in m}, 'load(keys, key_re)')
                objs = g[tuple(sorted(v))]
                assert isinstance(objs, tuple) and len(objs) == len(v)
                for k in v:
                    if isinstance(v[k], dict):
                        raises(KeyError, lambda: ds[k], msg='a group is not a dataset')
                raises(KeyError, lambda: ds['not there'])
                if 'a' in leaves:
                    same_val(ds.a, leaves['a'], 'attribute access')
                else:
                    raises(AttributeError, lambda: ds.a)
                # listing shows every item once, as deep as asked
                text = g.what()
                nodes = list(walk(v))
                lines = text.split('\n')
                clean = all(c.isprintable() for n, _ in nodes for c in n[-1])
                if clean:
                    assert len(lines) == 1 + len(nodes), text
                    got = sorted(re.split(r'[├└]─ ', ln)[-1] for ln in lines[1:])
                    for (n, x), in zip(nodes):
                        depth = len(n)
                        tail = n[-1] + ('/' if isinstance(x, dict) else '(')
                        assert any(g_.startswith(tail) for g_ in got), (tail, text)
                    dd = 1 + pick_ % 3
                    lim = g.what(max_depth=dd)
                    assert len(lim.split('\n')) == 1 + sum(len(n) < dd for n, _ in nodes), (dd, lim)
                    nod = g.what(dset=False)
                    assert len(nod.split('\n')) == 1 + sum(isinstance(x, dict) for _, x in nodes)
                buf = io.StringIO()
                g.ls(file=buf)
                assert buf.getvalue() == text + '\n'
    return rich(ref)


@ck.test(examples=150, names=st.lists(hname, min_size=4, max_size=18), side=st.lists(st.tuples(st.integers(0, 17), hname, leaf_spec), max_size=6), how=st.sampled_from(['dump', 'key', 'static']), start=st.integers(0, 17), depth=st.integers(1, 20))
def deep(names, side, how, start, depth):
    """Long chains of groups: written, listed, loaded and addressed down to the last level."""
    n = len(names)
    ref = data = None
    for i in range(n - 1, -1, -1):
        here = {k: s for j, k, s in side if j % n == i and (k != names[i] or i == n - 1)}
        data = {k: build(s) for k, s in here.items()} | ({names[i]: data} if data is not None else {names[i]: np.arange(3)})
        ref = {k: expect(s) for k, s in here.items()} | ({names[i]: ref} if ref is not None else {names[i]: np.arange(3)})
    with scratch() as d:
        p = f'{d}/f.hdf5'
        if how == 'key':
            leaves = [(q, v) for q, v in walk(data) if not isinstance(v, Mapping)]
            for q, v in leaves:
                h5.File.dump_to(p, v, key='/'.join(q))
        elif how == 'dump':
            with h5.File(p, 'w') as f:
                f.dump(data)
        else:
            h5.File.dump_to(p, data)
        with h5py.File(p, 'r') as f:
            same_tree(raw_tree(f), ref, 'file content')
        same_tree(h5.File.load_from(p), ref, 'load_from')
        q = names[:start % n]
        sub_ = subtree(ref, q)
        same_tree(h5.File.load_from(p, '/' + '/'.join(q)), sub_, 'load_from key')
        with h5.File(p) as f:
            g = f['/'.join(q)] if q else f
            same_tree(g.load(), sub_, 'load')
            nodes = list(walk(sub_))
            if all(c.isprintable() for m, _ in nodes for c in m[-1]):
                depths = [len(m) for m, _ in nodes]
                # everything is listed, down to 16 levels or as deep as asked
                for kw, lim in (({}, 16), (dict(max_depth=depth), depth)):
                    lines = g.what(**kw).split('\n')
                    assert len(lines) == 1 + sum(x < lim for x in depths), (kw, lines)
    return n > 8


@ck.test(examples=600, spec=st.tuples(st.just('arr'), st.sampled_from(DTYPES), st.sampled_from([(5,), (1,), (6,), (2, 3), (3, 1, 2)]), st.integers(0, 99), st.just('C')),
         a=st.one_of(st.none(), st.integers(0, 6)), b=st.one_of(st.none(), st.integers(0, 6)), step=st.sampled_from([None, 1, 2, 3]), kind=st.sampled_from(['slice', 'int', 'mask', 'idx', 'all', 'field']), bits=bits64)
def selections(spec, a, b, step, kind, bits):
    v = value(spec)
    with scratch() as d:
        p = f'{d}/f.hdf5'
        h5.File.dump_to(p, v, key='g/d')
        n = len(v)
        if kind == 'slice':
            s = slice(a, b, step)
        elif kind == 'int':
            s = (a or 0) % n
        elif kind == 'mask':
            s = bool_array(bits, (n,))
        elif kind == 'idx':
            s = np.flatnonzero(bool_array(bits, (n,)))
            if not len(s):
                s = slice(0, 0)
        elif kind == 'field':
            s = (slice(None),) * (v.ndim - 1) + (slice(a, b, step),)
        else:
            s = Ellipsis
        with h5.File(p) as f:
            ds = f['g/d']
            assert ds.shape == v.shape and ds.dtype == v.dtype and ds.ndim == v.ndim
            same_val(ds[s], v[s], f'selection {s}')
            w = ds.what()
            assert str(v.dtype) in w
    return kind not in ('all',) and n > 2


@ck.test(examples=400, spec=map2, bad=st.sampled_from(['none', 'list', 'object', 'intkey', 'set', 'tuple']), path=sized_lists(hname, 0, 2), flag=st.sampled_from(['x', 'ac']))
def unsupported(spec, bad, path, flag):
    """A mapping with one unsupported key or value anywhere is refused and nothing at all is written."""
    data = build(spec)
    data = {**{('q%d' % i): i for i in range(2)}, **data}
    tgt = data
    for k in path:
        if not isinstance(tgt.get(k), dict):
            tgt[k] = {'ok': 1}
        tgt = tgt[k]
    if bad == 'intkey':
        tgt[3] = 1
    else:
        tgt['bad'] = {'none': None, 'list': [1, 2], 'object': object(), 'set': {1}, 'tuple': (1, 2)}[bad]
    with scratch() as d:
        p = f'{d}/f.hdf5'
        h5.File.dump_to(p, {'q0': 5, 'keep': np.arange(3)})
        with h5.File(p, 'a') as f:
            raises(TypeError, f.dump, data, flag=flag)
        with h5py.File(p, 'r') as f:
            same_tree(raw_tree(f), {'q0': np.int64(5), 'keep': np.arange(3)}, 'refused dump')
    return len(path) > 0


@ck.test(examples=80, n=big_sizes, k=st.integers(20, 300), s=bits64, dt=st.sampled_from(['f8', 'f4', 'i8', '>i4', 'u1', 'S9']), cols=st.sampled_from([1, 3]))
def large(n, k, s, dt, cols):
    """Long data sets, and groups of many members."""
    g = rng_of(s)
    v = g.normal(size=(n, cols)).astype(dt) if dt[0] == 'f' else g.integers(0, 200, (n, cols)).astype(dt)
    many = {f'm{i}': np.int64(i) for i in range(k)}
    data = {'v': v, 'g': {'many': many, 'w': v[:, 0].copy()}, 's': 'x' * n}
    with scratch() as d:
        p = f'{d}/f.h5'
        h5.File.dump_to(p, data)
        with h5.File(p) as f:
            same_val(f.datasets['v'], v, 'read')
            same_val(f['g'].datasets['w'], v[:, 0], 'read')
            got = f['g/many'].datasets.load() if 'g/many' in f else f['g']['many'].datasets.load()
            assert {a: int(b) for a, b in got.items()} == {a: int(b) for a, b in many.items()}
        with h5py.File(p, 'r') as f:
            same_val(f['v'][()], v, 'raw')
            assert sorted(f['g/many']) == sorted(many)
        with h5.File(p, 'a') as f:
            f.datasets.create('y', v[::-1].copy())
            f.datasets.create('v', v[::-1].copy(), flag='ac')
            same_val(f.datasets['y'], v[::-1], 'created')
            same_val(f.datasets['v'], v[::-1], 'replaced')
    return True
