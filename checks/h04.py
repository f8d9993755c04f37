"""H04: objects stored in files; text tables."""
from lib.h5gen import *
from pyhipp.io import h5
from pyhipp.io.h5.abc import GroupLike, to_h5_data, from_h5_data
from pyhipp.io.h5.shortcuts import txt_to_h5
from pyhipp.core import DataTable, DataDict

ck = Check('H04', 'Classes of the storable-object protocol with generated member sets (arrays, numbers, text, tables, nested objects to depth 3), stored '
           'at the root or in a group, new or existing file, in each conflict mode; text tables of 1-5 typed columns and 1-6 rows. Non-trivial: '
           'an object with a nested object or table and an array; a table with two columns and rows.')

mem = st.sampled_from(['a', 'b', 'c', 'x', 'tab'])
leaf = pick(st.tuples(st.just('arr'), st.sampled_from(['f8', 'i4', '?', 'f4']), st.sampled_from([(2,), (0,), (2, 3)]), st.integers(0, 9), st.just('C')),
            st.tuples(st.just('py'), st.one_of(st.integers(-99, 99), st.floats(-9, 9), st.booleans())), st.tuples(st.just('str'), txt),
            st.tuples(st.just('table'), st.dictionaries(st.sampled_from(['p', 'q', 'r']), st.tuples(st.sampled_from(['f8', 'i8']), st.sampled_from([(), (3,)]), st.integers(0, 9)), max_size=3),
                      st.integers(0, 4)))
obj = lambda ch: st.tuples(st.just('obj'), st.lists(st.tuples(mem, ch), min_size=1, max_size=4, unique_by=lambda t: t[0]))  # noqa
o1 = obj(leaf)
o2 = obj(pick((2, leaf), o1))
o3 = obj(pick(leaf, o1, o2))


def tab(s):
    return {k: ((np.arange(s[2] * int(np.prod(t))) + i) / 2).astype(dt).reshape((s[2],) + t) for k, (dt, t, i) in s[1].items()}


def make(s):
    """-> (object, its type)"""
    if s[0] == 'table':
        return DataTable(tab(s)), DataTable
    if s[0] != 'obj':
        v = value(s)
        return v, type(v)
    ms = [(k, *make(x)) for k, x in s[1]]

    class Thing(GroupLike):
        h5_data_typedict = {k: t for k, _, t in ms}

        def __init__(self, extra='default', **kw):
            self.extra = extra
            self.__dict__.update(kw)
    return Thing(**{k: v for k, v, _ in ms}), Thing


def stored(s):
    if s[0] == 'table':
        return tab(s)
    if s[0] != 'obj':
        return loaded(s)
    return {k: stored(x) for k, x in s[1]}


def same_obj(o, t, s, tag='obj'):
    if s[0] == 'table':
        assert type(o) is DataTable, f'{tag}: {type(o)}'
        want = tab(s)
        assert sorted(o.keys()) == sorted(want)
        for k in want:
            eq_arr(o[k], want[k], f'{tag}.{k}', dtype=True)
    elif s[0] == 'str':
        assert type(o) is str and o == s[1], f'{tag}: {o!r}'
    elif s[0] != 'obj':
        same_val(o, loaded(s), tag)
    else:
        assert type(o) is t, f'{tag}: {type(o)}'
        for k, x in s[1]:
            same_obj(getattr(o, k), t.h5_data_typedict[k], x, f'{tag}.{k}')


def rich(s):
    return any(x[0] in ('obj', 'table') for _, x in s[1]) and any(x[0] in ('arr',) for _, x in s[1])


@ck.test(examples=700, shards=2, s=o3, where=st.sampled_from(['root', 'group', 'file', 'file_group']), extra=st.sampled_from([False, 'more', None, 0, '', ()]), flag=st.sampled_from([None, 'x', 'ac']))
def objects(s, where, extra, flag):
    o, T = make(s)
    ref = stored(s)
    kw = dict(extra=extra) if extra is not False else {}
    fk = {} if flag is None else dict(flag=flag)
    with scratch() as d:
        p = f'{d}/f.hdf5'
        if where in ('root', 'group'):
            with h5.File(p, 'x') as f:
                g = f if where == 'root' else f.create_group('sub').create_group('g')
                o.to_h5_group(g, **fk)
                back0 = T.from_h5_group(g)
            same_obj(back0, T, s)
            base = () if where == 'root' else ('sub', 'g')
        elif where == 'file':
            o.to_h5_file(p, **fk)
            base = ()
            raises((OSError, FileExistsError), o.to_h5_file, p)       # exclusive by default
        else:
            with h5.File(p, 'x') as f:
                f.create_group('sub')
                f.datasets.create('other', 3)
            o.to_h5_file(p, group='sub', f_flag='a', **fk)
            base = ('sub',)
        full = ref
        for k in reversed(base):
            full = {k: full}
        if where == 'file_group':
            full = {**full, 'other': np.int64(3)}
        with h5py.File(p, 'r') as f:
            same_tree(raw_tree(f), full, 'file content')
        back = T.from_h5_file(p, **({'group': '/'.join(base)} if base else {}), **kw)
        same_obj(back, T, s)
        assert back.extra == ('default' if extra is False else extra), 'an option of the object that is not stored'
        same_obj(o, T, s, 'the stored object')
        # storing again: refused by default, updates in place when asked to
        with h5.File(p, 'a') as f:
            g = f['/'.join(base)] if base else f
            raises(ValueError, o.to_h5_group, g)
            if not any_text(s):
                o.to_h5_group(g, flag='ac')
        with h5py.File(p, 'r') as f:
            same_tree(raw_tree(f), full, 'file content after storing again')
        # the same through the file interface: the file mode does not change the mode of the contents
        fg = dict(group='/'.join(base)) if base else {}
        for ff in ('a', 'ac', 'ca'):
            raises(ValueError, o.to_h5_file, p, f_flag=ff, msg=f'stored twice in mode {ff}', **fg)
            raises(ValueError, o.to_h5_file, p, f_flag=ff, flag='x', **fg)
        if not any_text(s):
            for ff in ('a', 'ac', 'ca'):
                for fl in ('ac', 'ca'):
                    o.to_h5_file(p, f_flag=ff, flag=fl, **fg)
        with h5py.File(p, 'r') as f:
            same_tree(raw_tree(f), full, 'file content after storing again in the file')
        # an override at restoration wins over the stored member
        k0 = s[1][0][0]
        over = T.from_h5_file(p, **({'group': '/'.join(base)} if base else {}), **{k0: 'override'})
        assert getattr(over, k0) == 'override'
        over = T.from_h5_file(p, **({'group': '/'.join(base)} if base else {}), **{k0: None})
        assert getattr(over, k0) is None, 'override by None'
        # an incomplete record is refused, not completed
        with h5py.File(p, 'a') as f:
            del (f['/'.join(base)] if base else f)[k0]
        raises(KeyError, T.from_h5_file, p, msg='an object restored without one of its parts', **({'group': '/'.join(base)} if base else {}))
    # members as plain data
    dd = to_h5_data(o)
    assert sorted(dd) == sorted(k for k, _ in s[1])
    assert to_h5_data(5) == 5 and to_h5_data('t') == 't'
    same_obj(from_h5_data(DataDict(ref_copy(ref)), T), T, s)
    return rich(s)


def ref_copy(r):
    return {k: DataDict(ref_copy(v)) if isinstance(v, dict) else v for k, v in r.items()}


def any_text(s):
    return any(x[0] == 'str' or (x[0] == 'obj' and any_text(x)) or (x[0] == 'arr' and 0 in x[2]) or (x[0] == 'table') for _, x in s[1])


@ck.test(examples=300, s=st.tuples(st.just('table'), st.dictionaries(st.sampled_from(['p', 'q', 'r']), st.tuples(st.sampled_from(['f8', 'i8', 'f4']), st.sampled_from([(), (3,)]), st.integers(0, 9)), max_size=3),
                                   st.integers(0, 4)))
def tables(s):
    t = DataTable(tab(s))
    d = to_h5_data(t)
    assert type(d) is dict and sorted(d) == sorted(tab(s))
    with scratch() as dd:
        p = f'{dd}/f.hdf5'
        h5.File.dump_to(p, d, key='t')
        h5.File.dump_to(p, t, key='t2')         # a table is itself a mapping
        for k in ('t', 't2'):
            same_obj(from_h5_data(h5.File.load_from(p, k), DataTable), DataTable, s)
    return len(s[1]) > 1


cols = st.lists(st.tuples(st.sampled_from(['a', 'b', 'c', 'mass', 'id']), st.sampled_from(['f8', 'i8', 'f4', 'i4', 'S4'])), min_size=1, max_size=5, unique_by=lambda t: t[0])


@ck.test(examples=600, cols=cols, rows=st.integers(1, 6), s=st.integers(0, 99), to=st.sampled_from(['str', 'Path', 'group', 'file']), comment=st.booleans(),
         d_flag=st.sampled_from([None, 'x', 'ac']), f_flag=st.sampled_from([None, 'w', 'x', 'ac']), existing=st.sampled_from(['none', 'none', 'same', 'other', 'full']))
def text(cols, rows, s, to, comment, d_flag, f_flag, existing):
    from pathlib import Path
    dtype = np.dtype(cols)
    tb = np.zeros(rows, dtype)
    for j, (k, t) in enumerate(cols):
        v = (np.arange(rows) * 5 + s + j) % 17 - 3
        tb[k] = [b'w%d' % abs(x) for x in v] if t == 'S4' else v / 4 if t[0] == 'f' else v
    with scratch() as d:
        txtf, p = f'{d}/t.txt', f'{d}/f.hdf5'
        with open(txtf, 'w') as f:
            if comment:
                f.write('# ' + ' '.join(k for k, _ in cols) + '\n')
            for r in tb:
                f.write(' '.join(x.decode() if isinstance(x, bytes) else repr(x.item()) for x in r) + '\n')
        base = 'g' if to == 'group' else None
        old = {}
        if existing != 'none':
            if existing in ('same', 'full'):
                for k in dtype.names[:1 if existing == 'same' else None]:
                    old[k] = np.zeros(rows, dtype[k]) if rows > 1 else np.zeros((), dtype[k])
            old['zz'] = np.int64(3)
            h5.File.dump_to(p, old, key=base)
        elif to in ('group', 'file'):
            h5.File.dump_to(p, {}, key=base)
        kw = {} if d_flag is None else dict(d_flag=d_flag)
        if to in ('str', 'Path'):
            if f_flag:
                kw['f_flag'] = f_flag
            arg = p if to == 'str' else Path(p)
            eff = f_flag or 'w'
            call = lambda: txt_to_h5(txtf, arg, dtype, **kw)  # noqa
            if eff == 'x' and existing != 'none':
                raises((OSError, FileExistsError), call)
                same_tree(h5.File.load_from(p), old, 'refused conversion')
                return True
            if eff == 'w':
                old = {}
        else:
            def call():
                with h5.File(p, 'a') as f:
                    txt_to_h5(txtf, f['g'] if base else f, dtype, **kw)
        clash = any(k in old for k in dtype.names)
        if clash and d_flag == 'x':
            raises(ValueError, call)
            got = h5.File.load_from(p, base)
            for k, v in old.items():
                same_val(got.get_dict()[k], v, 'refused column')
            return True
        call()
        want = {**old, **{k: (tb[k] if rows > 1 else tb[k][0]) for k in dtype.names}}
        got = h5.File.load_from(p, base)
        assert sorted(got) == sorted(want), (sorted(got), sorted(want))
        for k in want:
            if k in dtype.names and rows == 1:
                same_val(np.atleast_1d(got[k]), np.atleast_1d(want[k]), k)
            else:
                same_val(got[k], want[k], k)
    return len(cols) > 1 and rows > 1


@ck.test(examples=80, n=big_sizes, k=st.integers(1, 30), s=bits64)
def large(n, k, s):
    """Long tables of many columns, as objects and from text."""
    g = rng_of(s)
    cols = {f'c{i}': g.integers(0, 99, n) if i % 2 else g.integers(0, 99, n) / 4 for i in range(k)}
    with scratch() as d:
        with h5.File(f'{d}/f', 'w') as f:
            f.dump({'t': DataTable(cols)})
        with h5.File(f'{d}/f') as f:
            got = f['t'].load()
            assert sorted(got) == sorted(cols)
            for c, v in cols.items():
                eq_arr(got[c], v, c)
        n = min(n, 1500)
        with open(f'{d}/t.txt', 'w') as f:
            for r in zip(*(v[:n].tolist() for v in cols.values())):
                f.write(' '.join(map(repr, r)) + '\n')
        txt_to_h5(f'{d}/t.txt', f'{d}/g', np.dtype([(c, 'i8' if i % 2 else 'f8') for i, c in enumerate(cols)]))
        got = h5.File.load_from(f'{d}/g')
        assert sorted(got) == sorted(cols)
        for c, v in cols.items():
            eq_arr(got[c], v[:n], c)
    return True
