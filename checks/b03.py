"""B03: nested tables in spreadsheets."""
from lib.harness import *
from lib import xl
xl.install()
import pandas as pd
from pyhipp.core import DataTable
from pyhipp.io.excel import Excel

ck = Check('B03', 'Nested mappings (depth 1-4) of data frames with 0-5 rows and 1-4 columns of integers, floats (missing values included), booleans and texts; file, path or writer targets, '
           'prefixes, index, float formats, several dumps into one writer. The spreadsheet engine is a stand-in (none is installed). Non-trivial: a nested table, a prefix or a float format.')
name = st.sampled_from(['a', 'b', 'c', 'panel_a', 'x y', '0', 'é', 'B', ' s', 't ', '_', 'x-y', '\u6f22', '1'])
col = st.sampled_from(['x', 'y', 'log_M', 'a.b', 'w p', 'é', '*', 'type', 'X'])
num = st.one_of(st.floats(-1e6, 1e6, allow_subnormal=False), st.sampled_from([0.0, 1.0, -2.0, 1e-300, 1.25, 0.005, 2.675, 1e20, 0.1 + 0.2]))
txt = st.text('abcXYZ é_+', min_size=1, max_size=5).map(lambda s: 'k' + s)


@st.composite
def frame(draw):
    n = draw(st.integers(0, 5))
    d = {}
    cols = draw(st.lists(col, min_size=1, max_size=4, unique=True))
    if n > 1 and len(cols) > 1 and draw(st.integers(0, 9)) == 0:    # rows without any value, the last one excepted
        blank = np.array(draw(st.lists(st.booleans(), min_size=n - 1, max_size=n - 1)) + [False])
        for c in cols:
            d[c] = np.array(draw(st.lists(num, min_size=n, max_size=n)))
            d[c][blank] = np.nan
        return pd.DataFrame(d)
    for c in cols:
        k = draw(st.sampled_from('iffbsn'))
        e = dict(i=st.integers(-10**9, 10**9), f=num, b=st.booleans(), s=txt, n=st.one_of(num, st.just(float('nan'))))[k]
        d[c] = np.array(draw(st.lists(e, min_size=n, max_size=n)), dtype=dict(i='i8', f='f8', b='?', s=object, n='f8')[k])
    return pd.DataFrame(d)


tree = st.recursive(frame(), lambda c: st.dictionaries(name, c, min_size=1, max_size=3), max_leaves=6)
nested = st.dictionaries(name, tree, min_size=1, max_size=3)


def leaves(d, pre=()):
    for k, v in d.items():
        if isinstance(v, pd.DataFrame):
            yield pre + (k,), v
        else:
            yield from leaves(v, pre + (k,))


def unflat(items):
    out = {}
    for p, v in items:
        o = out
        for k in p[:-1]:
            o = o.setdefault(k, {})
        o[p[-1]] = v
    return out


def same_tree(a, b, cmp, at=''):
    if isinstance(b, (pd.DataFrame, DataTable)):
        return cmp(a, b, at)
    assert type(a) is dict and list(a) == list(b), f'{at}: {list(a) if isinstance(a, dict) else type(a)} instead of {list(b)}'
    for k in b:
        same_tree(a[k], b[k], cmp, f'{at}/{k}')


def same_frame(index, fmt):
    def cmp(a, b, at):
        assert type(a) in (pd.DataFrame, DataTable), (at, type(a))
        cols = list(a.columns) if isinstance(a, pd.DataFrame) else list(a)
        want = (['Unnamed: 0'] if index else []) + list(b.columns)
        assert cols == want, f'{at}: columns {cols} instead of {want}'
        for j, c in enumerate(want):
            if j == 0 and index:
                w = np.arange(len(b))
            else:
                w = b[c].to_numpy()
            if fmt and w.dtype.kind == 'f':
                w = np.array([float(fmt % x) if x == x else x for x in w])
            g = a[c] if isinstance(a, DataTable) else a[c].to_numpy()
            assert type(g) is np.ndarray and g.shape == w.shape, f'{at}.{c}: {g!r} instead of {w!r}'
            for x, y in zip(g.tolist(), w.tolist()):
                assert x == y or (x != x and y != y), f'{at}.{c}: {g!r} instead of {w!r}'
                if isinstance(y, (bool, str)):
                    assert type(x) is type(y), f'{at}.{c}: {x!r} instead of {y!r}'
    return cmp


@ck.test(examples=700, shards=2, d=nested, prefix=st.sampled_from([None, None, '', 'p', 'p.q']), index=st.sampled_from([None, False, True]), fmt=st.sampled_from([None, None, '%.2f', '%.6g', '%.0f']),
         via=st.sampled_from(['path', 'path', 'writer', 'single']), frm=st.sampled_from(['path', 'file']), second=st.one_of(st.none(), nested))
def round_trip(d, prefix, index, fmt, via, frm, second):
    kw = {}
    if prefix is not None:
        kw['sheet_prefix'] = prefix
    if index is not None:
        kw['index'] = index
    if fmt is not None:
        kw['float_format'] = fmt
    pre = tuple(prefix.split('.')) if prefix else ()
    items = [(pre + p, v) for p, v in leaves(d)]
    if via == 'single':
        d = items[0][1]
        kw['sheet_prefix'] = prefix or 'only'
        items = [(pre or ('only',), d)]
    more = [(('second',) + p, v) for p, v in leaves(second)] if second is not None and via == 'writer' else []
    if any(len('.'.join(p)) > 31 for p, _ in items + more):      # not a sheet name
        return False
    keep = [v.copy() for _, v in items]
    with scratch() as tmp:
        f = f'{tmp}/t.xlsx'
        if via == 'writer':
            with pd.ExcelWriter(f) as w:
                Excel.dump_file(w, d, **kw)
                assert w.n_saved == 0, 'the caller\'s writer was closed'
                if more:
                    Excel.dump_file(w, second, **(kw | dict(sheet_prefix='second')))
                    items = items + more
        else:
            Excel.dump_file(f, d, **kw)
        for (_, v), k in zip(items, keep):
            assert v.equals(k) and list(v.columns) == list(k.columns), 'the tables given were modified'
        src = (lambda: f) if frm == 'path' else (lambda: pd.ExcelFile(f))
        cmp = same_frame(bool(index), fmt)
        flat = Excel.load_file(src(), reorder=False)
        names = ['.'.join(p) for p, _ in items]
        assert list(flat) == names, f'sheets {list(flat)} instead of {names}'
        for n, (_, v) in zip(names, items):
            cmp(flat[n], v, n)
            assert isinstance(flat[n], pd.DataFrame)
        same_tree(Excel.load_file(src()), unflat(items), cmp)
        t = Excel.load_file(src(), as_datatables=True)
        same_tree(t, unflat(items), cmp)
        for p, _ in items:
            o = t
            for k in p:
                o = o[k]
            assert isinstance(o, DataTable), 'not a data table'
        t = Excel.load_file(src(), as_datatables=True, reorder=False)
        assert list(t) == names and all(isinstance(x, DataTable) for x in t.values())
        for n in names:
            for c in flat[n].columns:
                w = flat[n][c].to_numpy().dtype
                assert t[n][c].dtype == w, f'{n}.{c}: {t[n][c].dtype} as a data table, {w} as a frame'
    return bool(prefix or fmt or any(len(p) > 1 for p, _ in items))


@ck.test(examples=8, thorough=60, n=st.integers(40, 1500), k=st.integers(1, 40), s=bits64, sheets=st.integers(1, 30))
def large(n, k, s, sheets):
    """Long tables, many columns and many sheets."""
    g = rng_of(s)
    d = {'a': pd.DataFrame({f'c{i}': g.integers(0, 99, n) if i % 2 else g.integers(0, 99, n) / 4 for i in range(k)}),
         'g': {f's{i}': pd.DataFrame({'v': [i, i + 1]}) for i in range(sheets)}}
    with scratch() as tmp:
        Excel.dump_file(f'{tmp}/t.xlsx', d, index=False)
        out = Excel.load_file(f'{tmp}/t.xlsx', as_datatables=True)
    cmp = same_frame(False, None)
    same_tree(out, d, cmp)
    return True
