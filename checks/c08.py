"""C08: caches, dictionary combination, logging."""
import contextlib
import io
import re
from lib.harness import *
from pyhipp.core.abc import HasCache, HasMultiCache, HasLog, HasName, HasValue
from pyhipp.core.dataproc.data_structs import Dict
from pyhipp.core import DataDict

ck = Check('C08', 'Histories of up to 25 cache lookups/puts over a small key set (colliding and unhashable-free keys of mixed '
           'types) with falsy values and failing computations; sequences of mappings to combine; logging histories. '
           'Non-trivial: a history with a cache hit, or a combination with an overridden key.')

key = st.sampled_from(['a', 'b', '', 0, 1, None, ('a', 1), ('a', 'b'), 2.5])
val = st.sampled_from([None, 0, False, '', [], 1, 'v', 3.5, ()])
op = st.tuples(st.sampled_from(['get', 'get', 'get', 'put', 'fail']), st.integers(0, 1), key, key, val)


@ck.test(examples=1500, ops=sized_lists(op, 1, 25))
def caches(ops):
    single = [HasCache(), HasCache()]
    multi = [HasMultiCache(), HasMultiCache()]
    m1, m2 = [{}, {}], [{}, {}]
    hit = False
    for w, i, k, k2, v in ops:
        box = [v]              # a distinct object per computation
        n = []

        def f():
            n.append(1)
            if w == 'fail':
                raise ZeroDivisionError
            return box
        if w == 'put':
            single[i].put_cache(k, box)
            m1[i][k] = box
            continue
        for c, m, kk in ((single[i], m1[i], (k,)), (multi[i], m2[i], (k, k2))):
            n.clear()
            mk = kk[0] if len(kk) == 1 else kk
            try:
                r = c.get_cache_or(*kk, f)
            except ZeroDivisionError:
                assert w == 'fail' and mk not in m and n == [1], 'a failing computation must be propagated'
                continue
            if mk in m:
                hit = True
                assert n == [], f'{kk} was computed again'
                assert r is m[mk], f'{kk}: not the cached object'
            else:
                assert n == [1] and r is box
                m[mk] = box
    return hit


@ck.test(examples=600, v=val, k=key)
def falsy(v, k):
    """A falsy result itself is cached (not only containers of it)."""
    c, m, n = HasCache(), HasMultiCache(), []

    def f():
        n.append(1)
        return v
    for _ in range(3):
        assert c.get_cache_or(k, f) is v
        assert m.get_cache_or('x', k, f) is v
    assert len(n) == 2, f'computed {len(n)} times'
    c.put_cache(k, 'new')
    assert c.get_cache_or(k, f) == 'new' and len(n) == 2
    return True


tree = st.recursive(st.tuples(st.sampled_from(['a', 'b', '']), st.sampled_from(['p', 'q']), st.just(()), st.booleans(), val),
                    lambda t: st.tuples(st.sampled_from(['a', 'b', '']), st.sampled_from(['p', 'q']), st.lists(t, max_size=3).map(tuple), st.booleans(), val),
                    max_leaves=6)


@ck.test(examples=800, ts=sized_lists(tree, 1, 5), pin=st.sampled_from([None, 0, False, 'x']))
def nested(ts, pin):
    """Computations which use the same cache (for other entries): each completes before its own entry appears,
    a failing one leaves no trace, and what it cached on its way stays."""
    c, m = HasCache(), HasMultiCache()
    mc, mm = {}, {}
    multi = [False]
    n_in = [0]

    def run(t, active):
        k, k2, subs, fails, v = t

        def f():
            n_in[0] += len(subs)
            for u in subs:
                if (u[0], u[1]) in active | {(k, k2)}:
                    continue
                try:
                    run(u, active | {(k, k2)})
                except ZeroDivisionError:
                    pass
            if fails:
                raise ZeroDivisionError
            return (v, k, k2)
        kk = (k, k2)
        mod = mm if multi[0] else mc
        had = kk in mod
        try:
            r = m.get_cache_or(k, k2, f) if multi[0] else c.get_cache_or(kk, f)
        except ZeroDivisionError:
            assert fails and not had, 'a cached entry was computed again'
            raise
        if not had:
            assert not fails, 'a failing computation returned something'
            mod[kk] = (v, k, k2)
        assert r == mod[kk], f'{kk} gives {r}, cached was {mod[kk]}'
    for multi[0] in (False, True):
        for t in ts:
            try:
                run(t, frozenset())
            except ZeroDivisionError:
                pass
        mod = mm if multi[0] else mc

        def never():
            raise RuntimeError('computed again')
        for (k, k2), v in mod.items():
            assert (m.get_cache_or(k, k2, never) if multi[0] else c.get_cache_or((k, k2), never)) == v
        for k in ('a', 'b', ''):
            for k2 in 'pq':
                if (k, k2) in mod:
                    continue
                tok = [pin]
                assert (m.get_cache_or(k, k2, lambda: tok) if multi[0] else c.get_cache_or((k, k2), lambda: tok)) is tok, 'an entry which never completed is cached'
    return n_in[0] > 0


dct = st.dictionaries(st.sampled_from('abcd'), st.integers(0, 99), max_size=4)


@ck.test(examples=1200, ds=sized_lists(st.one_of(st.none(), dct), 0, 5), items=dct, kinds=bits64)
def combine(ds, items, kinds):
    args = [DataDict(d) if d is not None and (kinds >> i) & 1 else d if d is None else dict(d) for i, d in enumerate(ds)]
    ref = {}
    for d in ds:
        for k, v in (d or {}).items():
            ref[k] = v
    for k, v in items.items():
        ref[k] = v
    out = Dict.combine_dicts(*args, **items)
    assert type(out) is dict and out == ref and list(out) == list(ref), (out, ref)
    assert Dict(*args, **items).d == ref
    for a, d in zip(args, ds):
        assert (a is None and d is None) or dict(a) == d, 'operand modified'
        assert out is not a
    out['zz'] = 1
    assert all(a is None or 'zz' not in a for a in args)
    e = Dict.none_to_empty(None)
    assert e == {} and Dict.none_to_empty() == {}
    if args and args[0] is not None:
        assert Dict.none_to_empty(args[0]) is args[0]
    flat = [k for d in ds if d for k in d] + list(items)
    return len(set(flat)) < len(flat)


lop = st.sampled_from(['on', 'off', 'log', 'log', 'log'])


@ck.test(examples=600, name=st.one_of(st.none(), st.sampled_from(['n', 'My name', 7, '', 0])), v0=st.booleans(), ops=sized_lists(lop, 1, 8),
         named=st.sampled_from([None, True, False]), timed=st.booleans(), msg=st.lists(st.sampled_from(['x', 'hello ', 3, None]), max_size=3),
         end=st.sampled_from([None, '', ';\n', '\n']), sep=st.sampled_from([None, '', ', ']), fmt=st.sampled_from([None, '%H', '%Y']), flush=st.sampled_from([None, True, False]))
def logs(name, v0, ops, named, timed, msg, end, sep, fmt, flush):
    class Thing(HasLog):
        pass
    t = Thing(name=name, verbose=v0)
    assert t.name == ('Thing' if name is None else str(name)) and isinstance(t.name, str)
    assert HasName().name == 'HasName'
    v = v0
    kw = {} if named is None else dict(named=named)
    if timed:
        kw['timed'] = True
        if fmt:
            kw['time_fmt'] = fmt
    kw |= {k: v for k, v in dict(end=end, sep=sep, flush=flush).items() if v is not None}
    tail = (sep or '').join(map(str, msg)) + ('\n' if end is None else end)
    printed = False
    for o in ops:
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            if o == 'on':
                t.verbose_on()
                v = True
            elif o == 'off':
                t.verbose_off()
                v = False
            else:
                t.log(*msg, **kw)
        s = buf.getvalue()
        if o != 'log' or not v:
            assert s == '', f'printed {s!r} when silent'
        else:
            printed = True
            assert s.endswith(tail), s
            pre = s[:len(s) - len(tail)]
            if sep and pre:     # the prefix is printed as items of their own
                assert msg == [] or pre.endswith(sep)
                pre = pre.replace(sep, '')
            tag = f'[{t.name}]' if named is not False else ''
            if timed:
                assert re.fullmatch(re.escape(tag) + {None: r'\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\] ', '%H': r'\[\d\d\] ', '%Y': r'\[\d{4}\] '}[fmt], pre), pre
            else:
                assert pre.strip() == tag, (pre, tag)
    return printed and not v


@ck.test(examples=200, x=st.lists(st.integers(-9, 9), min_size=1, max_size=4), form=st.sampled_from(['list', 'array']), copy=st.sampled_from([None, True, False]))
def values(x, form, copy):
    a = np.array(x) if form == 'array' else list(x)
    h = HasValue(a) if copy is None else HasValue(a, copy=copy)
    eq_arr(h.value, np.array(x))
    keep = h.value
    h.set_value(np.array(x) + 1)
    assert h.value is keep
    eq_arr(h.value, np.array(x) + 1)
    if form == 'array':
        eq_arr(a, np.array(x) + (copy is False), 'copy flag')
    h.set_value(5)
    eq_arr(h.value, np.full(len(x), 5))
    return True
