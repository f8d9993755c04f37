"""A06: parameter lists."""
from lib.harness import *
from pyhipp.astro.cosmology.param import Param, ParamList

ck = Check('A06', 'Histories of up to 20 operations (read by name or position, replace, set all values, set one value, iterate, print) on lists of up to 6 parameters some with the same name. '
           'Oracle: an ordered list of (name, value). Non-trivial: a replacement by another name or a change of values.')
nm = st.sampled_from('abcdefgh')
val = st.floats(-5, 5) | st.integers(-9, 9) | st.lists(st.floats(-5, 5), max_size=3)
op = st.one_of(st.tuples(st.just('get'), nm), st.tuples(st.just('at'), st.integers(-8, 8)), st.tuples(st.just('rep'), st.integers(0, 7), nm, val), st.tuples(st.just('all'), st.lists(val, max_size=7), st.booleans(), st.booleans()),
               st.tuples(st.just('one'), nm, val), st.tuples(st.just('iter')), st.tuples(st.just('repr')))


def fits(v, m):
    try:
        m.copy()[...] = v
        return True
    except (ValueError, TypeError):
        return False


def same(a, b, msg):
    a = np.asarray(a)
    b = np.array(b)
    assert a.shape == b.shape and a.dtype == b.dtype and (a == b).all(), f'{msg}: {a!r} != {b!r}'


@ck.test(examples=3000, shards=3, init=st.lists(st.tuples(nm, val), max_size=6), ops=st.lists(op, max_size=20), gen=st.booleans())
def history(init, ops, gen):
    M = [[n, np.array(v)] for n, v in init]
    L = ParamList(Param(v, n) for n, v in init) if gen else ParamList([Param(v, n) for n, v in init])
    objs = list(L)
    act = False
    for o in ops:
        k = o[0]
        names = [n for n, _ in M]
        if k == 'get':
            if o[1] in names:
                p = L[o[1]]
                i, = (j for j, q in enumerate(objs) if q is p)
                assert p.name == o[1] == names[i]
                same(p.value, M[i][1], 'by name')
            else:
                raises(KeyError, L.__getitem__, o[1], msg=f'name {o[1]!r} is not in {names}')
        elif k == 'at':
            if -len(M) <= o[1] < len(M):
                assert L[o[1]] is objs[o[1]]
                same(L[o[1]].value, M[o[1]][1], 'by position')
            else:
                raises(IndexError, L.__getitem__, o[1])
        elif k == 'rep':
            if o[1] >= len(M):
                raises(IndexError, L.__setitem__, o[1], Param(o[3], o[2]))
            else:
                p = Param(o[3], o[2])
                L[o[1]] = p
                act |= o[2] != names[o[1]]
                objs[o[1]] = p
                M[o[1]] = [o[2], np.array(o[3])]
        elif k == 'all':
            vs = o[1]
            if o[2]:
                vs = (vs * 7)[:len(M)] if vs else [1.] * len(M)
            if len(vs) == len(M):
                arrs = list(L.values)
                if not all(fits(v, m[1]) for v, m in zip(vs, M)):
                    raises((ValueError, TypeError), L.set_values, vs)
                    return act
                if o[3]:        # given as arrays of the parameters' own form, which stay the caller's
                    given = [np.array(np.broadcast_to(v, m[1].shape), dtype=m[1].dtype) for v, m in zip(vs, M)]
                    kept = [g.copy() for g in given]
                    L.set_values(given)
                    for g, h in zip(given, kept):
                        eq_arr(g, h, 'given values')
                        g[...] = 77
                else:
                    L.set_values(vs)
                assert all(a is b for a, b in zip(arrs, L.values)), 'values are set in place'
                act |= bool(M)
                for m, v in zip(M, vs):
                    m[1][...] = v
            else:
                raises(AssertionError, L.set_values, vs)
        elif k == 'one' and o[1] in names:
            p = L[o[1]]
            m, = (w for w, q in zip(M, objs) if q is p)
            assert m[0] == o[1]
            m = m[1]
            if not fits(o[2], m):
                raises((ValueError, TypeError), L[o[1]].set_value, o[2])
                continue
            g = np.array(np.broadcast_to(o[2], m.shape), dtype=m.dtype)
            L[o[1]].set_value(g if len(ops) % 2 else o[2])
            g[...] = 77
            act = True
            m[...] = o[2]
        elif k == 'iter':
            assert [p.name for p in L] == names and all(a is b for a, b in zip(L, objs))
        elif k == 'repr':
            want = [{'name': n, 'value': v.tolist()} for n, v in M]
            assert L.to_simple_repr() == want, f'{L.to_simple_repr()} != {want}'
            str(L)
        assert len(L) == len(M)
        vs = L.values
        assert isinstance(vs, tuple) and len(vs) == len(M)
        for v, (n, w) in zip(vs, M):
            same(v, w, n)
        for n, w in M:
            if sum(q == n for q, _ in M) == 1:
                same(L[n].value, w, f'value of {n}')
    return act
