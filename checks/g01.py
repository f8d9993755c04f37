"""G01: point groups."""
from lib.harness import *
from pyhipp.group_theory.point_group import (Group, Op, RotationXY, RotationOther, ReflectionX, Rotation2DXY, Reflection2DX)

ck = Check('G01', 'Operations, pairs and chains of operations of both groups applied to generated vectors, batches and grids. '
           'Non-trivial: a product of two different non-identity operations, or an operation on a batch of distinct vectors.')
NAMES = {'cubic': (3, 48), '3d': (3, 48), 'square': (2, 8), '2d': (2, 8)}


def keyed(g):
    return {tuple(np.rint(o.mat).astype(int).ravel()): o for o in g}


@ck.test(examples=60, name=st.sampled_from(sorted(NAMES)), i=st.integers(0, 47), how=st.sampled_from(['all', 'copied', 'again']))
def is_group(name, i, how):
    nd, order = NAMES[name]
    g = Group.create(name)
    if how == 'copied':
        h = g.copied()
        for o in g:
            o.mat[...] = 7.
        g = h
    elif how == 'again':     # a group is independent of changes made to another one
        for o in g:
            o.mat[...] = -3.
        g = Group.create(name)
    assert len(g) == order and len(list(g)) == order
    k = keyed(g)
    assert len(k) == order, f'{order - len(k)} repeated operations'
    for o in g:
        m = o.mat
        assert m.shape == (nd, nd) and np.array_equal(m @ m.T, np.eye(nd)), 'not orthogonal'
        assert set(np.abs(m).ravel()) <= {0., 1.}, 'not a signed permutation'
    assert tuple(np.eye(nd, dtype=int).ravel()) in k, 'no identity'
    a = g[i % order]
    assert any(np.array_equal(a.mat @ b.mat, np.eye(nd)) for b in g), 'no inverse'
    for b in g:
        c = a.combined(b)
        assert np.array_equal(c.mat, a.mat @ b.mat)
        assert tuple(np.rint(c.mat).astype(int).ravel()) in k, 'not closed'
    dets = [round(np.linalg.det(o.mat)) for o in g]
    assert dets.count(1) == dets.count(-1) == order // 2, 'half of the operations are proper rotations'
    r = g.to_simple_repr()
    assert len(r) == order
    for x, o in zip(r, g):
        eq_arr(x['mat'], o.mat, 'repr')
    return how != 'all' or i > 0


@ck.test(examples=40, cls=st.sampled_from([RotationXY, RotationOther, ReflectionX, Rotation2DXY, Reflection2DX]), i=st.integers(0, 5))
def tables(cls, i):
    """Each table is made of distinct proper rotations (or the reflection), starting from the identity."""
    g = cls.group()
    assert len(g) == cls.group_size == len(keyed(g))
    assert np.array_equal(g[0].mat, np.eye(cls.n_dims))
    for j, o in enumerate(g):
        d = round(np.linalg.det(o.mat))
        assert d == (-1 if 'Reflection' in cls.__name__ and j else 1)
    if cls is not RotationOther:
        k = keyed(g)
        for a in g:
            for b in g:
                assert tuple(np.rint(a.mat @ b.mat).astype(int).ravel()) in k
    else:     # representatives of the images of the z axis: each once
        assert len({tuple(np.rint(o.mat[:, 2]).astype(int)) for o in g}) == 6
    o = cls.create(i % cls.group_size)
    eq_arr(o.mat, g[i % cls.group_size].mat)
    o.mat[...] = 9.
    eq_arr(cls.create(i % cls.group_size).mat, g[i % cls.group_size].mat, 'table unchanged by use')
    return i > 0


@ck.test(examples=1200, name=st.sampled_from(['cubic', 'square']), ids=sized_lists(st.integers(0, 47), 1, 4), shape=st.sampled_from([(), (1,), (5,), (2, 3), (3, 3), (2, 2, 2)]),
         s=bits64, form=st.sampled_from(['f8', 'f8', 'f8', 'i8', 'i1', 'u1', 'u4', 'f4', '>f8', 'F', 'list']))
def action(name, ids, shape, s, form):
    """Applying is the linear map of the matrix; composing is applying one after the other."""
    nd, order = NAMES[name]
    g = Group.create(name)
    ops = [g[i % order] for i in ids]
    mats = [o.mat.copy() for o in ops]
    x = rng_of(s).integers(-9, 10, shape + (nd,))
    x = (np.abs(x) if form[0] == 'u' else x).astype(form if form[0] in 'fiu>' else float)
    if form == 'F':
        x = np.asfortranarray(x)
    x0 = x.copy()
    if form == 'list':
        for o, m in zip(ops, mats):
            eq_arr(o(x.tolist()), np.einsum('ij,...j->...i', m, x), 'action on a list')
    for o, m in zip(ops, mats):
        y = o(x)
        assert y.shape == x.shape
        eq_arr(y, np.einsum('ij,...j->...i', m, x), 'action')
        eq_arr(np.sort(np.abs(y), -1).astype(float), np.sort(np.abs(x), -1).astype(float), 'components are permuted up to sign')
        eq_arr(o(2 * x), 2 * y, 'linear')
    c = ops[0].combined(*ops[1:])
    y = x
    for o in reversed(ops):
        y = o(y)
    eq_arr(c(x), y, 'composition')
    eq_arr(c.copied()(x), y, 'copy')
    for o, m in zip(ops, mats):
        eq_arr(o.mat, m, 'operands unchanged')
    eq_arr(x, x0, 'input unchanged')
    c.mat[...] = 0
    for o, m in zip(ops, mats):
        eq_arr(o.mat, m, 'operands independent of the product')
    return len(set(ids)) > 1 and x.size > nd


@ck.test(examples=150, ns=sized_lists(st.sampled_from(['r', 'o', 'f', 'none']), 1, 3))
def group_products(ns):
    T = {'r': RotationXY, 'o': RotationOther, 'f': ReflectionX}
    gs = [T[n].group() if n != 'none' else Group([]) for n in ns]
    sizes = [len(list(x)) for x in gs]
    p = gs[0].combined(*gs[1:])
    ms = [o.mat for o in p]
    want = [np.eye(3)]
    for x in gs:
        want = [w @ o.mat for w in want for o in x]
    assert len(ms) == len(want)
    for a, b in zip(ms, want):
        eq_arr(a, b, 'product')
    assert [len(list(x)) for x in gs] == sizes
    raises(KeyError, Group.create, 'no such group')
    assert len(Group()) == 0 and list(Group()) == []
    a, b = Group(), Group()
    a.ops.append(1)
    assert len(list(b)) == 0
    return len(ns) > 1
