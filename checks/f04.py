"""F04: cosmic-web classes and field interpolation."""
import math
from lib.harness import *
from pyhipp.io import h5
from pyhipp.field.cubic_box import TidalClassifier, TidalField, FourierSpaceSmoothing, Field, Mesh
from pyhipp.field.cubic_box.cosmic_web import FieldInterpolator

ck = Check('F04', 'Eigenvalue fields on 1-6 cells a side (now and then up to 24) (values from a small set that meets the threshold exactly, and real ones), thresholds of either sign, fields of all kinds, positions on and around grid '
           'points, cell faces and box faces, inside and up to two boxes outside. Non-trivial: at least two web types present; a position off the grid in a non-constant field.')
ns = grid_sizes(7, 24)
boxes = st.sampled_from([1., 8., .3, 100., 1000.])
coord = st.one_of(st.integers(-24, 24).map(lambda v: v / 8), st.floats(0, 1), st.sampled_from([0., 1., -1e-17, 1 - 1e-16, .5]), st.floats(-2, 3))
pos = sized_lists(st.tuples(coord, coord, coord), 0, 10)
NAMES = ('void', 'sheet', 'filament', 'knot')


@ck.test(examples=1500, shards=2, n=ns, L=boxes, bits=bits64, th=st.sampled_from([None, 0., .5, -.25, 1.]) | st.floats(-1, 1), exact=st.booleans(), ps=pos, src=st.sampled_from(['f8', 'f4', 'list', 'file']), form=st.sampled_from(['f8', 'f4', 'list']))
def classes(n, L, bits, th, exact, ps, src, form):
    r = rng_of(bits)
    lam = np.sort(r.choice([-1., -.25, 0., .5, 1.], (n, n, n, 3)) if exact else r.normal(size=(n, n, n, 3)), -1)
    t_ = 0. if th is None else th
    if bits % 2:        # at and next to the threshold
        close_ = np.array([t_, np.nextafter(t_, 9), np.nextafter(t_, -9), t_ + 1e-9, t_ - 1e-9, t_ * (1 + 1e-12)])
        m = r.random(lam.shape) < .3
        lam[m] = r.choice(close_, m.sum())
        lam = np.sort(lam, -1)
    lam = lam.astype('f4').astype('f8') if src == 'f4' else lam
    mesh = Mesh.new(n, L)
    kw = {} if th is None else dict(lam_th=np.float64(th) if bits % 3 == 0 else th)
    if src == 'f4' and t_ != float(np.float32(t_)) and (np.abs(lam - t_) < 1e-5).any():
        return False    # single precision decides whether they are equal
    arg = lam.astype('f4') if src == 'f4' else lam.tolist() if src == 'list' else lam.copy()
    if src == 'file':
        with scratch() as d, h5.File(f'{d}/t.hdf5', 'w') as f:
            f.dump({'lam': lam, 'n_grids': n, 'l_box': L, 'other': 1})
            c = TidalClassifier.new_from_file(f, **kw)
    else:
        c = TidalClassifier(arg, mesh, **kw)
        if isinstance(arg, np.ndarray):
            eq_arr(arg, lam, 'input changed')
            arg[...] = 99.
    close(c.lam, lam, 1e-6, 1e-30, 'eigenvalues are the ones given')
    want = (lam > t_).sum(-1)
    eq_arr(np.asarray(c.n_lams), want, 'number of eigenvalues above the threshold')
    assert c.lam_th == t_ and c.mesh.n_grids == n and c.mesh.l_box == L
    masks = [c.is_void, c.is_sheet, c.is_filament, c.is_knot]
    for k, m in enumerate(masks):
        eq_arr(m, want == k, NAMES[k])
    fr = [c.f_void, c.f_sheet, c.f_filament, c.f_knot]
    close(fr, [(want == k).mean() for k in range(4)], 1e-12, msg='volume fractions')
    assert abs(sum(fr) - 1) < 1e-12
    h = L / n
    seen = []
    for k, nm in enumerate(NAMES):
        for alias in (nm, nm[0]):
            assert TidalClassifier.web_types[alias] == k
            g = c.grid_points_of_web_type(alias)
            assert g.shape == ((want == k).sum(), 3)
            close(g, np.argwhere(want == k) * h, 3e-7, 1e-30, f'grid points of a {alias}')
        seen += [tuple(v) for v in np.round(g / h).astype(int).tolist()]
    assert sorted(seen) == list(np.ndindex(n, n, n)), 'the types do not partition the grid'
    raises(KeyError, c.grid_points_of_web_type, 'wall')
    # at positions: the nearest cell
    x = np.array(ps, dtype=float).reshape(-1, 3) * L
    if form == 'f4':
        x = x.astype('f4')
    u = x.astype(float) / h
    keep = (np.abs(u - np.floor(u) - .5) > 1e-5).all(1)
    x, u = x[keep], u[keep]
    i = np.round(u).astype(int) % n
    a = x.tolist() if form == 'list' and len(x) else x
    w = c.web_type_at(a)
    eq_arr(w, want[tuple(i.T)], 'web type at positions')
    v = c.lam_at(a)
    assert v.shape == (len(x), 3)
    close(v, lam[tuple(i.T)], 1e-6, 1e-30, 'eigenvalues at positions')
    for f in (c.web_type_at, c.lam_at):
        raises(AssertionError, f, np.zeros((2, 2)))
    # refused input
    if n > 1 or lam[0, 0, 0, 0] < lam[0, 0, 0, 2]:
        b = lam.copy()
        q = tuple(r.integers(0, n, 3))
        for e in (1, 2):
            b2 = lam.copy()
            b2[q][e - 1] = b2[q][e] + 1
            raises(AssertionError, TidalClassifier, b2, mesh, msg='unsorted eigenvalues')
        raises(AssertionError, TidalClassifier, b, Mesh.new(n + 1, L))
        raises(AssertionError, TidalClassifier, b[..., :2], mesh)
    rp = c.to_simple_repr()
    assert rp['lam_th'] == t_ and rp['f_knot'] == c.f_knot and rp['web_types']['sheet'] == 1
    return len(set(want.ravel().tolist())) > 1


@ck.test(examples=200, n=st.integers(2, 6), bits=bits64, th=st.sampled_from([0., .1]))
def from_tidal(n, bits, th):
    """Classes of a solved tidal field stored in a file."""
    a = rng_of(bits).random((n, n, n)) + .1
    mesh = Mesh.new(n, 10.)
    f = TidalField(r_sm=1.).run(Field.new_by_data(a, mesh))
    with scratch() as d:
        with h5.File(f'{d}/t.hdf5', 'w') as fl:
            f.dump(fl)
        with h5.File(f'{d}/t.hdf5') as fl:
            c = TidalClassifier.new_from_file(fl, lam_th=th)
            ip = FieldInterpolator.new_density_field_from_file(fl)
            i2 = FieldInterpolator.new_density_field_from_file(fl, key='delta_sm_x')
    ok = (np.abs(f.lam - th) > 1e-5).all(-1)
    eq_arr(c.n_lams[ok], (f.lam > th).sum(-1)[ok])
    x = np.argwhere(np.ones((n, n, n))) * (10. / n)
    close(ip.value_at(x), (1 + f.delta_x).ravel(), 1e-9, 1e-9, 'density at grid points')
    close(i2.value_at(x), (1 + f.delta_sm_x).ravel(), 1e-9, 1e-9, 'smoothed density at grid points')
    return True


@ck.test(examples=1500, shards=2, n=ns, L=boxes, kind=st.sampled_from(["normal", "const", "cell", 'ints', 'trilinear']), bits=bits64, ps=pos, k=st.tuples(*[st.integers(-2, 2)] * 3), form=st.sampled_from(['f8', 'F', 'f4']), forder=st.sampled_from('CF'))
def interpolation(n, L, kind, bits, ps, k, form, forder):
    r = rng_of(bits)
    co = r.normal(size=8)

    def tri(x):
        x, y, z = x[..., 0], x[..., 1], x[..., 2]
        return co[0] + co[1] * x + co[2] * y + co[3] * z + co[4] * x * y + co[5] * y * z + co[6] * z * x + co[7] * x * y * z
    idx = np.stack(np.meshgrid(*[np.arange(n)] * 3, indexing='ij'), -1)
    if kind == 'trilinear':
        a = tri(idx)
    elif kind == 'const':
        a = np.full((n, n, n), r.normal())
    elif kind == 'cell':
        a = np.zeros((n, n, n))
        a[tuple(r.integers(0, n, 3))] = 5.
    elif kind == 'ints':
        a = r.integers(-5, 9, (n, n, n)).astype(float)
    else:
        a = r.normal(size=(n, n, n))
    a = np.asarray(a, order=forder)
    a0 = a.copy()
    h = L / n
    f = FieldInterpolator(Field.new_by_data(a, Mesh.new(n, L)))
    x = np.array(ps, dtype=float).reshape(-1, 3) * L
    x = x.astype('f4') if form == 'f4' else np.asfortranarray(x) if form == 'F' else x
    x0 = x.copy()
    v = f.value_at(x)
    eq_arr(x, x0, 'positions changed'), eq_arr(a, a0, 'field changed')
    assert v.shape == (len(x),)
    S = np.abs(a).max() + 1e-30
    u = x.astype(float) / h
    eps = 3e-6 if form == 'f4' else 1e-11
    # definition: distance weights of the eight surrounding grid points
    lo = np.floor(u)
    want = np.zeros(len(x))
    mx, mn = np.full(len(x), -np.inf), np.full(len(x), np.inf)
    for o in np.ndindex(2, 2, 2):
        c = lo + o
        w = np.prod(1 - np.abs(u - c), -1)
        val = a[tuple((c.astype(int) % n).T)]
        want += w * val
        mx, mn = np.where(w > 1e-14, np.maximum(mx, val), mx), np.where(w > 1e-14, np.minimum(mn, val), mn)
    tol = eps * S * (10 + np.abs(u).max(initial=0))
    close(v, want, 0, tol, 'interpolated values')
    assert (v <= mx + tol).all() and (v >= mn - tol).all(), 'outside the range of the surrounding cells'
    close(f.value_at(x + np.array(k) * L), v, 0, tol * 10 + eps * 30 * n * S, 'periodicity')
    g = idx.reshape(-1, 3)
    close(f.value_at((g + np.array(k) * n) * h), a[tuple(g.T)], 0, 1e-11 * S * 10 * n, 'values at grid points')
    if kind == 'trilinear':
        inside = ((u >= 0) & (u <= n - 1)).all(1)
        close(v[inside], tri(u[inside]), 0, tol * 100, 'trilinear functions are reproduced')
    if kind == 'const':
        close(v, np.full(len(x), a.flat[0]), 0, tol)
    raises(AssertionError, f.value_at, np.zeros((2, 2)))
    return n > 1 and kind != 'const' and bool((np.abs(u - np.round(u)) > 1e-6).any())


def _warm():
    m = Mesh.new(2, 1.)
    c = TidalClassifier(np.zeros((2, 2, 2, 3)), m)
    for x in (np.zeros((2, 3)), np.zeros((2, 3), 'f4'), np.zeros((2, 3), order='F')):
        c.web_type_at(x), c.lam_at(x)
        for o in 'CF':
            FieldInterpolator(Field.new_by_data(np.zeros((2, 2, 2), order=o), m)).value_at(x)
    TidalField().run(Field.new_by_data(np.ones((2, 2, 2)), m))


try:
    _warm()
except Exception:
    pass


@ck.test(examples=80, m=big_sizes, n=st.integers(2, 24), L=boxes, s=bits64)
def large(m, n, L, s):
    """Many positions in one call, some very near to the faces between cells."""
    g = rng_of(s)
    lam = np.sort(g.normal(size=(n, n, n, 3)), -1)
    mesh = Mesh.new(n, L)
    c = TidalClassifier(lam, mesh)
    h = L / n
    u = g.uniform(-n, 2 * n, (m, 3))
    k = g.random(u.shape) < .3
    u[k] = np.round(u[k]) + .5 + g.choice([-1, 1], int(k.sum())) * 10. ** g.uniform(-10, -2, int(k.sum()))
    x = u * h
    i = np.round(u).astype(int) % n
    want = (lam > 0).sum(-1)
    eq_arr(c.web_type_at(x), want[tuple(i.T)], 'web type at positions')
    close(c.lam_at(x), lam[tuple(i.T)], 1e-6, 1e-30, 'eigenvalues at positions')
    a = g.normal(size=(n, n, n))
    lo = np.floor(u)
    ref = np.zeros(m)
    for o in np.ndindex(2, 2, 2):
        q = lo + o
        ref += np.prod(1 - np.abs(u - q), -1) * a[tuple((q.astype(int) % n).T)]
    close(FieldInterpolator(Field.new_by_data(a, mesh)).value_at(x), ref, 0, 1e-9, 'interpolated values')
    return True
