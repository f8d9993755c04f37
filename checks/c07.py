"""C07: structured representations; see c07_objects for the package's own objects."""
import ast
import json
import pathlib
import yaml
from lib.harness import *
from pyhipp.core import DataDict
from pyhipp.core.abc import HasSimpleRepr, HasDictRepr, HasListRepr
from pyhipp.core.arrays import Array, IntArray, DType

ck = Check('C07', 'Trees of objects whose classes are generated (dict- and list-like representations, type string on or off, any attribute '
           'names, nested objects and hierarchical dictionaries to depth 3) plus instances of the package\'s own classes over '
           'generated constructor arguments. Non-trivial: at least one nested representable object and three attributes.')

aname = st.sampled_from(['a', 'b', '_a', '__b', 'A', 'a_', 'value', 'n', 'type_', '_private', 'x1', 'z', 'name', '_name'])
leafj = st.one_of(st.integers(-10**6, 10**6), st.floats(allow_nan=False, allow_infinity=False, width=32), st.none(), st.booleans(),
                  st.text('ab cé"\'\n:', max_size=6), st.lists(st.integers(0, 9), max_size=3),
                  st.dictionaries(st.sampled_from(['p', 'q']), st.integers(0, 9), max_size=2))
attrs = lambda ch: st.lists(st.tuples(aname, ch), max_size=4, unique_by=lambda t: t[0])  # noqa
node = lambda ch: st.tuples(st.sampled_from('DDLM'), st.sampled_from([None, True, False]), attrs(ch),  # noqa
                            st.sampled_from(['Foo', 'Bar', 'X']), st.booleans())
leaf = leafj.map(lambda v: ('v', v))
n1 = node(leaf)
n2 = node(pick(leaf, (2, n1)))
n3 = node(pick(leaf, n1, (2, n2)))


POOL: dict = {}


def build(s):
    if s[0] == 'v':
        return s[1], s[1]
    k, en, at, cname, extra = s
    vals = [(n, *build(x)) for n, x in at]
    if k == 'M':
        return DataDict({n: a for n, a, _ in vals}), {n: b for n, _, b in vals}
    base = HasDictRepr if k == 'D' else HasListRepr
    body = dict(repr_attr_keys=tuple(n for n, _ in at))
    if en is not None:
        body['repr_enable_type_string'] = en
    if cname == 'X':                # one class (with subclasses) for objects at every depth
        root = POOL.setdefault(k, type('Root', (base,), {}))
        cls = POOL.setdefault((k, en), type('X', (root,), {} if en is None else dict(repr_enable_type_string=en)))
        o = cls()
        o.repr_attr_keys = body['repr_attr_keys']
    else:
        cls = type(cname, (base,), body)
        o = cls()
    if extra:
        o.undeclared = object()
    for n, a, _ in vals:
        setattr(o, n, a)
    show = en if en is not None else (k == 'D')
    if k == 'D':
        ref = {'type': cname} if show else {}
        ref.update({n: b for n, _, b in vals})
    else:
        ref = tuple(([cname] if show else []) + [b for _, _, b in vals])
    return o, ref


def order(x):
    if isinstance(x, dict):
        return [(k, order(v)) for k, v in x.items()]
    if isinstance(x, (tuple, list)):
        return [order(v) for v in x]
    return None


def listify(x):
    if isinstance(x, dict):
        return {k: listify(v) for k, v in x.items()}
    return [listify(v) for v in x] if isinstance(x, (tuple, list)) else x


def nested(s):
    return s[0] != 'v'


@ck.test(examples=1500, s=n3, indent=st.sampled_from([None, 2, 4]))
def generated(s, indent):
    o, ref = build(s)
    r = o.to_simple_repr()
    assert r == ref and type(r) is type(ref), (r, ref)
    assert order(r) == order(ref), 'order of attributes'
    t = ast.literal_eval(repr(o))
    assert t == ref and order(t) == order(ref), f'printed form {t} != {ref}'
    kw = {} if indent is None else dict(indent=indent)
    y = o.to_yaml(**kw)
    assert isinstance(y, str) and yaml.load(y, Loader=yaml.Loader) == ref, y
    j = o.to_json(**kw)
    assert json.loads(j) == json.loads(json.dumps(ref)) and json.loads(j) == listify(ref), j
    assert order(json.loads(j)) == order(listify(ref))
    if indent is not None and len(ref):
        assert '\n' in j and '\n' not in o.to_json()
    ys = o.to_yaml(sort_keys=False)
    assert order(yaml.load(ys, Loader=yaml.Loader)) == order(ref), 'YAML order'
    return len(s[2]) >= 2 and any(nested(x) for _, x in s[2])


@ck.test(examples=200, miss=aname, kind=st.sampled_from([HasDictRepr, HasListRepr]), kw=st.booleans())
def missing_attr(miss, kind, kw):
    o = type('T', (kind,), dict(repr_attr_keys=('a0', miss)))()
    o.a0 = 1
    raises(AttributeError, o.to_simple_repr)
    setattr(o, miss, 2)
    r = o.to_simple_repr()
    assert (r == {'type': 'T', 'a0': 1, miss: 2}) if kind is HasDictRepr else (r == (1, 2)), r
    return True


@ck.test(examples=100, bad=st.sampled_from([{1, 2}, object(), b'x', 1j, np.float64, {(1, 2): 3}]), depth=st.integers(0, 2), kind=st.sampled_from([HasDictRepr, HasListRepr]), val=leafj)
def no_json(bad, depth, kind, val):
    """What JSON can not hold is an error there, never another value; the other renderings still describe it."""
    o = bad
    for i in range(depth + 1):
        n = type('T', (kind,), dict(repr_attr_keys=('v', 'w')))()
        n.v, n.w, o = val, o, n
    raises(TypeError, o.to_json), raises(TypeError, o.to_json, indent=2)
    if isinstance(bad, dict):
        return depth > 0
    assert o.to_json(default=lambda v: 'Q').count('"Q"') >= 1 and repr(bad) in repr(o).replace('\n', ' '), repr(o)
    return depth > 0


@ck.test(examples=100, shape=st.sampled_from([(), (3,), (2, 2)]), dt=st.sampled_from(['f8', 'i4', '?']))
def arrays(shape, dt):
    data = np.arange(int(np.prod(shape))).reshape(shape).astype(dt)
    a = Array(data)
    r = a.to_simple_repr()
    assert r['type'] == 'Array' and r['n_dims'] == len(shape) and tuple(r['shape']) == shape and r['dtype'] == str(data.dtype)
    eq_arr(r['data'], data)
    assert repr(a)
    d = DType(dt).to_simple_repr()
    assert d['type'] == 'DType' and d['size'] == data.dtype.itemsize and d['alignment'] == data.dtype.alignment
    assert repr(DType(dt))
    return len(shape) > 0


# ---------------------------------------------------------------- the package's own objects
from pyhipp.core.dataproc.grid import Grid1d, GridMd  # noqa
from pyhipp.stats import binning, kernel, reduction, preprocessing, summary  # noqa
from pyhipp.field.cubic_box.mesh import Mesh  # noqa
from pyhipp.field.cubic_box.cosmic_web import TidalClassifier  # noqa
from pyhipp.field.neighbor.kd_tree import PE  # noqa
from pyhipp.group_theory import point_group as pg  # noqa
from pyhipp.astro.cosmology.param import Param, ParamList  # noqa
from pyhipp.astro.cosmology.model import LambdaCDM, predefined as cosmologies  # noqa
from pyhipp.astro.quantity.unit_system import UnitSystem  # noqa
from pyhipp.io.binary.fortran import BinaryFile  # noqa
from pyhipp.io.h5.utils import KeyList  # noqa
from pyhipp.plot.two_dim import Histogram2D  # noqa


def same(a, b):
    """Equal structure, values and order."""
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, np.ndarray) or isinstance(a, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-12, equal_nan=True)
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(b, float) or isinstance(b, np.floating):
        return abs(float(a) - float(b)) <= 1e-10 * max(1., abs(float(b)))
    return a == b


def rendered(o, ref):
    r = o.to_simple_repr()
    assert same(r, ref), f'{type(o).__name__}: {short(r)} != {short(ref)}'
    t = repr(o)
    assert isinstance(t, str)
    for k in (ref if isinstance(ref, dict) else ()):
        assert k in t, f'{k} not printed in {short(t)}'
    return r


xs_ = sized_lists(st.floats(-100, 100, width=32), 2, 8)


@ck.test(examples=300, xs=xs_, ys=xs_, nb=st.integers(1, 20), w=st.floats(.01, 50), shape=st.sampled_from([(), (2,)]),
         which=st.sampled_from(['B', 'H']), equal=st.booleans())
def grids_bins(xs, ys, nb, w, shape, which, equal):
    xs, ys = np.sort(xs), np.sort(ys)
    rendered(Grid1d(xs), dict(type='Grid1d', locs=xs))
    rendered(GridMd(xs, ys), dict(type='GridMd', n_dims=2, n_locs=(len(xs), len(ys)), locs_1d=(xs, ys)))
    if equal:
        b = binning.EqualSpaceBins((xs[0], xs[0] + w), nb)
        lo, hi = float(xs[0]), float(xs[0] + w)
        rb = dict(type='EqualSpaceBins', x_range=(lo, hi), n_bins=nb, x_span=hi - lo, x_step=(hi - lo) / nb)
        x_e = np.linspace(lo, hi, nb + 1)
    else:
        b = binning.BiSearchBins(xs)
        rb = dict(type='BiSearchBins', x_edges=xs, n_bins=len(xs) - 1, x_span=xs[-1] - xs[0],
                  x_step_mean=float((xs[-1] - xs[0]) / (len(xs) - 1)))
        x_e = xs
    rendered(b, rb)
    n = len(x_e) - 1
    if which == 'B':
        d = binning.BinnedData(b, shape=shape)
        rendered(d, dict(type='BinnedData', bins=rb, data=np.zeros((n,) + shape)))
    else:
        d = binning.BinnedData(b)
        d.add(np.array([0.5 * (x_e[0] + x_e[1])]))
        rendered(d, dict(type='BinnedData', bins=rb, data=d.data))
    return n > 1


@ck.test(examples=200, xs=xs_, v=st.floats(.01, 10), fill=st.sampled_from([-1., 0., 7.]), srt=st.booleans(),
         ps=st.sampled_from(sorted(reduction.Quantile.ps_map)),
         red=st.sampled_from(['mean+sd', 'median+1sigma', 'median+3sigma']))
def statistics(xs, v, fill, srt, ps, red):
    rendered(kernel.Gaussian(v), dict(type='Gaussian', sigma=v))
    rendered(kernel.Tophat(v), dict(type='Tophat', radius=v))
    for k in ('count', 'sum', 'mean', 'std_dev'):
        o = reduction.predefined[k](fill)
        rendered(o, dict(type=type(o).__name__, key=k, empty_fill=np.array(fill)))
    for p in (ps, [.1, .7]):
        q = reduction.Quantile(p, sort=srt)
        rendered(q, dict(type='Quantile', ps=np.array(reduction.Quantile.ps_map[p] if isinstance(p, str) else p), sort=srt))
    rendered(reduction.Median(sort=srt), dict(type='Median', sort=srt))
    rendered(reduction.Errorbar(red), dict(type='Errorbar', reduce=red))
    x = np.array(xs, float)
    s = summary.SummaryFloatArray1D(x)
    rendered(s, {'type': 'SummaryFloatArray1D', 'size': len(x), 'mean': x.mean(), 'stddev': x.std(), 'median': np.median(x),
                 '_1sigma': np.quantile(x, [.16, .84]), '_2sigma': np.quantile(x, [.025, .975]),
                 '_3sigma': np.quantile(x, [.005, .995])})
    x2 = np.column_stack([x, 2 * x + 1])
    rendered(preprocessing.Standardize(x2, sd_lb=v),
             dict(type='Standardize', mean=x2.mean(0), sd=np.maximum(x2.std(0), v), sd_lb=v))
    return len(x) > 2


@ck.test(examples=100, n=st.integers(1, 4), L=st.floats(.1, 100), th=st.floats(-1, 1), seed=bits64, w=st.integers(1, 3))
def fields(n, L, th, seed, w):
    m = Mesh.new(n, L)
    rm = dict(type='Mesh', n_grids=n, l_box=L, l_grid=L / n)
    rendered(m, rm)
    rng = rng_of(seed)
    lam = np.sort(rng.normal(size=(n, n, n, 3)).astype('f4'), axis=-1)
    c = TidalClassifier(lam, m, lam_th=th)
    r = c.to_simple_repr()
    assert list(r) == ['type', 'mesh', 'lam_th', 'web_types', 'f_knot', 'f_filament', 'f_sheet', 'f_void'], list(r)
    assert r['type'] == 'TidalClassifier' and same(r['mesh'], rm) and r['lam_th'] == th, 'nested mesh not expanded'
    assert dict(r['web_types'], knot=3, filament=2, sheet=1, void=0) == r['web_types']
    cnt = (lam > th).sum(-1)
    for k, i in (('knot', 3), ('filament', 2), ('sheet', 1), ('void', 0)):
        assert abs(r['f_' + k] - np.mean(cnt == i)) < 1e-12, k
    repr(c)
    rendered(PE(rng.random((5, 3)) * .999 * L, L, n_workers=w), dict(type='PE', l_box=L, n_workers=w))
    x = [0., 1.]
    rendered(Histogram2D(n, x, (0., L), (th, th + 1), 'fixed'),
             dict(type='Histogram2D', x_bins=n, y_bins=x, x_range=(0., L), y_range=(th, th + 1), out_of_range='fixed'))
    return n > 1


@ck.test(examples=60, thorough=400, h=st.floats(.4, 1.), om=st.floats(.1, .6), ob=st.floats(.02, .09),
         name=st.sampled_from(['a', 'model 1', 'é']), meta=st.dictionaries(st.sampled_from('pq'), st.integers(0, 3)),
         vals=st.lists(st.one_of(st.floats(-9, 9), st.lists(st.integers(0, 9), min_size=1, max_size=3)), max_size=4),
         keys=st.lists(st.text('abc/', min_size=1, max_size=4), max_size=4, unique=True), grp=st.sampled_from(['2d', '3d']),
         mode=st.sampled_from(['rb', 'r+b']))
def configs(h, om, ob, name, meta, vals, keys, grp, mode):
    pl = ParamList([Param(v, f'p{i}') for i, v in enumerate(vals)])
    rp = [dict(name=f'p{i}', value=v) for i, v in enumerate(vals)]
    rendered(pl, rp)
    assert json.loads(pl.to_json()) == rp and yaml.safe_load(pl.to_yaml()) == rp
    m = LambdaCDM.from_parameters({'hubble': h, 'omega_m0': om, 'omega_l0': 1 - om, 'omega_b0': ob, 't_cmb': 2.7}, meta=meta, name=name)
    r = m.to_simple_repr()
    assert list(r) == ['name', 'data_dir', 'meta', 'params'], list(r)
    assert r['name'] == name and r['meta'] == meta
    got = {p['name']: p['value'] for p in r['params']}
    for k, v in dict(hubble=h, omega_m0=om, omega_b0=ob).items():
        assert same(float(np.ravel(got[k])[0]), v), (k, got)
    assert ast.literal_eval(repr(m)) == r and json.loads(m.to_json()) == r
    assert 'models' in repr(cosmologies)
    r = cosmologies.to_simple_repr()
    assert same(r['models']['tng'], cosmologies['tng'].to_simple_repr())
    u = UnitSystem.create_for_cosmology(h)
    assert list(u.to_simple_repr()) == ['u_l', 'u_t', 'u_m', 'u_v'] and 'u_l' in repr(u)
    g = pg.Group.create(grp)
    rendered(g, [dict(mat=o.mat) for o in g])
    kl = KeyList(keys)
    rendered(kl, tuple(keys))
    assert ast.literal_eval(repr(kl)) == tuple(keys)
    with scratch() as d:
        p = pathlib.Path(d) / 'f.bin'
        p.write_bytes(b'1234')
        with BinaryFile(p, mode) as f:
            r = f.to_simple_repr()
            assert r['type'] == 'BinaryFile' and p in r.values() and mode in r.values(), r
            assert 'f.bin' in repr(f)
    return len(vals) > 1 or len(meta) > 0
