"""Generators and helpers for HDF5 checks."""
from .harness import *
import h5py
from collections import ChainMap, OrderedDict, defaultdict
from collections.abc import Mapping
from types import MappingProxyType

hname = pick((4, st.sampled_from(['a', 'b', 'c', 'pos', 'x1'])),
             st.text(st.characters(codec='utf-8', exclude_characters='/.\x00', exclude_categories=('Cs', 'Cc')), min_size=1, max_size=5),
             st.sampled_from(['a b', 'é', 'A', 'pos_2', '0', 'data.v1', '[x]', ' ', ' a', 'a ', '_a', '-1', 'a\\b']))
DTYPES = ['f8', 'f4', 'f2', 'i8', 'i4', 'i2', 'i1', 'u8', 'u4', 'u1', '?', 'c16', 'c8', 'S4', '>i4', '>f8']
SHAPES = [(), (0,), (1,), (3,), (5,), (2, 3), (3, 0), (2, 1, 2)]
# ('arr', dtype, shape, seed, order)
arr_spec = st.tuples(st.just('arr'), st.sampled_from(DTYPES), st.sampled_from(SHAPES), st.integers(0, 99), st.sampled_from('CFs'))
txt = st.text(st.characters(codec='utf-8', exclude_characters='\x00', exclude_categories=('Cs',)), max_size=6)
leaf_spec = pick((3, arr_spec),
                 st.tuples(st.just('py'), st.one_of(st.integers(-2**62, 2**62), st.floats(allow_nan=True), st.booleans(),
                                                    st.complex_numbers(allow_nan=False, max_magnitude=1e6))),
                 st.tuples(st.just('np'), st.sampled_from(DTYPES[:13]), st.integers(0, 99)),
                 st.tuples(st.just('str'), txt),
                 st.tuples(st.just('bytes'), txt.map(lambda s: s.encode())))


def value(spec):
    t = spec[0]
    if t in ('py', 'str', 'bytes'):
        return spec[1]
    if t == 'np':
        return value(('arr', spec[1], (), spec[2], 'C'))[()]
    _, dt, shape, s, order = spec
    n = int(np.prod(shape))
    v = (np.arange(n) * 7 + s) % 19
    if 'S' in dt:
        a = np.array([b'abcd'[:int(x) % 5] for x in v], dtype=dt)
    elif dt == '?':
        a = v % 2 == 0
    elif dt.strip('<>')[0] in 'fc':
        a = (v / 4 - 2).astype(dt)
        if n and s % 7 == 0:
            a.flat[0] = [np.nan, np.inf, -np.inf, -0.][s // 7 % 4]
        if dt[0] == 'c':
            a = (a * (1 - 2j)).astype(dt)   # (non-finite parts included)
    else:
        a = v.astype(dt)
        if n and s % 5 == 0:
            a.flat[0] = np.iinfo(dt).max if s % 2 else np.iinfo(dt).min
    a = a.reshape(shape)
    if order == 'F':
        a = np.asfortranarray(a)
    elif order == 's' and a.ndim:
        b = np.zeros((2 * len(a),) + a.shape[1:], dtype=a.dtype)
        b[::2] = a
        a = b[::2]
    return a


def loaded(spec):
    """What loading a dataset holding value(spec) returns."""
    v = value(spec)
    if isinstance(v, str):
        return v.encode()
    if isinstance(v, bytes):
        return v
    return np.asarray(v)[()]


def same_val(got, ref, tag):
    if isinstance(ref, bytes) and not isinstance(ref, np.generic):
        assert isinstance(got, bytes) and got == ref, f'{tag}: {got!r} != {ref!r}'
        return
    g, r = np.asarray(got), np.asarray(ref)
    if r.ndim:
        assert isinstance(got, np.ndarray), f'{tag}: {type(got)}'
    assert g.shape == r.shape, f'{tag}: shape {g.shape} != {r.shape}'
    if r.ndim or r.dtype.kind != 'S':       # (a scalar byte string does not carry its width)
        assert g.dtype == r.dtype, f'{tag}: dtype {g.dtype} != {r.dtype}'
    eq_arr(g, r, tag)


# nested mapping: ('map', kind, [(name, spec)])
def mapping(child, lo=0, hi=4):
    return st.tuples(st.just('map'), st.sampled_from(['dict', 'dict', 'DataDict', 'DataDict', 'OrderedDict', 'defaultdict', 'proxy', 'custom', 'chain']),
                     st.lists(st.tuples(hname, child), min_size=lo, max_size=hi, unique_by=lambda t: t[0]))


map1 = mapping(leaf_spec)
map2 = mapping(pick((2, leaf_spec), map1))
map3 = mapping(pick((2, leaf_spec), map1, (2, map2)), 1, 5)


class ReadOnlyMap(Mapping):
    """A mapping with the minimal interface."""

    def __init__(self, d):
        self._it = tuple(d.items())

    def __getitem__(self, k):
        for n, v in self._it:
            if n == k:
                return v
        raise KeyError(k)

    def __len__(self):
        return len(self._it)

    def __iter__(self):
        return iter([n for n, _ in self._it])


def as_mapping(d, kind):
    if kind == 'DataDict':
        from pyhipp.core import DataDict
        return DataDict(d)
    return {'dict': dict, 'OrderedDict': OrderedDict, 'proxy': MappingProxyType, 'custom': ReadOnlyMap,
            'defaultdict': lambda d: defaultdict(int, d),
            'chain': lambda d: ChainMap(dict(list(d.items())[:1]), dict(list(d.items())[1:]))}[kind](d)


def build(spec):
    if spec[0] != 'map':
        return value(spec)
    return as_mapping({k: build(s) for k, s in spec[2]}, spec[1])


def expect(spec):
    if spec[0] != 'map':
        return loaded(spec)
    return {k: expect(s) for k, s in spec[2]}


def same_tree(got, ref, tag=''):
    if isinstance(ref, dict):
        assert isinstance(got, Mapping), f'{tag}: {type(got)} is not a mapping'
        assert sorted(got) == sorted(ref), f'{tag}: names {sorted(got)} != {sorted(ref)}'
        for k in ref:
            same_tree(got[k], ref[k], f'{tag}/{k}')
    else:
        assert not isinstance(got, Mapping), f'{tag}: a mapping instead of a value'
        same_val(got, ref, tag)


def raw_tree(g):
    """Read a group with h5py alone."""
    out = {}
    for k in g.keys():
        v = g[k]
        out[k] = raw_tree(v) if isinstance(v, h5py.Group) else v[()]
    return out


def walk(ref, pre=()):
    for k, v in ref.items():
        yield pre + (k,), v
        if isinstance(v, Mapping):
            yield from walk(v, pre + (k,))


def subtree(ref, path):
    for k in path:
        ref = ref[k]
    return ref
