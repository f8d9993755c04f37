"""B02: layered configuration files."""
import contextlib
import io
from lib.harness import *
from pyhipp.io.yaml import ConfigFileParser
from pyhipp.core import DataDict
import yaml

ck = Check('B02', 'Documents with 0-3 outer nodes and 0-4 layers, each layer setting a random subset of options (falsy values, lists, mappings '
           'included); optional missing nodes or options. Non-trivial: an option set by at least two layers, or a missing node or option.')
OPT = ['a', 'b', 'mass', 'snap', 'a b', 'é']
val = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-99, 99), st.floats(-5, 5), st.sampled_from(['', 'x', 'yes', '0', 'a: b', '- c', '1e3'])),
                   lambda c: st.lists(c, max_size=3) | st.dictionaries(st.sampled_from(OPT), c, max_size=3), max_leaves=5) | st.sampled_from([0, False, 0., 1, True, 1., [1], [True], [0.], {'a': 0}, {'a': False}])      # (the latter are equal with another type)
layer = st.dictionaries(st.sampled_from(OPT), val, max_size=5)
name = st.sampled_from(['run', 'z0', 'z1', 'hi', 'lo', 'node', 'a', 'b', 'mass'])      # a node may be asked for as an option, too


@ck.test(examples=2500, shards=2, outer=sized_lists(st.tuples(name, layer), 0, 3), layers=sized_lists(st.tuples(name, layer), 0, 4), root=layer,
         keys=st.lists(st.sampled_from(OPT), max_size=5), sib=layer, order=bits64, asseq=st.sampled_from(['list', 'tuple', 'iter']),
         miss=st.sampled_from([None, None, None, 'init', 'nested', 'nested', 'empty']), verbose=st.sampled_from([None, False, True]), path=st.booleans())
def resolve(outer, layers, root, keys, sib, order, asseq, miss, verbose, path):
    """outer nodes only locate the base; the base and each nested node override in turn."""
    def add(d, k, v):
        """put node k in layer d, at a generated position"""
        its = [(x, y) for x, y in d.items() if x != k]
        its.insert(order % (len(its) + 1), (k, v))
        return dict(its)
    base = dict(root)
    chain = [base] + [dict(x) for _, x in layers]
    for i in range(len(layers) - 1, -1, -1):
        chain[i] = add(chain[i], layers[i][0], chain[i + 1])
    if layers:
        chain[0] = add(chain[0], 'sibling', dict(sib))
    doc = chain[0]
    for k, o in reversed(outer):
        doc = add({'other': dict(sib), **o}, k, doc)
    init, nested = [k for k, _ in outer], [k for k, _ in layers]
    if miss == 'empty' and not (layers or outer):
        miss = None
    if miss == 'empty':
        # the innermost node holds nothing at all, and what it must contain is asked for
        def hollow(d, ks):
            return {**d, ks[0]: hollow(d[ks[0]], ks[1:])} if ks else None
        doc = hollow(doc, init + nested)
        nested = nested + ['absent!']
    elif miss == 'init':
        init = init + ['absent!']
    elif miss == 'nested':
        nested = nested[:order % (len(nested) + 1)] + ['absent!'] + nested[order % (len(nested) + 1):]
    # reference: the last layer that sets an option wins
    seen = []
    for k in keys:
        if k not in seen:
            seen.append(k)
    want, setby = {}, {}
    for c in chain:
        for k in seen:
            if k in c:
                want[k] = c[k]
                setby[k] = setby.get(k, 0) + 1
    with scratch() as d:
        p = f'{d}/c.yaml'
        txt = yaml.safe_dump(doc, sort_keys=False, allow_unicode=True)
        with open(p, 'w') as f:
            f.write(txt)
        assert yaml.safe_load(txt) == doc
        from pathlib import Path
        conv = dict(list=list, tuple=tuple, iter=iter)[asseq]
        i0, n0 = list(init), list(nested)
        kw = {} if verbose is None else dict(verbose=verbose)
        cp = ConfigFileParser(Path(p) if path else p, i0 if asseq == 'list' else conv(init), n0 if asseq == 'list' else conv(nested), **kw)
        i0 += ['later change']
        n0 += ['later change']
        out = io.StringIO()
        for rep in range(2):
            k0 = list(keys)
            with contextlib.redirect_stdout(out):
                if miss is None and all(k in want for k in seen):
                    got = cp.get(k0)
                    assert isinstance(got, DataDict)
                    gd = dict(got.items())
                    assert sorted(gd) == sorted(seen), f'{sorted(gd)} != {sorted(seen)}'
                    for k in seen:
                        assert gd[k] == want[k] and repr(gd[k]) == repr(want[k]), f'{k}: {gd[k]!r} != {want[k]!r}'
                    # a returned value is the caller's own
                    for k in seen:
                        if isinstance(gd[k], list):
                            gd[k].append('changed')
                else:
                    raises((KeyError, TypeError) if miss == 'empty' else KeyError, cp.get, k0, msg=f'missing={miss}, options {set(seen) - set(want)}')
            assert k0 == list(keys)
        assert bool(out.getvalue()) is bool(verbose), 'logging prints exactly when verbose'
        with open(p) as f:
            assert f.read() == txt, 'the file changed'
        raises(OSError, ConfigFileParser(f'{d}/none.yaml', [], []).get, [])
    ck.label('missing' if miss else 'option missing' if len(want) < len(seen) else 'resolved')
    return miss is not None or len(want) < len(seen) or any(v > 1 for v in setby.values())
