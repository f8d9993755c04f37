"""P01: plot formatting and layout."""
import copy
import matplotlib as mpl
import matplotlib.pyplot as plt
from matplotlib.markers import MarkerStyle
from matplotlib.colors import to_rgba
from lib.harness import *
from pyhipp import plot
from pyhipp.plot import artist_formatter as af
from pyhipp.plot.runtime_config import RuntimeConfig
from pyhipp.plot.axes import PlotFmts

ck = Check('P01', 'Histories of up to 10 updates of formatters of every kind and of runtime configurations, layouts of 1-3 by 1-3 subplots or sub-figures with every form of sharing, extents, margins, spaces and ratios, '
           'and axes formatted at figure, axes and call level. Non-trivial: at least two effective updates, or a layout with more than one row or column and a non-default option.')
KINDS = dict(marker=(af.MarkerFormatter, dict(style='o', s=10, ec='k', fc='k', ea=1., fa=.3, elw=1.)), line=(af.LineFormatter, dict(c='k', a=1., lw=2.5, ls='-')),
             errorbar=(af.ErrorBarFormatter, dict(c='k', a=1., lw=1, capsize=4, capthick=1)), fill=(af.FillFormatter, dict(fc='k', ec='k', fa=.2, ea=1, lw=1, ls='-')),
             text=(af.TextFormatter, dict(use_tex=True, c='k', a=1., s=15)), frame=(af.FrameFormatter, dict.fromkeys(('lim', 'label', 'scale', 'ticks', 'ticklabels', 'tick_params', 'label_outer'))))
color = st.sampled_from(['k', 'red', 'C1', '#10aaee', '.5']) | st.tuples(*[st.integers(0, 10).map(lambda v: v / 10)] * 3)
alpha = st.integers(0, 10).map(lambda v: v / 10)
value = {'c': color, 'fc': color, 'ec': color, 'a': alpha, 'fa': alpha, 'ea': alpha, 'use_tex': st.booleans()}
UNKNOWN = ['color', 'Lw', 'zz', 'linewidth', 'x', '']


def opts(kind, max_size=4):
    keys = sorted(KINDS[kind][1])
    return sized_lists(st.sampled_from(keys).flatmap(lambda k: st.tuples(st.just(k), value.get(k, st.integers(0, 9)))), 0, max_size).map(dict)


def ops(kind):
    o = [st.tuples(st.just('set'), opts(kind, 1)), st.tuples(st.just('ior'), opts(kind)), st.tuples(st.just('upd'), opts(kind), opts(kind), opts(kind)),
         st.tuples(st.just('bad'), st.sampled_from([u for u in UNKNOWN if u not in KINDS[kind][1]]), st.sampled_from(['set', 'ior', 'upd', 'kw', 'get', 'mix', 'mixkw', 'tuple']), st.sampled_from(sorted(KINDS[kind][1])))]
    if kind != 'frame':
        o.append(st.tuples(st.sampled_from(['c', 'fc', 'ec']), st.none() | color, st.none() | alpha))
    return sized_lists(st.one_of(*o), 0, 10)


@ck.test(examples=2500, shards=3, case=st.sampled_from(sorted(KINDS)).flatmap(lambda k: st.tuples(st.just(k), opts(k), ops(k))), text=st.text('abc$_{}', max_size=5))
def formatter(case, text):
    kind, init, hist = case
    cls, dflt = KINDS[kind]
    other, F = cls(), cls(**init)
    M = dict(dflt, **init)
    n = 0
    has = {'marker': ('fc', 'ec'), 'fill': ('fc', 'ec'), 'line': ('c',), 'errorbar': ('c',), 'text': ('c',), 'frame': ()}[kind]
    pairs = {'c': ('c', 'a'), 'fc': ('fc', 'fa'), 'ec': ('ec', 'ea')}
    for o in hist:
        k = o[0]
        if k == 'set':
            for a, b in o[1].items():
                F[a] = b
                M[a] = b
        elif k == 'ior':
            d = dict(o[1])
            F |= d
            M.update(d)
            assert d == o[1]
        elif k == 'upd':
            assert F.update(o[1], o[2], **o[3]) is F
            for d in o[1:]:
                M.update(d)
        elif k == 'bad':
            u = o[1]
            f = {'set': lambda: F.__setitem__(u, 1), 'ior': lambda: F.__ior__({u: 1}), 'upd': lambda: F.update({u: 1}), 'kw': lambda: F.update(**{u: 1}), 'get': lambda: F[u],
                 'mix': lambda: F.update({o[3]: M[o[3]], u: 1}), 'mixkw': lambda: F.update({o[3]: M[o[3]]}, **{u: 1, o[3]: M[o[3]]}), 'tuple': lambda: F[o[3], u]}[o[2]]
            raises(KeyError, f, msg=f'unknown option {u!r}')
        elif hasattr(F, k):
            assert getattr(F, k)(o[1], o[2]) is F
            for q in has if k == 'c' else (k,):
                cn, an = pairs[q]
                if o[1] is not None:
                    M[cn] = o[1]
                if o[2] is not None:
                    M[an] = o[2]
            n += 1
        n += k in ('set', 'ior', 'upd') and any(o[1:])
        for a, b in M.items():
            assert F[a] == b, f'{a}: {F[a]!r} != {b!r}'
        ks = tuple(M)
        assert F[ks] == tuple(M.values())
        for q in has:
            cn, an = pairs[q]
            assert getattr(F, 'get_' + q)().get_rgba() == to_rgba(M[cn], M[an]), f'{q} of {M}'
    for a, b in dflt.items():
        assert other[a] == b and cls()[a] == b, f'default of {a} changed'
    if kind == 'text':
        assert F.wrap_text(text) == (f'${text}$' if M['use_tex'] else text)
    raises(TypeError, lambda: cls(**{'nope': 1}))
    return n > 1


lohi = st.tuples(st.integers(1, 4), st.integers(1, 4)).map(lambda t: (t[0] / 20, t[1] / 20))
frac = st.integers(1, 8).map(lambda v: v / 20)
extent = st.none() | st.just(('four', (.95, .9, .1, .2))) | st.tuples(st.just('two'), st.tuples(st.integers(0, 4).map(lambda v: v / 20), st.integers(12, 20).map(lambda v: v / 20))) | st.tuples(st.just('four'), st.tuples(*[st.integers(12, 20).map(lambda v: v / 20)] * 2, *[st.integers(0, 8).map(lambda v: v / 20)] * 2))
frac0 = frac | st.sampled_from([0., 0, .05])
margin = st.none() | st.tuples(st.just('one'), frac0) | st.tuples(st.just('two'), st.tuples(frac0, frac0)) | st.tuples(st.just('four'), st.tuples(frac0, frac0, frac0, frac0))
space = st.none() | st.sampled_from([0., .1, .3]) | st.tuples(st.sampled_from([0., .1, .4]), st.sampled_from([0., .2, .5]))
share = st.sampled_from([True, False, 'row', 'col', 'all', 'none', (True, False), (False, True), ('col', 'row'), ('row', 'col'), (True, True)])
nn = st.integers(1, 4) | st.tuples(st.integers(1, 3), st.integers(1, 3))
size = st.none() | st.integers(2, 6) | st.tuples(st.integers(2, 6), st.integers(2, 6))


def n2(n):
    return n if isinstance(n, tuple) else (1, n)


def groups(axs, which):
    R, C = len(axs), len(axs[0])
    flat = [a for r in axs for a in r]
    return [[(getattr(a, f'get_shared_{which}_axes')().joined(a, b)) for b in flat if b is not a] for a in flat]


def want_group(s, R, C):
    s = {True: 'all', False: 'none'}.get(s, s)
    ij = [(i, j) for i in range(R) for j in range(C)]
    return [[s == 'all' or (s == 'row' and a[0] == b[0]) or (s == 'col' and a[1] == b[1]) for b in ij if b != a] for a in ij]


@ck.test(examples=900, thorough=15000, shards=6, n=nn, share=share, extent=extent, margin=margin, space=space, ratios=st.booleans(), figsize=size, subsize=size, dpi=st.none() | st.sampled_from([50, 120]), rs=bits64, layout=st.sampled_from([None, None, 'constrained', 'tight', 'none']), proj=st.booleans(), gk=st.booleans())
def layout(n, share, extent, margin, space, ratios, figsize, subsize, dpi, rs, layout, proj, gk):
    R, C = n2(n)
    kw, want = dict(n=n), {}
    g = rng_of(rs)
    if share is not False:
        kw['share'] = share
    if extent is not None and margin is None or (extent and rs % 2):
        kw['extent'] = extent[1]
    if margin is not None:
        kw['margin'] = margin[1]
        m = (margin[1],) * 4 if margin[0] == 'one' else (margin[1][1],) * 2 + (margin[1][0],) * 2 if margin[0] == 'two' else margin[1]
        want = dict(top=1 - m[0], right=1 - m[1], bottom=m[2], left=m[3])
    elif extent is not None:
        e = extent[1] if extent[0] == 'four' else (extent[1][1],) * 2 + (extent[1][0],) * 2
        want = dict(zip(('top', 'right', 'bottom', 'left'), e))
    if space is not None:
        kw['space'] = space
    if ratios:
        wr, hr = [float(v) for v in g.integers(1, 5, C)], [float(v) for v in g.integers(1, 5, R)]
        kw['ratios'] = (wr, hr) if rs % 3 else (wr, None)
    if figsize is not None:
        kw['figsize'] = figsize
    if subsize is not None:
        kw['subsize'] = subsize
    if dpi:
        kw['figure_kw'] = dict(dpi=dpi)
    if layout:
        kw['layout'] = layout
    if proj:
        kw['mpl_subplot_kw'] = dict(facecolor='C1')
    if gk and space is not None:
        kw['wspace'] = .7
    saved = copy.deepcopy(kw)
    try:
        fig, ax = plot.subplots(**kw)
        assert kw == saved, 'arguments changed'
        assert isinstance(fig, plot.Figure)
        if R * C == 1:
            assert isinstance(ax, plot.Axes)
            axs = [[ax._raw]]
        else:
            assert isinstance(ax, plot.AxesArray)
            assert ax.shape == ((R, C) if R > 1 and C > 1 else (R * C,)), f'shape {ax.shape} for {n}'
            assert ax.size == R * C == len(ax.to_list()) == len(ax.flat) and len(ax) == ax.shape[0]
            it = iter(ax.to_list())
            axs = [[next(it)._raw for _ in range(C)] for _ in range(R)]
        assert len(fig._raw.axes) == R * C
        for i in range(R):
            for j in range(C):
                sp = axs[i][j].get_subplotspec()
                assert (sp.rowspan.start, sp.colspan.start, sp.rowspan.stop, sp.colspan.stop) == (i, j, i + 1, j + 1), 'position in the grid'
                if proj:
                    assert axs[i][j].get_facecolor() == to_rgba('C1')
        gs = axs[0][0].get_gridspec()
        assert (gs.nrows, gs.ncols) == (R, C)
        sz = (figsize if isinstance(figsize, tuple) else (figsize,) * 2) if figsize is not None else tuple(a * b for a, b in zip((4, 4) if subsize is None else subsize if isinstance(subsize, tuple) else (subsize,) * 2, (C, R)))
        assert tuple(fig._raw.get_size_inches()) == tuple(map(float, sz)), f'{fig._raw.get_size_inches()} != {sz}'
        if dpi:
            assert fig._raw.dpi == dpi
        for k in ('top', 'right', 'bottom', 'left'):
            w = want.get(k)
            v = getattr(gs, k)
            assert (v is None and w is None) or abs(v - w) < 1e-12, f'{k}: {v} != {w}'
        ws, hs = (space, space) if not isinstance(space, tuple) else space
        if gk and space is not None:
            ws = .7
        assert (gs.wspace, gs.hspace) == (ws, hs), 'space'
        if ratios:
            assert list(gs.get_width_ratios()) == wr and list(gs.get_height_ratios()) == (hr if rs % 3 else [1] * R)
        else:
            assert list(gs.get_width_ratios()) == [1] * C and list(gs.get_height_ratios()) == [1] * R
        sx, sy = share if isinstance(share, tuple) else (share, share)
        assert groups(axs, 'x') == want_group(sx, R, C) and groups(axs, 'y') == want_group(sy, R, C), 'shared axes'
        eng = fig._raw.get_layout_engine()
        en = {'tight': 'TightLayoutEngine', 'constrained': 'ConstrainedLayoutEngine', 'none': 'NoneType'}[layout or ('tight' if space is None else 'none')]
        assert type(eng).__name__ == en or (en == 'NoneType' and type(eng).__name__ == 'PlaceHolderLayoutEngine'), f'{type(eng).__name__} for layout={layout}, space={space}'
        # the drawn frames have the requested sizes relative to each other
        if ratios and all(k in want for k in ('left', 'right')) and want['right'] > want['left'] and want['top'] > want['bottom'] and en == 'NoneType':
            w = [axs[0][j].get_position().width for j in range(C)]
            close(np.array(w) / w[0], np.array(wr) / wr[0], 1e-9, msg='widths')
            close(axs[0][0].get_position().x0, want['left'], 1e-9, 1e-12), close(axs[-1][-1].get_position().x1, want['right'], 1e-9, 1e-12)
            close(axs[0][0].get_position().y1, want['top'], 1e-9, 1e-12), close(axs[-1][-1].get_position().y0, want['bottom'], 1e-9, 1e-12)
        return R * C > 1 and len(kw) > 1
    finally:
        plt.close('all')


@ck.test(examples=320, thorough=6000, shards=4, n=nn, space=space, ratios=st.booleans(), figsize=size, subsize=size, rs=bits64, m=st.integers(1, 2), fc=st.none() | color, sub=nn, sh=share)
def subfigures(n, space, ratios, figsize, subsize, rs, m, fc, sub, sh):
    R, C = n2(n)
    kw = dict(n=n)
    g = rng_of(rs)
    wr, hr = [float(v) for v in g.integers(1, 5, C)], [float(v) for v in g.integers(1, 5, R)]
    if ratios:
        kw['ratios'] = wr, hr
    if space is not None:
        kw['space'] = space
    if figsize is not None:
        kw['figsize'] = figsize
    if subsize is not None:
        kw['subsize'] = subsize
    if fc is not None:
        kw['facecolor'] = fc
    try:
        fig, sf = plot.subfigures(**kw)
        sz = (figsize if isinstance(figsize, tuple) else (figsize,) * 2) if figsize is not None else tuple(a * b for a, b in zip((5, 5) if subsize is None else subsize if isinstance(subsize, tuple) else (subsize,) * 2, (C, R)))
        assert tuple(fig._raw.get_size_inches()) == tuple(map(float, sz))
        raws = fig._raw.subfigs
        assert len(raws) == R * C
        for r in raws:
            assert r.get_facecolor() == to_rgba('none' if fc is None else fc)
        gs = raws[0]._subplotspec.get_gridspec()
        ws, hs = (space, space) if not isinstance(space, tuple) else space
        assert (gs.nrows, gs.ncols) == (R, C)
        if space is not None:
            assert (gs.wspace, gs.hspace) == (ws, hs)
        if ratios:
            assert list(gs.get_width_ratios()) == wr and list(gs.get_height_ratios()) == hr
        r2, c2 = n2(sub)
        skw, we, b = {}, {}, int(g.integers(0, 128))      # options of the subplots, the same in every sub-figure
        sr = [[float(v) for v in g.integers(1, 5, k)] for k in (c2, r2)]
        if b & 1:
            skw['extent'] = (.9, .8, .1, .2)
            we = dict(top=.9, right=.8, bottom=.1, left=.2)
        if b & 2:
            skw['space'] = (.3, .6)
        if b & 4:
            skw['ratios'] = tuple(sr)
        if b & 8:
            skw['mpl_subplot_kw'] = dict(facecolor='C1')
        if b & 16:
            skw['margin'] = (.1, .2)
            we = dict(top=.8, right=.8, bottom=.1, left=.1)
        if b & 32:
            skw['wspace'] = .45
        if b >= 120 and R * C == 1:
            one = plot.figure().subplots()
            assert isinstance(one, plot.Axes), 'one subplot without any number given'
        if R * C == 1:
            assert sf._raw is raws[0]
            axs = [sf.subplots(sub, share=sh, **skw)]
        else:
            shape = (R, C) if R > 1 and C > 1 else (R * C,)
            flat = [sf[i, j] for i in range(R) for j in range(C)] if len(shape) == 2 else list(sf)
            assert len(sf) == shape[0] and all(a._raw is b for a, b in zip(flat, raws)), 'order of the sub-figures'
            if len(shape) == 2:
                assert all(x._raw is y._raw for x, y in zip([s for row in sf for s in row], flat))
                assert all(a._raw is b._raw for a, b in zip(sf[:, 0], [sf[i, 0] for i in range(R)]))
            out = sf.subplots(sub, share=sh, **skw)
            assert out.shape == shape
            axs = list(out.flat)
        for a, r in zip(axs, raws):
            l = [a] if r2 * c2 == 1 else a.to_list()
            assert len(l) == r2 * c2 and [x._raw for x in l] == list(r.axes), 'subplots of a sub-figure'
            q = l[0]._raw.get_gridspec()
            assert (q.nrows, q.ncols) == (r2, c2)
            assert {k: getattr(q, k) for k in ('top', 'right', 'bottom', 'left')} == {**dict.fromkeys(('top', 'right', 'bottom', 'left')), **we}, 'extent in a sub-figure'
            assert (q.wspace, q.hspace) == (.45 if b & 32 else .3 if b & 2 else None, .6 if b & 2 else None), 'space in a sub-figure'
            if b & 4:
                assert [list(q.get_width_ratios()), list(q.get_height_ratios())] == sr, 'ratios in a sub-figure'
            assert all(x._raw.get_facecolor() == to_rgba('C1' if b & 8 else 'w') for x in l), 'options of subplots in a sub-figure'
            rows = [[x._raw for x in l[i * c2:(i + 1) * c2]] for i in range(r2)]
            sx, sy = sh if isinstance(sh, tuple) else (sh, sh)
            assert groups(rows, 'x') == want_group(sx, r2, c2) and groups(rows, 'y') == want_group(sy, r2, c2), 'shared axes of a sub-figure'
        return R * C > 1
    finally:
        plt.close('all')


SECT = {'axes': {'labelsize': st.integers(1, 30), 'linewidth': st.integers(0, 5), 'grid': st.booleans()}, 'lines': {'linewidth': st.integers(1, 9), 'markersize': st.integers(1, 9)}, 'font': {'size': st.integers(5, 30)},
        'xtick': {'labelsize': st.integers(1, 30), 'top': st.booleans()}, 'legend': {'frameon': st.booleans(), 'fontsize': st.integers(1, 30)}, 'figure': {'dpi': st.integers(50, 200)}, 'errorbar': {'capsize': st.integers(0, 9)}}
conf = st.integers(1, 3).flatmap(lambda n: st.lists(st.sampled_from(sorted(SECT)), min_size=n, max_size=n, unique=True)).flatmap(lambda ks: st.fixed_dictionaries({k: st.fixed_dictionaries({}, optional=SECT[k]) for k in ks}))
DFLT = copy.deepcopy(RuntimeConfig.default_config_dict)


@ck.test(examples=500, thorough=6000, shards=4, init=st.none() | conf, hist=sized_lists(pick((4, st.tuples(st.just('upd'), st.none() | conf, st.integers(0, 1))), st.tuples(st.just('glob'), st.just(0), st.integers(0, 1)),
                                                                  st.tuples(st.just('style'), st.lists(st.sampled_from(['default', 'mathtext-it']), max_size=2), st.integers(0, 1)), st.tuples(st.just('quiet'), st.lists(st.sampled_from(['default', 'mathtext-it']), max_size=2), st.integers(0, 1))), 0, 8))
def runtime(init, hist):
    """Sections given later replace sections given earlier; applying sets every option and nothing else."""
    with mpl.rc_context():
        C = [RuntimeConfig(copy.deepcopy(init)), RuntimeConfig()]
        M = [dict(DFLT, **(init or {})), dict(DFLT)]
        n = 0
        rc = dict(mpl.rcParams)
        for k, a, i in hist:
            if k == 'upd':
                b = copy.deepcopy(a)
                assert C[i].update(b) is C[i]
                assert a == b, 'options changed'
                M[i].update(a or {})
                n += bool(a)
            elif k == 'glob':
                assert C[i].set_global() is C[i]
            else:
                n += bool(a)
                C[i].use_stylesheets(*a, **({} if k == 'style' and len(a) % 2 else dict(set_global=k == 'style')))
                for s in a:
                    M[i].update(DFLT if s == 'default' else {'mathtext': {'default': 'it'}})
            if k in ('glob', 'style'):
                for sec, d in M[i].items():
                    for q, v in d.items():
                        rc[f'{sec}.{q}'] = v
            for q in (0, 1):
                for sec in M[q]:
                    assert C[q].config_dict[sec] == M[q][sec], f'section {sec}: {C[q].config_dict[sec]} != {M[q][sec]}'
            assert RuntimeConfig.default_config_dict == DFLT, 'defaults changed'
            assert RuntimeConfig().config_dict == DFLT
            for q in ('axes.labelsize', 'axes.linewidth', 'axes.grid', 'lines.linewidth', 'lines.markersize', 'font.size', 'xtick.labelsize', 'xtick.top', 'legend.frameon', 'legend.fontsize', 'figure.dpi', 'errorbar.capsize',
                      'mathtext.default', 'mathtext.fontset', 'ytick.right', 'xtick.major.width', 'xtick.minor.visible', 'figure.subplot.wspace', 'grid.alpha', 'legend.loc'):
                assert mpl.rcParams[q] == rc[q], f'{q}: {mpl.rcParams[q]!r} != {rc[q]!r}'
        return n > 1


FRAME = dict(lim=st.fixed_dictionaries(dict(), optional=dict(x=st.sampled_from([(1., 2.), (.5, 8.)]), y=st.sampled_from([(1., 3.), [2., 9.]]), auto=st.just(False))),
             label=st.fixed_dictionaries(dict(), optional=dict(x=st.sampled_from(['u', 'v']), y=st.sampled_from(['u', 'w']), fontsize=st.integers(5, 9))),
             scale=st.fixed_dictionaries(dict(), optional=dict(x=st.sampled_from(['log', 'linear']), y=st.sampled_from(['log', 'linear']))) | st.fixed_dictionaries(dict(base=st.sampled_from([2, 3, 10.])), optional=dict(x=st.just('log'), y=st.just('log')))
             | st.fixed_dictionaries(dict(base=st.sampled_from([2, 10.]), linthresh=st.sampled_from([.5, 4.])), optional=dict(x=st.just('symlog'), y=st.just('symlog'))),
             ticks=st.fixed_dictionaries(dict(), optional=dict(x=st.just([1., 1.5]), y=st.just([2., 3.]), minor=st.just(False))),
             tick_params=st.fixed_dictionaries(dict(), optional=dict(x=st.sampled_from([dict(direction='out'), dict(which='both', direction='inout'), dict(which='minor', bottom=False)]), y=st.sampled_from([{'direction': 'in'}, {'which': 'both', 'left': False, 'labelsize': 4}]),
                                                             both=st.sampled_from([{'width': 2}, {'which': 'both', 'length': 20.}, {'labelcolor': 'red', 'width': 3}]), pad=st.integers(1, 9))))


def tick_values(axis):
    """None where Matplotlib has none (fixed limits around zero, logarithmic scale)."""
    try:
        return np.asarray(axis.get_ticklocs()).tolist()
    except ValueError:
        return None


@ck.test(examples=250, thorough=5000, shards=2, seq=sized_lists(st.sampled_from(sorted(FRAME)).flatmap(lambda k: st.tuples(st.just(k), FRAME[k])), 1, 5), again=st.booleans())
def frame_options(seq, again):
    """Options given once for a frame serve any number of axes and updates, and are never changed."""
    try:
        fig, axs = plot.subplots(3)
        tick = {(n, w): {} for n in 'xy' for w in ('major', 'minor')}
        for k, d in seq:
            d0 = copy.deepcopy(d)
            if k == 'tick_params':
                general = {n: v for n, v in d.items() if n not in ('x', 'y', 'both')}
                for n, v in d.items():
                    if n in ('x', 'y', 'both'):
                        v = {**general, **v}
                        w = v.pop('which', 'major')
                        for m in 'xy' if n == 'both' else n:
                            for w_ in ('major', 'minor') if w == 'both' else (w,):
                                tick[m, w_].update(v)
            for _ in range(2 if again else 1):
                for a in axs[:2]:
                    assert a.fmt_frame(**{k: d}) is a
                assert axs[:2].fmt(frame={k: d}) is not None
            assert d == d0, f'{k} {d0} became {d}'
            r = [a._raw for a in axs]
            got = [[tuple(a.get_xlim()), tuple(a.get_ylim()), a.get_xlabel(), a.get_ylabel(), a.get_xscale(), a.get_yscale(), tick_values(a.xaxis), tick_values(a.yaxis)] for a in r]
            assert got[0] == got[1], 'the same options on two axes'
            for a in axs[:2]:
                for (n, w), want in tick.items():
                    tp = getattr(a._raw, n + 'axis').get_tick_params(which=w)
                    assert {q: tp.get(q) for q in want} == want, f'{w} ticks of {n}: {tp}, not {want}'
            i = ('lim', 'label', 'scale', 'ticks').index(k) * 2 if k != 'tick_params' else None
            for q, n in enumerate('xy'):
                if i is not None and n in d:
                    w = d[n]
                    assert got[0][i + q] == (tuple(w) if k == 'lim' else w), f'{k} {n}: {got[0][i + q]} != {w}'
                    if k == 'label' and 'fontsize' in d:
                        assert getattr(r[0], n + 'axis').label.get_fontsize() == d['fontsize']
                    if k == 'scale':
                        t = getattr(r[0], n + 'axis').get_transform()
                        assert {q: getattr(t, q) for q in ('base', 'linthresh') if q in d} == {q: d[q] for q in ('base', 'linthresh') if q in d}, f'scale of {n}: {d}'
            assert (r[2].get_xlim(), r[2].get_xlabel(), r[2].get_xscale(), r[2].get_ylabel(), r[2].get_yscale()) == ((0., 1.), '', 'linear', '', 'linear'), 'another axes'
        return len(seq) > 1
    finally:
        plt.close('all')


cspec = st.fixed_dictionaries({}, optional=dict(c=color, a=alpha, fc=color, fa=alpha, ec=color, ea=alpha))


@ck.test(examples=300, thorough=6000, shards=3, m=st.lists(cspec, min_size=1, max_size=3), f=st.lists(cspec, min_size=1, max_size=3), arr=st.booleans(), nest=st.booleans(), style=st.sampled_from(['o', 's', '^']))
def specific(m, f, arr, nest, style):
    """A colour of the face or the edge wins over the general one given with it; both win over earlier ones."""
    try:
        fig, axs = plot.subplots(2)
        t = axs if arr else axs[1]
        M = {'marker': dict(KINDS['marker'][1]), 'fill': dict(KINDS['fill'][1])}
        for kind, seq in (('marker', m), ('fill', f)):
            for d in seq:
                d0 = dict(d)
                x = dict(d, style=style) if kind == 'marker' else d
                r = t.fmt(**{kind: x}) if nest else getattr(t, 'fmt_' + kind)(**x)
                assert r is t and d == d0
                for a, b in (('c', ('fc', 'ec')), ('a', ('fa', 'ea'))):
                    for q in b:
                        if a in d:
                            M[kind][q] = d[a]
                        if q in d:
                            M[kind][q] = d[q]
        for ax in (axs if arr else [axs[1]]):
            ax.scatter([1., 2.], [3., 4.])
            s = ax.last_draw._raw
            eq_arr(s.get_edgecolors()[0], to_rgba(M['marker']['ec'], M['marker']['ea']), 'edge'), eq_arr(s.get_facecolors()[0], to_rgba(M['marker']['fc'], M['marker']['fa']), 'face')
            eq_arr(s.get_paths()[0].vertices, mpl.markers.MarkerStyle(style).get_path().transformed(mpl.markers.MarkerStyle(style).get_transform()).vertices, 'marker')
            ax.scatter([1., 2.], [3., 4.], edgecolors='C5', s=33, marker='D')
            s = ax.last_draw._raw
            eq_arr(s.get_edgecolors()[0], to_rgba('C5'), 'option of the call'), eq_arr(s.get_sizes(), [33])
            ax.fill_between([1., 2.], [3., 4.])
            p = ax.last_draw._raw
            eq_arr(p.get_edgecolor()[0], to_rgba(M['fill']['ec'], M['fill']['ea']), 'edge of a band'), eq_arr(p.get_facecolor()[0], to_rgba(M['fill']['fc'], M['fill']['fa']), 'face of a band')
            ax.fill_between([1., 2.], [3., 4.], fc='C6', lw=7)
            p = ax.last_draw._raw
            eq_arr(p.get_facecolor()[0], to_rgba('C6')), eq_arr(p.get_linewidth(), [7])
            ax.stairs([1., 2.], ec='C6', lw=5)
            p = ax.last_draw._raw
            assert p.get_edgecolor() == to_rgba('C6') and p.get_linewidth() == 5 and p.get_facecolor() == to_rgba(M['fill']['fc'], M['fill']['fa'])
            ax.plot([1., 2.], [3., 4.], mfc='C7', ls='--', ms=3)
            l = ax.last_draw._raw[0]
            assert to_rgba(l.get_markerfacecolor()) == to_rgba('C7') and l.get_linestyle() == '--' and l.get_markersize() == 3 and l.get_marker() == style and to_rgba(l.get_markeredgecolor()) == to_rgba(M['marker']['ec'], M['marker']['ea'])
            ax.errorbar([1., 2.], [3., 4.], yerr=.5, capsize=9, ecolor='C8')
            d, caps, bars = ax.last_draw._raw.lines
            assert caps[0].get_markersize() == 18
            eq_arr(bars[0].get_color()[0], to_rgba('C8'))
            ax.text('q', (.1, .2), color='C4', fontsize=7, va='top', transform=ax._raw.transData)
            x = ax.last_draw._raw
            assert to_rgba(x.get_color()) == to_rgba('C4') and x.get_fontsize() == 7 and x.get_va() == 'top' and x.get_transform() is ax._raw.transData
        return len(m) + len(f) > 2
    finally:
        plt.close('all')


@ck.test(examples=200, thorough=4000, shards=2, fs=size, dpi=st.none() | st.sampled_from([50, 120]), lay=st.sampled_from([None, 'constrained', 'tight', 'none', 'dflt']), fc=st.none() | color, n=st.integers(1, 4), opt=st.sampled_from(['figsize', 'layout', 'facecolor', 'dpi', None]), sub=st.booleans())
def figures(fs, dpi, lay, fc, n, opt, sub):
    """Figures of the requested size; figure options win over the computed ones."""
    try:
        kw = {k: v for k, v in dict(figsize=fs, dpi=dpi, facecolor=fc).items() if v is not None}
        if lay != 'dflt':
            kw['layout'] = lay
        f = plot.figure(**kw)
        assert isinstance(f, plot.Figure) and f._raw is plt.gcf()
        want = tuple(mpl.rcParams['figure.figsize']) if fs is None else fs if isinstance(fs, tuple) else (fs, fs)
        assert tuple(f._raw.get_size_inches()) == tuple(map(float, want)), 'size'
        assert f._raw.dpi == (dpi or mpl.rcParams['figure.dpi']) and f._raw.get_facecolor() == to_rgba(fc or mpl.rcParams['figure.facecolor'])
        eng = {'tight': 'TightLayoutEngine', 'dflt': 'TightLayoutEngine', 'constrained': 'ConstrainedLayoutEngine'}.get(lay, 'NoneType')
        assert type(f._raw.get_layout_engine()).__name__ in (eng, 'PlaceHolderLayoutEngine' if eng == 'NoneType' else eng), 'layout'
        own = {'figsize': (3., 7.), 'layout': 'constrained', 'facecolor': 'C2', 'dpi': 77, None: None}[opt]
        fk = None if opt is None else {opt: own}
        fk0 = copy.deepcopy(fk)
        g, o = (plot.subfigures if sub else plot.subplots)(n, figure_kw=fk, **({} if fs is None else dict(figsize=fs)))
        assert fk == fk0 and g._raw is plt.gcf() and len(g._raw.subfigs if sub else g._raw.axes) == n
        dflt = 5. if sub else 4.
        want = own if opt == 'figsize' else (dflt * n, dflt) if fs is None else fs if isinstance(fs, tuple) else (fs, fs)
        assert tuple(g._raw.get_size_inches()) == tuple(map(float, want)), 'figure options win'
        if opt == 'layout':
            assert type(g._raw.get_layout_engine()).__name__ == 'ConstrainedLayoutEngine'
        assert opt != 'facecolor' or g._raw.get_facecolor() == to_rgba('C2')
        assert opt != 'dpi' or g._raw.dpi == 77
        with scratch() as d:
            plot.savefig(f'{d}/a.png', dpi=20)
            h, w = plt.imread(f'{d}/a.png').shape[:2]
            assert (w, h) == tuple(int(v * 20) for v in g._raw.get_size_inches()), 'size of the file'
        k = len(plt.get_fignums())
        plot.close()
        assert len(plt.get_fignums()) == k - 1 and not plt.fignum_exists(g._raw.number), 'the current figure is closed'
        return opt is not None
    finally:
        plt.close('all')


def _l(h):
    return h.last_draw._raw


@ck.test(examples=700, thorough=12000, shards=6, fmts=st.fixed_dictionaries({k: opts(k) for k in ('line', 'marker', 'errorbar', 'fill', 'text')}).flatmap(lambda d: st.sets(st.sampled_from(sorted(d))).map(lambda s: {k: d[k] for k in d if k not in s})), col=st.none() | st.tuples(st.none() | color, st.none() | alpha), call=opts('line', 2).map(lambda d: {k: v for k, v in d.items() if k in ('c', 'lw')}), arr=st.booleans(), order=st.booleans(), more=st.lists(opts('marker', 3), max_size=2))
def levels(fmts, col, call, arr, order, more):
    """Options of a call win over options of the axes, which win over defaults; other axes keep their defaults."""
    try:
        real = {'style': lambda v: 's^oD'[v % 4], 'ls': lambda v: ('-', '--', ':')[v % 3]}
        draw = lambda v: {a: real[a](b) if a in real else b for a, b in v.items()}
        fmts, more = {k: draw(v) for k, v in fmts.items()}, [draw(v) for v in more]
        fig, axs = plot.subplots(3)
        ax, other = axs[0], axs[2]
        M = {k: dict(KINDS[k][1]) for k in KINDS}
        M['marker']['style'] = None

        def color_all():
            if col is not None:
                (axs[:2] if arr else ax).c(*col)
                for k in ('line', 'marker', 'errorbar', 'fill'):
                    for q in (('c', 'a'),) if k in ('line', 'errorbar') else (('fc', 'fa'), ('ec', 'ea')):
                        for name, v in zip(q, col):
                            if v is not None:
                                M[k][name] = v
        if order:
            color_all()
        f2 = copy.deepcopy(fmts)
        (axs[:2] if arr else ax).fmt(**fmts)
        assert fmts == f2, 'options changed'
        for k, v in fmts.items():
            M[k].update(v)
        for v in more:      # later options add to the earlier ones
            (axs[:2] if arr else ax).fmt_marker(**v)
            M['marker'].update(v)
        if not order:
            color_all()
        for h, want in [(ax, M), (other, None)] + ([(axs[1], M)] if arr else []):
            if want is None:
                want = {k: dict(KINDS[k][1]) for k in KINDS}
                want['marker']['style'] = None
            c_, w = call if h is ax else {}, want
            x, y = [0, 1, 2], [1, 3, 2]
            h.plot(x, y, **c_)
            ln = _l(h)[0]
            lc = to_rgba(c_['c']) if 'c' in c_ else to_rgba(w['line']['c'], w['line']['a'])
            assert to_rgba(ln.get_color()) == lc, f'line colour {ln.get_color()} != {lc}'
            assert ln.get_linewidth() == c_.get('lw', w['line']['lw']) and ln.get_linestyle() == w['line']['ls'], 'line style'
            assert ln.get_markersize() == w['marker']['s'] and ln.get_markeredgewidth() == w['marker']['elw']
            mec, mfc = to_rgba(w['marker']['ec'], w['marker']['ea']), to_rgba(w['marker']['fc'], w['marker']['fa'])
            assert to_rgba(ln.get_markeredgecolor()) == mec and to_rgba(ln.get_markerfacecolor()) == mfc and ln.get_marker() in (w['marker']['style'], 'None' if w['marker']['style'] is None else w['marker']['style']), f"marker of a line: {ln.get_marker()!r}, not {w['marker']['style']!r}"
            h.scatter(x, y)
            s = _l(h)
            eq_arr(s.get_sizes(), [w['marker']['s']], 'size')
            ms = MarkerStyle(w['marker']['style'] or 'o')
            eq_arr(s.get_paths()[0].vertices, ms.get_path().transformed(ms.get_transform()).vertices, 'marker of scattered points')
            eq_arr(s.get_edgecolors()[0], mec, 'edge'), eq_arr(s.get_facecolors()[0], mfc, 'face')
            eq_arr(s.get_linewidths(), [w['marker']['elw']], 'edge width')
            ec, fc = to_rgba(w['fill']['ec'], w['fill']['ea']), to_rgba(w['fill']['fc'], w['fill']['fa'])
            h.fill_between(x, y)
            p = _l(h)
            eq_arr(p.get_edgecolor()[0], ec, 'edge of a band'), eq_arr(p.get_facecolor()[0], fc, 'face of a band'), eq_arr(p.get_linewidth(), [w['fill']['lw']])
            h.stairs(y)
            p = _l(h)
            assert p.get_edgecolor() == ec and p.get_facecolor() == fc and p.get_linewidth() == w['fill']['lw'] and p.get_linestyle() in (w['fill']['ls'], {'-': 'solid', '--': 'dashed', ':': 'dotted'}[w['fill']['ls']]), 'stairs'
            h.hist(y)
            p = _l(h)[2][0]
            assert p.get_edgecolor() == ec and p.get_facecolor() == fc and p.get_linewidth() == w['fill']['lw'], 'histogram'
            h.errorbar(x, y, yerr=1.)
            d, caps, bars = _l(h).lines
            assert to_rgba(d.get_color()) == to_rgba(w['line']['c'], w['line']['a']) and d.get_linewidth() == w['line']['lw'] and d.get_linestyle() == w['line']['ls'] and d.get_marker() in (w['marker']['style'], 'None' if w['marker']['style'] is None else ''), 'line with error bars'
            eq_arr(bars[0].get_color()[0], to_rgba(w['errorbar']['c'], w['errorbar']['a']), 'bar'), eq_arr(bars[0].get_linewidth(), [w['errorbar']['lw']])
            if w['errorbar']['capsize']:
                assert caps[0].get_markersize() == 2 * w['errorbar']['capsize'] and caps[0].get_markeredgewidth() == w['errorbar']['capthick']
            h.text('ab', (.2, .3))
            t = _l(h)
            assert t.get_text() == ('$ab$' if w['text']['use_tex'] else 'ab') and to_rgba(t.get_color()) == to_rgba(w['text']['c'], w['text']['a']) and (t.get_fontsize() == w['text']['s'] or w['text']['s'] < 1), 'text'
            assert t.get_position() == (.2, .3) and t.get_transform() is h._raw.transAxes and t.get_va() == 'center' and t.get_ha() == 'left'
        raises(KeyError, ax.fmt_line, nope=1), raises(KeyError, ax.fmt_frame, xlim=(0, 1)), raises(KeyError, axs.fmt_text, colour='r'), raises(KeyError, axs.fmt_errorbar, ls='-'), raises(KeyError, ax.fmt_fill, colour='r'), raises(KeyError, ax.fmt, marker={'nope': 3})
        raises(TypeError, ax.fmt, nope={})
        return sum(map(bool, fmts.values())) > 1
    finally:
        plt.close('all')


def _warm():
    plot.subplots(2)
    plt.close('all')


try:
    _warm()
except Exception:
    pass
