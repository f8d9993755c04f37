"""P02: what the plot helpers draw."""
import copy
import logging
import matplotlib as mpl
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba
from matplotlib.legend import Legend
from lib.harness import *
from pyhipp import plot
from pyhipp.plot.color import Color, ColorSeq, Colormap, Normalize, ScalarMappable
from pyhipp.astro.plot.shortcuts import Axes as AstroAxes

ck = Check('P02', 'Curves of 1-8 points with scalar, one- and two-sided errors, bands, steps and weighted histograms, histories of frame options on selections of 1-3 by 1-3 axes, legends, secondary axes, colour bars, '
           'and colours in every specification. Everything is read back from the drawn Matplotlib artists. Non-trivial: at least three points, a proper selection of axes, or a colour with its own transparency.')
logging.getLogger('matplotlib').setLevel(logging.ERROR)
fl = st.integers(-50, 50).map(lambda v: v / 4)
pos = st.integers(0, 40).map(lambda v: v / 8)


def last(a):
    return a.last_draw._raw


def segs(c):
    return np.array(c.get_segments())


def both(e, n):
    e = np.asarray(e, float)
    return np.broadcast_to(e, (2, n)) if e.ndim < 2 else e


@ck.test(examples=700, thorough=12000, shards=6, n=st.integers(1, 8), rs=bits64, yk=st.sampled_from(['none', 'scalar', 'one', 'two']), xk=st.sampled_from(['none', 'scalar', 'one', 'two']), label=st.none() | st.text('ab c', min_size=1, max_size=4), flabel=st.none() | st.just('band'),
         form=st.sampled_from(['list', 'array', 'tuple']), base=st.sampled_from([None, 0., 1.5]), orient=st.sampled_from(['vertical', 'horizontal']), fill=st.booleans(), own=st.booleans())
def curves(n, rs, yk, xk, label, flabel, form, base, orient, fill, own):
    g = rng_of(rs)
    q = lambda *s: g.integers(-40, 40, s) / 4.
    x, y, y2 = q(n), q(n), q(n)
    conv = dict(list=lambda a: a.tolist(), array=lambda a: a, tuple=lambda a: tuple(a.tolist()))[form]
    err = lambda k: None if k == 'none' else float(g.integers(0, 9) / 4) if k == 'scalar' else g.integers(0, 9, n if k == 'one' else (2, n)) / 4.
    ye, xe = err(yk), err(xk)
    ye0, xe0 = copy.deepcopy(ye), copy.deepcopy(xe)
    x0, y0 = x.copy(), y.copy()
    cl = (lambda e: e if e is None or np.ndim(e) == 0 else conv(e) if np.ndim(e) == 1 else e.tolist())
    try:
        fig, axs = plot.subplots(2)
        ax, no = axs
        assert ax.plot(conv(x), conv(y), label=label) is ax
        l, = last(ax)
        eq_arr(l.get_xdata(), x, 'x of the line'), eq_arr(l.get_ydata(), y, 'y of the line')
        assert label is None or l.get_label() == label
        assert ax.scatter(conv(x), conv(y), label=label) is ax
        s = last(ax)
        eq_arr(np.asarray(s.get_offsets()), np.c_[x, y], 'scattered points')
        assert label is None or s.get_label() == label
        assert ax.errorbar(conv(x), conv(y), yerr=cl(ye), xerr=cl(xe), label=label) is ax
        c = last(ax)
        eq_arr(np.asarray(c.lines[0].get_xdata(), float), x), eq_arr(np.asarray(c.lines[0].get_ydata(), float), y)
        assert label is None or c.get_label() == label
        bars = list(c.lines[2])
        assert len(bars) == (ye is not None) + (xe is not None) and (c.has_xerr, c.has_yerr) == (xe is not None, ye is not None)
        if xe is not None:
            e = both(xe, n)
            eq_arr(segs(bars.pop(0)), np.stack([np.c_[x - e[0], y], np.c_[x + e[1], y]], 1), 'horizontal bars')
        if ye is not None:
            e = both(ye, n)
            eq_arr(segs(bars.pop(0)), np.stack([np.c_[x, y - e[0]], np.c_[x, y + e[1]]], 1), 'vertical bars')
        # line and band
        k0 = len(ax._raw.lines), len(ax._raw.collections)
        fkw = dict(alpha=.25) if own else {}
        f2 = dict(fkw)
        assert ax.errorfill(conv(x), conv(y), yerr=cl(ye), label=label, fill_label=flabel, **(dict(fill_between_kw=fkw) if own else {}), c='C3') is ax
        assert fkw == f2, 'options changed'
        drawn = [ax._raw.lines[k0[0]:], *ax._raw.collections[k0[1]:]]
        eq_arr(drawn[0][0].get_xdata(), x), eq_arr(drawn[0][0].get_ydata(), y)
        assert to_rgba(drawn[0][0].get_color()) == to_rgba('C3') and (label is None or drawn[0][0].get_label() == label)

        def band(p, lo, hi, m=None):
            v = p.get_paths()[0].vertices
            eq_arr(v[1:n + 1], np.c_[x, lo], 'lower edge of the band'), eq_arr(v[n + 2:2 * n + 2], np.c_[x, hi][::-1], 'upper edge of the band')
        if ye is not None:
            e = both(ye, n)
            band(drawn[1], y - e[0], y + e[1])
            assert (flabel is None or drawn[1].get_label() == flabel) and (not own or drawn[1].get_alpha() == .25)
        assert ax.fill_between(conv(x), conv(y), conv(y2), label=label) is ax
        band(last(ax), y, y2)
        assert label is None or last(ax).get_label() == label
        ax.fill_between(x, y)
        band(last(ax), y, np.zeros(n))
        ax.fill_between(x, y, 2.5)
        band(last(ax), y, np.full(n, 2.5))
        # only where selected
        w = g.random(n) < .6
        ax.fill_between(x, y, y2, where=w)
        runs = np.flatnonzero(np.diff(np.r_[0, w.astype(int), 0])).reshape(-1, 2)
        runs = [r for r in runs if r[1] - r[0] > 1] if True else runs
        ps = [p for p in last(ax).get_paths() if len(p.vertices) > 5]
        assert len(ps) == len(runs), f'{len(ps)} pieces for {w}'
        for p, (a, b) in zip(ps, runs):
            eq_arr(p.vertices[1:b - a + 1], np.c_[x, y][a:b])
        # steps
        ed = np.sort(g.choice(np.arange(-30, 30), n + 1, replace=False)) / 2.
        if g.integers(4) == 0:          # downwards
            ed = ed[::-1].copy()
        kw = {} if base is None else dict(baseline=base)
        assert ax.stairs(conv(y), conv(ed), orientation=orient, fill=fill, label=label, **kw) is ax
        p = last(ax)
        d = p.get_data()
        eq_arr(d.values, y, 'heights'), eq_arr(d.edges, ed, 'edges')
        assert d.baseline == (base or 0) and p.orientation == orient and p.get_fill() == fill and (label is None or p.get_label() == label)
        ax.stairs(y)
        eq_arr(last(ax).get_data().edges, np.arange(n + 1))
        # limits instead of bars
        fl_ = dict(zip(('uplims', 'lolims', 'xuplims', 'xlolims'), (g.random(4) < .4).tolist()))
        e1, e2 = float(g.integers(1, 9) / 4), float(g.integers(1, 9) / 4)
        h = plt.figure().add_subplot()
        ref = h.errorbar(x, y, xerr=e1, yerr=e2, **fl_)
        got = last(ax.errorbar(conv(x), conv(y), xerr=e1, yerr=e2, **fl_))
        for q in (1, 2):
            assert len(got.lines[q]) == len(ref.lines[q]), f'caps and bars with {fl_}'
        for u, v in zip(got.lines[1], ref.lines[1]):
            assert u.get_marker() == v.get_marker(), f'direction of the limits {fl_}'
            eq_arr(np.array(u.get_data(), float), np.array(v.get_data(), float), 'position of the limits')
        for u, v in zip(got.lines[2], ref.lines[2]):
            eq_arr(segs(u), segs(v), 'bars of the limits')
        # bands in steps and with crossings
        stp = ('pre', 'post', 'mid')[g.integers(3)]
        wh = (None, y > y2, g.random(n) < .6)[g.integers(3)]
        for fk in (dict(step=stp), dict(where=y > y2, interpolate=True), dict(where=wh, interpolate=bool(g.integers(2)), step=(None, stp)[g.integers(2)])):
            ax.fill_between(np.sort(x), y, y2, **fk)
            ref = h.fill_between(np.sort(x), y, y2, **fk)
            assert len(last(ax).get_paths()) == len(ref.get_paths())
            for u, v in zip(last(ax).get_paths(), ref.get_paths()):
                eq_arr(u.vertices, v.vertices, f'band ({fk})')
        s_ = f'{label}$ {n}'
        ax.text(s_, (.1 * n, -.3))
        assert last(ax).get_text() == f'${s_}$' and last(ax).get_position() == (.1 * n, -.3), 'text'
        tk = {k: v for k, v in dict(color='r', alpha=.5, fontsize=7., va='top', ha='center', rotation=30., zorder=7).items() if g.random() < .4}
        ax.text('t', (.3, .4), **tk)
        for k, v in tk.items():
            assert getattr(last(ax), 'get_' + k)() == v, f'{k} of a text {tk}'
        eq_arr(x, x0), eq_arr(y, y0)
        for a, b in ((ye, ye0), (xe, xe0)):
            assert a is None or np.array_equal(a, b), 'errors changed'
        r = no._raw
        assert not (r.lines or r.collections or r.patches or r.texts), 'drawn on another axes'
        return n > 2 and yk != 'none'
    finally:
        plt.close('all')


@ck.test(examples=400, thorough=8000, shards=5, x=sized_lists(fl, 1, 12), bins=st.none() | st.integers(1, 6) | st.lists(st.integers(-12, 12), min_size=2, max_size=5, unique=True).map(sorted), rng=st.none() | st.tuples(st.integers(-9, 0), st.integers(1, 9)), density=st.booleans(), ws=st.none() | bits64,
         typ=st.sampled_from([None, 'bar', 'step']), orient=st.sampled_from(['vertical', 'horizontal']), align=st.sampled_from(['mid', 'left', 'right']), rwidth=st.none() | st.just(.5), log=st.booleans())
def histograms(x, bins, rng, density, ws, typ, orient, align, rwidth, log):
    x = np.array(x)
    w = None if ws is None else rng_of(ws).integers(1, 9, len(x)) / 2.
    try:
        fig, ax = plot.subplots()
        kw = dict(bins=bins, range=rng, density=density, weights=w, orientation=orient, align=align, log=log)
        if typ:
            kw['histtype'] = typ
        if rwidth:
            kw['rwidth'] = rwidth
        with np.errstate(all='ignore'):
            c, e = np.histogram(x, bins=10 if bins is None else bins, range=rng, density=density, weights=w)
        if not np.isfinite(c).all() or (typ == 'step' and log):
            return False
        assert ax.hist(x, **{k: v for k, v in kw.items() if v is not None}) is ax
        n, b, p = last(ax)
        close(n, c, 1e-12, 1e-12, 'counts'), close(b, e, 1e-12, 1e-12, 'bins')
        if typ == 'bar':
            sh = dict(mid=0., left=-.5, right=.5)[align] * (e[1] - e[0])
            for q, h, lo, hi in zip(p, c, e[:-1], e[1:]):
                ht, wd, at = (q.get_height(), q.get_width(), q.get_x()) if orient == 'vertical' else (q.get_width(), q.get_height(), q.get_y())
                close(ht, h, 1e-12), close(wd, (hi - lo) * (rwidth or 1.), 1e-9)
                if align == 'mid':
                    close(at + wd / 2, (lo + hi) / 2, 1e-9, 1e-9, 'position of a bar')
        assert (ax._raw.get_yscale() if orient == 'vertical' else ax._raw.get_xscale()) == ('log' if log else 'linear')
        assert not typ or (len(p) == len(c)) == (typ == 'bar') or len(c) == 1
        return len(x) > 2
    finally:
        plt.close('all')


SHAPES = [(1, 2), (1, 3), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (4, 2)]
sel = st.sampled_from(['all', 'row', 'col', 'one', 'neg', 'rows', 'T', 'flat', 'every'])


def choose(axs, shape, how):
    """Selected part of the array and the grid positions it should cover (in order)."""
    R, C = shape
    one = R == 1 or C == 1
    pos_ = [(i, j) for i in range(R) for j in range(C)]
    if one:
        k = {'all': slice(None), 'row': slice(1, None), 'col': slice(0, 1), 'one': 1, 'neg': -1, 'rows': slice(0, 2), 'every': slice(None, None, 2)}.get(how)
        if how in ('T', 'flat'):
            return getattr(axs, how), pos_
        p = pos_[k]
        return axs[k], p if isinstance(p, list) else [p]
    if how == 'all':
        return axs, pos_
    if how == 'row':
        return axs[1], [p for p in pos_ if p[0] == 1]
    if how == 'col':
        return axs[:, 0], [p for p in pos_ if p[1] == 0]
    if how == 'one':
        return axs[0, 1], [(0, 1)]
    if how == 'neg':
        return axs[-1, -1], [(R - 1, C - 1)]
    if how == 'rows':
        return axs[:1], [p for p in pos_ if p[0] == 0]
    if how == 'T':
        return axs.T, [(i, j) for j in range(C) for i in range(R)]
    if how == 'flat':
        return axs.flat, pos_
    return axs[::2, ::2], [p for p in pos_ if p[0] % 2 == 0 and p[1] % 2 == 0]


lo_, hi_ = st.integers(1, 8).map(lambda v: v / 8), st.integers(16, 40).map(lambda v: v / 4)
lim = st.tuples(lo_, hi_)
txt = st.text('abxy', min_size=1, max_size=3)
odd = txt | st.text('ab$_ %', min_size=1, max_size=4)     # never typeset here
xy = lambda s: st.tuples(st.none() | s, st.none() | s)
fop = st.one_of(st.tuples(st.just('lim'), xy(lim)), st.tuples(st.just('label'), xy(odd)), st.tuples(st.just('scale'), xy(st.sampled_from(['log', 'linear']))), st.tuples(st.just('ticks'), xy(st.lists(st.sampled_from([1.5, 2., 2.5, 3.]), min_size=1, max_size=3, unique=True).map(sorted))),
                st.tuples(st.just('raw'), xy(odd)), st.tuples(st.just('tex'), st.booleans()), st.tuples(st.just('grid'), st.booleans(), st.none() | st.integers(1, 4)), st.tuples(st.just('outer')), st.tuples(st.just('tick_params'), st.sampled_from(['x', 'y', 'both']), st.sampled_from(['in', 'out', 'inout'])),
                st.tuples(st.just('off')), st.tuples(st.just('on')))


@ck.test(examples=1200, thorough=20000, shards=6, shape=st.sampled_from(SHAPES), hist=sized_lists(st.tuples(sel, fop), 1, 6), form=st.sampled_from([True, False, None]))
def frames(shape, hist, form):
    """Frame options reach every selected axes and no others, and stay until changed."""
    R, C = shape
    try:
        fig, axs = plot.subplots(shape)
        raw = {}
        it = iter(axs.to_list())
        for i in range(R):
            for j in range(C):
                raw[i, j] = next(it)._raw
        M = {p: dict(lim=[(0., 1.), (0., 1.)], label=['', ''], scale=['linear'] * 2, ticks=[None, None], tex=True, grid=None, on=True, dir=[mpl.rcParams['xtick.direction'], mpl.rcParams['ytick.direction']], outer=False) for p in raw}
        proper = False
        for how, o in hist:
            s, ps = choose(axs, shape, how)
            if isinstance(s, plot.AxesArray):
                assert [a._raw for a in s.to_list()] == [raw[p] for p in ps], f'selection {how}'
                assert s.size == len(ps)
            else:
                assert [s._raw] == [raw[p] for p in ps]
            proper |= len(ps) < R * C
            k = o[0]
            if k in ('off', 'on'):
                for a in (s.to_list() if isinstance(s, plot.AxesArray) else [s]):
                    r = a.axis_on() if k == 'on' else a.axis_off()
                    assert r is a
                for p in ps:
                    M[p]['on'] = k == 'on'
            elif k == 'tex':
                s.fmt_text(use_tex=o[1])
                for p in ps:
                    M[p]['tex'] = o[1]
            elif k == 'grid':
                s.grid(o[1], axis='x', **({} if o[2] is None else dict(lw=o[2], c='C2', ls='--')) if o[1] else {})
                for p in ps:
                    M[p]['grid'] = o[1:]
            elif k == 'outer':
                s.label_outer()
                for p in ps:
                    M[p]['outer'] = True
            elif k == 'tick_params':
                s.tick_params(**{o[1]: dict(direction=o[2])})
                for p in ps:
                    for q in (0, 1):
                        if o[1] in ('both', 'xy'[q]):
                            M[p]['dir'][q] = o[2]
            else:
                x, y = o[1]
                d = {q: v for q, v in (('x', x), ('y', y)) if v is not None or not form}
                d0 = copy.deepcopy(d)
                if k == 'ticks':
                    if form is None and 'log' not in [v for p in ps for v in M[p]['scale']] and 'log' not in str(hist):
                        nm = {q: [f't{u}' for u in v] for q, v in d.items() if v is not None}
                        nm0 = copy.deepcopy(nm)
                        s.fmt_frame(ticks=d, ticklabels=nm)
                        assert nm == nm0, 'options changed'
                        for p in ps:
                            for q, v in () if M[p]['outer'] else nm.items():
                                assert [t.get_text() for t in getattr(raw[p], f'get_{q}ticklabels')()] == v, f'tick labels of {p}'
                        s.fmt_frame(ticklabels=None)
                    else:
                        s.fmt_frame(ticks={'x': x, 'y': y} if form else (x, y))
                elif form is None:
                    o_ = {'raw': 'label'}.get(k, k)
                    if k == 'label':
                        d = {q: f'${v}$' if v is not None and M[ps[0]]['tex'] else v for q, v in d.items()}
                        d0 = dict(d)
                        if len({M[p]['tex'] for p in ps}) > 1:
                            continue
                    s.fmt_frame(**{o_: d})
                    assert d == d0, 'options changed'
                    s.fmt(frame={o_: d})
                    assert d == d0, 'options changed'
                elif k == 'raw':
                    s.fmt_frame(label={'x': x, 'y': y, 'fontsize': 9} if form else (x, y))
                elif k == 'lim':
                    r = s.lim(x, y) if form else s.fmt(frame=dict(lim=(x, y)))
                else:
                    r = getattr(s, k)(x, y) if form else getattr(s, k)(y=y, x=x)
                    assert r is s
                for p in ps:
                    for q, v in enumerate((x, y)):
                        if v is not None:
                            M[p][k if k != 'raw' else 'label'][q] = f'${v}$' if k == 'label' and M[p]['tex'] else v
            for p, r in raw.items():
                m = M[p]
                # default limits may be widened by ticks or changed by a logarithmic scale: only requested limits are compared
                for q, (g, nm) in enumerate(((r.get_xlim, 'x'), (r.get_ylim, 'y'))):
                    if m['lim'][q] != (0., 1.):
                        assert tuple(map(float, g())) == m['lim'][q], f'{nm} limits of {p}: {g()} != {m["lim"][q]}'
                assert [r.get_xscale(), r.get_yscale()] == m['scale'], f'scales of {p}'
                if not m['outer']:
                    assert [r.get_xlabel(), r.get_ylabel()] == m['label'], f'labels of {p}: {r.get_xlabel(), r.get_ylabel()} != {m["label"]}'
                else:
                    assert r.get_xlabel() == (m['label'][0] if p[0] == R - 1 else '') or k == 'label' and p not in ps, 'outer label'
                for q, a in enumerate((r.xaxis, r.yaxis)):
                    # a new scale brings its own ticks; requested ones are set again with the next option
                    if m['ticks'][q] is not None and 'log' not in m['scale'] and k == 'ticks' and p in ps and o[1][q] is not None:
                        eq_arr(a.get_ticklocs(), m['ticks'][q], f'ticks of {p}')
                    assert a.get_tick_params()['direction'] == m['dir'][q] if 'direction' in a.get_tick_params() else m['dir'][q] == mpl.rcParams['xtick.direction'], f'tick direction of {p}'
                if m['grid'] is not None:
                    gl = r.xaxis.get_gridlines()[0]
                    if 'log' not in m['scale']:
                        assert gl.get_visible() == m['grid'][0], f'grid of {p}'
                    if m['grid'][0] and m['grid'][1] is not None:
                        assert gl.get_linewidth() == m['grid'][1] and to_rgba(gl.get_color()) == to_rgba('C2') and gl.get_linestyle() == '--', 'style of the grid'
                assert r.axison == m['on'], f'frame of {p}'
        return proper and len(hist) > 1
    finally:
        plt.close('all')


@ck.test(examples=300, thorough=4000, shards=4, labels=st.lists(st.sampled_from('abcdef'), min_size=1, max_size=4, unique=True), loc=st.sampled_from([None, 'best', 'r', 'lr', 'll', 'cl', 'cr', 'ur', 'ul', 'uc', 'lc', 'c', 'right', 'lower right', 'lower left', 'center left', 'center right', 'upper right', 'upper left', 'upper center', 'lower center', 'center', 0, 3, 7, (.25, .5)]),
         ncol=st.none() | st.integers(1, 3), title=st.none() | st.just('T'), fs=st.none() | st.integers(5, 20), frame=st.none() | st.booleans(), subset=st.booleans(), arr=st.booleans(), ms=st.none() | st.integers(1, 3), ex=bits64)
def legends(labels, loc, ncol, title, fs, frame, subset, arr, ms, ex):
    try:
        fig, axs = plot.subplots(2)
        for a in axs:
            for i, l in enumerate(labels):
                a.plot([0, 1], [i, i + 1], label=l)
            a.plot([0, 1], [3, 3])
        kw = {k: v for k, v in dict(loc=loc, ncol=ncol, title=title, fontsize=fs, frameon=frame, markerscale=ms).items() if v is not None}
        g = rng_of(ex)
        sizes = {k: float(g.integers(1, 30)) / 8 for k in ('handlelength', 'handleheight', 'handletextpad', 'borderpad', 'borderaxespad', 'labelspacing', 'columnspacing') if g.random() < .4}
        sizes.update({k: int(g.integers(1, 6)) for k in ('numpoints', 'scatterpoints') if g.random() < .4})
        look = {k: v for k, v in dict(framealpha=.25, labelcolor='red', title_fontsize=17, shadow=True, reverse=True).items() if g.random() < .3}
        kw.update(sizes, **look)
        t = axs if arr else axs[0]
        args = ([axs[0]._raw.lines[0]], ['zz']) if subset else ()
        assert t.leg(*args, **kw) is t
        for a in (axs if arr else [axs[0]]):
            g = last(a)
            assert isinstance(g, Legend) and a._raw.get_legend() is g
            assert [x.get_text() for x in g.get_texts()] == (['zz'] if subset else labels[::-1] if 'reverse' in look else labels), 'entries'
            for k in ('handlelength', 'handleheight', 'handletextpad', 'borderpad', 'borderaxespad', 'labelspacing', 'columnspacing', 'numpoints', 'scatterpoints', 'shadow'):
                want = kw.get(k, mpl.rcParams[f'legend.{k}'])
                assert getattr(g, k) == want, f'{k} of a legend: {getattr(g, k)}, not {want}'
            assert g.get_frame().get_alpha() == look.get('framealpha', 1 if 'shadow' in look else mpl.rcParams['legend.framealpha']), 'opacity of the frame'
            assert all(to_rgba(x.get_color()) == to_rgba('red' if 'labelcolor' in look else mpl.rcParams['text.color']) for x in g.get_texts()), 'colour of the labels'
            assert 'title_fontsize' not in look or g.get_title().get_fontsize() == 17, 'size of the title'
            full = {'r': 'right', 'lr': 'lower right', 'll': 'lower left', 'cl': 'center left', 'cr': 'center right', 'ur': 'upper right', 'ul': 'upper left', 'uc': 'upper center', 'lc': 'lower center', 'c': 'center', None: 'best'}.get(loc, loc)
            assert g._get_loc() == (Legend.codes[full] if isinstance(full, str) else full), f'location of {loc!r}'
            assert g._ncols == (ncol or 1) and g.get_title().get_text() == (title or '')
            if fs:
                assert g.get_texts()[0].get_fontsize() == fs
            assert g.get_frame_on() == (mpl.rcParams['legend.frameon'] if frame is None else frame)
            assert g.markerscale == (ms or mpl.rcParams['legend.markerscale'])
        if not arr:
            assert axs[1]._raw.get_legend() is None
        return len(labels) > 1 and loc is not None
    finally:
        plt.close('all')


@ck.test(examples=250, thorough=4000, shards=5, kind=st.sampled_from(['identical', 'lgz', 'interp', 'own', 'plain']), loc=st.sampled_from(['top', 'right', 'bottom', 'left']), a=st.integers(1, 8).map(lambda v: v / 4), b=st.integers(9, 16).map(lambda v: v / 4), ticks=st.none() | st.lists(st.sampled_from([1., 1.5, 2., 3., 4.]), min_size=1, max_size=3, unique=True).map(sorted), label=st.none() | txt, hide=st.none() | st.booleans(), bad=st.sampled_from(['x', 'center', '']), log=st.booleans(), bent=st.none() | bits64)
def secondary(kind, loc, a, b, ticks, label, hide, bad, log, bent):
    try:
        fig, axs = plot.subplots(2)
        ax = axs[0]
        v = loc in ('right', 'left')
        if kind == 'lgz':
            a, b = a / 4, b / 4
        ax.lim(**{'y' if v else 'x': (a, b)})
        if log:
            ax.scale(**{'y' if v else 'x': 'log'})
        s = AstroAxes(ax)
        kw = dict(location=loc)
        xn = np.array([-1., 0., 2., 2.5, 5.])
        yn = 2 * xn + 1
        if bent is not None:        # any monotonic table in any order, extrapolated beyond its ends
            r = rng_of(bent)
            xn = np.sort(r.choice(np.arange(-4, 24) / 4., r.integers(2, 7), replace=False))
            yn = np.cumsum(r.integers(1, 9, len(xn)) / 4.) * (-1 if not log and r.random() < .4 else 1) + (99. if log else 0.)
            o = r.permutation(len(xn)) if r.random() < .5 else slice(None, None, int(r.choice([-1, 1])))
            xt, yt = xn[o], yn[o]
        else:
            xt, yt = xn, yn

        def table(x):
            i = min(max(int(np.searchsorted(xn, x)) - 1, 0), len(xn) - 2)
            return yn[i] + (x - xn[i]) * (yn[i + 1] - yn[i]) / (xn[i + 1] - xn[i])
        if ticks is not None:
            kw['ticks'] = ticks
        if label is not None:
            kw['label'] = label
        if hide is not None:
            kw['hide_first_ticks'] = hide
        f = {'identical': lambda x: x, 'lgz': lambda x: 10.**x - 1, 'interp': table, 'own': lambda x: x**2, 'plain': lambda x: 3 * x}[kind]
        if kind == 'identical':
            o = s.add_secondary_identical_axis(**kw)
        elif kind == 'lgz':
            o = s.add_secondary_axis_lgzp1_to_z(**kw)
        elif kind == 'interp':
            x0, y0 = xt.copy(), yt.copy()
            o = s.add_secondary_axis_interp(xt, yt, **kw)
            eq_arr(xt, x0), eq_arr(yt, y0)
        elif kind == 'own':
            o = s.add_secondary_axis(lambda x: x**2, lambda x: np.sqrt(np.abs(x)), **kw)
        else:
            o = (ax.secondary_yaxis if v else ax.secondary_xaxis)(loc, functions=(lambda x: 3 * x, lambda x: x / 3))
        assert isinstance(o, plot.Axes)
        raises(ValueError, s.add_secondary_axis, f, f, location=bad)
        lt = kw.get('ticks', [0, 1, 2, 3, 4, 5, 7, 10, 14] if kind == 'lgz' else None)
        axis = o._raw.yaxis if v else o._raw.xaxis
        if kind != 'plain':
            if lt is not None:
                eq_arr(axis.get_ticklocs(), lt, 'ticks')
            want = label if label is not None else r'$z$' if kind == 'lgz' else ''
            assert (o._raw.get_ylabel() if v else o._raw.get_xlabel()) == want, 'label'
            main = ax._raw.yaxis if v else ax._raw.xaxis
            h = True if hide is None else hide
            for which in ('major', 'minor'):
                tp = main.get_tick_params(which=which)
                assert tp.get(loc) == (False if h else mpl.rcParams[('ytick.' if v else 'xtick.') + loc]), f'ticks of the first axis: {tp} hide={hide}'
        fig._raw.draw_without_rendering()
        got = o._raw.get_ylim() if v else o._raw.get_xlim()
        la, lb = ax._raw.get_ylim() if v else ax._raw.get_xlim()
        close(sorted(got), sorted([f(la), f(lb)]), 1e-6, 1e-6, f'limits of the secondary axis ({kind})')
        if not (lt and kind != 'plain'):
            assert (la, lb) == (a, b)
        for t in np.linspace(la, lb, 5)[1:-1]:      # a value on the second axis lies where the value it stands for lies on the first
            u, w_ = (np.array([[0., q]] if v else [[q, 0.]]) for q in (t, f(t)))
            close(o._raw.transData.transform(w_)[0, int(v)], ax._raw.transData.transform(u)[0, int(v)], 1e-6, 1e-4, f'position on the secondary axis ({kind})')
        assert not axs[1]._raw.child_axes
        return kind != 'plain'
    finally:
        plt.close('all')


ZEROS = {     # an explicit zero or empty value is a value, not a request for the default
    'grid': (lambda a: a.grid(lw=0), lambda x: x.xaxis.get_gridlines()[0].get_linewidth() == 0),
    'grid_off': (lambda a: a.grid(True).grid(False), lambda x: not x.xaxis.get_gridlines()[0].get_visible()),
    'lim': (lambda a: a.lim((0, 3), (-2, 0)), lambda x: x.get_xlim() == (0, 3) and x.get_ylim() == (-2, 0)),
    'lim_inverted': (lambda a: a.lim(x=(1, 0)), lambda x: x.get_xlim() == (1, 0)),
    'ticks': (lambda a: a.fmt_frame(ticks={'x': [], 'y': [0]}), lambda x: len(x.get_xticks()) == 0 and list(x.get_yticks()) == [0]),
    'ticklabels': (lambda a: a.fmt_frame(ticks={'x': [0, .5]}).fmt_frame(ticklabels={'x': ['', 'q']}), lambda x: [t.get_text() for t in x.get_xticklabels()] == ['', 'q']),
    'label': (lambda a: a.fmt_text(use_tex=False).label('q', 'q').label('', None), lambda x: x.get_xlabel() == '' and x.get_ylabel() == 'q'),
    'label_later': (lambda a: a.fmt_text(use_tex=False).label('q').fmt_frame(label={'x': '', 'y': 'r'}), lambda x: x.get_xlabel() == '' and x.get_ylabel() == 'r'),
    'tick_length': (lambda a: a.tick_params(x={'length': 0}, y={'width': 0}), lambda x: x.xaxis.get_tick_params()['length'] == 0 and x.yaxis.get_tick_params()['width'] == 0),
    'outer': (lambda a: a.fmt_text(use_tex=False).label('q', 'r').fmt_frame(label_outer=False), lambda x: x.get_xlabel() == 'q' and x.get_ylabel() == 'r'),
    'line': (lambda a: a.fmt_line(lw=0), lambda x: x.plot_.get_linewidth() == 0),
    'line_call': (lambda a: a, lambda x: x.plot0.get_linewidth() == 0 and x.plot0.get_alpha() == 0 and x.plot0.get_zorder() == 0 and x.plot0.get_markersize() == 0),
    'marker': (lambda a: a.fmt_marker(s=0, elw=0), lambda x: x.plot_.get_markersize() == 0 and x.plot_.get_markeredgewidth() == 0 and list(x.scat.get_sizes()) == [0] and list(x.scat.get_linewidths()) == [0]),
    'marker_alpha': (lambda a: a.fmt_marker(a=0), lambda x: x.scat.get_facecolors()[0][3] == 0 and x.scat.get_edgecolors()[0][3] == 0),
    'fill': (lambda a: a.fmt_fill(lw=0), lambda x: list(x.band.get_linewidth()) == [0]),
    'fill_alpha': (lambda a: a.fmt_fill(a=0), lambda x: x.band.get_facecolor()[0][3] == 0 and x.band.get_edgecolor()[0][3] == 0),
    'fill_face': (lambda a: a.fmt_fill(fa=0), lambda x: x.band.get_facecolor()[0][3] == 0 and x.band.get_edgecolor()[0][3] == 1),
    'colour': (lambda a: a.c('C1', 0), lambda x: to_rgba(x.plot_.get_color())[3] == 0 == x.scat.get_facecolors()[0][3] == x.band.get_facecolor()[0][3]),
    'colour_only': (lambda a: a.c(a=0), lambda x: to_rgba(x.plot_.get_color()) == (0, 0, 0, 0)),
    'errorbar': (lambda a: a.fmt_errorbar(capsize=0, lw=0), lambda x: not len(x.err.lines[1]) and list(x.err.lines[2][0].get_linewidth()) == [0]),
    'errorbar_alpha': (lambda a: a.fmt_errorbar(a=0), lambda x: x.err.lines[2][0].get_color()[0][3] == 0),
    'errorbar_zero': (lambda a: a, lambda x: np.ptp(segs(x.err0.lines[2][0]), axis=1).max() == 0),
    'text': (lambda a: a.fmt_text(a=0), lambda x: to_rgba(x.txt.get_color())[3] == 0),
    'text_at': (lambda a: a.fmt_text(use_tex=False), lambda x: x.txt.get_position() == (0, 0) and x.txt.get_text() == '' and x.txt.get_transform() is x.transAxes),
    'stairs': (lambda a: a, lambda x: x.steps.get_data().baseline == 0 and not x.steps.get_fill()),
    'off': (lambda a: a.axis_off(), lambda x: not x.axison),
}


@ck.test(examples=120, thorough=3000, shards=3, k=st.sampled_from(sorted(ZEROS)), whole=st.booleans())
def zeros(k, whole):
    """Explicit zeros, empty lists and empty strings are honoured like any other value."""
    try:
        fig, axs = plot.subplots(2)
        f, ok = ZEROS[k]
        for a in (axs if whole else axs[:1]):
            f(a)
            x = a._raw
            a.plot([0, 1], [0, 1]), setattr(x, 'plot_', last(a)[0])
            a.plot([0, 1], [0, 1], lw=0, alpha=0, zorder=0, ms=0, label=''), setattr(x, 'plot0', last(a)[0])
            a.scatter([0, 1], [0, 0]), setattr(x, 'scat', last(a))
            a.fill_between([0, 1], [0, 0], 0), setattr(x, 'band', last(a))
            a.errorbar([0, 1], [0, 1], yerr=.5), setattr(x, 'err', last(a))
            a.errorbar([0, 1], [0, 1], yerr=0), setattr(x, 'err0', last(a))
            a.stairs([0, 2], baseline=0, fill=False), setattr(x, 'steps', last(a))
            a.text('', (0, 0)), setattr(x, 'txt', last(a))
            if not ok(x):
                raise AssertionError(f'explicit zero of {k} is not honoured')
        return True
    finally:
        plt.close('all')


@ck.test(examples=300, thorough=4000, shards=3, n1=st.integers(2, 6), n2=st.integers(2, 6), rs=bits64, c=st.none() | st.sampled_from(['k', 'red', 'C1']), a=st.none() | st.sampled_from([.25, .5]), pk=st.booleans(), nc=st.sampled_from(['cax', 'ax', 'arr', 'list', 'list3', 'list4', 'raw', 'tuple', 'gen', 'iter', 'objs']), orient=st.sampled_from([None, 'horizontal', 'vertical']), label=st.none() | txt, ticks=st.none() | st.just([.25, .5]),
         shape=st.fixed_dictionaries({}, optional=dict(fraction=st.sampled_from([.05, .2]), shrink=st.sampled_from([.5, .8]), aspect=st.sampled_from([5, 12.5]), pad=st.sampled_from([0, .05, .2]))), side=st.sampled_from([None, None, 'left', 'right', 'top', 'bottom']))
def regions_and_bars(n1, n2, rs, c, a, pk, nc, orient, label, ticks, shape, side):
    """Region between two curves; colour bars."""
    g = rng_of(rs)
    x1, y1, x2, y2 = (g.integers(-9, 9, n).astype(float) for n in (n1, n1, n2, n2))
    try:
        fig, axs = plot.subplots((2, 2))
        s = AstroAxes(axs[0, 0])
        kw = {k: v for k, v in dict(c=c, a=a).items() if v is not None}
        if pk:
            kw['patch_kw'] = dict(lw=3)
        assert s.fill_between_xy(x1, y1, x2, y2, **kw) is s
        p, = axs[0, 0]._raw.patches
        eq_arr(p.get_xy(), np.r_[np.c_[x1, y1], np.c_[x2, y2][::-1], [[x1[0], y1[0]]]] if (x1[0], y1[0]) != (x2[0], y2[0]) else np.r_[np.c_[x1, y1], np.c_[x2, y2][::-1]], 'outline')
        assert p.get_facecolor() == to_rgba(c or 'k', a or 1.) and (not pk or p.get_linewidth() == 3)
        assert not axs[1, 1]._raw.patches
        nrm = Normalize(mpl.colors.Normalize(-1, 3))
        m = ScalarMappable.from_cmap(Colormap(plt.get_cmap('jet')), nrm)
        assert m._raw.cmap.name == 'jet' and m._raw.norm is nrm._raw
        if side is not None and nc != 'cax':
            shape, orient = dict(shape, location=side), 'horizontal' if side in ('top', 'bottom') else 'vertical'
        kw = {k: v for k, v in dict(orientation=orient, label=label, ticks=ticks, **shape).items() if v is not None}
        n = len(fig._raw.axes)
        R = [q._raw for q in axs.to_list()]
        t = {'cax': lambda: dict(cax=axs[0, 1]), 'ax': lambda: dict(ax=axs[0, 1]), 'arr': lambda: dict(ax=axs), 'list': lambda: dict(ax=[axs[0, 0], R[1]]), 'list3': lambda: dict(ax=[axs[0, 0], R[3], axs[0, 1]]), 'list4': lambda: dict(ax=axs.to_list()[::-1]), 'raw': lambda: dict(ax=R[1]), 'tuple': lambda: dict(ax=(axs[1, 0], axs[0, 0])),
             'gen': lambda: dict(ax=(q for q in axs[0])), 'iter': lambda: dict(ax=iter(axs[:, 1])), 'objs': lambda: dict(ax=np.array(R, dtype=object).reshape(2, 2)[:, 0])}[nc]()
        twin = plt.figure(figsize=fig._raw.get_size_inches(), layout=None)      # the same in plain Matplotlib
        T = list(twin.subplots(2, 2).ravel())
        fig._raw.subplots_adjust(**{k: getattr(twin.subplotpars, k) for k in ('left', 'right', 'top', 'bottom', 'wspace', 'hspace')})
        to = {'cax': dict(cax=T[1]), 'ax': dict(ax=T[1]), 'arr': dict(ax=T), 'list': dict(ax=T[:2]), 'list3': dict(ax=[T[0], T[3], T[1]]), 'list4': dict(ax=T[::-1]), 'raw': dict(ax=T[1]), 'tuple': dict(ax=[T[2], T[0]]), 'gen': dict(ax=T[:2]), 'iter': dict(ax=[T[1], T[3]]), 'objs': dict(ax=[T[0], T[2]])}[nc]
        tb = twin.colorbar(mpl.cm.ScalarMappable(mpl.colors.Normalize(-1, 3), 'jet'), **to, **{**dict(fraction=.1, shrink=1., aspect=20, pad=0), **kw})
        plt.figure(fig._raw.number)
        assert fig.colorbar(m._raw if nc == 'raw' else m, **t, **kw) is fig
        b = last(fig)
        assert b.mappable is m._raw and b.orientation == (orient or 'vertical')
        for q, z in zip(R + [b.ax], T + [tb.ax]):
            close(q.get_position().bounds, z.get_position().bounds, 1e-9, 1e-9, f'place of the axes and the colour bar ({nc}, {shape})')
        assert b.ax.yaxis.get_ticks_position() == tb.ax.yaxis.get_ticks_position() and b.ax.xaxis.get_ticks_position() == tb.ax.xaxis.get_ticks_position(), 'side of the ticks'
        assert (b.ax is axs[0, 1]._raw) if nc == 'cax' else len(fig._raw.axes) == n + 1
        lo, hi = b.ax.get_xlim() if orient == 'horizontal' else b.ax.get_ylim()
        assert (lo, hi) == (-1., 3.), 'range of the colour bar'
        if label is not None:
            assert (b.ax.get_xlabel() if orient == 'horizontal' else b.ax.get_ylabel()) == label
        if ticks:
            eq_arr(b.get_ticks(), ticks)
        return True
    finally:
        plt.close('all')


NAMES = ['k', 'r', 'red', 'C0', 'C7', 'tab:blue', '#1f77b4', '#0f0', '#0f08', '#10203040', '.25', 'none', 'xkcd:sky blue', 'DarkGreen']
ch = st.integers(0, 20).map(lambda v: v / 20) | st.floats(0, 1)
spec = st.one_of(st.sampled_from(NAMES), st.tuples(ch, ch, ch), st.tuples(ch, ch, ch, ch), st.tuples(ch, ch, ch).map(list), st.tuples(st.sampled_from(NAMES), ch).filter(lambda t: t[0] != 'none'))


@ck.test(examples=3000, shards=2, c=spec, a=st.none() | ch, b=ch, seq=st.lists(spec, max_size=6), cm=st.sampled_from(['jet', 'rainbow', 'viridis', 'tab10', 'gnuplot2']), lv=st.integers(0, 12) | st.lists(ch, max_size=6), al=st.none() | ch, obj=st.booleans(), pre=st.sampled_from(['dark2', 'tab10', 'set1', 'set2', 'rainbow_5', 'rainbow_10', 'gnuplot_5', 'gnuplot_10', 'gnuplot2_5', 'gnuplot2_10', None]), arr=st.booleans())
def colors(c, a, b, seq, cm, lv, al, obj, pre, arr):
    R = to_rgba(c)
    k = Color(c, a)
    want = R if a is None else (*R[:3], a)
    assert k.get_rgba() == want and k.get_alpha() == want[3], f'{k.get_rgba()} != {want}'
    assert Color(k).get_rgba() == want and Color.to_rgba(k) == want and Color.to_rgba(c) == R and Color(k, b).get_rgba() == (*want[:3], b)
    assert Color(k.get_rgba()).get_rgba() == want and k.get_rgba() == want, 'round trip'
    e = Color(k)
    assert e.alpha(b) is e and e.get_rgba() == (*want[:3], b) and k.get_rgba() == want, 'a copy shares its transparency'
    assert Color().get_rgba() == (0., 0., 0., 1.)
    raises(ValueError, Color, 'no such colour')
    s = ColorSeq([Color(x) if arr else x for x in seq])
    assert s.get_rgba() == [to_rgba(x) for x in seq], 'sequence'
    M = plt.get_cmap(cm)
    lev = lv if isinstance(lv, int) else (np.array(lv, float) if arr else lv)
    if isinstance(lv, int) or len(lv):
        got = ColorSeq.from_cmap(Colormap(M) if obj else cm, lev, **({} if al is None else dict(alpha=al))).get_rgba()
        x = [i / (lv - 1) if lv > 1 else 0. for i in range(lv)] if isinstance(lv, int) else lv
        assert len(got) == len(x)
        for g, v in zip(got, x):
            close(g, M(float(v), alpha=al), 1e-12, 1e-2 if isinstance(lv, int) else 1e-12, f'colour at {v}')
        if len(x):
            eq_arr(Colormap(M)(np.array(x), alpha=al), M(np.array(x), alpha=al))
    p = ColorSeq.predefined(pre) if pre else ColorSeq.predefined()
    if pre is None or '_' not in pre:
        assert p.get_rgba() == [to_rgba(v) for v in plt.get_cmap({None: 'Dark2', 'dark2': 'Dark2', 'tab10': 'tab10', 'set1': 'Set1', 'set2': 'Set2'}[pre]).colors]
    else:
        m, n = pre.split('_')
        close(p.get_rgba(), plt.get_cmap(m)(np.linspace(0, 1, int(n))), 1e-12, 1e-12, pre)
    raises(KeyError, ColorSeq.predefined, 'nope')
    return R[3] < 1 or len(seq) > 2


def _warm():
    plot.subplots(2)
    plt.close('all')


try:
    _warm()
except Exception:
    pass
