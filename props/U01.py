"""Plots of results and beliefs."""
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from matplotlib.figure import Figure
from matplotlib.lines import Line2D
import numpy as np

from symex import arr as A
from .common import Inst, names

MOD = 'task_models.utils.plot'
BOUNDS = ('samples of up to 3 values at up to 3 points (unknown values, abscissae unknown or left out), '
          'every style of the spread; grids of up to 3x2 unknown values and belief tables of up to 3x3 (also 12x14), with and '
          'without labels; box plots of up to 3x2 unknown values; every choice of spines, ticks and tick labels to remove; up to 9 colours.')
ASSUMPTIONS = ['the axes are a stand-in recording what is drawn (matplotlib contract of plot, errorbar, fill_between, boxplot, legend and '
               'pcolormesh); removals are read from real axes of the installed matplotlib']


class Rec(object):
    """Accepts anything, records calls."""

    def __init__(self):
        self.calls = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def f(*a, **kw):
            self.calls.append((n, a, kw))
            return Rec()
        return f


class Axis(Rec):
    def __init__(self, ax, d):
        Rec.__init__(self)
        self.set_ticks = lambda *a, **kw: ax.place(d, *a, **kw)
        self.set_ticklabels = lambda *a, **kw: ax.label(d, *a, **kw)


class Axes(Rec):
    def __init__(self):
        Rec.__init__(self)
        self.spines = {k: Rec() for k in ('top', 'bottom', 'left', 'right')}
        self.xaxis, self.yaxis = Axis(self, 'x'), Axis(self, 'y')
        self.seen = {}

    def place(self, d, ticks, labels=None, **kw):
        self.seen[d + 'ticks'] = listed(np.asarray(ticks, dtype=object))
        if labels is not None:
            self.label(d, labels)

    def label(self, d, labels, **kw):
        self.seen[d + 'labels'] = list(labels)

    def limit(self, d, lo=None, hi=None, **kw):
        keys = ('left', d + 'min') if d == 'x' else ('bottom', d + 'min')
        lo = next((kw[k] for k in keys if kw.get(k) is not None), lo)
        keys = ('right', d + 'max') if d == 'x' else ('top', d + 'max')
        hi = next((kw[k] for k in keys if kw.get(k) is not None), hi)
        if hi is None and lo is not None and np.ndim(lo):
            lo, hi = lo
        old = self.seen.get(d + 'lim', [None, None])
        self.seen[d + 'lim'] = [o if v is None else v for o, v in zip(old, (lo, hi))]

    def set_xticks(self, *a, **kw):
        self.place('x', *a, **kw)

    def set_yticks(self, *a, **kw):
        self.place('y', *a, **kw)

    def set_xticklabels(self, *a, **kw):
        self.label('x', *a, **kw)

    def set_yticklabels(self, *a, **kw):
        self.label('y', *a, **kw)

    def set_xlim(self, *a, **kw):
        self.limit('x', *a, **kw)

    def set_ylim(self, *a, **kw):
        self.limit('y', *a, **kw)

    set_xbound, set_ybound = set_xlim, set_ylim

    def axis(self, arg=None, **kw):
        if arg is not None and not isinstance(arg, (str, bool)):
            self.limit('x', arg[0], arg[1])
            self.limit('y', arg[2], arg[3])
        for d in 'xy':
            if d + 'min' in kw or d + 'max' in kw:
                self.limit(d, kw.get(d + 'min'), kw.get(d + 'max'))

    def set(self, **kw):
        for k, v in kw.items():
            getattr(self, 'set_' + k)(v)

    def line(self, n, a, kw):
        self.calls.append((n, a, kw))
        axes = self

        class Line(object):
            def get_xdata(self, *_):
                return a[0] if isinstance(a[0], np.ndarray) else np.asarray(a[0], dtype=object)

            def get_color(self):
                return kw.get('color', 'line colour')
        return [Line()]

    def plot(self, *a, **kw):
        return self.line('plot', a, kw)

    def errorbar(self, *a, **kw):
        return self.line('errorbar', a, kw)

    def boxplot(self, x, **kw):
        self.calls.append(('boxplot', (x,), kw))
        return {k: [Line2D([], []), Line2D([], [])] for k in ('boxes', 'medians', 'whiskers', 'fliers', 'caps', 'means')}

    def named(self, n):
        return [(a, kw) for c, a, kw in self.calls if c == n]


def listed(x):
    return list(A.base(A.obj(x)).flat)


def averages(w, points, samples):
    mod = w.load(MOD)
    ax = Axes()
    ys = [w.reals('y%d.' % i, samples) for i in range(points)]
    y = w.array(np.array(ys, dtype=object))
    kw = {'ax': ax}
    xs = list(range(points))
    if w.flag('no abscissae'):
        pass
    else:
        xs = w.reals('x', points)
        kw['x'] = w.array(np.array(xs, dtype=object)) if w.flag('array') else list(xs)
    style = ('fill', 'bar', 'both', 'none')[w.int('style', 0, 3).__index__()]
    if style != 'fill':
        kw['var_style'] = style
    var = True
    if w.flag('no spread'):
        kw['var'] = var = False
    if w.flag('coloured'):
        kw['color'] = 'red'
    kw['label'] = 'a label'
    lines = mod.plot_var(y, **kw)
    drawn = [(a, k) for n in ('plot', 'errorbar') for a, k in ax.named(n)]
    w.check(len(drawn) == 1 and lines, 'one curve is drawn')
    a, k = drawn[0]
    w.check_all_eq(listed(a[0]), xs, 'the curve is drawn over its points')
    mean = [sum(r) for r in ys]
    w.check(len(listed(a[1])) == points, 'the curve is the mean of the samples')
    w.check_conj([w.eq(v * samples, m) for v, m in zip(listed(a[1]), mean)], 'the curve is the mean of the samples')
    w.check(k.get('label') == 'a label' and k.get('color') == kw.get('color'), 'options are kept')

    def spread(d, label):
        """d is the standard deviation."""
        w.check(len(d) == points, label)
        for v, r, m in zip(d, ys, mean):
            w.check(w.conj([w.le(0, v), w.eq(v * v * samples ** 3, sum((samples * q - m) * (samples * q - m) for q in r))]), label)
    bars = var and style in ('bar', 'both')
    w.check(('yerr' in k) == bars, 'bars show the standard deviation')
    if bars:
        spread(listed(k['yerr']), 'bars show the standard deviation')
    fills = ax.named('fill_between')
    w.check(len(fills) == (1 if var and style in ('fill', 'both') else 0), 'the area is a standard deviation around the mean')
    for b, k2 in fills:
        w.check_all_eq(listed(b[0]), xs, 'the area is drawn over the points')
        lo, hi = listed(b[1]), listed(b[2])
        w.check_conj([w.eq((p + q) * samples, 2 * m) for p, q, m in zip(lo, hi, mean)],
                     'the area is a standard deviation around the mean')
        spread([(q - p) / 2 for p, q in zip(lo, hi)], 'the area is a standard deviation around the mean')
        w.check(k2.get('color') == kw.get('color', 'line colour'), 'the area has the colour of the curve')


def shown(w, ax, vals, rows, cols):
    (a, kw), = ax.named('pcolormesh')
    w.check(len(a) == 1 and a[0].shape == (rows, cols), 'the values are drawn')
    w.check_all_eq(listed(a[0]), [v for r in vals for v in r], 'the values are drawn')
    for n, size in (('xlim', cols), ('ylim', rows)):
        w.check(list(ax.seen.get(n, ())) == [0, size], 'the whole grid is visible')
    return kw


def ticks(w, ax, which, labels):
    if not labels:
        return
    w.check(ax.seen.get(which + 'labels') == list(labels), 'labels are at their rows and columns')
    w.check(ax.seen.get(which + 'ticks') == [i + .5 for i in range(len(labels))], 'labels are at their rows and columns')


def grid(w, rows, cols):
    mod = w.load(MOD)
    ax = Axes()
    vals = [w.reals('v%d.' % i, cols) for i in range(rows)]
    kw = {'ax': ax}
    xl = names('x', cols) if w.flag('x labels') else None
    yl = names('y', rows) if w.flag('y labels') else None
    if xl:
        kw['xticklabels'] = xl
    if yl:
        kw['yticklabels'] = yl
    own = w.flag('own colours')
    if own:
        kw['cmap'] = 'own'
    mod.pcolormesh(w.array(np.array(vals, dtype=object)), **kw)
    k = shown(w, ax, vals, rows, cols)
    ticks(w, ax, 'x', xl)
    ticks(w, ax, 'y', yl)
    flat = [v for r in vals for v in r]
    if own:
        w.check(k['cmap'] == 'own', 'the colours asked for are used')
        return
    c = getattr(k['cmap'], 'name', k['cmap'])
    if c == 'Reds':
        w.check_conj([w.le(0, v) for v in flat], 'colours depend on the sign of the values')
    elif c == 'Blues':
        w.check_conj([w.le(v, 0) for v in flat], 'colours depend on the sign of the values')
    else:
        w.check(c == 'Blues_r', 'colours depend on the sign of the values')
        w.check(w.neg(w.conj([w.le(0, v, 0.) for v in flat])), 'colours depend on the sign of the values')
        w.check(w.neg(w.conj([w.le(v, 0, 0.) for v in flat])), 'colours depend on the sign of the values')


def beliefs(w, rows, cols):
    mod = w.load('task_models.plot')
    ax = Axes()
    vals = [w.reals('v%d.' % i, cols) if rows * cols < 20 else [i * .5 + j for j in range(cols)] for i in range(rows)]
    st = names('s', cols) if w.flag('states') else None
    yl = names('b', rows) if w.flag('labels') else None
    kw = {'ax': ax}
    if st:
        kw['states'] = st
    if yl:
        kw['ylabels'] = yl
    arr = w.array(np.array(vals, dtype=object))
    if (st or yl) and w.flag('too few'):
        (st or yl).pop()
        w.expect_raises(Exception, lambda: mod.plot_beliefs(arr, **kw), 'labels must fit')
        return
    mod.plot_beliefs(arr, **kw)
    shown(w, ax, vals, rows, cols)
    ticks(w, ax, 'x', st or [str(i) for i in range(cols)])
    ticks(w, ax, 'y', yl or [str(i) for i in range(rows)])


class Current(object):
    """Makes axes the current axes of pyplot."""

    def __init__(self, ax):
        self.ax = ax

    def gca(self, *a, **kw):
        return self.ax

    def __enter__(self):
        self.saved = plt.gca, plt.gcf
        plt.gca, plt.gcf = self.gca, lambda: self

    def __exit__(self, *exc):
        plt.gca, plt.gcf = self.saved


ON_CURRENT = 'without axes, the current axes are used'


def current(w):
    """Every function draws on the axes given, or on the current ones."""
    mod, bel = w.load(MOD), w.load('task_models.plot')
    cur, own = Axes(), Axes()
    kw = {'ax': own} if w.flag('given') else {}
    y = w.array(np.array([w.reals('y%d.' % i, 2) for i in range(2)], dtype=object))
    calls = [('plot', lambda: mod.plot([0, 1], [2, 3], **kw)), ('plot', lambda: mod.plot_var(y, **kw)),
             ('pcolormesh', lambda: mod.pcolormesh(y, **kw)), ('pcolormesh', lambda: bel.plot_beliefs(y, **kw)),
             ('boxplot', lambda: mod.boxplot(y, **kw)), ('legend', lambda: mod.legend(**kw))]
    what, f = calls[w.int('which', 0, len(calls) - 1).__index__()]
    with Current(cur):
        f()
    used, other = (own, cur) if kw else (cur, own)
    w.check(len(used.named(what)) == 1 and not other.calls, ON_CURRENT)


PASSED = 'the data and options given are drawn'


def curves(w, points):
    mod = w.load(MOD)
    ax = Axes()
    x, y = w.reals('x', points), w.reals('y', points)
    kw = {}
    if w.flag('line width'):
        kw['linewidth'] = w.real('width')
    if w.flag('label'):
        kw['label'] = 'a label'
    args = [w.array(np.array(x, dtype=object)), w.array(np.array(y, dtype=object))]
    if w.flag('values only'):
        args = args[1:]
    style = w.flag('style')
    lines = mod.plot(*(args + ['r.'] if style else args), ax=ax, **kw)
    (a, k), = ax.named('plot')
    w.check(len(a) == len(args) + bool(style) and lines, PASSED)
    for p, q in zip(a, args):
        w.check_all_eq(listed(p), listed(q), PASSED)
    if style:
        w.check(a[-1] == 'r.', PASSED)
    if 'linewidth' in kw:
        w.check(w.eq(k['linewidth'], kw['linewidth']), PASSED)
    w.check(k.get('label') == kw.get('label'), PASSED)


def boxes(w, samples, groups):
    mod = w.load(MOD)
    ax = Axes()
    vals = [w.reals('v%d.' % i, groups) for i in range(samples)]
    kw = {}
    labels = names('g', groups) if w.flag('labels') else [] if w.flag('no labels') else None
    if labels is not None:
        kw['xticklabels'] = list(labels)
    if w.flag('widths'):
        kw['widths'] = .4
    color = 'green' if w.flag('colour') else None
    if color:
        kw['color'] = color
    median = 'black' if w.flag('median colour') else None
    if median:
        kw['median_color'] = median
    width = 3 if w.flag('line width') else None
    if width:
        kw['linewidth'] = width
    x = w.array(np.array(vals, dtype=object))
    bp = mod.boxplot(x, ax=ax, **kw)
    (a, k), = ax.named('boxplot')
    w.check(np.shape(A.base(a[0])) == (samples, groups), PASSED)
    w.check_all_eq(listed(a[0]), [v for r in vals for v in r], PASSED)
    if 'widths' in kw:
        w.check(k.get('widths') == .4, PASSED)
    w.check(ax.seen.get('xlabels') == labels, 'labels are at their rows and columns')
    if color:
        w.check(all(l.get_color() == color for n in ('boxes', 'whiskers', 'caps') for l in bp[n]), PASSED)
    if median:
        w.check(all(l.get_color() == median for l in bp['medians']), PASSED)
    if width:
        w.check(all(l.get_linewidth() == width for n in ('boxes', 'whiskers', 'caps') for l in bp[n]), PASSED)


def legends(w):
    mod = w.load(MOD)
    ax, fig, cur = Axes(), Axes(), Axes()
    kw = {}
    if w.flag('fig'):
        kw['fig'] = fig
    if w.flag('ax'):
        kw['ax'] = ax
    loc = 'lower left' if w.flag('loc') else None
    if loc:
        kw['loc'] = loc
    args = [['l1', 'l2'], ['a', 'b']][:w.int('given', 0, 2).__index__()]
    if w.flag('columns'):
        kw['ncol'] = 2
    given = dict(kw)
    with Current(cur):
        mod.legend(*args, **kw)
    used = ax if 'ax' in kw else fig if 'fig' in kw else cur
    w.check(all(len(o.calls) == (o is used) for o in (ax, fig, cur)), 'the legend is on the axes or figure given')
    (a, k), = used.named('legend')
    w.check(list(a) == args and k.get('ncol') == given.get('ncol'), PASSED)
    w.check(k.get('loc') == (loc or 'best'), PASSED)


def colours(w):
    mod = w.load(MOD)
    n = w.int('n', 1, 9)
    seen = []

    def cmap(v, *a, **kw):
        seen.append(v)
        return ('colour', v)
    if w.flag('default map'):
        got = mod.get_n_colors(n.__index__())
        w.check(len(got) == n and len(set(map(tuple, got))) == n, 'there are as many different colours as asked for')
        return
    got = mod.get_n_colors(n.__index__(), cmap)
    w.check(len(got) == n and all(g[0] == 'colour' for g in got), 'there are as many different colours as asked for')
    w.check_conj([w.eq(g[1] * n, i) for i, g in enumerate(got)], 'colours are evenly spread')


GONE = 'exactly what is asked for is removed'


def removals(w, what):
    mod = w.load(MOD)
    ax = Figure().add_subplot()
    ax.set_xticks([0, 1])
    ax.set_yticks([0, 1])
    ax.set_xticklabels(['a', 'b'])
    ax.set_yticklabels(['c', 'd'])
    spines, kw = [], {}
    if what == 'spines':
        spines = [d for d in ('left', 'top', 'right', 'bottom') if w.flag(d)]
    else:
        asked = {}
        for n in ('ticks', 'ticklabels'):
            asked[n] = [None, 'x', 'y', ['x'], ['y'], ['x', 'y'], ['y', 'x'], ('x', 'y')][w.int(n, 0, 7).__index__()]
            if asked[n] is not None:
                kw[n] = asked[n]
        spines = ['top']
    mod.remove_chartjunk(ax, list(spines), **kw)
    for d, sp in ax.spines.items():
        w.check(sp.get_visible() == (d not in spines), GONE)
    for d, axis, texts in (('x', ax.xaxis, 'ab'), ('y', ax.yaxis, 'cd')):
        marks = [t.get_visible() for tick in axis.get_major_ticks() for t in (tick.tick1line,)]
        w.check(all(m == (d not in kw.get('ticks', ())) for m in marks), GONE)
        shown = [t.get_text() for t in axis.get_ticklabels() if t.get_visible() and t.get_text()]
        w.check(shown == ([] if d in kw.get('ticklabels', ()) else list(texts)), GONE)


def instances(tier):
    th = tier == 'thorough'
    V = ['the curve is the mean of the samples', 'the area is a standard deviation around the mean', 'bars show the standard deviation']
    G = ['the values are drawn', 'labels are at their rows and columns', 'the whole grid is visible']
    out = [Inst('averages-%d-%d' % d, averages, V, points=d[0], samples=d[1]) for d in [(1, 1), (2, 2), (1, 3)] + ([(3, 3)] if th else [])]
    out += [Inst('grid-%dx%d' % d, grid, G + ['colours depend on the sign of the values'], rows=d[0], cols=d[1]) for d in [(1, 2), (2, 1), (3, 2)]]
    out += [Inst('current', current, [ON_CURRENT]), Inst('curves-2', curves, [PASSED], points=2), Inst('legends', legends, [PASSED]),
            Inst('boxes-1x1', boxes, [PASSED], samples=1, groups=1), Inst('boxes-3x2', boxes, [PASSED], samples=3, groups=2),
            Inst('colours', colours, ['colours are evenly spread']), Inst('removals-spines', removals, [GONE], what='spines'),
            Inst('removals-ticks', removals, [GONE], what='ticks')]
    return out + [Inst('beliefs-%dx%d' % d, beliefs, G, rows=d[0], cols=d[1]) for d in [(1, 2), (3, 2), (2, 3), (12, 14)]]
