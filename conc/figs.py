"""What a plotting function draws and saves: figures are recorded when saved, not rendered."""
import os
import numpy as np
import matplotlib
matplotlib.use('Agg')
from matplotlib.axes import Axes
from matplotlib.axis import Axis
from matplotlib.figure import Figure
from matplotlib.collections import LineCollection, PathCollection
import matplotlib.pyplot as plt
from matplotlib.backends.backend_agg import FigureCanvasAgg

COUNT = [0]


def placed(old):
    """tick locations without building the tick artists, which nothing draws"""
    def f(axis, *a, **kw):
        axis.get_major_ticks = axis.get_minor_ticks = lambda n=None: []
        try:
            return old(axis, *a, **kw)
        finally:
            del axis.get_major_ticks, axis.get_minor_ticks
    return f


class Figures:
    def __enter__(self):
        self.saved = []
        self.old = (Figure.savefig, Axes.tricontourf, Axes.contourf, FigureCanvasAgg.draw, Axis._set_tick_locations)
        COUNT[0] += 1
        if COUNT[0] % 10 != 1:      # saving a figure through pyplot draws it once more; every tenth figure is drawn
            FigureCanvasAgg.draw = lambda canvas, *a, **kw: None
            Axis._set_tick_locations = placed(Axis._set_tick_locations)
        me, tri, cont = self, Axes.tricontourf, Axes.contourf

        def savefig(fig, fname=None, *a, **kw):
            me.saved.append(record(fig, fname, kw))

        def tricontourf(ax, *a, **kw):
            v = [a[0].x, a[0].y, a[1]] if hasattr(a[0], 'triangles') else a[:3]
            ax.__dict__.setdefault('surfaces_', []).append([np.array(x, dtype=float) for x in v])
            return tri(ax, *a, **kw)

        def contourf(ax, *a, **kw):
            if len(a) > 2:
                x, y, z = [np.array(v, dtype=float) for v in a[:3]]
                if x.ndim == 1:
                    x, y = np.meshgrid(x, y)
                ax.__dict__.setdefault('surfaces_', []).append([v.ravel() for v in (x, y, z)])
            return cont(ax, *a, **kw)
        Figure.savefig, Axes.tricontourf, Axes.contourf = savefig, tricontourf, contourf
        plt.close('all')
        return self

    def __exit__(self, *e):
        Figure.savefig, Axes.tricontourf, Axes.contourf, FigureCanvasAgg.draw, Axis._set_tick_locations = self.old
        plt.close('all')


def record(fig, fname, kw):
    axes = []
    for ax in fig.axes:
        lines = [(np.asarray(l.get_xdata(), dtype=float).ravel(), np.asarray(l.get_ydata(), dtype=float).ravel()) for l in ax.lines]
        for c in ax.collections:
            if isinstance(c, LineCollection):
                lines += [(s[:, 0], s[:, 1]) for s in c.get_segments()]
            elif type(c) is PathCollection:
                lines += [(np.array([p[0]]), np.array([p[1]])) for p in np.asarray(c.get_offsets())]
        axes.append({'surfaces': getattr(ax, 'surfaces_', []), 'lines': lines, 'xlim': ax.get_xlim(), 'ylim': ax.get_ylim(),
                     'title': ax.get_title(), 'markers': [l for l in lines if len(l[0]) == 1],
                     'ticks': [l for l in lines if len(l[0]) == 2 and l[0][0] == l[0][1]], 'waves': [l for l in lines if len(l[0]) > 6]})
    fname = os.fspath(fname)
    fmt = kw.get('format') or os.path.splitext(fname)[1][1:]
    return {'file': fname, 'dir': os.path.dirname(fname), 'ext': os.path.splitext(fname)[1][1:], 'format': fmt, 'axes': axes}


def saved_as(name, figs, n, savepath, fmt):
    """n figures, each once, in the requested directory and format"""
    if len(figs) != n:
        return [(name, '%d figures saved, specified %d: %s' % (len(figs), n, [f['file'] for f in figs]))]
    bad = []
    if len({f['file'] for f in figs}) != n:
        bad.append((name, 'one file saved more than once: %s' % [f['file'] for f in figs]))
    for f in figs:
        if os.path.normpath(f['dir']) != os.path.normpath(savepath):
            bad.append((name, 'saved in %r, requested %r' % (f['dir'], savepath)))
        if f['format'] != f['ext'] or (fmt is not None and f['format'] != fmt):
            bad.append((name, 'saved as %r (format %r), requested %r' % (f['file'], f['format'], fmt)))
    return bad


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def surface(name, f, x, y, z, best, X, Y):
    """one filled surface, the marker of the best model, limits of the searched grid"""
    ax = [a for a in f['axes'] if a['surfaces']]
    if len(ax) != 1 or len(ax[0]['surfaces']) != 1:
        return [(name, 'surfaces drawn: %s' % [len(a['surfaces']) for a in f['axes']])]
    ax = ax[0]
    bad = []
    x, y, z = by_place([x, y, z])
    for g, w, what in zip(by_place(ax['surfaces'][0]), (x, y, z), ('depths', 'Vp/Vs', 'values')):
        if not near(g, w):
            i = int(np.argmax(np.abs(g - w))) if g.shape == np.shape(w) else -1
            bad.append((name + ' surface', '%s shown %s, specified %s' % (what, g[i], np.asarray(w)[i])))
    m = ax['markers']
    ok = len(m) == 1 and any(near([m[0][0][0], m[0][1][0]], b) for b in best)
    if not ok:
        bad.append((name + ' marker', 'markers at %s, specified %s' % ([(p[0][0], p[1][0]) for p in m], [tuple(b) for b in best])))
    if not near(sorted(ax['xlim']), [min(X), max(X)]) or not near(sorted(ax['ylim']), [min(Y), max(Y)]):
        bad.append((name + ' limits', 'axes %r x %r, searched %r x %r' % (ax['xlim'], ax['ylim'], (min(X), max(X)), (min(Y), max(Y)))))
    return bad


def by_place(s):
    """the points of a surface in the order of their places (equal places: by value)"""
    s = [np.asarray(v, dtype=float) for v in s]
    if len({v.shape for v in s}) != 1:
        return s
    o = np.lexsort((s[2], np.round(s[1], 9), np.round(s[0], 9)))
    return [v[o] for v in s]
