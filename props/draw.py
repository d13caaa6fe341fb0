"""What plotting calls draw: recorded calls -> figures, compared with the figures of the specification.

A figure is what was drawn between its creation and savefig; only these parts are compared: the filled surface, the limits and
markers of its axes, the waveforms and the vertical marks of the other axes (in the order of the axes), the file and format."""
from pyvc.prove import *

IGNORED = {'figure', 'colorbar', 'legend', 'show', 'xlabel', 'ylabel', 'title', 'suptitle', 'text', 'annotate', 'set_title', 'set_ylabel', 'set_xlabel',
           'set_xticks', 'set_yticks', 'set_xticklabels', 'set_yticklabels', 'fill_between', 'axvspan', 'axhspan', 'grid', 'tight_layout', 'tick_params',
           'minorticks_on', 'set_ticks_position', 'set_label', 'set_size', 'set_visible', 'GridSpec', 'invert_yaxis', 'xticks', 'yticks', 'draw', 'pause',
           'ion', 'ioff', 'rcParams', 'blended_transform_factory', 'set_label_position', 'set_label_coords', 'subplots_adjust', 'switch_backend', 'HandlerLine2D', 'use', 'set_size_inches'}
LIMIT = {'xlim': 'x', 'set_xlim': 'x', 'ylim': 'y', 'set_ylim': 'y'}


class Axes(object):
    def __init__(self):
        self.surface, self.marks, self.waves, self.ticks = [], [], [], []
        self.lim = {}


class Figure(object):
    def __init__(self):
        self.axes, self.cur = {}, None

    def at(self, key):
        return self.axes.setdefault(key, Axes())


def copy(f):
    g = Figure()
    for k, a in f.axes.items():
        b = g.at(k)
        b.surface, b.marks, b.waves, b.ticks, b.lim = list(a.surface), list(a.marks), list(a.waves), list(a.ticks), dict(a.lim)
    return g


def figures(P, segs):
    """[(figure, file name, format)]"""
    out, cur = [], [Figure()]

    def deep(seg, wrap, top):
        """wrap(kind, items) puts a draw below the loops and conditions that surround it"""
        if seg[0] == 'rep':
            n, f = seg[1], seg[2]
            k = tm.fresh('k', 'I')
            kn = k.args[0]
            for s in f(k).segs:
                deep(s, lambda v, n=n, kn=kn: wrap(('rep', n, lambda q: Rope([subst_seg(v, {kn: q})]))), False)
            return
        if seg[0] == 'cond':
            for s in (seg[2].segs if isinstance(seg[2], Rope) else seg[2]):
                deep(s, lambda v, c=seg[1]: wrap(('cond', c, Rope([v]))), False)
            return
        if seg[0] != 'item':
            raise Unsupported('drawing calls (%s)' % seg[0])
        name, a, kw = seg[1].items
        a = list(a.items)
        if '.' not in name:
            return
        kind, short = name.split('.', 1)
        fig = cur[0]
        if kind == 'setattr' or kind not in ('plt', 'ax'):
            return
        if kind == 'plt' and short == 'subplot':
            if not top:
                raise Unsupported('axes created in a loop')
            fig.cur = tm.uf('axes', [P.L.freeze_term(x, P.st) for x in a], 'U').id
            fig.at(fig.cur)
            return
        if short in ('figure', 'close', 'clf'):
            if not top:
                raise Unsupported('figures created in a loop')
            cur[0] = Figure()
            return
        key = fig.cur
        if kind == 'ax':
            r = a.pop(0)
            key = r.term.id if isinstance(r, Opq) and r.kind == 'axes' else None
            if short == 'savefig':
                key = fig.cur
        if short == 'savefig':
            if not top:
                raise Unsupported('figures saved in a loop')
            out.append((copy(fig), a[0] if a else kw.get('fname'), kw.get('format')))
            return
        if short in IGNORED:
            return
        if key is None:
            if short in ('plot', 'tricontourf') and kind == 'plt':
                key = fig.cur = 'current'
            else:
                raise Unsupported('drawing call %s on %r' % (name, short_of(seg)))
        ax = fig.at(key)
        if short == 'tricontourf':
            ax.surface.append(wrap(('item', FObj('surface', {'depths': a[0], 'Vp/Vs': a[1], 'values': a[2]}))))
        elif short in LIMIT:
            if len(a) == 1 and not kw:
                a = P.L.concrete_items(a[0], P.st)
            if len(a) != 2 or kw:
                raise Unsupported('limits')
            ax.lim[LIMIT[short]] = (top, Tup(list(a)))
        elif short == 'set' and kind == 'ax' and not a:
            for k, v in kw.items():
                if k in LIMIT:
                    lim = P.L.concrete_items(v, P.st)
                    if len(lim) != 2:
                        raise Unsupported('limits')
                    ax.lim[LIMIT[k]] = (top, Tup(list(lim)))
                elif k not in ('xlabel', 'ylabel', 'title', 'xticks', 'yticks', 'xticklabels', 'yticklabels'):
                    raise Unsupported('axes property ' + k)
        elif short == 'plot':
            xs = [x for x in a if not isinstance(x, str)]
            if len(xs) % 2 or not xs:
                raise Unsupported('plot of %d values' % len(xs))
            for x, y in zip(xs[::2], xs[1::2]):
                draw(P, ax, wrap, x, y)
        else:
            raise Unsupported('drawing call ' + name)

    for s in segs:
        deep(s, lambda v: v, True)
    return out


def short_of(seg):
    return str(seg[1].items[0])


def subst_seg(v, m):
    if v[0] == 'item':
        return ('item', subst_val(v[1], m))
    if v[0] == 'rep':
        return ('rep', tm.subst(v[1], m), lambda q, f=v[2]: subst_val(f(q), m))
    return ('cond', tm.subst(v[1], m), subst_val(v[2], m))


def draw(P, ax, wrap, x, y):
    st = P.st
    if (isinstance(x, T) and x.sort in 'RI') and (isinstance(y, T) and y.sort in 'RI'):
        ax.marks.append(wrap(('item', FObj('marker', {'depth': tm.toreal(x), 'Vp/Vs': tm.toreal(y)}))))
        return
    u, v = P.L.arr(x, st), P.L.arr(y, st)
    n = u.shape[0]
    if tm.isconst(n) and tm.cval(n) == 1:
        ax.marks.append(wrap(('item', FObj('marker', {'depth': u.at(CI(0)), 'Vp/Vs': v.at(CI(0))}))))
    elif tm.isconst(n) and tm.cval(n) == 2:
        half = lambda p, q: tm.mul(tm.const(0.5, 'R'), tm.add(tm.toreal(p), tm.toreal(q)))
        ax.ticks.append(wrap(('item', FObj('mark', {'time': tm.toreal(u.at(CI(0))), 'other end': tm.toreal(u.at(CI(1))), 'centre': half(v.at(CI(0)), v.at(CI(1)))}))))
    else:
        ax.waves.append(wrap(('item', FObj('waveform', {'times': x, 'samples': y}))))


# ---------------------------------------------------------------- comparison
def syntactic(P, a, b):
    """values equal in canonical form (used only to pair draws that may come in any order)"""
    try:
        if isinstance(a, FObj):
            return all(syntactic(P, a.fields[k], b.fields[k]) for k in a.fields)
        if isinstance(a, T) and isinstance(b, T):
            return tm.eq(a, b) is tm.TRUE
        u, v = P.L.arr(a, P.st), P.L.arr(b, P.st)
        if tm.eq(u.shape[0], v.shape[0]) is not tm.TRUE:
            return False
        i = tm.var('pair.i', 'I')
        return tm.eq(u.at(i), v.at(i)) is tm.TRUE
    except Unsupported:
        return False


def skeleton(s):
    """the loops around a draw, and the draw"""
    loops, k = [], 0
    while s[0] != 'item':
        if s[0] == 'rep':
            q = tm.var('draw.%d' % k, 'I')
            loops.append(('rep', s[1], q))
            s = s[2](q).segs[0]
        else:
            loops.append(('cond', s[1], None))
            s = s[2].segs[0]
        k += 1
    return loops, s[1]


def compare(P, name, got, want, hyps=()):
    """the same draws in any order; loops around them must agree"""
    g, w = [skeleton(s) for s in got], [skeleton(s) for s in want]
    kinds = lambda xs: sorted(','.join(l[0] for l in x[0]) for x in xs)
    if kinds(g) != kinds(w):
        if all(not x[0] for x in g + w):
            return P.fail(name, '%d drawn, specified %d' % (len(g), len(w)), hyps)
        return P.undecided(name, 'drawn under %s, specified under %s' % (kinds(g), kinds(w)))
    pairs, left = [], list(g)
    rest = []
    for x in w:
        m = [y for y in left if same_loops(x[0], y[0]) and syntactic(P, y[1], x[1])]
        if m:
            left.remove(m[0])
            pairs.append((m[0], x))
        else:
            rest.append(x)
    for x in rest:
        m = [y for y in left if [l[0] for l in y[0]] == [l[0] for l in x[0]]]
        left.remove(m[0])
        pairs.append((m[0], x))
    for j, (y, x) in enumerate(pairs):
        nm = name if len(pairs) == 1 else '%s<%d>' % (name, j)
        h = list(hyps)
        for a, b in zip(y[0], x[0]):
            P.obl(nm + (' drawn for' if a[0] == 'rep' else ' drawn when'), tm.eq(a[1], b[1]), h)
            h += [tm.le(CI(0), b[2]), tm.lt(b[2], b[1])] if a[0] == 'rep' else [b[1]]
        P.same(nm, y[1], x[1], h)


def same_loops(a, b):
    return len(a) == len(b) and all(p[0] == q[0] and tm.eq(p[1], q[1]) is tm.TRUE for p, q in zip(a, b))


def panels(P, f):
    """axes of a figure: the one with the surface, and the others that show waveforms"""
    s = [a for a in f.axes.values() if a.surface]
    return s, [a for a in f.axes.values() if a not in s and (a.waves or a.ticks or a.marks) and not (a.waves and all(fixed(P, w) for w in a.waves))]


def fixed(P, w):
    """a curve through a fixed number of points (not a waveform)"""
    x = skeleton(w)[1].fields['times']
    return isinstance(x, Tup) or tm.isconst(P.L.arr(x, P.st).shape[0])


def same_figures(P, name, got, want, parts=('waves', 'ticks')):
    if len(got) != len(want):
        return P.fail(name, '%d figures saved, specified %d' % (len(got), len(want)))
    for j, (g, w) in enumerate(zip(got, want)):
        nm = name if len(want) == 1 else '%s figure %d' % (name, j + 1)
        P.same(nm + ' file', g[1], w[1])
        P.same(nm + ' format', g[2], w[2])
        (gs, gp), (ws, wp) = panels(P, g[0]), panels(P, w[0])
        if len(gs) != len(ws):
            P.fail(nm + ' surface', '%d axes with a surface, specified %d' % (len(gs), len(ws)))
            continue
        for a, b in zip(gs, ws):
            compare(P, nm + ' surface', a.surface, b.surface)
            compare(P, nm + ' best model marker', a.marks, b.marks)
            for x in 'xy':
                if x not in a.lim:
                    P.undecided('%s %s limits' % (nm, x), 'no limits set')
                else:
                    P.same('%s %s limits' % (nm, x), a.lim[x][1], b.lim[x][1])
        if len(gp) != len(wp):
            P.fail(nm + ' panels', '%d panels with receiver functions, specified %d' % (len(gp), len(wp)))
            continue
        for i, (a, b) in enumerate(zip(gp, wp)):
            pn = nm if len(wp) == 1 else '%s panel %d' % (nm, i + 1)
            compare(P, pn + ' receiver functions', a.waves, b.waves)
            compare(P, pn + ' predicted times', a.ticks, b.ticks)
            compare(P, pn + ' markers', a.marks, b.marks)
