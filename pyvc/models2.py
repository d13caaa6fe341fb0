"""Assumed contracts of further library functions (used by rewrites of the code, not by the code as it stands)."""
from . import terms as tm
from .terms import T
from . import smt
from .values import Unsupported, Cx, Tup, Arr, ARef, LRef, DRef, Opq, Rope, Lib
from .models import reg, bind, call, TABLE, READS_KW, C, Z, ONE, R0, axis_of, reduce_axis, agg, mapped


def const(L, v, st, what):
    v = L.num(v, st)
    if not tm.isconst(v):
        raise Unsupported(what)
    return int(tm.cval(v))


# ------------------------------------------------------------------ array arithmetic by name
for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'), ('floor_divide', 'FloorDiv'),
               ('mod', 'Mod'), ('remainder', 'Mod')):
    def _op(L, a, kw, st, o=_o):
        if len(a) != 2:
            raise Unsupported('output argument')
        return L.binop(o, a[0], a[1], st)
    TABLE['numpy.' + _n] = _op
    TABLE['operator.' + {'multiply': 'mul', 'subtract': 'sub', 'divide': 'truediv', 'true_divide': 'truediv'}.get(_n, _n)] = _op


@reg('numpy.negative', 'operator.neg')
def _neg(L, a, kw, st):
    return L.unop('USub', a[0], st)


@reg('numpy.reciprocal')
def _recip(L, a, kw, st):
    return L.binop('Div', tm.const(1, 'R'), a[0], st)


@reg('numpy.hypot', 'math.hypot')
def _hypot(L, a, kw, st):
    if len(a) != 2:
        raise Unsupported('hypot')
    return L.mapn(lambda x, y: tm.sqrt(tm.add(tm.mul(L.num(x), L.num(x)), tm.mul(L.num(y), L.num(y)))), st, a[0], a[1])


for _n, _o in (('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE'), ('equal', 'Eq'), ('not_equal', 'NotEq')):
    def _cmp(L, a, kw, st, o=_o):
        return L.compare(o, a[0], a[1], st)
    TABLE['numpy.' + _n] = _cmp


@reg('numpy.logical_and')
def _land(L, a, kw, st):
    return L.mapn(lambda x, y: tm.and_(L.I.truth(x, st), L.I.truth(y, st)), st, a[0], a[1])


@reg('numpy.logical_or')
def _lor(L, a, kw, st):
    return L.mapn(lambda x, y: tm.or_(L.I.truth(x, st), L.I.truth(y, st)), st, a[0], a[1])


@reg('numpy.logical_not')
def _lnot(L, a, kw, st):
    return L.mapn(lambda x: tm.not_(L.I.truth(x, st)), st, a[0])


@reg('numpy.complex128', 'numpy.complex64', 'numpy.complex_')
def _cplx(L, a, kw, st):
    return L.mapn(lambda x: L.cx(x), st, a[0])


# ------------------------------------------------------------------ shapes
@reg('numpy.shape')
def _shape(L, a, kw, st):
    return Tup(L.arr(a[0], st).shape)


@reg('numpy.ndim')
def _ndim(L, a, kw, st):
    v = L.I.res(a[0], st)
    return Z if isinstance(v, (T, Cx)) else C(L.arr(v, st).ndim)


def asref(L, v, st):
    v = L.I.res(v, st)
    return v if isinstance(v, (ARef, Arr)) else call(L, 'numpy.array', [v], {}, st)


for _n in ('ravel', 'reshape', 'transpose', 'squeeze'):
    def _m(L, a, kw, st, n=_n):
        from .models import arr_method
        return arr_method(L, asref(L, a[0], st), n, a[1:], kw, st)
    TABLE['numpy.' + _n] = _m
    READS_KW.add('numpy.' + _n)


@reg('numpy.roll')
def _roll(L, a, kw, st):
    b = bind(['a', 'shift', 'axis'], a, kw, axis=None)
    x = L.arr(b['a'], st)
    if x.ndim != 1:
        raise Unsupported('roll')
    n = x.shape[0]
    s = L.num(b['shift'], st)
    return L.new(Arr(x.shape, lambda i: x.at(tm.imod(tm.sub(i, s), n))), st)


@reg('numpy.expand_dims')
def _expand(L, a, kw, st):
    b = bind(['a', 'axis'], a, kw)
    x = L.arr(b['a'], st)
    ax = const(L, b['axis'], st, 'axis') % (x.ndim + 1)
    sh = x.shape[:ax] + (ONE,) + x.shape[ax:]
    return L.view(Arr(sh, lambda *i: x.at(*(i[:ax] + i[ax + 1:]))), st)


@reg('numpy.atleast_1d')
def _al1(L, a, kw, st):
    v = L.I.res(a[0], st)
    if isinstance(v, (T, Cx)):
        return L.new(Arr((ONE,), lambda i: v), st)
    return asref(L, v, st)


@reg('numpy.outer', 'numpy.multiply.outer')
def _outer(L, a, kw, st):
    x, y = L.arr(a[0], st), L.arr(a[1], st)
    if x.ndim != 1 or y.ndim != 1:
        raise Unsupported('outer')
    return L.new(Arr((x.shape[0], y.shape[0]), lambda i, j: L.s_mul(x.at(i), y.at(j))), st)


@reg('numpy.meshgrid')
def _meshgrid(L, a, kw, st):
    ix = kw.get('indexing', 'xy')
    if set(kw) - {'indexing'} or len(a) != 2 or ix not in ('xy', 'ij'):
        raise Unsupported('meshgrid')
    x, y = L.arr(a[0], st), L.arr(a[1], st)
    if ix == 'xy':
        sh = (y.shape[0], x.shape[0])
        return Tup([L.new(Arr(sh, lambda i, j: x.at(j)), st), L.new(Arr(sh, lambda i, j: y.at(i)), st)])
    sh = (x.shape[0], y.shape[0])
    return Tup([L.new(Arr(sh, lambda i, j: x.at(i)), st), L.new(Arr(sh, lambda i, j: y.at(j)), st)])


@reg('numpy.repeat')
def _repeat(L, a, kw, st):
    b = bind(['a', 'repeats', 'axis'], a, kw, axis=None)
    x, m = L.arr(b['a'], st), L.num(b['repeats'], st)
    if x.ndim == 0:
        return L.new(Arr((m,), lambda i: x.at()), st)
    if x.ndim != 1:
        raise Unsupported('repeat')
    return L.new(Arr((tm.mul(x.shape[0], m),), lambda i: x.at(tm.idiv(i, m))), st)


@reg('numpy.tile')
def _tile(L, a, kw, st):
    b = bind(['A', 'reps'], a, kw)
    x = L.arr(b['A'], st)
    if isinstance(L.I.res(b['reps'], st), (Tup, LRef)):
        r = [L.num(y, st) for y in L.concrete_items(b['reps'], st)]
        if len(r) == 2 and x.ndim == 1:
            n = x.shape[0]
            return L.new(Arr((r[0], tm.mul(n, r[1])), lambda i, j: x.at(tm.imod(j, n))), st)
        raise Unsupported('tile')
    m = L.num(b['reps'], st)
    if x.ndim == 0:
        return L.new(Arr((m,), lambda i: x.at()), st)
    if x.ndim != 1:
        raise Unsupported('tile')
    n = x.shape[0]
    return L.new(Arr((tm.mul(n, m),), lambda i: x.at(tm.imod(i, n))), st)


@reg('numpy.pad')
def _pad(L, a, kw, st):
    mode = a[2] if len(a) > 2 else kw.get('mode', 'constant')
    if mode != 'constant' or set(kw) - {'mode', 'pad_width'}:
        raise Unsupported('pad mode')
    x = L.arr(a[0], st)
    w = L.I.res(a[1] if len(a) > 1 else kw['pad_width'], st)
    if x.ndim != 1:
        raise Unsupported('pad')
    if isinstance(w, (Tup, LRef)):
        w = [L.num(y, st) for y in L.concrete_items(w, st)]
        if len(w) != 2:
            raise Unsupported('pad')
    else:
        w = [L.num(w, st)] * 2
    n = x.shape[0]
    return L.new(Arr((tm.add(n, tm.add(w[0], w[1])),), lambda i: L.I.merge_val(
        tm.and_(tm.le(w[0], i), tm.lt(tm.sub(i, w[0]), n)), x.at(tm.sub(i, w[0])), R0, None, None, None)), st)


@reg('numpy.take')
def _take(L, a, kw, st):
    if kw or len(a) != 2:
        raise Unsupported('take options')
    return L.getitem(asref(L, a[0], st), a[1], st)


# ------------------------------------------------------------------ reductions
@reg('numpy.vdot')
def _vdot(L, a, kw, st):
    x = call(L, 'numpy.conj', [a[0]], {}, st)
    e = L.arr(a[0], st)
    if isinstance(e.at(*[tm.fresh('p', 'I') for _ in e.shape]), T):
        x = a[0]
    return L.matmul(x, a[1], st)


@reg('numpy.inner')
def _inner(L, a, kw, st):
    if L.arr(a[0], st).ndim != 1 or L.arr(a[1], st).ndim != 1:
        raise Unsupported('inner')
    return L.matmul(a[0], a[1], st)


@reg('numpy.linalg.norm')
def _norm(L, a, kw, st):
    x = L.arr(a[0], st)
    if len(a) > 1 or kw or x.ndim != 1:
        raise Unsupported('norm options')

    def sq(i):
        e = x.at(i)
        return tm.add(tm.mul(e.re, e.re), tm.mul(e.im, e.im)) if isinstance(e, Cx) else tm.mul(L.num(e), L.num(e))
    return tm.sqrt(L.asum(Arr(x.shape, sq), x.shape[0]))


@reg('numpy.var')
def _var(L, a, kw, st):
    def f(y):
        m = L.s_div(L.asum(y, y.shape[0]), y.shape[0])
        d = Arr(y.shape, lambda i: (lambda z: tm.mul(z, z))(tm.sub(L.num(y.at(i)), m)))
        return L.s_div(L.asum(d, y.shape[0]), y.shape[0])
    return reduce_axis(L, L.arr(a[0], st), axis_of(L, a, kw, st), f, st)


@reg('numpy.count_nonzero')
def _cnz(L, a, kw, st):
    x = L.arr(a[0], st)
    if x.ndim != 1 or len(a) > 1:
        raise Unsupported('count_nonzero')
    return L.asum(Arr(x.shape, lambda i: tm.ite(L.I.truth(x.at(i), st), ONE, Z)), x.shape[0])


@reg('numpy.ptp')
def _ptp(L, a, kw, st):
    x = L.arr(a[0], st)
    if len(a) > 1:
        raise Unsupported('ptp axis')
    return tm.sub(agg(L, 'Max', x, st), agg(L, 'Min', x, st))


@reg('numpy.prod', 'math.prod')
def _prod(L, a, kw, st):
    if len(a) > 1:
        raise Unsupported('prod')
    its = L.concrete_items(a[0], st)
    acc = ONE
    for x in its:
        acc = L.binop('Mult', acc, x, st)
    return acc


@reg('numpy.unravel_index')
def _unravel(L, a, kw, st):
    sh = [L.num(x, st) for x in L.concrete_items(a[1], st)]
    if len(sh) != 2:
        raise Unsupported('unravel_index')
    i = L.num(a[0], st)
    return Tup([tm.idiv(i, sh[1]), tm.imod(i, sh[1])])


@reg('numpy.flatnonzero')
def _fnz(L, a, kw, st):
    return L.getitem(call(L, 'numpy.where', [call(L, 'numpy.ravel', [a[0]], {}, st)], {}, st), Z, st)


@reg('numpy.nonzero')
def _nz(L, a, kw, st):
    return call(L, 'numpy.where', [a[0]], {}, st)


@reg('numpy.copyto')
def _copyto(L, a, kw, st):
    if len(a) != 2:
        raise Unsupported('copyto')
    L.write_region(L.I.res(a[0], st), L.arr(a[1], st), st)
    return None


@reg('numpy.identity', 'numpy.eye')
def _eye(L, a, kw, st):
    from .models import checkdtype, iscomplex
    b = bind(['N', 'dtype'], a, kw, dtype=None)
    checkdtype(b['dtype'])
    n = L.num(b['N'], st)
    one = lambda i, j: tm.ite(tm.eq(i, j), tm.const(1, 'R'), R0)
    return L.new(Arr((n, n), (lambda i, j: Cx(one(i, j), R0)) if iscomplex(b['dtype']) else one), st)


@reg('numpy.fft.fftshift', 'numpy.fft.ifftshift', 'numpy.fft.rfft', 'numpy.fft.irfft')
def _shift(L, a, kw, st):
    raise Unsupported('transform variant')


# ------------------------------------------------------------------ python helpers
@reg('functools.partial')
def _partial(L, a, kw, st):
    f, pre, pk = a[0], list(a[1:]), dict(kw)

    def g(args, kw2, st2):
        k = dict(pk)
        k.update(kw2)
        return L.I.call(f, pre + list(args), k, st2)
    return ('pyfn', g)


@reg('functools.reduce')
def _reduce(L, a, kw, st):
    its = L.concrete_items(a[1], st)
    if len(its) > 64:
        raise Unsupported('reduce')
    if len(a) > 2:
        acc = a[2]
    else:
        acc, its = its[0], its[1:]
    for x in its:
        acc = L.I.call(a[0], [acc, x], {}, st)
    return acc


@reg('operator.itemgetter')
def _ig(L, a, kw, st):
    if len(a) == 1:
        return ('pyfn', lambda args, k, s: L.getitem(args[0], a[0], s))
    return ('pyfn', lambda args, k, s: Tup([L.getitem(args[0], x, s) for x in a]))


@reg('operator.attrgetter')
def _ag(L, a, kw, st):
    if len(a) != 1 or not isinstance(a[0], str) or '.' in a[0]:
        raise Unsupported('attrgetter')
    return ('pyfn', lambda args, k, s: L.I.getattr(args[0], a[0], s))


@reg('itertools.starmap')
def _starmap(L, a, kw, st):
    f = a[0]
    return ('map', ('pyfn', lambda args, k, s: L.I.call(f, L.concrete_items(args[0], s), {}, s)), a[1])


@reg('itertools.chain')
def _chain(L, a, kw, st):
    l = LRef(st.alloc(Rope([])))
    for x in a:
        L.list_extend(l, x, st)
    return l


@reg('itertools.repeat')
def _irepeat(L, a, kw, st):
    if len(a) == 1:
        return ('repeat', a[0])
    l = LRef(st.alloc(Rope([])))
    n = L.num(a[1], st)
    st.heap[l.lid] = Rope([('sym', n, lambda q: a[0])])
    return l


@reg('pathlib.Path')
def _path(L, a, kw, st):
    if len(a) != 1:
        raise Unsupported('Path of several parts')
    t = a[0].term if isinstance(a[0], Opq) and a[0].kind == 'path' else None
    if t is not None:
        return a[0]
    s = L.sterm(a[0])
    if s is None:
        raise Unsupported('Path')
    return Opq(tm.uf('Path', [s], 'U'), 'path')


@reg('itertools.accumulate')
def _accumulate(L, a, kw, st):
    if len(a) != 1:
        raise Unsupported('accumulate')
    return call(L, 'numpy.cumsum', [a[0]], {}, st)


@reg('builtins.getattr')
def _getattr(L, a, kw, st):
    if not isinstance(a[1], str) or len(a) != 2:
        raise Unsupported('getattr')
    return L.I.getattr(a[0], a[1], st)


@reg('builtins.setattr')
def _setattr(L, a, kw, st):
    if not isinstance(a[1], str):
        raise Unsupported('setattr')
    L.I.setattr(a[0], a[1], a[2], st)
    return None


@reg('builtins.format')
def _format(L, a, kw, st):
    return L.tostr(a[0], a[1] if len(a) > 1 else '', st)


@reg('builtins.callable')
def _callable(L, a, kw, st):
    raise Unsupported('callable')


@reg('math.isnan')
def _isnan(L, a, kw, st):
    return tm.FALSE


@reg('math.radians', 'numpy.radians', 'numpy.deg2rad')
def _rad(L, a, kw, st):
    return L.mapn(lambda x: tm.div(tm.mul(L.num(x), tm.var('pi', 'R')), C(180)), st, a[0])


@reg('math.isclose', 'numpy.isclose', 'numpy.allclose')
def _close(L, a, kw, st):
    raise Unsupported('approximate comparison')
