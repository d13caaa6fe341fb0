"""Assumed contracts of library functions (dispatch by fully qualified name)."""
from . import terms as tm
from .terms import T
from . import smt
from .values import (Unsupported, Cx, Poison, Tup, Opt, Arr, ARef, Choice, Buf, LRef, DRef, ORef,
                     StRef, TrRef, StatsRef, Rope, SRec, ORec, Fn, Cls, Lib, Opq, Sl, WhereIdx,
                     isnum, subst_val, has_vars, FObj)

C = tm.const
Z, ONE = tm.const(0), tm.const(1)
R0 = tm.const(0, 'R')


def bind(names, args, kw, **defaults):
    out = dict(defaults)
    for n, a in zip(names, args):
        out[n] = a
    if len(args) > len(names):
        raise Unsupported('too many library arguments')
    for k, v in kw.items():
        if k not in names:
            raise Unsupported('library keyword ' + k)
        out[k] = v
    return out


CANON = {
    'scipy.fft.fft': 'fft', 'numpy.fft.fft': 'fft', 'scipy.fftpack.fft': 'fft',
    'scipy.fft.ifft': 'ifft', 'numpy.fft.ifft': 'ifft', 'scipy.fftpack.ifft': 'ifft',
    'scipy.signal.detrend': 'detrend', 'scipy.signal.find_peaks': 'find_peaks',
    'obspy.geodetics.base.kilometer2degrees': 'kilometer2degrees', 'obspy.geodetics.kilometer2degrees': 'kilometer2degrees',
    'obspy.signal.util.next_pow_2': 'next_pow_2',
    'sklearn.metrics.mean_squared_error': 'mean_squared_error',
    'obspy.signal.tf_misfit.pg': 'pg',
    'itertools.product': 'product',
    'obspy.Trace': 'Trace', 'obspy.core.trace.Trace': 'Trace', 'obspy.core.Trace': 'Trace',
    'obspy.Stream': 'Stream', 'obspy.core.stream.Stream': 'Stream', 'obspy.core.Stream': 'Stream',
    'math.sqrt': 'numpy.sqrt', 'math.exp': 'numpy.exp', 'math.cos': 'numpy.cos', 'math.sin': 'numpy.sin',
    'math.fabs': 'numpy.abs', 'math.floor': 'math.floor',
    'numpy.absolute': 'numpy.abs', 'builtins.abs': 'numpy.abs', 'numpy.fabs': 'numpy.abs',
    'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'numpy.conjugate': 'numpy.conj',
    'numpy.ascontiguousarray': 'numpy.asarray', 'numpy.asanyarray': 'numpy.asarray',
    'numpy.dot': 'numpy.matmul', 'numpy.average': 'numpy.mean', 'numpy.nanmean': 'numpy.mean', 'numpy.nansum': 'numpy.sum',
    'numpy.nanargmax': 'numpy.argmax', 'numpy.nanargmin': 'numpy.argmin', 'numpy.nanmin': 'numpy.min', 'numpy.nanmax': 'numpy.max', 'numpy.nanstd': 'numpy.std',
}

PLOT_PREFIX = ('matplotlib.', 'seaborn.')


def call(L, name, args, kw, st):
    name = CANON.get(name, name)
    h = TABLE.get(name)
    if h is not None:
        if kw and name not in READS_KW:
            raise Unsupported('keyword arguments of ' + name)
        if name in UNARY and len(args) != 1:
            raise Unsupported('arguments of ' + name)
        return h(L, args, kw, st)
    if name.startswith(PLOT_PREFIX):
        return plotcall(L, name, args, kw, st)
    raise Unsupported('library function ' + name)


def plotcall(L, name, args, kw, st):
    short = name.split('.')[-1]
    if name.startswith('matplotlib.pyplot'):
        L.I.effect(st, 'plt.' + short, args, kw)
    if short == 'subplot':
        ts = [L.freeze_term(a, st) for a in args]
        return Opq(tm.uf('axes', ts, 'U'), 'axes')
    if short == 'GridSpec':
        return Opq(tm.uf('grid', [tm.fresh('grid', 'I')], 'U'), 'gs')
    if short == 'subplots':
        t = tm.uf('subplots', [tm.fresh('fig', 'I')], 'U')
        return Opq(t, 'axes')
    if short == 'gca':
        return Opq(tm.uf('axes', [tm.strc('gca')], 'U'), 'axes')
    return Opq(tm.uf('plt.' + short, [tm.fresh('o', 'I')], 'U'), 'artist')


TABLE = {}
READS_KW = set()        # library contracts that look at keyword arguments
UNARY = {'numpy.' + x for x in 'abs sqrt exp cos sin sign real imag conj square floor ceil isnan flipud'.split()}


def reads_kw(f):
    import dis
    if f.__code__.co_varnames[:4][-2:] != ('kw', 'st') and 'kw' not in f.__code__.co_varnames[:4]:
        return True
    return any(i.argval == 'kw' and i.opname.startswith('LOAD') for i in dis.get_instructions(f)) or 'kw' in f.__code__.co_cellvars


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
            if reads_kw(f):
                READS_KW.add(n)
        return f
    return d


# ---------------------------------------------------------------- builtins
@reg('builtins.len', 'numpy.size')
def _len(L, a, kw, st):
    return L.length(a[0], st)


@reg('builtins.range')
def _range(L, a, kw, st):
    a = [L.num(x, st) for x in a]
    if any(x.sort != 'I' for x in a):
        raise Unsupported('range of reals')
    if len(a) == 1:
        return ('range', Z, a[0], ONE)
    if len(a) == 2:
        return ('range', a[0], a[1], ONE)
    return ('range', a[0], a[1], a[2])


@reg('builtins.zip')
def _zip(L, a, kw, st):
    return ('zip', a)


@reg('builtins.map')
def _map(L, a, kw, st):
    return ('map', a[0], a[1])


@reg('builtins.reversed')
def _rev(L, a, kw, st):
    return ('rev', a[0])


@reg('builtins.enumerate')
def _enum(L, a, kw, st):
    start = a[1] if len(a) > 1 else kw.get('start', Z)
    return ('enum', a[0], start)


@reg('product')
def _product(L, a, kw, st):
    return ('product', a)


@reg('builtins.print', 'warnings.warn', 'warnings.filterwarnings', 'warnings.simplefilter')
def _print(L, a, kw, st):
    return None


@reg('builtins.isinstance')
def _isinstance(L, a, kw, st):
    v = L.I.res(a[0], st)
    cl = a[1].items if isinstance(a[1], Tup) else [a[1]]
    names = []
    for c in cl:
        if isinstance(c, Lib):
            names.append(c.name.split('.')[-1])
        elif isinstance(c, Cls):
            names.append(c.name)
        else:
            raise Unsupported('isinstance class')
    have = set()
    if isinstance(v, T):
        have = {'R': {'float', 'float64', 'floating'}, 'I': {'int', 'int64', 'integer'}, 'B': {'bool', 'int'}, 'S': {'str'}}.get(v.sort, set())
        if v.sort == 'U':
            raise Unsupported('isinstance of opaque')
    elif isinstance(v, str):
        have = {'str'}
    elif isinstance(v, (ARef, Arr)):
        have = {'ndarray'}
    elif isinstance(v, (LRef, Rope)):
        have = {'list'}
    elif isinstance(v, Tup):
        have = {'tuple'}
    elif isinstance(v, DRef):
        have = {'dict'}
    elif v is None:
        have = {'NoneType'}
    elif isinstance(v, StRef):
        have = {'Stream', 'RFStream'}
    elif isinstance(v, (ORef, FObj)):
        r = st.heap[v.oid] if isinstance(v, ORef) else v
        have = {r.cls if isinstance(r.cls, str) else r.cls.name}
    else:
        raise Unsupported('isinstance')
    return tm.boolc(bool(have & set(names)))


@reg('builtins.list', 'builtins.tuple')
def _list(L, a, kw, st):
    if not a:
        return LRef(st.alloc(Rope([])))
    l = LRef(st.alloc(Rope([])))
    L.list_extend(l, a[0], st)
    return l


@reg('builtins.dict')
def _dict(L, a, kw, st):
    d = {}
    if a:
        v = L.I.res(a[0], st)
        if isinstance(v, DRef):
            d.update(st.heap[v.did])
        else:
            for it in L.concrete_items(v, st):
                k, x = L.unpack(it, 2, st)
                d[L.key(k)] = x
    d.update(kw)
    return DRef(st.alloc(d))


@reg('builtins.int', 'numpy.int64', 'numpy.int32', 'numpy.int_', 'numpy.intp')
def _int(L, a, kw, st):
    v = L.I.res(a[0], st)
    if isinstance(v, (ARef, Arr)) and v.ndim:
        return L.mapn(tm.trunc, st, v)
    return tm.trunc(L.num(v, st))


@reg('builtins.float', 'numpy.float64', 'numpy.float_', 'numpy.double')
def _float(L, a, kw, st):
    v = L.I.res(a[0], st)
    if isinstance(v, str) or (isinstance(v, T) and v.sort == 'S'):
        return tm.uf('float', [L.sterm(v)], 'R')
    if isinstance(v, Opq):
        return tm.uf('float', [v.term], 'R')
    return tm.toreal(L.num(v, st))


@reg('builtins.str')
def _str(L, a, kw, st):
    return L.tostr(a[0], '', st)


@reg('builtins.bool')
def _bool(L, a, kw, st):
    return L.I.truth(a[0], st)


@reg('builtins.complex')
def _complex(L, a, kw, st):
    re = L.num(a[0], st)
    im = L.num(a[1], st) if len(a) > 1 else R0
    return Cx(re, im)


@reg('builtins.round', 'numpy.round', 'numpy.around', 'numpy.rint', 'numpy.round_')
def _round(L, a, kw, st):
    nd = a[1] if len(a) > 1 else kw.get('ndigits', kw.get('decimals'))
    if nd is not None:
        nd = L.num(nd, st)
        if not (tm.isconst(nd) and tm.cval(nd) == 0):
            return L.mapn(lambda x: tm.uf('roundn', [tm.toreal(x), nd], 'R'), st, a[0])
    return L.mapn(lambda x: tm.round_(L.num(x)), st, a[0])


@reg('math.floor', 'numpy.floor')
def _floor(L, a, kw, st):
    return L.mapn(lambda x: tm.floor_(L.num(x)), st, a[0])


@reg('math.ceil', 'numpy.ceil')
def _ceil(L, a, kw, st):
    return L.mapn(lambda x: tm.neg(tm.floor_(tm.neg(L.num(x)))), st, a[0])


@reg('builtins.pow', 'numpy.power', 'math.pow')
def _pow(L, a, kw, st):
    return L.mapn(L.s_pow, st, a[0], a[1])


@reg('numpy.square')
def _square(L, a, kw, st):
    return L.mapn(lambda x: L.s_mul(x, x), st, a[0])


def minmax(L, args, st, ismax):
    if len(args) == 1:
        v = L.I.res(args[0], st)
        if isinstance(v, (LRef, Tup, Rope)) and tm.isconst(L.length(v, st)):
            items = L.concrete_items(v, st)
            return minmax(L, items, st, ismax)
        a = L.arr(v, st)
        return agg(L, 'Max' if ismax else 'Min', a, st)
    r = L.num(args[0], st)
    for x in args[1:]:
        x = L.num(x, st)
        c = tm.le(x, r) if ismax else tm.le(r, x)
        r = tm.ite(c, r, x)
    return r


def agg(L, name, a, st):
    if a.ndim == 2:
        n = tm.mul(a.shape[0], a.shape[1])
        b = Arr((n,), lambda i: a.at(tm.idiv(i, a.shape[1]), tm.imod(i, a.shape[1])))
        return agg(L, name, b, st)
    v = tm.fresh('q', 'I')
    e = L.num(a.at(v))
    if name in ('Max', 'Min'):
        if v.args[0] not in e.fv:
            return e
        if name == 'Max' and e.op == 'uf' and e.args[0] == 'correlate' and e.args[1] is e.args[2]:
            # full autocorrelation: largest at zero lag (Cauchy-Schwarz)
            zero = L.I.zero_lag.get(e.args[1].id)
            off = tm.sub(e.args[3], v)
            if zero is not None and v.args[0] not in off.fv and smt.entails(st.pc, tm.and_(tm.le(off, zero), tm.lt(zero, tm.add(off, a.shape[0])))):
                L.I.assumptions.add('lemma: the full autocorrelation of a real sequence is largest at zero lag (Cauchy-Schwarz)')
                return tm.uf('correlate', list(e.args[1:3]) + [zero], 'R')
        return tm.binder(name, Z, a.shape[0], v, tm.toreal(e), 'R')
    return tm.binder(name, Z, a.shape[0], v, tm.toreal(e), 'I')


def extreme_by_key(L, a, kw, st, ismax):
    if set(kw) - {'key'} or len(a) != 1:
        raise Unsupported('max/min with default')
    n, g = L.seq(a[0], st)
    key = kw['key']
    if not smt.entails(st.pc, tm.lt(Z, n)):
        raise Unsupported('max/min of a sequence that may be empty')

    def at(q):
        s = st.copy()
        s.assume(tm.le(Z, q))
        s.assume(tm.lt(q, n))
        m = len(s.eff)
        r = L.num(L.I.call(key, [g(q, s)], {}, s), s)
        if len(s.eff) != m:
            raise Unsupported('key function with effects')
        return r
    return g(agg(L, 'ArgMax' if ismax else 'ArgMin', Arr((n,), at), st), st)


@reg('builtins.max')
def _bmax(L, a, kw, st):
    if kw:
        return extreme_by_key(L, a, kw, st, True)
    return minmax(L, a, st, True)


@reg('builtins.min')
def _bmin(L, a, kw, st):
    if kw:
        return extreme_by_key(L, a, kw, st, False)
    return minmax(L, a, st, False)


@reg('builtins.divmod', 'numpy.divmod')
def _divmod(L, a, kw, st):
    return Tup([L.binop('FloorDiv', a[0], a[1], st), L.binop('Mod', a[0], a[1], st)])


@reg('numpy.polyval')
def _polyval(L, a, kw, st):
    c = L.concrete_items(a[0], st)
    acc = c[0]
    for x in c[1:]:
        acc = L.binop('Add', L.binop('Mult', acc, a[1], st), x, st)
    return acc


@reg('numpy.fft.fftfreq')
def _fftfreq(L, a, kw, st):
    n = L.num(a[0], st)
    d = L.num(a[1] if len(a) > 1 else kw.get('d', C(1)), st)
    half = tm.add(tm.idiv(tm.sub(n, ONE), C(2)), ONE)
    return L.new(Arr((n,), lambda k: L.s_div(tm.toreal(tm.ite(tm.lt(k, half), k, tm.sub(k, n))), tm.mul(tm.toreal(n), tm.toreal(d)))), st)


@reg('builtins.any', 'numpy.any')
def _any(L, a, kw, st):
    v = L.I.res(a[0], st)
    if isinstance(v, (LRef, Tup)):
        n = L.length(v, st)
        if tm.isconst(n):
            return tm.or_(*[L.I.truth(x, st) for x in L.concrete_items(v, st)])
    ar = L.arr(v, st)
    if ar.ndim != 1:
        raise Unsupported('any')
    q = tm.fresh('q', 'I')
    e = L.I.truth(ar.at(q), st)
    return tm.lt(Z, tm.mk_sum(Z, ar.shape[0], q, tm.ite(e, ONE, Z)))


@reg('builtins.all', 'numpy.all')
def _all(L, a, kw, st):
    v = L.I.res(a[0], st)
    if isinstance(v, (LRef, Tup)):
        n = L.length(v, st)
        if tm.isconst(n):
            return tm.and_(*[L.I.truth(x, st) for x in L.concrete_items(v, st)])
    ar = L.arr(v, st)
    q = tm.fresh('q', 'I')
    e = L.I.truth(ar.at(q), st)
    return tm.not_(tm.lt(Z, tm.mk_sum(Z, ar.shape[0], q, tm.ite(e, Z, ONE))))


@reg('builtins.sorted')
def _sorted(L, a, kw, st):
    v = L.I.res(a[0], st)
    if isinstance(v, (LRef, Tup)) and not kw:
        its = L.concrete_items(v, st)
        if all(isinstance(x, str) for x in its):
            return LRef(st.alloc(Rope([('item', x) for x in sorted(its)])))
    if isinstance(v, Opq) and not kw:
        return Opq(tm.uf('sorted', [v.term], 'U'), v.kind)
    if isinstance(v, LRef) and not kw:
        t = L.freeze_term(v, st)
        n = L.length(v, st)
        return LRef(st.alloc(Rope([('sym', n, lambda k: tm.uf('sorted.item', [t, k], 'R'))])))
    raise Unsupported('sorted')


@reg('builtins.type')
def _type(L, a, kw, st):
    raise Unsupported('type()')


@reg('builtins.ValueError', 'builtins.TypeError', 'builtins.Exception', 'builtins.KeyError', 'builtins.IndexError',
     'builtins.RuntimeError')
def _exc(L, a, kw, st):
    return Opq(tm.uf('exc', [], 'U'), 'exc')


# ---------------------------------------------------------------- numpy
def shape_of(L, v, st):
    v = L.I.res(v, st)
    if isinstance(v, (Tup, LRef)):
        return tuple(L.num(x, st) for x in L.concrete_items(v, st))
    return (L.num(v, st),)


def iscomplex(dt):
    if dt is None:
        return False
    if isinstance(dt, Lib):
        return 'complex' in dt.name
    if isinstance(dt, str):
        return dt.startswith(('c', 'complex'))
    return False


def checkdtype(dt):
    if isinstance(dt, Lib) and any(x in dt.name for x in ('int', 'bool', 'float32', 'object', '.str')):
        raise Unsupported('dtype ' + dt.name)
    if isinstance(dt, str) and not dt.startswith(('c', 'float', 'f8', 'd')):
        raise Unsupported('dtype ' + dt)


@reg('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full')
def _zeros(L, a, kw, st):
    raise Unsupported('dispatched separately')


def mkfill(val):
    def f(L, a, kw, st):
        if val is None:
            b = bind(['shape', 'fill_value', 'dtype'], a, kw, dtype=None)
            v = b['fill_value']
        else:
            b = bind(['shape', 'dtype', 'order'], a, kw, dtype=None)
            v = tm.const(val, 'R')
        checkdtype(b['dtype'])
        if iscomplex(b['dtype']):
            v = L.cx(v)
        sh = shape_of(L, b['shape'], st)
        if isinstance(v, T) and v.sort == 'I':
            v = tm.toreal(v)
        return L.new(Arr(sh, lambda *i: v), st)
    return f


TABLE['numpy.zeros'] = mkfill(0)
TABLE['numpy.ones'] = mkfill(1)
TABLE['numpy.full'] = mkfill(None)
READS_KW |= {'numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.empty'}


def _empty(L, a, kw, st):
    b = bind(['shape', 'dtype', 'order'], a, kw, dtype=None)
    checkdtype(b['dtype'])
    sh = shape_of(L, b['shape'], st)
    u = tm.fresh('uninit', 'I')
    if iscomplex(b['dtype']):
        return L.new(Arr(sh, lambda *i: Cx(tm.uf('uninit', [u] + list(i), 'R'), tm.uf('uninit.im', [u] + list(i), 'R'))), st)
    return L.new(Arr(sh, lambda *i: tm.uf('uninit', [u] + list(i), 'R')), st)


TABLE['numpy.empty'] = _empty


def mklike(val):
    def f(L, a, kw, st):
        names = ['a', 'fill_value', 'dtype', 'order'] if val == 'full' else ['a', 'dtype', 'order']
        b = bind(names, a, kw, dtype=None)
        checkdtype(b['dtype'])
        x = L.arr(b['a'], st)
        ks = [tm.fresh('p', 'I') for _ in x.shape]
        e = x.at(*ks)
        cxq = isinstance(e, Cx) or iscomplex(b['dtype'])
        if val != 0 and isinstance(e, T) and e.sort == 'I' and b['dtype'] is None:
            raise Unsupported('integer array')
        if val == 'empty':
            u = tm.fresh('uninit', 'I')
            if cxq:
                return L.new(Arr(x.shape, lambda *i: Cx(tm.uf('uninit', [u] + list(i), 'R'), tm.uf('uninit.im', [u] + list(i), 'R'))), st)
            return L.new(Arr(x.shape, lambda *i: tm.uf('uninit', [u] + list(i), 'R')), st)
        v = L.num(b['fill_value'], st) if val == 'full' else tm.const(val, 'R')
        v = L.cx(v) if cxq else tm.toreal(v)
        return L.new(Arr(x.shape, lambda *i: v), st)
    return f


for _n, _v in (('zeros', 0), ('ones', 1), ('full', 'full'), ('empty', 'empty')):
    TABLE['numpy.%s_like' % _n] = mklike(_v)
    READS_KW.add('numpy.%s_like' % _n)


@reg('numpy.asarray')
def _asarray(L, a, kw, st):
    """the same array when it is one already"""
    v = L.I.res(a[0], st)
    if isinstance(v, (ARef, Arr)):
        if len(a) > 1 or kw:
            dt = kw.get('dtype', a[1] if len(a) > 1 else None)
            if set(kw) - {'dtype'} or not (isinstance(dt, Lib) and dt.name in ('builtins.float', 'numpy.float64')):
                raise Unsupported('asarray options')
        return v
    return _array(L, a, kw, st)


@reg('numpy.array', 'numpy.copy')
def _array(L, a, kw, st):
    dt = kw.get('dtype', a[1] if len(a) > 1 else None)
    checkdtype(dt)
    if isinstance(a[0], (T, Cx)):
        return a[0]
    v = L.I.res(a[0], st)
    if isinstance(v, StRef):
        rec = st.heap[v.sid]
        v = LRef(st.alloc(Rope([('sym', v.n, lambda k: Arr((rec.npts(v.idx(k)),), lambda i: rec.fields['data'].at(v.idx(k), i)))])))
    x = L.arr(v, st)
    return L.new(Arr(x.shape, lambda *i: x.at(*i)), st)


@reg('numpy.arange')
def _arange(L, a, kw, st):
    a = [L.num(x, st) for x in a]
    if kw:
        raise Unsupported('arange keywords')
    lo, hi, step = Z, None, ONE
    if len(a) == 1:
        hi = a[0]
    else:
        lo, hi = a[0], a[1]
        if len(a) > 2:
            step = a[2]
    if all(x.sort == 'I' for x in (lo, hi, step)):
        n, g = L.seq(('range', lo, hi, step), st)
    else:
        # ceil((hi-lo)/step)
        n = tm.neg(tm.floor_(tm.neg(tm.div(tm.sub(hi, lo), step))))
        # a real bound that is an integer plus an integer part: use the integer
        n = L.nonneg_or_zero(simp_ceil(n), st)
    return L.new(Arr((n,), lambda i: tm.add(lo, tm.mul(step, i))), st)


def simp_ceil(n):
    return n


@reg('numpy.linspace')
def _linspace(L, a, kw, st):
    b = bind(['start', 'stop', 'num', 'endpoint'], a, kw, num=C(50), endpoint=tm.TRUE)
    lo, hi, n = L.num(b['start'], st), L.num(b['stop'], st), L.num(b['num'], st)
    if b['endpoint'] is not tm.TRUE:
        raise Unsupported('linspace endpoint')
    step = tm.div(tm.sub(hi, lo), tm.sub(n, ONE))
    return L.new(Arr((n,), lambda i: tm.add(tm.toreal(lo), tm.mul(step, i))), st)


def axis_of(L, a, kw, st, pos=1):
    if set(kw) - {'axis'} or len(a) > pos + 1:
        raise Unsupported('reduction options')
    ax = kw.get('axis', a[pos] if len(a) > pos else None)
    if ax is None:
        return None
    return int(tm.cval(L.num(ax, st)))


def reduce_axis(L, x, ax, f, st):
    """apply f (1-d array -> scalar) along an axis"""
    if ax is None:
        if x.ndim == 1:
            return f(x)
        if x.ndim == 2:
            m = x.shape[1]
            return f(Arr((tm.mul(x.shape[0], m),), lambda i: x.at(tm.idiv(i, m), tm.imod(i, m))))
        raise Unsupported('reduction rank')
    if ax < 0:
        ax += x.ndim
    if x.ndim == 1 and ax == 0:
        return f(x)
    if x.ndim == 2:
        if ax == 0:
            return L.new(Arr((x.shape[1],), lambda j: f(Arr((x.shape[0],), lambda i: x.at(i, j)))), st)
        return L.new(Arr((x.shape[0],), lambda i: f(Arr((x.shape[1],), lambda j: x.at(i, j)))), st)
    raise Unsupported('reduction axis')


def total2(L, x):
    return L.asum(x, x.shape[0])


@reg('builtins.sum')
def _bsum(L, a, kw, st):
    kw = dict(kw)
    start = a[1] if len(a) > 1 else kw.pop('start', None)
    if kw:
        raise Unsupported('sum arguments')
    r = _sum(L, a[:1], {'axis': C(0)}, st)
    return r if start is None else L.binop('Add', start, r, st)


@reg('numpy.sum', 'math.fsum')
def _sum(L, a, kw, st):
    v = L.I.res(a[0], st)
    if len(a) == 2:
        a, kw = a[:1], dict(kw, axis=a[1])
    if set(kw) - {'axis'} or len(a) > 1:
        raise Unsupported('sum options')
    if isinstance(v, tuple) or isinstance(v, (LRef, Tup)):
        n, g = L.seq(v, st)
        if tm.isconst(n):
            acc = C(0)
            for x in L.concrete_items(v, st):
                acc = L.binop('Add', acc, x, st)
            return acc
        if isinstance(v, tuple):
            l = LRef(st.alloc(Rope([])))
            L.list_extend(l, v, st)
            v = l
    x = L.arr(v, st)
    if kw.get('axis') is None and x.ndim == 2:
        # total over both axes
        return L.asum(Arr((x.shape[0],), lambda i: L.asum(Arr((x.shape[1],), lambda j: x.at(i, j)), x.shape[1])), x.shape[0])
    return reduce_axis(L, x, axis_of(L, a[:1], kw, st), lambda y: L.asum(y, y.shape[0]), st)


@reg('numpy.mean')
def _mean(L, a, kw, st):
    x = L.arr(a[0], st)
    return reduce_axis(L, x, axis_of(L, a, kw, st), lambda y: L.s_div(L.asum(y, y.shape[0]), y.shape[0]), st)


@reg('numpy.max')
def _max(L, a, kw, st):
    return reduce_axis(L, L.arr(a[0], st), axis_of(L, a, kw, st), lambda y: agg(L, 'Max', y, st), st)


@reg('numpy.min')
def _min(L, a, kw, st):
    return reduce_axis(L, L.arr(a[0], st), axis_of(L, a, kw, st), lambda y: agg(L, 'Min', y, st), st)


@reg('numpy.argmax')
def _argmax(L, a, kw, st):
    return reduce_axis(L, L.arr(a[0], st), axis_of(L, a, kw, st), lambda y: agg(L, 'ArgMax', y, st), st)


@reg('numpy.argmin')
def _argmin(L, a, kw, st):
    return reduce_axis(L, L.arr(a[0], st), axis_of(L, a, kw, st), lambda y: agg(L, 'ArgMin', y, st), st)


def absf(L, x):
    if isinstance(x, Cx):
        return tm.sqrt(tm.add(tm.mul(x.re, x.re), tm.mul(x.im, x.im)))
    return tm.absv(L.num(x))


@reg('numpy.abs')
def _abs(L, a, kw, st):
    return L.mapn(lambda x: absf(L, x), st, a[0])


@reg('numpy.sqrt')
def _sqrt(L, a, kw, st):
    return L.mapn(lambda x: tm.sqrt(L.num(x)), st, a[0])


@reg('numpy.exp')
def _exp(L, a, kw, st):
    def f(x):
        if isinstance(x, Cx):
            if x.re is R0:
                return Cx(tm.cosv(x.im), tm.sinv(x.im))
            e = tm.expv(x.re)
            return Cx(tm.mul(e, tm.cosv(x.im)), tm.mul(e, tm.sinv(x.im)))
        return tm.expv(L.num(x))
    return L.mapn(f, st, a[0])


@reg('numpy.cos')
def _cos(L, a, kw, st):
    return L.mapn(lambda x: tm.cosv(L.num(x)), st, a[0])


@reg('numpy.sin')
def _sin(L, a, kw, st):
    return L.mapn(lambda x: tm.sinv(L.num(x)), st, a[0])


@reg('numpy.sign')
def _sign(L, a, kw, st):
    def f(x):
        x = L.num(x)
        return tm.ite(tm.lt(Z, x), ONE, tm.ite(tm.lt(x, Z), C(-1), Z))
    return L.mapn(f, st, a[0])


@reg('numpy.real')
def _real(L, a, kw, st):
    return L.mapn(lambda x: L.cx(x).re, st, a[0])


@reg('numpy.imag')
def _imag(L, a, kw, st):
    return L.mapn(lambda x: L.cx(x).im, st, a[0])


def conjf(L, x):
    x = L.cx(x)
    return Cx(x.re, tm.neg(x.im))


@reg('numpy.conj')
def _conj(L, a, kw, st):
    return L.mapn(lambda x: conjf(L, x), st, a[0])


@reg('numpy.maximum')
def _maximum(L, a, kw, st):
    return L.mapn(lambda x, y: tm.ite(tm.le(L.num(y), L.num(x)), L.num(x), L.num(y)), st, a[0], a[1])


@reg('numpy.minimum')
def _minimum(L, a, kw, st):
    return L.mapn(lambda x, y: tm.ite(tm.le(L.num(x), L.num(y)), L.num(x), L.num(y)), st, a[0], a[1])


@reg('numpy.clip')
def _clip(L, a, kw, st):
    b = bind(['a', 'a_min', 'a_max'], a, kw)
    r = b['a']
    if b['a_min'] is not None:
        r = L.mapn(lambda x, y: tm.ite(tm.le(L.num(y), L.num(x)), L.num(x), L.num(y)), st, r, b['a_min'])
    if b['a_max'] is not None:
        r = L.mapn(lambda x, y: tm.ite(tm.le(L.num(x), L.num(y)), L.num(x), L.num(y)), st, r, b['a_max'])
    return r


def concat(L, parts, st):
    parts = [L.arr(p, st) for p in parts]
    parts = [p if p.ndim else Arr((ONE,), lambda i, p=p: p.at()) for p in parts]
    if all(p.ndim == 1 for p in parts):
        n = Z
        offs = []
        for p in parts:
            offs.append(n)
            n = tm.add(n, p.shape[0])

        def get(i):
            v = parts[-1].at(tm.sub(i, offs[-1]))
            for p, o in reversed(list(zip(parts[:-1], offs[:-1]))):
                v = L.I.merge_val(tm.lt(i, tm.add(o, p.shape[0])), p.at(tm.sub(i, o)), v, None, None, None)
            return v
        return L.new(Arr((n,), get), st)
    if all(p.ndim == 2 for p in parts):
        n = Z
        offs = []
        for p in parts:
            offs.append(n)
            n = tm.add(n, p.shape[0])

        def get2(i, j):
            v = parts[-1].at(tm.sub(i, offs[-1]), j)
            for p, o in reversed(list(zip(parts[:-1], offs[:-1]))):
                v = L.I.merge_val(tm.lt(i, tm.add(o, p.shape[0])), p.at(tm.sub(i, o), j), v, None, None, None)
            return v
        return L.new(Arr((n, parts[0].shape[1]), get2), st)
    raise Unsupported('concatenate')


@reg('numpy.hstack', 'numpy.concatenate')
def _hstack(L, a, kw, st):
    if kw and not (list(kw) == ['axis'] and tm.isconst(kw['axis']) and tm.cval(kw['axis']) == 0):
        raise Unsupported('concatenate axis')
    v = L.I.res(a[0], st)
    return concat(L, L.concrete_items(v, st), st)


@reg('numpy.append')
def _append(L, a, kw, st):
    if kw or len(a) > 2:
        raise Unsupported('append axis')
    return concat(L, a[:2], st)


@reg('numpy.column_stack')
def _colstack(L, a, kw, st):
    cols = [L.arr(x, st) for x in L.concrete_items(a[0], st)]
    if any(c.ndim != 1 for c in cols):
        raise Unsupported('column_stack')
    return L.new(Arr((cols[0].shape[0], C(len(cols))), lambda i, j: L.pick([lambda c=c: c.at(i) for c in cols], j, True)), st)


@reg('numpy.vstack', 'numpy.stack')
def _vstack(L, a, kw, st):
    v = L.I.res(a[0], st)
    x = L.arr(v, st)
    if x.ndim != 2 or kw:
        raise Unsupported('vstack')
    return L.new(Arr(x.shape, lambda *i: x.at(*i)), st)


@reg('numpy.flipud')
def _flipud(L, a, kw, st):
    x = L.arr(a[0], st)
    n = x.shape[0]
    return L.view(Arr(x.shape, lambda i, *j: x.at(tm.sub(tm.sub(n, ONE), i), *j)), st)


@reg('numpy.flip')
def _flip(L, a, kw, st):
    b = bind(['m', 'axis'], a, kw, axis=None)
    x = L.arr(b['m'], st)
    ax = None if b['axis'] is None else int(tm.cval(L.num(b['axis'], st))) % x.ndim
    r = lambda i, n: tm.sub(tm.sub(n, ONE), i)
    return L.view(Arr(x.shape, lambda *i: x.at(*[r(y, n) if ax is None or ax == d else y for d, (y, n) in enumerate(zip(i, x.shape))])), st)


@reg('numpy.fliplr')
def _fliplr(L, a, kw, st):
    return _flip(L, [a[0], ONE], {}, st)


@reg('numpy.where')
def _where(L, a, kw, st):
    if len(a) == 1:
        c = L.arr(a[0], st)
        if c.ndim != 1:
            raise Unsupported('where of 2-d')
        return ('wheretuple', WhereIdx(c.shape[0], lambda i: L.I.truth(c.at(i), st)))
    return L.mapn(lambda c, x, y: L.I.merge_val(c, x, y, None, None, None), st, a[0], a[1], a[2])


@reg('numpy.matmul')
def _matmul(L, a, kw, st):
    return L.matmul(a[0], a[1], st)


@reg('numpy.identity', 'numpy.eye')
def _eye(L, a, kw, st):
    n = L.num(a[0], st)
    return L.new(Arr((n, n), lambda i, j: tm.ite(tm.eq(i, j), tm.const(1, 'R'), R0)), st)


@reg('numpy.vectorize')
def _vectorize(L, a, kw, st):
    f = a[0]

    def g(args, kw2, st2):
        return L.mapn(lambda *x: L.I.call(f, list(x), {}, st2), st2, *args)
    return ('pyfn', g)


@reg('numpy.isnan')
def _isnan(L, a, kw, st):
    return L.mapn(lambda x: tm.FALSE, st, a[0])


@reg('numpy.std')
def _std(L, a, kw, st):
    def f(y):
        m = L.s_div(L.asum(y, y.shape[0]), y.shape[0])
        d = Arr(y.shape, lambda i: (lambda z: tm.mul(z, z))(tm.sub(L.num(y.at(i)), m)))
        return tm.sqrt(L.s_div(L.asum(d, y.shape[0]), y.shape[0]))
    return reduce_axis(L, L.arr(a[0], st), axis_of(L, a, kw, st), f, st)


@reg('numpy.cumsum')
def _cumsum(L, a, kw, st):
    x = L.arr(a[0], st)
    if x.ndim != 1:
        raise Unsupported('cumsum')

    def get(i):
        q = tm.fresh('q', 'I')
        return tm.mk_sum(Z, tm.add(i, ONE), q, L.num(x.at(q)))
    return L.new(Arr(x.shape, get), st)


@reg('numpy.diff')
def _diff(L, a, kw, st):
    x = L.arr(a[0], st)
    if x.ndim != 1 or kw.keys() - {'prepend'}:
        raise Unsupported('diff')
    if 'prepend' in kw:
        p = L.num(kw['prepend'], st)
        return L.new(Arr(x.shape, lambda i: tm.sub(L.num(x.at(i)), tm.ite(tm.eq(i, Z), p, L.num(x.at(tm.sub(i, ONE)))))), st)
    return L.new(Arr((tm.sub(x.shape[0], ONE),), lambda i: tm.sub(L.num(x.at(tm.add(i, ONE))), L.num(x.at(i)))), st)


# ---------------------------------------------------------------- kernels (uninterpreted)
@reg('fft')
def _fft(L, a, kw, st):
    b = bind(['x', 'n'], a, kw, n=None)
    x = L.arr(b['x'], st)
    n = x.shape[0] if b['n'] is None else L.num(b['n'], st)
    p = pad(L, x, n, st)
    return L.pure_arr('FFT', [p], (n,), st, True)


def pad(L, x, n, st):
    m = x.shape[0]
    if m is n or smt.entails(st.pc, tm.eq(m, n)):
        return Arr((n,), lambda i: x.at(i))
    if smt.entails(st.pc, tm.le(n, m)):
        return Arr((n,), lambda i: x.at(i))
    return Arr((n,), lambda i: L.I.merge_val(tm.lt(i, m), x.at(i), R0, None, None, None))


@reg('ifft')
def _ifft(L, a, kw, st):
    b = bind(['x', 'n'], a, kw, n=None)
    x = L.arr(b['x'], st)
    n = x.shape[0] if b['n'] is None else L.num(b['n'], st)
    p = pad(L, x, n, st)
    return L.pure_arr('IFFT', [p], (n,), st, True)


@reg('detrend')
def _detrend(L, a, kw, st):
    if kw or len(a) > 1:
        raise Unsupported('detrend options')
    x = L.arr(a[0], st)
    return L.pure_arr('detrend', [x], x.shape, st)


@reg('numpy.correlate')
def _correlate(L, a, kw, st):
    b = bind(['a', 'v', 'mode'], a, kw, mode='valid')
    x, y = L.arr(b['a'], st), L.arr(b['v'], st)
    if b['mode'] != 'full':
        raise Unsupported('correlate mode')
    n = tm.sub(tm.add(x.shape[0], y.shape[0]), ONE)
    L.I.zero_lag[L.freeze_term(x, st).id] = tm.sub(x.shape[0], ONE)
    return L.pure_arr('correlate', [x, y], (n,), st)


@reg('find_peaks')
def _find_peaks(L, a, kw, st):
    if kw or len(a) > 1:
        raise Unsupported('find_peaks options')
    x = L.arr(a[0], st)
    t = L.freeze_term(x, st)
    n = tm.uf('peaks.n', [t], 'I')
    st.assume(tm.le(Z, n))
    return Tup([L.new(Arr((n,), lambda i: tm.uf('peak', [t, i], 'I')), st), Opq(tm.uf('peaks.props', [t], 'U'), 'obj')])


@reg('numpy.corrcoef')
def _corrcoef(L, a, kw, st):
    x, y = L.arr(a[0], st), L.arr(a[1], st)
    n = L.same_dim(x.shape[0], y.shape[0], st)

    def dev(v):
        m = tm.div(L.asum(v, n), n)
        return lambda i: tm.sub(L.num(v.at(i)), m)
    dx, dy = dev(x), dev(y)

    def dot(f, g):
        return L.asum(Arr((n,), lambda i: tm.mul(f(i), g(i))), n)
    r = tm.div(dot(dx, dy), tm.uf('sqrt', [tm.mul(dot(dx, dx), dot(dy, dy))], 'R'))
    return L.new(Arr((C(2), C(2)), lambda i, j: tm.ite(tm.eq(i, j), tm.const(1, 'R'), r)), st)


@reg('mean_squared_error')
def _mse(L, a, kw, st):
    if kw:
        raise Unsupported('mse options')
    x, y = L.arr(a[0], st), L.arr(a[1], st)
    n = L.same_dim(x.shape[0], y.shape[0], st)
    d = Arr((n,), lambda i: (lambda z: tm.mul(z, z))(tm.sub(L.num(x.at(i)), L.num(y.at(i)))))
    return tm.div(L.asum(d, n), n)


PG = ['st1', 'st2', 'dt', 'fmin', 'fmax', 'nf', 'w0', 'norm', 'st2_isref', 'a', 'k']


@reg('pg')
def _pg(L, a, kw, st):
    b = bind(PG, a, kw, dt=tm.const('1/100', 'R'), fmin=ONE, fmax=C(10), nf=C(100), w0=C(6), norm='global', st2_isref=tm.TRUE, a=C(10), k=C(1))
    return L.pure('pg', [b[x] for x in PG], st)


@reg('kilometer2degrees')
def _km(L, a, kw, st):
    b = bind(['kilometer', 'radius'], a, kw, radius=None)
    if b['radius'] is not None:
        raise Unsupported('radius')
    return L.mapn(lambda x: tm.mul(tm.toreal(L.num(x)), tm.var('deg_per_km', 'R')), st, b['kilometer'])


@reg('next_pow_2')
def _np2(L, a, kw, st):
    n = L.num(a[0], st)
    r = tm.uf('next_pow_2', [n], 'I')
    st.assume(tm.le(n, r))
    st.assume(tm.le(ONE, r))
    return r


# ---------------------------------------------------------------- obspy objects
@reg('Trace')
def _trace(L, a, kw, st):
    b = bind(['data', 'header'], a, kw, data=None, header=None)
    return L.make_trace(b['data'], b['header'], st)


@reg('Stream')
def _stream(L, a, kw, st):
    b = bind(['traces'], a, kw, traces=None)
    l = LRef(st.alloc(Rope([])))
    if b['traces'] is not None:
        L.list_extend(l, b['traces'], st)
    return ORef(st.alloc(ORec('Stream', {'traces': l})))


@reg('copy.copy')
def _copy(L, a, kw, st):
    v = L.I.res(a[0], st)
    if isinstance(v, (ARef, Arr, T, Cx, str)) or v is None:
        return deepcopy(L, v, st)
    if isinstance(v, LRef):
        return LRef(st.alloc(st.heap[v.lid]))
    if isinstance(v, DRef):
        return DRef(st.alloc(dict(st.heap[v.did])))
    if isinstance(v, Tup):
        return v
    raise Unsupported('shallow copy')


@reg('copy.deepcopy')
def _deepcopy(L, a, kw, st):
    return deepcopy(L, a[0], st)


def deepcopy(L, v, st):
    v = L.I.res(v, st)
    if isinstance(v, (ARef, Arr)):
        x = L.arr(v, st)
        return L.new(Arr(x.shape, lambda *i: x.at(*i)), st)
    if isinstance(v, StRef):
        rec = st.heap[v.sid]
        sid = st.alloc(rec.with_())
        return StRef(sid, v.n, v.imap)
    if isinstance(v, LRef):
        return LRef(st.alloc(Rope([('item', deepcopy(L, s[1], st)) if s[0] == 'item' else s for s in st.heap[v.lid].segs])))
    if isinstance(v, DRef):
        return DRef(st.alloc({k: deepcopy(L, x, st) for k, x in st.heap[v.did].items()}))
    if isinstance(v, Tup):
        return Tup([deepcopy(L, x, st) for x in v.items])
    if isinstance(v, ORef):
        r = st.heap[v.oid]
        return ORef(st.alloc(ORec(r.cls, {k: deepcopy(L, x, st) for k, x in r.fields.items()})))
    if isinstance(v, (T, Cx, str)) or v is None:
        return v
    raise Unsupported('copy of ' + type(v).__name__)


@reg('os.path.join')
def _join(L, a, kw, st):
    parts = [a[0]]
    for x in a[1:]:
        parts += ['/', x]
    out = []
    for p in parts:
        out.append(p if isinstance(p, str) else (L.sterm(p) if L.sterm(p) is not None else L.freeze_term(p, st)))
    return L.scat(out)


@reg('os.path.exists', 'os.path.isdir')
def _exists(L, a, kw, st):
    t = L.sterm(a[0])
    if t is None:
        t = L.freeze_term(a[0], st)
    return tm.uf('exists', [t], 'B')


@reg('os.mkdir', 'os.makedirs')
def _mkdir(L, a, kw, st):
    b = bind(['name', 'mode', 'exist_ok'], a, {('name' if k == 'path' else k): v for k, v in kw.items()}, mode=None, exist_ok=tm.FALSE)
    if b['mode'] is not None:
        raise Unsupported('mode of a directory')
    ok = L.I.truth(b['exist_ok'], st)
    if ok is tm.FALSE:
        L.I.effect(st, 'mkdir', [b['name']])
    elif ok is tm.TRUE:
        x = st.copy()
        x.eff = []
        L.I.effect(x, 'mkdir', [b['name']])
        st.eff.append(('cond', tm.not_(_exists(L, [b['name']], {}, st)), Rope(x.eff)))
    else:
        raise Unsupported('exist_ok')
    return None


@reg('pkg_resources.resource_filename')
def _resfn(L, a, kw, st):
    return tm.uf('resource', [L.sterm(x) if L.sterm(x) is not None else L.freeze_term(x, st) for x in a], 'S')


@reg('rf.rfstream.read_rf', 'rf.read_rf')
def _readrf(L, a, kw, st):
    ts = [L.freeze_term(x, st) for x in a] + [L.freeze_term(kw[k], st) for k in sorted(kw)]
    return Opq(tm.uf('read_rf', ts, 'U'), 'stream')


COPYTREE = ['src', 'dst', 'preserve_mode', 'preserve_times', 'preserve_symlinks', 'update', 'verbose', 'dry_run']


@reg('distutils.dir_util.copy_tree')
def _copytree(L, a, kw, st):
    b = bind(COPYTREE, a, kw, preserve_mode=C(1), preserve_times=C(1), preserve_symlinks=C(0), update=C(0), verbose=C(1), dry_run=C(0))
    L.I.effect(st, 'copy_tree', [b['src'], b['dst']], {k: L.I.truth(b[k], st) for k in COPYTREE[2:] if k != 'verbose'})
    return Opq(tm.uf('copied', [], 'U'), 'obj')


@reg('distutils.dir_util._path_created.clear')
def _pcc(L, a, kw, st):
    return None            # forgets which directories copy_tree created: no effect on files


@reg('multiprocessing.get_context')
def _ctx(L, a, kw, st):
    return Lib('multiprocessing')


@reg('multiprocessing.Pool', 'multiprocessing.pool.Pool')
def _pool(L, a, kw, st):
    bind(['processes'], a, kw)
    return Opq(tm.uf('pool', [tm.fresh('o', 'I')], 'U'), 'pool')


@reg('multiprocessing.cpu_count', 'os.cpu_count')
def _cpus(L, a, kw, st):
    return tm.var('ncpu', 'I')


# ---------------------------------------------------------------- catalogues, travel times, files
@reg('obspy.read_events', 'obspy.core.event.read_events', 'obspy.core.event.catalog.read_events')
def _read_events(L, a, kw, st):
    return Opq(tm.uf('read_events', [L.freeze_term(x, st) for x in a] + [L.freeze_term(kw[k], st) for k in sorted(kw)], 'U'), 'catalog')


@reg('obspy.UTCDateTime', 'obspy.core.UTCDateTime', 'obspy.core.utcdatetime.UTCDateTime')
def _utc(L, a, kw, st):
    if len(a) == 1 and isinstance(a[0], T) and a[0].sort in 'RI':
        return tm.toreal(a[0])
    raise Unsupported('UTCDateTime')


def realfn(name, names, m):
    full = 'obspy.' + name

    def f(L, a, kw, st):
        a = [L.num(x, st) for x in list(a) + [kw[k] for k in names[len(a):] if k in kw]]
        t = [tm.uf('%s%s' % (name, '.%d' % i if m > 1 else ''), [tm.toreal(x) for x in a], 'R') for i in range(m)]
        return Tup(t) if m > 1 else t[0]
    return f


for _mod in ('obspy.geodetics', 'obspy.geodetics.base'):
    reg(_mod + '.locations2degrees')(realfn('locations2degrees', ['lat1', 'long1', 'lat2', 'long2'], 1))
    reg(_mod + '.gps2dist_azimuth')(realfn('gps2dist_azimuth', ['lat1', 'lon1', 'lat2', 'lon2'], 3))
    reg(_mod + '.kilometer2degrees')(realfn('kilometer2degrees', ['kilometer'], 1))
    reg(_mod + '.degrees2kilometers')(realfn('degrees2kilometers', ['degrees'], 1))


@reg('obspy.taup.TauPyModel', 'obspy.taup.tau.TauPyModel')
def _taup(L, a, kw, st):
    m = a[0] if a else kw.get('model', 'iasp91')
    if set(kw) - {'model'} or len(a) > 1:
        raise Unsupported('TauPyModel options')
    return Opq(tm.uf('TauPyModel', [L.freeze_term(m, st)], 'U'), 'taup')


def travel_times(L, o, a, kw, st):
    d = dict(kw)
    for n, v in zip(['source_depth_in_km', 'distance_in_degree', 'phase_list', 'receiver_depth_in_km'], a):
        d[n] = v
    ks = sorted(d)
    return Opq(tm.uf('travel_times(%s)' % ','.join(ks), [o.term] + [tm.toreal(L.num(d[k], st)) if k.endswith('km') or k.endswith('degree') else L.freeze_term(d[k], st) for k in ks], 'U'), 'arrivals')


@reg('glob.glob')
def _glob(L, a, kw, st):
    if kw or len(a) != 1:
        raise Unsupported('glob options')
    return Opq(tm.uf('glob', [L.freeze_term(a[0], st)], 'U'), 'list')


HEADER = {'starttime': 'R', 'endtime': 'R', 'delta': 'R', 'sampling_rate': 'R', 'network': 'S', 'station': 'S', 'location': 'S', 'channel': 'S'}


@reg('obspy.read', 'obspy.core.stream.read', 'obspy.core.read')
def _read(L, a, kw, st):
    """a new stream whose content is a function of the arguments"""
    d = dict(kw)
    for n, v in zip(['pathname_or_url', 'format', 'headonly', 'starttime', 'endtime'], a):
        d[n] = v
    headonly = L.I.truth(d.pop('headonly', tm.FALSE), st)
    if headonly not in (tm.TRUE, tm.FALSE):
        raise Unsupported('headonly')
    if headonly is tm.TRUE and len(d) > 1:
        raise Unsupported('headers of a part of a file')
    ks = sorted(d)
    ts = [tm.toreal(L.num(d[k], st)) if k in ('starttime', 'endtime') else L.freeze_term(d[k], st) for k in ks]
    nm = 'read(%s)' % ','.join(ks)
    n = tm.uf(nm + '.traces', ts, 'I')
    st.assume(tm.le(Z, n))
    if ks == ['pathname_or_url']:
        st.assume(tm.le(ONE, n))        # a file holds at least one trace
    npts = lambda k: tm.uf(nm + '.npts', ts + [k], 'I')
    f = {h: Arr((n,), lambda k, h=h: tm.uf('%s.%s' % (nm, h), ts + [k], HEADER[h])) for h in HEADER}
    f['data'] = Arr((n, npts(Z)), lambda k, i: tm.uf(nm + '.data', ts + [k, i], 'R'))
    if headonly is tm.TRUE:
        f['data'] = L.undef('data', 2)
    r = SRec(nm, n, npts, f)
    r.closed = True
    return StRef(st.alloc(r), n)


# ---------------------------------------------------------------- methods
def method(L, o, name, a, kw, st):
    from .interp import Bound
    I = L.I
    o = I.res(o, st)
    if isinstance(o, (ARef, Arr)):
        return arr_method(L, o, name, a, kw, st)
    if isinstance(o, LRef):
        if name == 'append':
            st.heap[o.lid] = Rope(st.heap[o.lid].segs + [('item', a[0])])
            return None
        if name == 'extend':
            L.list_extend(o, a[0], st)
            return None
        if name == 'copy':
            return LRef(st.alloc(st.heap[o.lid]))
        if name == 'insert' and st.heap[o.lid].concrete() and tm.isconst(a[0]):
            its = list(st.heap[o.lid].items())
            its.insert(int(tm.cval(a[0])), a[1])
            st.heap[o.lid] = Rope([('item', x) for x in its])
            return None
        if name == 'index':
            raise Unsupported('list.index')
        raise Unsupported('list method ' + name)
    if isinstance(o, DRef):
        d = st.heap[o.did]
        if name == 'items':
            return Tup([Tup([L.unkey(k), v]) for k, v in d.items()])
        if name == 'keys':
            return Tup([L.unkey(k) for k in d])
        if name == 'values':
            return Tup(list(d.values()))
        if name == 'get':
            k = L.key(a[0])
            if k in d:
                return I.res(d[k], st)
            L.automatic(k, d)
            return a[1] if len(a) > 1 else None
        if name == 'update':
            n = dict(d)
            if a:
                n.update(st.heap[a[0].did])
            n.update(kw)
            st.heap[o.did] = n
            return None
        if name == 'copy':
            return DRef(st.alloc(dict(d)))
        if name == 'pop':
            n = dict(d)
            v = n.pop(L.key(a[0]), a[1] if len(a) > 1 else Poison('missing key'))
            st.heap[o.did] = n
            return v
        if name == 'setdefault':
            k = L.key(a[0])
            if k in d:
                return d[k]
            n = dict(d)
            n[k] = a[1]
            st.heap[o.did] = n
            return a[1]
        raise Unsupported('dict method ' + name)
    if isinstance(o, str) or (isinstance(o, T) and o.sort == 'S'):
        if isinstance(o, str) and all(isinstance(x, str) for x in a) and not kw and name in (
                'lower', 'upper', 'strip', 'replace', 'endswith', 'startswith', 'rstrip', 'lstrip', 'title', 'capitalize'):
            r = getattr(o, name)(*a)
            return tm.boolc(r) if isinstance(r, bool) else r
        if name == 'format' and isinstance(o, str):
            return str_format(L, o, a, kw, st)
        if name in ('lower', 'upper', 'strip'):
            return tm.uf('str.' + name, [L.sterm(o)], 'S')
        if name == 'join':
            its = L.concrete_items(a[0], st)
            out = []
            for i, x in enumerate(its):
                if i:
                    out.append(o)
                out.append(x)
            return L.scat(out)
        raise Unsupported('str method ' + name)
    if isinstance(o, StRef):
        return stream_method(L, o, name, a, kw, st)
    if isinstance(o, TrRef):
        if name == 'copy':
            rec = st.heap[o.sid]
            sid = st.alloc(rec.with_())
            return TrRef(sid, o.k)
        raise Unsupported('trace method ' + name)
    if isinstance(o, StatsRef):
        if name == 'get':
            return L.stats_get(o, a[0], st)
        raise Unsupported('stats method ' + name)
    if isinstance(o, (ORef, FObj)):
        r = st.heap[o.oid] if isinstance(o, ORef) else o
        if r.cls == 'Stream':
            if name == 'append':
                return method(L, r.fields['traces'], 'append', a, kw, st)
            if name == 'extend':
                return method(L, r.fields['traces'], 'extend', a, kw, st)
            if name == 'filter':
                return stream_filter(L, o, a, kw, st)
            if name == 'write':
                keep, I.outer = I.outer, set()
                try:
                    I.effect(st, 'write', [a[0], o] + a[1:], kw)
                finally:
                    I.outer = keep
                return None
        if r.cls in ('Stats', 'Header') or (isinstance(r.cls, str) and r.cls == 'Stats'):
            if name == '__getstate__':
                return DRef(st.alloc(dict(r.fields)))
            if name == 'copy':
                return ORef(st.alloc(ORec(r.cls, dict(r.fields))))
            if name == 'update':
                f = dict(r.fields)
                if a:
                    v = I.res(a[0], st)
                    f.update(st.heap[v.did] if isinstance(v, DRef) else st.heap[v.oid].fields)
                f.update(kw)
                st.heap[o.oid] = ORec(r.cls, f)
                return None
            if name == 'get':
                if a[0] in r.fields:
                    return r.fields[a[0]]
                L.automatic(a[0])
                return a[1] if len(a) > 1 else None
        if r.cls == 'Trace' or isinstance(r.cls, Cls):
            if name == 'filter':
                filter_trace(L, o, a, kw, st)
                return o
            if name == 'copy':
                return deepcopy(L, o, st)
        raise Unsupported('method %s of %s' % (name, r.cls if isinstance(r.cls, str) else r.cls.name))
    if isinstance(o, Opq):
        h = L.extra.get(('method', o.kind, name))
        if h is not None:
            return h(o, a, kw, st)
        if o.kind in ('axes', 'fig', 'gs', 'artist', 'cb', 'plt'):
            I.effect(st, 'ax.' + name, [o] + a, kw)
            return Opq(tm.uf('plt.' + name, [tm.fresh('o', 'I')], 'U'), 'artist')
        if o.kind == 'path':
            p = o.term.args[1]
            if name == 'mkdir':
                b = bind(['mode', 'parents', 'exist_ok'], a, kw, mode=None, parents=tm.FALSE, exist_ok=tm.FALSE)
                return call(L, 'os.makedirs', [p], {'exist_ok': b['exist_ok']}, st)
            if name in ('exists', 'is_dir'):
                return call(L, 'os.path.exists', [p], {}, st)
        if o.kind == 'taup' and name == 'get_travel_times':
            return travel_times(L, o, a, kw, st)
        if o.kind == 'event' and name in ('preferred_origin', 'preferred_magnitude'):
            return Opq(tm.uf(name, [o.term], 'U'), name.split('_')[1])
        if o.kind == 'pool':
            if name in ('map', 'imap'):
                l = LRef(st.alloc(Rope([])))
                mapped(L, l, a[0], a[1], st)
                return l
            if name == 'starmap':
                f = a[0]
                l = LRef(st.alloc(Rope([])))
                mapped(L, l, ('pyfn', lambda x, k, s: I.call(f, L.concrete_items(x[0], s), {}, s)), a[1], st)
                return l
            if name in ('close', 'join', 'terminate', '__enter__', '__exit__'):
                return o if name == '__enter__' else None
        raise Unsupported('method %s of %s' % (name, o.kind))
    if isinstance(o, Lib):
        return L.call(Lib(o.name + '.' + name), a, kw, st)
    if isinstance(o, tuple) and o and o[0] == 'super':
        base = I.ev(o[1].node.bases[0], __import__('pyvc.interp', fromlist=['Frame']).Frame(o[1].module), st)
        return L.super_init(base, name, o[2], a, kw, st)
    if isinstance(o, T) and o.sort in 'RI':
        if name in ('copy', 'item', 'conjugate'):
            return o
        return arr_method(L, L.arr(o, st), name, a, kw, st)
    if isinstance(o, Cx):
        if name in ('conjugate', 'conj'):
            return conjf(L, o)
    raise Unsupported('method %s of %s' % (name, type(o).__name__))


def mapped(L, l, f, seq, st):
    """l := [f(x) for x in seq] (f must not write to existing objects)"""
    I = L.I
    n, g = L.seq(seq, st)
    if tm.isconst(n) and tm.cval(n) <= 16:
        out = []
        for i in range(int(tm.cval(n))):
            out.append(('item', I.call(f, [g(C(i), st)], {}, st)))
        st.heap[l.lid] = Rope(out)
        return
    k = tm.fresh('k', 'I')
    s = st.copy()
    s.assume(tm.le(Z, k))
    s.assume(tm.lt(k, n))
    v = I.call(f, [g(k, s)], {}, s)
    for h, x in st.heap.items():
        if s.heap.get(h) is not x:
            raise Unsupported('mapped function with side effects')
    keep, I.outer = I.outer, set(st.heap)
    try:
        v = I.freeze(v, s)
    finally:
        I.outer = keep
    kn = k.args[0]
    if len(s.eff) != len(st.eff):
        effs = Rope(s.eff[len(st.eff):])
        st.eff.append(('rep', n, lambda q: subst_val(effs, {kn: q})))
    st.heap[l.lid] = Rope([('sym', n, lambda q: subst_val(v, {kn: q}))])


def str_format(L, o, a, kw, st):
    import string
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(o):
        parts.append(lit)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            raise Unsupported('format field')
        parts.append(L.tostr(v, spec or '', st))
    return L.scat(parts)


def arr_method(L, o, name, a, kw, st):
    if name in ('copy', '__copy__'):
        x = L.arr(o, st)
        return L.new(Arr(x.shape, lambda *i: x.at(*i)), st)
    if name in ('argmin', 'argmax', 'mean', 'sum', 'max', 'min', 'std', 'round', 'clip', 'cumsum', 'any', 'all', 'dot', 'repeat', 'prod', 'var', 'diagonal', 'nonzero', 'argsort'):
        return call(L, 'numpy.' + name, [o] + a, kw, st)
    if name in ('conjugate', 'conj'):
        return L.mapn(lambda x: conjf(L, x), st, o)
    if name == 'astype':
        dt = a[0] if a else kw.get('dtype')
        if isinstance(dt, Lib) and dt.name.split('.')[-1] in ('int', 'int64', 'int32'):
            return L.mapn(lambda x: tm.trunc(L.num(x)), st, o)
        checkdtype(dt)
        if iscomplex(dt):
            return L.mapn(lambda x: L.cx(x), st, o)
        return L.mapn(lambda x: x, st, o)
    if name == 'tolist':
        x = L.arr(o, st)
        if x.ndim != 1:
            raise Unsupported('tolist')
        return LRef(st.alloc(Rope([('sym', x.shape[0], lambda k: x.at(k))])))
    if name == 'ravel' and o.ndim == 1:
        return o
    if name in ('flatten', 'ravel'):
        x = L.arr(o, st)
        mk = L.new if name == 'flatten' else L.view
        if x.ndim == 1:
            return mk(Arr(x.shape, lambda *i: x.at(*i)), st)
        if x.ndim != 2:
            raise Unsupported('ravel')
        m = x.shape[1]
        return mk(Arr((tm.mul(x.shape[0], m),), lambda i: x.at(tm.idiv(i, m), tm.imod(i, m))), st)
    if name == 'squeeze' and o.ndim == 2 and not a and not kw:
        x = L.arr(o, st)
        one = lambda t: tm.isconst(t) and tm.cval(t) == 1
        if one(x.shape[1]) and not one(x.shape[0]):
            return L.view(Arr(x.shape[:1], lambda i: x.at(i, Z)), st)
        if one(x.shape[0]) and not one(x.shape[1]):
            return L.view(Arr(x.shape[1:], lambda i: x.at(Z, i)), st)
        raise Unsupported('squeeze')
    if name == 'transpose' and not a and not kw:
        x = L.arr(o, st)
        return L.view(Arr(tuple(reversed(x.shape)), lambda *i: x.at(*reversed(i))), st)
    if name == 'reshape':
        if kw:
            raise Unsupported('reshape options')
        sh = a if len(a) > 1 else (L.concrete_items(a[0], st) if isinstance(L.I.res(a[0], st), (Tup, LRef)) else [a[0]])
        sh = [L.num(x, st) for x in sh]
        x = L.arr(o, st)
        size = ONE
        for s in x.shape:
            size = tm.mul(size, s)
        for j, s in enumerate(sh):
            if tm.isconst(s) and tm.cval(s) == -1:
                rest = ONE
                for q, s2 in enumerate(sh):
                    if q != j:
                        rest = tm.mul(rest, s2)
                sh[j] = tm.idiv(size, rest)
        if x.ndim == 1 and len(sh) == 2 and tm.isconst(sh[1]) and tm.cval(sh[1]) == 1:
            return L.view(Arr(sh, lambda i, j: x.at(i)), st)
        if x.ndim == 1 and len(sh) == 2:
            return L.view(Arr(sh, lambda i, j: x.at(tm.add(tm.mul(i, sh[1]), j))), st)
        if x.ndim == 1 and len(sh) == 1:
            return o
        if x.ndim == 2 and len(sh) == 1:
            m = x.shape[1]
            return L.view(Arr(sh, lambda i: x.at(tm.idiv(i, m), tm.imod(i, m))), st)
        raise Unsupported('reshape')
    if name == 'fill':
        L.write_region(o, L.arr(a[0], st), st)
        return None
    if name == 'item' and o.ndim == 0:
        return L.arr(o, st).at()
    raise Unsupported('array method ' + name)


def stream_method(L, o, name, a, kw, st):
    rec = st.heap[o.sid]
    if name == 'select':
        key = tuple(sorted(kw.items(), key=lambda x: x[0]))
        if a or not kw or not all(isinstance(v, str) or (isinstance(v, T) and v.sort == 'S') for v in kw.values()):
            raise Unsupported('select')
        h = L.extra.get('select')
        if h is None:
            raise Unsupported('select')
        return h(o, kw, st)
    if name == 'copy':
        sid = st.alloc(rec.with_())
        return StRef(sid, o.n, o.imap)
    raise Unsupported('stream method ' + name)


def filter_args(L, a, kw, st):
    """canonical argument term of obspy's Trace.filter"""
    typ = a[0] if a else kw.get('type')
    d = {k: v for k, v in kw.items() if k != 'type'}
    d.setdefault('corners', C(4))
    d.setdefault('zerophase', tm.FALSE)
    out = [L.freeze_term(typ, st)]
    for k in sorted(d):
        t = L.freeze_term(d[k], st)
        if t.sort == 'I':
            t = tm.toreal(t)
        out += [tm.strc(k), t]
    return out


def filter_trace(L, o, a, kw, st):
    r = st.heap[o.oid]
    x = L.arr(r.fields['data'], st)
    stats = st.heap[r.fields['stats'].oid]
    ts = filter_args(L, a, kw, st) + [L.freeze_term(stats.fields['delta'], st), L.arr_term(x)]
    na = Arr(x.shape, lambda i: tm.uf('obspyfilter', ts + [i], 'R'))
    f = dict(r.fields)
    f['data'] = L.new(na, st)
    st.heap[o.oid] = ORec(r.cls, f)


def stream_filter(L, o, a, kw, st):
    r = st.heap[o.oid]
    tl = r.fields['traces']
    rope = st.heap[tl.lid]
    fa = filter_args(L, a, kw, st)

    def filt(f):
        x = L.arr(f.fields['data'], st)
        s = f.fields['stats']
        ts = fa + [L.freeze_term(s.fields['delta'], st), L.arr_term(x)]
        nf = dict(f.fields)
        nf['data'] = Arr(x.shape, lambda i: tm.uf('obspyfilter', ts + [i], 'R'))
        return FObj(f.cls, nf)

    def mapseg(rp):
        out = []
        for s in rp.segs:
            if s[0] == 'item':
                out.append(('item', filt(s[1])))
            elif s[0] == 'rep':
                out.append(('rep', s[1], lambda q, s=s: mapseg(s[2](q))))
            elif s[0] == 'sym':
                out.append(('sym', s[1], lambda q, s=s: filt(s[2](q))))
            elif s[0] == 'cond':
                out.append(('cond', s[1], mapseg(s[2])))
            else:
                raise Unsupported('filter in building loop')
        return Rope(out)
    if all(s[0] == 'item' for s in rope.segs):
        for s in rope.segs:
            tr = L.I.res(s[1], st)
            if isinstance(tr, ORef):
                filter_trace(L, tr, a, kw, st)
            else:
                raise Unsupported('filter of snapshot')
        return o
    st.heap[tl.lid] = mapseg(rope)
    return o


from . import models2     # noqa: E402,F401  (registers further contracts)
