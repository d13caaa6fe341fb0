"""Models of the library functions the code uses (assumed contracts).

Array functions are given their mathematical definition over the reals; the
numerical kernels (FFT, detrend, find_peaks, correlate, corrcoef, phase misfit,
travel times, file readers, ...) are uninterpreted functions of the *values* of
all their arguments, so two calls agree exactly when their arguments do.
"""
from fractions import Fraction
from . import terms as tm
from .terms import T
from . import smt
from .values import (Unsupported, Cx, Poison, Tup, Opt, Arr, ARef, Choice, Buf, LRef, DRef, ORef,
                     StRef, TrRef, StatsRef, Rope, SRec, ORec, Fn, Cls, Lib, Opq, Sl, WhereIdx,
                     isnum, subst_val, has_vars, FObj)

C = tm.const
Z, ONE = tm.const(0), tm.const(1)
R0 = tm.const(0, 'R')
STRFIELDS = {'station', 'channel', 'network', 'location', 'phase', 'type', 'event_id', 'units'}
MODULES = {'numpy', 'numpy.fft', 'scipy', 'scipy.fft', 'scipy.signal', 'obspy', 'os', 'os.path', 'itertools',
           'math', 'copy', 'multiprocessing', 'matplotlib', 'matplotlib.pyplot', 'functools', 'warnings', 'time'}


def nfloor(t):
    return tm.floor_(t)


ITEMS = {'catalog': 'event', 'arrivals': 'arrival', 'stream': 'trace', 'list': 'obj', 'origins': 'origin', 'magnitudes': 'magnitude'}
ATTRS = {'event': {'origins': 'origins', 'magnitudes': 'magnitudes', 'stalat': 'R', 'stalon': 'R', 'Request_start': 'R', 'Request_end': 'R'},
         'origin': {'time': 'R', 'latitude': 'R', 'longitude': 'R', 'depth': 'R'}, 'magnitude': {'mag': 'R'},
         'arrival': {'time': 'R', 'ray_param': 'R', 'ray_param_sec_degree': 'R', 'incident_angle': 'R', 'name': 'S'}}


class Library:
    BUILTINS = {'len', 'range', 'zip', 'enumerate', 'min', 'max', 'abs', 'sum', 'int', 'float', 'str', 'round',
                'print', 'isinstance', 'list', 'tuple', 'dict', 'sorted', 'bool', 'map', 'any', 'all', 'complex',
                'reversed', 'pow', 'type', 'slice', 'hasattr', 'getattr', 'set', 'ValueError', 'TypeError',
                'Exception', 'KeyError', 'IndexError', 'RuntimeError', 'open', 'object', 'FileNotFoundError',
                'FileExistsError', 'OSError', 'filter', 'repr', 'divmod', 'setattr', 'format', 'callable', 'NotImplementedError'}

    def __init__(self, I):
        self.I = I
        self.raised = []
        self.used = set()
        self.extra = {}          # name -> handler(args, kw, st): contract-specific models
        self.objattrs = {}
        self.abbreviate = False  # matrix products kept as atoms

    # ------------------------------------------------------------ scalars
    def cx(self, v):
        if isinstance(v, Cx):
            return v
        if isinstance(v, T) and v.sort in 'RIB':
            return Cx(tm.toreal(v), R0)
        raise Unsupported('complex of %r' % type(v).__name__)

    def num(self, v, st=None):
        if st is not None:
            v = self.I.res(v, st)
        if isinstance(v, T):
            if v.sort == 'B':
                return tm.ite(v, ONE, Z)
            if v.sort in 'RI':
                return v
        if isinstance(v, (ARef, Arr)) and v.ndim == 0:
            return self.num(self.arr(v, st).at())
        raise Unsupported('number expected, got %s' % type(v).__name__)

    def sterm(self, v):
        if isinstance(v, str):
            return tm.strc(v)
        if isinstance(v, T) and v.sort == 'S':
            return v
        return None

    def tostr(self, v, spec, st):
        v = self.I.res(v, st)
        if isinstance(v, str) and not spec:
            return v
        if isinstance(v, T):
            if v.sort == 'S' and not spec:
                return v
            if tm.isconst(v) and v.sort == 'I' and not spec:
                return str(int(tm.cval(v)))
            if spec in ('s',):
                spec = ''
            return tm.uf('str', [v if v.sort == 'S' else v, tm.strc(spec.lstrip('%'))], 'S')
        if isinstance(v, str):
            return tm.uf('str', [tm.strc(v), tm.strc(spec)], 'S')
        if v is None:
            return 'None'
        if isinstance(v, Opq):
            return tm.uf('str', [v.term, tm.strc(spec)], 'S')
        return tm.uf('str', [self.freeze_term(v, st), tm.strc(spec)], 'S')

    def scat(self, parts):
        """concatenation in normal form"""
        flat = []
        for p in parts:
            if isinstance(p, T) and p.op == 'uf' and p.args[0] == 'cat':
                flat += list(p.args[1:])
            else:
                flat.append(p if isinstance(p, T) else tm.strc(p))
        out = []
        for p in flat:
            if p.op == 'str' and out and out[-1].op == 'str':
                out[-1] = tm.strc(out[-1].args[0] + p.args[0])
            elif p.op == 'str' and p.args[0] == '':
                continue
            else:
                out.append(p)
        if not out:
            return ''
        if len(out) == 1:
            return out[0].args[0] if out[0].op == 'str' else out[0]
        return tm.uf('cat', out, 'S')

    def percent(self, fmt, args, st):
        import re
        if isinstance(args, Tup):
            vals = list(args.items)
        else:
            vals = [args]
        parts, pos = [], 0
        for m in re.finditer(r'%(?:%|[-+ 0#]*\d*(?:\.\d+)?[sdfegri])', fmt):
            parts.append(fmt[pos:m.start()])
            pos = m.end()
            if m.group() == '%%':
                parts.append('%')
                continue
            if not vals:
                raise Unsupported('format arguments')
            sp = m.group()[1:]
            if sp == 's':
                sp = ''
            parts.append(self.tostr(vals.pop(0), sp, st))
        parts.append(fmt[pos:])
        return self.scat(parts)

    def key(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, T) and tm.isconst(v):
            return ('n', tm.cval(v))
        if isinstance(v, T) and v.op == 'str':
            return v.args[0]
        if isinstance(v, T):
            return ('t', v)
        if isinstance(v, Tup):
            return tuple(self.key(x) for x in v.items)
        if isinstance(v, Opq):
            return ('o', v.term)
        raise Unsupported('dict key')

    # ------------------------------------------------------------ arrays
    def content(self, bid, st):
        h = st.heap[bid]
        if isinstance(h, Buf):
            return h.arr
        if isinstance(h, SRec):
            return h.fields['data']
        if isinstance(h, Poison):
            raise Unsupported(h.why)
        raise Unsupported('buffer')

    def arr(self, v, st):
        """immutable array value of v"""
        if isinstance(v, Arr):
            return v
        if isinstance(v, ARef):
            c = self.content(v.bid, st)
            if v.dims is None:
                return c if all(a is b for a, b in zip(c.shape, v.shape)) else Arr(v.shape, lambda *i: c.at(*i))
            return Arr(v.shape, lambda *i: c.at(*v.base(i)))
        v = self.I.res(v, st)
        if isinstance(v, (Arr, ARef)):
            return self.arr(v, st)
        if isinstance(v, (T, Cx)):
            return Arr((), lambda: v)
        if isinstance(v, LRef):
            return self.rope_arr(st.heap[v.lid], st)
        if isinstance(v, Rope):
            return self.rope_arr(v, st)
        if isinstance(v, Tup):
            return self.rope_arr(Rope([('item', x) for x in v.items]), st)
        if isinstance(v, WhereIdx):
            return self.where_arr(v)
        if v is None:
            raise Unsupported('array of None')
        raise Unsupported('array expected, got %s' % type(v).__name__)

    def where_arr(self, w):
        v = tm.fresh('w', 'I')
        cnt = tm.mk_sum(Z, w.n, v, tm.ite(w.cond(v), ONE, Z))
        l = tm.lam([v], w.cond(v))
        return Arr((cnt,), lambda i: tm.uf('Nth', [Z, w.n, l, i], 'I'))

    def rope_len(self, r):
        tot = Z
        for s in r.segs:
            if s[0] == 'item':
                tot = tm.add(tot, ONE)
            elif s[0] == 'sym':
                tot = tm.add(tot, s[1])
            elif s[0] == 'rep':
                k = tm.fresh('q', 'I')
                tot = tm.add(tot, tm.mk_sum(Z, s[1], k, self.rope_len(s[2](k))))
            elif s[0] == 'cond':
                tot = tm.add(tot, tm.ite(s[1], self.rope_len(s[2]), Z))
            else:
                raise Unsupported('length of a list inside the loop that builds it')
        return tot

    def rope_get(self, r, i, st, what='item'):
        """element i (a term, known in range)"""
        segs = r.segs
        if tm.isconst(i):
            j = int(tm.cval(i))
            c = 0
            for s in segs:
                if s[0] != 'item':
                    break
                if c == j:
                    return s[1]
                c += 1
            if c == len(segs):
                raise Unsupported('list index out of range')
        off = Z
        alts = []
        for s in segs:
            if s[0] == 'item':
                alts.append((tm.eq(i, off), s[1]))
                off = tm.add(off, ONE)
            elif s[0] in ('sym', 'rep'):
                k = tm.fresh('q', 'I')
                if s[0] == 'sym':
                    m = ONE
                    get = lambda jj, s=s: s[2](jj)
                    ln = s[1]
                else:
                    inner = s[2](k)
                    m = self.rope_len(inner)
                    if k.args[0] in m.fv:
                        if len(inner.segs) == 1 and inner.segs[0][0] == 'cond' and len(inner.segs[0][2].segs) == 1 \
                                and inner.segs[0][2].segs[0][0] == 'item':
                            # filter: the i-th k that satisfies the condition
                            cnd = inner.segs[0][1]
                            l = tm.lam([k], cnd)
                            ln = tm.mk_sum(Z, s[1], k, tm.ite(cnd, ONE, Z))

                            def get(jj, inner=inner, k=k, l=l, s=s):
                                return subst_val(inner.segs[0][2].segs[0][1],
                                                 {k.args[0]: tm.uf('Nth', [Z, s[1], l, jj], 'I')})
                            alts.append((tm.and_(tm.le(off, i), tm.lt(i, tm.add(off, ln))), get(tm.sub(i, off))))
                            off = tm.add(off, ln)
                            continue
                        raise Unsupported('ragged list')
                    ln = tm.mul(s[1], m)

                    def get(jj, s=s, m=m):
                        if m is ONE:
                            rr = s[2](jj)
                            return self.rope_get(rr, Z, st)
                        q, x = tm.idiv(jj, m), tm.imod(jj, m)
                        # the nested index in range simplifications
                        return self.rope_get(s[2](q), x, st)
                alts.append((tm.and_(tm.le(off, i), tm.lt(i, tm.add(off, ln))), get(tm.sub(i, off))))
                off = tm.add(off, ln)
            elif s[0] == 'cond':
                n = self.rope_len(s[2])
                if len(segs) == 1:
                    return self.rope_get(s[2], i, st)
                raise Unsupported('index into a conditionally built list')
            else:
                raise Unsupported('index into a list inside the loop that builds it')
        if not alts:
            raise Unsupported('index of an empty list')
        v = alts[-1][1]
        for c, x in reversed(alts[:-1]):
            v = self.I.merge_val(c, x, v, st, st, None)
        return v

    def rope_arr(self, r, st):
        """np.array(list)"""
        r = self.I.freeze_rope(r, st)
        n = self.rope_len(r)
        if not r.segs:
            return Arr((Z,), lambda i: R0)
        k = tm.fresh('q', 'I')
        samp = self.rope_get(r, k if not tm.isconst(n) else Z, st)
        samp = self.I.res(samp, st)
        if isinstance(samp, (T, Cx)) and not (isinstance(samp, T) and samp.sort not in 'RIB'):
            if all(s[0] == 'item' for s in r.segs):
                its = [self.I.res(x, st) for x in r.items()]
                if any(isinstance(x, Cx) for x in its):
                    its = [self.cx(x) for x in its]
                return Arr((n,), lambda i: self.pick(its, i))

            def get(i):
                return self.rope_get(r, i, st)
            return Arr((n,), get)
        if isinstance(samp, (Arr, ARef, Rope, Tup)):
            a = self.arr(samp, st)
            shp = a.shape
            if k.args[0] in set().union(*[s.fv for s in shp]) if shp else False:
                j0 = {k.args[0]: Z}
                shp = tuple(tm.subst(s, j0) for s in shp)
                self.I.assumptions.add('rows of np.array(list of arrays) have equal lengths')
            if all(s[0] == 'item' for s in r.segs):
                its = [self.arr(x, st) for x in r.items()]
                return Arr((n,) + tuple(shp), lambda i, *j: self.pick([lambda x=x: x.at(*j) for x in its], i, True))
            return Arr((n,) + tuple(shp), lambda i, *j: self.arr(self.rope_get(r, i, st), st).at(*j))
        if isinstance(samp, T) and samp.sort == 'S' or isinstance(samp, str):
            return Arr((n,), lambda i: self.rope_get(r, i, st))
        raise Unsupported('np.array of %s' % type(samp).__name__)

    def pick(self, items, i, lazy=False):
        g = (lambda x: x()) if lazy else (lambda x: x)
        if tm.isconst(i):
            return g(items[int(tm.cval(i))])
        v = g(items[-1])
        for j in range(len(items) - 2, -1, -1):
            v = self.I.merge_val(tm.eq(i, C(j)), g(items[j]), v, None, None, None)
        return v

    def new(self, a, st):
        """fresh buffer holding array value a (0-d arrays become scalars)"""
        if a.ndim == 0:
            return a.at()
        return ARef(st.alloc(Buf(a)), a.shape)

    def view(self, a, st):
        """array value that may share memory with another array: writing through it is refused"""
        if a.ndim == 0:
            return a.at()
        return ARef(st.alloc(Buf(a, True)), a.shape)

    def undef(self, k, ndim=1, n=None):
        if ndim == 1:
            return Arr((n if n is not None else Z,), lambda i: tm.uf('undef.' + str(k), [i], 'S' if k in STRFIELDS else 'R'))
        return Arr((Z, Z), lambda i, j: tm.uf('undef.' + str(k), [i, j], 'R'))

    def same_dim(self, a, b, st):
        """common dimension under broadcasting; assumes no shape exception"""
        if a is b:
            return a
        if tm.isconst(a) and tm.cval(a) == 1:
            return b
        if tm.isconst(b) and tm.cval(b) == 1:
            return a
        e = tm.eq(a, b)
        if e is tm.FALSE:
            raise Unsupported('shape mismatch')
        if smt.entails(st.pc, e):
            return a if a.id < b.id else b
        self.I.assumptions.add('array operands have equal lengths (no exception raised)')
        st.assume(e)
        return a

    def bcast(self, a, b, st):
        nd = max(a.ndim, b.ndim)
        sa = (ONE,) * (nd - a.ndim) + a.shape
        sb = (ONE,) * (nd - b.ndim) + b.shape
        shape = tuple(self.same_dim(x, y, st) for x, y in zip(sa, sb))

        def view(arr, s):
            off = nd - arr.ndim

            def g(*i):
                ix = []
                for d in range(arr.ndim):
                    if tm.isconst(arr.shape[d]) and tm.cval(arr.shape[d]) == 1 and not (
                            tm.isconst(shape[off + d]) and tm.cval(shape[off + d]) == 1):
                        ix.append(Z)
                    else:
                        ix.append(i[off + d])
                return arr.at(*ix)
            return g
        return shape, view(a, sa), view(b, sb)

    def mapn(self, f, st, *vs):
        """elementwise f over broadcast values"""
        if all(isinstance(v, (T, Cx)) for v in vs):
            return f(*vs)
        if len(vs) == 1:
            a = self.arr(vs[0], st)
            return self.new(Arr(a.shape, lambda *i: f(a.at(*i))), st)
        a, b = self.arr(vs[0], st), self.arr(vs[1], st)
        shape, ga, gb = self.bcast(a, b, st)
        if len(vs) == 2:
            return self.new(Arr(shape, lambda *i: f(ga(*i), gb(*i))), st)
        c = self.arr(vs[2], st)
        ab = Arr(shape, lambda *i: Tup([ga(*i), gb(*i)]))
        shape2, gab, gc = self.bcast(ab, c, st)
        return self.new(Arr(shape2, lambda *i: f(*gab(*i).items, gc(*i))), st)

    # scalar operators
    def s_add(self, a, b):
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = self.cx(a), self.cx(b)
            return Cx(tm.add(a.re, b.re), tm.add(a.im, b.im))
        return tm.add(self.num(a), self.num(b))

    def s_neg(self, a):
        if isinstance(a, Cx):
            return Cx(tm.neg(a.re), tm.neg(a.im))
        return tm.neg(self.num(a))

    def s_sub(self, a, b):
        return self.s_add(a, self.s_neg(b))

    def s_mul(self, a, b):
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = self.cx(a), self.cx(b)
            return Cx(tm.sub(tm.mul(a.re, b.re), tm.mul(a.im, b.im)),
                      tm.add(tm.mul(a.re, b.im), tm.mul(a.im, b.re)))
        return tm.mul(self.num(a), self.num(b))

    def s_div(self, a, b):
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = self.cx(a), self.cx(b)
            if b.im is R0:
                return Cx(tm.div(a.re, b.re), tm.div(a.im, b.re))
            d = tm.add(tm.mul(b.re, b.re), tm.mul(b.im, b.im))
            n = self.s_mul(a, Cx(b.re, tm.neg(b.im)))
            return Cx(tm.div(n.re, d), tm.div(n.im, d))
        return tm.div(self.num(a), self.num(b))

    def s_floordiv(self, a, b):
        a, b = self.num(a), self.num(b)
        if a.sort == 'I' and b.sort == 'I':
            return tm.idiv(a, b)
        return tm.toreal(tm.floor_(tm.div(a, b)))

    def s_mod(self, a, b):
        a, b = self.num(a), self.num(b)
        if a.sort == 'I' and b.sort == 'I':
            return tm.imod(a, b)
        return tm.sub(tm.toreal(a), tm.mul(tm.toreal(b), tm.toreal(tm.floor_(tm.div(a, b)))))

    def s_pow(self, a, b):
        b = self.num(b)
        if tm.isconst(b):
            e = tm.cval(b)
            if isinstance(a, Cx):
                if e.denominator == 1 and 0 <= e <= 8:
                    r = Cx(tm.const(1, 'R'), R0)
                    for _ in range(int(e)):
                        r = self.s_mul(r, a)
                    return r
                raise Unsupported('complex power')
            a = self.num(a)
            if e.denominator == 1 and abs(e) <= 8:
                r = tm.powi(a, int(e))
                return tm.toreal(r) if b.sort == 'R' or e < 0 else r
            if e == Fraction(1, 2):
                return tm.sqrt(a)
            if e == Fraction(-1, 2):
                return tm.inv(tm.sqrt(a))
            return tm.uf('rpow', [tm.toreal(a), tm.toreal(b)], 'R')
        if isinstance(a, Cx):
            raise Unsupported('complex power')
        return tm.uf('rpow', [tm.toreal(self.num(a)), tm.toreal(b)], 'R')

    OPS = {'Add': 's_add', 'Sub': 's_sub', 'Mult': 's_mul', 'Div': 's_div', 'FloorDiv': 's_floordiv',
           'Mod': 's_mod', 'Pow': 's_pow'}

    def binop(self, op, a, b, st):
        a, b = self.I.res(a, st), self.I.res(b, st)
        if op == 'Mod' and (isinstance(a, str)):
            return self.percent(a, b, st)
        if op == 'Add':
            if self.sterm(a) is not None and self.sterm(b) is not None:
                return self.scat([a, b])
            if isinstance(a, LRef) and isinstance(b, LRef):
                return LRef(st.alloc(Rope(st.heap[a.lid].segs + st.heap[b.lid].segs)))
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, (StRef, ORef)) and isinstance(b, (StRef, ORef)):
                l = LRef(st.alloc(Rope([])))
                self.list_extend(l, a, st)
                self.list_extend(l, b, st)
                return ORef(st.alloc(ORec('Stream', {'traces': l})))
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, LRef) and isinstance(y, T) and tm.isconst(y):
                    return LRef(st.alloc(Rope(st.heap[x.lid].segs * int(tm.cval(y)))))
                if isinstance(x, LRef) and isinstance(y, T):
                    r = st.heap[x.lid]
                    return LRef(st.alloc(Rope([('rep', y, lambda q: r)])))
        if isinstance(a, Opq) or isinstance(b, Opq):
            raise Unsupported('operator on opaque object')
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            f = {'BitAnd': tm.and_, 'BitOr': tm.or_, 'BitXor': lambda x, y: tm.not_(tm.eq(x, y))}[op]

            def g(x, y):
                if not (isinstance(x, T) and isinstance(y, T) and x.sort == 'B' and y.sort == 'B'):
                    raise Unsupported('bit operator')
                return f(x, y)
            return self.mapn(g, st, a, b)
        if op == 'MatMult':
            return self.matmul(a, b, st)
        if op not in self.OPS:
            raise Unsupported('operator ' + op)
        if isinstance(a, (LRef, Tup)) and not isinstance(b, (ARef, Arr)) or \
                isinstance(b, (LRef, Tup)) and not isinstance(a, (ARef, Arr)):
            raise Unsupported('operator %s on lists' % op)
        return self.mapn(getattr(self, self.OPS[op]), st, a, b)

    def unop(self, op, v, st):
        if op == 'USub':
            return self.mapn(self.s_neg, st, v)
        if op == 'UAdd':
            return v
        if op == 'Invert':
            return self.mapn(lambda x: tm.not_(x), st, v)
        raise Unsupported(op)

    CMPS = {'Lt': tm.lt, 'LtE': tm.le, 'Gt': tm.gt, 'GtE': tm.ge}

    def compare(self, op, a, b, st):
        a, b = self.I.res(a, st), self.I.res(b, st)
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b, st)
            return r if op == 'Is' else tm.not_(r)
        if op in ('In', 'NotIn'):
            r = self.contains(a, b, st)
            return r if op == 'In' else tm.not_(r)
        if op in ('Eq', 'NotEq'):
            r = self.equal(a, b, st)
            if isinstance(r, T):
                return r if op == 'Eq' else tm.not_(r)
            if op == 'NotEq':
                return self.mapn(tm.not_, st, r)
            return r
        f = self.CMPS[op]
        return self.mapn(lambda x, y: f(self.num(x), self.num(y)), st, a, b)

    def is_(self, a, b, st):
        if b is None or a is None:
            x = a if b is None else b
            if x is None:
                return tm.TRUE
            if isinstance(x, Opt):
                return x.isnone
            if isinstance(x, Choice):
                return tm.or_(tm.and_(x.c, self.is_(x.a, None, st)), tm.and_(tm.not_(x.c), self.is_(x.b, None, st)))
            if isinstance(x, Poison):
                raise Unsupported(x.why)
            return tm.FALSE
        if isinstance(a, T) and isinstance(b, T) and a.sort == 'B' and b.sort == 'B':
            return tm.eq(a, b)
        if isinstance(a, Opt) and isinstance(b, T) and b.sort == 'B':
            return tm.and_(tm.not_(a.isnone), tm.eq(a.val, b))
        raise Unsupported('is')

    def contains(self, a, b, st):
        if isinstance(b, DRef):
            if self.key(a) not in st.heap[b.did]:
                self.automatic(self.key(a), st.heap[b.did])
            return tm.boolc(self.key(a) in st.heap[b.did])
        if isinstance(b, ORef) and st.heap[b.oid].cls in ('Stats', 'Header') and isinstance(a, str):
            if a not in st.heap[b.oid].fields:
                self.automatic(a)
            return tm.boolc(a in st.heap[b.oid].fields)
        its = self.concrete_items(b, st)
        r = []
        for x in its:
            e = self.equal(a, x, st)
            if not isinstance(e, T):
                raise Unsupported('in')
            r.append(e)
        return tm.or_(*r)

    AUTO = {'processing', 'sampling_rate', 'npts', 'starttime', 'endtime', 'network', 'station', 'location', 'channel', 'calib', '_format'}

    def automatic(self, k, d=None):
        """header entries ObsPy keeps by itself (filtering records itself under 'processing'): not modelled, so their absence must not be concluded"""
        if k in self.AUTO and (d is None or 'delta' in d):
            raise Unsupported('header entry %s kept by ObsPy' % k)

    def equal(self, a, b, st):
        if isinstance(a, Opt) or isinstance(b, Opt):
            if isinstance(b, Opt):
                a, b = b, a
            if isinstance(b, Opt):
                raise Unsupported('comparison of options')
            if b is None:
                return a.isnone
            e = self.equal(a.val, b, st)
            return tm.and_(tm.not_(a.isnone), e)
        if a is None or b is None:
            return tm.boolc(a is b)
        x, y = self.sterm(a), self.sterm(b)
        if x is not None and y is not None:
            return tm.eq(x, y)
        if x is not None or y is not None:
            o = b if x is not None else a
            if isinstance(o, T) and o.sort in 'RIB':
                return tm.FALSE
            if isinstance(o, (LRef, Tup, Cx)):
                return tm.FALSE
            raise Unsupported('string comparison')

        def f(p, q):
            if isinstance(p, Cx) or isinstance(q, Cx):
                p, q = self.cx(p), self.cx(q)
                return tm.and_(tm.eq(p.re, q.re), tm.eq(p.im, q.im))
            if isinstance(p, Opq) or isinstance(q, Opq):
                raise Unsupported('comparison')
            return tm.eq(p, q)
        if isinstance(a, (LRef, Tup)) and isinstance(b, (LRef, Tup)):
            p, q = self.concrete_items(a, st), self.concrete_items(b, st)
            if len(p) != len(q):
                return tm.FALSE
            return tm.and_(*[self.I.truth(self.equal(i, j, st), st) for i, j in zip(p, q)])
        if isinstance(a, (T, Cx, ARef, Arr)) and isinstance(b, (T, Cx, ARef, Arr)):
            return self.mapn(f, st, a, b)
        if isinstance(a, Opq) and isinstance(b, Opq):
            return tm.eq(a.term, b.term)
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))

    # ------------------------------------------------------------ sequences
    def length(self, v, st):
        v = self.I.res(v, st)
        if isinstance(v, (ARef, Arr)):
            return v.shape[0]
        if isinstance(v, LRef):
            return self.rope_len(st.heap[v.lid])
        if isinstance(v, Rope):
            return self.rope_len(v)
        if isinstance(v, Tup):
            return C(len(v.items))
        if isinstance(v, StRef):
            return v.n
        if isinstance(v, DRef):
            return C(len(st.heap[v.did]))
        if isinstance(v, str):
            return C(len(v))
        if isinstance(v, WhereIdx):
            return self.where_arr(v).shape[0]
        if isinstance(v, (ORef, FObj)):
            r = st.heap[v.oid] if isinstance(v, ORef) else v
            if r.cls == 'Stream':
                return self.length(r.fields['traces'], st)
            if r.cls == 'Trace':
                return self.length(r.fields['data'], st)
            if isinstance(r.cls, Cls):
                m = self.I.find_method(r.cls, '__len__', st)
                if m:
                    return self.I.call(Fn(m[0], m[1], selfv=v, cls=r.cls), [], {}, st)
        if isinstance(v, Opq):
            return tm.uf('len', [v.term], 'I')
        if isinstance(v, TrRef):
            return st.heap[v.sid].npts(v.k)
        raise Unsupported('len of %s' % type(v).__name__)

    def seq(self, v, st):
        """iterable -> (length, get(k, st))"""
        v = self.I.res(v, st)
        if isinstance(v, tuple) and v and v[0] == 'range':
            _, a, b, s = v
            if tm.isconst(s) and tm.cval(s) == 1:
                n = tm.sub(b, a)
            elif tm.isconst(s) and tm.cval(s) == -1:
                n = tm.sub(a, b)
            elif tm.isconst(s) and tm.cval(s) > 0:
                n = tm.idiv(tm.add(tm.sub(b, a), tm.sub(s, ONE)), s)
            elif tm.isconst(s) and tm.cval(s) < 0:
                n = tm.idiv(tm.add(tm.sub(a, b), tm.sub(tm.neg(s), ONE)), tm.neg(s))
            else:
                raise Unsupported('range step')
            n = self.nonneg_or_zero(n, st)
            return n, lambda k, x: tm.add(a, tm.mul(s, k))
        if isinstance(v, tuple) and v and v[0] == 'zip':
            qs = [(None, lambda k, x, y=y: y[1]) if isinstance(y := self.I.res(z, st), tuple) and y and y[0] == 'repeat' else self.seq(z, st) for z in v[1]]
            ns = [q for q in qs if q[0] is not None]
            if not ns:
                raise Unsupported('endless zip')
            n = ns[0][0]
            for q in ns[1:]:
                if q[0] is n or smt.entails(st.pc, tm.eq(q[0], n)):
                    continue
                if smt.entails(st.pc, tm.le(q[0], n)):
                    n = q[0]
                elif smt.entails(st.pc, tm.le(n, q[0])):
                    pass
                else:
                    n = tm.ite(tm.le(n, q[0]), n, q[0])
            return n, lambda k, x: Tup([q[1](k, x) for q in qs])
        if isinstance(v, tuple) and v and v[0] == 'enum':
            n, g = self.seq(v[1], st)
            return n, lambda k, x: Tup([tm.add(v[2], k), g(k, x)])
        if isinstance(v, tuple) and v and v[0] == 'map':
            n, g = self.seq(v[2], st)
            return n, lambda k, x: self.I.call(v[1], [g(k, x)], {}, x)
        if isinstance(v, tuple) and v and v[0] == 'rev':
            n, g = self.seq(v[1], st)
            return n, lambda k, x: g(tm.sub(tm.sub(n, ONE), k), x)
        if isinstance(v, tuple) and v and v[0] == 'product':
            qs = [self.seq(x, st) for x in v[1]]
            n = ONE
            for q in qs:
                n = tm.mul(n, q[0])

            def get(k, x):
                out = []
                rest = k
                for q in reversed(qs[1:]):
                    out.append(q[1](tm.imod(rest, q[0]), x))
                    rest = tm.idiv(rest, q[0])
                out.append(qs[0][1](rest, x))
                return Tup(list(reversed(out)))
            return n, get
        if isinstance(v, (ARef, Arr)):
            return v.shape[0], lambda k, x: self.getitem(v, k, x, True)
        if isinstance(v, LRef):
            r0 = st.heap[v.lid]
            return self.rope_len(r0), lambda k, x: self.rope_get(x.heap[v.lid], k, x)
        if isinstance(v, Rope):
            return self.rope_len(v), lambda k, x: self.rope_get(v, k, x)
        if isinstance(v, Tup):
            return C(len(v.items)), lambda k, x: self.rope_get(Rope([('item', y) for y in v.items]), k, x)
        if isinstance(v, StRef):
            return v.n, lambda k, x: TrRef(v.sid, v.idx(k))
        if isinstance(v, WhereIdx):
            a = self.where_arr(v)
            return a.shape[0], lambda k, x: a.at(k)
        if isinstance(v, DRef):
            ks = [self.unkey(y) for y in st.heap[v.did]]
            return C(len(ks)), lambda k, x: ks[int(tm.cval(k))]
        if isinstance(v, (ORef, FObj)):
            r = st.heap[v.oid] if isinstance(v, ORef) else v
            if r.cls == 'Stream':
                return self.seq(r.fields['traces'], st)
        if isinstance(v, Opq) and v.kind in ITEMS:
            sub = ITEMS.get(v.kind, 'obj')
            return tm.uf('len', [v.term], 'I'), lambda k, x: Opq(tm.uf('item', [v.term, k], 'U'), sub)
        raise Unsupported('iteration over %s' % type(v).__name__)

    def unkey(self, y):
        if isinstance(y, tuple) and y[0] == 'n':
            return C(y[1])
        if isinstance(y, tuple) and y[0] == 't':
            return y[1]
        return y

    def nonneg_or_zero(self, n, st):
        if tm.isconst(n):
            return n if tm.cval(n) >= 0 else Z
        if smt.entails(st.pc, tm.le(Z, n)):
            return n
        if smt.entails(st.pc, tm.le(n, Z)):
            return Z
        return tm.ite(tm.lt(Z, n), n, Z)

    def concrete_items(self, v, st):
        n, g = self.seq(v, st)
        if not tm.isconst(n):
            raise Unsupported('sequence of unknown length')
        return [g(C(i), st) for i in range(int(tm.cval(n)))]

    def unpack(self, v, n, st):
        v = self.I.res(v, st)
        if isinstance(v, Tup):
            if len(v.items) != n:
                raise Unsupported('unpacking')
            return v.items
        if isinstance(v, Opq):
            return [Opq(tm.uf('unpack%d' % n, [v.term, C(i)], 'U'), 'obj') for i in range(n)]
        ln, g = self.seq(v, st)
        return [g(C(i), st) for i in range(n)]

    def list_extend(self, l, v, st):
        v = self.I.res(v, st)
        if isinstance(v, (ORef, FObj)):
            r = st.heap[v.oid] if isinstance(v, ORef) else v
            if r.cls == 'Stream':
                v = r.fields['traces']
        if isinstance(v, LRef):
            segs = st.heap[v.lid].segs
        elif isinstance(v, Rope):
            segs = v.segs
        elif isinstance(v, StRef) and not tm.isconst(v.n):
            segs = [('sym', v.n, lambda q: TrRef(v.sid, v.idx(q)))]
        else:
            n, g = self.seq(v, st)
            if tm.isconst(n) and tm.cval(n) <= 64:
                segs = [('item', g(C(i), st)) for i in range(int(tm.cval(n)))]
            else:
                fz = self.I.freeze(v, st) if not isinstance(v, tuple) else None
                if fz is None:
                    raise Unsupported('extend')
                n, g = self.seq(fz, st)
                segs = [('sym', n, lambda q: g(q, st))]
        st.heap[l.lid] = Rope(st.heap[l.lid].segs + segs)

    # ------------------------------------------------------------ indexing
    def norm(self, i, n, st):
        """python index -> non-negative index"""
        i = self.num(i, st)
        if i.sort == 'R':
            raise Unsupported('real index')
        if tm.isconst(i):
            return i if tm.cval(i) >= 0 else tm.add(n, i)
        if self.is_nonneg(i, st):
            return i
        if smt.entails(st.pc, tm.lt(i, Z)):
            return tm.add(n, i)
        return tm.ite(tm.lt(i, Z), tm.add(n, i), i)

    def is_nonneg(self, i, st):
        if tm.isconst(i):
            return tm.cval(i) >= 0
        if i.op == 'uf' and i.args[0] in ('ArgMin', 'ArgMax', 'Nth', 'imod', 'abs'):
            return True
        if self.syn_nonneg(i, st):
            return True
        return smt.entails(st.pc, tm.le(Z, i))

    def syn_nonneg(self, t, st):
        for mon, c in tm.terms_of(t).items():
            if c < 0:
                return False
            for a, e in mon:
                if e < 0:
                    return False
                if a.op == 'uf' and a.args[0] in ('ArgMin', 'ArgMax', 'Nth', 'imod', 'abs', 'next_pow_2', 'peak', 'peaks.n'):
                    continue
                if a.op == 'uf' and a.args[0] == 'idiv' and self.syn_nonneg(a.args[1], st) and self.syn_nonneg(a.args[2], st):
                    continue
                if not any(st.known(tm.le(C(x), a)) for x in (0, 1, 2)):
                    return False
        return True

    def slice_bounds(self, s, n, st):
        """-> (lo, step, length)"""
        step = ONE if s.step is None else self.num(s.step, st)
        if not tm.isconst(step):
            raise Unsupported('slice step')
        sv = tm.cval(step)

        def clamp(x, dflt):
            if x is None:
                return dflt
            x = self.num(x, st)
            if x.sort == 'R':
                raise Unsupported('real slice bound')
            if tm.isconst(x) and tm.cval(x) < 0:
                x = tm.add(n, x)
            elif not self.is_nonneg(x, st):
                if x is not n:
                    x = tm.ite(tm.lt(x, Z), tm.add(n, x), x)
            # upper clamp
            if x is n or self.I_le(x, n, st):
                return x
            return tm.ite(tm.lt(n, x), n, x)
        if sv == 1:
            lo, hi = clamp(s.lo, Z), clamp(s.hi, n)
            ln = tm.sub(hi, lo)
            return lo, step, self.nonneg_or_zero(ln, st)
        if sv == -1 and s.lo is None and s.hi is None:
            return tm.sub(n, ONE), step, n
        if sv > 1 and s.lo is None and s.hi is None:
            return Z, step, tm.idiv(tm.add(n, C(sv - 1)), step)
        if sv > 1:
            lo, hi = clamp(s.lo, Z), clamp(s.hi, n)
            return lo, step, self.nonneg_or_zero(tm.idiv(tm.add(tm.sub(hi, lo), C(sv - 1)), step), st)
        raise Unsupported('slice')

    def I_le(self, a, b, st):
        return smt.entails(st.pc, tm.le(a, b))

    def index_dims(self, shape, ix, st):
        """-> (per-dim specs, view shape) or None for fancy indexing"""
        items = ix.items if isinstance(ix, Tup) else [ix]
        if any(isinstance(x, Lib) and x.name == 'Ellipsis' for x in items):
            j = [isinstance(x, Lib) for x in items].index(True)
            rest = len(shape) - (len(items) - 1)
            items = items[:j] + [Sl(None, None, None)] * rest + items[j + 1:]
        if any(x is None for x in items):
            return None
        items = list(items) + [Sl(None, None, None)] * (len(shape) - len(items))
        if len(items) != len(shape):
            raise Unsupported('too many indices')
        dims, vs = [], []
        for n, x in zip(shape, items):
            x = self.I.res(x, st)
            if isinstance(x, Sl):
                lo, step, ln = self.slice_bounds(x, n, st)
                dims.append(('sl', lo, step, len(vs)))
                vs.append(ln)
            elif isinstance(x, T) and x.sort in 'RI':
                dims.append(('int', self.norm(x, n, st)))
            elif isinstance(x, (ARef, Arr)) and x.ndim == 0:
                dims.append(('int', self.norm(self.arr(x, st).at(), n, st)))
            else:
                return None
        return dims, vs

    def compose(self, ref, dims, vs):
        """view of a view"""
        if ref.dims is None:
            return ARef(ref.bid, vs, dims)
        out = []
        for d in ref.dims:
            if d[0] == 'int':
                out.append(d)
            else:
                lo, step, vd = d[1], d[2], d[3]
                e = dims[vd]
                if e[0] == 'int':
                    out.append(('int', tm.add(lo, tm.mul(step, e[1]))))
                else:
                    out.append(('sl', tm.add(lo, tm.mul(step, e[1])), tm.mul(step, e[2]), e[3]))
        return ARef(ref.bid, vs, out)

    def getitem(self, o, ix, st, inrange=False):
        o = self.I.res(o, st)
        if isinstance(ix, (Opt, Choice)):
            ix = self.I.res(ix, st)
        if isinstance(o, ARef) or isinstance(o, Arr):
            return self.arr_getitem(o, ix, st, inrange)
        if isinstance(o, (LRef, Rope, Tup)):
            r = st.heap[o.lid] if isinstance(o, LRef) else (o if isinstance(o, Rope) else Rope([('item', x) for x in o.items]))
            if isinstance(ix, Sl):
                if r.concrete():
                    g = lambda x: None if x is None else int(tm.cval(self.num(x, st)))
                    its = r.items()[slice(g(ix.lo), g(ix.hi), g(ix.step))]
                    return Tup(its) if isinstance(o, Tup) else LRef(st.alloc(Rope([('item', x) for x in its])))
                n = self.rope_len(r)
                lo, step, ln = self.slice_bounds(ix, n, st)
                fz = self.I.freeze_rope(r, st)
                return LRef(st.alloc(Rope([('sym', ln, lambda q: self.rope_get(fz, tm.add(lo, tm.mul(step, q)), st))])))
            i = self.num(ix, st)
            if r.segs and r.segs[0][0] == 'pre' and tm.isconst(i) and tm.cval(i) < 0:
                j = -int(tm.cval(i))
                tail = r.segs[-j:]
                if len(tail) == j and all(s[0] == 'item' for s in tail):
                    return self.I.res(tail[0][1], st)
            return self.I.res(self.rope_get(r, self.norm(i, self.rope_len(r), st), st), st)
        if isinstance(o, DRef):
            d = st.heap[o.did]
            k = self.key(ix)
            if k not in d:
                raise Unsupported('missing key %r' % (k,))
            v = self.I.res(d[k], st)
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        if isinstance(o, dict):
            return o[self.key(ix)]
        if isinstance(o, StRef):
            if isinstance(ix, Sl):
                lo, step, ln = self.slice_bounds(ix, o.n, st)
                return StRef(o.sid, ln, lambda k, o=o: o.idx(tm.add(lo, tm.mul(step, k))))
            return TrRef(o.sid, o.idx(self.norm(ix, o.n, st)))
        if isinstance(o, StatsRef):
            return self.stats_get(o, ix, st)
        if isinstance(o, WhereIdx):
            return self.arr_getitem(self.where_arr(o), ix, st, inrange)
        if isinstance(o, tuple) and o and o[0] == 'wheretuple':
            return o[1]
        if isinstance(o, (ORef, FObj)):
            r = st.heap[o.oid] if isinstance(o, ORef) else o
            if r.cls == 'Stream':
                return self.getitem(r.fields['traces'], ix, st)
            if r.cls in ('Stats', 'Header') and isinstance(ix, str):
                return self.I.getattr(o, ix, st)
            if r.cls == 'Trace':
                return self.getitem(r.fields['data'], ix, st)
            if isinstance(r.cls, Cls):
                m = self.I.find_method(r.cls, '__getitem__', st)
                if m:
                    return self.I.call(Fn(m[0], m[1], selfv=o, cls=r.cls), [ix], {}, st)
        if isinstance(o, str) and isinstance(ix, (T, Sl)):
            g = lambda x: None if x is None else int(tm.cval(self.num(x, st)))
            return o[slice(g(ix.lo), g(ix.hi), g(ix.step))] if isinstance(ix, Sl) else o[g(ix)]
        if isinstance(o, Opq):
            return self.opq_getitem(o, ix, st)
        raise Unsupported('subscript of %s' % type(o).__name__)

    def opq_getitem(self, o, ix, st):
        if isinstance(ix, str):
            return self.opq_attr(o, ix, st)
        if isinstance(ix, T):
            sub = ITEMS.get(o.kind, 'obj')
            return Opq(tm.uf('item', [o.term, ix if o.kind in ('gs', 'axes') else self.norm(ix, tm.uf('len', [o.term], 'I'), st)], 'U'), sub)
        if o.kind == 'gs' and isinstance(ix, Tup):
            return Opq(tm.uf('cell', [o.term] + [self.freeze_term(x, st) for x in ix.items], 'U'), 'obj')
        raise Unsupported('subscript of opaque object')

    def arr_getitem(self, o, ix, st, inrange=False):
        if inrange and isinstance(ix, T):
            if o.ndim == 1:
                return self.arr(o, st).at(ix)
            dims = [('int', ix)] + [('sl', Z, ONE, j) for j in range(o.ndim - 1)]
            r = (dims, list(o.shape[1:]))
        else:
            r = self.index_dims(o.shape, ix, st)
        if r is not None:
            dims, vs = r
            if not vs:
                a = self.arr(o, st)
                return a.at(*[d[1] for d in dims])
            if isinstance(o, ARef):
                return self.compose(o, dims, vs)
            tmp = ARef(0, vs, dims)
            return Arr(vs, lambda *i: o.at(*tmp.base(i)))
        # fancy
        a = self.arr(o, st)
        items = ix.items if isinstance(ix, Tup) else [ix]
        if any(x is None for x in items):
            # newaxis
            out, j = [], 0
            shape = []
            mapi = []
            for x in items + [Sl(None, None, None)] * (a.ndim - sum(1 for y in items if y is not None)):
                if x is None:
                    shape.append(ONE)
                elif isinstance(x, Sl) and x.lo is None and x.hi is None and x.step is None:
                    shape.append(a.shape[j])
                    mapi.append(len(shape) - 1)
                    j += 1
                else:
                    raise Unsupported('newaxis with index')
            return self.new(Arr(shape, lambda *i: a.at(*[i[q] for q in mapi])), st)
        if len(items) == 1 or all(isinstance(x, Sl) and x.lo is None and x.hi is None for x in items[1:]):
            x = self.I.res(items[0], st)
            if isinstance(x, WhereIdx):
                w = self.where_arr(x)
                return self.new(Arr((w.shape[0],) + a.shape[1:], lambda i, *j: a.at(w.at(i), *j)), st)
            if isinstance(x, tuple) and x and x[0] == 'wheretuple':
                return self.arr_getitem(o, x[1], st)
            if isinstance(x, (ARef, Arr, LRef, Rope)):
                xa = self.arr(x, st)
                if xa.ndim == 1:
                    k = tm.fresh('p', 'I')
                    e = xa.at(k)
                    if isinstance(e, T) and e.sort == 'B':
                        w = self.where_arr(WhereIdx(xa.shape[0], lambda q: xa.at(q)))
                        return self.new(Arr((w.shape[0],) + a.shape[1:], lambda i, *j: a.at(w.at(i), *j)), st)
                    n0 = a.shape[0]
                    return self.new(Arr((xa.shape[0],) + a.shape[1:],
                                        lambda i, *j: a.at(self.norm(xa.at(i), n0, st), *j)), st)
        if len(items) == 2 and a.ndim == 2 and isinstance(items[0], Sl):
            x = self.I.res(items[1], st)
            if isinstance(x, (LRef, ARef, Arr)):
                xa = self.arr(x, st)
                lo, step, ln = self.slice_bounds(items[0], a.shape[0], st)
                return self.new(Arr((ln, xa.shape[0]), lambda i, j: a.at(tm.add(lo, tm.mul(step, i)),
                                                                         self.norm(xa.at(j), a.shape[1], st))), st)
        raise Unsupported('fancy index')

    def write_region(self, ref, va, st):
        """ref[...] = array value va (broadcast to ref.shape)"""
        h = st.heap[ref.bid]
        if isinstance(h, Buf) and h.ro:
            raise Unsupported('write to a possibly shared array')
        if isinstance(h, SRec) and h.ro:
            raise Unsupported('write to a shared stream')
        old = self.content(ref.bid, st)
        # broadcast
        tgt = Arr(ref.shape, lambda *i: R0)
        shape, _, gv = self.bcast(tgt, va, st)
        k = [tm.fresh('p', 'I') for _ in old.shape]
        dims = ref.dims
        if dims is None:
            dims = [('sl', Z, ONE, j) for j in range(len(old.shape))]

        def get(*b):
            conds = []
            vi = {}
            for x, d, n in zip(b, dims, old.shape):
                if d[0] == 'int':
                    conds.append(tm.eq(x, d[1]))
                else:
                    lo, step, vd = d[1], d[2], d[3]
                    ln = ref.shape[vd]
                    if lo is Z and step is ONE and ln is n:
                        vi[vd] = x
                    elif tm.isconst(step) and tm.cval(step) == 1:
                        conds += [tm.le(lo, x), tm.lt(x, tm.add(lo, ln))]
                        vi[vd] = tm.sub(x, lo)
                    elif tm.isconst(step) and tm.cval(step) == -1:
                        conds += [tm.le(x, lo), tm.lt(tm.sub(lo, ln), x)]
                        vi[vd] = tm.sub(lo, x)
                    else:
                        q = tm.idiv(tm.sub(x, lo), step)
                        conds += [tm.le(lo, x), tm.eq(tm.imod(tm.sub(x, lo), step), Z), tm.lt(q, ln)]
                        vi[vd] = q
            c = tm.and_(*conds)
            if c is tm.FALSE:
                return old.at(*b)
            v = gv(*[vi[j] for j in range(len(ref.shape))])
            if isinstance(v, T) and v.sort == 'I':
                v = tm.toreal(v)
            if c is tm.TRUE:
                return v
            o = old.at(*b)
            return self.I.merge_val(c, v, o, None, None, None)
        na = Arr(old.shape, get)
        if isinstance(h, Buf):
            st.heap[ref.bid] = Buf(na)
        else:
            f = dict(h.fields)
            f['data'] = na
            st.heap[ref.bid] = h.with_(fields=f)

    def write_ref(self, ref, va, st):
        self.write_region(ref, va, st)

    def setitem(self, o, ix, v, st):
        o = self.I.res(o, st)
        if isinstance(o, ARef):
            r = self.index_dims(o.shape, ix, st)
            if r is not None:
                dims, vs = r
                ref = self.compose(o, dims, vs)
                self.write_region(ref, self.arr(v, st), st)
                return
            self.fancy_set(o, ix, v, st)
            return
        if isinstance(o, Arr):
            raise Unsupported('write to a possibly shared array')
        if isinstance(o, LRef):
            r = st.heap[o.lid]
            if r.concrete() and isinstance(ix, T) and tm.isconst(ix):
                its = list(r.items())
                its[int(tm.cval(ix))] = v
                st.heap[o.lid] = Rope([('item', x) for x in its])
                return
            raise Unsupported('list item assignment')
        if isinstance(o, DRef):
            d = dict(st.heap[o.did])
            d[self.key(ix)] = v
            st.heap[o.did] = d
            return
        if isinstance(o, StatsRef):
            self.stats_set(o, ix, v, st)
            return
        if isinstance(o, ORef):
            r = st.heap[o.oid]
            if r.cls in ('Stats', 'Header'):
                self.I.setattr(o, ix, v, st)
                return
        if isinstance(o, Opq):
            self.I.effect(st, 'setitem', [o, ix, v])
            return
        raise Unsupported('item assignment on %s' % type(o).__name__)

    def fancy_set(self, o, ix, v, st):
        items = ix.items if isinstance(ix, Tup) else [ix]
        x = self.I.res(items[0], st)
        if isinstance(x, tuple) and x and x[0] == 'wheretuple':
            x = x[1]
        va = self.arr(v, st)
        if o.dims is not None or va.ndim != 0:
            raise Unsupported('fancy assignment')
        h = st.heap[o.bid]
        if not isinstance(h, Buf) or h.ro:
            raise Unsupported('write to a possibly shared array')
        old = h.arr
        if isinstance(x, WhereIdx):
            cond = lambda i: x.cond(i)
        else:
            xa = self.arr(x, st)
            p = tm.fresh('p', 'I')
            if xa.ndim == o.ndim and len(items) == 1:
                e = xa.at(*[tm.fresh('p', 'I') for _ in range(xa.ndim)])
                if isinstance(e, T) and e.sort == 'B':
                    st.heap[o.bid] = Buf(Arr(old.shape, lambda *b: self.I.merge_val(xa.at(*b), va.at(), old.at(*b), None, None, None)))
                    return
            e = xa.at(p)
            if not (isinstance(e, T) and e.sort == 'B'):
                raise Unsupported('fancy assignment')
            cond = lambda i: xa.at(i)
        rest = items[1:]
        if not rest:
            st.heap[o.bid] = Buf(Arr(old.shape, lambda i, *b: self.I.merge_val(cond(i), va.at(), old.at(i, *b), None, None, None)))
            return
        if len(rest) == 1 and isinstance(rest[0], T):
            j = self.norm(rest[0], o.shape[1], st)
            st.heap[o.bid] = Buf(Arr(old.shape, lambda i, b: self.I.merge_val(tm.and_(cond(i), tm.eq(b, j)), va.at(), old.at(i, b), None, None, None)))
            return
        raise Unsupported('fancy assignment')

    # ------------------------------------------------------------ streams
    def stats_get(self, o, name, st):
        rec = st.heap[o.sid]
        if not isinstance(name, str):
            raise Unsupported('stats key')
        if name == 'npts':
            return rec.npts(o.k)
        if name == 'sampling_rate' and name not in rec.fields:
            return tm.inv(self.stats_get(o, 'delta', st))
        a = rec.fields.get(name)
        if a is None and rec.closed:
            raise Unsupported('header entry %s of a file' % name)
        if a is None:
            return tm.uf('%s.%s' % (rec.name, name), [o.k], 'S' if name in STRFIELDS else 'R')
        return a.at(o.k)

    def stats_set(self, o, name, v, st):
        rec = st.heap[o.sid]
        if rec.ro:
            raise Unsupported('write to a shared stream header')
        v = self.I.res(v, st)
        if isinstance(v, str):
            v = tm.strc(v)
        if not isinstance(v, T):
            raise Unsupported('header value')
        old = rec.fields.get(name) or (self.undef(name, 1, rec.n) if rec.closed else None) or Arr((rec.n,), lambda k: tm.uf('%s.%s' % (rec.name, name), [k], 'S' if name in STRFIELDS else 'R'))
        f = dict(rec.fields)
        f[name] = Arr((rec.n,), lambda k: self.I.merge_val(tm.eq(k, o.k), v, old.at(k), None, None, None))
        st.heap[o.sid] = rec.with_(fields=f)

    def tr_data(self, o, st):
        rec = st.heap[o.sid]
        return ARef(o.sid, (rec.npts(o.k),), [('int', o.k), ('sl', Z, ONE, 0)])

    # ------------------------------------------------------------ attributes
    def libattr(self, o, name, st):
        full = o.name + '.' + name
        if full in ('numpy.pi', 'math.pi', 'scipy.pi'):
            return tm.var('pi', 'R')
        if full in ('numpy.nan',):
            return tm.var('nan', 'R')
        if full == 'numpy.inf':
            return tm.var('inf', 'R')
        if full == 'numpy.newaxis':
            return None
        return Lib(full)

    def getattr(self, o, name, st):
        if isinstance(o, (ARef, Arr)):
            if name == 'shape':
                return Tup(o.shape)
            if name == 'size':
                r = ONE
                for s in o.shape:
                    r = tm.mul(r, s)
                return r
            if name == 'ndim':
                return C(o.ndim)
            if name == 'T':
                a = self.arr(o, st)
                return self.view(Arr(tuple(reversed(a.shape)), lambda *i: a.at(*reversed(i))), st)
            if name in ('real', 'imag'):
                e = self.arr(o, st)
                if name == 'real' and isinstance(e.at(*[tm.fresh('p', 'I') for _ in e.shape]), T):
                    return o
                return self.mapn((lambda x: self.cx(x).re) if name == 'real' else (lambda x: self.cx(x).im), st, o)
            if name == 'dtype':
                return Lib('dtype')
            from .interp import Bound
            return Bound(o, name)
        if isinstance(o, Cx):
            if name == 'real':
                return o.re
            if name == 'imag':
                return o.im
        if isinstance(o, T) and o.sort in 'RI' and name == 'real':
            return o
        if isinstance(o, TrRef):
            if name == 'data':
                return self.tr_data(o, st)
            if name == 'stats':
                return StatsRef(o.sid, o.k)
            if name == 'id':
                return tm.uf('trace.id', [o.k], 'S')
        if isinstance(o, StatsRef):
            if name in ('get', 'update', 'copy', '__getstate__', 'setdefault', 'keys', 'items'):
                from .interp import Bound
                return Bound(o, name)
            return self.stats_get(o, name, st)
        if isinstance(o, Opq):
            return self.opq_attr(o, name, st)
        if isinstance(o, tuple) and o and o[0] == 'super':
            from .interp import Bound
            return Bound(o, name)
        if o is None:
            raise Unsupported('attribute %s of None' % name)
        if isinstance(o, (Opt, Choice)):
            raise Unsupported('attribute %s of undetermined value' % name)
        from .interp import Bound
        return Bound(o, name)

    def assigns(self, e, name):
        if e[0] == 'item':
            return e[1].items[0] == name
        if e[0] == 'rep':
            return any(self.assigns(x, name) for x in e[2](tm.fresh('e', 'I')).segs)
        return any(self.assigns(x, name) for x in (e[2].segs if hasattr(e[2], 'segs') else e[2]))

    def opq_attr(self, o, name, st):
        h = self.extra.get(('attr', o.kind, name))
        if h is not None:
            return h(o, st)
        a = ATTRS.get(o.kind, {}).get(name)
        if a is not None:
            if any(self.assigns(e, 'setattr.' + name) for e in st.eff):
                raise Unsupported('attribute %s read after an assignment' % name)
            t = tm.uf('%s.%s' % (o.kind, name), [o.term], a if a in ('R', 'S', 'I') else 'U')
            return t if a in ('R', 'S', 'I') else Opq(t, a)
        from .interp import Bound
        if o.kind in ('plt', 'axes', 'fig', 'gs', 'artist', 'cb'):
            if name in ('transData', 'transAxes', 'ax', 'xaxis', 'yaxis'):
                return Opq(tm.uf('attr.' + name, [o.term], 'U'), 'axes')
            return Bound(o, name)
        return Bound(o, name)

    def setattr(self, o, name, v, st):
        if isinstance(o, StatsRef):
            self.stats_set(o, name, v, st)
            return
        if isinstance(o, ARef) and name == 'shape':
            raise Unsupported('assignment to shape')
        if isinstance(o, TrRef) and name == 'data':
            a = self.arr(v, st)
            self.write_region(self.tr_data(o, st), a, st)
            rec = st.heap[o.sid]
            if a.shape[0] is not rec.npts(o.k) and not smt.entails(st.pc, tm.eq(a.shape[0], rec.npts(o.k))):
                raise Unsupported('trace length change')
            return
        if isinstance(o, Opq):
            self.I.effect(st, 'setattr.' + name, [o, v])
            return
        raise Unsupported('attribute assignment on %s' % type(o).__name__)

    def objattr(self, o, r, name, st):
        from .interp import Bound
        if r.cls == 'Trace' and name == 'stats':
            return r.fields['stats']
        if r.cls in ('Stats', 'Header'):
            if name == '__getstate__':
                return Bound(o, name)
            if name == 'npts':
                raise Unsupported('npts of constructed trace')
        return Bound(o, name)

    def super_init(self, base, meth, selfv, args, kw, st):
        if meth == '__init__' and isinstance(base, Lib) and base.name.endswith('Trace'):
            names = ['data', 'header']
            b = dict(zip(names, args))
            b.update(kw)
            t = self.make_trace(b.get('data'), b.get('header'), st)
            r = st.heap[t.oid]
            me = st.heap[selfv.oid]
            f = dict(me.fields)
            f.update(r.fields)
            st.heap[selfv.oid] = ORec(me.cls, f)
            return None
        if isinstance(base, Cls):
            m = self.I.find_method(base, meth, st)
            if m:
                return self.I.call(Fn(m[0], m[1], selfv=selfv, cls=base), args, kw, st)
        raise Unsupported('super().' + meth)

    def make_trace(self, data, header, st):
        if data is None or (isinstance(data, Lib) and data.name == 'Ellipsis'):
            data = self.new(Arr((Z,), lambda i: R0), st)
        f = {}
        if header is not None:
            h = self.I.res(header, st)
            if isinstance(h, DRef):
                f = dict(st.heap[h.did])
            elif isinstance(h, ORef):
                f = dict(st.heap[h.oid].fields)
            else:
                raise Unsupported('trace header')
        f.setdefault('delta', tm.const(1, 'R'))
        stats = ORef(st.alloc(ORec('Stats', f)))
        return ORef(st.alloc(ORec('Trace', {'data': data, 'stats': stats})))

    # ------------------------------------------------------------ freezing values into terms
    def freeze_term(self, v, st):
        v = self.I.res(v, st)
        if isinstance(v, T):
            return v
        if isinstance(v, str):
            return tm.strc(v)
        if v is None:
            return tm.uf('None', [], 'U')
        if isinstance(v, Cx):
            return tm.uf('cx', [v.re, v.im], 'U')
        if isinstance(v, (ARef, Arr)):
            return self.arr_term(self.arr(v, st))
        if isinstance(v, (LRef, Rope)):
            r = st.heap[v.lid] if isinstance(v, LRef) else v
            if r.concrete():
                return tm.uf('tup', [self.freeze_term(x, st) for x in r.items()], 'U')
            return self.arr_term(self.rope_arr(r, st))
        if isinstance(v, Tup):
            return tm.uf('tup', [self.freeze_term(x, st) for x in v.items], 'U')
        if isinstance(v, (DRef, dict)):
            d = st.heap[v.did] if isinstance(v, DRef) else v
            return tm.uf('dict', [y for k in sorted(d, key=str) for y in (tm.strc(str(k)), self.freeze_term(d[k], st))], 'U')
        if isinstance(v, Opq):
            return v.term
        if isinstance(v, TrRef):
            return tm.uf('traceref', [C(v.sid), v.k], 'U')
        if isinstance(v, Opt):
            return tm.uf('opt', [v.isnone, self.freeze_term(v.val, st)], 'U')
        if isinstance(v, Lib):
            return tm.uf('lib', [tm.strc(v.name)], 'U')
        if isinstance(v, (Fn, Cls)):
            return tm.uf('fn', [tm.strc(v.name)], 'U')
        if isinstance(v, (ORef, FObj)):
            r = st.heap[v.oid] if isinstance(v, ORef) else v
            nm = r.cls if isinstance(r.cls, str) else r.cls.name
            return tm.uf('obj.' + nm, [y for k in sorted(r.fields) for y in (tm.strc(k), self.freeze_term(r.fields[k], st))], 'U')
        raise Unsupported('freeze ' + type(v).__name__)

    def arr_term(self, a):
        if a.ndim == 0:
            return self.freeze_term(a.at(), None)
        ks = [tm.fresh('z', 'I') for _ in a.shape]
        e = a.at(*ks)
        if isinstance(e, Cx):
            if e.im is R0:
                e = e.re
            else:
                return tm.uf('arrc%d' % a.ndim, list(a.shape) + [tm.lam(ks, e.re), tm.lam(ks, e.im)], 'U')
        if isinstance(e, str):
            e = tm.strc(e)
        if isinstance(e, T) and e.sort in 'RIB':
            e = tm.toreal(e)
        if not isinstance(e, T):
            raise Unsupported('array of objects')
        return tm.uf('arr%d' % a.ndim, list(a.shape) + [tm.lam(ks, e)], 'U')

    def pure_arr(self, name, args, shape, st, cxo=False):
        """uninterpreted array-valued function of the values of args"""
        ts = [self.freeze_term(a, st) for a in args]
        ts = [tm.toreal(t) if t.sort in 'IB' else t for t in ts]
        if cxo:
            return self.new(Arr(shape, lambda *i: Cx(tm.uf(name + '.re', ts + list(i), 'R'),
                                                     tm.uf(name + '.im', ts + list(i), 'R'))), st)
        return self.new(Arr(shape, lambda *i: tm.uf(name, ts + list(i), 'R')), st)

    def pure(self, name, args, st, sort='R'):
        ts = [self.freeze_term(a, st) for a in args]
        ts = [tm.toreal(t) if t.sort in 'IB' else t for t in ts]
        return tm.uf(name, ts, sort)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, st):
        from . import models
        name = f.name
        if name in self.extra:
            return self.extra[name](args, kw, st)
        self.used.add(name)
        return models.call(self, name, args, kw, st)

    def method(self, o, name, args, kw, st):
        from . import models
        return models.method(self, o, name, args, kw, st)

    def matmul(self, a, b, st):
        a, b = self.arr(a, st), self.arr(b, st)
        if a.ndim == 1 and b.ndim == 1:
            return self.asum(Arr(a.shape, lambda i: self.s_mul(a.at(i), b.at(i))), a.shape[0])
        if a.ndim == 2 and b.ndim == 2:
            def at(i, j):
                e = self.asum(Arr((a.shape[1],), lambda q: self.s_mul(a.at(i, q), b.at(q, j))), a.shape[1])
                if self.abbreviate:
                    e = Cx(tm.abbrev(e.re), tm.abbrev(e.im)) if isinstance(e, Cx) else tm.abbrev(e)
                return e
            return self.new(Arr((a.shape[0], b.shape[1]), at), st)
        if a.ndim == 2 and b.ndim == 1:
            return self.new(Arr((a.shape[0],), lambda i: self.asum(
                Arr((a.shape[1],), lambda q: self.s_mul(a.at(i, q), b.at(q))), a.shape[1])), st)
        raise Unsupported('matmul')

    def asum(self, a, n):
        """sum of a 1-d array"""
        if tm.isconst(n) and tm.cval(n) <= 8:
            acc = C(0)
            for i in range(int(tm.cval(n))):
                acc = self.s_add(acc, a.at(C(i)))
            return acc
        v = tm.fresh('q', 'I')
        e = a.at(v)
        if isinstance(e, Cx):
            return Cx(tm.mk_sum(Z, n, v, e.re), tm.mk_sum(Z, n, v, e.im))
        return tm.mk_sum(Z, n, v, self.num(e))
