"""Symbolic values of the executor."""
from . import terms as tm
from .terms import T


class Unsupported(Exception):
    pass


class Cx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = tm.toreal(re), tm.toreal(im)

    def __repr__(self):
        return 'Cx(%s, %s)' % (self.re, self.im)


class Poison:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Poison(%s)' % self.why


class Tup:
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return 'Tup%r' % (tuple(self.items),)


class Opt:
    """None when `isnone`, else val"""

    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val

    def __repr__(self):
        return 'Opt(%s, %s)' % (self.isnone, self.val)


class Arr:
    """immutable array value"""

    def __init__(self, shape, get, frozen=True):
        self.shape = tuple(shape)
        self._get = get
        self._memo = {}

    def at(self, *idx):
        k = tuple(i.id for i in idx)
        r = self._memo.get(k)
        if r is None:
            r = self._get(*idx)
            self._memo[k] = r
        return r

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        vs = [tm.var('i%d' % j, 'I') for j in range(self.ndim)]
        try:
            return 'Arr(%s)[%s]' % (', '.join(map(str, self.shape)), self.at(*vs))
        except Unsupported:
            return 'Arr(%s)' % (', '.join(map(str, self.shape)))


class ARef:
    """reference to (a view of) a mutable buffer on the heap.
    dims: None (whole buffer) or, per base dimension, ('int', t) or ('sl', lo, step, viewdim)"""

    def __init__(self, bid, shape, dims=None):
        self.bid, self.shape, self.dims = bid, tuple(shape), dims

    @property
    def ndim(self):
        return len(self.shape)

    def base(self, idx):
        if self.dims is None:
            return tuple(idx)
        out = []
        for d in self.dims:
            if d[0] == 'int':
                out.append(d[1])
            else:
                out.append(tm.add(d[1], tm.mul(d[2], idx[d[3]])))
        return tuple(out)


class Choice:
    """a if c else b, where the two cannot be merged into one value"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Buf:
    """heap cell of an array: immutable content; ro = may alias (writes refused)"""

    def __init__(self, arr, ro=False):
        self.arr, self.ro = arr, ro


class LRef:
    def __init__(self, lid):
        self.lid = lid


class DRef:
    def __init__(self, did):
        self.did = did


class ORef:
    def __init__(self, oid):
        self.oid = oid


class StRef:
    """a stream: view (n, imap) onto the traces of a stream record"""

    def __init__(self, sid, n, imap=None):
        self.sid, self.n, self.imap = sid, n, imap

    def idx(self, k):
        return self.imap(k) if self.imap else k


class TrRef:
    def __init__(self, sid, k):
        self.sid, self.k = sid, k


class StatsRef:
    def __init__(self, sid, k):
        self.sid, self.k = sid, k


class Rope:
    """immutable list content: segments
       ('item', v) | ('rep', n, fn(k)->Rope) | ('pre', id) | ('sym', n, fn(k)->v)
       | ('cond', c, Rope)
    """

    def __init__(self, segs):
        self.segs = list(segs)

    def concrete(self):
        return all(s[0] == 'item' for s in self.segs)

    def items(self):
        return [s[1] for s in self.segs]

    def __repr__(self):
        return 'Rope%r' % (self.segs,)


class SRec:
    """stream record (immutable): number of traces, samples data(k,i), npts(k), header fields"""

    def __init__(self, name, n, npts, fields, ro=False):
        # fields: {name: Arr}; 'data' is 2-d (trace, sample), header fields are 1-d
        self.name, self.n, self.npts, self.fields, self.ro = name, n, npts, fields, ro
        self.closed = False     # all header entries are listed in fields

    def with_(self, **kw):
        r = SRec(self.name, self.n, self.npts, self.fields, self.ro)
        r.closed = self.closed
        for k, v in kw.items():
            setattr(r, k, v)
        return r


class ORec:
    """object record (immutable)"""

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class FObj:
    """immutable snapshot of an object (element of a summarised list)"""

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class Fn:
    def __init__(self, node, module, env=None, selfv=None, cls=None, name=None):
        self.node, self.module, self.env, self.selfv, self.cls = node, module, env, selfv, cls
        self.name = name or getattr(node, 'name', '<lambda>')


class Cls:
    def __init__(self, node, module):
        self.node, self.module = node, module
        self.name = node.name


class Lib:
    """library function or module, by dotted name"""

    def __init__(self, name, selfv=None):
        self.name, self.selfv = name, selfv

    def __repr__(self):
        return 'Lib(%s)' % self.name


class Opq:
    """opaque library object denoted by a term of sort U"""

    def __init__(self, term, kind='obj'):
        self.term, self.kind = term, kind

    def __repr__(self):
        return 'Opq(%s)' % self.term


class Sl:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class WhereIdx:
    """np.where(cond)[0]"""

    def __init__(self, n, cond):
        self.n, self.cond = n, cond


def isnum(v):
    return isinstance(v, T) and v.sort in 'RIB'


def subst_val(v, m):
    """substitute variables in a value (closures wrapped lazily)"""
    if not m:
        return v
    if isinstance(v, T):
        return tm.subst(v, m)
    if v is None or isinstance(v, (Fn, Cls, Lib, Poison)):
        return v
    if isinstance(v, Cx):
        return Cx(tm.subst(v.re, m), tm.subst(v.im, m))
    if isinstance(v, Tup):
        return Tup([subst_val(x, m) for x in v.items])
    if isinstance(v, Opt):
        return Opt(tm.subst(v.isnone, m), subst_val(v.val, m))
    if isinstance(v, Arr):
        def get(*idx, v=v):
            ks = [tm.fresh('s', 'I') for _ in idx]
            r = subst_val(v.at(*ks), m)
            return subst_val(r, {k.args[0]: i for k, i in zip(ks, idx)})
        return Arr([tm.subst(s, m) for s in v.shape], get)
    if isinstance(v, Rope):
        out = []
        for s in v.segs:
            if s[0] == 'item':
                out.append(('item', subst_val(s[1], m)))
            elif s[0] in ('rep', 'sym'):
                def fn(k, f=s[2]):
                    kk = tm.fresh('s', 'I')
                    return subst_val(subst_val(f(kk), m), {kk.args[0]: k})
                out.append((s[0], tm.subst(s[1], m), fn))
            elif s[0] == 'cond':
                out.append(('cond', tm.subst(s[1], m), subst_val(s[2], m)))
            elif s[0] == 'pre' and s[1] in m:
                out += m[s[1]].segs
            else:
                out.append(s)
        return Rope(out)
    if isinstance(v, dict):
        return {k: subst_val(x, m) for k, x in v.items()}
    if isinstance(v, Opq):
        return Opq(tm.subst(v.term, m), v.kind)
    if isinstance(v, TrRef):
        return TrRef(v.sid, tm.subst(v.k, m))
    if isinstance(v, StatsRef):
        return StatsRef(v.sid, tm.subst(v.k, m))
    if isinstance(v, StRef):
        if v.imap is None:
            return StRef(v.sid, tm.subst(v.n, m))
        return StRef(v.sid, tm.subst(v.n, m), lambda k, f=v.imap: tm.subst(f(tm.var('!h', 'I')), {**m, '!h': k}))
    if isinstance(v, WhereIdx):
        def c(k, f=v.cond):
            kk = tm.fresh('s', 'I')
            return tm.subst(tm.subst(f(kk), m), {kk.args[0]: k})
        return WhereIdx(tm.subst(v.n, m), c)
    if isinstance(v, ARef):
        d = None
        if v.dims is not None:
            d = [('int', tm.subst(x[1], m)) if x[0] == 'int' else
                 ('sl', tm.subst(x[1], m), tm.subst(x[2], m), x[3]) for x in v.dims]
        return ARef(v.bid, [tm.subst(s, m) for s in v.shape], d)
    if isinstance(v, Choice):
        c = tm.subst(v.c, m)
        if c is tm.TRUE:
            return subst_val(v.a, m)
        if c is tm.FALSE:
            return subst_val(v.b, m)
        return Choice(c, subst_val(v.a, m), subst_val(v.b, m))
    if isinstance(v, str):
        return v
    if isinstance(v, FObj):
        return FObj(v.cls, {k: subst_val(x, m) for k, x in v.fields.items()})
    if isinstance(v, (LRef, DRef, ORef)):
        return v
    raise Unsupported('subst_val %s' % type(v).__name__)


def has_vars(v, names, probe=True):
    """does the value mention any of the variable names?"""
    if isinstance(v, T):
        return not v.fv.isdisjoint(names)
    if isinstance(v, Cx):
        return has_vars(v.re, names) or has_vars(v.im, names)
    if isinstance(v, Tup):
        return any(has_vars(x, names) for x in v.items)
    if isinstance(v, Opt):
        return has_vars(v.isnone, names) or has_vars(v.val, names)
    if isinstance(v, Arr):
        if any(has_vars(s, names) for s in v.shape):
            return True
        ks = [tm.fresh('p', 'I') for _ in v.shape]
        return has_vars(v.at(*ks), names)
    if isinstance(v, Rope):
        for s in v.segs:
            if s[0] == 'item' and has_vars(s[1], names):
                return True
            if s[0] in ('rep', 'sym') and (has_vars(s[1], names) or has_vars(s[2](tm.fresh('p', 'I')), names)):
                return True
            if s[0] == 'cond' and (has_vars(s[1], names) or has_vars(s[2], names)):
                return True
            if s[0] == 'pre' and s[1] in names:
                return True
        return False
    if isinstance(v, dict):
        return any(has_vars(x, names) for x in v.values())
    if isinstance(v, Opq):
        return has_vars(v.term, names)
    if isinstance(v, (TrRef, StatsRef)):
        return has_vars(v.k, names)
    if isinstance(v, ARef):
        if any(has_vars(s, names) for s in v.shape):
            return True
        return v.dims is not None and any(has_vars(t, names) for d in v.dims for t in d if isinstance(t, T))
    if isinstance(v, Choice):
        return has_vars(v.c, names) or has_vars(v.a, names) or has_vars(v.b, names)
    if isinstance(v, FObj):
        return any(has_vars(x, names) for x in v.fields.values())
    if isinstance(v, StRef):
        return has_vars(v.n, names) or (v.imap is not None and has_vars(v.imap(tm.fresh('p', 'I')), names))
    if isinstance(v, WhereIdx):
        return has_vars(v.n, names) or has_vars(v.cond(tm.fresh('p', 'I')), names)
    return False
