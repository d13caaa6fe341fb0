"""Hash-consed canonical term language of the verifier.

Numeric terms (sorts R: real, I: integer) are always kept as canonical Laurent
polynomials over atoms with exact rational coefficients; booleans are canonical
comparisons / connectives; binders (lam) are hash-consed modulo alpha-renaming.
Two terms that are equal as polynomials over the same atoms are the same object.
"""
from fractions import Fraction
import itertools

_table = {}
_ids = itertools.count(1)
_fresh = itertools.count(1)


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'fv', 'ht')

    def __repr__(self):
        return show(self)


def _mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.sort = op, args, sort
    t.id = next(_ids)
    fv = frozenset()
    ht = 0
    if op == 'var':
        fv = frozenset([args[0]])
    elif op == 'bv':
        fv = frozenset([('bv', args[0])])
    elif op == 'poly':
        for mon, _ in args:
            for a, _e in mon:
                fv |= a.fv
                ht = max(ht, a.ht)
    elif op == 'lam':
        n, body = args
        lv = set(('bv', body.ht + 1 + i) for i in range(n))
        fv = frozenset(x for x in body.fv if x not in lv)
        ht = body.ht + n
    else:
        for a in args:
            if isinstance(a, T):
                fv |= a.fv
                ht = max(ht, a.ht)
    t.fv, t.ht = fv, ht
    _table[key] = t
    return t


# ---------------------------------------------------------------- numeric
def _poly(d, sort):
    """d: {monomial: coef}; monomial = tuple of (atom, exp) sorted by id."""
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return const(0, sort)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c, sort)
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].sort == sort:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    return _mk('poly', items, sort)


def const(c, sort=None):
    if isinstance(c, bool):
        return TRUE if c else FALSE
    if isinstance(c, float):
        c = Fraction(repr(c))
    c = Fraction(c)
    if sort is None:
        sort = 'I' if c.denominator == 1 else 'R'
    if sort == 'I' and c.denominator != 1:
        sort = 'R'
    return _mk('const', (c,), sort)


TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')


def isconst(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


def terms_of(t):
    if t.op == 'const':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def _js(*ts):
    return 'R' if any(t.sort == 'R' for t in ts) else 'I'


def add(*ts):
    d = {}
    for t in ts:
        for m, c in terms_of(t).items():
            d[m] = d.get(m, 0) + c
    return _poly(d, _js(*ts))


def scale(c, t):
    c = Fraction(c)
    s = t.sort if c.denominator == 1 else 'R'
    return _poly({m: c * v for m, v in terms_of(t).items()}, s)


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, neg(b))


SQRT_REWRITE = [False]


def _mulmon(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


def mul(*ts):
    s = _js(*ts)
    acc = {(): Fraction(1)}
    for t in ts:
        nd = {}
        tt = terms_of(t)
        for m1, c1 in acc.items():
            for m2, c2 in tt.items():
                m = _mulmon(m1, m2)
                nd[m] = nd.get(m, 0) + c1 * c2
        acc = nd
    for m in acc:
        for at, e in m:
            if e == 1 and at.op == 'uf' and at.args[0] == 'idiv' and len(m) > 1 and acc[m] != 0:
                b = at.args[2]
                bt = terms_of(b)
                if len(bt) != 1:
                    continue
                (bm, bc), = bt.items()
                d = dict(m)
                if bc != 1 or not bm or any(d.get(x, 0) < k or x is at for x, k in bm):
                    continue
                # b * (a div b)  ->  a - a mod b
                rest = dict(acc)
                c = rest.pop(m)
                del d[at]
                for x, k in bm:
                    d[x] -= k
                mm = tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda z: z[0].id))
                a = at.args[1]
                return add(_poly(rest, s), mul(_poly({mm: c}, s), sub(a, imod(a, b))))
    if s == 'R':
        for m in acc:
            for at, e in m:
                if e > 0 and at.op == 'uf' and at.args[0] == 'inv' and at.id not in _nodiv:
                    r = _reduce(acc, at)
                    if r is not None:
                        return r
    return _poly(acc, s)


_nodiv = set()


def _lexkey(m):
    return tuple((-a.id, e) for a, e in m)


def _reduce(acc, at):
    """replace  at * (Q*p + R)  by  Q + at*R  where at = 1/p"""
    pt = terms_of(at.args[1])
    lead = max(pt, key=_lexkey)
    if any(e < 0 for a, e in lead) or not lead:
        return None
    lc = pt[lead]
    todo = {}
    rest = {}
    for m, c in acc.items():
        d = dict(m)
        if d.get(at, 0) > 0:
            d[at] -= 1
            mm = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))
            todo[mm] = todo.get(mm, 0) + c
        else:
            rest[m] = c
    q = {}
    steps = 0
    changed = True
    while changed and steps < 60:
        changed = False
        for m in sorted(todo, key=_lexkey, reverse=True):
            c = todo[m]
            if c == 0:
                continue
            d = dict(m)
            if all(d.get(a, 0) >= e for a, e in lead):
                for a, e in lead:
                    d[a] -= e
                qm = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))
                # only when every term of p times the quotient monomial is present (exact cancellation)
                prods = [(_mulmon(qm, pm), c / lc * pc) for pm, pc in pt.items()]
                if not all(todo.get(x, 0) == y for x, y in prods):
                    continue
                for x, y in prods:
                    todo[x] = 0
                q[qm] = q.get(qm, 0) + c / lc
                steps += 1
                changed = True
                break
    if not q:
        return None
    t = _poly({m: c for m, c in todo.items() if c}, 'R')
    return add(_poly(rest, 'R'), mul(_poly(q, 'R')), mul(t, at))


def toreal(t):
    if t.sort == 'R':
        return t
    if t.sort == 'B':
        return ite(t, const(1, 'R'), const(0, 'R'))
    if t.op == 'const':
        return const(t.args[0], 'R')
    if t.op == 'poly':
        return _mk('poly', t.args, 'R')
    return _mk('poly', ((((t, 1),), Fraction(1)),), 'R')


def inv(t):
    tt = terms_of(t)
    if len(tt) == 0:
        return uf('inv0', [], 'R')
    if len(tt) == 1:
        (m, c), = tt.items()
        return _poly({tuple((a, -e) for a, e in m): 1 / c}, 'R')
    lead = t.args[0][1] if t.op == 'poly' else Fraction(1)
    n = scale(1 / lead, toreal(t))
    a = uf('inv', [n], 'R')
    return scale(1 / lead, a)


def div(a, b):
    if isconst(a) and cval(a) == 0:
        return const(0, 'R')
    return mul(toreal(a), inv(b))


def powi(t, n):
    if n < 0:
        return powi(inv(t), -n)
    if n == 0:
        return const(1, t.sort)
    r = t
    for _ in range(n - 1):
        r = mul(r, t)
    return r


def lead_coef(t):
    if t.op == 'poly':
        return t.args[0][1]
    if t.op == 'const':
        return t.args[0]
    return Fraction(1)


def _isqrt(c):
    import math
    n, d = c.numerator, c.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


def sqrt(t):
    t = toreal(t)
    if isconst(t) and cval(t) >= 0:
        r = _isqrt(cval(t))
        if r is not None:
            return const(r, 'R')
    return uf('sqrt', [t], 'R')


def absv(t):
    if isconst(t):
        return const(abs(cval(t)), t.sort)
    c = lead_coef(t)
    if t.op == 'poly' and len(t.args) == 1:
        n = scale(1 / c, t)
        if n.sort != t.sort and t.sort == 'I':
            n = _poly(terms_of(n), 'I')
        return scale(abs(c), uf('abs', [n], t.sort))
    if c < 0:
        t = neg(t)
    return uf('abs', [t], t.sort)


# ---------------------------------------------------------------- boolean
def _cmp(op, p):
    """p op 0"""
    if isconst(p):
        c = cval(p)
        return boolc({'lt': c < 0, 'le': c <= 0, 'eq': c == 0}[op])
    c = lead_coef(p)
    if p.sort == 'I':
        # keep integer coefficients, divide by gcd
        import math
        g = 0
        for _, v in terms_of(p).items():
            g = math.gcd(g, abs(v.numerator)) if v.denominator == 1 else 1
        if g > 1:
            p = _poly({m: v / g for m, v in terms_of(p).items()}, 'I')
        if op == 'lt':          # integers: p < 0  <=>  p + 1 <= 0
            op, p = 'le', add(p, const(1))
            if isconst(p):
                return boolc(cval(p) <= 0)
        if op == 'eq' and lead_coef(p) < 0:
            p = neg(p)
        return _mk(op, (p,), 'B')
    if op == 'eq':
        p = scale(1 / c, p)
    else:
        p = scale(1 / abs(c), p)
    return _mk(op, (p,), 'B')


def boolc(b):
    return TRUE if b else FALSE


def _num(t):
    return t.sort in 'RI'


def lt(a, b):
    return _cmp('lt', sub(a, b))


def le(a, b):
    return _cmp('le', sub(a, b))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == 'B' and b.sort == 'B':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return _mk('iff', tuple(sorted((a, b), key=lambda x: x.id)), 'B')
    if a.sort == 'B':
        a = toreal(a)
    if b.sort == 'B':
        b = toreal(b)
    if _num(a) and _num(b):
        return _cmp('eq', sub(a, b))
    if a.sort != b.sort:
        if 'U' not in (a.sort, b.sort):
            return FALSE
    if a.op == 'str' and b.op == 'str':
        return FALSE
    return _mk('eqo', tuple(sorted((a, b), key=lambda x: x.id)), 'B')


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'lt':
        return _cmp('le', neg(a.args[0]))
    if a.op == 'le':
        return _cmp('lt', neg(a.args[0]))
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    return _mk('not', (a,), 'B')


def _acc(op, unit, zero, ts):
    out = {}
    for t in ts:
        if t is unit:
            continue
        if t is zero:
            return zero
        sub_ = t.args if t.op == op else (t,)
        for s in sub_:
            out[s.id] = s
    for s in list(out.values()):
        if not_(s).id in out:
            return zero
    v = sorted(out.values(), key=lambda x: x.id)
    if not v:
        return unit
    if len(v) == 1:
        return v[0]
    return _mk(op, tuple(v), 'B')


def and_(*ts):
    return _acc('and', TRUE, FALSE, ts)


def or_(*ts):
    return _acc('or', FALSE, TRUE, ts)


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B' and b.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if _num(a) and _num(b) and a.sort != b.sort:
        a, b = toreal(a), toreal(b)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    # prune nested
    if a.op == 'ite' and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == 'ite' and b.args[0] is c:
        return ite(c, a, b.args[2])
    s = a.sort if a.sort == b.sort else 'U'
    return _mk('ite', (c, a, b), s)


# ---------------------------------------------------------------- others
def var(name, sort):
    return _mk('var', (name,), sort)


def fresh(prefix, sort):
    return var('%s!%d' % (prefix, next(_fresh)), sort)


def uf(name, args, sort):
    return _mk('uf', (name,) + tuple(args), sort)


def strc(s):
    return _mk('str', (s,), 'S')


def bv(level, sort='I'):
    return _mk('bv', (level,), sort)


def lam(vars_, body):
    """vars_: list of var terms of sort I."""
    n = len(vars_)
    # alpha-canonical: levels above every level used by inner binders
    h = body.ht
    m = {v.args[0]: bv(h + 1 + i, v.sort) for i, v in enumerate(vars_)}
    b = subst(body, m)
    if b.ht != h:        # cannot happen (vars -> bv adds no binder)
        raise AssertionError('height')
    return _mk('lam', (n, b), 'L')


def open_lam(l):
    n, b = l.args
    vs = [fresh('b', 'I') for _ in range(n)]
    return vs, app(l, vs)


def app(l, args):
    n, b = l.args
    assert len(args) == n
    h = b.ht
    return subst(b, {('bv', h + 1 + i): a for i, a in enumerate(args)})


def subst(t, m, memo=None):
    """m: {varname or ('bv',level): term}"""
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = m.keys()

    def go(t):
        if t.fv.isdisjoint(keys):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        r = rebuild(t, go)
        memo[t.id] = r
        return r

    def rebuild(t, go):
        op = t.op
        if op == 'var':
            return m.get(t.args[0], t)
        if op == 'bv':
            return m.get(('bv', t.args[0]), t)
        if op == 'lam':
            vs, body = open_lam(t)
            return lam(vs, subst(body, m))
        if op == 'uf' and t.args[0] == 'rd' and t.args[1].args[0] in m:
            return m[t.args[1].args[0]](*[go(a) for a in t.args[2:]])
        return map_args(t, go)
    return go(t)


def map_args(t, go):
    op = t.op
    if op == 'poly':
        acc = []
        for mon, c in t.args:
            fs = [const(c)]
            for a, e in mon:
                fs.append(powi(go(a), e))
            acc.append(mul(*fs))
        r = add(*acc)
        if t.sort == 'R':
            r = toreal(r)
        return r
    if op in ('const', 'str', 'true', 'false', 'var', 'bv'):
        return t
    if op == 'uf':
        return reuf(t.args[0], [go(a) for a in t.args[1:]], t.sort)
    a = [go(x) for x in t.args]
    if op == 'ite':
        return ite(*a)
    if op == 'and':
        return and_(*a)
    if op == 'or':
        return or_(*a)
    if op == 'not':
        return not_(a[0])
    if op in ('lt', 'le', 'eq'):
        return _cmp(op, a[0])
    if op in ('iff', 'eqo'):
        return eq(a[0], a[1])
    raise AssertionError(op)


def reuf(name, args, sort):
    """Re-apply a function symbol through its smart constructor."""
    f = SMART.get(name)
    if f is not None:
        return f(*args)
    return uf(name, args, sort)


def let(t):
    """a conditional kept as one atom (an argument that may be omitted)"""
    return uf('let', [t], t.sort) if t.op == 'ite' else t


def abbrev(t):
    """t kept as one atom: keeps products of matrix products from being multiplied out"""
    if t.op in ('var', 'const') or t.op == 'uf' and t.args[0] != 'let':
        return t
    return uf('abbrev', [t], t.sort)


SMART = {'let': let, 'abbrev': abbrev}
SMART['sqrt'] = sqrt
SMART['abs'] = absv
SMART['inv'] = inv


def mk_sum(lo, hi, v, body):
    """Sum over v in [lo, hi) of body; linear normal form."""
    body_s = body.sort
    out = []
    n = sub(hi, lo)
    for mon, c in terms_of(body).items():
        dep = tuple((a, e) for a, e in mon if v.args[0] in a.fv)
        ind = tuple((a, e) for a, e in mon if v.args[0] not in a.fv)
        fac = _poly({ind: c}, 'R' if body_s == 'R' else body_s)
        if not dep:
            out.append(mul(fac, n))
        else:
            l = lam([v], _poly({dep: Fraction(1)}, body_s))
            out.append(mul(fac, uf('Sum', [lo, hi, l], body_s)))
    if not out:
        return const(0, body_s)
    r = add(*out)
    return toreal(r) if body_s == 'R' else r


def _smart_sum(lo, hi, l):
    if isconst(lo) and isconst(hi) and cval(hi) - cval(lo) <= 8:
        acc = const(0)
        for i in range(int(cval(lo)), int(cval(hi))):
            acc = add(acc, app(l, [const(i)]))
        return acc
    vs, b = open_lam(l)
    return mk_sum(lo, hi, vs[0], b)


SMART['Sum'] = _smart_sum


def idiv(a, b):
    """floor division of integers"""
    if isconst(a) and isconst(b) and cval(b) != 0:
        return const(cval(a) // cval(b))
    if isconst(b) and cval(b) == 1:
        return a
    # (q*b + r) div b  ->  q + r div b
    q, r = _split(a, b)
    if not (isconst(q) and cval(q) == 0):
        return add(q, idiv(r, b))
    if isconst(a) and cval(a) == 0:
        return const(0)
    return uf('idiv', [a, b], 'I')


def imod(a, b):
    if isconst(a) and isconst(b) and cval(b) != 0:
        return const(cval(a) % cval(b))
    if isconst(b) and cval(b) == 1:
        return const(0)
    q, r = _split(a, b)
    if not (isconst(q) and cval(q) == 0):
        return imod(r, b)
    if isconst(a) and cval(a) == 0:
        return const(0)
    return uf('imod', [a, b], 'I')


def _split(a, b):
    """a = q*b + r with q the (monomial-wise) exact quotient part"""
    bt = terms_of(b)
    if len(bt) != 1 or (isconst(b) and cval(b) == 0):
        return const(0), a
    (bm, bc), = bt.items()
    q, r = {}, {}
    if not bm and bc > 0 and bc.denominator == 1:
        # division by a number: remainder coefficients in [0, b)
        for m, c in terms_of(a).items():
            if c.denominator != 1 or any(e < 0 for _, e in m):
                r[m] = c
                continue
            f = c.numerator // bc.numerator
            if f:
                q[m] = Fraction(f)
            if c - f * bc:
                r[m] = c - f * bc
        return _poly(q, 'I'), _poly(r, 'I')
    for m, c in terms_of(a).items():
        d = dict(m)
        ok = True
        for at, e in bm:
            if d.get(at, 0) < e:
                ok = False
                break
            d[at] -= e
        cc = c / bc
        if ok and cc.denominator == 1 and all(e >= 0 for e in d.values()):
            mm = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda z: z[0].id))
            q[mm] = q.get(mm, 0) + cc
        else:
            r[m] = c
    return _poly(q, 'I'), _poly(r, 'I')


SMART['idiv'] = idiv
SMART['imod'] = imod


def floor_(t):
    if t.sort == 'I':
        return t
    if isconst(t):
        return const(cval(t).__floor__())
    return uf('floor', [t], 'I')


def trunc(t):
    if t.sort == 'I':
        return t
    if isconst(t):
        return const(int(cval(t)))
    return uf('trunc', [t], 'I')


def round_(t):
    if t.sort == 'I':
        return t
    if isconst(t):
        return const(round(cval(t)))
    return uf('round', [t], 'I')


SMART['floor'] = floor_
SMART['trunc'] = trunc
SMART['round'] = round_


def cosv(t):
    t = toreal(t)
    if isconst(t) and cval(t) == 0:
        return const(1, 'R')
    if lead_coef(t) < 0:
        t = neg(t)
    return uf('cos', [t], 'R')


def sinv(t):
    t = toreal(t)
    if isconst(t) and cval(t) == 0:
        return const(0, 'R')
    if lead_coef(t) < 0:
        return neg(uf('sin', [neg(t)], 'R'))
    return uf('sin', [t], 'R')


def expv(t):
    t = toreal(t)
    if isconst(t) and cval(t) == 0:
        return const(1, 'R')
    return uf('exp', [t], 'R')


SMART['cos'] = cosv
SMART['sin'] = sinv
SMART['exp'] = expv


def binder(name, lo, hi, v, body, sort):
    return uf(name, [lo, hi, lam([v], body)], sort)


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 40:
        return '...'
    s = lambda x: show(x, depth + 1) if isinstance(x, T) else str(x)
    op = t.op
    if op == 'var':
        return t.args[0]
    if op == 'bv':
        return '#%d' % t.args[0]
    if op == 'const':
        return str(t.args[0])
    if op == 'str':
        return repr(t.args[0])
    if op in ('true', 'false'):
        return op
    if op == 'poly':
        out = []
        for mon, c in t.args:
            fs = []
            if c != 1 or not mon:
                fs.append(str(c) if c >= 0 and c.denominator == 1 else '(%s)' % c)
            for a, e in mon:
                fs.append(s(a) + ('' if e == 1 else '^%d' % e))
            out.append('*'.join(fs))
        return '(' + ' + '.join(out) + ')'
    if op == 'uf':
        return '%s(%s)' % (t.args[0], ', '.join(s(a) for a in t.args[1:]))
    if op == 'lam':
        lv = ','.join('#%d' % (t.args[1].ht + 1 + i) for i in range(t.args[0]))
        return '(\\%s. %s)' % (lv, s(t.args[1]))
    if op in ('lt', 'le', 'eq'):
        return '%s %s 0' % (s(t.args[0]), {'lt': '<', 'le': '<=', 'eq': '=='}[op])
    return '%s(%s)' % (op, ', '.join(s(a) for a in t.args))


def atoms(t, acc=None, under_lam=False):
    """all subterms (not below binders unless asked)"""
    if acc is None:
        acc = {}
    if t.id in acc:
        return acc
    acc[t.id] = t
    if t.op == 'poly':
        for mon, _ in t.args:
            for a, _e in mon:
                atoms(a, acc, under_lam)
    elif t.op == 'lam':
        if under_lam:
            atoms(t.args[1], acc, under_lam)
    else:
        for a in t.args:
            if isinstance(a, T):
                atoms(a, acc, under_lam)
    return acc
