"""Discharging obligations: canonical-form identity, binder congruence, z3 / cvc5."""
import time
import z3
from . import terms as tm
from .terms import T

STATS = {'canon': 0, 'cong': 0, 'z3': 0, 'z3_time': 0.0, 'z3_calls': 0, 'cvc5': 0, 'cvc5_time': 0.0}
_U = z3.DeclareSort('Obj')
_S = z3.DeclareSort('Str')
TIMEOUT_MS = [8000]
DEADLINE = [None]
CROSS = [False]          # thorough tier: also ask cvc5


class Unknown(Exception):
    pass


def zsort(s):
    return {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort(), 'S': _S, 'U': _U}[s]


class Enc:
    def __init__(self, alias):
        self.memo = {}
        self.alias = alias      # id -> representative id (binder nodes)
        self.side = []
        self.decls = {}
        self.strs = {}
        self.busy = set()

    def num(self, t, want):
        e = self.enc(t)
        if t.sort == 'B':
            e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
        if want == 'R' and e.sort() == z3.IntSort():
            e = z3.ToReal(e)
        return e

    def enc(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._enc(t)
            self.memo[t.id] = r
        return r

    def func(self, name, sorts, res):
        k = (name, tuple(sorts), res)
        f = self.decls.get(k)
        if f is None:
            f = z3.Function('%s/%d/%s' % (name, len(sorts), ''.join(sorts) + res),
                            *[zsort(s) for s in sorts], zsort(res))
            self.decls[k] = f
        return f

    def _enc(self, t):
        op = t.op
        if op == 'const':
            c = t.args[0]
            if t.sort == 'I':
                return z3.IntVal(c.numerator)
            return z3.RealVal('%d/%d' % (c.numerator, c.denominator))
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'var':
            return z3.Const(t.args[0], zsort(t.sort))
        if op == 'bv':
            return z3.Const('#%d' % t.args[0], zsort(t.sort))
        if op == 'str':
            c = z3.Const('str:%s' % t.args[0], _S)
            if t.args[0] not in self.strs:
                for o in self.strs.values():
                    self.side.append(o != c)
                self.strs[t.args[0]] = c
            return c
        if op == 'poly':
            acc = []
            for mon, c in t.args:
                fs = []
                for a, e in mon:
                    if e < 0:
                        x = self.recip(a)
                        e = -e
                        s = 'R'
                    else:
                        x = self.num(a, t.sort)
                    fs += [x] * e
                if t.sort == 'I' and c.denominator == 1:
                    cz = z3.IntVal(c.numerator)
                else:
                    cz = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
                if c != 1 or not fs:
                    fs = [cz] + fs
                r = fs[0]
                for f in fs[1:]:
                    r = r * f
                acc.append(r)
            return z3.Sum(acc) if len(acc) > 1 else acc[0]
        if op == 'lt':
            return self.enc(t.args[0]) < 0
        if op == 'le':
            return self.enc(t.args[0]) <= 0
        if op == 'eq':
            return self.enc(t.args[0]) == 0
        if op == 'iff':
            return self.enc(t.args[0]) == self.enc(t.args[1])
        if op == 'eqo':
            a, b = t.args
            x, y = self.enc(a), self.enc(b)
            if x.sort() != y.sort():
                return z3.Bool('eqo!%d' % t.id)
            return x == y
        if op == 'not':
            return z3.Not(self.enc(t.args[0]))
        if op == 'and':
            return z3.And(*[self.enc(a) for a in t.args])
        if op == 'or':
            return z3.Or(*[self.enc(a) for a in t.args])
        if op == 'ite':
            c, a, b = t.args
            x, y = self.enc(a), self.enc(b)
            if t.sort == 'R':
                x, y = self.num(a, 'R'), self.num(b, 'R')
            if x.sort() != y.sort():
                return z3.Const('ite!%d' % t.id, zsort(t.sort))
            return z3.If(self.enc(c), x, y)
        if op == 'uf':
            return self._uf(t)
        raise Unknown('cannot encode ' + op)

    def recip(self, a):
        key = ('recip', a.id)
        if key in self.memo:
            return self.memo[key]
        x = self.num(a, 'R')
        r = z3.Real('recip!%d' % a.id)
        self.memo[key] = r
        self.side.append(z3.Implies(x != 0, x * r == 1))
        return r

    def _uf(self, t):
        name = t.args[0]
        args = t.args[1:]
        if any(a.sort == 'L' for a in args):
            rep = self.alias.get(t.id, t.id)
            r = z3.Const('%s!%d' % (name, rep), zsort(t.sort))
            if name in ('ArgMin', 'ArgMax') and len(args) == 3:
                lo, hi = self.enc(args[0]), self.enc(args[1])
                self.side.append(z3.Implies(lo < hi, z3.And(lo <= r, r < hi)))
            return r
        if name in ('let', 'abbrev'):
            return self.enc(args[0])
        if name == 'abs':
            x = self.enc(args[0])
            return z3.If(x >= 0, x, -x)
        if name == 'inv':
            return self.recip(args[0])
        if name == 'sqrt':
            x = self.num(args[0], 'R')
            f = self.func('sqrt', ['R'], 'R')
            r = f(x)
            self.side.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
            return r
        if name in ('idiv', 'imod'):
            a, b = self.enc(args[0]), self.enc(args[1])
            if tm.isconst(args[1]) and tm.cval(args[1]) > 0:
                return a / b if name == 'idiv' else a % b
            q = self.func('idiv', ['I', 'I'], 'I')(a, b)
            m = self.func('imod', ['I', 'I'], 'I')(a, b)
            k = ('dm', args[0].id, args[1].id)
            if k not in self.memo:
                self.memo[k] = True
                self.side.append(z3.Implies(b > 0, z3.And(a == b * q + m, m >= 0, m < b)))
                self.side.append(z3.Implies(z3.And(b > 0, a >= 0), q >= 0))
            return q if name == 'idiv' else m
        if name in ('floor', 'trunc', 'round'):
            x = self.num(args[0], 'R')
            r = self.func(name, ['R'], 'I')(x)
            k = (name, t.id)
            if k not in self.memo:
                self.memo[k] = True
                rr = z3.ToReal(r)
                if name == 'floor':
                    self.side.append(z3.And(rr <= x, x < rr + 1))
                elif name == 'trunc':
                    self.side.append(z3.If(x >= 0, z3.And(rr <= x, x < rr + 1),
                                           z3.And(rr >= x, x > rr - 1)))
                else:
                    self.side.append(z3.And(rr - x <= z3.Q(1, 2), x - rr <= z3.Q(1, 2)))
            return r
        if name == 'exp':
            x = self.num(args[0], 'R')
            r = self.func('exp', ['R'], 'R')(x)
            self.side.append(r > 0)
            return r
        xs, ss = [], []
        for a in args:
            e = self.enc(a)
            ss.append(a.sort)
            if a.sort == 'R':
                e = self.num(a, 'R')
            xs.append(e)
        if not xs:
            return z3.Const(name, zsort(t.sort))
        return self.func(name, ss, t.sort)(*xs)


def binder_nodes(t):
    """topmost uf nodes that have a lam argument directly"""
    out = {}
    seen = set()

    def go(t):
        if t.id in seen:
            return
        seen.add(t.id)
        if t.op == 'uf' and any(isinstance(a, T) and a.sort == 'L' for a in t.args[1:]):
            out[t.id] = t
            for a in t.args[1:]:
                if a.sort != 'L':
                    go(a)
            return
        if t.op == 'poly':
            for mon, _ in t.args:
                for a, _e in mon:
                    go(a)
            return
        for a in t.args:
            if isinstance(a, T):
                go(a)
    go(t)
    return out


_eqcache = {}


def binder_eq(a, b, hyps, depth):
    """two binder applications of the same symbol: prove arguments equal"""
    key = (min(a.id, b.id), max(a.id, b.id), tuple(sorted(h.id for h in hyps)))
    if key in _eqcache:
        return _eqcache[key]
    _eqcache[key] = False
    res = True
    xs, ys = a.args[1:], b.args[1:]
    if len(xs) != len(ys):
        res = False
    else:
        plain = [(x, y) for x, y in zip(xs, ys) if x.sort != 'L']
        for x, y in plain:
            if y.sort == 'L':
                res = False
            elif x is not y and prove(hyps, tm.eq(x, y), depth + 1)[0] != 'proved':
                res = False
            if not res:
                break
        if res:
            rng = [x for x, y in plain if x.sort in 'I']
            for x, y in zip(xs, ys):
                if x.sort == 'L' and x is not y:
                    if y.sort != 'L' or x.args[0] != y.args[0]:
                        res = False
                        break
                    vs = [tm.fresh('i', 'I') for _ in range(x.args[0])]
                    h2 = list(hyps)
                    nm = a.args[0]
                    if nm in BINDER_LOHI and len(vs) == 1:
                        h2 += [tm.le(rng[0], vs[0]), tm.lt(vs[0], rng[1])]
                    elif nm.startswith('arr') and len(rng) == len(vs):
                        for v, r in zip(vs, rng):
                            h2 += [tm.le(tm.const(0), v), tm.lt(v, r)]
                    if prove(h2, tm.eq(tm.app(x, vs), tm.app(y, vs)), depth + 1)[0] != 'proved':
                        res = False
                        break
    _eqcache[key] = res
    return res


BINDER_LOHI = {'Sum', 'ArgMax', 'ArgMin', 'Max', 'Min', 'Nth', 'Count', 'AnyB', 'MatProd'}


CONG = {'cos', 'sin', 'exp', 'peak'}


def cong_nodes(t):
    """applications of elementary functions outside binders"""
    out, seen = {}, set()

    def go(t):
        if t.id in seen:
            return
        seen.add(t.id)
        if t.op == 'poly':
            for mon, _ in t.args:
                for a, _e in mon:
                    go(a)
            return
        if t.op == 'lam':
            return
        for a in t.args:
            if isinstance(a, T):
                go(a)
        if t.op == 'uf' and t.args[0] in CONG and not any(isinstance(v, tuple) for v in t.fv):
            out[t.id] = t
    go(t)
    return out


def unify(goal, hyps, depth):
    """rewrite the goal so that equal applications become the same term (innermost first)"""
    from .loops import replace
    for _ in range(6):
        nodes = {}
        nodes.update(binder_nodes(goal))
        nodes.update(cong_nodes(goal))
        groups = {}
        for n in nodes.values():
            groups.setdefault((n.args[0], len(n.args), n.sort), []).append(n)
        changed = False
        for key, g in groups.items():
            reps = []
            g = sorted(g, key=lambda x: x.id)
            if key[0] in CONG and len(g) > 12:
                continue
            for n in g:
                for r in reps:
                    if depth < 6 and binder_eq(r, n, hyps, depth):
                        g2 = replace(goal, n, r)
                        if g2 is not goal:
                            goal = g2
                            changed = True
                        break
                else:
                    reps.append(n)
            if goal is tm.TRUE:
                return goal
        if not changed:
            break
    return goal


def aliases(ts, hyps, depth):
    nodes = {}
    for t in ts:
        nodes.update(binder_nodes(t))
    groups = {}
    for n in nodes.values():
        groups.setdefault((n.args[0], len(n.args), n.sort), []).append(n)
    alias = {}
    for g in groups.values():
        reps = []
        for n in sorted(g, key=lambda x: x.id):
            for r in reps:
                if depth < 6 and binder_eq(r, n, hyps, depth):
                    alias[n.id] = r.id
                    break
            else:
                reps.append(n)
    return alias


_pcache = {}
MODEL = [None]


def prove(hyps, goal, depth=0, timeout=None):
    """-> ('proved', backend) | ('refuted', model-string) | ('unknown', reason)"""
    if goal is tm.TRUE:
        if depth == 0:
            STATS['canon'] += 1
        return ('proved', 'canonical form')
    hyps = [h for h in hyps if h is not tm.TRUE]
    if any(h is tm.FALSE for h in hyps):
        return ('proved', 'canonical form')
    if goal in hyps:
        return ('proved', 'canonical form')
    key = (tuple(sorted(h.id for h in hyps)), goal.id)
    if key in _pcache:
        return _pcache[key]
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        return ('unknown', 'time budget exhausted')
    if goal.op == 'and':
        r = ('proved', 'z3')
        for g in goal.args:
            r = prove(hyps, g, depth, timeout)
            if r[0] != 'proved':
                break
        _pcache[key] = r
        return r
    try:
        g2 = unify(goal, hyps, depth)
        if g2 is tm.TRUE:
            _pcache[key] = ('proved', 'congruence')
            if depth == 0:
                STATS['cong'] += 1
            return _pcache[key]
        goal = g2
        al = aliases([goal] + hyps, hyps, depth)
        s = z3.Solver()
        s.set('timeout', timeout or TIMEOUT_MS[0])
        enc = Enc(al)
        hs = [enc.enc(h) for h in hyps]
        g = enc.enc(goal)
        for h in hs:
            s.add(h)
        for h in enc.side:
            s.add(h)
        s.add(z3.Not(g))
        t0 = time.time()
        r = s.check()
        STATS['z3_time'] += time.time() - t0
        STATS['z3_calls'] += 1
    except (Unknown, z3.Z3Exception) as e:
        res = ('unknown', str(e)[:200])
        _pcache[key] = res
        return res
    if r == z3.unsat:
        res = ('proved', 'z3')
        STATS['z3'] += 1
        if CROSS[0] and depth == 0:
            cross(s)
    elif r == z3.sat:
        res = ('refuted', str(s.model())[:3000] if depth == 0 else '')
    else:
        res = ('unknown', s.reason_unknown())
    _pcache[key] = res
    return res


CROSSLOG = []


def cross(s):
    """ask cvc5 about the same query (thorough tier)"""
    import cvc5
    t0 = time.time()
    try:
        tmn = cvc5.TermManager()
        sl = cvc5.Solver(tmn)
        sl.setOption('tlimit-per', '5000')
        sl.setLogic('ALL')
        p = cvc5.InputParser(sl)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, s.to_smt2().replace('(check-sat)', ''), 'q')
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            c.invoke(sl, sm)
        r = str(sl.checkSat())
    except Exception as e:
        r = 'error ' + str(e)[:80]
    STATS['cvc5_time'] += time.time() - t0
    STATS['cvc5'] += 1
    CROSSLOG.append(r)


def sat(hyps, timeout=3000):
    """reachability / vacuity check: is the conjunction satisfiable?"""
    try:
        al = aliases(hyps, [], 5)
        enc = Enc(al)
        s = z3.Solver()
        s.set('timeout', timeout)
        hs = [enc.enc(h) for h in hyps]
        for h in hs + enc.side:
            s.add(h)
        return str(s.check())
    except (Unknown, z3.Z3Exception) as e:
        return 'unknown'


def entails(hyps, goal, timeout=1500):
    return prove(hyps, goal, 1, timeout)[0] == 'proved'
