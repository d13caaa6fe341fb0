"""Numeric evaluation of obligations: a failed obligation is a counterexample only when hypotheses and
negated goal are true together under one concrete interpretation (random tables for the uninterpreted symbols,
the real semantics for arithmetic, elementary functions and binders)."""
import cmath
import hashlib
import itertools
import math
import random
import z3
from . import terms as tm
from .terms import T
from .values import Unsupported


class Undefined(Exception):
    """outside the domain (division by zero, root of a negative number, too large)"""


class Interp:
    """one random interpretation"""

    def __init__(self, seed, fixed=None, big=False):
        self.seed = seed
        self.r = random.Random(seed)
        self.vars = dict(fixed or {})
        self.mode = {}
        self.steps = 0
        self.big = big

    def var(self, name, sort):
        v = self.vars.get(name)
        if v is None:
            r = random.Random('%s|%s' % (self.seed, name))
            if sort == 'I':
                v = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
            elif sort == 'R':
                if name == 'pi':
                    v = math.pi
                elif name == 'deg_per_km':
                    v = 1 / 111.19492664455873
                else:
                    v = r.choice([r.uniform(-2, 2), r.uniform(0, 4), r.uniform(0, 1), float(r.randint(-2, 6)), r.uniform(0, 20)])
            elif sort == 'B':
                v = r.random() < .5
            elif sort == 'S':
                v = 'str:' + name
            else:
                v = ('obj', name)
            self.vars[name] = v
        return v

    def hashed(self, name, args, sort):
        key = '%s|%s|%s' % (self.seed, name, '|'.join(rep(a) for a in args))
        h = hashlib.sha256(key.encode()).digest()
        u = int.from_bytes(h[:6], 'big') / float(1 << 48)
        if sort == 'B':
            return u < .5
        if sort in 'SU':
            return ('val', key if len(key) < 200 else h.hex())
        m = self.mode.get(name)
        if m is None:
            m = random.Random('%s|mode|%s' % (self.seed, name)).choice(['unit', 'signed', 'signed', 'coarse', 'pos', 'big', 'neg'])
            self.mode[name] = m
        if sort == 'I':
            return int(u * 5)
        return {'unit': u, 'signed': 4 * u - 2, 'coarse': float(int(u * 7) - 3), 'pos': .05 + 3 * u, 'big': 40 * u, 'neg': -2 * u}[m]


def rep(a):
    if isinstance(a, bool):
        return str(a)
    if isinstance(a, float):
        if abs(a) < 1e-9:
            return '0'
        if a == int(a) and abs(a) < 1e15:
            return str(int(a))
        r = '%.6g' % a
        return str(int(float(r))) if float(r) == int(float(r)) and abs(a) < 1e5 else r
    if isinstance(a, tuple):
        return '(%s)' % ','.join(rep(x) for x in a)
    return str(a)


LIM = 40
KERNELS = ('FFT.re', 'FFT.im', 'IFFT.re', 'IFFT.im', 'detrend', 'correlate', 'peaks.n', 'peak')


def dft(x, sign):
    n = len(x)
    w = [cmath.exp(sign * 2j * math.pi * k / n) for k in range(n)]
    return [sum(x[j] * w[j * k % n] for j in range(n)) for k in range(n)]


def detrend(x):
    n = len(x)
    if n < 2:
        raise Undefined('detrend')
    tm_, xm = (n - 1) / 2, sum(x) / n
    b = sum((j - tm_) * (v - xm) for j, v in enumerate(x)) / sum((j - tm_) ** 2 for j in range(n))
    return [float(v - xm - b * (j - tm_)) for j, v in enumerate(x)]


def correlate(x, y):
    n, m = len(x), len(y)
    return [float(sum(x[i + k - (m - 1)] * y[i] for i in range(m) if 0 <= i + k - (m - 1) < n)) for k in range(n + m - 1)]


def peaks(x):
    """indices of the strict local maxima, middles of flat ones (scipy.signal.find_peaks)"""
    d = [abs(a - b) for a, b in zip(x, x[1:])]
    if any(0 < v < 1e-8 * (1 + abs(a)) for v, a in zip(d, x)):
        raise Undefined('flat up to rounding')
    out, i, n = [], 1, len(x)
    while i < n - 1:
        if x[i - 1] < x[i]:
            j = i
            while j + 1 < n - 1 and x[j + 1] == x[i]:
                j += 1
            if x[j + 1] < x[i]:
                out.append((i + j) // 2)
            i = j
        i += 1
    return out


class Ev:
    def __init__(self, it):
        self.it = it
        self.memo = {}
        self.kern = {}
        self.n = 0

    def ev(self, t, env=None):
        env = env or {}
        fv = t.fv
        key = (t.id, tuple((v[1], env[v[1]]) for v in sorted(x for x in fv if isinstance(x, tuple))))
        if key in self.memo:
            r = self.memo[key]
            if r is None:
                raise Undefined('')
            return r
        self.n += 1
        if self.n > 400000:
            raise Undefined('too large')
        self.memo[key] = None
        r = self._ev(t, env)
        if isinstance(r, float) and (r != r or abs(r) > 1e150):
            raise Undefined('not a number')
        self.memo[key] = r
        return r

    def _ev(self, t, env):
        op = t.op
        if op == 'const':
            c = t.args[0]
            return int(c) if c.denominator == 1 and t.sort == 'I' else float(c)
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'var':
            return self.it.var(t.args[0], t.sort)
        if op == 'bv':
            return env[t.args[0]]
        if op == 'str':
            return 'lit:' + t.args[0]
        if op == 'poly':
            acc = 0 if t.sort == 'I' else 0.0
            for mon, c in t.args:
                p = int(c) if c.denominator == 1 else float(c)
                for a, e in mon:
                    x = self.ev(a, env)
                    if isinstance(x, (tuple, str)):
                        raise Undefined('object in arithmetic')
                    if e < 0:
                        if abs(x) < 1e-9:
                            raise Undefined('division by zero')
                        p = p / float(x) ** (-e)
                    else:
                        p = p * x ** e
                acc += p
            return acc
        if op in ('lt', 'le', 'eq'):
            x = self.ev(t.args[0], env)
            if isinstance(x, float):
                sc = self.scale(t.args[0], env)
                if abs(x) < 1e-8 * (1e-3 + sc):       # undecided by rounding: treated as equal
                    x = 0
            return x < 0 if op == 'lt' else x <= 0 if op == 'le' else x == 0
        if op in ('iff', 'eqo'):
            return self.ev(t.args[0], env) == self.ev(t.args[1], env)
        if op == 'not':
            return not self.ev(t.args[0], env)
        if op == 'and':
            return all(self.ev(a, env) for a in t.args)
        if op == 'or':
            return any(self.ev(a, env) for a in t.args)
        if op == 'ite':
            r = self.ev(t.args[1] if self.ev(t.args[0], env) else t.args[2], env)
            return float(r) if t.sort == 'R' and isinstance(r, (int, bool)) else r
        if op == 'uf':
            return self._uf(t, env)
        raise Undefined('cannot evaluate ' + op)

    def scale(self, p, env):
        if p.op != 'poly':
            return abs(self.ev(p, env))
        s = 0.0
        for mon, c in p.args:
            m = abs(float(c))
            for a, e in mon:
                m *= abs(float(self.ev(a, env))) ** e
            s = max(s, m)
        return s

    def lam(self, l, env):
        n, body = l.args

        def f(*xs):
            e = dict(env)
            for i, x in enumerate(xs):
                e[body.ht + 1 + i] = x
            return self.ev(body, e)
        return f

    def kernel(self, name, vals):
        """library kernels evaluated by their definition"""
        base, _, part = name.partition('.')
        key = (base,) + tuple(v for v in vals if isinstance(v, tuple))
        if key not in self.kern:
            xs = [list(v[2]) for v in vals if isinstance(v, tuple)]
            self.kern[key] = {'FFT': lambda x: dft(x, -1), 'IFFT': lambda x: [c / len(x) for c in dft(x, 1)], 'detrend': detrend,
                              'correlate': correlate, 'peaks': peaks, 'peak': peaks}[base](*xs)
        r = self.kern[key]
        if name == 'peaks.n':
            return len(r)
        k = vals[-1]
        if not 0 <= k < len(r):
            raise Undefined('subscript')
        v = r[int(k)]
        if part:
            return float(v.real if part == 're' else v.imag)
        return v

    def _uf(self, t, env):
        name, args = t.args[0], t.args[1:]
        if name in ('Sum', 'Prod', 'ArgMax', 'ArgMin', 'Max', 'Min', 'AnyB', 'Count') and len(args) == 3 and args[2].sort == 'L':
            lo, hi = self.ev(args[0], env), self.ev(args[1], env)
            if hi - lo > LIM:
                raise Undefined('too large')
            f = self.lam(args[2], env)
            xs = [f(i) for i in range(int(lo), int(hi))]
            if name == 'Sum':
                s = sum(xs) if xs else 0
                return float(s) if t.sort == 'R' else s
            if name == 'Count':
                return sum(1 for x in xs if x)
            if name == 'AnyB':
                return any(xs)
            if name == 'Prod':
                return math.prod(float(x) for x in xs)
            if not xs:
                raise Undefined('empty')
            if name in ('Max', 'Min'):
                return max(xs) if name == 'Max' else min(xs)
            best = max(xs) if name == 'ArgMax' else min(xs)
            tol = 1e-9 * (1 + abs(best)) if isinstance(best, float) else 0
            return int(lo) + next(i for i, x in enumerate(xs) if abs(x - best) <= tol)
        if name == 'Nth' and len(args) == 4 and args[2].sort == 'L':
            lo, hi, k = self.ev(args[0], env), self.ev(args[1], env), self.ev(args[3], env)
            if hi - lo > LIM:
                raise Undefined('too large')
            f = self.lam(args[2], env)
            idx = [i for i in range(int(lo), int(hi)) if f(i)]
            if not 0 <= k < len(idx):
                raise Undefined('no such element')
            return idx[int(k)]
        if name[:3] == 'arr' and args and args[-1].sort == 'L':
            nd = args[-1].args[0]
            shape = tuple(int(self.ev(a, env)) for a in args[:nd])
            if any(n < 0 for n in shape):
                raise Undefined('negative length')
            if math.prod(shape) > LIM * LIM or max(shape) > 4 * LIM:
                raise Undefined('too large')
            fs = [self.lam(l, env) for l in args[nd:]]
            cells = itertools.product(*[range(r) for r in shape])
            if len(fs) == 2:
                return ('array', shape, tuple(complex(*[float(f(*ix)) for f in fs]) for ix in cells))
            return ('array', shape, tuple(fs[0](*ix) for ix in cells))
        vals = []
        for a in args:
            if a.sort == 'L':
                raise Undefined('function argument of ' + name)
            vals.append(self.ev(a, env))
        if name in KERNELS:
            return self.kernel(name, vals)
        x = vals[0] if vals else None
        try:
            if name in ('let', 'abbrev'):
                return x
            if name == 'inv':
                if abs(x) < 1e-9:
                    raise Undefined('division by zero')
                return 1.0 / x
            if name == 'inv0':
                raise Undefined('division by zero')
            if name == 'abs':
                return abs(x)
            if name == 'sqrt':
                if x < 0:
                    raise Undefined('root of a negative number')
                return math.sqrt(x)
            if name == 'cos':
                return math.cos(x)
            if name == 'sin':
                return math.sin(x)
            if name == 'exp':
                return math.exp(x)
            if name in ('pow', 'rpow'):
                r = float(x) ** vals[1]
                if isinstance(r, complex):
                    raise Undefined('complex power')
                return r
            if name == 'idiv':
                return x // vals[1]
            if name == 'imod':
                return x % vals[1]
            if name in ('floor', 'trunc', 'round'):
                if abs(x - round(x)) < 1e-9:
                    return int(round(x))
                if name == 'round' and abs(2 * x - round(2 * x)) < 1e-9:
                    raise Undefined('tie')
                return {'floor': math.floor, 'trunc': int, 'round': round}[name](x)
            if name == 'next_pow_2' and isinstance(x, (int, float)):
                n = 1
                while n < x:
                    n *= 2
                return n
        except (ZeroDivisionError, OverflowError, ValueError, TypeError):
            raise Undefined(name)
        if name.startswith('len') and t.sort == 'I':
            return 1 + abs(self.it.hashed(name, vals, 'I'))
        return self.it.hashed(name, vals, t.sort)


def model_vars(hyps, goal, dims=4):
    """scalar values of a solver model of hyps and not goal, with small dimensions; {} without one"""
    from . import smt
    try:
        al = smt.aliases([goal] + hyps, hyps, 0)
        enc = smt.Enc(al)
        s = z3.Solver()
        s.set('timeout', 3000)
        hs = [enc.enc(h) for h in hyps]
        g = enc.enc(goal)
        s.add(*hs)
        s.add(*enc.side)
        s.add(z3.Not(g))
        vs = {}
        for h in list(hyps) + [goal]:
            for a in tm.atoms(h, None, True).values():
                if a.op == 'var':
                    vs[a.args[0]] = a.sort
        s.push()
        for n, so in vs.items():
            if so == 'I':
                s.add(z3.Int(n) <= dims, z3.Int(n) >= 0)
            elif so == 'R':
                s.add(z3.Real(n) <= 100, z3.Real(n) >= -100)
        if s.check() != z3.sat:
            s.pop()
            if s.check() != z3.sat:
                return {}
        m = s.model()
        out = {}
        for n, so in vs.items():
            if so == 'I':
                v = m.eval(z3.Int(n))
                if z3.is_int_value(v):
                    out[n] = v.as_long()
            elif so == 'R':
                v = m.eval(z3.Real(n))
                if z3.is_rational_value(v):
                    out[n] = v.numerator_as_long() / v.denominator_as_long()
                elif z3.is_algebraic_value(v):
                    v = v.approx(20)
                    out[n] = v.numerator_as_long() / v.denominator_as_long()
            elif so == 'B':
                v = m.eval(z3.Bool(n))
                if z3.is_true(v) or z3.is_false(v):
                    out[n] = z3.is_true(v)
        return out
    except (smt.Unknown, z3.Z3Exception):
        return {}


def witness(hyps, goal, tries=400, budget=20.0):
    """an interpretation that satisfies hyps and falsifies goal, or None"""
    import time
    t0 = time.time()
    f0 = goal if not isinstance(goal, T) else None
    fixed = model_vars(hyps, tm.FALSE if f0 else goal)
    for k in ('pi', 'deg_per_km'):
        fixed.pop(k, None)
    ok = 0
    for seed in range(tries):
        if time.time() - t0 > budget:
            break
        f = {}
        if fixed and seed % 2 == 0:
            f = {k: v for k, v in fixed.items() if seed < 60 or isinstance(v, bool) or random.Random(seed * 7919 + hash_(k)).random() < .6}
        it = Interp(seed, f)
        e = Ev(it)
        try:
            if not all(e.ev(h) for h in hyps):
                continue
            ok += 1
            if not (f0(e) if f0 else e.ev(goal)):
                return {'variables': {k: v for k, v in it.vars.items() if isinstance(v, (int, float, bool)) and k not in ('pi', 'deg_per_km')},
                        'interpretation_seed': seed, 'sides': sides(e, goal)}
        except (Undefined, RecursionError, KeyError):
            continue
        except Unsupported:
            continue
        except (TypeError, ZeroDivisionError, OverflowError):
            continue
    return None if ok else False


def hash_(k):
    return int.from_bytes(hashlib.sha256(k.encode()).digest()[:4], 'big')


def sides(e, goal):
    try:
        if isinstance(goal, T) and goal.op == 'eq':
            return 'code - specified = %r' % e.ev(goal.args[0])
    except Exception:
        pass
    return None
