"""Normal form of terms with cos, sin and sqrt: addition theorems (one monomial per argument) and sqrt(x)*sqrt(x) = x (x >= 0)."""
from fractions import Fraction
from . import terms as tm

ONE = tm.const(1, 'R')


def cossin(arg, memo):
    """(cos, sin) of a sum of monomials"""
    tt = list(tm.terms_of(arg).items())
    c, s = ONE, tm.const(0, 'R')
    for m, k in tt:
        mon = tm._poly({m: Fraction(1)}, 'R')
        # whole multiples of one angle by repeated addition
        n = abs(k) if k.denominator == 1 else 1
        base = tm.scale(Fraction(1) if k.denominator == 1 else abs(k), mon)
        c1, s1 = tm.uf('cos', [base], 'R'), tm.uf('sin', [base], 'R')
        if k < 0:
            s1 = tm.neg(s1)
        for _ in range(int(n)):
            c, s = tm.sub(tm.mul(c, c1), tm.mul(s, s1)), tm.add(tm.mul(s, c1), tm.mul(c, s1))
    return c, s


def normal(t):
    t = expand(t)
    return roots(t)


def expand(t):
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == 'uf' and x.args[0] in ('cos', 'sin'):
            c, s = cossin(go(x.args[1]), memo)
            r = c if x.args[0] == 'cos' else s
        elif x.op == 'poly':
            r = tm.const(0, 'R')
            for m, k in tm.terms_of(x).items():
                p = tm.const(k, 'R')
                for a, e in m:
                    p = tm.mul(p, tm.powi(go(a), e) if e > 0 else tm.inv(tm.powi(go(a), -e)))
                r = tm.add(r, p)
        elif x.op == 'uf' and x.args[0] == 'abbrev':
            r = go(x.args[1])
        else:
            r = x
        memo[x.id] = r
        return r
    return go(t)


def roots(t):
    """exponents of square roots brought to -1 or 0"""
    for _ in range(40):
        out, changed = tm.const(0, 'R'), False
        for m, k in tm.terms_of(t).items():
            p = tm.const(k, 'R')
            for a, e in m:
                if a.op == 'uf' and a.args[0] == 'sqrt' and e > 0:
                    changed = True
                    q = (e + 1) // 2
                    p = tm.mul(p, tm.powi(a.args[1], q))
                    e -= 2 * q
                p = tm.mul(p, tm._poly({((a, e),): Fraction(1)}, 'R') if e else ONE)
            out = tm.add(out, p)
        t = out
        if not changed:
            break
    return t
