"""Proof driver: symbolic inputs, running the real functions, stating and discharging obligations."""
import ast
import os
import re
import hashlib
import time
import traceback
import z3
from . import terms as tm, smt, evalterm
from .interp import Interp, State, Fn
from .values import (Unsupported, Cx, Poison, Tup, Opt, Arr, ARef, Choice, Buf, LRef, DRef, ORef, StRef, TrRef,
                     StatsRef, Rope, SRec, ORec, FObj, Opq, Lib, subst_val)
from .terms import T
from .loops import replace, rd

RI = lambda n: tm.var(n, 'I')
RR = lambda n: tm.var(n, 'R')
RB = lambda n: tm.var(n, 'B')
CI = lambda n: tm.const(n)


def conditions(t, let=False):
    """closed boolean conditions of the ite nodes of t, also below binders"""
    out, seen = {}, set()

    def closed(x):
        return not any(isinstance(v, tuple) for v in x.fv)

    def go(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.op == 'uf' and x.args[0] == 'let' and not let:
            return
        if x.op == 'ite' and closed(x.args[0]):
            for a in (x.args[0].args if x.args[0].op in ('and', 'or') else [x.args[0]]):
                if a.op == 'not':
                    a = a.args[0]
                out[a.id] = a
        args(x.args)

    def args(xs):
        for a in xs:
            if isinstance(a, T):
                go(a)
            elif isinstance(a, tuple):
                args(a)
    go(t)
    return list(out.values())


def prove_split(hyps, goal, timeout=None, depth=0):
    """prove; if that fails, split on the closed conditions below binders and try again"""
    if depth < 8 and goal is not tm.TRUE:
        # conditions decided by the hypotheses disappear first
        for c in conditions(goal):
            if c.op == 'var':
                if c in hyps:
                    goal = replace(goal, c, tm.TRUE, True)
                elif tm.not_(c) in hyps:
                    goal = replace(goal, c, tm.FALSE, True)
            elif smt.entails(hyps, c, 500):
                goal = replace(goal, c, tm.TRUE, True)
            elif smt.entails(hyps, tm.not_(c), 500):
                goal = replace(goal, c, tm.FALSE, True)
    r = smt.prove(hyps, goal, 0, timeout)
    if r[0] == 'proved' or depth >= 8:
        return r
    for c in sorted(conditions(goal) or conditions(goal, True), key=lambda c: (c.op != 'var', c.id)):
        r1 = prove_split(hyps + [c], replace(goal, c, tm.TRUE, True), timeout, depth + 1)
        if r1[0] != 'proved':
            return r1
        r2 = prove_split(hyps + [tm.not_(c)], replace(goal, c, tm.FALSE, True), timeout, depth + 1)
        return r2
    return r


def ite_normal(t):
    """equal term: conditionals inside arguments of functions lifted out of the arithmetic, in one order of their conditions"""
    memo, inside = {}, {}

    def conds(x, out):
        if x.op == 'ite':
            out[x.args[0].id] = x.args[0]
            conds(x.args[1], out)
            conds(x.args[2], out)
        elif x.op == 'poly':
            for mon, _ in x.args:
                for a, _e in mon:
                    if a.op == 'ite':
                        conds(a, out)
        return out

    def take(x, c, side):
        if x.op == 'ite':
            if x.args[0] is c:
                return take(x.args[1 + (not side)], c, side)
            return tm.ite(x.args[0], take(x.args[1], c, side), take(x.args[2], c, side))
        if x.op == 'poly':
            return tm.map_args(x, lambda a: take(a, c, side) if a.op == 'ite' else a)
        return x

    def tree(x):
        if x.op not in ('ite', 'poly') or x.sort not in 'RI':
            return x
        cs = conds(x, {})
        if not cs or len(cs) > 5:
            return tm.mul(x)         # p * (1/p) cancels
        c = cs[min(cs)]
        return tm.ite(c, tree(take(x, c, True)), tree(take(x, c, False)))

    def cases(p):
        if p.op == 'ite':
            c, a, b = p.args
            return tm.and_(tm.or_(tm.not_(c), cases(a)), tm.or_(c, cases(b)))
        return tm.eq(p, tm.const(0, p.sort))

    def over(f, a):
        if a.op == 'ite':
            return tm.ite(a.args[0], over(f, a.args[1]), over(f, a.args[2]))
        return tm.reuf(f.args[0], [a], f.sort)

    def go(x, deep):
        m = inside if deep else memo
        r = m.get(x.id)
        if r is None:
            if x.op in ('var', 'const', 'bv', 'str', 'true', 'false'):
                r = x
            elif x.op == 'lam':
                vs, body = tm.open_lam(x)
                r = tm.lam(vs, tree(go(body, True)))
            elif x.op == 'uf':
                xs = [tree(go(a, True)) for a in x.args[1:]]
                r = over(x, xs[0]) if len(xs) == 1 and x.args[0] in ('sin', 'cos', 'exp', 'abs', 'sqrt', 'inv') else tm.reuf(x.args[0], xs, x.sort)
            else:
                r = tm.map_args(x, lambda y: go(y, deep))
                if not deep and r.op == 'eq':
                    p = tree(r.args[0])
                    if p.op == 'ite':
                        r = cases(p)
            m[x.id] = r
        return r
    return go(t, False)


class Proof:
    """collects the obligations of one property"""

    def __init__(self, prop, repo_src='/repo/src', budget=600):
        self.prop = prop
        self.repo_src = repo_src
        self.results = []          # dicts: name, status, backend, detail, fn
        self.unsupported = []      # (where, reason)
        self.functions = {}        # name -> sha of source
        self.assumptions = set()
        self.contracts_used = set()
        self.vacuity = []
        self.library = set()
        self.trusted = set()
        self.budget_w, self.spent_w = 120.0, 0.0
        self.no_witness = False
        self.t0 = time.time()
        self.budget = budget
        smt.DEADLINE[0] = time.time() + budget
        self.fresh()

    def fresh(self, contracts=None, extra=None):
        self.I = Interp(self.repo_src, contracts)
        if extra:
            self.I.lib.extra.update(extra)
        self.L = self.I.lib
        self.st = State()
        self.inputs = {}
        return self

    # ---------------------------------------------------------- symbolic inputs
    def dim(self, name, lo=1):
        v = RI(name)
        self.st.assume(tm.le(CI(lo), v))
        return v

    def real(self, name):
        return RR(name)

    def opt(self, v, name):
        return Opt(RB(name + '.none'), v)

    def array(self, name, n, sort='R'):
        a = Arr((n,), lambda i: tm.uf(name, [i], sort))
        r = ARef(self.st.alloc(Buf(a)), (n,))
        return r

    def array2(self, name, n, m, sort='R'):
        a = Arr((n, m), lambda i, j: tm.uf(name, [i, j], sort))
        return ARef(self.st.alloc(Buf(a)), (n, m))

    def stream(self, name, n, npts, fields=None):
        """npts: term (all traces the same) or function of the trace index"""
        fn = npts if callable(npts) else (lambda k: npts)
        d = Arr((n, fn(tm.var('k', 'I'))), lambda k, i: tm.uf(name + '.data', [k, i], 'R'))
        f = {'data': d}
        f.update(fields or {})
        return StRef(self.st.alloc(SRec(name, n, fn, f)), n)

    def lst(self, name, n, f):
        return LRef(self.st.alloc(Rope([('sym', n, f)])))

    def pylist(self, items):
        return LRef(self.st.alloc(Rope([('item', x) for x in items])))

    def dct(self, d):
        return DRef(self.st.alloc(dict(d)))

    # ---------------------------------------------------------- running
    def call(self, mod, fn, args, kwargs=None):
        r = self.I.call_function(mod, fn, list(args), dict(kwargs or {}), self.st)
        self.note()
        return r

    def note(self):
        for c in list(self.I.called):
            if c.endswith('(by contract)'):
                self.contracts_used.add(c[:-len(' (by contract)')])
                continue
            if c.startswith('spec.'):
                continue
            if c not in self.functions:
                src = self.src_of(c)
                if src:
                    self.functions[c] = hashlib.sha256(src.encode()).hexdigest()[:12]
        self.assumptions |= set(self.I.assumptions)
        self.library |= set(self.L.used)

    def src_of(self, full):
        parts = full.split('.')
        for i in range(len(parts), 0, -1):
            m = self.I.mods.get('.'.join(parts[:i]))
            if m is None:
                continue
            node = m.tree
            for p in parts[i:]:
                for x in ast.walk(node):
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == p:
                        node = x
                        break
            if node is m.tree:
                return None
            return ast.unparse(node)
        return None

    # ---------------------------------------------------------- obligations
    def contract(self, name, mod, fn, names, pre=None):
        """calls of the repository function `name` are replaced by its specification mod.fn (proved on its own);
        pre(a, L, st) lists the preconditions, each an obligation at every call site"""
        def f(I, a, st):
            for nm, goal in (pre(a, I.lib, st) if pre else []):
                self.obl('precondition of %s: %s' % (name.split('.')[-1], nm), goal, pc=st.pc)
            return I.call_function(mod, fn, [a[n] for n in names], {}, st)
        return {name: f}

    def opaque(self, symbol, names, shape=(), cx=False, pre=None, label=None, ret=None):
        """a contract that says only `a function of its arguments`: both the repository function and its specification are
        replaced by one uninterpreted symbol (they are proved equal on their own); names: the argument names, in the order of
        the symbol, or (name, conversion); shape: of the result ('pair' for two results), or a function of the arguments"""
        def f(I, a, st):
            for nm, goal in (pre(a, I.lib, st) if pre else []):
                self.obl('precondition of %s: %s' % (label or symbol, nm), goal, pc=st.pc)
            ts = []
            for n in names:
                v = n[1](a, I.lib, st) if isinstance(n, tuple) else a[n]
                t = I.lib.freeze_term(v, st)
                ts.append(tm.toreal(t) if t.sort in 'IB' else t)
            if ret:
                return ret(lambda sym, shape, cx=False, sort='R': self.symbol_value(symbol + sym, ts, shape, cx, st, sort), a, I.lib, st)
            return self.symbol_value(symbol, ts, shape, cx, st)
        return f

    def symbol_value(self, symbol, ts, shape, cx, st, sort='R'):
        def at(*ix):
            args = list(ix) + ts
            if cx:
                return Cx(tm.uf(symbol + '.re', args, 'R'), tm.uf(symbol + '.im', args, 'R'))
            return tm.uf(symbol, args, sort)
        if shape == 'pair':
            return Tup([self.symbol_value(symbol + s, ts, (), cx, st) for s in '12'])
        if not shape:
            return at()
        sh = tuple(CI(n) if isinstance(n, int) else n for n in shape)
        return self.L.new(Arr(sh, at), st)

    def obl(self, name, goal, hyps=(), timeout=None, pc=None, only=False):
        st, be = 'error', ''
        t0 = time.time()
        hyps = list(hyps) + (list(pc) if pc is not None else [])
        try:
            st, be = prove_split(([] if only else list(self.st.pc)) + list(hyps), goal, timeout)
            if st != 'proved':
                g = ite_normal(goal)
                if g is not goal:
                    s2 = prove_split(([] if only else list(self.st.pc)) + list(hyps), g, timeout)
                    if s2[0] == 'proved':
                        st, be = s2
        except RecursionError:
            st, be = 'unknown', 'recursion limit'
        if os.environ.get('PYVC_V'):
            print('  %-60s %s %.2f' % (name, st, time.time() - t0), flush=True)
        w = None
        if st != 'proved' and st != 'error' and not self.no_witness and time.time() - self.t0 < self.budget:
            left = self.budget_w - self.spent_w
            if left > 0 and sum(1 for r in self.results if r.get('witness')) < 12:
                t1 = time.time()
                try:
                    w = evalterm.witness(list(self.st.pc) + list(hyps), goal, budget=min(12.0, left))
                except RecursionError:
                    pass
                self.spent_w += time.time() - t1
        self.results.append({'obligation': name, 'status': st, 'witness': w or None,
                             'refutable': None if st == 'proved' else ('no interpretation found' if w is False else bool(w)),
                             'by': be if st == 'proved' else None,
                             'detail': None if st == 'proved' else str(be)[:1500],
                             'goal': None if st == 'proved' else tm_show(goal)})
        return st == 'proved'

    def lemmas(self, file, names):
        """theorems checked by the Lean kernel; obligations of their own"""
        import resource
        import subprocess
        import tempfile
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        with open(os.path.join(here, 'lean', file)) as f:
            text = f.read()
        text += ''.join('\n#print axioms Rfsed.%s' % x for x in names) + '\n'
        hard = resource.getrlimit(resource.RLIMIT_AS)[1]
        t0 = time.time()
        with tempfile.TemporaryDirectory() as d:
            t = os.path.join(d, file)
            with open(t, 'w') as f:
                f.write(text)
            try:
                r = subprocess.run(['lean', t], cwd=d, capture_output=True, text=True, timeout=240,
                                   preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (hard, hard)))
                out, ok = r.stdout + r.stderr, r.returncode == 0 and ': error' not in r.stdout
            except (OSError, subprocess.TimeoutExpired) as e:
                out, ok = str(e), False
        smt.STATS['lean'] = smt.STATS.get('lean', 0) + len(names)
        smt.STATS['lean_time'] = round(smt.STATS.get('lean_time', 0) + time.time() - t0, 2)
        ax = dict(re.findall(r"'Rfsed\.(\w+)' depends on axioms: \[([^\]]*)\]", out))
        for x in names:
            a = ax.get(x)
            good = ok and a is not None and set(a.replace(',', ' ').split()) <= {'propext', 'Classical.choice', 'Quot.sound'}
            self.results.append({'obligation': 'lemma %s (lean/%s)' % (x, file), 'status': 'proved' if good else 'unknown', 'witness': None,
                                 'refutable': None, 'by': 'lean4/Mathlib' if good else None, 'detail': None if good else out[:1500], 'goal': None if good else x})
        self.trusted.add('numpy.fft.fft/ifft compute the discrete Fourier transform of lean/Dft.lean (ZMod.dft)')

    def same_trig(self, name, a, b):
        """equality of small complex matrices up to the addition theorems and sqrt(x)^2 = x"""
        from . import trig
        a, b = self.L.arr(a, self.st), self.L.arr(b, self.st)
        self.trusted.add('addition theorems of sine and cosine; sqrt(x)^2 = x for x >= 0 (real vertical slownesses)')
        for i in range(int(tm.cval(a.shape[0]))):
            for j in range(int(tm.cval(a.shape[1]))):
                x, y = self.L.cx(a.at(CI(i), CI(j))), self.L.cx(b.at(CI(i), CI(j)))
                self.obl('%s[%d,%d]' % (name, i, j), tm.and_(*[tm.eq(trig.normal(tm.sub(p, q)), tm.const(0, 'R')) for p, q in ((x.re, y.re), (x.im, y.im))]))

    def fail(self, name, why, hyps=(), missing=False):
        """a structural mismatch (missing entry, different kind of value)"""
        w = None
        if missing:      # the entry is absent on a path that can be taken
            w = evalterm.witness(list(self.st.pc) + list(hyps), tm.FALSE, budget=5.0)
        self.results.append({'obligation': name, 'status': 'refuted', 'by': None, 'detail': why, 'goal': None, 'witness': w or None})

    def undecided(self, name, why):
        self.results.append({'obligation': name, 'status': 'unknown', 'by': None, 'detail': why, 'goal': None})

    def cover(self, name, hyps=()):
        """vacuity guard: the assumptions must be satisfiable"""
        r = smt.sat(list(self.st.pc) + list(hyps))
        self.vacuity.append((name, r))
        if r == 'unsat':
            self.results.append({'obligation': name + ' [assumptions satisfiable]', 'status': 'unknown', 'by': None,
                                 'detail': 'contradictory assumptions', 'goal': None})

    def section(self, name, f, *a):
        """run one group of obligations; leaving the supported fragment makes the group undecided"""
        t = time.time()
        try:
            f(self, *a)
        except Unsupported as e:
            self.unsupported.append({'group': name, 'reason': str(e)[:400]})
        except RecursionError:
            self.unsupported.append({'group': name, 'reason': 'recursion limit'})
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unsupported.append({'group': name, 'reason': 'internal: %s: %s (%s:%d)' % (
                type(e).__name__, str(e)[:200], tb.filename.split('/')[-1], tb.lineno)})
            self.lasttb = traceback.format_exc()
        self.note()
        self.times = getattr(self, 'times', {})
        self.times[name] = round(time.time() - t, 2)

    # ---------------------------------------------------------- structural equality
    def same(self, name, a, b, hyps=(), st=None):
        """a == b for all indices (a from the code, b from the specification)"""
        st = st or self.st
        a = self.I.res(a, st) if not isinstance(a, (Rope, dict)) else a
        b = self.I.res(b, st) if not isinstance(b, (Rope, dict)) else b
        hyps = list(hyps)
        if isinstance(a, str):
            a = tm.strc(a)
        if isinstance(b, str):
            b = tm.strc(b)
        if isinstance(a, Choice) or isinstance(b, Choice):
            c = a.c if isinstance(a, Choice) else b.c
            pick = lambda v, k: (v.a if k else v.b) if isinstance(v, Choice) and v.c is c else v
            self.same(name + '/then', pick(a, True), pick(b, True), hyps + [c], st)
            self.same(name + '/else', pick(a, False), pick(b, False), hyps + [tm.not_(c)], st)
            return
        if a is None or b is None:
            if a is None and b is None:
                self.obl(name, tm.TRUE)
            elif isinstance(a, Opt) or isinstance(b, Opt):
                self.obl(name, (a if isinstance(a, Opt) else b).isnone, hyps)
            else:
                self.mism(name, a, b, hyps)
            return
        if isinstance(a, Opt) and isinstance(b, Opt):
            self.obl(name + '/is None', tm.eq(a.isnone, b.isnone), hyps)
            self.same(name, a.val, b.val, hyps + [tm.not_(a.isnone)], st)
            return
        if isinstance(a, Opt):
            self.obl(name + '/not None', tm.not_(a.isnone), hyps)
            return self.same(name, a.val, b, hyps + [tm.not_(a.isnone)], st)
        if isinstance(b, Opt):
            self.obl(name + '/not None', tm.not_(b.isnone), hyps)
            return self.same(name, a, b.val, hyps + [tm.not_(b.isnone)], st)
        if isinstance(a, DRef):
            a = st.heap[a.did]
        if isinstance(b, DRef):
            b = st.heap[b.did]
        if isinstance(a, dict) and isinstance(b, dict):
            for k in b:
                if k not in a:
                    self.mism('%s[%s]' % (name, kname(k)), None, 'present', hyps)
                else:
                    self.same('%s[%s]' % (name, kname(k)), a[k], b[k], hyps, st)
            return
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = self.L.cx(a), self.L.cx(b)
            self.obl(name + '/re', tm.eq(a.re, b.re), hyps)
            self.obl(name + '/im', tm.eq(a.im, b.im), hyps)
            return
        if isinstance(a, T) and isinstance(b, T):
            if (a.sort in 'SU') != (b.sort in 'SU') or (a.sort in 'SU' and a.sort != b.sort):
                return self.mism(name, a, b, hyps)
            keep = self.no_witness
            if not keep and libsyms(a) != libsyms(b):
                self.no_witness = True      # library functions whose relation is not modelled
            self.obl(name, tm.eq(a, b), hyps)
            self.no_witness = keep
            return
        if isinstance(a, Opq) and isinstance(b, Opq):
            return self.obl(name, tm.eq(a.term, b.term), hyps)
        if isinstance(a, StRef) and isinstance(b, StRef):
            return self.same_stream(name, a, b, hyps, st)
        if isinstance(a, TrRef) and isinstance(b, TrRef):
            return self.same_trace(name, a, b, hyps, st)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            for i, (x, y) in enumerate(zip(a.items, b.items)):
                self.same('%s[%d]' % (name, i), x, y, hyps, st)
            return
        if isinstance(a, FObj) and isinstance(b, FObj):
            for k in b.fields:
                if k not in a.fields:
                    self.mism('%s.%s' % (name, k), None, 'present', hyps)
                else:
                    self.same('%s.%s' % (name, k), a.fields[k], b.fields[k], hyps, st)
            return
        ra, rb = [st.heap[x.lid] if isinstance(x, LRef) else x for x in (a, b)]
        if isinstance(ra, Rope) and isinstance(rb, Rope) and (nested(ra) or nested(rb)):
            if self.same_rope(name, ra, rb, hyps, st):
                return
        aa, bb = self.asarr(a, st), self.asarr(b, st)
        if aa is not None and bb is not None:
            return self.same_arr(name, aa, bb, hyps)
        la, lb = self.asseq(a, st), self.asseq(b, st)
        if la is not None and lb is not None:
            n, ga = la
            m, gb = lb
            self.obl(name + '/length', tm.eq(n, m), hyps)
            i = tm.fresh('i', 'I')
            self.same(name + '[i]', ga(i, st), gb(i, st), hyps + [tm.le(CI(0), i), tm.lt(i, m)], st)
            return
        self.mism(name, a, b, hyps)

    def mism(self, name, a, b, hyps):
        r = smt.prove(list(self.st.pc) + list(hyps), tm.FALSE)
        if r[0] == 'proved':
            return
        self.fail(name, 'value of the code: %r, specified: %r' % (short(a), short(b)), hyps, (a is None) != (b is None))

    def same_rope(self, name, a, b, hyps, st):
        """segment by segment; False if the segments do not correspond"""
        outer = not self.no_witness
        wa, wb, h0 = a, b, list(hyps)
        m0 = len(self.results)
        keep = self.no_witness
        try:
            return self.same_segs(name, canon(a), canon(b), hyps, st)
        finally:
            self.no_witness = keep
            bad = [r for r in self.results[m0:] if r['status'] != 'proved']
            if outer and bad and not any(r.get('witness') for r in bad):
                w = self.spend(lambda left: evalterm.witness(list(self.st.pc) + h0, lambda e: Expand(e, self.L, st).same(wa, wb), budget=min(12.0, left)))
                bad[0]['witness'] = w or None

    def spend(self, f):
        left = self.budget_w - self.spent_w
        if left <= 0 or time.time() - self.t0 > self.budget:
            return None
        t = time.time()
        try:
            return f(left)
        except RecursionError:
            return None
        finally:
            self.spent_w += time.time() - t

    def same_segs(self, name, a, b, hyps, st):
        if [x[0] for x in a] != [x[0] for x in b]:
            return False
        # elements are compared position by position: a difference of structure alone refutes nothing
        m0 = len(self.results)
        keep, self.no_witness = self.no_witness, True
        for j, (x, y) in enumerate(zip(a, b)):
            nm = name if len(a) == 1 else '%s<%d>' % (name, j)
            if x[0] == 'cond':
                self.obl(nm + '/when', tm.eq(x[1], y[1]), hyps)
            elif x[0] == 'rep':
                self.obl(nm + '/length', tm.eq(x[1], y[1]), hyps)
        if all(r['status'] == 'proved' for r in self.results[m0:]):
            self.no_witness = keep
        for j, (x, y) in enumerate(zip(a, b)):
            nm = name if len(a) == 1 else '%s<%d>' % (name, j)
            if x[0] == 'item':
                self.same(nm, x[1], y[1], hyps, st)
            elif x[0] == 'cond':
                self.same(nm, x[2], y[2], list(hyps) + [y[1]], st)
            elif x[0] == 'rep':
                k = tm.fresh('k', 'I')
                self.same(nm + '[k]', x[2](k), y[2](k), list(hyps) + [tm.le(CI(0), k), tm.lt(k, y[1])], st)
            else:
                return False
        return True

    def asarr(self, v, st):
        if isinstance(v, (ARef, Arr)):
            return self.L.arr(v, st)
        if isinstance(v, LRef) or isinstance(v, Rope) or isinstance(v, Tup):
            try:
                return self.L.arr(v, st)
            except Unsupported:
                return None
        return None

    def asseq(self, v, st):
        try:
            return self.L.seq(v, st)
        except Unsupported:
            return None

    def same_arr(self, name, a, b, hyps):
        if a.ndim != b.ndim:
            return self.fail(name, 'rank %d, specified %d' % (a.ndim, b.ndim))
        hy = list(hyps)
        idx = []
        for d in range(a.ndim):
            self.obl('%s/shape%d' % (name, d), tm.eq(a.shape[d], b.shape[d]), hyps)
            n = b.shape[d]
            if tm.isconst(n) and tm.cval(n) <= 8 and d == a.ndim - 1 and d > 0:
                idx.append([CI(q) for q in range(int(tm.cval(n)))])
            else:
                i = tm.fresh('i', 'I')
                hy += [tm.le(CI(0), i), tm.lt(i, n)]
                idx.append([i])
        import itertools
        for ix in itertools.product(*idx):
            tag = name + '[' + ','.join(str(tm.cval(x)) if tm.isconst(x) else '*' for x in ix) + ']'
            self.same(tag, a.at(*ix), b.at(*ix), hy)

    def same_stream(self, name, a, b, hyps, st):
        self.obl(name + '/traces', tm.eq(a.n, b.n), hyps)
        k = tm.fresh('k', 'I')
        self.same_trace(name + '[k]', TrRef(a.sid, a.idx(k)), TrRef(b.sid, b.idx(k)),
                        list(hyps) + [tm.le(CI(0), k), tm.lt(k, b.n)], st)

    def same_trace(self, name, a, b, hyps, st, header=True):
        if a.sid == b.sid:
            return self.obl(name, tm.eq(a.k, b.k), hyps)
        ra, rb = st.heap[a.sid], st.heap[b.sid]
        self.obl(name + '/npts', tm.eq(ra.npts(a.k), rb.npts(b.k)), hyps)
        i = tm.fresh('i', 'I')
        self.same(name + '/data[*]', ra.fields['data'].at(a.k, i), rb.fields['data'].at(b.k, i),
                  list(hyps) + [tm.le(CI(0), i), tm.lt(i, rb.npts(b.k))])

    # ---------------------------------------------------------- loops without closed form
    def lockstep(self, name, code, spec, pick=None):
        """code and spec: functions running the two sides; loops without closed form are coupled: the largest set of pairs
        of variables that are equal at entry and stay equal is found by partition refinement, then the tests must agree
        and the results be equal"""
        self.I.rel = []
        try:
            a = code()
            ra = self.I.rel
            self.I.rel = []
            b = spec()
            rb = self.I.rel
        finally:
            self.I.rel = None
        self.note()
        if len(ra) != len(rb):
            raise Unsupported('%d loops of the code, %d of the specification' % (len(ra), len(rb)))
        m = {}
        fz = lambda v: subst_val(self.I.freeze(v, self.st), m)
        pcs = list(self.st.pc)
        self.no_witness = True
        try:
            for x, y in zip(ra, rb):
                m.update(self.couple('%s: %s' % (name, x.label), x, y, m))
            self.st.pc = [tm.subst(c, m) for c in pcs]
            for nm, va, vb in (pick(a, b) if pick else [(name, a, b)]):
                self.same(nm, fz(va), fz(vb))
        finally:
            self.no_witness = False
        return m

    def veq(self, a, b, hyps, timeout=None):
        if isinstance(a, Arr) and isinstance(b, Arr):
            if len(a.shape) != len(b.shape):
                return False
            for p, q in zip(a.shape, b.shape):
                if not self.holds(tm.eq(p, q), hyps):
                    return False
            ix = [tm.fresh('i', 'I') for _ in a.shape]
            try:
                va, vb = a.at(*ix), b.at(*ix)
            except Unsupported:
                return False
            h = [c for i, n in zip(ix, b.shape) for c in (tm.le(CI(0), i), tm.lt(i, n))]
            return self.veq(va, vb, list(hyps) + h, timeout)
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = self.L.cx(a), self.L.cx(b)
            return self.veq(a.re, b.re, hyps) and self.veq(a.im, b.im, hyps)
        if isinstance(a, T) and isinstance(b, T):
            if a.sort in 'RI' and b.sort in 'RI' and a.sort != b.sort:
                a, b = tm.toreal(a), tm.toreal(b)
            if a.sort != b.sort:
                return False
            return self.holds(tm.eq(a, b), hyps)
        return False

    def holds(self, goal, hyps):
        if goal is tm.TRUE:
            return True
        if goal is tm.FALSE:
            return False
        return prove_split(list(hyps), goal, 4000)[0] == 'proved'

    def couple(self, name, x, y, m0):
        def sig(v):
            if isinstance(v, Arr):
                try:
                    return ('arr', len(v.shape)) + (sig(v.at(*[tm.fresh('p', 'I') for _ in v.shape])),)
                except Unsupported:
                    return None
            if isinstance(v, Cx):
                return 'cx'
            if isinstance(v, T):
                return v.sort
            return None
        pc = [tm.subst(c, m0) for c in self.st.pc]
        cells = [(s, c, sig(c.pre)) for s, l in (('code', x), ('spec', y)) for c in l.cells]
        cells = [t for t in cells if t[2] is not None and len(t[1].toks) == (2 if 'cx' in str(t[2]) else 1)]
        # the exit assumptions of these loops must not be used for the initial values
        own = {t for _, c, _ in cells for t in c.toks}
        base = [c for c in pc if c.fv.isdisjoint(own)]
        classes = []
        for s, c, g in sorted(cells, key=lambda t: t[0] != 'spec'):
            for k in classes:
                if k[0][2] == g and self.veq(subst_val(k[0][1].init, m0), subst_val(c.init, m0), base):
                    k.append((s, c, g))
                    break
            else:
                classes.append([(s, c, g)])

        def mapping(cl):
            m = dict(m0)
            for k in cl:
                rep = k[0][1]
                for _, c, g in k[1:]:
                    for t, r in zip(c.toks, rep.toks):
                        if isinstance(g, tuple):
                            es = 'R' if g[2] in ('cx', 'I') else g[2]
                            m[t] = lambda *ix, r=r, es=es: rd(r, list(ix), es)
                        else:
                            m[t] = tm.var(r, 'R' if g == 'cx' else g)
            return m
        for rnd in range(40):
            m = mapping(classes)
            hy = base + [tm.subst(h, m) for h in x.hyps + y.hyps]
            out, changed = [], False
            for k in classes:
                groups = []
                for it in k:
                    nv = subst_val(it[1].new, m) if not isinstance(it[1].new, Poison) else None
                    for gr in groups:
                        if nv is not None and gr[0][0] is not None and self.veq(gr[0][0], nv, hy):
                            gr.append((nv, it))
                            break
                    else:
                        groups.append([(nv, it)])
                changed |= len(groups) > 1
                out += [[it for _, it in gr] for gr in groups]
            classes = out
            if not changed:
                break
        m = mapping(classes)
        if os.environ.get('PYVC_V'):
            for k in classes:
                print('    class', [(s, c.name()) for s, c, _ in k])
        hy = base + [tm.subst(h, m) for h in x.hyps + y.hyps]
        n = 0
        for k in classes:
            rep = k[0]
            for s, c, g in k[1:]:
                if s == 'code' and rep[0] == 'spec':
                    n += 1
                    self.results.append({'obligation': '%s: %s equals the specified %s on entry' % (name, c.name(), rep[1].name()), 'status': 'proved',
                                         'by': 'z3', 'detail': None, 'goal': None, 'witness': None, 'refutable': None})
                    self.results.append({'obligation': '%s: %s stays equal to the specified %s' % (name, c.name(), rep[1].name()), 'status': 'proved',
                                         'by': 'z3', 'detail': None, 'goal': None, 'witness': None, 'refutable': None})
        ga, gb = tm.subst(x.guard, m), tm.subst(y.guard, m)
        idx = [tm.subst(c.pre, m) for _, c, _ in cells if c.key[0] == 'idx']
        self.obl('%s: same test as specified' % name, tm.and_(tm.or_(tm.not_(ga), gb), tm.or_(tm.not_(gb), ga)),
                 [tm.le(CI(0), i) for i in idx], pc=base, only=True)
        return m

    # ---------------------------------------------------------- frames
    def snapshot(self):
        return dict(self.st.heap)

    def unchanged(self, name, before, allow=()):
        """every heap cell that existed before holds what it held (allow: header fields that may be added)"""
        same = [hid for hid, old in before.items() if self.st.heap.get(hid) is old]
        if same:
            self.obl('%s: nothing was written to %d of %d objects' % (name, len(same), len(before)), tm.TRUE)
        for hid, old in before.items():
            new = self.st.heap.get(hid)
            if new is old:
                continue
            label = '%s: %s' % (name, self.inputs.get(hid, kindof(old)))
            if type(new) is not type(old):
                self.fail(label, 'changed kind')
            elif isinstance(old, Buf):
                self.same_arr(label, new.arr, old.arr, [])
            elif isinstance(old, Rope):
                self.same(label, new, old)
            elif isinstance(old, dict):
                self.same(label, new, old)
                for k in new:
                    if k not in old:
                        self.fail(label, 'key %s added' % kname(k))
            elif isinstance(old, SRec):
                self.obl(label + '/traces', tm.eq(new.n, old.n))
                k = tm.fresh('k', 'I')
                hy = [tm.le(CI(0), k), tm.lt(k, old.n)]
                self.obl(label + '/npts', tm.eq(new.npts(k), old.npts(k)), hy)
                for f, v in new.fields.items():
                    ov = old.fields.get(f)
                    if v is ov:
                        self.obl('%s.%s' % (label, f), tm.TRUE)
                    elif f == 'data':
                        i = tm.fresh('i', 'I')
                        self.same(label + '.data[*]', v.at(k, i), ov.at(k, i), hy + [tm.le(CI(0), i), tm.lt(i, old.npts(k))])
                    elif f in allow:
                        self.obl('%s.%s (annotation)' % (label, f), tm.TRUE)
                    else:
                        if ov is None:
                            ov = Arr((old.n,), lambda kk, f=f: tm.uf('%s.%s' % (old.name, f), [kk], v.at(kk).sort))
                        self.same('%s.%s' % (label, f), v.at(k), ov.at(k), hy)
            elif isinstance(old, ORec):
                for f in new.fields:
                    if f not in old.fields:
                        self.fail(label, 'attribute %s added' % f)
                    elif new.fields[f] is not old.fields[f]:
                        self.same('%s.%s' % (label, f), new.fields[f], old.fields[f])
            else:
                self.fail(label, 'changed')

    # ---------------------------------------------------------- summary
    def summary(self):
        ok = [r for r in self.results if r['status'] == 'proved']
        return {'property': self.prop, 'obligations': len(self.results), 'discharged': len(ok),
                'failed': [r for r in self.results if r['status'] != 'proved'],
                'unsupported': self.unsupported, 'functions': self.functions,
                'contracts': sorted(self.contracts_used), 'assumptions': sorted(self.assumptions),
                'vacuity': self.vacuity, 'stats': dict(smt.STATS), 'cross': summarise_cross(),
                'times': getattr(self, 'times', {}), 'wall_s': round(time.time() - self.t0, 2), 'library': sorted(self.library), 'trusted': sorted(self.trusted),
                'z3': z3.get_version_string(),
                'names': [r['obligation'] for r in self.results]}


def summarise_cross():
    d = {}
    for r in smt.CROSSLOG:
        d[r] = d.get(r, 0) + 1
    return d


LIBSYM = ('read(', 'travel_times(', 'TauPyModel', 'read_events', 'read_rf', 'glob', 'sorted', 'roundn', 'float', 'str.', 'pg', 'obspyfilter',
          'locations2degrees', 'gps2dist', 'degrees2kilometers', 'kilometer2degrees', 'resource', 'exists', 'sorted.item', 'preferred_')
_LS = {}


def libsyms(t):
    """uninterpreted library functions that occur in t"""
    todo, seen = [t], set()
    if t.id in _LS:
        return _LS[t.id]
    out = set()
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'uf' and isinstance(x.args[0], str) and x.args[0].startswith(LIBSYM):
            out.add(x.args[0])
        for y in x.args:
            if isinstance(y, T):
                todo.append(y)
            elif isinstance(y, tuple):
                if x.op == 'poly':
                    todo += [z for z, _ in y[0]]
                else:
                    todo += [z for z in y if isinstance(z, T)]
    _LS[t.id] = out
    return out


class Expand:
    """lists evaluated element by element under an interpretation"""
    LIM = 40

    def __init__(self, e, L, st):
        self.e, self.L, self.st = e, L, st

    def same(self, a, b):
        return self.eq(self.val(a), self.val(b))

    def rope(self, r, out):
        for s in r.segs:
            if len(out) > 400:
                raise evalterm.Undefined('too large')
            if s[0] == 'item':
                out.append(self.val(s[1]))
            elif s[0] in ('rep', 'sym'):
                n = self.e.ev(s[1])
                if n > self.LIM:
                    raise evalterm.Undefined('too large')
                for q in range(int(n)):
                    v = s[2](CI(q))
                    if s[0] == 'sym':
                        out.append(self.val(v))
                    else:
                        self.rope(v, out)
            elif s[0] == 'cond':
                if self.e.ev(s[1]):
                    self.rope(s[2] if isinstance(s[2], Rope) else Rope(s[2]), out)
            else:
                raise evalterm.Undefined('list')
        return out

    def val(self, v):
        v = v if isinstance(v, (Rope, dict)) else self.L.I.res(v, self.st)
        if isinstance(v, T):
            return self.e.ev(v)
        if isinstance(v, str):
            return self.e.ev(tm.strc(v))
        if isinstance(v, LRef):
            v = self.st.heap[v.lid]
        if isinstance(v, Rope):
            return self.rope(v, [])
        if isinstance(v, Tup):
            return [self.val(x) for x in v.items]
        if isinstance(v, DRef):
            v = self.st.heap[v.did]
        if isinstance(v, dict):
            return {k: self.val(x) for k, x in v.items()}
        if isinstance(v, FObj):
            return {k: self.val(x) for k, x in v.fields.items()}
        if isinstance(v, Opt):
            return None if self.e.ev(v.isnone) else self.val(v.val)
        if isinstance(v, Choice):
            return self.val(v.a if self.e.ev(v.c) else v.b)
        if isinstance(v, Opq):
            return self.e.ev(v.term)
        if isinstance(v, Cx):
            return [self.e.ev(v.re), self.e.ev(v.im)]
        if isinstance(v, (Arr, ARef)):
            a = self.L.arr(v, self.st)
            import itertools
            sh = [int(self.e.ev(s)) for s in a.shape]
            if any(s > self.LIM or s < 0 for s in sh):
                raise evalterm.Undefined('too large')
            return [sh] + [self.val(a.at(*[CI(i) for i in ix])) for ix in itertools.product(*[range(s) for s in sh])]
        if v is None:
            return None
        return SKIP

    def eq(self, a, b):
        if a is SKIP or b is SKIP:
            return True
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return all(k in a and self.eq(a[k], b[k]) for k in b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))
        return a == b


SKIP = object()


def nested(r):
    return not all(s[0] in ('item', 'sym') and not isinstance(s[1], FObj) for s in r.segs)


def canon(r):
    out = []
    for s in r.segs:
        if s[0] == 'sym':
            s = ('rep', s[1], lambda k, f=s[2]: Rope([('item', f(k))]))
        if s[0] == 'cond' and not isinstance(s[2], Rope):
            s = ('cond', s[1], Rope(s[2]))
        if s[0] == 'rep' and not canon(s[2](tm.fresh('e', 'I'))) or s[0] == 'cond' and not canon(s[2]):
            continue
        out.append(s)
    return out


def kname(k):
    return k if isinstance(k, str) else str(k)


def kindof(x):
    if isinstance(x, SRec):
        return 'stream ' + x.name
    return type(x).__name__


def short(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + '...'


def tm_show(t):
    try:
        s = str(t)
    except RecursionError:
        return '(large term)'
    return s if len(s) < 4000 else s[:4000] + '...'
