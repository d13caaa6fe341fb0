"""Symbolic execution of the Python sources of /repo (strongest postconditions).

Straight-line code is executed on symbolic values, branches are merged with
if-then-else terms, and every loop over a symbolic range is replaced by its
inductive summary: the body is executed once on a havocked state at a symbolic
iteration k, and the closed forms (counters, accumulators, array writes, list
appends, header annotations, recorded effects) are read off the transfer and
are inductive by construction (base = state before the loop, step = the body).
What cannot be summarised raises Unsupported when (and only when) it is read.
"""
import ast
import os
import itertools
from . import terms as tm
from .terms import T
from . import smt
from .values import (Unsupported, Cx, Poison, Tup, Opt, Arr, ARef, Choice, Buf, LRef, DRef, ORef,
                     StRef, TrRef, StatsRef, Rope, SRec, ORec, Fn, Cls, Lib, Opq, Sl, WhereIdx,
                     isnum, subst_val, has_vars, FObj)

_hid = itertools.count(1)
UNROLL = 16


class RaiseSig(Exception):
    pass


class Bound:
    """bound method of a library object"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class State:
    def __init__(self):
        self.heap = {}
        self.pc = []
        self.eff = []
        self.raised = []        # (conjunction of pc, exception name)
        self.pcset = frozenset()

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.eff = list(self.eff)
        s.raised = list(self.raised)
        return s

    def assume(self, c):
        if c is tm.TRUE:
            return
        if c.op == 'and':
            for a in c.args:
                self.assume(a)
            return
        self.pc.append(c)

    def known(self, c):
        """True / False / None, syntactic"""
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return False
        n = tm.not_(c)
        for p in self.pc:
            if p is c:
                return True
            if p is n:
                return False
        return None

    def alloc(self, content):
        i = next(_hid)
        self.heap[i] = content
        return i


class Frame:
    def __init__(self, module, fn=None, parent=None):
        self.vars = {}
        self.module = module
        self.fn = fn
        self.parent = parent     # closure frame (nested functions / lambdas)

    def copy(self):
        f = Frame(self.module, self.fn, self.parent)
        f.vars = dict(self.vars)
        return f


class Module:
    def __init__(self, name, path, src):
        self.name, self.path = name, path
        self.tree = ast.parse(src)
        self.names = {}


def C(x):
    return tm.const(x)


class Interp:
    def __init__(self, repo_src, contracts=None):
        self.repo_src = repo_src
        self.mods = {}
        self.contracts = contracts or {}
        self.rel = None             # list: loops without closed form are recorded for a lockstep proof
        self.called = set()
        self.assumptions = set()
        self.zero_lag = {}
        self.depth = 0
        from . import lib
        self.lib = lib.Library(self)

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        root = self.root_of(name)
        path = os.path.join(root, *name.split('.')) + '.py'
        if not os.path.exists(path):
            path = os.path.join(root, *name.split('.'), '__init__.py')
        m = Module(name, path, open(path).read())
        self.mods[name] = m
        self.bind_module(m, m.tree.body)
        return m

    def own(self, name):
        return name.split('.')[0] in ('rfsed', 'spec')

    def root_of(self, name):
        if name.split('.')[0] == 'spec':
            return os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        return self.repo_src

    def bind_module(self, m, body):
        for n in body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.names[a.asname] = self.importname(a.name)
                    else:
                        m.names[a.name.split('.')[0]] = self.importname(a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    pk = m.name.split('.')[:-n.level]
                    base = '.'.join(pk + ([base] if base else []))
                for a in n.names:
                    if a.name == '*':
                        if self.own(base):
                            for k, v in self.module(base).names.items():
                                m.names.setdefault(k, v)
                        continue
                    m.names[a.asname or a.name] = self.importfrom(base, a.name)
            elif isinstance(n, ast.FunctionDef):
                m.names[n.name] = Fn(n, m, name=m.name + '.' + n.name)
            elif isinstance(n, ast.ClassDef):
                m.names[n.name] = Cls(n, m)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            m.names[x.id] = ('lazy', n, None)
            elif isinstance(n, (ast.If, ast.Try)):
                self.bind_module(m, n.body)

    def importname(self, name):
        if self.own(name):
            return ('mod', name)
        return Lib(name)

    def importfrom(self, base, name):
        if self.own(base):
            full = base + '.' + name
            p = os.path.join(self.root_of(base), *full.split('.')) + '.py'
            if os.path.exists(p):
                return ('mod', full)
            return ('ref', base, name)
        if base in ('math', 'numpy', 'scipy') and name in ('pi', 'nan', 'inf', 'newaxis'):
            return self.lib.libattr(Lib(base), name, None)
        return Lib(base + '.' + name)

    def modname(self, m, name, st):
        v = m.names[name]
        if isinstance(v, tuple) and v[0] == 'lazy':
            f = Frame(m)
            m.names[name] = Poison('recursive module constant')
            # evaluated in a scratch state: module constants must be immutable values
            val = self.ev(v[1].value, f, st)
            tgt = v[1].targets[0]
            if not (isinstance(tgt, ast.Name) and tgt.id == name):
                raise Unsupported('module-level assignment of ' + name)
            m.names[name] = v
            return val
        if isinstance(v, tuple) and v[0] == 'mod':
            return v
        if isinstance(v, tuple) and v[0] == 'ref':
            return self.modname(self.module(v[1]), v[2], st)
        return v

    # ------------------------------------------------------------ calling
    def call_function(self, modname, fname, args, kwargs, st):
        m = self.module(modname)
        if fname not in m.names:
            raise Unsupported('no function %s.%s' % (modname, fname))
        return self.call(self.modname(m, fname, st), args, kwargs, st)

    def call(self, f, args, kwargs, st):
        f = self.res(f, st)
        if isinstance(f, Fn):
            key = f.name
            if key in self.contracts:
                self.called.add(key + ' (by contract)')
                a = self.bindargs(f, args, kwargs, st)
                return self.contracts[key](self, a, st)
            self.called.add(key)
            return self.run_fn(f, args, kwargs, st)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs, st)
        if isinstance(f, Bound):
            return self.lib.method(f.obj, f.name, args, kwargs, st)
        if isinstance(f, Lib):
            return self.lib.call(f, args, kwargs, st)
        if isinstance(f, tuple) and f and f[0] == 'pyfn':
            return f[1](args, kwargs, st)
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, c, args, kwargs, st):
        bases = [ast.unparse(b) for b in c.node.bases]
        o = ORef(st.alloc(ORec(c, {})))
        init = self.find_method(c, '__init__', st)
        if init is not None:
            self.call(Fn(init[0], init[1], selfv=o, cls=c, name='%s.%s.__init__' % (c.module.name, c.name)), args, kwargs, st)
        return o

    def find_method(self, c, name, st):
        for n in c.node.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return n, c.module
        for b in c.node.bases:
            try:
                v = self.ev(b, Frame(c.module), st)
            except Unsupported:
                continue
            if isinstance(v, Cls):
                r = self.find_method(v, name, st)
                if r:
                    return r
        return None

    def bindargs(self, f, args, kwargs, st):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if f.selfv is not None:
            args = [f.selfv] + args
        if len(args) > len(names) and a.vararg is None:
            raise Unsupported('too many arguments for ' + f.name)
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = Tup(args[len(names):])
        kw = {}
        for k, v in kwargs.items():
            if k in out:
                raise Unsupported('duplicate argument ' + k)
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                out[k] = v
            elif a.kwarg is not None:
                kw[k] = v
            else:
                raise Unsupported('unexpected keyword %s for %s' % (k, f.name))
        if a.kwarg is not None:
            d = st.alloc({k: v for k, v in kw.items()})
            out[a.kwarg.arg] = DRef(d)
        fr = Frame(f.module)
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in out:
                out[n] = self.ev(d, fr, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = self.ev(d, fr, st)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                raise Unsupported('missing argument %s of %s' % (n, f.name))
        return out

    def run_fn(self, f, args, kwargs, st):
        if self.depth > 40:
            raise Unsupported('recursion')
        fr = Frame(f.module, f, f.env)
        if isinstance(f.node, ast.Lambda):
            fr.vars = self.bindargs(f, args, kwargs, st)
            return self.ev(f.node.body, fr, st)
        fr.vars = self.bindargs(f, args, kwargs, st)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(f.node)):
            raise Unsupported('generator')
        self.depth += 1
        base = len(st.pc)
        try:
            outs = self.block(f.node.body, fr, st)
        finally:
            self.depth -= 1
        fin = []
        for kind, val, fr2, s2 in outs:
            if kind == 'return':
                fin.append((val, s2))
            elif kind == 'next':
                fin.append((None, s2))
            elif kind == 'raise':
                pass
            else:
                raise Unsupported('stray ' + kind)
        if not fin:
            raise RaiseSig()
        val, s = fin[-1]
        for v2, s2 in reversed(fin[:-1]):
            fr1, fr2 = Frame(None), Frame(None)
            fr1.vars['r'], fr2.vars['r'] = v2, val
            frm, s = self.merge(fr1, s2, fr2, s, base)
            val = frm.vars['r']
        self.replace(st, s)
        return val

    def replace(self, st, s):
        st.heap, st.pc, st.eff, st.raised = s.heap, s.pc, s.eff, s.raised

    # ------------------------------------------------------------ blocks
    def block(self, stmts, fr, st):
        """-> outcomes [(kind, value, frame, state)]; kind next/return/break/continue/raise"""
        live = [(fr, st)]
        done = []
        for s in stmts:
            nl = []
            for f, x in live:
                try:
                    outs = self.stmt(s, f, x)
                except RaiseSig:
                    continue
                for o in outs:
                    if o[0] == 'next':
                        nl.append((o[2], o[3]))
                    else:
                        done.append(o)
            live = nl
            if not live:
                break
        return done + [('next', None, f, x) for f, x in live]

    def stmt(self, s, fr, st):
        k = type(s).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement ' + k)
        r = m(s, fr, st)
        return r if r is not None else [('next', None, fr, st)]

    def s_Expr(self, s, fr, st):
        self.ev(s.value, fr, st)

    def s_Pass(self, s, fr, st):
        pass

    def s_Global(self, s, fr, st):
        raise Unsupported('global')

    def s_Import(self, s, fr, st):
        m = Module.__new__(Module)
        m.names = {}
        m.name = fr.module.name
        self.bind_module(m, [s])
        for k, v in m.names.items():
            fr.vars[k] = v
        for k in m.names:
            fr.vars[k] = self.modname(m, k, st)
    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, fr, st):
        fr.vars[s.name] = Fn(s, fr.module, env=fr, name=(fr.fn.name if fr.fn else fr.module.name) + '.' + s.name)

    def s_Assign(self, s, fr, st):
        v = self.ev(s.value, fr, st)
        for t in s.targets:
            self.assign(t, v, fr, st)

    def s_AnnAssign(self, s, fr, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr, st), fr, st)

    def s_AugAssign(self, s, fr, st):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.res(self.lookup(t.id, fr, st), st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr, st)
            ix = self.index(t.slice, fr, st)
            old = self.lib.getitem(o, ix, st)
        else:
            o = self.ev(t.value, fr, st)
            old = self.getattr(o, t.attr, st)
        rhs = self.ev(s.value, fr, st)
        old = self.res(old, st)
        if isinstance(old, LRef) and isinstance(s.op, ast.Add):
            self.lib.list_extend(old, rhs, st)
            return
        if isinstance(old, ORef) and st.heap[old.oid].cls == 'Stream' and isinstance(s.op, ast.Add):
            self.lib.list_extend(st.heap[old.oid].fields['traces'], rhs, st)
            return
        new = self.lib.binop(type(s.op).__name__, old, rhs, st)
        if isinstance(old, ARef):
            # in-place update of the same buffer
            na = self.lib.arr(new, st)
            self.lib.write_ref(old, na, st)
            new = old
            if isinstance(t, ast.Name):
                return
        if isinstance(t, ast.Name):
            fr.vars[t.id] = new
        elif isinstance(t, ast.Subscript):
            self.lib.setitem(o, ix, new, st)
        else:
            self.setattr(o, t.attr, new, st)

    def s_Return(self, s, fr, st):
        v = self.ev(s.value, fr, st) if s.value is not None else None
        return [('return', v, fr, st)]

    def s_Break(self, s, fr, st):
        return [('break', None, fr, st)]

    def s_Continue(self, s, fr, st):
        return [('continue', None, fr, st)]

    def s_Raise(self, s, fr, st):
        nm = 'Exception'
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            nm = ast.unparse(e)
        st.raised.append((tm.and_(*st.pc), nm))
        self.lib.raised.append((list(st.pc), nm, list(st.eff)))
        return [('raise', nm, fr, st)]

    def s_Assert(self, s, fr, st):
        c = self.truth(self.ev(s.test, fr, st), st)
        st.assume(c)

    def s_With(self, s, fr, st):
        for it in s.items:
            v = self.ev(it.context_expr, fr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr, st)
        return self.block(s.body, fr, st)

    def s_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            else:
                raise Unsupported('del')

    def s_Try(self, s, fr, st):
        b = self.mkdir_unless(s, fr, st)
        if b is not None:
            return self.s_If(b, fr, st)
        # partial correctness: the protected block is assumed not to raise
        self.assumptions.add('try-body-does-not-raise')
        outs = self.block(s.body + s.orelse, fr, st)
        if s.finalbody:
            r = []
            for o in outs:
                if o[0] == 'next':
                    r += self.block(s.finalbody, o[2], o[3])
                else:
                    r.append(o)
            return r
        return outs

    def mkdir_unless(self, s, fr, st):
        """try: os.mkdir(p) except FileExistsError: pass   is   if not os.path.exists(p): os.mkdir(p)"""
        if not s.handlers:
            return None
        direct = [x for x in ast.walk(ast.Module(s.body, [])) if isinstance(x, ast.Call)]
        calls = []
        for c in direct:
            try:
                f = self.ev(c.func, fr, st)
            except Unsupported:
                continue
            if isinstance(f, Lib) and f.name in ('os.mkdir', 'os.makedirs'):
                calls.append(c)
        if not calls:
            return None
        h = s.handlers
        if (len(calls) == 1 and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and s.body[0].value is calls[0] and len(calls[0].args) == 1
                and not calls[0].keywords and len(h) == 1 and isinstance(h[0].type, ast.Name) and h[0].type.id == 'FileExistsError'
                and not s.finalbody and not s.orelse):
            seen = ast.Call(ast.Name('$exists', ast.Load()), [calls[0].args[0]], [])
            fr.vars['$exists'] = Lib('os.path.exists')
            return ast.copy_location(ast.fix_missing_locations(ast.If(seen, h[0].body, s.body)), s)
        raise Unsupported('directory creation with exception handling')

    # ------------------------------------------------------------ if
    def s_If(self, s, fr, st):
        c = self.truth(self.ev(s.test, fr, st), st)
        k = self.decide(c, st)
        if k is True:
            return self.block(s.body, fr, st)
        if k is False:
            return self.block(s.orelse, fr, st)
        base = len(st.pc)
        f1, s1 = fr.copy(), st.copy()
        f2, s2 = fr.copy(), st.copy()
        s1.assume(c)
        s2.assume(tm.not_(c))
        o1 = self.block(s.body, f1, s1)
        o2 = self.block(s.orelse, f2, s2)
        nx = [o for o in o1 + o2 if o[0] == 'next']
        rest = [o for o in o1 + o2 if o[0] != 'next']
        # the frames of the two branches replace `fr`
        if not nx:
            return rest
        cur = nx[-1]
        mf, ms = cur[2], cur[3]
        for o in reversed(nx[:-1]):
            mf, ms = self.merge(o[2], o[3], mf, ms, base)
        fr.vars = mf.vars
        self.replace(st, ms)
        return rest + [('next', None, fr, st)]

    def decide(self, c, st):
        k = st.known(c)
        if k is not None:
            return k
        if c.op == 'and' and any(st.known(a) is False for a in c.args):
            return False
        if c.op == 'or' and any(st.known(a) is True for a in c.args):
            return True
        if smt.entails(st.pc, c, 400):
            return True
        if smt.entails(st.pc, tm.not_(c), 400):
            return False
        return None

    def merge(self, f1, s1, f2, s2, base):
        suf1, suf2 = s1.pc[base:], s2.pc[base:]
        n = 0
        while n < len(suf1) and n < len(suf2) and suf1[n] is suf2[n]:
            n += 1
        pre = s1.pc[:base + n]
        suf1, suf2 = suf1[n:], suf2[n:]
        c1, c2 = tm.and_(*suf1), tm.and_(*suf2)
        c = c1
        if suf1 and suf2:
            for x in suf1:
                if any(tm.not_(x) is y for y in suf2):
                    c = x
                    break
        m = State()
        m.pc = list(pre)
        m.assume(tm.or_(c1, c2))
        m.raised = s1.raised + [r for r in s2.raised if r not in s1.raised]
        # heap
        for h in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(h), s2.heap.get(h)
            if a is b or b is None:
                m.heap[h] = a
            elif a is None:
                m.heap[h] = b
            else:
                m.heap[h] = self.merge_content(c, a, b, s1, s2, m)
        # effects: common prefix then conditional tails
        i = 0
        while i < len(s1.eff) and i < len(s2.eff) and s1.eff[i] is s2.eff[i]:
            i += 1
        m.eff = s1.eff[:i]
        if s1.eff[i:]:
            m.eff.append(('cond', c, s1.eff[i:]))
        if s2.eff[i:]:
            m.eff.append(('cond', tm.not_(c), s2.eff[i:]))
        f = f1.copy()
        f.vars = {}
        for k in list(f1.vars) + [x for x in f2.vars if x not in f1.vars]:
            if k in f1.vars and k in f2.vars:
                f.vars[k] = self.merge_val(c, f1.vars[k], f2.vars[k], s1, s2, m)
            else:
                v = f1.vars.get(k, f2.vars.get(k))
                und = Poison('possibly unbound ' + k)
                f.vars[k] = Choice(c, v, und) if k in f1.vars else Choice(c, und, v)
        return f, m

    def merge_content(self, c, a, b, s1, s2, m):
        if isinstance(a, Buf) and isinstance(b, Buf):
            if a.arr.ndim == b.arr.ndim:
                return Buf(self.ite_arr(c, a.arr, b.arr), a.ro or b.ro)
        if isinstance(a, Rope) and isinstance(b, Rope):
            if a.concrete() and b.concrete() and len(a.segs) == len(b.segs):
                return Rope([('item', self.merge_val(c, x, y, s1, s2, m)) for x, y in zip(a.items(), b.items())])
            i = 0
            while i < len(a.segs) and i < len(b.segs) and a.segs[i] is b.segs[i]:
                i += 1
            segs = a.segs[:i]
            ra, rb = a.segs[i:], b.segs[i:]
            if ra and len(ra) == len(rb) and all(x[0] == 'item' for x in ra + rb):
                # both branches append the same number of values
                return Rope(segs + [('item', self.merge_val(c, x[1], y[1], s1, s2, m)) for x, y in zip(ra, rb)])
            if a.segs[i:]:
                segs = segs + [('cond', c, Rope([('item', self.freeze(s[1], s1)) if s[0] == 'item' else s for s in a.segs[i:]]))]
            if b.segs[i:]:
                segs = segs + [('cond', tm.not_(c), Rope([('item', self.freeze(s[1], s2)) if s[0] == 'item' else s for s in b.segs[i:]]))]
            return Rope(segs)
        if isinstance(a, dict) and isinstance(b, dict):
            out = {}
            for k in list(a) + [x for x in b if x not in a]:
                if k in a and k in b:
                    out[k] = self.merge_val(c, a[k], b[k], s1, s2, m)
                else:
                    out[k] = Choice(c, a.get(k, Poison('missing key')), b.get(k, Poison('missing key')))
            return out
        if isinstance(a, ORec) and isinstance(b, ORec) and a.cls is b.cls:
            out = {}
            for k in list(a.fields) + [x for x in b.fields if x not in a.fields]:
                if k in a.fields and k in b.fields:
                    out[k] = self.merge_val(c, a.fields[k], b.fields[k], s1, s2, m)
                else:
                    out[k] = Choice(c, a.fields.get(k, Poison('missing attribute')), b.fields.get(k, Poison('missing attribute')))
            return ORec(a.cls, out)
        if isinstance(a, SRec) and isinstance(b, SRec) and a.n is b.n:
            fl = {}
            for k in set(a.fields) | set(b.fields):
                x, y = a.fields.get(k), b.fields.get(k)
                if x is y:
                    fl[k] = x
                elif x is None or y is None:
                    u = self.lib.undef(k, (x or y).ndim)
                    fl[k] = self.ite_arr(c, x or u, y or u)
                else:
                    fl[k] = self.ite_arr(c, x, y)
            npts = a.npts if a.npts is b.npts else (lambda k: tm.ite(c, a.npts(k), b.npts(k)))
            return a.with_(fields=fl, npts=npts)
        return Poison('unmergeable heap content')

    def ite_arr(self, c, a, b):
        if a is b:
            return a
        shape = [tm.ite(c, x, y) for x, y in zip(a.shape, b.shape)]
        return Arr(shape, lambda *i: self.merge_val(c, a.at(*i), b.at(*i), None, None, None))

    def merge_val(self, c, a, b, s1, s2, m):
        if a is b:
            return a
        if isinstance(a, (Opt, Choice)) and s1 is not None:
            a = self.res(a, s1)
        if isinstance(b, (Opt, Choice)) and s2 is not None:
            b = self.res(b, s2)
        if isinstance(a, T) and isinstance(b, T):
            if a.sort == b.sort or (a.sort in 'RIB' and b.sort in 'RIB'):
                if a.sort == 'B' and b.sort != 'B':
                    a = tm.ite(a, C(1), C(0))
                if b.sort == 'B' and a.sort != 'B':
                    b = tm.ite(b, C(1), C(0))
                r = tm.ite(c, a, b)
                if r.op == 'ite' and r.sort in 'RI' and c.fv and all(
                        isinstance(x, str) and x.endswith('.none') for x in c.fv):
                    r = tm.let(r)
                return r
            return Choice(c, a, b)
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, (T, str)) and isinstance(b, (T, str)):
            x, y = self.lib.sterm(a), self.lib.sterm(b)
            if x is not None and y is not None and x.sort == 'S' and y.sort == 'S':
                return tm.ite(c, x, y)
        if isinstance(a, (Cx, T)) and isinstance(b, (Cx, T)) and not (isinstance(a, T) and a.sort not in 'RIB') \
                and not (isinstance(b, T) and b.sort not in 'RIB'):
            x, y = self.lib.cx(a), self.lib.cx(b)
            return Cx(tm.ite(c, x.re, y.re), tm.ite(c, x.im, y.im))
        if a is None and isinstance(b, Opt):
            return Opt(tm.or_(c, b.isnone), b.val)
        if b is None and isinstance(a, Opt):
            return Opt(tm.or_(tm.not_(c), a.isnone), a.val)
        if isinstance(a, Opt) and isinstance(b, Opt):
            return Opt(tm.ite(c, a.isnone, b.isnone), self.merge_val(c, a.val, b.val, s1, s2, m))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_val(c, x, y, s1, s2, m) for x, y in zip(a.items, b.items)])
        if isinstance(a, ARef) and isinstance(b, ARef) and a.bid == b.bid and a.ndim == b.ndim and \
                all(x is y for x, y in zip(a.shape, b.shape)) and repr(a.dims) == repr(b.dims):
            return a
        if isinstance(a, (ARef, Arr)) and isinstance(b, (ARef, Arr)) and a.ndim == b.ndim and m is not None:
            x, y = self.lib.arr(a, s1), self.lib.arr(b, s2)
            return ARef(m.alloc(Buf(self.ite_arr(c, x, y), True)), self.ite_arr(c, x, y).shape)
        if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim:
            return self.ite_arr(c, a, b)
        if isinstance(a, TrRef) and isinstance(b, TrRef) and a.sid == b.sid:
            return TrRef(a.sid, tm.ite(c, a.k, b.k))
        for cls in (LRef, DRef, ORef):
            if isinstance(a, cls) and isinstance(b, cls):
                if vars(a) == vars(b):
                    return a
        if isinstance(a, StRef) and isinstance(b, StRef) and a.sid == b.sid and a.n is b.n and a.imap is b.imap:
            return a
        if isinstance(a, Lib) and isinstance(b, Lib) and a.name == b.name:
            return a
        if isinstance(a, Opq) and isinstance(b, Opq):
            return Opq(tm.ite(c, a.term, b.term), a.kind)
        return Choice(c, a, b)

    # resolve options / choices under the path condition
    def res(self, v, st):
        while True:
            if isinstance(v, Opt):
                k = st.known(v.isnone)
                if k is None and v.isnone.op in ('and', 'or', 'ite', 'not'):
                    k = self.decide(v.isnone, st)
                if k is True:
                    return None
                if k is False:
                    v = v.val
                    continue
                return v
            if isinstance(v, Choice):
                k = st.known(v.c)
                if k is None:
                    k = self.decide(v.c, st)
                if k is True:
                    v = v.a
                    continue
                if k is False:
                    v = v.b
                    continue
                return v
            return v

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            fr.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported('starred target')
            vals = self.lib.unpack(v, len(t.elts), st)
            for x, y in zip(t.elts, vals):
                self.assign(x, y, fr, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr, st)
            self.lib.setitem(o, self.index(t.slice, fr, st), v, st)
        elif isinstance(t, ast.Attribute):
            o = self.res(self.ev(t.value, fr, st), st)
            if isinstance(o, ARef) and t.attr == 'shape' and isinstance(t.value, ast.Name) and o.dims is None:
                # reshaped in place: a new array for this name; any other reference to the old one is refused
                new = self.lib.method(o, 'reshape', [v], {}, st)
                old = st.heap[o.bid]
                if isinstance(old, Buf) and not old.ro:
                    if new is o:
                        return
                    st.heap[o.bid] = Poison('another reference to an array reshaped in place')
                    fr.vars[t.value.id] = new
                    return
            self.setattr(o, t.attr, v, st)
        else:
            raise Unsupported('assignment target')

    def setattr(self, o, name, v, st):
        o = self.res(o, st)
        if isinstance(o, ORef):
            r = st.heap[o.oid]
            f = dict(r.fields)
            f[name] = v
            st.heap[o.oid] = ORec(r.cls, f)
            return
        self.lib.setattr(o, name, v, st)

    def getattr(self, o, name, st):
        o = self.res(o, st)
        if isinstance(o, tuple) and o and o[0] == 'mod':
            m = self.module(o[1])
            if name in m.names:
                return self.modname(m, name, st)
            return self.modname_sub(o[1] + '.' + name)
        if isinstance(o, Lib):
            return self.lib.libattr(o, name, st)
        if isinstance(o, (ORef, FObj)):
            r = st.heap[o.oid] if isinstance(o, ORef) else o
            if isinstance(r, Poison):
                raise Unsupported(r.why)
            if name in r.fields:
                return self.res(r.fields[name], st)
            if isinstance(r.cls, Cls):
                m = self.find_method(r.cls, name, st)
                if m is not None:
                    return Fn(m[0], m[1], selfv=o, cls=r.cls, name='%s.%s.%s' % (m[1].name, r.cls.name, name))
            return self.lib.objattr(o, r, name, st)
        if isinstance(o, Cls):
            m = self.find_method(o, name, st)
            if m is not None:
                decs = [ast.unparse(d) for d in m[0].decorator_list]
                if 'classmethod' in decs:
                    return Fn(m[0], m[1], selfv=o, cls=o, name='%s.%s.%s' % (m[1].name, o.name, name))
                return Fn(m[0], m[1], name='%s.%s.%s' % (m[1].name, o.name, name))
        return self.lib.getattr(o, name, st)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        v = m(e, fr, st)
        return self.res(v, st) if isinstance(v, (Opt, Choice)) else v

    def lookup(self, name, fr, st):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, (Opt, Choice)):
                    v = self.res(v, st)
                if isinstance(v, Poison):
                    raise Unsupported('value of %s: %s' % (name, v.why))
                return v
            f = f.parent
        if name in fr.module.names:
            return self.modname(fr.module, name, st)
        if name in self.lib.BUILTINS:
            return Lib('builtins.' + name)
        raise Unsupported('unbound name ' + name)

    def e_Name(self, e, fr, st):
        return self.lookup(e.id, fr, st)

    def e_Constant(self, e, fr, st):
        v = e.value
        if isinstance(v, bool):
            return tm.boolc(v)
        if isinstance(v, int):
            return C(v)
        if isinstance(v, float):
            return tm.toreal(tm.const(v))
        if isinstance(v, complex):
            return Cx(tm.const(v.real, 'R'), tm.const(v.imag, 'R'))
        if isinstance(v, str) or v is None:
            return v
        if v is Ellipsis:
            return Lib('Ellipsis')
        raise Unsupported('constant %r' % (v,))

    def e_JoinedStr(self, e, fr, st):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(p.value, fr, st)
                spec = ''
                if p.format_spec is not None:
                    sp = self.ev(p.format_spec, fr, st)
                    if not isinstance(sp, str):
                        raise Unsupported('format spec')
                    spec = sp
                parts.append(self.lib.tostr(v, spec, st))
        return self.lib.scat(parts)

    def e_FormattedValue(self, e, fr, st):
        return self.lib.tostr(self.ev(e.value, fr, st), '', st)

    def e_Tuple(self, e, fr, st):
        return Tup(self.elts(e.elts, fr, st))

    def elts(self, es, fr, st):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.lib.concrete_items(self.ev(x.value, fr, st), st)
            else:
                out.append(self.ev(x, fr, st))
        return out

    def e_List(self, e, fr, st):
        return LRef(st.alloc(Rope([('item', v) for v in self.elts(e.elts, fr, st)])))

    def e_Set(self, e, fr, st):
        return Tup(self.elts(e.elts, fr, st))

    def e_Dict(self, e, fr, st):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fr, st)
                if not isinstance(o, DRef):
                    raise Unsupported('dict unpack')
                d.update(st.heap[o.did])
                continue
            kk = self.ev(k, fr, st)
            d[self.lib.key(kk)] = self.ev(v, fr, st)
        return DRef(st.alloc(d))

    def e_Lambda(self, e, fr, st):
        return Fn(e, fr.module, env=fr)

    def e_Attribute(self, e, fr, st):
        return self.getattr(self.ev(e.value, fr, st), e.attr, st)

    def e_Call(self, e, fr, st):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            cls = fr.fn.cls
            return ('super', cls, fr.vars['self'])
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) \
                and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
            args = self.elts(e.args, fr, st)
            kw = self.kwargs(e.keywords, fr, st)
            base = self.ev(fr.fn.cls.node.bases[0], Frame(fr.fn.cls.module), st)
            return self.lib.super_init(base, e.func.attr, fr.vars['self'], args, kw, st)
        f = self.ev(e.func, fr, st)
        args = self.elts(e.args, fr, st)
        return self.call(f, args, self.kwargs(e.keywords, fr, st), st)

    def kwargs(self, kws, fr, st):
        out = {}
        for k in kws:
            if k.arg is None:
                d = self.ev(k.value, fr, st)
                if not isinstance(d, DRef):
                    raise Unsupported('** of non-dict')
                for kk, v in st.heap[d.did].items():
                    out[kk] = v
            else:
                out[k.arg] = self.ev(k.value, fr, st)
        return out

    def e_BinOp(self, e, fr, st):
        a = self.ev(e.left, fr, st)
        b = self.ev(e.right, fr, st)
        return self.lib.binop(type(e.op).__name__, a, b, st)

    def e_UnaryOp(self, e, fr, st):
        v = self.ev(e.operand, fr, st)
        if isinstance(e.op, ast.Not):
            return tm.not_(self.truth(v, st))
        return self.lib.unop(type(e.op).__name__, v, st)

    def e_BoolOp(self, e, fr, st):
        isand = isinstance(e.op, ast.And)
        acc = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr, st)
            last = i == len(e.values) - 1
            if acc is None and last:
                return v
            c = self.truth(v, st)
            if acc is None and c in (tm.TRUE, tm.FALSE):
                if (c is tm.TRUE) != isand:
                    return v if not isinstance(v, T) else c
                continue
            acc = c if acc is None else (tm.and_(acc, c) if isand else tm.or_(acc, c))
        return acc

    def e_Compare(self, e, fr, st):
        l = self.ev(e.left, fr, st)
        acc = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r, fr, st)
            acc.append(self.lib.compare(type(op).__name__, l, rv, st))
            l = rv
        if len(acc) == 1:
            return acc[0]
        return tm.and_(*[self.truth(a, st) for a in acc])

    def e_IfExp(self, e, fr, st):
        c = self.truth(self.ev(e.test, fr, st), st)
        k = self.decide(c, st)
        if k is not None:
            return self.ev(e.body if k else e.orelse, fr, st)
        base = len(st.pc)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(tm.not_(c))
        f1, f2 = Frame(None), Frame(None)
        f1.vars['r'] = self.ev(e.body, fr, s1)
        f2.vars['r'] = self.ev(e.orelse, fr, s2)
        mf, ms = self.merge(f1, s1, f2, s2, base)
        self.replace(st, ms)
        return mf.vars['r']

    def e_Subscript(self, e, fr, st):
        o = self.ev(e.value, fr, st)
        return self.lib.getitem(o, self.index(e.slice, fr, st), st)

    def index(self, s, fr, st):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.ev(x, fr, st)
            return Sl(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple):
            return Tup([self.index(x, fr, st) for x in s.elts])
        return self.ev(s, fr, st)

    def e_Slice(self, s, fr, st):
        return self.index(s, fr, st)

    def e_ListComp(self, e, fr, st):
        return LRef(st.alloc(self.comp(e.elt, e.generators, fr, st)))

    def e_GeneratorExp(self, e, fr, st):
        return self.e_ListComp(e, fr, st)

    def e_SetComp(self, e, fr, st):
        raise Unsupported('set comprehension')

    def e_DictComp(self, e, fr, st):
        if len(e.generators) != 1:
            raise Unsupported('dict comprehension')
        g = e.generators[0]
        items = self.lib.concrete_items(self.ev(g.iter, fr, st), st)
        out = {}
        for it in items:
            f2 = Frame(fr.module, fr.fn, fr)
            self.assign(g.target, it, f2, st)
            if all(self.decide(self.truth(self.ev(c, f2, st), st), st) for c in g.ifs):
                out[self.lib.key(self.ev(e.key, f2, st))] = self.ev(e.value, f2, st)
        return DRef(st.alloc(out))

    def comp(self, elt, gens, fr, st):
        g = gens[0]
        seq = self.lib.seq(self.ev(g.iter, fr, st), st)

        def body(v, s):
            f2 = Frame(fr.module, fr.fn, fr)
            self.assign(g.target, v, f2, s)
            cs = [self.truth(self.ev(c, f2, s), s) for c in g.ifs]
            c = tm.and_(*cs)
            k = self.decide(c, s)
            if k is False:
                return Rope([])
            if k is None:
                s = s.copy()
                s.assume(c)
            if len(gens) > 1:
                r = self.comp(elt, gens[1:], f2, s)
            else:
                r = Rope([('item', self.ev(elt, f2, s))])
            if k is None:
                r = Rope([('cond', c, self.freeze_rope(r, s))])
            return r
        n, get = seq
        if tm.isconst(n) and tm.cval(n) <= UNROLL:
            out = []
            for i in range(int(tm.cval(n))):
                out += body(get(C(i), st), st).segs
            return Rope(out)
        k = tm.fresh('k', 'I')
        s = st.copy()
        s.assume(tm.le(C(0), k))
        s.assume(tm.lt(k, n))
        r = body(get(k, s), s)
        for h, v in st.heap.items():
            if s.heap.get(h) is not v:
                raise Unsupported('comprehension with side effects')
        if len(s.eff) != len(st.eff):
            raise Unsupported('comprehension with effects')
        r = self.freeze_rope(r, s)
        kn = k.args[0]
        return Rope([('rep', n, lambda i, r=r: subst_val(r, {kn: i}))])

    # ------------------------------------------------------------ truth
    def truth(self, v, st):
        v = self.res(v, st)
        if isinstance(v, T):
            if v.sort == 'B':
                return v
            if v.sort in 'RI':
                return tm.not_(tm.eq(v, C(0)))
            if v.sort == 'S':
                return tm.not_(tm.eq(v, tm.strc('')))
        if v is None:
            return tm.FALSE
        if isinstance(v, str):
            return tm.boolc(bool(v))
        if isinstance(v, Tup):
            return tm.boolc(bool(v.items))
        if isinstance(v, (LRef, StRef)):
            return tm.lt(C(0), self.lib.length(v, st))
        if isinstance(v, DRef):
            return tm.boolc(bool(st.heap[v.did]))
        if isinstance(v, (ARef, Arr)) and v.ndim == 0:
            return self.truth(self.lib.arr(v, st).at(), st)
        if isinstance(v, Opt):
            return tm.and_(tm.not_(v.isnone), self.truth_under(v, st))
        if isinstance(v, (ORef, Fn, Cls, Lib)):
            return tm.TRUE
        raise Unsupported('truth of %r' % type(v).__name__)

    def truth_under(self, v, st):
        return self.truth(v.val, st)

    # ------------------------------------------------------------ freezing
    def freeze(self, v, st, depth=0):
        """immutable snapshot of a value"""
        if depth > 12:
            raise Unsupported('cyclic value')
        v = self.res(v, st)
        if isinstance(v, ARef):
            return self.lib.arr(v, st)
        if isinstance(v, LRef):
            return self.freeze_rope(st.heap[v.lid], st, depth)
        if isinstance(v, DRef):
            return {k: self.freeze(x, st, depth + 1) for k, x in st.heap[v.did].items()}
        if isinstance(v, ORef):
            r = st.heap[v.oid]
            return FObj(r.cls, {k: self.freeze(x, st, depth + 1) for k, x in r.fields.items()})
        if isinstance(v, Tup):
            return Tup([self.freeze(x, st, depth + 1) for x in v.items])
        if isinstance(v, Opt):
            return Opt(v.isnone, self.freeze(v.val, st, depth + 1))
        if isinstance(v, Choice):
            return Choice(v.c, self.freeze(v.a, st, depth + 1), self.freeze(v.b, st, depth + 1))
        if isinstance(v, Bound):
            return Poison('bound method')
        if isinstance(v, (TrRef, StRef)) and self.outer is not None and v.sid not in self.outer:
            return self.snap(v, st)
        return v

    outer = None        # heap whose streams stay references when values are frozen (None: all streams)

    def snap(self, v, st):
        """snapshot of a trace (stream) that nothing else can reach"""
        rec = st.heap[v.sid]
        if isinstance(v, StRef):
            return FObj('Stream', {'traces': Rope([('sym', v.n, lambda k: self.snap(TrRef(v.sid, v.idx(k)), st0))])}) if (st0 := st.copy()) else None
        f = {n: a.at(v.k) for n, a in rec.fields.items() if n != 'data'}
        f['npts'] = rec.npts(v.k)
        d = rec.fields['data']
        return FObj('Trace', {'data': Arr((rec.npts(v.k),), lambda i: d.at(v.k, i)), 'stats': FObj('Stats', f)})

    def freeze_rope(self, r, st, depth=0):
        out = []
        for s in r.segs:
            if s[0] == 'item':
                out.append(('item', self.freeze(s[1], st, depth + 1)))
            elif s[0] == 'cond':
                out.append(('cond', s[1], self.freeze_rope(s[2], st, depth + 1)))
            elif s[0] in ('sym', 'rep') and self.outer is not None:
                o, st0 = self.outer, st.copy()

                def again(k, f=s[2], rope=s[0] == 'rep'):
                    keep, self.outer = self.outer, o
                    try:
                        v = f(k)
                        return self.freeze_rope(v, st0, depth + 1) if rope else self.freeze(v, st0, depth + 1)
                    finally:
                        self.outer = keep
                out.append((s[0], s[1], again))
            else:
                out.append(s)
        return Rope(out)

    # ------------------------------------------------------------ effects
    def effect(self, st, name, args, kwargs=None):
        st.eff.append(('item', Tup([name, Tup([self.freeze(a, st) for a in args]),
                                    {k: self.freeze(v, st) for k, v in (kwargs or {}).items()}])))

    # ------------------------------------------------------------ loops
    def filtered(self, v, st):
        """a list of the form [x for .. if c]: (length, condition, element)"""
        v = self.res(v, st)
        r = st.heap[v.lid] if isinstance(v, LRef) else v
        if not isinstance(r, Rope) or len(r.segs) != 1 or r.segs[0][0] != 'rep':
            return None
        n, f = r.segs[0][1], r.segs[0][2]

        def one(q):
            g = f(q)
            if len(g.segs) == 1 and g.segs[0][0] == 'cond' and isinstance(g.segs[0][2], Rope) and len(g.segs[0][2].segs) == 1 and g.segs[0][2].segs[0][0] == 'item':
                return g.segs[0][1], g.segs[0][2].segs[0][1]
            return None
        if one(tm.fresh('q', 'I')) is None:
            return None
        return n, lambda k, x: Tup(list(one(k)))

    def s_For(self, s, fr, st):
        it = self.ev(s.iter, fr, st)
        fl = self.filtered(it, st)
        if fl is not None and not s.orelse and self.rel is None:
            # the loop over the unfiltered sequence whose body is guarded by the condition
            c, x = ast.Name('$keep', ast.Load()), ast.Name('$element', ast.Load())
            seq = fl
            s = ast.copy_location(ast.fix_missing_locations(ast.For(
                ast.Tuple([ast.Name('$keep', ast.Store()), ast.Name('$element', ast.Store())], ast.Store()), s.iter,
                [ast.copy_location(ast.If(c, [ast.copy_location(ast.Assign([s.target], x), s)] + s.body, []), s)], [])), s)
        else:
            seq = self.lib.seq(it, st)
        n, get = seq
        if tm.isconst(n) and tm.cval(n) <= UNROLL:
            outs = self.unroll(s, int(max(tm.cval(n), 0)), get, fr, st)
        else:
            from .loops import summarise, relational
            if self.rel is not None:
                outs = relational(self, s, n, get, fr, st)
            else:
                outs = summarise(self, s, n, get, fr, st)
        if s.orelse:
            r = []
            for o in outs:
                if o[0] == 'next':
                    r += self.block(s.orelse, o[2], o[3])
                else:
                    r.append(o)
            return r
        return outs

    def unroll(self, s, n, get, fr, st):
        done = []
        base = len(st.pc)
        brk = []
        for i in range(n):
            x = get(C(i), st)
            self.assign(s.target, x, fr, st)
            outs = self.block(s.body, fr, st)
            nx = []
            for o in outs:
                if o[0] in ('next', 'continue'):
                    nx.append(o)
                elif o[0] == 'break':
                    brk.append(o)
                else:
                    done.append(o)
            if not nx:
                fr = None
                break
            mf, ms = nx[-1][2], nx[-1][3]
            for o in reversed(nx[:-1]):
                mf, ms = self.merge(o[2], o[3], mf, ms, base)
            fr, st = mf, ms
        res = [('next', None, o[2], o[3]) for o in brk]
        if fr is not None:
            res.append(('next', None, fr, st))
        if len(res) > 1:
            mf, ms = res[-1][2], res[-1][3]
            for o in reversed(res[:-1]):
                mf, ms = self.merge(o[2], o[3], mf, ms, base)
            res = [('next', None, mf, ms)]
        return done + res

    def s_While(self, s, fr, st):
        from .loops import while_loop, relational
        if self.rel is not None:
            return relational(self, s, None, None, fr, st)
        return while_loop(self, s, fr, st)
