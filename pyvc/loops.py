"""Inductive loop summaries."""
import ast
from . import terms as tm
from .terms import T
from . import smt
from .values import (Unsupported, Cx, Poison, Tup, Opt, Arr, ARef, Choice, Buf, LRef, DRef, ORef,
                     StRef, TrRef, StatsRef, Rope, SRec, ORec, Fn, Cls, Lib, Opq, Sl, WhereIdx,
                     isnum, subst_val, has_vars, FObj)

C = tm.const
WHY = []


def assigned(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, ast.FunctionDef):
                out.add(x.name)
    # comprehension variables are local
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.comprehension):
                pass
    return out


def aug_only(nodes):
    aug, plain = set(), set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                aug.add(x.target.id)
    cnt = {}
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                cnt[x.id] = cnt.get(x.id, 0) + 1
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                cnt[x.target.id] = cnt.get(x.target.id, 0) - 1
    return {a for a in aug if cnt.get(a, 0) == 0}


class Cell:
    def __init__(self, key, init):
        self.key, self.init = key, init
        self.toks = []
        self.new = None
        self.pre = None


class TypeChange(Exception):
    def __init__(self, key):
        self.key = key


def rd(tok, idx, sort):
    return tm.uf('rd', [tm.var(tok, 'I')] + list(idx), sort)


def havoc_arr(a, toks, upgrade=None):
    """array with the same shape and unknown content"""
    ks = [tm.fresh('p', 'I') for _ in a.shape]
    try:
        e = a.at(*ks)
    except Unsupported:
        e = None
    if upgrade == 'cx' or isinstance(e, Cx):
        t1, t2 = tm.fresh('pre', 'I').args[0], tm.fresh('pre', 'I').args[0]
        toks += [t1, t2]
        return Arr(a.shape, lambda *i: Cx(rd(t1, i, 'R'), rd(t2, i, 'R')))
    if isinstance(e, T):
        t1 = tm.fresh('pre', 'I').args[0]
        toks.append(t1)
        s = 'R' if (e.sort == 'I') else e.sort
        return Arr(a.shape, lambda *i: rd(t1, i, s))
    if isinstance(e, str):
        t1 = tm.fresh('pre', 'I').args[0]
        toks.append(t1)
        return Arr(a.shape, lambda *i: rd(t1, i, 'S'))
    if e is None:
        def bad(*i):
            raise Unsupported('havocked array of unknown sort')
        return Arr(a.shape, bad)
    raise Unsupported('array of ' + type(e).__name__)


def havoc_val(I, v, cell, st, upgrade):
    v = I.res(v, st)
    if isinstance(v, T) and v.sort in 'RIB':
        s = upgrade or v.sort
        if s == 'cx':
            a, b = tm.fresh('pre', 'R'), tm.fresh('pre', 'R')
            cell.toks += [a.args[0], b.args[0]]
            return Cx(a, b)
        if s not in ('R', 'I', 'B'):
            # a scalar that becomes an array
            a = Arr(s[1], lambda *i: tm.toreal(v))
            return ARef(st.alloc(Buf(havoc_arr(a, cell.toks))), s[1])
        x = tm.fresh('pre', s)
        cell.toks.append(x.args[0])
        return x
    if isinstance(v, Cx):
        a, b = tm.fresh('pre', 'R'), tm.fresh('pre', 'R')
        cell.toks += [a.args[0], b.args[0]]
        return Cx(a, b)
    if isinstance(v, (ARef, Arr)):
        a = I.lib.arr(v, st)
        return ARef(st.alloc(Buf(havoc_arr(a, cell.toks, upgrade), True)), v.shape)
    if isinstance(v, LRef):
        t = tm.fresh('pre', 'I').args[0]
        cell.toks.append(t)
        return LRef(st.alloc(Rope([('pre', t)])))
    if isinstance(v, T) and v.sort == 'S' or isinstance(v, str):
        x = tm.fresh('pre', 'S')
        cell.toks.append(x.args[0])
        return x
    return Poison('loop-carried value')


def contents(I, h):
    """split a heap object into cells: key -> value"""
    if isinstance(h, Buf):
        return {('buf',): h.arr}
    if isinstance(h, Rope):
        return {('list',): h}
    if isinstance(h, dict):
        return {('key', k): v for k, v in h.items()}
    if isinstance(h, ORec):
        return {('fld', k): v for k, v in h.fields.items()}
    if isinstance(h, SRec):
        d = {('sf', k): v for k, v in h.fields.items()}
        d[('npts',)] = h.npts
        return d
    return {('other',): h}


def put(st, hid, key, v):
    h = st.heap[hid]
    if key[0] == 'buf':
        st.heap[hid] = Buf(v, h.ro)
    elif key[0] == 'list':
        st.heap[hid] = v
    elif key[0] == 'key':
        d = dict(h)
        d[key[1]] = v
        st.heap[hid] = d
    elif key[0] == 'fld':
        f = dict(h.fields)
        f[key[1]] = v
        st.heap[hid] = ORec(h.cls, f)
    elif key[0] == 'sf':
        f = dict(h.fields)
        f[key[1]] = v
        st.heap[hid] = h.with_(fields=f)
    else:
        st.heap[hid] = v


def transfer(I, body, bind, fr, st, k, hyps, names, known=None, n=None):
    """run the body once from a havocked state; -> cells, frame, state"""
    mod = {}            # (hid, key) modified
    upgrade = {}
    known = known or {}
    augs = aug_only(body)
    for attempt in range(14):
        s = st.copy()
        f = fr.copy()
        s.eff = []
        cells = {}
        for nm in sorted(names):
            if nm in f.vars:
                if nm in augs and isinstance(I.res(f.vars[nm], s), (ARef, LRef, ORef)):
                    continue
                c = Cell(('var', nm), f.vars[nm])
                if c.key in known:
                    f.vars[nm] = known[c.key](k)
                    continue
                try:
                    c.pre = havoc_val(I, f.vars[nm], c, s, upgrade.get(('var', nm)))
                except Unsupported as e:
                    c.pre = Poison(str(e))
                f.vars[nm] = c.pre
                cells[c.key] = c
        for (hid, key) in sorted(mod, key=repr):
            cur = contents(I, st.heap[hid])
            c = Cell(('heap', hid, key), cur.get(key, mod[(hid, key)]))
            if key[0] == 'buf':
                ar = st.heap[hid].arr
                c.pre = havoc_arr(ar, c.toks, upgrade.get(c.key))
            elif key[0] == 'list':
                t = tm.fresh('pre', 'I').args[0]
                c.toks.append(t)
                c.pre = Rope([('pre', t)])
            elif key[0] in ('key', 'fld'):
                if key in cur:
                    c.pre = havoc_val(I, c.init, c, s, upgrade.get(c.key))
                else:
                    c.init = Poison('unset ' + str(key[1]))
                    c.pre = Poison('loop-carried')
            elif key[0] == 'sf':
                if c.init is None:
                    c.init = I.lib.undef(key[1], 1, st.heap[hid].n)
                c.pre = havoc_arr(c.init, c.toks, upgrade.get(c.key))
            else:
                raise Unsupported('loop modifies heap object')
            put(s, hid, key, c.pre)
            cells[c.key] = c
        start = dict(s.heap)
        for h in hyps:
            s.assume(h)
        bind(f, s)
        outs = I.block(body, f, s)
        nx = [o for o in outs if o[0] in ('next', 'continue')]
        for o in outs:
            if o[0] in ('break', 'return'):
                raise Unsupported(o[0] + ' inside a summarised loop')
        if not nx:
            raise Unsupported('loop body never completes')
        base = len(st.pc) + 0
        mf, ms = nx[-1][2], nx[-1][3]
        for o in reversed(nx[:-1]):
            mf, ms = I.merge(o[2], o[3], mf, ms, base)
        # newly modified cells
        again = False
        for hid in st.heap:
            a, b = start.get(hid), ms.heap.get(hid)
            if a is b:
                continue
            ca, cb = contents(I, a), contents(I, b)
            for key in set(ca) | set(cb):
                if ca.get(key) is not cb.get(key):
                    if (hid, key) not in mod:
                        mod[(hid, key)] = None
                        again = True
        # sort upgrades
        for c in cells.values():
            try:
                newv = final_of(I, c, mf, ms)
            except Unsupported:
                continue
            u = upgraded(I, c, newv, ms)
            if u is not None and upgrade.get(c.key) != u:
                upgrade[c.key] = u
                again = True
        if not again:
            for c in cells.values():
                c.upgrade = upgrade.get(c.key)
                try:
                    c.new = final_of(I, c, mf, ms)
                    if c.new is not c.pre:
                        c.new = freeze_new(I, c.new, ms, st)
                except Unsupported as e:
                    c.new = Poison(str(e))
            return cells, mf, ms
    raise Unsupported('loop havoc does not stabilise')


def freeze_new(I, v, ms, st, depth=0):
    """snapshot of what was allocated inside the iteration; references to older objects are kept"""
    if depth == 0:
        keep, I.outer = I.outer, set(st.heap)
        try:
            return freeze_new(I, v, ms, st, 1)
        finally:
            I.outer = keep
    for cls, at in ((ARef, 'bid'), (LRef, 'lid'), (DRef, 'did'), (ORef, 'oid')):
        if isinstance(v, cls):
            return v if getattr(v, at) in st.heap else I.freeze(v, ms)
    if isinstance(v, Rope):
        return I.freeze_rope(v, ms)
    if isinstance(v, Tup) and depth < 6:
        return Tup([freeze_new(I, x, ms, st, depth + 1) for x in v.items])
    return I.freeze(v, ms)


def final_of(I, c, mf, ms):
    if c.key[0] == 'var':
        v = mf.vars.get(c.key[1], Poison('unbound'))
    else:
        v = contents(I, ms.heap[c.key[1]]).get(c.key[2])
    if isinstance(v, (Opt, Choice)):
        v = I.res(v, ms)
    return v


def upgraded(I, c, newv, st):
    p = c.pre
    if isinstance(p, T) and p.sort in 'IB' and isinstance(newv, T) and newv.sort in 'RI' and newv.sort != p.sort:
        return newv.sort
    if isinstance(p, T) and p.sort in 'RIB' and isinstance(newv, Cx):
        return 'cx'
    if isinstance(p, T) and p.sort in 'RIB' and isinstance(newv, (ARef, Arr)):
        if all(s.fv.isdisjoint(set(c.toks)) for s in newv.shape):
            return ('arr', tuple(newv.shape))
    if isinstance(p, Arr) and isinstance(newv, Arr):
        try:
            ks = [tm.fresh('p', 'I') for _ in p.shape]
            if isinstance(newv.at(*ks), Cx) and not isinstance(p.at(*ks), Cx):
                return 'cx'
        except Unsupported:
            pass
    return None


# ------------------------------------------------------------------ closed forms
def lift(t, out=None, cond=()):
    """leaves of the top-level if-then-else tree"""
    if out is None:
        out = []
    if t.op == 'ite':
        c, a, b = t.args
        lift(a, out, cond + (c,))
        lift(b, out, cond + (tm.not_(c),))
    else:
        out.append((tm.and_(*cond), t))
    return out


def pull_ite(t, depth=0):
    """lift an ite out of a polynomial (one factor at a time)"""
    if t.op != 'poly' or depth > 6:
        return t
    for mon, _c in t.args:
        for a, _e in mon:
            if a.op == 'ite':
                c, x, y = a.args
                return tm.ite(c, pull_ite(tm.map_args(t, lambda z: x if z is a else z), depth + 1),
                              pull_ite(tm.map_args(t, lambda z: y if z is a else z), depth + 1))
    return t


def weaken(t, toks):
    """over-approximate a boolean: literals that mention toks become true"""
    if t.fv.isdisjoint(toks):
        return t
    if t.op == 'and':
        return tm.and_(*[weaken(a, toks) for a in t.args])
    if t.op == 'or':
        return tm.or_(*[weaken(a, toks) for a in t.args])
    return tm.TRUE


def split_lin(p, k):
    """p = A*k + B -> (A, B) or None"""
    A, B = {}, {}
    for mon, c in tm.terms_of(p).items():
        e = 0
        rest = []
        for a, x in mon:
            if a is k:
                e = x
            else:
                if k.args[0] in a.fv:
                    return None
                rest.append((a, x))
        if e == 0:
            B[mon] = c
        elif e == 1:
            A[tuple(rest)] = A.get(tuple(rest), 0) + c
        else:
            return None
    return tm._poly(A, 'I'), tm._poly(B, 'I')


def candidates(w, k):
    out = {}
    for a in tm.atoms(w).values():
        if a.op in ('eq', 'le', 'lt') and k.args[0] in a.fv and a.args[0].sort == 'I':
            r = split_lin(a.args[0], k)
            if r is None:
                continue
            A, B = r
            if tm.isconst(A):
                c = tm.cval(A)
                if c in (1, -1):
                    x = tm.scale(-c, B)
                    out[x.id] = x
                elif c != 0 and c.denominator == 1:
                    x = tm.idiv(tm.neg(B) if c > 0 else B, C(abs(c)))
                    out[x.id] = x
            else:
                for sA, sB in ((A, tm.neg(B)), (tm.neg(A), B)):
                    if len(tm.terms_of(sA)) == 1 and tm.lead_coef(sA) > 0:
                        for off in (0, -1, 1):
                            x = tm.idiv(tm.add(sB, C(off)), sA)
                            out[x.id] = x
        elif a.op == 'uf' and a.args[0] in ('idiv', 'imod') and k.args[0] in a.fv:
            pass
    return list(out.values())


def arr_sorted(v, sort):
    return tm.toreal(v) if sort == 'R' else v


def closed_term_arr(I, tok, sort, newt, idx, k, n, st, init, log):
    """closed form of one array component.
    newt: term of the new content at idx, over rd(tok, .) = content before iteration k.
    -> function (kk, idx) -> T, or None"""
    toks = {tok}
    newt = pull_ite(newt)
    me = rd(tok, idx, sort)
    leaves = lift(newt)
    hyps = list(st.pc) + [tm.le(C(0), k), tm.lt(k, n)]
    W, V = [], None
    acc = []
    for cond, leaf in leaves:
        if cond is tm.FALSE:
            continue
        # rd(tok, J) with J == idx under cond  ->  rd(tok, idx)
        leaf2 = leaf
        for a in tm.atoms(leaf).values():
            if a.op == 'uf' and a.args[0] == 'rd' and a.args[1].args[0] == tok and a is not me:
                J = a.args[2:]
                conj = cond.args if cond.op == 'and' else (cond,)
                if all(x is y or tm.eq(x, y) in conj for x, y in zip(J, idx)):
                    leaf2 = replace(leaf2, a, me)
        if leaf2 is me:
            continue
        if me.id in tm.atoms(leaf2):
            d = tm.sub(leaf2, me) if sort in 'RI' else None
            if d is None or tok in d.fv:
                WHY.append('recurrence in array')
                return None
            acc.append((cond, d))
        else:
            W.append((cond, leaf2))
    if not W and not acc:
        return lambda kk, ix: arr_sorted(init(*ix), sort)
    Wc = tm.or_(*[c for c, _ in W + acc])
    Wk = weaken(Wc, toks)
    kn = k.args[0]

    def self_reads_ok(t, cand):
        """reads of the array itself at J inside iteration k hit locations only k writes"""
        for a in tm.atoms(t, under_lam=True).values():
            if a.op == 'uf' and a.args[0] == 'rd' and a.args[1].args[0] == tok and a is not me:
                J = a.args[2:]
                if cand is None:
                    return False
                # J not written by an earlier iteration: W(k', J) & k' < k impossible
                k2 = tm.fresh('k', 'I')
                w2 = tm.subst(tm.subst(Wk, {kn: k2}), {i.args[0]: j for i, j in zip(idx, J)})
                h = hyps + [tm.le(C(0), k2), tm.lt(k2, k), w2]
                if smt.prove(h, tm.FALSE, 1, 3000)[0] != 'proved':
                    return False
        return True

    def use_init(t):
        return tm.subst(t, {tok: lambda *j: arr_sorted(init(*j), sort)})
    allterms = [c for c, _ in W + acc] + [v for _, v in W] + [d for _, d in acc]
    # (1) every iteration accumulates and conditions do not select single iterations
    if not W and all(tok not in c.fv and tok not in d.fv for c, d in acc):
        if kn not in Wc.fv:
            def f(kk, ix, acc=acc):
                tot = C(0)
                for c, d in acc:
                    v = tm.fresh('q', 'I')
                    dd = tm.subst(d, {kn: v})
                    m = {i.args[0]: j for i, j in zip(idx, ix)}
                    sm = tm.mk_sum(C(0), kk, v, tm.subst(dd, m))
                    tot = tm.add(tot, tm.ite(tm.subst(c, m), sm, C(0)))
                return tm.add(arr_sorted(init(*ix), sort), tot)
            return f
    # (2) single writer
    for cand in candidates(Wk, k):
        if kn in cand.fv:
            continue
        if smt.prove(hyps + [Wk], tm.eq(k, cand), 1, 4000)[0] != 'proved':
            continue
        if not all(self_reads_ok(t, cand) for t in allterms):
            continue

        def f(kk, ix, cand=cand):
            m = {i.args[0]: j for i, j in zip(idx, ix)}
            ini = arr_sorted(init(*ix), sort)
            cd = tm.subst(cand, m)
            mm = dict(m)
            mm[kn] = cd
            r = ini
            for c, v in reversed(W):
                r = tm.ite(tm.subst(use_init(c), mm), tm.subst(use_init(v), mm), r)
            for c, d in reversed(acc):
                r = tm.ite(tm.subst(use_init(c), mm), tm.add(ini, tm.subst(use_init(d), mm)), r)
            return tm.ite(tm.and_(tm.le(C(0), cd), tm.lt(cd, kk)), r, ini)
        return f
    # (3) overwritten at the same places by every iteration
    if not acc and kn not in Wc.fv and all(tok not in t.fv for t in allterms):
        def f(kk, ix):
            m = {i.args[0]: j for i, j in zip(idx, ix)}
            mm = dict(m)
            mm[kn] = tm.sub(kk, C(1))
            r = arr_sorted(init(*ix), sort)
            for c, v in reversed(W):
                r = tm.ite(tm.subst(c, mm), tm.subst(v, mm), r)
            return tm.ite(tm.lt(C(0), kk), r, arr_sorted(init(*ix), sort))
        return f
    # (4) accumulation with iteration-dependent conditions
    if not W and all(tok not in c.fv and tok not in d.fv for c, d in acc):
        def f(kk, ix):
            m = {i.args[0]: j for i, j in zip(idx, ix)}
            tot = C(0)
            for c, d in acc:
                v = tm.fresh('q', 'I')
                mm = dict(m)
                mm[kn] = v
                tot = tm.add(tot, tm.mk_sum(C(0), kk, v, tm.ite(tm.subst(c, mm), tm.subst(d, mm), C(0))))
            return tm.add(arr_sorted(init(*ix), sort), tot)
        return f
    WHY.append('array writes: no single writer for %s' % tm.show(Wk)[:200])
    return None


def replace(t, a, b, deep=False):
    memo = {}

    def go(x):
        if x is a:
            return b
        if x.op in ('var', 'const', 'bv', 'str', 'true', 'false', 'lam') and not (deep and x.op == 'lam'):
            return x
        r = memo.get(x.id)
        if r is None:
            if x.op == 'lam':
                vs, body = tm.open_lam(x)
                r = tm.lam(vs, go(body))
            else:
                r = tm.map_args(x, go)
            memo[x.id] = r
        return r
    return go(t)


def closed_scalar(init, pre, new, k, log=None):
    """-> fn(kk) -> T or None; init, pre, new terms"""
    if new is pre:
        return lambda kk: init
    kn = k.args[0]
    p = pre.args[0]
    if p not in new.fv:
        def f(kk):
            last = tm.subst(new, {kn: tm.sub(kk, C(1))})
            if init.sort == 'S' or last.sort == 'S':
                return tm.ite(tm.eq(kk, C(0)), init, last)
            return tm.ite(tm.eq(kk, C(0)), init, last)
        f.over = True
        return f
    new2 = pull_ite(new)
    if new2.op == 'ite' and pre.sort in 'RI':
        d = None
        lv = lift(new2)
        ok = True
        ds = []
        for c, l in lv:
            x = tm.sub(l, pre)
            if p in x.fv or p in c.fv:
                ok = False
            ds.append((c, x))
        if ok:
            d = C(0)
            for c, x in ds:
                d = tm.add(d, tm.ite(c, x, C(0)))
    elif pre.sort in 'RI':
        d = tm.sub(new2, pre)
        if p in d.fv:
            d = None
    else:
        d = None
    if d is not None:
        def f(kk):
            v = tm.fresh('q', 'I')
            return tm.add(init, tm.mk_sum(C(0), kk, v, tm.subst(d, {kn: v})))
        return f
    # product
    r = tm.div(new2, pre) if pre.sort == 'R' else None
    if r is not None and p not in r.fv:
        if kn not in r.fv:
            return lambda kk: tm.mul(init, tm.uf('pow', [r, kk], 'R'))

        def f(kk):
            v = tm.fresh('q', 'I')
            return tm.mul(init, tm.binder('Prod', C(0), kk, v, tm.subst(r, {kn: v}), 'R'))
        return f
    WHY.append('scalar recurrence')
    return None


def solve(I, cells, k, n, st, ms):
    """closed forms: token -> fn(kk) giving the substitution value for the token.
    returns closed (dict tok -> fn(kk)), cell closed (dict key -> fn(kk)-> value), poisoned"""
    closed = {}
    cellc = {}
    pending = []
    for c in cells.values():
        if isinstance(c.new, Poison):
            c.bad = c.new.why
        pending.append(c)
    dead = set()
    progress = True
    while pending and progress:
        progress = False
        for c in list(pending):
            m = {}
            for t, f in closed.items():
                m[t] = f(k)
            others = set()
            for o in pending:
                if o is not c:
                    others |= set(o.toks)
            try:
                if isinstance(c.new, Poison):
                    raise Unsupported(c.new.why)
                new = subst_val(c.new, m)
                if has_vars(new, dead):
                    raise Unsupported('depends on an unsummarised value')
                if has_vars(new, others):
                    continue
                f = closed_cell(I, c, new, k, n, st, ms)
            except Unsupported as e:
                f = None
                WHY.append(str(e))
            pending.remove(c)
            progress = True
            if f is None:
                dead |= set(c.toks)
                cellc[c.key] = None
                continue
            cellc[c.key] = f
            try:
                for i, t in enumerate(c.toks):
                    tokval(f(k), i, c, I, st, ms)
            except Unsupported as e:
                WHY.append(str(e))
                dead |= set(c.toks)
                continue
            for i, t in enumerate(c.toks):
                closed[t] = (lambda kk, f=f, i=i, c=c: tokval(f(kk), i, c, I, st, ms))
    for c in pending:
        dead |= set(c.toks)
        cellc[c.key] = None
        WHY.append('mutually recursive: %r' % (c.key,))
    return closed, cellc, dead


def tokval(v, i, c, I=None, st=None, ms=None):
    """value substituted for the i-th token of a cell"""
    if isinstance(v, ARef) and I is not None:
        v = I.lib.arr(v, st if v.bid in st.heap else ms)
    if isinstance(v, Choice):
        x, y = tokval(v.a, i, c, I, st, ms), tokval(v.b, i, c, I, st, ms)
        if isinstance(x, T) and isinstance(y, T):
            return tm.ite(v.c, x, y)
        if callable(x) and callable(y):
            return lambda *ix: tm.ite(v.c, x(*ix), y(*ix))
    if isinstance(v, T):
        return v
    if isinstance(v, Cx):
        return (v.re, v.im)[i]
    if isinstance(v, Arr):
        if len(c.toks) == 2:
            def g(*ix):
                e = v.at(*ix)
                e = e if isinstance(e, Cx) else Cx(tm.toreal(e), tm.const(0, 'R'))
                return (e.re, e.im)[i]
            return g
        return lambda *ix: v.at(*ix)
    if isinstance(v, Rope):
        return v
    if isinstance(v, str):
        return tm.strc(v)
    raise Unsupported('closed form of ' + type(v).__name__)


def closed_cell(I, c, new, k, n, st, ms):
    kn = k.args[0]
    init = c.init
    if isinstance(init, (Opt, Choice)):
        init = I.res(init, st)
    pre = c.pre
    if c.new is c.pre:
        return lambda kk: init
    if isinstance(pre, T):
        iv = tm.strc(init) if isinstance(init, str) else init
        nv = tm.strc(new) if isinstance(new, str) else new
        if isinstance(nv, T) and (nv.sort == pre.sort or (nv.sort in 'RI' and pre.sort in 'RI')):
            if pre.sort == 'R':
                iv = tm.toreal(iv)
            return closed_scalar(iv, pre, nv, k)
        return overwritten(I, c, new, k, init, ms)
    if isinstance(pre, Cx) and isinstance(new, (Cx, T)):
        nv = I.lib.cx(new)
        ic = I.lib.cx(init)
        if pre.im.args[0] in nv.re.fv or pre.re.args[0] in nv.im.fv:
            return None
        f1 = closed_scalar(ic.re, pre.re, nv.re, k)
        f2 = closed_scalar(ic.im, pre.im, nv.im, k)
        if f1 is None or f2 is None:
            return None
        return lambda kk: Cx(f1(kk), f2(kk))
    if isinstance(pre, Rope) or (isinstance(pre, LRef)):
        if isinstance(pre, LRef):
            if not isinstance(new, Rope):
                return overwritten(I, c, new, k, init, ms)
            init = st.heap[init.lid]
        t = c.toks[0]
        segs = new.segs
        if segs and segs[0][0] == 'pre' and segs[0][1] == t:
            tail = Rope(segs[1:])
            if has_vars(tail, {t}):
                return None
            ini = init
            return lambda kk: Rope(ini.segs + ([('rep', kk, lambda q: subst_val(tail, {kn: q}))] if tail.segs else []))
        if has_vars(new, {t}):
            return None
        return overwritten(I, c, new, k, init, ms)
    if isinstance(pre, (Arr, ARef)):
        if isinstance(new, Arr):
            na = new
        else:
            return overwritten(I, c, new, k, init, ms)
        if isinstance(init, T):
            iv = init
            shape = c.upgrade[1] if isinstance(c.upgrade, tuple) else na.shape
            ia = Arr(shape, lambda *i: tm.toreal(iv))
        else:
            ia = I.lib.arr(init, st)
        # resolved tokens of other cells are already substituted in `new` only if it was an Arr
        return closed_arr(I, c, ia, na, k, n, st)
    return overwritten(I, c, new, k, init, ms)


def closed_arr(I, c, ia, na, k, n, st):
    if na.ndim != ia.ndim:
        return overwritten(I, c, na, k, ia, None)
    if not all(x is y for x, y in zip(na.shape, ia.shape)):
        if all(s.fv.isdisjoint(set(c.toks)) for s in na.shape) and not has_vars(na, set(c.toks)):
            return overwritten(I, c, na, k, ia, None)
        if not all(x is y or smt.entails(st.pc, tm.eq(x, y)) for x, y in zip(na.shape, ia.shape)):
            return None
    idx = [tm.fresh('x', 'I') for _ in ia.shape]
    e = na.at(*idx)
    if len(c.toks) == 2:
        e = I.lib.cx(e)
        out = []
        for j, t in enumerate(c.toks):
            other = c.toks[1 - j]
            term = (e.re, e.im)[j]
            if other in term.fv:
                WHY.append('complex recurrence')
                return None
            ini = lambda *ix, j=j: (lambda z: (z.re, z.im)[j])(I.lib.cx(ia.at(*ix)))
            f = closed_term_arr(I, t, 'R', term, idx, k, n, st, ini, None)
            if f is None:
                return None
            out.append(f)
        return lambda kk: Arr(ia.shape, lambda *ix: Cx(out[0](kk, ix), out[1](kk, ix)))
    if not c.toks:
        return None
    if isinstance(e, str):
        e = tm.strc(e)
    if not isinstance(e, T):
        return None
    tok = c.toks[0]
    sort = 'R'
    for a in tm.atoms(e, under_lam=True).values():
        if a.op == 'uf' and a.args[0] == 'rd' and a.args[1].args[0] == tok:
            sort = a.sort
    if e.sort in 'SUB':
        sort = e.sort

    def ini(*ix):
        z = ia.at(*ix)
        return tm.strc(z) if isinstance(z, str) else z
    if sort == 'R':
        e = tm.toreal(e)
    f = closed_term_arr(I, tok, sort, e, idx, k, n, st, ini, None)
    if f is None:
        return None
    return lambda kk: Arr(ia.shape, lambda *ix: f(kk, ix))


def overwritten(I, c, new, k, init, ms):
    if has_vars(new, set(c.toks)):
        return None
    kn = k.args[0]
    fz = new

    def f(kk):
        last = subst_val(fz, {kn: tm.sub(kk, C(1))})
        return Choice(tm.eq(kk, C(0)), init, last)
    return f


# ------------------------------------------------------------------ for
def thaw(I, v, st):
    if isinstance(v, Arr):
        return ARef(st.alloc(Buf(v, True)), v.shape)
    if isinstance(v, Rope):
        return LRef(st.alloc(v))
    if isinstance(v, FObj):
        return ORef(st.alloc(ORec(v.cls, {k: thaw(I, x, st) for k, x in v.fields.items()})))
    if isinstance(v, dict):
        return DRef(st.alloc({k: thaw(I, x, st) for k, x in v.items()}))
    if isinstance(v, Tup):
        return Tup([thaw(I, x, st) for x in v.items])
    if isinstance(v, Choice):
        return Choice(v.c, thaw(I, v.a, st), thaw(I, v.b, st))
    return v


def same_ref(a, b):
    if a is b:
        return True
    return type(a) is type(b) and isinstance(a, (LRef, ORef, DRef)) and a.__dict__ == b.__dict__


def finish(I, cells, closed, cellc, dead, names, k, n, fr, st, mf, ms):
    kn = k.args[0]
    nz = tm.eq(n, C(0))
    z = st.known(nz)
    if z is None:
        if smt.entails(st.pc, tm.lt(C(0), n)):
            z = False
        elif smt.entails(st.pc, tm.le(n, C(0))):
            z = True
    if z is False:
        st.assume(tm.lt(C(0), n))

    def simp(v):
        """drop the zero-iteration alternative when the loop is known to run"""
        if z is False and isinstance(v, T):
            return prune(v, nz)
        if isinstance(v, Choice) and v.c is nz:
            if z is False:
                return v.b
            if z is True:
                return v.a
        return v
    m_last = None

    def last():
        nonlocal m_last
        if m_last is None:
            m_last = {t: f(tm.sub(n, C(1))) for t, f in closed.items()}
            m_last[kn] = tm.sub(n, C(1))
        return m_last
    for c in cells.values():
        f = cellc.get(c.key)
        if f is None:
            v = Poison('loop value not summarised (%s)' % (WHY[-1] if WHY else ''))
        else:
            try:
                v = simp(f(n))
            except Unsupported as e:
                v = Poison(str(e))
        if c.key[0] == 'var':
            st_v = v
            if isinstance(c.init, (ARef, LRef)) and isinstance(v, (Arr, Rope)):
                st_v = thaw(I, v, st)
            elif not isinstance(v, Poison):
                st_v = thaw(I, v, st)
            fr.vars[c.key[1]] = st_v
        else:
            _, hid, key = c.key
            if isinstance(v, Poison):
                if key[0] in ('buf', 'sf'):
                    sh = c.pre.shape

                    def bad(*i, why=v.why):
                        raise Unsupported(why)
                    v = Arr(sh, bad)
                elif key[0] == 'list':
                    v = Rope([('pre', 'unsummarised')])
            if isinstance(v, Choice) and key[0] == 'buf':
                a, b = v.a, v.b
                v = I.ite_arr(v.c, I.lib.arr(a, st), I.lib.arr(b, st))
            if key[0] in ('key', 'fld'):
                v = thaw(I, v, st)
            put(st, hid, key, v)
    # names first bound inside the loop
    for nm in names:
        if ('var', nm) in cells:
            continue
        if nm not in mf.vars:
            continue
        if nm in fr.vars and same_ref(fr.vars[nm], mf.vars[nm]):
            continue
        try:
            v = mf.vars[nm]
            fz = freeze_new(I, I.res(v, ms), ms, st)
            if has_vars(fz, dead):
                raise Unsupported('depends on an unsummarised value')
            v = thaw(I, subst_val(fz, last()), st)
        except Unsupported as e:
            v = Poison(str(e))
        if z is True:
            v = Poison('unbound (empty loop)')
        elif z is None:
            v = Choice(nz, Poison('unbound (empty loop)'), v)
        fr.vars[nm] = v
    # effects
    if ms.eff:
        effs = Rope(ms.eff)
        try:
            if has_vars(effs, dead):
                raise Unsupported('effect depends on an unsummarised value')

            def rep(q):
                m = {t: f(q) for t, f in closed.items()}
                m[kn] = q
                return subst_val(effs, m)
            st.eff.append(('rep', n, rep))
        except Unsupported as e:
            st.eff.append(('item', Tup(['?unsummarised', Tup([str(e)]), {}])))
    for r in ms.raised:
        if r not in st.raised:
            st.raised.append(r)
    return [('next', None, fr, st)]


def prune(v, c):
    """v under the assumption not c"""
    memo = {}

    def go(x):
        if x is c:
            return tm.FALSE
        if x.op in ('var', 'const', 'bv', 'str', 'true', 'false', 'lam'):
            return x
        r = memo.get(x.id)
        if r is None:
            r = tm.map_args(x, go)
            memo[x.id] = r
        return r
    return go(v)


def two_pass(I, body, bind, fr, st, k, n, hyps, names):
    """first pass: closed forms of the scalars; second pass: the body is re-executed with the
    already established closed forms in place of the havocked scalars"""
    cells, mf, ms = transfer(I, body, bind, fr, st, k, hyps, names)
    closed, cellc, dead = solve(I, cells, k, n, st, ms)
    known = {}
    for key, c in cells.items():
        f = cellc.get(key)
        if key[0] == 'var' and f is not None and isinstance(c.pre, T) and c.pre.sort in 'RIB' and not getattr(f, 'over', False):
            known[key] = f
    if not known or not any(c.key[0] == 'heap' for c in cells.values()):
        return cells, mf, ms, closed, cellc, dead
    c2, mf, ms = transfer(I, body, bind, fr, st, k, hyps, names, known, n)
    closed2, cellc2, dead2 = solve(I, c2, k, n, st, ms)
    for key, f in known.items():
        c2[key] = cells[key]
        cellc2[key] = f
    return c2, mf, ms, closed2, cellc2, dead2


def summarise(I, s, n, get, fr, st):
    k = tm.fresh('k', 'I')
    names = assigned([s.target] + s.body)
    hyps = [tm.le(C(0), k), tm.lt(k, n)]
    if smt.entails(st.pc, tm.le(n, C(0)), 300):
        return [('next', None, fr, st)]

    def bind(f, x):
        I.assign(s.target, get(k, x), f, x)
    cells, mf, ms, closed, cellc, dead = two_pass(I, s.body, bind, fr, st, k, n, hyps, names)
    return finish(I, cells, closed, cellc, dead, names, k, n, fr, st, mf, ms)


def while_loop(I, s, fr, st):
    """while loops whose test is, on the closed forms, an upper bound on the iteration number"""
    k = tm.fresh('k', 'I')
    N = tm.fresh('N', 'I')
    names = assigned(s.body)
    hyps = [tm.le(C(0), k), tm.lt(k, N)]
    test = {}

    def bind(f, x):
        c = I.truth(I.ev(s.test, f, x), x)
        test['c'] = c
        x.assume(c)
    cells, mf, ms = transfer(I, s.body, bind, fr, st, k, hyps, names)
    closed, cellc, dead = solve(I, cells, k, N, st, ms)
    c = tm.subst(test['c'], {t: f(k) for t, f in closed.items()})
    if not c.fv.isdisjoint(dead):
        raise Unsupported('while test depends on an unsummarised value')
    if c.op not in ('le', 'lt'):
        raise Unsupported('while test')
    r = split_lin(c.args[0], k) if c.args[0].sort == 'I' else None
    if r is None or not tm.isconst(r[0]) or tm.cval(r[0]) <= 0:
        raise Unsupported('while test is not a bound on the iteration number')
    A, B = r
    # A*k + B <= 0  <=>  k <= floor(-B/A)
    bound = tm.add(tm.idiv(tm.neg(B), A), C(1)) if c.op == 'le' else tm.neg(tm.idiv(B, A))
    n = bound
    if not smt.entails(st.pc, tm.le(C(0), n)):
        n = tm.ite(tm.lt(C(0), n), n, C(0))
    if s.orelse:
        raise Unsupported('while-else')
    nm = {N.args[0]: n}
    if smt.entails(st.pc, tm.le(n, C(0)), 300):
        return [('next', None, fr, st)]
    cl2 = {t: (lambda kk, f=f: subst_any(f(kk), nm)) for t, f in closed.items()}
    cc2 = {key: (None if f is None else (lambda kk, f=f: subst_val(f(kk), nm))) for key, f in cellc.items()}
    known = {key: cc2[key] for key, c in cells.items()
             if key[0] == 'var' and cc2.get(key) is not None and isinstance(c.pre, T) and c.pre.sort in 'RIB' and not getattr(cellc[key], 'over', False)}
    if known and any(c.key[0] == 'heap' for c in cells.values()):
        hyps = [tm.le(C(0), k), tm.lt(k, n)]
        c2, mf, ms = transfer(I, s.body, bind, fr, st, k, hyps, names, known, n)
        cl2, cc3, dead = solve(I, c2, k, n, st, ms)
        for key, f in known.items():
            c2[key] = cells[key]
            cc3[key] = f
        cells, cc2 = c2, cc3
    out = finish(I, cells, cl2, cc2, dead, names, k, n, fr, st, mf, ms)
    return out


def subst_any(v, m):
    if callable(v) and not isinstance(v, T):
        return lambda *a: subst_any(v(*a), m)
    return subst_val(v, m)


class RelLoop:
    """a loop replaced by an arbitrary state it may be left in: cells with initial, assumed and next value, the test"""

    def __init__(self, cells, guard, hyps, label):
        self.cells, self.guard, self.hyps, self.label = cells, guard, hyps, label


class RelCell:
    def __init__(self, key, init, pre, new, toks):
        self.key, self.init, self.pre, self.new, self.toks = key, init, pre, new, toks

    def name(self):
        return self.key[1] if self.key[0] == 'var' else '%s%s' % (self.key[0], self.key[-1])


def unsummarised(fr, st, names):
    for nm in names:
        v = fr.vars.get(nm)
        if isinstance(v, Poison) and 'not summarised' in v.why:
            return True
    return any(isinstance(h, Rope) and any(x[0] == 'pre' for x in h.segs) for h in st.heap.values())


def relational(I, s, n, get, fr, st):
    """closed form if there is one; otherwise the loop is recorded (I.rel) and left in an arbitrary state that satisfies
    the negated test; facts about that state are proved afterwards by coupling with the loop of the specification"""
    rel, I.rel = I.rel, None
    fr2, st2 = fr.copy(), st.copy()
    try:
        outs = summarise(I, s, n, get, fr2, st2) if n is not None else while_loop(I, s, fr2, st2)
        names = assigned(s.body + ([s.target] if n is not None else []))
        ok = len(outs) == 1 and not unsummarised(outs[0][2], outs[0][3], names) and not relheap(I, st, outs[0][3])
    except Unsupported:
        ok = False
    finally:
        I.rel = rel
    if ok:
        return outs
    I.rel = None
    try:
        k = tm.fresh('pre', 'I')
        names = assigned(s.body + ([s.target] if n is not None else []))
        hyps = [tm.le(C(0), k)]
        test = {}

        def bind(f, x):
            if n is None:
                c = I.truth(I.ev(s.test, f, x), x)
            else:
                c = tm.lt(k, n)
                I.assign(s.target, get(k, x), f, x)
            test['c'] = c
            x.assume(c)
        cells, mf, ms = transfer(I, s.body, bind, fr, st, k, hyps, names)
        out = [RelCell(('idx', 'iteration'), C(0), k, tm.add(k, C(1)), [k.args[0]])]
        for c in cells.values():
            if isinstance(c.pre, Poison) or isinstance(c.init, Poison):
                continue
            try:
                init = I.freeze(c.init, st)
                pre = I.freeze(c.pre, ms) if c.key[0] == 'var' else c.pre
            except Unsupported:
                continue
            out.append(RelCell(c.key, init, pre, c.new, c.toks))
        if ms.eff and len(ms.eff):
            raise Unsupported('effects inside a relational loop')
        rec = RelLoop(out, test['c'], [p for p in ms.pc if p not in st.pc], 'loop at line %d' % s.lineno)
        for c in cells.values():
            if c.key[0] == 'var':
                v = c.pre
                if not isinstance(v, Poison):
                    v = thaw(I, I.freeze(v, ms), st)
                fr.vars[c.key[1]] = v
            else:
                put(st, c.key[1], c.key[2], c.pre)
        for nm in names:
            if ('var', nm) not in cells:
                fr.vars[nm] = Poison('bound inside a relational loop')
        st.assume(tm.le(C(0), k))
        if n is None:
            c = I.truth(I.ev(s.test, fr, st), st)
            st.assume(tm.not_(c))
        else:
            st.assume(tm.or_(tm.eq(k, n), tm.and_(tm.lt(n, C(0)), tm.eq(k, C(0)))))
    finally:
        I.rel = rel
    I.rel.append(rec)
    return [('next', None, fr, st)]


def relheap(I, st, st2):
    """some array content is unknown after the summary"""
    for hid, h in st.heap.items():
        h2 = st2.heap.get(hid)
        if h2 is h or not isinstance(h2, Buf):
            continue
        try:
            h2.arr.at(*[tm.fresh('p', 'I') for _ in h2.arr.shape])
        except Unsupported:
            return True
    return False
