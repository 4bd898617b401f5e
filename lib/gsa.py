"""Gated value graphs: every SSA value of a normalised function becomes a decision diagram over canonical
branch predicates with canonical terms at the leaves (phis are gated by the control dependences that select
them, loads by the memory definitions that reach them).  Two values are equal when their diagrams agree leaf
by leaf under the interval domain of absint; nothing is executed and no solver is involved."""
import random, math, os
from fractions import Fraction
from ir import *
import ir
from absint import *
import absint

class TooBig(Exception): pass

class DD(object):
    """decision diagrams over one predicate order"""
    def __init__(self, cap=20000):
        self.preds = []; self.index = {}; self.uniq = {}; self.leaves = {}; self.cap = cap
    def leaf(self, t):
        r = self.leaves.get(t)
        if r is None: r = self.leaves[t] = ('L', t)
        return r
    def node(self, k, hi, lo):
        if hi is lo: return hi
        key = (k, id(hi), id(lo)); r = self.uniq.get(key)
        if r is None:
            if len(self.uniq) > self.cap: raise TooBig()
            r = self.uniq[key] = ('N', k, hi, lo)
        return r
    def var(self, p):
        k = self.index.get(p)
        if k is None: k = self.index[p] = len(self.preds); self.preds.append(p)
        return self.node(k, self.T, self.F)
    @property
    def T(self): return self.leaf(('i', 1))
    @property
    def F(self): return self.leaf(('i', 0))
    def apply(self, f, ds):
        memo = {}
        def go(ds):
            key = tuple(id(d) for d in ds); r = memo.get(key)
            if r is not None: return r
            ks = [d[1] for d in ds if d[0] == 'N']
            if not ks:
                r = f(*[d[1] for d in ds])
                if r[0] not in ('L', 'N'): r = self.leaf(r)
            else:
                k = min(ks)
                hi = go([d[2] if d[0] == 'N' and d[1] == k else d for d in ds])
                lo = go([d[3] if d[0] == 'N' and d[1] == k else d for d in ds])
                r = self.ite(self.node(k, self.T, self.F), hi, lo)
            memo[key] = r
            if len(memo) > self.cap: raise TooBig()
            return r
        return go(list(ds))
    def ite(self, c, a, b):
        if c is self.T: return a
        if c is self.F: return b
        if a is b: return a
        memo = {}
        def go(c, a, b):
            if c is self.T: return a
            if c is self.F: return b
            if a is b: return a
            key = (id(c), id(a), id(b)); r = memo.get(key)
            if r is not None: return r
            k = min(d[1] for d in (c, a, b) if d[0] == 'N')
            g = lambda d, j: d[j] if d[0] == 'N' and d[1] == k else d
            r = self.node(k, go(g(c, 2), g(a, 2), g(b, 2)), go(g(c, 3), g(a, 3), g(b, 3)))
            memo[key] = r
            return r
        return go(c, a, b)
    def neg(self, c): return self.ite(c, self.F, self.T)
    def conj(self, a, b): return self.ite(a, b, self.F)
    def disj(self, a, b): return self.ite(a, self.T, b)

INTKIND = ('s', 'u')
def canon_cmp(t, keepnan=False):
    """(predicate, positive?)"""
    _, q, rel, c, kind = t
    if kind == 'fu' and keepnan:
        p, pos = canon_cmp(neg_cmp(t), True); return p, not pos
    if kind == 'fo' and keepnan: return ('cmp', q, rel, c, 'fo'), True
    if kind[0] != 'f':
        kind = 's'
        if rel == '>=': return ('cmp', q, '<=', c - 1, 's'), False
        if rel == '!=': return ('cmp', q, '==', c, 's'), False
        return ('cmp', q, rel, c, 's'), True
    if rel == '>': return ('cmp', q, '<=', c, 'fo'), False
    if rel == '>=': return ('cmp', q, '<', c, 'fo'), False
    if rel == '!=': return ('cmp', q, '==', c, 'fo'), False
    return ('cmp', q, rel, c, 'fo'), True

class LeafEval(object):
    """evaluates one instruction on leaf terms with the canonicaliser of ir.Fn"""
    def __init__(self, fn):
        self.fn = fn; self.mod = fn.mod; self.val = fn.val; self.loops = {}; self.cur = {}; self.pin = None
    def T(self, o):
        if isinstance(o, dict): return self.fn.const(o)
        return self.cur[o]
    _term = Fn._term; R = Fn.R; fromrat = Fn.fromrat; arith = Fn.arith; cmp = Fn.cmp; addr = Fn.addr; const = Fn.const; canon = Fn.canon; glob_const = Fn.glob_const; callee = Fn.callee; callterm = Fn.callterm; fresh = Fn.fresh; packed = Fn.packed

def isintatom(t, fn):
    if t[0] == 'call' and t[1] in ('floor', 'ceil', 'ftrunc', 'round', 'lround', 'rint'): return True
    if t[0] in ('toint', 'fdivi', 'modi', 'b2i'): return True
    if t[0] == 'load': return t[2] not in ('double', 'float')
    if t[0] == 'arg': return fn.args[t[1]]['ty'] not in ('double', 'float')
    return False
class Gated(object):
    def __init__(self, fn, cap=20000, nan=False):
        self.nan = nan
        self.fn = fn; self.dd = DD(cap); self.vc = {}; self.busy = set(); self.le = LeafEval(fn)
        self.rcs = {}; self.lc = {}; self._fr = {}
        self.chain = {int(k): v for k, v in fn.d.get('mchain', {}).items()}
        self.mdefs = {}
        for i in fn.instrs():
            if 'mdef' in i.d: self.mdefs[i.d['mdef']] = i
        self.loop_of = {}
        for h, body in fn.loops.items():
            for b in body: self.loop_of.setdefault(b, set()).add(h)
        self.dom = object.__new__(AI); self.dom.fn = fn; self.dom.nonan = not nan; self.dom.inputs = None
    # ---- booleans
    def B(self, t):
        dd = self.dd; k = t[0]
        if k == 'i': return dd.T if t[1] & 1 else dd.F
        if k == 'not': return dd.neg(self.B(t[1]))
        if k == 'and':
            r = dd.T
            for x in t[1]: r = dd.conj(r, self.B(x))
            return r
        if k == 'or':
            r = dd.F
            for x in t[1]: r = dd.disj(r, self.B(x))
            return r
        if k == 'cmp':
            # a comparison of a boolean-valued atom with a constant
            p, pos = canon_cmp(t, self.nan)
            if len(p[1]) == 1 and len(p[1][0][0]) == 1 and p[1][0][0][0][1] == 1 and p[1][0][1] == 1:
                a = p[1][0][0][0][0]
                if a[0] == 'b2i' and p[2] in ('==', '<='):
                    d = self.B(a[1])
                    if p[2] == '==': d = d if p[3] == 1 else dd.neg(d) if p[3] == 0 else dd.F
                    else: d = dd.T if p[3] >= 1 else dd.neg(d) if p[3] >= 0 else dd.F
                    return d if pos else dd.neg(d)
            kn = self.decided(p)
            if kn is not None: return dd.T if kn == pos else dd.F
            v = dd.var(p); return v if pos else dd.neg(v)
        if k == 'xor': 
            a, b = self.B(t[1]), self.B(t[2]); return dd.ite(a, dd.neg(b), b)
        if k == 'sel': return dd.ite(self.B(t[1]), self.B(t[2]), self.B(t[3]))
        if k == 'isnan' and not self.nan and self.dom.isnan(t[1], Env()) is False: return dd.F
        if k == 'fcmpinf':
            v = self.inf_decided(t)
            if v is not None: return dd.T if v else dd.F
        if k in ('isnan', 'peq', 'b', 'fcmpinf', 'fpclass'): return dd.var(t)
        if k == 'b2i': return self.B(t[1])
        if k == 'modi' and t[2] == 2: return dd.var(('b', t))
        return dd.var(('b', t))
    kenv = None
    def know(self, conds):
        """facts that hold wherever values are judged: comparisons they settle are not split on"""
        e = Env(); dd = self.dd
        for d in conds:
            while d[0] == 'N':
                if d[3] is dd.F: p, tv, d = dd.preds[d[1]], True, d[2]
                elif d[2] is dd.F: p, tv, d = dd.preds[d[1]], False, d[3]
                else: break
                if p[0] != 'cmp': continue
                n = self.dom.refine(e, p, tv)
                if n is None: return
                e = n
        if e.iv:
            self.kenv = e; self.kmem = {}; self.pmem = {}; self.fn.pin = self.le.pin = self.pin
            self.deadc = {}; self.fn._tc = {}; self.vc = {}; self.rcs = {}; self.lc = {}
    def pin(self, m, x):
        """rounded and absolute values the known facts settle"""
        if (m, x) in self.pmem: return self.pmem[m, x]
        r = None; q = self.fn.R(x)
        if q.is_poly() and q.poly().m:
            p = q.poly(); iv = self.dom.poly_iv(p, self.kenv)
            if m == 'fabs':
                up = iv.lo is not None and iv.lo >= 0; dn = iv.hi is not None and iv.hi <= 0
                if not up and not dn and len(p.m) > 1:
                    try: up = lin_empty(self, self.kenv, [(p, True)]); dn = not up and lin_empty(self, self.kenv, [(p.scale(-1), True)])
                    except (KeyError, TypeError, ValueError, AttributeError): pass
                r = self.fn.canon(x) if up else self.fn.canon(self.fn.fromrat(-q)) if dn else None
            elif iv.lo is not None and iv.hi is not None and iv.hi - iv.lo < 4:
                f = {'floor': math.floor, 'ceil': math.ceil, 'ftrunc': math.trunc}.get(m, lambda z: math.floor(abs(z) + Fraction(1, 2)) * (1 if z >= 0 else -1))
                lo, hi = f(iv.lo), f(iv.hi)
                if m == 'floor' and iv.hx and hi == iv.hi: hi -= 1
                if m == 'ceil' and iv.lx and lo == iv.lo: lo += 1
                if lo == hi: r = ('i', lo)
        self.pmem[m, x] = r
        return r
    def inf_decided(self, t):
        """comparison with an infinite bound of a value known to be bounded"""
        if self.kenv is None or t[1] not in ('oeq', 'une', 'one', 'ueq'): return None
        q = self.fn.R(t[2])
        if not q.is_poly(): return None
        iv = self.dom.poly_iv(q.poly(), self.kenv)
        return None if iv.lo is None or iv.hi is None else t[1] in ('une', 'one')
    def decided(self, p):
        if self.kenv is None or p[0] != 'cmp': return None
        if p in self.kmem: return self.kmem[p]
        r = self.dom.evalb(p, self.kenv)
        if r is None and p[2] in ('<', '<=', '==') and any(sum(e for a, e in m) > 1 for m, v in p[1]):
            s = self.sign(Poly(dict(p[1])) - Poly.const(p[3]))
            if s: r = s < 0 if p[2] != '==' else False
        if r is None and len(p[1]) > 0:
            y, n = self.dom.refine(self.kenv, p, True), self.dom.refine(self.kenv, p, False)
            try:
                if y is None or lin_empty(self, y): r = False
                elif n is None or lin_empty(self, n): r = True
            except (KeyError, TypeError, ValueError, AttributeError): r = None
        self.kmem[p] = r
        return r
    def sign(self, P):
        """sign of a product of factors whose signs are known; 0 if it is not one"""
        if getattr(self, 'sgfacts', None) is None or self.sgfacts[0] is not self.kenv:
            fs = []
            for q, iv in self.kenv.iv.items():
                f = Poly(dict(q))
                if len(q) > 12: continue
                # f - b is positive for a strict lower bound b, negative for a strict upper bound
                iv = self.dom.poly_iv(f, self.kenv)
                if iv.lo is not None and iv.lx: fs.append((f - Poly.const(iv.lo), 1))
                if iv.hi is not None and iv.hx: fs.append((f - Poly.const(iv.hi), -1))
            self.sgfacts = (self.kenv, fs)
        s = 1; n = 0; go = True
        while go and not P.is_const():
            go = False
            for f, sg in self.sgfacts[1]:
                if len(f.m) > len(P.m) + 2 and n == 0 and len(P.m) < 2: continue
                q = ir.exact_div(P, f)
                if q is not None: P = q; s *= sg; n += 1; go = True; break
        if P.is_const(): return 0 if not P.m else s * (1 if P.cval() > 0 else -1)
        if n == 0: return 0
        iv = self.dom.poly_iv(P, self.kenv)
        if iv.lo is not None and (iv.lo > 0 or iv.lo == 0 and iv.lx): return s
        if iv.hi is not None and (iv.hi < 0 or iv.hi == 0 and iv.hx): return -s
        try:
            if lin_empty(self, self.kenv, [(P, False)]): return s
            if lin_empty(self, self.kenv, [(P.scale(-1), False)]): return -s
        except (KeyError, TypeError, ValueError, AttributeError): pass
        return 0
    def boolify(self, d):
        dd = self.dd
        if d[0] == 'L': return d if d is dd.T or d is dd.F else (dd.F if d[1] == ('undef',) else self.B(d[1]) if d[1][0] in ir.BOOLT else dd.var(('b', d[1])))
        return d if all(l in (('i', 0), ('i', 1)) for l in self.leafs(d)) else dd.apply(lambda t: self.boolify(dd.leaf(t)), [d])
    # ---- reach conditions relative to a dominating block
    def rc(self, d, b):
        """condition under which b is reached from its dominator d (back edges ignored)"""
        if b == d: return self.dd.T
        key = (d, b); r = self.rcs.get(key)
        if r is not None: return r
        fn = self.fn; dd = self.dd; c = dd.F
        # iterative over the region to keep the recursion shallow
        todo = [x for x in fn.rpo[fn.rpoidx[d] + 1:fn.rpoidx[b]] if (d, x) not in self.rcs and fn.dominates_blk(d, x) and self.leads(x, b)] + [b]
        for x in todo:
            if (d, x) in self.rcs: continue
            c = dd.F
            for p in fn.pred[x]:
                if p in fn.rpoidx and fn.rpoidx[p] < fn.rpoidx[x] and fn.dominates_blk(d, p):
                    rp = dd.T if p == d else self.rcs.get((d, p))
                    if rp is None: rp = self.rc(d, p)
                    if rp is not dd.F: c = dd.disj(c, dd.conj(rp, self.ec(p, x)))
            self.rcs[(d, x)] = c
        return self.rcs[key]
    def leads(self, x, b):
        """is b forward-reachable from x?"""
        r = self._fr.get(b)
        if r is None:
            fn = self.fn; r = {b}; st = [b]
            while st:
                y = st.pop()
                for p in fn.pred[y]:
                    if p in fn.rpoidx and fn.rpoidx[p] < fn.rpoidx[y] and p not in r: r.add(p); st.append(p)
            self._fr[b] = r
        return x in r
    def reach(self, b): return self.rc(0, b)
    def ec(self, p, s):
        fn = self.fn; dd = self.dd; term = fn.blocks[p][-1]; sc = fn.succ[p]
        if term.op == 'br' and term.ops and len(sc) == 2 and sc[0] != sc[1]:
            c = self.V(term.ops[0]); return c if s == sc[0] else dd.neg(c)
        if term.op == 'switch':
            x = self.V(term.ops[0]); r = dd.F; alls = dd.F
            for c, d in term.d['cases']:
                v = int(c['v'])
                e = dd.apply(lambda t: self.B(mkcmp(fn, fn.R(t) - Rat.const(v), '==', 's', (t, ('i', v)))), [x])
                if d == s: r = dd.disj(r, e)
                alls = dd.disj(alls, e)
            if term.d['dflt'] == s: r = dd.disj(r, dd.neg(alls))
            return r
        return dd.T
    # ---- values
    def ty(self, o):
        if isinstance(o, dict): return 'i%s' % o['w'] if o.get('k') == 'int' else None
        i = self.fn.val.get(o)
        if i is not None: return i.ty
        if o[0] == 'a' and o[1:].isdigit(): return self.fn.args[int(o[1:])]['ty']
        return None
    def V(self, o):
        if isinstance(o, dict): return self.dd.leaf(self.fn.const(o))
        r = self.vc.get(o)
        if r is not None: return r
        i = self.fn.val.get(o)
        if i is None:
            r = self.dd.leaf(self.fn.T(o))
            if self.ty(o) == 'i1': r = self.B(('b', r[1]))
        else:
            if o in self.busy: return self.dd.leaf(('opq', o))
            self.busy.add(o)
            try: r = self._v(i)
            finally: self.busy.discard(o)
            if i.ty == 'i1': r = self.boolify(r)
        self.vc[o] = r
        return r
    def dead(self, b):
        """no admitted input reaches the block"""
        ch = []
        while b not in self.deadc:
            ch.append(b)
            if b == 0: self.deadc[0] = False; break
            b = self.fn.idom[b]
        r = self.deadc[b]
        for x in reversed(ch):
            if not r and x != 0: r = self.rc(self.fn.idom[x], x) is self.dd.F
            self.deadc[x] = r
        return r
    def gate(self, blk, items, val):
        """items: [(x, pred block)] -> gated value of val(x)"""
        fn = self.fn; dd = self.dd; d = fn.idom[blk]
        if self.kenv is not None and self.dead(d): return dd.leaf(('undef',))
        vs = []
        for x, pb in items:
            if pb not in fn.rpoidx: continue
            c = dd.conj(self.rc(d, pb), self.ec(pb, blk))
            if c is not dd.F or not vs and pb == items[-1][1]: vs.append((val(x), c))
        vs = [(v, c) for v, c in vs if v[1] != ('undef',)] or vs[:1]
        if not vs: return dd.leaf(('undef',))
        r = vs[-1][0]
        for v, c in reversed(vs[:-1]): r = dd.ite(c, v, r)
        return r
    def _v(self, i):
        dd = self.dd; op = i.op; fn = self.fn
        if op == 'phi':
            if i.blk in fn.loops:
                r = fn.T(i.n)
                if r[0] == 'phi' and r[1] == i.n: return self.B(('b', r)) if i.ty == 'i1' else dd.leaf(r)
                if i.ty == 'i1': return self.B(r)
                return dd.leaf(('phi', i.n))
            return self.gate(i.blk, list(zip(i.ops, i.d['inc'])), self.V)
        if op == 'select':
            return dd.ite(self.V(i.ops[0]), self.V(i.ops[1]), self.V(i.ops[2]))
        if i.ty == 'i1' and op in ('and', 'or', 'xor'):
            a, b = self.V(i.ops[0]), self.V(i.ops[1])
            return dd.conj(a, b) if op == 'and' else dd.disj(a, b) if op == 'or' else dd.ite(a, dd.neg(b), b)
        if op in ('zext', 'uitofp') and self.ty(i.ops[0]) == 'i1':
            return dd.ite(self.V(i.ops[0]), dd.leaf(('i', 1)), dd.leaf(('i', 0)))
        if op == 'sext' and self.ty(i.ops[0]) == 'i1':
            return dd.ite(self.V(i.ops[0]), dd.leaf(('i', -1)), dd.leaf(('i', 0)))
        if op in ('copy', 'freeze'): return self.V(i.ops[0])
        if op == 'trunc' and i.ty == 'i1':
            return dd.apply(lambda t: self.B(t) if t[0] in ir.BOOLT else self.B(('b', t)), [self.V(i.ops[0])])
        if op == 'icmp' and self.ty(i.ops[0]) == 'i1':
            a, b = self.V(i.ops[0]), self.V(i.ops[1]); x = dd.ite(a, dd.neg(b), b)
            return x if i.d['pred'] == 'ne' else dd.neg(x)
        if op == 'load':
            a = self.V(i.ops[0]); off = 4 if i.d.get('half') else 0
            ver = i.d.get('mclob', -i.d.get('mdef', 0))
            def f(t):
                t = fn.addr(t, off, ()) if off else t
                g = fn.glob_const(t, i.ty)
                if g is not None: return dd.leaf(g)
                return self.load(t, i.ty, ver)
            r = dd.apply(f, [a])
            if i.ty == 'i32': r = dd.apply(lambda t: ('i', (t[1] + (1 << 31)) % (1 << 32) - (1 << 31)) if t[0] == 'i' and abs(t[1]) >= 1 << 31 else t, [r])
            if i.ty == 'i1': r = dd.apply(lambda t: self.B(t) if t[0] in ir.BOOLT else self.B(('b', t)), [r])
            return r
        ops = []
        for o in list(i.ops) + [v for v, s in i.d.get('voff', [])]:
            if isinstance(o, str) and o not in ops: ops.append(o)
        if op in ('call', 'invoke') and i.d.get('callee') and (i.d.get('ro') or i.d.get('rn') or i.d['callee'].startswith('llvm.') or self.pure_math(i)) and i.n:
            def f(*ts):
                self.le.cur = dict(zip(ops, ts)); r = self.le._term(i)
                if r[0] == 'call' and len(r) > 3: r = r[:3] + (self.callver(i, r),)
                return self.B(('b', r)) if i.ty == 'i1' and r[0] not in ir.BOOLT else (self.B(r) if i.ty == 'i1' else dd.leaf(r))
            return dd.apply(f, [self.V(o) for o in ops])
        if op in ('call', 'invoke'):
            return self.B(('b', ('res', i.n))) if i.ty == 'i1' else dd.leaf(('res', i.n))
        if op == 'alloca': return dd.leaf(('alloca', i.n))
        def f(*ts):
            self.le.cur = dict(zip(ops, ts)); r = self.le._term(i)
            if i.ty == 'i1': return self.B(r if r[0] in ir.BOOLT or r[0] == 'sel' else ('b', r))
            return dd.leaf(r)
        return dd.apply(f, [self.V(o) for o in ops])
    def pure_math(self, i):
        nm = self.fn.callee(i)
        return nm in ir.PURE_MATH
    # ---- memory
    def alias(self, a, asz, b, bsz):
        """'must' / 'no' / 'may'"""
        if a == b: return 'must'
        ra, rb = absint.root(a), absint.root(b)
        if ra == rb:
            ao, av = (a[2], a[3]) if a[0] == 'off' else (0, ())
            bo, bv = (b[2], b[3]) if b[0] == 'off' else (0, ())
            if av == bv:
                if ao + asz <= bo or bo + bsz <= ao: return 'no'
                return 'may'
            return 'may'
        ident = ('arg', 'alloca', 'global')
        if ra[0] in ident or rb[0] in ident: return 'no'
        if ra[0] == 'res' and self.fresh(ra) or rb[0] == 'res' and self.fresh(rb): return 'no'
        # element storage of distinct containers
        if ra[0] == 'call' and rb[0] == 'call' and ra[2] and rb[2] and ra[2][0] != rb[2][0] and self.simple_owner(ra[2][0]) and self.simple_owner(rb[2][0]): return 'no'
        return 'may'
    def simple_owner(self, t): return absint.root(t)[0] in ('arg', 'alloca')
    def fresh(self, t): return self.fn.fresh(t)
    SZ = {'double': 8, 'float': 4, 'ptr': 8, 'i64': 8, 'i32': 4, 'i16': 2, 'i8': 1, 'i1': 1}
    def tdis(self, a, b):
        s = {a, b}
        return len(s) == 2 and ('double' in s and s & {'ptr', 'i32', 'i8', 'i1'} or 'ptr' in s and s & {'i32', 'i8', 'i1'})
    def load(self, addr, ty, ver, sz=None):
        key = (addr, ty, ver)
        r = self.lc.get(key)
        if r is not None: return r
        self.lc[key] = self.dd.leaf(('load', addr, ty, ver))   # cycle breaker
        r = self.lc[key] = self._load(addr, ty, ver)
        return r
    def inloop_defs(self, h):
        fn = self.fn; return [i for b in fn.loops[h] for i in fn.blocks[b] if 'mdef' in i.d]
    def _load(self, addr, ty, ver):
        dd = self.dd; fn = self.fn
        sz = self.SZ.get(ty, 8)
        while True:
            if ver <= 0 or ver not in self.chain: return dd.leaf(('load', addr, ty, ver))
            c = self.chain[ver]
            if isinstance(c, list):
                b = fn.memphi[ver]
                if b in fn.loops:
                    if any(self.touch(i, addr, ty, sz) != 'no' for i in self.inloop_defs(b)): return dd.leaf(('load', addr, ty, ver))
                    outs = {v for v, pb in c if pb not in fn.loops[b]}
                    if len(outs) == 1: ver = outs.pop(); continue
                    return self.gate(b, [(v, pb) for v, pb in c if pb not in fn.loops[b]], lambda v: self.load(addr, ty, v))
                return self.gate(b, [(v, pb) for v, pb in c], lambda v: self.load(addr, ty, v))
            i = self.mdefs.get(ver)
            if i is None: ver = c; continue
            if i.op == 'store':
                A = self.V(i.ops[1])
                if A[0] == 'L':
                    k = self.touch(i, addr, ty, sz)
                    if k == 'no': ver = c; continue
                    if k == 'must': return self.V(i.ops[0])
                    return dd.leaf(('load', addr, ty, ver))
                ssz = i.d.get('sz', 8); prev = self.load(addr, ty, c); val = self.V(i.ops[0])
                def f(t):
                    k = self.alias(t, ssz, addr, sz)
                    if k != 'must' and self.tdis(i.d.get('vty'), ty): k = 'no'
                    if k == 'must' and i.d.get('vty') == ty: return self.dd.leaf(('@', 1))
                    return self.dd.leaf(('@', 0 if k == 'no' else 2))
                sel = dd.apply(f, [A])
                unk = dd.leaf(('load', addr, ty, ver))
                m = {('@', 1): val, ('@', 0): prev, ('@', 2): unk}
                return self.mix(sel, m)
            k = self.touch(i, addr, ty, sz)
            if k == 'no': ver = c; continue
            if isinstance(k, tuple): return k[1]()
            return dd.leaf(('load', addr, ty, ver))
    def mix(self, sel, m):
        dd = self.dd
        if sel[0] == 'L': return m[sel[1]]
        return dd.ite(dd.node(sel[1], dd.T, dd.F), self.mix(sel[2], m), self.mix(sel[3], m))
    def leafs(self, d):
        out = []; seen = set(); st = [d]
        while st:
            x = st.pop()
            if id(x) in seen: continue
            seen.add(id(x))
            if x[0] == 'L': out.append(x[1])
            else: st += [x[2], x[3]]
        return out
    def touch(self, i, addr, ty, sz):
        fn = self.fn
        if i.op == 'store':
            ks = set()
            for t in self.leafs(self.V(i.ops[1])):
                k = self.alias(t, i.d.get('sz', 8), addr, sz)
                if k != 'no' and k != 'must' and self.tdis(i.d.get('vty'), ty): k = 'no'
                if k == 'must' and i.d.get('vty') != ty: k = 'may'
                ks.add(k)
            return ks.pop() if len(ks) == 1 else 'may'
        if i.op == 'load': return 'no'
        c = i.d.get('callee') or ''
        if c.startswith('llvm.mem'):
            dst = self.leafs(self.V(i.ops[0])); n = self.leafs(self.V(i.ops[2]))
            if len(dst) == 1 and len(n) == 1 and n[0][0] == 'i':
                k = self.alias(dst[0], n[0][1], addr, sz)
                if k == 'no': return 'no'
                do, dv = (dst[0][2], dst[0][3]) if dst[0][0] == 'off' else (0, ())
                ao, av = (addr[2], addr[3]) if addr[0] == 'off' else (0, ())
                if absint.root(dst[0]) == absint.root(addr) and dv == av and do <= ao and ao + sz <= do + n[0][1]:
                    if c.startswith('llvm.memset'): 
                        z = self.leafs(self.V(i.ops[1]))
                        if z == [('i', 0)]: return ('v', lambda: self.dd.leaf(('null',) if ty == 'ptr' else ('i', 0)))
                        return 'may'
                    src = self.V(i.ops[1])
                    def rd():
                        def f(t):
                            a = fn.addr(t, ao - do, ())
                            g = fn.glob_const(a, ty)
                            return self.dd.leaf(g) if g is not None else self.load(a, ty, self.chain[i.d['mdef']])
                        return self.dd.apply(f, [src])
                    return ('v', rd)
                return 'may'
            if all(self.alias(t, 1 << 30, addr, sz) == 'no' for t in dst): return 'no'
            return 'may'
        if c.startswith('llvm.') or c == '__assert_fail': return 'no'
        if i.d.get('ro') or i.d.get('rn'): return 'no'
        nm = fn.callee(i)
        if re.match(r'(ens|req|use)__', c): return 'no'
        if nm.startswith('operator new') or nm.startswith('operator delete'): return 'no'
        ro = set(i.d.get('roargs', []))
        std = nm.startswith('std::')
        for k, o in enumerate(i.ops):
            if k in ro or self.ty(o) not in ('ptr', None): continue
            for t in self.leafs(self.V(o)):
                if t[0] in ('null', 'fnref', 'i', 'f', 'undef'): continue
                r = absint.root(t)
                if std:
                    if r == absint.root(addr):
                        if addr == t: return 'may'
                        if r[0] == 'alloca': return 'may'
                        to = t[2] if t[0] == 'off' else 0
                        ao = addr[2] if addr[0] == 'off' else 0
                        if t[0] == 'off' and t[3] or addr[0] == 'off' and addr[3]: return 'may'
                        if to <= ao < to + 64 and not self.repo_scalar(addr, to): return 'may'
                    elif absint.root_deep(addr) == r and self.owned_by(addr, t): return 'may'
                else:
                    if r == absint.root(addr):
                        if i.d.get('callee') and t[0] == 'off' and not t[3] and addr[0] != 'arg' and (addr[2] if addr[0] == 'off' else 0) < t[2] and not (addr[0] == 'off' and addr[3]): continue
                        return 'may'
                    if absint.root_deep(addr) == absint.root_deep(t): return 'may'
        if not i.d.get('callee') and absint.root(addr)[0] not in ('alloca',): 
            # unknown virtual call: may change anything reachable from its pointer arguments only
            return 'no'
        return 'no'
    def repo_scalar(self, addr, off):
        """is the field at addr a separate scalar member behind the container at off?  (sizes of the std containers used)"""
        ao = addr[2] if addr[0] == 'off' else 0
        return ao >= off + 24
    def owned_by(self, addr, cont):
        """does the address go through an accessor of the container at cont?"""
        t = addr
        while True:
            if t[0] == 'off': t = t[1]
            elif t[0] == 'load': t = t[1]
            elif t[0] == 'call' and len(t) > 2 and t[2]:
                if t[2][0] == cont: return True
                t = t[2][0]
            else: return False
    def callver(self, i, term):
        """memory version an accessor result depends on, skipping definitions that cannot change the accessed object"""
        fn = self.fn
        if 'mclob' not in i.d: return 0
        args = [a for a in term[2] if a[0] in ('arg', 'off', 'alloca', 'load', 'call', 'res', 'global', 'phi')]
        std = term[1].startswith('std::')
        def cl(j):
            if j.op == 'store':
                if std: return False
                return any(absint.root(t) == absint.root(a) for t in self.leafs(self.V(j.ops[1])) for a in args)
            c = j.d.get('callee') or ''
            if c.startswith('llvm.mem'): return any(absint.root(t) == absint.root(a) for t in self.leafs(self.V(j.ops[0])) for a in args)
            if c.startswith('llvm.') or c == '__assert_fail' or j.d.get('ro') or j.d.get('rn') or re.match(r'(ens|req|use)__', c): return False
            nm = fn.callee(j)
            if nm.startswith('operator new') or nm.startswith('operator delete'): return False
            ro = set(j.d.get('roargs', []))
            for k, o in enumerate(j.ops):
                if k in ro or self.ty(o) not in ('ptr', None): continue
                for t in self.leafs(self.V(o)):
                    for a in args:
                        if nm.startswith('std::'):
                            if t == a or absint.root(t)[0] == 'alloca' and absint.root(t) == absint.root(a): return True
                            if self.owned_by(a, t): return True
                        elif absint.root_deep(t) == absint.root_deep(a): return True
            return False
        def walk(ver, depth=0):
            while True:
                if ver <= 0 or ver not in self.chain: return ver
                c = self.chain[ver]
                if isinstance(c, list):
                    b = fn.memphi[ver]
                    if b in fn.loops:
                        if any(cl(j) for j in self.inloop_defs(b)): return ver
                        outs = {walk(v, depth + 1) for v, pb in c if pb not in fn.loops[b]}
                    else: outs = {walk(v, depth + 1) for v, pb in c} if depth < 20 else {0, 1}
                    return outs.pop() if len(outs) == 1 else ver
                j = self.mdefs.get(ver)
                if j is not None and cl(j): return ver
                ver = c
        return walk(i.d['mclob'])
    # ---- comparison
    def base_env(self, assume=()):
        e = Env() if self.kenv is None else self.kenv.copy(); fn = self.fn
        for t, v in assume:
            if isinstance(v, Iv): e = self.dom.set_iv(e, fn.R(t).poly() if fn.R(t).is_poly() else Poly.atom(t), v)
            elif t[0] == 'isnan': e = e.copy(); e.bl[t] = v
            else: e = self.dom.refine(e, t, v)
        return e
    def excluded(self, env):
        """disequalities that leave no value of a point or of a short integer interval"""
        ex = {}
        for t, v in env.bl.items():
            if t[0] == 'cmp' and t[2] in ('==', '!=') and (t[2] == '!=') == v: ex.setdefault(t[1], set()).add(t[3])
        for q, ks in ex.items():
            x = self.dom.poly_iv(Poly(dict(q)), env)
            if x.lo is None or x.hi is None: continue
            if x.lo == x.hi:
                if x.lo in ks: return True
            elif len(q) == 1 and len(q[0][0]) == 1 and q[0][0][0][1] == 1 and q[0][1] == 1 and isintatom(q[0][0][0][0], self.fn):
                lo = math.ceil(x.lo) + (1 if x.lx and x.lo.denominator == 1 else 0); hi = math.floor(x.hi) - (1 if x.hx and x.hi.denominator == 1 else 0)
                if hi - lo < 16 and all(Fraction(k) in ks for k in range(lo, hi + 1)): return True
        return False
    def cubes(self, env, ds, cap=4000, stop0=True):
        """(env, leaf terms) for each feasible assignment; the first diagram is the condition"""
        n = [0]
        def go(env, ds):
            if stop0 and ds[0][0] == 'L' and ds[0][1] == ('i', 0): return
            ks = [d[1] for d in ds if d[0] == 'N']
            if not ks:
                if any(self.dom.poly_iv(Poly(dict(q)), env).empty() for q in env.iv): return
                if self.excluded(env): return
                n[0] += 1
                if n[0] > cap: raise TooBig()
                yield env, [d[1] for d in ds]; return
            k = min(ks); p = self.dd.preds[k]
            for tv in (True, False):
                e = self.dom.refine(env, p, tv)
                if e is None: continue
                yield from go(e, [(d[2] if tv else d[3]) if d[0] == 'N' and d[1] == k else d for d in ds])
        yield from go(env, list(ds))

# ---------------------------------------------------------------- equality of leaf terms under a cube
def solve_eqs(fn, env):
    """substitution for equalities pinned by the environment"""
    mp = {}; left = []
    for q, iv in env.iv.items():
        if iv.lo is None or iv.lo != iv.hi: continue
        p = Poly(dict(q)) - Poly.const(iv.lo)
        p = p.subst({a: fn.R(t).poly() for a, t in mp.items() if fn.R(t).is_poly()})
        if not p.m: continue
        done = False
        for k, v in sorted(p.m.items(), key=lambda kv: repr(kv[0])):
            if len(k) == 1 and k[0][1] == 1 and not any(k[0][0] == a for kk in p.m if kk != k for a, e in kk) and k[0][0][0] in ('load', 'arg', 'res', 'phi', 'call', 'opq'):
                rest = (p - Poly({k: v})).scale(-1 / v)
                a = k[0][0]; t = fn.fromrat(Rat(rest))
                for b in list(mp): mp[b] = fn.fromrat(subst_rat(fn, fn.R(mp[b]), {a: t}))
                mp[a] = t; done = True; break
        if not done: left.append(q)
    return mp, left
def deep_subst(fn, t, mp, depth=0):
    if not mp or depth > 25: return t
    if t in mp: return mp[t]
    k = t[0]
    if k in ('poly', 'rat'):
        r = fn.R(t); m2 = {}
        for a in r.n.atoms() | r.d.atoms():
            b = deep_subst(fn, a, mp, depth + 1)
            if b != a: m2[a] = b
        return fn.fromrat(subst_rat(fn, r, m2)) if m2 else t
    if k == 'call' and isinstance(t[2], tuple):
        return t[:2] + (tuple(deep_subst(fn, x, mp, depth + 1) for x in t[2]),) + t[3:]
    if k in ('toint',): return (k, deep_subst(fn, t[1], mp, depth + 1))
    if k in ('fdivi', 'modi'): return (k, deep_subst(fn, t[1], mp, depth + 1), t[2])
    return t
def trig_reduce(p):
    """replace sin(x)^2 by 1 - cos(x)^2"""
    ch = True
    while ch:
        ch = False
        for k, v in list(p.m.items()):
            for j, (a, e) in enumerate(k):
                if a[0] == 'call' and a[1] == 'sin' and e >= 2:
                    rest = tuple(x for x in ((a, e - 2) if jj == j else x for jj, x in enumerate(k)) if x[1])
                    c = ('call', 'cos', a[2])
                    q = Poly({rest: v})
                    p = p - Poly({k: v}) + q - q * Poly({((c, 2),): Fraction(1)})
                    ch = True; break
            if ch: break
    return p

def same_value(G, env, a, b):
    """True: equal; False: different canonical forms (see witness())"""
    fn = G.fn
    if a == b: return True
    if a[0] in ('null', 'fnref', 'global', 'alloca', 'off', 'arg') and b[0] in ('null', 'fnref', 'global', 'alloca', 'off') : return False
    if ('f', 'nan') in (a, b) or a[0] == 'f' and not isinstance(a[1], Fraction) or b[0] == 'f' and not isinstance(b[1], Fraction): return a == b
    mp, left = solve_eqs(fn, env)
    a2, b2 = deep_subst(fn, a, mp), deep_subst(fn, b, mp)
    if a2 == b2: return True
    d = fn.R(a2) - fn.R(b2)
    if not d.n.m: return True
    if not trig_reduce(d.n).m: return True
    iv = G.dom.poly_iv(fn.R(a).poly() - fn.R(b).poly(), env) if fn.R(a).is_poly() and fn.R(b).is_poly() else TOP
    if iv.lo == 0 and iv.hi == 0: return True
    # values agreeing up to rounding of constants
    m = max([abs(v) for v in fn.R(a2).n.m.values()] + [abs(v) for v in fn.R(b2).n.m.values()] + [Fraction(1, 10**12)])
    if all(abs(v) < m * Fraction(1, 10**12) for v in d.n.m.values()) and d.d.is_const(): return True
    return False

def lin_rows(G, env, extra=(), prod=True):
    """the environment as rows (coefficients over monomials, constant, strict) meaning sum + constant <= 0"""
    rows = []; monos = set()
    def add(p, iv):
        k = {m: v for m, v in p.m.items() if m}; c = p.m.get((), Fraction(0))
        if not k: return
        monos.update(k)
        if iv.lo is not None: rows.append(({m: -v for m, v in k.items()}, iv.lo - c, iv.lx))
        if iv.hi is not None: rows.append((dict(k), c - iv.hi, iv.hx))
    for q, iv in env.iv.items(): add(Poly(dict(q)), iv)
    for p, strict in extra:
        k = {m: v for m, v in p.m.items() if m}; monos.update(k); rows.append((k, p.m.get((), Fraction(0)), strict))
    for m in list(monos):
        if len(m) == 1 and m[0][1] == 1:
            iv = G.dom.atom_iv(m[0][0], env)
            if iv.lo is not None or iv.hi is not None: add(Poly({m: Fraction(1)}), iv)
        elif all(e % 2 == 0 for a, e in m): rows.append(({m: Fraction(-1)}, Fraction(0), False))
    def addp(p, strict):  # p >= 0
        k = {m: -v for m, v in p.m.items() if m}
        if k: rows.append((k, -p.m.get((), Fraction(0)), strict))
    # |p| >= p, |p| >= -p, and |p| = +-p where the sign of p is known
    for m in list(monos):
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a[0] == 'call' and a[1] == 'fabs':
                r = G.fn.R(a[2][0])
                if not r.is_poly(): continue
                p = r.poly(); A = Poly.atom(a); iv = G.dom.poly_iv(p, env)
                monos.update(k for k in p.m if k)
                addp(A - p, False); addp(A + p, False)
                if iv.lo is not None and iv.lo >= 0: addp(p - A, False)
                elif iv.hi is not None and iv.hi <= 0: addp(Poly.const(0) - p - A, False)
            elif a[0] == 'rat':
                # n / d compared with a constant, for d of known sign
                n, d = Poly(dict(a[1])), Poly(dict(a[2])); di = G.dom.poly_iv(d, env)
                sg = 1 if di.lo is not None and (di.lo > 0 or di.lo == 0 and di.lx) else -1 if di.hi is not None and (di.hi < 0 or di.hi == 0 and di.hx) else 0
                if not sg: continue
                iv = G.dom.atom_iv(a, env)
                if iv.lo is not None: addp((n - d.scale(iv.lo)).scale(Fraction(sg)), iv.lx)
                if iv.hi is not None: addp((d.scale(iv.hi) - n).scale(Fraction(sg)), iv.hx)
                monos.update(k for k in n.m if k); monos.update(k for k in d.m if k)
            elif a[0] in ('fdivi', 'modi'):
                r = G.fn.R(a[1])
                if not r.is_poly(): continue
                p = r.poly(); A = Poly.atom(a); n = a[2]
                monos.update(k for k in p.m if k)
                if a[0] == 'fdivi': addp(p - A.scale(Fraction(n)), False); addp(A.scale(Fraction(n)) + Poly.const(n - 1) - p, False)
                else:
                    addp(A, False); addp(Poly.const(n - 1) - A, False); iv = G.dom.poly_iv(p, env)
                    if iv.lo is not None and iv.lo >= 0: addp(p - A, False)
            elif a[0] == 'toint':
                r = G.fn.R(a[1])
                if not r.is_poly(): continue
                p = r.poly(); A = Poly.atom(a); iv = G.dom.poly_iv(p, env)
                monos.update(k for k in p.m if k)
                if iv.lo is not None and iv.lo >= 0: addp(p - A, False); addp(A + Poly.const(1) - p, True)
                elif iv.hi is not None and iv.hi <= 0: addp(A - p, False); addp(p + Poly.const(1) - A, True)
    # products of two linear facts, where all their quadratic terms occur already
    quad = {m for m in monos if sum(e for a, e in m) == 2}
    if quad and prod:
        lin = []
        for q, iv in env.iv.items():
            if any(sum(e for a, e in m) > 1 for m, v in q): continue
            p = Poly(dict(q))
            if len(q) == 1 and iv.lo != 0 and iv.hi != 0 and (len(quad) > 4 or not any(a == q[0][0][0][0] for m in quad for a, e in m)): continue
            if iv.lo is not None: lin.append((p - Poly.const(iv.lo), iv.lx))
            if iv.hi is not None: lin.append((Poly.const(iv.hi) - p, iv.hx))
        if len(lin) <= 40:
            for x in range(len(lin)):
                for y in range(x, len(lin)):
                    pr = lin[x][0] * lin[y][0]
                    if all(m in quad for m in pr.m if sum(e for a, e in m) > 1): addp(pr, lin[x][1] and lin[y][1])
    return rows
def lin_core(rows):
    """a linear program proposes a contradictory subset of the rows; elimination over that subset confirms it exactly"""
    try: from scipy.optimize import linprog; import numpy as np
    except ImportError: return False
    ms = {}
    for k, c, s in rows:
        for m in k: ms.setdefault(m, len(ms))
    n = len(rows); A = np.zeros((len(ms), n)); sc = []
    for j, (k, c, s) in enumerate(rows):
        d = max([abs(v) for v in k.values()] or [1]); sc.append(d)
        for m, v in k.items(): A[ms[m], j] = float(v / d)
    for off in (0.0, 1e-6):
        obj = [-(float(c / d) + (off if s else 0)) for (k, c, s), d in zip(rows, sc)]
        try: r = linprog(obj, A_ub=[[1.0] * n], b_ub=[1.0], A_eq=A, b_eq=[0.0] * len(ms), bounds=(0, None), method='highs-ds')
        except Exception: return False
        if r.x is None or r.fun > -1e-12: continue
        sub = [rows[j] for j in range(n) if r.x[j] > 1e-9]
        if lin_infeasible(sub, 2000, False): return True
    return False
def lin_infeasible(rows, cap=120, core_=True):
    """Fourier-Motzkin elimination; True only when the rows have no common point"""
    rows = start = list(rows)
    while True:
        nr = {}
        for k, c, s in rows:
            k = {m: v for m, v in k.items() if v}
            if not k:
                if c > 0 or (c == 0 and s): return True
                continue
            d = max(abs(v) for v in k.values()); key = frozenset((m, v / d) for m, v in k.items()); c = c / d
            if key not in nr or (c, s) > nr[key]: nr[key] = (c, s)
        rows = [(dict(k), c, s) for k, (c, s) in nr.items()]
        if not rows: return False
        cnt = {}
        for k, c, s in rows:
            for m, v in k.items():
                a = cnt.setdefault(m, [0, 0]); a[v > 0] += 1
        m = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], repr(x)))
        pos = [r for r in rows if r[0].get(m, 0) > 0]; neg = [r for r in rows if r[0].get(m, 0) < 0]
        rows = [r for r in rows if m not in r[0]]
        if len(rows) + len(pos) * len(neg) > cap: return bool(core_) and lin_core(start)
        for p in pos:
            for n in neg:
                a = p[0][m]; b = -n[0][m]; k = {}
                for x, v in p[0].items():
                    if x != m: k[x] = k.get(x, 0) + v / a
                for x, v in n[0].items():
                    if x != m: k[x] = k.get(x, 0) + v / b
                rows.append((k, p[1] / a + n[1] / b, p[2] or n[2]))
def lin_empty(G, env, extra=()):
    """no point satisfies the linear facts; absolute values of unknown sign are split"""
    rows = lin_rows(G, env, extra, False)
    if lin_infeasible(rows): return True
    more = lin_rows(G, env, extra)
    if len(more) > len(rows) and lin_infeasible(more): return True
    ab = {m for k, c, s in rows for m in k if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'call' and m[0][0][1] == 'fabs'}
    sp = []
    for m in sorted(ab, key=repr):
        r = G.fn.R(m[0][0][2][0])
        if not r.is_poly(): continue
        iv = G.dom.poly_iv(r.poly(), env)
        if iv.lo is not None and iv.lo >= 0 or iv.hi is not None and iv.hi <= 0: continue
        sp.append((Poly.atom(m[0][0]), r.poly()))
    if not sp or len(sp) > 3: return False
    def go(k, ex):
        if k == len(sp): return any(lin_infeasible(lin_rows(G, env, tuple(extra) + tuple(ex), pr)) for pr in (False, True))
        A, p = sp[k]
        return all(go(k + 1, ex + e) for e in ([(A - p, False), (Poly.const(0) - p, False)], [(A + p, False), (p, False)]))
    return go(0, [])
def lin_same(G, env, a, b):
    """equality, or emptiness of the case, from the linear facts of the environment"""
    try:
        if lin_empty(G, env): return True
        ra, rb = G.fn.R(a), G.fn.R(b)
        if not ra.is_poly() or not rb.is_poly(): return False
        d = ra.poly() - rb.poly()
        return lin_empty(G, env, [(d, True)]) and lin_empty(G, env, [(d.scale(Fraction(-1)), True)])
    except (KeyError, TypeError, ValueError, AttributeError): return False

import math
def counter(fn, name):
    """a loop counter that runs through all integers from its constant start"""
    i = fn.val.get(name)
    if i is None or i.op != 'phi' or len(i.ops) != 2 or i.ty in ('double', 'float', 'i1'): return False
    # a loop that can be left in several ways reaches a round only if none of the earlier rounds left it
    if sum(1 for b in fn.loops.get(i.blk, ()) for s in set(fn.succ[b]) if s not in fn.loops[i.blk] and fn.succ[s] + [x for x in fn.blocks[s] if x.op == 'ret']) > 1: return False
    for a, b in (i.ops, i.ops[::-1]):
        if isinstance(a, dict) and a.get('k') == 'int' and isinstance(b, str):
            j = fn.val.get(b)
            if j is not None and j.op == 'add' and j.ops[0] == name and isinstance(j.ops[1], dict) and int(j.ops[1].get('v', 0)) == 1: return True
    return False
class Undef(Exception): pass
class NoNumber(Undef): pass
class Wit(object):
    """finds a point of the abstract cube (values for the opaque atoms) at which a predicate on leaf terms holds"""
    def __init__(self, G, env, seed=1): self.G = G; self.fn = G.fn; self.env = env; self.rng = random.Random(seed)
    def key(self, t):
        """structural key with embedded arithmetic evaluated"""
        if not isinstance(t, tuple): return t
        if t and t[0] in ('poly', 'rat', 'toint', 'fdivi', 'modi', 'b2i', 'sel'): return ('#', self.ev(t))
        if t and t[0] in ('load', 'call', 'res', 'phi', 'arg', 'opq', 'extv', 'half'):
            return tuple(self.key(x) for x in t)
        return tuple(self.key(x) for x in t)
    def isint(self, t):
        if t[0] == 'load': return t[2] != 'double'
        if t[0] in ('phi', 'res', 'opq'):
            i = self.fn.val.get(t[1]); return i is not None and i.ty not in ('double', 'float')
        if t[0] == 'arg': return self.fn.args[t[1]]['ty'] not in ('double', 'float')
        if t[0] == 'call': return t[1].endswith(('::size', '::use_count', '::count', '::capacity', '::empty'))
        if t[0] in ('extv', 'half'): return t[0] == 'half'
        return False
    def base(self, t):
        k = self.key(t)
        if k in self.asg: return self.asg[k]
        v = self.pick(t); self.asg[k] = v
        return v
    def known(self, a):
        if a not in self.leavesof: self.leavesof[a] = {s for s in subterms(a) if s[0] in ('arg', 'load', 'phi', 'res', 'opq', 'extv', 'half')} if a[0] in ('sdiv', 'udiv', 'srem', 'urem', 'toint', 'fdivi', 'modi', 'poly', 'rat', 'call') else {a}
        L = self.leavesof[a]
        return bool(L) and a not in L and L <= self.done
    def pick(self, t):
        """sample an atom inside the constraints already determined by other atoms"""
        G = self.G
        lo = hi = None; lx = hx = False
        iv = G.dom.atom_iv(t, self.env)
        lo, lx, hi, hx = iv.lo, iv.lx, iv.hi, iv.hx
        for q, c in self.byatom.get(t, ()):
            # q = coef*t + rest, rest evaluated only if all its atoms are assigned
            co = None; rest = Fraction(0); ok = True
            for mono, v in q:
                if any(a == t for a, e in mono):
                    if len(mono) == 1 and mono[0][1] == 1 and co is None: co = v
                    else: ok = False; break
                else:
                    x = v
                    for a, e in mono:
                        if a not in self.done and not self.known(a): ok = False; break
                        x = x * self.ev(a) ** e
                    if not ok: break
                    rest += x
            if not ok or not co: continue
            b1 = None if c.lo is None else (c.lo - rest) / co
            b2 = None if c.hi is None else (c.hi - rest) / co
            x1, x2 = c.lx, c.hx
            if co < 0: b1, b2, x1, x2 = b2, b1, x2, x1
            if b1 is not None and (lo is None or b1 > lo): lo, lx = b1, x1
            if b2 is not None and (hi is None or b2 < hi): hi, hx = b2, x2
        self.done.add(t)
        r = self.rng; isint = self.isint(t)
        if lo is not None and hi is not None and lo > hi: raise Undef()
        if lo is not None and lo == hi: return lo
        c = r.random()
        if isint:
            L = math.ceil(lo) + (1 if lx and math.ceil(lo) == lo else 0) if lo is not None else None
            H = math.floor(hi) - (1 if hx and math.floor(hi) == hi else 0) if hi is not None else None
            if L is None and H is None: return Fraction(r.choice([0, 1, 2, -1, 3, 5, -4, 7, 11]))
            if L is None: return Fraction(H - r.choice([0, 1, 2, 5]))
            if H is None: return Fraction(L + r.choice([0, 1, 2, 3, 7]))
            if L > H: raise Undef()
            return Fraction(r.randint(L, min(H, L + 20)) if c < .35 else r.randint(max(L, H - 20), H) if c < .7 else r.randint(max(L, -9), min(H, 9)) if c < .85 and L <= 9 and H >= -9 else r.randint(L, H))
        if lo is None and hi is None: return Fraction(r.choice([0, 1, -1, 2, Fraction(1, 2), Fraction(1, 3), Fraction(-3, 7), Fraction(r.randint(-400, 400), 37)]))
        if lo is None: return hi - (Fraction(r.randint(1, 400), 97) if c < .8 else (abs(hi) or 1) * Fraction(1, 10 ** r.randint(1, 3)))
        if hi is None: return lo + (Fraction(r.randint(1, 400), 97) if c < .8 else (abs(lo) or 1) * Fraction(1, 10 ** r.randint(1, 3)))
        if c < .12 and not lx: return lo
        if c < .24 and not hx: return hi
        return lo + (hi - lo) * Fraction(r.randint(1, 96), 97)
    def edge(self, t):
        """sometimes put an argument of a rounding close to (not onto) a step, if a free atom allows it"""
        if self.rng.random() < .5: return
        if t[0] == 'rat': num, den = t[1], Poly(dict(t[2]))
        elif t[0] == 'poly': num, den = t[1], None
        else: return
        dat = {a for m in den.m for a, e in m} if den is not None else set()
        for a in [m[0][0] for m, v in num if len(m) == 1 and m[0][1] == 1]:
            if a in self.byatom or a in self.done or a[0] not in ('arg', 'load') or a in dat or self.isint(a): continue
            if self.key(a) in self.asg or any(x == a for m, v in num for x, e in m if not (len(m) == 1 and e == 1)): continue
            co = next(v for m, v in num if len(m) == 1 and m[0] == (a, 1)); rest = Fraction(0)
            for m, v in num:
                if len(m) == 1 and m[0] == (a, 1): continue
                x = v
                for b, e in m: x = x * self.ev(b) ** e
                rest += x
            d = self.evp(den) if den is not None else Fraction(1)
            r = self.rng; at = r.randint(-3, 3) + r.choice((0, 0, Fraction(1, 2))) + r.choice((-1, 1)) * Fraction(1, 10 ** r.randint(1, 8))
            v = (at * d - rest) / co; iv = self.G.dom.atom_iv(a, self.env)
            if inside(iv, v): self.asg[self.key(a)] = v; self.done.add(a)
            return
    def ev(self, t):
        k = t[0]
        if k == 'i': return Fraction(t[1])
        if k == 'f':
            if isinstance(t[1], Fraction): return t[1]
            raise Undef()
        if k == 'poly': return self.evp(Poly(dict(t[1])))
        if k == 'rat':
            d = self.evp(Poly(dict(t[2])))
            if d == 0: raise Undef()
            return self.evp(Poly(dict(t[1]))) / d
        if k == 'b2i': return Fraction(1 if self.evb(t[1]) else 0)
        if k == 'sel': return self.ev(t[2] if self.evb(t[1]) else t[3])
        if k == 'toint':
            self.edge(t[1])
            return Fraction(math.trunc(self.ev(t[1])))
        if k == 'fdivi': return Fraction(self.ev(t[1]) // t[2])
        if k == 'modi': return Fraction(self.ev(t[1]) % t[2])
        if k == 'sdiv' or k == 'udiv':
            b = self.ev(t[2])
            if b == 0: raise Undef()
            return Fraction(math.trunc(self.ev(t[1]) / b))
        if k == 'srem' or k == 'urem':
            a, b = self.ev(t[1]), self.ev(t[2])
            if b == 0: raise Undef()
            return a - b * math.trunc(a / b)
        if k == 'call' and len(t) == 3:
            n = t[1]
            if n in ('floor', 'ceil', 'ftrunc', 'round', 'lround'): self.edge(t[2][0])
            xs = [self.ev(x) for x in t[2]]
            if n == 'fabs': return abs(xs[0])
            if n == 'floor': return Fraction(math.floor(xs[0]))
            if n == 'ceil': return Fraction(math.ceil(xs[0]))
            if n == 'ftrunc': return Fraction(math.trunc(xs[0]))
            if n in ('round', 'lround'): return Fraction(math.floor(abs(xs[0]) + Fraction(1, 2))) * (1 if xs[0] >= 0 else -1)
            if n in ('fmax', 'smax', 'umax'): return max(xs)
            if n in ('fmin', 'smin', 'umin'): return min(xs)
            f = {'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'exp': math.exp, 'log': math.log, 'atan2': math.atan2, 'pow': math.pow, 'fmod': math.fmod, 'tan': math.tan, 'atan': math.atan, 'acos': math.acos, 'asin': math.asin, 'hypot': math.hypot, 'remainder': math.remainder, 'exp2': lambda x: 2.0 ** x}.get(n)
            if f is None: return self.base(t)
            try: return Fraction(f(*[float(x) for x in xs]))
            except (ValueError, OverflowError):
                # clearly outside of the domain (not by a rounding error of an argument): the value is no number
                if n in ('sqrt', 'log') and xs[0] < -Fraction(1, 10**6) or n in ('acos', 'asin') and abs(xs[0]) > 1 + Fraction(1, 10**6): raise NoNumber()
                raise Undef()
        if k in ('cmp', 'and', 'or', 'not', 'isnan', 'peq', 'b'): return Fraction(1 if self.evb(t) else 0)
        if k in ('fdiv0', 'undef', 'null', 'alloca', 'global', 'off'): raise Undef()
        return self.base(t)
    def evp(self, p):
        s = Fraction(0)
        for mono, v in p.m.items():
            x = v
            for a, e in mono: x = x * self.ev(a) ** e
            s += x
        return s
    def evb(self, t):
        k = t[0]
        if k == 'i': return bool(t[1])
        if k == 'cmp':
            x = self.evp(Poly(dict(t[1]))); c = t[3]
            return {'<': x < c, '<=': x <= c, '>': x > c, '>=': x >= c, '==': x == c, '!=': x != c}[t[2]]
        if k == 'and': return all(self.evb(x) for x in t[1])
        if k == 'or': return any(self.evb(x) for x in t[1])
        if k == 'not': return not self.evb(t[1])
        if k == 'isnan': return self.env.bl.get(t, False)
        if t in self.env.bl: return self.env.bl[t]
        kk = ('B', self.key(t))
        if kk not in self.asg: self.asg[kk] = self.rng.random() < .5
        return self.asg[kk]
    def havoc(self, terms, allow=None, cons=False):
        """does a term depend on a value that is not a free input (loop-carried, or read after an unknown write)?"""
        for t in terms:
            for s in subterms(t):
                if s[0] == 'phi' and cons and counter(self.fn, s[1]): continue
                if allow is not None and allow(s): continue
                if s[0] in ('phi', 'opq') and len(s) > 1 and isinstance(s[1], str): return True
                if s[0] == 'load' and len(s) > 3 and s[3] != 0: return True
                if s[0] == 'call' and len(s) > 3 and s[3] != 0: return True
        return False
    def find(self, goal, tries=600, terms=(), allow=None):
        """goal(self) -> bool; returns {term: value} or None"""
        cons = [('poly', q) for q in self.env.iv] + list(self.env.bl)
        if self.havoc(list(terms), allow) or self.havoc(cons, allow, True): return None
        self.byatom = {}
        for q, iv in self.env.iv.items():
            for mono, v in q:
                for a, e in mono: self.byatom.setdefault(a, []).append((q, iv))
        qs = list(self.env.iv.items()); self.leavesof = {}
        for n in range(tries):
            self.asg = {}; self.done = set()
            try:
                self.rng.shuffle(qs)
                if n % 2: qs.sort(key=lambda x: x[1].lo is not None and x[1].lo == x[1].hi)
                ok = True
                for q, iv in qs:
                    x = self.evp(Poly(dict(q)))
                    if not inside(iv, x): ok = False; break
                if not ok: continue
                # functional consistency of opaque booleans
                bad = False; seen = {}
                for t, v in self.env.bl.items():
                    if t[0] == 'isnan': continue
                    if t[0] in ('cmp', 'and', 'or'):
                        e2 = self.env.bl; 
                        x = self.evb(t) if t[0] == 'cmp' else self.evb2(t)
                        if x != v: bad = True; break
                    else:
                        kk = self.key(t)
                        if seen.setdefault(kk, v) != v: bad = True; break
                        if t[0] == 'peq' and len(t) == 3 and self.key(t[1]) == self.key(t[2]) and not v: bad = True; break
                        if t[0] == 'b' and t[1][0] == 'call' and t[1][1].endswith('::empty'):
                            s = ('call', t[1][1][:-5] + 'size') + t[1][2:]
                            if (self.ev(s) == 0) != v: bad = True; break
                if bad: continue
                if goal(self): return dict(self.asg)
            except (Undef, OverflowError, ZeroDivisionError): continue
        return None
    def evb2(self, t):
        if t[0] == 'and': return all(self.evb2(x) for x in t[1])
        if t[0] == 'or': return any(self.evb2(x) for x in t[1])
        return self.evb(t)
def inside(iv, x):
    if iv.lo is not None and (x < iv.lo or x == iv.lo and iv.lx): return False
    if iv.hi is not None and (x > iv.hi or x == iv.hi and iv.hx): return False
    return True
def env_str(env, n=int(os.environ.get('ENVN', '6'))):
    out = []
    for q, iv in list(env.iv.items()): out.append('%s in %r' % (pp_poly(Poly(dict(q))), iv))
    for t, v in env.bl.items(): out.append(pp(t) if v else 'not ' + pp(t))
    return '; '.join(sorted(out, key=len)[:n])
