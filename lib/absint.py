import math
"""Conditional interval propagation over the normalised CFG (classic forward dataflow).

Facts are intervals for canonical polynomials and truth values for opaque boolean terms.  A set of
assumptions on the inputs prunes infeasible edges; the result tells which blocks stay reachable,
what is known there, and which stores reach the exits.  Joins intersect facts, loop headers widen.
"""
from fractions import Fraction
from ir import *
import ir

class Iv(object):
    __slots__ = ('lo', 'lx', 'hi', 'hx')       # lx/hx: bound excluded
    def __init__(s, lo=None, lx=False, hi=None, hx=False): s.lo = lo; s.lx = lx; s.hi = hi; s.hx = hx
    def top(s): return s.lo is None and s.hi is None
    def empty(s): return s.lo is not None and s.hi is not None and (s.lo > s.hi or (s.lo == s.hi and (s.lx or s.hx)))
    def meet(a, b):
        lo, lx = a.lo, a.lx
        if b.lo is not None and (lo is None or b.lo > lo or (b.lo == lo and b.lx)): lo, lx = b.lo, b.lx
        hi, hx = a.hi, a.hx
        if b.hi is not None and (hi is None or b.hi < hi or (b.hi == hi and b.hx)): hi, hx = b.hi, b.hx
        return Iv(lo, lx, hi, hx)
    def join(a, b):
        if a.lo is None or b.lo is None: lo, lx = None, False
        elif a.lo < b.lo or (a.lo == b.lo and not a.lx): lo, lx = a.lo, a.lx
        else: lo, lx = b.lo, b.lx
        if a.hi is None or b.hi is None: hi, hx = None, False
        elif a.hi > b.hi or (a.hi == b.hi and not a.hx): hi, hx = a.hi, a.hx
        else: hi, hx = b.hi, b.hx
        return Iv(lo, lx, hi, hx)
    def __add__(a, b):
        return Iv(None if a.lo is None or b.lo is None else a.lo + b.lo, a.lx or b.lx, None if a.hi is None or b.hi is None else a.hi + b.hi, a.hx or b.hx)
    def scale(a, c):
        if c == 0: return Iv.c(0)
        if c > 0: return Iv(None if a.lo is None else a.lo * c, a.lx, None if a.hi is None else a.hi * c, a.hx)
        return Iv(None if a.hi is None else a.hi * c, a.hx, None if a.lo is None else a.lo * c, a.lx)
    def __mul__(a, b):
        if a.empty(): return a
        if b.empty(): return b
        if a == Iv.c(0) or b == Iv.c(0): return Iv.c(0)
        # corner products; None = infinity
        best_lo = best_hi = None; lo_inf = hi_inf = False
        corners = []
        for x, xx, xs in ((a.lo, a.lx, -1), (a.hi, a.hx, 1)):
            for y, yx, ys in ((b.lo, b.lx, -1), (b.hi, b.hx, 1)):
                if x is None and y is None: s = xs * ys; corners.append((None, True, s))
                elif x is None or y is None:
                    f, sg = (y, xs) if x is None else (x, ys)
                    if f == 0: corners.append((Fraction(0), yx if x is None else xx, 0))
                    else: corners.append((None, True, sg if f > 0 else -sg))
                else:
                    z = x * y
                    ex = (xx or yx) if z != 0 else ((xx if x == 0 else True) and (yx if y == 0 else True)) and not (x == 0 and not xx) and not (y == 0 and not yx)
                    corners.append((z, ex, 0))
        for z, ex, s in corners:
            if z is None:
                if s > 0: hi_inf = True
                else: lo_inf = True
            else:
                if best_lo is None or z < best_lo[0] or (z == best_lo[0] and not ex): best_lo = (z, ex)
                if best_hi is None or z > best_hi[0] or (z == best_hi[0] and not ex): best_hi = (z, ex)
        return Iv(None if lo_inf or best_lo is None else best_lo[0], False if lo_inf or best_lo is None else best_lo[1], None if hi_inf or best_hi is None else best_hi[0], False if hi_inf or best_hi is None else best_hi[1])
    def __eq__(a, b): return isinstance(b, Iv) and (a.lo, a.hi) == (b.lo, b.hi) and (a.lo is None or a.lx == b.lx) and (a.hi is None or a.hx == b.hx)
    def __hash__(a): return hash((a.lo, a.hi))
    def __repr__(s): return '%s%s, %s%s' % ('(' if s.lx or s.lo is None else '[', s.lo, s.hi, ')' if s.hx or s.hi is None else ']')
    def within(s, lo, hi): return s.lo is not None and s.hi is not None and s.lo >= lo and s.hi <= hi
    @staticmethod
    def c(v): v = Fraction(v); return Iv(v, False, v, False)
    @staticmethod
    def ge(v): return Iv(Fraction(v), False, None, False)
    @staticmethod
    def gt(v): return Iv(Fraction(v), True, None, False)
    @staticmethod
    def le(v): return Iv(None, False, Fraction(v), False)
    @staticmethod
    def lt(v): return Iv(None, False, Fraction(v), True)
    @staticmethod
    def rng(a, b): return Iv(Fraction(a), False, Fraction(b), False)
TOP = Iv()

def normpoly(p):
    """(frozen q, scale, const) with p = scale*q + const and q normalised"""
    c = p.cval(); q = p - Poly.const(c)
    if not q.m: return None, Fraction(0), c
    k = lead(q); lc = q.m[k]
    return freeze(q.scale(1 / lc)), lc, c

NONNEG = {'fabs', 'sqrt', 'exp'}
NONNEG_CALL = ('::size', '::use_count', '::capacity', '::length', '::count')

class Env(object):
    __slots__ = ('iv', 'bl')
    def __init__(s, iv=None, bl=None): s.iv = iv if iv is not None else {}; s.bl = bl if bl is not None else {}
    def copy(s): return Env(dict(s.iv), dict(s.bl))
    def __eq__(a, b): return a.iv == b.iv and a.bl == b.bl

class AI(object):
    def __init__(self, fn, assume=(), nonan=True, inputs=None, dead_calls=('__assert_fail', 'abort')):
        """assume: list of (term, Iv) or (bool term, True/False) that hold at entry;
           nonan: doubles are numbers unless assumed otherwise; inputs: callable(atom)->Iv or None"""
        self.fn = fn; self.nonan = nonan; self.inputs = inputs
        e = Env()
        for t, v in assume:
            if isinstance(v, Iv):
                e2 = self.set_iv(e, fn.R(t).poly() if fn.R(t).is_poly() else Poly.atom(t), v)
                e = e2 if e2 is not None else e
            elif t[0] == 'isnan':
                e = e.copy(); e.bl[t] = v
            else:
                e2 = self.refine(e, t, v); e = e2 if e2 is not None else e
        self.entry = e
        self._defs_in_block()
        self.run()
    # -- which atoms are (re)defined in a block
    def _defs_in_block(self):
        fn = self.fn
        self.redef = {}
        inloop = set()
        for h, body in fn.loops.items(): inloop |= body
        for b in inloop:
            s = set()
            for i in fn.blocks[b]:
                if i.n: s.add(i.n)
                if 'mdef' in i.d: s.add(('m', i.d['mdef']))
            self.redef[b] = s
        for m, b in fn.memphi.items():
            if b in inloop: self.redef[b].add(('m', m))
    def touches(self, t, names):
        for s in subterms(t):
            if s[0] in ('phi', 'res', 'opq', 'alloca') and len(s) > 1 and s[1] in names: return True
            if s[0] == 'load' and ('m', s[3]) in names: return True
            if s[0] == 'call' and len(s) > 3 and ('m', s[3]) in names: return True
        return False
    def kill(self, env, b):
        names = self.redef.get(b)
        if not names: return env
        iv = {k: v for k, v in env.iv.items() if not self.touches(k, names)}
        bl = {k: v for k, v in env.bl.items() if not self.touches(k, names)}
        if len(iv) == len(env.iv) and len(bl) == len(env.bl): return env
        return Env(iv, bl)
    # -- evaluation
    def set_iv(self, env, p, iv):
        k, sc, c = normpoly(p)
        if k is None:
            x = Iv.c(c).meet(iv); return None if x.empty() else env
        v = (iv + Iv.c(-c)).scale(1 / sc)
        cur = env.iv.get(k)
        n = v if cur is None else cur.meet(v)
        st = self.poly_iv(Poly(dict(k)), env)
        if n.meet(st).empty(): return None
        if cur is not None and n == cur: return env
        if n.top(): return env
        e = env.copy(); e.iv[k] = n; return e
    def consistent(self, env):
        """no recorded fact contradicts the ranges implied by the others"""
        for k, iv in env.iv.items():
            if self.poly_iv(Poly(dict(k)), env).meet(iv).empty(): return False
        return True
    def poly_iv(self, p, env, depth=0):
        k, sc, c = normpoly(p)
        if k is None: return Iv.c(c)
        r = TOP
        got = env.iv.get(k)
        if got is not None: r = got.scale(sc) + Iv.c(c)
        s = Iv.c(0)
        for mono, v in p.m.items():
            t = Iv.c(1)
            for a, e in mono:
                ai = self.atom_iv(a, env, depth)
                if e == 2:
                    t = t * ai * ai
                    t = t.meet(Iv.ge(0)) if len(mono) == 1 else t
                else:
                    for _ in range(e): t = t * ai
            s = s + t.scale(v)
        r = r.meet(s)
        if len(p.m) > 2:
            r = r.meet(self.multiaffine_iv(p, env, depth))
            if r.lo is None or r.hi is None: r = r.meet(quad_iv(p))
        if (r.lo is None or r.hi is None) and depth < 3:
            q = self.reduced(p, env, depth)
            if q is not None: r = r.meet(q)
        return r
    def reduced(self, p, env, depth):
        """range after replacing atoms of known value and splitting off the common monomial"""
        pts = {}
        for a in p.atoms():
            v = env.iv.get(normpoly(Poly.atom(a))[0])
            if v is not None and v.lo is not None and v.lo == v.hi: pts[a] = v.lo
        ch = bool(pts)
        m = {}
        for k, v in p.m.items():
            for a, e in k:
                if a in pts: v = v * pts[a] ** e
            kk = tuple(x for x in k if x[0] not in pts); m[kk] = m.get(kk, 0) + v
        m = {k: v for k, v in m.items() if v != 0}
        if not m: return Iv.c(0)
        com = None
        for k in m:
            d = dict(k); com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d}
        if com:
            ch = True
            m = {tuple((a, e - com.get(a, 0)) for a, e in k if e > com.get(a, 0)): v for k, v in m.items()}
        if not ch or len(com) == len(p.atoms()) - len(pts) and len(m) == 1: return None
        r = self.poly_iv(Poly(m), env, depth + 1)
        for a, e in com.items():
            ai = self.atom_iv(a, env, depth + 1)
            if e % 2 == 0:
                t = (ai * ai).meet(Iv.ge(0))
                for _ in range(e // 2): r = r * t
            else:
                for _ in range(e): r = r * ai
        return r
    def multiaffine_iv(self, p, env, depth):
        """exact range of a multi-affine polynomial over the box of its atoms"""
        at = list(p.atoms())
        if len(at) > 7 or any(e != 1 for k in p.m for a, e in k): return TOP
        box = {a: self.atom_iv(a, env, depth + 1) for a in at}
        def lower(p, at):
            """greatest lower bound, None = -inf"""
            if not at: return p.cval()
            a, rest = at[0], at[1:]
            A = {}; Bm = {}
            for k, v in p.m.items():
                if any(x == a for x, e in k): A[tuple(y for y in k if y[0] != a)] = v
                else: Bm[k] = v
            A = Poly(A); B = Poly(Bm); iv = box[a]
            if not A.m: return lower(B, rest)
            if iv.lo is not None and iv.hi is not None:
                x = lower(A.scale(iv.lo) + B, rest); y = lower(A.scale(iv.hi) + B, rest)
                return None if x is None or y is None else min(x, y)
            if iv.lo is not None:
                m = lower(A, rest)
                if m is None or m < 0: return None
                return lower(A.scale(iv.lo) + B, rest)
            if iv.hi is not None:
                m = lower(A.scale(-1), rest)
                if m is None or m < 0: return None
                return lower(A.scale(iv.hi) + B, rest)
            return None
        at.sort(key=lambda a: 0 if (box[a].lo is None or box[a].hi is None) else 1)
        lo = lower(p, at); hi = lower(p.scale(-1), at)
        return Iv(lo, False, None if hi is None else -hi, False)
    def term_iv(self, t, env, depth=0):
        if t[0] == 'f' and not isinstance(t[1], Fraction): return TOP
        r = self.fn.R(t)
        if r.is_poly(): return self.poly_iv(r.poly(), env, depth)
        a = self.poly_iv(r.n, env, depth); b = self.poly_iv(r.d, env, depth)
        x = env.iv.get(normpoly(Poly.atom(t))[0])
        y = TOP
        if b.lo is not None and (b.lo > 0 or (b.lo == 0 and b.lx)) or b.hi is not None and (b.hi < 0 or (b.hi == 0 and b.hx)):
            if b.hi is not None and b.hi <= 0: a = a.scale(-1); b = b.scale(-1)
            inv = Iv(Fraction(0) if b.hi is None else 1 / b.hi, True if b.hi is None else b.hx, None if b.lo == 0 else 1 / b.lo, b.lx)
            y = a * inv
        return y if x is None else y.meet(x)
    def atom_iv(self, a, env, depth=0):
        r = TOP
        got = env.iv.get((((((a, 1),), Fraction(1))),)) if False else env.iv.get(freeze(Poly.atom(a)))
        if got is not None: r = got
        if depth > 12: return r
        k = a[0]
        if k == 'call':
            nm = a[1]
            if nm == 'fabs':
                x = self.term_iv(a[2][0], env, depth + 1)
                if x.lo is not None and x.lo >= 0: r = r.meet(x)
                elif x.hi is not None and x.hi <= 0: r = r.meet(x.scale(-1))
                else:
                    m = None if x.lo is None or x.hi is None else max(-x.lo, x.hi)
                    r = r.meet(Iv(Fraction(0), False, m, False))
            elif nm == 'exp':
                x = self.term_iv(a[2][0], env, depth + 1)
                r = r.meet(Iv(Fraction(0), False, Fraction(1) if x.hi is not None and x.hi <= 0 else None, False))
                if x.lo is not None and x.lo >= 0: r = r.meet(Iv.ge(1))
            elif nm in NONNEG: r = r.meet(Iv.ge(0))
            elif nm == 'acos': r = r.meet(Iv(Fraction(0), False, Fraction(math.pi), False))
            elif nm in ('sin', 'cos'): r = r.meet(Iv.rng(-1, 1))
            elif nm in ('floor', 'ceil', 'round', 'ftrunc', 'rint', 'lround'):
                x = self.term_iv(a[2][0], env, depth + 1)
                f = {'floor': math.floor, 'ceil': math.ceil, 'ftrunc': math.trunc}.get(nm, lambda z: math.floor(z + Fraction(1, 2)))
                lo = None if x.lo is None else Fraction(f(x.lo)); hi = None if x.hi is None else Fraction(f(x.hi))
                if x.hx and hi is not None and hi == x.hi and (nm == 'floor' or nm == 'ftrunc' and hi > 0): hi -= 1
                if x.lx and lo is not None and lo == x.lo and (nm == 'ceil' or nm == 'ftrunc' and lo < 0): lo += 1
                r = r.meet(Iv(lo, False, hi, False))
            elif nm in ('fmax', 'smax', 'umax', 'fmin', 'smin', 'umin'):
                x = self.term_iv(a[2][0], env, depth + 1); y = self.term_iv(a[2][1], env, depth + 1)
                mx = nm.endswith('max')
                def pick(u, v, mx):   # (bound) None=infinite
                    return max(u, v) if mx else min(u, v)
                if mx:
                    lo = None if x.lo is None and y.lo is None else max(z for z in (x.lo, y.lo) if z is not None)
                    hi = None if x.hi is None or y.hi is None else max(x.hi, y.hi)
                else:
                    lo = None if x.lo is None or y.lo is None else min(x.lo, y.lo)
                    hi = None if x.hi is None and y.hi is None else min(z for z in (x.hi, y.hi) if z is not None)
                r = r.meet(Iv(lo, False, hi, False))
            elif any(nm.endswith(s) for s in NONNEG_CALL): r = r.meet(Iv.ge(0))
            if nm.endswith('::size') and len(a[2]) == 1:
                # size()==0 <=> empty()
                for kk, vv in env.bl.items():
                    if kk[0] == 'b' and kk[1][0] == 'call' and kk[1][1].endswith('::empty') and kk[1][2] == a[2]:
                        r = r.meet(Iv.c(0) if vv else Iv.ge(1))
        elif k == 'b2i':
            v = self.evalb(a[1], env)
            r = r.meet(Iv.rng(0, 1) if v is None else Iv.c(1 if v else 0))
        elif k == 'modi': r = r.meet(Iv.rng(0, a[2] - 1))
        elif k == 'fdivi':
            x = self.term_iv(a[1], env, depth + 1)
            r = r.meet(Iv(None if x.lo is None else Fraction(x.lo // a[2]), False, None if x.hi is None else Fraction(x.hi // a[2]), False))
        elif k == 'toint':
            x = self.term_iv(a[1], env, depth + 1)
            tr = lambda z: Fraction(int(z))
            r = r.meet(Iv(None if x.lo is None else tr(x.lo), False, None if x.hi is None else tr(x.hi), False))
        elif k == 'sel':
            c = self.evalb(a[1], env)
            if c is True: r = r.meet(self.term_iv(a[2], env, depth + 1))
            elif c is False: r = r.meet(self.term_iv(a[3], env, depth + 1))
            else:
                e1 = self.refine(env, a[1], True); e2 = self.refine(env, a[1], False)
                x = self.term_iv(a[2], e1, depth + 1) if e1 is not None else None
                y = self.term_iv(a[3], e2, depth + 1) if e2 is not None else None
                if x is not None or y is not None:
                    r = r.meet(x if y is None else y if x is None else x.join(y))
        elif k == 'rat': r = r.meet(self.term_iv(a, env, depth + 1)) if depth < 12 else r
        elif k == 'i': r = r.meet(Iv.c(a[1]))
        if self.inputs is not None:
            x = self.inputs(a)
            if x is not None: r = r.meet(x)
        return r
    def isnan(self, t, env):
        v = env.bl.get(('isnan', t))
        if v is not None: return v
        if t[0] in ('f', 'i'): return t == ('f', 'nan')
        if t[0] in ('poly', 'rat'):
            r = [self.isnan(a, env) for part in t[1:] for k, v in part for a, e in k]
            if any(x is True for x in r): return True
            if all(x is False for x in r): return False
            return None
        if t[0] == 'sel':
            c = self.evalb(t[1], env)
            if c is not None: return self.isnan(t[2] if c else t[3], env)
            x, y = self.isnan(t[2], env), self.isnan(t[3], env)
            return x if x == y else None
        if t[0] == 'call' and t[1] in ('fabs', 'floor', 'ceil', 'sin', 'cos', 'exp', 'sqrt'):
            v = self.isnan(t[2][0], env)
            return v if t[1] in ('fabs', 'floor', 'ceil') or v else (False if self.nonan else None)
        return False if self.nonan else None
    def evalb(self, t, env):
        k = t[0]
        if k == 'i': return bool(t[1] & 1)
        v = env.bl.get(t)
        if v is not None: return v
        if k == 'not':
            v = self.evalb(t[1], env); return None if v is None else not v
        if k == 'and':
            r = True
            e = env
            for x in t[1]:
                v = self.evalb(x, e)
                if v is False: return False
                if v is None: r = None
            return r
        if k == 'or':
            r = False
            for x in t[1]:
                v = self.evalb(x, env)
                if v is True: return True
                if v is None: r = None
            return r
        if k == 'isnan': return self.isnan(t[1], env)
        if k == 'cmp':
            _, q, rel, c, kind = t
            p = Poly(dict(q))
            if kind[0] == 'f':
                ns = [self.isnan(a, env) for a in p.atoms()]
                if any(n is True for n in ns): return kind == 'fu'
                maybe = any(n is None for n in ns)
            else: maybe = False
            iv = self.poly_iv(p, env)
            r = cmp_iv(iv, rel, c)
            if r is None and len(q) == 1 and len(q[0][0]) == 1 and q[0][1] == 1 and q[0][0][0][0][0] == 'rat':
                # n/d rel c  <=>  (n - c d) rel 0 for d > 0
                R = self.fn.R(q[0][0][0][0]); div = self.poly_iv(R.d, env)
                if div.lo is not None and (div.lo > 0 or div.lo == 0 and (div.lx or self.nonzero(R.d, env))): r = cmp_iv(self.poly_iv(R.n - R.d.scale(c), env), rel, Fraction(0))
                elif div.hi is not None and (div.hi < 0 or div.hi == 0 and self.nonzero(R.d, env)): r = cmp_iv(self.poly_iv(R.d.scale(c) - R.n, env), rel, Fraction(0))
            if r is None: return None
            if maybe and r != (kind == 'fu'): return None
            return r
        if k == 'sel':
            c = self.evalb(t[1], env)
            if c is not None: return self.evalb(t[2] if c else t[3], env)
            x, y = self.evalb(t[2], env), self.evalb(t[3], env)
            return x if x == y else None
        if k == 'b':
            u = t[1]
            if u[0] == 'i': return bool(u[1] & 1)
            if u[0] == 'call' and u[1].endswith('::empty') and len(u[2]) == 1:
                for kk, vv in env.iv.items():
                    if len(kk) == 1 and len(kk[0][0]) == 1:
                        a = kk[0][0][0][0]
                        if a[0] == 'call' and a[1].endswith('::size') and a[2] == u[2] and kk[0][1] == 1:
                            if vv.lo is not None and (vv.lo > 0): return False
                            if vv.hi is not None and vv.hi <= 0: return True
            return None
        return None
    def nonzero(self, d, env):
        """is a fact 'k*d != 0' recorded?"""
        c = d.cval(); q = d - Poly.const(c)
        if not q.m: return c != 0
        lc = q.m[ir.lead(q)]; q = ir.freeze(q.scale(1 / lc)); c = -c / lc
        for k, v in env.bl.items():
            if k[0] == 'cmp' and k[1] == q and k[3] == c and (k[2] == '!=' and v is True or k[2] == '==' and v is False): return True
        return False
    def refine(self, env, t, truth):
        v = self.evalb(t, env)
        if v is not None: return env if v == truth else None
        k = t[0]
        if k == 'not': return self.refine(env, t[1], not truth)
        if k == 'and':
            if truth:
                for _ in range(2):
                    for x in t[1]:
                        env = self.refine(env, x, True)
                        if env is None: return None
                return env
            und = [x for x in t[1] if self.evalb(x, env) is not True]
            if len(und) == 1: return self.refine(env, und[0], False)
            e = env.copy(); e.bl[t] = False; return e
        if k == 'or':
            if not truth:
                for _ in range(2):
                    for x in t[1]:
                        env = self.refine(env, x, False)
                        if env is None: return None
                return env
            und = [x for x in t[1] if self.evalb(x, env) is not False]
            if len(und) == 1: return self.refine(env, und[0], True)
            e = env.copy(); e.bl[t] = True; return e
        if k == 'cmp':
            if not truth:
                t = neg_cmp(t)
            _, q, rel, c, kind = t
            if kind[0] == 'f' and kind == 'fu':
                # true also when unordered: only usable if no NaN possible
                p = Poly(dict(q))
                if any(self.isnan(a, env) is not False for a in p.atoms()):
                    e = env.copy(); e.bl[t] = True; return e
            iv = rel_iv(rel, c)
            if iv is None:
                e = env.copy(); e.bl[t] = True; e.bl[neg_cmp(t)] = False
                # x != c at an interval end point
                p = Poly(dict(q)); cur = self.poly_iv(p, env)
                if kind[0] != 'f' and intpoly(p):
                    if cur.lo == c: return self.set_iv(e, p, Iv.ge(c + 1))
                    if cur.hi == c: return self.set_iv(e, p, Iv.le(c - 1))
                else:
                    if cur.lo == c: return self.set_iv(e, p, Iv.gt(c))
                    if cur.hi == c: return self.set_iv(e, p, Iv.lt(c))
                return e
            return self.set_iv(env, Poly(dict(q)), iv)
        if k == 'isnan':
            e = env.copy(); e.bl[t] = truth; return e
        e = env.copy(); e.bl[t] = truth
        if k == 'sel':
            # sel(c,a,b)==truth: no further refinement
            pass
        return e
    # -- fixpoint
    def edge_env(self, b, s, env):
        fn = self.fn; blk = fn.blocks[b]
        for i in blk:
            if i.op == 'call' and i.d.get('callee') == 'llvm.assume':
                env = self.refine(env, fn.T(i.ops[0]), True)
                if env is None: return None
        term = blk[-1]
        if term.op == 'br' and term.ops:
            sc = fn.succ[b]
            if len(sc) == 2 and sc[0] != sc[1]:
                return self.refine(env, fn.T(term.ops[0]), s == sc[0])
        if term.op == 'switch':
            t = fn.T(term.ops[0])
            vals = [int(c[0]['v']) for c in term.d['cases'] if c[1] == s]
            if s != term.d['dflt'] and vals:
                p = fn.R(t)
                if p.is_poly():
                    iv = Iv.c(vals[0])
                    for v in vals[1:]: iv = iv.join(Iv.c(v))
                    if t[0] == 'b2i' and len(vals) == 1: return self.refine(env, t[1], bool(vals[0]))
                    return self.set_iv(env, p.poly(), iv)
            elif s == term.d['dflt'] and not vals:
                p = fn.R(t)
                if p.is_poly():
                    e = env
                    for c, d in term.d['cases']:
                        v = int(c['v'])
                        x = mkcmp(fn, p - Rat.const(v), '!=', 's', (t, ('i', v)))
                        e = self.refine(e, x, True)
                        if e is None: return None
                    return e
        return env
    def run(self):
        fn = self.fn
        self.IN = {0: self.entry}; self.edges = set()
        cnt = {}
        work = [0]
        self.edge_out = {}
        it = 0
        while work:
            work.sort(key=lambda b: fn.rpoidx[b])
            b = work.pop(0); it += 1
            if it > 6000: break
            env = self.IN[b]
            for s in dict.fromkeys(fn.succ[b]):
                e = self.edge_env(b, s, env)
                if e is None:
                    if (b, s) in self.edge_out: del self.edge_out[(b, s)]
                    continue
                old = self.edge_out.get((b, s))
                self.edge_out[(b, s)] = e
                new = self.join_block(s)
                if s not in self.IN or not (self.IN[s] == new):
                    cnt[s] = cnt.get(s, 0) + 1
                    if s in self.IN and s in fn.loops and cnt[s] > 3: new = self.widen(self.IN[s], new)
                    if cnt[s] > 40: new = Env()
                    if s not in self.IN or not (self.IN[s] == new):
                        self.IN[s] = new
                        if s not in work: work.append(s)
        self.reach = set(self.IN)
    def join_block(self, s):
        fn = self.fn
        outs = [(p, self.edge_out[(p, s)]) for p in dict.fromkeys(fn.pred[s]) if (p, s) in self.edge_out]
        base = None
        for p, e in outs:
            if base is None: base = e.copy()
            else:
                iv = {}
                for k in set(base.iv) | set(e.iv):
                    a = base.iv.get(k); c = e.iv.get(k)
                    if a is None: a = self.poly_iv(Poly(dict(k)), base)
                    if c is None: c = self.poly_iv(Poly(dict(k)), e)
                    j = a.join(c)
                    if not j.top(): iv[k] = j
                bl = {}
                for k, v in base.bl.items():
                    w = e.bl.get(k)
                    if w is None: w = self.evalb(k, e)
                    if w == v: bl[k] = v
                for k, v in e.bl.items():
                    if k not in bl and k not in base.bl and self.evalb(k, base) == v: bl[k] = v
                base = Env(iv, bl)
        base = self.kill(base, s)
        # phi nodes
        add = []
        for i in fn.blocks[s]:
            if i.op != 'phi': break
            t = fn.T(i.n)
            if t[0] != 'phi' or t[1] != i.n: continue
            if i.ty in ('ptr',): continue
            j = None; bj = 'x'
            for o, pb in zip(i.ops, i.d['inc']):
                if (pb, s) not in self.edge_out: continue
                e = self.edge_out[(pb, s)]; x = fn.T(o)
                if i.ty == 'i1':
                    v = self.evalb(x, e) if x[0] in BOOLT or x[0] in ('phi', 'sel') else e.bl.get(x)
                    bj = v if bj == 'x' else (bj if bj == v else None)
                    continue
                if x == ('undef',): continue
                iv = self.term_iv(x, e); j = iv if j is None else j.join(iv)
                if i.ty == 'double':
                    v = self.isnan(x, e); 
                    bj = v if bj == 'x' else (bj if bj == v else None)
            if i.ty == 'i1':
                if bj in (True, False): add.append(('b', t, bj))
            elif j is not None:
                if not j.top(): add.append(('iv', freeze(Poly.atom(t)), j))
                if i.ty == 'double' and bj in (True, False): add.append(('b', ('isnan', t), bj))
        if add:
            base = base.copy()
            for a in add:
                if a[0] == 'iv': base.iv[a[1]] = a[2]
                else: base.bl[a[1]] = a[2]
        return base
    def widen(self, old, new):
        iv = {}
        for k, v in new.iv.items():
            o = old.iv.get(k)
            if o is None: continue
            lo, lx = (o.lo, o.lx) if o.lo is not None and v.lo is not None and (v.lo > o.lo or (v.lo == o.lo and (v.lx or not o.lx))) else (None, False)
            hi, hx = (o.hi, o.hx) if o.hi is not None and v.hi is not None and (v.hi < o.hi or (v.hi == o.hi and (v.hx or not o.hx))) else (None, False)
            n = Iv(lo, lx, hi, hx)
            if not n.top(): iv[k] = n
        return Env(iv, {k: v for k, v in new.bl.items() if old.bl.get(k) == v})
    # -- queries
    def reachable(self, i): return i.blk in self.reach
    def edge_ok(self, b, s): return (b, s) in self.edge_out
    def env_at(self, i): return self.IN.get(i.blk)
    def exits(self): return [b for b in self.reach if self.fn.blocks[b][-1].op == 'ret']
    def resolve(self, t, blk=None, depth=0):
        """term with phis/selects decided by the pruned CFG"""
        fn = self.fn
        if depth > 30: return t
        k = t[0]
        if k == 'phi':
            i = fn.val.get(t[1])
            if i is None: return t
            outs = set()
            for o, pb in zip(i.ops, i.d['inc']):
                if (pb, i.blk) in self.edge_out: outs.add(fn.T(o))
            outs.discard(('undef',))
            if i.blk not in fn.loops and len(outs) > 1: outs = {self.resolve(o, None, depth + 1) for o in outs}
            if len(outs) == 1:
                return self.resolve(next(iter(outs)), blk, depth + 1)
            return t
        if k == 'sel':
            env = self.IN.get(blk, self.entry) if blk is not None else self.entry
            c = self.evalb(self.resolve(t[1], blk, depth + 1), env)
            if c is True: return self.resolve(t[2], blk, depth + 1)
            if c is False: return self.resolve(t[3], blk, depth + 1)
            return mk_sel(self.resolve(t[1], blk, depth + 1), self.resolve(t[2], blk, depth + 1), self.resolve(t[3], blk, depth + 1))
        if k in ('poly', 'rat'):
            r = fn.R(t)
            mp = {}
            for a in r.n.atoms() | r.d.atoms():
                b = self.resolve(a, blk, depth + 1)
                if b != a: mp[a] = b
            if not mp: return t
            return fn.fromrat(subst_rat(fn, r, mp))
        if k == 'call' and len(t) == 3 and isinstance(t[2], tuple):
            return t[:2] + (tuple(self.resolve(x, blk, depth + 1) for x in t[2]),)
        if k in ('toint', 'b2i'):
            return (k, self.resolve(t[1], blk, depth + 1))
        return t
    def final_stores(self, addr, size=None):
        """last stores to addr that reach a reachable return: list of (store or None, term);
           (None, None) = untouched, (ins, None) = clobbered by a call"""
        fn = self.fn; out = []; seen = set()
        st = [(b, len(fn.blocks[b])) for b in self.exits()]
        while st:
            b, k = st.pop()
            hit = None
            for i in reversed(fn.blocks[b][:k]):
                if i.op == 'store' and fn.T(i.ops[1]) == addr: hit = (i, fn.T(i.ops[0])); break
                if i.op == 'call' and not i.d.get('ro') and not i.d.get('rn') and (i.d.get('callee') or 'x').split('.')[0] != 'llvm' and call_may_touch(fn, i, addr): hit = (i, None); break
                if i.op == 'call' and (i.d.get('callee') or '').startswith('llvm.mem') and overlaps_root(fn, fn.T(i.ops[0]), addr): hit = (i, None); break
            if hit: out.append(hit); continue
            if b == 0: out.append((None, None)); 
            for p in fn.pred[b]:
                if (p, b) in self.edge_out and p not in seen:
                    seen.add(p); st.append((p, len(fn.blocks[p])))
        res = []
        for h in out:
            if h not in res: res.append(h)
        return res

def quad_iv(p):
    """sign of a quadratic polynomial whose homogenised form is semidefinite"""
    if not p.m or max(sum(e for a, e in k) for k in p.m) != 2: return TOP
    at = sorted(p.atoms(), key=akey)
    if len(at) > 8: return TOP
    n = len(at) + 1; ix = {a: i for i, a in enumerate(at)}
    def psd(s):
        M = [[Fraction(0)] * n for _ in range(n)]
        for k, v in p.m.items():
            v = v * s
            l = [ix[a] for a, e in k for _ in range(e)] + [n - 1] * (2 - sum(e for a, e in k))
            M[l[0]][l[1]] += v / 2; M[l[1]][l[0]] += v / 2
        for i in range(n - 1):
            if M[i][i] < 0: return None
            if M[i][i] == 0:
                if any(M[i][j] for j in range(i, n)): return None
                continue
            for j in range(i + 1, n):
                f = M[j][i] / M[i][i]
                if f:
                    for k in range(i, n): M[j][k] -= f * M[i][k]
        return M[n - 1][n - 1]
    v = psd(1)
    if v is not None: return Iv.ge(v)
    v = psd(-1)
    if v is not None: return Iv.le(-v)
    return TOP

def subst_rat(fn, r, mp):
    def sub(p):
        acc = Rat.const(0)
        for k, v in p.m.items():
            t = Rat.const(v)
            for a, e in k:
                f = fn.R(mp[a]) if a in mp else Rat.atom(a)
                for _ in range(e): t = t * f
            acc = acc + t
        return acc
    return sub(r.n) / sub(r.d)

def root(t):
    while True:
        if t[0] == 'off': t = t[1]
        else: return t
def root_deep(t):
    """base object through loads and accessor calls"""
    while True:
        if t[0] == 'off': t = t[1]
        elif t[0] == 'load': t = t[1]
        elif t[0] == 'call' and len(t) > 2 and t[2]: t = t[2][0]
        else: return t
def overlaps_root(fn, a, b): return root(a) == root(b)
def call_may_touch(fn, i, addr):
    """conservative: a writing call may change addr if it receives a pointer into the same object"""
    r = root(addr)
    for o in i.ops:
        t = fn.T(o)
        if root(t) == r:
            if t == r or r[0] != 'arg': return True
            # pointer to a member: touches addr only if addr lies at or above that member
            if t[0] == 'off' and addr[0] == 'off' and not t[3] and not addr[3] and addr[2] < t[2]: continue
            if t[0] == 'off' and addr == r: continue
            # container members are opaque: they own their own bytes only
            nm = fn.callee(i)
            if nm.startswith('std::') and t[0] == 'off' and addr[0] == 'off' and (addr[2] >= t[2] + 64 or addr[2] < t[2]): continue
            if nm.startswith('std::') and t[0] == 'off' and addr[0] == 'off' and addr != t: continue
            return True
    return False

def cmp_iv(iv, rel, c):
    lo, hi = iv.lo, iv.hi
    if rel == '<':
        if hi is not None and (hi < c or hi == c and iv.hx): return True
        if lo is not None and lo >= c: return False
    elif rel == '<=':
        if hi is not None and hi <= c: return True
        if lo is not None and (lo > c or lo == c and iv.lx): return False
    elif rel == '>':
        if lo is not None and (lo > c or lo == c and iv.lx): return True
        if hi is not None and hi <= c: return False
    elif rel == '>=':
        if lo is not None and lo >= c: return True
        if hi is not None and (hi < c or hi == c and iv.hx): return False
    elif rel in ('==', '!='):
        r = None
        if lo is not None and hi is not None and lo == hi == c and not iv.lx and not iv.hx: r = True
        elif lo is not None and (lo > c or lo == c and iv.lx): r = False
        elif hi is not None and (hi < c or hi == c and iv.hx): r = False
        if r is not None: return r if rel == '==' else not r
    return None
def rel_iv(rel, c):
    return {'<': Iv.lt(c), '<=': Iv.le(c), '>': Iv.gt(c), '>=': Iv.ge(c), '==': Iv.c(c)}.get(rel)
