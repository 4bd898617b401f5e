"""SSA/CFG model of the normalised IR exported by irx, plus canonical value terms.

Nothing is executed.  A value is described by a *term*; terms are canonicalised to rational
functions over opaque atoms (loads, call results, phis, non-linear operators), so that
syntactically different but algebraically equal code gets the same term.
"""
import json, math, re, functools
from fractions import Fraction

# ---------------------------------------------------------------- polynomials
class Poly(object):
    """multivariate polynomial; keys are sorted tuples ((atom,exp),...), values Fractions"""
    __slots__ = ('m', '_h')
    def __init__(self, m=None): self.m = m or {}; self._h = None
    @staticmethod
    def const(c): c = Fraction(c); return Poly({(): c} if c else {})
    @staticmethod
    def atom(a): return Poly({((a, 1),): Fraction(1)})
    def is_const(self): return all(k == () for k in self.m)
    def cval(self): return self.m.get((), Fraction(0))
    def __add__(s, o):
        r = dict(s.m)
        for k, v in o.m.items():
            n = r.get(k, 0) + v
            if n: r[k] = n
            else: r.pop(k, None)
        return Poly(r)
    def scale(s, c): c = Fraction(c); return Poly({k: v * c for k, v in s.m.items()} if c else {})
    def __neg__(s): return s.scale(-1)
    def __sub__(s, o): return s + (-o)
    def __mul__(s, o):
        r = {}
        for k1, v1 in s.m.items():
            for k2, v2 in o.m.items():
                k = mulmono(k1, k2)
                n = r.get(k, 0) + v1 * v2
                if n: r[k] = n
                else: r.pop(k, None)
        return Poly(r)
    def __eq__(s, o): return isinstance(o, Poly) and s.m == o.m
    def __hash__(s):
        if s._h is None: s._h = hash(frozenset(s.m.items()))
        return s._h
    def atoms(self):
        r = set()
        for k in self.m:
            for a, e in k: r.add(a)
        return r
    def key(self):
        return tuple(sorted(((tuple((akey(a), e) for a, e in k)), v) for k, v in self.m.items()))
    def subst(self, mp):
        r = Poly()
        for k, v in self.m.items():
            t = Poly.const(v)
            for a, e in k:
                f = mp.get(a); f = Poly.atom(a) if f is None else f
                for _ in range(e): t = t * f
            r = r + t
        return r
    def __repr__(self): return pp_poly(self)

_akey = {}
def akey(a):
    """stable total order on atoms"""
    r = _akey.get(a)
    if r is None: r = _akey[a] = repr(a)
    return r
def mulmono(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for k, e in b: d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items(), key=lambda t: akey(t[0])))

# a check whose obligations do not concern divisions by zero may have exact divisions of polynomials carried out
CANCEL = False
_ediv = {}
def exact_div(n, d):
    """n / d when it is a polynomial"""
    key = (n, d)
    if key in _ediv: return _ediv[key]
    at = sorted(n.atoms() | d.atoms(), key=akey); ix = {a: i for i, a in enumerate(at)}
    def vec(p):
        r = {}
        for k, v in p.m.items():
            e = [0] * len(at)
            for a, x in k: e[ix[a]] = x
            r[tuple(e)] = v
        return r
    N, D = vec(n), vec(d); ld = max(D); q = {}; r = None
    for _ in range(200):
        if not N: r = Poly({tuple((at[i], x) for i, x in enumerate(e) if x): v for e, v in q.items()}); break
        ln = max(N); m = tuple(a - b for a, b in zip(ln, ld))
        if min(m, default=0) < 0: break
        c = N[ln] / D[ld]; q[m] = c
        for e, v in D.items():
            k = tuple(a + b for a, b in zip(e, m)); w = N.get(k, 0) - c * v
            if w: N[k] = w
            else: N.pop(k, None)
    _ediv[key] = r
    return r

class Rat(object):
    """quotient of polynomials, compared by cross multiplication"""
    __slots__ = ('n', 'd')
    def __init__(self, n, d=None): self.n = n; self.d = d if d is not None else Poly.const(1)
    @staticmethod
    def const(c): return Rat(Poly.const(c))
    @staticmethod
    def atom(a): return Rat(Poly.atom(a))
    def norm(self):
        if self.d.is_const() and self.d.m: return Rat(self.n.scale(1 / self.d.cval()))
        if CANCEL and self.d.m:
            q = exact_div(self.n, self.d)
            if q is not None: return Rat(q)
        return self
    def __add__(s, o):
        if s.d == o.d: return Rat(s.n + o.n, s.d)
        return Rat(s.n * o.d + o.n * s.d, s.d * o.d)
    def __neg__(s): return Rat(-s.n, s.d)
    def __sub__(s, o): return s + (-o)
    def __mul__(s, o):
        if s.d == o.n: return Rat(s.n, o.d)
        if o.d == s.n: return Rat(o.n, s.d)
        return Rat(s.n * o.n, s.d * o.d)
    def __truediv__(s, o):
        if s.d == o.d: return Rat(s.n, o.n)
        if s.n == o.n: return Rat(o.d, s.d)
        return Rat(s.n * o.d, s.d * o.n)
    def same(s, o): return (s.n * o.d) == (o.n * s.d)
    def is_poly(s): return s.d.is_const() and bool(s.d.m)
    def poly(s): return s.n.scale(1 / s.d.cval()) if s.is_poly() else None
    def __repr__(s): return repr(s.n) if s.d == Poly.const(1) else '(%r)/(%r)' % (s.n, s.d)

def pp_poly(p):
    if not p.m: return '0'
    out = []
    for k, v in sorted(p.m.items(), key=lambda t: (len(t[0]), repr(t[0]))):
        f = '*'.join(pp(a) + ('^%d' % e if e > 1 else '') for a, e in k)
        if not f: out.append(str(v))
        elif v == 1: out.append(f)
        elif v == -1: out.append('-' + f)
        else: out.append('%s*%s' % (v, f))
    return ' + '.join(out).replace('+ -', '- ')

# ---------------------------------------------------------------- pretty printing of terms
def pp(t):
    if isinstance(t, Poly): return pp_poly(t)
    if isinstance(t, Rat): return repr(t)
    if not isinstance(t, tuple): return str(t)
    k = t[0]
    if k == 'i': return str(t[1])
    if k == 'f': return str(float(t[1])) if isinstance(t[1], Fraction) else str(t[1])
    if k == 'arg': return t[2] if len(t) > 2 and t[2] else 'arg%d' % t[1]
    if k == 'off':
        s = pp(t[1])
        if t[2]: s += '+%d' % t[2]
        for v, sc in t[3]: s += '+%s*%d' % (pp(v), sc)
        return s
    if k == 'poly': return '(%s)' % pp_poly(Poly(dict(t[1])))
    if k == 'rat': return '(%s)/(%s)' % (pp_poly(Poly(dict(t[1]))), pp_poly(Poly(dict(t[2]))))
    if k in ('and', 'or'): return '(' + (' && ' if k == 'and' else ' || ').join(pp(x) for x in t[1]) + ')'
    if k == 'cmp': return '%s %s %s' % (pp_poly(Poly(dict(t[1]))), t[2], t[3])
    if k == 'load': return '[%s]' % pp(t[1])
    if k == 'call': return '%s(%s)' % (t[1].split('::')[-1] if isinstance(t[1], str) else pp(t[1]), ', '.join(pp(x) for x in t[2]))
    if k in ('phi', 'alloca', 'res', 'opq', 'undef'): return '%s%s' % (k, t[1] if len(t) > 1 else '')
    return '%s(%s)' % (k, ', '.join(pp(x) for x in t[1:]))

# ---------------------------------------------------------------- names
def strip_templates(d):
    """demangled name without template arguments, return type and parameter list"""
    out = []; depth = 0; i = 0
    d = d.replace('operator<<', 'operator@L').replace('operator>>', 'operator@R').replace('operator->', 'operator@A').replace('operator<=', 'operator@le').replace('operator>=', 'operator@ge').replace('operator<', 'operator@lt').replace('operator>', 'operator@gt')
    d = d.replace('operator()', 'operator@C')
    d = d.replace('(anonymous namespace)', '@anon')
    for ch in d:
        if ch == '<': depth += 1; continue
        if ch == '>': depth -= 1; continue
        if depth == 0: out.append(ch)
    s = ''.join(out)
    # cut parameter list
    j = s.find('(')
    if j >= 0: s = s[:j]
    # drop return type: last space outside, but keep 'operator new' / 'operator bool'
    m = re.search(r'operator\b', s)
    if m:
        pre = s[:m.start()]; post = s[m.start():]
        pre = pre.split(' ')[-1]
        s = pre + post
    else:
        s = s.strip().split(' ')[-1]
    for a, b in (('operator@L', 'operator<<'), ('operator@R', 'operator>>'), ('operator@A', 'operator->'), ('operator@le', 'operator<='), ('operator@ge', 'operator>='), ('operator@lt', 'operator<'), ('operator@gt', 'operator>'), ('operator@C', 'operator()')):
        s = s.replace(a, b)
    s = s.replace('std::__cxx11::', 'std::').replace('std::__shared_ptr_access', 'std::shared_ptr').replace('std::__shared_ptr', 'std::shared_ptr')
    return s.strip()

CFOLD = {'fabs': abs, 'floor': math.floor, 'ceil': math.ceil, 'ftrunc': math.trunc, 'round': lambda x: math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1), 'smax': max, 'smin': min, 'umax': max, 'umin': min, 'fmax': max, 'fmin': min,
  'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'acos': math.acos, 'exp': math.exp, 'log': math.log, 'atan2': math.atan2}
PURE_MATH = {'llvm.fabs': 'fabs', 'llvm.floor': 'floor', 'llvm.ceil': 'ceil', 'llvm.sqrt': 'sqrt', 'llvm.sin': 'sin', 'llvm.cos': 'cos', 'llvm.exp': 'exp', 'llvm.exp2': 'exp2', 'llvm.log': 'log', 'llvm.pow': 'pow', 'llvm.round': 'round', 'llvm.trunc': 'ftrunc', 'llvm.maxnum': 'fmax', 'llvm.minnum': 'fmin', 'llvm.copysign': 'copysign', 'llvm.powi': 'powi', 'llvm.rint': 'rint', 'llvm.nearbyint': 'rint', 'llvm.lround': 'lround', 'llvm.smax': 'smax', 'llvm.smin': 'smin', 'llvm.umax': 'umax', 'llvm.umin': 'umin', 'llvm.abs': 'iabs',
  'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'atan2': 'atan2', 'atan': 'atan', 'asin': 'asin', 'acos': 'acos', 'exp': 'exp', 'log': 'log', 'log2': 'log2', 'pow': 'pow', 'sqrt': 'sqrt', 'fmod': 'fmod', 'floor': 'floor', 'ceil': 'ceil', 'round': 'round', 'fabs': 'fabs', 'lround': 'lround', 'fmax': 'fmax', 'fmin': 'fmin', 'remainder': 'remainder', 'hypot': 'hypot', 'log10': 'log10', 'ldexp': 'ldexp', 'std::round': 'round', 'exp2': 'exp2', 'cbrt': 'cbrt', 'log1p': 'log1p'}

class Ins(object):
    __slots__ = ('op', 'n', 'ty', 'ops', 'loc', 'blk', 'idx', 'd', 'fn', 'gid')
    def __init__(s, d, blk, idx, fn):
        s.op = d['op']; s.n = d.get('n'); s.ty = d.get('ty'); s.ops = d.get('ops', []); s.loc = d.get('loc'); s.blk = blk; s.idx = idx; s.d = d; s.fn = fn
    def where(s):
        """innermost location in the repository"""
        if not s.loc: return s.fn.where()
        for l in s.loc:
            if '/src/' in l[0] and '/c++/' not in l[0]: return '%s:%d' % (repo_rel(l[0]), l[1])
        return '%s:%d' % (s.loc[0][0], s.loc[0][1])
    def infn(s):
        if not s.loc: return s.fn.name
        for l in s.loc:
            if '/src/' in l[0] and '/c++/' not in l[0]: return l[2]
        return s.loc[0][2]
    def chain(s):
        return [('%s:%d' % (repo_rel(l[0]), l[1]), l[2]) for l in (s.loc or []) if '/src/' in l[0] and '/c++/' not in l[0]]
    def __repr__(s): return '<%s %s @%s>' % (s.op, s.n, s.where())

def repo_rel(f):
    i = f.find('/src/')
    return 'src/' + norm_path(f[i + 5:]) if i >= 0 and '/c++/' not in f else f
def norm_path(p):
    out = []
    for c in p.split('/'):
        if c == '..': out and out.pop()
        elif c not in ('.', ''): out.append(c)
    return '/'.join(out)

class Module(object):
    def __init__(self, js):
        self.js = js; self.types = js['types']; self.decls = js['decls']; self.globals = js['globals']; self.vtables = js['vtables']
        self.fns = {}
        for f in js['functions']: self.fns[f['name']] = Fn(f, self)
        self.byname = {}
        for k, t in self.types.items():
            if not t['decl']: self.byname.setdefault(t['name'], k)
    def short(self, mangled):
        d = self.decls.get(mangled)
        return strip_templates(d['d'] if d else mangled)
    def type_id(self, name): return self.byname.get(name)
    def fields(self, tid, base=0, prefix='', out=None, depth=0):
        """flat list of (offset, size, path, typeref) of the leaves of a class"""
        if out is None: out = []
        t = self.types[tid]
        for b in t['bases']:
            bt = b['ty'].get('t') if isinstance(b['ty'], dict) else None
            if bt: self.fields(bt, base + b['off'], prefix, out, depth + 1)
        for m in t['members']:
            ty = m['ty']
            mt = ty.get('t') if isinstance(ty, dict) else None
            nm = m['n']
            if nm.startswith('_vptr'): continue
            if mt and self.types[mt]['tag'] in (0x02, 0x13) and not self.types[mt]['name'].startswith('std::') and not self.types[mt]['decl'] and (self.types[mt]['members'] or self.types[mt]['bases']) and depth < 8:
                self.fields(mt, base + m['off'], prefix + nm + '.', out, depth + 1)
            else:
                sz = m['size']
                if mt: sz = self.types[mt]['size'] or sz
                out.append((base + m['off'], sz, prefix + nm, ty))
        return out
    def field_off(self, cls, path):
        tid = self.byname.get(cls)
        if tid is None: return None
        for o, s, p, ty in self.fields(tid):
            if p == path: return o
        return None
    def sizeof(self, cls):
        tid = self.byname.get(cls); return self.types[tid]['size'] if tid else None

class Fn(object):
    def __init__(self, d, mod):
        self.d = d; self.mod = mod; self.name = d['name']; self.args = d['args']; self.sret = d.get('sret')
        self.blocks = []; self.val = {}; self.succ = {}; self.pred = {}
        for b in d['blocks']:
            self.succ[b['id']] = list(b['succ']); self.pred[b['id']] = list(b['preds'])
            self.blocks.append([Ins(i, b['id'], k, self) for k, i in enumerate(b['ins'])])
        self.memphi = {b['memphi']: b['id'] for b in d['blocks'] if 'memphi' in b}
        self.mdefblk = dict(self.memphi)
        self._scalarize()
        for bi, b in enumerate(self.blocks):
            for k, i in enumerate(b):
                i.idx = k
                if i.n: self.val[i.n] = i
                if 'mdef' in i.d: self.mdefblk[i.d['mdef']] = bi
        self._tc = {}; self._busy = set(); self.pin = None
        self._dom()
        self._mver = None
    def where(self): return '%s:%s' % (repo_rel(self.d.get('file', '?')), self.d.get('line', '?'))
    def instrs(self):
        for b in self.blocks:
            for i in b: yield i
    # ---- split 64-bit coerced {i32,i32} values into halves
    def _scalarize(self):
        users = {}; defs = {}
        for b in self.blocks:
            for i in b:
                if i.n: defs[i.n] = i
                for o in i.ops:
                    if isinstance(o, str): users.setdefault(o, []).append(i)
        def cint(o): return int(o['v']) if isinstance(o, dict) and o.get('k') == 'int' else None
        packs = {}
        work = []
        for b in self.blocks:
            for i in b:
                if i.op == 'lshr' and i.ty == 'i64' and cint(i.ops[1]) == 32 and isinstance(i.ops[0], str): work.append(i.ops[0])
        while work:
            v = work.pop()
            if v in packs or v not in defs: continue
            i = defs[v]
            if i.ty != 'i64': continue
            if i.op in ('load', 'or', 'phi', 'select', 'call', 'freeze'):
                packs[v] = i
                if i.op == 'phi': work += [o for o in i.ops if isinstance(o, str)]
                if i.op == 'select': work += [o for o in i.ops[1:] if isinstance(o, str)]
                for u in users.get(v, []):
                    if u.op in ('phi', 'select') and u.ty == 'i64': work.append(u.n)
        # or: only pack(or(shl(zext hi,32), zext lo))
        def half_of_or(i):
            a, b = i.ops
            for x, y in ((a, b), (b, a)):
                dx = defs.get(x) if isinstance(x, str) else None
                dy = defs.get(y) if isinstance(y, str) else None
                if dx is not None and dx.op == 'shl' and cint(dx.ops[1]) == 32:
                    z = defs.get(dx.ops[0]) if isinstance(dx.ops[0], str) else None
                    hi = z.ops[0] if z is not None and z.op in ('zext', 'sext') else {'k': 'int', 'w': 32, 'v': str(cint(dx.ops[0]))} if cint(dx.ops[0]) is not None else None
                    lo = dy.ops[0] if dy is not None and dy.op == 'zext' else ({'k': 'int', 'w': 32, 'v': str(cint(y))} if cint(y) is not None else None)
                    if hi is not None and lo is not None: return lo, hi
            return None
        changed = True
        while changed:
            changed = False
            for v, i in list(packs.items()):
                if i.op == 'or' and half_of_or(i) is None: del packs[v]; changed = True
        def half(o, h):
            if isinstance(o, str):
                if o in packs:
                    i = packs[o]
                    if i.op == 'or': return half_of_or(i)[h]
                    return o + ('.lo', '.hi')[h]
                return {'k': '?'}
            c = cint(o)
            if c is not None:
                w = (c >> (32 * h)) & 0xffffffff
                if w >= 1 << 31: w -= 1 << 32
                return {'k': 'int', 'w': 32, 'v': str(w)}
            return {'k': 'undef'}
        self.packs = packs
        if not packs: return
        for bi, b in enumerate(self.blocks):
            nb = []
            for i in b:
                if i.n in packs:
                    if i.op == 'or': nb.append(i); continue
                    nb.append(i)
                    for h in (0, 1):
                        dd = dict(i.d); dd['n'] = i.n + ('.lo', '.hi')[h]; dd['ty'] = 'i32'
                        if i.op == 'phi': dd['ops'] = [half(o, h) for o in i.ops]
                        elif i.op == 'select': dd['ops'] = [i.ops[0]] + [half(o, h) for o in i.ops[1:]]
                        elif i.op == 'load': dd['half'] = h; dd['sz'] = 4
                        elif i.op == 'call': dd['op'] = 'half'; dd['ops'] = [i.n]; dd['h'] = h
                        elif i.op == 'freeze': dd['ops'] = [half(i.ops[0], h)]
                        nb.append(Ins(dd, i.blk, 0, self))
                    continue
                if i.op == 'trunc' and i.ty == 'i32' and isinstance(i.ops[0], str):
                    s = i.ops[0]
                    if s in packs: i.op = 'copy'; i.ops = [half(s, 0)]
                    else:
                        ds = defs.get(s)
                        if ds is not None and ds.op == 'lshr' and cint(ds.ops[1]) == 32 and ds.ops[0] in packs: i.op = 'copy'; i.ops = [half(ds.ops[0], 1)]
                nb.append(i)
            self.blocks[bi] = nb
    # ---- dominators
    def _dom(self):
        n = len(self.blocks); order = []; seen = set()
        st = [(0, iter(self.succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(self.succ[s]))); break
            else: order.append(b); st.pop()
        order.reverse(); self.rpo = order; self.rpoidx = {b: i for i, b in enumerate(order)}
        idom = {0: 0}; ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while self.rpoidx[a] > self.rpoidx[c]: a = idom[a]
                        while self.rpoidx[c] > self.rpoidx[a]: c = idom[c]
                    new = a
                if idom.get(b) != new: idom[b] = new; ch = True
        self.idom = idom
        # loops: back edges
        self.backedges = [(b, s) for b in order for s in self.succ[b] if self.dominates_blk(s, b)]
        self.loops = {}
        for b, h in self.backedges:
            body = self.loops.setdefault(h, {h}); st = [b]
            while st:
                x = st.pop()
                if x not in body: body.add(x); st += [p for p in self.pred[x] if p in self.rpoidx]
    def dominates_blk(self, a, b):
        if b not in self.idom: return True
        while True:
            if a == b: return True
            if b == 0: return False
            b = self.idom[b]
    def dominates(self, i, j):
        """instruction i dominates instruction j"""
        if i.blk == j.blk: return i.idx < j.idx
        return self.dominates_blk(i.blk, j.blk)
    # ---- terms
    def T(self, o):
        """canonical term of an operand"""
        if isinstance(o, dict): return self.const(o)
        if o in self._tc: return self._tc[o]
        if o in self._busy: return ('opq', o)
        if o.startswith('a') and o[1:].isdigit():
            k = int(o[1:]); r = ('arg', k, self.args[k].get('name') or '')
            self._tc[o] = r; return r
        i = self.val.get(o)
        if i is None: return ('opq', o)
        self._busy.add(o)
        try: r = self._term(i)
        finally: self._busy.discard(o)
        self._tc[o] = r
        return r
    def const(self, o):
        k = o.get('k')
        if k == 'int': return ('i', int(o['v']))
        if k == 'fp':
            v = o['v']
            if v in ('nan', 'inf', '-inf'): return ('f', v)
            return ('f', Fraction(float.fromhex(v)))
        if k == 'null': return ('null',)
        if k == 'fn': return ('fnref', o['v'])
        if k == 'global': return ('global', o['v'])
        if k == 'gaddr':
            b = self.const(o['base']); return b if o['off'] == 0 else ('off', b, o['off'], ())
        if k == 'undef': return ('undef',)
        if k == 'zero': return ('f', Fraction(0)) if o.get('ty') in ('double', 'float') else ('i', 0)
        if k in ('agg',): return ('agg', tuple(self.const(x) for x in o['e']))
        return ('const', json.dumps(o, sort_keys=True))
    def addr(self, base, c, vs):
        if base[0] == 'off':
            c += base[2]; vs = tuple(base[3]) + tuple(vs); base = base[1]
        if vs:
            acc = {}
            for t, s in vs:
                acc[t] = acc.get(t, 0) + s
            nv = []
            for t, s in acc.items():
                if not s: continue
                # canonical: fold the index through its polynomial
                p = self.R(t)
                if p.is_poly():
                    q = p.poly(); cc = q.cval()
                    if cc.denominator == 1: c += int(cc) * s; q = q - Poly.const(cc)
                    t = self.fromrat(Rat(q))
                    if t == ('i', 0): continue
                nv.append((t, s))
            vs = tuple(sorted(nv, key=lambda x: (akey(x[0]), x[1])))
        if c == 0 and not vs: return base
        return ('off', base, c, vs)
    def _term(self, i):
        op = i.op; T = self.T
        if op == 'copy' or op == 'freeze': return T(i.ops[0])
        if op == 'half': return ('half', T(i.ops[0]), i.d['h'])
        if op == 'alloca': return ('alloca', i.n)
        if op == 'getelementptr':
            if i.d.get('badgep'): return ('opq', i.n)
            return self.addr(T(i.ops[0]), i.d['coff'], tuple((T(v), s) for v, s in i.d['voff']))
        if op == 'load':
            a = T(i.ops[0])
            if 'half' in i.d and i.d['half']: a = self.addr(a, 4, ())
            ty = i.ty
            g = self.glob_const(a, ty)
            if g is not None: return g
            return ('load', a, ty, i.d.get('mclob', -1 if 'mdef' not in i.d else -i.d['mdef']))
        if op == 'phi':
            if i.blk in self.loops: return ('phi', i.n)
            ts = {T(o) for o in i.ops}
            ts.discard(('undef',))
            if len(ts) == 1: return next(iter(ts))
            return ('phi', i.n)
        if op == 'select':
            c, a, b = (T(x) for x in i.ops)
            if i.ty == 'i1':
                if b == ('i', 0): return mk_and(c, a)
                if a == ('i', 1): return mk_or(c, b)
                if a == ('i', 0) and b == ('i', 1): return mk_not(c)
                if a == ('i', 0): return mk_and(mk_not(c), b)
                if b == ('i', 1): return mk_or(mk_not(c), a)
            if a == b: return a
            return mk_sel(c, a, b)
        if op == 'icmp': return self.cmp(i, False)
        if op == 'fcmp': return self.cmp(i, True)
        if op in ('zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'bitcast', 'ptrtoint', 'inttoptr'):
            t = T(i.ops[0])
            if op == 'sext' and i.ty != 'i1' and t[0] in BOOLT and t[0] != 'i': return ('sextb', t)
            if op == 'trunc' and i.ty == 'i1': 
                return t if t[0] in BOOLT else ('b', t)
            if op == 'trunc' and i.ty == 'i32':
                pk = self.packed(t)
                if pk: return pk[0]
                r = self.R(t).norm()
                if r.d.is_const() and all(c.denominator == 1 for c in map(Fraction, r.n.m.values())) and any(abs(c) >= 1 << 31 for c in r.n.m.values()):
                    # the low half of a packed pair: multiples of 2^32 vanish
                    w = {k: (Fraction(c) + (1 << 31)) % (1 << 32) - (1 << 31) for k, c in r.n.m.items()}
                    return self.fromrat(Rat(Poly({k: c for k, c in w.items() if c})))
            if op in ('sitofp', 'uitofp') and t[0] == 'i': return ('f', Fraction(t[1]))
            if op == 'uitofp' and t[0] in BOOLT: return ('b2i', t)
            if op == 'zext' and t[0] in BOOLT and t[0] != 'i': return ('b2i', t) if t[0] != 'b' else t[1]
            return t
        if op in ('fptosi', 'fptoui'):
            t = T(i.ops[0]); r = self.R(t)
            if t[0] == 'call' and t[1] in ('floor', 'ceil', 'ftrunc', 'round', 'rint'): return t
            if r.is_poly() and set(r.poly().m) <= {()}: return ('i', math.trunc(r.poly().cval()))
            v = self.pin('ftrunc', t) if self.pin is not None else None
            return ('toint', self.fromrat(r)) if v is None else v
        if op in ('add', 'sub', 'mul', 'fadd', 'fsub', 'fmul', 'fdiv', 'shl', 'fneg'):
            return self.fromrat(self.arith(i))
        if op in ('sdiv', 'udiv', 'ashr', 'lshr', 'srem', 'urem', 'and', 'or', 'xor', 'frem'):
            a, b = T(i.ops[0]), T(i.ops[1])
            if i.ty == 'i1':
                if op == 'and': return mk_and(a, b)
                if op == 'or': return mk_or(a, b)
                if op == 'xor':
                    if b == ('i', 1): return mk_not(a)
                    if a == ('i', 1): return mk_not(b)
                    return ('xor',) + tuple(sorted((a, b), key=akey))
            if a[0] == b[0] == 'i' and b[1] > 0 and (a[1] >= 0 or op in ('sdiv', 'srem', 'ashr')):
                q = abs(a[1]) // b[1] * (1 if a[1] >= 0 else -1)
                if op in ('sdiv', 'udiv'): return ('i', q)
                if op in ('srem', 'urem'): return ('i', a[1] - q * b[1])
            if op in ('sdiv', 'udiv') and a == ('i', 0): return a
            if op in ('sdiv', 'udiv', 'srem', 'urem') and b[0] != 'i' and self.canon(a) == self.canon(b): return ('i', 1 if op[1:] == 'div' else 0)
            if op in ('ashr', 'lshr') and a[0] == b[0] == 'i' and a[1] >= 0: return ('i', a[1] >> b[1])
            if op in ('ashr', 'lshr') and b == ('i', 32):
                pk = self.packed(a)
                if pk: return pk[1]
            if op in ('ashr', 'lshr') and b[0] == 'i': return ('fdivi', self.canon(a), 1 << b[1])
            if op == 'udiv' and b[0] == 'i': return ('fdivi', self.canon(a), b[1])
            if op == 'urem' and b[0] == 'i' or op == 'and' and b[0] == 'i' and (b[1] & (b[1] + 1)) == 0:
                m = b[1] if op == 'urem' else b[1] + 1
                ca = self.canon(a)
                if op == 'and' and ca[0] in ('b2i',): return ca
                return ('modi', ca, m)
            if op in ('and', 'or', 'xor') and a[0] == b[0] == 'i': return ('i', {'and': a[1] & b[1], 'or': a[1] | b[1], 'xor': a[1] ^ b[1]}[op])
            if op in ('and', 'or', 'xor'): return ('b' + op,) + tuple(sorted((self.canon(a), self.canon(b)), key=akey))  # bitwise on integers, not a condition
            return (op, self.canon(a), self.canon(b))
        if op == 'extractvalue':
            t = T(i.ops[0]); ix = tuple(i.d['idx'])
            while t[0] == 'insv':
                if t[3] == ix: return t[2]
                if t[3][:len(ix)] == ix or ix[:len(t[3])] == t[3]: break
                t = t[1]
            if t[0] == 'agg' and len(ix) == 1: return t[1][ix[0]]
            if t[0] == 'phi':
                ph = self.val.get(t[1])
            return ('extv', t, ix)
        if op == 'insertvalue': return ('insv', T(i.ops[0]), T(i.ops[1]), tuple(i.d['idx']))
        if op == 'call' or op == 'invoke': return self.callterm(i)
        return ('opq', i.n)
    def glob_const(self, a, ty):
        """load from a constant global with a known scalar initialiser"""
        off = 0; b = a
        if a[0] == 'off' and not a[3]: b, off = a[1], a[2]
        if b[0] != 'global': return None
        g = self.mod.globals.get(b[1])
        if not g or not g.get('const') or 'init' not in g: return None
        v = g['init']
        if v.get('k') in ('int', 'fp') and off == 0: return self.const(v)
        if v.get('k') == 'agg' and ty == 'double' and off % 8 == 0 and off // 8 < len(v['e']): return self.const(v['e'][off // 8])
        if v.get('k') == 'zero': return ('f', Fraction(0)) if ty == 'double' else ('i', 0)
        return None
    def callee(self, i):
        """short, template-free name of the called function; '' for indirect"""
        c = i.d.get('callee')
        return self.mod.short(c) if c else ''
    def callterm(self, i):
        c = i.d.get('callee')
        if not c: return ('res', i.n)
        nm = self.mod.short(c) if not c.startswith('llvm.') else c
        if c.startswith('llvm.is.fpclass') and len(i.ops) == 2:
            mask = self.T(i.ops[1]); x = self.canon(self.T(i.ops[0]))
            if mask == ('i', 3): return ('isnan', x)
            if mask == ('i', 1020): return mk_not(('isnan', x))
            return ('fpclass', x, mask[1])
        base = '.'.join(c.split('.')[:2]) if c.startswith('llvm.') else c
        m = PURE_MATH.get(base) or PURE_MATH.get(nm)
        if m and (i.ty in ('double', 'float') or m in ('lround', 'smax', 'smin', 'umax', 'umin', 'iabs')):
            args = [self.canon(self.T(x)) for x in i.ops]
            if m in ('fmax', 'fmin', 'smax', 'smin', 'umax', 'umin'):
                args = sorted(args[:2], key=akey)
            if m in ('pow', 'powi') and len(args) == 2 and args[1][0] in ('i', 'f') and isinstance(args[1][1], (int, Fraction)) and Fraction(args[1][1]).denominator == 1 and 0 <= args[1][1] <= 8:
                x = self.R(args[0]); p = Rat.const(1)
                for _ in range(int(args[1][1])): p = p * x
                return self.fromrat(p)
            if m == 'iabs': args = args[:1]; m = 'fabs'
            if m in CFOLD and all(x[0] in ('i', 'f') and isinstance(x[1], (int, Fraction)) for x in args):
                try:
                    v = CFOLD[m](*[Fraction(x[1]) for x in args])
                    return self.fromrat(Rat.const(v if isinstance(v, Fraction) else Fraction(v)))
                except (ValueError, OverflowError, TypeError): pass
            if self.pin is not None and m in ('floor', 'ceil', 'round', 'ftrunc', 'lround', 'fabs') and len(args) == 1:
                v = self.pin(m, args[0])
                if v is not None: return v
            if m in ('floor', 'ceil', 'round', 'ftrunc') and len(args) == 1: return ('call', m, tuple(args))
            if m == 'fabs':
                r = self.R(args[0])
                if r.is_poly() and leading_neg(r.poly()): return ('call', 'fabs', (self.canon(self.fromrat(-r)),))
            if m == 'sin' : 
                r = self.R(args[0]); 
                if r.is_poly() and leading_neg(r.poly()): return self.fromrat(-Rat.atom(('call', 'sin', (self.fromrat(-r),))))
            if m == 'cos':
                r = self.R(args[0])
                if r.is_poly() and leading_neg(r.poly()): return ('call', 'cos', (self.fromrat(-r),))
            return ('call', m, tuple(self.canon(x) for x in args))
        if i.n is None: return ('res', 'call%d_%d' % (i.blk, i.idx))
        if i.d.get('rn'): return ('call', nm, tuple(self.canon(self.T(x)) for x in i.ops), 0)
        if i.d.get('ro') and 'mclob' in i.d: return ('call', nm, tuple(self.canon(self.T(x)) for x in i.ops), i.d['mclob'])
        return ('res', i.n)
    def fresh(self, t):
        i = self.val.get(t[1]); return i is not None and i.op == 'call' and self.callee(i) in ('operator new', 'operator new[]')
    def canon(self, t):
        """canonical form of an arithmetic term"""
        if t[0] == 'f' and isinstance(t[1], Fraction) and t[1].denominator == 1: return ('i', int(t[1]))
        return t
    def R(self, t):
        """rational function of a term"""
        k = t[0]
        if k == 'i': return Rat.const(t[1])
        if k == 'f' and isinstance(t[1], Fraction): return Rat.const(t[1])
        if k == 'poly': return Rat(Poly(dict(t[1])))
        if k == 'rat': return Rat(Poly(dict(t[1])), Poly(dict(t[2])))
        if k == 'off' and not t[3] and t[1][0] in OBJ: return Rat.atom(t[1]) + Rat.const(t[2])
        return Rat.atom(t)
    def packed(self, t):
        """the halves of a pair of 32-bit integers packed into 64 bits"""
        if t[0] != 'bor' or len(t) != 3: return None
        for lo, hi in ((t[1], t[2]), (t[2], t[1])):
            if lo[0] != 'modi' or lo[2] != 1 << 32: continue
            r = self.R(hi).norm()
            if not r.d.is_const() or r.d.cval() != 1: continue
            if all(Fraction(c) % (1 << 32) == 0 for c in r.n.m.values()): return lo[1], self.fromrat(Rat(Poly({k: Fraction(c) / (1 << 32) for k, c in r.n.m.items()})))
        return None
    def fromrat(self, r):
        r = r.norm()
        if not r.d.is_const():
            # cancel common monomial-free constant factors only
            nn = freeze(r.n); dd = freeze(r.d)
            lead = r.d.m[max(r.d.m, key=lambda k: repr(k))]
            if lead != 1: r = Rat(r.n.scale(1 / lead), r.d.scale(1 / lead))
            if not r.n.m: return ('i', 0)
            return ('rat', freeze(r.n), freeze(r.d))
        p = r.n
        if not r.d.m: return ('undef',)
        if p.is_const():
            v = p.cval(); return ('i', int(v)) if v.denominator == 1 else ('f', v)
        if len(p.m) == 1:
            (k, v), = p.m.items()
            if v == 1 and len(k) == 1 and k[0][1] == 1: return k[0][0]
        return ('poly', freeze(p))
    def arith(self, i):
        a = self.R(self.T(i.ops[0]))
        if i.op == 'fneg': return -a
        b = self.R(self.T(i.ops[1]))
        if i.op in ('add', 'fadd'): return a + b
        if i.op in ('sub', 'fsub'): return a - b
        if i.op in ('mul', 'fmul'): return a * b
        if i.op == 'shl':
            t = self.T(i.ops[1])
            if t[0] == 'i': return a * Rat.const(1 << t[1])
            return Rat.atom(('shl', self.T(i.ops[0]), t))
        if i.op == 'fdiv':
            if not b.n.m: return Rat.atom(('fdiv0', self.T(i.ops[0])))
            return a / b
    def cmp(self, i, fl):
        a, b = self.T(i.ops[0]), self.T(i.ops[1]); p = i.d['pred']
        if fl:
            if p in ('ord', 'uno'):
                xs = [x for x in (a, b) if not (x[0] == 'f' and x[1] != 'nan') and x[0] != 'i']
                xs = list(dict.fromkeys(xs))
                if not xs: return ('i', 1 if p == 'ord' else 0)
                t = None
                for x in xs:
                    u = ('isnan', x); t = u if t is None else mk_or(t, u)
                return t if p == 'uno' else mk_not(t)
            if p in ('true', 'false'): return ('i', 1 if p == 'true' else 0)
            if ('f', 'nan') in (a, b): return ('i', 1 if p[0] == 'u' else 0)
            if a == b and a[0] != 'f':
                # x==x style NaN tests
                if p in ('oeq', 'oge', 'ole'): return mk_not(('isnan', a))
                if p in ('une', 'ult', 'ugt'): return ('isnan', a)
            if a[0] == 'f' and a[1] in ('inf', '-inf') or b[0] == 'f' and b[1] in ('inf', '-inf'):
                return inf_cmp(p, a, b)
            d = self.R(a) - self.R(b)
            rel = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[p[1:]]
            return mkcmp(self, d, rel, 'f' + p[0], (a, b))
        if a[0] in BOOLT and b[0] == 'i' and a[0] != 'i':
            # boolean compared with a constant
            if p == 'ne' and b[1] == 0 or p == 'eq' and b[1] in (1, -1): return a
            if p == 'eq' and b[1] == 0 or p == 'ne' and b[1] in (1, -1): return mk_not(a)
        if i.d.get('ty') == 'i1' and a[0] == 'b2i' and b[0] == 'i':
            if p == 'ne' and b[1] == 0 or p == 'eq' and b[1] == 1: return a[1]
            if p == 'eq' and b[1] == 0 or p == 'ne' and b[1] == 1: return mk_not(a[1])
        rel = {'eq': '==', 'ne': '!=', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[p]
        # pointers compare by identity
        opn = i.ops[0]
        ptr = any(t[0] in ('null', 'alloca', 'global', 'off') for t in (a, b))
        if rel in ('==', '!=') and a != b:
            # objects of different allocations are different and not null
            fr = [t[0] == 'res' and self.fresh(t) for t in (a, b)]
            if all(f or t == ('null',) or t[0] == 'alloca' for f, t in zip(fr, (a, b))) and any(fr): return ('i', int(rel == '!='))
        if ptr and rel in ('==', '!='):
            if a == b: return ('i', 1 if rel == '==' else 0)
            ka, kb = (x[1][0] if x[0] == 'off' else x[0] for x in (a, b))
            if 'alloca' in (ka, kb) and ka in OBJ and kb in OBJ and (a[1] if a[0] == 'off' else a) != (b[1] if b[0] == 'off' else b): return ('i', 0 if rel == '==' else 1)
            (ba, oa), (bb, ob) = ((x[1], x[2]) if x[0] == 'off' and not x[3] else (x, 0) for x in (a, b))
            if ba == bb and ba[0] != 'off': return ('i', int((oa == ob) == (rel == '==')))
            t = ('peq',) + tuple(sorted((a, b), key=akey))
            return t if rel == '==' else mk_not(t)
        d = self.R(a) - self.R(b)
        return mkcmp(self, d, rel, 'u' if p[0] == 'u' else 's', (a, b))

def inf_cmp(p, a, b):
    """comparison in which one side is an infinity; the only atoms left are 'x is that infinity' and 'x is NaN'"""
    INFS = ('inf', '-inf')
    if not (b[0] == 'f' and b[1] in INFS):
        a, b = b, a; p = p[0] + {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p[1:], p[1:])
    rel = p[1:]; pos = b[1] == 'inf'
    if a[0] == 'i' or a[0] == 'f' and a[1] != 'nan':
        v = 0 if not (a[0] == 'f' and a[1] in INFS) else (1 if a[1] == 'inf' else -1); w = 1 if pos else -1
        return ('i', int({'eq': v == w, 'ne': v != w, 'lt': v < w, 'le': v <= w, 'gt': v > w, 'ge': v >= w}[rel]))
    if a == ('f', 'nan'): return ('i', int(p[0] == 'u'))
    eq = ('fcmpinf', 'oeq', a, b); nan = ('isnan', a); num = mk_not(nan)
    if not pos: rel = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(rel, rel)
    if rel in ('eq', 'ge'): r = eq
    elif rel == 'gt': r = ('i', 0)
    elif rel == 'le': r = num
    else: r = mk_and(num, mk_not(eq))
    if p[0] == 'u':
        if r == num: return ('i', 1)
        if rel in ('ne', 'lt'): return mk_not(eq)
        return mk_or(r, nan)
    return r

OBJ = {'alloca', 'arg', 'null', 'global'}
BOOLT = {'fpclass', 'cmp', 'and', 'or', 'not', 'isnan', 'peq', 'b', 'xor', 'fcmpinf', 'i'}
def freeze(p): return tuple(sorted(p.m.items(), key=lambda kv: repr(kv[0])))
def leading_neg(p):
    k = max(p.m, key=lambda k: (len(k), repr(k))) if p.m else None
    return k is not None and p.m[k] < 0
def flat(tag, xs):
    out = []
    for x in xs:
        if x[0] == tag: out += list(x[1])
        else: out.append(x)
    return out
def mk_and(a, b):
    if a == ('i', 0) or b == ('i', 0): return ('i', 0)
    if a == ('i', 1): return b
    if b == ('i', 1): return a
    xs = sorted(set(flat('and', [a, b])), key=akey)
    return xs[0] if len(xs) == 1 else ('and', tuple(xs))
def mk_or(a, b):
    if a == ('i', 1) or b == ('i', 1): return ('i', 1)
    if a == ('i', 0): return b
    if b == ('i', 0): return a
    xs = sorted(set(flat('or', [a, b])), key=akey)
    return xs[0] if len(xs) == 1 else ('or', tuple(xs))
def mk_not(a):
    if a[0] == 'i': return ('i', 1 - (a[1] & 1))
    if a[0] == 'not': return a[1]
    if a[0] == 'cmp': return neg_cmp(a)
    if a[0] == 'and': 
        r = ('i', 0)
        for x in a[1]: r = mk_or(r, mk_not(x))
        return r
    if a[0] == 'or':
        r = ('i', 1)
        for x in a[1]: r = mk_and(r, mk_not(x))
        return r
    return ('not', a)
def mk_sel(c, a, b):
    if c == ('i', 1): return a
    if c == ('i', 0): return b
    if c[0] == 'not': return ('sel', c[1], b, a)
    # canonical polarity for comparisons
    if c[0] == 'cmp':
        n = neg_cmp(c)
        if akey(n) < akey(c): return ('sel', n, b, a)
    return ('sel', c, a, b)

# comparison atoms: ('cmp', frozen-poly-without-const normalised, rel, constant, kind, denominators)
#   rel in '<','<=','==','!=','>','>=' ; kind 's','u','fo','fu' (f: floating, o/u = result on NaN false/true)
def mkcmp(fn, d, rel, kind, raw):
    d = d.norm()
    if not d.d.is_const():
        # quotient compared with 0: treat the difference as one opaque atom
        p = d.n if rel in ('==', '!=') else Poly.atom(fn.fromrat(d))
    else: p = d.n if d.d == Poly.const(1) else d.n.scale(1 / d.d.cval())
    c = p.cval(); q = p - Poly.const(c)
    if not q.m:
        v = {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0, '>': c > 0, '>=': c >= 0}[rel]
        if kind[0] == 'f' and raw[0][0] not in ('f', 'i'):   # x - x cancels only if x is a number
            if kind == 'fo' and v: return mk_not(('isnan', raw[0]))
            if kind == 'fu' and not v: return ('isnan', raw[0])
        return ('i', 1 if v else 0)
    # normalise sign so that the leading monomial is positive and has coefficient 1
    k = lead(q); lc = q.m[k]
    if lc < 0: rel = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[rel]
    q = q.scale(1 / lc); c = -c / lc       # q rel c
    if kind[0] != 'f' and intpoly(q):
        from math import floor, ceil
        if rel == '<': c = Fraction(ceil(c) - 1); rel = '<='
        elif rel == '>': c = Fraction(floor(c) + 1); rel = '>='
        elif rel == '<=': c = Fraction(floor(c))
        elif rel == '>=': c = Fraction(ceil(c))
    return ('cmp', freeze(q), rel, c, kind)
def lead(q): return min(q.m, key=lambda k: (-sum(e for a, e in k), repr(k)))
def intpoly(q): return all(v.denominator == 1 for v in q.m.values())
NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}
def neg_cmp(t):
    _, q, rel, c, kind = t
    r = NEG[rel]
    if kind[0] == 'f': return ('cmp', q, r, c, 'f' + ('u' if kind[1] == 'o' else 'o'))
    if r == '<': return ('cmp', q, '<=', c - 1, kind)
    if r == '>': return ('cmp', q, '>=', c + 1, kind)
    return ('cmp', q, r, c, kind)

def subterms(t, seen=None):
    if seen is None: seen = set()
    if not isinstance(t, tuple): return
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x in seen: continue
            seen.add(x)
            if x and isinstance(x[0], str): yield x
            st.extend(y for y in x if isinstance(y, tuple))
def mentions(t, u):
    return any(s == u for s in subterms(t))
