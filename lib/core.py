"""Build the exporter, compile drivers against /repo's current tree, collect obligations, report."""
import os, sys, signal, traceback, subprocess, json, time, hashlib, shutil, tempfile, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import ir
from ir import *
from models import models, VEC, PTR, GHOST, GVEC, GARR, RC
from absint import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-18'
CXXFLAGS = ['-std=c++14', '-O2', '-Xclang', '-disable-llvm-passes', '-g', '-fstandalone-debug', '-fno-math-errno', '-ffp-contract=off', '-Wno-c++11-narrowing', '-w', '-emit-llvm', '-c']

class AnalysisBroken(Exception): pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return p.returncode, p.stdout.decode('utf-8', 'replace')

def tool(name):
    """path of a tool in build/, compiled from engine/ when missing or older than its source"""
    src = os.path.join(VERIF, 'engine', name + '.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, '%s-%s' % (name, h))
    if os.path.exists(out): return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d.tmp' % os.getpid()
    rc, flags = sh([LLVM + '/bin/llvm-config', '--cxxflags'])
    flags = [f for f in flags.split() if not f.startswith('-std=') and f != '-fno-exceptions']
    libs = ['-lLLVM-18'] if name == 'irx' else ['-lclang-cpp', '-lLLVM-18']
    rc, o = sh(['g++', '-O1', '-std=c++17', '-fno-rtti', src, '-o', tmp] + flags + ['-L' + LLVM + '/lib', '-Wl,-rpath,' + LLVM + '/lib'] + libs)
    if rc: raise AnalysisBroken('cannot build %s:\n%s' % (name, o[-3000:]))
    os.rename(tmp, out)
    return out

def scratch():
    d = os.path.join(tempfile.gettempdir(), 'verif-sa-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d
def clean_scratch():
    d = os.path.join(tempfile.gettempdir(), 'verif-sa-%d' % os.getpid())
    shutil.rmtree(d, ignore_errors=True)

PRELUDE = ''.join('#include <%s>\n' % h for h in ('algorithm', 'array', 'cstdint', 'cstdlib', 'cstring', 'deque', 'fstream', 'iomanip', 'iterator', 'queue', 'set', 'sstream', 'stack', 'list', 'unordered_set', 'chrono', 'cmath', 'cassert', 'cstddef', 'functional', 'iostream', 'limits', 'map', 'memory', 'new', 'numeric', 'random', 'string', 'tuple', 'unordered_map', 'utility', 'vector'))

PRELUDE += r"""
#define ENS(n, a, b) do { void ens_##n(double, double) asm("ens__" #n); ens_##n((a), (b)); } while (0)
#define ENSI(n, a, b) do { void ensi_##n(long, long) asm("ens__" #n); ensi_##n((a), (b)); } while (0)
#define ENSP(n, a, b) do { void ensp_##n(const void *, const void *) asm("ens__" #n); ensp_##n((a), (b)); } while (0)
#define ENSB(n, c) do { void ensb_##n(bool) asm("ensb__" #n); ensb_##n((c)); } while (0)
#define REQ(n, c) do { void req_##n(bool) asm("req__" #n); req_##n((c)); } while (0)
#define DRV extern "C" void
"""

# std entities that stay calls; everything from the repository and small std helpers are inlined
BASE_CFG = r'''
inline std::(__cxx11::)?basic_string.*::_Alloc_hider
inline std::back_inserter<std::(fixedvec|ghostvec)
inline std::(generate_n|__generate_n_a)<std::back_insert_iterator<std::(fixedvec|ghostvec)
inline ^(.* )?std::(fill_n|__fill_n_a|__fill_n_a1|__fill_a|__fill_a1|fill)<(double|int|bool|char|unsigned int|unsigned long)\*
opaque ^(.* )?std::vector<.*>::(vector|~vector|operator\[\]|at|size|empty|begin|end|cbegin|cend|rbegin|rend|front|back|push_back|emplace_back|pop_back|insert|erase|clear|resize|reserve|data|swap|assign|capacity|operator=|emplace|_M_.*|shrink_to_fit)[ (<]
opaque ^(.* )?std::(deque|list|map|set|unordered_map|unordered_set|multimap|queue|stack|priority_queue|basic_string|__cxx11::basic_string|__cxx11::list|function|basic_.*stream|shared_ptr|__shared_ptr|__shared_ptr_access|weak_ptr|__weak_ptr|unique_ptr|__shared_count|__weak_count|mt19937|uniform_.*_distribution|normal_distribution|_Rb_tree|random_device|mersenne_twister_engine|ios_base|locale|_Bvector_base|_Bit_.*|_Vector_base|_Deque_base|allocator|allocator_traits|_Function_base|_Function_handler|__cxx11::basic_.*stream)(<.*)?::
opaque ^(.* )?std::(make_shared|make_unique|allocate_shared|dynamic_pointer_cast|static_pointer_cast|sort|stable_sort|__sort|getline|__uninitialized_.*|_Destroy|operator<<|operator>>|to_string|fill|fill_n|__ostream_insert|accumulate|operator\+|generate_n|back_inserter)[ (<]
opaque ^(.* )?std::swap<.*(vector|shared_ptr|unique_ptr|basic_string)
opaque ^bool std::operator(==|!=|<|>)<.*(shared_ptr|unique_ptr|basic_string|char)
opaque ^__gnu_cxx::(new_allocator|__to_xstring)
opaque ^operator (new|delete)
pure ^(.* )?std::vector<.*>::(operator\[\]|at|size|empty|begin|end|cbegin|cend|front|back|data|capacity)(\(|\[)
pure ^(.* )?std::(__)?shared_ptr(_access)?<.*>::(operator->|operator\*|get|use_count|unique|operator bool)\(
pure ^(.* )?std::unique_ptr<.*>::(operator->|operator\*|get|operator bool)\(
pure ^(.* )?std::(map|set|unordered_map|unordered_set|deque|list|__cxx11::list|__cxx11::basic_string|basic_string)<.*>::(size|empty|begin|end|cbegin|cend|find|at|count|front|back)\(
argmem ^(.* )?std::(vector|deque|list|map|set|unordered_map|unordered_set|basic_string|__cxx11::basic_string|__cxx11::list|(__)?shared_ptr|unique_ptr|(__)?weak_ptr|basic_.*stream|__cxx11::basic_.*stream)<.*>::
argmem ^(.* )?(std::make_shared|std::make_unique|std::allocate_shared|std::swap|std::operator<<)
argmem ^(.* )?operator (new|delete)
sink ^(ens|ensb|req|use)__
'''

_ovl = [None]
def overlay(rel, pattern, repl):
    """analyse a source file with one constant replaced (a size parameter the property does not depend on)"""
    p = os.path.join(REPO, 'src', rel); t = open(p, encoding='utf-8').read(); t2, n = re.subn(pattern, repl, t)
    if n != 1: raise AnalysisBroken('%s: %s occurs %d times' % (rel, pattern, n))
    d = scratch(); c = os.path.join(d, os.path.basename(rel)); y = os.path.join(d, 'overlay.yaml')
    with open(c, 'w', encoding='utf-8') as f: f.write(t2)
    with open(y, 'w') as f: json.dump({'version': 0, 'use-external-names': False, 'roots': [{'type': 'file', 'name': p, 'external-contents': c}]}, f)
    _ovl[0] = y
_cnt = [0]
KEEP_ASSERTS = [False]
def compile_module(text, cfg='', defines=(), pre_cfg='', exact=(), keep=None, nounroll=False, dump=None):
    """compile a driver TU against the current tree and return its normalised Module"""
    d = scratch(); _cnt[0] += 1
    src = os.path.join(d, 'd%d.cpp' % _cnt[0]); bc = src[:-4] + '.bc'; js = src[:-4] + '.json'; cf = src[:-4] + '.cfg'
    with open(src, 'w') as f: f.write(PRELUDE + text)
    rc, o = sh(['clang++'] + CXXFLAGS + ['-fno-exceptions'] + (['-flto', '-fwhole-program-vtables', '-fvisibility=hidden'] if 'onlyclass ' in pre_cfg + cfg else []) + (['-fno-threadsafe-statics'] if re.search('^fresh$', pre_cfg, re.M) else []) + ['-D' + x for x in defines] + (['-ivfsoverlay', _ovl[0]] if _ovl[0] else []) + ['-I' + REPO + '/src', src, '-o', bc])
    if rc: raise AnalysisBroken('driver does not compile against the current tree:\n' + o[-3000:])
    lines = []
    if keep: lines.append('keep ' + keep)
    if nounroll: lines.append('nounroll')
    if dump: lines.append('dump')
    for fn, a, c in exact: lines.append('exact %s %d %s' % (fn, a, c))
    if KEEP_ASSERTS[0]: lines.append('keepassert')
    lines.append(pre_cfg); lines.append(cfg); lines.append(BASE_CFG)
    with open(cf, 'w') as f: f.write('\n'.join(lines))
    rc, o = sh([tool('irx'), bc, cf, js])
    if rc: raise AnalysisBroken('irx failed:\n' + o[-2000:])
    if 'no vtable' in o or os.environ.get('IRXV'): sys.stderr.write(o)
    if dump: shutil.copy(js + '.ll', dump)
    with open(js, encoding='latin-1') as f: m = Module(json.load(f))
    m.driver = text
    return m

def force(cls, i=None):
    """driver fragment that makes the compiler emit the vtable of a copyable class"""
    n = re.sub(r'\W', '_', cls) if i is None else i
    return 'extern "C" void *force_%s(const %s &c, void *p) { return new (p) %s(c); }\n' % (n, cls, cls)

class Report(object):
    def __init__(self, prop, rule, min_obl, trusted=()):
        self.prop = prop; self.rule = rule; self.min_obl = min_obl; self.obl = []; self.t0 = time.time(); self.trusted = list(trusted); self.notes = []; self.analysed = {}
    @property
    def asserts(self): return KEEP_ASSERTS[0]
    @asserts.setter
    def asserts(self, v): KEEP_ASSERTS[0] = v
    def ok(self, site, what): self.obl.append(('ok', site, what, ''))
    def bad(self, site, what, why): self.obl.append(('violated', site, what, why))
    def unk(self, site, what, why): self.obl.append(('undecided', site, what, why))
    def check(self, cond, site, what, why=''):
        if cond is None: self.unk(site, what, why)
        elif cond: self.ok(site, what)
        else: self.bad(site, what, why)
        return cond
    def note(self, k, v): self.analysed[k] = v
    def finish(self):
        known = load_known(self.prop)
        nb = [o for o in self.obl if o[0] == 'violated']
        unk = [o for o in self.obl if o[0] == 'undecided']
        real = []; kf = []
        for o in nb:
            k = next((k for k in known if k['match'] in (o[1] + ' | ' + o[2])), None)
            (kf if k else real).append((o, k))
        ok = sum(o[0] == 'ok' for o in self.obl)
        tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        ev = {'property': self.prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other',
              'coverage': {'explanation': self.rule, 'obligations': len(self.obl), 'discharged': ok, 'undecided': len(unk), 'known_findings': len(kf),
                           'analysed': self.analysed,
                           'sites': sorted(set(o[1] for o in self.obl))[:200],
                           'samples': [{'site': o[1], 'obligation': o[2], 'status': o[0], 'detail': o[3]} for o in (nb + unk + [x for x in self.obl if x[0] == 'ok'])[:60]]},
              'assumptions': self.trusted, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(real)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        evp = os.path.join(VERIF, 'evidence', self.prop + '.json')
        for o, k in kf: print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        rp = os.path.join(VERIF, 'evidence', self.prop + '.replay.txt')
        if os.path.exists(rp): os.remove(rp)
        broken = len(self.obl) < self.min_obl and not real
        with open(evp, 'w') as f: json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1fs)' % (self.prop, len(self.obl), ok, len(unk), len(real), time.time() - self.t0))
        for o in unk: print('  undecided: %s: %s -- %s' % o[1:])
        if real:
            with open(rp, 'w') as f:
                f.write('property %s\nrule: %s\n\n' % (self.prop, self.rule))
                for o, k in real: f.write('%s: %s\n    %s\n' % (o[1], o[2], o[3]))
                f.write('\nre-run: cd /verif && python3 check.py %s\n' % self.prop)
            for o, k in real: print('  violated: %s: %s -- %s' % o[1:])
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if broken:
            print('analysis broken: %d obligations, expected at least %d' % (len(self.obl), self.min_obl))
            return 2
        return 0

def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'): continue
            d = json.loads(l)
            if d.get('property') == prop and 'match' in d: out.append(d)
    return out

# ---------------------------------------------------------------- helpers shared by the rules
def argoff(fn, k, off=0):
    return fn.addr(fn.T('a%d' % k), off, ())
def ld(fn, k, off, ty='double', ver=0):
    return ('load', argoff(fn, k, off), ty, ver)
def stores(fn): return [i for i in fn.instrs() if i.op == 'store']
def calls(fn, pat=None):
    r = re.compile(pat) if pat else None
    return [i for i in fn.instrs() if i.op in ('call', 'invoke') and (r is None or r.search(fn.callee(i)))]
def writes_into(fn, i, rootterm):
    """does instruction i possibly write into the object rootterm?"""
    if i.op == 'store': return root(fn.T(i.ops[1])) == rootterm
    if i.op in ('call', 'invoke') and not i.d.get('ro') and not i.d.get('rn'):
        c = i.d.get('callee') or ''
        if c.startswith('llvm.mem'): return root(fn.T(i.ops[0])) == rootterm
        if c.startswith('llvm.'): return False
        if c in ('__assert_fail',): return False
        ro = set(i.d.get('roargs', []))
        for k, o in enumerate(i.ops):
            if k not in ro and root(fn.T(o)) == rootterm: return True
    return False

# ---------------------------------------------------------------- contracts
# A driver states an obligation as a call ens__NAME(lhs, rhs) / ensb__NAME(cond) / req__NAME(cond); the calls are
# uninterpreted markers.  The rule compares the gated value graphs of the operands at every marker.
import gsa
from gsa import NoNumber, Gated, TooBig, Wit, same_value, env_str, lin_same, lin_empty

def slice_lines(fn, o, limit=400):
    """source lines of the backward data slice of an operand that lie in the repository"""
    out = []; seen = set(); st = [o]
    while st and len(seen) < limit:
        x = st.pop()
        if not isinstance(x, str) or x in seen: continue
        seen.add(x)
        i = fn.val.get(x)
        if i is None: continue
        for l in (i.loc or []):
            if '/src/' in l[0] and '/c++/' not in l[0]:
                e = ('%s:%d' % (repo_rel(l[0]), l[1]), l[2])
                if e not in out: out.append(e)
                break
        st += [p for p in i.ops if isinstance(p, str)]
    return out
def stored_lines(fn, i):
    """repository lines of the stores that may feed the marker"""
    out = []
    for s in fn.instrs():
        if s.op in ('store', 'call') and s.loc:
            for l in s.loc:
                if '/src/' in l[0] and '/c++/' not in l[0]:
                    e = ('%s:%d' % (repo_rel(l[0]), l[1]), l[2])
                    if e not in out: out.append(e)
                    break
    return out

def marker_env(G, i, assume, llvm=True):
    """condition under which a marker executes, with the requirements that dominate it"""
    fn = G.fn; C = G.reach(i.blk)
    for r in calls(fn):
        c = r.d.get('callee') or ''
        if (c.startswith('req__') or llvm and c == 'llvm.assume') and fn.dominates(r, i): C = G.dd.conj(C, G.V(r.ops[0]))
    return C

class OutOfTime(BaseException): pass
class Clock(object):
    """bounds the time of one driver and of the whole check; what is not judged by then is reported undecided"""
    T0 = time.time(); DRIVER = 200; TOTAL = 720
    def __enter__(self):
        left = Clock.T0 + Clock.TOTAL - time.time()
        def h(*_): raise OutOfTime()
        signal.signal(signal.SIGALRM, h)
        if left < 1: raise OutOfTime()
        signal.setitimer(signal.ITIMER_REAL, min(Clock.DRIVER, left), 5)
    def __exit__(self, *a): signal.setitimer(signal.ITIMER_REAL, 0)

class Contract(object):
    def __init__(self, rep, mod, fnname, site=None, assume=(), cap=20000, cubecap=4000, nan=False, allow=None, assumes=True, asserts=None):
        self.asserts = getattr(rep, "asserts", False) if asserts is None else asserts
        self.assumes = assumes
        self.allow = allow
        self.rep = rep; self.fn = mod.fns.get(fnname); self.name = fnname; self.cubecap = cubecap
        if self.fn is None: raise AnalysisBroken('driver function %s vanished' % fnname)
        self.assume = assume; self.site = site; self.gcap = cap; self.gnan = nan
    def prepare(self):
        self.G = Gated(self.fn, self.gcap, self.gnan)
        marks = [i for i in calls(self.fn) if (i.d.get('callee') or '').startswith(('ens__', 'ensb__'))]
        try: self.G.know([self.G.V(q.ops[0]) for q in calls(self.fn, '^req__') if all(self.fn.dominates(q, i) for i in marks)])
        except (TooBig, RecursionError): pass
    def run(self, expect=None):
        """check every marker in the function; returns the names seen"""
        try:
            with Clock():
                self.prepare()
                return self.judge(expect)
        except OutOfTime: self.rep.unk(self.site or self.name, self.name, 'not judged within the time limit')
    def judge(self, expect=None):
        seen = []; self.infeasible = []; self.feasible = set()
        for i in calls(self.fn):
            c = i.d.get('callee') or ''
            if c.startswith('ens__'): seen.append(c[5:]); self.eq(i, c[5:])
            elif c.startswith('ensb__'): seen.append(c[6:]); self.cond(i, c[6:])
        if self.asserts:
            for i in calls(self.fn):
                if i.d.get('callee') == 'llvm.assume': self.holds(i)
            for i in calls(self.fn, '^__assert_fail$'): self.inbounds(i, 'assertion holds')
        for i in calls(self.fn, '^bound__fail$'): self.inbounds(i)
        todo = set(self.infeasible) - self.feasible
        if todo and self.assumes:
            # nothing is left once the code's own assertions hold: judge what happens when they do not
            self.assumes = False; self.infeasible = []
            for i in calls(self.fn):
                c = i.d.get('callee') or ''
                if c.startswith('ens__') and c[5:] in todo: self.eq(i, c[5:])
                elif c.startswith('ensb__') and c[6:] in todo: self.cond(i, c[6:])
            self.assumes = True
        for n in sorted(set(self.infeasible)):
            if n not in self.feasible: self.rep.unk(self.site or self.name, n.replace('_', ' '), 'marker infeasible')
        if expect is not None:
            for e in expect:
                if e not in seen: self.rep.unk(self.site or self.name, e, 'marker unreachable or removed')
        return seen
    def holds(self, i):
        """an assertion of the repository must hold for every input the driver admits"""
        l = next((l for l in (i.loc or []) if '/src/' in l[0] and '/c++/' not in l[0]), None)
        if l is None: return
        G = self.G; dd = G.dd; site = '%s @ %s:%d (%s)' % (self.site or self.name, repo_rel(l[0]), l[1], l[2])
        try:
            C = dd.conj(marker_env(G, i, self.assume, False), dd.neg(G.V(i.ops[0])))
            if C is dd.F: return
            for env, (c,) in G.cubes(G.base_env(self.assume), [C], self.cubecap):
                if c == ('i', 0) or lin_empty(G, env): continue
                if Wit(G, env).find(lambda w: True, allow=self.allow) is not None:
                    self.rep.bad(site, 'assertion holds', 'fails when %s' % env_str(env)); return
        except (TooBig, RecursionError): pass
    def inbounds(self, i, what='only existing elements are accessed'):
        """no element outside of a vector is accessed, no assertion fails"""
        l = next((l for l in (i.loc or []) if '/src/' in l[0] and '/c++/' not in l[0]), None)
        if l is None and what.startswith('assert'): return
        G = self.G; site = '%s @ %s' % (self.site or self.name, '%s:%d (%s)' % (repo_rel(l[0]), l[1], l[2]) if l else self.name)
        try:
            for env, (c,) in G.cubes(G.base_env(self.assume), [marker_env(G, i, self.assume, self.assumes)], self.cubecap):
                if c == ('i', 0) or lin_empty(G, env): continue
                if Wit(G, env).find(lambda w: True, allow=self.allow) is not None:
                    self.rep.bad(site, what, 'fails when %s' % (env_str(env) or 'always')); return
        except (TooBig, RecursionError): pass
    def where(self, ops):
        ls = []
        for o in ops:
            for l in slice_lines(self.fn, o):
                if l not in ls: ls.append(l)
        if not ls: ls = stored_lines(self.fn, None)
        fns = []
        for l, f in ls:
            if f not in fns: fns.append(f)
        return ', '.join('%s (%s)' % (l, f) for l, f in ls[:5]) or self.fn.name
    def eq(self, i, name):
        rep = self.rep; G = self.G; fn = self.fn; site = self.site or self.name
        what = name.replace('_', ' '); nf = name in self.feasible; self.feasible.add(name)
        try:
            C = marker_env(G, i, self.assume, self.assumes); A = G.V(i.ops[0]); B = G.V(i.ops[1])
            n = 0; und = None; bad = None
            for env, (c, a, b) in G.cubes(G.base_env(self.assume), [C, A, B], self.cubecap):
                n += 1
                if same_value(G, env, a, b) or lin_same(G, env, a, b): continue
                odd = [t[0] == 'f' and not isinstance(t[1], Fraction) for t in (a, b)]
                def goal(w):
                    # a value that is no number differs from every number
                    if any(odd): return all(odd) or w.ev(b if odd[0] else a) is not None
                    y = w.ev(b)
                    try: x = w.ev(a)
                    except NoNumber: return True
                    return abs(x - y) > Fraction(1, 10**7) * max(1, abs(x), abs(y))
                w = Wit(G, env).find(goal, terms=(a, b), allow=self.allow)
                if w is not None: bad = (env, a, b); break
                und = (env, a, b)
            if bad: rep.bad(site + ' @ ' + self.where(i.ops[:1]), what, 'when %s: code yields %s, required %s' % (env_str(bad[0]), pp(bad[1])[:300], pp(bad[2])[:300]))
            elif und: rep.unk(site, what, 'cannot relate %s and %s when %s' % (pp(und[1])[:200], pp(und[2])[:200], env_str(und[0])[:400]))
            elif n == 0:
                self.infeasible.append(name)
                if not nf: self.feasible.discard(name)
                return
            else: rep.ok(site, what + ' (%d cases)' % n)
        except (TooBig, RecursionError): rep.unk(site, what, 'value graph too large')
    def cond(self, i, name):
        rep = self.rep; G = self.G; fn = self.fn; site = self.site or self.name
        what = name.replace('_', ' '); nf = name in self.feasible; self.feasible.add(name)
        try:
            C = marker_env(G, i, self.assume, self.assumes); A = G.V(i.ops[0])
            n = 0; bad = None; und = None
            for env, (c, a) in G.cubes(G.base_env(self.assume), [C, A], self.cubecap):
                n += 1
                if a == ('i', 1): continue
                if a == ('i', 0):
                    if lin_empty(G, env): continue
                    w = Wit(G, env).find(lambda w: True, allow=self.allow)
                    if w is not None: bad = env; break
                    und = env
            if bad: rep.bad(site + ' @ ' + self.where(i.ops[:1]), what, 'fails when %s' % env_str(bad))
            elif und: rep.unk(site, what, 'undecided under %s' % env_str(und))
            elif n == 0:
                self.infeasible.append(name)
                if not nf: self.feasible.discard(name)
                return
            else: rep.ok(site, what + ' (%d cases)' % n)
        except (TooBig, RecursionError): rep.unk(site, what, 'value graph too large')

def contracts(rep, mod, site, pat='^drv_', names=None, site_of=None, **kw):
    """judge every driver of the module, several at a time; obligations arrive in driver order"""
    import pickle
    names = names if names is not None else [f for f in sorted(mod.fns) if re.search(pat, f)]
    if not names: raise AnalysisBroken('no driver left of %s' % site)
    def one(f):
        n = len(rep.obl); Contract(rep, mod, f, site=site_of(f) if site_of else site, **kw).run()
        r = rep.obl[n:]; del rep.obl[n:]; return r
    jobs = min(int(os.environ.get('VERIF_JOBS', '0') or 0) or len(os.sched_getaffinity(0)), len(names))
    res = {}
    if jobs <= 1:
        for f in names: res[f] = one(f)
    else:
        sys.stdout.flush(); sys.stderr.flush()
        procs = []; qr, qw = os.pipe(); os.write(qw, b''.join(k.to_bytes(2, 'big') for k in range(len(names)))); os.close(qw)
        for j in range(jobs):
            rd, wr = os.pipe(); pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(rd); out = {}
                    with os.fdopen(wr, 'wb') as fo:
                        while True:
                            k = os.read(qr, 2)
                            if len(k) < 2: break
                            f = names[int.from_bytes(k, 'big')]; pickle.dump((f, one(f)), fo); fo.flush()
                except BaseException:
                    traceback.print_exc(); code = 1
                finally: sys.stderr.flush(); os._exit(code)
            os.close(wr); procs.append((pid, rd))
        os.close(qr)
        for pid, rd in procs:
            with os.fdopen(rd, 'rb') as fi:
                while True:
                    try: f, o = pickle.load(fi)
                    except (EOFError, pickle.UnpicklingError): break
                    res[f] = o
        for pid, rd in procs: os.waitpid(pid, 0)
    for f in names:
        if f in res: rep.obl += res[f]
        else: rep.unk(site, f, 'the analysis of this driver ended early')

def families(rep, pre, drivers, site, cfg='', jobs=None, per=None, **kw):
    """compile groups of drivers separately and judge them, several groups at a time"""
    import pickle
    ds = [d for d in drivers if d.strip()]
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0') or 0) or len(os.sched_getaffinity(0))
    n = max(1, min(len(ds), jobs if per is None else (len(ds) + per - 1) // per))
    groups = [ds[k::n] for k in range(n)]
    res = {}; live = {}
    sys.stdout.flush(); sys.stderr.flush()
    def collect():
        import select
        rd, _, _ = select.select(list(live), [], [])
        for f in rd:
            b = os.read(f, 1 << 16)
            if b: live[f][2].append(b); continue
            pid, k, bs = live.pop(f); os.close(f); os.waitpid(pid, 0)
            try: res[k] = pickle.loads(b''.join(bs))
            except Exception: res[k] = None
    for k in range(n):
        while len(live) >= jobs: collect()
        rd, wr = os.pipe(); pid = os.fork()
        if pid == 0:
            try:
                os.close(rd); r2 = Report(rep.prop, rep.rule, 0); pass
                try:
                    m = compile_module(pre + ''.join(groups[k]), pre_cfg=cfg)
                    for f in sorted(m.fns):
                        if f.startswith('drv_'): Contract(r2, m, f, site=site, **kw).run()
                    out = ('ok', r2.obl)
                except AnalysisBroken as e: out = ('broken', str(e))
                with os.fdopen(wr, 'wb') as fo: pickle.dump(out, fo)
            except BaseException: traceback.print_exc()
            finally: clean_scratch(); sys.stderr.flush(); os._exit(0)
        os.close(wr); live[rd] = (pid, k, [])
    while live: collect()
    if n and all((res.get(k) or ('',))[0] == 'broken' for k in range(n)): raise AnalysisBroken(res[0][1])
    for k in range(n):
        o = res.get(k)
        if o is None: rep.unk(site, 'driver group %d' % k, 'the analysis ended early')
        elif o[0] == 'broken': rep.unk(site, 'driver group %d' % k, o[1])
        else: rep.obl += o[1]
