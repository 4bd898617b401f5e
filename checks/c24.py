from core import *
RULE = ('The particle filter template is instantiated with a probe particle whose factory numbers the particles it makes; random draws are uninterpreted values. For every combination of picks (2 to 4 particles) the surviving objects, the copies, their weights and the resampling indices are compared with the textbook definition of importance resampling, and the decision to resample with the effective number of particles.')
PRE = models(5, rnd=True) + r'''
#include <random>
#include <memory>
#include <unordered_set>
namespace std { struct plaindevice { unsigned operator()() { return 7; } };
template <class K> struct plainset { K a[5]; size_t n = 0; size_t count(const K &k) const { return (n > 0 && a[0] == k) || (n > 1 && a[1] == k) || (n > 2 && a[2] == k) || (n > 3 && a[3] == k) || (n > 4 && a[4] == k); } std::pair<K *, bool> insert(const K &k) { if (count(k)) return {a, false}; a[n++] = k; return {a, true}; } std::pair<K *, bool> emplace(const K &k) { return insert(k); } size_t size() const { return n; } bool empty() const { return n == 0; } void clear() { n = 0; } void reserve(size_t) {}
  K *begin() { return a; } K *end() { return a + n; } const K *begin() const { return a; } const K *end() const { return a + n; } K *find(const K &k) { for (size_t i = 0; i < n; ++i) if (a[i] == k) return a + i; return a + n; } }; }
#define random_device plaindevice
#define unordered_set plainset
typedef unsigned int uint;
''' + '\n#include "core/particle_filter.h"\n' + r'''
struct TP : Particle { int id = 0, sampled = 0; double load = 0; virtual void sample() override { ++sampled; } };
struct TF : ParticleFactory<TP> { int made = 0; std::shared_ptr<TP> create_particle() override { auto p = std::make_shared<TP>(); p->id = ++made; return p; } };
typedef ParticleFilter<TP> PF;
#define SETUP(N) ; TF f; PF pf(std::shared_ptr<ParticleFactory<TP>>(&f), N); auto &ps = pf.particles();
#define U(k) uf_unif(7, k)
'''
def main():
    r = Report('C24', RULE, 60)
    cfg = 'opaque uf_.*'
    L = []
    for n in (1, 2, 3, 4):
        L.append('DRV drv_new_%d() { SETUP(%d) ENSI(as_many_as_asked, ps.size(), %d); ENSI(one_creation_each, f.made, %d);' % (n, n, n, n)
          + ''.join('ENS(uniform_weight_%d, ps[%d]->weight(), 1.0 / %d); ENSI(own_object_%d, ps[%d]->id, %d); ENSI(not_sampled_%d, ps[%d]->sampled, 0);' % (i, i, n, i, i, i + 1, i, i) for i in range(n)) + '}')
        W = ', '.join('double w%d' % i for i in range(n)); S = ' + '.join('w%d' % i for i in range(n))
        setw = ''.join('ps[%d]->set_weight(w%d);' % (i, i) for i in range(n)) + ''.join('TP *o%d = ps[%d].get();' % (i, i) for i in range(n))
        L.append('DRV drv_norm_%d(%s) { REQ(some_weight, %s > 0.001); SETUP(%d) %s pf.normalize_weights(); ENSI(same_number, ps.size(), %d);' % (n, W, S, n, setw, n)
          + ''.join('ENS(share_of_total_%d, ps[%d]->weight(), w%d / (%s)); ENSP(same_particle_%d, ps[%d].get(), o%d);' % (i, i, i, S, i, i, i) for i in range(n)) + '}')
        for h in range(n):
            L.append('DRV drv_heavy_%d_%d(%s) { %s SETUP(%d) %s const PF &c = pf; ENSP(heaviest, &pf.heaviest_particle(), o%d); ENSP(heaviest_of_const_filter, &c.heaviest_particle(), o%d);}' % (n, h, W, ''.join('REQ(heavier_%d, w%d > w%d); ' % (i, h, i) for i in range(n) if i != h), n, setw, h, h))
        L.append('DRV drv_heavy_any_%d(%s) { SETUP(%d) %s double h = pf.heaviest_particle().weight(); %s ENSB(is_one_of_them, %s); }' % (n, W, n, setw, ''.join('ENSB(not_lighter_than_%d, h >= w%d);' % (i, i) for i in range(n)), ' || '.join('h == w%d' % i for i in range(n))))
        # the decision
        L.append('DRV drv_need_%d(%s) { SETUP(%d) %s UniformResamling<std::shared_ptr<TP>> u; double q = %s; ENSB(needed_iff_few_are_effective, u.resampling_is_required(ps) == (1.0 / q * 2 < %d)); %s}' % (n, W, n, setw, ' + '.join('w%d * w%d' % (i, i) for i in range(n)), n, ''.join('ENS(weight_untouched_%d, ps[%d]->weight(), w%d);' % (i, i, i) for i in range(n))))
        for k, ws in enumerate(WS[n]):
            q = sum(x * x for x in ws); need = 2 / q < n
            assert abs(2 / q - n) > 1e-3
            L.append('DRV drv_need_%d_case_%d() { SETUP(%d) %s UniformResamling<std::shared_ptr<TP>> u; ENSI(decision, u.resampling_is_required(ps), %d); }' % (n, k, n, ''.join('ps[%d]->set_weight(%r);' % (i, x) for i, x in enumerate(ws)), need))
        # indices
        for j in range(n):
            lo = ' + '.join('w%d' % i for i in range(j)) or '0'; hi = ' + '.join('w%d' % i for i in range(j + 1))
            for k in range(n):
                L.append('DRV drv_index_%d_%d_%d(%s) { %s REQ(from, %s <= U(%d)); REQ(to, U(%d) < %s); SETUP(%d) %s UniformResamling<std::shared_ptr<TP>> u; auto x = u.resample(ps); ENSI(as_many_indices, x.size(), %d); ENSI(draw_%d_picks_%d, x[%d], %d); }' % (n, j, k, W, ''.join('REQ(weight_%d, w%d >= 0); ' % (i, i) for i in range(n)), lo, k, k, hi, n, setw, n, k, j, k, j))
    import itertools
    for n, ws in ((2, None), (3, [0.0625, 0.875, 0.0625]), (3, [0.8125, 0.125, 0.0625]), (4, [0.125, 0.75, 0.0625, 0.0625])):
        if ws is None: continue
        assert 2 / sum(x * x for x in ws) < n - 0.01
        cum = [sum(ws[:i]) for i in range(n + 1)]
        tag = '%d%s' % (n, 'a' if ws[0] < ws[1] else 'b')
        picks = list(itertools.product(range(n), repeat=n))
        if n == 4: picks = [p for i, p in enumerate(picks) if i % 7 == 0]
        for p in picks:
            nm = tag + '_' + ''.join(map(str, p)); tot = sum(ws[i] for i in p)
            body = ''.join('REQ(from_%d, %r <= U(%d)); REQ(to_%d, U(%d) < %r); ' % (k, cum[i], k, k, k, cum[i + 1]) for k, i in enumerate(p)) + 'SETUP(%d) ' % n
            body += ''.join('ps[%d]->set_weight(%r); ps[%d]->load = l%d; TP *o%d = ps[%d].get();' % (i, ws[i], i, i, i, i) for i in range(n))
            body += ' bool did = pf.try_resample(); auto &qs = pf.particles(); ENSI(resampled, did, 1); ENSI(same_number, qs.size(), %d);' % n
            seen = set()
            for k, i in enumerate(p):
                body += 'ENS(state_of_picked_%d, qs[%d]->load, l%d); ENS(normalised_%d, qs[%d]->weight(), %r / %r);' % (k, k, i, k, k, ws[i], tot)
                if i not in seen: body += 'ENSP(first_pick_keeps_particle_%d, qs[%d].get(), o%d); ENSI(kept_one_not_sampled_%d, qs[%d]->sampled, 0);' % (k, k, i, k, k)
                else: body += 'ENSI(copy_is_sampled_%d, qs[%d]->sampled, 1); ENSB(copy_is_own_object_%d, %s);' % (k, k, k, ' && '.join('qs[%d].get() != qs[%d].get()' % (k, m) for m in range(k)) + ' && ' + ' && '.join('qs[%d].get() != o%d' % (k, m) for m in range(n)))
                seen.add(i)
            L.append('DRV drv_resample_%s(%s) { %s }' % (nm, ', '.join('double l%d' % i for i in range(n)), body))
    for n, ws in ((1, [0.25]), (2, [0.75, 0.25]), (3, [0.25, 0.25, 0.5]), (4, [0.5, 0.25, 0.125, 0.125])):
        assert 2 / sum(x * x for x in ws) >= n
        L.append('DRV drv_keep_%d() { SETUP(%d) %s bool did = pf.try_resample(); auto &qs = pf.particles(); ENSI(not_resampled, did, 0); ENSI(same_number, qs.size(), %d); %s ENSI(nothing_created, f.made, %d); }' % (n, n, ''.join('ps[%d]->set_weight(%r); TP *o%d = ps[%d].get();' % (i, x, i, i) for i, x in enumerate(ws)), n,
          ''.join('ENSP(same_particle_%d, qs[%d].get(), o%d); ENS(same_weight_%d, qs[%d]->weight(), %r); ENSI(not_sampled_%d, qs[%d]->sampled, 0);' % (i, i, i, i, i, x, i, i) for i, x in enumerate(ws)), n))
    only = os.environ.get('ONLY')
    if only: L = [x for x in L if re.search(only, x)]
    families(r, PRE, L, 'ParticleFilter', cfg, per=int(os.environ.get('PER', '40')))
    return r.finish()
WS = {1: [[1.0]], 2: [[0.5, 0.5], [0.75, 0.25], [0.9, 0.1], [0.99, 0.01], [1.1, 0.0]], 3: [[0.34, 0.33, 0.33], [0.5, 0.25, 0.25], [0.7, 0.2, 0.1], [0.8, 0.2, 0.1], [0.05, 0.9, 0.05], [0.1, 0.2, 0.77]], 4: [[0.25, 0.25, 0.25, 0.25], [0.5, 0.25, 0.125, 0.125], [0.7, 0.1, 0.1, 0.1], [0.05, 0.05, 0.1, 0.8], [0.5, 0.48, 0.01, 0.01], [0.6, 0.4, 0.02, 0.0]]}
