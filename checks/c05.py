from cells import *
RULE = ('The gated value graphs of the two belief-combination rules, of the two normalisations and of the belief cells\' update and disagreement are compared with the published formulas '
        '(set-union resp. set-intersection tables over {unknown, empty, occupied, conflict}, total / conflict-free renormalisation with the vacuous belief for zero weight). Canonical rational functions decide each case.')
H = r'''
struct B4 { double u, e, o, c; };
static inline B4 g(const TBM &t) { return B4{t.unknown(), t.empty(), t.occupied(), t.conflict()}; }
static inline B4 nrm(B4 x) { double w = x.u + x.e + x.o + x.c; return w == 0 ? B4{1, 0, 0, 0} : B4{x.u / w, x.e / w, x.o / w, x.c / w}; }
static inline B4 nrc(B4 x) { double w = x.u + x.e + x.o; return w == 0 ? B4{1, 0, 0, 0} : B4{x.u / w, x.e / w, x.o / w, 0}; }
// evidence of both: intersection of hypotheses; unknown is the whole set, conflict the empty one
static inline B4 conj(B4 a, B4 b) { return B4{a.u * b.u, a.u * b.e + a.e * b.u + a.e * b.e, a.u * b.o + a.o * b.u + a.o * b.o,
  a.e * b.o + a.o * b.e + a.c * (b.u + b.e + b.o + b.c) + b.c * (a.u + a.e + a.o)}; }
static inline B4 disj(B4 a, B4 b) { return B4{a.e * b.o + a.o * b.e + a.u * (b.u + b.e + b.o + b.c) + b.u * (a.e + a.o + a.c), a.e * b.e + a.e * b.c + a.c * b.e, a.o * b.o + a.o * b.c + a.c * b.o, a.c * b.c}; }
static inline B4 obs(const AOO &o) { double q = o.occupancy.estimation_quality * o.quality, p = o.occupancy.prob_occ; return B4{1 - q, (1 - p) * q, p * q, 0}; }
'''
EQ = 'ENS(unknown_share, x.u, y.u); ENS(empty_share, x.e, y.e); ENS(occupied_share, x.o, y.o); ENS(conflict_share, x.c, y.c);'
def main():
    r = Report('C05', RULE, 20)
    D = INC + FORCE + H
    D += 'DRV drv_conj(const TBM &a, const TBM &b) { B4 x = g(conjunctive(a, b)), y = nrm(conj(g(a), g(b))); %s }\n' % EQ
    D += 'DRV drv_disj(const TBM &a, const TBM &b) { B4 x = g(disjunctive(a, b)), y = nrm(disj(g(a), g(b))); %s }\n' % EQ
    D += 'DRV drv_norm(TBM &a) { B4 y = nrm(g(a)); a.normalize(); B4 x = g(a); %s }\n' % EQ
    D += 'DRV drv_nrmc(TBM &a) { B4 y = nrc(g(a)); a.normalize_conflict(); B4 x = g(a); %s }\n' % EQ
    D += 'DRV drv_ctor(double u, double e, double o, double c) { TBM t{u, e, o, c}; B4 x = g(t), y{u, e, o, c}; %s }\n' % EQ
    D += 'DRV drv_def() { TBM t; B4 x = g(t), y{1, 0, 0, 0}; %s }\n' % EQ
    ex = []
    for c in TBMS:
        bel = 'B4 b0 = g(c.belief()); REQ(bel, b0.c == 0);'
        D += 'DRV drv_fresh_%s() { %s c; B4 x = g(c.belief()), y{1, 0, 0, 0}; %s }\n' % (c, c, EQ)
        D += 'DRV drv_up_%s(%s &c, const AOO &o) { %s REQ(valid, o.occupancy.is_valid()); REQ(sum, b0.u + b0.e + b0.o == 1); c += o; B4 x = g(c.belief()), y = nrc(nrm(conj(b0, obs(o)))); %s }\n' % (c, c, bel, EQ)
        if c == 'TbmOccConsistentCell':
            D += 'DRV drv_vacuous_%s(%s &c, const AOO &o) { REQ(valid, o.occupancy.is_valid()); c += o; B4 b = g(c.belief()); REQ(nothing_committed, b.o + b.e == 0); ENS(vacuous_belief_is_even, c.occupancy().prob_occ, 0.5); }\n' % (c, c)
            D += 'DRV drv_occ_%s(%s &c, const AOO &o) { REQ(valid, o.occupancy.is_valid()); c += o; B4 b = g(c.belief()); double q = b.o + b.e; ENS(estimation_quality_is_committed_belief, c.occupancy().estimation_quality, q); REQ(nz, q != 0); ENS(occupied_share_of_committed_belief, c.occupancy().prob_occ * q, b.o); }\n' % (c, c)
        else:
            D += 'DRV drv_occ_%s(%s &c, const AOO &o) { REQ(valid, o.occupancy.is_valid()); c += o; B4 b = g(c.belief()); ENS(unknown_split_evenly, c.occupancy().prob_occ, b.o + b.u / 2); ENS(estimation_quality_full, c.occupancy().estimation_quality, 1); }\n' % (c, c)
        if c == 'CredibilistCell': D += 'DRV drv_disc_%s(%s &c, const AOO &o) { REQ(valid, o.occupancy.is_valid()); ENS(disagreement_formula, c.discrepancy(o), 1 - nrm(disj(obs(o), g(c.belief()))).o); }\n' % (c, c)
        else: D += '''DRV drv_disc_%s(%s &c, const AOO &o) { REQ(valid, o.occupancy.is_valid()); B4 a = g(c.belief()), b = obs(o), k = nrm(conj(b, a)); REQ(tot, a.u + a.e + a.o + a.c == 1);
  double u = (a.u + b.u) / 2; ENS(disagreement_formula, c.discrepancy(o), u / 2 + (1 - u) * (k.c + std::abs(b.o - a.o)) / 2); }
''' % (c, c)
        ex += [('drv_vacuous_' + c, 0, c), ('drv_up_' + c, 0, c), ('drv_occ_' + c, 0, c), ('drv_disc_' + c, 0, c)]
    m = compile_module(D, exact=ex)
    for f in sorted(m.fns):
        if f.startswith('drv_'): Contract(r, m, f, site={'conj': 'conjunctive', 'disj': 'disjunctive', 'norm': 'TBM::normalize', 'nrmc': 'TBM::normalize_conflict', 'ctor': 'TBM::TBM(4)', 'def': 'TBM::TBM()'}.get(f[4:], f.split('_', 2)[-1])).run()
    return r.finish()
