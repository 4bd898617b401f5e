from cells import *
RULE = ('Inductive range rule: assuming the state of the cell and the observation lie in their ranges (probabilities and qualities in [0,1], beliefs non-negative with total one, counters non-negative), '
        'interval propagation with exact ranges for multi-affine polynomials shows the probability and estimation quality after the update, and the disagreement measure, stay in [0,1] and are numbers.')
B = 'static inline bool bel(const TBM &b) { return b.unknown() >= 0 && b.empty() >= 0 && b.occupied() >= 0 && b.conflict() == 0 && b.unknown() <= 1 && b.empty() <= 1 && b.occupied() <= 1; }\n'
def main():
    r = Report('C04', RULE, 14)
    m0 = compile_module(INC + FORCE + 'DRV drv_x() {}')
    hm = hidden(m0, 'MeanProbabilityCell'); hg = hidden(m0, 'GmappingBaseCell')
    D = INC + FORCE + B + 'static inline bool okobs(const AOO &o) { return unit(o.occupancy.prob_occ) && unit(o.occupancy.estimation_quality) && unit(o.quality); }\n'; ex = []
    for c in CLASSES:
        pre = 'REQ(obs, okobs(o)); '
        if c in TBMS: pre += 'REQ(belief, bel(c.belief())); '
        elif c == 'MeanProbabilityCell':
            for off in hm.get('double', []): pre += 'REQ(count%d, *(double *)((char *)&c + %d) >= 0); ' % (off, off)
        elif c == 'GmappingBaseCell':
            for off in hg.get('int', []): pre += 'REQ(count%d, *(int *)((char *)&c + %d) >= 0); ' % (off, off)
        if c == 'GmappingBaseCell': pre += 'REQ(state, unit(c.occupancy().prob_occ)%s); ' % (' || (%s)' % ' && '.join('*(int *)((char *)&c + %d) == 0' % o for o in hg['int']) if hg.get('int') else '')
        if c not in TBMS: pre += 'REQ(qual, unit(c.occupancy().estimation_quality)); '
        if c != 'GmappingBaseCell': pre += 'REQ(state, unit(c.occupancy().prob_occ)); '
        D += '''DRV drv_lo_%s(%s &c, const AOO &o) { %s c += o; ENSB(probability_not_negative, c.occupancy().prob_occ >= 0); ENSB(quality_not_negative, c.occupancy().estimation_quality >= 0); }
DRV drv_hi_%s(%s &c, const AOO &o) { %s c += o; ENSB(probability_at_most_one, c.occupancy().prob_occ <= 1); }
DRV drv_dl_%s(%s &c, const AOO &o) { %s ENSB(disagreement_not_negative, c.discrepancy(o) >= 0); }
DRV drv_dh_%s(%s &c, const AOO &o) { %s ENSB(disagreement_at_most_one, c.discrepancy(o) <= 1); }
''' % ((c, c, pre) * 4)
        ex += [('drv_%s_%s' % (k, c), 0, c) for k in ('lo', 'hi', 'dl', 'dh')]
    m = compile_module(D, exact=ex)
    for c in CLASSES:
        for k in ('lo', 'hi', 'dl', 'dh'): Contract(r, m, 'drv_%s_%s' % (k, c), site=c).run()
    return r.finish()
