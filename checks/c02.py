from cells import *
RULE = ('Contract markers compare gated value graphs: a fresh cell reports unknown, one accepted (valid) observation makes it known from any state, '
        'and no later accepted observation makes it unknown again.')
# a particle-filter cell without observations has no probability: its value lies outside of [0, 1]
PRIOR = {'GmappingBaseCell': 'ENSB(fresh_cell_has_no_probability, c.occupancy().prob_occ < 0);'}
def main():
    r = Report('C02', RULE, 12)
    D = INC + FORCE; ex = []
    for c in CLASSES:
        D += '''DRV drv_up_%s(%s &c, const AOO &o) { REQ(valid, o.occupancy.is_valid()); c += o; ENSB(accepted_observation_marks_cell_known, !c.is_unknown()); }
DRV drv_new_%s() { %s c; ENSB(fresh_cell_is_unknown, c.is_unknown()); %s ENS(fresh_cell_quality, c.occupancy().estimation_quality, 1); }
''' % (c, c, c, c, PRIOR.get(c, 'ENS(fresh_cell_is_even, c.occupancy().prob_occ, 0.5);'))
        ex.append(('drv_up_' + c, 0, c))
    # the base cell is the one the maps hand out for out-of-range reads
    D += 'DRV drv_new_base(const Occupancy &o) { GridCell c(o); ENSB(fresh_cell_is_unknown, c.is_unknown()); ENS(fresh_cell_value, c.occupancy().prob_occ, o.prob_occ); }\n'
    m = compile_module(D, exact=ex)
    for c in CLASSES:
        Contract(r, m, 'drv_up_' + c, site=c).run(['accepted_observation_marks_cell_known'])
        Contract(r, m, 'drv_new_' + c, site=c).run(['fresh_cell_is_unknown'])
    Contract(r, m, 'drv_new_base', site='GridCell').run(['fresh_cell_is_unknown'])
    return r.finish()
