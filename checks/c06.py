from cells import *
RULE = ('The copy made by every cell class is inlined with the dynamic type fixed. Every observable of the copy (probability, quality, known flag, belief, disagreement, and the observables after one further update, which expose the hidden counters) '
        'must have the same gated value graph as the original\'s; the class identity (vtable) must be the original\'s, and copying must not write into the original.')
PRE = 'inline ^(.* )?std::(make_unique|unique_ptr|__uniq_ptr_impl|__uniq_ptr_data|tuple|_Tuple_impl|_Head_base|get|__get_helper|move|forward|_MakeUniq|default_delete|_Tuple)[ <:(]\n'
def main():
    r = Report('C06', RULE, 30)
    D = INC + FORCE + force('GridCell'); ex = []
    for c in CLASSES + ['GridCell']:
        bel = 'ENS(unknown_share, q->belief().unknown(), c.belief().unknown()); ENS(empty_share, q->belief().empty(), c.belief().empty()); ENS(occupied_share, q->belief().occupied(), c.belief().occupied()); ' if c in TBMS else ''
        one = 'ENS(probability_after_update, g->occupancy().prob_occ, c.occupancy().prob_occ); ENS(quality_after_update, g->occupancy().estimation_quality, c.occupancy().estimation_quality);'
        D += 'DRV drv_copy_%s(const %s &c, const AOO &o) { GridCell *g = c.clone().release(); ENSP(same_class, *(void **)g, *(void *const *)&c); ENS(probability, g->occupancy().prob_occ, c.occupancy().prob_occ); ENS(quality, g->occupancy().estimation_quality, c.occupancy().estimation_quality); ENSI(known_flag, g->is_unknown(), c.is_unknown()); %s %s ENS(disagreement, g->discrepancy(o), c.discrepancy(o)); }\n' % (c, c, 'const %s *q = static_cast<const %s *>(g);' % (c, c), bel)
        D += 'DRV drv_then_%s(%s &c, const AOO &o, const AOO &p) { REQ(valid, o.occupancy.is_valid()); GridCell *g = c.clone().release(); double p0 = c.occupancy().prob_occ; *g += o; ENS(original_unaffected_by_the_copy, c.occupancy().prob_occ, p0); c += o; %s %s }\n' % (c, c, one, '' if c in TBMS else 'ENS(disagreement_after_update, g->discrepancy(p), c.discrepancy(p));')
        ex += [('drv_copy_' + c, 0, c), ('drv_then_' + c, 0, c)]
    m = compile_module(D, exact=ex, pre_cfg=PRE)
    for c in CLASSES + ['GridCell']:
        Contract(r, m, 'drv_copy_' + c, site=c).run(); Contract(r, m, 'drv_then_' + c, site=c).run()
        fn = m.fns['drv_copy_' + c]; cell = ('arg', 0, fn.args[0].get('name') or '')
        w = [i for i in fn.instrs() if writes_into(fn, i, cell)]
        r.check(not w or None, c, 'copying leaves the original untouched', 'write at %s' % (w[0].where() if w else ''))
    return r.finish()
