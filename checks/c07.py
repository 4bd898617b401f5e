from cells import *
RULE = ('The writer and the reader of every cell class are inlined against a fixed-capacity model of the byte buffer, so that the bytes written are forwarded into the reads at compile time. Two cells stored one after the other and read back into fresh cells '
        'must give value graphs equal to the originals for every observable, including the observables after one further update (hidden counters); the reader must report the position just behind what the writer produced.')
def main():
    r = Report('C07', RULE, 20)
    D = '#include "core/states/sensor_data.h"\n' + models(160, ptr=False) + INC + FORCE + force('GridCell'); ex = []
    for c in CLASSES + ['GridCell']:
        mk = '%s x, y;' % c if c != 'GridCell' else 'GridCell x{Occupancy{0.25, 0.75}}, y{Occupancy{0.25, 0.75}};'
        bel = ''.join('ENS(%s_%s, x.belief().%s(), a.belief().%s()); ENS(second_%s, y.belief().%s(), b.belief().%s()); ' % (k, 'share', k, k, k, k, k) for k in ('unknown', 'empty', 'occupied')) if c in TBMS else ''
        cs = ''.join('ENS(%sprobability, %s.occupancy().prob_occ, %s.occupancy().prob_occ); ENS(%squality, %s.occupancy().estimation_quality, %s.occupancy().estimation_quality); ENSI(%sknown_flag, %s.is_unknown(), %s.is_unknown()); ' % (p, u, v, p, u, v, p, u, v) for p, u, v in (('', 'x', 'a'), ('second_', 'y', 'b')))
        rd = 'Serializer s; s << a.serialize(); size_t n1 = s.result().size(); s << b.serialize(); auto d = s.result(); size_t n2 = d.size(); %s size_t p1 = x.deserialize(d); size_t p2 = y.deserialize(d, p1);' % mk
        D += 'DRV drv_rt_%s(const %s &a, const %s &b) { %s ENSI(reader_stops_where_the_writer_did, p1, n1); ENSI(reader_consumes_everything, p2, n2); %s %s }\n' % (c, c, c, rd, cs, bel)
        D += 'DRV drv_then_%s(%s &a, const AOO &o, const AOO &p) { auto d = a.serialize(); %s x.deserialize(d); x += o; a += o; ENS(probability_after_update, x.occupancy().prob_occ, a.occupancy().prob_occ); ENS(quality_after_update, x.occupancy().estimation_quality, a.occupancy().estimation_quality); %s }\n' % (c, c, mk, '' if c in TBMS else 'ENS(disagreement_after_update, x.discrepancy(p), a.discrepancy(p));')
        ex += [('drv_rt_' + c, 0, c), ('drv_rt_' + c, 1, c), ('drv_then_' + c, 0, c)]
    m = compile_module(D, exact=ex)
    for c in CLASSES + ['GridCell']:
        Contract(r, m, 'drv_rt_' + c, site=c).run(); Contract(r, m, 'drv_then_' + c, site=c).run()
    return r.finish()
