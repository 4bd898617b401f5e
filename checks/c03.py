from cells import *
RULE = ('For the quality-weighted, running-mean and gmapping cells the gated value graph of the whole update is compared, case by case, with the merge law: '
        'old + q(new-old); the arithmetic mean of all quality-scaled readings since creation (hidden sample counter located by layout, inductive step for any counter value plus three-step histories); '
        'mean of occupied readings over all accepted readings and mean obstacle position over the occupied ones. Equality of canonical rational functions decides.')
def main():
    r = Report('C03', RULE, 12)
    m0 = compile_module(INC + FORCE + 'DRV drv_x() {}')
    hm = hidden(m0, 'MeanProbabilityCell'); hg = hidden(m0, 'GmappingBaseCell')
    D = INC + FORCE; ex = []
    D += '''DRV drv_aff(AffineQualityMergeCell &c, const AOO &o) {
  REQ(valid, o.occupancy.is_valid()); double p = c.occupancy().prob_occ, e = c.occupancy().estimation_quality; c += o;
  ENS(blend_by_quality, c.occupancy().prob_occ, p + o.quality * (o.occupancy.prob_occ - p)); ENS(estimation_quality_kept, c.occupancy().estimation_quality, e); }
DRV drv_base(GridCell &c, const AOO &o) { c += o; ENS(takes_observed_probability, c.occupancy().prob_occ, o.occupancy.prob_occ); ENS(takes_observed_quality, c.occupancy().estimation_quality, o.occupancy.estimation_quality); }
static inline double sc(const AOO &o) { return 0.5 + (o.occupancy.prob_occ - 0.5) * o.quality; }
DRV drv_mean3(const AOO &a, const AOO &b, const AOO &d) {
  REQ(valid, a.occupancy.is_valid() && b.occupancy.is_valid() && d.occupancy.is_valid());
  MeanProbabilityCell c; c += a; ENS(mean_of_one, c.occupancy().prob_occ, sc(a)); c += b; ENS(mean_of_two, c.occupancy().prob_occ, (sc(a) + sc(b)) / 2);
  c += d; ENS(mean_of_three, c.occupancy().prob_occ, (sc(a) + sc(b) + sc(d)) / 3); }
static inline bool occd(const AOO &o) { return o.occupancy.prob_occ > 0.5; }
static inline double w(const AOO &o) { return occd(o) ? o.occupancy.prob_occ : 0; }
DRV drv_gm2(const AOO &a, const AOO &b) {
  REQ(valid, a.occupancy.is_valid() && b.occupancy.is_valid());
  GmappingBaseCell c; c += a; ENS(share_of_one, c.occupancy().prob_occ, w(a)); c += b; ENS(share_of_two, c.occupancy().prob_occ, (w(a) + w(b)) / 2); }
'''
    ex += [('drv_aff', 0, 'AffineQualityMergeCell')]
    if len(hm.get('double', [])) == 1 and len(hm) == 1:
        D += '''DRV drv_mean_step(MeanProbabilityCell &c, const AOO &o) {
  REQ(valid, o.occupancy.is_valid()); double &n = *(double *)((char *)&c + %d); double n0 = n, p0 = c.occupancy().prob_occ; REQ(count, n0 >= 0); c += o;
  ENS(sample_count_grows_by_one, n, n0 + 1); ENS(mean_step, c.occupancy().prob_occ * (n0 + 1), p0 * n0 + sc(o)); }
''' % hm['double'][0]
        ex += [('drv_mean_step', 0, 'MeanProbabilityCell')]
    gm = None
    if len(hg.get('int', [])) == 2 and len(hg.get('Point2D', [])) == 1:
        a, b = hg['int']; p = hg['Point2D'][0]
        # which counter counts all readings?  the one a free reading advances
        t = compile_module(INC + FORCE + '''DRV drv_q(GmappingBaseCell &c, const AOO &o) { REQ(v, o.occupancy.is_valid() && o.occupancy.prob_occ < 0.25); int &n = *(int *)((char *)&c + %d); int n0 = n; c += o; ENSI(adv, n, n0 + 1); }''' % a, exact=[('drv_q', 0, 'GmappingBaseCell')])
        q = Report('C03', '', 0); Contract(q, t, 'drv_q').run()
        st = q.obl[0][0]
        if st != 'undecided':
            tr, hi = (a, b) if st == 'ok' else (b, a)
            D += '''DRV drv_gm_step(GmappingBaseCell &c, const AOO &o) {
  REQ(valid, o.occupancy.is_valid()); int &t = *(int *)((char *)&c + %d), &h = *(int *)((char *)&c + %d); Point2D &ob = *(Point2D *)((char *)&c + %d);
  int t0 = t, h0 = h; double p0 = c.occupancy().prob_occ, x0 = ob.x, y0 = ob.y; REQ(counts, 0 <= h0 && h0 <= t0); c += o; bool oc = occd(o);
  ENSI(readings_counted, t, t0 + 1); ENSI(occupied_readings_counted, h, h0 + (oc ? 1 : 0));
  ENS(occupied_share_step, c.occupancy().prob_occ * (t0 + 1), p0 * t0 + w(o));
  ENS(obstacle_x_mean, oc ? ob.x * (h0 + 1) : ob.x, oc ? x0 * h0 + o.obstacle.x : x0); ENS(obstacle_y_mean, oc ? ob.y * (h0 + 1) : ob.y, oc ? y0 * h0 + o.obstacle.y : y0); }
DRV drv_gm_disc(GmappingBaseCell &c, const AOO &o) {
  Point2D &ob = *(Point2D *)((char *)&c + %d); double dx = ob.x - o.obstacle.x, dy = ob.y - o.obstacle.y;
  ENS(disagreement_follows_obstacle_distance, c.discrepancy(o), 1 - std::exp(-(dx * dx + dy * dy) / 0.05)); }
''' % (tr, hi, p, p)
            ex += [('drv_gm_step', 0, 'GmappingBaseCell'), ('drv_gm_disc', 0, 'GmappingBaseCell')]; gm = True
    m = compile_module(D + force('GridCell'), exact=ex + [('drv_base', 0, 'GridCell')])
    for f, s in (('drv_aff', 'AffineQualityMergeCell'), ('drv_base', 'GridCell'), ('drv_mean3', 'MeanProbabilityCell'), ('drv_gm2', 'GmappingBaseCell'), ('drv_mean_step', 'MeanProbabilityCell'), ('drv_gm_step', 'GmappingBaseCell'), ('drv_gm_disc', 'GmappingBaseCell')):
        if f in m.fns: Contract(r, m, f, site=s).run()
        else: r.unk(s, f[4:], 'hidden state of the cell not recognised')
    return r.finish()
