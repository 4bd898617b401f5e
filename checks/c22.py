from core import *
import ir, os, re
RULE = ('Both occupancy estimators are inlined with a symbolic cell (position and side), symbolic estimates and beams described relative to the cell; for every way a beam can meet the cell, in each of the eight orientations of the square, the returned pair is compared with the plane-geometry share of the cell in front of or behind the beam end.')
PRE = r'''
#include <vector>
#include "core/maps/area_occupancy_estimator.h"
#include "core/maps/const_occupancy_estimator.h"
extern "C" bool drvr_eq(double a, double b) { return a == b; }
extern "C" bool drvr_le(double a, double b) { return a <= b; }
#define EST double b, double l, double po, double qo, double pe, double qe, double lq, double uq
#define SET(SIDE) const double s = SIDE; REQ(pe_positive, pe > 0.001); REQ(pe_small, pe < 0.999); REQ(po_positive, po > 0); REQ(po_limit, po < 1); REQ(qe_positive, qe > 0); REQ(qo_positive, qo > 0); REQ(lq_positive, lq > 0); REQ(lq_small, lq < 0.5); REQ(uq_positive, uq > 0); \
  AreaOccupancyEstimator e(Occupancy{po, qo}, Occupancy{pe, qe}, lq, uq); CellOccupancyEstimator &x = e; Rectangle cell(b, b + s, l, l + s);
#define BEAM(U0, V0, U1, V1) Segment2D beam{PT(U0, V0), PT(U1, V1)};
#define IN(v) REQ(v##_inside, v > 0); REQ(v##_inside_limit, v < s);
#define POS(v) REQ(v##_positive, v > 0); REQ(v##_limit, v < 100);
#define NONE(NAME) ENSB(NAME, !o.is_valid());
#define GIVES(NAME, P, Q) ENS(NAME##_probability, o.prob_occ, P); ENS(NAME##_quality, o.estimation_quality, Q);
#define OBST(NAME, SHARE) GIVES(NAME, (SHARE) < pe ? pe : (SHARE), qo)
#define FREE(NAME, SHARE) GIVES(NAME, pe, qe * ((SHARE) > 0.5 ? 1 - (SHARE) : (SHARE)))
'''
SYM = [('u', 'v'), ('s - (u)', 'v'), ('u', 's - (v)'), ('s - (u)', 's - (v)'), ('v', 'u'), ('s - (v)', 'u'), ('v', 's - (u)'), ('s - (v)', 's - (u)')]
# name, extra symbolic numbers, requirements, beam in the frame of the cell, outcome of an empty beam, outcome of an obstacle
MEET = [
 ('pierce', 'w a c', 'IN(w) POS(a) POS(c)', '-a, w, s + c, w', 'FREE(pierced, w / s)', 'NONE(no_obstacle_in_a_pierced_cell)'),
 ('tilted', 'w a c', 'POS(a) POS(c) POS(w) REQ(through_the_far_side, w < s / 2);', '-a, w - a / 2, s + c, w + (s + c) / 2', 'FREE(pierced_aslant, w / s + 0.25)', 'NONE(no_obstacle_in_a_cell_pierced_aslant)'),
 ('cut', 'w a c', 'IN(w) POS(a) POS(c)', '-a, w - a, s - w + c, s + c', 'GIVES(corner_cut, pe, qe * ((s - w) * (s - w) / (2 * s * s)))', 'NONE(no_obstacle_in_a_cut_corner)'),
 ('diagonal', 'a c', 'POS(a) POS(c)', '-a, -a, s + c, s + c', 'GIVES(diagonal, pe, qe / 2)', 'NONE(no_obstacle_on_a_diagonal)'),
 ('corner', 'a c', 'POS(a) POS(c)', '-a, a, c, -c', 'NONE(touched_corner_empty)', 'NONE(touched_corner_occupied)'),
 ('beside', 'w a c', 'POS(w) POS(a) POS(c)', '-a, -w, s + c, -w', 'NONE(beam_beside_empty)', 'NONE(beam_beside_occupied)'),
 ('outside', 'w a c', 'POS(w) POS(a) POS(c) REQ(far_end, c > w);', '-w - a, a, -w + c, -c', 'NONE(slanted_beam_beside_empty)', 'NONE(slanted_beam_beside_occupied)'),
 ('before', 'w a c', 'IN(w) POS(a) POS(c)', '-a - c, w, -a, w', 'NONE(beam_ending_before_empty)', 'NONE(beam_ending_before_occupied)'),
 ('after', 'w a c', 'IN(w) POS(a) POS(c)', 's + a, w, s + a + c, w', 'NONE(beam_starting_behind_empty)', 'NONE(beam_starting_behind_occupied)'),
 ('stop', 'w a d', 'IN(w) IN(d) POS(a)', '-a, w, d, w', 'GIVES(ends_inside, pe, uq)', 'OBST(obstacle, (s - d) / s)'),
 ('start', 'w a d', 'IN(w) IN(d) POS(a)', 'd, w, s + a, w', 'GIVES(starts_inside, pe, uq)', 'NONE(no_obstacle_at_the_start)'),
 ('inner', 'w d f', 'IN(w) IN(d) POS(f) REQ(longer, f > d); REQ(shorter, f < s);', 'd, w, f, w', 'GIVES(inside, pe, uq)', 'NONE(no_obstacle_by_an_inner_beam)'),
 ('near_stop', 'd f a', 'IN(d) IN(f) POS(a) REQ(from_side, a > d); REQ(enters_from_the_left, f > d); REQ(near_corner, d + f < s);', 'd - a, f - a, d, f', 'GIVES(ends_inside_near, pe, uq)', 'OBST(obstacle_near, 1 - (d + f) * (d + f) / (2 * s * s))'),
 ('far_stop', 'd f a', 'IN(d) IN(f) POS(a) REQ(from_side, a > d); REQ(enters_from_the_left, f > d); REQ(far_corner, d + f > s); REQ(in_front_of_the_far_corner, d + f < 2 * s);', 'd - a, f - a, d, f', 'GIVES(ends_inside_far, pe, uq)', 'OBST(obstacle_far, (2 * s - d - f) * (2 * s - d - f) / (2 * s * s))'),
 ('mid_stop', 'd a', 'IN(d) REQ(enters_from_the_left, d < s / 2); POS(a) REQ(from_side, a > d);', 'd - a, s - d - a, d, s - d', 'GIVES(ends_inside_mid, pe, uq)', 'OBST(obstacle_mid, 0.5)'),
 ('tilted_near', 'd f a', 'IN(d) IN(f) POS(a) REQ(enters_from_the_left, 2 * f > d); REQ(from_side, 2 * a > d); REQ(near_corner, 2 * d + f < s);', 'd - 2 * a, f - a, d, f', 'GIVES(ends_inside_aslant_near, pe, uq)', 'OBST(obstacle_aslant_near, 1 - (2 * d + f) * (2 * d + f) / (4 * s * s))'),
 ('tilted_near_low', 'd f a', 'IN(d) IN(f) POS(a) REQ(enters_from_below, 2 * f < d); REQ(begins_below, a > f); REQ(from_side, 2 * a > d); REQ(near_corner, 2 * d + f < s);', 'd - 2 * a, f - a, d, f', 'GIVES(ends_inside_aslant_near, pe, uq)', 'OBST(obstacle_aslant_near, 1 - (2 * d + f) * (2 * d + f) / (4 * s * s))'),
 ('tilted_mid', 'd f a', 'IN(d) IN(f) POS(a) REQ(enters_from_the_left, 2 * f > d); REQ(from_side, 2 * a > d); REQ(past_corner, 2 * d + f > s); REQ(before_corner, 2 * d + f < 2 * s);', 'd - 2 * a, f - a, d, f', 'GIVES(ends_inside_aslant, pe, uq)', 'OBST(obstacle_aslant, 1 - (4 * d + 2 * f - s) / (4 * s))'),
 ('tilted_mid_low', 'd f a', 'IN(d) IN(f) POS(a) REQ(enters_from_below, 2 * f < d); REQ(begins_below, a > f); REQ(from_side, 2 * a > d); REQ(past_corner, 2 * d + f > s); REQ(before_corner, 2 * d + f < 2 * s);', 'd - 2 * a, f - a, d, f', 'GIVES(ends_inside_aslant, pe, uq)', 'OBST(obstacle_aslant, 1 - (4 * d + 2 * f - s) / (4 * s))'),
 ('tilted_far', 'd f a', 'IN(d) IN(f) POS(a) REQ(enters_from_the_left, 2 * f > d); REQ(from_side, 2 * a > d); REQ(far_corner, 2 * d + f > 2 * s); REQ(in_front_of_the_far_corner, 2 * d + f < 3 * s);', 'd - 2 * a, f - a, d, f', 'GIVES(ends_inside_aslant_far, pe, uq)', 'OBST(obstacle_aslant_far, (3 * s - 2 * d - f) * (3 * s - 2 * d - f) / (4 * s * s))'),
 ('tilted_far_low', 'd f a', 'IN(d) IN(f) POS(a) REQ(enters_from_below, 2 * f < d); REQ(begins_below, a > f); REQ(from_side, 2 * a > d); REQ(far_corner, 2 * d + f > 2 * s); REQ(in_front_of_the_far_corner, 2 * d + f < 3 * s);', 'd - 2 * a, f - a, d, f', 'GIVES(ends_inside_aslant_far, pe, uq)', 'OBST(obstacle_aslant_far, (3 * s - 2 * d - f) * (3 * s - 2 * d - f) / (4 * s * s))'),
 ('edge', 'a c', 'POS(a) POS(c)', '-a, 0, s + c, 0', 'GIVES(beam_along_an_edge, pe, qe * lq)', 'NONE(no_obstacle_along_an_edge)'),
 ('edge_stop', 'd a', 'IN(d) POS(a)', '-a, 0, d, 0', 'GIVES(ends_on_the_beam_edge, pe, uq)', 'OBST(obstacle_on_the_beam_edge, (s - d) / s)'),
 ('front', 'w a', 'IN(w) POS(a)', '-a, w, 0, w', 'GIVES(ends_on_the_front_edge, pe, uq)', 'GIVES(obstacle_on_the_front_edge, 1, qo)'),
 ('rear', 'w a', 'IN(w) POS(a)', '-a, w, s, w', 'FREE(ends_on_the_rear_edge, w / s)', 'GIVES(obstacle_on_the_rear_edge, pe, qo)'),
 ('from_front', 'w a', 'IN(w) POS(a)', '0, w, s + a, w', 'FREE(starts_on_the_front_edge, w / s)', 'NONE(no_obstacle_behind_the_front_edge)'),
 ('from_rear', 'w a', 'IN(w) POS(a)', 's, w, s + a, w', 'NONE(starts_on_the_rear_edge_empty)', 'NONE(starts_on_the_rear_edge_occupied)'),
 ('edge_to_inside', 'w d', 'IN(w) IN(d)', '0, w, d, w', 'GIVES(edge_to_inside, pe, uq)', 'OBST(obstacle_from_edge, (s - d) / s)'),
 ('inside_to_edge', 'w d', 'IN(w) IN(d)', 'd, w, s, w', 'GIVES(inside_to_edge, pe, uq)', 'NONE(no_obstacle_from_inside_to_edge)'),
 ('edge_to_edge', 'w', 'IN(w)', '0, w, s, w', 'FREE(edge_to_edge, w / s)', 'NONE(no_obstacle_from_edge_to_edge)'),
 ('near_vertex', 'a', 'POS(a)', '-a, -a, 0, 0', 'GIVES(ends_at_the_near_vertex, pe, uq)', 'GIVES(obstacle_at_the_near_vertex, 1, qo)'),
 ('far_vertex', 'a', 'POS(a)', '-a, -a, s, s', 'GIVES(ends_at_the_far_vertex, pe, qe / 2)', 'GIVES(obstacle_at_the_far_vertex, pe, qe / 2)'),
]
def drivers():
    out = []
    for name, vs, req, beam, free, occ in MEET:
        for k, (U, V) in enumerate(SYM):
            t = lambda e, u, v: e.replace('u', '@').replace('v', v).replace('@', u)
            u0, v0, u1, v1 = [q.strip() for q in beam.split(',')]
            seg = 'Segment2D beam{Point2D{l + (%s), b + (%s)}, Point2D{l + (%s), b + (%s)}};' % (t(U, u0, v0), t(V, u0, v0), t(U, u1, v1), t(V, u1, v1))
            for kind, want in (('true', occ), ('false', free)):
                out.append('DRV drv_%s_%s_%d(EST%s) { SET(%s) %s %s Occupancy o = x.estimate_occupancy(beam, cell, %s); %s }\n' % (name, 'obstacle' if kind == 'true' else 'free', k, ''.join(', double ' + q for q in vs.split()), ('2', '0.5')[k % 3 == 1], req, seg, kind, want))
    return out
CONST = r'''
DRV drv_const(double po, double qo, double pe, double qe, double a, double bb, double cc, double d, double u, double v, double w, double h) { REQ(order, v > u); REQ(order2, h > w); ConstOccupancyEstimator e(Occupancy{po, qo}, Occupancy{pe, qe}); CellOccupancyEstimator &x = e; Segment2D beam{{a, bb}, {cc, d}}; Rectangle c(u, v, w, h); Occupancy o = x.estimate_occupancy(beam, c, true); GIVES(constant_obstacle, po, qo) o = x.estimate_occupancy(beam, c, false); GIVES(constant_free, pe, qe) }
'''
TWO = r'''
DRV drv_two_cells(EST) { SET(2) const double S = 0.5; Rectangle C(0, S, 0, S); Occupancy o = x.estimate_occupancy(Segment2D{{l - 1, b}, {l + s + 1, b}}, cell, false); GIVES(edge_of_the_first_cell, pe, qe * lq) o = x.estimate_occupancy(Segment2D{{-1, 0}, {S + 1, 0}}, C, false); GIVES(edge_of_another_cell, pe, qe * lq) }
'''
EXACT = 'replace drvr_eq ^are_equal\\(double, double\\)$\nreplace drvr_le ^less\\(double, double\\)$\nreplace drvr_le ^less_or_equal\\(double, double\\)$\npeel 5\nfresh'
def main():
    ir.CANCEL = True
    r = Report('C22', RULE, 300)
    ds = drivers()
    only = os.environ.get('ONLY')
    if only: ds = [d for d in ds if re.search(only, d.split('(')[0])]
    families(r, models(5) + PRE, ds + ([] if only else [CONST, TWO]), 'occupancy of an observed cell', EXACT, per=int(os.environ.get('PER', '12')))
    return r.finish()
