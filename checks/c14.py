from core import *
RULE = ('Scan filtering, point weighting, the per-point probability models and their aggregation are inlined with probe maps, cells and estimators; which points survive, what each point contributes and how the contributions combine is compared with the documented weighted mean for symbolic poses, readings, weights and cell values.')
PRE = r'''
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/observation_impact_estimators.h"
template <class T> std::shared_ptr<T> SP(T &x) { return std::shared_ptr<T>(&x); }
extern "C" double uf_s(double, double) __attribute__((const)); extern "C" double uf_c(double, double) __attribute__((const)); extern "C" double uf_w(double) __attribute__((const)); extern "C" double uf_p(double, double) __attribute__((const)); extern "C" bool uf_has(long, long) __attribute__((const));
struct PTrig : TrigonometryProvider { double base = 0; double sin(double a) const override { return uf_s(a, base); } double cos(double a) const override { return uf_c(a, base); } void set_base_angle(double b) override { base = b; } };
struct PMap : GridMap { PMap(double sc) : GridMap{std::shared_ptr<GridCell>(), GridMapParams{8, 8, sc}} {} const GridCell &operator[](const Coord &) const override { return *(const GridCell *)0; } bool has_cell(const Coord &c) const override { return uf_has(c.x, c.y); } };
struct POie : ObservationImpactEstimator { double estimate_impact(const GridCell &a, const AreaOccupancyObservation &o) const override { return double(a.occupancy()); } };
struct POope : OccupancyObservationProbabilityEstimator { mutable bool occ = true, area_ok = true, full = true; const void *map; double al, ar, ab, at; POope(std::shared_ptr<OIE> o) : OccupancyObservationProbabilityEstimator(o) {}
  double probability(const AreaOccupancyObservation &a, const LightWeightRectangle &r, const GridMap &m) const override { if (!a.is_occupied) occ = false; if (&m != map) area_ok = false; if (a.occupancy.prob_occ != 1 || a.quality != 1 || a.occupancy.estimation_quality != 1) full = false;
    if (std::abs(r.left() + r.right() - 2 * a.obstacle.x) > 1e-9 || std::abs(r.bot() + r.top() - 2 * a.obstacle.y) > 1e-9 || std::abs(r.right() - r.left() - (ar - al)) > 1e-9 || std::abs(r.top() - r.bot() - (at - ab)) > 1e-9) area_ok = false; return uf_p(a.obstacle.x, a.obstacle.y); } };
struct PSpw : ScanPointWeighting { int resets = 0; size_t seen = 0; void reset(const LaserScan2D &s) override { ++resets; seen = s.points().size(); } double weight(const LaserScan2D::Points &p, PointId i) const override { return uf_w(p[i].range()); } };
#define MK PTrig tp; POie oie; POope oo(SP<ObservationImpactEstimator>(oie)); PSpw spw; oo.al = al; oo.ar = ar; oo.ab = ab; oo.at = at; PMap map(1); oo.map = &map; LaserScan2D s; s.trig_provider = SP<TrigonometryProvider>(tp);
#define PTS(N) for (int i = 0; i < N; ++i) { ScanPoint2D z_ = ScanPoint2D::make_polar(R[i], A[i], O[i]); z_.set_factor(F[i]); s.points().push_back(z_); }
#define PARGS double r0, double a0, bool o0, double f0, double r1, double a1, bool o1, double f1, double r2, double a2, bool o2, double f2
#define ARR double R[] = {r0, r1, r2}, A[] = {a0, a1, a2}, F[] = {f0, f1, f2}; bool O[] = {o0, o1, o2};
'''
EST = r'''
DRV drv_estimate(const RobotPose &p, PARGS, double al, double ar, double ab, double at) { REQ(order_h, al <= ar); REQ(order_v, ab <= at); ARR MK MKP(3) WeightedMeanPointProbabilitySPE w{SP<OccupancyObservationProbabilityEstimator>(oo), SP<ScanPointWeighting>(spw)}; ScanProbabilityEstimator &e = w; ScanProbabilityEstimator::SPEParams q; q.sp_analysis_area = LightWeightRectangle{ab, at, al, ar};
  double W = uf_w(r0) + uf_w(r1) + uf_w(r2); REQ(weights, W > 0); double v = e.estimate_scan_probability(s, p, map, q);
  double S = 0; for (int i = 0; i < 3; ++i) S += uf_w(R[i]) * F[i] * uf_p(p.x + R[i] * uf_c(A[i], p.theta), p.y + R[i] * uf_s(A[i], p.theta));
  ENS(weighted_mean_of_point_probabilities, v * W, S); ENSB(points_are_obstacles, oo.occ); ENSB(area_moved_to_the_point, oo.area_ok); ENSB(full_observation, oo.full); }
DRV drv_default(const RobotPose &p, PARGS) { double al = 0, ar = 0, ab = 0, at = 0; ARR MK MKP(1) WeightedMeanPointProbabilitySPE w{SP<OccupancyObservationProbabilityEstimator>(oo), SP<ScanPointWeighting>(spw)}; ScanProbabilityEstimator &e = w; REQ(weights, uf_w(r0) > 0); double v = e.estimate_scan_probability(s, p, map); ENS(default_settings_rotate_the_scan, v, f0 * uf_p(p.x + r0 * uf_c(a0, p.theta), p.y + r0 * uf_s(a0, p.theta))); ENSB(default_area_is_the_point, oo.area_ok); }
DRV drv_prerotated(const RobotPose &p, PARGS) { double al = -1, ar = 1, ab = -2, at = 2; ARR MK MKP(1) WeightedMeanPointProbabilitySPE w{SP<OccupancyObservationProbabilityEstimator>(oo), SP<ScanPointWeighting>(spw)}; ScanProbabilityEstimator &e = w; ScanProbabilityEstimator::SPEParams q; q.sp_analysis_area = LightWeightRectangle{ab, at, al, ar}; q.scan_is_prerotated = true; REQ(weights, uf_w(r0) > 0);
  double v = e.estimate_scan_probability(s, p, map, q); ENS(prerotated_scan_is_only_shifted, v, f0 * uf_p(p.x + r0 * std::cos(a0), p.y + r0 * std::sin(a0))); ENSB(prerotated_area, oo.area_ok); }
DRV drv_unknown(const RobotPose &p, PARGS) { double al = 0, ar = 0, ab = 0, at = 0; ARR MK MKP(1) WeightedMeanPointProbabilitySPE w{SP<OccupancyObservationProbabilityEstimator>(oo), SP<ScanPointWeighting>(spw)}; ScanProbabilityEstimator &e = w; REQ(weights, uf_w(r0) == 0); double v = e.estimate_scan_probability(s, p, map); ENSB(weightless_scan_is_unknown, v != v); }
DRV drv_empty(const RobotPose &p) { double al = 0, ar = 0, ab = 0, at = 0; MK WeightedMeanPointProbabilitySPE w{SP<OccupancyObservationProbabilityEstimator>(oo), SP<ScanPointWeighting>(spw)}; ScanProbabilityEstimator &e = w; double v = e.estimate_scan_probability(s, p, map); ENSB(empty_scan_is_unknown, v != v); }
'''
FLT = r'''
#define FSET(SKIP, MAXR) double al = 0, ar = 0, ab = 0, at = 0; ARR MK MKP(3) WeightedMeanPointProbabilitySPE w{SP<OccupancyObservationProbabilityEstimator>(oo), SP<ScanPointWeighting>(spw), SKIP, MAXR}; ScanProbabilityEstimator &e = w; bool in[3], K[3]; for (int i = 0; i < 3; ++i) { DiscretePoint2D c = map.world_to_cell(p.x + R[i] * uf_c(A[i], p.theta), p.y + R[i] * uf_s(A[i], p.theta)); in[i] = uf_has(c.x, c.y); }
#define FSETD double al = 0, ar = 0, ab = 0, at = 0; ARR MK MKP(3) WeightedMeanPointProbabilitySPE w{SP<OccupancyObservationProbabilityEstimator>(oo), SP<ScanPointWeighting>(spw)}; ScanProbabilityEstimator &e = w; bool in[3], K[3]; for (int i = 0; i < 3; ++i) { DiscretePoint2D c = map.world_to_cell(p.x + R[i] * uf_c(A[i], p.theta), p.y + R[i] * uf_s(A[i], p.theta)); in[i] = uf_has(c.x, c.y); }
#define CHK const bool k0 = K[0], k1 = K[1], k2 = K[2]; int n = k0 + k1 + k2; LaserScan2D f = e.filter_scan(s, p, map); ENSI(number_of_kept_points, f.points().size(), n); ENSI(weighting_prepared_once, spw.resets, 1); ENSI(weighting_prepared_with_kept_points, spw.seen, n); ENSP(kept_scan_shares_trigonometry, f.trig_provider.get(), &tp); const auto &z = f.points(); \
 if (k0) { ENS(kept_range, z[0].range(), r0); ENS(kept_angle, z[0].angle(), a0); ENS(kept_factor, z[0].factor(), f0); ENSI(kept_point_is_occupied, z[0].is_occupied(), 1); if (k1) { SECOND(1, 1) if (k2) { SECOND(2, 2) } } else if (k2) { SECOND(1, 2) } } else if (k1) { SECOND(0, 1) if (k2) { SECOND(1, 2) } } else if (k2) { SECOND(0, 2) } ENSI(raw_scan_is_kept, s.points().size(), 3);
#define SECOND(I, J) ENS(kept_range_at_##I##_of_##J, z[I].range(), r##J); ENS(kept_angle_at_##I##_of_##J, z[I].angle(), a##J); ENS(kept_factor_at_##I##_of_##J, z[I].factor(), f##J);
DRV drv_filter(const RobotPose &p, PARGS) { FSET(0, -1) for (int i = 0; i < 3; ++i) K[i] = O[i] && in[i]; CHK }
DRV drv_filter_by_default(const RobotPose &p, PARGS) { FSETD for (int i = 0; i < 3; ++i) K[i] = O[i] && in[i]; CHK }
DRV drv_skip(const RobotPose &p, PARGS) { FSET(2, -1) for (int i = 0; i < 3; ++i) K[i] = O[i] && in[i] && i % 2 == 0; CHK }
DRV drv_skip3(const RobotPose &p, PARGS) { FSET(3, -1) for (int i = 0; i < 3; ++i) K[i] = O[i] && in[i] && i == 0; CHK }
DRV drv_range(const RobotPose &p, double mr, PARGS) { REQ(limit, mr >= 0.001); REQ(fin, mr <= 1000000); FSET(0, mr) for (int i = 0; i < 3; ++i) { REQ(off_the_limit, R[i] > mr + 0.001 || R[i] < mr - 0.001); K[i] = O[i] && in[i] && R[i] < mr; } CHK }
'''
OOPE = r'''
struct PCell : GridCell { PCell() : GridCell{Occupancy{0.5, 0}} {} double p, d; std::unique_ptr<GridCell> clone() const override { return std::unique_ptr<GridCell>(); } void operator+=(const AreaOccupancyObservation &) override {} double discrepancy(const AreaOccupancyObservation &a) const override { return d + a.quality; } };
struct XOie : ObservationImpactEstimator { double estimate_impact(const GridCell &a, const AreaOccupancyObservation &o) const override { return static_cast<const PCell &>(a).p * o.quality; } };
struct CMap : GridMap { PCell c[4]; mutable int other = 0; CMap(double sc, double p0, double p1, double p2, double p3) : GridMap{std::shared_ptr<GridCell>(), GridMapParams{8, 8, sc}} { c[0].p = p0; c[1].p = p1; c[2].p = p2; c[3].p = p3; for (int i = 0; i < 4; ++i) c[i].d = c[i].p; } const GridCell &operator[](const Coord &k) const override { if (k.x < 0 || k.x > 1 || k.y < 0 || k.y > 1) { ++other; return c[0]; } if (k.x == 0) { if (k.y == 0) return c[0]; return c[2]; } if (k.y == 0) return c[1]; return c[3]; } };
#define OA double p0, double p1, double p2, double p3, double q, double ox, double oy
#define OM XOie oie; CMap map(1, p0, p1, p2, p3); AreaOccupancyObservation a{true, Occupancy{1, 1}, Point2D{ox, oy}, q}; std::shared_ptr<ObservationImpactEstimator> io = SP<ObservationImpactEstimator>(oie);
DRV drv_obstacle(OA) { REQ(x_low, ox >= 0); REQ(x_high, ox < 1); REQ(y_low, oy >= 1); REQ(y_high, oy < 2); OM ObstacleBasedOccupancyObservationPE e(io); OccupancyObservationProbabilityEstimator &o = e; ENS(probability_of_the_obstacle_cell, o.probability(a, LightWeightRectangle(-9, 9, -9, 9), map), p2 * q); }
DRV drv_max(OA) { OM MaxOccupancyObservationPE e(io); OccupancyObservationProbabilityEstimator &o = e; ENS(maximum_over_the_area, o.probability(a, LightWeightRectangle(0.25, 1.5, 0.5, 1.25), map), std::max(0.0, std::max(std::max(p0 * q, p1 * q), std::max(p2 * q, p3 * q)))); ENS(maximum_over_one_cell, o.probability(a, LightWeightRectangle(1.25, 1.5, 0.25, 0.5), map), std::max(0.0, p2 * q)); ENSI(maximum_reads_area_only, map.other, 0); }
DRV drv_mean(OA) { OM MeanOccupancyObservationPE e(io); OccupancyObservationProbabilityEstimator &o = e; ENS(mean_over_the_area, o.probability(a, LightWeightRectangle(0.25, 1.5, 0.5, 1.25), map), (p0 + p1 + p2 + p3) * q / 4); ENS(mean_over_a_column, o.probability(a, LightWeightRectangle(0.25, 1.5, 1.125, 1.25), map), (p1 + p3) * q / 2); ENSI(mean_reads_area_only, map.other, 0); ENS(mean_of_a_point_area, o.probability(a, LightWeightRectangle(1.5, 1.5, 0.25, 0.25), map), p2 * q); }
extern "C" double uf_ov(double, double, double, double, double, double, double, double) __attribute__((const)); extern "C" double drvr_overlap(const LightWeightRectangle &a, const LightWeightRectangle &b) { return uf_ov(a.left(), a.right(), a.bot(), a.top(), b.left(), b.right(), b.bot(), b.top()); }
#define OV(A, x, y) uf_ov(A.left(), A.right(), A.bot(), A.top(), x, x + 1, y, y + 1)
DRV drv_overlap(OA) { OM OverlapWeightedOccupancyObservationPE e(io); OccupancyObservationProbabilityEstimator &o = e; LightWeightRectangle A(0.25, 1.5, 0.5, 1.25); double w0 = OV(A, 0, 0), w1 = OV(A, 1, 0), w2 = OV(A, 0, 1), w3 = OV(A, 1, 1), W = w0 + w1 + w2 + w3; REQ(weights, W > 0); ENS(overlap_weighted_mean, W * o.probability(a, A, map), q * (w0 * p0 + w1 * p1 + w2 * p2 + w3 * p3)); ENSI(overlap_reads_area_only, map.other, 0); }
DRV drv_overlap1(OA) { OM OverlapWeightedOccupancyObservationPE e(io); OccupancyObservationProbabilityEstimator &o = e; LightWeightRectangle A(0.5, 0.5, 1.25, 1.25); double w = OV(A, 1, 0); REQ(weight, w > 0); ENS(overlap_of_a_point_area, o.probability(a, A, map), p1 * q); }
DRV drv_overlap0(OA) { OM OverlapWeightedOccupancyObservationPE e(io); OccupancyObservationProbabilityEstimator &o = e; LightWeightRectangle A(0.5, 0.5, 1.25, 1.25); REQ(no_weight, OV(A, 1, 0) == 0); ENS(nothing_overlaps, o.probability(a, A, map), 0.5); }
DRV drv_oie(OA) { PCell c; c.d = p0; c.p = p1; AreaOccupancyObservation a{true, Occupancy{1, 1}, Point2D{ox, oy}, q}; DiscrepancyOIE d; OccupancyOIE oc; ObservationImpactEstimator &e = d, &f = oc; ENS(impact_is_agreement, e.estimate_impact(c, a), 1 - (p0 + q)); ENS(obstacle_impact_uses_a_certain_obstacle, e.estimate_obstacle_impact(c), 1 - (p0 + 1)); ENS(occupancy_impact, f.estimate_impact(c, a), 0.5); AreaOccupancyObservation ob = e.obstacle_AOO(); ENSI(expected_obstacle_is_occupied, ob.is_occupied, 1); ENS(expected_obstacle_probability, ob.occupancy.prob_occ, 1); ENS(expected_obstacle_quality, ob.quality, 1); ENS(expected_obstacle_estimation_quality, ob.occupancy.estimation_quality, 1); }
DRV drv_even(PARGS) { double al = 0, ar = 0, ab = 0, at = 0; ARR MK MKP(3) EvenSPW w; ScanPointWeighting &x = w; x.reset(s); ENS(even_weight, x.weight(s.points(), 0), x.weight(s.points(), 2)); ENS(even_weights_sum_to_one, 3 * x.weight(s.points(), 1), 1); }
DRV drv_viny(PARGS) { REQ(r0, r0 > 0); double al = 0, ar = 0, ab = 0, at = 0; ARR MK MKP(1) VinySlamSPW w; ScanPointWeighting &x = w; x.reset(s); double c = std::abs(std::cos(a0)), k = 0.9 < c ? 3 : 0.8 < c ? 2 : c + std::abs(std::sin(a0)); ENS(viny_weight, x.weight(s.points(), 0), k * std::sqrt(r0)); }
'''
GMO = r'''
#include "slams/gmapping/gmapping_occupancy_observation_pe.h"
struct FCell : GridCell { FCell() : GridCell{Occupancy{0, 0}} {} double d; const void *mutable_seen; std::unique_ptr<GridCell> clone() const override { return std::unique_ptr<GridCell>(); } void operator+=(const AreaOccupancyObservation &) override {} double discrepancy(const AreaOccupancyObservation &a) const override { return d + a.quality + a.obstacle.x; } void fill(double f) { _occupancy.prob_occ = f; } };
struct WMap : GridMap { FCell c[25], out; WMap(double sc) : GridMap{std::shared_ptr<GridCell>(), GridMapParams{8, 8, sc}} { for (auto &x : c) { x.d = -100; x.fill(0); } out.d = -1000; out.fill(1); } const GridCell &operator[](const Coord &k) const override { int x = k.x - 1, y = k.y + 3; return x < 0 || y < 0 || x > 4 || y > 4 ? out : c[y * 5 + x]; } FCell &at(int x, int y) { return c[(y + 2) * 5 + x + 2]; } };
#define GA double f0, double f1, double d0, double d1, double q
#define GM(FT, W) WMap map(0.5); GmappingOccupancyObservationPE e{FT, W}; const OccupancyObservationProbabilityEstimator &o = e; AreaOccupancyObservation a{true, Occupancy{1, 1}, Point2D{1.75, -0.25}, q}; LightWeightRectangle A(-3, 3, -3, 3);
#define AGREE(d) (1.0 - ((d) + q + 1.75))
DRV drv_gm_none(GA) { GM(0.25, 2) ENS(no_full_cell, o.probability(a, A, map), 0.0); }
DRV drv_gm_threshold(GA, double ft) { GM(ft, 0) map.at(0, 0).fill(f0); map.at(0, 0).d = d0; double r = o.probability(a, A, map); ENS(cell_counts_from_the_threshold_on, r, f0 < ft ? 0.0 : std::max(0.0, AGREE(d0))); }
DRV drv_gm_history(GA) { GM(0.25, 1) map.at(0, 0).fill(1); map.at(0, 0).d = d0; double r = o.probability(a, A, map); map.at(0, 0).d = d1; double t = o.probability(a, A, map); ENS(first, r, std::max(0.0, AGREE(d0))); ENS(changed_map, t, std::max(0.0, AGREE(d1))); map.at(0, 0).fill(0); ENS(emptied_map, o.probability(a, A, map), 0.0); a.quality = f0; map.at(0, 0).fill(1); ENS(other_observation, o.probability(a, A, map), std::max(0.0, 1.0 - (d1 + f0 + 1.75))); }
'''
def gm():
    L = []
    for w in (0, 1, 2):
        for x in range(-2, 3):
            for y in range(-2, 3):
                inn = max(abs(x), abs(y)) <= w
                L.append('DRV drv_gm_one_%d_%d_%d(GA) { GM(0.25, %d) map.at(%d, %d).fill(0.5); map.at(%d, %d).d = d0; ENS(%s, o.probability(a, A, map), %s); }' % (w, x + 2, y + 2, w, x, y, x, y, 'cell_in_window' if inn else 'cell_out_of_window', 'std::max(0.0, AGREE(d0))' if inn else '0.0'))
    for k, (u, v) in enumerate((((0, 0), (1, 1)), ((-1, 1), (1, -1)), ((1, 0), (0, 1)), ((-1, -1), (0, 0)), ((0, -1), (-1, 0)))):
        L.append('DRV drv_gm_two_%d(GA) { GM(0.25, 1) map.at(%d, %d).fill(f0); map.at(%d, %d).d = d0; map.at(%d, %d).fill(f1); map.at(%d, %d).d = d1; double x0 = f0 < 0.25 ? 0 : AGREE(d0), x1 = f1 < 0.25 ? 0 : AGREE(d1); ENS(best_of_the_full_cells, o.probability(a, A, map), std::max(0.0, std::max(x0, x1))); }' % ((k,) + u + u + v + v))
    return L
def main():
    r = Report('C14', RULE, 12)
    mk = '#define MKP(N) PTS(N)\n'
    def go(D, site, cfg='peelcalls 30', assumes=True):
        m = compile_module(D, pre_cfg=cfg, dump='/tmp/p/c14.ll' if os.environ.get('DBG') else None)
        contracts(r, m, site, assumes=assumes)
    go(models(4) + PRE + mk + EST, 'estimate_scan_probability')
    go('#define FIXEDSWITCH\n' + models(4) + PRE + mk + FLT, 'filter_scan')
    go(models(4) + PRE + mk + OOPE, 'point probability', 'peelcalls 30\nreplace drvr_overlap ^LightWeightRectangle::overlap\\(LightWeightRectangle const&\\) const', False)
    families(r, models(4) + PRE + mk + GMO.split('DRV')[0], ['DRV' + x for x in GMO.split('DRV')[1:]] + gm(), 'Gmapping point probability', 'peelany 40\nonlyclass GridCell FCell', per=20)
    return r.finish()
