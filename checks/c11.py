from core import *
RULE = ('Scan insertion is inlined with probe maps, estimators and trigonometry; which points are inserted, with which beam, and what every cell of the beam receives are compared with the documented rules (margin at both ends, range limit, obstacle in the last cell only, blurring towards the obstacle) for symbolic poses, readings and settings.')
PRE = r'''
#include "core/maps/grid_map_scan_adders.h"
extern "C" double uf_occ(double, double, double, double, bool) __attribute__((const)); extern "C" double uf_qual(double, double, double, double, bool) __attribute__((const)); extern "C" double uf_omq(double) __attribute__((const)); extern "C" double uf_s(double, double) __attribute__((const)); extern "C" double uf_c(double, double) __attribute__((const));
struct PTrig : TrigonometryProvider { double base; double sin(double a) const override { return uf_s(a, base); } double cos(double a) const override { return uf_c(a, base); } void set_base_angle(double b) override { base = b; } };
struct POmqe : ObservationMappingQualityEstimator { int resets = 0; void reset(const LaserScan2D &) override { ++resets; } double quality(const LaserScan2D::Points &p, PointId i) const override { return uf_omq(p[i].range()); } };
struct PMap : GridMap { int n[4]; bool occ[4]; double p[4], e[4], ox[4], oy[4], q[4]; int other = 0;
  PMap(double sc) : GridMap{std::shared_ptr<GridCell>(), GridMapParams{8, 8, sc}} { for (int i = 0; i < 4; ++i) n[i] = 0; }
  const GridCell &operator[](const Coord &) const override { return *(const GridCell *)0; }
  void update(const Coord &c, const AreaOccupancyObservation &a) override { if (c.y != 0 || c.x < 0 || c.x > 3) { ++other; return; } int i = c.x; ++n[i]; occ[i] = a.is_occupied; p[i] = a.occupancy.prob_occ; e[i] = a.occupancy.estimation_quality; ox[i] = a.obstacle.x; oy[i] = a.obstacle.y; q[i] = a.quality; } };
struct PAdder : GridMapScanAdder { mutable int n = 0; mutable double q[4], bx[4], by[4], ex[4], ey[4]; mutable bool occ[4]; mutable const void *map;
  PAdder(std::shared_ptr<ObservationMappingQualityEstimator> o) : GridMapScanAdder{std::shared_ptr<CellOccupancyEstimator>(), o} {}
  void handle_scan_point(GridMap &m, bool o, double sq, const Segment2D &b) const override { int i = n++; map = &m; occ[i] = o; q[i] = sq; bx[i] = b.beg().x; by[i] = b.beg().y; ex[i] = b.end().x; ey[i] = b.end().y; } };
template <class T> std::shared_ptr<T> SP(T &x) { return std::shared_ptr<T>(&x); }
'''
APP = r'''
DRV drv_append%(m)d(const RobotPose &pose, double sq, double r0, double a0, bool o0, double r1, double a1, bool o1, double r2, double a2, bool o2, double r3, double a3, bool o3) { PTrig tp; POmqe om; PMap map(1); PAdder ad{SP(om)}; LaserScan2D s; s.trig_provider = SP(tp);
  double r[] = {r0, r1, r2, r3}, a[] = {a0, a1, a2, a3}; bool o[] = {o0, o1, o2, o3}; for (int i = 0; i < 4; ++i) s.points().push_back(ScanPoint2D::make_polar(r[i], a[i], o[i]));
  GridMapScanAdder &ga = ad; GridMap &res = ga.append_scan(map, pose, s, sq, %(m)d); ENSP(result_is_the_map, &res, &map);
  ENSI(points_between_the_margins, ad.n, %(cnt)d); ENSI(quality_estimator_reset_once, om.resets, 1); ENSP(own_map_is_used, ad.map, &map); %(per)s }
'''
PER = 'ENS(beam_from_sensor_x, ad.bx[{k}], pose.x); ENS(beam_from_sensor_y, ad.by[{k}], pose.y); ENS(beam_to_point_x, ad.ex[{k}], pose.x + r{i} * uf_c(a{i}, pose.theta)); ENS(beam_to_point_y, ad.ey[{k}], pose.y + r{i} * uf_s(a{i}, pose.theta)); ENSI(occupied_flag_of_point, ad.occ[{k}], o{i}); ENS(quality_of_point, ad.q[{k}], sq * uf_omq(r{i})); '
BLUR = r'''
extern "C" std::vector<DiscretePoint2D> drvm_cells(const RegularSquaresGrid *g, const Segment2D *s) { std::vector<DiscretePoint2D> v; v.push_back(DiscretePoint2D{0, 0}); v.push_back(DiscretePoint2D{1, 0}); v.push_back(DiscretePoint2D{2, 0}); return v; }
struct PEst : CellOccupancyEstimator { PEst() : CellOccupancyEstimator(Occupancy{0, 0}, Occupancy{0, 0}) {} mutable bool beam_ok = true; double bx, by, ex, ey;
  Occupancy estimate_occupancy(const Segment2D &b, const Rectangle &a, bool o) override { if (!(b.beg().x == bx && b.beg().y == by && b.end().x == ex && b.end().y == ey)) beam_ok = false; return Occupancy{uf_occ(a.left(), a.right(), a.bot(), a.top(), o), uf_qual(a.left(), a.right(), a.bot(), a.top(), o)}; } };
#define ARGS double px, double py, double dx, double dy, double sq, double blur, double range, double scale, bool occ
#define SETUP(OCC) PTrig0 tp; tp.s = dy; tp.c = dx; IdleOMQE om; PEst es; es.bx = px; es.by = py; es.ex = px + dx; es.ey = py + dy; PMap map(scale); LaserScan2D s; s.trig_provider = SP(tp); s.points().push_back(ScanPoint2D::make_polar(1, 0, OCC)); \
  auto b = WallDistanceBlurringScanAdder::builder(); b.set_blur_distance(blur).set_max_usable_range(range).set_occupancy_estimator(SP(es)).set_observation_quality_estimator(SP(om)); auto ad = b.build(); GridMapScanAdder &ga = *ad; 
struct PTrig0 : TrigonometryProvider { double s, c; double sin(double a) const override { return s; } double cos(double a) const override { return c; } void set_base_angle(double b) override {} };
#define EST(i, O, F) uf_##F(scale * (i), scale * (i + 1), 0, scale, O)
DRV drv_far(ARGS) { REQ(too_far, range * range < dx * dx + dy * dy); SETUP(occ) ga.append_scan(map, RobotPose(px, py, 0), s, sq, 0); ENSI(beam_beyond_range_changes_nothing, map.n[0] + map.n[1] + map.n[2] + map.n[3] + map.other, 0); }
#define IN REQ(scale, scale > 0); REQ(finite, scale < INFINITY); REQ(in_range, dx * dx + dy * dy < range * range);
#define RUN SETUP(OCC) ga.append_scan(map, RobotPose(px, py, 0), s, sq, 0); DiscretePoint2D rc = map.world_to_cell(px, py), oc = map.world_to_cell(px + dx, py + dy);
#define BASIC ENSI(first_cell_once, map.n[0], 1); ENSI(middle_cell_once, map.n[1], 1); ENSI(last_cell_once, map.n[2], 1); ENSI(no_other_cell, map.other + map.n[3], 0); \
  ENSI(obstacle_flag_in_last_cell, map.occ[2], OCC); ENS(obstacle_probability_in_last_cell, map.p[2], EST(2, OCC, occ)); ENS(obstacle_estimate_quality, map.e[2], EST(2, OCC, qual)); \
  ENS(obstacle_x_last, map.ox[2], px + dx); ENS(obstacle_y_last, map.oy[2], py + dy); ENS(quality_last, map.q[2], sq); ENS(obstacle_x, map.ox[0], px + dx); ENS(obstacle_y, map.oy[1], py + dy); ENS(quality_first, map.q[0], sq); ENS(quality_middle, map.q[1], sq); ENSB(estimator_sees_the_beam, es.beam_ok); ENS(free_estimate_quality, map.e[0], EST(0, false, qual)); ENS(middle_estimate_quality, map.e[1], EST(1, false, qual));
#define FREE(i) ENSI(free_cell_flag, map.occ[i], false); ENS(free_cell_probability, map.p[i], EST(i, false, occ));
#define OCC false
DRV drv_free(ARGS) { IN RUN BASIC FREE(0) FREE(1) }
#undef OCC
#define OCC true
DRV drv_noblur(ARGS) { REQ(no_blur, blur == 0); IN RUN BASIC FREE(0) FREE(1) }
#define RULE(i) { double d = (oc.x - i) * (oc.x - i) + oc.y * oc.y, R = (oc.x - rc.x) * (oc.x - rc.x) + (oc.y - rc.y) * (oc.y - rc.y); bool in = d < H && H < R; ENSI(blurred_cell_flag, map.occ[i], in); ENS(blurred_cell_probability, map.p[i], in ? EST(2, true, occ) * (1 - d / H) : EST(i, false, occ)); }
DRV drv_blur(ARGS) { REQ(static_blur, blur > 0); IN RUN double h = blur / scale, H = h * h; BASIC RULE(0) RULE(1) }
DRV drv_dyn(ARGS) { REQ(dynamic_blur, blur < 0); IN RUN double h = -blur / scale * (dx * dx + dy * dy), H = h * h; BASIC RULE(0) RULE(1) }
'''
EMPTY = r'''
DRV drv_empty(const RobotPose &pose, double sq) { PTrig tp; POmqe om; PMap map(1); PAdder ad{SP(om)}; LaserScan2D s; s.trig_provider = SP(tp); GridMapScanAdder &ga = ad; GridMap &r = ga.append_scan(map, pose, s, sq, 0); ENSP(empty_scan_returns_map, &r, &map); ENSI(empty_scan_inserts_nothing, ad.n, 0); }
'''
def main():
    r = Report('C11', RULE, 20)
    D = models(4) + PRE + EMPTY + ''.join(APP % {'m': m, 'cnt': 4 - 2 * m, 'per': ''.join(PER.format(k=k, i=k + m) for k in range(4 - 2 * m))} for m in (0, 1))
    m = compile_module(D)
    contracts(r, m, 'append_scan')
    m = compile_module(models(4) + PRE + BLUR, pre_cfg='replace drvm_cells ^RegularSquaresGrid::world_to_cells\\(Segment2D const&\\) const$')
    contracts(r, m, 'WallDistanceBlurringScanAdder')
    return r.finish()
