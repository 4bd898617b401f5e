from core import *
RULE = ('The world update is inlined with probe components (matcher, scan adder, quality estimator, observers) that record what they were given; the recorded values and the call order are compared, for symbolic poses, deltas, scans and settings, with the documented cycle: predict by odometry, match against the own map, correct, insert the scan at the corrected pose, then tell the observers.')
PROBES = r'''
#include "core/states/single_state_hypothesis_laser_scan_grid_world.h"
struct Log { int n = 0; };
struct PMap : GridMap { PMap() : GridMap{std::shared_ptr<GridCell>(), GridMapParams{4, 4, 1.0}} {} const GridCell &operator[](const Coord &) const override { return *(const GridCell *)0; } };
struct PMatcher : GridScanMatcher { Log &l; RobotPoseDelta fix; double x, y, t; const void *scan, *map; int at_reset = 0, at_match = 0, calls = 0, resets = 0;
  PMatcher(Log &l, const RobotPoseDelta &f) : GridScanMatcher{SPE()}, l(l), fix(f) {}
  void reset_state() override { at_reset = ++l.n; ++resets; }
  double process_scan(const TransformedLaserScan &s, const RobotPose &p, const GridMap &m, RobotPoseDelta &d) override { at_match = ++l.n; ++calls; x = p.x; y = p.y; t = p.theta; scan = &s; map = &m; d = fix; return 0.5; } };
struct PTrig : TrigonometryProvider { double base; double sin(double a) const override { return base; } double cos(double a) const override { return 1; } void set_base_angle(double b) override { base = b; } };
struct POmqe : ObservationMappingQualityEstimator { Log &l; double q; const void *scan; int at = 0; POmqe(Log &l, double q) : l(l), q(q) {} void reset(const LaserScan2D &s) override { scan = &s; } double quality(const LaserScan2D::Points &, PointId) const override { return q; } };
struct PAdder : GridMapScanAdder { Log &l; mutable double q, bx, by, ex, ey; mutable bool occ; mutable const void *map; mutable int at = 0, calls = 0;
  PAdder(Log &l, std::shared_ptr<ObservationMappingQualityEstimator> o) : GridMapScanAdder{std::shared_ptr<CellOccupancyEstimator>(), o}, l(l) {}
  void handle_scan_point(GridMap &m, bool o, double sq, const Segment2D &b) const override { at = ++l.n; ++calls; map = &m; occ = o; q = sq; bx = b.beg().x; by = b.beg().y; ex = b.end().x; ey = b.end().y; } };
struct PPoseObs : WorldPoseObserver { Log &l; double x, y, t; int at = 0, calls = 0; PPoseObs(Log &l) : l(l) {} void on_pose_update(const RobotPose &p) override { at = ++l.n; ++calls; x = p.x; y = p.y; t = p.theta; } };
struct PMapObs : WorldMapObserver<GridMap> { Log &l; const void *m; int at = 0, calls = 0; PMapObs(Log &l) : l(l) {} void on_map_update(const GridMap &x) override { at = ++l.n; ++calls; m = &x; } };
'''
SETUP = r'''
  Log l; PMap map; PMatcher sm(l, fix); POmqe om(l, oq); PAdder ad(l, std::shared_ptr<ObservationMappingQualityEstimator>(&om)); PPoseObs po(l), po2(l); PMapObs mo(l); PTrig tp;
  SingleStateHypothesisLSGWProperties pr; pr.localized_scan_quality = lq; pr.raw_scan_quality = rq; pr.scan_margin = 0; pr.grid_map = std::shared_ptr<GridMap>(&map); pr.gsm = std::shared_ptr<GridScanMatcher>(&sm); pr.gmsa = std::shared_ptr<GridMapScanAdder>(&ad);
  SingleStateHypothesisLaserScanGridWorld w{pr}; LaserScanGridWorld &lw = w;
  w.subscribe_pose(std::shared_ptr<WorldPoseObserver>(&po)); w.subscribe_pose(std::shared_ptr<WorldPoseObserver>(&po2)); w.subscribe_map(std::shared_ptr<WorldMapObserver<GridMap>>(&mo));
  w.update_robot_pose(start);
  TransformedLaserScan s; s.scan.trig_provider = std::shared_ptr<TrigonometryProvider>(&tp); s.scan.points().push_back(ScanPoint2D::make_polar(r, a, occ)); s.pose_delta = odo; s.quality = 7;
'''
ARGS = 'const RobotPoseDelta &start, const RobotPoseDelta &odo, const RobotPoseDelta &fix, double lq, double rq, double oq, double r, double a, bool occ'
def main():
    r = Report('C10', RULE, 20); r.asserts = True
    D = models(4) + PROBES + 'DRV drv_cycle(' + ARGS + ') {' + SETUP + r'''
  lw.handle_sensor_data(s);
  ENS(matcher_starts_at_predicted_x, sm.x, start.x + odo.x); ENS(matcher_starts_at_predicted_y, sm.y, start.y + odo.y); ENS(matcher_starts_at_predicted_heading, sm.t, start.theta + odo.theta);
  ENSP(matcher_sees_the_given_scan, sm.scan, &s); ENSP(matcher_sees_the_own_map, sm.map, &map); ENSI(matched_once, sm.calls, 1);
  ENSB(matcher_reset_before_matching, sm.at_reset != 0 && sm.at_reset < sm.at_match && sm.resets == 1);
  double X = start.x + odo.x + fix.x, Y = start.y + odo.y + fix.y, T = start.theta + odo.theta + fix.theta;
  ENS(final_x, w.pose().x, X); ENS(final_y, w.pose().y, Y); ENS(final_heading, w.pose().theta, T);
  ENSI(point_inserted_once, ad.calls, 1); ENSP(inserted_into_own_map, ad.map, &map); ENSI(occupancy_of_point, ad.occ, occ); ENSP(quality_estimator_sees_scan, om.scan, &s.scan);
  ENS(beam_starts_at_corrected_x, ad.bx, X); ENS(beam_starts_at_corrected_y, ad.by, Y); ENS(beam_ends_at_point_x, ad.ex, X + r); ENS(beam_ends_at_point_y, ad.ey, Y + r * T);
  ENSB(insertion_after_matching, sm.at_match < ad.at);
  ENSI(pose_observer_told_once, po.calls, 1); ENSI(each_pose_observer_told, po2.calls, 1); ENSI(map_observer_told_once, mo.calls, 1); ENSP(map_observer_sees_own_map, mo.m, &map);
  ENS(pose_observer_x, po.x, X); ENS(pose_observer_y, po.y, Y); ENS(pose_observer_heading, po.t, T); ENS(second_observer_heading, po2.t, T);
  ENSB(pose_observers_after_insertion, ad.at < po.at && ad.at < po2.at); ENSB(map_observer_after_insertion, ad.at < mo.at);
}
''' + 'DRV drv_moved(' + ARGS + ') { REQ(moved, std::abs(fix.x) > 0.001 || std::abs(fix.y) > 0.001 || std::abs(fix.theta) > 0.001);' + SETUP + r'''
  lw.handle_sensor_data(s); ENS(corrected_scan_quality, s.quality, lq); ENS(corrected_insertion_quality, ad.q, lq * oq); }
''' + 'DRV drv_still(' + ARGS + ') { REQ(still, fix.x == 0 && fix.y == 0 && fix.theta == 0);' + SETUP + r'''
  lw.handle_sensor_data(s); ENS(uncorrected_scan_quality, s.quality, rq); ENS(uncorrected_insertion_quality, ad.q, rq * oq); }
DRV drv_two(const RobotPoseDelta &start, const RobotPoseDelta &odo, const RobotPoseDelta &fix, const RobotPoseDelta &odo2, double lq, double rq, double oq, double r, double a, bool occ) {''' + SETUP + r'''
  lw.handle_sensor_data(s); s.pose_delta = odo2; lw.handle_sensor_data(s);
  ENS(second_prediction_x, sm.x, start.x + odo.x + fix.x + odo2.x); ENS(second_prediction_heading, sm.t, start.theta + odo.theta + fix.theta + odo2.theta); ENS(second_final_y, w.pose().y, start.y + odo.y + 2 * fix.y + odo2.y); ENS(second_final_heading, w.pose().theta, start.theta + odo.theta + 2 * fix.theta + odo2.theta);
  ENSI(one_match_per_scan, sm.calls, 2); ENSI(one_reset_per_scan, sm.resets, 2); ENSI(one_insertion_per_scan, ad.calls, 2); ENSI(one_notification_per_scan, po.calls, 2); ENSI(one_map_notification_per_scan, mo.calls, 2);
  ENS(observer_follows_latest_pose, po.t, w.pose().theta); ENS(odometry_is_consumed_in_order, po2.x, start.x + odo.x + 2 * fix.x + odo2.x); }
'''
    m = compile_module(D, dump='/tmp/p/c10.ll' if os.environ.get('DBG') else None)
    contracts(r, m, 'handle_sensor_data')
    return r.finish()
