from core import *
RULE = ('The matcher is inlined with a probe pose source, a probe probability estimator and probe observers; which poses are tested with which scan, which outcome is fed back, what the observers are told and what is returned are compared with the documented search (adopt a pose exactly when it is strictly more probable than the best so far), for symbolic start poses, candidates and probabilities.')
PRE = r'''
#include "core/scan_matchers/pose_enumeration_scan_matcher.h"
#include "core/scan_matchers/no_action_scan_matcher.h"
template <class T> std::shared_ptr<T> SP(T &x) { return std::shared_ptr<T>(&x); }
extern "C" double uf_prob(double, double, double, double) __attribute__((const));
struct Log { int n = 0; };
struct PMap : GridMap { PMap() : GridMap{std::shared_ptr<GridCell>(), GridMapParams{4, 4, 1.0}} {} const GridCell &operator[](const Coord &) const override { return *(const GridCell *)0; } };
struct PTrig : TrigonometryProvider { double sin(double a) const override { return 0; } double cos(double a) const override { return 1; } void set_base_angle(double b) override {} };
struct PSpe : ScanProbabilityEstimator { Log &l; double fr; int filters = 0; mutable int tests = 0, at_first = 0; const void *fscan = 0, *fmap = 0; mutable const void *map = 0; double fx, fy, ft; mutable bool one_point = true, analysis_default = true; unsigned unk = 0;
  PSpe(Log &l, double fr) : ScanProbabilityEstimator{OOPE()}, l(l), fr(fr) {}
  LaserScan2D filter_scan(const LaserScan2D &s, const RobotPose &p, const GridMap &m) override { ++filters; fscan = &s; fmap = &m; fx = p.x; fy = p.y; ft = p.theta; LaserScan2D r; r.trig_provider = s.trig_provider; r.points().push_back(ScanPoint2D::make_polar(fr, 0, true)); return r; }
  double estimate_scan_probability(const LaserScan2D &s, const RobotPose &p, const GridMap &m, const SPEParams &q) const override { ++tests; map = &m; if (s.points().size() != 1) one_point = false; if (q.scan_is_prerotated) analysis_default = false; if (!at_first) at_first = ++l.n; if (unk >> (tests - 1) & 1) return ScanProbabilityEstimator::unknown_probability(); return uf_prob(p.x, p.y, p.theta, s.points()[0].range()); } };
struct PEnum : PoseEnumerator { Log &l; RobotPose c[3]; int total, i = 0, resets = 0, feedbacks = 0, nexts = 0; mutable int at_reset = 0; double px[3], py[3], pt[3]; bool fb[3]; bool order = true;
  PEnum(Log &l, int n, const RobotPose &a, const RobotPose &b, const RobotPose &d) : l(l), total(n) { c[0] = a; c[1] = b; c[2] = d; }
  bool has_next() const override { return i < total; }
  RobotPose next(const RobotPose &p) override { if (nexts != feedbacks) order = false; ++nexts; px[i] = p.x; py[i] = p.y; pt[i] = p.theta; return c[i++]; }
  void reset() override { ++resets; i = 0; at_reset = ++l.n; }
  void feedback(bool ok) override { if (nexts != feedbacks + 1) order = false; ++feedbacks; fb[i - 1] = ok; } };
struct PObs : GridScanMatcherObserver { Log &l; int starts = 0, tests = 0, updates = 0, ends = 0, at_start = 0, at_end = 0, at_last = 0, at_first = 0; double sx, sy, st; const void *scan = 0, *map = 0; double tx[4], ty[4], tt[4], tp[4]; double ux, uy, ut, up; double ex, ey, et, ep; double sr[4], ur, er;
  PObs(Log &l) : l(l) {}
  void on_matching_start(const RobotPose &p, const TransformedLaserScan &s, const GridMap &m) override { ++starts; at_start = ++l.n; sx = p.x; sy = p.y; st = p.theta; scan = &s; map = &m; }
  void on_scan_test(const RobotPose &p, const LaserScan2D &s, double q) override { at_last = ++l.n; if (!at_first) at_first = l.n; int i = tests++; tx[i] = p.x; ty[i] = p.y; tt[i] = p.theta; tp[i] = q; sr[i] = s.points()[0].range(); }
  void on_pose_update(const RobotPose &p, const LaserScan2D &s, double q) override { at_last = ++l.n; ++updates; ux = p.x; uy = p.y; ut = p.theta; up = q; ur = s.points()[0].range(); }
  void on_matching_end(const RobotPose &p, const LaserScan2D &s, double q) override { at_end = ++l.n; ++ends; ex = p.x; ey = p.y; et = p.theta; ep = q; er = s.points()[0].range(); } };
'''
SET = r'''Log l; PMap map; PTrig tp; PSpe spe(l, fr); PEnum en(l, %d, a, b, c); PObs ob(l), ob2(l); PoseEnumerationScanMatcher pm(SP<ScanProbabilityEstimator>(spe), SP<PoseEnumerator>(en)); GridScanMatcher &m = pm;
  std::shared_ptr<GridScanMatcherObserver> o1 = SP<GridScanMatcherObserver>(ob), o2 = SP<GridScanMatcherObserver>(ob2);
  TransformedLaserScan s; s.scan.trig_provider = SP<TrigonometryProvider>(tp); s.scan.points().push_back(ScanPoint2D::make_polar(9, 0, true)); s.scan.points().push_back(ScanPoint2D::make_polar(8, 0, true)); RobotPoseDelta d(5, 6, 7); '''
ARGS = 'const RobotPose &i, const RobotPose &a, const RobotPose &b, const RobotPose &c, double fr'
EXP = r'''RobotPose bp = i; double p0 = uf_prob(i.x, i.y, i.theta, fr), p1 = uf_prob(a.x, a.y, a.theta, fr), p2 = uf_prob(b.x, b.y, b.theta, fr), best = p0; bool b1 = best < p1; if (b1) { best = p1; bp = a; } RobotPose m1 = bp; bool b2 = best < p2; if (b2) { best = p2; bp = b; } '''
def main():
    r = Report('C12', RULE, 12); r.asserts = True
    D = models(4, fun=True) + PRE + 'DRV drv_search(' + ARGS + ') {' + SET % 2 + r'''
  double res = m.process_scan(s, i, map, d); ''' + EXP + r'''
  ENS(returned_probability_is_the_best, res, best); ENS(shift_x, d.x, bp.x - i.x); ENS(shift_y, d.y, bp.y - i.y); ENS(shift_heading, d.theta, bp.theta - i.theta);
  ENSI(enumeration_restarted, en.resets, 1); ENSI(every_pose_and_the_start_tested, spe.tests, 3); ENSI(one_outcome_per_pose, en.feedbacks, 2); ENSB(outcome_follows_pose, en.order);
  ENSI(first_outcome, en.fb[0], b1); ENSI(second_outcome, en.fb[1], b2);
  ENS(first_pose_requested_around_start_x, en.px[0], i.x); ENS(first_pose_requested_around_start_heading, en.pt[0], i.theta); ENS(later_pose_requested_around_best_x, en.px[1], m1.x); ENS(later_pose_requested_around_best_y, en.py[1], m1.y); ENS(later_pose_requested_around_best_heading, en.pt[1], m1.theta);
  ENSI(scan_filtered_once, spe.filters, 1); ENSP(raw_scan_is_filtered, spe.fscan, &s.scan); ENS(filtered_at_start_x, spe.fx, i.x); ENS(filtered_at_start_heading, spe.ft, i.theta); ENSP(filter_sees_the_map, spe.fmap, &map); ENSP(estimator_sees_the_map, spe.map, &map); ENSB(filtered_scan_is_tested, spe.one_point); ENSB(default_analysis_settings, spe.analysis_default); }
DRV drv_observed(''' + ARGS + ') {' + SET % 2 + r''' m.subscribe(o1); m.subscribe(o2);
  double res = m.process_scan(s, i, map, d); ''' + EXP + r'''
  ENSI(start_announced_once, ob.starts, 1); ENS(start_pose_x, ob.sx, i.x); ENS(start_pose_y, ob.sy, i.y); ENS(start_pose_heading, ob.st, i.theta); ENSP(start_scan, ob.scan, &s); ENSP(start_map, ob.map, &map);
  ENSI(each_test_announced, ob.tests, 3); ENSI(each_observer_told_of_tests, ob2.tests, 3); ENSI(each_observer_told_of_start, ob2.starts, 1); ENSI(each_observer_told_of_end, ob2.ends, 1); ENSI(improvements_announced, ob.updates, 1 + b1 + b2); ENSI(end_announced_once, ob.ends, 1);
  ENS(announced_start_probability, ob.tp[0], p0); ENS(announced_start_x, ob.tx[0], i.x); ENS(announced_first_x, ob.tx[1], a.x); ENS(announced_first_y, ob.ty[1], a.y); ENS(announced_first_heading, ob.tt[1], a.theta); ENS(announced_first_probability, ob.tp[1], p1); ENS(announced_second_x, ob.tx[2], b.x); ENS(announced_second_heading, ob.tt[2], b.theta); ENS(announced_second_probability, ob.tp[2], p2); ENS(announced_scan_is_the_filtered_one, ob.sr[1], fr); ENS(announced_end_scan_is_the_filtered_one, ob.er, fr);
  ENS(last_improvement_x, ob.ux, bp.x); ENS(last_improvement_y, ob.uy, bp.y); ENS(last_improvement_heading, ob.ut, bp.theta); ENS(last_improvement_probability, ob.up, best); ENS(end_shift_x, ob.ex, bp.x - i.x); ENS(end_shift_y, ob.ey, bp.y - i.y); ENS(end_shift_heading, ob.et, bp.theta - i.theta); ENS(end_probability, ob.ep, best);
  ENSB(start_precedes_tests, ob.at_start < ob.at_first); ENSB(end_follows_tests, ob.at_last < ob.at_end); ENS(second_observer_end, ob2.ep, best);
  ENS(observed_result_unchanged, res, best); ENS(observed_shift_unchanged, d.theta, bp.theta - i.theta); }
DRV drv_unsub(''' + ARGS + ') {' + SET % 1 + r''' m.subscribe(o1); m.subscribe(o2); m.unsubscribe(o1);
  m.process_scan(s, i, map, d); ENSI(unsubscribed_is_silent, ob.starts + ob.tests + ob.updates + ob.ends, 0); ENSI(other_observer_still_told, ob2.tests, 2); ENSI(other_observer_told_of_end, ob2.ends, 1); }
DRV drv_none(''' + ARGS + ') {' + SET % 0 + r'''
  double res = m.process_scan(s, i, map, d); ENS(no_candidates_start_probability, res, uf_prob(i.x, i.y, i.theta, fr)); ENS(no_candidates_no_shift_x, d.x, 0); ENS(no_candidates_no_shift_y, d.y, 0); ENS(no_candidates_no_shift_heading, d.theta, 0); }
DRV drv_twice(''' + ARGS + ', const RobotPose &j) {' + SET % 1 + r'''
  m.process_scan(s, j, map, d); double res = m.process_scan(s, i, map, d); double p0 = uf_prob(i.x, i.y, i.theta, fr), p1 = uf_prob(a.x, a.y, a.theta, fr);
  ENS(second_scan_result, res, p0 < p1 ? p1 : p0); ENS(second_scan_shift, d.x, p0 < p1 ? a.x - i.x : 0); ENS(second_scan_starts_around_new_pose, en.px[0], i.x); ENSI(one_restart_per_scan, en.resets, 2); }
DRV drv_three(''' + ARGS + ') {' + SET % 3 + r'''
  double res = m.process_scan(s, i, map, d); ''' + EXP + r''' double p3 = uf_prob(c.x, c.y, c.theta, fr); if (best < p3) { best = p3; bp = c; } ENS(best_of_four, res, best); ENS(shift_to_best_of_four, d.y, bp.y - i.y); }
DRV drv_reset(''' + ARGS + ') {' + SET % 1 + r''' m.reset_state(); ENSI(reset_reaches_the_enumerator, en.resets, 1); ENSP(enumerator_is_kept, pm.pose_enumerator().get(), &en); ENSP(estimator_is_kept, m.scan_probability_estimator().get(), &spe); }
DRV drv_idle(''' + ARGS + ') {' + SET % 1 + r''' NoActionScanMatcher na(SP<ScanProbabilityEstimator>(spe)); GridScanMatcher &g = na; double p = g.process_scan(s, i, map, d); ENS(idle_matcher_certain, p, 1); ENS(idle_shift_x, d.x, 0); ENS(idle_shift_y, d.y, 0); ENS(idle_shift_heading, d.theta, 0); }
DRV drv_unknown_0(''' + ARGS + ') {' + SET % 2 + r''' spe.unk = 2; double res = m.process_scan(s, i, map, d); RobotPose bp = i; double p0 = uf_prob(i.x, i.y, i.theta, fr), p1 = uf_prob(a.x, a.y, a.theta, fr), p2 = uf_prob(b.x, b.y, b.theta, fr), best = p0; bool b1 = false, b2 = false; if (b1) { best = p1; bp = a; } b2 = best < p2; if (b2) { best = p2; bp = b; }
  ENS(unknown_candidate_result, res, best); ENS(unknown_candidate_shift, d.x, bp.x - i.x); ENS(unknown_candidate_heading, d.theta, bp.theta - i.theta); ENSI(unknown_first_outcome, en.fb[0], b1); ENSI(unknown_second_outcome, en.fb[1], b2); ENSI(unknown_every_pose_tested, spe.tests, 3); }
DRV drv_unknown_1(''' + ARGS + ') {' + SET % 2 + r''' spe.unk = 4; double res = m.process_scan(s, i, map, d); RobotPose bp = i; double p0 = uf_prob(i.x, i.y, i.theta, fr), p1 = uf_prob(a.x, a.y, a.theta, fr), p2 = uf_prob(b.x, b.y, b.theta, fr), best = p0; bool b1 = best < p1, b2 = false; if (b1) { best = p1; bp = a; } b2 = false; if (b2) { best = p2; bp = b; }
  ENS(unknown_candidate_result, res, best); ENS(unknown_candidate_shift, d.x, bp.x - i.x); ENS(unknown_candidate_heading, d.theta, bp.theta - i.theta); ENSI(unknown_first_outcome, en.fb[0], b1); ENSI(unknown_second_outcome, en.fb[1], b2); ENSI(unknown_every_pose_tested, spe.tests, 3); }
DRV drv_unknown_2(''' + ARGS + ') {' + SET % 2 + r''' spe.unk = 6; double res = m.process_scan(s, i, map, d); RobotPose bp = i; double p0 = uf_prob(i.x, i.y, i.theta, fr), p1 = uf_prob(a.x, a.y, a.theta, fr), p2 = uf_prob(b.x, b.y, b.theta, fr), best = p0; bool b1 = false, b2 = false; if (b1) { best = p1; bp = a; } b2 = false; if (b2) { best = p2; bp = b; }
  ENS(unknown_candidate_result, res, best); ENS(unknown_candidate_shift, d.x, bp.x - i.x); ENS(unknown_candidate_heading, d.theta, bp.theta - i.theta); ENSI(unknown_first_outcome, en.fb[0], b1); ENSI(unknown_second_outcome, en.fb[1], b2); ENSI(unknown_every_pose_tested, spe.tests, 3); }
DRV drv_unknown(double p) { ENSB(unknown_probability_is_recognised, ScanProbabilityEstimator::is_prob_unknown(ScanProbabilityEstimator::unknown_probability())); REQ(number, p >= 0); ENSB(numbers_are_known, !ScanProbabilityEstimator::is_prob_unknown(p)); }
'''
    m = compile_module(D, pre_cfg='peelcalls 8', dump='/tmp/p/c12.ll' if os.environ.get('DBG') else None)
    contracts(r, m, 'process_scan')
    return r.finish()
