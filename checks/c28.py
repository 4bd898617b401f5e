from core import *
RULE = ('The fixed hill climbing and the drift detecting matchers are inlined with a recording probability estimator, an uninterpreted angle histogram and a recording wrapped matcher; which poses are rated with which scan and which pose and probability are answered is compared with the documented search for symbolic start poses and probabilities.')
PRE = r'''
#include <iostream>
#include <vector>
#include <algorithm>
#include <functional>
namespace std { struct plainout { template <class T> plainout &operator<<(const T &) { return *this; } plainout &operator<<(std::ostream &(*)(std::ostream &)) { return *this; } }; static plainout plaincout; 
template <class I, class F> inline void plainsort(I b, I e, F f) {} template <class I> inline void plainsort(I b, I e) {} }
#define cout plaincout
#define sort plainsort
#include "core/scan_matchers/grid_scan_matcher.h"
#include "core/states/sensor_data.h"
#define SLAM_CTOR_FEATURES_ANGLE_HISTOGRAM_H
extern "C" double uf_prob(double, double, double, double) __attribute__((const)); static unsigned ah_mask, ah_max, ah_count, ah_res; static size_t ah_seen; static int ah_resets;
struct AngleHistogram { AngleHistogram(size_t n = 20) { ah_res = n; } auto reset(const LaserScan2D &s) { ah_seen = s.points().size(); ++ah_resets; return *this; } unsigned operator[](size_t i) const { return i == ah_max ? ah_count : 0; } unsigned value(const LaserScan2D::Points &p, size_t i) const { return ah_mask >> int(p[i].range()) & 1 ? ah_count : ah_count + 1; } size_t max_i() const { return ah_max; } size_t min_i() const { return 0; } double angle_step() const { return M_PI / 20; } };
#include "core/scan_matchers/hcsm_fixed.h"
#include "core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h"
template <class T> std::shared_ptr<T> SP(T &x) { return std::shared_ptr<T>(&x); }
struct PMap : GridMap { PMap() : GridMap{std::shared_ptr<GridCell>(), GridMapParams{4, 4, 1.0}} {} const GridCell &operator[](const Coord &) const override { return *(const GridCell *)0; } };
struct PTrig : TrigonometryProvider { double sin(double a) const override { return 0; } double cos(double a) const override { return 1; } void set_base_angle(double b) override {} };
'''
HC = r'''
struct PSpe : ScanProbabilityEstimator { double P[20]; mutable double x[20], y[20], t[20]; mutable int n = 0; mutable bool ended = false, right_scan = true, right_map = true; int filters = 0, last = 0; const void *fs, *fm, *map; double fx, fy, ft; PSpe() : ScanProbabilityEstimator{OOPE()} {}
  LaserScan2D filter_scan(const LaserScan2D &s, const RobotPose &p, const GridMap &m) override { ++filters; fs = &s; fm = &m; fx = p.x; fy = p.y; ft = p.theta; LaserScan2D r; r.trig_provider = s.trig_provider; r.points().push_back(ScanPoint2D::make_polar(3, 0, true)); return r; }
  double estimate_scan_probability(const LaserScan2D &s, const RobotPose &p, const GridMap &m, const SPEParams &) const override { if (&m != map) right_map = false; if (s.points().size() != 1) right_scan = false; if (ended) return unknown_probability(); int k = n++; x[k] = p.x; y[k] = p.y; t[k] = p.theta; double v = P[k]; if (k == last) ended = true; return v; } };
#define SET PMap map; PTrig tp; PSpe spe; spe.map = &map; HillClimbingSMFixed hc(SP<ScanProbabilityEstimator>(spe), 6, 0.1, 0.1); GridScanMatcher &m = hc; TransformedLaserScan s; s.scan.trig_provider = SP<TrigonometryProvider>(tp); s.scan.points().push_back(ScanPoint2D::make_polar(9, 0, true)); s.scan.points().push_back(ScanPoint2D::make_polar(8, 0, true)); RobotPoseDelta d(5, 6, 7);
#define ABOUT(A, B) ((A) - (B) <= 1e-9 && (B) - (A) <= 1e-9)
#define AT(K, DX, DY, DT) (ABOUT(spe.x[K], cx + (DX)) && ABOUT(spe.y[K], cy + (DY)) && ABOUT(spe.t[K], ct + (DT)))
#define RATED(O, NAME, DX, DY, DT) ENSB(NAME, AT(O, DX, DY, DT) || AT(O + 1, DX, DY, DT) || AT(O + 2, DX, DY, DT) || AT(O + 3, DX, DY, DT) || AT(O + 4, DX, DY, DT) || AT(O + 5, DX, DY, DT));
#define SIX(O) RATED(O, right_rated, 0.01, 0, 0) RATED(O, left_rated, -0.01, 0, 0) RATED(O, up_rated, 0, 0.01, 0) RATED(O, down_rated, 0, -0.01, 0) RATED(O, left_turn_rated, 0, 0, 0.5 / 180 * M_PI) RATED(O, right_turn_rated, 0, 0, -0.5 / 180 * M_PI)
'''
CFG = 'peelany 40\nfresh\ninline std::plain\nopaque uf_.*'
def climbing():
    L = []
    # every order that matters is enumerated: which neighbour is the most probable, whether it beats the start, which of the four larger steps is the first to improve
    for best in range(1, 7):
        for p0, pb, name in ((0.5, 0.75, 'better'), (0.5, 0.5, 'equal'), (0.5, 0.25, 'worse'), (0.5, 0.625, 'ties')):
            for hit in range(5):
                if name == 'ties' and hit % 2: continue
                q = [0.5 if k < hit and k % 2 else 0.25 if k < hit else 0.875 if k == hit else 0.9375 for k in range(4)]
                last = 7 + min(hit, 3)
                d = 'DRV drv_climb_%d_%s_%d(const RobotPose &i) { SET spe.last = %d; spe.P[0] = %s; ' % (best, name, hit, last, p0)
                d += ''.join('spe.P[%d] = %s; ' % (k, pb if k == best or (name == 'ties' and k > best) else pb - 0.125 if k % 2 else pb - 0.25) for k in range(1, 7)) + ''.join('spe.P[%d] = %s; ' % (7 + k, q[k]) for k in range(4))
                d += 'double res = m.process_scan(s, i, map, d); double cx = i.x, cy = i.y, ct = i.theta; SIX(1) ENSI(filtered_once, spe.filters, 1); ENSP(raw_scan_filtered, spe.fs, &s.scan); ENSP(filter_sees_the_map, spe.fm, &map); ENS(filtered_at_start_x, spe.fx, i.x); ENS(filtered_at_start_y, spe.fy, i.y); ENS(filtered_at_start_heading, spe.ft, i.theta); ENSB(filtered_scan_rated, spe.right_scan); ENSB(map_is_used, spe.right_map); '
                d += 'ENS(start_rated_x, spe.x[0], i.x); ENS(start_rated_y, spe.y[0], i.y); ENS(start_rated_heading, spe.t[0], i.theta); ENSI(rated_poses, spe.n, %d); ' % (last + 1)
                M, pr = ((16, 8, 4, 2)[hit], q[hit]) if hit < 4 else (1, pb) if pb > p0 else (0, p0)
                d += 'ENS(probability_of_the_answer, res, %s); ENS(shift_x, d.x, %d * (spe.x[%d] - i.x)); ENS(shift_y, d.y, %d * (spe.y[%d] - i.y)); ENS(shift_heading, d.theta, %d * (spe.t[%d] - i.theta)); }' % (pr, M, best, M, best, M, best)
                L.append(d)
    for best in range(1, 7):
        for nxt, end in ((1, 0.25), (4, 0.8125)):
            d = 'DRV drv_second_%d_%d(const RobotPose &i) { SET spe.last = 17; spe.P[0] = 0.5; ' % (best, nxt) + ''.join('spe.P[%d] = %s; ' % (k, '0.625' if k == best else '0.25') for k in range(1, 7)) + 'spe.P[7] = 0.75; ' + ''.join('spe.P[%d] = %s; ' % (7 + k, end if k == nxt else 0.125) for k in range(1, 7)) + ''.join('spe.P[%d] = %s; ' % (14 + k, (0.75, 0.5, 0.25, 0.75)[k]) for k in range(4))
            d += 'double res = m.process_scan(s, i, map, d); double cx = spe.x[7], cy = spe.y[7], ct = spe.t[7]; SIX(8) ENS(best_probability, res, %s); ENS(best_shift_x, d.x, spe.x[%d] - i.x); ENS(best_shift_y, d.y, spe.y[%d] - i.y); ENS(best_shift_heading, d.theta, spe.t[%d] - i.theta); }' % (max(0.75, end), *[7 if end < 0.75 else 7 + nxt] * 3)
            L.append(d)
    L.append('DRV drv_unknown(const RobotPose &i) { SET spe.ended = true; double res = m.process_scan(s, i, map, d); ENSB(unknown_stays_unknown, res != res); ENS(no_shift_x, d.x, 0); ENS(no_shift_y, d.y, 0); ENS(no_shift_heading, d.theta, 0); }')
    return L
CTD = r'''
// the rating of a scan depends on the pose and on which points (of ranges 1, 2, 3...) it has; whether the first point takes part in the second pass is left open
struct PSpe : ScanProbabilityEstimator { int npt; int filters = 0; mutable int n = 0; mutable double x[9], y[9], t[9]; mutable int sig[9]; const void *map; const void *fs, *fm; double fx, fy, ft; mutable bool right_map = true; PSpe() : ScanProbabilityEstimator{OOPE()} {}
  LaserScan2D filter_scan(const LaserScan2D &s, const RobotPose &p, const GridMap &m) override { ++filters; fs = &s; fm = &m; fx = p.x; fy = p.y; ft = p.theta; LaserScan2D r; r.trig_provider = s.trig_provider; for (int i = 1; i <= npt; ++i) r.points().push_back(ScanPoint2D::make_polar(i, 0, true)); return r; }
  double estimate_scan_probability(const LaserScan2D &s, const RobotPose &p, const GridMap &m, const SPEParams &) const override { if (&m != map) right_map = false; int g = 0; for (size_t i = 0; i < s.points().size(); ++i) if (s.points()[i].range() > 1) g += 1 << int(s.points()[i].range()); x[n] = p.x; y[n] = p.y; t[n] = p.theta; sig[n++] = g; return uf_prob(p.x, p.y, p.theta, g); } };
struct Inner : GridScanMatcher { RobotPoseDelta d; double pr; int calls = 0, resets = 0; const void *s, *m; double x, y, t; Inner(SPE e) : GridScanMatcher(e) {} void reset_state() override { ++resets; } double process_scan(const TransformedLaserScan &sc, const RobotPose &p, const GridMap &mp, RobotPoseDelta &o) override { ++calls; s = &sc; m = &mp; x = p.x; y = p.y; t = p.theta; o = d; return pr; } };
#define SET PMap map; PTrig tp; PSpe spe; spe.map = &map; SP0; Inner in(SP<ScanProbabilityEstimator>(spe)); in.d = RobotPoseDelta(dx, dy, dt); in.pr = pr; ConnectTheDotsAmbiguousDriftDetector cd{SP<GridScanMatcher>(in)}; GridScanMatcher &m = cd; TransformedLaserScan s; s.scan.trig_provider = SP<TrigonometryProvider>(tp); for (int k = 0; k < 5; ++k) s.scan.points().push_back(ScanPoint2D::make_polar(9, 0, true)); RobotPoseDelta d(5, 6, 7); ah_max = mx; ah_count = cnt; ah_mask = MASK; ah_resets = 0;
#define ASKED ENSI(wrapped_matcher_asked_once, in.calls, 1); ENSP(wrapped_matcher_sees_the_scan, in.s, &s); ENSP(wrapped_matcher_sees_the_map, in.m, &map); ENS(wrapped_start_x, in.x, i.x); ENS(wrapped_start_y, in.y, i.y); ENS(wrapped_start_heading, in.t, i.theta); ENSI(filtered_once, spe.filters, 1); ENSP(raw_scan_filtered, spe.fs, &s.scan); ENSP(filter_sees_the_map, spe.fm, &map); ENS(filtered_at_x, spe.fx, i.x); ENS(filtered_at_heading, spe.ft, i.theta); ENSI(directions_of_the_filtered_scan, ah_seen, spe.npt);
#define ARGS const RobotPose &i, double dx, double dy, double dt, double pr, unsigned mx, unsigned cnt
'''
def drift():
    L = []
    for n in (1, 2, 3, 5):
        low = -(-2 * n // 5)  # the fewest segments that make two fifths of the points
        L.append('#undef MASK\n#undef SP0\n#define MASK 0\n#define SP0 spe.npt = %d\nDRV drv_clear_%d(ARGS) { REQ(index, mx < 20); REQ(rare, cnt < %d); SET double res = m.process_scan(s, i, map, d); ASKED ENS(probability_of_the_wrapped_matcher, res, pr); ENS(wrapped_shift_x, d.x, dx); ENS(wrapped_shift_y, d.y, dy); ENS(wrapped_shift_heading, d.theta, dt); ENSI(nothing_rated, spe.n, 0); }' % (n, n, low))
    L.append('#undef MASK\n#undef SP0\n#define MASK 0\n#define SP0 spe.npt = 2\nDRV drv_reset(ARGS) { SET m.reset_state(); ENSI(wrapped_matcher_is_reset, in.resets, 1); ENSP(estimator_of_the_wrapped_matcher, m.scan_probability_estimator().get(), &spe); }')
    for n, mask in ((2, 0), (2, 4), (3, 4), (3, 8), (3, 12), (3, 0), (5, 20)):
        low = -(-2 * n // 5); sig = sum(1 << k for k in range(2, n + 1) if not mask >> k & 1); full = sum(1 << k for k in range(2, n + 1))
        d = '#undef MASK\n#undef SP0\n#define MASK %d\n#define SP0 spe.npt = %d\nDRV drv_drift_%d_%d(ARGS) { REQ(index, mx < 20); REQ(frequent, cnt >= %d); REQ(sane, cnt <= 100); SET double res = m.process_scan(s, i, map, d); ASKED ' % (mask, n, n, mask, low)
        d += 'double bx = i.x + dx, by = i.y + dy, bt = i.theta + dt; ENS(base_rated_x, spe.x[0], bx); ENS(base_rated_y, spe.y[0], by); ENS(base_rated_heading, spe.t[0], bt); ENSI(without_the_drift_direction, spe.sig[0], %d); ENSB(map_is_used, spe.right_map); ' % sig
        d += 'double a = mx * (M_PI / 20) + M_PI / 20 / 2, b = uf_prob(bx, by, bt, %d), px = bx, py = by; double dst = -0.25; int k = 1; ' % sig
        d += 'for (; dst <= 0.25; dst += 0.1) { ENS(rated_along_the_direction_x, spe.x[k], bx + std::cos(a) * dst); ENS(rated_along_the_direction_y, spe.y[k], by + std::sin(a) * dst); ENS(rated_heading, spe.t[k], bt); ENSI(rated_without_the_drift_direction, spe.sig[k], %d); double q = uf_prob(bx + std::cos(a) * dst, by + std::sin(a) * dst, bt, %d); if (b < q) { b = q; px = bx + std::cos(a) * dst; py = by + std::sin(a) * dst; } ++k; } ' % (sig, sig)
        d += 'ENSI(number_of_ratings, spe.n, k + 1); ENS(best_shift_x, d.x, px - i.x); ENS(best_shift_y, d.y, py - i.y); ENS(best_shift_heading, d.theta, dt); ENS(whole_scan_rated_at_the_answer_x, spe.x[k], px); ENS(whole_scan_rated_at_the_answer_y, spe.y[k], py); ENSI(whole_scan_rated, spe.sig[k], %d); ENS(probability_of_the_answer, res, uf_prob(px, py, bt, %d)); }' % (full, full)
        L.append(d)
    return [x + '\n' for x in L]
def main():
    r = Report('C28', RULE, 2000); r.asserts = True
    pre = models(cap=6, vec=True)
    families(r, pre + PRE + HC, climbing(), 'src/core/scan_matchers/hcsm_fixed.h:HillClimbingSMFixed::process_scan', CFG)
    families(r, pre + PRE + CTD, drift(), 'src/core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h:ConnectTheDotsAmbiguousDriftDetector::process_scan', CFG)
    return r.finish()
