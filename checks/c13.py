from core import *
RULE = ('Each pose enumerator is constructed with symbolic settings and driven through requests, outcomes and resets; the poses it yields are compared with the documented lattice (brute force), ring (polar), halving six-neighbour (hill climbing) and shrinking Gaussian (Monte Carlo) schedules; small constant lattices are enumerated completely in the unrolled form.')
PRE = r'''
#include "core/scan_matchers/brute_force_scan_matcher.h"
#include "core/scan_matchers/monte_carlo_scan_matcher.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#define AT(n, q, X, Y, T) ENS(n##_x, q.x, X); ENS(n##_y, q.y, Y); ENS(n##_heading, q.theta, T);
'''
LAT = r'''
#define A9 double fx, double tx, double sx, double fy, double ty, double sy, double ft, double tt, double st
#define BF REQ(x_range, fx <= tx); REQ(y_range, fy <= ty); REQ(t_range, ft <= tt); BruteForcePoseEnumerator e(fx, tx, sx, fy, ty, sy, ft, tt, st); PoseEnumerator &p = e;
#define STEP if (x < tx) x += sx; else { x = fx; if (y < ty) y += sy; else { y = fy; t += st; } }
DRV drv_bf(A9, const RobotPose &b, const RobotPose &c, bool f0, bool f1) { BF double x = fx, y = fy, t = ft; RobotPose q = p.next(b); AT(first_lattice_pose, q, b.x + x, b.y + y, b.theta + t) ENSI(first_pose_available, p.has_next(), t <= tt); RobotPose q2 = p.next(c); AT(request_alone_does_not_advance, q2, b.x + x, b.y + y, b.theta + t)
  p.feedback(f0); STEP q = p.next(c); AT(second_lattice_pose, q, b.x + x, b.y + y, b.theta + t) ENSI(second_available, p.has_next(), t <= tt);
  p.feedback(f1); STEP q = p.next(c); AT(third_lattice_pose, q, b.x + x, b.y + y, b.theta + t) ENSI(third_available, p.has_next(), t <= tt);
  p.reset(); ENSI(available_after_reset, p.has_next(), 1); q = p.next(c); AT(restarted_around_new_pose, q, c.x + fx, c.y + fy, c.theta + ft) }
#define LOOP(N, ...) int n = 0; bool bad = false; for (int k = 0; k < N; ++k) { if (!p.has_next()) break; RobotPose q = p.next(z); ++n; __VA_ARGS__ p.feedback(k % 3 == 0); }
DRV drv_lattice() { BruteForcePoseEnumerator e(-1, 1, 1, -1, 0, 1, 0, 1, 1); PoseEnumerator &p = e; RobotPose z{0, 0, 0}; int v[12]; for (int i = 0; i < 12; ++i) v[i] = 0;
  LOOP(16, int i = int(q.x + 1) + 3 * int(q.y + 1) + 6 * int(q.theta); if (i < 0 || i > 11) bad = true; else ++v[i];) ENSI(lattice_size, n, 12); ENSB(stays_on_the_lattice, !bad); for (int i = 0; i < 12; ++i) ENSI(each_lattice_pose_once, v[i], 1); }
DRV drv_lattice2() { BruteForcePoseEnumerator e(0.5, 0.75, 0.125, 1, 1, 1, -2, 0, 2); PoseEnumerator &p = e; RobotPose z{0, 0, 0}; double sx = 0, st = 0; LOOP(12, sx += q.x; st += q.theta; if (q.y != 1) bad = true;) ENSI(fractional_lattice_size, n, 6); ENS(fractional_x_values, sx, 3.75); ENS(fractional_headings, st, -6); ENSB(fixed_coordinate_stays, !bad); }
#define A6 double fd, double td, double sd, double fr, double tr, double sr
#define PO REQ(dirs, fd <= td); REQ(dists, fr <= tr); REQ(steps, sd > 0); REQ(stepr, sr > 0); PolarCoordBruteForcePoseEnumerator e(fd, td, sd, fr, tr, sr); PoseEnumerator &p = e;
#define PSTEP if (d < td) d += sd; else { d = fd; r += sr; }
DRV drv_polar(A6, const RobotPose &b, const RobotPose &c, bool f0, bool f1) { PO double d = fd, r = fr; RobotPose q = p.next(b); AT(first_polar_pose, q, b.x + std::cos(d) * r, b.y + std::sin(d) * r, b.theta) ENSI(first_polar_available, p.has_next(), 1); q = p.next(c); AT(polar_request_does_not_advance, q, b.x + std::cos(d) * r, b.y + std::sin(d) * r, b.theta)
  p.feedback(f0); PSTEP q = p.next(c); AT(second_polar_pose, q, b.x + std::cos(d) * r, b.y + std::sin(d) * r, b.theta) ENSI(second_polar_available, p.has_next(), r <= tr);
  p.feedback(f1); PSTEP q = p.next(c); AT(third_polar_pose, q, b.x + std::cos(d) * r, b.y + std::sin(d) * r, b.theta) ENSI(third_polar_available, p.has_next(), r <= tr);
  p.reset(); ENSI(polar_available_after_reset, p.has_next(), 1); q = p.next(c); AT(polar_restarted_around_new_pose, q, c.x + std::cos(fd) * fr, c.y + std::sin(fd) * fr, c.theta) }
DRV drv_ring() { PolarCoordBruteForcePoseEnumerator e(0, 2, 1, 1, 2, 1); PoseEnumerator &p = e; RobotPose z{0, 0, 0}; LOOP(10, ) ENSI(polar_lattice_size, n, 6); }
'''
HILL = r'''
typedef FailedRoundsLimitedPoseEnumerator<Distorsion1DPoseEnumerator> HC;
#define ROUND(B, C) double X = 0, Y = 0, T = 0, X2 = 0, Y2 = 0, T2 = 0; for (int k = 0; k < 6; ++k) { RobotPose q = p.next(k ? C : B); double dx = q.x - B.x, dy = q.y - B.y, dt = q.theta - B.theta; X += dx; Y += dy; T += dt; X2 += dx * dx; Y2 += dy * dy; T2 += dt * dt; p.feedback(k == ok); }
#define SUMS(n, TD, RD) ENS(n##_balanced_x, X, 0); ENS(n##_balanced_y, Y, 0); ENS(n##_balanced_heading, T, 0); ENS(n##_translation_x, X2, 2 * (TD) * (TD)); ENS(n##_translation_y, Y2, 2 * (TD) * (TD)); ENS(n##_rotation, T2, 2 * (RD) * (RD));
DRV drv_hill_round(double td, double rd, const RobotPose &b, const RobotPose &c) { HC e(3, td, rd); PoseEnumerator &p = e; const int ok = -1; ENSI(hill_available, p.has_next(), 1); ROUND(b, c) SUMS(first_round, td, rd) ENSI(hill_available_after_failed_round, p.has_next(), 1); }
DRV drv_hill_failed(double td, double rd, const RobotPose &b, const RobotPose &c, const RobotPose &d) { HC e(3, td, rd); PoseEnumerator &p = e; const int ok = -1; { ROUND(b, c) } { ROUND(c, d) SUMS(round_after_failure, td * 0.5, rd * 0.5) } }
DRV drv_hill_failed2(double td, double rd, const RobotPose &b, const RobotPose &c, const RobotPose &d) { HC e(3, td, rd); PoseEnumerator &p = e; const int ok = -1; { ROUND(b, c) } { ROUND(c, d) } { ROUND(d, b) SUMS(round_after_two_failures, td * 0.25, rd * 0.25) } }
DRV drv_hill_ok(double td, double rd, const RobotPose &b, const RobotPose &c, const RobotPose &d) { HC e(3, td, rd); PoseEnumerator &p = e; const int ok = OKK; { ROUND(b, c) } { ROUND(c, d) SUMS(round_after_success, td, rd) } }
DRV drv_hill_reset(double td, double rd, const RobotPose &b, const RobotPose &c, const RobotPose &d) { HC e(3, td, rd); PoseEnumerator &p = e; const int ok = -1; { ROUND(b, c) } p.next(c); p.feedback(false); p.reset(); { ROUND(d, c) SUMS(round_after_reset, td, rd) } }
DRV drv_hill_dims() { HC e(1, 2, 3); PoseEnumerator &p = e; RobotPose z{0, 0, 0}, w{50, 60, 70}; int xi = 0, xd = 0, yi = 0, yd = 0, ti = 0, td = 0; for (int k = 0; k < 6; ++k) { RobotPose q = p.next(k ? w : z); xi += q.x == 2 && q.y == 0 && q.theta == 0; xd += q.x == -2 && q.y == 0 && q.theta == 0; yi += q.x == 0 && q.y == 2 && q.theta == 0; yd += q.x == 0 && q.y == -2 && q.theta == 0; ti += q.x == 0 && q.y == 0 && q.theta == 3; td += q.x == 0 && q.y == 0 && q.theta == -3; p.feedback(false); }
  ENSI(forward_shift_tried, xi, 1); ENSI(backward_shift_tried, xd, 1); ENSI(left_shift_tried, yi, 1); ENSI(right_shift_tried, yd, 1); ENSI(counterclockwise_turn_tried, ti, 1); ENSI(clockwise_turn_tried, td, 1); }
DRV drv_hill_stop() { HC e(2, 1, 1); PoseEnumerator &p = e; RobotPose z{0, 0, 0}; int n = 0; for (int k = 0; k < 20; ++k) { if (!p.has_next()) break; p.next(z); ++n; p.feedback(false); } ENSB(stops_after_the_allowed_failed_rounds, n == 12 || n == 13); }
DRV drv_hill_stop2() { HC e(2, 1, 1); PoseEnumerator &p = e; RobotPose z{0, 0, 0}; int n = 0; for (int k = 0; k < 26; ++k) { if (!p.has_next()) break; p.next(z); ++n; p.feedback(k == 8); } ENSB(successful_rounds_are_not_counted, n == 18 || n == 19); p.reset(); ENSI(hill_available_after_reset, p.has_next(), 1); }
DRV drv_hill_none(double td, double rd) { HC e(0, td, rd); PoseEnumerator &p = e; ENSI(no_rounds_allowed, p.has_next(), 0); }
DRV drv_frame(double td, double rd, double f, const RobotPose &b) { HC e(3, td, rd, f); PoseEnumerator &p = e; double U = 0; for (int k = 0; k < 6; ++k) { RobotPose q = p.next(b); double u = (q.x - b.x) * std::cos(f) + (q.y - b.y) * std::sin(f), v = (q.y - b.y) * std::cos(f) - (q.x - b.x) * std::sin(f); U += u * v * u * v; p.feedback(false); } ENS(frame_rotation_reaches_the_rounds, U, 0); }
DRV drv_round_reset(double td, double rd, const RobotPose &b, const RobotPose &c, bool more) { Distorsion1DPoseEnumerator e(td, rd); PoseEnumerator &p = e; for (int k = 0; k < 6; ++k) p.next(b); ENSI(round_is_over, p.has_next(), 0); p.reset(); ENSI(round_restarts, p.has_next(), 1); double X = 0, Y = 0, T = 0, X2 = 0, Y2 = 0, T2 = 0; int n = 0; for (int k = 0; k < 8; ++k) { if (!p.has_next()) break; RobotPose q = p.next(c); double dx = q.x - c.x, dy = q.y - c.y, dt = q.theta - c.theta; X += dx; Y += dy; T += dt; X2 += dx * dx; Y2 += dy * dy; T2 += dt * dt; ++n; } ENSI(six_neighbours_after_reset, n, 6); SUMS(restarted_round, td, rd) }
DRV drv_turned(double td, double rd, double f, const RobotPose &b) { Distorsion1DPoseEnumerator e(td, rd, f); PoseEnumerator &p = e; double A = 0, Q = 0, T2 = 0, U = 0; int n = 0; for (int k = 0; k < 8; ++k) { if (!p.has_next()) break; RobotPose q = p.next(b); ++n; double u = (q.x - b.x) * std::cos(f) + (q.y - b.y) * std::sin(f), v = (q.y - b.y) * std::cos(f) - (q.x - b.x) * std::sin(f); U += u * v * u * v; A += u * u; Q += v * v; T2 += (q.theta - b.theta) * (q.theta - b.theta); p.feedback(false); }
  double c2 = std::cos(f) * std::cos(f) + std::sin(f) * std::sin(f); ENSI(six_neighbours, n, 6); ENS(shifts_follow_the_frame, U, 0); ENS(shift_along_the_frame, A, 2 * td * td * c2 * c2); ENS(shift_across_the_frame, Q, 2 * td * td * c2 * c2); ENS(turns_of_the_round, T2, 2 * rd * rd); }
'''
MC = r'''
DRV drv_rv(unsigned s, double m, double d, double n, double f, double u, double v) { std::mt19937 e(s); typedef std::mt19937 E; RobotPoseDeltaRV<E> a{GaussianRV1D<E>{m, d}, GaussianRV1D<E>{n, f}, UniformRV1D<E>{u, v}}; RobotPoseDelta q = a.sample(e);
  ENS(random_shift_x, q.x, m + d * uf_gauss(s, 0)); ENS(random_shift_y, q.y, n + f * uf_gauss(s, 1)); ENS(random_shift_heading, q.theta, u + (v - u) * uf_unif(s, 2));
  RobotPoseDeltaRV<E> b(a); q = b.sample(e); ENS(copied_random_shift_x, q.x, m + d * uf_gauss(s, 3)); ENS(copied_random_shift_y, q.y, n + f * uf_gauss(s, 4)); ENS(copied_random_shift_heading, q.theta, u + (v - u) * uf_unif(s, 5));
  RobotPoseDeltaRV<E> c{GaussianRV1D<E>{0, 0}, GaussianRV1D<E>{0, 0}, GaussianRV1D<E>{0, 0}}; c = a; q = c.sample(e); ENS(assigned_random_shift_x, q.x, m + d * uf_gauss(s, 6)); ENS(assigned_random_shift_y, q.y, n + f * uf_gauss(s, 7)); ENS(assigned_random_shift_heading, q.theta, u + (v - u) * uf_unif(s, 8)); }
#define MCE(F, P) GaussianPoseEnumerator e(s, td, rd, F, P); PoseEnumerator &p = e;
#define DRAW(n, q, B, K, TD, RD) AT(n, q, B.x + (TD) * uf_gauss(s, 3 * (K)), B.y + (TD) * uf_gauss(s, 3 * (K) + 1), B.theta + (RD) * uf_gauss(s, 3 * (K) + 2))
#define MA unsigned s, double td, double rd, const RobotPose &b, const RobotPose &c
DRV drv_mc(MA) { MCE(9, 100) RobotPose q = p.next(b); DRAW(first_draw, q, b, 0, td, rd) p.feedback(false); q = p.next(c); DRAW(second_draw_around_given_pose, q, c, 1, td, rd) p.feedback(false); q = p.next(b); DRAW(third_draw, q, b, 2, td, rd) }
DRV drv_mc_early(MA) { MCE(9, 100) p.next(b); p.feedback(true); RobotPose q = p.next(b); DRAW(early_success_keeps_dispersion, q, b, 1, td, rd) for (int i = 0; i < 3; ++i) p.feedback(false); p.feedback(true); q = p.next(b); DRAW(success_within_a_third_keeps_dispersion, q, b, 2, td, rd) }
DRV drv_mc_late(MA) { MCE(9, 100) for (int i = 0; i < 4; ++i) p.feedback(false); p.feedback(true); RobotPose q = p.next(c); DRAW(late_success_halves_dispersion, q, c, 0, td * 0.5, rd * 0.5) for (int i = 0; i < 4; ++i) p.feedback(false); p.feedback(true); q = p.next(c); DRAW(second_late_success_halves_again, q, c, 1, td * 0.25, rd * 0.25) p.reset(); q = p.next(b); DRAW(reset_restores_dispersion, q, b, 2, td, rd) }
DRV drv_mc_limits(MA) { MCE(4, 7) ENSI(mc_available, p.has_next(), 1); p.feedback(false); p.feedback(false); p.feedback(false); ENSI(mc_before_failure_limit, p.has_next(), 1); p.feedback(false); ENSI(mc_failure_limit_reached, p.has_next(), 0); p.reset(); ENSI(mc_available_after_reset, p.has_next(), 1); for (int i = 0; i < 6; ++i) p.feedback(true); ENSI(mc_before_pose_limit, p.has_next(), 1); p.feedback(true); ENSI(mc_pose_limit_reached, p.has_next(), 0); p.reset(); ENSI(mc_pose_count_restarts, p.has_next(), 1); }
DRV drv_mc_poses(MA) { MCE(9, 3) p.feedback(false); p.feedback(true); ENSI(mixed_outcomes_before_pose_limit, p.has_next(), 1); p.feedback(false); ENSI(failed_poses_count_towards_the_limit, p.has_next(), 0); }
DRV drv_mc_recover(MA) { MCE(4, 100) p.feedback(false); p.feedback(false); p.feedback(true); p.feedback(false); p.feedback(false); p.feedback(false); ENSI(failure_count_restarts_on_shrinking, p.has_next(), 1); p.feedback(false); ENSI(failure_limit_after_shrinking, p.has_next(), 0); }
'''
ALIGN = r"""
#include <cmath>
#include "core/features/angle_histogram.h"
// the dominant direction depends on which scan the histogram was filled from
extern "C" double uf_major(double, double) __attribute__((const)); extern "C" double uf_minor(double) __attribute__((const));
struct ProbeHistogram { double first = -1, n = -1; size_t bins; ProbeHistogram(size_t b = 20) : bins(b) {} auto reset(const LaserScan2D &s) { first = s.points().size() ? s.points()[0].range() : 0; n = s.points().size(); return *this; }
  size_t max_i() const { return 3; } size_t min_i() const { return 5; } double mean_bin_angle(size_t i) const { return i == 3 ? uf_major(first, n) : uf_minor(first); } double major_direction() const { return uf_major(first, n); } double minor_direction() const { return uf_minor(first); }
  size_t operator[](size_t i) const { return i == 3 ? 7 : i == 5 ? 0 : 1; } double angle_step() const { return M_PI / bins; } template <class P> size_t value(const P &, size_t) const { return 1; } };
#define AngleHistogram ProbeHistogram
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
template <class T> std::shared_ptr<T> SP(T &x) { return std::shared_ptr<T>(&x); }
struct PMap : GridMap { PMap() : GridMap{std::shared_ptr<GridCell>(), GridMapParams{4, 4, 1.0}} {} const GridCell &operator[](const Coord &) const override { return *(const GridCell *)0; } };
struct PTrig : TrigonometryProvider { double sin(double a) const override { return 0; } double cos(double a) const override { return 1; } void set_base_angle(double b) override {} };
struct PSpe : ScanProbabilityEstimator { mutable int n = 0; mutable double x[9], y[9], t[9]; PSpe() : ScanProbabilityEstimator{OOPE()} { } LaserScan2D filter_scan(const LaserScan2D &s, const RobotPose &, const GridMap &) override { LaserScan2D r; r.trig_provider = s.trig_provider; r.points().push_back(ScanPoint2D::make_polar(77, 0, true)); r.points().push_back(ScanPoint2D::make_polar(78, 0, true)); return r; }
  double estimate_scan_probability(const LaserScan2D &, const RobotPose &p, const GridMap &, const SPEParams &) const override { if (n < 7) { x[n] = p.x; y[n] = p.y; t[n] = p.theta; } ++n; return n == 1; } };
#define ARGS const RobotPose &i, double td, double rd, double r0, double r1
#define SET(K) PMap map; PTrig tp; PSpe spe; HillClimbingScanMatcher hc(SP<ScanProbabilityEstimator>(spe), 1, td, rd, K); GridScanMatcher &m = hc; TransformedLaserScan s; s.scan.trig_provider = SP<TrigonometryProvider>(tp); RobotPoseDelta d(5, 6, 7);
#define POINT(R) s.scan.points().push_back(ScanPoint2D::make_polar(R, 0, true));
#define MOVES double A = 0, C = 0, U = 0, T = 0; for (int k = 1; k < 7; ++k) { double dx = spe.x[k] - i.x, dy = spe.y[k] - i.y, dt = spe.t[k] - i.theta, u = dx * c + dy * q, v = dy * c - dx * q; U += u * u * v * v; A += u * u; C += v * v; T += dt * dt; }
#define MOVED(N) { double k2 = c * c + q * q; ENS(N##_moves_along_or_across, U, 0); ENS(N##_moves_along, A, 2 * td * td * k2 * k2); ENS(N##_moves_across, C, 2 * td * td * k2 * k2); ENS(N##_turns, T, 2 * rd * rd); }
DRV drv_aligned(ARGS) { SET(true) POINT(r0) POINT(r1) double best = m.process_scan(s, i, map, d); ENS(probability_of_the_best_pose, best, 1); ENS(start_is_the_best_x, d.x, 0); ENS(start_is_the_best_heading, d.theta, 0); double f = uf_major(r0, 2), c = std::cos(f), q = std::sin(f); MOVES MOVED(aligned) ENS(start_rated_x, spe.x[0], i.x); ENS(start_rated_y, spe.y[0], i.y); ENSB(one_failed_round, spe.n == 7 || spe.n == 8); }
DRV drv_aligned_anew(ARGS) { SET(true) POINT(r0) POINT(r1) m.process_scan(s, i, map, d); TransformedLaserScan e; e.scan.trig_provider = SP<TrigonometryProvider>(tp); for (int k = 0; k < 3; ++k) e.scan.points().push_back(ScanPoint2D::make_polar(r1, 0, true)); spe.n = 0; m.process_scan(e, i, map, d); double f = uf_major(r1, 3), c = std::cos(f), q = std::sin(f); MOVES MOVED(realigned) }
DRV drv_single_point(ARGS) { SET(true) POINT(r0) m.process_scan(s, i, map, d); double c = 1, q = 0; MOVES MOVED(unaligned_single_point) }
DRV drv_unaligned(ARGS) { SET(false) POINT(r0) POINT(r1) m.process_scan(s, i, map, d); double c = 1, q = 0; MOVES MOVED(unaligned) }
DRV drv_by_default(ARGS) { PMap map; PTrig tp; PSpe spe; HillClimbingScanMatcher hc(SP<ScanProbabilityEstimator>(spe), 1, td, rd); GridScanMatcher &m = hc; TransformedLaserScan s; s.scan.trig_provider = SP<TrigonometryProvider>(tp); RobotPoseDelta d(5, 6, 7); POINT(r0) POINT(r1) m.process_scan(s, i, map, d); double c = 1, q = 0; MOVES MOVED(unaligned_by_default) }
"""
def main():
    r = Report('C13', RULE, 12); r.asserts = True
    def go(D, site, cfg=''):
        m = compile_module(D, pre_cfg=cfg, dump='/tmp/p/c13.ll' if os.environ.get('DBG') else None)
        contracts(r, m, site)
    go(models(4) + PRE + LAT, 'lattice enumerators', 'peelcalls 30')
    H = HILL
    oks = ''.join(re.sub('OKK', str(k), re.search(r'DRV drv_hill_ok.*\n', HILL).group(0)).replace('drv_hill_ok', 'drv_hill_ok%d' % k) for k in (0, 3, 5))
    H = re.sub(r'DRV drv_hill_ok.*\n', '', H) + oks
    go(models(4) + PRE + H, 'hill climbing enumerator', 'peelcalls 30')
    go(models(4, rnd=True) + PRE + MC, 'Monte Carlo enumerator', 'peelcalls 30')
    go(models(4, fun=True) + ALIGN, 'hill climbing along the dominant direction', 'peelcalls 30')
    return r.finish()
