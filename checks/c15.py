from core import *
RULE = ('The angle histogram is inlined over a vector model whose element accesses are resolved case by case, and filled from scans of symbolic points; bin counts, point values, bin means, extreme bins and the reciprocal weights are compared with the direction of each segment folded into [0, 180) degrees.')
PRE = r'''
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#define P3 double x0, double y0, double x1, double y1, double x2, double y2
#define ADD(k) s.points().push_back(ScanPoint2D::make_cartesian(Point2D{x##k, y##k}, true));
#define ANG(a, b) AngleHistogram::estimate_ox_based_angle(s.points()[a], s.points()[b])
DRV drv_direction(P3) { auto a = ScanPoint2D::make_cartesian(Point2D{x0, y0}, true), b = ScanPoint2D::make_cartesian(Point2D{x1, y1}, true); double dx = x1 - x0, dy = y1 - y0, d = std::sqrt(dx * dx + dy * dy), r = AngleHistogram::estimate_ox_based_angle(a, b); ENSB(direction_below_180, r < M_PI); ENSB(direction_not_negative, r >= 0);
  if (dy == 0) { ENS(horizontal_direction, r, 0); } else { double c = std::acos(dx / d); if (dx != 0) { if (dy > 0) { if (c < M_PI) { ENS(upward_direction, r, c); } else { ENS(upward_almost_180, r, 0); } } else if (c > 0) { ENS(downward_direction, r, M_PI - c); } else { ENS(downward_almost_180, r, 0); } } } }
DRV drv_vertical(double x0, double y0, double y1) { auto a = ScanPoint2D::make_cartesian(Point2D{x0, y0}, true), b = ScanPoint2D::make_cartesian(Point2D{x0, y1}, true); if (y0 < y1 || y1 < y0) { ENS(vertical_direction, AngleHistogram::estimate_ox_based_angle(a, b), M_PI / 2); } }
DRV drv_hist(P3) { LaserScan2D s; ADD(0) ADD(1) ADD(2) AngleHistogram h(4); h.reset(s); double st = h.angle_step(), a = ANG(0, 1), b = ANG(1, 2); ENS(bin_width, st * 4, M_PI); size_t i = std::floor(a / st), j = std::floor(b / st);
  ENSI(count_of_first_bin, h[0], (i == 0) + (j == 0)); ENSI(count_of_second_bin, h[1], (i == 1) + (j == 1)); ENSI(count_of_third_bin, h[2], (i == 2) + (j == 2)); ENSI(count_of_last_bin, h[3], (i == 3) + (j == 3)); ENSI(every_segment_counted_once, h[0] + h[1] + h[2] + h[3], 2);
  ENSI(value_of_the_first_point, h.value(s.points(), 0), 3); ENSI(value_of_a_point_is_its_bin_count, h.value(s.points(), 1), 1 + (i == j)); ENSI(value_of_the_last_point, h.value(s.points(), 2), 1 + (i == j)); }
DRV drv_extremes(P3) { LaserScan2D s; ADD(0) ADD(1) ADD(2) AngleHistogram h(3); h.reset(s); size_t a = h.max_i(), b = h.min_i(); ENSB(fullest_bin_exists, a < 3); ENSB(emptiest_bin_exists, b < 3); ENSB(fullest_bin_has_most, h[a] >= h[0] && h[a] >= h[1] && h[a] >= h[2]); ENSB(emptiest_bin_has_least, h[b] <= h[0] && h[b] <= h[1] && h[b] <= h[2]); }
DRV drv_small(P3) { LaserScan2D s; ADD(0) AngleHistogram h(2); h.reset(s); ENSI(single_point_fills_nothing, h[0] + h[1], 0); ENSI(value_of_a_single_point, h.value(s.points(), 0), 1); LaserScan2D e; h.reset(e); ENSI(empty_scan_fills_nothing, h[0] + h[1], 0); }
'''
PRE0 = PRE[:PRE.index('DRV drv_direction')]
HIST = r'''
DRV drv_again(P3) { LaserScan2D s; ADD(0) ADD(1) AngleHistogram h(2); h.reset(s); LaserScan2D t; std::swap(s, t); ADD(1) ADD(2) h.reset(s); double st = h.angle_step(), a = ANG(0, 1); size_t i = std::floor(a / st); ENSI(reset_forgets_previous_counts, h[0], i == 0); ENSI(reset_counts_new_scan, h[1], i == 1); ENSI(value_after_reset, h.value(s.points(), 1), 1); ENSI(first_value_after_reset, h.value(s.points(), 0), 2); if (i == 0) { ENS(bin_mean_after_reset, h.mean_bin_angle(0), a); } if (i == 1) { ENS(second_bin_mean_after_reset, h.mean_bin_angle(1), a); } }
DRV drv_mean(P3) { LaserScan2D s; ADD(0) ADD(1) ADD(2) AngleHistogram h(2); h.reset(s); double st = h.angle_step(), a = ANG(0, 1), b = ANG(1, 2); size_t i = std::floor(a / st), j = std::floor(b / st);
  if (i == 0) { if (j == 0) { ENS(mean_direction_of_two, h.mean_bin_angle(0), (a + b) / 2); ENS(major_direction_of_two, h.major_direction(), (a + b) / 2); } else { ENS(mean_direction_of_first, h.mean_bin_angle(0), a); ENS(mean_direction_of_other_bin, h.mean_bin_angle(1), b); } } else if (j == 1) { ENS(mean_direction_of_last_bin, h.mean_bin_angle(1), (a + b) / 2); ENS(major_direction_of_last_bin, h.major_direction(), (a + b) / 2); ENSI(emptiest_bin, h.min_i(), 0); } else { ENS(mean_of_first_bin, h.mean_bin_angle(0), b); ENS(mean_of_second_bin, h.mean_bin_angle(1), a); } }
'''
REC = r'''
DRV drv_weight(P3) { LaserScan2D s; ADD(0) ADD(1) ADD(2) AngleHistogram h; h.reset(s); ENS(default_bin_width, 20 * h.angle_step(), M_PI); }
DRV drv_recip(P3) { LaserScan2D s; ADD(0) ADD(1) ADD(2) AngleHistogramReciprocalSPW w; ScanPointWeighting &x = w; x.reset(s); double st = M_PI / 20, a = ANG(0, 1), b = ANG(1, 2); int i = std::floor(a / st), j = std::floor(b / st); ENS(weight_of_the_first_point, x.weight(s.points(), 0), 1.0 / 3); if (i == 1) { if (j == 1) { ENS(weight_of_parallel_segments, x.weight(s.points(), 1), 0.5); ENS(weight_of_parallel_segments_last, x.weight(s.points(), 2), 0.5); } else { ENS(weight_of_lone_segment, x.weight(s.points(), 1), 1); ENS(weight_of_last_lone_segment, x.weight(s.points(), 2), 1); } } }
'''
UF = r'''
extern "C" double uf_dir(double, double, double, double) __attribute__((const));
extern "C" double drvr_dir(const ScanPoint2D &a, const ScanPoint2D &b) { double r = uf_dir(a.x(), a.y(), b.x(), b.y()); __builtin_assume(r >= 0 && r < DIRMAX); return r; }
'''
ACOS = r'''
#include <cmath>
extern "C" double uf_arc(double) __attribute__((const));
namespace std { inline double rounded_acos(double x) { double r = uf_arc(x); return r < 0 ? 0 : r > M_PI ? M_PI : r; } }
#define acos rounded_acos
#include "core/features/angle_histogram.h"
DRV drv_rounded(double x0, double y0, double x1, double y1) { auto a = ScanPoint2D::make_cartesian(Point2D{x0, y0}, true), b = ScanPoint2D::make_cartesian(Point2D{x1, y1}, true); double r = AngleHistogram::estimate_ox_based_angle(a, b); ENSB(direction_below_180_despite_rounding, r < M_PI); ENSB(direction_not_negative_despite_rounding, r >= 0); }
'''
SWAP = 'replace drvr_dir ^AngleHistogram::estimate_ox_based_angle\\(ScanPoint2D const&, ScanPoint2D const&\\)$'
def main():
    r = Report('C15', RULE, 12)
    def go(D, site, cfg=''):
        m = compile_module(D, pre_cfg=cfg, dump='/tmp/p/c15.ll' if os.environ.get('DBG') else None)
        contracts(r, m, site, cap=400000)
    go('#define FIXEDPROXY\n' + models(4) + PRE, 'angle histogram')
    go('#define FIXEDPROXY\n' + models(4) + PRE0 + '#define DIRMAX M_PI\n' + UF + HIST, 'angle histogram', SWAP)
    go('#define FIXEDPROXY\n' + models(20) + PRE0 + '#define DIRMAX (M_PI / 10)\n' + UF + REC, 'reciprocal weights', SWAP)
    go(ACOS, 'angle histogram')
    return r.finish()
