from core import *
RULE = ('Match, M3RSMEngine and the multi-resolution matcher are inlined with a probe estimator and a probe map; for symbolic poses, drifts and probabilities the scan is judged at the documented pose, area and map scale, '
        'the queue hands out hypotheses by descending upper bound (then finer, then less rotated first), drops exactly what cannot beat the best exact hypothesis by more than the tolerance, and splits a coarse drift into parts that cover it.')
PRE = r'''
extern "C" bool drvr_le(double a, double b) { return a <= b; }
extern "C" bool drvr_lt(double a, double b) { return a < b; }
extern "C" bool drvr_eq(double a, double b) { return a == b; }
#ifndef CAPQ
#define CAPQ 4
#endif
namespace std { template <class T, class C = void, class L = void> struct plainpq {
#ifdef NOQUEUE
  size_t k = 0; bool empty() const { return true; } const T &top() const { return *(const T *)0; } void pop() {} void push(const T &) { ++k; }
#else
  typename std::aligned_storage<sizeof(T), alignof(T)>::type s_[CAPQ], t_; bool used[CAPQ]; size_t k = 0, b = 0; plainpq() { for (auto &u : used) u = false; } T *a_() { return reinterpret_cast<T *>(s_); } T &tmp() const { return *const_cast<T *>(reinterpret_cast<const T *>(&t_)); }
  bool empty() const { for (int i = 0; i < CAPQ; ++i) if (used[i]) return false; return true; }
  void find() { bool any = false; for (int i = 0; i < CAPQ; ++i) if (used[i]) { if (!any || tmp() < a_()[i]) { new (&t_) T(a_()[i]); b = i; any = true; } } }
  const T &top() { find(); return tmp(); } void pop() { find(); for (int i = 0; i < CAPQ; ++i) if (i == b) used[i] = false; }
  void push(const T &x) { for (int i = 0; i < CAPQ; ++i) if (i == k) { new (a_() + i) T(x); used[i] = true; } ++k; }
#endif
  template <class... A> void emplace(A &&...a) { push(T(std::forward<A>(a)...)); } };
template <class T> struct plainset { fixedvec<T> v; plainset() {} plainset(std::initializer_list<T> l) { for (auto &x : l) insert(x); } bool empty() const { return v.size() == 0; } size_t count(const T &x) const { for (auto &y : v) if (y == x) return 1; return 0; } std::pair<T *, bool> insert(const T &x) { for (auto &y : v) if (y == x) return {&y, false}; v.push_back(x); return {v.end() - 1, true}; } std::pair<T *, bool> emplace(const T &x) { return insert(x); } T *begin() { return v.begin(); } T *end() { return v.end(); } const T *begin() const { return v.begin(); } const T *end() const { return v.end(); } size_t size() const { return v.size(); } }; }
#define priority_queue plainpq
#define set plainset
#include "core/scan_matchers/bf_multi_res_scan_matcher.h"
template <class T> std::shared_ptr<T> SP(T &x) { return std::shared_ptr<T>(&x); }
typedef M3RSMEngine::Rect Rc;
extern "C" double uf_prob(double, double, double, double, double, double, double) __attribute__((const));
struct PMap : GridMap { double sc = 0.25; PMap() : GridMap{std::shared_ptr<GridCell>(), GridMapParams{4, 4, 1.0}} {} const GridCell &operator[](const Coord &) const override { return *(const GridCell *)0; } double scale() const override { return sc; } void rescale(double s) override { sc = s; } };
struct PTrig : TrigonometryProvider { double sin(double a) const override { return 0; } double cos(double a) const override { return 1; } int n = 0; double base[8]; void set_base_angle(double b) override { base[n++] = b; } };
#define NC 16
struct PSpe : ScanProbabilityEstimator { mutable int n = 0; mutable double x[NC], y[NC], th[NC], l[NC], r[NC], b[NC], t[NC], sc[NC]; mutable bool pre[NC]; mutable const void *scan[NC], *map[NC]; mutable double a0[NC], r0[NC];
  int filters = 0; double fx, fy, ft; const void *fscan = 0;
  PSpe() : ScanProbabilityEstimator{OOPE()} {}
  LaserScan2D filter_scan(const LaserScan2D &s, const RobotPose &p, const GridMap &m) override { ++filters; fscan = &s; fx = p.x; fy = p.y; ft = p.theta; return s; }
  double estimate_scan_probability(const LaserScan2D &s, const RobotPose &p, const GridMap &m, const SPEParams &q) const override { int i = n++; x[i] = p.x; y[i] = p.y; th[i] = p.theta; const auto &A = q.sp_analysis_area; l[i] = A.left(); r[i] = A.right(); b[i] = A.bot(); t[i] = A.top(); pre[i] = q.scan_is_prerotated; sc[i] = m.scale(); scan[i] = &s; map[i] = &m; return uf_prob(p.x, p.y, p.theta, A.left(), A.right(), A.bot(), A.top()); } };
'''
CFG = 'fresh\nreplace drvr_eq ^are_equal\\(double, double\\)$\nreplace drvr_le ^less_or_equal\\(double, double\nreplace drvr_lt ^less\\(double, double\nlicm\nsplit\npeelany 20\nonlyclass ScanProbabilityEstimator PSpe\nonlyclass GridMap PMap\nonlyclass RegularSquaresGrid PMap'
SET = 'PMap map; PSpe spe; auto sp = SP<ScanProbabilityEstimator>(spe); LaserScan2D sc; std::shared_ptr<LaserScan2D> s = SP(sc); RobotPose q(px, py, pt); '
def drivers():
    D = []
    for pre in (0, 1):
        D.append('DRV drv_match_%d(double px, double py, double pt, double rot, double b, double t, double l, double r) { REQ(ordered_v, b <= t); REQ(ordered_h, l <= r); %s Match m(rot, Rc(b, t, l, r), sp, s, %s, q, map); ' % (pre, SET, 'true' if pre else 'false')
                 + 'ENSI(judged_once, spe.n, 1); ENS(pose_x, spe.x[0], px + (l + r) / 2); ENS(pose_y, spe.y[0], py + (b + t) / 2); ENS(pose_heading, spe.th[0], %s); ENS(area_left, spe.l[0], l); ENS(area_right, spe.r[0], r); ENS(area_bottom, spe.b[0], b); ENS(area_top, spe.t[0], t); ENSB(scale_covers_the_drift, spe.sc[0] >= r - l && spe.sc[0] >= t - b); ENSB(scale_not_coarser_than_the_drift, spe.sc[0] <= r - l || spe.sc[0] <= t - b); ENSI(prerotation_is_told, spe.pre[0], %d); ENSP(scan, spe.scan[0], &sc); ENSP(map, spe.map[0], &map); ' % ('0' if pre else 'pt + rot', pre)
                 + 'ENS(bound_is_the_probability, m.prob_upper_bound, uf_prob(spe.x[0], spe.y[0], spe.th[0], l, r, b, t)); ENS(keeps_rotation, m.rotation, rot); ENS(keeps_left, m.translation_drift.left(), l); ENS(keeps_top, m.translation_drift.top(), t); ENSI(is_finest, m.is_finest(), !(r - l + t - b > 0)); ENSI(is_valid, m.is_valid(), 1); }\n')
    D.append('DRV drv_submatch(double px, double py, double pt, double rot, double b, double t, double l, double r) { REQ(ordered_v, b <= t); REQ(ordered_h, l <= r); %s Match c(rot, Rc(-1, 1, -2, 2), sp, s, true, q, map); Match m(Rc(b, t, l, r), c); ENSI(judged_each, spe.n, 2); ENS(sub_x, spe.x[1], px + (l + r) / 2); ENS(sub_y, spe.y[1], py + (b + t) / 2); ENS(sub_heading, spe.th[1], 0); ENSP(sub_scan, spe.scan[1], &sc); ENSP(sub_map, spe.map[1], &map); ENSI(sub_prerotated, spe.pre[1], 1); ENS(sub_rotation, m.rotation, rot); ENS(sub_left, m.translation_drift.left(), l); ENSB(sub_scale, spe.sc[1] >= r - l && spe.sc[1] >= t - b); }\n' % SET)
    return D
def order():
    two = 'double p, double q2, double w, double v, double ra, double rb'
    mk = 'PMap map; PSpe spe; auto sp = SP<ScanProbabilityEstimator>(spe); LaserScan2D sc; std::shared_ptr<LaserScan2D> s = SP(sc); RobotPose q(0, 0, 0); Match a(ra, Rc(0, w, 0, 0), sp, s, true, q, map), b(rb, Rc(0, v, 0, 0), sp, s, true, q, map); a.prob_upper_bound = p; b.prob_upper_bound = q2; '
    D = ['DRV drv_order_prob(%s) { REQ(pos, w >= 0); REQ(posv, v >= 0); REQ(noticeably_less, p < q2); %s ENSI(less_probable_is_worse, a < b, 1); ENSI(more_probable_is_better, b < a, 0); }\n' % (two, mk),
         'DRV drv_order_drift(%s) { REQ(pos, w >= 0); REQ(noticeably_finer, w < v); REQ(same, p == q2); b.prob_upper_bound = p; ENSI(finer_is_better, b < a, 1); ENSI(coarser_is_worse, a < b, 0); }\n' % two,
         'DRV drv_order_rot(%s) { REQ(pos, w >= 0); REQ(less_rotated, ra < rb); REQ(na, ra >= 0); %s b.prob_upper_bound = p; ENSI(less_rotated_is_better, b < a, 1); ENSI(more_rotated_is_worse, a < b, 0); }\n' % (two.replace('double v, ', ''), mk.replace('Rc(0, v,', 'Rc(0, w,')),
         'DRV drv_order_neg(%s) { REQ(pos, w >= 0); REQ(less_rotated, ra > rb); REQ(na, ra <= 0); %s b.prob_upper_bound = p; ENSI(less_rotated_back_is_better, b < a, 1); ENSI(more_rotated_back_is_worse, a < b, 0); }\n' % (two.replace('double v, ', ''), mk.replace('Rc(0, v,', 'Rc(0, w,')),
         'DRV drv_order_self(%s) { REQ(pos, w >= 0); %s Match c(a); ENSI(not_better_than_itself, c < a, 0); ENSI(no_probability_is_invalid, Match::invalid_match().is_valid(), 0); }\n' % (two.replace('double v, ', ''), mk.replace('Rc(0, v,', 'Rc(0, w,'))]
    D[1] = D[1].replace('b.prob_upper_bound = p; ENSI(finer', mk + 'b.prob_upper_bound = p; ENSI(finer')
    return D
def queue():
    mk = 'PMap map; PSpe spe; auto sp = SP<ScanProbabilityEstimator>(spe); LaserScan2D sc; std::shared_ptr<LaserScan2D> s = SP(sc); RobotPose q(0, 0, 0); M3RSMEngine e(d); '
    def m(k, rect): return '{ Match m(%d, Rc(%s), sp, s, true, q, map); m.prob_upper_bound = p%d; e.add_match(std::move(m)); } ' % (k, rect, k)
    P = '0, 0, 0, 0'; W = '0, 0.5, 0, 0.5'
    nxt = 'auto m%d = e.next_best_match(1); '
    D = []
    dm = 'double d, double p1, double p2, double p3'
    D.append('DRV drv_keep(%s) { REQ(d, d >= 0); REQ(first, p1 >= 0); REQ(lower, p2 < p1); REQ(within, p2 >= p1 - d); REQ(z, p2 >= 0); %s %s %s %s %s %s ENS(better_first, m1.rotation, 1); ENS(better_bound, m1.prob_upper_bound, p1); ENS(within_tolerance_second, m2.rotation, 2); ENS(second_bound, m2.prob_upper_bound, p2); ENSI(then_nothing, m3.is_valid(), 0); }\n' % (dm, mk, m(1, P), m(2, P), nxt % 1, nxt % 2, nxt % 3))
    D.append('DRV drv_drop(%s) { REQ(d, d >= 0); REQ(first, p1 - d >= 0); REQ(lower, p2 < p1); REQ(beyond, p2 < p1 - d); %s %s %s %s %s ENS(best_first, m1.rotation, 1); ENSI(hopeless_is_dropped, m2.is_valid(), 0); }\n' % (dm, mk, m(1, P), m(2, P), nxt % 1, nxt % 2))
    D.append('DRV drv_coarse(%s) { REQ(d, d >= 0); REQ(first, p1 >= 0); REQ(zero, p2 >= 0); REQ(lower, p2 < p1); %s %s %s %s %s ENS(coarse_bound_first, m1.rotation, 1); ENSI(coarse_bound_drops_nothing, m2.is_valid(), 1); ENS(kept, m2.rotation, 2); }\n' % (dm, mk, m(1, W), m(2, P), nxt % 1, nxt % 2))
    D.append('DRV drv_late(%s) { REQ(d, d >= 0); REQ(first, p1 >= 0); REQ(lower, p1 < p2); %s %s %s %s %s ENS(later_better_first, m1.rotation, 2); ENS(earlier_kept, m2.rotation, 1); ENS(earlier_bound, m2.prob_upper_bound, p1); }\n' % (dm, mk, m(1, P), m(2, P), nxt % 1, nxt % 2))
    D.append('DRV drv_best_of_three(%s) { REQ(d, d >= 0); REQ(first, p1 - d >= 0); REQ(lower, p2 < p1); REQ(beyond, p3 < p1 - d); REQ(z, p2 >= 0); %s %s %s %s %s ENS(worse_exact_does_not_lower_the_bar, m1.rotation, 1); }\n' % (dm, mk, m(2, P), m(1, P), m(3, P), nxt % 1))
    D.append('DRV drv_bar(%s) { REQ(d, d >= 0); REQ(first, p1 - d >= 0); REQ(second, p2 < p1); REQ(kept, p2 >= p1 - d); REQ(third, p3 < p1 - d); REQ(o, p3 < p2); %s %s %s %s %s %s %s ENSI(bar_stays_at_the_best, m3.is_valid(), 0); }\n' % (dm, mk, m(1, P), m(2, P), m(3, P), nxt % 1, nxt % 2, nxt % 3))
    D.append('DRV drv_reset(%s) { REQ(d, d >= 0); REQ(zero, p2 >= 0); REQ(beyond, p2 < p1 - d); %s %s e.reset_engine_state(); %s %s %s ENS(bar_is_forgotten, m1.rotation, 2); ENSI(queue_is_emptied, m2.is_valid(), 0); }\n' % (dm, mk, m(1, P), m(2, P), nxt % 1, nxt % 2))
    D.append('DRV drv_nothing(%s) { %s %s ENSI(no_hypothesis_left, m1.is_valid(), 0); }\n' % (dm, mk, nxt % 1))
    return D
def branch():
    D = []; k = 0
    for (b, t, l, r), parts in (((-0.75, 0.75, -0.5, 0.5), [(-0.75, 0, -0.5, 0.5), (0, 0.75, -0.5, 0.5)]), ((-0.5, 0.5, -0.75, 0.75), [(-0.5, 0.5, -0.75, 0), (-0.5, 0.5, 0, 0.75)]), ((-0.75, 0.75, -1, 1), [(-0.75, 0, -1, 0), (-0.75, 0, 0, 1), (0, 0.75, -1, 0), (0, 0.75, 0, 1)])):
        D.append('DRV drv_branch_%d(double px, double py, double pt, double rot) { %s Match c(rot, Rc(%r, %r, %r, %r), sp, s, true, q, map); ' % (k, SET, b, t, l, r) + ''.join('REQ(bounded_%d, uf_prob(px + %r, py + %r, 0, %r, %r, %r, %r) <= c.prob_upper_bound); REQ(probability_%d, uf_prob(px + %r, py + %r, 0, %r, %r, %r, %r) >= 0); ' % ((i, (x[2] + x[3]) / 2, (x[0] + x[1]) / 2, x[2], x[3], x[0], x[1]) * 2) for i, x in enumerate(parts))
                 + 'M3RSMEngine e(0); e.add_match(std::move(c)); auto m = e.next_best_match(1); ENSI(parts, spe.n, %d); ' % (1 + len(parts)))
        for x in parts: D[-1] += 'ENSB(part_is_judged, %s); ' % ' || '.join('(spe.b[%d] == %r && spe.t[%d] == %r && spe.l[%d] == %r && spe.r[%d] == %r)' % (i, x[0], i, x[1], i, x[2], i, x[3]) for i in range(1, 1 + len(parts)))
        D[-1] += 'ENS(part_rotation, m.rotation, rot); ENSB(best_part_first, %s); }\n' % ' && '.join('m.prob_upper_bound >= uf_prob(px + %r, py + %r, 0, %r, %r, %r, %r) ' % ((x[2] + x[3]) / 2, (x[0] + x[1]) / 2, x[2], x[3], x[0], x[1]) for x in parts)
        k += 1
    return D
def request():
    D = []; k = 0
    for pre in (0, 1):
        for sector, res in ((0, 1), (2, 1), (1.5, 1), (3, 0.5), (0.5, 1)):
            rots = [0.0]; i = 1
            while 2 * i * res <= sector: rots += [i * res, -i * res]; i += 1
            if len(rots) > 5: rots = rots[:]
            D.append('DRV drv_request_%d(double px, double py, double pt, double X, double Y) { REQ(x, X >= 0); REQ(y, Y >= 0); PTrig tr; %s sc.trig_provider = SP<TrigonometryProvider>(tr); sc.points().push_back(ScanPoint2D::make_polar(X, Y, true)); M3RSMEngine e(0); e.set_translation_lookup_range(X, Y); e.set_rotation_lookup_range(%r, %r); e.add_scan_matching_request(sp, q, sc, map, %s); ' % (k, SET, sector, res, 'true' if pre else 'false')
                     + 'ENSI(scan_filtered_once, spe.filters, 1); ENSP(raw_scan_is_filtered, spe.fscan, &sc); ENS(filtered_at_x, spe.fx, px); ENS(filtered_at_heading, spe.ft, pt); ENSI(two_hypotheses_per_rotation, spe.n, %d); ' % (2 * len(rots)))
            k += 1
            for j, a in enumerate(rots):
                # rotations of one magnitude come in any order
                o = [2 * x for x in range(len(rots)) if abs(rots[x]) == abs(a)]
                if not pre: D[-1] += 'ENSB(rotation_is_tried, %s); ' % ' || '.join('spe.th[%d] == pt + %r' % (x, a) for x in o)
                else: D[-1] += 'ENSB(scan_is_rotated_by_heading_and_rotation, %s); ' % ' || '.join('tr.base[%d] == pt + %r' % (x // 2, a) for x in o)
                D[-1] += 'ENS(centre_x, spe.x[%d], px); ENS(centre_y, spe.y[%d], py); ENS(exact_hypothesis_width, spe.r[%d] - spe.l[%d], 0); ENS(exact_hypothesis_height, spe.t[%d] - spe.b[%d], 0); ' % ((2 * j,) * 6)
                D[-1] += 'ENS(range_left, spe.l[%d], -X); ENS(range_right, spe.r[%d], X); ENS(range_bottom, spe.b[%d], -Y); ENS(range_top, spe.t[%d], Y); ' % ((2 * j + 1,) * 4)
            D[-1] += '}\n'
    return D
ENGINE = r"""
struct ProbeEngine { typedef M3RSMEngine::Rect Rect; static ProbeEngine *self; Match *script[2]; int resets = 0, requests = 0, nexts = 0, adds = 0, seq = 0, at_reset = 0, at_tr = 0, at_rot = 0, at_req = 0, first_next = 0; double tx, ty, sector, rstep, step[3], l[6], r[6], b[6], t[6], rot[6]; const void *spe, *scan, *map; double px, py, pt; bool pre = false; GridMap *gm = 0;
  ProbeEngine(double = 0) { script[0] = S[0]; script[1] = S[1]; self = this; } static Match *S[2];
  void reset_engine_state() { ++resets; at_reset = ++seq; } void set_translation_lookup_range(double x, double y) { tx = x; ty = y; at_tr = ++seq; } void set_rotation_lookup_range(double s, double d) { sector = s; rstep = d; at_rot = ++seq; }
  void add_scan_matching_request(std::shared_ptr<ScanProbabilityEstimator> s, const RobotPose &p, const LaserScan2D &sc, GridMap &m, bool pr = false) { ++requests; spe = s.get(); px = p.x; py = p.y; pt = p.theta; scan = &sc; map = &m; gm = &m; pre = pr; at_req = ++seq; m.rescale(77); }
  Match next_best_match(double s) { if (!first_next) first_next = ++seq; step[nexts] = s; gm->rescale(55); return *script[nexts++]; }
  void add_match(Match &&m) { int i = adds++; const auto &d = m.translation_drift; l[i] = d.left(); r[i] = d.right(); b[i] = d.bot(); t[i] = d.top(); rot[i] = m.rotation; } };
ProbeEngine *ProbeEngine::self; Match *ProbeEngine::S[2];
#define M3RSMEngine ProbeEngine
#include "core/scan_matchers/bf_multi_res_scan_matcher.h"
#undef M3RSMEngine
struct PObs : GridScanMatcherObserver { int starts = 0, ends = 0; double sx, sy, st, ex, ey, et, ep; const void *scan = 0, *map = 0;
  void on_matching_start(const RobotPose &p, const TransformedLaserScan &s, const GridMap &m) override { ++starts; sx = p.x; sy = p.y; st = p.theta; scan = &s; map = &m; } void on_scan_test(const RobotPose &, const LaserScan2D &, double) override {} void on_pose_update(const RobotPose &, const LaserScan2D &, double) override {}
  void on_matching_end(const RobotPose &p, const LaserScan2D &, double q) override { ++ends; ex = p.x; ey = p.y; et = p.theta; ep = q; } };
"""
def matcher():
    D = []
    for k in (0, 1):
        for late in (0, 1):
            D.append('DRV drv_matcher_%d%d(double px, double py, double pt, double sc0, double xl, double yl, double rl, double as, ' % (k, late) + ('double ts_, ' if not k else '') + 'double rot, double rot2, double pf) { %s PObs ob; %s' % (SET, 'const double ts_ = 12; ' if k else '')
             + 'Match coarse(rot2, Rc(-1, 2, -3, 5), sp, s, true, q, map), fine(rot, Rc(0.25, 0.25, -0.75, -0.75), sp, s, true, q, map); fine.prob_upper_bound = pf; map.sc = sc0; ProbeEngine::S[0] = %s; ProbeEngine::S[1] = &fine; ' % ('&coarse' if k else '&fine')
             + ('BruteForceMultiResolutionScanMatcher bm(sp, 1, 2, 3, 4, 5); bm.set_lookup_ranges(xl, yl, rl); bm.set_target_accuracy(as, ts_); ' if late else 'BruteForceMultiResolutionScanMatcher bm(sp, xl, yl, rl, as, ts_); ')
             + 'GridScanMatcher &g = bm; g.subscribe(SP<GridScanMatcherObserver>(ob)); RobotPoseDelta d(7, 7, 7); TransformedLaserScan ts; ts.scan.trig_provider = std::shared_ptr<TrigonometryProvider>(new PTrig()); double p = g.process_scan(ts, q, map, d); ProbeEngine &e = *ProbeEngine::self; '
             + 'ENS(probability_of_the_result, p, pf); ENS(shift_x, d.x, -0.75); ENS(shift_y, d.y, 0.25); ENS(shift_heading, d.theta, rot); ENS(scale_is_restored, map.sc, sc0); '
             + 'ENSI(engine_restarted_once, e.resets, 1); ENSI(one_request, e.requests, 1); ENSB(restart_and_ranges_precede_the_request, e.at_reset < e.at_req && e.at_tr < e.at_req && e.at_rot < e.at_req && e.at_req < e.first_next); ENSB(restart_keeps_the_ranges, e.at_reset < e.at_req); ENS(range_x, e.tx, xl); ENS(range_y, e.ty, yl); ENS(rotation_sector, e.sector, 2 * rl); ENS(rotation_step, e.rstep, as); ENSP(estimator, e.spe, &spe); ENSP(scan_to_match, e.scan, &ts.scan); ENSP(map_to_match, e.map, &map); ENS(around_x, e.px, px); ENS(around_y, e.py, py); ENS(around_heading, e.pt, pt); '
             + 'ENSI(hypotheses_taken, e.nexts, %d); ENS(translation_step, e.step[0], ts_); ENSI(exact_hypotheses_added, e.adds, %d); ' % (1 + k, 5 * k)
             + 'ENSI(start_announced, ob.starts, 1); ENS(start_x, ob.sx, px); ENS(start_heading, ob.st, pt); ENSP(start_scan, ob.scan, &ts); ENSP(start_map, ob.map, &map); ENSI(end_announced, ob.ends, 1); ENS(end_shift_x, ob.ex, -0.75); ENS(end_shift_y, ob.ey, 0.25); ENS(end_shift_heading, ob.et, rot); ENS(end_probability, ob.ep, pf); ')
            if k:
                for x, y in ((-3, -1), (-3, 2), (5, -1), (5, 2), (1, 0.5)): D[-1] += 'ENSB(exact_hypothesis, %s); ' % ' || '.join('(e.l[%d] == %r && e.r[%d] == %r && e.b[%d] == %r && e.t[%d] == %r)' % (i, x, i, x, i, y, i, y) for i in range(5))
                D[-1] += ''.join('ENS(exact_hypothesis_rotation, e.rot[%d], rot2); ' % i for i in range(5))
            D[-1] += '}\n'
    return D
def main():
    r = Report('C21', RULE, 10); r.asserts = True
    contracts(r, compile_module(models(6, fun=True) + PRE + ''.join(drivers()), pre_cfg=CFG, dump='/tmp/p/c21.ll' if os.environ.get('DBG') else None), 'hypotheses')
    families(r, models(6, fun=True) + PRE, order() + queue() + branch(), 'engine', CFG, per=1)
    families(r, models(6, fun=True) + '#define NOQUEUE\n' + PRE, request(), 'requests', CFG, per=2)
    families(r, models(6, fun=True) + PRE.replace('bf_multi_res_scan_matcher.h', 'm3rsm_engine.h') + ENGINE, matcher(), 'matcher', CFG, per=1)
    return r.finish()
