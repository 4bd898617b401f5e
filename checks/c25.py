from core import *
RULE = ('The Gmapping particle is inlined with a probe matcher, adder and quality estimator and random draws as uninterpreted values; poses, gates, weights and insertions are compared, for symbolic motions, corrections and thresholds, with the documented cycle. The particle filter world is inlined with probe particles that record what they were told; odometry, observation, normalisation, resampling, master and reported pose are compared with the documented cycle.')
RNDV = r'''
#include <random>
namespace std { struct plaindevice { unsigned operator()() { return 7; } };
template <class K> struct plainset { K a[5]; size_t n = 0; size_t count(const K &k) const { return (n > 0 && a[0] == k) || (n > 1 && a[1] == k) || (n > 2 && a[2] == k) || (n > 3 && a[3] == k) || (n > 4 && a[4] == k); } std::pair<K *, bool> insert(const K &k) { if (count(k)) return {a, false}; a[n++] = k; return {a, true}; } std::pair<K *, bool> emplace(const K &k) { return insert(k); } size_t size() const { return n; } bool empty() const { return n == 0; } void clear() { n = 0; } void reserve(size_t) {}
  K *begin() { return a; } K *end() { return a + n; } const K *begin() const { return a; } const K *end() const { return a + n; } K *find(const K &k) { for (size_t i = 0; i < n; ++i) if (a[i] == k) return a + i; return a + n; } }; }
#include <unordered_set>
#define random_device plaindevice
#define unordered_set plainset
#include <memory>
#include <algorithm>
namespace std { template <class I, class F> I plain_find_if(I b, I e, F f) { for (; b != e; ++b) if (f(*b)) return b; return e; } template <class I, class F> bool plain_any_of(I b, I e, F f) { for (; b != e; ++b) if (f(*b)) return true; return false; } template <class I, class F> bool plain_none_of(I b, I e, F f) { return !plain_any_of(b, e, f); } }
#define find_if plain_find_if
#define any_of plain_any_of
#define none_of plain_none_of
typedef unsigned int uint;
'''
UN = '#define U(k) uf_unif(7, k)\n#define N(k) uf_gauss(7, k)\n'
WORLD = r'''
#include "slams/gmapping/gmapping_world.h"
struct PMap : GridMap { PMap() : GridMap{std::shared_ptr<GridCell>(), GridMapParams{4, 4, 1.0}} {} const GridCell &operator[](const Coord &) const override { return *(const GridCell *)0; } };
struct PMatcher : GridScanMatcher { RobotPoseDelta f[4]; double pr[4]; RobotPose at[4]; const void *scan, *map; int calls = 0;
  PMatcher() : GridScanMatcher{SPE()} {}
  double process_scan(const TransformedLaserScan &s, const RobotPose &p, const GridMap &m, RobotPoseDelta &d) override { int k = calls++; at[k] = p; scan = &s; map = &m; d = f[k]; return pr[k]; } };
struct PTrig : TrigonometryProvider { double base; double sin(double a) const override { return base; } double cos(double a) const override { return 1; } void set_base_angle(double b) override { base = b; } };
struct POmqe : ObservationMappingQualityEstimator { double q; const void *scan; POmqe(double q) : q(q) {} void reset(const LaserScan2D &s) override { scan = &s; } double quality(const LaserScan2D::Points &, PointId) const override { return q; } };
struct PAdder : GridMapScanAdder { mutable double q, bx, by, ex, ey; mutable bool occ; mutable const void *map; mutable int calls = 0;
  PAdder(std::shared_ptr<ObservationMappingQualityEstimator> o) : GridMapScanAdder{std::shared_ptr<CellOccupancyEstimator>(), o} {}
  void handle_scan_point(GridMap &m, bool o, double sq, const Segment2D &b) const override { ++calls; map = &m; occ = o; q = sq; bx = b.beg().x; by = b.beg().y; ex = b.end().x; ey = b.end().y; } };
#define SETUP(MX, SX, MT, ST, A, B, C, D) ; PMap map; PMatcher sm; POmqe om(1); PAdder ad{std::shared_ptr<ObservationMappingQualityEstimator>(&om)}; PTrig tp; \
  sm.f[0] = fix; sm.f[1] = fix2; sm.f[2] = fix; sm.pr[0] = p0; sm.pr[1] = p1; sm.pr[2] = p2; \
  SingleStateHypothesisLSGWProperties pr; pr.localized_scan_quality = 5; pr.raw_scan_quality = 6; pr.scan_margin = 0; pr.grid_map = std::shared_ptr<GridMap>(&map); pr.gsm = std::shared_ptr<GridScanMatcher>(&sm); pr.gmsa = std::shared_ptr<GridMapScanAdder>(&ad); \
  GmappingWorld w{pr, GMappingParams{MX, SX, MT, ST, A, B, C, D}}; LaserScanGridWorld &lw = w; \
  TransformedLaserScan s; s.scan.trig_provider = std::shared_ptr<TrigonometryProvider>(&tp); s.scan.points().push_back(ScanPoint2D::make_polar(1, 0, true)); s.quality = q;
#define ARGS const RobotPoseDelta &d0, const RobotPoseDelta &d1, const RobotPoseDelta &d2, const RobotPoseDelta &fix, const RobotPoseDelta &fix2, double p0, double p1, double p2, double q
#define NOISE double mx, double sx, double mt, double st
#define AT(name, P, X, Y, T) ENS(name##_x, (P).x, X); ENS(name##_y, (P).y, Y); ENS(name##_heading, (P).theta, T);
// every scan is matched
#define ALWAYS(MX, SX, MT, ST) SETUP(MX, SX, MT, ST, 0.0, 0.0, 0.0, 0.0)
#define C1 (std::cos(fix.theta))
#define S1 (std::sin(fix.theta))
DRV drv_fresh(ARGS) { ALWAYS(0.0, 0.0, 0.0, 0.0) ENS(weight, w.weight(), 1); ENSI(not_master, w.is_master(), 0); AT(origin, w.pose(), 0, 0, 0) lw.update_robot_pose(d0); AT(odometry_before_correction, w.pose(), d0.x, d0.y, d0.theta) lw.update_robot_pose(d1); AT(odometry_adds_up, w.pose(), d0.x + d1.x, d0.y + d1.y, d0.theta + d1.theta) ENSI(no_matching_by_odometry, sm.calls, 0); }
DRV drv_first(ARGS, NOISE) { REQ(moved, p0 > 0.0); ALWAYS(mx, sx, mt, st) lw.update_robot_pose(d0); lw.handle_observation(s);
  ENSI(matched_once, sm.calls, 1); AT(first_match_without_noise, sm.at[0], d0.x, d0.y, d0.theta) ENSP(matcher_sees_scan, sm.scan, &s); ENSP(matcher_sees_map, sm.map, &map);
  AT(corrected, w.pose(), d0.x + fix.x, d0.y + fix.y, d0.theta + fix.theta) ENSI(inserted_once, ad.calls, 1); ENSP(inserted_into_map, ad.map, &map); ENSI(inserted_occupied, ad.occ, 1); ENS(insertion_quality, ad.q, q);
  ENS(inserted_at_x, ad.bx, d0.x + fix.x); ENS(inserted_at_y, ad.by, d0.y + fix.y); ENS(inserted_to_x, ad.ex, d0.x + fix.x + 1); ENS(inserted_to_y, ad.ey, d0.y + fix.y + d0.theta + fix.theta); ENS(weight, w.weight(), p0); }
DRV drv_first_unknown(ARGS) { REQ(no_match, p0 <= 0.0); ALWAYS(0.1, 0.2, 0.3, 0.4) lw.update_robot_pose(d0); lw.handle_observation(s); ENSI(first_scan_is_always_inserted, ad.calls, 1); ENS(weight, w.weight(), p0); AT(corrected, w.pose(), d0.x + fix.x, d0.y + fix.y, d0.theta + fix.theta) }
DRV drv_heading(ARGS) { ALWAYS(0.0, 0.0, 0.0, 0.0) lw.update_robot_pose(d0); lw.handle_observation(s); lw.update_robot_pose(d1);
  AT(odometry_turned_by_heading_error, w.pose(), d0.x + fix.x + C1 * d1.x - S1 * d1.y, d0.y + fix.y + S1 * d1.x + C1 * d1.y, d0.theta + fix.theta + d1.theta) lw.update_robot_pose(d2);
  AT(error_is_not_changed_by_odometry, w.pose(), d0.x + fix.x + C1 * (d1.x + d2.x) - S1 * (d1.y + d2.y), d0.y + fix.y + S1 * (d1.x + d2.x) + C1 * (d1.y + d2.y), d0.theta + fix.theta + d1.theta + d2.theta) }
DRV drv_noise(ARGS, NOISE) { ALWAYS(mx, sx, mt, st) lw.update_robot_pose(d0); lw.handle_observation(s); lw.handle_observation(s);
  ENSI(matched_again, sm.calls, 2);
  AT(noisy_guess, sm.at[1], d0.x + fix.x + mx + sx * N(6), d0.y + fix.y + mx + sx * N(7), d0.theta + fix.theta + mt + st * N(8)) AT(corrected_guess, w.pose(), d0.x + fix.x + fix2.x + mx + sx * N(6), d0.y + fix.y + fix2.y + mx + sx * N(7), d0.theta + fix.theta + fix2.theta + mt + st * N(8)) ENS(weights_multiply, w.weight(), p0 * p1); }
DRV drv_second_good(ARGS) { REQ(match, p1 > 0.0); ALWAYS(0.0, 0.0, 0.0, 0.0) lw.handle_observation(s); lw.handle_observation(s); ENSI(inserted_again, ad.calls, 2); ENS(inserted_at_latest_x, ad.bx, fix.x + fix2.x); ENS(inserted_at_latest_y, ad.by, fix.y + fix2.y); ENS(weights_multiply, w.weight(), p0 * p1); }
DRV drv_second_bad(ARGS) { REQ(no_match, p1 <= 0.0); ALWAYS(0.0, 0.0, 0.0, 0.0) lw.handle_observation(s); lw.handle_observation(s); ENSI(failed_match_is_not_inserted, ad.calls, 1); ENS(corrected_all_the_same, w.pose().x, fix.x + fix2.x); ENS(weights_multiply, w.weight(), p0 * p1); }
DRV drv_reweighted(ARGS, double w0) { ALWAYS(0.0, 0.0, 0.0, 0.0) w.set_weight(w0); lw.handle_observation(s); ENS(given_weight_is_scaled, w.weight(), w0 * p0); }
#define GATE SETUP(0.0, 0.0, 0.0, 0.0, L, L, T, T)
#define LIM double L, double T
#define LIMITS REQ(limit, L > 0.0); REQ(turn_limit, T > 0.0);
#define KEPT ENSI(not_matched, sm.calls, 0); ENSI(not_inserted, ad.calls, 0); ENS(weight_kept, w.weight(), 1);
'''
GATES = []
for nm, rx, ry, rt in (('ppp', '>=', '>=', '>='), ('nnn', '<=', '<=', '<='), ('pnp', '>=', '<=', '>='), ('npn', '<=', '>=', '<=')):
    sg = 'REQ(x_direction, d0.x %s 0.0); REQ(y_direction, d0.y %s 0.0); REQ(turn_direction, d0.theta %s 0.0);' % (rx, ry, rt); sx, sy, st = ('-' if '<' in c else '' for c in (rx, ry, rt))
    GATES += ['DRV drv_gate_short_%s(ARGS, LIM) { LIMITS REQ(short_way, d0.x * d0.x + d0.y * d0.y < 2 * L * L); REQ(small_turn, %sd0.theta < T); %s GATE lw.update_robot_pose(d0); lw.handle_observation(s); KEPT AT(pose_kept, w.pose(), d0.x, d0.y, d0.theta) }' % (nm, st, sg),
              'DRV drv_gate_far_%s(ARGS, LIM) { LIMITS REQ(far_way, d0.x * d0.x + d0.y * d0.y >= 2 * L * L); %s GATE lw.update_robot_pose(d0); lw.handle_observation(s); ENSI(matched_after_way, sm.calls, 1); lw.handle_observation(s); ENSI(way_is_forgotten_after_matching, sm.calls, 1); ENS(weight_once, w.weight(), p0); }' % (nm, sg),
              'DRV drv_gate_turn_%s(ARGS, LIM) { LIMITS REQ(big_turn, %sd0.theta >= T); %s GATE lw.update_robot_pose(d0); lw.handle_observation(s); ENSI(matched_after_turn, sm.calls, 1); lw.handle_observation(s); ENSI(turn_is_forgotten_after_matching, sm.calls, 1); }' % (nm, st, sg),
              'DRV drv_gate_back_%s(ARGS, LIM) { LIMITS REQ(far_way_in_all, (d0.x - d1.x) * (d0.x - d1.x) + (d0.y - d1.y) * (d0.y - d1.y) >= 2 * L * L); %s REQ(x_back, %sd1.x <= 0.0); REQ(y_back, %sd1.y <= 0.0); GATE lw.update_robot_pose(d0); lw.update_robot_pose(d1); lw.handle_observation(s); ENSI(way_back_counts_as_way, sm.calls, 1); }' % (nm, sg, sx, sy),
              'DRV drv_gate_sway_%s(ARGS, LIM) { LIMITS REQ(turns_in_all, %s(d0.theta - d1.theta) >= T); %s REQ(turn_back, %sd1.theta <= 0.0); GATE lw.update_robot_pose(d0); lw.update_robot_pose(d1); lw.handle_observation(s); ENSI(turn_back_counts_as_turn, sm.calls, 1); }' % (nm, st, sg, st)]
GATES += [r'''DRV drv_gate_skipped(ARGS, LIM) { LIMITS REQ(first_x, d0.x >= 0.0); REQ(first_y, d0.y >= 0.0); REQ(second_x, d1.x >= 0.0); REQ(second_y, d1.y >= 0.0); REQ(short_way, d0.x * d0.x + d0.y * d0.y < 2 * L * L); REQ(no_turn, d0.theta == 0.0); REQ(long_way_in_all, (d0.x + d1.x) * (d0.x + d1.x) + (d0.y + d1.y) * (d0.y + d1.y) >= 2 * L * L); GATE
  lw.update_robot_pose(d0); lw.handle_observation(s); ENSI(skipped, sm.calls, 0); lw.update_robot_pose(d1); lw.handle_observation(s); ENSI(matched_when_ways_add_up, sm.calls, 1); ENS(first_match_is_first, sm.at[0].x, d0.x + d1.x); }
''', r'''DRV drv_limits(ARGS, double A, double B, double C, double D) { REQ(first_x, d0.x >= 0.0); REQ(first_y, d0.y <= 0.0); REQ(far_way, d0.x * d0.x + d0.y * d0.y >= (A + (B - A) * U(0)) * (A + (B - A) * U(0)) + (A + (B - A) * U(1)) * (A + (B - A) * U(1))); SETUP(0.0, 0.0, 0.0, 0.0, A, B, C, D) lw.update_robot_pose(d0); lw.handle_observation(s); ENSI(drawn_way_limit_reached, sm.calls, 1); }
''', r'''DRV drv_limits_turn(ARGS, double A, double B, double C, double D) { REQ(turn, d0.theta >= C + (D - C) * U(2)); REQ(left, d0.theta >= 0.0); SETUP(0.0, 0.0, 0.0, 0.0, A, B, C, D) lw.update_robot_pose(d0); lw.handle_observation(s); ENSI(drawn_turn_limit_reached, sm.calls, 1); }
''', r'''DRV drv_limits_below(ARGS, double A, double B, double C, double D) { REQ(first_x, d0.x >= 0.0); REQ(first_y, d0.y <= 0.0); REQ(way, d0.x * d0.x + d0.y * d0.y < (A + (B - A) * U(0)) * (A + (B - A) * U(0)) + (A + (B - A) * U(1)) * (A + (B - A) * U(1))); REQ(turn, d0.theta < C + (D - C) * U(2)); REQ(left, d0.theta >= 0.0); SETUP(0.0, 0.0, 0.0, 0.0, A, B, C, D) lw.update_robot_pose(d0); lw.handle_observation(s); ENSI(below_drawn_limits, sm.calls, 0); }
''', r'''DRV drv_limits_redrawn(ARGS, double A, double B, double C, double D) { REQ(second_x, d1.x >= 0.0); REQ(second_y, d1.y <= 0.0); REQ(first_turn, d0.theta >= C + (D - C) * U(2)); REQ(left, d0.theta >= 0.0); REQ(turn, d1.theta < C + (D - C) * U(5)); REQ(left_again, d1.theta >= 0.0); REQ(way, d1.x * d1.x + d1.y * d1.y < (A + (B - A) * U(3)) * (A + (B - A) * U(3)) + (A + (B - A) * U(4)) * (A + (B - A) * U(4))); SETUP(0.0, 0.0, 0.0, 0.0, A, B, C, D) sm.f[0].theta = 0.0; lw.update_robot_pose(d0); lw.handle_observation(s); ENSI(matched, sm.calls, 1); lw.update_robot_pose(d1); lw.handle_observation(s); ENSI(below_redrawn_limits, sm.calls, 1); }
''', r'''DRV drv_limits_redrawn_turn(ARGS, double A, double B, double C, double D) { REQ(first_turn, d0.theta >= C + (D - C) * U(2)); REQ(left, d0.theta >= 0.0); REQ(turn, d1.theta >= C + (D - C) * U(5)); REQ(left_again, d1.theta >= 0.0); SETUP(0.0, 0.0, 0.0, 0.0, A, B, C, D) lw.update_robot_pose(d0); lw.handle_observation(s); ENSI(matched, sm.calls, 1); lw.update_robot_pose(d1); lw.handle_observation(s); ENSI(above_redrawn_limits, sm.calls, 2); }
''', r'''DRV drv_master(ARGS, NOISE, LIM) { LIMITS REQ(big_turn, d0.theta >= T); SETUP(mx, sx, mt, st, L, L, T, T) w.mark_master(); ENSI(is_master, w.is_master(), 1); lw.update_robot_pose(d0); lw.handle_observation(s); ENSI(matched_after_turn, sm.calls, 1); lw.handle_observation(s); ENSI(master_matches_every_scan, sm.calls, 2); AT(master_guess_has_no_noise, sm.at[1], d0.x + fix.x, d0.y + fix.y, d0.theta + fix.theta) w.sample(); ENSI(sampled_one_is_no_master, w.is_master(), 0); }
''', r'''DRV drv_copy(ARGS) { ALWAYS(0.0, 0.0, 0.0, 0.0) lw.update_robot_pose(d0); lw.handle_observation(s); w.set_weight(q); GmappingWorld c{pr, GMappingParams{0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0}}; LaserScanGridWorld &lc = c; c = w; AT(copied, c.pose(), d0.x + fix.x, d0.y + fix.y, d0.theta + fix.theta) ENS(copied_weight, c.weight(), q);
  lc.update_robot_pose(d1); AT(heading_error_is_copied, c.pose(), d0.x + fix.x + C1 * d1.x - S1 * d1.y, d0.y + fix.y + S1 * d1.x + C1 * d1.y, d0.theta + fix.theta + d1.theta) AT(original_stays, w.pose(), d0.x + fix.x, d0.y + fix.y, d0.theta + fix.theta) ENS(original_weight, w.weight(), q); }
''']
FILTER = r'''
#define SLAM_CTOR_GMAPPING_WORLD_H
#define SLAM_CTOR_PARTICLE_FILTER_H_INCLUDED
#include "core/states/single_state_hypothesis_laser_scan_grid_world.h"
struct GMappingParams { double tag; };
struct PMap : GridMap { PMap() : GridMap{std::shared_ptr<GridCell>(), GridMapParams{4, 4, 1.0}} {} const GridCell &operator[](const Coord &) const override { return *(const GridCell *)0; } };
class GmappingWorld; struct Reg { GmappingWorld *w[8]; int n = 0, clock = 0, norm = 0, norm_at = 0, tries = 0, try_at = 0; int heavy = 0, heavy_after = 0, pick[3] = {0, 1, 2}; bool need = false; double tag; }; static Reg *R;
// what the world is built on: particles and their filter, as recording stand-ins (the filter itself is judged by C24)
class Particle { double w = 1; public: double weight() const { return w; } void set_weight(double x) { w = x; } virtual void sample() {} };
template <class T> class ParticleFactory { public: virtual std::shared_ptr<T> create_particle() = 0; };
template <class T> class ParticleFilter { std::shared_ptr<ParticleFactory<T>> f; std::vector<std::shared_ptr<T>> ps; public:
  ParticleFilter(std::shared_ptr<ParticleFactory<T>> f, unsigned n = 1) : f(f) { for (unsigned i = 0; i < n; ++i) ps.push_back(f->create_particle()); }
  void normalize_weights() { ++R->norm; R->norm_at = ++R->clock; }
  bool try_resample() { ++R->tries; R->try_at = ++R->clock; if (!R->need) return false; R->heavy = R->heavy_after; std::vector<std::shared_ptr<T>> q;
    for (int k = 0; k < 3; ++k) { bool again = false; for (int j = 0; j < k; ++j) again = again || R->pick[j] == R->pick[k]; if (again) { auto c = f->create_particle(); *c = *ps[R->pick[k]]; c->sample(); q.push_back(c); } else q.push_back(ps[R->pick[k]]); }
    ps = q; return true; }
  T &heaviest_particle() { return *ps[R->heavy]; } const T &heaviest_particle() const { return *ps[R->heavy]; }
  std::vector<std::shared_ptr<T>> &particles() { return ps; } const std::vector<std::shared_ptr<T>> &particles() const { return ps; } };
class GmappingWorld : public Particle, public LaserScanGridWorld { public: using MapType = PMap; MapType mp; int odo = 0, obs = 0, odo_at = 0, obs_at = 0, marked = 0; bool master = false; double tag; const void *scan = 0; double dx = 0, dy = 0, dt = 0;
  GmappingWorld(const SingleStateHypothesisLSGWProperties &, const GMappingParams &g) : tag(g.tag) { R->w[R->n++] = this; }
  GmappingWorld &operator=(const GmappingWorld &o) { master = o.master; return *this; }
  const GridMap &map() const override { return mp; }
  void update_robot_pose(const RobotPoseDelta &d) override { ++odo; odo_at = ++R->clock; dx += d.x; dy += d.y; dt += d.theta; LaserScanGridWorld::update_robot_pose(d); }
  void handle_observation(TransformedLaserScan &s) override { ++obs; obs_at = ++R->clock; scan = &s; }
  void mark_master() { master = true; ++marked; } bool is_master() { return master; } void sample() override { master = false; } };
#include "slams/gmapping/gmapping_particle_filter.h"
struct PPoseObs : WorldPoseObserver { double x, y, t; int calls = 0, at = 0; void on_pose_update(const RobotPose &p) override { ++calls; at = ++R->clock; x = p.x; y = p.y; t = p.theta; } };
struct PMapObs : WorldMapObserver<GridMap> { const void *m; int calls = 0; void on_map_update(const GridMap &x) override { ++calls; m = &x; } };
#define SETUP(K, H) ; Reg reg; R = &reg; reg.heavy = H; reg.heavy_after = 0; SingleStateHypothesisLSGWProperties pr; GmappingParticleFilter f{pr, GMappingParams{tag}, K}; LaserScanGridWorld &lw = f; TransformedLaserScan s; PPoseObs po; PMapObs mo; f.subscribe_pose(std::shared_ptr<WorldPoseObserver>(&po)); f.subscribe_map(std::shared_ptr<WorldMapObserver<GridMap>>(&mo));
#define P(i) (*reg.w[i])
#define ODO double tag, const RobotPoseDelta &d, const RobotPoseDelta &e
'''
FAR = 'REQ(x_forth, d.x >= 0.0); REQ(y_forth, d.y >= 0.0); REQ(left, d.theta >= 0.0); REQ(%s);'
WAYS = [('far', FAR % 'far_way, d.x * d.x + d.y * d.y > 0.501', 1), ('turned', FAR % 'big_turn, d.theta > 0.201', 1), ('near', FAR % 'short_way, d.x * d.x + d.y * d.y < 0.499); REQ(small_turn, d.theta < 0.199', 0),
        ('turned_right', 'REQ(x_back, d.x <= 0.0); REQ(y_back, d.y <= 0.0); REQ(right, d.theta < -0.201);', 1), ('near_right', 'REQ(x_back, d.x <= 0.0); REQ(y_back, d.y <= 0.0); REQ(right, d.theta <= 0.0); REQ(short_way, d.x * d.x + d.y * d.y < 0.499); REQ(small_turn, d.theta > -0.199);', 0)]
def filter_drivers():
    L = []
    for n in (1, 2, 3):
        for h in range(n):
            L.append('DRV drv_start_%d_%d(ODO) { SETUP(%d, %d) ENSI(as_many_particles, reg.n, %d); ' % (n, h, n, h, n) + ''.join('ENS(parameters_%d, P(%d).tag, tag); ENSI(only_heaviest_is_master_%d, P(%d).is_master(), %d);' % (i, i, i, i, i == h) for i in range(n)) + '}')
        L.append('DRV drv_odometry_%d(ODO) { SETUP(%d, 0) lw.update_robot_pose(d); lw.update_robot_pose(e); ' % (n, n) + ''.join('ENSI(told_each_time_%d, P(%d).odo, 2); ENS(moved_x_%d, P(%d).dx, d.x + e.x); ENS(moved_y_%d, P(%d).dy, d.y + e.y); ENS(moved_heading_%d, P(%d).dt, d.theta + e.theta); ENSI(not_observed_%d, P(%d).obs, 0);' % ((i,) * 10) for i in range(n)) + ' ENS(pose_of_filter, f.pose().x, d.x + e.x); ENSI(nothing_normalised, reg.norm, 0); ENSI(nothing_tried, reg.tries, 0); }')
        for h in range(n):
            L.append('DRV drv_cycle_%d_%d(ODO) { SETUP(%d, %d) %s s.pose_delta = d; lw.handle_sensor_data(s);' % (n, h, n, h, ''.join('static_cast<LaserScanGridWorld &>(P(%d)).LaserScanGridWorld::update_robot_pose(RobotPoseDelta{%d.0, %d.0, %d.0});' % (i, i, 2 * i, 3 * i) for i in range(n)))
              + ''.join('ENSI(moved_once_%d, P(%d).odo, 1); ENS(moved_x_%d, P(%d).dx, d.x); ENS(moved_y_%d, P(%d).dy, d.y); ENS(moved_heading_%d, P(%d).dt, d.theta); ENSI(observed_once_%d, P(%d).obs, 1); ENSP(sees_the_scan_%d, P(%d).scan, &s); ENSB(moves_before_observing_%d, P(%d).odo_at < P(%d).obs_at); ENSB(normalised_after_observing_%d, P(%d).obs_at < reg.norm_at);' % ((i,) * 17) for i in range(n))
              + ' ENSI(normalised_once, reg.norm, 1); ENSP(world_is_heaviest, (const void *)(const LaserScanGridWorld *)&f.world(), (const void *)(const LaserScanGridWorld *)reg.w[%d]); ENSP(map_of_heaviest, (const void *)&((const LaserScanGridWorld &)f).map(), (const void *)(const GridMap *)&P(%d).mp); ENS(pose_of_heaviest, f.pose().x, %d.0 + d.x); ENSI(pose_told_once, po.calls, 1); ENS(told_pose_x, po.x, %d.0 + d.x); ENS(told_pose_y, po.y, %d.0 + d.y); ENS(told_pose_heading, po.t, %d.0 + d.theta); ENSB(told_after_observing, po.at > reg.norm_at); ENSI(map_told_once, mo.calls, 1); ENSP(told_map, mo.m, (const void *)(const GridMap *)&P(%d).mp); }' % (h, h, h, h, 2 * h, 3 * h, h))
    for nm, q, go in WAYS:
        L.append('DRV drv_try_%s(ODO) { %s SETUP(3, 1) s.pose_delta = d; lw.handle_sensor_data(s); ENSI(resampling_tried, reg.tries, %d); %s ENSI(nobody_made, reg.n, 3); }' % (nm, q, go, 'ENSB(tried_after_normalising, reg.norm_at < reg.try_at);' if go else ''))
        if not go: continue
        L.append('DRV drv_retry_%s(ODO) { %s SETUP(3, 1) s.pose_delta = d; lw.handle_sensor_data(s); s.pose_delta = RobotPoseDelta{0, 0, 0}; lw.handle_sensor_data(s); ENSI(way_is_kept_until_resampling, reg.tries, 2); }' % (nm, q))
    for nm, q, go in WAYS:
        for k, c in enumerate(('{1, 0, 0}', '{0, -1, 0}', '{0, 0, 0.25}', '{0, 0, -0.25}')):
            L.append('DRV drv_done_%s_%d(ODO) { %s SETUP(3, 1) reg.need = true; s.pose_delta = RobotPoseDelta%s; lw.handle_sensor_data(s); ENSI(resampled, reg.tries, 1); s.pose_delta = d; lw.handle_sensor_data(s); ENSI(way_counts_from_resampling, reg.tries, %d); }' % (nm, k, q, c, 1 + go))
    for sx, sy in ((1, 1), (-1, -1), (1, -1), (-1, 1)):
        L.append('DRV drv_backwards_%s(ODO) { REQ(x, d.x * %d >= 0.0); REQ(y, d.y * %d >= 0.0); REQ(x2, e.x * %d <= 0.0); REQ(y2, e.y * %d <= 0.0); REQ(far_in_all, (d.x - e.x) * (d.x - e.x) + (d.y - e.y) * (d.y - e.y) > 0.501); SETUP(3, 1) lw.update_robot_pose(d); s.pose_delta = e; lw.handle_sensor_data(s); ENSI(way_back_counts, reg.tries, 1); }' % (('%d_%d' % (sx, sy)).replace('-', 'm'), sx, sy, sx, sy))
    L.append('DRV drv_sway(ODO) { REQ(left, d.theta >= 0.0); REQ(right, e.theta <= 0.0); REQ(much_in_all, d.theta - e.theta > 0.201); SETUP(3, 1) lw.update_robot_pose(d); s.pose_delta = e; lw.handle_sensor_data(s); ENSI(turn_back_counts, reg.tries, 1); }')
    L.append('DRV drv_sway2(ODO) { REQ(right, d.theta <= 0.0); REQ(left, e.theta >= 0.0); REQ(much_in_all, e.theta - d.theta > 0.201); SETUP(3, 1) lw.update_robot_pose(d); s.pose_delta = e; lw.handle_sensor_data(s); ENSI(turn_back_counts, reg.tries, 1); }')
    # one master after resampling: whichever particle was the master, whichever are drawn, whichever is the heaviest then
    for m in range(3):
        for ps in ((0, 0, 0), (1, 1, 1), (2, 2, 2), (0, 1, 1), (1, 2, 1), (2, 0, 1), (0, 0, 2), (2, 2, 0)):
            for h in range(3):
                slot = []; made = 3
                for k, i in enumerate(ps):
                    if i in ps[:k]: slot.append(made); made += 1
                    else: slot.append(i)
                exp = m if m in ps else slot[h]
                L.append('DRV drv_master_%d_%s_%d(ODO) { SETUP(3, %d) reg.need = true; reg.heavy_after = %d; %s s.pose_delta = RobotPoseDelta{1, 0, 0}; lw.handle_sensor_data(s); ENSI(resampled, reg.tries, 1); ENSI(copies_made, reg.n, %d); %s ENSP(told_map_of_heaviest_after_resampling, mo.m, (const void *)(const GridMap *)&P(%d).mp); }' % (m, ''.join(map(str, ps)), h, m, h, ''.join('reg.pick[%d] = %d;' % x for x in enumerate(ps)), made, ''.join('ENSI(%s_%d, P(%d).is_master(), %d);' % ('is_the_master' if x == exp else 'is_no_master', k, x, x == exp) for k, x in enumerate(slot)), slot[h]))
    return L
def main():
    r = Report('C25', RULE, 80)
    only = os.environ.get('ONLY'); per = int(os.environ.get('PER', '24'))
    sel = lambda L: [x for x in L if not only or re.search(only, x)]
    i = WORLD.index('DRV drv_fresh'); j = WORLD.index('#define GATE'); ds = ['DRV' + x for x in WORLD[i:j].split('DRV')[1:]]
    W = WORLD[:i] + WORLD[j:]
    pre = models(4, rnd=True)
    families(r, pre + RNDV + W + UN, sel(ds + GATES), 'GmappingWorld', 'opaque uf_.*', per=per)
    families(r, models(4) + RNDV + FILTER + UN, sel(filter_drivers()), 'GmappingParticleFilter', 'opaque uf_.*\npeelany 12', per=per)
    return r.finish()
