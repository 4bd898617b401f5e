from core import *
import json, re
RULE = ('The functions that build the components from the settings are inlined with recording components; a setting is an uninterpreted value of its key and its default, so the component built for each type name, '
        'the key and the default of every parameter and the rejection of unknown names are compared with the documented ones.')
STR = r'''
#include <string>
#include <iostream>
#include <fstream>
#include <sstream>
#include <vector>
#include <memory>
#include <tuple>
#include <limits>
#include <random>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <unordered_map>
#include <libgen.h>
extern "C" double uf_dbl(unsigned long, double) __attribute__((const)); extern "C" int uf_int(unsigned long, int) __attribute__((const)); extern "C" unsigned uf_uint(unsigned long, unsigned) __attribute__((const));
extern "C" int uf_bool(unsigned long, int) __attribute__((const)); extern "C" double uf_stod(unsigned long) __attribute__((const)); extern "C" int uf_stoi(unsigned long) __attribute__((const)); extern "C" unsigned long uf_stoul(unsigned long) __attribute__((const));
// a text is its length and its rolling hash
#define AI __attribute__((always_inline))
namespace std { struct plainstring { unsigned long h, p; typedef size_t size_type; static constexpr size_t npos = -1;
  static constexpr unsigned long B = 0x9e3779b97f4a7c15ul | 1;
  constexpr plainstring() : h(0), p(1) {} constexpr plainstring(unsigned long h, unsigned long p) : h(h), p(p) {}
template <size_t A, size_t N> constexpr void part(const char *s, std::true_type) { for (size_t i = A; i < N && i < A + 16; ++i) { h = h * B + (unsigned char)s[i] + 1; p *= B; } part<A + 16, N>(s, std::integral_constant<bool, (A + 16 < N)>()); }
  template <size_t A, size_t N> constexpr void part(const char *, std::false_type) {}
  template <size_t N> constexpr plainstring(const char (&s)[N]) : h(0), p(1) { part<0, N - 1>(s, std::integral_constant<bool, (1 < N)>()); }
  template <class T, class = typename std::enable_if<std::is_same<T, const char *>::value>::type> constexpr plainstring(const T &s) : h(0), p(1) { for (const char *q = s; *q; ++q) { h = h * B + (unsigned char)*q + 1; p *= B; } }
  AI bool empty() const { return p == 1; } AI plainstring &operator+=(const plainstring &o) { h = h * o.p + o.h; p *= o.p; return *this; } };
AI constexpr plainstring operator+(const plainstring &a, const plainstring &b) { return plainstring(a.h * b.p + b.h, a.p * b.p); }
AI constexpr bool operator==(const plainstring &a, const plainstring &b) { return a.h == b.h && a.p == b.p; } AI constexpr bool operator!=(const plainstring &a, const plainstring &b) { return !(a == b); }
AI inline double stod(const plainstring &s) { return uf_stod(s.h); } AI inline int stoi(const plainstring &s) { return uf_stoi(s.h); } AI inline unsigned long stoul(const plainstring &s) { return uf_stoul(s.h); }
AI inline plainstring to_plainstring(...) { return plainstring("?"); }
template <class K, class V> struct plainumap { typedef K key_type; typedef V mapped_type; typedef std::pair<K, V> value_type; value_type a[4]; size_t n = 0; plainumap() {} plainumap(const plainumap &o) { for (size_t i = 0; i < 4; ++i) a[i] = o.a[i]; n = o.n; } plainumap &operator=(const plainumap &o) { for (size_t i = 0; i < 4; ++i) a[i] = o.a[i]; n = o.n; return *this; } typedef value_type *iterator; typedef const value_type *const_iterator;
  AI const_iterator find(const K &k) const { if (n > 0 && a[0].first == k) return a; if (n > 1 && a[1].first == k) return a + 1; if (n > 2 && a[2].first == k) return a + 2; if (n > 3 && a[3].first == k) return a + 3; return a + n; }
  AI const_iterator begin() const { return a; } AI const_iterator end() const { return a + n; } AI size_t size() const { return n; } AI size_t count(const K &k) const { return find(k) != end(); } AI bool empty() const { return !n; }
  AI V &operator[](const K &k) { const_iterator i = find(k); if (i == end()) { a[n].first = k; ++n; return a[n - 1].second; } return const_cast<V &>(i->second); } AI const V &at(const K &k) const { return find(k)->second; } AI V &at(const K &k) { return const_cast<V &>(find(k)->second); }
  AI std::pair<iterator, bool> insert(const value_type &v) { const_iterator i = find(v.first); if (i != end()) return {const_cast<iterator>(i), false}; a[n] = v; return {a + n++, true}; }
  template <class... X> std::pair<iterator, bool> emplace(X &&...x) { return insert(value_type(std::forward<X>(x)...)); }
  AI void insert(const_iterator b, const_iterator e) { if (b != e) insert(*b++); if (b != e) insert(*b++); if (b != e) insert(*b++); if (b != e) insert(*b++); } };
struct plainout { template <class T> plainout &operator<<(const T &) { return *this; } plainout &operator<<(std::ostream &(*)(std::ostream &)) { return *this; } }; static plainout plaincout, plaincerr;
struct plaindevice { unsigned operator()() { return 7; } }; extern "C" void config__rejected(int) __attribute__((noreturn));
AI inline void plainexit(int c) __attribute__((noreturn)); }
#define string plainstring
#define unordered_map plainumap
#define cout plaincout
#define cerr plaincerr
#define random_device plaindevice
#define exit plainexit
'''
STUB = r'''
#include "core/math_utils.h"
static bool rej_ok; namespace std { inline void plainexit(int c) { ENSI(only_unknown_names_are_rejected, rej_ok, 1); ENSI(failure_status, c != 0, 1); config__rejected(c); } }
#define SLAM_CTOR_CORE_OBSERVATION_IMPACT_ESTIMATORS_H
#define SLAM_CTOR_CORE_OCCUPANCY_OBSERVATION_PROBABILITY_H
#define SLAM_CTOR_CORE_MONTE_CARLO_SCAN_MATCHER_H
#define SLAM_CTOR_CORE_HILL_CLIMBING_SCAN_MATCHER_H
#define SLAM_CTOR_CORE_HCSM_FIXED_H_INCLUDED
#define SLAM_CTOR_CORE_BRUTE_FORCE_SCAN_MATCHER_H
#define SLAM_CTOR_CORE_BRUTE_FORCE_MULTIRES_SCAN_MATCHER_H
#define SLAM_CTOR_CORE_NO_ACTION_SCAN_MATCHER_H
#define SLAM_CTOR_CORE_CONNECT_THE_DOTS_AMBIOUS_DRIFT_DETECTOR_H
#define SLAM_CTOR_CORE_WEIGHTED_MEAN_DISCREPANCY_SP_ESTIMATOR
#define SLAM_CTOR_CORE_M3RSM_ENGINE_H
#define SLAM_CTOR_CORE_GRID_MAP_H
#define SLAM_CTOR_CORE_PLAIN_GRID_MAP_H_INCLUDED
#define SLAM_CTOR_CORE_LAZY_TILED_GRID_MAP_H_INCLUDED
#define SLAM_CTOR_CORE_GRID_MAP_SCAN_ADDERS_H
#define SLAM_CTOR_CORE_TBM_GRID_CELLS_H
#define SLAM_CTOR_CORE_NAIVE_GRID_CELLS_H
#define AREA_OCCUPANCY_ESTIMATOR_H
#define SLAM_CTOR_CORE_CONST_OCCUPANCY_ESTIMATOR_H
#define SLAM_CTOR_CORE_SINGLE_STATE_HYPOTHESIS_LASER_SCAN_GRID_WORLD_H
#define SLAM_CTOR_GMAPPING_OCCUPANCY_OBSERVATION_PE
#define SLAM_CTOR_GMAPPING_PARTICLE_FILTER_H
#define SP std::shared_ptr
struct Part { int kind = 0; const void *a = 0, *b = 0, *c = 0; double v[9]; unsigned u[2]; };
#define LEAF(T, BASE, K) struct T : BASE { T() { kind = K; } };
struct ObservationImpactEstimator : Part {}; LEAF(DiscrepancyOIE, ObservationImpactEstimator, 1) LEAF(OccupancyOIE, ObservationImpactEstimator, 2)
typedef SP<ObservationImpactEstimator> POIE;
struct OccupancyObservationProbabilityEstimator : Part { POIE oie; };
#define OOPE(T, K) struct T : OccupancyObservationProbabilityEstimator { T(POIE o) { kind = K; oie = o; } };
OOPE(ObstacleBasedOccupancyObservationPE, 1) OOPE(MaxOccupancyObservationPE, 2) OOPE(MeanOccupancyObservationPE, 3) OOPE(OverlapWeightedOccupancyObservationPE, 4)
struct ScanPointWeighting : Part {}; LEAF(EvenSPW, ScanPointWeighting, 1) LEAF(VinySlamSPW, ScanPointWeighting, 2) LEAF(AngleHistogramReciprocalSPW, ScanPointWeighting, 3)
struct ScanProbabilityEstimator : Part { SP<OccupancyObservationProbabilityEstimator> oope; SP<ScanPointWeighting> spw; }; typedef SP<ScanProbabilityEstimator> SPE;
struct WeightedMeanPointProbabilitySPE : ScanProbabilityEstimator { WeightedMeanPointProbabilitySPE(SP<OccupancyObservationProbabilityEstimator> o, SP<ScanPointWeighting> w, unsigned s = 0, double r = -1) { kind = 1; oope = o; spw = w; u[0] = s; v[0] = r; } };
struct GridScanMatcher : Part { SPE spe; SP<GridScanMatcher> inner; };
struct MonteCarloScanMatcher : GridScanMatcher { MonteCarloScanMatcher(SPE e, unsigned seed, double t, double r, unsigned f, unsigned n) { kind = 1; spe = e; u[0] = f; u[1] = n; v[0] = seed; v[1] = t; v[2] = r; } };
struct HillClimbingScanMatcher : GridScanMatcher { HillClimbingScanMatcher(SPE e, unsigned f, double t, double r, double al = false) { kind = 2; spe = e; u[0] = f; v[0] = t; v[1] = r; v[2] = al; } };
struct BruteForceScanMatcher : GridScanMatcher { BruteForceScanMatcher(SPE e, double a, double b, double c, double d, double f, double g, double h, double i, double j) { kind = 3; spe = e; v[0] = a; v[1] = b; v[2] = c; v[3] = d; v[4] = f; v[5] = g; v[6] = h; v[7] = i; v[8] = j; } };
struct BruteForceMultiResolutionScanMatcher : GridScanMatcher { BruteForceMultiResolutionScanMatcher(SPE e, double x = 1, double y = 1, double r = deg2rad(5), double a = deg2rad(0.1), double t = 0.05) { kind = 4; spe = e; v[0] = x; v[1] = y; v[2] = r; v[3] = a; v[4] = t; } };
struct NoActionScanMatcher : GridScanMatcher { NoActionScanMatcher(SPE e) { kind = 5; spe = e; } };
struct HillClimbingSMFixed : GridScanMatcher { HillClimbingSMFixed(SPE e, int n = 5, double l = 0.1, double a = 0.1) { kind = 6; spe = e; u[0] = n; v[0] = l; v[1] = a; } };
struct ConnectTheDotsAmbiguousDriftDetector : GridScanMatcher { ConnectTheDotsAmbiguousDriftDetector(SP<GridScanMatcher> m) { kind = 7; inner = m; spe = m->spe; } };
struct Occupancy { double prob_occ, estimation_quality; }; struct GridMapParams { int width_cells, height_cells; double meters_per_cell; };
struct CellOccupancyEstimator : Part {};
#define COE(T, K) struct T : CellOccupancyEstimator { T(const Occupancy &o, const Occupancy &e) { kind = K; v[0] = o.prob_occ; v[1] = o.estimation_quality; v[2] = e.prob_occ; v[3] = e.estimation_quality; } };
COE(ConstOccupancyEstimator, 1) COE(AreaOccupancyEstimator, 2)
struct ObservationMappingQualityEstimator : Part {}; LEAF(IdleOMQE, ObservationMappingQualityEstimator, 1) LEAF(AngleHistogramResiprocalOMQE, ObservationMappingQualityEstimator, 2)
struct GridMapScanAdder : Part { SP<CellOccupancyEstimator> coe; SP<ObservationMappingQualityEstimator> omqe; };
struct WallDistanceBlurringScanAdder : GridMapScanAdder { struct Bld { double bl = 0, mr = std::numeric_limits<double>::infinity(); SP<CellOccupancyEstimator> coe; SP<ObservationMappingQualityEstimator> omqe;
    Bld &set_blur_distance(double x) { bl = x; return *this; } Bld &set_max_usable_range(double x) { mr = x; return *this; } Bld &set_occupancy_estimator(SP<CellOccupancyEstimator> x) { coe = x; return *this; }
    Bld &set_observation_quality_estimator(SP<ObservationMappingQualityEstimator> x) { omqe = x; return *this; } SP<WallDistanceBlurringScanAdder> build() const { return std::make_shared<WallDistanceBlurringScanAdder>(*this); } };
  typedef Bld ScanAdderProperties; static Bld builder() { return Bld(); } WallDistanceBlurringScanAdder(const Bld &b) { kind = 1; v[0] = b.bl; v[1] = b.mr; coe = b.coe; omqe = b.omqe; } };
struct GridCell : Part {}; LEAF(TbmOccConsistentCell, GridCell, 1) LEAF(TbmUnknownEvenOccCell, GridCell, 2) LEAF(AffineQualityMergeCell, GridCell, 3) LEAF(MeanProbabilityCell, GridCell, 4) LEAF(GmappingBaseCell, GridCell, 5)
struct GridMap : Part { int w, h; double s; SP<GridCell> cell; POIE oie; };
#define MAP(T, K) struct T : GridMap { T(SP<GridCell> g, const GridMapParams &p) { kind = K; cell = g; w = p.width_cells; h = p.height_cells; s = p.meters_per_cell; } };
MAP(PlainGridMap, 1) MAP(UnboundedPlainGridMap, 2) MAP(LazyTiledGridMap, 3) MAP(UnboundedLazyTiledGridMap, 4)
template <class M> struct M3RSMRescalableGridMap : M { M3RSMRescalableGridMap(POIE o, SP<GridCell> g, const GridMapParams &p) : M(g, p) { this->kind += 10; this->oie = o; } };
struct SingleStateHypothesisLSGWProperties { double localized_scan_quality = 1.0, raw_scan_quality = 1.0; std::size_t scan_margin = 0; SP<GridMap> grid_map; SP<GridScanMatcher> gsm; SP<GridMapScanAdder> gmsa; };
struct SingleStateHypothesisLaserScanGridWorld { SingleStateHypothesisLSGWProperties pr; SingleStateHypothesisLaserScanGridWorld(const SingleStateHypothesisLSGWProperties &p) : pr(p) {} };
struct GmappingWorld { typedef UnboundedLazyTiledGridMap MapType; };
struct GMappingParams { double v[8]; GMappingParams(double a, double b, double c, double d, double e, double f, double g, double h) { v[0] = a; v[1] = b; v[2] = c; v[3] = d; v[4] = e; v[5] = f; v[6] = g; v[7] = h; } };
struct GmappingParticleFilter { SingleStateHypothesisLSGWProperties pr; GMappingParams gp; unsigned n; GmappingParticleFilter(const SingleStateHypothesisLSGWProperties &p, const GMappingParams &g, unsigned n) : pr(p), gp(g), n(n) {} };
struct GmappingOccupancyObservationPE : OccupancyObservationProbabilityEstimator { GmappingOccupancyObservationPE(double f, unsigned w) { kind = 9; v[0] = f; u[0] = w; } };
#include "utils/init_slam.h"
#include "slams/gmapping/init_gmapping.h"
struct Props : PropertiesProvider { std::string k[6], t[6]; Props() { rej_ok = false; } 
  int get_int(const std::string &id, int d) const override { return uf_int(id.h, d); } double get_dbl(const std::string &id, double d) const override { return uf_dbl(id.h, d); } unsigned get_uint(const std::string &id, unsigned d) const override { return uf_uint(id.h, d); }
  bool get_bool(const std::string &id, bool d) const override { return uf_bool(id.h, d); } void set_property(const std::string &, const std::string &) override {}
  str get_str(const std::string &id, const str &d) const override { if (!k[0].empty() && id == k[0]) return t[0]; if (!k[1].empty() && id == k[1]) return t[1]; if (!k[2].empty() && id == k[2]) return t[2]; if (!k[3].empty() && id == k[3]) return t[3];
    if (!k[4].empty() && id == k[4]) return t[4]; if (!k[5].empty() && id == k[5]) return t[5]; return d; } };
#define H(key) (std::string(key).h)
#define DBL(key, d) uf_dbl(H(key), d)
#define UINT(key, d) uf_uint(H(key), d)
#define SET(i, key, val) p.k[i] = key; p.t[i] = val;
#define WMPP SET(0, "slam/scmtch/spe/type", "wmpp") SET(1, "slam/scmtch/spe/wmpp/weighting/type", "even")
'''
CFG = 'fresh\nsplit\nopaque uf_.*\ninline std::plainstring\ninline std::(operator|stoi|stod|stoul)\ninline std::plain'
def other(nm, key, names, pre, call):
    """every text but the documented names is rejected"""
    return 'DRV drv_other_%s(unsigned long h, unsigned long l) { Props p; std::string t(h, l); REQ(some_text, l != 0 && l != 1); rej_ok = true; %s SET(0, "%s", t) auto o = %s; ENSB(only_documented_types_are_accepted, %s); }' % (nm, pre, key, call, ' || '.join('h == H("%s")' % n for n in names))
def drivers():
    L = []; PI = '3.14159265358979323846'
    # the type names
    for key, fn, arg, names in (('slam/scmtch/oie/type', 'init_oie', '', (('discrepancy', 1), ('occupancy', 2))), ('slam/scmtch/oope/type', 'init_oope', '', (('obstacle', 1), ('max', 2), ('mean', 3), ('overlap', 4))),
                                ('slam/scmtch/spe/wmpp/weighting/type', 'init_swp', None, (('even', 1), ('viny', 2), ('ahr', 3))), ('slam/occupancy_estimator/type', 'init_occ_estimator', '', (('const', 1), ('area', 2))),
                                ('slam/mapping/observation_quality_estimator/type', 'init_omqe', '', (('idle', 1), ('ahr', 2))),
                                ('slam/mapping/grid/area/type', 'init_occupied_area_model', None, (('tbm_consistent', 1), ('tbm_unknown_even_occ', 2), ('affine_quality_merge', 3), ('mean_probability', 4)))):
        for n, k in names: L.append('DRV drv_%s_%s() { Props p; SET(0, "%s", "%s") auto o = %s(p); ENSI(component, o->kind, %d); }' % (fn, n, key, n, fn, k))
        L.append('DRV drv_%s_again() { Props p; SET(0, "%s", "%s") auto o = %s(p); SET(0, "%s", "%s") auto q = %s(p); ENSI(first_component, o->kind, %d); ENSI(second_component, q->kind, %d); }' % (fn, key, names[-1][0], fn, key, names[0][0], fn, names[-1][1], names[0][1]))
        L.append(other(fn, key, [n for n, k in names], '', fn + '(p)'))
        L.append('DRV drv_%s_unknown() { Props p; SET(0, "%s", "no_such_type") rej_ok = true; auto o = %s(p); ENSI(unknown_type_is_rejected, 0, 1); }' % (fn, key, fn))
        if arg is None: L.append('DRV drv_%s_missing() { Props p; rej_ok = true; auto o = %s(p); ENSI(missing_type_is_rejected, 0, 1); }' % (fn, fn))
        else: L.append('DRV drv_%s_default() { Props p; auto o = %s(p); ENSI(component, o->kind, 1); }' % (fn, fn))
    # parts of the parts
    for t, k in (('discrepancy', 1), ('occupancy', 2)):
        for o in ('obstacle', 'max', 'mean', 'overlap'):
            L.append('DRV drv_oope_oie_%s_%s() { Props p; SET(0, "slam/scmtch/oie/type", "%s") SET(1, "slam/scmtch/oope/type", "%s") auto o = init_oope(p); ENSI(impact_estimator, o->oie->kind, %d); }' % (t, o, t, o, k))
    L.append('DRV drv_spe() { Props p; WMPP SET(2, "slam/scmtch/oope/type", "mean") auto o = init_spe(p); ENSI(kind, o->kind, 1); ENSI(observation_probability, o->oope->kind, 3); ENSI(weighting, o->spw->kind, 1); ENSI(skip_rate, o->u[0], UINT("slam/scmtch/spe/wmpp/sp_skip_rate", 0)); ENS(max_range, o->v[0], DBL("slam/scmtch/spe/wmpp/sp_max_usable_range", -1.0)); }')
    for n, k in (('viny', 2), ('ahr', 3)): L.append('DRV drv_spe_%s() { Props p; SET(0, "slam/scmtch/spe/type", "wmpp") SET(1, "slam/scmtch/spe/wmpp/weighting/type", "%s") auto o = init_spe(p); ENSI(weighting, o->spw->kind, %d); }' % (n, n, k))
    L.append('DRV drv_spe_given() { Props p; WMPP auto q = std::make_shared<MaxOccupancyObservationPE>(POIE()); auto o = init_spe(p, q); ENSP(given_observation_probability, o->oope.get(), q.get()); }')
    for n in ('SET(0, "slam/scmtch/spe/type", "wmp")', 'SET(1, "slam/scmtch/spe/wmpp/weighting/type", "even")'): L.append('DRV drv_spe_bad_%d() { Props p; rej_ok = true; %s auto o = init_spe(p); ENSI(unknown_type_is_rejected, 0, 1); }' % (len(L), n))
    # scan matchers
    SM = lambda t, more='': 'Props p; WMPP SET(2, "slam/scmtch/type", "%s") SET(3, "slam/scmtch/oope/type", "max") %s ' % (t, more)
    DDK = 'uf_bool(H("slam/scmtch/use_amb_drift_detector"), false)'
    PLAIN = 'REQ(no_detector, %s == 0);' % DDK
    sms = {'MC': (1, 'ENSI(failed_attempts, m->u[0], UINT("slam/scmtch/MC/dispersion/failed_attempts_limit", 20)); ENSI(attempts, m->u[1], UINT("slam/scmtch/MC/attempts_limit", 100)); ENS(seed, m->v[0], (unsigned)uf_int(H("slam/scmtch/MC/seed"), 7)); ENS(translation, m->v[1], DBL("slam/scmtch/MC/dispersion/translation", 0.2)); ENS(rotation, m->v[2], DBL("slam/scmtch/MC/dispersion/rotation", 0.1));'),
           'HC': (2, 'ENSI(failed_attempts, m->u[0], UINT("slam/scmtch/HC/distortion/failed_attempts_limit", 6)); ENS(translation, m->v[0], DBL("slam/scmtch/HC/distortion/translation", 0.1)); ENS(rotation, m->v[1], DBL("slam/scmtch/HC/distortion/rotation", 0.1));'),
           'BF': (3, ''.join('ENS(%s_%s, m->v[%d], DBL("slam/scmtch/BF/%s/%s", %s));' % (d, w, 3 * i + j, d, w, v) for i, (d, f, s) in enumerate((('x', '0.5', '0.1'), ('y', '0.5', '0.1'), ('t', 'deg2rad(5)', 'deg2rad(1)'))) for j, (w, v) in enumerate((('from', '-' + f), ('to', f), ('step', s))))),
           'BF_M3RSM': (4, 'ENS(x_limit, m->v[0], DBL("slam/scmtch/BF_M3RSM/limits/x_translation", 1)); ENS(y_limit, m->v[1], DBL("slam/scmtch/BF_M3RSM/limits/y_translation", 1)); ENS(rotation_limit, m->v[2], DBL("slam/scmtch/BF_M3RSM/limits/rotation", deg2rad(5))); ENS(rotation_accuracy, m->v[3], DBL("slam/scmtch/BF_M3RSM/accuracy/rotation", deg2rad(0.1))); ENS(translation_accuracy, m->v[4], DBL("slam/scmtch/BF_M3RSM/accuracy/translation", 0.05));'),
           'idle': (5, ''), 'HC_FIXED': (6, 'ENSI(shrinks, m->u[0], 5); ENS(translation, m->v[0], 0.1); ENS(rotation, m->v[1], 0.1);')}
    for t, (k, chk) in sms.items():
        L.append('DRV drv_sm_%s() { %s %s auto m = init_scan_matcher(p); ENSI(component, m->kind, %d); ENSI(estimator, m->spe->oope->kind, 2); %s }' % (t, PLAIN, SM(t), k, chk))
        L.append('DRV drv_sm_detector_%s() { REQ(detector, %s != 0); %s auto m = init_scan_matcher(p); ENSI(component, m->kind, 7); ENSI(wrapped, m->inner->kind, %d); }' % (t, DDK, SM(t), k))
    for v in (0, 1): L.append('DRV drv_sm_alignment_%d() { REQ(plain, %s == 0); REQ(alignment, uf_bool(H("slam/scmtch/HC/use_frame_alignement"), false) %s 0); %s auto m = init_scan_matcher(p); ENS(alignment, m->v[2], %d); }' % (v, DDK, '!=' if v else '==', SM('HC'), v))
    L.append('DRV drv_sm_unknown() { %s rej_ok = true;  auto m = init_scan_matcher(p); ENSI(unknown_type_is_rejected, 0, 1); }' % SM('mc'))
    L.append('DRV drv_sm_missing() { Props p; rej_ok = true;  WMPP auto m = init_scan_matcher(p); ENSI(missing_type_is_rejected, 0, 1); }')
    # mapping
    L.append('DRV drv_quality() { Props p; auto q = init_pose_quality_estimators(p); ENS(corrected, std::get<0>(q), DBL("slam/mapping/corrected_pose_quality", 1.0)); ENS(raw, std::get<1>(q), DBL("slam/mapping/raw_pose_quality", 0.5)); }')
    for t, k in (('const', 1), ('area', 2)):
        L.append('DRV drv_coe_%s() { Props p; SET(0, "slam/occupancy_estimator/type", "%s") auto o = init_occ_estimator(p); ' % (t, t) + ''.join('ENS(%s_%s, o->v[%d], DBL("slam/occupancy_estimator/base_%s/%s", %s));' % (a, b, i, a, b, d) for i, (a, b, d) in enumerate((('occupied', 'prob', 0.95), ('occupied', 'qual', 1.0), ('empty', 'prob', 0.01), ('empty', 'qual', 1.0)))) + '}')
    L.append('DRV drv_adder() { Props p; SET(0, "slam/occupancy_estimator/type", "area") SET(1, "slam/mapping/observation_quality_estimator/type", "ahr") auto a = init_scan_adder(p); ENS(blur, a->v[0], DBL("slam/mapping/blur", 0.0)); ENS(max_range, a->v[1], DBL("slam/mapping/max_range", std::numeric_limits<double>::infinity())); ENSI(occupancy_estimator, a->coe->kind, 2); ENSI(quality_estimator, a->omqe->kind, 2); }')
    W, HT, S = 'DBL("slam/map/width_in_meters", 10)', 'DBL("slam/map/height_in_meters", 10)', 'DBL("slam/map/meters_per_cell", 0.1)'
    SIZE = 'REQ(scale, %s == 0.5); REQ(wide, %s == %s); REQ(high, %s == %s);'
    for i, (w, h, wc, hc) in enumerate(((3, 7, 6, 14), (7.25, 3, 15, 6), (0.1, 0.6, 1, 2))):
        L.append('DRV drv_size_%d() { %s Props p; GridMapParams g = init_grid_map_params(p); ENSI(width, g.width_cells, %d); ENSI(height, g.height_cells, %d); ENS(scale, g.meters_per_cell, %s); }' % (i, SIZE % (S, W, w, HT, h), wc, hc, S))
    L.append('DRV drv_size() { Props p; GridMapParams g = init_grid_map_params(p); ENSI(width, g.width_cells, (int)std::ceil(%s / %s)); ENSI(height, g.height_cells, (int)std::ceil(%s / %s)); ENS(scale, g.meters_per_cell, %s); }' % (W, S, HT, S, S))
    for t, k in (('plain', 1), ('unbounded_plain', 2), ('lazy_tiled', 3), ('unbounded_lazy_tiled', 4)):
        T = 'Props p; SET(0, "slam/mapping/grid/type", "%s") SET(1, "slam/scmtch/type", "%s") SET(2, "slam/scmtch/oie/type", "occupancy") SET(3, "slam/mapping/grid/area/type", "tbm_unknown_even_occ") '
        CH = 'ENSI(map, m->kind, %d); ENSI(width, m->w, (int)std::ceil(%s / %s)); ENSI(height, m->h, (int)std::ceil(%s / %s)); ENS(scale, m->s, %s); '
        L.append('DRV drv_map_%s() { %s auto c = std::make_shared<GridCell>(); auto m = init_grid_map(p, c); %s ENSP(given_cell, m->cell.get(), c.get()); }' % (t, T % (t, 'MC'), CH % (k, W, S, HT, S, S)))
        L.append('DRV drv_map_cell_%s() { %s auto m = init_grid_map(p); %s ENSI(cell, m->cell->kind, 2); }' % (t, T % (t, 'HC'), CH % (k, W, S, HT, S, S)))
        L.append('DRV drv_map_m3rsm_%s() { %s auto m = init_grid_map(p); %s ENSI(cell, m->cell->kind, 2); ENSI(impact_estimator, m->oie->kind, 2); }' % (t, T % (t, 'BF_M3RSM'), CH % (10 + k, W, S, HT, S, S)))
    L.append(other('map', 'slam/mapping/grid/type', ('plain', 'unbounded_plain', 'lazy_tiled', 'unbounded_lazy_tiled'), '', 'init_grid_map(p, SP<GridCell>())'))
    L.append(other('spe', 'slam/scmtch/spe/type', ('wmpp',), 'SET(1, "slam/scmtch/spe/wmpp/weighting/type", "even")', 'init_spe(p)'))
    L.append(other('sm', 'slam/scmtch/type', ('MC', 'HC', 'BF', 'BF_M3RSM', 'idle', 'HC_FIXED'), 'SET(1, "slam/scmtch/spe/wmpp/weighting/type", "even") SET(2, "slam/scmtch/spe/type", "wmpp")', 'init_scan_matcher(p)'))
    L.append('DRV drv_map_unknown() { Props p; rej_ok = true; SET(0, "slam/mapping/grid/type", "tiled") auto m = init_grid_map(p, SP<GridCell>()); ENSI(unknown_type_is_rejected, 0, 1); }')
    L.append('DRV drv_map_missing() { Props p; rej_ok = true; auto m = init_grid_map(p, SP<GridCell>()); ENSI(missing_type_is_rejected, 0, 1); }')
    # whole worlds
    L.append('DRV drv_slam() { Props p; WMPP SET(2, "slam/scmtch/type", "idle") SET(3, "slam/mapping/grid/type", "plain") SET(4, "slam/mapping/grid/area/type", "mean_probability") SET(5, "slam/occupancy_estimator/type", "area") %s auto w = init_1h_slam(p); ENS(localized, w->pr.localized_scan_quality, DBL("slam/mapping/corrected_pose_quality", 1.0)); ENS(raw, w->pr.raw_scan_quality, DBL("slam/mapping/raw_pose_quality", 0.5)); ENSI(margin, w->pr.scan_margin, 0); ENSI(map, w->pr.grid_map->kind, 1); ENSI(cell, w->pr.grid_map->cell->kind, 4); ENSI(matcher, w->pr.gsm->kind, 5); ENSI(occupancy_estimator, w->pr.gmsa->coe->kind, 2); ENS(blur, w->pr.gmsa->v[0], DBL("slam/mapping/blur", 0.0)); }' % PLAIN)
    G = ['slam/particles/sample/xy/mean', 'slam/particles/sample/xy/sigma', 'slam/particles/sample/theta/mean', 'slam/particles/sample/theta/sigma', 'slam/particles/sm_delta_lim/xy/min', 'slam/particles/sm_delta_lim/xy/max', 'slam/particles/sm_delta_lim/theta/min', 'slam/particles/sm_delta_lim/theta/max']
    D = ['0.0', '0.1', '0.0', '0.03', '0.6', '0.8', '0.3', '0.4']
    PAR = ''.join('ENS(%s, %%s.v[%d], DBL("%s", %s));' % (g[15:].replace('/', '_'), i, g, d) for i, (g, d) in enumerate(zip(G, D)))
    PA = 'WMPP SET(2, "slam/scmtch/type", "idle") SET(3, "slam/mapping/grid/type", "plain") SET(4, "slam/mapping/grid/area/type", "mean_probability") SET(5, "slam/occupancy_estimator/type", "area")'
    PB = 'SET(1, "slam/scmtch/spe/wmpp/weighting/type", "ahr") SET(2, "slam/scmtch/type", "HC") SET(3, "slam/mapping/grid/type", "unbounded_plain") SET(4, "slam/mapping/grid/area/type", "tbm_consistent") SET(5, "slam/scmtch/oie/type", "occupancy")'
    L.append('DRV drv_slam_again() { %s Props p; %s auto v = init_1h_slam(p); %s auto w = init_1h_slam(p); ENSI(map, w->pr.grid_map->kind, 2); ENSI(cell, w->pr.grid_map->cell->kind, 1); ENSI(matcher, w->pr.gsm->kind, 2); ENSI(occupancy_estimator, w->pr.gmsa->coe->kind, 1); ENSI(weighting, w->pr.gsm->spe->spw->kind, 3); ENSI(impact_estimator, w->pr.gsm->spe->oope->oie->kind, 2); ENSB(own_map, w->pr.grid_map.get() != v->pr.grid_map.get()); ENSB(own_matcher, w->pr.gsm.get() != v->pr.gsm.get()); ENSI(first_map, v->pr.grid_map->kind, 1); ENSI(first_matcher, v->pr.gsm->kind, 5); }' % (PLAIN, PA, PB))
    for t, k in (('discrepancy', 1), ('occupancy', 2)): L.append('DRV drv_oope_again_%s() { Props p; SET(0, "slam/scmtch/oie/type", "%s") auto o = init_oope(p); SET(0, "slam/scmtch/oie/type", "%s") auto q = init_oope(p); ENSI(first, o->oie->kind, %d); ENSI(second, q->oie->kind, %d); }' % (t, t, ('occupancy', 'discrepancy')[k - 1], k, 3 - k))
    L.append('DRV drv_gmapping_params() { Props p; GMappingParams g = init_gmapping_params(p); %s ENSI(particles, init_particles_nm(p), UINT("slam/particles/number", 30)); }' % (PAR % (('g',) * 8)))
    L.append('DRV drv_gmapping_estimator() { Props p; WMPP auto s = init_gmapping_prob_estimator(p); ENSI(own_observation_probability, s->oope->kind, 9); ENS(threshold, s->oope->v[0], DBL("slam/scmtch/oope/custom/fullness_threshold", 0.1)); ENSI(window, s->oope->u[0], UINT("slam/scmtch/oope/custom/window_size", 1)); ENSI(weighting, s->spw->kind, 1); }')
    L.append('DRV drv_gmapping() { Props p; WMPP auto f = init_gmapping(p); ENSI(particles, f->n, UINT("slam/particles/number", 30)); %s ENSI(map, f->pr.grid_map->kind, 4); ENSI(cell, f->pr.grid_map->cell->kind, 5); ENSI(width, f->pr.grid_map->w, (int)std::ceil(%s / %s)); ENSI(height, f->pr.grid_map->h, (int)std::ceil(%s / %s)); ENSI(matcher, f->pr.gsm->kind, 2); ENSI(own_observation_probability, f->pr.gsm->spe->oope->kind, 9); ENS(localized, f->pr.localized_scan_quality, 1); ENS(raw, f->pr.raw_scan_quality, 1); ENSI(margin, f->pr.scan_margin, 0); ENS(blur, f->pr.gmsa->v[0], DBL("slam/mapping/blur", 0.0)); }' % (PAR % (('f->gp',) * 8), W, S, HT, S))
    # stored settings
    MP = 'MapPropertiesProvider m; const PropertiesProvider &c = m; std::string a("a/b"), b("a/c"); '
    L.append('DRV drv_absent(int i, unsigned u, double d) { %s m.set_property(b, "1"); ENSI(int_default, c.get_int(a, i), i); ENSI(uint_default, c.get_uint(a, u), u); ENS(dbl_default, c.get_dbl(a, d), d); ENSI(bool_default_true, c.get_bool(a, true), 1); ENSI(bool_default_false, c.get_bool(a, false), 0); ENSI(str_default, c.get_str(a, "x").h, H("x")); ENSI(absent, m.has_property(a), 0); }' % MP)
    L.append('DRV drv_present(int i, unsigned u, double d) { %s m.set_property(a, "12"); m.set_property(b, "13"); ENSI(int, c.get_int(a, i), uf_stoi(H("12"))); ENSI(uint, c.get_uint(a, u), (unsigned)uf_stoul(H("12"))); ENS(dbl, c.get_dbl(a, d), uf_stod(H("12"))); ENS(dbl2, c.get_dbl(b, d), uf_stod(H("13"))); ENSI(str, c.get_str(a, "x").h, H("12")); ENSI(present, m.has_property(a), 1); }' % MP)
    for t, v in (('true', 1), ('false', 0), ('0', 0), ('1', 1), ('False', 1), ('', 1)): L.append('DRV drv_bool_%d() { %s m.set_property(a, "%s"); ENSI(bool_over_true, c.get_bool(a, true), %d); ENSI(bool_over_false, c.get_bool(a, false), %d); }' % (len(L), MP, t, v, v))
    L.append('DRV drv_reset(double d) { %s m.set_property(a, "1"); m.set_property(a, "2"); ENS(latest_value, c.get_dbl(a, d), uf_stod(H("2"))); }' % MP)
    L.append('DRV drv_merge(double d) { %s MapPropertiesProvider n; m.set_property(a, "1"); n.set_property(a, "2"); n.set_property(b, "3"); m += n; ENS(first_definition_stays, c.get_dbl(a, d), uf_stod(H("1"))); ENS(new_definition_is_added, c.get_dbl(b, d), uf_stod(H("3"))); const PropertiesProvider &k = n; ENS(source_is_kept, k.get_dbl(a, d), uf_stod(H("2"))); }' % MP)
    return L
def texts(rels, subs):
    """analyse the named files with the given replacements"""
    import core
    d = scratch(); roots = []
    for rel in rels:
        p = os.path.join(REPO, 'src', rel); t = open(p, encoding='utf-8').read()
        for a, b in subs: t = re.sub(a, b, t)
        c = os.path.join(d, 'ov_' + os.path.basename(rel))
        with open(c, 'w', encoding='utf-8') as f: f.write(t)
        roots.append({'type': 'file', 'name': p, 'external-contents': c})
    y = os.path.join(d, 'overlay.yaml')
    with open(y, 'w') as f: json.dump({'version': 0, 'use-external-names': False, 'roots': roots}, f)
    core._ovl[0] = y
def main():
    r = Report('C26', RULE, 150)
    # reading files is not analysed
    texts(['utils/properties_providers.h'],
          [(r'(?s)class FilePropertiesProvider\b.*?\n};', '')])
    only = os.environ.get('ONLY'); ds = [x for x in drivers() if not only or re.search(only, x)]
    per = int(os.environ.get('PER', '16')); st = [x for x in ds if 'MapPropertiesProvider m;' in x]
    families(r, models(4, vec=True) + STR + STUB, [x for x in ds if x not in st], 'settings', CFG, per=per)
    families(r, models(4, vec=True) + STR + STUB, st, 'stored settings', 'peel 3\n' + CFG, per=per)
    return r.finish()
