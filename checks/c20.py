from core import *
import mapdrv
from mapdrv import cells
RULE = ('the scale numbers, sizes and active scale are the documented ones on every path; after every written sequence the value of an area on a coarser scale is not below any finest cell inside it, is one of the values written inside it, '
        'and areas without written cells are unknown; the selected scale is the finest one that is not below the target')
PRE = '''
#include "core/scan_matchers/m3rsm_engine.h"
#include "core/scan_matchers/observation_impact_estimators.h"
typedef RegularSquaresGrid::Coord Co; typedef AreaOccupancyObservation AOO;
#ifndef NB
#define NB 2
#endif
// a back map that extends itself just enough to contain a written cell, over cells -NB..NB-1
struct KC : GridCell { KC(double v = 0) : GridCell(Occupancy{v, 1}) {} void operator+=(const AOO &a) override { _occupancy.prob_occ = a.occupancy.prob_occ; on_update(); } };
struct TM : GridMap { int w_, h_; Co o_; KC p_; struct Row { KC c[2 * NB]; KC &operator[](int k) { return c[k]; } const KC &operator[](int k) const { return c[k]; } } c_[2 * NB];
  TM(std::shared_ptr<GridCell> p, const GridMapParams &q) : GridMap(p, q), w_(q.width_cells), h_(q.height_cells), o_(q.width_cells / 2, q.height_cells / 2), p_(static_cast<const KC &>(*p)) { for (int x = 0; x < 2 * NB; ++x) for (int y = 0; y < 2 * NB; ++y) c_[x][y] = p_; }
  TM(TM &&) = default;
  int width() const override { return w_; } int height() const override { return h_; } Co origin() const override { return o_; }
  const GridCell &operator[](const Co &c) const override { if (!has_cell(c)) return p_; return c_[c.x + NB][c.y + NB]; }
  void fit(const Co &c) { if (c.x + o_.x < 0) { w_ -= c.x + o_.x; o_.x = -c.x; } if (c.x + o_.x >= w_) w_ = c.x + o_.x + 1; if (c.y + o_.y < 0) { h_ -= c.y + o_.y; o_.y = -c.y; } if (c.y + o_.y >= h_) h_ = c.y + o_.y + 1; }
  void update(const Co &c, const AOO &a) override { fit(c); c_[c.x + NB][c.y + NB] += a; }
  void reset(const Co &c, const GridCell &a) override { fit(c); c_[c.x + NB][c.y + NB] = static_cast<const KC &>(a); }
};
typedef RescalableCachingGridMap<TM> RM; typedef M3RSMRescalableGridMap<TM> MM;
template <class T> std::shared_ptr<T> SP(T &x) { return std::shared_ptr<T>(&x); }
extern "C" bool drvr_le(double a, double b) { return a <= b; }
struct SM : GridMap { double s_; SM(double s) : GridMap(nullptr, GridMapParams{1, 1, 1}), s_(s) {} double scale() const override { return s_; } void rescale(double s) override { s_ = s; } const GridCell &operator[](const Co &c) const override { return *(GridCell *)0; } };
#define AREA(V) AOO{true, Occupancy{V, 1}, Point2D{0, 0}, 1}
#define MKM(W, H) KC proto(pv); OccupancyOIE oie; MM m(SP((ObservationImpactEstimator &)oie), SP((GridCell &)proto), GridMapParams{W, H, 0.5});
#define VAL(X, Y) m[Co(X, Y)].occupancy().prob_occ
'''
CFG = r'replace drvr_le ^less_or_equal\(double, double\)$' + '\nlicm\nsplit\npeelany 20\nonlyclass GridCell KC\nonlyclass GridMap TM\nonlyclass RegularSquaresGrid TM\nonlyclass RescalableCachingGridMap<TM> M3RSMRescalableGridMap<TM>\nonlyclass ObservationImpactEstimator OccupancyOIE'
def at(c, lev, last): return (0, 0) if lev == last else (c[0] >> lev, c[1] >> lev)
def top(w, h):
    n = 1; p = 1
    while p < max(w, h): p *= 2
    while p > 2: p //= 2; n += 1
    return n

def shape():
    D = ''; k = 0
    for w, h in ((1, 1), (2, 1), (2, 2), (3, 2), (1, 4), (4, 4), (5, 3), (8, 2)):
        n = top(w, h); D += 'DRV drv_shape_%d(double pv) { MKM(%d, %d) ENSI(number_of_scales, m.scales_nm(), %d); ENSI(coarsest, m.coarsest_scale_id(), %d); ENSI(finest_is_active, m.scale_id(), 0); ' % (k, w, h, n + 1, n)
        for l in range(n + 1):
            D += 'm.set_scale_id(%d); ENSI(active_scale, m.scale_id(), %d); ' % (l, l)
            D += 'ENSI(coarsest_width, m.width(), 1); ENSI(coarsest_height, m.height(), 1); ENSB(coarsest_cell_is_unlimited, m.scale() > 1e300); ' if l == n else 'ENS(scale_doubles, m.scale(), %r); ENSB(covers_the_width, m.width() * %d >= %d); ENSB(covers_the_height, m.height() * %d >= %d); ' % (0.5 * 2 ** l, 2 ** l, w, 2 ** l, h)
            if l == 0: D += 'ENSI(finest_width, m.width(), %d); ENSI(finest_height, m.height(), %d); ' % (w, h)
        D += '}\n'; k += 1
    return D
def scaling():
    D = ''; k = 0
    for w, h in ((1, 1), (4, 4), (8, 2)):
        n = top(w, h)
        D += 'DRV drv_rescale_%d(double pv, double t) { REQ(number, t == t); MKM(%d, %d) m.rescale(t); double sc = m.scale(); unsigned id = m.scale_id(); ENSB(not_finer_than_asked, sc >= t); ' % (k, w, h)
        for l in range(n): D += 'ENSB(coarser_than_needed_only_if_finer_does_not_fit, id <= %d || t > %r); ' % (l, 0.5 * 2 ** l)
        D += 'm.rescale(0); ENSI(zero_selects_the_finest, m.scale_id(), 0); }\n'; k += 1
    return D
def safe(): return 'DRV drv_safe(double s, double t, double u) { SM m(s); { SafeRescalableMap r(m); GridMap &g = r; ENSB(same_map, &g == &m); g.rescale(t); ENS(rescaled, m.s_, t); g.rescale(u); } ENS(scale_is_restored, m.s_, s); }\n'
SEQS = [((2, 2), [(0, 0)]), ((2, 2), [(-1, 0), (-1, 0)]), ((4, 4), [(-2, -2), (-1, -1)]), ((4, 4), [(-2, -2), (1, 1)]), ((4, 4), [(0, 1), (0, 1)]), ((2, 2), [(0, 0), (1, 0)]), ((2, 2), [(-1, -1), (-2, 1)]), ((1, 1), [(-2, -2)]), ((1, 1), [(0, 0), (1, -1)]), ((1, 1), [(0, 0), (-2, 1)]), ((2, 2), [(0, -1), (0, -2), (0, -1)])]
WIDE = [((2, 2), [(0, 0), (1, 0), (3, 0)]), ((2, 2), [(-1, 0), (3, 3)]), ((2, 2), [(0, 0), (0, 1), (-4, 1)])] # scales are added at two moments / two at once
def bounds(seqs=None):
    D = ''; k = 0
    for (w, h), ws in seqs or SEQS:
        for op in ('update', 'reset') if len(ws) < 3 else ('update',):
            args = ', '.join('double v%d' % i for i in range(len(ws)))
            x0 = min([-(w // 2)] + [c[0] for c in ws]); x1 = max([w - w // 2 - 1] + [c[0] for c in ws]); y0 = min([-(h // 2)] + [c[1] for c in ws]); y1 = max([h - h // 2 - 1] + [c[1] for c in ws])
            D += 'DRV drv_bound_%d(double pv, %s) { MKM(%d, %d) ' % (k, args, w, h)
            for i, c in enumerate(ws): D += ('m.update(Co(%d, %d), AREA(v%d)); ' if op == 'update' else '{ KC a(v%d); a += AREA(v%d); m.reset(Co(%d, %d), a); } ') % (c + (i,) if op == 'update' else (i, i) + c)
            n = top(x1 - x0 + 1, y1 - y0 + 1)
            D += 'unsigned n = m.scales_nm(); m.set_scale_id(n - 1); ENSB(one_unlimited_cell, m.scale() > 1e300); '
            fine = {c: i for i, c in enumerate(ws)}
            for l in range(8):
                if l > 0 and 2 ** l > 4 * max(x1 - x0 + 1, y1 - y0 + 1): break
                areas = {}
                for c, i in fine.items(): areas.setdefault((c[0] >> l, c[1] >> l), []).append(c)
                D += 'if (%d < n - 1) { m.set_scale_id(%d); ' % (l, l)
                for a, cs in sorted(areas.items()):
                    D += 'double c%d_%d = VAL(%d, %d); ENSI(known, m[Co(%d, %d)].is_unknown(), 0); ' % ((l, len(areas) * 0 + sorted(areas).index(a)) + a + a); nm = 'c%d_%d' % (l, sorted(areas).index(a))
                    for c in cs: D += ('ENS(finest_holds_the_last_value, %s, v%d); ' if l == 0 else 'ENSB(bounds_what_is_inside, %s >= v%d); ') % (nm, fine[c])
                    D += 'ENSB(not_above_what_was_ever_inside, %s); ' % ' || '.join('%s == v%d' % (nm, i) for i, c in enumerate(ws) if (c[0] >> l, c[1] >> l) == a)
                for x in range(x0 >> l, (x1 >> l) + 1):
                    for y in range(y0 >> l, (y1 >> l) + 1):
                        if (x, y) not in areas: D += 'ENSI(area_without_known_cells_is_unknown, m[Co(%d, %d)].is_unknown(), 1); ' % (x, y)
                D += '} '
            D += '{ m.set_scale_id(n - 1); double top = VAL(0, 0); %s } }\n' % ''.join('ENSB(coarsest_bounds_everything, top >= v%d); ' % i for i in fine.values())
            k += 1
    return D
def main():
    r = Report('C20', RULE, 20); r.asserts = True
    M = models(6, bounds=True)
    families(r, M + '#define NB 4\n' + PRE, shape().splitlines(True) + scaling().splitlines(True), 'scales', CFG, per=1)
    contracts(r, compile_module(M + PRE + safe(), pre_cfg='licm\nonlyclass GridMap SM\nonlyclass RegularSquaresGrid SM'), 'temporary scale')
    families(r, M + PRE, bounds().splitlines(True), 'bounds', CFG, per=1)
    families(r, M + '#define NB 4\n' + PRE, [d.replace('drv_bound', 'drv_wide') for d in bounds(WIDE).splitlines(True)], 'growth', CFG, per=1)
    return r.finish()
