from core import *
RULE = ('Segment and area rasterization of the grid is inlined with symbolic end points: one driver per route of unit steps (the order in which the segment crosses the grid lines is the requirement) demands exactly the cells of that route in order, ties included; areas demand every overlapped cell once; discrete lines demand connected points that stay within half a cell of the line.')
PRE = r'''
#include <vector>
#include "core/maps/grid_rasterization.h"
#include "core/maps/plain_grid_map.h"
typedef RegularSquaresGrid RSG; typedef RSG::Coord Co;
extern "C" bool drvr_eq(double a, double b) { return a == b; }
#define IN(v, k) REQ(v##_low, v > 2 * (k) + 0.01); REQ(v##_high, v < 2 * (k) + 1.99);
'''
def route(name, b, path):
    """segment from cell b along unit steps path"""
    x, y = b; cells = [b]; dx = sum(p[0] for p in path); dy = sum(p[1] for p in path); reqs = []
    for (i, j) in path:
        # leave the current cell through the x or the y side, whichever the segment meets first
        px = '(%d - bx)' % (2 * x + 2) if dx > 0 else '(bx - %d)' % (2 * x)
        py = '(%d - by)' % (2 * y + 2) if dy > 0 else '(by - %d)' % (2 * y)
        ax = '(ex - bx)' if dx > 0 else '(bx - ex)'; ay = '(ey - by)' if dy > 0 else '(by - ey)'
        if dx and dy:
            if i and j: reqs.append('%s * %s == %s * %s' % (px, ay, py, ax))
            elif i: reqs.append('%s * %s < %s * %s' % (px, ay, py, ax))
            else: reqs.append('%s * %s < %s * %s' % (py, ax, px, ay))
        x += i; y += j; cells.append((x, y))
    s = 'DRV drv_%s(double bx, double by, double ex, double ey) { IN(bx, %d) IN(by, %d) IN(ex, %d) IN(ey, %d) ' % ((name,) + b + (x, y))
    if dx < 0: s += 'REQ(leftwards, ex < bx); '
    if dx > 0: s += 'REQ(rightwards, ex > bx); '
    if dy < 0: s += 'REQ(downwards, ey < by); '
    if dy > 0: s += 'REQ(upwards, ey > by); '
    for k, q in enumerate(reqs): s += 'REQ(order_%d, %s); ' % (k, q)
    s += 'RSG g(40, 40, 2); auto v = g.world_to_cells(Segment2D{{bx, by}, {ex, ey}}); ENSI(number_of_cells, v.size(), %d); ' % len(cells)
    for k, c in enumerate(cells): s += 'ENSI(cell_%d_x, v[%d].x, %d); ENSI(cell_%d_y, v[%d].y, %d); ' % (k, k, c[0], k, k, c[1])
    return s + '}\n'

TIE = r"""
#define SEG(...) RSG g(40, 40, 2); auto v = g.world_to_cells(Segment2D{__VA_ARGS__});
#define C3(X0, Y0, X1, Y1, X2, Y2) ENSI(number_of_cells, v.size(), 3); ENSI(first_x, v[0].x, X0); ENSI(first_y, v[0].y, Y0); ENSI(middle_x, v[1].x, X1); ENSI(middle_y, v[1].y, Y1); ENSI(last_x, v[2].x, X2); ENSI(last_y, v[2].y, Y2);
DRV drv_border_up(double b, double e) { IN(b, 0) IN(e, 2) SEG({2, b}, {2, e}) C3(1, 0, 1, 1, 1, 2) }
DRV drv_border_down(double b, double e) { IN(b, 0) IN(e, -2) SEG({-4, b}, {-4, e}) C3(-2, 0, -2, -1, -2, -2) }
DRV drv_border_right(double b, double e) { IN(b, 0) IN(e, 2) SEG({b, 2}, {e, 2}) C3(0, 1, 1, 1, 2, 1) }
DRV drv_border_left(double b, double e) { IN(b, 0) IN(e, -2) SEG({b, -2}, {e, -2}) C3(0, -1, -1, -1, -2, -1) }
DRV drv_corner_ru(double b, double e) { IN(b, 0) IN(e, 2) SEG({b, b}, {e, e}) C3(0, 0, 1, 1, 2, 2) }
DRV drv_corner_ld(double b, double e) { IN(b, 1) IN(e, -1) SEG({b, b}, {e, e}) C3(1, 1, 0, 0, -1, -1) }
DRV drv_corner_rd(double b, double e) { IN(b, -1) IN(e, 1) SEG({b, 2 - b}, {e, 2 - e}) C3(-1, 1, 0, 0, 1, -1) }
DRV drv_corner_lu(double b, double e) { IN(b, 1) IN(e, -1) SEG({b, 2 - b}, {e, 2 - e}) C3(1, -1, 0, 0, -1, 1) }
"""
RECT = r"""
#define VISIT(N, G, ...) GridRasterizedRectangle a(G, __VA_ARGS__); int n = 0; int v[9] = {0, 0, 0, 0, 0, 0, 0, 0, 0}; for (int k = 0; k < N; ++k) { if (!a.has_next()) break; Co c = a.next(); ++n; for (int i = 0; i < 9; ++i) if (c.x == X0 + i / 3 && c.y == Y0 + i % 3) ++v[i]; } ENSB(visit_ends, !a.has_next());
#define ALL(W, H) ENSI(number_of_cells, n, (W) * (H)); for (int i = 0; i < 9; ++i) ENSI(each_cell_once, v[i], i / 3 < W && i % 3 < H ? 1 : 0);
"""
def rect(name, x, y, w, h):
    return r"""DRV drv_area_%s(double b, double t, double l, double r) { const int X0 = %d, Y0 = %d; IN(l, %d) IN(r, %d) IN(b, %d) IN(t, %d) REQ(width, l < r); REQ(height, b < t); RSG g(40, 40, 2); VISIT(11, g, LightWeightRectangle(b, t, l, r)) ALL(%d, %d) }
DRV drv_inner_%s(double b, double t, double l, double r) { const int X0 = %d, Y0 = %d; IN(l, %d) IN(r, %d) IN(b, %d) IN(t, %d) REQ(width, l < r); REQ(height, b < t); RSG g(40, 40, 2); VISIT(11, g, LightWeightRectangle(b, t, l, r), false) ALL(%d, %d) }
""" % ((name, x, y, x, x + w - 1, y, y + h - 1, w, h) * 2)
RECT2 = r"""
DRV drv_point(double x, double y) { const int X0 = -1, Y0 = 1; IN(x, -1) IN(y, 1) RSG g(40, 40, 2); VISIT(3, g, LightWeightRectangle(Point2D{x, y})) ALL(1, 1) }
DRV drv_aligned() { const int X0 = -2, Y0 = 1; RSG g(40, 40, 2); VISIT(3, g, g.world_cell_bounds({-2, 1}), false) ALL(1, 1) }
DRV drv_aligned2() { const int X0 = 3, Y0 = -1; RSG g(40, 40, 0.5); VISIT(3, g, g.world_cell_bounds({3, -1}), false) ALL(1, 1) }
DRV drv_border() { const int X0 = -2, Y0 = 1; RSG g(40, 40, 2); VISIT(6, g, g.world_cell_bounds({-2, 1})) ALL(2, 2) }
DRV drv_everything() { const int X0 = -1, Y0 = -1; RSG g(3, 2, 2); VISIT(8, g, LightWeightRectangle(-RSG::Dbl_Inf, RSG::Dbl_Inf, -RSG::Dbl_Inf, RSG::Dbl_Inf)) ALL(3, 2) }
"""
VECT = r"""
DRV drv_vector(double b, double t, double l, double r) { IN(l, 0) IN(r, 1) IN(b, -1) IN(t, 0) RSG g(40, 40, 2); auto v = GridRasterizedRectangle(g, LightWeightRectangle(b, t, l, r)).to_vector(); ENSI(cells_listed, v.size(), 4); int sx = 0, sy = 0, sxy = 0; for (int i = 0; i < 4; ++i) { sx += v[i].x; sy += v[i].y; sxy += v[i].x * v[i].y; } ENSI(columns_listed, sx, 2); ENSI(rows_listed, sy, -2); ENSI(cells_listed_once, sxy, -1); }
"""
def line(k, dx, dy):
    n = max(abs(dx), abs(dy)) + 1
    return r"""DRV drv_line_%d(int x, int y) { REQ(x_low, x > -1000); REQ(x_high, x < 1000); REQ(y_low, y > -1000); REQ(y_high, y < 1000); std::vector<Co> v = DiscreteSegment2D(Co{x, y}, Co{x + (%d), y + (%d)}); ENSI(points_of_a_line, v.size(), %d); ENSI(first_x, v[0].x, x); ENSI(first_y, v[0].y, y); ENSI(last_x, v[%d].x, x + (%d)); ENSI(last_y, v[%d].y, y + (%d));
  for (int i = 0; i + 1 < %d; ++i) { int ax = v[i + 1].x - v[i].x, ay = v[i + 1].y - v[i].y; ENSB(neighbouring_points, ax >= -1 && ax <= 1 && ay >= -1 && ay <= 1 && (ax || ay)); }
  for (int i = 0; i < %d; ++i) { int e = (v[i].x - x) * (%d) - (v[i].y - y) * (%d); ENSB(close_to_the_line, 2 * e <= %d && 2 * e >= -%d); } }
""" % (k, dx, dy, n, n - 1, dx, n - 1, dy, n, n, dy, dx, n - 1, n - 1)
def main():
    r = Report('C17', RULE, 20); r.asserts = True
    def go(D, site, cfg=''):
        m = compile_module(D, pre_cfg=cfg, dump='/tmp/p/c17.ll' if os.environ.get('DBG') else None)
        contracts(r, m, site)
    R = ''
    U, D_, L, Q = (0, 1), (0, -1), (-1, 0), (1, 0)
    R += route('same', (1, -2), [])
    done = set()
    def paths(dx, dy):
        if not dx and not dy: yield []; return
        if dx:
            s = 1 if dx > 0 else -1
            for p in paths(dx - s, dy): yield [(s, 0)] + p
        if dy:
            s = 1 if dy > 0 else -1
            for p in paths(dx, dy - s): yield [(0, s)] + p
    nm = {(1, 0): 'r', (-1, 0): 'l', (0, 1): 'u', (0, -1): 'd'}
    for dx in (-2, -1, 0, 1, 2):
        for dy in (-2, -1, 0, 1, 2):
            if not dx and not dy or abs(dx) + abs(dy) > 3: continue
            for p in paths(dx, dy): R += route(''.join(nm[q] for q in p), ((-1, 0), (0, -2), (2, 1), (-3, -1))[(dx + 2 * dy) % 4], p)
    go(models(6) + PRE + R + TIE, 'cells of a segment', 'replace drvr_eq ^are_equal\\(double, double\\)$\npeel 6')
    Q = PRE + RECT
    for k, (x, y, w, h) in enumerate(((0, 0, 1, 1), (-2, 1, 2, 1), (1, -3, 1, 2), (-1, -1, 2, 2), (2, 0, 3, 2), (-4, 3, 2, 3))): Q += rect(str(k), x, y, w, h)
    go(models(8) + Q + RECT2, 'cells of an area', 'peel 12')
    go('#define FIXEDSWITCH\n' + models(5) + PRE + VECT, 'cells of an area', 'peel 6')
    L = PRE; k = 0
    for dx in range(-4, 5):
        for dy in range(-4, 5):
            if (dx + 3 * dy) % 2 == 0 or max(abs(dx), abs(dy)) <= 2: L += line(k, dx, dy); k += 1
    go(models(8) + L, 'discrete line')
    return r.finish()
