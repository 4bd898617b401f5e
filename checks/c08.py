from core import *
RULE = ('The coordinate conversions of the grid are inlined and their value graphs compared with the geometry: a point lies in the cell whose index is the floor of coordinate over cell size, the centre and the borders of a cell are the matching multiples of the cell size '
        '(so neighbouring cells share a border and the centre of a cell maps back to it), external and internal coordinates differ by the origin, and a cell belongs to the map exactly when its internal coordinates lie inside width and height.')
INC = r'''
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
'''
def main():
    r = Report('C08', RULE, 20)
    D = models(8) + INC + 'typedef RegularSquaresGrid RSG; typedef RSG::Coord Co;\n' + force('RegularSquaresGrid') + r'''
DRV drv_w2c(const RSG &g, double x, double y) { REQ(finite, x != RSG::Dbl_Inf && y != RSG::Dbl_Inf); Co c = g.world_to_cell(x, y); double s = g.scale();
  ENSI(cell_column_of_point, c.x, (int)std::floor(x / s)); ENSI(cell_row_of_point, c.y, (int)std::floor(y / s)); }
DRV drv_w2p(const RSG &g, const Point2D &p) { REQ(finite, p.x != RSG::Dbl_Inf && p.y != RSG::Dbl_Inf); Co c = g.world_to_cell(p), d = g.world_to_cell(p.x, p.y); ENSI(point_and_coordinates_agree_x, c.x, d.x); ENSI(point_and_coordinates_agree_y, c.y, d.y); }
DRV drv_w2s(const RSG &g, double x, double y) { REQ(finite, x != RSG::Dbl_Inf && y != RSG::Dbl_Inf); Co c = g.world_to_cell(x, y, g.scale()), d = g.world_to_cell(x, y); ENSI(explicit_scale_agrees_x, c.x, d.x); ENSI(explicit_scale_agrees_y, c.y, d.y); }
DRV drv_w2s2(const RSG &g, double x, double y, double s) { REQ(finite, x != RSG::Dbl_Inf && y != RSG::Dbl_Inf); Co c = g.world_to_cell(x, y, s); ENSI(explicit_scale_used_x, c.x, (int)std::floor(x / s)); ENSI(explicit_scale_used_y, c.y, (int)std::floor(y / s)); }
DRV drv_c2w(const RSG &g, const Co &c) { Point2D p = g.cell_to_world(c); ENS(centre_x, p.x, (c.x + 0.5) * g.scale()); ENS(centre_y, p.y, (c.y + 0.5) * g.scale()); }
DRV drv_bnd(const RSG &g, const Co &c) { REQ(finite_scale, g.scale() != RSG::Dbl_Inf); Rectangle b = g.world_cell_bounds(c); double s = g.scale();
  ENS(left_border, b.left(), c.x * s); ENS(right_border, b.right(), (c.x + 1) * s); ENS(bottom_border, b.bot(), c.y * s); ENS(top_border, b.top(), (c.y + 1) * s); }
DRV drv_bndi(const RSG &g, const Co &c) { REQ(infinite_scale, g.scale() == RSG::Dbl_Inf); Rectangle b = g.world_cell_bounds(c);
  ENSB(infinite_left, b.left() == -RSG::Dbl_Inf); ENSB(infinite_right, b.right() == RSG::Dbl_Inf); ENSB(infinite_bottom, b.bot() == -RSG::Dbl_Inf); ENSB(infinite_top, b.top() == RSG::Dbl_Inf); }
DRV drv_org(const RSG &g) { Co o = g.origin(); ENSI(origin_in_the_middle_x, o.x, g.width() / 2); ENSI(origin_in_the_middle_y, o.y, g.height() / 2); }
DRV drv_i2e(const RSG &g, const Co &c) { Co e = g.internal2external(c); ENSI(external_x, e.x, c.x - g.origin().x); ENSI(external_y, e.y, c.y - g.origin().y); }
DRV drv_has(const RSG &g, const Co &c) { Co o = g.origin(); ENSI(membership, g.has_cell(c), 0 <= c.x + o.x && c.x + o.x < g.width() && 0 <= c.y + o.y && c.y + o.y < g.height()); }
DRV drv_ctor(int w, int h, double s) { RSG g(w, h, s); ENSI(width_kept, g.width(), w); ENSI(height_kept, g.height(), h); ENS(scale_kept, g.scale(), s); }
DRV drv_dp0() { Co z, o(7), n(-3, 5); ENSI(default_point_is_zero_x, z.x, 0); ENSI(default_point_is_zero_y, z.y, 0); ENSI(single_coordinate_is_x, o.x, 7); ENSI(missing_y_is_zero, o.y, 0); ENSI(point_keeps_x, n.x, -3); ENSI(point_keeps_y, n.y, 5); }
DRV drv_dp(const Co &a, const Co &b) { Co s = a + b, d = a - b, n = -a, t = a; t += b; ENSI(sum_x, s.x, a.x + b.x); ENSI(sum_y, s.y, a.y + b.y); ENSI(difference_x, d.x, a.x - b.x); ENSI(difference_y, d.y, a.y - b.y);
  ENSI(negation_x, n.x, -a.x); ENSI(negation_y, n.y, -a.y); ENSI(accumulated_x, t.x, a.x + b.x); ENSI(accumulated_y, t.y, a.y + b.y);
  ENSI(equality, a == b, a.x == b.x && a.y == b.y); ENSI(inequality, a != b, !(a.x == b.x && a.y == b.y)); double dx = a.x - b.x, dy = a.y - b.y; ENS(squared_distance, a.dist_sq(b), dx * dx + dy * dy); }
'''
    fs = re.findall(r'DRV (drv_\w+)\(const RSG', D)
    m = compile_module(D, exact=[(f, 0, 'RegularSquaresGrid') for f in fs])
    for f in sorted(m.fns):
        if f.startswith('drv_'): Contract(r, m, f, site={'drv_dp': 'DiscretePoint2D', 'drv_dp0': 'DiscretePoint2D'}.get(f, 'RegularSquaresGrid')).run()
    return r.finish()
