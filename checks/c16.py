from core import *
RULE = ('Rectangle, segment and ray operations are inlined with symbolic coordinates; every result is compared with the plane-geometry formula (bounds, areas, halves, intersections as maxima of lower and minima of upper bounds, crossing points of lines), comparisons being judged away from the tolerance band of the floating-point helpers.')
PRE = r'''
#include <vector>
#include "core/geometry_utils.h"
#define RR double b, double t, double l, double r
#define OK REQ(vertical_order, t >= b); REQ(horizontal_order, r >= l);
#define LIM(v) REQ(lim_##v##_lo, v >= -1000); REQ(lim_##v##_hi, v <= 1000);
#define FAR(x, y) REQ(off_tolerance_##x##_##y, x - y > 0.01 || y - x > 0.01);
#define SAME(NAME, R, B, T, L, Q) ENS(NAME##_bottom, (R).bot(), B); ENS(NAME##_top, (R).top(), T); ENS(NAME##_left, (R).left(), L); ENS(NAME##_right, (R).right(), Q);
DRV drv_basic(RR) { OK LightWeightRectangle a(b, t, l, r); SAME(bounds, a, b, t, l, r) ENS(vertical_side, a.vside_len(), t - b); ENS(horizontal_side, a.hside_len(), r - l); ENS(side, a.side(), t - b); ENS(area, a.area(), (t - b) * (r - l)); Point2D c = a.center(); ENS(center_x, c.x, (l + r) / 2); ENS(center_y, c.y, (b + t) / 2);
  ENSB(square, a.is_square() == (t - b == r - l)); ENSB(line, a.is_line() == ((t == b) != (r == l))); ENSB(point, a.is_point() == (t == b && r == l)); LightWeightRectangle p(Point2D{l, b}); SAME(point_rectangle, p, b, b, l, l) LightWeightRectangle z; SAME(default_rectangle, z, 0, 0, 0, 0) }
DRV drv_corners(RR) { OK LightWeightRectangle a(b, t, l, r); auto c = a.corners(); ENSI(four_corners, c.size(), 4); double sx = 0, sy = 0, sxy = 0; for (int i = 0; i < 4; ++i) { sx += c[i].x; sy += c[i].y; sxy += c[i].x * c[i].y; } ENS(corners_x, sx, 2 * l + 2 * r); ENS(corners_y, sy, 2 * b + 2 * t); ENS(corners_combined, sxy, (l + r) * (b + t));
  bool edge = true; int n[4] = {0, 0, 0, 0}; for (int i = 0; i < 4; ++i) { if (c[i].x != l && c[i].x != r) edge = false; if (c[i].y != b && c[i].y != t) edge = false; } ENSB(corners_on_edges, edge); }
DRV drv_move(RR, double x, double y) { OK LightWeightRectangle a(b, t, l, r); auto m = a.move_center(Point2D{x, y}); SAME(moved, m, y - (t - b) / 2, y + (t - b) / 2, x - (r - l) / 2, x + (r - l) / 2) SAME(original_kept, a, b, t, l, r) }
DRV drv_shrink(RR, double f) { OK REQ(factor, f > 0); LightWeightRectangle a(b, t, l, r); auto m = a.shrink(f); ENS(shrunk_height, (m.top() - m.bot()) * f, t - b); ENS(shrunk_width, (m.right() - m.left()) * f, r - l); ENS(shrunk_center_x, m.right() + m.left(), l + r); ENS(shrunk_center_y, m.top() + m.bot(), b + t); }
DRV drv_split(RR) { OK LightWeightRectangle a(b, t, l, r); auto v = a.split_vert(); ENSI(two_vertical_halves, v.size(), 2); SAME(lower_half, v[0], b, (b + t) / 2, l, r) SAME(upper_half, v[1], (b + t) / 2, t, l, r)
  auto h = a.split_horz(); ENSI(two_horizontal_halves, h.size(), 2); SAME(left_half, h[0], b, t, l, (l + r) / 2) SAME(right_half, h[1], b, t, (l + r) / 2, r)
  auto q = a.split4_evenly(); ENSI(four_quarters, q.size(), 4); SAME(left_bottom, q[0], b, (b + t) / 2, l, (l + r) / 2) SAME(left_top, q[1], (b + t) / 2, t, l, (l + r) / 2) SAME(right_bottom, q[2], b, (b + t) / 2, (l + r) / 2, r) SAME(right_top, q[3], (b + t) / 2, t, (l + r) / 2, r) }
DRV drv_contains(RR, double x, double y) { OK LIM(b) LIM(t) LIM(l) LIM(r) LIM(x) LIM(y) FAR(x, l) FAR(x, r) FAR(y, b) FAR(y, t) LightWeightRectangle a(b, t, l, r); bool in = l < x && x < r && b < y && y < t; ENSB(contains_point, a.contains(Point2D{x, y}) == in); ENSB(contains_coordinates, a.contains(x, y) == in); }
DRV drv_contains_edge(RR) { OK LightWeightRectangle a(b, t, l, r); ENSB(contains_own_left_bottom, a.contains(l, b)); ENSB(contains_own_right_top, a.contains(r, t)); ENSB(contains_own_left_top, a.contains(Point2D{l, t})); ENSB(contains_own_right_bottom, a.contains(Point2D{r, b})); }
#define RR2 RR, double B, double T, double L, double R
#define OK2 OK REQ(second_vertical_order, T >= B); REQ(second_horizontal_order, R >= L);
DRV drv_intersect(RR2) { OK2 LIM(b) LIM(t) LIM(l) LIM(r) LIM(B) LIM(T) LIM(L) LIM(R) LightWeightRectangle a(b, t, l, r), c(B, T, L, R); double ib = b < B ? B : b, it = t < T ? t : T, il = l < L ? L : l, ir = r < R ? r : R; REQ(vertical_margin, it - ib > 0.01 || it - ib < -0.01); REQ(horizontal_margin, ir - il > 0.01 || ir - il < -0.01);
  auto i = a.intersect(c); if (it > ib && ir > il) { SAME(intersection, i, ib, it, il, ir) } else { ENS(no_common_area, (i.top() - i.bot()) * (i.right() - i.left()), 0); } }
DRV drv_overlap(RR2) { OK2 LIM(b) LIM(t) LIM(l) LIM(r) LIM(B) LIM(T) LIM(L) LIM(R) REQ(has_height, t - b > 0.01); REQ(has_width, r - l > 0.01); LightWeightRectangle a(b, t, l, r), c(B, T, L, R); double ib = b < B ? B : b, it = t < T ? t : T, il = l < L ? L : l, ir = r < R ? r : R; REQ(vertical_margin, it - ib > 0.01 || it - ib < -0.01); REQ(horizontal_margin, ir - il > 0.01 || ir - il < -0.01);
  double o = a.overlap(c); if (it > ib && ir > il) { ENS(overlapped_share, o * ((t - b) * (r - l)), (it - ib) * (ir - il)); } else { ENS(no_overlap, o, 0); } }
DRV drv_point_overlap(double x, double y, double B, double T, double L, double R) { REQ(h, T - B > 0.01); REQ(w, R - L > 0.01); LIM(x) LIM(y) LIM(B) LIM(T) LIM(L) LIM(R) FAR(x, L) FAR(x, R) FAR(y, B) FAR(y, T) LightWeightRectangle p(Point2D{x, y}), c(B, T, L, R); ENS(overlap_of_a_point, p.overlap(c), L < x && x < R && B < y && y < T ? 1 : 0); ENS(a_point_overlaps_itself, p.overlap(p), 1); ENS(area_overlapped_by_a_point, c.overlap(p), 0); }
DRV drv_points(double x, double y, double X, double Y) { LIM(x) LIM(y) LIM(X) LIM(Y) FAR(x, X) LightWeightRectangle p(Point2D{x, y}), q(Point2D{X, Y}); ENS(different_points_do_not_overlap, p.overlap(q), 0); ENSB(different_points_are_not_equal, !(p == q)); ENSB(same_points_are_equal, p == p); ENSB(points_unequal, !(Point2D{x, y} == Point2D{X, Y})); ENSB(points_equal, (Point2D{x, y} == Point2D{x, y})); Point2D a{x, y}, c{X, Y}; ENSB(points_unequal_in_y, !(Point2D{y, x} == Point2D{Y, X})); }
DRV drv_equality(RR, double d) { OK LIM(b) LIM(t) LIM(l) LIM(r) REQ(shift, d > 0.01); LightWeightRectangle a(b, t, l, r); ENSB(equal_to_itself, (a == LightWeightRectangle{b, t, l, r})); ENSB(bottom_matters, !(a == LightWeightRectangle{b - d, t, l, r})); ENSB(top_matters, !(a == LightWeightRectangle{b, t + d, l, r})); ENSB(left_matters, !(a == LightWeightRectangle{b, t, l - d, r})); ENSB(right_matters, !(a == LightWeightRectangle{b, t, l, r + d})); }
DRV drv_vectors(double x, double y, double X, double Y, double k) { Point2D a{x, y}, c{X, Y}; ENS(distance, a.dist_sq(c), (x - X) * (x - X) + (y - Y) * (y - Y)); Point2D s = a + c, d = a - c, m = a * k, n = k * a; ENS(sum_x, s.x, x + X); ENS(sum_y, s.y, y + Y); ENS(difference_x, d.x, x - X); ENS(difference_y, d.y, y - Y); ENS(scaled_x, m.x, k * x); ENS(scaled_y, m.y, k * y); ENS(scaled_left_x, n.x, k * x); ENS(scaled_left_y, n.y, k * y); }
'''
SEG = PRE[:PRE.index('DRV drv_basic')] + r'''
DRV drv_segment(double x, double y, double X, double Y) { LIM(x) LIM(y) LIM(X) LIM(Y) FAR(x, X) FAR(y, Y) Segment2D s{{x, y}, {X, Y}}; ENS(begin_x, s.beg().x, x); ENS(begin_y, s.beg().y, y); ENS(end_x, s.end().x, X); ENS(end_y, s.end().y, Y); ENSB(slanted_is_not_horizontal, !s.is_horiz()); ENSB(slanted_is_not_vertical, !s.is_vert()); ENSB(slanted_is_no_point, !s.is_point()); ENS(length, s.length_sq(), (x - X) * (x - X) + (y - Y) * (y - Y)); ENSB(segments_are_valid, bool(s)); ENSB(invalid_segment, !bool(Segment2D::invalid()));
  Segment2D h{{x, y}, {X, y}}, v{{x, y}, {x, Y}}, p{{x, y}, {x, y}}; ENSB(horizontal, h.is_horiz() && !h.is_vert() && !h.is_point()); ENSB(vertical, v.is_vert() && !v.is_horiz() && !v.is_point()); ENSB(point_segment, p.is_point() && p.is_horiz() && p.is_vert()); }
DRV drv_on_horizontal(double x, double y, double X, double px, double py) { LIM(x) LIM(y) LIM(X) LIM(px) LIM(py) REQ(order, X - x > 0.01); FAR(px, x) FAR(px, X) FAR(py, y) Segment2D h{{x, y}, {X, y}}; ENSB(on_a_horizontal_segment, h.contains(Point2D{px, y}) == (x < px && px < X)); ENSB(off_a_horizontal_segment, !h.contains(Point2D{px, py})); ENSB(horizontal_ends, h.contains(Point2D{x, y}) && h.contains(Point2D{X, y})); }
DRV drv_on_vertical(double x, double y, double Y, double px, double py) { LIM(x) LIM(y) LIM(Y) LIM(px) LIM(py) REQ(order, Y - y > 0.01); FAR(py, y) FAR(py, Y) FAR(px, x) Segment2D v{{x, y}, {x, Y}}; ENSB(on_a_vertical_segment, v.contains(Point2D{x, py}) == (y < py && py < Y)); ENSB(off_a_vertical_segment, !v.contains(Point2D{px, py})); ENSB(vertical_ends, v.contains(Point2D{x, y}) && v.contains(Point2D{x, Y})); }
DRV drv_span(double x, double y, double X, double Y, double px, double py) { LIM(x) LIM(y) LIM(X) LIM(Y) LIM(px) LIM(py) FAR(px, x) FAR(px, X) FAR(py, y) FAR(py, Y) FAR(x, X) FAR(y, Y) Segment2D s{{x, y}, {X, Y}}; bool in = ((x < px) != (X < px)) && ((y < py) != (Y < py)); ENSB(point_within_the_span, s.contains_intersection(Point2D{px, py}) == in); }
#define MKRAY REQ(direction_y, dy > 0.01 || dy < -0.01); REQ(direction_x, dx > 0.01 || dx < -0.01); LIM(dx) LIM(dy) Ray a{x, dx, y, dy}; std::vector<Intersection> v;
DRV drv_ray_h(double x, double dx, double y, double dy, double l, double r, double h) { LIM(l) LIM(r) LIM(h) REQ(order, r - l > 0.01); MKRAY double k = (h - y) / dy, c = x + k * dx; bool hit = l <= c && c <= r; a.intersect(Segment2D{{l, h}, {r, h}}, Intersection::Location::Top, v); ENSI(horizontal_hits, v.size(), hit); if (hit) { ENS(horizontal_hit_x, v[0].x, c); ENS(horizontal_hit_y, v[0].y, h); ENSB(horizontal_hit_location, v[0].location == Intersection::Location::Top); } }
DRV drv_ray_v(double x, double dx, double y, double dy, double b, double t, double h) { LIM(b) LIM(t) LIM(h) REQ(order, t - b > 0.01); MKRAY double k = (h - x) / dx, c = y + k * dy; bool hit = b <= c && c <= t; a.intersect(Segment2D{{h, b}, {h, t}}, Intersection::Location::Right, v); ENSI(vertical_hits, v.size(), hit); if (hit) { ENS(vertical_hit_x, v[0].x, h); ENS(vertical_hit_y, v[0].y, c); ENSB(vertical_hit_location, v[0].location == Intersection::Location::Right); } }
DRV drv_parallel(double x, double d, double y, double l, double r, double h) { LIM(l) LIM(r) LIM(h) REQ(order, r - l > 0.01); std::vector<Intersection> v; Ray a{x, d, y, 0}; a.intersect(Segment2D{{l, h}, {r, h}}, Intersection::Location::Top, v); ENSI(parallel_to_horizontal, v.size(), 0); Ray c{x, 0, y, d}; c.intersect(Segment2D{{h, l}, {h, r}}, Intersection::Location::Top, v); ENSI(parallel_to_vertical, v.size(), 0); }
DRV drv_ray_of_segment(double x, double y, double X, double Y, double l, double r, double h) { LIM(l) LIM(r) LIM(h) LIM(x) LIM(y) LIM(X) LIM(Y) REQ(order, r - l > 0.01); REQ(rising, Y - y > 0.01); std::vector<Intersection> v; Ray a{Segment2D{{x, y}, {X, Y}}}; double k = (h - y) / (Y - y), c = x + k * (X - x); bool hit = l <= c && c <= r; a.intersect(Segment2D{{l, h}, {r, h}}, Intersection::Location::Bot, v); ENSI(segment_ray_hits, v.size(), hit); if (hit) { ENS(segment_ray_hit_x, v[0].x, c); } }
DRV drv_side(double x) { using L = Intersection::Location; ENSB(horizontal_sides, (Intersection{L::Bot, x, x}).is_horiz() && (Intersection{L::Top, x, x}).is_horiz()); ENSB(vertical_sides, !(Intersection{L::Left, x, x}).is_horiz() && !(Intersection{L::Right, x, x}).is_horiz()); }
'''
BOX = PRE[:PRE.index('DRV drv_basic')] + r'''
#define CROSS(NAME, X0, Y0, DX, DY, HX, HY, HL, KX, KY, KL) 
typedef Intersection::Location IL;
DRV drv_box0() { Point2D o, q(7); ENS(default_point_x, o.x, 0); ENS(default_point_y, o.y, 0); ENS(lone_coordinate_is_x, q.x, 7); ENS(missing_coordinate_is_zero, q.y, 0); Rectangle z; LightWeightRectangle w; SAME(default_rectangle, z, 0, 0, 0, 0) SAME(default_light_rectangle, w, 0, 0, 0, 0) }
DRV drv_box(RR) { OK Rectangle a(b, t, l, r); SAME(rectangle_bounds, a, b, t, l, r) Rectangle c(a); SAME(copied_bounds, c, b, t, l, r) }
// a ray through the bottom and the top side, away from the corners
#define TWO(NAME, X0, Y0, L0, X1, Y1, L1) auto v = a.find_intersections(Ray{x, dx, y, dy}); ENSI(NAME##_crossings, v.size(), 2); ENS(NAME##_first_x, v[0].x, X0); ENS(NAME##_first_y, v[0].y, Y0); ENSB(NAME##_first_side, v[0].location == L0); ENS(NAME##_second_x, v[1].x, X1); ENS(NAME##_second_y, v[1].y, Y1); ENSB(NAME##_second_side, v[1].location == L1);
#define AT double x, double dx, double y, double dy
#define UPDOWN double p = x - y / dy * dx, q = x + (4 - y) / dy * dx; REQ(enters, p > 0.01); REQ(enters_left_of, p < 7.99); REQ(leaves, q > 0.01); REQ(leaves_left_of, q < 7.99);
#define ACROSS double p = y - x / dx * dy, q = y + (8 - x) / dx * dy; REQ(enters, p > 0.01); REQ(enters_below, p < 3.99); REQ(leaves, q > 0.01); REQ(leaves_below, q < 3.99);
DRV drv_up_right(AT) { REQ(up, dy > 0.01); REQ(right, dx > 0.01); Rectangle a(0, 4, 0, 8); UPDOWN TWO(up_right, q, 4, IL::Top, p, 0, IL::Bot) }
DRV drv_up_left(AT) { REQ(up, dy > 0.01); REQ(left, dx < -0.01); Rectangle a(0, 4, 0, 8); UPDOWN TWO(up_left, q, 4, IL::Top, p, 0, IL::Bot) }
DRV drv_right_up(AT) { REQ(up, dy > 0.01); REQ(right, dx > 0.01); Rectangle a(0, 4, 0, 8); ACROSS TWO(right_up, 0, p, IL::Left, 8, q, IL::Right) }
DRV drv_left_up(AT) { REQ(up, dy > 0.01); REQ(left, dx < -0.01); Rectangle a(0, 4, 0, 8); ACROSS TWO(left_up, 0, p, IL::Left, 8, q, IL::Right) }
DRV drv_top_right(AT) { REQ(down, dy < -0.01); REQ(right, dx > 0.01); Rectangle a(0, 4, 0, 8); double p = x + (4 - y) / dy * dx, q = y + (8 - x) / dx * dy; REQ(enters, p > 0.01); REQ(enters_left_of, p < 7.99); REQ(leaves, q > 0.01); REQ(leaves_below, q < 3.99); TWO(top_right, p, 4, IL::Top, 8, q, IL::Right) }
DRV drv_left_bottom(AT) { REQ(down, dy < -0.01); REQ(right, dx > 0.01); Rectangle a(0, 4, 0, 8); double p = x - y / dy * dx, q = y - x / dx * dy; REQ(leaves, p > 0.01); REQ(leaves_left_of, p < 7.99); REQ(enters, q > 0.01); REQ(enters_below, q < 3.99); TWO(left_bottom, 0, q, IL::Left, p, 0, IL::Bot) }
DRV drv_vertical_ray(RR, double x, double y, double d) { LIM(b) LIM(t) LIM(l) LIM(r) LIM(x) LIM(y) LIM(d) REQ(height, t - b > 0.01); REQ(from_left, x - l > 0.01); REQ(from_right, r - x > 0.01); REQ(dir, d > 0.01); Rectangle a(b, t, l, r); auto v = a.find_intersections(Ray{x, 0, y, d}); ENSI(vertical_ray_crosses_twice, v.size(), 2); ENS(vertical_ray_top_x, v[0].x, x); ENS(vertical_ray_top_y, v[0].y, t); ENS(vertical_ray_bottom_x, v[1].x, x); ENS(vertical_ray_bottom_y, v[1].y, b); }
DRV drv_horizontal_ray(RR, double x, double y, double d) { LIM(b) LIM(t) LIM(l) LIM(r) LIM(x) LIM(y) LIM(d) REQ(width, r - l > 0.01); REQ(from_bottom, y - b > 0.01); REQ(from_top, t - y > 0.01); REQ(dir, d > 0.01); Rectangle a(b, t, l, r); auto v = a.find_intersections(Ray{x, d, y, 0}); ENSI(horizontal_ray_crosses_twice, v.size(), 2); ENS(horizontal_ray_left_x, v[0].x, l); ENS(horizontal_ray_left_y, v[0].y, y); ENS(horizontal_ray_right_x, v[1].x, r); ENS(horizontal_ray_right_y, v[1].y, y); }
DRV drv_miss(RR, double x, double y, double d) { LIM(b) LIM(t) LIM(l) LIM(r) LIM(x) LIM(y) LIM(d) REQ(width, r - l > 0.01); REQ(height, t - b > 0.01); REQ(beside, x - r > 0.01); REQ(dir, d > 0.01); Rectangle a(b, t, l, r); auto v = a.find_intersections(Ray{x, 0, y, d}); ENSI(ray_beside_the_rectangle, v.size(), 0); }
DRV drv_diagonal(double h, double d) { LIM(h) LIM(d) REQ(size, h > 0.01); REQ(dir, d > 0.01); Rectangle a(0, h, 0, h); auto v = a.find_intersections(Ray{0, d, 0, d}); ENSI(diagonal_crosses_two_corners, v.size(), 2); ENS(diagonal_first_x, v[0].x, h); ENS(diagonal_first_y, v[0].y, h); ENS(diagonal_second_x, v[1].x, 0); ENS(diagonal_second_y, v[1].y, 0); }
#define CLIP LIM(b) LIM(t) LIM(l) LIM(r) LIM(x) LIM(y) LIM(Y) REQ(height, t - b > 0.05); REQ(from_left, x - l > 0.01); REQ(from_right, r - x > 0.01); REQ(len, Y - y > 0.01); Rectangle a(b, t, l, r);
#define CUT auto v = a.find_intersections(Segment2D{{x, y}, {x, Y}});
DRV drv_clip_both(RR, double x, double y, double Y) { CLIP REQ(from_below, b - y > 0.01); REQ(to_above, Y - t > 0.01); CUT ENSI(crossings_of_a_long_segment, v.size(), 2); ENS(long_segment_top_y, v[0].y, t); ENS(long_segment_top_x, v[0].x, x); ENS(long_segment_bottom_y, v[1].y, b); ENS(long_segment_bottom_x, v[1].x, x); }
DRV drv_clip_top(RR, double x, double y, double Y) { CLIP REQ(from_inside, y - b > 0.01 && t - y > 0.01); REQ(to_above, Y - t > 0.01); CUT ENSI(crossings_of_a_leaving_segment, v.size(), 1); ENS(leaving_top_y, v[0].y, t); ENS(leaving_top_x, v[0].x, x); ENSB(leaving_side, v[0].location == IL::Top); }
DRV drv_clip_bot(RR, double x, double y, double Y) { CLIP REQ(from_below, b - y > 0.01); REQ(to_inside, Y - b > 0.01 && t - Y > 0.01); CUT ENSI(crossings_of_an_entering_segment, v.size(), 1); ENS(entering_bottom_y, v[0].y, b); ENS(entering_bottom_x, v[0].x, x); ENSB(entering_side, v[0].location == IL::Bot); }
DRV drv_clip_none(RR, double x, double y, double Y) { CLIP REQ(from_inside, y - b > 0.01); REQ(to_inside, t - Y > 0.01); CUT ENSI(crossings_of_an_inner_segment, v.size(), 0); }
DRV drv_clip_above(RR, double x, double y, double Y) { CLIP REQ(above, y - t > 0.01); CUT ENSI(crossings_of_an_outer_segment, v.size(), 0); }
DRV drv_clip_down(RR, double x, double y, double Y) { CLIP REQ(from_inside, y - b > 0.01 && t - y > 0.01); REQ(to_above, Y - t > 0.01); auto v = a.find_intersections(Segment2D{{x, Y}, {x, y}}); ENSI(crossings_of_a_reversed_segment, v.size(), 1); ENS(reversed_top_y, v[0].y, t); }
DRV drv_miss_left(RR, double x, double y, double d) { LIM(b) LIM(t) LIM(l) LIM(r) LIM(x) LIM(y) LIM(d) REQ(width, r - l > 0.01); REQ(height, t - b > 0.01); REQ(beside, l - x > 0.01); REQ(dir, d < -0.01); Rectangle a(b, t, l, r); auto v = a.find_intersections(Ray{x, 0, y, d}); ENSI(ray_left_of_the_rectangle, v.size(), 0); }
DRV drv_miss_below(RR, double x, double y, double d) { LIM(b) LIM(t) LIM(l) LIM(r) LIM(x) LIM(y) LIM(d) REQ(width, r - l > 0.01); REQ(height, t - b > 0.01); REQ(beside, b - y > 0.01); REQ(dir, d > 0.01); Rectangle a(b, t, l, r); auto v = a.find_intersections(Ray{x, d, y, 0}); ENSI(ray_below_the_rectangle, v.size(), 0); }
DRV drv_edge(RR, double x, double y) { LIM(b) LIM(t) LIM(l) LIM(r) LIM(x) LIM(y) REQ(height, t - b > 0.05); REQ(width, r - l > 0.05); REQ(inner_x, x - l > 0.01 && r - x > 0.01); REQ(inner_y, y - b > 0.01 && t - y > 0.01); Rectangle a(b, t, l, r); Segment2D e = a.find_containing_edge(Point2D{x, t}), f = a.find_containing_edge(Point2D{x, b}), g = a.find_containing_edge(Point2D{l, y}), h = a.find_containing_edge(Point2D{r, y}), i = a.find_containing_edge(Point2D{x, y});
  ENSB(top_edge_found, bool(e) && e.beg().y == t && e.end().y == t && e.beg().x == l && e.end().x == r); ENSB(bottom_edge_found, bool(f) && f.beg().y == b && f.end().y == b && f.beg().x == l && f.end().x == r); ENSB(left_edge_found, bool(g) && g.beg().x == l && g.end().x == l && g.beg().y == b && g.end().y == t); ENSB(right_edge_found, bool(h) && h.beg().x == r && h.end().x == r && h.beg().y == b && h.end().y == t); ENSB(no_edge_inside, !bool(i)); }
DRV drv_edge_line(RR, double x, double y, double p, double q) { LIM(b) LIM(t) LIM(l) LIM(r) LIM(x) LIM(y) LIM(p) LIM(q) REQ(height, t - b > 0.01); REQ(width, r - l > 0.01); FAR(x, l) FAR(x, r) FAR(y, b) FAR(y, t) FAR(p, q) Rectangle a(b, t, l, r); ENSB(on_the_top_line, a.has_on_edge_line(Segment2D{{p, t}, {q, t}})); ENSB(on_the_bottom_line, a.has_on_edge_line(Segment2D{{p, b}, {q, b}})); ENSB(on_the_left_line, a.has_on_edge_line(Segment2D{{l, p}, {l, q}})); ENSB(on_the_right_line, a.has_on_edge_line(Segment2D{{r, p}, {r, q}})); ENSB(off_the_horizontal_lines, !a.has_on_edge_line(Segment2D{{p, y}, {q, y}})); ENSB(off_the_vertical_lines, !a.has_on_edge_line(Segment2D{{x, p}, {x, q}})); }
'''
NUM = r'''
#include <vector>
#include "core/geometry_utils.h"
#define LIM(v) REQ(lim_##v##_lo, v >= -1000); REQ(lim_##v##_hi, v <= 1000);
DRV drv_equal(double a, double b) { LIM(a) LIM(b) bool e = are_equal(a, b); ENSB(equality_is_symmetric, e == are_equal(b, a)); ENSB(a_number_equals_itself, are_equal(a, a)); if (a - b > 0.001 || b - a > 0.001) { ENSB(different_numbers, !e); } if (a - b < 1e-8 && b - a < 1e-8) { ENSB(nearly_equal_numbers, e); } }
DRV drv_equal_scale(double d) { REQ(some, d > 0.001); REQ(little, d < 0.05); ENSB(small_difference_counts, !are_equal(100, 100 + d) && !are_equal(-100, -100 - d) && !are_equal(0.5, 0.5 - d)); ENSB(tolerance_grows_with_size, are_equal(1e6, 1e6 + d)); ENSB(tolerance_grows_below_zero, are_equal(-1e6, -1e6 - d)); }
DRV drv_equal_eps(double a, double b, double e) { REQ(tolerance, e > 0); bool q = are_equal(a, b, e); ENSB(equality_within_a_tolerance, q == (a - b <= e && b - a <= e)); }
DRV drv_less(double a, double b) { LIM(a) LIM(b) if (b - a > 0.001) { ENSB(smaller_is_less, less(a, b)); ENSB(smaller_is_less_or_equal, less_or_equal(a, b)); ENSB(larger_is_not_less_or_equal, !less_or_equal(b, a)); ENSB(larger_is_not_less, !less(b, a)); } ENSB(equal_is_less_or_equal, less_or_equal(a, a)); }
DRV drv_ordered(double a, double b, double c) { LIM(a) LIM(b) LIM(c) REQ(first_gap, b - a > 0.001 || a - b > 0.001); REQ(second_gap, b - c > 0.001 || c - b > 0.001); ENSB(strict_order, are_strictly_ordered(a, b, c) == (a < b && b < c)); ENSB(order, are_ordered(a, b, c) == (a < b && b < c)); }
DRV drv_ordered_eq(double a, double b) { LIM(a) LIM(b) REQ(gap, b - a > 0.001); ENSB(order_includes_equality, are_ordered(a, a, b) && are_ordered(a, b, b) && are_ordered(a, a, a)); }
DRV drv_bound(double a, double v, double b) { REQ(limits, a <= b); ENS(bounded_value, bound_value(a, v, b), v < a ? a : b < v ? b : v); }
DRV drv_angles(double a) { ENS(degrees_to_radians, deg2rad(a) * 180, a * M_PI); ENS(radians_to_degrees, rad2deg(a) * M_PI, a * 180); }
'''
EXACT = r'''
extern "C" bool drvr_eq(double a, double b) { return a == b; }
extern "C" bool drvr_less(double a, double b) { return a < b; }
'''
SWAP = 'replace drvr_eq ^are_equal\\(double, double\\)$\nreplace drvr_less ^less\\(double, double\\)$'
def main():
    r = Report('C16', RULE, 40); r.asserts = True
    def go(D, site, cfg=''):
        m = compile_module(D, pre_cfg=cfg, dump='/tmp/p/c16.ll' if os.environ.get('DBG') else None)
        contracts(r, m, site)
    go(models(6) + PRE + EXACT, 'rectangles', SWAP)
    go(models(4) + SEG + EXACT, 'segments and rays', SWAP)
    go(models(6) + BOX + EXACT, 'rectangle crossings', SWAP + '\npeel 5')
    go(NUM, 'numeric helpers')
    return r.finish()
