from core import *
RULE = ('The scan generator is inlined with a probe map that lists the cells on a beam, their fullness and where a ray crosses them; the beams cast, the cells looked at and the resulting points are compared with the documented nearest pierced full cell for symbolic poses, fullness values and crossings.')
PRE = r'''
#include <vector>
#include <memory>
#include <cassert>
#include <cmath>
#include "core/math_utils.h"
#include "core/geometry_utils.h"
#include "core/states/sensor_data.h"
#define SLAM_CTOR_CORE_GRID_MAP_H
#define BEAMS 6
typedef std::vector<Point2D> Cross;
// a map is what it answers about: which cells a beam passes, how full they are and where the beam crosses them
struct Bounds { int id; const struct GridMap *m; Cross find_intersections(const Ray &r) const; Cross find_intersections(const Segment2D &r) const { return find_intersections(Ray{r}); } };
struct GridMap { double full[3]; int crossings[3]; Point2D in[3], out[3]; int cells = 0; mutable int beams = 0; mutable double bx[BEAMS], by[BEAMS], ex[BEAMS], ey[BEAMS]; mutable bool right_ray = true; mutable Point2D asked{0, 0}; mutable int at_cell = 0;
  double scale() const { return 0.1; } DiscretePoint2D world_to_cell(const Point2D &p) const { return DiscretePoint2D(at_cell, 0); } DiscretePoint2D world_to_cell(double x, double y) const { return DiscretePoint2D(at_cell, 0); }
  std::vector<DiscretePoint2D> world_to_cells(const Segment2D &s) const { bx[beams] = s.beg().x; by[beams] = s.beg().y; ex[beams] = s.end().x; ey[beams] = s.end().y; ++beams; std::vector<DiscretePoint2D> r; for (int i = 0; i < cells; ++i) r.push_back(DiscretePoint2D(i, 0)); return r; }
  double operator[](const DiscretePoint2D &c) const { return full[c.x]; } double occupancy(const DiscretePoint2D &c) const { return full[c.x]; } Bounds world_cell_bounds(const DiscretePoint2D &c) const { return Bounds{c.x, this}; } };
inline Cross Bounds::find_intersections(const Ray &r) const { m->at_cell = id; const Point2D *w = (const Point2D *)&r; int b = m->beams - 1; if (w[0].x != m->bx[b] || w[0].y != m->by[b]) m->right_ray = false; double gx = w[1].x - (m->ex[b] - m->bx[b]), gy = w[1].y - (m->ey[b] - m->by[b]); if (gx > 1e-6 || gx < -1e-6 || gy > 1e-6 || gy < -1e-6) m->right_ray = false; Cross c; if (m->crossings[id] > 0) c.push_back(m->in[id]); if (m->crossings[id] > 1) c.push_back(m->out[id]); return c; }
#include "utils/data_generation/laser_scan_generator.h"
#define LEN(P, K) std::sqrt(P.dist_sq(Point2D((m.in[K].x + m.out[K].x) / 2, (m.in[K].y + m.out[K].y) / 2)))
#define CELL(K, N) m.full[K] = f##K; m.crossings[K] = N; m.in[K] = Point2D(a##K, b##K); m.out[K] = Point2D(c##K, d##K);
#define CARGS(K) double f##K, double a##K, double b##K, double c##K, double d##K
'''
CFG = 'peelany 30\nfresh'
def drivers():
    L = []; import itertools, math
    # the beams of a sector
    for k, (inc, half, n) in enumerate(((90, 180, 4), (90, 90, 3), (45, 90, 5), (100, 60, 2), (30, 10, 1), (72, 180, 5))):
        d = 'DRV drv_beams_%d(const RobotPose &p, double len) { REQ(len_low, len >= 0.5); REQ(len_high, len <= 100); REQ(off_the_border_x, p.x >= 0.01); REQ(off_the_border_y, p.y <= -0.01); GridMap m; LaserScanGenerator g{LaserScannerParams{len, deg2rad(%d), deg2rad(%d)}}; auto s = g.laser_scan_2D(m, p, 0.5); ENSI(number_of_beams, m.beams, %d); ENSI(empty_map_gives_no_points, s.points().size(), 0); ' % (k, inc, half, n)
        for b in range(n): d += 'ENS(beam_%d_starts_at_the_robot_x, m.bx[%d], p.x); ENS(beam_%d_starts_at_the_robot_y, m.by[%d], p.y); ' % (b, b, b, b)
        d += 'double a = -deg2rad(%d); ' % half
        for b in range(n): d += 'ENS(beam_%d_end_x, m.ex[%d], p.x + len * std::cos(a + p.theta)); ENS(beam_%d_end_y, m.ey[%d], p.y + len * std::sin(a + p.theta)); a += deg2rad(%d); ' % (b, b, b, b, inc)
        L.append(d + '}')
    # the point of a beam
    for k, ns in enumerate(itertools.product((1, 2), repeat=2)):
        d = 'DRV drv_point_%d(const RobotPose &p, double t, CARGS(0), CARGS(1)) { REQ(off_the_border_x, p.x >= 0.01); REQ(off_the_border_y, p.y <= -0.01); GridMap m; m.cells = 2; CELL(0, %d) CELL(1, %d) LaserScanGenerator g{LaserScannerParams{10, deg2rad(30), deg2rad(10)}}; auto s = g.laser_scan_2D(m, p, t); const auto &z = s.points(); ' % (k, ns[0], ns[1])
        d += 'bool h0 = f0 >= t && %d == 2, h1 = f1 >= t && %d == 2; ENSI(a_point_for_a_pierced_full_cell, z.size(), h0 || h1 ? 1 : 0); ' % ns
        d += 'if (h0) { ENS(range_to_the_nearest_cell, z[0].range(), LEN(p.point(), 0)); } else if (h1) { ENS(range_to_the_next_cell, z[0].range(), LEN(p.point(), 1)); } if (h0 || h1) { ENS(angle, z[0].angle(), -deg2rad(10)); ENSI(point_is_occupied, z[0].is_occupied(), 1); ENS(point_counts_fully, z[0].factor(), 1); } ENSB(crossings_with_the_beam, m.right_ray); }'
        L.append(d)
    L.append('DRV drv_default(const RobotPose &p, CARGS(0)) { REQ(off_the_border_x, p.x >= 0.01); REQ(off_the_border_y, p.y <= -0.01); GridMap m; m.cells = 1; CELL(0, 2) m.full[0] = 1; LaserScanGenerator g; auto s = g.laser_scan_2D(m, p); const auto &z = s.points(); ENSI(one_point_per_beam, z.size(), 4); ENS(first_angle, z[0].angle(), -M_PI); ENS(second_angle, z[1].angle(), -M_PI / 2); ENS(third_angle, z[2].angle(), 0); ENS(fourth_angle, z[3].angle(), M_PI / 2); ENS(fourth_range, z[3].range(), LEN(p.point(), 0)); ENSB(crossings_with_the_beam, m.right_ray); ENS(default_reach, m.ex[0], p.x + 15 * std::cos(-M_PI + p.theta)); }')
    L.append('DRV drv_default_full(const RobotPose &p, CARGS(0)) { REQ(off_the_border_x, p.x >= 0.01); REQ(off_the_border_y, p.y <= -0.01); GridMap m; m.cells = 1; CELL(0, 2) m.full[0] = 0.9375; LaserScanGenerator g; auto s = g.laser_scan_2D(m, p); ENSI(full_cells_only, s.points().size(), 0); }')
    L.append('DRV drv_again(const RobotPose &p, CARGS(0)) { REQ(off_the_border_x, p.x >= 0.01); REQ(off_the_border_y, p.y <= -0.01); GridMap m; m.cells = 1; CELL(0, 2) LaserScanGenerator g{LaserScannerParams{10, deg2rad(30), deg2rad(10)}}; auto s = g.laser_scan_2D(m, p, 0.5); auto q = g.laser_scan_2D(m, p, 0.5); ENSI(points_of_this_scan_only, q.points().size(), f0 >= 0.5 ? 1 : 0); ENSB(has_trigonometry, q.trig_provider.get() != nullptr); }')
    L.append('DRV drv_params(double d) { constexpr auto l = to_lsp(7, 270, 1000); ENS(reach, l.max_dist, 7); ENS(step, l.h_angle_inc, 0.27 / 180 * M_PI); ENS(half_sector, l.h_hsector, 135.0 / 180 * M_PI); LaserScannerParams p; ENS(default_reach, p.max_dist, 15); ENS(default_step, p.h_angle_inc, M_PI / 2); ENS(default_half_sector, p.h_hsector, M_PI); }')
    return L
def main():
    r = Report('C29', RULE, 100); r.asserts = True
    families(r, models(cap=8, vec=True) + PRE, drivers(), 'src/utils/data_generation/laser_scan_generator.h:LaserScanGenerator::laser_scan_2D', CFG)
    return r.finish()
