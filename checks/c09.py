from core import *
RULE = ('Pose and scan-point arithmetic is inlined and the value graphs of the results are compared with the plane geometry they stand for: component-wise pose composition, tagged polar/cartesian scan points, and moving a scan point into the world by rotating its direction by the base angle and adding the sensor position.')
INC = '#include "core/states/sensor_data.h"\n'
def main():
    r = Report('C09', RULE, 30); r.asserts = True
    D = INC + force('RawTrigonometryProvider') + r'''
typedef RobotPoseDelta RD; typedef RobotPose RP; typedef ScanPoint2D SP;
#define E3(n, a, X, Y, T) ENS(n##_x, (a).x, X); ENS(n##_y, (a).y, Y); ENS(n##_theta, (a).theta, T)
DRV drv_delta(const RD &a, const RD &b) { RD s = a + b, n = -a, t = a; t += b; E3(sum, s, a.x + b.x, a.y + b.y, a.theta + b.theta); E3(negation, n, -a.x, -a.y, -a.theta); E3(accumulated, t, a.x + b.x, a.y + b.y, a.theta + b.theta);
  RD z; E3(default_zero, z, 0, 0, 0); RD m = a.abs(); E3(absolute, m, std::abs(a.x), std::abs(a.y), std::abs(a.theta)); ENS(squared_distance, a.sq_dist(), a.x * a.x + a.y * a.y); t.reset(); E3(reset, t, 0, 0, 0);
  ENSI(componentwise_smaller, a.is_abs_less(b), std::abs(a.x) < std::abs(b.x) && std::abs(a.y) < std::abs(b.y) && std::abs(a.theta) < std::abs(b.theta)); }
DRV drv_equal(double x, double y, double t, double v) { REQ(sx, x <= 1000 && x >= -1000); REQ(sy, y <= 1000 && y >= -1000); REQ(st, t <= 1000 && t >= -1000); REQ(sv, v <= 1000 && v >= -1000); REQ(far, v > 0.001 || v < -0.001); ENSB(equal_to_itself, RD(x, y, t) == RD(x, y, t)); ENSB(other_shift_along_x_differs, !(RD(x, y, t) == RD(x + v, y, t))); ENSB(other_shift_along_y_differs, !(RD(x, y, t) == RD(x, y + v, t))); ENSB(other_turn_differs, !(RD(x, y, t) == RD(x, y, t + v))); }
DRV drv_delta2(const RD &a) { bool nz = !!a; REQ(zero, a.x == 0 && a.y == 0 && a.theta == 0); ENSB(zero_delta_is_no_movement, !nz); }
DRV drv_delta3(const RD &a) { REQ(moved, std::abs(a.x) > 2e-7 || std::abs(a.y) > 2e-7 || std::abs(a.theta) > 2e-7); ENSB(any_moved_component_counts, !!a); }
DRV drv_delta4(double v) { REQ(moved, v > 2e-7); ENSB(shift_along_x_counts, !!RD(v, 0, 0)); ENSB(shift_along_y_counts, !!RD(0, v, 0)); ENSB(turn_counts, !!RD(0, 0, v)); ENSB(backward_shift_counts, !!RD(-v, 0, 0)); ENSB(right_shift_counts, !!RD(0, -v, 0)); ENSB(right_turn_counts, !!RD(0, 0, -v)); }
DRV drv_pose(const RP &p, const RP &q, const RD &d) { RP s = p + d, t = p, u = p, v(p), w(d), e; t += d; E3(moved, s, p.x + d.x, p.y + d.y, p.theta + d.theta); E3(moved_in_place, t, p.x + d.x, p.y + d.y, p.theta + d.theta);
  RD f = p - q; E3(difference, f, p.x - q.x, p.y - q.y, p.theta - q.theta); u = q; E3(assigned, u, q.x, q.y, q.theta); E3(copied, v, p.x, p.y, p.theta); E3(from_delta, w, d.x, d.y, d.theta); E3(default_pose, e, 0, 0, 0); ENS(point_x, p.point().x, p.x); ENS(point_y, p.point().y, p.y); }
DRV drv_polar(double r, double a, bool o, double f) { SP p = SP::make_polar(r, a, o); ENS(polar_range, p.range(), r); ENS(polar_angle, p.angle(), a); ENS(polar_x, p.x(), r * std::cos(a)); ENS(polar_y, p.y(), r * std::sin(a)); ENSI(occupied_flag, p.is_occupied(), o); ENS(default_factor, p.factor(), 1); p.set_factor(f); ENS(factor_kept, p.factor(), f); ENS(range_after_factor, p.range(), r);
  SP q(r, a, o); ENS(ctor_range, q.range(), r); ENS(ctor_angle, q.angle(), a); ENSI(ctor_flag, q.is_occupied(), o); }
DRV drv_cart(const Point2D &c, bool o) { SP p = SP::make_cartesian(c, o); ENS(cartesian_x, p.x(), c.x); ENS(cartesian_y, p.y(), c.y); ENS(cartesian_range, p.range(), std::sqrt(c.x * c.x + c.y * c.y)); ENS(cartesian_angle, p.angle(), std::atan2(c.y, c.x)); ENSI(cartesian_flag, p.is_occupied(), o); }
DRV drv_mv_ang(double r, double a, bool o, double dx, double dy, double da) { SP p = SP::make_polar(r, a, o); Point2D w = p.move_origin(dx, dy, da); ENS(rotated_x, w.x, dx + r * std::cos(a + da)); ENS(rotated_y, w.y, dy + r * std::sin(a + da));
  Point2D v = p.move_origin(dx, dy); ENS(shifted_x, v.x, dx + r * std::cos(a)); ENS(shifted_y, v.y, dy + r * std::sin(a));
  SP q = p.to_cartesian(da, dx); ENS(to_cartesian_x, q.x(), (r + dx) * std::cos(a + da)); ENS(to_cartesian_y, q.y(), (r + dx) * std::sin(a + da)); ENSI(to_cartesian_flag, q.is_occupied(), o);
  SP k = p.to_polar(dx, dy); ENS(to_polar_angle, k.angle(), std::atan2(r * std::sin(a) + dy, r * std::cos(a) + dx)); double X = r * std::cos(a) + dx, Y = r * std::sin(a) + dy; ENS(to_polar_range, k.range(), std::sqrt(X * X + Y * Y)); ENSI(to_polar_flag, k.is_occupied(), o); }
DRV drv_mv_cart(const Point2D &c, bool o, double dx, double dy) { SP p = SP::make_cartesian(c, o); Point2D w = p.move_origin(dx, dy); ENS(cartesian_shift_x, w.x, c.x + dx); ENS(cartesian_shift_y, w.y, c.y + dy); }
DRV drv_raw(RawTrigonometryProvider &t, double b, double a) { t.set_base_angle(b); ENS(sine_of_rotated_angle, t.sin(a), std::sin(a + b)); ENS(cosine_of_rotated_angle, t.cos(a), std::cos(a + b)); RawTrigonometryProvider z; ENS(default_base_sine, z.sin(a), std::sin(a)); ENS(default_base_cosine, z.cos(a), std::cos(a)); }
'''
    m = compile_module(D, exact=[('drv_raw', 0, 'RawTrigonometryProvider')])
    for f in sorted(m.fns):
        if f.startswith('drv_'): Contract(r, m, f, site={'drv_raw': 'RawTrigonometryProvider', 'drv_pose': 'RobotPose'}.get(f, 'RobotPoseDelta' if f.startswith('drv_delta') else 'ScanPoint2D')).run()
    # with a trigonometry provider: the base angle is in the provider
    D2 = models(4) + INC + r'''
struct Tp : TrigonometryProvider { double sin(double a) const override; double cos(double a) const override; void set_base_angle(double) override {} };
extern "C" double uf_sin(double) __attribute__((const)); extern "C" double uf_cos(double) __attribute__((const));
double Tp::sin(double a) const { return uf_sin(a); } double Tp::cos(double a) const { return uf_cos(a); }
DRV drv_tp(double r, double a, bool o, double dx, double dy) { Tp t; std::shared_ptr<TrigonometryProvider> tp(&t); ScanPoint2D p = ScanPoint2D::make_polar(r, a, o); Point2D w = p.move_origin(dx, dy, tp), v = p.move_origin(Point2D{dx, dy}, tp);
  ENS(provider_x, w.x, dx + r * uf_cos(a)); ENS(provider_y, w.y, dy + r * uf_sin(a)); ENS(provider_point_x, v.x, w.x); ENS(provider_point_y, v.y, w.y);
  ScanPoint2D c = p.to_cartesian(tp); ENS(provider_cartesian_x, c.x(), r * uf_cos(a)); ENS(provider_cartesian_y, c.y(), r * uf_sin(a)); ENSI(provider_cartesian_flag, c.is_occupied(), o); }
'''
    m = compile_module(D2)
    Contract(r, m, 'drv_tp', site='ScanPoint2D with provider').run()
    return r.finish()
