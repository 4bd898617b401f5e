from core import *
import ir
RULE = ('Both trigonometry providers are inlined with symbolic base angles, ranges, steps and queries; the returned values are compared with the angle-addition formulas over sine and cosine of the base and of the grid angle nearest to the query, after one update, repeated updates and updates that change only one parameter.')
PRE = r'''
#include <vector>
#include "core/trigonometry_utils.h"
#define GRID(n) REQ(step, inc > 0.001); REQ(range_not_short, amax - amin > (n - 1) * inc); REQ(range_not_long, amax - amin <= n * inc);
// the query lies less than half a step beside the grid angle
#define NEAR(a) REQ(not_below_the_beam, f > -0.49); REQ(not_above_the_beam, f < 0.49); const double q = a + f * inc;
#define SIN(b, a) (std::sin(b) * std::cos(a) + std::cos(b) * std::sin(a))
#define COS(b, a) (std::cos(b) * std::cos(a) - std::sin(b) * std::sin(a))
#define TP TrigonometryProvider &t = c;
DRV drv_raw(double b, double a, double b2) { RawTrigonometryProvider c; TP ENS(raw_sine_without_base, t.sin(a), std::sin(a)); ENS(raw_cosine_without_base, t.cos(a), std::cos(a)); t.set_base_angle(b); ENS(raw_sine, t.sin(a), std::sin(b + a)); ENS(raw_cosine, t.cos(a), std::cos(b + a)); t.set_base_angle(b2); ENS(raw_sine_new_base, t.sin(a), std::sin(b2 + a)); ENS(raw_cosine_new_base, t.cos(a), std::cos(b2 + a)); }
'''
def drivers():
    D = []
    for n in (1, 2, 3, 4):
        for k in range(n):
            A = 'amin + %d * inc' % k
            D.append('DRV drv_cached_%d_%d(double amin, double amax, double inc, double b, double f) { GRID(%d) NEAR(%s) CachedTrigonometryProvider c; TP c.update(amin, amax, inc); ENS(sine_without_base, t.sin(q), std::sin(%s)); ENS(cosine_without_base, t.cos(q), std::cos(%s)); t.set_base_angle(b); ENS(sine, t.sin(q), SIN(b, %s)); ENS(cosine, t.cos(q), COS(b, %s)); }\n' % (n, k, n, A, A, A, A, A))
            D.append('DRV drv_base_first_%d_%d(double amin, double amax, double inc, double b, double f) { GRID(%d) NEAR(%s) CachedTrigonometryProvider c; TP t.set_base_angle(b); c.update(amin, amax, inc); ENS(sine_of_a_base_set_before, t.sin(q), SIN(b, %s)); ENS(cosine_of_a_base_set_before, t.cos(q), COS(b, %s)); }\n' % (n, k, n, A, A, A))
    OLD = [('other_range', 'double amin0, double amax0, double inc0', 'REQ(minimum_grows, amin0 < amin); REQ(old_step, inc0 > 0.001); REQ(old_range, amax0 - amin0 > inc0); REQ(old_range_limit, amax0 - amin0 <= 2 * inc0);', 'amin0, amax0, inc0'),
           ('other_minimum', 'double amin0', 'REQ(minimum_falls, amin0 > amin); REQ(old_range, amax - amin0 > 0); REQ(old_range_limit, amax - amin0 <= 2 * inc);', 'amin0, amax, inc'),
           ('lower_minimum', 'double amin0', 'REQ(minimum_grows, amin0 < amin); REQ(old_range, amax - amin0 > inc); REQ(old_range_limit, amax - amin0 <= 3 * inc);', 'amin0, amax, inc'),
           ('other_maximum', 'double amax0', 'REQ(old_range, amax0 - amin > 0); REQ(old_range_limit, amax0 - amin <= inc);', 'amin, amax0, inc'),
           ('other_step', 'double inc0', 'REQ(old_step, inc0 > 0.001); REQ(old_range, amax - amin > 2 * inc0); REQ(old_range_limit, amax - amin <= 3 * inc0);', 'amin, amax, inc0'),
           ('same_range', 'double z', '', 'amin, amax, inc')]
    for name, args, req, up in OLD:
        for k in range(2):
            A = 'amin + %d * inc' % k
            D.append('DRV drv_again_%s_%d(double amin, double amax, double inc, double b, double f, %s) { GRID(2) NEAR(%s) %s CachedTrigonometryProvider c; TP t.set_base_angle(b); c.update(%s); c.update(amin, amax, inc); ENS(sine_after_%s, t.sin(q), SIN(b, %s)); ENS(cosine_after_%s, t.cos(q), COS(b, %s)); }\n' % (name, k, args, A, req, up, name, A, name, A))
    return D
def main():
    ir.CANCEL = True
    r = Report('C23', RULE, 60)
    ds = drivers()
    only = os.environ.get('ONLY')
    if only: ds = [d for d in ds if re.search(only, d.split('(')[0])]
    families(r, '#define FIXEDPROXY\n' + models(8) + PRE, ds, 'beam angles', 'peel 6', per=6)
    if not only: contracts(r, compile_module(PRE), 'raw angles')
    return r.finish()
