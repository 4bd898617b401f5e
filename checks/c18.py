from core import *
import mapdrv
from mapdrv import cells
RULE = ('PlainGridMap and UnboundedPlainGridMap are inlined into drivers whose map sizes are constant and whose cell contents are symbolic: every cell after construction, reset, update, growth in every direction and save_state/load_state must be '
        'the value the abstract map (coordinate -> content, prototype elsewhere) assigns to it, and no element outside of the row vectors may be accessed. A second module keeps width, height and the coordinate symbolic (cell storage without content) and proves '
        'by linear arithmetic that the grown map contains the new coordinate and everything it contained before, and grows only in the direction needed.')
PRE = '#include "core/maps/plain_grid_map.h"\n' + mapdrv.PRE
def saves():
    D = ''; k = 0
    for (w, h), grow, (w2, h2) in (((2, 2), None, (1, 1)), ((3, 2), None, (2, 3)), ((1, 2), None, (3, 1)), ((1, 1), (1, 0), (1, 1)), ((1, 1), (-1, 0), (2, 2)), ((1, 1), (0, 1), (2, 1)), ((2, 1), (0, -1), (1, 1)), ((1, 1), (1, 1), (1, 1))):
        cs = cells(w, h); args = ', '.join('double v%d' % i for i in range(len(cs)))
        D += 'DRV drv_saved_%d(double pv, double pw, double sc, double q, %s) { PC proto(pv), other(pw); UnboundedPlainGridMap a(SP(proto), GridMapParams{%d, %d, sc}), b(SP(other), GridMapParams{%d, %d, 0.5}); GridMap &g = a; ' % (k, args, w, h, w2, h2)
        D += ''.join('{ PC c(v%d); g.reset(Co(%d, %d), c); }' % ((i,) + c) for i, c in enumerate(cs)); xs = list(cs)
        if grow: D += '{ PC c(q); g.reset(Co(%d, %d), c); } ' % grow; xs.append(grow)
        D += 'auto st = a.save_state(); b.load_state(st); ENSI(width, b.width(), a.width()); ENSI(height, b.height(), a.height()); ENSI(origin_x, b.origin().x, a.origin().x); ENSI(origin_y, b.origin().y, a.origin().y); ENS(scale, b.scale(), sc); '
        for i, c in enumerate(xs): D += 'ENS(loaded_cell_%d, b[Co(%d, %d)].occupancy().prob_occ, %s); ' % ((i,) + c + ('q' if grow == c else 'v%d' % i,))
        D += 'ENSI(known_state, b[Co(%d, %d)].is_unknown(), a[Co(%d, %d)].is_unknown()); ' % (cs[0] * 2)
        D += '{ PC c(pw); static_cast<GridMap &>(b).reset(Co(%d, %d), c); } ENS(the_saved_map_is_independent, AT(%d, %d), v0); }\n' % (cs[0] * 2)
        k += 1
    return D
def main():
    r = Report('C18', RULE, 20); r.asserts = True
    CFG = 'licm\nsplit\nonlyclass GridCell PC'
    families(r, models(8, bounds=True) + PRE, mapdrv.drivers(('PlainGridMap', 'UnboundedPlainGridMap')).splitlines(True), 'cell storage', CFG)
    families(r, models(8, bounds=True) + PRE, mapdrv.grow('UnboundedPlainGridMap').splitlines(True), 'growth', CFG)
    families(r, models(8, chars=192, bounds=True) + PRE, saves().splitlines(True), 'saved state', CFG, per=2)
    m = compile_module(models(2, vec=False) + GHOST + GVEC + PRE.replace('std::make_unique<PC>(*this)', 'std::unique_ptr<GridCell>((GridCell *)this)') + mapdrv.extent('UnboundedPlainGridMap'), pre_cfg='licm\nsplit\nonlyclass GridCell PG', dump='/tmp/p/c18.ll' if os.environ.get('DBG') else None)
    contracts(r, m, 'map size')
    return r.finish()
