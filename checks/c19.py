from core import *
import mapdrv
from mapdrv import cells
RULE = ('LazyTiledGridMap and UnboundedLazyTiledGridMap are inlined, with shared pointers modelled as pointer plus reference count, into drivers with constant sizes and symbolic cell contents (the tile side is analysed as 2 instead of 128): after construction, reset, update, growth in every direction, copying and assigning, '
        'every cell of every map involved must be the value the abstract map assigns to it, so a write never shows through storage shared with the unknown tile, another cell or another copy; no element outside of the tile vector may be accessed. '
        'With the real tile size and without content, linear arithmetic proves that the grown map contains the new coordinate and everything it contained before.')
PRE = '#include "core/maps/lazy_tiled_grid_map.h"\n' + mapdrv.PRE
def cfg(c): return 'inline ^(.* )?std::(fill|__fill_a|__fill_a1|move|__copy_move.*)<(true, )?(std::)?(rcptr|plainptr)\nlicm\nsplit\nonlyclass GridCell PC\nonlyclass GridMap %s\nonlyclass RegularSquaresGrid %s' % (c, c)
def reads(m, cs, vals, name): return ''.join('ENS(%s, static_cast<GridMap &>(%s)[Co(%d, %d)].occupancy().prob_occ, %s); ' % (name, m, c[0], c[1], vals[c]) for c in cs)
def copies():
    """copies share storage until one of them is written"""
    D = ''; k = 0
    for cls in ('UnboundedLazyTiledGridMap',):
        for (w, h) in ((2, 2), (3, 1)):
            cs = cells(w, h); args = ', '.join('double v%d' % i for i in range(len(cs)))
            head = 'double pv, double q, double u, %s) { MK(%s, %d, %d) %s ' % (args, cls, w, h, ''.join('{ PC c(v%d); g.reset(Co(%d, %d), c); }' % ((i,) + c) for i, c in enumerate(cs[:-1])))
            old = {c: 'v%d' % i for i, c in enumerate(cs)}; old[cs[-1]] = 'pv'
            for op in ('reset', 'update'):
                for t in (cs[0], cs[-1]):
                    def write(m): return ('{ PC c(q); static_cast<GridMap &>(%s).reset(Co(%d, %d), c); } ' if op == 'reset' else 'static_cast<GridMap &>(%s).update(Co(%d, %d), AREA(q)); ') % ((m,) + t)
                    new = dict(old); new[t] = 'q' if op == 'reset' else 'uf_up(%s, q)' % old[t]
                    D += 'DRV drv_copy_%d(%s %s b(m); %s%s %s%s }\n' % (k, head, cls, reads('b', cs, old, 'copy_has_the_same_content'), write('b'), reads('m', cs, old, 'original_unaffected_by_a_write_to_the_copy'), reads('b', cs, new, 'copy_is_written')); k += 1
                    D += 'DRV drv_copy_%d(%s %s b(m); %s %s%s }\n' % (k, head, cls, write('m'), reads('b', cs, old, 'copy_unaffected_by_a_write_to_the_original'), reads('m', cs, new, 'original_is_written')); k += 1
                    D += 'DRV drv_copy_%d(%s %s b(m); %s c(b); %s %s%s%s }\n' % (k, head, cls, cls, write('b'), reads('m', cs, old, 'first_of_three_unaffected'), reads('c', cs, old, 'last_of_three_unaffected'), reads('b', cs, new, 'middle_of_three_written')); k += 1
                    D += 'DRV drv_copy_%d(%s %s b(SP(proto), GridMapParams{1, 1, 0.5}); b = m; %s %s%s }\n' % (k, head, cls, write('b'), reads('m', cs, old, 'source_of_an_assignment_unaffected'), reads('b', cs, new, 'assigned_map_is_written')); k += 1
    return D
def main():
    r = Report('C19', RULE, 20); r.asserts = True
    m = compile_module(models(2, vec=False) + RC + GHOST + GVEC + GARR + PRE.replace('std::make_unique<PC>(*this)', 'std::unique_ptr<GridCell>((GridCell *)this)') + mapdrv.extent('UnboundedLazyTiledGridMap', True), pre_cfg=cfg('UnboundedLazyTiledGridMap').replace('GridCell PC', 'GridCell PG'), dump='/tmp/p/c19.ll' if os.environ.get('DBG') else None)
    contracts(r, m, 'map size')
    overlay('core/maps/lazy_tiled_grid_map.h', r'(?<=Tile_Size_Bits = )7(?=;)', '1')
    M = models(24, bounds='end') + RC
    for c in ('LazyTiledGridMap', 'UnboundedLazyTiledGridMap'): families(r, M + PRE, mapdrv.drivers((c,), ((2, 2), (3, 2), (1, 3))).splitlines(True), 'cell storage', cfg(c))
    families(r, M + PRE, mapdrv.grow('UnboundedLazyTiledGridMap', ((2, 2), (3, 2), (1, 1))).splitlines(True), 'growth', cfg('UnboundedLazyTiledGridMap'))
    families(r, M + PRE, copies().splitlines(True), 'copies', cfg('UnboundedLazyTiledGridMap'))
    return r.finish()
