"""drivers that compare a grid map with the abstract map coordinate -> content"""
PRE = r'''
typedef RegularSquaresGrid::Coord Co; typedef AreaOccupancyObservation AOO;
extern "C" double uf_up(double, double) __attribute__((const));
struct PC : GridCell { PC(double v) : GridCell(Occupancy{v, 1}) {} std::unique_ptr<GridCell> clone() const override { return std::make_unique<PC>(*this); } void operator+=(const AOO &a) override { _occupancy.prob_occ = uf_up(_occupancy.prob_occ, a.occupancy.prob_occ); on_update(); } };
template <class T> std::shared_ptr<T> SP(T &x) { return std::shared_ptr<T>(&x); }
#define MK(CLS, W, H) PC proto(pv); CLS m(SP(proto), GridMapParams{W, H, 0.5}); GridMap &g = m;
#define AT(X, Y) g[Co(X, Y)].occupancy().prob_occ
#define AREA(V) AOO{true, Occupancy{V, 1}, Point2D{0, 0}, 1}
'''
def cells(w, h): return [(x - w // 2, y - h // 2) for y in range(h) for x in range(w)]
def drivers(classes, sizes=((2, 2), (3, 2), (1, 3))):
    D = ''; k = 0
    for cls in classes:
        for w, h in sizes:
            cs = cells(w, h); args = ', '.join('double v%d' % i for i in range(len(cs)))
            D += 'DRV drv_fresh_%d(double pv) { MK(%s, %d, %d) %s ENSI(width, g.width(), %d); ENSI(height, g.height(), %d); ENS(scale, g.scale(), 0.5); }\n' % (k, cls, w, h, ''.join('ENS(fresh_cell_is_the_prototype, AT(%d, %d), pv); ENSI(fresh_cell_unknown, g[Co(%d, %d)].is_unknown(), 1);' % (c + c) for c in cs), w, h)
            D += 'DRV drv_write_%d(double pv, double q, %s) { MK(%s, %d, %d) %s %s %s ' % (k, args, cls, w, h, ''.join('{ PC c(v%d); g.reset(Co(%d, %d), c); }' % ((i,) + c) for i, c in enumerate(cs)), ''.join('ENS(cell_holds_what_it_was_reset_to, AT(%d, %d), v%d);' % (c + (i,)) for i, c in enumerate(cs)), ''.join('ENS(occupancy_of_the_cell, g.occupancy(Co(%d, %d)), v%d);' % (c + (i,)) for i, c in enumerate(cs)))
            t = len(cs) - 2; D += 'g.update(Co(%d, %d), AREA(q)); %s }\n' % (cs[t] + (''.join('ENS(%s, AT(%d, %d), %s);' % (('updated_cell',) + c + ('uf_up(v%d, q)' % i,) if i == t else ('other_cell_untouched',) + c + ('v%d' % i,)) for i, c in enumerate(cs)),))
            D += 'DRV drv_member_%d(double pv) { MK(%s, %d, %d) %s }\n' % (k, cls, w, h, ''.join('ENSI(membership, g.has_cell(Co(%d, %d)), %s);' % (x, y, '1' if cls[0] == 'U' or (x, y) in cs else '0') for x in range(-3, 4) for y in range(-3, 4)))
            k += 1
    return D
def grow(cls, sizes=((2, 2), (3, 2), (1, 1))):
    D = ''; k = 0
    for w, h in sizes:
        cs = cells(w, h); args = ', '.join('double v%d' % i for i in range(len(cs)))
        for (x, y) in ((2, 0), (-3, 0), (0, 2), (0, -3), (2, 2), (-2, -2), (-3, 2), (3, -2)):
            if (x, y) in cs: continue
            x0, x1 = min(x, min(c[0] for c in cs)), max(x, max(c[0] for c in cs)); y0, y1 = min(y, min(c[1] for c in cs)), max(y, max(c[1] for c in cs))
            for op in ('update', 'reset'):
                D += 'DRV drv_grow_%d(double pv, double q, %s) { MK(%s, %d, %d) %s ' % (k, args, cls, w, h, ''.join('{ PC c(v%d); g.reset(Co(%d, %d), c); }' % ((i,) + c) for i, c in enumerate(cs)))
                D += 'ENS(unknown_outside, AT(%d, %d), pv); ENSI(reading_does_not_grow_w, g.width(), %d); ENSI(reading_does_not_grow_h, g.height(), %d); ' % (x, y, w, h)
                D += ('g.update(Co(%d, %d), AREA(q)); ' if op == 'update' else '{ PC c(q); g.reset(Co(%d, %d), c); } ') % (x, y)
                for xx in range(x0 - 1, x1 + 2):
                    for yy in range(y0 - 1, y1 + 2):
                        if (xx, yy) == (x, y): D += 'ENS(written_cell, AT(%d, %d), %s); ' % (xx, yy, 'uf_up(pv, q)' if op == 'update' else 'q')
                        elif (xx, yy) in cs: D += 'ENS(old_cell_keeps_content, AT(%d, %d), v%d); ' % (xx, yy, cs.index((xx, yy)))
                        else: D += 'ENS(new_cell_unknown, AT(%d, %d), pv); ' % (xx, yy)
                D += 'Co o = g.origin(); ENSB(left_border_covered, %d + o.x >= 0); ENSB(right_border_covered, %d + o.x < g.width()); ENSB(bottom_border_covered, %d + o.y >= 0); ENSB(top_border_covered, %d + o.y < g.height()); }\n' % (x0, x1, y0, y1)
                k += 1
    return D
EXTENT = r"""
struct PG : GridCell { PG() : GridCell(Occupancy{0, 1}) {} std::unique_ptr<GridCell> clone() const override { return std::unique_ptr<GridCell>((GridCell *)this); } void operator+=(const AOO &a) override {} };
#define SIZED REQ(width, w >= 1 && w <= 5000); REQ(height, h >= 1 && h <= 5000); REQ(column_low, x >= -20000); REQ(column_high, x <= 20000); REQ(row_low, y >= -20000); REQ(row_high, y <= 20000); PG proto; CLASS m(SP(proto), GridMapParams{w, h, 0.5}); GridMap &g = m; int ox = w / 2, oy = h / 2;
#define AFTER(IX, IY) g.update(Co(x, y), AREA(0.5)); Co o = g.origin(); int W = g.width(), H = g.height(); ENSB(column_covered, x + o.x >= 0 && x + o.x < W); ENSB(row_covered, y + o.y >= 0 && y + o.y < H); ENSB(left_part_kept, o.x >= ox); ENSB(bottom_part_kept, o.y >= oy); ENSB(right_part_kept, W - o.x >= w - ox); ENSB(top_part_kept, H - o.y >= h - oy); ENSB(columns_change_only_if_needed, !(IX) || (W == w && o.x == ox)); ENSB(rows_change_only_if_needed, !(IY) || (H == h && o.y == oy)); ENS(scale_kept, g.scale(), 0.5);
#define INX REQ(x_in_low, x + w / 2 >= 0); REQ(x_in_high, x + w / 2 < w);
#define INY REQ(y_in_low, y + h / 2 >= 0); REQ(y_in_high, y + h / 2 < h);
DRV drv_in(int w, int h, int x, int y) { SIZED INX INY AFTER(1, 1) ENSB(nothing_to_grow, W == w && H == h && o.x == ox && o.y == oy); }
DRV drv_left(int w, int h, int x, int y) { SIZED REQ(x_left, x + w / 2 < 0); INY AFTER(0, 1) }
DRV drv_right(int w, int h, int x, int y) { SIZED REQ(x_right, x + w / 2 >= w); INY AFTER(0, 1) }
DRV drv_down(int w, int h, int x, int y) { SIZED REQ(y_down, y + h / 2 < 0); INX AFTER(1, 0) }
DRV drv_up(int w, int h, int x, int y) { SIZED REQ(y_up, y + h / 2 >= h); INX AFTER(1, 0) }
DRV drv_ru(int w, int h, int x, int y) { SIZED REQ(x_right, x + w / 2 >= w); REQ(y_up, y + h / 2 >= h); AFTER(0, 0) }
DRV drv_ld(int w, int h, int x, int y) { SIZED REQ(x_left, x + w / 2 < 0); REQ(y_down, y + h / 2 < 0); AFTER(0, 0) }
"""
def extent(cls, tiles=False):
    D = EXTENT.replace('CLASS', cls)
    return D.replace('W == w && o.x == ox)); ', 'o.x == ox)); ').replace('H == h && o.y == oy)); ENS(scale', 'o.y == oy)); ENS(scale') if tiles else D
