from core import *
RULE = ('The map dumper, the text raster reader and the text primitives are inlined with a recording file and a buffered text; every byte of the written image, every cell the raster touches and every character of a primitive is compared with the documented layout for symbolic occupancies and characters.')
STR = r'''
#include <string>
#include <iostream>
#include <fstream>
#include <sstream>
#include <vector>
#include <memory>
#include <tuple>
#include <limits>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#define AI __attribute__((always_inline))
#define CAP 48
namespace std {
struct plainstring { char a[CAP]; size_t n; typedef size_t size_type; typedef char value_type; static constexpr size_t npos = -1; typedef const char *const_iterator;
  AI plainstring() : n(0) {} AI plainstring(size_t k, char c) : n(k) { for (size_t i = 0; i < k; ++i) a[i] = c; }
  template <size_t N> AI plainstring(const char (&s)[N]) : n(N - 1) { for (size_t i = 0; i < N - 1; ++i) a[i] = s[i]; }
  AI plainstring(const plainstring &o) : n(o.n) { for (size_t i = 0; i < o.n; ++i) a[i] = o.a[i]; } AI plainstring &operator=(const plainstring &o) { n = o.n; for (size_t i = 0; i < o.n; ++i) a[i] = o.a[i]; return *this; }
  AI size_t size() const { return n; } AI size_t length() const { return n; } AI bool empty() const { return !n; } AI const char *c_str() const { return a; } AI const char *data() const { return a; } AI const char *begin() const { return a; } AI const char *end() const { return a + n; } AI char *begin() { return a; } AI char *end() { return a + n; }
  AI char operator[](size_t i) const { return a[i]; } AI char &operator[](size_t i) { return a[i]; } AI char at(size_t i) const { return a[i]; } AI void push_back(char c) { a[n++] = c; } AI void reserve(size_t) {} AI void clear() { n = 0; } AI char back() const { return a[n - 1]; } AI char front() const { return a[0]; }
  AI plainstring &operator+=(char c) { a[n++] = c; return *this; } AI plainstring &operator+=(const plainstring &o) { for (size_t i = 0; i < o.n; ++i) a[n + i] = o.a[i]; n += o.n; return *this; } AI plainstring &append(const plainstring &o) { return *this += o; } AI void resize(size_t k, char c = 0) { for (size_t i = n; i < k; ++i) a[i] = c; n = k; } AI plainstring &assign(size_t k, char c) { n = 0; return append(k, c); } AI bool operator!=(const plainstring &o) const; AI plainstring &append(size_t k, char c) { for (size_t i = 0; i < k; ++i) a[n + i] = c; n += k; return *this; } };
AI inline plainstring operator+(const plainstring &a, const plainstring &b) { plainstring r(a); r += b; return r; } AI inline plainstring operator+(const plainstring &a, char b) { plainstring r(a); r += b; return r; }
AI inline bool operator==(const plainstring &a, const plainstring &b) { if (a.n != b.n) return false; for (size_t i = 0; i < a.n; ++i) if (a.a[i] != b.a[i]) return false; return true; }
AI inline bool plainstring::operator!=(const plainstring &o) const { return !(*this == o); }
AI inline plainstring to_plainstring(unsigned long v) { plainstring r; if (v >= 100) r += char('0' + v / 100 % 10); if (v >= 10) r += char('0' + v / 10 % 10); r += char('0' + v % 10); return r; }
struct plainios { enum { binary = 1, out = 2, in = 4, trunc = 8, app = 16 }; };
struct plainos { unsigned char *to; size_t n = 0; bool good_ = true; AI plainos(unsigned char *t = nullptr) : to(t) {} 
  AI plainos &write(const char *s, size_t k) { for (size_t i = 0; i < k; ++i) to[n + i] = (unsigned char)s[i]; n += k; return *this; } AI plainos &put(char c) { to[n++] = (unsigned char)c; return *this; } AI plainos &flush() { return *this; } AI bool good() const { return true; } AI explicit operator bool() const { return true; }
  AI plainos &operator<<(char c) { return put(c); } AI plainos &operator<<(unsigned char c) { return put((char)c); } AI plainos &operator<<(int v) { return *this << to_plainstring(v); } AI plainos &operator<<(unsigned v) { return *this << to_plainstring(v); } AI plainos &operator<<(unsigned long v) { return *this << to_plainstring(v); } AI plainos &operator<<(const plainstring &s) { return write(s.a, s.n); } AI plainos &operator<<(double) { return *this; } AI plainos &operator<<(const void *) { return *this; } AI plainos &operator<<(plainos &(*f)(plainos &)) { return f(*this); }
  template <size_t N> AI plainos &operator<<(const char (&s)[N]) { return write(s, N - 1); } };
struct plainofs : plainos { static unsigned char disk[2][40]; static size_t len[2]; static plainstring name[2]; static int opened, closed; static bool bin; int id; static AI void boot() { opened = closed = 0; bin = true; name[0].n = name[1].n = 0; } AI plainofs(const plainstring &nm, int mode = 0) : plainos(disk[opened]), id(opened) { name[opened] = nm; bin = bin && (mode & plainios::binary); ++opened; } AI plainofs() : plainos(disk[0]), id(0) {} AI void close() { len[id] = n; ++closed; } AI bool is_open() const { return true; } };
struct plainoss : plainos { unsigned char own[CAP]; AI plainoss() : plainos(own) {} AI plainstring str() const { plainstring r; for (size_t i = 0; i < n; ++i) r += (char)own[i]; return r; } };
unsigned char plainofs::disk[2][40]; size_t plainofs::len[2]; plainstring plainofs::name[2]; int plainofs::opened, plainofs::closed; bool plainofs::bin = true;
struct plainis { plainstring line[6]; int n = 0, at = 0; bool ok = true; AI bool good() const { return ok; } AI explicit operator bool() const { return ok; } AI bool eof() const { return !ok; } template <class T> AI plainis &operator>>(T &) { return *this; } };
AI inline plainos &plainendl(plainos &o) { return o.put(10); }
// the text ends without a line end: the last line read meets the end
AI inline plainis &getline(plainis &i, plainstring &s) { if (i.at < i.n) s = i.line[i.at]; else s.clear(); ++i.at; if (i.at >= i.n) i.ok = false; return i; }
struct plainss : plainis { plainstring t; AI plainss() {} AI explicit plainss(const plainstring &s) : t(s) {} };
}
#define string plainstring
#define to_string to_plainstring
#define ofstream plainofs
#define ostream plainos
#define istream plainis
#define stringstream plainss
#define istringstream plainss
#define ostringstream plainoss
#define ios plainios
#define endl plainendl
'''
DUMP = r'''
#include "utils/map_dumpers.h"
struct PM : GridMap { int ox, oy, w, h; double v[12]; mutable bool in = true; PM(int w, int h, int ox, int oy) : GridMap{std::shared_ptr<GridCell>(), GridMapParams{w, h, 1}}, ox(ox), oy(oy), w(w), h(h) {} const GridCell &operator[](const Coord &) const override { return *(const GridCell *)0; } int width() const override { return w; } int height() const override { return h; } Coord origin() const override { return Coord(ox, oy); }
  double occupancy(const Coord &c) const override { int x = c.x + ox, y = c.y + oy; if (x < 0 || y < 0 || x >= w || y >= h) { in = false; return 0; } return v[y * w + x]; } };
static unsigned char grey(double o) { return (unsigned char)(255 * (1.0 - (o == -1 ? 0.5 : o < 0.0 ? 0.0 : 1.0 < o ? 1.0 : o))); }
#define FIN(V) REQ(number_##V, V > -1000000 && V < 1000000);
'''
RASTER = r'''
#include "utils/data_generation/grid_map_patcher.h"
struct Touch { int x, y; double p, q, w; bool occ; };
struct TM { Touch t[40]; int n = 0; void update(const DiscretePoint2D &c, const AreaOccupancyObservation &a) { t[n].x = c.x; t[n].y = c.y; t[n].p = a.occupancy.prob_occ; t[n].q = a.occupancy.estimation_quality; t[n].w = a.quality; ++n; } };
#define IS(K, X, Y, CH) ENSI(column_of_##K, m.t[K].x, X); ENSI(row_of_##K, m.t[K].y, Y); ENS(blank_is_free_else_occupied_##K, m.t[K].p, (CH) == ' ' ? 0.0 : 1.0); ENS(estimated_with_full_quality_##K, m.t[K].q, 1.0); ENS(quality_##K, m.t[K].w, 1.0);
'''
PRIM = r'''
#include <cassert>
#include "utils/data_generation/map_primitives.h"
typedef CecumTextRasterMapPrimitive C; typedef C::BoundPosition B;
'''
CFG = 'peelany 60\nfresh\nsplit\ninline std::plain\ninline std::(operator|getline|to_plain)'
def dumps():
    L = []
    for w in (1, 2, 3):
        for h in (1, 2, 3):
            if w * h > 6: continue
            for ox, oy in ((w // 2, h // 2), (0, 0), (3, -2)):
                n = w * h; args = ', '.join('double v%d' % i for i in range(n)); head = 'P5\n%d\n%d\n255\n' % (w, h)
                d = 'DRV drv_dump_%d_%d_%d(%s) { %s PM m(%d, %d, %d, %d); %s std::ofstream::boot(); std::ofstream os("x"); GridMapToPgmDumber::dump_map(os, m); ENSI(size, os.n, %d); ENSB(only_cells_of_the_map, m.in); ' % (w, h, ox + 1, args, ''.join('FIN(v%d) ' % i for i in range(n)), w, h, ox, oy, ''.join('m.v[%d] = v%d; ' % (i, i) for i in range(n)), len(head) + n)
                d += ''.join('ENSI(header_byte_%d, os.to[%d], %d); ' % (i, i, ord(c)) for i, c in enumerate(head))
                for r in range(h):
                    for c in range(w): d += 'ENSI(pixel_row_%d_column_%d, os.to[%d], grey(v%d)); ' % (r, c, len(head) + r * w + c, (h - 1 - r) * w + c)
                L.append(d + '}')
    L.append('DRV drv_files(double v0, double v1) { FIN(v0) FIN(v1) std::ofstream::boot(); GridMapToPgmDumber d("map"); WorldMapObserver<GridMap> &o = d; PM m(2, 1, 1, 0); m.v[0] = v0; m.v[1] = v1; o.on_map_update(m); m.v[0] = v1; o.on_map_update(m); typedef std::ofstream F; ENSI(one_file_per_update, F::opened, 2); ENSI(files_closed, F::closed, 2); ENSB(binary, F::bin); ENSB(first_name, F::name[0] == std::string("map_0.pgm")); ENSB(second_name, F::name[1] == std::string("map_1.pgm")); '
             'ENSI(first_size, F::len[0], 13); ENSI(second_size, F::len[1], 13); ENSI(first_left, F::disk[0][11], grey(v0)); ENSI(first_right, F::disk[0][12], grey(v1)); ENSI(second_left, F::disk[1][11], grey(v1)); ENSI(second_right, F::disk[1][12], grey(v1)); ENSI(second_header, F::disk[1][0], 80); }')
    return L
def rasters():
    L = []; k = 0
    for lens, stop in (((1,), 0), ((3,), 0), ((2, 2), 0), ((1, 3), 0), ((3, 1), 0), ((2, 1, 2), 0), ((2, 0, 2), 1), ((0,), 0)):
        for wz, hz in ((1, 1), (2, 1), (1, 2), (2, 3), (3, 2)):
            shown = lens[:lens.index(0)] if 0 in lens else lens
            if sum(shown) * wz * hz > 36: continue
            chars = ', '.join('char c%d_%d' % (i, j) for i, l in enumerate(lens) for j in range(l))
            put = 'std::istream is; is.n = %d; ' % len(lens) + ''.join('is.line[%d].push_back(c%d_%d); ' % (i, i, j) for i, l in enumerate(lens) for j in range(l))
            W = max(shown + (0,)); Hh = len(shown)
            for kind in ('at', 'centred'):
                if kind == 'at' and (wz, hz) == (1, 1): call = 'p.apply_text_raster(m, is, DiscretePoint2D(ox, oy)); '
                elif kind == 'at': call = 'p.apply_text_raster(m, is, DiscretePoint2D(ox, oy), %d, %d); ' % (wz, hz)
                elif (wz, hz) == (1, 1): call = 'p.apply_text_raster(m, is); '
                else: call = 'p.apply_text_raster(m, is, %d, %d); ' % (wz, hz)
                X, Y = ('ox', 'oy') if kind == 'at' else ('%d' % -(W * wz // 2), '%d' % (Hh * hz // 2))
                args = ', '.join(x for x in (chars, 'int ox, int oy') if x)
                d = 'DRV drv_%s_%d(%s) { REQ(ox_low, ox >= -100000); REQ(ox_high, ox <= 100000); REQ(oy_low, oy >= -100000); REQ(oy_high, oy <= 100000); %s TM m; GridMapPatcher p; %sENSI(touched_cells, m.n, %d); ' % (kind, k, args, put, call, sum(shown) * wz * hz)
                t = 0
                for i, l in enumerate(shown):
                    for b in range(hz):
                        for j in range(l):
                            for a in range(wz): d += 'IS(%d, %s + %d, %s - %d, c%d_%d) ' % (t, X, j * wz + a, Y, i * hz + b, i, j); t += 1
                L.append(d + '}'); k += 1
    # the patcher keeps nothing of an earlier raster
    L.append('DRV drv_again(char a, char b, char c) { TM m; GridMapPatcher p; std::istream x; x.n = 1; x.line[0].push_back(a); x.line[0].push_back(b); x.line[0].push_back(b); x.line[0].push_back(b); p.apply_text_raster(m, x); m.n = 0; std::istream is; is.n = 1; is.line[0].push_back(c); p.apply_text_raster(m, is); ENSI(touched_cells, m.n, 1); IS(0, 0, 0, c) }')
    return L
def primitives():
    L = []
    for w in range(1, 6):
        for h in range(1, 5):
            for pos in ('Top', 'Bot', 'Left', 'Right'):
                occ = lambda x, y: (x in (0, w - 1) or (y == 0 if pos == 'Top' else y == h - 1)) if pos in ('Top', 'Bot') else (y in (0, h - 1) or x == (0 if pos == 'Left' else w - 1) or w == 1)
                d = 'struct O%d%d%s : C { O%d%d%s() : C(%d, %d, B::%s) {} std::string text() const { return text_raster(); } };\n' % (w, h, pos, w, h, pos, w, h, pos)
                d += 'DRV drv_cecum_%d_%d_%s(double x, double y) { O%d%d%s c; const MapPrimitive &p = c; ENSI(width, p.width(), %d); ENSI(height, p.height(), %d); std::string t = c.text(); ' % (w, h, pos, w, h, pos, w, h)
                for r in range(h):
                    for q in range(w): d += 'ENSI(mark_row_%d_column_%d, t[%d], %d); ' % (r, q, r * (w + 1) + q, 43 if occ(q, r) else 32)
                    d += 'ENSI(row_%d_ends, t[%d], 10); ' % (r, r * (w + 1) + w)
                d += 'ENSB(nothing_but_line_ends_follows, t.size() == %d || (t.size() == %d && t[%d] == 10)); ' % (h * (w + 1), h * (w + 1) + 1, h * (w + 1))
                free = [(q, r) for r in range(h) for q in range(w) if not occ(q, r)]
                d += 'auto f = p.free_space(); ENSI(one_free_rectangle, f.size(), 1); '
                if free and w > 2 and h > 2:
                    d += 'ENS(free_left, f[0].left(), %d); ENS(free_right, f[0].right(), %d); ENS(free_bottom, f[0].bot(), %d); ENS(free_top, f[0].top(), %d); ' % (min(a for a, b in free), max(a for a, b in free) + 1, -max(b for a, b in free), 1 - min(b for a, b in free))
                else: d += 'ENS(no_free_area, (f[0].right() - f[0].left()) * (f[0].top() - f[0].bot()), 0); '
                L.append(d + '}')
    return L
def main():
    r = Report('C27', RULE, 5000); r.asserts = True
    pre = models(cap=8, vec=True) + STR
    families(r, pre + DUMP, dumps(), 'src/utils/map_dumpers.h:GridMapToPgmDumber', CFG)
    families(r, models(cap=40, vec=True) + STR + RASTER, rasters(), 'src/utils/data_generation/grid_map_patcher.h:GridMapPatcher', CFG)
    families(r, pre + PRIM, primitives(), 'src/utils/data_generation/map_primitives.h:CecumTextRasterMapPrimitive', CFG)
    return r.finish()
