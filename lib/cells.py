"""shared driver fragments for the occupancy cells"""
from core import *
INC = r'''
#include "core/maps/naive_grid_cells.h"
#include "core/maps/tbm_grid_cells.h"
#include "slams/gmapping/gmapping_grid_cell.h"
#include "slams/credibilist/grid_cell.h"
typedef AreaOccupancyObservation AOO;
static inline bool unit(double x) { return 0 <= x && x <= 1; }
'''
CLASSES = ['AffineQualityMergeCell', 'MeanProbabilityCell', 'TbmOccConsistentCell', 'TbmUnknownEvenOccCell', 'GmappingBaseCell', 'CredibilistCell']
FORCE = ''.join(force(c) for c in CLASSES)
TBMS = ['TbmOccConsistentCell', 'TbmUnknownEvenOccCell', 'CredibilistCell']
def hidden(m, cls):
    """data members of a cell class beyond the common base: {kind: [offset]} with kind double/int/Point2D/other"""
    tid = m.type_id(cls); base = m.sizeof('GridCell') if False else None
    names = {p for o, s, p, t in m.fields(m.type_id('GridCell'))}
    out = {}
    t = m.types[tid]
    for mem in t['members']:
        if mem['n'].startswith('_vptr'): continue
        ty = mem['ty']; ref = ty.get('t') if isinstance(ty, dict) else None
        k = m.types[ref]['name'] if ref else (ty.get('basic') if isinstance(ty, dict) else str(ty))
        out.setdefault(k, []).append(mem['off'])
    return out
