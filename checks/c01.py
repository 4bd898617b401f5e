from cells import *
RULE = ('Every cell class is analysed with the dynamic type fixed and the whole update inlined. Under the assumption that the observed probability '
        '(resp. its estimation quality) is not a number, interval/NaN propagation prunes the infeasible branches; no store or writing call into the cell object may stay reachable unless it rewrites the value already there.')
def main():
    r = Report('C01', RULE, 12, ['clang front end and LLVM memory analyses'])
    D = INC + FORCE
    for c in CLASSES: D += 'DRV drv_%s(%s &c, const AOO &o) { c += o; }\n' % (c, c)
    m = compile_module(D, exact=[('drv_' + c, 0, c) for c in CLASSES])
    po = m.field_off('AreaOccupancyObservation', 'occupancy.prob_occ'); qo = m.field_off('AreaOccupancyObservation', 'occupancy.estimation_quality')
    if po is None or qo is None: raise AnalysisBroken('observation layout not recognised')
    n = 0
    for c in CLASSES:
        fn = m.fns['drv_' + c]; cell = ('arg', 0, fn.args[0].get('name') or '')
        w = [i for i in fn.instrs() if writes_into(fn, i, cell)]
        r.check(bool(w) or None, c, 'valid observations reach a store into the cell', 'no store found')
        for what, off in (('probability', po), ('estimation quality', qo)):
            a = AI(fn, [(('isnan', ld(fn, 1, off)), True)])
            bad = []
            for i in w:
                n += 1
                if not a.reachable(i): continue
                if i.op == 'store':
                    t = a.resolve(fn.T(i.ops[0]), i.blk)
                    if t[0] == 'load' and t[1] == fn.T(i.ops[1]): continue
                bad.append(i)
            for i in bad: r.bad('%s (%s)' % (i.where(), i.infn()), '%s keeps its state when the observed %s is not a number' % (c, what), 'this write stays reachable')
            if not bad: r.ok(c, 'no reachable write when the observed %s is not a number' % what)
    r.note('write sites classified', n); r.note('classes', CLASSES)
    return r.finish()
