"""An eigenfunction is one function: however it is evaluated, each point gets the value of the sector that holds it."""
from spec import *
import itertools

TECHNIQUE = 'gated value-graph abstract interpretation of the evaluators over symbolic points in every relative position'
LEVEL_NOTE = ('All positions of the evaluation points relative to the sectors, unsorted and repeated points included, symbolically; numbers of sectors and points enumerated; '
              'sector flows opaque but consistent at the sector boundaries (decided by P09 and P27).')


def boundary_flow(P, xs, U):
    """sector flow started from the known state U[j] at a boundary: canonical value at the target"""
    def h(I, f, this, args, node):
        y = I.rv(args[1])
        i = int(str(this.root)[1:]) if str(this.root).startswith('S') else None
        E, a, b = num(I.rv(args[0])), num(I.rv(args[2])), num(I.rv(args[3]))
        cells = list(y.f['data'].e)
        out = [app('foreign%d_%d' % (r, i), E, a, b, *cells) for r in range(4)]
        for j in (i, i + 1):
            want = [xs[j], sym('E')] + U[j]
            known = lift(lambda *q: all(not (g is UNDEF) and (g == w or alg.is_zero(alg.rsub(g, w))) for g, w in zip(q, want)), a, E, *cells)
            for r in range(4):
                v = ite(compare('==', b, xs[i]), U[i][r], ite(compare('==', b, xs[i + 1]), U[i + 1][r], app('u%d_%d' % (r, i), b)))
                out[r] = ite(known, v, out[r])
        return y.set('data', Mat(4, 1, out))
    return h


def wanted(xs, U, x, r):
    k = len(xs) - 1
    v = ZERO
    for i in range(k - 1, -1, -1):
        v = ite(band(compare('<=', xs[i], x), compare('<', x, xs[i + 1])), app('u%d_%d' % (r, i), x), v)
    for j in range(k + 1):
        v = ite(compare('==', x, xs[j]), U[j][r], v)
    return v


def full_range(C, P):
    n = 0
    for f in one(P, 'matslise::Matslise::eigenfunction'):
        tu = f['tu']
        if '<double>' not in tu.recs[f['cls']]['key']:
            continue
        yc = tu.recs[tu.strip(f['ps'][1]['t'])['r']]['key']
        cases = [(1, 0, 2), (2, 0, 2), (3, 0, 2), (3, 1, 2), (2, 0, 3), (4, 1, 2), (4, 2, 2), (3, 1, 3)]
        if C.thorough:
            cases += [(5, 2, 2), (6, 3, 1), (4, 1, 3), (5, 3, 2), (3, 0, 3)]
        for k, m, pts in cases:
            n += decide(C, 'full range %d %d %d' % (k, m, pts), lambda: full_case(C, P, f, yc, k, m, pts))
    return n


def full_case(C, P, f, yc, k, m, pts):
    I = Interp(P)
    this, xs, secs = mk_matslise(I, k, m)
    U = [[sym('U%d[%d]' % (j, r)) for r in range(4)] for j in range(k + 1)]
    I.opaque['matslise::Matslise::Sector::propagate'] = boundary_flow(P, xs, U)
    l, r = Rec(yc, {'data': Mat(4, 1, U[0])}), Rec(yc, {'data': Mat(4, 1, U[k])})
    ef = I.run(f, this, [I.new(sym('E')), I.new(l), I.new(r), sym('index')])
    inst = '%d sectors, match %d, %d points' % (k, m, pts)
    C.ob('an eigenfunction is returned', inst, ef is not None and not I.throw_cond(), floc(f), '')
    if ef is None:
        return
    ps = [sym('p%d' % i) for i in range(pts)]
    sc = eval_at(I, P, ef, ps, False)
    bad = [e for e in I.events if e['kind'] in ('oob', 'null')]
    d = None
    if sc is not None:
        for p, (v, dv) in zip(ps, sc):
            d = d or same(v, wanted(xs, U, p, 0)) or same(dv, wanted(xs, U, p, 1))
    C.ob('a point gets the value of the sector that holds it, zero outside the domain', inst + ' (one by one)', sc is not None and d is None and not bad, floc(f), d or str(bad[:1]) or 'throws')
    ar = eval_at(I, P, ef, ps, True)
    bad = [e for e in I.events if e['kind'] in ('oob', 'null')]
    d = None
    if ar is not None:
        vals, shape = ar
        if shape != (pts, 2):
            d = 'result is %dx%d' % shape
        for p, (v, dv) in zip(ps, vals):
            d = d or same(v, wanted(xs, U, p, 0)) or same(dv, wanted(xs, U, p, 1))
    C.ob('a point gets the value of the sector that holds it, zero outside the domain', inst + ' (array)', ar is not None and d is None and not bad and I.throw_cond() is False, floc(f), d or str(bad[:1]) or 'throws')
    C.analysed('evaluations', 'full range, ' + inst)


def half_range(C, P):
    n = 0
    for f in one(P, 'matslise::MatsliseHalf::eigenfunction'):
        tu = f['tu']
        if '<double>' not in tu.recs[f['cls']]['key']:
            continue
        yc = tu.recs[tu.strip(f['ps'][1]['t'])['r']]['key']
        for even in (True, False):
            for pts in (0, 1, 2, 3) + ((4, 5) if C.thorough else ()):
                n += decide(C, 'half range %s %d' % (even, pts), lambda: half_case(C, P, f, yc, even, pts))
    return n


def half_case(C, P, f, yc, even, pts):
    tu = f['tu']
    I = Interp(P)
    inner = opaque_eigenfunction('u')
    I.opaque['matslise::Matslise::eigenfunction'] = lambda I, f, this, args, node: Ptr(I.new(inner), True)
    this = I.new(Rec(tu.recs[f['cls']]['key'], {'potential': OFn('V'), 'ms': Ptr(I.new(Rec('matslise::Matslise<double>', {}, 'inner')), True)}, 'half'), 'half')
    ef = I.run(f, this, [I.new(sym('E')), I.new(mk_y('side', yc)), I.new(rc(0 if even else 1))])
    inst = 'half range, %s, %d points' % ('even' if even else 'odd', pts)
    C.analysed('evaluations', inst)
    C.ob('an eigenfunction is returned', inst, ef is not None, floc(f), '')
    if ef is None:
        return
    ps = [sym('p%d' % i) for i in range(pts)]
    sc = eval_at(I, P, ef, ps, False)
    ar = eval_at(I, P, ef, ps, True)
    agree(C, f, I, inst, ps, sc, ar, True)


def agree(C, f, I, inst, ps, sc, ar, sorted_only):
    unsorted = False
    for a, b in zip(ps, ps[1:]):
        unsorted = bor(unsorted, compare('>', a, b))
    bad = [e for e in I.events if e['kind'] in ('oob', 'null')]
    d, t = None, I.throw_cond()
    if sorted_only and I.simplify(unsorted) is True and I.simplify(t) is True:
        return
    if sc is None or ar is None:
        d = 'throws'
    else:
        vals, shape = ar
        if shape != (len(ps), 2):
            d = 'result is %dx%d' % shape
        for (v, dv), (w, dw) in zip(vals, sc):
            for x, y in ((v, w), (dv, dw)):
                d = d or same(ite(t, ZERO, x), ite(t, ZERO, y))
    C.ob('array evaluation agrees with evaluation one by one', inst, d is None and not bad, floc(f), d or str(bad[:1]))
    if not sorted_only:
        ok = t is False
    else:
        ok = same(ite(band(t, bnot(unsorted)), ONE, ZERO), ZERO) is None
    C.ob('evaluation never fails on %s points' % ('sorted' if sorted_only else 'any'), inst, ok, floc(f), 'throws when %s' % show(t))


def sturm_liouville(C, P):
    n = 0
    for f in one(P, 'matslise::SturmLiouville::eigenpairsByIndex'):
        tu = f['tu']
        key = tu.recs[f['cls']]['key']
        if '<double>' not in key:
            continue
        yc = tu.recs[tu.strip(f['ps'][2]['t'])['r']]['key']
        for pts in (0, 1, 2, 3):
            n += decide(C, 'Sturm-Liouville %d' % pts, lambda: sl_case(C, P, f, key, yc, pts))
    return n


def sl_case(C, P, f, key, yc, pts):
    I = Interp(P)
    dom = Rec('matslise::Domain<double>', {'min': sym('rmin'), 'max': sym('rmax')})
    I.opaque['matslise::LiouvilleTransformation::rDomain'] = lambda I, f, this, args, node: I.new(dom)
    I.opaque['matslise::LiouvilleTransformation::r2x'] = lambda I, f, this, args, node: app('r2x', num(I.rv(args[0])))

    def lin(name):
        def h(I, f, this, args, node):
            x, y = num(I.rv(args[0])), I.rv(args[1])
            return y.set('data', Mat(4, 1, [app('%s%d' % (name, i), x, *y.f['data'].e) for i in range(4)]))
        return h
    I.opaque['matslise::LiouvilleTransformation::z2y'] = lin('z2y')
    I.opaque['matslise::LiouvilleTransformation::y2z'] = lin('y2z')
    inner = [opaque_eigenfunction('u%d' % i) for i in range(2)]
    I.opaque['matslise::AbstractMatslise::eigenpairsByIndex'] = lambda I, f, this, args, node: Vec(
        [Tup([sym('i%d' % i), sym('E%d' % i), Ptr(I.new(inner[i]), True)]) for i in range(2)])
    this = I.new(Rec(key, {}, 'sl'), 'sl')
    v = I.run(f, this, [sym('Imin'), sym('Imax'), I.new(mk_y('l', yc)), I.new(mk_y('r', yc))])
    inst = 'Sturm-Liouville, %d points' % pts
    C.analysed('evaluations', inst)
    C.ob('an eigenfunction is returned', inst, v is not None and len(v.e) == 2, floc(f), '')
    if v is None or len(v.e) != 2:
        return
    for j in range(2):
        ef = v.e[j].e[2]
        ps = [sym('p%d' % i) for i in range(pts)]
        sc = eval_at(I, P, ef, ps, False)
        ar = eval_at(I, P, ef, ps, True)
        agree(C, f, I, '%s, pair %d' % (inst, j), ps, sc, ar, False)


def run(C):
    P = Program(only=['matslise/matslise.cpp', 'matslise/halfrange.cpp', 'liouville/sturm_liouville.cpp'])
    C.explanation = ('The evaluators of the eigenfunctions that the solvers return are interpreted on symbolic points (every position relative to the sector boundaries and to each other is a gate). '
                     'Full range: every point must get the value propagated from the end of a sector that holds it, zero outside the domain. Half range and Sturm-Liouville: the array form must agree '
                     'with the one-point form on every gate.')
    n = [full_range(C, P), half_range(C, P), sturm_liouville(C, P)]
    C.require(n[0] >= 5 and n[1] >= 8 and n[2] >= 4, 'too few instances: %s' % n)
    return sum(n)
