"""The matching error compares, at one common point, the two solutions that start at the two ends."""
from spec import *

TECHNIQUE = 'gated value-graph abstract interpretation, algebraic normal-form equality'
LEVEL_NOTE = 'All energies, boundary conditions, sector layouts (enumerated counts, symbolic positions) in exact real arithmetic; the propagation itself is opaque (decided by P09).'


def prop_handler(log, starts):
    def prop(I, f, this, args, node):
        y = I.rv(args[1])
        E, a, b, us = num(I.rv(args[0])), num(I.rv(args[2])), num(I.rv(args[3])), truth(I.rv(args[4])) if len(args) > 4 else True
        m = y.f['data']
        cells, ths = [None] * (m.r * m.c), []
        for c in range(m.c):
            col = [m.at(i, c) for i in range(m.r)]
            for i in range(m.r):
                cells[i * m.c + c] = app('w%d_' % i, E, a, b, us, *col)
            ths.append(app('theta', E, a, b, us, *col))
        log.append((E, a, b, us))
        starts.append((a, m))
        return Tup([y.set('data', Mat(m.r, m.c, cells)), ths[0] if m.c == 1 else Mat(m.c, 1, ths)])
    return prop


def run(C):
    P = Program(only=['matslise/matslise.cpp', 'matslise/periodic.cpp'])
    C.explanation = ('Value graphs of both matching errors with propagation opaque: the left solution must start at the left end of the domain with the left data, '
                     'the right one at the right end with the right data, both must be taken at the same point of the domain with the same energy and step mode; '
                     'the mismatch is then the Wronskian (scalar) or the difference of the fundamental columns (periodic), the angle the difference of the two angles.')
    n = 0
    for cls in ('Matslise', 'PeriodicMatslise'):
        for f in one(P, 'matslise::%s::matchingError' % cls):
            tu = f['tu']
            key = tu.recs[f['cls']]['key']
            if '<double>' not in key:
                continue
            C.analysed('matching errors', f['qn'])
            for k, m in ((1, 0), (2, 0), (3, 0), (3, 1)) + (((5, 2), (5, 3), (4, 0)) if C.thorough else ()):
                fresh()
                I = Interp(P)
                this, xs, secs = mk_matslise(I, k, m)
                K = [sym('k%d' % i) for i in range(4)]
                if cls == 'PeriodicMatslise':
                    this = I.new(Rec('matslise::PeriodicMatslise<double>', {'matslise': I.load(this), 'K': Mat(2, 2, K)}, 'per'))
                log, starts = [], []
                I.opaque['matslise::Matslise::propagate'] = prop_handler(log, starts)
                E, us = sym('E'), bvar('use_h')
                inst = '%s, %d sectors, match %d' % (f['qn'], k, m)
                if cls == 'Matslise':
                    yc = tu.recs[tu.strip(f['ps'][1]['t'])['r']]['key']
                    l, r = mk_y('l', yc), mk_y('r', yc)
                    v = I.run(f, this, [I.new(E), I.new(l), I.new(r), us])
                else:
                    v = I.run(f, this, [I.new(E), us])
                C.ob('the matching error always exists', inst, v is not None and not I.events, floc(f), str(I.events[:1]))
                if v is None:
                    continue
                bs = []
                for e, a, b, u in log:
                    bs.append(b)
                ok = bool(bs) and all(same(b, bs[0]) is None for b in bs) and bs[0] is not None
                inside = ok and band(compare('<=', xs[0], bs[0]), compare('<=', bs[0], xs[-1])) is True
                C.ob('both solutions are compared at one common point of the domain', inst, ok and inside, floc(f), 'end points %s' % [show(b) for b in bs])
                if not ok:
                    continue
                b = bs[0]
                n += 1

                def w(i, a, col):
                    return app('w%d_' % i, E, a, b, us, *col)

                def th(a, col):
                    return app('theta', E, a, b, us, *col)
                if cls == 'Matslise':
                    lc, rcol = list(l.f['data'].e), list(r.f['data'].e)
                    L = [w(i, xs[0], lc) for i in range(4)]
                    Rr = [w(i, xs[-1], rcol) for i in range(4)]
                    d = same(v.e[0], sub(mul(L[1], Rr[0]), mul(Rr[1], L[0])))
                    C.ob('the mismatch is the Wronskian l\' r - r\' l', inst, d is None, floc(f), d)
                    d = same(v.e[2], sub(th(xs[0], lc), th(xs[-1], rcol)))
                    C.ob('the angle is the left angle minus the right angle', inst, d is None, floc(f), d)
                else:
                    d = dt = None
                    init = next((c for a, c in starts if same(a, xs[0]) is None), None)     # rows: value, derivative, whatever basis the code takes
                    if init is None:
                        raise AnalysisBroken('nothing starts in the left end')
                    y, t = v.e
                    y = y.f['data']
                    for c in range(2):
                        lc = [init.at(0, c), init.at(1, c), ZERO, ZERO]
                        kc = [add(mul(K[0], lc[0]), mul(K[1], lc[1])), add(mul(K[2], lc[0]), mul(K[3], lc[1])), ZERO, ZERO]
                        for i in range(4):
                            d = d or same(y.at(i, c), sub(w(i, xs[0], lc), w(i, xs[-1], kc)))
                        dt = dt or same(t.e[c], div(sub(th(xs[0], lc), th(xs[-1], kc)), PI()))
                    C.ob('the mismatch is the left solution minus the right one started from K times the same data', inst, d is None, floc(f), d)
                    C.ob('the angles are the left minus the right angles in units of pi', inst, dt is None, floc(f), dt)
    C.require(n >= 6, 'too few instances %d' % n)
    return n
