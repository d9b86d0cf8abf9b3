"""Propagation entry points reject end points outside the domain (NaN included) and never index
outside the sector list."""
from spec import *

TECHNIQUE = 'gated value-graph abstract interpretation: throw condition of every propagation entry point'
LEVEL_NOTE = 'Sound for the modelled semantics over all symbolic end points (NaN included); container sizes enumerated (1..3 sectors quick, more in thorough).'

ENTRIES = [('matslise::Matslise::propagate', 'ms'), ('matslise::PeriodicMatslise::propagate', 'per'),
           ('matslise::Matscs::propagate', 'cs'), ('matslise::Matscs::propagateColumn', 'cs'),
           ('matslise::Matscs::propagatePsi', 'cs')]


def setup(P, f, kind, k):
    fresh()
    I = Interp(P)

    def ident(ret):
        def h(I, f, this, args, node):
            return ret(I.load(args[1]))
        return h
    I.opaque['matslise::Matslise::Sector::propagate'] = ident(lambda y: Tup([y, theta_like(y)]))
    I.opaque['matslise::Matslise::Sector::theta0'] = lambda I, f, this, args, node: app('theta0')
    I.opaque['matslise::Matscs::Sector::propagate'] = ident(lambda y: Tup([y, sym('dth')]))
    I.opaque['matslise::Matscs::Sector::propagateColumn'] = ident(lambda y: y)
    I.opaque['matslise::Matscs::Sector::propagatePsi'] = ident(lambda y: y)
    return I


def theta_like(y):
    c = y.f['data'].c
    return sym('dth') if c == 1 else Mat(c, 1, [sym('dth%d' % i) for i in range(c)])


def call(P, I, f, kind, k, a, b):
    tu = f['tu']
    if kind == 'cs':
        this, xs, _ = mk_matscs(I, k, max(0, k // 2 - 1))
    else:
        this, xs, _ = mk_matslise(I, k, max(0, k // 2 - 1))
        if kind == 'per':
            ms = I.load(this)
            this = I.new(Rec('matslise::PeriodicMatslise<double>',
                             {'matslise': ms, 'K': Mat(2, 2, [sym('k%d' % i) for i in range(4)])}, 'per'))
    # the parameters by type: E first, the state, then the two end points, the h flag
    args, seen = [], 0
    ends = [a(xs), b(xs)]
    for p in f['ps']:
        t = tu.strip(p['t'])
        if t['k'] == 'b' and t.get('n') == 'bool':
            args.append(True)
        elif t['k'] == 'b':
            seen += 1
            args.append(I.new([sym('E'), ends[0], ends[1]][seen - 1]))
        elif base(t['n']) == 'matslise::Y':
            r, c = t['a'][1]['i'], t['a'][2]['i']
            args.append(I.new(mk_y('y', tu.recs[t['r']]['key'], 4, c if c > 0 else 1)))
        else:
            args.append(I.new(Mat(1, 1, [sym('psi')])))
    v = I.run(f, this, args)
    return xs, v


def run(C):
    P = Program(only=['matslise/matslise.cpp', 'matslise/periodic.cpp', 'matscs/matscs.cpp'])
    C.explanation = ('Value-graph analysis of every propagation entry point over symbolic end points and sector '
                     'boundaries: the gate under which the entry throws is compared, as a decision diagram, with '
                     '"an end point is not inside [min,max]"; NaN end points make every comparison false; sector '
                     'indexing events must have an unsatisfiable gate.')
    C.assume('sector lists tile the domain in increasing order (property P04)')
    ks = [1, 2, 3] + ([4, 5, 6] if C.thorough else [])
    n = 0
    for bn, kind in ENTRIES:
        for f in one(P, bn):
            n += 1
            C.analysed('entry points', f['qn'] + ' ' + str([f['tu'].ty(p['t'])['s'] for p in f['ps']]))
            for k in ks:
                I = setup(P, f, kind, k)
                a, b = sym('a'), sym('b')
                xs, v = call(P, I, f, kind, k, lambda xs: a, lambda xs: b)
                lo, hi = xs[0], xs[-1]
                inside = band(band(compare('<=', lo, a), compare('<=', a, hi)),
                              band(compare('<=', lo, b), compare('<=', b, hi)))
                inst = '%s%s, %d sectors' % (f['qn'], '<%s>' % ','.join(str(x.get('i')) for x in f.get('a', [])) if f.get('a') else '', k)
                d = same(I.throw_cond(), bnot(inside))
                C.ob('rejects exactly the end points outside the domain', inst, d is None, floc(f), d)
                bad = [e for e in I.events if e['kind'] in ('oob', 'null')]
                C.ob('sector index stays in range', inst, not bad, bad[0]['where'] if bad else floc(f),
                     '; '.join('%s at %s when %r' % (e['kind'], e['where'], e['cond']) for e in bad[:3]))
                for which in (0, 1):
                    I = setup(P, f, kind, k)
                    nan = nansym('NaN')
                    mid = lambda xs: xs[0]
                    xs, v = call(P, I, f, kind, k, (lambda xs: nan) if which == 0 else mid,
                                 (lambda xs: nan) if which == 1 else mid)
                    bad = [e for e in I.events if e['kind'] in ('oob', 'null')]
                    C.ob('rejects a NaN end point', inst + ', %s end' % ('first', 'second')[which],
                         I.throw_cond() is True and not bad, floc(f),
                         'not rejected (throw gate %r%s)' % (I.throw_cond(), ', ' + bad[0]['kind'] + ' at ' + bad[0]['where'] if bad else ''))
    C.require(n >= 6, 'expected at least 6 entry points, found %d' % n)
    return 4 * n * len(ks)
