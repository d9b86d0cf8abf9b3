"""Polynomial arithmetic is that of polynomials."""
from spec import *

TECHNIQUE = 'abstract interpretation of every operation of the polynomial class with symbolic coefficients; exact identity with polynomial arithmetic'
LEVEL_NOTE = 'All coefficients and arguments (symbolic, exact real arithmetic), for several degrees of the operands; operations of the class that do not compile are not decided.'


def coeffs(I, v):
    if isinstance(v, Loc):
        v = I.load(v)
    (x,) = [x for x in v.f.values() if isinstance(x, (Mat, Vec))]
    return list(x.e)


def val(cs, x):
    r = ZERO
    for c in reversed(cs):
        r = add(mul(r, x), c)
    return r


def der(cs, d):
    for _ in range(d):
        cs = [mul(rc(i), c) for i, c in enumerate(cs)][1:]
    return cs


def integ(cs):
    return [ZERO] + [div(c, rc(i + 1)) for i, c in enumerate(cs)]


def first(cs, f):
    return [f(cs[0])] + cs[1:]


ONEOPS = {
    'addScalar': (('a', 's'), lambda a, s: first(a, lambda c: add(c, s))),
    'scalarAdd': (('a', 's'), lambda a, s: first(a, lambda c: add(c, s))),
    'subScalar': (('a', 's'), lambda a, s: first(a, lambda c: sub(c, s))),
    'scalarSub': (('a', 's'), lambda a, s: first([neg(c) for c in a], lambda c: add(c, s))),
    'mulScalar': (('a', 's'), lambda a, s: [mul(c, s) for c in a]),
    'scalarMul': (('a', 's'), lambda a, s: [mul(c, s) for c in a]),
    'divScalar': (('a', 's'), lambda a, s: [div(c, s) for c in a]),
    'addAssign': (('a', 's'), lambda a, s: first(a, lambda c: add(c, s))),
    'subAssign': (('a', 's'), lambda a, s: first(a, lambda c: sub(c, s))),
    'mulAssign': (('a', 's'), lambda a, s: [mul(c, s) for c in a]),
    'divAssign': (('a', 's'), lambda a, s: [div(c, s) for c in a]),
    'negate': (('a',), lambda a: [neg(c) for c in a]),
    'copy': (('a',), lambda a: a),
    'constant': (('s',), None),
    'zero': ((), None),
    'eval': (('a', 's'), val),
    'derivative0': (('a', 's'), lambda a, x: val(a, x)),
    'derivative1': (('a', 's'), lambda a, x: val(der(a, 1), x)),
    'derivative2': (('a', 's'), lambda a, x: val(der(a, 2), x)),
    'derivative3': (('a', 's'), lambda a, x: val(der(a, 3), x)),
    'poly0': (('a',), lambda a: a),
    'poly1': (('a',), lambda a: der(a, 1)),
    'poly2': (('a',), lambda a: der(a, 2)),
    'poly3': (('a',), lambda a: der(a, 3)),
    'integral': (('a',), integ),
    'integralAt': (('a', 's'), lambda a, x: val(integ(a), x)),
    'equal': (('a', 'b'), None),
    'unequal': (('a', 'b'), None),
    'hornerScheme': (('v', 's'), val),
}
RULE = {'eval': 'a polynomial is evaluated as the sum of its terms', 'derivative': 'derivatives are those of the polynomial', 'poly': 'derivatives are those of the polynomial',
        'integral': 'the integral is the antiderivative that vanishes at 0', 'equal': 'polynomials are equal iff all coefficients are', 'unequal': 'polynomials are equal iff all coefficients are',
        'horner': 'a polynomial is evaluated as the sum of its terms'}
TWOOPS = {
    'plusAssign': lambda a, b: [add(x, y) for x, y in zip(a, b + [ZERO] * len(a))],
    'minusAssign': lambda a, b: [sub(x, y) for x, y in zip(a, b + [ZERO] * len(a))],
    'widen': None,
    'product': None,
}


def product(a, b):
    r = [ZERO] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = add(r[i + j], mul(x, y))
    return r


def run(C):
    C.explanation = ('Every operation of the polynomial class and the Horner scheme are interpreted with symbolic coefficients and argument; the coefficients (or value) of the result must be identical to those of polynomial arithmetic, the operands '
                     'unchanged.')
    P = Program(only=[], harness=['polynomial.cpp'])
    n = 0

    def make(I, f, j, p, nm):
        """a polynomial of degree p as the class stores it"""
        t = f['tu'].ty(f['ps'][j]['t'])
        t = f['tu'].ty(t['e']) if t['k'] in ('r', 'rr') else t
        rec = P.recs[[k for k in P.recs if k == t['s'].replace('const ', '')][0]]
        v = I.construct_repo(rec, [], [rec['tu'].funs[m] for m in rec['methods'] if rec['tu'].funs[m].get('kind') == 'ctor' and not rec['tu'].funs[m]['ps']][0])
        loc = v if isinstance(v, Loc) else I.new(v)
        get = P.find('matslise::Polynomial::operator[]')
        g = [x for x in get if x['tu'].recs[x['cls']]['key'] == rec['key'] and not x.get('const')]
        cs = [sym('%s%d' % (nm, i)) for i in range(p + 1)]
        if g:
            for i, c in enumerate(cs):
                I.store(I.run(g[0], loc, [rc(i)]), c)
        else:
            o = I.load(loc)
            (fld,) = [k for k, x in o.f.items() if isinstance(x, (Mat, Vec))]
            I.store(loc.at(('f', fld)), Mat(p + 1, 1, cs))
        return loc, cs

    def compare(I, v, want):
        if isinstance(want, list):
            got = coeffs(I, v)
            if len(got) != len(want):
                return '%d coefficients instead of %d' % (len(got), len(want))
            for i, (x, y) in enumerate(zip(got, want)):
                d = 'coefficient %d is not set' % i if x is UNDEF else same(x, y)
                if d:
                    return 'coefficient %d: %s' % (i, d)
            return None
        return same(num(I.rv(v)), want)

    def anchor(f):
        """the operation of the library that is called"""
        return 'matslise/util/polynomial.h' if f['n'] != 'hornerScheme' else 'matslise/util/horner.h'

    for nm, (sig, ref) in ONEOPS.items():
        for f in P.find('vh::One::' + nm):
            p = f['tu'].recs[f['cls']]['a'][1]['i']
            inst = '%s, degree %d' % (nm, p)

            def body():
                I = Interp(P)
                args, vals, locs = [], [], []
                for j, q in enumerate(sig):
                    if q == 's':
                        s = sym('s')
                        args.append(I.new(s))
                        vals.append(s)
                    elif q == 'v':
                        cs = [sym('a%d' % i) for i in range(p + 1)]
                        args.append(I.new(Vec(cs)))
                        vals.append(cs)
                    else:
                        loc, cs = make(I, f, j, p, q)
                        locs.append((loc, cs))
                        args.append(loc)
                        vals.append(cs)
                byval = [f['tu'].ty(x['t'])['k'] not in ('r', 'rr') for x in f['ps']]
                v = I.run(f, None, [I.load(x) if b else x for x, b in zip(args, byval)])
                if v is None:
                    C.ob('an operation stays inside the coefficients of its operands', inst, False, anchor(f), str([e for e in I.events][:2]))
                    return
                rule = next((r for k, r in RULE.items() if nm.startswith(k)), 'arithmetic with a number acts on the polynomial')
                if nm in ('equal', 'unequal'):
                    eq = True
                    for x, y in zip(vals[0], vals[1]):
                        eq = band(eq, compare_eq(x, y))
                    d = same(I.rv(v), eq if nm == 'equal' else bnot(eq))
                elif nm == 'constant':
                    d = compare(I, v, [vals[0]] + [ZERO] * p)
                elif nm == 'zero':
                    d = compare(I, v, [ZERO] * (p + 1))
                else:
                    d = compare(I, v, ref(*vals))
                for loc, cs in locs:
                    d = d or compare(I, loc, cs)
                C.analysed('operations', inst)
                C.ob(rule, inst, d is None, anchor(f), d)
            n += decide(C, inst, body, anchor(f)) > 0
    for nm, ref in TWOOPS.items():
        for f in P.find('vh::Two::' + nm):
            p, q = [x['i'] for x in f['tu'].recs[f['cls']]['a'][1:]]
            inst = '%s, degrees %d and %d' % (nm, p, q)

            def body():
                I = Interp(P)
                if nm == 'widen':
                    lb, b = make(I, f, 0, q, 'b')
                    v = I.run(f, None, [lb])
                    d = compare(I, v, b + [ZERO] * (p - q))
                else:
                    la, a = make(I, f, 0, p, 'a')
                    lb, b = make(I, f, 1, q, 'b')
                    byval = f['tu'].ty(f['ps'][0]['t'])['k'] not in ('r', 'rr')
                    v = I.run(f, None, [I.load(la) if byval else la, lb])
                    d = compare(I, v, product(a, b) if ref is None else ref(a, b)) or compare(I, lb, b) or compare(I, la, a)
                C.analysed('operations', inst)
                C.ob('sums, differences and products are those of polynomials', inst, d is None, anchor(f), d)
            n += decide(C, inst, body, anchor(f)) > 0
    return n


def compare_eq(x, y):
    return alg.compare('==', x, y)
