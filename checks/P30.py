"""The periodic solvers find, for every arrangement of the spectrum, exactly the eigenvalues asked for, with their index and multiplicity."""
from fractions import Fraction as F
from spec import *
import P20

TECHNIQUE = 'abstract interpretation of the periodic eigenvalue searches over a Floquet ladder: energies only through their place among band edges, angle matches and extrema; start data judged symbolically for every coupling matrix'
LEVEL_NOTE = ('Every arrangement of band edges, coinciding pairs, angle matches and extrema of the mismatch on a ladder of up to 8 zones that the enumeration holds (quick a part of it), index ranges inside 0..5, energy intervals ending anywhere on the ladder; '
              'the start data for every real coupling matrix of determinant one. The mismatch and the angles are exact in the model; rounding and the accuracy of the transfer matrices are not decided.')

KS = {'identity': (1, 0, 0, 1), 'minus identity': (-1, 0, 0, -1),
      'y scaled': (F(1, 2), 0, -3, 2), 'y scaled and flipped': (-2, 0, 5, F(-1, 2)),
      'coupled, periodic type': (F(1, 3), -2, 1, -3), 'weakly coupled, periodic type': (2, F(-1, 4), -2, F(3, 4)), 'derivative only, periodic type': (0, F(-3, 2), F(2, 3), 1),
      'coupled backwards, periodic type': (-2, -1, 3, 1),
      'coupled, antiperiodic type': (F(-1, 3), 2, -1, 3), 'coupled forwards, antiperiodic type': (2, 1, -3, -1), 'derivative only, antiperiodic type': (0, 1, -1, F(1, 2)),
      'weakly coupled, antiperiodic type': (-2, F(1, 4), 2, F(-3, 4))}


def anti(K):
    return K[1] > 0 or K[1] == 0 and K[0] < 0


class Ladder:
    """zones of the spectrum: zone n holds the matches of both columns with angle n; those of one parity end in eigenvalues"""

    def __init__(self, anti, shape, unit, shift, zones=9):
        self.anti, self.unit, self.shift, self.zones = anti, unit, shift, zones
        self.edges, self.mu, self.top = [], [], []
        for n in range(zones):
            kind, m0, m1, t = shape[n % len(shape)] if n else shape[-1]
            a, b = (10 * n, 10 * n + 4)
            if kind == 'closed' and n:
                a = b = m0 = m1 = t = 10 * n + 2
            elif kind == 'narrow' and n:
                m0, m1, t = (10 * n + 2 + (x - 2) * NARROW / unit / 4 for x in (m0, m1, t))
                a, b = 10 * n + 2 - NARROW / unit / 2, 10 * n + 2 + NARROW / unit / 2
            else:
                m0, m1, t = 10 * n + m0, 10 * n + m1, 10 * n + t
            self.edges.append([self.at(x) for x in (a, b)])
            self.mu.append([self.at(m0), self.at(m1)])
            self.top.append(self.at(t))
        # the corners of the mismatch
        pts = []
        for n in range(zones):
            own = (n % 2 == 1) == anti
            a, b = self.edges[n]
            top = self.top[n] if a < self.top[n] < b else (a + b) / 2
            if n == 0:
                pts += [(b, F(0))] if own else [(b - self.unit, F(-5)), (b, F(-4))]
            elif a == b:
                pts += [(a, F(0) if own else F(-4))]
            elif own:
                pts += [(a, F(0)), (top, F(1)), (b, F(0))]
            else:
                pts += [(a, F(-4)), (top, F(-5)), (b, F(-4))]
        self.pts = pts

    def at(self, x):
        return (F(x) + self.shift) * self.unit

    def eigenvalues(self):
        """[(first index, energy, multiplicity)]"""
        out = []
        for n in range(self.zones):
            if (n % 2 == 1) != self.anti:
                continue
            a, b = self.edges[n]
            if n == 0:
                out.append((0, b, 1))
            elif a == b:
                out.append((n - 1, a, 2))
            else:
                out += [(n - 1, a, 1), (n, b, 1)]
        return out

    def theta(self, c, E, late):
        """angle of column c in half turns; late: the column counts from the next zone"""
        mu = [m[c] for m in self.mu][late:]
        if E <= mu[0]:
            return -1 + 1 / (1 + (mu[0] - E) / (10 * self.unit))
        for n, (a, b) in enumerate(zip(mu, mu[1:])):
            if E <= b:
                return n + (E - a) / (b - a)
        return len(mu) - 1 + (E - mu[-1]) / (10 * self.unit)

    def mismatch(self, E):
        """D - 2 and its derivative, up to the sign of the type"""
        p = self.pts
        if E <= p[0][0]:
            s = F(-1 if not self.anti else 1)
            return p[0][1] + s * (E - p[0][0]) / self.unit, s / self.unit
        for (a, u), (b, v) in zip(p, p[1:]):
            if E <= b:
                return u + (v - u) * (E - a) / (b - a), (v - u) / (b - a)
        return p[-1][1] - (E - p[-1][0]) / self.unit, -1 / self.unit


class Query:
    def __init__(self, P, name, K, ladder):
        self.f, key = P20.periodic(P, name)
        self.I = I = Interp(P)
        ms, self.xs, _ = mk_matslise(I, 2, 0)
        self.K = [F(k) for k in K]
        self.this = I.new(Rec(key, {'matslise': I.load(ms), 'K': Mat(2, 2, [rc(k) for k in self.K])}, 'pm'), 'pm')
        self.ladder, self.left = ladder, None
        I.opaque['matslise::Matslise::propagate'] = self.propagate

    def propagate(self, I, f, this, args, node):
        y = I.rv(args[1])
        d = P20.data(I, y)
        if d.c != 2:
            return NotImplemented
        E, a = num(I.rv(args[0])).const(), num(I.rv(args[2]))
        W = [num(x).const() for x in d.e[:4]]
        if E is None or None in W:
            raise Unsupported('energy or start data not fixed: %s' % show(I.rv(args[0])))
        (n,) = y.f
        if same(a, self.xs[0]) is None:
            return Tup([y.set(n, Mat(4, 2, [rc(x) for x in W] + [ZERO] * 4)), Mat(2, 1, [mul(rc(t), PI()) for t in self.angles(E, W)])])
        if same(a, self.xs[-1]) is not None:
            raise Unsupported('transfer from %s' % show(a))
        # the transfer matrix G K^-1 with the trace of G the discriminant
        D, dD = self.ladder.mismatch(E)
        D += 2
        k = self.K
        inv = [k[3], -k[1], -k[2], k[0]]
        Z = mul2(inv, W)
        out = mul2([D, F(-1), F(1), F(0)], Z) + mul2([dD, F(0), F(0), F(0)], Z)
        return Tup([y.set(n, Mat(4, 2, [rc(x) for x in out])), Mat(2, 1, [ZERO, ZERO])])

    def angles(self, E, X):
        KX = mul2(self.K, X)
        out = []
        for c in range(2):
            p = X[c] * KX[c] * (-1 if anti(self.K) else 1)
            if p == 0:
                raise Unsupported('a start column vanishes in an end point')
            out.append(self.ladder.theta(c, E, 1 if p < 0 else 0))
        return out


def mul2(a, b):
    return [a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3]]


def search(C, P, kname, K, shape, unit, shift, by_index, lo, hi):
    L = Ladder(anti(K), shape, unit, shift)
    Q = Query(P, 'eigenvaluesByIndex' if by_index else 'eigenvalues', K, L)
    want = []
    if not by_index:
        lo, hi = L.at(lo), L.at(hi)
    for i, E, m in L.eigenvalues():
        if (i < hi and i + m - 1 >= lo) if by_index else lo <= E < hi:
            want.append((i, E, m))
    inst = '%s, %s, %s %s..%s' % (kname, describe(shape, unit, shift), 'indices' if by_index else 'energies', lo if by_index else float(lo), hi if by_index else float(hi))
    bad, v = '', None
    Q.I.MAXLOOP = 1000
    try:
        v = Q.I.run(Q.f, Q.this, [rc(lo), rc(hi)] if by_index else [Q.I.new(rc(lo)), Q.I.new(rc(hi))])
    except Unsupported as e:
        # every number is a fixed place on the ladder: the loop goes on for ever, or at least much longer than any bisection
        if 'loop bound exceeded' not in str(e):
            raise
        bad = 'the search does not come to an end: %s' % e
    if bad:
        pass
    elif v is None or Q.I.throw_cond():
        bad = 'the query fails'
    else:
        got = P20.entries(P20.expand(Q.I, v))
        if got is None:
            raise Unsupported('result %r' % (v,))
        got = [(i, E.const(), m) for i, E, m, _ in got]
        tol = NARROW / 6 if any(z[0] == 'narrow' for z in shape) else unit / 100
        if len(got) != len(want) or any(a[0] != b[0] or a[2] != b[2] or abs(a[1] - b[1]) > tol for a, b in zip(got, want)):
            bad = 'found %s instead of %s' % (text(got), text(want))
    C.ob('exactly the eigenvalues asked for are found, with index and multiplicity', inst, not bad, floc(Q.f), bad)
    C.analysed('searches', inst)
    return 1


def text(es):
    return ', '.join('%d: %.6g%s' % (i, float(E), ' (double)' if m == 2 else '') for i, E, m in es) or 'nothing'


def describe(shape, unit, shift):
    return 'zones %s, unit %s, shift %s' % (' '.join('closed' if s[0] == 'closed' else '%s%d/%d/%d' % (('narrow ' if s[0] == 'narrow' else '',) + s[1:]) for s in shape), float(unit), shift)


def start(C, P, sign):
    """the start data for every coupling matrix with the given sign of K01 and case of K00"""
    s01, case = sign
    f, key = P20.periodic(P, 'matchingError')
    I = Interp(P)
    ms, xs, _ = mk_matslise(I, 2, 0)
    k1, g = sym('k1', positive=True), sym('g', positive=True)
    if s01 == 0:
        k = [mul(rc(case), g), ZERO]
        type_ = case
    else:
        type_ = -s01
        # K00 (-K00 if antiperiodic) against |K01|
        own = {'above': add(k1, g), 'equal': k1, 'less': sub(k1, g)}[case]
        k = [mul(rc(type_), own), mul(rc(s01), k1)]
    K = k + [sym('K10'), sym('K11')]
    this = I.new(Rec(key, {'matslise': I.load(ms), 'K': Mat(2, 2, K)}, 'pm'), 'pm')
    seen = []

    def propagate(I, f, this, args, node):
        y = I.rv(args[1])
        d = P20.data(I, y)
        if d.c != 2:
            return NotImplemented
        seen.append((num(I.rv(args[2])), d))
        return Tup([y, Mat(2, 1, [sym('a%d' % len(seen)), sym('b%d' % len(seen))])])
    I.opaque['matslise::Matslise::propagate'] = propagate
    I.run(f, this, [I.new(sym('E'))] + ([rc(0)] if len(f['ps']) > 1 else []))
    inst = 'K01 %s, K00 %s' % ({0: 'zero', 1: 'positive', -1: 'negative'}[s01], case if s01 else 'of sign %d' % case)
    left = [d for a, d in seen if same(a, xs[0]) is None]
    right = [d for a, d in seen if same(a, xs[-1]) is None]
    bad = ''
    if not left or not right or len(left) + len(right) != len(seen):
        raise AnalysisBroken('matchingError does not start in both ends')
    for l, r in zip(left, right):
        for j in range(2):
            if not keeps(mul(mul(l.at(0, j), r.at(0, j)), rc(type_))):
                bad = bad or 'column %d: y goes from %s to %s, the angle then counts from another eigenvalue' % (j, show(l.at(0, j)), show(r.at(0, j)))
            for i in range(2):
                w = add(mul(K[2 * i], l.at(0, j)), mul(K[2 * i + 1], l.at(1, j)))
                if same(r.at(i, j), w) is not None:
                    bad = bad or 'the right start data are not K times the left ones: %s, not %s' % (show(r.at(i, j)), show(w))
        det = sub(mul(l.at(0, 0), l.at(1, 1)), mul(l.at(0, 1), l.at(1, 0)))
        if compare('==', det, ZERO) is not False:
            bad = bad or 'the start columns are dependent'
    C.ob('the start columns are independent and K keeps the sign of y (turns it, if antiperiodic), so angles count from the first eigenvalue', inst, not bad, floc(f), bad)
    C.analysed('start data', inst)
    return 1


def keeps(v):
    """is the value positive for every K of the case?"""
    v = num(v)
    ok = compare('>', v, ZERO)
    if ok is True or ok is False:
        return ok
    if all(sum(abs(e) for _, e in m) <= 1 for m in v.t) and P20.possible([(v, ZERO, False)]):
        return False
    raise Unsupported('sign of %s' % show(v))


# (kind, match of column 0, match of column 1, extremum) within a zone of width 4
OPEN = [('open', 0, 1, 2), ('open', 3, 4, 1), ('open', 1, 2, 3), ('open', 4, 0, 2), ('open', 2, 2, 1), ('open', 0, 4, 3), ('open', 1, 3, 1), ('open', 4, 3, 3), ('open', 1, 0, 3), ('open', 3, 1, 1)]
CLOSED = ('closed', 0, 0, 0)
# two eigenvalues 20 times the tolerance of the search apart
NARROW = F(2, 10 ** 7)
NEAR = [('narrow', 1, 2, 3), ('narrow', 2, 3, 1), ('narrow', 0, 4, 2)]


def shapes():
    out = [[CLOSED, OPEN[2]], [OPEN[0]], [OPEN[1]], [CLOSED, CLOSED, OPEN[3]]]
    n = len(OPEN)
    for j in range(n):
        out.append([OPEN[j], OPEN[(3 * j + 1) % n], OPEN[(7 * j + 2) % n]])
        out.append([OPEN[j], CLOSED, OPEN[(3 * j + 4) % n], OPEN[(j + 5) % n]])
        out.append([CLOSED, OPEN[j], OPEN[(j + 1) % n]])
    return out


SCALES = [(F(1, 1000), 0), (F(1, 1000), -30), (F(1, 10), -25), (F(2), -33), (F(1, 1000), 700), (F(2), -20), (F(1, 10), -12), (F(1, 2), -24)]
RANGES = [(0, 1), (0, 4), (1, 2), (2, 5), (3, 4), (0, 2), (1, 4), (2, 3), (4, 5), (5, 6)]
INTERVALS = [(-5, 36), (5, 25), (-40, 8), (3, 31), (9, 13), (13, 19), (7, 41), (-9, 1), (11, 37), (17, 33)]


def run(C):
    C.explanation = ('Floquet theory puts the matches of the two start columns, the band edges and the extrema of the mismatch of both solutions on a ladder of zones: zone n holds exactly one match of each column with angle n half turns, '
                     'zones of one parity end in the eigenvalues (closed ones in a double eigenvalue), the mismatch has one sign inside these and the other outside. The searches are interpreted with energies that are places on such a ladder: angles, mismatch and its '
                     'derivative answer according to the place only. Whatever the arrangement, the list returned must be the eigenvalues of the ladder in the range asked for. That the angles count from the first zone is what the start '
                     'data must ensure: K (-K if antiperiodic) keeps the sign of y of both columns; this is decided for every K, the ladder shifts by a zone for a column that breaks it.')
    C.assume('Floquet theory: each zone of the spectrum holds exactly one match of each start column; det(L - R) is -det(X) (2 - D) with X the start columns and D the discriminant.')
    P = Program('double', only=['matslise/periodic.cpp', 'matslise/matslise.cpp'])
    n = 0
    for sign in [(0, 1), (0, -1)] + [(s, c) for s in (1, -1) for c in ('above', 'equal', 'less')]:
        n += decide(C, 'start data %s' % (sign,), lambda: start(C, P, sign))
    sh = shapes()
    cases = []
    for j, (kname, K) in enumerate(KS.items()):
        for q in range(len(RANGES)):
            for by_index in (True, False):
                for r in range(1 if not C.thorough else 6):
                    s = sh[(7 * j + 3 * q + (11 if by_index else 0) + 5 * r) % len(sh)]
                    sc = SCALES[(j + q + r) % len(SCALES)]
                    cases.append((kname, K, s) + sc + (by_index,) + (RANGES if by_index else INTERVALS)[q])
    if not C.thorough:
        cases = [c for i, c in enumerate(cases) if i % 2 == 0 or c[0] in ('identity', 'minus identity')]
    for j, (kname, K) in enumerate(KS.items()):
        if C.thorough or kname in ('identity', 'minus identity', 'coupled, periodic type'):
            for r in range(3 if C.thorough else 1):
                for by_index in (True, False):
                    cases.append((kname, K, [NEAR[(j + r) % 3], OPEN[(j + r) % 3]], F(1, 1000), -25 if r else 0, by_index) + ((0, 4) if by_index else (-5, 36)))
    n += spread(C, [('%s %s %s' % (c[0], describe(*c[2:5]), c[5:]), lambda c=c: search(C, P, *c)) for c in cases])
    return 100
