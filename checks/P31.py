"""The angle of a coupled system advances by the change of the argument of det Theta, up to full turns."""
from fractions import Fraction as F
from spec import *

TECHNIQUE = 'abstract interpretation of the angle code over complex rational functions; sums of angles compared as products of complex numbers (exact polynomial identities)'
LEVEL_NOTE = ('Full turns are not counted (the code is known to lose some: DESIGN.md). Systems of one and two equations; the determinants of Theta are arbitrary, the other eigenvalue fixed; oscillating, growing and flat components; both signs of the step. '
              'The continued functions eta_0, eta_1 are assumed to be those of their argument (P12). The sign of a product that is proved real is taken from one point of the connected parameter domain.')

SEC = 'matslise::Matscs::Sector'


def cmul(a, b):
    return sub(mul(a[0], b[0]), mul(a[1], b[1])), add(mul(a[0], b[1]), mul(a[1], b[0]))


def conj(a):
    return a[0], neg(a[1])


def cinv(a):
    n = inv_(add(mul(a[0], a[0]), mul(a[1], a[1])))
    return mul(a[0], n), mul(neg(a[1]), n)


def inv_(x):
    return div(ONE, x)


def split(r):
    """real and imaginary part of a rational function of real symbols and the imaginary unit"""
    out = (ZERO, ZERO)
    for m, c in r.t.items():
        p = (rc(c), ZERO)
        for a, e in m:
            fn, args = alg.A.list[a]
            if fn == 'IMAG':
                z = (ZERO, ONE)
            elif fn == 'inv':
                z = cinv(split(args[0]))
            elif fn in ('re', 'im'):
                z = (split(args[0])[fn == 'im'], ZERO)
            else:
                z = (R({((a, 1),): F(1)}), ZERO)
            if e != int(e):
                raise Unsupported('root of a complex number')
            if e < 0:
                z = cinv(z)
            for _ in range(abs(int(e))):
                p = cmul(p, z)
        out = add(out[0], p[0]), add(out[1], p[1])
    return out


class Angles:
    """angles as symbols, each with a complex number of that argument"""

    def __init__(self, I, turn):
        self.I = I
        self.turn = dict(turn)      # atom -> complex number with that argument
        for nm in ('std::atan2', 'atan2'):
            I.opaque[nm] = self.atan2

    def new(self, z):
        s = sym('angle%d' % len(self.turn))
        self.turn[next(iter(s.atoms()))] = z
        return s

    def atan2(self, I, f, this, args, node):
        return lift(lambda a, b: self.new((b, a)), num(I.rv(args[0])), num(I.rv(args[1])))

    def total(self, r):
        """complex number whose argument is the sum of angles r, up to full turns"""
        p = (ONE, ZERO)
        for m, c in r.t.items():
            d = [(a, e) for a, e in m]
            if len(d) != 1 or d[0][1] != 1:
                raise Unsupported('angle %s' % show(R({m: c})))
            a = d[0][0]
            fn, args = alg.A.list[a]
            if fn == 'pi':
                if c % 2 == 0:
                    continue
                if (2 * c) % 1:
                    raise Unsupported('a fraction of a turn')
                z, k = (ZERO, ONE), int(2 * c) % 4
            else:
                if a in self.turn:
                    z = tuple(split(w)[0] for w in self.turn[a])
                elif fn == 'carg':
                    z = split(args[0])
                else:
                    raise Unsupported('angle %s' % show(R({m: c})))
                if c != int(c):
                    raise Unsupported('a fraction of the angle %s' % show(R({m: F(1)})))
                k = int(c)
            for _ in range(abs(k)):
                p = cmul(p, z if k > 0 else conj(z))
        return p


def is_pi(m):
    return len(m) == 1 and m[0][1] == 1 and alg.A.list[m[0][0]][0] == 'pi'


def full_turns(C, A, got, expected, mp, points, I):
    """text unless the angles got (gated) all have the argument of the complex number expected, up to full turns"""
    res = [None]

    seen = set()

    def leaf(x):
        x = R({m: (c % 2 if is_pi(m) else c) for m, c in x.t.items() if not (is_pi(m) and c % 2 == 0)})
        if x in seen:
            return
        seen.add(x)
        if res[0] is None:
            z = cmul(A.total(x), conj(expected))
            re, im = (alg.subst(w, mp) for w in z)
            if not alg.is_zero(im):
                res[0] = 'the angle %s is not the change of the argument of the determinant' % show(x)
            else:
                for pt in points:
                    v = alg.subst(re, pt).const()
                    if v is None:
                        raise Unsupported('sign of %s' % show(re))
                    if v < 0:
                        res[0] = 'the angle %s is off by half a turn' % show(x)
        return ZERO
    for path, x in paths(num(got)):
        if res[0] is None and path_feasible(path):
            leaf(x)
    return res[0]


def aid(s):
    return next(iter(s.atoms()))


def step_case(C, P, f, n, kinds, sd, tcls):
    I = Interp(P)
    cls = 'matslise::Matscs<double>::Sector'
    E, dl = sym('E'), sym('delta_length', positive=True)
    h = sym('h', positive=True)
    CTX.lt(ZERO, dl)
    CTX.lt(dl, h)
    delta = dl if sd > 0 else neg(dl)
    vs, eta0, eta1, mp, turn, num_pt = [], [], [], {}, {}, [{}, {}]
    k0 = [F(2, 3), F(5, 7), F(3, 11)]
    for i, kd in enumerate(kinds):
        s, u, c, q = sym('s%d' % i, positive=True), sym('u%d' % i), sym('c%d' % i), sym('q%d' % i)
        uu = mul(u, u)
        w2 = div(mul(s, s), mul(dl, dl))
        if kd == 'oscillating':
            vs.append(sub(E, w2))
            mp[aid(c)] = div(sub(ONE, uu), add(ONE, uu))
            mp[aid(q)] = div(mul(rc(2), u), mul(add(ONE, uu), s))
            turn[aid(s)] = (c, mul(s, q))
        elif kd == 'growing':
            vs.append(add(E, w2))
            mp[aid(c)] = div(add(ONE, uu), sub(ONE, uu))
            mp[aid(q)] = div(mul(rc(2), u), mul(sub(ONE, uu), s))
        else:
            vs.append(E)
            mp[aid(c)], mp[aid(q)] = ONE, ONE
        eta0.append(c)
        eta1.append(q)
        for j, pt in enumerate(num_pt):
            pt[aid(s)] = rc(k0[i] + j)
            pt[aid(u)] = rc(F(1, 3 + i + j))
    A = Angles(I, turn)
    y0, y1 = mk_y('y', tcls, 4 * n, n), mk_y('z', tcls, 4 * n, n)
    thetas = []

    def theta(I, f, this, args, node):
        y = I.load(args[0]) if not isinstance(args[0], Rec) else args[0]
        d = I.mat(I.rv(y).f['data'] if not isinstance(y, Rec) else y.f['data'])
        which = 'a' if d.e[0] == y0.f['data'].e[0] else 'b' if d.e[0] == y1.f['data'].e[0] else None
        if which is None:
            raise Unsupported('angle of another state')
        return unit[which]
    def entry(w, i):
        # the first entry is arbitrary, so is the determinant
        if i == 0:
            return add(sym('re%s%d' % (w, i)), mul(sym('IMAG'), sym('im%s%d' % (w, i))))
        return add(rc(F(i, 4)), mul(sym('IMAG'), rc(F(2, i + len(w))))) if i != 1 else ZERO
    unit = {w: Mat(n, n, [entry(w, i) for i in range(n * n)]) for w in 'ab'}
    for j, pt in enumerate(num_pt):
        for wi, w in enumerate('ab'):
            for i in range(n * n):
                pt[aid(sym('re%s%d' % (w, i)))] = rc(F(3 * i + 5 * wi + 2 + j, 7))
                pt[aid(sym('im%s%d' % (w, i)))] = rc(F(2 * i * i + 3 * wi - 4 + 3 * j, 5))
        pt[aid(dl)] = rc(F(4, 9) + j)
        pt[aid(sym('E'))] = rc(2)
    count = [0]

    def eigenvalues(m):
        """numbers on the unit circle, arbitrary but for their product"""
        count[0] += 1
        mu, d = [], models_det(m)
        for i in range(m.r - 1):
            re, im = (F(3, 5), F(4, 5)) if count[0] % 2 else (F(5, 13), F(-12, 13))
            mu.append(add(rc(re), mul(sym('IMAG'), rc(im))))
            d = mul(d, sub(rc(re), mul(sym('IMAG'), rc(im))))
        return Mat(m.r, 1, [d] + mu)
    I.hooks['eigenvalues'] = eigenvalues
    I.opaque[SEC + '::theta'] = theta
    I.opaque[SEC + '::propagateDeltaColumn'] = lambda I, f, this, args, node: y1
    zs = []

    def eta(I, f, this, args, node):
        z = I.mat(I.rv(args[0])) if not isinstance(I.rv(args[0]), (R, D)) else Mat(1, 1, [num(I.rv(args[0]))])
        want = [mul(mul(dl, dl), sub(v, E)) for v in vs]
        bad = len(z.e) != n
        for x, w in zip(z.e, want):
            bad = bad or same(num(x), w) is not None
        zs.append('eta functions of %s' % ', '.join(show(x) for x in z.e) if bad else None)
        return Mat(2, n, eta0 + eta1)
    I.opaque['calculateEta'] = eta
    V = [Mat(n, n, [vs[i] if i == j else sym('v0_%d%d' % (i, j)) for i in range(n) for j in range(n)])]
    V += [Mat(n, n, [sym('v%d_%d' % (k, i)) for i in range(n * n)]) for k in range(1, 9)]
    this = I.new(Rec(cls, {'min': sym('min'), 'max': sym('max'), 'h': h, 'direction': direction('forward'), 'n': rc(n), 'vs': Vec(V),
                           'diagonalize': Mat(n, n, [sym('dg%d' % i) for i in range(n * n)])}), 'S')
    v = I.run(f, this, [I.new(E), I.new(y0), I.new(delta), True])
    inst = '%s, %s, %s step' % (f['qn'], ' and '.join(kinds), 'forward' if sd > 0 else 'backward')
    if v is None or not isinstance(v, Tup):
        C.ob('the angle advances by the change of the argument of det Theta, up to full turns', inst, False, floc(f), 'never returns')
        return
    y, ang = v.e
    bad = [z for z in zs if z]
    if bad:
        raise Unsupported(bad[0])
    expected = cmul(split(models_det(unit['b'])), conj(split(models_det(unit['a']))))
    d = full_turns(C, A, ang, expected, mp, num_pt, I)
    C.ob('the angle advances by the change of the argument of det Theta, up to full turns', inst, d is None, floc(f), d)
    g = I.mat(y.f['data'])
    d = None
    for x, w in zip(g.e, y1.f['data'].e):
        d = d or same(num(x), w)
    C.ob('the state returned is the propagated one', inst, d is None, floc(f), d)
    C.analysed('angle cases', inst)


def models_det(m):
    if m.r == 1:
        return num(m.e[0])
    if m.r == 2:
        return sub(mul(num(m.e[0]), num(m.e[3])), mul(num(m.e[1]), num(m.e[2])))
    raise Unsupported('determinant of order %d' % m.r)


def theta_case(C, P, f, n, tcls):
    I = Interp(P)
    cls = 'matslise::Matscs<double>::Sector'
    y = mk_y('y', tcls, 4 * n, n)
    this = I.new(Rec(cls, {'n': rc(n)}), 'S')
    v = I.run(f, this, [I.new(y)])
    inst = '%s, %d equations' % (f['qn'], n)
    if v is None:
        C.ob('Theta is (Y\' + iY)(Y\' - iY)^-1', inst, False, floc(f), 'never returns')
        return
    m = I.mat(v)
    e = y.f['data']
    i_ = sym('IMAG')
    val = [[e.at(r, c) for c in range(n)] for r in range(n)]
    der = [[e.at(n + r, c) for c in range(n)] for r in range(n)]
    P_ = [[add(der[r][c], mul(i_, val[r][c])) for c in range(n)] for r in range(n)]
    M_ = [[sub(der[r][c], mul(i_, val[r][c])) for c in range(n)] for r in range(n)]
    d = None if (m.r, m.c) == (n, n) else 'a %dx%d matrix' % (m.r, m.c)
    if d is None:
        for r in range(n):
            for c in range(n):
                t = neg(P_[r][c])
                for k in range(n):
                    t = add(t, mul(num(m.at(r, k)), M_[k][c]))
                re, im = split(t)
                if not alg.is_zero(re) or not alg.is_zero(im):
                    d = d or 'entry (%d,%d) is %s' % (r, c, show(m.at(r, c)))
    C.ob('Theta is (Y\' + iY)(Y\' - iY)^-1', inst, d is None, floc(f), d)
    C.analysed('angle cases', inst)


def legs_case(C, P, f, dr, where):
    """the angle over one sector is the sum of those of its steps, which go between anchor and end points"""
    I = Interp(P)
    lo, hi, E = sym('min'), sym('max'), sym('E')
    cls = 'matslise::Matscs<double>::Sector'
    CTX.lt(lo, hi)
    a, b = sym('a'), sym('b')
    tcls = find_ycls(P, 'double', -1, -1)
    steps = []

    def pd(I, f, this, args, node):
        y, d = I.rv(args[1]), num(I.rv(args[2]))
        c = num(y.f['data'].e[0])
        return Tup([mk_const(tcls, app('after', c, d)), app('turned', c, d)])
    I.opaque[SEC + '::propagateDelta'] = pd
    this = I.new(Rec(cls, {'min': lo, 'max': hi, 'h': sub(hi, lo), 'direction': direction(dr), 'n': ONE}), 'S')
    y0 = mk_const(tcls, sym('y'))
    v = I.run(f, this, [I.new(E), I.new(y0), I.new(a), I.new(b), bvar('use_h')])
    inst = '%s, %s' % (f['qn'], dr)
    if v is None:
        C.ob('the angle over one sector is the sum over its steps', inst, False, floc(f), 'never returns')
        return
    outside = bor(band(compare('>=', a, hi), compare('>=', b, hi)), band(compare('<=', a, lo), compare('<=', b, lo)))
    anchor = lo if dr == 'forward' else hi
    off = (lambda x: compare('>', x, lo)) if dr == 'forward' else (lambda x: compare('<', x, hi))
    d1, d2 = sub(anchor, a), sub(b, anchor)
    y = sym('y')
    y_ = ite(off(a), app('after', y, d1), y)
    t = add(ite(off(a), app('turned', y, d1), ZERO), ite(off(b), app('turned', y_, d2), ZERO))
    C.ob('the angle over one sector is the sum over its steps', inst, *verdict(same(num(v.e[1]), ite(outside, ZERO, t)), floc(f)))
    C.analysed('angle cases', inst)


def verdict(d, where):
    return d is None, where, d


def mk_const(cls, x):
    return Rec(cls, {'data': Mat(4, 1, [x, ZERO, ZERO, ZERO])})


def run(C):
    C.explanation = ('theta() must be (Y\' + iY)(Y\' - iY)^-1 as a matrix of complex rational functions. The angle returned for a step is read as a sum of arguments (inverse tangents, arguments of eigenvalues, frequencies times the step length); the product of the complex numbers with these arguments must be a '
                     'positive multiple of det Theta(end) / det Theta(start), using cos^2 + sin^2 = 1 for the eta functions. Over a sector and over several sectors (P09) the angles of the steps are added.')
    P = Program(only=['matscs/sector.cpp'])
    n = 0
    tcls = find_ycls(P, 'double', -1, -1)
    for f in one(P, SEC + '::theta'):
        for k in (1, 2):
            n += decide(C, '%s %d' % (f['qn'], k), lambda: theta_case(C, P, f, k, tcls), floc(f)) > 0
    kinds = [('oscillating',), ('growing',), ('flat',), ('oscillating', 'growing'), ('growing', 'oscillating')]
    if C.thorough:
        kinds += [('oscillating', 'oscillating'), ('flat', 'oscillating'), ('growing', 'growing'), ('growing', 'flat')]
    for f in one(P, SEC + '::propagateDelta'):
        for kd in kinds:
            for sd in (1, -1):
                n += decide(C, '%s %s %d' % (f['qn'], kd, sd), lambda: step_case(C, P, f, len(kd), kd, sd, tcls), floc(f)) > 0
    for f in one(P, SEC + '::propagate'):
        for dr in ('forward', 'backward'):
            n += decide(C, '%s %s' % (f['qn'], dr), lambda: legs_case(C, P, f, dr, floc(f)), floc(f)) > 0
    C.require(n >= 8, 'too few instances %d' % n)
    return 12
