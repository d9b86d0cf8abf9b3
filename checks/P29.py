"""The angle advance of a step is the continuous one: right end angle, right number of half turns."""
from fractions import Fraction as F
from itertools import product
from spec import *

TECHNIQUE = 'abstract interpretation of the angle code over a grid of angles in units of pi (every order of the angles involved), inverse tangents and the change of scale judged by their arguments'
LEVEL_NOTE = ('Angles take values on a grid holding every order of the angles compared, sign patterns and vanishing components included; the code between the inverse tangents is piecewise affine in them. '
              'Arguments of the inverse tangents, scale factors and the change of scale are compared as rational functions. Exact real arithmetic; states that no solution of y\'\' = (V - E) y with V >= E passes through are left out.')

SEC = 'matslise::Matslise::Sector'
HALF = F(1, 2)


class Bad(Exception):
    pass


def pi_times(c):
    return mul(rc(c), PI())


class State:
    """a solution value and derivative whose angle (in half turns, on the scale in force) is known"""

    def __init__(self, name, angle, sign):
        self.name, self.angle = name, angle
        a, b = sym('y_' + name, positive=True), sym('d_' + name, positive=True)
        up = sign > 0
        # angle in (-1/2, 1/2]; sign +: derivative positive (value positive for angle 1/2)
        if angle == 0:
            y, d = ZERO, b
        elif angle == HALF:
            y, d = a, ZERO
        else:
            y, d = (a if angle > 0 else neg(a)), b
        if not up:
            y, d = neg(y), neg(d)
        self.y, self.d = y, d
        self.ysign = 0 if angle == 0 else (1 if (angle > 0) == up else -1)
        self.full = angle if up else (angle - 1 if angle > 0 else angle + 1)
        self.atoms = {'y_' + name, 'd_' + name}


def names_in(v):
    s = set()

    def walk_(x):
        if isinstance(x, R):
            for m in x.t:
                for a, _ in m:
                    s.add(alg.A.show(a))
    walk_(v)
    return s


def mentions(v, st):
    return isinstance(v, R) and bool(names_in(v) & st.atoms)


def sgn(v):
    if num(v).const() is not None:
        c = num(v).const()
        return (c > 0) - (c < 0)
    for op, r in (('>', 1), ('<', -1), ('==', 0)):
        if compare(op, num(v), ZERO) is True:
            return r
    raise Unsupported('sign of %s' % show(v))


class Machine:
    """interpreter whose inverse tangents are looked up"""

    def __init__(self, P, states, factor, sigma):
        self.I = Interp(P)
        self.states, self.factor, self.sigma = states, factor, sigma
        for nm in ('std::atan2', 'atan2'):
            self.I.opaque[nm] = self.atan2
        for nm in ('std::atan', 'atan'):
            self.I.opaque[nm] = self.atan

    def angle_of(self, A, B):
        for st in self.states:
            if mentions(A, st) or mentions(B, st):
                if any(mentions(A, o) or mentions(B, o) for o in self.states if o is not st):
                    raise Bad('an angle mixes two states: of %s over %s' % (show(A), show(B)))
                if same(mul(A, st.d), mul(mul(self.factor, st.y), B)) is not None or sgn(A) * sgn(st.y) < 0 or sgn(B) * sgn(st.d) < 0:
                    if same(mul(A, st.d), mul(mul(self.factor, st.y), B)) is None and sgn(A) == -sgn(st.y) and sgn(B) == -sgn(st.d):
                        return st, -1
                    raise Bad('the angle of %s over %s is taken instead of that of %s over %s' % (show(A), show(B), show(mul(self.factor, st.y)), show(st.d)))
                return st, 1
        return None, 0

    def atan2(self, I, f, this, args, node):
        A, B = num(I.rv(args[0])), num(I.rv(args[1]))
        st, s = self.angle_of(A, B)
        if st is not None:
            full = st.full if s > 0 else (st.full - 1 if st.full > 0 else st.full + 1)
            return pi_times(full)
        return self.correction(A, B)

    def atan(self, I, f, this, args, node):
        x = num(I.rv(args[0]))
        for st in self.states:
            if mentions(x, st):
                if same(mul(x, st.d), mul(self.factor, st.y)) is not None:
                    raise Bad('the angle of %s is taken' % show(x))
                return pi_times(st.angle)
        return self.correction(x, ONE)

    def correction(self, A, B):
        return lift(self.correction_, A, B)

    def correction_(self, A, B):
        """the change of the angle when the scale changes: tan(theta + change) = sigma tan(theta), less than a quarter turn"""
        if self.sigma is None:
            raise Unsupported('inverse tangent of %s over %s' % (show(A), show(B)))
        if A.const() == 0 and B.const() is not None and B.const() > 0:
            return ZERO
        trig = {}
        for v in (A, B):
            for m in v.t:
                for a, _ in m:
                    t = alg.A.show(a)
                    if t.startswith(('sin(', 'cos(')):
                        trig[t[:3]] = a
                        arg = t[4:-1]
                        trig.setdefault('args', set()).add(arg)
        if len(trig.get('args', ())) != 1:
            raise Unsupported('inverse tangent of %s over %s' % (show(A), show(B)))
        arg = trig['args'].pop()
        theta = parse_turns(arg)
        u = sym('u_half_tangent')
        den = add(ONE, mul(u, u))
        sn, cs = div(mul(rc(2), u), den), div(sub(ONE, mul(u, u)), den)
        mp = {}
        if 'sin' in trig:
            mp[trig['sin']] = sn
        if 'cos' in trig:
            mp[trig['cos']] = cs
        A2, B2 = alg.subst(A, mp), alg.subst(B, mp)
        sm = sub(self.sigma, ONE)
        Ae, Be = mul(sm, mul(sn, cs)), add(ONE, mul(sm, mul(sn, sn)))
        if same(mul(A2, Be), mul(Ae, B2)) is not None:
            raise Bad('the change of scale by %s is done with the angle of %s over %s' % (show(self.sigma), show(A), show(B)))
        if same(B2, Be) is not None:
            if same(B2, neg(Be)) is None:
                raise Bad('the change of scale is off by half a turn: angle of %s over %s' % (show(A), show(B)))
            raise Unsupported('change of scale by %s over %s' % (show(A), show(B)))
        return self.change(theta)

    def change(self, theta):
        t = theta % 1
        if t == 0 or t == HALF:
            return ZERO
        return sym('change_at_%s' % t)


def parse_turns(text):
    t = text.strip().replace(' ', '')
    if t == 'pi':
        return F(1)
    if t == '-pi':
        return F(-1)
    if t.endswith('*pi'):
        return F(t[:-3])
    if t == '0':
        return F(0)
    raise Unsupported('angle %s' % text)


def sector(P, key, E, v0, match):
    return Rec(key, {'vs': Vec([v0] + [sym('vs%d' % i) for i in range(1, 16)]), 'v0Match': match, 'h': sym('h', positive=True),
                     'min': sym('min'), 'max': sym('max'), 'direction': rc(1)}, 'sector')


def yval(states, cls):
    cells = [s.y for s in states] + [s.d for s in states] + [sym('dy_%d' % i) for i in range(2 * len(states))]
    n = len(states)
    return Rec(cls, {'data': Mat(4, n, cells)}, 'y')


SCALES = [(F(9, 4), F(3, 2)), (F(1, 2), F(1)), (F(-3), F(1)), (F(1), F(1)), (F(121, 100), F(11, 10)), (F(99, 100), F(1)), (F(400), F(20))]


def elliptic_expected(s0, s1, t):
    """acceptable angle advances (in half turns, local scale) for a solution turning by t at the sector's frequency"""
    a0, a1 = s0.angle, s1.angle
    p = a0 + t
    k = (p - a1).__floor__()
    cands = [a1 + k - 1, a1 + k, a1 + k + 1, a1 + k + 2]
    best = min(abs(c - p) for c in cands)
    out = []
    for c in cands:
        if abs(c - p) != best:
            continue
        if c >= a0:
            out.append(c)
            continue
        # below the start angle: multiples of pi are passed upwards only, at the zeros of y
        prod = s0.ysign * s1.ysign
        passed = c.__floor__() != a0.__floor__() or a0 == 0 or c == 0
        if prod > 0 and not passed:
            out.append(c)
        elif prod < 0 and passed:
            out += [c, c + 1]
        else:
            out.append(c + 1)
    return out


def hyperbolic_expected(s0, s1):
    """angle advance without oscillation, None when no solution goes from s0 to s1"""
    a0, a1 = s0.angle, s1.angle
    up0 = a0 >= 0        # moving away from the axis: stays in (0, 1/2)
    prod = s0.ysign * s1.ysign
    if up0:
        if a1 <= 0 or prod < 0 or a0 == HALF and prod <= 0:
            return None
        if a1 == HALF and a0 != HALF:
            return None
        return a1 - a0
    # a0 in (-1/2, 0)
    if a1 < 0:
        return a1 - a0 if prod > 0 else None
    if a1 == 0:
        return -a0
    if a1 == HALF:
        return F(-1, 2) - a0 if prod > 0 else None
    return a1 - a0 if prod < 0 else a1 - 1 - a0


A0 = [F(-9, 20), F(-1, 5), F(0), F(1, 10), F(2, 5), HALF]
A1 = [F(-2, 5), F(-1, 10), F(0), F(3, 20), F(9, 20), HALF]
T = [F(1, 20), F(3, 10), HALF, F(7, 10), F(1), F(29, 20), F(33, 10)]


def result_cells(I, v):
    v = I.rv(v)
    if isinstance(v, Mat):
        return [num(x) for x in v.e]
    return [num(v)]


def advance(C, P, f, key, cols, branch):
    n, bad = 0, ''
    E, w = sym('E'), sym('w', positive=True)
    ycls = None
    for p in f['ps']:
        t = f['tu'].strip(p['t'])
        if t['k'] == 'rec' and base(t['n']) == 'matslise::Y':
            ycls = f['tu'].recs[t['r']]['key']
    if ycls is None:
        raise AnalysisBroken('%s takes no states' % f['qn'])
    cases = []
    A = product(A0, A1)
    for k, (a0, a1) in enumerate(A):
        for g in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
            if branch == 'oscillating':
                for j, t in enumerate(T):
                    for sc in (SCALES if C.thorough else [SCALES[(k + j) % len(SCALES)]]):
                        cases.append((a0, a1, g, t, sc, None))
            else:
                for sc in SCALES:
                    for eq in (False, True):
                        cases.append((a0, a1, g, F(0), sc, eq))
    if cols == 2 and not C.thorough:
        cases = cases[::3]
    for i, (a0, a1, g, t, sc, eq) in enumerate(cases):
        states = [(State('0', a0, g[0]), State('1', a1, g[1]))]
        if cols == 2:
            b0, b1, h = cases[(i * 7 + 3) % len(cases)][:3]
            states.append((State('2', b0, h[0]), State('3', b1, h[1])))
        exp = []
        S = rc(sc[1])
        if branch == 'oscillating':
            factor, sigma, v0 = w, div(S, w), sub(E, mul(w, w))
            delta = div(pi_times(t), w)
        else:
            factor, sigma, v0 = S, None, (E if eq else add(E, mul(w, w)))
            delta = sym('delta', positive=True)
        M = Machine(P, [s for p in states for s in p], factor, sigma)
        for s0, s1 in states:
            if branch == 'oscillating':
                e = [add(pi_times(c - s0.angle), sub(M.change(c), M.change(s0.angle))) for c in elliptic_expected(s0, s1, t)]
            else:
                c = hyperbolic_expected(s0, s1)
                e = None if c is None else [pi_times(c)]
            exp.append(e)
        if all(e is None for e in exp):
            continue
        n += 1
        I = M.I
        this = I.new(sector(P, key, E, v0, sub(E, rc(sc[0]))), 'sector')
        try:
            v = I.run(f, this, [I.new(E), I.new(delta), I.new(yval([p[0] for p in states], ycls)), I.new(yval([p[1] for p in states], ycls))])
            if v is None:
                raise Bad('fails')
            got = result_cells(I, v)
            if len(got) != cols:
                raise Bad('%d angles for %d columns' % (len(got), cols))
            for k, (x, e) in enumerate(zip(got, exp)):
                if e is not None and all(same(x, y) is not None for y in e):
                    raise Bad('column %d: the angle advances by %s instead of %s' % (k, show(x), ' or '.join(show(y) for y in e)))
        except Bad as b:
            bad = '%s (start angle %s pi, end angle %s pi, signs %s, turn %s pi, scale %s)' % (b, a0, a1, g, t, sc[1])
            break
    inst = '%s, %s, %d column%s' % (f['qn'], branch, cols, 's' if cols > 1 else '')
    C.ob('the angle advance ends at the angle of the end state with the half turns of the solution', inst, not bad and n > 0, floc(f), bad or 'no case')
    C.analysed('angle cases', '%s: %d' % (inst, n))


def start(C, P, f, key):
    n, bad = 0, ''
    E, w = sym('E'), sym('w', positive=True)
    ycls = f['tu'].recs[[f['tu'].strip(p['t']) for p in f['ps'] if f['tu'].strip(p['t'])['k'] == 'rec'][0]['r']]['key']
    for a0, g, sc, branch in product(A0, (1, -1), SCALES, ('oscillating', 'growing', 'flat')):
        st = State('0', a0, g)
        S = rc(sc[1])
        if branch == 'oscillating':
            factor, sigma, v0 = w, div(S, w), sub(E, mul(w, w))
        else:
            factor, sigma, v0 = S, None, (E if branch == 'flat' else add(E, mul(w, w)))
        M = Machine(P, [st], factor, sigma)
        I = M.I
        this = I.new(sector(P, key, E, v0, sub(E, rc(sc[0]))), 'sector')
        n += 1
        try:
            v = I.run(f, this, [I.new(E), I.new(yval([st], ycls))])
            exp = pi_times(a0)
            if branch == 'oscillating':
                exp = add(exp, M.change(a0))
            if v is None or same(num(v), exp) is not None:
                raise Bad('the angle is %s instead of %s' % (show(v), show(exp)))
        except Bad as b:
            bad = '%s (angle %s pi on the local scale, sign %d, scale %s, %s)' % (b, a0, g, sc[1], branch)
            break
    C.ob('the start angle is that of the state on the common scale, within a quarter turn', f['qn'], not bad, floc(f), bad)
    C.analysed('angle cases', '%s: %d' % (f['qn'], n))


def run(C):
    C.explanation = ('The angle functions are interpreted with inverse tangents answered from a table: their arguments must be the value (times the frequency where the solution oscillates, times the common scale '
                     'where it does not) over the derivative of one state. For each order of start angle, end angle and turn the result must be the end angle, plus the half turns made, minus the start angle: '
                     'oscillating, the end angle nearest to the turned start angle, moved on by half a turn where a zero would be passed downwards; not oscillating, the one reached by passing through zero only upwards and through an extremum only downwards. The change to '
                     'the common scale must keep tan(theta) proportional and stay within a quarter turn. The scale is the square root of the energy above the potential of the matching sector where that '
                     'exceeds 1, else 1, the same for all sectors.')
    P = Program('ld' if C.thorough else 'double', only=['matslise/matslise/sector.cpp'])
    for f in one(P, SEC + '::prufer'):
        key = f['tu'].recs[f['cls']]['key']
        cols = [a['i'] for a in f['a'] if 'i' in a][0]
        for branch in ('oscillating', 'not oscillating'):
            decide(C, '%s, %d columns, %s' % (f['qn'], cols, branch), lambda: advance(C, P, f, key, cols, branch))
    for f in one(P, SEC + '::theta0'):
        key = f['tu'].recs[f['cls']]['key']
        decide(C, f['qn'], lambda: start(C, P, f, key))
    return 4
