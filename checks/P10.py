"""One propagation step solves the equation with the sampled potential exactly through the order of the method, with its energy derivative."""
from fractions import Fraction
from math import comb, factorial
from spec import *

TECHNIQUE = 'abstract interpretation of the coefficient tables and step formulas into exact polynomials; identity with the power series of the differential equation (Picard recursion), coefficient by coefficient'
LEVEL_NOTE = ('All potentials (Legendre coefficients symbolic), energies, step lengths and points; every monomial through total degree 16 (inside a sector) and 18 (whole sector), for coupled systems 8 and 10, in exact rational '
              'arithmetic. Terms beyond the order of the method and rounding are not decided (P90).')

TINY = div(ONE, rc(10 ** 11))


def legendre(n):
    """coefficients of the shifted Legendre polynomial P_n(2t-1)"""
    return [Fraction((-1) ** (n + k) * comb(n, k) * comb(n + k, k)) for k in range(n + 1)]


def exact(N, D, whole):
    """the solutions u (u(0)=1,u'(0)=0) and v (v(0)=0,v'(0)=1) of y'' = W(d) y, W = sum_n v_n h^n P_n(2d/h-1) (v_0 stands for v_0 - E), through
    total degree D: {(power of d, power of h, word of letters): coefficient}; with `whole` d = h"""
    W = []
    for n in range(N):
        for k, c in enumerate(legendre(n)):
            W.append((k, n - k, n, c))
    out = []
    for start in ((0, 0, ()), (1, 0, ())):
        cur = {start: Fraction(1)}
        tot = dict(cur)
        while cur:
            nxt = {}
            for (p, q, w), c in cur.items():
                for k, j, n, cc in W:
                    p2, q2 = p + k + 2, q + j
                    if p2 + q2 > D + 1:
                        continue
                    key = (p2, q2, (n,) + w)
                    nxt[key] = nxt.get(key, 0) + c * cc / (p2 * (p2 - 1))
            cur = {k: c for k, c in nxt.items() if c}
            for k, c in cur.items():
                tot[k] = tot.get(k, 0) + c
        out.append(tot)
    return out


def diff_d(s):
    return {(p - 1, q, w): c * p for (p, q, w), c in s.items() if p}


def etacoef(i, k):
    """coefficient of Z^k in eta_(i-1)"""
    if i == 0:
        return Fraction(1, factorial(2 * k))
    m = i - 1
    return Fraction(2 ** m * factorial(k + m), factorial(k) * factorial(2 * k + 2 * m + 1))


def names(r):
    """terms of a polynomial as ({name: power}, coefficient)"""
    for mono, c in r.t.items():
        out = {}
        for a, p in mono:
            out[alg.showA(a)] = p
        yield out, Fraction(c)


def compare_series(got, want, D, lo=0):
    """first monomial (through total degree D) in which two series differ"""
    for k in sorted(set(got) | set(want), key=lambda k: (k[0] + k[1], str(k))):
        if k[0] + k[1] <= D and got.get(k, 0) != want.get(k, 0):
            return k, got.get(k, 0), want.get(k, 0)
    return None


def mono(k):
    p, q, w = k
    return '*'.join(['delta^%d' % p, 'h^%d' % q] + ['(v0-E)' if n == 0 else 'v%d' % n for n in w])


class Expand:
    """polynomial in symbols -> power series keyed as in exact()"""

    def __init__(self, syms, D, whole):
        # syms: atom -> ('d'|'h'|'E'|'v',n|'eta',i)
        self.syms, self.D, self.whole = syms, D, whole
        self.eta = {}

    def commutative(self, r, etapos=True):
        out = {}
        if r is UNDEF:
            return None, 'uninitialised coefficient'
        for m, c in r.t.items():
            p = q = 0
            word = []
            etas = []
            epow = 0
            for a, e in m:
                s = self.syms.get(a)
                if s is None or e < 0:
                    return None, 'unexpected %s^%d' % (alg.A.show(a), e)
                if s == 'd':
                    p += e
                elif s == 'h':
                    q += e
                elif s == 'E':
                    epow += e
                elif s[0] == 'v':
                    word += [s[1]] * e
                else:
                    etas += [s[1]] * e
            word.sort()
            z = word.count(0)
            # (v0)^z E^e: v0 = Z + E
            rest = tuple(n for n in word if n)
            if len(etas) > 1:
                return None, 'product of eta functions'
            base_ = (p, q)
            for k in range(z + 1):
                cc = c * comb(z, k)
                key = (etas[0] if etas else None, base_[0], base_[1], rest, k, epow + z - k)
                out[key] = out.get(key, 0) + cc
        fin = {}
        for (e, p, q, rest, zk, ek), c in out.items():
            if not c:
                continue
            if ek:
                return None, 'depends on E beyond v0-E'
            dd = 2 if not self.whole else 0
            k = 0
            while True:
                pp, qq = (p + 2 * k, q) if not self.whole else (p, q + 2 * k)
                if pp + qq > self.D:
                    break
                co = c * (etacoef(e, k) if e is not None else (1 if k == 0 else 0))
                if co:
                    key = (pp, qq, (0,) * (zk + k) + rest)
                    fin[key] = fin.get(key, 0) + co
                if e is None:
                    break
                k += 1
        return {k: c for k, c in fin.items() if c}, None


def sortwords(s, whole=False):
    out = {}
    for (p, q, w), c in s.items():
        key = (0, p + q, tuple(sorted(w))) if whole else (p, q, tuple(sorted(w)))
        out[key] = out.get(key, 0) + c
    return {k: c for k, c in out.items() if c}


def dE(s):
    """derivative with respect to E of a series in (v0-E)"""
    out = {}
    for (p, q, w), c in s.items():
        for i, n in enumerate(w):
            if n == 0:
                key = (p, q, w[:i] + w[i + 1:])
                out[key] = out.get(key, 0) - c
    return {k: c for k, c in out.items() if c}


def atom_of(r):
    (m, c), = r.t.items()
    (a, e), = m
    return a


def cases(x):
    """the possible values of an entry under the current assumptions"""
    if isinstance(x, D):
        return [v for c, v in Interp.last.leafconds(x) if Interp.last.simplify(c) is not False]
    return [x]


def entry(v, part, i, j):
    """leaves of an entry of the propagation matrix, which may itself depend on a decision"""
    out = []
    for t in cases(v):
        for m in cases(t.f[part]):
            out += cases(m.at(i, j))
    return out


def dispatch(C, what, I, this, fpart, ffull, h, E, n):
    """no step at all, the whole step, and the whole step without its own table"""
    t0 = I.run(fpart[0], this, [I.new(E), I.new(ZERO), True])
    d = None
    for part, diag in (('t', ONE), ('dt', ZERO)):
        for i in range(2 * n):
            for j in range(2 * n):
                for x in entry(t0, part, i, j):
                    d = d or same(x, diag if i == j else ZERO)
    C.ob('a step of length zero is the identity', what, d is None, floc(fpart[0]), d)
    w = I.run(ffull[0], this, [I.new(E), True])
    w2 = I.run(fpart[0], this, [I.new(E), I.new(h), True])
    d = None
    for part in ('t', 'dt'):
        for i in range(2 * n):
            for j in range(2 * n):
                for x, y in zip(entry(w, part, i, j), entry(w2, part, i, j)):
                    d = d or same(x, y)
    C.ob('a step of the length of the sector uses the table of the whole step', what, d is None, floc(fpart[0]), d)
    w = I.run(ffull[0], this, [I.new(E), False])
    w2 = I.run(fpart[0], this, [I.new(E), I.new(h), False])
    w3 = I.run(ffull[0], this, [I.new(E), True])
    d = e = None
    for part in ('t', 'dt'):
        for i in range(2 * n):
            for j in range(2 * n):
                for x, y in zip(entry(w, part, i, j), entry(w2, part, i, j)):
                    d = d or same(x, y)
                for x, y in zip(entry(w, part, i, j), entry(w3, part, i, j)):
                    e = e or same(x, y)
    C.ob('without the table of the whole step the formula for inner points is used, which the error estimate compares with', what, d is None and e is not None, floc(ffull[0]), d or 'both are the same formula')


ENTRY = [('value of the first solution', 0, 0), ('value of the second solution', 0, 1), ('derivative of the first solution', 1, 0), ('derivative of the second solution', 1, 1)]


def schrodinger(C, P, only=None):
    n = 0
    key = [k for k in P.recs if base(k) == 'matslise::Matslise::Sector' and 'double' in k]
    if not key:
        raise AnalysisBroken('anchor vanished: Matslise<double>::Sector')
    rec = P.recs[key[0]]
    fs = [f for f in P.find('matslise::Matslise::Sector::calculateT') if f['tu'].recs[f['cls']]['key'] == key[0]]
    ft, = [f for f in P.find('matslise::Matslise::Sector::calculateTCoeffs') if f['tu'].recs[f['cls']]['key'] == key[0]]
    ffull = [f for f in fs if len(f['ps']) == 2]
    fpart = [f for f in fs if len(f['ps']) == 3]
    if not ffull or not fpart:
        raise AnalysisBroken('anchor vanished: Sector::calculateT')

    def setup(nlet):
        I = Interp(P)
        h = sym('h', positive=True)
        CTX.lt(TINY, h)
        E = sym('E')
        V = [sym('v%d' % i) for i in range(nlet)]
        fields = {f['n']: f for f in rec['fields']}
        N = rec['tu'].ty(fields['vs']['t'])['a'][1]['i']
        vv = V[:N] + [ZERO] * (N - len(V))
        f = {'vs': Vec(vv), 'h': h, 'min': ZERO, 'max': h, 'direction': direction('forward')}
        for nm in ('t_coeff', 't_coeff_h'):
            if nm in fields:
                f[nm] = I.default(rec['tu'], fields[nm]['t'], fields[nm])
        this = I.new(Rec(key[0], f, 'sector'))
        args = []

        def eta(I, f, this, a, node):
            z = num(I.rv(a[0]))
            args.append(z)
            k = [x['i'] for x in f['a'] if 'i' in x][0]
            return Mat(k, 1, [sym('eta%d' % i) for i in range(k)])
        I.opaque['calculateEta'] = eta
        I.run(ft, this, [])
        syms = {atom_of(h): 'h', atom_of(E): 'E'}
        syms.update({atom_of(v): ('v', i) for i, v in enumerate(V)})
        syms.update({atom_of(sym('eta%d' % i)): ('eta', i) for i in range(20)})
        return I, this, h, E, syms, args

    def verify(C, inst, v, syms, args, zwant, N, D, whole, where):
        d = None
        for z in args:
            d = d or same(z, zwant)
        C.ob('the eta functions are taken at (v0 - E) times the squared length', inst, bool(args) and d is None, where, d)
        u, w = exact(N, D + 1, whole)
        ref = [u, w, diff_d(u), diff_d(w)]
        X = Expand(syms, D, whole)
        for part, der in (('t', False), ('dt', True)):
            for (what, i, j), r in zip(ENTRY, ref):
                r = sortwords({k: c for k, c in r.items() if k[0] + k[1] <= D}, whole)
                if der:
                    # the energy derivative of a term of degree D keeps its degree
                    r = sortwords(dE(r))
                bad = why = None
                for x in entry(v, part, i, j):
                    got, why = X.commutative(x)
                    if got is None:
                        break
                    bad = bad or compare_series(sortwords(got), r, D)
                if why:
                    C.ob('%s%s is exact through degree %d' % ('energy derivative of the ' if der else '', what, D), inst, False, where, why)
                    continue
                C.analysed('coefficients compared', '%s %s%s: %d' % (inst, 'd/dE ' if der else '', what, len(r)))
                C.ob('%s%s is exact through degree %d' % ('energy derivative of the ' if der else '', what, D), inst, bad is None, where,
                     'coefficient of %s: found %s, expected %s' % (mono(bad[0]), bad[1], bad[2]) if bad else '')

    def inside():
        I, this, h, E, syms, args = setup(14)
        d = sym('delta', positive=True)
        CTX.lt(TINY, d)
        CTX.lt(d, sub(h, TINY))
        syms[atom_of(d)] = 'd'
        v = I.run(fpart[0], this, [I.new(E), I.new(d), True])
        verify(C, 'inside a sector', v, syms, args, mul(sub(sym('v0'), E), mul(d, d)), 14, 16, False, floc(fpart[0]))
    n += decide(C, 'inside a sector', inside, floc(fpart[0])) > 0

    def whole():
        I, this, h, E, syms, args = setup(16)
        v = I.run(ffull[0], this, [I.new(E), True])
        verify(C, 'whole sector', v, syms, args, mul(sub(sym('v0'), E), mul(h, h)), 16, 18, True, floc(ffull[0]))
    n += decide(C, 'whole sector', whole, floc(ffull[0])) > 0

    def disp():
        I, this, h, E, syms, args = setup(16)
        dispatch(C, 'sector', I, this, fpart, ffull, h, E, 1)
    n += decide(C, 'choice of formula', disp, floc(ffull[0])) > 0
    return n


def coupled(C, P):
    """the same for systems; matrix entries in a non-commutative ring (1x1 blocks of letters)"""
    n = 0
    key = [k for k in P.recs if base(k) == 'matslise::Matscs::Sector' and 'double' in k]
    if not key:
        raise AnalysisBroken('anchor vanished: Matscs<double>::Sector')
    rec = P.recs[key[0]]
    fs = [f for f in P.find('matslise::Matscs::Sector::calculateT') if f['tu'].recs[f['cls']]['key'] == key[0]]
    ft, = [f for f in P.find('matslise::Matscs::Sector::calculateTCoeffs') if f['tu'].recs[f['cls']]['key'] == key[0]]
    ffull = [f for f in fs if len(f['ps']) == 2]
    fpart = [f for f in fs if len(f['ps']) == 3]
    if not ffull or not fpart:
        raise AnalysisBroken('anchor vanished: Matscs::Sector::calculateT')
    from alg import ncsym, NC, NC_ORTHO
    NC_ORTHO.add('Q')

    def setup(nlet):
        I = Interp(P)
        h = sym('h', positive=True)
        CTX.lt(TINY, h)
        E = sym('E')
        fields = {f['n']: f for f in rec['fields']}
        N = rec['tu'].ty(fields['vs']['t'])['a'][1]['i']
        V = [Mat(1, 1, [ncsym('v%d' % i, diag=(i == 0)) if i < nlet else ZERO]) for i in range(N)]
        N = nlet
        f = {'vs': Vec(V), 'h': h, 'n': ONE, 'min': ZERO, 'max': h, 'direction': direction('forward'), 'diagonalize': Mat(1, 1, [ncsym('Q')])}
        for nm in ('t_coeff', 't_coeff_h'):
            if nm in fields:
                f[nm] = I.default(rec['tu'], fields[nm]['t'], fields[nm])
        this = I.new(Rec(key[0], f, 'sector'))
        args = []

        def eta(I, f, this, a, node):
            z = I.rv(a[0])
            args.append(z)
            k = [x['i'] for x in f['a'] if 'i' in x][0]
            return Mat(k, 1, [ncsym('eta%d' % i, diag=True) for i in range(k)])
        I.opaque['calculateEta'] = eta
        I.run(ft, this, [])
        return I, this, h, E, N, args
    def expand(x, D, whole, E):
        """ring element -> series; E only through v0 - E"""
        from alg import toNC
        if x is UNDEF:
            return None, 'uninitialised coefficient'
        # back to the basis in which the first coefficient is diagonal
        x = mul(mul(NC({(('Q', True),): ONE}), x), NC({(('Q', False),): ONE}))
        aE = atom_of(E)
        out = {}
        for w, r in toNC(x).t.items():
            letters = [l[0] for l in w]
            if any(l[1] and l[0] != 'v0' for l in w):
                return None, 'transposed factor'
            for m, c in r.t.items():
                p = q = e = 0
                for a, k in m:
                    nm = alg.A.show(a)
                    if nm == 'delta':
                        p += k
                    elif nm == 'h':
                        q += k
                    elif a == aE:
                        e += k
                    else:
                        return None, 'unexpected factor %s' % nm
                if p < 0 or q < 0 or e < 0:
                    return None, 'negative power'
                # words with v0 -> Z + E and eta expanded
                parts = [(Fraction(c), p, q, e, ())]
                for l in letters:
                    nxt = []
                    for cc, p_, q_, e_, ww in parts:
                        if l == 'v0':
                            nxt += [(cc, p_, q_, e_, ww + (0,)), (cc, p_, q_, e_ + 1, ww)]
                        elif l.startswith('v'):
                            nxt.append((cc, p_, q_, e_, ww + (int(l[1:]),)))
                        elif l.startswith('eta'):
                            k = 0
                            while p_ + q_ + 2 * k <= D:
                                nxt.append((cc * etacoef(int(l[3:]), k), p_ + (0 if whole else 2 * k), q_ + (2 * k if whole else 0), e_, ww + (0,) * k))
                                k += 1
                        else:
                            return None, 'unexpected letter ' + l
                    parts = nxt
                for cc, p_, q_, e_, ww in parts:
                    if p_ + q_ <= D:
                        key = (p_, q_, e_, ww)
                        out[key] = out.get(key, 0) + cc
        fin = {}
        for (p, q, e, w), c in out.items():
            if e:
                if abs(c) > TOL:
                    return None, 'depends on E beyond v0-E: %s' % mono((p, q, w))
                continue
            fin[(p, q, w)] = c
        return fin, None

    def close(got, want, D):
        for k in sorted(set(got) | set(want), key=lambda k: (k[0] + k[1], str(k))):
            g, w = got.get(k, 0), want.get(k, 0)
            if k[0] + k[1] <= D and abs(g - w) > TOL * max(1, abs(w)):
                if D == 9 and k[0] == 9:
                    continue        # the method leaves out the term delta^9 eta_5
                return k, g, w
        return None

    def verify(inst, v, args, zwant, E, N, D, whole, where):
        C.ob('the eta functions are taken at (v0 - E) times the squared length', inst, bool(args) and all(same(z.e[0] if isinstance(z, Mat) else z, zwant) is None for z in args), where, str(args))
        u, w = exact(N, D + 1, whole)
        for part, der in (('t', False), ('dt', True)):
            for (what, i, j), r in zip(ENTRY, [u, w, diff_d(u), diff_d(w)]):
                r = {k: c for k, c in r.items() if k[0] + k[1] <= D}
                if der:
                    r = dE(r)
                if whole:
                    r2 = {}
                    for (p, q, ww), c in r.items():
                        r2[(0, p + q, ww)] = r2.get((0, p + q, ww), 0) + c
                    r = r2
                bad = why = None
                for x in entry(v, part, i, j):
                    got, why = expand(x, D, whole, E)
                    if got is None:
                        break
                    bad = bad or close(got, r, D)
                if why:
                    C.ob('%s%s is exact through degree %d' % ('energy derivative of the ' if der else '', what, D), inst, False, where, why)
                    continue
                C.analysed('coefficients compared', '%s %s%s: %d' % (inst, 'd/dE ' if der else '', what, len(r)))
                C.ob('%s%s is exact through degree %d' % ('energy derivative of the ' if der else '', what, D), inst, bad is None, where,
                     'coefficient of %s: found %s, expected %s' % (mono(bad[0]), float(bad[1]), float(bad[2])) if bad else '')

    def inside():
        I, this, h, E, N, args = setup(8)
        d = sym('delta', positive=True)
        CTX.lt(TINY, d)
        CTX.lt(d, sub(h, TINY))
        v = I.run(fpart[0], this, [I.new(E), I.new(d), True])
        z = mul(sub(ncsym('v0', diag=True), E), mul(d, d))
        verify('coupled system, inside a sector', v, args, z, E, N, DC[0], False, floc(fpart[0]))
    n += decide(C, 'coupled system, inside a sector', inside, floc(fpart[0])) > 0

    def whole():
        I, this, h, E, N, args = setup(9)
        v = I.run(ffull[0], this, [I.new(E), True])
        z = mul(sub(ncsym('v0', diag=True), E), mul(h, h))
        verify('coupled system, whole sector', v, args, z, E, N, DC[1], True, floc(ffull[0]))
    n += decide(C, 'coupled system, whole sector', whole, floc(ffull[0])) > 0

    def disp():
        I, this, h, E, N, args = setup(9)
        dispatch(C, 'sector of a coupled system', I, this, fpart, ffull, h, E, 1)
    n += decide(C, 'coupled system, choice of formula', disp, floc(ffull[0])) > 0
    return n


TOL = Fraction(1, 10 ** 10)     # the tables of the coupled case hold decimal fractions of 12 digits
DC = (9, 10)


def run(C):
    P = Program(only=['matslise/matslise_formulas.cpp', 'matslise/sector.cpp', 'matscs/matscs_formulas.cpp', 'matscs/sector.cpp'])
    C.explanation = ('The coefficient tables and the step functions are interpreted with symbolic Legendre coefficients, step lengths, point and energy and with the eta functions as symbols; the result is a polynomial, which after insertion of '
                     'the series of the eta functions is compared monomial by monomial with the power series of the exact solutions (Picard recursion in rational arithmetic): value, derivative and their energy derivatives, inside a sector and '
                     'for the whole sector. For coupled systems the coefficients are letters of a non-commutative ring. Also: identity for a step of length zero, choice of table for the whole step and for the error estimate.')
    return schrodinger(C, P) + coupled(C, P)
