"""The eta functions of the constant perturbation method are their definition for every argument."""
from fractions import Fraction
from math import factorial
from spec import *

TECHNIQUE = 'abstract interpretation of calculateEta in the domain of truncated power series with exact remainder bounds (small arguments) and of closed forms (large arguments)'
LEVEL_NOTE = ('All arguments: for |Z| < 1000 one run per unit interval of Z (quick: every one below 110 and some above, thorough: all), Z symbolic inside it; the truncation error is bounded exactly, rounding errors are not (P90).')


def etacoef(i, k):
    if i == 0:
        return Fraction(1, factorial(2 * k))
    m = i - 1
    return Fraction(2 ** m * factorial(k + m), factorial(k) * factorial(2 * k + 2 * m + 1))


COEF = {}


def coef(i, k):
    if (i, k) not in COEF:
        COEF[i, k] = etacoef(i, k)
    return COEF[i, k]


REL = Fraction(1, 10 ** 15)


def series_error(p, i, zatom, bound):
    """bound of |p(Z) - eta_i(Z)| for |Z| <= bound, or a reason why p is no polynomial in Z"""
    got = {}
    for m, c in p.t.items():
        if m == ():
            got[0] = Fraction(c)
        elif len(m) == 1 and m[0][0] == zatom and m[0][1] > 0:
            got[m[0][1]] = Fraction(c)
        else:
            return None, 'not a polynomial in Z: %s' % alg.show(R({m: c}))
    err = Fraction(0)
    first = None
    top = max(list(got) + [60])
    for k in range(top + 1):
        d = abs(got.get(k, 0) - coef(i, k))
        if d and first is None:
            first = k
        err += d * bound ** k
    # the rest of the series: the ratio of successive terms is below 1/2 from here on
    t = coef(i, top + 1) * bound ** (top + 1)
    k = top + 1
    while coef(i, k + 1) * bound * 2 > coef(i, k):
        err += coef(i, k) * bound ** k
        k += 1
    err += 2 * coef(i, k) * bound ** k
    return err, first


def scalar(C, P, f):
    n = [a['i'] for a in f['a'] if 'i' in a][0]
    cnt = 0
    ks = set()
    for k in range(-1000, 1001):
        if C.thorough or abs(k) <= 110 or abs(k) % 199 == 0:
            ks.add(k)
    worst = [Fraction(0)]

    def body():
        bad = {}
        where = floc(f)
        for k in sorted(ks):
            snap = CTX.push()
            try:
                I = Interp(P)
                Z = sym('Z')
                # int(Z) == k
                if k > 0:
                    CTX.le(rc(k), Z)
                    CTX.lt(Z, rc(k + 1))
                elif k < 0:
                    CTX.lt(rc(k - 1), Z)
                    CTX.le(Z, rc(k))
                else:
                    CTX.lt(rc(-1), Z)
                    CTX.lt(Z, rc(1))
                I.hooks['trunc'] = lambda *a, k=k: rc(k)
                v = I.run(f, None, [Z])
                bound = Fraction(abs(k) + 1)
                C.analysed('intervals of Z', '%d (n=%d)' % (k, n))
                cases = [v] if not isinstance(v, D) else [x for c, x in I.leafconds(v) if I.simplify(c) is not False]
                for v in cases:
                    es = v.e
                    for i in range(n):
                        for c, x in (I.leafconds(es[i]) if isinstance(es[i], D) else [(True, es[i])]):
                            if I.simplify(c) is False:
                                continue
                            if x is UNDEF:
                                bad.setdefault('every eta function is computed', 'eta[%d] for Z near %d is not set' % (i, k))
                                continue
                            only = x.atoms() <= {list(Z.t)[0][0][0]}
                            if only and all(e > 0 for m in x.t for a, e in m):
                                err, first = series_error(x, i, list(Z.t)[0][0][0], bound)
                                if err is None:
                                    bad.setdefault('the series is that of the eta function', first)
                                    continue
                                # values grow like exp(sqrt Z) for positive Z and stay below the value at 0 for negative Z
                                rel = err / coef(i, 0)
                                worst[0] = max(worst[0], rel)
                                if rel > REL:
                                    bad.setdefault('the series agrees with the eta function', 'eta[%d] for Z in the interval of %d: coefficient %s of the series, error up to %.1e of the value at 0' %
                                                   (i, k, first, float(rel)))
                            else:
                                if i == 0:
                                    want = app('cosh', alg.rsqrt(Z)) if k >= 0 else app('cos', alg.rsqrt(neg(Z)))
                                elif i == 1:
                                    want = div(app('sinh', alg.rsqrt(Z)), alg.rsqrt(Z)) if k >= 0 else div(app('sin', alg.rsqrt(neg(Z))), alg.rsqrt(neg(Z)))
                                else:
                                    want = div(sub(es[i - 2], mul(rc(2 * i - 3), es[i - 1])), Z)
                                d = same(x, want)
                                if d:
                                    bad.setdefault('the closed form is that of the eta function', 'eta[%d] for Z in the interval of %d: %s' % (i, k, d))
                                if abs(k) < 20:
                                    bad.setdefault('the closed form is used for large arguments only', 'used for Z in the interval of %d, where it cancels' % k)
            finally:
                CTX.pop(snap)
        inst = '%d functions' % n
        for rule in ('every eta function is computed', 'the series is that of the eta function', 'the series agrees with the eta function', 'the closed form is that of the eta function',
                     'the closed form is used for large arguments only'):
            C.ob(rule, inst, rule not in bad, where, bad.get(rule))
        C.note('eta, %d functions: largest truncation error relative to the value at 0: %.1e' % (n, float(worst[0])))
    cnt += decide(C, 'eta, %d functions' % n, body, floc(f)) > 0
    return cnt


def arrays(C, P, f):
    n = [a['i'] for a in f['a'] if 'i' in a][0]

    def body():
        I = Interp(P)

        def h(I, g, this, args, node):
            if g['tu'].ty(g['ps'][0]['t']).get('s') == 'double':
                z = num(I.rv(args[0]))
                m = [a['i'] for a in g['a'] if 'i' in a][0]
                return Mat(m, 1, [app('eta', rc(i), z) for i in range(m)])
            return NotImplemented
        I.opaque['calculateEta'] = h
        zs = [sym('z%d' % j) for j in range(3)]
        v = I.run(f, None, [I.new(Mat(3, 1, zs))])
        d = None
        ok = isinstance(v, Mat) and (v.r, v.c) == (n, 3)
        if ok:
            for i in range(n):
                for j in range(3):
                    d = d or same(v.at(i, j), app('eta', rc(i), zs[j]))
        C.analysed('array versions', fname(f))
        C.ob('the array version has the functions of every argument as its columns', '%d functions' % n, ok and d is None, floc(f), d)
    return decide(C, 'array version, %d functions' % n, body, floc(f)) > 0


def run(C):
    P = Program(only=['matslise/sector.cpp', 'matscs/sector.cpp'])
    fs = [f for f in P.find('calculateEta') if 'double' in str(f['tu'].ty(f['ps'][0]['t']).get('s'))]
    if not fs:
        raise AnalysisBroken('anchor vanished: calculateEta')
    n = 0
    done = set()
    C.explanation = ('calculateEta is interpreted for Z in each unit interval listed with the number of recursion steps the code chooses there: the result is a polynomial in Z, compared with the Taylor series of the eta function; the sum of '
                     'all deviating terms (the remainder of the series included) is bounded exactly over the interval and must stay below 1e-15 of the value at 0. For large arguments the closed forms must be cosh/sinh, cos/sin of the square '
                     'root and the three-term recursion. The array version must evaluate each argument.')
    for f in fs:
        sc = f['tu'].ty(f['ps'][0]['t']).get('s') == 'double'
        key = (sc, [a['i'] for a in f['a'] if 'i' in a][0])
        if key in done:
            continue
        done.add(key)
        n += scalar(C, P, f) if sc else arrays(C, P, f)
    return n
