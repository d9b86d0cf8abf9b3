"""Quadrature: Legendre coefficients are exact for all polynomials the rule can integrate, and the polynomial built from them is their sum."""
from fractions import Fraction
from math import comb
from spec import *

TECHNIQUE = 'abstract interpretation of the quadrature over an uninterpreted integrand and symbolic interval; exact rational evaluation of the resulting linear functional on all monomials; literal tables of the wider types read from the syntax tree'
LEVEL_NOTE = ('All integrands and intervals (the integrand is uninterpreted, the interval symbolic); every table size instantiated, for double, long double and float128; moments exact in rational arithmetic, tolerance a few units of rounding of the scalar type.')

EPS = {'double': Fraction(1, 2 ** 52), 'long double': Fraction(1, 2 ** 63), 'float128': Fraction(1, 2 ** 112)}


def legendre(n):
    return [Fraction((-1) ** (n + k) * comb(n, k) * comb(n + k, k)) for k in range(n + 1)]


MEMO = {}


def moment(i, m):
    """(2i+1) * integral over [0,1] of t^m P_i(2t-1)"""
    if (i, m) not in MEMO:
        MEMO[i, m] = (2 * i + 1) * sum(c / (m + k + 1) for k, c in enumerate(legendre(i)))
    return MEMO[i, m]


def test_rule(rows, n, k, eps):
    """rows[i] = [(t_j, weight of f(t_j))], t in units of the interval. None, or the moment that is wrong"""
    for i, row in enumerate(rows):
        scale = sum(abs(w) for t, w in row)
        for m in range(2 * k - i):
            got = sum(w * t ** m for t, w in row)
            if abs(got - moment(i, m)) > 8 * eps * max(scale, 1):
                return 'coefficient %d of t^%d is %.17g instead of %.17g' % (i, m, float(got), float(moment(i, m)))
    return None


def scal(s):
    return 'float128' if 'float128' in s else 'long double' if 'long double' in s else 'double'


def functional(x, a, H):
    """a value linear in f(a + t H), homogeneous in 1/H -> [(t, weight)], power of H"""
    aa, = [q for (q, e), in a.t]
    ah, = [q for (q, e), in H.t]
    if x is UNDEF:
        return None, 'computed from a table that is not initialised'
    out = {}
    powers = set()
    for m, c in x.t.items():
        t = None
        p = 0
        for q, e in m:
            if q == ah:
                p = e
                continue
            fn, args = alg.A.list[q]
            if fn != 'f' or len(args) != 1 or e != 1 or t is not None:
                return None, 'not linear in the values of the integrand: %s' % alg.show(x)
            arg = args[0]
            la = arg.t.get(((aa, 1),), 0)
            lh = arg.t.get(((ah, 1),), 0)
            if la != 1 or set(arg.t) - {((aa, 1),), ((ah, 1),)}:
                return None, 'the integrand is evaluated at %s' % alg.show(arg)
            t = Fraction(lh)
        if t is None:
            return None, 'constant term'
        powers.add(p)
        out[t] = out.get(t, 0) + Fraction(c)
    if len(powers) > 1:
        return None, 'different powers of the length'
    return sorted(out.items()), (powers.pop() if powers else 0)


def run_rule(P, f, ends=None):
    I = Interp(P)
    a = sym('a')
    H = sym('H', positive=True)
    v = I.run(f, None, [I.new(OFn('f')), a, add(a, H)])
    return I, v, a, H


def semantic(C, P):
    n_ = 0
    memo = {}
    for f in P.find('vh::coefficients') + P.find('vh::coefficientsAgain'):
        sc = scal(f['tu'].ty(f['ps'][1]['t'])['s'])
        if sc == 'float128':
            continue
        n = f['a'][1]['i']
        inst = '%d coefficients, %s%s' % (n, sc, ', asked twice' if 'Again' in f['qn'] else '')

        def body():
            I, v, a, H = run_rule(P, f)
            bad = None
            rows = []
            for i, x in enumerate(v.e):
                r, p = functional(x, a, H)
                if r is None:
                    bad = bad or 'coefficient %d: %s' % (i, p)
                    continue
                if p != -i:
                    bad = bad or 'coefficient %d is proportional to the length to the power %d' % (i, p)
                rows.append(r)
                if any(t < 0 or t > 1 for t, w in r):
                    bad = bad or 'the integrand is evaluated outside the interval'
            memo[sc, n] = v
            C.ob('the coefficients are homogeneous functionals of values inside the interval', inst, bad is None and len(rows) == n, where(P, f), bad)
            if bad is None:
                k = n + n % 2
                bad = test_rule(rows, n, k, EPS[sc])
                C.ob('Legendre coefficients are exact for every polynomial the rule can integrate', inst, bad is None, where(P, f), bad)
                C.analysed('moments compared', '%s: %d' % (inst, sum(2 * k - i for i in range(n))))
        n_ += decide(C, inst, body, floc(f)) > 0
    for f in P.find('vh::polynomial') + P.find('vh::polynomialAgain'):
        sc = scal(f['tu'].ty(f['ps'][1]['t'])['s'])
        if sc == 'float128':
            continue
        n = f['a'][1]['i']
        inst = 'polynomial of degree %d, %s%s' % (n - 1, sc, ', asked twice' if 'Again' in f['qn'] else '')

        def body():
            I, v, a, H = run_rule(P, f)
            cs = memo.get((sc, n))
            if cs is None:
                raise Unsupported('coefficients not available')
            got = poly(I, v)
            bad = None if len(got) == n else '%d coefficients' % len(got)
            for j, g in enumerate(got):
                w = ZERO
                for i in range(n):
                    L = legendre(i)
                    if j <= i:
                        w = add(w, mul(rc(L[j]), mul(alg.rpow(H, i), cs.e[i])))
                d = same(g, w)
                bad = bad or (d and 'coefficient of t^%d: %s' % (j, d[:300]))
            C.ob('the polynomial is the sum of the Legendre polynomials with these coefficients, in units of the interval', inst, bad is None, where(P, f, 'asPolynomial'), bad)
        n_ += decide(C, inst, body, floc(f)) > 0
    return n_


def where(P, f, n='getCoefficients'):
    fs = P.find('matslise::legendre::Legendre::' + n)
    return floc(fs[0]) if fs else floc(f)


def poly(I, v):
    """coefficients of a matslise::Polynomial"""
    if isinstance(v, Loc):
        v = I.load(v)
    (x,) = [x for x in v.f.values() if isinstance(x, (Mat, Vec))]
    return list(x.e)


def literals(node, out, sign=1):
    """numbers of a comma-initialised table in textual order"""
    if isinstance(node, dict):
        k = node.get('k')
        if k in ('flt', 'int'):
            src = node.get('src') or node.get('v')
            txt = str(src).rstrip('fFlLqQ').replace("'", '')
            out.append((sign * Fraction(txt), node))
            return
        s = sign
        if k == 'un' and node.get('op') == '-':
            s = -sign
        for key, x in node.items():
            if key not in ('l', 't'):
                literals(x, out, s)
    elif isinstance(node, list):
        for x in node:
            literals(x, out, sign)


def tables(C, P):
    n_ = 0
    tabs = {}
    for tu in P.tus:
        for var in tu.vars.values():
            b = base(var['n'])
            if b.startswith('matslise::legendre::') and b.rsplit('::', 1)[1] in ('nodes', 'weights') and var.get('init') is not None:
                out = []
                literals(var['init'], out)
                t = tu.ty(var['t'])
                tabs[scal(t['s']), b.rsplit('::', 1)[1], len(out)] = ([x for x, _ in out], [tu.ty(q['t'])['s'] for _, q in out], tu, var)
    for (sc, kind, cnt), (vals, tys, tu, var) in sorted(tabs.items(), key=lambda x: str(x[0])):
        if kind != 'nodes':
            continue
        k = cnt
        w = tabs.get((sc, 'weights', k * k))
        inst = 'table of %d points, %s' % (k, sc)
        if w is None:
            C.undecided(inst, 'no weights found for these points')
            continue
        if sc != 'double':
            # a literal of a narrower type is rounded to it first
            for (vs, ts) in ((vals, tys), w[:2]):
                for q, (v, t) in enumerate(zip(vs, ts)):
                    if t in ('double', 'float') or t == 'long double' and sc == 'float128':
                        r = Fraction(float(v)) if t != 'long double' else v
                        if t == 'long double' and v:
                            e = 0
                            while abs(v) * Fraction(2) ** e < 2 ** 63:
                                e += 1
                            r = Fraction(round(v * Fraction(2) ** e)) / Fraction(2) ** e
                        vs[q] = r
        rows = [[((1 + vals[j]) / 2, 2 ** i * w[0][i * k + j]) for j in range(k)] for i in range(k)]
        bad = test_rule(rows, k, k, EPS[sc])
        C.ob('the tables are those of the Gauss-Legendre rule', inst, bad is None, 'matslise/util/legendre_data.h', bad)
        C.analysed('tables', inst)
        n_ += 1
    return n_


def run(C):
    n = 0
    P = Program('all', only=[], harness=['polynomial.cpp'])
    C.explanation = ('The quadrature is interpreted with an uninterpreted integrand on a symbolic interval: each coefficient is a linear functional of integrand values. Applied to every monomial the rule integrates exactly, it must give the '
                     'Legendre coefficient (2i+1) int t^m P_i(2t-1) dt to rounding; the polynomial built from the coefficients must be their sum with the shifted Legendre polynomials (identity of linear functionals, exact); asking again '
                     'must give the same. The tables of all sizes and scalar types are checked from their literals as well.')
    n += semantic(C, P)
    n += tables(C, P)
    return n
