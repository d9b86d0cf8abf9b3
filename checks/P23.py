"""Periodic eigenfunctions satisfy the quasi-periodic condition and come from the kernel of the matching error."""
from spec import *
import P20

TECHNIQUE = 'gated abstract interpretation of the periodic eigenfunction queries over opaque transfer matrices; boundary data of every eigenfunction compared with the kernel vector on every path'
LEVEL_NOTE = ('All energies, transfer matrices and coupling matrices K (uninterpreted); bounded: index ranges inside 0..3. The eigenvectors of the 2x2 matching error are those of the linear algebra library (opaque); '
              'that the matching error vanishes at the energy found is numerical.')


def close(a, b, what):
    return P20.same_mat(a, b, what)


def half_mats(d):
    """value part and energy-derivative part of boundary data with one column"""
    return Mat(2, 1, [d.at(0, 0), d.at(1, 0)]), Mat(2, 1, [d.at(2, 0), d.at(3, 0)])


def mm(a, b):
    return models.matmul(a, b)


def reference(calls, E, xs):
    """start matrices at both ends and the matching error at E, from the propagations made"""
    for (E1, a1, b1, d1) in calls:
        if same(E1, E) is not None or same(a1, xs[0]) is not None:
            continue
        for (E2, a2, b2, d2) in calls:
            if same(E2, E) is None and same(a2, xs[-1]) is None and same(b1, b2) is None:
                top = lambda d: Mat(2, 2, [d.at(i, j) for i in range(2) for j in range(2)])
                T = lambda a, b: Mat(2, 2, [app('T%d' % i, E, a, b) for i in range(4)])
                L, R_ = top(d1), top(d2)
                l, r = mm(T(a1, b1), L), mm(T(a2, b2), R_)
                M = Mat(2, 2, [sub(x, y) for x, y in zip(l.e, r.e)])
                return L, R_, M
    return None


def vector(L, M, j):
    c = Mat(2, 1, [app('re', num(models.gated_app('eigvec', i, M, j))) for i in range(2)])
    return mm(L, c)


def lam(M, j):
    return models.gated_app('eigval', j, M)


def boundary(e, K):
    """'' when the right data is K times the left data and neither depends on the energy"""
    l, dl = half_mats(e.f['left'])
    r, dr = half_mats(e.f['right'])
    zero = Mat(2, 1, [ZERO, ZERO])
    return close(mm(K, l), r, 'the value at the right end, compared with K times the value at the left end,') or close(dl, zero, 'energy derivative of the left data') or close(dr, zero, 'energy derivative of the right data')


def expr_paths(v):
    """paths of one gated scalar or matrix"""
    return P20.every(v)


def start_matrices(C, P, kind):
    """left columns independent, right columns K times the left ones, both ends propagated to one point"""
    f, key = P20.periodic(P, 'matchingError')
    I, this, xs, K, calls = P20.machine(P, key, kind, True)
    v = I.run(f, this, [I.new(sym('E')), True])
    inst = '%s condition' % kind
    ref = reference(calls, sym('E'), xs)
    bad = ''
    if v is None or ref is None:
        bad = 'both ends are not propagated to a common point'
    else:
        L, R_, M = ref
        d = num(models.det(L)) if hasattr(models, 'det') else None
        if d is not None and d.const() in (None, 0):
            bad = 'the start columns are not independent: %s' % show(d)
        bad = bad or close(R_, mm(K, L), 'start at the right end, compared with K times the start at the left end,')
        y = v.e[0] if isinstance(v, Tup) else list(v.f.values())[0]
        got = P20.data(I, y)
        top = Mat(2, 2, [got.at(i, j) for i in range(2) for j in range(2)])
        neg = Mat(2, 2, [alg.neg(num(x)) for x in M.e])
        if close(top, M, 'matching error'):
            bad = bad or close(top, neg, 'matching error')
    C.ob('the matching error is the difference of the solutions from both ends, the right one started with K times the left one', inst, not bad, floc(f), bad)
    C.analysed('queries', 'matchingError, ' + inst)


def listed(C, P, kind, lo, hi):
    f, I, v, xs, K, calls = P20.lists(P, 'eigenpairsByIndex', kind, True, [rc(lo), rc(hi)])
    inst = '%s condition, eigenpairsByIndex(%d, %d)' % (kind, lo, hi)
    if v is None:
        C.ob('the query returns', inst, False, floc(f), '')
        return
    bad, n = '', 0
    done = set()
    for x in P20.every(v):
        for i, E, m, fs in P20.entries(x):
            bad = bad or ('' if len(fs) == m else '%d eigenfunctions' % len(fs))
            key = (i, E, m, tuple(id(pick_mat(e.f['left'])) for e in fs))
            n += 1
            for e in fs:
                bad = bad or boundary(e, K)
            if bad:
                break
            if m == 2:
                a, b = half_mats(fs[0].f['left'])[0], half_mats(fs[1].f['left'])[0]
                dt = sub(mul(a.at(0, 0), b.at(1, 0)), mul(a.at(1, 0), b.at(0, 0)))
                z = compare('==', num(dt), ZERO)
                if I.simplify(z) is not False:
                    bad = 'index %d: the two eigenfunctions of a double eigenvalue may be dependent' % i
            else:
                ref = reference(calls, E, xs)
                if ref is None:
                    bad = 'index %d: the matching error at the energy of the eigenvalue is not computed' % i
                else:
                    bad = kernel(fs[0], ref, [0, 1], E)
                    bad = bad and 'index %d: %s' % (i, bad)
    C.ob('listed eigenfunctions satisfy the condition at both ends and come from the kernel of the matching error at their own energy', inst, not bad, floc(f), bad)
    C.analysed('queries', '%s: %d eigenpairs on all paths' % (inst, n))


def pick_mat(m):
    return m


def kernel(e, ref, js, E):
    """'' when the left data is an eigenvector column of the matching error whose eigenvalue is not larger than the other one"""
    L, R_, M = ref
    left = half_mats(e.f['left'])[0]
    neg = Mat(2, 2, [alg.neg(num(x)) for x in M.e])
    out = ''
    for A in (M, neg):
        cols = [vector(L, A, j) for j in range(2)]
        a = [app('cabs', num(lam(A, j))) for j in range(2)]
        first = compare('<=', a[0], a[1])
        first2 = compare('<', a[0], a[1])
        for c in (first, first2):
            want = Mat(2, 1, [ite(c, num(p), num(q)) for p, q in zip(cols[0].e, cols[1].e)])
            out = close(left, want, 'start value of the eigenfunction, compared with the eigenvector of the smallest eigenvalue of the matching error at %s,' % show(E))
            if not out:
                return ''
    return out


def single(C, P, kind):
    f, key = P20.periodic(P, 'eigenfunction')
    I, this, xs, K, calls = P20.machine(P, key, kind, True)
    E = sym('E')
    v = I.run(f, this, [I.new(E)])
    P20.settle(calls)
    inst = '%s condition, eigenfunction(E)' % kind
    if v is None:
        C.ob('the query returns', inst, False, floc(f), '')
        return
    v = P20.expand(I, v)
    bad, n = '', 0
    ref = reference(calls, E, xs)
    if ref is None:
        C.ob('eigenfunctions are made for exactly the kernel of the matching error', inst, False, floc(f), 'the matching error at E is not computed')
        return
    L, R_, M = ref
    neg = Mat(2, 2, [alg.neg(num(x)) for x in M.e])
    # the decision about each eigenvalue that the code can make
    for x in P20.every(v):
        n += 1
        fs = list(x.e)
        hit = []
        for e in fs:
            bad = bad or ('' if same(num(e.f['E']), E) is None else 'made for the energy %s' % show(e.f['E'])) or boundary(e, K)
            left = half_mats(e.f['left'])[0]
            js = [(s, j) for s, A in ((1, M), (-1, neg)) for j in range(2) if not close(left, vector(L, A, j), '')]
            if not js:
                bad = bad or 'start value is no eigenvector of the matching error: %s' % show(left.at(0, 0))
            else:
                hit.append(js[0][1])
        if len(set(hit)) != len(hit):
            bad = bad or 'the same eigenvector twice'
        for j in range(2):
            if not bad and j in hit and not bounded(M, neg, j):
                bad = 'an eigenfunction is made although eigenvalue %d of the matching error need not be small' % j
            if not bad and j not in hit and not nonzero(M, neg, j):
                bad = 'no eigenfunction is made although eigenvalue %d of the matching error can be zero' % j
    C.ob('eigenfunctions are made for exactly the kernel of the matching error', inst, not bad, floc(f), bad)
    C.analysed('queries', '%s: %d paths' % (inst, n))


def sizes(M, neg, j):
    for A in (M, neg):
        l = num(lam(A, j))
        yield app('cnorm', l), Fraction(1, 100)
        yield app('cabs', l), Fraction(1, 10)


def bounded(M, neg, j):
    """the path excludes that eigenvalue j is large"""
    return any(not P20.possible([(rc(b), t, False)]) for t, b in sizes(M, neg, j))


def nonzero(M, neg, j):
    """the path excludes that eigenvalue j is zero"""
    return any(not P20.possible([(t, ZERO, False), (ZERO, t, False)]) for t, b in sizes(M, neg, j))


def run(C):
    C.explanation = ('The periodic queries are interpreted over opaque transfer matrices T(E, a, b), so the matching error is the symbolic matrix T_left L - T_right K L, whatever basis L the code starts from. For every eigenfunction on every path the '
                     'data given to the full-range solver is compared: the right data must be K times the left data, a simple eigenvalue must use the eigenvector that belongs to the smallest eigenvalue of the matching error at that same energy, '
                     'a double one two independent vectors, and eigenfunction(E) exactly the eigenvectors whose eigenvalue is decided to be small.')
    C.assume('Eigenvalues and eigenvectors of the 2x2 matching error are computed by the linear algebra library (opaque, column j belongs to eigenvalue j).')
    P = Program('double')
    n = 0
    for kind in P20.KINDS:
        n += decide(C, kind + ' start', lambda: start_matrices(C, P, kind))
        n += decide(C, kind + ' single', lambda: single(C, P, kind))
        for lo, hi in ((0, 1), (1, 2), (0, 3), (2, 3)) if not C.thorough else ((0, 1), (1, 2), (2, 3), (0, 3), (0, 4), (3, 5)):
            n += decide(C, '%s %d..%d' % (kind, lo, hi), lambda: listed(C, P, kind, lo, hi))
    return 24
