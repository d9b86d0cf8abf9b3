"""An eigenfunction is one continuous, normalised solution: both chains carry matching factors."""
from spec import *

TECHNIQUE = 'gated value-graph abstract interpretation with homogeneous sector flows, algebraic normal-form equality'
LEVEL_NOTE = ('Exact real arithmetic at an eigenvalue (the two end solutions proportional at the matching point); all energies, conditions, proportionality factors; '
              'sector counts and matching positions enumerated; sector flows homogeneous and opaque (decided by P09).')


def chain_flow(U, V, m, xs):
    """sector flows that carry c U[i] to c U[i+1] (left chain, sectors <= m) and c V[i+1] to c V[i] (right chain), for every factor c"""
    def h(I, f, this, args, node):
        y = I.rv(args[1])
        if not str(this.root).startswith('S'):
            raise Unsupported('propagation of an unknown sector')
        i = int(str(this.root)[1:])
        E, a, b = num(I.rv(args[0])), num(I.rv(args[2])), num(I.rv(args[3]))
        cells = list(y.f['data'].e)
        chain = U if i <= m else V
        nm = 'u' if i <= m else 'v'

        def leaf(E, a, b, *cs):
            for j in (i, i + 1):
                if not alg.is_zero(alg.rsub(a, xs[j])) or not alg.is_zero(alg.rsub(E, sym('E'))):
                    continue
                base = chain[j]
                if not base[0].t:
                    k = next(k for k in range(4) if base[k].t)
                else:
                    k = 0
                c = div(cs[k], base[k])
                if all(alg.is_zero(alg.rsub(cs[r], mul(c, base[r]))) for r in range(4)):
                    return Tup([mul(c, at(chain, nm, i, b, r, xs)) for r in range(4)])
            return Tup([app('foreign%d_%d' % (i, r), E, a, b, *cs) for r in range(4)])
        v = lift(leaf, E, a, b, *cells)
        return y.set('data', Mat(4, 1, [lift(lambda t, r=r: t.e[r], v) for r in range(4)]))
    return h


def at(chain, nm, i, b, r, xs):
    for j in (i, i + 1):
        if alg.is_zero(alg.rsub(b, xs[j])):
            return chain[j][r]
    return app('%s%d_%d' % (nm, r, i), b)


def case(C, P, f, yc, k, m, scen):
    I = Interp(P)
    this, xs, secs = mk_matslise(I, k, m)
    # at the matching boundary both chains are proportional to one state (va, vb)
    p, q = sym('p', positive=True), sym('q', positive=True)
    va = ZERO if scen == 'zero value' else sym('va')
    vb = ZERO if scen == 'zero derivative' else sym('vb')
    if scen == 'zero value':
        vb = sym('vb', positive=True)
    if scen == 'zero derivative':
        va = sym('va', positive=True)
    if scen == 'zero value, falling':
        va, vb = ZERO, neg(sym('vb', positive=True))
    if scen == 'zero derivative, negative':
        va, vb = neg(sym('va', positive=True)), ZERO
    if scen == 'opposite signs':
        va, vb = sym('va', positive=True), neg(sym('vb', positive=True))
        q = neg(q)
    if scen == 'generic':
        va, vb = sym('va', positive=True), sym('vb', positive=True)
    U = [[sym('U%d[%d]' % (j, r)) for r in range(4)] for j in range(m + 1)] + [[mul(p, va), mul(p, vb), sym('cL2'), sym('cL3')]]
    V = [None] * (m + 1) + [[mul(q, va), mul(q, vb), sym('cR2'), sym('cR3')]] + [[sym('V%d[%d]' % (j, r)) for r in range(4)] for j in range(m + 2, k + 1)]
    if m + 1 == k:
        p = q = ONE
        V[k] = [va, vb, sym('cR2'), sym('cR3')]
        U[k] = [va, vb, sym('cL2'), sym('cL3')]
    I.opaque['matslise::Matslise::Sector::propagate'] = chain_flow(U, V, m, xs)
    l, r = Rec(yc, {'data': Mat(4, 1, U[0])}), Rec(yc, {'data': Mat(4, 1, V[k])})
    ef = I.run(f, this, [I.new(sym('E')), I.new(l), I.new(r), sym('index')])
    inst = '%d sectors, match %d, %s' % (k, m, scen)
    C.ob('an eigenfunction is returned', inst, ef is not None and not I.throw_cond(), floc(f), 'throws')
    if ef is None:
        return
    ps = []
    for i in range(k):
        x = sym('p%d' % i)
        CTX.lt(xs[i], x)
        CTX.lt(x, xs[i + 1])
        ps.append(x)
    sc = eval_at(I, P, ef, ps, False)
    if sc is None:
        C.ob('an eigenfunction is returned', inst, False, floc(f), 'evaluation throws')
        return
    factors, d = [], None
    for i, (v, dv) in enumerate(sc):
        nm = 'u' if i <= m else 'v'
        u, du = app('%s0_%d' % (nm, i), ps[i]), app('%s1_%d' % (nm, i), ps[i])
        c = div(v, u)
        d = d or same(mul(c, du), dv)
        names = {'u0_%d' % i, 'u1_%d' % i, 'v0_%d' % i, 'v1_%d' % i}
        for _, leaf in paths(c):
            if isinstance(leaf, R) and any(alg.A.list[a][0] in names for a in leaf.atoms()):
                d = d or 'sector %d: value %s is not a multiple of the solution in that sector' % (i, show(v))
            elif not isinstance(leaf, R) and leaf is not IGN:
                d = d or 'sector %d: %s' % (i, show(leaf))
        factors.append(c)
    C.ob('in every sector value and derivative are one multiple of the solution from its end', inst, d is None, floc(f), d)
    if d:
        return
    d = None
    for i in range(1, k):
        a, b = (p if i - 1 <= m else q), (p if i <= m else q)
        d = d or same(mul(a, factors[i - 1]), mul(b, factors[i]))
    C.ob('the pieces agree at every sector boundary', inst, d is None, floc(f), d)
    # int u^2 = u_E u' - u'_E u over the left part minus the same over the right part
    NL = sub(mul(U[m + 1][2], U[m + 1][1]), mul(U[m + 1][3], U[m + 1][0]))
    NR = sub(mul(V[m + 1][2], V[m + 1][1]), mul(V[m + 1][3], V[m + 1][0]))
    rt = div(p, q)
    W = sub(NL, mul(mul(rt, rt), NR))
    c2 = mul(factors[0], factors[0])
    d = same(ite(compare('>', W, ZERO), mul(c2, W), ONE), ONE)
    C.ob('the squared norm, from the energy derivatives at the matching point, is one', inst, d is None, floc(f), d)
    C.analysed('eigenfunctions', inst)


def run(C):
    P = Program(only=['matslise/matslise.cpp'])
    C.explanation = ('The eigenfunction object is built and evaluated abstractly at an eigenvalue: sector flows are opaque homogeneous maps, the two end solutions arrive at the matching point as p (a,b) and q (a,b). '
                     'The factor applied in every sector is extracted from the evaluated values; the factors must make the pieces agree at each boundary (also when the value or the derivative vanishes at the matching point) '
                     'and make the Prüfer/Wronskian expression of the squared norm equal to one.')
    n = 0
    for f in one(P, 'matslise::Matslise::eigenfunction'):
        tu = f['tu']
        if '<double>' not in tu.recs[f['cls']]['key']:
            continue
        yc = tu.recs[tu.strip(f['ps'][1]['t'])['r']]['key']
        for k, m in [(2, 0), (3, 0), (3, 1)] + ([(4, 1), (4, 2), (5, 3), (6, 2)] if C.thorough else []):
            for scen in ('generic', 'opposite signs', 'zero value', 'zero derivative', 'zero value, falling', 'zero derivative, negative'):
                n += decide(C, '%d %d %s' % (k, m, scen), lambda: case(C, P, f, yc, k, m, scen))
    C.require(n >= 10, 'too few instances %d' % n)
    return 4 * n
