"""The half-range solver is the even/odd reduction of the symmetric problem."""
from spec import *

TECHNIQUE = 'gated value-graph abstract interpretation of the half-range solver over an opaque full-range solver'
LEVEL_NOTE = 'All energies, conditions, evaluation points, symbolically; indices symbolic and enumerated; the full-range solver on [0, xmax] is opaque.'

HALF = 'matslise::MatsliseHalf<double>'


def cells(v):
    return list(v.f['data'].e)


NEUMANN, DIRICHLET = [ONE, ZERO, ZERO, ZERO], [ZERO, ONE, ZERO, ZERO]


def setup(I, got=None):
    """half-range object over an opaque full-range solver; every answer depends on all arguments received"""
    def flat(I, g, args):
        out = []
        for a in args:
            v = I.rv(a)
            if isinstance(v, Rec):
                out += cells(v)
            elif isinstance(v, bool) or (isinstance(v, D) and all(isinstance(x, bool) for _, x in leaves(v))):
                out.append(ite(v, ONE, ZERO))
            else:
                out.append(num(v))
        return out

    def merr(I, g, this, args, node):
        a = flat(I, g, args)[:9]
        return Tup([app('mismatch', *a), app('dmismatch', *a), app('angle', *a)])

    def inner(I, g, this, args, node):
        a = flat(I, g, args)[:9]        # an index passed on makes no difference to a full-range eigenfunction

        def h(I, f, this, args, node):
            x = I.rv(args[0])
            if isinstance(x, (R, D)):
                return Mat(2, 1, [at0(k, num(x), a) for k in ('u', 'du')])
            m = I.mat(x)
            return Mat(len(m.e), 2, [at0(k, e, a) for e in m.e for k in ('u', 'du')])
        return Ptr(I.new(Obj('eigenfunction', h)), True)

    def err(I, g, this, args, node):
        return app('everr', *flat(I, g, args)[:9])
    for c in ('matslise::Matslise', 'matslise::AbstractMatslise'):
        I.opaque[c + '::matchingError'] = merr
        I.opaque[c + '::eigenfunction'] = lambda I, g, this, args, node: inner(I, g, this, args, node) if is_inner(this) else NotImplemented
        I.opaque[c + '::eigenvalueError'] = lambda I, g, this, args, node: err(I, g, this, args, node) if is_inner(this) else NotImplemented
    return I.new(Rec(HALF, {'potential': OFn('V'), 'ms': Ptr(I.new(Rec('matslise::Matslise<double>', {}, 'inner'), 'inner'), True)}, 'half'), 'half')


def at0(k, x, a):
    """value or derivative at x; at zero it satisfies the condition it was computed for"""
    return ite(compare('==', x, ZERO), mul(app('c', *a), a[1] if k == 'u' else a[2]), app(k, x, *a))


def is_inner(this):
    t = this.t if isinstance(this, Ptr) else this
    return isinstance(t, Loc) and str(t.root).startswith('inner')


def parity(i, E, side):
    """condition that the eigenfunction is even"""
    def absm(st):
        m = app('mismatch', E, *st, *side)
        return ite(compare('<', m, ZERO), neg(m), m)
    ev = compare('<', absm(NEUMANN), absm(DIRICHLET))
    if i is None:
        return ev
    c = i.const()
    if c is not None:
        return int(c) % 2 == 0
    return compare('==', imod(i, rc(2)), ZERO)


INDICES = [None, 0, 1, 2, 3, 6, 11, 'sym']


def idx(k):
    if k is None:
        return rc(-1), None
    if k == 'sym':
        i = sym('index')
        CTX.le(ZERO, i)
        return i, i
    return rc(k), rc(k)


def ef_case(C, P, f, yc, k, p, pname):
    I = Interp(P)
    this = setup(I)
    E, side = sym('E'), mk_y('side', yc)
    i, pi = idx(k)
    inst = 'eigenfunction, index %s, %s' % ('chosen by the solver' if k is None else k, pname)
    ef = I.run(f, this, [I.new(E), I.new(side), I.new(i)])
    C.ob('an eigenfunction is returned', inst, ef is not None and I.throw_cond() is False, floc(f), 'throws')
    if ef is None:
        return
    if p == 'neg':
        x = sym('x')
        CTX.lt(x, ZERO)
    elif p == 'pos':
        x = sym('x')
        CTX.lt(ZERO, x)
    else:
        x = ZERO
    sc = eval_at(I, P, ef, [x], False)
    if sc is None:
        C.ob('even index: even function, odd index: odd function, norm one', inst, False, floc(f), 'throws')
        return
    even = parity(pi, E, cells(side))
    s = div(app('sqrt', rc(2)), rc(2))
    ax = neg(x) if p == 'neg' else x

    def u(n, st):
        return at0(n, ax, [E] + st + cells(side))
    if p == 'neg':
        w = [ite(even, u('u', NEUMANN), neg(u('u', DIRICHLET))), ite(even, neg(u('du', NEUMANN)), u('du', DIRICHLET))]
    else:
        w = [ite(even, u('u', NEUMANN), u('u', DIRICHLET)), ite(even, u('du', NEUMANN), u('du', DIRICHLET))]
    d = same(sc[0][0], mul(s, w[0])) or same(sc[0][1], mul(s, w[1]))
    C.ob('even index: even function, odd index: odd function, norm one', inst, d is None, floc(f), d)
    C.analysed('half-range queries', inst)


def err_case(C, P, f, yc, k):
    I = Interp(P)
    this = setup(I)
    E, side = sym('E'), mk_y('side', yc)
    i, pi = idx(k)
    inst = 'eigenvalueError, index %s' % ('chosen by the solver' if k is None else k)
    v = I.run(f, this, [I.new(E), I.new(side), I.new(i)])
    even = parity(pi, E, cells(side))
    w = ite(even, app('everr', E, *NEUMANN, *cells(side)), app('everr', E, *DIRICHLET, *cells(side)))
    d = 'throws' if v is None else same(v, w)
    C.ob('the error estimate uses the condition of the same parity at zero', inst, d is None, floc(f), d)
    C.analysed('half-range queries', inst)


def ctor_case(C, P, ctor):
    I = Interp(P)
    rec = P.recs[HALF]
    seen = []

    def build(I, rec2, args, node):
        vals = [I.rv(a) for a in args]
        seen.append(vals)
        return Rec(rec2['key'], {}, 'inner')
    I.ctor_opaque = {'matslise::Matslise': build}
    xmax, tol = sym('xmax', positive=True), sym('tol', positive=True)
    V = OFn('V')
    args = [I.new(V), I.new(xmax), I.new(tol)]
    two = len(ctor['ps']) == 4
    if two:
        args.append(I.new(Obj('builder')))
    inst = 'constructor with %d arguments' % len(args)
    v = I.construct_repo(rec, args, ctor)
    C.analysed('half-range constructors', inst)
    d = None
    if isinstance(v, Rec):
        dom = v.f.get('domain')
        d = same(dom.f['min'], neg(xmax)) or same(dom.f['max'], xmax)
        if v.f.get('potential') != V:
            d = d or 'potential is not the given function'
    C.ob('the problem lives on [-xmax, xmax]', inst, d is None, floc(ctor), d)
    d = None
    if len(seen) != 1:
        d = 'the inner problem is constructed %d times' % len(seen)
    else:
        fl = []
        for x in seen[0]:
            if isinstance(x, Rec) and x.cls.startswith('matslise::Domain'):
                fl += [x.f['min'], x.f['max']]
            else:
                fl.append(x)
        if fl[0] != V:
            d = 'potential of the inner problem is %r' % (fl[0],)
        for g, w, nm in zip(fl[1:4], (ZERO, xmax, tol), ('left end', 'right end', 'tolerance')):
            d = d or (lambda q: q and nm + ': ' + q)(same(num(g), w))
        if len(fl) < 4:
            d = 'arguments %r' % (fl,)
    C.ob('the inner problem is the same potential on [0, xmax] with the same tolerance', inst, d is None, floc(ctor), d)


def run(C):
    P = Program(only=['matslise/halfrange.cpp'])
    C.explanation = ('The half-range solver is interpreted over an opaque full-range solver whose answers depend on all arguments: which boundary condition is imposed at zero for which index, '
                     'the choice by the smaller matching error when no index is given, reflection and sign of value and derivative, and the normalisation factor are read off the value graph.')
    n = 0
    for name in ('eigenfunction', 'eigenvalueError'):
        for f in one(P, 'matslise::MatsliseHalf::' + name):
            tu = f['tu']
            if tu.recs[f['cls']]['key'] != HALF or len(f['ps']) != 3:
                continue
            yc = tu.recs[tu.strip(f['ps'][1]['t'])['r']]['key']
            for k in INDICES:
                if name == 'eigenfunction':
                    for p, pn in (('neg', 'left of zero'), ('zero', 'at zero'), ('pos', 'right of zero')):
                        n += decide(C, '%s %s %s' % (name, k, p), lambda: ef_case(C, P, f, yc, k, p, pn))
                else:
                    n += decide(C, '%s %s' % (name, k), lambda: err_case(C, P, f, yc, k))
    rec = P.recs.get(HALF)
    for m in rec['methods']:
        c = rec['tu'].funs[m]
        if c.get('kind') == 'ctor' and not c.get('copy') and not c.get('move') and len(c['ps']) >= 3:
            c = P.definition(c) or c
            n += decide(C, 'constructor', lambda: ctor_case(C, P, c))
    C.require(n >= 30, 'too few instances %d' % n)
    return n
