"""A Sturm-Liouville problem answers with the Schroedinger problem of its Liouville transformation, boundary data transformed at the right ends."""
from spec import *

TECHNIQUE = 'gated value-graph abstract interpretation of the Sturm-Liouville queries and constructor over an opaque transformation and an opaque Schroedinger solver'
LEVEL_NOTE = 'All indices, energies, conditions, domains and coefficient functions symbolic; lists of eigenpairs enumerated up to 3 (5 thorough).'

SL = 'matslise::SturmLiouville<double>'
LT = 'matslise::LiouvilleTransformation'
DOM = 'matslise::Domain<double>'


def cells(v):
    return list(v.f['data'].e)


def lin(name):
    def h(I, f, this, args, node):
        x, y = num(I.rv(args[0])), I.rv(args[1])
        return y.set('data', Mat(4, 1, [app('%s%d' % (name, i), x, *cells(y)) for i in range(4)]))
    return h


def setup(I):
    dom = Rec(DOM, {'min': sym('rmin'), 'max': sym('rmax')})
    I.opaque[LT + '::rDomain'] = lambda I, f, this, args, node: I.new(dom)
    I.opaque[LT + '::r2x'] = lambda I, f, this, args, node: app('r2x', num(I.rv(args[0])))
    I.opaque[LT + '::x2r'] = lambda I, f, this, args, node: app('x2r', num(I.rv(args[0])))
    I.opaque[LT + '::z2y'] = lin('z2y')
    I.opaque[LT + '::y2z'] = lin('y2z')
    lt = Rec(LT + '<double>', {'m_rDomain': dom}, 'lt')
    return I.new(Rec(SL, {'transformation': lt, 'matslise': Rec('matslise::Matslise<double>', {}, 'ms')}, 'sl'), 'sl')


def flat(I, args):
    """boundary conditions and plain arguments as lists of numbers"""
    out = []
    for a in args:
        v = I.rv(a)
        out.append(cells(v) if isinstance(v, Rec) else [num(v)])
    return out


def impl(I, g, args):
    """arguments by role: numbers in order, conditions left then right"""
    vals, ys = [], []
    for v in flat(I, args):
        (ys if len(v) > 1 else vals).append(v)
    ys = ys * 2 if len(ys) == 1 else ys
    return [v[0] for v in vals], ys[0], ys[1]


def expected(l, r):
    a, b = sym('rmin'), sym('rmax')
    return [app('z2y%d' % i, a, *cells(l)) for i in range(4)], [app('z2y%d' % i, b, *cells(r)) for i in range(4)]


def queries(C, P, yc):
    n = 0
    maxlen = 5 if C.thorough else 3
    for q, nums in (('eigenvaluesByIndex', ('Imin', 'Imax')), ('eigenpairsByIndex', ('Imin', 'Imax')), ('eigenvalueError', ('E', 'index'))):
        for f in one(P, 'matslise::SturmLiouville::' + q):
            C.analysed('queries', f['qn'])
            for m in range(0, maxlen + 1):
                if q == 'eigenvalueError' and m:
                    continue

                def body():
                    I = Interp(P)
                    this = setup(I)
                    calls = []

                    def inner(I, g, th, args, node):
                        vals, l, r = impl(I, g, args)
                        calls.append((vals, l, r))
                        if g['n'] == 'eigenvalueError':
                            return app('everr', vals[0], *(l + r))      # full-range errors do not depend on the index
                        a = vals + l + r
                        out = []
                        for j in range(m):
                            i, E = app('i%d' % j, *a), app('E%d' % j, *a)
                            out.append(Tup([i, E]) if g['n'] == 'eigenvaluesByIndex' else
                                       Tup([i, E, Ptr(I.new(opaque_eigenfunction('u%d' % j)), True)]))
                        return Vec(out)
                    for c in ('matslise::Matslise', 'matslise::AbstractMatslise'):
                        for k in ('eigenvaluesByIndex', 'eigenpairsByIndex', 'eigenvalueError'):
                            I.opaque['%s::%s' % (c, k)] = inner
                    l, r = mk_y('l', yc), mk_y('r', yc)
                    num_ = [sym(k) for k in nums]
                    args, k = [], 0
                    bcs = [l, r]
                    for p in f['ps']:
                        t = f['tu'].strip(p['t'])
                        if t['k'] == 'rec' and base(t['n']) == 'matslise::Y':
                            args.append(I.new(bcs.pop(0)))
                        else:
                            v = num_.pop(0)
                            args.append(I.new(v) if f['tu'].ty(p['t'])['k'] in ('r', 'rr') else v)
                    v = I.run(f, this, args)
                    inst = q + ('' if q == 'eigenvalueError' else ', %d results' % m)
                    C.ob('every query returns', inst, v is not None, floc(f), 'never returns')
                    if v is None:
                        return
                    L, R_ = expected(l, r)
                    a = [sym(k) for k in nums] + L + R_
                    if q == 'eigenvalueError':
                        C.ob('the error is the one of the transformed problem for the same energy and transformed conditions', inst,
                             *verdict(same(v, app('everr', sym('E'), *(L + R_))), floc(f)))
                        return
                    C.ob('as many results as the transformed problem has', inst, isinstance(v, Vec) and len(v.e) == m, floc(f), 'found %s' % (len(v.e) if isinstance(v, Vec) else v))
                    if not isinstance(v, Vec) or len(v.e) != m:
                        return
                    for j in range(m):
                        d = same(v.e[j].e[0], app('i%d' % j, *a)) or same(v.e[j].e[1], app('E%d' % j, *a))
                        C.ob('results are those of the transformed problem with the conditions transformed at their own end', '%s, result %d' % (inst, j), d is None, floc(f), d)
                        if q == 'eigenpairsByIndex':
                            x = sym('p')
                            got = eval_at(I, P, v.e[j].e[2], [x], False)
                            if got is None:
                                C.ob('eigenfunction', '%s, result %d' % (inst, j), False, floc(f), 'evaluation never returns')
                                continue
                            X = app('r2x', x)
                            u = [app('u%d' % j, X), app('du%d' % j, X)]
                            d = None
                            for i in range(2):
                                ds = [same(got[0][i], app('y2z%d' % i, X, *(u + [ZERO, ZERO])))]
                                d = d or (ds[0] if all(ds) else None)
                            C.ob('the eigenfunction of result j is the transformed one, evaluated and transformed back at the same point', '%s, result %d' % (inst, j), d is None, floc(f), d)
                    bad = [e for e in I.events if e['kind'] in ('oob', 'null', 'throw')]
                    C.ob('no failure', inst, not bad, bad[0]['where'] if bad else floc(f), str(bad[:1]))
                n += decide(C, '%s, %d results' % (q, m), body, floc(f)) > 0
    return n


def verdict(d, where):
    return d is None, where, d


def constructor(C, P):
    def body():
        I = Interp(P)
        made = {}

        def same_obj(I, rec, args):
            if len(args) == 1:
                v = args[0]
                v = I.load(v) if isinstance(v, Loc) else v
                if isinstance(v, Rec) and v.cls == rec['key']:
                    return v
            return None

        def lt_ctor(I, rec, args, node):
            c = same_obj(I, rec, args)
            if c is not None:
                return c
            made['lt'] = [I.rv(a) for a in args]
            return Rec(rec['key'], {'mark': sym('lt')}, 'lt')

        def ms_ctor(I, rec, args, node):
            made['ms'] = [I.rv(a) for a in args]
            return Rec(rec['key'], {}, 'ms')
        I.ctor_opaque[LT] = lt_ctor
        I.ctor_opaque['matslise::Matslise'] = ms_ctor
        xd = Rec(DOM, {'min': sym('xmin'), 'max': sym('xmax')})
        owner = []

        def tag(I, this):
            v = I.load(this)
            return v.f['mark'] if isinstance(v, Rec) and 'mark' in v.f else sym('another transformation')
        I.opaque[LT + '::xDomain'] = lambda I, f, this, args, node: Rec(DOM, {'min': app('xmin', tag(I, this)), 'max': app('xmax', tag(I, this))})
        I.opaque[LT + '::rDomain'] = lambda I, f, this, args, node: I.new(Rec(DOM, {'min': app('rmin', tag(I, this)), 'max': app('rmax', tag(I, this))}))
        I.opaque[LT + '::V'] = lambda I, f, this, args, node: app('V', tag(I, this), num(I.rv(args[0])))
        rec = P.recs[SL]
        tu = rec['tu']
        ctors = [tu.funs[m] for m in rec['methods'] if tu.funs[m].get('kind') == 'ctor' and len(tu.funs[m]['ps']) >= 5]
        if not ctors:
            raise AnalysisBroken('anchor vanished: constructor of ' + SL)
        for f in ctors:
            dom = Rec(DOM, {'min': sym('a'), 'max': sym('b')})
            fns = [OFn('p'), OFn('q'), OFn('w')]
            args = []
            for p in f['ps']:
                t = tu.strip(p['t'])
                if t['k'] == 'rec' and base(t['n']) == 'matslise::Domain':
                    v = dom
                elif t['k'] == 'rec':
                    v = fns.pop(0)
                else:
                    v = sym('tol', positive=True)
                args.append(I.new(v))
            I.construct_repo(rec, args, f)
            inst = SL + ' constructor'
            C.analysed('constructors', inst)
            a = made.get('lt')
            C.ob('the transformation is built from the domain and p, q, w in their own roles', inst,
                 a is not None and [x.name for x in a if isinstance(x, OFn)] == ['p', 'q', 'w']
                 and any(isinstance(x, Rec) and same(x.f['min'], sym('a')) is None and same(x.f['max'], sym('b')) is None for x in a), floc(f), str(a))
            b = made.get('ms')
            C.ob('a Schroedinger problem is built', inst, b is not None, floc(f), '')
            if b is None:
                return
            ds = [x for x in b if isinstance(x, Rec) and 'min' in x.f]
            ns = [x for x in b if isinstance(x, (R, D))]
            if ds:
                d = same(ds[0].f['min'], app('xmin', sym('lt'))) or same(ds[0].f['max'], app('xmax', sym('lt')))
            else:
                d = 'no domain' if len(ns) < 2 else same(ns[0], app('xmin', sym('lt'))) or same(ns[1], app('xmax', sym('lt')))
            C.ob('it is posed on the whole transformed domain', inst, d is None, floc(f), d)
            d = same(ns[-1], sym('tol')) if len(ns) in (1, 3) else 'default tolerance instead of the one asked for'
            C.ob('it is solved with the tolerance asked for', inst, d is None, floc(f), d)
            fn = [x for x in b if not isinstance(x, (Rec, R, D))]
            x = sym('x')
            v = I.call_value(fn[0], [I.new(x)], None) if fn else None
            d = 'no potential' if v is None else same(I.rv(v), app('V', sym('lt'), x))
            C.ob('its potential is the transformed one', inst, d is None, floc(f), d)
    return decide(C, SL + ' constructor', body) > 0


def run(C):
    P = Program(only=['matslise/matslise.cpp', 'liouville/sturm_liouville.cpp'])
    yc = find_ycls(P, 'double', 1, 1)
    C.explanation = ('SturmLiouville::eigenvaluesByIndex, eigenpairsByIndex and eigenvalueError are interpreted with the Liouville transformation (z2y, y2z, r2x as uninterpreted functions of the point and the data) and '
                     'the Schroedinger solver opaque, on lists of 0..n results. Every result must be the inner result for the same indices or energy and for the conditions z2y(rmin, left), z2y(rmax, right); an eigenfunction '
                     'must be evaluated and transformed back at r2x(r). The constructor is interpreted with opaque member constructors: roles of p, q, w, transformed potential, transformed domain and tolerance.')
    n = queries(C, P, yc) + constructor(C, P)
    C.require(n >= 9, 'only %d instances' % n)
    return 25
