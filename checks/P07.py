"""Every energy derivative the library carries is the derivative of the value it accompanies."""
from spec import *

TECHNIQUE = 'gated value-graph abstract interpretation with formal differentiation, algebraic normal-form equality'
LEVEL_NOTE = ('All energies, step lengths, coefficients, states symbolically in exact real arithmetic; the eta functions are opaque with their '
              'derivative law eta_i\' = eta_{i+1}/2, the derivative of the last one carried is truncated as in the method; matrix problems of size 1 and 2.')


def ddiff(v, rules):
    return lift(lambda r: alg.diff(r, rules) if isinstance(r, R) else r, v)


def eta_handler(log):
    def h(I, f, this, args, node):
        n = [x.get('i') for x in f.get('a') or [] if x.get('i') is not None][0]
        z = I.rv(args[0])
        if isinstance(z, (R, D)):
            log.append((n, [z]))
            return Mat(n, 1, [app('eta%d_%d' % (i, n), z) for i in range(n)])
        m = I.mat(z)
        log.append((n, list(m.e)))
        return Mat(n, len(m.e), [app('eta%d_%d' % (i, n), x) for i in range(n) for x in m.e])
    return h


def eta_rules(wrt):
    """d/d wrt of eta_i(Z) atoms"""
    wid = next(iter(wrt.t))[0][0]

    def rules(a):
        if a == wid:
            return ONE
        fn, args = alg.A.list[a]
        if isinstance(fn, str) and fn.startswith('eta') and args:
            i, n = [int(x) for x in fn[3:].split('_')]
            if i + 1 >= n:
                return ZERO
            return mul(div(app('eta%d_%d' % (i + 1, n), args[0]), rc(2)), alg.diff(args[0], rules))
        return None
    return rules


def mats(v):
    return v.f['t'], v.f['dt']


def scalar_T(C, P):
    n = 0
    for f in one(P, 'matslise::Matslise::Sector::calculateT'):
        if 'matslise::Matslise<double>' not in f['qn'] and '<double>' not in str(f['tu'].recs[f['cls']]['key']):
            continue
        nm = '%s(%s)' % (f['qn'], ','.join(p['n'] for p in f['ps']))
        C.analysed('transfer matrices', nm)
        fresh()
        I = Interp(P)
        log = []
        I.opaque['calculateEta'] = eta_handler(log)
        E, delta, us = sym('E'), sym('delta'), bvar('use_h')
        rec = P.recs[f['tu'].recs[f['cls']]['key']]
        fl = {'h': sym('h'), 'v0Match': sym('vm'), 'min': sym('min'), 'max': sym('max'), 'direction': sym('dir')}
        s = Rec(rec['key'], fl, 'S')
        this = I.new(s, 'S')
        args = []
        for p in f['ps']:
            t = f['tu'].strip(p['t'])
            args.append(us if t.get('n') == 'bool' else I.new(E if not args else delta))
        v = I.run(f, this, args)
        n += compare_T(C, f, nm, v, E)
        C.require(log, 'no eta functions used in ' + nm)
    return n


def compare_T(C, f, nm, v, E):
    if v is None:
        C.ob('dT/dE', nm, False, floc(f), 'never returns')
        return 1
    t, dt = mats(v)
    rules = eta_rules(E)
    d = None
    for i in range(t.r):
        for j in range(t.c):
            d = d or same(dt.at(i, j), ddiff(t.at(i, j), rules))
    C.ob('the derivative part of a transfer matrix is the E-derivative of its value part', nm, d is None, floc(f), d)
    return 1


def matscs_T(C, P):
    n = 0
    for f in one(P, 'matslise::Matscs::Sector::calculateT'):
        rec = P.recs[f['tu'].recs[f['cls']]['key']]
        if '<double>' not in rec['key']:
            continue
        for dim in (1, 2):
            nm = '%s(%s) n=%d' % (f['qn'], ','.join(p['n'] for p in f['ps']), dim)
            C.analysed('transfer matrices', nm)
            fresh()
            I = Interp(P)
            log = []
            I.opaque['calculateEta'] = eta_handler(log)
            E, delta, us = sym('E'), sym('delta'), bvar('use_h')
            dims = {'t_coeff': None}
            fl = {'h': sym('h'), 'min': sym('min'), 'max': sym('max'), 'direction': sym('dir'), 'n': rc(dim),
                  'vs': Vec([Mat(dim, dim, [sym('v%d[%d,%d]' % (k, i, j)) for i in range(dim) for j in range(dim)]) for k in range(9)]),
                  'diagonalize': Mat(dim, dim, [sym('q[%d,%d]' % (i, j)) for i in range(dim) for j in range(dim)])}

            def cm(name):
                return Mat(2 * dim, 2 * dim, [sym('%s[%d,%d]' % (name, i, j)) for i in range(2 * dim) for j in range(2 * dim)])
            for fld, r2 in P.fields(rec):
                t = r2['tu'].strip(fld['t'])
                if fld['n'] == 't_coeff':
                    a = [x['i'] for x in t['a'] if x.get('i') is not None]
                    fl['t_coeff'] = Mat(a[0], a[1], [cm('c%d_%d' % (i, j)) for i in range(a[0]) for j in range(a[1])])
                elif fld['n'] == 't_coeff_h':
                    m = t.get('n') if isinstance(t.get('n'), int) else None
                    fl['t_coeff_h'] = Vec([cm('ch%d' % i) for i in range(m or 8)])
            this = I.new(Rec(rec['key'], fl, 'S'), 'S')
            args = []
            for p in f['ps']:
                t = f['tu'].strip(p['t'])
                args.append(us if t.get('n') == 'bool' else I.new(E if not args else delta))
            v = I.run(f, this, args)
            n += compare_T(C, f, nm, v, E)
            C.require(log, 'no eta functions used in ' + nm)
    return n


def products(C, P):
    """T*y and T/y are (T y, T y_E + T_E y) and its inverse"""
    n = 0
    for name in ('operator*', 'operator/'):
        for f in one(P, 'matslise::T::' + name):
            tu = f['tu']
            rec = P.recs[tu.recs[f['cls']]['key']]
            a = rec['a']
            if rec['tu'].ty(a[0]['t']).get('s') != 'double':
                continue
            dim = a[1]['i']
            yt = tu.strip(f['ps'][0]['t'])
            cols = yt['a'][2]['i']
            for nn in ([1] if dim == 1 else [1, 2] if C.thorough else [1]):
                cc = cols if cols > 0 else nn
                nm = '%s r=%d n=%d' % (f['qn'], cc, nn)
                C.analysed('transfer matrix products', nm)
                fresh()
                I = Interp(P)
                m = 2 * nn
                t = Mat(m, m, [sym('t%d%d' % (i, j)) for i in range(m) for j in range(m)])
                dt = Mat(m, m, [sym('d%d%d' % (i, j)) for i in range(m) for j in range(m)])
                y = mk_y('y', tu.recs[yt['r']]['key'], 4 * nn, cc)
                this = I.new(Rec(rec['key'], {'t': t, 'dt': dt}, 'T'), 'T')
                v = I.run(f, this, [I.new(y)])
                got, yd = v.f['data'], y.f['data']

                def prod(m1, col):
                    out = []
                    for i in range(m):
                        s = ZERO
                        for k in range(m):
                            s = add(s, mul(m1.at(i, k), col[k]))
                        out.append(s)
                    return out
                d = None
                for c in range(cc):
                    src = yd if name == 'operator*' else got
                    dst = got if name == 'operator*' else yd
                    col = [src.at(i, c) for i in range(2 * m)]
                    tgt = [dst.at(i, c) for i in range(2 * m)]
                    want = prod(t, col[:m]) + [add(p, q) for p, q in zip(prod(t, col[m:]), prod(dt, col[:m]))]
                    for g, w in zip(tgt, want):
                        d = d or same(onT(g, t, dt, dim), onT(w, t, dt, dim))
                rule = 'T y carries the derivative T y_E + T_E y' if name == 'operator*' else 'T/y is the exact inverse of T y, derivative included'
                C.ob(rule, nm, d is None, floc(f), d)
                n += 1
    return n


def onT(x, t, dt, dim):
    """reduce modulo det t = 1 and its E-derivative (scalar transfer matrices are unimodular)"""
    if dim != 1:
        return x
    i = [next(iter(e.t))[0][0] for e in (t.e[3], dt.e[3])]
    t11 = div(add(ONE, mul(t.e[1], t.e[2])), t.e[0])
    d11 = div(sub(add(mul(t.e[1], dt.e[2]), mul(dt.e[1], t.e[2])), mul(dt.e[0], t11)), t.e[0])
    m = {i[0]: t11, i[1]: d11}
    return lift(lambda r: alg.subst(r, m) if isinstance(r, R) else r, x)


def state_rules(prefixes):
    """d(y0)=y2, d(y1)=y3 for opaque propagated states with atoms <prefix><row>"""
    def rules(a):
        fn, args = alg.A.list[a]
        if isinstance(fn, str):
            for p in prefixes:
                if fn.startswith(p) and fn[len(p):].split('_')[0].isdigit():
                    row, _, rest = fn[len(p):].partition('_')
                    if int(row) < 2:
                        return app('%s%d_%s' % (p, int(row) + 2, rest), *args)
                    return ZERO
        return None
    return rules


def mismatch(C, P):
    n = 0
    for f in one(P, 'matslise::Matslise::matchingError'):
        tu = f['tu']
        if '<double>' not in tu.recs[f['cls']]['key']:
            continue
        C.analysed('matching errors', f['qn'])
        for k, m in ((2, 0), (3, 1)):
            fresh()
            I = Interp(P)
            this, xs, secs = mk_matslise(I, k, m)

            def prop(I, f, this, args, node):
                y = I.rv(args[1])
                q = [num(I.rv(args[0])), num(I.rv(args[2])), num(I.rv(args[3])), truth(I.rv(args[4]))] + list(y.f['data'].e)
                return Tup([y.set('data', Mat(4, 1, [app('w%d_' % i, *q) for i in range(4)])), app('theta', *q)])
            I.opaque['matslise::Matslise::propagate'] = prop
            yc = tu.recs[tu.strip(f['ps'][1]['t'])['r']]['key']
            v = I.run(f, this, [I.new(sym('E')), I.new(mk_y('l', yc)), I.new(mk_y('r', yc)), bvar('use_h')])
            d = None if v is None else same(v.e[1], ddiff(v.e[0], state_rules(['w'])))
            C.ob('second component of the matching error is the E-derivative of the first', '%s, %d sectors' % (f['qn'], k),
                 v is not None and d is None, floc(f), d or 'never returns')
            n += 1
    for f in one(P, 'calculateMatchingError'):
        tu = f['tu']
        yc = tu.recs[tu.strip(f['ps'][0]['t'])['r']]['key']
        if '<double' not in yc:
            continue
        C.analysed('matching errors', f['qn'])
        fresh()
        I = Interp(P)
        y = Rec(yc, {'data': Mat(4, 2, [app('w%d_%d' % (i, j)) for i in range(4) for j in range(2)])})
        v = I.run(f, None, [I.new(y)])
        d = same(v.e[1], ddiff(v.e[0], state_rules(['w'])))
        C.ob('second component of the matching error is the E-derivative of the first', f['qn'], d is None, floc(f), d)
        w = y.f['data']
        d = same(v.e[0], sub(mul(w.at(0, 0), w.at(1, 1)), mul(w.at(0, 1), w.at(1, 0))))
        C.ob('the periodic matching error is the determinant of the mismatch', f['qn'], d is None, floc(f), d)
        n += 2
    return n


def run(C):
    P = Program(only=['matslise/matslise.cpp', 'matslise/sector.cpp', 'matslise/periodic.cpp', 'matscs/matscs.cpp', 'matscs/sector.cpp'])
    C.explanation = ('Value graphs of the transfer matrices (eta functions and coefficients opaque), of the transfer-matrix products and of the matching '
                     'errors; the derivative component is compared on every gate with the formal derivative of the value component.')
    C.assume('eta_i\'(Z) = eta_{i+1}(Z)/2 (decided for calculateEta by P12); transfer matrices of scalar problems have determinant 1')
    n = [scalar_T(C, P), matscs_T(C, P), products(C, P), mismatch(C, P)]
    C.require(n[0] >= 2 and n[1] >= 4 and n[2] >= 4 and n[3] >= 4, 'too few instances: %s' % n)
    return sum(n)
