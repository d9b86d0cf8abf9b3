"""The Liouville transformation: transformed boundary data are mutually inverse, chosen in the right piece, and the potential is q/w + m''/m with m = (pw)^(1/4)."""
from spec import *
from P05 import sequences

TECHNIQUE = 'gated value-graph abstract interpretation of z2y, y2z, V and the piecewise construction; algebraic normal-form identities, formal differentiation as oracle'
LEVEL_NOTE = 'All points, states and coefficient values symbolic, exact real arithmetic; number of pieces enumerated for look-ups (1..3, thorough 1..5), subdivision and bisection by one arbitrary step from any state satisfying the invariant. The interpolated coefficient polynomials are opaque with their formal derivatives; how well they approximate p, q, w is not decided.'

LT = 'matslise::LiouvilleTransformation'
KEY = LT + '<double>'
PIECE = KEY + '::Piece'
DOM = 'matslise::Domain<double>'


def verdict(d, where):
    return d is None, where, d


def mk(I, P, k):
    """a transformation of k pieces; r and x breakpoints increase together"""
    rs, xs = points(k, 'r'), points(k, 'x')
    prec = P.recs[PIECE]
    pieces = []
    for i in range(k):
        f = {'r': Rec(DOM, {'min': rs[i], 'max': rs[i + 1]}), 'x': Rec(DOM, {'min': xs[i], 'max': xs[i + 1]})}
        for nm in ('r2x', 'p', 'w', 'pwx'):
            f[nm] = Rec('matslise::Polynomial', {'mark': sym('%s_%d' % (nm, i))})
        pieces.append(Rec(PIECE, f, 'piece%d' % i))
    vec = I.new(Vec(pieces), 'pieces')
    lt = Rec(KEY, {'m_rDomain': Rec(DOM, {'min': rs[0], 'max': rs[-1]}), 'm_p': OFn('p'), 'm_q': OFn('q'), 'm_w': OFn('w'), 'pieces': I.load(vec)}, 'lt')

    def mark(I, this):
        return I.load(this.at(('f', 'mark')))

    def evalp(I, f, this, args, node):
        return lift(lambda m, x: poly(str(m), 0, x), mark(I, this), num(I.rv(args[0])))

    def evald(I, f, this, args, node):
        if not args:
            return NotImplemented
        d = [a['i'] for a in f.get('a') or [] if 'i' in a]
        return lift(lambda m, x: poly(str(m), d[0] if d else 1, x), mark(I, this), num(I.rv(args[0])))

    def x2r(I, f, this, args, node):
        return lift(lambda m, x: app('x2r_' + str(m), x), mark(I, this.at(('f', 'r2x'))), num(I.rv(args[0])))
    I.opaque['matslise::Polynomial::operator()'] = evalp
    I.opaque['matslise::Polynomial::derivative'] = evald
    I.opaque[LT + '::Piece::x2r'] = x2r
    return I.new(lt, 'lt'), rs, xs


def poly(mark, d, x):
    nm = '%s%s(x)' % (mark, "'" * d)
    a = app(nm, x)
    if d == 0 and mark.split('_')[0] in ('p', 'w', 'pwx'):
        positive(a)
    return a


def positive(a):
    CTX.lt(ZERO, a)


def norm(x, a, b):
    return div(sub(x, a), sub(b, a))


def mark_of(I, piece):
    return I.load(piece.at(('f', 'r2x')).at(('f', 'mark')))


def which(I, P, C):
    n = 0
    ks = [1, 2, 3] + ([4, 5] if C.thorough else [])
    for name in ('r2x', 'x2r'):
        for f in one(P, LT + '::' + name):
            for k in ks:
                def body():
                    I = Interp(P)
                    this, rs, xs = mk(I, P, k)
                    pts = rs if name == 'r2x' else xs
                    t = sym('t')
                    CTX.le(pts[0], t)
                    CTX.le(t, pts[-1])
                    v = I.run(f, this, [t])
                    inst = '%s, %d pieces' % (name, k)
                    C.analysed('lookups', inst)
                    memory_safe(C, inst, I, floc(f))
                    C.ob('a point of the domain is always accepted', inst, v is not None and I.throw_cond() is False, floc(f), 'throws')
                    if v is None:
                        return
                    ok = None
                    for i in range(k):
                        # a point on a break may be taken from either neighbour
                        at = norm(t, pts[i], pts[i + 1])
                        w = poly('r2x_%d' % i, 0, at) if name == 'r2x' else app('x2r_r2x_%d' % i, at)
                        inside = band(compare('<', pts[i], t), compare('<', t, pts[i + 1]))
                        ok = ok or same(ite(inside, v, ZERO), ite(inside, w, ZERO))
                        ins2 = compare('==', t, pts[i + 1])
                        cands = [w]
                        if i + 1 < k:
                            at2 = norm(t, pts[i + 1], pts[i + 2])
                            cands.append(poly('r2x_%d' % (i + 1), 0, at2) if name == 'r2x' else app('x2r_r2x_%d' % (i + 1), at2))
                        ds = [same(ite(ins2, v, ZERO), ite(ins2, c, ZERO)) for c in cands]
                        ok = ok or (ds[0] if all(ds) else None)
                    C.ob('a point is mapped by the piece that holds it, in that piece\'s own coordinate', inst, ok is None, floc(f), ok)
                n += decide(C, '%s, %d pieces' % (name, k), body, floc(f)) > 0
    return n


def boundary_data(C, P, yc):
    """z2y and y2z at one inner point of each of k pieces"""
    n = 0
    ks = [1, 2] + ([3, 4] if C.thorough else [])
    fz, = one(P, LT + '::z2y', lambda f: 'double' in f['tu'].recs[f['cls']]['key'])
    fy, = one(P, LT + '::y2z', lambda f: 'double' in f['tu'].recs[f['cls']]['key'])
    for k in ks:
        for i in range(k):
            def body():
                I = Interp(P)
                this, rs, xs = mk(I, P, k)
                r, x = sym('r'), sym('x')
                for lo, t, hi in ((rs[i], r, rs[i + 1]), (xs[i], x, xs[i + 1])):
                    CTX.lt(lo, t)
                    CTX.lt(t, hi)
                # x and r are the same point
                I.opaque[LT + '::Piece::x2r'] = lambda I, f, this, args, node: lift(lambda m, v: r if str(m) == 'r2x_%d' % i else app('x2r', v), mark_of(I, this), num(I.rv(args[0])))
                nr, h = norm(r, rs[i], rs[i + 1]), sub(rs[i + 1], rs[i])
                pv, wv = poly('p_%d' % i, 0, nr), poly('w_%d' % i, 0, nr)
                dp, dw = div(poly('p_%d' % i, 1, nr), h), div(poly('w_%d' % i, 1, nr), h)
                z, y = mk_y('z', yc), mk_y('y', yc)
                inst = 'piece %d of %d' % (i + 1, k)
                C.analysed('boundary data', inst)
                a = I.run(fz, this, [I.new(r), I.new(z)])
                b = I.run(fy, this, [I.new(x), I.new(y)])
                C.ob('boundary data are transformed', inst, a is not None and b is not None, floc(fz), 'never returns')
                if a is None or b is None:
                    return
                ya, zb = a.f['data'].e, b.f['data'].e
                # z = s y, with s^4 p w = 1; z' = s' y + s x'(r) y_x, x'^2 p = w
                ye = y.f['data'].e
                u0 = I.run(fy, this, [I.new(x), I.new(y.set('data', Mat(4, 1, [ONE, ZERO, ZERO, ZERO])))]).f['data'].e
                u1 = I.run(fy, this, [I.new(x), I.new(y.set('data', Mat(4, 1, [ZERO, ONE, ZERO, ZERO])))]).f['data'].e
                s, ds, sx = u0[0], u0[1], u1[1]
                d = same(mul(mul(s, s), mul(mul(s, s), mul(pv, wv))), ONE)
                C.ob('solutions are scaled by (p w)^(-1/4) at the point itself', inst, *verdict(d, floc(fy)))
                d = same(sx, mul(s, alg.rsqrt(div(wv, pv))))
                C.ob('the derivative is scaled by (p w)^(-1/4) sqrt(w/p)', inst, *verdict(d, floc(fy)))
                want = mul(div(neg(s), rc(4)), add(div(dp, pv), div(dw, wv)))
                C.ob("the derivative contains the r-derivative of (p w)^(-1/4)", inst, *verdict(same(ds, want), floc(fy)))
                d = same(zb[0], mul(s, ye[0])) or same(zb[1], add(mul(ds, ye[0]), mul(sx, ye[1])))
                C.ob('nothing else enters the transformed value and derivative', inst, *verdict(d, floc(fy)))
                d = same(zb[2], mul(s, ye[2])) or same(zb[3], add(mul(ds, ye[2]), mul(sx, ye[3])))
                C.ob('energy derivatives are transformed like the values', inst, *verdict(d, floc(fy)))
                # z2y inverts
                back = I.run(fy, this, [I.new(x), I.new(a)])
                there = I.run(fz, this, [I.new(r), I.new(b)])
                for nm, got, w in (('y2z after z2y', back, z), ('z2y after y2z', there, y)):
                    d = None
                    for g, e in zip(got.f['data'].e, w.f['data'].e):
                        d = d or same(g, e)
                    C.ob('%s is the identity' % nm, inst, *verdict(d, floc(fz)))
                memory_safe(C, inst, I, floc(fz))
            n += decide(C, 'boundary data in piece %d of %d' % (i + 1, k), body) > 0
    return n


U = 'u'


def polys(I):
    """interpolating polynomials on [0,1]: p(t) = a * F[f](t) + b, F an uninterpreted functional of the function interpolated"""
    POLY = 'matslise::Polynomial'

    def mkp(g, kind='interp', a=ONE, b=ZERO):
        return Rec(POLY, {'mark': app(kind, g), 'a': a, 'b': b})

    def leg(I, rec, args, node):
        a, b = num(I.rv(args[1])), num(I.rv(args[2]))
        fn = args[0]
        g = I.call_value(fn, [I.new(add(a, mul(sub(b, a), sym(U))))], node)
        return Rec(rec['key'], {'g': num(I.rv(g)), 'h': sub(b, a)})
    I.ctor_opaque['matslise::legendre::Legendre'] = leg
    I.opaque['matslise::legendre::Legendre::asPolynomial'] = lambda I, f, this, args, node: I.new(mkp(I.load(this).f['g']))
    I.opaque['matslise::legendre::Legendre::integrate'] = lambda I, f, this, args, node: app('quadrature', I.load(this).f['g'], I.load(this).f['h'])
    # a polynomial stored in a field of another degree keeps its values
    I.ctor_opaque[POLY] = lambda I, rec, args, node: I.load(args[0]) if len(args) == 1 and isinstance(args[0], Loc) else I.rv(args[0]) if len(args) == 1 else Rec(POLY, {'mark': sym('unset'), 'a': ZERO, 'b': ZERO})

    def ev(kind):
        def h(I, f, this, args, node):
            def one_(m, a, b, x):
                if kind == '' and x == ONE and str(m).startswith('integral'):
                    positive(app('at_', m, ONE))        # the integral of a square root
                return add(mul(a, app('at_' + kind, m, x)), b if kind == '' else mul(b, x) if kind == 'int' else ZERO)
            if not args:
                m = I.load(this)
                if kind == 'int':
                    return mkp(m.f['mark'], 'integral', m.f['a']) if m.f['b'] == ZERO else NotImplemented
                return NotImplemented
            x = num(I.rv(args[0]))
            v = [I.load(this.at(('f', k))) for k in ('mark', 'a', 'b')]
            return lift(one_, *v, x)
        return h
    I.opaque[POLY + '::operator()'] = ev('')
    I.opaque[POLY + '::integral'] = ev('int')
    I.opaque[POLY + '::derivative'] = ev('der')

    def scale(s, shift):
        def h(I, f, this, args, node):
            v = num(I.rv(args[0]))
            a, b = I.load(this.at(('f', 'a'))), I.load(this.at(('f', 'b')))
            if shift:
                I.store(this.at(('f', 'b')), add(b, v) if s > 0 else sub(b, v))
            else:
                I.store(this.at(('f', 'a')), mul(a, v) if s > 0 else div(a, v))
                I.store(this.at(('f', 'b')), mul(b, v) if s > 0 else div(b, v))
            return this
        return h
    for op, s, sh in (('+', 1, True), ('-', -1, True), ('*', 1, False), ('/', -1, False)):
        I.opaque[POLY + '::operator%s=' % op] = scale(s, sh)
    I.opaque['x2r_impl'] = lambda I, f, this, args, node: lift(lambda m, a, b, x: app('inverse', m, a, div(sub(x, b), a)),
                                                              *[I.load(args[0].at(('f', k))) for k in ('mark', 'a', 'b')], num(I.rv(args[1])))
    return mkp


class Stop(Exception):
    pass


def piece_shape(I, q, piece_at, b):
    """(rule, got, want) for a piece on [r.min, r.max] whose map starts at b"""
    r0, r1 = q.f['r'].f['min'], q.f['r'].f['max']
    h = sub(r1, r0)
    pi, wi = (app('interp', app(k, add(r0, mul(h, sym(U))))) for k in 'pw')
    yield 'the coefficient polynomials of a piece interpolate p and w on that piece', q.f['p'].f['mark'], pi
    yield 'the coefficient polynomials of a piece interpolate p and w on that piece', q.f['w'].f['mark'], wi
    r2x = app('integral', app('interp', alg.rsqrt(div(app('at_', wi, sym(U)), app('at_', pi, sym(U))))))
    yield 'r -> x is the integral of sqrt(w/p)', q.f['r2x'].f['mark'], r2x
    yield 'r -> x is the integral of sqrt(w/p)', q.f['r2x'].f['a'], h
    yield 'r -> x starts at the beginning of the piece in x', q.f['r2x'].f['b'], q.f['x'].f['min']
    L = mul(h, app('at_', r2x, ONE))
    yield 'a piece ends where its map r -> x ends', q.f['x'].f['max'], add(q.f['x'].f['min'], L)
    inv = app('inverse', r2x, h, div(mul(L, sym(U)), h))
    yield 'the product p w is interpolated at the r that corresponds to x', q.f['pwx'].f['mark'], app('interp', mul(app('at_', pi, inv), app('at_', wi, inv)))


SHAPE = ['the coefficient polynomials of a piece interpolate p and w on that piece', 'r -> x is the integral of sqrt(w/p)', 'r -> x starts at the beginning of the piece in x',
         'a piece ends where its map r -> x ends', 'the product p w is interpolated at the r that corresponds to x']
TILE = ['pieces done and pieces to do follow each other without gap in r', 'they cover the whole domain', 'finished pieces follow each other without gap in x',
        'the next piece starts in x where the finished ones end', 'nothing is left to do when the subdivision ends']


def piecewise(C, P):
    """the pieces a transformation is built of: one arbitrary step of the subdivision, from any state that satisfies the invariant"""
    rec = P.recs[KEY]
    tu = rec['tu']
    ctor = [tu.funs[m] for m in rec['methods'] if tu.funs[m].get('kind') == 'ctor' and len(tu.funs[m]['ps']) == 4]
    prec = P.recs[PIECE]
    pctor = [prec['tu'].funs[m] for m in prec['methods'] if prec['tu'].funs[m].get('kind') == 'ctor' and len(prec['tu'].funs[m]['ps']) == 2
             ]
    if not ctor or not pctor:
        raise AnalysisBroken('anchor vanished: constructor of ' + KEY)
    def is_pieces(v):
        return isinstance(v, Vec) and all(isinstance(x, Rec) and x.cls == PIECE for x in v.e)

    def leafseqs(v):
        return [(c, x) for c, x in (Interp.last.leafconds(v) if isinstance(v, D) else [(True, v)]) if isinstance(x, Vec) and Interp.last.simplify(c)]

    def make(I, lt, lo, hi, xmin):
        v = I.construct_repo(prec, [lt, I.new(Rec(DOM, {'min': lo, 'max': hi}))], pctor[0])
        v = I.load(v) if isinstance(v, Loc) else v
        q = Rec(PIECE, dict(v.f), None)
        d = sub(xmin, q.f['x'].f['min'])
        q.f['x'] = Rec(DOM, {'min': xmin, 'max': add(q.f['x'].f['max'], d)})
        q.f['r2x'] = Rec(q.f['r2x'].cls, dict(q.f['r2x'].f, b=add(q.f['r2x'].f['b'], d)))
        return q

    todo = [(True, True), (True, False)]
    done = 0
    while todo:
        back, more = todo.pop()
        inst = 'construction, one arbitrary step, %s' % ('several pieces left' if more else 'one piece left')
        what = 'piecewise construction, %s' % ('several pieces left' if more else 'one piece left')
        found = []

        def body():
            I = Interp(P)
            polys(I)
            # which subdivision is accepted does not matter here
            cnt = []
            I.opaque['relError'] = I.opaque['pieceError'] = lambda I, f, this, args, node: sym('error%d' % len(cnt.append(0) or cnt))
            r = [sym('r0')]
            for i in range(4):      # lengths as positive symbols: the x-lengths are products of them
                r.append(add(r[-1], sym('len%d' % i, positive=True)))
            xs = [sym('x0'), sym('x1'), sym('xtop'), sym('xlow')]
            dom = Rec(DOM, {'min': sub(r[0], sym('len', positive=True)), 'max': r[4]})
            bad = {}
            state = {}

            def chk(pc, rule, got, want):
                d = same(ite(pc, got, ZERO), ite(pc, want, ZERO))
                if d:
                    bad.setdefault(rule, d)

            def hook(I, s):
                work = [(loc, v) for loc, v in sequences(I) if is_pieces(v) and len(v.e) == 1]
                empty = [(loc, v) for loc, v in sequences(I) if is_pieces(v) and not v.e]
                if len(work) != 1 or len(empty) != 1:
                    return NotImplemented
                lw, ld = work[0][0], empty[0][0]
                # the start: everything to do, nothing done, x starts at 0
                first = work[0][1].e[0]
                chk(True, TILE[1], first.f['r'].f['min'], dom.f['min'])
                chk(True, TILE[1], first.f['r'].f['max'], dom.f['max'])
                for rule, got, want in piece_shape(I, first, None, None):
                    chk(True, rule, got, want)
                lt = I.new(Rec(KEY, {'m_rDomain': dom, 'm_p': OFn('p'), 'm_q': OFn('q'), 'm_w': OFn('w')}))
                last = make(I, lt, r[0], r[1], xs[0])
                X = last.f['x'].f['max']
                top, low = make(I, lt, r[1], r[2], xs[2]), make(I, lt, r[2], r[4], xs[3])
                I.frames[-1].pc = True
                I.store(ld, Vec([last]))
                I.store(lw, Vec(([low, top] if back else [top, low]) if more else [top]))
                scal = []
                for name, loc in I.frames[-1].vars.items():
                    if isinstance(loc, Loc) and I.vtypes.get(name, {}).get('s') == 'double':
                        try:
                            v = I.load(loc)
                        except Unsupported:
                            continue
                        if v == ZERO:
                            scal.append(loc)
                            I.store(loc, X)
                got, alive = I.step_loop(s)
                outs = [(pc, mem, False) for pc, mem, _ in got] + ([alive + (True,)] if alive is not None else [])
                state['n'] = 0
                for pc, mem, left in outs:
                    if pc is False:
                        continue
                    I.mem = mem
                    W, Dn = I.load(lw), I.load(ld)
                    for c, dv in leafseqs(Dn):
                        for c2, wv in leafseqs(W):
                            cc = I.simplify(band(pc, band(c, c2)))
                            if not cc:
                                continue
                            state['n'] += 1
                            if left and wv.e:
                                chk(cc, 'nothing is left to do when the subdivision ends', ONE, ZERO)
                            todo = list(reversed(wv.e)) if back else list(wv.e)
                            seq = list(dv.e) + todo
                            state.setdefault('kinds', set()).add('%d done, %d to do' % (len(dv.e), len(wv.e)))
                            R0 = r[0]
                            for q in seq:
                                g = lambda *p: _get(q, p)
                                chk(cc, TILE[0], g('r', 'min'), R0)
                                R0 = g('r', 'max')
                                for rule, got_, want in lift_shape(I, q):
                                    chk(cc, rule, got_, want)
                            chk(cc, TILE[1], R0, r[4] if more else r[2])
                            X0 = xs[0]
                            for q in dv.e:
                                chk(cc, TILE[2], _get(q, ('x', 'min')), X0)
                                X0 = _get(q, ('x', 'max'))
                            for loc in scal:
                                chk(cc, TILE[3], num(I.load(loc)), X0)
                found.append(1)
                raise Stop()
            I.loop_hook = hook
            try:
                I.construct_repo(rec, [I.new(dom), I.new(OFn('p')), I.new(OFn('q')), I.new(OFn('w'))], ctor[0])
                raise Unsupported('no subdivision loop over a list of pieces found')
            except Stop:
                pass
            # pieces of the whole state, in an order that does not fit the one of the code: try the other one
            if back and TILE[0] in bad:
                raise Unsupported('work list is not processed from its end')
            C.analysed('constructors', KEY)
            for k in sorted(state.get('kinds', ())):
                C.analysed('states after a step', k)
            C.require(state['n'] >= 1, 'no state reached')
            for rule in SHAPE + TILE:
                C.ob(rule, inst, rule not in bad, PIECE, bad.get(rule))
        if decide(C, what, body) > 0:
            C.und = [u for u in C.und if u[0] != what]
            done += 1
        elif back:
            todo.append((False, more))
    return done


def _get(q, path):
    x = q
    for k in path:
        x = lift(lambda y: y.f[k], x)
    return x


def lift_shape(I, q):
    if isinstance(q, Rec) and all(isinstance(q.f[k], Rec) for k in ('r', 'x', 'p', 'w', 'r2x', 'pwx')):
        yield from piece_shape(I, q, None, None)
    else:
        raise Unsupported('piece depends on a decision')


def inversion(C, P):
    """the inverse of r -> x inside a piece"""
    n = 0
    fx, = one(P, LT + '::Piece::x2r', lambda f: 'double' in f['tu'].recs[f['cls']]['key'])

    def body():
        I = Interp(P)
        mkp = polys(I)
        r0, x0 = sym('r0'), sym('x0')
        h, L, t = sym('hr', positive=True), sym('hx', positive=True), sym('t')
        q = Rec(PIECE, {'r': Rec(DOM, {'min': r0, 'max': add(r0, h)}), 'x': Rec(DOM, {'min': x0, 'max': add(x0, L)}), 'p': mkp(sym('P')), 'w': mkp(sym('W')), 'pwx': mkp(sym('PW')),
                        'r2x': mkp(sym('R'), 'interp', h, x0)})
        v = I.run(fx, I.new(q), [t])
        want = add(r0, mul(h, app('inverse', app('interp', sym('R')), h, div(mul(L, t), h))))
        C.ob('x -> r in a piece inverts its map r -> x, rescaled to the ends of the piece', 'all pieces', *verdict(same(v, want), floc(fx)))
    n += decide(C, 'x -> r in a piece', body, floc(fx)) > 0

    fs = [f for f in P.find('x2r_impl') if f['ps'] and f['tu'].ty(f.get('rt', f['ps'][-1]['t'])).get('s') == 'double']
    for f in fs:
        def body():
            I = Interp(P)
            polys(I)
            del I.opaque['x2r_impl']
            x = sym('x')
            state = {}
            POLY = 'matslise::Polynomial'
            I.opaque[POLY + '::operator()'] = lambda I, f, this, args, node: app('map', num(I.rv(args[0])))

            def hook(I, s):
                fr = I.frames[-1]
                if s.get('init'):
                    I.loop_hook = None
                    try:
                        I.exec(s['init'])
                    finally:
                        I.loop_hook = hook
                vals = [(loc, I.load(loc)) for d, loc in fr.vars.items() if isinstance(loc, Loc) and str(I.vtypes.get(d, {}).get('s')).replace('const ', '') == 'double']
                lo, hi = [l for l, v in vals if v == ZERO], [l for l, v in vals if v == ONE]
                # the middle, when it is carried along
                mids = [l for l, v in vals if v == rc(Fraction(1, 2))]
                if len(lo) != 1 or len(hi) != 1:
                    if s.get('init'):
                        raise Unsupported('bisection state')
                    return NotImplemented
                a, b = sym('low'), sym('high')
                for l in mids:
                    I.store(l, div(add(a, b), rc(2)))
                CTX.lt(a, b)
                CTX.le(app('map', a), x)
                CTX.le(x, app('map', b))
                I.store(lo[0], a)
                I.store(hi[0], b)
                fr.pc = True
                got, alive = I.step_loop(s)
                bad = {}

                def chk(pc, rule, cond):
                    d = same(ite(pc, ite(cond, ONE, ZERO), ONE), ONE)
                    if d:
                        bad.setdefault(rule, d)
                state['n'] = 0
                for pc, mem, _ in got:
                    if pc is False:
                        continue
                    state['n'] += 1
                    I.mem = mem
                    na, nb = num(I.load(lo[0])), num(I.load(hi[0]))
                    for l in mids:
                        if same(ite(pc, sub(num(I.load(l)), div(add(na, nb), rc(2))), ZERO), ZERO):
                            raise Unsupported('a value carried along that is not the middle')
                    # a gate may only be looked at leaf by leaf: the map is uninterpreted
                    chk(pc, BIS[0], lift(lambda p: compare('<=', app('map', p), x), na))
                    chk(pc, BIS[0], lift(lambda p: compare('<=', x, app('map', p)), nb))
                    chk(pc, BIS[1], band(band(compare('<=', a, na), compare('<', na, nb)), compare('<=', nb, b)))
                    chk(pc, BIS[1], compare('<', sub(nb, na), sub(b, a)))
                state['bad'] = bad
                if alive is not None:
                    chk(alive[0], BIS[2], compare('<', sub(b, a), div(ONE, rc(10 ** 12))))
                state['ends'] = (lo[0], hi[0])
                if alive is None:
                    raise Stop()
                fr.pc, I.mem = alive
                state['mem'] = True
                return True
            I.loop_hook = hook
            q = I.new(Rec(POLY, {'mark': app('interp', sym('R')), 'a': ONE, 'b': ZERO}))
            v = None
            try:
                v = I.run(f, None, [q, x])
            except Stop:
                pass
            if not state.get('n'):
                raise Unsupported('no bisection loop found')
            C.analysed('inversions', fname(f))
            for rule in BIS:
                C.ob(rule, 'one arbitrary step', rule not in state['bad'], floc(f), state['bad'].get(rule))
            if v is not None:
                CTX.lt(sym('low'), sym('high'))
                ok = band(compare('<=', sym('low'), v), compare('<=', v, sym('high')))
                C.ob('the result lies in the final bracket', 'all brackets', same(ite(ok, ONE, ZERO), ONE) is None, floc(f))
        n += decide(C, 'bisection', body, floc(f), seconds=100) > 0
    C.require(n >= 2, 'no inversion of the map r -> x found')
    return n


BIS = ['the bracket keeps the solution', 'the bracket shrinks', 'the search ends with a bracket below 1e-12']


def potential(C, P):
    n = 0
    ks = [1, 2] + ([3, 4] if C.thorough else [])
    fv, = one(P, LT + '::V', lambda f: 'double' in f['tu'].recs[f['cls']]['key'])
    for k in ks:
        for i in range(k):
            def body():
                I = Interp(P)
                this, rs, xs = mk(I, P, k)
                x = sym('x')
                CTX.lt(xs[i], x)
                CTX.lt(x, xs[i + 1])
                v = I.run(fv, this, [x])
                inst = 'piece %d of %d' % (i + 1, k)
                C.analysed('potential', inst)
                C.ob('the transformed potential is defined', inst, v is not None and I.throw_cond() is False, floc(fv), 'throws')
                if v is None:
                    return
                h = sub(xs[i + 1], xs[i])
                nx = norm(x, xs[i], xs[i + 1])
                r = app('x2r_r2x_%d' % i, nx)
                g = poly('pwx_%d' % i, 0, nx)
                g1, g2 = div(poly('pwx_%d' % i, 1, nx), h), div(poly('pwx_%d' % i, 2, nx), mul(h, h))
                # m = g^(1/4): m''/m = g''/(4g) - 3/16 (g'/g)^2
                want = add(div(app('q', r), poly('w_%d' % i, 0, norm(r, rs[i], rs[i + 1]))),
                           sub(div(g2, mul(rc(4), g)), mul(div(rc(3), rc(16)), div(mul(g1, g1), mul(g, g)))))
                C.ob("V(x) = q/w + m''/m with m = (p w)^(1/4), at the r that corresponds to x", inst, *verdict(same(v, want), floc(fv)))
                memory_safe(C, inst, I, floc(fv))
            n += decide(C, 'V in piece %d of %d' % (i + 1, k), body, floc(fv)) > 0
    return n


def run(C):
    P = Program(only=['liouville/liouville.cpp'])
    yc = find_ycls(P, 'double', 1, 1)
    C.explanation = ('Which piece a point belongs to (r -> x and x -> r) was evaluated for every number of pieces listed and every point inside them and on the break points; z2y and y2z were interpreted with '
                     'uninterpreted coefficient polynomials (with formal derivatives) and their compositions compared with the identity, their entries with (p w)^(1/4) factors; V was compared with q/w + m\'\'/m; '
                     'one arbitrary step of the subdivision was interpreted from any state in which finished and unfinished pieces tile the domain, and the tiling and shape of all pieces proved again after it.')
    n = [which(None, P, C), boundary_data(C, P, yc), potential(C, P), piecewise(C, P), inversion(C, P)]
    return sum(n)
