"""Propagation over an interval is the ordered composition of per-sector flows; a per-sector flow is
T(E, b'-anchor) o T(E, a'-anchor)^-1 with a',b' clamped to the sector, mirrored in backward sectors."""
from spec import *

TECHNIQUE = 'gated value-graph abstract interpretation, algebraic normal-form equality with the composition law'
LEVEL_NOTE = 'All real end points, energies and states symbolically, exact real arithmetic instead of floating point; sector counts and matching positions enumerated.'


def T_handler(P, tcls, n2):
    def h(I, f, this, args, node):
        E = num(I.rv(args[0]))
        us = truth(I.rv(args[-1]))
        if len(args) == 3:
            delta = num(I.rv(args[1]))
        else:
            delta = I.load(this.at(('f', 'h')))
        return Rec(tcls, {k: Mat(2, 2, T_cells(k, E, delta, us)) for k in ('t', 'dt')})
    return h


def T_cells(k, E, delta, us):
    ident = [ONE, ZERO, ZERO, ONE] if k == 't' else [ZERO] * 4
    z = compare('==', delta, ZERO)
    return [ite(z, ident[i], app('%s%d' % (k, i), E, delta, us)) for i in range(4)]


def mul2(t, y):
    return [add(mul(t[0], y[0]), mul(t[1], y[1])), add(mul(t[2], y[0]), mul(t[3], y[1]))]


def vadd(a, b, s=1):
    return [add(x, y) if s > 0 else sub(x, y) for x, y in zip(a, b)]


def apply_T(t, dt, y):
    """(y, y_E) -> (T y, T y_E + T_E y)"""
    return mul2(t, y[:2]) + vadd(mul2(t, y[2:]), mul2(dt, y[:2]))


def apply_Tinv(t, dt, y, exact):
    if exact:
        det = sub(mul(t[0], t[3]), mul(t[1], t[2]))
        ti = [div(t[3], det), div(neg(t[1]), det), div(neg(t[2]), det), div(t[0], det)]
        v = mul2(ti, y[:2])
        return v + vadd(mul2(ti, y[2:]), mul2(ti, mul2(dt, v)), -1)
    ti = [t[3], neg(t[1]), neg(t[2]), t[0]]
    dti = [dt[3], neg(dt[1]), neg(dt[2]), dt[0]]
    return mul2(ti, y[:2]) + vadd(mul2(ti, y[2:]), mul2(dti, y[:2]))


def rev(y):
    return [y[0], neg(y[1]), y[2], neg(y[3])]


def sector_spec(direction_, lo, hi, E, us, y, a, b, exact, prufer):
    """(cells, theta) of the flow a -> b inside one sector; prufer(delta, y0, y1)"""
    fw = direction_ == 'forward'
    outside = bor(band(compare('>=', a, hi), compare('>=', b, hi)), band(compare('<=', a, lo), compare('<=', b, lo)))
    a1, b1 = clamp(a, lo, hi), clamp(b, lo, hi)
    da = sub(a1, lo) if fw else sub(hi, a1)
    db = sub(b1, lo) if fw else sub(hi, b1)

    def tm(d):
        return T_cells('t', E, d, us), T_cells('dt', E, d, us)
    r = (lambda v: v) if fw else rev
    ya = r(apply_Tinv(*tm(da), r(y), exact))
    yb = r(apply_T(*tm(db), r(ya)))
    cells = [ite(outside, y[i], yb[i]) for i in range(4)]
    theta = None
    if prufer:
        skipa, skipb = compare('==', da, ZERO), compare('==', db, ZERO)
        # moving right counts the turning angle from the first to the second point, moving left minus that
        pa = neg(prufer(da, ya, y)) if fw else prufer(da, y, ya)
        pb = prufer(db, ya, yb) if fw else neg(prufer(db, yb, ya))
        theta = ite(outside, ZERO, add(ite(skipa, ZERO, pa), ite(skipb, ZERO, pb)))
    return cells, theta


def psi_level(C, P):
    """the quotient y y'^-1 of a matrix problem follows the flow of the state: psi -> (T00 psi + T01)(T10 psi + T11)^-1"""
    n = 0
    for f in one(P, 'matslise::Matscs::Sector::propagatePsi'):
        C.analysed('sector flows', f['qn'])
        cls = 'matslise::Matscs<double>::Sector'
        tcls = [k for k, r in P.recs.items() if r['bn'] == 'matslise::T' and r['tu'].ty(r['a'][0]['t'])['s'] == 'double' and r['a'][1]['i'] == -1][0]
        for dr in ('forward', 'backward'):
            def body():
                I = Interp(P)
                lo, hi, a, b, E = sym('min'), sym('max'), sym('a'), sym('b'), sym('E')
                CTX.lt(lo, hi)
                I.opaque['matslise::Matscs::Sector::calculateT'] = T_handler(P, tcls, 2)
                s = Rec(cls, {'min': lo, 'max': hi, 'h': sub(hi, lo), 'direction': direction(dr), 'n': ONE})
                psi = sym('psi')
                fw = dr == 'forward'
                v = I.run(f, I.new(s, 'S'), [I.new(E), I.new(Mat(1, 1, [psi])), I.new(a), I.new(b)])
                if v is None:
                    C.ob('sector flow', '%s %s' % (f['qn'], dr), False, floc(f), 'never returns')
                    return
                outside = bor(band(compare('>=', a, hi), compare('>=', b, hi)), band(compare('<=', a, lo), compare('<=', b, lo)))
                a1, b1 = clamp(a, lo, hi), clamp(b, lo, hi)
                da, db = (sub(a1, lo), sub(b1, lo)) if fw else (sub(hi, a1), sub(hi, b1))
                sg = (lambda x: x) if fw else neg
                ta, tb = (T_cells('t', E, d, True) for d in (da, db))
                p = sg(psi)
                p = div(sub(mul(p, ta[3]), ta[1]), sub(ta[0], mul(p, ta[2])))
                p = div(add(mul(tb[0], p), tb[1]), add(mul(tb[2], p), tb[3]))
                C.ob('the quotient of value and derivative follows the flow of the state', '%s %s' % (f['qn'], dr),
                     *verdict(same(I.mat(v).e[0], ite(outside, psi, sg(p))), floc(f)))
            n += decide(C, '%s %s' % (f['qn'], dr), body, floc(f)) > 0

            def body2():
                # two coupled components, one leg: the order of the matrix products matters
                I = Interp(P)
                lo, hi, b, E = sym('min'), sym('max'), sym('b'), sym('E')
                CTX.lt(lo, b)
                CTX.lt(b, hi)
                T = Mat(4, 4, [sym('t%d%d' % (i, j)) for i in range(4) for j in range(4)])
                seen = []

                def th(I, f, this, args, node):
                    seen.append(num(I.rv(args[1])) if len(args) == 3 else None)
                    return Rec(tcls, {'t': T, 'dt': Mat(4, 4, [ZERO] * 16)})
                I.opaque['matslise::Matscs::Sector::calculateT'] = th
                fw = dr == 'forward'
                for out in (True, False):
                    s = Rec(cls, {'min': lo, 'max': hi, 'h': sub(hi, lo), 'direction': direction(dr), 'n': rc(2)})
                    psi = Mat(2, 2, [sym('psi%d' % i) for i in range(4)])
                    anchor = lo if fw else hi
                    v = I.run(f, I.new(s, 'S'), [I.new(E), I.new(psi), I.new(anchor if out else b), I.new(b if out else anchor)])
                    inst = '%s %s, two components, %s' % (f['qn'], dr, 'from the anchor' if out else 'to the anchor')
                    if v is None:
                        C.ob('sector flow', inst, False, floc(f), 'never returns')
                        continue
                    g = I.mat(v)
                    sg = (lambda x: x) if fw else neg
                    def blk(r, c): return [T.at(2 * r + i, 2 * c + j) for i in (0, 1) for j in (0, 1)]
                    def mm(x, y): return [add(mul(x[2 * i], y[j]), mul(x[2 * i + 1], y[2 + j])) for i in (0, 1) for j in (0, 1)]
                    ge, pe = [sg(x) for x in g.e], [sg(x) for x in psi.e]
                    p0, p1 = (pe, ge) if out else (ge, pe)
                    # p1 (T10 p0 + T11) = T00 p0 + T01
                    L = mm(p1, vadd(mm(blk(1, 0), p0), blk(1, 1)))
                    R_ = vadd(mm(blk(0, 0), p0), blk(0, 1))
                    d = None
                    for x, y in zip(L, R_):
                        d = d or same(x, y)
                    d = d or (same(seen[-1], sub(b, lo) if fw else sub(hi, b)) if seen and seen[-1] is not None else 'the length of the step')
                    C.ob('the quotient of value and derivative follows the flow of the state', inst, *verdict(d, floc(f)))
            n += decide(C, '%s %s matrix' % (f['qn'], dr), body2, floc(f)) > 0
    return n


def verdict(d, where):
    return d is None, where, d


def columns(m):
    return [[m.at(i, j) for i in range(m.r)] for j in range(m.c)]


def sector_level(C, P):
    def prf(E):
        return lambda d, y0, y1: app('prufer', E, d, *(list(y0[:2]) + list(y1[:2])))

    def prufer_handler(I, f, this, args, node):
        E, d = num(I.rv(args[0])), num(I.rv(args[1]))
        y0, y1 = I.rv(args[2]).f['data'], I.rv(args[3]).f['data']
        out = [prf(E)(d, c0, c1) for c0, c1 in zip(columns(y0), columns(y1))]
        return out[0] if len(out) == 1 else Mat(len(out), 1, out)
    n = 0
    targets = [(f, 'ms') for f in one(P, 'matslise::Matslise::Sector::propagate')]
    targets += [(f, 'cs') for f in one(P, 'matslise::Matscs::Sector::propagate')]
    targets += [(f, 'cs') for f in one(P, 'matslise::Matscs::Sector::propagateColumn')]
    for f, kind in targets:
        tu = f['tu']
        yp = [tu.strip(p['t']) for p in f['ps']]
        yt = [t for t in yp if t['k'] == 'rec'][0]
        cols = yt['a'][2]['i']
        nm = '%s%s' % (f['qn'], [x.get('i') for x in f.get('a') or []])
        C.analysed('sector flows', nm)
        for dr in ('forward', 'backward'):
            fresh()
            I = Interp(P)
            lo, hi, a, b, E = sym('min'), sym('max'), sym('a'), sym('b'), sym('E')
            CTX.lt(lo, hi)
            cls = 'matslise::%s<double>::Sector' % ('Matslise' if kind == 'ms' else 'Matscs')
            tcls = [k for k, r in P.recs.items() if r['bn'] == 'matslise::T' and r['tu'].ty(r['a'][0]['t'])['s'] == 'double'
                    and r['a'][1]['i'] == (1 if kind == 'ms' else -1)][0]
            I.opaque['matslise::%s::Sector::calculateT' % ('Matslise' if kind == 'ms' else 'Matscs')] = T_handler(P, tcls, 2)
            I.opaque['matslise::Matslise::Sector::prufer'] = prufer_handler
            I.opaque['matslise::Matscs::Sector::theta'] = lambda I, f, this, args, node: Mat(1, 1, [app('th', *I.rv(args[0]).f['data'].e)])
            I.opaque['angle'] = lambda I, f, this, args, node: Mat(1, 1, [app('ang')])
            I.opaque['calculateEta'] = lambda I, f, this, args, node: Mat(2, 1, [app('eta0'), app('eta1')])
            s = Rec(cls, {'min': lo, 'max': hi, 'h': sub(hi, lo), 'direction': direction(dr)}, 'S')
            if kind == 'cs':
                s = s.set('n', ONE)
                s = s.set('vs', Vec([Mat(1, 1, [sym('v%d' % i)]) for i in range(9)]))
            this = I.new(s, 'S')
            c = max(cols, 1)
            ycl = tu.recs[yt['r']]['key']
            y = mk_y('y', ycl, 4, c)
            us = bvar('use_h')
            args, scal = [], [E, a, b]
            for t in yp:
                if t['k'] == 'rec':
                    args.append(I.new(y))
                elif t.get('n') == 'bool':
                    args.append(us)
                else:
                    args.append(I.new(scal.pop(0)))
            v = I.run(f, this, args)
            if v is None:
                C.ob('sector flow', '%s %s' % (nm, dr), False, floc(f), 'never returns')
                continue
            th = None
            if isinstance(v, Tup):
                v, th = v.e
            got = v.f['data']
            n += 1
            d = None
            prufer = kind == 'ms' and th is not None
            want_th = []
            for j, col in enumerate(columns(y.f['data'])):
                cells, theta = sector_spec(dr, lo, hi, E, us, col, a, b, kind == 'cs', prf(E) if prufer else None)
                want_th.append(theta)
                for i in range(4):
                    d = d or same(got.at(i, j), cells[i])
            C.ob('state after one sector is T(b)T(a)^-1 y with end points clamped', '%s %s' % (nm, dr), d is None, floc(f), d)
            if prufer:
                if isinstance(th, (R, D)):
                    th = Mat(1, 1, [th])
                d = None
                for g, w in zip(th.e, want_th):
                    d = d or same(g, w)
                C.ob('angle after one sector is the signed sum of the two legs', '%s %s' % (nm, dr), d is None, floc(f), d)
    return n


def problem_level(C, P):
    n = 0
    ks = [1, 2, 3] + ([4, 5] if C.thorough else [])
    targets = [(f, 'ms') for f in one(P, 'matslise::Matslise::propagate')]
    targets += [(f, 'per') for f in one(P, 'matslise::PeriodicMatslise::propagate')]
    targets += [(f, 'cs') for f in one(P, 'matslise::Matscs::propagate')]
    targets += [(f, 'cs') for f in one(P, 'matslise::Matscs::propagateColumn')]
    targets += [(f, 'psi') for f in one(P, 'matslise::Matscs::propagatePsi')]
    for f, kind in targets:
        tu = f['tu']
        yp = [tu.strip(p['t']) for p in f['ps']]
        nm = '%s%s' % (f['qn'], [x.get('i') for x in f.get('a') or []])
        C.analysed('propagation entry points', nm)
        for k in ks:
            fresh()
            I = Interp(P)
            E, a, b, us = sym('E'), sym('a'), sym('b'), bvar('use_h')
            if kind in ('cs', 'psi'):
                this, xs, secs = mk_matscs(I, k, max(0, k // 2 - 1))
            else:
                this, xs, secs = mk_matslise(I, k, max(0, k // 2 - 1))
                if kind == 'per':
                    this = I.new(Rec('matslise::PeriodicMatslise<double>', {'matslise': I.load(this), 'K': Mat(2, 2, [sym('k%d' % i) for i in range(4)])}, 'per'))
            CTX.le(xs[0], a)
            CTX.le(a, xs[-1])
            CTX.le(xs[0], b)
            CTX.le(b, xs[-1])

            def bounds(I, this):
                return I.load(this.at(('f', 'min'))), I.load(this.at(('f', 'max')))

            def sp(I, f, this, args, node):
                y = I.rv(args[1])
                lo, hi = bounds(I, this)
                m = y.f['data']
                outs = [flow(str(this.root), lo, hi, num(I.rv(args[0])), col, num(I.rv(args[2])), num(I.rv(args[3])), truth(I.rv(args[4])))
                        for col in columns(m)]
                y2 = y.set('data', Mat(m.r, m.c, [outs[j][0][i] for i in range(m.r) for j in range(m.c)]))
                ths = [o[1] for o in outs]
                if f['n'] == 'propagateColumn':
                    return y2
                return Tup([y2, ths[0] if kind != 'ms' and kind != 'per' or m.c == 1 else Mat(len(ths), 1, ths)])

            def spsi(I, f, this, args, node):
                lo, hi = bounds(I, this)
                psi = I.mat(I.rv(args[1]))
                c, _ = flow(str(this.root), lo, hi, num(I.rv(args[0])), list(psi.e), num(I.rv(args[2])), num(I.rv(args[3])), True)
                return Mat(1, 1, c)
            I.opaque['matslise::Matslise::Sector::propagate'] = sp
            I.opaque['matslise::Matscs::Sector::propagate'] = sp
            I.opaque['matslise::Matscs::Sector::propagateColumn'] = sp
            I.opaque['matslise::Matscs::Sector::propagatePsi'] = spsi

            def th0(I, f, this, args, node):
                y = I.rv(args[1])
                return app('theta0_' + str(this.root), num(I.rv(args[0])), *I.mat(y.f['data']).e[:2])
            I.opaque['matslise::Matslise::Sector::theta0'] = th0
            args, scal = [], [E, a, b]
            y = None
            for t in yp:
                if t['k'] == 'rec':
                    if base(t['n']) == 'matslise::Y':
                        y = mk_y('y', tu.recs[t['r']]['key'], 4, max(1, t['a'][2]['i']))
                    else:
                        y = Mat(1, 1, [sym('psi')])
                    args.append(I.new(y))
                elif t.get('n') == 'bool':
                    args.append(us)
                else:
                    args.append(I.new(scal.pop(0)))
            v = I.run(f, this, args)
            inst = '%s, %d sectors' % (nm, k)
            if v is None:
                C.ob('composition', inst, False, floc(f), 'never returns')
                continue
            n += 1
            th = None
            if isinstance(v, Tup):
                v, th = v.e
            got = v.f['data'] if isinstance(v, Rec) else I.mat(v)
            cols = columns(y.f['data']) if isinstance(y, Rec) else [[y.e[0]]]
            d, dt = None, None
            up = compare('<=', a, b)
            ths = list(th.e) if isinstance(th, Mat) else [th]
            for j, col in enumerate(cols):
                want = {}
                for way in (True, False):
                    cur, tot = list(col), ZERO
                    for i in (range(k) if way else range(k - 1, -1, -1)):
                        cur, t = flow(str(secs[i].root), xs[i], xs[i + 1], E, cur, a, b, True if kind == 'psi' else us)
                        tot = add(tot, t)
                    want[way] = (cur, tot)
                for i in range(len(col)):
                    d = d or same(got.at(i, j), ite(up, want[True][0][i], want[False][0][i]))
                if th is not None and (kind == 'cs' and j == 0 or kind in ('ms', 'per')):
                    t = ite(up, want[True][1], want[False][1])
                    if kind in ('ms', 'per'):
                        # initial angle: the one of the sector holding a, brought into [0,pi) going right and (0,pi] going left
                        g = None
                        for choice in choices(xs, a, k):
                            s0 = UNDEF
                            for i in range(k - 1, -1, -1):
                                ti = app('theta0_' + str(secs[i].root), E, col[0], col[1])
                                s0 = ti if s0 is UNDEF else ite(choice(i), ti, s0)
                            s1 = ite(bor(compare('<', s0, ZERO), band(compare('>', a, b), compare('==', s0, ZERO))), add(s0, PI()), s0)
                            g = same(ths[j], add(s1, t))
                            if g is None:
                                break
                        dt = dt or g
                    else:
                        dt = dt or same(ths[j], t)
            C.ob('state is the ordered composition of the sector flows', inst, d is None, floc(f), d)
            if th is not None:
                C.ob('angle is the initial angle plus the sum over the sectors', inst, dt is None, floc(f), dt)
            bad = [e for e in I.events if e['kind'] in ('oob', 'null', 'throw')]
            C.ob('no failure inside the domain', inst, not bad, floc(f), str(bad[:1]))
    return n


def choices(xs, a, k):
    """which sector may hold a point lying on a boundary: either neighbour"""
    inn = [(compare('<=', xs[i], a), compare('<=', a, xs[i + 1]), compare('<', xs[i], a), compare('<', a, xs[i + 1])) for i in range(k)]
    import itertools
    if k == 1:
        return [lambda i: True]
    out = []
    for bits in itertools.product((0, 1), repeat=k - 1):
        def ch(i, bits=bits):
            lo = inn[i][0] if i == 0 or bits[i - 1] == 1 else inn[i][2]
            hi = inn[i][1] if i == k - 1 or bits[i] == 0 else inn[i][3]
            return band(lo, hi)
        out.append(ch)
    return out


def run(C):
    P = Program(only=['matslise/matslise.cpp', 'matslise/sector.cpp', 'matslise/periodic.cpp', 'matscs/matscs.cpp', 'matscs/sector.cpp'])
    C.explanation = ('Value graphs of every propagation function. Sector level: with the transfer matrix T(E,delta) opaque, '
                     'the resulting state is compared as a polynomial identity, on every gate, with T(b) T(a)^-1 y (end points '
                     'clamped, mirrored for backward sectors). Problem level: with sector flows opaque, the result is compared '
                     'with the ordered composition over the sectors between the end points.')
    C.assume('a transfer matrix over zero length is the identity (property P07/P10)')
    n1 = sector_level(C, P)
    n1 += psi_level(C, P)
    n2 = problem_level(C, P)
    C.require(n1 >= 12 and n2 >= 18, 'too few instances: %d %d' % (n1, n2))
    return n1 + n2
