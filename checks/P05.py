"""Bracketing keeps every requested eigenvalue: start interval, splitting and discarding."""
from spec import *

TECHNIQUE = 'inductive-step abstract interpretation of the bracketing loops (gated value graphs, linear inequality domain)'
LEVEL_NOTE = ('All angle functions, energies, index ranges: one arbitrary step of the work list from an arbitrary interval whose recorded angles match its end points, and the search for the start interval unrolled a bounded number of times. '
              'In exact arithmetic: eigenvalues that agree up to rounding are not decided. That the angle is monotone and Newton stays near its start is not decided (P90, P91).')


def theta(E, l, r):
    return app('turns', E, *l, *r)     # the angle in units of pi


class Stop(Exception):
    pass


def setup(I, l, r, seen):
    def merr(I, g, this, args, node):
        vs = [I.rv(a) for a in args]
        E = num(vs[0])
        c = [x for v in vs[1:] if isinstance(v, Rec) for x in v.f['data'].e]
        return Tup([app('err', E, *c), app('derr', E, *c), mul(PI(), app('turns', E, *c))])
    I.opaque['matslise::Matslise::matchingError'] = merr
    I.opaque['std::isnan'] = lambda I, f, this, args, node: False
    I.opaque['isnan'] = I.opaque['std::isnan']


def sequences(I):
    """local containers of the current function: (location, value)"""
    out = []
    for loc in I.frames[-1].vars.values():
        if isinstance(loc, Loc):
            try:
                v = I.load(loc)
            except Unsupported:
                continue
            if isinstance(v, Vec) or isinstance(v, D) and all(isinstance(x, Vec) for _, x in leaves(v) if x is not IGN):
                out.append((loc, v))
    return out


def fields_of(x):
    if isinstance(x, Tup):
        return list(x.e), lambda e: Tup(e)
    if isinstance(x, Rec):
        ks = list(x.f)
        return [x.f[k] for k in ks], lambda e: Rec(x.cls, dict(zip(ks, e)), None)
    return None, None


def run_case(C, P, f, yc, byindex, step):
    I = Interp(P)
    cls = f['tu'].recs[f['cls']]['key']
    l, r = mk_y('l', yc), mk_y('r', yc)
    lc, rcs = list(l.f['data'].e), list(r.f['data'].e)
    setup(I, lc, rcs, None)
    this = I.new(Rec(cls, {'tolerance': sym('tol', positive=True)}, 'ms'), 'ms')
    A0, B0 = (alg.integer('Imin'), alg.integer('Imax')) if byindex else (sym('Emin'), sym('Emax'))
    if byindex:
        CTX.le(ZERO, A0)
        CTX.le(A0, B0)
        Imin, Imax = A0, B0
    else:
        Imin, Imax = ZERO, rc(2 ** 31 - 1)
    I.cut = 1 if step else (4 if C.thorough else 3)
    inst = '%s%s' % (f['qn'], ', one arbitrary step' if step else ', start interval')
    state = {}

    def th(E):
        return theta(E, lc, rcs)

    def decidehook(I, s):
        work = [(loc, v) for loc, v in sequences(I) if isinstance(v, Vec) and len(v.e) == 1 and fields_of(v.e[0])[0] and len(fields_of(v.e[0])[0]) >= 4]
        if len(work) != 1:
            return NotImplemented
        loc, v = work[0]
        e, build = fields_of(v.e[0])
        pc = I.abspc()
        # roles of the components: an energy x together with its angle theta(x)/pi
        roles, used = [], set()
        for i, x in enumerate(e):
            for j, t in enumerate(e):
                if i != j and isinstance(x, (R, D)) and isinstance(t, (R, D)) and same(ite(pc, th(num(x)), ZERO), ite(pc, num(t), ZERO)) is None:
                    roles.append((i, j))
        roles = roles[:2]
        state['loop'] = I.where(s)
        C.ob('the work list starts from one interval with the angles of its own end points', inst, len(roles) == 2, I.where(s), 'components %s' % [show(x) for x in e])
        if len(roles) != 2:
            raise Stop()
        (ia, ta), (ib, tb) = roles
        j = alg.integer('j')
        if not step:
            if byindex:
                CTX.le(Imin, j)
                CTX.le(j, sub(Imax, ONE))
                ok = band(compare('<=', num(e[ta]), j), compare('<', j, num(e[tb])))
                d = same(ite(pc, ite(ok, ONE, ZERO), ONE), ONE)
                C.ob('the start interval contains every requested index', inst, d is None, I.where(s), d)
            else:
                d = same(ite(pc, num(e[ia]), A0), A0) or same(ite(pc, num(e[ib]), B0), B0)
                C.ob('the start interval is the requested energy range', inst, d is None, I.where(s), d)
            raise Stop()
        # an arbitrary interval of the work list
        a, b = sym('a'), sym('b')
        CTX.lt(a, b)
        e2 = []
        for i, x in enumerate(e):
            e2.append(a if i == ia else b if i == ib else th(a) if i == ta else th(b) if i == tb else sym('other%d' % i))
            if i not in (ia, ib, ta, tb):
                CTX.le(ZERO, e2[-1])
        I.frames[-1].pc = True
        I.store(loc, Vec([build(e2)]))
        for ol, ov in sequences(I):
            if ol != loc and not (isinstance(ov, Vec) and not ov.e):
                raise Unsupported('other container filled before the loop')
        fr = I.frames[-1]
        got, alive = I.step_loop(s)
        outs = [(pc, mem) for pc, mem, _ in got]
        if alive is not None:
            outs.append(alive)
        spare = extra = parts = index = None
        for pc, mem in outs:
            if pc is False:
                continue
            I.mem = mem
            pushed = False
            for ol, ov in sequences(I):
                if ol != loc:
                    pushed = bor(pushed, liftv(I, lambda v: bool(v.e), ov))
            ca, cb = app('ceil', th(a)), app('ceil', th(b))
            asked = band(band(compare('<', ca, cb), compare('>', cb, Imin)), compare('<', ca, Imax))
            spare = spare or same(ite(band(pc, pushed), ite(asked, ONE, ZERO), ONE), ONE)
            extra = extra or same(ite(band(pc, pushed), ite(compare('<=', cb, add(ca, ONE)), ONE, ZERO), ONE), ONE)

            def leafindex(q):
                ok = True
                for el in q.e:
                    ee, _ = fields_of(el)
                    if ee is None or len(ee) != 2:
                        raise Unsupported('result element %r' % (el,))
                    ok = band(ok, lift(lambda p, q: alg.is_zero(alg.rsub(p, q)), num(ee[0]), ca))
                return ok
            for ol, ov in sequences(I):
                if ol != loc:
                    index = index or same(ite(band(pc, bnot(liftv(I, leafindex, ov))), ZERO, ONE), ONE)

            def leafsub(q):
                ok = True
                for el in q.e:
                    ee, _ = fields_of(el)
                    x, y = num(ee[ia]), num(ee[ib])
                    for p, q in ((a, x), (y, b)) + (((x, y),) if linear(x) and linear(y) else ()):
                        ok = band(ok, lift(lambda p, q: compare('<=', p, q) if linear(p) and linear(q) else True, p, q))
                return ok
            parts = parts or same(ite(band(pc, bnot(liftv(I, leafsub, I.load(loc)))), ZERO, ONE), ONE)
        C.ob('a result comes only from an interval with a requested crossing', inst, spare is None, I.where(s), spare)
        C.ob('an interval with several crossings is split, not turned into one result', inst, extra is None, I.where(s), extra)
        C.ob('a result carries the index of the crossing it was found for', inst, index is None, I.where(s), index)
        C.ob('the parts lie inside the interval', inst, parts is None, I.where(s), parts)
        # a requested index whose crossing lies in the interval
        CTX.le(Imin, j)
        CTX.le(j, sub(Imax, ONE))
        CTX.le(th(a), j)
        CTX.lt(j, th(b))
        CTX.le(app('ceil', th(a)), j)       # j is an integer
        CTX.lt(j, app('ceil', th(b)))
        kept, once, angles, inside = None, None, None, None
        allpc = False
        for pc, mem in outs:
            if pc is False:
                continue
            allpc = bor(allpc, pc)
            I.mem = mem
            wl = [I.load(loc)]
            res = [ov for ol, ov in sequences(I) if ol != loc]

            def leafcov(q, *rs):
                n = ZERO
                for x in rs:
                    if isinstance(x, Vec) and x.e:
                        n = add(n, ONE)
                for el in q.e:
                    ee, _ = fields_of(el)
                    n = add(n, ite(band(compare('<=', num(ee[ta]), j), compare('<', j, num(ee[tb]))), ONE, ZERO))
                return n

            def leafang(q):
                ok = True
                for el in q.e:
                    ee, _ = fields_of(el)
                    for x, t in ((ia, ta), (ib, tb)):
                        ok = band(ok, lift(lambda p, q: alg.is_zero(alg.rsub(p, q)), th(num(ee[x])), num(ee[t])))
                return ok
            n = liftv(I, leafcov, wl[0], *res)
            kept = kept or same(ite(pc, ite(compare('>=', n, ONE), ONE, ZERO), ONE), ONE)
            once = once or same(ite(pc, ite(compare('<=', n, ONE), ONE, ZERO), ONE), ONE)
            ag = liftv(I, leafang, wl[0])
            angles = angles or same(ite(pc, ite(ag, ONE, ZERO), ONE), ONE)
        C.ob('no path of the step ends without an outcome', inst, same(ite(allpc, ONE, ZERO), ONE) is None, I.where(s), 'a path throws or ends')
        C.ob('a requested crossing stays in a part or becomes a result', inst, kept is None, I.where(s), kept)
        C.ob('a requested crossing is not kept twice', inst, once is None, I.where(s), once)
        C.ob('every part carries the angles of its own end points', inst, angles is None, I.where(s), angles)
        state['done'] = True
        raise Stop()

    def hook(I, s):
        return decidehook(I, s)
    I.loop_hook = hook
    try:
        I.run(f, this, [A0 if byindex else I.new(A0), B0 if byindex else I.new(B0), I.new(l), I.new(r)])
    except Stop:
        C.analysed('loops', state['loop'])
        return
    raise Unsupported('no work list of intervals found in %s' % f['qn'])


def linear(x):
    return isinstance(x, D) or all(sum(abs(e) for _, e in m) <= 1 for m in x.t)


def liftv(I, fn, *vs):
    """fn over gated container values, gates distributed"""
    for i, v in enumerate(vs):
        if isinstance(v, D):
            out = IGN
            for c, leaf in I.leafconds(v):
                if leaf is IGN:
                    continue
                r = liftv(I, fn, *vs[:i], leaf, *vs[i + 1:])
                out = r if out is IGN else ite(c, r, out)
            return out
    if any(v is IGN for v in vs):
        return IGN
    return fn(*vs)


def run(C):
    P = Program(only=['matslise/matslise.cpp'])
    C.explanation = ('eigenvalues and eigenvaluesByIndex are interpreted up to the work-list loop with the matching angle an uninterpreted function of the energy. Obligations: the start interval carries the angles of its own end points and contains every requested '
                     'index; one pass of the loop from an arbitrary interval [a,b) with its own angles leaves each requested integer crossing j (theta(a) <= j pi < theta(b)) in exactly one part or result, and every part again carries the angles of its own end points.')
    n = 0
    for name, byindex in (('eigenvalues', False), ('eigenvaluesByIndex', True)):
        for f in one(P, 'matslise::Matslise::' + name):
            tu = f['tu']
            if '<double>' not in tu.recs[f['cls']]['key'] or len(f['ps']) != 4:
                continue
            yc = tu.recs[tu.strip(f['ps'][2]['t'])['r']]['key']
            for step in (False, True):
                n += decide(C, '%s %s' % (name, 'step' if step else 'start'), lambda: run_case(C, P, f, yc, byindex, step))
    C.require(n >= 4, 'too few instances %d' % n)
    return 14
