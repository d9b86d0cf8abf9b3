"""Lists of eigenvalues are ascending whatever order they were found in; invalid index ranges are never answered."""
from spec import *
import P05

TECHNIQUE = 'abstract interpretation of the code after the search from an arbitrary set of results (sort as gated permutation), reachability of the search for invalid ranges'
LEVEL_NOTE = 'Result lists of up to 3 (quick) or 4 (thorough) arbitrary elements in any order; all index ranges symbolically; bounded unrolling of the loops that bracket the range.'


class Reached(Exception):
    pass


def worklist(I):
    """the container of pending intervals and the containers of results in the current function"""
    seqs = P05.sequences(I)
    work = [(loc, v) for loc, v in seqs if isinstance(v, Vec) and len(v.e) == 1 and P05.fields_of(v.e[0])[0] and len(P05.fields_of(v.e[0])[0]) >= 4]
    if len(work) != 1:
        return None, None
    return work[0][0], [loc for loc, v in seqs if loc != work[0][0] and isinstance(v, Vec) and not v.e]


def call(I, P, f, yc, args):
    cls = f['tu'].recs[f['cls']]['key']
    l, r = mk_y('l', yc), mk_y('r', yc)
    P05.setup(I, list(l.f['data'].e), list(r.f['data'].e), None)
    this = I.new(Rec(cls, {'tolerance': sym('tol', positive=True)}, 'ms'), 'ms')
    return I.run(f, this, args + [I.new(l), I.new(r)])


def order_case(C, P, f, yc, byindex, n):
    I = Interp(P)
    if byindex:
        A, B = alg.integer('Imin'), alg.integer('Imax')
        CTX.le(ZERO, A)
        CTX.le(A, B)
    else:
        A, B = sym('Emin'), sym('Emax')
    I.cut = 1
    idx = [alg.integer('i%d' % k) for k in range(n)]
    en = [sym('e%d' % k) for k in range(n)]
    inst = '%s, %d results' % (f['qn'], n)
    state = {}

    def hook(I, s):
        work, res = worklist(I)
        if work is None:
            return NotImplemented
        if len(res) != 1:
            raise Unsupported('containers of results: %d' % len(res))
        I.frames[-1].pc = True
        I.store(work, Vec([]))
        I.store(res[0], Vec([Tup([idx[k], en[k]]) for k in range(n)]))
        state['loop'] = I.where(s)
        return True
    I.loop_hook = hook
    v = call(I, P, f, yc, [A if byindex else I.new(A), B if byindex else I.new(B)])
    if 'loop' not in state:
        raise Unsupported('no search loop found in %s' % f['qn'])
    C.analysed('search loops', state['loop'])

    def rows(q):
        if not isinstance(q, Vec):
            raise Unsupported('result %r' % (q,))
        out = [P05.fields_of(x)[0] for x in q.e]
        if any(x is None or len(x) != 2 for x in out):
            raise Unsupported('result element')
        return [(num(a), num(b)) for a, b in out]

    def asc(k):
        def g(q):
            r = rows(q)
            ok = True
            for x, y in zip(r, r[1:]):
                ok = band(ok, compare('<=', x[k], y[k]))
            return ok
        return g
    if v is None:
        C.ob('the list found is returned', inst, False, floc(f), 'never returns')
        return
    d = [same(ite(P05.liftv(I, asc(k), v), ONE, ZERO), ONE) for k in (0, 1)]
    C.ob('the list returned is ascending', inst, d[0] is None or d[1] is None, floc(f), d[0])

    def total(q):
        t = ZERO
        for a, b in rows(q):
            t = add(t, app('tag', a, b))
        return t
    want = ZERO
    for a, b in zip(idx, en):
        want = add(want, app('tag', a, b))
    d = same(P05.liftv(I, total, v), want)
    C.ob('every result found is returned, with its own index', inst, d is None, floc(f), d)


def invalid_case(C, P, f, yc, what):
    I = Interp(P)
    A, B = alg.integer('Imin'), alg.integer('Imax')
    if what == 'negative':
        CTX.lt(A, ZERO)
        CTX.le(A, B)
    elif what == 'reversed':
        CTX.le(ZERO, A)
        CTX.lt(B, A)
    I.cut = 2
    inst = '%s, %s index range' % (f['qn'], what)

    def hook(I, s):
        work, res = worklist(I)
        if work is None:
            return NotImplemented
        c = I.abspc()
        if c is not False:
            raise Reached(I.where(s))
        return NotImplemented
    I.loop_hook = hook
    try:
        v = call(I, P, f, yc, [A, B])
        where = None if v is None else floc(f)
    except Reached as e:
        where = str(e)
    C.ob('an invalid index range is never answered', inst, where is None, where or floc(f), 'the search is reached')


def run(C):
    P = Program(only=['matslise/matslise.cpp'])
    C.explanation = ('The state after the search is replaced by an arbitrary set of results in arbitrary order, the rest of the query is interpreted from there (std::sort as the gated permutation it computes): the list returned must be ascending and contain the same results. '
                     'For index ranges with negative or reversed ends the search must be unreachable.')
    n = 0
    for name, byindex in (('eigenvalues', False), ('eigenvaluesByIndex', True)):
        for f in one(P, 'matslise::Matslise::' + name):
            tu = f['tu']
            if '<double>' not in tu.recs[f['cls']]['key'] or len(f['ps']) != 4:
                continue
            yc = tu.recs[tu.strip(f['ps'][2]['t'])['r']]['key']
            for k in range(0, 5 if C.thorough else 4):
                n += decide(C, '%s order %d' % (name, k), lambda: order_case(C, P, f, yc, byindex, k))
            if byindex:
                for what in ('negative', 'reversed'):
                    n += decide(C, '%s %s' % (name, what), lambda: invalid_case(C, P, f, yc, what))
    C.require(n >= 8, 'too few instances %d' % n)
    return 16
