"""Eigenpairs are the eigenvalues with their eigenfunctions, and periodic results cover the index range exactly once."""
import re
from spec import *

TECHNIQUE = 'gated abstract interpretation of the eigenpair and eigenvalue queries over an opaque search, loops that cannot be unrolled havocked; the result lists are judged on every path'
LEVEL_NOTE = ('All energies, boundary data and answers of the search (uninterpreted), every pattern of single and double eigenvalues; bounded: result lists of up to 3 (thorough 4) entries of the full-range solvers, '
              'index ranges inside 0..4 (thorough 0..6) and every kind of quasi-periodic condition for the periodic solver. The search itself is the subject of P30.')

PM = 'matslise::PeriodicMatslise'
KINDS = {'periodic': ('1', '0'), 'periodic with coupling': ('K00', '-'), 'antiperiodic': ('-1', '0'), 'antiperiodic with coupling': ('K00', '+')}


class Havoc:
    """loops that cannot be unrolled: the numbers they change are arbitrary afterwards"""

    def __init__(self, I):
        self.n = 0
        I.loop_hook = self

    def __call__(self, I, s):
        fr = I.frames[-1]
        if s['k'] == 'do' or not s.get('c'):
            return NotImplemented
        mem, pc = I.mem, fr.pc
        I.mem = dict(mem)
        hook, I.loop_hook = I.loop_hook, None
        nev = len(I.events)
        try:
            if s.get('init') and not I.exec(s['init']):
                raise Unsupported('loop header')
            c = I.simplify(truth_(I, s['c']))
        finally:
            I.loop_hook = hook
        if c is True or c is False:
            I.mem, fr.pc = mem, pc
            del I.events[nev:]
            return NotImplemented
        before = dict(I.mem)
        snap = CTX.push()
        got, alive = I.step_loop(s)
        CTX.pop(snap)
        changed = set()
        for pc2, m, _ in got:
            for r, v in m.items():
                if r in before and before[r] is not v and not eqv(before[r], v):
                    changed.add(r)
        I.mem, fr.pc = before, pc
        for r in sorted(changed, key=str):
            v = before[r]
            if not isinstance(v, (R, D)):
                raise Unsupported('a loop changes %r' % (v,))
            I.mem[r] = sym('any%d' % self.n)
            self.n += 1
        return True


def eqv(a, b):
    return isinstance(a, (R, D)) and isinstance(b, (R, D)) and same(a, b) is None


def truth_(I, c):
    from interp import truth
    return truth(I.rv(I.ev(c)))


def data(I, y):
    y = I.load(y) if isinstance(y, Loc) else y
    (d,) = [x for x in y.f.values()]
    return I.mat(d) if not isinstance(d, Mat) else d


def periodic(P, name):
    """the double instantiation of a method of PeriodicMatslise, with its record and the two-column state"""
    for f in one(P, PM + '::' + name):
        rec = f['tu'].recs[f['cls']]
        if '<double>' in rec['key']:
            return f, rec['key']
    raise AnalysisBroken('anchor vanished: %s::%s for double' % (PM, name))


def kmatrix(kind):
    """K of determinant one of the given kind"""
    a, b = KINDS[kind]
    if b == '0':
        return Mat(2, 2, [rc(int(a)), ZERO, sym('K10'), rc(int(a))])
    k = [sym('K%d%d' % (i, j)) for i in range(2) for j in range(2)]
    CTX.lt(*((ZERO, k[1]) if b == '+' else (k[1], ZERO)))
    return Mat(2, 2, k)


def machine(P, key, kind, pairs):
    """interpreter, solver object; the search for a pair of eigenvalues answers two ordered unknowns when pairs"""
    I = Interp(P)
    Havoc(I)
    ms, xs, secs = mk_matslise(I, 2, 0)
    K = kmatrix(kind)
    this = I.new(Rec(key, {'matslise': I.load(ms), 'K': K}, 'pm'), 'pm')
    calls = []

    def propagate(I, f, this, args, node):
        E, a, b = [num(I.rv(args[i])) for i in (0, 2, 3)]
        y = I.rv(args[1])
        d = data(I, y)
        if d.c != 2:
            return NotImplemented
        calls.append((E, a, b, d))
        T = [app('T%d' % i, E, a, b) for i in range(4)]
        dT = [app('dT%d' % i, E, a, b) for i in range(4)]

        def mul2(t, o):
            return [add(mul(t[2 * i], d.at(o, j)), mul(t[2 * i + 1], d.at(o + 1, j))) for i in range(2) for j in range(2)]
        u, du = mul2(T, 0), [add(p, q) for p, q in zip(mul2(dT, 0), mul2(T, 2))]
        (n,) = y.f
        return Tup([y.set(n, Mat(4, 2, u + du)), Mat(2, 1, [app('angle0', E, a, b), app('angle1', E, a, b)])])
    I.opaque['matslise::Matslise::propagate'] = propagate
    if pairs:
        seen = []

        def pair(I, f, this, args, node):
            p, q = sym('p%d' % len(seen)), sym('q%d' % len(seen))
            seen.append(1)
            CTX.le(p, q)
            return Tup([p, q])
        I.opaque['eigenvaluePair'] = pair

        def root(I, f, this, args, node):
            seen.append(1)
            return sym('root%d' % len(seen))
        I.opaque['binarySearch'] = root
    made = []

    def ef(I, f, this, args, node):
        if len(args) < 3:
            return NotImplemented
        v = [I.rv(a) for a in args]
        e = Rec('eigenfunction', {'E': num(v[0]), 'left': data(I, v[1]), 'right': data(I, v[2])})
        made.append(e)
        return Ptr(I.new(e), True)
    I.opaque['matslise::Matslise::eigenfunction'] = ef
    I.opaque['matslise::AbstractMatslise::eigenfunction'] = ef
    return I, this, xs, K, calls


def settle(calls):
    """start data chosen by a comparison of coefficients of K: analyse its outcomes one by one"""
    for c in calls:
        for x in c[3].e:
            w = undecided_in(x, False)
            if w is not None:
                e = Unsupported('start data depend on %s' % show(x))
                e.var = w
                raise e


def expand(I, v):
    """eigenfunctions in place of the pointers to them"""
    if isinstance(v, D):
        return I.lift_struct(lambda x: expand(I, x), v)
    if isinstance(v, Ptr):
        return expand(I, I.load(v.t))
    if isinstance(v, Vec):
        return Vec([expand(I, x) for x in v.e])
    if isinstance(v, Tup):
        return Tup([expand(I, x) for x in v.e])
    if isinstance(v, Rec) and v.cls != 'eigenfunction':
        return Tup([expand(I, x) for x in v.f.values()])
    return v


def pick(v):
    while isinstance(v, D) and v.v in CTX.known:
        v = v.k[CTX.known[v.v]]
    return v


def undecided_in(v, deep):
    """a decision the value still depends on"""
    v = pick(v)
    if isinstance(v, D):
        return v.v
    if isinstance(v, (Vec, Tup)):
        for x in v.e:
            w = undecided_in(x, deep)
            if w is not None:
                return w
    if deep and isinstance(v, Rec):
        return undecided_in(v.f['E'], deep)
    return None


def fixed(v):
    v = pick(v)
    if isinstance(v, (Vec, Tup)):
        return type(v)([fixed(x) for x in v.e])
    return v


def every(v, cap=20000):
    """every feasible path of a structured value, with the decisions of the path in force; eigenfunction contents stay gated"""
    todo = [()]
    n = 0
    while todo:
        asm = todo.pop()
        snap = CTX.push()
        try:
            for d, i in asm:
                CTX.decide(d, i)
            w = undecided_in(v, True)
            if w is None:
                x = fixed(v)
                if x is not IGN and alg.feasible(CTX.cons):
                    n += 1
                    if n > cap:
                        raise Unsupported('more than %d paths' % cap)
                    yield x
            else:
                todo.extend(asm + ((w, i),) for i in CTX.outcomes(w) if not (w.kind == 'sgn' and i == 3))
        finally:
            CTX.pop(snap)


def entries(x):
    """[(index, E, multiplicity, eigenfunctions or None)] of one path"""
    if not isinstance(x, Vec):
        return None
    out = []
    for t in x.e:
        if not isinstance(t, Tup) or len(t.e) != 3:
            return None
        i = num(t.e[0]).const()
        third = t.e[2]
        fs = list(third.e) if isinstance(third, Vec) else None
        m = len(fs) if fs is not None else num(third).const()
        if i is None or m is None:
            return None
        out.append((int(i), num(t.e[1]), int(m), fs))
    return out


def possible(extra):
    """is the system of the decisions in force with the extra (term, kind) constraints feasible?"""
    snap = CTX.push()
    try:
        for a, b, strict in extra:
            (CTX.lt if strict else CTX.le)(a, b)
        return alg.feasible(CTX.cons)
    finally:
        CTX.pop(snap)


def judge(C, f, inst, v, lo, hi, anti, limits, must_cover, pairs=True):
    """the rules on the list returned for the indices lo <= i < hi"""
    where = floc(f)
    paths_, cands, first = [], {}, ''
    for x in every(v):
        es = entries(x)
        if es is None:
            raise Unsupported('result %r' % (x,))
        bad = ''
        for a, b in zip(es, es[1:]):
            if b[0] < a[0] + a[2]:
                bad = 'index %d of multiplicity %d is followed by index %d' % (a[0], a[2], b[0])
        for i, E, m, fs in es:
            cands.setdefault(i, set()).add(E)
            if m not in (1, 2):
                bad = bad or 'index %d has multiplicity %d' % (i, m)
            if m == 2 and (i % 2 == 0) != anti:
                bad = bad or 'double eigenvalue at index %d for a %s condition' % (i, 'antiperiodic' if anti else 'periodic')
            if m == 2:
                cands.setdefault(i + 1, set()).add(E)
            if i < 0:
                bad = bad or 'index %d' % i
            if must_cover is None and not (i < hi and i + m - 1 >= lo):
                bad = bad or 'index %d (multiplicity %d) is outside the range' % (i, m)
            if limits and (possible([(E, limits[0], True)]) or possible([(limits[1], E, False)])):
                bad = bad or 'the eigenvalue of index %d can lie outside the requested interval: %s' % (i, show(E))
            bad = bad or of_pair(anti, i, E, m)
            for e in fs or []:
                if same(num(e.f['E']), E) is not None:
                    bad = bad or 'an eigenfunction listed with %s was made for %s' % (show(E), show(e.f['E']))
        paths_.append(es)
        first = first or bad
    C.ob('a listed eigenpair has the right index, lies in the requested range and appears once, on every path', inst, not first, where, first, key=inst)
    # nothing within the range is dropped
    want = list(range(max(lo, 0), hi))
    seen = set()
    for es in paths_:
        have = {}
        for i, E, m, _ in es:
            for k in range(m):
                have[i + k] = m
        seen.add(tuple(have.get(i, 0) for i in want))
    patterns = set()
    if want:
        first = 0 if anti else 1
        groups = [] if anti else [(0,)]
        groups += [(i, i + 1) for i in range(first, hi + 2, 2)]
        n = len(groups)
        for bits in range(1 << n):
            pat = {}
            if not anti and bits & 1:
                continue
            for g, grp in enumerate(groups):
                for i in grp:
                    pat[i] = 2 if bits >> g & 1 else 1
            patterns.add(tuple(pat[i] for i in want))
    for p in sorted(patterns):
        C.ob('every index of the range is listed', '%s, multiplicities %s' % (inst, p), p in seen, where, 'no path lists all of %s with these multiplicities' % want)
    if limits:
        bad = ''
        for x in every(v):
            es = entries(x)
            have = {i + k for i, E, m, _ in es for k in range(m)}
            for i in want:
                if i not in have:
                    inside = []
                    for E in cands.get(i, ()):
                        inside += [(limits[0], E, False), (E, limits[1], True)]
                    if not bad and possible(inside):
                        bad = 'index %d is missing although its eigenvalue lies in the interval' % i
        C.ob('an eigenvalue inside the requested interval is listed, on every path', inst, not bad, where, bad)
    return paths_


PAIR = re.compile(r'^([pq])(\d+)$')


def of_pair(anti, i, E, m):
    """the rules on an entry whose energy is an answer p <= q of the search for a pair"""
    ns = {}
    for mono in E.t:
        for a, _ in mono:
            g = PAIR.match(alg.A.show(a))
            if g:
                ns.setdefault(int(g.group(2)), set()).add(g.group(1))
    if len(ns) != 1:
        return ''
    (n,) = ns
    p, q = sym('p%d' % n), sym('q%d' % n)
    if m == 2:
        return 'index %d is listed as double although the two eigenvalues can be apart' % i if possible([(add(p, rc(Fraction(1, 1000))), q, False)]) else ''
    if possible([(q, p, False)]):
        return 'index %d is listed as single although the two eigenvalues can coincide' % i
    lower = (i % 2 == 0) == anti
    if same(E, p if lower else q) is not None:
        return 'index %d is not given the %s eigenvalue of its pair' % (i, 'smaller' if lower else 'larger')
    return ''


def lists(P, name, kind, pairs, call, hook=None):
    f, key = periodic(P, name)
    I, this, xs, K, calls = machine(P, key, kind, pairs)
    if hook:
        I.hooks['trunc'] = hook
    v = I.run(f, this, call)
    return f, I, (None if v is None else expand(I, v)), xs, K, calls


def periodic_case(C, P, kind, pairs, lo, hi, by_index):
    inst = '%s, indices %d..%d, %s' % (kind, lo, hi, 'by index' if by_index else 'by value')
    anti = kind.startswith('anti')
    names = ('eigenvaluesByIndex', 'eigenpairsByIndex') if by_index else ('eigenvalues', 'eigenpairs')
    got = []
    for name in names:
        if by_index:
            call, hook, limits = [rc(lo), rc(hi)], None, None
        else:
            limits = (sym('emin'), sym('emax'))
            call = list(limits)

            def hook(x):
                t = show(x)
                # the number of half turns at the ends of the interval
                return rc(lo) if 'emin' in t and 'emax' not in t else rc(hi) if 'emax' in t and 'emin' not in t else None
        f, I, v, xs, K, calls = lists(P, name, kind, pairs, call, hook)
        C.ob('the query returns', '%s %s' % (name, inst), v is not None and not I.throw_cond(), floc(f), 'never returns or throws when %s' % show(I.throw_cond()))
        if v is None:
            return
        memory_safe(C, '%s %s' % (name, inst), I, floc(f))
        # at emin at least lo half turns are complete: eigenvalues of index below lo - 1 lie below emin; at emax the index is at most hi
        a, b = (lo, hi) if by_index else (lo - 1, hi + 1)
        paths_ = judge(C, f, '%s, %s' % (name, inst), v, a, b, anti, limits, None if by_index else True, pairs)
        C.analysed('queries', '%s, %s: %d paths' % (name, inst, len(paths_)))
        got.append((f, v))
    (f, va), (g, vb) = got
    # the two lists agree on every path
    d = ''
    for x in every(Tup([va, vb])):
        ea, eb = entries(x.e[0]), entries(x.e[1])
        if [(i, m) for i, _, m, _ in ea] != [(i, m) for i, _, m, _ in eb]:
            d = d or '%s lists (index, multiplicity) %s, %s lists %s' % (names[0], [(i, m) for i, _, m, _ in ea], names[1], [(i, m) for i, _, m, _ in eb])
        for a, b in zip(ea, eb):
            if same(a[1], b[1]) is not None:
                d = d or 'index %d: %s against %s' % (a[0], show(a[1]), show(b[1]))
    C.ob('eigenpairs are the eigenvalues, on every path with as many eigenfunctions as the multiplicity', inst, not d, floc(g), d)


def generic_case(C, P, cls, k):
    """AbstractMatslise::eigenpairsByIndex on a list of k eigenvalues"""
    half = cls.endswith('Half')
    for f in one(P, 'matslise::AbstractMatslise::eigenpairsByIndex'):
        tu = f['tu']
        key = tu.recs[f['cls']]['key']
        if '<double>' not in key or len(f['ps']) != 4:
            continue
        yc = tu.recs[tu.strip(f['ps'][2]['t'])['r']]['key']
        I = Interp(P)
        l = mk_y('left', yc)
        r = l if half else mk_y('right', yc)
        asked = []

        def evs(I, f, this, args, node):
            v = [I.rv(a) for a in args]
            if len(v) == 4 and half:
                return NotImplemented
            st = [data(I, y) for y in v[2:]]
            asked.append((num(v[0]), num(v[1]), st[0], st[-1]))
            return Vec([Tup([sym('i%d' % j), sym('e%d' % j)]) for j in range(k)])

        def efn(I, f, this, args, node):
            v = [I.rv(a) for a in args]
            ys = [data(I, y) for y in v[1:] if isinstance(y, Rec)]
            if len(ys) == 2 and half:
                return NotImplemented
            return Ptr(I.new(Rec('eigenfunction', {'E': num(v[0]), 'left': ys[0], 'right': ys[-1], 'index': num(v[-1])})), True)
        for c in ('Matslise', 'MatsliseHalf'):
            I.opaque['matslise::%s::eigenvaluesByIndex' % c] = evs
            I.opaque['matslise::%s::eigenfunction' % c] = efn
        this = I.new(Rec('%s<double>' % cls, {}, 'ms'), 'ms')
        inst = '%s, %d eigenvalues' % (cls.split('::')[-1], k)
        v = I.run(f, this, [sym('imin'), sym('imax'), I.new(l), I.new(r)])
        bad = ''
        if v is None or I.throw_cond():
            bad = 'fails on a list of %d eigenvalues' % k
        else:
            v = expand(I, v)
            for x in every(v):
                if len(x.e) != k:
                    bad = bad or '%d eigenpairs for %d eigenvalues' % (len(x.e), k)
            if not bad and isinstance(v, D):
                raise Unsupported('gated list')
            for a in asked:
                bad = bad or ('' if same(a[0], sym('imin')) is None and same(a[1], sym('imax')) is None else 'other index range: %s..%s' % (show(a[0]), show(a[1])))
                for got, want in ((a[2], l), (a[3], r)):
                    bad = bad or same_mat(got, data(I, want), 'condition of the eigenvalue query')
            if not asked:
                bad = 'the eigenvalues are not asked for'
            for j, t in enumerate(v.e if not bad else []):
                i, E, e = t.e
                for got, want, what in ((i, sym('i%d' % j), 'index'), (E, sym('e%d' % j), 'eigenvalue'), (e.f['E'], sym('e%d' % j), 'eigenvalue of the eigenfunction'), (e.f['index'], sym('i%d' % j), 'index of the eigenfunction')):
                    bad = bad or ('' if same(num(got), want) is None else 'entry %d: %s is %s' % (j, what, show(got)))
                bad = bad or same_mat(e.f['left'], data(I, l), 'left condition of eigenfunction %d' % j) or same_mat(e.f['right'], data(I, r), 'right condition of eigenfunction %d' % j)
        C.ob('eigenpairs are the eigenvalues, each with the eigenfunction of its own energy, conditions and index', inst, not bad, floc(f), bad)
        C.analysed('queries', 'eigenpairsByIndex, ' + inst)


def same_mat(a, b, what):
    if not isinstance(a, Mat) or (a.r, a.c) != (b.r, b.c):
        return '%s has another shape' % what
    for x, y in zip(a.e, b.e):
        d = same(num(x), num(y))
        if d is not None:
            return '%s differs: %s' % (what, d)
    return ''


def run(C):
    C.explanation = ('The eigenpair and eigenvalue queries are interpreted over unknown energies, boundary data and search answers. Loops whose number of rounds depends on those (bisection, widening of brackets) leave the numbers they '
                     'change arbitrary. The gated result list is then taken apart path by path: indices, multiplicities, the requested interval, that no index of the range is dropped whatever the pattern of double eigenvalues, and that '
                     'eigenpairs list the same entries as eigenvalues with one eigenfunction per multiplicity, made for the same energy.')
    C.assume('The search for the two eigenvalues of a pair answers in increasing order, and every eigenvalue of the pair lies in the bracket given by the number of half turns (decided by P30).')
    P = Program('double')
    n = 0
    for cls in ('matslise::Matslise', 'matslise::MatsliseHalf'):
        for k in range(4 if not C.thorough else 6):
            n += decide(C, '%s %d' % (cls, k), lambda: generic_case(C, P, cls, k))
    top = 4 if not C.thorough else 6
    for kind in KINDS:
        for lo in range(top):
            for hi in range(lo, top + 1):
                if hi - lo > (3 if not C.thorough else 4):
                    continue
                n += decide(C, '%s %d..%d by index' % (kind, lo, hi), lambda: periodic_case(C, P, kind, True, lo, hi, True))
    for kind in ('periodic', 'antiperiodic') if not C.thorough else KINDS:
        for lo, hi in ((0, 0), (0, 1), (1, 1), (1, 2), (2, 2), (2, 3)):
            n += decide(C, '%s %d..%d by value' % (kind, lo, hi), lambda: periodic_case(C, P, kind, True, lo, hi, False))
        # the search for a pair interpreted too
        n += decide(C, '%s, search included' % kind, lambda: periodic_case(C, P, kind, False, 1, 2, True))
    return 100
