"""The sectors tile the domain, break at the given jumps, and meet at the matching point."""
from fractions import Fraction
from spec import *

TECHNIQUE = 'abstract interpretation of the sector builders and constructors over every script of comparison and step-size outcomes; contract of the step-size search on symbolic intervals'
LEVEL_NOTE = ('Uniform builder: symbolic domain, up to 5 (thorough 7) sectors, every outcome of the comparisons. Automatic builder: every order of sector ends and jumps on a grid that represents all orders with up to 4 (thorough 5) interior ends and 3 jumps, '
              'repeated jumps and jumps outside the domain included; the step-size search itself on symbolic intervals, loops followed for 2 (thorough 3) rounds. Exact real arithmetic; that the step-size search reaches the tolerance is numerical.')

SB = 'matslise::sector_builder::'
NAMES = {0: 'none', 1: 'forward', 2: 'backward'}


class Script:
    """depth-first enumeration of the answers of an oracle"""

    def __init__(self, limit):
        self.todo, self.limit, self.n = [()], limit, 0

    def __iter__(self):
        while self.todo:
            self.prefix = list(self.todo.pop())
            self.pos = 0
            self.n += 1
            if self.n > self.limit:
                raise Unsupported('more than %d scripts' % self.limit)
            yield self

    def choose(self, options):
        if self.pos == len(self.prefix):
            for k in range(len(options) - 1, 0, -1):
                self.todo.append(tuple(self.prefix) + (k,))
            self.prefix.append(0)
        k = self.prefix[self.pos]
        self.pos += 1
        return options[k]


def const(v):
    c = num(v).const() if isinstance(num(v), R) else None
    if c is None:
        raise Unsupported('position %r is not decided' % (v,))
    return c


def sector_oracle(I, P, key, script):
    """sectors are their ends and direction, the comparison of two sectors is any outcome"""
    n = [0]

    def ctor(I, rec, args, node):
        v = [I.rv(a) for a in args]
        if len(v) != 4:
            return NotImplemented
        n[0] += 1
        return Rec(rec['key'], {'min': num(v[1]), 'max': num(v[2]), 'direction': num(v[3]), 'id': rc(n[0])}, 'S%d' % n[0])
    bn = key.split('<')[0] + '::Sector'
    I.ctor_opaque[bn] = ctor
    if script is not None:
        seen = {}

        def compare_(I, f, this, args, node):
            ids = tuple(const(I.rv(a).f['id']) for a in args)
            if ids not in seen:
                seen[ids] = script.choose([True, False])
            return seen[ids]
        I.opaque[bn + '::compare'] = compare_


def sectors_of(I, v):
    """(list of sector records or None, match index) of a builder's result"""
    if not isinstance(v, Rec):
        raise Unsupported('result %r' % (v,))
    secs, m = v.f['sectors'], v.f['matchIndex']
    if not isinstance(secs, Vec):
        raise Unsupported('sectors %r' % (secs,))
    out = []
    for p in secs.e:
        if not isinstance(p, Ptr):
            raise Unsupported('sector %r' % (p,))
        out.append(None if p.t is None else I.load(p.t))
    return out, int(const(m))


def tiling(secs, m, lo, hi):
    """'' when the sectors tile [lo, hi] and run forward up to the matching one, backward after it"""
    if not secs:
        return 'no sectors'
    if any(s is None for s in secs):
        return 'sector %d is missing' % [s is None for s in secs].index(True)
    if not 0 <= m < len(secs):
        return 'matching index %d of %d sectors' % (m, len(secs))
    at = lo
    for k, s in enumerate(secs):
        d = same(s.f['min'], at)
        if d is not None:
            return 'sector %d does not start where the one before ends: %s' % (k, d)
        if not positive(sub(s.f['max'], s.f['min'])):
            return 'sector %d has no positive length' % k
        at = s.f['max']
        want = 'forward' if k <= m else 'backward'
        got = NAMES.get(int(const(s.f['direction'])), '?')
        if got != want:
            return 'sector %d runs %s, the matching sector is %d' % (k, got, m)
    d = same(at, hi)
    return '' if d is None else 'the last sector does not end at the end of the domain: %s' % d


def positive(x):
    c = compare('>', num(x), ZERO)
    return c is True or c is not False and same(c, True) is None


def uniform(C, P):
    n = 0
    for f in one(P, SB + 'UniformSectorBuilder::operator()'):
        tu = f['tu']
        key = tu.recs[f['cls']]['key']
        prob = key[key.index('<') + 1:].rsplit(',', 1)[0]
        for count in range(1, 6 if not C.thorough else 8):
            n += decide(C, '%s, %d sectors' % (prob, count), lambda: uniform_case(C, P, f, key, prob, count))
    return n


def uniform_case(C, P, f, key, prob, count):
    lo, hi = sym('min'), sym('max')
    CTX.lt(lo, hi)
    script = Script(4000)
    bad = ''
    matches = set()
    for s in script:
        I = Interp(P)
        sector_oracle(I, P, prob, s)
        this = I.new(Rec(key, {'sectorCount': rc(count)}, 'sb'), 'sb')
        try:
            v = I.run(f, this, [Ptr(I.new(Rec(prob, {}, 'problem'))), I.new(lo), I.new(hi)])
        except (Unsupported, AttributeError):
            if not any(e['kind'] in ('oob', 'null') for e in I.events):
                raise
            v = None
        oob = [e for e in I.events if e['kind'] in ('oob', 'null')]
        if oob:
            bad = bad or 'access outside the list of sectors (index %s of %s)' % (oob[0].get('index'), oob[0].get('size'))
        elif v is None or I.throw_cond() is not False:
            bad = bad or 'fails'
        else:
            secs, m = sectors_of(I, v)
            matches.add(m)
            if len(secs) != count:
                bad = bad or '%d sectors instead of %d' % (len(secs), count)
            bad = bad or tiling(secs, m, lo, hi)
    C.ob('the uniform sectors tile the domain and meet at the matching index', '%s, %d sectors' % (prob, count), not bad, floc(f), bad)
    want = set(range(max(1, count - 1)))
    C.ob('the matching point can be any interior sector boundary', '%s, %d sectors' % (prob, count), bool(bad) or matches == want, floc(f), 'reached %s' % sorted(matches))
    # the same with every floating point operation a different value unless it is the same operation on the same values
    diff = ''
    for s in Script(4000):
        I = Interp(P)
        sector_oracle(I, P, prob, s)
        this = I.new(Rec(key, {'sectorCount': rc(count)}, 'sb'), 'sb')
        alg.Mode.exact = True
        try:
            v = I.run(f, this, [Ptr(I.new(Rec(prob, {}, 'problem'))), I.new(lo), I.new(hi)])
        finally:
            alg.Mode.exact = False
        if bad or v is None:
            break
        secs, m = sectors_of(I, v)
        at = lo
        for k, t in enumerate(secs):
            if same(t.f['min'], at) is not None:
                diff = diff or 'sector %d starts in %s, %s' % (k, show(t.f['min']), 'the domain in %s' % show(at) if k == 0 else 'the one before ends in %s' % show(at))
            at = t.f['max']
        if same(at, hi) is not None:
            diff = diff or 'the last sector ends in %s, the domain in %s' % (show(at), show(hi))
    C.ob('neighbouring sectors share their boundary and the outer ones end in the ends of the domain exactly, rounding included', '%s, %d sectors' % (prob, count), not diff, floc(f), diff)
    C.analysed('builder runs', 'uniform, %s, %d sectors: %d outcomes' % (prob, count, script.n))


GRID = [Fraction(k, 5) for k in range(1, 5)]
JUMPS = [[], [2], [3], [1], [4], [2, 3], [1, 2], [3, 4], [1, 4], [1, 3, 4], [2, 2], [3, 3], [1, 1, 4, 4], [2, 2, 2], [-1, 3], [0, 2], [2, 5, 5], [0, 5], [-2, -1], [6, 7]]


def automatic(C, P):
    n = 0
    for f in one(P, SB + 'AutomaticSectorBuilder::operator()'):
        tu = f['tu']
        key = tu.recs[f['cls']]['key']
        prob = key[key.index('<') + 1:].rsplit(',', 1)[0]
        sets = list(JUMPS)
        grid = GRID
        if C.thorough and 'Matslise' in prob:
            from itertools import combinations_with_replacement as cwr
            sets += [list(j) for k in range(1, 4) for j in cwr([-1, 0, 1, 2, 3, 4, 5, 6], k) if list(j) not in JUMPS]
        if 'Matslise' not in prob and not C.thorough:
            sets = [[], [2], [2, 3], [2, 2], [0, 3]]
        for i, js in enumerate(sets):
            lo = Fraction(-9 if i % 2 else 5)
            n += decide(C, '%s, jumps %s' % (prob, js), lambda: automatic_case(C, P, f, key, prob, lo, [lo + Fraction(j, 5) for j in js], [lo + g for g in grid]))
    return n


class Bad(Exception):
    pass


def automatic_case(C, P, f, key, prob, lo, jumps, grid):
    script = Script(60000)
    bad = ''
    hi = lo + 1
    inst = '%s, jumps %s of [%s, %s]' % (prob, [str(j) for j in jumps], lo, hi)
    used = [False]
    for s in script:
        I = Interp(P)
        sector_oracle(I, P, prob, s)
        calls = [0]

        def next_sector(I, f, this, args, node):
            used[0] = True
            left, right = const(I.rv(args[2])), const(I.rv(args[3]))
            d = int(const(I.rv(args[5])))
            calls[0] += 1
            if not lo <= left < right <= hi:
                raise Bad('a sector is asked for on [%s, %s]' % (left, right))
            if calls[0] > 14:
                raise Bad('more sectors than interior ends')
            h = num(I.load(args[1]))
            if compare('>', h, ZERO) is not True:
                raise Bad('a sector is asked for with step %s' % show(h))
            if NAMES[d] == 'forward':
                a, b = left, s.choose([right] + [g for g in grid if left < g < right])
            else:
                b, a = right, s.choose([left] + [g for g in grid if left < g < right])
            I.store(args[1], rc(b - a))
            key_ = prob + '::Sector'
            return Ptr(I.new(Rec(key_, {'min': rc(a), 'max': rc(b), 'direction': rc(d), 'id': rc(100 + calls[0])}, 'A%d' % calls[0])), True)
        I.opaque['automaticNextSector'] = next_sector
        this = I.new(Rec(key, {'tolerance': sym('tol', positive=True), 'jumps': Vec([rc(j) for j in jumps])}, 'sb'), 'sb')
        try:
            v = I.run(f, this, [Ptr(I.new(Rec(prob, {}, 'problem'))), I.new(rc(lo)), I.new(rc(hi))])
            oob = [e for e in I.events if e['kind'] in ('oob', 'null')]
            if oob:
                raise Bad('access outside a container (index %s of %s)' % (oob[0].get('index'), oob[0].get('size')))
            if v is None or I.throw_cond() is not False:
                raise Bad('fails')
            secs, m = sectors_of(I, v)
            d = tiling(secs, m, rc(lo), rc(hi))
            if d:
                raise Bad(d)
            ends = {const(x.f['min']) for x in secs}
            for j in jumps:
                if lo < j < hi and j not in ends:
                    raise Bad('the jump at %s lies inside a sector' % j)
        except Bad as e:
            bad = str(e)
            break
    if not used[0]:
        raise Unsupported('the search for the next sector is not met')
    C.ob('the automatic sectors tile the domain, break at every jump and meet at the matching index', inst, not bad, floc(f), bad)
    C.analysed('builder runs', 'automatic, %s: %d scripts' % (inst, script.n))


# step search: intervals longer and shorter than the shortest step that is refined, first steps inside and beyond the interval
INTERVALS = [(Fraction(3, 7), Fraction(10, 7)), (Fraction(-5, 3), Fraction(-5, 3) + Fraction(1, 2000)), (Fraction(3, 7), Fraction(61, 7))]
STEPS = [Fraction(1, 4), Fraction(1), Fraction(5, 2)]
SIZES = {'large': Fraction(7), 'medium': Fraction(3, 4), 'small': Fraction(1, 4), 'zero': Fraction(0)}


def step_contract(C, P):
    n = 0
    for f in one(P, 'automaticNextSector'):
        prob = None
        for a in f['a'] or []:
            if 't' in a:
                k = f['tu'].ty(a['t'])
                if k.get('r') is not None:
                    prob = f['tu'].recs[k['r']]['key']
        if prob is None:
            raise AnalysisBroken('automaticNextSector without problem type')
        for d in ('forward', 'backward'):
            for j, (lo, hi) in enumerate(INTERVALS):
                n += decide(C, 'next sector, %s, %s, interval %d' % (prob, d, j), lambda: step_case(C, P, f, prob, d, lo, hi))
    return n


def step_case(C, P, f, prob, d, left, right):
    """every choice of which refinement and extension rounds happen"""
    rounds = 3 if not C.thorough else 4
    bad, n = '', 0
    inst = '%s, %s, [%s, %s]' % (prob, d, left, right)
    tol = Fraction(1, 1000)
    for step in STEPS:
        h0 = step * (right - left)
        script = Script(20000)
        for s in script:
            n += 1
            I = Interp(P)
            errs = {}
            made = []

            def ctor(I, rec, args, node):
                v = [I.rv(a) for a in args]
                if len(v) != 4:
                    return NotImplemented
                a, b = const(v[1]), const(v[2])
                if not left <= a < b <= right:
                    raise Bad('a sector [%s, %s] is built for the interval [%s, %s]' % (a, b, left, right))
                k = len(made)
                made.append((a, b))
                if k > 40:
                    raise Bad('the search does not end')
                # after the free rounds the last answer repeats
                kind = s.choose(list(SIZES)) if k < rounds else errs[k - 1][1]
                errs[k] = (SIZES[kind] * tol, kind)
                return Rec(rec['key'], {'min': rc(a), 'max': rc(b), 'direction': num(v[3]), 'id': rc(k)}, 'S%d' % k)
            bn = prob.split('<')[0] + '::Sector'
            I.ctor_opaque[bn] = ctor
            I.opaque[bn + '::error'] = lambda I, f, this, args, node: rc(errs[int(const(I.load(this).f['id']))][0])

            def power(I, f, this, args, node):
                b, e = const(I.rv(args[0])), const(I.rv(args[1]))
                if b == 1 or e == 0:
                    return rc(1)
                up = (b > 1) == (e > 0)
                if len(made) > rounds:
                    return rc(Fraction(5, 4) if up else Fraction(4, 5))
                return rc(s.choose([Fraction(5, 4), Fraction(50)] if up else [Fraction(4, 5), Fraction(1, 50)]))
            for nm in ('pow', 'std::pow'):
                I.opaque[nm] = power
            hloc = I.new(rc(h0))
            try:
                v = I.run(f, None, [Ptr(I.new(Rec(prob, {}, 'problem'))), hloc, I.new(rc(left)), I.new(rc(right)), I.new(rc(tol)), direction(d)])
                if v is None or I.throw_cond() is not False or [e for e in I.events if e['kind'] in ('oob', 'null')]:
                    raise Bad('fails')
                if not isinstance(v, Ptr) or v.t is None:
                    raise Bad('gives no sector')
                sec = I.load(v.t)
                a, b, k = const(sec.f['min']), const(sec.f['max']), int(const(sec.f['id']))
                if (a if d == 'forward' else b) != (left if d == 'forward' else right):
                    raise Bad('the sector [%s, %s] does not start at the end reached of [%s, %s]' % (a, b, left, right))
                if NAMES[int(const(sec.f['direction']))] != d:
                    raise Bad('the sector runs the other way')
                if const(I.load(hloc)) <= 0:
                    raise Bad('the next step is %s' % const(I.load(hloc)))
                if errs[k][0] > tol and len(made) < 10 and b - a > Fraction(1, 1000):
                    raise Bad('the sector [%s, %s] is kept although its error estimate exceeds the tolerance and %d sectors were tried' % (a, b, len(made)))
            except Bad as e:
                bad = '%s (error estimates %s times the tolerance, first step %s)' % (e, ', '.join(str(x[0] / tol) for x in errs.values()), h0)
                break
        if bad:
            break
    C.ob('the next sector starts at the end reached, stays inside the interval and meets the tolerance where steps are left', inst, not bad, floc(f), bad)
    C.analysed('builder runs', 'next sector, %s: %d scripts' % (inst, n))


def problem_ctors(P, bn):
    out = []
    for key, rec in P.recs.items():
        if rec['bn'] == bn:
            tu = rec['tu']
            for m in rec['methods']:
                f = tu.funs[m]
                if f.get('kind') == 'ctor' and not f.get('copy') and not f.get('move') and not f.get('deleted') and not f.get('implicit') and f['ps']:
                    d = P.definition(f)
                    if d is not None:
                        out.append((key, rec, d))
    return out


def constructors(C, P):
    n = 0
    for bn in ('matslise::Matslise', 'matslise::Matscs'):
        found = problem_ctors(P, bn)
        if not found:
            raise AnalysisBroken('anchor vanished: constructors of ' + bn)
        for key, rec, f in found:
            if key not in DEFAULT_KEYS and not C.thorough:
                continue
            for k in (1, 2, 3):
                for m in range(k):
                    n += decide(C, '%s, %d sectors' % (f['qn'], k), lambda: ctor_case(C, P, key, rec, f, k, m))
    return n


DEFAULT_KEYS = ('matslise::Matslise<double>', 'matslise::Matscs<double>')


def ctor_case(C, P, key, rec, f, k, m):
    tu = f['tu']
    half = key.startswith('matslise::Matslise')
    inst = '%s(%s), %d sectors meeting at %d' % (key, ', '.join(p['n'] for p in f['ps']), k, m)
    I = Interp(P)
    lo, hi, tol = sym('xmin'), sym('xmax'), sym('tol', positive=True)
    calls = []
    made = []

    def build(I, f, this, args, node):
        v = [I.rv(a) for a in args]
        calls.append((I.load(this), v))
        secs = []
        for i in range(k):
            r = Rec(key + '::Sector', {'min': sym('m%d' % i), 'max': sym('m%d' % (i + 1)), 'vs': Vec([sym('vs%d_%d' % (i, j)) for j in range(3)]), 'v0Match': sym('old%d' % i)}, 'S%d' % i)
            loc = I.new(r, 'S%d' % i)
            made.append(loc)
            secs.append(Ptr(loc, True))
        return Rec('matslise::sector_builder::SectorBuilderReturn<%s>' % key, {'sectors': Vec(secs), 'matchIndex': rc(m)}, 'r')
    for nm in ('SectorBuilder', 'AutomaticSectorBuilder', 'UniformSectorBuilder'):
        I.opaque[SB + nm + '::operator()'] = build
    given = None
    args, scal = [], [lo, hi, tol]
    names = [base(tu.strip(p['t'])['n']) if tu.strip(p['t'])['k'] == 'rec' else '' for p in f['ps']]
    if 'matslise::Domain' in names:
        scal = [tol]
    for p, nm in zip(f['ps'], names):
        t = tu.strip(p['t'])
        if nm == 'matslise::Domain':
            v = Rec(tu.recs[t['r']]['key'], {'min': lo, 'max': hi})
        elif nm.startswith(SB):
            b = [r for r in P.recs if base(r) == SB + 'AutomaticSectorBuilder' and '<%s,' % key in r]
            given = Rec(b[0], {'tolerance': sym('given tolerance', positive=True), 'jumps': Vec([sym('j1')])}, 'given')
            v = given
        elif nm:
            v = OFn('V')
        elif t['k'] == 'b' and 'int' in t.get('s', ''):
            v = rc(2)
        else:
            v = scal.pop(0)
        args.append(I.new(v))
    obj = I.construct_repo(rec, args, f)
    if isinstance(obj, Loc):
        obj = I.load(obj)
    bad = ''
    if I.throw_cond() is not False or [e for e in I.events if e['kind'] in ('oob', 'null')]:
        bad = 'fails'
    elif len(calls) != 1:
        bad = 'the sectors are built %d times' % len(calls)
    else:
        who, v = calls[0]
        bad = same(num(v[1]), lo) or same(num(v[2]), hi) or ''
        if not bad and given is not None and not (isinstance(who, Rec) and same(who.f.get('tolerance'), given.f['tolerance']) is None and len(who.f['jumps'].e) == 1):
            bad = 'another sector builder than the given one is used'
        if not bad and given is None and not (isinstance(who, Rec) and 'Automatic' in who.cls and same(num(who.f['tolerance']), tol) is None and not who.f['jumps'].e):
            bad = 'the default sector builder does not use the given tolerance'
        if not bad:
            secs = obj.f['sectors']
            got = [p.t.root if isinstance(p, Ptr) and p.t is not None else None for p in secs.e]
            if got != [l.root for l in made]:
                bad = 'the sectors of the builder are not kept in order'
            elif same(num(obj.f['sectorCount']), rc(k)) is not None or same(num(obj.f['matchIndex']), rc(m)) is not None:
                bad = 'sectorCount = %s, matchIndex = %s' % (show(obj.f['sectorCount']), show(obj.f['matchIndex']))
            elif half:
                dom = obj.f.get('domain')
                if dom is None:
                    dom = next((I.load(x) for x in obj.f.values() if isinstance(x, Rec) and 'min' in x.f), None)
                bad = same(num(dom.f['min']), lo) or same(num(dom.f['max']), hi) or ''
                for i, l in enumerate(made):
                    d = same(num(I.load(l).f['v0Match']), sym('vs%d_0' % m))
                    if d is not None:
                        bad = bad or 'sector %d scales by another potential value than that of the matching sector: %s' % (i, d)
            else:
                bad = same(num(obj.f['xmin']), lo) or same(num(obj.f['xmax']), hi) or ''
    C.ob('a problem keeps the sectors, count and matching index of its builder on the given domain', inst, not bad, floc(f), bad)
    C.analysed('constructors', inst)


def run(C):
    C.explanation = ('The sector builders are interpreted with sectors reduced to their ends and direction. Every script of comparison outcomes (and, for the automatic builder, of places where the next '
                     'sector ends) is followed: the returned sectors must start and end at the domain ends, each start where the one before ends with positive length, have every jump strictly inside the '
                     'domain as a boundary, run forward up to the matching index and backward after it. The search for the next sector is interpreted for every script of error estimates (above the tolerance, '
                     'acceptable, below half of it, zero) and of step factors: the sectors it builds stay inside the interval, the one returned starts at the end already reached with the right direction, a '
                     'positive next step, and an error estimate within the tolerance unless the step or round limit is reached. The constructors must hand their domain to the builder and keep its sectors, '
                     'their number, the matching index and the potential value of the matching sector.')
    P = Program(only=['util/sectorbuilder.cpp', 'matslise/matslise.cpp', 'matscs/matscs.cpp'])
    n = uniform(C, P)
    n += automatic(C, P)
    n += step_contract(C, P)
    n += constructors(C, P)
    return 50
