"""Error estimates, the minimum of the potential and the set-up of periodic problems are what they claim to be."""
import itertools
from fractions import Fraction as F
from spec import *
from bindings import MS, HALF, PER, CS, plain, differ, Machine

TECHNIQUE = 'abstract interpretation with symbolic sectors, energies and matching errors; the values returned are compared exactly'
LEVEL_NOTE = ('The matching error is taken to be a straight line through an unknown root (one root with, another without corrections, for the boundary conditions it was asked for), so that a Newton step is exact; '
              'how many steps are needed for other matching errors is not decided (P91). Minima over one to four sectors, in every order of their averages, and over many, in some.')


def error_case(C, P, f):
    """|E - root of the matching error without corrections|"""
    I = Interp(P)
    asked = []

    def matching(I, g, this, args, node):
        a = [I.rv(x) for x in args]
        h = I.simplify(a[3]) if len(a) > 3 else True
        if h is not True and h is not False:
            raise Unsupported('a symbolic choice of the method')
        sides = tuple(plain(I, x) for x in a[1:3])
        asked.append((h, sides))
        return Tup([mul(sub(num(a[0]), root[h]), rc(3)), rc(3), sym('turned')])
    I.opaque[MS + '::matchingError'] = matching
    root = {True: sym('corrected'), False: sym('uncorrected')}
    E, tol = sym('E'), sym('tol', positive=True)
    for p, q in ((rc(0), tol),):
        CTX.lt(p, q)
    # both orders of the two eigenvalues
    for below in (True, False):
        x = root[False]
        d = sym('distance', positive=True)
        CTX.lt(rc(0), d)
        root[False] = sub(E, d) if below else add(E, d)
        del asked[:]
        l, r = mk_y('l', ycls()), mk_y('r', ycls())
        this = I.new(Rec(MS + '<double>', {'tolerance': tol, 'token': sym('m')}), 'm')
        ps = f['ps']
        got = I.run(f, this, [I.new(v) for v in (E, l, r, sym('index'))[:len(ps)]])
        root[False] = x
        inst = '%s, %s' % (f['qn'], 'lower' if below else 'higher')
        bad = 'it never returns' if got is None else None
        bad = bad or differ(plain(I, I.rv(got)), d, 'the error')
        if not bad and not any(h is False for h, _ in asked):
            bad = 'the method without corrections is never asked'
        if not bad and any(s != (plain(I, l), plain(I, r)) for _, s in asked) and any(differ(a, b) for _, s in asked for a, b in zip(s, (plain(I, l), plain(I, r)))):
            bad = 'other boundary conditions are used'
        C.ob('the error estimate is the distance to the eigenvalue of the method without corrections', inst, bad is None, floc(f), bad)
    C.analysed('functions', f['qn'])


def minimum_case(C, P, f, n, order):
    I = Interp(P)
    s = [sym('avg%d' % i) for i in range(n)]
    for a, b in zip(order, order[1:]):
        CTX.lt(s[a], s[b])
    ss = Vec([Ptr(I.new(Rec(MS + '<double>::Sector', {'vs': Vec([s[i]] + [sym('v%d_%d' % (i, j)) for j in range(1, 16)]), 'min': sym('a%d' % i), 'max': sym('a%d' % (i + 1))}), 's%d' % i), True) for i in range(n)])
    got = I.run(f, I.new(Rec(MS + '<double>', {'sectors': ss, 'sectorCount': rc(n), 'matchIndex': rc(n // 2)}), 'm'), [])
    bad = 'it never returns' if got is None else differ(plain(I, I.rv(got)), s[order[0]], 'the minimum')
    C.ob('the minimum of the potential is that of the sector averages', '%s, %s' % (f['qn'], ' < '.join('sector %d' % i for i in order[:4]) + (' < ...' if n > 4 else '')), bad is None, floc(f), bad)
    C.analysed('functions', f['qn'])


def half_minimum(C, P, f):
    I = Interp(P)
    I.opaque[MS + '::estimatePotentialMinimum'] = lambda I, g, this, args, node: app('least', I.load(this).f['token'])
    h = I.new(Rec(HALF + '<double>', {'ms': Ptr(I.new(Rec(MS + '<double>', {'token': sym('inner')}), 'inner'), True)}), 'h')
    got = I.run(f, h, [])
    bad = 'it never returns' if got is None else differ(plain(I, I.rv(got)), app('least', sym('inner')), 'the minimum')
    C.ob('the minimum of the potential is that of the sector averages', f['qn'], bad is None, floc(f), bad)
    C.analysed('functions', f['qn'])


def periodic_case(C, P, f):
    """the inner problem gets every argument, K is kept"""
    M = Machine(P)
    I = M.I
    M.I.ctor_opaque.pop(PER)
    rec = P.recs[f['tu'].recs[f['cls']]['key']]
    V, lo, hi, tol = OFn('V'), sym('lo'), sym('hi'), sym('tol', positive=True)
    K = Mat(2, 2, [sym('k%d' % i) for i in range(4)])
    names = []
    args = []
    nums = [lo, hi, tol]
    for p in f['ps']:
        t = f['tu'].strip(p['t'])
        s = str(t.get('s', t.get('n', '')))
        if 'Matrix' in s:
            args.append(K)
        elif 'SectorBuilder' in s or 'function' in s:
            args.append(V if not args else OFn('builder'))
        else:
            args.append(nums.pop(0))
    loc = I.new(Rec(rec['key'], {}))
    root = {'qn': '<entry>', 'ret': None, 'bn': ''}
    given = [I.new(a) for a in args]

    def build():
        I.run_ctor(rec, f, loc, given, None)
    from interp import Frame
    fr = Frame(f['tu'], root)
    fr.dead = False
    I.frames = [fr]
    build()
    inst = '%s with %d arguments' % (f['qn'], len(args))
    bad = None
    if len(M.made) != 1 or M.made[0][0] != MS:
        bad = 'the problems built are %s' % [m[0] for m in M.made]
    else:
        want = [V, lo, hi, tol] + [a for a in args if a == OFn('builder')]
        flat = []
        for x in M.made[0][1]:
            flat += [x.f['min'], x.f['max']] if isinstance(x, Rec) and x.cls.startswith('matslise::Domain') else [x]
        if len(flat) < len(want):
            bad = 'only %d arguments reach the inner problem' % len(flat)
        for n, (x, w) in enumerate(zip(flat, want)):
            bad = bad or differ(plain(I, x), plain(I, w), 'argument %d of the inner problem' % (n + 1))
        me = I.load(loc)
        bad = bad or differ(plain(I, me.f['K']), plain(I, K), 'K')
    C.ob('a periodic problem is set up from its arguments', inst, bad is None, floc(f), bad)
    C.analysed('functions', f['qn'])


SB = 'matslise::sector_builder::'


def solver_case(C, P, f, cls, n=4, match=1):
    """a solver built by a sector builder: domain, tolerance, sectors, match index; the reference value reaches every sector"""
    I = Interp(P)
    built = []
    ret = next(k for k, r in P.recs.items() if r['bn'] == SB + 'SectorBuilderReturn' and 'Matscs' not in k and 'double' in k and 'long' not in k)

    def build(I, g, this, args, node):
        b = I.load(this)
        ss = Vec([Ptr(I.new(Rec(MS + '<double>::Sector', {'vs': Vec([sym('v%d_%d' % (i, j)) for j in range(16)]), 'min': sym('a%d' % i), 'max': sym('a%d' % (i + 1)), 'v0Match': sym('none')}), 's%d' % i), True) for i in range(n)])
        a = [I.rv(x) for x in args]
        built.append((b, a[1:], a[0]))
        return Rec(ret, {'sectors': ss, 'matchIndex': rc(match)})
    for c in ('SectorBuilder', 'AutomaticSectorBuilder', 'UniformSectorBuilder'):
        I.opaque[SB + c + '::operator()'] = build
    rec = P.recs[f['tu'].recs[f['cls']]['key']]
    V, lo, hi, tol, steps = OFn('V'), sym('lo'), sym('hi', positive=cls == HALF), sym('tol', positive=True), sym('steps', positive=True)
    half = cls == HALF
    args, given, nums = [], None, [hi, tol] if half else [lo, hi, tol]
    dom = next(k for k, r in P.recs.items() if r['bn'] == 'matslise::Domain' and 'long' not in k and 'double' in k)
    for p in f['ps']:
        t = f['tu'].strip(p['t'])
        name = f['tu'].recs[t['r']]['bn'] if t['k'] == 'rec' and f['tu'].recs.get(t['r']) else str(t.get('s', t.get('n', '')))
        if name.endswith('SectorBuilder'):
            given = Rec(SB + 'UniformSectorBuilder<%s<double>, double>' % MS, {'sectorCount': steps})
            args.append(given)
        elif not args:
            args.append(V)
        elif name.endswith('Domain'):
            args.append(Rec(dom, {'min': lo, 'max': hi}))
            nums = [tol]
        else:
            args.append(nums.pop(0))
    loc = I.new(Rec(rec['key'], {}), 'it')
    argl = [I.new(a) for a in args]
    fr = Frame(f['tu'], {'qn': '<entry>', 'ret': None, 'bn': ''})
    fr.dead = False
    I.frames = [fr]
    I.run_ctor(rec, f, loc, argl, None)
    me = outer = I.load(loc)
    bad = None
    want = (lo, hi)
    if half:
        bad = differ(plain(I, outer.f['domain']), plain(I, Rec(dom, {'min': neg(hi), 'max': hi})), 'the domain')
        me, want = I.load(outer.f['ms'].t), (rc(0), hi)
    if len(built) != 1:
        bad = bad or 'sectors are built %d times' % len(built)
    else:
        b, ends, problem = built[0]
        bad = bad or differ(num(ends[0]), want[0], 'the start of the sectors') or differ(num(ends[1]), want[1], 'the end of the sectors')
        if given is not None:
            bad = bad or differ(plain(I, b), plain(I, given), 'the sector builder')
        elif 'AutomaticSectorBuilder' not in b.cls:
            bad = bad or 'the sectors are built by a %s' % b.cls
        else:
            bad = bad or differ(num(b.f['tolerance']), tol, 'the tolerance of the sectors') or (None if not b.f['jumps'].e else 'there are jumps')
    bad = bad or differ(plain(I, me.f['domain']), plain(I, Rec(dom, {'min': want[0], 'max': want[1]})), 'the domain')
    bad = bad or differ(num(me.f['tolerance']), tol, 'the tolerance')
    bad = bad or differ(num(me.f['sectorCount']), rc(n), 'the number of sectors') or differ(num(me.f['matchIndex']), rc(match), 'the index of the matching sector')
    if not bad and len(me.f['sectors'].e) != n:
        bad = 'there are %d sectors instead of %d' % (len(me.f['sectors'].e), n)
    for i, s in enumerate(me.f['sectors'].e if not bad else ()):
        x = I.load(s.t)
        bad = bad or differ(num(x.f['min']), sym('a%d' % i), 'the start of sector %d' % i) or differ(num(I.rv(x.f['v0Match'])), sym('v%d_0' % match), 'the reference value of sector %d' % i)
    C.ob('a problem is set up from its arguments', '%s(%s), sector %d of %d' % (f['qn'], ', '.join(p.get('n', '?') for p in f['ps']), match, n), bad is None, floc(f), bad)
    C.analysed('functions', f['qn'])


def coupled_case(C, P, f):
    I = Interp(P)
    built = []
    ret = next(k for k, r in P.recs.items() if r['bn'] == SB + 'SectorBuilderReturn' and 'Matscs' in k and 'long' not in k)

    def build(I, g, this, args, node):
        built.append((I.load(this), [num(I.rv(x)) for x in args[1:]]))
        return Rec(ret, {'sectors': Vec([Ptr(I.new(Rec(CS + '<double>::Sector', {'min': sym('a%d' % i), 'max': sym('a%d' % (i + 1))}), 's%d' % i), True) for i in range(4)]), 'matchIndex': rc(1)})
    for c in ('SectorBuilder', 'AutomaticSectorBuilder', 'UniformSectorBuilder'):
        I.opaque[SB + c + '::operator()'] = build
    rec = P.recs[f['tu'].recs[f['cls']]['key']]
    lo, hi, n = sym('lo'), sym('hi'), sym('n')
    b = Rec(SB + 'UniformSectorBuilder<%s<double>, double>' % CS, {'sectorCount': sym('steps')})
    loc = I.new(Rec(rec['key'], {}), 'it')
    fr = Frame(f['tu'], {'qn': '<entry>', 'ret': None, 'bn': ''})
    fr.dead = False
    I.frames = [fr]
    I.run_ctor(rec, f, loc, [I.new(x) for x in (OFn('V'), n, lo, hi, b)], None)
    me = I.load(loc)
    bad = None if len(built) == 1 else 'sectors are built %d times' % len(built)
    bad = bad or differ(built[0][1][0], lo, 'the start of the sectors') or differ(built[0][1][1], hi, 'the end of the sectors') or differ(plain(I, built[0][0]), plain(I, b), 'the sector builder')
    for k, w in (('n', n), ('xmin', lo), ('xmax', hi), ('sectorCount', rc(4)), ('matchIndex', rc(1))):
        bad = bad or differ(num(me.f[k]), w, k)
    bad = bad or differ(plain(I, me.f['V']), ('function', 'V'), 'the potential')
    if not bad and [show(I.load(x.t).f['min']) for x in me.f['sectors'].e] != ['a%d' % i for i in range(4)]:
        bad = 'the sectors are not those built'
    C.ob('a problem is set up from its arguments', f['qn'], bad is None, floc(f), bad)
    C.analysed('functions', f['qn'])


def builder_case(C, P, f, field):
    I = Interp(P)
    rec = P.recs[f['tu'].recs[f['cls']]['key']]
    loc = I.new(Rec(rec['key'], {}), 'it')
    fr = Frame(f['tu'], {'qn': '<entry>', 'ret': None, 'bn': ''})
    fr.dead = False
    I.frames = [fr]
    I.run_ctor(rec, f, loc, [I.new(sym('given'))], None)
    me = I.load(loc)
    bad = differ(num(I.rv(me.f[field])), sym('given'), 'the ' + field)
    if not bad and 'jumps' in me.f and me.f['jumps'].e:
        bad = 'there are jumps'
    C.ob('a problem is set up from its arguments', f['qn'], bad is None, floc(f), bad)
    C.analysed('functions', f['qn'])


def run(C):
    C.explanation = ('eigenvalueError is interpreted with matching errors that are straight lines with known roots; the estimates of the minimum with symbolic averages in every order; the constructors of the periodic problem with recorded constructions of the inner problem. '
                     'The values must be exactly those documented.')
    P = Program()
    n = 0
    for f in one(P, MS + '::eigenvalueError', lambda f: f.get('body') is not None):
        n += decide(C, f['qn'], lambda: error_case(C, P, f), floc(f))
    for f in one(P, MS + '::estimatePotentialMinimum'):
        for k in range(1, 5 if C.thorough else 4):
            for o in itertools.permutations(range(k)):
                n += decide(C, '%s, %s' % (f['qn'], o), lambda: minimum_case(C, P, f, k, o), floc(f))
        # many sectors: the smallest average at either end and inside
        for k in (24,) + ((75,) if C.thorough else ()):
            for i in (0, 1, k // 2, k - 2, k - 1):
                o = [i] + [j for j in range(k) if j != i]
                n += decide(C, '%s, %d of %d' % (f['qn'], i, k), lambda: minimum_case(C, P, f, k, o), floc(f))
    for f in one(P, HALF + '::estimatePotentialMinimum'):
        n += decide(C, f['qn'], lambda: half_minimum(C, P, f), floc(f))
    for f in one(P, PER + '::PeriodicMatslise', lambda f: not (f.get('copy') or f.get('move'))):
        n += decide(C, f['qn'], lambda: periodic_case(C, P, f), floc(f))
    for c in (MS, HALF):
        for f in one(P, c + '::' + c.split('::')[-1], lambda f: not (f.get('copy') or f.get('move'))):
            for k, m in [(1, 0), (2, 0), (2, 1), (4, 1), (23, 16)] + ([(7, 3), (60, 0), (60, 59)] if C.thorough else []):
                n += decide(C, '%s, %d arguments, %d of %d' % (f['qn'], len(f['ps']), m, k), lambda: solver_case(C, P, f, c, k, m), floc(f))
    for f in one(P, CS + '::Matscs', lambda f: not (f.get('copy') or f.get('move'))):
        n += decide(C, f['qn'], lambda: coupled_case(C, P, f), floc(f))
    for c, x in (('AutomaticSectorBuilder', 'tolerance'), ('UniformSectorBuilder', 'sectorCount')):
        for f in one(P, SB + c + '::' + c, lambda f: not (f.get('copy') or f.get('move')) and len(f['ps']) == 1):
            n += decide(C, f['qn'], lambda: builder_case(C, P, f, x), floc(f))
    C.require(n >= 6, 'too few functions decided (%d)' % n)
    return 10
