"""Half-range eigenvalue lists: even and odd parts interleaved with the right indices, ranges translated exactly."""
from spec import *
import P13

TECHNIQUE = 'gated value-graph abstract interpretation of the half-range list queries over an opaque full-range solver, index ranges enumerated'
LEVEL_NOTE = 'All energies, conditions, eigenvalues symbolically; index ranges with ends in -2..9 (quick) / -2..15 (thorough), lists of up to 6 (9) values.'


def cells(v):
    return list(v.f['data'].e)


def ev(j, even, side):
    return app('ev', rc(j), *((P13.NEUMANN if even else P13.DIRICHLET) + side))


def throw(I, what):
    I.throws.append((I.frames[-1].pc, what, I.mem))
    I.frames[-1].pc = False
    raise Dead()


def concrete(v):
    c = num(v).const()
    if c is None:
        raise Unsupported('index not constant')
    return int(c)


def is_even(st):
    """the condition at zero handed to the full-range solver"""
    if all(same(a, b) is None for a, b in zip(st, P13.NEUMANN)):
        return True
    if all(same(a, b) is None for a, b in zip(st, P13.DIRICHLET)):
        return False
    return None


def listed(v):
    """[(index, value)] of a returned list, or None"""
    if not isinstance(v, Vec):
        return None
    out = []
    for x in v.e:
        e = x.e if isinstance(x, Tup) else list(x.f.values()) if isinstance(x, Rec) else None
        if e is None or len(e) != 2:
            return None
        out.append(e)
    return out


def interlace(n, side):
    """even and odd eigenvalues each ascend; those of neighbouring indices may be equal, or computed in the wrong order, up to rounding"""
    vs = [ev(i // 2, i % 2 == 0, side) for i in range(n)]
    for a, b in zip(vs, vs[2:]):
        CTX.lt(a, b)


def index_case(C, P, f, yc, lo, hi):
    I = Interp(P)
    this = P13.setup(I)
    side = mk_y('side', yc)
    bad = []
    interlace(max(hi, 0) + 2, cells(side))

    def inner(I, g, this, args, node):
        if not P13.is_inner(this):
            return NotImplemented
        vs = [I.rv(a) for a in args]
        a, b = concrete(vs[0]), concrete(vs[1])
        st = [cells(v) for v in vs[2:]]
        if len(st) == 1:
            st = st * 2
        e = is_even(st[0])
        if e is None:
            bad.append('condition at zero is %s' % [show(x) for x in st[0]])
            e = True
        if any(same(x, y) for x, y in zip(st[1], cells(side))):
            bad.append('condition at xmax is %s' % [show(x) for x in st[1]])
        if a < 0 or a > b:
            throw(I, 'invalid range')
        return Vec([Tup([rc(j), ev(j, e, cells(side))]) for j in range(a, b)])
    for c in ('matslise::Matslise', 'matslise::AbstractMatslise'):
        I.opaque[c + '::eigenvaluesByIndex'] = inner
    inst = 'indices [%d,%d)' % (lo, hi)
    v = I.run(f, this, [rc(lo), rc(hi), I.new(side)])
    tc = I.throw_cond()
    C.analysed('half-range list queries', f['qn'])
    if lo < 0 or lo > hi:
        C.ob('an invalid index range is rejected', inst, v is None or tc is True, floc(f), 'returns')
        return
    C.ob('a valid index range is accepted', inst, v is not None and tc is False, floc(f), 'throws')
    if v is None:
        return
    memory_safe(C, inst, I, floc(f))
    check_list(C, inst, f, v, range(lo, hi), lambda i: ev(i // 2, i % 2 == 0, cells(side)), bad)


def check_list(C, inst, f, v, want, value, bad):
    got = listed(v)
    d = '; '.join(bad) or None
    want = list(want)
    if got is None:
        d = d or 'result %r' % (v,)
    elif len(got) != len(want):
        d = d or 'indices %s, expected %s' % ([show(e[0]) for e in got], want)
    else:
        for e, i in zip(got, want):
            d = d or same(num(e[0]), rc(i)) or same(num(e[1]), value(i))
    C.ob('even and odd eigenvalues appear once each, in index order, under their full-range index', inst, d is None, floc(f), d)


def energy_case(C, P, f, yc, first, count):
    I = Interp(P)
    this = P13.setup(I)
    side = mk_y('side', yc)
    Emin, Emax = sym('Emin'), sym('Emax')
    bad = []
    interlace(first + count, cells(side))

    def inner(I, g, this, args, node):
        if not P13.is_inner(this):
            return NotImplemented
        vs = [I.rv(a) for a in args]
        d = same(num(vs[0]), Emin) or same(num(vs[1]), Emax)
        st = [cells(v) for v in vs[2:]]
        if len(st) == 1:
            st = st * 2
        e = is_even(st[0])
        if d or e is None or any(same(x, y) for x, y in zip(st[1], cells(side))):
            bad.append(d or 'conditions %s' % [[show(x) for x in s] for s in st])
        return Vec([Tup([rc(i // 2), ev(i // 2, e, cells(side))]) for i in range(first, first + count) if (i % 2 == 0) == bool(e)])
    for c in ('matslise::Matslise', 'matslise::AbstractMatslise'):
        I.opaque[c + '::eigenvalues'] = inner
    inst = 'energy range with the %d eigenvalues from index %d' % (count, first)
    v = I.run(f, this, [I.new(Emin), I.new(Emax), I.new(side)])
    C.analysed('half-range list queries', f['qn'])
    C.ob('an energy range is accepted', inst, v is not None and I.throw_cond() is False, floc(f), 'throws')
    if v is not None:
        memory_safe(C, inst, I, floc(f))
        check_list(C, inst, f, v, range(first, first + count), lambda i: ev(i // 2, i % 2 == 0, cells(side)), bad)


def run(C):
    P = Program(only=['matslise/halfrange.cpp'])
    C.explanation = ('eigenvaluesByIndex and eigenvalues of the half-range solver are interpreted over a full-range solver that returns, for a valid range, exactly the eigenvalues of that range for the condition it is given and throws for an invalid one. '
                     'The result must list exactly the requested full-range indices in order, index i with the eigenvalue number i/2 of its parity.')
    n = 0
    top = 16 if C.thorough else 10
    for name in ('eigenvaluesByIndex', 'eigenvalues'):
        for f in one(P, 'matslise::MatsliseHalf::' + name):
            tu = f['tu']
            if tu.recs[f['cls']]['key'] != P13.HALF or len(f['ps']) != 3:
                continue
            yc = tu.recs[tu.strip(f['ps'][2]['t'])['r']]['key']
            if name == 'eigenvaluesByIndex':
                for lo in range(-2, top):
                    for hi in range(-2, top):
                        n += decide(C, 'indices %d %d' % (lo, hi), lambda: index_case(C, P, f, yc, lo, hi))
            else:
                for first in range(0, 4):
                    for count in range(0, 10 if C.thorough else 7):
                        n += decide(C, 'energies %d %d' % (first, count), lambda: energy_case(C, P, f, yc, first, count))
    C.require(n >= 150, 'too few instances %d' % n)
    return 150
