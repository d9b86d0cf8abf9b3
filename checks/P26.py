"""A sector describes the sampled potential in its current direction: coefficients mirrored exactly for backward sectors, tables up to date."""
from itertools import product
from spec import *
from alg import ncsym, NC, NC_ORTHO, toNC

TECHNIQUE = 'abstract interpretation of the sector constructors and every sequence of direction changes up to a bounded length, over symbolic coefficients and an opaque coefficient table'
LEVEL_NOTE = 'All potentials (symbolic Legendre coefficients), all sector ends, every start direction and every sequence of up to 2 (thorough 4) direction changes; exact real arithmetic.'

NAMES = ['none', 'forward', 'backward']


def legendre_opaque(I, coeffs, seen):
    def h(I, f, this, args, node):
        seen.append((num(I.rv(args[1])), num(I.rv(args[2]))))
        return Vec(coeffs)
    I.opaque['matslise::legendre::getCoefficients'] = h


def table(I, coupled):
    """the coefficient table: an uninterpreted function of the step length and the coefficients"""
    def h(I, f, this, args, node):
        refs = [(p, a) for p, a in zip(f['ps'], args)]
        hh = vs = None
        outs = []
        for p, a in refs:
            t = f['tu'].ty(p['t'])
            inner = f['tu'].ty(t['e']) if t['k'] in ('r', 'rr', 'p') else t
            if inner['k'] not in ('rec', 'p', 'r') and str(inner.get('s')).replace('const ', '') == 'double':
                hh = num(I.rv(a))
            elif inner.get('const') and 'array' in inner.get('n', ''):
                vs = I.load(a) if isinstance(a, Loc) else I.rv(a)
            elif t['k'] in ('r', 'p') and not inner.get('const'):
                outs.append(a)
        if vs is None or hh is None or len(outs) != 2:
            raise Unsupported('unknown signature of calculate_tcoeff_matrix')
        for k, o in enumerate(outs):
            loc = o.t if isinstance(o, Ptr) else o
            I.store_table(k, loc, (hh, vs))
    return h


class Tables:
    """which coefficients the tables of a sector were computed from"""

    def __init__(self, I):
        self.last = {}
        I.store_table = self.put
        I.opaque['calculate_tcoeff_matrix'] = table(I, False)

    def put(self, k, loc, what):
        self.last[k] = what


def signs(d):
    return [-1 if d == 'backward' and i % 2 else 1 for i in range(32)]


def check_state(C, inst, I, this, tabs, coeffs, d, where, conj=None):
    vs = I.load(this.at(('f', 'vs')))
    dirn = I.load(this.at(('f', 'direction')))
    C.ob('the sector has the direction asked for', inst, same(dirn, direction(d)) is None, where, str(dirn))
    bad = None
    for i, (v, c) in enumerate(zip(vs.e, coeffs)):
        w = [neg(c) if signs(d)[i] < 0 else c] if not isinstance(c, Mat) else None
        if w is None:
            x = neg(c.e[0]) if signs(d)[i] < 0 else c.e[0]
            bad = bad or same(v.e[0], conj(x) if conj else x)
        else:
            bad = bad or same(v, w[0])
    C.ob('the coefficients are those of the potential, mirrored for a backward sector', inst, bad is None, where, bad)
    if d != 'none':
        ok = len(tabs.last) == 2
        bad = None if ok else 'no table was computed'
        for k, (hh, tv) in tabs.last.items():
            bad = bad or same(hh, I.load(this.at(('f', 'h'))))
            for a, b in zip(tv.e, vs.e):
                bad = bad or same(a.e[0] if isinstance(a, Mat) else a, b.e[0] if isinstance(b, Mat) else b)
        C.ob('the tables of the formula were computed from the current coefficients', inst, bad is None, where, bad)


def sectors(C, P, cls, coupled):
    n = 0
    key = [k for k in P.recs if base(k) == 'matslise::%s::Sector' % cls and 'double' in k]
    if not key:
        raise AnalysisBroken('anchor vanished: %s<double>::Sector' % cls)
    rec = P.recs[key[0]]
    tu = rec['tu']
    fields = {f['n']: f for f in rec['fields']}
    N = tu.ty(fields['vs']['t'])['a'][1]['i']
    ctors = [tu.funs[m] for m in rec['methods'] if tu.funs[m].get('kind') == 'ctor' and len(tu.funs[m]['ps']) == 4]
    ctor = [c for c in ctors if tu.ty(c['ps'][0]['t'])['k'] == 'p']
    fset = [f for f in P.find('matslise::%s::Sector::setDirection' % cls) if f['tu'].recs[f['cls']]['key'] == key[0]]
    if not ctor or not fset:
        raise AnalysisBroken('anchor vanished: constructor or setDirection of %s::Sector' % cls)
    depth = 4 if C.thorough else 2
    for first in NAMES:
        for seq in (s for k in range(depth + 1) for s in product(NAMES, repeat=k)):
            inst = '%s::Sector %s' % (cls, ' -> '.join((first,) + seq))

            def body():
                I = Interp(P)
                seen = []
                coeffs = [Mat(1, 1, [ncsym('c%d' % i)]) if coupled else sym('c%d' % i) for i in range(N)]
                legendre_opaque(I, coeffs, seen)
                conj = None
                if coupled:
                    NC_ORTHO.add('Q')
                    Q = NC({(('Q', False),): ONE})
                    Qt = NC({(('Q', True),): ONE})
                    conj = lambda x: mul(mul(Qt, x), Q)
                    I.opaque['Eigen::SelfAdjointEigenSolver::eigenvectors'] = lambda I, f, this, args, node: Mat(1, 1, [Q])
                    I.ctor_opaque['Eigen::SelfAdjointEigenSolver'] = lambda I, rec, args, node: Rec('eigensolver', {})
                tabs = Tables(I)
                a, b = sym('a'), sym('b')
                CTX.lt(a, b)
                prob = I.new(Rec(cls, {'potential': OFn('V'), 'V': OFn('V'), 'n': ONE}, 'problem'))
                v = I.construct_repo(rec, [Ptr(prob), I.new(a), I.new(b), direction(first)], ctor[0])
                this = v if isinstance(v, Loc) else I.new(v)
                C.analysed('sequences of directions', inst)
                C.ob('the potential is sampled on the sector', inst, bool(seen) and all(same(x, a) is None and same(y, b) is None for x, y in seen), floc(ctor[0]), str(seen))
                f = lambda k: I.load(this.at(('f', k)))
                C.ob('the sector has the ends and length asked for', inst, same(f('min'), a) is None and same(f('max'), b) is None and same(f('h'), sub(b, a)) is None, floc(ctor[0]))
                check_state(C, inst, I, this, tabs, coeffs, first, floc(ctor[0]), conj)
                for d in seq:
                    I.run(fset[0], this, [direction(d)])
                if seq:
                    check_state(C, inst, I, this, tabs, coeffs, seq[-1], floc(fset[0]), conj)
            n += decide(C, inst, body, floc(fset[0])) > 0
    return n


def run(C):
    P = Program(only=['matslise/sector.cpp', 'matscs/sector.cpp'])
    C.explanation = ('The constructor of a sector and every sequence of direction changes listed are interpreted with the Legendre coefficients symbolic and the coefficient tables an uninterpreted function of the step length and '
                     'the coefficients they are computed from. After each: ends, length and direction are those asked for; coefficient i is the one of the potential, times (-1)^i exactly if the sector is backward (for coupled systems in the '
                     'basis of eigenvectors); both tables were computed from the coefficients the sector now has.')
    return sectors(C, P, 'Matslise', False) + sectors(C, P, 'Matscs', True)
