"""What the checks of the language bindings share: recorded library calls and structural comparison of values."""
from fractions import Fraction as F
from spec import *

ABS, MS, HALF, PER, SL, LT, CS = ('matslise::AbstractMatslise', 'matslise::Matslise', 'matslise::MatsliseHalf', 'matslise::PeriodicMatslise',
                                  'matslise::SturmLiouville', 'matslise::LiouvilleTransformation', 'matslise::Matscs')
WRAP = 'EigenfunctionWrapper'
V2 = lambda n: Mat(2, 1, [sym(n + '0'), sym(n + '1')])


def plain(I, v, depth=0):
    """nested tuples of what a value holds"""
    if depth > 9:
        return 'deep'
    if isinstance(v, View) or isinstance(v, Loc):
        v = I.rv(v)
    if isinstance(v, Vec):
        return ('list',) + tuple(plain(I, x, depth + 1) for x in v.e)
    if isinstance(v, Tup):
        return ('list',) + tuple(plain(I, x, depth + 1) for x in v.e)
    if isinstance(v, (Mat,)):
        return ('matrix', v.r, v.c) + tuple(plain(I, x, depth + 1) for x in v.e)
    if isinstance(v, Opt):
        return ('opt', plain(I, v.v, depth + 1)) if v.has else ('opt',)
    if isinstance(v, Ptr):
        if v.t is None:
            return 'null'
        x = I.load(v.t) if isinstance(v.t, Loc) else v.t
        if isinstance(x, Rec) and 'token' in x.f:
            return ('object', show(x.f['token']))
        return ('object', plain(I, x, depth + 1))
    if isinstance(v, Rec):
        if 'token' in v.f:
            return ('object', show(v.f['token']))
        if v.cls.split('<')[0].endswith('Y'):
            return ('state', plain(I, v.f['data'], depth + 1))
        return ('record', v.cls.split('<')[0]) + tuple((k, plain(I, x, depth + 1)) for k, x in sorted(v.f.items()))
    if isinstance(v, Str):
        return ('text', v.s)
    if isinstance(v, (OFn, Clo, Fn)):
        return ('function', getattr(v, 'name', None) or 'of the module')
    if v is UNDEF:
        return 'unset'
    if isinstance(v, (R, D)) or v is True or v is False:
        return num(v) if v not in (True, False) else v
    raise Unsupported('a value %r' % (v,))


def differ(a, b, at='it'):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b) or a[:1] != b[:1]:
            return '%s is %s, not %s' % (at, text(a), text(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, at if len(a) < 3 else '%s of %s' % ('entry %d' % (i - 1), at))
            if d:
                return d
        return None
    if isinstance(a, (R, D)) and isinstance(b, (R, D)):
        d = same(a, b)
        return None if d is None else '%s is %s, not %s' % (at, show(a), show(b))
    return None if type(a) is type(b) and a == b else '%s is %s, not %s' % (at, text(a), text(b))


def text(a):
    if isinstance(a, tuple):
        return '(%s)' % ', '.join(text(x) for x in a)
    return show(a) if isinstance(a, (R, D)) else str(a)


class Machine:
    """an interpreter in which the library's calls are recorded and answered with symbols"""

    def __init__(self, P):
        self.I = I = Interp(P)
        self.calls = []
        self.made = []
        for q, n in [(ABS, 'eigenvalues'), (ABS, 'eigenvaluesByIndex'), (ABS, 'eigenvalueError'), (ABS, 'eigenpairsByIndex'), (ABS, 'eigenfunction'), (MS, 'propagate'), (MS, 'matchingError'),
                     (PER, 'propagate'), (PER, 'matchingError'), (PER, 'eigenpairsByIndex'), (PER, 'eigenvaluesByIndex'), (PER, 'eigenvalues'), (PER, 'eigenfunction'),
                     (SL, 'eigenvaluesByIndex'), (SL, 'eigenpairsByIndex'), (SL, 'eigenfunction'), (SL, 'eigenvalueError'), (SL, 'eigenvalues'), (CS, 'propagate'), (CS, 'propagatePsi'), (CS, 'propagateColumn'),
                     (LT, 'V'), (LT, 'r2x'), (LT, 'x2r'), (LT, 'rDomain'), (LT, 'xDomain')]:
            for cls in ([q] if q != ABS else [ABS, MS, HALF]):
                I.opaque[cls + '::' + n] = self.method(n)
        I.opaque[ABS + '::Eigenfunction::operator()'] = self.evaluate
        for c in (MS, HALF, PER, SL, LT, CS):
            I.ctor_opaque[c] = self.construct(c)

    def method(self, n):
        def h(I, f, this, args, node):
            self.calls.append((n, plain(I, I.load(this)), tuple(plain(I, I.rv(a)) for a in args), f))
            return answer(I, n, f)
        return h

    def evaluate(self, I, f, this, args, node):
        a = I.rv(args[0])
        self.calls.append(('operator()', plain(I, I.load(this)), (plain(I, a),), f))
        if isinstance(a, Mat):
            k = a.r * a.c
            return Mat(k, 2, [app('value', sym('xs%d' % i), rc(j)) for i in range(k) for j in range(2)])
        return Mat(2, 1, [sym('value'), sym('slope')])

    def construct(self, c):
        def h(I, rec, args, node):
            if len(args) == 1:
                v = I.load(args[0]) if isinstance(args[0], Loc) else args[0]
                if isinstance(v, Rec) and 'token' in v.f:
                    return v
            self.made.append((c, [I.rv(a) for a in args]))
            return Rec(rec['key'], {'token': sym('built')})
        return h


def fn(I, name):
    return Ptr(I.new(Rec(ABS + '<double>::Eigenfunction', {'token': sym(name)}), name), True)


def answer(I, n, f):
    per = f['qn'].startswith(PER)
    ij = [(sym('i%d' % k), sym('E%d' % k)) for k in range(2)]
    if n in ('eigenvalues', 'eigenvaluesByIndex'):
        return Vec([Tup([i, e] + ([sym('m%d' % k)] if per else [])) for k, (i, e) in enumerate(ij)])
    if n == 'eigenpairsByIndex':
        return Vec([Tup([i, e, Vec([fn(I, 'f%d%s' % (k, c)) for c in 'ab'[:k + 1]]) if per else fn(I, 'f%d' % k)]) for k, (i, e) in enumerate(ij)])
    if n == 'eigenfunction':
        return Vec([fn(I, 'f0'), fn(I, 'f1')]) if per else fn(I, 'f0')
    if n == 'eigenvalueError':
        return sym('err')
    if n == 'matchingError':
        return Tup([sym('mismatch'), sym('dmismatch'), sym('turned')]) if not per else Tup([mk_y('r', None, 4, 2), Mat(2, 1, [sym('t0'), sym('t1')])])
    if n == 'propagate':
        ret = f['tu'].strip(f['ret'])
        yt = ret['a'][0]['t']
        key = f['tu'].strip(yt)['s']
        cols = 2 if per else 1
        rows, cols = (8, 2) if f['qn'].startswith(CS) else (4, cols)
        return Tup([Rec(key, {'data': Mat(rows, cols, [sym('r%d_%d' % (i, j)) for i in range(rows) for j in range(cols)])}), sym('theta') if not per else Mat(2, 1, [sym('theta0'), sym('theta1')])])
    if n in ('V', 'r2x', 'x2r'):
        return sym('of_x')
    if n in ('rDomain', 'xDomain'):
        v = Rec('matslise::Domain<double>', {'min': sym(n[0] + 'lo'), 'max': sym(n[0] + 'hi')})
        return I.new(v) if f['tu'].types[f['ret']]['k'] in ('r', 'rr') else v
    raise Unsupported('an answer of %s' % n)


def state(v, d=None):
    return ('state', ('matrix', 4, v.c) + tuple(v.e) + (tuple(d.e) if d is not None else (ZERO,) * (2 * v.c)))
