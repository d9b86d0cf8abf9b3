"""The Python bindings pass every argument where it belongs and hand back what the library returned."""
from fractions import Fraction as F
from spec import *
from bindings import *

TECHNIQUE = 'abstract interpretation of the module definitions and of every bound function (against declarations of pybind11), symbolic arguments, library calls recorded'
LEVEL_NOTE = ('pybind11 itself (conversion of arguments, overload resolution, lifetime policies) is outside; its declarations stand in for it, as it is not installed here. '
              'Lists returned by the library are taken with two entries; positions of jumps in one representative order. Names starting with two underscores are internal and not judged.')

# lower right entry of K = (2, 3; 1, ...) when the determinant is not one
DETS = {'determinant -1': 1, 'determinant 3': 3, 'determinant 0': F(3, 2)}


NONE = 'no value'
RIGHT = ('right', NONE)


# class -> method -> list of (parameters: name or (name, default); library call; arguments of it; result)
# the call's arguments are functions of the values of the parameters (v), the result is a plain value
def sides(*names):
    return lambda v: tuple(v[n] for n in names) + (state(v['left']), state(v['right'] if v['right'] is not None else v['left']))


def index_after(g):
    return lambda v: g(v) + (v['index'],)


def wrapped(name):
    return ('wrapped', 'm', name)


vec = lambda *e: ('matrix', len(e), 1) + e
rr = lambda i, j=0: sym('r%d_%d' % (i, j))


def table():
    LIST = ('list',) + tuple(('list', sym('i%d' % k), sym('E%d' % k)) for k in range(2))
    PAIRS = ('list',) + tuple(('list', sym('i%d' % k), sym('E%d' % k), wrapped('f%d' % k)) for k in range(2))
    PERLIST = ('list',) + tuple(('list', sym('i%d' % k), sym('E%d' % k), sym('m%d' % k)) for k in range(2))
    PERPAIRS = ('list',) + tuple(('list', sym('i%d' % k), sym('E%d' % k), ('list',) + tuple(wrapped('f%d%s' % (k, c)) for c in 'ab'[:k + 1])) for k in range(2))

    return {
        'AbstractPyslise': {
            'eigenvalues': [(['Emin', 'Emax', 'left', RIGHT], 'eigenvalues', sides('Emin', 'Emax'), LIST)],
            'eigenvaluesByIndex': [(['Imin', 'Imax', 'left', RIGHT], 'eigenvaluesByIndex', sides('Imin', 'Imax'), LIST)],
            'eigenpairsByIndex': [(['Imin', 'Imax', 'left', RIGHT], 'eigenpairsByIndex', sides('Imin', 'Imax'), PAIRS)],
            'eigenvalueError': [(['E', 'left', RIGHT, ('index', -1)], 'eigenvalueError', index_after(sides('E')), sym('err'))],
            'eigenfunction': [(['E', 'left', RIGHT, ('index', -1)], 'eigenfunction', index_after(sides('E')), wrapped('f0'))],
        },
        'Pyslise': {
            'propagate': [(['E', 'y', 'a', 'b'], 'propagate', lambda v: (v['E'], state(v['y']), v['a'], v['b']), ('list', vec(rr(0), rr(1)), sym('theta'))),
                          (['E', 'y', 'dy', 'a', 'b'], 'propagate', lambda v: (v['E'], state(v['y'], v['dy']), v['a'], v['b']), ('list', vec(rr(0), rr(1)), vec(rr(2), rr(3)), sym('theta')))],
        },
        'PyslisePeriodic': {
            'propagate': [(['E', 'y', 'a', 'b'], 'propagate', lambda v: (v['E'], state(v['y']), v['a'], v['b']), ('matrix', 2, 2, rr(0, 0), rr(0, 1), rr(1, 0), rr(1, 1)))],
            'eigenpairsByIndex': [(['iMin', 'iMax'], 'eigenpairsByIndex', lambda v: (v['iMin'], v['iMax']), PERPAIRS)],
            'eigenvaluesByIndex': [(['iMin', 'iMax'], 'eigenvaluesByIndex', lambda v: (v['iMin'], v['iMax']), PERLIST)],
            'eigenvalues': [(['eMin', 'eMax'], 'eigenvalues', lambda v: (v['eMin'], v['eMax']), PERLIST)],
            'eigenfunction': [(['E'], 'eigenfunction', lambda v: (v['E'],), ('list', wrapped('f0'), wrapped('f1')))],
        },
        'SturmLiouville': {
            'eigenvaluesByIndex': [(['Imin', 'Imax', 'left', RIGHT], 'eigenvaluesByIndex', sides('Imin', 'Imax'), LIST)],
            'eigenpairsByIndex': [(['Imin', 'Imax', 'left', RIGHT], 'eigenpairsByIndex', sides('Imin', 'Imax'), PAIRS)],
        },
        'LiouvilleTransformation': {
            'V': [(['x'], 'V', lambda v: (v['x'],), sym('of_x'))],
            'r2x': [(['r'], 'r2x', lambda v: (v['r'],), sym('of_x'))],
            'x2r': [(['x'], 'x2r', lambda v: (v['x'],), sym('of_x'))],
        },
        'Pyscs': {
            'propagate': [([None, None, None, None], 'propagate', None, None)],
        },
    }


FIELDS = {('PysliseSector', 'min'): 'min', ('PysliseSector', 'max'): 'max', ('PyscsSector', 'min'): 'min', ('PyscsSector', 'max'): 'max', ('Pyscs', 'min'): 'xmin', ('Pyscs', 'max'): 'xmax'}
JUMPS = ('jumps', ())
INIT = {
    'Pyslise': ['V', 'min', 'max', ('tolerance', F(1, 10 ** 8)), JUMPS],
    'PysliseHalf': ['V', 'xmax', ('tolerance', F(1, 10 ** 8))],
    'PyslisePeriodic': ['V', 'min', 'max', ('tolerance', F(1, 10 ** 8)), ('K', 'identity'), JUMPS],
    'LiouvilleTransformation': ['p', 'q', 'w', 'min', 'max'],
    'SturmLiouville': ['p', 'q', 'w', 'min', 'max', ('tolerance', F(1, 10 ** 8))],
    'Pyscs': ['V', 'dimensions', 'xmin', 'xmax', ('steps', -1), ('tolerance', -1), JUMPS],
}


class Def:
    def __init__(self, cls, cpp, kind, name, target, params, where):
        self.cls, self.cpp, self.kind, self.name, self.target, self.params, self.where = cls, cpp, kind, name, target, params, where


def definitions(P, modules):
    """what the module functions bind: interpreted, so helper functions and loops around the definitions do not matter"""
    I = Interp(P)
    out = []

    def handler(I, f, this, args, node):
        me = I.load(this)
        vs = [I.rv(a) for a in args]
        first = vs[0]
        if isinstance(first, Rec) and 'function' in first.f:
            kind, name, target, extra = 'init', '__init__', first.f['function'], vs[1:]
        else:
            kind, name, target, extra = f['n'], first.s, vs[1], vs[2:]
        params = []
        for e in extra:
            if isinstance(e, Rec) and e.cls.split('<')[0].endswith('arg'):
                params.append((e.f['name'].s,))
            elif isinstance(e, Rec) and e.cls.split('<')[0].endswith('arg_v'):
                params.append((e.f['name'].s, default(I, e.f['value'])))
        out.append(Def(me.f['name'].s, me.cls, kind, name, target, params, I.where(node)))
        return this
    for n in ('def', 'def_readonly', 'def_property_readonly', 'def_static'):
        I.opaque['pybind11::class_::' + n] = handler
    for m in modules:
        I.run(m, None, [I.new(Rec('pybind11::module_', {}), 'm')])
    return out


def default(I, v):
    if isinstance(v, Opt):
        return NONE if not v.has else 'a value'
    if isinstance(v, Vec):
        return tuple(plain(I, x) for x in v.e)
    if isinstance(v, Mat):
        return 'identity' if all(num(v.at(i, j)).const() == (i == j) for i in range(v.r) for j in range(v.c)) else plain(I, v)
    c = num(v).const()
    return c if c is not None else show(num(v))


def want_params(spec):
    return [(p,) if isinstance(p, str) else p for p in spec]


def same_default(a, b):
    if isinstance(a, F) or isinstance(b, F) or isinstance(a, int) or isinstance(b, int):
        try:
            return abs(F(a) - F(b)) <= F(1, 10 ** 20)
        except (TypeError, ValueError):
            return False
    return a == b


def check_params(d, spec):
    w = want_params(spec)
    if len(w) != len(d.params) or any(a[0] != b[0] for a, b in zip(w, d.params)):
        return 'the parameters are named %s, not %s' % (', '.join(a[0] for a in d.params), ', '.join(a[0] for a in w))
    for a, b in zip(w, d.params):
        if len(a) != len(b) or len(a) > 1 and not same_default(a[1], b[1]):
            return 'the default of %s is %s, not %s' % (a[0], b[1] if len(b) > 1 else 'missing', a[1] if len(a) > 1 else 'missing')
    return None


def body_of(target):
    if isinstance(target, Clo):
        return target.tu.funs[target.node['f']]
    if isinstance(target, Fn) and not target.f['bn'].startswith('matslise::'):
        return target.f
    return None


def invoke(M, d, values):
    """call the bound function on an object m (with arguments of the kinds its parameters have)"""
    I = M.I
    selfo = I.new(Rec('m', {'token': sym('m')}), 'm')
    if isinstance(d.target, Fn) and d.target.f['bn'].startswith('matslise::'):
        f = d.target.f
        M.calls.append((f['bn'].split('::')[-1], plain(I, I.load(selfo)), tuple(plain(I, v) for v in values), f))
        return answer(I, f['bn'].split('::')[-1], f)
    f = body_of(d.target)
    if f is None:
        raise Unsupported('a bound %s' % type(d.target).__name__)
    ps = [f['tu'].strip(p['t']) for p in f['ps']]
    shared = 'shared_ptr' in ps[0]['s']
    args = [I.new(Ptr(selfo, True)) if shared else selfo] + [I.new(v) for v in values]
    if len(ps) != len(args):
        return 'takes %d arguments' % (len(ps) - 1)
    return I.run(f, None, args)


def resolve(I, got, want):
    """compare a returned value with the expected one; wrapped eigenfunctions must keep their solver and forward to the function"""
    if isinstance(want, tuple) and want[:1] == ('wrapped',):
        if not isinstance(got, Ptr) or not isinstance(got.t, Loc):
            return 'no eigenfunction is returned'
        w = I.load(got.t)
        if not isinstance(w, Rec):
            return 'no eigenfunction is returned'
        inside = [plain(I, x) for x in w.f.values() if isinstance(x, Ptr)]
        if ('object', 'm') not in inside or not any(isinstance(x, Ptr) and x.own and plain(I, x) == ('object', 'm') for x in w.f.values()):
            return 'the eigenfunction returned does not keep its solver alive'
        if ('object', want[2]) not in inside:
            return 'the eigenfunction returned is %s instead of %s' % (inside, want[2])
        return None
    if isinstance(want, tuple) and want[:1] == ('list',) and isinstance(got, (Vec, Tup)):
        if len(got.e) != len(want) - 1:
            return '%d entries instead of %d' % (len(got.e), len(want) - 1)
        for x, w in zip(got.e, want[1:]):
            d = resolve(I, x, w)
            if d:
                return d
        return None
    return differ(plain(I, got), want, 'the result')


def method_case(C, P, d, alts):
    rule = 'the bound function passes its arguments to the library and returns the answer'
    spec = None
    for a in alts:
        if len(a[0]) == len(d.params):
            spec = a
    inst = '%s.%s(%s)' % (d.cls, d.name, ', '.join(p[0] for p in d.params))
    if spec is None:
        C.ob('parameters have their documented names, order and defaults', inst, False, d.where, 'it takes %d parameters' % len(d.params))
        return
    bad = check_params(d, spec[0])
    C.ob('parameters have their documented names, order and defaults', inst, bad is None, d.where, bad)
    C.analysed('bound functions', inst)
    names = [p[0] for p in d.params]
    for given in ([True, False] if 'right' in names else [True]):
        M = Machine(P)
        I = M.I
        vals, v = [], {}
        # by position: the parameters as documented
        for p in want_params(spec[0]):
            n = p[0]
            if n in ('left', 'y', 'dy') or n == 'right':
                x = V2(n) if d.cls != 'PyslisePeriodic' else Mat(2, 2, [sym('%s%d%d' % (n, i, j)) for i in range(2) for j in range(2)])
                v[n] = x if n != 'right' or given else None
                vals.append(x if n != 'right' else Opt(True, x) if given else Opt(False))
            else:
                v[n] = sym(n, positive=False)
                vals.append(v[n])
        got = invoke(M, d, vals)
        what = inst + ('' if given else ' without right')
        if got is None:
            C.ob(rule, what, False, d.where, 'it never returns')
            continue
        if isinstance(got, str):
            C.ob(rule, what, False, d.where, got)
            continue
        calls = [c for c in M.calls]
        if len(calls) != 1 or calls[0][0] != spec[1]:
            C.ob(rule, what, False, d.where, 'the library calls are %s instead of one of %s' % ([c[0] for c in calls], spec[1]))
            continue
        name, me, args, f = calls[0]
        bad = differ(me, ('object', 'm'), 'the object')
        want = tuple(plain_want(x) for x in spec[2](v))
        # parameters with a default may be left out
        for i, (x, w) in enumerate(zip(args, want)):
            bad = bad or differ(x, w, 'argument %d of %s' % (i + 1, f['qn']))
        if len(args) < len(want):
            bad = bad or 'only %d arguments are passed' % len(args)
        C.ob(rule, what, bad is None, d.where, bad)
        bad = resolve(I, got, spec[3])
        C.ob(rule, what + ', result', bad is None, d.where, bad)


def plain_want(x):
    return x


def call_case(C, P, d):
    """Eigenfunction.__call__"""
    f = body_of(d.target)
    M = Machine(P)
    I = M.I
    me = I.new(Rec('f', {'token': sym('f')}), 'f')
    ps = f['tu'].strip(f['ps'][1]['t'])
    many = ps['k'] == 'rec'
    x = Mat(3, 1, [sym('xs%d' % i) for i in range(3)]) if many else sym('x')
    got = I.run(f, None, [me, I.new(x)])
    want = ('matrix', 2, 3) + tuple(app('value', sym('xs%d' % i), rc(j)) for j in range(2) for i in range(3)) if many else vec(sym('value'), sym('slope'))
    bad = None
    if got is None:
        bad = 'it never returns'
    elif len(M.calls) != 1:
        bad = '%d evaluations' % len(M.calls)
    else:
        bad = differ(M.calls[0][2][0], plain(I, x), 'the argument') or differ(plain(I, got), want, 'the result')
    C.ob('an eigenfunction is evaluated where asked', 'Eigenfunction(%s)' % ('array' if many else 'number'), bad is None, d.where, bad)
    C.analysed('bound functions', 'Eigenfunction.__call__')


def init_case(C, P, d, variant=None):
    spec = INIT[d.cls]
    inst = '%s(%s)%s' % (d.cls, ', '.join(p[0] for p in d.params), ', %s' % variant if variant else '')
    if variant in (None, 'tolerance'):
        bad = check_params(d, spec)
        C.ob('parameters have their documented names, order and defaults', inst, bad is None, d.where, bad)
    M = Machine(P)
    I = M.I
    lo, a, b, hi = sym('lo'), sym('ja'), sym('jb'), sym('hi')
    below, above = sym('below'), sym('above')
    for p, q in ((below, lo), (lo, a), (a, b), (b, hi), (hi, above)):
        CTX.lt(p, q)
    tol = sym('tol', positive=True)
    steps = sym('steps', positive=True)
    CTX.lt(rc(0), tol)
    CTX.lt(rc(0), steps)
    jumps = Vec([b, below, hi, a, lo, above])
    K = Mat(2, 2, [rc(2), rc(3), rc(1), rc(2)])
    v = {'V': OFn('V'), 'p': OFn('p'), 'q': OFn('q'), 'w': OFn('w'), 'min': lo, 'xmin': lo, 'max': hi, 'xmax': hi, 'tolerance': tol, 'jumps': jumps, 'K': K, 'dimensions': sym('N'), 'steps': rc(-1)}
    if variant == 'steps':
        v['steps'], v['tolerance'], v['jumps'] = steps, rc(-1), Vec([])
    if variant == 'neither':
        v['tolerance'] = rc(-1)
    if variant == 'both':
        v['steps'] = steps
    if variant in DETS:
        v['K'] = Mat(2, 2, [rc(2), rc(3), rc(1), rc(DETS[variant])])
    f = body_of(d.target)
    got = I.run(f, None, [I.new(v[p[0]]) for p in want_params(spec)])
    rule = 'a problem is built from the arguments given'
    if variant in ('neither', 'both') or variant in DETS:
        C.ob('contradictory arguments are rejected', inst, got is None, d.where, None if got is None else 'they are accepted')
        return
    if got is None or len(M.made) != 1:
        C.ob(rule, inst, False, d.where, 'it never returns' if got is None else '%d problems are built' % len(M.made))
        return
    cls, args = M.made[0]
    want = {'Pyslise': MS, 'PysliseHalf': HALF, 'PyslisePeriodic': PER, 'LiouvilleTransformation': LT, 'SturmLiouville': SL, 'Pyscs': CS}[d.cls]
    bad = None if cls == want else 'a %s is built' % cls
    flat, builders, ks = [], [], []
    for x in args:
        if isinstance(x, Rec) and x.cls.startswith('matslise::Domain'):
            flat += [x.f['min'], x.f['max']]
        elif isinstance(x, Rec):
            builders.append(x)
        elif isinstance(x, Mat):
            ks.append(x)
        elif isinstance(x, Clo) or isinstance(x, Opt) or isinstance(x, Obj):
            raise Unsupported('argument %r' % (x,))
        else:
            flat.append(x)
    exp = {'Pyslise': ['V', 'min', 'max', 'tolerance'], 'PysliseHalf': ['V', 'xmax', 'tolerance'], 'PyslisePeriodic': ['V', 'min', 'max', 'tolerance'],
           'LiouvilleTransformation': ['min', 'max', 'p', 'q', 'w'], 'SturmLiouville': ['p', 'q', 'w', 'min', 'max', 'tolerance'], 'Pyscs': ['V', 'dimensions', 'xmin', 'xmax']}[d.cls]
    if len(flat) < len(exp):
        bad = bad or 'only %d arguments' % len(flat)
    for n, x in zip(exp, flat):
        bad = bad or differ(plain(I, x), plain(I, v[n]), 'the %s of the problem' % n)
    C.ob(rule, inst, bad is None, d.where, bad)
    if 'K' in v and d.cls == 'PyslisePeriodic':
        bad = None if len(ks) == 1 and differ(plain(I, ks[0]), plain(I, K)) is None else 'K is %s' % [text(plain(I, x)) for x in ks]
        C.ob(rule, inst + ', K', bad is None, d.where, bad)
    if d.cls in ('Pyslise', 'PyslisePeriodic', 'Pyscs'):
        if len(builders) != 1:
            C.ob(rule, inst + ', sectors', False, d.where, '%d sector builders' % len(builders))
            return
        s = builders[0]
        vecs = [x for x in s.f.values() if isinstance(x, Vec)]
        nums = [x for x in s.f.values() if isinstance(x, (R, D))]
        if variant == 'steps':
            bad = None if any(differ(x, steps) is None for x in nums) and not any(x.e for x in vecs) else 'the sectors are %s' % text(plain(I, s))
        else:
            bad = None if any(differ(x, tol) is None for x in nums) else 'the tolerance of the sectors is not the one given'
            if not vecs or differ(plain(I, vecs[0]), ('list', a, b)) is not None:
                bad = bad or 'the jumps inside the domain are given as %s' % (text(plain(I, vecs[0])) if vecs else 'nothing')
        C.ob(rule, inst + ', sectors', bad is None, d.where, bad)
    C.analysed('bound functions', inst)


def wrapper_case(C, P, f):
    """EigenfunctionWrapper::operator() forwards to the function it holds"""
    M = Machine(P)
    I = M.I
    many = f['tu'].strip(f['ps'][0]['t'])['k'] == 'rec'
    w = Rec(f['qn'].rsplit('::', 1)[0], {'nurse': Ptr(I.new(Rec('m', {'token': sym('m')}), 'm'), True), 'function': fn(I, 'f0')})
    x = Mat(3, 1, [sym('xs%d' % i) for i in range(3)]) if many else sym('x')
    got = I.run(f, I.new(w, 'w'), [I.new(x)])
    want = ('matrix', 3, 2) + tuple(app('value', sym('xs%d' % i), rc(j)) for i in range(3) for j in range(2)) if many else vec(sym('value'), sym('slope'))
    bad = 'it never returns' if got is None else '%d evaluations' % len(M.calls) if len(M.calls) != 1 else None
    bad = bad or differ(M.calls[0][1], ('object', 'f0'), 'the function') or differ(M.calls[0][2][0], plain(I, x), 'the argument') or differ(plain(I, got), want, 'the result')
    C.ob('an eigenfunction is evaluated where asked', '%s, %s' % (f['qn'], 'array' if many else 'number'), bad is None, floc(f), bad)


def cs_case(C, P, d):
    M = Machine(P)
    I = M.I
    me = I.new(Rec('m', {'token': sym('m')}), 'm')
    f = body_of(d.target)
    A, B = [Mat(2, 2, [sym('%s%d%d' % (n, i, j)) for i in range(2) for j in range(2)]) for n in 'uw']
    got = I.run(f, None, [me, I.new(sym('E')), I.new(Tup([A, B])), I.new(sym('a')), I.new(sym('b'))])
    inst = 'Pyscs.propagate'
    rule = 'the bound function passes its arguments to the library and returns the answer'
    if got is None or len(M.calls) != 1:
        C.ob(rule, inst, False, d.where, 'it never returns' if got is None else 'the library calls are %s' % [c[0] for c in M.calls])
        return
    args = M.calls[0][2]
    bad = differ(args[0], sym('E'), 'the energy') or differ(args[2], sym('a'), 'the start') or differ(args[3], sym('b'), 'the end')
    y = args[1]
    m = y[1]
    if m[1:3] != (8, 2):
        bad = bad or 'the state has %sx%s entries' % m[1:3]
    for k, x in enumerate(A.e + B.e):
        bad = bad or differ(m[3 + k], x, 'entry %d of the state' % k)
    C.ob(rule, inst, bad is None, d.where, bad)
    want = ('list', ('list', ('matrix', 2, 2) + tuple(rr(i, j) for i in range(2) for j in range(2)), ('matrix', 2, 2) + tuple(rr(2 + i, j) for i in range(2) for j in range(2))), sym('theta'))
    bad = resolve(I, got, want)
    C.ob(rule, inst + ', result', bad is None, d.where, bad)
    C.analysed('bound functions', inst)


def property_case(C, P, d):
    M = Machine(P)
    I = M.I
    inst = '%s.%s' % (d.cls, d.name)
    f = body_of(d.target)
    dom = Rec('matslise::Domain<double>', {'min': sym('lo'), 'max': sym('hi')})
    if d.name == 'domain':
        me, want = Rec('m', {'domain': dom, 'token': sym('m')}), ('list', sym('lo'), sym('hi'))
    elif d.name in ('rDomain', 'xDomain'):
        me, want = Rec('m', {'token': sym('m')}), ('list', sym(d.name[0] + 'lo'), sym(d.name[0] + 'hi'))
    elif d.name == 'forward':
        for dr in ('forward', 'backward'):
            got = I.run(f, None, [I.new(Rec('s', {'direction': direction(dr)}))])
            ok = got is (dr == 'forward')
            C.ob('properties are those of the object', '%s, %s' % (inst, dr), ok, d.where, None if ok else 'it is %s' % (got,))
        return
    elif d.name == 'v':
        n = 16
        me, want = Rec('s', {'vs': Vec([sym('v%d' % i) for i in range(n)])}), None
        got = I.run(f, None, [I.new(me)])
        p = plain(I, got)
        bad = differ(p, ('list',) + tuple(sym('v%d' % i) for i in range(len(p) - 1)), 'the list')
        C.ob('properties are those of the object', inst, bad is None, d.where, bad)
        return
    else:
        return
    got = I.run(f, None, [I.new(me)])
    bad = 'it never returns' if got is None else resolve(I, got, want)
    C.ob('properties are those of the object', inst, bad is None, d.where, bad)
    C.analysed('bound functions', inst)


def run(C):
    C.explanation = ('The functions that define the Python module are interpreted with declarations of pybind11; every definition found (class, name, bound function, parameter names and defaults) is compared with the documented interface, and each bound function is run on symbolic '
                     'arguments with the library calls recorded: the right method, each argument in its place (left and right end, energy, index, positions), right defaulting to left, and the answer handed back unchanged. Eigenfunctions returned must own a reference to their solver.')
    try:
        P = Program(only=['matslise/matslise.cpp'], bindings=('pyslise',))
    except AnalysisBroken as e:
        C.undecided('the module', str(e))
        return 0
    mods = [f for n in ('pyslise', 'pyslise_sturm_liouville', 'pyscs') for f in one(P, n)]
    box = []
    decide(C, 'module definitions', lambda: box.append(definitions(P, mods)))
    C.require(box, 'the definitions of the module could not be read')
    defs = box[-1]
    n = 0
    seen = set()
    SPEC = table()
    for d in defs:
        if d.name.startswith('__') and d.name not in ('__init__', '__call__'):
            continue
        seen.add((d.cls, d.name))
        w = '%s.%s' % (d.cls, d.name)
        if d.kind == 'init':
            for var in {'Pyscs': ('tolerance', 'steps', 'neither', 'both'), 'PyslisePeriodic': (None,) + tuple(DETS)}.get(d.cls, (None,)):
                n += decide(C, w + (' ' + var if var else ''), lambda: init_case(C, P, d, var), d.where)
        elif d.name == '__call__':
            n += decide(C, w, lambda: call_case(C, P, d), d.where)
        elif (d.cls, d.name) in FIELDS:
            ok = isinstance(d.target, MemPtr) and d.target.field == FIELDS[d.cls, d.name]
            if isinstance(d.target, MemPtr):
                C.ob('properties are those of the object', w, ok, d.where, None if ok else 'it is the member %s' % (d.target.field,))
        elif d.kind == 'def_property_readonly':
            n += decide(C, w, lambda: property_case(C, P, d), d.where)
        elif d.cls == 'Pyscs' and d.name == 'propagate':
            n += decide(C, w, lambda: cs_case(C, P, d), d.where)
        elif d.cls in SPEC and d.name in SPEC[d.cls]:
            n += decide(C, w, lambda: method_case(C, P, d, table()[d.cls][d.name]), d.where)
        else:
            C.note('not judged: %s' % w)
    for c in SPEC:
        for m in SPEC[c]:
            C.ob('the documented functions are there', '%s.%s' % (c, m), (c, m) in seen, floc(mods[0]), None if (c, m) in seen else 'it is not defined')
    for c in INIT:
        C.ob('the documented functions are there', '%s.__init__' % c, (c, '__init__') in seen, floc(mods[0]), None if (c, '__init__') in seen else 'it is not defined')
    for f in one(P, WRAP + '::operator()'):
        n += decide(C, f['qn'], lambda: wrapper_case(C, P, f), floc(f))
    C.require(n >= 15, 'too few bound functions decided (%d)' % n)
    return 60
