"""The JavaScript bindings pass every argument where it belongs and hand back what the library returned."""
from fractions import Fraction as F
from spec import *
from bindings import *

TECHNIQUE = 'abstract interpretation of the module definitions and of every bound function (against declarations of embind), symbolic arguments and JavaScript values, library calls recorded'
LEVEL_NOTE = ('embind itself (conversion of arguments and value types, object lifetime) is outside; its declarations stand in for it, as it is not installed here. '
              'Lists returned by the library are taken with two entries, arrays given with three. The source text of the wrapper function is only checked to evaluate and delete its argument.')

VAL = 'emscripten::val'


class Js:
    """JavaScript values: a table of objects behind the handles (emscripten::val) that the program passes around"""

    def __init__(self, M):
        self.M, self.I, self.t = M, M.I, {}
        I = M.I
        I.ctor_opaque[VAL] = self.ctor
        for n in ('array', 'object', 'undefined', 'null', 'global', 'operator[]', 'set', 'operator()', 'new_', 'call', 'as', 'isUndefined', 'isNull', 'isArray', 'operator='):
            I.opaque[VAL + '::' + n] = getattr(self, {'operator[]': 'get', 'operator()': 'invoke', 'as': 'as_', 'global': 'global_', 'operator=': 'assign'}.get(n, n))

    def make(self, kind, v=None):
        k = 'js%d' % len(self.t)
        self.t[k] = (kind, v)
        return Rec(VAL, {'token': sym(k)})

    def of(self, x):
        """the JavaScript value behind a handle"""
        if isinstance(x, Loc):
            x = self.I.load(x)
        if isinstance(x, Rec) and x.cls == VAL:
            return self.t[show(x.f['token'])]
        return ('cpp', x)

    def ctor(self, I, rec, args, node):
        v = I.rv(args[0]) if args else None
        if isinstance(v, Rec) and v.cls == VAL:
            return v
        return self.make('cpp', v)

    def assign(self, I, f, this, args, node):
        I.store(this, I.rv(args[0]), node)
        return this

    def array(self, I, f, this, args, node):
        return self.make('array', [])

    def object(self, I, f, this, args, node):
        return self.make('object', {})

    def undefined(self, I, f, this, args, node):
        return self.make('undefined')

    def null(self, I, f, this, args, node):
        return self.make('null')

    def global_(self, I, f, this, args, node):
        return self.make('global', I.rv(args[0]).s)

    def key(self, x):
        x = self.I.rv(x)
        if isinstance(x, Str):
            return x.s
        c = num(x).const()
        if c is None:
            raise Unsupported('a symbolic key of a JavaScript value')
        return int(c)

    def get(self, I, f, this, args, node):
        kind, v = self.of(this)
        k = self.key(args[0])
        if kind == 'array' and k == 'length':
            return self.make('cpp', rc(len(v)))
        if kind == 'array' and isinstance(k, int):
            return self.wrap(v[k]) if 0 <= k < len(v) else self.make('undefined')
        if kind == 'object' and k in v:
            return self.wrap(v[k])
        raise Unsupported('property %s of a JavaScript %s' % (k, kind))

    def wrap(self, x):
        return x if isinstance(x, Rec) and x.cls == VAL else self.make('cpp', x)

    def set(self, I, f, this, args, node):
        kind, v = self.of(this)
        k, x = self.key(args[0]), I.rv(args[1])
        if kind == 'object':
            v[k] = x
        elif kind == 'array' and isinstance(k, int) and k == len(v):
            v.append(x)
        elif kind == 'array' and isinstance(k, int) and 0 <= k < len(v):
            v[k] = x
        else:
            raise Unsupported('property %s of a JavaScript %s' % (k, kind))
        return None

    def invoke(self, I, f, this, args, node):
        kind, v = self.of(this)
        xs = [self.of(a) for a in args]
        if kind == 'function' and len(xs) == 1 and xs[0][0] == 'cpp':
            return self.make('cpp', app(v, num(xs[0][1])))
        if kind == 'wrapper':
            return self.make('wrapped', I.rv(args[0]))
        raise Unsupported('a call of a JavaScript %s' % kind)

    def new_(self, I, f, this, args, node):
        kind, v = self.of(this)
        if (kind, v) == ('global', 'Function'):
            return self.make('wrapper', [I.rv(a).s for a in args])
        raise Unsupported('new %s' % (v,))

    def call(self, I, f, this, args, node):
        kind, v = self.of(this)
        n = I.rv(args[0]).s
        if kind == 'array' and n == 'push':
            v.extend(I.rv(a) for a in args[1:])
            r = self.make('cpp', rc(len(v)))
        elif (kind, v, n) == ('global', 'Array', 'isArray'):
            return self.of(args[1])[0] == 'array'
        else:
            raise Unsupported('%s of a JavaScript %s' % (n, kind))
        return r if f['tu'].strip(f['ret'])['k'] == 'rec' else rc(len(v))

    def as_(self, I, f, this, args, node):
        kind, v = self.of(this)
        if kind != 'cpp':
            raise Unsupported('a JavaScript %s as a value' % kind)
        return v

    def isUndefined(self, I, f, this, args, node):
        return self.of(this)[0] == 'undefined'

    def isNull(self, I, f, this, args, node):
        return self.of(this)[0] == 'null'

    def isArray(self, I, f, this, args, node):
        return self.of(this)[0] == 'array'

    def plain(self, x):
        """what JavaScript sees"""
        I = self.I
        if isinstance(x, Rec) and x.cls == VAL:
            kind, v = self.of(x)
            if kind == 'array':
                return ('list',) + tuple(self.plain(y) for y in v)
            if kind == 'object':
                return ('record',) + tuple((k, self.plain(y)) for k, y in sorted(v.items()))
            if kind == 'cpp':
                return self.plain(v)
            if kind == 'wrapped':
                return ('wrapped', plain(I, v))
            return (kind, v)
        x = I.rv(x)
        if isinstance(x, Mat) and x.c == 1 or isinstance(x, (Vec, Tup)):
            return ('list',) + tuple(self.plain(y) for y in x.e)
        if isinstance(x, Rec) and x.cls in self.objects:
            return ('record',) + tuple((n, self.plain(self.field(x, m))) for n, m in sorted(self.objects[x.cls].items()))
        return plain(I, x)

    def field(self, x, n):
        if n in x.f:
            return x.f[n]
        for b in x.f.values():
            if isinstance(b, Rec) and n in b.f:
                return b.f[n]
        raise Unsupported('member %s of %s' % (n, x.cls))

    objects = {}


class Def:
    def __init__(self, cls, name, target, where):
        self.cls, self.name, self.target, self.where = cls, name, target, where


def definitions(P, mods):
    I = Interp(P)
    out, objects, arrays = [], {}, {}

    def bind(I, f, this, args, node):
        me = I.load(this)
        vs = [I.rv(a) for a in args]
        if f['n'] == 'constructor':
            out.append(Def(me.f['name'].s, 'constructor', vs[0], I.where(node)))
        else:
            out.append(Def(me.f['name'].s, vs[0].s, vs[1], I.where(node)))
        return this

    def field(I, f, this, args, node):
        me = I.load(this)
        vs = [I.rv(a) for a in args]
        if not isinstance(vs[1], MemPtr):
            raise Unsupported('a field that is not a member')
        objects.setdefault(me.f['name'].s, (me.cls, {}))[1][vs[0].s] = (vs[1].field, I.where(node))
        return this

    def element(I, f, this, args, node):
        v = I.rv(args[0])
        arrays.setdefault(I.load(this).f['name'].s, []).append((v.cls if isinstance(v, Rec) else None, I.where(node)))
        return this
    for n in ('constructor', 'function', 'class_function', 'property'):
        I.opaque['emscripten::class_::' + n] = bind
    I.opaque['emscripten::value_object::field'] = field
    I.opaque['emscripten::value_array::element'] = element
    for m in mods:
        I.run(m, None, [])
    return out, objects, arrays




def table():
    evals = ('list',) + tuple(('record', ('eigenvalue', sym('E%d' % k)), ('index', sym('i%d' % k))) for k in range(2))
    pairs = ('list',) + tuple(('record', ('eigenfunction', ('wrapped', ('object', 'f%d' % k))), ('eigenvalue', sym('E%d' % k)), ('index', sym('i%d' % k))) for k in range(2))
    by_index = (['Imin', 'Imax', 'left', 'right'], 'eigenvaluesByIndex', lambda v: (v['Imin'], v['Imax'], state(v['left']), state(v['right'])), evals)
    pairs_by_index = (['Imin', 'Imax', 'left', 'right'], 'eigenpairsByIndex', by_index[2], pairs)
    error = (['E', 'left', 'right', 'index'], 'eigenvalueError', lambda v: (v['E'], state(v['left']), state(v['right']), v['index']), sym('err'))
    return {
        'AbstractMatslise': {
            'eigenfunction': (['E', 'left', 'right', 'index'], 'eigenfunction', error[2], ('wrapped', ('object', 'f0'))),
            'computeEigenfunction': (['E', 'left', 'right', 'x', 'index'], 'eigenfunction', error[2], ('list',) + tuple(app('value', sym('xs%d' % i), rc(0)) for i in range(3))),
            'eigenvaluesByIndex': by_index, 'eigenpairsByIndex': pairs_by_index, 'eigenvalueError': error},
        'SturmLiouville': {'eigenvaluesByIndex': by_index, 'eigenpairsByIndex': pairs_by_index, 'eigenvalueError': error},
        'Matslise': {'propagate': (['E', 'y', 'a', 'b'], 'propagate', lambda v: (v['E'], state(v['y']), v['a'], v['b']), ('record', ('theta', sym('theta')), ('y', ('list', rr(0), rr(1)))))},
    }


rr = lambda i, j=0: sym('r%d_%d' % (i, j))
INIT = {'Matslise': (MS, ['V', 'min', 'max', 'tolerance']), 'MatsliseHalf': (HALF, ['V', 'max', 'tolerance']), 'SturmLiouville': (SL, ['p', 'q', 'r', 'min', 'max', 'tolerance'])}
OBJECTS = {'Eigenvalue': ['index', 'eigenvalue'], 'Eigenpair': ['index', 'eigenvalue', 'eigenfunction'], 'PairDoubleDouble': ['first', 'second']}
RULE = 'the bound function passes its arguments to the library and returns the answer'


def lambda_of(d):
    if isinstance(d.target, Fn) and not d.target.f['bn'].startswith('matslise::'):
        return d.target.f
    if not isinstance(d.target, Clo):
        raise Unsupported('a bound %s' % type(d.target).__name__)
    return d.target.tu.funs[d.target.node['f']]


def machine(P, objects):
    M = Machine(P)
    J = Js(M)
    J.objects = objects
    return M, J, M.I


def method_case(C, P, objects, d, spec):
    names, call, want, result = spec
    M, J, I = machine(P, objects)
    f = lambda_of(d)
    v, args = {}, [I.new(Rec('m', {'token': sym('m')}), 'm')]
    for n in names:
        v[n] = V2(n) if n in ('left', 'right', 'y') else J.make('array', [sym('xs%d' % i) for i in range(3)]) if n == 'x' else sym(n)
        args.append(I.new(v[n]))
    inst = '%s.%s' % (d.cls, d.name)
    C.analysed('bound functions', inst)
    if len(f['ps']) != len(args):
        C.ob(RULE, inst, False, d.where, 'it takes %d arguments' % (len(f['ps']) - 1))
        return
    got = I.run(f, None, args)
    calls = [c for c in M.calls if c[0] != 'operator()']
    if got is None or len(calls) != 1 or calls[0][0] != call:
        C.ob(RULE, inst, False, d.where, 'it never returns' if got is None else 'the library calls are %s' % [c[0] for c in calls])
        return
    bad = differ(calls[0][1], ('object', 'm'), 'the object')
    w = want(v)
    for i, (x, y) in enumerate(zip(calls[0][2], w)):
        bad = bad or differ(x, y, 'argument %d of %s' % (i + 1, calls[0][3]['qn']))
    if len(calls[0][2]) < len(w):
        bad = bad or 'only %d arguments are passed' % len(calls[0][2])
    C.ob(RULE, inst, bad is None, d.where, bad)
    bad = differ(J.plain(got), result, 'the result')
    for k, s in J.t.values():
        if k == 'wrapper':
            bad = bad or wrapper(s)
    C.ob(RULE, inst + ', result', bad is None, d.where, bad)


def wrapper(s):
    if len(s) != 2:
        return 'the wrapper of eigenfunctions takes %d parameters' % (len(s) - 1)
    if s[0] + '.eval(' not in s[1] or s[0] + '.delete(' not in s[1]:
        return 'the wrapper of eigenfunctions does not evaluate and delete %s' % s[0]
    return None


def eval_case(C, P, objects, d):
    for many in (False, True):
        M, J, I = machine(P, objects)
        f = lambda_of(d)
        x = J.make('array', [sym('xs%d' % i) for i in range(3)]) if many else J.make('cpp', sym('x'))
        got = I.run(f, None, [I.new(Rec('f', {'token': sym('f')}), 'f'), I.new(x)])
        want = ('list',) + tuple(('list',) + tuple(app('value', sym('xs%d' % i), rc(j)) for j in range(2)) for i in range(3)) if many else ('list', sym('value'), sym('slope'))
        bad = 'it never returns' if got is None else '%d evaluations' % len(M.calls) if len(M.calls) != 1 else None
        bad = bad or differ(M.calls[0][1], ('object', 'f'), 'the function') or differ(M.calls[0][2][0], ('matrix', 3, 1) + tuple(sym('xs%d' % i) for i in range(3)) if many else sym('x'), 'the argument')
        bad = bad or differ(J.plain(got), want, 'the result')
        C.ob('an eigenfunction is evaluated where asked', '%s.%s, %s' % (d.cls, d.name, 'array' if many else 'number'), bad is None, d.where, bad)
    C.analysed('bound functions', '%s.%s' % (d.cls, d.name))


def points_case(C, P, objects, d):
    M, J, I = machine(P, objects)
    f = lambda_of(d)
    ss = Vec([Ptr(I.new(Rec('s', {'min': sym('p%d' % i), 'max': sym('p%d' % (i + 1))}), 's%d' % i), True) for i in range(4)])
    me = Rec('m', {'sectorCount': rc(4), 'sectors': ss, 'token': sym('m')})
    if d.cls == 'MatsliseHalf':
        me = Rec('h', {'ms': Ptr(I.new(me, 'm'), True), 'token': sym('h')})
    got = I.run(f, None, [I.new(me, 'm')])
    bad = 'it never returns' if got is None else differ(J.plain(got), ('list',) + tuple(sym('p%d' % i) for i in range(1, 4)), 'the result')
    C.ob('the points between the sectors are listed', '%s.%s' % (d.cls, d.name), bad is None, d.where, bad)
    C.analysed('bound functions', '%s.%s' % (d.cls, d.name))


def init_case(C, P, objects, d):
    cls, names = INIT[d.cls]
    M, J, I = machine(P, objects)
    f = lambda_of(d)
    v = {n: sym(n) for n in names}
    vals = [J.make('function', n) if n in 'Vpqr' else v[n] for n in names]
    inst, rule = '%s.constructor' % d.cls, 'a problem is built from the arguments given'
    C.analysed('bound functions', inst)
    if len(f['ps']) != len(vals):
        C.ob(rule, inst, False, d.where, 'it takes %d arguments' % len(f['ps']))
        return
    got = I.run(f, None, [I.new(x) for x in vals])
    if got is None or len(M.made) != 1:
        C.ob(rule, inst, False, d.where, 'it never returns' if got is None else '%d problems are built' % len(M.made))
        return
    bad = None if M.made[0][0] == cls else 'a %s is built' % M.made[0][0]
    flat = []
    for x in M.made[0][1]:
        flat += [x.f['min'], x.f['max']] if isinstance(x, Rec) and x.cls.startswith('matslise::Domain') else [x]
    if len(flat) < len(names):
        bad = bad or 'only %d arguments' % len(flat)
    for n, x in zip(names, flat):
        if n in 'Vpqr':
            at = sym('at')
            y = I.rv(I.call_value(x, [I.new(at)], f['body']))
            bad = bad or differ(plain(I, y), app(n, at), 'the function %s' % n)
        else:
            bad = bad or differ(plain(I, x), v[n], 'the %s of the problem' % n)
    C.ob(rule, inst, bad is None, d.where, bad)


def run(C):
    C.explanation = ('The functions that define the JavaScript module are interpreted with declarations of embind; each bound function found is run on symbolic arguments (and a table of JavaScript values) with the library calls recorded: the right method, each argument in its place, '
                     'and the answer handed back in the documented shape. The fields of the value objects and the elements of the arrays handed over are compared with the documented ones.')
    try:
        P = Program(only=['matslise/matslise.cpp'], bindings=('js',))
    except AnalysisBroken as e:
        C.undecided('the module', str(e))
        return 0
    mods = [f for tu in P.tus for f in tu.funs.values() if f['bn'].startswith('emscripten_bindings_') and f.get('body')]
    C.require(mods, 'no bindings found')
    box = []
    decide(C, 'module definitions', lambda: box.append(definitions(P, mods)))
    C.require(box, 'the definitions of the module could not be read')
    defs, objs, arrays = box[-1]
    where = floc(mods[0])
    for o, fields in OBJECTS.items():
        have = objs.get(o, (None, {}))[1]
        for x in fields:
            bad = None if x in have and have[x][0] == x else 'it is %s' % ('the member ' + have[x][0] if x in have else 'missing')
            C.ob('value objects have their documented fields', '%s.%s' % (o, x), bad is None, have[x][1] if x in have else where, bad)
    objects = {c[c.index('<') + 1:-1]: {n: m[0] for n, m in fs.items()} for c, fs in objs.values()}
    for a, es in arrays.items():
        if all(c for c, _ in es):
            bad = None if [c for c, _ in es] == ['emscripten::index<%d>' % i for i in range(2)] else 'they are %s' % [c for c, _ in es]
            C.ob('vectors have two elements, in order', a, bad is None, es[0][1], bad)
    SPEC = table()
    seen, n = set(), 0
    for d in defs:
        w = '%s.%s' % (d.cls, d.name)
        seen.add((d.cls, d.name))
        if d.name == 'constructor' and d.cls in INIT:
            n += decide(C, w, lambda: init_case(C, P, objects, d), d.where)
        elif d.name in SPEC.get(d.cls, ()):
            n += decide(C, w, lambda: method_case(C, P, objects, d, table()[d.cls][d.name]), d.where)
        elif d.name == 'sectorPoints':
            n += decide(C, w, lambda: points_case(C, P, objects, d), d.where)
        elif (d.cls, d.name) == ('Eigenfunction', 'eval'):
            n += decide(C, w, lambda: eval_case(C, P, objects, d), d.where)
        else:
            C.note('not judged: %s' % w)
    for c, m in [(c, m) for c in SPEC for m in SPEC[c]] + [(c, 'constructor') for c in INIT] + [('Eigenfunction', 'eval')]:
        C.ob('the documented functions are there', '%s.%s' % (c, m), (c, m) in seen, where, None if (c, m) in seen else 'it is not defined')
    C.require(n >= 8, 'too few bound functions decided (%d)' % n)
    return 30
