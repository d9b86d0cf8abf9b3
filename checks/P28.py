"""Each number type keeps its own precision: no value of the wide builds passes through a narrower type."""
from cg import *
from fractions import Fraction

TECHNIQUE = 'type-based flow rule over every floating conversion of the long double and quad precision instantiations'
LEVEL_NOTE = ('Every conversion, compound assignment and converting constructor between floating types in every instantiated function of the long double '
              '(thorough: and quad) build. In functions only the automatic mesh builder reaches, mathematical functions may be computed in double: any sector width is valid '
              '(P04). Short decimal constants (at most 12 digits) are taken as tolerances and estimates.')
RANK = {'_Float16': 0, 'float': 1, 'double': 2, 'long double': 3}
EXACTCALLS = {'std::numeric_limits::epsilon', 'std::numeric_limits::infinity', 'std::numeric_limits::quiet_NaN', 'std::numeric_limits::min',
              'std::numeric_limits::max', 'std::numeric_limits::lowest', 'std::floor', 'floor', 'std::ceil', 'ceil', 'std::round', 'round', 'std::trunc',
              'trunc', 'std::nan', 'std::abs', 'fabs', 'std::fabs', 'std::max', 'std::min', 'std::copysign', 'std::ldexp', 'ldexp'}
MATH = re.compile(r'(^|::)(pow|sqrt|cbrt|exp|log|exp2|log2|log10)[lf]?$')
ROUND = re.compile(r'(^|::)(floor|ceil|round|trunc|rint|nearbyint)[lf]?$')


def number(tu, t):
    return tu.strip(t).get('s') or tu.strip(t).get('n') or ''


def rank(tu, t):
    s = number(tu, t).replace('const ', '').replace('volatile ', '').strip()
    if s in RANK:
        return RANK[s]
    if '::float128_backend' in s and s.startswith('boost::multiprecision::number<') or s in ('__float128', '_Float128'):
        return 4
    return None


def short(q):
    """is the rational a decimal of at most 12 significant digits (or exactly a double)?"""
    if q == 0:
        return True
    d = q.denominator
    if d & (d - 1) == 0 and abs(q.numerator) < 2 ** 53:
        return True
    s = abs(q)
    for _ in range(700):
        if s.denominator == 1:
            break
        s *= 10
    else:
        return False
    return len(str(s.numerator).rstrip('0')) <= 12


class Exact:
    """is a narrow expression exact: made from short constants and integers by exact operations?"""

    def __init__(self, tu, f, asg):
        self.tu, self.f, self.asg, self.busy = tu, f, asg, set()

    def const(self, n):
        """exact rational value of a constant expression, or None"""
        k = n.get('k') if isinstance(n, dict) else None
        if k == 'flt':
            s = n['src'].rstrip('fFlLqQ')
            try:
                return Fraction(s)
            except (ValueError, ZeroDivisionError):
                return Fraction(float.fromhex(n['v'])) if 'v' in n else None
        if k == 'int':
            return Fraction(int(n['v']))
        if k == 'cast':
            if n['ck'] == 'FloatingToIntegral':
                return None
            return self.const(n['e'])
        if k == 'un' and n['op'] in '+-':
            v = self.const(n['e'])
            return None if v is None else -v if n['op'] == '-' else v
        if k == 'bin' and n['op'] in '+-*/':
            a, b = self.const(n['a']), self.const(n['b'])
            if a is None or b is None or n['op'] == '/' and (b == 0 or rank(self.tu, n['t']) is None):
                return None
            return a + b if n['op'] == '+' else a - b if n['op'] == '-' else a * b if n['op'] == '*' else a / b
        if k in ('var', 'mem', 'fieldref'):
            i = self.init(n)
            return self.const(i) if i is not None else None
        return None

    def init(self, n):
        if n['k'] != 'var':
            return None
        if n.get('global'):
            v = self.tu.vars.get(n['id'])
            return v.get('init') if v else None
        a = self.asg.get(n['id'])
        return a[0] if a and len(a) == 1 and isinstance(a[0], dict) else None

    def __call__(self, n):
        """'' if exact, '?' if not decidable, otherwise the reason why not"""
        c = self.const(n)
        if c is not None:
            return '' if short(c) else 'a constant with more digits than a double holds'
        k = n.get('k')
        if k == 'cast':
            if n['ck'] == 'IntegralToFloating':
                return ''
            if n['ck'] == 'FloatingCast' and (rank(self.tu, n['e']['t']) or 0) > (rank(self.tu, n['t']) or 0):
                return 'a wider value was narrowed'
            return self(n['e'])
        if k == 'un' and n['op'] in '+-':
            return self(n['e'])
        if k == 'bin' and n['op'] in '+-*':
            return self(n['a']) or self(n['b'])
        if k == 'bin':
            return self(n['a']) or self(n['b']) or ('a quotient computed in the narrow type' if n['op'] == '/' else '?')
        if k == 'cond':
            return self(n['a']) or self(n['b']) if 'a' in n and 'b' in n else '?'
        if k == 'call':
            g = self.tu.funs.get(n.get('f'))
            if g is not None and base(g['qn']) in EXACTCALLS:
                return next((r for r in map(self, [a for a in n['args'] if isinstance(a, dict)]) if r), '')
            if g is not None and (g.get('repo') and g.get('body')):
                return '?'
            return 'computed in the narrow type (%s)' % (base(g['qn']) if g else 'call')
        if k == 'idx':
            b = n['a'] if 'a' in n else n.get('b')
            while isinstance(b, dict) and b.get('k') == 'cast':
                b = b['e']
            if isinstance(b, dict) and b.get('k') == 'var' and b.get('global'):
                v = self.tu.vars.get(b['id'])
                if v and v.get('init') is not None:
                    bad = [x for x in walk(v['init']) if x.get('k') == 'flt' and not short(Fraction(x['src'].rstrip('fFlL')))]
                    return 'a table of constants with more digits than a double holds' if bad else ''
            return '?'
        if k == 'var':
            if n['id'] in self.busy:
                return ''
            a = None if n.get('global') else self.asg.get(n['id'])
            if a and all(isinstance(x, dict) for x in a):
                self.busy.add(n['id'])
                try:
                    return next((r for r in map(self, a) if r), '')
                finally:
                    self.busy.discard(n['id'])
        return '?'


def assignments(f):
    """variable id -> expressions assigned to it in the function (None: unknown)"""
    r = {}
    for n in walk(f['body']):
        if n.get('k') == 'decl':
            for d in n['d']:
                if 'id' in d:
                    if d.get('init') is not None:
                        r.setdefault(d['id'], []).append(d['init'])
        elif n.get('k') == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            if isinstance(n['a'], dict) and n['a'].get('k') == 'var':
                r.setdefault(n['a']['id'], []).append(n['b'])
                if n['op'] == '/=':
                    r[n['a']['id']].append(None)
    return r


def only_mesh(G):
    """functions reached from the automatic mesh builder and from nowhere else in the library"""
    succ, callers = {}, {}
    for k, f in G.defs.items():
        succ[k] = {fkey(g) for g, _ in G.edges(f)} & set(G.defs)
        for t in succ[k]:
            callers.setdefault(t, set()).add(k)
    mesh = {k for k, f in G.defs.items() if '::AutomaticSectorBuilder::' in f['bn']}
    grow = True
    while grow:
        new = {t for k in mesh for t in succ[k] if t not in mesh and callers[t] <= mesh | {t}}
        grow = bool(new)
        mesh |= new
    return mesh


def check(C, P):
    G = CallGraph(P)
    mesh = only_mesh(G)
    n = wide = 0
    subjects, exempt = [], set()
    for key, f in sorted(G.defs.items(), key=lambda kf: kf[1]['qn']):
        C.analysed('functions', f['qn'])
        if key in mesh:
            C.analysed('functions that only choose automatic mesh widths (their calls of mathematical functions are exempt)', f['bn'])
            f['mesh'] = True
            exempt |= {id(x) for n2 in walk(f['body']) if n2.get('k') == 'call' and n2.get('f') is not None and MATH.search(base(f['tu'].funs[n2['f']]['qn']))
                       for a in n2['args'] for x in walk(a)}
        subjects.append(f)
    seen = set()
    for tu in P.tus:
        for v in tu.vars.values():
            if v.get('repo') and v.get('init') is not None and (v['n'], tuple(v['loc'])) not in seen:
                seen.add((v['n'], tuple(v['loc'])))
                C.analysed('initialised constants', v['n'])
                subjects.append(dict(tu=tu, qn=v['n'], bn=base(v['n']), body=v['init'], inits=None, l=v['loc'], t=v['t']))
    for f in subjects:
        tu = f['tu']
        E = None
        nodes = list(walk(f.get('inits'))) + list(walk(f['body']))
        for node in nodes:
            k = node.get('k')
            where = '%s (%s)' % (f['qn'][:120], tu.loc(node.get('l')))
            pairs = []
            if id(node) in exempt:
                continue
            if k == 'cast' and node['ck'] in ('FloatingCast', 'UserDefinedConversion', 'ConstructorConversion'):
                e = node['e']
                if 't' in e:
                    src = e['this']['t'] if node['ck'] == 'UserDefinedConversion' and e.get('k') == 'call' and isinstance(e.get('this'), dict) and 't' in e['this'] else e['t']
                    pairs.append((rank(tu, src), rank(tu, node['t']), e))
            elif k == 'ctor' and rank(tu, node['t']) == 4 and node.get('args') and isinstance(node['args'][0], dict) and 't' in node['args'][0]:
                pairs.append((rank(tu, node['args'][0]['t']), 4, node['args'][0]))
            elif k == 'bin' and node['op'] in ('+=', '-=', '*=', '/='):
                a, b = rank(tu, node['a']['t']), rank(tu, node['b']['t'])
                if a is not None and b is not None:
                    n += 1
                    C.ob('no wide value accumulates in a narrow variable', '%s at %s' % (f['qn'], tu.loc(node['l'])), a >= b, where,
                         '' if a >= b else 'compound assignment of a %s to a %s' % (number(tu, node['b']['t']), number(tu, node['a']['t'])),
                         '%s:%s' % (f['bn'], 'accumulate'))
            elif k == 'call' and node.get('f') is not None and node.get('t') is not None:
                g = tu.funs[node['f']]
                if g['n'] in ('cast', 'convert_to') and isinstance(node.get('this'), dict) and 't' in node['this']:
                    ta = [x['t'] for x in g.get('a') or () if isinstance(x, dict) and 't' in x]
                    if ta and rank(tu, ta[0]) is not None:
                        s = scalar(number(tu, node['this']['t']))
                        if s is not None:
                            n += 1
                            ok = rank(tu, ta[0]) >= s
                            C.ob('no conversion to a narrower type', '%s at %s' % (f['qn'], tu.loc(node['l'])), ok, where,
                                 '' if ok else 'converts every entry to ' + number(tu, ta[0]), '%s:cast' % f['bn'])
            if k == 'cast' and node['ck'] == 'IntegralToFloating':
                bad = truncation(tu, node['e'])
                if bad is not None:
                    n += 1
                    C.ob('no truncation inside a floating computation', '%s at %s' % (f['qn'], tu.loc(node['l'])), False, where,
                         'a floating value passes through an integer type', '%s:trunc' % f['bn'])
            for s, t, e in pairs:
                if s is None or t is None or s == t:
                    continue
                n += 1
                inst = '%s at %s: %s to %s' % (f['qn'], tu.loc(node['l']), number(tu, e['t'])[:40], number(tu, node['t'])[:40])
                if s > t:
                    if E is None:
                        E = Exact(tu, f, assignments(f))
                    c = E.const(e)
                    ok = c is not None
                    C.ob('no conversion of a computed value to a narrower type', inst, ok, where, '' if ok else 'the value loses digits', '%s:narrow' % f['bn'])
                else:
                    wide += 1
                    if E is None:
                        E = Exact(tu, f, assignments(f))
                    r = E(e)
                    if r and f.get('mesh'):
                        continue
                    if r == '?':
                        C.undecided(inst, 'origin of the narrow value')
                        continue
                    C.ob('only exact constants enter a wide computation', inst, not r, where, r, '%s:widen' % f['bn'])
    C.require(len(G.defs) > 250, 'wide instantiations present')
    C.assume('quad precision code is instantiated from the same templates as long double' if not C.thorough else 'Eigen and boost keep the scalar type they are given')
    return 30


_mat = re.compile(r'(?:Matrix|Array)<(?:const )?(long double|double|float|boost::multiprecision::number<boost::multiprecision::backends::float128_backend)')


def scalar(s):
    m = _mat.search(s)
    if m:
        return RANK.get(m.group(1), 4)
    return 4 if 'float128_backend' in s and s.startswith('boost::multiprecision::number<') else None


def truncation(tu, n):
    """a float-to-integer conversion of something not rounded, directly below integer arithmetic"""
    while isinstance(n, dict):
        k = n.get('k')
        if k == 'cast' and n['ck'] == 'FloatingToIntegral':
            e = n['e']
            while e.get('k') == 'cast':
                e = e['e']
            if e.get('k') == 'call' and e.get('f') is not None and ROUND.search(base(tu.funs[e['f']]['qn'])):
                return None
            return n
        if k == 'cast':
            n = n['e']
        elif k == 'un':
            n = n['e']
        elif k == 'call' and n.get('f') is not None and tu.funs[n['f']]['n'] in ('abs', 'max', 'min') and n['args']:
            for a in n['args']:
                r = truncation(tu, a)
                if r is not None:
                    return r
            return None
        elif k == 'bin' and n['op'] in '+-*':
            return truncation(tu, n['a']) or truncation(tu, n['b'])
        else:
            return None
    return None


def run(C):
    P = Program('all' if C.thorough else 'ld')
    C.explanation = ('For every function instantiated for a wide number type, every conversion between floating types is enumerated. A conversion to a narrower '
                     'type is a violation; a conversion from a narrower type must convert an exact constant (a decimal of at most 12 digits, an integer, or '
                     'exact operations on these); a compound assignment never computes a wide value into a narrow variable; a float-to-integer truncation '
                     'never flows straight back into a floating computation.')
    return check(C, P)
