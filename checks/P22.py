"""Nothing that is kept or returned refers to an object that no longer exists."""
from cg import *
import P01, subprocess

TECHNIQUE = 'lifetime lint over the type-checked program: escaping references, views of temporaries, by-reference closures, non-owning fields'
LEVEL_NOTE = ('Enumerates every field, return value, view-typed local and closure of every instantiated function; views are recognised by type (pointers, references, iterators, '
              'Eigen expression templates). Complemented by the compiler\'s own dangling-reference diagnostics.')

VIEW = re.compile(r'(^|[ <:])(Eigen::(Block|VectorBlock|Map|Ref|Transpose|Diagonal|MatrixWrapper|ArrayWrapper|CwiseBinaryOp|CwiseUnaryOp|CwiseTernaryOp|CwiseUnaryView|Product|Solve|'
                  r'Inverse|Reverse|Replicate|Select|PartialReduxExpr|VectorwiseOp|TriangularView|SelfAdjointView|IndexedView|Reshaped|DiagonalWrapper|CommaInitializer|'
                  r'NoAlias|KroneckerProduct|ReturnByValue|CoeffBasedProduct)<|std::(basic_string_view|reference_wrapper|span)|__gnu_cxx::__normal_iterator|std::reverse_iterator|std::initializer_list<)')
OWN = re.compile(r'^(const )?(Eigen::(Matrix|Array|EigenSolver|SelfAdjointEigenSolver|HouseholderQR|ColPivHouseholderQR|PartialPivLU)|std::(vector|array|pair|tuple|unique_ptr|optional|function|basic_string|deque|queue|map|complex)|matslise::(Y|T|Polynomial|Domain|legendre::Legendre|LiouvilleTransformation|Matslise|Matscs)|Legendre)\b')
PASSTHROUGH = {'move', 'forward', 'min', 'max', 'clamp', 'get', 'ref', 'cref', 'begin', 'end', 'rbegin', 'rend', 'as_const', 'addressof', 'data', 'tie', 'forward_as_tuple', 'minmax'}
FLAGS_W = ['-Wdangling', '-Wdangling-gsl', '-Wdangling-field', '-Wdangling-initializer-list', '-Wreturn-stack-address', '-Wuninitialized', '-Wsometimes-uninitialized',
           '-Wdelete-abstract-non-virtual-dtor', '-Wdelete-non-abstract-non-virtual-dtor', '-Winfinite-recursion', '-Wunsequenced', '-Wreturn-type']


def is_view(tu, ti):
    t = tu.ty(ti)
    if t['k'] in ('r', 'rr', 'p'):
        return True
    return t['k'] == 'rec' and bool(VIEW.search(' ' + (t.get('s') or '')[:200].split('<')[0] + '<'))


def is_own(tu, ti):
    t = tu.ty(ti)
    return t['k'] == 'rec' and bool(OWN.match(t.get('s') or '')) and not is_view(tu, ti)


class Life:
    """where does the object come from that a view expression refers to?"""

    def __init__(self, P, f, decls, params):
        self.P, self.f, self.tu, self.decls, self.params = P, f, f['tu'], decls, params

    def classy(self, a):
        return isinstance(a, dict) and a.get('t') is not None and self.tu.strip(a['t'])['k'] == 'rec'

    def origins(self, e, seen=()):
        """yields ('temporary'|'local', text) for every owner the value of e may refer to that dies with the expression / the function"""
        if not isinstance(e, dict):
            return
        tu, k = self.tu, e.get('k')
        if e.get('tmp') and e.get('t') is not None and is_own(tu, e['t']):
            yield 'temporary', tu.ty(e['t'])['s'][:80], e
            return
        if k in ('cast', 'expr'):
            yield from self.origins(e.get('e'), seen)
        elif k == 'cond':
            yield from self.origins(e.get('a'), seen)
            yield from self.origins(e.get('b'), seen)
        elif k == 'un' and e.get('op') in ('&', '*'):
            yield from self.origins(e['e'], seen)
        elif k == 'mem' and not e.get('arrow'):
            yield from self.origins(e.get('b'), seen)
        elif k == 'idx':
            yield from self.origins(e.get('a') or e.get('b'), seen)
        elif k == 'ctor':
            if e.get('t') is not None and is_view(tu, e['t']):
                for a in e.get('args', []):
                    yield from self.origins(a, seen)
        elif k == 'var' and not e.get('global'):
            i = e['id']
            if i in seen:
                return
            if i in self.params:
                t = tu.ty(self.params[i]['t'])
                if t['k'] not in ('r', 'rr', 'p') and not is_view(tu, self.params[i]['t']):
                    yield 'local', 'parameter %s' % e['n'], e
            elif i in self.decls:
                d = self.decls[i]
                if d.get('static'):
                    return
                if is_view(tu, d['t']):
                    yield from self.origins(d.get('init'), seen + (i,))
                else:
                    yield 'local', 'local %s' % e['n'], e
        elif k == 'call':
            f2 = tu.funs.get(e.get('f'))
            if f2 is None:
                return
            if not is_view(tu, f2['ret']) or f2['n'] == 'release':
                return
            args, obj = list(e.get('args', [])), e.get('this')
            if obj is None and e.get('opcall') and f2.get('cls') is not None and args:
                obj, args = args[0], args[1:]
            if obj is not None:
                if not e.get('arrow') and e.get('opcall') != '->':
                    ot = obj.get('t')
                    if not (ot is not None and tu.strip(ot)['k'] == 'rec' and re.match(r'(const )?std::(unique_ptr|shared_ptr)', tu.strip(ot)['s']) and e.get('opcall') in ('*', '->')):
                        yield from self.origins(obj, seen)
                # arguments are inputs of the member, except operands of Eigen expressions
                if VIEW.search(' ' + tu.ty(f2['ret'])['s'][:200].split('<')[0] + '<') and 'Eigen' in (f2['qn'] or ''):
                    for a in args:
                        if self.classy(a):
                            yield from self.origins(a, seen)
            elif f2['bn'].startswith(('std::', 'Eigen::')):
                for a in args:
                    if f2['n'] in PASSTHROUGH or (self.classy(a) if f2['bn'].startswith('Eigen') else a.get('t') is not None and is_view(tu, a['t'])):
                        yield from self.origins(a, seen)
            elif f2.get('repo'):
                for a, p in zip(args, f2['ps']):
                    if is_view(tu, p['t']):
                        yield from self.origins(a, seen)


def byref(lam):
    return [c['n'] for c in lam.get('caps', []) if c.get('byref') and c.get('n')]


def peel(e):
    while isinstance(e, dict) and (e.get('k') in ('cast', 'expr') or e.get('k') == 'ctor' and len(e.get('args', [])) == 1):
        e = e['e'] if e['k'] != 'ctor' else e['args'][0]
    return e


def own_nodes(f, G):
    """nodes of the function itself, not of the lambdas written inside it"""
    def go(n):
        if isinstance(n, dict):
            if 'k' in n:
                yield n
            for k, v in n.items():
                if k != 'tu' and isinstance(v, (dict, list)):
                    yield from go(v)
        elif isinstance(n, list):
            for x in n:
                yield from go(x)
    for b in G.body(f):
        yield from go(b)


def run(C):
    P = Program('all' if C.thorough else 'double')
    G = CallGraph(P)
    C.explanation = ('(1) No class of the library keeps a reference, a view or a raw pointer, except eigenfunction evaluators to the (const) solver they come from. '
                     '(2) No function returns a pointer, reference, view or Eigen expression that refers to one of its own locals, by-value parameters or temporaries. '
                     '(3) No local view or Eigen expression outlives the temporary it refers to. (4) No closure that is returned, stored or given to a constructor '
                     'captures by reference. (5) The compiler\'s own dangling/uninitialised diagnostics are silent.')
    solvers = P01.solver_classes(P)
    for k, r in sorted(P.recs.items()):
        if not r.get('repo') or r.get('lambda') or k not in solvers:
            continue
        tu = r['tu']
        for fd in r.get('fields', []):
            t = tu.ty(fd['t'])
            ok = not is_view(tu, fd['t'])
            if t['k'] == 'p':
                pe = tu.strip(t['e'])
                ok = pe['k'] == 'rec' and pe.get('r') is not None and tu.reckey[pe['r']] in solvers and bool(tu.ty(t['e']).get('const') or 'const' in t['s'])
            C.analysed('fields', '%s::%s' % (k, fd['n']))
            C.ob('fields own what they hold', '%s::%s' % (k, fd['n']), ok, tu.loc(r.get('loc')), 'keeps %s' % t['s'][:100], key='field/%s/%s' % (r['bn'], fd['n']))
    for f in sorted(G.defs.values(), key=lambda f: f['qn']):
        tu = f['tu']
        decls, params = {}, {p.get('id'): p for p in f['ps']}
        for n in own_nodes(f, G):
            if n.get('k') == 'decl':
                for d in n['d']:
                    if 'id' in d and d.get('t') is not None:
                        decls[d['id']] = d
        L = Life(P, f, decls, params)
        C.analysed('functions', f['qn'])
        bad = []
        rv = is_view(tu, f['ret']) if f.get('ret') is not None else False
        for n in own_nodes(f, G):
            k = n.get('k')
            if k == 'ret' and n.get('e') is not None:
                if rv:
                    for kind, what, e in L.origins(n['e']):
                        bad.append(('no reference to a dead object is returned', n, '%s is returned by reference' % what))
                lam = peel(n['e'])
                if isinstance(lam, dict) and lam.get('k') == 'lambda' and byref(lam):
                    bad.append(('no escaping closure captures by reference', n, 'returned closure captures %s by reference' % ', '.join(byref(lam))))
            elif k == 'decl':
                for d in n['d']:
                    if d.get('init') is not None and d.get('t') is not None and is_view(tu, d['t']):
                        for kind, what, e in L.origins(d['init']):
                            if kind == 'temporary':
                                bad.append(('no local view outlives its temporary', n, '%s refers to a temporary %s' % (d['n'], what)))
            elif k == 'bin' and n.get('op') == '=' and n['a'].get('k') == 'mem':
                lam = peel(n['b'])
                if isinstance(lam, dict) and lam.get('k') == 'lambda' and byref(lam):
                    bad.append(('no escaping closure captures by reference', n, 'stored closure captures %s by reference' % ', '.join(byref(lam))))
            elif k == 'call' and n.get('opcall') == '=' and n['args'] and n['args'][0].get('k') == 'mem':
                lam = peel(n['args'][1])
                if isinstance(lam, dict) and lam.get('k') == 'lambda' and byref(lam):
                    bad.append(('no escaping closure captures by reference', n, 'stored closure captures %s by reference' % ', '.join(byref(lam))))
            elif k == 'ctor' and n.get('f') is not None and tu.funs[n['f']].get('repo') and tu.funs[n['f']].get('cls') is not None \
                    and tu.recs[tu.funs[n['f']]['cls']]['key'] in solvers:
                for a in n.get('args', []):
                    lam = peel(a)
                    if isinstance(lam, dict) and lam.get('k') == 'lambda' and byref(lam):
                        bad.append(('no escaping closure captures by reference', n, 'closure given to a constructor captures %s by reference' % ', '.join(byref(lam))))
            elif 'field' in n and n.get('e') is not None:
                lam = peel(n['e'])
                if isinstance(lam, dict) and lam.get('k') == 'lambda' and byref(lam):
                    bad.append(('no escaping closure captures by reference', n, 'stored closure captures %s by reference' % ', '.join(byref(lam))))
        for rule, n, txt in bad:
            C.ob(rule, '%s %s' % (f['qn'], tu.loc(n.get('l'))), False, tu.loc(n.get('l') or f.get('loc')), txt, key='%s/%s' % (rule.replace(' ', '-'), f['bn']))
        C.ob('no function lets a view escape', f.get('mn') or f['qn'], not bad, tu.loc(f.get('loc')), '; '.join(b[2] for b in bad[:2]),
             key='views/%s' % f['bn'])
    # the compiler's own analyses
    for src, txt in zip(sources(), compiler_diagnostics(C)):
        rel = src[len(REPO) + 1:]
        hits = [l for l in txt.splitlines() if ': warning:' in l and (REPO + '/') in l]
        C.analysed('units through the compiler diagnostics', rel)
        C.ob('compiler reports no dangling or uninitialised object', rel, not hits, rel, '; '.join(hits[:2]))
    return 200


def compiler_diagnostics(C):
    fl = [x for x in FLAGS if x != '-Wno-everything'] + ['-Wno-everything'] + FLAGS_W

    def one(s):
        return sh(['clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++', '-fsyntax-only'] + fl + [s]).stderr
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, sources()))
