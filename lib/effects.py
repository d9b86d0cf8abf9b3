"""Side-effect summaries: for every function the set of roots (this, parameter, global, shared state) whose
memory it may modify.  Flow-insensitive, interprocedural fixpoint; const is not trusted (casts and pointers are peeled)."""
from cg import *

ACCESS = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'front', 'back', 'at', 'data', 'get', 'operator[]', 'operator()', 'operator*',
          'operator->', 'block', 'row', 'col', 'rows', 'cols', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleRows', 'middleCols', 'segment', 'head', 'tail', 'array',
          'matrix', 'transpose', 'diagonal', 'coeffRef', 'coeff', 'derived', 'noalias', 'eval', 'base', 'top', 'find', 'reverse', 'real',
          'const_cast_derived', 'value', 'col', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'corner',
          'triangularView', 'selfadjointView', 'lower_bound', 'upper_bound', 'size', 'x', 'y', 'z', 'w', 'rowwise', 'colwise', 'asDiagonal'}
PASS = {'move', 'forward', 'get', 'make_move_iterator', 'make_reverse_iterator', 'as_const', 'addressof', 'ref', 'cref', 'next', 'prev', 'begin', 'end', 'rbegin',
        'rend', 'lower_bound', 'upper_bound', 'find', 'find_if', 'min_element', 'max_element', 'partition_point', 'min', 'max', 'tie', 'data', 'static_pointer_cast'}
MUTALG = {'sort', 'stable_sort', 'reverse', 'fill', 'copy', 'move', 'transform', 'for_each', 'rotate', 'unique', 'remove', 'remove_if', 'iter_swap', 'generate',
          'iota', 'partial_sort', 'nth_element', 'copy_backward', 'move_backward', 'replace', 'shuffle', 'swap_ranges', 'fill_n', 'generate_n', 'copy_n', 'partition'}
FRESH = frozenset(['fresh'])
HANDLE = re.compile(r'iterator|unique_ptr|shared_ptr|weak_ptr|Eigen::(Block|Map|Ref|VectorBlock|Transpose|Diagonal|MatrixWrapper|ArrayWrapper|Reshaped|IndexedView|'
                    r'NoAlias|TriangularView|SelfAdjointView|Reverse|VectorwiseOp|CommaInitializer)<|reference_wrapper|span<|string_view|_Vector_ref|tuple<.*&')


def handle(tu, ti):
    t = tu.ty(ti) if isinstance(ti, int) else {'k': '?'}
    if t['k'] in ('p', 'r'):
        return True
    return t['k'] == 'rec' and bool(HANDLE.search(t.get('s') or '') or 'normal_iterator' in (t.get('s') or ''))



def isref(t):
    return t['k'] in ('r', 'rr')


class Effects:
    def __init__(self, P, G, shared):
        """shared: record keys whose instances are reached through non-owning pointers by several objects"""
        self.P, self.G, self.shared = P, G, shared
        self.decl = {}      # (tu, var id) -> (decl, function)
        self.assigns = {}   # (tu, var id) -> [rhs]
        self.param = {}     # (tu, param id) -> (function, index)
        self.static = set()
        for f in G.defs.values():
            self.index(f)
        self.sum = {fkey(f): {} for f in G.defs.values()}      # root -> provenance
        self.solve()

    def index(self, f):
        tu = f['tu'].path
        for i, p in enumerate(f['ps']):
            self.param[(tu, p.get('id'))] = (f, i)
        for b in self.G.body(f):
            for n in walk(b):
                if n.get('k') == 'decl':
                    for d in n['d']:
                        if 'id' in d:
                            self.decl[(tu, d['id'])] = (d, f)
                            if d.get('static') or d.get('storage') in ('static', 'thread_local'):
                                self.static.add((tu, d['id']))
                elif n.get('k') == 'rfor':
                    d = n.get('v') or n.get('var') or {}
                    if 'id' in d:
                        self.decl[(tu, d['id'])] = (dict(d, init=n.get('r') or n.get('range')), f)
                elif n.get('k') in ('if', 'while', 'for') and isinstance(n.get('var'), dict):
                    d = n['var']
                    if 'id' in d:
                        self.decl[(tu, d['id'])] = (d, f)
                elif n.get('k') == 'bin' and n.get('op') == '=' and n['a'].get('k') == 'var':
                    self.assigns.setdefault((tu, n['a']['id']), []).append(n['b'])
                elif n.get('k') == 'call' and n.get('opcall') == '=' and n['args'] and n['args'][0].get('k') == 'var':
                    self.assigns.setdefault((tu, n['args'][0]['id']), []).append(n['args'][1])

    # roots of the object designated by a glvalue, or (ptr=True) of what a pointer/iterator/view value refers to
    def roots(self, f, e, ptr=False, depth=0, seen=()):
        tu = f['tu']
        if e is None or depth > 60:
            return FRESH
        k = e.get('k')
        go = lambda x, p=ptr: self.roots(f, x, p, depth + 1, seen)
        if k == 'cast' or k == 'expr':
            return go(e.get('e'))
        if k == 'this':
            return frozenset(['this'])
        if k == 'var':
            key = (tu.path, e['id'])
            if e.get('global') or key in self.static:
                return frozenset([('global', e['n'])])
            if key in seen:
                return FRESH
            if key in self.param:
                g, i = self.param[key]
                t = tu.ty(g['ps'][i]['t'])
                if isref(t) or ptr:
                    if g is not f and fkey(g) != fkey(f):
                        return frozenset(['outer'])      # captured parameter of the enclosing function
                    return frozenset([('param', i)])
                return FRESH
            if key in self.decl:
                d, g = self.decl[key]
                t = tu.ty(d['t']) if d.get('t') is not None else {'k': '?'}
                if isref(t):
                    return self.roots(g if g is not f else f, d.get('init'), False, depth + 1, seen + (key,))
                if ptr and handle(tu, d.get('t')):
                    r = frozenset()
                    for x in [d.get('init')] + self.assigns.get(key, []):
                        if x is not None:
                            r |= self.roots(g, x, True, depth + 1, seen + (key,))
                    return r or FRESH
                return FRESH
            return FRESH
        if k == 'mem':
            ft = tu.ty(e['t']) if e.get('t') is not None else {'k': '?'}
            b = go(e['b'], bool(e.get('arrow')))
            if ptr or isref(ft):
                st = tu.strip(e['t'])
                if st['k'] == 'p':
                    pe = tu.strip(st['e'])
                    if pe['k'] == 'rec' and pe.get('r') is not None and tu.reckey.get(pe['r']) in self.shared:
                        return frozenset(['shared'])
            return b
        if k == 'un' and e.get('op') in ('*',):
            return go(e['e'], True)
        if k == 'un' and e.get('op') == '&':
            return go(e['e'], False)
        if k == 'un':
            return go(e['e'])
        if k == 'idx':
            return go(e.get('b') or e.get('a'), True) | go(e.get('b') or e.get('a'), False)
        if k == 'cond':
            return go(e.get('a')) | go(e.get('b'))
        if k == 'bin':
            if e.get('op') == ',':
                return go(e['b'])
            if e.get('op', '').endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
                return go(e['a'])
            return (go(e['a']) | go(e['b'])) if ptr else FRESH
        if k == 'new':
            return FRESH
        if k == 'ctor':
            # a view/iterator/smart pointer built from something refers to it
            if ptr:
                r = frozenset()
                for a in e.get('args', []):
                    r |= go(a, True)
                return r or FRESH
            return FRESH
        if k == 'call':
            f2 = tu.funs.get(e.get('f'))
            args = e.get('args', [])
            obj = e.get('this')
            if obj is None and e.get('opcall') and args:
                obj, args = args[0], args[1:]
            n = f2['n'] if f2 else ''
            if f2 is not None and f2.get('repo') and self.P.definition(f2) is not None:
                # what can a repo function's result refer to: its object and its reference/pointer arguments
                rt = tu.ty(f2['ret'])
                if not (isref(rt) or handle(tu, f2['ret'])):
                    return FRESH
                r = frozenset()
                if obj is not None and not f2.get('static'):
                    r |= go(obj, bool(e.get('arrow')) or ptr and False) if e.get('arrow') else go(obj, False)
                for a, p in zip(args, f2['ps']):
                    if tu.ty(p['t'])['k'] in ('r', 'p'):
                        r |= go(a, tu.ty(p['t'])['k'] == 'p')
                return r or FRESH
            if obj is not None:
                if e.get('arrow'):
                    return go(obj, True)
                op = e.get('opcall')
                if op in ('->', '*', '[]') or n in ('get', 'operator->', 'operator*'):
                    return go(obj, True) | go(obj, False)
                return go(obj, False) | (go(obj, True) if ptr else frozenset())
            if n in PASS:
                r = frozenset()
                for a in args:
                    r |= go(a)
                return r or FRESH
            return FRESH
        if k == 'lambda' or k is None:
            return FRESH
        return FRESH

    def site(self, f, n):
        return '%s (%s)' % (f['tu'].loc(n.get('l')), f['qn'])

    def mutations(self, f):
        """[(lvalue expression, ptr, what, node)]"""
        tu = f['tu']
        for b in self.G.body(f):
            for n in walk(b):
                k = n.get('k')
                if k == 'bin' and n['op'] in ('=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='):
                    yield n['a'], False, 'assignment', n
                elif k == 'un' and n['op'] in ('++', '--', 'p++', 'p--', '++p', '--p', 'post++', 'post--', 'pre++', 'pre--'):
                    yield n['e'], False, n['op'], n
                elif k == 'delete':
                    yield n.get('e'), True, 'delete', n
                elif k in ('call', 'ctor'):
                    f2 = tu.funs.get(n.get('f'))
                    if f2 is None:
                        continue
                    args = list(n.get('args', []))
                    obj, arrow = n.get('this'), bool(n.get('arrow'))
                    if k == 'call' and obj is None and n.get('opcall') and args and f2.get('cls') is not None:
                        obj, args, arrow = args[0], args[1:], False
                    defs = self.G.targets(f2, k == 'call' and not n.get('devirt'))
                    if defs:
                        for d in defs:
                            for r, prov in list(self.sum[fkey(d)].items()):
                                if r == 'this':
                                    if k == 'call' and obj is not None:
                                        yield obj, arrow, prov, n
                                elif isinstance(r, tuple) and r[0] == 'param' and r[1] < len(args):
                                    pt = d['tu'].ty(d['ps'][r[1]]['t'])['k'] == 'p' or not isref(d['tu'].ty(d['ps'][r[1]]['t']))
                                    yield args[r[1]], pt, prov, n
                        continue
                    if k == 'call' and obj is not None and f2.get('cls') is not None and not f2.get('static'):
                        if not f2.get('const') and f2['n'] not in ACCESS and not (f2['n'].startswith('operator') and n.get('opcall') in ('[]', '()', '*', '->')):
                            yield obj, arrow, 'non-const %s' % f2['n'], n
                    elif k == 'call' and obj is None and n.get('opcall') in ('<<', '>>') and args:
                        if tu.ty(f2['ps'][0]['t'])['k'] == 'r' if f2['ps'] else False:
                            yield args[0], False, 'stream operator', n
                            args = args[1:]
                    if f2['n'] in PASS:
                        continue
                    if f2['n'] in MUTALG and k == 'call' and f2.get('cls') is None:
                        for a in args:
                            yield a, True, f2['n'], n
                    for a, p in zip(args, f2['ps'] if not (n.get('opcall') and f2.get('cls') is None) else f2['ps'][len(f2['ps']) - len(args):]):
                        t = tu.ty(p['t'])
                        if t['k'] == 'r' and not tu.ty(t['e']).get('const'):
                            if k == 'ctor':
                                continue
                            yield a, False, 'passed to %s by non-const reference' % f2['n'], n
                        elif t['k'] == 'rr' and k == 'ctor' and self.is_move(tu, a):
                            yield a, False, 'moved from', n

    def is_move(self, tu, a):
        while a.get('k') in ('cast', 'expr'):
            a = a['e']
        return a.get('k') == 'call' and (tu.funs.get(a.get('f')) or {}).get('n') == 'move'

    def solve(self):
        change = True
        rounds = 0
        while change:
            change = False
            rounds += 1
            for f in self.G.defs.values():
                s = self.sum[fkey(f)]
                for lv, ptr, what, n in self.mutations(f):
                    for r in self.roots(f, lv, ptr):
                        if r == 'fresh':
                            continue
                        if r == 'outer':
                            continue
                        if r not in s:
                            s[r] = what if ' at ' in what else '%s at %s' % (what, self.site(f, n))
                            change = True
                # a function that creates a lambda may run it: effects on this/globals/shared state carry over
                for b in self.G.body(f):
                    for n in walk(b):
                        if n.get('k') == 'lambda':
                            g = f['tu'].funs.get(n.get('f'))
                            if g is not None and fkey(g) in self.sum:
                                for r, prov in self.sum[fkey(g)].items():
                                    if r in ('this', 'shared') or isinstance(r, tuple) and r[0] == 'global':
                                        if r not in s:
                                            s[r] = prov
                                            change = True
                        elif n.get('k') in ('call', 'ctor'):
                            f2 = f['tu'].funs.get(n.get('f'))
                            if f2 is None:
                                continue
                            ds = self.G.targets(f2, n['k'] == 'call' and not n.get('devirt'))
                            for rk in self.G.made(f['tu'], n, f2):
                                ds = ds + self.G.ctors(rk)
                            for d in ds:
                                for r, prov in list(self.sum[fkey(d)].items()):
                                    if r == 'shared' or isinstance(r, tuple) and r[0] == 'global':
                                        if r not in s:
                                            s[r] = prov
                                            change = True
            if rounds > 40:
                raise AnalysisBroken('effect fixpoint did not settle')
        self.rounds = rounds
