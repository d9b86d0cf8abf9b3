"""Overloads of the same query agree; the half-range solver rejects asymmetric boundary conditions."""
from spec import *
from cg import *

TECHNIQUE = 'gated value-graph abstract interpretation of every query overload per concrete solver; devirtualised call-cycle analysis'
LEVEL_NOTE = 'All arguments symbolic; the solver-specific implementations (two-sided full range, one-sided half range) are opaque and compared by the arguments they receive.'

QUERIES = ('eigenvalues', 'eigenvaluesByIndex', 'eigenvalueError', 'eigenfunction')


def mk_solver(I, cls):
    if 'Half' in cls:
        return I.new(Rec(cls, {'potential': OFn('V'), 'ms': Ptr(I.new(Rec('matslise::Matslise<double>', {}, 'inner')), True)}, 'half'), 'half')
    return I.new(Rec(cls, {'potential': OFn('V')}, 'full'), 'full')


def build_args(f):
    """symbolic arguments by type: integers, scalars, boundary conditions"""
    tu, args, plain, ys = f['tu'], [], [], []
    for p in f['ps']:
        t = tu.strip(p['t'])
        if t['k'] == 'rec' and base(t['n']) == 'matslise::Y':
            y = mk_y('bc%d' % len(ys), tu.recs[t['r']]['key'])
            ys.append(y)
            args.append(y)
        else:
            v = sym('arg%d' % len(plain))
            plain.append(v)
            args.append(v)
    return args, plain, ys


def cells(y):
    return list(y.f['data'].e)


def run(C):
    P = Program(only=['matslise/matslise.cpp', 'matslise/halfrange.cpp', 'matslise/abstract_matslise.cpp'])
    G = CallGraph(P)
    C.explanation = ('For the full-range and the half-range solver, each overload of each eigenvalue query inherited from the abstract solver is '
                     'interpreted over symbolic arguments with the solver\'s own implementation opaque: the implementation must be reached with exactly the '
                     'given arguments (one-sided = both sides equal), and on the half-range solver precisely the asymmetric calls must throw. The '
                     'devirtualised graph of unconditional calls on the same object has no cycle.')
    n = 0
    base_rec = one_rec(P, 'matslise::AbstractMatslise<double>')
    for cls in ('matslise::Matslise<double>', 'matslise::MatsliseHalf<double>'):
        half = 'Half' in cls
        rec = one_rec(P, cls)
        entries = [f for f in G.defs.values() if f.get('cls') is not None and f['tu'].recs[f['cls']]['n'] in (cls, base_rec['n']) and f['n'] in QUERIES + ('eigenpairsByIndex',)]
        seen_sig = set()
        for f in sorted(entries, key=lambda f: (f['qn'], len(f['ps']))):
            sig = (f['n'], tuple(f['tu'].ty(p['t'])['s'] for p in f['ps']))
            if sig in seen_sig:
                continue
            seen_sig.add(sig)
            inst = '%s::%s(%s)' % (cls, f['n'], ', '.join(p['n'] for p in f['ps']))
            C.analysed('overloads', inst)
            cyc = this_cycle(P, G, f, cls)
            C.ob('no overload calls itself endlessly', inst, cyc is None, floc(f), cyc)
            n += 1
            if f['n'] == 'eigenpairsByIndex' or cyc:
                continue
            fresh()
            I = Interp(P)
            got = []

            def leaf(I, g, this, args, node):
                vals, ys = [], []
                for p, a in zip(g['ps'], args):
                    v = I.rv(a)
                    (ys if isinstance(v, Rec) else vals).append(cells(v) if isinstance(v, Rec) else num(v))
                if len(ys) == 1:
                    ys = ys * 2
                return app('impl_' + g['n'], *(vals + ys[0] + ys[1]))
            for q in QUERIES:
                I.opaque['%s::%s' % (base(cls), q)] = leaf
            this = mk_solver(I, cls)
            args, plain, ys = build_args(f)
            v = I.run(f, this, [I.new(a) for a in args])
            l, r = cells(ys[0]), cells(ys[-1])
            eq = True
            for a, b in zip(l, r):
                eq = band(eq, compare('==', a, b))
            d = same(I.throw_cond(), bnot(eq) if half else False)
            C.ob('half range rejects exactly the asymmetric boundary conditions' if half else 'full range accepts every pair of boundary conditions',
                 inst, d is None, floc(f), d)
            n += 1
            w = app('impl_' + f['n'], *(plain_args(f, plain) + l + r))
            if v is None:
                C.ob('overload forwards its arguments unchanged', inst, False, floc(f), 'never returns')
                continue
            v1 = ite(eq, v, UNDEF) if half and len(ys) > 1 else v
            if half:
                w1 = app('impl_' + f['n'], *(plain_args(f, plain) + r + r))
                w2 = app('impl_' + f['n'], *(plain_args(f, plain) + l + l))
                d = same(v, w1) and same(v, w2)
            else:
                d = same(v, w)
            C.ob('overload forwards its arguments unchanged', inst, d is None, floc(f), d)
            n += 1
    C.require(n >= 20, 'only %d obligations' % n)
    return n


def plain_args(f, plain):
    """scalar arguments in the order in which an implementation receives them; eigenfunction and error take (E, index)"""
    return list(plain)


def one_rec(P, n):
    if n not in P.recs:
        raise AnalysisBroken('anchor vanished: class %s' % n)
    return P.recs[n]


def this_cycle(P, G, f, cls):
    """a cycle of unconditional calls on the same object, calls resolved for objects of class cls"""
    I = Interp(P)
    stack, done = [], set()

    def succ(g):
        out = []
        for b in G.body(g):
            collect(b, out)
        r = []
        for e in out:
            fe = g['tu'].funs.get(e.get('f'))
            if fe is not None:
                r.append((fe, e))
        return r

    def collect(n, out):
        if isinstance(n, list):
            for x in n:
                collect(x, out)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k in ('if', 'while', 'for', 'do', 'switch', 'lambda', 'try', 'cond', 'rfor'):
            # only what is evaluated on every execution
            for key in ('c', 'init', 'cond'):
                if key in n and k != 'lambda':
                    collect(n[key], out)
            return
        if k == 'bin' and n.get('o') in ('&&', '||'):
            collect(n.get('a'), out)
            return
        if k == 'call' and n.get('this') is not None:
            th = n['this']
            while isinstance(th, dict) and th.get('k') in ('cast', 'un', 'paren') and th.get('e') is not None:
                th = th['e']
            if isinstance(th, dict) and th.get('k') == 'this':
                out.append(n)
        for v in n.values():
            if isinstance(v, (dict, list)):
                collect(v, out)

    def visit(g, path):
        key = fkey(g)
        if key in path:
            return ' -> '.join(path[path.index(key):] + [key])
        if key in done:
            return None
        for h, e in succ(g):
            tgt = h
            if h.get('virtual') and not e.get('devirt'):
                tgt = I.final_overrider(cls, h) or h
            tgt = G.defs.get(fkey(tgt), tgt)
            if tgt.get('body') is None and not tgt.get('init'):
                continue
            r = visit(tgt, path + [key])
            if r:
                return r
        done.add(key)
        return None
    return visit(f, [])
