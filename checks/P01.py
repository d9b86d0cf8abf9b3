"""User supplied functions are evaluated during construction only."""
from cg import *

TECHNIQUE = 'call-graph reachability (class-hierarchy analysis): no query reaches a use of a user-function field'
LEVEL_NOTE = ('Over-approximating call graph over every explicit instantiation; trusts that a user function can only be reached through '
              'the std::function members in which the library stores it.')


def is_stdfun(tu, t):
    t = tu.strip(t)
    return t['k'] == 'rec' and t.get('r') is not None and tu.recs[t['r']]['n'].startswith('std::function')


def solver_classes(P):
    """repo classes holding a user function, the classes nested in them, their derived classes and evaluators"""
    keys = set()
    for k, r in P.recs.items():
        if r.get('repo') and not r.get('lambda') and r.get('def') and any(is_stdfun(r['tu'], f['t']) for f, r2 in P.fields(r)):
            keys.add(k)
    change = True
    while change:
        change = False
        for k, r in P.recs.items():
            if k in keys or not r.get('repo') or r.get('lambda') or not r.get('def'):
                continue
            outer = r['tu'].recs.get(r['outer'])['key'] if r.get('outer') in r['tu'].recs else None
            held = []
            for f in r.get('fields', []):
                t = r['tu'].strip(f['t'])
                while t['k'] == 'p':
                    t = r['tu'].strip(t['e'])
                if t['k'] == 'rec' and t.get('r') is not None:
                    held.append(r['tu'].reckey[t['r']])
                    for a in r['tu'].recs[t['r']].get('a') or ():
                        if 't' in a and r['tu'].strip(a['t'])['k'] == 'rec':
                            held.append(r['tu'].reckey.get(r['tu'].strip(a['t'])['r']))
            if outer in keys or set(P.allbases(r)) & keys or set(held) & keys:
                keys.add(k)
                change = True
    return keys


def run(C):
    P = Program('all' if C.thorough else 'double')
    G = CallGraph(P)
    cls = solver_classes(P)
    C.explanation = ('Call graph of every instantiated function (virtual calls resolved to all overriders, factories to the constructors of what they '
                     'make, lambdas to their bodies). For each public non-constructor member of each class that holds, contains or evaluates a problem: '
                     'no function reachable from it mentions a member in which a user function (std::function) is stored.')
    n = 0
    names = set()
    for f in sorted(G.defs.values(), key=lambda f: f['qn']):
        if f['kind'] not in ('method', 'op', 'conv') and f.get('cls') is None:
            continue
        if f.get('cls') is None or f['kind'] in ('ctor', 'dtor') or f.get('static'):
            continue
        rec = f['tu'].recs[f['cls']]
        if rec['key'] not in cls or f.get('implicit') or rec.get('lambda'):
            continue
        if 'SectorBuilder' in rec['n']:
            continue
        if f['bn'] == 'matslise::LiouvilleTransformation::V':
            continue
        names.add(f['bn'])
        C.analysed('queries', f['qn'])
        seen = G.reach([f])
        bad = None
        for k, (g, p) in seen.items():
            if g.get('body') is None:
                continue
            C.analysed('functions reached', g['qn'])
            for b in G.body(g):
                for m in walk(b):
                    if m.get('k') == 'mem' and m.get('t') is not None and is_stdfun(g['tu'], m['t']):
                        bad = 'reads the user function %s in %s (%s); reached by %s' % (m.get('f'), g['qn'], g['tu'].loc(m.get('l')), G.path(seen, k))
        n += 1
        C.ob('query never evaluates a user function', '%s%s' % (f['qn'], [p['n'] for p in f['ps']]), bad is None, f['tu'].loc(f.get('loc')), bad)
    must = ['matslise::Matslise::eigenvaluesByIndex', 'matslise::Matslise::propagate', 'matslise::Matslise::matchingError', 'matslise::MatsliseHalf::eigenfunction',
            'matslise::PeriodicMatslise::eigenpairs', 'matslise::SturmLiouville::eigenpairsByIndex', 'matslise::Matscs::propagate', 'MEigenfunction::operator()',
            'EigenfunctionHalf::operator()', 'SLEigenfunction::operator()', 'matslise::Matslise::Sector::calculateT', 'matslise::LiouvilleTransformation::z2y',
            'matslise::LiouvilleTransformation::r2x']
    for m in must:
        C.require(m in names, 'query %s was not found' % m)
    return 60
