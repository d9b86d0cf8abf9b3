"""Queries leave no trace."""
from effects import *
import P01

TECHNIQUE = 'interprocedural side-effect (mod/ref) analysis over the call graph, const not trusted; static-local and global-state lint'
LEVEL_NOTE = ('Over-approximating call graph and root analysis (pointers, references, views, iterators, const_casts and mutable members are followed to '
              'the object they denote); standard library and Eigen members are classified by constness and a fixed accessor list.')
STREAMS = ('cerr', 'clog', 'cout')
IMPURE = {'rand', 'random', 'drand48', 'time', 'clock', 'now', 'getenv', 'srand', 'rand_r', 'lrand48'}


def run(C):
    P = Program('all' if C.thorough else 'double')
    G = CallGraph(P)
    cls = P01.solver_classes(P)
    E = Effects(P, G, cls)
    C.explanation = ('Side-effect summaries (this / parameter / global / shared object) computed bottom-up to a fixpoint for every instantiated function; '
                     'each public query must have an empty summary apart from its own by-reference arguments and diagnostics on the error stream, and nothing it '
                     'reaches may keep state in a static or global variable, freeze an argument in a static local, or consult clocks or random numbers.')
    names = set()
    for f in sorted(G.defs.values(), key=lambda f: f['qn']):
        if f.get('cls') is None or f['kind'] in ('ctor', 'dtor') or f.get('static') or f.get('implicit'):
            continue
        rec = f['tu'].recs[f['cls']]
        if rec['key'] not in cls or rec.get('lambda') or 'SectorBuilder' in rec['n']:
            continue
        nested = rec['n'].rsplit('::', 1)[-1] in ('Sector', 'Piece')
        if nested and not f.get('const'):
            continue
        names.add(f['bn'])
        C.analysed('queries', f['qn'])
        s = {r: p for r, p in E.sum[fkey(f)].items() if not (isinstance(r, tuple) and r[0] == 'global' and r[1] in STREAMS)
             and not (isinstance(r, tuple) and r[0] == 'param')}
        C.ob('query modifies nothing shared', '%s(%s)' % (f['qn'], ','.join(p['n'] for p in f['ps'])), not s, f['tu'].loc(f.get('loc')),
             '; '.join('modifies %s: %s' % (r if isinstance(r, str) else '%s %s' % r, p) for r, p in s.items()))
    entries = [f for f in G.defs.values() if f['bn'] in names]
    seen = G.reach(entries)
    for k, (g, p) in seen.items():
        bad = None
        if g.get('body') is None:
            if not g.get('repo') and g['n'] in IMPURE and (g['bn'].startswith('std::') or g.get('cls') is None):
                C.ob('no clock, randomness or environment', g['qn'], False, '', G.path(seen, k))
            continue
        C.analysed('functions reached', g['qn'])
        tu = g['tu']
        for b in G.body(g):
            for n in walk(b):
                if n.get('k') == 'decl':
                    for d in n['d']:
                        if d.get('static') and d.get('init') is not None:
                            for m in walk(d['init']):
                                if m.get('k') == 'this' or m.get('k') == 'var' and not m.get('global') and (tu.path, m['id']) not in E.static:
                                    bad = 'static local %s keeps a value computed from the first call (%s)' % (d['n'], tu.loc(n.get('l')))
                            t = tu.ty(d['t'])
                            if not t.get('const') and not tu.strip(d['t']).get('const'):
                                bad = 'mutable static local %s (%s)' % (d['n'], tu.loc(n.get('l')))
                elif n.get('k') == 'var' and n.get('global') and n['n'] not in STREAMS:
                    v = tu.vars.get(n['id']) or {}
                    if not tu.strip(n['t']).get('const') and not tu.ty(n['t']).get('const') and tu.ty(n['t'])['k'] != 'fn' \
                            and tu.vars.get(n['id']) is not None and not (tu.strip(v['t']).get('const')):
                        bad = 'uses the mutable global %s (%s)' % (v.get('n'), tu.loc(n.get('l')))
        C.ob('no hidden state', '%s %s' % (g['qn'], k if isinstance(k, str) else ''), bad is None, tu.loc(g.get('loc')), bad)
    for m in ('matslise::Matslise::eigenvaluesByIndex', 'matslise::Matslise::propagate', 'matslise::MatsliseHalf::eigenfunction',
              'matslise::PeriodicMatslise::eigenpairs', 'matslise::SturmLiouville::eigenpairsByIndex', 'matslise::Matscs::propagate', 'MEigenfunction::operator()',
              'EigenfunctionHalf::operator()', 'SLEigenfunction::operator()', 'matslise::Matslise::Sector::calculateT',
              'matslise::LiouvilleTransformation::z2y', 'matslise::LiouvilleTransformation::V'):
        C.require(m in names, 'query %s was not found' % m)
    return 150
