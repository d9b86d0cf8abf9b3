"""Ownership: nothing leaks, also when a user function throws; polymorphic objects are destroyed completely."""
from cg import *

TECHNIQUE = 'ownership dataflow over every allocation site; class-hierarchy rule for destructors'
LEVEL_NOTE = 'Syntactic ownership discipline over every allocation of every instantiated function: stricter than leak freedom (a raw owner that happens never to leak is reported), trusting the standard smart pointers and containers.'
RAWALLOC = {'malloc', 'calloc', 'realloc', 'strdup', 'aligned_alloc', 'operator new', 'operator new[]', 'aligned_malloc', 'handmade_aligned_malloc', 'posix_memalign'}
WRAP = re.compile(r'^(const )?std::(unique_ptr|shared_ptr)<')


def parents(f):
    """[(node, path of ancestors)] of a function"""
    def go(n, path):
        if isinstance(n, dict):
            isnode = 'k' in n
            if isnode:
                yield n, path
            for k, v in n.items():
                if k != 'tu' and isinstance(v, (dict, list)):
                    yield from go(v, path + [n] if isnode else path)
        elif isinstance(n, list):
            for x in n:
                yield from go(x, path)
    yield from go(f.get('inits'), [])
    yield from go(f.get('body'), [])


def owned(tu, path, what):
    """does the pointer produced below path go straight into a smart pointer?"""
    for n in reversed(path):
        k = n.get('k')
        if k in ('cast', 'expr') and k != 'expr':
            continue
        if k == 'ctor':
            f = tu.funs.get(n.get('f'))
            return f is not None and f.get('cls') is not None and bool(WRAP.match(tu.recs[f['cls']]['n'] if tu.recs[f['cls']]['n'].startswith('std') else tu.recs[f['cls']]['bn'] + '<'))
        if k == 'call':
            f = tu.funs.get(n.get('f'))
            if f is None or f.get('cls') is None:
                return False
            return f['n'] in ('reset',) and bool(WRAP.match(tu.recs[f['cls']]['bn'] + '<'))
        if k == 'cond':
            continue
        # a function that returns a raw pointer hands the ownership to its caller
        return k == 'ret' and what == 'release()'
    return False


def run(C):
    P = Program('all' if C.thorough else 'double')
    G = CallGraph(P)
    C.explanation = ('Every allocation expression of every instantiated library function (new, malloc family, release() of a smart pointer) must hand its '
                     'result directly to a smart pointer in the same full expression, so that no statement that may throw (every evaluation of a user '
                     'function may) separates allocation and ownership. Every polymorphic class of the library destroys derived objects completely '
                     '(virtual destructor). No field owns through a raw pointer and nothing is deleted by hand.')
    n = 0
    for f in sorted(G.defs.values(), key=lambda f: f['qn']):
        tu = f['tu']
        C.analysed('functions', f['qn'])
        for node, path in parents(f):
            k = node.get('k')
            what = None
            if k == 'new' and not node.get('placement'):
                what = 'new'
            elif k == 'call' and node.get('f') is not None:
                g = tu.funs[node['f']]
                if g['n'] in RAWALLOC and (g.get('cls') is None):
                    what = g['n']
                elif g['n'] == 'release' and g.get('cls') is not None and WRAP.match(tu.recs[g['cls']]['bn'] + '<'):
                    what = 'release()'
            elif k == 'delete':
                n += 1
                C.ob('nothing is deleted by hand', '%s %s' % (f['qn'], tu.loc(node.get('l'))), False, tu.loc(node.get('l')), 'delete expression in %s' % f['qn'],
                     key='delete/%s' % f['bn'])
                continue
            if what is None:
                continue
            n += 1
            ok = owned(tu, path, what)
            C.ob('allocation is owned before anything can throw', '%s in %s %s' % (what, f['qn'], tu.loc(node.get('l'))), ok, tu.loc(node.get('l') or f.get('loc')),
                 'the result of %s is held by a raw pointer; an exception before it is handed over leaks it' % what, key='%s/%s' % (what, f['bn']))
    npoly = 0
    for k, r in sorted(P.recs.items()):
        if r.get('repo') and r.get('poly'):
            npoly += 1
            C.analysed('polymorphic classes', k)
            C.ob('polymorphic class has a virtual destructor', k, bool(r.get('vdtor')), r['tu'].loc(r.get('loc')),
                 'deleting a derived object through %s * does not run the derived destructor' % k)
    C.require(npoly >= 8, 'only %d polymorphic classes found' % npoly)
    C.ob('allocation sites were enumerated', '%d functions' % len(G.defs), True)
    return 9
