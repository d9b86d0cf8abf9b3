"""The library never writes to standard output."""
from cg import *

TECHNIQUE = 'effect lint over the call graph: no library function refers to the standard output'
LEVEL_NOTE = 'Every instantiated library function; the standard output is recognised by std::cout/std::wcout, stdout and the C functions that imply it.'
OUT = {'cout', 'wcout', 'stdout'}
CALLS = {'printf', 'puts', 'putchar', 'vprintf', 'wprintf', 'putwchar', 'vwprintf', 'println', 'print', 'putchar_unlocked', 'perror_'}


def run(C):
    P = Program('all' if C.thorough else 'double')
    G = CallGraph(P)
    C.explanation = ('Every instantiated function of the library (also those only reachable from it) is searched for a use of the standard output '
                     'stream object or of a C function that writes to it; diagnostics go to the error stream only.')
    n = 0
    err = 0
    for f in sorted(G.defs.values(), key=lambda f: f['qn']):
        tu, bad = f['tu'], []
        C.analysed('functions', f['qn'])
        for b in G.body(f):
            for x in walk(b):
                if x.get('k') == 'var' and x.get('global') and x['n'].split('::')[-1] in OUT:
                    bad.append('%s at %s' % (x['n'], tu.loc(x.get('l'))))
                elif x.get('k') == 'var' and x.get('global') and x['n'].split('::')[-1] in ('cerr', 'clog', 'stderr'):
                    err += 1
                    C.analysed('diagnostics on the error stream', '%s %s' % (f['qn'], tu.loc(x.get('l'))))
                elif x.get('k') in ('call', 'fun'):
                    g = tu.funs.get(x.get('f') if x.get('f') is not None else x.get('id'))
                    if g is not None and g.get('cls') is None and not g.get('repo') and g['n'] in CALLS:
                        bad.append('%s at %s' % (g['n'], tu.loc(x.get('l'))))
        n += 1
        C.ob('no write to the standard output', f.get('mn') or f['qn'], not bad, tu.loc(f.get('loc')), '%s: %s' % (f['qn'], '; '.join(bad)), key='stdout/%s' % f['bn'])
    C.require(n > 150, 'too little analysed: %d functions' % n)
    return 150
