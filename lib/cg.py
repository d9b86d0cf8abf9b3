"""Call graph over the type-checked program (class-hierarchy analysis for virtual calls)."""
from prog import *

MAKERS = ('make_unique', 'make_shared', 'emplace_back', 'emplace', 'emplace_front', 'construct', 'allocate_shared')


def fkey(f):
    return f.get('mn') or (f['tu'].path, f['id'])


class CallGraph:
    def __init__(self, P):
        self.P = P
        self.defs = {}
        for f in P.functions():
            self.defs[fkey(f)] = f
        # overriders by mangled name
        self.over = {}
        for tu in P.tus:
            for f in tu.funs.values():
                for o in f.get('overrides') or ():
                    of = tu.funs.get(o)
                    if of is not None:
                        self.over.setdefault(fkey(of), set()).add(fkey(f))
        self.memo = {}

    def overriders(self, k, seen=None):
        seen = seen if seen is not None else set()
        for o in self.over.get(k, ()):
            if o not in seen:
                seen.add(o)
                self.overriders(o, seen)
        return seen

    def targets(self, f2, virtual):
        out = []
        ks = [fkey(f2)] + (sorted(self.overriders(fkey(f2)), key=str) if virtual and f2.get('virtual') else [])
        for k in ks:
            d = self.defs.get(k)
            if d is not None:
                out.append(d)
        return out

    def body(self, f):
        return [f.get('body'), f.get('inits')]

    def made(self, tu, node, f2):
        """repo classes constructed inside an external factory (make_unique<X>, vector<X>::emplace_back)"""
        r = []
        if f2['n'] in MAKERS:
            cand = [t['t'] for t in f2.get('a') or () if isinstance(t, dict) and 't' in t]
            if f2['n'] in ('emplace_back', 'emplace', 'emplace_front', 'construct'):
                cl = tu.recs.get(f2.get('cls')) if f2.get('cls') is not None else None
                cand = [a['t'] for a in (cl or {}).get('a') or () if 't' in a][:1]
            else:
                rt = tu.strip(f2['ret'])
                if rt['k'] == 'rec' and rt.get('r') is not None:
                    cand = [a['t'] for a in tu.recs[rt['r']].get('a') or () if 't' in a][:1]
            for c in cand:
                t = tu.strip(c)
                if t['k'] == 'rec' and t.get('r') is not None:
                    rec = tu.recs[t['r']]
                    if rec.get('repo'):
                        r.append(rec['key'])
        return r

    def ctors(self, reckey):
        return [f for f in self.defs.values() if f['kind'] == 'ctor' and f['tu'].recs[f['cls']]['key'] == reckey]

    def edges(self, f):
        """[(callee definition or external decl, node)]"""
        k = fkey(f)
        if k in self.memo:
            return self.memo[k]
        tu, out = f['tu'], []
        for b in self.body(f):
            for n in walk(b):
                kd = n.get('k')
                if kd in ('call', 'ctor', 'fun') or (kd == 'mem' and False):
                    f2 = tu.funs.get(n.get('f')) if n.get('f') is not None else None
                    if f2 is None:
                        if kd == 'fun':
                            f2 = tu.funs.get(n.get('id'))
                        if f2 is None:
                            continue
                    ts = self.targets(f2, kd != 'ctor' and not n.get('devirt'))
                    if not ts:
                        out.append((f2, n))
                    for t in ts:
                        out.append((t, n))
                    for rk in self.made(tu, n, f2):
                        for c in self.ctors(rk):
                            out.append((c, n))
                elif kd == 'lambda':
                    f2 = tu.funs.get(n.get('f'))
                    if f2 is not None:
                        for t in self.targets(f2, False) or [f2]:
                            out.append((t, n))
        self.memo[k] = out
        return out

    def reach(self, entries, stop=lambda f: False):
        """{key: (function, predecessor key)}"""
        seen = {}
        todo = []
        for e in entries:
            if fkey(e) not in seen:
                seen[fkey(e)] = (e, None)
                todo.append(e)
        while todo:
            f = todo.pop()
            if stop(f):
                continue
            for g, n in self.edges(f):
                if fkey(g) not in seen:
                    seen[fkey(g)] = (g, (fkey(f), n))
                    if g.get('body') is not None:
                        todo.append(g)
        return seen

    def path(self, seen, k):
        out = []
        while k is not None:
            f, p = seen[k]
            out.append(f['qn'])
            k = p[0] if p else None
        return ' <- '.join(out)
