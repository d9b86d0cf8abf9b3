"""Gated value-graph construction over the extracted program.

Every repo function reachable from an entry is abstracted into one value graph: joins are
represented by gated (decision-diagram) values, calls are inlined or replaced by opaque
applications at the boundaries a check names, loops are unrolled as far as their exit condition
is undecided under the linear assumptions in force.  No path is enumerated and handed to a
solver, nothing is executed; equalities are decided on the normal forms of alg.py."""
import sys
from fractions import Fraction
from alg import *
import alg
from prog import base

sys.setrecursionlimit(20000)


class Dead(Exception):
    """the current program point is unreachable (always throws / returned)"""


# --------------------------------------------------------------------------- values
class Loc:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, path

    def __eq__(self, o):
        return type(o) is Loc and self.root == o.root and self.path == o.path

    def __hash__(self):
        return hash((self.root, self.path))

    def __repr__(self):
        return '&%s%s' % (self.root, ''.join('.' + str(p[1]) for p in self.path))

    def at(self, *p):
        return Loc(self.root, self.path + p)


class View:
    """rectangular selection of cells of an Eigen object in memory"""
    __slots__ = ('loc', 'cells', 'diagmat')

    def __init__(self, loc, cells):
        self.loc, self.cells = loc, tuple(tuple(r) for r in cells)
        self.diagmat = False

    @property
    def r(self):
        return len(self.cells)

    @property
    def c(self):
        return len(self.cells[0]) if self.cells else 0

    def __eq__(self, o):
        return type(o) is View and self.loc == o.loc and self.cells == o.cells

    def __hash__(self):
        return hash((self.loc, self.cells))

    def __repr__(self):
        return 'View(%r,%s)' % (self.loc, self.cells)


class Ptr:
    """pointer; target is Loc / View / Fn / None.  own: a unique_ptr"""
    __slots__ = ('t', 'own')

    def __init__(self, t, own=False):
        self.t, self.own = t, own

    def __eq__(self, o):
        return type(o) is Ptr and self.t == o.t

    def __hash__(self):
        return hash(('P', self.t))

    def __repr__(self):
        return 'null' if self.t is None else '*%r' % (self.t,)


class Ref:
    """a reference stored inside an object (reference member, tie())"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return type(o) is Ref and self.t == o.t

    def __hash__(self):
        return hash(('R', self.t))


class Rec:
    __slots__ = ('cls', 'f', 'sym')

    def __init__(self, cls, f=None, sym=None):
        self.cls, self.f, self.sym = cls, f or {}, sym

    def set(self, n, v):
        f = dict(self.f)
        f[n] = v
        return Rec(self.cls, f, self.sym)

    def __eq__(self, o):
        if self is o:
            return True
        return type(o) is Rec and self.cls == o.cls and self.sym == o.sym and self.f.keys() == o.f.keys() and \
            all(same_leaf(self.f[k], o.f[k]) or self.f[k] is o.f[k] for k in self.f)

    def __hash__(self):
        return hash((self.cls, self.sym, len(self.f)))

    def __repr__(self):
        return '%s%s{%s}' % (self.cls.split('::')[-1], '@' + self.sym if self.sym else '',
                             ', '.join('%s=%r' % kv for kv in self.f.items()))


class Vec:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)

    def __eq__(self, o):
        return self is o or (type(o) is Vec and len(self.e) == len(o.e) and
                             all(x is y or same_leaf(x, y) for x, y in zip(self.e, o.e)))

    def __hash__(self):
        return hash(('V', len(self.e)))

    def __repr__(self):
        return 'Vec' + repr(list(self.e))


class Tup:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)

    def __eq__(self, o):
        return self is o or (type(o) is Tup and len(self.e) == len(o.e) and
                             all(x is y or same_leaf(x, y) for x, y in zip(self.e, o.e)))

    def __hash__(self):
        return hash(('T', len(self.e)))

    def __repr__(self):
        return 'Tup' + repr(list(self.e))


class Mat:
    """dense Eigen object with known shape (cells row major); arr: Array (coefficient-wise) semantics"""
    __slots__ = ('r', 'c', 'e')

    def __init__(self, r, c, e):
        self.r, self.c, self.e = r, c, tuple(e)
        assert len(self.e) == r * c, (r, c, len(self.e))

    def at(self, i, j):
        return self.e[i * self.c + j]

    def set(self, i, j, v):
        e = list(self.e)
        e[i * self.c + j] = v
        return Mat(self.r, self.c, e)

    def __eq__(self, o):
        return self is o or (type(o) is Mat and self.r == o.r and self.c == o.c and
                             all(x is y or same_leaf(x, y) for x, y in zip(self.e, o.e)))

    def __hash__(self):
        return hash(('M', self.r, self.c))

    def __repr__(self):
        return 'Mat%dx%d%r' % (self.r, self.c, list(self.e))


class DiagM:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Iter:
    __slots__ = ('loc', 'i', 'rev', 'mv')

    def __init__(self, loc, i, rev=False, mv=False):
        self.loc, self.i, self.rev, self.mv = loc, i, rev, mv

    def __eq__(self, o):
        return type(o) is Iter and self.loc == o.loc and self.i == o.i and self.rev == o.rev

    def __hash__(self):
        return hash(('I', self.loc, self.rev))

    def __repr__(self):
        return 'Iter(%r,%r%s)' % (self.loc, self.i, ',rev' if self.rev else '')


class Clo:
    """lambda closure"""
    __slots__ = ('tu', 'node', 'caps', 'this', 'cid')

    def __init__(self, tu, node, caps, this, cid):
        self.tu, self.node, self.caps, self.this, self.cid = tu, node, caps, this, cid

    def __repr__(self):
        return 'Clo@%s' % self.tu.loc(self.node.get('l'))


class Fn:
    """function designator"""
    __slots__ = ('f', 'this')

    def __init__(self, f, this=None):
        self.f, self.this = f, this

    def __eq__(self, o):
        return type(o) is Fn and (self.f.get('mn') or id(self.f)) == (o.f.get('mn') or id(o.f))

    def __hash__(self):
        return hash(self.f.get('mn'))


class OFn:
    """opaque callable (a std::function given by the user, an opaque object's operator())"""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn=None):
        self.name, self.fn = name, fn

    def __eq__(self, o):
        return type(o) is OFn and self.name == o.name

    def __hash__(self):
        return hash(('OFn', self.name))

    def __repr__(self):
        return 'OFn(%s)' % (self.name,)


class Bound:
    """std::bind / member function bound to an object"""
    __slots__ = ('fn', 'args')

    def __init__(self, fn, args):
        self.fn, self.args = fn, args


class MemPtr:
    __slots__ = ('field',)

    def __init__(self, field):
        self.field = field

    def __eq__(self, o):
        return type(o) is MemPtr and o.field == self.field

    def __hash__(self):
        return hash(self.field)


class Comma:
    """Eigen comma initializer in progress"""

    def __init__(self, view):
        self.view, self.r, self.c, self.h = view, 0, 0, 0


class Str:
    def __init__(self, s):
        self.s = s


class Stream:
    def __init__(self, name):
        self.name = name


class Opt:
    """std::optional"""
    __slots__ = ('v', 'has')

    def __init__(self, has, v=None):
        self.has, self.v = has, v


class Obj:
    """opaque library object (solver, exception, ...)"""

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args

    def __repr__(self):
        return '%s%r' % (self.kind, self.args)


def is_lv(x):
    return isinstance(x, (Loc, View)) or (isinstance(x, D) and any(isinstance(l, (Loc, View)) for _, l in leaves(x)))


def cst(v):
    """python int of a constant scalar, else None"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, R):
        c = v.const()
        if c is not None and c.denominator == 1:
            return int(c)
    return None


def num(v):
    """bool -> number"""
    if v is True:
        return ONE
    if v is False:
        return ZERO
    if isinstance(v, D):
        if any(isinstance(l, bool) for _, l in leaves(v)):
            return lift(lambda x: (ONE if x else ZERO) if isinstance(x, bool) else x, v)
    return v


def truth(v):
    if isinstance(v, bool):
        return v

    def leaf(x):
        if isinstance(x, bool):
            return x
        if isinstance(x, R):
            return compare('!=', x, ZERO)
        if isinstance(x, Ptr):
            return x.t is not None
        if isinstance(x, (Clo, OFn, Bound, Fn)):
            return True
        if isinstance(x, Opt):
            return x.has
        raise Unsupported('truth value of %r' % (x,))
    return lift(leaf, v)


def merge(c, a, b):
    """gated join of two values"""
    if a is b or c is True:
        return a
    if c is False:
        return b
    ta = type(a)
    if ta is type(b):
        if ta is Rec and a.cls == b.cls and a.sym == b.sym:
            ks = list(a.f) + [k for k in b.f if k not in a.f]
            if a.sym is None and a.f.keys() != b.f.keys():
                f = {}
                for k in ks:
                    f[k] = merge(c, a.f.get(k, UNDEF), b.f.get(k, UNDEF))
                return Rec(a.cls, f)
            if a.f.keys() == b.f.keys():
                return Rec(a.cls, {k: merge(c, a.f[k], b.f[k]) for k in ks}, a.sym)
        elif ta in (Vec, Tup) and len(a.e) == len(b.e):
            return ta([merge(c, x, y) for x, y in zip(a.e, b.e)])
        elif ta is Mat and (a.r, a.c) == (b.r, b.c):
            return Mat(a.r, a.c, [merge(c, x, y) for x, y in zip(a.e, b.e)])
        elif ta is Iter and a.loc == b.loc and a.rev == b.rev:
            return Iter(a.loc, merge(c, a.i, b.i), a.rev, a.mv)
        elif ta is Opt:
            return Opt(merge(c, a.has, b.has), merge(c, a.v, b.v))
        elif ta is R or ta is NC:
            if a == b:
                return a
    return ite(c, a, b)


# --------------------------------------------------------------------------- frames
class Frame:
    def __init__(self, tu, fn, this=None):
        self.tu, self.fn, self.this = tu, fn, this
        self.vars = {}
        self.binds = {}
        self.rets = []
        self.pc = True
        self.brk = []
        self.cont = []
        self.clo = None


NULLF = None


class Interp:
    MAXLOOP = 5000
    MAXUNROLL = 80
    MAXDEPTH = 60

    def __init__(self, prog):
        self.P = prog
        self.mem = {}
        self.nroot = 0
        self.declaring = {}
        self.frames = []
        self.ctor_opaque = {}     # class -> handler(I, rec, args, node) -> value
        self.opaque = {}          # bn -> handler(I, f, this, args, node) -> value
        self.hooks = {}           # model overrides
        self.events = []
        self.gates = []
        self.globals = {}
        self.throws = []          # current function's throws: (pc, what, mem)
        self.trace = []
        self.stats = {'functions': set(), 'calls': 0, 'branches': 0, 'unrolled': 0, 'statements': 0}
        self.symhook = None       # (type, name) -> value or None
        self.loop_hook = None
        self.vtypes = {}          # declared types of the local variables met
        self.cut = None           # iterations after which the remaining paths of a loop are dropped
        self.truncated = set()
        self.litpi = False

    # ------------------------------------------------------------- memory
    def new(self, v, name=None):
        self.nroot += 1
        r = name or self.nroot
        if name and name in self.mem:
            r = '%s#%d' % (name, self.nroot)
        self.mem[r] = v
        return Loc(r)

    def where(self, node=None):
        fr = self.frames[-1] if self.frames else None
        if fr is None:
            return '?'
        l = node.get('l') if node else None
        return '%s (%s)' % (fr.tu.loc(l) if l else '?', fr.fn['qn'] if fr.fn else '')

    def abspc(self):
        c = True
        for fr in self.frames:
            c = band(c, fr.pc)
        return c

    def definite(self):
        """accesses outside a container that happen on every execution considered"""
        return [e for e in self.events if e['kind'] == 'oob' and e['cond'] is True]

    def under(self, v, fn):
        """fn on every leaf of v; events recorded meanwhile only count where the leaf is the one in force"""
        def go(x):
            self.gates.append((v, x))
            try:
                return fn(x)
            finally:
                self.gates.pop()
        return self.lift_struct(go, v)

    def event(self, kind, node, cond=True, **kw):
        if cond is False or cond is IGN:
            return
        c = band(self.abspc(), cond)
        for v, x in self.gates:
            if c is False or c is IGN:
                return
            c = band(c, v[1] if type(v) is tuple else lift(lambda l: l is x or same_leaf(l, x), v))
        if c is False or c is IGN:
            return
        kw.update(kind=kind, where=self.where(node), cond=c, assume=[x for x in CTX.cons])
        self.events.append(kw)

    def load(self, lv, node=None):
        if isinstance(lv, Loc):
            if lv.root not in self.mem:
                raise Unsupported('read of dead object %r at %s' % (lv, self.where(node)))
            v = self.mem[lv.root]
            for p in lv.path:
                v = self.step(v, p, lv, node)
            return v
        if isinstance(lv, View):
            m = self.mat(self.load(lv.loc, node))
            if isinstance(m, D):
                return lift(lambda mm: self._sel(mm, lv), m)
            return self._sel(m, lv)
        if isinstance(lv, D):
            return self.under(lv, lambda x: self.load(x, node))
        if isinstance(lv, Ref):
            return self.load(lv.t, node)
        return lv

    def _sel(self, m, lv):
        return Mat(lv.r, lv.c, [m.at(i, j) for row in lv.cells for i, j in row])

    def mat(self, v):
        """load Views stored as values"""
        while isinstance(v, (View, Loc, Ref)):
            v = self.load(v)
        return v

    def lift_struct(self, fn, d):
        """like lift for one argument, joining structured results"""
        if not isinstance(d, D):
            if d is IGN:
                return IGN
            return fn(d)
        memo = {}

        def go(x):
            if not isinstance(x, D):
                return IGN if x is IGN else fn(x)
            if id(x) in memo:
                return memo[id(x)]
            kids = [go(k) for k in x.k]
            res = IGN
            v = x.v
            for i in range(len(kids) - 1, -1, -1):
                if kids[i] is IGN:
                    continue
                if res is IGN:
                    res = kids[i]
                else:
                    sel = D.mk(v, [j == i for j in range(v.n)])
                    res = merge(sel, kids[i], res)
            memo[id(x)] = res
            return res
        return go(d)

    def step(self, v, p, lv, node):
        if isinstance(v, D):
            return self.under(v, lambda x: self.step(x, p, lv, node))
        if isinstance(v, Ref):
            v = self.load(v.t)
            return self.step(v, p, lv, node)
        if v is UNDEF or v is IGN or v is None:
            return UNDEF
        k = p[0]
        if k == 'f':
            if isinstance(v, Rec):
                if p[1] in v.f:
                    return v.f[p[1]]
                return self.symfield(v, p[1], node)
            if isinstance(v, Tup) and p[1] in ('first', 'second'):
                return v.e[0 if p[1] == 'first' else 1]
            if isinstance(v, View):
                return self.step(self.mat(v), p, lv, node)
            raise Unsupported('field %s of %s at %s' % (p[1], type(v).__name__, self.where(node)))
        if k == 'i':
            if isinstance(v, (Vec, Tup)):
                return self.index(v.e, p[1], node)
            if isinstance(v, Mat):
                return self.index(v.e, p[1], node)
            raise Unsupported('index of %s at %s' % (type(v).__name__, self.where(node)))
        if k == 'c':
            if isinstance(v, (View,)):
                v = self.mat(v)
            if isinstance(v, Mat):
                return v.at(p[1], p[2])
            raise Unsupported('cell of %s at %s' % (type(v).__name__, self.where(node)))
        if k == 'o':
            if isinstance(v, Opt):
                return v.v
        raise Unsupported('step %r' % (p,))

    def index(self, e, i, node):
        n = len(e)
        c = cst(i)
        if c is not None:
            if 0 <= c < n:
                return e[c]
            self.event('oob', node, index=i, size=n)
            return UNDEF

        def leaf(x):
            cc = cst(x)
            if cc is not None:
                if 0 <= cc < n:
                    return e[cc]
                return UNDEF
            res = UNDEF
            for k in range(n - 1, -1, -1):
                t = compare('==', x, rc(k))
                res = merge(t, e[k], res) if res is not UNDEF or t is not True else e[k]
            return res
        bad = lift(lambda x: (not (0 <= cst(x) < n)) if cst(x) is not None else
                   bor(compare('<', x, ZERO), compare('>=', x, rc(n))), i)
        self.event('oob', node, bad, index=i, size=n)
        return self.lift_struct(leaf, i)

    def symfield(self, rec, name, node):
        if rec.sym is None:
            return UNDEF
        r = self.P.recs.get(rec.cls)
        if r is None:
            raise Unsupported('fields of %s at %s' % (rec.cls, self.where(node)))
        for f, owner in self.P.fields(r):
            if f['n'] == name:
                return self.make_sym(owner['tu'], f['t'], '%s.%s' % (rec.sym, name))
        raise Unsupported('no field %s in %s' % (name, rec.cls))

    def store(self, lv, val, node=None):
        if isinstance(lv, Loc):
            if lv.root not in self.mem:
                raise Unsupported('write to dead object %r' % (lv,))
            self.mem[lv.root] = self.upd(self.mem[lv.root], lv.path, val, node)
            return
        if isinstance(lv, View):
            self.store_view(lv, val, node)
            return
        if isinstance(lv, Ref):
            return self.store(lv.t, val, node)
        if isinstance(lv, D):
            olds = {}
            for cond, l in self.leafconds(lv):
                self.gates.append((('when', cond), l))
                try:
                    self.store(l, merge(cond, val, self.load(l)), node)
                finally:
                    self.gates.pop()
            return
        if lv is UNDEF or lv is IGN:
            self.event('null', node, True)
            return
        raise Unsupported('store to %r at %s' % (lv, self.where(node)))

    def leafconds(self, d):
        """[(condition, leaf)] with distinct leaves"""
        out = []
        for _, l in leaves(d):
            if not any(same_leaf(l, o) for o in out):
                out.append(l)
        return [(lift(lambda x, l=l: same_leaf(x, l), d), l) for l in out]

    def upd(self, v, path, val, node):
        if not path:
            if isinstance(v, View) and not isinstance(val, View):
                self.store_view(v, val, node)
                return v
            return val
        if isinstance(v, D):
            return self.under(v, lambda x: self.upd(x, path, val, node))
        if isinstance(v, Ref):
            raise Unsupported('write through embedded reference')
        p, rest = path[0], path[1:]
        k = p[0]
        if v is UNDEF:
            return UNDEF
        if k == 'f':
            if isinstance(v, Rec):
                old = self.step(v, p, None, node) if rest or p[1] in v.f else None
                if isinstance(old, Ref):
                    self.store(Loc(old.t.root, old.t.path + rest) if isinstance(old.t, Loc) else old.t, val, node)
                    return v
                return v.set(p[1], self.upd(old, rest, val, node) if rest else val)
            if isinstance(v, Tup):
                i = 0 if p[1] == 'first' else 1
                e = list(v.e)
                e[i] = self.upd(e[i], rest, val, node)
                return Tup(e)
        if k == 'i':
            c = cst(p[1])
            if isinstance(v, (Vec, Tup, Mat)):
                e = list(v.e)
                if c is not None:
                    if not 0 <= c < len(e):
                        self.event('oob', node, index=p[1], size=len(e))
                        return v
                    e[c] = self.upd(e[c], rest, val, node)
                else:
                    bad = lift(lambda x: (not (0 <= cst(x) < len(e))) if cst(x) is not None else
                               bor(compare('<', x, ZERO), compare('>=', x, rc(len(e)))), p[1])
                    self.event('oob', node, bad, index=p[1], size=len(e))
                    for j in range(len(e)):
                        t = compare('==', p[1], rc(j))
                        if t is False:
                            continue
                        e[j] = merge(t, self.upd(e[j], rest, val, node), e[j])
                return Mat(v.r, v.c, e) if isinstance(v, Mat) else type(v)(e)
        if k == 'c':
            if isinstance(v, Mat):
                return v.set(p[1], p[2], val)
            if isinstance(v, View):
                i, j = v.cells[p[1]][p[2]]
                self.store(v.loc.at(('c', i, j)), val, node)
                return v
        if k == 'o' and isinstance(v, Opt):
            return Opt(v.has, self.upd(v.v, rest, val, node))
        raise Unsupported('update %r of %s at %s' % (p, type(v).__name__, self.where(node)))

    def store_view(self, view, val, node):
        val = self.mat(val)
        if isinstance(val, D):
            # same shapes: push down
            val = self.lift_struct(lambda x: x, val)
        m = self.load(view.loc, node)
        if isinstance(m, View):
            view = View(m.loc, [[m.cells[i][j] for i, j in row] for row in view.cells])
            return self.store_view(view, val, node)
        if isinstance(m, D):
            self.store(view.loc, self.lift_struct(lambda x: self._put(x, view, val, node), m), node)
        else:
            self.store(view.loc, self._put(m, view, val, node), node)

    def _put(self, m, view, val, node):
        if m is UNDEF:
            raise Unsupported('writing into an uninitialised matrix at %s' % self.where(node))
        if isinstance(val, Mat):
            if (val.r, val.c) != (view.r, view.c):
                if val.r * val.c == view.r * view.c and (val.r == 1 or val.c == 1) and (view.r == 1 or view.c == 1):
                    val = Mat(view.r, view.c, val.e)
                else:
                    raise Unsupported('shape mismatch %dx%d <- %dx%d at %s' % (view.r, view.c, val.r, val.c, self.where(node)))
            e = list(m.e)
            for a in range(view.r):
                for b in range(view.c):
                    i, j = view.cells[a][b]
                    e[i * m.c + j] = val.at(a, b)
            return Mat(m.r, m.c, e)
        raise Unsupported('matrix store of %s at %s' % (type(val).__name__, self.where(node)))

    # ------------------------------------------------------------- symbolic objects
    def make_sym(self, tu, tid, name):
        if self.symhook:
            r = self.symhook(tu, tid, name)
            if r is not None:
                return r
        t = tu.ty(tid)
        while t['k'] in ('r', 'rr'):
            tid = t['e']
            t = tu.ty(tid)
        k = t['k']
        if k == 'b':
            if t['n'] == 'bool':
                return bvar(name)
            return sym(name)
        if k == 'enum':
            return sym(name)
        if k == 'rec':
            bn = base(t['n'])
            if bn in ('Eigen::Matrix', 'Eigen::Array'):
                r, c = t['a'][1].get('i'), t['a'][2].get('i')
                if r is not None and c is not None and r > 0 and c > 0:
                    et = t['a'][0]['t']
                    return Mat(r, c, [self.make_sym(tu, et, '%s(%d,%d)' % (name, i, j)) for i in range(r) for j in range(c)])
                raise Unsupported('symbolic dynamic matrix %s' % name)
            if bn == 'std::array':
                n = t['a'][1]['i']
                return Vec([self.make_sym(tu, t['a'][0]['t'], '%s[%d]' % (name, i)) for i in range(n)])
            if bn == 'std::function':
                return OFn(name)
            if bn in ('std::pair', 'std::tuple'):
                return Tup([self.make_sym(tu, a['t'], '%s.%d' % (name, i)) for i, a in enumerate(t['a'])])
            rec = tu.recs.get(t.get('r'))
            if rec is not None and rec.get('repo'):
                return Rec(rec['key'], {}, name)
        if k == 'arr':
            n = t.get('size')
            return Vec([self.make_sym(tu, t['e'], '%s[%d]' % (name, i)) for i in range(n)])
        if k == 'p':
            raise Unsupported('symbolic pointer %s' % name)
        raise Unsupported('symbolic value of type %s for %s' % (t.get('s'), name))

    def default(self, tu, tid, node=None, value_init=False):
        """default-initialised value of a type"""
        t = tu.ty(tid)
        k = t['k']
        if k in ('b', 'enum'):
            if not value_init:
                return UNDEF
            return False if t.get('n') == 'bool' else ZERO
        if k == 'p':
            return Ptr(None) if value_init else UNDEF
        if k == 'mp':
            return UNDEF
        if k == 'arr':
            return Vec([self.default(tu, t['e'], node, value_init) for _ in range(t['size'])])
        if k == 'rec':
            bn = base(t['n'])
            if bn.startswith('std::') or bn.startswith('Eigen::') or bn.startswith('__gnu_cxx'):
                import models
                return models.construct(self, tu, tid, [], node)
            rec = tu.recs[t['r']]
            return self.construct_repo(rec, [], None, node)
        raise Unsupported('default value of %s' % t.get('s'))

    # ------------------------------------------------------------- calls
    def construct_repo(self, rec, args, ctor=None, node=None, at=None):
        """construct an object of a repo class; returns its value (or constructs at Loc `at`)"""
        rec = self.P.recs.get(rec['key'], rec)
        tu = rec['tu']
        loc = at or self.new(None)
        if ctor is None:
            cands = [tu.funs[m] for m in rec.get('methods', []) if tu.funs[m].get('kind') == 'ctor']
            cands = [c for c in cands if not c.get('deleted')]
            if len(args) == 1 and self.same_class(args[0], rec['key']):
                return self.finish(loc, self.load(args[0]), at)

            def fits(c):
                n = len(c['ps'])
                req = sum(1 for p in c['ps'] if 'def' not in p)
                return req <= len(args) <= n and not ((c.get('copy') or c.get('move')) and len(args) == 1)
            cands2 = [c for c in cands if fits(c)]
            withdef = [c for c in cands2 if (self.P.definition(c) is not None) or c.get('defaulted')]
            cands2 = withdef or cands2
            if len(cands2) > 1:
                cands2 = [c for c in cands2 if self.argsfit(c, args)] or cands2
            if not cands2 and not args:
                ctor = None
            elif not cands2:
                # aggregate
                return self.finish(loc, self.aggregate(rec, args), at)
            else:
                ctor = cands2[0]
        self.mem[loc.root] = self.upd(self.mem[loc.root], loc.path, Rec(rec['key'], {}), node)
        self.run_ctor(rec, ctor, loc, args, node)
        if at is None:
            v = self.mem[loc.root]
            return v
        return loc

    def argsfit(self, c, args):
        for p, a in zip(c['ps'], args):
            t = c['tu'].strip(p['t'])
            a = self.load(a) if is_lv(a) else a
            sc = isinstance(a, (R, bool)) or (isinstance(a, D) and all(isinstance(l, (R, bool)) for _, l in leaves(a)))
            if t['k'] == 'b' and not sc:
                return False
            if t['k'] == 'rec' and sc:
                return False
            if t['k'] == 'rec' and isinstance(a, Rec):
                r = c['tu'].recs.get(t.get('r'))
                if r is not None and r['key'] != a.cls and r['key'] not in self.P.allbases(self.P.recs.get(a.cls, r)):
                    return False
        return True

    def finish(self, loc, v, at):
        self.mem[loc.root] = self.upd(self.mem[loc.root], loc.path, v, None)
        return v if at is None else loc

    def same_class(self, a, key):
        v = self.load(a) if is_lv(a) else a
        if isinstance(v, D):
            return all(isinstance(l, Rec) and l.cls == key for _, l in leaves(v))
        return isinstance(v, Rec) and v.cls == key

    def aggregate(self, rec, args):
        fs = self.P.fields(rec)
        f = {}
        for i, (fld, owner) in enumerate(fs):
            if i < len(args):
                f[fld['n']] = self.rv(args[i])
            else:
                f[fld['n']] = self.default(owner['tu'], fld['t'], None, True)
        return Rec(rec['key'], f)

    def run_ctor(self, rec, ctor, loc, args, node):
        tu = rec['tu']
        h = self.ctor_opaque.get(rec['bn'])
        if h is not None:
            r = h(self, rec, args, node)
            if r is not NotImplemented:
                self.store(loc, r, node)
                return
        d = self.P.definition(ctor) if ctor is not None else None
        if d is None and ctor is not None and not (ctor.get('defaulted') or ctor.get('implicit')):
            raise Unsupported('no definition of constructor %s at %s' % (ctor['qn'], self.where(node)))
        fr = None
        if d is not None:
            fr = self.enter(d, loc, args, node)
            inits = d.get('inits') or []
        else:
            fr = Frame(tu, ctor or {'qn': rec['key'], 'ret': None}, loc)
            self.frames.append(fr)
            inits = (ctor or {}).get('inits') or []
        saved = self.throws
        self.throws = []
        try:
            done = set()
            delegated = False
            for ini in inits:
                e = ini['e']
                if ini.get('delegate'):
                    self.init_object(loc, e)
                    delegated = True
                elif 'base' in ini:
                    self.init_object(loc, e)
                    done.add(('base', ini['base']))
                else:
                    done.add(ini['field'])
                    self.init_field(fr.tu, rec, loc, ini['field'], e)
            if not delegated:
                if d is None:
                    for b in rec.get('bases', []):
                        br = tu.recs[b]
                        br = self.P.recs.get(br['key'], br)
                        if ('base', b) not in done:
                            self.run_ctor_default(br, loc, node)
                for f in rec.get('fields', []):
                    if f['n'] in done:
                        continue
                    if f.get('init') is not None:
                        fr2 = Frame(tu, {'qn': rec['key'], 'ret': None}, loc)
                        self.frames.append(fr2)
                        try:
                            self.init_field(tu, rec, loc, f['n'], f['init'])
                        finally:
                            self.frames.pop()
                    else:
                        t = tu.ty(f['t'])
                        cur = self.load(loc)
                        if isinstance(cur, Rec) and f['n'] not in cur.f:
                            v = self.default(tu, f['t'], node)
                            self.store(loc.at(('f', f['n'])), v)
            if d is not None and d.get('body') is not None:
                self.run_body(fr, d['body'])
        finally:
            self.frames.pop()
            mine, self.throws = self.throws, saved
        self.propagate_throws(mine)

    def run_ctor_default(self, rec, loc, node):
        cands = [rec['tu'].funs[m] for m in rec.get('methods', []) if rec['tu'].funs[m].get('defaultctor')]
        self.run_ctor(rec, cands[0] if cands else None, loc, [], node)

    def init_object(self, loc, e):
        """construct a base/delegated object in place from its initialiser expression"""
        fr = self.frames[-1]
        while e['k'] == 'cast':
            e = e['e']
        if e['k'] == 'ctor':
            f = fr.tu.funs[e['f']]
            d = self.P.definition(f) or f
            rec = d['tu'].recs[d['cls']]
            rec = self.P.recs.get(rec['key'], rec)
            bn = rec['bn']
            if bn.startswith('std::'):
                return
            args = [self.arg(a, p) for a, p in zip(e['args'], f['ps'])]
            if (f.get('copy') or f.get('move')) and args:
                v = self.load(args[0])
                cur = self.load(loc)
                if isinstance(v, Rec) and isinstance(cur, Rec):
                    ff = dict(cur.f)
                    ff.update(v.f)
                    self.store(loc, Rec(cur.cls, ff, cur.sym))
                return
            self.run_ctor(rec, f, loc, args, e)
        elif e['k'] in ('zero', 'ilist'):
            return
        else:
            raise Unsupported('base initialiser %s' % e['k'])

    def init_field(self, tu, rec, loc, name, e):
        fld = None
        for f in rec.get('fields', []):
            if f['n'] == name:
                fld = f
        ft = rec['tu'].ty(fld['t']) if fld else None
        floc = loc.at(('f', name))
        if ft is not None and ft['k'] in ('r', 'rr'):
            v = self.ev(e)
            if not is_lv(v):
                v = self.new(v)
            cur = self.load(loc)
            self.store(loc, cur.set(name, Ref(v)))
            return
        # in-place construction so that 'this' is meaningful
        if e['k'] == 'ctor' and ft is not None and ft['k'] == 'rec':
            f = self.frames[-1].tu.funs[e['f']]
            if f['repo'] or (not base(f['qn']).startswith(('std::', 'Eigen::', '__gnu'))):
                if not (f.get('copy') or f.get('move')):
                    self.store(loc, self.load(loc).set(name, Rec('?', {})))
                    d = self.P.definition(f) or f
                    r2 = d['tu'].recs[d['cls']]
                    r2 = self.P.recs.get(r2['key'], r2)
                    args = [self.arg(a, p) for a, p in zip(e['args'], f['ps'])]
                    self.store(floc, Rec(r2['key'], {}))
                    self.run_ctor(r2, f, floc, args, e)
                    return
        v = self.rv(self.ev(e))
        v = self.plain(v, ft)
        cur = self.load(loc)
        if isinstance(cur, D):
            raise Unsupported('field initialisation under a split object')
        self.store(loc, cur.set(name, v))

    def plain(self, v, t):
        """value as stored in an object of type t (Eigen expressions are materialised)"""
        if t is not None and t['k'] == 'rec' and isinstance(v, (View, Loc)):
            bn = base(t['n'])
            if bn in ('Eigen::Matrix', 'Eigen::Array'):
                return self.mat(v)
        return v

    def enter(self, d, this, args, node):
        if len(self.frames) > self.MAXDEPTH:
            raise Unsupported('call depth exceeded at %s' % self.where(node))
        fr = Frame(d['tu'], d, this)
        ps = d['ps']
        for i, p in enumerate(ps):
            t = d['tu'].ty(p['t'])
            if i < len(args):
                a = args[i]
            elif 'def' in p and p['def'] is not None:
                self.frames.append(fr)
                try:
                    a = self.ev(p['def'])
                finally:
                    self.frames.pop()
            else:
                raise Unsupported('missing argument %s of %s' % (p['n'], d['qn']))
            if t['k'] in ('r', 'rr'):
                if not is_lv(a):
                    a = self.new(a)
                fr.vars[p['id']] = a
            else:
                v = self.plain(self.rv(a), t)
                fr.vars[p['id']] = self.new(v)
        self.frames.append(fr)
        self.stats['functions'].add(d['qn'])
        self.stats['calls'] += 1
        return fr

    def rv(self, x):
        """value of an expression result"""
        if isinstance(x, Loc):
            return self.load(x)
        if isinstance(x, D) and is_lv(x):
            return self.load(x)
        return x

    def call(self, f, this, args, node=None):
        """call of a resolved function: opaque boundary, inlining or library model"""
        h = self.opaque.get(f['bn'])
        if h is not None:
            r = h(self, f, this, args, node)
            if r is not NotImplemented:
                return r
        d = self.P.definition(f)
        if f['n'] == 'operator=' and this is not None and (f.get('implicit') or f.get('defaulted')) and f['repo']:
            # memberwise assignment
            v = self.rv(args[0])
            if f.get('moveassign') and is_lv(args[0]):
                self.store(args[0], self.moved(v), node)
            self.store(this, v, node)
            return this
        import models
        if d is not None and (d['repo'] or (self.use_std_body(d) and d['bn'] not in models.FREE)):
            return self.inline(d, this, args, node)
        return models.call(self, f, this, args, node)

    def use_std_body(self, d):
        return d['bn'] in ('std::__lower_bound', 'std::__upper_bound',
                           'std::accumulate', 'std::for_each', 'std::any_of', 'std::all_of', 'std::none_of',
                           'std::transform', 'std::fill_n', 'std::inner_product', 'std::count_if',
                           'std::find_if', 'std::find', 'std::count', 'std::generate', 'std::iota', 'std::is_sorted',
                           'std::adjacent_find', 'std::partial_sum',
                           'std::min_element', 'std::max_element', 'std::__min_element', 'std::__max_element') or \
            d['bn'].startswith(('__gnu_cxx::__ops::', 'std::__lower_bound', 'std::__is_sorted', 'std::__find_if', 'std::__count_if',
                                'std::__adjacent_find'))

    def inline(self, d, this, args, node):
        if isinstance(this, Rec):
            this = self.new(this, 'temporary')      # a call on a temporary object
        fr = self.enter(d, this, args, node)
        saved = self.throws
        self.throws = []
        try:
            if d.get('kind') == 'ctor':
                raise Unsupported('constructor call as function')
            v = self.run_body(fr, d['body'])
        finally:
            self.frames.pop()
            mine, self.throws = self.throws, saved
        self.propagate_throws(mine)
        if v is None and fr.dead:
            raise Dead()
        return v

    def propagate_throws(self, mine):
        if not mine:
            return
        fr = self.frames[-1] if self.frames else None
        for pc, what, mem in mine:
            if fr is not None:
                self.throws.append((band(fr.pc, pc), what, mem))
                fr.pc = band(fr.pc, bnot(pc))
                self.assume_cond(bnot(pc))
            else:
                self.throws.append((pc, what, mem))

    def run_body(self, fr, body):
        ctx0 = CTX.push()
        alive = self.exec(body)
        # the exits of the body are merged below: nothing assumed on only some of them survives
        CTX.pop(ctx0)
        fr.dead = False
        rets = fr.rets
        if alive and fr.pc is not False:
            rets = rets + [(fr.pc, None, self.mem)]
        if not rets:
            fr.dead = True
            return None
        # gated merge of all exits (path conditions are disjoint)
        pc, v, mem = rets[-1]
        for pc2, v2, mem2 in reversed(rets[:-1]):
            v = v2 if v is None and v2 is None else merge(pc2, v2, v)
            mem = self.merge_mem(pc2, mem2, mem)
            pc = bor(pc2, pc)
        self.mem = mem
        fr.pc = True    # relative condition is restored by the caller via throws
        return v

    def merge_mem(self, c, a, b):
        if a is b or c is True:
            return a
        if c is False:
            return b
        out = dict(b)
        for k, v in a.items():
            w = b.get(k, NotImplemented)
            if w is NotImplemented:
                out[k] = v
            elif w is not v:
                out[k] = merge(c, v, w)
        return out

    # ------------------------------------------------------------- statements
    def exec(self, s):
        """returns True when control can fall through"""
        if s is None:
            return True
        try:
            return self.exec_(s)
        except Dead:
            return False

    def exec_(self, s):
        self.stats['statements'] += 1
        k = s['k']
        fr = self.frames[-1]
        if fr.pc is False:
            return False
        if k == 'block':
            for x in s['b']:
                if not self.exec(x):
                    return False
                if fr.pc is False:
                    return False
            return True
        if k == 'expr':
            self.ev(s['e'])
            return fr.pc is not False
        if k == 'decl':
            for d in s['d']:
                self.decl(d)
            return fr.pc is not False
        if k == 'if':
            if s.get('init'):
                if not self.exec(s['init']):
                    return False
            if s.get('cvar'):
                self.decl(s['cvar'])
            c = truth(self.rv(self.ev(s['c'])))
            return self.branch(c, lambda: self.exec(s['then']), lambda: self.exec(s['else']), s)
        if k == 'ret':
            v = None
            if s.get('e') is not None:
                v = self.ev(s['e'])
                rt = fr.tu.ty(fr.fn['ret']) if fr.fn.get('ret') is not None else None
                if rt is not None and rt['k'] in ('r', 'rr'):
                    pass
                else:
                    v = self.plain(self.rv(v), rt)
            if fr.pc is not False:
                fr.rets.append((fr.pc, v, self.mem))
            return False
        if k in ('while', 'for', 'do'):
            return self.loop(s)
        if k == 'rfor':
            if s.get('init'):
                self.exec(s['init'])
            self.exec(s['rangeStmt'])
            self.exec(s['beginStmt'])
            self.exec(s['endStmt'])
            return self.loop({'k': 'for', 'init': None, 'c': s['c'], 'inc': s['inc'], 'l': s['l'],
                              'body': {'k': 'block', 'l': s['l'], 'b': [{'k': 'decl', 'd': [s['var']], 'l': s['l']}, s['body']]}})
        if k == 'break':
            fr.brk.append((fr.pc, self.mem))
            return False
        if k == 'continue':
            fr.cont.append((fr.pc, self.mem))
            return False
        if k == 'null':
            return True
        if k == 'try':
            return self.try_(s)
        if k == 'switch':
            return self.switch(s)
        if k in ('label',):
            return self.exec(s['s'])
        if k in ('case', 'default'):
            return self.exec(s['s'])
        raise Unsupported('statement %s at %s' % (s.get('cls', k), self.where(s)))

    def assume_cond(self, c):
        """push what a condition being true implies (conjunctive part)"""
        if not isinstance(c, D):
            return
        poss = {}
        npaths = 0
        for path, leaf in paths(c):
            if leaf is not True:
                continue
            npaths += 1
            if npaths > 64:
                return
            seen = {}
            for v, i in path:
                seen[v] = i
            if npaths == 1:
                poss = {v: {i} for v, i in seen.items()}
            else:
                for v in list(poss):
                    if v in seen:
                        poss[v].add(seen[v])
                    else:
                        del poss[v]
        for v, outs in poss.items():
            if v.kind == 'bool':
                if len(outs) == 1:
                    CTX.known[v] = next(iter(outs))
                continue
            if len(outs) == 1:
                i = next(iter(outs))
                if i == 3:
                    CTX.known[v] = 3
                else:
                    CTX.assume(v.key, ('<', '==', '>')[i])
                    if CTX.nan:
                        CTX.known[v] = i
            elif outs == {0, 1} and not CTX.nan:
                CTX.assume(v.key, '<=')
            elif outs == {1, 2} and not CTX.nan:
                CTX.assume(v.key, '>=')
        CTX.cache = {}

    def simplify(self, c):
        """prune outcomes of a condition that contradict the assumptions in force"""
        if not isinstance(c, D):
            return c
        if not CTX.cons and not CTX.known:
            return c
        live = set()
        for path, leaf in paths(c):
            if leaf in live and len(live) == 2:
                break
            if leaf is IGN:
                continue
            if leaf in live:
                continue
            ok = True
            for v, i in path:
                kn = CTX.known.get(v)
                if kn is not None and kn != i:
                    ok = False
                    break
            if ok and path_feasible(path):
                live.add(leaf)
        if live == {True}:
            return True
        if live == {False}:
            return False
        if not live:
            return False
        return c

    def branch(self, c, then, els, node=None):
        c = self.simplify(c)
        if c is True:
            return then()
        if c is False or c is IGN:
            return els()
        self.stats['branches'] += 1
        fr = self.frames[-1]
        pc0, mem0 = fr.pc, self.mem
        ctx0 = CTX.push()
        fr.pc = band(pc0, c)
        self.mem = dict(mem0)
        self.assume_cond(c)
        a1 = then() if fr.pc is not False else False
        pc1, mem1 = fr.pc, self.mem
        CTX.pop(ctx0)
        fr.pc = band(pc0, bnot(c))
        self.mem = dict(mem0)
        self.assume_cond(bnot(c))
        a2 = els() if fr.pc is not False else False
        pc2, mem2 = fr.pc, self.mem
        CTX.pop(ctx0)
        if pc1 is False:
            a1 = False
        if pc2 is False:
            a2 = False
        if a1 and a2:
            self.mem = self.merge_mem(c, mem1, mem2)
            fr.pc = bor(pc1, pc2)
            return True
        if a1:
            self.mem, fr.pc = mem1, pc1
            self.assume_cond(c)
            return True
        if a2:
            self.mem, fr.pc = mem2, pc2
            self.assume_cond(bnot(c))
            return True
        fr.pc = False
        return False

    def step_loop(self, s):
        """one pass (condition, body, increment) from the current state: ([(pc, memory) at exit], alive) - the continuing state is the current one"""
        hook, self.loop_hook = self.loop_hook, None
        cut, self.cut = self.cut, 1
        fr = self.frames[-1]
        got = []
        ev = self.ev
        inc = s.get('inc')
        mark = {'k': 'mark'}

        def e_mark(e, fr):
            if inc:
                ev(inc)
            got.append((fr.pc, self.mem, CTX.push()))
            raise Dead()
        self.e_mark = e_mark
        try:
            s2 = dict(s)
            s2['inc'] = mark
            s2['init'] = None
            alive = self.loop(s2)
        finally:
            self.loop_hook, self.cut = hook, cut
        return got, (fr.pc, self.mem) if alive else None

    def loop(self, s):
        fr = self.frames[-1]
        if self.loop_hook:
            r = self.loop_hook(self, s)
            if r is not NotImplemented:
                return r
        if s.get('init'):
            if not self.exec(s['init']):
                return False
        obrk, ocont = fr.brk, fr.cont
        fr.brk, fr.cont = [], []
        exits = []       # (pc, mem) at loop exit
        ctx0 = CTX.push()
        try:
            n = 0
            first = s['k'] == 'do'
            alive = True
            while True:
                if not first:
                    if s.get('cvar'):
                        self.decl(s['cvar'])
                    try:
                        c = truth(self.rv(self.ev(s['c']))) if s.get('c') else True
                    except Dead:
                        alive = False
                        break
                    if fr.pc is False:
                        alive = False
                        break
                    c = self.simplify(c)
                    if c is False or c is IGN:
                        exits.append((fr.pc, self.mem))
                        break
                    if c is not True:
                        self.stats['branches'] += 1
                        exits.append((band(fr.pc, bnot(c)), self.mem))
                        fr.pc = band(fr.pc, c)
                        self.mem = dict(self.mem)
                        self.assume_cond(c)
                        if fr.pc is False:
                            break
                first = False
                n += 1
                self.stats['unrolled'] += 1
                if self.cut is not None and n > self.cut and (exits or fr.brk or fr.rets):
                    self.truncated.add(self.where(s))
                    fr.pc = False
                    break
                lim = self.MAXUNROLL if any(True for e in exits) else self.MAXLOOP
                if n > lim or n > 200 and n % 50 == 0 and self.definite():
                    raise Unsupported('loop bound exceeded at %s' % self.where(s))
                ctxi = CTX.push()
                alive = self.exec(s['body'])
                # gather continues
                conts = fr.cont
                fr.cont = []
                if conts:
                    # these paths left the body before what was assumed since
                    CTX.pop(ctxi)
                if not alive or fr.pc is False:
                    if not conts:
                        alive = False
                        break
                    pc, mem = conts[-1]
                    conts = conts[:-1]
                    fr.pc, self.mem = pc, dict(mem)
                for pc, mem in conts:
                    self.mem = self.merge_mem(pc, mem, self.mem)
                    fr.pc = bor(pc, fr.pc)
                if s.get('inc'):
                    try:
                        self.ev(s['inc'])
                    except Dead:
                        break
                if fr.pc is False:
                    break
        finally:
            brks = fr.brk
            fr.brk, fr.cont = obrk, ocont
        CTX.pop(ctx0)
        exits += brks
        exits = [(pc, m) for pc, m in exits if pc is not False]
        if not exits:
            fr.pc = False
            return False
        pc, mem = exits[-1]
        for pc2, mem2 in reversed(exits[:-1]):
            mem = self.merge_mem(pc2, mem2, mem)
            pc = bor(pc2, pc)
        self.mem = dict(mem)
        fr.pc = pc
        return True

    def switch(self, s):
        fr = self.frames[-1]
        if s.get('init'):
            self.exec(s['init'])
        v = num(self.rv(self.ev(s['c'])))
        # flatten the cases
        items = []
        for x in s['body']['b']:
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(None if x['k'] == 'default' else x['v'])
                x = x['s']
            items.append((labels, x))
        obrk = fr.brk
        fr.brk = []
        conds, others = [], False
        for labels, x in items:
            c = False
            for l in labels:
                if l is not None:
                    c = bor(c, compare('==', v, num(self.rv(self.ev(l)))))
            others = bor(others, c)
            conds.append(c)
        conds = [bor(c, bnot(others)) if None in labels else c for c, (labels, _) in zip(conds, items)]
        has_default = any(None in l for l, _ in items)
        pc0, mem0 = fr.pc, self.mem
        run_pc, run_mem = False, None      # state falling through from the previous statement
        ctx0 = CTX.push()
        for c, (labels, x) in zip(conds, items):
            CTX.pop(ctx0)
            ent = band(pc0, c) if labels else False
            if ent is False and run_pc is False:
                continue
            if ent is False:
                fr.pc, self.mem = run_pc, run_mem
            elif run_pc is False:
                fr.pc, self.mem = ent, dict(mem0)
            else:
                self.mem = dict(self.merge_mem(ent, mem0, run_mem))
                fr.pc = bor(ent, run_pc)
            if run_pc is False:
                self.assume_cond(c)
            alive = self.exec(x) if x is not None else True
            if alive and fr.pc is not False:
                run_pc, run_mem = fr.pc, self.mem
            else:
                run_pc, run_mem = False, None
        CTX.pop(ctx0)
        exits = fr.brk
        fr.brk = obrk
        if run_pc is not False:
            exits.append((run_pc, run_mem))
        if not has_default:
            c = band(pc0, bnot(others))
            if c is not False:
                exits.append((c, mem0))
        if not exits:
            fr.pc = False
            return False
        pc, mem = exits[-1]
        for pc2, mem2 in reversed(exits[:-1]):
            mem = self.merge_mem(pc2, mem2, mem)
            pc = bor(pc2, pc)
        self.mem = dict(mem)
        fr.pc = pc
        return True

    def try_(self, s):
        fr = self.frames[-1]
        saved = self.throws
        self.throws = []
        ctx0 = CTX.push()
        alive = self.exec(s['body'])
        ctx1 = CTX.push()
        mine, self.throws = self.throws, saved
        exits = []
        if alive and fr.pc is not False:
            exits.append((fr.pc, self.mem))
        body = len(exits)
        for pc, what, mem in mine:
            CTX.pop(ctx0)
            h = self.match_handler(s['handlers'], what)
            if h is None:
                self.throws.append((pc, what, mem))
                continue
            fr.pc, self.mem = pc, dict(mem)
            if self.exec(h['body']) and fr.pc is not False:
                exits.append((fr.pc, self.mem))
        CTX.pop(ctx1 if body and len(exits) == 1 else ctx0)
        if not exits:
            fr.pc = False
            return False
        pc, mem = exits[-1]
        for pc2, mem2 in reversed(exits[:-1]):
            mem = self.merge_mem(pc2, mem2, mem)
            pc = bor(pc2, pc)
        self.mem, fr.pc = dict(mem), pc
        return True

    def match_handler(self, hs, what):
        for h in hs:
            if h['t'] is None:
                return h
            t = self.frames[-1].tu.strip(h['t'])
            if base(t.get('n', '')) in ('std::exception', 'std::runtime_error', 'std::logic_error') or base(t.get('n', '')) == what:
                return h
        return None

    def decl(self, d):
        fr = self.frames[-1]
        t = fr.tu.ty(d['t'])
        if d.get('static'):
            g = ('static', fr.tu.path, d['id'])
            if g not in self.globals:
                v = self.rv(self.ev(d['init'])) if d.get('init') else self.default(fr.tu, d['t'], None, True)
                self.globals[g] = self.new(v, 'static:' + d['n'])
            loc = self.globals[g]
            if loc.root not in self.mem:
                self.mem[loc.root] = self.rv(self.ev(d['init']))
            fr.vars[d['id']] = loc
            return
        if t['k'] in ('r', 'rr'):
            v = self.ev(d['init'])
            if not is_lv(v):
                v = self.new(v)
            fr.vars[d['id']] = v
        else:
            if d.get('init') is not None:
                e = d['init']
                self.declaring[d['id']] = None
                v = self.plain(self.rv(self.ev(e)), t)
            else:
                v = self.default(fr.tu, d['t'], d)
            own = self.declaring.pop(d['id'], None)
            if own is None:
                fr.vars[d['id']] = self.new(v)
            else:
                self.store(own, v, None)
                fr.vars[d['id']] = own
        self.vtypes[d['id']] = t
        if d.get('bindings'):
            src = fr.vars[d['id']]
            for i, b in enumerate(d['bindings']):
                fr.binds[b['id']] = self.bind_target(src, b, i)
                if 'hold' in b:
                    fr.vars[b['hold']] = fr.binds[b['id']]

    def bind_target(self, src, b, i):
        def leaf(l):
            v = self.load(l)
            w = v
            while isinstance(w, D):
                w = next(x for _, x in leaves(w))
            if isinstance(w, (Tup, Vec)):
                return l.at(('i', rc(i)))
            if isinstance(w, Rec):
                r = self.P.recs[w.cls]
                return l.at(('f', self.P.fields(r)[i][0]['n']))
            raise Unsupported('structured binding')
        t = self.lift_struct(leaf, src) if isinstance(src, D) else leaf(src)
        v = self.load(t)
        if isinstance(v, Ref):
            return v.t
        return t

    # ------------------------------------------------------------- expressions
    def arg(self, e, p=None):
        """argument passed to a parameter: lvalue or value"""
        v = self.ev(e)
        return v

    def ev(self, e):
        fr = self.frames[-1]
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (e.get('cls', k), self.where(e)))
        return m(e, fr)

    def e_int(self, e, fr):
        t = fr.tu.ty(e['t'])
        if t['k'] == 'b' and t['n'] == 'bool':
            return e['v'] not in ('0', 'false')
        return rc(int(e['v']))

    def e_flt(self, e, fr):
        return literal(e)

    def e_str(self, e, fr):
        return Str(e.get('v', ''))

    def e_null(self, e, fr):
        return Ptr(None)

    def e_this(self, e, fr):
        return Ptr(fr.this)

    def e_zero(self, e, fr):
        return self.default(fr.tu, e['t'], e, True)

    def e_sizeof(self, e, fr):
        raise Unsupported('sizeof')

    def e_fun(self, e, fr):
        return Fn(fr.tu.funs[e['f']])

    def e_stdinit(self, e, fr):
        return self.rv(self.ev(e['e']))

    def e_var(self, e, fr):
        v = fr.vars.get(e['id'])
        if v is not None:
            return v
        if fr.clo is not None and e['id'] in fr.clo.caps:
            return fr.clo.caps[e['id']]
        return self.global_var(fr.tu, e['id'], e)

    def global_var(self, tu, vid, e=None):
        var = tu.vars.get(vid)
        if var is None:
            raise Unsupported('variable %s at %s' % (e.get('n') if e else vid, self.where(e)))
        h = self.hooks.get('global')
        if h:
            r = h(self, tu, var)
            if r is not None:
                return r
        key = (tu.path, vid)
        if key in self.globals:
            l = self.globals[key]
            if l.root in self.mem:
                return l
        n = base(var['n'])
        if n in ('std::cout', 'std::cerr', 'std::clog'):
            v = Stream(n)
        elif n.startswith('std::placeholders::_'):
            v = Obj('placeholder', int(n.rsplit('_', 1)[1]))
        elif n in ('std::nullopt', 'std::ignore'):
            v = Obj(n[5:])
        elif var.get('init') is not None:
            f2 = Frame(tu, {'qn': var['n'], 'ret': None})
            self.frames.append(f2)
            try:
                v = self.rv(self.ev(var['init']))
                v = self.plain(v, tu.ty(var['t']))
            finally:
                self.frames.pop()
            if isinstance(v, R):
                v = ispi(v)
        else:
            raise Unsupported('global %s without initialiser' % var['n'])
        l = self.new(v, 'global:' + var['n'])
        self.globals[key] = l
        return l

    def e_bind(self, e, fr):
        if e['id'] in fr.binds:
            return fr.binds[e['id']]
        if fr.clo is not None and ('b', e['id']) in fr.clo.caps:
            return fr.clo.caps[('b', e['id'])]
        raise Unsupported('binding at %s' % self.where(e))

    def deref(self, p, node):
        """target of a pointer value"""
        def leaf(x):
            if isinstance(x, Ptr):
                if x.t is None:
                    return UNDEF
                return x.t
            if isinstance(x, Iter):
                return self.iter_target(x, node)
            if x is UNDEF:
                return UNDEF
            if isinstance(x, Opt):
                raise Unsupported('optional deref')
            raise Unsupported('dereference of %r at %s' % (x, self.where(node)))
        r = self.lift_struct(leaf, p)
        if isinstance(p, D):
            bad = lift(lambda x: x is UNDEF or (isinstance(x, Ptr) and x.t is None), p)
            bad = self.simplify(bad)
            self.event('null', node, bad)
        elif r is UNDEF:
            self.event('null', node, True)
        return r

    def iter_target(self, it, node):
        v = self.load(it.loc)
        n = len(v.e) if isinstance(v, (Vec, Tup, Mat)) else None
        i = it.i
        if it.rev:
            i = sub(sub(rc(n), ONE), i)
        return it.loc.at(('i', i))

    def member(self, lv, name, node):
        def leaf(l):
            if l is UNDEF:
                return UNDEF
            if isinstance(l, Loc):
                return l.at(('f', name))
            if isinstance(l, Rec):
                if name in l.f:
                    return l.f[name]
                return self.symfield(l, name, node)
            if isinstance(l, Tup) and name in ('first', 'second'):
                return l.e[0 if name == 'first' else 1]
            raise Unsupported('member %s of %r at %s' % (name, l, self.where(node)))
        r = self.lift_struct(leaf, lv)
        if isinstance(r, Loc):
            # reference members
            root = self.mem.get(r.root)
            try:
                v = self.load(r) if r.root in self.mem else None
            except Unsupported:
                v = None
            if isinstance(v, Ref):
                return v.t
        elif isinstance(r, Ref):
            return r.t
        return r

    def e_mem(self, e, fr):
        b = self.ev(e['b'])
        if e.get('arrow'):
            b = self.deref(self.rv(b), e)
        return self.member(b, e['f'], e)

    def e_memfun(self, e, fr):
        b = self.ev(e['b'])
        return Fn(fr.tu.funs[e['f']], b)

    def e_fieldref(self, e, fr):
        return MemPtr(e['f'])

    def e_idx(self, e, fr):
        b = self.rv(self.ev(e['b']))
        i = num(self.rv(self.ev(e['i'])))
        return self.deref(self.ptr_add(b, i, e), e)

    def ptr_add(self, p, i, node):
        def leaf(x, y):
            if isinstance(x, Iter):
                return Iter(x.loc, add(x.i, y), x.rev, x.mv)
            if isinstance(x, Ptr) and isinstance(x.t, Loc) and x.t.path and x.t.path[-1][0] == 'i':
                l = x.t
                return Ptr(Loc(l.root, l.path[:-1] + (('i', add(l.path[-1][1], y)),)))
            if isinstance(x, Ptr) and isinstance(x.t, Loc) and cst(y) == 0:
                return x
            raise Unsupported('pointer arithmetic on %r at %s' % (x, self.where(node)))
        if not isinstance(p, D):
            if isinstance(p, Iter):
                return Iter(p.loc, add(p.i, i), p.rev, p.mv)
            if isinstance(i, D):
                if isinstance(p, Ptr) and isinstance(p.t, Loc) and p.t.path and p.t.path[-1][0] == 'i':
                    l = p.t
                    return Ptr(Loc(l.root, l.path[:-1] + (('i', add(l.path[-1][1], i)),)))
        return lift(leaf, p, i)

    def e_un(self, e, fr):
        op = e['op']
        if op == '&':
            x = e['e']
            if x['k'] == 'fieldref' or (x['k'] == 'mem' and False):
                return MemPtr(x['f'])
            if x['k'] == 'fun':
                return Fn(fr.tu.funs[x['f']])
            l = self.ev(x)
            if isinstance(l, (Fn, MemPtr)):
                return l
            return self.lift_struct(lambda y: Ptr(y), l)
        if op == '*':
            p = self.rv(self.ev(e['e']))
            if isinstance(p, Fn):
                return p
            return self.deref(p, e)
        if op in ('++', '--'):
            lv = self.ev(e['e'])
            old = self.rv(lv)
            d = ONE if op == '++' else rc(-1)
            if self.isptr(old):
                new = self.ptr_add(old, d, e)
            else:
                new = add(num(old), d)
            self.store(lv, new, e)
            return old if e.get('post') else lv
        v = self.rv(self.ev(e['e']))
        if op == '-':
            return neg(num(v))
        if op == '+':
            return num(v)
        if op == '!':
            return bnot(truth(v))
        if op == '~':
            return sub(rc(-1), num(v))
        raise Unsupported('unary %s' % op)

    def isptr(self, v):
        if isinstance(v, (Ptr, Iter)):
            return True
        if isinstance(v, D):
            return any(isinstance(l, (Ptr, Iter)) for _, l in leaves(v))
        return False

    def isfloat(self, tu, tid):
        t = tu.ty(tid)
        while t['k'] in ('r', 'rr'):
            t = tu.ty(t['e'])
        return not (t['k'] == 'enum' or (t['k'] == 'b' and t['n'] in INTS))

    def e_bin(self, e, fr):
        op = e['op']
        if op == '&&':
            return self.shortcut(e, True)
        if op == '||':
            return self.shortcut(e, False)
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        if op == '=':
            v = self.rv(self.ev(e['b']))
            lv = self.ev(e['a'])
            self.store(lv, v, e)
            return lv
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            lv = self.ev(e['a'])
            b = self.rv(self.ev(e['b']))
            old = self.rv(lv)
            if self.isptr(old):
                v = self.ptr_add(old, b if op == '+=' else neg(b), e)
            else:
                ct = e.get('ct', e['t'])
                v = self.arith(op[:-1], num(old), num(b), self.isfloat(fr.tu, ct), e)
                if self.isfloat(fr.tu, ct) and not self.isfloat(fr.tu, e['t']):
                    v = self.trunc(v)
            self.store(lv, v, e)
            return lv
        if op in ('.*', '->*'):
            b = self.ev(e['a'])
            if op == '->*':
                b = self.deref(self.rv(b), e)
            m = self.rv(self.ev(e['b']))
            if isinstance(m, MemPtr):
                return self.member(b, m.field, e)
            raise Unsupported('member pointer at %s' % self.where(e))
        a = self.rv(self.ev(e['a']))
        b = self.rv(self.ev(e['b']))
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return self.cmp(op, a, b, e)
        if self.isptr(a) or self.isptr(b):
            if op == '+':
                return self.ptr_add(a, b, e) if self.isptr(a) else self.ptr_add(b, a, e)
            if op == '-':
                if self.isptr(b):
                    return self.ptr_diff(a, b, e)
                return self.ptr_add(a, neg(b), e)
        return self.arith(op, num(a), num(b), self.isfloat(fr.tu, e['t']), e)

    def ptr_diff(self, a, b, node):
        def leaf(x, y):
            if isinstance(x, Iter) and isinstance(y, Iter) and x.loc == y.loc and x.rev == y.rev:
                return sub(x.i, y.i)
            if isinstance(x, Ptr) and isinstance(y, Ptr) and isinstance(x.t, Loc) and isinstance(y.t, Loc) and \
                    x.t.root == y.t.root and x.t.path[:-1] == y.t.path[:-1]:
                return sub(x.t.path[-1][1], y.t.path[-1][1])
            raise Unsupported('pointer difference at %s' % self.where(node))
        return lift(leaf, a, b)

    def cmp(self, op, a, b, node):
        if self.isptr(a) or self.isptr(b):
            def leaf(x, y):
                if isinstance(x, Iter) and isinstance(y, Iter):
                    if x.loc != y.loc:
                        raise Unsupported('iterators of different containers compared at %s' % self.where(node))
                    return compare(op, x.i, y.i)
                if op in ('==', '!='):
                    return (x == y) == (op == '==')
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    return compare(op, x.t.path[-1][1], y.t.path[-1][1])
                raise Unsupported('pointer comparison at %s' % self.where(node))
            return lift(leaf, a, b)
        a, b = num(a), num(b)

        def leaf2(x, y):
            if x is UNDEF or y is UNDEF:
                return UNDEF_BOOL
            return compare(op, x, y)
        if has_undef(a) or has_undef(b):
            r = lift(leaf2, a, b)
            return r
        return compare(op, a, b)

    def arith(self, op, a, b, flt, node):
        if op == '+':
            return add(a, b, flt)
        if op == '-':
            return sub(a, b, flt)
        if op == '*':
            return mul(a, b, flt)
        if op == '/':
            if flt:
                return div(a, b, True)
            return idiv(a, b)
        if op == '%':
            return imod(a, b)
        if op in ('<<', '>>', '&', '|', '^'):
            def leaf(x, y):
                cx, cy = cst(x), cst(y)
                if cx is not None and cy is not None:
                    return rc({'<<': lambda: cx << cy, '>>': lambda: cx >> cy, '&': lambda: cx & cy,
                               '|': lambda: cx | cy, '^': lambda: cx ^ cy}[op]())
                if op == '<<' and cy is not None:
                    return rmul(x, rc(1 << cy))
                if op == '>>' and cy is not None and alg._nonneg(x):
                    return idiv(x, rc(1 << cy))
                if op == '&' and cy == 1 and alg._nonneg(x):
                    return imod(x, rc(2))
                raise Unsupported('bit operation at %s' % self.where(node))
            return lift(leaf, a, b)
        raise Unsupported('operator %s at %s' % (op, self.where(node)))

    def shortcut(self, e, conj):
        a = truth(self.rv(self.ev(e['a'])))
        a = self.simplify(a)
        if a is (not conj):
            return a
        if a is conj:
            return truth(self.rv(self.ev(e['b'])))
        fr = self.frames[-1]
        g = a if conj else bnot(a)
        pc0, mem0 = fr.pc, self.mem
        ctx0 = CTX.push()
        fr.pc = band(pc0, g)
        self.mem = dict(mem0)
        self.assume_cond(g)
        nthrow = len(self.throws)
        try:
            b = truth(self.rv(self.ev(e['b'])))
        except Dead:
            b = IGN
        finally:
            CTX.pop(ctx0)
        pcb = fr.pc
        self.mem = self.merge_mem(g, self.mem, mem0)
        fr.pc = pc0 if len(self.throws) == nthrow else bor(pcb, band(pc0, bnot(g)))
        if b is IGN:
            return bnot(g) if False else ((False if conj else True))
        return band(a, b) if conj else bor(a, b)

    def e_cond(self, e, fr):
        c = truth(self.rv(self.ev(e['c'])))
        c = self.simplify(c)
        if c is True:
            return self.ev(e['a'])
        if c is False:
            return self.ev(e['b'])
        if c is IGN:
            raise Dead()
        out = {}

        def side(x):
            def go():
                try:
                    out[x] = self.ev(e[x])
                except Dead:
                    return False
                return True
            return go
        lv = e.get('lv')
        alive = self.branch(c, side('a'), side('b'), e)
        if not alive:
            raise Dead()
        if 'a' not in out:
            return out['b']
        if 'b' not in out:
            return out['a']
        a, b = out['a'], out['b']
        if not lv:
            a, b = self.rv(a), self.rv(b)
        elif not (is_lv(a) and is_lv(b)):
            a, b = self.rv(a), self.rv(b)
        return merge(c, a, b)

    def trunc(self, v):
        def leaf(x):
            if x is UNDEF:
                return x
            if not isinstance(x, R):
                raise Unsupported('truncation of %r' % (x,))
            c = x.const()
            if c is not None:
                return rc(int(c))
            if all(co.denominator == 1 and all(alg.A.list[a][0] in INTFN for a, _ in m) for m, co in x.t.items()):
                return x
            h = self.hooks.get('trunc')
            if h:
                r = h(x)
                if r is not None:
                    return r
            return app('trunc', x)
        return lift(leaf, v)

    def e_cast(self, e, fr):
        ck = e['ck']
        if ck == 'LValueToRValue':
            return self.load(self.ev(e['e']), e)
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'ConstructorConversion',
                  'UserDefinedConversion', 'BitCast', 'Dynamic', 'LValueBitCast'):
            return self.ev(e['e'])
        if ck in ('FloatingCast',):
            v = self.rv(self.ev(e['e']))
            return num(v)
        if ck in ('IntegralToFloating', 'IntegralCast', 'BooleanToSignedIntegral'):
            v = self.rv(self.ev(e['e']))
            t = fr.tu.ty(e['t'])
            if t.get('n') == 'bool':
                return truth(v)
            return num(v)
        if ck == 'FloatingToIntegral':
            return self.trunc(self.rv(self.ev(e['e'])))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return truth(self.rv(self.ev(e['e'])))
        if ck == 'ArrayToPointerDecay':
            l = self.ev(e['e'])
            if isinstance(l, Str):
                return l
            return self.lift_struct(lambda x: Ptr(x.at(('i', ZERO))), l)
        if ck == 'ToVoid':
            self.ev(e['e'])
            return None
        if ck in ('NullToPointer',):
            return Ptr(None)
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'NullToMemberPointer', 'DerivedToBaseMemberPointer',
                  'BaseToDerivedMemberPointer'):
            return self.ev(e['e'])
        raise Unsupported('cast %s at %s' % (ck, self.where(e)))

    def e_lambda(self, e, fr):
        caps = {}
        this = fr.this
        for c in e['caps']:
            if c.get('this'):
                continue
            if 'id' in c:
                if c.get('initcap') and c.get('init') is not None:
                    v = self.ev(c['init'])
                    caps[c['id']] = v if c.get('byref') and is_lv(v) else self.new(self.rv(v))
                    continue
                src = fr.vars.get(c['id'])
                if src is None and fr.clo is not None:
                    src = fr.clo.caps.get(c['id'])
                if src is None and c['byref'] and c['id'] in self.declaring:
                    src = self.declaring[c['id']] = self.declaring[c['id']] or self.new(UNDEF)
                if src is None:
                    src = self.global_var(fr.tu, c['id'])
                caps[c['id']] = src if c['byref'] else self.new(self.rv(src))
            elif 'bid' in c:
                src = fr.binds.get(c['bid'])
                if src is None and fr.clo is not None:
                    src = fr.clo.caps.get(('b', c['bid']))
                caps[('b', c['bid'])] = src if c['byref'] else self.new(self.rv(src))
        self.nroot += 1
        return Clo(fr.tu, e, caps, this, self.nroot)

    def call_value(self, fv, args, node, f=None):
        """call a callable value"""
        fv = self.rv(fv) if is_lv(fv) else fv
        if isinstance(fv, D):
            outs = []
            fr = self.frames[-1]

            def go(d):
                if not isinstance(d, D):
                    return self.call_value(d, args, node, f)
                lc = self.leafconds(d)
                cond, leaf = lc[0]
                if len(lc) == 1:
                    return self.call_value(leaf, args, node, f)
                res = {}
                rest = self.restrict_leaf(d, leaf)

                def t():
                    res['a'] = self.call_value(leaf, args, node, f)
                    return True

                def el():
                    res['b'] = go(rest)
                    return True
                self.branch(cond, t, el, node)
                if 'a' not in res:
                    return res['b']
                if 'b' not in res:
                    return res['a']
                return merge(cond, res['a'], res['b'])
            return go(fv)
        if isinstance(fv, Ptr) and fv.t is not None:
            return self.call_value(fv.t, args, node, f)
        if isinstance(fv, Clo):
            fn = fv.tu.funs[fv.node['f']]
            if fn.get('body') is None:
                sp = [fv.tu.funs[x] for x in fv.node.get('specs', [])]
                sp = [x for x in sp if x.get('body') is not None]
                if f is not None:
                    sp2 = [x for x in sp if x.get('mn') == f.get('mn')]
                    sp = sp2 or sp
                if not sp:
                    raise Unsupported('generic lambda at %s' % self.where(node))
                fn = sp[0]
            fr = self.enter(fn, fv.this, args, node)
            fr.clo = fv
            saved = self.throws
            self.throws = []
            try:
                v = self.run_body(fr, fn['body'])
            finally:
                self.frames.pop()
                mine, self.throws = self.throws, saved
            self.propagate_throws(mine)
            if v is None and fr.dead:
                raise Dead()
            return v
        if isinstance(fv, Fn):
            if fv.f.get('kind') == 'method' and not fv.f.get('static') and fv.this is None:
                this, rest = args[0], args[1:]
                return self.dispatch(fv.f, this, rest, node)
            if fv.this is not None:
                return self.dispatch(fv.f, fv.this, args, node)
            return self.call(fv.f, None, args, node)
        if isinstance(fv, Bound):
            a = []
            for x in fv.args:
                if isinstance(x, Obj) and x.kind == 'placeholder':
                    a.append(args[x.args[0] - 1])
                else:
                    a.append(x)
            return self.call_value(fv.fn, a, node, f)
        if isinstance(fv, OFn):
            vals = [self.rv(a) for a in args]
            if fv.fn:
                return fv.fn(self, vals, node)
            self.trace.append((fv.name, vals, self.abspc(), self.where(node)))
            return lift(lambda *xs: app(fv.name, *xs), *[num(v) for v in vals])
        if isinstance(fv, MemPtr):
            return self.member(args[0], fv.field, node)
        if isinstance(fv, Obj) and fv.kind == 'functor':
            import models
            return models.functor(self, fv.args[0], args, node)
        if isinstance(fv, Rec):
            # functor object
            ms = [m for m in self.methods(fv.cls) if m['n'] == 'operator()']
            ms = [m for m in ms if len(m['ps']) == len(args)] or ms
            if f is not None:
                ms = [m for m in ms if m.get('mn') == f.get('mn')] or ms
            if ms:
                loc = self.new(fv)
                return self.call(ms[0], loc, args, node)
        raise Unsupported('call of %r at %s' % (fv, self.where(node)))

    def restrict_leaf(self, d, leaf):
        """d without the leaf"""
        return lift(lambda x: IGN if same_leaf(x, leaf) else x, d)

    def less_of(self, cls):
        """operator< of a repository class (member or free)"""
        for m in self.methods(cls):
            if m['n'] == 'operator<':
                return m
        for f in self.P.functions():
            if f['n'] == 'operator<' and f.get('cls') is None and len(f['ps']) == 2:
                t = f['tu'].strip(f['ps'][0]['t'])
                if t['k'] == 'rec' and f['tu'].recs.get(t.get('r'), {}).get('key') == cls:
                    return f
        return None

    def methods(self, cls):
        r = self.P.recs.get(cls)
        out = []
        while r is not None:
            out += [r['tu'].funs[m] for m in r.get('methods', [])]
            bs = r.get('bases', [])
            r = self.P.recs.get(r['tu'].recs[bs[0]]['key']) if bs else None
        return out

    def final_overrider(self, cls, f):
        """method of class cls overriding f"""
        r = self.P.recs.get(cls)
        if r is None:
            return f
        target = f.get('mn')
        while r is not None:
            for m in r.get('methods', []):
                g = r['tu'].funs[m]
                if g.get('mn') == target or self.overrides(g, target):
                    return g
            nxt = None
            for b in r.get('bases', []):
                br = r['tu'].recs[b]
                nxt = self.P.recs.get(br['key'], br)
                break
            r = nxt
        return f

    def overrides(self, g, target):
        for o in g.get('overrides') or []:
            h = g['tu'].funs[o]
            if h.get('mn') == target or self.overrides(h, target):
                return True
        return False

    def dispatch(self, f, this, args, node, devirt=False):
        if this is not None and isinstance(this, Ptr):
            this = this.t
        if isinstance(this, D):
            # conditional receiver
            lc = self.leafconds(this)
            if len(lc) > 1:
                allsame = None
                cond, leaf = lc[0]
                if leaf is UNDEF or leaf is IGN:
                    cond, leaf = lc[1]
                rest = self.restrict_leaf(this, leaf)
                res = {}
                bn = f['bn']
                if bn.startswith(('std::', 'Eigen::')):
                    pass
                # receivers are handled one by one under their condition

                def t():
                    res['a'] = self.dispatch(f, leaf, args, node, devirt)
                    return True

                def el():
                    res['b'] = self.dispatch(f, rest, args, node, devirt)
                    return True
                alive = self.branch(cond, t, el, node)
                if not alive:
                    raise Dead()
                if 'a' not in res:
                    return res['b']
                if 'b' not in res:
                    return res['a']
                return merge(cond, res['a'], res['b']) if res['a'] is not None else None
            this = lc[0][1]
        if this is UNDEF:
            self.event('null', node, True)
            if not self.frames:
                raise Unsupported('call on undefined object')
            raise Dead()
        if f.get('virtual') and not devirt and isinstance(this, Loc):
            v = self.load(this)
            if isinstance(v, Rec):
                f = self.final_overrider(v.cls, f)
            elif isinstance(v, OFn):
                return self.call_value(v, args, node, f)
            elif isinstance(v, Obj):
                return v.args[0](self, f, this, args, node)
            elif isinstance(v, D):
                lcs = self.leafconds(v)
                fs = {(self.final_overrider(x.cls, f).get('mn')) for _, x in lcs if isinstance(x, Rec)}
                if len(fs) == 1:
                    f = self.final_overrider(next(x.cls for _, x in lcs if isinstance(x, Rec)), f)
                else:
                    raise Unsupported('virtual call on split object at %s' % self.where(node))
        return self.call(f, this, args, node)

    def e_call(self, e, fr):
        if 'f' in e:
            f = fr.tu.funs[e['f']]
            if 'opcall' in e and f.get('kind') in ('method',) and not f.get('static'):
                this = self.ev(e['args'][0])
                if isinstance(this, Ptr):
                    # an operator of a temporary smart pointer, not of what it points to
                    this = self.new(this)
                args = [self.arg(a) for a in e['args'][1:]]
                cls = fr.tu.recs.get(f.get('cls'))
                if f['n'] == 'operator()' and (cls or {}).get('lambda'):
                    return self.call_value(this, args, e, f)
                return self.dispatch(f, this, args, e, False)
            if 'this' in e:
                this = self.ev(e['this'])
                if e.get('arrow'):
                    this = self.deref(self.rv(this), e)
                elif isinstance(this, Ptr):
                    this = this.t
                args = [self.arg(a) for a in e['args']]
                cls = fr.tu.recs.get(f.get('cls'))
                if f['n'] == 'operator()' and (cls or {}).get('lambda'):
                    return self.call_value(this, args, e, f)
                return self.dispatch(f, this, args, e, e.get('devirt', False))
            args = [self.arg(a) for a in e['args']]
            return self.call(f, None, args, e)
        fe = e['fe']
        if fe['k'] == 'bin' and fe['op'] in ('.*', '->*'):
            b = self.ev(fe['a'])
            if fe['op'] == '->*':
                b = self.deref(self.rv(b), e)
            m = self.rv(self.ev(fe['b']))
            args = [self.arg(a) for a in e['args']]
            if isinstance(m, Fn):
                return self.dispatch(m.f, b, args, e)
            raise Unsupported('member pointer call')
        fv = self.ev(fe)
        args = [self.arg(a) for a in e['args']]
        return self.call_value(fv, args, e)

    def e_ctor(self, e, fr):
        f = fr.tu.funs[e['f']]
        rec = fr.tu.recs[f['cls']]
        args = [self.arg(a) for a in e['args']]
        bn = rec['bn']
        import models
        h = self.opaque.get(f['bn'])
        if h is not None:
            r = h(self, f, None, args, e)
            if r is not NotImplemented:
                return r
        if fr.tu.ty(e['t'])['k'] == 'arr' and not args:
            return self.default(fr.tu, e['t'], e)
        if bn.startswith(('std::', 'Eigen::', '__gnu_cxx')) or not (rec.get('repo')):
            return models.construct(self, fr.tu, e['t'], args, e, f)
        if rec.get('lambda'):
            return self.rv(args[0])
        if f.get('copy') or f.get('move'):
            d = self.P.definition(f)
            if d is None or d.get('body') is None:
                v = self.rv(args[0])
                if f.get('move') and is_lv(args[0]):
                    self.store(args[0], self.moved(v), e)
                return v
        d = self.P.definition(f) or f
        r2 = self.P.recs.get(rec['key'], rec)
        return self.construct_repo(r2, args, f, e)

    def moved(self, v):
        if isinstance(v, Ptr) and v.own:
            return Ptr(None, True)
        if isinstance(v, Vec):
            return Vec(()) if v.e and any(isinstance(x, Ptr) for x in v.e) else v
        if isinstance(v, Rec):
            return Rec(v.cls, {k: self.moved(x) for k, x in v.f.items()}, v.sym)
        if isinstance(v, Tup):
            return Tup([self.moved(x) for x in v.e])
        return v

    def e_ilist(self, e, fr):
        t = fr.tu.ty(e['t'])
        if t['k'] == 'rec':
            rec = fr.tu.recs[t['r']]
            if len(e['args']) == 1:
                t1 = fr.tu.strip(e['args'][0]['t'])
                if t1['k'] == 'rec' and t1['r'] == t['r']:
                    # a braced copy of the same type
                    return self.rv(self.ev(e['args'][0]))
            if rec.get('repo'):
                rec = self.P.recs.get(rec['key'], rec)
                vals = [self.rv(self.ev(a)) for a in e['args']]
                f = {}
                fs = self.P.fields(rec)
                for (fld, owner), v in zip(fs, vals):
                    f[fld['n']] = self.plain(v, owner['tu'].ty(fld['t']))
                return Rec(rec['key'], f)
            if rec['bn'] == 'std::array':
                if len(e['args']) == 1 and e['args'][0]['k'] == 'ilist':
                    return self.rv(self.ev(e['args'][0]))
                if not e['args']:
                    n = t['a'][1]['i']
                    return Vec([self.default(fr.tu, t['a'][0]['t'], e, True) for _ in range(n)])
                return Vec([self.rv(self.ev(a)) for a in e['args']])
            raise Unsupported('initialiser list for %s' % rec['bn'])
        if t['k'] == 'arr':
            vals = [self.rv(self.ev(a)) for a in e['args']]
            n = t.get('size') or len(vals)
            while len(vals) < n:
                vals.append(self.rv(self.ev(e['filler'])) if e.get('filler') else self.default(fr.tu, t['e'], e, True))
            return Vec(vals)
        if len(e['args']) == 1:
            return self.rv(self.ev(e['args'][0]))
        if not e['args']:
            return self.default(fr.tu, e['t'], e, True)
        raise Unsupported('initialiser list')

    def e_new(self, e, fr):
        t = fr.tu.ty(e['at'])
        if e.get('arr'):
            n = cst(self.rv(self.ev(e['arr'])))
            if n is None:
                raise Unsupported('array new')
            return Ptr(self.new(Vec([self.default(fr.tu, e['at'], e) for _ in range(n)])).at(('i', ZERO)))
        ini = e.get('init')
        if ini is not None and ini['k'] == 'ctor':
            f = fr.tu.funs[ini['f']]
            rec = fr.tu.recs[f['cls']]
            if rec.get('repo') and f['bn'] not in self.opaque and not (f.get('copy') or f.get('move')):
                args = [self.arg(a) for a in ini['args']]
                rec = self.P.recs.get(rec['key'], rec)
                loc = self.new(Rec(rec['key'], {}))
                self.run_ctor(rec, f, loc, args, e)
                return Ptr(loc)
        v = self.rv(self.ev(ini)) if ini is not None else self.default(fr.tu, e['at'], e)
        return Ptr(self.new(v))

    def e_delete(self, e, fr):
        p = self.rv(self.ev(e['e']))
        self.event('delete', e, True, ptr=p)
        return None

    def e_throw(self, e, fr):
        what = 'rethrow'
        if e.get('e') is not None:
            t = fr.tu.strip(e['e']['t'])
            what = base(t.get('n', t.get('s', '?')))
        self.throws.append((fr.pc, what, self.mem))
        self.event('throw', e, True, what=what)
        fr.pc = False
        raise Dead()

    def e_stmtexpr(self, e, fr):
        raise Unsupported('statement expression')

    # ------------------------------------------------------------- entry
    def run(self, f, this=None, args=()):
        """value graph of a call with an empty stack; returns value (None when it always throws)"""
        root = Frame(f['tu'], {'qn': '<entry>', 'ret': None, 'bn': ''})
        root.dead = False
        self.frames = [root]
        self.throws = []
        self.events = []
        Interp.last = self
        ctx0 = CTX.push()
        try:
            if this is not None:
                v = self.dispatch(f, this, list(args), None)
            else:
                v = self.call(f, None, list(args), None)
        except Dead:
            v = None
        except Unsupported as e:
            if e.var is None or e.var in CTX.known:
                e.var = self.split_candidate()
            raise
        finally:
            CTX.pop(ctx0)
            self.frames = []
        return v

    def split_candidate(self):
        """a decision the current state depends on"""
        try:
            pc = self.abspc()
        except Exception:
            pc = None
        seen, best = set(), None

        def go(x):
            nonlocal best
            if id(x) in seen:
                return
            seen.add(id(x))
            if isinstance(x, D):
                if x.v not in CTX.known and (best is None or x.v.id < best.id):
                    best = x.v
                for k in x.k:
                    go(k)
            elif isinstance(x, Rec):
                for y in (x.f or {}).values():
                    go(y)
            elif isinstance(x, (Vec, Tup, Mat)):
                for y in x.e:
                    go(y)
            elif isinstance(x, (Ptr, Ref)):
                go(x.t)
            elif isinstance(x, Iter):
                go(x.i)
                go(x.loc)
            elif isinstance(x, Loc):
                for y in x.path:
                    if isinstance(y, tuple):
                        for z in y:
                            go(z)
        go(pc)
        if best is None:
            for v in list(self.mem.values()):
                go(v)
        return best

    def throw_cond(self):
        c = False
        for pc, what, mem in self.throws:
            c = bor(c, pc)
        return c


UNDEF_BOOL = False
INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short',
        'char', 'signed char', 'unsigned char', 'bool'}
INTFN = {'floor', 'ceil', 'round', 'trunc'}


def has_undef(v):
    if v is UNDEF:
        return True
    if isinstance(v, D):
        return any(l is UNDEF for _, l in leaves(v))
    return False


PI_TXT = Fraction('3.14159265358979323846264338327950288419716939937510')


def literal(e):
    """exact value of a floating literal (decimal source text, so tables are exact)"""
    s = e.get('src', '').rstrip('fFlLqQ').replace("'", '')
    try:
        v = Fraction(s)
        hx = Fraction(float.fromhex(e['v'])) if 'x' in e['v'] else None
        if hx is not None and abs(v - hx) > abs(hx) * Fraction(1, 10 ** 12):
            v = hx
    except (ValueError, ZeroDivisionError):
        if e['v'].lower() in ('infinity', 'inf', 'nan'):
            return sym(e['v'])
        v = Fraction(float.fromhex(e['v']))
    return ispi(rc(v))


def ispi(v):
    c = v.const() if isinstance(v, R) else None
    if c is not None and abs(c - PI_TXT) < Fraction(1, 10 ** 14):
        return PI()
    return v


def PI():
    return sym('pi', positive=True)
