"""Value domain of the analyses: gated (decision-diagram) values whose leaves are
exact Laurent polynomials over canonical atoms, plus a non-commutative ring for
dynamically sized matrices.  Everything here is exact arithmetic on Fractions;
no value of the analysed program is ever sampled or executed."""
import math
from fractions import Fraction
import itertools, math, re

F0, F1 = Fraction(0), Fraction(1)


class Unsupported(Exception):
    """A construct outside what the analysis models; var: a decision whose outcome would simplify the state."""
    var = None


# --------------------------------------------------------------------------- atoms
class Atoms:
    def __init__(self):
        self.list = []          # id -> (fn, args)
        self.index = {}
        self.byfn = {}
        self.ints = set()       # atom ids known to be integers
        self.positive = set()   # atom ids known > 0
        self.commuting = {}     # NC only
        self.nans = set()       # atoms standing for a floating-point NaN

    def get(self, fn, *args, positive=False):
        k = (fn,) + args
        i = self.index.get(k)
        if i is None:
            i = len(self.list)
            self.list.append((fn, args))
            self.index[k] = i
            self.byfn.setdefault((fn, len(args)), []).append(i)
        if positive:
            self.positive.add(i)
        return i

    def show(self, i):
        fn, args = self.list[i]
        if not args:
            return str(fn)
        return '%s(%s)' % (fn, ', '.join(show(a) for a in args))


A = Atoms()


def reset():
    A.__init__()
    D._tab.clear()
    Var._tab.clear()
    Var._list.clear()
    CTX.clear()


# --------------------------------------------------------------------------- polynomials
def _addterms(a, b, sb=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, F0) + (c if sb == 1 else c * sb)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mulmono(m1, m2):
    """product of two monomials; returns list of (atom,exp) sorted, may need sqrt reduction"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        x = d.get(a, 0) + e
        if x:
            d[a] = x
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


class R:
    """Laurent polynomial over atoms with Fraction coefficients."""
    __slots__ = ('t', '_h')

    def __init__(self, terms):
        self.t = terms
        self._h = None

    def __hash__(self):
        if self._h is None:
            if not self.t:
                self._h = hash(0)
            elif len(self.t) == 1 and () in self.t:
                self._h = hash(self.t[()])
            else:
                self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, R):
            return self.t == o.t
        if isinstance(o, (int, Fraction)) and not isinstance(o, bool):
            return self.t == ({(): Fraction(o)} if o else {})
        return NotImplemented

    def const(self):
        if not self.t:
            return F0
        if len(self.t) == 1:
            return self.t.get(())
        return None

    def __repr__(self):
        return showR(self)

    def atoms(self):
        return {a for m in self.t for a, _ in m}


def rc(c):
    c = Fraction(c)
    return R({(): c} if c else {})


ZERO, ONE = R({}), R({(): F1})


def sym(name, positive=False):
    return R({((A.get(name, positive=positive), 1),): F1})


def atom(fn, *args, positive=False):
    return R({((A.get(fn, *args, positive=positive), 1),): F1})


def showR(r, maxn=12):
    if not r.t:
        return '0'
    out = []
    for m, c in sorted(r.t.items(), key=lambda kv: str(kv[0])):
        s = '*'.join(A.show(a) + ('' if e == 1 else '^%s' % e) for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        out.append(s)
        if len(out) > maxn:
            out.append('...')
            break
    return ' + '.join(out)


def show(v):
    if isinstance(v, R):
        return showR(v)
    if isinstance(v, tuple):
        return '[' + ', '.join(show(x) for x in v) + ']'
    return str(v)


def _sqrt_arg(a):
    fn, args = A.list[a]
    return args[0] if fn == 'sqrt' else None


def _reduce(terms):
    """apply sqrt(P)^2 = P (non-positive-flagged sqrt atoms are still principal roots)"""
    again = False
    for m in terms:
        for a, e in m:
            if (e >= 2 or e <= -2) and A.list[a][0] == 'sqrt':
                again = True
                break
    if not again:
        return terms
    res = ZERO
    for m, c in terms.items():
        p = R({(): c})
        for a, e in m:
            if A.list[a][0] == 'sqrt' and (e >= 2 or e <= -2):
                P = A.list[a][1][0]
                q, rem = divmod(abs(e), 2)
                base = P if e > 0 else inv(P)
                for _ in range(int(q)):
                    p = rmul(p, base)
                if rem:
                    p = rmul(p, R({((a, rem if e > 0 else -rem),): F1}))
            else:
                p = rmul(p, R({((a, e),): F1}))
        res = radd(res, p)
    return res.t


def radd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    return R(_addterms(a.t, b.t))


def rsub(a, b):
    if not b.t:
        return a
    return R(_addterms(a.t, b.t, -1))


def rneg(a):
    return R({m: -c for m, c in a.t.items()})


def rmul(a, b):
    if not a.t or not b.t:
        return ZERO
    if len(a.t) > len(b.t):
        a, b = b, a
    r = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = _mulmono(m1, m2)
            v = r.get(m)
            v = c1 * c2 if v is None else v + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return R(_reduce(r))


def content(r):
    """(coef, monomial, rest) with rest having leading coef 1 and no monomial content"""
    monos = list(r.t)
    common = dict(monos[0])
    for m in monos[1:]:
        d = dict(m)
        for a in list(common):
            e = d.get(a, 0)
            if (e > 0) != (common[a] > 0) or e == 0:
                del common[a]
            else:
                common[a] = min(common[a], e) if e > 0 else max(common[a], e)
        # negative exponents appearing only in some terms: pull them all out
    for m in monos:
        for a, e in m:
            if e < 0:
                common[a] = min(common.get(a, 0), e)
    cm = tuple(sorted((a, e) for a, e in common.items() if e))
    icm = tuple((a, -e) for a, e in cm)
    rest = {_mulmono(m, icm): c for m, c in r.t.items()}
    lead = min(rest)
    lc = rest[lead]
    return lc, cm, R({m: c / lc for m, c in rest.items()})


def inv(r):
    c = r.const()
    if c is not None:
        if c == 0:
            return atom('inv0')
        return rc(1 / c)
    if len(r.t) == 1:
        (m, c), = r.t.items()
        return R(_reduce({tuple((a, -e) for a, e in m): 1 / c}))
    lc, cm, rest = content(r)
    if len(rest.t) == 1:
        return R(_reduce({tuple((a, -e) for a, e in cm): 1 / lc}))
    i = _intern_like('inv', rest)
    return rmul(R({tuple((a, -e) for a, e in cm): 1 / lc}), R({((i, 1),): F1}))


def _intern_like(fn, *args):
    """atom fn(args) with semantically equal arguments sharing one atom"""
    k = (fn,) + args
    i = A.index.get(k)
    if i is not None:
        return i
    for j in A.byfn.get((fn, len(args)), ()):
        a2 = A.list[j][1]
        try:
            if all(_leaf_eq(x, y) for x, y in zip(args, a2)):
                A.index[k] = j
                return j
        except Unsupported:
            pass
    return A.get(fn, *args)


def _leaf_eq(x, y):
    if x == y:
        return True
    if isinstance(x, R) and isinstance(y, R):
        return is_zero(rsub(x, y))
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(_leaf_eq(p, q) for p, q in zip(x, y))
    return False


def app(fn, *args):
    """uninterpreted application; gated arguments give a gated result"""
    if any(isinstance(a, D) for a in args):
        return lift(lambda *xs: app(fn, *xs), *args)
    return R({((_intern_like(fn, *args), 1),): F1})


def rdiv(a, b):
    return rmul(a, inv(b))


def rpow(a, n):
    if n < 0:
        return rpow(inv(a), -n)
    r = ONE
    for _ in range(n):
        r = rmul(r, a)
    return r


def rsqrt(r):
    c = r.const()
    if c is not None:
        if c < 0:
            return app('sqrt', r)
        n, d = c.numerator, c.denominator
        # sqrt(n/d) = sqrt(n*d)/d ; pull squares out
        k = n * d
        s = 1
        p = 2
        while p * p <= k and p < 1000:
            while k % (p * p) == 0:
                k //= p * p
                s *= p
            p += 1
        rt = math.isqrt(k)
        if rt * rt == k:
            return rc(Fraction(s * rt, d))
        return rmul(rc(Fraction(s, d)), atom('sqrt', rc(k)))
    if len(r.t) == 1:
        (m, c), = r.t.items()
        if c > 0 and all(a in A.positive for a, _ in m):
            return rmul(rsqrt(rc(c)), R({tuple((a, Fraction(e) / 2) for a, e in m): F1}))
    # pull out positive monomial/constant content
    lc, cm, rest = content(r)
    return R({((_intern_like('sqrt', r), 1),): F1})


def is_zero(r, depth=0):
    if not r.t:
        return True
    invs = {}
    for m in r.t:
        for a, e in m:
            fn = A.list[a][0]
            if fn == 'inv':
                invs[a] = max(invs.get(a, 0), e)
            elif fn == 'sqrt' and e < 0:
                invs[a] = max(invs.get(a, 0), -e)
    if not invs or depth > 6:
        return False
    a, k = next(iter(invs.items()))
    fn, args = A.list[a]
    P = args[0]
    if fn == 'inv':
        res = ZERO
        for m, c in r.t.items():
            e = dict(m).get(a, 0)
            mm = tuple(x for x in m if x[0] != a)
            res = radd(res, rmul(R({mm: c}), rpow(P, int(k - e))))
        return is_zero(res, depth + 1)
    # sqrt with negative exponent: multiply by sqrt^k
    res = rmul(r, R({((a, 1),): F1}))
    return is_zero(res, depth + 1)


def subst(r, mapping):
    """substitute atoms (id -> R); inside function atoms too"""
    if not mapping or not r.t:
        return r
    memo = {}

    def sub_atom(a):
        if a in mapping:
            return mapping[a]
        if a in memo:
            return memo[a]
        fn, args = A.list[a]
        if not args:
            res = None
        else:
            na = tuple(sub_any(x) for x in args)
            if na == args:
                res = None
            elif fn == 'sqrt':
                res = rsqrt(na[0])
            elif fn == 'inv':
                res = inv(na[0])
            else:
                res = app(fn, *na)
        memo[a] = res
        return res

    def sub_any(x):
        if isinstance(x, R):
            return subst_(x)
        if isinstance(x, tuple):
            return tuple(sub_any(y) for y in x)
        return x

    def subst_(r):
        out = ZERO
        for m, c in r.t.items():
            p = R({(): c})
            plain = []
            for a, e in m:
                v = sub_atom(a)
                if v is None:
                    plain.append((a, e))
                else:
                    if e == int(e):
                        p = rmul(p, rpow(v, int(e)))
                    elif e * 2 == int(e * 2):
                        p = rmul(p, rpow(rsqrt(v), int(e * 2)))
                    else:
                        raise Unsupported('fractional power substitution')
            if plain:
                p = rmul(p, R({tuple(plain): F1}))
            out = radd(out, p)
        return out

    return subst_(r)


def diff(r, rules):
    """formal derivative; rules: callable atom_id -> R or None (None: constant)"""
    out = ZERO
    for m, c in r.t.items():
        for k, (a, e) in enumerate(m):
            da = datom(a, rules)
            if da is None or not da.t:
                continue
            rest = list(m)
            if e == 1:
                rest.pop(k)
            else:
                rest[k] = (a, e - 1)
            out = radd(out, rmul(R({tuple(rest): c * e}), da))
    return out


def datom(a, rules):
    d = rules(a)
    if d is not None:
        return d
    fn, args = A.list[a]
    if fn == 'inv':
        dp = diff(args[0], rules)
        return rneg(rmul(dp, R({((a, 2),): F1}))) if dp.t else None
    if fn == 'sqrt':
        dp = diff(args[0], rules)
        return rmul(rmul(rc(Fraction(1, 2)), dp), R({((a, -1),): F1})) if dp.t else None
    return None


# --------------------------------------------------------------------------- NC ring
class NC:
    """Non-commutative polynomial: words of ring symbols with R coefficients.
    A symbol is (name, transposed:bool); names in DIAG commute with each other."""
    __slots__ = ('t', '_h')
    DIAG = set()

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, NC) and self.t == o.t

    def __repr__(self):
        if not self.t:
            return 'NC0'
        return ' + '.join('(%s)%s' % (c, '.'.join(n + ("'" if tr else '') for n, tr in w))
                          for w, c in list(sorted(self.t.items(), key=lambda kv: str(kv[0])))[:8])


def nc(r):
    return NC({(): r} if r.t else {})


def ncsym(name, diag=False):
    if diag:
        NC.DIAG.add(name)
    return NC({((name, False),): ONE})


def _ncword(w1, w2):
    w = list(w1) + list(w2)
    # inverse / orthogonality cancellation: Q Q' = Q' Q = I for names flagged ortho; X * inv(X)
    i = 0
    while i + 1 < len(w):
        a, b = w[i], w[i + 1]
        if (a[0] == b[0] and a[1] != b[1] and a[0] in NC_ORTHO) or \
                (a[0] == b[0] + '^-1' and a[1] == b[1]) or (b[0] == a[0] + '^-1' and a[1] == b[1]):
            del w[i:i + 2]
            i = max(0, i - 1)
            continue
        if a[0] in NC.DIAG and b[0] in NC.DIAG and b[0] < a[0]:
            w[i], w[i + 1] = (b[0], False), (a[0], False)
            i = max(0, i - 1)
            continue
        i += 1
    return tuple((n, False) if n in NC.DIAG else (n, tr) for n, tr in w)


NC_ORTHO = set()


def toNC(x):
    if isinstance(x, NC):
        return x
    if isinstance(x, R):
        return nc(x)
    if isinstance(x, (int, Fraction)):
        return nc(rc(x))
    raise Unsupported('not a ring value: %r' % (x,))


def nadd(a, b, s=1):
    r = dict(a.t)
    for w, c in b.t.items():
        v = r.get(w, ZERO)
        v = radd(v, c) if s == 1 else rsub(v, c)
        if v.t:
            r[w] = v
        else:
            r.pop(w, None)
    return NC(r)


def nmul(a, b):
    r = {}
    for w1, c1 in a.t.items():
        for w2, c2 in b.t.items():
            w = _ncword(w1, w2)
            v = radd(r.get(w, ZERO), rmul(c1, c2))
            if v.t:
                r[w] = v
            else:
                r.pop(w, None)
    return NC(r)


def ntranspose(a):
    r = {}
    for w, c in a.t.items():
        w2 = _ncword((), tuple((n, (not tr) if n not in NC.DIAG else False) for n, tr in reversed(w)))
        r[w2] = radd(r.get(w2, ZERO), c)
    return NC({w: c for w, c in r.items() if c.t})


# --------------------------------------------------------------------------- decision diagrams
class Var:
    """decision variable: ('sgn', R) with outcomes lt,eq,gt[,nan]  or ('bool', key) with False,True"""
    _tab = {}
    _list = []
    __slots__ = ('kind', 'key', 'id', 'n')

    @classmethod
    def get(cls, kind, key, n):
        k = (kind, key, n)
        v = cls._tab.get(k)
        if v is None:
            v = cls()
            v.kind, v.key, v.n = kind, key, n
            v.id = len(cls._list)
            cls._list.append(v)
            cls._tab[k] = v
        return v

    def label(self, i):
        if self.kind == 'sgn':
            return '%s %s 0' % (showR(self.key, 6), ['<', '==', '>', 'is NaN vs'][i])
        return ('' if i else 'not ') + show(self.key)


class D:
    _tab = {}
    __slots__ = ('v', 'k', '__weakref__')

    @classmethod
    def mk(cls, v, kids):
        first = kids[0]
        same = True
        for x in kids[1:]:
            if x is IGN:
                continue
            if first is IGN:
                first = x
                continue
            if not same_leaf(first, x):
                same = False
                break
        if same:
            return first
        key = (v.id, tuple(id(x) if isinstance(x, D) else ('L', x) for x in kids))
        try:
            d = cls._tab.get(key)
        except TypeError:
            d = None
            key = None
        if d is None:
            d = cls()
            d.v, d.k = v, tuple(kids)
            if key is not None:
                cls._tab[key] = d
        return d

    def __repr__(self):
        return 'D<%s>' % '; '.join('%s -> %r' % (showpath(l), v) for l, v in itertools.islice(paths(self), 6))


class _Ign:
    def __repr__(self):
        return 'IGN'


IGN = _Ign()     # infeasible outcome


def same_leaf(a, b):
    if a is b:
        return True
    if isinstance(a, D) or isinstance(b, D):
        return False
    if type(a) is not type(b):
        if isinstance(a, bool) or isinstance(b, bool):
            return False
        return False
    try:
        return a == b
    except Exception:
        return False


def leaves(d):
    """(None, leaf) for the leaves of a diagram, every inner node visited once"""
    if not isinstance(d, D):
        yield None, d
        return
    seen, todo = {id(d)}, [d]
    while todo:
        x = todo.pop()
        for k in reversed(x.k):
            if k is IGN:
                continue
            if isinstance(k, D):
                if id(k) not in seen:
                    seen.add(id(k))
                    todo.append(k)
            else:
                yield None, k


def paths(d, path=()):
    """(list of (var, outcome), leaf)"""
    if isinstance(d, D):
        for i, k in enumerate(d.k):
            if k is IGN:
                continue
            yield from paths(k, path + ((d.v, i),))
    else:
        yield path, d


def lift(fn, *args):
    """apply fn to all leaf combinations"""
    if not any(isinstance(a, D) for a in args):
        if any(a is IGN for a in args):
            return IGN
        return fn(*args)
    memo = {}

    def go(args):
        if not any(isinstance(a, D) for a in args):
            if any(a is IGN for a in args):
                return IGN
            return fn(*args)
        key = tuple(id(a) for a in args)
        hit = memo.get(key)
        if hit is not None:
            return hit[0]
        v = min((a.v for a in args if isinstance(a, D)), key=lambda v: v.id)
        kids = []
        for i in range(v.n):
            kids.append(go(tuple(a.k[i] if isinstance(a, D) and a.v is v else a for a in args)))
        # fn may create lower-ordered variables: rebuild in order
        res = _ordered(v, kids)
        memo[key] = (res, args)
        return res

    return go(args)


def _minvar(x):
    return x.v.id if isinstance(x, D) else 1 << 60


def _ordered(v, kids):
    if all(_minvar(k) > v.id for k in kids):
        return D.mk(v, kids)
    # some kid has a smaller or equal variable: use generic select
    def sel(i):
        return D.mk(v, [True if j == i else False for j in range(v.n)])
    res = kids[-1]
    for i in range(v.n - 2, -1, -1):
        res = ite(sel(i), kids[i], res)
    return res


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    memo = {}

    def go(c, a, b):
        if c is IGN:
            return IGN
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        key = (id(c), id(a), id(b))
        hit = memo.get(key)
        if hit is not None:
            return hit[0]
        v = min((x.v for x in (c, a, b) if isinstance(x, D)), key=lambda v: v.id)

        def co(x, i):
            return x.k[i] if isinstance(x, D) and x.v is v else x
        kids = [go(co(c, i), co(a, i), co(b, i)) for i in range(v.n)]
        res = D.mk(v, kids)
        memo[key] = (res, (c, a, b))
        return res

    return go(c, a, b)


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ite(a, b, False)


def bor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return ite(a, True, b)


def bnot(a):
    if a is True:
        return False
    if a is False:
        return True
    return ite(a, False, True)


def bvar(key):
    v = Var.get('bool', key, 2)
    k = CTX.known.get(v)
    if k is not None:
        return bool(k)
    return D.mk(v, [False, True])


# --------------------------------------------------------------------------- assumptions (linear)
class Ctx:
    """Assumption context: a conjunction of linear (in)equalities over monomials, decided by
    exact Fourier-Motzkin projection (polyhedral abstract domain)."""

    def __init__(self):
        self.clear()

    def clear(self):
        self.cons = []      # (terms dict mono->coef incl. () const, kind in '<','<=','==')  meaning expr kind 0
        self.known = {}
        self.nan = False
        self.cache = {}
        self.subs = []

    def decide(self, v, i):
        """assume outcome i of a decision variable"""
        self.known[v] = i
        if v.kind == 'sgn' and i < 3:
            self.assume(v.key, ('<', '==', '>')[i])

    def outcomes(self, v):
        if v.kind != 'sgn':
            return list(range(v.n))
        f = self.feasible_signs(v.key)
        return [i for i in range(v.n) if i == 3 or f is None or f[i]]

    def push(self):
        return (list(self.cons), dict(self.known), self.nan)

    def pop(self, s):
        self.cons, self.known, self.nan = list(s[0]), dict(s[1]), s[2]
        self.cache = {}

    def assume(self, r, kind):
        """r kind 0"""
        if kind == '>':
            r, kind = rneg(r), '<'
        elif kind == '>=':
            r, kind = rneg(r), '<='
        self.cons.append((dict(r.t), kind))
        self.cache = {}

    def lt(self, a, b):
        self.assume(rsub(a, b), '<')

    def eq(self, a, b):
        self.assume(rsub(a, b), '==')

    def le(self, a, b):
        self.assume(rsub(a, b), '<=')

    def feasible_signs(self, r):
        if not self.cons:
            return None
        k = r
        hit = self.cache.get(k)
        if hit is None:
            # only worthwhile if r shares monomials with the constraints
            out = []
            for kind in ('<', '==', '>'):
                t, kd = dict(r.t), kind
                if kind == '>':
                    t, kd = {m: -c for m, c in t.items()}, '<'
                out.append(feasible(relevant(self.cons, t) + [(t, kd)]))
            hit = out
            self.cache[k] = hit
        return hit


def _intmono(m):
    return all(e > 0 and (a in A.ints or A.list[a][0] in ('floor', 'ceil', 'round', 'trunc')) for a, e in m)


def integer(name):
    """an integer-valued symbol"""
    r = sym(name)
    A.ints |= r.atoms()
    return r


def linked(m):
    """the monomial and those its rounding facts mention"""
    if len(m) == 1 and m[0][1] == 1:
        fn, args = A.list[m[0][0]]
        if fn in ('floor', 'ceil') and isinstance(args[0], R):
            out = {m}
            for k in args[0].t:
                if k:
                    out |= linked(k)
            return out
    return {m}


def relevant(cons, t):
    """the constraints connected to the expression t through shared monomials (the context itself is consistent)"""
    reach = set()
    for m in t:
        if m:
            reach |= linked(m)
    left = [(c, set().union(*[linked(m) for m in c[0] if m])) for c in cons]
    out = []
    while True:
        nxt = []
        for c, ms in left:
            if ms & reach or not ms:
                out.append(c)
                reach |= ms
            else:
                nxt.append((c, ms))
        if len(nxt) == len(left):
            return out
        left = nxt


def _posmono(m):
    return bool(m) and all(a in A.positive or e % 2 == 0 and False for a, e in m)


_FEAS = {}


def feasible(cons):
    """exact feasibility of a small linear system; cons: list of (terms, kind)."""
    key = frozenset((frozenset(t.items()), k) for t, k in cons)
    r = _FEAS.get(key)
    if r is None:
        if len(_FEAS) > 400000:
            _FEAS.clear()
        r = _FEAS[key] = _feasible(cons)
    return r


def _norm(t):
    """scale to coprime integers (positive factor)"""
    den = 1
    for c in t.values():
        d = c.denominator
        den = den * d // math.gcd(den, d)
    v = {m: int(c * den) for m, c in t.items() if c}
    g = 0
    for c in v.values():
        g = math.gcd(g, c)
    if g > 1:
        v = {m: c // g for m, c in v.items()}
    return v


def _comb(t1, f1, t2, f2):
    r = {m: c * f1 for m, c in t1.items()}
    for m, c in t2.items():
        v = r.get(m, 0) + c * f2
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    g = 0
    for c in r.values():
        g = math.gcd(g, c)
    if g > 1:
        r = {m: c // g for m, c in r.items()}
    return r


def _feasible(cons):
    cons = [(_norm(t), k) for t, k in cons]
    # positivity facts for monomials of positive atoms
    monos = {m for t, _ in cons for m in t if m}
    todo, seen = list(monos), set(monos)
    while todo:
        m = todo.pop()
        if len(m) == 1 and m[0][1] == 1:
            fn, args = A.list[m[0][0]]
            if fn in ('floor', 'ceil') and isinstance(args[0], R):
                # floor(x) <= x < floor(x) + 1, ceil(x) - 1 < x <= ceil(x)
                t = dict(args[0].t)
                t[m] = t.get(m, 0) - 1
                lo, hi = ({k: -c for k, c in t.items()}, '<='), (dict(t), '<')
                if fn == 'ceil':
                    lo, hi = (dict(t), '<='), ({k: -c for k, c in t.items()}, '<')
                hi[0][()] = hi[0].get((), 0) - 1
                cons.append((_norm(lo[0]), lo[1]))
                cons.append((_norm(hi[0]), hi[1]))
                for k in args[0].t:
                    if k and k not in seen:
                        seen.add(k)
                        todo.append(k)
    for m in seen:
        if _posmono(m):
            cons.append(({m: -1}, '<'))
    # t < 0 over the integers is t <= -1
    for i, (t, k) in enumerate(cons):
        if k == '<' and any(t) and all(_intmono(m) for m in t if m):
            t = dict(t)
            t[()] = t.get((), 0) + 1
            cons[i] = (t, '<=')
    # eliminate equalities
    while True:
        for i, (t, k) in enumerate(cons):
            if k == '==':
                break
        else:
            break
        cons.pop(i)
        x = next((m for m in t if m), None)
        if x is None:
            if t:
                return False
            continue
        cx = t[x]
        s = 1 if cx > 0 else -1
        cons = [(_comb(t2, abs(cx), t, -t2[x] * s), k2) if x in t2 else (t2, k2) for t2, k2 in cons]
    guard = 0
    while True:
        vs = {}
        live = []
        for t, k in cons:
            if len(t) == 0 or (len(t) == 1 and () in t):
                c = t.get((), 0)
                if c > 0 or (c == 0 and k == '<'):
                    return False
                continue
            live.append((t, k))
            for m, c in t.items():
                if m:
                    p, n = vs.get(m, (0, 0))
                    vs[m] = (p + (c > 0), n + (c < 0))
        if not vs:
            return True
        cons = live
        x = min(vs, key=lambda m: vs[m][0] * vs[m][1])
        pos = [(t, k) for t, k in cons if t.get(x, 0) > 0]
        neg = [(t, k) for t, k in cons if t.get(x, 0) < 0]
        rest = [(t, k) for t, k in cons if x not in t]
        if pos and neg:
            seen = {}
            for t, k in rest:
                seen.setdefault(frozenset(t.items()), k)
            for tp, kp in pos:
                for tn, kn in neg:
                    t = _comb(tp, -tn[x], tn, tp[x])
                    k = '<' if '<' in (kp, kn) else '<='
                    key = frozenset(t.items())
                    o = seen.get(key)
                    if o is None or (o == '<=' and k == '<'):
                        seen[key] = k
                        rest.append((t, k))
        cons = rest
        guard += 1
        if len(cons) > 600 or guard > 80:
            return True


CTX = Ctx()


def path_feasible(path):
    """is a decision path (list of (Var, outcome)) consistent with linear arithmetic + context?"""
    cons = list(CTX.cons)
    for v, i in path:
        if v.kind != 'sgn' or i == 3:
            continue
        t = dict(v.key.t)
        if i == 0:
            cons.append((t, '<'))
        elif i == 1:
            cons.append((t, '=='))
        else:
            cons.append(({m: -c for m, c in t.items()}, '<'))
    return feasible(cons)


PI_VALUE = Fraction(314159265358979323846264338327950288419716939937510, 10 ** 50)


def near(r):
    """value, to twenty digits or so, of an expression in pi alone (None for others)"""
    s = Fraction(0)
    for m, c in r.t.items():
        for a, e in m:
            if A.list[a][0] != 'pi' or not isinstance(e, int) or abs(e) > 8:
                return None
            c = c * PI_VALUE ** e
        s += c
    return s


def signD(r, lt, eq, gt, nan):
    """decision on the sign of r"""
    if isinstance(r, NC):
        raise Unsupported('sign of ring value')
    c = r.const()
    if c is None:
        c = near(r)
        if c is not None and abs(c) < Fraction(1, 10 ** 9):
            c = None
    if c is not None:
        return lt if c < 0 else (gt if c > 0 else eq)
    # drop positive content
    lc, cm, rest = content(r)
    drop = tuple((a, e) for a, e in cm if a in A.positive or (isinstance(e, int) and e % 2 == 0 and False))
    keep = tuple((a, e) for a, e in cm if not (a in A.positive))
    base = rmul(R({keep: F1}), rest) if (keep or len(rest.t)) else rest
    cc = base.const()
    flip = lc < 0
    if cc is not None:
        s = cc * (-1 if flip else 1)
        return lt if s < 0 else (gt if s > 0 else eq)
    # canonical orientation: leading (min) monomial coefficient positive
    lead = min(base.t)
    if base.t[lead] < 0:
        base = rneg(base)
        flip = not flip
    base = R({m: c2 / abs(base.t[lead]) for m, c2 in base.t.items()})
    kids = [gt, eq, lt] if flip else [lt, eq, gt]
    feas = CTX.feasible_signs(base)
    if feas is not None:
        kids = [k if f else IGN for k, f in zip(kids, feas)]
        live = [k for k in kids if k is not IGN]
        if not live:
            return IGN
    v = Var.get('sgn', base, 4 if CTX.nan else 3)
    if CTX.nan:
        kids.append(nan)
    kn = CTX.known.get(v)
    if kn is not None:
        return kids[kn]
    return D.mk(v, kids)


def nansym(name):
    r = sym(name)
    A.nans.add(A.get(name))
    return r


def has_nan(x):
    if isinstance(x, D):
        return any(has_nan(l) for _, l in leaves(x))
    if not isinstance(x, R):
        return False
    for a in x.atoms():
        if a in A.nans or any(has_nan(y) for y in A.list[a][1]):
            return True
    return False


def compare(op, a, b):
    tab = {'<': (True, False, False, False), '<=': (True, True, False, False),
           '>': (False, False, True, False), '>=': (False, True, True, False),
           '==': (False, True, False, False), '!=': (True, False, True, True)}[op]

    def leaf(x, y):
        if isinstance(x, NC) or isinstance(y, NC):
            if op == '==':
                return toNC(x) == toNC(y)
            raise Unsupported('ring comparison')
        if isinstance(x, R) and isinstance(y, R):
            if A.nans and (has_nan(x) or has_nan(y)):
                return tab[3]
            return signD(rsub(x, y), *tab)
        if op in ('==', '!='):
            if not isinstance(x, R) and not isinstance(y, R):
                return (x == y) == (op == '==')
        raise Unsupported('comparison of %r and %r' % (x, y))
    return lift(leaf, a, b)


def _num2(fr, fn):
    def leaf(a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, NC) or isinstance(b, NC):
            return fn(toNC(a), toNC(b))
        if isinstance(a, R) and isinstance(b, R):
            return fr(a, b)
        raise Unsupported('arithmetic on %r, %r' % (type(a).__name__, type(b).__name__))
    return leaf


class _Undef:
    def __repr__(self):
        return 'UNDEF'

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return 7


UNDEF = _Undef()

_ladd = _num2(radd, lambda a, b: nadd(a, b))
_lsub = _num2(rsub, lambda a, b: nadd(a, b, -1))
_lmul = _num2(rmul, nmul)


def _ldiv(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, NC):
        if isinstance(b, NC):
            raise Unsupported('ring division')
        return nmul(a, nc(inv(b)))
    return rdiv(a, b)


# "exact" mode: floating point operations are uninterpreted (structural) terms
class Mode:
    exact = False


def _exact(op, a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return None
    if op == 'mul' and (ca == 1 or cb == 1 or ca == 0 or cb == 0 or ca == -1 or cb == -1):
        return None
    if op == 'div' and cb == 1:
        return None
    if op in ('add',) and (ca == 0 or cb == 0):
        return None
    if op == 'sub' and cb == 0:
        return None
    if op == 'sub' and a == b:
        return None
    args = (a, b)
    if op in ('add', 'mul') and repr(b) < repr(a):
        args = (b, a)
    return atom('f' + op, *args)


def add(a, b, exact=False):
    if exact and Mode.exact:
        return lift(lambda x, y: (_exact('add', x, y) if isinstance(x, R) and isinstance(y, R) else None) or _ladd(x, y), a, b)
    return lift(_ladd, a, b)


def sub(a, b, exact=False):
    if exact and Mode.exact:
        return lift(lambda x, y: (_exact('sub', x, y) if isinstance(x, R) and isinstance(y, R) else None) or _lsub(x, y), a, b)
    return lift(_lsub, a, b)


def mul(a, b, exact=False):
    if exact and Mode.exact:
        return lift(lambda x, y: (_exact('mul', x, y) if isinstance(x, R) and isinstance(y, R) else None) or _lmul(x, y), a, b)
    return lift(_lmul, a, b)


def div(a, b, exact=False):
    if exact and Mode.exact:
        return lift(lambda x, y: (_exact('div', x, y) if isinstance(x, R) and isinstance(y, R) else None) or _ldiv(x, y), a, b)
    return lift(_ldiv, a, b)


def neg(a):
    def leaf(x):
        if x is UNDEF:
            return UNDEF
        if isinstance(x, NC):
            return nmul(nc(rc(-1)), x)
        return rneg(x)
    return lift(leaf, a)


def fsqrt(a):
    return lift(lambda x: UNDEF if x is UNDEF else rsqrt(x), a)


def fabs(a):
    def leaf(x):
        if x is UNDEF:
            return UNDEF
        c = x.const()
        if c is not None:
            return rc(abs(c))
        return signD(x, rneg(x), x, x, x)
    return lift(leaf, a)


def fmin(a, b):
    # std::min(a,b): (b<a)?b:a
    return ite(compare('<', b, a), b, a) if not (isinstance(a, D) and False) else None


def fmax(a, b):
    return ite(compare('<', a, b), b, a)


def idiv(a, b):
    """C++ integer division; exact when every coefficient but the constant is divisible and the
    constant part is a remainder of a non-negative dividend."""
    def leaf(x, y):
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None and cy != 0:
            q = abs(cx) // abs(cy)
            return rc(q if (cx >= 0) == (cy > 0) else -q)
        if cy is not None and cy > 0:
            q = {}
            rem = F0
            ok = True
            for m, c in x.t.items():
                if m == ():
                    if c.denominator != 1:
                        ok = False
                        break
                    rem = c % cy
                    qq = (c - rem) / cy
                    if qq:
                        q[m] = qq
                elif c.denominator == 1 and c % cy == 0:
                    q[m] = c / cy
                else:
                    ok = False
                    break
            if ok and (rem == 0 or _nonneg(x)):
                return R(q)
        return app('idiv', x, y)
    return lift(leaf, a, b)


def imod(a, b):
    def leaf(x, y):
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None and cy != 0:
            return rc(int(math.fmod(int(cx), int(cy))))
        q = idiv(x, y)
        if isinstance(q, R) and not any(A.list[a_][0] == 'idiv' for a_ in q.atoms()):
            return rsub(x, rmul(q, y))
        return app('imod', x, y)
    return lift(leaf, a, b)


def _nonneg(x):
    fs = CTX.feasible_signs(x)
    return fs is not None and not fs[0]


# --------------------------------------------------------------------------- equality with path facts
def leaf_equal_on(path, x, y):
    if same_leaf(x, y):
        return True
    if isinstance(x, NC) or isinstance(y, NC):
        dx = nadd(toNC(x), toNC(y), -1)
        return all(is_zero(c) for c in dx.t.values())
    if isinstance(x, R) and isinstance(y, R):
        d = rsub(x, y)
        if is_zero(d):
            return True
        # use equalities on the path: eliminate an atom occurring linearly
        eqs = [v.key for v, i in path if v.kind == 'sgn' and i == 1]
        eqs += [R(dict(t)) for t, k in CTX.cons if k == '==']
        for _ in range(4):
            progress = False
            for e in eqs:
                for m, c in e.t.items():
                    if len(m) == 1 and m[0][1] == 1:
                        a = m[0][0]
                        if sum(1 for m2 in e.t if any(b == a for b, _ in m2)) == 1 and a in d.atoms():
                            rest = R({m2: c2 for m2, c2 in e.t.items() if m2 != m})
                            d = subst(d, {a: rmul(rneg(rest), rc(1 / c))})
                            progress = True
                            break
                if is_zero(d):
                    return True
            if not progress:
                break
        return False
    return x == y


def find_difference(a, b, care=True):
    """first feasible decision path on which a and b differ (None if equal everywhere)"""
    def cell(c, x, y):
        if c is False or c is IGN:
            return None
        if leaf_equal_on((), x, y):
            return None
        return _Pair(c, x, y)
    d = lift(cell, care, a, b)
    if d is None or d is IGN:
        return None

    def go(d, path):
        if d is None or d is IGN:
            return None
        if not isinstance(d, D):
            if leaf_equal_on(path, d.x, d.y):
                return None
            return path, d.x, d.y
        live = [(i, k) for i, k in enumerate(d.k) if k is not IGN and k is not None]
        for i, k in live:
            p = path + ((d.v, i),)
            if d.v.kind == 'sgn' and not path_feasible(p):
                continue
            r = go(k, p)
            if r:
                return r
        return None
    return go(d, ())


def _box(x):
    return x


class _Pair:
    __slots__ = ('c', 'x', 'y')

    def __init__(self, c, x, y):
        self.c, self.x, self.y = c, x, y

    def __eq__(self, o):
        return isinstance(o, _Pair) and self.c == o.c and same_leaf(self.x, o.x) and same_leaf(self.y, o.y)

    def __hash__(self):
        return hash((self.c, self.x if not isinstance(self.x, D) else 0))


def showpath(path):
    return ' and '.join(v.label(i) for v, i in path) or 'always'
