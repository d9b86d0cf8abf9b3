"""Abstract semantics of the std:: and Eigen:: operations the analysed code uses."""
from fractions import Fraction
from alg import *
import alg
from interp import *
from interp import Loc, View, Ptr, Ref, Rec, Vec, Tup, Mat, DiagM, Iter, Clo, Fn, OFn, Bound, MemPtr, Comma, Str, Stream, Opt, Obj
from prog import base

SCALARK = ('b', 'enum')


# --------------------------------------------------------------------------- helpers
def bad(I, what, node):
    raise Unsupported('%s at %s' % (what, I.where(node)))


def liftn(I, fn, *args):
    """apply fn to all leaf combinations of args, gating structured results"""
    for k, a in enumerate(args):
        if isinstance(a, D):
            return I.lift_struct(lambda x: liftn(I, fn, *(args[:k] + (x,) + args[k + 1:])), a)
        if a is IGN:
            return IGN
    return fn(*args)


def val(I, x):
    """fully loaded value"""
    n = 0
    while isinstance(x, (Loc, View, Ref)) or (isinstance(x, D) and is_lv(x)):
        x = I.load(x)
        n += 1
        if n > 10:
            raise Unsupported('reference cycle')
    return x


def is_mat(x):
    if isinstance(x, (Mat, DiagM)):
        return True
    return isinstance(x, D) and any(isinstance(l, (Mat, DiagM)) for _, l in leaves(x))


def is_scalar(x):
    if isinstance(x, (R, NC, bool)) or x is UNDEF:
        return True
    return isinstance(x, D) and all(isinstance(l, (R, NC, bool)) or l is UNDEF for _, l in leaves(x))


def ci(I, x, node, what='size'):
    v = num(val(I, x))
    c = cst(v)
    if c is None:
        e = Unsupported('symbolic %s %r at %s' % (what, x, I.where(node)))
        if isinstance(v, D):
            e.var = v.v
        raise e
    return c


def tuf(f):
    return f['tu']


def clsargs(f):
    r = f['tu'].recs.get(f.get('cls'))
    return (r or {}).get('a') or []


def cell_bin(op):
    def go(a, b):
        if is_mat(a) and is_mat(b):
            return mat_zip(op, a, b)
        return op(a, b)
    return go


def mat_zip(fn, a, b):
    if (a.r, a.c) != (b.r, b.c):
        if a.r * a.c == b.r * b.c and 1 in (a.r, a.c) and 1 in (b.r, b.c):
            b = Mat(a.r, a.c, b.e)
        else:
            raise Unsupported('shape mismatch %dx%d vs %dx%d' % (a.r, a.c, b.r, b.c))
    return Mat(a.r, a.c, [fn(x, y) for x, y in zip(a.e, b.e)])


def mat_map(fn, a):
    return Mat(a.r, a.c, [fn(x) for x in a.e])


def gadd(x, y):
    if isinstance(x, Mat) or isinstance(y, Mat):
        return mat_zip(gadd, x, y)
    return add(num(x), num(y), True)


def gsub(x, y):
    if isinstance(x, Mat) or isinstance(y, Mat):
        return mat_zip(gsub, x, y)
    return sub(num(x), num(y), True)


def gmul(x, y):
    """coefficient product (matrix cells multiply as matrices)"""
    if isinstance(x, Mat) and isinstance(y, Mat):
        return matmul(x, y)
    if isinstance(x, Mat):
        return mat_map(lambda e: gmul(e, y), x)
    if isinstance(y, Mat):
        return mat_map(lambda e: gmul(x, e), y)
    return mul(num(x), num(y), True)


def gdiv(x, y):
    if isinstance(x, Mat):
        return mat_map(lambda e: gdiv(e, y), x)
    return div(num(x), num(y), True)


def gneg(x):
    if isinstance(x, Mat):
        return mat_map(gneg, x)
    return neg(num(x))


def iszero_cell(x):
    return isinstance(x, R) and not x.t


def matmul(a, b):
    if isinstance(a, DiagM) or isinstance(b, DiagM):
        if isinstance(a, DiagM) and isinstance(b, Mat):
            return Mat(b.r, b.c, [gmul(a.v.e[i], b.at(i, j)) for i in range(b.r) for j in range(b.c)])
        if isinstance(b, DiagM) and isinstance(a, Mat):
            return Mat(a.r, a.c, [gmul(a.at(i, j), b.v.e[j]) for i in range(a.r) for j in range(a.c)])
    if a.c != b.r:
        raise Unsupported('product of %dx%d and %dx%d' % (a.r, a.c, b.r, b.c))
    out = []
    for i in range(a.r):
        for j in range(b.c):
            s = None
            for k in range(a.c):
                x, y = a.at(i, k), b.at(k, j)
                if iszero_cell(x) or iszero_cell(y):
                    continue
                t = gmul(x, y)
                s = t if s is None else gadd(s, t)
            out.append(ZERO if s is None else s)
    return Mat(a.r, b.c, out)


def cell_transpose(x):
    if isinstance(x, NC):
        return ntranspose(x)
    if isinstance(x, D) and any(isinstance(l, NC) for _, l in leaves(x)):
        return lift(lambda l: ntranspose(l) if isinstance(l, NC) else l, x)
    return x


def transpose(m):
    return Mat(m.c, m.r, [cell_transpose(m.at(i, j)) for j in range(m.c) for i in range(m.r)])


def kron(a, b):
    out = {}
    for i in range(a.r):
        for j in range(a.c):
            for k in range(b.r):
                for l in range(b.c):
                    out[i * b.r + k, j * b.c + l] = gmul(a.at(i, j), b.at(k, l))
    r, c = a.r * b.r, a.c * b.c
    return Mat(r, c, [out[i, j] for i in range(r) for j in range(c)])


def det(m):
    if m.r == 1:
        return m.e[0]
    if m.r == 2:
        return gsub(gmul(m.at(0, 0), m.at(1, 1)), gmul(m.at(0, 1), m.at(1, 0)))
    s = None
    for j in range(m.c):
        mi = Mat(m.r - 1, m.c - 1, [m.at(i, k) for i in range(1, m.r) for k in range(m.c) if k != j])
        t = gmul(m.at(0, j), det(mi))
        if j % 2:
            t = gneg(t)
        s = t if s is None else gadd(s, t)
    return s


def inverse(m):
    d = det(m)
    if m.r == 1:
        return Mat(1, 1, [gdiv(ONE, m.e[0])])
    out = []
    for i in range(m.r):
        for j in range(m.c):
            mi = Mat(m.r - 1, m.c - 1, [m.at(a, b) for a in range(m.r) if a != j for b in range(m.c) if b != i])
            t = det(mi)
            if (i + j) % 2:
                t = gneg(t)
            out.append(gdiv(t, d))
    return Mat(m.r, m.c, out)


def identity(r, c):
    return Mat(r, c, [ONE if i == j else ZERO for i in range(r) for j in range(c)])


def const_mat(r, c, v):
    return Mat(r, c, [v] * (r * c))


def eig_shape(tu, tid):
    """(rows, cols, elem type id) of Eigen::Matrix/Array type; -1 = dynamic"""
    t = tu.strip(tid)
    a = t['a']
    return a[1].get('i'), a[2].get('i'), a[0].get('t')


def is_cplx(f):
    r = f['tu'].recs.get(f.get('cls'))
    return 'complex' in (f.get('qn') or '') or 'complex' in str((r or {}).get('key', ''))


# --------------------------------------------------------------------------- construction
def takes_rvalue(f):
    """the (only) parameter of a constructor or assignment is an rvalue reference: its argument is moved from"""
    return bool(f) and len(f.get('ps') or ()) == 1 and tuf(f).ty(f['ps'][0]['t'])['k'] == 'rr'


def moved(I, a, left, node):
    if is_lv(a):
        I.store(a, left, node)


def construct(I, tu, tid, args, node, ctor_f=None):
    t = tu.strip(tid)
    if t['k'] in ('b', 'enum', 'p', 'mp'):
        return val(I, args[0]) if args else I.default(tu, tid, node, True)
    if t['k'] != 'rec':
        bad(I, 'construct %s' % t.get('s'), node)
    bn = base(t['n'])
    ta = t.get('a') or []
    if bn.startswith('std::__cxx11::'):
        bn = 'std::' + bn[len('std::__cxx11::'):]
    if bn.startswith('Eigen::'):
        return construct_eigen(I, tu, t, bn, args, node, ctor_f)
    raw = args
    if bn in ('std::vector', 'std::queue', 'std::deque', 'std::stack', 'std::list', 'std::initializer_list'):
        if not args:
            return Vec(())
        vs = [val(I, a) for a in args]
        a0 = vs[0]
        if isinstance(a0, Obj) and a0.kind == 'allocator':
            return Vec(())
        if isinstance(a0, Vec) or (isinstance(a0, D) and all(isinstance(l, Vec) for _, l in leaves(a0))):
            if bn == 'std::vector' and len(args) == 1 and takes_rvalue(ctor_f):
                moved(I, raw[0], Vec(()), node)
            return a0
        if isinstance(a0, Iter) and len(vs) >= 2:
            return Vec(range_values(I, a0, vs[1], node))
        et = ta[0]['t']
        n = ci(I, a0, node)
        if n < 0:
            I.event('oob', node, True, index=rc(n), size=0)
            raise Dead()
        if len(vs) >= 2 and not isinstance(vs[1], Obj):
            return Vec([vs[1]] * n)
        return Vec([I.default(tu, et, node, True) for _ in range(n)])
    if bn == 'std::array':
        if args:
            return val(I, args[0])
        return Vec([I.default(tu, ta[0]['t'], node, False) for _ in range(ta[1]['i'])])
    if bn in ('std::pair', 'std::tuple'):
        if not args:
            return Tup([I.default(tu, x['t'], node, True) for x in ta])
        if len(args) == 1 and len(ta) != 1:
            v = val(I, args[0])
            if isinstance(v, Tup) or isinstance(v, D):
                return liftn(I, lambda w: Tup([I.plain(val(I, e), tu.ty(x['t'])) if tu.ty(x['t'])['k'] not in ('r', 'rr') else e
                                               for e, x in zip(w.e, ta)]), v)
        out = []
        for a, x in zip(args, ta):
            xt = tu.ty(x['t'])
            if xt['k'] in ('r', 'rr'):
                out.append(Ref(a) if is_lv(a) else Ref(I.new(a)))
            else:
                out.append(convert(I, tu, x['t'], a, node))
        return Tup(out)
    if bn in ('std::unique_ptr', 'std::shared_ptr'):
        if not args:
            return Ptr(None, True)
        v = val(I, args[0])
        if bn == 'std::unique_ptr' and len(args) == 1 and takes_rvalue(ctor_f):
            moved(I, raw[0], Ptr(None, True), node)
        return liftn(I, lambda p: Ptr(p.t, True), v)
    if bn == 'std::function':
        if not args:
            return Ptr(None)
        v = val(I, args[0])
        return v
    if bn == 'std::optional':
        if not args:
            return Opt(False)
        v = val(I, args[0])
        if isinstance(v, Opt):
            return v
        if isinstance(v, Obj) and v.kind == 'nullopt':
            return Opt(False)
        return Opt(True, convert(I, tu, ta[0]['t'], args[0], node))
    if bn in ('__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::move_iterator'):
        if not args:
            return UNDEF
        v = val(I, args[0])
        if bn == 'std::reverse_iterator':
            if isinstance(v, Iter) and not v.rev:
                return as_reverse(I, v)
        return v
    if bn in ('std::basic_string', 'std::string', 'std::basic_string_view'):
        return val(I, args[0]) if args and isinstance(val(I, args[0]), Str) else Str('')
    if bn == 'std::complex':
        vs = [num(val(I, a)) for a in args]
        if not vs:
            return ZERO
        if len(vs) == 1:
            return vs[0]
        return add(vs[0], mul(vs[1], sym('IMAG')))
    if bn == 'std::reference_wrapper':
        return Ref(args[0] if is_lv(args[0]) else I.new(args[0]))
    if bn.endswith(('_error', 'exception', 'invalid_argument', 'out_of_range')):
        return Obj('exception', bn)
    if bn in ('std::basic_ostringstream', 'std::basic_stringstream'):
        return Stream('string')
    if bn == 'std::allocator':
        return Obj('allocator')
    if not args and (bn.startswith('std::less') or bn.startswith('std::greater') or bn.startswith('std::')):
        return Obj('functor', bn)
    if args and len(args) == 1:
        v = val(I, args[0])
        return v
    bad(I, 'construction of %s' % t['s'], node)


def convert(I, tu, tid, a, node):
    """value of argument a converted to type tid"""
    t = tu.ty(tid)
    v = val(I, a)
    if t['k'] in ('b', 'enum'):
        v = num(v) if t.get('n') != 'bool' else truth(v)
        return v
    if t['k'] == 'rec':
        bn = base(t['n'])
        if bn in ('std::pair', 'std::tuple', 'std::vector', 'std::unique_ptr', 'Eigen::Matrix', 'Eigen::Array', 'std::optional'):
            return construct(I, tu, tid, [a], node)
        if not bn.startswith(('std::', 'Eigen::', '__gnu')):
            rec = tu.recs.get(t.get('r'))
            if rec is not None and rec.get('repo') and not isinstance(v, (Rec, Clo)) and not (isinstance(v, D)):
                return I.construct_repo(rec, [a], None, node)
    return v


def construct_eigen(I, tu, t, bn, args, node, ctor_f):
    ta = t.get('a') or []
    if bn.endswith('::PrivateType'):
        return Obj('private')
    args = [a for a in args if not (isinstance(a, Obj) and a.kind == 'private')]
    if bn in ('Eigen::Matrix', 'Eigen::Array'):
        r, c = ta[1].get('i'), ta[2].get('i')
        et = ta[0]['t']
        fixed = r > 0 and c > 0

        def fill(rr, cc):
            ett = tu.strip(et)
            if ett['k'] in SCALARK or base(ett.get('n', '')) in ('std::complex',) or ett['k'] == 'rec' and 'multiprecision' in ett.get('n', ''):
                return Mat(rr, cc, [UNDEF] * (rr * cc))
            return Mat(rr, cc, [I.default(tu, et, node) for _ in range(rr * cc)])
        if not args:
            return fill(r if r > 0 else 0, c if c > 0 else 0)
        vs = [val(I, a) for a in args]
        if len(vs) == 1:
            v = vs[0]
            if is_mat(v):
                return liftn(I, lambda m: fit(m, r, c), v)
            if isinstance(v, (Comma,)):
                return fit(val(I, v.view), r, c)
            if isinstance(v, Vec):
                es = v.e
                if es and isinstance(es[0], Vec):
                    return Mat(len(es), len(es[0].e), [x for row in es for x in row.e])
                return fit(Mat(len(es), 1, es), r, c)
            if isinstance(v, Obj) and v.kind == 'solve':
                return v.args[0]
            if is_scalar(v):
                if fixed:
                    if r * c == 1:
                        ett = tu.strip(et)
                        return Mat(1, 1, [num(v)])
                    return fill(r, c)
                n = ci(I, v, node)
                if n < 0:
                    I.event('oob', node, True, index=rc(n), size=0)
                    raise Dead()
                if r == -1 and c > 0:
                    return fill(n, c)
                if c == -1 and r > 0:
                    return fill(r, n)
                bad(I, 'matrix constructor', node)
            bad(I, 'matrix constructor from %r' % (v,), node)
        if fixed and r * c == len(vs):
            ats = [x for x in (ctor_f or {}).get('ps', [])]
            return Mat(r, c, [num(v) for v in vs])
        if len(vs) == 2:
            n, m = ci(I, vs[0], node), ci(I, vs[1], node)
            if n < 0 or m < 0:
                I.event('oob', node, True, index=rc(min(n, m)), size=0)
                raise Dead()
            return fill(n, m)
        bad(I, 'matrix constructor', node)
    if bn in ('Eigen::EigenSolver', 'Eigen::SelfAdjointEigenSolver', 'Eigen::ComplexEigenSolver'):
        m = val(I, args[0]) if args else None
        return Obj('eig', m, bn)
    if bn.endswith(('QR', 'LU', 'LLT', 'LDLT', 'SVD', 'Decomposition')):
        return Obj('dec', val(I, args[0]))
    if len(args) >= 1:
        # expression copies (Block, CwiseBinaryOp, ...)
        a = args[0]
        return a
    bad(I, 'construction of %s' % t['s'], node)


def fit(m, r, c):
    if isinstance(m, DiagM):
        n = len(m.v.e)
        return Mat(n, n, [m.v.e[i] if i == j else ZERO for i in range(n) for j in range(n)])
    if (r == m.r or r == -1) and (c == m.c or c == -1):
        return m
    if 1 in (m.r, m.c):
        if r == 1 or (r == -1 and c == 1) or c == 1 or (c == -1 and r == 1):
            n = m.r * m.c
            rr, cc = (1, n) if r == 1 and c != 1 else (n, 1)
            if (r in (-1, rr)) and (c in (-1, cc)):
                return Mat(rr, cc, m.e)
    raise Unsupported('cannot fit %dx%d into %sx%s' % (m.r, m.c, r, c))


# --------------------------------------------------------------------------- iterators
def as_reverse(I, it):
    v = val(I, it.loc)
    return Iter(it.loc, sub(vsize(v), it.i), True, it.mv)


def vsize(v):
    return lift(lambda x: rc(len(x.e)), v)


def range_values(I, a, b, node):
    na, nb = cst(a.i), cst(b.i)
    if na is None or nb is None:
        bad(I, 'symbolic iterator range', node)
    out = []
    for k in range(na, nb):
        out.append(val(I, I.iter_target(Iter(a.loc, rc(k), a.rev), node)))
    return out


# --------------------------------------------------------------------------- calls
def call(I, f, this, args, node):
    bn = f['bn']
    if bn.startswith('std::__cxx11::'):
        bn = 'std::' + bn[len('std::__cxx11::'):]
    if bn.startswith('std::__'):
        bn = bn
    cls = None
    if f.get('cls') is not None and f.get('kind') != 'fun':
        cls = base(f['tu'].recs[f['cls']].get('bn') or f['tu'].recs[f['cls']]['key'])
    if bn.startswith('Eigen::'):
        if this is None:
            return eigen_free(I, f, args, node)
        return eigen_method(I, f, this, args, node)
    if this is not None:
        for pre, h in CLASSES.items():
            if cls and (cls == pre or cls.startswith(pre)):
                return h(I, f, this, args, node)
        bad(I, 'method %s' % f['qn'], node)
    h = FREE.get(bn)
    if h is None:
        h = FREE.get('std::' + bn.split('::')[-1]) if not bn.startswith('matslise') else None
    if h is None and bn.split('::')[-1] in MATH1:
        h = FREE['std::' + bn.split('::')[-1]]
    if h is None and f.get('op'):
        h = free_operator
    if h is None:
        raise Unsupported('no definition or model of %s at %s' % (f['qn'], I.where(node)))
    return h(I, f, this, args, node)


# ---- free functions
FREE = {}


def free(*names):
    def deco(fn):
        for n in names:
            FREE[n] = fn
        return fn
    return deco


MATH1 = ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan', 'exp', 'log', 'floor', 'ceil', 'round',
         'trunc', 'log2', 'log10', 'expm1', 'log1p', 'cbrt', 'nearbyint', 'rint', 'lround', 'llround')


def math1(name):
    def leaf(x):
        if x is UNDEF:
            return UNDEF
        c = x.const() if isinstance(x, R) else None
        if c is not None:
            import math
            if name in ('floor', 'ceil', 'trunc'):
                return rc(getattr(math, name)(c))
            if name in ('round', 'lround', 'llround'):
                return rc(math.floor(abs(c) + Fraction(1, 2)) * (1 if c >= 0 else -1))
            if c == 0 and name in ('sin', 'sinh', 'tan', 'tanh', 'asin', 'atan', 'expm1', 'log1p', 'cbrt'):
                return ZERO
            if c == 0 and name in ('cos', 'cosh', 'exp'):
                return ONE
            if c == 1 and name == 'log':
                return ZERO
        nm = 'round' if name in ('lround', 'llround') else name
        if name in ('floor', 'ceil', 'trunc', 'round', 'lround', 'llround') and isinstance(x, R):
            c = alg.near(x)
            if c is not None:
                t = c + Fraction(1, 2) if 'round' in name else c
                if min(t % 1, -t % 1) < Fraction(1, 10 ** 9):
                    raise Unsupported('%s of a number next to a jump' % name)
                return leaf(rc(c))
        return app(nm, x)

    def h(I, f, this, args, node):
        return lift(leaf, num(val(I, args[0])))
    return h


for _n in MATH1:
    FREE['std::' + _n] = math1(_n)


@free('std::abs', 'std::fabs', 'std::fabsl', 'std::norm_abs')
def f_abs(I, f, this, args, node):
    v = num(val(I, args[0]))
    if f.get('ps') and 'complex' in f['tu'].strip(f['ps'][0]['t']).get('s', ''):
        return lift(lambda x: app('cabs', x), v)
    return fabs(v)


@free('boost::math::constants::pi')
def f_pi(I, f, this, args, node):
    import interp
    return interp.PI()


COMPLEX_ATOMS = ('eigval', 'carg', 'cabs', 'cnorm', 're', 'im')


def conj(x):
    """complex conjugate of an expression in real symbols and the imaginary unit"""
    def opaque(a, seen=set()):
        fn, args = alg.A.list[a]
        return fn in COMPLEX_ATOMS or any(opaque(b) for v in args if isinstance(v, R) for b in v.atoms())
    if not isinstance(x, R) or any(opaque(a) for a in x.atoms()):
        raise Unsupported('conjugate of %s' % show(x))
    i = sym('IMAG')
    return alg.subst(x, {next(iter(i.atoms())): neg(i)})


@free('std::conj')
def f_conj(I, f, this, args, node):
    return lift(conj, num(val(I, args[0])))


@free('std::arg')
def f_arg(I, f, this, args, node):
    return lift(lambda x: app('carg', x), num(val(I, args[0])))


@free('std::real')
def f_real(I, f, this, args, node):
    return lift(lambda x: app('re', x), num(val(I, args[0])))


@free('std::imag')
def f_imag(I, f, this, args, node):
    return lift(lambda x: app('im', x), num(val(I, args[0])))


@free('std::norm')
def f_norm(I, f, this, args, node):
    return lift(lambda x: app('cnorm', x), num(val(I, args[0])))


@free('std::sqrt', 'std::sqrtl')
def f_sqrt(I, f, this, args, node):
    return fsqrt(num(val(I, args[0])))


@free('std::pow')
def f_pow(I, f, this, args, node):
    def leaf(x, y):
        c = y.const()
        if c is not None and c.denominator == 1 and abs(c) <= 40:
            return rpow(x, int(c))
        if c is not None and c == Fraction(1, 2):
            return rsqrt(x)
        return app('pow', x, y)
    return lift(leaf, num(val(I, args[0])), num(val(I, args[1])))


@free('std::atan2', 'std::hypot', 'std::fmod', 'std::copysign')
def f_math2(I, f, this, args, node):
    nm = f['n']
    return lift(lambda x, y: app(nm, x, y), num(val(I, args[0])), num(val(I, args[1])))


@free('std::fma')
def f_fma(I, f, this, args, node):
    a, b, c = [num(val(I, x)) for x in args]
    return add(mul(a, b, True), c, True)


@free('std::isnan')
def f_isnan(I, f, this, args, node):
    v = num(val(I, args[0]))

    def leaf(x):
        if isinstance(x, R) and has_nan(x):
            return True
        if isinstance(x, R) and x.const() is not None:
            return False
        return bvar(app('isnan', x))
    return lift(leaf, v)


def nanvar(x):
    return bvar(app('isnan', x))


@free('std::isfinite', 'std::isinf', 'std::signbit')
def f_isfin(I, f, this, args, node):
    nm = f['n']

    def leaf(x):
        c = x.const() if isinstance(x, R) else None
        if c is not None:
            return {'isfinite': True, 'isinf': False, 'signbit': c < 0}[nm]
        if nm == 'signbit':
            return compare('<', x, ZERO)
        return bvar(app(nm, x))
    return lift(leaf, num(val(I, args[0])))


def less(I, args, node, cmpf):
    if cmpf is not None:
        return truth(I.call_value(cmpf, list(args), node))
    return lex_less(I, val(I, args[0]), val(I, args[1]))


def lex_less(I, a, b):
    a, b = val(I, a), val(I, b)
    x = a
    while isinstance(x, D):
        x = next(v for _, v in leaves(x))
    if isinstance(x, Rec):
        # operator< of the class
        g = I.less_of(x.cls)
        if g is not None:
            return truth(I.lift_struct(lambda l: I.rv(I.call(g, I.new(l), [b], {'l': None}) if g.get('cls') is not None else I.call(g, None, [l, b], {'l': None})), a))
    if isinstance(a, Tup) and isinstance(b, Tup) or isinstance(a, Vec) and isinstance(b, Vec):
        res = compare('<', rc(len(a.e)), rc(len(b.e))) if isinstance(a, Vec) else False
        for x, y in reversed(list(zip(a.e, b.e))):
            x, y = val(I, x), val(I, y)
            lt = lex_less(I, x, y)
            gt = lex_less(I, y, x)
            res = bor(lt, band(bnot(gt), res))
        return res
    return compare('<', num(a), num(b))


def deep_eq(I, a, b):
    a, b = val(I, a), val(I, b)
    if isinstance(a, (Tup, Vec)) and type(a) is type(b):
        if len(a.e) != len(b.e):
            return False
        r = True
        for x, y in zip(a.e, b.e):
            r = band(r, deep_eq(I, x, y))
        return r
    if isinstance(a, Mat) and isinstance(b, Mat):
        r = True
        for x, y in zip(a.e, b.e):
            r = band(r, deep_eq(I, x, y))
        return r
    if isinstance(a, Opt) and isinstance(b, Opt):
        return bor(band(bnot(a.has), bnot(b.has)), band(band(a.has, b.has), deep_eq(I, a.v, b.v) if a.v is not None and b.v is not None else True))
    if isinstance(a, (Ptr, Iter)) or isinstance(b, (Ptr, Iter)) or (isinstance(a, D) and not is_scalar(a)):
        return I.cmp('==', a, b, None)
    return compare('==', num(a), num(b))


def ref_select(I, c, a, b):
    """std::min/max return references to one of the arguments"""
    return merge(c, a, b)


@free('std::min', 'std::max', 'std::fmin', 'std::fmax')
def f_minmax(I, f, this, args, node):
    mx = f['n'] in ('max', 'fmax')
    if len(args) == 1:
        v = val(I, args[0])
        items = list(v.e)
        r = items[0]
        for x in items[1:]:
            r = merge(compare('<', num(r), num(x)), x, r) if mx else merge(compare('<', num(x), num(r)), x, r)
        return r
    a, b = val(I, args[0]), val(I, args[1])
    cf = args[2] if len(args) > 2 else None
    c = less(I, (a, b) if mx else (b, a), node, cf)
    return merge(c, b, a)


@free('std::clamp')
def f_clamp(I, f, this, args, node):
    v, lo, hi = [num(val(I, a)) for a in args[:3]]
    return merge(compare('<', v, lo), lo, merge(compare('<', hi, v), hi, v))


@free('std::minmax')
def f_minmax2(I, f, this, args, node):
    a, b = num(val(I, args[0])), num(val(I, args[1]))
    c = compare('<', b, a)
    return Tup([merge(c, b, a), merge(c, a, b)])


@free('std::move', 'std::forward', 'std::as_const', 'std::addressof_', 'std::cref_', 'std::make_move_iterator_')
def f_move(I, f, this, args, node):
    if len(args) == 3:      # std::move(first,last,out) algorithm
        return f_copy(I, f, this, args, node)
    return args[0]


@free('std::addressof')
def f_addressof(I, f, this, args, node):
    return Ptr(args[0])


@free('std::ref', 'std::cref')
def f_ref(I, f, this, args, node):
    return Ref(args[0])


@free('std::swap', 'std::iter_swap')
def f_swap(I, f, this, args, node):
    a, b = args[0], args[1]
    if f['n'] == 'iter_swap':
        a, b = I.deref(val(I, a), node), I.deref(val(I, b), node)
    x, y = val(I, a), val(I, b)
    I.store(a, y, node)
    I.store(b, x, node)
    return None


@free('std::exchange')
def f_exchange(I, f, this, args, node):
    old = val(I, args[0])
    I.store(args[0], num(val(I, args[1])) if is_scalar(val(I, args[1])) else val(I, args[1]), node)
    return old


@free('std::get')
def f_get(I, f, this, args, node):
    a = f.get('a') or []
    src = args[0]
    if 'i' in a[0]:
        k = a[0]['i']
        if is_lv(src):
            v = I.load(src)
            if isinstance(v, Tup) and isinstance(v.e[k], Ref):
                return v.e[k].t
            return liftn(I, lambda l: l.at(('i', rc(k))), src)
        return liftn(I, lambda v: v.e[k], src)
    bad(I, 'std::get by type', node)


def decay(I, a):
    return val(I, a)


@free('std::make_pair', 'std::make_tuple')
def f_make(I, f, this, args, node):
    return construct(I, f['tu'], f['ret'], args, node) if f.get('ret') is not None else Tup([decay(I, a) for a in args])


@free('std::tie', 'std::forward_as_tuple')
def f_tie(I, f, this, args, node):
    return Tup([Ref(a) if is_lv(a) else (Obj('ignore') if isinstance(a, Obj) else a) for a in args])


@free('std::make_unique', 'std::make_shared')
def f_make_unique(I, f, this, args, node):
    tu = f['tu']
    tid = f['a'][0]['t']
    return Ptr(new_object(I, tu, tid, args, node), True)


def new_object(I, tu, tid, args, node):
    t = tu.ty(tid)
    if t['k'] == 'rec':
        rec = tu.recs[t['r']]
        if rec.get('repo'):
            rec = I.P.recs.get(rec['key'], rec)
            return I.new(I.construct_repo(rec, args, None, node))
    return I.new(construct(I, tu, tid, args, node))


@free('std::bind')
def f_bind(I, f, this, args, node):
    fn = val(I, args[0])
    out = []
    for a in args[1:]:
        v = val(I, a) if not isinstance(a, Obj) else a
        if isinstance(v, Obj) and v.kind == 'placeholder':
            out.append(v)
        elif isinstance(v, Ref):
            out.append(v.t)
        else:
            out.append(I.new(v))
    return Bound(fn, out)


@free('std::invoke')
def f_invoke(I, f, this, args, node):
    return I.call_value(args[0], args[1:], node)


@free('std::make_move_iterator')
def f_mmi(I, f, this, args, node):
    v = val(I, args[0])
    return liftn(I, lambda it: Iter(it.loc, it.i, it.rev, True), v)


@free('std::make_reverse_iterator')
def f_mri(I, f, this, args, node):
    return as_reverse(I, val(I, args[0]))


@free('std::next', 'std::prev')
def f_next(I, f, this, args, node):
    n = num(val(I, args[1])) if len(args) > 1 else ONE
    return I.ptr_add(val(I, args[0]), n if f['n'] == 'next' else neg(n), node)


@free('std::advance')
def f_advance(I, f, this, args, node):
    I.store(args[0], I.ptr_add(val(I, args[0]), num(val(I, args[1])), node), node)


@free('std::distance')
def f_distance(I, f, this, args, node):
    return I.ptr_diff(val(I, args[1]), val(I, args[0]), node)


@free('std::begin', 'std::cbegin', 'std::end', 'std::cend', 'std::rbegin', 'std::rend', 'std::crbegin', 'std::crend')
def f_begin(I, f, this, args, node):
    return vec_iter(I, args[0], f['n'].lstrip('c') if f['n'] not in ('cbegin', 'cend', 'crbegin', 'crend') else f['n'][1:], node)


@free('std::size', 'std::ssize')
def f_size(I, f, this, args, node):
    return vsize(val(I, args[0]))


@free('std::back_inserter')
def f_backins(I, f, this, args, node):
    return Obj('backins', args[0])


@free('std::copy', 'std::copy_n')
def f_copy(I, f, this, args, node):
    a, b = val(I, args[0]), val(I, args[1])
    if f['n'] == 'copy_n':
        n = ci(I, b, node)
        b = I.ptr_add(a, rc(n), node)
    vals = ptr_range(I, a, b, node)
    out = val(I, args[2]) if not isinstance(args[2], Obj) else args[2]
    for k, v in enumerate(vals):
        if isinstance(out, Obj) and out.kind == 'backins':
            cur = val(I, out.args[0])
            I.store(out.args[0], liftn(I, lambda w: Vec(w.e + (v,)), cur), node)
        else:
            I.store(I.deref(I.ptr_add(out, rc(k), node), node), v, node)
    return out if isinstance(out, Obj) else I.ptr_add(out, rc(len(vals)), node)


def ptr_range(I, a, b, node):
    n = cst(I.ptr_diff(b, a, node))
    if n is None:
        bad(I, 'symbolic range', node)
    return [val(I, I.deref(I.ptr_add(a, rc(k), node), node)) for k in range(n)]


@free('std::fill', 'std::fill_n')
def f_fill(I, f, this, args, node):
    a = val(I, args[0])
    n = ci(I, args[1], node) if f['n'] == 'fill_n' else ci(I, I.ptr_diff(val(I, args[1]), a, node), node)
    v = val(I, args[2])
    for k in range(n):
        I.store(I.deref(I.ptr_add(a, rc(k), node), node), num(v) if is_scalar(v) else v, node)
    return I.ptr_add(a, rc(n), node)


@free('std::reverse')
def f_reverse(I, f, this, args, node):
    a, b = val(I, args[0]), val(I, args[1])
    vals = ptr_range(I, a, b, node)
    for k, v in enumerate(reversed(vals)):
        I.store(I.deref(I.ptr_add(a, rc(k), node), node), v, node)


@free('std::sort', 'std::stable_sort', 'std::sort_heap')
def f_sort(I, f, this, args, node):
    a, b = val(I, args[0]), val(I, args[1])
    cf = args[2] if len(args) > 2 else None
    if isinstance(b, Iter) and isinstance(b.i, D) or isinstance(a.i, D):
        # container of undetermined length: sort every alternative
        cur = val(I, a.loc)
        if cst(a.i) == 0:
            I.store(a.loc, I.lift_struct(lambda v: Vec(sort_values(I, list(v.e), node, cf)), cur), node)
            return None
    vals = ptr_range(I, a, b, node)
    vals = sort_values(I, vals, node, cf)
    for k, v in enumerate(vals):
        I.store(I.deref(I.ptr_add(a, rc(k), node), node), v, node)


def sort_values(I, vals, node, cf=None):
    n = len(vals)
    if n > 6:
        bad(I, 'sorting %d elements' % n, node)
    vals = list(vals)
    for i in range(1, n):
        for j in range(i, 0, -1):
            c = I.simplify(less(I, (vals[j], vals[j - 1]), node, cf))
            x, y = vals[j - 1], vals[j]
            vals[j - 1], vals[j] = merge(c, y, x), merge(c, x, y)
    return vals


@free('std::operator==', 'std::operator!=', '__gnu_cxx::operator==', '__gnu_cxx::operator!=')
def f_eq(I, f, this, args, node):
    a, b = val(I, args[0]), val(I, args[1])
    ne = f['n'].endswith('!=')
    r = deep_eq(I, a, b)
    return bnot(r) if ne else r


@free('std::operator<', '__gnu_cxx::operator<')
def f_lt(I, f, this, args, node):
    a, b = val(I, args[0]), val(I, args[1])
    if I.isptr(a):
        return I.cmp('<', a, b, node)
    return lex_less(I, a, b)


@free('std::operator>', '__gnu_cxx::operator>')
def f_gt(I, f, this, args, node):
    return f_lt(I, f, this, [args[1], args[0]], node)


@free('std::operator<=', '__gnu_cxx::operator<=')
def f_le(I, f, this, args, node):
    return bnot(f_lt(I, f, this, [args[1], args[0]], node))


@free('std::operator>=', '__gnu_cxx::operator>=')
def f_ge(I, f, this, args, node):
    return bnot(f_lt(I, f, this, args, node))


@free('std::operator-', '__gnu_cxx::operator-')
def f_sub(I, f, this, args, node):
    a = val(I, args[0])
    if len(args) == 2 and I.isptr(a):
        b = val(I, args[1])
        return I.ptr_diff(a, b, node) if I.isptr(b) else I.ptr_add(a, neg(num(b)), node)
    return free_operator(I, f, this, args, node)


@free('std::operator+', '__gnu_cxx::operator+')
def f_add(I, f, this, args, node):
    a, b = val(I, args[0]), val(I, args[1])
    if I.isptr(a):
        return I.ptr_add(a, num(b), node)
    if I.isptr(b):
        return I.ptr_add(b, num(a), node)
    if isinstance(a, Str) or isinstance(b, Str):
        return Str('')
    return free_operator(I, f, this, args, node)


def free_operator(I, f, this, args, node):
    op = f['op']
    vs = [val(I, a) for a in args]
    if op == '<<':
        if isinstance(vs[0], Stream):
            I.event('io', node, True, stream=vs[0].name)
            return vs[0]
    vs = [num(v) for v in vs]
    if len(vs) == 2 and all(is_scalar(v) for v in vs):
        if op in ('+', '-', '*', '/'):
            return I.arith(op, vs[0], vs[1], True, node)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return I.cmp(op, vs[0], vs[1], node)
    if len(vs) == 1 and op == '-' and is_scalar(vs[0]):
        return neg(vs[0])
    raise Unsupported('no model of %s at %s' % (f['qn'], I.where(node)))


@free('std::operator<<')
def f_stream(I, f, this, args, node):
    v = val(I, args[0])
    if isinstance(v, Stream):
        I.event('io', node, True, stream=v.name)
        return v
    return free_operator(I, f, this, args, node)


@free('std::endl', 'std::flush')
def f_endl(I, f, this, args, node):
    return args[0]


@free('std::accumulate', 'std::reduce')
def f_accumulate(I, f, this, args, node):
    vals = ptr_range(I, val(I, args[0]), val(I, args[1]), node)
    acc = val(I, args[2])
    for v in vals:
        acc = val(I, I.call_value(args[3], [acc, v], node)) if len(args) > 3 else add(num(acc), num(v), True)
    return acc


@free('std::for_each')
def f_for_each(I, f, this, args, node):
    a, b = val(I, args[0]), val(I, args[1])
    n = cst(I.ptr_diff(b, a, node))
    if n is None:
        bad(I, 'symbolic range', node)
    for k in range(n):
        I.call_value(args[2], [I.deref(I.ptr_add(a, rc(k), node), node)], node)
    return args[2]


@free('std::transform')
def f_transform(I, f, this, args, node):
    vals = ptr_range(I, val(I, args[0]), val(I, args[1]), node)
    if len(args) == 4:
        outs = [val(I, I.call_value(args[3], [v], node)) for v in vals]
        out = args[2]
    else:
        b = val(I, args[2])
        outs = [val(I, I.call_value(args[4], [v, I.deref(I.ptr_add(b, rc(k), node), node)], node)) for k, v in enumerate(vals)]
        out = args[3]
    out = val(I, out) if not isinstance(out, Obj) else out
    for k, v in enumerate(outs):
        if isinstance(out, Obj) and out.kind == 'backins':
            cur = val(I, out.args[0])
            I.store(out.args[0], liftn(I, lambda w: Vec(w.e + (v,)), cur), node)
        else:
            I.store(I.deref(I.ptr_add(out, rc(k), node), node), v, node)
    return out if isinstance(out, Obj) else I.ptr_add(out, rc(len(outs)), node)


def pred_of(I, p, vs, node):
    return I.simplify(truth(I.call_value(p, list(vs), node)))


def keep_values(I, vals, drop):
    """gated list of the kept values; drop(kept, value) -> condition"""
    def go(kept, rest):
        if not rest:
            return Vec(kept)
        c = I.simplify(drop(kept, rest[0]))
        if c is True:
            return go(kept, rest[1:])
        if c is False:
            return go(kept + [rest[0]], rest[1:])
        return merge(c, go(kept, rest[1:]), go(kept + [rest[0]], rest[1:]))
    if len(vals) > 7:
        raise Unsupported('filtering %d elements' % len(vals))
    return go([], list(vals))


def shrink(I, a, b, drop, node):
    """unique/remove_if on a whole container: kept values first, new logical end"""
    def one(v, i, j):
        if cst(i) != 0 or cst(j) != len(v.e):
            raise Unsupported('part of a container at %s' % I.where(node))
        kept = keep_values(I, list(v.e), drop)
        return liftn(I, lambda w: Tup([Vec(list(w.e) + list(v.e[len(w.e):])), rc(len(w.e))]), kept)
    t = liftn(I, one, val(I, a.loc), a.i, b.i)
    I.store(a.loc, liftn(I, lambda x: x.e[0], t), node)
    return Iter(a.loc, liftn(I, lambda x: x.e[1], t))


@free('std::unique')
def f_unique(I, f, this, args, node):
    a, b = val(I, args[0]), val(I, args[1])
    if not isinstance(a, Iter) or a.rev:
        bad(I, 'std::unique', node)
    same_ = (lambda x, y: pred_of(I, args[2], [x, y], node)) if len(args) > 2 else (lambda x, y: deep_eq(I, x, y))
    return shrink(I, a, b, lambda kept, v: same_(kept[-1], v) if kept else False, node)


@free('std::remove_if', 'std::remove')
def f_remove_if(I, f, this, args, node):
    a, b = val(I, args[0]), val(I, args[1])
    if not isinstance(a, Iter) or a.rev:
        bad(I, 'std::remove_if', node)
    if f['n'] == 'remove':
        return shrink(I, a, b, lambda kept, v: deep_eq(I, v, val(I, args[2])), node)
    return shrink(I, a, b, lambda kept, v: pred_of(I, args[2], [v], node), node)


@free('std::copy_if', 'std::remove_copy_if')
def f_copy_if(I, f, this, args, node):
    vals = ptr_range(I, val(I, args[0]), val(I, args[1]), node)
    out = args[2] if isinstance(args[2], Obj) else val(I, args[2])
    if not isinstance(out, Obj) or out.kind != 'backins':
        bad(I, 'std::copy_if', node)
    neg_ = f['n'] == 'copy_if'
    kept = keep_values(I, vals, lambda k, v: (bnot(pred_of(I, args[3], [v], node)) if neg_ else pred_of(I, args[3], [v], node)))
    I.store(out.args[0], liftn(I, lambda c, w: Vec(list(c.e) + list(w.e)), val(I, out.args[0]), kept), node)
    return out


@free('std::all_of', 'std::any_of', 'std::none_of')
def f_all_of(I, f, this, args, node):
    vals = ptr_range(I, val(I, args[0]), val(I, args[1]), node)
    r = f['n'] == 'all_of'
    for v in vals:
        c = pred_of(I, args[2], [v], node)
        r = band(r, c) if f['n'] == 'all_of' else bor(r, c)
    return bnot(r) if f['n'] == 'none_of' else r


@free('std::count_if', 'std::count')
def f_count_if(I, f, this, args, node):
    vals = ptr_range(I, val(I, args[0]), val(I, args[1]), node)
    n = ZERO
    for v in vals:
        c = pred_of(I, args[2], [v], node) if f['n'] == 'count_if' else deep_eq(I, v, val(I, args[2]))
        n = add(n, ite(c, ONE, ZERO))
    return n


def position(I, args, node, cond, last=False):
    """iterator to the first position at which cond holds"""
    a, b = val(I, args[0]), val(I, args[1])
    n = cst(I.ptr_diff(b, a, node))
    if n is None:
        bad(I, 'symbolic range', node)
    vals = [val(I, I.deref(I.ptr_add(a, rc(k), node), node)) for k in range(n)]
    r = rc(n)
    for k in reversed(range(n)):
        r = ite(I.simplify(cond(vals[k])), rc(k), r)
    return I.ptr_add(a, r, node)


@free('std::find_if', 'std::find', 'std::find_if_not')
def f_find_if(I, f, this, args, node):
    if f['n'] == 'find':
        return position(I, args, node, lambda v: deep_eq(I, v, val(I, args[2])))
    c = lambda v: pred_of(I, args[2], [v], node)
    return position(I, args, node, c if f['n'] == 'find_if' else lambda v: bnot(c(v)))


@free('std::adjacent_find')
def f_adjacent(I, f, this, args, node):
    a, b = val(I, args[0]), val(I, args[1])
    n = cst(I.ptr_diff(b, a, node))
    if n is None:
        bad(I, 'symbolic range', node)
    vals = [val(I, I.deref(I.ptr_add(a, rc(k), node), node)) for k in range(n)]
    r = rc(n)
    for k in reversed(range(n - 1)):
        c = pred_of(I, args[2], [vals[k], vals[k + 1]], node) if len(args) > 2 else deep_eq(I, vals[k], vals[k + 1])
        r = ite(I.simplify(c), rc(k), r)
    return I.ptr_add(a, r, node)


@free('std::minmax_element')
def f_minmax_element(I, f, this, args, node):
    return Tup([f_extremum(I, {'n': 'min_element'}, None, args, node), f_extremum(I, {'n': 'max_element'}, None, args, node)])


@free('std::transform_reduce')
def f_transform_reduce(I, f, this, args, node):
    vals = ptr_range(I, val(I, args[0]), val(I, args[1]), node)
    if len(args) == 5:
        acc = val(I, args[2])
        for v in vals:
            acc = val(I, I.call_value(args[3], [acc, val(I, I.call_value(args[4], [v], node))], node))
        return acc
    return f_inner(I, f, this, [args[0], args[1], args[2], args[3]], node) if len(args) == 4 else bad(I, 'transform_reduce', node)


@free('std::apply')
def f_apply(I, f, this, args, node):
    t = val(I, args[1])
    if not isinstance(t, Tup):
        bad(I, 'apply to %s' % type(t).__name__, node)
    return I.call_value(args[0], list(t.e), node)


@free('std::_V2::rotate', 'std::rotate')
def f_rotate(I, f, this, args, node):
    a, m, b = [val(I, x) for x in args[:3]]
    vals = ptr_range(I, a, b, node)
    k = cst(I.ptr_diff(m, a, node))
    if k is None:
        bad(I, 'symbolic rotation', node)
    for j, v in enumerate(vals[k:] + vals[:k]):
        I.store(I.deref(I.ptr_add(a, rc(j), node), node), v, node)
    return I.ptr_add(a, rc(len(vals) - k), node)


@free('std::lower_bound', 'std::upper_bound', 'std::partition_point')
def f_bound(I, f, this, args, node):
    """first position of the partition; the range is partitioned by precondition"""
    if f['n'] == 'partition_point':
        return position(I, args, node, lambda v: bnot(pred_of(I, args[2], [v], node)))
    x = val(I, args[2])
    cf = args[3] if len(args) > 3 else None
    if f['n'] == 'lower_bound':
        return position(I, args, node, lambda v: bnot(less(I, (v, x), node, cf)))
    return position(I, args, node, lambda v: less(I, (x, v), node, cf))


@free('std::min_element', 'std::max_element')
def f_extremum(I, f, this, args, node):
    a, b = val(I, args[0]), val(I, args[1])
    vals = ptr_range(I, a, b, node)
    cf = args[2] if len(args) > 2 else None
    if not vals:
        return b
    best, pos = vals[0], ZERO
    for k, v in enumerate(vals[1:], 1):
        c = I.simplify(less(I, (v, best) if f['n'] == 'min_element' else (best, v), node, cf))
        best, pos = merge(c, v, best), ite(c, rc(k), pos)
    return I.ptr_add(a, pos, node)


@free('std::iota')
def f_iota(I, f, this, args, node):
    a, b = val(I, args[0]), val(I, args[1])
    n = cst(I.ptr_diff(b, a, node))
    if n is None:
        bad(I, 'symbolic range', node)
    v = num(val(I, args[2]))
    for k in range(n):
        I.store(I.deref(I.ptr_add(a, rc(k), node), node), add(v, rc(k)), node)


@free('std::merge')
def f_merge(I, f, this, args, node):
    va = ptr_range(I, val(I, args[0]), val(I, args[1]), node)
    vb = ptr_range(I, val(I, args[2]), val(I, args[3]), node)
    out = args[4] if isinstance(args[4], Obj) else val(I, args[4])
    if not isinstance(out, Obj) or out.kind != 'backins':
        bad(I, 'std::merge', node)
    cf = args[5] if len(args) > 5 else None

    def go(x, y):
        if not x or not y:
            return Vec(x + y)
        c = I.simplify(less(I, (y[0], x[0]), node, cf))

        def pre(h, w):
            return liftn(I, lambda q: Vec([h] + list(q.e)), w)
        if c is True:
            return pre(y[0], go(x, y[1:]))
        if c is False:
            return pre(x[0], go(x[1:], y))
        return merge(c, pre(y[0], go(x, y[1:])), pre(x[0], go(x[1:], y)))
    w = go(va, vb)
    I.store(out.args[0], liftn(I, lambda c, w: Vec(list(c.e) + list(w.e)), val(I, out.args[0]), w), node)
    return out


@free('std::is_sorted')
def f_is_sorted(I, f, this, args, node):
    vals = ptr_range(I, val(I, args[0]), val(I, args[1]), node)
    cf = args[2] if len(args) > 2 else None
    r = True
    for x, y in zip(vals, vals[1:]):
        r = band(r, bnot(less(I, (y, x), node, cf)))
    return r


@free('std::inner_product')
def f_inner(I, f, this, args, node):
    vals = ptr_range(I, val(I, args[0]), val(I, args[1]), node)
    b = val(I, args[2])
    acc = num(val(I, args[3]))
    for k, v in enumerate(vals):
        acc = add(acc, mul(num(v), num(val(I, I.deref(I.ptr_add(b, rc(k), node), node))), True), True)
    return acc


# ---- classes
def val_this(I, this):
    return val(I, this)


def conv_store(I, f, this, args, node):
    v = val(I, args[0])
    I.store(this, v, node)
    return this


def vec_iter(I, loc, n, node):
    if not is_lv(loc):
        loc = I.new(loc)

    def one(l):
        v = I.load(l)
        if isinstance(v, Ref):
            l = v.t
            v = I.load(l)
        if n in ('begin', 'cbegin'):
            return Iter(l, ZERO)
        if n in ('end', 'cend'):
            return Iter(l, vsize(v))
        if n in ('rbegin', 'crbegin'):
            return Iter(l, ZERO, True)
        return Iter(l, vsize(v), True)
    return liftn(I, one, loc)


def m_vector(I, f, this, args, node):
    n = f['n']
    tu = f['tu']
    if not is_lv(this):
        this = I.new(this)
    if n in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend'):
        return vec_iter(I, this, n, node)
    cur = val(I, this)
    if cur is UNDEF:
        bad(I, 'use of an uninitialised container', node)
    if n == 'size':
        return vsize(cur)
    if n == 'empty':
        return compare('==', vsize(cur), ZERO)
    if n in ('operator[]', 'at'):
        i = num(val(I, args[0]))
        if n == 'at':
            size = vsize(cur)
            c = bor(compare('<', i, ZERO), compare('>=', i, size))
            throw_if(I, c, 'std::out_of_range', node)
        return liftn(I, lambda l: l.at(('i', i)), this)
    if n in ('front', 'back', 'top'):
        size = vsize(cur)
        emp = I.simplify(compare('==', size, ZERO))
        I.event('oob', node, emp, index='%s()' % n, size=0)
        isq = base(tu.recs[f['cls']]['bn']) == 'std::queue' if False else False
        idx = ZERO if n == 'front' else sub(size, ONE)
        return liftn(I, lambda l: l.at(('i', idx)), this)
    if n in ('push_back', 'emplace_back', 'push', 'emplace_front', 'push_front', 'emplace'):
        cls = tu.recs[f['cls']]
        et = (cls.get('a') or [{}])[0].get('t')
        if et is None:
            bad(I, 'element type of %s' % f['qn'], node)
        if n == 'emplace' and cls['bn'] in ('std::vector', 'std::deque'):
            it, x = val(I, args[0]), construct_elem(I, tu, et, args[1:], node)
            I.store(this, liftn(I, lambda v, i: Vec(v.e[:cst(i)] + (x,) + v.e[cst(i):]), cur, it.i), node)
            return Iter(it.loc, it.i)
        if n.startswith('emplace'):
            x = construct_elem(I, tu, et, args, node)
        else:
            x = I.plain(convert(I, tu, et, args[0], node), tu.ty(et))
        fr = n.endswith('_front')
        new = liftn(I, lambda v: Vec(((x,) + v.e) if fr else (v.e + (x,))), val(I, this))
        I.store(this, new, node)
        if n == 'emplace_back':
            return liftn(I, lambda l: l.at(('i', sub(vsize(val(I, l)), ONE))), this)
        return None
    if n in ('pop_back', 'pop', 'pop_front'):
        emp = I.simplify(compare('==', vsize(cur), ZERO))
        I.event('oob', node, emp, index='%s()' % n, size=0)
        bnc = tu.recs[f['cls']]['bn']
        front = n == 'pop_front' or (n == 'pop' and bnc == 'std::queue')
        I.store(this, liftn(I, lambda v: v if not v.e else Vec(v.e[1:] if front else v.e[:-1]), cur), node)
        return None
    if n in ('reserve', 'shrink_to_fit'):
        return None
    if n in ('capacity',):
        return vsize(cur)
    if n == 'clear':
        I.store(this, Vec(()), node)
        return None
    if n in ('resize', 'assign'):
        if n == 'assign' and len(args) == 2 and isinstance(val(I, args[0]), Iter):
            I.store(this, Vec(range_values(I, val(I, args[0]), val(I, args[1]), node)), node)
            return None
        k = ci(I, args[0], node)
        if k < 0:
            I.event('oob', node, True, index=rc(k), size=0)
            throw_if(I, True, 'std::length_error', node)
        cls = tu.recs[f['cls']]
        et = cls['a'][0]['t']

        def grow(v):
            e = list(v.e[:k]) if n == 'resize' else []
            while len(e) < k:
                e.append(val(I, args[1]) if len(args) > 1 else I.default(tu, et, node, True))
            return Vec(e)
        I.store(this, liftn(I, grow, cur), node)
        return None
    if n == 'insert':
        it = val(I, args[0])
        if len(args) == 3 and isinstance(val(I, args[1]), Iter):
            new = tuple(range_values(I, val(I, args[1]), val(I, args[2]), node))
        elif len(args) == 2:
            v1 = val(I, args[1])
            new = (v1,)
        else:
            bad(I, 'vector::insert', node)

        def ins(v, i):
            k = cst(i)
            return Vec(v.e[:k] + new + v.e[k:])
        I.store(this, liftn(I, ins, cur, it.i), node)
        return Iter(it.loc, it.i)
    if n == 'erase':
        it = val(I, args[0])
        if len(args) == 2:
            it2 = val(I, args[1])
            I.store(this, liftn(I, lambda v, i, j: Vec(v.e[:cst(i)] + v.e[cst(j):]), cur, it.i, it2.i), node)
        else:
            I.store(this, liftn(I, lambda v, i: Vec(v.e[:cst(i)] + v.e[cst(i) + 1:]), cur, it.i), node)
        return Iter(it.loc, it.i)
    if n == 'operator=':
        v = val(I, args[0])
        I.store(this, v, node)
        if takes_rvalue(f) and is_lv(args[0]) and args[0] != this and f['bn'].startswith('std::vector::'):
            I.store(args[0], Vec(()), node)
        return this
    if n == 'swap':
        return f_swap(I, {'n': 'swap'}, None, [this, args[0]], node)
    if n == 'data':
        return liftn(I, lambda l: Ptr(l.at(('i', ZERO))), this)
    if n == 'fill':
        v = val(I, args[0])
        I.store(this, liftn(I, lambda w: Vec([v] * len(w.e)), cur), node)
        return None
    bad(I, 'method %s' % f['qn'], node)


def construct_elem(I, tu, et, args, node):
    t = tu.ty(et)
    if t['k'] == 'rec':
        rec = tu.recs.get(t['r'])
        if rec is not None and rec.get('repo'):
            rec = I.P.recs.get(rec['key'], rec)
            return I.construct_repo(rec, args, None, node)
        return construct(I, tu, et, args, node)
    return convert(I, tu, et, args[0], node) if args else I.default(tu, et, node, True)


def throw_if(I, c, what, node):
    c = I.simplify(c)
    if c is False or c is IGN:
        return
    fr = I.frames[-1]
    I.throws.append((band(fr.pc, c), what, I.mem))
    I.event('throw', node, c, what=what)
    fr.pc = band(fr.pc, bnot(c))
    if fr.pc is False or c is True:
        fr.pc = False
        raise Dead()


def m_unique(I, f, this, args, node):
    n = f['n']
    cur = val(I, this)
    if n in ('operator*', 'operator->', 'get'):
        if n == 'operator*':
            return I.deref(cur, node)
        return cur
    if n == 'operator[]':
        return I.deref(I.ptr_add(cur, num(val(I, args[0])), node), node)
    if n == 'operator bool':
        return truth(cur)
    if n == 'reset':
        v = val(I, args[0]) if args else Ptr(None, True)
        I.store(this, liftn(I, lambda p: Ptr(p.t, True), v), node)
        return None
    if n == 'release':
        I.store(this, Ptr(None, True), node)
        return liftn(I, lambda p: Ptr(p.t), cur)
    if n == 'operator=':
        v = val(I, args[0])
        I.store(this, liftn(I, lambda p: Ptr(p.t, True), v), node)
        if is_lv(args[0]) and args[0] != this and takes_rvalue(f):
            I.store(args[0], Ptr(None, True), node)
        return this
    if n == 'swap':
        return f_swap(I, {'n': 'swap'}, None, [this, args[0]], node)
    bad(I, 'method %s' % f['qn'], node)


def m_function(I, f, this, args, node):
    n = f['n']
    if n == 'operator()':
        return I.call_value(val(I, this), args, node, None)
    if n == 'operator bool':
        return truth(val(I, this))
    if n == 'operator=':
        I.store(this, val(I, args[0]), node)
        return this
    bad(I, 'method %s' % f['qn'], node)


def m_tuple(I, f, this, args, node):
    n = f['n']
    if n == 'operator=':
        src = val(I, args[0])
        cur = this if isinstance(this, Tup) else val(I, this)
        if isinstance(cur, Tup) and any(isinstance(e, (Ref, Obj)) for e in cur.e):
            k = len(cur.e)
            for i, e in enumerate(cur.e):
                v = liftn(I, lambda s: s.e[i], src) if not isinstance(src, Tup) else src.e[i]
                if isinstance(e, Ref):
                    I.store(e.t, val(I, v), node)
            return this
        I.store(this, src, node)
        return this
    if n == 'swap':
        return f_swap(I, {'n': 'swap'}, None, [this, args[0]], node)
    bad(I, 'method %s' % f['qn'], node)


def m_bitref(I, f, this, args, node):
    n = f['n']
    if n == 'operator bool':
        return truth(val(I, this))
    if n == 'operator=':
        I.store(this, truth(val(I, args[0])), node)
        return this
    if n == 'flip':
        I.store(this, bnot(truth(val(I, this))), node)
        return None
    bad(I, 'method %s' % f['qn'], node)


def m_optional(I, f, this, args, node):
    n = f['n']
    cur = val(I, this)
    if n in ('operator bool', 'has_value'):
        return liftn(I, lambda o: o.has, cur)
    if n in ('operator*', 'value', 'operator->'):
        has = liftn(I, lambda o: o.has, cur)
        nohas = I.simplify(bnot(has))
        if n == 'value':
            throw_if(I, nohas, 'std::bad_optional_access', node)
        else:
            I.event('null', node, nohas)
        if is_lv(this):
            r = liftn(I, lambda l: l.at(('o',)), this)
            return liftn(I, lambda x: Ptr(x), r) if n == 'operator->' else r
        return cur.v
    if n == 'value_or':
        return merge(cur.has, cur.v, val(I, args[0])) if cur.v is not None else val(I, args[0])
    if n in ('emplace', 'operator='):
        tu = f['tu']
        et = tu.recs[f['cls']]['a'][0]['t']
        if n == 'emplace':
            v = construct_elem(I, tu, et, args, node)
        else:
            x = val(I, args[0])
            if isinstance(x, Opt):
                I.store(this, x, node)
                return this
            if isinstance(x, Obj):
                I.store(this, Opt(False), node)
                return this
            v = x
        I.store(this, Opt(True, v), node)
        return liftn(I, lambda l: l.at(('o',)), this) if n == 'emplace' else this
    if n == 'reset':
        I.store(this, Opt(False), node)
        return None
    bad(I, 'method %s' % f['qn'], node)


def m_iter(I, f, this, args, node):
    n = f['n']
    cur = val(I, this)
    if n == 'operator*':
        return I.deref(cur, node)
    if n == 'operator->':
        return I.lift_struct(lambda x: Ptr(x), I.deref(cur, node))
    if n == 'operator[]':
        return I.deref(I.ptr_add(cur, num(val(I, args[0])), node), node)
    if n in ('operator++', 'operator--'):
        new = I.ptr_add(cur, ONE if n == 'operator++' else rc(-1), node)
        I.store(this, new, node)
        return cur if args else this
    if n in ('operator+', 'operator-', 'operator+=', 'operator-='):
        k = num(val(I, args[0]))
        new = I.ptr_add(cur, k if '+' in n else neg(k), node)
        if n.endswith('='):
            I.store(this, new, node)
            return this
        return new
    if n == 'operator=':
        I.store(this, val(I, args[0]), node)
        return this
    if n == 'base':
        def b(it):
            if not it.rev:
                return it
            return Iter(it.loc, sub(vsize(val(I, it.loc)), it.i))
        return liftn(I, b, cur)
    bad(I, 'method %s' % f['qn'], node)


def m_stream(I, f, this, args, node):
    v = val(I, this)
    I.event('io', node, True, stream=v.name)
    return v if f['n'] == 'operator<<' else None


def m_limits(I, f, this, args, node):
    return sym('limits.' + f['n'])


for _n in ('infinity', 'quiet_NaN', 'epsilon', 'max', 'min', 'lowest', 'denorm_min'):
    FREE['std::numeric_limits::' + _n] = (lambda nm: lambda I, f, this, args, node: limits(I, f, nm))(_n)


def limits(I, f, nm):
    tu = f['tu']
    t = tu.strip(f['ret'])
    n = t.get('n')
    if n == 'int':
        return rc({'max': 2 ** 31 - 1, 'min': -2 ** 31, 'lowest': -2 ** 31}[nm])
    if n in ('long', 'long long'):
        return rc({'max': 2 ** 63 - 1, 'min': -2 ** 63, 'lowest': -2 ** 63}[nm])
    return sym('limits.' + nm, positive=nm in ('infinity', 'epsilon', 'max', 'min'))


def m_initlist(I, f, this, args, node):
    n = f['n']
    if n in ('begin', 'end', 'size'):
        return m_vector(I, f, this, args, node)
    bad(I, 'method %s' % f['qn'], node)


def m_complex(I, f, this, args, node):
    n = f['n']
    if n in ('real', 'imag'):
        return lift(lambda x: app('re' if n == 'real' else 'im', x), num(val(I, this)))
    if n == 'operator=':
        I.store(this, num(val(I, args[0])), node)
        return this
    bad(I, 'method %s' % f['qn'], node)


def functor(I, c, args, node):
    """call of a standard function object"""
    a = [val(I, x) for x in args]
    ops = {'std::less': lambda: lex_less(I, a[0], a[1]), 'std::greater': lambda: lex_less(I, a[1], a[0]),
           'std::less_equal': lambda: bnot(lex_less(I, a[1], a[0])), 'std::greater_equal': lambda: bnot(lex_less(I, a[0], a[1])),
           'std::equal_to': lambda: deep_eq(I, a[0], a[1]), 'std::negate': lambda: neg(num(a[0]))}
    if c in ops:
        return ops[c]()
    ar = {'std::plus': '+', 'std::minus': '-', 'std::multiplies': '*', 'std::divides': '/'}
    if c in ar:
        return I.arith(ar[c], num(a[0]), num(a[1]), True, node)
    bad(I, 'call of %s' % c, node)


def m_functor(I, f, this, args, node):
    if f['n'] == 'operator()':
        return functor(I, f['tu'].recs[f['cls']]['bn'], args, node)
    bad(I, 'method %s' % f['qn'], node)


def m_refwrap(I, f, this, args, node):
    v = I.load(this) if isinstance(this, Loc) else this
    if isinstance(v, Ref):
        return v.t
    return this


def m_exc(I, f, this, args, node):
    return Str('')


CLASSES = {
    'std::_Bit_reference': m_bitref, 'std::vector': m_vector, 'std::array': m_vector, 'std::deque': m_vector, 'std::queue': m_vector, 'std::stack': m_vector,
    'std::list': m_vector, 'std::initializer_list': m_vector,
    'std::unique_ptr': m_unique, 'std::shared_ptr': m_unique, 'std::__shared_ptr': m_unique,
    'std::function': m_function, 'std::tuple': m_tuple, 'std::pair': m_tuple,
    'std::optional': m_optional, 'std::_Optional': m_optional,
    '__gnu_cxx::__normal_iterator': m_iter, 'std::reverse_iterator': m_iter, 'std::move_iterator': m_iter,
    'std::basic_ostream': m_stream, 'std::ostream': m_stream, 'std::ios': m_stream, 'std::basic_ios': m_stream, 'std::ios_base': m_stream,
    'std::complex': m_complex, 'std::less': m_functor, 'std::greater': m_functor, 'std::equal_to': m_functor,
    'std::plus': m_functor, 'std::minus': m_functor, 'std::multiplies': m_functor, 'std::divides': m_functor, 'std::negate': m_functor,
    'std::reference_wrapper': m_refwrap,
    'std::exception': m_exc, 'std::runtime_error': m_exc,
}


# --------------------------------------------------------------------------- Eigen
def eigen_free(I, f, args, node):
    n = f['n']
    if n in ('Zero', 'Ones', 'Identity', 'Constant', 'LinSpaced', 'Random', 'NullaryExpr', 'UnitX', 'UnitY', 'Unit'):
        return eigen_static(I, f, args, node)
    vs = [val(I, a) for a in args]
    if n == 'kroneckerProduct':
        return liftn(I, kron, vs[0], vs[1])
    if n == 'operator<<':
        if isinstance(vs[0], Stream):
            I.event('io', node, True, stream=vs[0].name)
            return vs[0]
    if n.startswith('operator') and len(vs) == 2:
        return eig_bin(I, n[8:], vs[0], vs[1], 'Array' in f['qn'] or 'ArrayBase' in f['qn'], node)
    if n in ('abs', 'sqrt', 'sin', 'cos', 'exp', 'floor', 'ceil', 'square', 'pow', 'isnan', 'real', 'imag', 'arg', 'log', 'round'):
        return eigen_method(I, f, args[0], args[1:], node)
    if n in ('min', 'max'):
        return eigen_method(I, f, args[0], args[1:], node)
    bad(I, 'Eigen function %s' % f['qn'], node)


def static_shape(I, f, args, node):
    """shape of Derived for a static constructor, from the return type"""
    tu = f['tu']
    # class DenseBase<Derived>: Derived = first class arg
    cls = tu.recs[f['cls']]
    d = tu.strip(cls['a'][0]['t'])
    if base(d.get('n', '')) in ('Eigen::Matrix', 'Eigen::Array'):
        return d['a'][1]['i'], d['a'][2]['i']
    if base(d.get('n', '')) == 'Eigen::Block':
        return d['a'][1]['i'], d['a'][2]['i']
    bad(I, 'static constructor of %s' % d.get('s'), node)


def eigen_static(I, f, args, node):
    n = f['n']
    r, c = static_shape(I, f, args, node)
    vs = [val(I, a) for a in args]
    nd = 0
    extra = {'Constant': 1, 'NullaryExpr': 1, 'LinSpaced': 2, 'Unit': 1}.get(n, 0)
    dims = vs[:len(vs) - extra]
    if len(dims) == 2:
        r, c = ci(I, dims[0], node), ci(I, dims[1], node)
    elif len(dims) == 1:
        k = ci(I, dims[0], node)
        if r == 1:
            c = k
        elif c == 1:
            r = k
        elif r == -1 and c > 0:
            r = k
        elif c == -1 and r > 0:
            c = k
    if r < 0 or c < 0:
        if len(dims):
            I.event('oob', node, True, index=rc(min(r, c)), size=0)
            raise Dead()
        r, c = max(r, 0), max(c, 0)
    if n == 'Zero':
        return const_mat(r, c, ZERO)
    if n == 'Ones':
        return const_mat(r, c, ONE)
    if n == 'Identity':
        return identity(r, c)
    if n == 'Constant':
        return const_mat(r, c, num(vs[-1]))
    if n in ('UnitX', 'UnitY'):
        return Mat(r, c, [ONE if k == (n == 'UnitY') else ZERO for k in range(r * c)])
    if n == 'Unit':
        return Mat(r, c, [ONE if k == ci(I, vs[-1], node) else ZERO for k in range(r * c)])
    if n == 'NullaryExpr':
        fn = vs[-1]
        es = []
        for i in range(r):
            for j in range(c):
                a = [rc(i), rc(j)] if r != 1 and c != 1 else [rc(i if c == 1 else j)]
                es.append(num(val(I, I.call_value(fn, a, node))))
        return Mat(r, c, es)
    if n == 'LinSpaced' and r * c > 0:
        k, lo, hi = r * c, num(vs[-2]), num(vs[-1])
        return Mat(r, c, [hi if k == 1 else add(lo, mul(rc(Fraction(i, k - 1)), sub(hi, lo))) for i in range(k)])
    bad(I, 'Eigen static %s' % n, node)


def eig_bin(I, op, a, b, arr, node):
    if isinstance(a, Obj) and a.kind == 'solve':
        a = a.args[0]
    if isinstance(b, Obj) and b.kind == 'solve':
        b = b.args[0]
    if op == '*':
        if is_mat(a) and is_mat(b):
            if arr:
                return liftn(I, lambda x, y: mat_zip(gmul, x, y), a, b)
            return liftn(I, matmul, a, b)
        if is_mat(a):
            return liftn(I, lambda x: scale(x, b), a)
        return liftn(I, lambda y: scale(y, a, True), b)
    if op in ('+', '-'):
        fn = gadd if op == '+' else gsub
        if is_mat(a) and is_mat(b):
            return liftn(I, lambda x, y: mat_zip(fn, dense(x), dense(y)), a, b)
        if is_mat(a):
            return liftn(I, lambda x: mat_map(lambda e: fn(e, b), x), a)
        return liftn(I, lambda y: mat_map(lambda e: fn(a, e), y), b)
    if op == '/':
        if is_mat(a) and is_mat(b):
            return liftn(I, lambda x, y: mat_zip(gdiv, x, y), a, b)
        if is_mat(a):
            return liftn(I, lambda x: mat_map(lambda e: gdiv(e, num(b)), x), a)
        return liftn(I, lambda y: mat_map(lambda e: gdiv(num(a), e), y), b)
    if op in ('==', '!=', '<', '<=', '>', '>='):
        if not arr and op in ('==', '!='):
            r = liftn(I, lambda x, y: deep_eq(I, x, y), a, b)
            return r if op == '==' else bnot(r)
        if is_mat(a) and is_mat(b):
            return liftn(I, lambda x, y: mat_zip(lambda p, q: compare(op, num(p), num(q)), x, y), a, b)
        if is_mat(a):
            return liftn(I, lambda x: mat_map(lambda p: compare(op, num(p), num(b)), x), a)
    if op in ('&&', '||') and is_mat(a) and is_mat(b):
        fn = band if op == '&&' else bor
        return liftn(I, lambda x, y: mat_zip(fn, x, y), a, b)
    bad(I, 'Eigen operator %s' % op, node)


def dense(x):
    if isinstance(x, DiagM):
        return fit(x, -1, -1)
    return x


def scale(m, s, left=False):
    if isinstance(m, DiagM):
        return DiagM(scale(m.v, s))
    return mat_map((lambda e: gmul(s, e)) if left else (lambda e: gmul(e, s)), m)


IDENT = ('array', 'matrix', 'noalias', 'eval', 'derived', 'const_cast_derived', 'nestedExpression', 'selfadjointView', 'lazyAssign_',
         'cast', 'finished', 'template', 'reshaped_')


def as_view(I, this, node):
    """rectangular cell selection of an Eigen lvalue"""
    if isinstance(this, View):
        return this
    v = I.load(this)
    if isinstance(v, View):
        return v
    if isinstance(v, Ref):
        return as_view(I, v.t, node)
    if isinstance(v, Mat):
        return View(this, [[(i, j) for j in range(v.c)] for i in range(v.r)])
    if isinstance(v, D):
        shapes = {(l.r, l.c) for _, l in leaves(v) if isinstance(l, Mat)}
        if len(shapes) == 1:
            r, c = shapes.pop()
            return View(this, [[(i, j) for j in range(c)] for i in range(r)])
    bad(I, 'view of %r' % (v,), node)


def sel(I, this, rows, cols, node):
    """sub-selection, as View for lvalues and Mat for values"""
    if isinstance(this, D) and is_lv(this):
        return liftn(I, lambda t: sel(I, t, rows, cols, node), this)
    if is_lv(this):
        v = as_view(I, this, node)
        chk(I, v.r, v.c, rows, cols, node)
        return View(v.loc, [[v.cells[i][j] for j in cols] for i in rows])

    def go(m):
        chk(I, m.r, m.c, rows, cols, node)
        return Mat(len(rows), len(cols), [m.at(i, j) for i in rows for j in cols])
    return liftn(I, go, this)


def chk(I, r, c, rows, cols, node):
    if any(not 0 <= i < r for i in rows) or any(not 0 <= j < c for j in cols):
        I.event('oob', node, True, index='rows %s cols %s' % (list(rows), list(cols)), size='%dx%d' % (r, c))
        raise Dead()


def shape(I, this, node):
    v = val(I, this)
    if isinstance(v, D):
        s = {(l.r, l.c) for _, l in leaves(v) if isinstance(l, Mat)}
        if len(s) == 1:
            return s.pop()
        return None
    if isinstance(v, DiagM):
        n = len(v.v.e)
        return n, n
    if isinstance(v, Mat):
        return v.r, v.c
    bad(I, 'shape of %r' % (v,), node)


def rows_cols(I, this, node):
    v = val(I, this)
    return liftn(I, lambda m: rc(m.r), v), liftn(I, lambda m: rc(m.c), v)


def cell(I, this, i, j, node):
    """element access; i, j values (j None for linear)"""
    if isinstance(this, D) and is_lv(this):
        return liftn(I, lambda t: cell(I, t, i, j, node), this)
    if is_lv(this):
        sh = shape(I, this, node)
        if sh is None:
            # shape differs per path: only reads through load are possible
            return liftn(I, lambda m: cell_val(I, m, i, j, node), val(I, this))
        r, c = sh
        ki = cst(i)
        kj = cst(j) if j is not None else None
        if j is None:
            if r != 1 and c != 1:
                bad(I, 'linear access to %dx%d' % (r, c), node)
            if ki is not None:
                a, b = (0, ki) if r == 1 and c != 1 else (ki, 0)
                if r == 1 and c == 1:
                    a, b = (ki, 0)
                return cell_rc(I, this, a, b, r, c, node)
            if isinstance(this, Loc) and not isinstance(I.load(this), View):
                return this.at(('i', i))
            return liftn(I, lambda m: I.index(m.e, i, node), val(I, this))
        if ki is not None and kj is not None:
            return cell_rc(I, this, ki, kj, r, c, node)
        return liftn(I, lambda m: I.index(m.e, add(mul(i, rc(c)), j), node), val(I, this))
    return liftn(I, lambda m: cell_val(I, m, i, j, node), this)


def cell_val(I, m, i, j, node):
    if j is None:
        return I.index(m.e, i, node)
    ki, kj = cst(i), cst(j)
    if ki is None or kj is None:
        return I.index(m.e, add(mul(i, rc(m.c)), j), node)
    if not (0 <= ki < m.r and 0 <= kj < m.c):
        I.event('oob', node, True, index='(%d,%d)' % (ki, kj), size='%dx%d' % (m.r, m.c))
        raise Dead()
    return m.at(ki, kj)


def cell_rc(I, this, i, j, r, c, node):
    if not (0 <= i < r and 0 <= j < c):
        I.event('oob', node, True, index='(%d,%d)' % (i, j), size='%dx%d' % (r, c))
        raise Dead()
    if isinstance(this, View):
        a, b = this.cells[i][j]
        return this.loc.at(('c', a, b))
    v = I.load(this)
    if isinstance(v, View):
        return cell_rc(I, v, i, j, r, c, node)
    if isinstance(v, Ref):
        return cell_rc(I, v.t, i, j, r, c, node)
    return this.at(('c', i, j))


def assign(I, f, this, v, node):
    """Eigen assignment to an lvalue"""
    if isinstance(v, Obj) and v.kind == 'solve':
        v = v.args[0]
    if isinstance(this, Loc) and not isinstance(I.load(this), View):
        cur = I.load(this)
        if isinstance(cur, Ref):
            return assign(I, f, cur.t, v, node)
        cls = f['tu'].recs.get(f.get('cls')) or {}
        a = cls.get('a') or []
        if cls.get('bn') in ('Eigen::Matrix', 'Eigen::Array') and len(a) > 2:
            r, c = a[1]['i'], a[2]['i']
        elif isinstance(cur, Mat) and cur.r * cur.c:
            r, c = cur.r, cur.c
        else:
            r, c = -1, -1
        if is_scalar(v):
            I.store(this, liftn(I, lambda m: const_mat(m.r, m.c, num(v)), cur), node)
            return this
        I.store(this, liftn(I, lambda m: fit(m, r, c), v), node)
        return this
    if is_scalar(v):
        vw = as_view(I, this, node)
        v = const_mat(vw.r, vw.c, num(v))
    if isinstance(this, D):
        I.store(this, v, node)
        return this
    vw = as_view(I, this, node)
    I.store_view(vw, liftn(I, dense, v), node)
    return this


def comma_put(I, cm, x, node):
    view = cm.view
    v = val(I, x)
    if isinstance(v, (Obj,)) and v.kind == 'solve':
        v = v.args[0]
    if is_mat(v):
        m = dense(v)
        if isinstance(m, D):
            bad(I, 'comma initializer with split block', node)
    else:
        m = Mat(1, 1, [num(v)])
    if cm.c >= view.c and view.c > 0:
        cm.r += cm.h
        cm.c = 0
        cm.h = 0
    if view.r * view.c == 0:
        return cm
    if 1 in (view.r, view.c) and 1 in (m.r, m.c) and view.r * view.c >= m.r * m.c and not (cm.r + m.r <= view.r and cm.c + m.c <= view.c):
        m = Mat(m.c, m.r, m.e)
    if cm.r + m.r > view.r or cm.c + m.c > view.c:
        I.event('oob', node, True, index='comma initializer overflow', size='%dx%d' % (view.r, view.c))
        raise Dead()
    sub_ = View(view.loc, [[view.cells[cm.r + i][cm.c + j] for j in range(m.c)] for i in range(m.r)])
    I.store_view(sub_, m, node)
    cm.c += m.c
    cm.h = m.r
    return cm


def eigen_method(I, f, this, args, node):
    n = f['n']
    cls = (f['tu'].recs.get(f.get('cls')) or {}).get('bn', '')
    if isinstance(this, Obj) or (isinstance(this, Loc) and isinstance(I.load(this), Obj)):
        return eigen_obj(I, f, this if isinstance(this, Obj) else I.load(this), args, node)
    if isinstance(this, Comma) or (isinstance(this, Loc) and isinstance(I.load(this), Comma)):
        cm = this if isinstance(this, Comma) else I.load(this)
        if n == 'operator,':
            return comma_put(I, cm, args[0], node)
        if n == 'finished':
            return val(I, cm.view)
        bad(I, 'CommaInitializer::%s' % n, node)
    if f.get('static'):
        return eigen_static(I, f, args, node)
    # ---- shape and access
    if n in ('rows', 'cols', 'size', 'innerSize', 'outerSize'):
        r, c = rows_cols(I, this, node)
        return {'rows': r, 'cols': c}.get(n) if n in ('rows', 'cols') else mul(r, c)
    if n in ('operator()', 'operator[]', 'coeff', 'coeffRef'):
        ix = [num(val(I, a)) for a in args]
        return cell(I, this, ix[0], ix[1] if len(ix) > 1 else None, node)
    if n in ('x', 'y', 'z', 'w') and not args:
        return cell(I, this, rc('xyzw'.index(n)), None, node)
    if n == 'value':
        return cell(I, this, ZERO, ZERO, node)
    if n in ('row', 'col', 'block', 'topRows', 'bottomRows', 'middleRows', 'leftCols', 'rightCols', 'middleCols', 'head', 'tail', 'segment',
             'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'):
        return eigen_sub(I, f, this, args, node)
    if n in ('begin', 'end'):
        v = this if is_lv(this) else I.new(this)
        s = shape(I, v, node)
        return Iter(v, ZERO if n == 'begin' else rc(s[0] * s[1]))
    if n in IDENT:
        return this
    if n == 'real':
        if is_cplx(f):
            return liftn(I, lambda m: mat_map(lambda e: lift(lambda x: app('re', x), e), m), val(I, this))
        return this
    if n == 'imag':
        return liftn(I, lambda m: mat_map(lambda e: lift(lambda x: app('im', x), e), m), val(I, this))
    if n == 'conjugate':
        return liftn(I, lambda m: mat_map(lambda e: lift(conj, e), m), val(I, this)) if is_cplx(f) else this
    if n in ('transpose', 'adjoint'):
        v = val(I, this)
        if n == 'adjoint' and is_cplx(f):
            return liftn(I, lambda m: transpose(mat_map(lambda e: lift(conj, e), m)), v)
        if is_lv(this) and isinstance(v, Mat) and not any(isinstance(e, (NC, D)) for e in v.e):
            vw = as_view(I, this, node)
            return View(vw.loc, [[vw.cells[i][j] for i in range(vw.r)] for j in range(vw.c)])
        return liftn(I, transpose, v)
    if n == 'reverse':
        r, c = shape(I, this, node)
        return sel(I, this, range(r - 1, -1, -1), range(c - 1, -1, -1), node)
    if n == 'diagonal':
        v = val(I, this)
        if is_lv(this) and isinstance(v, Mat):
            vw = as_view(I, this, node)
            return View(vw.loc, [[vw.cells[i][i]] for i in range(min(vw.r, vw.c))])
        return liftn(I, lambda m: Mat(min(m.r, m.c), 1, [m.at(i, i) for i in range(min(m.r, m.c))]), v)
    if n == 'asDiagonal':
        return liftn(I, lambda m: DiagM(m), val(I, this))
    if n == 'toDenseMatrix':
        return dense(val(I, this))
    # ---- mutation
    if n in ('setZero', 'setOnes', 'setIdentity', 'setConstant', 'fill'):
        extra = 1 if n in ('setConstant', 'fill') else 0
        dims = [ci(I, a, node) for a in args[:len(args) - extra]]
        if dims:
            r, c = (dims + [1])[:2] if len(dims) == 2 else (dims[0], 1)
        else:
            r, c = shape(I, this, node)
        m = {'setZero': const_mat(r, c, ZERO), 'setOnes': const_mat(r, c, ONE), 'setIdentity': identity(r, c)}.get(n)
        if m is None:
            m = const_mat(r, c, num(val(I, args[-1])))
        if dims:
            I.store(this, m, node)
        else:
            assign(I, f, this, m, node)
        return this
    if n in ('resize', 'conservativeResize'):
        dims = [ci(I, a, node) for a in args]
        cur = val(I, this)
        if len(dims) == 1:
            a = clsargs(f)
            dims = [dims[0], 1]
            try:
                if a[0].get('t') is not None:
                    rr, cc, _ = eig_shape(f['tu'], a[0]['t'])
                    if rr == 1:
                        dims = [1, dims[0]]
                    elif cc > 0:
                        dims[1] = cc
            except Exception:
                pass
        if (cur.r, cur.c) != tuple(dims):
            if n == 'resize':
                I.store(this, const_mat(dims[0], dims[1], UNDEF), node)
            else:
                I.store(this, Mat(dims[0], dims[1], [cur.at(i, j) if i < cur.r and j < cur.c else UNDEF
                                                     for i in range(dims[0]) for j in range(dims[1])]), node)
        return None
    if n == 'operator=':
        v = val(I, args[0])
        if isinstance(v, Vec):
            v = Mat(len(v.e), 1, v.e)
        return assign(I, f, this, v, node)
    if n in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
        a, b = val(I, this), val(I, args[0])
        arr = cls.endswith('ArrayBase')
        op = n[8:-1]
        if op == '*' and is_mat(a) and is_mat(b) and not arr and cls not in ('Eigen::MatrixBase', 'Eigen::EigenBase', 'Eigen::DenseBase'):
            arr = 'Array' in cls
        assign(I, f, this, eig_bin(I, op, a, b, arr, node), node)
        return this
    if n == 'operator<<':
        if isinstance(val(I, this), Stream):
            I.event('io', node, True, stream=val(I, this).name)
            return this
        lv = this if is_lv(this) else I.new(this)
        return comma_put(I, Comma(as_view(I, lv, node)), args[0], node)
    if n == 'swap':
        return f_swap(I, {'n': 'swap'}, None, [this, args[0]], node)
    if n in ('rowwise', 'colwise'):
        return Obj(n, val(I, this))
    if n in ('transposeInPlace', 'adjointInPlace', 'reverseInPlace'):
        def turned(m):
            if n == 'reverseInPlace':
                return Mat(m.r, m.c, list(reversed(m.e)))
            return Mat(m.c, m.r, [m.e[i * m.c + j] for j in range(m.c) for i in range(m.r)])
        assign(I, f, this, liftn(I, turned, val(I, this)), node)
        return None
    if n in ('normalized', 'normalize', 'stableNormalized'):
        def unit(m):
            s = ZERO
            for e in m.e:
                s = add(s, gmul(e, e), True)
            s = fsqrt(s)
            return Mat(m.r, m.c, [ite(compare('<', ZERO, s), gdiv(e, s), e) for e in m.e])
        v = liftn(I, unit, val(I, this))
        if n == 'normalize':
            assign(I, f, this, v, node)
            return None
        return v
    # ---- arithmetic
    a = val(I, this)
    if isinstance(a, Obj) and a.kind == 'solve':
        a = a.args[0]
    arr = cls.startswith('Eigen::Array')
    if n == 'operator-' and not args:
        return liftn(I, lambda m: DiagM(mat_map(gneg, m.v)) if isinstance(m, DiagM) else mat_map(gneg, m), a)
    if n == 'operator+' and not args:
        return a
    if n == 'operator!' and not args:
        return liftn(I, lambda m: mat_map(bnot, m), a)
    if n.startswith('operator') and len(args) == 1:
        return eig_bin(I, n[8:], a, val(I, args[0]), arr, node)
    if n in ('cwiseProduct', 'cwiseQuotient', 'cwiseMin', 'cwiseMax', 'min', 'max'):
        b = val(I, args[0])
        fn = {'cwiseProduct': gmul, 'cwiseQuotient': gdiv,
              'cwiseMin': lambda x, y: merge(compare('<', num(y), num(x)), y, x),
              'cwiseMax': lambda x, y: merge(compare('<', num(x), num(y)), y, x)}
        fn['min'], fn['max'] = fn['cwiseMin'], fn['cwiseMax']
        if is_mat(b):
            return liftn(I, lambda x, y: mat_zip(fn[n], x, y), a, b)
        return liftn(I, lambda x: mat_map(lambda e: fn[n](e, num(b)), x), a)
    if n in ('abs', 'cwiseAbs'):
        if is_cplx(f):
            return liftn(I, lambda m: mat_map(lambda e: lift(lambda x: app('cabs', x), e), m), a)
        return liftn(I, lambda m: mat_map(lambda e: fabs(num(e)), m), a)
    if n in ('square', 'abs2', 'cwiseAbs2'):
        return liftn(I, lambda m: mat_map(lambda e: gmul(e, e), m), a)
    if n in ('sqrt', 'cwiseSqrt'):
        return liftn(I, lambda m: mat_map(lambda e: fsqrt(num(e)), m), a)
    if n in ('inverse', 'cwiseInverse'):
        if n == 'cwiseInverse' or arr:
            return liftn(I, lambda m: mat_map(lambda e: gdiv(ONE, e), m), a)
        return liftn(I, inverse, a)
    if n in MATH1 or n in ('arg',):
        fn = 'carg' if n == 'arg' else n
        return liftn(I, lambda m: mat_map(lambda e: lift(lambda x: app(fn, x), num(e)), m), a)
    if n == 'pow':
        e0 = [val(I, args[0])]
        return liftn(I, lambda m: mat_map(lambda e: f_pow(I, f, None, [e, e0[0]], node), m), a)
    if n == 'isNaN':
        return liftn(I, lambda m: mat_map(lambda e: f_isnan(I, f, None, [e], node), m), a)
    if n == 'unaryExpr':
        fn = args[0]

        def un(m):
            return Mat(m.r, m.c, [I.plain(val(I, I.call_value(fn, [e], node)), None) for e in m.e])
        return liftn(I, un, a)
    if n == 'binaryExpr':
        fn = args[1]
        return liftn(I, lambda x, y: mat_zip(lambda p, q: val(I, I.call_value(fn, [p, q], node)), x, y), a, val(I, args[0]))
    if n == 'select':
        x, y = val(I, args[0]), val(I, args[1])
        return liftn(I, lambda m: Mat(m.r, m.c, [merge(truth(e), x.e[k] if is_mat(x) else num(x), y.e[k] if is_mat(y) else num(y))
                                                 for k, e in enumerate(m.e)]), a)
    # ---- reductions
    if n in ('sum', 'prod', 'mean', 'minCoeff', 'maxCoeff', 'norm', 'squaredNorm', 'trace', 'determinant', 'all', 'any', 'count',
             'lpNorm', 'allFinite', 'hasNaN', 'isApprox', 'isZero'):
        return liftn(I, lambda m: reduce_(I, f, n, m, args, node), a)
    if n == 'dot':
        return liftn(I, lambda x, y: reduce_(I, f, 'sum', mat_zip(gmul, x, y), [], node), a, val(I, args[0]))
    if n in ('householderQr', 'colPivHouseholderQr', 'fullPivHouseholderQr', 'partialPivLu', 'fullPivLu', 'lu', 'ldlt', 'llt'):
        return Obj('dec', a)
    if n == 'eigenvalues':
        h = I.hooks.get('eigenvalues')
        return liftn(I, lambda m: h(m), a) if h else eig_values(a)
    if n == 'replicate':
        r, c = ci(I, args[0], node), ci(I, args[1], node)
        return liftn(I, lambda m: kron(const_mat(r, c, ONE), m), a)
    bad(I, 'Eigen method %s' % f['qn'], node)


def eigen_sub(I, f, this, args, node):
    n = f['n']
    sh = shape(I, this, node)
    if sh is None:
        bad(I, 'block of a matrix of undetermined shape', node)
    R_, C_ = sh
    ta = [x.get('i') for x in (f.get('a') or []) if 'i' in x]
    if n in ('row', 'col'):
        k = num(val(I, args[0]))
        if isinstance(k, D) and all(isinstance(l, R) and l.const() is not None for _, l in leaves(k)):
            # which row or column depends on conditions: a value, not something to assign to
            v = val(I, this)
            return liftn(I, lambda i: sel(I, v, [int(i.const())] if n == 'row' else range(R_), [int(i.const())] if n == 'col' else range(C_), node), k)
    av = [ci(I, a, node, 'index') for a in args]
    rows, cols = range(R_), range(C_)
    if n == 'row':
        rows = [av[0]]
    elif n == 'col':
        cols = [av[0]]
    elif n == 'block':
        r, c = (av[2], av[3]) if len(av) == 4 else (ta[0], ta[1])
        rows, cols = range(av[0], av[0] + r), range(av[1], av[1] + c)
    else:
        k = av[-1] if n not in ('middleRows', 'middleCols', 'segment') and av else None
        if n in ('topRows', 'bottomRows', 'leftCols', 'rightCols', 'head', 'tail'):
            k = av[0] if av else ta[0]
        if n == 'topRows':
            rows = range(0, k)
        elif n == 'bottomRows':
            rows = range(R_ - k, R_)
        elif n == 'leftCols':
            cols = range(0, k)
        elif n == 'rightCols':
            cols = range(C_ - k, C_)
        elif n == 'middleRows':
            k = av[1] if len(av) > 1 else ta[0]
            rows = range(av[0], av[0] + k)
        elif n == 'middleCols':
            k = av[1] if len(av) > 1 else ta[0]
            cols = range(av[0], av[0] + k)
        elif n in ('head', 'tail', 'segment'):
            if n == 'segment':
                k = av[1] if len(av) > 1 else ta[0]
                rg = range(av[0], av[0] + k)
            else:
                size = R_ * C_
                rg = range(0, k) if n == 'head' else range(size - k, size)
            if C_ == 1:
                rows = rg
            else:
                cols = rg
        else:
            r, c = (av[0], av[1]) if len(av) == 2 else (ta[0], ta[1])
            rows = range(0, r) if 'top' in n else range(R_ - r, R_)
            cols = range(0, c) if 'Left' in n else range(C_ - c, C_)
    return sel(I, this, rows, cols, node)


def reduce_(I, f, n, m, args, node):
    e = m.e
    if n in ('minCoeff', 'maxCoeff'):
        if not e:
            I.event('oob', node, True, index=n, size=0)
            raise Dead()
        best, bi, bj = num(e[0]), ZERO, ZERO
        for k in range(1, len(e)):
            x = num(e[k])
            c = compare('<', x, best) if n == 'minCoeff' else compare('>', x, best)
            best = merge(c, x, best)
            bi, bj = merge(c, rc(k // m.c), bi), merge(c, rc(k % m.c), bj)
        if args:
            ps = [val(I, a) for a in args]
            if len(ps) == 1:
                I.store(I.deref(ps[0], node), bi if m.c == 1 else bj, node)
            else:
                I.store(I.deref(ps[0], node), bi, node)
                I.store(I.deref(ps[1], node), bj, node)
        return best
    if n in ('sum', 'mean'):
        s = None
        for x in e:
            s = x if s is None else gadd(s, x)
        s = ZERO if s is None else s
        return s if n == 'sum' else gdiv(s, rc(len(e)))
    if n == 'prod':
        s = ONE
        for x in e:
            s = gmul(s, x)
        return s
    if n in ('norm', 'squaredNorm'):
        s = ZERO
        for x in e:
            s = gadd(s, gmul(x, x))
        return s if n == 'squaredNorm' else fsqrt(s)
    if n == 'trace':
        s = ZERO
        for i in range(min(m.r, m.c)):
            s = gadd(s, m.at(i, i))
        return s
    if n == 'determinant':
        return det(m)
    if n in ('all', 'any'):
        r = n == 'all'
        for x in e:
            r = band(r, truth(x)) if n == 'all' else bor(r, truth(x))
        return r
    if n == 'count':
        s = ZERO
        for x in e:
            s = add(s, num(truth(x)))
        return s
    if n == 'lpNorm':
        s = ZERO
        for x in e:
            y = fabs(num(x))
            s = merge(compare('<', s, y), y, s)
        if (f.get('a') or [{}])[0].get('i') == -1:
            return s
    bad(I, 'reduction %s' % n, node)


def flat(m):
    return tuple(m.e)


def eig_values(m):
    return Mat(m.r, 1, [gated_app('eigval', k, m) for k in range(m.r)])


def gated_app(name, k, m, k2=None):
    extra = (rc(k),) if k2 is None else (rc(k), rc(k2))
    return lift(lambda *cs: app(name, *(extra + tuple(cs))), *[num(x) for x in m.e])


def eigen_obj(I, f, o, args, node):
    n = f['n']
    if o.kind == 'dec':
        if n == 'solve':
            b = val(I, args[0])
            return liftn(I, lambda a, y: matmul(inverse(a), y), o.args[0], b)
        if n == 'inverse':
            return liftn(I, inverse, o.args[0])
        if n == 'determinant':
            return liftn(I, det, o.args[0])
    if o.kind == 'eig':
        m = o.args[0]
        if n == 'eigenvalues':
            return liftn(I, eig_values, m)
        if n == 'eigenvectors':
            h = I.hooks.get('eigenvectors')
            if h:
                return h(I, m)
            return liftn(I, lambda a: Mat(a.r, a.r, [gated_app('eigvec', i, a, j) for i in range(a.r) for j in range(a.r)]), m)
        if n == 'info':
            return ZERO
    if o.kind == 'exception':
        return Str('')
    if o.kind == 'functor':
        return m_functor(I, f, o, args, node)
    if o.kind in ('rowwise', 'colwise') and f['n'] in ('sum', 'prod', 'mean', 'minCoeff', 'maxCoeff', 'norm', 'squaredNorm'):
        def each(m):
            if o.kind == 'rowwise':
                return Mat(m.r, 1, [reduce_(I, f, f['n'], Mat(1, m.c, m.e[i * m.c:(i + 1) * m.c]), args, node) for i in range(m.r)])
            return Mat(1, m.c, [reduce_(I, f, f['n'], Mat(m.r, 1, m.e[j::m.c]), args, node) for j in range(m.c)])
        return liftn(I, each, o.args[0])
    bad(I, 'method %s of %s' % (f['qn'], o.kind), node)
