"""Objects and comparisons shared by the value-graph checks."""
from prog import *
from interp import *
import alg, models
import ctypes, os, pickle, sys, threading, time, traceback

DIR = {'none': 0, 'forward': 1, 'backward': 2}


def fresh():
    """forget all interned atoms and assumptions"""
    alg.reset()
    CTX.clear()


class OutOfTime(BaseException):
    pass


def watchdog(seconds):
    """raises OutOfTime in the calling thread after the given time, unless cancelled"""
    tid = ctypes.c_ulong(threading.get_ident())
    t = threading.Timer(seconds, lambda: ctypes.pythonapi.PyThreadState_SetAsyncExc(tid, ctypes.py_object(OutOfTime)))
    t.daemon = True
    t.start()
    return t


BUDGET = [None]     # seconds left for the whole check


def decide(C, inst, body, where='', limit=160, depth=12, seconds=None):
    """decide1 within a time limit: what is not decided by then is recorded as undecided"""
    if BUDGET[0] is None:
        BUDGET[0] = time.time() + (700 if not C.thorough else 820)
    left = min(seconds or (300 if not C.thorough else 600), BUDGET[0] - time.time())
    if left <= 1:
        C.undecided(inst, 'out of time')
        return 0
    nobs = len(C.obs)
    t = watchdog(left)
    try:
        return decide1(C, inst, body, where, limit, depth)
    except OutOfTime:
        C.obs[nobs:] = [o for o in C.obs[nobs:] if not o['ok']]
        C.undecided(inst, 'out of time')
        return 0
    finally:
        t.cancel()


def spread(C, jobs, workers=None):
    """decide every (instance, body) of the list, in several processes; the results in order"""
    workers = min(workers or 6, os.cpu_count() or 1, len(jobs))
    if workers <= 1:
        return sum(decide(C, *j) for j in jobs)
    if BUDGET[0] is None:
        BUDGET[0] = time.time() + (700 if not C.thorough else 820)
    sys.stdout.flush()
    sys.stderr.flush()
    base = len(C.obs), len(C.und)
    kids = []
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid:
            os.close(wr)
            kids.append((pid, r))
            continue
        os.close(r)
        code = 1
        try:
            out = []
            for j in range(w, len(jobs), workers):
                del C.obs[base[0]:], C.und[base[1]:]
                C.items = {}
                n = decide(C, *jobs[j])
                out.append((j, n, C.obs[base[0]:], C.und[base[1]:], C.items, C.assumptions))
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            sys.stderr.flush()
            os._exit(code)
    got = {}
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            raw = f.read()
        _, status = os.waitpid(pid, 0)
        if status == 0:
            for j, *rest in pickle.loads(raw):
                got[j] = rest
    total = 0
    for j, job in enumerate(jobs):
        if j not in got:
            C.undecided(job[0], 'the process that analysed it ended early')
            continue
        n, obs, und, items, ass = got[j]
        total += n
        C.obs += obs
        for u in und:
            C.undecided(*u)
        for k, v in items.items():
            C.items.setdefault(k, {}).update(v)
        for a in ass:
            C.assume(a)
    return total


Interp.last = None


def memory_safe(C, inst, I, where=''):
    bad = [e for e in I.events if e['kind'] in ('oob', 'null')]
    C.ob('no access outside a container', inst, not bad, bad[0]['where'] if bad else where, 'index %s of %s elements' % (bad[0].get('index'), bad[0].get('size')) if bad else '')


def decide1(C, inst, body, where='', limit=160, depth=12):
    """run body (which interprets code and records obligations); where the analysis meets a construct it can only model once some
    decision is fixed, the obligation is split into the cases of that decision. What stays unmodelled is recorded as undecided."""
    fresh()
    todo, done = [()], 0
    while todo:
        asm = todo.pop()
        snap = CTX.push()
        nobs = len(C.obs)
        try:
            for v, i in asm:
                CTX.decide(v, i)
            if not alg.feasible(CTX.cons):
                continue
            base = CTX.push()
            body()
            done += 1
        except Unsupported as e:
            del C.obs[nobs:]
            CTX.pop(base)       # the exception left in the middle of some branch
            oob = Interp.last.definite() if Interp.last is not None else []
            if oob:
                C.ob('no access outside a container', inst, False, oob[0]['where'], 'index %s of %s elements' % (oob[0].get('index'), oob[0].get('size')))
                done += 1
                continue
            v = e.var
            outs = CTX.outcomes(v) if v is not None and v not in CTX.known else []
            if not outs or len(asm) >= depth or done + len(todo) >= limit:
                C.undecided(inst, str(e))
            else:
                todo.extend(asm + ((v, i),) for i in outs)
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, RecursionError, ZeroDivisionError) as e:
            # the abstract values met are of a shape the analysis has no rule for
            del C.obs[nobs:]
            oob = Interp.last.definite() if Interp.last is not None else []
            if oob:
                C.ob('no access outside a container', inst, False, oob[0]['where'], 'index %s of %s elements' % (oob[0].get('index'), oob[0].get('size')))
                done += 1
                continue
            C.undecided(inst, 'no rule: %s: %s at %s' % (type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1][:3]))
        finally:
            CTX.pop(snap)
    return done


def direction(n):
    return rc(DIR[n])


def one(P, bn, pred=None, what=''):
    fs = [f for f in P.find(bn) if pred is None or pred(f)]
    if not fs:
        raise AnalysisBroken('anchor vanished: no definition of %s %s' % (bn, what))
    return fs


def scalar_name(tu, t):
    return tu.strip(t).get('s')


def points(k, prefix='x'):
    xs = [sym('%s%d' % (prefix, i)) for i in range(k + 1)]
    for a, b in zip(xs, xs[1:]):
        CTX.lt(a, b)
    return xs


def mk_sectors(I, cls, k, match, xs=None, extra=None):
    """k sectors tiling x0<...<xk; forward up to the matching sector, backward after it"""
    xs = xs or points(k)
    out = []
    for i in range(k):
        f = {'min': xs[i], 'max': xs[i + 1], 'h': sub(xs[i + 1], xs[i]),
             'direction': direction('forward' if i <= match else 'backward')}
        if extra:
            f.update(extra(i))
        out.append(I.new(Rec(cls, f, 'S%d' % i), 'S%d' % i))
    return xs, out


def mk_matslise(I, k, match, scalar='double', xs=None, extra=None):
    cls = 'matslise::Matslise<%s>' % scalar
    xs, secs = mk_sectors(I, cls + '::Sector', k, match, xs, extra)
    dom = Rec('matslise::Domain<%s>' % scalar, {'min': xs[0], 'max': xs[-1]})
    ms = Rec(cls, {'potential': OFn('V'), 'domain': dom, 'sectorCount': rc(k), 'matchIndex': rc(match),
                   'sectors': Vec([Ptr(s, True) for s in secs]), 'tolerance': sym('tol', positive=True)}, 'ms')
    return I.new(ms, 'ms'), xs, secs


def mk_matscs(I, k, match, n=1, scalar='double', xs=None, extra=None):
    cls = 'matslise::Matscs<%s>' % scalar
    xs, secs = mk_sectors(I, cls + '::Sector', k, match, xs, extra)
    ms = Rec(cls, {'V': OFn('V'), 'n': rc(n), 'xmin': xs[0], 'xmax': xs[-1], 'sectorCount': rc(k),
                   'matchIndex': rc(match), 'sectors': Vec([Ptr(s, True) for s in secs])}, 'ms')
    return I.new(ms, 'ms'), xs, secs


def ycls(scalar='double', n=1, cols=1):
    return 'matslise::Y<%s, %d, %d>' % (scalar, n, cols)


def find_ycls(P, scalar, n, cols):
    """the record key of Y<scalar, n, cols>"""
    for k, r in P.recs.items():
        if r['bn'] == 'matslise::Y' and r.get('a'):
            a = r['a']
            if a[1].get('i') == n and a[2].get('i') == cols and r['tu'].ty(a[0]['t']).get('s') == scalar:
                return k
    raise AnalysisBroken('no Y<%s,%d,%d>' % (scalar, n, cols))


def mk_y(name, cls, rows=4, cols=1):
    return Rec(cls, {'data': Mat(rows, cols, [sym('%s[%d,%d]' % (name, i, j)) for i in range(rows) for j in range(cols)])})


def same(a, b, care=True):
    """None when equal on every feasible path, else a text"""
    d = find_difference(a, b, care)
    if d is None:
        return None
    return d if isinstance(d, str) else show_diff(d)


def show_diff(d):
    try:
        path, x, y = d
        return 'when %s: found %s, expected %s' % (showpath(path) or 'always', show(x), show(y))
    except Exception:
        return str(d)


def fname(f):
    return f['qn']


def floc(f):
    return f['tu'].loc(f.get('loc') or f.get('dloc'))


def sector_flow(P, order):
    """opaque Sector::propagate honouring its contract: identity when both end points lie on the same
    outer side of the sector, otherwise the flow between the clamped end points.
    order(args) -> (E, y, a, b, use_h)"""
    def flow_value(I, this, E, y, a, b, use_h, node):
        s = I.load(this)
        lo, hi = I.load(this.at(('f', 'min'))), I.load(this.at(('f', 'max')))
        return flow(str(this.root), lo, hi, E, y, a, b, use_h)
    return flow_value


def clamp(x, lo, hi):
    return ite(compare('<', x, lo), lo, ite(compare('>', x, hi), hi, x))


def flow(name, lo, hi, E, y, a, b, use_h, theta=True):
    """(cells, dtheta) after one sector"""
    outside = bor(band(compare('>=', a, hi), compare('>=', b, hi)), band(compare('<=', a, lo), compare('<=', b, lo)))
    a1, b1 = clamp(a, lo, hi), clamp(b, lo, hi)
    args = [E, use_h, a1, b1] + list(y)
    cells = [ite(outside, y[j], app('flow%d_%s' % (j, name), *args)) for j in range(len(y))]
    dth = ite(outside, ZERO, app('dtheta_%s' % name, *args))
    return cells, dth


def evaluators(I, P, cls):
    """(scalar, array) evaluation operators of an eigenfunction class, inherited ones included"""
    rec = P.recs[cls]
    out = [None, None]
    for k in [cls] + list(P.allbases(rec)):
        for f in P.functions():
            if f['n'] == 'operator()' and f.get('cls') is not None and f['tu'].recs[f['cls']]['key'] == k and len(f['ps']) == 1:
                arr = f['tu'].strip(f['ps'][0]['t'])['k'] == 'rec'
                if out[arr] is None:
                    out[arr] = f
    if None in out:
        raise AnalysisBroken('anchor vanished: evaluation operators of ' + cls)
    return out


def eval_at(I, P, ef, xs, array):
    """evaluate the eigenfunction object ef (owning pointer) at xs; list of (value, derivative), None when it throws"""
    loc = ef.t if isinstance(ef, Ptr) else ef
    rec = I.load(loc)
    fs, fa = evaluators(I, P, rec.cls)
    if array:
        v = I.run(fa, loc, [I.new(Mat(len(xs), 1, list(xs)))])
        if v is None:
            return None
        v = I.mat(v)
        return [(v.at(i, 0), v.at(i, 1)) for i in range(len(xs))], (v.r, v.c)
    out = []
    for x in xs:
        v = I.run(fs, loc, [I.new(x)])
        if v is None:
            return None
        v = I.mat(v)
        out.append((v.e[0], v.e[1]))
    return out


def opaque_eigenfunction(name):
    """an eigenfunction whose values are uninterpreted functions of the point"""
    def h(I, f, this, args, node):
        x = I.rv(args[0])
        if isinstance(x, (R, D)):
            x = num(x)
            return Mat(2, 1, [app(name, x), app('d' + name, x)])
        m = I.mat(x)
        return Mat(len(m.e), 2, [app(p + name, e) for e in m.e for p in ('', 'd')])
    return Obj('eigenfunction', h)
