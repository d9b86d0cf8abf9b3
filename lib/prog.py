"""Loading the type-checked program: builds the extractor when needed, extracts every
translation unit of /repo's current working tree and links the units by mangled name."""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(ROOT, '.cache')
LLVM = '/usr/lib/llvm-18'


class AnalysisBroken(Exception):
    """the analysis cannot be carried out (vanished anchor, ...)"""


class SourcesBroken(Exception):
    """the sources do not compile, or cannot be read"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def tool():
    src = os.path.join(ROOT, 'tool', 'cppdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, 'cppdump-' + h)
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        r = sh(['clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++', '-O1', '-fno-rtti', '-std=c++17',
                '-I' + LLVM + '/include', src, '-o', tmp, LLVM + '/lib/libclang-cpp.so.18.1',
                LLVM + '/lib/libLLVM.so.18.1', '-Wl,-rpath,' + LLVM + '/lib'])
        if r.returncode:
            raise SourcesBroken('building cppdump failed:\n' + r.stderr[-3000:])
        os.replace(tmp, out)
    return out, h


FLAGS = ['-std=c++17', '-DNDEBUG', '-DWITH_MATSCS', '-DMATSLISE_VERSION="3.2.1"', '-isystem', '/usr/include/eigen3',
         '-resource-dir', LLVM + '/lib/clang/18', '-Wno-everything']
CONFIGS = {'double': [], 'all': ['-DMATSLISE_LONG_DOUBLE', '-DBOOST', '-DMATSLISE_QUADMATH'],
           'ld': ['-DMATSLISE_LONG_DOUBLE']}


def sources(dirs=('',)):
    """the library's sources, or those in the named directories of bindings"""
    r = []
    for p in glob.glob(os.path.join(REPO, 'matslise', '**', '*.cpp'), recursive=True):
        rel = os.path.relpath(p, os.path.join(REPO, 'matslise'))
        if (rel.split(os.sep)[0] if rel.split(os.sep)[0] in ('js', 'pyslise') else '') not in dirs:
            continue
        r.append(p)
    return sorted(r)


def tree_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(REPO, 'matslise', '**', '*'), recursive=True)):
        if os.path.isfile(p) and p.endswith(('.h', '.hpp', '.cpp', '.cc', '.inl', '.tpp', '.ipp')):
            h.update(p.encode() + b'\0')
            h.update(open(p, 'rb').read() + b'\0')
    for p in sorted(glob.glob(os.path.join(ROOT, 'harness', '**', '*'), recursive=True)):
        if os.path.isdir(p):
            continue
        h.update(open(p, 'rb').read() + b'\0')
    return h.hexdigest()[:16]


class TU:
    """one translation unit"""

    def __init__(self, path, d):
        self.path = path
        self.types = d['types']
        self.funs = {int(k): v for k, v in d['funs'].items()}
        self.recs = {int(k): v for k, v in d['recs'].items()}
        self.vars = {int(k): v for k, v in d['vars'].items()}
        self.files = d['files']
        self.errors = d.get('errors')
        for k, f in self.funs.items():
            f['tu'] = self
            f['id'] = k
        for k, r in self.recs.items():
            r['tu'] = self
            r['id'] = k
        for k, v in self.vars.items():
            v['tu'] = self
            v['id'] = k

    def loc(self, l):
        if not l or l[0] is None or l[0] < 0:
            return '?'
        f = self.files[l[0]]
        if f.startswith(REPO + '/'):
            f = f[len(REPO) + 1:]
        return '%s:%d' % (f, l[1])

    def file(self, l):
        return self.files[l[0]] if l and l[0] is not None and l[0] >= 0 else ''

    def ty(self, i):
        return self.types[i]

    def strip(self, i):
        """type id -> type dict without references"""
        t = self.types[i]
        while t['k'] in ('r', 'rr'):
            t = self.types[t['e']]
        return t


def _extract(args):
    tl, src, flags, out, prefix = args
    tmp = out + '.%d.tmp' % os.getpid()
    r = sh([tl, tmp, prefix, src, '--'] + flags)
    if not os.path.exists(tmp):
        raise SourcesBroken('extracting %s failed: %s' % (src, r.stderr[-2000:]))
    os.replace(tmp, out)


_basere = re.compile(r'<[^<>]*>')


def base(qn):
    """qualified name without template arguments"""
    keep = {}
    qn = qn.replace('operator<<', 'operator@1').replace('operator<=', 'operator@2').replace('operator<', 'operator@3')
    qn = qn.replace('operator>>', 'operator@4').replace('operator>=', 'operator@5').replace('operator->', 'operator@6')
    qn = qn.replace('operator>', 'operator@7')
    while True:
        n = _basere.sub('', qn)
        if n == qn:
            break
        qn = n
    qn = qn.replace('(anonymous namespace)::', '')
    for a, b in (('@1', '<<'), ('@2', '<='), ('@3', '<'), ('@4', '>>'), ('@5', '>='), ('@6', '->'), ('@7', '>')):
        qn = qn.replace('operator' + a, 'operator' + b)
    return qn


def rank(r):
    """member initialisers of templates are only there in the units that need them"""
    return (bool(r.get('def')), sum(1 for f in r.get('fields', []) if f.get('init') is not None))


class Program:
    def __init__(self, config='double', only=None, harness=(), bindings=()):
        t0 = time.time()
        tl, th = tool()
        self.config = config
        flags = FLAGS + CONFIGS[config]
        if config == 'all':
            # gcc's quadmath.h on its own (the rest of gcc's include directory must stay out of clang's way)
            qd = os.path.join(CACHE, 'quad')
            os.makedirs(qd, exist_ok=True)
            for g in glob.glob('/usr/lib/gcc/*/*/include/quadmath.h')[:1]:
                with open(g) as f, open(os.path.join(qd, 'quadmath.h'), 'w') as o:
                    o.write(f.read())
            flags = flags + ['-isystem', qd]
        srcs = sources()
        if not srcs:
            raise SourcesBroken('no sources found under %s/matslise' % REPO)
        if only is not None:
            srcs = [s for s in srcs if any(os.path.relpath(s, REPO) == 'matslise/' + o or o in os.path.relpath(s, REPO) for o in only)]
        bs = sources(bindings) if bindings else []
        srcs += bs
        hs = [os.path.join(ROOT, 'harness', h) for h in harness]
        srcs += hs
        key = hashlib.sha256((tree_hash() + th + ' '.join(flags)).encode()).hexdigest()[:16]
        d = os.path.join(CACHE, 'ast-' + key)
        if not os.path.isdir(d):
            # keep the cache small: drop older extractions
            def age(o):
                try:
                    return time.time() - os.path.getmtime(o)
                except OSError:
                    return 0
            olds = sorted(((age(o), o) for o in glob.glob(os.path.join(CACHE, 'ast-*'))), reverse=True)
            for a, o in olds[:-6]:
                if a < 900:     # possibly in use
                    continue
                for f in glob.glob(o + '/*'):
                    try:
                        os.unlink(f)
                    except OSError:
                        pass
                try:
                    os.rmdir(o)
                except OSError:
                    pass
            os.makedirs(d, exist_ok=True)
        jobs, outs = [], []
        for s in srcs:
            out = os.path.join(d, re.sub(r'[^A-Za-z0-9]', '_', os.path.relpath(s, ROOT if s in hs else REPO)) + '.json')
            outs.append((s, out))
            if not os.path.exists(out):
                prefix = REPO + '/matslise:' + ROOT + '/harness'
                jobs.append((tl, s, flags + (['-I' + REPO] if s in hs else ['-I' + ROOT + '/harness'] if s in bs else []), out, prefix))
        if jobs:
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                list(ex.map(_extract, jobs))
        self.tus = []
        for s, o in outs:
            with open(o) as f:
                tu = TU(s, json.load(f))
            if tu.errors and s in hs:
                raise AnalysisBroken('the analysis harness %s does not match the library any more' % s)
            if tu.errors and s in bs:
                raise AnalysisBroken('%s does not type-check against the declarations of the binding library the analysis has: %s' % (s, tu.errors))
            if tu.errors:
                raise SourcesBroken('%s does not type-check: %s' % (s, tu.errors))
            self.tus.append(tu)
        self.bymn = {}
        self.byname = {}
        for tu in self.tus:
            for f in tu.funs.values():
                f['bn'] = base(f['qn'])
                if f.get('body') is not None:
                    mn = f.get('mn')
                    if mn and (mn not in self.bymn):
                        self.bymn[mn] = f
                    self.byname.setdefault(f['bn'], []).append(f)
        self.recs = {}
        for tu in self.tus:
            tu.reckey = {}
            for t in tu.types:
                if t['k'] == 'rec' and t.get('r') is not None:
                    k = t['s']
                    for q in ('const ', 'volatile '):
                        if k.startswith(q) and t.get(q.strip()):
                            k = k[len(q):]
                    if t['r'] not in tu.reckey or len(k) < len(tu.reckey[t['r']]):
                        tu.reckey[t['r']] = k
            for rid, r in tu.recs.items():
                r['bn'] = base(r['n'])
                k = tu.reckey.get(rid)
                if k is None:
                    k = r['n'] + '#%d' % rid
                if r.get('lambda'):
                    k = '%s@%s#%d' % (k, tu.path, rid)
                r['key'] = k
                tu.reckey[rid] = k
                o = self.recs.get(k)
                if o is None or rank(r) > rank(o):
                    self.recs[k] = r
        self.load_s = time.time() - t0

    # ---------------------------------------------------------------- lookup
    def definition(self, f):
        """the definition of a function (other unit if necessary) or None"""
        if f.get('body') is not None:
            return f
        mn = f.get('mn')
        if mn:
            return self.bymn.get(mn)
        return None

    def functions(self, pred=None):
        """each defined repo function once (by mangled name)"""
        seen = set()
        for tu in self.tus:
            for f in tu.funs.values():
                if f.get('body') is None or not f['repo']:
                    continue
                k = f.get('mn') or (tu.path, f['id'])
                if k in seen:
                    continue
                seen.add(k)
                if pred is None or pred(f):
                    yield f

    def find(self, bn, **kw):
        """defined functions by template-stripped qualified name"""
        seen, out = set(), []
        for f in self.byname.get(bn, []):
            k = f.get('mn') or id(f)
            if k in seen:
                continue
            seen.add(k)
            out.append(f)
        return out

    def rec(self, name):
        return self.recs.get(name)

    def recs_named(self, bn):
        return [r for r in self.recs.values() if r['bn'] == bn]

    def allbases(self, r):
        """names of all (transitive) bases"""
        out = []
        for b in r.get('bases', []):
            br = r['tu'].recs.get(b if isinstance(b, int) else b.get('r'))
            if br is not None:
                full = self.recs.get(br['key'], br)
                out.append(br['key'])
                out += self.allbases(full)
        return out

    def fields(self, r):
        """[(field, rec)] including bases"""
        out = []
        for b in r.get('bases', []):
            br = r['tu'].recs.get(b if isinstance(b, int) else b.get('r'))
            if br is not None:
                out += self.fields(self.recs.get(br['key'], br))
        return out + [(f, r) for f in r.get('fields', [])]


def walk(node):
    """all dict nodes of a statement/expression tree"""
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            if 'k' in n or 'e' in n or 'init' in n:
                yield n
            for k, v in n.items():
                if k in ('tu',):
                    continue
                if isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(n, list):
            stack.extend(x for x in n if isinstance(x, (dict, list)))
