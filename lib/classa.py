"""Compiled client programs.

A Prog is a public-API gal client: algebra, scalar type, typed inputs, one or more result expressions.  The verifier
 * prints it as C++ around the real headers, compiles it to LLVM IR with clang (from /repo's current tree),
 * symbolically executes the IR over uninterpreted real inputs (every memory access checked),
 * and discharges, coefficient by coefficient, `compiled result == denotation in the declared Clifford algebra`
   by rational-function normal form.
A refuted obligation is replayed on the real code (g++ -O2 shared object) at a concrete input."""
import os, sys, signal, subprocess, tempfile, shutil, time, random, ctypes, json, math, re
from fractions import Fraction
from concurrent.futures import ProcessPoolExecutor
import irparse as I, symex as S, fexpr as X, poly, ga
from ga import cpp, denote, get_ent, MV, to_null, popc
from poly import RF, Ring, to_rf

REPO = os.environ.get('GAL_REPO', '/repo')
CLANG = '/usr/lib/llvm-18/bin/clang++' if os.path.exists('/usr/lib/llvm-18/bin/clang++') else '/usr/bin/clang++'
GXX = '/usr/bin/g++'
IRFLAGS = ['-std=c++17', '-I' + REPO + '/public', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off',
           '-fno-exceptions', '-fno-builtin', '-fno-math-errno', '-fconstexpr-steps=30000000', '-fconstexpr-depth=4096',
           '-ftemplate-depth=4096', '-fno-discard-value-names', '-w', '-S', '-emit-llvm']
SOFLAGS = ['-std=c++17', '-I' + REPO + '/public', '-O1', '-ffp-contract=off', '-w', '-shared', '-fPIC']

PRE = r'''
#include <gal/vga.hpp>
#include <gal/pga.hpp>
#include <gal/pga2.hpp>
#include <gal/cga.hpp>
#include <tuple>
template <class R, class T> void put1(R const& r, T* out, long* meta)
{
    meta[0] = (long)R::size();
    if constexpr (R::size() > 0)
    {
        for (unsigned long i = 0; i != R::size(); ++i) meta[1 + i] = (long)R::elements[i];
        for (unsigned long i = 0; i != R::size(); ++i) out[i] = r[i];
    }
}
template <class R, class T> void putsel(R const& r, T* out, unsigned n)
{
    for (unsigned e = 0; e != n; ++e) out[e] = r.select(e);
}
template <class... R, class T, unsigned long... I> void putt(std::tuple<R...> const& r, T* out, long* meta, std::index_sequence<I...>)
{
    (put1(std::get<I>(r), out + 64 * I, meta + 64 * I), ...);
}
template <class R, class T> void put(R const& r, T* out, long* meta) { put1(r, out, meta); }
template <class... R, class T> void put(std::tuple<R...> const& r, T* out, long* meta)
{
    putt(r, out, meta, std::make_index_sequence<sizeof...(R)>{});
}
'''

class Prog:
    def __init__(self, pid, alg, inputs, exprs, T='double', note='', structure=True, pre='', text=None, den=None, tag='',
                 tuple_fn='gal::tuple'):
        self.pid = pid; self.alg = alg if isinstance(alg, ga.Alg) else ga.ALGS[alg]
        self.inputs = inputs        # [(name, entkey)]
        self.exprs = exprs if isinstance(exprs, (list, tuple)) else [exprs]
        self.T = T; self.note = note; self.structure = structure
        self.text = text            # overriding C++ lambda body (e.g. named intermediates)
        self.den = den              # overriding denotation: f(prog, R, invars)-> [MV]
        self.tag = tag; self.tuple_fn = tuple_fn
    @property
    def nin(self): return sum(get_ent(k).n for _, k in self.inputs)
    def body(self):
        if self.text is not None: return self.text
        if len(self.exprs) == 1: return 'return %s;' % cpp(self.exprs[0])
        return 'return %s{%s};' % (self.tuple_fn, ', '.join(cpp(e) for e in self.exprs))
    def source(self, fname):
        ns = self.alg.ns
        off = 0; args = []
        L = ['extern "C" void %s(const %s* in, %s* out, long* meta)' % (fname, self.T, self.T), '{',
             '    using T = %s; %s' % (self.T, self.alg.using)]
        for i, (n, k) in enumerate(self.inputs):
            e = get_ent(k)
            L.append('    %s arg%d%s;%s' % (e.cpp, i, e.make(('in', off)), e.after('arg%d' % i, ('in', off))))
            off += e.n
        L.append('    auto r = %s([](%s) { %s }, %s);' %
                 (self.alg.compute, ', '.join('auto ' + n for n, _ in self.inputs), self.body(),
                  ', '.join('arg%d' % i for i in range(len(self.inputs)))))
        L.append('    put(r, out, meta);')
        L.append('}')
        return '\n'.join(L) + '\n'
    def describe(self):
        return '%s<%s> (%s) -> %s' % (self.alg.ns, self.T, ', '.join('%s: %s' % x for x in self.inputs), self.body())
    def spec(self, R, xs):
        if self.den is not None: return self.den(self, R, xs)
        env = {}; off = 0
        for n, k in self.inputs:
            e = get_ent(k)
            env[n] = e.den(self.alg, R, xs[off:off + e.n]); off += e.n
        memo = {}
        return [denote(e, env, self.alg, R, memo) for e in self.exprs]

class _Dummy(ga.Alg): pass
RAWALG = ga.Alg('raw', '', [1] * 6, compute='raw')
class Lab:
    """labelled scalar results in place of a multivector"""
    def __init__(self, R, d): self.R = R; self.d = {k: v for k, v in d.items() if not v.is_zero()}
    def coef(self, e): return self.d.get(e, RF.const(self.R, 0))

class Raw(Prog):
    """a driver around non-expression API: C++ statements that write out[0..nout-1] from in[0..nin-1];
    spec(R, xs) -> list of nout rational functions"""
    def __init__(self, pid, nin, nout, text, spec, T='double', desc=None, assume=None, pre=''):
        Prog.__init__(self, pid, RAWALG, [], [None], T=T, structure=False)
        self._nin = nin; self.nout = nout; self.text = text; self._spec = spec; self._desc = desc; self.assume = assume
        self.pre = pre
    @property
    def nin(self): return self._nin
    def source(self, fname):
        return self.pre + ('extern "C" void %s(const %s* in, %s* out, long* meta)\n{\n    using T = %s; using namespace gal;\n'
                '    meta[0] = %d; for (long i = 0; i != %d; ++i) meta[1 + i] = i;\n    %s\n}\n'
                % (fname, self.T, self.T, self.T, self.nout, self.nout, self.text))
    def describe(self): return self._desc or 'in[%d] -> { %s }' % (self._nin, re.sub(r'\s+', ' ', self.text))
    def spec(self, R, xs):
        return [Lab(R, dict(enumerate(self._spec(R, xs))))]

class Result:
    def __init__(self, pid, status, msg='', obls=0, discharged=0, t=0.0, detail=None, cex=None, desc=''):
        self.pid = pid; self.status = status  # proved / refuted / undecided / nocompile
        self.msg = msg; self.obls = obls; self.discharged = discharged; self.t = t; self.detail = detail or []; self.cex = cex
        self.desc = desc; self.fns = 0; self.solver = 0.0

def run_cmd(cmd, timeout=600, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace', **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return -9, '', 'timeout'

def compile_ir(src, work, name, flags=None, timeout=600):
    cp = os.path.join(work, name + '.cpp'); ll = os.path.join(work, name + '.ll')
    open(cp, 'w').write(src)
    rc, o, e = run_cmd([CLANG] + (flags or IRFLAGS) + [cp, '-o', ll], timeout=timeout)
    return (ll if rc == 0 else None), e, rc

def compile_so(src, work, name, cc=None, timeout=600):
    cp = os.path.join(work, name + '.so.cpp'); so = os.path.join(work, name + '.so')
    open(cp, 'w').write(src)
    for c in ([cc] if cc else [GXX, CLANG]):
        extra = ['-fconstexpr-steps=30000000'] if 'clang' in c else ['-fconstexpr-ops-limit=300000000', '-fconstexpr-loop-limit=10000000']
        rc, o, e = run_cmd([c] + SOFLAGS + extra + [cp, '-o', so], timeout=timeout)
        if rc == 0: return so, ''
    return None, e

FLT = {'double': (8, I.DOUBLE), 'float': (4, I.FLOAT)}

class Reals:
    """branches on real-valued conditions: floating-point expressions as z3 reals; libm results are unknowns (sqrt defined by its square)"""
    def __init__(self, e):
        import z3
        self.z = z3; self.e = e; self.memo = {}; self.xs = {}
        e.fcmp_handler = self.fcmp
    def real(self, f):
        z3 = self.z
        stack = [f]
        while stack:
            x = stack[-1]
            if x.id in self.memo: stack.pop(); continue
            todo = [y for y in x.a if isinstance(y, X.F) and y.id not in self.memo]
            if todo: stack.extend(todo); continue
            stack.pop()
            v = [self.memo[y.id] for y in x.a if isinstance(y, X.F)]
            if x.k == 'c': r = z3.RealVal(str(x.a[0]))
            elif x.k == 'v':
                r = z3.Real(x.a[0])
                if x.a[0] == 'PI': self.e.base += [r > z3.RealVal('3.14159265'), r < z3.RealVal('3.14159266')]
                elif x.a[0] == 'E': self.e.base += [r > z3.RealVal('2.71828182'), r < z3.RealVal('2.71828183')]
                else: self.xs[x.a[0]] = r
            elif x.k == 'add': r = v[0] + v[1]
            elif x.k == 'sub': r = v[0] - v[1]
            elif x.k == 'mul': r = v[0] * v[1]
            elif x.k == 'div': r = v[0] / v[1]
            elif x.k == 'neg': r = -v[0]
            elif x.k == 'call' and x.a[0] == 'fabs': r = z3.If(v[0] < 0, -v[0], v[0])
            elif x.k == 'call':
                r = z3.Real('call%d' % x.id)
                if x.a[0] == 'sqrt': self.e.base += [r >= 0, z3.Implies(v[0] >= 0, r * r == v[0])]
                elif x.a[0] in ('sin', 'cos'): self.e.base += [r >= -1, r <= 1]
            else: raise I.Unsupported('real of ' + x.k)
            self.memo[x.id] = r
        return self.memo[f.id]
    def fcmp(self, st, pred, x, y):
        p, q = self.real(x), self.real(y)
        k = pred[1:]
        if k == 'rd': return 1
        if k == 'no': return 0
        return {'eq': lambda: p == q, 'ne': lambda: p != q, 'lt': lambda: p < q, 'le': lambda: p <= q, 'gt': lambda: p > q, 'ge': lambda: p >= q}[k]()
    def points(self, st, n, k=3):
        """concrete inputs that take this path"""
        z3 = self.z; out = []
        block = []
        for i in range(k):
            for extra in ([z3.And(v >= -8, v <= 8) for v in self.xs.values()], []):
                r, s = self.e.check(st.pc + block + extra)
                if r == z3.sat: break
            if r != z3.sat: break
            m = s.model(); pt = {}
            for name, v in self.xs.items():
                x = m.eval(v, model_completion=True)
                if not z3.is_rational_value(x): x = x.approx(30)
                pt[name] = x.numerator_as_long() / x.denominator_as_long()
            out.append(pt)
            block.append(z3.Or([v != m.eval(v, model_completion=True) for v in self.xs.values()])) if self.xs else None
            if not self.xs: break
        return out

def symexec(mod, fname, p):
    """returns (engine, [(state, [(elements, [F]) per result])] per path, reals)"""
    sz, ty = FLT[p.T]
    e = S.Engine(mod, max_steps=2000000, max_paths=64, timeout_ms=2000)
    e.narrow = p.T == 'double'      # a narrowing to float inside code instantiated for double is not the identity
    reals = Reals(e)
    st = S.State()
    nres = len(p.exprs)
    ino = e.new_obj(st, max(1, p.nin) * sz, 'in', ro=True)
    def lazy(off, n, sz=sz):
        if off % sz: return None
        v = X.var('x%d' % (off // sz))
        if n is None: return (sz, v)
        return v if n == sz else None
    st.mem[ino].lazy = lazy
    out = e.new_obj(st, 64 * sz * nres, 'out'); meta = e.new_obj(st, 64 * 8 * nres, 'meta')
    e.call_state(fname, [S.Ptr(ino, 0), S.Ptr(out, 0), S.Ptr(meta, 0)], st)
    fin = e.run(st)
    if e.errors:
        return e, None, reals
    paths = []
    for s in fin:
        res = []
        for k in range(nres):
            n = e.load(s, S.Ptr(meta, 512 * k), I.INT(64))
            if not isinstance(n, int) or n > 63: raise I.Unsupported('result size %r' % (n,))
            els = [e.load(s, S.Ptr(meta, 512 * k + 8 + 8 * i), I.INT(64)) for i in range(n)]
            vals = [e.load(s, S.Ptr(out, (64 * k + i) * sz), ty) for i in range(n)]
            res.append((els, vals))
        paths.append((s, res))
    if not paths: raise I.Unsupported('no path')
    return e, paths, reals

def numeric_env(R, base):
    """numeric values for all atoms of R given values of the x atoms"""
    env = {}
    fnof = {}
    for fn, lst in R.fn.items():
        for args, at in lst: fnof[at] = (fn, args)
    import builtins
    def val(i, depth=0):
        if i in env: return env[i]
        n = R.names[i]
        if n in base: v = base[n]
        elif n == 'PI': v = math.pi
        elif n == 'E': v = math.e
        elif i in fnof:
            fn, args = fnof[i]
            vs = []
            for a in args:
                for q in atoms_of(a): val(q, depth + 1)
                vs.append(float(a.evalf(env)))
            f = {'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'atan2': math.atan2, 'pow': math.pow, 'fabs': abs, 'rnd32': lambda v: ctypes.c_float(v).value}[fn]
            v = f(*vs)
        else: raise KeyError(n)
        env[i] = v
        return v
    for i in range(len(R.names)):
        val(i)
    return env

def atoms_of(rf):
    s = set()
    for m in rf.num:
        for a, _ in m: s.add(a)
    for f in rf.den:
        for m in rf.R.factors[f]:
            for a, _ in m: s.add(a)
    return s

def spec_coeffs(p, R, xs):
    out = []
    for mv in p.spec(R, xs):
        out.append(to_null(mv) if p.alg.null else mv)
    return out

def denotable(p):
    """False when the denotation divides by an identically zero expression"""
    try:
        R = Ring(); spec_coeffs(p, R, [RF.atom(R, 'x%d' % i) for i in range(p.nin)])
    except ZeroDivisionError: return False
    except (poly.TooBig, ga.Undefined): pass
    return True

class Deadline(Exception): pass
def _alarm(sig, frm): raise Deadline('time limit')

def timed(f, *a, default=None, limit=20):
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(limit)
    try: return f(*a)
    except Deadline: return default
    finally: signal.alarm(0)

def verify_prog(mod, fname, p, deadline=45):
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(deadline)
    try: return verify_prog1(mod, fname, p)
    except Deadline as ex:
        r = Result(p.pid, 'undecided', desc=p.describe()); r.msg = 'Deadline: %s' % ex
        return r
    finally: signal.alarm(0)

def under_path(e, reals, st, gw):
    import z3
    g, w = gw
    try:
        def at(i):
            n = w.R.names[i]
            if not re.fullmatch(r'x\d+', n): raise I.Unsupported(n)
            return z3.Real(n)
        def pe(q):
            s = z3.RealVal(0)
            for m, c in q.items():
                t = z3.RealVal(str(c))
                for a, k in m:
                    for _ in range(k): t = t * at(a)
                s = s + t
            return s
        num = pe(w.num); den = z3.RealVal(1)
        for f, k in w.den.items():
            for _ in range(k): den = den * pe(w.R.factors[f])
        gz = reals.real(g) if g is not None else z3.RealVal(0)
        r, _ = e.check(st.pc + [den != 0, gz * den != num])
        return r == z3.unsat
    except (I.Unsupported, z3.Z3Exception): return False

def check_path(p, R, res, spec, r, bad):
    for k, ((els, vals), mv) in enumerate(zip(res, spec)):
        r.obls += 1
        if sorted(set(els)) != els or any(x >> p.alg.dim for x in els):
            bad.append((k, 'elements', els, None)); continue
        r.discharged += 1
        got = {}; got_f = dict(zip(els, vals))
        for x, v in zip(els, vals):
            if isinstance(v, S.Undef):
                bad.append((k, x, 'result component is never written', None)); r.obls += 1
                continue
            got[x] = to_rf(R, v)
        for x in sorted(set(got) | set(mv.d)):
            r.obls += 1
            g = got.get(x)
            if g is None:
                if x in els: continue
                g = RF.const(R, 0)
            w = mv.coef(x)
            if not g.eq(w):
                bad.append((k, x, 'coefficient', (got_f.get(x), w)))
            elif p.structure and x in got and w.is_zero():
                bad.append((k, x, 'component present although identically zero', None))
            else:
                r.discharged += 1

def verify_prog1(mod, fname, p):
    t0 = time.time()
    X.reset()
    r = Result(p.pid, 'proved', desc=p.describe())
    try:
        e, paths, reals = symexec(mod, fname, p)
        r.fns = len(e.functions_executed); r.solver = e.solver_time
        if paths is None:
            k = e.errors[0]
            r.status = 'refuted'; r.msg = 'memory: %s' % k[2]; r.obls = 1
            r.cex = 'any'; r.t = time.time() - t0
            r.hints = reals.points(k[0], p.nin) if k[0].pc else []
            return r
        R = Ring()
        xs = [RF.atom(R, 'x%d' % i) for i in range(p.nin)]
        spec = spec_coeffs(p, R, xs)
        r.paths = len(paths); r.hints = []
        bad = []
        for st, res in paths:
            nb = len(bad)
            check_path(p, R, res, spec, r, bad)
            if len(paths) > 1 and len(bad) > nb:
                # equal only under the condition of the path?
                left = []
                for b in bad[nb:]:
                    if b[2] == 'coefficient' and under_path(e, reals, st, b[3]): r.discharged += 1
                    else: left.append(b)
                bad[nb:] = left
                if left: r.hints += reals.points(st, p.nin)
        if bad:
            r.status = 'refuted'; r.detail = [(k, x, why) for k, x, why, _ in bad]
            r.msg = '; '.join('result %d element %s: %s' % (k, x, why) for k, x, why, _ in bad[:4])
            r.cex = 'replay'
    except (I.Unsupported, S.Bound, poly.TooBig, RecursionError, ZeroDivisionError) as ex:
        r.status = 'undecided'; r.why = 'unsupported'; r.msg = '%s: %s' % (type(ex).__name__, ex)
    except ga.Undefined as ex:
        r.status = 'undecided'; r.msg = 'spec undefined: %s' % ex
    r.t = time.time() - t0
    return r

# ------------------------------------------------------------------ replay on the real code
_CT = {'double': ctypes.c_double, 'float': ctypes.c_float}

def run_so_child(so, fname, T, inputs, nres):
    """executed in a child process: crash-isolated"""
    lib = ctypes.CDLL(so)
    f = getattr(lib, fname); f.restype = None
    ct = _CT[T]
    n = max(1, len(inputs))
    a = (ct * n)(*inputs)
    out = (ct * (64 * nres))(*([float('nan')] * (64 * nres)))
    meta = (ctypes.c_long * (64 * nres))()
    f(a, out, meta)
    r = []
    for k in range(nres):
        m = meta[64 * k]
        if m < 0 or m > 63: m = 0
        r.append(([meta[64 * k + 1 + i] for i in range(m)], [out[64 * k + i] for i in range(m)]))
    return r

CHILD = r'''
import sys, json; sys.path.insert(0, %r)
import classa
j = json.load(sys.stdin)
print(json.dumps([classa.run_so_child(j['so'], j['f'], j['T'], x, j['n']) for x in j['pts']]))
'''

def run_so(so, fname, p, pts):
    q = subprocess.run([sys.executable, '-c', CHILD % os.path.dirname(os.path.abspath(__file__))],
                       input=json.dumps({'so': so, 'f': fname, 'T': p.T, 'n': len(p.exprs), 'pts': pts}),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    if q.returncode != 0: return None, 'exit %d %s' % (q.returncode, q.stderr[-300:])
    return json.loads(q.stdout), ''

def concrete_compare(p, so, fname, npts=12, seed=1, hints=()):
    """(n_points_checked, failure or None): the executable form of the obligation"""
    rng = random.Random('%s|%s' % (seed, p.pid))
    R = Ring()
    xs = [RF.atom(R, 'x%d' % i) for i in range(p.nin)]
    spec = spec_coeffs(p, R, xs)
    pts = []; exp = []
    tries = 0
    npts += len(hints); hints = list(hints)
    while len(pts) < npts and tries < npts * 20:
        tries += 1
        if hints:
            h = hints.pop(); pt = [float(h.get('x%d' % i, 0.75 + i / 8)) for i in range(p.nin)]
            if p.T == 'float': pt = [ctypes.c_float(v).value for v in pt]
        elif tries % 3 == 0: pt = [float(rng.choice([-3, -2, -1, -0.5, 0.5, 1, 2, 3])) for _ in range(p.nin)]
        elif tries % 3 == 1: pt = [rng.randint(-512, 512) / 128.0 for _ in range(p.nin)]
        else:
            pt = [rng.randint(1, 4096) / 777.0 for _ in range(p.nin)]      # not representable as float
            if p.T == 'float': pt = [ctypes.c_float(v).value for v in pt]
        base = {'x%d' % i: Fraction(v) for i, v in enumerate(pt)}
        if getattr(p, 'assume', None) and not p.assume(pt): continue
        try:
            env = numeric_env(R, base)
            ex = []
            for mv in spec:
                d = {}
                for x, v in mv.d.items():
                    scale = sum(abs(float(RF(R, {m: c}, v.den).evalf(env))) for m, c in v.num.items())
                    d[x] = (float(v.evalf(env)), scale)
                ex.append(d)
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        pts.append(pt); exp.append(ex)
    if not pts: return 0, None
    got, err = run_so(so, fname, p, pts)
    if got is None:
        return 1, {'input': pts[0], 'crash': err}
    tol = 1e-9 if p.T == 'double' else 2e-4
    for pt, ex, g in zip(pts, exp, got):
        for k in range(len(p.exprs)):
            els, vals = g[k]
            d = ex[k]
            if sorted(set(els)) != els:
                return len(pts), {'input': pt, 'result': k, 'elements': els, 'why': 'elements not strictly increasing'}
            for x in set(els) | set(d):
                gv = vals[els.index(x)] if x in els else 0.0
                wv, sc = d.get(x, (0.0, 0.0))
                if gv != gv or abs(gv - wv) > tol * (1 + sc + abs(wv)):
                    return len(pts), {'input': pt, 'result': k, 'element': x, 'expected': wv, 'got': gv}
                if p.structure and x in els and x not in d:
                    return len(pts), {'input': pt, 'result': k, 'element': x, 'why': 'identically zero component is materialised', 'got': gv}
    return len(pts), None

# ------------------------------------------------------------------ batch driver
_PROGS = []
def do_batch(args):
    """compile one batch and verify each program; returns [Result]"""
    work0, name, idx, seed, concrete = args
    progs = [_PROGS[i] for i in idx]
    work = os.path.join(work0, name); os.makedirs(work, exist_ok=True)
    sys.setrecursionlimit(20000)
    out = []
    keep = []
    for p in progs:
        if timed(denotable, p, default=True): keep.append(p)
        else: out.append(Result(p.pid, 'skipped', msg='the program divides by zero identically', desc=p.describe()))
    progs = keep
    if not progs: return out
    t0 = time.time()
    src = PRE + '\n'.join(p.source('w%d' % i) for i, p in enumerate(progs))
    ll, err, rc = compile_ir(src, work, name, timeout=60 + 10 * len(progs))
    ct = time.time() - t0
    mods = []
    if ll is not None:
        m = I.parse_module(open(ll).read())
        mods = [(m, 'w%d' % i, p) for i, p in enumerate(progs)]
    else:
        for i, p in enumerate(progs):
            t1 = time.time()
            ll, err, rc = compile_ir(PRE + p.source('w0'), work, '%s_%d' % (name, i), timeout=60)
            if ll is None:
                r = Result(p.pid, 'nocompile', desc=p.describe())
                es = [l for l in err.splitlines() if ' error: ' in l]
                r.msg = es[0][:400] if es else err[-300:]
                r.obls = 1
                if rc == -9: r.status = 'undecided'; r.msg = 'compiler timeout'
                elif not denotable(p): r.status = 'skipped'; r.msg = 'the program divides by zero identically'
                else:
                    # only the verifier's front end rejects it?  then fall back on the real code built with g++
                    so, e2 = compile_so(PRE + p.source('w0'), work, '%s_g%d' % (name, i), cc=GXX, timeout=120)
                    if so is not None:
                        r.status = 'undecided'; r.why = 'unsupported'; r.msg = 'verifier front end rejects the program: ' + r.msg
                        try: r.points, fail = concrete_compare(p, so, 'w0', seed=seed)
                        except (ga.Undefined, poly.TooBig, ZeroDivisionError): fail = None
                        if fail is not None: r.status = 'refuted'; r.cex = fail
                out.append(r)
            else:
                mods.append((I.parse_module(open(ll).read()), 'w0', p))
    for m, f, p in mods:
        r = verify_prog(m, f, p)
        r.ct = ct / max(1, len(progs))
        if r.status in ('refuted', 'undecided') or concrete:
            so, e = compile_so(PRE + p.source('w0'), work, '%s_%s' % (name, re.sub(r'\W', '_', p.pid)))
            if so is None:
                if r.status == 'refuted': r.msg += ' [replay build failed]'; r.cex = None
            else:
                try:
                    n, fail = concrete_compare(p, so, 'w0', seed=seed, hints=getattr(r, 'hints', ()))
                except ga.Undefined: n, fail = 0, None
                except (poly.TooBig, ZeroDivisionError): n, fail = 0, None
                r.points = n
                if fail is not None:
                    r.cex = fail
                    if r.status != 'refuted':
                        r.msg += ' [bounded stand-in found a failing input]'
                    r.status = 'refuted'
                else:
                    if r.status == 'refuted':
                        if r.msg.startswith('memory'): r.cex = None
                        else:
                            r.status = 'unconfirmed'; r.msg += ' [not reproduced on %d concrete inputs of the real code]' % n
        out.append(r)
    shutil.rmtree(work, ignore_errors=True)
    return out

def run_progs(progs, seed=1, batch=8, jobs=8, concrete=False):
    """verify all; returns ([Result], wall)"""
    t0 = time.time()
    ids = [p.pid for p in progs]
    assert len(set(ids)) == len(ids), 'duplicate program ids %s' % [i for i in ids if ids.count(i) > 1][:3]
    work = tempfile.mkdtemp(prefix='galv_')
    try:
        # round-robin so that expensive neighbours spread over batches
        nb = max(1, (len(progs) + batch - 1) // batch)
        if len(progs) >= jobs: nb = max(nb, jobs)
        global _PROGS
        _PROGS = progs   # inherited by the forked workers
        bs = [list(range(len(progs)))[i::nb] for i in range(nb)]
        jobsl = [(work, 'b%d' % i, b, seed, concrete) for i, b in enumerate(bs) if b]
        res = []
        import multiprocessing as mp
        with mp.get_context('fork').Pool(jobs) as pool:
            for rs in pool.imap_unordered(do_batch, jobsl):
                res.extend(rs)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    order = {p: i for i, p in enumerate(ids)}
    res.sort(key=lambda r: order[r.pid])
    return res, time.time() - t0
