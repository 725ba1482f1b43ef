"""Contracts on library functions.

A Fn is a driver around one real function (or a short composition of real functions): machine words in, machine words out.
Its contract is pre(x) / post(x, o) over z3 terms.  The driver is compiled from /repo's current headers to LLVM IR with
inlining off, so that callees appear as calls: a callee with a contract of its own is replaced by that contract, every other
callee is executed.  Discharged for all inputs: every path's postcondition, absence of signed overflow, division by zero,
oversized shifts and out-of-bounds accesses.  A refutation is replayed on the real code (g++ shared object)."""
import os, sys, re, time, random, json, ctypes, subprocess, tempfile, shutil, signal
import z3
from fractions import Fraction
import irparse as I, symex as S, fexpr as X, classa, gf2, loops
from classa import compile_ir, compile_so, REPO, CLANG

IRB = ['-std=c++17', '-I' + REPO + '/public', '-O1', '-fno-inline', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off',
       '-fno-exceptions', '-fno-math-errno', '-fno-discard-value-names', '-w', '-S', '-emit-llvm']
KIND = {'i32': ('int32_t', 4, 32, True), 'u32': ('uint32_t', 4, 32, False), 'i64': ('int64_t', 8, 64, True), 'u64': ('uint64_t', 8, 64, False),
        'u8': ('uint8_t', 1, 8, False)}

class Fn:
    """contract on a driver.
    ins/outs: list of names; kind: word type; mode 'int' (mathematical integers, overflow is an obligation) or 'bv' (machine words)
    pre(x)->[z3]; post(x,o)->[(label, z3)]; uses: names of callee contracts to apply (by IR-name regex)"""
    def __init__(self, name, ins, outs, code, pre=None, post=None, kind='i32', mode='int', on=None, incl=('numeric',), callees=(), head='', sample=None,
                 flags=None, api='internal', engine=None, timeout=20000, paths=4000, axioms=None, alarm_unconfirmed=False, exact_div=None,
                 cuts=(), domain=None, pypost=None, group=None):
        self.name = name; self.ins = ins if isinstance(ins, list) else ins.split(); self.outs = outs if isinstance(outs, list) else outs.split()
        self.code = code; self.pre = pre or (lambda x: []); self.post = post; self.kind = kind; self.mode = mode
        self.on = on or name; self.incl = incl; self.callees = callees; self.head = head; self.sample = sample
        self.flags = flags; self.api = api; self.engine = engine or {}; self.timeout = timeout; self.paths = paths; self.axioms = axioms; self.alarm_unconfirmed = alarm_unconfirmed; self.exact_div = exact_div
        self.cuts = cuts; self.domain = domain; self.pypost = pypost; self.group = group
    def source(self, fname='f', body=False):
        ct = KIND[self.kind][0]
        L = [] if body else ['#include <gal/%s.hpp>' % h for h in self.incl] + ['#include <cstdint>', self.head]
        L += ['extern "C" void %s(const %s* in, %s* out)' % (fname, ct, ct), '{']
        L += ['    const %s %s = in[%d];' % (ct, n, i) for i, n in enumerate(self.ins)]
        L += ['    ' + self.code, '}']
        return '\n'.join(L) + '\n'

class V(dict):
    __getattr__ = dict.__getitem__

def symvars(fn, suffix=''):
    ct, sz, w, sg = KIND[fn.kind]
    if fn.mode == 'int': return V((n, z3.Int(n + suffix)) for n in fn.ins)
    return V((n, z3.BitVec(n + suffix, w)) for n in fn.ins)

def rng_pre(fn, xs):
    ct, sz, w, sg = KIND[fn.kind]
    if fn.mode != 'int': return []
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    return [z3.And(x >= lo, x <= hi) for x in xs.values()]

class BRes:
    def __init__(self, name): self.name = name; self.status = 'proved'; self.obls = 0; self.discharged = 0; self.msg = ''; self.cex = None; self.solver = 0.0; self.points = 0; self.by = {}; self.used = {}; self.fns = 0; self.t = 0; self.paths = 0

def outvals(fn, e, s, out):
    ct, sz, w, sg = KIND[fn.kind]
    o = V()
    for i, n in enumerate(fn.outs):
        v = e.load(s, S.Ptr(out, i * sz), I.INT(w))
        if isinstance(v, S.Undef): raise I.Unsupported('output %s undefined' % n)
        if fn.mode == 'int': v = e.toint(v if not isinstance(v, z3.BitVecRef) else bv2i(v), w)
        else: v = S.bv(v, w)
        o[n] = v
    return o
def splits(fn, e, s, o):
    """case split over the values of the outputs named in fn.split (structure the postcondition needs concretely)"""
    todo = [(s, o, list(getattr(fn, 'split', ())))]
    n = 0
    while todo:
        s, o, names = todo.pop()
        while names:
            v = o[names[0]]
            if isinstance(v, int): v = z3.IntVal(v)
            v = z3.simplify(v)
            if z3.is_int_value(v): names = names[1:]; continue
            pc = list(s.pc); vals = []
            while len(vals) < 12:
                r, sol = e.check(pc + [v != k for k in vals])
                if r == z3.unsat: break
                if r != z3.sat: raise I.Unsupported('case split over %s' % names[0])
                vals.append(sol.model().eval(v, model_completion=True).as_long())
            else: raise I.Unsupported('too many cases of %s' % names[0])
            n += len(vals)
            if n > 400: raise I.Unsupported('too many cases')
            for k in vals[1:]:
                s2 = s.fork() if hasattr(s, 'fork') else s.copy(); s2.pc.append(v == k); o2 = V(o); o2[names[0]] = z3.IntVal(k); todo.append((s2, o2, names[1:]))
            if not vals: names = None; break
            s.pc.append(v == vals[0]); o = V(o); o[names[0]] = z3.IntVal(vals[0]); names = names[1:]
        if names is None: continue
        yield s, o
def bv2i(v):
    v = z3.simplify(v)
    if z3.is_bv_value(v): return v.as_signed_long() & ((1 << v.size()) - 1)
    # zero/one extended booleans
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        a, b = v.arg(1), v.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            return z3.If(v.arg(0), z3.IntVal(a.as_signed_long()), z3.IntVal(b.as_signed_long()))
    return z3.BV2Int(v, True)

class RealBridge:
    """integers converted to floating point: real-valued terms tied to z3 integers"""
    def __init__(self, e):
        self.t = {}; self.e = e; self.memo = {}
        e.itof = self.itof; e.fcmp_handler = self.fcmp
    def itof(self, st, x, t, op):
        n = 'itof%d' % len(self.t)
        if isinstance(x, z3.BitVecRef): x = z3.BV2Int(x, op == 'sitofp')
        elif isinstance(x, z3.BoolRef): x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
        for k, v in self.t.items():
            if v.eq(z3.ToReal(x)): return X.var(k)
        self.t[n] = z3.ToReal(x)
        return X.var(n)
    def real(self, f):
        r = self.memo.get(f.id)
        if r is None:
            a = f.a
            if f.k == 'c': r = z3.RealVal(str(a[0]))
            elif f.k == 'v':
                if a[0] not in self.t: raise I.Unsupported('real atom %s' % a[0])
                r = self.t[a[0]]
            elif f.k == 'add': r = self.real(a[0]) + self.real(a[1])
            elif f.k == 'sub': r = self.real(a[0]) - self.real(a[1])
            elif f.k == 'mul': r = self.real(a[0]) * self.real(a[1])
            elif f.k == 'div': r = self.real(a[0]) / self.real(a[1])
            elif f.k == 'neg': r = -self.real(a[0])
            elif f.k == 'call' and a[0] == 'fabs':
                q = self.real(a[1]); r = z3.If(q < 0, -q, q)
            else: raise I.Unsupported('real of ' + f.k)
            self.memo[f.id] = r
        return r
    def fcmp(self, st, pred, x, y):
        p, q = self.real(x), self.real(y)
        k = pred[1:]
        if k == 'rd': return 1
        if k == 'no': return 0
        return {'eq': lambda: p == q, 'ne': lambda: p != q, 'lt': lambda: p < q, 'le': lambda: p <= q, 'gt': lambda: p > q, 'ge': lambda: p >= q}[k]()

_DEAD = [0]
def _alarm(sig, frm): raise classa.Deadline('time limit')

def prove(e, r, label, pc, goal, by='z3'):
    """discharge pc => goal"""
    r.obls += 1
    g = z3.simplify(goal) if isinstance(goal, z3.ExprRef) else z3.BoolVal(bool(goal))
    if z3.is_true(g):
        r.discharged += 1; r.by['simplifier'] = r.by.get('simplifier', 0) + 1; return True, None
    if isinstance(goal, z3.ExprRef) and goal.decl().kind() == z3.Z3_OP_EQ and isinstance(goal.arg(0), z3.BitVecRef):
        if gf2.decide_eq(goal.arg(0), goal.arg(1)):
            r.discharged += 1; r.by['GF(2)-affine normal form'] = r.by.get('GF(2)-affine normal form', 0) + 1; return True, None
    res, s = e.check(list(pc) + [z3.Not(goal)])
    if res == z3.unsat:
        r.discharged += 1; r.by[by] = r.by.get(by, 0) + 1; return True, None
    if res == z3.sat: return False, s.model()
    return None, None

def verify_fn(fn, mod, limit=200):
    r = BRes(fn.name); t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(limit)
    try:
        memo = {}
        for k in range(12):
            try: verify_fn1(fn, mod, r, memo); break
            except loops.Restart: pass
        else: raise I.Unsupported('loop abstraction did not converge')
    except classa.Deadline: r.status = 'undecided'; r.msg = 'time limit'
    except (I.Unsupported, S.Bound, RecursionError, z3.Z3Exception) as ex:
        if os.environ.get("TB"): import traceback; traceback.print_exc()
        r.status = 'undecided'; r.msg = '%s: %s' % (type(ex).__name__, ex)
        if not isinstance(ex, z3.Z3Exception): r.why = 'unsupported'
    finally: signal.alarm(0)
    r.t = time.time() - t0
    return r

def verify_fn1(fn, mod, r, memo=None):
    X.reset()
    r.obls = r.discharged = 0; r.by = {}
    ct, sz, w, sg = KIND[fn.kind]
    con = {}
    for pat, h in fn.callees:
        for n in list(mod.funcs) + list(mod.decls):
            if re.search(pat, n): con[n] = h
    e = S.Engine(mod, contracts=con, timeout_ms=fn.timeout, max_paths=fn.paths, check_nsw=True, **fn.engine)
    if getattr(fn, 'tactic', None): e.tactic = z3.Then(*fn.tactic)
    RealBridge(e)
    e.padding = fn.mode == 'bv' or getattr(fn, 'padding', False)
    if fn.exact_div: e.exact_div = fn.exact_div
    st = S.State()
    xs = symvars(fn)
    e.base = rng_pre(fn, xs) + list(fn.pre(xs))
    if fn.axioms: e.base += list(fn.axioms(xs))
    res, _ = e.check([])
    if res == z3.unsat: raise I.Unsupported('precondition is unsatisfiable (vacuous contract)')
    ino = e.new_obj(st, max(1, len(fn.ins)) * sz, 'in', ro=True)
    for i, n in enumerate(fn.ins): st.mem[ino].cells[i * sz] = (sz, xs[n])
    out = e.new_obj(st, max(1, len(fn.outs)) * sz, 'out')
    cutter = None
    if fn.cuts:
        cutter = loops.Cutter(e, fn.cuts, xs)
        if memo is not None:
            cutter.cells = memo.setdefault('cells', {}); cutter.drop = memo.setdefault('drop', set())
        e.loop_handler = cutter
    e.call_state(getattr(fn, 'fname', 'f'), [S.Ptr(ino, 0), S.Ptr(out, 0)], st)
    fin = e.run(st)
    r.paths = len(fin)
    bad = []; unk = []
    seen = set()
    def obl(label, pc, goal):
        ok, m = prove(e, r, label, pc, goal)
        if ok is False: bad.append((label, m))
        elif ok is None: unk.append(label)
    for s, kind, msg in e.errors:
        r.obls += 1
        res, sol = e.check(s.pc)
        if res == z3.sat: bad.append(('%s: %s' % (kind, msg), sol.model()))
        elif res == z3.unsat: r.discharged += 1
        else: unk.append(msg)
    for s in fin:
        for label, pc, goal in s.obls:
            key = (label, len(pc), goal.hash() if isinstance(goal, z3.ExprRef) else goal)
            if key in seen: continue
            seen.add(key)
            obl(label, pc, goal)
        for s, o in splits(fn, e, s, outvals(fn, e, s, out)):
          for label, goal in fn.post(xs, o):
            if hasattr(goal, 'e'):          # a one-word result is an injective function of the one-word input
                ok = gf2.injective(goal.e); r.obls += 1
                if ok: r.discharged += 1; r.by['GF(2) rank'] = r.by.get('GF(2) rank', 0) + 1
                elif ok is None: unk.append(label)
                else: bad.append((label, None))
                continue
            obl(label, s.pc, goal)
    if cutter:
        for label, pc, goal in cutter.side: obl(label, pc, goal)
        r.cuts = sum(cutter.cutted.values())
    for n, k in getattr(e, 'table_lemmas', {}).items():
        r.obls += k; r.discharged += k; r.by['table lemma (all entries)'] = r.by.get('table lemma (all entries)', 0) + k
    if not fin and not e.errors: raise I.Unsupported('no path')
    r.solver = e.solver_time; r.used = dict(e.contracts_used); r.fns = len(e.functions_executed)
    if bad:
        r.status = 'refuted'; r.msg = '; '.join(sorted(set(b[0] for b in bad)))[:400]
        r.cands = []
        # an obligation refuted only by a model that chooses the values of an uninterpreted product
        r.abstract = all(m is not None and any(d.name() == 'times' and d.arity() == 2 for d in m.decls()) for _, m in bad)
        for label, m in bad[:12]:
            if m is None: continue
            pt = []
            for n in fn.ins:
                v = m.eval(xs[n], model_completion=True)
                pt.append(v.as_long() if not isinstance(v, z3.BitVecNumRef) else (v.as_signed_long() if sg else v.as_long()))
            r.cands.append((label, pt))
    elif unk:
        r.status = 'undecided'; r.msg = 'solver gave no answer: ' + '; '.join(sorted(set(unk)))[:300]

# ---------------------------------------------------------------- replay
CHILD = r'''
import sys, json, ctypes
j = json.load(sys.stdin)
lib = ctypes.CDLL(j['so']); f = getattr(lib, j['f']); f.restype = None
ct = {'i32': ctypes.c_int32, 'u32': ctypes.c_uint32, 'i64': ctypes.c_int64, 'u64': ctypes.c_uint64, 'u8': ctypes.c_uint8}[j['kind']]
for p in j['pts']:
    a = (ct * max(1, len(p)))(*p); o = (ct * max(1, j['n']))()
    f(a, o)
    print(json.dumps(list(o)[:j['n']]), flush=True)
'''
def run_pts(so, fn, pts, timeout=60):
    """list of outputs; None for the point at which the process died"""
    out = []
    while len(out) < len(pts):
        try:
            q = subprocess.run([sys.executable, '-c', CHILD], input=json.dumps({'so': so, 'f': getattr(fn, 'fname', 'f'), 'kind': fn.kind, 'n': len(fn.outs), 'pts': pts[len(out):]}),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
            lines = q.stdout.splitlines()
        except subprocess.TimeoutExpired as ex:
            lines = (ex.stdout or b'').decode().splitlines() if not isinstance(ex.stdout, str) else ex.stdout.splitlines()
        out += [json.loads(l) for l in lines]
        if len(out) < len(pts):
            out.append(None)
            if sum(x is None for x in out) > 3: out += ['skip'] * (len(pts) - len(out))
    return out

def lift(fn, vals, names):
    ct, sz, w, sg = KIND[fn.kind]
    if fn.mode == 'int': return V((n, z3.IntVal(v)) for n, v in zip(names, vals))
    return V((n, z3.BitVecVal(v & ((1 << w) - 1), w)) for n, v in zip(names, vals))

def truth(g):
    if not isinstance(g, z3.ExprRef): return bool(g)
    g = z3.simplify(g)
    if z3.is_true(g): return True
    if z3.is_false(g): return False
    s = z3.Solver(); s.set('timeout', 5000); s.add(z3.Not(g))
    r = s.check()
    return True if r == z3.unsat else False if r == z3.sat else None

def pre_holds(fn, pt):
    if getattr(fn, 'pypre', None): return fn.pypre(pt)
    x = lift(fn, pt, fn.ins)
    return all(truth(c) for c in rng_pre(fn, x) + list(fn.pre(x)))

def replay(fn, so, pts, domain=False):
    if not domain: pts = [p for p in pts if pre_holds(fn, p)]
    if not pts: return 0, None
    outs = run_pts(so, fn, pts)
    n = 0
    for p, o in zip(pts, outs):
        if o == 'skip': continue
        if o is None: return n, {'input': dict(zip(fn.ins, p)), 'crash': 'the process died or hung'}
        n += 1
        if fn.pypost is not None:
            why = fn.pypost(p, o)
            if why: return n, {'input': dict(zip(fn.ins, p)), 'output': dict(zip(fn.outs, o)), 'violated': why}
            continue
        x = lift(fn, p, fn.ins); ov = lift(fn, o, fn.outs)
        for label, g in fn.post(x, ov):
            if hasattr(g, 'e'): continue
            if truth(g) is False: return n, {'input': dict(zip(fn.ins, p)), 'output': dict(zip(fn.outs, o)), 'violated': label}
    return n, None

def samples(fn, seed, n):
    rg = random.Random('%s|%s' % (seed, fn.name))
    ct, sz, w, sg = KIND[fn.kind]
    out = []
    if fn.sample:
        for _ in range(n): out.append(list(fn.sample(rg)))
        return out
    edge = [0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 31, 32, 255, 256, 1023, 1024, 65535, 1 << (w - 2), (1 << (w - 1)) - 1]
    if sg: edge += [-x for x in edge]
    else: edge += [1 << (w - 1), (1 << w) - 1, (1 << w) - 2]
    edge = [x for x in edge if (-(1 << (w - 1)) if sg else 0) <= x <= ((1 << (w - 1)) - 1 if sg else (1 << w) - 1)]
    for i in range(n):
        k = i % 3
        if k == 0: out.append([rg.choice(edge) for _ in fn.ins])
        elif k == 1: out.append([rg.randint(-12 if sg else 0, 12) for _ in fn.ins])
        else: out.append([rg.getrandbits(rg.randint(1, w)) & ((1 << (w - 1)) - 1 if sg else (1 << w) - 1) for _ in fn.ins])
    return out

_FNS = []
def tu(fns):
    """one translation unit for a group of drivers"""
    incl = []; heads = []
    for f in fns:
        for h in f.incl:
            if h not in incl: incl.append(h)
        if f.head not in heads: heads.append(f.head)
    return '\n'.join(['#include <gal/%s.hpp>' % h for h in incl] + ['#include <cstdint>'] + heads + [f.source(f.fname, body=True) for f in fns]) + '\n'

def do_group(a):
    work0, idx, seed, npts = a
    fns = [_FNS[i] for i in idx]
    sys.setrecursionlimit(20000)
    work = os.path.join(work0, 'f%d' % idx[0]); os.makedirs(work, exist_ok=True)
    for k, f in enumerate(fns): f.fname = 'f' if len(fns) == 1 else 'f%d' % k
    src = tu(fns)
    ll, err, rc = compile_ir(src, work, 'd', flags=(fns[0].flags or IRB), timeout=300)
    if ll is None and len(fns) > 1:
        # one driver does not compile: decide each on its own
        out = []
        for i in idx: out += do_group((work0, [i], seed, npts))
        return out
    mod = I.parse_module(open(ll).read()) if ll is not None else None
    so = None; out = []
    for i, fn in zip(idx, fns):
        if mod is None:
            r = BRes(fn.name); r.obls = 1
            es = [l for l in err.splitlines() if ' error: ' in l]
            r.msg = (es[0] if es else err[-300:])[:400]
            so, e2 = compile_so(src, work, 'g', cc=classa.GXX, timeout=200)
            if so is None: r.status = 'nocompile'
            else:
                r.status = 'undecided'; r.points, fail = replay(fn, so, samples(fn, seed, npts))
                if fail: r.status = 'refuted'; r.cex = fail
            out.append((i, r)); continue
        r = verify_fn(fn, mod)
        if r.status != 'proved':
            if so is None: so, e2 = compile_so(src, work, 'g', timeout=300)
            if so is None: r.msg += ' [replay build failed]'
            else:
                pts = [p for _, p in getattr(r, 'cands', [])]
                n, fail = replay(fn, so, pts) if pts else (0, None)
                if fail is None and fn.domain is not None:
                    # the contract's whole domain is small: complete evaluation of the real code
                    dom = fn.domain()
                    n, fail = replay(fn, so, dom, domain=True)
                    if fail is None and n == len(dom):
                        r.status = 'proved'; r.obls = max(1, r.obls); r.discharged = r.obls; r.by = {'complete evaluation of the (finite) domain': r.obls}
                        r.msg, r.why = '', r.msg
                elif fail is None:
                    n2, fail = replay(fn, so, samples(fn, seed, npts)); n += n2
                r.points = n
                if fail is not None: r.status = 'refuted'; r.cex = fail
                elif r.status == 'refuted' and getattr(r, 'abstract', False):
                    r.status = 'undecided'; r.msg += ' [the model interprets a product abstractly; %d concrete inputs of the real code satisfy the contract]' % n
                elif r.status == 'refuted':
                    r.msg += ' [model %s not reproduced on %d concrete inputs of the real code]' % (getattr(r, 'cands', '')[:1], n)
        out.append((i, r))
    shutil.rmtree(work, ignore_errors=True)
    return out

def run_fns(fns, seed=1, jobs=8, npts=300):
    global _FNS
    _FNS = fns
    work = tempfile.mkdtemp(prefix='galb_')
    t0 = time.time()
    res = {}
    try:
        import multiprocessing as mp
        with mp.get_context('fork').Pool(jobs) as pool:
            groups = {}
            for i, f in enumerate(fns): groups.setdefault(f.group if f.group is not None else ('', i), []).append(i)
            jobl = [(work, g, seed, npts) for g in groups.values()]
            for rs in pool.imap_unordered(do_group, jobl):
                for i, r in rs: res[i] = r
    finally: shutil.rmtree(work, ignore_errors=True)
    return [res[i] for i in range(len(fns))], time.time() - t0
