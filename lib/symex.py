"""Symbolic executor / verification-condition generator over LLVM IR.

Integers are machine words (Python int when concrete, z3 BitVec when symbolic, z3 Bool for i1) or, when a
contract introduces them as such, mathematical integers (z3 Int) with no-overflow side obligations.
Floating point values are real expressions (fexpr.F).  Pointers are (object, offset).
Every load/store is checked to be inside a live object; every callee is either executed or replaced by its
contract.  Loops are either executed until their exit condition is decided (complete unrolling) or cut at
an invariant supplied by a contract."""
import z3
from fractions import Fraction
import irparse as I
from irparse import Unsupported
import fexpr as X

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(self, o, off): self.o = o; self.off = off
    def __repr__(self): return 'ptr(%s+%s)' % (self.o, self.off)
NULL = Ptr(None, 0)

class FnPtr:
    def __init__(self, name): self.name = name

class Pack:
    """a 64-bit word made of two 32-bit halves (a by-value rat)"""
    __slots__ = ('lo', 'hi')
    def __init__(self, lo, hi): self.lo = lo; self.hi = hi
    def __repr__(self): return 'pack(%s,%s)' % (self.lo, self.hi)

class PackHi:   # hi << 32
    __slots__ = ('hi',)
    def __init__(self, hi): self.hi = hi

class MemError(Exception):
    pass
class Bound(Exception):
    pass
class UB(Exception):
    pass

class Obj:
    __slots__ = ('size', 'cells', 'name', 'ro', 'live', 'shared', 'lazy', 'arr')
    def __init__(self, size, name, ro=False):
        self.size = size; self.cells = {}; self.name = name; self.ro = ro; self.live = True; self.shared = False
        self.arr = None    # unbounded array of equal-sized opaque elements: (element size, length term, z3 array)
        self.lazy = None   # callable(off,size,ty) -> value for never-written input memory
    def copy(self):
        o = Obj(self.size, self.name, self.ro)
        o.cells = dict(self.cells); o.live = self.live; o.lazy = self.lazy; o.arr = self.arr
        return o

class Frame:
    __slots__ = ('f', 'blk', 'prev', 'ip', 'env', 'res', 'allocas', 'cont', 'visits')
    def copy(self):
        g = Frame()
        g.f = self.f; g.blk = self.blk; g.prev = self.prev; g.ip = self.ip; g.env = dict(self.env)
        g.res = self.res; g.allocas = list(self.allocas); g.cont = self.cont; g.visits = dict(self.visits)
        return g

class State:
    def __init__(self):
        self.mem = {}; self.pc = []; self.frames = []; self.obls = []; self.ret = None; self.ghost = {}
        self.steps = 0; self.trace = []
    def fork(self):
        s = State()
        for o in self.mem.values(): o.shared = True
        s.mem = dict(self.mem); s.pc = list(self.pc); s.frames = [f.copy() for f in self.frames]
        s.obls = list(self.obls); s.ghost = dict(self.ghost); s.steps = self.steps; s.trace = list(self.trace)
        return s
    def wobj(self, oid):
        o = self.mem[oid]
        if o.shared:
            o = o.copy(); self.mem[oid] = o
        return o

def isz(v): return isinstance(v, z3.ExprRef)
def isint(v): return isinstance(v, z3.ArithRef)
def isconc(v): return isinstance(v, int)

def mask(w): return (1 << w) - 1
def sgn(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v

def bv(v, w):
    if isconc(v): return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, Pack):
        return z3.Concat(bv(v.hi, 32), bv(v.lo, 32))
    return v

def simp(v):
    v = z3.simplify(v)
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_true(v): return 1
    if z3.is_false(v): return 0
    return v

def boolof(v):
    if isconc(v): return z3.BoolVal(bool(v))
    if isinstance(v, z3.BoolRef): return v
    if isinstance(v, z3.BitVecRef): return v != 0
    raise Unsupported('bool of %r' % (v,))

class Engine:
    def __init__(self, mod, contracts=None, max_steps=400000, max_paths=4000, unroll=4000, sym_unroll=80,
                 timeout_ms=20000, check_nsw=False, single=False):
        self.mod = mod
        self.contracts = contracts or {}
        self.max_steps = max_steps; self.max_paths = max_paths; self.unroll = unroll; self.sym_unroll = sym_unroll
        self.timeout_ms = timeout_ms
        self.nobj = 0
        self.globs = {}
        self.solver_time = 0.0
        self.queries = 0
        self.check_nsw = check_nsw
        self.functions_executed = set()
        self.contracts_used = {}
        self.fresh_n = 0
        self.base = []            # assumptions of the entry contract
        self.errors = []          # (state, kind, message)
        self.loop_handler = None
        self.padding = False      # undefined bytes inside a wider load are arbitrary (struct padding)
        self.libm = {'sqrt': 1, 'sqrtf': 1, 'sin': 1, 'sinf': 1, 'cos': 1, 'cosf': 1, 'tan': 1, 'tanf': 1, 'pow': 2,
                     'powf': 2, 'atan2': 2, 'atan2f': 2, 'fabs': 1, 'fabsf': 1, 'exp': 1, 'expf': 1, 'log': 1, 'logf': 1}

    # ---------- solver
    def check(self, conds):
        import time
        t = time.time()
        s = self.tactic.solver() if getattr(self, 'tactic', None) is not None else z3.Solver()
        s.set('timeout', self.timeout_ms)
        s.add(*self.base)
        s.add(*conds)
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        return r, s

    def feasible(self, st, c):
        r, _ = self.check(st.pc + [c])
        return r != z3.unsat

    # ---------- memory
    def new_obj(self, st, size, name, ro=False):
        self.nobj += 1
        oid = '%s#%d' % (name, self.nobj)
        st.mem[oid] = Obj(size, name, ro)
        return oid

    def glob(self, st, name):
        if name in self.globs:
            oid = self.globs[name]
            if oid not in st.mem:
                st.mem[oid] = self.globobj[oid]
            return Ptr(oid, 0)
        if name in self.mod.funcs or name in self.mod.decls:
            return FnPtr(name)
        g = I.get_global(self.mod, name)
        if g is None:
            raise Unsupported('global ' + name)
        t, init, const = g
        oid = '@' + name
        ob = Obj(self.mod.sizeof(t), '@' + name, ro=const)
        self.globs[name] = oid
        if not hasattr(self, 'globobj'): self.globobj = {}
        self.globobj[oid] = ob
        st.mem[oid] = ob
        if init is not None:
            self.init_const(st, ob, 0, t, init)
        ob.shared = True
        return Ptr(oid, 0)

    def init_const(self, st, ob, off, t, c):
        t = self.mod.resolve(t)
        if c[0] == 'zero':
            self.zero_fill(ob, off, t); return
        if c[0] == 'undef':
            return
        if t.k == 'struct':
            for i, (et, ec) in enumerate(c[1]):
                fo, ft = self.mod.field(t, i)
                self.init_const(st, ob, off + fo, ft, ec)
        elif t.k in ('array', 'vec'):
            n, e = t.a
            sz = self.mod.sizeof(e)
            for i, (et, ec) in enumerate(c[1]):
                self.init_const(st, ob, off + i * sz, e, ec)
        else:
            v = self.operand(st, None, t, c)
            ob.cells[off] = (self.mod.sizeof(t), v)

    def zero_fill(self, ob, off, t):
        t = self.mod.resolve(t)
        if t.k == 'struct':
            for i in range(len(t.a[1])):
                fo, ft = self.mod.field(t, i)
                self.zero_fill(ob, off + fo, ft)
        elif t.k in ('array', 'vec'):
            n, e = t.a
            sz = self.mod.sizeof(e)
            for i in range(n):
                self.zero_fill(ob, off + i * sz, e)
        elif t.k == 'ptr':
            ob.cells[off] = (8, NULL)
        elif t.k in ('double', 'float'):
            ob.cells[off] = (self.mod.sizeof(t), X.const(0))
        else:
            ob.cells[off] = (self.mod.sizeof(t), 0)

    def chk_access(self, st, p, n, write):
        if isinstance(p, FnPtr): raise MemError('access through function pointer')
        if p is UNDEF or isinstance(p, Undef): raise MemError('access through undefined pointer')
        if not isinstance(p, Ptr): raise Unsupported('address %r' % (p,))
        if p.o is None: raise MemError('null dereference')
        ob = st.mem.get(p.o)
        if ob is None or not ob.live: raise MemError('use of dead object ' + str(p.o))
        if not isconc(p.off): raise Unsupported('symbolic offset')
        off = p.off if p.off < (1 << 63) else p.off - (1 << 64)
        if off < 0 or off + n > ob.size:
            raise MemError('%s of %d bytes at offset %d outside object %s of size %d'
                           % ('store' if write else 'load', n, off, ob.name, ob.size))
        if write and ob.ro: raise MemError('write to constant ' + ob.name)
        return ob, off

    def split(self, ob, off):
        """make sure no cell straddles offset off"""
        if off in ob.cells or off >= ob.size: return
        for o in range(off - 1, max(-1, off - 65), -1):
            c = ob.cells.get(o)
            if c is not None:
                n, v = c
                if o + n > off:
                    k = off - o
                    del ob.cells[o]
                    ob.cells[o] = (k, self.extract(v, n, 0, k))
                    ob.cells[off] = (n - k, self.extract(v, n, k, n - k))
                return

    def extract(self, v, n, lo, k):
        if isinstance(v, Undef): return UNDEF
        if isconc(v): return (v >> (8 * lo)) & mask(8 * k)
        if isinstance(v, Pack):
            if lo == 0 and k == 4: return v.lo
            if lo == 4 and k == 4: return v.hi
        if isinstance(v, z3.BitVecRef):
            return simp(z3.Extract(8 * (lo + k) - 1, 8 * lo, bv(v, 8 * n)))
        if isinstance(v, X.F) and X.isc(v) and v.a[0] == 0: return 0
        if isinstance(v, Ptr) and v.o is None and v.off == 0: return 0
        raise Unsupported('partial read of %r' % (v,))

    def store_raw(self, st, p, n, v):
        if isinstance(p, Ptr) and p.o in st.mem and st.mem[p.o].arr is not None:
            ob, i = self.arr_index(st, p, n, True)
            v = z3.IntVal(v) if isconc(v) else v
            if not isint(v): raise Unsupported('store of %r into an array' % (v,))
            h = getattr(self, 'arr_store', None)
            if h: h(st, p.o, i, v)
            ob = st.wobj(p.o); esz, length, a = ob.arr
            ob.arr = (esz, length, z3.Store(a, i, v)); return
        ob, off = self.chk_access(st, p, n, True)
        ob = st.wobj(p.o)
        c = ob.cells
        if not (off in c and c[off][0] == n):
            self.split(ob, off); self.split(ob, off + n)
            for o in range(off, off + n):
                if o in c: del c[o]
        c[off] = (n, v)

    def load_raw(self, st, p, n):
        if isinstance(p, Ptr) and p.o in st.mem and st.mem[p.o].arr is not None:
            ob, i = self.arr_index(st, p, n, False)
            return z3.Select(ob.arr[2], i)
        ob, off = self.chk_access(st, p, n, False)
        c = ob.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        if ob.lazy is not None and c is None:
            v = ob.lazy(off, n)
            if v is not None: return v
        # gather
        parts = []
        o = off
        ob2 = None
        while o < off + n:
            c = ob.cells.get(o)
            if c is None:
                if ob2 is None:
                    ob2 = ob.copy(); ob = ob2
                    self.split(ob, off); self.split(ob, off + n)
                    o = off; parts = []
                    c = ob.cells.get(o)
                    if c is not None: continue
                parts.append((1, UNDEF)); o += 1
                continue
            if o + c[0] > off + n:
                if ob2 is None:
                    ob2 = ob.copy(); ob = ob2
                self.split(ob, off + n)
                c = ob.cells[o]
            parts.append(c); o += c[0]
        if len(parts) == 1: return parts[0][1]
        if all(isinstance(v, Undef) for _, v in parts): return UNDEF
        if any(isinstance(v, Undef) for _, v in parts):
            if not self.padding or not all(isinstance(v, (Undef, int, z3.BitVecRef, z3.BoolRef)) for _, v in parts): return UNDEF
            parts = [(k, self.fresh('pad', z3.BitVecSort(8 * k)) if isinstance(v, Undef) else v) for k, v in parts]   # padding: arbitrary
        if all(isconc(v) for _, v in parts):
            r = 0; sh = 0
            for k, v in parts:
                r |= v << sh; sh += 8 * k
            return r
        if len(parts) == 2 and parts[0][0] == 4 and parts[1][0] == 4 and any(isint(v) or isinstance(v, X.F) for _, v in parts):
            return Pack(parts[0][1], parts[1][1])
        # all-zero mixtures
        bs = []
        for k, v in parts:
            if isinstance(v, X.F):
                if X.isc(v) and v.a[0] == 0: v = 0
                else: raise Unsupported('gather float')
            if isinstance(v, Ptr):
                if v.o is None: v = 0
                else: raise Unsupported('gather pointer')
            if isint(v): raise Unsupported('gather Int')
            if isinstance(v, z3.BoolRef): v = bv(v, 8 * k)
            bs.append(bv(v, 8 * k))
        return simp(z3.Concat(*reversed(bs)))

    def conv_load(self, v, t):
        """re-interpret a raw cell value at type t"""
        if isinstance(v, Undef): return v
        k = t.k
        if k in ('double', 'float'):
            if isinstance(v, X.F): return v
            if isconc(v):
                import struct
                if k == 'double': f = struct.unpack('<d', v.to_bytes(8, 'little'))[0]
                else: f = struct.unpack('<f', v.to_bytes(4, 'little'))[0]
                return X.literal(f, k == 'float')
            if isinstance(v, Ptr) and v.o is None: return X.const(0)
            if isinstance(v, (Ptr, FnPtr)): return UNDEF    # inactive union member (speculated load)
            raise Unsupported('float load of %r' % (v,))
        if k == 'ptr':
            if isconc(v): return Ptr(None, v)
            if isinstance(v, (Ptr, FnPtr)): return v
            if isinstance(v, X.F): return UNDEF             # inactive union member (speculated load)
            raise Unsupported('ptr load of %r' % (v,))
        if k == 'int':
            if isinstance(v, Ptr): return v
            if isinstance(v, X.F): return v
            if t.a < 8:
                if isconc(v): return v & mask(t.a)
                if isinstance(v, z3.BoolRef): return v
                if isinstance(v, z3.BitVecRef) and t.a == 1:
                    return simp(z3.Extract(0, 0, v) == 1)
            if isinstance(v, z3.BoolRef) and t.a > 1: return bv(v, t.a)
            if isinstance(v, z3.BitVecRef) and v.size() != t.a:
                if v.size() > t.a: return simp(z3.Extract(t.a - 1, 0, v))
                return simp(z3.ZeroExt(t.a - v.size(), v))
            return v
        raise Unsupported('load type ' + k)

    def load(self, st, p, t):
        t = self.mod.resolve(t)
        if t.k == 'struct':
            return [self.load(st, Ptr(p.o, p.off + self.mod.field(t, i)[0]), self.mod.field(t, i)[1])
                    for i in range(len(t.a[1]))]
        if t.k in ('array', 'vec'):
            n, e = t.a
            sz = self.mod.sizeof(e)
            self.chk_access(st, p, n * sz, False)
            return [self.load(st, Ptr(p.o, p.off + i * sz), e) for i in range(n)]
        return self.conv_load(self.load_raw(st, p, self.ssize(t)), t)

    def store(self, st, p, t, v):
        t = self.mod.resolve(t)
        if t.k == 'struct':
            for i in range(len(t.a[1])):
                fo, ft = self.mod.field(t, i)
                self.store(st, Ptr(p.o, p.off + fo), ft, UNDEF if isinstance(v, Undef) else v[i])
            return
        if t.k in ('array', 'vec'):
            n, e = t.a
            sz = self.mod.sizeof(e)
            for i in range(n):
                self.store(st, Ptr(p.o, p.off + i * sz), e, UNDEF if isinstance(v, Undef) else v[i])
            return
        if t.k == 'int' and t.a == 1 and isinstance(v, z3.BoolRef):
            v = bv(v, 8)
        n = self.ssize(t)
        if t.k == 'int' and t.a != 8 * n and isinstance(v, z3.BitVecRef) and v.size() < 8 * n: v = z3.ZeroExt(8 * n - v.size(), v)
        self.store_raw(st, p, n, v)

    def ssize(self, t):
        """bytes accessed by a load or store (an odd-sized integer occupies only its own bytes)"""
        return (t.a + 7) // 8 if t.k == 'int' else self.mod.sizeof(t)

    def memcpy(self, st, d, s, n):
        if n == 0: return
        if any(isinstance(q, Ptr) and q.o in st.mem and st.mem[q.o].arr is not None for q in (s, d)):
            return self.store_raw(st, d, n, self.load_raw(st, s, n))
        self.chk_access(st, s, n, False); self.chk_access(st, d, n, True)
        src = st.wobj(s.o)
        self.split(src, s.off); self.split(src, s.off + n)
        if src.lazy is not None:
            o = s.off
            while o < s.off + n:
                c = src.cells.get(o)
                if c is None:
                    r = src.lazy(o, None)
                    if r is None: o += 1; continue
                    src.cells[o] = r
                    c = r
                o += c[0]
        items = [(o - s.off, c) for o, c in src.cells.items() if s.off <= o < s.off + n]
        dst = st.wobj(d.o)
        self.split(dst, d.off); self.split(dst, d.off + n)
        for o in range(d.off, d.off + n):
            if o in dst.cells: del dst.cells[o]
        for o, c in items:
            dst.cells[d.off + o] = c

    def memset(self, st, d, v, n):
        if n == 0: return
        self.chk_access(st, d, n, True)
        if not isconc(v): raise Unsupported('symbolic memset')
        dst = st.wobj(d.o)
        self.split(dst, d.off); self.split(dst, d.off + n)
        for o in range(d.off, d.off + n):
            if o in dst.cells: del dst.cells[o]
        o = d.off
        end = d.off + n
        while o < end:
            k = 1
            for kk in (8, 4, 2):
                if o % kk == 0 and o + kk <= end:
                    k = kk; break
            dst.cells[o] = (k, int.from_bytes(bytes([v]) * k, 'little'))
            o += k

    # ---------- operands
    def operand(self, st, fr, t, c):
        k = c[0]
        if k == 'loc':
            try:
                return fr.env[c[1]]
            except KeyError:
                raise Unsupported('unset ' + c[1])
        if k == 'c': return c[1]
        if k == 'f': return X.literal(c[1], t.k == 'float')
        if k == 'glob': return self.glob(st, c[1])
        if k == 'null': return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            t = self.mod.resolve(t)
            if t.k == 'struct': return [self.operand(st, fr, e, c) for e in t.a[1]]
            if t.k in ('array', 'vec'): return [self.operand(st, fr, t.a[1], c) for _ in range(t.a[0])]
            if t.k == 'ptr': return NULL
            if t.k in ('double', 'float'): return X.const(0)
            return 0
        if k == 'agg':
            return [self.operand(st, fr, et, ec) for et, ec in c[1]]
        if k == 'gep':
            return self.gep(st, fr, c[1], c[2])
        if k == 'castexpr':
            return self.operand(st, fr, c[2], c[3])
        raise Unsupported('operand ' + k)

    def gep(self, st, fr, bt, ops):
        base = self.operand(st, fr, ops[0][0], ops[0][1])
        if isinstance(base, Undef): return UNDEF
        if isinstance(base, FnPtr): raise Unsupported('gep fn')
        off = base.off
        t = bt
        for j, (ot, oc) in enumerate(ops[1:]):
            idx = self.operand(st, fr, ot, oc)
            if j == 0:
                sz = self.mod.sizeof(t)
            else:
                t = self.mod.resolve(t)
                if t.k == 'struct':
                    fo, t = self.mod.field(t, idx)
                    off = self.addoff(off, fo); continue
                t = t.a[1]
                sz = self.mod.sizeof(t)
            w = ot.a
            if isconc(idx):
                off = self.addoff(off, sgn(idx, w) * sz)
            elif isinstance(idx, Undef):
                return UNDEF
            elif isinstance(idx, z3.BitVecRef):
                e = z3.SignExt(64 - w, idx) if w < 64 else idx
                off = simp(bv(off & mask(64) if isconc(off) else off, 64) + e * z3.BitVecVal(sz, 64))
                if isconc(off): off = sgn(off, 64)
            elif isint(idx):
                off = (z3.IntVal(off) if isconc(off) else off) + idx * sz
            elif isinstance(idx, z3.BoolRef):
                raise Unsupported('bool index')
            else:
                raise Unsupported('gep index %r' % (idx,))
        return Ptr(base.o, off)

    def addoff(self, off, k):
        if isconc(off): return off + k
        if isint(off): return z3.simplify(off + k)
        return simp(off + z3.BitVecVal(k & mask(64), 64))

    # ---------- fresh
    def fresh(self, base, sort):
        self.fresh_n += 1
        return z3.Const('%s!%d' % (base, self.fresh_n), sort)

    # ---------- main loop
    def call_state(self, fname, args, st=None):
        st = st or State()
        f = self.mod.funcs.get(fname)
        if f is None: raise Unsupported('no function ' + fname)
        self.push(st, f, args, None, None)
        return st

    def push(self, st, f, args, res, cont):
        fr = Frame()
        fr.f = f; fr.blk = f.entry; fr.prev = None; fr.ip = 0; fr.env = {}; fr.res = res; fr.allocas = []; fr.cont = cont
        fr.visits = {}
        for (t, n, at), a in zip(f.params, args):
            if 'byval' in at and isinstance(a, Ptr):
                sz = self.mod.sizeof(at['byval'])
                oid = self.new_obj(st, sz, 'byval')
                self.memcpy(st, Ptr(oid, 0), a, sz)
                a = Ptr(oid, 0)
            fr.env[n] = a
        if len(st.frames) > 400: raise Bound('recursion depth')
        st.frames.append(fr)
        self.functions_executed.add(f.name)

    def run(self, st):
        """explore all paths; returns the list of final states"""
        work = [st]
        done = []
        n = 0
        while work:
            s = work.pop()
            while True:
                try:
                    more = self.step(s)
                except (MemError, UB) as e:
                    self.errors.append((s, type(e).__name__, '%s in %s' % (e, s.frames[-1].f.name if s.frames else '?')))
                    break
                if more is None:
                    continue
                if more == 'done':
                    done.append(s)
                    break
                if not more:
                    break   # infeasible
                n += len(more) - 1
                if n > self.max_paths: raise Bound('path limit %d' % self.max_paths)
                work.extend(more[1:])
                s = more[0]
        return done

    def step(self, st):
        fr = st.frames[-1]
        ins = I.func_instrs(self.mod, fr.f, fr.blk)[fr.ip]
        st.steps += 1
        if st.steps > self.max_steps: raise Bound('step limit')
        op = ins.op
        a = ins.a
        if fr.ip == 0 and op != 'phi' and fr.prev is not None and self.loop_handler is not None and not fr.visits.get('at') == fr.blk:
            fr.visits['at'] = fr.blk
            r = self.loop_handler(self, st, fr)
            if r is not None: return r
        if op == 'phi':
            # evaluate all phis of the block simultaneously
            blk = I.func_instrs(self.mod, fr.f, fr.blk)
            vals = []
            i = fr.ip
            while blk[i].op == 'phi':
                t, inc = blk[i].a
                for v, l in inc:
                    if l == fr.prev:
                        vals.append((blk[i].res, self.operand(st, fr, t, v))); break
                else:
                    raise Unsupported('phi')
                i += 1
            for r, v in vals: fr.env[r] = v
            fr.ip = i
            if self.loop_handler is not None:
                r = self.loop_handler(self, st, fr)
                if r is not None: return r
            return None
        if op == 'br':
            self.jump(fr, a[0]); return None
        if op == 'condbr':
            c = self.operand(st, fr, I.INT(1), a[0])
            if isinstance(c, Undef): raise UB('branch on undefined value')
            if isconc(c):
                self.jump(fr, a[1] if c else a[2]); return None
            return self.branch(st, [(boolof(c), a[1]), (z3.Not(boolof(c)), a[2])])
        if op == 'switch':
            t, v, d, cases = a
            v = self.operand(st, fr, t, v)
            if isinstance(v, Undef): raise UB('switch on undefined value')
            if isconc(v):
                for cv, l in cases:
                    if cv == v: self.jump(fr, l); return None
                self.jump(fr, d); return None
            opts = []
            if isint(v):
                for cv, l in cases: opts.append((v == sgn(cv, t.a), l))
            else:
                for cv, l in cases: opts.append((v == z3.BitVecVal(cv, t.a), l))
            opts.append((z3.And([z3.Not(c) for c, _ in opts]), d))
            return self.branch(st, opts)
        if op == 'ret':
            v = None if a[1] is None else self.operand(st, fr, a[0], a[1])
            for oid in fr.allocas:
                if oid in st.mem:
                    o = st.wobj(oid); o.live = False
                    o.cells = {}
            st.frames.pop()
            if fr.cont is not None:
                r = fr.cont(self, st, v)
                if r is not None: return r
            if not st.frames:
                st.ret = v
                return 'done'
            if fr.res is not None:
                st.frames[-1].env[fr.res] = v
            return None
        if op == 'unreachable':
            raise UB('unreachable reached')
        if op == 'call':
            return self.do_call(st, fr, ins)
        if op == 'load':
            p = self.operand(st, fr, I.PTR, a[1])
            if isinstance(p, Ptr) and not isconc(p.off) and not isint(p.off):
                t = self.mod.resolve(a[0])
                ob = st.mem.get(p.o)
                v = self.table_load(st, p, t)
                if v is not None:
                    fr.env[ins.res] = v; fr.ip += 1; return None
                return self.concretize(st, p, self.mod.sizeof(t))
            fr.env[ins.res] = self.load(st, p, a[0])
        elif op == 'store':
            p = self.operand(st, fr, I.PTR, a[2])
            if isinstance(p, Ptr) and not isconc(p.off) and not isint(p.off):
                return self.concretize(st, p, self.mod.sizeof(a[0]))
            self.store(st, p, a[0], self.operand(st, fr, a[0], a[1]))
        elif op == 'alloca':
            n = 1
            if a[1] is not None:
                n = self.operand(st, fr, I.INT(64), a[1])
                if not isconc(n): raise Unsupported('vla')
            oid = self.new_obj(st, self.mod.sizeof(a[0]) * n, 'alloca')
            fr.allocas.append(oid)
            fr.env[ins.res] = Ptr(oid, 0)
        elif op == 'gep':
            fr.env[ins.res] = self.gep(st, fr, a[0], a[1])
        elif op in I.BINOPS:
            t = a[0]
            x = self.operand(st, fr, t, a[1]); y = self.operand(st, fr, t, a[2])
            fr.env[ins.res] = self.binop(st, op, t, x, y, a[3])
        elif op == 'fneg':
            x = self.operand(st, fr, a[0], a[1])
            fr.env[ins.res] = self.vmap(a[0], lambda q: UNDEF if isinstance(q, Undef) else X.neg(q), x)
        elif op == 'icmp':
            pred, t, x, y = a
            x = self.operand(st, fr, t, x); y = self.operand(st, fr, t, y)
            fr.env[ins.res] = self.icmp(st, pred, t, x, y)
        elif op == 'fcmp':
            pred, t, x, y = a
            x = self.operand(st, fr, t, x); y = self.operand(st, fr, t, y)
            fr.env[ins.res] = self.fcmp(st, pred, x, y)
        elif op == 'select':
            (ct, c), (t, x), (_, y) = a
            c = self.operand(st, fr, ct, c)
            if isinstance(c, Undef):
                fr.env[ins.res] = UNDEF
            elif isconc(c):
                fr.env[ins.res] = self.operand(st, fr, t, x if c else y)
            else:
                xv = self.operand(st, fr, t, x); yv = self.operand(st, fr, t, y)
                r = self.ite(c, t, xv, yv)
                if r is None:
                    # fork
                    out = []
                    for cond, v in ((boolof(c), xv), (z3.Not(boolof(c)), yv)):
                        if self.feasible(st, cond):
                            s = st.fork()
                            s.pc.append(cond)
                            s.frames[-1].env[ins.res] = v
                            s.frames[-1].ip += 1
                            out.append(s)
                    return out
                fr.env[ins.res] = r
        elif op in I.CASTS:
            t, x, t2 = a
            x = self.operand(st, fr, t, x)
            fr.env[ins.res] = self.cast(st, op, t, x, t2)
        elif op == 'freeze':
            fr.env[ins.res] = self.operand(st, fr, a[0], a[1])
        elif op == 'extractvalue':
            v = self.operand(st, fr, a[0], a[1])
            for i in a[2]:
                v = UNDEF if isinstance(v, Undef) else v[i]
            fr.env[ins.res] = v
        elif op == 'insertvalue':
            v = self.operand(st, fr, a[0], a[1])
            e = self.operand(st, fr, a[2], a[3])
            fr.env[ins.res] = self.insertv(a[0], v, a[4], e)
        elif op == 'extractelement':
            v = self.operand(st, fr, a[0], a[1]); i = self.operand(st, fr, a[2], a[3])
            if isinstance(v, Undef): fr.env[ins.res] = UNDEF
            else: fr.env[ins.res] = v[i]
        elif op == 'insertelement':
            v = self.operand(st, fr, a[0], a[1]); e = self.operand(st, fr, a[2], a[3]); i = self.operand(st, fr, a[4], a[5])
            n = self.mod.resolve(a[0]).a[0]
            v = [UNDEF] * n if isinstance(v, Undef) else list(v)
            v[i] = e
            fr.env[ins.res] = v
        elif op == 'shufflevector':
            v = self.operand(st, fr, a[0], a[1]); w = self.operand(st, fr, a[2], a[3]); m = self.operand(st, fr, a[4], a[5])
            n = self.mod.resolve(a[0]).a[0]
            if isinstance(v, Undef): v = [UNDEF] * n
            if isinstance(w, Undef): w = [UNDEF] * n
            vw = list(v) + list(w)
            if isinstance(m, Undef): m = [0] * self.mod.resolve(a[4]).a[0]
            fr.env[ins.res] = [UNDEF if isinstance(j, Undef) else vw[j] for j in m]
        else:
            raise Unsupported('op ' + op)
        fr.ip += 1
        return None

    def insertv(self, t, v, idx, e):
        t = self.mod.resolve(t)
        n = len(t.a[1]) if t.k == 'struct' else t.a[0]
        v = [UNDEF] * n if isinstance(v, Undef) else list(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            et = t.a[1][idx[0]] if t.k == 'struct' else t.a[1]
            v[idx[0]] = self.insertv(et, v[idx[0]], idx[1:], e)
        return v

    def vmap(self, t, fn, x):
        if self.mod.resolve(t).k == 'vec':
            if isinstance(x, Undef): return UNDEF
            return [fn(e) for e in x]
        return fn(x)

    def jump(self, fr, l):
        fr.prev = fr.blk; fr.blk = l; fr.ip = 0; fr.visits.pop('at', None)
        n = fr.visits.get(l, 0) + 1
        fr.visits[l] = n
        if n > self.unroll: raise Bound('loop iterations > %d in %s' % (self.unroll, fr.f.name))

    def branch(self, st, opts):
        out = []
        feas = [(c, l) for c, l in opts if self.feasible(st, c)]
        for i, (c, l) in enumerate(feas):
            s = st if i == len(feas) - 1 else st.fork()
            out.append((s, c, l))
        res = []
        for s, c, l in out:
            if len(feas) > 1:
                s.pc.append(c)
                fr = s.frames[-1]
                key = ('sym', l)
                fr.visits[key] = fr.visits.get(key, 0) + 1
                if fr.visits[key] > self.sym_unroll:
                    raise Bound('symbolic loop > %d in %s' % (self.sym_unroll, fr.f.name))
            self.jump(s.frames[-1], l)
            res.append(s)
        return res

    def table_load(self, st, p, t):
        """load at a symbolic offset from a small constant table of equal-sized integers"""
        ob = st.mem.get(p.o)
        if ob is None or not ob.ro or t.k != 'int': return None
        sz = self.mod.sizeof(t)
        n = ob.size // sz
        vals = []
        for i in range(n):
            c = ob.cells.get(i * sz)
            if c is None or c[0] != sz or not isconc(c[1]): return None
            vals.append(c[1])
        off = bv(p.off, 64)
        inb = z3.And(z3.ULE(off, z3.BitVecVal(ob.size - sz, 64)), z3.URem(off, z3.BitVecVal(sz, 64)) == 0)
        if self.feasible(st, z3.Not(inb)):
            raise MemError('table index may be out of bounds of ' + ob.name)
        import gf2
        af = gf2.affine_table(vals, t.a) if n > 8 else None
        if af is not None:
            self.table_lemmas = getattr(self, 'table_lemmas', {}); self.table_lemmas[ob.name] = n
            sh = (sz - 1).bit_length()
            r = z3.BitVecVal(af[0], t.a)
            for j, cv in enumerate(af[1]):
                r = r ^ z3.If(z3.Extract(sh + j, sh + j, off) == 1, z3.BitVecVal(cv, t.a), z3.BitVecVal(0, t.a))
            return r
        key = ('tab', p.o)
        arr = st.ghost.get(key)
        if arr is None:
            arr = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, t.a))
            for i, v in enumerate(vals):
                arr = z3.Store(arr, z3.BitVecVal(i * sz, 64), z3.BitVecVal(v, t.a))
            st.ghost[key] = arr
        return z3.Select(arr, off)

    def concretize(self, st, p, n):
        """fork over the feasible values of a symbolic offset"""
        off = p.off
        out = []
        s = z3.Solver(); s.set('timeout', self.timeout_ms)
        s.add(*self.base); s.add(*st.pc)
        vals = []
        while len(vals) < 130:
            r = s.check()
            if r == z3.unknown: raise Unsupported('concretize')
            if r == z3.unsat: break
            v = s.model().eval(off, model_completion=True).as_long()
            vals.append(v)
            s.add(off != v)
        else:
            raise Bound('too many offsets')
        res = []
        for v in vals:
            s2 = st.fork()
            s2.pc.append(off == z3.BitVecVal(v, 64))
            fr = s2.frames[-1]
            for k, x in list(fr.env.items()):
                if isinstance(x, Ptr) and not isconc(x.off) and x.o == p.o and x.off.eq(off):
                    fr.env[k] = Ptr(x.o, sgn(v, 64))
                elif isz(x) and isinstance(x, z3.BitVecRef):
                    pass
            res.append(s2)
        return res

    def ite(self, c, t, x, y):
        if x is y: return x
        if isinstance(x, Undef) or isinstance(y, Undef): return None
        t = self.mod.resolve(t)
        if t.k == 'int':
            if isconc(x) and isconc(y) and x == y: return x
            b = boolof(c)
            if isint(x) or isint(y):
                if isconc(x): x = z3.IntVal(sgn(x, t.a))
                if isconc(y): y = z3.IntVal(sgn(y, t.a))
                if isint(x) and isint(y): return z3.If(b, x, y)
                return None
            if t.a == 1:
                return simp(z3.If(b, boolof(x), boolof(y)))
            if (isconc(x) or isinstance(x, z3.BitVecRef)) and (isconc(y) or isinstance(y, z3.BitVecRef)):
                return simp(z3.If(b, bv(x, t.a), bv(y, t.a)))
            return None
        if t.k == 'ptr' and isinstance(x, Ptr) and isinstance(y, Ptr) and x.o == y.o:
            if isconc(x.off) and isconc(y.off) and x.off == y.off: return x
        return None

    # ---------- arithmetic
    def binop(self, st, op, t, x, y, flags):
        t = self.mod.resolve(t)
        if t.k == 'vec':
            if isinstance(x, Undef) or isinstance(y, Undef): return UNDEF
            return [self.binop(st, op, t.a[1], p, q, flags) for p, q in zip(x, y)]
        if isinstance(x, Undef) or isinstance(y, Undef):
            return UNDEF
        if op[0] == 'f':
            f = {'fadd': X.add, 'fsub': X.sub, 'fmul': X.mul, 'fdiv': X.div}.get(op)
            if f is None: raise Unsupported(op)
            if not (isinstance(x, X.F) and isinstance(y, X.F)): raise Unsupported('float op on %r' % (x,))
            return f(x, y)
        w = t.a
        if isconc(x) and isconc(y):
            return self.cbin(st, op, w, x, y, flags)
        if isinstance(x, (Pack, PackHi)) or isinstance(y, (Pack, PackHi)):
            return self.packop(st, op, w, x, y)
        if isint(x) or isint(y):
            return self.intop(st, op, w, x, y)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return self.ptrop(st, op, w, x, y)
        if w == 1:
            p, q = boolof(x), boolof(y)
            if op == 'and' or op == 'mul': return simp(z3.And(p, q))
            if op == 'or': return simp(z3.Or(p, q))
            if op in ('xor', 'add', 'sub'): return simp(z3.Xor(p, q))
            raise Unsupported('i1 ' + op)
        p, q = bv(x, w), bv(y, w)
        if self.check_nsw and 'nsw' in flags:
            c = None
            if op == 'add': c = z3.And(z3.BVAddNoOverflow(p, q, True), z3.BVAddNoUnderflow(p, q))
            elif op == 'sub': c = z3.And(z3.BVSubNoOverflow(p, q), z3.BVSubNoUnderflow(p, q, True))
            elif op == 'mul': c = z3.And(z3.BVMulNoOverflow(p, q, True), z3.BVMulNoUnderflow(p, q))
            if c is not None: st.obls.append(('no signed overflow: ' + op, list(st.pc), c))
        if op == 'add': r = p + q
        elif op == 'sub': r = p - q
        elif op == 'mul': r = p * q
        elif op == 'and': r = p & q
        elif op == 'or': r = p | q
        elif op == 'xor': r = p ^ q
        elif op == 'shl': r = p << q
        elif op == 'lshr': r = z3.LShR(p, q)
        elif op == 'ashr': r = p >> q
        elif op == 'udiv': r = z3.UDiv(p, q)
        elif op == 'urem': r = z3.URem(p, q)
        elif op == 'sdiv': r = p / q
        elif op == 'srem': r = z3.SRem(p, q)
        else: raise Unsupported(op)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            st.obls.append(('division by zero', list(st.pc), q != 0))
        if op in ('shl', 'lshr', 'ashr'):
            st.obls.append(('shift amount', list(st.pc), z3.ULT(q, z3.BitVecVal(w, w))))
        return simp(r)

    def cbin(self, st, op, w, x, y, flags):
        M = mask(w)
        if op == 'add': r = x + y
        elif op == 'sub': r = x - y
        elif op == 'mul': r = x * y
        elif op == 'and': r = x & y
        elif op == 'or': r = x | y
        elif op == 'xor': r = x ^ y
        elif op in ('shl', 'lshr', 'ashr'):
            if y >= w: return UNDEF
            if op == 'shl': r = x << y
            elif op == 'lshr': r = x >> y
            else: r = sgn(x, w) >> y
        elif op in ('udiv', 'urem'):
            if y == 0: raise UB('division by zero')
            r = x // y if op == 'udiv' else x % y
        elif op in ('sdiv', 'srem'):
            p, q = sgn(x, w), sgn(y, w)
            if q == 0: raise UB('division by zero')
            d = abs(p) // abs(q)
            if (p < 0) != (q < 0): d = -d
            r = d if op == 'sdiv' else p - d * q
        else: raise Unsupported(op)
        if 'nsw' in flags and self.check_nsw:
            p, q = sgn(x, w), sgn(y, w)
            v = {'add': p + q, 'sub': p - q, 'mul': p * q}.get(op)
            if v is not None and not (-(1 << (w-1)) <= v < (1 << (w-1))):
                raise UB('signed overflow')
        return r & M

    def toint(self, v, w):
        if isint(v): return v
        if isconc(v): return z3.IntVal(sgn(v, w))
        if isinstance(v, z3.BoolRef): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('mixing Int with %r' % (v,))

    def intop(self, st, op, w, x, y):
        p, q = self.toint(x, w), self.toint(y, w)
        if op in ('add', 'sub', 'mul'):
            r = p + q if op == 'add' else p - q if op == 'sub' else p * q
            st.obls.append(('machine arithmetic does not overflow: i%d %s' % (w, op), list(st.pc),
                            z3.And(r >= -(1 << (w-1)), r < (1 << (w-1)))))
            return r
        if op in ('sdiv', 'srem'):
            st.obls.append(('division by zero', list(st.pc), q != 0))
            h = getattr(self, 'exact_div', None)
            if h is not None and op == 'sdiv':
                r = h(self, st, p, q)
                if r is not None: return r
            d = self.fresh('quo', z3.IntSort()); m = self.fresh('rem', z3.IntSort())
            ab = lambda e: z3.If(e < 0, -e, e)
            st.pc.append(z3.Implies(q != 0, z3.And(p == d * q + m, ab(m) < ab(q),
                                                   z3.Implies(m != 0, (m < 0) == (p < 0)))))
            return d if op == 'sdiv' else m
        if op in ('udiv', 'urem'):
            st.obls.append(('division by zero', list(st.pc), q != 0))
            st.obls.append(('unsigned division of non-negative values', list(st.pc), z3.And(p >= 0, q >= 0)))
            h = getattr(self, 'exact_div', None)
            if h is not None and op == 'udiv':
                r = h(self, st, p, q)
                if r is not None: return r
            return p / q if op == 'udiv' else p % q
        if op == 'shl' and isconc(y):
            if w == 64 and y == 32: return PackHi(x)
            r = p * (1 << y)
            st.obls.append(('machine arithmetic does not overflow: shl', list(st.pc),
                            z3.And(r >= -(1 << (w-1)), r < (1 << (w-1)))))
            return r
        if op in ('ashr',) and isconc(y):
            r = self.divlin(p, 1 << y)
            return p / (1 << y) if r is None else r
        if op == 'lshr' and isconc(y):
            st.obls.append(('logical shift of non-negative', list(st.pc), p >= 0))
            return p / (1 << y)
        if op == 'and' and isconc(y):
            k = sgn(y, w)
            if k >= 0 and (k & (k + 1)) == 0:
                return p % (k + 1)
        if op == 'xor' and isconc(y) and y == mask(w):
            return -p - 1
        if op == 'or':
            z = getattr(self, 'zexted', {})
            for u, v in ((x, y), (y, x)):
                if w == 64 and isconc(v) and v & 0xffffffff == 0 and isint(u) and u.get_id() in z: return Pack(u, v >> 32)
            raise Unsupported('or on Int')
        raise Unsupported('Int op ' + op)

    def packop(self, st, op, w, x, y):
        if op == 'or':
            for a, b in ((x, y), (y, x)):
                if isinstance(a, PackHi) and not isinstance(b, (Pack, PackHi)):
                    return Pack(b, a.hi)
                if isinstance(a, PackHi) and isinstance(b, Pack) and isconc(b.hi) and b.hi == 0:
                    return Pack(b.lo, a.hi)
        if op == 'sub' and isconc(x) and x == 0 and isinstance(y, Pack):
            lo = self.toint(y.lo, 32)      # the low half is the negated low half; the high half is left unknown
            st.obls.append(('machine arithmetic does not overflow: negation', list(st.pc), lo > -(1 << 31)))
            return Pack(-lo, self.fresh('hi', z3.IntSort()))
        if op == 'shl' and isconc(y) and y == 32 and isinstance(x, Pack):
            return PackHi(x.lo)
        if op == 'lshr' and isconc(y) and y == 32 and isinstance(x, Pack):
            return x.hi
        if op == 'and' and isconc(y) and isinstance(x, Pack):
            if y == 0xffffffff: return Pack(x.lo, 0)
            if y == 0xffffffff00000000: return PackHi(x.hi)
        raise Unsupported('pack ' + op)

    def ioff(self, off): return z3.IntVal(off) if isconc(off) else off

    def divlin(self, t, k):
        """t / k for a linear term all of whose coefficients are multiples of k; None otherwise"""
        def lin(u, c, acc):
            if z3.is_int_value(u): acc[None] = acc.get(None, 0) + c * u.as_long(); return
            d = u.decl().kind()
            if d == z3.Z3_OP_ADD:
                for x in u.children(): lin(x, c, acc)
            elif d == z3.Z3_OP_SUB:
                lin(u.arg(0), c, acc)
                for x in u.children()[1:]: lin(x, -c, acc)
            elif d == z3.Z3_OP_UMINUS: lin(u.arg(0), -c, acc)
            elif d == z3.Z3_OP_MUL and z3.is_int_value(u.arg(0)):
                r = u.arg(1)
                for x in u.children()[2:]: r = r * x
                lin(r, c * u.arg(0).as_long(), acc)
            else: acc[u] = acc.get(u, 0) + c
        acc = {}
        lin(z3.simplify(t), 1, acc)
        if any(c % k for c in acc.values()): return None
        r = z3.IntVal(acc.pop(None, 0) // k)
        for u, c in acc.items():
            if c: r = r + (u if c == k else (c // k) * u)
        return z3.simplify(r)

    def arr_index(self, st, p, n, write):
        ob = st.mem[p.o]
        esz, length, a = ob.arr
        i = self.divlin(self.ioff(p.off), esz)
        if i is None or n != esz: raise Unsupported('access to part of an array element')
        st.obls.append(('%s inside the array' % ('store' if write else 'load'), list(st.pc), z3.And(i >= 0, i < length)))
        return ob, i

    def ptrop(self, st, op, w, x, y):
        if op == 'sub':
            xp = x if isinstance(x, Ptr) else Ptr(None, x)
            yp = y if isinstance(y, Ptr) else Ptr(None, y)
            if xp.o == yp.o:
                if isconc(xp.off) and isconc(yp.off): return (xp.off - yp.off) & mask(64)
                if isint(xp.off) or isint(yp.off): return z3.simplify(self.ioff(xp.off) - self.ioff(yp.off))
                return simp(bv(xp.off & mask(64) if isconc(xp.off) else xp.off, 64)
                            - bv(yp.off & mask(64) if isconc(yp.off) else yp.off, 64))
        if op == 'add':
            if isinstance(x, Ptr) and isconc(y): return Ptr(x.o, self.addoff(x.off, sgn(y, 64)))
            if isinstance(y, Ptr) and isconc(x): return Ptr(y.o, self.addoff(y.off, sgn(x, 64)))
        if op == 'sub' and isinstance(x, Ptr) and isconc(y):
            return Ptr(x.o, self.addoff(x.off, -sgn(y, 64)))
        raise Unsupported('pointer arithmetic ' + op)

    def icmp(self, st, pred, t, x, y):
        t = self.mod.resolve(t)
        if isinstance(x, Undef) or isinstance(y, Undef): return UNDEF
        if t.k == 'vec':
            return [self.icmp(st, pred, t.a[1], p, q) for p, q in zip(x, y)]
        if isinstance(x, (Ptr, FnPtr)) or isinstance(y, (Ptr, FnPtr)):
            if isinstance(x, FnPtr) or isinstance(y, FnPtr): raise Unsupported('fn cmp')
            if not isinstance(x, Ptr): x = Ptr(None, x)
            if not isinstance(y, Ptr): y = Ptr(None, y)
            if x.o != y.o:
                if pred == 'eq': return 0
                if pred == 'ne': return 1
                raise Unsupported('pointer order across objects')
            t = I.INT(64)
            if isint(x.off) or isint(y.off):
                x, y = self.ioff(x.off), self.ioff(y.off)
            else:
                x = x.off & mask(64) if isconc(x.off) else x.off
                y = y.off & mask(64) if isconc(y.off) else y.off
            if pred[0] == 'u': pred = 's' + pred[1:]
        w = t.a
        if isconc(x) and isconc(y):
            if pred[0] == 's': x, y = sgn(x, w), sgn(y, w)
            p = pred if pred in ('eq', 'ne') else pred[1:]
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])
        if isinstance(x, Pack) or isinstance(y, Pack):
            if pred in ('eq', 'ne') and isinstance(x, Pack) and isinstance(y, Pack):
                e = z3.And(self.toint(x.lo, 32) == self.toint(y.lo, 32), self.toint(x.hi, 32) == self.toint(y.hi, 32))
                return simp(e if pred == 'eq' else z3.Not(e))
            if isconc(y):
                # comparisons of the whole word against a constant reduce to the high half (signed)
                if pred in ('slt', 'sge') and y == 0:
                    e = self.toint(x.hi, 32) < 0
                    return simp(e if pred == 'slt' else z3.Not(e))
                if pred in ('ult', 'ugt') and False: pass
            raise Unsupported('pack cmp')
        if isint(x) or isint(y):
            p, q = self.toint(x, w), self.toint(y, w)
            if pred[0] == 'u':
                # unsigned comparison: valid as signed when both non-negative
                if isconc(y) and sgn(y, w) >= 0:
                    k = sgn(y, w)
                    if pred == 'ult': return simp(z3.And(p >= 0, p < k))
                    if pred == 'ule': return simp(z3.And(p >= 0, p <= k))
                    if pred == 'ugt': return simp(z3.Or(p < 0, p > k))
                    if pred == 'uge': return simp(z3.Or(p < 0, p >= k))
                ux = z3.If(p < 0, p + (1 << w), p); uy = z3.If(q < 0, q + (1 << w), q)
                p, q = ux, uy
            pr = pred if pred in ('eq', 'ne') else pred[1:]
            r = {'eq': lambda: p == q, 'ne': lambda: p != q, 'lt': lambda: p < q, 'le': lambda: p <= q,
                 'gt': lambda: p > q, 'ge': lambda: p >= q}[pr]()
            return simp(r)
        if w == 1:
            p, q = boolof(x), boolof(y)
            if pred == 'eq': return simp(p == q)
            if pred == 'ne': return simp(p != q)
            raise Unsupported('i1 cmp')
        p, q = bv(x, w), bv(y, w)
        r = {'eq': lambda: p == q, 'ne': lambda: p != q, 'slt': lambda: p < q, 'sle': lambda: p <= q,
             'sgt': lambda: p > q, 'sge': lambda: p >= q, 'ult': lambda: z3.ULT(p, q), 'ule': lambda: z3.ULE(p, q),
             'ugt': lambda: z3.UGT(p, q), 'uge': lambda: z3.UGE(p, q)}[pred]()
        return simp(r)

    def fcmp(self, st, pred, x, y):
        if isinstance(x, Undef) or isinstance(y, Undef): return UNDEF
        if isinstance(x, X.F) and isinstance(y, X.F) and X.isc(x) and X.isc(y):
            p, q = x.a[0], y.a[0]
            pr = pred[1:]
            return int({'eq': p == q, 'ne': p != q, 'lt': p < q, 'le': p <= q, 'gt': p > q, 'ge': p >= q,
                        'rd': True, 'no': False}[pr])
        h = getattr(self, 'fcmp_handler', None)
        if h is None: raise Unsupported('fcmp on symbolic reals')
        return h(st, pred, x, y)

    def cast(self, st, op, t, x, t2):
        t = self.mod.resolve(t); t2 = self.mod.resolve(t2)
        if isinstance(x, Undef): return UNDEF
        if t.k == 'vec' and t2.k == 'vec' and t.a[0] == t2.a[0] and op != 'bitcast':
            return [self.cast(st, op, t.a[1], e, t2.a[1]) for e in x]
        if op in ('zext', 'sext', 'trunc'):
            w, w2 = t.a, t2.a
            if isconc(x):
                if op == 'sext': return sgn(x, w) & mask(w2)
                return x & mask(w2)
            if isinstance(x, Ptr) and op == 'trunc': raise Unsupported('trunc ptr')
            if isinstance(x, Pack):
                if op == 'trunc' and w2 == 32: return x.lo
                raise Unsupported('cast pack')
            if isint(x):
                if op == 'sext': return x
                if op == 'zext':
                    # used to build by-value rats: keep the signed value, tagged by Pack when shifted
                    if w == 32 and w2 == 64:
                        self.zexted = getattr(self, 'zexted', {}); self.zexted[x.get_id()] = x
                    return x
                if op == 'trunc':
                    st.obls.append(('value fits after trunc', list(st.pc),
                                    z3.And(x >= -(1 << (w2-1)), x < (1 << (w2-1)))))
                    return x
            if isinstance(x, z3.BoolRef):
                if op == 'sext': return z3.If(x, z3.BitVecVal(mask(w2), w2), z3.BitVecVal(0, w2))
                return bv(x, w2)
            if op == 'zext': return simp(z3.ZeroExt(w2 - w, x))
            if op == 'sext': return simp(z3.SignExt(w2 - w, x))
            if w2 == 1: return simp(z3.Extract(0, 0, x) == 1)
            return simp(z3.Extract(w2 - 1, 0, x))
        if op in ('ptrtoint', 'inttoptr'):
            if op == 'inttoptr' and isconc(x): return Ptr(None, x)
            return x
        if op == 'bitcast':
            if t.k == t2.k and t.k != 'vec': return x
            if isinstance(x, (X.F, Ptr)): return x
            if t.k == 'vec' or t2.k == 'vec':
                if t.k == 'vec' and t2.k == 'vec' and t.a[0] == t2.a[0]: return x
                if t.k == 'vec' and t2.k == 'int' and t.a[0] * self.mod.sizeof(t.a[1]) * 8 == t2.a and len(x) == 2:
                    return Pack(x[0], x[1])
                if t2.k == 'vec' and isinstance(x, Pack) and t2.a[0] == 2: return [x.lo, x.hi]
                raise Unsupported('vector bitcast')
            return self.conv_load(x, t2)
        if op == 'fptrunc' and getattr(self, 'narrow', False) and isinstance(x, X.F) and not X.isc(x):
            return x if x.k == 'call' and x.a[0] == 'rnd32' else X.call('rnd32', x)
        if op in ('fpext', 'fptrunc'): return x
        if op in ('sitofp', 'uitofp'):
            if isconc(x):
                return X.const(sgn(x, t.a) if op == 'sitofp' else x)
            h = getattr(self, 'itof', None)
            if h is None: raise Unsupported('int to float on symbolic value')
            return h(st, x, t, op)
        if op in ('fptosi', 'fptoui'):
            if X.isc(x):
                import math
                return int(math.trunc(x.a[0])) & mask(t2.a)
            raise Unsupported(op)
        raise Unsupported('cast ' + op)

    # ---------- calls
    def do_call(self, st, fr, ins):
        rt, callee, args, nl = ins.a
        if callee[0] == 'glob':
            name = callee[1]
        else:
            c = self.operand(st, fr, I.PTR, callee)
            if not isinstance(c, FnPtr): raise Unsupported('indirect call')
            name = c.name
        if nl is not None:
            # invoke: continue at the normal destination
            after = lambda: self.jump(fr, nl)
        else:
            after = lambda: setattr(fr, 'ip', fr.ip + 1)
        if name.startswith('llvm.'):
            r = self.intrinsic(st, fr, name, args, rt)
            if ins.res is not None: fr.env[ins.res] = r
            after(); return None
        vals = [self.operand(st, fr, t, v) for t, v, at in args]
        h = self.contracts.get(name)
        if h is not None:
            self.contracts_used[name] = self.contracts_used.get(name, 0) + 1
            after()
            r = h(self, st, vals)
            if isinstance(r, list) and r and isinstance(r[0], tuple) and isinstance(r[0][0], State):
                out = []
                for s, v in r:
                    if ins.res is not None: s.frames[-1].env[ins.res] = v
                    out.append(s)
                return out
            if ins.res is not None: fr.env[ins.res] = r
            return None
        if name in self.libm:
            base = name[:-1] if name.endswith('f') and name not in ('erf',) else name
            if any(isinstance(v, Undef) for v in vals): r = UNDEF
            else: r = self.libmcall(st, base, vals)
            if ins.res is not None: fr.env[ins.res] = r
            after(); return None
        f = self.mod.funcs.get(name)
        if f is None:
            if name in ('memcpy', 'memmove'):
                self.memcpy(st, vals[0], vals[1], vals[2])
                if ins.res is not None: fr.env[ins.res] = vals[0]
                after(); return None
            if name == 'memset':
                self.memset(st, vals[0], vals[1] & 255, vals[2])
                if ins.res is not None: fr.env[ins.res] = vals[0]
                after(); return None
            raise Unsupported('external function ' + name)
        after()
        self.push(st, f, vals, ins.res, None)
        return None

    def libmcall(self, st, base, vals):
        h = getattr(self, 'libm_handler', None)
        if h is not None:
            return h(st, base, vals)
        if base == 'sqrt' and X.isc(vals[0]):
            q = vals[0].a[0]
            if q >= 0:
                import math
                n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
                if n * n == q.numerator and d * d == q.denominator: return X.const(Fraction(n, d))
        return X.call(base, *vals)

    def intrinsic(self, st, fr, name, args, rt):
        n = name.split('.')
        if n[1] in ('lifetime', 'experimental', 'dbg', 'invariant', 'donothing', 'sideeffect'):
            return None
        vals = [self.operand(st, fr, t, v) if t.k != 'metadata' else None for t, v, at in args]
        if n[1] == 'assume':
            return None
        if n[1] in ('memcpy', 'memmove'):
            if not isconc(vals[2]): raise Unsupported('symbolic memcpy size')
            if n[1] == 'memmove' or vals[0].o == vals[1].o:
                # copy through a temporary
                if vals[2] == 0: return None
                tmp = self.new_obj(st, vals[2], 'tmp')
                self.memcpy(st, Ptr(tmp, 0), vals[1], vals[2])
                self.memcpy(st, vals[0], Ptr(tmp, 0), vals[2])
            else:
                self.memcpy(st, vals[0], vals[1], vals[2])
            return None
        if n[1] == 'memset':
            if not isconc(vals[2]): raise Unsupported('symbolic memset size')
            self.memset(st, vals[0], vals[1], vals[2]); return None
        if any(isinstance(v, Undef) for v in vals): return UNDEF
        if n[1] in ('ctpop', 'ctlz', 'cttz'):
            w = rt.a
            x = vals[0]
            if isconc(x):
                if n[1] == 'ctpop': return bin(x).count('1')
                if n[1] == 'ctlz': return w - x.bit_length()
                return (x & -x).bit_length() - 1 if x else w
            if n[1] == 'ctpop':
                s = z3.BitVecVal(0, w)
                for i in range(w): s = s + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
                return simp(s)
            if len(vals) > 1 and isconc(vals[1]) and vals[1] == 1:
                st.obls.append(('%s of zero' % n[1], list(st.pc), x != 0))
            r = z3.BitVecVal(w, w)
            if n[1] == 'ctlz':
                for i in range(w): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
            else:
                for i in reversed(range(w)): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
            return simp(r)
        if n[1] in ('umin', 'umax', 'smin', 'smax'):
            w = rt.a
            p, q = vals
            pred = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[n[1]]
            c = self.icmp(st, pred, rt, p, q)
            if isconc(c): return p if c else q
            r = self.ite(c, rt, p, q)
            if r is None: raise Unsupported('minmax')
            return r
        if n[1] == 'abs':
            w = rt.a
            p = vals[0]
            if isconc(p):
                s = sgn(p, w)
                return abs(s) & mask(w)
            if isint(p):
                st.obls.append(('abs does not overflow', list(st.pc), p > -(1 << (w-1))))
                return z3.If(p < 0, -p, p)
            return simp(z3.If(p < 0, -p, p))
        if n[1] in ('fshl', 'fshr'):
            w = rt.a
            a, b, c = vals
            if isconc(c):
                c %= w
                A, B = bv(a, w), bv(b, w)
                r = z3.Concat(A, B)
                if n[1] == 'fshl': r = z3.Extract(2*w-1-c, w-c, r)
                else: r = z3.Extract(w-1+c, c, r)
                return simp(r)
            raise Unsupported('funnel shift')
        if n[1] == 'bswap':
            w = rt.a
            x = bv(vals[0], w)
            return simp(z3.Concat(*[z3.Extract(8*i+7, 8*i, x) for i in range(w // 8)]))
        if n[1] in ('sqrt', 'sin', 'cos', 'tan', 'pow', 'fabs', 'exp', 'log'):
            return self.vmap(rt, lambda q: self.libmcall(st, n[1], [q]), vals[0]) if len(vals) == 1 else self.libmcall(st, n[1], vals)
        if n[1] == 'fmuladd' or n[1] == 'fma':
            return X.add(X.mul(vals[0], vals[1]), vals[2])
        if n[1] in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul') and n[2] == 'with':
            w = int(n[-1][1:])
            op = n[1][1:]
            x, y = vals
            if isconc(x) and isconc(y):
                if n[1][0] == 's': p, q = sgn(x, w), sgn(y, w)
                else: p, q = x, y
                v = {'add': p + q, 'sub': p - q, 'mul': p * q}[op]
                lo, hi = (-(1 << (w-1)), (1 << (w-1)) - 1) if n[1][0] == 's' else (0, mask(w))
                return [v & mask(w), int(not lo <= v <= hi)]
            raise Unsupported('overflow intrinsic')
        if n[1] == 'usub' and n[2] == 'sat':
            w = rt.a
            x, y = vals
            if isconc(x) and isconc(y): return max(0, x - y)
            x, y = bv(x, w), bv(y, w)
            return simp(z3.If(z3.ULT(x, y), z3.BitVecVal(0, w), x - y))
        if n[1] == 'is' and n[2] == 'constant': return 0
        if n[1] == 'objectsize': return mask(rt.a)
        raise Unsupported('intrinsic ' + name)
