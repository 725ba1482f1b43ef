"""Deductive verification of in-place sorting of an unbounded array.

The array is a z3 array of opaque 64-bit elements; its order is an arbitrary strict weak order: x < y iff rank(x) < rank(y) for
an uninterpreted rank.  The contract of a sorting function on [F, L) of an array of N elements:
  sorted       for all i <= j in [F, L): not b[j] < b[i]
  frame        elements outside [F, L) are unchanged
  permutation  for an arbitrary value v, the number of occurrences of v is unchanged (ghost counter, updated at each store)
  accesses     every load and store is inside the array
  termination  every recursive call is on a strictly shorter range (calls of another sorting function on the same range must not
               form a cycle); every loop has a decreasing, bounded variant
Recursive calls are replaced by the contract.  Loops are cut at an invariant found among candidate facts by Houdini iteration
(facts not implied on entry or not preserved by every iteration are discarded until the rest is inductive): orders between the
pointers and indices in scope, bounds of the ranks of segments by the rank of a local element, sortedness of segments,
order between segments, frame, and the counter."""
import z3, itertools, time
import irparse as I, symex as S, loops

Rank = z3.Function('rank', z3.IntSort(), z3.IntSort())
K = z3.Int('k!q'); J = z3.Int('j!q')

def hasq(e, memo={}):
    k = e.get_id()
    if k in memo: return memo[k][1]
    r = z3.is_quantifier(e) or any(hasq(c) for c in e.children())
    memo[k] = (e, r); return r

def sorted_(a, p, q):
    return z3.ForAll([K, J], z3.Implies(z3.And(p <= K, K <= J, J < q), Rank(z3.Select(a, K)) <= Rank(z3.Select(a, J))))
def seg(a, p, q, rel, v):
    r = Rank(z3.Select(a, K)); w = Rank(v)
    g = {'<': r < w, '<=': r <= w, '>=': r >= w, '>': r > w}[rel]
    return z3.ForAll([K], z3.Implies(z3.And(p <= K, K < q), g))
def below(a, p, q, r, s):
    return z3.ForAll([K, J], z3.Implies(z3.And(p <= K, K < q, r <= J, J < s), Rank(z3.Select(a, K)) <= Rank(z3.Select(a, J))))
def frame(a, b, p, q):
    return z3.ForAll([K], z3.Implies(z3.Or(K < p, K >= q), z3.Select(a, K) == z3.Select(b, K)))

def selects(e, acc, seen):
    """index terms at which arrays are read or written in e"""
    k = e.get_id()
    if k in seen: return
    seen.add(k)
    if z3.is_select(e) or z3.is_store(e):
        i = e.arg(1); acc[i.get_id()] = i
    for c in e.children(): selects(c, acc, seen)

def ground_check(base, pc, goal, timeout, rounds=3, extra=()):
    """pc => goal by instantiation of the universal facts at the index terms in sight; unsat is a proof, sat is not a refutation"""
    neg = z3.simplify(z3.Not(goal)) if not z3.is_quantifier(goal) else None
    if neg is None:
        n = goal.num_vars()
        cs = [z3.FreshInt('sk') for _ in range(n)]
        neg = z3.Not(z3.substitute_vars(goal.body(), *reversed(cs)))
        extra = list(extra) + cs
    qs, gr = [], []
    for f in list(base) + list(pc):
        (qs if z3.is_quantifier(f) else gr).append(f)
    if any(hasq(f) for f in gr): return None
    idx = {}; seen = set()
    for f in gr: selects(f, idx, seen)
    selects(neg, idx, seen)
    for x in extra: idx[x.get_id()] = x
    s = z3.Solver(); s.set('timeout', timeout)
    s.add(*gr); s.add(neg)
    done = set()
    for r in range(rounds):
        T = list(idx.values()); new = []
        if len(T) > 60: T = T[:60]
        for q in qs:
            for tup in itertools.product(T, repeat=q.num_vars()):
                k = (q.get_id(),) + tuple(t.get_id() for t in tup)
                if k in done: continue
                done.add(k)
                f = z3.substitute_vars(q.body(), *reversed(tup)); new.append(f)
        s.add(*new)
        c = s.check()
        if c == z3.unsat: return True
        n0 = len(idx)
        for f in new: selects(f, idx, seen)
        if len(idx) == n0: break
    return False

SHORTER = 'recursive call on a strictly shorter range (termination)'
class Ver:
    def __init__(self, mod, fname, sortpat, lesspat, timeout=1500, extended=False):
        self.mod = mod; self.fname = fname; self.drop = set(); self.touched = {}; self.ext = extended
        self.sortpat = sortpat; self.lesspat = lesspat; self.cand_timeout = timeout
    def setup(self):
        con = {}
        import re
        for n in list(self.mod.funcs) + list(self.mod.decls):
            if re.search(self.lesspat, n): con[n] = self.h_less
            elif re.search(self.sortpat, n): con[n] = (lambda e, st, vals, n=n: self.h_sort(e, st, vals, n))
        e = S.Engine(self.mod, contracts=con, timeout_ms=8000, max_paths=300, check_nsw=False)
        self.e = e
        F, L, N = z3.Ints('F L N')
        self.F, self.L, self.N = F, L, N
        e.base = [0 <= F, F <= L, L <= N, N < (1 << 58)]
        st = S.State()
        self.a0 = z3.Array('a0', z3.IntSort(), z3.IntSort())
        self.v = z3.Int('v'); self.c0 = z3.Int('cnt0')
        self.o = e.new_obj(st, 1 << 62, 'arr')
        st.mem[self.o].arr = (8, N, self.a0)
        st.ghost['cnt'] = self.c0
        e.arr_store = self.on_store
        e.loop_handler = self.loop
        e.feasible = lambda s, c: e.check([x for x in s.pc if not hasq(x)] + [c])[0] != z3.unsat
        self.side = []; self.newdrop = 0; self.cuts = {}; self.variants = {}
        less = e.new_obj(st, 8, 'less')
        st.mem[less].cells[0] = (8, 0)
        f = self.mod.funcs[self.fname]
        args = [S.Ptr(self.o, 8 * F), S.Ptr(self.o, 8 * L)] + [S.Ptr(less, 0)] * (len(f.params) - 2)
        e.call_state(self.fname, args, st)
        return st
    def on_store(self, st, oid, i, v):
        a = st.mem[oid].arr[2]
        st.ghost['cnt'] = st.ghost['cnt'] + z3.If(v == self.v, 1, 0) - z3.If(z3.Select(a, i) == self.v, 1, 0)
    # ---- contracts of callees
    def h_less(self, e, st, vals):
        x, y = [e.load_raw(st, p, 8) for p in vals[-2:]]
        if not (S.isint(x) and S.isint(y)): raise I.Unsupported('comparison of %r' % (x,))
        return Rank(x) < Rank(y)
    def h_sort(self, e, st, vals, name):
        p, q = vals[0], vals[1]
        if not (isinstance(p, S.Ptr) and isinstance(q, S.Ptr) and p.o == self.o and q.o == self.o): raise I.Unsupported('sort of another object')
        f, l = e.divlin(e.ioff(p.off), 8), e.divlin(e.ioff(q.off), 8)
        if f is None or l is None: raise I.Unsupported('misaligned range')
        pc = list(st.pc)
        st.obls.append(('recursive call on a range of the array', pc, z3.And(0 <= f, f <= l, l <= self.N)))
        st.obls.append((SHORTER if name == self.fname else ('delegates', name), pc, l - f < self.L - self.F))
        ob = st.wobj(self.o); esz, n, a = ob.arr
        b = e.fresh('b', z3.ArraySort(z3.IntSort(), z3.IntSort()))
        pi = z3.Function('pi!%d' % e.fresh_n, z3.IntSort(), z3.IntSort())
        ob.arr = (esz, n, b)
        st.ghost['calls'] = st.ghost.get('calls', ()) + ((f, l),)
        st.pc += [frame(b, a, f, l), sorted_(b, f, l),
                  z3.ForAll([K], z3.Implies(z3.And(f <= K, K < l), z3.And(f <= pi(K), pi(K) < l, z3.Select(b, K) == z3.Select(a, pi(K)))))]
        return None
    # ---- loops
    def index(self, v):
        if isinstance(v, S.Ptr) and v.o == self.o: return self.e.divlin(self.e.ioff(v.off), 8)
        return None
    def terms(self, st, fr, slots):
        """index terms in scope; slots: name -> value for the loop-carried ones"""
        P = {'F': self.F, 'L': self.L, 'L-1': self.L - 1}
        var = []
        for n, v in slots.items():
            i = self.index(v)
            if i is not None: P[n] = i; var.append(n)
            elif n[0] == 'phi' and (S.isint(v) or S.isconc(v)):
                P[n] = self.F + (z3.IntVal(S.sgn(v, 64)) if S.isconc(v) else v); var.append(n)
        return P, var
    def scope(self, fr, P, phis):
        """further pointers in scope that the loop does not change: name -> index term"""
        have = [z3.simplify(t) for t in P.values()]
        out = {}
        for n, v in fr.env.items():
            if n in phis: continue
            i = self.index(v)
            if i is None: continue
            i = z3.simplify(i)
            if any(i.eq(h) for h in have): continue
            have.append(i); out['env', n] = i
            if len(out) >= 3: break
        return out
    def elems(self, st, fr):
        E = {}
        for oid, ob in st.mem.items():
            if oid == self.o or not ob.live or ob.ro: continue
            for off, (n, v) in ob.cells.items():
                if n == 8 and S.isint(v): E[('cell', oid, off)] = v
        return E
    def cands(self, hk, P, E, a, cnt):
        """name -> formula"""
        C = {}
        names = list(P)
        le = lambda p, q: (hk, ('le', p, q)) not in self.drop
        for p, q in itertools.permutations(names, 2):
            C['le', p, q] = P[p] <= P[q]
            C['lt', p, q] = P[p] < P[q]
        if self.stage == 1: return C
        prs = [(p, q) for p, q in itertools.permutations(names, 2) if le(p, q)]
        for p, q in prs:
            C['sorted', p, q] = sorted_(a, P[p], P[q])
            for en, v in E.items():
                for rel in ('<', '<=', '>=', '>'): C['seg', p, q, rel, en] = seg(a, P[p], P[q], rel, v)
            if self.ext:
                for r, t in prs:
                    if le(q, r): C['below', p, q, r, t] = below(a, P[p], P[q], P[r], P[t])
        for en, v in E.items():
            for p in names: C['at', p, en] = z3.Select(a, P[p]) == v
        C['frame'] = frame(a, self.a0, self.F, self.L)
        C['frame-1'] = frame(a, self.a0, self.F, self.L - 1)
        C['cnt'] = cnt == self.c0
        return C
    def holds(self, pc, g):
        g = z3.simplify(g)
        if z3.is_true(g): return True
        t = time.time()
        r = ground_check(self.e.base, pc, g, self.cand_timeout, rounds=2)
        self.e.solver_time += time.time() - t
        return r is True
    def loop(self, e, st, fr):
        if fr.blk not in loops.headers(e.mod, fr.f): return None
        phis = [i for i in I.func_instrs(e.mod, fr.f, fr.blk) if i.op == 'phi']
        hk = (fr.f.name, fr.blk); key = ('cut', len(st.frames)) + hk
        cells = self.touched.setdefault(hk, set())
        def slots():
            s = {('phi', i.res): fr.env[i.res] for i in phis}
            for oid, off in cells:
                c = st.mem[oid].cells.get(off) if oid in st.mem else None
                if c is not None: s['cell', oid, off] = c[1]
            return s
        pn = [i.res for i in phis]
        def terms(sl, env):
            P, var = self.terms(st, fr, sl)
            P.update(env)
            if self.ext:
                for n in var + list(env): P['+1', n] = P[n] + 1
            return P
        def now(sl, env):
            a = st.mem[self.o].arr[2]
            return self.cands(hk, terms(sl, env), self.elems(st, fr), a, st.ghost['cnt'])
        def snap(): return {oid: dict(o.cells) for oid, o in st.mem.items() if not o.ro and o.live and oid != self.o}
        g = st.ghost.get(key)
        if g is None:
            sl = slots()
            env = self.scope(fr, terms(sl, {}), pn)
            C = now(sl, env)
            keep = []
            for n, gl in C.items():
                if (hk, n) in self.drop: continue
                if self.holds(st.pc, gl): keep.append(n)
                else: self.drop.add((hk, n))
            for n, v in sl.items():
                if isinstance(v, S.Ptr) and v.o == self.o: nv = S.Ptr(self.o, 8 * e.fresh('ix', z3.IntSort()))
                elif S.isint(v) or S.isconc(v):
                    w = next((e.mod.resolve(i.a[0]).a for i in phis if i.res == n[1]), 64) if n[0] == 'phi' else 64
                    nv = e.fresh('li', z3.IntSort()) if w > 1 else e.fresh('lb', z3.BoolSort())
                    if w > 1: st.pc += [nv >= -(1 << (w - 1)), nv < (1 << (w - 1))]
                elif isinstance(v, z3.BoolRef): nv = e.fresh('lb', z3.BoolSort())
                elif isinstance(v, S.Undef): nv = v
                else: raise I.Unsupported('loop-carried %r' % (v,))
                if n[0] == 'phi': fr.env[n[1]] = nv
                else: ob = st.wobj(n[1]); ob.cells[n[2]] = (ob.cells[n[2]][0], nv)
            ob = st.wobj(self.o); ob.arr = ob.arr[:2] + (e.fresh('al', z3.ArraySort(z3.IntSort(), z3.IntSort())),)
            st.ghost['cnt'] = e.fresh('cl', z3.IntSort())
            sl = slots()
            C = now(sl, env)
            st.pc += [C[n] for n in keep if n in C]
            st.ghost[key] = (snap(), keep, terms(sl, env), env)
            self.cuts[hk] = len(keep)
            return None
        old, keep, P0, env = g
        cur = snap()
        for oid, cs in cur.items():
            if oid not in old: continue
            for off in set(cs) | set(old[oid]):
                x, y = old[oid].get(off), cs.get(off)
                if x is None: continue
                if y is None or x[0] != y[0] or not loops.same(x[1], y[1]):
                    if (oid, off) not in cells: cells.add((oid, off)); raise loops.Restart()
        sl = slots()
        C = now(sl, env)
        for n in keep:
            if n in C and self.holds(st.pc, C[n]): continue
            self.drop.add((hk, n)); self.newdrop += 1
        P = terms(sl, env)
        self.variants.setdefault(hk, []).append((list(st.pc), P0, P))
        self.side += st.obls
        return []
    # ---- whole function
    def run(self, limit):
        """-> (list of (label, verdict)) ; verdict True / False / None"""
        t0 = time.time()
        self.stage = 1
        for rnd in range(60):
            if time.time() - t0 > limit: raise S.Bound('invariant search: time limit')
            st = self.setup()
            try: fin = self.e.run(st)
            except loops.Restart: continue
            if self.newdrop == 0:
                if self.stage == 2: break
                self.stage = 2
        else: raise S.Bound('invariant search did not converge')
        e = self.e; self.rounds = rnd + 1
        out = []; seen = set(); self.lens = []; self.delegates = set(); self.exact_fail = False
        def ob(label, pc, goal, cut=False):
            k = (label, tuple(x.get_id() for x in pc), goal.get_id())
            if k in seen: return
            seen.add(k)
            if isinstance(label, tuple):
                # a call of another sorting function: on a shorter range, or on one no longer (those calls must not form a cycle)
                if ground_check(e.base, pc, goal, 20000): out.append((SHORTER, True)); return
                self.delegates.add(label[1]); label = 'delegation on a range no longer than the given one'
                goal = goal.arg(0) <= goal.arg(1)
            if z3.is_true(z3.simplify(goal)): out.append((label, True)); return
            t = time.time()
            if ground_check(e.base, pc, goal, 20000): out.append((label, True)); e.solver_time += time.time() - t; return
            e.solver_time += time.time() - t
            r, sol = e.check(pc + [z3.Not(goal)])
            if r == z3.sat:
                if not cut: self.exact_fail = True
                try: self.lens.append(sol.model().eval(self.L - self.F, model_completion=True).as_long())
                except (z3.Z3Exception, AttributeError): pass
            out.append((label, True if r == z3.unsat else False if r == z3.sat else None))
        iscut = lambda s: any(isinstance(k, tuple) and k[0] == 'cut' for k in s.ghost)
        for s, kind, msg in e.errors:
            r, _ = e.check(s.pc)
            if r == z3.sat and not iscut(s): self.exact_fail = True
            out.append(('%s: %s' % (kind, msg), True if r == z3.unsat else False if r == z3.sat else None))
        for s in fin:
            cut = iscut(s)
            for label, pc, goal in s.obls: ob(label, pc, goal, cut)
            a = s.mem[self.o].arr[2]
            # for arbitrary i <= j in the range, by cases on their positions relative to the ranges of the recursive calls
            i, j = z3.Ints('i!s j!s')
            cases = [[self.F <= i, i <= j, j < self.L]]
            for f, l in s.ghost.get('calls', ()):
                cases = [c + [ci, cj] for c in cases for ci in (i < f, z3.And(f <= i, i < l), i >= l) for cj in (j < f, z3.And(f <= j, j < l), j >= l)]
                cases = [c for c in cases if e.check([x for x in s.pc if not hasq(x)] + c)[0] != z3.unsat]
            for c in cases: ob('the range is sorted', s.pc + c, Rank(z3.Select(a, i)) <= Rank(z3.Select(a, j)), cut)
            ob('nothing outside the range is changed', s.pc, frame(a, self.a0, self.F, self.L), cut)
            ob('every value occurs as often as before', s.pc, s.ghost['cnt'] == self.c0, cut)
        for label, pc, goal in self.side: ob(label, pc, goal, True)
        for hk, paths in self.variants.items():
            ok = False
            for p, q in itertools.permutations(paths[0][1], 2):
                if all(p in P and q in P and self.holds(pc, z3.And(P0[q] - P0[p] > P[q] - P[p], P0[q] - P0[p] >= 0)) for pc, P0, P in paths):
                    ok = True; break
            out.append(('loop terminates (bounded decreasing variant)', True if ok else None))
        self.paths = len(fin)
        if not fin: raise I.Unsupported('no path')
        return out
