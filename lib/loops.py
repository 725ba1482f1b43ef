"""Loop cutting at an invariant.

A Cut is given for a function (regex on its IR name).  When control first reaches a loop header of that function, the values the
loop may change (header phis, and every memory cell that an iteration is found to modify) are replaced by fresh values, about
which only the invariant is assumed; at the next arrival the invariant and the decrease of the variant become obligations and
the path ends.  Which loop-carried value plays which role is read off the values on entry (`roles`: name -> initial term), so the
contract does not name source variables.  Cells found modified only later trigger a restart with a larger havoc set; a cell that
was undefined on entry (a temporary of the body) is undefined again at the header, so that nothing can be assumed about it."""
import re, z3
import symex as S, irparse as I

class Restart(Exception): pass

def headers(mod, f):
    """labels of natural-loop headers of f"""
    h = getattr(f, '_headers', None)
    if h is not None: return h
    succ = {}
    for l in f.blocks:
        t = I.func_instrs(mod, f, l)[-1]
        if t.op == 'br': succ[l] = [t.a[0]]
        elif t.op == 'condbr': succ[l] = [t.a[1], t.a[2]]
        elif t.op == 'switch': succ[l] = [t.a[2]] + [x for _, x in t.a[3]]
        elif t.op == 'call' and t.a[3] is not None: succ[l] = [t.a[3]]
        else: succ[l] = []
    hs = set(); col = {}
    stack = [(f.entry, iter(succ[f.entry]))]; col[f.entry] = 1
    while stack:
        b, it = stack[-1]
        for n in it:
            if col.get(n) == 1: hs.add(n)
            elif n not in col:
                col[n] = 1; stack.append((n, iter(succ[n]))); break
        else:
            col[b] = 2; stack.pop()
    f._headers = hs
    return hs

class Cut:
    """on: regex; roles(x) -> {role: initial BV term (8..64 bit) or int}; inv(x, r) -> [(label, z3 Bool)]; variant(r) -> BV term or None
    x: entry-contract variables, r: role -> term (of the width `width`)"""
    def __init__(self, on, roles, inv, variant=None, optional=None, width=8):
        self.on = re.compile(on); self.roles = roles; self.inv = inv; self.variant = variant; self.optional = optional; self.width = width

def same(a, b):
    if a is b: return True
    if isinstance(a, S.Undef) or isinstance(b, S.Undef): return False
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, S.Ptr) and isinstance(b, S.Ptr): return a.o == b.o and same(a.off, b.off)
    return False

def matches(v, init, w):
    """does the loop-carried value v start as `init` (possibly extended)?"""
    if isinstance(init, int): return isinstance(v, int) and v == init
    if not isinstance(v, z3.BitVecRef): return False
    n, m = v.size(), init.size()
    t = init if n == m else z3.ZeroExt(n - m, init) if n > m else z3.Extract(n - 1, 0, init)
    t, v = z3.simplify(t), z3.simplify(v)
    if t.eq(v): return True
    if z3.is_bv_value(v) or z3.is_const(v) or z3.is_const(t): return False
    s = z3.Solver(); s.set('timeout', 2000); s.add(t != v)
    return s.check() == z3.unsat

class Cutter:
    def __init__(self, e, cuts, xs):
        self.e = e; self.cuts = cuts; self.xs = xs
        self.cells = {}     # (fn, header) -> set of (object, offset)
        self.drop = set()   # optional invariants dropped (Houdini)
        self.side = []      # obligations: (label, pc, goal, kind)
        self.cutted = {}
    def reset(self): self.side = []
    def slotw(self, e, st, fr, s):
        if s[0] == 'phi':
            return next(e.mod.resolve(i.a[0]).a for i in I.func_instrs(e.mod, fr.f, fr.blk) if i.op == 'phi' and i.res == s[1])
        return 8 * st.mem[s[1]].cells[s[2]][0]
    def snapshot(self, st):
        return {oid: dict(o.cells) for oid, o in st.mem.items() if not o.ro and o.live}
    def roleval(self, v, w):
        if isinstance(v, int): return z3.BitVecVal(v & ((1 << w) - 1), w)
        if v.size() == w: return v
        return z3.Extract(w - 1, 0, v) if v.size() > w else z3.ZeroExt(w - v.size(), v)
    def __call__(self, e, st, fr):
        if fr.blk not in headers(e.mod, fr.f): return None
        cut = next((c for c in self.cuts if c.on.search(fr.f.name)), None)
        if cut is None: return None
        key = ('cut', len(st.frames), fr.f.name, fr.blk)
        phis = [i.res for i in I.func_instrs(e.mod, fr.f, fr.blk) if i.op == 'phi']
        hk = (fr.f.name, fr.blk)
        g = st.ghost.get(key)
        if g is None:
            roles = cut.roles(self.xs)
            have = {}      # role -> [('phi', name) | ('cell', oid, off)]
            def assign(slot, v):
                for r, init in roles.items():
                    if matches(v, init, cut.width):
                        have.setdefault(r, []).append(slot); return r
                return None
            slots = {}
            for p in phis: slots[('phi', p)] = fr.env[p]
            for oid, off in self.cells.get(hk, ()):
                c = st.mem[oid].cells.get(off) if oid in st.mem else None
                if c is not None: slots[('cell', oid, off)] = c[1]
            init = {}
            for s, v in slots.items():
                r = assign(s, v)
                if r: init[r] = self.roleval(v, cut.width)
            for r in roles:
                if len(have.get(r, ())) == 0:
                    # a role that no slot plays: its value never changes in the loop
                    iv = roles[r]; init[r] = z3.BitVecVal(iv, cut.width) if isinstance(iv, int) else self.roleval(iv, cut.width)
            for lab, gl in cut.inv(self.xs, init): self.side.append(('invariant on entry: ' + lab, list(st.pc), gl))
            opts = []
            for k, (lab, gl) in enumerate(cut.optional(self.xs, init) if cut.optional else []):
                if (hk, k) in self.drop: continue
                ok, _ = e.check(st.pc + [z3.Not(gl)])
                if ok != z3.unsat: self.drop.add((hk, k)); continue
                opts.append(k)
            # havoc
            cur = dict(init)
            inv_slots = {sl: r for r in have for sl in have[r]}
            fresh = {r: e.fresh('loop_' + r, z3.BitVecSort(min([cut.width] + [self.slotw(e, st, fr, sl) for sl in have[r]]))) for r in have}
            for s, v in slots.items():
                if isinstance(v, int) or isinstance(v, z3.BitVecRef):
                    w = self.slotw(e, st, fr, s)
                    if s in inv_slots:
                        x = fresh[inv_slots[s]]
                        cur[inv_slots[s]] = self.roleval(x, cut.width)
                        nv = x if x.size() == w else z3.ZeroExt(w - x.size(), x)
                    else: nv = e.fresh('loop_v', z3.BitVecSort(w)) if w > 1 else e.fresh('loop_b', z3.BoolSort())
                elif isinstance(v, z3.BoolRef): nv = e.fresh('loop_b', z3.BoolSort())
                elif isinstance(v, S.Undef): nv = S.UNDEF
                else: raise I.Unsupported('loop-carried value %r' % (v,))
                if s[0] == 'phi': fr.env[s[1]] = nv
                else:
                    ob = st.wobj(s[1]); ob.cells[s[2]] = (ob.cells[s[2]][0], nv)
            # temporaries of the body: undefined at the header
            for oid, off in self.cells.get(hk, ()):
                if ('cell', oid, off) not in slots and oid in st.mem: pass
            st.pc += [gl for _, gl in cut.inv(self.xs, cur)]
            if cut.optional: st.pc += [gl for k, (_, gl) in enumerate(cut.optional(self.xs, cur)) if k in opts]
            st.ghost[key] = (self.snapshot(st), inv_slots, cur, opts, init)
            self.cutted[hk] = self.cutted.get(hk, 0) + 1
            return None
        snap, inv_slots, cur, opts, init = g
        # frame condition: nothing else changed
        now = self.snapshot(st); new = set()
        for oid, cells in now.items():
            old = snap.get(oid)
            if old is None: continue
            for off in set(cells) | set(old):
                a, b = old.get(off), cells.get(off)
                if a is None: 
                    if b is not None: continue          # defined only inside the body
                if b is None or not same(a[1], b[1]) or a[0] != b[0]:
                    if (oid, off) not in self.cells.get(hk, set()): new.add((oid, off))
        if new:
            self.cells.setdefault(hk, set()).update(new); raise Restart()
        nxt = dict(init); seen = set()
        for s, r in inv_slots.items():
            v = fr.env[s[1]] if s[0] == 'phi' else st.mem[s[1]].cells[s[2]][1]
            if isinstance(v, S.Undef): raise I.Unsupported('loop role undefined')
            w = v.size() if isinstance(v, z3.BitVecRef) else 64
            if w > cut.width and isinstance(v, z3.BitVecRef):
                self.side.append(('loop-carried %s stays in range' % r, list(st.pc), z3.Extract(w - 1, cut.width, v) == 0))
            v = self.roleval(v, cut.width)
            if r in seen: self.side.append(('copies of %s agree' % r, list(st.pc), nxt[r] == v))
            seen.add(r); nxt[r] = v
        for lab, gl in cut.inv(self.xs, nxt): self.side.append(('invariant preserved: ' + lab, list(st.pc), gl))
        if cut.optional:
            for k, (lab, gl) in enumerate(cut.optional(self.xs, nxt)):
                if k in opts:
                    ok, _ = e.check(st.pc + [z3.Not(gl)])
                    if ok != z3.unsat: self.drop.add((hk, k)); raise Restart()
        if cut.variant is not None:
            self.side.append(('loop terminates (variant decreases)', list(st.pc), z3.ULT(cut.variant(nxt), cut.variant(cur))))
        return []
