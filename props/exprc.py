"""Contracts on the expression builder (expr.hpp) and the reshaping pass (dfa.hpp).

Operands are node sequences of concrete shape whose node contents (operator codes of leaves, checksums, input indices, factors) are
arbitrary machine words: one contract covers every pattern of coincidence among them, and every checksum, colliding ones included.
gal::rat operations are replaced by their contracts (C07/C08): val(a*b) = val(a) val(b), val(a+b) = val(a)+val(b), num = 0 iff val = 0."""
import itertools, random
from fractions import Fraction
import z3
import symex as S
from classb import Fn

W = 64
BV = lambda k: z3.BitVecVal(k, W)
OPS = 'op_id op_cse op_se op_noop op_rev op_pd op_sum op_gp op_ep op_lc op_sip op_comp op_div op_grd op_sqrt op_sin op_cos op_tan'.split()
OP = {n: i for i, n in enumerate(OPS)}
C_ZERO = 1 << 16; C_SCALAR = C_ZERO + 4
VAL = z3.Function('val', z3.BitVecSort(W), z3.RealSort())
PROD = z3.Function('prod', z3.RealSort(), z3.RealSort(), z3.RealSort())
RMUL = z3.Function('rat_mul', z3.BitVecSort(W), z3.BitVecSort(W), z3.BitVecSort(W))
RADD = z3.Function('rat_add', z3.BitVecSort(W), z3.BitVecSort(W), z3.BitVecSort(W))
RDIV = z3.Function('rat_div', z3.BitVecSort(W), z3.BitVecSort(W), z3.BitVecSort(W))
ONE = 1 | (1 << 32)
def num0(q): return z3.Extract(31, 0, q) == 0
def b64(e, st, v):
    if isinstance(v, S.Ptr):
        lo, hi = e.load(st, v, S.I.INT(32)), e.load(st, S.Ptr(v.o, v.off + 4), S.I.INT(32))
        return z3.simplify(z3.Concat(S.bv(hi, 32), S.bv(lo, 32)))
    if isinstance(v, S.Pack): return z3.simplify(z3.Concat(S.bv(v.hi, 32), S.bv(v.lo, 32)))
    return z3.simplify(S.bv(v, 64))
def prod_facts(st, a, b):
    """the product with 1 is the other factor; a product vanishes iff a factor does"""
    p = PROD(a, b)
    st.pc.append(z3.And((p == 0) == z3.Or(a == 0, b == 0), z3.Implies(b == 1, p == a), z3.Implies(a == 1, p == b), p == PROD(b, a)))
def known(st, q):
    st.pc.append(num0(q) == (VAL(q) == 0))
    q = z3.simplify(q)
    if z3.is_bv_value(q) and q.as_long() >> 32 == 1:
        n = q.as_long() & 0xffffffff
        st.pc.append(VAL(q) == (n if n < 1 << 31 else n - (1 << 32)))
def ret(q): return S.Pack(z3.Extract(31, 0, q), z3.Extract(63, 32, q))
def c_mul(e, st, a, b):
    r = z3.simplify(RMUL(a, b))
    for q in (a, b, r): known(st, q)
    prod_facts(st, VAL(a), VAL(b)); st.pc.append(VAL(r) == PROD(VAL(a), VAL(b)))
    return ret(r)
def c_add(e, st, a, b):
    r = z3.simplify(RADD(a, b))
    for q in (a, b, r): known(st, q)
    st.pc.append(VAL(r) == VAL(a) + VAL(b))
    return ret(r)
def c_div(e, st, a, b):
    r = z3.simplify(RDIV(a, b)); st.obls.append(('divisor is not zero', list(st.pc), z3.Not(num0(b))))
    known(st, r)
    return ret(r)
def bin_(f): return lambda e, st, a: f(e, st, b64(e, st, a[0]), b64(e, st, a[1]))
def asg(f):
    def h(e, st, args):
        r = f(e, st, b64(e, st, args[0]), b64(e, st, args[1]))
        e.store(st, args[0], S.I.INT(32), r.lo); e.store(st, S.Ptr(args[0].o, args[0].off + 4), S.I.INT(32), r.hi)
        return args[0]
    return h
RAT = [(r'^_ZN3galplENS_3ratES0_$', bin_(c_add)), (r'^_ZN3galmlENS_3ratES0_$', bin_(c_mul)), (r'^_ZN3galdvENS_3ratES0_$', bin_(c_div)),
       (r'^_ZN3gal3ratpLE', asg(c_add)), (r'^_ZN3gal3ratmLE', asg(c_mul))]
CRCF = z3.Function('crc', z3.BitVecSort(32), z3.BitVecSort(32))
CRC = [(r'^_ZN3gal6detail5crc32Ej$', lambda e, st, a: z3.simplify(CRCF(S.bv(a[0], 32))))]

HEAD = '''
#ifndef EXPRC
#define EXPRC
#include <gal/vga.hpp>
using namespace gal; using namespace gal::detail;
using A_ = gal::vga::vga_algebra; using u = uint64_t;
inline rat rq(u x) { rat r; r.num = static_cast<int32_t>(static_cast<uint32_t>(x)); r.den = static_cast<int32_t>(static_cast<uint32_t>(x >> 32)); return r; }
inline u wq(rat q) { return static_cast<u>(static_cast<uint32_t>(q.num)) | (static_cast<u>(static_cast<uint32_t>(q.den)) << 32); }
inline node nd(u o, u c, u ex, u q) { node n; n.o = static_cast<uint32_t>(o); n.checksum = static_cast<uint32_t>(c); n.ex = ex; n.q = rq(q); return n; }
template <typename R> void dump(u* out, R const& r, unsigned cap)
{
    out[0] = r.count; out[1] = wq(r.q);
    for (width_t i = 0; i != cap; ++i)
    {
        u* w = out + 2 + 4 * i;
        if (i < r.count) { node const& n = r.nodes[i]; w[0] = n.o; w[1] = n.checksum; w[2] = n.ex; w[3] = wq(n.q); }
        else { w[0] = 0; w[1] = 0; w[2] = 0; w[3] = 0; }
    }
}
#endif
'''
def m32(v): return z3.simplify(z3.Concat(z3.BitVecVal(0, 32), z3.Extract(31, 0, v))) if isinstance(v, z3.ExprRef) else v & 0xffffffff
class V_(dict):
    """concrete valuation"""
class Opd:
    """operand: list of nodes; a node is (o, c, ex, q), each a concrete int or None (arbitrary word)"""
    def __init__(self, p, nodes, q=None, kind='plain', parts=None):
        self.p = p; self.nodes = nodes; self.q = q; self.kind = kind; self.parts = parts or []
        self.names = []
        self.w = []
        for i, n in enumerate(nodes):
            row = []
            for f, v in zip('ocxq', n):
                if v is None:
                    nm = '%s%s%d' % (p, f, i); self.names.append(nm); row.append(nm)
                else: row.append(v)
            self.w.append(row)
        if q is None: self.names.append(p + 'Q'); self.qn = p + 'Q'
        else: self.qn = q
    def code(self, var):
        L = ['rpne<A_, %d> %s; %s.count = %d; %s.q = rq(%s);' % (max(1, len(self.nodes)), var, var, len(self.nodes), var, '%sull' % self.qn if isinstance(self.qn, int) else self.qn)]
        for i, row in enumerate(self.w):
            L.append('%s.nodes[%d] = nd(%s);' % (var, i, ', '.join(x if isinstance(x, str) else '%dull' % x for x in row)))
        return ' '.join(L)
    def val(self, x, n): return x[n] if isinstance(n, str) else (BV(n) if not isinstance(x, V_) else n)
    def rows(self, x): return [[m32(self.val(x, c)) if k < 2 else self.val(x, c) for k, c in enumerate(row)] for row in self.w]
    def Q(self, x): return self.val(x, self.qn)
    def pre(self, x):
        out = []
        for row in self.w:
            if isinstance(row[3], str): out.append(den_ok(x[row[3]]))
        if isinstance(self.qn, str): out.append(den_ok(x[self.qn]))
        return out
def den_ok(q): return z3.Extract(63, 32, q) > 0
def plain(p, n, q=None, ex=None):
    """n arbitrary nodes"""
    return Opd(p, [(None, None, ex, 0) for _ in range(n)], q)
def summed(p, lens, q=None):
    nodes = []; parts = []
    for l in lens:
        nodes.append((OP['op_se'], None, l, None)); parts.append((len(nodes) - 1, len(nodes), l))
        nodes += [(None, None, None, 0) for _ in range(l)]
    nodes.append((OP['op_sum'], None, len(lens), (len(nodes) + 1) << 32))
    return Opd(p, nodes, q, 'sum', parts)
def wedged(p, lens, q=None, ex=None):
    nodes = []; parts = []
    for l in lens:
        nodes.append((OP['op_se'], None, l, 1 << 32)); parts.append((len(nodes) - 1, len(nodes), l))
        nodes += [(None, None, ex, 0) for _ in range(l)]
    nodes.append((OP['op_ep'], None, len(lens), (len(nodes) + 1) << 32))
    return Opd(p, nodes, q, 'ep', parts)
def not_op(x, o, *ops):
    if not o.w: return []
    k = o.w[-1][0]
    return [z3.Extract(31, 0, x[k]) != OP[p] for p in ops] if isinstance(k, str) else []

def dec(o, cap):
    """(count, q, rows) of a dumped expression; the count must be concrete on the path"""
    c = o['n']
    if isinstance(c, z3.ExprRef):
        c = z3.simplify(c)
        if not z3.is_bv_value(c): raise S.Unsupported('length of the result')
        c = c.as_long()
    return c, o['q'], [[o['%s%d' % (f, i)] for f in 'ocxq'] for i in range(min(c, cap))]
FACTS = []
def conc(v):
    if isinstance(v, int): return v
    v = z3.simplify(v)
    while z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = v.children()
        for k, w in ((z3.Not(c), a), (c, b)):
            s = z3.Solver(); s.set('timeout', 3000); s.add(*FACTS); s.add(k)
            if s.check() == z3.unsat: v = z3.simplify(w); break
        else: break
    if not z3.is_bv_value(v): raise S.Unsupported('structure of the result')
    return v.as_long()
def outs(cap): return ['n', 'q'] + ['%s%d' % (f, i) for i in range(cap) for f in 'ocxq']

# ---- semantic posts: evaluated over z3 (all inputs) and over Python numbers (replay)
def frac(q):
    n, d = q & 0xffffffff, q >> 32 & 0xffffffff
    n = n if n < 1 << 31 else n - (1 << 32); d = d if d < 1 << 31 else d - (1 << 32)
    return Fraction(n, d) if d else Fraction(0)
def coef_of(rows, q, isum, N, Z):
    """coefficient of the node sequence N in the expression (rows, q)"""
    same = lambda seg: (z3.And([a == b for r, s in zip(seg, N) for a, b in zip(r, s)]) if Z else all(a == b for r, s in zip(seg, N) for a, b in zip(r, s))) if len(seg) == len(N) else (z3.BoolVal(False) if Z else False)
    val = VAL if Z else frac
    mul = (lambda a, b: PROD(a, b)) if Z else (lambda a, b: a * b)
    ite = (lambda c, a: z3.If(c, a, z3.RealVal(0))) if Z else (lambda c, a: a if c else 0)
    if not rows: return z3.RealVal(0) if Z else 0
    if not isum: return ite(same(rows), val(q))
    t = []; i = 0
    while i < len(rows) - 1:
        l = conc(rows[i][2])
        t.append(ite(same(rows[i + 1:i + 1 + l]), mul(val(rows[i][3]), val(q)))); i += 1 + l
    return z3.Sum(t) if Z else sum(t)
def segs(rows, isum):
    """summands (node sequences) of an expression"""
    if not rows: return []
    if not isum: return [rows]
    out = []; i = 0
    while i < len(rows) - 1:
        k = conc(rows[i][2]); out.append(rows[i + 1:i + 1 + k]); i += 1 + k
    return out
def eqseg(a, b): return z3.And([p == q for r, s in zip(a, b) for p, q in zip(r, s)]) if len(a) == len(b) else z3.BoolVal(False)
def sum_fn(l, r, tag, sub=False):
    cap = len(l.nodes) + len(r.nodes) + 3
    ins = l.names + r.names
    code = l.code('l') + ' ' + r.code('r') + ' auto s = l %s r; dump(out, s, %d);' % ('-' if sub else '+', cap)
    def isz(o): return o.kind == 'sum'
    sg = -1 if sub else 1
    def pre(x):
        P = l.pre(x) + r.pre(x)
        for o in (l, r):
            if not isz(o): P += not_op(x, o, 'op_sum')
            for i, _, _ in o.parts: P.append(z3.Not(num0(o.rows(x)[i][3])))
        # facts about the contracts' functions at the points used here
        for o in (l, r):
            q = VAL(o.Q(x)); P.append(num0(o.Q(x)) == (q == 0))
            for i, _, _ in o.parts:
                s = VAL(o.rows(x)[i][3])
                P += [s != 0, (PROD(s, q) == 0) == (q == 0), PROD(s, q) == PROD(q, s), z3.Implies(q == 1, PROD(s, q) == s), PROD(s, -q) == -PROD(s, q)]
            P += [PROD(q, z3.RealVal(-1)) == -q, VAL(BV(0x1ffffffff)) == -1]
        P.append(VAL(BV(ONE)) == 1)
        return P
    def post(x, o):
        FACTS[:] = pre(x)
        c, q, rows = dec(o, cap)
        if c > cap: return [('length within the capacity', z3.BoolVal(False))]
        isum = bool(rows) and conc_op(rows[-1][0]) == OP['op_sum']
        G = []; F = [VAL(BV(ONE)) == 1]
        if isum:
            i = 0
            while i < len(rows) - 1:
                k = conc(rows[i][2]); s = VAL(rows[i][3])
                F += [z3.Implies(VAL(q) == 1, PROD(s, VAL(q)) == s), num0(rows[i][3]) == (s == 0), PROD(s, -VAL(q)) == -PROD(s, VAL(q))]
                G.append(('summand has a factor', z3.Or(num0(q), z3.Not(num0(rows[i][3]))))); i += 1 + k
            G.append(('arity', z3.BoolVal(conc(rows[-1][2]) == nsum(rows))))
        A = segs(l.rows(x), isz(l)) + segs(r.rows(x), isz(r))
        for k, n in enumerate(A):
            g = coef_of(rows, q, isum, n, True) == coef_of(l.rows(x), l.Q(x), isz(l), n, True) + sg * coef_of(r.rows(x), r.Q(x), isz(r), n, True)
            G.append(('coefficient of summand %d' % k, z3.Implies(z3.And(F), g)))
        for n in segs(rows, isum):
            G.append(('every summand is one of the operands', z3.Or([eqseg(n, a) for a in A])))
        return G
    def pypost(p, o):
        x = V_(zip(ins, p)); o = dict(zip(outs(cap), o))
        c, q, rows = dec(o, cap)
        if c > cap: return 'length within the capacity'
        isum = bool(rows) and rows[-1][0] == OP['op_sum']
        for n in segs(l.rows(x), isz(l)) + segs(r.rows(x), isz(r)) + segs(rows, isum):
            if coef_of(rows, q, isum, n, False) != coef_of(l.rows(x), l.Q(x), isz(l), n, False) + sg * coef_of(r.rows(x), r.Q(x), isz(r), n, False):
                return 'coefficient of summand %s' % n
    return mk('sum: %s' % tag, ins, cap, code, pre, post, pypost, 'gal::operator%s(rpne, rpne)' % ('-' if sub else '+'), [l, r], nos=('op_sum',))
def nsum(rows):
    i = n = 0
    while i < len(rows) - 1: i += 1 + conc(rows[i][2]); n += 1
    return n
def conc_op(v):
    """operator code if concrete, else None (a copied leaf)"""
    if isinstance(v, int): return v
    v = z3.simplify(v)
    return v.as_long() if z3.is_bv_value(v) else None
POOLQ = [1 | 1 << 32, 2 | 1 << 32, 0xffffffff | 1 << 32, 1 | 2 << 32, 3 | 1 << 32, 0xfffffffe | 1 << 32, 0 | 1 << 32, 0xffffffff | 2 << 32, 1 | 3 << 32]
def pypre(opds, ins, nz, nos):
    def f(pt):
        x = V_(zip(ins, pt))
        for o in opds:
            R = o.rows(x)
            if any(frac(R[i][3]) == 0 for i, _, _ in o.parts if o.kind == 'sum'): return False
            if o.kind == 'plain' and R and R[-1][0] in [OP[k] for k in nos]: return False
        for n in ins:
            if n.endswith('Q') or n[1:2] == 'q':
                if not 0 < pt[ins.index(n)] >> 32 < 1 << 31: return False
        return all(frac(x[n]) != 0 for n in nz)
    return f
def mk(name, ins, cap, code, pre, post, pypost, on, opds, callees=None, nz=(), nos=(), **kw):
    kw_nz = nz
    def sample(rg):
        kind = {}
        for o in opds:
            for row in o.w:
                for f, v in zip('ocxq', row):
                    if isinstance(v, str): kind[v] = f
            if isinstance(o.qn, str): kind[o.qn] = 'Q'
        k = rg.choice([1, 2, 2, 3])
        out = []
        for n in ins:
            f = kind.get(n, 'x')
            if f in 'qQ': out.append(rg.choice(POOLQ))
            elif f == 'o': out.append(rg.choice([0, 7, C_SCALAR, OP['op_rev']][:k + 1]))
            elif f == 'c': out.append(rg.choice([5, 37, 6][:k]))
            else: out.append(rg.choice([0, 1, 2][:k]))
        return out
    f = Fn(name, ins, outs(cap), code, pre=pre, post=post, kind='u64', mode='bv', on=on, incl=('vga',), head=HEAD, callees=callees if callees is not None else RAT + CRC, pypost=pypost,
           sample=sample, group=kw.pop('group', None), paths=kw.pop('paths', 3000), timeout=kw.pop('timeout', 10000), **kw)
    f.pypre = pypre(opds, ins, kw_nz, nos)
    f.layer = True; f.tactic = ('simplify', 'propagate-values', 'solve-eqs', 'smt')
    return f
def sums(big=False):
    L = []
    P = plain
    for i, j in ((1, 1), (2, 2), (1, 2), (0, 1), (1, 0), (0, 0), (2, 1), (3, 3)):
        L.append(sum_fn(P('l', i), P('r', j), '%d + %d nodes' % (i, j)))
    for lens in ([1, 1], [1, 2], [2, 1], [2, 2], [1, 1, 1], [1, 2, 1]):
        for k in (1, 2):
            L.append(sum_fn(summed('l', lens), P('r', k), 'sum%s + %d nodes' % (lens, k)))
            L.append(sum_fn(P('l', k), summed('r', lens), '%d nodes + sum%s' % (k, lens)))
    for a in ([1, 1], [1, 2]):
        for b in ([1, 1], [2, 1]): L.append(sum_fn(summed('l', a), summed('r', b), 'sum%s + sum%s' % (a, b)))
    L.append(sum_fn(summed('l', [1, 1]), P('r', 0), 'sum[1, 1] + 0'))
    L.append(sum_fn(summed('l', [1, 1, 1]), summed('r', [1, 1]), 'sum[1, 1, 1] + sum[1, 1]'))
    if big:
        for a, b in (([1, 1, 1], [1, 1, 1]), ([1, 2, 1], [2, 1, 1]), ([1, 1, 1, 1], [1, 1])): L.append(sum_fn(summed('l', a), summed('r', b), 'sum%s + sum%s' % (a, b)))
        for a in ([1, 1, 1, 1], [2, 1, 2], [3, 3]):
            for k in (1, 2, 3): L += [sum_fn(summed('l', a), P('r', k), 'sum%s + %d nodes' % (a, k)), sum_fn(P('l', k), summed('r', a), '%d nodes + sum%s' % (k, a))]
    L.append(sum_fn(P('l', 1), P('r', 1), '1 - 1 nodes', True))
    L.append(sum_fn(summed('l', [1, 1]), P('r', 1), 'sum[1, 1] - 1 nodes', True))
    L.append(sum_fn(P('l', 1), summed('r', [1, 1]), '1 nodes - sum[1, 1]', True))
    L.append(sum_fn(summed('l', [1, 1]), summed('r', [1, 1]), 'sum[1, 1] - sum[1, 1]', True))
    return L

# ---- operators that build one node
def is_zero(rows, q, Z): return (z3.BoolVal(True) if Z else True) if not rows else (num0(q) if Z else frac(q) == 0)
def all_(cs, Z): return z3.And(cs) if Z else all(cs)
def rows_eq(rows, exp, Z):
    """exp: rows with None for unspecified words"""
    if len(rows) != len(exp): return z3.BoolVal(False) if Z else False
    c = []
    for r, e in zip(rows, exp):
        for a, b in zip(r, e):
            if b is None: continue
            if isinstance(b, Fraction): c.append(frac(a) == b); continue
            c.append(a == (BV(b) if Z and isinstance(b, int) else b))
    return all_(c, Z)
def new(op, ex=0, q=0): return [OP[op], None, ex, q]
def op_fn(name, opds, expr, cap, spec, on, extra=None, prex=None, **kw):
    """spec(x, Z) -> list of alternatives (condition, expected) where expected is None (exactly zero) or (rows, factor)"""
    ins = [n for o in opds for n in o.names] + list(extra or [])
    code = ' '.join(o.code(chr(ord('l') + i)) for i, o in enumerate(opds)) + ' ' + expr + ' dump(out, s, %d);' % cap
    def pre(x):
        P = []
        for o in opds:
            P += o.pre(x); q = VAL(o.Q(x)); P.append(num0(o.Q(x)) == (q == 0))
        P += [VAL(BV(ONE)) == 1, VAL(BV(0x1ffffffff)) == -1]
        if prex: P += prex(x)
        return P
    def goal(x, o, Z):
        c, q, rows = dec(o, cap)
        if c > cap: return z3.BoolVal(False) if Z else False
        out = []
        for cond, e in spec(x, Z):
            g = is_zero(rows, q, Z) if e is None else all_([rows_eq(rows, e[0], Z), (VAL(q) if Z else frac(q)) == e[1]], Z)
            out.append(z3.Implies(cond if isinstance(cond, z3.ExprRef) else z3.BoolVal(bool(cond)), g) if Z else (g or not cond))
        return all_(out, Z)
    def post(x, o):
        FACTS[:] = pre(x)
        return [('result', goal(x, o, True))]
    def pypost(p, o):
        x = dict(zip(ins, p)); x = V_(x)
        if not goal(x, dict(zip(outs(cap), o)), False): return 'result differs from the specified node sequence'
    return mk(name, ins, cap, code, pre, post, pypost, on, opds, **kw)
def vq(x, o, Z): return VAL(o.Q(x)) if Z else frac(o.Q(x))
def mul(a, b, Z): return PROD(a, b) if Z else a * b
def seq(sym, name, i, j):
    l, r = plain('l', i), plain('r', j)
    def spec(x, Z):
        if not i or not j: return [(True, None)]
        zl, zr = vq(x, l, Z) == 0, vq(x, r, Z) == 0
        z = z3.Or(zl, zr) if Z else zl or zr
        return [(z, None), (z3.Not(z) if Z else not z, (l.rows(x) + r.rows(x) + [new(name)], mul(vq(x, l, Z), vq(x, r, Z), Z)))]
    return op_fn('%s of %d and %d nodes' % (name, i, j), [l, r], 'auto s = l %s m;' % sym, i + j + 1, spec, 'gal::operator%s(rpne, rpne)' % sym)
def wedge(a, b, ex=0):
    """a, b: ints (plain) or lists of factor lengths"""
    # the hash of an exterior product walks over the node lengths: they are concrete here, every other word is arbitrary
    def opd(p, k): return wedged(p, k, ex=ex) if isinstance(k, list) else plain(p, k, ex=ex)
    l, r = opd('l', a), opd('r', b)
    def fac(x, o):
        R = o.rows(x)
        if o.kind != 'ep': return [new('op_se', len(R), None)] + R
        return R[:-1]
    nf = sum(len(k) if isinstance(k, list) else 1 for k in (a, b))
    cap = len(l.nodes) + len(r.nodes) + 3
    def prex(x):
        P = []
        for o in (l, r):
            if o.kind != 'ep': P += not_op(x, o, 'op_ep')
        return P
    def spec(x, Z):
        if not l.nodes or not r.nodes: return [(True, None)]
        zl, zr = vq(x, l, Z) == 0, vq(x, r, Z) == 0
        z = z3.Or(zl, zr) if Z else zl or zr
        F = fac(x, l) + fac(x, r)
        rows = [[f[0], f[1], f[2], None if (f[0] == OP['op_se'] if isinstance(f[0], int) else z3.is_bv_value(f[0]) and f[0].as_long() == OP['op_se']) else f[3]] for f in F]
        return [(z, None), (z3.Not(z) if Z else not z, (rows + [[OP['op_ep'], None, nf, None]], mul(vq(x, l, Z), vq(x, r, Z), Z)))]
    f = op_fn('exterior product of %s and %s (input %d)' % (a, b, ex), [l, r], 'auto s = l ^ m;', cap, spec, 'gal::operator^(rpne, rpne)', prex=prex, nos=('op_ep',))
    return f
def unary(name, expr, n, spec, on, extra=None, prex=None):
    l = plain('l', n)
    return op_fn('%s of %d nodes' % (name, n), [l], expr, n + 2, lambda x, Z: spec(l, x, Z), on, extra, prex)
def negate_q(l, x, Z): return -vq(x, l, Z)
def unaries():
    L = []
    def tail(op, ex=None, lq=None):
        def spec(l, x, Z):
            if not l.nodes: return [(True, None)]
            return [(True, (l.rows(x) + [new(op, ex(x) if ex else 0)], vq(x, l, Z)))]
        return spec
    def rev(l, x, Z):
        if not l.nodes: return [(True, None)]
        R = l.rows(x); dbl = R[-1][0] == OP['op_rev']
        return [(dbl, (R[:-1], vq(x, l, Z))), (z3.Not(dbl) if Z else not dbl, (R + [new('op_rev')], vq(x, l, Z)))]
    def neg(l, x, Z): return [(True, (l.rows(x), -vq(x, l, Z)) if l.nodes else None)]
    def fn(op):
        def spec(l, x, Z):
            if not l.nodes: return [(True, None)]
            z = vq(x, l, Z) == 0
            return [(z, None), (z3.Not(z) if Z else not z, (l.rows(x) + [new(op, 0, l.Q(x))], 1))]
        return spec
    def cosf(l, x, Z):
        one = ([[C_SCALAR, None, 0, 0]], 1)
        if not l.nodes: return [(True, one)]
        z = vq(x, l, Z) == 0
        return [(z, one), (z3.Not(z) if Z else not z, (l.rows(x) + [new('op_cos', 0, l.Q(x))], 1))]
    def negp(x): return [PROD(VAL(x['lQ']), z3.RealVal(-1)) == -VAL(x['lQ'])]
    EX = [('component', 'e', 'auto s = l[static_cast<elem_t>(e)];', tail('op_comp', lambda x: b8(x['e'])), 'rpne::operator[]'),
          ('grade', 'e', 'auto s = l.select_grade(static_cast<elem_t>(e));', tail('op_grd', lambda x: b8(x['e'])), 'rpne::select_grade')]
    for n in (0, 1, 2, 3):
        L.append(unary('reversion', 'auto s = ~l;', n, rev, 'gal::operator~(rpne)'))
        L.append(unary('dual', 'auto s = !l;', n, tail('op_pd'), 'gal::operator!(rpne)'))
        L.append(unary('negation', 'auto s = -l;', n, neg, 'gal::operator-(rpne)', prex=negp))
        for o in ('sqrt', 'sin', 'tan'): L.append(unary(o, 'auto s = gal::%s(l);' % o, n, fn('op_' + o), 'gal::%s(rpne)' % o))
        L.append(unary('cos', 'auto s = gal::cos(l);', n, cosf, 'gal::cos(rpne)'))
        for nm, v, ex, sp, on in EX: L.append(unary(nm, ex, n, sp, on, extra=[v]))
    return L
def b8(v): return z3.ZeroExt(56, z3.Extract(7, 0, v)) if isinstance(v, z3.ExprRef) else v & 255
def quotients():
    L = []
    for i, j in ((1, 1), (2, 1), (1, 2), (2, 3), (0, 1)):
        l, r = plain('l', i), plain('r', j)
        def spec(x, Z, l=l, r=r):
            if not l.nodes: return [(True, None)]
            z = vq(x, l, Z) == 0
            q = RDIV(l.Q(x), r.Q(x)) if Z else Fraction(vq(x, l, Z)) / (vq(x, r, Z) or 1)
            rows = l.rows(x) + r.rows(x) + [new('op_div', 0, q)]
            return [(z, None), (z3.Not(z) if Z else not z, (rows, 1))]
        L.append(op_fn('quotient of %d and %d nodes' % (i, j), [l, r], 'auto s = l / m;', i + j + 1, spec, 'gal::operator/(rpne, rpne)', prex=lambda x, r=r: [z3.Not(num0(r.Q(x)))], nz=['rQ']))
    for n in (1, 2):
        l = plain('l', n)
        def spec(x, Z, l=l):
            k = 3 | 1 << 32
            q = RDIV(BV(k), l.Q(x)) if Z else Fraction(3) / (vq(x, l, Z) or 1)
            return [(True, ([[C_SCALAR, None, 0, 0]] + l.rows(x) + [new('op_div', 0, q)], 1))]
        L.append(op_fn('3 / %d nodes' % n, [l], 'auto s = 3 / l;', n + 2, spec, 'gal::operator/(int, rpne)', prex=lambda x, l=l: [z3.Not(num0(l.Q(x)))], nz=['lQ']))
    for n in (0, 1, 2):
        for k in (0, 1, 3, -2):
            l = plain('l', n)
            def spec(x, Z, l=l, k=k):
                if not l.nodes or k == 0: return [(True, None)]
                return [(True, (l.rows(x), mul(vq(x, l, Z), z3.RealVal(k) if Z else k, Z)))]
            L.append(op_fn('%d * %d nodes' % (k, n), [l], 'auto s = %d * l;' % k, n, spec, 'gal::operator*(int, rpne)', prex=lambda x, l=l, k=k: [VAL(BV((k & 0xffffffff) | 1 << 32)) == k]))
    return L
def products():
    L = []
    for sym, op in (('*', 'op_gp'), ('>>', 'op_lc'), ('|', 'op_sip')):
        for i, j in ((1, 1), (2, 1), (1, 2), (2, 2), (0, 1), (1, 0), (3, 2)): L.append(seq(sym, op, i, j))
    for a in (0, 1, 2, [1, 1], [1, 2], [2, 1], [1, 1, 1]):
        for b in (0, 1, 2, [1, 1], [2, 1]): L.append(wedge(a, b, (len(L) * 7) % 3))
    for i, j in ((1, 1), (2, 1), (1, 2), (2, 2), (0, 1), (1, 0)):
        l, r = plain('l', i), plain('r', j)
        def pre(x, l=l, r=r): return l.pre(x) + r.pre(x)
        ins = l.names + r.names; cap = i + j + 2
        def goal(x, o, Z, l=l, r=r, cap=cap):
            c, q, rows = dec(o, cap)
            if not l.nodes or not r.nodes: return is_zero(rows, q, Z)
            a, b = vq(x, l, Z), vq(x, r, Z)
            z = z3.Or(a == 0, b == 0) if Z else a == 0 or b == 0
            T = [new('op_sip'), new('op_comp')]
            g1, g2 = rows_eq(rows, l.rows(x) + r.rows(x) + T, Z), rows_eq(rows, r.rows(x) + l.rows(x) + T, Z)
            v = (VAL(q) == PROD(a, b)) if Z else frac(q) == a * b
            if Z: return z3.And(z3.Implies(z, is_zero(rows, q, Z)), z3.Implies(z3.Not(z), z3.And(z3.Or(g1, g2), v)))
            return is_zero(rows, q, Z) if z else (g1 or g2) and v
        def post(x, o, goal=goal, pre=pre): FACTS[:] = pre(x); return [('result', goal(x, o, True))]
        def pypost(p, o, goal=goal, ins=ins, cap=cap):
            if not goal(V_(zip(ins, p)), dict(zip(outs(cap), o)), False): return 'scalar product'
        L.append(mk('scalar product of %d and %d nodes' % (i, j), ins, cap, l.code('l') + ' ' + r.code('m') + ' auto s = scalar_product(l, m); dump(out, s, %d);' % cap,
                    lambda x, pre=pre, l=l, r=r: pre(x) + [num0(o.Q(x)) == (VAL(o.Q(x)) == 0) for o in (l, r)], post, pypost, 'gal::scalar_product(rpne, rpne)', [l, r]))
    return L

def identity():
    """two nodes are equal iff all their words are; two expressions are equal iff their node sequences are"""
    L = []
    n = ['%s%s' % (p, f) for p in 'ab' for f in 'ocxq']
    def post(x, o):
        eq = z3.And([m32(x['a' + f]) == m32(x['b' + f]) if f in 'oc' else x['a' + f] == x['b' + f] for f in 'ocxq'])
        return [('equality', (o['e'] == 1) == eq), ('inequality', (o['n'] == 1) == z3.Not(eq))]
    def smp(rg): return [rg.choice([0, 1, 7]) if f in 'ocx' else rg.choice(POOLQ[:4]) for p in 'ab' for f in 'ocxq'] if rg.random() < .5 else (lambda v: [v[i] ^ (1 if rg.random() < .12 else 0) for i in list(range(4)) * 2])([rg.randint(0, 9), rg.randint(0, 9), rg.randint(0, 9), 1 << 32 | 1])
    f = Fn('node equality', n, ['e', 'n'], 'node a = nd(ao, ac, ax, aq), b = nd(bo, bc, bx, bq); out[0] = a == b; out[1] = a != b;', pre=lambda x: [], post=post, kind='u64', mode='bv', on='gal::detail::node::operator==', incl=('vga',), head=HEAD, callees=[], sample=smp)
    f.layer = True; L.append(f)
    for i, j in ((1, 1), (2, 2), (3, 3), (1, 2)):
        l, r = plain('l', i), plain('r', j)
        ins = l.names + r.names
        def post(x, o, l=l, r=r): return [('equality', (o['e'] == 1) == eqseg(l.rows(x), r.rows(x)))]
        def smp(rg, ins=ins): k = rg.choice([1, 2]); return [rg.choice(POOLQ[:2]) if 'Q' in n or n[1] == 'q' else rg.randrange(k) for n in ins]
        f = Fn('equality of %d and %d nodes' % (i, j), ins, ['e'], l.code('l') + ' ' + r.code('m') + ' out[0] = l == m;', pre=lambda x, l=l, r=r: l.pre(x) + r.pre(x), post=post, kind='u64', mode='bv', on='gal::detail::rpne::operator==', incl=('vga',), head=HEAD, callees=[], sample=smp)
        f.layer = True; f.tactic = ('simplify', 'propagate-values', 'solve-eqs', 'smt'); L.append(f)
    return L

# ---- reshaping: the reshaped expression denotes the same term
UN = {'rev': 'op_rev', 'pd': 'op_pd', 'comp': 'op_comp', 'grd': 'op_grd', 'sqrt': 'op_sqrt', 'sin': 'op_sin', 'cos': 'op_cos', 'tan': 'op_tan'}
BIN = {'gp': 'op_gp', 'lc': 'op_lc', 'sip': 'op_sip', 'div': 'op_div'}
FUN = ('op_sqrt', 'op_sin', 'op_cos', 'op_tan', 'op_div')
def flat(t):
    """node list of a term: 'x' leaf; (op, t...) ; ('sum'|'ep', t...); ('res', t...) several results"""
    if t == 'x': return [(OP['op_id'], None, None, 0)]
    if t == 'k': return [(C_SCALAR + 1, C_SCALAR + 1, 0, 0)]
    h, a = t[0], t[1:]
    if h in UN: return flat(a[0]) + [(OP[UN[h]], None, None if h in ('comp', 'grd') else 0, None if UN[h] in FUN else 0)]
    if h in BIN: return flat(a[0]) + flat(a[1]) + [(OP[BIN[h]], None, 0, None if h == 'div' else 0)]
    L = []
    for s in a:
        f = flat(s); L += [(OP['op_se'], 0 if h == 'res' else None, len(f), 1 << 32 if h == 'ep' else None)] + f
    if h != 'res': L.append((OP['op_' + h], None, len(a), (len(L) + 1) << 32))
    return L
class Bad(Exception): pass
NAMES = {v: k for k, v in OP.items()}
def terms(rows, reshaped):
    """interpret a node list: (results, temporaries); a term is (head, words, args)"""
    temps = []; pos = [0]
    def run(lo, hi):
        st = []; i = lo
        while i < hi:
            o, c, ex, q = rows[i]; k = conc(o)
            n = NAMES.get(k) if k < 1 << 16 else None
            if n == 'op_id' or n is None: st.append((('leaf', k), (c, ex) if n == 'op_id' else (), (), True)); i += 1
            elif n == 'op_cse':
                j = conc(ex)
                if not reshaped or j >= len(temps): raise Bad('temporary used before it is computed')
                t = temps[j]; st.append(t[:3] + (True,)); i += 1
            elif n == 'op_noop':
                if len(st) != 1 or not reshaped or hi != len(rows): raise Bad('temporary')
                temps.append(st.pop()); i += 1
            elif n == 'op_se':
                l = conc(ex)
                if l <= 0 or i + 1 + l > hi: raise Bad('length of a subexpression')
                s = run(i + 1, i + 1 + l)
                if len(s) != 1: raise Bad('subexpression')
                st.append((('se',), (q,), (s[0],), False)); i += 1 + l
            elif n in ('op_sum', 'op_ep'):
                m = conc(ex)
                if m > len(st) or m <= 0: raise Bad('operands')
                a = st[-m:]; del st[-m:]
                if any(z[0][0] != 'se' for z in a): raise Bad('operands of a sum')
                st.append(((n,), (), tuple(a), False)); i += 1
            elif n in ('op_gp', 'op_lc', 'op_sip', 'op_div'):
                if len(st) < 2: raise Bad('operands')
                b = st.pop(); a = st.pop()
                if n == 'op_div' and reshaped and not b[3]: raise Bad('a divisor is not a temporary')
                st.append(((n,), (q,) if n == 'op_div' else (), (a, b), False)); i += 1
                if n == 'op_div' and reshaped and (i >= hi or NAMES.get(conc(rows[i][0])) != 'op_noop'): raise Bad('a quotient is not a temporary')
            else:
                if not st: raise Bad('operand')
                a = st.pop()
                w = (ex,) if n in ('op_comp', 'op_grd') else (q,) if n in FUN else ()
                if n in FUN and reshaped and not a[3]: raise Bad('a function argument is not a temporary')
                st.append(((n,), w, (a,), a[3] if n in ('op_comp', 'op_grd', 'op_rev', 'op_pd') else False)); i += 1
                if n in FUN and reshaped and (i >= hi or NAMES.get(conc(rows[i][0])) != 'op_noop'): raise Bad('a function value is not a temporary')
        if i != hi: raise Bad('length of a subexpression')
        return st
    return run(0, len(rows))
def teq(a, b, out):
    """collects the word equalities under which two terms coincide"""
    if a[0] != b[0] or len(a[2]) != len(b[2]): raise Bad('operators differ: %s / %s' % (a[0], b[0]))
    out += list(zip(a[1], b[1]))
    for s, t in zip(a[2], b[2]): teq(s, t, out)
def show(t): return t if isinstance(t, str) else '%s(%s)' % (t[0], ', '.join(map(show, t[1:])))
def flatc(t):
    """as flat, with a checksum that is a function of the shape (subterms of one shape all collide)"""
    num = {}
    def ck(k): return num.setdefault(k, len(num) + 1)
    def go(t):
        if t == 'x': return [(OP['op_id'], None, 0, 0)]
        if t == 'k': return flat(t)
        h, a = t[0], t[1:]
        if h in UN: return go(a[0]) + [(OP[UN[h]], ck(t), None if h in ('comp', 'grd') else 0, None if UN[h] in FUN else 0)]
        if h in BIN: return go(a[0]) + go(a[1]) + [(OP[BIN[h]], ck(t), 0, None if h == 'div' else 0)]
        L = []
        for s in a:
            f = go(s); L += [(OP['op_se'], 0 if h == 'res' else ck(('se', s)), len(f), 1 << 32 if h == 'ep' else None)] + f
        if h != 'res': L.append((OP['op_' + h], ck(t), len(a), (len(L) + 1) << 32))
        return L
    return go(t)
def size(t): return 1 if isinstance(t, str) else 1 + sum(size(a) + (t[0] in ('sum', 'ep', 'res')) for a in t[1:])
BELL = [1, 1, 2, 5, 15, 52, 203, 877, 4140]
def cost(t):
    """estimate of the number of coincidence patterns"""
    n = {}
    def go(t, k=1):
        if isinstance(t, str): return
        n[t] = n.get(t, 0) + 1
        for a in t[1:]: go(a)
    go(t); c = 1
    for u, k in n.items(): c *= BELL[min(k, 8)] ** (2 if u[0] in ('sum', 'div') else 1)
    return c
def rrep(rg, cap=26, most=250):
    """random shape with repeated subterms"""
    while True:
        pool = ['x', 'x']
        for _ in range(rg.randint(4, 8)):
            a = lambda: rg.choice(pool[-3:]) if rg.random() < .7 else rg.choice(pool)
            h = rg.choice(['gp', 'gp', 'sum', 'sum', 'sum', 'ep', 'sip', 'rev', 'pd', 'comp', 'sqrt', 'div'])
            m = 1 if h in UN else 2 if h in BIN or rg.random() < .6 else 3
            t = (h,) + tuple(a() for _ in range(m))
            if h in ('sum', 'ep') and any(isinstance(u, tuple) and u[0] == h for u in t[1:]): continue
            if size(t) <= cap: pool.append(t)
        t = pool[-1]
        if rg.random() < .15:
            t = ('res', pool[-1], pool[-2])
        if isinstance(t, tuple) and 12 <= size(t) <= cap and cost(t) <= most: return t
def reshape_fn(t, shaped=False):
    o = Opd('l', flatc(t) if shaped else flat(t)); n = len(o.nodes); cap = 3 * n
    ins = o.names
    se = [i for i, r in enumerate(o.nodes) if r[0] == OP['op_se']]
    def pre(x):
        return o.pre(x) + [z3.Not(num0(o.rows(x)[i][3])) for i in se if isinstance(o.w[i][3], str)]
    def goals(x, ov, Z):
        c, q, rows = dec(ov, cap)
        if c > cap: raise Bad('length within the capacity')
        src, res = terms(o.rows(x), False), terms(rows, True)
        if len(src) != len(res): raise Bad('number of results')
        E = [(q, o.Q(x))]
        for a, b in zip(src, res): teq(a, b, E)
        return E
    def post(x, ov):
        FACTS[:] = pre(x)
        try: E = goals(x, ov, True)
        except Bad as ex: return [(str(ex), z3.BoolVal(False))]
        return [('the reshaped expression denotes the same term', z3.And([a == b for a, b in E]))]
    def pypost(p, ov):
        x = V_(zip(ins, p))
        try: E = goals(x, dict(zip(outs(cap), ov)), False)
        except Bad as ex: return str(ex)
        if any(a != b for a, b in E): return 'the reshaped expression denotes another term'
    f = mk('reshape %s%s' % ('(colliding checksums) ' if shaped else '', show(t)), ins, cap, o.code('l') + ' auto s = rpn_reshape(l); dump(out, s, %d);' % cap, pre, post, pypost, 'gal::detail::rpn_reshape', [o], callees=[], paths=6000)
    f.pypre = lambda pt: all(frac(o.rows(V_(zip(ins, pt)))[i][3]) != 0 for i in se if isinstance(o.w[i][3], str))
    return f
def shapes():
    x = 'x'; g = lambda a, b: ('gp', a, b); S = lambda *a: ('sum',) + a; E = lambda *a: ('ep',) + a
    xx = g(x, x); r = ('rev', x); p = ('pd', x); sx = S(x, x); ex = E(x, x); sq = ('sqrt', x); d = ('div', x, x); co = ('comp', xx); gr = ('grd', xx)
    A = [xx, r, p, sx, ex, sq, d]
    L = [('gp', a, b) for a in A for b in A if (a, b) != (sx, ex)]
    L += [S(a, b) for a in A for b in A]
    L += [E(a, b) for a in (xx, r, sx) for b in (xx, ex, p)]
    L += [('res', a, b) for a in A for b in A[:4]]
    L += [g(g(xx, x), xx), g(xx, g(x, xx)), g(g(xx, xx), x), g(xx, g(xx, x)), S(xx, g(xx, x)), S(g(xx, x), xx), S(xx, xx, xx), S(xx, x, xx), E(xx, x, xx), S(S(x, x), x), g(('rev', xx), xx), g(xx, ('rev', xx)), ('rev', g(xx, xx)),
          g(('pd', xx), ('pd', xx)), ('pd', S(xx, xx)), ('sqrt', xx), ('sqrt', co), ('sqrt', ('comp', x)), ('sqrt', ('grd', ('comp', xx))), ('div', x, xx), ('div', x, co), ('div', xx, xx), ('div', co, co), ('div', x, ('div', x, x)), ('div', d, x),
          g(co, co), g(gr, co), g(co, xx), S(co, xx), S(sq, sq), g(('sqrt', xx), xx), g(xx, ('sqrt', xx)), S(('sqrt', xx), ('sqrt', xx)), S(('cos', x), ('sin', x)), g(('cos', xx), ('sin', xx)), ('div', ('sqrt', xx), ('sqrt', xx)),
          ('sqrt', S(x, x)), ('sqrt', ('comp', S(xx, x))), ('div', x, S(x, x)), ('div', sx, sx), ('div', ex, ('comp', ex)), ('lc', xx, ('sip', x, x)), ('sip', xx, xx), ('res', xx, g(xx, x)), ('res', g(xx, x), xx), ('res', sx, S(x, x, x)), ('res', sq, ('sqrt', xx)),
          ('res', xx, xx, xx), ('res', d, d), g(r, ('rev', r)), g('k', g('k', x)), S(g('k', x), g('k', x)), E(ex, x), E(x, ex), S(E(x, x), E(x, x)), g(S(x, x), g(S(x, x), x)), ('rev', S(r, r)), S(S(xx, x), xx), g(S(xx, x), xx), g(xx, S(xx, x)), E(xx, S(xx, x))]
    return L
def rshape(rg, n, top=True):
    """random shape with n operators"""
    if n == 0: return 'x' if rg.random() < .95 else 'k'
    h = rg.choice(['gp', 'gp', 'sum', 'sum', 'ep', 'lc', 'sip', 'rev', 'pd', 'comp', 'grd', 'sqrt', 'cos', 'div'] + (['res'] if top else []))
    if h in UN: return (h, rshape(rg, n - 1, False))
    if h in BIN: k = rg.randint(0, n - 1); return (h, rshape(rg, k, False), rshape(rg, n - 1 - k, False))
    m = 2 if rg.random() < .8 else 3
    ks = sorted(rg.randint(0, n - 1) for _ in range(m - 1)); ks = [0] + ks + [n - 1]
    a = [rshape(rg, ks[i + 1] - ks[i], False) for i in range(m)]
    # an expression never has a sum as direct operand of a sum (or product of a product): the builder flattens them
    if any(isinstance(t, tuple) and t[0] == h for t in a): return rshape(rg, n, top)
    return (h,) + tuple(a)
def reshapes(ctx=None):
    import random
    T = list(dict.fromkeys(shapes()))
    rg = random.Random('shapes/%s' % (ctx.seed if ctx else 1))
    n = 1500 if ctx and ctx.thorough else 250
    for _ in range(n): T.append(rshape(rg, rg.choice([3, 4, 4, 5])))
    L = []
    for i, t in enumerate(dict.fromkeys(t for t in T if isinstance(t, tuple) and len(flat(t)) <= 16)): L.append(reshape_fn(t)); L[-1].group = 'r%d' % (i // 6)
    for i, t in enumerate(dict.fromkeys(rrep(rg, *((30, 4000) if ctx and ctx.thorough else ())) for _ in range(1200 if ctx and ctx.thorough else 200))): L.append(reshape_fn(t, True)); L[-1].group = 's%d' % (i // 4)
    return L
