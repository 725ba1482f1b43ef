"""C17: symbolic multivector arithmetic is polynomial arithmetic.

Contracts on gal::detail::{sum, scale, shift, negate, divide, reverse, poincare_dual, product, component, extract, to_null_basis,
to_natural_basis} and gal::mv::{operator[], select_grade, resize, create_ref, scale, extent}.  A multivector is a list of terms
(basis blade, list of monomials); a monomial is a coefficient and a list of (identifier, degree).  The sizes of these lists are
fixed per contract (bounded); identifiers, degrees and coefficients are symbolic, so one contract covers every pattern of
coincidence, order and cancellation among them.  gal::rat operations are replaced by their contracts (proved in C08)."""
import random, itertools
import z3
import symex as S
from classb import Fn
import rats
from ga import gp_blade, blade_product, popc
LEVEL = 'proof'

# ------------------------------------------------------------------ gal::rat through its contracts
# a denominator is a power of two at most 2^6 here; the possible values are tracked per term
def dens(st, d):
    if isinstance(d, int): return {d}
    d = z3.simplify(d)
    if z3.is_int_value(d): return {d.as_long()}
    return st.ghost.get('dens', {}).get(d.get_id())
def rat_result(e, st, cases):
    """cases: [(guard, N, D)], D a python int: a rational of value N / D, with positive denominator that does not exceed D (contract of
    the rat operators, C08: exact for D < 1024; zero is 0/1)"""
    if len(cases) == 1 and cases[0][2] == 1: return S.Pack(cases[0][1], 1)
    rn, rd = e.fresh('qn', z3.IntSort()), e.fresh('qd', z3.IntSort())
    allD = set(); known = []
    for g, N, D in cases:
        alts = []; n0 = num(N)
        if n0 is None: known = None
        for k in range(1, D + 1):
            if D % k == 0 and (n0 is None or n0 % (D // k) == 0):
                alts.append(z3.And(rd == k, rn * (D // k) == N)); allD.add(k)
                if known is not None: known.append((z3.And(g, rd == k), n0 // (D // k)))
        st.pc.append(z3.Implies(g, z3.And(z3.Or(alts), z3.Implies(N == 0, rd == 1))))
    tab = dict(st.ghost.get('dens', {})); tab[rd.get_id()] = allD; st.ghost['dens'] = tab
    st.ghost['keep'] = st.ghost.get('keep', ()) + (rd, rn)
    if known:                                       # a constant with several representations (3/2, 6/4, ...)
        tab = dict(st.ghost.get('nums', {})); tab[rn.get_id()] = known; st.ghost['nums'] = tab
    return S.Pack(rn, rd)
MULF = z3.Function('times', z3.IntSort(), z3.IntSort(), z3.IntSort())
def num(v):
    if isinstance(v, int): return v
    if isinstance(v, z3.ExprRef):
        v = z3.simplify(v)
        if z3.is_int_value(v): return v.as_long()
    return None
def mul(a, b):
    """integer product; symbolic times symbolic is an uninterpreted commutative, sign-homogeneous function"""
    x, y = num(a), num(b)
    if x is not None and y is not None: return z3.IntVal(x * y)
    if x is not None: return x * b
    if y is not None: return a * y
    a, b = z3.simplify(a), z3.simplify(b)
    s = 1
    def norm(t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(0)): return t.arg(0).as_long(), t.arg(1)
        return 1, t
    ka, a = norm(a); kb, b = norm(b)
    if a.hash() > b.hash() or (a.hash() == b.hash() and a.sexpr() > b.sexpr()): a, b = b, a
    r = MULF(a, b)
    return ka * kb * r if ka * kb != 1 else r
def combos(st, *ds):
    sets = [dens(st, d) for d in ds]
    if any(s is None for s in sets): raise S.Unsupported('denominator out of range')
    for vs in itertools.product(*[sorted(s) for s in sets]):
        yield z3.And([z3.BoolVal(True)] + [(d if isinstance(d, z3.ExprRef) else z3.IntVal(d)) == v for d, v in zip(ds, vs)]), vs
def small(st, *ns):
    for n in ns: st.obls.append(('rational arithmetic stays in range', list(st.pc), z3.And(n > -rats.R31, n < rats.R31)))
def c_add(e, st, a, b, s=1):
    cs = []
    for g, (p, q) in combos(st, a[1], b[1]):
        N = z3.simplify(a[0] * q + s * b[0] * p)
        cs.append((g, N, p * q)); small(st, N)
    return rat_result(e, st, cs)
def facts(st, p, a, b):
    if z3.is_int_value(p): return
    st.pc.append(z3.And((p == 0) == z3.Or(a == 0, b == 0), p >= -(1 << 24), p <= (1 << 24)))
def reps(st, n):
    return st.ghost.get('nums', {}).get(z3.simplify(n).get_id()) if isinstance(n, z3.ExprRef) else None
def c_mul(e, st, a, b):
    if num(a[0]) is None and num(b[0]) is None:
        if reps(st, a[0]) is None and reps(st, b[0]) is not None: a, b = b, a
        ks = reps(st, a[0])
        if ks is not None:
            for c, k in ks: small(st, z3.If(c, z3.simplify(k * b[0]), 0))
            return rat_result(e, st, [(z3.And(g, c), z3.simplify(k * b[0]), d1 * d2) for g, (d1, d2) in combos(st, a[1], b[1]) for c, k in ks])
    p = mul(a[0], b[0])
    if num(a[0]) is None and num(b[0]) is None: facts(st, p, a[0], b[0])
    else: small(st, p)
    return rat_result(e, st, [(g, p, d1 * d2) for g, (d1, d2) in combos(st, a[1], b[1])])
def c_div(e, st, a, b):
    k = num(b[0]); d = num(b[1])
    if k is None or d is None: raise S.Unsupported('division by a symbolic rational')
    st.obls.append(('divisor is not zero', list(st.pc), z3.BoolVal(k != 0)))
    s = -1 if k < 0 else 1
    return rat_result(e, st, [(g, z3.simplify(s * d * a[0]), p * abs(k)) for g, (p,) in combos(st, a[1])])
def word(e, st, v):
    """a rat passed in a register or by address"""
    if isinstance(v, S.Ptr):
        n, d = e.load(st, v, S.I.INT(32)), e.load(st, S.Ptr(v.o, v.off + 4), S.I.INT(32))
        return e.toint(n, 32), dd(e, d)
    n, d = rats.unpack(e, v)
    return n, dd(e, d)
def dd(e, d):
    d = e.toint(d, 32) if not isinstance(d, int) else d
    k = num(d)
    return k if k is not None else d
def binop(f):
    def h(e, st, args):
        return f(e, st, word(e, st, args[0]), word(e, st, args[1]))
    return h
def h_int_rat(e, st, args):
    return c_mul(e, st, (e.toint(args[0], 32), 1), word(e, st, args[1]))
def h_rat_int(e, st, args): return c_div(e, st, word(e, st, args[0]), (e.toint(args[1], 32), 1))
def h_neg(e, st, args):
    n, d = word(e, st, args[0])
    return S.Pack(z3.simplify(-n), d)
def assign(f):
    def h(e, st, args):
        this = args[0]
        r = f(e, st, word(e, st, this), word(e, st, args[1]))
        e.store(st, this, S.I.INT(32), r.lo); e.store(st, S.Ptr(this.o, this.off + 4), S.I.INT(32), r.hi)
        return this
    return h
def cmp(f, ints=False):
    def h(e, st, args):
        a = word(e, st, args[0]); b = (e.toint(args[1], 32), 1) if ints else word(e, st, args[1])
        r = z3.simplify(z3.And([z3.Implies(g, f(a[0] * q, b[0] * p)) for g, (p, q) in combos(st, a[1], b[1])]))
        return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
    return h
def h_gcd(e, st, args):
    a, b = (num(e.toint(v, 32)) for v in args)
    if a in (1, -1) or b in (1, -1): return 1
    if a is not None and b is not None:
        import math
        return math.gcd(a, b)
    return rats.c_gcd(e, st, args)
RAT = [(r'^_ZSt3gcd', h_gcd), (r'^_ZN3galeqENS_3ratES0_$', cmp(lambda x, y: x == y)), (r'^_ZN3galneENS_3ratES0_$', cmp(lambda x, y: x != y)), (r'^_ZN3galltENS_3ratES0_$', cmp(lambda x, y: x < y)),
       (r'^_ZN3galgtENS_3ratES0_$', cmp(lambda x, y: x > y)), (r'^_ZN3galneENS_3ratEi$', cmp(lambda x, y: x != y, True)),
       (r'^_ZN3galplENS_3ratES0_$', binop(c_add)), (r'^_ZN3galmiENS_3ratES0_$', binop(lambda e, st, a, b: c_add(e, st, a, b, -1))),
       (r'^_ZN3galmlENS_3ratES0_$', binop(c_mul)), (r'^_ZN3galdvENS_3ratES0_$', binop(c_div)), (r'^_ZN3galmlEiNS_3ratE$', h_int_rat), (r'^_ZN3galdvENS_3ratEi$', h_rat_int),
       (r'^_ZN3galngENS_3ratE$', h_neg), (r'^_ZNK3gal3rat8negationEv$', h_neg),
       (r'^_ZN3gal3ratpLE', assign(c_add)), (r'^_ZN3gal3ratmLE', assign(c_mul))]

# ------------------------------------------------------------------ symbolic multivectors
class Sh:
    """shape: [(element, [monomial, ...])]; a monomial is a list of indeterminates; an indeterminate is (id, degree) or None (symbolic)"""
    def __init__(self, p, terms, q=None):
        self.p = p; self.terms = terms; self.q = q
        self.names = []; self.mons = []
        k = 0
        for el, ms in terms:
            for m in ms:
                j = len(self.mons)
                Q = (q[j] if q else None)
                ids = []
                for x in m:
                    if x is None: ids.append(('%si%d' % (p, k), '%sd%d' % (p, k))); self.names += list(ids[-1])
                    else: ids.append(x)
                    k += 1
                if Q is None: self.names.append('%sq%d' % (p, j))
                self.mons.append((el, ids, Q if Q is not None else '%sq%d' % (p, j)))
        self.I = k; self.M = len(self.mons); self.T = len(terms)
    def type(self, A): return 'mv<%s, %d, %d, %d>' % (A, self.I, self.M, self.T)
    def code(self, A, n):
        L = ['%s %s{}; %s.size = mv_size{%d, %d, %d};' % (self.type(A), n, n, self.I, self.M, self.T)]
        i = 0; j = 0
        for t, (el, ms) in enumerate(self.terms):
            L.append('%s.terms[%d] = term{%d, %d, %d};' % (n, t, len(ms), j, el))
            for m in ms:
                _, ids, q = self.mons[j]
                qs = q if isinstance(q, str) else str(q)
                L.append('%s.mons[%d] = mon{rat{%s}, rat{%s}, %d, %d};' % (n, j, qs, ' + '.join('(%s)' % x[1] for x in ids) or '0', len(ids), i))
                for x in ids:
                    L.append('%s.inds[%d] = ind{(width_t)%s, rat{%s}};' % (n, i, x[0], x[1])); i += 1
                j += 1
        return ' '.join(L)
    def val(self, x, n): return x[n] if isinstance(n, str) else z3.IntVal(n)
    def read(self, x):
        """[(element, [(id, degree)], coefficient numerator)]"""
        return [(el, [(self.val(x, a), self.val(x, b)) for a, b in ids], self.val(x, q)) for el, ids, q in self.mons]
    def pre(self, x, qmax=1 << 12, nonzero=True):
        out = []
        ms = self.read(x)
        for (el, ids, q), (_, n, qn) in zip(ms, self.mons):
            if isinstance(qn, str):
                out += [q >= -qmax, q <= qmax]
                if nonzero: out.append(q != 0)
            for (i, d), (a, b) in zip(ids, n):
                if isinstance(a, str): out += [i >= 0, i <= 1 << 20, d >= -100, d <= 100, d != 0]
            for (i, _), (k, _) in zip(ids, ids[1:]): out.append(i < k)
        for a, b in zip(ms, ms[1:]):
            if a[0] == b[0]: out.append(mless(a[1], b[1]))
        return out
def lex(a, b):
    """strict lexicographic order on lists of (id, degree)"""
    if not b: return z3.BoolVal(False)
    if not a: return z3.BoolVal(True)
    (i, d), (j, k) = a[0], b[0]
    return z3.Or(i < j, z3.And(i == j, d < k), z3.And(i == j, d == k, lex(a[1:], b[1:])))
def deg(a): return z3.Sum([d for _, d in a]) if a else z3.IntVal(0)
def mless(a, b):
    ca, cb = [(num(i), num(d)) for i, d in a], [(num(i), num(d)) for i, d in b]
    if all(x is not None for p in ca + cb for x in p):
        return z3.BoolVal((sum(d for _, d in ca), ca) < (sum(d for _, d in cb), cb))
    return z3.Or(deg(a) < deg(b), z3.And(deg(a) == deg(b), lex(a, b)))
def at(m, i):
    return z3.Sum([z3.If(j == i, d, 0) for j, d in m]) if m else z3.IntVal(0)
def conc(m):
    """the monomial as a map, if it is concrete"""
    r = {}
    for i, d in m:
        i, d = num(i), num(d)
        if i is None or d is None: return None
        r[i] = r.get(i, 0) + d
    return {i: d for i, d in r.items() if d}
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
def meq(a, b):
    """equality as maps from identifiers to exponents"""
    if isinstance(a, dict) and isinstance(b, dict): return TRUE if a == b else FALSE
    if isinstance(a, dict): a = [(z3.IntVal(i), z3.IntVal(d)) for i, d in a.items()]
    if isinstance(b, dict): b = [(z3.IntVal(i), z3.IntVal(d)) for i, d in b.items()]
    ids = [i for i, _ in a] + [i for i, _ in b]
    return z3.And([z3.BoolVal(True)] + [at(a, i) == at(b, i) for i in ids])

# ------------------------------------------------------------------ results
HEAD = r'''
namespace vp {
using namespace gal;
template <typename A, width_t I, width_t M, width_t T>
void dump(mv<A, I, M, T> const& r, int32_t* out)
{
    int k = 0;
    out[k++] = (int32_t)r.size.ind; out[k++] = (int32_t)r.size.mon; out[k++] = (int32_t)r.size.term;
    for (width_t i = 0; i != T; ++i) { out[k++] = (int32_t)r.terms[i].count; out[k++] = (int32_t)r.terms[i].mon_offset; out[k++] = (int32_t)r.terms[i].element; }
    for (width_t i = 0; i != M; ++i) { auto& m = r.mons[i]; out[k++] = m.q.num; out[k++] = m.q.den; out[k++] = m.degree.num; out[k++] = m.degree.den; out[k++] = (int32_t)m.count; out[k++] = (int32_t)m.ind_offset; }
    for (width_t i = 0; i != I; ++i) { out[k++] = (int32_t)r.inds[i].id; out[k++] = r.inds[i].degree.num; out[k++] = r.inds[i].degree.den; }
}
// the multivector a dense form stands for, laid out from the counts the dense form itself records
template <width_t IM, width_t MM, typename A, width_t I, width_t M, width_t T>
auto undense(mv<A, I, M, T> const& in)
{
    auto d = in.template regularize<IM, MM, T>();
    mv<A, I, M, T> out{};
    out.size.term = in.size.term;
    for (width_t t = 0; t != in.size.term; ++t) {
        out.terms[t] = d.data[t].first; out.terms[t].mon_offset = out.size.mon;
        for (width_t m = 0; m != d.data[t].first.count; ++m) {
            auto& x = d.data[t].second[m];
            out.mons[out.size.mon] = x.first; out.mons[out.size.mon].ind_offset = out.size.ind; ++out.size.mon;
            for (width_t k = 0; k != x.first.count; ++k) out.inds[out.size.ind++] = x.second[k];
        }
    }
    return out;
}
}
'''
def outs(I, M, T):
    L = ['si', 'sm', 'st']
    for t in range(T): L += ['t%d_c' % t, 't%d_o' % t, 't%d_e' % t]
    for m in range(M): L += ['m%d_%s' % (m, k) for k in ('n', 'd', 'g', 'h', 'c', 'o')]
    for i in range(I): L += ['i%d_%s' % (i, k) for k in ('i', 'n', 'd')]
    return L
class Malformed(Exception): pass
def struct_names(I, M, T):
    return ['si', 'sm', 'st'] + ['t%d_%s' % (t, k) for t in range(T) for k in 'coe'] + ['m%d_%s' % (m, k) for m in range(M) for k in 'co']
def view(o, I, M, T):
    """[(element, [(id, degree)], coefficient)], where the structure (counts, offsets, elements) is concrete; raises Malformed"""
    def c(n):
        v = num(o[n])
        if v is None: raise S.Unsupported('structure of the result is symbolic: ' + n)
        return v
    si, sm, st = c('si'), c('sm'), c('st')
    if not (0 <= si <= I and 0 <= sm <= M and 0 <= st <= T): raise Malformed('size within the capacities')
    out = []; goals = []; terms = []
    for t in range(st):
        cnt, off, el = c('t%d_c' % t), c('t%d_o' % t), c('t%d_e' % t)
        if not (0 <= off and cnt >= 0 and off + cnt <= sm): raise Malformed('monomials of a term within the multivector')
        ms = []
        for m in range(off, off + cnt):
            k, oo = c('m%d_c' % m), c('m%d_o' % m)
            if not (0 <= oo and k >= 0 and oo + k <= si): raise Malformed('indeterminates of a monomial within the multivector')
            ids = [(o['i%d_i' % i], o['i%d_n' % i]) for i in range(oo, oo + k)]
            for i in range(oo, oo + k): goals.append(('degrees are integers', o['i%d_d' % i] == 1))
            goals.append(('degree of a monomial is the sum of its exponents', z3.And(o['m%d_h' % m] == 1, o['m%d_g' % m] == deg(ids))))
            goals.append(('coefficients are canonical', o['m%d_d' % m] >= 1))
            q = (o['m%d_n' % m], o['m%d_d' % m])
            ms.append((el, ids, q)); out.append(ms[-1])
        terms.append((el, ms))
    return out, terms, goals
def normal(terms, goals):
    for (a, ma), (b, mb) in zip(terms, terms[1:]): goals.append(('terms are sorted by blade and unique', z3.BoolVal(a < b)))
    for el, ms in terms:
        goals.append(('a term has a monomial', z3.BoolVal(bool(ms))))
        for _, ids, (n, d) in ms:
            goals.append(('no coefficient is zero', n != 0))
            for (i, k), (j, _) in zip(ids, ids[1:]): goals.append(('indeterminates are sorted and unique', i < j))
            for i, k in ids: goals.append(('no exponent is zero', k != 0))
        for (_, x, _), (_, y, _) in zip(ms, ms[1:]): goals.append(('monomials are sorted and unique', mless(x, y)))
DMAX = 64
def value(q):
    """64 times the coefficient"""
    n, d = q
    k = num(d)
    if k is not None:
        if k == 0: return z3.IntVal(0)
        return n * (DMAX // k) if DMAX % k == 0 else z3.ToReal(n) * DMAX / k
    r = n * DMAX
    for v in (2, 4, 8, 16, 32, 64): r = z3.If(d == v, n * (DMAX // v), r)
    return r
def cond(c, v): return v if c is TRUE else z3.IntVal(0) if c is FALSE else z3.If(c, v, 0)
def same(out, spec, goals):
    """spec: [(element, [(id, degree)], 64 * coefficient)]; equal as polynomials with blade coefficients"""
    def key(m):
        c = conc(m); return m if c is None else c
    spec = [(e, key(m), q) for e, m, q in spec]; out = [(e, key(m), q) for e, m, q in out]
    done = set()
    for i, (el, m, _) in enumerate(spec):
        if isinstance(m, dict):
            k = (el, tuple(sorted(m.items())))
            if k in done: continue
            done.add(k)
        l = z3.Sum([z3.IntVal(0)] + [cond(meq(x, m), value(q)) for e, x, q in out if e == el])
        r = z3.Sum([z3.IntVal(0)] + [cond(meq(x, m), q) for e, x, q in spec if e == el])
        goals.append(('coefficient of monomial %d of blade %s' % (i, bin(el)), l == r))
    for j, (el, m, q) in enumerate(out):
        goals.append(('nothing else appears', z3.Or([q[0] == 0] + [meq(x, m) for e, x, _ in spec if e == el])))

class MvFn(Fn): pass
def mk(name, shapes, A, expr, cap, spec, on, nf=True, pre=None, sample_ids=4, timeout=20000, group=None, extra=None, qmax=1 << 12, incl=('geometric_algebra',), noalias=False):
    """contract: expr over the multivectors a, b denotes spec(a, b)"""
    I, M, T = cap
    ins = sum((s.names for s in shapes), [])
    code = 'using namespace gal; using namespace gal::detail; using A = %s; ' % A + ' '.join(s.code('A', s.p) for s in shapes) + ' auto r = %s; vp::dump(r, out);' % expr
    def post(x, o):
        try: out, terms, goals = view(o, I, M, T)
        except Malformed as ex: return [(str(ex), z3.BoolVal(False))]
        if nf: normal(terms, goals)
        same(out, spec(*[s.read(x) for s in shapes]), goals)
        if extra: goals += extra(x, o)
        return goals
    def smp(rg):
        p = []
        for s in shapes: p += sample(s, rg, sample_ids)
        return p
    f = MvFn(name, ins, outs(I, M, T), code, pre=lambda x: sum((s.pre(x, qmax) for s in shapes), []) + (pre(x) if pre else []), post=post, kind='i32', mode='int', on=on,
           incl=incl, callees=RAT, head=HEAD, sample=smp, timeout=timeout, paths=6000, group=group, exact_div=rats.exact_div)
    f.split = struct_names(I, M, T); f.padding = True
    return f
def pyless(a, b):
    da, db = sum(d for _, d in a), sum(d for _, d in b)
    return (da, a) < (db, b)
def sample(s, rg, nid):
    """a random well-formed multivector of the shape"""
    for _ in range(200):
        vals = {}
        ms = []; ok = True
        j = 0
        for el, ids, q in s.mons:
            k = len(ids)
            c = sorted(rg.sample(range(max(nid, k)), k))
            l = []
            for (a, b), i in zip(ids, c):
                if isinstance(a, str): vals[a] = i; vals[b] = rg.choice([1, 1, 1, 2, -1, 3, -2]); l.append((i, vals[b]))
                else: l.append((a, b))
            if isinstance(q, str): vals[q] = rg.choice([1, -1, 2, -2, 3, 4, -4])
            ms.append((el, l))
        if all(a[0] != b[0] or pyless(a[1], b[1]) for a, b in zip(ms, ms[1:])): break
    return [vals[n] for n in s.names]

# ------------------------------------------------------------------ the contracts
def lin(ms, k=64): return [(el, ids, q * k) for el, ids, q in ms]
V = 'algebra<metric<3, 0, 0>>'
_ = None
def SH(p, *terms): return Sh(p, list(terms))
def mons(*ks): return [[None] * k for k in ks]
SUMS = [  # (lhs terms, rhs terms)
    ([(0, mons(1))], [(0, mons(1))]), ([(1, mons(2))], [(1, mons(2))]), ([(1, mons(1))], [(1, mons(2))]), ([(1, mons(0))], [(1, mons(1))]), ([(1, mons(0))], [(1, mons(0))]),
    ([(1, mons(1, 1))], [(1, mons(1))]), ([(1, mons(1))], [(1, mons(1, 1))]), ([(1, mons(1, 1))], [(1, mons(1, 1))]),
    ([(1, mons(1)), (2, mons(1))], [(1, mons(1)), (2, mons(1))]), ([(1, mons(1)), (4, mons(1))], [(2, mons(1)), (4, mons(1))]), ([(2, mons(1)), (3, mons(1))], [(1, mons(1)), (3, mons(0))]),
    ([(1, mons(1)), (2, mons(1)), (4, mons(1))], [(2, mons(1))]), ([(2, mons(1))], [(1, mons(1)), (2, mons(1)), (4, mons(1))]), ([(0, mons(0, 1))], [(0, mons(0, 1))]),
    ([(1, mons(1, 2))], [(1, mons(2, 1))]), ([(7, mons(2))], [(3, mons(1)), (7, mons(2))]), ([(1, mons(2, 2))], [(1, mons(2))]),
    ([], [(1, mons(1))]), ([(1, mons(1))], []), ([(1, mons(1)), (2, mons(1)), (4, mons(1))], [(1, mons(1)), (2, mons(1)), (4, mons(1))]), ([(1, mons(1, 1, 1))], [(1, mons(1, 1))]),
]
def desc(sh): return ' + '.join('%s:%s' % (el, [len(m) for m in ms]) for el, ms in sh.terms) or '0'
def sums(ctx):
    ctx.assume('gal::rat operators are used through their contracts (C08): exact value, positive denominator not larger than the product of the denominators, canonical zero',
               'coefficients up to 4096 in magnitude (and products of two of them), exponents up to 100 in magnitude, identifiers up to 2^20')
    ctx.trust('uninterpreted commutative product for symbolic coefficient times symbolic coefficient, with p = 0 iff a factor is 0')
    F = []
    for k, (l, r) in enumerate(SUMS):
        a, b = Sh('a', l), Sh('b', r)
        F.append(mk('sum of %s and %s' % (desc(a), desc(b)), [a, b], V, 'sum(a, b)', (a.I + b.I, a.M + b.M, a.T + b.T), lambda x, y: lin(x) + lin(y), 'gal::detail::sum', group=('s', k % 12)))
    ctx.fns(F, 'sums')
ONE = [[(1, mons(1))], [(0, mons(0)), (1, mons(1))], [(1, mons(1, 2)), (3, mons(0, 1)), (7, mons(2))], [(0, mons(1)), (2, mons(1)), (5, mons(2)), (6, mons(1))], [(3, mons(1, 1)), (5, mons(1)), (6, mons(1)), (7, mons(1))]]
def rsign(el):
    g = popc(el); return -1 if g * (g - 1) // 2 % 2 else 1
def pcomp(el, dim):
    """(complement, sign): e_el ^ e_complement = sign * pseudoscalar  (definition used by the dual)"""
    c = ((1 << dim) - 1) ^ el
    sw = sum(popc(c & ((1 << i) - 1)) for i in range(dim) if el >> i & 1)
    return c, -1 if sw % 2 else 1
def unary(ctx):
    F = []
    for t in ONE:
        a = Sh('a', t); cap = (a.I, a.M, a.T); n = desc(a)
        F.append(mk('negation of ' + n, [a], V, 'negate(a)', cap, lambda x: lin(x, -64), 'gal::detail::negate'))
        F.append(mk('reversal of ' + n, [a], V, 'reverse(a)', cap, lambda x: [(el, i, q * 64 * rsign(el)) for el, i, q in x], 'gal::detail::reverse'))
        for p, q in ((3, 1), (-1, 2), (5, 4)): F.append(mk('%d/%d times %s' % (p, q, n), [a], V, 'scale(rat{%d, %d}, a)' % (p, q), cap, lambda x, p=p, q=q: lin(x, 64 // q * p), 'gal::detail::scale'))
        for p, q in ((3, 1), (-1, 2)): F.append(mk('%d/%d plus %s' % (p, q, n), [a], V, 'shift(rat{%d, %d}, a)' % (p, q), (a.I, a.M + 1, a.T + 1), lambda x, p=p, q=q: lin(x) + [(0, [], z3.IntVal(64 // q * p))], 'gal::detail::shift'))
        for A, dim in ((V, 3), ('algebra<metric<3, 0, 1>>', 4), ('algebra<metric<4, 1, 0>>', 5)):
            F.append(mk('dual of %s in dimension %d' % (n, dim), [a], A, 'poincare_dual(a)', cap, lambda x, dim=dim: [(pcomp(el, dim)[0], i, q * 64 * pcomp(el, dim)[1]) for el, i, q in x], 'gal::detail::poincare_dual'))
        for g in range(4): F.append(mk('grade %d of %s' % (g, n), [a], V, 'a.select_grade(%d)' % g, cap, lambda x, g=g: lin([m for m in x if popc(m[0]) == g]), 'gal::mv::select_grade'))
        for c in sorted({0, 1, 7} | {el for el, _ in t}): F.append(mk('component %d of %s' % (c, n), [a], V, 'component(a, %d)' % c, (a.I, a.M, 1), lambda x, c=c: lin([(0, i, q) for el, i, q in x if el == c]), 'gal::mv::operator[]'))
        for els in ([1, 3], [0, 2, 6], [7], [3, 5, 6, 7]):
            F.append(mk('extraction of %s from %s' % (els, n), [a], V, 'extract(a, std::array<elem_t, %d>{%s})' % (len(els), ', '.join(map(str, els))), (a.I, a.M, len(els)), lambda x, els=els: lin([m for m in x if m[0] in els]), 'gal::detail::extract'))
        F.append(mk('resizing of ' + n, [a], V, '(a.resize<%d, %d, %d>())' % (a.I + 2, a.M + 1, a.T + 3), (a.I + 2, a.M + 1, a.T + 3), lin, 'gal::mv::resize'))
        F.append(mk('dense form of ' + n, [a], V, '(vp::undense<%d, %d>(a))' % (max(1, a.I), max(1, a.M)), cap, lin, 'gal::mv::regularize'))
        F.append(mk('same size of ' + n, [a], V, '(a.resize<%d, %d, %d>())' % cap, cap, lin, 'gal::mv::resize'))
        F.append(mk('reference to ' + n, [a], V, 'a.create_ref(%d)' % 17, (a.T, a.T, a.T), lambda x, t=t: [(el, [(z3.IntVal(17 + k), z3.IntVal(1))], z3.IntVal(64)) for k, (el, _) in enumerate(t)], 'gal::mv::create_ref'))
        for q in (2, -4):
            F.append(mk('%s divided by the number %d' % (n, q), [a], V, 'divide(a, (mv<A, 0, 1, 1>{mv_size{0, 1, 1}, {}, {mon{rat{%d}, zero, 0, 0}}, {term{1, 0, 0}}}), rat{3})' % q, cap,
                        lambda x, q=q: lin(x, 64 * 3 // q), 'gal::detail::divide'))
    for t in [[(1, mons(1))], [(1, mons(2))], [(7, mons(0))], [(1, mons(1, 1))], [(0, mons(0)), (3, mons(1))], [(1, mons(3))], [(2, mons(1)), (4, mons(1))]] + (ONE if ctx.thorough else []):
        a = Sh('a', t); n = desc(a); b = Sh('b', [(0, [[None]])], q=[2])
        F.append(mk('%s divided by 2 x^k' % n, [a, b], V, 'divide(a, b, rat{5})', (a.I + a.M, a.M, a.T), lambda x, y: [(el, i + [(y[0][1][0][0], -y[0][1][0][1])], q * 160) for el, i, q in x], 'gal::detail::divide', nf=False))
    for t in ([(8, mons(1))], [(16, mons(1))], [(8, mons(1)), (16, mons(1))], [(1, mons(1)), (9, mons(1)), (17, mons(1)), (24, mons(1))], [(8, mons(1, 1)), (16, mons(2))], [(0, mons(0)), (8, mons(0)), (16, mons(0)), (25, mons(1))], [(9, mons(1)), (10, mons(1)), (17, mons(1)), (18, mons(1))]):
        a = Sh('a', t)
        for d in (0, 1):
            F.append(mk('%s of %s' % (('null basis', 'orthogonal basis')[d], desc(a)), [a], 'algebra<metric<4, 1, 0>>', ('to_null_basis(a)', 'to_natural_basis(a)')[d], (3 * a.I, 3 * a.M, 3 * a.T),
                        (nat2null, null2nat)[d], 'gal::detail::' + ('to_null_basis', 'to_natural_basis')[d], incl=('geometric_algebra', 'null_algebra')))
    for k, f in enumerate(F): f.group = ('u', k % 16)
    ctx.fns(F, 'unary operations')
def nat2null(x):
    out = []
    for el, i, q in x:
        h = el & 24; r = el & ~24
        if h == 8: out += [(r | 8, i, q * 64), (r | 16, i, q * -32)]        # e+ = no - ni/2
        elif h == 16: out += [(r | 8, i, q * 64), (r | 16, i, q * 32)]      # e- = no + ni/2
        else: out.append((el, i, q * 64))
    return out
def null2nat(x):
    out = []
    for el, i, q in x:
        h = el & 24; r = el & ~24
        if h == 8: out += [(r | 8, i, q * 32), (r | 16, i, q * 32)]         # no = (e+ + e-)/2
        elif h == 16: out += [(r | 8, i, q * -64), (r | 16, i, q * 64)]     # ni = e- - e+
        else: out.append((el, i, q * 64))
    return out
PRODS = [  # (lhs, rhs, operations)
    ([(0, mons(1))], [(0, mons(1))]), ([(1, mons(1))], [(1, mons(2))]), ([(1, mons(2))], [(2, mons(1))]), ([(1, mons(2))], [(3, mons(2))]), ([(1, mons(0))], [(2, mons(1))]), ([(3, mons(0))], [(3, mons(0))]),
    ([(1, mons(1, 1))], [(1, mons(1))]), ([(1, mons(1))], [(1, mons(1, 1))]), ([(1, mons(1)), (2, mons(1))], [(1, mons(1))]), ([(1, mons(1)), (2, mons(1))], [(1, mons(1)), (2, mons(1))]),
    ([(0, mons(1)), (3, mons(1))], [(0, mons(1)), (3, mons(1))]), ([(1, mons(0, 1))], [(1, mons(0, 1))]), ([(1, mons(1)), (2, mons(1)), (4, mons(0))], [(7, mons(1))]),
    ([(7, mons(1))], [(1, mons(1)), (2, mons(1)), (4, mons(0))]), ([], [(1, mons(1))]), ([(1, mons(1))], [(1, mons(1)), (6, mons(1))]), ([(3, mons(1)), (5, mons(1)), (6, mons(0))], [(3, mons(0)), (5, mons(0)), (6, mons(1))]),
]
HEAVY = [([(1, mons(1)), (2, mons(1))], [(1, mons(1)), (2, mons(1))]), ([(0, mons(1)), (3, mons(1))], [(0, mons(1)), (3, mons(1))]), ([(3, mons(1)), (5, mons(1)), (6, mons(0))], [(3, mons(0)), (5, mons(0)), (6, mons(1))])]
LIGHT = [([(1, mons(1)), (2, mons(1))], [(1, mons(1)), (2, mons(0))]), ([(0, mons(1)), (3, mons(0))], [(0, mons(1)), (3, mons(1))]), ([(3, mons(1)), (5, mons(1)), (6, mons(0))], [(3, mons(0)), (5, mons(0))])]
OPS = {'geometric': 'gp', 'exterior': 'ep', 'contract': 'lc', 'symmetric_inner': 'sip'}
def pspec(kind, sq):
    def f(x, y):
        out = []
        for e1, i1, q1 in x:
            for e2, i2, q2 in y:
                r = blade_product(kind, sq, e1, e2)
                for e, s in (r.items() if isinstance(r, dict) else [r]):
                    if s: out.append((e, i1 + i2, mul(q1, q2) * (64 * s)))
        return out
    return f
ALGS = {'algebra<metric<3, 0, 0>>': (1, 1, 1), 'algebra<metric<3, 0, 1>>': (0, 1, 1, 1)}
def products(ctx):
    F = []
    for A, sq in ALGS.items():
        for op, kind in OPS.items():
            for k, (l, r) in enumerate(PRODS):
                if op != 'geometric' and A.endswith('1>>') and k % 2: continue
                if (l, r) in HEAVY and op == 'geometric' and not ctx.thorough: l, r = LIGHT[HEAVY.index((l, r))]
                a, b = Sh('a', l), Sh('b', r)
                F.append(mk('%s product of %s and %s, %s' % (op, desc(a), desc(b), A[7:]), [a, b], A, 'product(A::%s{}, a, b)' % op, (a.M * b.I + b.M * a.I, a.M * b.M, a.T * b.T), pspec(kind, sq), 'gal::detail::product', group=(A, op, k % 2)))
    ctx.fns(F, 'products')
def cmons(rg, n, nid, kmax=3):
    S_ = set()
    while len(S_) < n:
        ids = sorted(rg.sample(range(nid), rg.randint(0, min(kmax, nid))))
        S_.add(tuple((i, rg.choice([1, 1, 1, 2, -1, 3])) for i in ids))
    return sorted((list(m) for m in S_), key=lambda m: (sum(d for _, d in m), m))
def cshape(p, rg, dim, nt, nm, nid, nsym):
    els = sorted(rg.sample(range(1 << dim), rg.randint(1, min(nt, 1 << dim))))
    terms = [(el, cmons(rg, rg.randint(1, nm), nid)) for el in els]
    M = sum(len(m) for _, m in terms)
    sym = set(rg.sample(range(M), min(M, nsym)))
    return Sh(p, terms, q=[None if i in sym else rg.choice([1, -1, 2, -2, 3]) for i in range(M)])
def big(ctx):
    """larger operands: concrete identifiers, exponents and most coefficients, up to three symbolic coefficients"""
    F = []
    rg = random.Random('c17|%d' % ctx.seed)
    for k in range(200 if ctx.thorough else 40):
        a, b = cshape('a', rg, 3, 4, 4, 4, 2), cshape('b', rg, 3, 4, 4, 4, 2)
        F.append(mk('sum %d' % k, [a, b], V, 'sum(a, b)', (a.I + b.I, a.M + b.M, a.T + b.T), lambda x, y: lin(x) + lin(y), 'gal::detail::sum', group=('s', k % 8)))
    A4, s4 = 'algebra<metric<4, 1, 0>>', (1, 1, 1, 1, -1)
    for k in range(160 if ctx.thorough else 32):
        op, kind = list(OPS.items())[k % 4]
        a, b = cshape('a', rg, 5, 3, 3, 3, 1), cshape('b', rg, 5, 3, 3, 3, 1)
        F.append(mk('%s product %d' % (op, k), [a, b], A4, 'product(A::%s{}, a, b)' % op, (a.M * b.I + b.M * a.I, a.M * b.M, a.T * b.T), pspec(kind, s4), 'gal::detail::product', group=('p', k % 8)))
    # long runs of equal monomials: convolutions of polynomials in one indeterminate, and contractions of vectors
    for n in ((4, 9, 12) if not ctx.thorough else (4, 8, 9, 10, 12, 15)):
        for j, (sa, sb) in enumerate((({1}, {0}), (set(), {n - 1}))):
            a = Sh('a', [(0, [[(1, i)] if i else [] for i in range(n)])], q=[None if i in sa else (-1) ** i for i in range(n)])
            b = Sh('b', [(0, [[(1, i)] if i else [] for i in range(n)])], q=[None if i in sb else 1 for i in range(n)])
            F.append(mk('polynomials of degree %d, %d' % (n - 1, j), [a, b], V, 'product(A::geometric{}, a, b)', (a.M * b.I + b.M * a.I, a.M * b.M, 1), pspec('gp', (1, 1, 1)), 'gal::detail::product', group=('n', n)))
    A8 = 'algebra<metric<8, 0, 0>>'
    for op, kind in (('contract', 'lc'), ('symmetric_inner', 'sip')):
        a = Sh('a', [(1 << i, [[(0, 1)], [(i + 1, 1)]]) for i in range(8)], q=[1, 1] * 8)
        b = Sh('b', [(1 << i, [[(0, 1)]]) for i in range(8)], q=[None] + [1, -1] * 3 + [None])
        F.append(mk('%s of two 8-vectors' % op, [a, b], A8, 'product(A::%s{}, a, b)' % op, (a.M * b.I + b.M * a.I, a.M * b.M, a.T * b.T), pspec(kind, (1,) * 8), 'gal::detail::product', group=('v', op)))
    ctx.fns(F, 'larger operands')
PARTS = [('sums', sums), ('unary', unary), ('products', products), ('big', big)]
