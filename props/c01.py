"""C01: products, reversal, duals and grades of basis blades, for every metric with at most 8 basis vectors"""
import z3
from classb import Fn
from loops import Cut
import runner
LEVEL = 'proof'

def B(v, i): return z3.Extract(i, i, v)
def par(v, d=8):
    r = B(v, 0)
    for i in range(1, d): r = r ^ B(v, i)
    return r
def swap_parity(x, y, d, neg):
    """parity of the number of transpositions that sort e_x e_y, plus the number of shared vectors squaring to -1"""
    r = par(x & y & neg, 8)
    acc = B(y, 0)
    for i in range(1, d):
        r = r ^ (B(x, i) & acc)
        acc = acc ^ B(y, i)
    return r
def masks(P, V, R): return (1 << R) - 1, ((1 << V) - 1) << (R + P)
def C8(v): return z3.BitVecVal(v, 8)
def pc(n): return bin(n).count('1')
def py_swap(a, b, neg):
    s = pc(a & b & neg)
    for i in range(8):
        if a >> i & 1: s += pc(b & ((1 << i) - 1))
    return s & 1

def spec(kind, x, y, d, zm, nm):
    """(blade, coefficient is zero, sign parity)"""
    s = swap_parity(x, y, d, C8(nm))
    if kind == 'geometric': return x ^ y, (x & y & C8(zm)) != 0, s
    if kind == 'exterior': return x | y, (x & y) != 0, s
    if kind == 'contract': return x ^ y, z3.Or((x & ~y) != 0, (x & C8(zm)) != 0), s
    if kind == 'symmetric_inner':
        return x ^ y, z3.Or(x == 0, y == 0, (x & y & C8(zm)) != 0, z3.And((x & ~y) != 0, (y & ~x) != 0)), s
def py_spec(kind, x, y, zm, nm):
    s = -1 if py_swap(x, y, nm) else 1
    z = {'geometric': x & y & zm, 'exterior': x & y, 'contract': (x & ~y) | (x & zm),
         'symmetric_inner': (x == 0) or (y == 0) or (x & y & zm) or ((x & ~y) and (y & ~x))}[kind]
    return (x ^ y, 0 if z else s)

def result_post(kind, P, V, R):
    d = P + V + R; zm, nm = masks(P, V, R)
    def post(x, o):
        e, z, s = spec(kind, x.a, x.b, d, zm, nm)
        mult = z3.If(z, C8(0), z3.If(s == 1, C8(255), C8(1)))
        return [('coefficient is the sign of reordering times the squares of the shared vectors', o.m == mult),
                ('blade is the symmetric difference', z3.Or(z, o.e == e))]
    return post
def result_py(kind, P, V, R):
    zm, nm = masks(P, V, R)
    def post(p, o):
        e, m = py_spec(kind, p[0], p[1], zm, nm)
        if o[1] != m & 255: return 'coefficient of e_%s %s e_%s' % (bin(p[0]), kind, bin(p[1]))
        if m and o[0] != e: return 'blade of e_%s %s e_%s' % (bin(p[0]), kind, bin(p[1]))
    return post

def cut(kind, P, V, R):
    d = P + V + R; zm, nm = masks(P, V, R)
    def inv(x, r):
        out = [('sign of the remaining product', B(r['n'], 0) ^ swap_parity(r['x'], r['y'], d, C8(nm)) == swap_parity(x.a, x.b, d, C8(nm))),
               ('the operands shrink within the algebra', z3.And((r['x'] & ~x.a) == 0, (r['y'] & ~(x.a | x.b)) == 0))]
        if kind == 'exterior': out.append(('no vector is shared', (r['x'] & r['y']) == 0))
        elif kind == 'contract':
            out += [('remaining product has the same blade', (r['x'] ^ r['y']) == (x.a ^ x.b)),
                    ('what is still missing', (r['x'] & ~r['y']) == (x.a & ~x.b)),
                    ('degenerate vectors are still to come', (r['x'] & C8(zm)) == (x.a & C8(zm)))]
        else:
            out += [('remaining product has the same blade', (r['x'] ^ r['y']) == (x.a ^ x.b)),
                    ('degenerate contractions are still to come', (r['x'] & r['y'] & C8(zm)) == (x.a & x.b & C8(zm)))]
        return out
    return Cut(kind + r'7product', roles=lambda x: {'x': x.a, 'y': x.b, 'n': 0}, inv=inv, variant=lambda r: r['x'],
               optional=lambda x, r: [('something remains', r['x'] != 0)])

def geo_contract(P, V, R):
    """the contract of geometric::product, applied at call sites (symmetric_inner)"""
    d = P + V + R; zm, nm = masks(P, V, R)
    def h(e, st, vals):
        a, b = [v if not isinstance(v, int) else z3.BitVecVal(v, 8) for v in vals]
        el, z, s = spec('geometric', a, b, d, zm, nm)
        blade = z3.If(z, e.fresh('gp_blade', z3.BitVecSort(8)), el)
        m = z3.If(z, z3.BitVecVal(0, 32), z3.If(s == 1, z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
        return z3.Concat(m, e.fresh('pad', z3.BitVecSort(24)), blade)
    return h

KINDS = ('geometric', 'exterior', 'contract', 'symmetric_inner')
def product_fn(kind, P, V, R):
    d = P + V + R
    lim = 1 << d
    pre = (lambda x: [z3.And(z3.ULT(z3.ZeroExt(1, x.a), lim), z3.ULT(z3.ZeroExt(1, x.b), lim))])
    return Fn('%s product of blades, metric(%d,%d,%d)' % (kind, P, V, R), 'a b', 'e m',
              'auto r = gal::algebra<gal::metric<%d,%d,%d>>::%s::product(a, b); out[0] = r.first; out[1] = static_cast<uint8_t>(r.second);' % (P, V, R, kind),
              pre=pre, post=result_post(kind, P, V, R), kind='u8', mode='bv', on='algebra<metric<P,V,R>>::%s::product' % kind, incl=('geometric_algebra',),
              cuts=[cut(kind, P, V, R)], callees=[(r'geometric7product', geo_contract(P, V, R))] if kind == 'symmetric_inner' else (),
              domain=lambda: [[a, b] for a in range(lim) for b in range(lim)], pypost=result_py(kind, P, V, R), group=('m', P, V, R), timeout=30000)

def metric_fns(P, V, R):
    d = P + V + R; g = ('m', P, V, R)
    def sq(i): return z3.If(z3.ULT(i, R), C8(0), z3.If(z3.ULT(i, R + P), C8(1), C8(255))) if d else C8(0)
    pre = lambda x: [z3.And(z3.ULT(x.a, d), z3.ULT(x.b, d))]
    py = lambda i: 0 if i < R else 1 if i < R + P else 255
    M = 'gal::metric<%d,%d,%d>' % (P, V, R)
    out = [Fn('inner product of basis vectors, metric(%d,%d,%d)' % (P, V, R), 'a b', 'm', 'out[0] = static_cast<uint8_t>(%s::dot(a, b));' % M, pre=pre,
              post=lambda x, o: [('diagonal metric', o.m == z3.If(x.a == x.b, sq(x.a), C8(0)))], kind='u8', mode='bv', on='metric<P,V,R>::dot', incl=('geometric_algebra',),
              domain=lambda: [[a, b] for a in range(d) for b in range(d)], pypost=lambda p, o: None if o[0] == (py(p[0]) if p[0] == p[1] else 0) else 'dot', group=g)]
    pre2 = lambda x: [z3.And(z3.ULT(x.a, d), z3.ULT(z3.ZeroExt(1, x.b), 1 << d))]
    def post2(x, o):
        has = z3.Extract(0, 0, z3.LShR(x.b, x.a)) == 1
        return [('index of the shared vector', o.i == z3.If(has, x.a, C8(255))), ('its square', z3.Or(z3.Not(has), o.m == sq(x.a)))]
    def py2(p, o):
        has = p[1] >> p[0] & 1
        if o[0] != (p[0] if has else 255) or (has and o[1] != py(p[0])): return 'intercept'
    out.append(Fn('intercept of a vector with a blade, metric(%d,%d,%d)' % (P, V, R), 'a b', 'i m',
                  'auto r = %s::intercept(a, b); out[0] = static_cast<uint8_t>(r.first); out[1] = static_cast<uint8_t>(r.second);' % M, pre=pre2, post=post2,
                  kind='u8', mode='bv', on='metric<P,V,R>::intercept', incl=('geometric_algebra',), domain=lambda: [[a, b] for a in range(d) for b in range(1 << d)], pypost=py2, group=g))
    return out

def T(x, d):
    """parity of the number of transpositions that sort e_x e_complement"""
    r = z3.BitVecVal(0, 1)
    for i in range(d):
        acc = z3.BitVecVal(0, 1)
        for j in range(i + 1, d): acc = acc ^ B(x, j)
        r = r ^ (~B(x, i) & acc)
    return r
def dual_fn():
    def pre(x): return [z3.ULE(x.dim, 8), z3.ULT(z3.ZeroExt(1, x.a), z3.BitVecVal(1, 9) << z3.ZeroExt(1, x.dim))]
    def full(dim): return z3.Extract(7, 0, (z3.BitVecVal(1, 9) << z3.ZeroExt(1, dim)) - 1)
    def post(x, o):
        # vectors above the dimension are absent from a and from the dimension: count only positions below the top of a
        return [('complement', o.e == full(x.dim) ^ x.a), ('e_a ^ dual(e_a) = pseudoscalar', o.m == z3.If(T(x.a, 8) == 1, C8(255), C8(1)))]
    def py(p, o):
        a, d = p
        c = ((1 << d) - 1) ^ a
        s = sum(pc(a >> (i + 1)) for i in range(d) if not a >> i & 1) & 1
        if o[0] != c or o[1] != (255 if s else 1): return 'dual of blade %s in dimension %d' % (bin(a), d)
    def popw(v):
        r = z3.BitVecVal(0, 32)
        for i in range(8): r = r + z3.ZeroExt(31, B(v, i))
        return r
    def inv(x, r): return [('the blade stays a blade', z3.Extract(31, 8, r['x']) == 0), ('sign of what remains', B(r['n'], 0) ^ T(r['x'], 8) == T(x.a, 8)), ('parity of the grade of what remains', B(r['g'], 0) == B(popw(r['x']), 0))]
    return Fn('Poincare dual of a blade, every dimension', 'a dim', 'e m',
              'auto r = gal::detail::poincare_complement(a, dim); out[0] = static_cast<uint8_t>(r.first); out[1] = static_cast<uint8_t>(r.second);',
              pre=pre, post=post, kind='u8', mode='bv', on='detail::poincare_complement', incl=('geometric_algebra',),
              cuts=[Cut('poincare_complement', roles=lambda x: {'x': x.a, 'n': 0, 'g': popw(x.a)}, inv=inv, variant=lambda r: r['x'],
                        optional=lambda x, r: [('something remains', r['x'] != 0)], width=32)],
              domain=lambda: [[a, d] for d in range(9) for a in range(1 << d)], pypost=py)

def metrics(n): return [(p, v, r) for p in range(n + 1) for v in range(n + 1 - p) for r in range(n + 1 - p - v) if p + v + r]

def blades(ctx):
    ctx.assume('basis vectors are ordered degenerate, positive, negative, as documented in geometric_algebra.hpp; at most 8 of them (elem_t has 8 bits)')
    fns = [dual_fn()]
    for m in metrics(8):
        fns += [product_fn(k, *m) for k in KINDS] + metric_fns(*m)
    ctx.fns(fns, 'blade products for all %d metrics with at most 8 basis vectors' % len(metrics(8)))

MV1 = 'using A = gal::algebra<gal::metric<%d,%d,%d>>; gal::mv<A, 0, 1, 1> m{gal::mv_size{0, 1, 1}, {}, {gal::mon{gal::rat{static_cast<int>(n), 1}, gal::zero, 0, 0}}, {gal::term{1, 0, el}}};'
def W(v): return z3.BitVecVal(v, 32)
def pop32(v, n=8):
    r = W(0)
    for i in range(n): r = r + z3.ZeroExt(31, z3.Extract(i, i, v))
    return r
def term_fns(P, V, R):
    d = P + V + R; lim = 1 << d; full = lim - 1
    pre = lambda x: [z3.ULT(x.el, lim), x.n != 0, x.n < 1000000, x.n > -1000000]
    smp = lambda rg: [rg.randrange(lim), rg.choice([1, 2, 3, 5, -1, -7, 1000]) & 0xffffffff]
    mk = MV1 % (P, V, R); M = 'metric(%d,%d,%d)' % (P, V, R); kw = dict(kind='u32', mode='bv', incl=('geometric_algebra',), pre=pre, sample=smp, group=('t', P, V, R))
    one = 'out[0] = r.size.term; out[1] = r.size.mon; out[2] = r.terms[0].count; out[3] = r.terms[0].element; out[4] = r.mons[0].q.num; out[5] = r.mons[0].q.den; out[6] = r.terms[0].mon_offset;'
    O = 'nt nm cnt e q den off'
    def shape(o): return [('one term, one monomial', z3.And(o.nt == 1, o.nm == 1, o.cnt == 1, o.den == 1, o.off == 0))]
    def rev_post(x, o):
        k = z3.Extract(1, 0, pop32(x.el))
        return shape(o) + [('same blade', o.e == x.el), ('sign (-1)^(k(k-1)/2)', o.q == z3.If(z3.Extract(1, 1, k) == 1, -x.n, x.n))]
    def dual_post(x, o):
        return shape(o) + [('complementary blade', o.e == x.el ^ full), ('e_a ^ dual(e_a) = pseudoscalar', o.q == z3.If(T(z3.Extract(7, 0, x.el), 8) == 1, -x.n, x.n))]
    out = [Fn('reversal of a term, ' + M, 'el n', O, mk + ' auto r = gal::detail::reverse(m); ' + one, post=rev_post, on='detail::reverse', **kw),
           Fn('dual of a term, ' + M, 'el n', O, mk + ' auto r = gal::detail::poincare_dual(m); ' + one, post=dual_post, on='detail::poincare_dual',
              callees=[('poincare_complement', dual_contract())], **kw),
           Fn('negation of a term, ' + M, 'el n', O, mk + ' auto r = gal::detail::negate(m); ' + one, on='detail::negate',
              post=lambda x, o: shape(o) + [('same blade', o.e == x.el), ('opposite coefficient', o.q == -x.n)], **kw)]
    kw = dict(kw)
    kw['pre'] = lambda x: pre(x) + [z3.ULE(x.g, 8)]; kw['sample'] = lambda rg: smp(rg) + [rg.randrange(9)]
    def sel_post(x, o):
        hit = pop32(x.el) == x.g
        return [('the grade decides', o.nt == z3.If(hit, W(1), W(0))), ('monomials follow', o.nm == o.nt),
                ('the term is kept', z3.Or(z3.Not(hit), z3.And(o.cnt == 1, o.e == x.el, o.q == x.n, o.den == 1, o.off == 0)))]
    out.append(Fn('grade selection of a term, ' + M, 'el n g', O, mk + ' auto r = m.select_grade(static_cast<gal::elem_t>(g)); ' + one, post=sel_post, on='mv::select_grade', **kw))
    kw = dict(kw); kw['pre'] = lambda x: pre(x) + [z3.ULT(x.g, lim)]; kw['sample'] = lambda rg: (lambda p: p + [rg.choice([p[0], rg.randrange(lim)])])(smp(rg))
    def cmp_post(x, o):
        hit = x.el == x.g
        return [('the blade decides', o.nt == z3.If(hit, W(1), W(0))), ('monomials follow', o.nm == o.nt),
                ('the coefficient becomes a scalar', z3.Or(z3.Not(hit), z3.And(o.cnt == 1, o.e == 0, o.q == x.n, o.den == 1, o.off == 0)))]
    out.append(Fn('component of a term, ' + M, 'el n g', O, mk + ' auto r = m[static_cast<gal::elem_t>(g)]; ' + one, post=cmp_post, on='mv::operator[]', **kw))
    # constants of the algebra
    sg = -1 if (d * (d - 1) // 2 + V) % 2 else 1
    kc = dict(kind='u32', mode='bv', incl=('geometric_algebra',), group=('t', P, V, R))
    A = 'using A = gal::algebra<gal::metric<%d,%d,%d>>;' % (P, V, R)
    if d < 9:
        out.append(Fn('pseudoscalar, ' + M, 'z', 'e q den ei qi deni nt nti', A + ' out[0] = A::pseudoscalar.terms[0].element; out[1] = A::pseudoscalar.mons[0].q.num; out[2] = A::pseudoscalar.mons[0].q.den;'
                      'out[3] = A::pseudoscalar_inv.terms[0].element; out[4] = A::pseudoscalar_inv.mons[0].q.num; out[5] = A::pseudoscalar_inv.mons[0].q.den; out[6] = A::pseudoscalar.size.term; out[7] = A::pseudoscalar_inv.size.term;',
                      post=lambda x, o: [('all vectors', z3.And(o.e == full, o.q == 1, o.den == 1, o.nt == 1, o.nti == 1))] +
                                        ([('I * I_inv = 1', z3.And(o.ei == full, o.qi == W(sg & 0xffffffff), o.deni == 1))] if R == 0 else []),
                      on='algebra::pseudoscalar', **kc))
    return out

def dual_contract():
    def h(e, st, vals):
        a, dim = vals
        a = a if not isinstance(a, int) else z3.BitVecVal(a, 8)
        if not isinstance(dim, int): raise __import__('irparse').Unsupported('symbolic dimension')
        c = z3.ZeroExt(24, a) ^ W((1 << dim) - 1)
        return z3.Concat(z3.If(T(a, 8) == 1, W(-1), W(1)), c)
    return h

def basis_fns(P, V, R):
    d = P + V + R
    M = 'metric(%d,%d,%d)' % (P, V, R); A = 'using A = gal::algebra<gal::metric<%d,%d,%d>>;' % (P, V, R)
    ev = [e for e in range(1 << d) if pc(e) % 2 == 0]; bi = [e for e in range(1 << d) if pc(e) == 2]
    out = []
    for nm, els in (('even_mv', ev), ('bivector_mv', bi)):
        if not els: continue
        n = len(els)
        outs = ['nt', 'nm', 'ni'] + ['e%d' % i for i in range(n)] + ['v%d' % i for i in range(n)] + ['k%d' % i for i in range(n)]
        code = A + ' auto r = A::%s(id); out[0] = r.size.term; out[1] = r.size.mon; out[2] = r.size.ind; for (unsigned i = 0; i != %d; ++i) { auto const& t = r.terms[i]; auto const& m = r.mons[t.mon_offset]; auto const& v = r.inds[m.ind_offset];'               ' out[3 + i] = t.element; out[%d + i] = v.id; out[%d + i] = (t.count == 1 && m.count == 1 && m.q.num == 1 && m.q.den == 1 && v.degree.num == 1 && v.degree.den == 1 && m.degree.num == 1 && m.degree.den == 1); }' % (nm, n, 3 + n, 3 + 2 * n)
        def post(x, o, n=n, els=els):
            return [('number of terms', z3.And(o.nt == n, o.nm == n, o.ni == n))] + [('element %d' % i, o['e%d' % i] == els[i]) for i in range(n)] + \
                   [('coordinate %d' % i, z3.And(o['v%d' % i] == x.id + i, o['k%d' % i] == 1)) for i in range(n)]
        out.append(Fn('%s, %s' % (nm, M), 'id', outs, code, post=post, kind='u32', mode='bv', incl=('geometric_algebra',), on='algebra::' + nm, group=('b', P, V, R),
                      pre=lambda x: [z3.ULT(x.id, 1 << 30)]))
    return out

def terms(ctx):
    fns = []
    full = [(8, 0, 0), (3, 0, 1), (4, 1, 0), (3, 0, 0), (2, 3, 2)]      # reversal, selection ... do not look at the metric
    for m in metrics(8):
        fns += [f for f in term_fns(*m) if m in full or ctx.thorough or f.name.startswith(('dual', 'pseudo'))]
    for m in metrics(6): 
        if sum(m) >= 2 and (sum(m) <= 5 or ctx.thorough): fns += basis_fns(*m)
    ctx.fns(fns, 'reversal, dual, negation, grade and component of a term; constants and spanning multivectors of the algebra')

def high(ctx):
    import random, fam, ga
    from fam import Fam, group, binops, unops, p, q
    ctx.assume(*runner.COMMON_ASSUME)
    f = Fam('h'); rg = random.Random('c01/%d' % ctx.seed)
    for m in ((5, 0, 0), (4, 1, 1), (3, 3, 0), (6, 1, 0), (2, 2, 3), (8, 0, 0), (4, 4, 0), (1, 6, 1)) if not ctx.thorough else [m for m in metrics(8) if sum(m) > 4]:
        A = ga.metric_alg(*m); d = A.dim
        top = [(1 << d) - 1, (1 << d) - 1 ^ 1, (1 << d) - 1 ^ (1 << (d - 1))]
        for i, e in enumerate(binops(p, q) + unops(p) + [p.grade(d - 1), p.grade(d)]):
            pick = lambda: sorted(set([rg.choice(top)] + [rg.randrange(1 << d) for _ in range(3)]))
            ins = [('p', group(A.ns, pick())), ('q', group(A.ns, pick()))]
            f.add(A, ins if i < 8 else ins[:1], e)
    ctx.progs(f.P, 'operators on sparse multivectors of algebras with 5 to 8 basis vectors', batch=6)
PARTS = [('blades', blades), ('terms', terms), ('high', high)]
