"""contracts on gal::rat shared by C07, C08, C17"""
import z3
import symex as S
from classb import Fn
# ------------------------------------------------------------ assumed contract: std::gcd (libstdc++)
def c_gcd(e, st, args):
    """assumed: std::gcd(a, b) for (a,b) != (0,0): g >= 1, a = g a', b = g b', a' and b' not both even (lowest terms at the
    prime 2), and for b > 0 the pair (a', b') depends on the ratio a : b only"""
    a, b = (e.toint(v, 32) for v in args)
    g, p, q = (e.fresh(n, z3.IntSort()) for n in ('gcd', 'ga', 'gb'))
    st.pc.append(z3.Implies(z3.Or(a != 0, b != 0), z3.And(g >= 1, a == g * p, b == g * q, z3.Or(p % 2 != 0, q % 2 != 0))))
    ab = lambda x: z3.If(x < 0, -x, x)
    # consequences of the above, given as hints to the non-linear solver
    st.pc.append(z3.Implies(z3.And(g >= 1, z3.Or(a != 0, b != 0)), z3.And((a > 0) == (p > 0), (a < 0) == (p < 0), (b > 0) == (q > 0), (b < 0) == (q < 0), ab(p) <= ab(a), ab(q) <= ab(b),
                 z3.Implies(b != 0, g <= ab(b)), z3.Implies(a != 0, g <= ab(a)), z3.Implies(a == 0, ab(q) == 1), z3.Implies(b == 0, ab(p) == 1), z3.Implies(g == 1, z3.And(p == a, q == b)), z3.Implies(ab(b) == 1, g == 1))))
    N = z3.Function('lowest_num', z3.RealSort(), z3.IntSort()); D = z3.Function('lowest_den', z3.RealSort(), z3.IntSort())
    ratio = z3.ToReal(a) / z3.ToReal(b)
    st.pc.append(z3.Implies(b > 0, z3.And(p == N(ratio), q == D(ratio))))
    st.pc.append(z3.And(g >= 0, g < (1 << 31)))
    tab = list(st.ghost.get('gcdq', [])); tab.append((g, a, p)); tab.append((g, b, q)); st.ghost['gcdq'] = tab
    return g
GCD = (r'^_ZSt3gcd', c_gcd)

def exact_div(e, st, x, y):
    """x / gcd: the cofactor from the contract of gcd"""
    for g, a, p in st.ghost.get('gcdq', []):
        if y.eq(g) and (x.eq(a) or z3.simplify(x == a).eq(z3.BoolVal(True))): return p
    return None

R31 = (1 << 31) - 1
ab = lambda x: z3.If(x < 0, -x, x)
def inr(*t): return [z3.And(x >= -R31, x <= R31) for x in t]

# ------------------------------------------------------------ contract of detail::overflow_gate
def gate_post(n, d, rn, rd):
    """value preserved up to 1.01e-7, exactly for d < 1024; canonical zero; positive denominator; no growth"""
    return [('the denominator stays positive', rd >= 1),
            ('the denominator does not grow', rd <= d),
            ('the numerator does not grow', ab(rn) <= ab(n)),
            ('exact below the threshold', z3.Implies(d < 1024, rn * d == n * rd)),
            ('zero is zero', z3.Implies(n == 0, z3.And(rn == 0, rd == 1))),
            ('within the tolerance', ab(rn * d - n * rd) * 1000000000 <= 101 * (d * rd))]
def unpack(e, v):
    if isinstance(v, S.Pack): return e.toint(v.lo, 32), e.toint(v.hi, 32)
    if isinstance(v, int): return e.toint(v & 0xffffffff, 32), e.toint(v >> 32, 32)
    raise S.Unsupported('rat argument %r' % (v,))
def c_gate(e, st, args):
    """proved in C08"""
    n, d = unpack(e, args[0])
    st.obls.append(('overflow_gate: the denominator is positive', list(st.pc), d >= 1))
    rn, rd = e.fresh('gn', z3.IntSort()), e.fresh('gd', z3.IntSort())
    for _, g in gate_post(n, d, rn, rd): st.pc.append(g)
    return S.Pack(rn, rd)
GATE = (r'^_ZN3gal6detail13overflow_gateENS_3ratE$', c_gate)

def value_post(N, D, rn, rd, exact=False):
    """rn/rd == N/D (exactly for D < 1024, or always), D > 0"""
    L = [('positive denominator', rd >= 1), ('zero is represented uniquely', z3.Implies(N == 0, z3.And(rn == 0, rd == 1)))]
    L.append(('the denominator is at most the product of the denominators', rd <= D))
    if exact: L.append(('exact value', rn * D == N * rd))
    else:
        L.append(('exact value for small denominators', z3.Implies(D < 1024, rn * D == N * rd)))
        L.append(('value within the tolerance', ab(rn * D - N * rd) * 1000000000 <= 101 * (D * rd)))
    return L
AB = 'an ad bn bd'
PREAB = lambda x: [x.ad >= 1, x.bd >= 1] + inr(x.an, x.bn)
def smp(n):
    def f(rg):
        out = []
        for i in range(n):
            k = rg.random()
            hi = 6 if k < .4 else 40 if k < .7 else 2000 if k < .9 else 46000
            v = rg.randint(-hi, hi)
            if i % 2: v = abs(v) or 1
            out.append(v)
        return out
    return f
def mk(name, ins, code, post, pre=None, on=None, gate=True, outs='rn rd', **k):
    cal = [GCD] + ([GATE] if gate else [])
    n = len(ins.split())
    p0 = PREAB if n == 4 else (lambda x: [x.ad >= 1] + inr(*[v for v in x.values()]))
    return Fn(name, ins, outs, 'using namespace gal; ' + code, pre=lambda x: p0(x) + (list(pre(x)) if pre else []), post=post, callees=cal, exact_div=exact_div, on=on or name, sample=smp(n),
              timeout=30000, **k)
OUT = ' out[0] = r.num; out[1] = r.den;'
def contracts():
    A, B = 'rat{an, ad}', 'rat{bn, bd}'
    L = []
    sumN = lambda x, s=1: x.an * x.bd + s * x.bn * x.ad
    def presum(x, s=1): return inr(x.an * x.bd, x.bn * x.ad, sumN(x, s), x.ad * x.bd)
    L.append(mk('rat + rat', AB, 'rat r = %s + %s;' % (A, B) + OUT, lambda x, o: value_post(sumN(x), x.ad * x.bd, o.rn, o.rd), presum, on='gal::operator+(rat, rat)'))
    L.append(mk('rat - rat', AB, 'rat r = %s - %s;' % (A, B) + OUT, lambda x, o: value_post(sumN(x, -1), x.ad * x.bd, o.rn, o.rd), lambda x: presum(x, -1), on='gal::operator-(rat, rat)'))
    L.append(mk('rat += rat', AB, 'rat r = %s; r += %s;' % (A, B) + OUT, lambda x, o: value_post(sumN(x), x.ad * x.bd, o.rn, o.rd, True), presum, on='gal::rat::operator+='))
    L.append(mk('rat * rat', AB, 'rat r = %s * %s;' % (A, B) + OUT, lambda x, o: value_post(x.an * x.bn, x.ad * x.bd, o.rn, o.rd), lambda x: inr(x.an * x.bn, x.ad * x.bd), on='gal::operator*(rat, rat)'))
    L.append(mk('rat *= rat', AB, 'rat r = %s; r *= %s;' % (A, B) + OUT, lambda x, o: value_post(x.an * x.bn, x.ad * x.bd, o.rn, o.rd, True), lambda x: inr(x.an * x.bn, x.ad * x.bd), on='gal::rat::operator*='))
    def qpost(exact):
        def f(x, o):
            s = z3.If(x.bn < 0, -1, 1)
            return value_post(s * (x.an * x.bd), s * (x.ad * x.bn), o.rn, o.rd, exact)
        return f
    qpre = lambda x: [x.bn != 0] + inr(x.an * x.bd, x.ad * x.bn)
    L.append(mk('rat / rat', AB, 'rat r = %s / %s;' % (A, B) + OUT, qpost(False), qpre, on='gal::operator/(rat, rat)'))
    L.append(mk('rat /= rat', AB, 'rat r = %s; r /= %s;' % (A, B) + OUT, qpost(True), qpre, on='gal::rat::operator/='))
    L.append(mk('rat / int', 'an ad k', 'rat r = %s / (int)k;' % A + OUT, lambda x, o: value_post(z3.If(x.k < 0, -x.an, x.an), z3.If(x.k < 0, -x.k, x.k) * x.ad, o.rn, o.rd), lambda x: [x.k != 0] + inr(x.k * x.ad), on='gal::operator/(rat, int)'))
    L.append(mk('int * rat', 'an ad k', 'rat r = (int)k * %s;' % A + OUT, lambda x, o: value_post(x.k * x.an, x.ad, o.rn, o.rd), lambda x: inr(x.k * x.an), on='gal::operator*(int, rat)'))
    L.append(mk('-rat', 'an ad', 'rat r = -%s;' % A + OUT, lambda x, o: value_post(-x.an, x.ad, o.rn, o.rd, True), lambda x: [z3.Implies(x.an == 0, x.ad == 1)], on='gal::operator-(rat)'))
    L.append(mk('negation', 'an ad', 'rat r = %s.negation();' % A + OUT, lambda x, o: value_post(-x.an, x.ad, o.rn, o.rd, True), lambda x: [z3.Implies(x.an == 0, x.ad == 1)], on='gal::rat::negation'))
    L.append(mk('reciprocal', 'an ad', 'rat r = %s.reciprocal();' % A + OUT, lambda x, o: value_post(z3.If(x.an < 0, -x.ad, x.ad), ab(x.an), o.rn, o.rd, True), lambda x: [x.an != 0], on='gal::rat::reciprocal'))
    cross = lambda x: x.an * x.bd - x.bn * x.ad
    b2 = lambda o, c: [('result', (o.r != 0) == c), ('boolean', z3.Or(o.r == 0, o.r == 1))]
    L.append(mk('rat == rat', AB, 'out[0] = %s == %s;' % (A, B), lambda x, o: b2(o, cross(x) == 0), outs='r', on='gal::operator==(rat, rat)'))
    L.append(mk('rat != rat', AB, 'out[0] = %s != %s;' % (A, B), lambda x, o: b2(o, cross(x) != 0), outs='r', on='gal::operator!=(rat, rat)'))
    L.append(mk('rat < rat', AB, 'out[0] = %s < %s;' % (A, B), lambda x, o: b2(o, cross(x) < 0), lambda x: inr(x.an * x.bd, x.bn * x.ad), outs='r', on='gal::operator<(rat, rat)'))
    L.append(mk('rat > rat', AB, 'out[0] = %s > %s;' % (A, B), lambda x, o: b2(o, cross(x) > 0), lambda x: inr(x.an * x.bd, x.bn * x.ad), outs='r', on='gal::operator>(rat, rat)'))
    L.append(mk('rat != int', 'an ad k', 'out[0] = %s != (int)k;' % A, lambda x, o: b2(o, x.an != x.k * x.ad), outs='r', on='gal::operator!=(rat, int)'))
    L.append(mk('is_zero', 'an ad', 'out[0] = %s.is_zero();' % A, lambda x, o: b2(o, x.an == 0), outs='r', on='gal::rat::is_zero'))
    L.append(mk('is_unit', 'an ad', 'out[0] = %s.is_unit();' % A, lambda x, o: b2(o, x.an == x.ad), outs='r', on='gal::rat::is_unit'))
    for T, tol in (('double', '1e-12'), ('float', '1e-5f')):
        L.append(mk('conversion to ' + T, 'an ad', '%s v = static_cast<%s>(%s); %s d = v * (%s)ad - (%s)an; %s m = (%s)an; if (d < 0) d = -d; if (m < 0) m = -m; out[0] = d <= %s * m;' % (T, T, A, T, T, T, T, T, tol),
                    lambda x, o: [('quotient of numerator and denominator', o.r == 1)], outs='r', on='gal::rat::operator T'))
    L.append(mk('named constants', 'an ad', 'rat const c[] = {one, minus_one, one_half, minus_one_half, zero, rat{}}; for (int i = 0; i != 6; ++i) { out[2 * i] = c[i].num; out[2 * i + 1] = c[i].den; }',
                lambda x, o: [('constant', o['c%d' % i] == v) for i, v in enumerate((1, 1, -1, 1, 1, 2, -1, 2, 0, 1, 0, 1))], outs=' '.join('c%d' % i for i in range(12)), on='gal::one, minus_one, one_half, minus_one_half, zero'))
    return L

def gate_contract(body=True):
    return Fn('overflow_gate', 'an ad', 'rn rd', 'using namespace gal; rat r = detail::overflow_gate(rat{an, ad});' + OUT, pre=lambda x: [x.ad >= 1] + inr(x.an),
              post=lambda x, o: gate_post(x.an, x.ad, o.rn, o.rd), callees=[GCD], exact_div=exact_div, on='gal::detail::overflow_gate', sample=gsmp, timeout=60000)
def gsmp(rg):
    k = rg.randint(0, 4)
    d = [rg.randint(1, 1100), rg.randint(1000, 5000), rg.randint(1, 1 << 31) - 1 or 1, rg.randint(1 << 20, (1 << 31) - 1), 1 << rg.randint(9, 30)][k]
    m = rg.choice([3, 10, 100, d, 10 * d, 1 << 30])
    return [max(-R31, min(R31, rg.randint(-m, m))), d]
