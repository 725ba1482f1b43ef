"""integer and power helpers equal their mathematical definitions"""
from fam import *
import runner, z3
from classb import Fn
LEVEL = 'proof'
def popc(x):
    s = z3.BitVecVal(0, x.size())
    for i in range(x.size()): s = s + z3.ZeroExt(x.size() - 1, z3.Extract(i, i, x))
    return s
def bits(ctx):
    ctx.assume('leading_set_index: argument is not zero (documented precondition); next_pow_2: the next power of two is representable; next_even: the argument has even weight and a successor of even weight exists')
    U = z3.ULE
    def pow2(w):
        def post(x, o):
            return [('zero', z3.Implies(x.s == 0, o.r == 0)),
                    ('power of two', z3.Implies(x.s != 0, z3.And(o.r != 0, o.r & (o.r - 1) == 0))),
                    ('not below', z3.Implies(x.s != 0, z3.UGE(o.r, x.s))),
                    ('least', z3.Implies(x.s != 0, z3.Or(o.r == 1, z3.ULT(z3.LShR(o.r, 1), x.s))))]
        return post
    L = [
      Fn('pop_count', 's', 'r', 'out[0] = gal::pop_count(s);', kind='u32', mode='bv', on='gal::pop_count', post=lambda x, o: [('number of set bits', o.r == popc(x.s))]),
      Fn('leading_set_index', 's', 'r', 'out[0] = gal::leading_set_index(s);', kind='u32', mode='bv', on='gal::leading_set_index', pre=lambda x: [x.s != 0],
         post=lambda x, o: [('index in range', z3.ULT(o.r, 32)), ('leading bit', z3.LShR(x.s, o.r) == 1)]),
      Fn('next_pow_2<uint32_t>', 's', 'r', 'out[0] = gal::next_pow_2(s);', kind='u32', mode='bv', on='gal::next_pow_2', pre=lambda x: [U(x.s, 1 << 31)], post=pow2(32)),
      Fn('next_pow_2<uint64_t>', 's', 'r', 'out[0] = gal::next_pow_2(s);', kind='u64', mode='bv', on='gal::next_pow_2', pre=lambda x: [U(x.s, 1 << 63)], post=pow2(64)),
      Fn('rot32', 's', 'r', 'out[0] = gal::rot32(s);', kind='u32', mode='bv', on='gal::rot32', post=lambda x, o: [('rotation by one byte to the right', o.r == z3.RotateRight(x.s, 8))]),
      Fn('next_even', 's', 'r', 'out[0] = gal::next_even(s);', kind='u32', mode='bv', on='gal::next_even',
         pre=lambda x: [U(x.s, 0xfffffffc), popc(x.s) & 1 == 0],
         post=lambda x, o: [('greater', z3.UGT(o.r, x.s)), ('even weight', popc(o.r) & 1 == 0), ('distance', U(o.r - x.s, 3))] +
                           [('least', z3.Implies(z3.ULT(x.s + j, o.r), popc(x.s + j) & 1 == 1)) for j in (1, 2)]),
      Fn('abs(num_t)', 's', 'r', 'out[0] = gal::detail::abs((gal::num_t)s);', kind='i32', mode='int', on='gal::detail::abs', pre=lambda x: [x.s > -(1 << 31)],
         post=lambda x, o: [('absolute value', z3.And(o.r >= 0, z3.Or(o.r == x.s, o.r == -x.s)))]),
    ]
    ctx.fns(L, 'bit helpers')
def rfpow(x, n):
    y = RF.const(x.R, 1); b = x; k = abs(n)
    while k:
        if k & 1: y = y * b
        b = b * b; k >>= 1
    return y if n >= 0 else RF.const(x.R, 1) / y
def powers(ctx):
    ctx.assume('machine floating point is treated as exact real arithmetic')
    f = Fam('pw')
    ns = list(range(-400, 401)) + [s * k for k in (170, 191, 192, 200, 255, 256, 257, 300, 341, 511, 512, 513, 682, 1000, 1023, 1024, 1025) for s in (1, -1)]
    if ctx.thorough: ns = list(range(-600, 601)) + [s * k for k in (682, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097) for s in (1, -1)]
    for T in ('double', 'float'):
        for n in ns if T == 'double' else ns[::3]:
            f.raw(1, 1, 'out[0] = gal::pow(in[0], std::integral_constant<int, %d>{}, std::integral_constant<int, 1>{});' % n,
                  lambda R, x, n=n: [rfpow(x[0], n)], T=T, desc='gal::pow<%s, %d, 1>' % (T, n))
    ctx.progs(f.P, 'integer powers', batch=40)
PARTS = [('bits', bits), ('powers', powers)]
