"""checksum of a word is the standard CRC-32 of its bytes; distinct words have distinct checksums"""
from fam import *
import runner, z3
from classb import Fn
LEVEL = 'proof'
def crcbits(c, nbits):
    for _ in range(nbits):
        c = z3.LShR(c, 1) ^ z3.If(z3.Extract(0, 0, c) == 1, z3.BitVecVal(0xedb88320, 32), z3.BitVecVal(0, 32))
    return c
class Inj:
    def __init__(self, e): self.e = e
def words(ctx):
    H = ('crc',)
    M = z3.BitVecVal(0xffffffff, 32)
    L = [
      Fn('crc32', 'w', 'r', 'out[0] = gal::detail::crc32(w);', kind='u32', mode='bv', incl=H, on='gal::detail::crc32', timeout=120000,
         post=lambda x, o: [('reflected CRC-32 of the four bytes, least significant first', o.r == ~crcbits(x.w ^ M, 32))]),
      Fn('crc32_8', 'w', 'r', 'out[0] = gal::detail::crc32_8((uint8_t)w);', kind='u32', mode='bv', incl=H, on='gal::detail::crc32_8', timeout=120000, pre=lambda x: [z3.ULE(x.w, 255)],
         post=lambda x, o: [('reflected CRC-32 of one byte', o.r == ~crcbits(x.w ^ M, 8))]),
      Fn('crc32 is a bijection', 'w', 'r', 'out[0] = gal::detail::crc32(w);', kind='u32', mode='bv', incl=H, on='gal::detail::crc32', timeout=60000,
         post=lambda x, o: [('distinct words have distinct checksums', Inj(o.r))]),
      Fn('crc32 of two words', 'v w', 'r s', 'out[0] = gal::detail::crc32(v); out[1] = gal::detail::crc32(w);', kind='u32', mode='bv', incl=H, on='gal::detail::crc32', timeout=10000,
         post=lambda x, o: [('checksums do not depend on earlier calls', o.s == ~crcbits(x.w ^ M, 32)), ('first', o.r == ~crcbits(x.v ^ M, 32))]),
    ]
    ctx.fns(L, 'checksums')
def twins():
    """pairs of subexpressions that differ in one respect only (or whose checksums coincide by construction)"""
    T = []
    d, e = V('d'), V('e')
    for x, y in ((a, b), (a, c), (a, e), (d, e)):
        T += [(x * x, y * y), (x ^ dual(x), y ^ dual(y)), (x | x, y | y), (~x, ~y), (dual(x), dual(y)), (x * c, y * c), (c * x, c * y), (x + c, y + c), (x ^ c, y ^ c), (x >> c, y >> c),
              (c | x, c | y), (x & c, y & c), (~(x * c), ~(y * c)), (x[3], y[3]), (x.grade(2), y.grade(2)), (-x, -y)]
    T += [(a * b, b * a), (a ^ b, b ^ a), (a >> b, b >> a), (a | b, b | a), (a * b, a ^ b), (a * b, a >> b), (a * b, a | b), (a ^ b, a >> b), (a >> b, a | b), (a & b, a ^ b), (a + b, a - b), (a + b, 2 * a + b), (a + b, a + 2 * b),
          (a + b, 2 * (a + b)), (a - b, b - a), (a + b, a + e), (a + b + c, a + e + c), (a * (b + c), a * (e + c)), (a * (b + c), a * (b - c)), (a * (b + c), a * (b + 2 * c)), (a * (2 * b + c), a * (b + c)), ((a + b) * c, (a + 3 * b) * c),
          (~(a + b), ~(a + 2 * b)), (dual(a + b), dual(a - b)), ((a + b) ^ c, (a / 2 + b) ^ c), (a[3], a[5]), (a[0], a[15]), (a.grade(0), a.grade(2)), (a.grade(2), a.grade(4)), ((a * b)[0], (a * b)[3]), ((a * b).grade(2), (a * b).grade(0)),
          ((a + b)[3], (a + b)[6]), (~a, dual(a)), (~(a * b), a * b), (a * ~b, a * b), (~a * b, a * b), (a * dual(b), a * b), (a + 1, a + 2), (a + 1, a - 1), (a + lit(1, '_e01', 3), a + lit(1, '_e02', 5)), (a + lit(1, '_e01', 3), a + lit(2, '_e01', 3)),
          (a * lit(1, '_e0', 1), a * lit(1, '_e1', 2)), (a * lit(1, '_e1', 2), lit(1, '_e1', 2) * a), (PI * a, E * a), (a + PI * b, a + E * b), (a * b * c, a * c * b), (a * (b * c), (a * b) * c), (a[3] * b, a[5] * b), (a.grade(2) * b, a.grade(4) * b),
          (sp(a, b), a | b), ((a + b) * (a + b), (a + c) * (a + c)), ((a + b) * (a - b), (a - b) * (a + b)), (a * b + c, a * b - c), (a * b + c, b * a + c), ((a ^ b) + c, (b ^ a) + c), (a * 1 if False else a, a + 0),
          (sin(a[0]), cos(a[0])), (sin(a[0]), sin(a[3])), (sqrt(a[0]), sqrt(b[0])), (sin(a[0] + b[0]), sin(a[0] - b[0])), (a / b[0], a / b[3]), (a / b[0], b / a[0]), (1 / a[0], 2 / a[0]), (1 / a[0], 1 / b[0]), (a[0] / b[0], b[0] / a[0]),
          (sin(2 * a[0]), sin(a[0])), (sqrt(a[0]), sqrt(2 * a[0])), (a / (b[0] + c[0]), a / (b[0] - c[0]))]
    return T
def separation(ctx):
    """distinct subexpressions are kept apart, equal ones recognised"""
    ctx.assume(*runner.COMMON_ASSUME)
    f = Fam('t')
    ins = [(x, 'pga.motor') for x in 'abcde']
    small = [(x, 'pga.e0_3_6_15') for x in 'abcde']
    for i, (x, y) in enumerate(twins()):
        C = [x + y, y + x, x - y, 2 * x + 3 * y, [x, y], [y, x, x], [x + y, x, y]]
        C += [x * y, (x * c) + (y * c), x * y + y * x, [x * c, y * c], (x + y) * x, [~x, dual(y), x], x * c - y * b]
        for j, e in enumerate(C):
            big = Prog('x', 'pga', ins, e)
            I = ins if gen.cost(big) <= 700 and j < 7 else small
            if gen.cost(Prog('x', 'pga', I, e)) > 2500: continue
            f.add('pga', I, e, structure=False)
    ctx.progs(f.P, 'pairs of subexpressions that differ in one respect only', batch=6)
def scout(ctx): ctx.scout(sample=160)
def layer(ctx):
    import exprc
    ctx.fns(exprc.identity(), 'node identity')
PARTS = [('layer', layer), ('words', words), ('separation', separation), ('scout', scout)]
