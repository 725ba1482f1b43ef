"""GF(2)-affine normal form of bit-vector terms: each bit as (set of input bits, constant).  A decision procedure for
equalities between terms built from xor, complement, masks, shifts by constants, extraction, concatenation, and selections between
constants on a single affine bit."""
import z3
class NotAffine(Exception): pass
class Aff:
    def __init__(self): self.memo = {}; self.vars = {}
    def var(self, e):
        k = e.decl().name()
        if k not in self.vars:
            base = sum(n for _, n in self.vars.values())
            self.vars[k] = (base, e.size())
        b, n = self.vars[k]
        return [(1 << (b + i), 0) for i in range(n)]
    def bits(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self._bits(e); self.memo[i] = r
            self.keep = getattr(self, 'keep', []); self.keep.append(e)
        return r
    def boolbit(self, c):
        """affine form of a boolean"""
        k = c.decl().kind()
        if k == z3.Z3_OP_TRUE: return (0, 1)
        if k == z3.Z3_OP_FALSE: return (0, 0)
        if k == z3.Z3_OP_NOT:
            m, v = self.boolbit(c.arg(0)); return (m, v ^ 1)
        if k == z3.Z3_OP_EQ and isinstance(c.arg(0), z3.BitVecRef):
            a, b = self.bits(c.arg(0)), self.bits(c.arg(1))
            d = [(x[0] ^ y[0], x[1] ^ y[1]) for x, y in zip(a, b)]
            d = [x for x in d if x != (0, 0)]
            if not d: return (0, 1)
            if any(x == (0, 1) for x in d): return (0, 0)
            if len(d) == 1: return (d[0][0], d[0][1] ^ 1)
        raise NotAffine('bool')
    def _bits(self, e):
        k = e.decl().kind(); n = e.size()
        if z3.is_bv_value(e):
            v = e.as_long(); return [(0, v >> i & 1) for i in range(n)]
        A = lambda j: self.bits(e.arg(j))
        if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0: return self.var(e)
        if k == z3.Z3_OP_BXOR:
            r = A(0)
            for j in range(1, e.num_args()): r = [(x[0] ^ y[0], x[1] ^ y[1]) for x, y in zip(r, A(j))]
            return r
        if k == z3.Z3_OP_BNOT: return [(m, v ^ 1) for m, v in A(0)]
        if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR):
            r = A(0)
            for j in range(1, e.num_args()):
                q = []
                for x, y in zip(r, A(j)):
                    if x[0] and y[0] and x != y: raise NotAffine('and')
                    if x[0] == 0: x, y = y, x          # y constant (or equal)
                    if k == z3.Z3_OP_BAND: q.append(x if (y == (0, 1) or x == y) else (0, 0))
                    else: q.append(x if (y == (0, 0) or x == y) else (0, 1))
                r = q
            return r
        if k in (z3.Z3_OP_BLSHR, z3.Z3_OP_BSHL):
            if not z3.is_bv_value(e.arg(1)): raise NotAffine('shift')
            s = e.arg(1).as_long(); r = A(0)
            if k == z3.Z3_OP_BLSHR: return (r[s:] + [(0, 0)] * min(s, n))[:n] if s < n else [(0, 0)] * n
            return ([(0, 0)] * s + r)[:n]
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = e.params(); return A(0)[lo:hi + 1]
        if k == z3.Z3_OP_CONCAT:
            r = []
            for j in reversed(range(e.num_args())): r += A(j)
            return r
        if k == z3.Z3_OP_ZERO_EXT: return A(0) + [(0, 0)] * (n - e.arg(0).size())
        if k == z3.Z3_OP_ITE:
            c = self.boolbit(e.arg(0)); a, b = self.bits(e.arg(1)), self.bits(e.arg(2))
            r = []
            for x, y in zip(a, b):
                d = (x[0] ^ y[0], x[1] ^ y[1])
                if d == (0, 0): r.append(x)
                elif d == (0, 1): r.append((y[0] ^ c[0], y[1] ^ c[1]))
                else: raise NotAffine('ite')
            return r
        if k == z3.Z3_OP_BMUL:
            # multiplication by a power of two
            for p, q in ((0, 1), (1, 0)):
                if e.num_args() == 2 and z3.is_bv_value(e.arg(p)):
                    v = e.arg(p).as_long()
                    if v and v & (v - 1) == 0:
                        s = v.bit_length() - 1
                        return ([(0, 0)] * s + self.bits(e.arg(q)))[:n]
        raise NotAffine(str(e.decl()))
def rank(rows):
    piv = {}
    for r in rows:
        while r:
            h = r.bit_length() - 1
            if h in piv: r ^= piv[h]
            else: piv[h] = r; break
    return len(piv)
def decide_eq(a, b):
    """True / assignment dict / None when not affine"""
    try:
        A = Aff(); x, y = A.bits(a), A.bits(b)
    except NotAffine: return None
    for p, q in zip(x, y):
        d = (p[0] ^ q[0], p[1] ^ q[1])
        if d != (0, 0): return False
    return True
def injective(e):
    try:
        A = Aff(); x = A.bits(e)
    except NotAffine: return None
    n = sum(k for _, k in A.vars.values())
    return rank([m for m, _ in x]) == n
def affine_table(vals, w):
    """columns (T[0], [T[2^k]^T[0]]) when the table is affine in the bits of its index"""
    n = len(vals)
    if n & (n - 1) or n < 2: return None
    k = n.bit_length() - 1
    cols = [vals[1 << i] ^ vals[0] for i in range(k)]
    for i in range(n):
        v = vals[0]
        for j in range(k):
            if i >> j & 1: v ^= cols[j]
        if v != vals[i]: return None
    return vals[0], cols
