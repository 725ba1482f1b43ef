"""Seeded generator of well-formed gal client programs (used to extend the fixed program families)."""
import random
import ga
from ga import V, IntC, lit, dual, sqrt, sin, cos, tan, sp, PI, E, Ex
from classa import Prog

LITS = {'pga': [('_e0', 1), ('_e1', 2), ('_e2', 4), ('_e3', 8), ('_e01', 3), ('_e12', 6), ('_e012', 7), ('_e123', 14), ('_ps', 15)],
        'vga': [('_e0', 1), ('_e1', 2), ('_e2', 4), ('_e01', 3), ('_e12', 6), ('_e02', 5), ('_ps', 7)],
        'cga': [], 'pga2': []}
ENTK = {'pga': ['pga.plane', 'pga.point', 'pga.line', 'pga.motor', 'pga.e1_2', 'pga.e0_6', 'pga.e3_12', 'pga.vpoint', 'pga.e0_1_2_4_8'],
        'vga': ['vga.vector', 'vga.e3_5_6', 'vga.e0_3_5_6', 'vga.e0_1_2_3_4_5_6_7', 'vga.e1', 'vga.e7'],
        'pga2': ['pga2.line', 'pga2.e3_5_6', 'pga2.e0_3', 'pga2.e0_6'],
        'cga': ['cga.point', 'cga.e1_2', 'cga.e8_16', 'cga.e0_3']}
SCK = {a: [a + '.scalar', a + '.T'] for a in ga.ALGS}
DIM = {'pga': 4, 'vga': 3, 'pga2': 3, 'cga': 5}

class Gen:
    def __init__(self, rng, alg, nfun=True, ndiv=True):
        self.r = rng; self.alg = alg; self.fun = nfun; self.div = ndiv
        self.pool_g = []; self.pool_s = []; self.ops = 0
    def smallint(self): return self.r.choice([-3, -2, -1, 2, 3, 4, 5])
    def gen(self, d):
        r = self.r
        if self.pool_g and r.random() < 0.18: return r.choice(self.pool_g)
        if d <= 0: return self.leaf()
        k = r.choice(['add', 'sub', 'gp', 'ep', 'rp', 'lc', 'sip', 'rev', 'neg', 'dual', 'sw', 'scal', 'int', 'idiv', 'iadd', 'grd', 'sdiv', 'add', 'gp', 'gp'])
        G = self.gen
        if k == 'add': e = G(d-1) + G(d-1)
        elif k == 'sub': e = G(d-1) - G(d-1)
        elif k == 'gp': e = G(d-1) * G(d-1)
        elif k == 'ep': e = G(d-1) ^ G(d-1)
        elif k == 'rp': e = G(d-1) & G(d-1)
        elif k == 'lc': e = G(d-1) >> G(d-1)
        elif k == 'sip': e = G(d-1) | G(d-1)
        elif k == 'rev': e = ~G(d-1)
        elif k == 'neg': e = -G(d-1)
        elif k == 'dual': e = dual(G(d-1))
        elif k == 'sw': e = self.leaf() % self.leaf()
        elif k == 'scal': e = self.scal(d-1) * G(d-1)
        elif k == 'int': e = self.smallint() * G(d-1)
        elif k == 'idiv': e = G(d-1) / self.smallint()
        elif k == 'iadd': e = G(d-1) + r.choice([-2, -1, 0, 1, 2, 3])
        elif k == 'grd':
            e = G(d-1).grade(r.randrange(0, DIM[self.alg] + 1))
        elif k == 'sdiv':
            if not self.div: return G(d)
            e = G(d-1) / self.scal(d-1)
        self.pool_g.append(e)
        return e
    def leaf(self):
        L = LITS[self.alg]
        if L and self.r.random() < 0.12:
            s, b = self.r.choice(L)
            return lit(self.r.choice([1, 1, 2, 3]), s, b)
        return self.r.choice(self.gv)
    def scal(self, d):
        r = self.r
        if self.pool_s and r.random() < 0.2: return r.choice(self.pool_s)
        if d <= 0: return r.choice(self.sv)
        k = r.choice(['v', 'sum', 'mul', 'int', 'idiv', 'iadd', 'comp', 'comp', 'sp', 'fn', 'fn', 'div', 'idivs', 'pi'])
        S = self.scal
        if k == 'v': return r.choice(self.sv)
        if k == 'sum': e = S(d-1) + S(d-1)
        elif k == 'mul': e = S(d-1) * S(d-1)
        elif k == 'int': e = self.smallint() * S(d-1)
        elif k == 'idiv': e = S(d-1) / self.smallint()
        elif k == 'iadd': e = S(d-1) + r.choice([1, 2, -1, 0])
        elif k == 'comp':
            g = self.gen(d-1)
            e = g[r.choice([0, r.randrange(1 << DIM[self.alg])])]
        elif k == 'sp': e = sp(self.leaf(), self.leaf())
        elif k == 'fn':
            if not self.fun: return S(d)
            e = r.choice([sqrt, sin, cos, tan])(S(d-1))
        elif k == 'div':
            if not self.div: return S(d)
            e = S(d-1) / S(d-1)
        elif k == 'idivs':
            if not self.div: return S(d)
            e = r.choice([1, 2, -3]) / S(d-1)
        elif k == 'pi': e = r.choice([PI, E]) * S(d-1)
        self.pool_s.append(e)
        return e

def random_prog(seed, i, algs=('pga', 'pga', 'vga', 'pga2', 'cga'), depth=3, fun=True, div=True, prefix='r'):
    rng = random.Random('%s/%d' % (seed, i))
    for att in range(200):
        alg = rng.choice(algs)
        g = Gen(rng, alg, fun, div)
        k = rng.randint(1, 3)
        ins = []
        g.gv = []; g.sv = []
        for j in range(k):
            n = 'abc'[j]; ins.append((n, rng.choice(ENTK[alg]))); g.gv.append(V(n))
        for j in range(rng.randint(1, 2)):
            n = 'st'[j]; ins.append((n, rng.choice(SCK[alg]))); g.sv.append(V(n))
        # the first input must be an entity (its value type is inferred from it)
        nres = 1 if rng.random() < 0.85 else rng.randint(2, 3)
        ex = [g.gen(rng.randint(1, depth)) if rng.random() < 0.8 else g.scal(depth) for _ in range(nres)]
        if any(e.size() > 22 or isinstance(e, IntC) for e in ex): continue
        p = Prog('%s%d' % (prefix, i), alg, ins, ex, T=rng.choice(['double', 'double', 'float']), structure=False)
        if cost(p) > 4000: continue
        return p
    return None

def cost(p):
    """crude bound on the number of monomials of the compile-time expansion"""
    env = {n: 2 * ga.get_ent(k).n for n, k in p.inputs}
    for n, k in p.inputs:
        if k == 'cga.point': env[n] = 14
    def c(e):
        if isinstance(e, IntC): return 1
        if e.k == 'var': return env[e.a[0]]
        if e.k in ('lit', 'const'): return 1
        if e.k in ('add', 'sub'): return c(e.a[0]) + c(e.a[1])
        if e.k in ('gp', 'ep', 'rp', 'lc', 'sip', 'sp'): return c(e.a[0]) * c(e.a[1])
        if e.k == 'sw': return c(e.a[0]) * c(e.a[1]) ** 2
        if e.k == 'div': return c(e.a[0]) + c(e.a[1])
        if e.k == 'fn': return c(e.a[1])
        return c(e.a[0])
    return max(c(e) for e in p.exprs)
from ga import cpp
