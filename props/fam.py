"""families of client programs shared by the checks"""
import random
import ga, gen
from ga import V, lit, dual, sqrt, sin, cos, tan, sp, gexp, PI, E, Ex, IntC
from classa import Prog, Raw
from poly import RF
from fractions import Fraction

class Fam:
    def __init__(self, pre): self.pre = pre; self.P = []; self.seen = set()
    def add(self, alg, ins, ex, **k):
        p = Prog('%s%03d' % (self.pre, len(self.P)), alg, ins, ex, **k)
        d = p.describe()
        if d in self.seen: return
        self.seen.add(d); self.P.append(p)
    def raw(self, nin, nout, text, spec, **k):
        self.P.append(Raw('%s%03d' % (self.pre, len(self.P)), nin, nout, text, spec, **k))

a, b, c, p, q, r, s, t, u, w = [V(x) for x in 'abcpqrstuw']

def full(ns): return '%s.e%s' % (ns, '_'.join(map(str, range(1 << ga.ALGS[ns].dim))))
def group(ns, els): return '%s.e%s' % (ns, '_'.join(map(str, els)))

def binops(x, y):
    return [x + y, x - y, x * y, x ^ y, x & y, x >> y, x | y, sp(x, y)]
def unops(x): return [~x, -x, dual(x)]

ENT = {'vga': ['vga.vector', 'vga.e0_3_5_6'],
       'pga': ['pga.plane', 'pga.point', 'pga.line', 'pga.motor', 'pga.vpoint', 'pga.vector', 'pga.rotor', 'pga.translator'],
       'pga2': ['pga2.line', 'pga2.point', 'pga2.e0_3_5_6'],
       'cga': ['cga.point', 'cga.e8_16', 'cga.e3_5_6_9_10_12_17_18_20_24']}
LITS = {'vga': [('_e0', 1), ('_e1', 2), ('_e2', 4), ('_e01', 3), ('_e02', 5), ('_e12', 6), ('_e012', 7), ('_ps', 7)],
        'pga': [('_e0', 1), ('_e1', 2), ('_e2', 4), ('_e3', 8), ('_e01', 3), ('_e02', 5), ('_e03', 9), ('_e12', 6), ('_e13', 10), ('_e23', 12),
                ('_e012', 7), ('_e013', 11), ('_e023', 13), ('_e123', 14), ('_e0123', 15), ('_ps', 15)],
        'pga2': [('_e0', 1), ('_e1', 2), ('_e2', 4), ('_e01', 3), ('_e02', 5), ('_e12', 6), ('_e012', 7), ('_ps', 7)],
        'cga': [('_e1', 1), ('_e2', 2), ('_e3', 4), ('_no', 8), ('_ni', 16), ('_ps', 31)]}

def generic_products(f, metrics=((1, 3, 0), (2, 0, 2), (0, 3, 0), (1, 1, 1), (4, 0, 0), (1, 0, 0), (2, 2, 0))):
    """every pair of basis blades of every algebra, through each product"""
    for ns in ('vga', 'pga', 'pga2'):
        g = full(ns)
        for i, e in enumerate(binops(p, q)): f.add(ns, [('p', g), ('q', g)], e, T='double' if i % 2 else 'float')
        for e in unops(p): f.add(ns, [('p', g)], e)
        for k in range(ga.ALGS[ns].dim + 1): f.add(ns, [('p', g)], p.grade(k))
    for m in metrics:
        A = ga.metric_alg(*m); g = full(A.ns)
        for e in binops(p, q): f.add(A, [('p', g), ('q', g)], e)
        for e in unops(p): f.add(A, [('p', g)], e)
    grp = [[x for x in range(32) if ga.popc(x) in k] for k in ((0, 1), (2,), (3,), (4, 5))]
    for x in grp:
        for y in grp:
            for e in (p * q, p ^ q, p >> q, p | q, p & q): f.add('cga', [('p', group('cga', x)), ('q', group('cga', y))], e)
    for x in grp:
        for e in unops(p): f.add('cga', [('p', group('cga', x))], e)
        f.add('cga', [('p', group('cga', x)), ('q', group('cga', grp[1]))], p + q)
    return f

def entity_ops(f):
    for ns, es in ENT.items():
        for i, x in enumerate(es):
            f.add(ns, [('p', x)], p)
            for e in unops(p): f.add(ns, [('p', x)], e)
            for j, y in enumerate(es):
                if ns == 'cga' and (i, j) == (2, 2): continue
                for k, e in enumerate(binops(p, q)):
                    f.add(ns, [('p', x), ('q', y)], e, T='double' if (i + j + k) % 2 else 'float')
                if ga.get_ent(x).n * ga.get_ent(y).n ** 2 < 200 and ns != 'cga':
                    f.add(ns, [('p', x), ('q', y)], p % q)
    f.add('cga', [('p', 'cga.point'), ('q', 'cga.point')], p % q)
    return f

def components(f):
    for ns in ('vga', 'pga', 'pga2', 'm130'):
        if ns == 'm130': ga.metric_alg(1, 3, 0)
        g = full(ns)
        for k in range(1 << ga.ALGS[ns].dim): f.add(ns, [('p', g)], p[k])
    for k in range(32): f.add('cga', [('p', full('cga'))], p[k])
    for k in (1, 8, 16): f.add('cga', [('p', 'cga.point')], p[k])
    return f

def subtrees(e, out):
    """compound subexpressions as the library expands them, up to scale"""
    if isinstance(e, IntC): return ('i', 1)
    k = e.k; x = e.a
    S = lambda y: subtrees(y, out)
    if k == 'var': return ('v', x[0])
    if k in ('lit', 'const'): return (k,) + tuple(x)
    if k == 'neg': return S(x[0])
    if k in ('gp', 'div') and isinstance(x[0], IntC) and k == 'gp': return S(x[1])
    if k == 'div' and isinstance(x[1], IntC): return S(x[0])
    if k == 'rp':
        l = S(x[0]); m = S(x[1])
        dl = ('dual', l); dm = ('dual', m); out.append(dl); out.append(dm)
        n = ('ep', dl, dm); out.append(n); d = ('dual', n); out.append(d); return d
    if k == 'sw':
        l = S(x[0]); m = S(x[1]); m2 = S(x[1])
        g = ('gp', m, l); out.append(g); rv = ('rev', m2); out.append(rv); d = ('gp', g, rv); out.append(d); return d
    n = (k,) + tuple(S(y) if isinstance(y, (Ex, IntC)) else y for y in x)
    out.append(n)
    return n

def repeats(exprs):
    out = []
    for e in exprs: subtrees(e, out)
    return len(set(map(repr, out))) != len(out)

def rand(f, seed, n, algs, depth, fun, div, maxcost=600, structure=None, keep=None):
    for i in range(n):
        x = gen.random_prog('%s/%s' % (f.pre, seed), i, algs, depth, fun, div, prefix=f.pre + 'r%s_' % ''.join(a[0] for a in algs))
        if x is None or gen.cost(x) > maxcost: continue
        if keep and not keep(x): continue
        if structure is not None: x.structure = structure
        d = x.describe()
        if d in f.seen: continue
        f.seen.add(d); x.pid = '%s%03d' % (f.pre, len(f.P)); f.P.append(x)
    return f
