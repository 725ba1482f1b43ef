"""common subexpressions, temporaries, quotients and scalar functions never change the value"""
from fam import *
import runner
LEVEL = 'translation_validation'
def shared(ctx):
    ctx.assume(*runner.COMMON_ASSUME)
    f = Fam('h')
    def subs(x, y):
        return [x * y, x + y, x ^ y, x & y, x >> y, x | y, ~x, dual(x), x * y * x, ~(x * y), dual(x ^ y), (x + y) * y, x % y, (x * y).grade(2), 2 * (x * y), x * y + y]
    def ctxs(e, o, x, y):
        return [e * e, e + e, e - e, e ^ e, e & e, e | e, e >> e, e * x + e * y, e * x - x * e, (e + x) * (e - x), ~e * e, e * ~e, dual(e) + e, e * o + o * e, e + o * e, (e * o) * (e * o) + e * o, 2 * e + 3 * e, (2 * e) * (3 * e),
                e * (o * e), (e + o) + (e * o), (e + o) * (e + o), (e ^ o) + (o ^ e), (e * x) * (e * x), -e * e + e, e.grade(1) * e.grade(2) + e.grade(0), (x + e) + (e + x)]
    for ns, ins in (('pga', [('p', 'pga.plane'), ('q', 'pga.point')]), ('vga', [('p', 'vga.vector'), ('q', 'vga.e0_3_5_6')]), ('pga2', [('p', 'pga2.line'), ('q', 'pga2.point')]),
                    ('pga', [('p', 'pga.vpoint'), ('q', 'pga.e0_3_12')]), ('cga', [('p', 'cga.e1_2_8'), ('q', 'cga.e3_16')]), ('cga', [('p', 'cga.point'), ('q', 'cga.e1')])):
        ss = subs(p, q)
        for i, e in enumerate(ss):
            o = ss[(i + 7) % len(ss)]
            cs = ctxs(e, o, p, q)
            for j, x in enumerate(cs):
                if ns != 'pga' and (i + j) % 3: continue
                pr = Prog('x', ns, ins, x)
                if gen.cost(pr) > (1500 if ns != 'cga' else 500): continue
                f.add(ns, ins, x, structure=False)
    ctx.progs(f.P, 'each subexpression kind shared in each context', batch=6)
def tree_of(i, x, y, s, t):
    """argument expressions of scalar functions / divisors"""
    return [s, t, s * t, s + t, s * s, 2 * s, s / 3, s / t, sqrt(s), sin(s + t), (x * y)[0], (x * x)[0], (x + y)[1], sp(x, y), (x | y)[0] + s, s + 1, PI * s, (s + t) * (s + t), x[2], (x * y)[0] * (x * y)[0], s * t + s * t, sqrt(s) * sqrt(s),
            (x ^ y)[7] + (y ^ x)[7], s - t, -s, (x * y).grade(0)[0]][i % 26]
def scalarfun(ctx):
    f = Fam('f')
    for ns, ins in (('pga', [('x', 'pga.plane'), ('y', 'pga.e0_3_5_14'), ('s', 'pga.scalar'), ('t', 'pga.T')]), ('vga', [('x', 'vga.vector'), ('y', 'vga.e0_1_6_7'), ('s', 'vga.T'), ('t', 'vga.scalar')]),
                    ('cga', [('x', 'cga.e1_2_8'), ('y', 'cga.e0_1_3'), ('s', 'cga.scalar'), ('t', 'cga.scalar')])):
        x, y = V('x'), V('y')
        def z(i):
            e = tree_of(i, x, y, s, t)
            if ns == 'cga' and any(k in str(gen.cpp(e)) for k in ('[1]', '[2]', '[7]')): e = (x * y)[0] + s
            return e
        for i in range(26):
            e = z(i); g = z(i + 5); h = z(i + 11)
            if 'pga' == ns and i == 13: pass
            L = [sqrt(e), sin(e), cos(e), tan(e), s / e, x / e, (x * y) / e, 1 / e, 3 / e, e / g, e / e, (e / g) * (g / h), e / (g / h), (e / g) / h, sin(e) * cos(e), sin(e) * sin(e) + cos(e) * cos(e), sqrt(e) + sqrt(g), sqrt(e) * x + sin(g) * y,
                 sin(e) / cos(e), x * sin(e) * ~x, sqrt(e) / g, e / sqrt(g), sqrt(e / g), sin(e / g), sin(cos(e)), sqrt(e + sin(g)), e / (g + sqrt(h)), (x / e) * (x / e), (x / e) + (y / g), (x * sin(e)) ^ (y * sin(e)), x / sin(e) + y / sin(e), 2 * sin(e) - sin(e),
                 (x / e).grade(1), (x * cos(e) + y * sin(e)) * (x * cos(e) - y * sin(e)), s + 1 / e + 1 / e, -(x / e) - x / e, dual(x / e), ~(y / e) + y / g]
            for j, k in enumerate(L):
                if ns != 'pga' and (i + j) % 3: continue
                if ns == 'pga' and (i + j) % 2: continue
                f.add(ns, ins, k, structure=False)
    ctx.progs(f.P, 'each scalar function / quotient on each argument kind', batch=8)
def rnd(ctx):
    n = 6 if ctx.thorough else 1
    f = Fam('r')
    keep = lambda x: repeats(x.exprs) or any(k in x.body() for k in ('sqrt', 'sin', 'cos', 'tan', '/'))
    rand(f, 'c4/%s' % ctx.seed, 400 * n, ('pga', 'vga', 'pga2'), 4, True, True, 600, keep=keep)
    rand(f, 'c4/%s' % ctx.seed, 120 * n, ('cga',), 3, True, True, 600, keep=keep)
    ctx.progs(f.P, 'random programs with sharing, quotients and scalar functions', batch=6)
def scout(ctx): ctx.scout(sample=480)
def layer(ctx):
    import exprc
    ctx.fns(exprc.reshapes(ctx), 'reshaping: arbitrary leaves and checksums')
PARTS = [('layer', layer), ('shared', shared), ('scalarfun', scalarfun), ('rnd', rnd), ('scout', scout)]
