from fam import *
import runner
LEVEL = 'translation_validation'
def ops(ctx):
    ctx.assume(*runner.COMMON_ASSUME)
    f = Fam('g'); generic_products(f); ctx.progs(f.P, 'all blade pairs through every operator, 11 algebras', batch=2)
def ents(ctx):
    f = Fam('e'); entity_ops(f); components(f); ctx.progs(f.P, 'every operator on every pair of entity types', batch=8)
def rnd(ctx):
    n = 6 if ctx.thorough else 1
    f = Fam('r')
    rand(f, ctx.seed, 350 * n, ('pga', 'vga', 'pga2'), 3, False, False, 600)
    rand(f, ctx.seed, 120 * n, ('cga',), 2, False, False, 900)
    ctx.progs(f.P, 'random compositions of operators', batch=6)
def scale(ctx):
    """long chains, high powers, algebras of higher dimension"""
    f = Fam('z')
    def chain(op, xs):
        e = xs[0]
        for x in xs[1:]: e = op(e, x)
        return e
    G = lambda x, y: x * y
    W = lambda x, y: x ^ y
    A = lambda x, y: x + y
    for ns in ('vga', 'pga', 'cga'):
        ins = [('a', ns + '.e1'), ('b', ns + '.e2'), ('c', ns + '.e4'), ('s', ns + '.scalar'), ('t', ns + '.scalar')]
        for k in (5, 8, 9, 10, 15, 16, 17, 24, 33):
            f.add(ns, ins, chain(G, [s] * k), structure=False)
            f.add(ns, ins, chain(G, [s, t] * (k // 2)), structure=False)
            f.add(ns, ins, chain(G, [a] * k), structure=False)
            f.add(ns, ins, chain(W, [s] * (k - 1) + [a]), structure=False)
            f.add(ns, ins, chain(G, [a, b, c] * (k // 3 + 1)), structure=False)
        for xs in ([a, s, c, t], [c, t, a, s], [s, a, t, b], [b, s, a], [c, b, a], [s, t, c, b, a], [t, b, s, c, a, t], [c, s, b, t, a, s]):
            f.add(ns, ins, chain(W, xs), structure=False)
            for i in range(1, len(xs)):
                f.add(ns, ins, chain(W, xs[:i]) ^ chain(W, xs[i:]), structure=False)
                f.add(ns, ins, chain(W, xs[i:]) ^ chain(W, xs[:i]), structure=False)
                f.add(ns, ins, chain(A, xs[:i]) ^ chain(W, xs[i:]), structure=False)
                f.add(ns, ins, chain(A, xs[:i]) * chain(A, xs[i:]), structure=False)
    V_ = [V('v%d' % i) for i in range(40)]
    for k in (9, 17, 33, 40):
        ins = [('v%d' % i, 'vga.scalar' if i % 3 else 'vga.vector') for i in range(k)]
        f.add('vga', ins, chain(A, V_[:k]), structure=False)
        f.add('vga', ins, chain(lambda x, y: x - y, V_[:k]), structure=False)
        if k < 18: f.add('vga', [('v%d' % i, 'vga.scalar') for i in range(k)], chain(G, V_[:k]), structure=False)
    for m in ((5, 0, 0), (3, 1, 1), (6, 0, 0), (3, 3, 0), (4, 2, 1), (8, 0, 0), (4, 3, 1)):
        Al = ga.metric_alg(*m); d = sum(m); F = (1 << d) - 1; hi = 1 << (d - 1)
        for x, y in (([hi], [F]), ([hi, 1], [hi | 1, F ^ 1]), ([0, F], [1, 2, hi]), ([F ^ hi, 5], [hi, 6, F]), ([1 << i for i in range(d)], [3, hi | 2, F]), ([hi | 3], [hi | 3, hi | 4])):
            ins = [('p', group(Al.ns, sorted(x))), ('q', group(Al.ns, sorted(y)))]
            for e in binops(p, q) + [q * p, q >> p, q | p]: f.add(Al, ins, e, structure=False)
            for e in unops(p) + unops(q): f.add(Al, ins, e, structure=False)
            for g_ in (0, 1, 2, d - 1, d): f.add(Al, ins, (p * q).grade(g_), structure=False)
            f.add(Al, ins, p % q if len(y) < 3 else p * q * p, structure=False)
            for el in (F, hi, hi | 1): f.add(Al, ins, (p * q)[el], structure=False)
    ctx.progs(f.P, 'long chains, high powers, algebras of dimension up to 8', batch=6)
def scout(ctx): ctx.scout(lambda b: not b[1] & 7, sample=120)
def layer(ctx):
    import exprc
    ctx.fns(exprc.products() + exprc.unaries(), 'expression builder: products, unary operators (arbitrary node contents)')
PARTS = [('layer', layer), ('ops', ops), ('ents', ents), ('rnd', rnd), ('scale', scale), ('scout', scout)]
