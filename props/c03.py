"""rational scale factors, literals and named constants are carried exactly through every operator"""
from fam import *
import runner, random
LEVEL = 'translation_validation'
QS = [(2, 1), (-1, 1), (3, 1), (1, 2), (-1, 3), (5, 7), (-4, 3), (1, -2)]
def sc(x, qd):
    n, d = qd
    y = n * x if n != 1 else x
    return y / d if d != 1 else y
def systematic(ctx):
    ctx.assume(*runner.COMMON_ASSUME, 'rational coefficients stay below the magnitude at which the library starts to round them (denominators < 1024)')
    f = Fam('s')
    S = structure = False
    sets = [('pga', [('p', 'pga.plane'), ('q', 'pga.point')]), ('pga', [('p', 'pga.motor'), ('q', 'pga.line')]),
            ('vga', [('p', 'vga.vector'), ('q', 'vga.e0_3_5_6')]), ('pga2', [('p', 'pga2.line'), ('q', 'pga2.point')]),
            ('cga', [('p', 'cga.point'), ('q', 'cga.e3_8_16')])]
    for si, (ns, ins) in enumerate(sets):
        k = 0
        for i, x in enumerate(QS):
            for o in range(8):
                y = QS[(3 * i + o + si) % len(QS)]
                e = binops(sc(p, x), sc(q, y))[o]
                f.add(ns, ins, sc(e, QS[(i + 5 * o) % len(QS)]) if (i + o) % 2 else e, structure=S)
            for o in range(3):
                f.add(ns, ins, sc(unops(sc(p, x))[o], QS[(i + o) % len(QS)]), structure=S)
            f.add(ns, ins, sc(sc(p, x), QS[(i + 1) % len(QS)]), structure=S)
            if ns != 'cga' and 'pga.motor' not in str(ins): f.add(ns, ins, sc(p, x) % sc(q, QS[(i + 2) % len(QS)]), structure=S)
            f.add(ns, ins, sc(p, x).grade(2) + sc(sc(q, x).grade(1), QS[(i + 3) % len(QS)]), structure=S)
            f.add(ns, ins, sc(p, x) + sc(q, QS[(i + 3) % len(QS)]) + sc(p, QS[(i + 4) % len(QS)]), structure=S)
            f.add(ns, ins, sc(sc(p, x) + q, QS[(i + 3) % len(QS)]) + sc(sc(p, QS[(i + 5) % len(QS)]) - q, x), structure=S)
            f.add(ns, ins, sc(p + sc(q, x), QS[(i + 3) % len(QS)]) - (sc(p, QS[(i + 5) % len(QS)]) + q), structure=S)
            f.add(ns, ins, (sc(p, x) ^ q) ^ sc(p ^ sc(q, x), QS[(i + 2) % len(QS)]), structure=S)
            f.add(ns, ins, sc(sc(p, x) ^ q, QS[(i + 3) % len(QS)]) + sc(q ^ p, x), structure=S)
    for ns in ('pga', 'vga', 'pga2', 'cga'):
        x = {'pga': 'pga.motor', 'vga': 'vga.vector', 'pga2': 'pga2.point', 'cga': 'cga.point'}[ns]
        ins = [('p', x), ('s', ns + '.scalar')]
        for j, (suf, el) in enumerate(LITS[ns]):
            for e in (lit(1, suf, el) * p, p * lit(3, suf, el), lit(2, suf, el) ^ p, lit(5, suf, el) + p, p - lit(2, suf, el), p | lit(2, suf, el),
                      lit(3, suf, el) >> p, (lit(2, suf, el) / 3) * p, -lit(2, suf, el) + s * lit(1, suf, el), ~lit(2, suf, el) + p, s * lit(0, suf, el) + p,
                      lit(4, suf, el) * lit(3, *LITS[ns][(j + 1) % len(LITS[ns])]) + s):
                f.add(ns, ins, e, structure=S)
        for n in (1, 2, -1, 3, 0, -5):
            for e in (p + n, n + p, p - n, n - p, s + n, (s + n) * p, (s * p) + n, 2 * (p + n), (p + n) * (p - n), (n - s) / 3, s / 2 + n):
                f.add(ns, ins, e, structure=S)
        for cst in (PI, E):
            for e in (cst * p, p * cst, cst * s + p, 2 * (cst * p), (cst * p) / 3, cst * (cst * s), (2 * cst) * p, (cst / 2) * p, (PI * s) * (E * p), p + cst * s, p - cst * s, s / cst, cst / s,
                      (2 * s) / (3 * cst)):
                f.add(ns, ins, e, structure=S)
    ctx.progs(f.P, 'scale factors, literals and constants through every operator', batch=8)
def functions(ctx):
    f = Fam('d')
    ins = [('s', 'pga.scalar'), ('t', 'pga.T'), ('p', 'pga.point')]
    for i, x in enumerate(QS):
        y = QS[(i + 3) % len(QS)]; z = QS[(i + 5) % len(QS)]
        S, T = sc(s, x), sc(t, y)
        for e in (S / T, sc(S / T, z), sc(s * t, x) / T, (S + t) / sc(s + T, z), x[0] / T, sc(x[0] / T, y), sc(p, x) / T, sc(p / t, y), (S / t) / T, S / (T / sc(s, z)), S / t + T / s, sc(p, z) / (S * T), S / t - sc(s, y) / t,
                  sqrt(S), sc(sqrt(S), y), sqrt(sc(s * t, x)), sin(S), sc(sin(S), y), cos(S), tan(S), sin(S) + sin(T), sin(sc(s, x)) * sin(sc(s, y)), sqrt(S + T), sin(S + T), sc(p, x) * sc(sin(T), z),
                  sc(sin(s), x) + sc(sin(s), y), sc(sqrt(S), z) / T, sc(cos(sc(S, z)), y) * sc(p, x), (sc(p, x) * sc(p, y))[0] * sc(p, z), sc(p, x)[14] / sc(p, y)[11], sin(sc(sqrt(S), z)), S / sc(sqrt(T), x)):
            f.add('pga', ins, e, structure=False)
    ctx.progs(f.P, 'scale factors through quotients and scalar functions', batch=8)
def lin(rg, d, leaves):
    """random nested linear combination with rational scales"""
    if d == 0 or rg.random() < .15: return rg.choice(leaves)
    k = rg.random()
    x = lin(rg, d - 1, leaves)
    if k < .2: return rg.choice([2, 3, -2, 5, 7]) * x
    if k < .35: return x / rg.choice([2, 3, -2, 5])
    if k < .4: return -x
    if k < .45: return x + rg.choice([1, -2, 3])
    y = lin(rg, d - 1, leaves)
    return x + y if k < .75 else x - y
def sums(ctx):
    """a factor applies to exactly the sum it multiplies, when that sum meets equal summands of another sum"""
    f = Fam('l')
    ins = [(x, 'vga.vector') for x in 'abc']
    for n in ((2, 1), (-1, 1), (1, 2), (3, 1), (-2, 3)):
        for m in ((1, 1), (2, 1), (-3, 1), (1, 3)):
            for S in (a + b, b + a, a - b, b - a, a + b + c, 2 * a + b, a / 3 + b):
                for x in (a, b):
                    for e in (sc(S, n) + sc(x, m), sc(x, m) + sc(S, n), sc(S, n) - sc(x, m), sc(x, m) - sc(S, n)): f.add('vga', ins, e, structure=False)
            for S in (a + b, a - 2 * b):
                for Q in (a + c, a - b, c + b, 2 * a - c, b + a + c):
                    f.add('vga', ins, sc(S, n) + sc(Q, m), structure=False)
                    f.add('vga', ins, sc(S, n) - sc(Q, m), structure=False)
            for e in (sc(a * b + c, n) + sc(a * b, m), sc(c - a * b, n) + sc(b * a, m), sc(sc(a ^ b, m) + c, n) - sc(a ^ b, m), sc(~(a * b) + a, n) + sc(~(a * b), m), sc(dual(a) + b, n) + sc(dual(a), m), sc(sc(a + b, m) + c, n) + a,
                      (sc(a + b, n) + sc(a, m)) * (sc(c - b, m) + b), sc(a + b, n) ^ (sc(b + a, m) + b)): f.add('vga', ins, e, structure=False)
    rg = random.Random('c3lin/%s' % ctx.seed)
    n = 5 if ctx.thorough else 1
    for i in range(300 * n):
        al, I = [('vga', ins), ('pga', [('a', 'pga.plane'), ('b', 'pga.plane'), ('c', 'pga.line')]), ('pga2', [('a', 'pga2.point'), ('b', 'pga2.line'), ('c', 'pga2.point')]),
                 ('cga', [('a', 'cga.point'), ('b', 'cga.point'), ('c', 'cga.e3_8_16')])][i % 4]
        leaves = [a, b, c] if i % 3 else [a, b, a * b, ~(a * c), a ^ b, dual(c)]
        if al == 'cga': leaves = [a, b, c]
        e = lin(rg, rg.choice([3, 4, 4, 5]), leaves)
        if isinstance(e, Ex): f.add(al, I, e, structure=False)
    ctx.progs(f.P, 'scaled sums that meet equal summands', batch=12)
def rnd(ctx):
    n = 6 if ctx.thorough else 1
    f = Fam('r')
    def keep(x):
        return any(ch.isdigit() for ch in x.body())
    rand(f, 'c3/%s' % ctx.seed, 350 * n, ('pga', 'vga', 'pga2'), 3, True, True, 500, keep=keep)
    rand(f, 'c3/%s' % ctx.seed, 100 * n, ('cga',), 2, True, True, 600, keep=keep)
    ctx.progs(f.P, 'random programs with integers, literals and constants', batch=6)
def large(ctx):
    """factors and literals of every magnitude the integer type holds"""
    f = Fam('n')
    for ns, x in (('vga', 'vga.vector'), ('pga', 'pga.plane'), ('pga2', 'pga2.point'), ('cga', 'cga.e3_8')):
        ins = [('p', x), ('s', ns + '.scalar')]
        suf, el = LITS[ns][1]
        for n in (127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 32767, 32768, 65535, 65536, 65537, 1000003, 16777216, 16777217, 99999999, 1 << 30, 2147483647):
            for e in (n * p, -n * p + s, p + n, n - p, lit(n, suf, el) * p, lit(n, suf, el) + p, n / s, sin(n * s), (n * p).grade(1) - s, (n * s) / (3 * s + p[el]), ~(n * p) ^ p, n * (p + s), lit(n, suf, el) / 2 + s):
                if n > 1 << 28 and ns == 'cga': continue
                if n > 1 << 20 and e.k == 'add' and 'lit' in gen.cpp(e): continue
                f.add(ns, ins, e, structure=False)
            if ns != 'cga' or n < 1 << 28: f.add(ns, ins, [n * p, p + n, s], structure=False)
        for d in (6, 9, 10, 11, 13, 100, 127, 255, 256, 257, 999, 1000, 1021, 1023):
            for e in (p / d, s - p / d, (s + p) / d, (d * p) / (d - 1), (p / d).grade(1), sqrt(s / d), s / (d * s + 1), (3 * p) / d + s, p / -d): f.add(ns, ins, e, structure=False)
    ctx.progs(f.P, 'large factors, literals and denominators', batch=12)
def scout(ctx): ctx.scout(lambda b: b[1] & 12, sample=120)
def layer(ctx):
    import exprc
    ctx.fns(exprc.sums(ctx.thorough) + exprc.quotients(), 'expression builder: sums, quotients, integer factors (arbitrary node contents)')
PARTS = [('layer', layer), ('systematic', systematic), ('functions', functions), ('sums', sums), ('rnd', rnd), ('large', large), ('scout', scout)]
