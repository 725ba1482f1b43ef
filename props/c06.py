"""inputs and results are routed to the right places; no access outside the inputs and the working storage"""
from fam import *
import runner, random, itertools
LEVEL = 'translation_validation'
TY = {'pga': ['pga.plane', 'pga.point', 'pga.line', 'pga.motor', 'pga.vpoint', 'pga.vector', 'pga.scalar', 'pga.T', 'pga.e1', 'pga.e0_15', 'pga.rotor', 'pga.translator'],
      'vga': ['vga.vector', 'vga.scalar', 'vga.T', 'vga.e3_5_6', 'vga.e0_7'], 'pga2': ['pga2.line', 'pga2.point', 'pga2.scalar', 'pga2.T', 'pga2.e0_3_5_6'],
      'cga': ['cga.point', 'cga.scalar', 'cga.T', 'cga.e8_16', 'cga.e3_5_6']}
NM = 'abcdefgh'
def routing(ctx):
    ctx.assume(*runner.COMMON_ASSUME)
    n = 4 if ctx.thorough else 1
    f = Fam('m'); rng = random.Random('route/%d' % ctx.seed)
    for i in range(420 * n):
        ns = rng.choice(['pga', 'pga', 'vga', 'pga2', 'cga'])
        k = rng.randint(1, 7)
        tys = [rng.choice(TY[ns]) for _ in range(k)]
        if all(x.endswith('.T') for x in tys) or tys[0].endswith('.T') and rng.random() < 0.5: tys[0] = TY[ns][0]
        # the value type is inferred from the first input
        if tys[0].endswith('.T'): tys[0] = ns + '.scalar'
        ins = [(NM[j], x) for j, x in enumerate(tys)]
        vs = [V(NM[j]) for j in range(k)]
        scal = [v for v, x in zip(vs, tys) if x.endswith('.T') or x.endswith('scalar')]
        def term():
            x = rng.choice(vs); z = rng.random()
            if z < 0.35: return x
            if z < 0.5: return rng.choice([2, -1, 3]) * x
            if z < 0.6: return ~x
            if z < 0.7 and ns != 'cga': return dual(x)
            y = rng.choice(vs)
            if ns == 'cga' and x.a[0] in [m for m, t_ in ins if t_ == 'cga.point'] and y.a[0] == x.a[0]: return x
            if z < 0.85: return x * y
            if scal and z < 0.93: return x / rng.choice(scal)
            if scal: return sqrt(rng.choice(scal)) * x
            return x ^ y
        shared_t = term()
        nres = rng.choice([1, 1, 2, 2, 3, 3, 4, 5])
        ex = []
        for _ in range(nres):
            z = rng.random()
            if z < 0.3: e = rng.choice(vs)
            elif z < 0.6: e = term()
            elif z < 0.8: e = shared_t
            else: e = term() + term()
            ex.append(e)
        pr = Prog('x', ns, ins, ex)
        if gen.cost(pr) > 300: continue
        f.add(ns, ins, ex, T=rng.choice(['float', 'double']), structure=False)
    ctx.progs(f.P, 'programs with up to 7 inputs and 5 results', batch=6)
def perm(ctx):
    f = Fam('p')
    for ns, tys in (('pga', ['pga.plane', 'pga.point', 'pga.scalar', 'pga.T']), ('pga', ['pga.line', 'pga.plane', 'pga.motor']), ('vga', ['vga.vector', 'vga.vector', 'vga.T']), ('cga', ['cga.point', 'cga.e8_16', 'cga.scalar'])):
        for pm in itertools.permutations(range(len(tys))):
            if tys[pm[0]].endswith('.T'): continue
            ins = [(NM[j], tys[pm[j]]) for j in range(len(tys))]
            vs = [V(NM[j]) for j in range(len(tys))]
            f.add(ns, ins, list(vs), structure=False)
            f.add(ns, ins, list(reversed(vs)), structure=False)
            f.add(ns, ins, [vs[-1], vs[0] * vs[1], vs[0] * vs[1], vs[1]], structure=False)
            f.add(ns, ins, [vs[0] - vs[0], vs[1], vs[0]], structure=False)
            f.add(ns, ins, vs[-1], structure=False)
            f.add(ns, ins, vs[-1] * vs[0] + vs[1], structure=False)
    for n in range(1, 9):
        ins = [(NM[j], 'vga.vector') for j in range(n)]
        vs = [V(NM[j]) for j in range(n)]
        f.add('vga', ins, vs if n > 1 else vs[0], structure=False)
        e = vs[0]
        for x in vs[1:]: e = e + (2 * x)
        f.add('vga', ins, e, structure=False)
        ins = [(NM[j], 'pga.scalar' if j % 2 == 0 else 'pga.T') for j in range(n)]
        e = vs[0]
        for x in vs[1:]: e = e * x
        f.add('pga', ins, e, structure=False)
        f.add('pga', ins, vs[0] / vs[-1], structure=False)
        f.add('pga', ins, [x * x for x in vs] if n > 1 else vs[0] * vs[0], structure=False)
    ctx.progs(f.P, 'permutations of inputs and results', batch=6)
def scale(ctx):
    """many inputs, many coordinates, many results"""
    f = Fam('z'); rng = random.Random('scale/%d' % ctx.seed)
    for ns in ('pga', 'vga', 'pga2', 'cga'):
        for n in (9, 10, 12, 16, 17, 20, 33):
            if ns == 'cga' and n > 12: continue
            for rep in range(2):
                tys = [TY[ns][(i * (rep + 1) + n + rep) % len(TY[ns])] for i in range(n)]
                if tys[0].endswith('.T'): tys[0] = ns + '.scalar'
                ins = [('v%d' % i, t_) for i, t_ in enumerate(tys)]
                vs = [V('v%d' % i) for i in range(n)]
                f.add(ns, ins, [vs[i] for i in range(n - 1, -1, -1)][:14], structure=False)
                f.add(ns, ins, [vs[n - 1], vs[0], vs[n // 2], vs[8], vs[7], vs[n - 2]], structure=False)
                e = vs[n - 1]
                for i in range(n - 1): e = e + (i % 7 + 1) * vs[i]
                f.add(ns, ins, e, structure=False)
                f.add(ns, ins, (2 * vs[n - 1]) - vs[8], structure=False)
                sc = [i for i, t_ in enumerate(tys) if t_.endswith('.T') or t_.endswith('scalar')]
                if len(sc) > 1:
                    f.add(ns, ins, [vs[sc[-1]] * vs[n - 1], vs[8] / vs[sc[-1]], sqrt(vs[sc[0]]) * vs[7]], structure=False)
                    f.add(ns, ins, [sin(vs[i]) for i in sc[:9]] if len(sc) > 1 else sin(vs[sc[0]]), structure=False)
                if ns != 'cga':
                    z = sorted(range(n), key=lambda i: ga.get_ent(tys[i]).n)[:6]
                    f.add(ns, ins, [vs[z[0]] * vs[z[1]], vs[z[2]] ^ vs[z[3]], vs[z[1]] * vs[z[0]], vs[z[4]] + vs[z[5]], vs[z[2]] ^ vs[z[3]], vs[n - 1], vs[z[4]] * vs[z[0]] + vs[z[1]]], structure=False)
    # hundreds of coordinates
    for n in (33, 40):
        ins = [('v%d' % i, 'pga.motor') for i in range(n)]
        vs = [V('v%d' % i) for i in range(n)]
        for e in ([vs[n - 1], vs[0], vs[31], vs[32]], vs[n - 1] + 2 * vs[n - 2] - vs[0], [vs[32][3] * vs[0], vs[31][15] + vs[n - 1]]): f.add('pga', ins, e, structure=False)
    # many temporaries and many results
    for k in (5, 8, 12, 14):
        ins = [('v%d' % i, 'vga.scalar') for i in range(k)]
        vs = [V('v%d' % i) for i in range(k)]
        f.add('vga', ins, [sqrt(x) for x in vs], structure=False)
        f.add('vga', ins, [vs[i] / vs[(i + 1) % k] for i in range(k)], structure=False)
        e = sin(vs[0])
        for i in range(1, k): e = e + sin(vs[i]) * cos(vs[k - 1 - i])
        f.add('vga', ins, e, structure=False)
        e = vs[0]
        for i in range(1, min(k, 9)): e = sqrt(e + vs[i])
        f.add('vga', ins, e, structure=False)
        e = vs[0]
        for i in range(1, min(k, 9)): e = vs[i] / (e + vs[i])
        f.add('vga', ins, e, structure=False)
    ctx.progs(f.P, 'many inputs, results and temporaries', batch=4)
def scout(ctx): ctx.scout(lambda b: b[1] & 16, sample=240)
PARTS = [('routing', routing), ('perm', perm), ('scale', scale), ('scout', scout)]
