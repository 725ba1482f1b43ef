"""exact cancellation: no identically zero component, sorted unique components"""
from fam import *
import runner
LEVEL = 'translation_validation'
def ident(ctx):
    ctx.assume(*runner.COMMON_ASSUME)
    f = Fam('i')
    C = ('cga', [('p', 'cga.point'), ('q', 'cga.point'), ('r', 'cga.point')])
    for e in (p >> p, p | p, p ^ p, p * p, p ^ q ^ p, (p ^ q) + (q ^ p), p * q - q * p, p * q + q * p, p | q, (p | q) - (q | p), p - p, p + q - p, p - q - p + q, (p ^ q ^ r) + (q ^ p ^ r), 2 * p - p - p, p * q * p, (p ^ q) | p, sp(p, p), ~p - p, p + p, p.grade(1) - p, p.grade(2), p[0]):
        f.add(*C, e)
    for ns, x, y in (('pga', 'pga.plane', 'pga.plane'), ('pga', 'pga.point', 'pga.point'), ('pga', 'pga.line', 'pga.line'), ('pga', 'pga.motor', 'pga.motor'), ('vga', 'vga.vector', 'vga.vector'), ('pga2', 'pga2.line', 'pga2.line'),
                     ('pga2', 'pga2.point', 'pga2.point'), ('vga', full('vga'), full('vga')), ('pga', 'pga.vpoint', 'pga.plane'), ('pga', 'pga.rotor', 'pga.rotor'), ('pga', 'pga.translator', 'pga.translator')):
        ins = [('p', x), ('q', y)]
        for e in (p - p, p ^ p, p * p, p & p, p | p, p >> p, p * ~p, ~p * p, p + q - p, p + q - q, p * q + q * p, p * q - q * p, (p ^ q) + (q ^ p), (p ^ q) - (q ^ p), (p | q) - (q | p), ~p + p, ~p - p, 2 * p - p, 2 * p - 2 * p, p / 2 + p / 2 - p, p + 0, 0 * p, 0 * p + q, (p * q) - (p * q), ~(p * q) - (~q) * (~p),
                  p - ~(~p), p + q + p - 2 * p, p - (p + q), (p + q) * (p - q), (p + q) - (p - q), dual(dual(p)), dual(p) - dual(p), p.grade(0) + p.grade(1) + p.grade(2) - p, p.grade(1).grade(2), (p * q).grade(1), (p * q).grade(0) - (q * p).grade(0), (p ^ q).grade(2), p * 1 if False else 1 * p, -p + p, p - 0 * q, 3 * p - p - 2 * p,
                  (p & q) + (q & p), (p & q) - (q & p), p * (q - q), (p - p) ^ q, q | (p - p)):
            pr = Prog('x', ns, ins, e)
            if gen.cost(pr) > 2500: continue
            f.add(ns, ins, e, structure=not repeats([e]))
    ctx.progs(f.P, 'identities that cancel exactly', batch=6)
def incid(ctx):
    f = Fam('z')
    P3 = [(x, 'pga.vpoint') for x in 'abc']
    for e in (a & b & c, (a & b) & a, (a & b) & b, (a & b & c) & a, (a & b & c) & b, (a & b & c) & c, a & a, (a & b) + (b & a), (a & b & c) - (b & c & a), (a & b) ^ (a & b)):
        f.add('pga', P3, e, structure=not repeats([e]))
    L3 = [(x, 'pga.plane') for x in 'abc']
    for e in (a ^ b ^ c, a ^ b ^ a, (a ^ b) ^ b, (a ^ b) + (b ^ a), (a ^ b ^ c) - (b ^ c ^ a), (a ^ b) ^ (a ^ b), (a ^ b ^ c) ^ a):
        f.add('pga', L3, e, structure=not repeats([e]))
    ctx.progs(f.P, 'incidence identities', batch=4)
def many(ctx):
    """cancellations of many monomials, high degrees, quotients and functions"""
    f = Fam('m')
    ins = [('s', 'vga.scalar'), ('t', 'vga.scalar'), ('u', 'vga.scalar'), ('p', 'vga.vector'), ('q', 'vga.vector')]
    def pw(x, k):
        e = x
        for _ in range(k - 1): e = e * x
        return e
    def sm(xs):
        e = xs[0]
        for x in xs[1:]: e = e + x
        return e
    for x in ((s + t) * (s - t) - s * s + t * t, (s + t) * (s + t) - (s - t) * (s - t) - 4 * (t * s), pw(s + t, 3) - pw(s, 3) - pw(t, 3) - 3 * (s * t * (t + s)), (s * t) * u - u * (t * s), (s + t + u) * (s + t + u) - (u + s + t) * (t + u + s),
              pw(s, 9) * t - t * pw(s, 9), pw(s, 17) - pw(s, 16) * s, p * q + q * p - 2 * sp(p, q), (p ^ q) + (q ^ p), p * p - sp(p, p), (p + q) * (p + q) - p * p - q * q - 2 * sp(p, q), p * q * p - 2 * (sp(p, q) * p) + sp(p, p) * q,
              (s / t) * t - s, s / t - (2 * s) / (2 * t), s / t + u / t - (s + u) / t, 1 / s - t / (s * t), sin(s) * cos(t) - cos(t) * sin(s), (sin(s) + cos(s)) * (sin(s) - cos(s)) - sin(s) * sin(s) + cos(s) * cos(s), sqrt(s) * sqrt(s) * t - t * (sqrt(s) * sqrt(s)),
              PI * s - s * PI, E * (PI * s) - PI * (E * s), (p / s) * (q / t) - (p * q) / (s * t), dual(dual(dual(p))) - dual(p)):
        f.add('vga', ins, x, structure=False)
        f.add('vga', ins, [x, s], structure=False)
        f.add('vga', ins, p + x, structure=False)
    perms = [s * t * u, t * s * u, u * t * s, (s * u) * t, s * (t * u), t * (u * s), (u * s) * t, u * (t * s), t * (s * u), (t * u) * s, s * (u * t), (s * t) * u]
    for k in (3, 5, 8, 9, 10, 12):
        f.add('vga', ins, sm(perms[:k]) - k * (s * t * u), structure=False)
        f.add('vga', ins, sm(perms[:k]) - (k - 1) * (s * t * u), structure=False)
        f.add('vga', ins, sm([x if i % 2 else -x for i, x in enumerate(perms[:k])]), structure=False)
        f.add('vga', ins, sm([x * p if i % 2 else -x * p for i, x in enumerate(perms[:k])]), structure=False)
    ctx.progs(f.P, 'cancellations of many monomials', batch=6)
def rnd(ctx):
    n = 6 if ctx.thorough else 1
    f = Fam('r')
    keep = lambda x: not repeats(x.exprs)
    rand(f, 'c5/%s' % ctx.seed, 900 * n, ('pga', 'vga', 'pga2'), 3, False, False, 900, structure=True, keep=keep)
    rand(f, 'c5/%s' % ctx.seed, 300 * n, ('cga',), 2, False, False, 900, structure=True, keep=keep)
    ctx.progs(f.P, 'random programs without shared subexpressions: every component that vanishes identically is absent', batch=6)
PARTS = [('ident', ident), ('incid', incid), ('many', many), ('rnd', rnd)]
