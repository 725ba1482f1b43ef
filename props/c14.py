"""conformal algebra: null basis, points, distances, versors; expressions agree with the orthogonal basis"""
from fam import *
import runner
from ga import MV, CGA, to_natural
LEVEL = 'translation_validation'
H = Fraction(1, 2)
no, ni = lit(1, '_no', 8), lit(1, '_ni', 16)
e1, e2, e3 = lit(1, '_e1', 1), lit(1, '_e2', 2), lit(1, '_e3', 4)
def nb(d):
    """expected result in the null basis: R, x -> {element: coefficient}"""
    return lambda pr, R, x: [to_natural(MV(CGA, R, d(R, x)))]
def one(R): return RF.const(R, 1)
def sq(v): return v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
def sub(x, y): return [i - j for i, j in zip(x, y)]
def pt(R, x, w=None):
    """null-basis coordinates of the conformal point at x"""
    return {1: x[0], 2: x[1], 4: x[2], 8: one(R), 16: sq(x).scale(H)}
def relations(ctx):
    ctx.assume(*runner.COMMON_ASSUME)
    f = Fam('n')
    S = [('s', 'cga.scalar')]
    A = lambda e, d, **k: f.add('cga', S, s * e, den=nb(d), **k)
    for o in ('gp', 'sip', 'ep', 'lc'):
        B = lambda x, y, o=o: Ex(o, x, y)
        Z = lambda R, x: {}
        A(B(no, no), Z); A(B(ni, ni), Z)
        for e, el in ((e1, 1), (e2, 2), (e3, 4)):
            for n, nl in ((no, 8), (ni, 16)):
                # no and ni are orthogonal to the Euclidean vectors
                A(B(e, n), (lambda R, x, k=el | nl: {k: x[0]}) if o in ('gp', 'ep') else Z)
                A(B(n, e), (lambda R, x, k=el | nl: {k: x[0].scale(-1)}) if o in ('gp', 'ep') else Z)
            A(B(e, e), (lambda R, x: {0: x[0]}) if o != 'ep' else Z)
        m = {'gp': {0: -1, 24: 1}, 'sip': {0: -1}, 'lc': {0: -1}, 'ep': {24: 1}}[o]
        A(B(no, ni), lambda R, x, m=m: {k: x[0].scale(v) for k, v in m.items()})
        m = {k: (v if k == 0 else -v) for k, v in m.items()}
        A(B(ni, no), lambda R, x, m=m: {k: x[0].scale(v) for k, v in m.items()})
    A(sp(no, ni), lambda R, x: {0: x[0].scale(-1)})
    A((no ^ ni) * (no ^ ni), lambda R, x: {0: x[0]})
    A((no * ni) * no, lambda R, x: {8: x[0].scale(-2)})
    A((ni * no) * ni, lambda R, x: {16: x[0].scale(-2)})
    A(no * ni + ni * no, lambda R, x: {0: x[0].scale(-2)})
    A(no + ni, lambda R, x: {8: x[0], 16: x[0]}); A(no - ni, lambda R, x: {8: x[0], 16: x[0].scale(-1)})
    A((no - ni) * (no - ni), lambda R, x: {0: x[0].scale(2)}); A((no + ni) * (no + ni), lambda R, x: {0: x[0].scale(-2)})
    A(lit(3, '_no', 8) | lit(5, '_ni', 16), lambda R, x: {0: x[0].scale(-15)})
    ctx.progs(f.P, 'null basis relations', batch=8)
def points(ctx):
    f = Fam('p')
    P = [(x, 'cga.point') for x in 'abcd']
    d = V('d')
    for T in ('double', 'float'):
        f.add('cga', P[:1], a, den=nb(lambda R, x: pt(R, x)), T=T)
        f.add('cga', P[:1], a * a, den=nb(lambda R, x: {}), T=T); f.add('cga', P[:1], a | a, den=nb(lambda R, x: {}), T=T)
        f.add('cga', P[:1], a ^ a, den=nb(lambda R, x: {}), T=T); f.add('cga', P[:1], a >> a, den=nb(lambda R, x: {}), T=T)
        dist = lambda R, x: {0: sq(sub(x[0:3], x[3:6])).scale(-H)}
        for e in (a | b, b | a, a >> b, sp(a, b), (a * b)[0], (a * b).grade(0)): f.add('cga', P[:2], e, den=nb(dist), T=T)
        f.add('cga', P[:2], a * b + b * a, den=nb(lambda R, x: {0: -1 * sq(sub(x[0:3], x[3:6])) if False else sq(sub(x[0:3], x[3:6])).scale(-1)}), T=T)
        f.add('cga', P[:1], a | ni, den=nb(lambda R, x: {0: RF.const(R, -1)}), T=T); f.add('cga', P[:1], ni | a, den=nb(lambda R, x: {0: RF.const(R, -1)}), T=T)
        f.add('cga', P[:1], a | no, den=nb(lambda R, x: {0: sq(x).scale(-H)}), T=T); f.add('cga', P[:1], a >> no, den=nb(lambda R, x: {0: sq(x).scale(-H)}), T=T)
        for k in range(3): f.add('cga', P[:1], a | [e1, e2, e3][k], den=nb(lambda R, x, k=k: {0: x[k]}), T=T)
    # spheres c - r^2/2 ni: square, incidence, power of a point
    SR = [('c', 'cga.point'), ('p', 'cga.point'), ('r', 'cga.scalar')]
    sph = c - (r * r / 2) * ni
    f.add('cga', SR, sph * sph, den=nb(lambda R, x: {0: x[6] * x[6]})); f.add('cga', SR, sph | sph, den=nb(lambda R, x: {0: x[6] * x[6]}))
    f.add('cga', SR, p | sph, den=nb(lambda R, x: {0: (x[6] * x[6] - sq(sub(x[3:6], x[0:3]))).scale(H)}))
    # point pair, flat point
    f.add('cga', P[:2], (a ^ b) | (a ^ b), den=nb(lambda R, x: {0: sq(sub(x[0:3], x[3:6])) * sq(sub(x[0:3], x[3:6])).scale(H * H)}))
    f.add('cga', P[:2], (a ^ b) * (a ^ b), den=nb(lambda R, x: {0: sq(sub(x[0:3], x[3:6])) * sq(sub(x[0:3], x[3:6])).scale(H * H)}), structure=False)
    f.add('cga', P[:2], a ^ b ^ a, den=nb(lambda R, x: {})); f.add('cga', P[:2], a ^ b ^ b, den=nb(lambda R, x: {}))
    f.add('cga', P[:2], a ^ b ^ ni); f.add('cga', P[:2], (a ^ b ^ ni) * (a ^ b ^ ni), den=nb(lambda R, x: {0: sq(sub(x[0:3], x[3:6]))}), structure=False)
    f.add('cga', P[:3], a ^ b ^ c); f.add('cga', P[:3], (a ^ b ^ c) ^ a, den=nb(lambda R, x: {}))
    # the sphere through a, b, c and the origin point
    f.add('cga', P[:3], (a ^ b ^ c) ^ no); f.add('cga', P[:3], a ^ b ^ c ^ ni)
    # versors: translator 1 - t ni / 2, rotor, dilator, reflection, inversion
    VT = [('p', 'cga.point'), ('t', 'cga.e1_2_4')]
    tr = 1 - (t * ni) / 2
    f.add('cga', VT, tr * p * ~tr, den=nb(lambda R, x: pt(R, [x[i] + x[3 + i] for i in range(3)])), structure=False)
    f.add('cga', VT, tr * ~tr, den=nb(lambda R, x: {0: one(R)}), structure=False); f.add('cga', VT, tr * no * ~tr, den=nb(lambda R, x: pt(R, x[3:6])), structure=False)
    f.add('cga', VT, tr * ni * ~tr, den=nb(lambda R, x: {16: one(R)}), structure=False)
    # reflection in the unit vector direction t (scaled by t^2)
    def refl(R, x):
        P_, t_ = x[0:3], x[3:6]; n2 = sq(t_); dt = P_[0] * t_[0] + P_[1] * t_[1] + P_[2] * t_[2]
        Q = {1 << i: (P_[i] * n2 - (t_[i] * dt).scale(2)).scale(-1) for i in range(3)}
        Q[8] = n2.scale(-1); Q[16] = (sq(P_) * n2).scale(-H)
        return Q
    f.add('cga', VT, t * p * t, den=nb(refl), structure=False)
    # inversion in the unit sphere at the origin: no - ni/2
    f.add('cga', P[:1], (no - ni / 2) * a * (no - ni / 2), den=nb(lambda R, x: {1: x[0].scale(-1), 2: x[1].scale(-1), 4: x[2].scale(-1), 8: sq(x).scale(-1), 16: RF.const(R, -H)}), structure=False)
    # rotor cos + sin e12: rotates the xy plane by twice the angle (scaled by c^2 + s^2)
    RT = [('p', 'cga.point'), ('q', 'cga.e0_3')]
    def rot(R, x):
        c_, s_ = x[3], x[4]; C, D, N = c_ * c_ - s_ * s_, (c_ * s_).scale(2), c_ * c_ + s_ * s_
        return {1: x[0] * C + x[1] * D, 2: x[1] * C - x[0] * D, 4: x[2] * N, 8: N, 16: (sq(x[0:3]) * N).scale(H)}
    f.add('cga', RT, p % q, den=nb(rot), structure=False); f.add('cga', RT, q * p * ~q, den=nb(rot), structure=False)
    # dilator
    DT = [('p', 'cga.point'), ('q', 'cga.e0_24')]
    f.add('cga', DT, q * p * ~q, structure=False)
    ctx.progs(f.P, 'points, spheres, versors', batch=3)
def raws(ctx):
    """through the entity type itself"""
    f = Fam('q')
    for T in ('double', 'float'):
        f.raw(3, 3, 'cga::point<T> p{in[0], in[1], in[2]}; cga::point<T> q = cga::compute([](auto p) { return p; }, p); out[0] = q.x; out[1] = q.y; out[2] = q.z;', lambda R, x: x[0:3], T=T)
        f.raw(6, 3, 'cga::point<T> p{in[0], in[1], in[2]}; gal::entity<cga::cga_algebra, T, 1, 2, 4> t{in[3], in[4], in[5]}; using namespace gal::cga; cga::point<T> q = cga::compute([](auto p, auto t) { auto v = 1 - t * 1_ni / 2; return v * p * ~v; }, p, t); for (int i = 0; i != 3; ++i) out[i] = q[i];',
              lambda R, x: [x[i] + x[i + 3] for i in range(3)], T=T)
        f.raw(6, 2, 'cga::point<T> p{in[0], in[1], in[2]}, q{in[3], in[4], in[5]}; auto r = cga::compute([](auto p, auto q) { return p | q; }, p, q); auto s = cga::compute([](auto p) { return p | p; }, p); out[0] = static_cast<decltype(r) const&>(r).select(0); out[1] = static_cast<decltype(s) const&>(s).select(0);',
              lambda R, x: [sq(sub(x[0:3], x[3:6])).scale(-H), RF.const(R, 0)], T=T)
    ctx.progs(f.P, 'conformal point type', batch=2)
def basis(ctx):
    """every basis element in and out; every pair of basis elements through every product; random expressions"""
    f = Fam('b')
    g = full('cga')
    f.add('cga', [('p', g)], p); f.add('cga', [('p', g)], ~p); f.add('cga', [('p', g)], dual(p)); f.add('cga', [('p', g)], -p); f.add('cga', [('p', g)], p / 3)
    for k in range(6): f.add('cga', [('p', g)], p.grade(k))
    for k in range(32):
        f.add('cga', [('p', g)], p[k])
        f.add('cga', [('p', 'cga.e%d' % k)], p); f.add('cga', [('p', 'cga.e%d' % k)], dual(p))
        f.add('cga', [('p', 'cga.e%d' % k)], p * p); f.add('cga', [('p', 'cga.e%d' % k)], p * no + ni * p)
    for i in range(32):
        for j in range(32):
            if (i & 24) and (j & 24) and (i * 7 + j) % 2 == 0 or (i * 5 + j * 3) % 16 == 0:
                x, y = 'cga.e%d' % i, 'cga.e%d' % j
                f.add('cga', [('p', x), ('q', y)], [p * q, p ^ q, p | q, p >> q, p & q, p + q][(i + j) % 6])
    ctx.progs(f.P, 'basis elements', batch=12)
    f = Fam('r')
    n = 6 if ctx.thorough else 1
    rand(f, ctx.seed, 260 * n, ('cga',), 2, False, False, 900)
    rand(f, 'd%s' % ctx.seed, 60 * n, ('cga',), 2, True, True, 600)
    ctx.progs(f.P, 'random conformal expressions', batch=5)
PARTS = [('relations', relations), ('points', points), ('raws', raws), ('basis', basis)]
