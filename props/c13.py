"""rotors, translators and motors act as the rigid motions they encode; normalisation, exponential and logarithm"""
from fam import *
import runner
from ga import MV, PGA, VGA, app, get_ent
from c12 import cross, dot, sub
LEVEL = 'translation_validation'
H = Fraction(1, 2)
def add3(x, y): return [i + j for i, j in zip(x, y)]
def mul3(k, x): return [k * i for i in x]
def rot(c, v, P, sg=-1):
    """weight and image of P under the rotation with half-angle cosine c and (half-angle sine) * axis v; sg = +1: right-handed.
    The projective algebra documents its rotor as cos(t/2) + sin(t/2) (x e23 + y e31 + z e12), which is the left-handed rotation"""
    vv = dot(v, v); W = c * c + vv
    k = c * c - vv; vp = dot(v, P).scale(2); x = cross(v, P)
    return W, [k * P[i] + v[i] * vp + (c * x[i]).scale(2 * sg) for i in range(3)]
def hpoint(R, W, P): return MV(PGA, R, {14: W, 13: P[0].scale(-1), 11: P[1], 7: P[2].scale(-1)})
def plane(R, d, n): return MV(PGA, R, {1: d, 2: n[0], 4: n[1], 8: n[2]})
def line(R, d, m): return MV(PGA, R, {12: d[0].scale(-1), 10: d[1], 6: d[2].scale(-1), 3: m[0].scale(-1), 5: m[1].scale(-1), 9: m[2].scale(-1)})
def direction(R, v): return MV(PGA, R, {13: v[0].scale(-1), 11: v[1], 7: v[2].scale(-1)})
# each kind: entity, number of coordinates, image under a rotation (weighted), image under a translation by t
def im_rot(kind, R, c, v, x):
    if kind == 'pga.vpoint': W, P = rot(c, v, x); return hpoint(R, W, P)
    if kind == 'pga.point':
        W, P = rot(c, v, [x[2].scale(-1), x[1], x[0].scale(-1)]); return hpoint(R, W * x[3], P)
    if kind == 'pga.vector': W, P = rot(c, v, x); return direction(R, P)
    if kind == 'pga.plane': W, n = rot(c, v, x[1:4]); return plane(R, W * x[0], n)
    if kind == 'pga.line': return line(R, rot(c, v, x[0:3])[1], rot(c, v, x[3:6])[1])
def im_tr(kind, R, t, x):
    if kind == 'pga.vpoint': return hpoint(R, RF.const(R, 1), add3(x, t))
    if kind == 'pga.point': return hpoint(R, x[3], add3([x[2].scale(-1), x[1], x[0].scale(-1)], mul3(x[3], t)))
    if kind == 'pga.vector': return direction(R, x)
    if kind == 'pga.plane': return plane(R, x[0] - dot(x[1:4], t), x[1:4])
    if kind == 'pga.line': return line(R, x[0:3], add3(x[3:6], cross(t, x[0:3])))
KINDS = ['pga.vpoint', 'pga.point', 'pga.vector', 'pga.plane', 'pga.line']
def coords(mv, kind):
    d = mv.coef
    if kind in ('pga.vpoint', 'pga.vector'): return [d(13).scale(-1), d(11), d(7).scale(-1)]
    if kind == 'pga.point': return [d(7), d(11), d(13), d(14)]
    if kind == 'pga.plane': return [d(1), d(2), d(4), d(8)]
    return [d(12).scale(-1), d(10), d(6).scale(-1), d(3).scale(-1), d(5).scale(-1), d(9).scale(-1)]
def actions(ctx):
    ctx.assume(*runner.COMMON_ASSUME)
    f = Fam('a')
    for kind in KINDS:
        n = get_ent(kind).n
        for T in ('double', 'float'):
            f.add('pga', [('p', kind), ('r', 'pga.rotor')], p % r, T=T, structure=False,
                  den=lambda pr, R, x, kind=kind, n=n: [im_rot(kind, R, x[n], mul3(x[n + 1], x[n + 2:n + 5]), x[:n])])
            f.add('pga', [('r', 'pga.rotor'), ('p', kind)], r * p * ~r, T=T, structure=False,
                  den=lambda pr, R, x, kind=kind, n=n: [im_rot(kind, R, x[0], mul3(x[1], x[2:5]), x[5:])])
            f.add('pga', [('p', kind), ('t', 'pga.translator')], p % t, T=T, structure=False,
                  den=lambda pr, R, x, kind=kind, n=n: [im_tr(kind, R, mul3(x[n], x[n + 1:n + 4]), x[:n])])
            f.add('pga', [('t', 'pga.translator'), ('p', kind)], t * p * ~t, T=T, structure=False,
                  den=lambda pr, R, x, kind=kind, n=n: [im_tr(kind, R, mul3(x[0], x[1:4]), x[4:])])
        # the inverse motion restores the original, up to the squared norm
        def back(pr, R, x, kind=kind, n=n):
            v = mul3(x[n + 1], x[n + 2:n + 5]); W = x[n] * x[n] + dot(v, v)
            return [get_ent(kind).den(PGA, R, x[:n]).mulrf(W * W)]
        f.add('pga', [('p', kind), ('r', 'pga.rotor')], (p % r) % ~r, structure=False, den=back)
        f.add('pga', [('p', kind), ('t', 'pga.translator')], (p % t) % ~t, structure=False, den=lambda pr, R, x, kind=kind, n=n: [get_ent(kind).den(PGA, R, x[:n])])
        # translations compose by adding; they commute
        def two(pr, R, x, kind=kind, n=n):
            return [im_tr(kind, R, add3(mul3(x[n], x[n + 1:n + 4]), mul3(x[n + 4], x[n + 5:n + 8])), x[:n])]
        for e in (p % (t * u), p % (u * t), (p % t) % u):
            f.add('pga', [('p', kind), ('t', 'pga.translator'), ('u', 'pga.translator')], e, structure=False, den=two)
        # motors: translate, then rotate (and the other way round)
        def tr_rot(pr, R, x, kind=kind, n=n):
            q = im_tr(kind, R, mul3(x[n + 5], x[n + 6:n + 9]), x[:n]); k2 = 'pga.point' if kind == 'pga.vpoint' else kind
            return [im_rot(k2, R, x[n], mul3(x[n + 1], x[n + 2:n + 5]), coords(q, k2))]
        def rot_tr(pr, R, x, kind=kind, n=n):
            q = im_rot(kind, R, x[n], mul3(x[n + 1], x[n + 2:n + 5]), x[:n]); k2 = 'pga.point' if kind == 'pga.vpoint' else kind
            m = im_tr(k2, R, mul3(x[n + 5], x[n + 6:n + 9]), coords(q, k2))
            return [m]
        ins = [('p', kind), ('r', 'pga.rotor'), ('t', 'pga.translator')]
        for e, d in ((p % (r * t), tr_rot), ((p % t) % r, tr_rot), (p % (t * r), rot_tr), ((p % r) % t, rot_tr)):
            f.add('pga', ins, e, structure=False, den=d)
    for T in ('double', 'float'):
        def vrot(pr, R, x): return [MV(VGA, R, dict(zip((1, 2, 4), rot(x[3], mul3(x[4], x[5:8]), x[:3], 1)[1])))]
        f.add('vga', [('p', 'vga.vector'), ('r', 'vga.rotor')], p % r, T=T, structure=False, den=vrot)
        f.add('vga', [('p', 'vga.vector'), ('r', 'vga.rotor')], r * p * ~r, T=T, structure=False, den=vrot)
    f.add('vga', [('r', 'vga.rotor')], r * ~r, structure=False, den=lambda pr, R, x: [MV(VGA, R, {0: x[0] * x[0] + x[1] * x[1] * dot(x[2:5], x[2:5])})])
    f.add('pga', [('r', 'pga.rotor')], r * ~r, structure=False, den=lambda pr, R, x: [MV(PGA, R, {0: x[0] * x[0] + x[1] * x[1] * dot(x[2:5], x[2:5])})])
    f.add('pga', [('t', 'pga.translator')], t * ~t, structure=False, den=lambda pr, R, x: [MV(PGA, R, {0: RF.const(R, 1)})])
    ctx.progs(f.P, 'rotations and translations of points, directions, planes and lines', batch=4)

def constructed(ctx):
    """through the public constructors: an angle about a unit axis"""
    f = Fam('k')
    def tri(R, th): return app(R, 'cos', (th.scale(H),)), app(R, 'sin', (th.scale(H),))
    br = lambda n, o: '{' + ', '.join('in[%d]' % (o + i) for i in range(n)) + '}'
    for T in ('double', 'float'):
        def rp(R, x):
            c, s = tri(R, x[3]); W, P = rot(c, mul3(s, x[4:7]), x[:3]); return [v / W for v in P]
        f.raw(7, 3, 'vga::point<T> p%s; pga::rotor<T> r%s; vga::point<T> o = pga::compute([](auto p, auto r) { return p %% r; }, p, r); for (int i = 0; i != 3; ++i) out[i] = o[i];' % (br(3, 0), br(4, 3)), rp, T=T)
        def rv(R, x):
            c, s = tri(R, x[3]); return rot(c, mul3(s, x[4:7]), x[:3], 1)[1]
        f.raw(7, 3, 'vga::vector<T> p%s; vga::rotor<T> r%s; vga::vector<T> o = vga::compute([](auto p, auto r) { return p %% r; }, p, r); for (int i = 0; i != 3; ++i) out[i] = o[i];' % (br(3, 0), br(4, 3)), rv, T=T)
        # unit axis along z: the textbook rotation matrix, using cos^2 + sin^2 = 1
        def rz(ax, sg):
            def g(R, x):
                c, s = tri(R, x[3]); C = c * c - s * s; S = (c * s).scale(2 * sg)
                i, j, k = [(1, 2, 0), (2, 0, 1), (0, 1, 2)][ax]
                o = [None] * 3
                o[i] = C * x[i] - S * x[j]; o[j] = S * x[i] + C * x[j]; o[k] = x[k]
                return o
            return g
        for ax in range(3):
            a3 = ', '.join('T(1)' if i == ax else 'T(0)' for i in range(3))
            f.raw(4, 3, 'vga::point<T> p%s; pga::rotor<T> r{in[3], %s}; vga::point<T> o = pga::compute([](auto p, auto r) { return p %% r; }, p, r); for (int i = 0; i != 3; ++i) out[i] = o[i];' % (br(3, 0), a3), rz(ax, -1), T=T)
            f.raw(4, 3, 'vga::vector<T> p%s; vga::rotor<T> r{in[3], %s}; vga::vector<T> o = vga::compute([](auto p, auto r) { return p %% r; }, p, r); for (int i = 0; i != 3; ++i) out[i] = o[i];' % (br(3, 0), a3), rz(ax, 1), T=T)
        f.raw(7, 3, 'vga::point<T> p%s; pga::translator<T> r%s; vga::point<T> o = pga::compute([](auto p, auto r) { return p %% r; }, p, r); for (int i = 0; i != 3; ++i) out[i] = o[i];' % (br(3, 0), br(4, 3)),
              lambda R, x: add3(x[:3], mul3(x[3], x[4:7])), T=T)
        # a stored motor
        def mot(R, x):
            v = mul3(x[4], x[5:8]); W, P = rot(x[3], v, add3(x[:3], mul3(x[8], x[9:12]))); return [q / W for q in P]
        f.raw(12, 3, 'vga::point<T> p%s; pga::rotor<T> r{T(1), T(0), T(0), T(0)}; for (int i = 0; i != 5; ++i) r[i] = in[3 + i]; pga::translator<T> t%s; pga::motor<T> m = pga::compute([](auto r, auto t) { return r * t; }, r, t); vga::point<T> o = pga::compute([](auto p, auto m) { return p %% m; }, p, m); for (int i = 0; i != 3; ++i) out[i] = o[i];' % (br(3, 0), br(4, 8)), mot, T=T)
        # normalisation of axes
        def unit(k, n):
            def g(R, x):
                l = app(R, 'sqrt', (dot(x[k:k + 3], x[k:k + 3]),)); return x[:k] + [v / l for v in x[k:k + 3]]
            return g
        f.raw(3, 3, 'vga::vector<T> v%s; v.normalize(); for (int i = 0; i != 3; ++i) out[i] = v[i];' % br(3, 0), unit(0, 3), T=T)
        f.raw(4, 4, 'pga::translator<T> v%s; v.normalize(); for (int i = 0; i != 4; ++i) out[i] = v[i];' % br(4, 0), unit(1, 4), T=T)
        for ns in ('vga', 'pga'):
            f.raw(5, 5, '%s::rotor<T> v{T(0), T(1), T(0), T(0)}; for (int i = 0; i != 5; ++i) v[i] = in[i]; v.normalize(); for (int i = 0; i != 5; ++i) out[i] = v[i];' % ns, unit(2, 5), T=T)
    ctx.progs(f.P, 'motions built by the public constructors', batch=2)

EV = (0, 3, 5, 6, 9, 10, 12, 15)
def even(R, x): return MV(PGA, R, dict(zip(EV, x)))
def pssc(R, a, b): return MV(PGA, R, {0: a, 15: b})
def normalised(R, x):
    m = even(R, x); n = m.prod('gp', m.rev()); uu, v = n.coef(0), n.coef(15)
    assert not set(n.d) - {0, 15}
    su = app(R, 'sqrt', (uu,))
    return m.prod('gp', pssc(R, su.inv(), v.scale(-H) / (su * uu)))
def split(R, B):
    """B = (u + v I) L with L^2 = -1: (u, v, L)"""
    s = B.prod('sip', B).coef(0); q = B.prod('ep', B).coef(15)
    uu = app(R, 'sqrt', (s.scale(-1),)); v = q.scale(-H) / uu
    return uu, v, pssc(R, uu.inv(), v / s).prod('gp', B)
def expo(R, B):
    uu, v, L = split(R, B)
    c, s = app(R, 'cos', (uu,)), app(R, 'sin', (uu,))
    return pssc(R, c, (v * s).scale(-1)) + pssc(R, s, v * c).prod('gp', L)
def ev(m): return [m.coef(e) for e in EV]
def motors(ctx):
    f = Fam('m')
    br = lambda n, o=0: '{' + ', '.join('in[%d]' % (o + i) for i in range(n)) + '}'
    put = 'for (int i = 0; i != 8; ++i) out[i] = m[i];'
    one = lambda R: [RF.const(R, 1)] + [RF.const(R, 0)] * 7
    for T in ('double', 'float'):
        P0 = dict(T=T, assume=lambda x: x[0] ** 2 + x[3] ** 2 + x[5] ** 2 + x[6] ** 2 > 0.05)
        f.raw(8, 8, 'pga::motor<T> m%s; m.normalize(); %s' % (br(8), put), lambda R, x: ev(normalised(R, x)), **P0)
        f.raw(8, 8, 'pga::motor<T> k%s; k.normalize(); pga::motor<T> m = pga::compute([](auto m) { return m * ~m; }, k); %s' % (br(8), put), lambda R, x: one(R), **P0)
        f.raw(8, 8, 'pga::motor<T> k%s; k.normalize(); pga::motor<T> m = pga::compute([](auto m) { return ~m * m; }, k); %s' % (br(8), put), lambda R, x: one(R), **P0)
        # proportional to the original: the same motion.  The point image of the normalised motor is the projective image under the original.
        # exponential of a bivector
        nz = lambda x: x[2] ** 2 + x[4] ** 2 + x[5] ** 2 > 0.05
        biv = 'entity<pga::pga_algebra, T, 3, 5, 6, 9, 10, 12> l%s;' % br(6)
        bv = lambda R, x: MV(PGA, R, dict(zip(EV[1:7], x)))
        f.raw(6, 8, biv + ' pga::motor<T> m = pga::compute([](auto l) { return exp(l); }, l); ' + put, lambda R, x: ev(expo(R, bv(R, x))), T=T, assume=nz)
        f.raw(6, 8, 'pga::line<T> l%s; pga::motor<T> m = pga::compute([](auto l) { return exp(l); }, l); %s' % (br(6), put), lambda R, x: ev(expo(R, get_ent('pga.line').den(PGA, R, x))), T=T, assume=lambda x: x[0] ** 2 + x[1] ** 2 + x[2] ** 2 > 0.05)
        f.raw(6, 8, biv + ' pga::motor<T> k = pga::compute([](auto l) { return exp(l); }, l); pga::motor<T> m = pga::compute([](auto m) { return m * ~m; }, k); ' + put, lambda R, x: one(R), T=T, assume=nz)
        # exp(-l) is the inverse motion
        f.raw(6, 8, biv + ' pga::motor<T> m = pga::compute([](auto l) { return exp(-l); }, l); ' + put, lambda R, x: [v for v in ev(expo(R, bv(R, x)).rev())], T=T, assume=nz)
        # logarithm of a motor on the Study quadric (s p + q = 0): closed form, whichever branch the code takes
        mk = 'T const w = (in[2] * in[4] - in[1] * in[5] ); (void)w; '
        def study(R, x):
            B = bv(R, x[1:7]); return x[0], B, B.prod('ep', B).coef(15) * x[0].inv().scale(H)
        pstudy = '(in[1] * in[6] - in[2] * in[5] + in[3] * in[4]) / in[0]'
        def logspec(R, x):
            s1, B, p1 = study(R, x)
            uu, v2, L = split(R, B)
            th = app(R, 'atan2', (uu, s1))
            r = pssc(R, th, v2 / s1).prod('gp', L)
            return [r.coef(e) for e in EV]
        nz1 = lambda x: abs(x[0]) > 0.05 and x[3] ** 2 + x[5] ** 2 + x[6] ** 2 > 0.05
        mot = 'pga::motor<T> k{in[0], in[1], in[2], in[3], in[4], in[5], in[6], %s};' % pstudy
        f.raw(7, 8, mot + ' pga::motor<T> m = k.log(); ' + put, logspec, T=T, assume=nz1)
        # half turns: no scalar part, hence a simple bivector (l ^ l = 0)
        def logzero(R, x):
            b = [x[0], x[1], x[2], x[3], x[4], (x[1] * x[4] - x[2] * x[3]) / x[0]]
            B = bv(R, b); uu, v2, L = split(R, B)
            r = pssc(R, app(R, 'atan2', (uu, RF.const(R, 0))), x[5].scale(-1) / uu).prod('gp', L)
            return [r.coef(e) for e in EV]
        f.raw(6, 8, 'pga::motor<T> k{T(0), in[0], in[1], in[2], in[3], in[4], (in[1] * in[4] - in[2] * in[3]) / in[0], in[5]}; pga::motor<T> m = k.log(); ' + put, logzero, T=T,
              assume=lambda x: abs(x[0]) > 0.05 and x[2] ** 2 + x[4] ** 2 > 0.05)
        # exp(log m) = m / |m|
        def explog(R, x):
            s1, B, p1 = study(R, x)
            uu, v2, L = split(R, B); th = app(R, 'atan2', (uu, s1))
            N = app(R, 'sqrt', (s1 * s1 + uu * uu,))
            R.rules += [('sqrt', (th * th,), th), ('cos', (th,), s1 / N), ('sin', (th,), uu / N)]       # 0 <= atan2(u, s) <= pi for u >= 0
            m = MV(PGA, R, {0: s1, 15: p1}) + B
            return [v / N for v in ev(m)]
        f.raw(7, 8, mot + ' auto l = k.log(); pga::motor<T> m = pga::compute([](auto l) { return exp(l); }, l); ' + put, explog, T=T, assume=nz1)
        # log(exp l) = l for half-angles in (0, pi)
        def logexp(R, x):
            B = bv(R, x); uu, v, L = split(R, B)
            c, s = app(R, 'cos', (uu,)), app(R, 'sin', (uu,))
            R.rules += [('sqrt', (s * s,), s), ('atan2', (s, c), uu)]          # 0 < u < pi
            return ev(B)
        f.raw(6, 8, biv + ' pga::motor<T> k = pga::compute([](auto l) { return exp(l); }, l); pga::motor<T> m = k.log(); ' + put, logexp, T=T,
              assume=lambda x: 0.05 < x[2] ** 2 + x[4] ** 2 + x[5] ** 2 < 9.0)
    ctx.progs(f.P, 'normalisation, exponential, logarithm', batch=1)

def compositions(ctx):
    f = Fam('c')
    mo = ['pga.rotor', 'pga.translator', 'pga.motor']
    for kind in ('pga.vpoint', 'pga.plane', 'pga.line'):
        for x in mo:
            for y in mo:
                ins = [('p', kind), ('a', x), ('b', y)]
                def den(pr, R, v, kind=kind, x=x, y=y):
                    P, A, B = get_ent(kind), get_ent(x), get_ent(y)
                    env = {'p': P.den(PGA, R, v[:P.n]), 'a': A.den(PGA, R, v[P.n:P.n + A.n]), 'b': B.den(PGA, R, v[P.n + A.n:])}
                    i = env['b'].prod('gp', env['p']).prod('gp', env['b'].rev())
                    return [env['a'].prod('gp', i).prod('gp', env['a'].rev())]
                for e in ((p % b) % a, p % (a * b)):
                    pr = Prog('x', 'pga', ins, e)
                    if gen.cost(pr) < (400 if not ctx.thorough else 3000): f.add('pga', ins, e, structure=False, den=den)
    for kind in ('pga.vpoint', 'pga.plane', 'pga.vector', 'pga.line', 'pga.point'):
        f.add('pga', [('p', kind), ('a', 'pga.motor')], p % a, structure=False)
        f.add('pga', [('p', kind), ('a', 'pga.motor')], a * p * ~a, structure=False)
    for ns in ('pga2', 'vga'):
        k = {'pga2': ['pga2.point', 'pga2.line', 'pga2.vector'], 'vga': ['vga.vector', 'vga.e3_5_6']}[ns]
        for x in k:
            f.add(ns, [('p', x), ('a', ns + '.e0_3_5_6')], p % a, structure=False)
            f.add(ns, [('p', x), ('a', ns + '.e0_3_5_6'), ('b', ns + '.e0_6')], p % (a * b), structure=False)
            f.add(ns, [('p', x), ('a', ns + '.e0_6'), ('b', ns + '.e0_6')], (p % a) % b, structure=False)
    ctx.progs(f.P, 'compositions of motions', batch=2)
PARTS = [('actions', actions), ('constructed', constructed), ('motors', motors), ('compositions', compositions)]
