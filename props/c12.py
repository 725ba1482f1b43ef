"""projective geometry: join, meet, incidence agree with classical linear algebra for all coordinates"""
from fam import *
import runner
from ga import MV, PGA, PGA2
LEVEL = 'translation_validation'
def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
def cross(x, y): return [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]
def dot(x, y): return x[0] * y[0] + x[1] * y[1] + x[2] * y[2]
def sub(x, y): return [i - j for i, j in zip(x, y)]
NEG = lambda v: v.scale(-1)
def planes_meet(pr, R, x):
    """three planes d + n.X = 0 meet in the point with homogeneous coordinates given by Cramer's rule"""
    pl = [x[4*i:4*i+4] for i in range(3)]
    n = [y[1:4] for y in pl]; d = [[y[0]] for y in pl]
    W = det3(n)
    num = []
    for k in range(3):
        m = [[(NEG(d[i][0]) if j == k else n[i][j]) for j in range(3)] for i in range(3)]
        num.append(det3(m))
    # point (X,Y,Z,W): e123 = W, e023 = -X, e013 = Y, e012 = -Z
    return [MV(PGA, R, {14: W, 13: NEG(num[0]), 11: num[1], 7: NEG(num[2])})]
def pts_plane(sign):
    def f(pr, R, x):
        A, B, C = x[0:3], x[3:6], x[6:9]
        n = cross(sub(B, A), sub(C, A)); d = NEG(dot(n, A))
        k = {1: d, 2: n[0], 4: n[1], 8: n[2]}
        return [MV(PGA, R, {e: v.scale(sign) for e, v in k.items()})]
    return f
def pts_line(sign):
    """line through two points: direction B - A, moment A x B, in the library's line coordinates (see entity mapping)"""
    def f(pr, R, x):
        A, B = x[0:3], x[3:6]
        d = sub(B, A); m = cross(A, B)
        return [MV(PGA, R, {e: v.scale(sign) for e, v in {12: d[0], 10: NEG(d[1]), 6: d[2], 3: m[0], 5: m[1], 9: m[2]}.items()})]
    return f
def pga3(ctx):
    ctx.assume(*runner.COMMON_ASSUME)
    f = Fam('j')
    V3 = [(x, 'pga.vpoint') for x in 'abc']; L3 = [(x, 'pga.plane') for x in 'abc']
    for T in ('double', 'float'):
        f.add('pga', L3, a ^ b ^ c, den=planes_meet, T=T)
        f.add('pga', L3, (a ^ b) ^ c, den=planes_meet, T=T); f.add('pga', L3, a ^ (b ^ c), den=planes_meet, T=T)
        f.add('pga', V3, a & b & c, den=pts_plane(SIGN['plane']), T=T)
        f.add('pga', V3, a & (b & c), den=pts_plane(SIGN['plane']), T=T)
        f.add('pga', V3[:2], a & b, den=pts_line(SIGN['line']), T=T)
    # incidence: for all coordinates
    for e in ((a & b) & a, (a & b) & b, (a & b & c) & a, (a & b & c) & b, (a & b & c) & c, a & a):
        f.add('pga', V3, e, den=lambda pr, R, x: [MV(PGA, R)], structure=False)
    for e in (a ^ b ^ a, (a ^ b ^ c) ^ a, (a ^ b ^ c) ^ b, (a ^ b ^ c) ^ c, (a ^ b) ^ (a ^ b)):
        f.add('pga', L3, e, den=lambda pr, R, x: [MV(PGA, R)], structure=False)
    # point on plane: p ^ P is (up to orientation) the plane equation evaluated at the point
    def pteq(sign):
        return lambda pr, R, x: [MV(PGA, R, {15: (x[0] + x[1] * x[4] + x[2] * x[5] + x[3] * x[6]).scale(sign)})]
    f.add('pga', [('a', 'pga.plane'), ('b', 'pga.vpoint')], a ^ b, den=pteq(SIGN['peq']))
    f.add('pga', [('a', 'pga.plane'), ('b', 'pga.vpoint')], b ^ a, den=pteq(-SIGN['peq']))
    # a point of the line through a and b lies in the plane through a, b, c: coplanarity determinant
    def coplanar(sign):
        def g(pr, R, x):
            A, B, C, D = [x[3*i:3*i+3] for i in range(4)]
            return [MV(PGA, R, {0: det3([sub(B, A), sub(C, A), sub(D, A)]).scale(sign)})]
        return g
    f.add('pga', [(x, 'pga.vpoint') for x in 'abcd'], a & b & c & V('d'), den=coplanar(SIGN['coplanar']))
    # angles: the inner product of two planes is the dot product of their normals
    f.add('pga', L3[:2], a | b, den=lambda pr, R, x: [MV(PGA, R, {0: dot(x[1:4], x[5:8])})])
    f.add('pga', L3[:1], a * a, den=lambda pr, R, x: [MV(PGA, R, {0: dot(x[1:4], x[1:4])})])
    # scaling a homogeneous representative scales the result
    for e, g in (((2 * a) & b, a & b), (a & (3 * b), a & b), ((2 * a) & (3 * b), a & b)):
        f.add('pga', V3[:2], e)
    # projections and reflections: reflecting a point in a plane
    def refl(pr, R, x):
        pl, P = x[0:4], x[4:7]
        n2 = dot(pl[1:4], pl[1:4]); ev = pl[0] + dot(pl[1:4], P)
        Q = [P[i] * n2 - (pl[1 + i] * ev).scale(2) for i in range(3)]
        # homogeneous reflected point (Q, n2), orientation reversed
        return [MV(PGA, R, {13: NEG(Q[0]).scale(SIGN['refl']), 11: Q[1].scale(SIGN['refl']), 7: NEG(Q[2]).scale(SIGN['refl']), 14: n2.scale(SIGN['refl'])})]
    f.add('pga', [('a', 'pga.plane'), ('b', 'pga.vpoint')], a * b * a, den=refl, structure=False)
    f.add('pga', [('a', 'pga.plane'), ('b', 'pga.vpoint')], b % a, den=refl, structure=False)
    # line meets plane
    def lineplane(pr, R, x):
        A, B = x[0:3], x[3:6]; pl = x[6:10]
        d = sub(B, A); n = pl[1:4]
        W = dot(n, d); ev = pl[0] + dot(n, A)
        X = [A[i] * W - d[i] * ev for i in range(3)]
        s_ = SIGN['lineplane']
        return [MV(PGA, R, {14: W.scale(s_), 13: X[0].scale(-s_), 11: X[1].scale(s_), 7: X[2].scale(-s_)})]
    f.add('pga', [('a', 'pga.vpoint'), ('b', 'pga.vpoint'), ('c', 'pga.plane')], (a & b) ^ c, den=lineplane, structure=False)
    ctx.progs(f.P, '3D: joins, meets, incidence', batch=3)
def pga2(ctx):
    f = Fam('k')
    P2 = [(x, 'pga2.point') for x in 'abc']; L2 = [(x, 'pga2.line') for x in 'abc']
    def join(pr, R, x):
        A, B = x[0:2], x[2:4]
        s_ = SIGN['join2']
        # line through A and B: n = (A.y - B.y, B.x - A.x), d = A.x B.y - B.x A.y
        return [MV(PGA2, R, {2: (A[1] - B[1]).scale(s_), 4: (B[0] - A[0]).scale(s_), 1: (A[0] * B[1] - B[0] * A[1]).scale(s_)})]
    def meet(pr, R, x):
        d1, x1, y1, d2, x2, y2 = x
        W = x1 * y2 - x2 * y1
        X = NEG(d1) * y2 + d2 * y1; Y = NEG(x1) * d2 + x2 * d1
        s_ = SIGN['meet2']
        return [MV(PGA2, R, {6: W.scale(s_), 5: X.scale(-s_), 3: Y.scale(s_)})]
    for T in ('double', 'float'):
        f.add('pga2', P2[:2], a & b, den=join, T=T)
        f.add('pga2', L2[:2], a ^ b, den=meet, T=T)
    for e in ((a & b) & a, (a & b) & b, a & a): f.add('pga2', P2, e, den=lambda pr, R, x: [MV(PGA2, R)], structure=False)
    for e in (a ^ b ^ a, (a ^ b) ^ b): f.add('pga2', L2, e, den=lambda pr, R, x: [MV(PGA2, R)], structure=False)
    f.add('pga2', P2, a & b & c, den=lambda pr, R, x: [MV(PGA2, R, {0: ((x[2] - x[0]) * (x[5] - x[1]) - (x[4] - x[0]) * (x[3] - x[1])).scale(SIGN['area2'])})])
    f.add('pga2', [('a', 'pga2.line'), ('b', 'pga2.point')], a ^ b, den=lambda pr, R, x: [MV(PGA2, R, {7: (x[0] + x[1] * x[3] + x[2] * x[4]).scale(SIGN['peq2'])})])
    ctx.progs(f.P, '2D: joins, meets, incidence', batch=3)
# orientation conventions of the library (fixed by its documentation and tests; a change of convention is a change of behaviour)
SIGN = dict(plane=-1, line=1, peq=1, coplanar=-1, refl=1, lineplane=1, join2=1, meet2=1, area2=1, peq2=1)
def entities(ctx):
    f = Fam('e')
    # the line through two points, read back in the documented Pluecker coordinates (direction, moment), up to a common factor of -1
    def pl(R, x):
        A, B = x[0:3], x[3:6]
        return [v.scale(-1) for v in sub(B, A)] + [v.scale(-1) for v in cross(A, B)]
    pt = lambda n, i: 'vga::point<T> %s{in[%d], in[%d], in[%d]};' % (n, i, i + 1, i + 2)
    for T in ('double', 'float'):
        f.raw(6, 6, pt('a', 0) + pt('b', 3) + ' pga::line<T> l = pga::compute([](auto a, auto b) { return a & b; }, a, b); for (int i = 0; i != 6; ++i) out[i] = l[i];', pl, T=T)
        # a line given by Pluecker coordinates joined with the points that define it
        f.raw(6, 2, pt('a', 0) + pt('b', 3) + ''' T d[3] = {in[3] - in[0], in[4] - in[1], in[5] - in[2]};
            pga::line<T> l{d[0], d[1], d[2], in[1] * in[5] - in[2] * in[4], in[2] * in[3] - in[0] * in[5], in[0] * in[4] - in[1] * in[3]};
            auto r = pga::compute([](auto a, auto l) { return a & l; }, a, l); auto s = pga::compute([](auto l) { return (l ^ l)[15]; }, l);
            out[0] = 0; for (int i = 0; i != 4; ++i) { T v = static_cast<decltype(r) const&>(r).select(elem_t(1 << i)); out[0] = out[0] + v * v; }
            out[1] = static_cast<decltype(s) const&>(s).select(0);''', lambda R, x: [RF.const(R, 0), RF.const(R, 0)], T=T)
        # planes and points read back
        f.raw(9, 4, pt('a', 0) + pt('b', 3) + pt('c', 6) + ' pga::plane<T> l = pga::compute([](auto a, auto b, auto c) { return a & b & c; }, a, b, c); out[0] = l.d; out[1] = l.x; out[2] = l.y; out[3] = l.z;',
              lambda R, x: (lambda n: [dot(n, x[0:3])] + [v.scale(-1) for v in n])(cross(sub(x[3:6], x[0:3]), sub(x[6:9], x[0:3]))), T=T)
        f.raw(12, 3, 'pga::plane<T> a{in[0], in[1], in[2], in[3]}, b{in[4], in[5], in[6], in[7]}, c{in[8], in[9], in[10], in[11]}; vga::point<T> p = pga::compute([](auto a, auto b, auto c) { return a ^ b ^ c; }, a, b, c); out[0] = p.x; out[1] = p.y; out[2] = p.z;',
              lambda R, x: cramer(x), T=T)
        f.raw(4, 3, 'pga2::point<T> a{in[0], in[1]}, b{in[2], in[3]}; pga2::line<T> l = pga2::compute([](auto a, auto b) { return a & b; }, a, b); out[0] = l.d; out[1] = l.x; out[2] = l.y;',
              lambda R, x: [x[0] * x[3] - x[2] * x[1], x[1] - x[3], x[2] - x[0]], T=T)
        f.raw(6, 2, 'pga2::line<T> a{in[0], in[1], in[2]}, b{in[3], in[4], in[5]}; pga2::point<T> p = pga2::compute([](auto a, auto b) { return a ^ b; }, a, b); out[0] = p.x; out[1] = p.y;',
              lambda R, x: (lambda W: [(x[3] * x[2] - x[0] * x[5]) / W, (x[4] * x[0] - x[1] * x[3]) / W])(x[1] * x[5] - x[4] * x[2]), T=T)
    ctx.progs(f.P, 'joins and meets read back as entities', batch=2)
def cramer(x):
    pl = [x[4*i:4*i+4] for i in range(3)]; n = [y[1:4] for y in pl]; W = det3(n)
    return [det3([[(NEG(pl[i][0]) if j == k else n[i][j]) for j in range(3)] for i in range(3)]) / W for k in range(3)]
def geometry(ctx):
    f = Fam('t')
    for ns in ('pga', 'pga2'):
        es = [x for x in ENT[ns] if '.e' not in x]
        for x in es:
            for y in es:
                for e in (p & q, p ^ q, dual(p) ^ dual(q), dual(p & q), p | q, (p | q) * q):
                    if gen.cost(Prog('x', ns, [('p', x), ('q', y)], e)) < 1500: f.add(ns, [('p', x), ('q', y)], e, structure=False)
    ctx.progs(f.P, 'join, meet and projection of every pair of geometric primitives', batch=6)
PARTS = [('pga3', pga3), ('pga2', pga2), ('entities', entities), ('geometry', geometry)]
