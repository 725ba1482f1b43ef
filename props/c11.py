"""entities stand for their documented multivectors; conversion back loses nothing; component selection returns the coefficient of
exactly that element.  Each driver is a contract on the real constructors / conversion operators / selectors, over all coordinates."""
from fam import *
import runner, random
LEVEL = 'translation_validation'
ENTS = {'vga': ['vga.vector', 'vga.rotor', 'vga.scalar'], 'pga': ['pga.plane', 'pga.point', 'pga.line', 'pga.motor', 'pga.vpoint', 'pga.vector', 'pga.rotor', 'pga.translator', 'pga.scalar'],
        'pga2': ['pga2.line', 'pga2.point', 'pga2.vector', 'pga2.scalar'], 'cga': ['cga.point', 'cga.scalar']}
ALG = {'vga': 'vga::vga_algebra', 'pga': 'pga::pga_algebra', 'pga2': 'pga2::pga2_algebra', 'cga': 'cga::cga_algebra'}
def subsets(rng, dim, n):
    N = 1 << dim
    if N <= 4:
        return [[e for e in range(N) if m >> e & 1] for m in range(1, 1 << N)]
    out = [list(range(N))] + [[e] for e in range(min(N, 16))] + [[e for e in range(N) if ga.popc(e) == g] for g in range(dim + 1)]
    out += [[e for e in range(N) if ga.popc(e) % 2 == k] for k in (0, 1)] + [[e for e in range(N) if e != x] for x in range(N)]
    for _ in range(n):
        k = rng.randint(1, N); out.append(sorted(rng.sample(range(N), k)))
    seen = set(); r = []
    for x in out:
        if tuple(x) not in seen: seen.add(tuple(x)); r.append(x)
    return r
def braces(n, off=0): return '{' + ', '.join('in[%d]' % (off + i) for i in range(n)) + '}'

def stands_for(ctx):
    """compute([](auto a) { return a; }, x) is the documented multivector, alone and beside other inputs"""
    ctx.assume(*runner.COMMON_ASSUME)
    f = Fam('s'); rng = random.Random('c11/%d' % ctx.seed)
    for ns, es in ENTS.items():
        gen_ = [group(ns, x) for x in subsets(rng, ga.ALGS[ns].dim, 12)]
        for i, x in enumerate(es + gen_):
            if ns == 'cga' and x.count('_') > 16: continue
            f.add(ns, [('p', x)], p, T='double'); f.add(ns, [('p', x)], p, T='float')
            y = es[i % len(es)]
            if i < len(es): f.add(ns, [('a', y), ('p', x), ('b', y)], p, structure=False)
    for m in ((1, 3, 0), (2, 0, 2), (0, 2, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1), (3, 1, 1)):
        A = ga.metric_alg(*m)
        for x in subsets(rng, A.dim, 4): 
            if A.dim < 5 or len(x) < 12: f.add(A, [('p', group(A.ns, x))], p)
        f.add(A, [('p', A.ns + '.scalar')], p)
    ctx.progs(f.P, 'the multivector of every entity', batch=10)

# conversions back: (type, namespace, how the multivector is produced, [(element, sign)] in coordinate order, weight element or None)
CONV = [('pga::plane', 'pga', [(1, 1), (2, 1), (4, 1), (8, 1)], None), ('pga::line', 'pga', [(12, -1), (10, 1), (6, -1), (3, -1), (5, -1), (9, -1)], None),
        ('pga::vector', 'pga', [(13, -1), (11, 1), (7, -1)], None), ('pga::motor', 'pga', [(e, 1) for e in (0, 3, 5, 6, 9, 10, 12, 15)], None),
        ('vga::point', 'pga', [(13, -1), (11, 1), (7, -1)], 14), ('vga::vector', 'vga', [(1, 1), (2, 1), (4, 1)], None),
        ('pga2::line', 'pga2', [(1, 1), (2, 1), (4, 1)], None), ('pga2::point', 'pga2', [(5, -1), (3, 1)], 6), ('pga2::vector', 'pga2', [(5, -1), (3, 1)], None),
        ('cga::point', 'cga', [(1, 1), (2, 1), (4, 1)], None)]
def conversions(ctx):
    """reading an entity from a generic multivector, for every subset of elements tried"""
    f = Fam('c'); rng = random.Random('c11c/%d' % ctx.seed)
    for ty, ns, co, wt in CONV:
        dim = ga.ALGS[ns].dim
        sub = subsets(rng, dim, 10 if not ctx.thorough else 60)
        for k, els in enumerate(sub):
            if wt is not None and wt not in els: els = sorted(els + [wt])
            if len(els) > 32: continue
            n = len(co)
            def spec(R, x, els=els, co=co, wt=wt):
                w = RF.const(R, 1) if wt is None else x[els.index(wt)]
                return [(x[els.index(e)].scale(s) / w if e in els else RF.const(R, 0)) for e, s in co]
            T = 'double' if k % 2 else 'float'
            f.raw(len(els), n, 'entity<%s, T, %s> e%s; %s<T> y = e; for (int i = 0; i != %d; ++i) out[i] = y[i];' % (ALG[ns], ', '.join(map(str, els)), braces(len(els)), ty, n), spec, T=T)
            f.raw(len(els), n, 'entity<%s, T, %s> const e%s; %s<T> const y{e}; for (int i = 0; i != %d; ++i) out[i] = y.data[i];' % (ALG[ns], ', '.join(map(str, els)), braces(len(els)), ty, n), spec, T=T)
        # exactly zero
        if wt is None:
            f.raw(1, len(co), 'entity<%s, T> e; %s<T> y = e; for (int i = 0; i != %d; ++i) out[i] = y[i];' % (ALG[ns], ty, len(co)), lambda R, x, n=len(co): [RF.const(R, 0)] * n)
    ctx.progs(f.P, 'entities read from multivectors', batch=12)

def roundtrip(ctx):
    f = Fam('r')
    H = lambda R, v: RF.const(R, Fraction(v))
    for T in ('double', 'float'):
        for ty, ns, co, wt in CONV:
            n = len(co); put = 'for (int i = 0; i != %d; ++i) out[i] = y[i];' % n
            idt = lambda R, x, n=n: list(x[:n])
            f.raw(n, n, '%s<T> x%s; %s<T> y = %s::compute([](auto a) { return a; }, x); %s' % (ty, braces(n), ty, ns, put), idt, T=T)
            f.raw(n, n, '%s<T> x%s; for (int i = 0; i != %d; ++i) out[i] = x[i];' % (ty, braces(n), n), idt, T=T)
            f.raw(n, n, '%s<T> x%s; auto y = x.data; for (int i = 0; i != %d; ++i) out[i] = y[i];' % (ty, braces(n), n), idt, T=T)
            f.raw(n, n, '%s<T> x%s; auto y = x; for (int i = 0; i != %d; ++i) { y[i] = x[%d - i] + x[0]; } for (int i = 0; i != %d; ++i) out[i] = y[i];' % (ty, braces(n), n, n - 1, n), lambda R, x, n=n: [v + x[0] for v in reversed(x[:n])], T=T)
            f.raw(n, 1, '%s<T> x%s; out[0] = T(x.size());' % (ty, braces(n)), lambda R, x, n=n: [H(R, n)], T=T)
            # through a second computation, and scaled: homogeneous points do not see the factor
            sc = (lambda R, x, n=n: list(x[:n])) if wt is not None else (lambda R, x, n=n: [v * x[n] for v in x[:n]])
            f.raw(n + 1, n, '%s<T> x%s; scalar<%s, T> s{in[%d]}; %s<T> y = %s::compute([](auto a, auto s) { return s * a; }, x, s); %s' % (ty, braces(n), ALG[ns], n, ty, ns, put), sc, T=T)
            f.raw(n, n, '%s<T> x%s; %s<T> y = %s::compute([](auto a) { return 3 * a; }, x); %s' % (ty, braces(n), ty, ns, put), idt if wt is not None else (lambda R, x, n=n: [v.scale(3) for v in x[:n]]), T=T)
            f.raw(n, n, '%s<T> x%s; auto z = %s::compute([](auto a) { return -a; }, x); %s<T> y = %s::compute([](auto a) { return -a; }, z); %s' % (ty, braces(n), ns, ty, ns, put), idt, T=T)
            f.raw(n, n, '%s<T> x%s; %s<T> y = %s::compute([](auto a) { return !!!!a; }, x); %s' % (ty, braces(n), ty, ns, put), idt, T=T)
            f.raw(n, n, '%s<T> x%s; %s<T> y = %s::compute([](auto a) { return ~~a; }, x); %s' % (ty, braces(n), ty, ns, put), idt, T=T)
        # projective points <-> affine points
        f.raw(3, 4, 'vga::point<T> x{in[0], in[1], in[2]}; pga::point<T> y = x; for (int i = 0; i != 4; ++i) out[i] = y[i];', lambda R, x: [x[2].scale(-1), x[1], x[0].scale(-1), H(R, 1)], T=T)
        f.raw(3, 3, 'vga::point<T> x{in[0], in[1], in[2]}; pga::point<T> y = x; vga::point<T> z = y; for (int i = 0; i != 3; ++i) out[i] = z[i];', lambda R, x: x[:3], T=T)
        f.raw(4, 3, 'pga::point<T> y{in[0], in[1], in[2], in[3]}; vga::point<T> z = y; for (int i = 0; i != 3; ++i) out[i] = z[i];', lambda R, x: [x[2].scale(-1) / x[3], x[1] / x[3], x[0].scale(-1) / x[3]], T=T)
        # named coordinates
        for ty, names, pre in (('pga::plane', 'd x y z', ''), ('pga::line', 'dx dy dz mx my mz', ''), ('pga::vector', 'x y z', ''), ('pga::translator', 'd x y z', ''), ('vga::point', 'x y z', ''),
                          ('pga2::line', 'd x y', ''), ('pga2::point', 'x y', ''), ('pga2::point', 'u v', ''), ('pga2::point', 's t', ''), ('pga2::vector', 'x y', ''),
                          ('cga::point', 'x y z', ''), ('cga::point', 'u v w', ''), ('vga::vector', 'x y z', '')):
            nm = names.split(); n = len(nm)
            f.raw(n, n, '%s<T> x%s; %s' % (ty, braces(n), ' '.join('out[%d] = x.%s;' % (i, m) for i, m in enumerate(nm))), lambda R, x, n=n: x[:n], T=T)
            f.raw(n, n, '%s<T> y{%s}; auto x = y; %s for (int i = 0; i != %d; ++i) out[i] = x[i];' % (ty, ', '.join(['T(7)'] * n), ' '.join('x.%s = in[%d];' % (m, i) for i, m in enumerate(nm)), n), lambda R, x, n=n: x[:n], T=T)
        for ty in ('pga::rotor', 'vga::rotor'):
            f.raw(5, 5, '%s<T> x{T(1), T(0), T(0), T(0)}; x.cos_theta = in[0]; x.sin_theta = in[1]; x.x = in[2]; x.y = in[3]; x.z = in[4]; for (int i = 0; i != 5; ++i) out[i] = x[i];' % ty, lambda R, x: x[:5], T=T)
            f.raw(4, 5, '%s<T> x{in[0], in[1], in[2], in[3]}; out[0] = x.cos_theta; out[1] = x.sin_theta; out[2] = x.x; out[3] = x.y; out[4] = x.z;' % ty,
                  lambda R, x: [ga.app(R, 'cos', (x[0].scale(Fraction(1, 2)),)), ga.app(R, 'sin', (x[0].scale(Fraction(1, 2)),))] + x[1:4], T=T)
        f.raw(8, 8, 'std::array<T, 8> d%s; pga::motor<T> m{d}; for (int i = 0; i != 8; ++i) out[i] = m[i];' % braces(8), lambda R, x: x[:8], T=T)
        f.raw(6, 6, 'std::array<T, 6> d%s; pga::line<T> m{d}; for (int i = 0; i != 6; ++i) out[i] = m[i];' % braces(6), lambda R, x: x[:6], T=T)
        f.raw(8, 16, 'pga::motor<T> m%s; auto const b = m.bivector(); for (unsigned e = 0; e != 16; ++e) out[e] = b.select(e);' % braces(8),
              lambda R, x: [x[(0, 3, 5, 6, 9, 10, 12, 15).index(e)] if ga.popc(e) == 2 else H(R, 0) for e in range(16)], T=T)
        f.raw(1, 4, 'scalar<pga::pga_algebra, T> x{in[0]}; T y = x; out[0] = y; out[1] = x[0]; out[2] = *x.data(); x[0] = in[0] + in[0]; out[3] = x.value;', lambda R, x: [x[0], x[0], x[0], x[0].scale(2)], T=T)
    ctx.progs(f.P, 'round trips and named coordinates', batch=12)

def selection(ctx):
    """entity::select in all its forms, for all elements"""
    f = Fam('e'); rng = random.Random('c11e/%d' % ctx.seed)
    Z = lambda R: RF.const(R, 0)
    algs = [('pga::pga_algebra', 4), ('vga::vga_algebra', 3), ('cga::cga_algebra', 5), ('algebra<metric<1, 1, 0>>', 2), ('algebra<metric<1, 0, 0>>', 1)]
    k = 0
    for alg, dim in algs:
        N = 1 << dim
        for els in subsets(rng, dim, 8 if not ctx.thorough else 80):
            for order in (0, 1):
                if order == 1:
                    if k % 3 or len(els) < 2: k += 1; continue
                    els = els[:]; rng.shuffle(els)
                k += 1
                T = 'double' if k % 2 else 'float'
                n = len(els); ent = 'entity<%s, T, %s>' % (alg, ', '.join(map(str, els)))
                co = lambda R, x, els=els, N=N: [x[els.index(e)] if e in els else Z(R) for e in range(N)]
                f.raw(n, N, '%s const e%s; for (unsigned i = 0; i != %d; ++i) out[i] = e.select(i);' % (ent, braces(n), N), co, T=T)
                f.raw(n, N, '%s const e%s; auto a = e.template select<%s>(); for (unsigned i = 0; i != %d; ++i) out[i] = a[i];' % (ent, braces(n), ', '.join(map(str, range(N))), N), co, T=T)
                f.raw(n, N, '%s const e%s; %s' % (ent, braces(n), ' '.join('out[%d] = e.template select<%d>();' % (i, i) for i in range(N))), co, T=T)
                pm = list(range(N)); rng.shuffle(pm); pm = pm[:max(2, rng.randint(1, N))]
                f.raw(n, len(pm), '%s e%s; auto a = e.template select<%s>(); for (unsigned i = 0; i != %d; ++i) out[i] = a[i];' % (ent, braces(n), ', '.join(map(str, pm)), len(pm)),
                      lambda R, x, els=els, pm=pm: [x[els.index(e)] if e in els else Z(R) for e in pm], T=T)
                # writing through the pointer changes that component only; absent components have no address
                f.raw(n + 1, n, '%s e%s; for (unsigned i = 0; i != %d; ++i) { T* q = e.select(i); if (q != nullptr) *q = *q * in[%d]; } for (unsigned i = 0; i != %d; ++i) out[i] = e[i];' % (ent, braces(n), N, n, n),
                      lambda R, x, n=n: [v * x[n] for v in x[:n]], T=T)
                t = rng.choice(els)
                f.raw(n + 1, n, '%s e%s; T* q = e.select(%d); *q = in[%d]; for (unsigned i = 0; i != %d; ++i) out[i] = e[i];' % (ent, braces(n), t, n, n),
                      lambda R, x, n=n, j=els.index(t): [x[n] if i == j else x[i] for i in range(n)], T=T)
                f.raw(n, 3, '%s e%s; T s = 0; for (T v : e) s = s * 2 + v; out[0] = s; out[1] = T(e.end() - e.begin()); out[2] = T(e.size()); out[1] = out[1] + e.data()[0] - e[0];' % (ent, braces(n)),
                      lambda R, x, n=n: [hor(R, x[:n]), RF.const(R, n), RF.const(R, n)], T=T)
        f.raw(1, N, 'entity<%s, T> const e{}; for (unsigned i = 0; i != %d; ++i) out[i] = e.select(i) + e[i];' % (alg, N), lambda R, x, N=N: [Z(R)] * N)
        f.raw(1, 2, 'entity<%s, T> e{}; out[0] = e.select(0) == nullptr && e.begin() == e.end() && e.data() == nullptr ? T(1) : T(0); out[1] = T(e.size());' % alg, lambda R, x: [RF.const(R, 1), Z(R)])
        f.raw(1, 3, 'entity<%s, T> e{}; out[0] = e.template select<1>(); auto a = e.template select<0, 1>(); out[1] = a[0]; out[2] = a[1];' % alg, lambda R, x: [Z(R)] * 3)
    ctx.progs(f.P, 'component selection', batch=14)
def hor(R, xs):
    s = RF.const(R, 0)
    for v in xs: s = s.scale(2) + v
    return s
def chains(ctx):
    """a result is itself an entity: feeding it to another computation gives the composition"""
    f = Fam('h'); rng = random.Random('c11h/%d' % ctx.seed)
    for ns in ('vga', 'pga', 'pga2', 'cga'):
        A = ga.ALGS[ns]; N = 1 << A.dim
        es = [x for x in ENTS[ns] if 'scalar' not in x and 'rotor' not in x]
        for i in range(24 if not ctx.thorough else 120):
            x, y = rng.choice(es), rng.choice(es)
            e1 = rng.choice([p * q, p + q, p ^ q, p & q, p | q, p - 2 * q, dual(p) * q, ~p + q])
            e2 = rng.choice([r * ~r, r + r, dual(r), ~r, r ^ r, 3 * r - ~r, r.grade(2), r])
            ex, ey = ga.get_ent(x), ga.get_ent(y)
            if ns == 'cga' and 'r*~r' in ga.cpp(e2): continue
            pr = Prog('x', ns, [('p', x), ('q', y)], e1)
            if gen.cost(pr) > 60: continue
            def spec(R, v, A=A, ex=ex, ey=ey, e1=e1, e2=e2, N=N):
                m = ga.denote(e1, {'p': ex.den(A, R, v[:ex.n]), 'q': ey.den(A, R, v[ex.n:])}, A, R)
                m = ga.denote(e2, {'r': m}, A, R)
                if A.null: m = ga.to_null(m)
                return [m.coef(e) for e in range(N)]
            txt = 'using namespace gal::%s; %s p%s; %s q%s; auto const r = %s::compute([](auto p, auto q) { return %s; }, p, q); auto const o = %s::compute([](auto r) { return %s; }, r); for (unsigned i = 0; i != %d; ++i) out[i] = o.select(i);' % (
                ns, ex.cpp, ex.make(('in', 0)), ey.cpp, ey.make(('in', ex.n)), ns, ga.cpp(e1), ns, ga.cpp(e2), N)
            f.raw(ex.n + ey.n, N, txt, spec, T='double' if i % 2 else 'float')
    ctx.progs(f.P, 'results fed to further computations', batch=6)
def large(ctx):
    """entities with many components: reading and selection"""
    f = Fam('g'); rng = random.Random('c11g/%d' % ctx.seed)
    sets = [(m, list(range(1 << sum(m)))) for m in ((6, 0, 0), (3, 3, 1)) + (((8, 0, 0),) if ctx.thorough else ())]
    sets += [(m, sorted(rng.sample(range(1 << sum(m)), n))) for m, n in (((5, 1, 0), 40), ((4, 4, 0), 140)) + ((((7, 0, 0), 100), ((4, 2, 2), 200)) if ctx.thorough else ())]
    for m, els in sets:
        N = 1 << sum(m); A = 'algebra<metric<%d, %d, %d>>' % m
        E = 'using E = entity<%s, T, %s>; E e{}; for (int i = 0; i != %d; ++i) e[i] = in[i]; E const& k = e; ' % (A, ', '.join(map(str, els)), len(els))
        for lo in range(0, N, 32):
            q = list(range(lo, min(N, lo + 32)))
            want = lambda R, x, q=q, els=els: [x[els.index(e)] if e in els else RF.const(R, 0) for e in q]
            T = 'double' if lo // 32 % 2 else 'float'
            f.raw(len(els), len(q), E + 'for (int i = 0; i != %d; ++i) out[i] = k.select(%d + i);' % (len(q), lo), want, T=T)
            f.raw(len(els), len(q), E + 'auto v = k.template select<%s>(); for (int i = 0; i != %d; ++i) out[i] = v[i];' % (', '.join(map(str, q)), len(q)), want, T=T)
            f.raw(len(els), len(q), E + 'for (int i = 0; i != %d; ++i) { auto* v = e.select(%d + i); out[i] = v ? *v : T(0); }' % (len(q), lo), want, T=T)
        for lo in range(0, len(els), 48):
            q = list(range(lo, min(len(els), lo + 48)))
            f.raw(len(els), len(q), E + 'for (int i = 0; i != %d; ++i) out[i] = *(k.data() + %d + i);' % (len(q), lo), lambda R, x, q=q: [x[i] for i in q])
            f.raw(len(els), len(q), E + 'constexpr auto m = E::ie(3); for (int i = 0; i != %d; ++i) out[i] = m.terms[%d + i].element == E::elements[%d + i] && m.terms[%d + i].count == 1 ? e[m.inds[m.mons[m.terms[%d + i].mon_offset].ind_offset].id - 3] : T(-77);' % (len(q), lo, lo, lo, lo),
                  lambda R, x, q=q: [x[i] for i in q])
    ctx.progs(f.P, 'entities with many components', batch=10)
PARTS = [('large', large), ('stands for', stands_for), ('conversions', conversions), ('round trips', roundtrip), ('selection', selection), ('chains', chains)]
