"""Reference semantics: Clifford algebras from their axioms (independent of gal), and a small expression language that
prints itself as gal client code and denotes multivectors with rational-function coefficients."""
from fractions import Fraction
import poly
from poly import RF, Ring, app

class Alg:
    def __init__(self, ns, cppalg, sq, null=False, compute=None):
        self.ns = ns; self.cppalg = cppalg; self.sq = sq; self.dim = len(sq); self.null = null
        self.compute = compute or 'gal::%s::compute' % ns
        self.using = 'using namespace gal; using namespace gal::%s;' % ns if compute is None else 'using namespace gal;'

def metric_alg(p, v, r):
    """user-declared algebra: r degenerate generators first, then p positive, then v negative ones"""
    c = 'gal::algebra<gal::metric<%d, %d, %d>>' % (p, v, r)
    ns = 'm%d%d%d' % (p, v, r)
    if ns not in ALGS:
        a = Alg(ns, c, [0] * r + [1] * p + [-1] * v, compute='gal::detail::compute<%s>' % c)
        ALGS[ns] = a
        reg(ns + '.scalar', Ent('scalar', a, 1, 'gal::scalar<%s, T>' % a.cppalg, _braces(1), _lin((0, 1, 0))))
        reg(ns + '.T', Ent('T', a, 1, 'T', lambda v: '{%s[%d]}' % v, _lin((0, 1, 0))))
    return ALGS[ns]

# squares of the basis vectors, in bit order (bit 0 first)
VGA = Alg('vga', 'gal::vga::vga_algebra', [1, 1, 1])
PGA = Alg('pga', 'gal::pga::pga_algebra', [0, 1, 1, 1])
PGA2 = Alg('pga2', 'gal::pga2::pga2_algebra', [0, 1, 1])
CGA = Alg('cga', 'gal::cga::cga_algebra', [1, 1, 1, 1, -1], null=True)
ALGS = {'vga': VGA, 'pga': PGA, 'pga2': PGA2, 'cga': CGA}

def popc(x): return bin(x).count('1')

def blade_word(b):
    return [i for i in range(16) if b >> i & 1]

def word_product(sq, w):
    """reduce a word of anticommuting generators to (sign, blade) using only e_i e_j = -e_j e_i, e_i^2 = sq[i]"""
    w = list(w); s = 1
    changed = True
    while changed:
        changed = False
        i = 0
        while i + 1 < len(w):
            if w[i] == w[i+1]:
                s *= sq[w[i]]
                del w[i:i+2]
                changed = True
                if s == 0: return 0, 0
                i = max(0, i - 1)
            elif w[i] > w[i+1]:
                w[i], w[i+1] = w[i+1], w[i]
                s = -s
                changed = True
                i += 1
            else:
                i += 1
    b = 0
    for k in w: b |= 1 << k
    return s, b

_cache = {}
def gp_blade(sq, a, b):
    k = (tuple(sq), a, b)
    r = _cache.get(k)
    if r is None:
        s, bl = word_product(sq, blade_word(a) + blade_word(b))
        r = (bl, s) if s else (0, 0)
        _cache[k] = r
    return r

def blade_product(kind, sq, a, b):
    """(blade, sign) of the named product of two basis blades: grade-projected geometric product"""
    if kind == 'gp': return gp_blade(sq, a, b)
    if kind == 'ep':
        # exterior product does not see the metric
        if a & b: return 0, 0
        return gp_blade([1] * len(sq), a, b)
    bl, s = gp_blade(sq, a, b)
    if not s: return 0, 0
    if kind == 'lc':
        return (bl, s) if popc(bl) == popc(b) - popc(a) else (0, 0)
    if kind == 'sip':
        if a == 0 or b == 0: return 0, 0
        return (bl, s) if popc(bl) == abs(popc(a) - popc(b)) else (0, 0)
    raise KeyError(kind)

class MV:
    """multivector: blade -> RF"""
    def __init__(self, alg, R, d=None):
        self.alg = alg; self.R = R
        self.d = {b: v for b, v in (d or {}).items() if not v.is_zero()}
    def __add__(self, o):
        d = dict(self.d)
        for b, v in o.d.items():
            d[b] = d[b] + v if b in d else v
        return MV(self.alg, self.R, d)
    def scale(self, c):
        return MV(self.alg, self.R, {b: v.scale(c) for b, v in self.d.items()})
    def mulrf(self, x):
        return MV(self.alg, self.R, {b: v * x for b, v in self.d.items()})
    def __neg__(self): return self.scale(-1)
    def __sub__(self, o): return self + (-o)
    def prod(self, kind, o):
        d = {}
        for a, x in self.d.items():
            for b, y in o.d.items():
                bl, s = blade_product(kind, self.alg.sq, a, b)
                if s:
                    t = (x * y).scale(s)
                    d[bl] = d[bl] + t if bl in d else t
        return MV(self.alg, self.R, d)
    def rev(self):
        return MV(self.alg, self.R, {b: v.scale(-1 if (popc(b) * (popc(b) - 1) // 2) % 2 else 1) for b, v in self.d.items()})
    def dual(self):
        # Poincare dual: e_S -> sign * e_{S^c} with e_S ^ J(e_S) = +I up to the documented orientation:
        # J(S) = sigma(S) S^c, sigma = sign of moving S past the generators of S^c with smaller index
        full = (1 << self.alg.dim) - 1
        d = {}
        for b, v in self.d.items():
            c = full ^ b
            s = 1
            for i in blade_word(b):
                for j in blade_word(c):
                    if j < i: s = -s
            d[c] = v.scale(s)
        return MV(self.alg, self.R, d)
    def grade(self, g):
        return MV(self.alg, self.R, {b: v for b, v in self.d.items() if popc(b) == g})
    def comp(self, e):
        return MV(self.alg, self.R, {0: self.d[e]} if e in self.d else {})
    def coef(self, e):
        return self.d.get(e, RF.const(self.R, 0))

def to_natural(mv):
    """null basis -> natural basis:  no = (e+ + e-)/2, ni = e- - e+   (last two generators)"""
    n = mv.alg.dim
    ep, en = 1 << (n - 2), 1 << (n - 1)
    d = {}
    def acc(b, v):
        d[b] = d[b] + v if b in d else v
    for b, v in mv.d.items():
        base = b & ~(ep | en)
        hasno, hasni = b & ep, b & en
        if hasno and hasni: acc(b, v)       # no^ni = e+^e-
        elif hasno: acc(base | ep, v.scale(Fraction(1, 2))); acc(base | en, v.scale(Fraction(1, 2)))
        elif hasni: acc(base | ep, v.scale(-1)); acc(base | en, v)
        else: acc(b, v)
    return MV(mv.alg, mv.R, d)

def to_null(mv):
    n = mv.alg.dim
    ep, en = 1 << (n - 2), 1 << (n - 1)
    d = {}
    def acc(b, v):
        d[b] = d[b] + v if b in d else v
    for b, v in mv.d.items():
        base = b & ~(ep | en)
        hp, hn = b & ep, b & en
        if hp and hn: acc(b, v)
        elif hp: acc(base | ep, v); acc(base | en, v.scale(Fraction(-1, 2)))
        elif hn: acc(base | ep, v); acc(base | en, v.scale(Fraction(1, 2)))
        else: acc(b, v)
    return MV(mv.alg, mv.R, d)

# ------------------------------------------------------------------ entity types
class Ent:
    """an input type: C++ spelling (format of T), number of scalars, constructor text, denotation"""
    def __init__(self, name, alg, n, cpp, make, den):
        self.name = name; self.alg = alg; self.n = n; self.cpp = cpp; self.make = make; self.den = den; self.after = lambda n, v: ''

def _lin(*elems):
    """coefficients listed as (element, sign, index)"""
    def den(alg, R, x):
        return MV(alg, R, {e: x[i].scale(s) for e, s, i in elems})
    return den
def _braces(n):
    return lambda v: '{' + ', '.join('%s[%d]' % (v[0], v[1] + i) for i in range(n)) + '}'

def ent_basis(name, alg, elems):
    return Ent(name, alg, len(elems), 'gal::entity<%s, T, %s>' % (alg.cppalg, ', '.join(str(e) for e in elems)),
               _braces(len(elems)), _lin(*[(e, 1, i) for i, e in enumerate(elems)]))

def _cgapoint(alg, R, x):
    h = Fraction(1, 2)
    sq = (x[0]*x[0] + x[1]*x[1] + x[2]*x[2]).scale(h)
    return to_natural(MV(alg, R, {1: x[0], 2: x[1], 4: x[2], 8: RF.const(R, 1), 16: sq}))

def _nullent(elems):
    def den(alg, R, x):
        return to_natural(MV(alg, R, {e: x[i] for i, e in enumerate(elems)}))
    return den

def _vgapoint_pga(alg, R, x):
    return MV(alg, R, {0b111: x[2].scale(-1), 0b1011: x[1], 0b1101: x[0].scale(-1), 0b1110: RF.const(R, 1)})

ENTS = {}
def reg(key, e): ENTS[key] = e; return e
for a in (VGA, PGA, PGA2, CGA):
    reg(a.ns + '.scalar', Ent('scalar', a, 1, 'gal::scalar<%s, T>' % a.cppalg, _braces(1), _lin((0, 1, 0))))
    reg(a.ns + '.T', Ent('T', a, 1, 'T', lambda v: '{%s[%d]}' % v, _lin((0, 1, 0))))
reg('vga.vector', Ent('vector', VGA, 3, 'gal::vga::vector<T>', _braces(3), _lin((1, 1, 0), (2, 1, 1), (4, 1, 2))))
reg('pga.plane', Ent('plane', PGA, 4, 'gal::pga::plane<T>', _braces(4), _lin((1, 1, 0), (2, 1, 1), (4, 1, 2), (8, 1, 3))))
reg('pga.point', Ent('point', PGA, 4, 'gal::pga::point<T>', _braces(4), _lin((7, 1, 0), (11, 1, 1), (13, 1, 2), (14, 1, 3))))
reg('pga.line', Ent('line', PGA, 6, 'gal::pga::line<T>', _braces(6),
                    _lin((0b1100, -1, 0), (0b1010, 1, 1), (0b110, -1, 2), (0b11, -1, 3), (0b101, -1, 4), (0b1001, -1, 5))))
reg('pga.motor', Ent('motor', PGA, 8, 'gal::pga::motor<T>', _braces(8),
                     _lin(*[(e, 1, i) for i, e in enumerate((0, 3, 5, 6, 9, 10, 12, 15))])))
reg('pga.vpoint', Ent('vpoint', PGA, 3, 'gal::vga::point<T>', _braces(3), _vgapoint_pga))
reg('pga.vector', Ent('vector', PGA, 3, 'gal::pga::vector<T>', _braces(3), _lin((7, -1, 2), (11, 1, 1), (13, -1, 0))))
def _rotor(alg, R, x):
    # cos(t/2) + sin(t/2) (x e23 - y e13 + z e12)
    return MV(alg, R, {0: x[0], 6: x[1] * x[4], 10: (x[1] * x[3]).scale(-1), 12: x[1] * x[2]})
def _translator(alg, R, x):
    h = Fraction(-1, 2)
    return MV(alg, R, {0: RF.const(R, 1), 3: (x[0] * x[1]).scale(h), 5: (x[0] * x[2]).scale(h), 9: (x[0] * x[3]).scale(h)})
def _pga2point(alg, R, x):
    return MV(alg, R, {3: x[1], 5: x[0].scale(-1), 6: RF.const(R, 1)})
def _vecvga(alg, R, x): return MV(alg, R, {1: x[0], 2: x[1], 4: x[2]})
# a rotor stores the cosine and sine of half its angle: filled in member by member
reg('pga.rotor', Ent('rotor', PGA, 5, 'gal::pga::rotor<T>', lambda v: '{T(1), T(0), T(0), T(0)}', _rotor))
ENTS['pga.rotor'].after = lambda n, v: ''.join(' %s[%d] = %s[%d];' % (n, i, v[0], v[1] + i) for i in range(5))
reg('pga.translator', Ent('translator', PGA, 4, 'gal::pga::translator<T>', _braces(4), _translator))
reg('pga2.point', Ent('point', PGA2, 2, 'gal::pga2::point<T>', _braces(2), _pga2point))
reg('pga2.line', Ent('line', PGA2, 3, 'gal::pga2::line<T>', _braces(3), _lin((1, 1, 0), (2, 1, 1), (4, 1, 2))))
reg('pga2.vector', Ent('vector', PGA2, 2, 'gal::pga2::vector<T>', _braces(2), _lin((3, 1, 1), (5, -1, 0))))
def _vgarotor(alg, R, x):
    # cos(t/2) - sin(t/2) (x e12 - y e02 + z e01)
    return MV(alg, R, {0: x[0], 3: (x[1] * x[4]).scale(-1), 5: x[1] * x[3], 6: (x[1] * x[2]).scale(-1)})
reg('vga.rotor', Ent('rotor', VGA, 5, 'gal::vga::rotor<T>', lambda v: '{T(1), T(0), T(0), T(0)}', _vgarotor))
ENTS['vga.rotor'].after = ENTS['pga.rotor'].after
reg('cga.point', Ent('point', CGA, 3, 'gal::cga::point<T>', _braces(3), _cgapoint))

def get_ent(key):
    if key in ENTS: return ENTS[key]
    # generic: 'pga.e1_2_4'
    ns, rest = key.split('.')
    elems = [int(x) for x in rest[1:].split('_')]
    a = ALGS[ns]
    e = ent_basis(rest, a, elems)
    if a.null: e.den = _nullent(elems)
    ENTS[key] = e
    return e

# ------------------------------------------------------------------ expressions
class Ex:
    def __init__(self, k, *a): self.k = k; self.a = a
    def __add__(s, o): return Ex('add', s, lift(o))
    def __radd__(s, o): return Ex('add', lift(o), s)
    def __sub__(s, o): return Ex('sub', s, lift(o))
    def __rsub__(s, o): return Ex('sub', lift(o), s)
    def __mul__(s, o): return Ex('gp', s, lift(o))
    def __rmul__(s, o): return Ex('gp', lift(o), s)
    def __xor__(s, o): return Ex('ep', s, lift(o))
    def __and__(s, o): return Ex('rp', s, lift(o))
    def __rshift__(s, o): return Ex('lc', s, lift(o))
    def __or__(s, o): return Ex('sip', s, lift(o))
    def __mod__(s, o): return Ex('sw', s, lift(o))
    def __truediv__(s, o): return Ex('div', s, lift(o))
    def __rtruediv__(s, o): return Ex('div', lift(o), s)
    def __invert__(s): return Ex('rev', s)
    def __neg__(s): return Ex('neg', s)
    def __getitem__(s, e): return Ex('comp', s, e)
    def grade(s, g): return Ex('grd', s, g)
    def size(self):
        return 1 + sum(x.size() for x in self.a if isinstance(x, Ex))

class IntC:
    def __init__(self, n): self.n = n
def lift(x): return IntC(x) if isinstance(x, int) else x
def V(n): return Ex('var', n)
def dual(x): return Ex('dual', x)
def sqrt(x): return Ex('fn', 'sqrt', x)
def sin(x): return Ex('fn', 'sin', x)
def cos(x): return Ex('fn', 'cos', x)
def tan(x): return Ex('fn', 'tan', x)
def sp(a, b): return Ex('sp', a, b)
def lit(n, suf, elem): return Ex('lit', n, suf, elem)
PI = Ex('const', 'PI'); E = Ex('const', 'E')
def gexp(x): return Ex('exp', x)

BIN = {'add': '+', 'sub': '-', 'gp': '*', 'ep': '^', 'rp': '&', 'lc': '>>', 'sip': '|', 'sw': '%', 'div': '/'}

def cpp(e):
    if isinstance(e, IntC): return '%d' % e.n if e.n >= 0 else '(%d)' % e.n
    k = e.k; a = e.a
    if k == 'var': return a[0]
    if k in BIN: return '(%s %s %s)' % (cpp(a[0]), BIN[k], cpp(a[1]))
    if k == 'rev': return '(~%s)' % cpp(a[0])
    if k == 'neg': return '(-%s)' % cpp(a[0])
    if k == 'dual': return '(!%s)' % cpp(a[0])
    if k == 'comp': return '(%s)[%d]' % (cpp(a[0]), a[1])
    if k == 'grd': return '(%s).select_grade(%d)' % (cpp(a[0]), a[1])
    if k == 'fn': return '%s(%s)' % (a[0], cpp(a[1]))
    if k == 'sp': return 'scalar_product(%s, %s)' % (cpp(a[0]), cpp(a[1]))
    if k == 'exp': return 'exp(%s)' % cpp(a[0])
    if k == 'lit': return '%d%s' % (a[0], a[1])
    if k == 'const': return 'gal::' + a[0]
    raise KeyError(k)

class Undefined(Exception):
    pass

def scal(mv):
    if any(b != 0 for b in mv.d): raise Undefined('non-scalar argument')
    return mv.coef(0)

def denote(e, env, alg, R, memo=None):
    """multivector denoted by e (in the natural basis)"""
    if memo is None: memo = {}
    if isinstance(e, IntC):
        return MV(alg, R, {0: RF.const(R, e.n)})
    if id(e) in memo: return memo[id(e)]
    k = e.k; a = e.a
    D = lambda x: denote(x, env, alg, R, memo)
    if k == 'var': r = env[a[0]]
    elif k == 'add': r = D(a[0]) + D(a[1])
    elif k == 'sub': r = D(a[0]) - D(a[1])
    elif k in ('gp', 'ep', 'lc', 'sip'): r = D(a[0]).prod(k, D(a[1]))
    elif k == 'rp':
        r = D(a[0]).dual().prod('ep', D(a[1]).dual()).dual()
    elif k == 'sw':
        b = D(a[1]); r = b.prod('gp', D(a[0])).prod('gp', b.rev())
    elif k == 'div':
        r = D(a[0]).mulrf(scal(D(a[1])).inv())
    elif k == 'rev': r = D(a[0]).rev()
    elif k == 'neg': r = -D(a[0])
    elif k == 'dual': r = D(a[0]).dual()
    elif k == 'comp': r = (to_null(D(a[0])) if alg.null else D(a[0])).comp(a[1])     # elements are named in the user's basis
    elif k == 'grd': r = D(a[0]).grade(a[1])
    elif k == 'fn':
        x = scal(D(a[1]))
        r = MV(alg, R, {0: app(R, a[0], (x,))})
    elif k == 'sp': r = D(a[0]).prod('sip', D(a[1])).comp(0)
    elif k == 'lit':
        m = MV(alg, R, {a[2]: RF.const(R, a[0])})
        r = to_natural(m) if alg.null else m
    elif k == 'const': r = MV(alg, R, {0: RF.atom(R, a[0])})
    elif k == 'exp': r = D(exp_def(a[0], alg))
    else: raise KeyError(k)
    memo[id(e)] = r
    return r

def exp_def(b, alg):
    """closed form exponential of a bivector with B^2 = s + p I  (documented closed form)"""
    full = (1 << alg.dim) - 1
    ps = lit(1, '_ps', full)
    s = (b | b)[0]; p = (b ^ b)[full]
    u = sqrt(-s); v = -p / (2 * u)
    inv = 1 / u + v / s * ps
    real = cos(u) - v * sin(u) * ps
    ideal = sin(u) + v * cos(u) * ps
    return real + ideal * inv * b
