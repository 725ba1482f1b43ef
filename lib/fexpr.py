"""Floating-point values read as real-valued expression DAGs (hash-consed)."""
from fractions import Fraction
import math, struct

class F:
    __slots__ = ('k', 'a', 'id', '_r')
    _tab = {}
    _n = 0
    def __repr__(self):
        return show(self)

def mk(k, *a):
    key = (k,) + tuple(x.id if isinstance(x, F) else ('#', x) for x in a)
    r = F._tab.get(key)
    if r is None:
        r = F()
        r.k = k; r.a = a; r.id = F._n; F._n += 1; r._r = None
        F._tab[key] = r
    return r

def reset():
    F._tab.clear()

def const(fr):
    return mk('c', Fraction(fr))

def var(name):
    return mk('v', name)

def isc(x):
    return x.k == 'c'

ZERO = None
def add(a, b):
    if isc(a) and isc(b): return const(a.a[0] + b.a[0])
    return mk('add', a, b)
def sub(a, b):
    if isc(a) and isc(b): return const(a.a[0] - b.a[0])
    return mk('sub', a, b)
def mul(a, b):
    if isc(a) and isc(b): return const(a.a[0] * b.a[0])
    return mk('mul', a, b)
def div(a, b):
    if isc(a) and isc(b) and b.a[0] != 0: return const(a.a[0] / b.a[0])
    return mk('div', a, b)
def neg(a):
    if isc(a): return const(-a.a[0])
    return mk('neg', a)
def call(f, *a):
    return mk('call', f, *a)

PI = mk('v', 'PI')
E_ = mk('v', 'E')

def simplest_between(lo, hi):
    """simplest fraction in [lo,hi], 0<=lo<=hi"""
    fl = lo.numerator // lo.denominator
    if lo == fl:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r

def _bits(x):
    return x.numerator.bit_length() + x.denominator.bit_length()

def _ulp_halves(v, single):
    if single:
        i = struct.unpack('>I', struct.pack('>f', v))[0]
        up = struct.unpack('>f', struct.pack('>I', i + 1))[0]
        dn = struct.unpack('>f', struct.pack('>I', i - 1))[0] if i > 0 else 0.0
    else:
        up = math.nextafter(v, math.inf); dn = math.nextafter(v, -math.inf)
    return Fraction(v) - Fraction(dn), Fraction(up) - Fraction(v)

def literal(v, single):
    """real value denoted by a floating-point constant of the program: the simplest rational (or
    simplest rational multiple of PI^a*E^b) that rounds to it (within 4 ulp: the compiler folds sums of rounded constants)."""
    if v != v or v in (math.inf, -math.inf):
        return call('special_' + repr(v))
    if v == 0:
        return const(0)
    s = -1 if v < 0 else 1
    v = abs(v)
    x = Fraction(v)
    if x.denominator.bit_length() <= 12 and x.numerator.bit_length() <= 24:
        return const(s * x)
    d, u = _ulp_halves(v, single)
    lo = x - d / 2; hi = x + u / 2
    best = simplest_between(lo, hi)
    loose = simplest_between(x - 4 * d, x + 4 * u)     # constants folded by the compiler carry a few roundings
    if _bits(loose) < _bits(best) and _bits(loose) <= (14 if single else 30): best = loose
    cost = _bits(best); expr = const(s * best)
    lim = 22 if single else 44
    if cost > (12 if single else 20):
        fpi = Fraction('3.14159265358979323846264338327950288'); fe = Fraction('2.71828182845904523536028747135266250')
        tol = (Fraction(1, 1 << 22) if single else Fraction(1, 1 << 50))
        for a in range(-3, 4):
            for b in range(-3, 4):
                if a == 0 and b == 0: continue
                k = fpi ** a * fe ** b
                q = simplest_between(x / k * (1 - tol), x / k * (1 + tol))
                c = _bits(q) + 2 * (abs(a) + abs(b))
                if c < cost and c <= (14 if single else 30):
                    cost = c
                    e = const(s * q)
                    for sym, p in ((PI, a), (E_, b)):
                        for _ in range(abs(p)):
                            e = mul(e, sym) if p > 0 else div(e, sym)
                    expr = e
    if cost > (16 if single else 36):
        # square roots of simple rationals, folded by the compiler
        tol = (Fraction(1, 1 << 21) if single else Fraction(1, 1 << 49))
        q = simplest_between(x * x * (1 - tol), x * x * (1 + tol))
        c = _bits(q) + 2
        if c < cost and c <= (14 if single else 30):
            expr = call('sqrt', const(q))
            if s < 0: expr = neg(expr)
    return expr

def show(e, depth=6):
    if not isinstance(e, F): return str(e)
    if e.k == 'c': return str(e.a[0])
    if e.k == 'v': return str(e.a[0])
    if depth == 0: return '..'
    if e.k == 'call': return '%s(%s)' % (e.a[0], ', '.join(show(x, depth-1) for x in e.a[1:]))
    if e.k == 'neg': return '-(%s)' % show(e.a[0], depth-1)
    s = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}.get(e.k, e.k)
    return '(' + (' %s ' % s).join(show(x, depth-1) for x in e.a) + ')'
