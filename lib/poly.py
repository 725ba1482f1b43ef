"""Multivariate polynomial / rational-function normal forms over Q (back end for the real-arithmetic obligations)."""
from fractions import Fraction
import random
import fexpr as X

class TooBig(Exception):
    pass

LIMIT = 60000

class Ring:
    """atoms are numbered; sqrt atoms carry the rational function they are the root of."""
    def __init__(self):
        self.names = []         # atom index -> description
        self.index = {}
        self.fn = {}            # function name -> list of (args tuple of RF, atom index)
        self.sq = {}            # atom index -> RF argument (sqrt atoms)
        self.factors = []       # denominators: list of Poly (monic-normalised)
        self.findex = {}
        self.memo = {}
        self.rules = []         # (function, args, value): identities assumed by a contract

    def atom(self, name):
        i = self.index.get(name)
        if i is None:
            i = len(self.names)
            self.names.append(name); self.index[name] = i
        return i

    # --- polynomials: dict {mono: Fraction}, mono = tuple of (atom,exp) sorted
    def padd(self, a, b, s=1):
        if len(b) > len(a) and s == 1:
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    def pmul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        r = {}
        if len(a) * len(b) > LIMIT * 20:
            raise TooBig()
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        if len(r) > LIMIT:
            raise TooBig()
        return self.reduce_sq(r)

    def reduce_sq(self, p):
        """replace s^2 by its argument when the argument is a polynomial (no denominators)"""
        if not self.sq:
            return p
        work = None
        for m in p:
            for at, e in m:
                if e >= 2 and at in self.sq and not self.sq[at].den:
                    work = at
                    break
            if work is not None:
                break
        if work is None:
            return p
        arg = self.sq[work].num
        r = {}
        for m, c in p.items():
            e = dict(m).get(work, 0)
            if e >= 2:
                rest = tuple((a, x) for a, x in m if a != work)
                if e % 2:
                    rest = mmul(rest, ((work, 1),))
                t = {rest: c}
                for _ in range(e // 2):
                    t = self.pmul_raw(t, arg)
                r = self.padd(r, t)
            else:
                v = r.get(m, 0) + c
                if v == 0: r.pop(m, None)
                else: r[m] = v
        return self.reduce_sq(r)

    def pmul_raw(self, a, b):
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v == 0: r.pop(m, None)
                else: r[m] = v
        return r

    def ppow(self, p, n):
        r = {(): Fraction(1)}
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    def factor(self, p):
        """register denominator polynomial; returns (leading coefficient, [(idx,exp)...])"""
        # content: single monomial -> split into atoms
        if len(p) == 1:
            (m, c), = p.items()
            fs = []
            for a, e in m:
                q = {((a, 1),): Fraction(1)}
                fs.append((self._reg(q), e))
            return c, fs
        lead = p[max(p)]
        q = {m: c / lead for m, c in p.items()}
        # pull out common monomial
        common = None
        for m in q:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {a: min(e, d.get(a, 0)) for a, e in common.items() if a in d}
            if not common:
                break
        fs = []
        if common:
            cm = tuple(sorted((a, e) for a, e in common.items() if e))
            if cm:
                q = {mdiv(m, cm): c for m, c in q.items()}
                for a, e in cm:
                    fs.append((self._reg({((a, 1),): Fraction(1)}), e))
        fs.append((self._reg(q), 1))
        return lead, fs

    def _reg(self, q):
        key = frozenset(q.items())
        i = self.findex.get(key)
        if i is None:
            i = len(self.factors)
            self.factors.append(q)
            self.findex[key] = i
        return i

def mmul(a, b):
    if not a: return b
    if not b: return a
    r = []
    i = j = 0
    while i < len(a) and j < len(b):
        x = a[i]; y = b[j]
        if x[0] == y[0]:
            r.append((x[0], x[1] + y[1])); i += 1; j += 1
        elif x[0] < y[0]:
            r.append(x); i += 1
        else:
            r.append(y); j += 1
    r.extend(a[i:]); r.extend(b[j:])
    return tuple(r)

def mdiv(a, b):
    d = dict(b)
    return tuple((x, e - d.get(x, 0)) for x, e in a if e - d.get(x, 0))

class RF:
    __slots__ = ('R', 'num', 'den')
    def __init__(self, R, num, den=None):
        self.R = R; self.num = num; self.den = den or {}

    @staticmethod
    def const(R, c):
        c = Fraction(c)
        return RF(R, {(): c} if c else {})
    @staticmethod
    def atom(R, name):
        return RF(R, {((R.atom(name), 1),): Fraction(1)})

    def is_zero(self):
        return not self.num

    def _raise(self, den):
        n = self.num
        for f, e in den.items():
            k = e - self.den.get(f, 0)
            if k > 0:
                n = self.R.pmul(n, self.R.ppow(self.R.factors[f], k))
        return n

    def __add__(self, o):
        if self.is_zero(): return o
        if o.is_zero(): return self
        if self.den == o.den:
            r = RF(self.R, self.R.padd(self.num, o.num), self.den)
        else:
            d = dict(self.den)
            for f, e in o.den.items():
                d[f] = max(e, d.get(f, 0))
            r = RF(self.R, self.R.padd(self._raise(d), o._raise(d)), d)
        return r.cancel()

    def __neg__(self):
        return RF(self.R, {m: -c for m, c in self.num.items()}, self.den)
    def __sub__(self, o):
        return self + (-o)
    def scale(self, c):
        c = Fraction(c)
        if c == 0: return RF(self.R, {})
        return RF(self.R, {m: x * c for m, x in self.num.items()}, self.den)
    def __mul__(self, o):
        if self.is_zero() or o.is_zero():
            return RF(self.R, {})
        d = dict(self.den)
        for f, e in o.den.items():
            d[f] = d.get(f, 0) + e
        return RF(self.R, self.R.pmul(self.num, o.num), d).cancel()
    def __truediv__(self, o): return self * o.inv()
    def inv(self):
        if self.is_zero():
            raise ZeroDivisionError
        c, fs = self.R.factor(self.num)
        n = {(): 1 / c}
        for f, e in self.den.items():
            n = self.R.pmul(n, self.R.ppow(self.R.factors[f], e))
        d = {}
        for f, e in fs:
            d[f] = d.get(f, 0) + e
        return RF(self.R, n, d).cancel()

    def cancel(self):
        """cancel single-atom denominators and denominators identical to the numerator"""
        if not self.den:
            return self
        if not self.num:
            return RF(self.R, {})
        den = dict(self.den); num = self.num
        for f in list(den):
            p = self.R.factors[f]
            if len(p) == 1:
                (m, c), = p.items()
                a = m[0][0]
                while den.get(f, 0) > 0 and all(any(x == a for x, _ in mm) for mm in num):
                    num = {mdiv(mm, m): cc for mm, cc in num.items()}
                    den[f] -= 1
                    if den[f] == 0: del den[f]
            elif len(p) == len(num) and len(p) > 1:
                lead = num[max(num)] if max(num) in p else None
                if lead is not None:
                    k = lead / p[max(num)]
                    if all(mm in p and p[mm] * k == cc for mm, cc in num.items()):
                        num = {(): k}
                        den[f] -= 1
                        if den[f] == 0: del den[f]
        return RF(self.R, num, den)

    def eq(self, o):
        d = self - o
        return d.is_zero() or zero_mod_sqrt(d) or zero_mod_trig(d)

    def evalf(self, env):
        """numeric evaluation with floats/Fractions; env: atom index -> value"""
        def pe(p):
            s = 0
            for m, c in p.items():
                t = c
                for a, e in m:
                    t = t * env[a] ** e
                s = s + t
            return s
        d = 1
        for f, e in self.den.items():
            d = d * pe(self.R.factors[f]) ** e
        return pe(self.num) / d

def zero_mod_sqrt(d):
    """numerator zero after replacing sqrt atoms whose argument has denominators"""
    R = d.R
    num = RF(R, d.num)
    for _ in range(6):
        tgt = None
        for m in num.num:
            for a, e in m:
                if e >= 2 and a in R.sq:
                    tgt = a; break
            if tgt is not None: break
        if tgt is None:
            return num.is_zero()
        acc = RF(R, {})
        for m, c in num.num.items():
            e = dict(m).get(tgt, 0)
            if e >= 2:
                rest = tuple((a, x) for a, x in m if a != tgt)
                if e % 2: rest = mmul(rest, ((tgt, 1),))
                t = RF(R, {rest: c})
                for _k in range(e // 2):
                    t = t * R.sq[tgt]
            else:
                t = RF(R, {m: c})
            acc = acc + t
        num = RF(R, acc.num)
    return num.is_zero()

def zero_mod_trig(d):
    """numerator zero modulo sin(x)^2 + cos(x)^2 = 1 (and the definition of square roots)"""
    R = d.R
    prs = {}
    for a1, at in R.fn.get('sin', ()):
        for a2, ct in R.fn.get('cos', ()):
            if len(a1) == 1:
                df = a1[0] - a2[0]
                if df.is_zero() or zero_mod_sqrt(df): prs[at] = ct
    if not prs: return False
    num = d.num
    for _ in range(12):
        acc = {}; again = False
        for m, c in num.items():
            t = None
            for a, e in m:
                if e >= 2 and a in prs: t = (a, e); break
            if t is None: acc = R.padd(acc, {m: c}); continue
            again = True
            rest = tuple((a, e) for a, e in m if a != t[0])
            if t[1] > 2: rest = mmul(rest, ((t[0], t[1] - 2),))
            acc = R.padd(acc, {rest: c}); acc = R.padd(acc, {mmul(rest, ((prs[t[0]], 2),)): -c})
        num = acc
        if not again: break
    r = RF(R, num)
    return r.is_zero() or zero_mod_sqrt(r)

def app(R, fname, args):
    """uninterpreted function application atom; congruent arguments share the atom"""
    if len(args) == 1 and not args[0].den and set(args[0].num) <= {()}:
        c = args[0].num.get((), Fraction(0))
        if c == 0 and fname in ('sin', 'tan', 'sqrt', 'fabs'): return RF(R, {})
        if c == 0 and fname == 'cos': return RF.const(R, 1)
        if fname == 'sqrt' and c > 0:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator: return RF.const(R, Fraction(n, d))
        if fname == 'sqrt' and c < 0: raise ZeroDivisionError
    for fn, a2, val in R.rules:      # identities assumed under the precondition of the contract (stated there)
        if fn == fname and len(a2) == len(args) and all(x.eq(y) for x, y in zip(a2, args)): return val
    lst = R.fn.setdefault(fname, [])
    for a2, at in lst:
        if len(a2) == len(args) and all(x.eq(y) for x, y in zip(a2, args)):
            return RF(R, {((at, 1),): Fraction(1)})
    at = R.atom('%s#%d' % (fname, len(lst)))
    lst.append((args, at))
    if fname == 'sqrt':
        R.sq[at] = args[0]
    return RF(R, {((at, 1),): Fraction(1)})

def to_rf(R, e):
    """F -> RF (iterative post-order)"""
    memo = R.memo
    stack = [e]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop(); continue
        kids = [y for y in x.a if isinstance(y, X.F)]
        todo = [y for y in kids if y.id not in memo]
        if todo:
            stack.extend(todo); continue
        stack.pop()
        k = x.k
        v = [memo[y.id] for y in kids]
        if k == 'c': r = RF.const(R, x.a[0])
        elif k == 'v': r = RF.atom(R, x.a[0])
        elif k == 'add': r = v[0] + v[1]
        elif k == 'sub': r = v[0] - v[1]
        elif k == 'mul': r = v[0] * v[1]
        elif k == 'neg': r = -v[0]
        elif k == 'div': r = v[0] * v[1].inv()
        elif k == 'call': r = mkcall(R, x.a[0], v)
        else: raise TooBig('node ' + k)
        memo[x.id] = r
    return memo[e.id]

def mkcall(R, f, v):
    if f == 'pow':
        c = v[1]
        if not c.den and set(c.num) <= {()}:
            q = c.num.get((), Fraction(0))
            if q.denominator == 1 and abs(q) <= 16:
                b = v[0] if q >= 0 else v[0].inv()
                r = RF.const(R, 1)
                for _ in range(abs(int(q))): r = r * b
                return r
            if q.denominator == 2 and abs(q) < 8:
                s = app(R, 'sqrt', (v[0],))
                n = abs(q.numerator)
                if q < 0: s = s.inv()
                r = RF.const(R, 1)
                for _ in range(n): r = r * s
                return r
    return app(R, f, tuple(v))
