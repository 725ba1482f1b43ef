"""tuples keep every element in its position through every operation; stacks are last-in first-out.
Contracts per operation, over all element values and (stacks) all states satisfying the class invariant count <= capacity; a history of
operations is covered by induction: each operation is specified as a function of the abstract state (the sequence data[0..count))."""
import z3
from classb import Fn
LEVEL = 'proof'
TY = [('uint64_t', 64, False), ('int32_t', 32, True), ('uint8_t', 8, False), ('uint16_t', 16, False), ('int64_t', 64, True), ('int8_t', 8, True), ('uint32_t', 32, False), ('uint64_t', 64, False)]
def trunc(x, t):
    n, w, sg = t
    y = z3.Extract(w - 1, 0, x) if w < 64 else x
    return y if w == 64 else z3.SignExt(64 - w, y) if sg else z3.ZeroExt(64 - w, y)
HEAD = '''
using u = uint64_t;
template <typename T> u W(T x) { return static_cast<u>(static_cast<int64_t>(x)); }
template <typename T> void dump(u* out, T const& t) { size_t i = 0; (void)i; (void)out; }
template <typename D, size_t... I> void put_(u* out, D const& t, std::index_sequence<I...>) { ((out[I] = W(t.template get<I>())), ...); }
template <typename... T> void put(u* out, gal::tuple<T...> const& t) { put_(out, t, std::make_index_sequence<sizeof...(T)>{}); }
template <typename T> struct plus_one { u k; auto operator()(T x) const { return std::decay_t<T>(x + k); } };
template <typename T> struct same { auto operator()(T x) const { return x; } };
struct P3 { u a, b; uint32_t c; };
'''
def tup(n, rot=0): return [TY[(i + rot) % len(TY)] for i in range(n)]

def tuples(ctx):
    L = []
    for n in list(range(1, 9)) + [9, 12, 17] + ([24, 33] if ctx.thorough else []):
        for rot in ((0, 3) if 1 < n < 9 else (0, 1, 2) if n == 1 else (0,)):
            T = tup(n, rot)
            ins = ['x%d' % i for i in range(n)] + ['v']
            args = ', '.join('static_cast<%s>(x%d)' % (T[i][0], i) for i in range(n))
            mk = 'gal::tuple<%s> t{%s};' % (', '.join(t[0] for t in T), args)
            ex = lambda x, T=T: [trunc(x['x%d' % i], t) for i, t in enumerate(T)]
            def add(name, code, outs, want, n=n, rot=rot, ins=ins):
                """want(x) -> expected outputs"""
                L.append(Fn('tuple<%d%s> %s' % (n, "'" * rot, name), list(ins), ['o%d' % i for i in range(outs)], code, kind='u64', mode='bv', incl=('tuple',), head=HEAD, group=('t', n, rot),
                            on='gal::tuple', api='public',
                            post=lambda x, o, want=want: [('element %d' % i, o['o%d' % i] == w) for i, w in enumerate(want(x))]))
            one = z3.BitVecVal(1, 64)
            c = lambda k: z3.BitVecVal(k, 64)
            add('construct', mk + ' put(out, t); out[%d] = t.size();' % n, n + 1, lambda x, ex=ex, n=n: ex(x) + [c(n)])
            add('make_tuple', 'auto t = gal::make_tuple(%s); put(out, t); out[%d] = t.size();' % (args, n), n + 1, lambda x, ex=ex, n=n: ex(x) + [c(n)])
            add('deduced', 'gal::tuple t{%s}; put(out, t); static_assert(gal::is_tuple_v<decltype(t)>);' % args, n, lambda x, ex=ex: ex(x))
            add('copy', mk + ' auto s = t; t.set<0>(static_cast<%s>(v)); put(out, s); put(out + %d, t);' % (T[0][0], n), 2 * n,
                lambda x, ex=ex, T=T: ex(x) + [trunc(x.v, T[0])] + ex(x)[1:])
            for i in range(n):
                add('set<%d>' % i, mk + ' t.set<%d>(static_cast<%s>(v)); put(out, t);' % (i, T[i][0]), n, lambda x, ex=ex, i=i, T=T: [trunc(x.v, T[i]) if k == i else e for k, e in enumerate(ex(x))])
                add('get<%d> reference' % i, mk + ' out[%d] = W(t.get<%d>()); t.get<%d>() = static_cast<%s>(v); put(out, t);' % (n, i, i, T[i][0]), n + 1,
                    lambda x, ex=ex, i=i, T=T: [trunc(x.v, T[i]) if k == i else e for k, e in enumerate(ex(x))] + [ex(x)[i]])
                add('split_drop<%d>' % i, mk + ' auto p = t.split_drop<%d>(); put(out, p.first); put(out + %d, p.second); put(out + %d, t);' % (i, i, n - 1), 2 * n - 1,
                    lambda x, ex=ex, i=i: ex(x)[:i] + ex(x)[i + 1:] + ex(x))
            for i in range(n + 1):
                add('split<%d>' % i, mk + ' auto p = t.split<%d>(); put(out, p.first); put(out + %d, p.second); put(out + %d, t); out[%d] = p.first.size(); out[%d] = p.second.size();' % (i, i, n, 2 * n, 2 * n + 1), 2 * n + 2,
                    lambda x, ex=ex, i=i, n=n: ex(x) + ex(x) + [c(i), c(n - i)])
            add('push', mk + ' auto s = t.push(static_cast<int16_t>(v)); put(out, s); put(out + %d, t);' % (n + 1), 2 * n + 1,
                lambda x, ex=ex: [trunc(x.v, ('', 16, True))] + ex(x) + ex(x))
            add('append', mk + ' auto s = t.append(static_cast<int16_t>(v)); put(out, s); put(out + %d, t);' % (n + 1), 2 * n + 1,
                lambda x, ex=ex: ex(x) + [trunc(x.v, ('', 16, True))] + ex(x))
            add('push then append', mk + ' auto s = t.push(v).append(t); put_(out, s, std::make_index_sequence<%d>{}); put(out + %d, s.template get<%d>());' % (n + 1, n + 1, n + 1), 2 * n + 1,
                lambda x, ex=ex: [x.v] + ex(x) + ex(x))
            add('pop', mk + ' auto p = t.pop(); out[0] = W(p.first); put(out + 1, p.second); put(out + %d, t); out[%d] = p.second.size();' % (n, 2 * n), 2 * n + 1,
                lambda x, ex=ex, n=n: ex(x) + ex(x) + [c(n - 1)])
            add('back', mk + ' auto const& k = t; out[0] = W(k.back()); t.back() = static_cast<%s>(v); put(out + 1, t);' % T[-1][0], n + 1,
                lambda x, ex=ex, T=T: [ex(x)[-1]] + ex(x)[:-1] + [trunc(x.v, T[-1])])
            add('apply', mk + ' t.apply([&](auto... a) { size_t k = 0; ((out[k++] = W(a)), ...); return 0; }); put(out + %d, t);' % n, 2 * n, lambda x, ex=ex: ex(x) + ex(x))
            add('apply_reverse', mk + ' t.apply_reverse([&](auto... a) { size_t k = 0; ((out[k++] = W(a)), ...); return 0; }); put(out + %d, t);' % n, 2 * n, lambda x, ex=ex: ex(x)[::-1] + ex(x))
            add('apply result', mk + ' out[0] = t.apply([](auto... a) { u r = 0; ((r = r * 31 + W(a)), ...); return r; });', 1,
                lambda x, ex=ex: [horner(ex(x))])
            add('mutate', mk + ' t.template mutate<plus_one>(v); put(out, t);', n, lambda x, ex=ex, T=T: [trunc(e + x.v, t) for e, t in zip(ex(x), T)])
            add('mutate identity', mk + ' t.template mutate<same>(); put(out, t);', n, lambda x, ex=ex: ex(x))
            names = [t[0] for t in T]
            for ty in dict.fromkeys(names):
                i = names.index(ty)
                add('find_t<%s>' % ty, mk + ' out[0] = decltype(t)::find_t<%s>();' % ty, 1, lambda x, i=i: [c(i)])
                add('split_at_type<%s>' % ty, mk + ' auto p = t.split_at_type<%s>(); put(out, p.first); put(out + %d, p.second); put(out + %d, t);' % (ty, i, n - 1), 2 * n - 1,
                    lambda x, ex=ex, i=i: ex(x)[:i] + ex(x)[i + 1:] + ex(x))
            # elements of structure type, nested tuples and pairs
            add('nested', mk + ' auto s = gal::make_tuple(t, v, gal::make_pair(t, v)); auto p = s.pop(); put(out, p.first); out[%d] = p.second.template get<0>(); put(out + %d, p.second.template get<1>().first); out[%d] = p.second.template get<1>().second;' % (n, n + 1, 2 * n + 1), 2 * n + 2,
                lambda x, ex=ex: ex(x) + [x.v] + ex(x) + [x.v])
            add('structures', mk + ' P3 q{v, W(t.back()), static_cast<uint32_t>(v)}; auto s = t.push(q).append(q); auto a = s.template get<0>(); auto b = s.back(); auto d = s.template split<1>().second; out[0] = a.a; out[1] = a.b; out[2] = a.c; out[3] = b.a; out[4] = b.b; out[5] = b.c; put_(out + 6, d, std::make_index_sequence<%d>{});' % n, 6 + n,
                lambda x, ex=ex: [x.v, ex(x)[-1], trunc(x.v, ('', 32, False))] * 2 + ex(x))
    L.append(Fn('empty tuple', 'v w', 'a b c d e', 'gal::tuple<> t{}; auto p = t.split<0>(); auto q = t.push(v); auto r = t.append(v).append(w); out[0] = t.size(); out[1] = p.first.size() + p.second.size(); out[2] = q.get<0>(); out[3] = r.get<0>(); out[4] = r.get<1>();',
                kind='u64', mode='bv', incl=('tuple',), head=HEAD, group='te', on='gal::tuple', api='public',
                post=lambda x, o: [('size', o.a == 0), ('split', o.b == 0), ('push', o.c == x.v), ('append first', o.d == x.v), ('append second', o.e == x.w)]))
    L.append(Fn('pair', 'v w', 'a b c d e f', 'auto p = gal::make_pair(v, static_cast<uint8_t>(w)); gal::pair q{static_cast<int16_t>(w), v}; gal::pair<u, u> z{}; static_assert(gal::is_pair_v<decltype(p)> && !gal::is_pair_v<u>); out[0] = p.first; out[1] = p.second; out[2] = W(q.first); out[3] = q.second; out[4] = z.first; out[5] = z.second;',
                kind='u64', mode='bv', incl=('tuple',), head=HEAD, group='te', on='gal::pair', api='public',
                post=lambda x, o: [('first', o.a == x.v), ('second', o.b == trunc(x.w, TY[2])), ('deduced first', o.c == trunc(x.w, ('', 16, True))), ('deduced second', o.d == x.v), ('default', z3.And(o.e == 0, o.f == 0))]))
    ctx.fns(L, 'tuples')
def horner(es):
    r = z3.BitVecVal(0, 64)
    for e in es: r = r * 31 + e
    return r

def stacks(ctx):
    L = []
    for C in (1, 2, 3, 5, 8, 16, 33):
        for ty, w in (('uint64_t', 64), ('uint8_t', 8)) if C < 16 else (('uint64_t', 64),): stack_ops(L, C, ty, w)
    L.append(Fn('a new stack is empty', 'v', 'a b c', 'gal::detail::stack<u, 4> s{}; out[0] = s.count; out[1] = s.empty(); s.push(v); out[2] = s.empty();', kind='u64', mode='bv', incl=('stack', 'tuple'), head=HEAD, on='gal::detail::stack', api='public',
                post=lambda x, o: [('count', o.a == 0), ('empty', o.b == 1), ('not empty after push', o.c == 0)]))
    # elements of structure type (as in the expression analysis: a pointer and an offset)
    L.append(Fn('stack of pairs', 'a b c d n', 'r s t u_ m', 'gal::detail::stack<gal::pair<u, uint32_t>, 3> k{}; k.push(gal::make_pair(a, static_cast<uint32_t>(b))); k.push(gal::make_pair(c, static_cast<uint32_t>(d))); auto x = k.peek(2); auto y = k.pop(); out[0] = x.first; out[1] = x.second; out[2] = y.first; out[3] = y.second; out[4] = k.count;',
                kind='u64', mode='bv', incl=('stack', 'tuple'), head=HEAD, on='gal::detail::stack', api='public',
                post=lambda x, o: [('first pushed', z3.And(o.r == x.a, o.s == trunc(x.b, ('', 32, False)))), ('last pushed', z3.And(o.t == x.c, o.u_ == trunc(x.d, ('', 32, False)))), ('count', o.m == 1)]))
    ctx.assume('stack operations are used within the capacity (documented fixed capacity): push below the capacity, pop/peek of elements that exist')
    ctx.fns(L, 'stacks')
def stack_ops(L, C, ty, w):
    t = (ty, w, False)
    D = ['d%d' % i for i in range(C)]
    ins = D + ['n', 'v', 'k']
    mk = 'gal::detail::stack<%s, %d> s{}; %s s.count = n;' % (ty, C, ' '.join('s.data[%d] = static_cast<%s>(d%d);' % (i, ty, i) for i in range(C)))
    end = ' '.join('out[%d] = s.data[%d];' % (i, i) for i in range(C)) + ' out[%d] = s.count; out[%d] = s.empty();' % (C, C + 1)
    d = lambda x, i, t=t: trunc(x['d%d' % i], t)
    def sel(x, ix, C=C, d=d):
        r = d(x, 0)
        for i in range(1, C): r = z3.If(ix == i, d(x, i), r)
        return r
    U = z3.ULE
    def add(name, code, pre, count, ret=None, upd=None, C=C, ty=ty, d=d, ins=ins, mk=mk, end=end):
        """count(x): new count; ret(x): returned value (out[C+2]); upd(x) -> (index, value) stored, else data below both counts is unchanged"""
        def post(x, o):
            G = [('count', o['c'] == count(x)), ('empty', o['e'] == z3.If(count(x) == 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))]
            for i in range(C):
                want = d(x, i)
                if upd is not None:
                    ix, val = upd(x); want = z3.If(ix == i, val, want)
                G.append(('element %d' % i, z3.Implies(z3.UGT(count(x), i), o['o%d' % i] == want)))
            if ret is not None: G.append(('returned element', o['r'] == ret(x)))
            return G
        L.append(Fn('stack<%s,%d> %s' % (ty, C, name), list(ins), ['o%d' % i for i in range(C)] + ['c', 'e', 'r'], mk + ' u r = 0; ' + code + ' ' + end + ' out[%d] = r;' % (C + 2),
                    kind='u64', mode='bv', incl=('stack', 'tuple'), head=HEAD, group=('s', C, ty), on='gal::detail::stack', api='public',
                    pre=lambda x: [U(x.n, C)] + list(pre(x)), post=post, sample=lambda rg, C=C: [rg.getrandbits(64) for _ in range(C)] + [rg.randint(0, C), rg.getrandbits(64), rg.randint(0, C)]))
    tv = lambda x, t=t: trunc(x.v, t)
    add('push', 's.push(static_cast<%s>(v));' % ty, lambda x, C=C: [z3.ULT(x.n, C)], lambda x: x.n + 1, upd=lambda x: (x.n, tv(x)))
    add('pop', 'r = s.pop();', lambda x: [x.n != 0], lambda x: x.n - 1, ret=lambda x: sel(x, x.n - 1))
    add('pop(k)', 'r = s.pop(k);', lambda x: [x.k != 0, U(x.k, x.n)], lambda x: x.n - x.k, ret=lambda x: sel(x, x.n - x.k))
    add('peek', 'auto const& q = s; r = q.peek();', lambda x: [x.n != 0], lambda x: x.n, ret=lambda x: sel(x, x.n - 1))
    add('peek reference', 'r = s.peek(); s.peek() = static_cast<%s>(v);' % ty, lambda x: [x.n != 0], lambda x: x.n, ret=lambda x: sel(x, x.n - 1), upd=lambda x: (x.n - 1, tv(x)))
    add('peek(k)', 'r = s.peek(k);', lambda x: [x.k != 0, U(x.k, x.n)], lambda x: x.n, ret=lambda x: sel(x, x.n - x.k))
    add('operator[]', 'auto const& q = s; r = q[k];', lambda x: [z3.ULT(x.k, x.n)], lambda x: x.n, ret=lambda x: sel(x, x.k))
    add('operator[] reference', 'r = s[k]; s[k] = static_cast<%s>(v);' % ty, lambda x: [z3.ULT(x.k, x.n)], lambda x: x.n, ret=lambda x: sel(x, x.k), upd=lambda x: (x.k, tv(x)))
    add('clear', 's.clear();', lambda x: [], lambda x: z3.BitVecVal(0, 64))
    add('push then pop', 's.push(static_cast<%s>(v)); r = s.pop();' % ty, lambda x, C=C: [z3.ULT(x.n, C)], lambda x: x.n, ret=lambda x: tv(x))
    add('copy', 'auto q = s; q.push(static_cast<%s>(v)); r = q.peek();' % ty, lambda x, C=C: [z3.ULT(x.n, C)], lambda x: x.n, ret=lambda x: tv(x))
PARTS = [('tuples', tuples), ('stacks', stacks)]
