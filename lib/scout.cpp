// Program selection: random client expressions are built through the library's own expression operators and reshaped by its own
// rpn_reshape, both run natively; the resulting postfix program is interpreted modulo a prime and compared with the direct value
// of the expression.  Disagreements are only *candidates*: each is handed to the verifier as a client program.
#include <gal/vga.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <chrono>
#include "scout_tab.hpp"
typedef unsigned long long u64; typedef unsigned __int128 u128;
static const u64 P = 2305843009213693951ull; // 2^61-1
static u64 mulm(u64 a, u64 b) { u128 t = (u128)a * b; u64 r = (u64)(t & P) + (u64)(t >> 61); return r >= P ? r - P : r; }
static u64 addm(u64 a, u64 b) { u64 r = a + b; return r >= P ? r - P : r; }
static u64 negm(u64 a) { return a ? P - a : 0; }
static u64 powm(u64 a, u64 e) { u64 r = 1; while (e) { if (e & 1) r = mulm(r, a); a = mulm(a, a); e >>= 1; } return r; }
static u64 invm(u64 a) { return powm(a, P - 2); }
static u64 im(long n) { return n >= 0 ? (u64)n % P : negm((u64)(-n) % P); }
static u64 mix(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
struct Rng { u64 s; u64 next() { return mix(s += 0x632be59bd9b4e019ull); } unsigned below(unsigned n) { return (unsigned)(next() % n); } bool chance(unsigned pc) { return below(100) < pc; } };

struct V8 { u64 c[8]; };
static V8 zero8() { V8 r; memset(&r, 0, sizeof r); return r; }
static V8 prod(const signed char (*t)[8][2], V8 const& a, V8 const& b)
{
    V8 r = zero8();
    for (int i = 0; i < 8; ++i) if (a.c[i])
        for (int j = 0; j < 8; ++j) if (b.c[j] && t[i][j][1])
        {
            u64 x = mulm(a.c[i], b.c[j]); int k = t[i][j][0];
            r.c[k] = addm(r.c[k], t[i][j][1] > 0 ? x : negm(x));
        }
    return r;
}
static V8 unary(const signed char (*t)[2], V8 const& a)
{
    V8 r = zero8();
    for (int i = 0; i < 8; ++i) r.c[(int)t[i][0]] = t[i][1] > 0 ? a.c[i] : negm(a.c[i]);
    return r;
}
static V8 add8(V8 const& a, V8 const& b) { V8 r; for (int i = 0; i < 8; ++i) r.c[i] = addm(a.c[i], b.c[i]); return r; }
static V8 scale8(u64 q, V8 const& a) { V8 r; for (int i = 0; i < 8; ++i) r.c[i] = mulm(q, a.c[i]); return r; }
static V8 scal8(u64 q) { V8 r = zero8(); r.c[0] = q; return r; }
static bool is_scal(V8 const& a) { for (int i = 1; i < 8; ++i) if (a.c[i]) return false; return true; }
static V8 grade8(V8 const& a, int g) { V8 r = a; for (int i = 0; i < 8; ++i) if (__builtin_popcount(i) != g) r.c[i] = 0; return r; }
static u64 fun(int k, u64 x) { if (x == 0) return k == 2 ? 1 : 0; return mix(x * 8 + k) % P; } // 0 sqrt, 1 sin, 2 cos, 3 tan
static const u64 PIV = mix(77) % P, EV = mix(78) % P;

namespace gd = gal::detail;
using A = gal::vga::vga_algebra;
static const gal::width_t CAP = 72;
typedef gd::rpne<A, CAP> R;
template <int N> struct D { static constexpr size_t size() { return N; } };
static bool overflow;
template <class X> static R fit(X const& x)
{
    R r;
    if (x.count > CAP - 8) { overflow = true; return r; }
    for (gal::width_t i = 0; i != x.count; ++i) r.nodes[i] = x.nodes[i];
    r.count = x.count; r.q = x.q;
    return r;
}
struct Input { const char* name; std::vector<int> bl; bool usable; bool scal; };
struct Layout { std::vector<Input> in; std::vector<R> r; std::vector<unsigned> off; };
static std::vector<Layout> layouts;
template <class... Ds> static Layout mk(std::vector<Input> in)
{
    Layout L; L.in = in;
    auto e = gd::rpne_entities<A, Ds...>();
    for (auto const& x : e.first) L.r.push_back(fit(x));
    unsigned o = 0;
    for (auto const& x : in) { L.off.push_back(o); o += (unsigned)x.bl.size(); }
    return L;
}
#include "scout_lay.hpp"

struct Item { R r; V8 v; std::string s; bool scal; int ops; unsigned mag; unsigned feat; bool isint; };
enum { F_FUN = 1, F_DIV = 2, F_INT = 4, F_LIT = 8, F_MULTI = 16 };

struct Val { V8 v; bool atomic; bool fn; };
struct Interp
{
    gd::rpne<A, 3 * CAP> const& p; Layout const& L; u64 const* coord; std::vector<V8> temps; const char* err = nullptr;
    V8 ident(gd::node const& n)
    {
        V8 r = zero8();
        if (n.ex >= L.in.size()) { err = "input index"; return r; }
        auto const& bl = L.in[n.ex].bl;
        if (n.checksum != L.off[n.ex]) err = "input offset";
        for (size_t i = 0; i < bl.size(); ++i) r.c[bl[i]] = coord[(n.checksum + i) % 256];
        return r;
    }
    void run(gal::width_t i, gal::width_t l, std::vector<Val>& st, bool top)
    {
        while (i < l && !err)
        {
            gd::node const& n = p.nodes[i];
            auto need = [&](size_t k) { if (st.size() < k) { err = "stack underflow"; return false; } return true; };
            u64 q = (n.q.den != 0) ? mulm(im(n.q.num), invm(im(n.q.den))) : 0;
            if (n.o != gd::op_noop && !st.empty() && st.back().fn) { err = "function value not extracted"; return; }
            switch (n.o)
            {
            case gd::op_id: st.push_back({ident(n), true, false}); break;
            case gd::op_cse: if (n.ex >= temps.size()) { err = "temporary index"; return; } st.push_back({temps[n.ex], true, false}); break;
            case gd::op_se:
            {
                std::vector<Val> sub;
                if (i + 1 + n.ex > p.count) { err = "subexpression extent"; return; }
                run(i + 1, i + 1 + n.ex, sub, false);
                if (err) return;
                if (sub.empty()) { err = "empty subexpression"; return; }
                if (sub.back().fn) { err = "function value not extracted"; return; }
                Val v = sub.back();
                if (n.q.num != 0) v.v = scale8(q, v.v);
                st.push_back(v);
                i += n.ex;
                break;
            }
            case gd::op_noop:
                if (!need(1)) return;
                if (!top) { err = "temporary inside a subexpression"; return; }
                temps.push_back(st.back().v); st.pop_back(); break;
            case gd::op_rev: if (!need(1)) return; st.back().v = unary(REV, st.back().v); break;
            case gd::op_pd: if (!need(1)) return; st.back().v = unary(DUAL, st.back().v); break;
            case gd::op_sum:
            {
                if (!need(n.ex) || n.ex == 0) { err = "sum arity"; return; }
                V8 s = zero8();
                for (gal::width_t k = 0; k != n.ex; ++k) { s = add8(s, st.back().v); st.pop_back(); }
                st.push_back({s, false, false}); break;
            }
            case gd::op_ep:
            {
                if (!need(n.ex) || n.ex == 0) { err = "product arity"; return; }
                V8 s = st[st.size() - n.ex].v;
                for (gal::width_t k = 1; k != n.ex; ++k) s = prod(EP, s, st[st.size() - n.ex + k].v);
                for (gal::width_t k = 0; k != n.ex; ++k) st.pop_back();
                st.push_back({s, false, false}); break;
            }
            case gd::op_gp: case gd::op_lc: case gd::op_sip:
            {
                if (!need(2)) return;
                V8 b = st.back().v; st.pop_back(); V8 a = st.back().v; st.pop_back();
                st.push_back({prod(n.o == gd::op_gp ? GP : n.o == gd::op_lc ? LC : SIP, a, b), false, false}); break;
            }
            case gd::op_comp: if (!need(1)) return; { u64 x = n.ex < 8 ? st.back().v.c[n.ex] : 0; st.back().v = scal8(x); } break;
            case gd::op_grd: if (!need(1)) return; st.back().v = grade8(st.back().v, (int)n.ex); break;
            case gd::op_div:
            {
                if (!need(2)) return;
                Val b = st.back(); st.pop_back(); V8 a = st.back().v; st.pop_back();
                if (!is_scal(b.v) || b.v.c[0] == 0) { err = "divisor"; return; }
                if (!b.atomic) { err = "divisor not extracted"; return; }
                st.push_back({scale8(mulm(q, invm(b.v.c[0])), a), false, false}); break;
            }
            case gd::op_sqrt: case gd::op_sin: case gd::op_cos: case gd::op_tan:
                if (!need(1)) return;
                if (!is_scal(st.back().v)) { err = "function of a non-scalar"; return; }
                st.back() = {scal8(fun((int)(n.o - gd::op_sqrt), mulm(q, st.back().v.c[0]))), true, true}; break;
            case gd::c_zero: st.push_back({zero8(), true, false}); break;
            case gd::c_pi: st.push_back({scal8(PIV), true, false}); break;
            case gd::c_e: st.push_back({scal8(EV), true, false}); break;
            default:
                if (n.o < gd::c_scalar || n.o >= gd::c_scalar + 8) { err = "operator"; return; }
                { V8 r = zero8(); r.c[n.o - gd::c_scalar] = 1; st.push_back({r, true, false}); } break;
            }
            ++i;
        }
    }
};

#include <csignal>
#include <unistd.h>
static char cur[4096]; static volatile int curn;
static void on_crash(int) { if (curn) { ssize_t r = write(1, cur, (size_t)curn); (void)r; } _exit(7); }
int main(int argc, char** argv)
{
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) signal(s, on_crash);
    u64 seed = strtoull(argv[1], 0, 10); double secs = atof(argv[2]); unsigned maxbad = 60;
    long sample = argc > 3 ? atol(argv[3]) : 0; // print this many agreeing programs (self-test)
    alarm((unsigned)secs + 20);
    Rng g{mix(seed)};
    mk_layouts();
    auto t0 = std::chrono::steady_clock::now();
    unsigned long n = 0, bad = 0, over = 0, nodes = 0;
    static const long INTS[] = {2, 3, -1, -2, 5, 4, -3, 7};
    static const char* FN[] = {"sqrt", "sin", "cos", "tan"};
    std::vector<Item> pool;
    for (unsigned it = 0;; ++it)
    {
        if ((it & 63) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
        Layout const& L = layouts[g.below((unsigned)layouts.size())];
        u64 coord[256];
        for (int i = 0; i < 256; ++i) coord[i] = g.next() % P;
        pool.clear(); overflow = false;
        for (size_t i = 0; i < L.in.size(); ++i) if (L.in[i].usable)
        {
            V8 v = zero8();
            for (size_t j = 0; j < L.in[i].bl.size(); ++j) v.c[L.in[i].bl[j]] = coord[L.off[i] + j];
            pool.push_back({L.r[i], v, L.in[i].name, L.in[i].scal, 0, 1, 0, false});
        }
        // restrict to a few of the inputs: more sharing
        while (pool.size() > 2 && g.chance(40)) pool.erase(pool.begin() + g.below((unsigned)pool.size()));
        size_t base = pool.size();
        unsigned steps = 1 + g.below(9); bool ok = true; unsigned style = g.below(4);
        unsigned last = 0;
        for (unsigned k = 0; k < steps && ok; ++k)
        {
            auto pick = [&]() -> Item const& {
                unsigned z = g.below(100);
                if (pool.size() > base && z < 35) return pool.back();
                if (pool.size() > base && z < 70) return pool[base + g.below((unsigned)(pool.size() - base))];
                return pool[g.below((unsigned)pool.size())];
            };
            auto picks = [&]() -> Item const* {
                for (int t = 0; t < 12; ++t) { Item const& x = pick(); if (x.scal) return &x; }
                return nullptr;
            };
            Item x = pick(), y = pick(), o; o.scal = false; o.feat = x.feat; o.mag = x.mag; o.ops = x.ops + 1; o.isint = false;
            unsigned op = g.below(style == 0 ? 8 : style == 1 ? 14 : style == 2 ? 20 : 26);
            if (style == 3 && g.chance(40)) op = 14 + g.below(12);
            if (op == 0 || op == 8 || op == 1 || op == 9 || (op >= 2 && op <= 6) || op == 10)
            {
                o.feat |= y.feat; o.mag *= y.mag; o.ops += y.ops; o.scal = x.scal && y.scal;
            }
            std::string xs = "(" + x.s + ")", ys = "(" + y.s + ")";
            switch (op)
            {
            case 0: case 8: o.r = fit(x.r + y.r); o.v = add8(x.v, y.v); o.s = xs + "+" + ys; break;
            case 1: o.r = fit(x.r - y.r); o.v = add8(x.v, scale8(P - 1, y.v)); o.s = xs + "-" + ys; break;
            case 2: case 9: o.r = fit(x.r * y.r); o.v = prod(GP, x.v, y.v); o.s = xs + "*" + ys; break;
            case 3: case 10: o.r = fit(x.r ^ y.r); o.v = prod(EP, x.v, y.v); o.s = xs + "^" + ys; break;
            case 4: o.r = fit(x.r & y.r); o.v = unary(DUAL, prod(EP, unary(DUAL, x.v), unary(DUAL, y.v))); o.s = xs + "&" + ys; o.scal = false; break;
            case 5: o.r = fit(x.r >> y.r); o.v = prod(LC, x.v, y.v); o.s = xs + ">>" + ys; break;
            case 6: o.r = fit(x.r | y.r); o.v = prod(SIP, x.v, y.v); o.s = xs + "|" + ys; break;
            case 7: o.r = fit(~x.r); o.v = unary(REV, x.v); o.s = "~" + xs; o.scal = x.scal; break;
            case 11: o.r = fit(!x.r); o.v = unary(DUAL, x.v); o.s = "dual" + xs; break;
            case 12: o.r = fit(-x.r); o.v = scale8(P - 1, x.v); o.s = "-" + xs; o.scal = x.scal; break;
            case 13: case 14: { long m = INTS[g.below(8)]; o.r = fit((int)m * x.r); o.v = scale8(im(m), x.v); o.s = std::to_string(m) + "*" + xs; o.scal = x.scal; o.mag *= (unsigned)labs(m); o.feat |= F_INT; break; }
            case 15: case 16: { long m = INTS[g.below(8)]; o.r = fit(x.r / (int)m); o.v = scale8(invm(im(m)), x.v); o.s = xs + "/" + std::to_string(m); o.scal = x.scal; o.mag *= (unsigned)labs(m); o.feat |= F_INT; break; }
            case 17: { long m = (long)g.below(6) - 2; bool mi = g.chance(30); o.r = mi ? fit(x.r - (int)m) : fit(x.r + (int)m); o.v = x.v; o.v.c[0] = addm(o.v.c[0], im(mi ? -m : m)); o.s = xs + (mi ? "-(" : "+(") + std::to_string(m) + ")"; o.scal = x.scal; o.mag *= (unsigned)(labs(m) + 1); o.feat |= F_INT; break; }
            case 18: { unsigned e = g.below(3) ? g.below(8) : 0; R t = x.r; o.r = fit(t[(gal::elem_t)e]); o.v = scal8(x.v.c[e]); o.s = xs + "[" + std::to_string(e) + "]"; o.scal = true; break; }
            case 19: { unsigned e = g.below(4); R t = x.r; o.r = fit(t.select_grade((gal::elem_t)e)); o.v = grade8(x.v, (int)e); o.s = xs + ".grade(" + std::to_string(e) + ")"; o.scal = e == 0; break; }
            case 20: o.r = fit(scalar_product(x.r, y.r)); o.v = scal8(prod(SIP, x.v, y.v).c[0]); o.s = "sp(" + x.s + "," + y.s + ")"; o.scal = true; o.feat |= y.feat; o.mag *= y.mag; o.ops += y.ops; break;
            case 21: case 22:
            {
                Item const* d = picks(); if (!d || d->v.c[0] == 0) { ok = false; break; }
                o.r = fit(x.r / d->r); o.v = scale8(invm(d->v.c[0]), x.v); o.s = xs + "/(" + d->s + ")"; o.scal = x.scal; o.feat |= d->feat | F_DIV; o.mag *= d->mag; o.ops += d->ops; break;
            }
            case 23: case 24:
            {
                Item const* d = picks(); if (!d) { ok = false; break; }
                int k2 = (int)g.below(4);
                o.r = fit(k2 == 0 ? sqrt(d->r) : k2 == 1 ? sin(d->r) : k2 == 2 ? cos(d->r) : tan(d->r));
                o.v = scal8(fun(k2, d->v.c[0])); o.s = std::string(FN[k2]) + "(" + d->s + ")"; o.scal = true; o.feat = d->feat | F_FUN; o.mag = d->mag; o.ops = d->ops + 1; break;
            }
            case 25:
                if (g.chance(50)) { o.r = fit(gal::PI * x.r); o.v = scale8(PIV, x.v); o.s = "PI*" + xs; o.scal = x.scal; o.feat |= F_LIT; }
                else if (g.chance(50)) { unsigned e = g.below(NLIT); long m = 1 + g.below(3); R t = lit_r(e, m); V8 v = zero8(); v.c[LITB[e]] = im(m); o.r = fit(x.r * t); o.v = prod(GP, x.v, v); o.s = xs + "*lit(" + std::to_string(m) + ",'" + LITN[e] + "'," + std::to_string(LITB[e]) + ")"; o.mag *= (unsigned)m; o.feat |= F_LIT; }
                else { Item const* d = picks(); if (!d || d->v.c[0] == 0) { ok = false; break; } long m = INTS[g.below(8)]; o.r = fit((int)m / d->r); o.v = scal8(mulm(im(m), invm(d->v.c[0]))); o.s = std::to_string(m) + "/(" + d->s + ")"; o.scal = true; o.feat = d->feat | F_DIV | F_INT; o.mag = d->mag * (unsigned)labs(m); o.ops = d->ops + 1; }
                break;
            }
            if (!ok || overflow || o.mag > 400 || o.s.size() > 240) { ok = false; break; }
            pool.push_back(o); last = (unsigned)pool.size() - 1;
        }
        if (overflow) ++over;
        if (!ok && pool.size() == base) continue;
        last = (unsigned)pool.size() - 1;
        std::vector<unsigned> res{last};
        if (g.chance(20)) { unsigned m = 1 + g.below(4); for (unsigned k = 0; k < m; ++k) res.push_back(g.below((unsigned)pool.size())); }
        overflow = false;
        R e; unsigned feat = 0, ops = 0; unsigned mag = 1;
        unsigned tot = 0;
        for (unsigned k : res) { feat |= pool[k].feat; ops += pool[k].ops; tot += (unsigned)pool[k].r.count + 2; mag = std::max(mag, pool[k].mag); }
        if (tot >= CAP) continue;
        if (res.size() == 1) { e = pool[last].r; if (e.q.is_zero()) e.count = 0; }
        else { feat |= F_MULTI; for (unsigned k : res) e.append_as_se(pool[k].r); }
        {
            std::string t; for (size_t k = 0; k < res.size(); ++k) { if (k) t += " ;; "; t += pool[res[k]].s; }
            curn = snprintf(cur, sizeof cur, "BAD\t%u\t%u\t%d\tcrash\t%s\n", ops, feat, (int)(&L - layouts.data()), t.c_str());
            if (curn >= (int)sizeof cur) curn = 0;
        }
        auto out = gd::rpn_reshape(e);
        Interp in{out, L, coord, {}, nullptr};
        std::vector<Val> st;
        if (out.count > 3 * CAP) in.err = "length"; else in.run(0, out.count, st, true);
        ++n; nodes += out.count;
        const char* why = in.err;
        if (!why && !st.empty() && st.back().fn) why = "function value not extracted";
        if (!why)
        {
            u64 q = out.q.den ? mulm(im(out.q.num), invm(im(out.q.den))) : 0;
            if (res.size() == 1 && st.empty()) { V8 z = zero8(); if (memcmp(&z, &pool[last].v, sizeof z)) why = "value (empty)"; }
            else if (st.size() != res.size()) why = "number of results";
            else for (size_t k = 0; k < res.size() && !why; ++k)
            {
                V8 v = scale8(q, st[k].v);
                if (memcmp(&v, &pool[res[k]].v, sizeof v)) why = "value";
            }
        }
        if (!why && sample > 0 && ops > 2) { --sample; char* t = strstr(cur, "\tcrash\t"); printf("%.*s\tok\t%s", (int)(t - cur), cur, t + 7); }
        curn = 0;
        if (why)
        {
            ++bad;
            if (bad <= maxbad)
            {
                printf("BAD\t%u\t%u\t%d\t%s\t", ops, feat, (int)(&L - layouts.data()), why);
                for (size_t k = 0; k < res.size(); ++k) printf("%s%s", k ? " ;; " : "", pool[res[k]].s.c_str());
                printf("\n");
            }
        }
    }
    printf("DONE\t%lu\t%lu\t%lu\t%lu\n", n, bad, over, nodes);
    return 0;
}
