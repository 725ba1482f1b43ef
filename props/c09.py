"""C09: both sorting routines, all lengths, all contents, any strict weak order."""
import os, sys, re, time, json, subprocess, tempfile, shutil, multiprocessing as mp, collections
import irparse as I, symex as S, classa, classb, z3
LEVEL = 'proof'
DRV = r'''#include <gal/algorithm.hpp>
#include <cstdint>
struct K { int64_t v; };
extern "C" bool vp_less(K const& a, K const& b) noexcept;
constexpr bool operator<(K const& a, K const& b) noexcept { return vp_less(a, b); }
struct Less { bool operator()(K const& a, K const& b) const noexcept { return vp_less(a, b); } };
extern "C" void s0(K* f, K* l) { gal::detail::sort(f, l); }
extern "C" void s1(K* f, K* l, Less& c) { gal::detail::sort(f, l, c); }
extern "C" void s2(K* f, K* l, Less& c) { gal::detail::sort(f, l, static_cast<Less&&>(c)); }
extern "C" void w0(K* a, K* b) { gal::detail::swap(*a, *b); }
'''
TEST = r'''#include <gal/algorithm.hpp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <vector>
#include <algorithm>
struct K { int32_t key, pay; };
constexpr bool operator<(K const& a, K const& b) noexcept { return a.key < b.key; }
static std::vector<K> in; static int which; static const char* phase = "sorting";
static void fail(const char* why)
{
    printf("FAIL %s | routine %d | %zu elements:", why, which, in.size());
    for (size_t i = 0; i < in.size() && i < 40; ++i) printf(" %d", in[i].key);
    if (in.size() > 40) printf(" ... (seeded)");
    printf("\n"); fflush(stdout); _exit(3);
}
static void sig(int s) { fail(s == SIGALRM ? "does not terminate" : "crash"); }
static void one()
{
    size_t n = in.size(), G = 4;
    for (which = 0; which < 2; ++which)
    {
        std::vector<K> a(n + 2 * G, K{-77, -77});
        for (size_t i = 0; i < n; ++i) a[G + i] = in[i];
        alarm(20);
        if (which == 0) gal::detail::sort(a.data() + G, a.data() + G + n);
        else { auto less = [](K const& x, K const& y) { return x.key > y.key; }; gal::detail::sort(a.data() + G, a.data() + G + n, less); }
        for (size_t i = 0; i < G; ++i) if (a[i].key != -77 || a[i].pay != -77 || a[G + n + i].key != -77 || a[G + n + i].pay != -77) fail("memory outside the range was changed");
        for (size_t i = 1; i < n; ++i) if (which == 0 ? a[G + i].key < a[G + i - 1].key : a[G + i].key > a[G + i - 1].key) fail("not in order");
        std::vector<char> seen(n, 0);
        for (size_t i = 0; i < n; ++i) { K k = a[G + i]; if (k.pay < 0 || (size_t)k.pay >= n || seen[k.pay] || in[k.pay].key != k.key) fail("not a permutation of the input"); seen[k.pay] = 1; }
    }
}
static void put(std::vector<int> const& v) { in.clear(); for (size_t i = 0; i < v.size(); ++i) in.push_back(K{v[i], (int)i}); one(); }
int main(int argc, char** argv)
{
    for (int s : {SIGALRM, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT}) signal(s, sig);
    srand(atoi(argv[1])); long cnt = 0;
    auto all = [&](int n, int k) { std::vector<int> v(n, 0); for (;;) { put(v); ++cnt; int i = 0; while (i < n && ++v[i] == k) v[i++] = 0; if (i == n) break; } };
    for (int n = 0; n <= 6; ++n) all(n, n < 1 ? 1 : n);
    for (int n = 7; n <= 9; ++n) all(n, 3);
    for (int n = 10; n <= 14; ++n) all(n, 2);
    for (int n = 0; n <= 300; ++n)
        for (int r = 0; r < 6; ++r)
        {
            std::vector<int> v(n);
            for (int i = 0; i < n; ++i) v[i] = r == 0 ? i : r == 1 ? n - i : r == 2 ? 7 : r == 3 ? rand() % (1 + n / 4) : r == 4 ? rand() % (4 * n + 1) : (i * 37) % (n + 1) / 2;
            put(v); ++cnt;
        }
    for (int n : {511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8193, 10000})
        for (int r = 0; r < 4; ++r)
        {
            std::vector<int> v(n);
            for (int i = 0; i < n; ++i) v[i] = r == 0 ? i : r == 1 ? rand() % 50 : r == 2 ? rand() : n - i;
            put(v); ++cnt;
        }
    for (int q = 2; q < argc; ++q)
        for (int d = -2; d <= 4; ++d)
        {
            long n = atol(argv[q]) + d;
            if (n < 0) continue;
            for (int r = 0; r < (n > 200000 ? 2 : 6); ++r)
            {
                std::vector<int> v(n);
                for (long i = 0; i < n; ++i) v[i] = r == 0 ? rand() : r == 1 ? rand() % (1 + n / 3) : r == 2 ? (int)i : r == 3 ? (int)(n - i) : r == 4 ? (int)((i * 7919) % (n + 1)) : rand() % 1000;
                put(v); ++cnt;
            }
        }
    printf("OK %ld\n", cnt);
}
'''
SORT = r'_ZN3gal6detail4sortI'
def one(a):
    ll, fname, ext = a
    sys.setrecursionlimit(20000)
    import arrsort
    mod = I.parse_module(open(ll).read())
    t = time.time()
    try:
        for ext in (False, True):
            v = arrsort.Ver(mod, fname, SORT, r'^vp_less$', extended=ext)
            out = v.run(150)
            if all(ok is True for _, ok in out): break
        return fname, out, {'rounds': v.rounds, 'paths': v.paths, 'invariant_facts': list(v.cuts.values()), 'fns': sorted(v.e.functions_executed), 'solver': v.e.solver_time,
                            'used': dict(v.e.contracts_used), 't': time.time() - t, 'lens': v.lens, 'delegates': sorted(v.delegates), 'exact': v.exact_fail}, None
    except (I.Unsupported, S.Bound, S.MemError, S.UB, RecursionError, z3.Z3Exception, KeyError, AttributeError) as ex:
        return fname, [], {}, '%s: %s' % (type(ex).__name__, ex)

def sorting(ctx):
    work = tempfile.mkdtemp(prefix='galc09_')
    t0 = time.time()
    try:
        ll, err, rc = classa.compile_ir(DRV, work, 's', flags=classb.IRB + ['-fno-optimize-sibling-calls'])
        todo = []
        probs = []; lens = set(); same = {}
        if ll is None:
            probs.append(('driver', 'does not compile: ' + err[-300:], None))
        else:
            mod = I.parse_module(open(ll).read())
            # one obligation set per instance of the sorting template, and for swap
            names = [n for n in mod.funcs if re.match(SORT, n)]
            if len(names) < 2: probs.append(('instances', 'expected the two sorting templates, found %d' % len(names), None))
            todo = [(ll, n, False) for n in names]
        with mp.get_context('fork').Pool(8) as pool:
            for fname, out, info, ex in pool.imap_unordered(one, todo):
                on = 'gal::detail::sort ' + fname
                for label, ok in out: ctx.obligation(on, 'z3 (quantifier instantiation at index terms)', ok is True)
                if ex is not None: probs.append((fname, ex, None)); continue
                ctx.solver += info['solver']; lens |= {x for x in info['lens'] if x < 3000000}
                for k, n in info['used'].items(): ctx.used[k] = ctx.used.get(k, 0) + n
                ctx.sample({'function': fname, 'obligations': len(out), 'paths': info['paths'], 'invariant facts kept': info['invariant_facts'], 'houdini rounds': info['rounds']})
                bad = collections.Counter(l for l, ok in out if ok is not True)
                if bad: probs.append((fname, 'not discharged: ' + ', '.join('%s (%d)' % x for x in bad.items()), info['exact']))
                same[fname] = info['delegates']
        def cyclic(n, seen): return n in seen or any(cyclic(m, seen | {n}) for m in same.get(n, ()))
        if same:
            ok = not any(cyclic(n, frozenset()) for n in same)
            ctx.obligation('gal::detail::sort delegation', 'call graph of the calls on a range of the same length', ok)
            if not ok: probs.append(('delegation', 'sorting functions call one another on the same range', True))
        if probs:
            # counterexample search on the real code
            open(work + '/t.cpp', 'w').write(TEST)
            q = subprocess.run(['g++', '-std=c++17', '-O1', '-I' + classa.REPO + '/public', work + '/t.cpp', '-o', work + '/t'], capture_output=True, text=True)
            fail = None; n = 0
            if q.returncode == 0:
                try:
                    q = subprocess.run([work + '/t', str(ctx.seed)] + [str(x) for x in sorted(lens)[:20]], capture_output=True, text=True, timeout=300)
                    l = (q.stdout.splitlines() or [''])[-1]
                    if l.startswith('FAIL'): fail = l
                    elif l.startswith('OK'): n = int(l.split()[1])
                    else: fail = 'crash: exit status %d' % q.returncode
                except subprocess.TimeoutExpired: fail = 'does not terminate'
                ctx.points += n
            else:
                fail = None; probs.append(('test', 'public driver does not compile: ' + q.stderr[-300:], None))
            if fail:
                ctx.violation('sort', {'obligation': 'contract of gal::detail::sort', 'failed': '; '.join('%s: %s' % p[:2] for p in probs)[:1500], 'counterexample': {'real run': fail},
                                       'source': TEST, 'kind': 'sorting contract refuted on the real code'}, True)
            elif any(p[2] for p in probs):
                ctx.violation('sort', {'obligation': 'contract of gal::detail::sort', 'failed': '; '.join('%s: %s' % p[:2] for p in probs)[:1500], 'counterexample': None,
                                       'source': DRV, 'kind': 'obligation of the sorting contract not discharged (%d concrete arrays sorted correctly)' % n}, False)
            else:
                for p in probs: ctx.undecide(p[0], p[1])
                ctx.bounded.append('sort: %d concrete arrays (all arrays of length <= 6, lengths up to 10000)' % n)
        ctx.parts.append({'part': 'sorting', 'functions': len(todo), 'wall_s': round(time.time() - t0, 1)})
        ctx.assume('the order is a strict weak order (x < y iff rank(x) < rank(y)); arrays of fewer than 2^58 elements; elements are copied as whole 8-byte objects',
                   'lemma used, not mechanised: equal counts of every value and an unchanged frame imply that each element of the sorted range is one of the original range')
    finally: shutil.rmtree(work, ignore_errors=True)

PARTS = [('sorting', sorting)]
