"""Selection of client programs for the verifier (see scout.cpp): a bounded search for expressions on which the library's own
expression builder and reshaping pass, run natively, disagree with the direct value.  It decides nothing by itself: every candidate
becomes an ordinary client program, verified like all others, and only a refuted (replayed) obligation is reported."""
import os, subprocess, tempfile, shutil, random
import ga, classa
from ga import V, lit, dual, sqrt, sin, cos, tan, sp, PI, E

LITS = [('_e0', 1), ('_e1', 2), ('_e2', 4), ('_e01', 3), ('_e02', 5), ('_e12', 6), ('_e012', 7)]
FULL = '0_1_2_3_4_5_6_7'
# (name, entity key, usable)
LAYOUTS = [
    [('a', 'vga.vector', 1), ('b', 'vga.e0_3_5_6', 1), ('s', 'vga.scalar', 1), ('t', 'vga.T', 1)],
    [('a', 'vga.vector', 1), ('b', 'vga.vector', 1), ('c', 'vga.vector', 1), ('d', 'vga.e3_5_6', 1), ('s', 'vga.scalar', 1)],
    # coordinates 32 apart: identifiers agree modulo 32
    [('a', 'vga.vector', 1), ('m', 'vga.e' + FULL, 0), ('n', 'vga.e' + FULL, 0), ('o', 'vga.e' + FULL, 0), ('p', 'vga.e0_1_2_3_4', 0),
     ('b', 'vga.vector', 1), ('c', 'vga.e3_5', 1), ('s', 'vga.scalar', 1)],
    [('a', 'vga.e1', 1), ('b', 'vga.e2', 1), ('c', 'vga.e4', 1), ('d', 'vga.e3', 1), ('f', 'vga.e5', 1), ('g', 'vga.e0_6', 1), ('h', 'vga.vector', 1),
     ('k', 'vga.e7', 1), ('l', 'vga.scalar', 1), ('m', 'vga.vector', 1), ('n', 'vga.e3_5_6', 1)],
    [('s', 'vga.scalar', 1), ('t', 'vga.T', 1), ('u', 'vga.scalar', 1), ('a', 'vga.e1', 1)],
    [('a', 'vga.e1_6', 1), ('b', 'vga.e2_5', 1)],
]
F_FUN, F_DIV, F_INT, F_LIT, F_MULTI = 1, 2, 4, 8, 16
_VGA = ga.ALGS['vga'].sq

def blades(key): return [0] if key.endswith('scalar') or key.endswith('.T') else ([1, 2, 4] if key == 'vga.vector' else [int(x) for x in key.split('.e')[1].split('_')])

def tables():
    L = []
    for nm, k in (('GP', 'gp'), ('EP', 'ep'), ('LC', 'lc'), ('SIP', 'sip')):
        L.append('static const signed char %s[8][8][2] = {%s};' % (nm, ', '.join('{%s}' % ', '.join('{%d, %d}' % ga.blade_product(k, _VGA, a, b) for b in range(8)) for a in range(8))))
    R = ga.Ring()
    def un(f):
        o = []
        for b in range(8):
            m = f(ga.MV(ga.ALGS['vga'], R, {b: ga.RF.const(R, 1)}))
            (c, v), = m.d.items()
            o.append('{%d, %d}' % (c, 1 if v.eq(ga.RF.const(R, 1)) else -1))
        return ', '.join(o)
    L.append('static const signed char REV[8][2] = {%s};' % un(lambda m: m.rev()))
    L.append('static const signed char DUAL[8][2] = {%s};' % un(lambda m: m.dual()))
    L.append('static const unsigned NLIT = %d; static const int LITB[] = {%s}; static const char* LITN[] = {%s};' %
             (len(LITS), ', '.join(str(b) for _, b in LITS), ', '.join('"%s"' % s for s, _ in LITS)))
    return '\n'.join(L) + '\n'
def lay():
    L = ['static R lit_r(unsigned e, long m)\n{\n    using namespace gal::vga;\n    switch (e)\n    {']
    for i, (s, b) in enumerate(LITS):
        L.append('    case %d: return m == 1 ? fit(1%s) : m == 2 ? fit(2%s) : fit(3%s);' % (i, s, s, s))
    L.append('    }\n    return R{};\n}\nstatic void mk_layouts()\n{')
    for l in LAYOUTS:
        ds = ', '.join('double' if k.endswith('.T') else 'D<%d>' % len(blades(k)) for _, k, _ in l)
        L.append('    layouts.push_back(mk<%s>({%s}));' % (ds, ', '.join('{"%s", {%s}, %s, %s}' % (n, ', '.join(map(str, blades(k))), 'true' if u else 'false',
                 'true' if k.endswith('scalar') or k.endswith('.T') else 'false') for n, k, u in l)))
    L.append('}\n')
    return '\n'.join(L)

def run(seed, secs, jobs=8, opt='-O2', sample=0):
    """([(ops, feat, layout, why, text)], stats) or (None, reason)"""
    work = tempfile.mkdtemp(prefix='galsc_')
    try:
        here = os.path.dirname(os.path.abspath(__file__))
        shutil.copy(os.path.join(here, 'scout.cpp'), work)
        open(os.path.join(work, 'scout_tab.hpp'), 'w').write(tables())
        open(os.path.join(work, 'scout_lay.hpp'), 'w').write(lay())
        exe = os.path.join(work, 'scout')
        rc, o, e = classa.run_cmd([classa.GXX, '-std=c++17', '-I' + classa.REPO + '/public', '-I' + work, opt, '-w', '-fsanitize=bounds', '-fsanitize-trap=bounds', os.path.join(work, 'scout.cpp'), '-o', exe], timeout=300)
        if rc != 0: return None, 'does not build: ' + (e or o)[:300]
        ps = [subprocess.Popen([exe, str(seed * 1000 + i), str(secs), str(sample)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for i in range(jobs)]
        bad = []; tot = [0, 0, 0, 0]; crashed = 0
        for p in ps:
            try: out, _ = p.communicate(timeout=secs + 60)
            except subprocess.TimeoutExpired: p.kill(); out, _ = p.communicate(); crashed += 1
            for l in out.splitlines():
                f = l.split('\t')
                if f[0] == 'BAD' and len(f) == 6: bad.append((int(f[1]), int(f[2]), int(f[3]), f[4], f[5]))
                elif f[0] == 'DONE': tot = [x + int(y) for x, y in zip(tot, f[1:])]
            if p.returncode != 0: crashed += 1
        bad.sort(key=lambda b: (b[0], len(b[4])))
        return bad, {'programs': tot[0], 'disagreements': tot[1], 'crashed': crashed}
    finally:
        shutil.rmtree(work, ignore_errors=True)

def parse(layout, text):
    env = {n: V(n) for n, _, _ in LAYOUTS[layout]}
    env.update(lit=lit, dual=dual, sqrt=sqrt, sin=sin, cos=cos, tan=tan, sp=sp, PI=PI, E=E)
    return [(n, k) for n, k, _ in LAYOUTS[layout]], [eval(t, {'__builtins__': {}}, env) for t in text.split(' ;; ')]

def candidates(bad, keep=lambda b: True, n=16, pre='S', limit=True):
    """the smallest distinct candidates as client programs"""
    from classa import Prog
    import gen
    out = []; seen = set(); cls = {}
    for b in bad:
        if len(out) >= n: break
        if not keep(b) or b[4] in seen: continue
        seen.add(b[4])
        if limit and cls.get((b[3], b[2]), 0) >= 4: continue
        ins, ex = parse(b[2], b[4])
        if any(isinstance(e, ga.IntC) for e in ex): continue
        # a bare float as first input is outside the interface
        p = Prog('%s%03d' % (pre, len(out)), 'vga', ins, ex, structure=False)
        if gen.cost(p) > 1500: continue
        cls[(b[3], b[2])] = cls.get((b[3], b[2]), 0) + 1
        out.append(p)
    return out
