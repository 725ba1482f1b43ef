"""Check driver: collects obligations, applies the alarm policy, writes evidence, prints VIOLATION / KNOWN-FINDING lines."""
import os, sys, json, time, traceback, collections, resource
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Ctx:
    def __init__(self, prop, level):
        self.prop = prop; self.level = level
        self.tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv else 'quick'
        try: self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError: self.seed = 1
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.obls = 0; self.discharged = 0
        self.backend = collections.Counter()     # obligations discharged per back end
        self.solver = 0.0
        self.functions = {}                      # functions under contract -> obligations
        self.programs = 0; self.progs_proved = 0; self.points = 0
        self.undecided = []                      # (name, reason)
        self.skipped = []
        self.bounded = []                        # labelled bounded stand-ins
        self.violations = []                     # (name, info, confirmed)
        self.samples = []
        self.assumptions = []
        self.trusted = []
        self.fn_exec = 0
        self.used = {}                           # callee contracts applied at call sites
        self.parts = []
        self.known = []
        try:
            for k in json.load(open(os.path.join(VERIF, 'known_findings.json'))).get('known', []):
                if k['property'] == prop: self.known.append(k)
        except FileNotFoundError: pass
        self.known_hit = []

    # ---- bookkeeping
    def assume(self, *txt):
        for t in txt:
            if t not in self.assumptions: self.assumptions.append(t)
    def trust(self, *txt):
        for t in txt:
            if t not in self.trusted: self.trusted.append(t)
    def sample(self, x):
        if len(self.samples) < 12: self.samples.append(x)
    def violation(self, name, info, confirmed):
        for k in self.known:
            if k['name'] == name:
                self.known_hit.append((k, info)); return
        self.violations.append((name, info, confirmed))
    def obligation(self, fn, backend, ok=True, n=1, t=0.0):
        self.obls += n; self.solver += t
        self.functions[fn] = self.functions.get(fn, 0) + n
        if ok:
            self.discharged += n; self.backend[backend] += n
    def undecide(self, name, why):
        self.undecided.append((name, str(why)[:300]))

    # ---- compiled client programs
    def progs(self, progs, title='client programs', batch=6, concrete=False):
        import classa
        if not progs: return
        rs, wall = classa.run_progs(progs, seed=self.seed, batch=batch, concrete=concrete)
        st = collections.Counter(r.status for r in rs)
        self.programs += len(rs)
        byid = {p.pid: p for p in progs}
        for i, r in enumerate(rs):
            p = byid[r.pid]
            self.points += getattr(r, 'points', 0)
            self.solver += r.solver
            self.fn_exec = max(self.fn_exec, r.fns)
            if r.status == 'skipped': self.skipped.append((r.desc, r.msg)); continue
            fn = p.contract_on() if hasattr(p, 'contract_on') else '%s<...>' % p.alg.compute
            self.functions[fn] = self.functions.get(fn, 0) + r.obls
            self.obls += r.obls; self.discharged += r.discharged
            self.backend['rational-function normal form'] += r.discharged
            if r.status == 'proved':
                self.progs_proved += 1
                if i % max(1, len(rs) // 4) == 0: self.sample({'program': r.desc, 'obligations': r.obls, 'status': 'proved for all real inputs'})
            elif r.status == 'refuted':
                self.violation(r.pid, {'obligation': r.desc, 'failed': r.msg, 'counterexample': r.cex, 'source': p.source('w0'),
                                       'kind': 'compiled program disagrees with its specification'}, isinstance(r.cex, dict))
            elif r.status == 'unconfirmed' or (r.status == 'undecided' and getattr(r, 'why', '') == 'unsupported'):
                self.violation(r.pid, {'obligation': r.desc, 'failed': r.msg, 'source': p.source('w0'), 'concrete_inputs_tried': getattr(r, 'points', 0),
                                       'kind': 'obligation not discharged by the verifier'}, False)
            elif r.status == 'nocompile':
                self.violation(r.pid, {'obligation': r.desc, 'failed': 'the program no longer compiles: ' + r.msg, 'source': p.source('w0'),
                                       'kind': 'public-API program rejected by the compiler'}, True)
            else:
                if getattr(r, 'points', 0): self.bounded.append('%s: %d concrete inputs' % (r.desc[:200], r.points))
                self.undecide(r.desc, r.msg)
        self.parts.append({'part': title, 'programs': len(rs), 'status': dict(st), 'wall_s': round(wall, 1)})

    def scout(self, keep=lambda b: True, title='programs selected by native search', sample=0, secs=4):
        """directed selection of client programs (lib/scout.py); only refuted, replayed programs (or ones the compiler rejects) count"""
        import scout, classa
        if self.thorough: secs *= 8; sample *= 4
        cand, st = scout.run(self.seed, secs, sample=(sample + 7) // 8)
        if cand is None:
            self.undecide('program selection', st); return
        bad = [b for b in cand if b[3] != 'ok']
        P = scout.candidates(bad, keep, 24)
        if P:
            rs, wall = classa.run_progs(P, seed=self.seed, batch=3)
            for p, r in zip(P, rs):
                self.programs += 1; self.obls += r.obls; self.discharged += r.discharged
                if r.status == 'refuted' and isinstance(r.cex, dict):
                    self.violation(r.pid, {'obligation': r.desc, 'failed': r.msg, 'counterexample': r.cex, 'source': p.source('w0'),
                                           'kind': 'compiled program disagrees with its specification'}, True)
                elif r.status == 'nocompile':
                    self.violation(r.pid, {'obligation': r.desc, 'failed': 'the program no longer compiles: ' + r.msg, 'source': p.source('w0'),
                                           'kind': 'public-API program rejected by the compiler'}, True)
                elif r.status == 'proved': self.progs_proved += 1
        if sample: self.progs(scout.candidates([b for b in cand if b[3] == 'ok'], keep, sample, pre='T', limit=False), title + ' (agreeing sample)', batch=6)
        self.bounded.append('%s: %d expressions built and reshaped natively, %d disagreements (candidates are verified as client programs)' % (title, st['programs'], st['disagreements']))
        self.parts.append({'part': title, 'searched': st['programs'], 'candidates': len(P)})

    # ---- contracts on library functions
    def fns(self, fns, title='library functions'):
        import classb
        if not fns: return
        rs, wall = classb.run_fns(fns, seed=self.seed, npts=3000 if self.thorough else 300)
        st = collections.Counter(r.status for r in rs)
        for fn, r in zip(fns, rs):
            self.points += r.points; self.solver += r.solver
            self.functions[fn.on] = self.functions.get(fn.on, 0) + r.obls
            self.obls += r.obls; self.discharged += r.discharged
            for k, v in r.by.items(): self.backend[k] += v
            for k, v in r.used.items(): self.used[k] = self.used.get(k, 0) + v
            if r.status == 'proved':
                self.sample({'contract': fn.name, 'on': fn.on, 'paths': r.paths, 'obligations': r.obls, 'status': 'proved'})
            elif getattr(fn, 'layer', False):
                # internal data structures: only a refutation replayed on the real function counts; no client program is at hand
                if r.status == 'refuted' and r.cex is not None:
                    self.violation(fn.name, {'obligation': fn.name, 'on': fn.on, 'failed': r.msg, 'counterexample': r.cex, 'source': fn.source(),
                                             'kind': 'contract of an internal function refuted, replayed on the real function'}, False)
                else:
                    if r.points: self.bounded.append('%s: %d concrete inputs' % (fn.name, r.points))
                    self.undecide(fn.name, r.status + ': ' + r.msg)
            elif r.status == 'refuted' and r.cex is not None:
                self.violation(fn.name, {'obligation': fn.name, 'on': fn.on, 'failed': r.msg, 'counterexample': r.cex, 'source': fn.source(),
                                         'kind': 'contract refuted, replayed on the real code'}, True)
            elif r.status == 'refuted' or (r.status == 'undecided' and getattr(r, 'why', '') == 'unsupported'):
                self.violation(fn.name, {'obligation': fn.name, 'on': fn.on, 'failed': r.msg, 'source': fn.source(), 'kind': 'contract refuted by the solver'}, False)
            elif r.status == 'nocompile' and fn.api == 'public':
                self.violation(fn.name, {'obligation': fn.name, 'on': fn.on, 'failed': 'the driver no longer compiles: ' + r.msg, 'source': fn.source(),
                                         'kind': 'public function missing or changed'}, True)
            else:
                if r.points: self.bounded.append('%s: %d concrete inputs' % (fn.name, r.points))
                self.undecide(fn.name, r.status + ': ' + r.msg)
        self.parts.append({'part': title, 'contracts': len(rs), 'status': dict(st), 'wall_s': round(wall, 1)})

    # ---- end
    def finish(self):
        wall = time.time() - self.t0
        evd = os.path.join(VERIF, 'evidence'); os.makedirs(evd, exist_ok=True)
        for f in os.listdir(evd):
            if f.startswith('replay_%s_' % self.prop): os.unlink(os.path.join(evd, f))
        vac = self.obls == 0 or self.discharged == 0
        cov = {'obligations': self.obls, 'discharged': self.discharged,
               'checker_cmd': 'python3-vt check.py %s' % self.prop,
               'trusted_base': self.trusted, 'back_ends': dict(self.backend), 'solver_s': round(self.solver, 2),
               'functions_under_contract': self.functions, 'undecided': [list(x) for x in self.undecided][:50],
               'n_undecided': len(self.undecided), 'n_skipped_ill_defined': len(self.skipped),
               'callee_contracts_applied': self.used, 'bounded_stand_ins': self.bounded[:50], 'parts': self.parts, 'samples': self.samples or ['-'],
               'known_findings_reproduced': [k['name'] for k, _ in self.known_hit]}
        if self.programs:
            cov['programs'] = self.programs; cov['programs_proved'] = self.progs_proved
            cov['disagreements_checked'] = self.points
        if self.level == 'translation_validation': cov.setdefault('programs', 0); cov.setdefault('disagreements_checked', 0)
        lines = []
        for n, (name, info, conf) in enumerate(self.violations[:20]):
            path = os.path.join(evd, 'replay_%s_%d.json' % (self.prop, n))
            json.dump({'property': self.prop, 'name': name, 'confirmed_on_real_code': conf, **info}, open(path, 'w'), indent=1, default=str)
            lines.append('VIOLATION property=%s replay=%s%s' % (self.prop, path, '' if conf else ' no-failing-input-found'))
        # confirmed violations first
        lines.sort(key=lambda l: l.endswith('no-failing-input-found'))
        json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
                   'assumptions': self.assumptions, 'wall_s': round(wall, 2), 'violations': len(self.violations)},
                  open(os.path.join(evd, self.prop + '.json'), 'w'), indent=1, default=str)
        for k, info in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        print('%s: %d obligations, %d discharged, %d undecided, %d programs, %.1f s' %
              (self.prop, self.obls, self.discharged, len(self.undecided), self.programs, wall))
        for u in self.undecided[:6]: print('  undecided:', u[0][:160], '|', u[1][:160])
        if self.violations:
            for name, info, conf in self.violations[:6]:
                print('  failed obligation [%s]: %s | %s | %s' % (name, str(info.get('obligation'))[:200], str(info.get('failed'))[:200],
                                                                  str(info.get('counterexample'))[:300]))
            for l in lines[:5]: print(l)
            return 1
        if vac:
            print('  warning: no obligation was discharged (nothing decided)')
        return 0

COMMON_TRUST = [
    'clang 18 front end (C++ -> LLVM IR at -O1, no vectorisation, -ffp-contract=off)',
    '/verif/lib: IR reader, symbolic executor, rational-function normal form (Python)',
    '/verif/lib/ga.py: reference Clifford algebra (from e_i e_j = -e_j e_i, e_i^2 = metric)',
]
COMMON_ASSUME = [
    'machine floating point is treated as exact real arithmetic (rounding, overflow, NaN, infinities not modelled)',
    'float literals denote the simplest rational (times powers of pi, e) within 4 ulp of them',
    'std::sqrt/sin/cos/tan/atan2/pow are uninterpreted functions satisfying only sqrt(x)^2 = x and values at 0',
]
