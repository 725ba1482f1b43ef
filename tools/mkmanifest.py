"""(author tool) writes MANIFEST.json; a property is claimed when props/cxx.py exists"""
import json, os
TV = 'contract-based deductive verification: per-program postcondition (compiled code == denotation) discharged on LLVM IR of the real headers by symbolic execution + rational-function normal form'
PR = 'contract-based deductive verification: function contracts over LLVM IR of the real functions, symbolic execution, obligations discharged by z3'
NOTE_A = 'For each client program of a systematic and seeded-random family, the function gal compiles it to is proved equal to the denotation for all real inputs; unbounded in inputs, bounded in the set of programs (gal is a compile-time compiler, each program is a separate instantiation). Floating point treated as reals; clang front end and /verif/lib trusted.'
NOTE_B = 'Contracts on the real functions hold for all inputs satisfying the precondition; trusts clang front end, /verif/lib symbolic executor, z3, and the assumed contracts listed in the evidence. Parts labelled bounded in the evidence are not counted as proved.'
NOTE = {}
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks=[]; na=[]
for p in props:
    f='/verif/props/%s.py' % p.lower()
    if not os.path.exists(f):
        na.append({'property':p,'reason':'check not built yet'}); continue
    lvl=[l for l in open(f) if l.startswith('LEVEL')][0].split("'")[1]
    checks.append({'property':p,'quick_cmd':'python3-vt check.py %s'%p,'thorough_cmd':'VERIF_TIER=thorough python3-vt check.py %s'%p,
      'technique': TV if lvl=='translation_validation' else PR,'level':lvl,'level_note':NOTE.get(p, NOTE_A if lvl=='translation_validation' else NOTE_B)})
json.dump({'version':1,'setup_cmd':'true','checks':checks,'not_applicable':na,
 'notes':'No hooks in /repo; all /repo commits are fix: commits, listed in known_findings.json.'},open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',[x['property'] for x in na])
