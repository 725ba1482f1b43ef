"""(author tool) writes known_findings.json: fixed entries from the fix: commits, known entries listed here"""
import subprocess, json
MAP = {'directions of the 2D PGA': 'C11', 
 'select components in the null basis':'C14','lines given by Pluecker':'C12','points of the 2D PGA lie':'C12','logarithm of a motor':'C13','indeterminate bivectors':'C11','split_drop':'C15',
 'splitting a tuple':'C15','the zeroth power':'C10','comparing a rational with an integer':'C07','points of the 2D PGA round':'C11',
 'the size of a direction':'C06','translator coefficients':'C13','rotor coefficients':'C13','scalar functions apply to the sum':'C04',
 'components of an exactly zero entity':'C06','rational inequality':'C07','the overflow gate':'C08','divisors may be temporaries':'C04',
 'quotients by a scalar input':'C04','references to temporaries':'C06','basis literals of null':'C03','temporaries of null basis':'C04',
 'divisors that start':'C04','cosine of an expression':'C05','the symmetric inner product keeps':'C02','results of a multi-result':'C04',
 'bare floating-point':'C06','scalar functions and quotients of an exactly zero':'C05','component and grade selection of an':'C05',
 'multiple results may contain':'C05','integer and literal zeros':'C05','sums whose summands':'C05','rational denominators':'C07','pop returns':'C15',
 'grade selection visits':'C02','rational equality reduces':'C07','division merges':'C17','integer numerator':'C03','gal::E':'C03',
 'subexpressions that differ':'C04','scale remaining':'C03','exterior products of exterior':'C03','reversion and dual keep':'C03',
 'adding an exactly zero':'C03','products with an exactly zero':'C05','several selections':'C04'}
KNOWN = []
out = subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%H %s'],text=True).splitlines()
fixed = []
for l in out:
    h, s = l.split(' ',1)
    if not s.startswith('fix: '): continue
    t = s[5:]
    ps = [p for k,p in MAP.items() if t.startswith(k)]
    assert len(ps)==1, (t,ps)
    fixed.append('fixed: property=%s %s %s (before the fix this did not hold)' % (ps[0], h[:12], t))
json.dump({'known': KNOWN, 'fixed': fixed}, open('/verif/known_findings.json','w'), indent=1)
print(len(fixed))
