"""rounding of large rationals"""
import runner
from rats import gate_contract
LEVEL = 'proof'
def gate(ctx):
    ctx.assume('std::gcd: assumed contract', 'the double-precision quotients that select the branch are treated as exact reals (relative error 2^-52, the margin of the tolerance is 1 %)')
    ctx.fns([gate_contract()], 'overflow gate')
PARTS = [('gate', gate)]
