"""rational arithmetic"""
import runner
from rats import contracts
LEVEL = 'proof'
def ops(ctx):
    ctx.assume('std::gcd: assumed contract (positive common divisor, cofactors in lowest terms, cofactors depend on the ratio only)',
               'detail::overflow_gate: its contract, proved in C08',
               'preconditions: positive denominators, products formed by the definition of the operation fit a machine int')
    ctx.fns(contracts(), 'operators on rationals')
PARTS = [('ops', ops)]
