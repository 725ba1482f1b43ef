#!/usr/bin/env python3
"""check.py Cxx : decide one property on /repo's current tree"""
import sys, os, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib')); sys.path.insert(0, os.path.join(HERE, 'props'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import runner
def main():
    prop = sys.argv[1]
    mod = importlib.import_module(prop.lower())
    ctx = runner.Ctx(prop, mod.LEVEL)
    ctx.trust(*runner.COMMON_TRUST)
    for name, part in mod.PARTS:
        try: part(ctx)
        except Exception as ex:      # the part is not discharged: reported as such, without a failing input
            traceback.print_exc(limit=6)
            ctx.violation('part ' + name, {'obligation': 'part ' + name, 'failed': 'the verifier stopped: %s: %s' % (type(ex).__name__, ex), 'kind': 'obligations not generated'}, False)
    return ctx.finish()
if __name__ == '__main__':
    rc = main()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)
