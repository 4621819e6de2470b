import sys, time, subprocess, os, json
import z3
from ir import Module
from sym import *


def verify(mod, fn, opts=None):
    e = Engine(mod, opts)
    t = time.time()
    err = None
    try:
        st = e.start(fn)
        back, exits, done = e.run([st], None)
        e.drain()
        e.stats['paths_done'] = len(done)
    except Unsupported as x: err = 'unsupported: %s' % x
    except Budget as x: err = 'budget: %s' % x
    except KeyError as x: err = 'engine: KeyError %s' % x
    except z3.Z3Exception as x:
        if os.environ.get("TB"): raise
        err = 'z3: %s' % x
    e.abandon()
    e.stats['wall'] = time.time() - t
    return e, err


if __name__ == '__main__':
    mod = Module(sys.argv[1])
    for fn in sys.argv[2:]:
        e, err = verify(mod, fn, dict(reuse=bool(int(os.environ.get('REUSE','1'))),verbose=int(os.environ.get('V', '1')),par=int(os.environ.get('PAR','6'))))
        print(fn, 'ERR ' + err if err else 'ok', {k: v for k, v in e.stats.items()})
        for k, v in e.obl.items(): print('   ', k, v)
        for f in e.failures: print('  FAIL', f)
