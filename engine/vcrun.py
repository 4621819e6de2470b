"""prove one verification condition: vcrun.py x.ll vc_name opts.json -> result JSON on stdout"""
import sys, os, json, time, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from run import *


def main():
    ll, vc, o = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    t0 = time.time()
    deadline = t0 + o.get('budget', 300)
    hints = {k: set(v) for k, v in (o.get('hints') or {}).items()}
    res = None
    m = Module(ll)
    attempts = []
    if hints: attempts.append((hints, True))
    attempts.append((None, True)); attempts.append((None, False))
    for h, reuse in attempts:
        op = dict(reuse=reuse, par=o.get('par', 3), hints=h, deadline=deadline, maxpaths=o.get('maxpaths', 20000), unroll=o.get('unroll', 0), verbose=o.get('verbose', 0), ob_timeout=o.get('ob_timeout', 30000))
        try: e, err = verify(m, vc, op)
        except RecursionError: e, err = None, 'recursion'
        except MemoryError: e, err = None, 'out of memory'
        if e is None:
            res = dict(vc=vc, err=err, failures=[], stats={}, obl={}, contracts=[], models=[], functions=[], backend={}); continue
        res = dict(vc=vc, err=err, failures=e.failures, stats=e.stats, obl={k: v for k, v in e.obl.items()}, backend=e.backend,
                   contracts=sorted(e.contract_used), models=sorted(e.model_used), functions=sorted(e.trace_fn), learnt={k: sorted(v) for k, v in e.learnt.items()},
                   hinted=h is not None)
        if not err and not e.failures and all(e.stats['covers'].values() or [True]): break
        # retry without hints / without reuse
        if time.time() > deadline - 20: break
        if not reuse or not e.stats['loops']: break
    res['wall'] = time.time() - t0
    json.dump(res, sys.stdout)


main()
