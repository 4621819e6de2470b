#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree."""
import sys, os, json, time, subprocess, shutil, tempfile, hashlib, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
from props import PROPS, KNOWN
PY = 'python3-vt'
NCPU = max(2, min(8, os.cpu_count() or 4))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def demangle(ns):
    ns = list(ns)
    if not ns: return []
    r = subprocess.run(['c++filt'], input='\n'.join(ns), capture_output=True, text=True).stdout.split('\n')
    return r[:len(ns)]


class Check:
    def __init__(s, pid, tier):
        s.pid = pid; s.tier = tier; s.p = PROPS[pid]; s.t0 = time.time()
        s.seed = int(os.environ.get('VERIF_SEED', '1'))
        s.tmp = tempfile.mkdtemp(prefix='vf_%s_' % pid)
        s.notes = []
        s.vcres = []
        s.nat = {}
        s.viol = []     # (what, replay path, confirmed)
        s.known = []
        s.build_err = []

    def left(s): return s.limit - (time.time() - s.t0)

    # ---------------------------------------------------------------- build
    def build(s):
        jobs = []
        if any(sp.get('store') for sp in s.p['specs']):
            r = sh([os.path.join(V, 'engine', 'mkstore.sh'), s.tmp + '/gen', '/repo/tests/TestStore.st', os.path.join(V, 'specs', 'VfDir.st')])
            if r.returncode: s.build_err.append('store generation: ' + r.stdout[-1500:])
        with ThreadPoolExecutor(8) as ex:
            for sp in s.p['specs']:
                src = os.path.join(V, 'specs', sp['file'])
                base = os.path.join(s.tmp, os.path.splitext(sp['file'])[0])
                fl = list(sp.get('flags', []))
                if sp.get('store'): fl += ['-I' + s.tmp + '/gen/include']
                sp['ll'] = base + '.ll'; sp['bin'] = base + '.nat'
                if sp.get('prove'):
                    jobs.append((sp, 'll', ex.submit(sh, [os.path.join(V, 'engine', 'mkir.sh'), src, sp['ll']] + fl + sp.get('pflags', []))))
                if sp.get('native'):
                    ns = [x.replace('GEN', s.tmp + '/gen') for x in sp.get('nsrc', [])]
                    jobs.append((sp, 'bin', ex.submit(sh, [os.path.join(V, 'engine', 'mknat.sh'), src, sp['bin']] + fl + ns)))
        for sp, k, j in jobs:
            r = j.result()
            if r.returncode:
                s.build_err.append('%s (%s): %s' % (sp['file'], k, r.stdout[-1500:]))
                sp[k] = None

    # ---------------------------------------------------------------- prove
    def prove_one(s, sp, vc, budget, par, hints):
        o = dict(budget=budget, par=par, hints=hints, **sp.get('opts', {}).get(vc, {}))
        o['budget'] = budget
        r = subprocess.run([PY, os.path.join(V, 'engine', 'vcrun.py'), sp['ll'], 'vc_' + vc, json.dumps(o)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try: d = json.loads(r.stdout)
        except Exception: d = dict(vc='vc_' + vc, err='engine: ' + r.stderr[-400:], failures=[], stats={}, obl={}, contracts=[], models=[], functions=[], backend={}, wall=0)
        d['spec'] = sp['file']; d['name'] = vc; d['sp'] = sp
        return d

    def prove(s, budget):
        jobs = []
        for sp in s.p['specs']:
            if not sp.get('prove') or not sp.get('ll'): continue
            hf = os.path.join(V, 'hints', os.path.splitext(sp['file'])[0] + '.json')
            hints = json.load(open(hf)) if os.path.exists(hf) else {}
            for vc in sp['prove'] + (sp.get('deep', []) if s.tier == 'thorough' else []): jobs.append((sp, vc, hints.get(vc)))
        if not jobs: return
        w = max(1, min(len(jobs), NCPU - 1))
        par = max(2, (NCPU + 2) // w)
        with ThreadPoolExecutor(w) as ex:
            fs = [ex.submit(s.prove_one, sp, vc, budget, par, h) for sp, vc, h in jobs]
            s.vcres = [f.result() for f in fs]
        # what only ran out of time (many proofs at once): once more, alone
        if s.viol: return
        for k, r in enumerate(s.vcres):
            if any(f['result'] == 'sat' for f in r['failures']) or r['err'] and not r['err'].startswith('budget') or not (r['err'] or r['failures']): continue
            if s.left() < 260: break
            sp, vc, h = jobs[k]
            n = s.prove_one(sp, vc, min(budget, s.left() - 200), NCPU, h)
            if not n['err'] and not n['failures'] or any(f['result'] == 'sat' for f in n['failures']): s.vcres[k] = n

    # ---------------------------------------------------------------- native
    def replay_values(s, sp, vc, vals):
        f = os.path.join(s.tmp, 'replay_%s_%d.txt' % (vc, len(os.listdir(s.tmp))))
        with open(f, 'w') as o:
            for n, v in vals: o.write('%s\t%s\n' % (n.replace('\t', ' '), v))
        try:
            r = sh([sp['bin']], env=dict(os.environ, VF_NAME=vc, VF_REPLAY=f, ASAN_OPTIONS='detect_leaks=0'), timeout=60)
            return r.returncode != 0 and 'VF-FAIL' in r.stdout, r.stdout, f
        except subprocess.TimeoutExpired: return False, 'timeout', f

    def fuzz_one(s, sp, vc, seed, secs):
        d = tempfile.mkdtemp(prefix='fz_', dir=s.tmp)
        import random
        rnd = random.Random(seed * 1000003 + zlib_(vc))
        os.mkdir(d + '/c')
        for i in range(40):
            n = rnd.choice((3, 8, 20, 60, 200, 500))
            m = rnd.random()
            open(d + '/c/%d' % i, 'wb').write(bytes(rnd.choice((rnd.randrange(256), rnd.randrange(8))) if m < .5 else rnd.randrange(256) for _ in range(n)))
        st = d + '/st.json'
        env = dict(os.environ, VF_NAME=vc, VF_STATS=st, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0')
        try:
            r = sh([sp['bin'], '-seed=%d' % seed, '-max_total_time=%d' % secs, '-use_value_profile=%d' % (seed & 1), '-len_control=0', '-max_len=%d' % sp.get('maxlen', 600),
                    '-detect_leaks=0', '-rss_limit_mb=3000', '-timeout=30', '-artifact_prefix=%s/' % d, '-print_final_stats=0', '-verbosity=1', d + '/c'], env=env, cwd=d, timeout=secs + 120)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired: rc, out = 0, 'timeout'
        stats = {}
        try: stats = json.load(open(st))
        except Exception: pass
        m = re.search(r'Done (\d+) runs', out)
        art = [f for f in os.listdir(d) if f.startswith(('crash-', 'timeout-'))]
        fail = None
        if rc != 0 and art and 'VF-FAIL' in out or any(a.startswith('timeout-') for a in art):
            a = os.path.join(d, art[0])
            # must reproduce on its own
            try:
                q = sh([sp['bin'], a], env=dict(env, VF_TRACE='1'), timeout=100)
                if q.returncode != 0 and ('VF-FAIL' in q.stdout or 'libFuzzer: timeout' in q.stdout): fail = (a, q.stdout)
            except subprocess.TimeoutExpired:
                fail = (a, 'does not terminate within 100 s')
        return dict(spec=sp['file'], vc=vc, seed=seed, runs=int(m.group(1)) if m else stats.get('runs', 0), stats=stats, fail=fail, rc=rc, tail=out[-300:] if rc else '')

    def fuzz(s, secs, k0=0):
        jobs = []
        items = [(sp, vc) for sp in s.p['specs'] if sp.get('native') and sp.get('bin') for vc in sp['native']]
        if not items: return
        reps = max(1, NCPU // len(items))
        for sp, vc in items:
            for k in range(reps): jobs.append((sp, vc, s.seed * 16 + k0 + k, secs))
        with ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(lambda a: s.fuzz_one(*a), jobs))
        for r in rs:
            n = s.nat.setdefault(r['vc'], dict(runs=0, completed=0, covers={}))
            n['runs'] += r['runs']; n['completed'] += r['stats'].get('completed', 0)
            for k, v in r['stats'].get('covers', {}).items(): n['covers'][k] = n['covers'].get(k, 0) + v
            if r['rc'] and not r['fail']: s.notes.append('native %s ended with %d: %s' % (r['vc'], r['rc'], r['tail'][-200:].replace('\n', ' ')))
            if r['fail'] and not s.viol:
                s.report(r['vc'], sp_of(s.p, r['vc']), *r['fail'])

    def report(s, vc, sp, path, out):
        what = 'unknown'
        m = re.search(r'VF-FAIL: (.*)', out)
        if m: what = m.group(1)
        elif 'timeout' in out: what = 'does not terminate'
        site = re.findall(r'(/repo/\S+?:\d+)', out)
        for k in KNOWN.get(s.pid, []):
            if k['vc'] == vc and re.search(k['match'], out):
                s.known.append(k['text']); return
        d = os.path.join(V, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        dst = os.path.join(d, '%s_%s' % (s.pid, vc))
        data = open(path, 'rb').read()
        shutil.copy(path, dst + '.input')
        tr = out.split('VF-TRACE:')[-1][:20000] if 'VF-TRACE' in out else ''
        open(dst + '.txt', 'w').write('property %s\nharness specs/%s VC %s\nfailure: %s\n\nreplay: build with engine/mknat.sh, then VF_NAME=%s VF_TRACE=1 BIN %s.input (or VF_REPLAY=%s.input for a solver counterexample)\n\ninputs drawn by the harness, in order:\n%s\n\noutput:\n%s\n'
                                      % (s.pid, sp['file'], vc, what, vc, dst, dst, tr, out[-6000:]))
        s.viol.append((vc + ': ' + what, dst + '.txt', True))

    # ---------------------------------------------------------------- main
    def main(s):
        thorough = s.tier == 'thorough'
        s.limit = 1500 if thorough else 780
        s.build()
        pb = s.p.get('budget', 240)
        if thorough: pb = pb * 3
        # first a short search on the real code: when it has a failing input, the proofs only have to name the failed obligations
        s.fuzz(s.p.get('fuzz', 12))
        s.prove(min(pb, s.left() - 120) if not s.viol else 60)
        # counterexamples against the real code
        failed, undecided, proved = [], [], []
        for r in s.vcres:
            bad = [f for f in r['failures'] if f['result'] == 'sat']
            if r['err'] or any(f['result'] != 'sat' for f in r['failures']) and not bad: undecided.append(r)
            elif bad: failed.append(r)
            else: proved.append(r)
            for f in r['failures']:
                if not s.viol and f.get('values') and r['sp'].get('bin') and r['name'] in r['sp'].get('native', []):
                    ok, out, path = s.replay_values(r['sp'], r['name'], f['values'])
                    if ok:
                        s.report(r['name'], r['sp'], path, out); break
        for r in s.vcres:
            if r in undecided and [f for f in r['failures'] if f['result'] == 'sat']: failed.append(r)
        nf = 0
        if failed or undecided or s.build_err: nf = 60
        if thorough: nf = 120
        if nf and not s.viol: s.fuzz(max(5, min(nf, s.left() - 60)), 8)
        if s.viol and s.viol[0][2]:
            with open(s.viol[0][1], 'a') as o:
                o.write('\nobligations of the proofs that fail on this tree:\n%s\n' % ('\n'.join('%s: %s at %s (%s)' % (r['name'], x['what'], x['loc'], x['where']) for r in failed for x in r['failures'] if x['result'] == 'sat')
                        or 'none within the time limit (undecided: %s)' % ', '.join(r['name'] for r in undecided)))
        known_unproved = set(s.p.get('bounded', []))
        if not s.viol:
            for r in failed:
                if r['name'] in known_unproved: continue
                if any(k['vc'] == r['name'] and k.get('proof') for k in KNOWN.get(s.pid, [])): continue
                d = os.path.join(V, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
                dst = os.path.join(d, '%s_%s.txt' % (s.pid, r['name']))
                f = [x for x in r['failures'] if x['result'] == 'sat'][0]
                open(dst, 'w').write('property %s\nharness specs/%s VC %s\nfailed obligation: %s at %s (%s)\nverifier model: %s\n\nall failed obligations:\n%s\n\nThe solver model did not reproduce natively, and the native search found no failing input.\n'
                                     % (s.pid, r['spec'], r['name'], f['what'], f['loc'], f['where'], f['values'], '\n'.join('%s at %s: %s' % (x['what'], x['loc'], x['result']) for x in r['failures'])))
                s.viol.append(('%s: %s at %s' % (r['name'], f['what'], f['loc']), dst, False))
                break
        s.evidence(proved, failed, undecided)
        for k in sorted(set(s.known)) or []: print('KNOWN-FINDING: property=%s %s' % (s.pid, k))
        for n in s.notes: print('note:', n)
        for b in s.build_err: print('UNDECIDED (build):', b[-800:])
        for r in undecided: print('UNDECIDED: %s %s %s' % (r['name'], r['err'], [(f['what'], f['loc'], f['result']) for f in r['failures']][:3]))
        print('%s: %d VCs proved, %d failed, %d undecided; native runs %d; %.0f s' % (s.pid, len(proved), len(failed), len(undecided), sum(n['runs'] for n in s.nat.values()), time.time() - s.t0))
        shutil.rmtree(s.tmp, ignore_errors=True)
        if s.viol:
            w, path, conf = s.viol[0]
            print('what:', w)
            print('VIOLATION property=%s replay=%s%s' % (s.pid, path, '' if conf else ' no-failing-input-found'))
            return 1
        return 0

    def evidence(s, proved, failed, undecided):
        ob = sum(r['stats'].get('obligations', 0) for r in s.vcres); di = sum(r['stats'].get('discharged', 0) for r in s.vcres)
        be = {}
        for r in s.vcres:
            for k, v in r['backend'].items(): be[k] = be.get(k, 0) + v
        fns = set(); ext = set(); con = set()
        for r in s.vcres:
            fns |= set(f for f in r['functions'] if not f.startswith(('vc_', '_ZNSt', '_ZSt', '_ZNKSt', '_ZN9__gnu', '__cxx')))
            ext |= set(m for m in r['models'] if not m.startswith('vf_')); con |= set(r['contracts'])
        fd = demangle(sorted(fns)); ed = demangle(sorted(ext))
        repo_f = sorted(set(x for x in fd if 'stored::' in x))
        nobl = [k for r in s.vcres for k in r['obl']]
        cov = dict(obligations=ob, discharged=di, checker_cmd='engine/check.py %s %s: engine/vcrun.py on LLVM IR compiled from /repo this run; back ends z3 (incremental), z3, cvc5 (bit-vectors as integers), cvc5' % (s.pid, s.tier),
                   trusted_base=s.p.get('trusted', []) + ['engine/*.py (path-wise VC generator over LLVM IR, -O0 + sroa/simplifycfg), z3 %s, cvc5, clang 18 front end' % '4/5'] + ['assumed contract: ' + x for x in ed if not x.startswith('llvm.')],
                   functions_under_contract=repo_f[:400], contracts_used_at_calls=demangle(sorted(con)),
                   vcs={r['name']: dict(status='proved' if r in proved else ('failed' if r in failed else 'undecided'), err=r['err'], obligations=r['stats'].get('obligations'), discharged=r['stats'].get('discharged'),
                                        paths=r['stats'].get('paths'), loops_cut=r['stats'].get('loops'), invariants_kept=r['stats'].get('inv_kept'), reachable={k: bool(v) for k, v in r['stats'].get('covers', {}).items()},
                                        solver_s=round(r['stats'].get('solver_s', 0) + r['stats'].get('par_solver_s', 0), 1), wall_s=round(r.get('wall', 0), 1),
                                        failed=[(f['what'], f['loc'], f['result']) for f in r['failures']][:10]) for r in s.vcres},
                   obligations_by_backend=be, named_obligations=len(nobl), sample_obligations=nobl[:12],
                   native_validation={k: v for k, v in s.nat.items()}, bounded_not_proved=s.p.get('bounded', []), build_errors=s.build_err, notes=s.notes)
        ev = sum(n['runs'] for n in s.nat.values())
        cov['evaluations'] = ev; cov['distinct_nontrivial'] = sum(n['completed'] for n in s.nat.values())
        cov['rule'] = 'native runs of the same specification on the real code: byte strings from libFuzzer (seeded) decoded into operations/inputs; non-trivial = the run satisfied every assumption of the specification'
        cov['samples'] = [dict(vc=r['name'], obligation=k) for r in s.vcres for k in list(r['obl'])[:2]][:10]
        level = s.p['level']
        if level == 'proof' and (undecided or s.build_err or not s.vcres):
            cov['explanation'] = 'NOT a full proof on this tree: see vcs/build_errors'
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(dict(property=s.pid, tier=s.tier, seed=s.seed, level=level, coverage=cov, assumptions=s.p.get('assumptions', []), wall_s=round(time.time() - s.t0, 1), violations=len(s.viol)),
                  open(os.path.join(V, 'evidence', s.pid + '.json'), 'w'), indent=1)


def zlib_(x):
    import zlib
    return zlib.crc32(x.encode())


def sp_of(p, vc):
    for sp in p['specs']:
        if vc in sp.get('native', []): return sp


if __name__ == '__main__':
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try: rc = Check(pid, tier).main()
    except Exception:
        import traceback
        traceback.print_exc()
        # a crash of the machinery decides nothing: neither held nor violated
        print('UNDECIDED: internal error of the check, nothing was decided')
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other', coverage=dict(explanation='internal error: ' + traceback.format_exc()[-1500:]), assumptions=[], wall_s=0, violations=0),
                  open(os.path.join(V, 'evidence', pid + '.json'), 'w'))
        rc = 0
    sys.exit(rc)
