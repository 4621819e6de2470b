"""learn.py <property> [vc...]: full inference, then store the invariant names per loop in hints/ (offline tool)."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
pid = sys.argv[1]
c = check.Check(pid, 'quick'); c.limit = 4000
os.makedirs(check.V + '/hints', exist_ok=True)
for sp in c.p['specs']: sp['native'] = []
c.build()
print(c.build_err)
for sp in c.p['specs']:
    if not sp.get('prove'): continue
    hf = os.path.join(check.V, 'hints', os.path.splitext(sp['file'])[0] + '.json')
    h = json.load(open(hf)) if os.path.exists(hf) else {}
    for vc in sp['prove']:
        if len(sys.argv) > 2 and vc not in sys.argv[2:]: continue
        r = c.prove_one(sp, vc, 1500, 7, None)
        print(vc, r['err'], len(r['failures']), {k: r['stats'].get(k) for k in ('obligations', 'discharged', 'covers', 'inv_cands', 'inv_kept')}, round(r.get('wall', 0)), flush=True)
        for f in r['failures'][:6]: print('   FAIL', f)
        if not r['err'] and not r['failures']:
            h[vc] = r['learnt']
            json.dump(h, open(hf, 'w'), indent=0, sort_keys=True)
import shutil; shutil.rmtree(c.tmp)
