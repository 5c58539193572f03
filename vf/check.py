import argparse, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner, spec
ap = argparse.ArgumentParser(); ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--run'); a = ap.parse_args()
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
p = spec.PROPS[a.id]
runs = p['runs'](a.tier)
if a.run: runs = [r for r in runs if r.name == a.run]
known = []
kf = os.path.join(runner.V, 'known_findings.jsonl')
if os.path.exists(kf):
    for l in open(kf):
        l = l.strip()
        if l.startswith('{'): known.append(json.loads(l))
try:
    sys.exit(runner.check(a.id, p, runs, a.tier, seed, p.get('assumptions', []) + spec.COMMON, known))
except RuntimeError as e:
    if os.environ.get("VF_DEBUG"): raise
    print('check error: %s' % e); sys.exit(2)
