#!/usr/bin/env python3
"""usage: tools/catch.py [--all] ID...  -- applies each /verif/seeded/ID to /repo, runs the checks, undoes it."""
import sys, os, json, subprocess, time
all_ = '--all' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir('/verif/seeded'))
props = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
for i in ids:
    d = f'/verif/seeded/{i}'
    meta = json.load(open(d + '/meta.json'))
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True).stdout
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    try:
        hit = []
        for p in (props if all_ else [meta['property']]):
            t = time.time()
            r = subprocess.run(['python3', 'check.py', p, '--tier', 'quick'], cwd='/verif', env=env, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            if r.returncode == 1 and any(f'property={p} ' in l for l in v):
                hit.append(f'{p}({time.time()-t:.0f}s)')
            elif r.returncode:
                hit.append(f'{p}!rc={r.returncode}')
        if not all_:
            cf = '/verif/tools/caught.json'
            c = json.load(open(cf)) if os.path.exists(cf) else {}
            c[i] = meta['property'] if hit and '!' not in hit[0] else 'missed'
            json.dump(c, open(cf, 'w'), indent=0, sort_keys=True)
        print(i, meta['property'], 'caught by' if hit else 'MISSED', *hit, flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
