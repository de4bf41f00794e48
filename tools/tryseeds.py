"""Apply each seeded change to /repo, run its property's check, undo; print what the check said.
usage: tryseeds.py [pattern]   (development only; no check uses it)"""
import json, os, re, subprocess, sys, time
pat = sys.argv[1] if len(sys.argv) > 1 else ''
man = {c['property_id'] if 'property_id' in c else c['property']: c for c in json.load(open('/verif/MANIFEST.json')).get('checks', json.load(open('/verif/MANIFEST.json')).get('properties', []))}
for d in sorted(os.listdir('/verif/seeded')):
    if not re.search(pat, d): continue
    meta = json.load(open('/verif/seeded/%s/meta.json' % d))
    p = meta['property']
    env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
    subprocess.run(['git', '-C', '/repo', 'apply', '/verif/seeded/%s/patch.diff' % d], check=True)
    t = time.time()
    try:
        r = subprocess.run(['python3-vt', 'check.py', p], cwd='/verif', env=env, capture_output=True, text=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
    lines = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    print(d, p, 'rc=%d' % r.returncode, '%.0fs' % (time.time() - t), lines[:2] or r.stderr[-300:], flush=True)
