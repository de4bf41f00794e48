"""Create /verif/seeded/<id>/ from edits (old text -> new text) and confirm each in a scratch copy:
applies, builds, passes the stable tests, demo passes unchanged and fails with it.

usage: mkseeds.py SEEDS.py [pattern]
"""
import importlib.util, json, os, re, shutil, subprocess, sys

SCRATCH = '/tmp/seedwork'
OUT = '/verif/seeded'
DEMO = '''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec "$PY" "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    spec = importlib.util.spec_from_file_location('seeds', sys.argv[1])
    mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    base = json.load(open('/opt/vp/BASELINE.json'))
    for s in mod.SEEDS:
        if not re.search(pat, s['id']):
            continue
        d = os.path.join(OUT, s['id'])
        os.makedirs(d, exist_ok=True)
        with open(d + '/demo.sh', 'w') as f: f.write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        with open(d + '/demo.py', 'w') as f: f.write(s['demo'].lstrip('\n'))
        with open(d + '/meta.json', 'w') as f:
            json.dump({'property': s['property'], 'needs': s['needs'],
                       'what_it_breaks': s['breaks']}, f, indent=1); f.write('\n')
        r0 = sh('sh %s/demo.sh' % d, cwd='/repo')
        ok = []
        if r0.returncode: ok.append('demo fails on clean tree: ' + r0.stderr[-300:])
        try:
            for fn, old, new in s['edits']:
                p = '/repo/' + fn
                t = open(p, encoding='utf-8', newline='').read()
                n = t.count(old)
                if n != 1: ok.append('%s: %d matches' % (fn, n)); continue
                open(p, 'w', encoding='utf-8', newline='').write(t.replace(old, new))
            diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True).stdout
            open(d + '/patch.diff', 'wb').write(diff)
            b = sh('bash /opt/vp/build.sh')
            if b.returncode: ok.append('build')
            t = sh('bash /opt/vp/test.sh /tmp/seed.json')
            res = json.load(open('/tmp/seed.json'))
            bad = failures(base, res)
            if bad: ok.append('tests fail: %s' % bad[:3])
            r1 = sh('timeout 280 sh %s/demo.sh' % d, cwd='/repo')
            if r1.returncode == 0: ok.append('demo passes with the patch')
        finally:
            sh('git -C /repo checkout -- .')
        print(s['id'], s['property'], 'OK' if not ok else ok, flush=True)


def failures(base, res):
    def passed(x):
        if isinstance(x, dict):
            for k in ('passed', 'stable', 'pass'):
                if k in x: return set(map(str, x[k]))
        return None
    b, r = passed(base), passed(res)
    return sorted(b - r)


main()
