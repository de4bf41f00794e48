#!/usr/bin/env python3
"""Decide one property: discharge the contract obligations it depends on, and run the companion
search for failing inputs.   usage: python3-vt check.py <property id>"""
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)


if os.environ.get('PYTHONHASHSEED') != '0':      # the same order of everything in every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)


def load_table():
    import contracts
    cs, table, missing = [], {}, []
    for m in contracts.MODULES:
        for c in importlib.import_module('contracts.' + m).CONTRACTS:
            try:
                table[c.load()] = c
                cs.append(c)
            except Exception as e:
                missing.append((c, '%s: %s' % (type(e).__name__, e)))
    return cs, table, missing


def props_of(c):
    return c.tags


def main():
    pid = sys.argv[1]
    if pid == '--fingerprint':          # after a completed proof: record the source it was done on
        load_table()
        with open('contracts/proved-source.txt', 'w') as f:
            json.dump(fingerprint(), f, indent=0, sort_keys=True)
            f.write('\n')
        return
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs('evidence', exist_ok=True)
    os.makedirs('replay', exist_ok=True)

    # companion search, in its own process
    sout = os.path.join(HERE, 'replay', '.search-%s-%d.json' % (pid, os.getpid()))
    limit = {'quick': 25, 'thorough': 300}.get(tier, 25)
    proc = subprocess.Popen([sys.executable, '-B', '-m', 'search.run', pid, '--seconds', str(limit),
                             '--seed', str(seed), '--tier', tier, '--out', sout], cwd=HERE)

    import contracts
    from pyvc import parallel
    from pyvc.contract import Result
    cfg = contracts.PROPS[pid]
    cs, table, missing = load_table()
    by_path = {c.path: c for c in cs}
    jobs = [(c, None if c.use else pid) for c in cs if pid in c.tags]
    jobs = [(c, None if p is None else frozenset([p])) for c, p in jobs]

    def follow(r):
        return [(by_path[u], None) for u in r.used if u in by_path]

    known = load_known(pid)

    def found():
        """Has the search ended with a failing input?"""
        if proc.poll() is None:
            return False
        try:
            with open(sout) as f:
                return any(v['key'] not in known for v in json.load(f)['violations'])
        except (OSError, ValueError):
            return False

    results = {}
    timeout = 10000 if tier == 'quick' else 60000
    log = lambda r: print('  %-62s %-11s %d/%d %.1fs %s' % (
        r.path, r.status, r.discharged, r.total, r.time, r.reason[:160]), flush=True)
    if jobs:
        results = parallel.run(jobs, table, follow, workers=7, budget=450 if tier == 'quick' else 2400,
                               timeout=timeout, log=log, hurry=found)
        # once more with longer time limits, unless the answer is a plain counterexample
        again = [(by_path[p], props) for (p, props), r in results.items() if p in by_path and (
            r.status == 'failed' or r.status == 'unsupported' and 'budget' in r.reason)]
        left = (760 if tier == 'quick' else 4000) - (time.time() - t0)
        if again and left > 30 and not found():
            from pyvc import engine
            engine.SLACK[0] = 4
            for k, r in parallel.run(again, table, lambda r: [], workers=7, budget=left,
                                     timeout=timeout, log=log, hurry=found).items():
                if r.status == 'proved' or results[k].status == 'unsupported':
                    results[k] = r
    for c, why in missing:
        if pid in c.tags:
            r = Result(c.path)
            r.status, r.reason = 'unsupported', 'function not found: ' + why
            results[(c.path, None)] = r

    # the search result
    try:
        proc.wait(timeout=limit * 3 + 120)
    except subprocess.TimeoutExpired:
        proc.kill()
    try:
        sres = json.load(open(sout))
        os.unlink(sout)
    except (OSError, ValueError):
        sres = {'error': 'search process failed (exit %s)' % proc.returncode, 'violations': [],
                'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'rule': ''}
    now, proved = fingerprint(), json.load(open('contracts/proved-source.txt'))
    violations = []
    new = [v for v in sres['violations'] if v['key'] not in known]
    for k, what in known.items():
        if any(v['key'] == k for v in sres.get('known', [])):
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
    failed, weak, beyond = [], [], []
    for r in results.values():
        if r.status == 'failed':
            mine = [f for f in r.failed if pid in f[5] or '*' in f[5]]
            if mine and as_proved(r, now, proved):
                # the very text the proof was completed on: the time limits were too short here
                weak.append((r, mine))
                mine = []
            other = [f for f in r.failed if pid not in f[5] and '*' not in f[5]]
            if mine:
                failed.append((r, mine))
            if other:
                weak.append((r, other))
        elif r.status == 'unsupported':
            beyond.append(r)
    if new:
        violations.append(write_replay(pid, 'input', new, failed))
        print('failing input: %s' % json.dumps(new[0])[:600])
    elif failed:
        violations.append(write_replay(pid, 'obligation', [], failed) + ' no-failing-input-found')
    for r, fs in failed:
        for f in fs[:6]:
            print('FAILED OBLIGATION %s: %s [%s, line %s, %s]' % (r.path, f[0], f[1], f[2], f[3]))

    total = sum(r.total for r in results.values())
    done = sum(r.discharged for r in results.values())
    backends = {}
    for r in results.values():
        for k, n in r.backends.items():
            backends[k] = backends.get(k, 0) + n
    trusted = list(contracts.TRUSTED) + cfg.get('trusted', [])
    trusted += sorted({n for r in results.values() for n in r.notes})
    level = cfg['level']
    cov = {
        'obligations': total, 'discharged': done,
        'checker_cmd': 'python3-vt check.py %s' % pid,
        'trusted_base': trusted,
        'functions_under_contract': {
            r.path: {'status': r.status, 'obligations': r.total, 'discharged': r.discharged,
                     'paths': r.paths, 'seconds': round(r.time, 2),
                     'solver_seconds': round(r.solver_time, 2), 'reason': r.reason,
                     'clauses': {k: '%d/%d' % (b, a) for k, (a, b) in sorted(r.clauses.items())},
                     'executed_in_place': r.inlined, 'uses_contracts_of': r.used}
            for r in sorted(results.values(), key=lambda r: r.path)},
        'back_ends': backends,
        'solver_seconds': round(sum(r.solver_time for r in results.values()), 2),
        'functions_proved': sum(r.status == 'proved' for r in results.values()),
        'functions_beyond_the_verifier': {r.path: r.reason for r in beyond},
        'undischarged_dependencies': {r.path: sorted({f[0] for f in fs}) for r, fs in weak},
        'bounded_stand_in': {
            'label': 'bounded, not counted as proved',
            'covers': cfg.get('bounded', ''),
            'evaluations': sres['evaluations'], 'distinct_nontrivial': sres['distinct_nontrivial'],
            'rule': sres['rule'], 'seconds': limit, 'error': sres.get('error', '')},
        'evaluations': sres['evaluations'], 'distinct_nontrivial': sres['distinct_nontrivial'],
        'rule': sres['rule'], 'samples': sres['samples'] or ['(none)'],
        'explanation': cfg['note'],
    }
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': level, 'coverage': cov, 'assumptions': trusted,
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    with open('evidence/%s.json' % pid, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s: %d/%d obligations discharged in %d functions (%d beyond the verifier), '
          'search: %d inputs, %.1fs' % (pid, done, total, len(results), len(beyond),
                                        sres['evaluations'], time.time() - t0))
    if sres.get('error'):
        print('search error: ' + sres['error'])
        if not violations:
            sys.exit(2)
    if violations:
        print('VIOLATION property=%s replay=%s' % (pid, violations[0]))
        sys.exit(1)
    sys.exit(0)


def fingerprint():
    """{name: hash of its syntax tree} of every function of the library, and of what is left of each
    file without its functions (comments do not matter)."""
    import ast
    import commonmark
    out = {}
    root = os.path.dirname(os.path.abspath(commonmark.__file__))
    sha = lambda n: hashlib.sha1(ast.dump(n).encode()).hexdigest()[:16]

    def strip(node, name):
        body = []
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                key = name + '.' + n.name
                out[key] = hashlib.sha1((out.get(key, '') + sha(n)).encode()).hexdigest()[:16]
            else:
                if isinstance(n, ast.ClassDef):
                    strip(n, name + '.' + n.name)
                body.append(n)
        node.body = body

    for d, ds, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith('.py') and 'tests' not in d[len(root):]:
                p = os.path.join(d, f)
                mod = 'commonmark.' + os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                tree = ast.parse(open(p, encoding='utf-8').read())
                strip(tree, mod)
                out[mod] = sha(tree)
    return out


def as_proved(r, now, proved):
    """Is the function, and everything executed in place in it, the text its proof was completed on?"""
    names = [r.path] + [n for n in r.inlined if n.startswith('commonmark.')]
    mods = [k for k in set(now) | set(proved) if now.get(k) != proved.get(k)]
    if any(is_module(k, now) or is_module(k, proved) for k in mods):
        return False
    return all(now.get(n) is not None and now.get(n) == proved.get(n) for n in names)


def is_module(k, table):
    return any(x.startswith(k + '.') for x in table)


def load_known(pid):
    """{key: description} of the findings listed for the property."""
    out = {}
    try:
        for line in open('known-findings.txt', encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                key, what = line.split(' ', 2)[2].split(' ', 1)
                out[key.split('=', 1)[1]] = what
    except OSError:
        pass
    return out


def write_replay(pid, kind, cases, failed):
    doc = {'property': pid, 'kind': kind,
           'rerun': 'python3-vt -m search.run %s --replay <this file>' % pid if cases else
                    'python3-vt check.py %s' % pid,
           'failing_inputs': cases[:10],
           'failed_obligations': [
               {'function': r.path, 'obligation': f[0], 'kind': f[1], 'line': f[2],
                'verdict': f[3], 'verifier_output': f[4]} for r, fs in failed for f in fs[:8]]}
    s = json.dumps(doc, indent=1)
    path = 'replay/%s-%s.json' % (pid, hashlib.sha1(s.encode()).hexdigest()[:10])
    with open(path, 'w') as f:
        f.write(s)
    return os.path.join(HERE, path)


if __name__ == '__main__':
    main()
