"""Companion search: run the real code of one property's functions against executable oracles on
generated inputs.  Finds failing inputs for failed obligations and stands in (bounded) for
functions the verifier cannot reach.  A VIOLATION found here is always a concrete failing input."""
import argparse
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

REPO = os.environ.get('PYVC_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


class Timeout(Exception):
    pass


def on_alarm(sig, frame):
    raise Timeout()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--seconds', type=float, default=40)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--replay')
    a = ap.parse_args()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    signal.signal(signal.SIGVTALRM, on_alarm)
    from search import oracles
    o = oracles.ORACLES[a.pid]
    if a.replay:
        doc = json.load(open(a.replay))
        bad = 0
        for v in doc['failing_inputs']:
            r = judge(o, revive(v['case']))
            print('%s: %s' % (json.dumps(v['case'])[:300], r or 'holds'))
            bad += r is not None
        sys.exit(1 if bad else 0)

    # one process per seed stream
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    n = 3 if a.tier == 'quick' else 6
    q = ctx.Queue()
    ps = [ctx.Process(target=stream, args=(a.pid, a.seed, i, n, a.seconds, q)) for i in range(n)]
    for p in ps:
        p.start()
    tot = {'violations': [], 'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [],
           'rule': o.rule, 'known': [], 'skipped': 0}
    errs = []
    end = time.time() + a.seconds * 2 + 90
    got = 0
    while got < n and time.time() < end:
        try:
            r = q.get(timeout=1)
        except Exception:
            if all(not p.is_alive() for p in ps) and q.empty():
                break
            continue
        got += 1
        if r.get('error'):
            errs.append(r['error'])
        tot['violations'] += r['violations']
        for k in ('evaluations', 'distinct_nontrivial', 'skipped'):
            tot[k] += r[k]
        tot['samples'] += r['samples']
    if got < n:
        errs.append('%d of %d search processes gave no result' % (n - got, n))
        for p in ps:
            p.kill()
    for p in ps:
        p.join(1)
    tot['samples'] = tot['samples'][:6]
    tot['violations'].sort(key=lambda v: (len(json.dumps(v['case'])), json.dumps(v['case'])))
    for c in oracles.KNOWN_CASES.get(a.pid, []):
        r = judge(o, c)
        if r is not None:
            tot['known'].append({'key': key_of(c), 'case': c, 'what': r})
    if errs and not tot['evaluations']:
        tot['error'] = '; '.join(errs)[:500]
    elif errs:
        tot['note'] = '; '.join(errs)[:500]
    s = json.dumps(tot, default=repr)
    if a.out:
        with open(a.out, 'w') as f:
            f.write(s)
    else:
        print(s[:3000])


def revive(c):
    return c


def key_of(case):
    import hashlib
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=repr).encode()).hexdigest()[:12]


LIMIT = 10.0


def judge(o, case):
    """None when the property holds on the case, else what failed."""
    signal.setitimer(signal.ITIMER_VIRTUAL, LIMIT)
    try:
        return o.check(case)
    except Timeout:
        return o.on_timeout
    except RecursionError:
        return None
    except MemoryError:
        return 'out of memory' if o.on_timeout else None
    except AssertionError as e:
        return o.on_error and 'exception AssertionError %s' % e
    except Exception as e:
        if o.on_error:
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = [f for f in tb if REPO in f.filename]
            if where:
                return 'exception %s: %s at %s:%d' % (type(e).__name__, str(e)[:100],
                                                      os.path.basename(where[-1].filename),
                                                      where[-1].lineno)
        return None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def stream(pid, seed, i, n, seconds, q):
    res = {'violations': [], 'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'skipped': 0}
    try:
        from search import oracles
        o = oracles.ORACLES[pid]
        rng = random.Random('%s/%d/%d' % (pid, seed, i))
        seen = set()
        end = time.time() + seconds
        devnull = open(os.devnull, 'w')
        sys.stdout = devnull
        for case in o.cases(rng, i, n):
            if time.time() > end or len(res['violations']) >= 3:
                break
            k = json.dumps(case, sort_keys=True, default=repr)
            h = hash(k)
            if h in seen:
                continue
            if len(seen) < 3000000:
                seen.add(h)
            res['evaluations'] += 1
            if o.nontrivial(case):
                res['distinct_nontrivial'] += 1
                if len(res['samples']) < 3 and rng.random() < .2:
                    res['samples'].append(case)
            r = judge(o, case)
            if r is not None:
                case = shrink(o, case, min(end, time.time() + 8))
                r = judge(o, case) or r
                res['violations'].append({'case': case, 'what': r, 'key': key_of(case)})
    except Exception:
        res['error'] = traceback.format_exc()[-600:]
    q.put(res)


def shrink(o, case, end):
    """Greedy deletion on the strings of a case."""
    if not o.shrinkable:
        return case
    best = case
    progress = True
    while progress and time.time() < end:
        progress = False
        for c in smaller(best):
            if time.time() > end:
                break
            try:
                if judge(o, c) is not None:
                    best, progress = c, True
                    break
            except Exception:
                pass
    return best


def smaller(c):
    if isinstance(c, str):
        for w in (len(c) // 2, len(c) // 4, 2, 1):
            if w < 1:
                continue
            for i in range(0, len(c) - w + 1, max(1, w)):
                yield c[:i] + c[i + w:]
    elif isinstance(c, list):
        for i, x in enumerate(c):
            if isinstance(x, str) and len(x) > 0:
                for y in smaller(x):
                    yield c[:i] + [y] + c[i + 1:]


if __name__ == '__main__':
    main()
