"""Run verification tasks in forked processes (one per contract), at most N at a time."""
import multiprocessing as mp
import os
import time
from multiprocessing.connection import wait as mpwait

from .contract import Result, verify

_ctx = mp.get_context('fork')


def _child(conn, contract, table, props, timeout):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        r = verify(contract, table, props, timeout)
    except BaseException as e:              # the verifier itself failed
        r = Result(contract.path)
        r.status, r.reason = 'unsupported', 'verifier error %s: %s' % (type(e).__name__, str(e)[:200])
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def run(jobs, table, follow, workers=8, budget=600, timeout=8000, log=None, hurry=None):
    """jobs: [(contract, props|None)]; follow(result) -> further jobs.  Results by path.
    hurry() -> is a failing input known, so that only a little time is left?"""
    todo = sorted(jobs, key=lambda j: -j[0].cost)
    live, results = {}, {}
    end = time.time() + budget
    seen = {(c.path, p) for c, p in jobs}
    while todo or live:
        while todo and len(live) < workers:
            c, props = todo.pop(0)
            a, b = _ctx.Pipe(False)
            p = _ctx.Process(target=_child, args=(b, c, table, props, timeout))
            p.start()
            b.close()
            live[a] = (p, c, props, time.time())
        left = end - time.time()
        if hurry is not None and hurry():
            end, hurry = min(end, time.time() + 40), None
        for conn in mpwait(list(live), timeout=max(0.05, min(1.0, left))):
            p, c, props, t = live.pop(conn)
            try:
                r = conn.recv()
            except EOFError:
                r = Result(c.path)
                r.status, r.reason = 'unsupported', 'verifier process ended'
            p.join(5)
            conn.close()
            results[(c.path, props)] = r
            if log:
                log(r)
            for j in follow(r):
                if (j[0].path, j[1]) not in seen:
                    seen.add((j[0].path, j[1]))
                    todo.append(j)
        if time.time() > end:
            for conn, (p, c, props, t) in live.items():
                p.kill()
                r = Result(c.path)
                r.status, r.reason = 'unsupported', 'time budget of the check'
                results[(c.path, props)] = r
            for c, props in todo:
                r = Result(c.path)
                r.status, r.reason = 'unsupported', 'time budget of the check'
                results[(c.path, props)] = r
            break
    return results
