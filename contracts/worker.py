"""Discharges the obligations of one property on the current source; prints JSON."""
import json
import multiprocessing as mp
import os
import sys
import time

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

from vc import core as C
from contracts import cex
from contracts.base import Ledger


def find(pid):
    from contracts import numeric
    f = getattr(numeric, pid.lower(), None)
    if f is None:
        from contracts import iocli
        f = getattr(iocli, pid.lower(), None)
    if f is None:
        from contracts import ranges
        f = getattr(ranges, pid.lower(), None)
    return f


def shard(pid, k, n, limit, deadline, q):
    try:
        C.reset_caches()
        led = Ledger(pid, k, n, limit, deadline)
        t0 = time.time()
        z0, zt0 = C.stats.z3_queries, C.stats.z3_time
        find(pid)(led)
        obs, cands = [], []
        for o in led.obs:
            d = {'name': o.name, 'status': o.status, 'backend': o.backend, 'seconds': round(o.time, 3)}
            if o.status != 'proved':
                d['detail'] = o.detail
                if hasattr(o, 'tb'):
                    d['traceback'] = o.tb
            if o.status == 'failed' and len(cands) < 40:
                try:
                    verdict, inst = cex.numeric(o, deadline=time.time() + 10)
                except Exception as e:
                    verdict, inst = 'unknown', None
                    d['cex_error'] = repr(e)
                d['numeric'] = verdict
                case = getattr(o, 'case', None)
                if verdict == 'disagree' and (inst or case):
                    cands.append(dict(inst or {}, **({'case': case} if case else {})))
                    d['candidate'] = True
                try:
                    cands += [dict(m, **({'case': case} if case else {})) for m in cex.models(o)]
                except Exception as e:
                    d['model_error'] = repr(e)
            obs.append(d)
        q.put((k, {'obs': obs, 'cands': cands, 'functions': sorted(led.functions), 'paths': led.paths, 'known': led.known,
                   'notes': led.notes, 'z3_queries': C.stats.z3_queries - z0, 'z3_seconds': C.stats.z3_time - zt0,
                   'seconds': time.time() - t0}))
    except BaseException as e:
        import traceback
        q.put((k, {'obs': [{'name': 'shard %d' % k, 'status': 'unsupported', 'backend': '', 'seconds': 0,
                            'detail': 'engine: %r' % (e,), 'traceback': traceback.format_exc()[-1500:]}], 'cands': [], 'functions': [],
                   'paths': 0, 'known': [], 'notes': [], 'z3_queries': 0, 'z3_seconds': 0, 'seconds': 0}))


def main():
    pid = sys.argv[1]
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 6
    budget = float(sys.argv[3]) if len(sys.argv) > 3 else 400
    result = os.fdopen(os.dup(1), 'w')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    ctxm = mp.get_context('fork')
    q = ctxm.SimpleQueue()
    find(pid)
    deadline = time.time() + budget
    ps = [ctxm.Process(target=shard, args=(pid, k, n, min(150., budget), deadline, q)) for k in range(n)]
    for p in ps:
        p.start()
    res = {}
    reader = q._reader
    while len(res) < n and time.time() < deadline + 60:
        if reader.poll(1.0):
            k, r = q.get()
            res[k] = r
        elif not any(p.is_alive() for p in ps) and not reader.poll(0.2):
            break
    for p in ps:
        if p.is_alive():
            p.kill()
    out = {'obs': [], 'cands': [], 'functions': set(), 'paths': 0, 'known': [], 'notes': [], 'z3_queries': 0, 'z3_seconds': 0.}
    for k in range(n):
        r = res.get(k)
        if r is None:
            out['obs'].append({'name': 'shard %d' % k, 'status': 'unsupported', 'backend': '', 'seconds': 0, 'detail': 'no answer (time or memory)'})
            continue
        for key in ('obs', 'cands', 'known', 'notes'):
            out[key] += r[key]
        out['functions'] |= set(r['functions'])
        for key in ('paths', 'z3_queries', 'z3_seconds'):
            out[key] += r[key]
    out['functions'] = sorted(out['functions'])
    json.dump(out, result)
    result.flush()


if __name__ == '__main__':
    main()
