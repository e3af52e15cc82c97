"""Run-time companion: checks one property of the real code on a corpus of inputs and on the
candidates derived from the verifier's counterexamples.  Runs in the project's own environment."""
import json
import os
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VC_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
warnings.filterwarnings('ignore')

import numpy as np
np.seterr(all='ignore')
import gen


def main():
    req = json.load(sys.stdin)
    result = os.fdopen(os.dup(1), 'w')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)                    # whatever the code prints is no result
    pid, seed, tier = req['property'], req.get('seed', 1), req.get('tier', 'quick')
    budget = req.get('budget', 60)
    import occuprob
    assert os.path.realpath(os.path.dirname(os.path.dirname(occuprob.__file__))) == os.path.realpath(REPO), occuprob.__file__
    known = []
    out = {'property': pid, 'instances': 0, 'witness': None, 'known': [], 'stopped': None}
    t0 = time.time()
    if pid in ('C17', 'C18', 'C19', 'C20', 'C21'):
        import iocli as mod
        insts = mod.instances(pid, REPO, seed, tier)
        fail = mod.Fail
    else:
        import props as mod
        insts = gen.instances(REPO, seed, tier)
        for i in insts:                 # frequencies and energies are floats except where it matters
            if pid not in ('C04', 'C05', 'C22') and i['nu'].dtype.kind == 'i':
                i['nu'] = i['nu'].astype(float)
            if pid not in ('C02', 'C03') and i['E'].dtype.kind == 'i':
                i['E'] = i['E'].astype(float)
        fail = mod.Fail
    cands = []
    for c in req.get('candidates', []):
        try:
            c = gen.from_json(c)
            cands += mod.convert(pid, c) if hasattr(mod, 'convert') else [c]
        except Exception:
            pass
    if req.get('only'):
        insts = []
    check = getattr(mod, pid.lower())
    order, n = [], max(len(cands), len(insts))       # alternating, so that neither exhausts the time alone
    for k in range(n):
        order += [(i, who[0]) for who in (('counterexample of the verifier', cands), ('corpus', insts)) for i in who[1][k:k + 1]]
    for n, (i, source) in enumerate(order):
        if time.time() - t0 > budget:
            out['stopped'] = 'time budget after %d inputs' % n
            break
        out['instances'] += 1
        try:
            check(i, known)
        except fail as e:
            out['witness'] = {'message': str(e), 'input': gen.to_json(i), 'from': source}
            break
    out['known'] = known[:3]
    out['seconds'] = round(time.time() - t0, 2)
    json.dump(out, result)
    result.flush()


if __name__ == '__main__':
    main()
