#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's current source.

1. contracts/worker.py (python3-vt) loads the real modules from /repo, generates the obligations of
   the contract of this property and discharges them.
2. oracle/run.py (the project's own interpreter) replays the counterexamples of failed obligations,
   and a bounded corpus, against the real code.
Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line was printed."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VC_REPO', '/repo')
PY = os.environ.get('VC_PY', '/opt/venv/bin/python')

TRUSTED = [
    'vc/loader.py: the Python semantics given to the real source (parsed from /repo on every run)',
    'vc/symnp.py: the contracts assumed for NumPy operations (compared with real NumPy by contracts/conformance.py)',
    'vc/terms.py, vc/core.py: term normaliser, case splitter and the rules for sums, minima, exp, log '
    '(the real-analysis facts behind the rules are proved in lean/Lemmas.lean)',
    'z3 (nonlinear real arithmetic with uninterpreted functions) for the queries it answers unsat',
    'machine arithmetic treated as real arithmetic (float64 and longdouble rounding, overflow and underflow are not part '
    'of the obligations, except the range obligations of C23)',
]


def known_findings(pid):
    out = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            p = line.split()
            if p[:1] == ['finding:'] and p[1] == 'property=' + pid:
                out[p[2].split('=', 1)[1]] = ' '.join(p[3:])
    return out


def run_worker(pid, budget):
    shards = max(2, min(7, (os.cpu_count() or 4) - 1))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VC_REPO=REPO)
    try:
        r = subprocess.run(['python3-vt', '-m', 'contracts.worker', pid, str(shards), str(budget)], cwd=HERE, env=env,
                           capture_output=True, text=True, timeout=budget + 120)
        return json.loads(r.stdout), r.stderr[-2000:]
    except (subprocess.TimeoutExpired, ValueError) as e:
        err = getattr(e, 'stderr', None) or (r.stderr if not isinstance(e, subprocess.TimeoutExpired) else '')
        return None, 'worker gave no answer: %r %s' % (e, str(err)[-2000:])


def run_oracle(pid, seed, tier, budget, cands, only=False):
    scratch = tempfile.mkdtemp(prefix='vc-oracle-')
    try:
        mpl = os.path.join(scratch, 'mpl')
        if os.path.isdir('/opt/vp/cache/mpl'):
            shutil.copytree('/opt/vp/cache/mpl', mpl)
        else:
            os.mkdir(mpl)
        env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHOME')}
        env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', MPLBACKEND='Agg', MPLCONFIGDIR=mpl,
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VC_REPO=REPO, TMPDIR=scratch)
        req = {'property': pid, 'seed': seed, 'tier': tier, 'budget': budget, 'candidates': cands, 'only': only}
        try:
            r = subprocess.run([PY, os.path.join(HERE, 'oracle', 'run.py')], input=json.dumps(req), cwd=scratch, env=env,
                               capture_output=True, text=True, timeout=budget + 150)
            return json.loads(r.stdout), r.stderr[-2000:]
        except subprocess.TimeoutExpired:
            return {'instances': 0, 'witness': None, 'known': [], 'stopped': 'time limit', 'seconds': budget + 150}, 'time limit'
        except ValueError:
            return None, 'companion gave no answer (exit %s): %s' % (r.returncode, r.stderr[-2000:])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    tier = 'thorough' if tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    budget = 330 if tier == 'quick' else 1500
    obudget = 90 if tier == 'quick' else 1200

    w, werr = run_worker(pid, budget)
    if w is None:
        w = {'obs': [], 'cands': [], 'functions': [], 'paths': 0, 'known': [], 'notes': [werr], 'z3_queries': 0, 'z3_seconds': 0}
    obs = w['obs']
    failed = [o for o in obs if o['status'] == 'failed']
    unsup = [o for o in obs if o['status'] not in ('failed', 'proved')]
    proved = [o for o in obs if o['status'] == 'proved']

    orc, oerr = run_oracle(pid, seed, tier, obudget, w['cands'])
    lines, violations, code = [], 0, 0
    replay = os.path.join(HERE, 'replays', pid + '.json')
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if os.path.exists(replay):
        os.remove(replay)

    def violation(kind, tail='', **rec):
        nonlocal violations, code
        violations += 1
        code = 1
        rec.update(property=pid, kind=kind, repo=REPO, failed_obligations=failed[:20])
        with open(replay, 'w') as f:
            json.dump(rec, f, indent=1)
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, replay, tail))

    listed = known_findings(pid)
    unlisted = [k for k in {k for k, _ in w['known']} if k not in listed]
    hit = {k for k, _ in w['known'] if k in listed}
    if orc and orc['known'] and listed:
        hit |= set(listed)
    for k in sorted(hit):
        lines.append('KNOWN-FINDING: property=%s %s' % (pid, listed[k]))

    standins = [o['name'] for o in failed + unsup]
    if orc and orc['witness']:
        wit = orc['witness']
        for o in failed[:10]:
            lines.append('failed obligation: ' + o['name'])
        for o in unsup[:10]:
            lines.append('obligation not discharged: ' + o['name'])
        lines.append('on the real code: ' + wit['message'][:600])
        violation('input', witness=wit, how='python3 %s/replay.py %s' % (HERE, replay))
    elif orc and orc['known'] and not listed:
        violation('input', witness={'message': orc['known'][0]})
    elif unlisted:
        violation('obligation', ' no-failing-input-found', detail=unlisted)
    else:
        # clauses refuted over the contract's own input symbols with no input of the real code to show for it
        hard = [o for o in failed if o.get('numeric') == 'disagree' and not (o.get('candidate') and orc and orc['instances'])]
        if hard:
            for o in hard[:10]:
                lines.append('failed obligation: ' + o['name'])
            violation('obligation', ' no-failing-input-found', obligations=hard)
        elif not proved and not (orc and orc['instances']):
            print('nothing was decided: %s %s' % (werr, oerr))
            code = 2

    if code == 0 and orc is None:
        print(oerr)
        if failed or unsup or not proved:
            code = 2
    if code == 0 and not proved and not w['known']:
        lines.append('note: no obligation was discharged; the result rests on the bounded companion alone')

    backends, secs = {}, 0.
    for o in proved:
        backends[o['backend']] = backends.get(o['backend'], 0) + 1
    for o in obs:
        secs += o.get('seconds', 0)
    cov = {
        'obligations': len(obs), 'discharged': len(proved), 'failed': len(failed), 'unsupported': len(unsup),
        'checker_cmd': 'python3-vt -m contracts.worker ' + pid, 'trusted_base': TRUSTED,
        'functions_under_contract': w['functions'], 'paths': w['paths'], 'back_ends': backends,
        'obligation_seconds': round(secs, 2), 'z3_queries': w['z3_queries'], 'z3_seconds': round(w['z3_seconds'], 2),
        'obligation_names': [o['name'] for o in proved][:400],
        'undischarged': [{k: o.get(k) for k in ('name', 'status', 'detail', 'numeric')} for o in failed + unsup][:60],
        'bounded': {
            'what': 'run-time companion on the real code, never counted as proved: corpus of inputs and replay of counterexamples',
            'stands_in_for': standins[:60],
            'inputs': orc['instances'] if orc else 0, 'counterexamples_replayed': len(w['cands']),
            'stopped': orc['stopped'] if orc else oerr, 'seconds': orc.get('seconds') if orc else None},
        'notes': w['notes'],
    }
    if tier == 'thorough':
        sys.path.insert(0, os.path.join(HERE, 'tools'))
        from selftest import selftest
        cov['trusted_base_tests'] = selftest()
    for o in cov['undischarged']:
        if o.get('detail'):
            o['detail'] = str(o['detail'])[:600]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': ASSUME.get('*', []) + ASSUME.get(pid, []), 'wall_s': round(time.time() - t0, 2), 'violations': violations}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    lines.append('%s: %d obligations, %d discharged, %d failed, %d unsupported; companion: %s inputs; %.0f s' % (
        pid, len(obs), len(proved), len(failed), len(unsup), orc['instances'] if orc else 'none', time.time() - t0))
    for s in lines:
        print(s)
    sys.exit(code)


with open(os.path.join(HERE, 'assumptions.json')) as f:
    ASSUME = json.load(f)

if __name__ == '__main__':
    main()
