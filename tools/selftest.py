"""Evidence for the trusted base: the assumed NumPy/Python contracts against the real NumPy and
Python, and the analysis facts behind the term rules in Lean.  Prints; never fails a setup."""
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, limit):
    try:
        r = subprocess.run(cmd, cwd=HERE, capture_output=True, text=True, timeout=limit,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'))
        return r.returncode, r.stdout + r.stderr
    except (subprocess.TimeoutExpired, OSError) as e:
        return -1, repr(e)


def selftest(repo=True):
    rc, out = run(['python3-vt', '-m', 'contracts.conformance'] + ([] if repo else ['--norepo']), 500)
    m = re.search(r'(\d+) snippets agree, (\d+) not supported by the engine, (\d+) differ', out)
    res = {'conformance': {'agree': int(m[1]), 'unsupported': int(m[2]), 'differ': int(m[3]),
                           'differing': re.findall(r'^differs: .*', out, re.M)[:10]} if m else {'error': out[-300:]}}
    rc, out = run(['lean', 'lean/Lemmas.lean'], 400)
    src = open(os.path.join(HERE, 'lean', 'Lemmas.lean')).read()
    axioms = sorted(set(a.strip() for x in re.findall(r'depends on axioms: \[(.*?)\]', out, re.S) for a in x.split(',')))
    res['lean'] = {'accepted': rc == 0 and 'error' not in out, 'theorems': len(re.findall(r'^(?:theorem|lemma) ', src, re.M)),
                   'axioms': axioms}
    if not res['lean']['accepted']:
        res['lean']['output'] = out[-300:]
    return res


if __name__ == '__main__':
    print(json.dumps(selftest('--repo' in sys.argv), indent=1))
