#!/usr/bin/env python3
"""replay.py <replay file>: runs the recorded input against the real code again (exit 1: still fails)."""
import json
import sys

import check

rec = json.load(open(sys.argv[1]))
if rec['kind'] != 'input' or 'input' not in rec.get('witness', {}):
    print('no input recorded; failed obligations:')
    for o in rec.get('obligations', rec['failed_obligations']):
        print(' ', o['name'], '\n     ', str(o.get('detail'))[:1500])
    sys.exit(1)
r, err = check.run_oracle(rec['property'], 1, 'quick', 120, [rec['witness']['input']], only=True)
print(r['witness']['message'] if r and r['witness'] else 'the input passes now' if r else err)
sys.exit(1 if not r or r['witness'] else 0)
