#!/usr/bin/env python3
"""Compare what the executive does in a scenario with what it should do."""
import json, os, subprocess, sys, tempfile, shutil


def norm(r):
    r = dict(r)
    r.pop('lk', None)
    for k in ('tr', 'cm', 'up', 'ab', 'th'):
        if k in r:
            r[k] = sorted(r[k], key=lambda x: json.dumps(x, sort_keys=True))
    return r


def main():
    here, driver, want = os.path.dirname(os.path.abspath(__file__)), sys.argv[1], sys.argv[2]
    w = tempfile.mkdtemp(prefix='demo')
    try:
        subprocess.run([driver, os.path.join(here, 'scenario.txt'), w, '1'],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        log = [f for f in os.listdir(w) if f.endswith('.log')]
        got = [norm(r) for r in json.loads('[' + open(os.path.join(w, log[0])).read() + ']')]
    finally:
        shutil.rmtree(w)
    if want == 'record':
        json.dump(got, open(os.path.join(here, 'expect.json'), 'w'))
        return 0
    exp = json.load(open(os.path.join(here, 'expect.json')))
    for i, (a, b) in enumerate(zip(exp, got)):
        if a != b:
            print('record', i + 1)
            print(' expected', json.dumps({k: v for k, v in a.items() if b.get(k) != v})[:600])
            print(' got     ', json.dumps({k: v for k, v in b.items() if a.get(k) != v})[:600])
            return 1
    if len(exp) != len(got):
        print('expected', len(exp), 'records, got', len(got))
        return 1
    print('as expected')
    return 0


sys.exit(main())
