#!/usr/bin/env python3
"""Compile, run, compare."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, 'lib'))
import ple


def pct(core):
    return ''.join(c if c.isalnum() or c in '<>/=_."-' else '%%%02X' % b for c in core for b in c.encode())


def norm(r):
    r = dict(r)
    r.pop('lk', None)
    for k in ('tr', 'cm', 'up', 'ab', 'th'):
        if k in r:
            r[k] = sorted(r[k], key=lambda x: json.dumps(x, sort_keys=True))
    return r


def main():
    driver, work, home, want = sys.argv[1:]
    ext = os.path.exists(os.path.join(here, 'ext.txt'))
    c = json.load(open(os.path.join(here, 'ext.txt' if ext else 'sources.json')))
    sources = {c['id']: c['source']} if ext else c['sources']
    got, core = [], {}
    for n, (st, text) in sorted(ple.compile_all(sources, work, 1).items()):
        got.append({'program': n, 'status': st})
        core[n] = text
        if st != 'ok':
            print(n, st, text[:400])
    if all(g['status'] == 'ok' for g in got):
        if ext:
            text = '\n'.join(['BEGIN ' + c['id']] + ['start %s %s:%d' % (n, v[0], v[1]) for n, v in c['first']] +
                             ['plan ' + pct(core[c['id']]), 'idle'] + c['ops'] + ['END', ''])
        else:
            text = open(os.path.join(here, 'scenario.txt')).read()
            for n in core:
                text = text.replace('@@%s@@' % n, pct(core[n]))
        f = os.path.join(work, 'scenario.txt')
        open(f, 'w').write(text)
        logs = os.path.join(work, 'logs')
        os.mkdir(logs)
        subprocess.run([driver, f, logs, '1'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for x in sorted(os.listdir(logs)):
            if x.endswith('.log'):
                got += [norm(r) for r in json.loads('[' + open(os.path.join(logs, x)).read() + ']')]
    if want == 'record':
        json.dump(got, open(os.path.join(home, 'expect.json'), 'w'))
        return 0
    exp = json.load(open(os.path.join(here, 'expect.json')))
    for i, (a, b) in enumerate(zip(exp, got)):
        if a != b:
            print('record', i + 1)
            print(' expected', json.dumps(a)[:600])
            print(' got     ', json.dumps(b)[:600])
            return 1
    if len(exp) != len(got):
        print('expected', len(exp), 'records, got', len(got))
        return 1
    print('as expected')
    return 0


sys.exit(main())
