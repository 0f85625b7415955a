#!/usr/bin/env python3
"""Write planted bugs: bugs.py applies an edit to /repo's text and saves it as
seeded/<id>/patch.diff with its meta.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}


def bug(id, prop, edits, needs, what):
    BUGS[id] = (prop, edits, needs, what)


exec(open(os.path.join(V, 'tools', 'buglist.py')).read())

if __name__ == '__main__':
    for id in sys.argv[1:] or BUGS:
        prop, edits, needs, what = BUGS[id]
        d = os.path.join(V, 'seeded', id)
        if os.path.exists(d + '/patch.diff') and not sys.argv[1:]:
            continue
        os.makedirs(d, exist_ok=True)
        saved = {}
        try:
            for f, old, new in edits:
                p = '/repo/' + f
                s = open(p).read()
                saved.setdefault(p, s)
                if s.count(old) != 1:
                    print(id, f, 'matches', s.count(old))
                    raise SystemExit(1)
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE, text=True).stdout
        finally:
            for p, s in saved.items():
                open(p, 'w').write(s)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
        print('wrote', id)
