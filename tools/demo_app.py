#!/usr/bin/env python3
"""A few things no history of the threaded application may show, whatever the schedule."""
import json, sys


def wrong(tr):
    done, posted, added, started, finished = set(), {}, set(), set(), set()
    ready, mine = set(), {}
    due, asked, suspended, stopped, stopping = {}, {}, False, False, False
    for e in tr:
        k = e['e']
        if k in ('dead', 'spin', 'crash', 'hang', 'kill'):
            return k
        t, o = e.get('t'), e.get('o')
        if k == 'call':
            asked[t] = o
            if o in ('notify', 'flush', 'resume'):
                due.update(posted)
                ready |= added
            if o == 'flush':
                asked[t] = dict(posted)
                mine[t] = set(added)
            if o == 'suspend':
                suspended = True
            if o == 'resume':
                suspended = False
            if o in ('stop', 'term'):
                stopping = True
        elif k == 'ret':
            if o == 'post':
                posted[e['c']] = max(e['v'], posted.get(e['c'], 0))
            if o == 'plan':
                added.add(e['c'])
            if o == 'flush' and not stopping:
                late = [c for c, v in asked[t].items() if c in 'ab' and (c, v) not in done and
                        not any(d == c and w > v for d, w in done)]
                if late and 'echo' in started - finished:
                    return 'flush returned before %s was dealt with' % late
            if o == 'flush' and not stopping and mine[t] - started:
                return 'flush returned before plan %s was started' % sorted(mine[t] - started)
            if o == 'waitplan' and not stopping and not finished:
                return 'waitplan returned early'
            if o in ('stop', 'term'):
                stopped = True
            asked.pop(t, None)
        elif k == 'sb' and stopped:
            return 'a step after stop'
        elif k == 'done':
            done.add((e['c'], e['v']))
        elif k == 'pstart':
            started.add(e['p'])
        elif k == 'pfin':
            finished.add(e['p'])
        elif k == 'quiet':
            if e.get('stuck'):
                return 'stuck'
            for b in e['b']:
                if b[1] == 'flush' and not suspended and not stopping:
                    return 'flush never returns'
                if b[1] == 'waitstop' and stopped:
                    return 'waitstop never returns'
                if b[1] in ('stop', 'term', 'post', 'notify', 'plan', 'resume', 'suspend', 'allfin'):
                    return b[1] + ' never returns'
                if b[1] == 'waitplan' and not suspended and not stopping and added and added <= finished:
                    return 'waitplan never returns'
            if not suspended and not stopping and not any(b[1] for b in e['b']):
                if ready - started:
                    return 'plan %s was added and is not started' % sorted(ready - started)
                if 'echo' in started - finished:
                    for c, v in due.items():
                        if c in 'ab' and not any(d == c and w >= v for d, w in done):
                            return '%s %s was notified and is not dealt with' % (c, v)
    return None


n = 0
for line in open(sys.argv[1]):
    t = json.loads(line)
    n += 1
    w = wrong(t['tr'])
    if w:
        print(t['scn'], 'schedule', t['seed'], w)
        sys.exit(1)
print(n, 'histories, nothing wrong')
