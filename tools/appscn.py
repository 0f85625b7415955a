#!/usr/bin/env python3
"""appscn.py ID...: the demonstration of a planted bug in the threaded application, from the scenario given here"""
import os, re, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import app
FILL = 'thr post a 1;flush\nthr post b 1;flush\nphase\n'
S = {
    'C22_allocate_unlocked': FILL + 'thr post a 2;notify;post a 3;notify;post a 4;notify\n'
                             'thr post b 2;notify;post b 3;notify;post b 4;notify\nphase\n',
    'C22_resume_notifies_first': FILL + 'main suspend\nthr post a 2;notify\nphase\nthr resume\nphase\n',
    'C22_mark_after_notify': 'thr post a 1;flush\nphase\nthr post a 2;flush\nphase\n',
    'C22_one_shutdown_waiter': 'thr waitstop\nthr waitstop\nmain stop\nphase\n',
    'C22_plan_joins_late': 'thr post a 1;notify;post a 2;notify;post a 3;notify\nthr plan q1;flush;plan q2;flush;plan q3;flush\nphase\n',
    'C22_suspend_beats_stop': FILL + 'thr suspend\nthr stop\nthr waitstop\nphase\n',
    'C22_no_wake_when_busy': 'thr post a 1;notify;post a 2;notify\nthr post b 1;notify;post b 2;notify\nphase\n',
}
for i in sys.argv[1:] or S:
    t = 'main plan echo\nmain notify\nphase\n' + S[i]
    d = V + '/seeded/' + i
    ps = dict.fromkeys(re.findall(r'plan (\w+)', t))
    with open(d + '/app.txt', 'w') as f:
        f.write('scn demo\n' + ''.join('plan %s %s\n' % (p, app.plan(p)) for p in ps) + t)
    for n in ('appdriver.cc', 'common.hh', 'plexil-config.h'):
        shutil.copy(V + '/harness/' + n, d)
    shutil.copy(V + '/tools/demo_app.py', d)
    shutil.copy(V + '/tools/demo_app.sh', d + '/demo.sh')
