"""The threaded application: scenarios for appdriver, and the judging of what it recorded."""
import concurrent.futures as cf, json, os, random, re, subprocess
import run

CH = ['a', 'b']


def lookup(c):
    return '<LookupOnChange><Name><StringValue>%s</StringValue></Name></LookupOnChange>' % c


def var(n):
    return '<IntegerVariable>%s</IntegerVariable>' % n


def decl(n):
    return ('<DeclareVariable><Name>%s</Name><Type>Integer</Type><InitialValue><IntegerValue>0</IntegerValue>'
            '</InitialValue></DeclareVariable>' % n)


def assign(name, dest, a, b):
    """Whenever a and b differ, dest := a"""
    return ('<Node NodeType="Assignment"><NodeId>%s</NodeId><StartCondition><NENumeric>%s%s</NENumeric></StartCondition>'
            '<RepeatCondition><BooleanValue>true</BooleanValue></RepeatCondition><NodeBody><Assignment>%s<NumericRHS>%s'
            '</NumericRHS></Assignment></NodeBody></Node>' % (name, a, b, dest, a))


def listnode(name, end, decls, kids):
    return ('<Node NodeType="NodeList"><NodeId>%s</NodeId><VariableDeclarations>%s</VariableDeclarations>'
            '<EndCondition><OR>%s</OR></EndCondition><NodeBody><NodeList>%s</NodeList></NodeBody></Node>'
            % (name, ''.join(decls), ''.join('<GT>%s<IntegerValue>%d</IntegerValue></GT>' % (lookup(c), v)
                                             for c, v in end), ''.join(kids)))


def plan(name):
    if name == 'echo':
        kids = []
        for c in CH:
            # the list's end condition keeps the lookup active all the time
            kids.append(listnode('W' + c, [(c, 1000000), ('fin', 0)], [decl('S' + c), decl('D' + c)],
                                 [assign('X' + c, var('S' + c), lookup(c), var('S' + c)),
                                  assign('Y' + c, var('D' + c), var('S' + c), var('D' + c))]))
        body = listnode('echo', [('fin', 0)], [decl('e')], kids)
    elif name[0] == 'l':
        body = listnode(name, [(name, 0)], [decl('v')], ['<Node NodeType="Empty"><NodeId>%sE</NodeId></Node>' % name])
    else:
        kid = lambda i: ('<Node NodeType="Assignment"><NodeId>%s%d</NodeId><NodeBody><Assignment>%s<NumericRHS>'
                         '<IntegerValue>%d</IntegerValue></NumericRHS></Assignment></NodeBody></Node>'
                         % (name, i, var('v%d' % i), i))
        body = ('<Node NodeType="NodeList"><NodeId>%s</NodeId><VariableDeclarations>%s%s</VariableDeclarations><NodeBody>'
                '<NodeList>%s%s</NodeList></NodeBody></Node>' % (name, decl('v1'), decl('v2'), kid(1), kid(2)))
    return '<PlexilPlan>%s</PlexilPlan>' % body


class Gen:
    def __init__(self, rng, kind):
        self.r, self.kind = rng, kind
        self.v = {c: 0 for c in CH}
        self.plans, self.lines, self.nthreads = [], [], 0
        self.opp = rng.random() < .25
        self.echo = False
        self.q = 0
        self.suspended = self.stopping = False
        self.long = []

    def post(self):
        c = self.r.choice(CH)
        self.v[c] += 1
        return 'post %s %d' % (c, self.v[c])

    def plan(self, name):
        self.plans.append(name)
        return 'plan ' + name

    def prog(self, stop=False):
        r, out = self.r, []
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if k < .35:
                out += [self.post()] * 1
                if r.random() < .8:
                    out.append(r.choice(['notify', 'notify', 'flush']))
            elif k < .5:
                out.append('flush')
            elif k < .6:
                out.append('notify')
            elif k < .7:
                out.append('suspend')
                self.suspended = True
                if r.random() < .6:
                    out += [self.post(), 'notify'] if r.random() < .7 else []
                    out.append('resume')
            elif k < .78:
                out.append('resume')
            elif k < .83:
                out.append('issusp')
            elif k < .88:
                out.append('allfin')
            elif k < .93 and not self.stopping and self.q < 3:
                self.q += 1
                out += [self.plan('q%d' % self.q), 'notify']
                if r.random() < .5 and not self.echo:
                    out.append('waitplan')
            elif k < .96:
                out.append('waitstop')
                return out
            else:
                out += [self.post(), self.post(), 'notify']
        return out

    def thr(self, ops):
        self.nthreads += 1
        self.lines.append('thr ' + ';'.join(ops))

    def main(self, op):
        self.lines.append('main ' + op)

    def phase(self):
        self.lines.append('phase')

    def make(self):
        getattr(self, 'k_' + self.kind)()
        return self

    def opening(self):
        self.echo = True
        self.main(self.plan('echo'))
        self.main('notify')
        if self.r.random() < .3:
            self.q += 1
            self.main(self.plan('q%d' % self.q))
            self.main('notify')
        self.phase()

    def closing(self):
        r = self.r
        if self.suspended and r.random() < .8:
            self.main('resume')
            self.phase()
        if self.echo and r.random() < .3 and not self.long:
            self.thr(['waitplan'])
            self.main('post fin 1')
            self.main(r.choice(['notify', 'notify', 'flush']) if not self.suspended else 'notify')
            self.phase()
        if r.random() < .7:
            for _ in range(r.choice([0, 1, 1, 2])):
                self.thr(['waitstop'])
            if r.random() < .5:
                self.thr([self.post(), 'notify'])
            self.stopping = True
            self.main(r.choice(['stop', 'stop', 'term']))
            self.phase()
            if r.random() < .5:
                self.thr([self.post(), 'notify', r.choice(['waitstop', 'resume', 'suspend', 'stop'])])
                self.phase()

    def k_mixed(self):
        r = self.r
        self.opening()
        for _ in range(r.choice([1, 1, 2])):
            for _ in range(r.choice([1, 2, 2, 3])):
                self.thr(self.prog())
            self.phase()
            if self.suspended and r.random() < .5:
                self.main('resume')
        self.closing()

    def k_flush(self):
        """Several threads that wait for completion"""
        r = self.r
        self.opening()
        for _ in range(r.choice([2, 2, 3])):
            ops = []
            for _ in range(r.randint(1, 3)):
                ops += [self.post() for _ in range(r.choice([0, 1, 1, 2]))] + ['flush']
            self.thr(ops)
        self.phase()
        self.closing()

    def k_suspend(self):
        r = self.r
        self.opening()
        self.thr([self.post(), 'notify', 'suspend', 'issusp', self.post(), 'notify'] + (['resume'] if r.random() < .5 else []))
        self.suspended = True
        self.thr([self.post(), r.choice(['notify', 'flush']), self.post(), 'notify'])
        self.phase()
        if r.random() < .5:
            self.thr([self.post(), r.choice(['notify', 'flush'])])
            self.phase()
        if r.random() < .6:
            self.thr([self.post(), 'notify'])
            self.thr(['resume', 'issusp'])
            self.phase()
        self.closing()

    def k_plans(self):
        """Plans that end, and someone waiting for it: as the test executives do"""
        r = self.r
        first = 'l1' if r.random() < .4 else 'q1'
        ops = [self.plan(first), 'notify', 'waitplan']
        if first == 'q1':
            if r.random() < .6:
                ops += [self.plan('q2'), 'notify', 'waitplan']
            if r.random() < .3:
                ops += ['allfin']
        if r.random() < .5:
            for o in ops:
                if o != 'waitplan' or first == 'q1':
                    self.main(o)
                else:
                    self.thr(['waitplan'])
            self.phase()
        else:
            self.thr(ops)
            if r.random() < .4:
                self.thr(['notify', 'allfin', 'notify'])
            if r.random() < .4:
                self.thr([self.plan('q3'), 'notify', 'waitplan'])
            self.phase()
        if first == 'l1':
            if r.random() < .3:
                self.thr(['notify', 'allfin'])
            self.thr(['post l1 1', r.choice(['notify', 'flush'])])
            self.phase()
        if r.random() < .5:
            self.thr([self.plan('q4'), 'notify', 'waitplan', 'allfin'])
            self.phase()
        self.closing()

    def k_stop(self):
        r = self.r
        self.opening()
        if r.random() < .3:
            self.main('suspend')
            self.suspended = True
        for _ in range(r.choice([1, 2])):
            ops = [self.post(), 'notify', self.post(), r.choice(['notify', 'flush'])]
            self.thr(ops)
        if r.random() < .6:
            self.thr(['waitstop'])
        if r.random() < .5:
            self.thr(['suspend'] if r.random() < .6 else ['suspend', self.post(), 'notify', 'resume'])
        self.thr(['stop'] + ([self.post(), 'notify'] if r.random() < .5 else []))
        self.phase()
        self.thr(['waitstop', self.post(), 'notify'])
        self.phase()


KINDS = ['mixed', 'mixed', 'flush', 'suspend', 'plans', 'plans', 'stop']


def scenario(sid, key):
    rng = random.Random(key)
    g = Gen(rng, rng.choice(KINDS)).make()
    text = 'scn %s\n' % sid + ('opportunistic\n' if g.opp else '')
    text += ''.join('plan %s %s\n' % (p, plan(p)) for p in g.plans)
    return {'id': sid, 'opp': int(g.opp), 'text': text + '\n'.join(g.lines) + '\n', 'lines': g.lines, 'kind': g.kind}


def drive(prog, texts, runs, seed, work, jobs=8, exact=()):
    """Runs each scenario under many schedules; the distinct recordings"""
    def one(k):
        f, o = os.path.join(work, 'app%d.txt' % k), os.path.join(work, 'app%d.out' % k)
        with open(f, 'w') as fh:
            fh.write(''.join(texts[k::jobs]))
        r = subprocess.run([prog, f, o, str(runs), str(seed)] + list(exact), stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
        if r.returncode:
            raise SystemExit('appdriver failed: %d' % r.returncode)
        with open(o) as fh:
            return [json.loads(l) for l in fh]
    with cf.ThreadPoolExecutor(jobs) as ex:
        return [t for ts in ex.map(one, range(jobs)) for t in ts]


def dress(t, opp):
    ids = sorted({e['t'] for e in t['tr'] if 't' in e} | {0, 1})
    return {'tr': t['tr'], 'threads': ids, 'workers': [1], 'opp': opp}


ANS = re.compile(r'<<"(ACCEPT|REJECT)", (\d+)(?:, (\d+))?>>')


def judge_chunk(traces, work, name, timeout=900):
    """-> ({index: None | position refused}, (generated, distinct), error)"""
    f = os.path.join(work, name + '.json')
    with open(f, 'w') as fh:
        json.dump(traces, fh)
    rc, out = run.tlc('ExecAppTrace', 'ExecAppTrace.cfg', {'TRACES': f}, timeout)
    os.remove(f)
    res = {}
    for m in ANS.finditer(out):
        res[int(m.group(2)) - 1] = None if m.group(1) == 'ACCEPT' else int(m.group(3))
    st = run.STAT.search(out)
    err = None
    if rc != 0 or len(res) != len(traces):
        err = 'TLC: rc %d, %d of %d judged\n%s' % (rc, len(res), len(traces), out[-1500:])
    return res, (int(st.group(1)), int(st.group(2))) if st else (0, 0), err


def judge(traces, work, jobs=8):
    """-> ({index: position refused}, (generated, distinct), errors)"""
    bad, gen, dis, errs = {}, 0, 0, []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for k, (r, (g, d), e) in enumerate(ex.map(lambda k: judge_chunk(traces[k::jobs], work, 'judge%d' % k)
                                                  if traces[k::jobs] else ({}, (0, 0), None), range(jobs))):
            bad.update({i * jobs + k: p for i, p in r.items() if p is not None})
            gen, dis = gen + g, dis + d
            errs += [e] if e else []
    return bad, (gen, dis), errs


def say(e):
    return ' '.join(str(v) for v in e.values())


def describe(tr, p):
    """What was refused, and the events before it"""
    return '%s is not allowed after: %s' % (say(tr[p - 1]), ' | '.join(map(say, tr[max(0, p - 25):p - 1])))


def conform(res, scns, runs, seed, prog, work, jobs=8):
    by = {s['id']: s for s in scns}
    ts = drive(prog, [s['text'] for s in scns], runs, seed, work, jobs)
    bad, (gen, dis), errs = judge([dress(t, by[t['scn']]['opp']) for t in ts], work, jobs)
    res.states += dis
    res.transitions += gen
    res.traces += len(ts) - len(bad)
    res.errors += errs
    res.count(app_scenarios=len(scns), app_runs=runs * len(scns), app_distinct_histories=len(ts),
              app_opportunistic=sum(s['opp'] for s in scns), app_events=sum(len(t['tr']) for t in ts))
    for s in scns:
        res.count(**{'app_kind_' + s['kind']: 1})
    for t in ts:
        for e in t['tr']:
            if e['e'] in ('call', 'sb', 'park'):
                res.count(**{{'call': 'app_call_' + e.get('o', ''), 'sb': 'app_steps', 'park': 'app_parks'}[e['e']]: 1})
    said = set()
    for i in sorted(bad):
        t, p = ts[i], bad[i]
        if t['scn'] in said:
            continue
        said.add(t['scn'])
        s = by[t['scn']]
        # the same schedule once more
        again = drive(prog, [s['text']], 1, t['seed'], work, 1, ['exact'])
        same = again and again[0]['tr'] == t['tr']
        if t['tr'][p - 1]['e'] in ('hang', 'crash') and not same:
            res.errors.append('%s: %s, but not again' % (t['scn'], say(t['tr'][p - 1])))
            continue
        res.violation(t['scn'], '%s (schedule %d): %s%s' % (t['scn'], t['seed'], describe(t['tr'], p),
                                                           '' if same else ' (not on a second run)'),
                      {'app.txt': s['text'], 'seed.txt': '%d %d' % (t['seed'], s['opp']), 'trace.json': json.dumps(t['tr'])})
        if len(said) >= 8:
            break
    if ts and len(res.samples) < 2:
        t = ts[len(ts) // 2]
        res.samples.append({'scenario': by[t['scn']]['lines'], 'schedule': t['seed'], 'events': list(map(say, t['tr'][:40]))})


def replay(prop, d):
    """The same schedule again"""
    import build, shutil, tempfile
    prog = build.build(['appdriver'])['appdriver']
    work = tempfile.mkdtemp(prefix='verif_replay_')
    text = open(os.path.join(d, 'app.txt')).read()
    seed, opp = map(int, open(os.path.join(d, 'seed.txt')).read().split())
    try:
        ts = drive(prog, [text], 1, seed, work, 1, ['exact'])
        bad, _, errs = judge([dress(t, opp) for t in ts], work, 1)
        print(errs or '', describe(ts[0]['tr'], bad[0]) if bad else 'accepted')
        if bad:
            print('VIOLATION property=%s replay=%s' % (prop, d))
            return 1
        return 2 if errs else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
