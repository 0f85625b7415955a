"""Runs the parts of a property's check and reports on them."""
import re, json, os, random, shutil, sys, tempfile, time
import build, gen, profiles, templates, run as runner

VERIF = runner.VERIF
NQUICK, NTHOROUGH = 560, 12000
FINDINGS = os.path.join(VERIF, 'known_findings.txt')


def known(prop):
    """Listed findings of prop: [(key, text)].  A line reads
    'finding: property=<id> key=<key> <what fails>'"""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == 'finding:' and w[1] == 'property=' + prop and w[2].startswith('key='):
                out.append((w[2][4:], w[3].strip()))
    return out


def gen_class(p):
    return templates.Templ if 'template' in p else gen.Gen


def scenarios(prop, n, seed, base=0):
    """n random scenarios of the kinds the property favours"""
    profs = profiles.P[prop] + [(.5, {})]
    total = sum(w for w, _ in profs)
    out = []
    for i in range(n):
        r = random.Random('%s/%d/%d' % (prop, seed, base + i))
        x = r.random() * total
        for w, p in profs:
            x -= w
            if x < 0:
                break
        g = gen_class(p)('%s/%d/%d' % (prop, seed, base + i), p, '%s_%d' % (prop, base + i))
        s = g.make()
        if r.random() < (.7 if prop == 'C24' else .1):
            for _ in range(r.randint(1, 3)):
                g.ear()
        out.append(s)
    return out


class Result:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.cov, self.samples, self.violations, self.findings, self.errors = {}, [], [], [], []
        self.assumptions = []

    def count(self, **k):
        for a, b in k.items():
            self.cov[a] = self.cov.get(a, 0) + b

    def violation(self, name, why, files):
        """files: {name: text}"""
        d = os.path.join(VERIF, 'build', 'replay', self.prop, name)
        os.makedirs(d, exist_ok=True)
        for f, text in files.items():
            with open(os.path.join(d, f), 'w') as fh:
                fh.write(text)
        with open(os.path.join(d, 'why.txt'), 'w') as fh:
            fh.write(why + '\n')
        self.violations.append((d, why))

    def evidence(self):
        cov = dict(self.cov, states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:3])
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                 wall_s=round(time.time() - self.t0, 1), violations=len(self.violations),
                 assumptions=self.assumptions)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(e, f, indent=1)
            f.write('\n')

    def finish(self):
        self.evidence()
        for key, text in self.findings:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        for d, why in self.violations[:10]:
            print('  %s' % why[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, d))
        if self.violations:
            return 1
        if self.errors:
            print('ERROR: ' + '\n'.join(self.errors)[:4000])
            return 2
        print('%s: held on %d traces of the real executive (%d spec states), %.0f s'
              % (self.prop, self.traces, self.states, time.time() - self.t0))
        return 0


def conform(res, scs, driver, work, jobs=8):
    """Run scenarios through the real executive and judge the logs."""
    Ps = {s.id: s.lower() for s in scs}
    by = {s.id: s for s in scs}
    logs = runner.run_driver(driver, scs, work, jobs)
    verdict, (gen_, dis), errs = runner.judge([(k, Ps[k], logs[k]) for k in Ps], work, jobs)
    unknown = [k for k, v in verdict.items() if v == 'no verdict']
    # TLC gave no answer on some: once more, one by one
    errs = []
    for k in unknown[:8]:
        v, (g, d), e = runner.judge_chunk([(k, Ps[k], logs[k])], work, 'again')
        verdict[k] = v[k]
        if v[k] == 'no verdict' and e and ('evaluat' in e or 'Attempted' in e):
            # the log is no behaviour: it holds what the specification cannot even read
            verdict[k] = 'the specification is not defined for this log: ' + re.sub(r'\s+', ' ', e)[:300]
        elif v[k] == 'no verdict':
            errs.append('%s: %s' % (k, (e or '')[:1000]))
    errs += ['%s: no verdict' % k for k in unknown[8:]]
    res.states += dis
    res.transitions += gen_
    bad = {k: v for k, v in verdict.items() if v and v != 'no verdict'}
    res.traces += len(scs) - len(bad) - len(errs)
    # a log with no verdict is a fault of the machinery, unless it is of the code
    res.errors += errs
    for l in logs.values():
        for r in l:
            if r['e'] == 'b':
                res.count(batches=1, node_transitions=len(r['tr']))
            elif r['e'] == 'end':
                res.count(steps=1, assignments=len(r.get('as', ())), commands=len(r.get('cm', ())),
                          aborts=len(r.get('ab', ())), updates=len(r.get('up', ())))
            elif r['e'] == 'ext':
                res.count(inputs=len(r['ev']))
            elif r['e'] in ('planerror', 'runaway'):
                res.count(**{r['e'] + 's': 1})
    for k in list(bad)[:8]:
        why = bad[k]
        # once more, to be sure
        again = runner.run_driver(driver, [by[k]], work, 1)
        v, _, e = runner.judge_chunk([(k, Ps[k], again[k])], work, 'confirm')
        if v[k] is None and again[k] == logs[k]:
            res.errors.append('%s: rejected, then accepted' % k)
            continue
        src = getattr(by[k], 'sources', None)
        res.violation(k, '%s: %s%s' % (k, why, '' if v[k] else ' (not on a second run)'),
                      dict({'sources.json': json.dumps({'sources': src, 'core': by[k].core})} if src else {}, **{
                          'scenario.txt': by[k].text(), 'plan.json': json.dumps(Ps[k]), 'log.json': json.dumps(logs[k])}))
    if scs and len(res.samples) < 2:
        k = scs[len(scs) // 2].id
        res.samples.append({'scenario': k, 'script': [' '.join(map(str, x)) for x in by[k].script[:12]],
                            'log': logs[k][:6]})
    return verdict, logs


def run(prop, tier, seed):
    res = Result(prop, tier, seed)
    res.assumptions = [
        'The specification in /verif/spec is what the PLEXIL documentation and sources prescribe.',
        'Values and times are multiples of 1/16 and below 2^27; plans are of the sizes the generator makes.',
        'The executive is single-threaded within a step; its threads are looked at by C21 and C22 only.']
    import parts
    work = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        parts.run(res, prop, tier, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return res.finish()


def replay(prop, d):
    """Run a saved scenario again"""
    if os.path.exists(os.path.join(d, 'case.txt')):
        import syntax
        return syntax.replay(prop, d)
    if os.path.exists(os.path.join(d, 'program.txt')):
        import compiled
        return compiled.replay(prop, d)
    if os.path.exists(os.path.join(d, 'ext.txt')):
        import ext
        return ext.replay(prop, d)
    if os.path.exists(os.path.join(d, 'app.txt')):
        import app
        return app.replay(prop, d)
    driver = build.build(['driver'])['driver']
    work = tempfile.mkdtemp(prefix='verif_replay_')
    script = open(os.path.join(d, 'scenario.txt')).read()
    P = json.load(open(os.path.join(d, 'plan.json')))
    if os.path.exists(os.path.join(d, 'sources.json')):
        # compile the programs again
        import ple
        from plan import pct
        c = json.load(open(os.path.join(d, 'sources.json')))
        for n, (st, new) in ple.compile_all(c['sources'], work, 1).items():
            if st != 'ok':
                print('%s: %s %s' % (n, st, new[:300]))
                print('VIOLATION property=%s replay=%s' % (prop, d))
                return 1
            script = script.replace(pct(c['core'][n]), pct(new))

    class S:
        id = script.split()[1]

        def text(self):
            return script
    try:
        log = runner.run_driver(driver, [S()], work, 1)[S.id]
        v, _, e = runner.judge_chunk([(S.id, P, log)], work, 'replay')
        print(S.id, v[S.id] or 'accepted')
        if v[S.id]:
            print('VIOLATION property=%s replay=%s' % (prop, d))
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
