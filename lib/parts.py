"""Which parts the check of each property consists of."""
import concurrent.futures as cf, os, random, time
import app, build, compiled, engine, ext, mc, profiles, syntax

MCQ = dict(plans=10, states=70, depth=10, cap=450)
MCT = dict(plans=160, states=500, depth=16, cap=30000)


def explore(res, prop, seed, work, k, jobs):
    """The schedules of small plans, all their behaviours having been explored"""
    cases = [mc.tiny(prop, i, seed, k['states'], k['depth']) for i in range(k['plans'])]
    out, (g, d), errs, edges, complete = mc.explore(cases, work, jobs, timeout=3000 if k is MCT else 300)
    res.count(mc_plans=len(cases), mc_states=d, mc_transitions=g, mc_state_event_pairs=edges,
              mc_schedules=sum(len(h) for _, h in out))
    res.states += d
    res.transitions += g
    # a property that fails on the specification itself: a fault of ours, or of the design
    res.errors += ['PlexilMC: ' + e for e in errs]
    scs = [mc.scenario(c, h, '%s_%d' % (c.sc.id, j)) for c, hs in out for j, h in enumerate(hs)]
    random.Random('%s/%d' % (prop, seed)).shuffle(scs)
    res.count(mc_schedules_run=min(len(scs), k['cap']))
    return scs[:k['cap']]


def run(res, prop, tier, seed, work):
    thorough = tier == 'thorough'
    if prop in profiles.P:
        k = MCT if thorough else MCQ
        with cf.ThreadPoolExecutor(2) as ex:
            b = ex.submit(build.build, ['driver'])
            m = ex.submit(explore, res, prop, seed, work, k, 8 if thorough else 5)
            drv = b.result()['driver']
            scs = m.result()
        n = engine.NTHOROUGH if thorough else engine.NQUICK
        done = 0
        while done < n or scs:
            k = min(n - done, 1600)
            batch, scs = scs[:1600], scs[1600:]
            engine.conform(res, batch + engine.scenarios(prop, k, seed, done), drv, work)
            done += k
            if res.violations and done >= 1600:
                break
        if prop == 'C21' and not res.violations:
            threads(res, prop, seed, work, *((1200, 60) if thorough else (100, 20)))
    elif prop == 'C25':
        documents(res, prop, seed, work, 40000 if thorough else 2400)
    elif prop == 'C26':
        compiled.check(res, prop, tier, seed, work, 20000 if thorough else 500)
    elif prop == 'C27':
        ext.check(res, prop, tier, seed, work, 24000 if thorough else 800)
    elif prop == 'C22':
        threads(res, prop, seed, work, *((3000, 100) if thorough else (250, 30)))


def documents(res, prop, seed, work, n):
    """Plan documents, as generated and spoiled, loaded into the real executive"""
    prog = build.build(['parsecheck'])['parsecheck']
    res.assumptions = [
        'What makes a plan document well-formed is what PlexilSyntax.tla says, read off the schema and the parser.',
        'Where the documentation leaves open whether a document is well-formed, either answer is accepted.',
        'Documents are well-formed XML.']
    for i in range(0, n, 4000):
        cases = [syntax.case('%s_%d' % (prop, j), '%s/%d/%d' % (prop, seed, j)) for j in range(i, min(n, i + 4000))]
        syntax.conform(res, cases, prog, work)
        if res.violations:
            break


def threads(res, prop, seed, work, n, runs):
    """The real application and its threads, under schedules of ours"""
    prog = build.build(['appdriver'])['appdriver']
    res.assumptions = (res.assumptions or []) + [
        'ExecApp.tla says what the callers of the application may rely on.',
        'Threads switch at synchronisation calls and at the memory accesses of ExecApplication, InterfaceManager, the input '
        'queue and the semaphore, one running at a time: sequential consistency.',
        'Schedules are drawn at random: %d for each scenario.' % runs]
    for i in range(0, n, 250):
        scns = [app.scenario('%s_%d' % (prop, j), '%s/%d/%d' % (prop, seed, j)) for j in range(i, min(n, i + 250))]
        app.conform(res, scns, runs, seed, prog, work)
        if res.violations:
            break
