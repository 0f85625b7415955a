"""Run scenarios through the real executive and have TLC judge the logs."""
import json, os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JAVA = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-Xss64m', '-Xmx2g']
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def classpath():
    import glob
    js = glob.glob('/opt/veriftools/tla/*.jar')
    return ':'.join(js)


def tlc(module, cfg, env, timeout=600, workers='1', extra=(), cwd=None):
    meta = tempfile.mkdtemp(prefix='tlcmeta')
    e = dict(os.environ)
    e.update(env)
    try:
        r = subprocess.run(JAVA + ['-cp', classpath(), 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
                                   '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module],
                           cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as ex:
        return 124, (ex.stdout or b'').decode() if isinstance(ex.stdout, bytes) else (ex.stdout or '')
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def run_driver(driver, scenarios, workdir, jobs=8):
    """scenarios: Scenario objects, lowered.  Returns {id: log}"""
    logs = os.path.join(workdir, 'logs')
    os.makedirs(logs, exist_ok=True)
    f = os.path.join(workdir, 'scenarios.txt')
    with open(f, 'w') as fh:
        for s in scenarios:
            fh.write(s.text())
    subprocess.run([driver, f, logs, str(jobs)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = {}
    for s in scenarios:
        p = os.path.join(logs, s.id + '.log')
        with open(p) as fh:
            out[s.id] = json.loads('[' + fh.read() + ']')
    return out


STAT = re.compile(r'(\d+) states generated, (\d+) distinct')


def judge_chunk(items, workdir, name, module='PlexilTrace', cfg='PlexilTrace.cfg', timeout=600):
    """items: [(id, plan, log)] -> ({id: None | why}, (generated, distinct), error)"""
    f = os.path.join(workdir, name + '.json')
    with open(f, 'w') as fh:
        json.dump([{'plan': p, 'log': g} for _, p, g in items], fh)
    rc, out = tlc(module, cfg, {'TRACES': f}, timeout=timeout)
    res = {i: 'no verdict' for i, _, _ in items}
    joined = re.sub(r'\n\s+', ' ', out)
    for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),(.*?)>>\s*(?=\n|$)', joined):
        i = items[int(m.group(1)) - 1][0]
        if res[i] == 'no verdict':
            res[i] = 'record %s: %s' % (m.group(2), m.group(3).strip())
    for m in re.finditer(r'<<\s*"ACCEPT",\s*(\d+)\s*>>', joined):
        res[items[int(m.group(1)) - 1][0]] = None
    st = STAT.search(out)
    err = None
    if rc != 0:
        i = out.find('Error:')
        tid = re.findall(r'tid = \d+', out[i:])
        err = out[i:i + 800] + '\n' + (tid[-1] if tid else '') + '\n' + out[out.rfind('Error: The error occurred'):][:800]
    os.unlink(f)
    return res, (int(st.group(1)), int(st.group(2))) if st else (0, 0), err


def judge_rounds(items, workdir, name, **kw):
    """As judge_chunk; a log the specification cannot evaluate is set aside, and the others judged again"""
    res, gen, dis, err, todo = {}, 0, 0, None, list(items)
    for k in range(4):
        r, (a, b), err = judge_chunk(todo, workdir, '%s_%d' % (name, k), **kw)
        gen, dis = gen + a, dis + b
        res.update(r)
        if not err:
            return res, (gen, dis), None
        bad = [int(m) for m in re.findall(r'tid = (\d+)', err)]
        if bad and res[todo[bad[-1] - 1][0]] == 'no verdict':
            res[todo[bad[-1] - 1][0]] = 'the specification is not defined for this log: ' + \
                re.sub(r'\s+', ' ', err[:200] + ' ... ' + err[-400:])
        todo = [x for x in todo if res[x[0]] == 'no verdict']
        if not todo:
            return res, (gen, dis), None
    return res, (gen, dis), err


def judge(items, workdir, jobs=8, chunk=None, **kw):
    if not items:
        return {}, (0, 0), []
    items = list(items)
    n = chunk or max(1, (len(items) + jobs - 1) // jobs)
    # even out by length
    order = sorted(items, key=lambda x: -len(x[2]))
    k = (len(items) + n - 1) // n
    chunks = [order[i::k] for i in range(k)]
    res, gen, dis, errs = {}, 0, 0, []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r, (a, b), e in ex.map(lambda c: judge_rounds(c[1], workdir, 'chunk%d' % c[0], **kw), enumerate(chunks)):
            res.update(r)
            gen += a
            dis += b
            if e:
                errs.append(e)
    return res, (gen, dis), errs
