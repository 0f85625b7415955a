#!/usr/bin/env python3
"""Mutants of the executive whose logs on the quick scenarios do not differ from the
original's: what the scenarios do not look at.   mutate.py N SEED FILE..."""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, pickle
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, engine, profiles, run as runner

PER = int(os.environ.get('PER', '150'))
SKIP = re.compile(r'debugMsg|DebugMsg|assertTrue|checkError|warn\(|errorMsg|#include|^\s*//|^\s*\*|print|toString|<<|exprName|PlanError|static_assert|namespace|template')


def mutants(path):
    src = open(path, errors='replace').read().split('\n')
    out = []
    for i, l in enumerate(src):
        if SKIP.search(l) or not l.strip():
            continue
        c = l.split('//')[0]
        def add(new, how):
            if new != l:
                out.append((i, new, how))
        for a, b in (('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'), (' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '),
                     (' >= ', ' > '), ('true', 'false'), ('false', 'true'), (' + ', ' - '), (' - ', ' + '), ('++', '--')):
            for m in re.finditer(re.escape(a) if not a.isalpha() else r'\b%s\b' % a, c):
                add(c[:m.start()] + b + c[m.end():], '%s->%s' % (a, b))
        m = re.match(r'(\s*(?:else )?if )\((.*)\)(\s*\{?\s*)$', c)
        if m and m[2].count('(') == m[2].count(')'):
            add('%s(!(%s))%s' % m.groups(), 'negate')
            add('%s((%s) || true)%s' % m.groups(), 'always')
            add('%s((%s) && false)%s' % m.groups(), 'never')
        m = re.match(r'\s*(?!return|delete|case|using|typedef|friend|virtual|static|extern|const|break|throw|class|struct|public|private)([\w\->.:\[\]()*& ,]+(=[^=].*|\(.*\)|\+\+|--));\s*$', c)
        if m and not re.match(r'\s*[\w:<>*& ]+\s[\w]+(\s*=.*|\(.*\))?;', c) or re.match(r'\s*(m_\w+|\w+->\w+|\w+\.\w+|\w+\[.*\]) = .*;\s*$', c) or re.match(r'\s*\w+\([\w\->., *&()]*\);\s*$', c):
            if c.count('(') == c.count(')'):
                add(re.match(r'\s*', l)[0] + ';', 'drop')
        if re.match(r'\s*break;', c):
            add(';', 'drop break')
        m = re.match(r'(\s*return )([^;]+);', c)
        if m and m[2] not in ('true', 'false', 'nullptr') and re.match(r'^!?\w+(\(.*\))?$', m[2]):
            add('%s!(%s);' % (m[1], m[2]), 'negate return')
    return out


def scen(cache):
    if os.path.exists(cache):
        return pickle.load(open(cache, 'rb'))
    out = []
    for p in profiles.P:
        for s in engine.scenarios(p, PER, 1):
            s.lower()
            out.append((s.id, s.text()))
    random.Random(7).shuffle(out)
    pickle.dump(out, open(cache, 'wb'))
    return out


class S:
    def __init__(self, id, text):
        self.id, self._t = id, text

    def text(self):
        return self._t


def rd(driver, chunk, work, jobs):
    logs = os.path.join(work, 'logs')
    shutil.rmtree(logs, ignore_errors=True)
    os.makedirs(logs)
    f = os.path.join(work, 's.txt')
    open(f, 'w').write(''.join(t for _, t in chunk))
    subprocess.run([driver, f, logs, str(jobs)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=900)
    out = {}
    for i, _ in chunk:
        try:
            out[i] = hashlib.md5(open(os.path.join(logs, i + '.log'), 'rb').read()).hexdigest()
        except OSError:
            out[i] = None
    return out


def main():
    n, seed, files = int(sys.argv[1]), sys.argv[2], sys.argv[3:]
    drv = build.build(['driver'])['driver']
    bdir = os.path.dirname(drv)
    sc = scen('/tmp/vg/mut_scen_%d.pkl' % PER)
    W = tempfile.mkdtemp(prefix='mut_')
    chunks = [sc[i:i + 250] for i in range(0, len(sc), 250)]
    base = [rd(drv, c, W, 8) for c in chunks]
    base2 = [rd(drv, c, W, 8) for c in chunks[:2]]
    assert base[:2] == base2, 'not deterministic'
    cmds = {}
    for l in subprocess.run(['ninja', '-C', bdir, '-t', 'commands', 'driver'], stdout=subprocess.PIPE, text=True).stdout.split('\n'):
        m = re.search(r'-c (\S+) -o (\S+)', l)
        if m:
            cmds[m[1]] = (l, m[2])
        if ' -o driver ' in l:
            link = l
    todo = []
    cov = json.load(open(os.environ['COV'])) if os.environ.get('COV') else None
    for f in files:
        p = os.path.join(build.SRC, f)
        todo += [(p, m) for m in mutants(p) if cov is None or cov.get(p, {}).get(str(m[0] + 1), 0)]
    random.Random(seed).shuffle(todo)
    todo = todo[:n]

    def one(k):
        p, (i, new, how) = todo[k]
        d = os.path.join(W, str(k))
        os.makedirs(d)
        try:
            src = open(p, errors='replace').read().split('\n')
            src[i] = new
            q = os.path.join(d, os.path.basename(p))
            open(q, 'w').write('\n'.join(src))
            l, o = cmds[p]
            mo = os.path.join(d, 'm.o')
            c = l.replace('-c ' + p, '-I%s -c %s' % (os.path.dirname(p), q)).replace('-o ' + o, '-o ' + mo)
            c = re.sub(r'-MF \S+', '-MF /dev/null', c)
            if subprocess.run(c, shell=True, cwd=bdir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                return k, 'nocompile'
            exe = os.path.join(d, 'driver')
            c = link.replace(' ' + o + ' ', ' ' + mo + ' ').replace('-o driver ', '-o %s ' % exe)
            if subprocess.run(c, shell=True, cwd=bdir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                return k, 'nolink'
            for j, ch in enumerate(chunks):
                try:
                    if rd(exe, ch, d, 1) != base[j]:
                        return k, 'killed %d' % j
                except subprocess.TimeoutExpired:
                    return k, 'killed (time)'
            return k, 'SURVIVED'
        finally:
            shutil.rmtree(d, ignore_errors=True)
    st = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for k, r in ex.map(one, range(len(todo))):
            st[r.split()[0]] = st.get(r.split()[0], 0) + 1
            if r == 'SURVIVED' or r.startswith('killed') and r[7:].isdigit() and int(r[7:]) >= 4:
                p, (i, new, how) = todo[k]
                print('%s %s:%d [%s]\n    %s' % (r, os.path.relpath(p, build.SRC), i + 1, how, new.strip()), flush=True)
    print(st)
    shutil.rmtree(W, ignore_errors=True)


main()
