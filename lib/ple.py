"""The PLEXIL compiler of compilers/plexil and the stylesheets of schema/epx-translator, built and run."""
import glob, hashlib, os, shutil, subprocess, concurrent.futures as cf, multiprocessing as mp
import build, xslt

VERIF, REPO = build.VERIF, build.REPO
HERE = os.path.join(VERIF, 'harness', 'ple')
COMP = os.path.join(REPO, 'compilers', 'plexil')
JAR = os.path.join(REPO, 'jars', 'antlr-3.5.3-complete-no-st3.jar')
XSL = os.path.join(REPO, 'schema', 'epx-translator', 'translate-plexil.xsl')
JOPTS = ['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xss16m', '-Xmx1g']


def files():
    out = glob.glob(os.path.join(COMP, 'antlr', '*.g'))
    for top in (os.path.join(COMP, 'java'), HERE):
        for d, _, ns in os.walk(top):
            out += [os.path.join(d, n) for n in ns if n.endswith('.java')]
    return sorted(out)


def compiler():
    """Build it; the class path"""
    h = hashlib.sha256()
    for f in files():
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    top = os.path.join(VERIF, 'build')
    d = os.path.join(top, 'ple-' + h.hexdigest()[:20])
    cls = os.path.join(d, 'cls')
    if not os.path.exists(os.path.join(d, 'done')):
        shutil.rmtree(d, ignore_errors=True)
        gen = os.path.join(d, 'gen', 'plexil')
        os.makedirs(gen)
        os.makedirs(cls)
        for f in glob.glob(os.path.join(COMP, 'antlr', '*.g')):
            shutil.copy(f, gen)

        def sh(cmd, cwd):
            r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print(r.stdout[-6000:])
                raise SystemExit('build of the compiler failed')
        for g in ('Plexil.g', 'PlexilTreeTransforms.g'):
            sh(['java', '-cp', JAR, 'org.antlr.Tool', g], gen)
        mine = glob.glob(os.path.join(HERE, '**', '*.java'), recursive=True)
        have = {os.path.relpath(m, HERE) for m in mine}
        src = [f for f in glob.glob(os.path.join(COMP, 'java', '**', '*.java'), recursive=True)
               if os.path.relpath(f, os.path.join(COMP, 'java')) not in have]
        sh(['javac', '-nowarn', '-cp', JAR, '-d', cls] + glob.glob(os.path.join(gen, '*.java')) + src + mine, d)
        open(os.path.join(d, 'done'), 'w').close()
        for p in sorted((p for p in glob.glob(os.path.join(top, 'ple-*')) if p != d), key=os.path.getmtime)[:-6]:
            shutil.rmtree(p, ignore_errors=True)
    return cls + ':' + JAR


def run_batch(cp, paths, work, name):
    lst = os.path.join(work, name + '.lst')
    with open(lst, 'w') as fh:
        fh.write('\n'.join(paths) + '\n')
    subprocess.run(['java'] + JOPTS + ['-Djava.security.manager=allow', '-cp', cp, 'Batch', lst],
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=900)


_sheet = None


def _translate(path):
    global _sheet
    if _sheet is None:
        _sheet = xslt.Sheet(XSL)
    try:
        with open(path, encoding='utf-8') as fh:
            doc = xslt.parse(fh.read())
    except (xslt.XsltError, SyntaxError, ValueError) as e:
        return ('ill-formed', 'the compiler wrote XML that is not well formed: %s' % e)
    except Exception as e:
        return ('ill-formed', 'the compiler wrote XML that is not well formed: %r' % e)
    try:
        return ('ok', xslt.serialize(_sheet.transform(doc)))
    except xslt.XsltError as e:
        return ('xslt', '%s' % e)
    except RecursionError:
        return ('xslt', 'recursion too deep')


def compile_all(sources, work, jobs=8):
    """sources: {name: text}.  {name: (status, text)}: 'ok' and the Core PLEXIL; 'refused' and the compiler's
    messages; 'crash' and what it printed; 'xslt', 'ill-formed'"""
    cp = compiler()
    d = os.path.join(work, 'ple')
    os.makedirs(d, exist_ok=True)
    names = sorted(sources)
    path = {n: os.path.join(d, n + '.ple') for n in names}
    for n in names:
        with open(path[n], 'w', encoding='utf-8') as fh:
            fh.write(sources[n])
        for ext in ('.ple.log', '.epx'):
            if os.path.exists(os.path.join(d, n + ext)):
                os.unlink(os.path.join(d, n + ext))
    k = min(jobs, max(1, len(names) // 10))
    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda i: run_batch(cp, [path[n] for n in names[i::k]], d, 'batch%d' % i), range(k)))
    out, todo = {}, []
    for n in names:
        try:
            with open(path[n] + '.log', encoding='utf-8') as fh:
                st, _, msg = fh.read().partition('\n')
        except OSError:
            out[n] = ('crash', 'the compiler ended without an answer')
            continue
        epx = os.path.join(d, n + '.epx')
        if 'Internal error' in msg or 'Exception' in msg or st == '99':
            out[n] = ('crash', msg)
        elif st != '0' or not os.path.exists(epx):
            out[n] = ('refused', msg)
        else:
            todo.append((n, epx))
    if todo:
        with mp.Pool(min(jobs, len(todo))) as pool:
            for (n, _), r in zip(todo, pool.map(_translate, [e for _, e in todo], chunksize=max(1, len(todo) // (jobs * 4)))):
                out[n] = r
    return out
