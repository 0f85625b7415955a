#!/usr/bin/env python3
"""Compile the executive from /repo/src together with the harnesses in /verif/harness.

The objects go to /verif/build/<hash of every source and header>, so a build is
reused only while nothing it is made of has changed."""
import glob, hashlib, os, subprocess, sys, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
DIRS = ['utils', 'value', 'expr', 'intfc', 'exec', 'xml-parser', 'app-framework']
EXCLUDE = {'analyzePlan.cc', 'JNIHelper.cc', 'JNIUtils.cc', 'DispatchTimebase.cc', 'ItimerTimebase.cc', 'PosixTimebase.cc'}
HARNESSES = {'driver': [], 'appdriver': [], 'parsecheck': [], 'extdriver': []}
# sources of which the scheduler of appdriver sees every memory access
WATCHED = {'appdriver': ['app-framework/ExecApplication.cc', 'app-framework/InterfaceManager.cc',
                         'app-framework/SerializedInputQueue.cc', 'app-framework/SimpleInputQueue.cc',
                         'utils/ThreadSemaphore.cc']}


def sources():
    out = []
    for d in DIRS:
        for f in sorted(glob.glob(os.path.join(SRC, d, '*.cc')) +
                        glob.glob(os.path.join(SRC, d, '*.c'))):
            if os.path.basename(f) not in EXCLUDE:
                out.append(f)
    return out


def digest(defs):
    h = hashlib.sha256()
    files = []
    for d in DIRS:
        for root, _, names in os.walk(os.path.join(SRC, d)):
            if '/test' in root:
                continue
            files += [os.path.join(root, n) for n in names]
    for root, _, names in os.walk(os.path.join(VERIF, 'harness')):
        files += [os.path.join(root, n) for n in names]
    files.append(os.path.abspath(__file__))
    for f in sorted(files):
        if f.endswith(('.cc', '.hh', '.c', '.h', '.gperf', '.py')):
            h.update(f.encode())
            with open(f, 'rb') as fh:
                h.update(fh.read())
    h.update(repr(defs).encode())
    return h.hexdigest()[:20]


def build(targets, tag='plain', cflags='-O0 -g0', verbose=False):
    """Build the named harness executables; returns {name: path}."""
    t0 = time.time()
    dg = digest((tag, cflags, os.environ.get('CXX')))
    top = os.path.join(VERIF, 'build')
    bdir = os.path.join(top, '%s-%s' % (tag, dg))
    os.makedirs(bdir, exist_ok=True)
    # keep only the most recent few builds
    old = sorted((p for p in glob.glob(os.path.join(top, tag + '-*')) if p != bdir),
                 key=os.path.getmtime)
    for p in old[:-8]:
        shutil.rmtree(p, ignore_errors=True)
    inc = ' '.join('-I' + os.path.join(SRC, d) for d in DIRS)
    lines = ['cxxflags = %s -w -include cstdint -include cstring -pthread -I%s -I%s %s'
             % (cflags, os.path.join(VERIF, 'harness'), bdir, inc),
             'rule gperf', '  command = gperf -m 8 --output-file=$out $in',
             'rule cxx', '  command = g++ $cxxflags -MD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc',
             'rule cc', '  command = gcc -w %s -pthread -I%s %s -MD -MF $out.d -c $in -o $out' % (
                 cflags, os.path.join(VERIF, 'harness'), inc), '  depfile = $out.d', '  deps = gcc',
             'rule ar', '  command = rm -f $out && ar crsT $out $in',
             'rule link', '  command = g++ $ldf -rdynamic -pthread $in -o $out -lpugixml -ldl -lrt -lm',
             'build ExpressionMap.hh: gperf %s' % os.path.join(SRC, 'xml-parser', 'ExpressionMap.gperf')]
    objs = []
    for s in sources():
        o = 'obj/%s/%s.o' % (os.path.basename(os.path.dirname(s)), os.path.basename(s))
        objs.append(o)
        dep = ' | ExpressionMap.hh' if s.endswith('createExpression.cc') else ''
        lines.append('build %s: %s %s%s' % (o, 'cc' if s.endswith('.c') else 'cxx', s, dep))
    lines.append('build libexec.a: ar ' + ' '.join(objs))
    for t in targets:
        lines.append('build obj/%s.o: cxx %s' % (t, os.path.join(VERIF, 'harness', t + '.cc')))
        mine = list(objs)
        for w in WATCHED.get(t, []):
            o = 'obj/%s.o' % w
            if o in mine:
                mine[mine.index(o)] = 'objw/%s.o' % w
                lines.append('build objw/%s.o: cxx %s' % (w, os.path.join(SRC, w)))
                lines.append('  cxxflags = %s -O1 -fsanitize=thread -w -include cstdint -include cstring -pthread '
                             '-I%s -I%s %s' % (cflags, os.path.join(VERIF, 'harness'), bdir, inc))
        lines.append('build %s: link obj/%s.o %s' % (t, t, ' '.join(mine)))
        lines.append('  ldf = ' + ('-fsanitize=thread' if 'thread' in cflags else
                                   '-fsanitize=address,undefined' if 'sanitize=address' in cflags else ''))
    with open(os.path.join(bdir, 'build.ninja'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    r = subprocess.run(['ninja', '-C', bdir] + list(targets), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-8000:])
        raise SystemExit('build failed')
    if verbose:
        print('build %.1fs in %s' % (time.time() - t0, bdir))
    return {t: os.path.join(bdir, t) for t in targets}


if __name__ == '__main__':
    names = sys.argv[1:] or ['driver']
    if 'compiler' in names:
        names.remove('compiler')
        import ple
        print(ple.compiler())
    if names:
        print(build(names, verbose=True))
