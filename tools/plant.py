#!/usr/bin/env python3
"""plant.py ID...: try planted bugs: tests, check of their property, demonstration.
   -p PROP: use another property's check;  -s SCENARIO-DIR: use that scenario for the demo"""
import glob, json, os, re, shutil, subprocess, sys
V = '/verif'


def sh(c, **kw):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    args, prop, scen = [], None, None
    a = sys.argv[1:]
    while a:
        x = a.pop(0)
        if x == '-p':
            prop = a.pop(0)
        elif x == '-s':
            scen = a.pop(0)
        else:
            args.append(x)
    for id in args:
        d = '%s/seeded/%s' % (V, id)
        p = prop or json.load(open(d + '/meta.json'))['property']
        if sh('git -C /repo apply %s/patch.diff' % d).returncode:
            print(id, 'DOES NOT APPLY')
            continue
        try:
            t = sh('bash %s/tools/rt.sh' % V).stdout
            ok = 'missing: []' in t
            r = sh('cd %s && python3 check.py %s' % (V, p))
            viol = re.findall(r'^VIOLATION property=\S+ replay=(\S+)', r.stdout, re.M)
            print('%-28s tests %s; check %s exit %d, %d violations: %s' % (
                id, 'pass' if ok else 'FAIL ' + t[-300:], p, r.returncode, len(viol),
                '|'.join(l.strip()[:150] for l in r.stdout.splitlines() if 'record' in l)[:300]))
            if r.returncode not in (0, 1):
                print(r.stdout[-2000:])
            best = scen
            if viol and not scen and 'driver' != None:
                c = [v for v in viol if os.path.exists(v + '/scenario.txt')]
                best = min(c, key=lambda v: os.path.getsize(v + '/log.json')) if c else None
            apps = [v for v in viol if os.path.exists(v + '/app.txt')]
            if apps and not os.path.exists(d + '/demo.sh'):
                for f in ('appdriver.cc', 'common.hh', 'plexil-config.h'):
                    shutil.copy(V + '/harness/' + f, d)
                shutil.copy(V + '/tools/demo_app.py', d)
                shutil.copy(V + '/tools/demo_app.sh', d + '/demo.sh')
                open(d + '/app.txt', 'w').write(''.join(open(v + '/app.txt').read() for v in apps))
            exts = [v for v in viol if os.path.exists(v + '/ext.txt')]
            srcs = [v for v in viol if os.path.exists(v + '/sources.json')]
            if (exts or srcs) and not scen and not os.path.exists(d + '/demo.sh'):
                v = min(exts or srcs, key=lambda v: os.path.getsize(v + '/log.json'))
                for f in (['extdriver.cc'] if exts else ['driver.cc']) + ['common.hh', 'plexil-config.h']:
                    shutil.copy(V + '/harness/' + f, d)
                os.makedirs(d + '/lib')
                for f in ('ple.py', 'xslt.py', 'build.py'):
                    shutil.copy(V + '/lib/' + f, d + '/lib')
                shutil.copytree(V + '/harness/ple', d + '/harness/ple')
                shutil.copy(V + '/tools/demo_ple.py', d)
                shutil.copy(V + '/tools/demo_ple.sh', d + '/demo.sh')
                if exts:
                    shutil.copy(v + '/ext.txt', d)
                else:
                    sys.path.insert(0, V + '/lib')
                    from plan import pct
                    c = json.load(open(v + '/sources.json'))
                    t = open(v + '/scenario.txt').read()
                    for n in c['core']:
                        t = t.replace(pct(c['core'][n]), '@@%s@@' % n)
                    open(d + '/scenario.txt', 'w').write(t)
                    json.dump({'sources': c['sources']}, open(d + '/sources.json', 'w'))
                best = None
            if best and not os.path.exists(d + '/demo.sh'):
                for f in ('harness/driver.cc', 'harness/common.hh', 'harness/plexil-config.h', 'tools/demo_run.py', 'tools/demo.sh'):
                    shutil.copy(V + '/' + f, d)
                shutil.copy(best + '/scenario.txt', d)
        finally:
            sh('git -C /repo checkout -- .')
        if not os.path.exists(d + '/demo.sh'):
            continue
        sh('bash /opt/vp/build-cpp.sh')
        if os.path.exists(d + '/demo_run.py') or os.path.exists(d + '/demo_ple.py'):
            x = sh('bash %s/demo.sh record' % d, cwd='/repo')
        x = sh('bash %s/demo.sh' % d, cwd='/repo')
        print('   demo clean', x.returncode, x.stdout.strip()[:200])
        sh('git -C /repo apply %s/patch.diff' % d)
        try:
            sh('bash /opt/vp/build-cpp.sh')
            x = sh('bash %s/demo.sh' % d, cwd='/repo')
            print('   demo bug  ', x.returncode, x.stdout.strip()[:700])
        finally:
            sh('git -C /repo checkout -- .')
            sh('bash /opt/vp/build-cpp.sh')


main()
