"""All behaviours of small plans: TLC explores PlexilMC, the schedules it prints
become scenarios for the real executive."""
import concurrent.futures as cf, json, os, random, re
import gen, profiles, templates, run as runner
from plan import *

TINY = dict(depth=2, kids=(1, 2), maxnodes=4, edepth=1, nvars=(0, 1), reals=.1, strings=0, args=.1, arrays=.05, roots=1,
            arrops=0, libs=(1, 1), timepts=.03)
VALS = {'b': [['b', 1], ['b', 0], ['u']], 'i': [['i', 1], ['i', 3], ['i', 0], ['u']],
        'r': [['r', 8], ['r', 24], ['r', -16], ['u']], 's': [['s', 'a'], ['s', 'ab'], ['u']],
        'ai': [['a', [['i', 1], ['i', 2], ['u']]], ['a', [['u'], ['i', 2], ['i', 0]]], ['u']],
        'ab': [['a', [['b', 1], ['u'], ['b', 0]]], ['a', [['b', 1], ['b', 1], ['b', 1]]], ['u']],
        'ar': [['a', [['r', 8], ['u'], ['r', 24]]], ['a', [['r', 0], ['r', -16], ['r', 8]]], ['u']],
        'as': [['a', [['s', 'a'], ['s', ''], ['s', 'b']]], ['a', [['s', 'ab'], ['s', 'a'], ['s', 'a']]], ['u']]}
ACKS = ['COMMAND_FAILED', 'COMMAND_SENT_TO_SYSTEM', 'COMMAND_DENIED', 'COMMAND_RCVD_BY_SYSTEM',
        'COMMAND_INTERFACE_ERROR', 'COMMAND_ACCEPTED']
TYPES = dict(gen.STATES_OF, **dict(gen.GATES))


class Case:
    """A scenario without script, the alphabet of events, what the world says at first"""

    def __init__(self, sc, ev, w0, depth, timed, mx):
        self.sc, self.ev, self.w0, self.depth, self.timed, self.mx = sc, ev, w0, depth, timed, mx

    def json(self):
        return {'plan': self.sc.lower(), 'ev': self.ev, 'w0': self.w0, 'depth': self.depth,
                'timed': self.timed, 'max': self.mx}


def keys_of(P):
    out = []
    for L in P['lks']:
        if L['n'][0] != 'c' or any(a[0] != 'c' or a[1] == ['u'] for a in L['args']):
            continue
        k = [L['n'][1][1]] + [a[1] for a in L['args']]
        if k not in out:
            out.append(k)
    return out


def alphabet(sc, r, nkeys=3, nvals=2, gates={}):
    P = sc.lower()
    ev, w0, timed = [], [], False
    for b in sc.low.bases:
        ev.append({'k': 'plan', 'n': b})
    keys = keys_of(P)
    if ['time'] in keys or '"nt"' in json.dumps(P):
        timed = True
        ev += [{'k': 'time', 'v': ['r', 16 * i]} for i in (1, 2, 3)]
    keys = [k for k in keys if k != ['time']]
    r.shuffle(keys)
    for i, k in enumerate(keys):
        vs = list(VALS[TYPES[k[0]]])
        if r.random() < .5:
            r.shuffle(vs)
        vs = vs[:nvals]
        if k[0] in gates and nvals == 2 and ['b', int(not gates[k[0]])] not in vs:
            vs[0] = ['b', int(not gates[k[0]])]
        if i < nkeys:
            kind = 'pub' if r.random() < .85 else 'env'
            ev += [{'k': kind, 's': k, 'v': v} for v in vs]
        if k[0] in gates:
            w0.append({'k': k, 'v': ['b', int(gates[k[0]])]})
        elif r.random() < .75:
            w0.append({'k': k, 'v': r.choice(vs)})
    for i, n in enumerate(P['nodes']):
        if n['ty'] == 'C':
            acks = ['COMMAND_SUCCESS'] + ([r.choice(ACKS)] if r.random() < .5 else [])
            ev += [{'k': 'ack', 'n': i + 1, 'v': a} for a in acks]
            if n['dst'] != ['0']:
                ty = sc.low.rett[i + 1]
                vs = [v for v in VALS.get('a' + ty.lower() if ty.isupper() else ty, [['u']])]
                r.shuffle(vs)
                ev.append({'k': 'ret', 'n': i + 1, 'v': vs[0]})
            ev.append({'k': 'aack', 'n': i + 1, 'v': True})
            if r.random() < .3:
                ev.append({'k': 'aack', 'n': i + 1, 'v': False})
        if n['ty'] == 'U':
            ev.append({'k': 'uack', 'n': i + 1, 'v': True})
            if r.random() < .3:
                ev.append({'k': 'uack', 'n': i + 1, 'v': False})
    return ev, w0, timed


def tiny(prop, i, seed, mx, depth):
    """A small random plan of the kinds the property favours"""
    r = random.Random('mc/%s/%d/%d' % (prop, seed, i))
    profs = profiles.P[prop]
    x = r.random() * sum(w for w, _ in profs)
    for w, p in profs:
        x -= w
        if x < 0:
            break
    if r.random() < .6:
        p = profs[-1][1]            # directed shapes
    if 'template' in p:
        g = templates.Templ('mc/%s/%d/%d' % (prop, seed, i), dict(p, observers=(1, 2)), '%s_m%d' % (prop, i))
        sc = g.make()
        sc.script = []
        ev, w0, timed = alphabet(sc, r, gates=g.gates)
        return Case(sc, ev, w0, depth, timed, mx)
    q = dict(p)
    q.update(TINY)
    q['maxnodes'] = r.choice([2, 3, 3, 4, 5])
    if q['maxnodes'] > 3:
        q['depth'] = r.choice([2, 3])
    roots = p.get('roots', 1)
    if roots != 1:
        q['roots'] = 2
        q['maxnodes'] = 2
    if prop in ('C15', 'C14'):
        q['reals'] = p.get('reals', .3)
    if prop == 'C17':
        q['arrays'] = .8
    if prop in ('C16',):
        q['edepth'] = 3
    g = gen.Gen('mc/%s/%d/%d' % (prop, seed, i), q, '%s_m%d' % (prop, i))
    sc = g.make()
    sc.script = []
    ev, w0, timed = alphabet(sc, r)
    return Case(sc, ev, w0, depth, timed, mx)


def opval(v):
    if v[0] == 'a':
        return 'A%s:%s' % (next((x[0] for x in v[1] if x[0] != 'u'), 'i'),
                          ';'.join('u' if x[0] == 'u' else pct(str(x[1])) if x[0] == 's' else str(x[1]) for x in v[1]))
    return 'u' if v[0] == 'u' else '%s:%s' % (v[0], pct(v[1]) if v[0] == 's' else v[1])


def script(case, hist):
    s = [['time', 'r:0']]
    for w in case.w0:
        s.append(['env', w['k'][0]] + [opval(a) for a in w['k'][1:]] + [opval(w['v'])])
    for lib in case.sc.libs:
        s.append(['lib', lib])
    for h in hist:
        if h == 0:
            s.append(['step'])
            continue
        e = case.ev[h - 1]
        k = e['k']
        if k == 'plan':
            s.append(['plan', case.sc.low.bases.index(e['n'])])
        elif k in ('pub', 'env'):
            s.append([k, e['s'][0]] + [opval(a) for a in e['s'][1:]] + [opval(e['v'])])
        elif k == 'time':
            s.append(['time', opval(e['v'])])
        elif k == 'ack':
            s.append(['ack', '@%d' % e['n'], e['v']])
        elif k == 'ret':
            s.append(['ret', '@%d' % e['n'], '=' + opval(e['v'])])
        else:
            s.append([k, '@%d' % e['n'], 1 if e['v'] else 0])
    # and to the end
    s.append(['idle'])
    for _ in range(2):
        for j in range(2):
            s += [['ack', j, 'COMMAND_SUCCESS'], ['aack', j, 1], ['uack', j, 1]]
        s.append(['idle'])
    return s


SCHED = re.compile(r'<<"SCHED", (\d+), <<([\d, \n]*)>>>>')


def explore_chunk(cases, work, name, timeout):
    f = os.path.join(work, name + '.json')
    with open(f, 'w') as fh:
        json.dump([c.json() for c in cases], fh)
    rc, out = runner.tlc('PlexilMC', 'PlexilMC.cfg', {'PLANS': f}, timeout=timeout)
    hs = [set() for _ in cases]
    for m in SCHED.finditer(out):
        hs[int(m.group(1)) - 1].add(tuple(int(x) for x in m.group(2).split(',')))
    st = runner.STAT.findall(out)
    err = None
    if rc not in (0, 124):
        i = out.find('Error:')
        err = out[i:i + 3000]
    return hs, tuple(map(int, st[-1])) if st else (0, 0), err, rc == 0


def leaves(hs):
    """Schedules which are no proper prefix of others"""
    pre = set()
    for h in hs:
        for i in range(1, len(h)):
            pre.add(h[:i])
    return sorted(h for h in hs if h not in pre)


def explore(cases, work, jobs=8, timeout=300):
    """-> [(case, schedules)], (generated, distinct), errors, edges, complete"""
    if not cases:
        return [], (0, 0), [], 0, True
    chunks = [cases[i::jobs * 2] for i in range(jobs * 2) if cases[i::jobs * 2]]
    out, g, d, errs, edges, comp = [], 0, 0, [], 0, True
    with cf.ThreadPoolExecutor(jobs) as ex:
        fs = [ex.submit(explore_chunk, c, work, 'mc%d' % i, timeout) for i, c in enumerate(chunks)]
        for c, f in zip(chunks, fs):
            hs, (a, b), e, ok = f.result()
            g += a
            d += b
            comp = comp and ok
            if e:
                errs.append(e)
            for case, h in zip(c, hs):
                edges += len(h)
                out.append((case, leaves(h)))
    return out, (g, d), errs, edges, comp


def scenario(case, hist, sid):
    sc = Scenario(sid)
    o = case.sc
    sc.roots, sc.libs, sc.decls, sc.hier, sc.hiertext, sc.anyres = o.roots, o.libs, o.decls, o.hier, o.hiertext, o.anyres
    sc.script = script(case, hist)
    return sc
