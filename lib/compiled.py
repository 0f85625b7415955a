"""C26: what is written in the PLEXIL language, compiled, does what the specification says of what was written.

Plans are generated as for the other properties, written out as PLEXIL source text in one of the many ways they can
be, compiled and translated to Core PLEXIL by the real compiler and stylesheets, and run by the real executive; TLC
judges the logs by the plan as generated, which the compiler has never seen.  Programs with one defect must be refused."""
import copy, json, os, random, tempfile, shutil
import build, engine, gen, ple, plan, profiles, run as runner, source
from plan import *

PROPS = ['C%02d' % i for i in range(1, 21)]


def make(sid, key):
    """A scenario and its sources {root or library: text}, or None"""
    r = random.Random(key)
    p = dict(r.choice(profiles.P[r.choice(PROPS)])[1])
    g = engine.gen_class(p)(key, p, sid)
    sc = g.make()
    ad = source.Adapt(r)
    try:
        for n in list(sc.libs.values()) + sc.roots:
            ad.node(n, sc.libs)
        d = source.decls(sc, gen)
        pr = source.Printer(r, source.COMMANDS)
        sc.sources = {n.id: pr.plan(n, d) for n in sc.roots + list(sc.libs.values())}
        sc.spoilt = {}
        if r.random() < .6:
            bad, what = spoil(r, sc)
            if bad is not None:
                sc.spoilt[bad.id] = (pr.plan(bad, d), what)
    except source.Unprintable:
        return None
    return sc


# ---------------------------------------------------------------- defects

def walk(n):
    yield n
    for k in n.kids:
        yield from walk(k)


def spoil(r, sc):
    """A copy of one of the plans with something wrong in it, and what"""
    root = copy.deepcopy(r.choice(sc.roots + list(sc.libs.values())))
    nodes = list(walk(root))
    kinds = list(DEFECTS)
    r.shuffle(kinds)
    for k in kinds:
        r.shuffle(nodes)
        for n in nodes:
            if DEFECTS[k](r, n):
                return root, k
    return None, None


def other(ty, r):
    """A literal that is no ty"""
    return {'b': ('lit', 's', 'a'), 'i': r.choice([('lit', 's', '1'), ('lit', 'r', 1.5), ('lit', 'b', True)]),
            'r': r.choice([('lit', 's', '1.5'), ('lit', 'b', True)]), 's': r.choice([('lit', 'i', 3), ('lit', 'b', False)])}[ty]


def into(r, x, f):
    """x with f applied somewhere inside it, where f gives something"""
    spots = []

    def go(y, path):
        if f(y) is not None:
            spots.append(path)
        if y[0] == 'op':
            for i, a in enumerate(y[3]):
                go(a, path + (i,))
    go(x, ())
    if not spots:
        return None

    def put(y, path):
        if not path:
            return f(y)
        a = list(y[3])
        a[path[0]] = put(a[path[0]], path[1:])
        return y[:3] + (a,) + y[4:]
    return put(x, r.choice(spots))


def in_expr(f):
    """A defect of some expression of the node"""
    def g(r, n):
        spots = list(n.conds) + (['rhs'] if n.ty == 'A' else [])
        r.shuffle(spots)
        for c in spots:
            x = into(r, n.rhs if c == 'rhs' else n.conds[c], lambda y: f(r, y))
            if x is not None:
                if c == 'rhs':
                    n.rhs = x
                else:
                    n.conds[c] = x
                return True
    return g


def scalar(x):
    return x[0] == 'var' and len(x[2]) == 1


def d_op(r, x):
    if x[0] == 'op' and x[1] in ('AND', 'OR', 'XOR', 'NOT'):
        return x[:3] + ([('lit', r.choice('sr'), {'s': 'a', 'r': 1.5}['s'])] if False else [('lit', 's', 'a')] + list(x[3])[1:],) + x[4:]
    if x[0] == 'op' and x[1] in ('ADD', 'SUB', 'MUL', 'LT', 'LE', 'GT', 'GE') and len(x[3]) > 1:
        return x[:3] + ([('lit', 'b', True)] + list(x[3])[1:],) + x[4:]


def d_assign(r, n):
    if n.ty == 'A' and n.lhs[0] == 'var' and len(n.lhs[2]) == 1:
        n.rhs = other(n.lhs[2], r)
        return True


def d_target(r, n):
    if n.ty == 'A':
        n.lhs = ('var', 'nosuch', 'i')
        return True


def d_init(r, n):
    vs = [v for v in n.vars if not v.arr]
    if vs:
        v = r.choice(vs)
        x = other(v.ty, r)
        v.init = x
        return True


def d_twice(r, n):
    if n.vars:
        v = r.choice(n.vars)
        n.vars.append(Var(v.name, r.choice('bird'.replace('d', 's')), False, 0, None))
        return True


def d_cond(r, n):
    if n.conds:
        n.conds[r.choice(sorted(n.conds))] = r.choice([('lit', 's', 'a'), ('lit', 'r', 2.5)])
        return True


def d_mutex(r, n):
    n.using = n.using + ['nosuch']
    return True


def d_lib(r, n):
    if n.ty == 'B':
        n.lib = 'nosuch'
        return True


def d_param(r, n):
    if n.ty == 'B':
        n.aliases = n.aliases + [('nosuch', ('lit', 'i', 1))]
        return True


def d_lookarg(r, x):
    if x[0] == 'look' and x[1][0] == 'lit' and x[1][2] in dict(gen.PARAMS):
        return x[:2] + (tuple(x[2]) + (('lit', 'i', 1),),) + x[3:]


def d_elt(r, x):
    if scalar(x):
        return ('elt', x, ('lit', 'i', 0), x[2])


def d_index(r, x):
    if x[0] == 'elt':
        return ('elt', x[1], ('lit', 's', 'a'), x[3])


def d_size(r, n):
    vs = [v for v in n.vars if v.arr and v.mx]
    if vs:
        v = r.choice(vs)
        v.init = ('alit', v.ty, [{'b': True, 'i': 1, 'r': 1.5, 's': 'a'}[v.ty]] * (v.mx + 1))
        return True


DEFECTS = {
    'a variable nobody declared': in_expr(lambda r, x: ('var', 'nosuch', x[2]) if scalar(x) else None),
    'an operand of a wrong type': in_expr(d_op),
    'a value of a wrong type assigned': d_assign,
    'an assignment to a variable nobody declared': d_target,
    'an initial value of a wrong type': d_init,
    'two declarations of a variable': d_twice,
    'a condition that is not Boolean': d_cond,
    'a mutex nobody declared': d_mutex,
    'a library node nobody declared': d_lib,
    'a library node parameter nobody declared': d_param,
    'a lookup with too many parameters': in_expr(d_lookarg),
    'an element of what is no array': in_expr(d_elt),
    'an array index that is no number': in_expr(d_index),
    'an initial value longer than its array': d_size,
}


# ---------------------------------------------------------------- judgement

def conform(res, scs, driver, work, jobs=8):
    src, by = {}, {}
    for s in scs:
        for n, t in s.sources.items():
            src['%s.%s' % (s.id, n)] = t
        for n, (t, what) in s.spoilt.items():
            src['%s.%s.bad' % (s.id, n)] = t
    out = ple.compile_all(src, work, jobs)
    good = []
    for s in scs:
        ok = True
        for n, t in s.sources.items():
            st, msg = out['%s.%s' % (s.id, n)]
            if st == 'ok':
                s.core[n] = msg
                continue
            ok = False
            why = {'refused': 'a well-formed program is refused: ', 'crash': 'the compiler fails on a well-formed program: ',
                   'ill-formed': '', 'xslt': 'a program the stylesheets cannot translate: '}[st] + msg
            report(res, s.id, why, {n: t}, 'ok')
        for n, (t, what) in s.spoilt.items():
            st, msg = out['%s.%s.bad' % (s.id, n)]
            res.count(defects=1)
            if st == 'refused' or st == 'crash' and 'Error: ' in msg:
                continue        # (it may lose its way after the first error)
            if out['%s.%s' % (s.id, n)][0] == 'ok':
                report(res, s.id + '_bad.' + n, {'crash': 'the compiler fails on a program with a defect (%s): %s' % (what, msg)}.get(
                    st, 'a program with a defect is accepted: ' + what), {n: t}, 'refused')
        if ok:
            good.append(s)
    res.count(programs=len(src))
    if good:
        engine.conform(res, good, driver, work, jobs)


def report(res, name, why, sources, want):
    if len(res.violations) < 8:
        res.violation(name, '%s: %s' % (name, ' '.join(why.split())[:500]),
                      dict({'program.txt': json.dumps({'sources': sources, 'want': want})},
                           **{n + '.ple': t for n, t in sources.items()}))


def replay(prop, d):
    """Compile a saved program again"""
    c = json.load(open(os.path.join(d, 'program.txt')))
    work = tempfile.mkdtemp(prefix='verif_replay_')
    try:
        out = ple.compile_all(c['sources'], work, 1)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    bad = [(n, v) for n, v in out.items() if v[0] != c['want'] and not (
        c['want'] == 'refused' and v[0] == 'crash' and 'Error: ' in v[1])]
    for n, v in bad:
        print(n, v[0], v[1][:300] if v[0] != 'ok' else '')
    if bad:
        print('VIOLATION property=%s replay=%s' % (prop, d))
        return 1
    print('%s as it should be' % c['want'])
    return 0


def check(res, prop, tier, seed, work, n):
    res.assumptions = (res.assumptions or []) + [
        'Source text says what lib/source.py takes it to say; what a generated plan holds and source cannot say is replaced first.',
        'The stylesheets are run by an XSLT processor of ours (lib/xslt.py); there is no Saxon here.']
    drv = build.build(['driver'])['driver']
    for i in range(0, n, 1600):
        scs = [make('%s_%d' % (prop, j), '%s/%d/%d' % (prop, seed, j)) for j in range(i, min(n, i + 1600))]
        conform(res, [s for s in scs if s is not None], drv, work)
        if res.violations:
            break
