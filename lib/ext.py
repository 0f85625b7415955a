"""C27: sequences, branches, loops, attempts, waits and synchronous commands, as programs of the PLEXIL language,
compiled, translated and run for real, and judged by what spec/ExtPlexil.tla says of them."""
import json, os, random, re, subprocess, tempfile, shutil
import build, ple, run as runner

NONE = ['none']
LOOKS = [('La', 'i'), ('Lb', 'i'), ('Lc', 'b'), ('Ld', 'b')]       # and Lx and Ly, which only grow
CMP = ['<', '<=', '>', '>=', '==', '!=']


class St:
    def __init__(self, k, **kw):
        self.k, self.nm, self.kids = k, '', []
        self.conds = {}
        self.dec, self.lhs, self.e, self.e2, self.args, self.cmd = [], '', NONE, NONE, [], ''
        self.tests, self.els, self.chk, self.tmo, self.tol, self.d, self.xtol = [], False, False, -1, 0, 0, None
        self.__dict__.update(kw)


class Gen:
    def __init__(self, key):
        self.r = random.Random(key)
        self.n = self.nv = self.nc = 0
        self.root = None
        self.timed = 0

    def ch(self, p):
        return self.r.random() < p

    def var(self, ty):
        self.nv += 1
        return '%s%d' % ('x' if ty == 'i' else 'y', self.nv)

    # expressions over the variables of scope: {'i': [...], 'b': [...]}
    def ie(self, sc, d=2, look=False):
        r = self.r
        k = r.random()
        if d and k < .35:
            return ['op', r.choice('+-*' if d > 1 else '+-'), [self.ie(sc, d - 1, look), self.ie(sc, 0, look)]]
        if k < .75 and sc['i']:
            return ['v', r.choice(sc['i'])]
        if look and k < .85:
            return ['l', r.choice([n for n, t in LOOKS if t == 'i'])]
        return ['i', r.randint(-1, 4)]

    def be(self, sc, d=2, look=False):
        r = self.r
        k = r.random()
        if look and k < look:
            if self.ch(.5):
                return ['l', r.choice([n for n, t in LOOKS if t == 'b'])]
            return ['op', r.choice(CMP), [['l', r.choice([n for n, t in LOOKS if t == 'i'])], ['i', r.randint(0, 3)]]]
        if d and k < .5:
            o = r.choice(['and', 'or', 'not', 'and', 'or'])
            return ['op', o, [self.be(sc, d - 1, look), self.be(sc, 0, look)]]
        if k < .62 and sc['b']:
            return ['v', r.choice(sc['b'])]
        if k < .95 and sc['i']:
            return ['op', r.choice(CMP), [['v', r.choice(sc['i'])], self.ie(sc, 0) if self.ch(.3) else ['i', r.randint(-1, 4)]]]
        return ['b', int(self.ch(.5))]

    def gate(self):
        """A condition the world decides"""
        if self.ch(.7):
            return ['l', self.r.choice(['Lc', 'Ld'])]
        return ['op', self.r.choice(['>', '<=', '==', '!=']), [['l', self.r.choice(['La', 'Lb'])], ['i', self.r.randint(0, 3)]]]

    def conds(self, s, sc, only='start skip pre post rep'):
        r = self.r
        if self.ch(self.pc):
            for c in r.sample(only.split(), r.choice([1, 1, 1, 2, 2, 3]) if len(only.split()) > 2 else 1):
                if c == 'start':
                    s.conds[c] = self.gate()
                elif c == 'skip':
                    s.conds[c] = self.gate() if self.ch(.3) else self.be(sc, 1)
                elif c == 'pre':
                    s.conds[c] = self.be(sc, 1) if self.ch(.5) else ['b', 1]
                elif c == 'post':
                    s.conds[c] = self.be(sc, 1)
                elif c == 'rep':
                    s.conds[c] = NONE       # set by the caller

    def name(self, s, p=.6):
        if self.ch(p):
            self.n += 1
            s.nm = 'N%d' % self.n

    def local(self, s, sc, p=.2):
        """Declarations; the scope with them"""
        new = {t: list(v) for t, v in sc.items()}
        if self.ch(p):
            for _ in range(self.r.choice([1, 1, 2])):
                t = self.r.choice('iib')
                x = self.var(t)
                # the elements of an array are variables like any others
                for y in [x] if self.ch(.75) else [x + '[0]', x + '[1]']:
                    s.dec.append([y, ['i', self.r.randint(-1, 4)] if t == 'i' else ['b', int(self.ch(.5))]])
                    new[t].append(y)
        return new

    def set(self, sc, down=None):
        s = St('A')
        t = 'i' if sc['i'] and (not sc['b'] or self.ch(.7)) else 'b'
        s.lhs = self.r.choice(sc[t])
        s.e = self.ie(sc, 2, True) if t == 'i' else self.be(sc, 1, .2)
        return s

    def leaf(self, sc, loop=False):
        r = self.r
        k = r.random()
        if k < .42 and (sc['i'] or sc['b']):
            s = self.set(sc)
        elif k < .5:
            s = St('E')
            if self.ch(.5):
                s.conds['end'] = self.gate()
        elif k < .62:
            self.nc += 1
            s = St('C', args=[self.ie(sc, 1) for _ in range(r.choice([0, 1, 1, 2]))])
            t = r.choice('vvib')
            if t in 'ib' and sc[t]:
                s.lhs = r.choice(sc[t])
            else:
                t = 'v'
            s.cmd = '%sa%d' % (t, self.nc)
        elif k < .68:
            self.nc += 1
            s = St('U', cmd='u%d' % self.nc, args=[self.ie(sc, 1)])
        elif k < .8:
            s = St('W', d=r.choice([8, 16, 16, 24, 32, 48]))
            if self.ch(.3):
                s.xtol = r.choice([8, 16])
            s.tol = s.d if s.xtol is None else s.xtol
            self.timed += 1
        else:
            self.nc += 1
            s = St('S', args=[self.ie(sc, 1) for _ in range(r.choice([0, 1, 1]))])
            t = r.choice('vvib')
            if t in 'ib' and sc[t] and not self.ending:
                s.lhs = r.choice(sc[t])
            else:
                t = 'v'
            s.cmd = '%ss%d' % (t, self.nc)
            s.chk = self.ch(.5)
            if self.ch(.4) and (s.chk or not s.lhs):
                s.tmo = r.choice([8, 16, 32])
                self.timed += 1
                if self.ch(.3):
                    s.xtol = s.tol = r.choice([4, 8])
        return s

    def split(self, sc, n):
        """Disjoint parts of a scope"""
        parts = [{'i': [], 'b': []} for _ in range(n)]
        for t in sc:
            vs = list(sc[t])
            self.r.shuffle(vs)
            for i, v in enumerate(vs):
                parts[i % n][t].append(v)
        return parts

    def stmt(self, sc, budget, where=''):
        """where: the kind of statement this is directly inside"""
        r = self.r
        if budget <= 1 or self.ch(.12):
            s = self.leaf(sc)
            self.name(s, .5)
            self.conds(s, sc, 'start skip pre post')
            self.fix(s, sc)
            return s
        k = r.choices(['SEQ', 'USEQ', 'TRY', 'CONC', 'IF', 'WHILE', 'DO', 'FOR'], [5, 2, 3, 3, 5, 3, 3, 3])[0]
        s = St(k)
        self.name(s)
        new = self.local(s, sc, .25 if k != 'FOR' else .15)
        self.conds(s, sc, 'start skip pre post rep')
        # what ends it early: then no results of synchronous commands inside it
        if not self.ending and 'rep' not in s.conds and self.ch(self.pe):
            s.conds['end'] = ['op', '>=', [['l', 'Ly'], ['i', r.randint(1, 3)]]]
            self.ending = True
        # what stops it
        if self.ch(self.px):
            s.conds['exit'] = ['op', '>=', [['l', 'Lx'], ['i', r.randint(1, 4)]]]
        if self.ch(self.px) and 'rep' not in s.conds:
            s.conds['inv'] = ['op', '<', [['l', 'Lx'], ['i', r.randint(1, 4)]]]
        if k in ('SEQ', 'USEQ', 'TRY', 'CONC'):
            n = min(r.choice([1, 2, 2, 2, 3, 3, 3, 4] if k in ('USEQ', 'CONC')
                             else [2, 2, 3, 3, 4]), budget)
            parts = [new] * n
            if k == 'CONC':
                parts = self.split(new, n)
            share = [1] * n
            for _ in range(budget - n):
                share[r.randrange(n)] += 1
            for i in range(n):
                s.kids.append(self.stmt(parts[i], share[i], k))
        elif k == 'IF':
            nt = r.choice([1, 1, 1, 2, 2, 3])
            s.els = self.ch(.6)
            s.tests = [self.be(new, 1, .3) for _ in range(nt)]
            n = nt + s.els
            for i in range(n):
                s.kids.append(self.stmt(new, max(1, (budget - 1) // n), 'IF'))
            # a single test is watched until its branch begins
            if nt == 1 and any(gated(k) for k in s.kids):
                s.tests = [self.be(new, 1)]
        elif k == 'FOR':
            x = self.var('i')
            lo, up = r.randint(0, 2), r.randint(0, 3)
            s.dec = s.dec + [[x, ['i', lo]]]
            s.lhs = x
            step = r.choice([1, 1, 2])
            if self.ch(.3):
                s.dec[-1][1] = ['i', up]
                s.e = ['op', r.choice(['>', '>=', '!=']) if step == 1 and up >= 0 else '>', [['v', x], ['i', 0]]]
                s.e2 = ['op', '-', [['v', x], ['i', step]]]
            else:
                s.e = ['op', '<', [['v', x], ['i', up]]] if self.ch(.7) else ['op', '<=', [['v', x], ['i', up]]]
                s.e2 = ['op', '+', [['v', x], ['i', step]]]
            if self.ch(.2):
                look = ['l', r.choice(['La', 'Lb'])]
                s.e2 = ['op', '+', [s.e2, ['op', '*', [look, look]]]]
                s.e = ['op', r.choice(['<', '<=']), [['v', x], ['i', up]]]
                s.dec[-1][1] = ['i', lo]
                s.e2[2][0][1] = '+'
            body = {t: list(v) for t, v in new.items()}
            s.kids = [self.stmt(body, budget - 1, 'FOR')]
            self.reads(s.kids[0], x)
        else:
            # a counter ends it
            x = self.var('i')
            top = r.randint(0, 3)
            self.counter(s, x, top, sc, new, budget, where)
        self.fix(s, new)
        if 'end' in s.conds:
            self.ending = False
        return s

    def reads(self, s, x):
        """Let something in s read x"""
        def go(t):
            if t.k == 'A' and t.lhs[0] == 'x' and not hasattr(t, 'count') and self.ch(.5):
                t.e = ['op', self.r.choice('+-'), [['v', x], t.e if len(json.dumps(t.e)) < 40 else ['i', 1]]]
            if t.args and self.ch(.5):
                t.args = [['v', x]] + t.args[1:]
            if t.k == 'IF' and self.ch(.4):
                t.tests = [['op', '==', [['v', x], ['i', self.r.randint(0, 2)]]]] + t.tests[1:]
            for k in t.kids:
                go(k)
        go(s)

    def counter(self, s, x, top, sc, new, budget, where):
        r = self.r
        inc = St('A', lhs=x, e=['op', '+', [['v', x], ['i', 1]]], count=1)
        self.name(inc, .3)
        body = St('SEQ' if self.ch(.5) else 'USEQ')
        if s.k != 'DO':
            self.name(body, .5)
        kids = [self.stmt(new, max(1, budget - 2), body.k)]
        at = r.randint(0, 1)
        # the counter must go up: in a checked sequence, before anything may fail
        if body.k == 'SEQ':
            at = 0
        kids.insert(at, inc)
        body.kids = kids
        self.reads(kids[1 - at], x)
        if r.random() < .25 and body.kids[1 - at].k != 'E':
            body.kids = [inc]
            if s.k == 'DO':
                inc.nm = ''
            body = inc
        s.kids = [body]
        t = ['op', '<', [['v', x], ['i', top]]]
        if self.ch(.35):
            t = ['op', 'and', [t, self.be(new, 0, .4)]]
        s.e = t
        s.counter = x
        # declared here or further out
        self.outer.append([x, ['i', 0]]) if self.ch(.4) \
            else s.dec.append([x, ['i', 0]])

    def fix(self, s, sc):
        """Repetitions must end"""
        if 'rep' not in s.conds:
            return
        if s.k not in ('SEQ', 'USEQ', 'CONC'):
            del s.conds['rep']
            return
        s.conds.pop('pre', None)        # one that fails would fail for ever
        x = self.var('i')
        self.outer.append([x, ['i', 0]])
        inc = St('A', lhs=x, e=['op', '+', [['v', x], ['i', 1]]], count=1)
        self.name(inc, .3)
        s.kids.insert(0, inc)
        s.conds['rep'] = ['op', '<', [['v', x], ['i', self.r.randint(1, 3)]]]

    def make(self):
        r = self.r
        self.pc = r.choice([0, .1, .25, .4])
        self.px = r.choice([0, 0, .1, .3])
        self.pe = r.choice([0, 0, .1, .3])
        self.ending = False
        self.outer = []
        n = {'i': 0, 'b': 0}
        decs, sc = [], {'i': [], 'b': []}
        for _ in range(r.randint(2, 6)):
            t = r.choice('iib')
            x = self.var(t)
            decs.append([x, ['i', r.randint(-1, 4)] if t == 'i' else ['b', int(self.ch(.5))]])
            sc[t].append(x)
        root = St(r.choice(['SEQ', 'USEQ', 'CONC', 'TRY', 'USEQ']))
        root.nm = 'N0'
        n = r.choice([2, 2, 3])
        parts = [sc] * n
        if root.k == 'CONC':
            parts = self.split(sc, n)
        b = r.choice([3, 5, 7, 9])
        for i in range(n):
            root.kids.append(self.stmt(parts[i], max(1, b // n + r.randint(0, 1)), root.k))
        root.dec = decs + self.outer
        return root


def gated(s):
    return 'start' in s.conds or s.k == 'DO' and gated(s.kids[0])


def walk(s):
    yield s
    for k in s.kids:
        yield from walk(k)


# ---------------------------------------------------------------- as the specification has it

def lower(root):
    sts = list(walk(root))
    idx = {id(s): i + 1 for i, s in enumerate(sts)}
    par = {id(k): idx[id(s)] for s in sts for k in s.kids}
    out = []
    for s in sts:
        d = {'k': s.k, 'nm': s.nm, 'kids': [idx[id(k)] for k in s.kids], 'dec': s.dec, 'lhs': s.lhs, 'e': s.e, 'e2': s.e2,
             'par': par.get(id(s), 0), 'args': s.args, 'cmd': s.cmd, 'tests': s.tests, 'els': s.els, 'chk': s.chk, 'tmo': s.tmo, 'tol': s.tol, 'd': s.d}
        for c in ('start', 'skip', 'pre', 'post', 'rep', 'end', 'exit', 'inv'):
            d[c] = s.conds.get(c, NONE)
        out.append(d)
    return out


# ---------------------------------------------------------------- as source

KW = {'skip': ('SkipCondition', 'Skip'), 'start': ('StartCondition', 'Start'), 'pre': ('PreCondition', 'Pre'),
      'exit': ('ExitCondition', 'Exit'), 'inv': ('InvariantCondition', 'Invariant'), 'post': ('PostCondition', 'Post'), 'end': ('EndCondition', 'End'), 'rep': ('RepeatCondition', 'Repeat')}


class Printer:
    def __init__(self, r):
        self.r = r

    def ch(self, p):
        return self.r.random() < p

    def pick(self, s):
        return s[self.r.randrange(len(s))]

    def e(self, x):
        if x[0] == 'i':
            return '%d' % x[1]
        if x[0] == 'b':
            return 'true' if x[1] else 'false'
        if x[0] == 'v':
            return x[1]
        if x[0] == 'l':
            return 'Lookup(%s)' % x[1]
        o, a = x[1], x[2]
        if o == 'not':
            return '%s(%s)' % (self.pick(['!', 'NOT ']), self.e(a[0]))
        if o == 'known':
            return 'isKnown(%s)' % self.e(a[0])
        p = lambda y: '(%s)' % self.e(y) if y[0] == 'op' else self.e(y)
        return '%s %s %s' % (p(a[0]), {'and': self.pick(['&&', 'AND']), 'or': self.pick(['||', 'OR'])}.get(o, o), p(a[1]))

    def secs(self, v):
        return self.pick(['%s' % (v / 16.0)])

    def core(self, s):
        """The statement without its name, declarations and conditions; whether it can stand in a block that has them"""
        k = s.k
        if k == 'A':
            return '%s = %s;' % (s.lhs, self.e(s.e))
        if k == 'C':
            return '%s%s(%s);' % (s.lhs + ' = ' if s.lhs else '', s.cmd, ', '.join(self.e(a) for a in s.args))
        if k == 'U':
            return 'Update %s = %s;' % (s.cmd, self.e(s.args[0]))
        if k == 'W':
            return 'Wait %s%s;' % (self.secs(s.d), '' if s.xtol is None else ', ' + self.secs(s.xtol))
        if k == 'S':
            o = []
            if s.chk:
                o.append('Checked')
            if s.tmo >= 0:
                o.append('Timeout %s%s' % (self.secs(s.tmo), '' if s.xtol is None else ', ' + self.secs(s.xtol)))
            self.r.shuffle(o)
            return 'SynchronousCommand %s%s(%s)%s;' % (s.lhs + ' = ' if s.lhs else '', s.cmd,
                                                       ', '.join(self.e(a) for a in s.args), ''.join(' ' + x for x in o))
        if k == 'IF':
            t = ''
            for i, c in enumerate(s.tests):
                t += '%s %s %s\n' % ('if' if i == 0 else 'elseif', self.paren(c), self.stmt(s.kids[i], 'then'))
            if s.els:
                t += 'else %s\n' % self.stmt(s.kids[-1])
            return t + self.pick(['endif', 'endif', 'endif;'])
        if k == 'WHILE':
            return 'while %s %s' % (self.paren(s.e), self.stmt(s.kids[0]))
        if k == 'DO':
            return 'do %s while %s;' % (self.stmt(s.kids[0]), self.e(s.e))
        if k == 'FOR':
            return 'for (Integer %s = %s; %s; %s) %s' % (s.lhs, self.e(s.dec[-1][1]), self.e(s.e), self.e(s.e2),
                                                       self.stmt(s.kids[0]))

    def paren(self, x):
        return '(%s)' % self.e(x) if self.ch(.7) or x[0] != 'v' else self.e(x)

    def stmt(self, s, where=''):
        nm = s.nm + ': ' if s.nm else ''
        dec = s.dec[:-1] if s.k == 'FOR' else s.dec
        ty = lambda x: 'Integer' if x[0] == 'x' else 'Boolean'
        head = ['%s %s = %s;' % (ty(x), x, self.e(e)) for x, e in dec if '[' not in x]
        head += ['%s %s[2] = #(%s %s);' % (ty(x), x[:-3], self.e(e), self.e(f))
                 for (x, e), (y, f) in zip(dec, dec[1:]) if x[-3:] == '[0]']
        cs = ['%s %s;' % (self.pick(KW[c]), self.e(e)) for c, e in s.conds.items()]
        self.r.shuffle(cs)
        head += cs
        if s.k in ('SEQ', 'USEQ', 'TRY', 'CONC', 'E'):
            kw = {'SEQ': ['', 'Sequence ', 'CheckedSequence '], 'USEQ': ['UncheckedSequence '], 'TRY': ['Try '],
                  'CONC': ['Concurrence '], 'E': ['']}[s.k]
            return '%s%s{\n%s\n}' % (nm, self.pick(kw), '\n'.join(head + [self.stmt(k) for k in s.kids]))
        body = self.core(s)
        # an if directly inside a then would take its else
        if head or (where == 'then' and (s.k == 'IF' or s.k == 'DO')) or self.ch(.15):
            return '%s{\n%s\n}' % (nm, '\n'.join(head + [body]))
        return nm + body

    def program(self, root):
        sts = list(walk(root))
        out = ['%s Lookup %s;' % ({'i': 'Integer', 'b': 'Boolean'}[t], n) for n, t in LOOKS + [('Lx', 'i'), ('Ly', 'i')]]
        for s in sts:
            if s.k in 'CS':
                out.append('%sCommand %s(...);' % ({'v': '', 'i': 'Integer ', 'b': 'Boolean '}[s.cmd[0]], s.cmd))
        return '\n'.join(out) + '\n' + self.stmt(root) + '\n'


# ---------------------------------------------------------------- the world

HANDLES = ['COMMAND_SUCCESS'] * 6 + ['COMMAND_FAILED', 'COMMAND_DENIED', 'COMMAND_INTERFACE_ERROR', 'COMMAND_ACCEPTED',
                                     'COMMAND_RCVD_BY_SYSTEM', 'COMMAND_SENT_TO_SYSTEM']


def script(r, root):
    """What happens, and what the lookups are at first"""
    sts = list(walk(root))
    first = [['La', ['i', r.randint(0, 2)]], ['Lb', ['i', r.randint(0, 2)]], ['Lc', ['b', int(r.random() < .5)]],
             ['Ld', ['b', int(r.random() < .5)]], ['Lx', ['i', int(r.random() < .1)]],
             ['Ly', ['i', int(r.random() < .1)]]]
    kinds = {s.k for s in sts}
    acts = ['env'] * 3
    stops = any({'exit', 'inv'} & set(s.conds) for s in sts)
    ends = any('end' in s.conds and s.kids for s in sts)
    lx, ly = first[-2][1][1], first[-1][1][1]
    if kinds & {'C', 'S'}:
        acts += ['cmd'] * 6
    if 'U' in kinds:
        acts += ['uack'] * 2
    if 'W' in kinds or any(s.tmo >= 0 for s in sts):
        acts += ['time'] * 4
    ops, now = [], 0
    n = r.randint(8, 22)
    for i in range(n):
        a = r.choice(acts)
        if stops and r.random() < .15:
            lx += r.choice([1, 1, 2])
            ops += ['env Lx i:%d' % lx, 'idle']
        if ends and r.random() < .15:
            ly += 1
            ops += ['env Ly i:%d' % ly, 'idle']
        if a == 'env':
            x = r.choice(['La', 'Lb', 'Lc', 'Ld', 'Lc', 'Ld'])
            if x in ('La', 'Lb'):
                v = 'i:%d' % r.randint(0, 3)
            else:
                v = 'b:%d' % r.randint(0, 1)
            ops.append('env %s %s' % (x, v))
        elif a == 'cmd':
            k = r.randint(0, 5)
            if r.random() < .75:
                ops.append('ret %d i:%d' % (k, r.randint(-1, 4)))
                if r.random() < .3:
                    ops.append('idle')
            ops.append('ack %d %s' % (k, r.choice(HANDLES)))
        elif a == 'uack':
            ops.append('uack %d' % r.randint(0, 3))
        else:
            now += r.choice([4, 8, 8, 16, 16, 32])
            ops.append('time %d' % now)
        ops.append('idle')
    # let everything end that can
    if ends:
        ops += ['env Ly i:%d' % (ly + 3), 'idle']
    for i in range(6):
        now += 64
        ops += ['env Lc b:%d' % (i % 2), 'idle', 'env Ld b:%d' % (i // 2 % 2), 'idle', 'time %d' % now, 'idle',
                'ret 0 i:1', 'ack 0 COMMAND_SUCCESS', 'idle', 'uack 0', 'idle', 'ack 1 COMMAND_SUCCESS', 'idle']
    return first, ops


def vtext(v):
    return '%s:%d' % (v[0], v[1])


class Case:
    def __init__(self, cid, key):
        self.id = cid
        g = Gen(key)
        self.root = g.make()
        self.source = Printer(g.r).program(self.root)
        self.first, self.ops = script(g.r, self.root)
        self.plan = {'st': lower(self.root), 'lk': self.first}

    def text(self, core):
        pct = ''.join(c if c.isalnum() or c in '<>/=_."-' else '%%%02X' % b for c in core for b in c.encode())
        return '\n'.join(['BEGIN ' + self.id] + ['start %s %s' % (n, vtext(v)) for n, v in self.first] +
                         ['plan ' + pct, 'idle'] + self.ops + ['END', ''])


def run(driver, cases, work, jobs=8):
    logs = os.path.join(work, 'extlogs')
    os.makedirs(logs, exist_ok=True)
    f = os.path.join(work, 'ext.txt')
    with open(f, 'w') as fh:
        for c in cases:
            fh.write(c.text(c.core))
    subprocess.run([driver, f, logs, str(jobs)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = {}
    for c in cases:
        with open(os.path.join(logs, c.id + '.log')) as fh:
            out[c.id] = json.loads('[' + fh.read() + ']')
    return out


# ---------------------------------------------------------------- judgement

JUDGE = dict(module='ExtPlexilTrace', cfg='ExtPlexilTrace.cfg')


def files(c, log):
    return {'ext.txt': json.dumps({'id': c.id, 'source': c.source, 'plan': c.plan, 'first': c.first, 'ops': c.ops}),
            c.id + '.ple': c.source, 'log.json': '\n'.join(json.dumps(r) for r in log)}


def conform(res, cases, driver, work, jobs=8):
    out = ple.compile_all({c.id: c.source for c in cases}, work, jobs)
    good = []
    for c in cases:
        st, msg = out[c.id]
        if st == 'ok':
            c.core = msg
            good.append(c)
            continue
        why = {'refused': 'a well-formed program is refused: ', 'crash': 'the compiler fails on a well-formed program: ',
               'ill-formed': '', 'xslt': 'a program the stylesheets cannot translate: '}[st] + msg
        if len(res.violations) < 8:
            res.violation(c.id, '%s: %s' % (c.id, ' '.join(why.split())[:500]), files(c, []))
    logs = run(driver, good, work, jobs)
    verdict, (gen, dis), errs = runner.judge([(c.id, c.plan, logs[c.id]) for c in good], work, jobs, **JUDGE)
    res.states += dis
    res.transitions += gen
    bad = [c for c in good if verdict[c.id]]
    res.traces += len(good) - len(bad)
    res.count(programs=len(cases))
    for c in good:
        for s in walk(c.root):
            res.count(**{'statements_' + s.k: 1})
            for k in s.conds:
                res.count(**{'conditions_' + k: 1})
        for r in logs[c.id]:
            if r['e'] == 'ev':
                res.count(**{'events_' + r['x'][0]: 1})
            elif r['e'] == 'in':
                res.count(**{'inputs_' + r['k']: 1})
            else:
                res.count(**{'records_' + r['e']: 1})
    for c in bad:
        if len(res.violations) >= 8:
            break
        # once more, to be sure
        again = run(driver, [c], work, 1)[c.id]
        v, _, e = runner.judge([(c.id, c.plan, again)], work, 1, **JUDGE)
        if v[c.id] == 'no verdict':
            res.errors.append('%s: no verdict: %s' % (c.id, (e or [''])[0][:1000]))
        elif v[c.id] is None and again == logs[c.id]:
            res.errors.append('%s: rejected, then accepted' % c.id)
        else:
            res.violation(c.id, '%s: %s%s' % (c.id, verdict[c.id], '' if v[c.id] else ' (not on a second run)'),
                          files(c, logs[c.id]))
    if good and len(res.samples) < 2:
        c = good[len(good) // 2]
        res.samples.append({'program': c.source.split('\n'), 'log': logs[c.id][:12]})


def check(res, prop, tier, seed, work, n):
    res.assumptions = (res.assumptions or []) + [
        'Statements running at once share no variables.',
        'The stylesheets are run by an XSLT processor of ours (lib/xslt.py); there is no Saxon here.']
    drv = build.build(['extdriver'])['extdriver']
    for i in range(0, n, 1600):
        conform(res, [Case('%s_%d' % (prop, j), '%s/%d/%d' % (prop, seed, j)) for j in range(i, min(n, i + 1600))], drv, work)
        if res.violations:
            break


class Saved:
    def __init__(self, d):
        self.__dict__.update(json.load(open(os.path.join(d, 'ext.txt'))))

    text = Case.text


def replay(prop, d):
    """Compile and run a saved program again"""
    c = Saved(d)
    work = tempfile.mkdtemp(prefix='verif_replay_')
    try:
        st, msg = ple.compile_all({c.id: c.source}, work, 1)[c.id]
        if st != 'ok':
            why = '%s: %s' % (st, msg[:300])
        else:
            c.core = msg
            log = run(build.build(['extdriver'])['extdriver'], [c], work, 1)[c.id]
            v, _, e = runner.judge([(c.id, c.plan, log)], work, 1, **JUDGE)
            why = v[c.id]
            if why == 'no verdict':
                print('ERROR: %s' % e)
                return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if why:
        print(why)
        print('VIOLATION property=%s replay=%s' % (prop, d))
        return 1
    print('as the language says')
    return 0
