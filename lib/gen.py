"""Random plans and scripts.  A profile says what to favour."""
import random
from plan import *

BASE = dict(
    types=dict(E=3, A=3, C=2, U=1, L=4, B=0),
    depth=3, kids=(1, 4), maxnodes=12, roots=1,
    skip=.08, start=.5, pre=.12, post=.12, inv=.15, end=.35, exit=.15, rep=.15, listend=.15,
    nvars=(0, 2), arrays=.2, look=.5, on=.5, tol=.0, refs=.5, mutex=0, prio=0, res=0, lib=0,
    hide=.15, args=.3, multi=.12, edepth=2, contend=.3, timepts=.05, handles=.15, strings=.1, reals=.25,
    arrops=.1, mutexdecl=.3, nlibs=(1, 2),
    steps=(6, 14), ack=.6, wrongack=.1, pub=.7, batch=3, idle=.8, unknown=.12, dt=.4,
    acks=('COMMAND_SUCCESS',) * 5 + ('COMMAND_SENT_TO_SYSTEM', 'COMMAND_RCVD_BY_SYSTEM', 'COMMAND_ACCEPTED',
                                     'COMMAND_FAILED', 'COMMAND_DENIED', 'COMMAND_INTERFACE_ERROR'),
)

SCALARS = [('b0', 'b'), ('b1', 'b'), ('b2', 'b'), ('i0', 'i'), ('i1', 'i'), ('r0', 'r'), ('s0', 's')]
GATES = [('q%d' % i, 'b') for i in range(16)]   # each the business of one condition
PARAMS = [('ip', 'i'), ('bp', 'b')]         # one integer argument
ARRS = [('ai0', 'ai'), ('ab0', 'ab'), ('ar0', 'ar'), ('as0', 'as')]
# states of several arguments
MULTI = {'jp': ('i', 'is'), 'kp': ('b', 'iib'), 'lp': ('r', 'sibi'), 'mp': ('i', 'ibisi')}
STATES_OF = dict(SCALARS + GATES + PARAMS + ARRS + [('time', 'r')] + [(n, t) for n, (t, _) in MULTI.items()])
DECLS = ''.join('<StateDeclaration><Name>%s</Name><Return><Type>%s</Type></Return></StateDeclaration>' % (n, TN[t])
                for n, t in SCALARS + GATES) + \
    '<StateDeclaration><Name>time</Name><Return><Type>Real</Type></Return></StateDeclaration>' + \
    ''.join('<StateDeclaration><Name>%s</Name><Return><Type>%s</Type></Return>'
            '<Parameter><Name>x</Name><Type>Integer</Type></Parameter></StateDeclaration>' % (n, TN[t])
            for n, t in PARAMS) + \
    ''.join('<StateDeclaration><Name>%s</Name><Return><Type>%s</Type><MaxSize>3</MaxSize></Return></StateDeclaration>'
            % (n, TN[t[1]]) for n, t in ARRS) + \
    ''.join('<StateDeclaration><Name>%s</Name><Return><Type>%s</Type></Return>%s</StateDeclaration>' % (
        n, TN[t], ''.join('<Parameter><Name>x%d</Name><Type>%s</Type></Parameter>' % (i, TN[a]) for i, a in enumerate(ts)))
            for n, (t, ts) in MULTI.items())


class Ctx:
    """Where an expression stands: visible variables, nodes, and limits"""

    def __init__(self, scope, refs, me, looks=True, on=True, budget=99, own=()):
        self.scope, self.refs, self.me = scope, refs, me
        self.looks, self.on, self.budget, self.own = looks, on, budget, own


class Gen:
    def __init__(self, seed, prof=None, sid='s'):
        self.r = random.Random(seed)
        self.p = dict(BASE)
        self.p.update(prof or {})
        self.sc = Scenario(sid)
        self.count = 0
        self.vcount = 0
        self.libinfo = {}
        self.used_states = set()
        self.seen_args = {}
        self.types = {}

    # -- helpers
    def ch(self, p):
        return self.r.random() < p

    def pick(self, seq):
        return seq[self.r.randrange(len(seq))]

    def wpick(self, d):
        items = [(k, w) for k, w in d.items() if w > 0]
        x = self.r.random() * sum(w for _, w in items)
        for k, w in items:
            x -= w
            if x < 0:
                return k
        return items[-1][0]

    def val(self, ty):
        if ty == 'b':
            return self.ch(.5)
        if ty == 'i':
            return self.r.randint(-2, 4)
        if ty == 'r':
            return self.r.randint(-4, 8) * .5
        if ty[0] == 'a':
            return [None if ty[1] != 's' and self.ch(.2) else self.val(ty[1]) for _ in range(3)]
        return self.pick(['', 'a', 'b', 'ab'])

    # -- expressions
    def vars_of(self, c, full):
        return [n for n, (t, w) in c.scope.items() if t == full and n not in c.own]

    def lit(self, ty):
        return ('lit', ty, self.val(ty))

    def look(self, c, ty, d):
        p = self.p
        names = [n for n, t in SCALARS if t == ty]
        par = [n for n, t in PARAMS if t == ty]
        on = c.on and self.ch(p['on'])
        tol = None
        if on and ty in 'ir' and self.ch(p['tol']):
            tol = ('lit', 'r', self.pick([.5, 1, 1.5, 2])) if self.ch(.75) else \
                  self.pick([('lit', 'i', 1), ('look', ('lit', 's', 'r0'), (), None, False, 'r')])
            if tol[0] == 'look':
                tol = ('op', 'ABS', 'r', [tol], 'r')
        multi = [n for n, (t, _) in MULTI.items() if t == ty]
        if multi and self.ch(p['multi']):
            n = self.pick(multi)
            self.used_states.add(n)
            sub = Ctx(c.scope, c.refs, c.me, looks=False, on=c.on, budget=0, own=c.own)
            ts = MULTI[n][1]
            vals = [self.small_arg(t) for t in ts]
            old = self.seen_args.setdefault(n, [])
            if old and self.ch(.6):         # differs from another in one argument, or in none
                vals = list(self.pick(old))
                j = self.r.randrange(len(ts))
                vals[j] = self.small_arg(ts[j])
            old.append(tuple(vals))
            args = [('lit', t, v) for t, v in zip(ts, vals)]
            if self.ch(.4):
                j = self.r.randrange(len(ts))
                args[j] = self.expr(sub, ts[j], 0)
            return ('look', ('lit', 's', n), tuple(args), tol, on, ty)
        if ty == 'r' and self.ch(.25):
            return ('look', ('lit', 's', 'time'), (), tol, on, 'r')
        if par and (self.ch(p['args']) or not names):
            n = self.pick(par)
            self.used_states.add(n)
            sub = Ctx(c.scope, c.refs, c.me, looks=c.looks and d > 0, on=c.on, budget=0, own=c.own)
            a = self.expr(sub, 'i', 0 if not self.ch(.3) else 1)
            return ('look', ('lit', 's', n), (a,), tol, on, ty)
        n = self.pick(names)
        self.used_states.add(n)
        if ty == 'b' and not getattr(c, 'typed', False) and self.ch(.08):
            # a computed name
            nm = ('op', 'Concat', 's', [('lit', 's', n[0]), ('lit', 's', n[1:])], 's')
            return ('look', nm, (), tol, on, ty)
        return ('look', ('lit', 's', n), (), tol, on, ty)

    def small_arg(self, t):
        return self.pick({'i': [0, 1, 2], 'b': [True, False], 's': ['', 'a', 'b']}[t])

    def some_args(self, n):
        """Values for the arguments of a state of several, as the script writes them"""
        ts = MULTI[n][1]
        old = self.seen_args.get(n)
        vals = list(self.pick(old)) if old and self.ch(.8) else [self.small_arg(t) for t in ts]
        if self.ch(.25):
            j = self.r.randrange(len(ts))
            vals[j] = self.small_arg(ts[j])
        return [sval(t, v) for t, v in zip(ts, vals)]

    def nary(self, lo=2):
        """How many operands"""
        return self.wpick({1: .3 if lo < 2 else 0, 2: 8, 3: 2.5, 4: 1, 5: .7, 6: .4})

    def atom(self, c, ty, d):
        p = self.p
        opts = {'lit': 1.0}
        vs = self.vars_of(c, ty)
        if vs:
            opts['var'] = 4
        arrs = self.vars_of(c, 'a' + ty)
        if arrs:
            opts['elt'] = 2
        if c.looks and p['look'] > 0:
            opts['look'] = 4 * p['look']
        k = self.wpick(opts)
        if k == 'lit':
            return self.lit(ty)
        if k == 'var':
            return ('var', self.pick(vs), ty)
        if k == 'elt':
            a = self.pick(arrs)
            return ('elt', ('var', a, 'a' + ty), self.index(c, a), ty)
        return self.look(c, ty, d)

    def index(self, c, a):
        """An index that stays within every array (they have 3 elements)"""
        ivs = self.vars_of(c, 'i')
        if self.ch(.6) or not ivs:
            return ('lit', 'i', self.r.randrange(3))
        x = ('var', self.pick(ivs), 'i')
        return ('op', 'MOD', 'i', [('op', 'ABS', 'i', [x], 'i'), ('lit', 'i', 3)], 'i')

    def others(self, c):
        return [r for r in c.refs if r[0] not in ('self',)]

    def expr(self, c, ty, d):
        if ty == 'b':
            return self.boolean(c, d)
        if ty[0] == 'a':
            vs = self.vars_of(c, ty)
            if vs and self.ch(.5):
                return ('var', self.pick(vs), ty)
            st = [n for n, t in ARRS if t == ty]
            if st and c.looks and self.ch(.35):
                n = self.pick(st)
                self.used_states.add(n)
                return ('look', ('lit', 's', n), (), None, c.on and self.ch(self.p['on']), ty)
            return ('alit', ty[1], [None if ty[1] != "s" and self.ch(.2) else self.val(ty[1]) for _ in range(3)])
        if d <= 0:
            return self.atom(c, ty, d)
        if ty == 's':
            if self.ch(.5):
                vs = self.vars_of(c, 's')
                a = [self.lit('s') for _ in range(self.nary() - 1)]
                if vs or c.looks:
                    x = ('var', self.pick(vs), 's') if vs and (self.ch(.5) or not c.looks) else self.look(c, 's', d)
                    a.insert(self.r.randint(0, len(a)), x)
                return ('op', 'Concat', 's', a, 's')
            return self.atom(c, 's', d)
        if ty == 'i':
            k = self.wpick(dict(atom=3, add=2, sub=1, mul=1, div=.5, mod=.5, mm=1, abs=.5, neg=.4,
                                r2i=.4, conv=.6, strlen=.4, size=.5 if self.arrays(c) else 0))
            sub = lambda: self.expr(c, 'i', d - 1)
            if k == 'atom':
                return self.atom(c, 'i', d)
            if k == 'add':
                return ('op', 'ADD', 'i', self.ops(c, 'i', d, 1), 'i')
            if k == 'sub':
                return ('op', 'SUB', 'i', self.ops(c, 'i', d), 'i')
            if k == 'neg':
                return ('op', 'SUB', 'i', [sub()], 'i')
            if k == 'mul':
                return ('op', 'MUL', 'i', [sub()] + [self.lit('i') for _ in range(self.nary(1) - 1)], 'i')
            if k == 'div':
                return ('op', 'DIV', 'i', [sub(), self.expr(c, 'i', 0)], 'i')
            if k == 'mod':
                return ('op', 'MOD', 'i', [sub(), self.expr(c, 'i', 0)], 'i')
            if k == 'mm':
                return ('op', self.pick(['MIN', 'MAX']), 'i', self.ops(c, 'i', d, 1), 'i')
            if k == 'abs':
                return ('op', 'ABS', 'i', [sub()], 'i')
            if k == 'r2i':
                return ('op', 'REAL_TO_INT', 'i', [self.expr(c, 'r', d - 1)], 'r')
            if k == 'conv':
                return ('op', 'REAL_TO_INT', 'i',
                        [('op', self.pick(['CEIL', 'FLOOR', 'ROUND', 'TRUNC']), 'r', [self.expr(c, 'r', d - 1)], 'r')], 'r')
            if k == 'strlen':
                return ('op', 'STRLEN', 'i', [self.expr(c, 's', 0)], 's')
            if k == 'size':
                return ('op', self.pick(['ArraySize', 'ArraySize', 'ArrayMaxSize']), 'i', [self.array(c)], 'a')
        if ty == 'r':
            k = self.wpick(dict(atom=3, add=2, sub=1, mul=.7, div=.4, mod=.3, mm=1, abs=.5, conv=.7, sqrt=.4))
            sub = lambda: self.expr(c, 'r', d - 1)
            mix = lambda: self.expr(c, 'r' if self.ch(.7) else 'i', d - 1)
            if k == 'atom':
                return self.atom(c, 'r', d)
            if k == 'add':
                return ('op', 'ADD', 'r', self.ops(c, 'r', d, 1, mix), 'r')
            if k == 'sub':
                return ('op', 'SUB', 'r', self.ops(c, 'r', d, 1, mix), 'r')
            if k == 'mul':
                return ('op', 'MUL', 'r', [sub(), self.lit('i')], 'r')
            if k == 'div':
                return ('op', 'DIV', 'r', [self.atom(c, 'r', 0), ('lit', 'r', self.pick([2.0, -2.0, .5]))], 'r')
            if k == 'mod':
                return ('op', 'MOD', 'r', [sub(), ('lit', 'r', self.pick([1.5, 2.0, 0.0]))], 'r')
            if k == 'mm':
                return ('op', self.pick(['MIN', 'MAX']), 'r', self.ops(c, 'r', d, 1, mix), 'r')
            if k == 'abs':
                return ('op', 'ABS', 'r', [sub()], 'r')
            if k == 'conv':
                return ('op', self.pick(['CEIL', 'FLOOR', 'ROUND', 'TRUNC']), 'r', [sub()], 'r')
            if k == 'sqrt':
                x = self.atom(Ctx(c.scope, [], c.me, looks=False, own=c.own), 'r', 0)
                return ('op', 'SQRT', 'r', [('op', 'MUL', 'r', [x, x], 'r') if x[0] == 'var' or x[0] == 'lit'
                                            else ('lit', 'r', self.pick([4.0, 0.0, -1.0, 2.25]))], 'r')
        raise ValueError(ty)

    def ops(self, c, ty, d, lo=2, mix=None):
        """Operands; of many only the first few are more than atoms"""
        out = []
        for i in range(self.nary(lo)):
            deep = i < 2 or d > 0 and self.ch(.15)
            out.append(mix() if mix and i and deep else self.expr(c, ty, d - 1 if deep else 0))
        self.r.shuffle(out)
        if mix and not any(self.isreal(x) for x in out):
            out[0] = self.lit('r')
        return out

    def isreal(self, x):
        return x[0] in ('lit', 'op') and x[1 if x[0] == 'lit' else 2] == 'r' or x[0] == 'var' and x[2] == 'r' \
            or x[0] == 'elt' and x[3] == 'r' or x[0] == 'look' and x[5] == 'r'

    def array(self, c):
        """An array: mostly a variable"""
        n, t = self.pick(self.arrays(c))
        if self.ch(.15):
            return self.expr(c, t, 1)
        return ('var', n, t)

    def arrays(self, c):
        return [(n, t) for n, (t, w) in c.scope.items() if t[0] == 'a' and n not in c.own]

    def noderef(self, c):
        p = self.p
        refs = c.refs
        if c.budget <= 0:
            return None
        if not refs:
            return None
        c.budget -= 1
        return self.pick(refs)

    def nodetest(self, c):
        ref = self.noderef(c)
        if ref is None:
            return None
        p = self.p
        k = self.wpick(dict(pred=5, st=1.5, out=1, fl=.7, hd=p['handles'] * 3, tp=p['timepts'] * 5))
        if k == 'pred':
            return ('pred', self.wpick(dict(Finished=4, Executing=2, Waiting=1, Inactive=.5, IterationEnded=1,
                                            Succeeded=2, Failed=2, Skipped=1, PostconditionFailed=.7,
                                            NoChildFailed=.8)), ref)
        neg = 'EQ' if self.ch(.75) else 'NE'
        if k == 'st':
            return ('op', neg, 'b', [('st', ref), ('lit', 'n', self.pick(
                ['FINISHED', 'FINISHED', 'EXECUTING', 'WAITING', 'INACTIVE', 'ITERATION_ENDED', 'FINISHING', 'FAILING']))], 'n')
        if k == 'out':
            return ('op', neg, 'b', [('out', ref), ('lit', 'o', self.pick(
                ['SUCCESS', 'FAILURE', 'SKIPPED', 'INTERRUPTED']))], 'o')
        if k == 'fl':
            return ('op', neg, 'b', [('fl', ref), ('lit', 'f', self.pick(
                ['PRE_CONDITION_FAILED', 'POST_CONDITION_FAILED', 'INVARIANT_CONDITION_FAILED', 'PARENT_FAILED',
                 'EXITED', 'PARENT_EXITED']))], 'f')
        if k == 'hd':
            cmds = [r for r in c.refs if self.types.get(r[1]) == 'C']
            if not cmds:
                return ('pred', 'Finished', ref)
            ref = self.pick(cmds)
            if self.ch(.4):
                return ('op', 'IsKnown', 'b', [('hd', ref)], 'h')
            return ('op', neg, 'b', [('hd', ref), ('lit', 'h', self.pick(
                ['COMMAND_SUCCESS', 'COMMAND_SUCCESS', 'COMMAND_FAILED', 'COMMAND_DENIED', 'COMMAND_SENT_TO_SYSTEM',
                 'COMMAND_ACCEPTED', 'COMMAND_INTERFACE_ERROR', 'COMMAND_ABORTED', 'COMMAND_RCVD_BY_SYSTEM',
                 'COMMAND_ABORT_FAILED']))], 'h')
        tp = ('tp', ref, self.pick(['WAITING', 'EXECUTING', 'FINISHED', 'ITERATION_ENDED', 'INACTIVE']), self.r.randint(1, 2))
        if self.ch(.4):
            return ('op', 'IsKnown', 'b', [tp], 'r')
        return ('op', self.pick(['LT', 'GE', 'EQ']), 'b',
                [tp, ('lit', 'r', float(self.r.randint(0, 4))) if self.ch(.5) else
                 ('look', ('lit', 's', 'time'), (), None, False, 'r')], 'r')

    def boolean(self, c, d):
        p = self.p
        k = self.wpick(dict(atom=3, ref=4 * p['refs'] if c.refs and c.budget > 0 else 0,
                            cmp=2.5, logic=2.2 if d > 0 else 0, known=.5, neg=.7 if d > 0 else 0,
                            arr=p['arrops'] * 4 if self.arrays(c) else 0,
                            str=p['strings'] * 3))
        if k == 'ref':
            return self.nodetest(c)
        if k == 'atom':
            x = self.atom(c, 'b', d)
            if x[0] == 'lit' and self.ch(.7):
                k = 'cmp'
            else:
                return x
        if k == 'cmp':
            if d > 0 and self.ch(.1):
                return ('op', self.pick(['EQ', 'NE']), 'b', [self.boolean(c, d - 1), self.boolean(c, 0)], 'b')
            ty = 'r' if self.ch(p['reals']) else 'i'
            op = self.pick(['EQ', 'NE', 'LT', 'LE', 'GT', 'GE'])
            return ('op', op, 'b', [self.expr(c, ty, d - 1), self.expr(c, 'r' if self.ch(.1) else ty, 0)], ty)
        if k == 'logic':
            op = self.wpick(dict(AND=3, OR=3, XOR=1.2))
            return ('op', op, 'b', [self.boolean(c, d - 1 if i < 4 else 0) for i in range(self.nary(1))], 'b')
        if k == 'neg':
            return ('op', 'NOT', 'b', [self.boolean(c, d - 1)], 'b')
        if k == 'known':
            ty = self.pick(['b', 'i', 'i', 'r'])
            return ('op', 'IsKnown', 'b', [self.expr(c, ty, min(d, 1) if ty != 'b' else 0)], ty)
        if k == 'arr':
            n, t = self.pick(self.arrays(c))
            if self.ch(.5):
                return ('op', self.pick(['ALL_KNOWN', 'ANY_KNOWN']), 'b', [self.array(c)], 'a')
            return ('op', self.pick(['EQ', 'NE']), 'b', [('var', n, t), self.expr(c, t, 1)], 'a')
        if k == 'str':
            return ('op', self.pick(['EQ', 'EQ', 'NE', 'LT', 'LE', 'GT', 'GE']), 'b',
                    [self.expr(c, 's', 1), self.expr(c, 's', 0)], 's')

    def boolvar(self, c):
        return self.boolean(c, 1)

    # -- plans
    def fresh(self, pre='n'):
        self.count += 1
        return '%s%d' % (pre, self.count)

    def newvar(self, scope, own, parentscope, pnames, siblings=()):
        p = self.p
        ty = self.wpick(dict(b=2, i=4, r=4 * p['reals'], s=2 * p['strings']))
        self.vcount += 1
        name = 'v%d' % self.vcount
        if self.ch(p['hide']) and parentscope:
            used = [o.init[1] for o in siblings if o.init is not None and o.init[0] == 'var']
            cands = [n for n in parentscope if n not in own and n not in pnames and n not in used]
            if cands:
                name = self.pick(cands)
        arr = self.ch(p['arrays'])
        v = Var(name, ty, arr, 3 if arr and self.ch(.8) else 0)
        if arr:
            same = [n for n, t in parentscope.items() if t[0] == 'a' + ty and n not in own and n != name]
            if same and self.ch(.3):
                v.init = ('var', self.pick(same), 'a' + ty)
            elif self.ch(.6):
                v.init = ('alit', ty, [self.val(ty) for _ in range(self.r.randint(1, 3) if v.mx else 3)])
                v.initform = True
        elif self.ch(.75):
            if self.ch(.6):
                v.init = self.lit(ty)
            else:
                vs = [n for n, t in parentscope.items() if t[0] == ty and n not in own and n != name]
                vs += [o.name for o in siblings if o.full() == ty]
                v.init = ('var', self.pick(vs), ty) if vs else self.lit(ty)
        return v

    def clamp(self, e, ty):
        if ty == 'i' and e[0] == 'op':
            return ('op', 'MOD', 'i', [e, ('lit', 'i', 13)], 'i')
        if ty == 'r' and e[0] == 'op':
            return ('op', 'MOD', 'r', [('op', self.pick(['FLOOR', 'ROUND', 'CEIL', 'TRUNC']), 'r', [e], 'r'),
                                       ('lit', 'r', 16.0)], 'r')
        return e

    def plan_tree(self, root_prefix, iface=None, depth=None, allowlib=True):
        """Skeleton first (names and types), then contents, so that siblings can
        be referred to whatever their order."""
        self.types = {} if not hasattr(self, 'types') else self.types
        self.left = self.p['maxnodes']
        root = self.skeleton(root_prefix, depth or self.p['depth'], True, allowlib)
        if iface is not None:
            root.iface = iface
        scope = {}
        if iface:
            for m, v in iface:
                scope[v.name] = (v.full(), m == 'inout')
        self.fill(root, None, [], scope, [], root)
        return root

    def skeleton(self, prefix, depth, isroot, allowlib):
        p = self.p
        self.left -= 1
        t = dict(p['types'])
        if depth <= 1 or self.left < 2:
            t['L'] = 0
        if not allowlib or not self.libinfo:
            t['B'] = 0
        if isroot:
            t = {'L': 1} if self.ch(.9) and depth > 1 else {k: v for k, v in t.items()}
            if not t.get('L') and not any(t.values()):
                t = {'E': 1}
        ty = self.wpick(t) if any(t.values()) else 'E'
        n = Node(self.fresh(prefix), ty)
        self.types[n.id] = ty
        if ty == 'L':
            k = self.r.randint(*p['kids'])
            for _ in range(k):
                if self.left <= 0:
                    break
                n.kids.append(self.skeleton(prefix, depth - 1, False, allowlib))
            if not n.kids:
                n.kids.append(self.skeleton(prefix, 1, False, False))
        return n

    def refs_for(self, n, parent, ancestors):
        out = [('id', n.id), ('self', n.id)]
        if parent:
            out.append(('parent', parent.id))
            for s in parent.kids:
                if s is not n:
                    out += [('id', s.id)] * 4 + [('sibling', s.id)] * 2
        for a in ancestors:
            out.append(('id', a.id))
        for k in n.kids:
            out += [('id', k.id)] * 2 + [('child', k.id)]
        return out

    def fill(self, n, parent, ancestors, scope, mutexes, root):
        p = self.p
        refs = self.refs_for(n, parent, ancestors)
        pscope = dict(scope)
        own = []
        pnames = [v.name for _, v in (n.iface or [])]
        nv = self.r.randint(*p['nvars']) if n.ty in 'LB' or self.ch(.35) else 0
        if n is root and n.ty != 'E':
            nv = max(nv, 1)
        for _ in range(nv):
            v = self.newvar(scope, own, pscope, pnames, n.vars)
            n.vars.append(v)
            own.append(v.name)
        scope = dict(scope)
        for v in n.vars:
            scope[v.name] = (v.full(), True)
        if p['mutex'] and n.ty == 'L' and self.ch(p['mutexdecl']):
            self.vcount += 1
            m = 'm%d' % self.vcount
            n.mutexes.append(m)
            mutexes = mutexes + [m]
        if mutexes and self.ch(p['mutex']):
            k = 1 if self.ch(.65) else 2
            held = set(m for a in ancestors for m in a.using)
            free = mutexes if self.ch(.02) else [m for m in mutexes if m not in held]
            n.using = self.r.sample(free, min(k, len(free)))
        self.body(n, scope, refs, own)
        hidden = set(own)
        pre = lambda: Ctx({k: t for k, t in scope.items() if k not in hidden}, refs, n)
        full = lambda: Ctx(dict(scope), refs, n)
        d = p['edepth']
        if self.ch(p['start']):
            sibs = [s for s in parent.kids if s is not n] if parent else []
            if sibs and self.ch(.4 * p['refs'] * 2):
                s = self.pick(sibs)
                n.conds['start'] = ('pred', self.wpick(dict(Finished=5, Executing=1, Succeeded=1)), ('id', s.id))
            else:
                n.conds['start'] = self.boolean(pre(), d)
        for cnd in ('skip', 'pre', 'exit'):
            if self.ch(p[cnd]):
                n.conds[cnd] = self.boolean(pre(), d)
        for cnd in ('inv', 'post'):
            if self.ch(p[cnd]):
                n.conds[cnd] = self.boolean(full(), d)
        if self.ch(p['listend'] if n.ty in 'LB' else p['end']):
            n.conds['end'] = self.boolean(full(), d)
            if n.ty == 'C' and self.ch(p['handles'] * 3):
                n.conds['end'] = ('op', 'EQ', 'b', [('hd', ('self', n.id)), ('lit', 'h', 'COMMAND_SUCCESS')], 'h') \
                    if self.ch(.7) else ('op', 'IsKnown', 'b', [('hd', ('id', n.id))], 'h')
        if self.ch(p['rep']):
            n.conds['rep'] = self.boolean(pre(), 1)
        if n.ty == 'A' and self.ch(p['prio']):
            n.pr = self.r.randint(0, 3)
        elif False and n.using and self.ch(p['prio'] or .5):
            n.pr = self.r.randint(0, 3)
        for k in n.kids:
            self.fill(k, n, [n] + ancestors, scope, mutexes, root)

    def writable(self, scope):
        return [(nm, t) for nm, (t, w) in scope.items() if w]

    def target(self, scope, refs, own, scalar=False):
        """Something to assign to: (expr, type) or None"""
        ws = self.writable(scope)
        if scalar:
            ws = [(a, t) for a, t in ws]
        if not ws:
            return None
        outer = [x for x in ws if x[0] not in own]
        if outer and self.ch(.85):
            ws = outer
        if hasattr(self, 'hot') and self.hot in [w[0] for w in ws] and self.ch(self.p['contend']):
            nm, t = self.hot, dict(ws)[self.hot]
        else:
            nm, t = self.pick(ws)
        self.hot = nm
        if t[0] == 'a':
            if self.ch(.8 if scalar else .7):
                c = Ctx({k: x for k, x in scope.items()}, [], None, looks=False)
                return ('elt', ('var', nm, t), self.index(c, nm), t[1]), t[1]
            return ('var', nm, t), t
        return ('var', nm, t), t

    def body(self, n, scope, refs, own):
        p = self.p
        if n.ty == 'A':
            tgt = self.target(scope, refs, own)
            if tgt is None:
                n.ty = 'E'
                self.types[n.id] = 'E'
                return
            n.lhs, ty = tgt
            c = Ctx(dict(scope), refs, n, budget=1)
            n.rhs = self.clamp(self.expr(c, ty, self.r.randint(0, p['edepth'])), ty)
            if n.rhs[0] == 'lit' and ty != 's' and self.ch(.1):
                n.rhs = ('unk', ty)
        elif n.ty == 'C':
            n.name = ('lit', 's', self.pick(['c0', 'c1', 'c2']))
            c = Ctx(dict(scope), refs, n, budget=1)
            k = self.r.random()
            if k < .05:
                n.name = ('op', 'Concat', 's', [('lit', 's', 'c'), ('lit', 's', 'x')], 's')
            elif k < .09:
                n.name = ('op', 'Concat', 's', [('lit', 's', 'c'), self.expr(c, 's', 1)], 's')
            for _ in range(self.r.randint(0, 2) if self.ch(.8) else self.r.randint(3, 6)):
                n.args.append(self.expr(c, self.pick(['i', 'b', 'r', 's', 'i']), 1))
            if self.ch(.5):
                tgt = self.target(scope, refs, own, scalar=True)
                if tgt:
                    n.dst = tgt[0]
            if self.ch(p['res']):
                self.resources(n, scope)
        elif n.ty == 'U':
            c = Ctx(dict(scope), refs, n, budget=1)
            for i in range(self.r.randint(1, 3) if self.ch(.8) else self.r.randint(4, 6)):
                n.pairs.append(('k%d' % i, self.expr(c, self.pick(['i', 'b', 'r', 's']), 1)))
        elif n.ty == 'B':
            name = self.pick(sorted(self.libinfo))
            n.lib = name
            for mode, v in self.libinfo[name]:
                if mode == 'inout':
                    ws = [x for x in self.writable(scope) if x[1] == v.full()]
                    es = [x for x in self.writable(scope) if x[1] == 'a' + v.full()]
                    if ws and self.ch(.85):
                        n.aliases.append((v.name, ('var', self.pick(ws)[0], v.full())))
                    elif es and not v.arr and self.ch(.8):
                        nm, t = self.pick(es)
                        n.aliases.append((v.name, ('elt', ('var', nm, t), ('lit', 'i', self.r.randrange(3)), v.ty)))
                elif self.ch(.8):
                    c = Ctx(dict(scope), [], n, budget=0)
                    if v.arr:
                        ws = self.vars_of(c, v.full())
                        if ws:
                            n.aliases.append((v.name, ('var', self.pick(ws), v.full())))
                    else:
                        c.typed = True      # parameters want an expression of known type
                        x = self.expr(c, v.ty, 1)
                        n.aliases.append((v.name, x))

    def resources(self, n, scope):
        p = self.p
        rnames = p.get('rnames', ['R0', 'R1', 'R2'])
        k = self.r.randint(1, 2)
        c = Ctx(dict(scope), [], n, looks=False, budget=0)
        for nm in self.r.sample(rnames, k):
            def some(ty, e):       # once in a while what a variable holds
                vs = sorted(x for x, t in scope.items() if t[0] == ty)
                return ('var', self.pick(vs), ty) if vs and self.ch(p.get('resvar', .08)) else e
            n.res.append(dict(
                n=some('s', ('lit', 's', nm)) if self.ch(.95) else
                  ('op', 'Concat', 's', [('lit', 's', nm[:1]), ('lit', 's', nm[1:])], 's'),
                p=some('i', ('lit', 'i', self.pick([0, 1, 2, 3, 1, 2, -1, -2, -3]))),
                b=None if self.ch(.15) else
                  some('r', ('lit', 'r', self.pick(p.get('amounts', [.5, .5, 1, .25, -.5, 1.5])))),
                k=None if self.ch(.7) else some('b', ('lit', 'b', self.ch(.5)))))

    def library(self):
        self.libn = getattr(self, 'libn', 0) + 1
        pre = 'L%d_' % self.libn
        iface = []
        for i in range(self.r.randint(0, 3)):
            mode = self.pick(['in', 'inout', 'inout'])
            arr = self.ch(.12)
            v = Var('p%d' % i, self.wpick(dict(i=3, b=2, r=2 * self.p['reals'])), arr, 3 if arr else 0)
            if not arr:
                v.init = self.lit(v.ty)
            if arr:
                v.init = ('alit', v.ty, [self.val(v.ty) for _ in range(3)])
                v.initform = True
            iface.append((mode, v))
        save = self.p
        self.p = dict(save, maxnodes=4, depth=2)
        self.p['types'] = dict(save['types'])
        root = self.plan_tree(pre, iface=iface, depth=2, allowlib=True)
        self.p = save
        self.sc.libs[root.id] = root
        self.libinfo[root.id] = iface
        return root

    # -- scripts
    def ext_state(self):
        n, t = self.pick(SCALARS + PARAMS)
        if self.used_states and self.ch(.85):
            n = self.pick(sorted(self.used_states))
            t = STATES_OF[n]
        args = ['i:%d' % self.r.randint(-1, 3)] if n in ('ip', 'bp') else self.some_args(n) if n in MULTI else []
        v = None if self.ch(self.p['unknown']) else self.val(t)
        return [n] + args + [sval(t, v)]

    def event(self):
        p = self.p
        k = self.wpick(dict(pub=p['pub'], ack=p['ack'] * .5, ret=p['ack'] * .35, aack=p['ack'] * .45,
                            uack=p['ack'] * .5, env=.12))
        sel = 0 if self.ch(.5) else self.r.randrange(6)
        if k in ('pub', 'env'):
            return [k] + self.ext_state()
        if k == 'ack':
            return ['ack', sel, self.pick(p['acks'])]
        if k == 'ret':
            return ['ret', sel, self.r.randrange(100)]
        return [k, sel, 0 if self.ch(p['wrongack']) else 1]

    def prologue(self):
        return []

    def script(self):
        p, r = self.p, self.r
        s = self.sc.script
        t = 0
        s.append(['time', 'r:0'])
        for n, ty in SCALARS:
            if self.ch(.85):
                s.append(['env', n, sval(ty, self.val(ty))])
        for n, ty in ARRS:
            if n in self.used_states and self.ch(.8):
                s.append(['env', n, sval(ty, self.val(ty))])
        s += self.prologue()
        for n, ty in PARAMS:
            for i in range(-1, 4):
                if self.ch(.7):
                    s.append(['env', n, 'i:%d' % i, sval(ty, self.val(ty))])
        for n in sorted(set(MULTI) & self.used_states):
            for _ in range(len(self.seen_args.get(n, [])) + 1):
                s.append(['env', n] + self.some_args(n) + [sval(MULTI[n][0], self.val(MULTI[n][0]))])
        for lib in self.sc.libs:
            s.append(['lib', lib])
        todo = list(range(len(self.sc.roots)))
        s.append(['plan', todo.pop(0)])
        if self.ch(.7):
            while todo and self.ch(.6):
                s.append(['plan', todo.pop(0)])
        s.append(['idle' if self.ch(.7) else 'step'])
        for i in range(r.randint(*p['steps'])):
            if todo and self.ch(.4):
                s.append(['plan', todo.pop(0)])
            if self.ch(p['dt']):
                t += 8 * r.randint(1, 4)
                s.append(['time', 'r:%d' % t])
            for _ in range(r.randint(1, p['batch'])):
                s.append(self.event())
            s.append(['idle' if self.ch(p['idle']) else 'step'])
        for j in todo:
            s.append(['plan', j])
        # let things end
        for i in range(3):
            for j in range(3):
                s.append(['ack', j, 'COMMAND_SUCCESS'])
                s.append(['aack', j, 1])
                s.append(['uack', j, 1])
            s.append(['idle'])

    def make(self):
        p = self.p
        if p['lib'] and p['types'].get('B'):
            for _ in range(self.r.randint(*p['nlibs'])):
                self.library()
        self.sc.decls = DECLS + ''.join(xlibdecl(r) for r in self.sc.libs.values())
        gm = ['g1'] if p['mutex'] and self.ch(.5) else []
        for m in gm:
            self.sc.decls += '<DeclareMutex><Name>%s</Name></DeclareMutex>' % m
        for i in range(p['roots'] if isinstance(p['roots'], int) else self.r.randint(*p['roots'])):
            self.left = p['maxnodes']
            self.globalmutexes = gm
            root = self.skeleton('n', p['depth'], True, True)
            self.fill(root, None, [], {}, list(gm), root)
            self.sc.roots.append(root)
        if p['res'] and p.get('hier', .5) and self.ch(p.get('hier', .5)):
            self.hierarchy()
        self.script()
        return self.sc

    def ear(self):
        """a listener, with a filter or without"""
        k = self.pick(['only', 'only', 'only', 'but', 'but', 'none', 'all'])
        ss, text = [], ''
        if k in ('only', 'but'):
            ss = self.r.sample(STATES, self.pick([1, 1, 2, 2, 3, 5]))
            odd = ['NO_SUCH_STATE'] if self.ch(.1) else []
            ws = [self.pick(['', ' ', '  ', '\n  ', '\t']) for _ in range(2 * len(ss) + 4)]
            names = self.r.sample(ss + odd, len(ss + odd))
            text = ','.join(ws.pop() + x + ws.pop() for x in names)
        self.sc.ears.append((k, ss, text))

    def hierarchy(self):
        """resource file: name max (weight child)..."""
        h, text = {}, []
        for nm, kids in (('R0', ['R2', 'R3']), ('R1', ['R3']), ('R2', []), ('R3', [])):
            mx = self.pick([1, 1, 2, 1.5])
            ks = [(k, self.pick([.5, 1, .25])) for k in kids if self.ch(.7)]
            h[nm] = {'max': int(mx * SCALE), 'kids': [{'r': k, 'w': int(w * SCALE)} for k, w in ks]}
            text.append('%s %s %s' % (nm, mx, ' '.join('%s %s' % (w, k) for k, w in ks)))
        self.sc.hier = h
        self.sc.hiertext = '\n'.join(text) + '\n'
