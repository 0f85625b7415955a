"""Directed plans: shapes in which particular guarantees are at stake, with
conditions and details drawn at random."""
from plan import *
import gen

TRUE, FALSE = ('lit', 'b', True), ('lit', 'b', False)
PREDS = ['Inactive', 'Waiting', 'Executing', 'IterationEnded', 'Finished', 'Succeeded', 'Failed', 'Skipped',
         'PostconditionFailed', 'NoChildFailed']


def NOT(x):
    return ('op', 'NOT', 'b', [x], 'b')


def AND(*x):
    return ('op', 'AND', 'b', list(x), 'b')


def EQ(a, b, kind):
    return ('op', 'EQ', 'b', [a, b], kind)


def lit(ty, v):
    return ('lit', ty, v)


class Templ(gen.Gen):
    def lk(self, name, args=(), on=None, tol=None):
        if name != 'time':
            self.used_states.add(name)
        on = self.ch(.5) if on is None else on
        return ('look', lit('s', name), tuple(args), tol if on else None, on,
                gen.STATES_OF[name])

    NEUTRAL = dict(skip=False, pre=True, post=True, inv=True, end=False, exit=False)

    def gate(self, c=None):
        """A state of its own for a condition, which does nothing until it changes"""
        if len(self.gates) >= len(gen.GATES) or self.gates and self.ch(.12):
            n = self.pick(sorted(self.gates))
        else:
            n = 'q%d' % len(self.gates)
            v = self.NEUTRAL.get(c)
            if v is None:
                v = self.ch(.5)
            elif c == 'post':
                v = self.ch(.7)
            elif self.ch(.06):
                v = not v
            self.gates[n] = v
            if self.ch(.15):
                self.gates[n] = not v
                return NOT(self.lk(n))
        return self.lk(n)

    def b(self, c=None):
        """A boolean that the outside controls"""
        if self.gated:
            return self.gate(c)
        k = self.r.random()
        x = self.lk(self.pick(['b0', 'b1', 'b2']))
        if k < .2:
            return NOT(x)
        if k < .3:
            return ('op', self.pick(['LT', 'GE', 'EQ']), 'b', [self.lk('i0'), lit('i', self.r.randint(0, 2))], 'i')
        if k < .36:
            return ('op', 'IsKnown', 'b', [x], 'b')
        if k < .42:
            return ('op', self.pick(['AND', 'OR']), 'b', [x, self.lk(self.pick(['b0', 'b1', 'b2']))], 'b')
        return x

    def maybe(self, n, **ps):
        """Conditions on the outside world, each with its probability"""
        for c, p in ps.items():
            if self.gated and c == 'start' and n.ty != 'A':
                p *= .6
            if self.ch(p):
                n.conds[c] = self.b(c)
        return n

    def nd(self, ty, *kids, **conds):
        n = Node(self.fresh('n'), ty)
        self.types[n.id] = ty
        n.kids = list(kids)
        n.conds = dict(conds)
        return n

    def A(self, var, ty, rhs, **conds):
        n = self.nd('A', **conds)
        n.lhs = ('var', var, ty) if isinstance(var, str) else var
        n.rhs = rhs
        return n

    def C(self, name='c0', args=(), dst=None, **conds):
        n = self.nd('C', **conds)
        n.name, n.args, n.dst = lit('s', name), list(args), dst
        return n

    def U(self, *pairs, **conds):
        n = self.nd('U', **conds)
        n.pairs = list(pairs) or [('k0', lit('i', 1))]
        return n

    def world(self, ty):
        """Something of type ty the outside controls"""
        names = [n for n, t in gen.SCALARS + gen.ARRS if t == ty]
        if not names:
            return None
        return self.lk(self.pick(names))

    # -- shapes
    def small(self, k=None):
        """Any leaf"""
        k = k or self.wpick(dict(E=2, A=2, C=3, U=2))
        if k == 'E' and self.gated and self.ch(.7):
            return self.nd('E', end=self.gate('end'))
        if k == 'A':
            return self.A('x0', 'i', self.lk('i0') if self.ch(.6) else ('op', 'ADD', 'i', [('var', 'x0', 'i'), lit('i', 1)], 'i'))
        if k == 'C':
            return self.C(self.pick(['c0', 'c1']), dst=('var', 'x0', 'i') if self.ch(.4) else None)
        if k == 'U':
            return self.U(('k0', self.lk('i0')))
        return self.nd('E')

    def root(self, *kids, **conds):
        r = self.nd('L', *kids, **conds)
        r.vars.append(Var('x0', 'i', init=lit('i', 0)))
        self.sc.roots.append(r)
        return r

    def handle(self, n):
        if n.ty == 'C' and self.ch(.5):
            n.conds['end'] = EQ(('hd', ('self', n.id)), lit('h', 'COMMAND_SUCCESS'), 'h') if self.ch(.6) else \
                ('op', 'IsKnown', 'b', [('hd', ('self', n.id))], 'h')
        return n

    def t_assign(self):
        """Assignments of world values, interrupted before they complete, repeated"""
        ty = self.wpick(dict(b=1, i=2, r=1, s=1, ab=2, ai=4))
        arr = ty[0] == 'a'
        v = Var('v0', ty[-1], arr, self.pick([0, 3]) if arr else 0)
        if self.ch(.5):
            v.init = lit(ty, self.val(ty)) if not arr else ('alit', ty[1], [self.val(ty[1]) for _ in range(3)])
            v.initform = True
        kids = []
        for i in range(self.r.randint(1, 3)):
            if arr and self.ch(.3):
                a = self.A(('elt', ('var', 'v0', ty), lit('i', self.r.randrange(3)) if self.ch(.5) else
                            ('op', 'MOD', 'i', [('op', 'ABS', 'i', [self.lk('i1')], 'i'), lit('i', 3)], 'i'), ty[1]), ty,
                           self.world(ty[1]))
            else:
                a = self.A('v0', ty, self.world(ty) if self.ch(.6) else ('var', 'u0', ty))
            self.maybe(a, start=.7, inv=.6, exit=.5, pre=.1, post=.2, end=.3, skip=.1)
            a.conds['rep'] = self.b() if self.ch(.5) else TRUE
            if self.ch(.4):
                a.pr = self.r.randint(0, 2)
            kids.append(a)
        r = self.root(*kids)
        r.vars += [v, Var('u0', ty[-1], arr)]        # u0 is never known
        if self.ch(.3):
            self.maybe(r, inv=.5, exit=.5, end=.3, rep=.3)

    def t_scope(self):
        """Variables of nodes that run again"""
        ty = self.wpick(dict(b=1, i=2, r=1, s=1, ab=1, ai=3))
        arr = ty[0] == 'a'
        v = Var('v0', ty[-1], arr, self.pick([0, 3, 3]) if arr else 0)
        k = self.r.random()
        if k < .3:
            v.init = ('alit', ty[1], [self.val(ty[1]) for _ in range(3)]) if arr else lit(ty, self.val(ty))
            v.initform = True
        elif k < .6 and not arr:
            v.init = ('var', 'x0', 'i') if ty == 'i' else ('var', 'y0', ty)
        a = self.A(('elt', ('var', 'v0', ty), lit('i', self.r.randrange(3)), ty[1]) if arr and self.ch(.7) else 'v0', ty,
                   self.world(ty[1] if False else ty))
        if a.lhs[0] == 'elt':
            a.rhs = self.world(ty[1])
        self.maybe(a, start=.3, end=.3, rep=.2)
        kids = [a]
        if ty == 'i' and self.ch(.7):
            kids.append(self.A('x0', 'i', ('op', 'ADD', 'i', [('var', 'v0', 'i'), lit('i', 1)], 'i'),
                               start=('pred', 'Finished', ('sibling', a.id))))
        L = self.nd('L', *kids, rep=self.b() if self.ch(.7) else TRUE)
        L.vars.append(v)
        self.maybe(L, start=.5, end=.4, inv=.2, exit=.2, post=.2)
        if self.ch(.3):
            L.conds['post' if self.ch(.5) else 'end'] = ('op', 'IsKnown', 'b', [('var', 'v0', ty)], ty if not arr else 'a')
        if L.conds['rep'] == TRUE and 'start' not in L.conds:
            L.conds['start'] = self.lk('b0')
        y = Var('y0', ty[-1], arr, 3 if arr else 0)
        if not arr:
            y.init = lit(ty, self.val(ty))
        if self.ch(.4):
            L2 = self.nd('L', L, rep=self.b())
            self.maybe(L2, start=.5, end=.3)
            if self.ch(.5):     # hides
                L2.vars.append(Var('v0', 'i', init=lit('i', 7)))
            L = L2
        r = self.root(L, *([self.A('x0', 'i', self.lk('i0'), start=self.b(), rep=self.b())] if self.ch(.5) else []))
        r.vars.append(y)

    def t_command(self):
        """Commands, acknowledged, returning, aborted at every moment"""
        dst = self.pick([None, None, ('var', 'x0', 'i'), ('elt', ('var', 'a0', 'ai'), lit('i', 1), 'i'), ('var', 'a0', 'ai')])
        kids = []
        for i in range(self.r.randint(1, 2)):
            c = self.C('c%d' % i, args=[self.lk('i0')] if self.ch(.4) else [], dst=dst if self.ch(.6) else None)
            self.maybe(c, start=.4, end=.3, exit=.4, inv=.4, post=.25, rep=.6, pre=.1)
            self.handle(c)
            if 'rep' in c.conds and 'start' not in c.conds:
                c.conds['start'] = self.b()
            if self.ch(.2):
                c.conds['post'] = EQ(('hd', ('self', c.id)), lit('h', 'COMMAND_SUCCESS'), 'h')
            kids.append(c)
        if self.ch(.4):
            kids.append(self.observer(kids[0]))
        r = self.root(*kids)
        r.vars.append(Var('a0', 'i', True, 3))
        self.maybe(r, exit=.35, inv=.35, end=.25, rep=.3)
        if 'rep' in r.conds:
            r.conds['start'] = self.b()

    def t_update(self):
        kids = []
        for i in range(self.r.randint(1, 3)):
            u = self.U(*[('k%d' % j, self.lk(self.pick(['i0', 'b1', 'r0', 's0']))) for j in range(self.r.randint(1, 2))])
            self.maybe(u, start=.5, end=.5, exit=.4, inv=.4, post=.2, rep=.6, pre=.1, skip=.1)
            if 'rep' in u.conds and 'start' not in u.conds:
                u.conds['start'] = self.b()
            kids.append(u)
        if self.ch(.3):
            kids.append(self.observer(kids[0]))
        r = self.root(*kids)
        self.maybe(r, exit=.3, inv=.3, end=.2, rep=.2)

    def t_mutex(self):
        """Nodes that want the same mutexes or variables"""
        n = self.r.randint(2, 4)
        ms = ['m1', 'm2']
        kids = []
        for i in range(n):
            k = self.small(self.wpick(dict(E=3, A=3, C=2, U=1)))
            if self.ch(.25):
                k = self.nd('L', k)
            if k.ty == 'A' and self.ch(.3):
                pass
            else:
                k.using = self.r.sample(ms, 1 if self.ch(.6) else 2)
            self.maybe(k, start=.6, end=.6, exit=.25, inv=.25, pre=.15, skip=.1, rep=.3, post=.1)
            self.handle(k)
            if 'rep' in k.conds and 'start' not in k.conds and k.ty != 'A':
                k.conds['start'] = self.b()
            if k.ty == 'A' and self.ch(.6):
                k.pr = self.r.randint(0, 3)
            kids.append(k)
        if self.ch(.3):
            sub = self.nd('L', *kids[:2])
            self.maybe(sub, exit=.4, inv=.4, end=.3, rep=.3, start=.4)
            kids = [sub] + kids[2:]
        r = self.root(*kids)
        if self.ch(.7):
            r.mutexes = ms
        else:
            self.globalm = ms
        self.maybe(r, exit=.2, inv=.2)

    def t_contend(self):
        """Assignments to one variable, with priorities"""
        kids = []
        for i in range(self.r.randint(2, 4)):
            a = self.A('x0', 'i', lit('i', i + 1))
            self.maybe(a, start=.8, end=.4, exit=.2, inv=.2, pre=.2, skip=.15, rep=.4, post=.1)
            if self.ch(.8):
                a.pr = self.r.randint(0, 2)
            kids.append(a)
        if self.ch(.4):
            kids.append(self.nd('L', kids.pop()))
            self.maybe(kids[-1], exit=.3, inv=.3, start=.3)
        r = self.root(*kids)
        self.maybe(r, exit=.2, inv=.2, rep=.2)

    def t_finish(self):
        """Lists that end, fail or exit while their children are at work"""
        def leaf():
            k = self.small(self.wpick(dict(E=2 if self.gated else 1, A=1, C=4, U=2)))
            self.maybe(k, start=.5, end=.5, exit=.25, inv=.25, skip=.15, pre=.1, post=.15, rep=.3)
            self.handle(k)
            if 'rep' in k.conds and 'start' not in k.conds and k.ty != 'A':
                k.conds['start'] = self.b()
            return k
        kids = [leaf() for _ in range(self.r.randint(1, 2))]
        L = self.nd('L', *kids)
        self.maybe(L, end=.6, exit=.4, inv=.4, post=.3, rep=.4, start=.3)
        if 'rep' in L.conds and 'start' not in L.conds:
            L.conds['start'] = self.b()
        others = [L]
        if self.ch(.5):
            L2 = self.nd('L', L, *([leaf()] if self.ch(.4) else []))
            self.maybe(L2, end=.5, exit=.4, inv=.4, post=.2, rep=.3, start=.2)
            if 'rep' in L2.conds and 'start' not in L2.conds:
                L2.conds['start'] = self.b()
            others = [L2]
        if self.ch(.4):
            others.append(self.observer(others[0]))
        r = self.root(*others)
        self.maybe(r, end=.3, exit=.2, inv=.2)

    def t_finishing(self):
        """A list that has ended but for a child still at work, then interrupted"""
        self.gated = True
        kids = []
        for _ in range(self.r.randint(1, 2)):
            k = self.wpick(dict(E=2, C=3, L=1))
            if k == 'E':
                n = self.nd('E', end=self.gate('end'))
            elif k == 'C':
                n = self.C(self.pick(['c0', 'c1']))
                self.handle(n)
            else:
                n = self.nd('L', self.nd('E', end=self.gate('end')))
                self.maybe(n, end=.4, exit=.2, inv=.2)
            self.maybe(n, exit=.25, inv=.25, post=.2)
            kids.append(n)
        L = self.nd('L', *kids, end=self.gate('end'))
        self.first.append(L.conds['end'])
        self.maybe(L, exit=.5, inv=.5, post=.4, rep=.25)
        if 'rep' in L.conds:
            L.conds['start'] = self.b('start')
        L2 = self.nd('L', L)
        if self.ch(.4):
            k = self.small()
            self.maybe(k, start=.4, exit=.2, inv=.2, end=.3)
            L2.kids.append(k)
        self.maybe(L2, exit=.55, inv=.55, end=.35, post=.2, rep=.15)
        if 'rep' in L2.conds:
            L2.conds['start'] = self.b('start')
        r = self.root(*([L2] + ([self.observer(L2)] if self.ch(.3) else [])))
        self.maybe(r, exit=.25, inv=.25, end=.2)

    def test(self, t, up='sibling'):
        """A test of the node t"""
        ref = (up, t.id)
        k = self.wpick(dict(pred=5, st=2, out=2, fl=2, hd=3 if t.ty == 'C' else 0, tp=1.5))
        if k == 'pred':
            ps = PREDS if t.ty in 'LB' else PREDS[:-1]
            return ('pred', self.pick(ps + (['NoChildFailed'] * 3 if t.ty == 'L' else [])), ref)
        if k == 'st':
            return EQ(('st', ref), lit('n', self.pick(STATES)), 'n')
        if k == 'out':
            return EQ(('out', ref), lit('o', self.pick(['SUCCESS', 'FAILURE', 'SKIPPED', 'INTERRUPTED'])), 'o')
        if k == 'fl':
            return EQ(('fl', ref), lit('f', self.pick(['PRE_CONDITION_FAILED', 'POST_CONDITION_FAILED', 'PARENT_FAILED',
                                                      'INVARIANT_CONDITION_FAILED', 'EXITED', 'PARENT_EXITED'])), 'f')
        if k == 'hd':
            if self.ch(.3):
                return ('op', 'IsKnown', 'b', [('hd', ref)], 'h')
            return EQ(('hd', ref), lit('h', self.pick(['COMMAND_SUCCESS', 'COMMAND_FAILED', 'COMMAND_DENIED',
                                                      'COMMAND_SENT_TO_SYSTEM', 'COMMAND_ACCEPTED',
                                                      'COMMAND_ABORTED', 'COMMAND_INTERFACE_ERROR'])), 'h')
        tp = ('tp', ref, self.pick(['WAITING', 'EXECUTING', 'FINISHED', 'ITERATION_ENDED', 'FAILING', 'FINISHING']),
              self.r.randint(1, 2))
        k = self.r.random()
        if k < .4:
            return ('op', 'IsKnown', 'b', [tp], 'r')
        return ('op', self.pick(['LT', 'GE', 'EQ']), 'b',
                [tp, lit('r', float(self.r.randint(0, 3))) if k < .8 else self.lk('time', on=False)], 'r')

    def observer(self, t, up='sibling'):
        """Runs for as long as something is true of t"""
        x = self.test(t, up)
        if self.ch(.15):
            x = NOT(x)
        if self.ch(.2):
            return self.A('x0', 'i', ('op', 'ADD', 'i', [('var', 'x0', 'i'), lit('i', 1)], 'i'), start=x)
        return self.nd('E', start=x, end=NOT(x), rep=TRUE)

    def t_observe(self):
        k = self.r.random()
        if k < .5:
            t = self.small()
            self.maybe(t, start=.5, end=.5, exit=.3, inv=.3, skip=.25, pre=.25, post=.3, rep=.3)
            self.handle(t)
            if 'rep' in t.conds and 'start' not in t.conds and t.ty != 'A':
                t.conds['start'] = self.b()
        else:
            kids = []
            for _ in range(self.r.randint(1, 2)):
                s = self.small()
                self.maybe(s, start=.5, end=.3, exit=.2, inv=.2, skip=.2, pre=.3, post=.4, rep=.4)
                if 'rep' in s.conds and 'start' not in s.conds and s.ty != 'A':
                    s.conds['start'] = self.b()
                self.handle(s)
                kids.append(s)
            t = self.nd('L', *kids)
            self.maybe(t, start=.3, end=.4, exit=.3, inv=.3, post=.3, rep=.4)
            if 'rep' in t.conds and 'start' not in t.conds:
                t.conds['start'] = self.b()
            if self.ch(.3):
                kids.append(self.observer(t, 'parent'))
                t.kids = kids
        obs = [self.observer(t) for _ in range(self.r.randint(*self.p.get('observers', (2, 5))))]
        self.root(t, *obs)

    def t_lookup(self):
        """Lookups of one state by several nodes, with and without tolerance, coming and going"""
        if self.ch(.4):
            return self.crowd()
        kids = []
        num = self.pick(['r0', 'i0', 'i1', 'ip'])
        var = self.ch(.4)
        for i in range(self.r.randint(1, 3)):
            args = []
            if num == 'ip':
                args = [('var', 'x0', 'i') if self.ch(.6) else lit('i', self.r.randint(0, 1))]
            tol = self.pick([None, lit('r', .5), lit('r', 1.0), lit('r', 2.0), lit('i', 1), ('var', 'y0', 'r')])
            x = self.lk(num, args, on=self.ch(.8), tol=tol)
            ty = 'r' if num == 'r0' else 'i'
            cond = ('op', self.pick(['GT', 'LE', 'EQ']), 'b', [x, lit(ty, self.pick([0, 1, 2]))], ty)
            k = self.r.random()
            if k < .4:
                n = self.nd('E', end=cond, start=self.b(), rep=self.b())
            elif k < .7:
                n = self.nd('E', start=cond, end=NOT(cond) if self.ch(.7) else self.b(), rep=TRUE)
                if n.conds['end'][1] != 'NOT' or n.conds['end'][0] != 'op':
                    n.conds['rep'] = self.b()
            else:
                n = self.A('w0', ty, x, start=self.b(), rep=self.b())
            kids.append(n)
        if num == 'ip' or var:
            kids.append(self.A('x0', 'i', self.lk('i1', on=False), start=self.b(), rep=self.b()))
        if self.ch(.3):
            kids.append(self.A('y0', 'r', self.pick([lit('r', .5), lit('r', 1.5), ('unk', 'r')]), start=self.b(), rep=self.b()))
        r = self.root(*kids)
        r.vars += [Var('y0', 'r', init=self.pick([None, lit('r', 1.0), lit('r', .5)])),
                   Var('w0', 'r' if num == 'r0' else 'i')]

    def crowd(self):
        """Change lookups of one state that drifts, with various tolerances and begun at different values"""
        num = self.pick(['r0', 'i0', 'i1', 'i1'])
        ty = 'r' if num == 'r0' else 'i'
        kids = []
        for i in range(self.r.randint(2, 4)):
            tol = lit('i', self.r.randint(1, 4)) if ty == 'i' or self.ch(.3) else lit('r', self.pick([.5, 1.0, 1.5, 2.0, 3.5]))
            x = self.lk(num, on=True, tol=None if self.ch(.08) else tol)
            cond = ('op', self.pick(['GT', 'LE', 'EQ']), 'b', [x, lit(ty, self.pick([-20, 0, 1, 2, 3, 20, 20]))], ty)
            n = self.nd('E', end=cond)
            if self.ch(.75):
                n.conds['start'] = self.gate('start')
            if self.ch(.4):
                n.conds['rep'] = self.gate('rep')
            if self.ch(.3):
                n.conds['exit'] = self.gate('exit')
            kids.append(n)
        self.drift = [num, ty, self.r.randint(-2, 4), 1 if ty == 'i' else .5]
        self.root(*kids)

    def t_resource(self):
        """Commands competing for resources, which may depend on variables"""
        kids = []
        vs = dict(rn=('s', ['R0', 'R1', 'R2']), rp=('i', [-1, 0, 1, 2, 3]), rb=('r', [.25, .5, 1.0, 1.5]),
                  rk=('b', [True, False])) if self.ch(.5) else {}
        self.p = dict(self.p, resvar=self.pick([.15, .3, .6]))
        for i in range(self.r.randint(2, 4)):
            c = self.C('c%d' % i)
            self.resources(c, {k: (v[0], None) for k, v in vs.items()})
            if not c.res:
                continue
            self.maybe(c, start=.6, end=.4, exit=.2, inv=.2, rep=.5, post=.1)
            self.handle(c)
            if 'rep' in c.conds and 'start' not in c.conds:
                c.conds['start'] = self.b()
            kids.append(c)
        if self.ch(.3):
            kids.append(self.observer(kids[0]))
        for v, (ty, l) in sorted(vs.items()):
            if self.ch(.5):
                kids.append(self.A(v, ty, lit(ty, self.pick(l)) if ty != 'b' or self.ch(.5) else self.lk('b0'),
                                   start=self.b(), **(dict(rep=self.b()) if self.ch(.4) else {})))
        r = self.root(*kids)
        r.vars += [Var(v, ty, init=lit(ty, self.pick(l))) for v, (ty, l) in sorted(vs.items())]
        if self.ch(.5):
            self.hierarchy()

    def t_chain(self):
        """A cascade of nodes within one step"""
        n = self.r.randint(3, 5)
        kids = [self.small(self.wpick(dict(E=4, A=2, C=1, U=1))) for _ in range(n)]
        for i, k in enumerate(kids):
            if i == 0:
                self.maybe(k, start=1, end=.5)
            else:
                t = self.pick(kids[:i])
                k.conds['start'] = ('pred', self.pick(['Finished', 'Executing', 'Waiting', 'IterationEnded', 'Finished']), ('sibling', t.id))
            if self.ch(.4):
                t = self.pick(kids)
                if t is not k:
                    k.conds[self.pick(['end', 'exit', 'skip', 'inv', 'end'])] = self.test(t)
            self.maybe(k, rep=.2 if k.conds.get('end') else 0, post=.1)
            self.handle(k)
        r = self.root(*kids)
        self.maybe(r, end=.2, exit=.15)
        if self.ch(.3):
            r.conds['rep'] = self.b()
            r.conds['start'] = self.b()

    def t_calc(self):
        """Expressions over everything, evaluated again and again"""
        kids = []
        r = self.root()
        for i in range(self.r.randint(2, 4)):
            ty = self.wpick(dict(b=3, i=2, r=2, s=1, ai=.6, ab=.4, ar=.4, **{'as': .4}))
            v = Var('w%d' % i, ty[-1], ty[0] == 'a', 3 if ty[0] == 'a' else 0)
            if self.ch(.4):
                v.init = lit(ty, self.val(ty)) if ty[0] != 'a' else ('alit', ty[1], self.val(ty))
                v.initform = True
            r.vars.append(v)
        scope = {v.name: (v.full(), True) for v in r.vars}
        for v in r.vars[1:]:
            c = gen.Ctx(dict(scope), [], r, budget=0)
            x = self.expr(c, v.full(), self.r.randint(1, 4)) if not v.arr or self.ch(.5) else None
            if x is None:
                a = self.A(('elt', ('var', v.name, v.full()), self.index(c, v.name) if self.ch(.5) else lit('i', self.r.randrange(3)), v.ty),
                           v.full(), self.expr(c, v.ty, 2) if self.ch(.8) or v.ty == 's' else ('unk', v.ty))
                a.rhs = self.clamp(a.rhs, v.ty)
            else:
                a = self.A(v.name, v.full(), self.clamp(x, v.full()))
            a.conds['start'] = self.lk('b0')
            a.conds['rep'] = TRUE
            r.kids.append(a)
        if self.ch(.6):
            c = gen.Ctx(dict(scope), [], r, budget=0)
            x = self.boolean(c, 3)
            r.kids.append(self.nd('E', start=x, end=NOT(x), rep=TRUE))

    def t_library(self):
        for _ in range(self.r.randint(1, 2)):
            self.library()
        r = self.root()
        r.vars += [Var('y0', 'r', init=lit('r', 1.0)), Var('q0', 'b', init=lit('b', True)), Var('a0', 'i', True, 3)]
        scope = {v.name: (v.full(), True) for v in r.vars}
        for _ in range(self.r.randint(1, 2)):
            n = self.nd('B')
            self.body(n, scope, [], [])
            self.maybe(n, start=.4, end=.15, exit=.25, inv=.25, rep=.4, post=.2, skip=.1)
            if 'rep' in n.conds and 'start' not in n.conds:
                n.conds['start'] = self.b()
            r.kids.append(n)
        if self.ch(.4):
            r.kids.append(self.observer(r.kids[0]))
        if self.ch(.5):
            r.kids.append(self.A('x0', 'i', self.lk('i0'), start=self.b(), rep=self.b()))

    def t_roots(self):
        """Several plans at once, sharing global mutexes and the world"""
        self.globalm = ['g1']
        for _ in range(self.r.randint(2, 4)):
            kids = []
            for _ in range(self.r.randint(1, 2)):
                k = self.small()
                self.maybe(k, start=.5, end=.4, exit=.2, inv=.2, rep=.2)
                self.handle(k)
                if 'rep' in k.conds and 'start' not in k.conds and k.ty != 'A':
                    k.conds['start'] = self.b()
                if self.ch(.4):
                    k.using = ['g1']
                kids.append(k)
            r = self.root(*kids)
            self.maybe(r, end=.2, exit=.2, inv=.15)

    def flip(self):
        """A gate changes"""
        n = self.pick(sorted(self.gates))
        now = self.now.get(n)
        if now is None or self.ch(self.p['unknown'] * .5):
            v = self.gates[n] if now is None and self.ch(.6) else not self.gates[n] if now is None else None
        elif self.ch(.85):
            v = not now
        else:
            v = now
        self.now[n] = v
        return ['pub', n, sval('b', v)]

    def prologue(self):
        self.now = dict(self.gates)
        return [['env', n, sval('b', v)] for n, v in sorted(self.gates.items())]

    def event(self):
        if self.drift and self.ch(.55):
            d = self.drift
            v = None if self.ch(.04) else d[2] + self.r.choice([-2, -1, -1, 0, 1, 1, 2, 3]) * d[3]
            d[2] = d[2] if v is None else v
            return ['pub', d[0], sval(d[1], v)]
        if self.first and self.ch(.6):
            x = self.first.pop(0)
            while x[0] == 'op':
                x = x[3][0]
            n = x[1][2]
            self.now[n] = not self.gates[n]
            return ['pub', n, sval('b', self.now[n])]
        if self.gates and self.ch(.5):
            return self.flip()
        return gen.Gen.event(self)

    def ext_state(self):
        while True:
            x = gen.Gen.ext_state(self)
            if x[0] not in self.gates or all(n in self.gates for n in self.used_states):
                return x

    def make(self):
        self.globalm = []
        self.gates, self.now, self.first, self.drift = {}, {}, [], None
        self.gated = self.ch(self.p.get('gated', .65))
        t = self.p['template']
        getattr(self, 't_' + (t if isinstance(t, str) else self.pick(t)))()
        self.sc.decls = gen.DECLS + ''.join(xlibdecl(r) for r in self.sc.libs.values())
        for m in self.globalm:
            self.sc.decls += '<DeclareMutex><Name>%s</Name></DeclareMutex>' % m
        self.script()
        return self.sc
