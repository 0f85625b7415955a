"""Abstract plans as PLEXIL source text."""
import re
from plan import *

KW = {'skip': ('SkipCondition', 'Skip'), 'start': ('StartCondition', 'Start'), 'pre': ('PreCondition', 'Pre'),
      'post': ('PostCondition', 'Post'), 'inv': ('InvariantCondition', 'Invariant'), 'end': ('EndCondition', 'End'),
      'exit': ('ExitCondition', 'Exit'), 'rep': ('RepeatCondition', 'Repeat')}
OP = {'OR': (1, ('||', 'OR')), 'XOR': (2, ('XOR',)), 'AND': (3, ('&&', 'AND')), 'EQ': (4, ('==',)), 'NE': (4, ('!=',)),
      'LT': (5, ('<',)), 'LE': (5, ('<=',)), 'GT': (5, ('>',)), 'GE': (5, ('>=',)),
      'ADD': (6, ('+',)), 'SUB': (6, ('-',)), 'Concat': (6, ('+',)), 'MUL': (7, ('*',)), 'DIV': (7, ('/',)),
      'MOD': (7, ('%', 'mod'))}
FN = {'ABS': 'abs', 'SQRT': 'sqrt', 'CEIL': 'ceil', 'FLOOR': 'floor', 'ROUND': 'round', 'TRUNC': 'trunc',
      'REAL_TO_INT': 'real_to_int', 'STRLEN': 'strlen', 'ArraySize': 'arraySize', 'ArrayMaxSize': 'arrayMaxSize',
      'MAX': 'max', 'MIN': 'min'}
PRED = {'Finished': 'NodeFinished', 'Executing': 'NodeExecuting', 'Waiting': 'NodeWaiting', 'Inactive': 'NodeInactive',
        'IterationEnded': 'NodeIterationEnded', 'Succeeded': 'NodeSucceeded', 'Failed': 'NodeFailed',
        'Skipped': 'NodeSkipped', 'PostconditionFailed': 'NodePostconditionFailed', 'NoChildFailed': 'NoChildFailed'}
ASSOC = ('OR', 'AND', 'ADD', 'Concat', 'MUL')       # the grouping does not matter
TOP, QUANT, UNARY = 0, 9, 8
TEXT = 'ab "\\\'<>&;/{}\n\t1x'


class Unprintable(Exception):
    pass


class Printer:
    """What can be written in several ways is, as r decides"""

    def __init__(self, r, cmds=()):
        self.r = r
        self.cmds = dict(cmds)      # declared commands: name -> type returned

    def pick(self, s):
        return s[self.r.randrange(len(s))]

    def ch(self, p):
        return self.r.random() < p

    # -- literals
    def string(self, s):
        q = self.pick('""\'')
        out = []
        for i, ch in enumerate(s):
            if ch == '\\' or ch == q:
                out.append('\\' + ch)
            elif ch == '\n':
                out.append('\\n')
            elif ch == '\t':
                out.append('\\t')
            elif self.ch(.06):
                nx = s[i + 1:i + 2]
                out.append(self.pick(['\\u%04x' % ord(ch), '\\U%08X' % ord(ch), '\\%03o' % ord(ch),
                                      ch if nx and nx in '0123456789abcdefABCDEF' else '\\x%x' % ord(ch)]))
            elif ch in '\'"' and self.ch(.5):
                out.append('\\' + ch)
            else:
                out.append(ch)
        return q + ''.join(out) + q

    def integer(self, v):
        k = self.r.random()
        if k < .06:
            return '0x%x' % v
        if k < .09:
            return '0b%s' % bin(v)[2:]
        if k < .12:
            return '0o%o' % v
        return str(v)

    def real(self, v):
        k = self.r.random()
        if k < .15 and v == int(v):
            return '%d.' % v
        if k < .25:
            return '%re0' % float(v)
        if k < .35:
            return '%rE+1' % (v / 10 if v / 10 * 10 == v and len(repr(v / 10)) < 6 else v) if v == 0 else repr(float(v))
        if k < .45 and 0 < v < 1:
            return repr(float(v))[1:]
        return repr(float(v))

    def lit(self, ty, v):
        if v is None:
            raise Unprintable('unknown literal')
        if ty == 'b':
            return 'true' if v else 'false'
        if ty == 's':
            return self.string(v)
        if ty in 'ir':
            return ('-' if v < 0 else '') + (self.integer(abs(v)) if ty == 'i' else self.real(abs(v)))
        return v

    # -- expressions
    def wrap(self, s, have, want):
        if have < want or self.ch(.08):
            return '(%s)' % s
        return s

    def ref(self, ref):
        k, i = ref
        return {'id': '%s', 'self': 'Self', 'parent': 'Parent', 'child': 'Child(%s)', 'sibling': 'Sibling(%s)'}[k] % (
            (i,) if k in ('id', 'child', 'sibling') else ())

    def e(self, x, want=TOP, body=False):
        s, have = self.raw(x, body)
        return self.wrap(s, have, want)

    def chain(self, op, args, body):
        p, names = OP[op]
        if len(args) == 1:
            if op == 'SUB':
                return '-(%s)' % self.e(args[0], TOP, body), UNARY
            return self.raw(args[0], body)
        if p in (4, 5):
            return '%s %s %s' % (self.e(args[0], p + 1, body), self.pick(names), self.e(args[1], p + 1, body)), p
        if op in ASSOC and len(args) > 2 and self.ch(.3):       # group some of them
            i = self.r.randint(1, len(args) - 1)
            left, right = args[:i], args[i:]
            l, r = self.chain(op, left, body), self.chain(op, right, body)
            return '%s %s %s' % (self.wrap(l[0], l[1], p), self.pick(names), self.wrap(r[0], r[1], p + 1)), p
        out = self.e(args[0], p, body)
        for a in args[1:]:
            out = '%s%s%s%s%s' % (out, self.pick([' ', ' ', '\n']), self.pick(names), ' ', self.e(a, p + 1, body))
        return out, p

    def raw(self, x, body):
        k = x[0]
        if k == 'lit':
            s = self.lit(x[1], x[2])
            return s, UNARY if s[0] == '-' else QUANT
        if k == 'unk':
            raise Unprintable('unknown')
        if k == 'alit':
            return '#(%s)' % ' '.join(self.lit(x[1], v) for v in x[2]), QUANT
        if k == 'var':
            return x[1], QUANT
        if k == 'elt':
            a, p = self.raw(x[1], body)
            if x[1][0] not in ('var', 'look'):
                raise Unprintable('element of an expression')
            return '%s[%s]' % (a, self.e(x[2], TOP, body)), QUANT
        if k == 'look':
            nm = x[1]
            s = nm[2] if nm[0] == 'lit' and re.fullmatch('[A-Za-z_]\\w*', nm[2]) else '(%s)' % self.e(nm, TOP, body)
            if x[2]:
                s += '(%s)' % ', '.join(self.e(a, TOP, body) for a in x[2])
            elif self.ch(.2):
                s += '()'
            if x[3]:
                if not x[4]:
                    raise Unprintable('tolerance')
                s += ', ' + self.e(x[3], TOP, body)
            kw = 'LookupOnChange' if x[4] else 'LookupNow'
            # in a body, Lookup is LookupNow; in most conditions, LookupOnChange
            if body is not None and self.ch(.6) and (not x[4] if body else x[4]) and not (body and x[3]):
                kw = 'Lookup'
            return '%s(%s)' % (kw, s), QUANT
        if k == 'op':
            op, args = x[1], x[3]
            if op in OP:
                return self.chain(op, args, body)
            if op == 'NOT':
                return '%s(%s)' % (self.pick(['!', 'NOT ']), self.e(args[0], TOP, body)), UNARY
            if op == 'IsKnown':
                return 'isKnown(%s)' % self.e(args[0], QUANT, body), QUANT
            if op == 'ABS' and self.ch(.3):
                s = self.e(args[0], TOP, body)
                if '|' not in s:
                    return '|%s|' % s, QUANT
                return 'abs(%s)' % s, QUANT
            if op in ('MAX', 'MIN'):
                if len(args) == 1:
                    return self.raw(args[0], body)
                i = self.r.randint(1, len(args) - 1)
                l, r = (self.raw(('op', op, x[2], args[:i], x[4]), body)[0], self.raw(('op', op, x[2], args[i:], x[4]), body)[0])
                return '%s(%s, %s)' % (FN[op], l, r), QUANT
            if op in FN:
                return '%s(%s)' % (FN[op], self.e(args[0], TOP, body)), QUANT
            raise Unprintable(op)
        if k == 'pred':
            return '%s(%s)' % (PRED[x[1]], self.ref(x[2])), QUANT
        if k in ('st', 'out', 'fl', 'hd'):
            return '%s.%s' % (self.ref(x[1]), {'st': 'state', 'out': 'outcome', 'fl': 'failure', 'hd': 'command_handle'}[k]), QUANT
        if k == 'tp':
            return '%s.%s.%s' % (self.ref(x[1]), x[2], 'START' if x[3] == 1 else 'END'), QUANT
        raise ValueError(x)

    # -- nodes
    def ws(self):
        return self.pick(['\n', '\n', '\n', ' ', '\n// ; } end\n', ' /* x = 1; { */ '])

    def var(self, v):
        if v.init is not None and v.init[0] not in ('lit', 'alit'):
            raise Unprintable('initial value')
        s = '%s %s' % (TN[v.ty], v.name)
        if v.arr:
            if not v.mx:
                raise Unprintable('array of no size')
            s += '[%d]' % v.mx
        if v.init is not None:
            s += ' = ' + (self.lit(v.init[1], v.init[2]) if v.init[0] == 'lit' else self.raw(v.init, True)[0])
        return s

    def vars(self, vs, pre=''):
        """Declarations, those of one type in succession sometimes in one"""
        out, i = [], 0
        while i < len(vs):
            s = pre + self.var(vs[i])
            while i + 1 < len(vs) and vs[i + 1].ty == vs[i].ty and self.ch(.5):
                i += 1
                s += ', ' + self.var(vs[i])[len(TN[vs[i].ty]) + 1:]
            i += 1
            out.append(s + ';')
        return out

    def conds(self, n):
        out = []
        for c in n.conds:
            ctx = {'pre': True, 'post': True, 'inv': None}.get(c, False)
            out.append('%s %s;' % (self.pick(KW[c]), self.e(n.conds[c], TOP, ctx)))
        return out

    def head(self, n):
        """Declarations, then conditions and the like"""
        d = []
        if n.iface:
            for m, v in n.iface:
                d += self.vars([v], 'In ' if m == 'in' else 'InOut ')
        d += self.vars(n.vars)
        if n.mutexes:
            d.append('Mutex %s;' % ', '.join(n.mutexes))
        a = self.conds(n)
        if n.using:
            a.append('Using %s;' % ', '.join(n.using))
        if n.pr is not None:
            a.append('Priority %d;' % n.pr)
        self.r.shuffle(a)
        res = []
        for r in n.res:
            opts = ['Priority = ' + self.e(r['p'], TOP, True)]
            if r['b'] is not None:
                opts.append('UpperBound = ' + self.e(r['b'], TOP, True))
            if r['k'] is not None:
                opts.append('ReleaseAtTermination = ' + self.e(r['k'], TOP, True))
            self.r.shuffle(opts)
            res.append('Resource Name = %s;' % ', '.join([self.e(r['n'], TOP, True)] + opts))
        at = self.r.randint(0, len(a))
        return d + a[:at] + res + a[at:]

    def lhs(self, x):
        return self.raw(x, True)[0]

    def command(self, n):
        ty = None if n.dst is None else n.dst[2] if n.dst[0] == 'var' else n.dst[3]
        nm = n.name
        if nm[0] == 'lit' and re.fullmatch('[A-Za-z_]\\w*', nm[2]) and nm[2] in self.cmds and \
           (ty is None or self.cmds[nm[2]] == ty):
            s = nm[2]
        else:
            s = '(%s)' % self.e(nm, TOP, True)
        return '%s(%s)' % (s, ', '.join(self.e(a, TOP, True) for a in n.args))

    def action(self, n):
        if n.ty == 'A':
            return '%s = %s;' % (self.lhs(n.lhs), self.e(n.rhs, TOP, True))
        if n.ty == 'C':
            return ('%s = ' % self.lhs(n.dst) if n.dst is not None else '') + self.command(n) + ';'
        if n.ty == 'U':
            return 'Update %s;' % ', '.join('%s = %s' % (k, self.e(x, TOP, True)) for k, x in n.pairs)
        if n.ty == 'B':
            return 'LibraryCall %s%s;' % (n.lib, '(%s)' % ', '.join(
                '%s = %s' % (p, self.e(x, TOP, None)) for p, x in n.aliases) if n.aliases else self.pick(['', '()']))
        raise ValueError(n.ty)

    def node(self, n):
        h = self.head(n)
        if n.ty == 'L':
            h += [self.node(k) for k in n.kids]
            return '%s: Concurrence {%s%s%s}' % (n.id, self.ws(), self.ws().join(h), self.ws())
        if n.ty != 'E':
            s = self.action(n)
            if not h and self.ch(.7):
                return '%s: %s' % (n.id, s)
            h.append(s)
        return '%s: {%s%s%s}%s' % (n.id, self.ws(), self.ws().join(h), self.ws(), self.pick(['', ';']) if False else '')

    def plan(self, root, decls):
        """decls: declarations in source form"""
        return ''.join(d + ';\n' for d in decls) + self.node(root) + '\n'


# ---------------------------------------------------------------- what source text can say

COMMANDS = dict([('c%d' % i, None) for i in range(3)] +
                [('c%d_%s' % (i, t), t) for i in range(3) for t in ('i', 'b', 'r', 's', 'ai', 'ab', 'ar', 'as')])


def repr_names(n):
    return ('"%s"' % n.name[2] if n.ty == 'C' and n.name[0] == 'lit' else '') + ''.join(repr_names(k) for k in n.kids)


def decls(sc, gen):
    """Declarations, in source form"""
    out = ['%s Lookup %s' % (TN[t], n) for n, t in gen.SCALARS + gen.GATES + [('time', 'r')]]
    out += ['%s Lookup %s(Integer)' % (TN[t], n) for n, t in gen.PARAMS]
    out += ['%s[3] Lookup %s' % (TN[t[1]], n) for n, t in gen.ARRS]
    out += ['%s Lookup %s(%s)' % (TN[t], n, ', '.join(TN[a] for a in ts)) for n, (t, ts) in gen.MULTI.items()]
    out += ['%sCommand %s(...)' % ('' if t is None else TN[t] + ' ' if len(t) == 1 else TN[t[1]] + '[3] ', c)
            for c, t in COMMANDS.items() if any('"%s"' % c in repr_names(x) for x in sc.roots + list(sc.libs.values()))]
    out += ['Mutex ' + m for m in re.findall('<DeclareMutex><Name>(\\w+)<', sc.decls)]
    for x in sc.libs.values():
        out.append('%s %s%s' % ('LibraryNode' if len(x.id) % 2 else 'LibraryAction', x.id, '(%s)' % ', '.join(
            '%s %s %s%s' % ('In' if m == 'in' else 'InOut', TN[v.ty], v.name, '[%d]' % v.mx if v.arr else '')
            for m, v in x.iface) if x.iface else ''))
    return out


class Adapt:
    """Replaces what source text cannot say: unknown literals, variables initialised from others, ..."""

    def __init__(self, r):
        self.r = r

    def some(self, ty):
        return {'b': self.r.random() < .5, 'i': self.r.randint(-2, 4), 'r': self.r.randint(-4, 8) * .5,
                's': ['', 'a', 'b', 'ab'][self.r.randrange(4)]}[ty]

    def type(self, x):
        return {'lit': 1, 'var': 2, 'elt': 3, 'look': 5, 'op': 2}.get(x[0]) and x[
            {'lit': 1, 'var': 2, 'elt': 3, 'look': 5, 'op': 2}[x[0]]] or 'b' * (x[0] == 'pred')

    def salt(self, x, loose=False):
        """The same value, with what a compiler might take to be superfluous; loose: the type may change to Real"""
        ty = self.type(x)
        L = lambda v: ('lit', ty, v)
        pick = lambda s: s[self.r.randrange(len(s))]
        sw = lambda a, b: [a, b] if self.r.random() < .5 else [b, a]
        if ty == 'i' and loose and self.r.random() < .5:
            x, ty = ('op', 'ADD', 'r', sw(x, ('lit', 'r', 0.0)), 'r') if self.r.random() < .5 else \
                ('op', 'MUL', 'r', sw(x, ('lit', 'r', 1.0)), 'r'), 'r'
            if self.r.random() < .5:
                x = ('op', 'DIV', 'r', [x, ('lit', 'i', 2)], 'r')
            return x
        if ty == 'b':
            k = pick(['and', 'or', 'eqt', 'eqf', 'net', 'nef', 'not'])
            if k in ('and', 'or'):
                return ('op', k.upper(), 'b', sw(x, L(k == 'and')), 'b')
            if k == 'not':
                return ('op', 'NOT', 'b', [x], 'b')
            return ('op', k[:2].upper(), 'b', sw(x, L(k[2] == 't')), 'b')
        if ty == 'i':
            return ('op',) + pick([('ADD', 'i', sw(x, L(0)), 'i'), ('MUL', 'i', sw(x, L(1)), 'i'), ('SUB', 'i', [x, L(0)], 'i'),
                                   ('SUB', 'i', [L(0), x], 'i'), ('SUB', 'i', [('op', 'SUB', 'i', [x, L(1)], 'i'), L(2)], 'i'),
                                   ('SUB', 'i', [x, ('op', 'SUB', 'i', [L(1), L(2)], 'i')], 'i')])
        if ty == 'r':
            return ('op',) + pick([('ADD', 'r', sw(x, L(0.0)), 'r'), ('MUL', 'r', sw(x, L(1.0)), 'r'),
                                   ('SUB', 'r', [x, L(0.0)], 'r'), ('SUB', 'r', [L(0.0), x], 'r'), ('DIV', 'r', [x, L(1.0)], 'r'),
                                   ('ADD', 'r', sw(x, ('lit', 'i', 0)), 'r'), ('MUL', 'r', sw(x, ('lit', 'i', 1)), 'r'),
                                   ('DIV', 'r', [x, ('lit', 'i', 1)], 'r'), ('SUB', 'r', [x, ('lit', 'i', 0)], 'r')])
        return x

    def salted(self, x, p, loose=False):
        return self.salt(x, loose) if self.r.random() < p else x

    def text(self, x):
        """A string nobody expected"""
        if x[0] == 'lit' and x[1] == 's' and self.r.random() < .25:
            return ('lit', 's', ''.join(TEXT[self.r.randrange(len(TEXT))] for _ in range(self.r.randint(0, 6))))
        return x

    def e(self, x):
        k = x[0]
        if k == 'unk':
            if x[1][0] == 'a':
                return ('alit', x[1][1], [self.some(x[1][1]) for _ in range(3)])
            return ('lit', x[1], self.some(x[1]))
        if k == 'lit' and x[2] is None:
            return ('lit', x[1], self.some(x[1]))
        if k == 'alit':
            return ('alit', x[1], [self.some(x[1]) if v is None else v for v in x[2]])
        if k == 'elt':
            return ('elt', self.e(x[1]), self.e(x[2]), x[3])
        if k == 'look':
            nm, tol = self.e(x[1]), x[3]
            if nm[0] == 'op' and nm[1] == 'Concat' and all(a[0] == 'lit' for a in nm[3]):
                nm = ('lit', 's', ''.join(a[2] for a in nm[3]))
            if tol is not None:
                tol = self.e(tol)
                if x[5] == 'i' and not (tol[0] == 'lit' and tol[1] == 'i'):
                    tol = ('lit', 'i', self.r.randint(1, 2))
            return ('look', nm, tuple(self.e(a) for a in x[2]), tol, x[4], x[5])
        if k == 'op':
            op, ty, args, kind = x[1], x[2], [self.e(a) for a in x[3]], x[4]
            if op in ('ALL_KNOWN', 'ANY_KNOWN'):
                return ('op', 'IsKnown', 'b', [('op', 'ArraySize', 'i', args, 'a')], 'i')
            if op in ('LT', 'LE', 'GT', 'GE') and kind == 's':
                op = 'EQ' if op in ('LE', 'GE') else 'NE'
            if op == 'DIV' and ty == 'i':
                op = 'MOD'
            if op in ('AND', 'OR', 'XOR', 'NOT', 'ADD', 'MIN', 'MAX'):
                args = [self.salted(a, .06) for a in args]
            return ('op', op, ty, args, kind)
        return x

    def var(self, v):
        if v.arr:
            v.mx = v.mx or 3
            if v.init is not None:
                v.init = self.e(v.init if v.init[0] == 'alit' else ('unk', 'a' + v.ty))
        elif v.init is not None:
            v.init = self.e(v.init if v.init[0] == 'lit' else ('unk', v.ty))

    def node(self, n, libs, held=()):
        n.using = [m for m in n.using if m not in held]
        for v in n.vars + [v for _, v in n.iface or []]:
            self.var(v)
        n.conds = {c: self.salted(self.e(x), .1) for c, x in n.conds.items()}
        if n.ty == 'A':
            n.lhs, n.rhs = self.e(n.lhs), self.salted(self.e(n.rhs), .15)
        elif n.ty == 'C':
            n.name, n.args = self.e(n.name), [self.salted(self.text(self.e(a)), .15, True) for a in n.args]
            if n.dst is not None:
                n.dst = self.e(n.dst)
                if n.name[0] == 'lit':
                    n.name = ('lit', 's', '%s_%s' % (n.name[2], n.dst[2] if n.dst[0] == 'var' else n.dst[3]))
            n.res = [{k: None if x is None else self.e(x) for k, x in q.items()} for q in n.res]
        elif n.ty == 'U':
            n.pairs = [(k, self.salted(self.text(self.e(x)), .15, True)) for k, x in n.pairs]
        elif n.ty == 'B':
            n.aliases = [(p, self.e(x)) for p, x in n.aliases]
            if not n.aliases:       # the declaration of a library action gives no defaults
                ins = [v for m, v in libs[n.lib].iface or [] if m == 'in' and not v.arr]
                if ins:
                    n.aliases = [(ins[0].name, ('lit', ins[0].ty, self.some(ins[0].ty)))]
                elif libs[n.lib].iface:
                    n.ty = 'E'
        for k in n.kids:
            self.node(k, libs, tuple(held) + tuple(n.using))
