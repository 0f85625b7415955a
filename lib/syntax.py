"""Plan documents, well formed and otherwise: what the executive makes of them,
judged by TLC against spec/PlexilSyntax.tla (C25)."""
import concurrent.futures as cf, json, os, random, re, subprocess
import xml.etree.ElementTree as ET
import gen, profiles, templates, run as runner
from plan import *

ATTRS = ('NodeType', 'dir', 'Type')


class T:
    """An element: tag, attributes, text, children"""

    def __init__(self, t, x='', c=(), **a):
        self.t, self.x, self.c, self.a = t, x, list(c), dict(a)

    def copy(self):
        return T(self.t, self.x, [k.copy() for k in self.c], **self.a)

    def json(self):
        return {'t': self.t, 'a': {k: self.a.get(k, '') for k in ATTRS}, 'x': '' if self.c else self.x,
                'c': [k.json() for k in self.c]}

    def xml(self):
        a = ''.join(' %s="%s"' % (k, esc(v).replace('"', '&quot;')) for k, v in self.a.items())
        return '<%s%s>%s</%s>' % (self.t, a, ''.join(k.xml() for k in self.c) if self.c else esc(self.x), self.t)

    def walk(self, parent=None, i=0):
        yield self, parent, i
        for j, k in enumerate(self.c):
            yield from k.walk(self, j)


def parse(text):
    def conv(e):
        return T(e.tag, e.text or '', [conv(k) for k in e], **e.attrib)
    return conv(ET.fromstring(text))


# ---------------------------------------------------------------- base documents

SMALL = [
    dict(maxnodes=5, depth=3, kids=(1, 3), nvars=(1, 2), arrays=.3, edepth=2, types=dict(E=2, A=4, C=3, U=2, L=4, B=0)),
    dict(maxnodes=5, depth=3, kids=(1, 3), nvars=(1, 2), mutex=.5, prio=.5, res=.6, handles=.5, timepts=.3,
         types=dict(E=2, A=3, C=5, U=2, L=4, B=0)),
    dict(maxnodes=4, depth=2, kids=(1, 3), nvars=(1, 2), arrays=.4, lib=1, nlibs=(1, 2),
         types=dict(E=1, A=3, C=2, U=1, L=3, B=5)),
    dict(maxnodes=6, depth=3, kids=(1, 3), nvars=(2, 3), arrays=.6, arrops=.6, strings=.4, edepth=3,
         types=dict(E=2, A=5, C=3, U=2, L=4, B=0)),
]


def base(seed):
    """(plan, libraries) as the generators make them"""
    r = random.Random(seed)
    if r.random() < .75:
        g = gen.Gen(seed, r.choice(SMALL))
    else:
        g = templates.Templ(seed, {'template': r.choice([m[2:] for m in dir(templates.Templ) if m.startswith('t_')])})
    sc = g.make()
    root = r.choice(sc.roots)
    decls = sc.decls
    docs = [parse(xplan(l, decls)) for l in sc.libs.values()]
    doc = parse(xplan(root, decls))
    if r.random() < .6:
        trim(doc, r)
        for d in docs:
            trim(d, r)
    if r.random() < .6:
        declare(doc, r)
    if r.random() < .3:
        global_mutex(doc, r)
    return doc, docs


def used(doc, tags):
    out = set()
    for e, _, _ in doc.walk():
        if e.t in tags and e.c and e.c[0].t == 'Name' and e.c[0].c:
            for v, _, _ in e.c[0].walk():
                if v.t == 'StringValue':
                    out.add(v.x)
        if e.t in tags:
            for k in e.c:
                if k.t == 'Name' and k.c and k.c[0].t == 'StringValue':
                    out.add(k.c[0].x)
    return out


def globals_of(doc):
    if doc.c and doc.c[0].t == 'GlobalDeclarations':
        return doc.c[0]
    g = T('GlobalDeclarations')
    doc.c.insert(0, g)
    return g


def trim(doc, r):
    """Keep only the declarations in use"""
    g = globals_of(doc)
    u = used(doc, ('LookupNow', 'LookupOnChange'))
    g.c = [d for d in g.c if d.t != 'StateDeclaration' or d.c[0].x in u or r.random() < .1]
    if not g.c:
        doc.c.remove(g)


def guess(e, vt):
    """The declared type for an argument: name, is an array"""
    t = e.t
    for n in ('Boolean', 'Integer', 'Real', 'String'):
        if t in (n + 'Value', n + 'Variable'):
            return n, False
    if t == 'ArrayValue':
        return e.a.get('Type'), True
    if t == 'ArrayVariable' and e.x in vt:
        return vt[e.x], True
    if t == 'ArrayElement' and e.c[0].t == 'ArrayVariable' and e.c[0].x in vt:
        return vt[e.c[0].x], False
    if t in ('NOT', 'AND', 'OR', 'XOR', 'IsKnown', 'LT', 'GT', 'LE', 'GE') or t.startswith(('EQ', 'NE')):
        return 'Boolean', False
    return None, False


def declare(doc, r):
    """Declare the commands in use"""
    cmds, vt = {}, {}
    for e, _, _ in doc.walk():
        if e.t == 'DeclareArray':
            vt.setdefault(e.c[0].x, e.c[1].x)
            if vt[e.c[0].x] != e.c[1].x:
                vt[e.c[0].x] = None
        if e.t == 'Command' and e.c:
            nm = [k for k in e.c if k.t == 'Name']
            if nm and nm[0].c and nm[0].c[0].t == 'StringValue':
                a = [k for k in e.c if k.t == 'Arguments']
                d = [k for k in e.c if k.t.endswith('Variable') or k.t == 'ArrayElement']
                cmds.setdefault(nm[0].c[0].x, []).append((a[0].c if a else [], d))
    g = globals_of(doc)
    for name, uses in cmds.items():
        decl = T('CommandDeclaration', c=[T('Name', name)])
        dsts = [guess(d[0], vt) for _, d in uses if d]
        if dsts:
            ok = all(x == dsts[0] for x in dsts) and dsts[0][0]
            decl.c.append(T('Return', c=[T('Name', 'q')] * (r.random() < .3) + [T('Type', dsts[0][0] if ok else 'Any')] +
                            [T('MaxSize', '4')] * bool(ok and dsts[0][1])))
        n = min(len(a) for a, _ in uses)
        for j in range(n):
            gs = [guess(a[j], vt) for a, _ in uses]
            ok = all(x == gs[0] for x in gs) and gs[0][0] and r.random() < .85
            decl.c.append(T('Parameter', c=[T('Name', 'p%d' % j)] * (r.random() < .7) +
                            [T('Type', gs[0][0] if ok else 'Any')] + [T('MaxSize', '4')] * bool(ok and gs[0][1])))
        if any(len(a) > n for a, _ in uses):
            decl.c.append(T('AnyParameters'))
        g.c.insert(r.randrange(len(g.c) + 1), decl)
    if not g.c:
        doc.c.remove(g)


def global_mutex(doc, r):
    g = globals_of(doc)
    have = {m.c[0].x for m in g.c if m.t == 'DeclareMutex'}
    if 'gm' not in have:
        g.c.append(T('DeclareMutex', c=[T('Name', 'gm')]))


# ---------------------------------------------------------------- defects

VALTAGS = ['BooleanValue', 'IntegerValue', 'RealValue', 'StringValue']
VARTAGS = ['BooleanVariable', 'IntegerVariable', 'RealVariable', 'StringVariable', 'ArrayVariable']
NVTAGS = ['NodeStateVariable', 'NodeOutcomeVariable', 'NodeFailureVariable', 'NodeCommandHandleVariable']
NVALS = ['NodeStateValue', 'NodeOutcomeValue', 'NodeFailureValue', 'NodeCommandHandleValue']
PREDS = ['Executing', 'Failed', 'Finished', 'Inactive', 'IterationEnded', 'PostconditionFailed', 'Skipped', 'Succeeded',
         'Waiting', 'NoChildFailed']
BOOLOPS = ['AND', 'OR', 'XOR', 'NOT', 'IsKnown']
NUMOPS = ['ADD', 'SUB', 'MUL', 'DIV', 'MOD', 'MIN', 'MAX', 'ABS', 'SQRT', 'CEIL', 'FLOOR', 'ROUND', 'TRUNC', 'REAL_TO_INT']
EQS = [a + b for a in ('EQ', 'NE') for b in ('Array', 'Boolean', 'Internal', 'Numeric', 'String')]
CMPS = ['GE', 'GT', 'LE', 'LT']
STROPS = ['Concat', 'STRLEN']
ARROPS = ['ALL_KNOWN', 'ANY_KNOWN', 'ArraySize', 'ArrayMaxSize']
OPS = BOOLOPS + NUMOPS + EQS + CMPS + STROPS + ARROPS
CONDTAGS = list(CTAG.values())
RHS = ['BooleanRHS', 'NumericRHS', 'StringRHS', 'ArrayRHS']
NODETYPES = list(NTYPE.values())
BODIES = ['Assignment', 'Command', 'Update', 'NodeList', 'LibraryNodeCall']
FAMILIES = [VALTAGS, VARTAGS, NVTAGS, NVALS, PREDS, OPS, BOOLOPS + EQS + CMPS, NUMOPS, CONDTAGS, RHS, BODIES,
            ['LookupNow', 'LookupOnChange'], ['DeclareVariable', 'DeclareArray', 'DeclareMutex'], ['In', 'InOut'],
            ['NodeId', 'NodeRef', 'Name'], ['Index', 'Tolerance', 'Name', 'Arguments'],
            ['ResourceName', 'ResourcePriority', 'ResourceUpperBound', 'ResourceReleaseAtTermination'],
            ['CommandDeclaration', 'StateDeclaration', 'DeclareMutex', 'LibraryNodeDeclaration'],
            ['Return', 'Parameter', 'AnyParameters'], ['InitialValue', 'MaxSize', 'Type', 'Name'],
            ['Interface', 'VariableDeclarations', 'UsingMutex', 'NodeBody', 'Priority'],
            ['Alias', 'Pair', 'NodeParameter', 'Name']]
EXPRTAGS = set(VALTAGS + VARTAGS + NVTAGS + NVALS + PREDS + OPS + ['LookupNow', 'LookupOnChange', 'ArrayElement', 'ArrayValue',
                                                                    'NodeTimepointValue'])
TYPES = ['Boolean', 'Integer', 'Real', 'String']
JUNK = {
    'BooleanValue': ['', 'yes', '2', 'UNKNOWN', 'true', 'FALSE', '0', '1.0'],
    'IntegerValue': ['', 'x', '1.5', '99999999999', '-', '+3', 'UNKNOWN', '3x', '-7', '12a', '2147483647', '1e3', '--1'],
    'RealValue': ['', 'x', '1.5.2', '1e', '-', '.5', '3.', 'UNKNOWN', '1e5', '-2.5', '1,5', '2.5x', '1e+2', '.'],
    'StringValue': ['', 'x y', '<&>"'],
    'NodeStateValue': ['', 'SUCCESS', 'RUNNING', 'executing', 'FINISHED', 'NO_NODE_STATE'],
    'NodeOutcomeValue': ['', 'FINISHED', 'OK', 'SKIPPED', 'NO_OUTCOME', 'PARENT_FAILED'],
    'NodeFailureValue': ['', 'SKIPPED', 'PARENT_EXITED', 'EXITED', 'NO_FAILURE'],
    'NodeCommandHandleValue': ['', 'COMMAND_OK', 'COMMAND_ABORTED', 'COMMAND_ABORT_FAILED', 'COMMAND_INTERFACE_ERROR', 'COMMAND_DENIED', 'NO_COMMAND_HANDLE'],
    'Priority': ['', '-1', 'high', '3', '0', '99999999999', '4294967297', '2.5', '2147483647', '3000000000'],
    'MaxSize': ['', '-1', 'big', '0', '1', '2', '5', '1.5', '99999999999', 'UNKNOWN'],
    'Type': TYPES * 2 + ['', 'Float', 'integer', 'Any', 'Date', 'Duration', 'Array', 'NodeState'],
    'Timepoint': ['START', 'END', '', 'MIDDLE'],
}
ROWS = {'Boolean': 'BooleanValue', 'Integer': 'IntegerValue', 'Real': 'RealValue', 'String': 'StringValue'}


class Mutator:
    """Spoils a document here and there"""

    def __init__(self, r, doc, libs):
        self.r, self.doc, self.libs = r, doc, libs

    def elements(self, P=lambda e, p: True):
        return [(e, p, i) for e, p, i in self.doc.walk() if p is not None and P(e, p)]

    def names(self):
        vs, ns, ms, ls = set(), set(), set(), set()
        for e, p, _ in self.doc.walk():
            if e.t in ('DeclareVariable', 'DeclareArray') and e.c:
                vs.add(e.c[0].x)
            if e.t == 'DeclareMutex' and e.c:
                ms.add(e.c[0].x)
            if e.t == 'NodeId' and p is not None and p.t == 'Node':
                ns.add(e.x)
        for l in self.libs:
            for e, p, _ in l.walk():
                if e.t == 'NodeId' and p is not None and p.t == 'Node':
                    ls.add(e.x)
                    break
        return sorted(vs), sorted(ns), sorted(ms), sorted(ls)

    def anyname(self):
        pools = [p for p in self.names() if p]
        return self.r.choice([self.r.choice(self.r.choice(pools)) if pools else 'nosuch'] * 5 + ['nosuch', ''])

    def lit(self):
        t = self.r.choice(VALTAGS + NVALS)
        return T(t, self.r.choice([x for x in JUNK[t] if x] + ['1']) if self.r.random() < .3 else
                 {'BooleanValue': '1', 'IntegerValue': '2', 'RealValue': '2.5', 'StringValue': 'a',
                  'NodeStateValue': 'FINISHED', 'NodeOutcomeValue': 'SUCCESS', 'NodeFailureValue': 'EXITED',
                  'NodeCommandHandleValue': 'COMMAND_SUCCESS'}[t])

    def ref(self):
        vs, ns, ms, ls = self.names()
        k = self.r.randrange(7)
        n = self.r.choice((ns + ls) * 3 + ['nosuch'])
        if k < 3:
            return T('NodeId', n)
        if k < 5:
            return T('NodeRef', '', dir=self.r.choice(['self', 'parent']))
        return T('NodeRef', n, dir=self.r.choice(['child', 'sibling']))

    def expr(self, d=1):
        r = self.r
        vs, ns, ms, ls = self.names()
        k = r.randrange(10)
        if k < 2:
            return self.lit()
        if k < 4 and vs:
            v = r.choice(vs)
            tys = [(e.t, e.c[1].x) for e, _, _ in self.doc.walk()
                   if e.t in ('DeclareVariable', 'DeclareArray') and len(e.c) > 1 and e.c[0].x == v]
            dt, ty = r.choice(tys)
            tag = ('ArrayVariable' if dt == 'DeclareArray' else ty + 'Variable') if r.random() < .85 else r.choice(VARTAGS)
            if tag not in VARTAGS:
                tag = 'IntegerVariable'
            return T(tag, v)
        if k == 4:
            return T(r.choice(NVTAGS), c=[self.ref()])
        if k == 5:
            return T(r.choice(PREDS), c=[self.ref()])
        if k == 6:
            l = T(r.choice(['LookupNow', 'LookupOnChange']),
                  c=[T('Name', c=[T('StringValue', r.choice(['b0', 'i0', 'r0', 's0', 'ip', 'ai0', 'nosuch']))])])
            if r.random() < .2:
                l.c.append(T('Tolerance', c=[self.expr(0)]))
            if r.random() < .3:
                l.c.append(T('Arguments', c=[self.expr(0)]))
            return l
        if k == 7 and d > 0 and vs:
            return T('ArrayElement', c=[T('ArrayVariable', r.choice(vs)), T('Index', c=[self.expr(0)])])
        if k == 8:
            t = r.choice(TYPES)
            return T('ArrayValue', c=[T(ROWS[t if r.random() < .8 else r.choice(TYPES)], '1') for _ in range(r.randrange(4))],
                     Type=t)
        if d > 0:
            return T(r.choice(OPS), c=[self.expr(d - 1) for _ in range(r.choice([1, 1, 2, 2, 2, 3]))])
        return self.lit()

    def isexpr(self, e, p):
        return e.t in EXPRTAGS and p.t not in ('InitialValue',)

    # each defect returns what it did, or None when there was no occasion

    def d_delete(self):
        c = self.elements()
        e, p, i = self.r.choice(c)
        del p.c[i]
        return 'without %s in %s' % (e.t, p.t)

    def d_double(self):
        e, p, i = self.r.choice(self.elements())
        p.c.insert(self.r.choice([i, i + 1, self.r.randrange(len(p.c) + 1)]), e.copy())
        return '%s twice in %s' % (e.t, p.t)

    def d_swap(self):
        c = self.elements(lambda e, p: len(p.c) > 1)
        if c:
            e, p, i = self.r.choice(c)
            j = self.r.randrange(len(p.c))
            if i != j:
                p.c[i], p.c[j] = p.c[j], p.c[i]
                return '%s and %s swapped' % (p.c[i].t, p.c[j].t)

    def d_paste(self):
        ex = self.r.random() < .7
        c = self.elements(self.isexpr if ex else lambda e, p: True)
        if len(c) > 1:
            (e, p, i), (f, q, j) = self.r.choice(c), self.r.choice(c)
            if e is not f and all(x is not f for x, _, _ in e.walk()):
                q.c[j] = e.copy()
                return '%s for %s in %s' % (e.t, f.t, q.t)

    def d_retag(self):
        e, p, i = self.r.choice(self.elements())
        fam = [f for f in FAMILIES if e.t in f]
        old = e.t
        if fam and self.r.random() < .85:
            e.t = self.r.choice(self.r.choice(fam))
        else:
            e.t = self.r.choice(self.r.choice(FAMILIES) + ['Junk'])
        return '%s for %s' % (e.t, old) if e.t != old else None

    def d_name(self):
        c = self.elements(lambda e, p: not e.c and (e.t in VARTAGS or e.t in ('NodeId', 'NodeRef', 'NodeParameter', 'Name')))
        if c:
            e, p, i = self.r.choice(c)
            old, e.x = e.x, self.anyname()
            return 'name %s for %s in %s' % (e.x, old, e.t) if old != e.x else None

    def d_unscoped(self):
        """refer to another variable"""
        vs = self.names()[0]
        c = self.elements(lambda e, p: e.t in VARTAGS)
        if c and vs:
            e, p, i = self.r.choice(c)
            old, e.x = e.x, self.r.choice(vs)
            if self.r.random() < .5:
                tys = [(d.t, d.c[1].x) for d, _, _ in self.doc.walk()
                       if d.t in ('DeclareVariable', 'DeclareArray') and len(d.c) > 1 and d.c[0].x == e.x]
                dt, ty = self.r.choice(tys)
                t = 'ArrayVariable' if dt == 'DeclareArray' else ty + 'Variable'
                if t in VARTAGS:
                    e.t = t
            return 'variable %s for %s' % (e.x, old)

    def d_ref(self):
        c = self.elements(lambda e, p: e.t == 'NodeRef' or (e.t == 'NodeId' and p.t != 'Node' and p.t != 'LibraryNodeCall'))
        if c:
            e, p, i = self.r.choice(c)
            n = self.ref()
            p.c[i] = n
            return 'reference %s %s' % (n.a.get('dir', ''), n.x)

    def d_attr(self):
        c = self.elements(lambda e, p: e.a)
        if c:
            e, p, i = self.r.choice(c)
            k = self.r.choice(sorted(e.a))
            old = e.a[k]
            e.a[k] = self.r.choice({'NodeType': NODETYPES * 2 + ['', 'Junk'], 'dir': ['self', 'parent', 'child', 'sibling', 'uncle', ''],
                                    'Type': TYPES * 2 + ['', 'Junk']}.get(k, ['']))
            if self.r.random() < .1:
                del e.a[k]
            return '%s %s for %s' % (k, e.a.get(k), old)

    def d_expr(self):
        c = self.elements(self.isexpr)
        if c:
            e, p, i = self.r.choice(c)
            p.c[i] = self.expr()
            return '%s for %s in %s' % (p.c[i].t, e.t, p.t)

    def d_wrap(self):
        c = self.elements(self.isexpr)
        if c:
            e, p, i = self.r.choice(c)
            n = T(self.r.choice(OPS), c=[e])
            if self.r.random() < .5:
                n.c.insert(self.r.randrange(2), self.expr(0) if self.r.random() < .5 else e.copy())
            p.c[i] = n
            return '%s around %s' % (n.t, e.t)

    def d_operand(self):
        c = self.elements(lambda e, p: e.t in OPS and e.c)
        if c:
            e, p, i = self.r.choice(c)
            if self.r.random() < .5:
                del e.c[self.r.randrange(len(e.c))]
                return 'operand of %s gone' % e.t
            e.c.insert(self.r.randrange(len(e.c) + 1), self.expr(0) if self.r.random() < .6 else self.r.choice(e.c).copy())
            return 'operand of %s more' % e.t

    def d_literal(self):
        c = self.elements(lambda e, p: not e.c and e.t in JUNK)
        if c:
            e, p, i = self.r.choice(c)
            e.x = self.r.choice(JUNK[e.t])
            return '%s of %s' % (e.x, e.t)

    def d_type(self):
        c = self.elements(lambda e, p: e.t == 'Type')
        if c:
            e, p, i = self.r.choice(c)
            e.x = self.r.choice(JUNK['Type'])
            return 'type %s in %s' % (e.x, p.t)

    def d_empty(self):
        c = self.elements(lambda e, p: e.c)
        e, p, i = self.r.choice(c)
        e.c, e.x = [], self.r.choice(['', '', 'junk'])
        return '%s emptied' % e.t

    def d_insert(self):
        e, p, i = self.r.choice(list(self.doc.walk()))
        if e.c or e.t in ('Node', 'Command', 'Arguments', 'NodeList', 'Resource', 'Empty'):
            k = self.r.randrange(5)
            n = T(self.r.choice(self.r.choice(FAMILIES)), self.r.choice(['', 'x'])) if k < 2 else \
                self.expr() if k < 4 else T('Junk')
            e.c.insert(self.r.randrange(len(e.c) + 1), n)
            return '%s into %s' % (n.t, e.t)

    def d_condition(self):
        c = self.elements(lambda e, p: e.t == 'Node' and len(e.c) > 0)
        if c:
            e, p, i = self.r.choice(c)
            t = self.r.choice(CONDTAGS)
            e.c.insert(1 + self.r.randrange(len(e.c)), T(t, c=[self.expr()]))
            return '%s of node' % t

    def d_child_name(self):
        c = self.elements(lambda e, p: e.t == 'Node' and any(k.t == 'Node' for b in e.c if b.t == 'NodeBody' and b.c
                                                            for k in b.c[0].c))
        if c:
            e, p, i = self.r.choice(c)
            kids = [k for b in e.c if b.t == 'NodeBody' for k in b.c[0].c if k.t == 'Node']
            k = self.r.choice(kids)
            other = self.r.choice([e] + kids)
            ids = [x for x in k.c if x.t == 'NodeId']
            oid = [x for x in other.c if x.t == 'NodeId']
            if ids and oid and k is not other:
                ids[0].x = oid[0].x
                return 'node called as its %s' % ('parent' if other is e else 'sibling')

    def d_redeclare(self):
        """Declare a name of an outer node, or twice"""
        c = self.elements(lambda e, p: e.t in ('DeclareVariable', 'DeclareArray', 'DeclareMutex'))
        ns = self.elements(lambda e, p: e.t == 'Node')
        if c and ns:
            e, _, _ = self.r.choice(c)
            n, _, _ = self.r.choice(ns)
            vd = [k for k in n.c if k.t == 'VariableDeclarations']
            if not vd:
                vd = [T('VariableDeclarations')]
                n.c.insert(1, vd[0])
            d = e.copy()
            if self.r.random() < .3 and len(d.c) > 1:
                d.c[1].x = self.r.choice(TYPES)
            vd[0].c.insert(self.r.randrange(len(vd[0].c) + 1), d)
            return 'declaration of %s' % (d.c[0].x if d.c else '')

    def d_mutex(self):
        ns = self.elements(lambda e, p: e.t == 'Node')
        n, _, _ = self.r.choice(ns)
        ms = self.names()[2]
        us = [k for k in n.c if k.t == 'UsingMutex']
        if not us:
            us = [T('UsingMutex')]
            n.c.insert(self.r.randrange(len(n.c)) + 1, us[0])
        us[0].c.append(T('Name', self.r.choice(ms * 4 + self.names()[0][:1] + ['nosuch'])))
        return 'mutex %s' % us[0].c[-1].x

    def d_priority(self):
        ns = self.elements(lambda e, p: e.t == 'Node')
        n, _, _ = self.r.choice(ns)
        if self.r.random() < .7:
            n = self.r.choice([x for x, _, _ in ns if x.a.get('NodeType') == 'Assignment'] or [n])
        n.c = [k for k in n.c if k.t != 'Priority']
        n.c.insert(1, T('Priority', self.r.choice(JUNK['Priority'])))
        return 'priority %s' % n.c[1].x

    def d_target(self):
        """Assign to something else"""
        c = self.elements(lambda e, p: (p.t == 'Assignment' or (p.t == 'Command' and e.t != 'Name')) and p.c[0] is e)
        if c:
            e, p, i = self.r.choice(c)
            vs = self.names()[0]
            p.c[i] = self.r.choice([self.expr(), self.expr(), T(self.r.choice(VARTAGS), self.r.choice(vs or ['x']))])
            return 'target %s' % p.c[i].t

    def d_input(self):
        """Make an interface variable of something assigned to"""
        ns = self.elements(lambda e, p: e.t == 'Node')
        vs = sorted({d.c[0].x for d, _, _ in self.elements(lambda e, p: e.t in ('DeclareVariable', 'DeclareArray') and e.c)})
        n, _, _ = self.r.choice(ns)
        if vs:
            v = self.r.choice(vs)
            ds = [d for d, _, _ in self.elements(lambda e, p: e.t in ('DeclareVariable', 'DeclareArray') and e.c and
                                                  e.c[0].x == v)]
            d = self.r.choice(ds).copy()
            if self.r.random() < .6:
                d.c = [k for k in d.c if k.t != 'InitialValue']
            if self.r.random() < .2 and len(d.c) > 1:
                d.c[1].x = self.r.choice(TYPES)
            io = [k for k in n.c if k.t == 'Interface']
            if not io:
                io = [T('Interface')]
                n.c.insert(1, io[0])
            tag = self.r.choice(['In', 'InOut'])
            at = [k for k in io[0].c if k.t == tag]
            if not at:
                at = [T(tag)]
                io[0].c.insert(self.r.randrange(len(io[0].c) + 1), at[0])
            at[0].c.append(d)
            return '%s %s' % (tag, v)

    def d_alias(self):
        c = self.elements(lambda e, p: e.t == 'LibraryNodeCall' and p.t == 'NodeBody')
        if c:
            e, p, i = self.r.choice(c)
            als = [k for k in e.c if k.t == 'Alias']
            k = self.r.randrange(6)
            if k == 0 and als:
                a = self.r.choice(als)
                if a.c:
                    a.c[0].x = self.anyname()
                    return 'alias of %s' % a.c[0].x
            elif k <= 3 and als:
                a = self.r.choice(als)
                if len(a.c) > 1:
                    a.c[1] = self.expr()
                    return 'alias as %s' % a.c[1].t
            elif k == 4 and als:
                e.c.remove(self.r.choice(als))
                return 'alias gone'
            else:
                ps = [d.c[0].x for l in self.libs for d, q, _ in l.walk() if q is not None and q.t in ('In', 'InOut') and d.c]
                e.c.append(T('Alias', c=[T('NodeParameter', self.r.choice((ps or ['x']) * 3 + self.names()[0] + ['nosuch'])),
                                         self.expr()]))
                return 'alias more'

    def d_initial(self):
        c = self.elements(lambda e, p: e.t in ('DeclareVariable', 'DeclareArray'))
        if c:
            e, p, i = self.r.choice(c)
            e.c = [k for k in e.c if k.t != 'InitialValue']
            if e.t == 'DeclareArray' and self.r.random() < .6:
                t = self.r.choice(TYPES)
                v = T('ArrayValue', c=[T(ROWS[t if self.r.random() < .8 else self.r.choice(TYPES)], '1')
                                       for _ in range(self.r.randrange(5))], Type=t)
            else:
                v = self.expr(0)
            e.c.append(T('InitialValue', c=[v] * self.r.choice([1, 1, 1, 1, 0, 2])))
            return 'initial value %s of %s' % (v.t, e.t)

    def d_signature(self):
        g = [k for k in self.doc.c if k.t == 'GlobalDeclarations']
        c = [k for k in g[0].c if k.t in ('CommandDeclaration', 'StateDeclaration')] if g else []
        if not c:
            return
        cu = used(self.doc, ('Command', 'LookupNow', 'LookupOnChange'))
        c = [k for k in c if k.c and k.c[0].x in cu] * 4 + c
        d = self.r.choice(c)
        k = self.r.randrange(7)
        n = 'declaration of %s: ' % (d.c[0].x if d.c else '')
        if k == 0:
            d.c.append(T('Parameter', c=[T('Name', 'z'), T('Type', self.r.choice(TYPES + ['Any']))]))
            return n + 'parameter more'
        if k == 1:
            d.c.append(T('AnyParameters'))
            return n + 'any parameters'
        if k == 2:
            ps = [x for x in d.c if x.t in ('Parameter', 'AnyParameters', 'Return')]
            if ps:
                d.c.remove(self.r.choice(ps))
                return n + 'one less'
        if k == 3:
            ts = [x for x, _, _ in d.walk() if x.t == 'Type']
            if ts:
                self.r.choice(ts).x = self.r.choice(JUNK['Type'])
                return n + 'type'
        if k == 4:
            ps = [x for x in d.c if x.t in ('Parameter', 'Return')]
            if ps:
                self.r.choice(ps).c.append(T('MaxSize', self.r.choice(['3', '3', '3', 'x'])))
                return n + 'array'
        if k == 5 and d.c:
            d.c.insert(1, T('Return', c=[T('Type', self.r.choice(TYPES + ['Any']))]))
            return n + 'return'
        if k == 6:
            g[0].c.remove(d)
            return n + 'gone'

    def d_args(self):
        c = self.elements(lambda e, p: e.t in ('Command', 'LookupNow', 'LookupOnChange') and e.c)
        if c:
            e, p, i = self.r.choice(c)
            a = [k for k in e.c if k.t == 'Arguments']
            k = self.r.randrange(4)
            if k == 0 and a:
                e.c.remove(a[0])
                return 'no arguments of %s' % e.t
            if not a:
                a = [T('Arguments')]
                e.c.append(a[0])
            if k == 1 and a[0].c:
                del a[0].c[self.r.randrange(len(a[0].c))]
                return 'argument less of %s' % e.t
            if k == 2 and a[0].c:
                a[0].c[self.r.randrange(len(a[0].c))] = self.expr()
                return 'argument of %s' % e.t
            a[0].c.insert(self.r.randrange(len(a[0].c) + 1), self.expr())
            return 'argument more of %s' % e.t

    def d_resource(self):
        c = self.elements(lambda e, p: e.t == 'Command' and p.t == 'NodeBody')
        if c:
            e, p, i = self.r.choice(c)
            rl = [k for k in e.c if k.t == 'ResourceList']
            R = lambda: T('Resource', c=[T('ResourceName', c=[T('StringValue', self.r.choice(['q0', 'q1']))]),
                                         T('ResourcePriority', c=[T('IntegerValue', '1')])] +
                          ([T('ResourceUpperBound', c=[T('RealValue', '.5')])] if self.r.random() < .5 else []) +
                          ([T('ResourceReleaseAtTermination', c=[T('BooleanValue', '0')])] if self.r.random() < .5 else []))
            if not rl:
                rl = [T('ResourceList', c=[R()])]
                e.c.insert(0, rl[0])
            else:
                rl[0].c.append(R())
            x = self.r.choice(rl[0].c)
            k = self.r.randrange(6)
            if x.c:
                y = self.r.randrange(len(x.c))
                if k == 0:
                    del x.c[y]
                    return 'resource without'
                if k == 1:
                    x.c.append(x.c[y].copy())
                    return 'resource with two %s' % x.c[y].t
                if k == 2:
                    x.c[y].c = [self.expr()]
                    return 'resource with other %s' % x.c[y].t
            return 'resource'

    def d_lookup(self):
        c = self.elements(lambda e, p: e.t in ('LookupNow', 'LookupOnChange'))
        if c:
            e, p, i = self.r.choice(c)
            k = self.r.randrange(4)
            if k == 0:
                e.c.insert(1, T('Tolerance', c=[self.expr()]))
                return 'tolerance'
            if k == 1 and e.c:
                e.c[0].c = [self.expr()]
                return 'lookup name'
            if k == 2 and e.c and e.c[0].c:
                e.c[0].c[0].x = self.r.choice(['b0', 'i0', 'r0', 's0', 'ip', 'bp', 'ai0', 'ab0', 'nosuch'])
                return 'lookup of %s' % e.c[0].c[0].x
            if e.c and e.c[0].c and self.r.random() < .5:
                e.t = 'LookupOnChange'
                e.c.insert(1, T('Tolerance', c=[T(*self.r.choice([('RealValue', '.5'), ('IntegerValue', '1'), ('StringValue', 'x')]))]))
                return 'tolerance of some kind'

    def d_body(self):
        c = self.elements(lambda e, p: e.t == 'NodeBody')
        if c:
            e, p, i = self.r.choice(c)
            f = self.r.choice([x for x, _, _ in c])
            if self.r.random() < .5 and e is not f and all(x is not e for x, _, _ in f.walk()) \
                    and all(x is not f for x, _, _ in e.walk()):
                e.c = [k.copy() for k in f.c]
                return 'body of another'
            p.a['NodeType'] = self.r.choice(NODETYPES)
            return 'type of another'

    WEIGHTS = dict(delete=3, double=2, swap=2, paste=3, retag=4, name=2, unscoped=2, ref=2, attr=2, expr=4, wrap=3, operand=2,
                   literal=2, type=2, empty=1.5, insert=2, condition=1.5, child_name=1, redeclare=1, mutex=.7, priority=.7,
                   target=1.5, input=2, alias=2, initial=2, signature=2.5, args=2, resource=1.2, lookup=1.5, body=.8)

    def one(self):
        for _ in range(20):
            x = self.r.random() * sum(self.WEIGHTS.values())
            for k, w in self.WEIGHTS.items():
                x -= w
                if x < 0:
                    break
            if not self.elements():
                return None
            what = getattr(self, 'd_' + k)()
            if what:
                return k + ': ' + what
        return None


class Case:
    def __init__(self, cid, doc, libs, what):
        self.id, self.doc, self.libs, self.what = cid, doc, libs, what

    def lookups(self):
        """What the world says each lookup is: what every document has it to be"""
        ty = {}
        for d in [self.doc] + self.libs:
            g = [k for k in d.c if k.t == 'GlobalDeclarations']
            here = set()
            for k in g[0].c if g else ():
                if k.t == 'StateDeclaration' and len(k.c) > 1 and k.c[0].t == 'Name' and k.c[0].x:
                    t = [x.x for x in k.c[1].c if x.t == 'Type']
                    if t and t[0] in TYPES:
                        n = k.c[0].x
                        here.add(n)
                        ty.setdefault(n, set()).add(t[0] + 'Array' * any(x.t == 'MaxSize' for x in k.c[1].c))
            for n in used(d, ('LookupNow', 'LookupOnChange')) - here:
                ty.setdefault(n, set()).add('')         # of no type there
        return sorted((n, t.pop()) for n, t in ty.items() if len(t) == 1 and '' not in t)

    def text(self):
        return 'BEGIN %s\n%s%splan %s\nEND\n' % (
            self.id, ''.join('type %s %s\n' % (pct(n), t) for n, t in self.lookups()), ''.join('lib %s\n' % pct(l.xml()) for l in self.libs), pct(self.doc.xml()))

    def json(self, seen):
        return {'doc': self.doc.json(), 'libs': [l.json() for l in self.libs],
                'res': seen.get('res', ''), 'after': seen.get('after', '')}


def recursive(r):
    """Libraries which call each other"""
    docs = []
    n = r.randrange(1, 4)
    for i in range(n):
        docs.append(parse('<PlexilPlan><Node NodeType="LibraryNodeCall"><NodeId>L%d</NodeId><NodeBody><LibraryNodeCall>'
                          '<NodeId>L%d</NodeId></LibraryNodeCall></NodeBody></Node></PlexilPlan>' % (i, r.randrange(n))))
    doc = parse('<PlexilPlan><Node NodeType="LibraryNodeCall"><NodeId>root</NodeId><NodeBody><LibraryNodeCall>'
                '<NodeId>L%d</NodeId></LibraryNodeCall></NodeBody></Node></PlexilPlan>' % r.randrange(n))
    return doc, docs


def case(cid, seed):
    r = random.Random(seed)
    x = r.random()
    if x < .01:
        doc, libs = recursive(r)
        return Case(cid, doc, libs, 'libraries in a circle')
    doc, libs = base(seed)
    what = []
    for _ in range(0 if x < .12 else 1 if x < .85 else 2):
        k = r.randrange(len(libs) + 1) if libs and r.random() < .5 else len(libs)
        m = Mutator(r, (libs + [doc])[k], libs)
        w = m.one()
        if w:
            what.append(w + (' (library)' if k < len(libs) else ''))
    return Case(cid, doc, libs, '; '.join(what) or 'as generated')


def load(prog, cases, work, jobs=8):
    """Have the executive load them: {id: what became of it}"""
    d = os.path.join(work, 'loaded')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(work, 'cases.txt')
    with open(f, 'w') as fh:
        for c in cases:
            fh.write(c.text())
    subprocess.run([prog, f, d, str(jobs)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = {}
    for c in cases:
        p = os.path.join(d, c.id + '.json')
        if os.path.exists(p):
            with open(p) as fh:
                out[c.id] = json.loads(fh.read())
            os.unlink(p)
    return out


def judge_chunk(cases, seen, work, name):
    """-> {id: (accepted, verdict, complaints)}, states, error"""
    f = os.path.join(work, name + '.json')
    with open(f, 'w') as fh:
        json.dump([c.json(seen[c.id]) for c in cases], fh)
    rc, out = runner.tlc('PlexilSyntaxCheck', 'PlexilSyntaxCheck.cfg', {'CASES': f}, timeout=1500)
    joined = re.sub(r'\n\s+', ' ', out)
    res = {}
    for m in re.finditer(r'<<\s*"ACCEPT",\s*(\d+),\s*"(\w+)"\s*>>', joined):
        res[cases[int(m.group(1)) - 1].id] = (True, m.group(2), '')
    for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*"(\w+)",\s*(.*?)\s*>>\s*(?=\n|$)', joined):
        res[cases[int(m.group(1)) - 1].id] = (False, m.group(2), m.group(3))
    os.unlink(f)
    st = runner.STAT.search(out)
    err = None
    if rc != 0 or len(res) != len(cases):
        i = out.find('Error:')
        err = out[i:i + 2000]
    return res, (int(st.group(1)), int(st.group(2))) if st else (0, 0), err


def judge(cases, seen, work, jobs=8):
    k = max(1, min(jobs, len(cases)))
    res, states, trans, errs = {}, 0, 0, []
    with cf.ThreadPoolExecutor(k) as ex:
        for r, (g, d), e in ex.map(lambda i: judge_chunk(cases[i::k], seen, work, 'syn%d' % i), range(k)):
            res.update(r)
            states += d
            trans += g
            if e:
                errs.append(e)
    return res, (trans, states), errs


def conform(res, cases, prog, work, jobs=8):
    """Load documents, and have TLC judge what became of them"""
    seen = load(prog, cases, work, jobs)
    lost = [c for c in cases if c.id not in seen]
    # a harness that fails to start, or a document that is not XML: once more, then our fault
    if lost:
        seen.update(load(prog, lost, work, 1))
        res.errors += ['%s: the harness gave no answer (%s)' % (c.id, c.what) for c in lost if c.id not in seen]
    cases = [c for c in cases if c.id in seen]
    out, (g, d), errs = judge(cases, seen, work, jobs)
    res.errors += errs
    res.states += d
    res.transitions += g
    for c in cases:
        if c.id not in out:
            continue
        ok, verdict, why = out[c.id]
        kind = 'as_generated' if c.what == 'as generated' else 'spoiled'
        res.count(**{'documents_%s_%s' % (kind, verdict): 1})
        if c.what == 'as generated' and verdict == 'bad':
            res.errors.append('%s: the specification finds fault with a generated plan: %s' % (c.id, why))
        if ok:
            res.traces += 1
    bad = [c for c in cases if c.id in out and not out[c.id][0]]
    for c in bad[:12]:
        again = load(prog, [c], work, 1)
        r, _, _ = judge_chunk([c], again, work, 'confirm')
        s = again[c.id]
        res.violation(c.id, '%s: %s: %s; should be %s; the executive: %s %s %s' % (
            c.id, c.what, out[c.id][2] or 'no defect', {'good': 'loaded', 'bad': 'refused'}.get(out[c.id][1], 'either'),
            s['res'], s['why'], '' if s['after'] in ('ok', '-') else '; afterwards: ' + s['after']),
            {'case.txt': c.text(), 'case.json': json.dumps(c.json(s)), 'plan.xml': c.doc.xml()})
    res.count(documents_rejected_by_spec=len(bad))
    if cases and len(res.samples) < 3:
        c = cases[len(cases) // 2]
        res.samples.append({'document': c.id, 'change': c.what, 'became': seen[c.id], 'verdict': out.get(c.id, ('', '?'))[1]})
    return out, seen


def replay(prop, d):
    """Load a saved document again"""
    import build, tempfile, shutil
    prog = build.build(['parsecheck'])['parsecheck']
    work = tempfile.mkdtemp(prefix='verif_replay_')
    script = open(os.path.join(d, 'case.txt')).read()
    doc = json.load(open(os.path.join(d, 'case.json')))

    class C:
        id = script.split()[1]

        def text(self):
            return script

        def json(self, seen):
            return dict(doc, res=seen.get('res', ''), after=seen.get('after', ''))
    try:
        c = C()
        seen = load(prog, [c], work, 1)
        r, _, err = judge_chunk([c], seen, work, 'replay')
        print(c.id, seen[c.id], r.get(c.id), err or '')
        if not r[c.id][0]:
            print('VIOLATION property=%s replay=%s' % (prop, d))
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
