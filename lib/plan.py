"""Abstract plans: printed as the XML the executive loads, and lowered to the
static description the TLA+ specification works on.

Expressions (tuples):
  ('lit', ty, value)              ty in b i r s n o f h
  ('alit', ety, [values])         None is an unknown element
  ('unk', ty)                     unknown literal
  ('var', name, ty)               ty may be 'ab' 'ai' 'ar' 'as'
  ('elt', arr, idx, ety)
  ('look', name_expr, args, tol, on, ty)
  ('op', OP, ty, args, kind)      kind: operand type where the tag needs it
  ('pred', P, ref)   ('st', ref)  ('out', ref)  ('fl', ref)  ('hd', ref)
  ('tp', ref, state, 1|2)         1 start, 2 end
ref: ('id', nodeid) | ('self', nodeid) | ('parent', nodeid) | ('child', nodeid) | ('sibling', nodeid)
"""

WORST = 2147483647
STATES = ['INACTIVE', 'WAITING', 'EXECUTING', 'ITERATION_ENDED', 'FINISHED', 'FAILING', 'FINISHING']
TN = {'b': 'Boolean', 'i': 'Integer', 'r': 'Real', 's': 'String'}
SCALE = 16
CONDS = ['skip', 'start', 'pre', 'post', 'inv', 'end', 'exit', 'rep']
CTAG = {'skip': 'SkipCondition', 'start': 'StartCondition', 'pre': 'PreCondition',
        'post': 'PostCondition', 'inv': 'InvariantCondition', 'end': 'EndCondition',
        'exit': 'ExitCondition', 'rep': 'RepeatCondition'}
NTYPE = {'E': 'Empty', 'A': 'Assignment', 'C': 'Command', 'U': 'Update', 'L': 'NodeList', 'B': 'LibraryNodeCall'}


class Var:
    def __init__(self, name, ty, arr=False, mx=0, init=None):
        self.name, self.ty, self.arr, self.mx, self.init = name, ty, arr, mx, init

    def full(self):
        return ('a' + self.ty) if self.arr else self.ty


class Node:
    def __init__(self, nid, ty):
        self.id, self.ty = nid, ty
        self.kids, self.conds, self.vars = [], {}, []
        self.mutexes, self.using = [], []
        self.pr = None
        self.iface = None       # [(mode, Var)], mode 'in' | 'inout'
        # bodies
        self.lhs = self.rhs = None          # A
        self.name = None                    # C
        self.args, self.dst, self.res = [], None, []
        self.pairs = []                     # U
        self.lib, self.aliases = None, []   # B: lib name, [(param, expr)]


class Lib:
    def __init__(self, root):
        self.root = root


# ---------------------------------------------------------------- XML

def esc(s):
    return str(s).replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def num(r):
    return repr(float(r))


def xref(ref):
    k, i = ref
    if k == 'id':
        return '<NodeId>%s</NodeId>' % i
    if k in ('self', 'parent'):
        return '<NodeRef dir="%s"/>' % k
    return '<NodeRef dir="%s">%s</NodeRef>' % (k, i)


def xlit(ty, v):
    tag = {'b': 'BooleanValue', 'i': 'IntegerValue', 'r': 'RealValue', 's': 'StringValue',
           'n': 'NodeStateValue', 'o': 'NodeOutcomeValue', 'f': 'NodeFailureValue',
           'h': 'NodeCommandHandleValue'}[ty]
    if v is None:
        t = 'UNKNOWN'
    elif ty == 'b':
        t = '1' if v else '0'
    elif ty == 'r':
        t = num(v)
    else:
        t = esc(v)
    return '<%s>%s</%s>' % (tag, t, tag)


def xe(e):
    k = e[0]
    if k == 'lit':
        return xlit(e[1], e[2])
    if k == 'unk':
        return xlit(e[1], None)
    if k == 'alit':
        return '<ArrayValue Type="%s">%s</ArrayValue>' % (TN[e[1]], ''.join(xlit(e[1], v) for v in e[2]))
    if k == 'var':
        tag = 'ArrayVariable' if e[2][0] == 'a' else TN[e[2]] + 'Variable'
        return '<%s>%s</%s>' % (tag, e[1], tag)
    if k == 'elt':
        return '<ArrayElement>%s<Index>%s</Index></ArrayElement>' % (xe(e[1]), xe(e[2]))
    if k == 'look':
        tag = 'LookupOnChange' if e[4] else 'LookupNow'
        return '<%s><Name>%s</Name>%s%s</%s>' % (
            tag, xe(e[1]), '<Tolerance>%s</Tolerance>' % xe(e[3]) if e[3] else '',
            '<Arguments>%s</Arguments>' % ''.join(xe(a) for a in e[2]) if e[2] else '', tag)
    if k == 'op':
        op, kind = e[1], e[4]
        if op in ('EQ', 'NE'):
            tag = op + {'b': 'Boolean', 'i': 'Numeric', 'r': 'Numeric', 's': 'String', 'a': 'Array'}.get(kind, 'Internal')
        else:
            tag = op
        return '<%s>%s</%s>' % (tag, ''.join(xe(a) for a in e[3]), tag)
    if k == 'pred':
        return '<%s>%s</%s>' % (e[1], xref(e[2]), e[1])
    if k in ('st', 'out', 'fl', 'hd'):
        tag = {'st': 'NodeStateVariable', 'out': 'NodeOutcomeVariable', 'fl': 'NodeFailureVariable',
               'hd': 'NodeCommandHandleVariable'}[k]
        return '<%s>%s</%s>' % (tag, xref(e[1]), tag)
    if k == 'tp':
        return '<NodeTimepointValue>%s<NodeStateValue>%s</NodeStateValue><Timepoint>%s</Timepoint></NodeTimepointValue>' % (
            xref(e[1]), e[2], 'START' if e[3] == 1 else 'END')
    raise ValueError(e)


def xvar(v):
    tag = 'DeclareArray' if v.arr else 'DeclareVariable'
    s = '<%s><Name>%s</Name><Type>%s</Type>' % (tag, v.name, TN[v.ty])
    if v.arr and v.mx:
        s += '<MaxSize>%d</MaxSize>' % v.mx
    if v.init is not None:
        if v.init[0] == 'alit':
            s += '<InitialValue>%s</InitialValue>' % (
                xe(v.init) if getattr(v, 'initform', 0) else ''.join(xlit(v.ty, x) for x in v.init[2]))
        else:
            s += '<InitialValue>%s</InitialValue>' % xe(v.init)
    return s + '</%s>' % tag


def xnode(n):
    s = '<Node NodeType="%s"><NodeId>%s</NodeId>' % (NTYPE[n.ty], n.id)
    if n.pr is not None:
        s += '<Priority>%d</Priority>' % n.pr
    if n.iface:
        s += '<Interface>'
        for mode, tag in (('in', 'In'), ('inout', 'InOut')):
            vs = [v for m, v in n.iface if m == mode]
            if vs:
                s += '<%s>%s</%s>' % (tag, ''.join(xvar(v) for v in vs), tag)
        s += '</Interface>'
    if n.vars or n.mutexes:
        s += '<VariableDeclarations>%s%s</VariableDeclarations>' % (
            ''.join(xvar(v) for v in n.vars),
            ''.join('<DeclareMutex><Name>%s</Name></DeclareMutex>' % m for m in n.mutexes))
    if n.using:
        s += '<UsingMutex>%s</UsingMutex>' % ''.join('<Name>%s</Name>' % m for m in n.using)
    for c in CONDS:
        if c in n.conds:
            s += '<%s>%s</%s>' % (CTAG[c], xe(n.conds[c]), CTAG[c])
    if n.ty == 'L':
        s += '<NodeBody><NodeList>%s</NodeList></NodeBody>' % ''.join(xnode(k) for k in n.kids)
    elif n.ty == 'A':
        ty = n.lhs[2] if n.lhs[0] == 'var' else n.lhs[3]
        tag = {'b': 'BooleanRHS', 'i': 'NumericRHS', 'r': 'NumericRHS', 's': 'StringRHS'}.get(ty, 'ArrayRHS')
        s += '<NodeBody><Assignment>%s<%s>%s</%s></Assignment></NodeBody>' % (xe(n.lhs), tag, xe(n.rhs), tag)
    elif n.ty == 'C':
        s += '<NodeBody><Command>'
        if n.res:
            s += '<ResourceList>'
            for r in n.res:
                s += '<Resource><ResourceName>%s</ResourceName><ResourcePriority>%s</ResourcePriority>' % (
                    xe(r['n']), xe(r['p']))
                if r['b'] is not None:
                    s += '<ResourceUpperBound>%s</ResourceUpperBound>' % xe(r['b'])
                if r['k'] is not None:
                    s += '<ResourceReleaseAtTermination>%s</ResourceReleaseAtTermination>' % xe(r['k'])
                s += '</Resource>'
            s += '</ResourceList>'
        if n.dst is not None:
            s += xe(n.dst)
        s += '<Name>%s</Name>' % xe(n.name)
        if n.args:
            s += '<Arguments>%s</Arguments>' % ''.join(xe(a) for a in n.args)
        s += '</Command></NodeBody>'
    elif n.ty == 'U':
        s += '<NodeBody><Update>%s</Update></NodeBody>' % ''.join(
            '<Pair><Name>%s</Name>%s</Pair>' % (k, xe(x)) for k, x in n.pairs)
    elif n.ty == 'B':
        s += '<NodeBody><LibraryNodeCall><NodeId>%s</NodeId>%s</LibraryNodeCall></NodeBody>' % (
            n.lib, ''.join('<Alias><NodeParameter>%s</NodeParameter>%s</Alias>' % (p, xe(x)) for p, x in n.aliases))
    return s + '</Node>'


def xplan(root, decls):
    return '<PlexilPlan>%s%s</PlexilPlan>' % (
        '<GlobalDeclarations>%s</GlobalDeclarations>' % decls if decls else '', xnode(root))


def xlibdecl(root):
    s = '<LibraryNodeDeclaration><Name>%s</Name>' % root.id
    if root.iface:
        s += '<Interface>'
        for mode, tag in (('in', 'In'), ('inout', 'InOut')):
            vs = [v for m, v in root.iface if m == mode]
            if vs:
                s += '<%s>%s</%s>' % (tag, ''.join(
                    xvar(Var(v.name, v.ty, v.arr, v.mx)) for v in vs), tag)
        s += '</Interface>'
    return s + '</LibraryNodeDeclaration>'


# ---------------------------------------------------------------- lowering

def lval(ty, v):
    if v is None:
        return ['u']
    if ty == 'b':
        return ['b', 1 if v else 0]
    if ty == 'r':
        x = v * SCALE
        assert x == int(x), v
        return ['r', int(x)]
    return [ty, v]


class Low:
    """Lower a set of root plans to the description used by Plexil.tla."""

    def __init__(self, roots, libs, hier=None):
        self.libs = libs            # name -> Node
        self.nodes, self.vars, self.lks, self.order = [], [], [], []
        self.rnames = set()
        self.hier = hier or {}
        self.bases = []
        self.varnames = []          # (node idx, name)
        self.rett = {}
        for r in roots:
            base = len(self.nodes) + 1
            self.bases.append(base)
            inst = self.number(r, 0, {})
            self.lower(inst, {}, {}, [])
        for r, h in self.hier.items():
            self.rnames.add(r)
            for k in h['kids']:
                self.rnames.add(k['r'])
        self.finish()

    def number(self, n, par, nenv):
        idx = len(self.nodes) + 1
        self.nodes.append({'ty': n.ty, 'par': par, 'kids': [], 'sub': [], 'id': n.id})
        if par:
            self.nodes[par - 1]['kids'].append(idx)
        nenv[n.id] = idx
        kids = []
        if n.ty == 'B':
            kids.append(self.number(self.libs[n.lib], idx, {}))
        for k in n.kids:
            kids.append(self.number(k, idx, nenv))
        self.nodes[idx - 1]['sub'] = list(range(idx, len(self.nodes) + 1))
        return (n, idx, nenv, kids)

    # expressions

    def ref(self, ref, me, nenv):
        k, i = ref
        if k == 'self':
            return me
        if k == 'parent':
            return self.nodes[me - 1]['par']
        return nenv[i]

    def ex(self, e, me, venv, nenv):
        k = e[0]
        if k == 'lit':
            return ['c', lval(e[1], e[2])]
        if k == 'unk':
            return ['c', ['u']]
        if k == 'alit':
            return ['c', ['a', [lval(e[1], v) for v in e[2]]]]
        if k == 'var':
            return venv[e[1]]
        if k == 'elt':
            return ['e', self.ex(e[1], me, venv, nenv), self.ex(e[2], me, venv, nenv)]
        if k == 'look':
            nm = self.ex(e[1], me, venv, nenv)
            args = [self.ex(a, me, venv, nenv) for a in e[2]]
            tol = self.ex(e[3], me, venv, nenv) if e[3] else ['0']
            self.lks.append({'n': nm, 'args': args, 'tol': tol, 'on': bool(e[4])})
            self.order.append(len(self.lks))
            return ['l', len(self.lks)]
        if k == 'op':
            ty = e[2]
            return ['o', e[1], ty, [self.ex(a, me, venv, nenv) for a in e[3]]]
        if k == 'pred':
            return ['np', e[1], self.ref(e[2], me, nenv)]
        if k in ('st', 'out', 'fl', 'hd'):
            return [{'st': 'ns', 'out': 'no', 'fl': 'nf', 'hd': 'nh'}[k], self.ref(e[1], me, nenv)]
        if k == 'tp':
            return ['nt', self.ref(e[1], me, nenv), e[2], e[3]]
        raise ValueError(e)

    def newvar(self, idx, v, init):
        self.vars.append({'node': idx, 'init': init, 'arr': v.arr, 'max': v.mx, 'ty': v.ty})
        self.varnames.append((idx, v.name))
        return ['v', len(self.vars)]

    def lower(self, inst, venv, menv, loc0):
        """loc0: expressions which belong to the locals group besides variables"""
        n, idx, nenv, kids = inst
        N = self.nodes[idx - 1]
        venv = dict(venv)
        menv = dict(menv)
        locs = list(loc0)
        for v in n.vars:
            init = ['0'] if v.init is None else self.ex(v.init, idx, venv, nenv)
            x = self.newvar(idx, v, init)
            venv[v.name] = x
            locs.append(x)
        for m in n.mutexes:
            menv[m] = '%s@%d' % (m, idx)
        N['pr'] = WORST if n.pr is None else n.pr
        res = [['m', menv.get(m, m + '@g')] for m in n.using]
        cs = {}
        for c in CONDS:
            cs[c] = self.ex(n.conds[c], idx, venv, nenv) if c in n.conds else ['0']
        N['c'] = cs
        N['_loc'] = locs
        body = []
        if n.ty == 'A':
            L = self.ex(n.lhs, idx, venv, nenv)
            N['rhs'] = self.ex(n.rhs, idx, venv, nenv)
            N['elt'] = L[0] == 'e'
            N['var'] = L[1][1] if N['elt'] else L[1]
            N['idx'] = L[2] if N['elt'] else ['0']
            res.append(['v', N['var']])
            body = [L, N['rhs']]
        elif n.ty == 'C':
            N['name'] = self.ex(n.name, idx, venv, nenv)
            N['args'] = [self.ex(a, idx, venv, nenv) for a in n.args]
            N['dst'] = self.ex(n.dst, idx, venv, nenv) if n.dst is not None else ['0']
            if n.dst is not None:
                t = n.dst[2] if n.dst[0] == 'var' else n.dst[3]
                self.rett[idx] = t if t[0] != 'a' else t[1].upper()
            N['rs'] = []
            for r in n.res:
                q = {'n': self.ex(r['n'], idx, venv, nenv), 'p': self.ex(r['p'], idx, venv, nenv),
                     'b': self.ex(r['b'], idx, venv, nenv) if r['b'] is not None else ['c', ['r', SCALE]],
                     'k': self.ex(r['k'], idx, venv, nenv) if r['k'] is not None else ['c', ['b', 1]]}
                N['rs'].append(q)
                self.rnames.update(self.strings(r['n']))
                body += list(q.values())
            body += [N['name']] + N['args'] + ([N['dst']] if n.dst is not None else [])
        elif n.ty == 'U':
            N['pairs'] = [{'k': k, 'x': self.ex(x, idx, venv, nenv)} for k, x in n.pairs]
            body = [p['x'] for p in N['pairs']]
        N['res'] = res
        N['_body'] = body
        if n.ty == 'B':
            root = self.libs[n.lib]
            kidx = kids[0][1]
            given = {}
            for p, x in n.aliases:
                given[p] = self.ex(x, idx, venv, nenv)
                if x[0] not in ('var',):
                    N['_loc'].append(given[p])
            cenv, cloc = {}, []
            for mode, v in (root.iface or []):
                if v.name in given:
                    cenv[v.name] = given[v.name]
                elif mode == 'in':
                    if v.init is not None:
                        cenv[v.name] = self.ex(v.init, kidx, {}, {})
                        if cenv[v.name][0] != 'c':
                            cloc.append(cenv[v.name])
                    else:
                        cenv[v.name] = ['c', ['u']]
                else:
                    x = self.newvar(kidx, v, ['0'] if v.init is None else self.ex(v.init, kidx, {}, {}))
                    cenv[v.name] = x
                    cloc.append(x)
            self.lower(kids[0], cenv, {}, cloc)
        else:
            for k in kids:
                self.lower(k, venv, menv, [])

    def strings(self, e):
        if e[0] == 'lit':
            return [e[2]]
        if e[0] == 'op' and all(a[0] == 'lit' for a in e[3]):
            return [''.join(a[2] for a in e[3])]
        return list(getattr(self, 'anyres', []))

    # what is in use in which state

    def closure(self, es):
        vs, ls = set(), set()
        todo = list(es)
        while todo:
            e = todo.pop()
            if not isinstance(e, list) or not e:
                continue
            k = e[0]
            if k == 'v':
                if e[1] not in vs:
                    vs.add(e[1])
                    todo.append(self.vars[e[1] - 1]['init'])
            elif k == 'l':
                if e[1] not in ls:
                    ls.add(e[1])
                    L = self.lks[e[1] - 1]
                    todo += [L['n'], L['tol']] + L['args']
            elif k == 'e':
                todo += [e[1], e[2]]
            elif k == 'o':
                todo += e[3]
        return {'v': sorted(vs), 'l': sorted(ls)}

    def finish(self):
        for i, N in enumerate(self.nodes):
            c, ty = N['c'], N['ty']
            W = [c['skip'], c['start'], c['pre']]
            X, I, E, Pt, R = [c['exit']], [c['inv']], [c['end']], [c['post']], [c['rep']]
            LOC, Bd = N.pop('_loc'), N.pop('_body')
            wrap = []
            if ty in 'LB':
                j = i + 1
                while j:
                    cc = self.nodes[j - 1]['c']
                    wrap += [cc['exit'], cc['inv'], cc['end']]
                    j = self.nodes[j - 1]['par']
            ex = LOC + I + X + E + (Pt if ty in 'EAU' else []) + (Bd if ty in 'AUC' else []) + wrap
            fin = LOC + I + X + Pt + (Bd if ty == 'C' else []) + wrap
            fail = LOC + Bd + wrap
            g = {'WAITING': W + X, 'EXECUTING': ex, 'FINISHING': fin, 'FAILING': fail,
                 'ITERATION_ENDED': R, 'INACTIVE': [], 'FINISHED': []}
            N['act'] = {s: self.closure(x) for s, x in g.items()}

    def P(self):
        return {'nn': len(self.nodes), 'nv': len(self.vars), 'nl': len(self.lks), 'nodes': self.nodes,
                'vars': self.vars, 'lks': self.lks, 'lkorder': self.order,
                'hier': self.hier, 'rnames': sorted(self.rnames)}


def pct(s):
    out = []
    for ch in s:
        if ch.isalnum() or ch in '_-.<>/="':
            out.append(ch)
        else:
            out.append('%%%02X' % ord(ch))
    return ''.join(out)


class Scenario:
    """A set of plans and libraries, and what happens around them."""

    def __init__(self, sid):
        self.id = sid
        self.roots, self.libs = [], {}
        self.decls = ''
        self.hier, self.hiertext = {}, None
        self.script = []
        self.anyres = []
        self.tags = []
        self.core = {}          # root: its XML, where a compiler made it
        self.ears = []          # listeners: (kind, states, text)

    def lower(self):
        Low.anyres = self.anyres
        self.low = Low(self.roots, self.libs, self.hier)
        P = self.low.P()
        P['ears'] = [{'k': k, 's': list(s)} for k, s, _ in self.ears]
        return P

    def xml(self, root):
        return self.core[root.id] if self.core else xplan(root, self.decls)

    def text(self):
        lw = self.low
        out = ['BEGIN ' + self.id, 'nodes %d' % len(lw.nodes)]
        for r, b in zip(self.roots, lw.bases):
            out.append('root %s %d' % (r.id, b))
        for idx, nm in lw.varnames:
            out.append('var %d %s' % (idx, nm))
        for idx, t in lw.rett.items():
            out.append('rett %d %s' % (idx, t))
        for k, _, t in self.ears:
            f = {'all': '', 'none': '<Filter FilterType="NodeState"/>',
                 'only': '<Filter FilterType="NodeState"><States>%s</States></Filter>' % t,
                 'but': '<Filter FilterType="NodeState"><IgnoredStates>%s</IgnoredStates></Filter>' % t}[k]
            out.append('listener ' + pct(f))
        if self.hiertext:
            out.append('resource ' + pct(self.hiertext))
        for op in self.script:
            if op[0] == 'plan':
                r = self.roots[op[1]]
                out.append('plan %d %s' % (lw.bases[op[1]], pct(self.xml(r))))
            elif op[0] == 'lib':
                out.append('lib ' + pct(self.xml(self.libs[op[1]])))
            else:
                out.append(' '.join(str(x) for x in op))
        out.append('END')
        return '\n'.join(out) + '\n'


def sval(ty, v):
    """A value as the driver's script writes it"""
    if v is None:
        return 'u'
    if ty == 'b':
        return 'b:%d' % (1 if v else 0)
    if ty == 'i':
        return 'i:%d' % v
    if ty == 'r':
        return 'r:%d' % int(v * SCALE)
    if ty == 's':
        return 's:' + pct(v)
    if ty[0] == 'a':
        return 'A%s:%s' % (ty[1], ';'.join('u' if x is None else sval(ty[1], x)[2:] for x in v))
    raise ValueError(ty)
