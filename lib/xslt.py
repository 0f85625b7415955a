"""A processor for the part of XSLT 2.0 and XPath 2.0 that plan translation
needs: Saxon, which the PLEXIL compiler uses, is not among the installed tools.

  sheet = Sheet(path)          reads a stylesheet and what it includes
  out = sheet.transform(doc)   doc as parse() returns it; serialize(out)
"""
import datetime, os, re, xml.parsers.expat
from fractions import Fraction

XSL = 'http://www.w3.org/1999/XSL/Transform'
FN = 'http://www.w3.org/2005/xpath-functions'
XS = 'http://www.w3.org/2001/XMLSchema'


class XsltError(Exception):
    pass


# ---------------------------------------------------------------- trees

class N:
    """A node: doc, elem, attr, text, comment or pi"""
    __slots__ = ('kind', 'name', 'uri', 'ns', 'attrs', 'kids', 'parent', 'value', 'fresh', 'line', '_c')

    def __init__(self, kind, name='', value=''):
        self.kind, self.name, self.value = kind, name, value
        self.uri, self.ns, self.attrs, self.kids, self.parent = '', None, [], [], None
        self.fresh, self.line, self._c = True, 0, None

    def add(self, k):
        if k.kind == 'doc':
            for x in list(k.kids):
                self.add(x)
            return
        if not k.fresh or k.parent is not None:
            k = copy(k)
        k.fresh = False
        k.parent = self
        if k.kind == 'attr':
            self.attrs = [a for a in self.attrs if a.name != k.name] + [k]
        elif k.kind == 'text' and self.kids and self.kids[-1].kind == 'text':
            self.kids[-1].value += k.value
        elif k.kind != 'text' or k.value != '':
            self.kids.append(k)

    def attr(self, name, default=None):
        for a in self.attrs:
            if a.name == name:
                return a.value
        return default

    def string(self):
        if self.kind in ('elem', 'doc'):
            return ''.join(k.string() for k in self.kids if k.kind in ('elem', 'text'))
        return self.value

    def local(self):
        return self.name.split(':')[-1]


def copy(n):
    c = N(n.kind, n.name, n.value)
    c.uri, c.ns, c.line = n.uri, n.ns, n.line
    for a in n.attrs:
        b = N('attr', a.name, a.value)
        b.uri, b.parent, b.fresh = a.uri, c, False
        c.attrs.append(b)
    for k in n.kids:
        b = copy(k)
        b.parent, b.fresh = c, False
        c.kids.append(b)
    return c


def path(n):
    """Where a node is in document order"""
    out = []
    while n.parent is not None:
        p = n.parent
        if n.kind == 'attr':
            out.append((0, p.attrs.index(n)))
        else:
            out.append((1, next(i for i, k in enumerate(p.kids) if k is n)))
        n = p
    out.append((0, id(n)))
    return out[::-1]


def inorder(nodes):
    seen, out = set(), []
    for n in nodes:
        if id(n) not in seen:
            seen.add(id(n))
            out.append(n)
    return out if len(out) < 2 else sorted(out, key=path)


def parse(text, name=''):
    p = xml.parsers.expat.ParserCreate()
    p.ordered_attributes = True
    p.buffer_text = True
    doc = N('doc')
    doc.fresh = False
    st = [doc]
    scope = [{'xml': 'http://www.w3.org/XML/1998/namespace'}]

    def start(tag, at):
        e = N('elem', tag)
        e.line = p.CurrentLineNumber
        ns = dict(scope[-1])
        rest = []
        for k, v in zip(at[::2], at[1::2]):
            if k == 'xmlns':
                ns[''] = v
            elif k.startswith('xmlns:'):
                ns[k[6:]] = v
            else:
                rest.append((k, v))
        scope.append(ns)
        e.ns = ns
        e.uri = ns.get(tag.split(':')[0] if ':' in tag else '', '')
        for k, v in rest:
            a = N('attr', k, v)
            a.uri = ns.get(k.split(':')[0], '') if ':' in k else ''
            a.parent, a.fresh = e, False
            e.attrs.append(a)
        e.parent, e.fresh = st[-1], False
        st[-1].kids.append(e)
        st.append(e)

    def end(tag):
        st.pop()
        scope.pop()

    def leaf(kind):
        def f(*a):
            t = N(kind, a[0] if len(a) > 1 else '', a[-1])
            t.parent, t.fresh = st[-1], False
            if len(st) > 1 or kind != 'text':
                st[-1].kids.append(t)
        return f
    p.StartElementHandler, p.EndElementHandler = start, end
    p.CharacterDataHandler, p.CommentHandler, p.ProcessingInstructionHandler = leaf('text'), leaf('comment'), leaf('pi')
    try:
        p.Parse(text, True)
    except xml.parsers.expat.ExpatError as x:
        raise XsltError('%s: %s' % (name, x))
    return doc


def esc(s, attr=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    if attr:
        s = s.replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;')
    return s.replace('\r', '&#13;')


def serialize(n):
    if n.kind == 'doc':
        return ''.join(serialize(k) for k in n.kids)
    if n.kind == 'text':
        return esc(n.value)
    if n.kind == 'comment':
        return '<!--%s-->' % n.value
    if n.kind == 'pi':
        return '<?%s %s?>' % (n.name, n.value)
    if n.kind == 'attr':
        return ''
    body = ''.join(serialize(k) for k in n.kids)
    at = ''.join(' %s="%s"' % (a.name, esc(a.value, True)) for a in n.attrs)
    return '<%s%s>%s</%s>' % (n.name, at, body, n.name) if body else '<%s%s/>' % (n.name, at)


# ---------------------------------------------------------------- XPath values

class Duration:
    def __init__(self, s):
        self.s = Fraction(s)


class Moment(Duration):
    pass


class Decimal(Fraction):
    pass


def moment(s):
    m = re.fullmatch(r'\s*(-?\d{4,})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?(Z|[+-]\d\d:\d\d)?\s*', s)
    if not m:
        raise XsltError('not a date: ' + s)
    d = datetime.date(int(m[1]), int(m[2]), int(m[3])).toordinal() * 86400
    t = int(m[4]) * 3600 + int(m[5]) * 60 + int(m[6]) + Fraction(m[7] or 0)
    z = m[8]
    off = 0 if z in (None, 'Z') else (1 if z[0] == '+' else -1) * (int(z[1:3]) * 3600 + int(z[4:6]) * 60)
    return Moment(d + t - off)


def duration(s):
    if isinstance(s, Duration):
        return s
    m = re.fullmatch(r'\s*(-)?P(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d+)?)S)?)?\s*', s)
    if not m or s.strip()[-1] in 'PT':
        raise XsltError('not a duration: ' + s)
    v = sum(Fraction(x or 0) * k for x, k in zip(m.groups()[1:], (86400, 3600, 60, 1)))
    return Duration(-v if m[1] else v)


def atom(v):
    return v.string() if isinstance(v, N) else v


def tostr(v):
    if isinstance(v, list):
        return tostr(v[0]) if v else ''
    v = atom(v)
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return str(v.numerator)
        q = abs(v.numerator) * 10 ** 18 // v.denominator
        s = '%d.%018d' % (q // 10 ** 18, q % 10 ** 18)
        return ('-' if v < 0 else '') + s.rstrip('0').rstrip('.')
    if isinstance(v, float):
        if v != v:
            return 'NaN'
        if v in (float('inf'), float('-inf')):
            return 'INF' if v > 0 else '-INF'
        return str(int(v)) if v == int(v) and abs(v) < 1e6 else repr(v)
    return str(v)


def tonum(v):
    if isinstance(v, list):
        if not v:
            return float('nan')
        v = v[0]
    v = atom(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, float, Fraction, Duration)):
        return v
    try:
        s = v.strip()
        return int(s) if re.fullmatch(r'[+-]?\d+', s) else float(s)
    except ValueError:
        return float('nan')


def ebv(v):
    if not v:
        return False
    if isinstance(v[0], N):
        return True
    if len(v) > 1:
        raise XsltError('a sequence of values is not a truth value')
    x = v[0]
    if isinstance(x, bool):
        return x
    if isinstance(x, (int, float, Fraction)):
        return x == x and x != 0
    return x != ''


# ---------------------------------------------------------------- XPath syntax

TOK = re.compile(r'''\s*(?:(?P<num>\d+(?:\.\d*)?(?:[eE][+-]?\d+)?|\.\d+)|(?P<str>"(?:[^"]|"")*"|'(?:[^']|'')*')
  |(?P<var>\$[A-Za-z_][\w.-]*(?::[A-Za-z_][\w.-]*)?)
  |(?P<op>::|//|\.\.|<<|>>|!=|<=|>=|\|\||[-()\[\]@,|+*/.=<>?!])
  |(?P<name>[A-Za-z_][\w.-]*(?::(?!:)(?:\*|[A-Za-z_][\w.-]*))?|\*:[A-Za-z_][\w.-]*))''', re.X)
AXES = {'child', 'parent', 'self', 'descendant', 'descendant-or-self', 'ancestor', 'ancestor-or-self', 'attribute',
        'following-sibling', 'preceding-sibling', 'following', 'preceding'}
COMP = {'=': 0, '!=': 0, '<': 0, '<=': 0, '>': 0, '>=': 0, 'eq': 1, 'ne': 1, 'lt': 1, 'le': 1, 'gt': 1, 'ge': 1,
        'is': 2, '<<': 2, '>>': 2}
KIND = {'text', 'node', 'comment', 'element', 'attribute', 'document-node', 'processing-instruction', 'item'}


def lex(s):
    s = re.sub(r'\(:.*?:\)', ' ', s, flags=re.S)
    out, i = [], 0
    while s[i:].strip():
        m = TOK.match(s, i)
        if not m:
            raise XsltError('cannot read ' + s)
        k = m.lastgroup
        out.append((k, m[k]))
        i = m.end()
    return out + [('end', '')]


class P:
    def __init__(self, s):
        self.s, self.t, self.i = s, lex(s), 0

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def at(self, *vs):
        k, v = self.peek()
        return k in ('op', 'name') and v in vs

    def take(self, *vs):
        if self.at(*vs):
            self.i += 1
            return self.t[self.i - 1][1]

    def need(self, v):
        if not self.take(v):
            raise XsltError('%s expected in %s' % (v, self.s))

    def top(self):
        e = self.expr()
        if self.peek()[0] != 'end':
            raise XsltError('%s not understood at %s' % (self.s, self.peek()[1]))
        return e

    def expr(self):
        e = [self.single()]
        while self.take(','):
            e.append(self.single())
        return e[0] if len(e) == 1 else ('seq', e)

    def single(self):
        if self.at('if') and self.peek(1)[1] == '(':
            self.i += 2
            c = self.expr()
            self.need(')')
            self.need('then')
            a = self.single()
            self.need('else')
            return ('if', c, a, self.single())
        if self.at('for', 'some', 'every', 'let') and self.peek(1)[0] == 'var':
            kw = self.take('for', 'some', 'every', 'let')
            vs = []
            while True:
                v = self.peek()[1][1:]
                self.i += 1
                if kw == 'let':
                    raise XsltError('let is not XPath 2.0')
                self.need('in')
                vs.append((v, self.single()))
                if not self.take(','):
                    break
            self.need('return' if kw == 'for' else 'satisfies')
            return (kw, vs, self.single())
        return self.orx()

    def orx(self):
        e = self.andx()
        while self.take('or'):
            e = ('or', e, self.andx())
        return e

    def andx(self):
        e = self.comp()
        while self.take('and'):
            e = ('and', e, self.comp())
        return e

    def comp(self):
        e = self.range()
        if self.at(*COMP):
            op = self.take(*COMP)
            return ('cmp', op, e, self.range())
        return e

    def range(self):
        e = self.add()
        if self.take('to'):
            return ('to', e, self.add())
        return e

    def add(self):
        e = self.mul()
        while self.at('+', '-'):
            op = self.take('+', '-')
            e = ('arith', op, e, self.mul())
        return e

    def mul(self):
        e = self.union()
        while self.at('*', 'div', 'idiv', 'mod'):
            op = self.take('*', 'div', 'idiv', 'mod')
            e = ('arith', op, e, self.union())
        return e

    def union(self):
        e = self.intersect()
        while self.take('|', 'union'):
            e = ('union', e, self.intersect())
        return e

    def intersect(self):
        e = self.inst()
        while self.at('intersect', 'except'):
            op = self.take('intersect', 'except')
            e = (op, e, self.inst())
        return e

    def inst(self):
        e = self.unary()
        while self.at('instance', 'treat', 'castable', 'cast') and self.peek(1)[1] in ('of', 'as'):
            op = self.take('instance', 'treat', 'castable', 'cast')
            self.i += 1
            ty = self.seqtype()
            if op == 'instance':
                e = ('instance', e, ty)
            elif op == 'cast':
                e = ('call', ty[0], [e])
            elif op == 'castable':
                raise XsltError('castable as is not supported')
        return e

    def seqtype(self):
        n = self.peek()[1]
        self.i += 1
        a = None
        if self.take('('):
            if not self.at(')'):
                a = self.peek()[1]
                self.i += 1
            self.need(')')
        return (n, a, self.take('?', '*', '+'))

    def unary(self):
        neg = False
        while self.at('-', '+'):
            neg ^= self.take('-', '+') == '-'
        e = self.path()
        return ('neg', e) if neg else e

    def path(self):
        steps = []
        if self.take('//'):
            steps = [('root',), ('axis', 'descendant-or-self', ('kind', 'node', None), [])]
        elif self.take('/'):
            steps = [('root',)]
            if not self.stepstart():
                return ('path', steps)
        steps.append(self.step())
        while self.at('/', '//'):
            if self.take('/', '//') == '//':
                steps.append(('axis', 'descendant-or-self', ('kind', 'node', None), []))
            steps.append(self.step())
        if len(steps) == 1 and steps[0][0] == 'prim' and not steps[0][2]:
            return steps[0][1]
        return ('path', steps)

    def stepstart(self):
        k, v = self.peek()
        return k in ('name', 'num', 'str', 'var') or v in ('.', '..', '@', '*', '(')

    def preds(self):
        out = []
        while self.take('['):
            out.append(self.expr())
            self.need(']')
        return out

    def step(self):
        k, v = self.peek()
        if k == 'op' and v == '..':
            self.i += 1
            return ('axis', 'parent', ('kind', 'node', None), self.preds())
        if k == 'op' and v == '@':
            self.i += 1
            return ('axis', 'attribute', self.test(), self.preds())
        if k == 'name' and v in AXES and self.peek(1)[1] == '::':
            self.i += 2
            return ('axis', v, self.test(), self.preds())
        if (k == 'op' and v == '*') or (k == 'name' and (self.peek(1)[1] != '(' or v in KIND)):
            t = self.test()
            return ('axis', 'attribute' if t[:2] == ('kind', 'attribute') else 'child', t, self.preds())
        return ('prim', self.prim(), self.preds())

    def test(self):
        k, v = self.peek()
        self.i += 1
        if k == 'op' and v == '*':
            return ('name', '*')
        if k != 'name':
            raise XsltError('a name expected in ' + self.s)
        if v in KIND and self.peek()[1] == '(':
            self.i += 1
            a = None
            while not self.take(')'):
                if a is None:
                    a = self.peek()[1]
                self.i += 1
            return ('kind', v, a)
        return ('name', v)

    def prim(self):
        k, v = self.peek()
        self.i += 1
        if k == 'num':
            return ('lit', int(v) if v.isdigit() else float(v) if 'e' in v.lower() else Fraction(v))
        if k == 'str':
            return ('lit', v[1:-1].replace(v[0] * 2, v[0]))
        if k == 'var':
            return ('var', v[1:])
        if v == '.':
            return ('ctx',)
        if v == '(':
            if self.take(')'):
                return ('seq', [])
            e = self.expr()
            self.need(')')
            return ('paren', e)
        if k == 'name' and self.take('('):
            args = []
            while not self.take(')'):
                args.append(self.single())
                if not self.at(')'):
                    self.need(',')
            return ('call', v, args)
        raise XsltError('%s not understood at %s' % (self.s, v))


CACHE = {}


def xpath(s):
    if s not in CACHE:
        CACHE[s] = P(s).top()
    return CACHE[s]


# ---------------------------------------------------------------- evaluation

class Ctx:
    __slots__ = ('item', 'pos', 'size', 'vars', 'sheet', 'cur', 'mode', 'tunnel', 'template')

    def __init__(self, sheet, item=None, pos=1, size=1, vars=None, cur=None, mode=None, tunnel=None):
        self.sheet, self.item, self.pos, self.size = sheet, item, pos, size
        self.vars, self.cur, self.mode, self.tunnel = vars if vars is not None else {}, cur, mode, tunnel or {}
        self.template = None

    def at(self, item, pos, size):
        c = Ctx(self.sheet, item, pos, size, self.vars, self.cur, self.mode, self.tunnel)
        c.template = self.template
        return c


def ntest(t, n, axis):
    if t[0] == 'name':
        if n.kind != ('attr' if axis == 'attribute' else 'elem'):
            return False
        v = t[1]
        if v == '*':
            return True
        if v.startswith('*:'):
            return n.local() == v[2:]
        if v.endswith(':*'):
            return n.name.startswith(v[:-1])
        return n.name == v
    k, a = t[1], t[2]
    if k in ('node', 'item'):
        return True
    if k == 'text':
        return n.kind == 'text'
    if k == 'comment':
        return n.kind == 'comment'
    if k == 'element':
        return n.kind == 'elem' and a in (None, '*', n.name)
    if k == 'attribute':
        return n.kind == 'attr' and a in (None, '*', n.name)
    if k == 'document-node':
        return n.kind == 'doc'
    return n.kind == 'pi'


def desc(n):
    for k in n.kids:
        yield k
        yield from desc(k)


def axis(n, a):
    if a == 'child':
        return n.kids if n.kind in ('elem', 'doc') else []
    if a == 'attribute':
        return n.attrs
    if a == 'self':
        return [n]
    if a == 'parent':
        return [n.parent] if n.parent is not None else []
    if a == 'descendant':
        return list(desc(n))
    if a == 'descendant-or-self':
        return [n] + list(desc(n))
    if a in ('ancestor', 'ancestor-or-self'):
        out = [n] if a != 'ancestor' else []
        while n.parent is not None:
            n = n.parent
            out.append(n)
        return out
    if a in ('following-sibling', 'preceding-sibling'):
        if n.parent is None or n.kind == 'attr':
            return []
        ks = n.parent.kids
        i = next(i for i, k in enumerate(ks) if k is n)
        return ks[i + 1:] if a[0] == 'f' else ks[:i][::-1]
    if a in ('following', 'preceding'):
        out = []
        m = n if n.kind != 'attr' else n.parent
        while m.parent is not None:
            sibs = axis(m, a + '-sibling')
            for s in sibs:
                d = [s] + list(desc(s))
                out += d if a[0] == 'f' else d[::-1]
            m = m.parent
        return out
    raise XsltError('axis ' + a)


def filt(nodes, preds, c):
    for p in preds:
        out, size = [], len(nodes)
        for i, n in enumerate(nodes):
            r = ev(p, c.at(n, i + 1, size))
            if len(r) == 1 and isinstance(r[0], (int, float, Fraction)) and not isinstance(r[0], bool):
                ok = r[0] == i + 1
            else:
                ok = ebv(r)
            if ok:
                out.append(n)
        nodes = out
    return nodes


def nodes(v, what):
    for x in v:
        if not isinstance(x, N):
            raise XsltError('nodes expected: ' + what)
    return v


def root(n):
    while n.parent is not None:
        n = n.parent
    return n


def cmp1(op, a, b):
    a, b = atom(a), atom(b)
    if isinstance(a, Duration) or isinstance(b, Duration):
        a, b = a.s, b.s
    elif isinstance(a, bool) or isinstance(b, bool):
        a, b = ebv([a]), ebv([b])
    elif isinstance(a, (int, float, Fraction)) or isinstance(b, (int, float, Fraction)):
        a, b = tonum(a), tonum(b)
    return {'=': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]


VAL = {'eq': '=', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}


def ev(e, c):
    k = e[0]
    if k == 'lit':
        return [e[1]]
    if k == 'var':
        if e[1] in c.vars:
            return c.vars[e[1]]
        return c.sheet.globalvar(e[1])
    if k == 'ctx':
        if c.item is None:
            raise XsltError('no context item')
        return [c.item]
    if k == 'paren':
        return ev(e[1], c)
    if k == 'seq':
        return [x for s in e[1] for x in ev(s, c)]
    if k == 'path':
        return evpath(e[1], c)
    if k == 'if':
        return ev(e[2] if ebv(ev(e[1], c)) else e[3], c)
    if k == 'or':
        return [ebv(ev(e[1], c)) or ebv(ev(e[2], c))]
    if k == 'and':
        return [ebv(ev(e[1], c)) and ebv(ev(e[2], c))]
    if k in ('for', 'some', 'every'):
        def loop(vs, c):
            if not vs:
                yield ev(e[2], c)
                return
            for x in ev(vs[0][1], c):
                d = c.at(c.item, c.pos, c.size)
                d.vars = dict(c.vars)
                d.vars[vs[0][0]] = [x]
                yield from loop(vs[1:], d)
        r = loop(e[1], c)
        if k == 'for':
            return [x for s in r for x in s]
        return [any(ebv(s) for s in r) if k == 'some' else all(ebv(s) for s in r)]
    if k == 'cmp':
        op, a, b = e[1], ev(e[2], c), ev(e[3], c)
        if op in VAL:
            return [cmp1(VAL[op], a[0], b[0])] if a and b else []
        if op in ('is', '<<', '>>'):
            if not a or not b:
                return []
            return [a[0] is b[0] if op == 'is' else (path(a[0]) < path(b[0])) == (op == '<<') and a[0] is not b[0]]
        return [any(cmp1(op, x, y) for x in a for y in b)]
    if k == 'to':
        a, b = ev(e[1], c), ev(e[2], c)
        return list(range(int(tonum(a)), int(tonum(b)) + 1)) if a and b else []
    if k == 'neg':
        a = ev(e[1], c)
        return [-tonum(a)] if a else []
    if k == 'arith':
        a, b = ev(e[2], c), ev(e[3], c)
        if not a or not b:
            return []
        a, b, op = tonum(a), tonum(b), e[1]
        if isinstance(a, Duration) or isinstance(b, Duration):
            if isinstance(a, Duration) and isinstance(b, Duration):
                if op == 'div':
                    return [a.s / b.s]
                r = a.s + b.s if op == '+' else a.s - b.s
                return [Moment(r) if isinstance(a, Moment) != isinstance(b, Moment) else Duration(r)]
            if isinstance(b, Duration):
                a, b = b, a
            return [Duration(a.s * Fraction(b) if op == '*' else a.s / Fraction(b))]
        if op in ('div', 'idiv', 'mod') and b == 0 and not isinstance(a, float) and not isinstance(b, float):
            raise XsltError('division by zero')
        if op == 'div':
            return [a / b if isinstance(a, float) or isinstance(b, float) else Fraction(a) / b]
        if op == 'idiv':
            return [int(a / b)]
        if op == 'mod':
            return [a - b * int(a / b)]
        return [a + b if op == '+' else a - b if op == '-' else a * b]
    if k in ('union', 'intersect', 'except'):
        a, b = nodes(ev(e[1], c), k), nodes(ev(e[2], c), k)
        if k == 'union':
            return inorder(a + b)
        s = {id(x) for x in b}
        return inorder([x for x in a if (id(x) in s) == (k == 'intersect')])
    if k == 'instance':
        v, (n, a, q) = ev(e[1], c), e[2]
        if (len(v) == 0 and q not in ('?', '*')) or (len(v) > 1 and q not in ('*', '+')):
            return [False]
        if n in KIND:
            return [all(isinstance(x, N) and ntest(('kind', n, a), x, 'child') for x in v)]
        ty = {'xs:string': str, 'xs:integer': int, 'xs:boolean': bool}.get(n)
        return [all(isinstance(x, ty) for x in v)]
    if k == 'call':
        return c.sheet.call(e[1], e[2], c)
    raise XsltError('expression %r' % (e,))


def evpath(steps, c):
    cur = None
    for i, s in enumerate(steps):
        if s[0] == 'root':
            cur = [root(c.item)]
            continue
        items = [(c.item, c.pos, c.size)] if cur is None else [(n, j + 1, len(cur)) for j, n in enumerate(cur)]
        out, many = [], len(items) > 1
        for n, p, z in items:
            if s[0] == 'axis':
                if not isinstance(n, N):
                    raise XsltError('a path from something that is not a node')
                r = [x for x in axis(n, s[1]) if ntest(s[2], x, s[1])]
                r = filt(r, s[3], c)
                if s[1] in ('ancestor', 'ancestor-or-self', 'preceding-sibling', 'preceding'):
                    r = r[::-1]
            else:
                d = c if cur is None else c.at(n, p, z)
                r = filt(ev(s[1], d), s[2], d)
            out += r
        cur = inorder(out) if many and out and isinstance(out[0], N) else out
    return cur


# ---------------------------------------------------------------- stylesheets

class Sheet:
    def __init__(self, file):
        self.templates, self.named, self.functions, self.globals, self.gval = [], {}, {}, {}, {}
        self.ids, self.messages, self.depth = {}, [], 0
        self.load(file, 0, set())
        self.templates.sort(key=lambda t: (t[0], t[1]))
        self.templates.reverse()

    # -- reading
    def load(self, file, prec, seen):
        file = os.path.realpath(file)
        if file in seen:
            return
        seen.add(file)
        with open(file, encoding='utf-8') as f:
            doc = parse(f.read(), file)
        top = next(k for k in doc.kids if k.kind == 'elem')
        self.strip(top)
        self.file = file
        for k in top.kids:
            if k.kind != 'elem' or k.uri != XSL:
                continue
            n = k.local()
            if n in ('include', 'import'):
                self.load(os.path.join(os.path.dirname(file), k.attr('href')), prec - (n == 'import'), seen)
            elif n == 'template':
                if k.attr('name'):
                    self.named[k.attr('name')] = k
                if k.attr('match'):
                    for pat in self.split(k.attr('match')):
                        p = P(pat).path()
                        pr = k.attr('priority')
                        modes = (k.attr('mode') or '#default').split()
                        self.templates.append((prec, (float(pr) if pr else self.priority(p), len(self.templates)),
                                               p, modes, k))
            elif n == 'function':
                ar = sum(1 for x in k.kids if x.kind == 'elem' and x.name.endswith(':param'))
                self.functions[k.attr('name'), ar] = k
            elif n in ('variable', 'param'):
                self.globals[k.attr('name')] = k
            elif n not in ('output', 'strip-space', 'preserve-space', 'namespace-alias', 'decimal-format'):
                raise XsltError('%s:%d: %s is not supported' % (file, k.line, k.name))

    def strip(self, e):
        if e.attr('xml:space') == 'preserve':
            return
        keep = e.uri == XSL and e.local() == 'text'
        e.kids = [k for k in e.kids if k.kind == 'elem' or (k.kind == 'text' and (keep or k.value.strip(' \t\r\n')))]
        for k in e.kids:
            if k.kind == 'elem':
                self.strip(k)

    @staticmethod
    def split(s):
        out, d, cur, q = [], 0, '', None
        for ch in s:
            if q:
                q = None if ch == q else q
            elif ch in '\'"':
                q = ch
            d += (ch in '[(') - (ch in '])')
            if ch == '|' and d == 0 and not q:
                out.append(cur)
                cur = ''
            else:
                cur += ch
        return [x.strip() for x in out + [cur]]

    @staticmethod
    def priority(p):
        if p[0] != 'path':
            return .5
        steps = p[1]
        if steps == [('root',)]:
            return -.5
        if len(steps) > 1 or steps[0][0] != 'axis' or steps[0][3]:
            return .5
        t = steps[0][2]
        if t[0] == 'name':
            return -.5 if t[1] == '*' else -.25 if '*' in t[1] else 0
        return 0 if t[2] not in (None, '*') else -.5

    # -- matching
    def matches(self, p, n, c):
        if p[0] != 'path':
            return False
        steps = p[1]

        def m(i, n):
            if i < 0:
                return True
            s = steps[i]
            if s[0] == 'root':
                return n is not None and n.kind == 'doc'
            if n is None:
                return False
            if s == ('axis', 'descendant-or-self', ('kind', 'node', None), []) and i < len(steps) - 1:
                while n is not None:
                    if m(i - 1, n):
                        return True
                    n = n.parent
                return False
            if s[0] != 'axis':
                return False
            if s[1] == 'child' and n.kind in ('attr', 'doc'):
                return False
            if s[1] == 'attribute' and n.kind != 'attr':
                return False
            if not ntest(s[2], n, s[1]):
                return False
            if s[3]:
                par = n.parent
                group = [x for x in (axis(par, s[1]) if par is not None else [n]) if ntest(s[2], x, s[1])]
                if not any(x is n for x in filt(group, s[3], c)):
                    return False
            return m(i - 1, n.parent)
        return m(len(steps) - 1, n)

    def template(self, n, mode, c, after=None):
        skip = after is not None
        for t in self.templates:
            if skip:
                skip = t[4] is not after
                continue
            if (mode in t[3] or '#all' in t[3]) and self.matches(t[2], n, c):
                return t[4]

    def apply(self, n, c, params, pos, size, after=None):
        d = Ctx(self, n, pos, size, {}, n, c.mode, c.tunnel)
        t = self.template(n, c.mode or '#default', d, after)
        if t is not None:
            d.template = t
            return self.invoke(t, d, params)
        if n.kind in ('elem', 'doc'):
            return [x for i, k in enumerate(n.kids) for x in self.apply(k, c, {}, i + 1, len(n.kids))]
        if n.kind in ('text', 'attr'):
            return self.text(n.value)
        return []

    def invoke(self, t, c, params):
        self.depth += 1
        if self.depth > 400:
            raise XsltError('templates nested too deeply')
        body = []
        for k in t.kids:
            if k.kind == 'elem' and k.uri == XSL and k.local() == 'param':
                v = k.attr('name')
                if k.attr('tunnel') == 'yes' and v in c.tunnel:
                    c.vars[v] = c.tunnel[v]
                elif v in params:
                    c.vars[v] = params[v]
                elif k.attr('required') == 'yes':
                    raise XsltError('parameter %s is required (line %d)' % (v, k.line))
                else:
                    c.vars[v] = self.bind(k, c)
            else:
                body.append(k)
        r = self.run(body, c)
        self.depth -= 1
        return r

    # -- values
    def globalvar(self, v):
        if v not in self.gval:
            if v not in self.globals:
                raise XsltError('no variable $' + v)
            self.gval[v] = self.bind(self.globals[v], Ctx(self, self.source, 1, 1, {}, self.source))
        return self.gval[v]

    def bind(self, k, c):
        if k.attr('select') is not None:
            return ev(xpath(k.attr('select')), c)
        if not k.kids:
            return [] if k.attr('as') else ['']
        d = c.at(c.item, c.pos, c.size)
        d.vars = dict(c.vars)
        r = self.run(k.kids, d)
        if k.attr('as'):
            ty = k.attr('as')
            for x in r:
                if isinstance(x, N):
                    x.fresh = False
            n = len(r)
            if (n == 0 and ty[-1] not in '?*') or (n > 1 and ty[-1] not in '*+'):
                raise XsltError('%s: %d items for %s (line %d)' % (k.attr('name'), n, ty, k.line))
            return r
        doc = N('doc')
        self.fill(doc, r)
        doc.fresh = False
        return [doc]

    def fill(self, e, items):
        """Adjacent values are set apart by a blank; nodes are copied in"""
        val = False
        for x in items:
            if isinstance(x, N):
                e.add(x)
                val = False
            else:
                e.add(N('text', '', (' ' if val else '') + tostr(x)))
                val = True

    @staticmethod
    def text(s):
        return [N('text', '', s)]

    def avt(self, s, c):
        out, i = '', 0
        while i < len(s):
            if s[i:i + 2] in ('{{', '}}'):
                out += s[i]
                i += 2
            elif s[i] == '{':
                j, q = i + 1, None
                while s[j] != '}' or q:
                    if q:
                        q = None if s[j] == q else q
                    elif s[j] in '\'"':
                        q = s[j]
                    j += 1
                out += ' '.join(tostr(x) for x in ev(xpath(s[i + 1:j]), c))
                i = j + 1
            else:
                out += s[i]
                i += 1
        return out

    # -- instructions
    def run(self, body, c):
        out = []
        for k in body:
            if k.kind == 'text':
                out.append(N('text', '', k.value))
            elif k.uri == XSL:
                n = k.local()
                if n == 'variable':
                    c.vars = dict(c.vars)
                    c.vars[k.attr('name')] = self.bind(k, c)
                else:
                    f = getattr(self, 'x_' + n.replace('-', '_'), None)
                    if f is None:
                        raise XsltError('line %d: %s is not supported' % (k.line, k.name))
                    out += f(k, c)
            else:
                e = N('elem', k.name)
                e.uri, e.ns = k.uri, k.ns
                for a in k.attrs:
                    if a.uri != XSL:
                        e.add(N('attr', a.name, self.avt(a.value, c)))
                self.fill(e, self.sub(k, c))
                out.append(e)
        return out

    def sub(self, k, c):
        return self.run(k.kids, c.at(c.item, c.pos, c.size))

    def params(self, k, c):
        ps, tun = {}, dict(c.tunnel)
        for x in k.kids:
            if x.kind == 'elem' and x.name.endswith(':with-param'):
                (tun if x.attr('tunnel') == 'yes' else ps)[x.attr('name')] = self.bind(x, c)
        return ps, tun

    def sort(self, k, items, c):
        ks = [x for x in k.kids if x.kind == 'elem' and x.name.endswith(':sort')]
        if not ks:
            return items
        for x in reversed(ks):
            def key(it):
                d = c.at(it, 1, 1)
                v = ev(xpath(x.attr('select') or '.'), d)
                v = v[0] if v else ''
                num = x.attr('data-type') == 'number' or isinstance(v, (int, float, Fraction))
                return tonum(v) if num else tostr(v)
            items = sorted(items, key=key, reverse=x.attr('order') == 'descending')
        return items

    def x_sequence(self, k, c):
        return list(ev(xpath(k.attr('select')), c)) if k.attr('select') is not None else self.sub(k, c)

    def x_copy_of(self, k, c):
        return [copy(x) if isinstance(x, N) else x for x in ev(xpath(k.attr('select')), c)]

    def x_value_of(self, k, c):
        sep = k.attr('separator')
        if k.attr('select') is not None:
            return self.text((' ' if sep is None else sep).join(tostr(x) for x in ev(xpath(k.attr('select')), c)))
        d = N('doc')
        self.fill(d, self.sub(k, c))
        return self.text(d.string())

    def x_text(self, k, c):
        return self.text(k.string())

    def x_if(self, k, c):
        return self.sub(k, c) if ebv(ev(xpath(k.attr('test')), c)) else []

    def x_choose(self, k, c):
        for w in k.kids:
            if w.kind == 'elem' and (w.local() == 'otherwise' or ebv(ev(xpath(w.attr('test')), c))):
                return self.sub(w, c)
        return []

    def x_for_each(self, k, c):
        items = self.sort(k, ev(xpath(k.attr('select')), c), c)
        body = [x for x in k.kids if not (x.kind == 'elem' and x.uri == XSL and x.local() == 'sort')]
        out = []
        for i, x in enumerate(items):
            d = c.at(x, i + 1, len(items))
            d.cur = x
            out += self.run(body, d)
        return out

    def x_perform_sort(self, k, c):
        return list(self.sort(k, ev(xpath(k.attr('select')), c), c))

    def x_call_template(self, k, c):
        if k.attr('name') not in self.named:
            raise XsltError('no template named %s (line %d)' % (k.attr('name'), k.line))
        ps, tun = self.params(k, c)
        d = Ctx(self, c.item, c.pos, c.size, {}, c.cur, c.mode, tun)
        d.template = c.template
        return self.invoke(self.named[k.attr('name')], d, ps)

    def x_apply_templates(self, k, c):
        items = nodes(ev(xpath(k.attr('select') or 'node()'), c), 'apply-templates')
        items = self.sort(k, items, c)
        ps, tun = self.params(k, c)
        mode = k.attr('mode')
        d = Ctx(self, c.item, c.pos, c.size, {}, c.cur, c.mode if mode == '#current' else mode, tun)
        return [x for i, n in enumerate(items) for x in self.apply(n, d, ps, i + 1, len(items))]

    def x_next_match(self, k, c):
        ps, tun = self.params(k, c)
        d = Ctx(self, c.item, c.pos, c.size, {}, c.cur, c.mode, tun)
        return self.apply(c.item, d, ps, c.pos, c.size, c.template)

    x_apply_imports = x_next_match

    def x_element(self, k, c):
        e = N('elem', self.avt(k.attr('name'), c))
        if not re.fullmatch(r'[A-Za-z_][\w.:-]*', e.name):
            raise XsltError('%r is not a name (line %d)' % (e.name, k.line))
        self.fill(e, self.sub(k, c))
        return [e]

    def x_attribute(self, k, c):
        if k.attr('select') is not None:
            v = (k.attr('separator') or ' ').join(tostr(x) for x in ev(xpath(k.attr('select')), c))
        else:
            d = N('doc')
            self.fill(d, self.sub(k, c))
            v = d.string()
        return [N('attr', self.avt(k.attr('name'), c), v)]

    def x_copy(self, k, c):
        n = c.item
        if not isinstance(n, N):
            return [n]
        if n.kind == 'doc':
            return self.sub(k, c)
        e = N(n.kind, n.name, n.value)
        e.uri, e.ns = n.uri, n.ns
        if n.kind == 'elem':
            self.fill(e, self.sub(k, c))
        return [e]

    def x_document(self, k, c):
        d = N('doc')
        self.fill(d, self.sub(k, c))
        return [d]

    def x_comment(self, k, c):
        d = N('doc')
        self.fill(d, self.sub(k, c))
        return [N('comment', '', d.string())]

    def x_message(self, k, c):
        d = N('doc')
        self.fill(d, self.sub(k, c) if k.attr('select') is None else ev(xpath(k.attr('select')), c))
        self.messages.append(' '.join(d.string().split()))
        if k.attr('terminate') == 'yes':
            raise XsltError(self.messages[-1])
        return []

    def x_fallback(self, k, c):
        return []

    # -- functions
    def call(self, name, args, c):
        if (name, len(args)) in self.functions:
            f = self.functions[name, len(args)]
            d = Ctx(self, None, 1, 1, {}, None)
            body, i = [], 0
            for k in f.kids:
                if k.kind == 'elem' and k.uri == XSL and k.local() == 'param':
                    d.vars[k.attr('name')] = ev(args[i], c)
                    i += 1
                else:
                    body.append(k)
            r = self.run(body, d)
            for x in r:
                if isinstance(x, N):
                    x.fresh = False
            return r
        n = name[3:] if name.startswith(('fn:', 'xs:')) else name
        if name.startswith('xs:'):
            v = ev(args[0], c)
            if not v:
                return []
            s = tostr(v)
            if n == 'dateTime':
                return [v[0] if isinstance(v[0], Moment) else moment(s)]
            if n in ('dayTimeDuration', 'duration'):
                return [duration(v[0] if isinstance(v[0], Duration) else s)]
            if n in ('integer', 'int', 'nonNegativeInteger', 'positiveInteger', 'long'):
                return [int(tonum(v))]
            if n in ('double', 'float'):
                return [float(tonum(v))]
            if n == 'decimal':
                return [Fraction(s)]
            if n == 'boolean':
                return [s.strip() in ('true', '1')]
            return [s]
        f = getattr(self, 'f_' + n.replace('-', '_'), None)
        if f is None:
            raise XsltError('function %s is not supported' % name)
        if n in ('position', 'last', 'current'):
            return f(c)
        vs = [ev(a, c) for a in args]
        if not vs and n in ('name', 'local-name', 'string', 'normalize-space', 'string-length', 'generate-id', 'number',
                            'root', 'data', 'node-name', 'namespace-uri'):
            vs = [[c.item]]
        return f(*vs)

    def f_position(self, c): return [c.pos]
    def f_last(self, c): return [c.size]
    def f_current(self, c): return [c.cur]
    def f_name(self, v): return [v[0].name if v and v[0].kind in ('elem', 'attr', 'pi') else '']
    f_node_name = f_name
    def f_local_name(self, v): return [v[0].local() if v else '']
    def f_namespace_uri(self, v): return [v[0].uri if v else '']
    def f_count(self, v): return [len(v)]
    def f_not(self, v): return [not ebv(v)]
    def f_boolean(self, v): return [ebv(v)]
    def f_true(self): return [True]
    def f_false(self): return [False]
    def f_exists(self, v): return [bool(v)]
    def f_empty(self, v): return [not v]
    def f_string(self, v): return [tostr(v)]
    def f_data(self, v): return [atom(x) for x in v]
    def f_number(self, v): return [float(tonum(v))]
    def f_concat(self, *vs): return [''.join(tostr(v) for v in vs)]
    def f_string_join(self, v, sep=('',)): return [tostr(list(sep)).join(tostr(x) for x in v)]
    def f_contains(self, a, b): return [tostr(b) in tostr(a)]
    def f_starts_with(self, a, b): return [tostr(a).startswith(tostr(b))]
    def f_ends_with(self, a, b): return [tostr(a).endswith(tostr(b))]
    def f_string_length(self, v): return [len(tostr(v))]
    def f_normalize_space(self, v): return [' '.join(tostr(v).split())]
    def f_upper_case(self, v): return [tostr(v).upper()]
    def f_lower_case(self, v): return [tostr(v).lower()]
    def f_sum(self, v, z=(0,)): return [sum(tonum(x) for x in v)] if v else list(z)
    def f_max(self, v): return [max(tonum(x) for x in v)] if v else []
    def f_min(self, v): return [min(tonum(x) for x in v)] if v else []
    def f_abs(self, v): return [abs(tonum(v))] if v else []
    def f_reverse(self, v): return v[::-1]
    def f_root(self, v): return [root(v[0])] if v else []
    def f_head(self, v): return v[:1]
    def f_tail(self, v): return v[1:]
    def f_remove(self, v, i): return [x for j, x in enumerate(v) if j + 1 != tonum(i)]
    def f_error(self, *v): raise XsltError('error(): ' + ' '.join(tostr(x) for x in v))

    def f_substring_before(self, a, b):
        a, b = tostr(a), tostr(b)
        return [a[:a.index(b)] if b in a else '']

    def f_substring_after(self, a, b):
        a, b = tostr(a), tostr(b)
        return [a[a.index(b) + len(b):] if b in a else '']

    def f_substring(self, s, i, n=None):
        s, i = tostr(s), tonum(i)
        lo = round(i)
        hi = lo + round(tonum(n)) if n is not None else len(s) + 1
        return [''.join(ch for j, ch in enumerate(s, 1) if lo <= j < hi)]

    def f_translate(self, s, a, b):
        a, b = tostr(a), tostr(b)
        return [''.join((b[a.index(ch)] if a.index(ch) < len(b) else '') if ch in a else ch for ch in tostr(s))]

    def f_replace(self, s, p, r): return [re.sub(tostr(p), tostr(r).replace('$', '\\'), tostr(s))]
    def f_matches(self, s, p): return [bool(re.search(tostr(p), tostr(s)))]
    def f_tokenize(self, s, p): return re.split(tostr(p), tostr(s))

    def f_subsequence(self, v, i, n=None):
        lo = round(tonum(i))
        hi = lo + round(tonum(n)) if n is not None else len(v) + 1
        return [x for j, x in enumerate(v, 1) if lo <= j < hi]

    def f_index_of(self, v, x): return [j for j, y in enumerate(v, 1) if cmp1('=', y, x[0])]

    def f_distinct_values(self, v):
        out = []
        for x in v:
            if atom(x) not in out:
                out.append(atom(x))
        return out

    def f_exactly_one(self, v):
        if len(v) != 1:
            raise XsltError('exactly-one: %d items' % len(v))
        return v

    def f_zero_or_one(self, v):
        if len(v) > 1:
            raise XsltError('zero-or-one: %d items' % len(v))
        return v

    def f_one_or_more(self, v):
        if not v:
            raise XsltError('one-or-more: nothing')
        return v

    def f_generate_id(self, v):
        return [self.ids.setdefault(v[0], 'd%d' % (len(self.ids) + 1)) if v else '']

    # -- the whole
    def transform(self, doc):
        self.source, self.gval, self.ids, self.messages, self.depth = doc, {}, {}, [], 0
        self.keep = []
        c = Ctx(self, doc, 1, 1, {}, doc)
        out = N('doc')
        self.fill(out, self.apply(doc, c, {}, 1, 1))
        return out
