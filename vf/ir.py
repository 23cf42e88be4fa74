"""Parser for the textual LLVM IR that clang -O0 emits (the subset C code compiles to)."""
import re

TOK = re.compile(r'''
   c"(?:[^"])*"            # char array
 | "(?:[^"])*"             # quoted
 | [%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)
 | ![-a-zA-Z$._0-9]*
 | \#\d+
 | 0x[KMHRL]?[0-9A-Fa-f]+
 | -?\d+\.\d+(?:e[+-]?\d+)?
 | -?\d+
 | \.\.\.
 | [a-zA-Z_][a-zA-Z_0-9.]*
 | [()\[\]{}<>,=*:|]
''', re.X)


class Unsupported(Exception):
    """The construct lies outside the verifier's subset (not a property violation)."""


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


PTR = ('ptr',)
VOID = ('void',)
DBL = ('double',)


def I(n):
    return ('i', n)


class Module:
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.dbg = {}

    # ---- layout -------------------------------------------------------------
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            return 1 if b <= 1 else 2 if b == 2 else 4 if b <= 4 else 8
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'arr':
            return self.align(t[2])
        if k == 'struct':
            return 1 if t[2] else max([self.align(x) for x in t[1]] or [1])
        raise Unsupported('align %r' % (t,))

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            return 1 if b <= 1 else 2 if b == 2 else 4 if b <= 4 else 8 * ((b + 7) // 8)
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'struct':
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    o = (o + a - 1) // a * a
                o += self.size(x)
            a = self.align(t)
            return (o + a - 1) // a * a
        raise Unsupported('size %r' % (t,))

    def field_off(self, t, idx):
        t = self.resolve(t)
        o = 0
        for i, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x)
                o = (o + a - 1) // a * a
            if i == idx:
                return o
            o += self.size(x)
        raise Unsupported('field')


class Func:
    __slots__ = ('name', 'module', 'ret', 'params', 'blocks', 'order', 'vararg', 'internal', '_loops',
                 '_preds', 'file', 'dbgscope', '_live')


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'flags')

    def __init__(self, op, res, ty, a, line, flags=()):
        self.op, self.res, self.ty, self.a, self.line, self.flags = op, res, ty, a, line, flags

    def __repr__(self):
        return '%s=%s %s %s' % (self.res, self.op, self.ty, self.a)


class P:
    """token stream"""

    def __init__(self, mod, text):
        self.m = mod
        self.t = TOK.findall(text)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i] if self.i < len(self.t) else None
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('parse: expected %s got %s in %s' % (x, y, ' '.join(self.t)))

    def type(self):
        x = self.next()
        if x is None:
            raise Unsupported('parse type')
        if re.fullmatch(r'i\d+', x):
            t = I(int(x[1:]))
        elif x == 'ptr':
            t = PTR
        elif x == 'void':
            t = VOID
        elif x == 'double':
            t = DBL
        elif x == 'float':
            t = ('float',)
        elif x == 'x86_fp80':
            t = ('x86_fp80',)
        elif x[0] == '%':
            t = ('named', x)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '<' and self.peek() == '{':
            self.next()
            el = []
            while not self.eat('}'):
                el.append(self.type())
                self.eat(',')
            self.expect('>')
            t = ('struct', tuple(el), True)
        elif x == '{':
            el = []
            while not self.eat('}'):
                el.append(self.type())
                self.eat(',')
            t = ('struct', tuple(el), False)
        elif x == 'opaque':
            t = ('opaque',)
        elif x in ('metadata', 'label'):
            t = (x,)
        elif x == '<':
            raise Unsupported('vector type')
        else:
            raise Unsupported('type %s' % x)
        while self.peek() == '(':  # function type
            d = 0
            args = []
            while True:
                y = self.next()
                if y == '(':
                    d += 1
                elif y == ')':
                    d -= 1
                    if d == 0:
                        break
            t = ('fn', t)
        return t

    ATTR = {'noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'returned',
            'inreg', 'dso_local', 'immarg', 'noreturn', 'nounwind', 'dso_preemptable', 'readnone', 'allocalign',
            'noinline', 'local_unnamed_addr', 'unnamed_addr', 'tail', 'notail', 'musttail', 'fastcc', 'ccc', 'fast',
            'captures', 'nofree', 'nosync', 'hidden', 'protected', 'default', 'allocptr', 'swiftself', 'mustprogress'}

    def attrs(self):
        while True:
            x = self.peek()
            if x in self.ATTR:
                self.i += 1
                if x == 'captures':
                    self.parens()
            elif x == 'align' and self.peek(1) and self.peek(1).isdigit():
                self.i += 2
            elif x == 'align' and self.peek(1) == '(':
                self.i += 1
                self.parens()
            elif x in ('byval', 'sret', 'dereferenceable', 'dereferenceable_or_null', 'range', 'elementtype', 'memory',
                       'nofpclass', 'allocsize', 'initializes'):
                if x in ('byval', 'sret'):
                    raise Unsupported(x)
                self.i += 1
                if self.peek() == '(':
                    self.parens()
            elif x and x[0] == '#':
                self.i += 1
            else:
                return

    def parens(self):
        self.expect('(')
        d = 1
        while d:
            y = self.next()
            if y is None:
                raise Unsupported('parens')
            if y == '(':
                d += 1
            elif y == ')':
                d -= 1

    def value(self, t):
        x = self.next()
        if x is None:
            raise Unsupported('value')
        if x[0] == '%':
            return ('reg', x)
        if x[0] == '@':
            return ('glob', x)
        if re.fullmatch(r'-?\d+', x):
            if t[0] == 'i':
                return ('int', t[1], int(x))
            raise Unsupported('int const of type %r' % (t,))
        if x == 'true':
            return ('int', 1, 1)
        if x == 'false':
            return ('int', 1, 0)
        if x in ('null',):
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef', t)
        if x == 'zeroinitializer':
            return ('zero', t)
        if x == 'none':
            return ('null',)
        if x.startswith('c"'):
            return ('bytes', unescape(x[2:-1]))
        if x == '[' or x == '{' or (x == '<' and self.peek() == '{'):
            if x == '<':
                self.next()
            close = {'[': ']', '{': '}', '<': '}'}[x]
            el = []
            while not self.eat(close):
                et = self.type()
                el.append((et, self.value(et)))
                self.eat(',')
            if x == '<':
                self.expect('>')
            return ('agg', el)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            pt = self.type()
            b = self.value(pt)
            idx = []
            while self.eat(','):
                if self.peek() == 'inrange':
                    raise Unsupported('inrange')
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('gep', bt, b, idx)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            ft = self.type()
            v = self.value(ft)
            self.expect('to')
            tt = self.type()
            self.expect(')')
            return ('cast', x, ft, v, tt)
        if re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?', x):
            return ('fp', float(x))
        if x.startswith('0x'):
            import struct
            if x[2:3] in 'KMHRL':
                raise Unsupported('fp const')
            return ('fp', struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0])
        raise Unsupported('value %s' % x)

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext',
         'fptrunc', 'freeze'}
BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'fadd', 'fsub',
       'fmul', 'fdiv', 'frem'}


def parse_module(name, text):
    m = Module(name)
    # debug locations: !123 = !DILocation(line: 4, ...
    for mm in re.finditer(r'^(!\d+) = (?:distinct )?!DILocation\(line: (\d+)', text, re.M):
        m.dbg[mm.group(1)] = int(mm.group(2))
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if not l or l[0] in ';!' or l.startswith('source_filename') or l.startswith('target') or l.startswith(
                'attributes'):
            i += 1
            continue
        if l[0] == '%':
            nm, rest = l.split(' = type ', 1)
            m.types[nm.strip()] = P(m, rest).type()
            i += 1
            continue
        if l[0] == '@':
            parse_global(m, l)
            i += 1
            continue
        if l.startswith('declare'):
            mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
            m.decls.add('@' + mm.group(1))
            i += 1
            continue
        if l.startswith('define'):
            j = i + 1
            while lines[j] != '}':
                j += 1
            parse_func(m, lines[i:j])
            i = j + 1
            continue
        i += 1
    return m


def parse_global(m, l):
    nm, rest = l.split(' = ', 1)
    p = P(m, rest)
    g = {'internal': False, 'const': False, 'init': None, 'type': None, 'external': False}
    while True:
        x = p.peek()
        if x in ('private', 'internal'):
            g['internal'] = True
        elif x == 'external':
            g['external'] = True
        elif x in ('dso_local', 'unnamed_addr', 'local_unnamed_addr', 'common', 'hidden', 'weak', 'linkonce_odr',
                   'thread_local', 'appending', 'extern_weak'):
            pass
        else:
            break
        p.next()
    k = p.next()
    if k == 'alias':
        return
    g['const'] = (k == 'constant')
    g['type'] = p.type()
    if not g['external']:
        try:
            g['init'] = p.value(g['type'])
        except Unsupported:
            g['init'] = None
    m.globals[nm] = g


def parse_func(m, lines):
    f = Func()
    f.module = m
    f._loops = None
    f._preds = None
    h = lines[0]
    mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', h)
    f.name = mm.group(1)
    f.internal = ' internal ' in h[:mm.start()] or ' private ' in h[:mm.start()]
    p = P(m, h[len('define'):])
    while p.peek() in ('dso_local', 'internal', 'private', 'hidden', 'linkonce_odr', 'weak', 'available_externally'):
        p.next()
    p.attrs()
    f.ret = p.type()
    p.next()  # name
    p.expect('(')
    f.params = []
    f.vararg = False
    while not p.eat(')'):
        if p.eat('...'):
            f.vararg = True
            continue
        t = p.type()
        p.attrs()
        r = p.next()
        f.params.append((t, r))
        p.eat(',')
    f.blocks = {}
    f.order = []
    cur = None
    k = 1
    body = lines[1:]
    # join multi-line switch
    joined = []
    acc = None
    for l in body:
        if acc is not None:
            acc += ' ' + l.strip()
            if l.strip().startswith(']'):
                joined.append(acc)
                acc = None
            continue
        s = l.strip()
        if s.startswith('switch ') and s.endswith('['):
            acc = l
            continue
        joined.append(l)
    for l in joined:
        s = l.split(' ;')[0].rstrip() if not l.startswith('  ') else l
        if not s.strip() or s.strip().startswith(';'):
            continue
        if not l.startswith(' '):
            mm = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            cur = '%' + mm.group(1)
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        if cur is None:
            cur = '%entry0'
            f.blocks[cur] = []
            f.order.append(cur)
        ins = parse_ins(m, l.strip())
        if ins is not None:
            f.blocks[cur].append(ins)
    m.funcs[f.name] = f


def parse_ins(m, s):
    line = None
    mm = re.search(r', !dbg (!\d+)', s)
    if mm:
        line = m.dbg.get(mm.group(1))
    # strip trailing metadata
    s = re.sub(r'(, ![-a-zA-Z._]+ ![0-9]+)+$', '', s)
    p = P(m, s)
    res = None
    if p.peek() and p.peek()[0] == '%' and p.peek(1) == '=':
        res = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'notail', 'musttail'):
        op = p.next()
    if op in BIN:
        flags = []
        while p.peek() in ('nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'disjoint'):
            flags.append(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Ins(op, res, t, [a, b], line, tuple(flags))
    if op in ('icmp', 'fcmp'):
        pred = p.next()
        while pred in ('samesign', 'fast'):
            pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Ins(op, res, t, [pred, a, b], line)
    if op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        t = p.type()
        a = p.value(t)
        if op == 'freeze':
            return Ins(op, res, t, [a, t], line)
        p.expect('to')
        return Ins(op, res, p.type(), [a, t], line)
    if op == 'alloca':
        t = p.type()
        cnt = None
        if p.eat(','):
            if p.peek() != 'align':
                ct = p.type()
                cnt = (ct, p.value(ct))
        return Ins(op, res, t, [cnt], line)
    if op == 'load':
        while p.peek() in ('volatile', 'atomic'):
            if p.next() == 'atomic':
                raise Unsupported('atomic')
        t = p.type()
        p.expect(',')
        pt, a = p.tv()
        return Ins(op, res, t, [a], line)
    if op == 'store':
        while p.peek() in ('volatile', 'atomic'):
            if p.next() == 'atomic':
                raise Unsupported('atomic')
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt, a = p.tv()
        return Ins(op, None, t, [v, a], line)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = p.type()
        p.expect(',')
        pt, b = p.tv()
        idx = []
        while p.eat(','):
            idx.append(p.tv())
        return Ins(op, res, bt, [b, idx], line)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Ins(op, None, None, [p.next()], line)
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        b = p.next()
        return Ins(op, None, None, [c, a, b], line)
    if op == 'switch':
        t, v = p.tv()
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv, p.next()))
        return Ins(op, None, t, [v, d, cases], line)
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return Ins(op, None, t, [None], line)
        return Ins(op, None, t, [p.value(t)], line)
    if op == 'unreachable':
        return Ins(op, None, None, [], line)
    if op == 'call':
        p.attrs()
        t = p.type()
        if t[0] == 'fn':
            t = t[1]
        if p.peek() == 'asm':
            raise Unsupported('inline asm')
        callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.eat(')'):
            at = p.type()
            if at == ('metadata',):
                return None
            p.attrs()
            args.append((at, p.value(at)))
            p.eat(',')
        return Ins(op, res, t, [callee, args], line)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = p.next()
            p.expect(']')
            inc.append((v, b))
            if not p.eat(','):
                break
        return Ins(op, res, t, inc, line)
    if op == 'select':
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        p.type()
        b = p.value(t)
        return Ins(op, res, t, [c, a, b], line)
    if op == 'extractvalue':
        t = p.type()
        a = p.value(t)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return Ins(op, res, t, [a, idx], line)
    if op == 'fneg':
        t = p.type()
        return Ins(op, res, t, [p.value(t)], line)
    raise Unsupported('instruction %s' % s)


# ---- control flow ---------------------------------------------------------

def succs(b):
    t = b[-1]
    if t.op == 'br':
        return t.a if len(t.a) == 1 else [t.a[1], t.a[2]]
    if t.op == 'switch':
        return [t.a[1]] + [x[1] for x in t.a[2]]
    return []


def loops(f):
    """header -> set of blocks of the natural loop"""
    if f._loops is not None:
        return f._loops
    entry = f.order[0]
    sc = {b: list(dict.fromkeys(succs(f.blocks[b]))) for b in f.order}
    # reachable
    seen = set()
    st = [entry]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        st += sc[b]
    order = [b for b in f.order if b in seen]
    pr = {b: [] for b in order}
    for b in order:
        for s in sc[b]:
            pr[s].append(b)
    dom = {b: set(order) for b in order}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == entry:
                continue
            ps = [dom[x] for x in pr[b]]
            d = set.intersection(*ps) | {b} if ps else {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    L = {}
    # detect irreducible: DFS back edges whose target does not dominate
    color = {}

    def dfs(b):
        stack = [(b, iter(sc[b]))]
        color[b] = 1
        while stack:
            x, it = stack[-1]
            for s in it:
                if color.get(s) == 1 and s not in dom[x]:
                    raise Unsupported('irreducible control flow')
                if s not in color:
                    color[s] = 1
                    stack.append((s, iter(sc[s])))
                    break
            else:
                color[x] = 2
                stack.pop()

    dfs(entry)
    for b in order:
        for s in sc[b]:
            if s in dom[b]:
                body = L.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st += pr[x]
    f._loops = L
    return L
