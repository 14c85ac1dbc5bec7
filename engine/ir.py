"""LLVM IR text: build it from /repo's current sources, and parse it.

The parser covers the subset clang 18 emits for this code base at -O0 followed by
`opt -passes=sroa`; anything it does not know is kept as an ('unsupported', ...)
instruction, which the interpreter turns into an explicit "not analysed" outcome.
"""
import re, struct

TOK = re.compile(r'''
    \s+ | ;[^\n]* |
    (?P<str>c?"(?:[^"\\]|\\.)*") |
    (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) |
    (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) |
    (?P<meta>!(?:[-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*")?) |
    (?P<attr>\#[0-9]+) |
    (?P<num>0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|-?[0-9]+) |
    (?P<word>[a-zA-Z_$][-a-zA-Z$._0-9]*) |
    (?P<p>\.\.\.|[\[\]{}()<>,=*|:])
''', re.X)


def unq(s):
    """%"a\\22b" -> a"b ; strips the sigil."""
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
        s = re.sub(r'\\([0-9a-fA-F]{2})', lambda m: chr(int(m.group(1), 16)), s)
    return s


def tokenize(text):
    out = []
    pos = 0
    n = len(text)
    m = TOK.match
    while pos < n:
        k = m(text, pos)
        if not k:
            raise ValueError('lex error at %r' % text[pos:pos + 60])
        pos = k.end()
        g = k.lastgroup
        if g is None:
            continue
        v = k.group(g)
        if g == 'num' and v.startswith('0x'):
            out.append(('num', v))
        else:
            out.append((g, v))
    out.append(('eof', ''))
    return out


# ---- types: ('int',n) ('ptr',) ('void',) ('fp',name) ('arr',n,T) ('struct',packed,(T..)) ('named',name) ('label',) ('fn',...)
VOID = ('void',)
PTR = ('ptr',)
FPS = {'half', 'float', 'double', 'x86_fp80', 'fp128', 'bfloat', 'ppc_fp128'}
PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
               'writeonly', 'returned', 'immarg', 'dead_on_unwind', 'writable', 'nest', 'swiftself', 'swifterror',
               'allocptr', 'noreturn', 'nounwind', 'nofree', 'allocalign'}
PARAM_ATTRS_ARG = {'sret', 'byval', 'align', 'dereferenceable', 'dereferenceable_or_null', 'byref', 'preallocated',
                   'inalloca', 'elementtype', 'nofpclass', 'range', 'memory'}
FAST = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
           'dllimport', 'dllexport', 'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized',
           'fastcc', 'ccc', 'coldcc'}


class P:
    """token cursor"""
    def __init__(self, text):
        self.t = tokenize(text)
        self.i = 0

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def accept(self, v):
        if self.t[self.i][1] == v and self.t[self.i][0] in ('word', 'p'):
            self.i += 1
            return True
        return False

    def expect(self, v):
        t = self.next()
        if t[1] != v:
            raise ValueError('expected %s got %s near %s' % (v, t, self.t[max(0, self.i - 6):self.i + 4]))

    def eof(self):
        return self.t[self.i][0] == 'eof'

    def type(self):
        g, v = self.next()
        if g == 'word':
            if v == 'ptr':
                ty = PTR
                if self.accept('addrspace'):
                    self.expect('('); self.next(); self.expect(')')
            elif v == 'void':
                ty = VOID
            elif v in FPS:
                ty = ('fp', v)
            elif re.fullmatch(r'i[0-9]+', v):
                ty = ('int', int(v[1:]))
            elif v in ('label', 'metadata', 'token', 'opaque'):
                ty = (v,)
            else:
                raise ValueError('type? %s' % v)
        elif g == 'loc':
            ty = ('named', unq(v))
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']')
            ty = ('arr', n, e)
        elif v == '{':
            ty = ('struct', False, self._fields('}'))
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                f = self._fields('}')
                self.expect('>')
                ty = ('struct', True, f)
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>')
                ty = ('vec', n, e)
        else:
            raise ValueError('type? %s %s' % (g, v))
        while self.peek() == ('p', '('):   # function type
            self.next()
            args = []
            while not self.accept(')'):
                if self.accept('...'):
                    args.append(('...',))
                else:
                    args.append(self.type()); self.attrs()
                self.accept(',')
            ty = ('fn', ty, tuple(args))
        while self.accept('*'):
            ty = PTR
        return ty

    def _fields(self, close):
        f = []
        while not self.accept(close):
            f.append(self.type())
            self.accept(',')
        return tuple(f)

    def attrs(self):
        """skip parameter attributes; return dict of those with arguments that matter"""
        d = {}
        while True:
            g, v = self.peek()
            if g == 'word' and v in PARAM_ATTRS:
                self.next(); d[v] = True
            elif g == 'word' and v in PARAM_ATTRS_ARG:
                self.next()
                if self.peek()[1] == '(':
                    depth = 0
                    start = self.i
                    while True:
                        t = self.next()
                        if t[1] == '(':
                            depth += 1
                        elif t[1] == ')':
                            depth -= 1
                            if depth == 0:
                                break
                    d[v] = self.t[start + 1:self.i - 1]
                elif v == 'align':
                    self.next()
            elif g == 'str' or g == 'attr':
                self.next()
                if self.peek()[1] == '=':
                    self.next(); self.next()
            else:
                return d

    def value(self, ty):
        """operand of the given type"""
        g, v = self.next()
        if g == 'loc':
            return ('r', unq(v))
        if g == 'glob':
            return ('g', unq(v))
        if g == 'num':
            if ty[0] == 'fp':
                return ('f', ty[1], v)
            return ('c', int(v, 0))
        if g == 'str':
            return ('bytes', cstr(v))
        if g == 'meta':
            return ('md',)
        if g == 'word':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('undef',)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nusw', 'nuw', 'inrange'):
                    self.next()
                    if self.peek()[1] == '(' and self.t[self.i - 1][1] == 'inrange':
                        while self.next()[1] != ')':
                            pass
                self.expect('(')
                sty = self.type(); self.expect(',')
                ops = []
                while True:
                    while self.accept('inrange'):
                        pass
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if not self.accept(','):
                        break
                self.expect(')')
                return ('cgep', sty, tuple(ops))
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                t = self.type(); x = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
                return ('ccast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
                while self.peek()[1] in ('nuw', 'nsw'):
                    self.next()
                self.expect('(')
                t = self.type(); a = self.value(t); self.expect(',')
                t2 = self.type(); b = self.value(t2); self.expect(')')
                return ('cbin', v, t, a, b)
            raise ValueError('value? %s' % v)
        if v == '[':
            es = []
            while not self.accept(']'):
                t = self.type(); es.append((t, self.value(t))); self.accept(',')
            return ('agg', tuple(es))
        if v == '{':
            es = []
            while not self.accept('}'):
                t = self.type(); es.append((t, self.value(t))); self.accept(',')
            return ('agg', tuple(es))
        if v == '<':
            if self.accept('{'):
                es = []
                while not self.accept('}'):
                    t = self.type(); es.append((t, self.value(t))); self.accept(',')
                self.expect('>')
                return ('agg', tuple(es))
            es = []
            while not self.accept('>'):
                t = self.type(); es.append((t, self.value(t))); self.accept(',')
            return ('agg', tuple(es))
        raise ValueError('value? %s %s' % (g, v))

    def tv(self):
        t = self.type()
        self.attrs()
        return (t, self.value(t))


def cstr(v):
    s = v[2:-1] if v.startswith('c"') else v[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\' and s[i + 1] == '\\':
            out.append(92); i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Function:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'entry', 'dbg', 'dem', 'linkage', 'attrs', 'noreturn',
                 'loopheads', 'ninst', 'file', 'preds')

    def __repr__(self):
        return '<fn %s>' % self.name


class Global:
    __slots__ = ('name', 'type', 'init', 'const', 'linkage', 'tls')


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.functions = {}
        self.declares = {}
        self.md = {}
        self.ptrsize = 8
        self.i64align = 8
        self.ctors = []
        self.attr_groups = {}

    # ---- layout
    def sizealign(self, ty):
        k = ty[0]
        if k == 'int':
            n = ty[1]
            s = 1
            while s * 8 < n:
                s *= 2
            a = min(s, 16)
            if s == 8:
                a = self.i64align
            return s, a
        if k == 'ptr':
            return self.ptrsize, self.ptrsize
        if k == 'fp':
            n = ty[1]
            if n == 'double':
                return 8, self.i64align
            if n == 'x86_fp80':
                return (16, 16) if self.ptrsize == 8 else (12, 4)
            return {'float': (4, 4), 'half': (2, 2), 'fp128': (16, 16), 'bfloat': (2, 2), 'ppc_fp128': (16, 16)}[n]
        if k == 'arr':
            s, a = self.sizealign(ty[2])
            return s * ty[1], a
        if k == 'vec':
            s, a = self.sizealign(ty[2])
            return s * ty[1], s * ty[1]
        if k == 'named':
            return self.sizealign(self.types[ty[1]])
        if k == 'struct':
            off = 0
            al = 1
            for f in ty[2]:
                s, a = self.sizealign(f)
                if ty[1]:
                    a = 1
                al = max(al, a)
                off = (off + a - 1) // a * a + s
            off = (off + al - 1) // al * al
            return off, al
        raise ValueError('size of %s' % (ty,))

    def sizeof(self, ty):
        c = self._sz.get(ty)
        if c is None:
            c = self._sz[ty] = self.sizealign(ty)[0]
        return c
    _sz = {}

    def resolve(self, ty):
        while ty[0] == 'named':
            ty = self.types[ty[1]]
        return ty

    def field_offset(self, ty, i):
        key = (ty, i)
        c = self._fo.get(key)
        if c is not None:
            return c
        off = 0
        for j, f in enumerate(ty[2]):
            s, a = self.sizealign(f)
            if ty[1]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                self._fo[key] = off
                return off
            off += s
        raise IndexError(i)

    def loc(self, dbg):
        """(file, line) of a !dbg node id"""
        seen = 0
        d = self.md.get(dbg)
        if not d:
            return None
        line = d.get('line', '0')
        sc = d.get('scope')
        f = None
        while sc and seen < 20:
            s = self.md.get(sc)
            if not s:
                break
            if s.get('file'):
                fd = self.md.get(s['file'])
                if fd:
                    f = fd.get('filename')
                    break
            sc = s.get('scope')
            seen += 1
        return (f or '?', int(line))


def parse_module(text):
    M = Module()
    M._sz = {}
    M._fo = {}
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] == ';':
            continue
        if ln.startswith('target datalayout'):
            if re.search(r'-p:32:32', ln):
                M.ptrsize = 4
            M.i64align = 8 if re.search(r'-i64:64', ln) else 4
        elif ln[0] == '%':
            p = P(ln)
            name = unq(p.next()[1]); p.expect('='); p.expect('type')
            if p.peek()[1] == 'opaque':
                M.types[name] = ('struct', False, ())
            else:
                M.types[name] = p.type()
        elif ln[0] == '@':
            _global(M, ln)
        elif ln.startswith('define'):
            body = []
            while lines[i] != '}':
                body.append(lines[i]); i += 1
            i += 1
            _function(M, ln, body)
        elif ln.startswith('declare'):
            p = P(ln[len('declare'):])
            f = _header(p, M)
            M.declares[f.name] = f
        elif ln[0] == '!':
            m = re.match(r'!(\d+) = (?:distinct )?!DI(\w+)\((.*)\)\s*$', ln)
            if m:
                d = {'kind': m.group(2)}
                for k, v in re.findall(r'(\w+): (!?"(?:[^"\\]|\\.)*"|[^,()]+)', m.group(3)):
                    d[k] = v.strip().strip('"')
                for k in ('scope', 'file', 'inlinedAt'):
                    if k in d:
                        d[k] = d[k].lstrip('!')
                M.md[m.group(1)] = d
        elif ln.startswith('attributes'):
            m = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
            M.attr_groups[m.group(1)] = m.group(2)
    for f in list(M.functions.values()) + list(M.declares.values()):
        f.noreturn = any('noreturn' in M.attr_groups.get(a, '') for a in f.attrs)
    return M


def _global(M, ln):
    p = P(ln)
    g = Global()
    g.name = unq(p.next()[1])
    p.expect('=')
    g.linkage = ''
    g.const = False
    g.tls = False
    while True:
        t = p.peek()
        if t[0] == 'word' and t[1] in LINKAGE:
            p.next()
            if t[1] == 'thread_local':
                g.tls = True
                if p.peek()[1] == '(':
                    while p.next()[1] != ')':
                        pass
            if t[1] in ('private', 'internal', 'external', 'linkonce_odr', 'appending'):
                g.linkage = t[1]
        elif t[1] in ('constant', 'global'):
            p.next()
            g.const = t[1] == 'constant'
            break
        elif t[1] in ('alias', 'ifunc'):
            p.next()
            ty = p.type()
            p.expect(',')
            t2 = p.type()
            M.globals[g.name] = g
            g.type = ty
            g.init = ('alias', p.value(t2))
            return
        else:
            raise ValueError('global? %s' % (t,))
    g.type = p.type()
    g.init = None
    if not p.eof() and p.peek()[1] != ',' and p.peek()[0] != 'meta':
        g.init = p.value(g.type)
    M.globals[g.name] = g


def _header(p, M):
    f = Function()
    f.linkage = ''
    f.dbg = None
    while p.peek()[0] == 'word' and p.peek()[1] in LINKAGE:
        w = p.next()[1]
        if w in ('internal', 'linkonce_odr', 'weak_odr', 'private'):
            f.linkage = w
    p.attrs()
    f.ret = p.type()
    p.attrs()
    f.name = unq(p.next()[1])
    f.params = []
    p.expect('(')
    while not p.accept(')'):
        if p.accept('...'):
            f.params.append((('...',), None, {}))
            continue
        t = p.type()
        a = p.attrs()
        nm = None
        if p.peek()[0] == 'loc':
            nm = unq(p.next()[1])
        elif p.peek()[0] == 'meta':
            p.next()
        f.params.append((t, nm, a))
        p.accept(',')
    f.attrs = []
    while not p.eof():
        t = p.next()
        if t[0] == 'attr':
            f.attrs.append(t[1])
        if t == ('meta', '!dbg'):
            f.dbg = p.next()[1].lstrip('!')
    f.blocks = None
    f.dem = f.name
    return f


def _function(M, header, body):
    p = P(header[len('define'):].rstrip().rstrip('{'))
    f = _header(p, M)
    f.blocks = {}
    f.order = []
    cur = None
    # unnamed params / entry block get implicit numbers
    cnt = 0
    ps = []
    for (t, nm, a) in f.params:
        if nm is None and t[0] != '...':
            nm = str(cnt); cnt += 1
        elif nm is not None and nm.isdigit():
            cnt = int(nm) + 1
        ps.append((t, nm, a))
    f.params = ps
    insts = []
    for ln in body:
        if not ln.strip():
            continue
        if ln[0] not in ' \t':
            m = re.match(r'((?:"(?:[^"\\]|\\.)*")|[-a-zA-Z$._0-9]+):', ln)
            if m:
                nm = m.group(1)
                if nm.startswith('"'):
                    nm = unq('%' + nm)
                insts.append(('label', nm))
            continue
        if (ln.startswith('  ') and len(ln) > 2 and ln[2] not in ' ]\t'):
            insts.append(ln)
        else:
            insts[-1] = insts[-1] + '\n' + ln
    if not (insts and insts[0][0] == 'label' and isinstance(insts[0], tuple)):
        insts.insert(0, ('label', str(cnt)))
    for x in insts:
        if isinstance(x, tuple):
            cur = x[1]
            f.blocks[cur] = []
            f.order.append(cur)
        else:
            f.blocks[cur].append(_inst(x))
    f.entry = f.order[0]
    f.ninst = sum(len(b) for b in f.blocks.values())
    d = M.md.get(f.dbg) if f.dbg else None
    f.file = None
    M.functions[f.name] = f
    # loop heads: targets of back edges in a DFS
    succ = {b: _succs(f.blocks[b][-1]) for b in f.order}
    f.loopheads = set()
    color = {}
    stack = [(f.entry, iter(succ[f.entry]))]
    color[f.entry] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color.get(s) == 1:
                f.loopheads.add(s)
            elif s not in color:
                color[s] = 1
                stack.append((s, iter(succ[s])))
                break
        else:
            color[b] = 2
            stack.pop()


def _succs(ins):
    op = ins.op
    if op == 'br':
        return list(ins.a[1:]) if ins.a[0] is not None else [ins.a[1]]
    if op == 'switch':
        return [ins.a[1]] + [l for _, l in ins.a[2]]
    if op == 'invoke':
        return [ins.extra[0], ins.extra[1]]
    return []


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'extra', 'dbg', 'text')

    def __init__(self):
        self.res = None
        self.ty = None
        self.a = ()
        self.extra = None
        self.dbg = None
        self.text = ''

    def __repr__(self):
        return self.text.strip()


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
        'bitcast', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'samesign'} | FAST


def _inst(text):
    ins = Inst()
    ins.text = text
    m = re.search(r'!dbg !(\d+)', text)
    if m:
        ins.dbg = m.group(1)
    try:
        p = P(text)
        _inst1(p, ins)
    except ValueError as e:
        ins.op = 'unsupported'
        ins.a = (str(e),)
    return ins


def _inst1(p, ins):
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        ins.res = unq(p.next()[1])
        p.next()
    op = p.next()[1]
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    ins.op = op
    if op in BIN:
        flags = set()
        while p.peek()[1] in FLAGS:
            flags.add(p.next()[1])
        ins.ty = p.type()
        a = p.value(ins.ty); p.expect(','); b = p.value(ins.ty)
        ins.a = (a, b)
        ins.extra = flags
    elif op == 'fneg':
        while p.peek()[1] in FLAGS:
            p.next()
        ins.ty = p.type()
        ins.a = (p.value(ins.ty),)
    elif op in CAST:
        flags = set()
        while p.peek()[1] in FLAGS:
            flags.add(p.next()[1])
        t = p.type(); v = p.value(t); p.expect('to')
        ins.ty = p.type()
        ins.a = (t, v)
    elif op in ('icmp', 'fcmp'):
        while p.peek()[1] in FLAGS:
            p.next()
        pred = p.next()[1]
        ins.ty = p.type()
        a = p.value(ins.ty); p.expect(','); b = p.value(ins.ty)
        ins.a = (pred, a, b)
    elif op == 'select':
        while p.peek()[1] in FLAGS:
            p.next()
        c = p.tv(); p.expect(','); a = p.tv(); p.expect(','); b = p.tv()
        ins.ty = a[0]
        ins.a = (c[1], a[1], b[1])
        ins.extra = c[0]
    elif op == 'phi':
        while p.peek()[1] in FLAGS:
            p.next()
        ins.ty = p.type()
        inc = {}
        while True:
            p.expect('['); v = p.value(ins.ty); p.expect(','); l = unq(p.next()[1]); p.expect(']')
            inc[l] = v
            if not p.accept(','):
                break
            if p.peek()[0] == 'meta':
                break
        ins.a = inc
    elif op == 'br':
        if p.accept('label'):
            ins.a = (None, unq(p.next()[1]))
        else:
            t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = unq(p.next()[1])
            p.expect(','); p.expect('label'); b = unq(p.next()[1])
            ins.a = (c, a, b)
    elif op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = unq(p.next()[1]); p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv[1], unq(p.next()[1])))
        ins.ty = t
        ins.a = (v, d, cases)
    elif op == 'ret':
        t = p.type()
        ins.ty = t
        ins.a = () if t == VOID else (p.value(t),)
    elif op in ('unreachable', 'fence'):
        pass
    elif op == 'resume':
        ins.a = (p.tv(),)
    elif op == 'alloca':
        p.accept('inalloca')
        ins.ty = p.type()
        cnt = ('c', 1)
        if p.accept(',') and p.peek()[1] != 'align':
            t = p.type(); cnt = p.value(t)
        ins.a = (cnt,)
    elif op == 'load':
        p.accept('atomic')
        ins.extra = p.accept('volatile')
        ins.ty = p.type(); p.expect(','); t = p.type(); ins.a = (p.value(t),)
    elif op == 'store':
        p.accept('atomic')
        ins.extra = p.accept('volatile')
        t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); ins.a = (t, v, p.value(pt))
    elif op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nusw', 'nuw'):
            p.next()
        sty = p.type(); p.expect(',')
        ops = []
        while True:
            t = p.type(); ops.append((t, p.value(t)))
            if not p.accept(','):
                break
            if p.peek()[0] == 'meta':
                break
        ins.ty = sty
        ins.a = tuple(ops)
    elif op in ('extractvalue', 'insertvalue'):
        t = p.type(); v = p.value(t)
        if op == 'insertvalue':
            p.expect(',')
            t2 = p.type(); v2 = p.value(t2)
        idx = []
        while p.accept(','):
            if p.peek()[0] != 'num':
                break
            idx.append(int(p.next()[1]))
        ins.ty = t
        ins.a = (v, tuple(idx)) if op == 'extractvalue' else (v, v2, tuple(idx))
    elif op in ('call', 'invoke'):
        while p.peek()[0] == 'word' and (p.peek()[1] in LINKAGE or p.peek()[1] in FLAGS):
            p.next()
        p.attrs()
        rt = p.type()
        p.attrs()
        if rt[0] == 'fn':
            rt = rt[1]
        ins.ty = rt
        callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            t = p.type()
            at = p.attrs()
            if t == ('metadata',):
                while p.peek()[1] not in (',', ')'):
                    if p.peek()[1] == '(':
                        d = 0
                        while True:
                            q = p.next()[1]
                            d += (q == '(') - (q == ')')
                            if d == 0:
                                break
                    else:
                        p.next()
                args.append((t, ('md',), at))
            else:
                args.append((t, p.value(t), at))
            p.accept(',')
        ins.a = (callee, args)
        attrs = []
        while p.peek()[0] in ('attr', 'str'):
            attrs.append(p.next()[1])
        if op == 'invoke':
            while p.peek()[1] != 'to':
                p.next()
            p.expect('to'); p.expect('label'); a = unq(p.next()[1]); p.expect('unwind'); p.expect('label')
            b = unq(p.next()[1])
            ins.extra = (a, b)
    elif op == 'landingpad':
        ins.ty = p.type()
        cl = []
        while not p.eof():
            t = p.next()
            if t[1] == 'cleanup':
                cl.append(('cleanup',))
            elif t[1] == 'catch':
                ty = p.type(); cl.append(('catch', p.value(ty)))
            elif t[1] == 'filter':
                ty = p.type(); cl.append(('filter', p.value(ty)))
            else:
                break
        ins.a = tuple(cl)
    elif op == 'freeze':
        t = p.type()
        ins.ty = t
        ins.a = (p.value(t),)
    else:
        raise ValueError('op %s' % op)


def fp_const(ty, txt):
    """exact value of an LLVM fp literal as (kind, python value)"""
    if txt.startswith('0xK'):
        v = int(txt[3:], 16)
        return ('x87', v)
    if txt.startswith('0x'):
        return ('d', struct.unpack('>d', bytes.fromhex(txt[2:].rjust(16, '0')))[0])
    return ('d', float(txt))
