"""Parser for the subset of textual LLVM IR (clang 18, opaque pointers) that the harnesses need."""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<name>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?)
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<word>[a-zA-Z_.$][-a-zA-Z0-9_.$]*)
 | (?P<dots>\.\.\.)
 | (?P<punct>[()\[\]{}<>,=*|:])
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        mm = m(s, pos)
        if mm is None:
            if s[pos] == ';':
                break
            raise ParseError('tokenize: %r' % s[pos:pos + 60])
        k = mm.lastgroup
        if k != 'ws':
            out.append((k, mm.group()))
        pos = mm.end()
    out.append(('eof', ''))
    return out


PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'returned',
               'signext', 'zeroext', 'inreg', 'nest', 'immarg', 'swiftself', 'nofree', 'dead_on_unwind',
               'writable', 'allocptr', 'noreturn', 'inbounds', 'local_unnamed_addr', 'unnamed_addr', 'dso_local',
               'nsw', 'nuw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
               'reassoc', 'volatile', 'tail', 'musttail', 'notail', 'samesign', 'hidden', 'linkonce_odr', 'fastcc',
               'ccc', 'coldcc', 'internal', 'private', 'available_externally', 'weak_odr', 'weak', 'external',
               'mustprogress', 'atomic', 'initializes'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'inalloca',
                   'elementtype', 'range', 'nofpclass', 'allocalign', 'alignstack', 'preallocated'}


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i][1]

    def kind(self):
        return self.t[self.i][0]

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r[1]

    def accept(self, s):
        if self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if self.t[self.i][1] != s:
            raise ParseError('expected %s got %s in %s' % (s, self.peek(), ' '.join(x[1] for x in self.t)))
        self.i += 1

    def skip_attrs(self):
        out = []
        while True:
            w = self.peek()
            if self.kind() == 'attr':
                self.i += 1
                continue
            if w in PARAM_ATTRS and self.kind() == 'word':
                self.i += 1
                out.append(w)
            elif w in PARAM_ATTRS_ARG and self.kind() == 'word':
                self.i += 1
                out.append(w)
                if self.peek() == '(':
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                elif self.kind() == 'num':
                    self.i += 1
            else:
                return out

    def type(self):
        k, w = self.t[self.i]
        self.i += 1
        if k == 'word':
            if w[0] == 'i' and w[1:].isdigit():
                ty = ('i', int(w[1:]))
            elif w in ('double', 'float', 'x86_fp80', 'half', 'fp128'):
                ty = ('f', w)
            elif w == 'ptr':
                ty = ('ptr',)
            elif w == 'void':
                ty = ('void',)
            elif w in ('label', 'metadata', 'token', 'opaque'):
                ty = (w,)
            else:
                raise ParseError('type? ' + w + ' in ' + ' '.join(x[1] for x in self.t))
        elif w == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            ty = ('arr', n, e)
        elif w == '{':
            ty = ('st', self.typelist('}'), False)
        elif w == '<':
            if self.peek() == '{':
                self.i += 1
                ty = ('st', self.typelist('}'), True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                ty = ('vec', n, e)
        elif k == 'name':
            ty = ('named', w)
        else:
            raise ParseError('type? %r in %s' % (w, ' '.join(x[1] for x in self.t)))
        # function type suffix
        while self.peek() == '(' and ty[0] != 'label':
            self.i += 1
            args = []
            va = False
            while not self.accept(')'):
                if self.accept('...'):
                    va = True
                else:
                    args.append(self.type())
                    self.skip_attrs()
                self.accept(',')
            ty = ('func', ty, tuple(args), va)
        return ty

    def typelist(self, end):
        out = []
        while not self.accept(end):
            out.append(self.type())
            self.accept(',')
        return tuple(out)

    def value(self, ty):
        """returns a value node: ('reg',name) ('glob',name) ('int',v) ('fp',bits) ('null',) ('undef',) ('zero',)
           ('agg',[ (ty,val) ]) ('str',bytes) ('ce',op,...)"""
        k, w = self.t[self.i]
        self.i += 1
        if k == 'name':
            return ('reg', w) if w[0] == '%' else ('glob', w)
        if k == 'num':
            if ty[0] == 'f':
                return ('fp', float(w))
            return ('int', int(w))
        if k == 'hex':
            if w[2] in 'KLMHR':
                return ('fpraw', w)
            return ('fp', struct.unpack('>d', struct.pack('>Q', int(w, 16)))[0])
        if k == 'cstr':
            return ('str', unescape(w[2:-1]))
        if w == 'true':
            return ('int', 1)
        if w == 'false':
            return ('int', 0)
        if w == 'null' or w == 'none':
            return ('null',)
        if w in ('undef', 'poison'):
            return ('undef',)
        if w == 'zeroinitializer':
            return ('zero',)
        if w in ('[', '{', '<'):
            if w == '<' and self.peek() == '{':
                self.i += 1
                r = self.agg('}')
                self.expect('>')
                return r
            return self.agg({'[': ']', '{': '}', '<': '>'}[w])
        if k == 'meta':
            if self.peek() == '(' or (w == '!' and self.peek() == '{'):
                self.balanced()
            return ('meta',)
        if w == 'getelementptr':
            self.skip_attrs()
            if self.peek() == 'inrange':
                self.next()
                if self.peek() == '(':
                    self.balanced()
            self.expect('(')
            t = self.type()
            self.expect(',')
            ops = []
            while not self.accept(')'):
                self.accept('inrange')
                tt = self.type()
                self.skip_attrs()
                ops.append((tt, self.value(tt)))
                self.accept(',')
            return ('ce', 'gep', t, ops)
        if w in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ce', w, t, v, t2)
        if w in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            self.skip_attrs()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('ce', w, t, a, b)
        if w == 'dso_local_equivalent' or w == 'no_cfi':
            return self.value(ty)
        raise ParseError('value? %r in %s' % (w, ' '.join(x[1] for x in self.t)))

    def balanced(self):
        d = 0
        while True:
            x = self.next()
            if x in '({[':
                d += 1
            elif x in ')}]':
                d -= 1
                if d == 0:
                    return

    def agg(self, end):
        out = []
        while not self.accept(end):
            t = self.type()
            out.append((t, self.value(t)))
            self.accept(',')
        return ('agg', out)

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return (t, self.value(t))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin1', 'replace')
            i += 1
    return bytes(out)


class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'vararg', 'subprograms', 'dbgs')


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}   # name -> (ty, init or None)
        self.aliases = {}
        self.funcs = {}
        self.decls = set()
        self.raw = {}       # function name -> raw text (lazy parsing)
        self.ctors = []
        self.meta = {}

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            if n <= 1:
                return 1
            p = 1
            while p < n:
                p *= 2
            return p
        if k == 'f':
            return {'double': 8, 'float': 4, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t[1]]
        if k == 'ptr':
            return 8
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'st':
            return self.layout(t)[1]
        if k == 'void':
            return 0
        raise ParseError('size of %r' % (t,))

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'arr':
            return self.align(t[2])
        if k == 'st':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] or [1])
        if k == 'void':
            return 1
        return min(16, self.size(t))

    def layout(self, t):
        c = getattr(self, '_lay', None)
        if c is None:
            c = self._lay = {}
        r = c.get(t)
        if r is not None:
            return r
        off = 0
        offs = []
        al = 1
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        size = (off + al - 1) // al * al
        c[t] = (offs, size)
        return c[t]


def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] == ';' or ln.startswith('source_filename') or ln.startswith('target ') \
                or ln[0] == '$' or ln.startswith('attributes') or ln.startswith('module asm'):
            continue
        if ln[0] == '!':
            m = re.match(r'!(\d+) = (?:distinct )?(.*)', ln)
            if m:
                mod.meta[m.group(1)] = m.group(2)
            continue
        if ln[0] == '%':
            p = P(tokenize(ln), mod)
            name = p.next()
            p.expect('=')
            p.expect('type')
            mod.types[name] = p.type()
            continue
        if ln[0] == '@':
            parse_global(ln, mod)
            continue
        if ln.startswith('declare'):
            m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\s*\(', ln)
            mod.decls.add('@' + m.group(1))
            continue
        if ln.startswith('define'):
            m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\s*\(', ln)
            body = [ln]
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            i += 1
            mod.raw['@' + m.group(1)] = body
            continue
        raise ParseError('line: ' + ln[:100])
    return mod


def parse_global(ln, mod):
    # strip metadata/section suffix
    p = P(tokenize(ln), mod)
    name = p.next()
    p.expect('=')
    external = False
    while True:
        w = p.peek()
        if w in ('global', 'constant'):
            p.next()
            break
        if w == 'alias':
            p.next()
            p.type()
            p.expect(',')
            t = p.type()
            mod.aliases[name] = p.value(t)
            return
        if w in ('external', 'extern_weak'):
            external = True
        if w == 'thread_local':
            p.next()
            if p.peek() == '(':
                p.balanced()
            continue
        p.next()
    t = p.type()
    if external or p.peek() in (',', ''):
        mod.globals[name] = (t, None)
    else:
        mod.globals[name] = (t, p.value(t))
    if name == '@llvm.global_ctors':
        init = mod.globals.pop(name)[1]
        if init[0] == 'agg':
            for (_, e) in init[1]:
                mod.ctors.append((e[1][0][1][1], e[1][1][1][1]))


LABEL = re.compile(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):')


def parse_func(mod, name):
    f = mod.funcs.get(name)
    if f is not None:
        return f
    body = mod.raw[name]
    f = Func()
    f.name = name
    hdr = body[0]
    toks = tokenize(re.sub(r'\s*\{\s*$', '', hdr))
    p = P(toks, mod)
    p.expect('define')
    while True:
        p.skip_attrs()
        if p.kind() == 'word' and p.peek() in ('comdat', 'protected', 'preserve_mostcc', 'linkonce', 'common'):
            p.next()
            continue
        break
    f.ret = p.type()
    p.skip_attrs()
    assert p.next() == name, (hdr, name)
    p.expect('(')
    f.params = []
    f.vararg = False
    nn = 0
    while not p.accept(')'):
        if p.accept('...'):
            f.vararg = True
            continue
        t = p.type()
        p.skip_attrs()
        if p.kind() == 'name':
            nm = p.next()
        else:
            nm = '%%%d' % nn
        nn += 1
        f.params.append((t, nm))
        p.accept(',')
    m = re.search(r'!dbg !(\d+)', hdr)
    f.dbgs = set()
    f.blocks = {}
    f.order = []
    cur = None
    curname = None
    stmts = []
    j = 1
    first = True
    while j < len(body):
        ln = body[j]
        j += 1
        if not ln.strip() or ln.lstrip()[0] == ';':
            continue
        if ln[0] != ' ':
            m = LABEL.match(ln)
            if not m:
                raise ParseError('label? ' + ln)
            curname = '%' + m.group(1)
            cur = []
            f.blocks[curname] = cur
            f.order.append(curname)
            first = False
            continue
        if first:
            curname = '%%%d' % len(f.params)
            cur = []
            f.blocks[curname] = cur
            f.order.append(curname)
            first = False
        s = ln
        if s.rstrip().endswith('['):
            while True:
                s += ' ' + body[j].strip()
                j += 1
                if body[j - 1].strip().startswith(']'):
                    break
        while j < len(body) and body[j].startswith('          '):
            s += ' ' + body[j].strip()
            j += 1
        cur.append(parse_inst(s, mod, f))
    f.subprograms = subprogs(mod, f.dbgs)
    mod.funcs[name] = f
    return f


def subprogs(mod, dbgs):
    """Source functions whose instructions occur in this IR function (via inlining info)."""
    cache = getattr(mod, '_dl', None)
    if cache is None:
        cache = mod._dl = {}
    out = set()
    seen = set()
    stack = list(dbgs)
    while stack:
        d = stack.pop()
        if d in seen:
            continue
        seen.add(d)
        s = mod.meta.get(d, '')
        if s.startswith('!DILocation'):
            for k in ('scope', 'inlinedAt'):
                m = re.search(k + r': !(\d+)', s)
                if m:
                    stack.append(m.group(1))
        elif s.startswith('!DISubprogram'):
            out.add(d)
        elif s.startswith('!DILexicalBlock'):
            m = re.search(r'scope: !(\d+)', s)
            if m:
                stack.append(m.group(1))
    return out


METATAIL = re.compile(r'(?:, ![-a-zA-Z.]+ ![-a-zA-Z0-9.]+(?:\([^)]*\))?)+\s*$|, ![a-z_.]+ !\{\}\s*$')

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
        'bitcast', 'addrspacecast'}


def parse_inst(s, mod, f):
    m = re.search(r'!dbg !(\d+)', s)
    if m:
        f.dbgs.add(m.group(1))
    s = METATAIL.sub('', s)
    s = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+\s*$', '', s)
    p = P(tokenize(s), mod)
    dst = None
    if p.kind() == 'name' and p.t[1][1] == '=':
        dst = p.next()
        p.next()
    while p.peek() in ('tail', 'musttail', 'notail'):
        p.next()
    op = p.next()
    if op in BIN:
        fl = p.skip_attrs()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return (op, dst, t, a, b, fl)
    if op == 'fneg':
        p.skip_attrs()
        t = p.type()
        return (op, dst, t, p.value(t))
    if op in ('icmp', 'fcmp'):
        p.skip_attrs()
        pr = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return (op, dst, t, pr, a, b)
    if op in CAST:
        p.skip_attrs()
        t = p.type()
        v = p.value(t)
        p.expect('to')
        return (op, dst, t, v, p.type())
    if op == 'ret':
        t = p.type()
        if t[0] == 'void':
            return (op, None, t, None)
        return (op, None, t, p.value(t))
    if op == 'br':
        t = p.type()
        if t[0] == 'label':
            return (op, None, None, p.next(), None)
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        return (op, None, c, a, p.next())
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()))
        return (op, None, t, v, d, cases)
    if op == 'phi':
        p.skip_attrs()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            inc.append((v, p.next()))
            p.expect(']')
            if not p.accept(','):
                break
        return (op, dst, t, inc)
    if op == 'select':
        p.skip_attrs()
        c = p.tv()
        p.expect(',')
        a = p.tv()
        p.expect(',')
        b = p.tv()
        return (op, dst, a[0], c, a[1], b[1])
    if op in ('call', 'invoke'):
        p.skip_attrs()
        rt = p.type()
        p.skip_attrs()
        if rt[0] == 'func':
            rt = rt[1]
        if p.peek() == 'asm':
            return ('asm', dst)
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        while not p.accept(')'):
            t = p.type()
            at = p.skip_attrs()
            if t[0] == 'metadata':
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    if x in '({[':
                        d += 1
                    elif x in ')}]':
                        d -= 1
                args.append((t, ('meta',), at))
            else:
                args.append((t, p.value(t), at))
            p.accept(',')
        if op == 'call':
            return ('call', dst, rt, callee, args, None, None)
        while p.peek() != 'to':
            p.next()
        p.next()
        p.expect('label')
        a = p.next()
        p.expect('unwind')
        p.expect('label')
        return ('invoke', dst, rt, callee, args, a, p.next())
    if op == 'landingpad':
        t = p.type()
        cleanup = False
        clauses = []
        while p.kind() != 'eof':
            w = p.next()
            if w == 'cleanup':
                cleanup = True
            elif w in ('catch', 'filter'):
                tt = p.type()
                clauses.append((w, p.value(tt)))
            else:
                break
        return (op, dst, cleanup, clauses)
    if op == 'resume':
        t = p.type()
        return (op, None, t, p.value(t))
    if op == 'unreachable':
        return (op, None)
    if op == 'freeze':
        t = p.type()
        return (op, dst, t, p.value(t))
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return (op, dst, t, v, idx)
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t2 = p.type()
        v2 = p.value(t2)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return (op, dst, t, v, t2, v2, idx)
    if op == 'extractelement':
        a = p.tv()
        p.expect(',')
        b = p.tv()
        return (op, dst, a, b)
    if op == 'insertelement':
        a = p.tv()
        p.expect(',')
        b = p.tv()
        p.expect(',')
        c = p.tv()
        return (op, dst, a, b, c)
    if op == 'shufflevector':
        a = p.tv()
        p.expect(',')
        b = p.tv()
        p.expect(',')
        c = p.tv()
        return (op, dst, a, b, c)
    if op == 'alloca':
        p.skip_attrs()
        t = p.type()
        cnt = (('i', 32), ('int', 1))
        if p.accept(','):
            if p.peek() != 'align':
                cnt = p.tv()
        return (op, dst, t, cnt)
    if op == 'load':
        p.skip_attrs()
        t = p.type()
        p.expect(',')
        a = p.tv()
        return (op, dst, t, a[1])
    if op == 'store':
        p.skip_attrs()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        a = p.tv()
        return (op, None, t, v, a[1])
    if op == 'getelementptr':
        p.skip_attrs()
        t = p.type()
        p.expect(',')
        base = p.tv()
        ops = []
        while p.accept(','):
            ops.append(p.tv())
        return (op, dst, t, base[1], ops)
    if op == 'fence':
        return ('nop', None)
    if op == 'atomicrmw':
        p.skip_attrs()
        o = p.next()
        a = p.tv()
        p.expect(',')
        b = p.tv()
        return (op, dst, o, a[1], b[0], b[1])
    return ('unsupported', dst, op, s)
