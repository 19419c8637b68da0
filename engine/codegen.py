"""Translation of LLVM IR functions into Python functions over the symbolic run-time (regenerated on every run)."""
import re
from . import machine as mc
from .machine import *
from .llparse import parse_func, ParseError


class Program:
    def __init__(self, mod):
        self.mod = mod
        self.gids = {}          # global name -> object id
        self.gnames = [None]
        self.fids = {}          # function name -> id
        self.fnames = []
        self.compiled = {}
        self.env = {k: getattr(mc, k) for k in dir(mc) if not k.startswith('__')}
        self.env['P'] = self
        self.env['indirect'] = self.indirect
        for g in sorted(mod.globals):
            self.gids[g] = len(self.gnames)
            self.gnames.append(g)
        self.pending_extra = []
        self.rounding = False    # emit IEEE rounding after floating operations (applied where the harness asks for it)

    FUNC_BASE = 0x6000_0000

    def install(self):
        M.nglob = len(self.gnames) - 1
        M.init_global = self.init_global
        M.prog = self

    # ---- constants
    def addr(self, name):
        a = self.mod.aliases.get(name)
        if a is not None:
            return self.const(('ptr',), a)
        if name in self.gids:
            return (self.gids[name] << 32) + BASE
        fid = self.fids.get(name)
        if fid is None:
            fid = self.fids[name] = len(self.fnames)
            self.fnames.append(name)
        return ((self.FUNC_BASE + fid) << 32) + BASE

    def const(self, ty, v):
        """run-time value of a constant"""
        ty = self.mod.resolve(ty)
        k = v[0]
        if k == 'int':
            if ty[1] == 1:
                return v[1] & 1
            return v[1] & ((1 << ty[1]) - 1)
        if k == 'fp':
            return mc.FPC(v[1], ty[1])
        if k == 'fpraw':
            if v[1].startswith('0xK'):
                return mc.FPC(x87(v[1][3:]), 'double')
            raise Unsupported('fp constant ' + v[1])
        if k == 'null':
            return 0
        if k == 'undef':
            if ty[0] in ('st',):
                return tuple(self.const(t, v) for t in ty[1])
            if ty[0] in ('arr', 'vec'):
                return tuple(self.const(ty[2], v) for _ in range(ty[1]))
            return UNDEF
        if k == 'zero':
            if ty[0] == 'st':
                return tuple(self.const(t, v) for t in ty[1])
            if ty[0] in ('arr', 'vec'):
                return tuple(self.const(ty[2], v) for _ in range(ty[1]))
            if ty[0] == 'f':
                return mc.FPC(0.0, ty[1])
            return 0
        if k == 'glob':
            return self.addr(v[1])
        if k == 'agg':
            return tuple(self.const(t, x) for t, x in v[1])
        if k == 'str':
            return tuple(v[1])
        if k == 'ce':
            op = v[1]
            if op == 'gep':
                base = self.const(v[3][0][0], v[3][0][1])
                off, dyn = self.gepoff(v[2], v[3][1:])
                return base + off
            if op in ('ptrtoint', 'inttoptr', 'bitcast'):
                return self.const(v[2], v[3])
            a = self.const(v[2], v[3])
            b = self.const(v[2], v[4]) if len(v) > 4 and op in ('add', 'sub', 'mul') else None
            w = v[2][1] if v[2][0] == 'i' else 64
            if op == 'add':
                return (a + b) & ((1 << w) - 1)
            if op == 'sub':
                return (a - b) & ((1 << w) - 1)
            if op == 'mul':
                return (a * b) & ((1 << w) - 1)
            if op == 'trunc':
                return a & ((1 << v[4][1]) - 1)
        raise Unsupported('constant %r' % (v,))

    def gepoff(self, ty, ops):
        """constant gep: byte offset"""
        off = 0
        first = True
        cur = ty
        for t, v in ops:
            i = v[1] if v[0] == 'int' else self.const(t, v)
            if first:
                off += i * self.mod.size(cur)
                first = False
            else:
                cur = self.mod.resolve(cur)
                if cur[0] == 'st':
                    off += self.mod.layout(cur)[0][i]
                    cur = cur[1][i]
                else:
                    off += i * self.mod.size(cur[2])
                    cur = cur[2]
        return off, None

    def init_global(self, i):
        name = self.gnames[i]
        ty, init = self.mod.globals[name]
        o = Obj(self.mod.size(ty), 'global ' + name)
        M.mem[i] = o
        if init is None:
            if name.startswith('@_ZTV') or name.startswith('@_ZTI'):
                o.size = 256
                return o
            raise Unsupported('external global ' + name)
        if init[0] == 'zero':
            o.ranges = [(0, o.size, 0)]
        else:
            self.put(o, 0, ty, init)
        return o

    def put(self, o, off, ty, v):
        ty = self.mod.resolve(ty)
        k = ty[0]
        if v[0] == 'zero':
            if o.ranges is None:
                o.ranges = []
            o.ranges.append((off, off + self.mod.size(ty), 0))
            return
        if v[0] == 'undef':
            return
        if v[0] == 'str':
            for j, b in enumerate(v[1]):
                o.cells[off + j] = (1, 0, b)
            return
        if v[0] == 'agg':
            if k == 'st':
                offs = self.mod.layout(ty)[0]
                for j, (t, x) in enumerate(v[1]):
                    self.put(o, off + offs[j], t, x)
            else:
                es = self.mod.size(ty[2])
                for j, (t, x) in enumerate(v[1]):
                    self.put(o, off + j * es, t, x)
            return
        o.cells[off] = (self.mod.size(ty), 1 if k == 'f' else 0, self.const(ty, v))

    # ---- calls
    def func(self, name):
        f = self.compiled.get(name)
        if f is None:
            a = self.mod.aliases.get(name)
            if a is not None and a[0] == 'glob':
                f = self.func(a[1])
            elif name in self.mod.raw and name[1:] not in M.ext:
                f = self.compile(name)
            else:
                f = self.external(name)
            self.compiled[name] = f
        return f

    def external(self, name):
        n = name[1:].strip('"')
        e = M.ext.get(n)
        if e is None:
            for pre, fn in M.ext_prefix:
                if n.startswith(pre):
                    return fn
            def unsup(*a):
                raise Unsupported('external function ' + n)
            return unsup
        return e

    def indirect(self, p, *args):
        if type(p) is not int:
            if p is UNDEF:
                fatal('mem', 'call through uninitialised pointer')
            p = concretise_addr(p)
        i = (p >> 32) - self.FUNC_BASE
        if i < 0 or i >= len(self.fnames):
            fatal('mem', 'call through wild pointer')
        return self.func(self.fnames[i])(*args)

    # ---- function translation
    def compile(self, name):
        f = parse_func(self.mod, name)
        src = self.gen(f)
        g = {}
        code = compile(src, '<ir %s>' % name[:80], 'exec')
        exec(code, self.env, g)
        fn = g['fn']
        subs = f.subprograms

        ST_funcs = mc
        first = [True]

        def wrapper(*a):
            if first[0]:
                first[0] = False
            mc.ST.funcs |= subs
            return fn(*a)
        wrapper.__name__ = 'w'
        self.env['W'] = None
        return wrapper

    def gen(self, f):
        mod = self.mod
        L = []
        regs = {}

        def reg(n):
            r = regs.get(n)
            if r is None:
                r = regs[n] = 'v%d' % len(regs)
            return r
        kn = [0]

        def kconst(v):
            """literal or a named constant in the environment"""
            if type(v) is int:
                return repr(v)
            if type(v) is bool:
                return repr(v)
            if v is UNDEF:
                return 'UNDEF'
            k = 'K%d' % len(self.env)
            self.env[k] = v
            return k

        def val(ty, v):
            if v[0] == 'reg':
                return reg(v[1])
            return kconst(self.const(ty, v))

        args = [reg(n) for _, n in f.params]
        bid = {b: i for i, b in enumerate(f.order)}
        phis = {}
        for b in f.order:
            phis[b] = [ins for ins in f.blocks[b] if ins[0] == 'phi']
        # two-block structure: emit
        has_alloca = any(i[0] == 'alloca' for b in f.order for i in f.blocks[b])
        body = {}

        def edge(frm, to):
            """statements for taking the edge frm->to"""
            ps = phis[to]
            if not ps:
                return ['b = %d' % bid[to]]
            ls, rs = [], []
            for p in ps:
                for v, bb in p[3]:
                    if bb == frm:
                        l = reg(p[1])
                        r = val(p[2], v)
                        if l != r:
                            ls.append(l)
                            rs.append(r)
                        break
                else:
                    raise ParseError('phi edge')
            out = []
            if ls:
                out.append('%s = %s' % (', '.join(ls), ', '.join(rs)))
            out.append('b = %d' % bid[to])
            return out

        def callexpr(ins):
            _, dst, rt, callee, cargs, _, _ = ins
            if callee[0] == 'glob':
                n = callee[1]
                if n.startswith('@llvm.lifetime') or n.startswith('@llvm.dbg') or n.startswith(
                        '@llvm.experimental.noalias') or n.startswith('@llvm.assume') or n.startswith(
                        '@llvm.invariant') or n.startswith('@llvm.donothing'):
                    return None
                n = mod.aliases.get(n, callee)[1]
                a = []
                for t, v, at in cargs:
                    if t[0] == 'metadata':
                        continue
                    e = val(t, v)
                    if 'byval' in at:
                        e = e
                    a.append(e)
                w = intr_width(n)
                if n.startswith('@llvm.'):
                    return intrinsic(n, a, cargs)
                k = 'G_%d' % abs(hash(n))
                if n in mod.raw and n[1:] not in M.ext:
                    self.env.setdefault(k, Lazy(self, n))
                else:
                    self.env.setdefault(k, self.func(n))
                return '%s(%s)' % (k, ', '.join(a))
            a = [val(t, v) for t, v, at in cargs]
            return 'indirect(%s)' % ', '.join([val(('ptr',), callee)] + a)

        for b in f.order:
            out = []
            for ins in f.blocks[b]:
                op = ins[0]
                d = reg(ins[1]) if ins[1] else None
                if op == 'phi':
                    continue
                if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or',
                          'xor'):
                    t = mod.resolve(ins[2])
                    if t[0] == 'vec':
                        out.append('%s = vecbin(%r, %s, %s, %d)' % (d, op, val(t, ins[3]), val(t, ins[4]), t[2][1]))
                        continue
                    w = t[1]
                    a, c = val(t, ins[3]), val(t, ins[4])
                    fn = {'add': 'iadd', 'sub': 'isub', 'mul': 'imul', 'and': 'iand', 'or': 'ior', 'xor': 'ixor'}.get(
                        op, op)
                    if op in ('add', 'sub', 'mul') and w > 1:
                        sy = {'add': '+', 'sub': '-', 'mul': '*'}[op]
                        ta = '' if ins[3][0] != 'reg' else 'type(%s) is int' % a
                        tc = '' if ins[4][0] != 'reg' else 'type(%s) is int' % c
                        cond = ' and '.join(x for x in (ta, tc) if x) or 'True'
                        out.append('%s = (%s %s %s) & %d if %s else %s(%s, %s, %d)' % (
                            d, a, sy, c, (1 << w) - 1, cond, fn, a, c, w))
                    elif op == 'or' and 'disjoint' in ins[5]:
                        out.append('%s = ior(%s, %s, %d, True)' % (d, a, c, w))
                    else:
                        out.append('%s = %s(%s, %s, %d)' % (d, fn, a, c, w))
                elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                    t = mod.resolve(ins[2])
                    if t[0] == 'vec':
                        out.append('%s = tuple(%s(x, y) for x, y in zip(%s, %s))' % (
                            d, self.fop(op, t[2]), val(t, ins[3]), val(t, ins[4])))
                    else:
                        out.append('%s = %s(%s, %s)' % (d, self.fop(op, t), val(t, ins[3]), val(t, ins[4])))
                elif op == 'fneg':
                    t = mod.resolve(ins[2])
                    if t[0] == 'vec':
                        out.append('%s = tuple(fneg(x) for x in %s)' % (d, val(t, ins[3])))
                    else:
                        out.append('%s = fneg(%s)' % (d, val(ins[2], ins[3])))
                elif op == 'icmp':
                    t = mod.resolve(ins[2])
                    w = 64 if t[0] == 'ptr' else t[1]
                    if t[0] == 'vec':
                        raise Unsupported('vector icmp')
                    pr = ins[3]
                    a, c = val(t, ins[4]), val(t, ins[5])
                    if pr in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge') and w > 1:
                        sy = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[pr]
                        ta = '' if ins[4][0] != 'reg' else 'type(%s) is int' % a
                        tc = '' if ins[5][0] != 'reg' else 'type(%s) is int' % c
                        cond = ' and '.join(x for x in (ta, tc) if x) or 'True'
                        out.append('%s = %s %s %s if %s else icmp(%r, %s, %s, %d)' % (d, a, sy, c, cond, pr, a, c, w))
                    else:
                        out.append('%s = icmp(%r, %s, %s, %d)' % (d, pr, a, c, w))
                elif op == 'fcmp':
                    t = mod.resolve(ins[2])
                    out.append('%s = fcmp(%r, %s, %s)' % (d, ins[3], val(t, ins[4]), val(t, ins[5])))
                elif op in ('trunc', 'zext', 'sext'):
                    t0, t1 = mod.resolve(ins[2]), mod.resolve(ins[4])
                    if t0[0] == 'vec':
                        raise Unsupported('vector cast')
                    v = val(t0, ins[3])
                    if op == 'trunc':
                        out.append('%s = trunc(%s, %d, %d)' % (d, v, t0[1], t1[1]))
                    elif op == 'zext':
                        out.append('%s = zext(%s, %d)' % (d, v, t0[1]))
                    else:
                        out.append('%s = sext(%s, %d, %d)' % (d, v, t0[1], t1[1]))
                elif op in ('fptrunc', 'fpext'):
                    out.append('%s = fpcast(%s, %r, %r)' % (d, val(ins[2], ins[3]), mod.resolve(ins[2])[1],
                                                            mod.resolve(ins[4])[1]))
                elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                    t0, t1 = mod.resolve(ins[2]), mod.resolve(ins[4])
                    v = val(t0, ins[3])
                    if op == 'bitcast' and t0[0] != t1[0]:
                        if t0[0] == 'f' and t1[0] == 'i':
                            out.append('%s = conv(%s, %d, 1, 0)' % (d, v, mod.size(t0)))
                        elif t0[0] == 'i' and t1[0] == 'f':
                            out.append('%s = conv(%s, %d, 0, 1)' % (d, v, mod.size(t0)))
                        else:
                            raise Unsupported('bitcast')
                    else:
                        out.append('%s = %s' % (d, v))
                elif op in ('sitofp', 'uitofp'):
                    t0 = mod.resolve(ins[2])
                    if t0[0] == 'vec':
                        raise Unsupported('vector cast')
                    out.append('%s = %s(%s, %d%s)' % (d, op, val(t0, ins[3]), t0[1], self.fparg(ins[4])))
                    if self.rounding:
                        out.append('%s = rnd(%s, %d)' % (d, d, 24 if mod.resolve(ins[4])[1] == 'float' else 53))
                elif op in ('fptosi', 'fptoui'):
                    t1 = mod.resolve(ins[4])
                    out.append('%s = fptoint(%s, %d, %r)' % (d, val(ins[2], ins[3]), t1[1], op == 'fptosi'))
                elif op == 'select':
                    ct = mod.resolve(ins[3][0])
                    if ct[0] == 'vec':
                        raise Unsupported('vector select')
                    t = mod.resolve(ins[2])
                    fn = 'select1' if t == ('i', 1) else 'select'
                    out.append('%s = %s(%s, %s, %s)' % (d, fn, val(ct, ins[3][1]), val(t, ins[4]), val(t, ins[5])))
                elif op == 'freeze':
                    out.append('%s = freeze(%s)' % (d, val(ins[2], ins[3])))
                elif op == 'alloca':
                    n = val(ins[3][0], ins[3][1])
                    out.append("%s = alloc(%d * conc_int(%s), 'stack'); fr.append(%s)" % (d, mod.size(ins[2]), n, d))
                elif op == 'load':
                    out.append('%s = %s' % (d, self.loadexpr(mod.resolve(ins[2]), val(('ptr',), ins[3]))))
                elif op == 'store':
                    out += self.storestmts(mod.resolve(ins[2]), val(('ptr',), ins[4]), val(ins[2], ins[3]))
                elif op == 'getelementptr':
                    out += self.gepstmts(d, ins, val)
                elif op == 'call':
                    e = callexpr(ins)
                    if e is None:
                        if d:
                            out.append('%s = UNDEF' % d)
                    else:
                        out.append('%s = %s' % (d, e) if d else e)
                elif op == 'invoke':
                    e = callexpr(ins)
                    out.append('try:')
                    out.append('    %s' % ('%s = %s' % (d, e) if d else e if e else 'pass'))
                    out.append('except CxxThrow as ex:')
                    out.append('    EX = ex')
                    out += ['    ' + x for x in edge(b, ins[6])]
                    out.append('else:')
                    out += ['    ' + x for x in edge(b, ins[5])]
                elif op == 'landingpad':
                    cl = []
                    for k, v in ins[3]:
                        cl.append('(%r, %s)' % (k, val(('ptr',), v) if v[0] != 'agg' else '0'))
                    out.append('%s = landingpad(EX, %r, [%s])' % (d, ins[2], ', '.join(cl)))
                elif op == 'resume':
                    out.append('resume(%s)' % val(ins[2], ins[3]))
                elif op == 'extractvalue':
                    out.append('%s = %s%s' % (d, val(ins[2], ins[3]), ''.join('[%d]' % i for i in ins[4])))
                elif op == 'insertvalue':
                    out.append('%s = insval(%s, %s, %r)' % (d, val(ins[2], ins[3]), val(ins[4], ins[5]), ins[6]))
                elif op == 'extractelement':
                    out.append('%s = %s[conc_int(%s)]' % (d, val(*ins[2]), val(*ins[3])))
                elif op == 'insertelement':
                    out.append('%s = insval(%s, %s, [conc_int(%s)])' % (d, val(*ins[2]), val(*ins[3]), val(*ins[4])))
                elif op == 'shufflevector':
                    m = self.const(ins[4][0], ins[4][1])
                    n = mod.resolve(ins[2][0])[1]
                    out.append('_t = tuple(%s) + tuple(%s)' % (val(*ins[2]), val(*ins[3])))
                    out.append('%s = tuple(UNDEF if i is UNDEF else _t[i] for i in %s)' % (d, kconst(m)))
                elif op == 'atomicrmw':
                    t = mod.resolve(ins[4])
                    w = t[1]
                    out.append('%s = load(%s, %d, 0)' % (d, val(('ptr',), ins[3]), mod.size(t)))
                    fn = {'add': 'iadd', 'sub': 'isub'}[ins[2]]
                    out.append('store(%s, %s(%s, %s, %d), %d, 0)' % (val(('ptr',), ins[3]), fn, d, val(t, ins[5]), w,
                                                                     mod.size(t)))
                elif op == 'nop':
                    pass
                elif op == 'ret':
                    if has_alloca:
                        out.append('endframe(fr)')
                    out.append('return' if ins[3] is None else 'return %s' % val(ins[2], ins[3]))
                elif op == 'br':
                    if ins[2] is None:
                        out += edge(b, ins[3])
                    else:
                        c = val(('i', 1), ins[2])
                        out.append('if %s if type(%s) is bool else branch(%s):' % (c, c, c))
                        out += ['    ' + x for x in edge(b, ins[3])]
                        out.append('else:')
                        out += ['    ' + x for x in edge(b, ins[4])]
                elif op == 'switch':
                    t = ins[2]
                    v = val(t, ins[3])
                    kw = 'if'
                    for cv, lab in ins[5]:
                        out.append('%s switch_eq(%s, %d, %d):' % (kw, v, cv & ((1 << t[1]) - 1), t[1]))
                        out += ['    ' + x for x in edge(b, lab)]
                        kw = 'elif'
                    if ins[5]:
                        out.append('else:')
                        out += ['    ' + x for x in edge(b, ins[4])]
                    else:
                        out += edge(b, ins[4])
                elif op == 'unreachable':
                    out.append("unreachable()")
                else:
                    out.append('raise Unsupported(%r)' % ('instruction %s' % (ins[2] if len(ins) > 2 else op)))
            body[b] = out
        # emit
        H = ['def fn(%s):' % ', '.join(args + (['*va'] if f.vararg else []))]
        H.append('    b = 0')
        H.append('    n = 0')
        if has_alloca:
            H.append('    fr = []')
        H.append('    while True:')
        H.append('        n += 1')
        H.append('        if n > STEP_LIMIT: hang()')
        order = f.order

        def tree(lo, hi, ind):
            if hi - lo == 1:
                for s in body[order[lo]]:
                    H.append(ind + s)
                if not body[order[lo]]:
                    H.append(ind + 'pass')
                return
            mid = (lo + hi) // 2
            H.append(ind + 'if b < %d:' % mid)
            tree(lo, mid, ind + ' ')
            H.append(ind + 'else:')
            tree(mid, hi, ind + ' ')
        tree(0, len(order), '        ')
        return '\n'.join(H) + '\n'

    def fop(self, op, t):
        if self.rounding and op != 'frem':
            return 'r%d_%s' % (24 if t[1] == 'float' else 53, op)
        return op

    def fparg(self, t):
        return ''

    def loadexpr(self, t, p):
        k = t[0]
        mod = self.mod
        if k == 'i' or k == 'ptr':
            if k == 'i' and t[1] < 8:
                return 'load(%s, 1, 0)' % p if t[1] != 1 else 'ld1(%s)' % p
            return 'load(%s, %d, 0)' % (p, mod.size(t))
        if k == 'f':
            return 'load(%s, %d, 1)' % (p, mod.size(t))
        if k == 'vec' or k == 'arr':
            es = mod.size(t[2])
            return '(' + ' '.join(self.loadexpr(mod.resolve(t[2]), '%s + %d' % (p, es * i)) + ','
                                  for i in range(t[1])) + ')'
        if k == 'st':
            offs = mod.layout(t)[0]
            return '(' + ' '.join(self.loadexpr(mod.resolve(x), '%s + %d' % (p, o)) + ','
                                  for x, o in zip(t[1], offs)) + ')'
        raise Unsupported('load type')

    def storestmts(self, t, p, v):
        k = t[0]
        mod = self.mod
        if k == 'i' or k == 'ptr':
            return ['store(%s, %s, %d, 0)' % (p, v, mod.size(t))]
        if k == 'f':
            return ['store(%s, %s, %d, 1)' % (p, v, mod.size(t))]
        out = []
        if k == 'vec' or k == 'arr':
            es = mod.size(t[2])
            for i in range(t[1]):
                out += self.storestmts(mod.resolve(t[2]), '%s + %d' % (p, es * i), '%s[%d]' % (v, i))
            return out
        if k == 'st':
            offs = mod.layout(t)[0]
            for i, (x, o) in enumerate(zip(t[1], offs)):
                out += self.storestmts(mod.resolve(x), '%s + %d' % (p, o), '%s[%d]' % (v, i))
            return out
        raise Unsupported('store type')

    def gepstmts(self, d, ins, val):
        mod = self.mod
        base = val(('ptr',), ins[3])
        cur = ins[2]
        off = 0
        dyn = []
        first = True
        for t, v in ins[4]:
            if first:
                sc = mod.size(cur)
                first = False
                nxt = cur
            else:
                cur = mod.resolve(cur)
                if cur[0] == 'st':
                    i = v[1]
                    off += mod.layout(cur)[0][i]
                    cur = cur[1][i]
                    continue
                sc = mod.size(cur[2])
                cur = cur[2]
            if v[0] == 'int':
                off += v[1] * sc
            elif v[0] in ('zero',):
                pass
            else:
                w = t[1]
                dyn.append((val(t, v), sc, w))
        if not dyn:
            if off == 0:
                return ['%s = %s' % (d, base)]
            return ['%s = %s + %d if type(%s) is int else iadd(%s, %d, 64)' % (
                d, base, off, base, base, off & ((1 << 64) - 1))]
        out = []
        e = base
        for x, sc, w in dyn:
            out.append('%s = gepidx(%s, %s, %d, %d, %d)' % (d, e, x, sc, w, off))
            e = d
            off = 0
        return out


def x87(h):
    v = int(h, 16)
    sign = -1 if v >> 79 else 1
    ex = (v >> 64) & 0x7fff
    man = v & ((1 << 64) - 1)
    if ex == 0x7fff:
        return float('inf') * sign if man == 1 << 63 else float('nan')
    f = Fr(man) * Fr(2) ** (ex - 16383 - 63) * sign
    return float(f)


def gepidx(base, i, sc, w, off):
    if type(i) is int and type(base) is int:
        if i >> (w - 1):
            i -= 1 << w
        return base + i * sc + off
    if i is UNDEF or base is UNDEF:
        return UNDEF
    i = S(i, w)
    return iadd(base, iadd(imul(i if type(i) is Q else i & ((1 << 64) - 1), sc, 64), off & ((1 << 64) - 1), 64), 64)


def ld1(p):
    v = load(p, 1, 0)
    if type(v) is int:
        return v & 1
    return v


def insval(agg, v, idx):
    l = list(agg)
    if len(idx) == 1:
        l[idx[0]] = v
    else:
        l[idx[0]] = insval(l[idx[0]], v, idx[1:])
    return tuple(l)


def vecbin(op, a, b, w):
    fn = {'add': iadd, 'sub': isub, 'mul': imul, 'and': iand, 'or': ior, 'xor': ixor}[op]
    return tuple(fn(x, y, w) for x, y in zip(a, b))


def fpcast(v, a, b):
    if b == 'float' and cfg.round:
        return rnd(v, 24)
    if b == 'float' and a != 'float' and cfg.narrow and not cfg.round:
        return to_float(v)
    return v


def unreachable():
    fatal('ub', 'unreachable code reached')


class Lazy:
    __slots__ = ('p', 'n', 'f')

    def __init__(self, p, n):
        self.p = p
        self.n = n
        self.f = None

    def __call__(self, *a):
        f = self.f
        if f is None:
            f = self.f = self.p.func(self.n)
        return f(*a)


def intr_width(n):
    m = re.search(r'\.i(\d+)$', n)
    return int(m.group(1)) if m else 64


def intrinsic(n, a, cargs):
    b = n[6:]
    if b.startswith('memcpy') or b.startswith('memmove'):
        return 'memcpy(%s, %s, %s)' % (a[0], a[1], a[2])
    if b.startswith('memset'):
        return 'memset(%s, %s, %s)' % (a[0], a[1], a[2])
    m = re.match(r'(umax|umin|smax|smin)\.i(\d+)', b)
    if m:
        return 'iminmax(%r, %s, %s, %s)' % (m.group(1), a[0], a[1], m.group(2))
    m = re.match(r'(uadd|usub|umul|sadd|ssub|smul)\.with\.overflow\.i(\d+)', b)
    if m:
        return 'withov(%r, %s, %s, %s)' % (m.group(1), a[0], a[1], m.group(2))
    m = re.match(r'(usub|uadd)\.sat\.i(\d+)', b)
    if m:
        return 'usat(%r, %s, %s, %s)' % (m.group(1), a[0], a[1], m.group(2))
    for k, fn in (('fabs', 'fabs_'), ('sqrt', 'fsqrt'), ('floor', 'ffloor'), ('ceil', 'fceil'), ('pow.', 'fpow'),
                  ('log.', 'flog'), ('exp.', 'fexp')):
        if b.startswith(k):
            return '%s(%s)' % (fn, ', '.join(a))
    for k, fn in (('trunc.', 'ftrunc'), ('round.', 'fround'), ('rint.', 'frint'), ('nearbyint.', 'frint'), ('roundeven.', 'frint')):
        if b.startswith(k):
            return '%s(%s)' % (fn, a[0])
    m = re.match(r'(llround|lround|llrint|lrint)\.i(\d+)', b)
    if m:
        return 'fptoint(%s(%s), %s, True)' % ('fround' if 'round' in m.group(1) else 'frint', a[0], m.group(2))
    if b.startswith('powi'):
        return 'fpowi(%s, %s)' % (a[0], a[1])
    if b.startswith('fmuladd') or b.startswith('fma.'):
        return 'fadd(fmul(%s, %s), %s)' % tuple(a)
    if b.startswith('maxnum'):
        return 'fminmax(%s, %s, True)' % tuple(a)
    if b.startswith('minnum'):
        return 'fminmax(%s, %s, False)' % tuple(a)
    if b.startswith('expect'):
        return a[0]
    if b.startswith('trap'):
        return 'unreachable()'
    m = re.match(r'ctlz\.i(\d+)', b)
    if m:
        return '%s - conc_int(%s).bit_length()' % (m.group(1), a[0])
    m = re.match(r'cttz\.i(\d+)', b)
    if m:
        return 'cttz(%s, %s)' % (a[0], m.group(1))
    m = re.match(r'abs\.i(\d+)', b)
    if m:
        return 'iabs(%s, %s)' % (a[0], m.group(1))
    if b.startswith('eh.typeid.for'):
        return 'typeid_for(%s)' % a[0]
    if b.startswith('is.fpclass'):
        return 'fpclass(%s, %s)' % (a[0], a[1])
    if b.startswith('stacksave') or b.startswith('stackrestore'):
        return '0'
    if b.startswith('objectsize'):
        return '0xffffffffffffffff'
    if b.startswith('is.constant'):
        return 'False'
    if b.startswith('copysign'):
        return 'fcopysign(%s, %s)' % tuple(a)
    if b.startswith('fshl') or b.startswith('fshr'):
        return 'fshift(%r, %s, %s, %s, %d)' % ((b[:4],) + tuple(a) + (intr_width(n),))
    return 'unsup(%r)' % n


def unsup(n):
    raise Unsupported('intrinsic ' + n)


def fshift(k, a, b, c, w):
    a, b, c = conc_int(a), conc_int(b), conc_int(c) % w
    v = (a << w) | b
    if k == 'fshl':
        return (v << c >> w) & ((1 << w) - 1)
    return (v >> c) & ((1 << w) - 1)


def fcopysign(a, b):
    a = fabs_(a)
    if branch(fcmp('olt', b, 0)):
        return fneg(a)
    return a


def fpowi(x, n):
    return fpow(x, S(conc_int(n), 32))


def iminmax(k, a, b, w):
    c = icmp(('u' if k[0] == 'u' else 's') + 'lt', a, b, w)
    if c is UNDEF:
        return UNDEF
    if 'max' in k:
        return select(c, b, a)
    return select(c, a, b)


def withov(k, a, b, w):
    fn = {'add': iadd, 'sub': isub, 'mul': imul}[k[1:]]
    if type(a) is int and type(b) is int:
        if k[0] == 's':
            x, y = S(a, w), S(b, w)
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        else:
            x, y = a, b
            lo, hi = 0, (1 << w) - 1
        r = {'add': x + y, 'sub': x - y, 'mul': x * y}[k[1:]]
        return (r & ((1 << w) - 1), not (lo <= r <= hi))
    raise Unsupported('with.overflow on symbolic values')


def usat(k, a, b, w):
    if k == 'usub':
        if branch(icmp('ult', a, b, w)):
            return 0
        return isub(a, b, w)
    raise Unsupported('uadd.sat')


def cttz(a, w):
    a = conc_int(a)
    return w if a == 0 else (a & -a).bit_length() - 1


def iabs(a, w):
    if branch(icmp('slt', a, 0, w)):
        return isub(0, a, w)
    return a


def fpclass(x, m):
    m = conc_int(m)
    if type(x) is float and x != x:
        return bool(m & 3)
    if type(x) is float:
        return bool(m & (0x200 if x > 0 else 0x4))
    r = False
    if m & 0x180:
        r = bor(r, fcmp('ogt', x, 0))
    if m & 0x18:
        r = bor(r, fcmp('olt', x, 0))
    if m & 0x60:
        r = bor(r, fcmp('oeq', x, 0))
    return r


# ------------------------------------------------------------------ exceptions
def ti_bases(ti):
    """base type_info addresses of a type_info object (single and virtual/multiple inheritance)"""
    out = []
    i = ti >> 32
    if not (0 < i <= M.nglob):
        return out
    name = M.prog.gnames[i]
    ty, init = M.prog.mod.globals[name]
    if init and init[0] == 'agg':
        for t, v in init[1][2:]:
            if t[0] == 'ptr' and v[0] == 'glob':
                out.append(M.prog.addr(v[1]))
    return out


def ti_match(thrown, want):
    if thrown == want:
        return True
    return any(ti_match(b, want) for b in ti_bases(thrown))


def landingpad(ex, cleanup, clauses):
    sel = 0
    for k, ti in clauses:
        if k == 'catch':
            if ti == 0 or ti_match(ex.ti, ti):
                sel = typeid_for(ti)
                break
        else:
            sel = 0
    if not sel and not cleanup:
        raise ex
    M.exc[ex.ptr] = ex
    return (ex.ptr, sel)


def typeid_for(ti):
    return (ti >> 32) & 0x7fffffff if ti else 1


def resume(v):
    raise M.exc[v[0]]


for _n, _f in list(globals().items()):
    if callable(_f) and not _n.startswith('__') and not hasattr(mc, _n):
        setattr(mc, _n, _f)


def FPC(x, ty):
    return lit(x)


mc.FPC = FPC
