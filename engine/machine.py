"""Run-time of the symbolic executor: path state, solver access, memory model, numeric semantics (real mode),
external functions.  The generated Python code of each IR function calls the functions defined here."""
import math, time, struct, sys
from fractions import Fraction as Fr
import z3
from .sym import *
from . import sym

sys.setrecursionlimit(20000)


class PathEnd(Exception):
    """path infeasible or ended deliberately"""


class Violation(Exception):
    """fatal: the path cannot be continued"""


class CxxThrow(Exception):
    def __init__(self, ptr, ti):
        self.ptr = ptr
        self.ti = ti


class Undef:
    __slots__ = ()

    def _u(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = _u
    __xor__ = __rxor__ = __lshift__ = __rlshift__ = __rshift__ = __rrshift__ = __neg__ = _u

    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class FBits:
    """integer view of a floating point cell (bit pattern kept opaque)"""
    __slots__ = ('v', 'sz')

    def __init__(self, v, sz):
        self.v = v
        self.sz = sz


BASE = 1 << 24
STEP_LIMIT = 400000


class Obj:
    __slots__ = ('cells', 'size', 'live', 'ranges', 'kind')

    def __init__(self, size, kind):
        self.cells = {}
        self.size = size
        self.live = True
        self.ranges = None
        self.kind = kind


class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown_feas = 0
        self.undecided = []
        self.asserts = 0
        self.discharged_nf = 0
        self.discharged_solver = 0
        self.covers = {}
        self.violations = []
        self.funcs = set()
        self.unsupported = {}
        self.max_inputs = 0
        self.infeasible = 0
        self.decisions = 0
        self.nf_confirmed = 0
        self.witness = None

    FIELDS = ('paths', 'queries', 'solver_s', 'unknown_feas', 'undecided', 'asserts', 'discharged_nf',
              'discharged_solver', 'covers', 'violations', 'funcs', 'unsupported', 'max_inputs', 'infeasible', 'decisions', 'nf_confirmed',
              'witness')

    def dump(self):
        return {k: getattr(self, k) for k in self.FIELDS}

    def merge(self, d):
        for k, v in d.items():
            c = getattr(self, k)
            if k == 'max_inputs':
                setattr(self, k, max(c, v))
            elif k == 'witness':
                if c is None:
                    self.witness = v
            elif isinstance(v, (int, float)):
                setattr(self, k, c + v)
            elif isinstance(v, list):
                c.extend(v)
            elif isinstance(v, set):
                c |= v
            elif isinstance(v, dict):
                for a, b in v.items():
                    c[a] = c.get(a, 0) + b


class Config:
    feas_ms = 1500
    assert_ms = 8000
    nl_ms = 15000
    select = 'fork'
    narrow = 0
    max_viol = 4
    round = 0


cfg = Config()
ST = Stats()


# ------------------------------------------------------------------ solver with synchronised stack
class SolverStack:
    def __init__(self):
        self.s = z3.Solver()
        self.stack = []

    def sync(self, cons):
        st = self.stack
        i = 0
        n = min(len(st), len(cons))
        while i < n and st[i] is cons[i]:
            i += 1
        if i < len(st):
            self.s.pop(len(st) - i)
            del st[i:]
        for c in cons[i:]:
            self.s.push()
            self.s.add(bz(c) if type(c) is B else c)
            st.append(c)

    def check(self, cons, extra, ms, nonlinear):
        """returns 'sat'/'unsat'/'unknown', model"""
        t0 = time.time()
        ST.queries += 1
        try:
            if nonlinear:
                # non-incremental: nlsat pipeline first, then the incremental core
                r, m = self.fresh(cons, extra, ms)
                if r != 'unknown':
                    return r, m
            self.sync(cons)
            self.s.set('timeout', int(ms))
            self.s.push()
            try:
                for e in extra:
                    self.s.add(bz(e) if type(e) is B else e)
                r = self.s.check()
                m = self.s.model() if r == z3.sat else None
            except z3.Z3Exception:
                r, m = z3.unknown, None
            finally:
                self.s.pop()
            return str(r), m
        finally:
            ST.solver_s += time.time() - t0

    def fresh(self, cons, extra, ms):
        try:
            hi = self.has_int(cons, extra)
            if hi:
                s = z3.Tactic('qfnra-nlsat').solver()
                s.set('timeout', int(ms) // 2)
                ok = True
                for e in extra:
                    z = bzr(e) if type(e) is B else None
                    if z is None:
                        ok = False
                        break
                    s.add(z)
                if ok:
                    for c in cons:
                        z = bzr(c) if type(c) is B else None
                        if z is not None:
                            s.add(z)
                    if s.check() == z3.unsat:
                        return 'unsat', None
            s = z3.Tactic('qfnra-nlsat').solver() if not hi else z3.SolverFor('QF_NIRA')
            s.set('timeout', int(ms))
            for c in list(cons) + list(extra):
                s.add(bz(c) if type(c) is B else c)
            r = s.check()
            return str(r), (s.model() if r == z3.sat else None)
        except z3.Z3Exception:
            return 'unknown', None

    def has_int(self, cons, extra):
        return any(a.isint for a in M.path_atoms.values())


class Mach:
    pass


M = Mach()
M.solver = None
M.ext = {}


def reset_path(prefix, model):
    M.prefix = prefix
    M.pos = 0
    M.dec = []            # decisions taken so far
    M.pending = []        # (decision prefix, model by name)
    M.cons = []           # path constraints (B or z3)
    M.consset = set()
    M.facts = {}
    M.nonlin = False
    M.named_model = model  # name -> Fraction (input variables) or None
    M.model = {}          # atom idx -> Fraction ; valid only if M.model_ok
    M.model_ok = True
    M.inputs = []
    M.nvar = 0
    M.path_atoms = {}
    M.mem = [None] * (M.nglob + 1)
    M.exc = {}
    M.caught = []
    M.tags = set()
    M.log = []
    M.strict_undef = True
    M.tied = set()
    M.subs = {}
    if M.solver is None:
        M.solver = SolverStack()


def add_cons(c):
    M.cons.append(c)
    if type(c) is B:
        if c.op == 's':
            M.facts[c.a] = M.facts.get(c.a, 7) & c.b
            if M.facts[c.a] == ZERO:
                add_subst(c.a)
        M.consset.add(c.id)
        if not M.nonlin and b_nonlinear(c):
            M.nonlin = True


def add_subst(pid):
    """polynomial pid is zero on this path: solve it for one atom and use that as a rewrite rule"""
    p = polys[pid]
    if len(p) > 12:
        return
    if M.subs:
        p = subst(p)
        if len(p) > 12:
            return
    best = None
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and (best is None or m[0][0] > best):
            i = m[0][0]
            if not any(i == j for m2 in p if m2 is not m for j, _ in m2):
                best = i
    if best is None:
        return
    k = -Fr(p[((best, 1),)])
    r = {}
    for m, c in p.items():
        if m != ((best, 1),):
            v = c / k
            r[m] = int(v) if v.denominator == 1 else v
    M.subs[best] = r


def subst(p):
    subs = M.subs
    for _ in range(64):
        hit = None
        for m in p:
            for i, _e in m:
                if i in subs:
                    hit = i
                    break
            if hit is not None:
                break
        if hit is None:
            return p
        r = subs[hit]
        out = {}
        pw = [pc(1)]
        for m, c in p.items():
            e = 0
            for i, k in m:
                if i == hit:
                    e = k
            if not e:
                v = out.get(m)
                v = c if v is None else v + c
                if v:
                    out[m] = v
                else:
                    del out[m]
                continue
            while len(pw) <= e:
                pw.append(pmul(pw[-1], r))
            rest = tuple(x for x in m if x[0] != hit)
            out = padd(out, pmul({rest: c}, pw[e])) if pw[e] else out
        p = out
        if len(p) > 3000:
            return p
    return p


def simp(c):
    if M.subs and c.op == 's':
        p = polys[c.a]
        if len(p) <= 400:
            q = subst(p)
            if q is not p:
                return sign_b(q, c.b)
    return c


def learn(c):
    if type(c) is B and c.op == 's':
        M.facts[c.a] = M.facts.get(c.a, 7) & c.b


def use_atom(a):
    """first use of an atom on this path: its defining constraints join the path condition"""
    if a.idx in M.path_atoms:
        return
    M.path_atoms[a.idx] = a
    for d in a.defs:
        if type(d) is B:
            add_cons(d)
        elif d is not True:
            M.cons.append(d)
            M.nonlin = True


def new_input(isint, lo, hi):
    name = '%s%d' % ('i' if isint else 'x', M.nvar)
    M.nvar += 1
    a = atom(('in', name), name, isint)
    M.path_atoms[a.idx] = a
    q = Q({((a.idx, 1),): 1}, {}, isint, lo if isint else None, hi if isint else None)
    v = None
    if M.named_model is not None:
        v = M.named_model.get(name)
    if v is None:
        k = (M.nvar * 40503 + 12345) % 65536
        l = Fr(-10) if lo is None else Fr(lo)
        h = l + 20 if hi is None else Fr(hi)
        if lo is None and hi is not None:
            l = h - 20
        if isint:
            v = Fr(int(l) + k % (int(h - l) + 1))
        else:
            v = l + (h - l) * Fr(k // 512 + 1, 130)
            v = Fr(round(v * 64), 64)
            if v < l or v > h:
                v = l + (h - l) / 2
    M.model[a.idx] = v
    if lo is not None:
        assume(rcmp(q, lo, POS | ZERO))
    if hi is not None:
        assume(rcmp(q, hi, NEG | ZERO))
    return q, a


def set_model(m):
    """install a z3 model"""
    M.model = {}
    M.model_ok = True
    for a in M.path_atoms.values():
        v = m.eval(a.z, model_completion=True)
        f = zval(v)
        if f is not None:
            M.model[a.idx] = f


def zval(v):
    if z3.is_int_value(v):
        return Fr(v.as_long())
    if z3.is_rational_value(v):
        return Fr(v.numerator_as_long(), v.denominator_as_long())
    return None


def model_by_name(m):
    out = {}
    for a in M.path_atoms.values():
        if a.key[0] == 'in':
            f = zval(m.eval(a.z, model_completion=True))
            if f is not None:
                out[a.name] = f
    return out


def cur_model_named():
    return {a.name: M.model[a.idx] for a in M.path_atoms.values() if a.key[0] == 'in' and a.idx in M.model}


def check(extra, ms=None):
    nl = M.nonlin or any(b_nonlinear(e) if type(e) is B else True for e in extra)
    ms = ms or cfg.feas_ms
    return M.solver.check(M.cons, extra, ms, nl)


def known(c):
    """truth of boolean term c from the facts recorded on this path, or None"""
    if c.op == 's':
        f = M.facts.get(c.a)
        if f is not None:
            if f & c.b == 0:
                return False
            if f & ~c.b & 7 == 0:
                return True
    return None


def branch(c):
    if type(c) is not B:
        if c is UNDEF:
            fatal('undef', 'branch on uninitialised value')
        return bool(c)
    k = known(c)
    if k is not None:
        return k
    if M.subs:
        c = simp(c)
        if type(c) is not B:
            return c
        k = known(c)
        if k is not None:
            return k
    if M.pos < len(M.prefix):
        d = M.prefix[M.pos]
        M.pos += 1
        if d is None:      # forced, nothing learnt
            raise Unsupported('bad replay')
        forced = d in (2, 3)
        v = d in (1, 3)
        M.dec.append(d)
        if not forced:
            add_cons(c if v else bnot(c))
        elif c.op == 's':
            M.facts[c.a] = M.facts.get(c.a, 7) & (c.b if v else 7 ^ c.b)
        return v
    v = beval(c, M.model) if M.model_ok else None
    nc = bnot(c)
    if v is None:
        r, m = check([c])
        if r == 'unsat':
            return force(c, False)
        if r == 'sat':
            set_model(m)
        else:
            ST.unknown_feas += 1
            M.model_ok = False
        r2, m2 = check([nc])
        if r2 == 'unsat':
            return force(c, True)
        if r2 == 'unknown':
            ST.unknown_feas += 1
        M.pending.append((M.dec + [0], model_by_name(m2) if m2 is not None else None))
        M.dec.append(1)
        add_cons(c)
        return True
    other = nc if v else c
    r, m = check([other])
    if r == 'unsat':
        return force(c, v)
    if r == 'unknown':
        ST.unknown_feas += 1
    M.pending.append((M.dec + [0 if v else 1], model_by_name(m) if m is not None else None))
    M.dec.append(1 if v else 0)
    add_cons(c if v else nc)
    return v


def force(c, v):
    """the solver showed only one outcome is possible"""
    M.dec.append(3 if v else 2)
    if c.op == 's':
        M.facts[c.a] = M.facts.get(c.a, 7) & (c.b if v else 7 ^ c.b)
    return v


def choice(n):
    """n-way nondeterminism without solver"""
    if M.pos < len(M.prefix):
        d = M.prefix[M.pos]
        M.pos += 1
        M.dec.append(d)
        return d[1]
    nm = cur_model_named() if M.model_ok else None
    for k in range(n - 1, 0, -1):
        M.pending.append((M.dec + [('k', k)], nm))
    M.dec.append(('k', 0))
    return 0


def concretise(q):
    """fork over the possible values of a symbolic integer"""
    if type(q) is not Q:
        return q
    for _ in range(200):
        if M.pos < len(M.prefix):
            d = M.prefix[M.pos]
            M.pos += 1
            M.dec.append(d)
            v, taken = d[1], d[2]
            c = rcmp(q, v, ZERO)
            add_cons(c if taken else bnot(c))
            if taken:
                return v
            continue
        v = qeval(q, M.model) if M.model_ok else None
        if v is None:
            r, m = check([])
            if r != 'sat':
                raise Unsupported('concretise')
            set_model(m)
            v = qeval(q, M.model)
            if v is None:
                raise Unsupported('concretise: inexact')
        v = int(v)
        c = rcmp(q, v, ZERO)
        if type(c) is not B:
            return v
        nc = bnot(c)
        r, m = check([nc])
        if r == 'unsat':
            M.dec.append(('c', v, True))
            add_cons(c)
            return v
        M.pending.append((M.dec + [('c', v, False)], model_by_name(m) if m is not None else None))
        M.dec.append(('c', v, True))
        add_cons(c)
        return v
    raise Unsupported('concretise: too many values')


def assume(c):
    if type(c) is not B:
        if c is UNDEF:
            fatal('undef', 'assume on uninitialised value')
        if not c:
            raise PathEnd()
        return
    k = known(c)
    if k is True:
        return
    if k is False:
        raise PathEnd()
    if M.pos < len(M.prefix):
        add_cons(c)      # feasibility known: the prefix was explored through here
        return
    v = beval(c, M.model) if M.model_ok else None
    add_cons(c)
    if v is True:
        return
    r, m = check([])
    if r == 'unsat':
        raise PathEnd()
    if r == 'sat':
        set_model(m)
    else:
        ST.unknown_feas += 1
        M.model_ok = False


# ------------------------------------------------------------------ violations
def input_values(nm):
    """values of the inputs in creation order under named model nm"""
    out = []
    for kind, x in M.inputs:
        if isinstance(x, Atom):
            v = nm.get(x.name)
            if v is None:
                v = Fr(0)
            out.append((kind, v))
        else:
            out.append((kind, Fr(x)))
    return out


def nice_models(extra, diff=None):
    """yield named models of path & extra, nicest first"""
    ins = [a for a in M.path_atoms.values() if a.key[0] == 'in']
    box = []
    for a in ins:
        box += [a.z <= 1000, a.z >= -1000]
    grid = []
    for a in ins:
        if not a.isint:
            k = z3.Int('grid_' + a.name)
            grid.append(a.z * 16 == z3.ToReal(k))
    margins = []
    if diff is not None and type(diff) is Q:
        n = zpoly(diff.n, True)
        d = zpoly(expand(diff.d), True) if diff.d else None
        for mg in ('1', '1/100', '1/100000'):
            v = z3.RealVal(mg)
            if d is None:
                margins.append([z3.Or(n >= v, n <= -v)])
            else:
                # |n| >= v*|d|  (avoids the division)
                margins.append([z3.Or(z3.And(d > 0, z3.Or(n >= v * d, n <= -v * d)),
                                      z3.And(d < 0, z3.Or(-n >= v * -d, -n <= -v * -d)))])
    else:
        margins.append([])
    margins.append([])
    tries = []
    for mg in margins:
        tries.append(box + grid + mg)
        tries.append(box + mg)
    tries.append([])
    seen = 0
    for t in tries:
        r, m = check(list(extra) + t, 3000)
        if r == 'sat':
            nm = model_by_name(m)
            yield nm
            seen += 1
            if seen >= 4:
                return


def record_violation(kind, tag, extra=(), diff=None, msg=''):
    if len(ST.violations) >= cfg.max_viol * 6:
        return
    vals = []
    for nm in nice_models(extra, diff):
        iv = input_values(nm)
        if iv not in vals:
            vals.append(iv)
    if not vals:
        if M.model_ok and not extra:
            vals.append(input_values(cur_model_named()))
    f32 = any(a.key[0] == 'f32' for a in M.path_atoms.values())
    if f32:
        # inputs whose conversion to float is inexact (order and signs kept)
        vals += [[(k, v * Fr(4, 3) if k == 'r' else v) for k, v in iv] for iv in vals]
    ST.violations.append({'kind': kind, 'tag': tag, 'inputs': vals, 'msg': msg, 'harness': M.harness, 'narrow': f32,
                          'log': list(M.log[-20:])})


def fatal(kind, msg):
    record_violation(kind, kind, (), None, msg)
    raise Violation(msg)


def do_assert(c, tag, diff=None):
    ST.asserts += 1
    if type(c) is not B:
        if c is UNDEF:
            fatal('undef', 'assertion on uninitialised value: ' + tag)
        if c:
            ST.discharged_nf += 1
            return
        record_violation('assert', tag, (), diff, 'false on a feasible path')
        raise Violation(tag)
    if known(c) is True:
        ST.discharged_nf += 1
        return
    if M.subs:
        s = simp(c)
        if s is True or (type(s) is B and known(s) is True):
            ST.discharged_nf += 1
            return
        if type(s) is B:
            c = s
    if M.pos < len(M.prefix):
        # this assertion was decided when the prefix was explored first
        d = M.prefix[M.pos]
        M.pos += 1
        M.dec.append(d)
        if d[1]:
            add_cons(c)
        else:
            learn(c)
        ST.asserts -= 1
        return
    nc = bnot(c)
    r, m = check([nc], cfg.assert_ms)
    if r == 'unknown':
        r, m = retry(nc)
    M.dec.append(('a', r != 'unsat'))
    if r == 'unsat':
        ST.discharged_solver += 1
        learn(c)
        return
    if r == 'unknown':
        ST.undecided.append('%s:%s' % (M.harness, tag))
        add_cons(c)
        return
    record_violation('assert', tag, [nc], diff, '')
    add_cons(c)
    r, m = check([])
    if r == 'unsat':
        raise Violation(tag)
    if r == 'sat':
        set_model(m)
    else:
        M.model_ok = False


def retry(nc):
    """second opinion on an undecided assertion: z3 nlsat on a fresh context with a long limit, then cvc5"""
    r, m = M.solver.fresh(M.cons, [nc], cfg.nl_ms)
    if r != 'unknown':
        return r, m
    r = cvc5_check(M.cons + [nc], cfg.nl_ms)
    if r == 'unsat':
        return 'unsat', None
    return 'unknown', None


def cvc5_check(cons, ms):
    import subprocess
    s = z3.Solver()
    for c in cons:
        s.add(bz(c) if type(c) is B else c)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    t0 = time.time()
    ST.queries += 1
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % ms, '--nl-cov', '-q'], input=txt, capture_output=True, text=True,
                           timeout=ms / 1000 + 10)
        out = p.stdout.strip().split('\n')
    except Exception:
        out = ['unknown']
    ST.solver_s += time.time() - t0
    if '(error' in p.stdout or not out:
        return 'unknown'
    return out[0] if out[0] in ('sat', 'unsat') else 'unknown'


# ------------------------------------------------------------------ memory
def alloc(size, kind):
    M.mem.append(Obj(size, kind))
    return ((len(M.mem) - 1) << 32) + BASE


def getobj(p, sz, what):
    if p is UNDEF:
        fatal('mem', '%s through an uninitialised pointer' % what)
    if type(p) is not int:
        p = concretise_addr(p)
    i = p >> 32
    off = (p & 0xffffffff) - BASE
    if i == 0:
        fatal('mem', '%s through null or wild pointer' % what)
    if i >= len(M.mem):
        fatal('mem', '%s through wild pointer' % what)
    o = M.mem[i]
    if o is None:
        o = M.init_global(i)
    if not o.live:
        fatal('mem', '%s of %d bytes in freed %s object' % (what, sz, o.kind))
    if off < 0 or off + sz > o.size:
        fatal('mem', 'out-of-bounds %s of %d bytes at offset %d of a %s object of %d bytes' % (what, sz, off, o.kind,
                                                                                              o.size))
    return o, off


def concretise_addr(p):
    if type(p) is Q:
        return concretise(p) & ((1 << 64) - 1)
    raise Unsupported('address ' + repr(p))


def load(p, sz, kind):
    if type(p) is not int:
        if p is UNDEF:
            fatal('mem', 'load through an uninitialised pointer')
        p = concretise_addr(p)
    i = p >> 32
    off = (p & 0xffffffff) - BASE
    try:
        o = M.mem[i]
        if o is None:
            if i == 0:
                fatal('mem', 'load through null pointer')
            o = M.init_global(i)
        c = o.cells.get(off)
    except IndexError:
        fatal('mem', 'load through wild pointer')
    if c is None or c[0] != sz:
        return load_slow(p, sz, kind)
    if c[1] == kind:
        return c[2]
    return conv(c[2], sz, c[1], kind)


def conv(v, sz, frm, to):
    """reinterpret a cell (kind 0 = integer/pointer, 1 = floating)"""
    if v is UNDEF:
        return v
    if frm == 1:
        if type(v) is Q:
            return FBits(v, sz)
        return FBits(v, sz)
    # int -> float
    if type(v) is FBits:
        return v.v
    if type(v) is int:
        if sz == 8:
            return lit(struct.unpack('<d', struct.pack('<Q', v))[0])
        if sz == 4:
            return lit(struct.unpack('<f', struct.pack('<I', v))[0])
    raise Unsupported('reinterpret int as float')


def to_bytes(c):
    """byte list of a cell (concrete only)"""
    sz, kind, v = c
    if v is UNDEF:
        return [UNDEF] * sz
    if type(v) is int and kind == 0:
        return [(v >> (8 * k)) & 255 for k in range(sz)]
    if kind == 0 and isinstance(v, bool):
        return [int(v)] + [0] * (sz - 1)
    if kind == 1 and type(v) is not Q:
        try:
            b = struct.pack('<d' if sz == 8 else '<f', float(v))
        except (OverflowError, struct.error):
            raise Unsupported('bytes of a wide float')
        return list(b)
    if type(v) is FBits and type(v.v) is not Q:
        return to_bytes((sz, 1, v.v))
    return None


def load_slow(p, sz, kind):
    o, off = getobj(p, sz, 'load')
    c = o.cells.get(off)
    if c is not None and c[0] == sz:
        return c[2] if c[1] == kind else conv(c[2], sz, c[1], kind)
    # assemble bytes
    out = [None] * sz
    for q in range(off - 15, off + sz):
        c = o.cells.get(q)
        if c is None or q + c[0] <= off:
            continue
        if c[2] is UNDEF and False:
            continue
        b = to_bytes(c)
        if b is None:
            raise Unsupported('partial access to a symbolic cell')
        for k in range(c[0]):
            if 0 <= q + k - off < sz:
                out[q + k - off] = b[k]
    for k in range(sz):
        if out[k] is None:
            v = None
            if o.ranges:
                for lo, hi, bv in reversed(o.ranges):
                    if lo <= off + k < hi:
                        v = bv
                        break
            out[k] = UNDEF if v is None else v
    if any(x is UNDEF for x in out):
        return UNDEF
    v = 0
    for k in range(sz):
        v |= out[k] << (8 * k)
    if kind == 1:
        return conv(v, sz, 0, 1)
    return v


def store(p, v, sz, kind):
    if type(p) is not int:
        if p is UNDEF:
            fatal('mem', 'store through an uninitialised pointer')
        p = concretise_addr(p)
    i = p >> 32
    off = (p & 0xffffffff) - BASE
    try:
        o = M.mem[i]
        if o is None:
            if i == 0:
                fatal('mem', 'store through null pointer')
            o = M.init_global(i)
        c = o.cells.get(off)
    except IndexError:
        fatal('mem', 'store through wild pointer')
    if c is None or c[0] != sz:
        o, off = getobj(p, sz, 'store')
        clear(o, off, sz)
    if kind == 0 and type(v) is FBits:
        o.cells[off] = (sz, 1, v.v)
    else:
        o.cells[off] = (sz, kind, v)


def clear(o, off, sz):
    """remove the bytes [off, off+sz) from the cells, splitting partially covered ones"""
    cells = o.cells
    for q in range(off - 15, off + sz):
        c = cells.get(q)
        if c is None or q + c[0] <= off:
            continue
        if q >= off and q + c[0] <= off + sz:
            del cells[q]
            continue
        b = to_bytes(c)
        if b is None:
            raise Unsupported('partial overwrite of a symbolic cell')
        del cells[q]
        for k in range(c[0]):
            if not (off <= q + k < off + sz):
                cells[q + k] = (1, 0, b[k])


def memset(p, v, n):
    n = conc_int(n)
    if n == 0:
        return
    o, off = getobj(p, n, 'memset')
    if type(v) is not int:
        raise Unsupported('memset value')
    if n > 64:
        for q in [q for q in o.cells if off - 16 < q < off + n]:
            c = o.cells.get(q)
            if c and q + c[0] > off:
                clear(o, max(q, off), min(c[0], off + n - q))
    else:
        clear(o, off, n)
    if o.ranges is None:
        o.ranges = []
    o.ranges.append((off, off + n, v & 255))


def memcpy(d, s, n, what='memcpy'):
    n = conc_int(n)
    if n == 0:
        return
    so, soff = getobj(s, n, 'read')
    do, doff = getobj(d, n, 'write')
    # gather
    items = []
    src = so.cells
    covered = 0
    q = soff - 15
    keys = [k for k in (range(soff - 15, soff + n) if n < 4 * len(src) + 32 else sorted(src)) if k in src]
    pos = soff
    for k in keys:
        c = src[k]
        if k + c[0] <= soff or k >= soff + n:
            continue
        if k < soff or k + c[0] > soff + n:
            b = to_bytes(c)
            if b is None:
                raise Unsupported('memcpy cuts a symbolic cell')
            for j in range(c[0]):
                if soff <= k + j < soff + n:
                    items.append((k + j - soff, (1, 0, b[j])))
            lo, hi = max(k, soff), min(k + c[0], soff + n)
        else:
            items.append((k - soff, c))
    rngs = []
    if so.ranges:
        for lo, hi, bv in so.ranges:
            l, h = max(lo, soff), min(hi, soff + n)
            if l < h:
                rngs.append((l - soff, h - soff, bv))
    clear(do, doff, n)
    # destination bytes not provided by cells: from ranges, else undefined
    if do.ranges:
        do.ranges.append((doff, doff + n, UNDEF))
    for l, h, bv in rngs:
        if do.ranges is None:
            do.ranges = []
        do.ranges.append((doff + l, doff + h, bv))
    for k, c in items:
        do.cells[doff + k] = c


def free(p, kind):
    if p == 0:
        return
    if type(p) is not int:
        fatal('mem', 'free of a bad pointer')
    i = p >> 32
    off = (p & 0xffffffff) - BASE
    if i >= len(M.mem) or M.mem[i] is None or off != 0 or M.mem[i].kind != kind:
        fatal('mem', 'free of a pointer not returned by an allocation')
    o = M.mem[i]
    if not o.live:
        fatal('mem', 'double free')
    o.live = False
    o.cells = {}
    o.ranges = None


def endframe(ps):
    for p in ps:
        o = M.mem[p >> 32]
        o.live = False
        o.cells = {}
        o.ranges = None


def conc_int(x):
    if type(x) is int:
        return x
    if x is UNDEF:
        fatal('undef', 'uninitialised size')
    if type(x) is Q:
        return concretise(x)
    return int(x)


# ------------------------------------------------------------------ integers
def S(v, w):
    """signed mathematical view"""
    if type(v) is int:
        return v - (1 << w) if v >> (w - 1) & 1 else v
    if type(v) is bool:
        return -int(v) if w == 1 else int(v)
    if type(v) is Q:
        h = 1 << (w - 1)
        while v.hi >= h:
            if branch(rcmp(v, h, POS | ZERO)):
                v = iq(radd(v, -(1 << w)), v.lo - (1 << w) if v.lo - (1 << w) >= -h else -h, v.hi - (1 << w))
            else:
                v = narrow(v, v.lo, h - 1)
        while type(v) is Q and v.lo < -h:
            if branch(rcmp(v, -h, NEG)):
                v = iq(radd(v, 1 << w), v.lo + (1 << w), min(h - 1, v.hi + (1 << w)))
            else:
                v = narrow(v, -h, v.hi)
        return v
    if type(v) is B:
        return (-1 if w == 1 else 1) if branch(v) else 0
    return bad(v)


def U(v, w):
    if type(v) is int:
        return v
    if type(v) is bool:
        return int(v)
    if type(v) is Q:
        h = 1 << w
        while type(v) is Q and v.hi >= h:
            if branch(rcmp(v, h, POS | ZERO)):
                v = iq(radd(v, -h), max(0, v.lo - h), v.hi - h)
            else:
                v = narrow(v, v.lo, h - 1)
        while type(v) is Q and v.lo < 0:
            if branch(rcmp(v, 0, NEG)):
                v = iq(radd(v, h), v.lo + h, min(h - 1, v.hi + h))
            else:
                v = narrow(v, 0, v.hi)
        return v
    if type(v) is B:
        return 1 if branch(v) else 0
    return bad(v)


def bad(v):
    if v is UNDEF:
        fatal('undef', 'use of uninitialised value')
    raise Unsupported('integer operation on ' + repr(type(v)))


def narrow(v, lo, hi):
    return Q(v.n, v.d, True, lo, hi)


def iq(r, lo, hi):
    if type(r) is not Q:
        return int(r)
    if lo > hi:
        raise PathEnd()
    r = Q(r.n, {}, True, lo, hi)
    return r


def wrap(r, w):
    if type(r) is Q:
        lim = 1 << 62 if w == 64 else 1 << w
        if w == 64 and (r.lo < -(1 << 63) or r.hi >= (1 << 64)):
            return U(S(r, w), w)
        if w < 64 and (r.lo < -(1 << (w - 1)) or r.hi >= (1 << w)):
            return S(r, w)
        return r
    return int(r) & ((1 << w) - 1)


def bnds(v):
    return (v.lo, v.hi) if type(v) is Q else (v, v)


def iadd(a, b, w):
    if type(a) is int and type(b) is int:
        return (a + b) & ((1 << w) - 1)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if w == 1:
        return bxor(tob(a), tob(b))
    a = a if type(a) is Q else S(a, w)
    b = b if type(b) is Q else S(b, w)
    al, ah = bnds(a)
    bl, bh = bnds(b)
    return wrap(iq(radd(a, b), al + bl, ah + bh), w)


def isub(a, b, w):
    if type(a) is int and type(b) is int:
        return (a - b) & ((1 << w) - 1)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if w == 1:
        return bxor(tob(a), tob(b))
    a = a if type(a) is Q else S(a, w)
    b = b if type(b) is Q else S(b, w)
    al, ah = bnds(a)
    bl, bh = bnds(b)
    return wrap(iq(radd(a, b, True), al - bh, ah - bl), w)


def imul(a, b, w):
    if type(a) is int and type(b) is int:
        return (a * b) & ((1 << w) - 1)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    a = a if type(a) is Q else S(a, w)
    b = b if type(b) is Q else S(b, w)
    al, ah = bnds(a)
    bl, bh = bnds(b)
    c = (al * bl, al * bh, ah * bl, ah * bh)
    return wrap(iq(rmul(a, b), min(c), max(c)), w)


def idiv_atom(a, b, al, ah, bl, bh):
    """floor(a/b) for b > 0"""
    x = rmul(a, rinv(b)) if type(b) is Q else rmul(a, Fr(1, b))
    return floor_atom(x, min(al // bl, al // bh), max(ah // bl, ah // bh))


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def sdiv(a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    a = S(a, w)
    b = S(b, w)
    if type(b) is Q:
        if branch(rcmp(b, 0, ZERO)):
            fatal('ub', 'integer division by zero')
    elif b == 0:
        fatal('ub', 'integer division by zero')
    if type(a) is not Q and type(b) is not Q:
        return tdiv(a, b) & ((1 << w) - 1)
    if type(b) is Q or b < 0:
        if branch(rcmp(b, 0, NEG)):
            return isub(0, sdiv(a if type(a) is Q else a & ((1 << w) - 1), rneg(b) if type(b) is Q else -b, w), w)
        b = narrow(b, max(1, b.lo), b.hi)
    if type(a) is Q and a.lo < 0 and branch(rcmp(a, 0, NEG)):
        na = rneg(a)
        na = narrow(na, max(na.lo, 1), na.hi)
        bl, bh = bnds(b)
        return isub(0, idiv_atom(na, b, na.lo, na.hi, bl, bh), w)
    if type(a) is Q:
        a = narrow(a, max(0, a.lo), a.hi)
    elif a < 0:
        bl, bh = bnds(b)
        return isub(0, idiv_atom(-a, b, -a, -a, bl, bh), w)
    al, ah = bnds(a)
    bl, bh = bnds(b)
    return idiv_atom(a, b, al, ah, bl, bh)


def udiv(a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    a = U(a, w)
    b = U(b, w)
    if type(b) is Q:
        if branch(rcmp(b, 0, ZERO)):
            fatal('ub', 'integer division by zero')
        b = narrow(b, max(1, b.lo), b.hi)
    elif b == 0:
        fatal('ub', 'integer division by zero')
    if type(a) is not Q and type(b) is not Q:
        return a // b
    al, ah = bnds(a)
    bl, bh = bnds(b)
    return idiv_atom(a, b, al, ah, bl, bh)


def urem(a, b, w):
    if type(a) is int and type(b) is int and b:
        return a % b
    q = udiv(a, b, w)
    if q is UNDEF:
        return q
    r = isub(U(a, w), imul(q, U(b, w), w), w)
    if type(r) is Q:
        r = narrow(r, 0, bnds(U(b, w))[1] - 1)
    return r


def srem(a, b, w):
    q = sdiv(a, b, w)
    if q is UNDEF:
        return q
    r = isub(a, imul(q, b, w), w)
    if type(r) is Q:
        bl, bh = bnds(S(b, w))
        m = max(abs(bl), abs(bh)) - 1
        r = narrow(r, max(r.lo, -m), min(r.hi, m)) if r.lo <= m and r.hi >= -m else r
    return r


def shl(a, b, w):
    if type(a) is int and type(b) is int:
        return (a << b) & ((1 << w) - 1)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    b = conc_int(b)
    return imul(a, 1 << b, w)


def lshr(a, b, w):
    if type(a) is int and type(b) is int:
        return a >> b
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if type(a) is FBits:
        if b == w - 1:
            return 1 if branch(fcmp_mask(a.v, 0, NEG)) else 0
        return bad(a)
    b = conc_int(b)
    return udiv(a, 1 << b, w)


def ashr(a, b, w):
    if type(a) is int and type(b) is int:
        return (S(a, w) >> b) & ((1 << w) - 1)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    b = conc_int(b)
    a = S(a, w)
    if type(a) is not Q:
        return (a >> b) & ((1 << w) - 1)
    x = rmul(a, Fr(1, 1 << b))
    return floor_atom(x, a.lo >> b, a.hi >> b)


def tob(v):
    if type(v) is B:
        return v
    if v is UNDEF:
        return v
    if type(v) is Q:
        return rcmp(v, 0, NEG | POS)
    return bool(v)


def iand(a, b, w):
    if type(a) is int and type(b) is int:
        return a & b
    if a is UNDEF or b is UNDEF:
        if a is False or b is False or (w == 1 and (a == 0 if type(a) is int else False)):
            return 0
        return UNDEF
    if w == 1:
        return band(tob(a), tob(b))
    if type(a) is FBits or type(b) is FBits:
        if type(b) is FBits:
            a, b = b, a
        if b == (1 << (w - 1)) - 1:
            return FBits(fabs_(a.v), a.sz)
        return bad(a)
    if type(a) is not Q:
        a, b = b, a
    if type(b) is int and b & (b + 1) == 0:      # low mask
        a = U(a, w) if a.lo < 0 else a
        if type(a) is Q and a.hi <= b:
            return a
        return urem(a, b + 1, w)
    a, b = conc_int(a) & ((1 << w) - 1), conc_int(b) & ((1 << w) - 1)
    return a & b


def ior(a, b, w, disjoint=False):
    if type(a) is int and type(b) is int:
        return a | b
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if w == 1:
        return bor(tob(a), tob(b))
    if disjoint:
        return iadd(a, b, w)
    if b == 0 and type(b) is int:
        return a
    if a == 0 and type(a) is int:
        return b
    return (conc_int(a) & ((1 << w) - 1)) | (conc_int(b) & ((1 << w) - 1))


def ixor(a, b, w):
    if type(a) is int and type(b) is int:
        return a ^ b
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if w == 1:
        return bxor(tob(a), tob(b))
    m = (1 << w) - 1
    if type(b) is int and b == m:
        return isub(m, a, w)
    if type(a) is FBits and b == 1 << (w - 1):
        return FBits(fneg(a.v), a.sz)
    return (conc_int(a) & m) ^ (conc_int(b) & m)


def icmp(pr, a, b, w):
    if type(a) is int and type(b) is int:
        if pr == 'eq':
            return a == b
        if pr == 'ne':
            return a != b
        if pr[0] == 's':
            h = 1 << (w - 1)
            a ^= h
            b ^= h
        pr = pr[1:]
        if pr == 'lt':
            return a < b
        if pr == 'le':
            return a <= b
        if pr == 'gt':
            return a > b
        return a >= b
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if w == 1 or type(a) in (B, bool) or type(b) in (B, bool):
        a, b = tob(a), tob(b)
        if pr == 'eq':
            return bnot(bxor(a, b))
        if pr == 'ne':
            return bxor(a, b)
        if pr in ('ult', 'sgt'):
            return band(bnot(a), b)
        if pr in ('ugt', 'slt'):
            return band(a, bnot(b))
        raise Unsupported('icmp i1 ' + pr)
    if type(a) is FBits or type(b) is FBits:
        if type(b) is int and type(a) is FBits:
            # sign test / zero test of a float bit pattern
            if pr == 'slt' and b == 0:
                return fcmp_mask(a.v, 0, NEG)
            if pr == 'sgt' and b == (1 << w) - 1:
                return fcmp_mask(a.v, 0, POS | ZERO)
        raise Unsupported('icmp on float bits')
    mask = {'eq': ZERO, 'ne': NEG | POS, 'lt': NEG, 'le': NEG | ZERO, 'gt': POS, 'ge': POS | ZERO}[pr[-2:]]
    if pr[0] == 'u':
        a, b = U(a, w), U(b, w)
    else:
        a, b = S(a, w), S(b, w)
    al, ah = bnds(a)
    bl, bh = bnds(b)
    if ah < bl:
        return bool(mask & NEG)
    if al > bh:
        return bool(mask & POS)
    return rcmp(a, b, mask)


def trunc(v, w0, w):
    if type(v) is int:
        return v & ((1 << w) - 1)
    if v is UNDEF:
        return v
    if w == 1:
        if type(v) in (B, bool):
            return v
        return rcmp(urem(v, 2, w0), 0, POS | NEG) if type(v) is Q else bool(v & 1)
    if type(v) is Q:
        if v.lo >= -(1 << (w - 1)) and v.hi < (1 << w):
            return v
        h = 1 << (w - 1)
        if branch(rcmp(v, h, NEG)) and (v.lo >= -h or branch(rcmp(v, -h, POS | ZERO))):
            return narrow(v, max(v.lo, -h), min(v.hi, h - 1))
        k = floor_atom(rmul(radd(v, h), Fr(1, 1 << w)), (v.lo + h) >> w, (v.hi + h) >> w)
        return iq(radd(v, rmul(k, 1 << w), True), -h, h - 1)
    if type(v) is FBits:
        return bad(v)
    return v


def zext(v, w0):
    if type(v) is int:
        return v
    if v is UNDEF:
        return v
    return U(v, w0)


def sext(v, w0, w):
    if v is UNDEF:
        return v
    v = S(v, w0)
    if type(v) is Q:
        return v
    return v & ((1 << w) - 1)


def select(c, a, b):
    if type(c) is not B:
        if c is UNDEF:
            if a is b:
                return a
            return UNDEF
        return a if c else b
    if a is b:
        return a
    if cfg.select == 'ite' and (type(a) is Q or type(b) is Q) and not isinstance(a, (float, Undef)) \
            and not isinstance(b, (float, Undef)):
        k = known(c)
        if k is not None:
            return a if k else b
        return ite(c, a, b)
    return a if branch(c) else b


def select1(c, a, b):
    if type(c) is not B:
        if c is UNDEF:
            return UNDEF
        return a if c else b
    if a is UNDEF or b is UNDEF:
        return a if branch(c) else b
    return bor(band(c, tob(a)), band(bnot(c), tob(b)))


def ite(c, a, b):
    isint = (type(a) is not Q or a.isint) and (type(b) is not Q or b.isint) and \
        (type(a) is Q or type(b) is Q)
    isint = isint and type(a) in (int, Q) and type(b) in (int, Q)
    ka = a.key() if type(a) is Q else a
    kb = b.key() if type(b) is Q else b

    def defs(at):
        x = Q({((at.idx, 1),): 1}, {})
        return [bor(bnot(c), rcmp(x, a, ZERO)), bor(c, rcmp(x, b, ZERO))]
    at = atom(('ite', c.id, ka, kb), 'ite%d' % len(atoms), isint, defs)
    use_atom(at)
    if M.model_ok:
        v = beval(c, M.model)
        if v is not None:
            r = qeval(a if v else b, M.model)
            if r is not None:
                M.model[at.idx] = Fr(r)
    if isint:
        al, ah = bnds(a)
        bl, bh = bnds(b)
        return Q({((at.idx, 1),): 1}, {}, True, min(al, bl), max(ah, bh))
    return Q({((at.idx, 1),): 1}, {})


def floor_atom(x, lo=None, hi=None):
    """integer atom k with k <= x < k+1"""
    if type(x) is not Q:
        return math.floor(x)

    def defs(at):
        k = Q({((at.idx, 1),): 1}, {})
        return [rcmp(k, x, NEG | ZERO), rcmp(x, radd(k, 1), NEG)]
    at = atom(('floor', x.key()), 'fl%d' % len(atoms), True, defs)
    use_atom(at)
    if M.model_ok:
        v = qeval(x, M.model)
        if v is not None:
            M.model[at.idx] = Fr(math.floor(v))
    if lo is None:
        lo, hi = -(1 << 53), 1 << 53
    return Q({((at.idx, 1),): 1}, {}, True, lo, hi)


def switch_eq(v, c, w):
    if type(v) is int:
        return v == c
    return branch(icmp('eq', v, c, w))


# ------------------------------------------------------------------ reals
_lits = {}


def lit(x):
    """exact value of a literal; decimal fractions that were rounded to binary are read as the fraction meant"""
    r = _lits.get(x)
    if r is None:
        if x != x:
            return NAN
        if x in (INF, -INF):
            r = x
        else:
            f = Fr(x)
            if f.denominator > 1 << 20:
                g = f.limit_denominator(10 ** 6)
                try:
                    if float(g) == x:
                        f = g
                except OverflowError:
                    pass
            r = int(f) if f.denominator == 1 else f
        _lits[x] = r
    return r


def isnum(x):
    return type(x) is not Q


def fadd(a, b):
    if type(a) is not Q and type(b) is not Q:
        if a is UNDEF or b is UNDEF:
            return UNDEF
        return a + b
    if type(a) is float:
        return a
    if type(b) is float:
        return b
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return radd(a, b)


def fsub(a, b):
    if type(a) is not Q and type(b) is not Q:
        if a is UNDEF or b is UNDEF:
            return UNDEF
        return a - b
    if type(a) is float:
        return a
    if type(b) is float:
        return -b
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return radd(a, b, True)


def fneg(a):
    if a is UNDEF:
        return a
    return rneg(a)


def fmul(a, b):
    if type(a) is not Q and type(b) is not Q:
        if a is UNDEF or b is UNDEF:
            return UNDEF
        return a * b
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if type(b) is float:
        a, b = b, a
    if type(a) is float:
        if a != a:
            return a
        if branch(rcmp(b, 0, ZERO)):
            return NAN
        return a if branch(rcmp(b, 0, POS)) else -a
    return rmul(a, b)


def fdiv(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if type(b) is float:
        if b != b:
            return b
        if type(a) is float:
            return NAN
        return 0
    if type(b) is Q:
        z = branch(rcmp(b, 0, ZERO))
    else:
        z = b == 0
    if z:
        if type(a) is Q:
            if branch(rcmp(a, 0, ZERO)):
                return NAN
            return INF if branch(rcmp(a, 0, POS)) else -INF
        if a != a or a == 0:
            return NAN
        return INF if a > 0 else -INF
    if type(a) is float:
        if a != a:
            return a
        return a if branch(rcmp(b, 0, POS)) else -a
    if type(b) is Q:
        return 0 if type(a) is not Q and a == 0 else rmul(a, rinv(b))
    if type(a) is Q:
        return rmul(a, 1 / Fr(b))
    r = Fr(a) / b
    return int(r) if r.denominator == 1 else r


def v2(c):
    c = Fr(c)
    n, d = abs(c.numerator), c.denominator
    if d & (d - 1):
        raise Unsupported('rounding a value that is not dyadic')
    return (n & -n).bit_length() - 1 - (d.bit_length() - 1)


def rnd(v, p):
    """round to the nearest multiple of the spacing of a binary format with p significand bits, ties to even.  Exponent range is not modelled (no overflow or subnormals)."""
    if not cfg.round or v is UNDEF or type(v) is float:
        return v
    if type(v) is not Q:
        if v == 0:
            return v
        f = Fr(v)
        e = 0
        a = abs(f)
        e = a.numerator.bit_length() - a.denominator.bit_length()
        if a < Fr(2) ** e:
            e -= 1
        sp = Fr(2) ** (e - p + 1)
        r = round(f / sp) * sp          # Fraction rounds half to even
        return int(r) if r.denominator == 1 else r
    if v.d:
        raise Unsupported('rounding a quotient')
    g = None
    for m, c in v.n.items():
        for i, _ in m:
            if not atoms[i].isint:
                raise Unsupported('rounding a value over real inputs')
        k = v2(c)
        g = k if g is None else min(g, k)

    def within(e):
        c = Fr(2) ** e
        return branch(band(rcmp(v, c, NEG), rcmp(v, -c, POS)))
    e = g + p
    if within(e):
        return v
    for _ in range(80):
        e += 1
        if within(e):
            break
    sp = Fr(2) ** (e - p)

    def defs(at):
        x = rmul(Q({((at.idx, 1),): 1}, {}), sp)
        return [rcmp(radd(v, x, True), sp / 2, NEG | ZERO), rcmp(radd(v, x, True), -sp / 2, POS | ZERO)]
    at = atom(('rnd', v.key(), e - p), 'rn%d' % len(atoms), True, defs)
    use_atom(at)
    if M.model_ok:
        w = qeval(v, M.model)
        if w is not None:
            M.model[at.idx] = Fr(round(Fr(w) / sp))
    R = Q({((at.idx, 1),): 1}, {})
    x = rmul(R, sp)
    k = floor_atom(rmul(R, Fr(1, 2)))
    key = ('tie', at.idx)
    if key not in M.tied:
        M.tied.add(key)
        df = radd(v, x, True)
        tie = bor(rcmp(df, sp / 2, ZERO), rcmp(df, -sp / 2, ZERO))
        add_cons(bor(bnot(tie), rcmp(R, rmul(k, 2), ZERO)))
    return x


def mk_rounded(fn, p):
    def f(a, b):
        return rnd(fn(a, b), p)
    return f


def frem(a, b):
    raise Unsupported('frem')


FM = {'oeq': ZERO, 'ogt': POS, 'oge': POS | ZERO, 'olt': NEG, 'ole': NEG | ZERO, 'one': NEG | POS,
      'ueq': ZERO, 'ugt': POS, 'uge': POS | ZERO, 'ult': NEG, 'ule': NEG | ZERO, 'une': NEG | POS}


def fcmp(pr, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if pr == 'true':
        return True
    if pr == 'false':
        return False
    if type(a) is float or type(b) is float:
        nan = (type(a) is float and a != a) or (type(b) is float and b != b)
        if pr == 'ord':
            return not nan
        if pr == 'uno':
            return nan
        if nan:
            return pr[0] == 'u'
        m = FM[pr]
        if type(a) is float and type(b) is float:
            s = POS if a > b else NEG if a < b else ZERO
        elif type(a) is float:
            s = POS if a > 0 else NEG
        else:
            s = NEG if b > 0 else POS
        return bool(m & s)
    if pr == 'ord':
        return True
    if pr == 'uno':
        return False
    return rcmp(a, b, FM[pr])


def fcmp_mask(a, b, mask):
    if a is UNDEF:
        return UNDEF
    if type(a) is float:
        return bool(mask & (POS if a > 0 else NEG)) if a == a else False
    return rcmp(a, b, mask)


def sitofp(v, w):
    if v is UNDEF:
        return v
    return S(v, w)


def uitofp(v, w):
    if v is UNDEF:
        return v
    return U(v, w)


def fptoint(v, w, signed):
    if v is UNDEF:
        return v
    if type(v) is float:
        fatal('ub', 'conversion of NaN or infinity to an integer')
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    if type(v) is not Q:
        r = int(v)          # truncates toward zero
        if r < lo or r > hi:
            if w > 1:
                fatal('ub', 'float to integer conversion out of range')
        return r & ((1 << w) - 1)
    if branch(rcmp(v, 0, NEG)):
        k = floor_atom(rneg(v), 0, min(hi + 1, 1 << 53))
        if not signed and branch(rcmp(k, 0, POS)):
            fatal('ub', 'negative value converted to an unsigned integer')
        return iq(rneg(k), k and -k.hi if type(k) is Q else -k, 0 if type(k) is Q else -k) if type(k) is Q else (-k) & ((1 << w) - 1)
    return floor_atom(v, 0, min(hi, 1 << 53))


def fabs_(x):
    if x is UNDEF:
        return x
    if type(x) is Q:
        return rneg(x) if branch(rcmp(x, 0, NEG)) else x
    return abs(x)


def isqrt_exact(f):
    f = Fr(f)
    n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if n * n == f.numerator and d * d == f.denominator:
        return Fr(n, d)
    return None


def fsqrt(x):
    if x is UNDEF:
        return x
    if type(x) is float:
        return x if x > 0 or x != x else NAN
    if type(x) is not Q:
        if x < 0:
            return NAN
        r = isqrt_exact(x)
        if r is not None:
            return r
        k = ('c', Fr(x))
    else:
        if branch(rcmp(x, 0, NEG)):
            return NAN
        k = x.key()

    def defs(at):
        s = Q({((at.idx, 1),): 1}, {})
        return [rcmp(s, 0, POS | ZERO), rcmp(rmul(s, s), x, ZERO)]
    at = atom(('sqrt', k), 'sq%d' % len(atoms), False, defs)
    use_atom(at)
    if M.model_ok:
        v = qeval(x, M.model)
        if v is not None and v >= 0:
            r = isqrt_exact(v)
            if r is not None:
                M.model[at.idx] = r
    return Q({((at.idx, 1),): 1}, {})


def ffloor(x):
    if type(x) is Q:
        return realq(floor_atom(x))
    if x is UNDEF or type(x) is float:
        return x
    return math.floor(x)


def fceil(x):
    if type(x) is Q:
        return rneg(realq(floor_atom(rneg(x))))
    if x is UNDEF or type(x) is float:
        return x
    return math.ceil(x)


def realq(k):
    return Q(k.n, k.d) if type(k) is Q else k


def opaque(name, args, axioms=None):
    ks = tuple(a.key() if type(a) is Q else ('c', Fr(a)) for a in args)
    at = atom((name,) + ks, '%s%d' % (name, len(atoms)), False, axioms)
    use_atom(at)
    return Q({((at.idx, 1),): 1}, {})


F32 = {}


def to_float(v):
    """double -> float in exact arithmetic: v * (1 + e), e unknown but no larger than half a unit in the last place"""
    if v is UNDEF or type(v) is float:
        return v
    if type(v) is not Q:
        try:
            f = struct.unpack('<f', struct.pack('<f', float(v)))[0]
        except OverflowError:
            return v
        if not math.isfinite(f):
            return v
        f = Fr(f)
        return int(f) if f.denominator == 1 else f
    k = v.key()
    if k in F32:
        return v
    h = Fr(1, 2 ** 24)

    def ax(at):
        e = Q({((at.idx, 1),): 1}, {})
        return [rcmp(e, h, NEG | ZERO), rcmp(e, -h, POS | ZERO)]
    r = fadd(v, fmul(v, opaque('f32', (v,), ax)))
    if type(r) is Q:
        F32[r.key()] = 1
    return r


def fpow(x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if type(y) is not Q and type(y) is not float:
        y = Fr(y)
        if y.denominator == 1 and abs(y) <= 64:
            n = int(y)
            if type(x) is float:
                return lit(math.pow(x, n))
            r = 1
            for _ in range(abs(n)):
                r = fmul(r, x)
            return r if n >= 0 else fdiv(1, r)
        if y.denominator == 2 and abs(y) <= 16:
            r = fsqrt(x)
            n = abs(y) - Fr(1, 2)
            for _ in range(int(n)):
                r = fmul(r, x)
            return r if y > 0 else fdiv(1, r)
    if type(x) is float or type(y) is float:
        if type(x) is not Q and type(y) is not Q:
            return lit(math.pow(float(x), float(y)))
        raise Unsupported('pow with special values')
    if type(x) is not Q and x == 1:
        return 1
    if type(x) is Q:
        if branch(rcmp(x, 0, NEG)):
            return NAN
        if branch(rcmp(x, 0, ZERO)):
            if branch(rcmp(y, 0, POS)):
                return 0
            return 1 if branch(rcmp(y, 0, ZERO)) else INF
    elif x < 0:
        return NAN
    elif x == 0:
        if type(y) is Q:
            if branch(rcmp(y, 0, POS)):
                return 0
            return 1 if branch(rcmp(y, 0, ZERO)) else INF
        return 0 if y > 0 else INF
    if type(y) is Q and branch(rcmp(y, 0, ZERO)):
        return 1
    # one form for x^y, 1/x^-y, (1/x)^-y and exp(y log x)
    return fexp(fmul(y, flog(x)), True)


def flog(x):
    if x is UNDEF:
        return x
    if type(x) is float:
        return lit(math.log(x)) if x > 0 else NAN
    if type(x) is not Q:
        if x == 1:
            return 0
        if x == 0:
            return -INF
        if x < 0:
            return NAN
    else:
        if branch(rcmp(x, 0, NEG)):
            return NAN
        if branch(rcmp(x, 0, ZERO)):
            return -INF
    inv = fdiv(1, x)
    if type(x) is Q:
        flip = type(inv) is Q and repr(inv) < repr(x)
    else:
        flip = x < 1
    return fneg(opaque('log', (inv,))) if flip else opaque('log', (x,))


def fexp(x, nz=False):
    if x is UNDEF:
        return x
    if type(x) is float:
        return lit(math.exp(x))
    if type(x) is not Q and x == 0 or type(x) is Q and not nz and branch(rcmp(x, 0, ZERO)):
        return 1

    def ax(at):
        return [rcmp(Q({((at.idx, 1),): 1}, {}), 0, POS)]
    if (x.n[max(x.n)] if type(x) is Q else x) < 0:
        return fdiv(1, opaque('exp', (fneg(x),), ax))
    return opaque('exp', (x,), ax)


def ftrunc(x):
    if x is UNDEF or type(x) is float:
        return x
    return fceil(x) if branch(fcmp('olt', x, 0)) else ffloor(x)


def fround(x):
    """halves away from zero"""
    if x is UNDEF or type(x) is float:
        return x
    h = Fr(1, 2)
    return fceil(fsub(x, h)) if branch(fcmp('olt', x, 0)) else ffloor(fadd(x, h))


def frint(x):
    """halves to even"""
    if x is UNDEF or type(x) is float:
        return x
    f = ffloor(x)
    d = fsub(x, f)
    if branch(fcmp('olt', d, Fr(1, 2))):
        return f
    if branch(fcmp('ogt', d, Fr(1, 2))):
        return fadd(f, 1)
    e = fmul(2, ffloor(fdiv(f, 2)))
    return f if branch(fcmp('oeq', e, f)) else fadd(f, 1)


def ffmod(x, y):
    return fsub(x, fmul(y, ftrunc(fdiv(x, y))))


def fhypot(x, y):
    return fsqrt(fadd(fmul(x, x), fmul(y, y)))


def fminmax(a, b, mx):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if type(a) is float and a != a:
        return b
    if type(b) is float and b != b:
        return a
    c = fcmp('olt', a, b)
    return (b if mx else a) if branch(c) else (a if mx else b)


def hang():
    fatal('hang', 'step limit exceeded (no termination within %d block executions)' % STEP_LIMIT)


def poison_check(v):
    return v


def freeze(v):
    return 0 if v is UNDEF else v


for _p in (24, 53):
    for _n, _f in (('fadd', fadd), ('fsub', fsub), ('fmul', fmul), ('fdiv', fdiv)):
        globals()['r%d_%s' % (_p, _n)] = mk_rounded(_f, _p)
