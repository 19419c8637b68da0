"""Symbolic numbers (rational functions over atoms with exact rational coefficients) and booleans,
hash-consed, with translation to z3.  A symbolic integer is a polynomial over integer atoms plus an interval."""
from fractions import Fraction as Fr
import z3

z3.set_param('smt.random_seed', 1)
INF = float('inf')
NAN = float('nan')


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('idx', 'name', 'isint', 'z', 'defs', 'key', 'z_real')


atoms = []
atom_by_key = {}


def atom(key, name, isint, mkdefs=None):
    a = atom_by_key.get(key)
    if a is None:
        a = Atom()
        a.idx = len(atoms)
        a.name = '%s' % name
        a.isint = isint
        a.z = z3.Int(a.name) if isint else z3.Real(a.name)
        a.z_real = z3.ToReal(a.z) if isint else a.z
        a.key = key
        a.defs = ()
        atoms.append(a)
        atom_by_key[key] = a
        if mkdefs is not None:
            a.defs = tuple(mkdefs(a))
    return a


# ------------------------------------------------------------------ polynomials: dict mono -> coef
ONE = ()


def pc(c):
    return {ONE: c} if c else {}


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def psub(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = -c
        else:
            v = v - c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pscale(a, k):
    if k == 1:
        return a
    if not k:
        return {}
    return {m: c * k for m, c in a.items()}


def mmul(x, y):
    if not x:
        return y
    if not y:
        return x
    if len(x) == 1 and len(y) == 1:
        (i, e), = x
        (j, g), = y
        if i == j:
            return ((i, e + g),)
        return (x[0], y[0]) if i < j else (y[0], x[0])
    d = dict(x)
    for i, e in y:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


MAXTERMS = 60000


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m, c), = a.items()
        if m == ONE:
            return pscale(b, c)
        return {mmul(m, m2): c * c2 for m2, c2 in b.items()}
    if len(a) * len(b) > MAXTERMS * 20:
        raise Unsupported('polynomial too large')
    r = {}
    for m, c in a.items():
        for m2, c2 in b.items():
            k = mmul(m, m2)
            v = r.get(k)
            r[k] = c * c2 if v is None else v + c * c2
    r = {m: c for m, c in r.items() if c}
    if len(r) > MAXTERMS:
        raise Unsupported('polynomial too large')
    return r


def ppow(a, n):
    r = pc(1)
    for _ in range(n):
        r = pmul(r, a)
    return r


def lead(p):
    # a monomial order (graded lex on the tuple) used consistently
    return max(p, key=mkey)


_mk = {}


def mkey(m):
    k = _mk.get(m)
    if k is None:
        k = (sum(e for _, e in m), tuple((-i, e) for i, e in m))
        _mk[m] = k
    return k


def mdiv(x, y):
    if not y:
        return x
    d = dict(x)
    for i, e in y:
        v = d.get(i, 0) - e
        if v < 0:
            return None
        if v:
            d[i] = v
        else:
            del d[i]
    return tuple(sorted(d.items()))


def pdiv_exact(a, f):
    """a / f if exact, else None (multivariate division under a graded order)."""
    if len(f) == 1:
        (m, c), = f.items()
        out = {}
        for k, v in a.items():
            q = mdiv(k, m)
            if q is None:
                return None
            out[q] = v / c if isinstance(v, Fr) or isinstance(c, Fr) else Fr(v, c)
        return out
    if len(f) > len(a):
        return None
    # variables of f must occur in a
    lf = lead2(f)
    cf = f[lf]
    r = dict(a)
    q = {}
    n = 0
    lim = 4 * len(a) + 10
    while r:
        lr = lead2(r)
        m = mdiv(lr, lf)
        if m is None:
            return None
        c = Fr(r[lr]) / cf
        q[m] = c
        for k, v in f.items():
            kk = mmul(k, m)
            w = r.get(kk, 0) - c * v
            if w:
                r[kk] = w
            else:
                r.pop(kk, None)
        n += 1
        if n > lim:
            return None
    return q


def lexkey(m):
    return m and tuple(x for (i, e) in m for x in (-i, e)) or ()


_lk = {}


def glex(m):
    # true graded-lex admissible order: compare total degree, then exponents of atoms in index order
    k = _lk.get(m)
    if k is None:
        d = sum(e for _, e in m)
        # dense-ish encoding: list of (-(idx)), exponent ; lex: smaller idx with larger exponent is bigger
        seq = []
        for i, e in m:
            seq.extend([-i] * e)
        k = (d, tuple(seq))
        _lk[m] = k
    return k


def lead2(p):
    return max(p, key=glex)


def pkey(p):
    return frozenset(p.items())


# ------------------------------------------------------------------ factor registry for denominators
factors = []
factor_idx = {}


def reg_factor(p):
    k = pkey(p)
    i = factor_idx.get(k)
    if i is None:
        i = len(factors)
        factors.append(p)
        factor_idx[k] = i
    return i


def split_factor(p):
    """p (non constant poly) = const * prod factors;  returns (const, {factor: exp})"""
    # monomial content
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {i: min(e, d[i]) for i, e in common.items() if i in d}
        if not common:
            break
    fs = {}
    if common:
        cm = tuple(sorted(common.items()))
        p = {mdiv(m, cm): c for m, c in p.items()}
        for i, e in common.items():
            fs[reg_factor({((i, 1),): 1})] = e
    if len(p) == 1 and ONE in p:
        return p[ONE], fs
    # monic normalisation
    c = p[lead2(p)]
    if c != 1:
        c = Fr(c)
        p = {m: v / c for m, v in p.items()}
    # try known factors (cancels repeated structure like partial weight sums)
    k = pkey(p)
    if k not in factor_idx and len(p) < 400:
        for i in range(len(factors) - 1, max(-1, len(factors) - 60), -1):
            f = factors[i]
            if len(f) == 1 or len(f) > len(p):
                continue
            while True:
                q = pdiv_exact(p, f)
                if q is None:
                    break
                p = q
                fs[i] = fs.get(i, 0) + 1
                if len(p) == 1:
                    break
            if len(p) == 1:
                break
        if len(p) == 1:
            (m, cc), = p.items()
            c = c * cc
            for i, e in m:
                fi = reg_factor({((i, 1),): 1})
                fs[fi] = fs.get(fi, 0) + e
            return c, fs
    i = reg_factor(p)
    fs[i] = fs.get(i, 0) + 1
    return c, fs


def expand(fs):
    r = pc(1)
    for i, e in fs.items():
        r = pmul(r, ppow(factors[i], e))
    return r


# ------------------------------------------------------------------ Q
class Q:
    __slots__ = ('n', 'd', 'isint', 'lo', 'hi', '_h')

    def __init__(self, n, d, isint=False, lo=None, hi=None):
        self.n = n
        self.d = d
        self.isint = isint
        self.lo = lo
        self.hi = hi
        self._h = None

    def key(self):
        h = self._h
        if h is None:
            h = self._h = (frozenset(self.n.items()), tuple(sorted(self.d.items())))
        return h

    def __repr__(self):
        return 'Q(%s%s)' % (pstr(self.n), (' / ' + '*'.join('(%s)^%d' % (pstr(factors[i]), e)
                            for i, e in self.d.items())) if self.d else '')


def pstr(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda x: glex(x[0]), reverse=True):
        out.append('*'.join([str(c)] + ['%s%s' % (atoms[i].name, '^%d' % e if e > 1 else '') for i, e in m]))
        if len(out) > 30:
            out.append('...[%d terms]' % len(p))
            break
    return ' + '.join(out)


def mk(n, d):
    """normalise a real value"""
    if not n:
        return 0
    if d:
        d2 = {}
        for i, e in d.items():
            f = factors[i]
            while e:
                q = pdiv_exact(n, f)
                if q is None:
                    break
                n = q
                e -= 1
            if e:
                d2[i] = e
        d = d2
    if not d and len(n) == 1 and ONE in n:
        return n[ONE]
    return Q(n, d)


def num(x):
    """(numerator, denominators) of a number or Q"""
    if type(x) is Q:
        return x.n, x.d
    return pc(x), {}


def radd(a, b, sub=False):
    if type(a) is not Q and type(b) is not Q:
        return a - b if sub else a + b
    an, ad = num(a)
    bn, bd = num(b)
    if ad == bd:
        n = psub(an, bn) if sub else padd(an, bn)
        return mk(n, ad)
    # lcm
    l = dict(ad)
    for i, e in bd.items():
        if l.get(i, 0) < e:
            l[i] = e
    ma = {i: e - ad.get(i, 0) for i, e in l.items() if e > ad.get(i, 0)}
    mb = {i: e - bd.get(i, 0) for i, e in l.items() if e > bd.get(i, 0)}
    if ma:
        an = pmul(an, expand(ma))
    if mb:
        bn = pmul(bn, expand(mb))
    n = psub(an, bn) if sub else padd(an, bn)
    return mk(n, l)


def rmul(a, b):
    if type(a) is not Q:
        if type(b) is not Q:
            return a * b
        a, b = b, a
    if type(b) is not Q:
        if not b:
            return 0
        if b == 1:
            return a
        return Q(pscale(a.n, b), a.d)
    an, ad = a.n, a.d
    bn, bd = b.n, b.d
    if bd:
        an, bd = cancel(an, bd)
    if ad:
        bn, ad = cancel(bn, ad)
    n = pmul(an, bn)
    d = dict(ad)
    for i, e in bd.items():
        d[i] = d.get(i, 0) + e
    if not d and len(n) == 1 and ONE in n:
        return n[ONE]
    return Q(n, d)


def cancel(n, d):
    d2 = {}
    for i, e in d.items():
        f = factors[i]
        while e:
            q = pdiv_exact(n, f)
            if q is None:
                break
            n = q
            e -= 1
        if e:
            d2[i] = e
    return n, d2


def rinv(a):
    """1/a, a Q known nonzero"""
    if type(a) is not Q:
        return 1 / Fr(a)
    c, fs = split_factor(a.n)
    n = expand(a.d) if a.d else pc(1)
    n = pscale(n, 1 / Fr(c))
    return mk(n, fs)


def rneg(a):
    if type(a) is Q:
        return Q(pneg(a.n), a.d, a.isint, -a.hi if a.hi is not None else None, -a.lo if a.lo is not None else None)
    return -a


# ------------------------------------------------------------------ booleans
class B:
    __slots__ = ('op', 'a', 'b', 'id', '_z', 'neg')


btab = {}
bools = []
polys = []
poly_idx = {}
poly_z = {}
NEG, ZERO, POS = 1, 2, 4


def mkb(op, a, b=None):
    k = (op, a if not isinstance(a, B) else ('b', a.id), b if not isinstance(b, B) else ('b', b.id))
    r = btab.get(k)
    if r is None:
        r = B()
        r.op = op
        r.a = a
        r.b = b
        r.id = len(bools)
        r._z = None
        r.neg = None
        bools.append(r)
        btab[k] = r
    return r


def reg_poly(p):
    k = pkey(p)
    i = poly_idx.get(k)
    if i is None:
        i = len(polys)
        polys.append(p)
        poly_idx[k] = i
    return i


def all_int(p):
    for m in p:
        for i, e in m:
            if not atoms[i].isint:
                return False
    return True


def sign_b(p, mask):
    """boolean: sign of polynomial p is in mask"""
    if not p:
        return bool(mask & ZERO)
    if len(p) == 1 and ONE in p:
        return bool(mask & (POS if p[ONE] > 0 else NEG))
    # canonical scale
    m = None
    best = None
    for k in p:
        if k == ONE:
            continue
        kk = glex(k)
        if best is None or kk > best:
            best = kk
            m = k
    c = p[m]
    if c < 0:
        mask = ((mask & NEG) and POS) | (mask & ZERO) | ((mask & POS) and NEG)
    if c != 1:
        c = Fr(c)
        p = {k: v / c for k, v in p.items()}
    if mask == 0:
        return False
    if mask == 7:
        return True
    # sums of even squares quick facts are left to the solver
    return mkb('s', reg_poly(p), mask)


def rcmp(a, b, mask):
    """sign(a-b) in mask for real-valued numbers/Qs"""
    if type(a) is not Q and type(b) is not Q:
        d = a - b
        return bool(mask & (POS if d > 0 else (NEG if d < 0 else ZERO)))
    d = radd(a, b, True)
    if type(d) is not Q:
        return bool(mask & (POS if d > 0 else (NEG if d < 0 else ZERO)))
    n = d.n
    if d.d:
        if mask in (ZERO, NEG | POS):
            return sign_b(n, mask)
        odd = {i: 1 for i, e in d.d.items() if e % 2}
        if odd:
            n = pmul(n, expand(odd))
    return sign_b(n, mask)


def bnot(x):
    if type(x) is not B:
        return not x
    if x.op == 's':
        return mkb('s', x.a, 7 ^ x.b)
    if x.op == '!':
        return x.a
    return mkb('!', x)


def band(x, y):
    if type(x) is not B:
        return y if x else False
    if type(y) is not B:
        return x if y else False
    if x is y:
        return x
    if x.op == 's' and y.op == 's' and x.a == y.a:
        m = x.b & y.b
        return mkb('s', x.a, m) if m else False
    return mkb('&', x, y)


def bor(x, y):
    if type(x) is not B:
        return True if x else y
    if type(y) is not B:
        return True if y else x
    if x is y:
        return x
    if x.op == 's' and y.op == 's' and x.a == y.a:
        m = x.b | y.b
        return mkb('s', x.a, m) if m != 7 else True
    return mkb('|', x, y)


def bxor(x, y):
    if type(x) is not B:
        return bnot(y) if x else y
    if type(y) is not B:
        return bnot(x) if y else x
    if x is y:
        return False
    return mkb('^', x, y)


def zconst(c, real):
    c = Fr(c)
    if real:
        return z3.RealVal('%d/%d' % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)
    return z3.IntVal(c.numerator)


_monoz = {}


def monoz(m, real):
    k = (m, real)
    r = _monoz.get(k)
    if r is None:
        fs = []
        for i, e in m:
            a = atoms[i]
            fs += [a.z_real if real else a.z] * e
        r = fs[0]
        for f in fs[1:]:
            r = r * f
        _monoz[k] = r
    return r


def zpoly(p, real):
    ts = []
    for m, c in sorted(p.items(), key=lambda x: x[0]):
        if m == ONE:
            ts.append(zconst(c, real))
        elif c == 1:
            ts.append(monoz(m, real))
        else:
            ts.append(zconst(c, real) * monoz(m, real))
    if not ts:
        return zconst(0, real)
    if len(ts) == 1:
        return ts[0]
    return z3.Sum(ts)


def polyz(pid):
    r = poly_z.get(pid)
    if r is None:
        p = polys[pid]
        if all_int(p):
            l = 1
            for c in p.values():
                c = Fr(c)
                l = l * c.denominator // __import__('math').gcd(l, c.denominator)
            p = pscale(p, l)
            r = (zpoly(p, False), z3.IntVal(0))
        else:
            # scale to integers as well: smaller numerals
            r = (zpoly(p, True), z3.RealVal(0))
        poly_z[pid] = r
    return r


def bz(b):
    if type(b) is not B:
        return z3.BoolVal(bool(b))
    z = b._z
    if z is None:
        o = b.op
        if o == 's':
            e, zero = polyz(b.a)
            m = b.b
            z = {NEG: lambda: e < zero, NEG | ZERO: lambda: e <= zero, ZERO: lambda: e == zero,
                 NEG | POS: lambda: e != zero, POS: lambda: e > zero, POS | ZERO: lambda: e >= zero}[m]()
        elif o == '!':
            z = z3.Not(bz(b.a))
        elif o == '&':
            z = z3.And(bz(b.a), bz(b.b))
        elif o == '|':
            z = z3.Or(bz(b.a), bz(b.b))
        elif o == '^':
            z = z3.Xor(bz(b.a), bz(b.b))
        elif o == 'z':
            z = b.b
        else:
            raise Unsupported('bz ' + o)
        b._z = z
    return z


_relaxed = {}
_rz = {}


def bzr(b):
    """as bz, with the integer atoms taken as reals (weaker: only an 'unsat' carries over); None if not expressible"""
    if type(b) is not B:
        return z3.BoolVal(bool(b))
    if b.id in _relaxed:
        return _relaxed[b.id]
    o = b.op
    if o == 's':
        ts = []
        for m, c in sorted(polys[b.a].items(), key=lambda x: x[0]):
            t = zconst(c, True)
            for i, e in m:
                a = atoms[i]
                if a.isint:
                    z = _rz.get(i)
                    if z is None:
                        z = _rz[i] = z3.Real(a.name + '_r')
                else:
                    z = a.z
                for _ in range(e):
                    t = t * z
            ts.append(t)
        e, zero, m = z3.Sum(ts), z3.RealVal(0), b.b
        z = {NEG: lambda: e < zero, NEG | ZERO: lambda: e <= zero, ZERO: lambda: e == zero,
             NEG | POS: lambda: e != zero, POS: lambda: e > zero, POS | ZERO: lambda: e >= zero}[m]()
    elif o == '!':
        x = bzr(b.a)
        z = None if x is None else z3.Not(x)
    elif o in '&|^':
        x, y = bzr(b.a), bzr(b.b)
        z = None if x is None or y is None else {'&': z3.And, '|': z3.Or, '^': z3.Xor}[o](x, y)
    else:
        z = None
    _relaxed[b.id] = z
    return z


def qz(x):
    """z3 real term for a number or Q"""
    if type(x) is not Q:
        return zconst(x, True)
    n = zpoly(x.n, True)
    if x.d:
        return n / zpoly(expand(x.d), True)
    return n


def degree(p):
    return max((sum(e for _, e in m) for m in p), default=0)


def b_nonlinear(b):
    if type(b) is not B:
        return False
    if b.op == 's':
        return degree(polys[b.a]) > 1
    if b.op == 'z':
        return True
    return b_nonlinear(b.a) or (b.b is not None and b_nonlinear(b.b))


# ------------------------------------------------------------------ evaluation under a model {atom idx: Fraction}
def peval(p, model):
    s = 0
    for m, c in p.items():
        for i, e in m:
            v = model.get(i)
            if v is None:
                return None
            c = c * (v if e == 1 else v ** e)
        s += c
    return s


def beval(b, model):
    if type(b) is not B:
        return bool(b)
    o = b.op
    if o == 's':
        v = peval(polys[b.a], model)
        if v is None:
            return None
        return bool(b.b & (POS if v > 0 else (NEG if v < 0 else ZERO)))
    if o == '!':
        v = beval(b.a, model)
        return None if v is None else not v
    if o == 'z':
        return None
    x = beval(b.a, model)
    y = beval(b.b, model)
    if o == '&':
        if x is False or y is False:
            return False
        return None if x is None or y is None else True
    if o == '|':
        if x is True or y is True:
            return True
        return None if x is None or y is None else False
    if o == '^':
        return None if x is None or y is None else (x != y)
    return None


def qeval(q, model):
    if type(q) is not Q:
        return q
    n = peval(q.n, model)
    if n is None:
        return None
    for i, e in q.d.items():
        f = peval(factors[i], model)
        if f is None or f == 0:
            return None
        n = Fr(n) / f ** e
    return n
