"""External functions: harness intrinsics, allocation, C++ ABI, libm.  Everything not listed is Unsupported."""
from . import machine as mc
from .machine import *
from .codegen import ti_match, typeid_for

E = M.ext


def ext(*names):
    def d(f):
        for n in names:
            E[n] = f
        return f
    return d


def cstr(p):
    out = bytearray()
    while True:
        b = conc_int(load(p, 1, 0))
        if b == 0 or len(out) > 300:
            return out.decode('latin1')
        out.append(b)
        p += 1


def num_const(x):
    if type(x) is Q:
        raise Unsupported('symbolic harness bound')
    return x


# ---- harness intrinsics
@ext('vf_real')
def vf_real():
    q, a = new_input(False, None, None)
    M.inputs.append(('r', a))
    return q


@ext('vf_real_in')
def vf_real_in(lo, hi):
    q, a = new_input(False, num_const(lo), num_const(hi))
    M.inputs.append(('r', a))
    return q


@ext('vf_int')
def vf_int(lo, hi):
    lo, hi = S(lo, 64), S(hi, 64)
    if lo == hi:
        M.inputs.append(('i', lo))
        return lo & ((1 << 64) - 1)
    q, a = new_input(True, lo, hi)
    M.inputs.append(('i', a))
    return q


@ext('vf_choice')
def vf_choice(n):
    n = conc_int(n)
    k = choice(n) if n > 1 else 0
    M.inputs.append(('i', k))
    return k


@ext('vf_assume')
def vf_assume(c):
    assume(tob(c))


@ext('vf_assert')
def vf_assert(c, tag):
    do_assert(tob(c), cstr(tag))


@ext('vf_eq')
def vf_eq(a, b, tag):
    t = cstr(tag)
    if a is UNDEF or b is UNDEF:
        fatal('undef', 'comparison of an uninitialised value: ' + t)
    if type(a) is float or type(b) is float:
        if type(a) is float and type(b) is float and (a == b or (a != a and b != b)):
            mc.ST.asserts += 1
            mc.ST.discharged_nf += 1
            return
        do_assert(False, t)
        return
    d = radd(a, b, True)
    if type(d) is not Q:
        if d != 0 and abs(float(d)) <= 1e-12 * (1 + abs(float(a)) if type(a) is not Q else 1):
            d = 0
        if d == 0 and (type(a) is Q or type(b) is Q):
            confirm(a, b)
        do_assert(d == 0, t)
        return
    do_assert(rcmp(d, 0, ZERO), t, d)


def confirm(a, b):
    """an equality closed by the normal form is also put to z3 (on the two sides, within a size limit)"""
    if mc.ST.nf_confirmed >= 60 or (type(a) is Q and len(a.n) > 60) or (type(b) is Q and len(b.n) > 60):
        return
    s = z3.Solver()
    s.set('timeout', 500)
    s.add(qz(a) != qz(b))
    mc.ST.queries += 1
    if s.check() == z3.unsat:
        mc.ST.nf_confirmed += 1


@ext('vf_cover')
def vf_cover(tag):
    t = cstr(tag)
    M.tags.add(t)


@ext('vf_concretize')
def vf_concretize(v):
    return conc_int(v)


@ext('vf_skip')
def vf_skip(p):
    raise Unsupported('skipped: ' + cstr(p))


@ext('vf_end')
def vf_end():
    raise PathEnd()


@ext('vf_opaque')
def vf_opaque(v):
    return v


@ext('vf_is_symbolic')
def vf_is_symbolic():
    return 1


# ---- allocation
@ext('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def new(n, *a):
    n = conc_int(n)
    if n > 1 << 26:
        raise Unsupported('huge allocation')
    return alloc(n, 'heap')


@ext('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvRKSt9nothrow_t', '_ZdaPvRKSt9nothrow_t', '_ZdlPvSt11align_val_t',
     '_ZdlPvmSt11align_val_t', '_ZdaPvSt11align_val_t')
def delete(p, *a):
    free(p, 'heap')


@ext('memcpy', 'memmove')
def memcpy_(d, s, n):
    memcpy(d, s, n)
    return d


@ext('memset')
def memset_(d, v, n):
    memset(d, v, n)
    return d


@ext('strlen')
def strlen(p):
    return len(cstr(p))


@ext('bcmp', 'memcmp')
def memcmp(a, b, n):
    n = conc_int(n)
    for i in range(n):
        x, y = conc_int(load(a + i, 1, 0)), conc_int(load(b + i, 1, 0))
        if x != y:
            return 1 if x > y else 0xffffffff
    return 0


# ---- failure
@ext('__assert_fail')
def assert_fail(e, f, l, fn):
    fatal('assert_fail', 'library assertion failed: %s (%s:%s)' % (cstr(e), cstr(f).split('/')[-1], l))


@ext('_ZSt21__glibcxx_assert_failPKciS0_S0_')
def glibcxx_assert(f, l, fn, e):
    fatal('assert_fail', 'libstdc++ assertion failed: %s' % (cstr(e) if e else ''))


@ext('abort', '_ZSt9terminatev', '__clang_call_terminate', '__cxa_pure_virtual')
def abort(*a):
    fatal('abort', 'abort/terminate called')


def thrower(kind):
    def f(*a):
        raise CxxThrow(-1, ('std', kind))
    return f


for n in ('_ZSt20__throw_length_errorPKc', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt17__throw_bad_allocv',
          '_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc'):
    def mk_thrower(n=n):
        def f(*a):
            fatal('throw', 'standard library exception raised: ' + n)
        return f
    E[n] = mk_thrower()


# ---- C++ ABI
@ext('__cxa_allocate_exception')
def cxa_alloc(n):
    return alloc(conc_int(n), 'exc')


@ext('__cxa_free_exception')
def cxa_free(p):
    return None


@ext('__cxa_throw')
def cxa_throw(p, ti, d):
    raise CxxThrow(p, ti)


@ext('__cxa_begin_catch')
def begin_catch(p):
    M.caught.append(p)
    return p


@ext('__cxa_end_catch')
def end_catch():
    if M.caught:
        M.caught.pop()


@ext('__cxa_rethrow')
def rethrow():
    raise M.exc[M.caught[-1]]


@ext('__cxa_guard_acquire')
def guard_acquire(p):
    v = load(p, 1, 0)
    return 0 if v else 1


@ext('__cxa_guard_release')
def guard_release(p):
    store(p, 1, 1, 0)


@ext('__cxa_guard_abort', '__cxa_atexit', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev')
def nothing(*a):
    return 0


@ext('__gxx_personality_v0')
def pers(*a):
    return 0


@ext('_ZNSt9exceptionD2Ev', '_ZNSt13runtime_errorD2Ev', '_ZNSt11logic_errorD2Ev', '_ZNSt13runtime_errorD1Ev')
def dtor(*a):
    return None


@ext('_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
     '_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
     '_ZNSt13runtime_errorC2EPKc', '_ZNSt13runtime_errorC1EPKc',
     '_ZNSt13runtime_errorC2ERKS_')
def rt_error(*a):
    return None


# ---- message formatting on the way to a throw: the text is not modelled (no property depends on it)
_OSS = '_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE'


@ext(_OSS + 'D1Ev', _OSS + 'D2Ev')
def oss_life(*a):
    return None


def fake_stream(p, vbase):
    """inlined inserters read the field width through the virtual base"""
    vt = alloc(32, 'heap')
    store(vt, vbase, 8, 0)
    store(p, vt + 24, 8, 0)
    store(p + vbase + 16, 0, 8, 0)


@ext(_OSS + 'C1Ev', _OSS + 'C2Ev')
def oss_ctor(self, *a):
    fake_stream(self, 112)


@ext('_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l', '_ZNSo9_M_insertImEERSoT_',
     '_ZNSo9_M_insertIlEERSoT_', '_ZNSo9_M_insertIdEERSoT_', '_ZNSolsEi', '_ZNSolsEj',
     '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc')
def os_put(os, *a):
    return os


@ext('_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv',
     '_ZNKRSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv',
     '_ZNKSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEE3strEv')
def oss_str(ret, self):
    store(ret, ret + 16, 8, 0)
    store(ret + 8, 0, 8, 0)
    store(ret + 16, 0, 1, 0)


@ext('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_disposeEv',
     '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED1Ev', '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED2Ev')
def str_dtor(*a):
    return None


# ---- libm
@ext('sqrt', 'sqrtf')
def sqrt_(x):
    return fsqrt(x)


@ext('pow', 'powf')
def pow_(x, y):
    return fpow(x, y)


@ext('log', 'logf')
def log_(x):
    return flog(x)


@ext('exp', 'expf')
def exp_(x):
    return fexp(x)


@ext('floor', 'floorf')
def floor_(x):
    return ffloor(x)


@ext('ceil', 'ceilf')
def ceil_(x):
    return fceil(x)


@ext('fabs', 'fabsf')
def fabs__(x):
    return fabs_(x)


@ext('fmin')
def fmin_(a, b):
    return fminmax(a, b, False)


@ext('fmax')
def fmax_(a, b):
    return fminmax(a, b, True)


@ext('__divdc3')
def divdc3(a, b, c, d):
    den = fadd(fmul(c, c), fmul(d, d))
    return (fdiv(fadd(fmul(a, c), fmul(b, d)), den), fdiv(fsub(fmul(b, c), fmul(a, d)), den))


@ext('__muldc3')
def muldc3(a, b, c, d):
    return (fsub(fmul(a, c), fmul(b, d)), fadd(fmul(a, d), fmul(b, c)))


@ext('trunc')
def trunc_(x):
    return mc.ftrunc(x)


@ext('round')
def round_(x):
    return mc.fround(x)


@ext('rint', 'nearbyint')
def rint_(x):
    return mc.frint(x)


@ext('lround', 'llround')
def lround_(x):
    return fptoint(mc.fround(x), 64, True)


@ext('fmod')
def fmod_(x, y):
    return mc.ffmod(x, y)


@ext('hypot')
def hypot_(x, y):
    return mc.fhypot(x, y)


@ext('__mulsc3')
def mulsc3(a, b, c, d):
    return muldc3(a, b, c, d)


@ext('calloc')
def calloc(n, s):
    n = conc_int(n) * conc_int(s)
    p = alloc(n, 'heap')
    memset(p, 0, n)
    return p


# ---- the node operations of std::list and std::map/set, which live in libstdc++.so
def _g(p, o):
    return load(p + o, 8, 0)


def _s(p, o, v):
    store(p + o, v, 8, 0)


@ext('_ZNSt8__detail15_List_node_base7_M_hookEPS0_')
def list_hook(self, pos):
    prev = _g(pos, 8)
    _s(self, 0, pos)
    _s(self, 8, prev)
    _s(prev, 0, self)
    _s(pos, 8, self)


@ext('_ZNSt8__detail15_List_node_base9_M_unhookEv')
def list_unhook(self):
    n, p = _g(self, 0), _g(self, 8)
    _s(p, 0, n)
    _s(n, 8, p)


@ext('_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_')
def list_transfer(self, first, last):
    if self == last:
        return
    lp, fp, sp = _g(last, 8), _g(first, 8), _g(self, 8)
    _s(lp, 0, self)
    _s(fp, 0, last)
    _s(sp, 0, first)
    _s(self, 8, lp)
    _s(last, 8, fp)
    _s(first, 8, sp)


@ext('_ZNSt8__detail15_List_node_base4swapERS0_S1_')
def list_swap(x, y):
    ex, ey = _g(x, 0) == x, _g(y, 0) == y
    a, b, c, d = _g(x, 0), _g(x, 8), _g(y, 0), _g(y, 8)
    for e, n, m, t in ((ey, c, d, x), (ex, a, b, y)):
        if e:
            _s(t, 0, t)
            _s(t, 8, t)
        else:
            _s(t, 0, n)
            _s(t, 8, m)
            _s(n, 8, t)
            _s(m, 0, t)


@ext('_ZNSt8__detail15_List_node_base10_M_reverseEv')
def list_reverse(self):
    t = self
    while True:
        n, p = _g(t, 0), _g(t, 8)
        _s(t, 0, p)
        _s(t, 8, n)
        t = n
        if t == self:
            return


# tree nodes: colour 0, parent 8, left 16, right 24; kept unbalanced (only the order is observable); the header is red, nodes black
@ext('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
def rb_insert(left, x, p, header):
    store(x, 1, 4, 0)
    _s(x, 8, p)
    _s(x, 16, 0)
    _s(x, 24, 0)
    if branch(tob(left)):
        _s(p, 16, x)
        if p == header:
            _s(header, 8, x)
            _s(header, 24, x)
        elif p == _g(header, 16):
            _s(header, 16, x)
    else:
        _s(p, 24, x)
        if p == _g(header, 24):
            _s(header, 24, x)


@ext('_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base')
def rb_inc(x):
    if _g(x, 24):
        x = _g(x, 24)
        while _g(x, 16):
            x = _g(x, 16)
        return x
    y = _g(x, 8)
    while x == _g(y, 24):
        x, y = y, _g(y, 8)
    return y if _g(x, 24) != y else x


@ext('_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base')
def rb_dec(x):
    if conc_int(load(x, 4, 0)) == 0 and _g(_g(x, 8), 8) == x:
        return _g(x, 24)
    if _g(x, 16):
        x = _g(x, 16)
        while _g(x, 24):
            x = _g(x, 24)
        return x
    y = _g(x, 8)
    while x == _g(y, 16):
        x, y = y, _g(y, 8)
    return y


@ext('_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_')
def rb_erase(z, header):
    def replace(u, v):
        p = _g(u, 8)
        if _g(header, 8) == u:
            _s(header, 8, v)
        elif _g(p, 16) == u:
            _s(p, 16, v)
        else:
            _s(p, 24, v)
        if v:
            _s(v, 8, p)
    nxt = rb_inc(z) if z == _g(header, 16) else None
    prv = rb_dec(z) if z == _g(header, 24) and z != _g(header, 16) else None
    l, r = _g(z, 16), _g(z, 24)
    if not l:
        replace(z, r)
    elif not r:
        replace(z, l)
    else:
        y = r
        while _g(y, 16):
            y = _g(y, 16)
        if y != r:
            replace(y, _g(y, 24))
            _s(y, 24, r)
            _s(r, 8, y)
        replace(z, y)
        _s(y, 16, l)
        _s(l, 8, y)
    if not _g(header, 8):
        _s(header, 16, header)
        _s(header, 24, header)
    else:
        if nxt is not None:
            _s(header, 16, nxt)
        if prv is not None:
            _s(header, 24, prv)
    return z


# ---- strings, for messages: the text is not modelled
_STR = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'


@ext(_STR + '9_M_appendEPKcm', _STR + '10_M_replaceEmmPKcm', _STR + '6appendEPKc', _STR + '14_M_replace_auxEmmmc', _STR + '6assignEPKc')
def str_append(self, *a):
    return self


@ext(_STR + '9_M_createERmm')
def str_create(self, cap, old):
    return alloc(conc_int(load(cap, 8, 0)) + 1, 'heap')


@ext(_STR + 'C1EPKcRKS3_', _STR + 'C2EPKcRKS3_')
def str_ctor(self, *a):
    store(self, self + 16, 8, 0)
    store(self + 8, 0, 8, 0)
    store(self + 16, 0, 1, 0)


_SS = '_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE'
for _n in ('D1Ev', 'D2Ev'):
    E[_SS + _n] = oss_life


@ext(_SS + 'C1Ev', _SS + 'C2Ev')
def ss_ctor(self, *a):
    fake_stream(self, 128)
    fake_stream(self + 16, 112)


for _n in ('_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv', '_ZNKRSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv'):
    E[_n] = oss_str
for _n in ('_ZNSo9_M_insertIbEERSoT_', '_ZNSo9_M_insertIeEERSoT_', '_ZNSo9_M_insertIyEERSoT_', '_ZNSo9_M_insertIxEERSoT_', '_ZNSolsEs', '_ZNSolsEt',
           '_ZNSo3putEc', '_ZNSo5flushEv', '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c',
           '_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_'):
    E[_n] = os_put

M.ext_prefix = []
