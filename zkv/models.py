"""Contracts assumed for functions that are not part of ZenKit (C/C++ run-time, libc, LLVM intrinsics).

Every model used by a run is listed in the evidence as an assumption."""
import z3
import ir
from values import *
from engine import CxxThrow, KillPath, Violation, CALL, Obj

MODELS = {}
PREFIX = []


def model(*names):
    def deco(f):
        for n in names:
            if n.endswith('*'):
                PREFIX.append((n[:-1], f))
            else:
                MODELS[n] = f
        return f
    return deco


def conc(E, st, v, what='value'):
    return E.concretize(st, v)


# ------------------------------------------------------------------ intrinsics
@model('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64')
def m_memcpy(E, st, a, name, rty, tys):
    E.memcpy(st, a[0], a[1], a[2])


@model('memcpy', 'memmove')
def m_memcpy2(E, st, a, name, rty, tys):
    E.memcpy(st, a[0], a[1], a[2])
    return a[0]


@model('llvm.memset.p0.i64', 'memset')
def m_memset(E, st, a, name, rty, tys):
    b = a[1]
    if name == 'memset':
        b = E.trunc(st, b, 32, 8)
    E.memset(st, a[0], b, a[2])
    return a[0]


@model('llvm.expect.i64', 'llvm.expect.i1', 'llvm.expect.i32')
def m_expect(E, st, a, name, rty, tys):
    return a[0]


@model('llvm.is.constant.*')
def m_isconst(E, st, a, name, rty, tys):
    return 0


@model('llvm.objectsize.*')
def m_objsize(E, st, a, name, rty, tys):
    return MASK[rty.w]


@model('llvm.trap', 'abort', '_ZSt9terminatev', '__clang_call_terminate', '__cxa_pure_virtual', 'llvm.ubsantrap')
def m_trap(E, st, a, name, rty, tys):
    E.fail(st, 'no-abort', '%s reached via %s' % (name, E.where(st)))


@model('llvm.fshl.*')
def m_fshl(E, st, a, name, rty, tys):
    w = rty.w
    x, y, s = a
    if type(x) is int and type(y) is int and type(s) is int:
        s %= w
        return ((x << s) | (y >> (w - s))) & MASK[w] if s else x
    X, Y = bv(E.defd(st, x, w), w), bv(E.defd(st, y, w), w)
    if type(s) is int:
        s %= w
        if s == 0:
            return X
        return z3.simplify(z3.Concat(z3.Extract(w - 1 - s, 0, X), z3.Extract(w - 1, w - s, Y)))
    raise Unsupported('fshl')


@model('llvm.bswap.*')
def m_bswap(E, st, a, name, rty, tys):
    w = rty.w
    x = a[0]
    if type(x) is int:
        return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
    return z3.simplify(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)]))


@model('llvm.ctlz.*', 'llvm.cttz.*', 'llvm.ctpop.*')
def m_ct(E, st, a, name, rty, tys):
    w = rty.w
    x = a[0]
    if type(x) is int:
        if 'ctpop' in name:
            return bin(x).count('1')
        if 'ctlz' in name:
            return w - x.bit_length()
        return w if x == 0 else (x & -x).bit_length() - 1
    x = bv(x, w)
    if 'ctpop' in name:
        r = z3.BitVecVal(0, w)
        for i in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
        return r
    r = z3.BitVecVal(w, w)
    if 'ctlz' in name:
        for i in range(w):
            r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
    else:
        for i in reversed(range(w)):
            r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
    return r


@model('llvm.abs.*')
def m_abs(E, st, a, name, rty, tys):
    w = rty.w
    x = a[0]
    if type(x) is int:
        return abs(signed(x, w)) & MASK[w]
    return z3.If(x < 0, -x, x)


def _mm(op):
    def f(E, st, a, name, rty, tys):
        w = rty.w
        c = E.icmp(st, op, a[0], a[1], w)
        if type(c) is int:
            return a[0] if c else a[1]
        return z3.simplify(z3.If(c, bv(a[0], w), bv(a[1], w)))
    return f


for _n, _o in (('llvm.umin.', 'ult'), ('llvm.umax.', 'ugt'), ('llvm.smin.', 'slt'), ('llvm.smax.', 'sgt')):
    PREFIX.append((_n, _mm(_o)))


@model('llvm.uadd.with.overflow.*', 'llvm.umul.with.overflow.*', 'llvm.usub.with.overflow.*', 'llvm.sadd.with.overflow.*',
       'llvm.ssub.with.overflow.*', 'llvm.smul.with.overflow.*')
def m_ovf(E, st, a, name, rty, tys):
    w = tys[0].w
    op = name[6:9]
    sg = name[5] == 's'
    x, y = a
    if type(x) is int and type(y) is int:
        X, Y = (signed(x, w), signed(y, w)) if sg else (x, y)
        r = X + Y if op == 'add' else X - Y if op == 'sub' else X * Y
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, MASK[w])
        return (r & MASK[w], int(not lo <= r <= hi))
    x, y = E.defd(st, x, w), E.defd(st, y, w)
    ext = z3.SignExt if sg else z3.ZeroExt
    n = w if op == 'mul' else 1
    X, Y = ext(n, bv(x, w)), ext(n, bv(y, w))
    r = X + Y if op == 'add' else X - Y if op == 'sub' else X * Y
    lo = z3.simplify(z3.Extract(w - 1, 0, r))
    o = z3.simplify(ext(n, lo) != r)
    return (lo, o)


@model('llvm.usub.sat.*', 'llvm.uadd.sat.*')
def m_sat(E, st, a, name, rty, tys):
    w = rty.w
    x, y = a
    if type(x) is int and type(y) is int:
        return max(0, x - y) if 'usub' in name else min(MASK[w], x + y)
    X, Y = bv(x, w), bv(y, w)
    if 'usub' in name:
        return z3.If(z3.ULT(X, Y), z3.BitVecVal(0, w), X - Y)
    return z3.If(z3.ULT(X + Y, X), z3.BitVecVal(MASK[w], w), X + Y)


@model('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def m_typeid(E, st, a, name, rty, tys):
    return E.type_id(a[0])


import math


@model('llvm.ceil.f64', 'llvm.ceil.f32', 'llvm.floor.f64', 'llvm.floor.f32', 'llvm.sqrt.f32', 'llvm.sqrt.f64', 'sqrtf', 'sqrt',
       'ceilf', 'ceil', 'floorf', 'floor')
def m_fun1(E, st, a, name, rty, tys):
    w = rty.w
    x = E.defd(st, a[0], w)
    nm = 'sqrt' if 'sqrt' in name else 'ceil' if 'ceil' in name else 'floor'
    if type(x) is int:
        f = b2f(x, w)
        if nm == 'sqrt':
            if f < 0 or f != f:
                return f2b(float('nan'), w)
            return f2b(math.sqrt(f), w)
        if math.isinf(f) or f != f:
            return x
        return f2b(float(getattr(math, nm)(f)), w)
    if E.fp_exact:
        if nm == 'sqrt':
            return z3.fpToIEEEBV(z3.fpSqrt(RNE, tofp(x, w)))
        return z3.fpToIEEEBV(z3.fpRoundToIntegral(z3.RTP() if nm == 'ceil' else z3.RTN(), tofp(x, w)))
    s = z3.BitVecSort(w)
    return uf('%s%d' % (nm, w), s, s)(x)


@model('llvm.fabs.f32', 'llvm.fabs.f64', 'fabsf', 'fabs')
def m_fabs(E, st, a, name, rty, tys):
    return E.binop(st, 'and', a[0], MASK[rty.w - 1], rty.w)


@model('llvm.va_start', 'llvm.va_copy')
def m_vastart(E, st, a, name, rty, tys):
    va = list(st.frames[-1].va or [])
    st.g.setdefault('#va', {})[a[0].o] = va


# ------------------------------------------------------------------ allocation
@model('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamRKSt9nothrow_t', '_ZnwmRKSt9nothrow_t')
def m_new(E, st, a, name, rty, tys):
    n = a[0]
    if type(n) is not int:
        n = z3.simplify(n)
        if isinstance(n, z3.BitVecNumRef):
            n = n.as_long()
        else:
            if not E.decide(st, z3.ULE(n, 1 << 40)):
                throw_std(E, st, '_ZTISt9bad_alloc')
            return E.alloc_sym(st, n)
    if n > (1 << 30):
        throw_std(E, st, '_ZTISt9bad_alloc')
    return E.alloc(st, n, 'heap object allocated in ' + E.where(st)[:60])


@model('calloc')
def m_calloc(E, st, a, name, rty, tys):
    n = conc(E, st, a[0]) * conc(E, st, a[1])
    return E.alloc(st, n, 'calloc', fill=0)


@model('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def m_delete(E, st, a, name, rty, tys):
    p = a[0]
    if type(p) is int and p == 0:
        return
    if not isinstance(p, Ptr):
        E.fail(st, 'memory-safety', 'free of an invalid pointer in %s' % E.where(st))
    o = E.obj(st, p.o)
    if not o.alive:
        E.fail(st, 'memory-safety', 'double free in %s' % E.where(st))
    if o.kind not in ('heap',) or not (type(p.off) is int and p.off == 0):
        E.fail(st, 'memory-safety', 'free of a pointer that was not allocated (%s) in %s' % (o.name, E.where(st)))
    d = Obj(0, o.base, o.name, None, 'heap')
    d.alive = False
    d.own = st.tok
    st.mem[p.o] = d


@model('realloc')
def m_realloc(E, st, a, name, rty, tys):
    n = conc(E, st, a[1])
    q = E.alloc(st, n, 'realloc')
    if isinstance(a[0], Ptr):
        old = E.obj(st, a[0].o).size
        E.memcpy(st, q, a[0], min(n, old))
        m_delete(E, st, [a[0]], name, rty, tys)
    return q


# ------------------------------------------------------------------ exceptions
def throw_std(E, st, ti, msg=None):
    p = E.alloc(st, 64, 'exception object', 'exc')
    vt = std_vtable(E, st, ti)
    E.store(st, p, 8, vt)
    E.store(st, Ptr(p.o, 8), 8, msg if msg is not None else cstr(E, st, ti))
    st.g['#exctype'] = dict(st.g['#exctype'])
    st.g['#exctype'][p.o] = E.global_ptr(ti)
    raise CxxThrow(p, None)


def cstr(E, st, s):
    if isinstance(s, str):
        s = s.encode('latin-1')
    q = E.alloc(st, len(s) + 1, 'string', 'heap', fill=s + b'\0')
    return q


def std_vtable(E, st, ti):
    v = E.alloc(st, 64, 'vtable of ' + ti, 'vtable')
    f = E.alloc(st, 1, 'virtual function', 'func')
    E.obj(st, f.o).x = std_what
    for i in range(5):
        E.store(st, Ptr(v.o, i * 8), 8, f)
    return v


def std_what(E, st, argv, ret):
    return E.load(st, Ptr(argv[0].o, argv[0].off + 8), 8)


THROWS = {
    '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error', '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error',
    '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range', '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
    '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc', '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length',
    '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call',
    '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument', '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast',
    '__cxa_bad_cast': '_ZTISt8bad_cast', '_ZSt20__throw_system_errori': '_ZTISt12system_error',
    '__cxa_throw_bad_array_new_length': '_ZTISt20bad_array_new_length', '__cxa_bad_typeid': '_ZTISt10bad_typeid',
    '_ZSt21__throw_runtime_errorPKc': '_ZTISt13runtime_error',
}


def _throw(E, st, a, name, rty, tys):
    throw_std(E, st, THROWS[name])


for _n in THROWS:
    MODELS[_n] = _throw


@model('__cxa_allocate_exception')
def m_allocexc(E, st, a, name, rty, tys):
    return E.alloc(st, a[0], 'exception object', 'exc')


@model('__cxa_free_exception')
def m_freeexc(E, st, a, name, rty, tys):
    return None


@model('__cxa_throw')
def m_throw(E, st, a, name, rty, tys):
    st.g['#exctype'] = dict(st.g['#exctype'])
    st.g['#exctype'][a[0].o] = a[1]
    raise CxxThrow(a[0], a[1])


@model('__cxa_begin_catch', '__cxa_get_exception_ptr')
def m_begin(E, st, a, name, rty, tys):
    if name == '__cxa_begin_catch':
        st.exc.append(a[0])
    return a[0]


@model('__cxa_end_catch')
def m_end(E, st, a, name, rty, tys):
    if st.exc:
        st.exc.pop()


@model('__cxa_rethrow')
def m_rethrow(E, st, a, name, rty, tys):
    raise CxxThrow(st.exc[-1], None)


@model('_ZSt9terminatev')
def m_term(E, st, a, name, rty, tys):
    E.fail(st, 'no-abort', 'std::terminate reached')


@model('__gxx_personality_v0', '__cxa_atexit', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev')
def m_nop(E, st, a, name, rty, tys):
    return 0


@model('__cxa_guard_acquire')
def m_guard(E, st, a, name, rty, tys):
    v = E.load(st, a[0], 1)
    return int(not (type(v) is int and v == 1))


@model('__cxa_guard_release')
def m_guardr(E, st, a, name, rty, tys):
    E.store(st, a[0], 1, 1)


@model('__cxa_guard_abort')
def m_guarda(E, st, a, name, rty, tys):
    return None


@model('__dynamic_cast')
def m_dyncast(E, st, a, name, rty, tys):
    p, src, dst = a[0], a[1], a[2]
    vt = E.load(st, p, 8)
    if not isinstance(vt, Ptr):
        E.fail(st, 'memory-safety', 'dynamic_cast on an object without vtable')
    top = E.load(st, Ptr(vt.o, vt.off - 16), 8)
    ti = E.load(st, Ptr(vt.o, vt.off - 8), 8)
    full = Ptr(p.o, p.off + signed(top, 64))
    r = E.find_base(E.gname[ti.o], E.gname[dst.o])
    if r is None:
        return 0
    return Ptr(full.o, full.off + r)


# std::exception family: implemented in libstdc++.so
@model('_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev', '_ZNSt13runtime_errorD2Ev', '_ZNSt13runtime_errorD1Ev',
       '_ZNSt11logic_errorD2Ev', '_ZNSt11logic_errorD1Ev', '_ZNSt12out_of_rangeD1Ev', '_ZNSt16invalid_argumentD1Ev')
def m_excdtor(E, st, a, name, rty, tys):
    return None


@model('_ZNSt13runtime_errorC2EPKc', '_ZNSt13runtime_errorC1EPKc', '_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
       '_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', '_ZNSt11logic_errorC2EPKc',
       '_ZNSt16invalid_argumentC1EPKc', '_ZNSt12out_of_rangeC1EPKc', '_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
       '_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', '_ZNSt13runtime_errorC2ERKS_',
       '_ZNSt13runtime_errorC1ERKS_', '_ZNSt11logic_errorC2ERKS_')
def m_rtctor(E, st, a, name, rty, tys):
    E.store(st, a[0], 8, std_vtable(E, st, 'std::runtime_error'))
    E.store(st, Ptr(a[0].o, a[0].off + 8), 8, cstr(E, st, 'runtime_error'))


@model('_ZNKSt9exception4whatEv', '_ZNKSt13runtime_error4whatEv')
def m_what(E, st, a, name, rty, tys):
    return cstr(E, st, 'std::exception')


# ------------------------------------------------------------------ C strings
def rd(E, st, p, i):
    return E.load(st, E.ptr_add(p, i), 1)


@model('strlen')
def m_strlen(E, st, a, name, rty, tys):
    n = 0
    while True:
        c = rd(E, st, a[0], n)
        if E.decide(st, E.icmp(st, 'eq', c, 0, 8)):
            return n
        n += 1
        if n > 100000:
            raise Unsupported('strlen')


@model('memcmp', 'bcmp')
def m_memcmp(E, st, a, name, rty, tys):
    n = conc(E, st, a[2])
    r = 0
    if n:
        E.deref(st, a[0], n, 'memcmp read')
        E.deref(st, a[1], n, 'memcmp read')
    for i in reversed(range(n)):
        x, y = rd(E, st, a[0], i), rd(E, st, a[1], i)
        if type(x) is int and type(y) is int:
            if x != y:
                r = 1 if x > y else MASK[32]
            continue
        x, y = bv(E.defd(st, x, 8), 8), bv(E.defd(st, y, 8), 8)
        if x.eq(y):
            continue
        r = z3.If(x == y, bv(r, 32), z3.If(z3.ULT(x, y), z3.BitVecVal(MASK[32], 32), z3.BitVecVal(1, 32)))
    return r if type(r) is int else z3.simplify(r)


def _strcmp(E, st, a, name, limit, fold):
    i = 0
    while i < limit:
        x, y = rd(E, st, a[0], i), rd(E, st, a[1], i)
        if fold:
            x, y = lower(E, st, x, 8), lower(E, st, y, 8)
        if not E.decide(st, E.icmp(st, 'eq', x, y, 8)):
            c = E.icmp(st, 'ult', x, y, 8)
            return MASK[32] if E.decide(st, c) else 1
        if E.decide(st, E.icmp(st, 'eq', x, 0, 8)):
            return 0
        i += 1
    return 0


@model('strcmp')
def m_strcmp(E, st, a, name, rty, tys):
    return _strcmp(E, st, a, name, 1 << 20, False)


@model('strncmp')
def m_strncmp(E, st, a, name, rty, tys):
    return _strcmp(E, st, a, name, conc(E, st, a[2]), False)


@model('strcasecmp', 'strncasecmp')
def m_strcase(E, st, a, name, rty, tys):
    return _strcmp(E, st, a, name, conc(E, st, a[2]) if 'n' in name[3:4] else 1 << 20, True)


@model('memchr')
def m_memchr(E, st, a, name, rty, tys):
    n = conc(E, st, a[2])
    c = E.trunc(st, a[1], 32, 8)
    for i in range(n):
        if E.decide(st, E.icmp(st, 'eq', rd(E, st, a[0], i), c, 8)):
            return E.ptr_add(a[0], i)
    return 0


@model('strchr')
def m_strchr(E, st, a, name, rty, tys):
    c = E.trunc(st, a[1], 32, 8)
    i = 0
    while True:
        x = rd(E, st, a[0], i)
        if E.decide(st, E.icmp(st, 'eq', x, c, 8)):
            return E.ptr_add(a[0], i)
        if E.decide(st, E.icmp(st, 'eq', x, 0, 8)):
            return 0
        i += 1


@model('strcpy', 'stpcpy')
def m_strcpy(E, st, a, name, rty, tys):
    n = m_strlen(E, st, [a[1]], name, rty, tys)
    E.memcpy(st, a[0], a[1], n + 1)
    return a[0] if name == 'strcpy' else E.ptr_add(a[0], n)


@model('strncpy')
def m_strncpy(E, st, a, name, rty, tys):
    n = conc(E, st, a[2])
    k = 0
    while k < n and not E.decide(st, E.icmp(st, 'eq', rd(E, st, a[1], k), 0, 8)):
        k += 1
    E.memcpy(st, a[0], a[1], k)
    E.memset(st, E.ptr_add(a[0], k), 0, n - k)
    return a[0]


def lower(E, st, c, w):
    if type(c) is int:
        return c + 32 if 65 <= c <= 90 else c
    c = E.defd(st, c, w)
    return z3.simplify(z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c))


def upper(E, st, c, w):
    if type(c) is int:
        return c - 32 if 97 <= c <= 122 else c
    c = E.defd(st, c, w)
    return z3.simplify(z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), c - 32, c))


@model('tolower')
def m_tolower(E, st, a, name, rty, tys):
    return lower(E, st, a[0], 32)


@model('toupper')
def m_toupper(E, st, a, name, rty, tys):
    return upper(E, st, a[0], 32)


ISRANGES = {
    'isspace': [(9, 13), (32, 32)], 'isdigit': [(48, 57)], 'isalpha': [(65, 90), (97, 122)],
    'isalnum': [(48, 57), (65, 90), (97, 122)], 'isupper': [(65, 90)], 'islower': [(97, 122)], 'isprint': [(32, 126)],
    'isxdigit': [(48, 57), (65, 70), (97, 102)], 'isblank': [(9, 9), (32, 32)],
}


def m_isx(E, st, a, name, rty, tys):
    c = E.defd(st, a[0], 32)
    rs = ISRANGES[name]
    if type(c) is int:
        return int(any(lo <= c <= hi for lo, hi in rs))
    return z3.simplify(z3.If(z3.Or(*[z3.And(z3.UGE(c, lo), z3.ULE(c, hi)) for lo, hi in rs]), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))


for _n in ISRANGES:
    MODELS[_n] = m_isx


# ------------------------------------------------------------------ hashing / unordered containers
def c_bytes(E, st, p, n):
    out = bytearray()
    for i in range(n):
        b = rd(E, st, p, i)
        if type(b) is not int:
            return None
        out.append(b)
    return bytes(out)


@model('_ZSt11_Hash_bytesPKvmm')
def m_hash(E, st, a, name, rty, tys):
    n = conc(E, st, a[1])
    if E.hash_len:
        return n
    d = c_bytes(E, st, a[0], n)
    if d is not None:
        import hashlib
        return int.from_bytes(hashlib.blake2b(d, digest_size=8).digest(), 'little')
    # hash values only steer bucket choice: with the option hash_len the hash is the length and there is one bucket
    # (all keys collide, which unordered containers must support)
    raise Unsupported('hash of symbolic string')


PRIMES = [2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753]


@model('_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm')
def m_need_rehash(E, st, a, name, rty, tys):
    nb, ne, ni = (conc(E, st, x) for x in a[1:4])
    if E.hash_len or E.one_bucket:
        return (0, 0)
    if ne + ni > nb or nb == 1:
        want = max(ne + ni, 11) + 1
        for p in PRIMES:
            if p >= want:
                return (1, p)
        raise Unsupported('rehash')
    return (0, 0)


@model('_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm')
def m_next_bkt(E, st, a, name, rty, tys):
    n = conc(E, st, a[1])
    if E.hash_len or E.one_bucket:
        return 1
    for p in PRIMES:
        if p >= n:
            return p
    raise Unsupported('rehash')


# ------------------------------------------------------------------ verification intrinsics
def label(E, st, p):
    s = bytearray()
    i = 0
    while True:
        c = rd(E, st, p, i)
        if type(c) is not int:
            raise Unsupported('symbolic label')
        if c == 0:
            return s.decode('latin-1')
        s.append(c)
        i += 1


def fresh_input(E, st, lab, w, sfx=''):
    k = st.g.setdefault('#labels', {})
    n = k.get(lab, 0)
    k[lab] = n + 1
    full = lab if n == 0 else '%s#%d' % (lab, n)
    v = z3.BitVec('in_' + full + sfx, w)
    st.inputs.append((full, w, v))
    return v


def m_any(w):
    def f(E, st, a, name, rty, tys):
        return fresh_input(E, st, label(E, st, a[0]), w)
    return f


for _w in (8, 16, 32, 64):
    MODELS['zk_any_u%d' % _w] = m_any(_w)


@model('zk_any_bytes')
def m_anybytes(E, st, a, name, rty, tys):
    n = conc(E, st, a[1])
    lab = label(E, st, a[2])
    for i in range(n):
        v = fresh_input(E, st, '%s[%d]' % (lab, i), 8)
        E.store(st, E.ptr_add(a[0], i), 1, v)


@model('zk_range')
def m_range(E, st, a, name, rty, tys):
    v = fresh_input(E, st, label(E, st, a[1]), 32)
    E.add_pc(st, z3.ULT(v, a[0]))
    return v


@model('zk_size')
def m_size(E, st, a, name, rty, tys):
    v = fresh_input(E, st, label(E, st, a[1]), 64)
    E.add_pc(st, z3.ULE(v, a[0]))
    return v


@model('zk_any_char')
def m_anychar(E, st, a, name, rty, tys):
    ex = bytes(sorted(label(E, st, a[0]).encode('latin-1') + b'\0'))
    v = fresh_input(E, st, label(E, st, a[1]), 8, '~' + ex.hex())
    E.add_pc(st, z3.And(*[v != c for c in ex]))
    E.domains[v.get_id()] = (v, frozenset(range(256)) - frozenset(ex))
    return v


@model('zk_finite_bits')
def m_finite(E, st, a, name, rty, tys):
    v = fresh_input(E, st, label(E, st, a[0]), 32)
    E.add_pc(st, z3.Extract(30, 23, v) != 0xff)
    return v


@model('zk_assume')
def m_assume(E, st, a, name, rty, tys):
    c = a[0]
    if type(c) is int:
        if c == 0:
            raise KillPath('assume')
        return
    c = z3.simplify(c != 0 if isinstance(c, z3.BitVecRef) else boolv(c))
    if z3.is_true(c):
        return
    if z3.is_false(c) or E.query(st, c) == z3.unsat:
        raise KillPath('assume')
    E.add_pc(st, c)


@model('zk_assert')
def m_assert(E, st, a, name, rty, tys):
    c = a[0]
    lab = label(E, st, a[1])
    if isinstance(c, Undef):
        c = E.fresh_bool(st)
    if isinstance(c, z3.BitVecRef):
        c = c != 0
    if E.obligation(st, c, lab) is not True:
        if type(c) is int or E.query(st, boolv(c)) == z3.unsat:
            raise Violation()
        E.add_pc(st, boolv(c))


@model('zk_cover')
def m_cover(E, st, a, name, rty, tys):
    lab = label(E, st, a[0])
    E.covers[lab] = E.covers.get(lab, 0) + 1


@model('zk_split')
def m_split(E, st, a, name, rty, tys):
    """case split on a small value: returns it concretely"""
    v = a[0]
    if isinstance(v, z3.BoolRef):
        v = bv(v, 32)
    return conc(E, st, v)


@model('zk_opt')
def m_opt(E, st, a, name, rty, tys):
    lab = label(E, st, a[0])
    if lab == 'fp_exact':
        E.fp_exact = True
    elif lab == 'hash_len':
        E.hash_len = True
    elif lab == 'one_bucket':
        E.one_bucket = True
    else:
        raise Unsupported('option ' + lab)


@model('zk_print')
def m_print(E, st, a, name, rty, tys):
    print('zk_print', label(E, st, a[0]), a[1])


@model('zk_alloc')
def m_zkalloc(E, st, a, name, rty, tys):
    """a heap buffer of arbitrary size with arbitrary contents"""
    n = a[0]
    if type(n) is int:
        q = E.alloc(st, n, 'harness buffer')
        return q
    return E.alloc_sym(st, n, 'harness buffer')


@model('zk_stop')
def m_stop(E, st, a, name, rty, tys):
    raise KillPath('stop')


@model('zk_symbolic')
def m_symbolic(E, st, a, name, rty, tys):
    return 1


def install(E):
    import text
    E.models.update(MODELS)
    E.prefix_models.extend(PREFIX)
    for n in E.mod.fn_at:
        if n.startswith('_ZNSt7__cxx111') or n.startswith('_ZSt10from_chars'):
            for pfx, f in PREFIX:
                if n.startswith(pfx):
                    E.models[n] = f

    def log(E, st, a, name, rty, tys):
        return None
    for n in list(E.mod.fn_at) + list(E.mod.decl):
        if n.startswith('_ZN6zenkit6Logger3log'):
            E.models[n] = log
            E.assumed.add('zenkit::Logger::log has no effect on the library state')
