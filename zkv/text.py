"""Models of text formatting / parsing in the C and C++ run-time libraries.

Formatting a symbolic number yields an opaque *token*: a run of fresh bytes constrained to the characters such a text
can contain.  Parsing a complete token yields the number it was made from (the assumed contract of the standard
library: decimal integer text is parsed back to the integer; %.9g text of a finite float is parsed back to the float;
%f / default-precision text is parsed to an unspecified but fixed function of the float)."""
import math
import struct
import z3
from values import *
from engine import CxxThrow, KillPath, Violation, CALL, Obj
import models
from models import model, conc, rd, label, cstr, throw_std, c_bytes

DIG = frozenset(b'0123456789')
INTC = frozenset(b'0123456789-')
FLTC = frozenset(b'0123456789-.')
GLTC = frozenset(b'0123456789-.e+')


def new_token(E, st, kind, value, n, chars):
    """kind: ('i', width) | ('f', fn) ; value: 64-bit (sign extended) or 32-bit float bits"""
    E.fresh_n += 1
    tid = E.fresh_n
    out = []
    cs = []
    for i in range(n):
        v = z3.BitVec('tok!%d!%d' % (tid, i), 8)
        dom = chars
        if i > 0 and 45 in chars and chars is INTC:
            dom = DIG
        E.domains[v.get_id()] = (v, dom)
        out.append(v)
        vals = sorted(dom)
        cs.append(z3.Or(*[v == c for c in vals]))
    E.add_pc(st, z3.And(*cs))
    E.tokens[tid] = (kind, value, n)
    return out


def tok_of(E, b):
    """(tid, index) of a token byte or None"""
    if isinstance(b, z3.BitVecRef) and b.num_args() == 0:
        nm = b.decl().name()
        if nm.startswith('tok!'):
            _, t, i = nm.split('!')
            return int(t), int(i)
    return None


def full_token(E, st, p, i=0):
    """complete token at p+i -> (kind, value, n) or None; Unsupported for a partial token"""
    b = rdraw(E, st, p, i)
    t = tok_of(E, b)
    if t is None:
        return None
    tid, k = t
    kind, value, n = E.tokens[tid]
    if k != 0:
        return None
    for j in range(1, n):
        if tok_of(E, rdraw(E, st, p, i + j)) != (tid, j):
            raise Unsupported('partial number token')
    return kind, value, n


def rdraw(E, st, p, i):
    b = rd(E, st, p, i)
    if isinstance(b, Undef):
        E.fail(st, 'memory-safety', 'text function reads an uninitialised byte in %s' % E.where(st))
    return b


def toklen(E, mx, mn=1):
    return mn if E.opts.get('toklen') == 'min' else mx


def finite(E, st, v):
    if type(v) is int:
        f = b2f(v, 32)
        return f == f and not math.isinf(f)
    return E.decide(st, z3.Extract(30, 23, v) != 0xff)


def int_token(E, st, v, w, sg, cap=None, unpad=True):
    """text bytes of integer v (width w); None if it does not fit into cap characters"""
    v = E.defd(st, v, w)
    if type(v) is int:
        s = str(signed(v, w) if sg else v).encode()
        if cap is not None and len(s) > cap:
            return None
        return list(s)
    mx = {8: 3, 16: 5, 32: 10, 64: 20}[w]
    if sg:
        mx = {8: 4, 16: 6, 32: 11, 64: 20}[w]
    if w > 8:
        for lim in (8, 16):
            if lim < w and E.must(st, z3.ULT(v, 1 << lim)):
                mx = {8: 3, 16: 5}[lim]
                break
    if cap is not None and cap < mx:
        if sg:
            too = z3.Or(v >= 10 ** cap if 10 ** cap < (1 << (w - 1)) else False, v <= -(10 ** (cap - 1)) if cap >= 1 else True)
        else:
            too = z3.UGE(v, 10 ** cap) if 10 ** cap < (1 << w) else z3.BoolVal(False)
        if E.decide(st, too):
            return None
        mx = cap
    neg = sg and not E.must(st, v >= 0)
    ext = (z3.SignExt if sg else z3.ZeroExt)(64 - w, v) if w < 64 else v
    return new_token(E, st, ('i', w), z3.simplify(ext), toklen(E, mx), INTC if neg else DIG)


def flt_token(E, st, v, how):
    """how: 'f' (%f), 'g6' (ostream default), 'g9' (%.9g)"""
    v = E.defd(st, v, 32)
    if type(v) is int:
        f = b2f(v, 32)
        return list(({'f': '%f', 'g6': '%g', 'g9': '%.9g'}[how] % f).encode())
    if not finite(E, st, v):
        raise Unsupported('text of a non-finite number')
    return new_token(E, st, ('f', how), v, toklen(E, {'f': 47, 'g6': 12, 'g9': 15}[how], 1), FLTC if how == 'f' else GLTC)


def dbl_to_flt(E, st, v):
    """float whose extension to double is v, or None"""
    if type(v) is int:
        f = b2f(v, 64)
        b = f2b(f, 32)
        return b if b2f(b, 32) == f or f != f else None
    return E.fpext_src.get(v.get_id(), (None, None))[1]


def parse_float_val(E, kind, value):
    if kind[0] == 'f':
        if kind[1] == 'g9':
            return value
        s = z3.BitVecSort(32)
        return uf('text_%s_roundtrip' % kind[1], s, s)(value)
    if kind[0] == 'i':
        return z3.simplify(z3.fpToIEEEBV(z3.fpSignedToFP(RNE, value, FSORT[32])))
    raise Unsupported('float token')


@model('zk_text_f32')
def m_text_f32(E, st, a, name, rty, tys):
    """reference: what a float becomes when written with %f and parsed back"""
    v = a[0]
    if type(v) is int:
        return f2b(b2f(f2b(float('%f' % b2f(v, 32)), 32), 32), 32)
    s = z3.BitVecSort(32)
    return uf('text_f_roundtrip', s, s)(v)


@model('zk_text_g6')
def m_text_g6(E, st, a, name, rty, tys):
    v = a[0]
    if type(v) is int:
        return f2b(float('%g' % b2f(v, 32)), 32)
    s = z3.BitVecSort(32)
    return uf('text_g6_roundtrip', s, s)(v)


# ------------------------------------------------------------------ std::string results
def put_string(E, st, p, bs):
    """construct a std::string at p with the given bytes"""
    n = len(bs)
    if n <= 15:
        d = Ptr(p.o, p.off + 16)
    else:
        d = E.alloc(st, n + 1, 'std::string buffer')
        E.store(st, Ptr(p.o, p.off + 16), 8, n)
    E.store(st, p, 8, d)
    E.store(st, Ptr(p.o, p.off + 8), 8, n)
    for i, b in enumerate(bs):
        E.store(st, Ptr(d.o, d.off + i), 1, b)
    E.store(st, Ptr(d.o, d.off + n), 1, 0)


def get_string(E, st, p):
    d = E.load(st, p, 8)
    n = conc(E, st, E.load(st, Ptr(p.o, p.off + 8), 8))
    return [rdraw(E, st, d, i) for i in range(n)]


def _tostr(w, sg):
    def f(E, st, a, name, rty, tys):
        put_string(E, st, a[0], int_token(E, st, a[1], w, sg))
    return f


models.MODELS['_ZNSt7__cxx119to_stringEi'] = _tostr(32, True)
models.MODELS['_ZNSt7__cxx119to_stringEj'] = _tostr(32, False)
models.MODELS['_ZNSt7__cxx119to_stringEm'] = _tostr(64, False)
models.MODELS['_ZNSt7__cxx119to_stringEl'] = _tostr(64, True)


@model('_ZNSt7__cxx119to_stringEf')
def m_tostr_f(E, st, a, name, rty, tys):
    put_string(E, st, a[0], flt_token(E, st, a[1], 'f'))


def m_to_chars(w, sg):
    def f(E, st, a, name, rty, tys):
        first, last, v, base = a
        cap = last.off - first.off
        v = E.trunc(st, v, tys[2].w, w) if tys[2].w > w else v
        if base == 10:
            bs = int_token(E, st, v, w, sg, cap)
        elif base == 16:
            if type(v) is int:
                bs = list(b'%x' % v)
            elif w == 8:
                hi, lo = hexdig(z3.LShR(v, 4)), hexdig(v & 15)
                bs = [lo] if E.decide(st, z3.ULT(v, 16)) else [hi, lo]
            else:
                raise Unsupported('to_chars')
            if len(bs) > cap:
                bs = None
        else:
            raise Unsupported('to_chars base')
        if bs is None:
            return (last, 75)
        for i, b in enumerate(bs):
            E.store(st, E.ptr_add(first, i), 1, b)
        return (E.ptr_add(first, len(bs)), 0)
    return f


def hexdig(n):
    return z3.simplify(z3.If(z3.ULT(n, 10), n + 48, n + 87))


for _t, _w, _s in (('h', 8, False), ('t', 16, False), ('j', 32, False), ('m', 64, False), ('i', 32, True), ('s', 16, True), ('l', 64, True)):
    models.MODELS['_ZSt8to_charsPcS_%si' % _t] = m_to_chars(_w, _s)


@model('_ZSt10from_charsI*')
def m_from_chars(E, st, a, name, rty, tys):
    t = name[len('_ZSt10from_charsI')]
    w = {'h': 8, 't': 16, 'j': 32, 'm': 64, 'i': 32, 'a': 8, 's': 16, 'l': 64}[t]
    first, last, out, base = a
    n = last.off - first.off
    if base == 10:
        tk = full_token(E, st, first)
        if tk is not None and tk[0][0] == 'i':
            E.store(st, out, w // 8, z3.simplify(z3.Extract(w - 1, 0, tk[1])))
            return (E.ptr_add(first, tk[2]), 0)
    r = 0
    k = 0
    while k < n:
        c = rdraw(E, st, first, k)
        if tok_of(E, c) is not None:
            raise Unsupported('from_chars of a token')
        v = digit_val(E, st, c, base)
        if v is None:
            break
        if type(v) is int and type(r) is int:
            r = r * base + v
        else:
            r = z3.simplify(bv(r, w) * base + (z3.ZeroExt(w - 8, bv(v, 8)) if w > 8 else bv(v, 8)))
        k += 1
    if k == 0:
        return (first, 22)
    if type(r) is int and r > MASK[w]:
        return (E.ptr_add(first, k), 34)
    if type(r) is not int and base ** k > (1 << w):
        raise Unsupported('from_chars overflow')
    E.store(st, out, w // 8, r if type(r) is not int else r & MASK[w])
    return (E.ptr_add(first, k), 0)


def digit_val(E, st, c, base):
    if type(c) is int:
        ch = chr(c)
        try:
            v = int(ch, 36) if ch.isalnum() and c < 128 else 99
        except ValueError:
            v = 99
        return v if v < base else None
    c = bv(c, 8)
    if base == 10:
        ok = z3.And(z3.UGE(c, 48), z3.ULE(c, 57))
        if not E.decide(st, ok):
            return None
        return z3.simplify(c - 48)
    isd = z3.And(z3.UGE(c, 48), z3.ULE(c, 57))
    isl = z3.And(z3.UGE(c, 97), z3.ULE(c, 102))
    isu = z3.And(z3.UGE(c, 65), z3.ULE(c, 70))
    if not E.decide(st, z3.Or(isd, isl, isu)):
        return None
    return z3.simplify(z3.If(isd, c - 48, z3.If(isu, c - 55, c - 87)))


# ------------------------------------------------------------------ printf
def fmt_bytes(E, st, fmt, args):
    """args: list of raw values (floats as double bit patterns)"""
    out = []
    i = 0
    ai = 0
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out.append(ord(c))
            i += 1
            continue
        i += 1
        if fmt[i] == '%':
            out.append(37)
            i += 1
            continue
        prec = None
        flags = ''
        while fmt[i] in '-+ #0123456789.*':
            flags += fmt[i]
            i += 1
        if '.' in flags:
            flags, pr = flags.split('.')
            prec = int(pr) if pr else 0
        ln = ''
        while fmt[i] in 'hlzjt':
            ln += fmt[i]
            i += 1
        cv = fmt[i]
        i += 1
        v = args[ai]
        ai += 1
        if flags not in ('',):
            raise Unsupported('printf flags %s' % flags)
        if cv in 'diu':
            w = 64 if 'l' in ln or 'z' in ln else 16 if ln == 'h' else 8 if ln == 'hh' else 32
            if w < 32:
                v = E.trunc(st, v, 32, w)
            out += int_token(E, st, v, w, cv != 'u')
        elif cv == 's':
            k = 0
            while prec is None or k < prec:
                b = rd(E, st, v, k)
                if E.decide(st, E.icmp(st, 'eq', b, 0, 8)):
                    break
                out.append(b)
                k += 1
        elif cv == 'c':
            out.append(E.trunc(st, v, 32, 8))
        elif cv in 'fg':
            f = dbl_to_flt(E, st, v)
            how = 'f' if cv == 'f' and prec is None else 'g9' if cv == 'g' and prec == 9 else 'g6' if cv == 'g' and prec is None else None
            if f is None or how is None:
                raise Unsupported('printf %%%s of a double' % cv)
            out += flt_token(E, st, f, how)
        elif cv == 'x' and type(v) is int:
            out += list(b'%x' % v)
        else:
            raise Unsupported('printf %%%s' % cv)
    return out


@model('snprintf', 'sprintf')
def m_snprintf(E, st, a, name, rty, tys):
    if name == 'snprintf':
        buf, cap, fmt, rest = a[0], conc(E, st, a[1]), a[2], a[3:]
    else:
        buf, cap, fmt, rest = a[0], 1 << 30, a[1], a[2:]
    bs = fmt_bytes(E, st, label(E, st, fmt), rest)
    n = min(len(bs), cap - 1)
    if cap > 0:
        for i in range(n):
            E.store(st, E.ptr_add(buf, i), 1, bs[i])
        E.store(st, E.ptr_add(buf, n), 1, 0)
    return len(bs)


# ------------------------------------------------------------------ strtol & co
def isspace_(E, st, b):
    if type(b) is int:
        return b in (9, 10, 11, 12, 13, 32)
    return E.decide(st, z3.Or(b == 32, z3.And(z3.UGE(b, 9), z3.ULE(b, 13))))


def scan_int(E, st, get, i, base=10):
    """get(i) -> byte or None at the end. returns (value64|None, next index)"""
    while True:
        b = get(i)
        if b is None or not isspace_(E, st, b):
            break
        i += 1
    b = get(i)
    if b is None:
        return None, i
    t = tok_of(E, b)
    if t is not None and t[1] == 0:
        kind, value, n = E.tokens[t[0]]
        for j in range(n):
            if tok_of(E, get(i + j)) != (t[0], j):
                raise Unsupported('partial number token')
        nx = get(i + n)
        if nx is not None and isdigit_(E, st, nx):
            raise Unsupported('token followed by digits')
        if kind[0] != 'i':
            raise Unsupported('integer parse of a float text')
        return value, i + n
    sgn = 1
    k = i
    if type(b) is int:
        neg, pos = b == 45, b == 43
    else:
        neg = E.decide(st, b == 45)
        pos = not neg and E.decide(st, b == 43)
    if neg or pos:
        sgn = -1 if neg else 1
        k += 1
    r = None
    while True:
        b = get(k)
        if b is None:
            break
        if tok_of(E, b) is not None:
            raise Unsupported('digits followed by token')
        d = digit_val(E, st, b, base)
        if d is None:
            break
        if type(d) is int and (r is None or type(r) is int):
            r = (0 if r is None else r) * base + d
        else:
            r = z3.simplify(bv(0 if r is None else r, 64) * base + z3.ZeroExt(56, bv(d, 8)))
        k += 1
        if k - i > 18:
            raise Unsupported('long number')
    if r is None:
        return None, i
    if type(r) is int:
        return (r * sgn) & MASK[64], k
    return (z3.simplify(-r) if sgn < 0 else r), k


def isdigit_(E, st, b):
    if type(b) is int:
        return 48 <= b <= 57
    return E.decide(st, z3.And(z3.UGE(b, 48), z3.ULE(b, 57)))


def cget(E, st, p):
    def get(i):
        b = rdraw(E, st, p, i)
        if type(b) is int:
            return None if b == 0 else b
        if tok_of(E, b) is not None:
            return b
        if E.decide(st, b == 0):
            return None
        return b
    return get


@model('__isoc23_strtol', 'strtol', '__isoc23_strtoul', 'strtoul', '__isoc23_strtoll', 'atoi')
def m_strtol(E, st, a, name, rty, tys):
    base = a[2] if len(a) > 2 else 10
    v, n = scan_int(E, st, cget(E, st, a[0]), 0, base)
    if len(a) > 1 and isinstance(a[1], Ptr):
        E.store(st, a[1], 8, E.ptr_add(a[0], n) if v is not None else a[0])
    r = 0 if v is None else v
    if name == 'atoi':
        return r & MASK[32] if type(r) is int else z3.simplify(z3.Extract(31, 0, r))
    return r


import re
FLT_RE = re.compile(rb'[ \t\n\v\f\r]*([+-]?(?:\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|inf(?:inity)?|nan))', re.I)


def scan_float(E, st, get, i):
    while True:
        b = get(i)
        if b is None or not isspace_(E, st, b):
            break
        i += 1
    b = get(i)
    if b is None:
        return None, i
    t = tok_of(E, b)
    if t is not None and t[1] == 0:
        kind, value, n = E.tokens[t[0]]
        for j in range(n):
            if tok_of(E, get(i + j)) != (t[0], j):
                raise Unsupported('partial number token')
        nx = get(i + n)
        if nx is not None and (type(nx) is not int or nx in b'0123456789.eE+-'):
            raise Unsupported('token followed by digits')
        return parse_float_val(E, kind, value), i + n
    s = bytearray()
    k = i
    while len(s) < 60:
        b = get(k)
        if b is None:
            break
        if type(b) is not int:
            if not s:
                ok = z3.Or(*[b == c for c in b'0123456789+-.iInN'])
                if not E.decide(st, ok):
                    return None, i
            return scan_float_sym(E, st, get, i)
        if b not in b'0123456789+-.eEinfatyINFATY':
            break
        s.append(b)
        k += 1
    m = FLT_RE.match(bytes(s))
    if not m:
        return None, i
    return f2b(float(m.group(1)), 32), i + m.end()


def scan_float_sym(E, st, get, i):
    """sign, digits, point, digits with symbolic digits: the value is an uninterpreted function of the text"""
    k, cs, digits, point = i, [], 0, False
    while True:
        b = get(k)
        if b is None:
            break
        if tok_of(E, b) is not None:
            raise Unsupported('digits followed by token')
        if isdigit_(E, st, b):
            digits += 1
        elif not point and (b == 46 if type(b) is int else E.decide(st, b == 46)):
            point = True
        elif not cs and ((b in b'+-') if type(b) is int else E.decide(st, z3.Or(b == 43, b == 45))):
            pass
        else:
            bad = (b in b'eEiInNxX') if type(b) is int else E.decide(st, z3.Or(*[b == c for c in b'eEiInNxX']))
            if bad:
                raise Unsupported('symbolic float text')
            break
        cs.append(bv(b, 8))
        k += 1
        if len(cs) > 20:
            raise Unsupported('long number')
    if not digits:
        return None, i
    f = z3.Function('strtof%d' % len(cs), *([z3.BitVecSort(8)] * len(cs) + [z3.BitVecSort(32)]))
    return f(*cs), k


@model('strtof')
def m_strtof(E, st, a, name, rty, tys):
    v, n = scan_float(E, st, cget(E, st, a[0]), 0)
    if isinstance(a[1], Ptr):
        E.store(st, a[1], 8, E.ptr_add(a[0], n) if v is not None else a[0])
    return 0 if v is None else v


@model('__isoc23_sscanf', 'sscanf')
def m_sscanf(E, st, a, name, rty, tys):
    fmt = label(E, st, a[1])
    get = cget(E, st, a[0])
    i = 0
    n = 0
    ai = 2
    k = 0
    while k < len(fmt):
        c = fmt[k]
        if c.isspace():
            while get(i) is not None and isspace_(E, st, get(i)):
                i += 1
            k += 1
            continue
        if c != '%':
            b = get(i)
            if b is None:
                return n if n else MASK[32]
            if not E.decide(st, E.icmp(st, 'eq', b, ord(c), 8)):
                return n
            i += 1
            k += 1
            continue
        k += 1
        wd = ''
        while fmt[k].isdigit():
            wd += fmt[k]
            k += 1
        ln = ''
        while fmt[k] in 'hlz':
            ln += fmt[k]
            k += 1
        cv = fmt[k]
        k += 1
        if cv == 's':
            while get(i) is not None and isspace_(E, st, get(i)):
                i += 1
            if get(i) is None:
                return n if n else MASK[32]
            m = 0
            while (not wd or m < int(wd)):
                b = get(i)
                if b is None or isspace_(E, st, b):
                    break
                E.store(st, E.ptr_add(a[ai], m), 1, b)
                m += 1
                i += 1
            E.store(st, E.ptr_add(a[ai], m), 1, 0)
        elif cv in 'du' and not wd:
            v, j = scan_int(E, st, get, i)
            if v is None:
                return n
            i = j
            w = 16 if ln == 'h' else 8 if ln == 'hh' else 64 if 'l' in ln or 'z' in ln else 32
            E.store(st, a[ai], w // 8, v & MASK[w] if type(v) is int else z3.simplify(z3.Extract(w - 1, 0, v)))
        else:
            raise Unsupported('sscanf %%%s' % cv)
        ai += 1
        n += 1
    return n


# ------------------------------------------------------------------ string streams
VB = {'basic_istringstream': 120, 'basic_ostringstream': 112, 'basic_stringstream': 128}


def ss_key(p):
    return (p.o, p.off)


def ss_ctor(E, st, a, name, rty, tys):
    for k in VB:
        if k in name:
            vb = VB[k]
    p = a[0]
    vt = E.alloc(st, 64, 'vtable of string stream', 'vtable')
    E.store(st, Ptr(vt.o, 0), 8, vb)
    E.store(st, p, 8, Ptr(vt.o, 24))
    if vb == 128:
        # ostream sub-object of a stringstream
        vt2 = E.alloc(st, 64, 'vtable of string stream', 'vtable')
        E.store(st, Ptr(vt2.o, 0), 8, vb - 16)
        E.store(st, Ptr(p.o, p.off + 16), 8, Ptr(vt2.o, 24))
    E.store(st, Ptr(p.o, p.off + vb + 32), 4, 0)
    E.store(st, Ptr(p.o, p.off + vb + 24), 4, 0x1002)
    text = []
    if len(a) > 1 and isinstance(a[1], Ptr) and 'basic_string' in name.split('C1')[1]:
        text = get_string(E, st, a[1])
    st.g.setdefault('#ss', {})[ss_key(p)] = (tuple(text), 0, vb)


def ss_get(E, st, p):
    d = st.g.get('#ss', {})
    k = ss_key(p)
    if k not in d and (p.o, p.off - 16) in d:
        k = (p.o, p.off - 16)
    if k not in d:
        raise Unsupported('unknown stream object')
    return k, d[k]


def ss_state(E, st, k, bits):
    d = st.g['#ss'][k]
    q = Ptr(k[0], k[1] + d[2] + 32)
    if bits is None:
        return E.load(st, q, 4)
    E.store(st, q, 4, E.load(st, q, 4) | bits)


def ss_dtor(E, st, a, name, rty, tys):
    return None


for _n in ('19basic_istringstream', '18basic_stringstream', '19basic_ostringstream'):
    models.PREFIX.append(('_ZNSt7__cxx11%sIcSt11char_traitsIcESaIcEEC1' % _n, ss_ctor))
    models.PREFIX.append(('_ZNSt7__cxx11%sIcSt11char_traitsIcESaIcEED' % _n, ss_dtor))


@model('_ZNKRSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv', '_ZNKRSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv',
       '_ZNOSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv')
def ss_str(E, st, a, name, rty, tys):
    k, d = ss_get(E, st, a[1])
    put_string(E, st, a[0], d[0])


def ss_setstr(E, st, a, name, rty, tys):
    k, d = ss_get(E, st, a[0])
    st.g['#ss'][k] = (tuple(get_string(E, st, a[1])), 0, d[2])


for _n in ('19basic_istringstream', '18basic_stringstream', '19basic_ostringstream'):
    models.PREFIX.append(('_ZNSt7__cxx11%sIcSt11char_traitsIcESaIcEE3strERK' % _n, ss_setstr))
    models.PREFIX.append(('_ZNSt7__cxx11%sIcSt11char_traitsIcESaIcEE3strEO' % _n, ss_setstr))


def ss_app(E, st, p, bs):
    k, d = ss_get(E, st, p)
    st.g['#ss'][k] = (d[0] + tuple(bs), d[1], d[2])


@model('_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l')
def ss_ins(E, st, a, name, rty, tys):
    n = conc(E, st, a[2])
    ss_app(E, st, a[0], [rdraw(E, st, a[1], i) for i in range(n)])
    return a[0]


@model('_ZNSolsEi')
def ss_insi(E, st, a, name, rty, tys):
    ss_app(E, st, a[0], int_token(E, st, a[1], 32, True))
    return a[0]


@model('_ZNSo9_M_insertIdEERSoT_')
def ss_insd(E, st, a, name, rty, tys):
    f = dbl_to_flt(E, st, a[1])
    if f is None:
        raise Unsupported('<< double')
    ss_app(E, st, a[0], flt_token(E, st, f, 'g6'))
    return a[0]


def ss_read(E, st, p, scan, put):
    k, d = ss_get(E, st, p)
    text, pos, vb = d
    s = ss_state(E, st, k, None)
    if s != 0:
        ss_state(E, st, k, 4)
        return p

    def get(i):
        return text[i] if i < len(text) else None
    while pos < len(text) and isspace_(E, st, text[pos]):
        pos += 1
    if pos >= len(text):
        # nothing left: the value is not touched
        ss_state(E, st, k, 6)
        st.g['#ss'][k] = (text, pos, vb)
        return p
    v, n = scan(get, pos)
    st.g['#ss'][k] = (text, n, vb)
    if n >= len(text):
        ss_state(E, st, k, 2)
    if v is None:
        ss_state(E, st, k, 4)
    put(v)
    return p


@model('_ZNSi10_M_extractIfEERSiRT_')
def ss_f(E, st, a, name, rty, tys):
    def put(v):
        E.store(st, a[1], 4, 0 if v is None else v)
    return ss_read(E, st, a[0], lambda g, i: scan_float(E, st, g, i), put)


def _ss_int(w):
    def f(E, st, a, name, rty, tys):
        def put(v):
            if v is None:
                v = 0
            E.store(st, a[1], w // 8, v & MASK[w] if type(v) is int else z3.simplify(z3.Extract(w - 1, 0, v)))
        return ss_read(E, st, a[0], lambda g, i: scan_int(E, st, g, i), put)
    return f


models.MODELS['_ZNSi10_M_extractIjEERSiRT_'] = _ss_int(32)
models.MODELS['_ZNSi10_M_extractItEERSiRT_'] = _ss_int(16)
models.MODELS['_ZNSirsERi'] = _ss_int(32)


@model('_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_')
def ss_c(E, st, a, name, rty, tys):
    k, d = ss_get(E, st, a[0])
    text, pos, vb = d
    if ss_state(E, st, k, None) != 0:
        ss_state(E, st, k, 4)
        return a[0]
    while pos < len(text) and isspace_(E, st, text[pos]):
        pos += 1
    if pos >= len(text):
        ss_state(E, st, k, 6)
        st.g['#ss'][k] = (text, pos, vb)
        return a[0]
    E.store(st, a[1], 1, text[pos])
    st.g['#ss'][k] = (text, pos + 1, vb)
    return a[0]


@model('_ZNSi5ungetEv')
def ss_unget(E, st, a, name, rty, tys):
    k, d = ss_get(E, st, a[0])
    q = Ptr(k[0], k[1] + d[2] + 32)
    E.store(st, q, 4, E.load(st, q, 4) & ~2)
    st.g['#ss'][k] = (d[0], max(0, d[1] - 1), d[2])
    return a[0]


@model('_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate')
def ss_clear(E, st, a, name, rty, tys):
    E.store(st, Ptr(a[0].o, a[0].off + 32), 4, a[1])


# unformatted input and output of streams
def ss_sentry(E, st, k):
    if ss_state(E, st, k, None) != 0:
        ss_state(E, st, k, 4)
        return False
    return True


@model('_ZNSi4readEPcl')
def ss_rd(E, st, a, name, rty, tys):
    k, d = ss_get(E, st, a[0])
    n, got = conc(E, st, a[2]), 0
    if ss_sentry(E, st, k):
        text, pos, vb = d
        while got < n and pos < len(text):
            E.store(st, E.ptr_add(a[1], got), 1, text[pos])
            got += 1
            pos += 1
        st.g['#ss'][k] = (text, pos, vb)
        if got < n:
            ss_state(E, st, k, 6)
    E.store(st, Ptr(k[0], k[1] + 8), 8, got)
    return a[0]


@model('_ZNSi4peekEv')
def ss_peek(E, st, a, name, rty, tys):
    k, d = ss_get(E, st, a[0])
    E.store(st, Ptr(k[0], k[1] + 8), 8, 0)
    if not ss_sentry(E, st, k):
        return MASK[32]
    if d[1] >= len(d[0]):
        ss_state(E, st, k, 2)
        return MASK[32]
    c = d[0][d[1]]
    return c if type(c) is int else z3.ZeroExt(24, c)


def ss_sk(E, st, a, pos, size):
    off = conc(E, st, a[1])
    if off >> 63:
        off -= 1 << 64
    to = off + (0, pos, size)[conc(E, st, a[2])]
    return to if 0 <= to <= size else None


@model('_ZNSi5seekgElSt12_Ios_Seekdir')
def ss_seekg(E, st, a, name, rty, tys):
    k, d = ss_get(E, st, a[0])
    q = Ptr(k[0], k[1] + d[2] + 32)
    E.store(st, q, 4, E.load(st, q, 4) & ~2)
    if ss_state(E, st, k, None) & 5:
        ss_state(E, st, k, 4)
        return a[0]
    to = ss_sk(E, st, a, d[1], len(d[0]))
    if to is None:
        ss_state(E, st, k, 4)
    else:
        st.g['#ss'][k] = (d[0], to, d[2])
    return a[0]


def ss_pos(v):
    return [v & MASK[64], 0]


@model('_ZNSi5tellgEv')
def ss_tellg(E, st, a, name, rty, tys):
    k, d = ss_get(E, st, a[0])
    if not ss_sentry(E, st, k):
        return ss_pos(-1)
    return ss_pos(d[1])


def ss_put(st, k, d):
    return st.g.setdefault('#ssp', {}).get(k, len(d[0]))


@model('_ZNSo5writeEPKcl')
def ss_wr(E, st, a, name, rty, tys):
    k, d = ss_get(E, st, a[0])
    if ss_state(E, st, k, None) != 0:
        return a[0]
    n, at = conc(E, st, a[2]), ss_put(st, k, d)
    bs = tuple(rdraw(E, st, a[1], i) for i in range(n))
    st.g['#ss'][k] = (d[0][:at] + bs + d[0][at + n:], d[1], d[2])
    st.g['#ssp'] = {**st.g['#ssp'], k: at + n}
    return a[0]


@model('_ZNSo5seekpElSt12_Ios_Seekdir')
def ss_seekp(E, st, a, name, rty, tys):
    k, d = ss_get(E, st, a[0])
    if ss_state(E, st, k, None) & 5:
        return a[0]
    to = ss_sk(E, st, a, ss_put(st, k, d), len(d[0]))
    if to is None:
        ss_state(E, st, k, 4)
    else:
        st.g['#ssp'] = {**st.g['#ssp'], k: to}
    return a[0]


@model('_ZNSo5tellpEv')
def ss_tellp(E, st, a, name, rty, tys):
    k, d = ss_get(E, st, a[0])
    if ss_state(E, st, k, None) & 5:
        return ss_pos(-1)
    return ss_pos(ss_put(st, k, d))


@model('_ZNSt10filesystem7__cxx114path14_M_split_cmptsEv', '_ZNSt10filesystem7__cxx114path5_ListC1Ev', '_ZNSt10filesystem7__cxx114path5_ListC1ERKS2_',
       '_ZNKSt10filesystem7__cxx114path5_List13_Impl_deleterclEPNS2_5_ImplE')
def fs_parts(E, st, a, name, rty, tys):
    # only the text of a path matters here
    if 'ListC1' in name:
        E.store(st, a[0], 8, 0)


# ------------------------------------------------------------------ environment
@model('getenv')
def m_getenv(E, st, a, name, rty, tys):
    return 0


@model('time')
def m_time(E, st, a, name, rty, tys):
    if isinstance(a[0], Ptr):
        E.store(st, a[0], 8, 1700000000)
    return 1700000000


@model('localtime')
def m_localtime(E, st, a, name, rty, tys):
    q = E.alloc(st, 56, 'struct tm', 'static', fill=0)
    return q


@model('strftime')
def m_strftime(E, st, a, name, rty, tys):
    # one fixed instant; the wall clock is not part of any property
    t = b'14.11.2023 22:13:20'
    cap = conc(E, st, a[1])
    if len(t) + 1 > cap:
        return 0
    for i, c in enumerate(t + b'\0'):
        E.store(st, E.ptr_add(a[0], i), 1, c)
    return len(t)


@model('_ZNSt6chrono3_V212system_clock3nowEv')
def m_now(E, st, a, name, rty, tys):
    return 1700000000 * 10 ** 9


@model('__errno_location')
def m_errno(E, st, a, name, rty, tys):
    q = st.g.get('#errno')
    if q is None:
        q = st.g['#errno'] = E.alloc(st, 4, 'errno', 'static', fill=0)
    return q
