"""Symbolic values and bit-precise operations.

Integers (and floating point bit patterns) are Python ints when concrete and z3 bit-vectors when symbolic; an i1 is
0/1 or a z3 Bool.  Pointers are Ptr(object, offset); vectors and aggregates are tuples."""
import math
import struct
import z3


class Unsupported(Exception):
    """the engine cannot interpret a construct: the result is 'undecided', never a violation"""


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.off)

    def __eq__(self, other):
        return isinstance(other, Ptr) and self.o == other.o and type(self.off) is int and type(other.off) is int \
            and self.off == other.off

    def __hash__(self):
        return hash((self.o, self.off if type(self.off) is int else 0))


class Part:
    """byte `i` (little endian) of a wider value"""
    __slots__ = ('v', 'n', 'i')

    def __init__(self, v, n, i):
        self.v, self.n, self.i = v, n, i


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'undef'


UNDEF = Undef()
BV = z3.BitVecVal
MASK = {w: (1 << w) - 1 for w in range(0, 257)}


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def bv(v, w):
    """z3 bit-vector of width w from any integer-like value"""
    if type(v) is int:
        return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, z3.BitVecRef):
        return v
    raise Unsupported('bv of %r' % (v,))


def boolv(v):
    if type(v) is int or type(v) is bool:
        return z3.BoolVal(bool(v))
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, z3.BitVecRef):
        return v == 1
    raise Unsupported('bool of %r' % (v,))


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def norm(e, w):
    """fold to a Python int if the simplifier knows the value"""
    if isinstance(e, z3.BitVecNumRef):
        return e.as_long()
    return e


# ---- floats
def f2b(f, w):
    if w == 32:
        try:
            return struct.unpack('<I', struct.pack('<f', f))[0]
        except OverflowError:
            return 0x7f800000 if f > 0 else 0xff800000
    return struct.unpack('<Q', struct.pack('<d', f))[0]


def b2f(b, w):
    if w == 32:
        return struct.unpack('<f', struct.pack('<I', b))[0]
    return struct.unpack('<d', struct.pack('<Q', b))[0]


FSORT = {32: z3.Float32(), 64: z3.Float64()}
RNE = z3.RNE()


def tofp(v, w):
    if type(v) is int:
        v = z3.BitVecVal(v, w)
    return z3.fpBVToFP(v, FSORT[w])


_uf = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    f = _uf.get(k)
    if f is None:
        f = _uf[k] = z3.Function(name, *sorts)
    return f


def fbin(op, a, b, w, exact):
    if type(a) is int and type(b) is int:
        x, y = b2f(a, w), b2f(b, w)
        try:
            if op == 'fadd':
                r = x + y
            elif op == 'fsub':
                r = x - y
            elif op == 'fmul':
                r = x * y
            elif op == 'fdiv':
                if y == 0:
                    if x == 0 or x != x:
                        r = float('nan')
                    else:
                        r = math.copysign(float('inf'), x) * math.copysign(1.0, y)
                else:
                    r = x / y
            elif op == 'frem':
                r = math.fmod(x, y)
            else:
                raise Unsupported(op)
        except OverflowError:
            raise Unsupported('float overflow')
        if r != r:
            return 0x7fc00000 if w == 32 else 0x7ff8000000000000
        return f2b(r, w)
    if exact:
        x, y = tofp(a, w), tofp(b, w)
        r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
        if r is None:
            raise Unsupported(op)
        return z3.fpToIEEEBV(r(RNE, x, y))
    A, B = bv(a, w), bv(b, w)
    if op in ('fadd', 'fmul') and A.hash() > B.hash():
        A, B = B, A
    s = z3.BitVecSort(w)
    return uf('%s%d' % (op, w), s, s, s)(A, B)


def fcmp(pred, a, b, w):
    if pred == 'true':
        return 1
    if pred == 'false':
        return 0
    if type(a) is int and type(b) is int:
        x, y = b2f(a, w), b2f(b, w)
        un = x != x or y != y
        if pred == 'ord':
            return int(not un)
        if pred == 'uno':
            return int(un)
        base = pred[1:]
        r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[base]
        if pred[0] == 'o':
            return int(r and not un)
        return int(r or un)
    # comparisons done on the bit patterns: exact IEEE semantics without the FP theory
    A, B = bv(a, w), bv(b, w)
    ebits = 8 if w == 32 else 11
    mbits = w - 1 - ebits
    absm = (1 << (w - 1)) - 1
    inf = ((1 << ebits) - 1) << mbits
    aa, ab = A & absm, B & absm
    una = z3.UGT(aa, z3.BitVecVal(inf, w))
    unb = z3.UGT(ab, z3.BitVecVal(inf, w))
    if type(a) is int:
        un = unb if (a & absm) <= inf else z3.BoolVal(True)
    elif type(b) is int:
        un = una if (b & absm) <= inf else z3.BoolVal(True)
    elif A.eq(B):
        un = una
    else:
        un = z3.Or(una, unb)
    if pred == 'ord':
        return z3.Not(un)
    if pred == 'uno':
        return un
    zero = z3.And(aa == 0, ab == 0)
    eq = z3.Or(A == B, zero)
    if A.eq(B):
        eq = z3.BoolVal(True)

    def lt():
        sa = z3.Extract(w - 1, w - 1, A) == 1
        sb = z3.Extract(w - 1, w - 1, B) == 1
        return z3.And(z3.Not(eq), z3.If(sa, z3.If(sb, z3.UGT(aa, ab), True), z3.If(sb, False, z3.ULT(aa, ab))))
    base = pred[1:]
    if base == 'eq':
        r = eq
    elif base == 'ne':
        r = z3.Not(eq)
    elif base == 'lt':
        r = lt()
    elif base == 'le':
        r = z3.Or(lt(), eq)
    elif base == 'gt':
        r = z3.And(z3.Not(lt()), z3.Not(eq))
    else:
        r = z3.Not(lt())
    if pred[0] == 'o':
        return z3.And(z3.Not(un), r)
    return z3.Or(un, r)


def fcast(op, v, fw, tw, exact=True):
    """fw/tw: source/target widths; op in sitofp uitofp fptosi fptoui fpext fptrunc"""
    if type(v) is int:
        if op == 'sitofp':
            return f2b(_round_int(signed(v, fw), tw), tw)
        if op == 'uitofp':
            return f2b(_round_int(v, tw), tw)
        if op in ('fpext', 'fptrunc'):
            x = b2f(v, fw)
            return f2b(x, tw)
        x = b2f(v, fw)
        if x != x or math.isinf(x):
            return UNDEF
        i = int(x)
        if op == 'fptosi':
            if not -(1 << (tw - 1)) <= i < (1 << (tw - 1)):
                return UNDEF
        elif not 0 <= i < (1 << tw):
            return UNDEF
        return i & MASK[tw]
    if op == 'sitofp':
        return z3.fpToIEEEBV(z3.fpSignedToFP(RNE, v, FSORT[tw]))
    if op == 'uitofp':
        return z3.fpToIEEEBV(z3.fpUnsignedToFP(RNE, bv(v, fw), FSORT[tw]))
    if op in ('fpext', 'fptrunc'):
        return z3.fpToIEEEBV(z3.fpFPToFP(RNE, tofp(v, fw), FSORT[tw]))
    if op == 'fptosi':
        return z3.fpToSBV(z3.RTZ(), tofp(v, fw), z3.BitVecSort(tw))
    return z3.fpToUBV(z3.RTZ(), tofp(v, fw), z3.BitVecSort(tw))


def _round_int(i, w):
    if w == 64:
        return float(i)
    # int -> float32 with a single rounding
    f = float(i)
    if int(f) == i:
        return f
    # exact value needs care: use fraction based rounding
    import fractions
    b = struct.unpack('<I', struct.pack('<f', f))[0]
    best = None
    for c in (b - 1, b, b + 1):
        y = struct.unpack('<f', struct.pack('<I', c & 0xffffffff))[0]
        if y != y or math.isinf(y):
            continue
        d = abs(fractions.Fraction(y) - i)
        if best is None or d < best[0] or (d == best[0] and c % 2 == 0):
            best = (d, y)
    return best[1]
