"""Reader for the textual LLVM IR (LLVM 18, opaque pointers) clang emits for /repo's sources.

Functions are indexed when the module is opened and parsed on first use."""
import re
import struct

TOK = re.compile(r'''
  (?P<ws>[ \t]+)
 |(?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>![-a-zA-Z$._0-9]*)
 |(?P<attr>\#\d+)
 |(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<flt>-?\d+\.\d+(?:e[+-]?\d+)?)
 |(?P<num>-?\d+)
 |(?P<dots>\.\.\.)
 |(?P<id>[a-zA-Z_$][-a-zA-Z$._0-9]*)
 |(?P<p>[(){}\[\]<>,=*|:])
''', re.X)


class IRError(Exception):
    pass


def unq(s):
    """%"foo" -> foo (keeps no sigil)"""
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
        if '\\' in s:
            s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)
    return s


def tokenize(line):
    out = []
    i = 0
    n = len(line)
    m = TOK.match
    while i < n:
        t = m(line, i)
        if t is None:
            if line[i] == ';':
                break
            raise IRError('cannot tokenize: %r' % line[i:i + 60])
        i = t.end()
        k = t.lastgroup
        if k != 'ws':
            out.append((k, t.group()))
    return out


# ---------------------------------------------------------------- types
class Type:
    __slots__ = ('k', 'w', 'n', 'el', 'els', 'packed', 'name', '_size', '_align', '_offs')

    def __init__(self, k, w=0, n=0, el=None, els=None, packed=False, name=None):
        self.k = k          # int float double ptr void arr vec struct label metadata
        self.w = w
        self.n = n
        self.el = el
        self.els = els
        self.packed = packed
        self.name = name
        self._size = None
        self._align = None
        self._offs = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.w
        if self.k in ('arr', 'vec'):
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.els or []))
        return self.k

    @property
    def align(self):
        if self._align is None:
            k = self.k
            if k == 'int':
                b = (self.w + 7) // 8
                a = 1
                while a < b:
                    a *= 2
                self._align = min(a, 16)
            elif k == 'float':
                self._align = 4
            elif k in ('double', 'ptr'):
                self._align = 8
            elif k == 'fp80':
                self._align = 16
            elif k == 'arr':
                self._align = self.el.align
            elif k == 'vec':
                self._align = self.size
            elif k == 'struct':
                self._align = 1 if self.packed else max([e.align for e in self.els] or [1])
            else:
                self._align = 1
        return self._align

    @property
    def size(self):
        if self._size is None:
            k = self.k
            if k == 'int':
                b = (self.w + 7) // 8
                a = self.align
                self._size = (b + a - 1) // a * a
            elif k == 'float':
                self._size = 4
            elif k in ('double', 'ptr'):
                self._size = 8
            elif k == 'fp80':
                self._size = 16
            elif k == 'arr':
                self._size = self.n * self.el.size
            elif k == 'vec':
                s = self.n * self.el.size
                a = 1
                while a < s:
                    a *= 2
                self._size = a
            elif k == 'struct':
                self.offs
            else:
                raise IRError('size of %r' % self)
        return self._size

    @property
    def offs(self):
        if self._offs is None:
            o = 0
            r = []
            for e in self.els:
                if not self.packed:
                    a = e.align
                    o = (o + a - 1) // a * a
                r.append(o)
                o += e.size
            if not self.packed:
                a = self.align
                o = (o + a - 1) // a * a
            self._offs = r
            self._size = o
        return self._offs


VOID = Type('void')
PTR = Type('ptr')
FLOAT = Type('float', 32)
DOUBLE = Type('double', 64)
FP80 = Type('fp80', 80)
LABEL = Type('label')
META = Type('metadata')
INT = {}


def intty(w):
    t = INT.get(w)
    if t is None:
        t = INT[w] = Type('int', w)
    return t


# constant expressions
class CGlobal:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class CGep:
    __slots__ = ('ty', 'base', 'idx')

    def __init__(self, ty, base, idx):
        self.ty, self.base, self.idx = ty, base, idx


class CCast:
    __slots__ = ('op', 'v', 'fromty', 'toty')

    def __init__(self, op, v, fromty, toty):
        self.op, self.v, self.fromty, self.toty = op, v, fromty, toty


class CBin:
    __slots__ = ('op', 'a', 'b', 'ty')

    def __init__(self, op, a, b, ty):
        self.op, self.a, self.b, self.ty = op, a, b, ty


class CUndef:
    __slots__ = ()


class CZero:
    __slots__ = ()


class CAgg:
    __slots__ = ('els',)

    def __init__(self, els):
        self.els = els      # list of (type, const)


class CBytes:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b


UNDEF_C = CUndef()
ZERO_C = CZero()


class Reg:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


def parse_fconst(s, ty):
    """return bit pattern"""
    if s.startswith('0x'):
        if s[2] in 'KLMHR':
            raise IRError('fp80 const')
        v = int(s, 16)
        if ty.k == 'double':
            return v
        d = struct.unpack('<d', struct.pack('<Q', v))[0]
        if d != d:
            # NaN: narrow payload
            sign = v >> 63
            frac = (v & ((1 << 52) - 1)) >> 29
            return (sign << 31) | 0x7f800000 | (frac or 1)
        return struct.unpack('<I', struct.pack('<f', d))[0]
    d = float(s)
    if ty.k == 'double':
        return struct.unpack('<Q', struct.pack('<d', d))[0]
    return struct.unpack('<I', struct.pack('<f', d))[0]


CASTOPS = {'bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'}
BINOPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext',
               'inreg', 'returned', 'immarg', 'nofree', 'noreturn', 'swiftself', 'nest', 'writable', 'dead_on_unwind',
               'mustprogress', 'inbounds', 'allocalign', 'allocptr'}
PARAM_ATTRS_P = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'align', 'elementtype', 'nofpclass',
                 'preallocated', 'inalloca', 'range', 'memory'}


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'line')

    def __init__(self, op, dst, ty, a, line=None):
        self.op, self.dst, self.ty, self.a, self.line = op, dst, ty, a, line


class Block:
    __slots__ = ('name', 'insts', 'code', 'idx', 'phis', 'term', 'lpad')

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.code = None
        self.phis = None
        self.term = None
        self.idx = 0


class Function:
    __slots__ = ('name', 'params', 'retty', 'blocks', 'bmap', 'mod', 'nslots', 'slots', 'init', 'entry', 'compiled', 'vararg',
                 'extra')

    def __init__(self, mod, name):
        self.mod, self.name = mod, name
        self.blocks = []
        self.bmap = {}
        self.compiled = False
        self.vararg = False
        self.extra = {}


class Parser:
    def __init__(self, mod, toks):
        self.mod = mod
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, o=0):
        j = self.i + o
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        r = self.t[self.i][1]
        self.i += 1
        return r

    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise IRError('expected %r at %r' % (s, [x[1] for x in self.t[self.i:self.i + 8]]))

    def type(self):
        k, s = self.t[self.i]
        self.i += 1
        if k == 'id':
            if s[0] == 'i' and s[1:].isdigit():
                ty = intty(int(s[1:]))
            elif s == 'ptr':
                ty = PTR
                if self.peek() == 'addrspace':
                    raise IRError('addrspace')
            elif s == 'float':
                ty = FLOAT
            elif s == 'double':
                ty = DOUBLE
            elif s == 'void':
                ty = VOID
            elif s == 'label':
                ty = LABEL
            elif s == 'metadata':
                ty = META
            elif s == 'x86_fp80':
                ty = FP80
            elif s == 'opaque':
                ty = Type('struct', els=[])
            elif s == 'token':
                ty = Type('token')
            else:
                raise IRError('type? %r' % s)
        elif k == 'loc':
            ty = self.mod.named_type(unq(s))
        elif s == '[':
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect(']')
            ty = Type('arr', n=n, el=el)
        elif s == '<':
            if self.peek() == '{':
                self.next()
                els = self.types('}')
                self.expect('>')
                ty = Type('struct', els=els, packed=True)
            else:
                n = int(self.next())
                self.expect('x')
                el = self.type()
                self.expect('>')
                ty = Type('vec', n=n, el=el)
        elif s == '{':
            ty = Type('struct', els=self.types('}'))
        else:
            raise IRError('type? %r' % s)
        # function type:  ret (args...)
        while self.peek() == '(' and ty.k != 'x':
            # only used in call signatures for varargs; caller decides
            break
        return ty

    def types(self, close):
        r = []
        if self.accept(close):
            return r
        while True:
            r.append(self.type())
            if self.accept(','):
                continue
            self.expect(close)
            return r

    def skip_attrs(self):
        while True:
            k = self.kind()
            s = self.peek()
            if k == 'id' and s in PARAM_ATTRS:
                self.i += 1
            elif k == 'id' and s in PARAM_ATTRS_P:
                self.i += 1
                if self.peek() == '(':
                    self.parens()
                elif s == 'align':
                    self.i += 1
            elif k == 'str':
                self.i += 1
                if self.accept('='):
                    self.i += 1
            elif k == 'attr':
                self.i += 1
            else:
                return

    def parens(self):
        d = 0
        while True:
            s = self.next()
            if s == '(':
                d += 1
            elif s == ')':
                d -= 1
                if d == 0:
                    return

    def const_index_list(self):
        pass

    def value(self, ty):
        k, s = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return Reg(unq(s))
        if k == 'num':
            if ty.k == 'int':
                return int(s) & ((1 << ty.w) - 1)
            return parse_fconst(s, ty)
        if k == 'glob':
            return CGlobal(unq(s))
        if k in ('hex', 'flt'):
            return parse_fconst(s, ty)
        if k == 'id':
            if s == 'true':
                return 1
            if s == 'false':
                return 0
            if s == 'null':
                return 0
            if s in ('undef', 'poison'):
                return UNDEF_C
            if s == 'zeroinitializer':
                return ZERO_C
            if s == 'none':
                return 0
            if s == 'getelementptr':
                while self.kind() == 'id' and self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                self.expect('(')
                ety = self.type()
                self.expect(',')
                idx = []
                bty = self.type()
                base = self.value(bty)
                while self.accept(','):
                    self.accept('inrange')
                    it = self.type()
                    idx.append(self.value(it))
                self.expect(')')
                return CGep(ety, base, idx)
            if s in CASTOPS:
                self.expect('(')
                fty = self.type()
                v = self.value(fty)
                self.expect('to')
                tty = self.type()
                self.expect(')')
                return CCast(s, v, fty, tty)
            if s in BINOPS:
                while self.kind() == 'id' and self.peek() in ('nuw', 'nsw', 'exact'):
                    self.next()
                self.expect('(')
                aty = self.type()
                a = self.value(aty)
                self.expect(',')
                bty = self.type()
                b = self.value(bty)
                self.expect(')')
                return CBin(s, a, b, aty)
            if s == 'dso_local_equivalent' or s == 'no_cfi':
                return self.value(ty)
            raise IRError('const expr %r' % s)
        if k == 'str':
            if s.startswith('c"'):
                return CBytes(cbytes(s))
            raise IRError('string value')
        if s in ('{', '['):
            close = '}' if s == '{' else ']'
            return self.agg(close)
        if s == '<':
            if self.peek() == '{':
                self.next()
                v = self.agg('}')
                self.expect('>')
                return v
            return self.agg('>')
        raise IRError('value? %r' % s)

    def agg(self, close):
        els = []
        if self.accept(close):
            return CAgg(els)
        while True:
            t = self.type()
            v = self.value(t)
            els.append((t, v))
            if self.accept(','):
                continue
            self.expect(close)
            return CAgg(els)

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def cbytes(s):
    body = s[2:-1]
    out = bytearray()
    i = 0
    while i < len(body):
        c = body[i]
        if c == '\\':
            if body[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(body[i + 1:i + 3], 16))
                i += 3
        else:
            out += c.encode('latin-1')
            i += 1
    return bytes(out)


FUNC_HDR_SKIP = {'linkonce_odr', 'internal', 'private', 'weak_odr', 'weak', 'available_externally', 'external', 'dso_local',
                 'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr', 'linkonce', 'fastcc', 'coldcc',
                 'ccc', 'extern_weak', 'tailcc', 'cc'}
GLOB_SKIP = FUNC_HDR_SKIP | {'common', 'appending', 'externally_initialized'}


class Module:
    def __init__(self, path):
        with open(path, encoding='latin-1') as f:
            self.text = f.read()
        self.fn_at = {}
        self.decl = {}
        self.glob_line = {}
        self.type_line = {}
        self.types = {}
        self.fns = {}
        self.globs = {}
        self.aliases = {}
        self._index()

    def _index(self):
        text = self.text
        pos = 0
        n = len(text)
        find = text.find
        namere = re.compile(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(')
        while pos < n:
            e = find('\n', pos)
            if e < 0:
                e = n
            c = text[pos:pos + 1]
            if c == 'd' and text.startswith('define', pos):
                m = namere.search(text, pos, e)
                name = unq('@' + m.group(1))
                end = find('\n}', e)
                self.fn_at[name] = (pos, e, end)
                pos = end + 3
                continue
            if c == 'd' and text.startswith('declare', pos):
                m = namere.search(text, pos, e)
                if m:
                    self.decl[unq('@' + m.group(1))] = (pos, e)
            elif c == '@':
                line = text[pos:e]
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = ', line)
                self.glob_line[unq('@' + m.group(1))] = line[m.end():]
            elif c == '%':
                line = text[pos:e]
                m = re.match(r'%("[^"]*"|[-a-zA-Z$._0-9]+) = type ', line)
                if m:
                    self.type_line[unq('%' + m.group(1))] = line[m.end():]
            pos = e + 1

    def named_type(self, name):
        t = self.types.get(name)
        if t is None:
            t = Type('struct', els=[], name=name)
            self.types[name] = t
            line = self.type_line.get(name, 'opaque')
            p = Parser(self, tokenize(line))
            u = p.type()
            t.k, t.els, t.packed, t.n, t.el, t.w = u.k, u.els, u.packed, u.n, u.el, u.w
        return t

    def glob(self, name):
        """-> (type, const or None, is_constant) ; None if unknown"""
        if name in self.globs:
            return self.globs[name]
        line = self.glob_line.get(name)
        if line is None:
            return None
        p = Parser(self, tokenize(line))
        isconst = False
        ext = False
        while True:
            s = p.peek()
            if s == 'external' or s == 'extern_weak':
                ext = True
            if s in ('global', 'constant'):
                isconst = s == 'constant'
                p.next()
                break
            if s == 'alias':
                p.next()
                ty = p.type()
                if p.peek() == '(':
                    p.parens()
                p.expect(',')
                pt = p.type()
                v = p.value(pt)
                self.globs[name] = ('alias', v, True)
                return self.globs[name]
            if s == 'thread_local':
                p.next()
                if p.peek() == '(':
                    p.parens()
                continue
            if s == 'comdat':
                p.next()
                continue
            if s in GLOB_SKIP:
                p.next()
                continue
            raise IRError('global? %r' % line[:80])
        ty = p.type()
        init = None
        if not ext and p.peek() not in (None, ','):
            init = p.value(ty)
        r = (ty, init, isconst)
        self.globs[name] = r
        return r

    def ctors(self):
        line = self.glob_line.get('llvm.global_ctors', '')
        return re.findall(r'ptr @([\w.$"-]+), ptr null', line)

    def function(self, name):
        f = self.fns.get(name)
        if f is not None:
            return f
        at = self.fn_at.get(name)
        if at is None:
            return None
        f = parse_function(self, name, at)
        self.fns[name] = f
        return f


def parse_function(mod, name, at):
    text = mod.text
    pos, e, end = at
    hdr = text[pos:e]
    f = Function(mod, name)
    p = Parser(mod, tokenize(hdr))
    p.expect('define')
    while p.kind() == 'id' and p.peek() in FUNC_HDR_SKIP:
        p.next()
    p.skip_attrs()
    f.retty = p.type()
    p.skip_attrs()
    p.next()  # name
    p.expect('(')
    f.params = []
    argn = 0
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                f.vararg = True
                p.expect(')')
                break
            t = p.type()
            p.skip_attrs()
            if p.kind() == 'loc':
                nm = unq(p.next())
            else:
                nm = str(argn)
            f.params.append((t, nm))
            argn += 1
            if p.accept(','):
                continue
            p.expect(')')
            break
    body = text[e + 1:end].split('\n')
    cur = None
    i = 0
    nb = len(body)
    first = True
    while i < nb:
        line = body[i]
        i += 1
        if not line or line.isspace():
            continue
        c = line[0]
        if c != ' ':
            # label
            if c == ';':
                continue
            m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', line)
            lab = m.group(1)
            if lab.startswith('"'):
                lab = lab[1:-1]
            cur = Block(lab)
            cur.idx = len(f.blocks)
            f.blocks.append(cur)
            f.bmap[lab] = cur
            first = False
            continue
        if first:
            cur = Block('%entry')
            f.blocks.append(cur)
            f.bmap[str(argn)] = cur
            first = False
        s = line.strip()
        # join multi-line (invoke / switch / landingpad)
        if s.startswith('switch') and s.endswith('['):
            while not body[i].strip().startswith(']'):
                s += ' ' + body[i].strip()
                i += 1
            s += ' ]'
            i += 1
        elif 'invoke ' in s and ' unwind label ' not in s:
            s += ' ' + body[i].strip()
            i += 1
        elif 'landingpad ' in s:
            while i < nb and re.match(r'\s+(cleanup|catch|filter)', body[i]):
                s += ' ' + body[i].strip()
                i += 1
        inst = parse_inst(mod, s)
        if inst is not None:
            cur.insts.append(inst)
    f.entry = f.blocks[0]
    return f


CALLPRE = {'tail', 'musttail', 'notail'}
FASTM = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


def parse_inst(mod, s):
    toks = tokenize(s)
    p = Parser(mod, toks)
    dst = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        dst = unq(p.next())
        p.next()
    op = p.next()
    while op in CALLPRE:
        op = p.next()
    if op in BINOPS:
        fl = set()
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            fl.add(p.next())
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Inst(op, dst, ty, (a, b, fl))
    if op in FBIN:
        while p.peek() in FASTM:
            p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Inst(op, dst, ty, (a, b))
    if op == 'fneg':
        while p.peek() in FASTM:
            p.next()
        ty = p.type()
        return Inst(op, dst, ty, (p.value(ty),))
    if op in ('icmp', 'fcmp'):
        while p.peek() in FASTM:
            p.next()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Inst(op, dst, ty, (pred, a, b))
    if op == 'load':
        if p.peek() == 'atomic':
            p.next()
        p.accept('volatile')
        ty = p.type()
        p.expect(',')
        pt = p.type()
        v = p.value(pt)
        return Inst(op, dst, ty, (v,))
    if op == 'store':
        if p.peek() == 'atomic':
            p.next()
        p.accept('volatile')
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        pt = p.type()
        q = p.value(pt)
        return Inst(op, None, ty, (v, q))
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        ty = p.type()
        p.expect(',')
        pt = p.type()
        b = p.value(pt)
        idx = []
        while p.accept(','):
            if p.kind() == 'meta':
                break
            it = p.type()
            idx.append((it, p.value(it)))
        return Inst(op, dst, ty, (b, idx))
    if op in ('call', 'invoke'):
        while p.peek() in FASTM:
            p.next()
        while p.kind() == 'id' and p.peek() in FUNC_HDR_SKIP:
            p.next()
        p.skip_attrs()
        rty = p.type()
        # optional full fn type for varargs
        if p.peek() == '(' and not (p.kind() == 'glob'):
            # function type: (i8, ...)
            p.parens()
        p.skip_attrs()
        if p.peek() == 'asm':
            return Inst('asm', dst, rty, ())
        callee = p.value(PTR)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                t = p.type()
                if t.k == 'metadata':
                    # skip metadata arg
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        s2 = p.next()
                        if s2 == '(':
                            d += 1
                        elif s2 == ')':
                            d -= 1
                    args.append((t, 0, None))
                else:
                    byval = None
                    # look for byval(T)
                    j = p.i
                    while p.kind() in ('id', 'str', 'attr') and (p.peek() in PARAM_ATTRS or p.peek() in PARAM_ATTRS_P or
                                                                 p.kind() in ('str', 'attr')):
                        if p.peek() == 'byval':
                            p.next()
                            p.expect('(')
                            byval = p.type()
                            p.expect(')')
                        else:
                            k0 = p.i
                            p_one(p)
                            if p.i == k0:
                                break
                    v = p.value(t)
                    args.append((t, v, byval))
                if p.accept(','):
                    continue
                p.expect(')')
                break
        normal = unwind = None
        while p.i < len(p.t) and p.peek() != 'to':
            if p.peek() == '[':
                raise IRError('operand bundle')
            p.next()
        if op == 'invoke':
            p.expect('to')
            p.expect('label')
            normal = unq(p.next())
            p.expect('unwind')
            p.expect('label')
            unwind = unq(p.next())
        return Inst(op, dst, rty, (callee, args, normal, unwind))
    if op == 'br':
        if p.accept('label'):
            return Inst('jmp', None, None, (unq(p.next()),))
        ty = p.type()
        c = p.value(ty)
        p.expect(',')
        p.expect('label')
        a = unq(p.next())
        p.expect(',')
        p.expect('label')
        b = unq(p.next())
        return Inst('br', None, ty, (c, a, b))
    if op == 'switch':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.expect('label')
        d = unq(p.next())
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv, unq(p.next())))
        return Inst('switch', None, ty, (v, d, cases))
    if op == 'ret':
        ty = p.type()
        if ty.k == 'void':
            return Inst('ret', None, ty, (None,))
        return Inst('ret', None, ty, (p.value(ty),))
    if op == 'phi':
        while p.peek() in FASTM:
            p.next()
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            b = unq(p.next())
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
            if p.kind() == 'meta':
                break
        return Inst('phi', dst, ty, (inc,))
    if op == 'alloca':
        p.accept('inalloca')
        ty = p.type()
        n = 1
        if p.accept(','):
            if p.peek() != 'align':
                nt = p.type()
                n = p.value(nt)
        return Inst('alloca', dst, ty, (n,))
    if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc',
              'fpext', 'addrspacecast'):
        while p.peek() in FASTM or p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        ft = p.type()
        v = p.value(ft)
        p.expect('to')
        tt = p.type()
        return Inst(op, dst, tt, (v, ft))
    if op == 'select':
        while p.peek() in FASTM:
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t1 = p.type()
        a = p.value(t1)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        return Inst(op, dst, t1, (c, a, b, ct))
    if op == 'extractvalue':
        ty = p.type()
        v = p.value(ty)
        idx = []
        while p.accept(','):
            if p.kind() == 'meta':
                break
            idx.append(int(p.next()))
        return Inst(op, dst, ty, (v, idx))
    if op == 'insertvalue':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        et = p.type()
        ev = p.value(et)
        idx = []
        while p.accept(','):
            if p.kind() == 'meta':
                break
            idx.append(int(p.next()))
        return Inst(op, dst, ty, (v, ev, et, idx))
    if op == 'extractelement':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        it = p.type()
        return Inst(op, dst, ty, (v, p.value(it)))
    if op == 'insertelement':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        et = p.type()
        ev = p.value(et)
        p.expect(',')
        it = p.type()
        return Inst(op, dst, ty, (v, ev, p.value(it)))
    if op == 'shufflevector':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        ty2 = p.type()
        w = p.value(ty2)
        p.expect(',')
        mt = p.type()
        m = p.value(mt)
        return Inst(op, dst, mt, (v, w, m, ty))
    if op == 'landingpad':
        ty = p.type()
        cleanup = False
        clauses = []
        while p.i < len(p.t):
            s2 = p.next()
            if s2 == 'cleanup':
                cleanup = True
            elif s2 == 'catch':
                t = p.type()
                clauses.append(('catch', p.value(t)))
            elif s2 == 'filter':
                t = p.type()
                clauses.append(('filter', p.value(t), t))
            else:
                raise IRError('landingpad %r' % s)
        return Inst(op, dst, ty, (cleanup, clauses))
    if op == 'resume':
        ty = p.type()
        return Inst(op, None, ty, (p.value(ty),))
    if op == 'unreachable':
        return Inst(op, None, None, ())
    if op == 'freeze':
        ty = p.type()
        return Inst(op, dst, ty, (p.value(ty),))
    if op == 'atomicrmw':
        p.accept('volatile')
        bop = p.next()
        pt = p.type()
        q = p.value(pt)
        p.expect(',')
        ty = p.type()
        v = p.value(ty)
        return Inst(op, dst, ty, (bop, q, v))
    if op == 'cmpxchg':
        p.accept('weak')
        p.accept('volatile')
        pt = p.type()
        q = p.value(pt)
        p.expect(',')
        ty = p.type()
        c = p.value(ty)
        p.expect(',')
        ty2 = p.type()
        v = p.value(ty2)
        return Inst(op, dst, ty, (q, c, v))
    if op == 'fence':
        return None
    if op == 'va_arg':
        raise IRError('va_arg')
    raise IRError('inst? %r' % s)


def p_one(p):
    """skip one attribute"""
    k = p.kind()
    s = p.peek()
    if k == 'id' and s in PARAM_ATTRS:
        p.i += 1
    elif k == 'id' and s in PARAM_ATTRS_P:
        p.i += 1
        if p.peek() == '(':
            p.parens()
        elif s == 'align':
            p.i += 1
    elif k == 'str':
        p.i += 1
        if p.accept('='):
            p.i += 1
    elif k == 'attr':
        p.i += 1
