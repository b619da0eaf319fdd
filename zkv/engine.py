"""Symbolic execution / VC generation over LLVM IR.

Every path of a harness is executed with symbolic inputs; each zk_assert, memory access and 'must not terminate'
condition on it becomes an obligation decided by z3 under the path condition."""
import time
import re
import z3
import ir
from values import *
from values import norm as _norm


class CxxThrow(Exception):
    def __init__(self, obj, tinfo):
        self.obj, self.tinfo = obj, tinfo


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class KillPath(Exception):
    """path ends here (infeasible assumption, bounded cut, harness end)"""

    def __init__(self, why):
        self.why = why


class Violation(Exception):
    """the path cannot continue after this failed obligation"""


class Obj:
    __slots__ = ('size', 'cells', 'fill', 'own', 'base', 'name', 'alive', 'arr', 'kind', 'x')

    def __init__(self, size, base, name, fill=None, kind='heap'):
        self.size = size
        self.cells = {}
        self.fill = fill
        self.own = None
        self.base = base
        self.name = name
        self.alive = True
        self.arr = None
        self.kind = kind
        self.x = None

    def copy(self):
        o = Obj.__new__(Obj)
        o.size, o.fill, o.base, o.name, o.alive, o.arr, o.kind = self.size, self.fill, self.base, self.name, self.alive, \
            self.arr, self.kind
        o.cells = dict(self.cells)
        o.x = self.x
        return o


class Frame:
    __slots__ = ('fn', 'block', 'ip', 'regs', 'ret', 'allocas', 'visits', 'va')

    def __init__(self, fn, regs, ret):
        self.fn, self.regs, self.ret = fn, regs, ret
        self.block = fn.entry
        self.ip = 0
        self.allocas = []
        self.visits = None
        self.va = None

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.ip, f.ret, f.va = self.fn, self.block, self.ip, self.ret, self.va
        f.regs = list(self.regs)
        f.allocas = list(self.allocas)
        f.visits = dict(self.visits) if self.visits else None
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.known = {}
        self.tok = object()
        self.inputs = []
        self.next_oid = 1 << 20
        self.next_addr = 0x100000000
        self.exc = []          # caught exception stack
        self.g = {}            # ghost / misc model state (copied shallowly on fork)
        self.trace = []
        self.bounded = False
        self.fresh = 0

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.known = dict(self.known)
        s.tok = object()
        self.tok = object()
        s.inputs = list(self.inputs)
        s.next_oid = self.next_oid
        s.next_addr = self.next_addr
        s.exc = list(self.exc)
        s.g = {k: (v.copy() if isinstance(v, (dict, list)) else v) for k, v in self.g.items()}
        s.trace = list(self.trace)
        s.bounded = self.bounded
        s.fresh = self.fresh
        return s


CALL = 'CALL'
RET = 'RET'

COMMUT = {'add', 'mul', 'and', 'or', 'xor'}


class Engine:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.opts = opts or {}
        self.goid = {}
        self.gname = {}
        self.gobjs = {}
        self.fnoid = {}
        self.oidfn = {}
        self.n_goid = 1
        self.gaddr = 0x400000
        self.models = {}
        self.prefix_models = []
        self.stubs = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', int(self.opts.get('qtimeout', 10000)))
        self.asserted = []
        self.stats = dict(paths=0, insts=0, queries=0, solver_s=0.0, forks=0, obligations=0, trivial=0, proved=0)
        self.obl = {}            # name -> [checked, discharged]
        self.failures = []       # dicts
        self.undecided = []      # strings
        self.covers = {}
        self.fn_seen = set()
        self.assumed = set()     # models used
        self.bounded_notes = set()
        self.deadline = None
        self.max_insts = self.opts.get('max_insts', 200_000_000)
        self.unroll = self.opts.get('unroll', 40)
        self.fp_exact = False
        self.hash_len = False
        self.one_bucket = False
        self.typeid = {}
        self.fresh_n = 0
        self.fail_limit = 3
        self.loops = {}
        self.notes = set()
        self.domains = {}
        self.tokens = {}
        self.fpext_src = {}
        self.dom_cache = {}

    # ------------------------------------------------------------ solver
    def sync(self, st):
        a, pc = self.asserted, st.pc
        k = 0
        n = min(len(a), len(pc))
        while k < n and a[k] is pc[k]:
            k += 1
        if len(a) > k:
            self.solver.pop(len(a) - k)
            del a[k:]
        for c in pc[k:]:
            self.solver.push()
            self.solver.add(c)
            a.append(c)

    def query(self, st, cond, want_model=False, timeout=None):
        """sat / unsat / unknown of pc and cond"""
        t = time.time()
        self.sync(st)
        self.stats['queries'] += 1
        s = self.solver
        s.push()
        s.add(cond)
        r = s.check()
        m = None
        if r == z3.sat and want_model:
            m = s.model()
        s.pop()
        if r == z3.unknown:
            # one-shot solver with full preprocessing
            s2 = z3.Solver()
            s2.set('timeout', int(timeout or self.opts.get('qtimeout2', 60000)))
            for c in st.pc:
                s2.add(c)
            s2.add(cond)
            r = s2.check()
            if r == z3.sat and want_model:
                m = s2.model()
        self.stats['solver_s'] += time.time() - t
        return (r, m) if want_model else r

    def add_pc(self, st, c):
        st.pc.append(c)
        st.known[c.get_id()] = True

    def decide(self, st, c):
        """truth of condition c on this path; forks when both are possible"""
        if type(c) is int or type(c) is bool:
            return bool(c)
        if isinstance(c, Undef):
            c = self.fresh_bool(st, 'undef')
        if isinstance(c, z3.BitVecRef):
            c = c == 1
        if isinstance(c, Ptr):
            return True
        k = c.get_id()
        v = st.known.get(k)
        if v is not None:
            return v
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        v = st.known.get(s.get_id())
        if v is not None:
            return v
        v = self.dom_eval(s)
        if v is not None:
            return v
        neg = z3.Not(s)
        rt = self.query(st, s)
        if rt == z3.unsat:
            st.known[s.get_id()] = False
            self.keep(st, s)
            return False
        rf = self.query(st, neg)
        if rf == z3.unsat:
            st.known[s.get_id()] = True
            self.keep(st, s)
            return True
        raise Fork(s)

    def dom_eval(self, s):
        """truth of s when it depends on a single token byte, by enumeration of the byte's domain"""
        if not self.domains:
            return None
        k = s.get_id()
        if k in self.dom_cache:
            return self.dom_cache[k][1]
        var = None
        todo = [s]
        n = 0
        ok = True
        while todo and ok:
            e = todo.pop()
            n += 1
            if n > 60:
                ok = False
                break
            if e.num_args() == 0:
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    if e.get_id() not in self.domains or (var is not None and not var.eq(e)):
                        ok = False
                    var = e
            else:
                todo.extend(e.children())
        r = None
        if ok and var is not None and len(self.domains[var.get_id()][1]) > 32:
            ok = False
            e, neg = s, False
            if e.decl().kind() == z3.Z3_OP_NOT:
                e, neg = e.children()[0], True
            if e.decl().kind() == z3.Z3_OP_EQ:
                x, y = e.children()
                if x.eq(var):
                    x, y = y, x
                if y.eq(var) and isinstance(x, z3.BitVecNumRef) and x.as_long() not in self.domains[var.get_id()][1]:
                    r = neg
        if ok and var is not None:
            vals = set()
            for d in self.domains[var.get_id()][1]:
                x = z3.simplify(z3.substitute(s, (var, z3.BitVecVal(d, 8))))
                vals.add(z3.is_true(x))
                if len(vals) == 2:
                    break
            if len(vals) == 1:
                r = vals.pop()
        self.dom_cache[k] = (s, r)
        return r

    def keep(self, st, e):
        # keep ast ids valid
        st.g.setdefault('#keep', []).append(e)

    def must(self, st, c):
        """is c valid on this path (no fork)"""
        if type(c) is int or type(c) is bool:
            return bool(c)
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if st.known.get(s.get_id()) is True:
            return True
        return self.query(st, z3.Not(s)) == z3.unsat

    def possible_values(self, st, e, limit):
        """all values of bit-vector e on this path, or None if more than limit"""
        out = []
        cond = z3.BoolVal(True)
        cs = []
        while len(out) <= limit:
            r, m = self.query(st, z3.And(*cs) if cs else cond, want_model=True)
            if r == z3.unsat:
                return out
            if r != z3.sat:
                return None
            v = m.eval(e, model_completion=True).as_long()
            out.append(v)
            cs.append(e != v)
        return None

    def concretize(self, st, e, w=64, limit=64):
        """make e concrete on this path by case split"""
        if type(e) is int:
            return e
        s = z3.simplify(e)
        if isinstance(s, z3.BitVecNumRef):
            return s.as_long()
        cache = st.g.setdefault('#conc', {})
        if s.get_id() in cache:
            return cache[s.get_id()]
        vals = self.possible_values(st, s, limit)
        if vals is None:
            raise Unsupported('cannot enumerate the values of %s' % str(s)[:120])
        for v in sorted(vals)[:-1]:
            if self.decide(st, s == v):
                self.keep(st, s)
                cache[s.get_id()] = v
                return v
        v = sorted(vals)[-1]
        self.keep(st, s)
        cache[s.get_id()] = v
        return v

    # ------------------------------------------------------------ fresh values
    def fresh_bv(self, st, w, hint='u'):
        st.fresh += 1
        self.fresh_n += 1
        return z3.BitVec('%s!%d' % (hint, self.fresh_n), w)

    def fresh_bool(self, st, hint='u'):
        self.fresh_n += 1
        return z3.Bool('%s!%d' % (hint, self.fresh_n))

    def undef(self, st, w):
        if w == 1:
            return self.fresh_bool(st, 'undef')
        return self.fresh_bv(st, w, 'undef')

    # ------------------------------------------------------------ objects
    def alloc(self, st, size, name, kind='heap', fill=None):
        oid = st.next_oid
        st.next_oid += 1
        o = Obj(size, st.next_addr, name, fill, kind)
        o.own = st.tok
        n = size if type(size) is int else 0x100000
        st.next_addr += (n + 63) // 16 * 16 + 16
        st.mem[oid] = o
        return Ptr(oid, 0)

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.gobjs.get(oid)
            if o is None:
                o = self.init_global(oid)
        return o

    def wr(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.obj(st, oid)
        if o.own is not st.tok:
            o = o.copy()
            o.own = st.tok
            st.mem[oid] = o
        return o

    def global_ptr(self, name):
        oid = self.goid.get(name)
        if oid is None:
            oid = self.n_goid
            self.n_goid += 1
            self.goid[name] = oid
            self.gname[oid] = name
        return Ptr(oid, 0)

    def init_global(self, oid):
        name = self.gname.get(oid)
        if name is None:
            raise Unsupported('dangling object id %s' % oid)
        g = self.mod.glob(name)
        if g is None:
            if name in self.mod.fn_at or name in self.mod.decl:
                o = Obj(1, self.gaddr, name, None, 'func')
                self.gaddr += 16
                self.gobjs[oid] = o
                return o
            raise Unsupported('unknown global %s' % name)
        ty, init, isconst = g
        if ty == 'alias':
            raise Unsupported('data alias %s' % name)
        o = Obj(ty.size, self.gaddr, name, None, 'const' if isconst else 'global')
        self.gaddr += (ty.size + 31) // 16 * 16 + 16
        self.gobjs[oid] = o
        if init is None:
            self.ext_global(name, o)
        elif init is ir.ZERO_C:
            o.fill = 0
        elif isinstance(init, ir.CBytes):
            o.fill = init.b
        else:
            self.init_const(o, 0, ty, init)
        return o

    def ext_global(self, name, o):
        if name == '__libc_single_threaded':
            o.fill = 1
            o.cells[0] = (1, 1)
            return
        if name.startswith('_ZTV'):
            o.size = 0x1000
            o.kind = 'extvt'
            return
        o.size = max(o.size, 64)
        o.kind = 'extglobal'

    def init_const(self, o, off, ty, c):
        k = ty.k
        if c is ir.UNDEF_C:
            return
        if c is ir.ZERO_C:
            for i in range(0, ty.size, 8):
                n = min(8, ty.size - i)
                o.cells[off + i] = (n, 0)
            return
        if isinstance(c, ir.CBytes):
            for i, b in enumerate(c.b):
                o.cells[off + i] = (1, b)
            return
        if isinstance(c, ir.CAgg):
            if k == 'struct':
                for (t, v), fo in zip(c.els, ty.offs):
                    self.init_const(o, off + fo, t, v)
            else:
                es = ty.el.size
                for i, (t, v) in enumerate(c.els):
                    self.init_const(o, off + i * es, t, v)
            return
        v = self.const(ty, c)
        o.cells[off] = (ty.size, v)

    def const(self, ty, c):
        """value of a constant operand"""
        if type(c) is int:
            return c
        if c is ir.UNDEF_C:
            return self.undef_const(ty)
        if c is ir.ZERO_C:
            return self.zero(ty)
        if isinstance(c, ir.CGlobal):
            return self.gref(c.name)
        if isinstance(c, ir.CGep):
            b = self.const(ir.PTR, c.base)
            off = self.gep_const(c.ty, c.idx)
            if type(b) is int:
                return (b + off) & MASK[64]
            return Ptr(b.o, b.off + off)
        if isinstance(c, ir.CAgg):
            return tuple(self.const(t, v) for t, v in c.els)
        if isinstance(c, ir.CCast):
            v = self.const(c.fromty, c.v)
            if c.op in ('bitcast', 'ptrtoint', 'inttoptr'):
                return v
            if c.op == 'trunc':
                if isinstance(v, Ptr):
                    v = self.addr(None, v)
                return v & MASK[c.toty.w]
            raise Unsupported('const cast ' + c.op)
        if isinstance(c, ir.CBin):
            a = self.const(c.ty, c.a)
            b = self.const(c.ty, c.b)
            return self.binop(None, c.op, a, b, c.ty.w)
        if isinstance(c, ir.CBytes):
            return tuple(c.b)
        raise Unsupported('const %r' % c)

    def gref(self, name):
        g = None
        if name in self.mod.glob_line:
            g = self.mod.glob(name)
            if g[0] == 'alias':
                return self.const(ir.PTR, g[1])
        return self.global_ptr(name)

    def undef_const(self, ty):
        if ty.k == 'struct':
            return tuple(self.undef_const(e) for e in ty.els)
        if ty.k in ('arr', 'vec'):
            return tuple(self.undef_const(ty.el) for _ in range(ty.n))
        return UNDEF

    def zero(self, ty):
        if ty.k == 'struct':
            return tuple(self.zero(e) for e in ty.els)
        if ty.k in ('arr', 'vec'):
            return tuple(self.zero(ty.el) for _ in range(ty.n))
        return 0

    def gep_const(self, ty, idx):
        off = 0
        first = True
        for c in idx:
            v = self.const(ir.intty(64), c)
            if first:
                v = signed(v, 64) if v >> 63 else (v - (1 << 32) if v >> 31 == 1 and v < (1 << 32) and False else v)
                off += v * ty.size
                first = False
            elif ty.k == 'struct':
                off += ty.offs[v]
                ty = ty.els[v]
            else:
                v = signed(v, 64) if v >> 63 else v
                off += v * ty.el.size
                ty = ty.el
        return off

    def addr(self, st, p):
        """numeric address of a pointer"""
        if type(p) is int:
            return p
        if not isinstance(p, Ptr):
            return p
        o = self.obj(st, p.o) if st is not None else self.gobjs.get(p.o) or self.init_global(p.o)
        if type(p.off) is int:
            return (o.base + p.off) & MASK[64]
        return p.off + z3.BitVecVal(o.base, 64)

    # ------------------------------------------------------------ obligations
    def where(self, st):
        for f in reversed(st.frames):
            return f.fn.name
        return '?'

    def stack(self, st):
        return [f.fn.name for f in st.frames]

    def obligation(self, st, cond, name, detail=''):
        """cond must hold on every execution reaching this point"""
        e = self.obl.setdefault(name, [0, 0])
        e[0] += 1
        self.stats['obligations'] += 1
        if type(cond) in (int, bool):
            ok = bool(cond)
            if ok:
                self.stats['trivial'] += 1
                e[1] += 1
                return True
            neg = z3.BoolVal(True)
        else:
            c = z3.simplify(boolv(cond))
            if z3.is_true(c):
                self.stats['trivial'] += 1
                e[1] += 1
                return True
            if st.known.get(c.get_id()) is True:
                self.stats['trivial'] += 1
                e[1] += 1
                return True
            neg = z3.Not(c)
        r, m = self.query(st, neg, want_model=True)
        if r == z3.unsat:
            e[1] += 1
            self.stats['proved'] += 1
            return True
        if r == z3.sat:
            self.report(st, name, detail, m)
            return False
        self.undecided.append('%s: solver gave up (%s)' % (name, detail or self.where(st)))
        return None

    def report(self, st, name, detail, model):
        n = sum(1 for f in self.failures if f['name'] == name)
        if n < self.fail_limit:
            inputs = []
            for lab, w, v in st.inputs:
                if isinstance(v, z3.BitVecRef):
                    x = model.eval(v, model_completion=True).as_long()
                else:
                    x = v
                inputs.append((lab, w, x))
            self.failures.append(dict(name=name, detail=detail, inputs=inputs, stack=self.stack(st)[-12:]))
            self.deadline = min(self.deadline, time.time() + 20)     # the verdict is in; look a little further only

    def fail(self, st, name, detail=''):
        """unconditional failure on this (feasible) path"""
        self.obligation(st, False, name, detail)
        raise Violation()

    # ------------------------------------------------------------ memory
    def deref(self, st, p, size, what):
        """-> (obj, offset); reports memory errors"""
        if not isinstance(p, Ptr):
            if isinstance(p, Undef):
                self.fail(st, 'memory-safety', '%s through an uninitialised pointer in %s' % (what, self.where(st)))
            if type(p) is int:
                self.fail(st, 'memory-safety', '%s through invalid pointer %#x in %s' % (what, p, self.where(st)))
            raise Unsupported('%s through symbolic pointer' % what)
        o = self.obj(st, p.o)
        if not o.alive:
            self.fail(st, 'memory-safety', '%s after free (%s) in %s' % (what, o.name, self.where(st)))
        off = p.off
        if type(off) is not int:
            s = z3.simplify(off)
            if isinstance(s, z3.BitVecNumRef):
                off = s.as_long()
                if off >> 63:
                    off -= 1 << 64
        if type(off) is int and type(o.size) is int and type(size) is int:
            if off < 0 or off + size > o.size:
                if o.kind in ('extvt', 'extglobal', 'func'):
                    raise Unsupported('access to external object %s' % o.name)
                self.fail(st, 'memory-safety',
                          '%s of %d bytes at offset %d of %d-byte %s in %s' % (what, size, off, o.size, o.name, self.where(st)))
        else:
            # symbolic bounds obligation
            O = bv(off & MASK[64] if type(off) is int else off, 64)
            S = bv(o.size, 64)
            c = z3.And(z3.ULE(O, S), z3.ULE(bv(size, 64), S - O))
            r = self.obligation(st, c, 'memory-safety',
                                '%s of %s bytes at symbolic offset of %s in %s' % (what, size if type(size) is int else 'n', o.name, self.where(st)))
            if r is not True:
                # continue on the in-bounds part only
                cc = z3.simplify(c)
                if z3.is_false(cc) or self.query(st, cc) == z3.unsat:
                    raise Violation()
                self.add_pc(st, cc)
        return o, off

    def find_cell(self, o, off):
        c = o.cells.get(off)
        if c is not None:
            return off, c
        for d in range(1, 8):
            c = o.cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    return off - d, c
                return None
        return None

    def byte_at(self, o, off):
        r = self.find_cell(o, off)
        if r is not None:
            co, (n, v) = r
            i = off - co
            if n == 1:
                return v
            return self.part(v, n, i)
        f = o.fill
        if f is None:
            return UNDEF
        if type(f) is int:
            return f
        return f[off] if off < len(f) else 0

    def part(self, v, n, i):
        if type(v) is int:
            return (v >> (8 * i)) & 255
        if isinstance(v, Undef):
            return UNDEF
        return Part(v, n, i)

    def byte_bv(self, st, b):
        """z3 8-bit expression for a stored byte"""
        if type(b) is int:
            return z3.BitVecVal(b, 8)
        if isinstance(b, Part):
            v = b.v
            if isinstance(v, Ptr):
                a = self.addr(st, v)
                v = a
                if type(v) is int:
                    return z3.BitVecVal((v >> (8 * b.i)) & 255, 8)
            if isinstance(v, z3.BoolRef):
                v = bv(v, 8 * b.n)
            return z3.Extract(8 * b.i + 7, 8 * b.i, v)
        if isinstance(b, Undef):
            return self.undef(st, 8)
        if isinstance(b, z3.BoolRef):
            return bv(b, 8)
        return b

    def assemble(self, st, bs):
        n = len(bs)
        if all(type(b) is int for b in bs):
            v = 0
            for i, b in enumerate(bs):
                v |= b << (8 * i)
            return v
        b0 = bs[0]
        if isinstance(b0, Part) and b0.i == 0 and b0.n >= n:
            v = b0.v
            if all(isinstance(b, Part) and b.i == i and (b.v is v or (is_sym(v) and is_sym(b.v) and v.eq(b.v)))
                   for i, b in enumerate(bs)):
                if b0.n == n:
                    return v
                if is_sym(v):
                    return z3.Extract(8 * n - 1, 0, v)
        if all(isinstance(b, Undef) for b in bs):
            return UNDEF
        if n == 1:
            b = bs[0]
            if isinstance(b, Part):
                return self.byte_bv(st, b)
            return b
        # merge runs of parts of the same value to keep expressions small
        runs = []
        i = 0
        while i < n:
            b = bs[i]
            j = i + 1
            if isinstance(b, Part) and is_sym(b.v) and not isinstance(b.v, z3.BoolRef):
                while j < n and isinstance(bs[j], Part) and bs[j].v is b.v and bs[j].i == b.i + (j - i):
                    j += 1
                lo = 8 * b.i
                hi = 8 * (b.i + (j - i)) - 1
                runs.append(b.v if lo == 0 and hi == 8 * b.n - 1 else z3.Extract(hi, lo, b.v))
            elif type(b) is int:
                val = b
                while j < n and type(bs[j]) is int:
                    val |= bs[j] << (8 * (j - i))
                    j += 1
                runs.append(z3.BitVecVal(val, 8 * (j - i)))
            else:
                runs.append(self.byte_bv(st, b))
            i = j
        e = z3.Concat(*reversed(runs)) if len(runs) > 1 else runs[0]
        e = z3.simplify(e)
        return _norm(e, n * 8)

    def load(self, st, p, size):
        if type(p) is Ptr and type(p.off) is int:
            o = st.mem.get(p.o)
            if o is None:
                o = self.obj(st, p.o)
            if o.alive and o.arr is None:
                c = o.cells.get(p.off)
                if c is not None and c[0] == size:
                    if type(c[1]) is Part and not isinstance(c[1].v, Ptr):
                        return self.byte_bv(st, c[1])
                    return c[1]
        o, off = self.deref(st, p, size, 'read')
        if o.arr is not None:
            O = bv(off & MASK[64] if type(off) is int else off, 64)
            bs = [z3.Select(o.arr, z3.simplify(O + i)) for i in range(size)]
            e = z3.simplify(z3.Concat(*reversed(bs)) if size > 1 else bs[0])
            return _norm(e, size * 8)
        if o.kind in ('extvt', 'extglobal', 'func'):
            raise Unsupported('read of external object %s in %s' % (o.name, self.where(st)))
        if type(off) is int:
            c = o.cells.get(off)
            if c is not None and c[0] == size:
                if type(c[1]) is Part and not isinstance(c[1].v, Ptr):
                    return self.byte_bv(st, c[1])
                return c[1]
            if size > 8:
                # split
                lo = self.load(st, Ptr(p.o, off), 8)
                hi = self.load(st, Ptr(p.o, off + 8), size - 8)
                if type(lo) is int and type(hi) is int:
                    return lo | hi << 64
                return z3.Concat(bv(self.defd(st, hi, (size - 8) * 8), (size - 8) * 8), bv(self.defd(st, lo, 64), 64))
            bs = [self.byte_at(o, off + i) for i in range(size)]
            return self.assemble(st, bs)
        return self.load_sym(st, p, o, off, size)

    def defd(self, st, v, w):
        if isinstance(v, Undef):
            return self.undef(st, w)
        if isinstance(v, Ptr):
            return self.addr(st, v)
        if isinstance(v, Part):
            return self.byte_bv(st, v)
        return v

    def load_sym(self, st, p, o, off, size):
        # symbolic offset into a concretely sized object
        vals = None
        lim = self.opts.get('symload', 300)
        if type(o.size) is int and o.size <= 16384:
            stride = self.stride(off)
            start = self.stride_base(off, stride)
            cand = list(range(start, o.size - size + 1, stride))
            if len(cand) <= lim:
                res = []
                isptr = False
                for c in cand:
                    ce = o.cells.get(c)
                    if ce is not None and ce[0] == size:
                        v = ce[1]
                    else:
                        v = self.assemble(st, [self.byte_at(o, c + i) for i in range(size)])
                    if isinstance(v, Ptr):
                        isptr = True
                    res.append((c, v))
                if not isptr:
                    r = None
                    # group equal concrete values to keep the term small
                    for c, v in reversed(res):
                        vv = bv(self.defd(st, v, size * 8), size * 8)
                        r = vv if r is None else z3.If(off == c, vv, r)
                    return z3.simplify(r)
            elif not self.has_ptrs(o):
                a = o.copy()
                self.to_array(st, a)
                bs = [z3.Select(a.arr, z3.simplify(off + i)) for i in range(size)]
                return z3.simplify(bs[0] if size == 1 else z3.Concat(*reversed(bs)))
        v = self.concretize(st, off)
        return self.load(st, Ptr(p.o, v if v < 1 << 63 else v - (1 << 64)), size)

    def stride(self, off):
        """largest power-of-two-ish constant factor of off apart from an additive constant"""
        def go(e):
            d = e.decl().kind()
            if isinstance(e, z3.BitVecNumRef):
                return 0
            if d == z3.Z3_OP_BADD:
                import math
                g = 0
                for c in e.children():
                    g = math.gcd(g, go(c))
                return g
            if d == z3.Z3_OP_BMUL:
                g = 1
                for c in e.children():
                    if isinstance(c, z3.BitVecNumRef):
                        v = c.as_long()
                        if v < 1 << 32:
                            g *= v
                        else:
                            g *= 1
                return g
            if d == z3.Z3_OP_CONCAT:
                ch = e.children()
                last = ch[-1]
                if isinstance(last, z3.BitVecNumRef) and last.as_long() == 0:
                    return 1 << last.size()
                return 1
            if d == z3.Z3_OP_BSHL and isinstance(e.children()[1], z3.BitVecNumRef):
                return 1 << e.children()[1].as_long()
            return 1
        return go(z3.simplify(off)) or 1

    def stride_base(self, off, stride):
        s = z3.simplify(off)
        if s.decl().kind() == z3.Z3_OP_BADD:
            for c in s.children():
                if isinstance(c, z3.BitVecNumRef):
                    return c.as_long() % stride if c.as_long() < 1 << 62 else (c.as_long() - (1 << 64)) % stride
        if s.decl().kind() == z3.Z3_OP_CONCAT:
            last = s.children()[-1]
            if isinstance(last, z3.BitVecNumRef):
                return last.as_long() % stride
        return 0

    def clear(self, o, off, n):
        cells = o.cells
        if not cells:
            return
        # cell straddling the start
        r = self.find_cell(o, off)
        if r is not None and r[0] < off:
            co, (cn, v) = r
            del cells[co]
            for i in range(cn):
                a = co + i
                if a < off or a >= off + n:
                    cells[a] = (1, self.part(v, cn, i))
        if n > 64 and len(cells) < n:
            ks = [k for k in cells if off <= k < off + n]
        else:
            ks = range(off, off + n)
        for k in ks:
            c = cells.get(k)
            if c is not None:
                del cells[k]
                if k + c[0] > off + n:
                    cn, v = c
                    for i in range(off + n - k, cn):
                        cells[k + i] = (1, self.part(v, cn, i))

    def store(self, st, p, size, v):
        if type(p) is Ptr and type(p.off) is int:
            o = st.mem.get(p.o)
            if o is not None and o.own is st.tok and o.alive and o.arr is None:
                c = o.cells.get(p.off)
                if c is not None and c[0] == size:
                    o.cells[p.off] = (size, v)
                    return
        o, off = self.deref(st, p, size, 'write')
        if o.kind == 'const':
            self.fail(st, 'memory-safety', 'write to constant %s in %s' % (o.name, self.where(st)))
        if o.kind in ('extvt', 'func'):
            raise Unsupported('write to external object %s' % o.name)
        o = self.wr(st, p.o)
        if o.arr is None and type(off) is not int:
            off = self.sym_store_off(st, p, o, off, size, v)
            if off is None:
                return
            o = self.wr(st, p.o)
        if o.arr is not None:
            O = bv(off & MASK[64] if type(off) is int else off, 64)
            if isinstance(v, Ptr):
                raise Unsupported('pointer stored in array object')
            if isinstance(v, Undef):
                v = self.undef(st, size * 8)
            if isinstance(v, Part):
                v = self.byte_bv(st, v)
            V = bv(v, size * 8)
            a = o.arr
            for i in range(size):
                a = z3.Store(a, z3.simplify(O + i), z3.simplify(z3.Extract(8 * i + 7, 8 * i, V)))
            o.arr = a
            return
        if size > 8:
            if isinstance(v, Undef):
                lo = hi = UNDEF
            elif type(v) is int:
                lo, hi = v & MASK[64], v >> 64
            elif isinstance(v, z3.BitVecRef):
                lo, hi = z3.Extract(63, 0, v), z3.Extract(size * 8 - 1, 64, v)
            else:
                raise Unsupported('wide store')
            self.store(st, Ptr(p.o, off), 8, lo)
            self.store(st, Ptr(p.o, off + 8), size - 8, hi)
            return
        self.clear(o, off, size)
        o.cells[off] = (size, v)

    def sym_store_off(self, st, p, o, off, size, v):
        """store at a symbolic offset of a small object: guarded update of every candidate; returns None when done"""
        stride = self.stride(off)
        start = self.stride_base(off, stride)
        if type(o.size) is int and o.size <= 16384 and not isinstance(v, Ptr) and not self.has_ptrs(o):
            cand = list(range(start, o.size - size + 1, stride))
            if stride >= size and len(cand) <= 64:
                V = bv(self.defd(st, v, size * 8), size * 8)
                for c in cand:
                    old = self.assemble(st, [self.byte_at(o, c + i) for i in range(size)]) if not (
                        c in o.cells and o.cells[c][0] == size) else o.cells[c][1]
                    if isinstance(old, Ptr):
                        break
                else:
                    for c in cand:
                        old = o.cells[c][1] if c in o.cells and o.cells[c][0] == size else \
                            self.assemble(st, [self.byte_at(o, c + i) for i in range(size)])
                        old = bv(self.defd(st, old, size * 8), size * 8)
                        self.clear(o, c, size)
                        o.cells[c] = (size, z3.simplify(z3.If(off == c, V, old)))
                    return None
        r = self.concretize(st, off)
        return r

    def to_array(self, st, o):
        if o.arr is not None:
            return
        if o.fill == 0:
            a = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
        else:
            self.fresh_n += 1
            a = z3.Array('mem!%d' % self.fresh_n, z3.BitVecSort(64), z3.BitVecSort(8))
        if type(o.fill) is bytes:
            for i, b in enumerate(o.fill):
                a = z3.Store(a, i, z3.BitVecVal(b, 8))
        for off in sorted(o.cells):
            n, v = o.cells[off]
            for i in range(n):
                b = self.byte_at(o, off + i)
                if isinstance(b, Undef):
                    continue
                a = z3.Store(a, off + i, self.byte_bv(st, b))
        o.arr = a
        o.cells = {}

    def memcpy(self, st, d, s, n, what='memcpy'):
        if type(n) is not int:
            n = z3.simplify(n)
            if isinstance(n, z3.BitVecNumRef):
                n = n.as_long()
            else:
                return self.memcpy_sym(st, d, s, n)
        if n == 0:
            return
        so, soff = self.deref(st, s, n, what + ' read')
        do, doff = self.deref(st, d, n, what + ' write')
        if do.kind == 'const':
            self.fail(st, 'memory-safety', 'write to constant %s in %s' % (do.name, self.where(st)))
        if so.kind in ('extvt', 'extglobal', 'func') or do.kind in ('extvt', 'func'):
            raise Unsupported('copy of external object')
        if so.arr is not None or do.arr is not None or type(soff) is not int or type(doff) is not int:
            bs = [self.load(st, Ptr(s.o, self.padd(soff, i)), 1) for i in range(n)]
            for i, b in enumerate(bs):
                self.store(st, Ptr(d.o, self.padd(doff, i)), 1, b)
            return
        out = []
        i = 0
        cells = so.cells
        while i < n:
            c = cells.get(soff + i)
            if c is not None and i + c[0] <= n:
                out.append((i, c))
                i += c[0]
                continue
            out.append((i, (1, self.byte_at(so, soff + i))))
            i += 1
        do = self.wr(st, d.o)
        self.clear(do, doff, n)
        dc = do.cells
        for i, c in out:
            dc[doff + i] = c

    def padd(self, off, i):
        if type(off) is int:
            return off + i
        return z3.simplify(off + i)

    def alloc_sym(self, st, n, name=None):
        """object of symbolic size with arbitrary contents"""
        p = self.alloc(st, n, name or 'heap object allocated in ' + self.where(st)[:60])
        o = st.mem[p.o]
        st.next_addr += 1 << 41
        self.fresh_n += 1
        o.arr = z3.Array('mem!%d' % self.fresh_n, z3.BitVecSort(64), z3.BitVecSort(8))
        return p

    def has_ptrs(self, o):
        for n, v in o.cells.values():
            if isinstance(v, Ptr) or (isinstance(v, Part) and isinstance(v.v, Ptr)):
                return True
        return False

    def memcpy_sym(self, st, d, s, n):
        if self.decide(st, n == 0):
            return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            self.deref(st, d, 1, 'memcpy write')
            self.deref(st, s, 1, 'memcpy read')
        so, do = self.obj(st, s.o), self.obj(st, d.o)
        if (so.arr is None and self.has_ptrs(so)) or (do.arr is None and self.has_ptrs(do)) or \
                (so.arr is None and do.arr is None and type(so.size) is int and type(do.size) is int and
                 min(so.size, do.size) <= 64):
            self.deref(st, s, n, 'memcpy read')
            self.deref(st, d, n, 'memcpy write')
            n = self.concretize(st, n)
            return self.memcpy(st, d, s, n)
        so, soff = self.deref(st, s, n, 'memcpy read')
        do, doff = self.deref(st, d, n, 'memcpy write')
        if do.kind == 'const':
            self.fail(st, 'memory-safety', 'write to constant %s in %s' % (do.name, self.where(st)))
        if so.arr is None:
            so = so.copy()
            self.to_array(st, so)
        do = self.wr(st, d.o)
        self.to_array(st, do)
        i = z3.BitVec('i!', 64)
        D = bv(doff & MASK[64] if type(doff) is int else doff, 64)
        S = bv(soff & MASK[64] if type(soff) is int else soff, 64)
        do.arr = z3.Lambda([i], z3.If(z3.And(z3.ULE(D, i), z3.ULT(i - D, n)), z3.Select(so.arr, i - D + S), z3.Select(do.arr, i)))

    def memset_sym(self, st, d, b, n):
        if self.decide(st, n == 0):
            return
        do = self.obj(st, d.o) if isinstance(d, Ptr) else None
        do, doff = self.deref(st, d, n, 'memset')
        if do.arr is None and (self.has_ptrs(do) or (type(do.size) is int and do.size <= 64)):
            return self.memset(st, d, b, self.concretize(st, n))
        do = self.wr(st, d.o)
        self.to_array(st, do)
        i = z3.BitVec('i!', 64)
        D = bv(doff & MASK[64] if type(doff) is int else doff, 64)
        do.arr = z3.Lambda([i], z3.If(z3.And(z3.ULE(D, i), z3.ULT(i - D, n)), bv(self.defd(st, b, 8), 8), z3.Select(do.arr, i)))

    def memset(self, st, d, b, n):
        if type(n) is not int:
            n = z3.simplify(n)
            if isinstance(n, z3.BitVecNumRef):
                n = n.as_long()
            else:
                return self.memset_sym(st, d, b, n)
        if n == 0:
            return
        o, off = self.deref(st, d, n, 'memset')
        o = self.wr(st, d.o)
        if type(off) is not int:
            off = self.concretize(st, off)
        if o.arr is not None:
            for i in range(n):
                self.store(st, Ptr(d.o, off + i), 1, b)
            return
        if type(b) is int and off == 0 and n == o.size and n > 64:
            o.cells = {}
            o.fill = b
            return
        self.clear(o, off, n)
        if type(b) is int:
            i = 0
            v8 = int.from_bytes(bytes([b]) * 8, 'little')
            while i < n:
                k = 8 if (off + i) % 8 == 0 and n - i >= 8 else (4 if (off + i) % 4 == 0 and n - i >= 4 else 1)
                o.cells[off + i] = (k, v8 & MASK[8 * k])
                i += k
        else:
            for i in range(n):
                o.cells[off + i] = (1, b)

    # typed
    def load_ty(self, st, p, ty):
        k = ty.k
        if k == 'int':
            if ty.w == 1:
                v = self.load(st, p, 1)
                return self.trunc(st, v, 8, 1)
            n = ty.size
            v = self.load(st, p, n)
            if n * 8 != ty.w:
                return self.trunc(st, v, n * 8, ty.w)
            return v
        if k in ('ptr', 'float', 'double'):
            return self.load(st, p, ty.size)
        if k in ('vec', 'arr'):
            es = ty.el.size
            return tuple(self.load_ty(st, self.ptr_add(p, i * es), ty.el) for i in range(ty.n))
        if k == 'struct':
            return tuple(self.load_ty(st, self.ptr_add(p, o), t) for o, t in zip(ty.offs, ty.els))
        raise Unsupported('load %r' % ty)

    def store_ty(self, st, p, ty, v):
        k = ty.k
        if k == 'int':
            if ty.w % 8:
                n = ty.size
                if type(v) is not int and not isinstance(v, Undef):
                    v = bv(v, n * 8) if isinstance(v, z3.BoolRef) else z3.ZeroExt(n * 8 - ty.w, v)
            return self.store(st, p, ty.size, v)
        if k in ('ptr', 'float', 'double'):
            return self.store(st, p, ty.size, v)
        if k in ('vec', 'arr'):
            es = ty.el.size
            if isinstance(v, Undef):
                v = (UNDEF,) * ty.n
            for i in range(ty.n):
                self.store_ty(st, self.ptr_add(p, i * es), ty.el, v[i])
            return
        if k == 'struct':
            for o, t, x in zip(ty.offs, ty.els, v):
                self.store_ty(st, self.ptr_add(p, o), t, x)
            return
        raise Unsupported('store %r' % ty)

    def ptr_add(self, p, off):
        if type(off) is int and off == 0:
            return p
        if type(p) is Ptr:
            po = p.off
            if type(po) is int and type(off) is int:
                return Ptr(p.o, po + off)
            a = z3.BitVecVal(po & MASK[64], 64) if type(po) is int else po
            b = z3.BitVecVal(off & MASK[64], 64) if type(off) is int else off
            s = z3.simplify(a + b)
            if isinstance(s, z3.BitVecNumRef):
                v = s.as_long()
                s = v - (1 << 64) if v >> 63 else v
            return Ptr(p.o, s)
        if type(p) is int and type(off) is int:
            return (p + off) & MASK[64]
        if isinstance(p, Undef):
            return UNDEF
        return bv(p, 64) + bv(off & MASK[64] if type(off) is int else off, 64)

    # ------------------------------------------------------------ integer ops
    def binop(self, st, op, a, b, w):
        if type(a) is int and type(b) is int:
            if op == 'add':
                return (a + b) & MASK[w]
            if op == 'sub':
                return (a - b) & MASK[w]
            if op == 'mul':
                return (a * b) & MASK[w]
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & MASK[w] if b < w else UNDEF
            if op == 'lshr':
                return a >> b if b < w else UNDEF
            if op == 'ashr':
                return (signed(a, w) >> b) & MASK[w] if b < w else UNDEF
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                self.fail(st, 'no-undefined-arithmetic', 'division by zero in %s' % self.where(st))
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = signed(a, w), signed(b, w)
            if y == -1 and a == 1 << (w - 1):
                self.fail(st, 'no-undefined-arithmetic', 'overflow of a division in %s' % self.where(st))
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            if op == 'sdiv':
                return q & MASK[w]
            return (x - q * y) & MASK[w]
        # pointers as integers
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o == b.o:
                    if type(a.off) is int and type(b.off) is int:
                        return (a.off - b.off) & MASK[64]
                    e = z3.simplify(bv(a.off & MASK[64] if type(a.off) is int else a.off, 64) -
                                    bv(b.off & MASK[64] if type(b.off) is int else b.off, 64))
                    return _norm(e, 64)
                return self.binop(st, op, self.addr(st, a), self.addr(st, b), w)
            if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return self.ptr_add(a, signed(b, 64) if type(b) is int else b)
            if op == 'add' and isinstance(b, Ptr) and not isinstance(a, Ptr):
                return self.ptr_add(b, signed(a, 64) if type(a) is int else a)
            if op == 'sub' and isinstance(a, Ptr) and type(b) is int:
                return self.ptr_add(a, -signed(b, 64))
            return self.binop(st, op, self.addr(st, a) if isinstance(a, Ptr) else a,
                              self.addr(st, b) if isinstance(b, Ptr) else b, w)
        if isinstance(a, Undef):
            a = self.undef(st, w)
        if isinstance(b, Undef):
            b = self.undef(st, w)
        if w == 1:
            A, B = boolv(a), boolv(b)
            if op == 'and':
                if type(a) is int:
                    return b if a else 0
                if type(b) is int:
                    return a if b else 0
                return z3.And(A, B)
            if op == 'or':
                if type(a) is int:
                    return 1 if a else b
                if type(b) is int:
                    return 1 if b else a
                return z3.Or(A, B)
            if op in ('xor', 'add', 'sub'):
                if type(b) is int:
                    return z3.Not(A) if b else a
                if type(a) is int:
                    return z3.Not(B) if a else b
                return z3.Xor(A, B)
            if op == 'mul':
                return z3.And(A, B)
            raise Unsupported('i1 ' + op)
        # cheap algebra
        if type(b) is int:
            if b == 0:
                if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                    return a
                if op in ('and', 'mul'):
                    return 0
            elif b == 1 and op in ('mul', 'udiv', 'sdiv'):
                return a
            elif op == 'and' and b == MASK[w]:
                return a
        elif type(a) is int:
            if a == 0:
                if op in ('add', 'or', 'xor'):
                    return b
                if op in ('and', 'mul', 'shl', 'lshr', 'ashr'):
                    return 0
            elif a == 1 and op == 'mul':
                return b
        A, B = bv(a, w), bv(b, w)
        if op == 'add':
            e = A + B
        elif op == 'sub':
            e = A - B
        elif op == 'mul':
            e = A * B
        elif op == 'and':
            e = A & B
        elif op == 'or':
            e = A | B
        elif op == 'xor':
            e = A ^ B
        elif op == 'shl':
            e = A << B
        elif op == 'lshr':
            e = z3.LShR(A, B)
        elif op == 'ashr':
            e = A >> B
        else:
            if op in ('sdiv', 'srem') and (type(b) is not int or b == MASK[w]) and (type(a) is not int or a == 1 << (w - 1)):
                ok = z3.Not(z3.And(A == (1 << (w - 1)), B == MASK[w]))
                r = self.obligation(st, ok, 'no-undefined-arithmetic', 'overflow of a division in %s' % self.where(st))
                if r is not True:
                    if self.query(st, ok) == z3.unsat:
                        raise Violation()
                    self.add_pc(st, ok)
            if type(b) is not int:
                r = self.obligation(st, B != 0, 'no-undefined-arithmetic', 'division by zero in %s' % self.where(st))
                if r is not True:
                    if self.query(st, B != 0) == z3.unsat:
                        raise Violation()
                    self.add_pc(st, B != 0)
            elif b == 0:
                self.fail(st, 'no-undefined-arithmetic', 'division by zero in %s' % self.where(st))
            if op == 'udiv':
                e = z3.UDiv(A, B)
            elif op == 'urem':
                e = z3.URem(A, B)
            elif op == 'sdiv':
                e = A / B
            elif op == 'srem':
                e = z3.SRem(A, B)
            else:
                raise Unsupported(op)
        if op in ('shl', 'lshr', 'ashr') and (type(b) is not int or b >= w):
            # a shift by the width or more has no defined result
            over = z3.simplify(z3.UGE(B, w))
            if not z3.is_false(over):
                e = z3.If(over, self.undef(st, w), e)
        e = z3.simplify(e)
        return _norm(e, w)

    def icmp(self, st, pred, a, b, w):
        if type(a) is int and type(b) is int:
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred == 'ult':
                return int(a < b)
            if pred == 'ule':
                return int(a <= b)
            if pred == 'ugt':
                return int(a > b)
            if pred == 'uge':
                return int(a >= b)
            x, y = signed(a, w), signed(b, w)
            if pred == 'slt':
                return int(x < y)
            if pred == 'sle':
                return int(x <= y)
            if pred == 'sgt':
                return int(x > y)
            return int(x >= y)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o == b.o:
                    if type(a.off) is int and type(b.off) is int:
                        return self.icmp(st, pred if pred in ('eq', 'ne') else 's' + pred[1:], a.off & MASK[64],
                                         b.off & MASK[64], 64)
                    return self.icmp(st, pred, a.off & MASK[64] if type(a.off) is int else a.off,
                                     b.off & MASK[64] if type(b.off) is int else b.off, 64)
                if pred == 'eq':
                    return 0
                if pred == 'ne':
                    return 1
                return self.icmp(st, pred, self.obj(st, a.o).base, self.obj(st, b.o).base, 64)
            x, y = (a, b)
            if type(x) is int or type(y) is int:
                c = x if type(x) is int else y
                if c == 0:
                    if pred == 'eq':
                        return 0
                    if pred == 'ne':
                        return 1
            if isinstance(a, Undef) or isinstance(b, Undef):
                return self.fresh_bool(st, 'undef')
            return self.icmp(st, pred, self.addr(st, a), self.addr(st, b), w)
        if isinstance(a, Undef):
            a = self.undef(st, w)
        if isinstance(b, Undef):
            b = self.undef(st, w)
        if w == 1:
            A, B = boolv(a), boolv(b)
            if pred == 'eq':
                r = A == B
            elif pred == 'ne':
                r = A != B
            else:
                A, B = bv(a, 1), bv(b, 1)
                return self.icmp(st, pred, z3.ZeroExt(1, A), z3.ZeroExt(1, B), 2)
        else:
            A, B = bv(a, w), bv(b, w)
            if pred == 'eq':
                r = A == B
            elif pred == 'ne':
                r = A != B
            elif pred == 'ult':
                r = z3.ULT(A, B)
            elif pred == 'ule':
                r = z3.ULE(A, B)
            elif pred == 'ugt':
                r = z3.UGT(A, B)
            elif pred == 'uge':
                r = z3.UGE(A, B)
            elif pred == 'slt':
                r = A < B
            elif pred == 'sle':
                r = A <= B
            elif pred == 'sgt':
                r = A > B
            else:
                r = A >= B
        r = z3.simplify(r)
        if z3.is_true(r):
            return 1
        if z3.is_false(r):
            return 0
        return r

    def trunc(self, st, v, fw, tw):
        if type(v) is int:
            return v & MASK[tw]
        if isinstance(v, Undef):
            return UNDEF
        if isinstance(v, Ptr):
            v = self.addr(st, v)
            return self.trunc(st, v, fw, tw)
        if isinstance(v, z3.BoolRef):
            v = bv(v, fw)
        if tw == 1:
            e = z3.simplify(z3.Extract(0, 0, v) == 1)
            if z3.is_true(e):
                return 1
            if z3.is_false(e):
                return 0
            return e
        return _norm(z3.simplify(z3.Extract(tw - 1, 0, v)), tw)

    def ext(self, st, op, v, fw, tw):
        if type(v) is int:
            if op == 'sext':
                return signed(v, fw) & MASK[tw]
            return v
        if isinstance(v, Undef):
            v = self.undef(st, fw)
        if isinstance(v, Ptr):
            if fw == tw:
                return v
            return self.addr(st, v)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(MASK[tw] if op == 'sext' else 1, tw), z3.BitVecVal(0, tw))
        if fw == tw:
            return v
        return z3.SignExt(tw - fw, v) if op == 'sext' else z3.ZeroExt(tw - fw, v)

    def ite(self, st, c, a, b, ty):
        if a is b:
            return a
        if type(a) is int and type(b) is int and a == b:
            return a
        if isinstance(a, tuple):
            els = ty.els if ty.k == 'struct' else [ty.el] * ty.n
            return tuple(self.ite(st, c, x, y, t) for x, y, t in zip(a, b, els))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                if type(a.off) is int and type(b.off) is int and a.off == b.off:
                    return a
                e = z3.If(c, bv(a.off & MASK[64] if type(a.off) is int else a.off, 64),
                          bv(b.off & MASK[64] if type(b.off) is int else b.off, 64))
                # pointers into the same object: prefer a case split, offsets stay concrete
            return a if self.decide(st, c) else b
        if isinstance(a, Undef):
            return b
        if isinstance(b, Undef):
            return a
        w = 1 if ty.k == 'int' and ty.w == 1 else ty.size * 8 if ty.k != 'int' else ty.w
        if w == 1:
            if type(a) is int and type(b) is int:
                return c if a else z3.Not(c)
            return z3.simplify(z3.If(c, boolv(a), boolv(b)))
        e = z3.If(c, bv(a, w), bv(b, w))
        return e

    # ------------------------------------------------------------ compile
    def compile(self, f):
        slots = {}
        init = []

        def slot(name):
            s = slots.get(name)
            if s is None:
                s = slots[name] = len(init)
                init.append(None)
            return s

        consts = {}

        def opnd(ty, v):
            if type(v) is ir.Reg:
                return slot(v.name)
            if type(v) is int:
                key = v
                s = consts.get(key)
                if s is None:
                    s = consts[key] = len(init)
                    init.append(v)
                return s
            val = self.const(ty, v)
            init.append(val)
            return len(init) - 1

        f.extra['pslots'] = [slot(n) for _, n in f.params]
        for b in f.blocks:
            code = []
            phis = {}
            for ins in b.insts:
                if ins.op == 'phi':
                    d = slot(ins.dst)
                    for v, bn in ins.a[0]:
                        phis.setdefault(bn, []).append((d, opnd(ins.ty, v)))
                    continue
                code.append(self.comp_inst(f, b, ins, slot, opnd))
            b.code = code
            b.phis = phis
        # phi block names: entry block may be numbered
        f.slots = slots
        f.init = init
        f.compiled = True

    def comp_inst(self, f, b, ins, slot, opnd):
        E = self
        op = ins.op
        a = ins.a
        d = slot(ins.dst) if ins.dst is not None else None
        ty = ins.ty
        if op in ir.BINOPS:
            ia, ib = opnd(ty, a[0]), opnd(ty, a[1])
            if ty.k == 'vec':
                w = ty.el.w

                def vbin(st, r):
                    r[d] = tuple(E.binop(st, op, x, y, w) for x, y in zip(r[ia], r[ib]))
                return vbin
            w = ty.w
            m = MASK[w]
            if op == 'add':
                def f_add(st, r):
                    x, y = r[ia], r[ib]
                    if type(x) is int and type(y) is int:
                        r[d] = (x + y) & m
                    else:
                        r[d] = E.binop(st, 'add', x, y, w)
                return f_add

            def f_bin(st, r):
                r[d] = E.binop(st, op, r[ia], r[ib], w)
            return f_bin
        if op == 'icmp':
            pred = a[0]
            ia, ib = opnd(ty, a[1]), opnd(ty, a[2])
            if ty.k == 'vec':
                w = 64 if ty.el.k == 'ptr' else ty.el.w

                def vicmp(st, r):
                    r[d] = tuple(E.icmp(st, pred, x, y, w) for x, y in zip(r[ia], r[ib]))
                return vicmp
            w = 64 if ty.k == 'ptr' else ty.w
            if pred == 'eq':
                def f_eq(st, r):
                    x, y = r[ia], r[ib]
                    if type(x) is int and type(y) is int:
                        r[d] = 1 if x == y else 0
                    else:
                        r[d] = E.icmp(st, 'eq', x, y, w)
                return f_eq

            def f_icmp(st, r):
                r[d] = E.icmp(st, pred, r[ia], r[ib], w)
            return f_icmp
        if op in ir.FBIN:
            ia, ib = opnd(ty, a[0]), opnd(ty, a[1])
            if ty.k == 'vec':
                w = ty.el.w

                def vfb(st, r):
                    r[d] = tuple(fbin(op, E.fdef(st, x, w), E.fdef(st, y, w), w, E.fp_exact) for x, y in zip(r[ia], r[ib]))
                return vfb
            w = ty.w

            def f_fb(st, r):
                r[d] = fbin(op, E.fdef(st, r[ia], w), E.fdef(st, r[ib], w), w, E.fp_exact)
            return f_fb
        if op == 'fneg':
            ia = opnd(ty, a[0])
            vec = ty.k == 'vec'
            w = ty.el.w if vec else ty.w

            def f_neg(st, r):
                if vec:
                    r[d] = tuple(E.binop(st, 'xor', x, 1 << (w - 1), w) for x in r[ia])
                else:
                    r[d] = E.binop(st, 'xor', r[ia], 1 << (w - 1), w)
            return f_neg
        if op == 'fcmp':
            pred = a[0]
            ia, ib = opnd(ty, a[1]), opnd(ty, a[2])
            vec = ty.k == 'vec'
            w = ty.el.w if vec else ty.w

            def f_fcmp(st, r):
                if vec:
                    r[d] = tuple(E.b1(fcmp(pred, E.fdef(st, x, w), E.fdef(st, y, w), w)) for x, y in zip(r[ia], r[ib]))
                else:
                    r[d] = E.b1(fcmp(pred, E.fdef(st, r[ia], w), E.fdef(st, r[ib], w), w))
            return f_fcmp
        if op == 'load':
            ip = opnd(ir.PTR, a[0])
            if ty.k in ('ptr', 'float', 'double') or (ty.k == 'int' and ty.w in (8, 16, 32, 64)):
                n = ty.size

                def f_load(st, r):
                    p = r[ip]
                    if type(p) is Ptr and type(p.off) is int:
                        o = st.mem.get(p.o)
                        if o is not None and o.alive and o.arr is None:
                            c = o.cells.get(p.off)
                            if c is not None and c[0] == n:
                                r[d] = c[1]
                                return
                    r[d] = E.load(st, p, n)
                return f_load

            def f_loadt(st, r):
                r[d] = E.load_ty(st, r[ip], ty)
            return f_loadt
        if op == 'store':
            iv, ip = opnd(ty, a[0]), opnd(ir.PTR, a[1])
            if ty.k in ('ptr', 'float', 'double') or (ty.k == 'int' and ty.w in (8, 16, 32, 64)):
                n = ty.size

                def f_store(st, r):
                    E.store(st, r[ip], n, r[iv])
                return f_store

            def f_storet(st, r):
                E.store_ty(st, r[ip], ty, r[iv])
            return f_storet
        if op == 'getelementptr':
            ib = opnd(ir.PTR, a[0])
            coff = 0
            dyn = []
            t = ty
            first = True
            for it, v in a[1]:
                if first:
                    sz = t.size
                    first = False
                elif t.k == 'struct':
                    coff += t.offs[v]
                    t = t.els[v]
                    continue
                else:
                    t = t.el
                    sz = t.size
                if type(v) is int:
                    coff += signed(v, it.w) * sz
                else:
                    dyn.append((opnd(it, v), sz, it.w))
            if not dyn:
                def f_gep0(st, r):
                    p = r[ib]
                    if type(p) is Ptr and type(p.off) is int:
                        r[d] = Ptr(p.o, p.off + coff)
                    else:
                        r[d] = E.ptr_add(p, coff)
                return f_gep0

            def f_gep(st, r):
                p = r[ib]
                off = coff
                for i, sz, w in dyn:
                    v = r[i]
                    if type(v) is int:
                        v = (v - (1 << w) if v >> (w - 1) else v) * sz
                        off = off + v if type(off) is int else off + z3.BitVecVal(v & MASK[64], 64)
                    else:
                        if isinstance(v, Ptr):
                            # integer that is really an address; only base + addr with null base
                            if type(p) is int and sz == 1:
                                p = E.ptr_add(v, p) if type(p) is int else p
                                continue
                            v = E.addr(st, v)
                            if type(v) is int:
                                off = off + v * sz
                                continue
                        if isinstance(v, Undef):
                            v = E.undef(st, w)
                        if w < 64:
                            v = z3.SignExt(64 - w, v)
                        if sz != 1:
                            v = v * z3.BitVecVal(sz, 64)
                        off = v + off if not (type(off) is int and off == 0) else v
                r[d] = E.ptr_add(p, off)
            return f_gep
        if op in ('call', 'invoke'):
            return self.comp_call(f, b, ins, slot, opnd)
        if op == 'jmp':
            tgt = f.bmap[a[0]]

            def f_jmp(st, r):
                return tgt
            return f_jmp
        if op == 'br':
            ic = opnd(ty, a[0])
            t1, t2 = f.bmap[a[1]], f.bmap[a[2]]

            def f_br(st, r):
                c = r[ic]
                if type(c) is int:
                    return t1 if c else t2
                if isinstance(c, Undef):
                    c = r[ic] = E.fresh_bool(st, 'undef')
                return t1 if E.decide(st, c) else t2
            return f_br
        if op == 'switch':
            iv = opnd(ty, a[0])
            dflt = f.bmap[a[1]]
            cases = [(v, f.bmap[t]) for v, t in a[2]]
            cmap = dict(cases)
            w = ty.w

            def f_sw(st, r):
                v = r[iv]
                if type(v) is int:
                    return cmap.get(v, dflt)
                if isinstance(v, Undef):
                    v = r[iv] = E.undef(st, w)
                if isinstance(v, Ptr):
                    return dflt
                for cv, t in cases:
                    if E.decide(st, z3.simplify(boolv(v) if cv else z3.Not(boolv(v))) if w == 1 else v == cv):
                        return t
                return dflt
            return f_sw
        if op == 'ret':
            iv = opnd(ty, a[0]) if a[0] is not None else None

            def f_ret(st, r):
                return E.do_ret(st, r[iv] if iv is not None else None)
            return f_ret
        if op == 'alloca':
            n = a[0]
            inn = None if type(n) is int else opnd(ir.intty(64), n)
            sz = ty.size
            nm = '%s:%s' % (f.name, ins.dst)

            def f_alloca(st, r):
                k = n if inn is None else E.concretize(st, r[inn])
                p = E.alloc(st, sz * k, nm, 'stack')
                st.frames[-1].allocas.append(p.o)
                r[d] = p
            return f_alloca
        if op == 'trunc':
            iv = opnd(a[1], a[0])
            if ty.k == 'vec':
                return lambda st, r: r.__setitem__(d, tuple(E.trunc(st, x, a[1].el.w, ty.el.w) for x in r[iv]))
            fw, tw = a[1].w, ty.w

            def f_trunc(st, r):
                r[d] = E.trunc(st, r[iv], fw, tw)
            return f_trunc
        if op in ('zext', 'sext'):
            iv = opnd(a[1], a[0])
            if ty.k == 'vec':
                return lambda st, r: r.__setitem__(d, tuple(E.ext(st, op, x, a[1].el.w, ty.el.w) for x in r[iv]))
            fw, tw = a[1].w, ty.w

            def f_ext(st, r):
                v = r[iv]
                if type(v) is int and op == 'zext':
                    r[d] = v
                else:
                    r[d] = E.ext(st, op, v, fw, tw)
            return f_ext
        if op in ('ptrtoint', 'inttoptr'):
            iv = opnd(a[1], a[0])
            fw = 64 if a[1].k == 'ptr' else a[1].w
            tw = 64 if ty.k == 'ptr' else ty.w

            def f_pi(st, r):
                v = r[iv]
                if tw < fw:
                    v = E.trunc(st, v, fw, tw)
                r[d] = v
            return f_pi
        if op == 'bitcast':
            iv = opnd(a[1], a[0])
            ft = a[1]
            if ft.k == ty.k == 'vec' and ft.n == ty.n or (ft.k != 'vec' and ty.k != 'vec'):
                def f_bc(st, r):
                    r[d] = r[iv]
                return f_bc

            def f_bcv(st, r):
                # through memory representation
                p = E.alloc(st, max(ft.size, ty.size), 'bitcast', 'stack')
                E.store_ty(st, p, ft, r[iv])
                r[d] = E.load_ty(st, p, ty)
                del st.mem[p.o]
            return f_bcv
        if op in ('fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc'):
            iv = opnd(a[1], a[0])
            vec = ty.k == 'vec'
            fw = a[1].el.w if vec else a[1].w
            tw = ty.el.w if vec else ty.w

            def f_fc(st, r):
                if vec:
                    r[d] = tuple(E.fcastd(st, op, x, fw, tw) for x in r[iv])
                else:
                    r[d] = E.fcastd(st, op, r[iv], fw, tw)
            return f_fc
        if op == 'select':
            ic, ia, ib = opnd(a[3], a[0]), opnd(ty, a[1]), opnd(ty, a[2])

            def f_sel(st, r):
                c = r[ic]
                if type(c) is int:
                    r[d] = r[ia] if c else r[ib]
                    return
                if isinstance(c, tuple):
                    r[d] = tuple((x if cc else y) if type(cc) is int else E.ite(st, cc, x, y, ty.el)
                                 for cc, x, y in zip(c, r[ia], r[ib]))
                    return
                if isinstance(c, Undef):
                    c = r[ic] = E.fresh_bool(st, 'undef')
                v = st.known.get(c.get_id())
                if v is not None:
                    r[d] = r[ia] if v else r[ib]
                    return
                r[d] = E.ite(st, c, r[ia], r[ib], ty)
            return f_sel
        if op == 'extractvalue':
            iv = opnd(ty, a[0])
            idx = a[1]

            def f_ev(st, r):
                v = r[iv]
                for i in idx:
                    v = v[i] if not isinstance(v, Undef) else UNDEF
                r[d] = v
            return f_ev
        if op == 'insertvalue':
            iv, ie = opnd(ty, a[0]), opnd(a[2], a[1])
            idx = a[3]

            def ins_(v, idx, e):
                i = idx[0]
                x = e if len(idx) == 1 else ins_(v[i], idx[1:], e)
                return v[:i] + (x,) + v[i + 1:]

            def f_iv(st, r):
                r[d] = ins_(r[iv], idx, r[ie])
            return f_iv
        if op == 'extractelement':
            iv, ii = opnd(ty, a[0]), opnd(ir.intty(64), a[1])

            def f_ee(st, r):
                v = r[iv]
                r[d] = UNDEF if isinstance(v, Undef) else v[r[ii]]
            return f_ee
        if op == 'insertelement':
            iv, ie, ii = opnd(ty, a[0]), opnd(ty.el, a[1]), opnd(ir.intty(64), a[2])
            n = ty.n

            def f_ie(st, r):
                v = r[iv]
                if isinstance(v, Undef):
                    v = (UNDEF,) * n
                i = r[ii]
                r[d] = v[:i] + (r[ie],) + v[i + 1:]
            return f_ie
        if op == 'shufflevector':
            iv, iw = opnd(a[3], a[0]), opnd(a[3], a[1])
            mask = self.const(ty, a[2])
            n = a[3].n

            def f_sh(st, r):
                v, w = r[iv], r[iw]
                if isinstance(v, Undef):
                    v = (UNDEF,) * n
                if isinstance(w, Undef):
                    w = (UNDEF,) * n
                al = v + w
                r[d] = tuple(UNDEF if isinstance(m, Undef) else al[m] for m in mask)
            return f_sh
        if op == 'landingpad':
            def f_lp(st, r):
                r[d] = st.g['#lp']
            f.extra[('lp', b.name)] = (a[0], [(c[0], self.const(ir.PTR if c[0] == 'catch' else c[2], c[1])) for c in a[1]])
            return f_lp
        if op == 'resume':
            iv = opnd(ty, a[0])

            def f_res(st, r):
                v = r[iv]
                raise CxxThrow(v[0], None)
            return f_res
        if op == 'unreachable':
            def f_unr(st, r):
                E.fail(st, 'no-undefined-behaviour', 'unreachable code reached in %s' % f.name)
            return f_unr
        if op == 'freeze':
            iv = opnd(ty, a[0])

            def f_fr(st, r):
                v = r[iv]
                if isinstance(v, Undef):
                    v = E.undef(st, ty.w)
                r[d] = v
            return f_fr
        if op == 'atomicrmw':
            bop = a[0]
            ip, iv = opnd(ir.PTR, a[1]), opnd(ty, a[2])
            n = ty.size

            def f_rmw(st, r):
                old = E.load(st, r[ip], n)
                if bop == 'xchg':
                    new = r[iv]
                else:
                    new = E.binop(st, bop, old, r[iv], ty.w)
                E.store(st, r[ip], n, new)
                r[d] = old
            return f_rmw
        if op == 'cmpxchg':
            ip, ic, iv = opnd(ir.PTR, a[0]), opnd(ty, a[1]), opnd(ty, a[2])
            n = ty.size

            def f_cx(st, r):
                old = E.load(st, r[ip], n)
                eq = E.decide(st, E.icmp(st, 'eq', old, r[ic], 64 if ty.k == 'ptr' else ty.w))
                if eq:
                    E.store(st, r[ip], n, r[iv])
                r[d] = (old, int(eq))
            return f_cx
        if op == 'asm':
            def f_asm(st, r):
                raise Unsupported('inline asm')
            return f_asm
        raise Unsupported('instruction ' + op)

    def fdef(self, st, v, w):
        if isinstance(v, Undef):
            return self.undef(st, w)
        return v

    def fcastd(self, st, op, v, fw, tw):
        if isinstance(v, Undef):
            v = self.undef(st, fw)
        if isinstance(v, z3.BoolRef):
            v = bv(v, max(fw, 8))
        r = fcast(op, v, fw, tw)
        if op == 'fpext' and is_sym(r):
            self.fpext_src[r.get_id()] = (r, v)
        return r

    def b1(self, v):
        if type(v) is int:
            return v
        v = z3.simplify(v)
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
        return v

    def comp_call(self, f, b, ins, slot, opnd):
        E = self
        callee, args, normal, unwind = ins.a
        d = slot(ins.dst) if ins.dst is not None else None
        ai = [opnd(t, v) if t.k != 'metadata' else None for t, v, bvl in args]
        byv = [(i, bvl) for i, (t, v, bvl) in enumerate(args) if bvl is not None]
        tys = [t for t, v, bvl in args]
        nb = f.bmap[normal] if normal else None
        ub = f.bmap[unwind] if unwind else None
        rty = ins.ty
        name = callee.name if isinstance(callee, ir.CGlobal) else None
        if name is not None and name in self.mod.glob_line:
            g = self.mod.glob(name)
            if g[0] == 'alias' and isinstance(g[1], ir.CGlobal):
                name = g[1].name
        icallee = None if name is not None else opnd(ir.PTR, callee)
        if name and name.startswith('llvm.'):
            for pfx in ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant',
                        'llvm.prefetch', 'llvm.va_end', 'llvm.donothing'):
                if name.startswith(pfx):
                    return lambda st, r: None
        ret = (d, nb, ub, rty)

        def f_call(st, r):
            argv = [r[i] if i is not None else None for i in ai]
            nm = name
            if nm is None:
                p = r[icallee]
                if not isinstance(p, Ptr):
                    if type(p) is int or isinstance(p, Undef):
                        E.fail(st, 'memory-safety', 'call through invalid function pointer in %s' % f.name)
                    raise Unsupported('symbolic function pointer')
                nm = E.gname.get(p.o)
                if nm is None or p.off != 0:
                    ob = E.obj(st, p.o)
                    if ob.x is not None and callable(ob.x):
                        r_ = ob.x(E, st, argv, ret)
                        if d is not None:
                            r[d] = r_
                        return nb
                    E.fail(st, 'memory-safety', 'call through a pointer that is not a function in %s' % f.name)
            for i, t in byv:
                np_ = E.alloc(st, t.size, 'byval', 'stack')
                E.memcpy(st, np_, argv[i], t.size)
                st.frames[-1].allocas.append(np_.o)
                argv[i] = np_
            return E.do_call(st, nm, argv, ret, tys)
        return f_call

    # ------------------------------------------------------------ calls
    def do_call(self, st, name, argv, ret, tys):
        name = self.stubs.get(name, name)
        m = self.models.get(name)
        if m is None and name not in self.mod.fn_at:
            if name in self.mod.glob_line:
                g = self.mod.glob(name)
                if g[0] == 'alias':
                    return self.do_call(st, g[1].name, argv, ret, tys)
            for pfx, fm in self.prefix_models:
                if name.startswith(pfx):
                    m = fm
                    break
            if m is None:
                raise Unsupported('external function %s (called from %s)' % (name, self.where(st)))
            self.models[name] = m
        if m is not None:
            d, nb, ub, rty = ret
            fr = st.frames[-1]
            v = m(self, st, argv, name, rty, tys)
            if v is CALL:
                # the model pushed a frame of its own (with its return info = None): patch it
                st.frames[-1].ret = ret
                return CALL
            if d is not None:
                fr.regs[d] = v
            return nb
        f = self.mod.function(name)
        self.push(st, f, argv, ret)
        return CALL

    def push(self, st, f, argv, ret):
        if not f.compiled:
            self.compile(f)
            self.fn_seen.add(f.name)
        regs = list(f.init)
        ps = f.extra['pslots']
        n = len(ps)
        for i in range(n):
            regs[ps[i]] = argv[i]
        fr = Frame(f, regs, ret)
        if len(argv) > n:
            fr.va = argv[n:]
        if len(st.frames) > 900:
            self.fail(st, 'bounded-recursion', 'recursion deeper than 900 frames at %s' % f.name)
        st.frames.append(fr)

    def pop(self, st):
        fr = st.frames.pop()
        mem = st.mem
        for o in fr.allocas:
            ob = mem.get(o)
            if ob is not None:
                if self.opts.get('keep_dead'):
                    ob = self.wr(st, o)
                    ob.alive = False
                    ob.cells = {}
                else:
                    mem[o] = DEAD
        return fr

    def do_ret(self, st, v):
        fr = self.pop(st)
        if not st.frames:
            raise KillPath('done')
        if fr.ret is None:
            return RET
        d, nb, ub, rty = fr.ret
        cr = st.frames[-1]
        if d is not None:
            cr.regs[d] = v
        if nb is not None:
            self.jump(cr, nb)
        return RET

    def jump(self, fr, nb):
        pb = fr.block
        ph = nb.phis
        if ph:
            lst = ph.get(pb.name)
            if lst is None:
                lst = ph.get(self.bname(fr.fn, pb))
            r = fr.regs
            vals = [r[s] for _, s in lst]
            for (d, _), v in zip(lst, vals):
                r[d] = v
        fr.block = nb
        fr.ip = 0

    def bname(self, fn, b):
        for k, v in fn.bmap.items():
            if v is b:
                return k

    # ------------------------------------------------------------ exceptions
    def throw(self, st, exc):
        """unwind to the next landing pad"""
        st.g['#inflight'] = exc.obj
        tinfo = self.exc_type(st, exc.obj)
        while st.frames:
            fr = st.frames[-1]
            # find the unwind target for the instruction being executed in this frame
            ub = self.unwind_target(st, fr)
            if ub is not None:
                lp = fr.fn.extra.get(('lp', ub.name))
                sel = 0
                hit = False
                for kind, t in lp[1]:
                    if kind == 'catch':
                        if t == 0 or self.catches(t, tinfo):
                            sel = self.type_id(t)
                            hit = True
                            break
                    elif kind == 'filter':
                        sel = -1 & MASK[32]
                        hit = True
                        break
                if hit or lp[0]:
                    st.g['#lp'] = (exc.obj, sel)
                    self.jump(fr, ub)
                    return True
            self.pop(st)
        return False

    def unwind_target(self, st, fr):
        ip = fr.ip
        ins = self.call_inst(fr, ip)
        if ins is None:
            return None
        u = ins.a[3]
        return fr.fn.bmap[u] if u else None

    def call_inst(self, fr, ip):
        m = fr.fn.extra.get('ci')
        if m is None:
            m = fr.fn.extra['ci'] = {}
        k = (fr.block.name, ip)
        if k not in m:
            ins = [i for i in fr.block.insts if i.op != 'phi']
            x = ins[ip] if ip < len(ins) else None
            m[k] = x if x is not None and x.op in ('call', 'invoke') else None
        return m[k]

    def exc_type(self, st, obj):
        return st.g['#exctype'][obj.o]

    def type_id(self, t):
        if t == 0:
            return 1
        if t.o not in self.typeid:
            self.typeid[t.o] = len(self.typeid) + 2
        return self.typeid[t.o]

    def catches(self, t, thrown):
        """t, thrown: Ptr to typeinfo"""
        tn = self.gname[t.o]
        return tn in self.bases(self.gname[thrown.o])

    STD_BASES = {
        '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
        '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt11logic_error': ['_ZTISt9exception'],
        '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt9bad_alloc': ['_ZTISt9exception'],
        '_ZTISt8bad_cast': ['_ZTISt9exception'], '_ZTISt18bad_variant_access': ['_ZTISt9exception'],
        '_ZTISt17bad_function_call': ['_ZTISt9exception'], '_ZTISt19bad_optional_access': ['_ZTISt9exception'],
        '_ZTISt12bad_weak_ptr': ['_ZTISt9exception'], '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
        '_ZTISt12system_error': ['_ZTISt13runtime_error'], '_ZTISt10bad_typeid': ['_ZTISt9exception'],
        '_ZTISt12domain_error': ['_ZTISt11logic_error'],
    }

    def bases(self, name, seen=None):
        """all typeinfo names reachable from name (including itself)"""
        cache = self.__dict__.setdefault('_bases', {})
        if name in cache:
            return cache[name]
        out = {name}
        for b, off in self.direct_bases(name):
            out |= self.bases(b)
        cache[name] = out
        return out

    def direct_bases(self, name):
        g = self.mod.glob(name) if name in self.mod.glob_line else None
        if g is None or g[1] is None:
            return [(b, 0) for b in self.STD_BASES.get(name, [])]
        els = g[1].els
        res = []
        vt = els[0][1]
        vn = vt.base.name if isinstance(vt, ir.CGep) else ''
        if '__si_class_type_info' in vn:
            res.append((els[2][1].name, 0))
        elif '__vmi_class_type_info' in vn:
            n = els[3][1]
            for i in range(n):
                b = els[4 + 2 * i][1].name
                fl = els[5 + 2 * i][1]
                off = signed(fl, 64) >> 8
                if fl & 1:
                    raise Unsupported('virtual base in dynamic_cast')
                res.append((b, off))
        return res

    def find_base(self, derived, base):
        """offset of base in derived or None"""
        if derived == base:
            return 0
        for b, off in self.direct_bases(derived):
            r = self.find_base(b, base)
            if r is not None:
                return r + off
        return None

    # ------------------------------------------------------------ run
    def run(self, entry, deadline):
        f = self.mod.function(entry)
        st = State()
        st.g['#exctype'] = {}
        self.deadline = deadline
        if f is None:
            raise Unsupported('no harness function ' + entry)
        self.push(st, f, [], None)
        ctors = self.opts.get('ctors') or []
        stack = [st]
        for c in reversed(ctors):
            self.push(st, self.mod.function(c), [], None)
        while stack:
            st = stack.pop()
            self.explore(st, stack)
        return

    def explore(self, st, stack):
        cnt = 0
        CALLs = (CALL, RET)
        while True:
            try:
                fr = st.frames[-1]
                code = fr.block.code
                regs = fr.regs
                i = fr.ip
                while True:
                    fr.ip = i
                    a = code[i](st, regs)
                    if a is None:
                        i += 1
                        cnt += 1
                        continue
                    if a is CALL:
                        # ip of the caller stays on the call instruction while the callee runs
                        break
                    if a is RET:
                        break
                    # jump
                    pb = fr.block
                    ph = a.phis
                    if ph:
                        lst = ph.get(pb.name)
                        if lst is None:
                            lst = ph[self.bname(fr.fn, pb)]
                        if len(lst) == 1:
                            d, s = lst[0]
                            regs[d] = regs[s]
                        else:
                            vals = [regs[s] for _, s in lst]
                            for (d, _), v in zip(lst, vals):
                                regs[d] = v
                    fr.block = a
                    code = a.code
                    i = 0
                    cnt += 1
                    if cnt > 20000:
                        self.stats['insts'] += cnt
                        cnt = 0
                        if time.time() > self.deadline:
                            raise TimeoutError()
                        if self.stats['insts'] > self.max_insts:
                            raise TimeoutError()
                if a is RET:
                    cr = st.frames[-1]
                    # plain call: continue after the call instruction; invoke: jump() reset ip to 0
                    if fr.ret is not None and fr.ret[1] is None:
                        cr.ip += 1
            except Fork as fk:
                self.stats['forks'] += 1
                if self.stats['forks'] % 16 == 0 and time.time() > self.deadline:
                    raise TimeoutError()
                self.count_fork(st)
                other = st.clone()
                neg = z3.Not(fk.cond)
                self.add_pc(other, neg)
                other.known[fk.cond.get_id()] = False
                self.add_pc(st, fk.cond)
                st.known[fk.cond.get_id()] = True
                if st.bounded == 'cut':
                    self.stats['paths'] += 1
                    self.stats['insts'] += cnt
                    return
                stack.append(other)
            except CxxThrow as ex:
                try:
                    if not self.throw(st, ex):
                        self.stats['paths'] += 1
                        st2 = st
                        self.obligation(st2, False, 'no-uncaught-exception', 'exception %s escapes the harness' %
                                        self.gname.get(self.exc_type(st, ex.obj).o))
                        self.stats['insts'] += cnt
                        return
                except Violation:
                    self.stats['paths'] += 1
                    return
            except KillPath as k:
                self.stats['paths'] += 1
                self.stats['insts'] += cnt
                return
            except Violation:
                self.stats['paths'] += 1
                self.stats['insts'] += cnt
                return
            except Unsupported as u:
                self.stats['paths'] += 1
                self.stats['insts'] += cnt
                self.undecided.append('unsupported: %s [%s]' % (u, ' < '.join(f.fn.name[:60] for f in reversed(st.frames[-4:]))))
                return

    def count_fork(self, st):
        fr = st.frames[-1]
        if fr.visits is None:
            fr.visits = {}
        k = (fr.block.name, fr.ip)
        n = fr.visits.get(k, 0) + 1
        fr.visits[k] = n
        if n > self.unroll:
            self.bounded_notes.add('loop in %s cut after %d symbolic iterations' % (fr.fn.name, n))
            st.bounded = 'cut'


DEAD = Obj(0, 0x10, 'stack object of a returned function')
DEAD.alive = False
