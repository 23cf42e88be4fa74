"""Symbolic executor / verification-condition generator over LLVM IR with a separation-logic style heap.

State = objects (memory blocks whose cells are visible) + chunks (folded ownership predicates: Own(T,p,v) and list
segments) + path condition.  Functions with a contract are called through the contract only; functions without one
(static helpers) are inlined.  Every obligation goes through Exec.prove, which discharges it with z3.
"""
import time
import z3
import lin
from ir import Unsupported, Func, loops, I, PTR
import os

BV = z3.BitVecVal
B64 = z3.BitVecSort(64)
VS = z3.DeclareSort('V')          # abstract values of owned data structures
VNULL = z3.Const('VNULL', VS)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
Z64 = BV(0, 64)

_ctr = [0]


def uid():
    _ctr[0] += 1
    return _ctr[0]


def fresh(n, sort):
    return z3.Const('%s!%d' % (n, uid()), sort)


def fbv(n, w):
    return z3.BitVec('%s!%d' % (n, uid()), w)


def simp(e):
    return z3.simplify(e)


def cint(e):
    """python int of a constant bit-vector or None"""
    if z3.is_bv_value(e):
        return e.as_long()
    return None


def zx(e, w):
    return simp(z3.ZeroExt(w - e.size(), e)) if w > e.size() else e


def sx(e, w):
    return simp(z3.SignExt(w - e.size(), e)) if w > e.size() else e


TRACE = bool(os.environ.get('VF_LOOPS'))


class Base:
    __slots__ = ('name', 'term', 'kind', 'fn', 'info')

    def __init__(self, name, kind, fn=None):
        self.name = '%s#%d' % (name, uid())
        self.kind = kind
        self.term = z3.BitVec('&' + self.name, 64)
        self.fn = fn
        self.info = None

    def __repr__(self):
        return self.name


class Ptr:
    __slots__ = ('base', 'off')

    def __init__(self, base, off=Z64):
        self.base = base
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.base, self.off)


NULL = Ptr(None, Z64)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class JunkBase:
    pass


# ---- byte contents ---------------------------------------------------------

class Content:
    """immutable byte contents of a big object: get(st,i) -> BV8"""

    def get(self, st, i):
        raise NotImplementedError


class CFun(Content):
    def __init__(self, fn, tag=None):
        self.fn = fn
        self.tag = tag

    def get(self, st, i):
        return self.fn(st, i)


class CConst(Content):
    def __init__(self, data):
        self.data = data

    def get(self, st, i):
        c = cint(i)
        if c is not None and c < len(self.data):
            return BV(self.data[c], 8)
        r = BV(0, 8)
        for j, b in enumerate(self.data):
            r = z3.If(i == j, BV(b, 8), r)
        return r


# large constant tables are read through an uninterpreted function, named after their contents
ROMUF = [False]


class CCells(Content):
    def __init__(self, cells, size):
        self.m = {}
        self.size = size
        for o, (s, v) in cells.items():
            if isinstance(v, Ptr):
                raise Unsupported('symbolic index into an object that holds pointers')
            for k in range(s):
                self.m[o + k] = z3.Extract(8 * k + 7, 8 * k, v) if not isinstance(v, Undef) else None
        self.junk = z3.Function('junk!%d' % uid(), B64, z3.BitVecSort(8))

    def get(self, st, i):
        c = cint(i)
        if c is not None:
            v = self.m.get(c)
            return simp(v) if v is not None else self.junk(i)
        n = self.size
        if n >= 64 and n & (n - 1) == 0 and all(self.m.get(j) is not None for j in range(n)):
            # a table: a tree of choices over the bits of the index
            vs = [self.m[j] for j in range(n)]
            if ROMUF[0]:
                cs = [cint(simp(v)) for v in vs]
                if None not in cs:
                    return z3.Function('rom!' + bytes(cs).hex(), B64, z3.BitVecSort(8))(i)
            k = 0
            while len(vs) > 1:
                bit = z3.Extract(k, k, i) == 1
                t = cint(simp(z3.Extract(k, k, i)))
                vs = [(vs[j + 1] if t else vs[j]) if t is not None else z3.If(bit, vs[j + 1], vs[j])
                      for j in range(0, len(vs), 2)]
                k += 1
            if cint(simp(z3.Extract(63, n.bit_length() - 1, i))) == 0:
                return vs[0]
            return z3.If(z3.ULT(i, n), vs[0], self.junk(i))
        r = self.junk(i)
        for j in range(self.size):
            v = self.m.get(j)
            if v is not None:
                r = z3.If(i == j, v, r)
        return r


class CStore(Content):
    def __init__(self, prev, off, b):
        self.prev, self.off, self.b = prev, off, b

    def get(self, st, i):
        chain = []
        c = self
        while isinstance(c, CStore):
            e = simp(i == c.off)
            if z3.is_true(e):
                r = c.b
                break
            if not z3.is_false(e):
                d = st.decide(e) if st is not None else None
                if d is True:
                    r = c.b
                    break
                if d is None:
                    chain.append((e, c.b))
            c = c.prev
        else:
            r = c.get(st, i)
        for e, b in reversed(chain):
            r = z3.If(e, b, r)
        return r


class CRange(Content):
    """[off, off+n) comes from fn(st, i-off)"""

    def __init__(self, prev, off, n, fn, tag=None):
        self.prev, self.off, self.n, self.fn, self.tag = prev, off, n, fn, tag

    def get(self, st, i):
        d = simp(i - self.off)
        inside = simp(z3.ULT(d, self.n))
        if not z3.is_true(inside) and not z3.is_false(inside) and st is not None:
            q = st.decide(inside)
            if q is True:
                inside = TRUE
            elif q is False:
                inside = FALSE
        if z3.is_true(inside):
            return self.fn(st, d)
        if z3.is_false(inside):
            return self.prev.get(st, i)
        return z3.If(inside, self.fn(st, d), self.prev.get(st, i))


class Obj:
    __slots__ = ('size', 'cells', 'content', 'kind', 'tag', 'ro', 'arr', 'log', 'owner')

    def __init__(self, size, kind, cells=None, content=None, tag=None, ro=False):
        self.size = size          # int or BV64 term
        self.kind = kind          # alloca heap param global parr raw
        self.cells = cells        # dict off -> (size, value)
        self.content = content    # Content (byte array)
        self.tag = tag            # struct name seen at a GEP
        self.ro = ro
        self.arr = None           # PArr
        self.log = None           # output log
        self.owner = None

    def copy(self):
        o = Obj(self.size, self.kind, dict(self.cells) if self.cells is not None else None, self.content, self.tag,
                self.ro)
        o.arr = self.arr.copy() if self.arr else None
        o.log = self.log
        o.owner = self.owner
        return o

    def sz(self):
        return BV(self.size, 64) if isinstance(self.size, int) else self.size


class PArr:
    """array of owned pointers: elements [lo,hi) owned with values nth(L,i); extra: raw pointers appended at hi.."""
    __slots__ = ('E', 'L', 'lo', 'hi', 'extra', 'loans', 'L0')

    def __init__(self, E, L, lo, hi):
        self.E, self.L, self.lo, self.hi = E, L, lo, hi
        self.extra = []       # list of Ptr
        self.loans = []       # list of (index term, Base)

    def copy(self):
        p = PArr(self.E, self.L, self.lo, self.hi)
        p.extra = list(self.extra)
        p.loans = list(self.loans)
        return p


class Own:
    __slots__ = ('T', 'v', 'memo', 'parent')

    def __init__(self, T, v, memo=None, parent=None):
        self.T, self.v, self.memo, self.parent = T, v, memo, parent

    def with_parent(self, par):
        return Own(self.T, self.v, self.memo, par)

    def __repr__(self):
        return 'Own(%s,%s)' % (self.T, self.v)


class UOwn:
    """union member: one of options [(cond, T or None)]"""
    __slots__ = ('opts', 'v', 'parent')

    def __init__(self, opts, v):
        self.opts, self.v, self.parent = opts, v, None

    def __repr__(self):
        return 'UOwn(%s)' % self.v


class LSeg:
    __slots__ = ('T', 'to', 'L', 'parent')

    def __init__(self, T, to, L):
        self.T, self.to, self.L, self.parent = T, to, L, None

    def __repr__(self):
        return 'LSeg(->%s,%s)' % (self.to, self.L)


# ---- exceptions ------------------------------------------------------------

class Fork(Exception):
    def __init__(self, conds):
        self.conds = conds


class InlineCall(Exception):
    """the contract does not apply here: the callee's body is executed instead"""


class Dead(Exception):
    """the path ends here (failure recorded, or infeasible)"""


def long_sums(g):
    if z3.is_and(g):
        return any(long_sums(c) for c in g.children())
    if z3.is_not(g):
        g = g.arg(0)
    return z3.is_app(g) and g.num_args() == 2 and any(
        z3.is_bv(x) and x.size() == 64 and z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB)
        for x in g.children())


class PCNode:
    __slots__ = ('parent', 'fact', 'depth', 'lin')

    def __init__(self, parent, fact):
        self.lin = None
        self.parent = parent
        self.fact = fact
        self.depth = parent.depth + 1 if parent else 1


class PathSolver:
    """one incremental z3 solver that follows the current path by pushing/popping facts"""

    def __init__(self, timeout=20000):
        self.s = z3.Solver()
        self.s.set('timeout', timeout)
        self.timeout = timeout
        self.stack = []
        self.queries = 0
        self.time = 0.0

    def sync(self, node):
        path = []
        n = node
        st = self.stack
        while n is not None and n.depth > len(st):
            path.append(n)
            n = n.parent
        while n is not None and st[n.depth - 1] is not n:
            path.append(n)
            n = n.parent
        d = n.depth if n is not None else 0
        if len(st) > d:
            self.s.pop(len(st) - d)
            del st[d:]
        for x in reversed(path):
            self.s.push()
            self.s.add(x.fact)
            st.append(x)

    def check(self, node, *extra):
        t = time.time()
        self.sync(node)
        self.queries += 1
        r = self.s.check(*extra)
        self.time += time.time() - t
        return r


class Frame:
    __slots__ = ('f', 'block', 'idx', 'regs', 'prev', 'ins', 'allocas')

    def __init__(self, f):
        self.f = f
        self.block = f.order[0]
        self.idx = 0
        self.regs = {}
        self.prev = None
        self.allocas = []

    def copy(self):
        n = Frame.__new__(Frame)
        n.f, n.block, n.idx, n.prev = self.f, self.block, self.idx, self.prev
        n.regs = dict(self.regs)
        n.allocas = list(self.allocas)
        return n


class State:
    __slots__ = ('ex', 'objs', 'chunks', 'freed', 'gone', 'pc', 'known', 'frames', 'ghost', 'trace', 'octc')

    def __init__(self, ex):
        self.ex = ex
        self.objs = {}
        self.chunks = {}
        self.freed = frozenset()
        self.gone = frozenset()
        self.pc = None
        self.known = {}
        self.frames = []
        self.ghost = {}
        self.trace = ()
        self.octc = {}

    def copy(self):
        n = State.__new__(State)
        n.ex = self.ex
        n.objs = dict(self.objs)
        n.chunks = dict(self.chunks)
        n.freed = self.freed
        n.gone = self.gone
        n.pc = self.pc
        n.known = dict(self.known)
        n.frames = [f.copy() for f in self.frames]
        n.ghost = dict(self.ghost)
        n.trace = self.trace
        n.octc = dict(self.octc)
        return n

    # facts
    def add(self, *facts):
        for f in facts:
            if isinstance(f, bool):
                f = z3.BoolVal(f)
            if z3.is_true(f):
                continue
            if z3.is_and(f):
                self.add(*f.children())
                continue
            g = simp(f)
            if z3.is_true(g):
                continue
            if g.get_id() in self.known and self.known[g.get_id()][0] is True:
                continue
            self.pc = PCNode(self.pc, f)
            self.known[g.get_id()] = (True, g)
            if z3.is_not(g):
                c = g.children()[0]
                self.known[c.get_id()] = (False, c)
            else:
                c = simp(z3.Not(g))
                self.known[c.get_id()] = (False, c)

    def facts(self):
        out = []
        n = self.pc
        while n:
            out.append(n.fact)
            n = n.parent
        out.reverse()
        return out

    def decide(self, c):
        """True/False when the path condition settles c, None otherwise"""
        c0 = c = c if not isinstance(c, bool) else z3.BoolVal(c)
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.known.get(c.get_id())
        if k is not None and k[0] in (True, False):
            return k[0]
        if k is not None and k[0] == 'open' and k[2] is self.pc:
            return None
        if self.linear(c0):
            self.known[c.get_id()] = (True, c)
            return True
        ps = self.ex.ps
        if ps.check(self.pc, z3.Not(c)) == z3.unsat:
            self.known[c.get_id()] = (True, c)
            return True
        if ps.check(self.pc, c) == z3.unsat:
            self.known[c.get_id()] = (False, c)
            return False
        self.known[c.get_id()] = ('open', c, self.pc)
        return None

    def linear(self, goal):
        """does the goal follow by linear reasoning?"""
        if not long_sums(goal):
            return False
        lc = self.ex.lincache
        if lc is None or lc[0] is not self.pc:
            lc = self.ex.lincache = (self.pc, lin.Lin(self, simp))
        return lc[1].holds(goal)

    def feasible(self):
        return self.ex.ps.check(self.pc) != z3.unsat

    def wobj(self, base):
        o = self.objs[base].copy()
        self.objs[base] = o
        return o

    # convenience accessors for contracts
    def cell(self, base, off):
        o = self.objs[base]
        return o.cells[off][1]

    def setcell(self, base, off, size, v):
        o = self.wobj(base)
        o.cells[off] = (size, v)


class Ob:
    __slots__ = ('func', 'tag', 'desc', 'line', 'ok', 'how', 't', 'model', 'trace', 'smt')

    def __init__(self, func, tag, desc, line, ok, how, t, model=None, trace=None, smt=None):
        self.func, self.tag, self.desc, self.line, self.ok, self.how, self.t = func, tag, desc, line, ok, how, t
        self.model = model
        self.trace = trace
        self.smt = smt


SMALL = 512


class Exec:
    def __init__(self, prog, contracts, types, opts=None):
        self.prog = prog            # Program
        self.contracts = contracts  # name -> contract
        self.T = types
        self.ps = PathSolver()
        self.obs = []
        self.tent = 0
        self.fname = '?'
        self.ctx = None
        self.opts = opts or {}
        self.widened = {}
        self.patience = 1       # factor for the timeouts of the search for invariants
        self.gaveup = 0         # candidates dropped because of a timeout
        self.globobj = {}
        self.used = set()           # contracts used
        self.assumed = set()        # external models used
        self.inlined = set()
        self.npaths = 0
        self.deadline = None
        self.dump = self.opts.get('dump')
        self.unrolled = set()
        self.loopinfo = []
        self.nounroll = set()
        self.loophints = []
        self.arrivals = []
        self.foldshared = {}
        self.folding = True
        self.reach = {}
        self.lincache = None

    # ---- obligations --------------------------------------------------------
    def prove(self, st, goal, tag, desc, ins=None, assume=True):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        line = None
        if ins is not None:
            line = getattr(ins, 'line', None)
        if self.tent:
            g = simp(goal)
            if assume and not z3.is_true(g):
                if z3.is_false(g):
                    raise Dead()
                st.add(goal)
            return True
        t0 = time.time()
        ok, how, model = self.valid(st, goal, tag != 'inv')
        smt = None
        if self.dump is not None and how not in ('simplify', 'path') and ok:
            smt = self.smt2(st, goal)
        self.obs.append(Ob(self.fname, tag, desc, self.where(st, line), ok, how, time.time() - t0, model,
                           None if ok else st.trace, smt))
        if not ok and assume:
            # continue with the goal assumed when that is possible
            g = simp(goal)
            if z3.is_false(g) or self.ps.check(st.pc, goal) == z3.unsat:
                raise Dead()
        if assume:
            st.add(goal)
        return ok

    def where(self, st, line):
        f = st.frames[-1].f if st.frames else None
        return '%s:%s%s' % (os.path.basename(f.file) if f else '?', line if line else '?',
                            ' (%s)' % f.name if f and f.name != self.fname else '')

    def fail(self, st, tag, desc, ins=None):
        """a certain failure on a feasible path"""
        if self.tent:
            raise Dead()
        if st.feasible():
            line = getattr(ins, 'line', None) if ins is not None else None
            m = None
            try:
                self.ps.check(st.pc)
                m = self.ps.s.model()
            except z3.Z3Exception:
                pass
            self.obs.append(Ob(self.fname, tag, desc, self.where(st, line), False, 'path', 0.0, m, st.trace))
        raise Dead()

    def ok(self, st, tag, desc, ins=None):
        if not self.tent:
            self.obs.append(Ob(self.fname, tag, desc, self.where(st, getattr(ins, 'line', None)), True, 'structural',
                               0.0))

    def valid(self, st, goal, hard=False):
        g = simp(goal)
        if z3.is_true(g):
            return True, 'simplify', None
        k = st.known.get(g.get_id())
        if k is not None and k[0] is True:
            return True, 'path', None
        if st.linear(goal):
            return True, 'linear', None
        r = z3.unknown
        if hard and self.opts.get('fresh'):
            s = z3.Solver()
            s.set('timeout', 15000)
            s.add(*st.facts())
            s.add(z3.Not(goal))
            r = s.check()
        if r != z3.unsat:
            r = self.ps.check(st.pc, z3.Not(goal))
        if r == z3.unsat:
            return True, 'z3', None
        if r == z3.sat:
            return False, 'z3', self.ps.s.model()
        # unknown: retry with a fresh bit-vector solver
        for lg, to in (('QF_UFBV', 60000), (None, 60000)):
            s = z3.SolverFor(lg) if lg else z3.Solver()
            s.set('timeout', to)
            for f in st.facts():
                s.add(f)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                return True, 'z3-fresh', None
            if r == z3.sat:
                return False, 'z3-fresh', s.model()
        return False, 'unknown', None

    def smt2(self, st, goal):
        s = z3.Solver()
        for f in st.facts():
            s.add(f)
        s.add(z3.Not(goal))
        return s.to_smt2()

    # ---- memory -------------------------------------------------------------
    def nullcond(self, p):
        """z3 Bool: pointer is NULL"""
        if p.base is None:
            return simp(p.off == 0)
        b = p.base
        if b.kind in ('alloca', 'heap', 'global', 'func', 'param'):
            return FALSE
        o = cint(p.off)
        if o == 0:
            return b.term == 0
        # interior pointer: treated as derived from a valid object
        return z3.And(b.term == 0, p.off == 0)

    def ptr_term(self, p):
        if p.base is None:
            return p.off
        return simp(p.base.term + p.off)

    def newbase(self, name, kind='sym'):
        return Base(name, kind)

    def global_ptr(self, st, mod, name):
        key, g, m = self.prog.glob(mod, name)
        if g is None:
            # function?
            f = self.prog.func(mod, name[1:])
            fb = self.prog.funcbase(f if f is not None else name[1:])
            return Ptr(fb)
        if key not in self.globobj:
            b = Base('@' + name[1:], 'global')
            self.globobj[key] = (b, self.make_global(g, m))
        b, o = self.globobj[key]
        if b not in st.objs:
            st.objs[b] = o
        return Ptr(b)

    def make_global(self, g, m):
        if g['external'] or g['init'] is None:
            o = Obj(m.size(g['type']) if m.resolve(g['type'])[0] != 'opaque' else 8, 'global', cells={}, ro=True)
            if m.resolve(g['type']) == PTR:
                o.cells[0] = (8, Ptr(Base('extern', 'global')))
            return o
        size = m.size(g['type'])
        o = Obj(size, 'global', cells={}, ro=True, tag=None)
        self.init_cells(o.cells, 0, g['type'], g['init'], m)
        return o

    def init_cells(self, cells, off, t, v, m):
        t = m.resolve(t)
        if v[0] == 'zero':
            if t[0] == 'i':
                cells[off] = (m.size(t), BV(0, 8 * m.size(t)))
            elif t[0] == 'ptr':
                cells[off] = (8, NULL)
            elif t[0] == 'arr':
                s = m.size(t[2])
                for i in range(t[1]):
                    self.init_cells(cells, off + i * s, t[2], v, m)
            elif t[0] == 'struct':
                for i, x in enumerate(t[1]):
                    self.init_cells(cells, off + m.field_off(t, i), x, v, m)
            return
        if v[0] == 'int':
            cells[off] = (m.size(t), BV(v[2], 8 * m.size(t)))
        elif v[0] == 'null':
            cells[off] = (8, NULL)
        elif v[0] == 'bytes':
            for i, b in enumerate(v[1]):
                cells[off + i] = (1, BV(b, 8))
        elif v[0] == 'agg':
            if t[0] == 'arr':
                s = m.size(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.init_cells(cells, off + i * s, et, ev, m)
            else:
                for i, (et, ev) in enumerate(v[1]):
                    self.init_cells(cells, off + m.field_off(t, i), et, ev, m)
        elif v[0] == 'glob':
            cells[off] = (8, ('globref', m, v[1]))
        elif v[0] == 'undef':
            pass
        elif v[0] == 'gep' or v[0] == 'cast':
            cells[off] = (8, ('constexpr', m, v))
        else:
            raise Unsupported('global init %s' % (v[0],))

    def need_obj(self, st, p, ins, what, tag='mem'):
        """the object p points into (opening chunks on the way)"""
        b = p.base
        if b is None:
            self.fail(st, tag, 'NULL or invalid pointer %s' % what, ins)
        if b.kind == 'func':
            self.fail(st, tag, 'function pointer used as data', ins)
        if isinstance(b.kind, str) and b.kind == 'junk':
            self.fail(st, tag, 'stale pointer %s' % what, ins)
        if b in st.objs:
            o = st.objs[b]
            if o.arr is not None and b.kind == 'sym':
                self.prove(st, b.term != 0, tag, 'pointer is not NULL: %s' % what, ins)
            return o
        if b in st.chunks:
            self.prove(st, b.term != 0, tag, 'pointer is not NULL: %s' % what, ins)
            self.T.open(self, st, b, ins)
            return self.need_obj(st, p, ins, what, tag)
        if b in st.freed:
            self.fail(st, tag, 'use after free (%s)' % what, ins)
        if b.kind == 'global':
            self.fail(st, tag, 'access to opaque memory', ins)
        self.fail(st, tag, 'access to memory that is no longer owned (%s)' % what, ins)

    def bounds(self, st, o, off, n, what, ins, tag='mem'):
        oc = cint(off)
        nc = n if isinstance(n, int) else cint(n)
        if oc is not None and nc is not None and isinstance(o.size, int):
            if oc + nc <= o.size:
                self.ok(st, tag, 'in bounds: %s' % what, ins)
                return
            if nc == 0:
                return
            self.fail(st, tag, 'out of bounds: %s (offset %d, %d bytes, object of %d)' % (what, oc, nc, o.size), ins)
        nt = BV(n, 64) if isinstance(n, int) else n
        g = z3.And(z3.ULE(nt, o.sz()), z3.ULE(off, o.sz() - nt))
        if not isinstance(n, int):
            g = z3.Or(nt == 0, g)
        self.prove(st, g, tag, 'in bounds: %s' % what, ins)

    def tobytes(self, st, base, o):
        """switch an object to byte contents"""
        if o.content is not None:
            return o
        o = st.wobj(base)
        if o.cells is not None:
            o.content = CCells(o.cells, o.size if isinstance(o.size, int) else 0)
            o.cells = None
        else:
            j = z3.Function('uninit!%d' % uid(), B64, z3.BitVecSort(8))
            o.content = CFun(lambda s, i, j=j: j(i))
        return o

    def load(self, st, p, ty, mod, ins):
        size = mod.size(ty)
        o = self.need_obj(st, p, ins, 'read')
        ty = mod.resolve(ty)
        if o.arr is not None:
            if ty != PTR:
                raise Unsupported('non-pointer read from a pointer array')
            return self.T.parr_load(self, st, p, ins)
        self.bounds(st, o, p.off, size, 'read', ins)
        off = cint(p.off)
        if o.cells is not None and off is None:
            off = self.pick(st, p.off, 8)
            if off is None:
                o = self.tobytes(st, p.base, o)
        if o.cells is not None:
            v = self.cell_load(st, o, off, size, ty)
        else:
            if o.content is None:
                o = self.tobytes(st, p.base, o)
            if ty == PTR:
                raise Unsupported('pointer read from a byte array')
            bs = [o.content.get(st, simp(p.off + k)) for k in range(size)]
            v = bs[0] if size == 1 else simp(z3.Concat(*reversed(bs)))
        return self.coerce(st, v, ty, size, ins)

    def pick(self, st, e, maxn):
        """a constant for e: fork when only a few values are possible"""
        c = cint(simp(e))
        if c is not None:
            return c
        vals = []
        ps = self.ps
        extra = []
        while len(vals) <= maxn:
            if ps.check(st.pc, *extra) != z3.sat:
                break
            v = ps.s.model().eval(e, model_completion=True)
            vals.append(v)
            extra.append(e != v)
        if not vals:
            raise Dead()
        if len(vals) > maxn:
            return None
        if len(vals) == 1:
            st.add(e == vals[0])
            return vals[0].as_long()
        raise Fork([e == v for v in vals])

    def conc(self, st, e, maxn=16):
        """force a constant for e"""
        c = self.pick(st, e, maxn)
        if c is None:
            raise Unsupported('symbolic value where a constant is needed')
        return c

    def cell_load(self, st, o, off, size, ty):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if isinstance(v, tuple):
                if v[0] == 'globref':
                    v = self.global_ptr(st, v[1], v[2])
                else:
                    v = self.const(st, v[1], v[2], PTR)
            return v
        if size > 16:
            raise Unsupported('wide load')
        bs = []
        for k in range(size):
            b = self.cell_byte(o, off + k)
            if b is None:
                return UNDEF
            bs.append(b)
        return simp(z3.Concat(*reversed(bs))) if size > 1 else bs[0]

    def cell_byte(self, o, x):
        for s in range(0, 9):
            c = o.cells.get(x - s)
            if c is not None and c[0] > s:
                v = c[1]
                if isinstance(v, Undef):
                    return None
                if isinstance(v, Ptr):
                    if v.base is None:
                        return simp(z3.Extract(8 * s + 7, 8 * s, v.off))
                    raise Unsupported('byte access to a stored pointer')
                if isinstance(v, tuple):
                    raise Unsupported('byte access to a stored pointer')
                if isinstance(v, z3.FPRef):
                    raise Unsupported('byte access to a double')
                return simp(z3.Extract(8 * s + 7, 8 * s, v))
        return None

    def cell_store(self, o, off, size, v):
        # split or drop overlapping cells
        for x in range(off - 8, off + size):
            c = o.cells.get(x)
            if c is None:
                continue
            if x + c[0] <= off or x >= off + size:
                continue
            if x == off and c[0] == size:
                continue
            if x >= off and x + c[0] <= off + size:
                del o.cells[x]
                continue
            keep = []
            for k in range(c[0]):
                if not (off <= x + k < off + size):
                    keep.append((x + k, self.cell_byte(o, x + k)))
            del o.cells[x]
            for y, b in keep:
                if b is not None:
                    o.cells[y] = (1, b)
        o.cells[off] = (size, v)

    def coerce(self, st, v, ty, size, ins):
        """a raw cell value as a value of type ty"""
        if isinstance(v, Undef):
            return v
        if ty == PTR:
            if isinstance(v, Ptr):
                return v
            if z3.is_bv(v) and cint(simp(v)) is not None:
                return Ptr(None, simp(v))
            raise Unsupported('integer read as pointer')
        if isinstance(v, Ptr):
            if v.base is None:
                return v.off
            raise Unsupported('pointer read as integer')
        if ty[0] == 'double':
            if isinstance(v, z3.FPRef):
                return v
            return z3.fpBVToFP(v, z3.Float64())
        if isinstance(v, z3.FPRef):
            return z3.fpToIEEEBV(v)
        if ty[0] == 'i':
            if ty[1] == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            if ty[1] < v.size():
                return simp(z3.Extract(ty[1] - 1, 0, v))
            return v
        raise Unsupported('load of %r' % (ty,))

    def store(self, st, p, v, ty, mod, ins):
        size = mod.size(ty)
        o = self.need_obj(st, p, ins, 'write')
        self.check_writable(st, p, o, ins)
        if o.arr is not None:
            self.T.parr_store(self, st, p, v, ins)
            return
        self.bounds(st, o, p.off, size, 'write', ins)
        if z3.is_bool(v):
            v = z3.If(v, BV(1, 8), BV(0, 8))
            v = simp(v)
        elif z3.is_bv(v) and v.size() < 8 * size:
            v = zx(v, 8 * size)
        off = cint(p.off)
        if o.kind == 'raw' and o.content is None and o.cells is None:
            # first use of a block of symbolic size
            if isinstance(v, Ptr):
                self.T.parr_new(self, st, p, v, ins)
                return
            o = self.tobytes(st, p.base, o)
        if o.cells is not None and off is None:
            off = self.pick(st, p.off, 8)
            if off is None:
                o = self.tobytes(st, p.base, o)
        o = st.wobj(p.base)
        if o.cells is not None:
            self.cell_store(o, off, size, v)
            return
        if isinstance(v, Ptr):
            raise Unsupported('pointer stored into a byte array')
        if isinstance(v, Undef):
            v = fbv('undef', 8 * size)
        for k in range(size):
            b = simp(z3.Extract(8 * k + 7, 8 * k, v)) if size > 1 else v
            a = simp(p.off + k)
            o.content = CStore(o.content, a, b)
            self.log_raw(st, o, a, b)

    def log_raw(self, st, o, a, b):
        if o.log is not None:
            o.log = o.log.byte(self, st, a, b)

    def check_writable(self, st, p, o, ins):
        if o.ro:
            k = 'glob' if o.kind == 'global' else 'frame'
            self.fail(st, k, 'write to %s' % ('global state ' + p.base.name if k == 'glob' else 'read-only input'), ins)

    def memcpy(self, st, d, s, n, ins, what='memcpy'):
        nc = cint(simp(n))
        if nc is None:
            q = None
            # concretise small copies between fixed-size objects
            if d.base in st.objs and st.objs[d.base].cells is not None and isinstance(st.objs[d.base].size, int):
                q = self.pick(st, n, 9)
            nc = q
        if nc == 0:
            return
        if nc is None:
            z = st.decide(n == 0)
            if z is True:
                return
        nz = nc is not None
        if not nz and (self.maybe_null(st, d) or self.maybe_null(st, s)):
            if st.decide(n == 0) is None:
                raise Fork([n == 0, n != 0])
        so = self.need_obj(st, s, ins, what + ' source')
        do = self.need_obj(st, d, ins, what + ' destination')
        nn = nc if nc is not None else n
        self.bounds(st, so, s.off, nn, what + ' source', ins)
        self.bounds(st, do, d.off, nn, what + ' destination', ins)
        self.check_writable(st, d, do, ins)
        if so.arr is not None or do.arr is not None:
            raise Unsupported('memcpy of a pointer array')
        if nc is not None and so.cells is not None and cint(s.off) is None:
            so = self.tobytes(st, s.base, so)
        if nc is not None and do.cells is not None and cint(d.off) is None:
            do = self.tobytes(st, d.base, do)
        if nc is not None and nc <= SMALL and do.cells is not None:
            dc = cint(d.off)
            if so.cells is not None:
                sc = cint(s.off)
                items = []
                for x in sorted(so.cells):
                    sz, v = so.cells[x]
                    if x >= sc and x + sz <= sc + nc:
                        items.append((x - sc, sz, v))
                    elif x < sc + nc and x + sz > sc:
                        for k in range(sz):
                            if sc <= x + k < sc + nc:
                                b = self.cell_byte(so, x + k)
                                if b is not None:
                                    items.append((x + k - sc, 1, b))
                do = st.wobj(d.base)
                for x in list(do.cells):
                    sz, v = do.cells[x]
                    if x >= dc and x + sz <= dc + nc:
                        del do.cells[x]
                    elif x < dc + nc and x + sz > dc:
                        bs = [(x + k, self.cell_byte(do, x + k)) for k in range(sz) if not dc <= x + k < dc + nc]
                        del do.cells[x]
                        for y, b in bs:
                            if b is not None:
                                do.cells[y] = (1, b)
                for x, sz, v in items:
                    do.cells[dc + x] = (sz, v)
                return
            if so.content is None:
                so = self.tobytes(st, s.base, so)
            bs = [so.content.get(st, simp(s.off + k)) for k in range(nc)]
            do = st.wobj(d.base)
            for k, b in enumerate(bs):
                self.cell_store(do, dc + k, 1, b)
            return
        # destination is a byte array
        if do.content is None:
            do = self.tobytes(st, d.base, do)
        if so.content is None:
            so = self.tobytes(st, s.base, so)
        src = so.content
        do = st.wobj(d.base)
        if nc is not None and nc <= 16:
            for k in range(nc):
                b = src.get(st, simp(s.off + k))
                a = simp(d.off + k)
                do.content = CStore(do.content, a, b)
                self.log_raw(st, do, a, b)
            return
        so_off = s.off
        do.content = CRange(do.content, d.off, BV(nc, 64) if nc is not None else n,
                            lambda s2, j, src=src, so_off=so_off: src.get(s2, simp(so_off + j)))
        if do.log is not None:
            do.log = do.log.block(self, st, d.off, BV(nc, 64) if nc is not None else n, src, so_off)

    def maybe_null(self, st, p):
        c = self.nullcond(p)
        return st.decide(c) is not False

    def memset(self, st, d, c, n, ins):
        nc = cint(simp(n))
        if nc == 0:
            return
        if nc is None:
            if st.decide(n == 0) is None:
                do = st.objs.get(d.base)
                if do is not None and do.log is not None:
                    q = self.pick(st, n, 8)
                    if q is not None:
                        nc = q
                        if nc == 0:
                            return
                elif self.maybe_null(st, d):
                    raise Fork([n == 0, n != 0])
            elif st.decide(n == 0) is True:
                return
            elif d.base in st.objs and st.objs[d.base].log is not None:
                nc = self.pick(st, n, 8)
        do = self.need_obj(st, d, ins, 'memset')
        nn = nc if nc is not None else n
        self.bounds(st, do, d.off, nn, 'memset', ins)
        self.check_writable(st, d, do, ins)
        if do.arr is not None:
            raise Unsupported('memset of a pointer array')
        b = simp(z3.Extract(7, 0, c))
        if do.cells is not None and nc is not None and cint(d.off) is not None and nc <= SMALL:
            do = st.wobj(d.base)
            dc = cint(d.off)
            if cint(b) == 0 and dc % 8 == 0 and nc % 8 == 0:
                for k in range(0, nc, 8):
                    self.cell_store(do, dc + k, 8, BV(0, 64))
            else:
                for k in range(nc):
                    self.cell_store(do, dc + k, 1, b)
            return
        if do.content is None:
            do = self.tobytes(st, d.base, do)
        do = st.wobj(d.base)
        if nc is not None and nc <= 16:
            for k in range(nc):
                a = simp(d.off + k)
                do.content = CStore(do.content, a, b)
                self.log_raw(st, do, a, b)
            return
        do.content = CRange(do.content, d.off, BV(nc, 64) if nc is not None else n, lambda s2, j, b=b: b)
        if do.log is not None:
            do.log = do.log.block(self, st, d.off, BV(nc, 64) if nc is not None else n, None, None)

    def malloc(self, st, size, ins, name='heap', zero=False):
        b = Base(name, 'heap')
        size = simp(size)
        c = cint(size)
        if c is None:
            c = self.pick_if_const(st, size)
        if c is not None and c <= SMALL:
            o = Obj(c, 'heap', cells={})
        else:
            o = Obj(c if c is not None else size, 'raw')
        st.objs[b] = o
        p = Ptr(b)
        if zero and not (c == 0):
            self.memset(st, p, BV(0, 32), size, ins)
        return p

    def pick_if_const(self, st, e):
        """constant if the path forces one"""
        if self.ps.check(st.pc) != z3.sat:
            return None
        v = self.ps.s.model().eval(e, model_completion=True)
        if self.ps.check(st.pc, e != v) == z3.unsat:
            return v.as_long()
        return None

    def free(self, st, p, ins):
        if p.base is None:
            if z3.is_true(simp(p.off == 0)):
                return
            self.fail(st, 'own', 'free of an invalid pointer', ins)
        b = p.base
        nc = self.nullcond(p)
        d = st.decide(nc)
        if d is True:
            return
        if d is None:
            raise Fork([nc, z3.Not(nc)])
        if b in st.freed:
            self.fail(st, 'own', 'double free', ins)
        if b in st.chunks:
            self.T.open(self, st, b, ins)
        if b not in st.objs:
            self.fail(st, 'own', 'free of memory that is not owned', ins)
        o = st.objs[b]
        if o.kind not in ('heap', 'raw') :
            self.fail(st, 'own', 'free of memory that is not a heap block (%s)' % o.kind, ins)
        self.prove(st, p.off == 0, 'own', 'free of the start of a block', ins)
        if o.arr is not None:
            self.T.parr_drained(self, st, b, o, ins)
        else:
            self.ok(st, 'own', 'free of an owned block', ins)
        del st.objs[b]
        st.freed = st.freed | {b}

    def realloc(self, st, p, size, ins):
        size = simp(size)
        if p.base is None and z3.is_true(simp(p.off == 0)):
            return self.malloc(st, size, ins, 'realloc')
        nc = self.nullcond(p)
        d = st.decide(nc)
        if d is None:
            raise Fork([nc, z3.Not(nc)])
        if d is True:
            return self.malloc(st, size, ins, 'realloc')
        b = p.base
        o = self.need_obj(st, p, ins, 'realloc')
        if o.kind not in ('heap', 'raw'):
            self.fail(st, 'own', 'realloc of memory that is not a heap block', ins)
        self.prove(st, p.off == 0, 'own', 'realloc of the start of a block', ins)
        nb = Base('realloc', 'heap')
        no = o.copy()
        no.kind = 'raw'
        if o.arr is not None:
            cnt = simp(o.arr.hi + len(o.arr.extra))
            self.prove(st, z3.And(z3.ULE(cnt, BV(1 << 40, 64)), z3.ULE(cnt * 8, size)), 'own',
                       'realloc keeps every element', ins)
            no.size = size
        else:
            no.size = cint(size) if cint(size) is not None else size
            if o.cells is not None:
                c = cint(size)
                if c is None:
                    self.tobytes(st, b, o)
                    no.cells = None
                    no.content = st.objs[b].content
                else:
                    no.cells = {x: v for x, v in o.cells.items() if x + v[0] <= c}
        del st.objs[b]
        st.freed = st.freed | {b}
        st.objs[nb] = no
        return Ptr(nb)

    # ---- pointer comparison -------------------------------------------------
    def ptr_eq(self, st, a, b):
        if a.base is None and b.base is None:
            return simp(a.off == b.off)
        if a.base is None or b.base is None:
            x, y = (a, b) if a.base is None else (b, a)
            if z3.is_true(simp(x.off == 0)):
                return simp(self.nullcond(y))
            raise Unsupported('comparison of a pointer with an integer')
        if a.base is b.base:
            return simp(a.off == b.off)
        if a.base.kind == 'func' and b.base.kind == 'func':
            return FALSE
        for x in (a.base, b.base):
            if x not in st.objs and x not in st.chunks and x.kind not in ('global', 'func'):
                if not z3.is_true(simp(self.nullcond(Ptr(x)))):
                    pass
        na, nb = self.nullcond(a), self.nullcond(b)
        return simp(z3.And(na, nb))

    # ---- operands -----------------------------------------------------------
    def const(self, st, mod, v, t):
        k = v[0]
        if k == 'int':
            if v[1] == 1:
                return z3.BoolVal(bool(v[2]))
            return BV(v[2], v[1])
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.global_ptr(st, mod, v[1])
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            if t[0] == 'ptr':
                return NULL
            if t[0] == 'i':
                return BV(0, t[1])
            raise Unsupported('zeroinitializer operand')
        if k == 'gep':
            b = self.const(st, mod, v[2], PTR)
            return self.gep(st, mod, v[1], b, [(it, self.const(st, mod, iv, it)) for it, iv in v[3]])
        if k == 'fp':
            return z3.FPVal(v[1], z3.Float64())
        if k == 'cast' and v[1] == 'bitcast':
            return self.const(st, mod, v[3], v[2])
        raise Unsupported('constant %r' % (v,))

    def val(self, st, fr, v, t):
        if v[0] == 'reg':
            return fr.regs[v[1]]
        return self.const(st, fr.f.module, v, t)

    def gep(self, st, mod, bt, p, idx):
        off = p.off
        t = bt
        if isinstance(p, Undef):
            return p
        for k, (it, iv) in enumerate(idx):
            if isinstance(iv, Undef):
                raise Unsupported('undef index')
            if k == 0:
                s = mod.size(t)
                off = off + sx(iv, 64) * s if s != 1 else off + sx(iv, 64)
                continue
            r = mod.resolve(t)
            if r[0] == 'struct':
                c = cint(iv)
                if t[0] == 'named' and p.base is not None and p.base in st.objs and st.objs[p.base].tag is None \
                        and st.objs[p.base].kind in ('heap', 'raw'):
                    st.wobj(p.base).tag = t[1]
                off = off + mod.field_off(t, c)
                t = r[1][c]
            elif r[0] == 'arr':
                s = mod.size(r[2])
                iv = sx(iv, 64)
                if p.base is not None and p.base.kind == 'global' and s > 1 and s & (s - 1) == 0:
                    # into a table: the bits of the index stay visible
                    k2 = s.bit_length() - 1
                    off = simp(off + z3.Concat(z3.Extract(63 - k2, 0, iv), BV(0, k2)))
                else:
                    off = off + iv * s
                t = r[2]
            else:
                raise Unsupported('gep')
        return Ptr(p.base, simp(off))

    # ---- execution ----------------------------------------------------------
    def run(self, st, loop=None):
        """run until return of the bottom frame / leaving the loop. -> list of (kind, st, val)"""
        out = []
        work = [st]
        while work:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit for this function')
            s = work.pop()
            try:
                r = self.step_path(s, loop)
            except Dead:
                continue
            except Fork as fk:
                raise AssertionError('fork escaped')
            for kind, s2, v in r:
                if kind == 'cont':
                    work.append(s2)
                else:
                    out.append((kind, s2, v))
        return out

    def step_path(self, st, loop):
        while True:
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.block][fr.idx]
            op = ins.op
            if op in ('load', 'store', 'call', 'icmp', 'select', 'ret', 'switch', 'sdiv', 'udiv', 'srem', 'urem'):
                snap = st.copy()
                try:
                    r = self.exec_ins(st, fr, ins, loop)
                except Fork as fk:
                    res = []
                    for c in fk.conds:
                        s2 = snap.copy()
                        s2.add(c)
                        if self.ps.check(s2.pc) != z3.unsat:
                            res.append(('cont', s2, None))
                    return res
            else:
                r = self.exec_ins(st, fr, ins, loop)
            if r is not None:
                return r

    def goto(self, st, target, loop):
        """-> None to continue this state or a list of results"""
        fr = st.frames[-1]
        fr.prev = fr.block
        # phis of the target are evaluated on arrival
        fr.block = target
        fr.idx = 0
        self.do_phis(st, fr)
        depth = len(st.frames)
        if loop is not None and depth == loop.depth:
            if target == loop.header:
                return [('back', st, None)]
            if target not in loop.body:
                return [('exit', st, None)]
        L = loops(fr.f)
        if target in L:
            res = self.loop_handler(st, target, L[target])
            out = []
            for s2 in res:
                # s2 is positioned at a block outside of that loop
                f2 = s2.frames[-1]
                d2 = len(s2.frames)
                if loop is not None and d2 == loop.depth:
                    if f2.block == loop.header:
                        out.append(('back', s2, None))
                        continue
                    if f2.block not in loop.body:
                        out.append(('exit', s2, None))
                        continue
                if f2.block in L and f2.block != target:
                    # jumped straight to another header
                    for s3 in self.loop_handler(s2, f2.block, L[f2.block]):
                        out.append(('cont', s3, None))
                    continue
                out.append(('cont', s2, None))
            return out
        return None

    def do_phis(self, st, fr):
        b = fr.f.blocks[fr.block]
        vals = []
        i = 0
        while b[i].op == 'phi':
            ins = b[i]
            for v, blk in ins.a:
                if blk == fr.prev:
                    vals.append((ins.res, self.val(st, fr, v, ins.ty)))
                    break
            else:
                raise Unsupported('phi')
            i += 1
        for r, v in vals:
            fr.regs[r] = v
        fr.idx = i

    def boolv(self, st, v, ins):
        if isinstance(v, Undef):
            self.fail(st, 'mem', 'branch on an uninitialised value', ins)
        return v

    def intv(self, st, v, ins):
        if isinstance(v, Undef):
            self.fail(st, 'mem', 'use of an uninitialised value', ins)
        if isinstance(v, Ptr):
            return self.ptr_term(v)
        return v

    def exec_ins(self, st, fr, ins, loop):
        op = ins.op
        m = fr.f.module
        if op == 'alloca':
            t, cnt = ins.ty, ins.a[0]
            size = m.size(t)
            if cnt is not None:
                n = self.val(st, fr, cnt[1], cnt[0])
                n = simp(zx(n, 64) * size)
                c = cint(n)
                if c is None:
                    c = self.pick_if_const(st, n)
                size = c if c is not None else n
            b = Base(ins.res, 'alloca')
            if isinstance(size, int) and size <= SMALL:
                o = Obj(size, 'alloca', cells={})
            else:
                o = Obj(size, 'alloca')
                j = z3.Function('uninit!%d' % uid(), B64, z3.BitVecSort(8))
                o.content = CFun(lambda s, i, j=j: j(i))
            st.objs[b] = o
            fr.allocas.append(b)
            fr.regs[ins.res] = Ptr(b)
        elif op == 'load':
            p = self.val(st, fr, ins.a[0], PTR)
            if isinstance(p, Undef):
                self.fail(st, 'mem', 'read through an uninitialised pointer', ins)
            fr.regs[ins.res] = self.load(st, p, ins.ty, m, ins)
        elif op == 'store':
            v = self.val(st, fr, ins.a[0], ins.ty)
            p = self.val(st, fr, ins.a[1], PTR)
            if isinstance(p, Undef):
                self.fail(st, 'mem', 'write through an uninitialised pointer', ins)
            self.store(st, p, v, ins.ty, m, ins)
        elif op == 'getelementptr':
            p = self.val(st, fr, ins.a[0], PTR)
            if isinstance(p, Undef):
                fr.regs[ins.res] = p
            else:
                fr.regs[ins.res] = self.gep(st, m, ins.ty, p, [(t, self.val(st, fr, v, t)) for t, v in ins.a[1]])
        elif op == 'icmp':
            fr.regs[ins.res] = self.icmp(st, fr, ins)
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            fr.regs[ins.res] = self.binop(st, fr, ins)
        elif op in ('zext', 'sext', 'trunc'):
            v = self.val(st, fr, ins.a[0], ins.a[1])
            if isinstance(v, Undef):
                fr.regs[ins.res] = v
            else:
                w = ins.ty[1]
                if z3.is_bool(v):
                    one = BV(1, w) if op == 'zext' else BV(-1, w)
                    fr.regs[ins.res] = simp(z3.If(v, one, BV(0, w)))
                elif op == 'trunc':
                    if w == 1:
                        fr.regs[ins.res] = simp(z3.Extract(0, 0, v) == 1)
                    else:
                        fr.regs[ins.res] = simp(z3.Extract(w - 1, 0, v))
                else:
                    fr.regs[ins.res] = self.widen(st, v, w, op == 'sext')
        elif op == 'br':
            if len(ins.a) == 1:
                return self.goto(st, ins.a[0], loop)
            c = self.boolv(st, self.val(st, fr, ins.a[0], I(1)), ins)
            d = st.decide(c)
            if d is True:
                return self.goto(st, ins.a[1], loop)
            if d is False:
                return self.goto(st, ins.a[2], loop)
            out = []
            for cond, tgt, mark in ((c, ins.a[1], 'T'), (z3.Not(c), ins.a[2], 'F')):
                s2 = st.copy()
                s2.add(cond)
                s2.trace = s2.trace + ('%s:%s%s' % (fr.f.name, ins.line, mark),)
                try:
                    r = self.goto(s2, tgt, loop)
                except Dead:
                    continue
                if r is None:
                    out.append(('cont', s2, None))
                else:
                    out += r
            return out
        elif op == 'switch':
            v = self.intv(st, self.val(st, fr, ins.a[0], ins.ty), ins)
            conds = []
            rest = []
            out = []
            for cv, tgt in ins.a[2]:
                c = simp(v == BV(cv[2], v.size()))
                conds.append((z3.And(*(rest + [c])) if rest else c, tgt))
                rest.append(z3.Not(c))
            conds.append((z3.And(*rest) if rest else TRUE, ins.a[1]))
            for c, tgt in conds:
                c = simp(c)
                if z3.is_false(c) or self.ps.check(st.pc, c) == z3.unsat:
                    continue
                s2 = st.copy()
                s2.add(c)
                s2.trace = s2.trace + ('%s:%s=>%s' % (fr.f.name, ins.line, tgt),)
                try:
                    r = self.goto(s2, tgt, loop)
                except Dead:
                    continue
                if r is None:
                    out.append(('cont', s2, None))
                else:
                    out += r
            return out
        elif op == 'ret':
            v = self.val(st, fr, ins.a[0], ins.ty) if ins.a[0] is not None else None
            return self.do_return(st, v)
        elif op == 'call':
            return self.do_call(st, fr, ins)
        elif op == 'select':
            c = self.boolv(st, self.val(st, fr, ins.a[0], I(1)), ins)
            a = self.val(st, fr, ins.a[1], ins.ty)
            b = self.val(st, fr, ins.a[2], ins.ty)
            if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, Undef) or isinstance(b, Undef):
                d = st.decide(c)
                if d is None:
                    raise Fork([c, z3.Not(c)])
                fr.regs[ins.res] = a if d else b
            else:
                fr.regs[ins.res] = simp(z3.If(c, a, b))
        elif op == 'unreachable':
            raise Dead()
        elif op in ('sitofp', 'uitofp'):
            v = self.intv(st, self.val(st, fr, ins.a[0], ins.a[1]), ins)
            rm = z3.RNE()
            fr.regs[ins.res] = z3.fpSignedToFP(rm, v, z3.Float64()) if op == 'sitofp' else \
                z3.fpUnsignedToFP(rm, v, z3.Float64())
        elif op in ('fmul', 'fadd', 'fsub', 'fdiv'):
            a = self.val(st, fr, ins.a[0], ins.ty)
            b = self.val(st, fr, ins.a[1], ins.ty)
            f = {'fmul': z3.fpMul, 'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fdiv': z3.fpDiv}[op]
            fr.regs[ins.res] = f(z3.RNE(), a, b)
        elif op == 'bitcast' or op == 'freeze':
            fr.regs[ins.res] = self.val(st, fr, ins.a[0], ins.a[1])
        elif op == 'ptrtoint':
            v = self.val(st, fr, ins.a[0], ins.a[1])
            fr.regs[ins.res] = self.ptr_term(v)
        else:
            raise Unsupported('instruction %s' % op)
        fr.idx += 1
        return None

    def icmp(self, st, fr, ins):
        pred, a, b = ins.a
        a = self.val(st, fr, a, ins.ty)
        b = self.val(st, fr, b, ins.ty)
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.fail(st, 'mem', 'comparison with an uninitialised value', ins)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if pred in ('eq', 'ne'):
                e = self.ptr_eq(st, a, b)
                return e if pred == 'eq' else simp(z3.Not(e))
            if a.base is b.base:
                a, b = a.off, b.off
            else:
                raise Unsupported('ordering of unrelated pointers')
        if z3.is_bool(a):
            if pred == 'eq':
                return simp(a == b)
            if pred == 'ne':
                return simp(a != b)
            a = z3.If(a, BV(1, 1), BV(0, 1))
            b = z3.If(b, BV(1, 1), BV(0, 1))
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
        return simp(r)

    def binop(self, st, fr, ins):
        op = ins.op
        a = self.val(st, fr, ins.a[0], ins.ty)
        b = self.val(st, fr, ins.a[1], ins.ty)
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.fail(st, 'mem', 'arithmetic on an uninitialised value', ins)
        if z3.is_bool(a):
            f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}.get(op)
            if f is None:
                raise Unsupported('i1 ' + op)
            return simp(f(a, b))
        w = a.size()
        if 'nsw' in ins.flags and op in ('add', 'sub', 'mul'):
            if op == 'add':
                g = z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
            elif op == 'sub':
                g = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
            else:
                g = z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
            if not self.tent or True:
                self.prove(st, g, 'mem', 'no signed overflow in %s' % op, ins)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.prove(st, b != 0, 'mem', 'no division by zero', ins)
            if op[0] == 's':
                self.prove(st, z3.Not(z3.And(a == BV(1 << (w - 1), w), b == BV(-1, w))), 'mem', 'no division overflow',
                           ins)
        if op in ('shl', 'lshr', 'ashr'):
            self.prove(st, z3.ULT(b, BV(w, w)), 'mem', 'shift amount in range', ins)
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b,
             'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b),
             'ashr': lambda: a >> b, 'udiv': lambda: z3.UDiv(a, b), 'sdiv': lambda: a / b,
             'urem': lambda: z3.URem(a, b), 'srem': lambda: z3.SRem(a, b)}[op]()
        return simp(r)

    def do_return(self, st, v):
        fr = st.frames.pop()
        for b in fr.allocas:
            st.objs.pop(b, None)
            st.freed = st.freed | {b}
        if not st.frames:
            self.npaths += 1
            if self.npaths > 20000:
                raise Unsupported('too many paths')
            return [('ret', st, v)]
        cf = st.frames[-1]
        ins = cf.f.blocks[cf.block][cf.idx]
        if ins.res is not None:
            cf.regs[ins.res] = v
        cf.idx += 1
        return [('cont', st, None)]

    def widen(self, st, v, w, signed=False):
        """extension of a sum; the sum of the extensions when it cannot overflow (optional, for the solver's sake)"""
        f = sx if signed else zx
        if self.opts.get('widen') and v.size() < w and z3.is_app_of(v, z3.Z3_OP_BADD) and v.num_args() == 2 and \
                z3.is_bv_value(v.arg(0)):
            c, x = v.arg(0).as_signed_long(), v.arg(1)
            n = v.size()
            lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if signed else (0, (1 << n) - 1)
            if c > 0:
                g = x <= BV(hi - c, n) if signed else z3.ULE(x, BV(hi - c, n))
            else:
                g = x >= BV(lo - c, n) if signed else z3.UGE(x, BV(-c, n))
            k = (id(st.pc), g.get_id())
            r = self.widened.get(k)
            if r is None:
                self.ps.s.set('timeout', 2000)
                try:
                    r = self.widened[k] = (self.ps.check(st.pc, z3.Not(g)) == z3.unsat, st.pc, g)
                finally:
                    self.ps.s.set('timeout', self.ps.timeout)
            if r[0]:
                return simp(f(x, w) + BV(c, w))
        return f(v, w)

    def do_call(self, st, fr, ins):
        callee, args = ins.a
        m = fr.f.module
        av = [self.val(st, fr, v, t) for t, v in args]
        if callee[0] == 'glob':
            name = callee[1][1:]
            f = self.prog.func(m, name)
        else:
            p = self.val(st, fr, callee, PTR)
            if isinstance(p, Undef) or p.base is None:
                self.fail(st, 'mem', 'call through a NULL or uninitialised function pointer', ins)
            if p.base.kind != 'func':
                raise Unsupported('call through an unknown function pointer')
            f = p.base.fn
            if callable(f) and not isinstance(f, Func):
                r = f(self, st, av, ins)
                return self.after_call(st, fr, ins, r)
            name = f.name if isinstance(f, Func) else f
            if not isinstance(f, Func):
                f = None
        c = self.contracts.get(self.prog.fkey(f) if f is not None else name)
        if c is not None and c.callable_by(self, f):
            for a in av:
                if isinstance(a, Undef):
                    self.fail(st, 'mem', 'uninitialised argument to %s' % name, ins)
            try:
                r = c.apply(self, st, av, ins)
                self.used.add(c.name)
                return self.after_call(st, fr, ins, r)
            except InlineCall:
                pass
        if f is None:
            import extern
            r = extern.call(self, st, name, av, ins, fr)
            return self.after_call(st, fr, ins, r)
        if len(st.frames) > 24 or any(x.f is f for x in st.frames):
            raise Unsupported('recursion without a contract: %s' % f.name)
        self.inlined.add(f.name)
        nf = Frame(f)
        for (t, r), a in zip(f.params, av):
            nf.regs[r] = a
        st.frames.append(nf)
        if nf.block in loops(f):
            raise Unsupported('loop at function entry')
        return None

    def after_call(self, st, fr, ins, r):
        """r: value, or list of (state, value)"""
        if isinstance(r, list):
            out = []
            for s2, v in r:
                f2 = s2.frames[-1]
                if ins.res is not None:
                    f2.regs[ins.res] = v
                f2.idx += 1
                out.append(('cont', s2, None))
            return out
        if ins.res is not None:
            fr.regs[ins.res] = r
        fr.idx += 1
        return None

    def trace(self, text):
        if TRACE:
            print('      .', text)

    def loopnote(self, st, lp, text):
        if self.tent:
            return
        f = st.frames[-1].f
        line = None
        for i in f.blocks[lp.header]:
            line = line or i.line
        t = '%s:%s %s' % (f.name, line, text)
        if t not in self.loopinfo:
            self.loopinfo.append(t)

    def loop_handler(self, st, header, body):
        import loops as L
        return L.handle(self, st, header, body)
