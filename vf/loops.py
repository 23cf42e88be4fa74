"""Loops: bounded ones are executed completely; the others are generalised at their header.

The entry state is folded and compared with the states that come back to the header; every place that differs is
replaced by a fresh symbol, until the states that come back are instances of the header state.  An invariant over the
fresh symbols is then computed as the greatest provable subset of a set of candidates (Houdini); the candidates come
from the shape of the state and from the function's contract.  In the final pass all obligations of the body, of the
invariant (entry and preservation) and of termination are recorded.
"""
import time
import z3
from core import *
import types_
from types_ import *
from ir import Unsupported, loops as find_loops
import spec as spec_
from spec import *


class Loop:
    def __init__(self, header, body, depth):
        self.header, self.body, self.depth = header, body, depth


class NotBounded(Exception):
    pass


class Incompatible(Exception):
    pass


# ---- liveness of simple variables ----------------------------------------------

def regs_in(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'reg':
            out.add(x[1])
            return
        for y in x:
            regs_in(y, out)
    elif isinstance(x, list):
        for y in x:
            regs_in(y, out)


def liveness(f):
    r = getattr(f, '_live', None)
    if r is not None:
        return r
    simple = set()
    for b in f.order:
        for i in f.blocks[b]:
            if i.op == 'alloca':
                simple.add(i.res)
    for b in f.order:
        for i in f.blocks[b]:
            if i.op == 'load':
                continue
            out = set()
            if i.op == 'store':
                regs_in(i.a[0], out)
            elif i.op != 'alloca':
                regs_in(i.a, out)
            simple -= out
    use, dfn, succ = {}, {}, {}
    from ir import succs
    for b in f.order:
        u, d = set(), set()
        for i in f.blocks[b]:
            if i.op == 'load' and i.a[0][0] == 'reg' and i.a[0][1] in simple:
                if i.a[0][1] not in d:
                    u.add(i.a[0][1])
            elif i.op == 'store' and i.a[1][0] == 'reg' and i.a[1][1] in simple:
                d.add(i.a[1][1])
        use[b], dfn[b], succ[b] = u, d, succs(f.blocks[b])
    live = {b: set() for b in f.order}
    ch = True
    while ch:
        ch = False
        for b in reversed(f.order):
            o = set()
            for s in succ[b]:
                o |= live[s]
            n = use[b] | (o - dfn[b])
            if n != live[b]:
                live[b] = n
                ch = True
    f._live = (simple, live)
    return f._live


# ---- canonical states ------------------------------------------------------------

def linked_type(ex, st, b):
    o = st.objs.get(b)
    if o is None or o.cells is None or o.kind not in ('heap', 'raw'):
        return None
    for t in ex.T.tag_type(o.tag):
        if getattr(t, 'linked', None):
            return t
    return None


def elem_type(ex, st, x):
    if not isinstance(x, Ptr) or x.base is None:
        return None
    c = st.chunks.get(x.base)
    if isinstance(c, Own):
        return c.T
    if x.base in st.objs:
        tt = ex.T.tag_type(st.objs[x.base].tag)
        return tt[0] if len(tt) == 1 else None
    return None


def canon(ex, st, ins=None):
    """fold what can be folded; modifies st"""
    T = ex.T
    fr = st.frames[-1]
    simple, live = liveness(fr.f)
    lv = live[fr.block]
    for r in simple:
        p = fr.regs.get(r)
        if r not in lv and isinstance(p, Ptr) and p.base in st.objs:
            o = st.objs[p.base]
            if o.cells:
                o = st.wobj(p.base)
                o.cells = {}
    # something points into the middle of a node: the node stays in the open
    for b, o in list(st.objs.items()):
        if not o.cells or o.kind == 'global':
            continue
        for s, v in list(o.cells.values()):
            if isinstance(v, Ptr) and v.base is not None and cint(v.off) != 0:
                c = st.chunks.get(v.base)
                if isinstance(c, Own) and getattr(c.T, 'linked', None) and st.decide(v.base.term != 0) is True:
                    T.open(ex, st, v.base, ins)
    # pointer arrays
    for b, o in list(st.objs.items()):
        if o.kind in ('heap', 'raw') and o.cells and isinstance(o.size, int) and o.size % 8 == 0 and \
                not T.tag_type(o.tag) and sorted(o.cells) == list(range(0, o.size, 8)) and \
                all(s == 8 and isinstance(v, Ptr) for s, v in o.cells.values()):
            if any(elem_type(ex, st, v) is not None for s, v in o.cells.values()):
                o = st.wobj(b)
                o.arr = PArr(None, VNULL, Z64, Z64)
                o.arr.extra = [o.cells[k][1] for k in sorted(o.cells)]
                o.cells = None
    for b in [b for b, o in st.objs.items() if o.arr is not None]:
        T.return_loans(ex, st, b, ins)
        o = st.wobj(b)
        a = o.arr
        while a.extra:
            x = a.extra[0]
            E = a.E
            if E is None:
                E = elem_type(ex, st, x)
                if E is None:
                    break
            s2 = st.copy()
            v = T.take(ex, s2, x, E, ins)
            if v is None:
                break
            T.adopt(st, s2)
            o = st.wobj(b)
            a = o.arr
            a.E = E
            a.L = snoc(a.L, v)
            a.hi = simp(a.hi + 1)
            a.extra = a.extra[1:]
    fold_lists(ex, st, ins)
    known_values(ex, st)


def compound(v):
    return is_fn(v, CONS) or is_fn(v, APP) or '@' in str(v)


def known_values(ex, st):
    """a list put together again gets its old name back"""
    todo = [(b, c) for b, c in st.chunks.items() if isinstance(c, Own) and getattr(c.T, 'linked', None) and
            compound(c.v)]
    if not todo:
        return
    names = {}
    for f in st.facts():
        if z3.is_eq(f) and f.arg(0).sort() == VS:
            for x, y in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                if compound(y) and not compound(x) and not x.eq(VNULL):
                    names[x.get_id()] = x
    for b, c in todo:
        for x in sorted(names.values(), key=lambda x: len(str(x))):
            if st.decide(c.v == x) is True:
                st.chunks[b] = Own(c.T, x)
                break


def fold_lists(ex, st, ins):
    for _ in range(64):
        if not fold_one(ex, st, ins):
            return


def fold_one(ex, st, ins):
    T = ex.T
    linked = {}
    for b in st.objs:
        t = linked_type(ex, st, b)
        if t is not None:
            linked[b] = t
    if not linked:
        return False
    roots = {}      # base -> [(interior?)]
    for b, o in st.objs.items():
        if o.cells is None or o.kind == 'global':
            continue
        for off, (s, v) in o.cells.items():
            if isinstance(v, Ptr) and v.base is not None:
                if b in linked and off == linked[b].byname['next'].off:
                    continue
                roots.setdefault(v.base, []).append(cint(v.off) != 0)
    # chain starts: explicit nodes or segments pointed to exactly once from outside
    for b, refs in list(roots.items()):
        c = st.chunks.get(b)
        if isinstance(c, LSeg):
            c2 = st.chunks.get(c.to)
            if isinstance(c2, Own) and c2.T is c.T and st.decide(c2.v == VNULL) is True:
                # the segment ends with a null pointer
                st.chunks[b] = Own(c.T, c.L)
                return True
            if c.to in roots:
                continue
            t = c.T
            s2 = st.copy()
            if c.to in linked:
                r = peel_node(ex, s2, c.to, t, ins)
                if r is None:
                    continue
                e, nxt = r
                L = app(c.L, cons(e, VNULL))
                if place(ex, s2, b, t, L, nxt, roots):
                    T.adopt(st, s2)
                    return True
            else:
                c2 = s2.chunks.get(c.to)
                if isinstance(c2, (Own, LSeg)) and c2.T is t:
                    del s2.chunks[c.to]
                    if isinstance(c2, Own):
                        s2.chunks[b] = Own(t, app(c.L, c2.v))
                    else:
                        s2.chunks[b] = LSeg(t, c2.to, app(c.L, c2.L))
                    T.adopt(st, s2)
                    return True
            continue
        if b in linked and (not any(refs) if ex.folding else refs == [False]):
            s2 = st.copy()
            r = peel_node(ex, s2, b, linked[b], ins)
            if r is None:
                continue
            e, nxt = r
            if place(ex, s2, b, linked[b], cons(e, VNULL), nxt, roots):
                T.adopt(st, s2)
                return True
            continue
    # nodes that stay explicit: fold what follows
    for b, t in linked.items():
        off = t.byname['next'].off
        c = st.objs[b].cells.get(off)
        if b in roots and c is not None and isinstance(c[1], Ptr) and c[1].base in linked and c[1].base not in roots:
            x = c[1].base
            s2 = st.copy()
            r = peel_node(ex, s2, x, t, ins)
            if r is None:
                continue
            e, nxt = r
            if place(ex, s2, x, t, cons(e, VNULL), nxt, roots):
                T.adopt(st, s2)
                return True
    return False


def peel_node(ex, st, b, t, ins):
    """consume the explicit node b; -> (element value, next pointer)"""
    off = t.byname['next'].off
    o = st.wobj(b)
    c = o.cells.get(off)
    if c is None:
        return None
    nxt = c[1]
    if not isinstance(nxt, Ptr):
        if z3.is_expr(nxt) and cint(simp(nxt)) == 0:
            nxt = NULL
        else:
            return None
    o.cells[off] = (8, NULL)
    v = t.fold(ex, st, b, st.objs[b], ex.T, ins)
    if v is None or not is_fn(v, CONS):
        return None
    return v.arg(0), nxt


def place(ex, st, b, t, L, nxt, roots):
    if nxt.base is None:
        st.chunks[b] = Own(t, L)
        return True
    if cint(nxt.off) != 0:
        return False
    x = nxt.base
    c = st.chunks.get(x)
    if x in roots or x in st.objs:
        st.chunks[b] = LSeg(t, x, L)
        return True
    if isinstance(c, Own) and c.T is t:
        del st.chunks[x]
        st.chunks[b] = Own(t, app(L, c.v))
        return True
    if isinstance(c, LSeg) and c.T is t:
        del st.chunks[x]
        st.chunks[b] = LSeg(t, c.to, app(L, c.L))
        return True
    return False


# ---- generalisation -----------------------------------------------------------------

class Gen:
    def __init__(self, ex, E, lp):
        self.ends = []
        self.ex, self.lp = ex, lp
        self.E = E
        self.H = E.copy()
        self.spots = {}      # var name -> var
        self.derived = set()  # (array, end) that follow a variable
        self.new = 0
        self.known = set()

    def fresh(self, kind, sort):
        self.new += 1
        v = z3.Const('%s@%d!%d' % (kind, self.new, uid()), sort)
        self.spots[v.get_id()] = v
        return v

    # -- matching
    def match(self, S, mods):
        """match S (canonical, consumed) against the header state -> env; collects modifications"""
        self.S = S
        self.mods = mods
        self.env = {}
        self.map = {}
        self.rmap = {}
        self.deferred = []
        H = self.H
        for b in list(H.objs):
            if b.kind in ('alloca', 'param') or H.objs[b].kind in ('alloca', 'param'):
                if b not in S.objs:
                    raise Incompatible('object vanished')
                self.map[b] = b
                self.rmap[b] = b
        for b in [x for x in self.map]:
            self.obj(b, b)
        # heap objects that are reachable from nowhere
        for b in list(H.objs):
            if b not in self.map and H.objs[b].kind in ('heap', 'raw'):
                if b in S.objs:
                    self.bind(b, b)
                    self.obj(b, b)
        if 'out' in H.ghost or 'out' in S.ghost:
            ho, so = H.ghost.get('out'), S.ghost.get('out')
            if ho is not so:
                self.outspot(ho, so)
        if not mods:
            self.check_deferred()
        return self.env

    def outspot(self, ho, so):
        pass

    def bind(self, hb, bb):
        self.map[hb] = bb
        self.rmap[bb] = hb

    def leftovers(self, S):
        """owned memory of S that has no counterpart in the header state"""
        out = []
        for b, o in S.objs.items():
            if o.kind in ('heap', 'raw') and b not in self.rmap and b.kind not in ('global',):
                out.append(b)
        for b, c in S.chunks.items():
            if b in self.rmap:
                continue
            if isinstance(c, (Own, UOwn)):
                if isinstance(c, Own) and c.T.name == 'OctBuf':
                    if S.decide(b.term == 0) is True:
                        continue
                if S.decide(c.v == VNULL) is True:
                    continue
            elif isinstance(c, PArrOwn):
                if S.decide(llen(c.L) == 0) is True:
                    continue
            if b in self.H.chunks and b not in self.map:
                # not reachable from the variables in either state
                hc = self.H.chunks[b]
                if type(hc) is type(c):
                    continue
            out.append(b)
        return out

    def num(self, hv, sv, setter, kind='n'):
        """compare scalars; setter(newvalue) is applied to H when they differ"""
        S = self.S
        if isinstance(hv, z3.FPRef) or isinstance(sv, z3.FPRef):
            if z3.is_fp(hv) and z3.is_fp(sv) and hv.eq(sv):
                return
            if z3.is_fp(hv) and hv.get_id() in self.spots:
                if z3.is_fp(sv):
                    self.env[hv.get_id()] = sv
                    return
            if z3.is_fp(hv) and z3.is_fp(sv):
                self.mods.append((setter, 'fp', hv.sort()))
                return
            raise Incompatible('double')
        if hv.get_id() in self.spots:
            self.env[hv.get_id()] = sv
            return
        if hv.eq(sv):
            return
        if hv.size() == sv.size():
            if not self.widening and S.decide(hv == sv) is True:
                return
            if self.widening and S.decide(hv == sv) is True:
                return
        self.mods.append((setter, kind, hv.sort()))

    def au(self, hv, sv, setter, kind):
        """compare values; setter replaces the whole term in H"""
        n = self.au1(hv, sv, kind)
        if n is not None:
            self.mods.append((setter, 'term', n))

    def au1(self, hv, sv, kind):
        if hv.get_id() in self.spots:
            self.env[hv.get_id()] = sv
            return None
        if hv.eq(sv):
            return None
        if kind == 'V':
            if is_fn(hv, CONS) and is_fn(sv, CONS):
                a = self.au1(hv.arg(0), sv.arg(0), kind)
                b = self.au1(hv.arg(1), sv.arg(1), kind)
                if a is None and b is None:
                    return None
                f = lambda: cons(a() if a else hv.arg(0), b() if b else hv.arg(1))
                return f
        if self.S.decide(hv == sv) is True:
            return None
        return lambda: self.fresh(kind, hv.sort())

    def getcell(self, st, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if isinstance(v, tuple):
                v = self.ex.cell_load(st, o, off, size, ('ptr',))
            return v
        try:
            return self.ex.cell_load(st, o, off, size, ('i', 8 * size))
        except Unsupported:
            return UNDEF

    def obj(self, hb, bb):
        H, S, ex = self.H, self.S, self.ex
        h, s = H.objs[hb], S.objs[bb]
        if h.kind == 'global' or h.ro:
            return
        # size
        if isinstance(h.size, int) != isinstance(s.size, int) or (isinstance(h.size, int) and h.size != s.size):
            if h.arr is None and s.arr is None:
                def setsz(v, hb=hb):
                    self.H.wobj(hb).size = v
                self.num(h.sz(), s.sz(), setsz)
        elif not isinstance(h.size, int):
            def setsz(v, hb=hb):
                self.H.wobj(hb).size = v
            self.num(h.size, s.size, setsz)
        if h.arr is not None or s.arr is not None:
            self.parr(hb, bb)
            return
        if h.log is not None:
            self.logm(hb, h, s)
        if h.content is not None or s.content is not None:
            if h.content is s.content:
                return
            self.content(hb, bb, h, s)
            return
        if h.cells is None or s.cells is None:
            if h.cells is None and s.cells is None:
                return
            raise Incompatible('object representation')
        for off in sorted(h.cells):
            size = h.cells[off][0]
            hv = self.getcell(H, h, off, size)
            sv = self.getcell(S, S.objs[bb], off, size)
            self.cell(hb, off, size, hv, sv)

    def delcell(self, hb, off):
        def f(hb=hb, off=off):
            self.H.wobj(hb).cells.pop(off, None)
        self.mods.append((f, 'do', None))

    def setcell(self, hb, off, size):
        def f(v):
            self.H.wobj(hb).cells[off] = (size, v)
        return f

    def cell(self, hb, off, size, hv, sv):
        if isinstance(hv, Undef):
            return
        if isinstance(sv, Undef):
            if isinstance(hv, Ptr) and self.live(self.H, hv):
                pass
            self.delcell(hb, off)
            return
        z = lambda v: NULL if z3.is_bv(v) and cint(simp(v)) == 0 and size == 8 else None
        if isinstance(hv, Ptr) or isinstance(sv, Ptr):
            if not isinstance(hv, Ptr):
                hv = z(hv)
            if not isinstance(sv, Ptr):
                sv = z(sv)
            if hv is None or sv is None:
                self.delcell(hb, off)
                return
            self.ptr(hb, off, hv, sv)
            return
        self.num(hv, sv, self.setcell(hb, off, size))

    def live(self, st, p):
        b = p.base
        if b is None:
            return True
        if b.kind == 'func':
            return True
        return b in st.objs or b in st.chunks

    def refs(self, st, b):
        n = 0
        for x, o in st.objs.items():
            if o.cells and o.kind != 'global':
                n += sum(1 for s, v in o.cells.values() if isinstance(v, Ptr) and v.base is b)
        return n

    def isnull(self, p):
        return p.base is None and cint(p.off) == 0

    def ptr(self, hb, off, hp, sp):
        H, S, ex = self.H, self.S, self.ex
        setp = self.setcell(hb, off, 8)
        if self.isnull(hp) and self.isnull(sp):
            return
        # null against something
        if self.isnull(hp):
            c = S.chunks.get(sp.base)
            if sp.base is not None and sp.base.kind not in ('alloca', 'global', 'func', 'param') and \
                    self.live(S, sp) and self.refs(S, sp.base) > 1:
                raise Incompatible('NULL against a shared object')
            if isinstance(c, Own) and cint(sp.off) == 0 and sp.base not in self.rmap:
                def mk(T=c.T, hb=hb, off=off):
                    x = self.fresh('V', VS)
                    setp(ex.T.produce(self.H, T, x, 'gen'))
                self.mods.append((mk, 'do', None))
                self.rmap[sp.base] = None
                return
            if isinstance(c, PArrOwn):
                E = c.E
            elif sp.base in S.objs and S.objs[sp.base].arr is not None:
                E = S.objs[sp.base].arr.E
            else:
                E = None
            if E is not None and sp.base not in self.rmap:
                def mk2(E=E):
                    x = self.fresh('V', VS)
                    u = Base('gen', 'sym')
                    self.H.add((u.term == 0) == (llen(x) == 0), *lfacts(x))
                    self.H.chunks[u] = PArrOwn(E, x)
                    setp(Ptr(u))
                self.mods.append((mk2, 'do', None))
                self.rmap[sp.base] = None
                return
            if not self.live(S, sp):
                self.delcell(hb, off)
                return
            t = ex.T.tag_type(S.objs[sp.base].tag) if sp.base in S.objs else []
            if len(t) == 1 and cint(sp.off) == 0 and sp.base not in self.rmap and S.objs[sp.base].kind in (
                    'heap', 'raw'):
                s2 = S.copy()
                v = ex.T.take(ex, s2, sp, t[0], None)
                if v is not None:
                    ex.T.adopt(S, s2)

                    def mk3(T=t[0]):
                        x = self.fresh('V', VS)
                        setp(ex.T.produce(self.H, T, x, 'gen'))
                    self.mods.append((mk3, 'do', None))
                    return
            raise Incompatible('NULL against an object')
        if hp.base is None:
            raise Incompatible('integer pointer')
        hc = H.chunks.get(hp.base)
        if self.isnull(sp):
            if hp.base in self.map:
                raise Incompatible('NULL against a shared object')
            if isinstance(hc, Own) and hc.T.name != 'OctBuf':
                self.au(hc.v, VNULL, self.setown(hp.base), 'V')
                self.map[hp.base] = None
                return
            if isinstance(hc, PArrOwn):
                self.au(hc.L, VNULL, self.setparr(hp.base), 'V')
                self.map[hp.base] = None
                return
            if not self.live(H, hp):
                self.delcell(hb, off)
                return
            raise Incompatible('object against NULL')
        if sp.base is None:
            raise Incompatible('integer pointer')
        hlive, slive = self.live(H, hp), self.live(S, sp)
        if not slive and not hlive and hp.base is sp.base and hp.off.eq(sp.off):
            return
        if not slive:
            if hlive and hp.base.kind not in ('func', 'global') and H.objs.get(hp.base) is not None and \
                    H.objs[hp.base].kind in ('alloca', 'param', 'global'):
                self.delcell(hb, off)
                return
            if hlive and hp.base not in self.map:
                raise Incompatible('released')
            self.delcell(hb, off)
            return
        if not hlive:
            self.delcell(hb, off)
            return
        kinds = ('func', 'global')
        if hp.base.kind in kinds or sp.base.kind in kinds or hp.base in self.map or sp.base in self.rmap:
            if hp.base is sp.base or (hp.base in self.map and self.map[hp.base] is sp.base):
                pass
            else:
                raise Incompatible('pointers to different objects')
        else:
            self.target(hp.base, sp.base)
        if not hp.off.eq(sp.off):
            self.num(hp.off, sp.off, lambda v: setp(Ptr(self.H.objs[hb].cells[off][1].base, v)), 'off')

    def rename(self, b):
        """the block at b is another one in every pass: nothing known about its address may survive"""
        H = self.H
        n = Base(b.name.split('#')[0], b.kind, b.fn)
        n.info = b.info

        def q(v):
            return Ptr(n, v.off) if isinstance(v, Ptr) and v.base is b else v
        for x, o in list(H.objs.items()):
            if o.cells is not None and any(isinstance(v, Ptr) and v.base is b for s, v in o.cells.values()):
                o = H.wobj(x)
                o.cells = {k: (s, q(v)) for k, (s, v) in o.cells.items()}
            if o.arr is not None and o.arr.extra:
                o = H.wobj(x)
                o.arr.extra = [q(v) for v in o.arr.extra]
        for x, c in list(H.chunks.items()):
            if isinstance(c, LSeg) and c.to is b:
                H.chunks[x] = LSeg(c.T, n, c.L)
        for fr in H.frames:
            for k, v in list(fr.regs.items()):
                if isinstance(v, Ptr) and v.base is b:
                    fr.regs[k] = q(v)
        if b in H.chunks:
            H.chunks[n] = H.chunks.pop(b)
        if b in H.objs:
            H.objs[n] = H.objs.pop(b)
        return n

    def setown(self, b):
        def f(v):
            n = self.rename(b)
            c = self.H.chunks[n]
            self.H.chunks[n] = Own(c.T, v)
            if c.T.name != 'OctBuf':
                self.H.add((n.term == 0) == (v == VNULL))
        return f

    def setparr(self, b):
        def f(v):
            n = self.rename(b)
            c = self.H.chunks[n]
            self.H.chunks[n] = PArrOwn(c.E, v)
            self.H.add(*lfacts(v))
            self.H.add((n.term == 0) == (llen(v) == 0))
        return f

    def target(self, hb, sb):
        """two owned things, first visit"""
        H, S, ex = self.H, self.S, self.ex
        hc, sc = H.chunks.get(hb), S.chunks.get(sb)
        if hc is None and sc is None:
            self.bind(hb, sb)
            self.obj(hb, sb)
            return
        if hc is not None and sc is not None:
            if isinstance(hc, Own) and isinstance(sc, Own) and hc.T is sc.T:
                if hc.T.name == 'OctBuf' and hb is not sb and not (
                        H.decide(hb.term != 0) is True and S.decide(sb.term != 0) is True):
                    raise Incompatible('storage of a string')
                self.bind(hb, sb)
                self.au(hc.v, sc.v, self.setown(hb), 'V')
                return
            if isinstance(hc, PArrOwn) and isinstance(sc, PArrOwn) and hc.E is sc.E:
                self.bind(hb, sb)
                self.au(hc.L, sc.L, self.setparr(hb), 'V')
                return
            if isinstance(hc, LSeg) and isinstance(sc, LSeg) and hc.T is sc.T:
                self.bind(hb, sb)

                def setl(v):
                    n = self.rename(hb)
                    c = self.H.chunks[n]
                    self.H.chunks[n] = LSeg(c.T, c.to, v)
                    self.H.add(v != VNULL, n.term != 0)
                self.au(hc.L, sc.L, setl, 'V')
                if hc.to in self.map:
                    if self.map[hc.to] is not sc.to:
                        raise Incompatible('list end')
                elif sc.to in self.rmap:
                    raise Incompatible('list end')
                else:
                    self.target(hc.to, sc.to)
                return
            if isinstance(hc, UOwn) and isinstance(sc, UOwn):
                self.bind(hb, sb)
                if not hc.v.eq(sc.v):
                    raise Incompatible('choice member')
                return
            if isinstance(hc, UOwn) and isinstance(sc, Own) and hb is sb:
                if hc.v.eq(sc.v):
                    self.bind(hb, sb)
                    return
            raise Incompatible('ownership shape')
        if hc is not None:
            # H folded, S explicit
            if isinstance(hc, Own):
                s2 = S.copy()
                v = ex.T.take(ex, s2, Ptr(sb), hc.T, None)
                if v is None:
                    raise Incompatible('explicit object against a folded one')
                ex.T.adopt(S, s2)
                self.map[hb] = sb
                self.rmap[sb] = hb
                self.au(hc.v, v, self.setown(hb), 'V')
                return
            if isinstance(hc, PArrOwn):
                o = S.objs[sb]
                if o.arr is not None:
                    s2 = S.copy()
                    n = simp(z3.Extract(31, 0, o.arr.hi + len(o.arr.extra)))
                    s2.add(*lfacts(o.arr.L))
                    s2.add(z3.ULT(o.arr.hi, BV(1 << 31, 64)))
                    v = ex.T.take_parr(ex, s2, Ptr(sb), n, hc.E, None)
                    if v is not None:
                        ex.T.adopt(S, s2)
                        self.map[hb] = sb
                        self.rmap[sb] = hb
                        self.au(hc.L, v, self.setparr(hb), 'V')
                        return
            raise Incompatible('explicit object against a chunk')
        # H explicit, S folded
        if S.decide(sb.term != 0) is True and not isinstance(sc, (LSeg, UOwn)):
            ex.T.open(ex, S, sb, None)
            self.bind(hb, sb)
            self.obj(hb, sb)
            return
        raise Incompatible('folded against explicit')

    def parr(self, hb, bb):
        H, S, ex = self.H, self.S, self.ex
        h, s = H.objs[hb], S.objs[bb]
        if h.arr is None or s.arr is None:
            raise Incompatible('pointer array')
        a, c = h.arr, s.arr
        if a.E is not c.E or a.extra or c.extra or a.loans or c.loans:
            raise Incompatible('pointer array elements')

        def setf(name):
            def f(v):
                o = self.H.wobj(hb)
                setattr(o.arr, name, v)
                if name == 'L':
                    self.H.add(*lfacts(v))
            return f
        if (a.lo.eq(Z64) or a.lo.get_id() not in self.spots) and not a.L.eq(c.L) and a.hi.eq(llen(a.L)) and \
                c.hi.eq(llen(c.L)) and a.lo.eq(c.lo):
            # a growing array: the count follows the list
            n = self.au1(a.L, c.L, 'V')
            if n is not None:
                def grow(v):
                    o = self.H.wobj(hb)
                    o.arr.L = v
                    self.H.add(*lfacts(v))
                    o.arr.hi = llen(v)
                    o.size = simp(llen(v) * 8)
                self.mods.append((grow, 'term', n))
            return
        self.au(a.L, c.L, setf('L'), 'V')
        self.limit(hb, 'lo', a.lo, c.lo, setf('lo'))
        if not (a.hi.eq(llen(a.L)) and c.hi.eq(llen(c.L))):
            self.limit(hb, 'hi', a.hi, c.hi, setf('hi'))

    def limit(self, hb, what, hv, sv, setter):
        """one end of the part of an array that is still owned; it usually follows a variable"""
        if (hb, what) in self.derived:
            self.deferred.append((hv, sv))
            return
        if hv.get_id() in self.spots or hv.eq(sv) or self.S.decide(hv == sv) is True:
            self.num(hv, sv, setter)
            return
        H, S = self.H, self.S
        for b, o in H.objs.items():
            if b.kind != 'alloca' or o.cells is None or 0 not in o.cells or b not in S.objs:
                continue
            s, v = o.cells[0]
            c = S.objs[b].cells.get(0) if S.objs[b].cells else None
            if not z3.is_bv(v) or s not in (4, 8) or c is None or c[0] != s or not z3.is_bv(c[1]):
                continue
            if H.decide(sx64(v) == hv) is True and S.decide(sx64(c[1]) == sv) is True:
                def f(b=b, hb=hb, what=what, s=s):
                    self.derived.add((hb, what))
                    setattr(self.H.wobj(hb).arr, what, simp(sx64(self.H.objs[b].cells[0][1])))
                self.mods.append((f, 'late', None))
                return
        self.num(hv, sv, setter)

    def check_deferred(self):
        pairs = [(v, self.env[i]) for i, v in self.spots.items() if i in self.env]
        for hv, sv in self.deferred:
            if self.S.decide(z3.substitute(hv, *pairs) == sv) is not True:
                raise Incompatible('part of an array')

    def logm(self, hb, h, s):
        if h.log is s.log:
            return
        if s.log is None:
            raise Incompatible('log')

        def setS(v):
            o = self.H.wobj(hb)
            o.log = Log(o.log.start, v, o.log.end)

        def setE(v):
            o = self.H.wobj(hb)
            o.log = Log(o.log.start, o.log.S, v)
        self.au(h.log.S, s.log.S, setS, 'S')
        hw = self.ex.hint_write
        if hw is not None and hw[0].base in self.H.objs and hw[0].base in self.S.objs:
            # the position usually is the end of what has been written
            k = self.ex.T.bo['cursor']
            if ('end', hb) in self.derived:
                self.deferred.append((h.log.end, s.log.end))
                return
            hc, sc = self.H.objs[hw[0].base].cells.get(k), self.S.objs[hw[0].base].cells.get(k)
            if hc and sc and not h.log.end.eq(s.log.end) and h.log.end.get_id() not in self.spots and \
                    self.H.decide(hc[1] == h.log.end) is True and self.S.decide(sc[1] == s.log.end) is True:
                def f(hb=hb, k=k, wb=hw[0].base):
                    self.derived.add(('end', hb))
                    o = self.H.wobj(hb)
                    o.log = Log(o.log.start, o.log.S, self.H.objs[wb].cells[k][1])
                self.mods.append((f, 'late', None))
                return
        self.num(h.log.end, s.log.end, setE, 'end')

    def content(self, hb, bb, h, s):
        if h.cells is not None or h.content is None:
            def conv(hb=hb):
                self.ex.tobytes(self.H, hb, self.H.objs[hb])
            self.mods.append((conv, 'do', None))
            return
        if getattr(h.content, 'tag', None) is not None and h.content.tag[0] == 'gen':
            self.env[('content', hb)] = s.content if s.content is not None else self.ex.tobytes(
                self.S, bb, self.S.objs[bb]).content
            return

        def f(hb=hb):
            o = self.H.wobj(hb)
            g = z3.Function('mem!%d' % uid(), B64, B8)
            o.content = CFun(lambda st, i, g=g: g(i), tag=('gen', g))
        self.mods.append((f, 'do', None))

    widening = True

    def apply(self, mods):
        for setter, kind, arg in [m for m in mods if m[1] != 'late'] + [m for m in mods if m[1] == 'late']:
            if kind == 'late':
                setter()
            elif kind == 'do':
                setter()
            elif kind == 'term':
                setter(arg())
            else:
                setter(self.fresh(kind, arg))


MAXPEEL = 3


def handle(ex, st, header, body):
    lp = Loop(header, body, len(st.frames))
    f = st.frames[-1].f
    key = (f.module.name, f.name, header)
    if key not in ex.nounroll:
        try:
            if not ex.tent:
                ex.tent += 1
                ex.ps.s.set('timeout', 2000)
                try:
                    unroll(ex, st, lp, 9)
                finally:
                    ex.tent -= 1
                    ex.ps.s.set('timeout', ex.ps.timeout)
            return unroll(ex, st, lp)
        except NotBounded:
            ex.nounroll.add(key)
    mode = ex.foldshared.get(key)
    if mode is not None or ex.tent:
        ex.folding = mode is not False
        return generalise(ex, st, lp, 0, None)
    # a list whose first node is shared is folded, unless the loop needs to see that node
    mark, np_, notes = len(ex.obs), ex.npaths, len(ex.loopinfo)
    first = None
    for fold in (True, False):
        ex.folding = fold
        try:
            out = generalise(ex, st, lp, 0, None)
            bad = sum(not o.ok for o in ex.obs[mark:])
            if not bad:
                ex.foldshared[key] = fold
                return out
            res = (bad, out, ex.obs[mark:], ex.npaths)
        except Unsupported as e:
            if 'time limit' in str(e):
                raise
            res = (1 << 30, e, [], np_)
        if first is None or res[0] < first[0]:
            first = res
        del ex.obs[mark:]
        del ex.loopinfo[notes:]
        ex.npaths = np_
    bad, out, obs, n = first
    if bad == 1 << 30:
        raise out
    ex.obs[mark:] = obs
    ex.npaths = n
    return out


def unroll(ex, st, lp, most=400):
    """execute the loop completely; NotBounded when the number of passes is not fixed"""
    mark = len(ex.obs)
    npaths = ex.npaths
    out = []
    live = [st.copy()]
    it = 0
    t0 = time.time()
    try:
        while live:
            if it >= 9 and (out or len(live) > 1) or it >= 400 or len(live) > 24:
                raise NotBounded()
            if it >= most:
                return None
            if time.time() - t0 > (15 if ex.tent else 60):
                raise NotBounded()
            nxt = []
            for s in live:
                for kind, s2, v in ex.run(s, lp):
                    (nxt if kind == 'back' else out).append(s2)
            live = nxt
            it += 1
    except (NotBounded, Unsupported) as e:
        del ex.obs[mark:]
        ex.npaths = npaths
        if isinstance(e, Unsupported) and 'time limit' in str(e):
            raise
        raise NotBounded()
    f = st.frames[-1].f
    ex.loopnote(st, lp, 'executed completely (%d passes)' % it)
    return out


def generalise(ex, E, lp, npeel, ctx):
    E = E.copy()
    canon(ex, E)
    if ctx is None:
        ctx = Ctx(ex, E, lp)
    ctx.arrive(E)
    ctx.goals(E)
    g = Gen(ex, E, lp)
    ctx.gen = g
    try:
        cands, ve, vh = discover(ex, E, lp, g, ctx)
    except Incompatible as e:
        if npeel >= MAXPEEL:
            raise Unsupported('loop at %s: %s' % (lp.header, e))
        out = []
        for kind, s2, v in ex.run(E.copy(), lp):
            if kind == 'back':
                out += generalise(ex, s2, lp, npeel + 1, ctx)
            else:
                if kind == 'exit':
                    ctx.leave(s2, ctx.ends)
                out.append(s2)
        return out
    return finish(ex, E, lp, g, ctx, npeel, cands, ve, vh)


def spot_facts(g):
    for v in g.spots.values():
        if v.get_id() in g.known:
            continue
        g.known.add(v.get_id())
        if v.sort() == VS:
            g.H.add(APP(v, VNULL) == v)
            g.H.add(*lfacts(v))
        elif v.sort() == SS:
            g.H.add(CAT(v, EPS) == v)


def discover(ex, E, lp, g, ctx):
    """shape and invariant: assume everything that holds at entry, drop what a pass does not preserve"""
    dropped = set()
    fresh = True
    for rounds in range(60):
        if fresh:
            spot_facts(g)
            ve = view(ex, g, ctx, E.copy())
            if ve is None:
                raise Incompatible('the entry state does not fit its own generalisation')
            vh = View(ctx, g, g.H, None, {b: b for b in list(g.H.objs) + list(g.H.chunks)})
            ctx.quantities(g, vh)
            ctx.fill(vh)
            ctx.fill(ve)
            g.ve = ve
            cands = []
            for c in ctx.candidates(g, vh, ve):
                if c.desc in dropped:
                    continue
                try:
                    e = c.fn(ve)
                except KeyError:
                    continue
                if e is None or c.fn(vh) is None:
                    continue
                app_facts(ve.st, e)
                if ve.st.decide(e) is True:
                    cands.append(c)
            fresh = False
            ex.trace('loop %s: %d spots, %d candidates' % (lp.header, len(g.spots), len(cands)))
        Hs = g.H.copy()
        assume(Hs, cands, vh)
        drop = set()
        for B in tentative(ex, lp, Hs, ctx, cands):
            B = B.copy()
            canon(ex, B)
            mods = []
            B0 = B.copy()
            try:
                env = dict(g.match(B, mods))
            except Incompatible:
                if tail(ex, lp, B0, True) is None:
                    raise
                continue
            if mods:
                g.apply(mods)
                fresh = True
                break
            vb = View(ctx, g, B, env, dict(g.map))
            ctx.fill(vb)
            drop |= falsified(ex, vb, [c for c in cands if c not in drop])
        dropped |= set(c.desc for c in drop)
        if fresh:
            continue
        if not drop:
            return cands, ve, vh
        ex.trace('loop %s: dropped %s' % (lp.header, [c.desc for c in drop]))
        cands = [c for c in cands if c not in drop]
    raise Incompatible('no stable shape')


def tail(ex, lp, B, quiet):
    """the state leaves the loop without another complete pass -> the states after it, else None"""
    if quiet:
        ex.tent += 1
    mark, np_ = len(ex.obs), ex.npaths
    try:
        r = ex.run(B.copy(), lp)
    finally:
        if quiet:
            ex.tent -= 1
            ex.npaths = np_
    if any(k == 'back' for k, x, v in r):
        del ex.obs[mark:]
        return None
    return [x for k, x, v in r]


def tentative(ex, lp, H, ctx, cands):
    """run the body once without recording -> back states"""
    s = H.copy()
    ctx.arrive(s)
    ex.tent += 1
    np_ = ex.npaths
    try:
        r = ex.run(s, lp)
    finally:
        ex.tent -= 1
        ex.npaths = np_
    return [x for k, x, v in r if k == 'back']


def defined(fn):
    def f(v):
        try:
            return fn(v)
        except (AttributeError, TypeError, KeyError, z3.Z3Exception):
            return None     # a quantity has no value in this state
    return f


class Cand:
    __slots__ = ('fn', 'desc', 'hard', 'split', 'cover')

    def __init__(self, fn, desc, hard=False, split=(), cover=None):
        # cover: a valid formula which says that the cases of split are exhaustive
        self.fn, self.desc, self.hard, self.split, self.cover = fn, desc, hard, split, cover


class View:
    """quantities of one state in terms of the header state's places"""

    def __init__(self, ctx, g, st, env, mp):
        self.st, self.env = st, env
        self.g = g
        self.mp = mp

    def __call__(self, t):
        """value of the header term t"""
        if self.env is None:
            return t
        e = self.env.get(t.get_id())
        if e is not None:
            return e
        return self.subst(t)

    def subst(self, t):
        if self.env is None:
            return t
        pairs = [(v, self.env[i]) for i, v in self.g.spots.items() if i in self.env]
        return z3.substitute(t, *pairs) if pairs else t


def finish(ex, E, lp, g, ctx, npeel, cands, ve, vh):
    H = g.H
    # final, recorded pass
    for c in cands:
        app_facts(ve.st, c.fn(ve))
        ex.prove(ve.st, c.fn(ve), 'inv', 'loop invariant holds initially: ' + c.desc, None, False)
    Hs = H.copy()
    assume(Hs, cands, vh)
    ctx.arrive(Hs)
    out = []
    backs = []
    for kind, s2, v in ex.run(Hs.copy(), lp):
        if kind == 'back':
            backs.append(s2)
        else:
            if kind == 'exit':
                ctx.leave(s2, ctx.ends)
            out.append(s2)
    meas = None
    vbs = []
    for B in backs:
        B0 = B
        B = B.copy()
        canon(ex, B)
        vb = view(ex, g, ctx, B)
        if vb is None:
            r = tail(ex, lp, B0, False)
            if r is None:
                raise Unsupported('loop at %s: unstable shape' % lp.header)
            for s2 in r:
                ctx.leave(s2, ctx.ends)
            out += r
            continue
        left = g.leftovers(B)
        if left:
            s = B0.copy()
            try:
                ex.fail(s, 'own', 'memory is lost in every pass of a loop: %s' % ', '.join(
                    x.name for x in left[:3]))
            except Dead:
                pass
            continue
        ctx.fill(vb)
        vbs.append(vb)
        for c in cands:
            e = c.fn(vb)
            app_facts(vb.st, e)
            d = 'loop invariant is preserved: ' + c.desc
            if c.hard and bycases(vb.st, c, e):
                if not ex.tent:
                    ex.obs.append(Ob(ex.fname, 'inv', d, ex.where(vb.st, None), True, 'z3-cases', 0.0))
            else:
                ex.prove(vb.st, e, 'inv', d, None, False)
            if c.hard:
                vb.st.add(e)
    if vbs and not ex.opts.get('noterm'):
        ctx.termination(g, vh, vbs, lp)
    ex.loopnote(E, lp, 'invariant: %s%s' % ('; '.join(c.desc for c in cands) or 'shape only',
                                            ' (after %d peeled passes)' % npeel if npeel else ''))
    return out


def assume(st, cands, vh):
    for c in cands:
        e = c.fn(vh)
        st.add(e)
        app_facts(st, e)


def app_facts(st, e):
    """appending to an empty list"""
    seen = set()

    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if is_fn(t, APP):
            st.add(z3.Implies(t.arg(0) == VNULL, t == t.arg(1)))
        for c in t.children():
            go(c)
    go(e)


def view(ex, g, ctx, S):
    mods = []
    try:
        env = dict(g.match(S, mods))
    except Incompatible as e:
        ex.trace('does not match: %s' % e)
        return None
    if mods:
        ex.trace('does not match: %s' % [(m[1], str(m[2])) for m in mods])
        return None
    return View(ctx, g, S, env, dict(g.map))


def bycases(st, c, e):
    """does e hold in each of the cases the hint gives (and in none of them)?"""
    e = simp(e)
    if z3.is_true(e):
        return True
    facts = st.facts()
    cases = list(c.split)
    if c.cover is None:
        cases.append((z3.Not(z3.Or(*[x[0] for x in cases])) if cases else TRUE, ()))
    else:
        q = z3.Solver()
        q.set('timeout', 8000)
        q.add(z3.Not(c.cover))
        if q.check() != z3.unsat:
            return False
    for cond, subs in cases:
        # first with the equalities of the case substituted and applications of functions forgotten
        g = [instance(f, subs) for f in facts + [cond, z3.Not(e)]]
        if any(z3.is_false(x) for x in g):
            continue
        q = z3.Solver()
        q.set('timeout', 2000)
        q.add(*forget(g))
        if q.check() == z3.unsat:
            continue
        q = z3.Solver()
        q.set('timeout', 8000)
        q.add(*g)
        if q.check() != z3.unsat:
            return False
    return True


_inst, _vars = {}, {}


def symbols(f):
    r = _vars.get(f.get_id())
    if r is None:
        seen, out, todo = set(), set(), [f]
        while todo:
            y = todo.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if z3.is_app(y) and y.num_args() == 0:
                out.add(y.get_id())
            todo.extend(y.children())
        r = _vars[f.get_id()] = (out, f)
    return r[0]


def instance(f, subs):
    v = symbols(f)
    subs = [x for x in subs if x[0].get_id() in v]
    if not subs:
        return f
    k = (f.get_id(),) + tuple((a.get_id(), b.get_id()) for a, b in subs)
    r = _inst.get(k)
    if r is None:
        r = _inst[k] = (simp(z3.substitute(f, *subs)), f, subs)
    return r[0]


_forget, _const = {}, {}


def forget(g):
    """the formulas with every application of an uninterpreted function replaced by a constant of its own (weaker)"""
    out = []
    for f in g:
        r = _forget.get(f.get_id())
        if r is None:
            seen, m, todo = set(), [], [f]
            while todo:
                y = todo.pop()
                if y.get_id() in seen:
                    continue
                seen.add(y.get_id())
                if z3.is_app(y) and y.num_args():
                    if y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        c = _const.get(y.get_id())
                        if c is None:
                            c = _const[y.get_id()] = (y, z3.FreshConst(y.sort()))
                        m.append(c)
                    else:
                        todo.extend(y.children())
            r = _forget[f.get_id()] = (z3.substitute(f, *m) if m else f, f)
        out.append(r[0])
    return out


def falsified(ex, vb, cands):
    out = set()
    goals = []
    for c in cands:
        e0 = c.fn(vb)
        if e0 is None:
            out.add(c)
            continue
        e = simp(e0)
        app_facts(vb.st, e)
        if z3.is_true(e) or vb.st.linear(e0):
            continue
        goals.append((c, e))
    ps = ex.ps
    ps.s.set('timeout', 5000 * ex.patience)
    try:
        for n, (c, e) in enumerate(goals):
            if c in out:
                continue
            r = ps.check(vb.st.pc, z3.Not(e)) if not c.hard else z3.unknown
            if r == z3.unknown and c.hard:
                r = z3.unsat if bycases(vb.st, c, e) else z3.unknown
            if r == z3.unsat:
                vb.st.add(e)
                continue
            out.add(c)
            if r == z3.unknown:
                ex.gaveup += 1
            if r == z3.sat:
                m = ps.s.model()
                for c2, e2 in goals[n + 1:]:
                    if c2 not in out and z3.is_false(m.eval(e2, model_completion=True)):
                        out.add(c2)
    finally:
        ps.s.set('timeout', ps.timeout)
    return out


def sx64(t):
    return sx(t, 64)


class Ctx:
    """what is known about the loop from the contract"""

    def __init__(self, ex, E, lp):
        self.ends = []
        self.ex, self.lp = ex, lp
        self.parse = self.write = None
        self.setup(E)

    # -- hints that apply at every arrival at the header
    def setup(self, E):
        ex = self.ex
        self.mcells = []
        self.flags = []
        self.fams = []
        self.buf = None
        hp = ex.hint_parse
        if hp is not None and hp[1] == 'clear':
            self.buf = hp[0]
            k = ex.cur_ps.name
            self.fams = {'TreePath': ['Path'], 'Tree': ['Children'], 'List': ['List'], 'ProfilePackRequest': ['Obj'],
                         'File': ['File']}.get(k, [k] if k.startswith('Seq:') else [])
        elif hp is not None:
            self.buf = hp[0]
        if self.fams and self.fams != ['File']:
            ints = []
            for fr in E.frames:
                for b in fr.allocas:
                    o = E.objs.get(b)
                    if o is None or o.cells is None:
                        continue
                    for off, (s, v) in o.cells.items():
                        if z3.is_bv(v) and s in (4, 8) and off == 0:
                            ints.append((b, off, s, v))
            for (b, off, s, v) in ints:
                if self.has_tllen(v):
                    self.mcells.append((b, off, s, None))
            for x in ints:
                for y in ints:
                    if x[0] is y[0] or x[2] != y[2] or not self.has_tllen(x[3]):
                        continue
                    if cint(simp(y[3])) == 0:
                        self.mcells.append((x[0], x[1], x[2], y[:3]))
            if self.fams == ['List']:
                for fr in E.frames:
                    for b in fr.allocas:
                        o = E.objs.get(b)
                        if o is None or o.cells is None:
                            continue
                        for off, (s, v) in o.cells.items():
                            if z3.is_bv(v) and s <= 4 and cint(simp(v)) == 0:
                                self.flags.append((b, off))

    def has_tllen(self, v):
        seen = set()

        def go(e):
            if e.get_id() in seen:
                return False
            seen.add(e.get_id())
            if is_fn(e, tllen):
                return True
            return any(go(c) for c in e.children())
        return go(simp(v))

    def cellv(self, st, b, off, s):
        o = st.objs.get(b)
        if o is None or o.cells is None:
            return None
        c = o.cells.get(off)
        if c is None or c[0] != s or not z3.is_bv(c[1]):
            return None
        return c[1]

    def m_of(self, st, mc):
        v = self.cellv(st, mc[0], mc[1], mc[2])
        if v is None:
            return None
        if mc[3] is not None:
            w = self.cellv(st, *mc[3])
            if w is None:
                return None
            v = v - w
        v = simp(v)
        return v if v.size() == 32 else simp(z3.Extract(31, 0, v))

    def cursor(self, st):
        from contracts import buf_view
        p = self.buf
        if p == 'find':
            for b, o in st.objs.items():
                if o.kind in ('heap', 'raw') and o.cells is not None and o.size == self.ex.T.bufsize and \
                        any(t.name == 'Buffer' for t in self.ex.T.tag_type(o.tag)):
                    c = o.cells.get(self.ex.T.bo['cursor'])
                    return c[1] if c is not None else None
            return None
        o = st.objs.get(p.base)
        if o is None:
            return None
        c = o.cells.get(self.ex.T.bo['cursor'])
        return c[1] if c is not None else None

    def xs(self, st, fam):
        if fam == 'Children':
            return [simp(self.ex.cur_ps.xv[0] - 1)]
        if fam == 'List':
            out = []
            for b, off in self.flags:
                o = st.objs.get(b)
                if o is None or o.cells is None:
                    continue
                try:
                    y = self.ex.cell_byte(o, off)
                except Unsupported:
                    y = None
                if y is not None:
                    out.append(simp((y & 1) == 1))
                else:
                    out.append(None)
            return out
        return [None]

    def parse_points(self, st):
        """[(key, fam, cursor, m, x)] of a state"""
        out = []
        if not self.fams or self.buf is None:
            return out
        c = self.cursor(st)
        if c is None:
            return out
        for fam in self.fams:
            if fam == 'File':
                out.append(((fam,), fam, c, None, None))
                continue
            for i, mc in enumerate(self.mcells):
                m = self.m_of(st, mc)
                if m is None:
                    continue
                for j, x in enumerate(self.xs(st, fam)):
                    if x is None and fam == 'List':
                        continue
                    out.append(((fam, i, j), fam, c, m, x))
        return out

    def arrive(self, st):
        """unfold the specification at the header"""
        for h in self.ex.arrivals:
            h(self, st)
        sp, en = self.ex.spec, self.ex.enc
        for key, fam, c, m, x in self.parse_points(st):
            if fam == 'File':
                sp.unfold_files(st, c)
            else:
                sp.unfold(st, fam, c, m, x)
        if self.ex.hint_write is not None:
            for fam, L, h, t, ne in self.write_points(st):
                self.unfold_enc(st, fam, L, h, t, ne)

    def write_points(self, st):
        """remaining lists of a state: [(fam, L, head, tail, nonempty)]"""
        out = []
        seen = set()

        def put(fam, L, h, t, ne):
            if (fam, L.get_id()) in seen:
                return
            seen.add((fam, L.get_id()))
            out.append((fam, L, h, t, ne))
        fams = {'List': 'List', 'ObjList': 'Obj'}
        for b, c in st.chunks.items():
            if isinstance(c, Own) and c.T.name in fams and not c.v.eq(VNULL):
                L = c.v
                if is_fn(L, CONS):
                    put(fams[c.T.name], L, L.arg(0), L.arg(1), TRUE)
                    L = L.arg(1)
                    if L.eq(VNULL):
                        continue
                if is_fn(L, CONS) or is_fn(L, APP):
                    continue
                h, t = HD(L), TL_(L)
                st.add(z3.Implies(L != VNULL, L == cons(h, t)), *lfacts(t))
                put(fams[c.T.name], L, h, t, L != VNULL)
        for b in list(st.objs):
            t = linked_type(self.ex, st, b)
            if t is None or t.name not in fams:
                continue
            s2 = st.copy()
            L = self.ex.T.take(self.ex, s2, Ptr(b), t, None)
            if L is None:
                continue
            for p in s2.facts()[len(st.facts()):]:
                st.add(p)
            while is_fn(L, CONS):
                put(fams[t.name], L, L.arg(0), L.arg(1), TRUE)
                L = L.arg(1)
        idx = []
        for fr in st.frames[-1:]:
            for b in fr.allocas:
                o = st.objs.get(b)
                if o is not None and o.cells is not None and 0 in o.cells and z3.is_bv(o.cells[0][1]) and \
                        o.cells[0][0] in (4, 8):
                    idx.append(sx64(o.cells[0][1]))
        for b, L, E in self.parrs(st):
            fam = self.famof(E)
            for i in idx:
                i = simp(i)
                D = self.ex.T.drop(L, i)
                st.add(*lfacts(L))
                ne = z3.ULT(i, llen(L))
                h, t = self.ex.T.nth(st, L, i), self.ex.T.drop(L, simp(i + 1))
                st.add(z3.Implies(z3.Not(ne), D == VNULL))
                put(fam, D, h, t, ne)
        return out

    def famof(self, E):
        return {'Oct': 'Path', 'Tree': 'Children', 'Message': 'File'}.get(E.name, 'Seq:' + E.name)

    def parrs(self, st):
        for b, c in st.chunks.items():
            if isinstance(c, PArrOwn):
                yield b, c.L, c.E
        for b, o in st.objs.items():
            if o.arr is not None and o.arr.E is not None:
                yield b, o.arr.L, o.arr.E

    def unfold_enc(self, st, fam, L, h, t, ne):
        en = self.ex.enc
        s = encl(fam, L)
        r = encl(fam, t)
        e = en.elem(fam, h)
        st.add(*sfacts(s))
        st.add(*sfacts(r))
        st.add(*sfacts(e))
        d = cat(e, r)
        st.add(z3.Implies(z3.Not(ne), z3.And(s == EPS, SLEN(s) == 0)))
        st.add(z3.Implies(ne, z3.And(s == d, SLEN(s) == simp(slen(e) + slen(r)))))
        if not is_fn(e, CAT) and not e.eq(EPS):
            st.add(CAT(e, EPS) == e)
        self.chain(st, s, ne, [e], r)
        k = {'List': 'ListEntry', 'Obj': None}.get(fam, None)
        if k is not None:
            for cnd, df in en.alts(st, k, h):
                st.add(*sfacts(df))
                st.add(z3.Implies(z3.And(ne, cnd), z3.And(s == cat(df, r), SLEN(e) == slen(df))))
                self.chain(st, s, z3.And(ne, cnd), atoms(df), r)
                # the parts fit one after the other
                pos = Z64
                for a in atoms(df):
                    pos = simp(pos + slen1(a))
                    st.add(z3.Implies(z3.And(ne, cnd), z3.ULE(pos, SLEN(e))))

    def chain(self, st, s, cond, parts, r):
        """where the rest s = parts, r fits at the write position, its parts fit one after the other (sums of lengths
        below 2^44, so no sum wraps around)"""
        hw = self.ex.hint_write
        o = st.objs.get(hw[0].base)
        if o is None or o.cells is None:
            return
        cur, n = o.cells.get(self.ex.T.bo['cursor']), o.cells.get(self.ex.T.bo['buffer_len'])
        if cur is None or n is None or not z3.is_bv(cur[1]) or not z3.is_bv(n[1]):
            return
        cur, n = cur[1], n[1]
        whole = simp(cur + slen(s))
        fits = z3.And(cond, z3.ULE(n, INTMAX), z3.ULE(cur, whole), z3.ULE(whole, n))
        pos = cur
        fs = []
        steps = []
        for a in parts + atoms(r):
            nx = simp(pos + slen1(a))
            fs += [z3.ULE(pos, nx), z3.ULE(nx, n)]
            steps.append(z3.And(z3.ULE(pos, nx), z3.ULE(nx, n)))
            if not pos.eq(cur):
                fs.append(z3.ULE(cur, pos))
            pos = nx
        st.add(z3.Implies(cond, whole == pos))
        st.add(z3.Implies(fits, z3.And(*fs)))
        if steps:
            st.ghost['chain'] = st.ghost.get('chain', ()) + ((fits, tuple(steps)),)

    def leave(self, st, ends):
        """after the loop: where everything has been written, say so in the terms of the entry state"""
        hw = self.ex.hint_write
        if hw is None or hw[1] is None or hw[1].base not in st.objs:
            return
        lo = st.objs[hw[1].base].log
        if lo is None or not ends:
            return
        for v in self.gen.spots.values():
            if v.sort() == VS:
                st.decide(v == VNULL)
        for fam, L, h, t, ne in self.write_points(st):
            self.unfold_enc(st, fam, L, h, t, ne)
            self.unfold_enc(st, fam, t, HD(t), TL_(t), t != VNULL) if not compound(t) and not t.eq(VNULL) else None
        k = self.ex.T.bo['cursor']
        o = st.objs.get(hw[0].base)
        for tot, end0 in ends:
            if st.decide(lo.S == tot) is True and st.decide(lo.end == end0) is True:
                st.wobj(hw[1].base).log = Log(lo.start, tot, end0)
                if o.cells[k][1].eq(lo.end) or st.decide(o.cells[k][1] == end0) is True:
                    st.wobj(hw[0].base).cells[k] = (o.cells[k][0], end0)
                return

    # -- quantities over which candidates range
    def quantities(self, g, vh):
        """places of list values: pointer cells to list nodes"""
        ex, H = self.ex, g.H
        self.lists = []
        for b, o in list(H.objs.items()):
            if o.cells is None or o.kind == 'global' or linked_type(ex, H, b) is not None:
                continue
            for off, (s, v) in sorted(o.cells.items()):
                if not isinstance(v, Ptr) or v.base is None or cint(v.off) != 0:
                    continue
                c = H.chunks.get(v.base)
                t = None
                if isinstance(c, (Own, LSeg)) and getattr(c.T, 'linked', None):
                    t = c.T
                elif v.base in H.objs:
                    t = linked_type(ex, H, v.base)
                if t is None:
                    continue
                s2 = H.copy()
                if ex.T.take(ex, s2, v, t, None) is not None:
                    self.lists.append((b, off, t))
        self.arrs = [(b, E) for b, L, E in self.parrs(H)]
        self.arrcells = []
        for b, o in list(H.objs.items()):
            if o.cells is None or o.kind == 'global':
                continue
            for off, (s, v) in sorted(o.cells.items()):
                if isinstance(v, Ptr) and v.base is not None and cint(v.off) == 0:
                    for ab, E in self.arrs:
                        if ab is v.base and not any(x[2] is ab for x in self.arrcells):
                            self.arrcells.append((b, off, ab, E))
        # integer terms that do not change in the loop
        self.inv = []
        ids = set()

        def put(t):
            if t.get_id() not in ids and not self.has_spot(g, t):
                ids.add(t.get_id())
                self.inv.append(t)
        for b, o in H.objs.items():
            if o.cells is None or o.kind == 'global':
                continue
            for off, (s, v) in o.cells.items():
                if z3.is_bv(v) and v.size() in (16, 32, 64):
                    put(v)
        for b, o in H.objs.items():
            if o.kind in ('param', 'raw') and z3.is_expr(o.size):
                put(o.size)
        if self.buf is not None:
            put(N)

    def has_spot(self, g, t):
        seen = set()

        def go(e):
            if e.get_id() in seen:
                return False
            seen.add(e.get_id())
            if e.get_id() in g.spots:
                return True
            return any(go(c) for c in e.children())
        return go(t)

    def fill(self, v):
        """compute the derived quantities of a view"""
        ex, st = self.ex, v.st
        v.lists = []
        for b, off, t in self.lists:
            bb = v.mp.get(b, b)
            o = st.objs.get(bb)
            val = None
            if o is not None and off in o.cells:
                p = o.cells[off][1]
                if z3.is_bv(p) and cint(p) == 0:
                    p = NULL
                s2 = st.copy()
                if isinstance(p, Ptr):
                    val = ex.T.take(ex, s2, p, t, None)
            v.lists.append(val)
        v.arrs = []
        for b, off, ab, E in self.arrcells:
            bb = v.mp.get(b, b)
            o = st.objs.get(bb)
            val = None
            if o is not None and off in o.cells:
                p = o.cells[off][1]
                if z3.is_bv(p) and cint(p) == 0:
                    val = VNULL
                elif isinstance(p, Ptr):
                    if p.base is None:
                        val = VNULL
                    else:
                        c = st.chunks.get(p.base)
                        if isinstance(c, PArrOwn):
                            val = c.L
                        elif p.base in st.objs and st.objs[p.base].arr is not None:
                            a = st.objs[p.base].arr
                            if not a.extra:
                                val = a.L
            # matching may have consumed the block
            if val is None or True:
                hc = v.g.H.chunks.get(ab)
                if v.env is not None and isinstance(hc, PArrOwn):
                    if hc.L.get_id() in v.env:
                        val = v.env[hc.L.get_id()]
                    elif not self.has_spot(v.g, hc.L):
                        val = hc.L
            v.arrs.append(val)
        v.pp = {k: (fam, c, m, x) for k, fam, c, m, x in self.parse_points(st)}
        v.log = None
        hw = ex.hint_write
        if hw is not None and hw[1] is not None and hw[1].base in st.objs:
            v.log = st.objs[hw[1].base].log
        v.n = None
        if hw is not None:
            from contracts import buf_view
            o = st.objs.get(hw[0].base)
            if o is not None:
                v.n = o.cells[ex.T.bo['buffer_len']][1]
                v.cur = o.cells[ex.T.bo['cursor']][1]

    def goals(self, E):
        """what the output will be when all of a list that remains at a loop entry has been written"""
        hw = self.ex.hint_write
        if hw is None or hw[1] is None or hw[1].base not in E.objs or E.objs[hw[1].base].log is None:
            return
        lo = E.objs[hw[1].base].log
        for fam, L, h, t, ne in self.write_points(E):
            self.unfold_enc(E, fam, L, h, t, ne)
            e0 = EPS if L.eq(VNULL) else encl(fam, L)
            x = (cat(lo.S, e0), simp(lo.end + SLEN(e0)))
            if not any(x[0].eq(y[0]) for y in self.ends):
                self.ends.append(x)

    def candidates(self, g, vh, ve):
        ex = self.ex
        out = []
        add = lambda fn, d: out.append(Cand(defined(fn), d))
        sc = [v for v in g.spots.values() if z3.is_bv(v)]
        nm = lambda v: v.decl().name().split('!')[0]
        same = lambda a, b: a.size() == b.size()
        for s in sc:
            s0 = ve(s)
            w = s.size()
            if w != 64:
                add(lambda v, s=s, s0=s0: v(s) >= s0, '%s >= initial' % nm(s))
                add(lambda v, s=s, s0=s0: v(s) <= s0, '%s <= initial' % nm(s))
            add(lambda v, s=s, s0=s0: z3.UGE(v(s), s0), '%s >=u initial' % nm(s))
            add(lambda v, s=s, s0=s0: z3.ULE(v(s), s0), '%s <=u initial' % nm(s))
            add(lambda v, s=s: v(s) >= 0, '%s >= 0' % nm(s))
            if w == 32:
                add(lambda v, s=s: v(s) >= -1, '%s >= -1' % nm(s))
            for t in self.inv:
                if t.size() != w:
                    if w == 32 and t.size() == 64:
                        add(lambda v, s=s, t=t: z3.ULE(sx64(v(s)), t), '%s <= %s' % (nm(s), short(t)))
                    elif w == 64 and t.size() == 32:
                        add(lambda v, s=s, t=t: z3.ULE(v(s), sx64(t)), '%s <= %s' % (nm(s), short(t)))
                    continue
                add(lambda v, s=s, t=t: v(s) <= t, '%s <= %s' % (nm(s), short(t)))
                add(lambda v, s=s, t=t: z3.ULE(v(s), t), '%s <=u %s' % (nm(s), short(t)))
            if w <= 8:
                add(lambda v, s=s, s0=s0: v(s) == s0, '%s unchanged' % nm(s))
        for i, s in enumerate(sc):
            for t in sc[i + 1:]:
                s0, t0 = ve(s), ve(t)
                if s.size() not in (32, 64) or t.size() not in (32, 64):
                    continue
                add(lambda v, s=s, t=t, s0=s0, t0=t0: simp(sx64(v(s)) - sx64(v(t))) == simp(sx64(s0) - sx64(t0)),
                    '%s - %s constant' % (nm(s), nm(t)))
                add(lambda v, s=s, t=t, s0=s0, t0=t0: simp(sx64(v(s)) + sx64(v(t))) == simp(sx64(s0) + sx64(t0)),
                    '%s + %s constant' % (nm(s), nm(t)))
                for k in (8, 4) if nm(s).startswith('off') or nm(t).startswith('off') else ():
                    add(lambda v, s=s, t=t, s0=s0, t0=t0, k=k: simp(sx64(v(s)) * k - sx64(v(t))) ==
                        simp(sx64(s0) * k - sx64(t0)), '%d*%s - %s constant' % (k, nm(s), nm(t)))
                    add(lambda v, s=s, t=t, s0=s0, t0=t0, k=k: simp(sx64(v(t)) * k - sx64(v(s))) ==
                        simp(sx64(t0) * k - sx64(s0)), '%d*%s - %s constant' % (k, nm(t), nm(s)))
                add(lambda v, s=s, t=t: z3.ULE(sx64(v(s)), sx64(v(t))), '%s <= %s' % (nm(s), nm(t)))
                add(lambda v, s=s, t=t: z3.ULE(sx64(v(t)), sx64(v(s))), '%s <= %s' % (nm(t), nm(s)))
        # lists
        qs = [(lambda v, i=i: v.lists[i], 'list at %s+%d' % (x[0].name, x[1])) for i, x in enumerate(self.lists)] + \
             [(lambda v, i=i: v.arrs[i], 'elements at %s+%d' % (x[0].name, x[1])) for i, x in enumerate(self.arrcells)]
        for vs in [x for x in g.spots.values() if x.sort() == VS]:
            qs.append((lambda v, x=vs: v(x), nm(vs)))
        qs = [(q, d) for q, d in qs if q(vh) is not None and q(ve) is not None]
        for q, d in qs:
            q0 = q(ve)
            add(lambda v, q=q, q0=q0: eqv(q(v), q0), '%s unchanged' % d)
            add(lambda v, q=q, q0=q0: nn(q(v)), '%s not empty' % d)
            for s in sc:
                if s.size() in (32, 64):
                    s0 = ve(s)
                    add(lambda v, q=q, q0=q0, s=s, s0=s0: None if q(v) is None else
                        simp(sx64(v(s)) - llen(q(v))) == simp(sx64(s0) - llen(q0)), '%s counts %s' % (nm(s), d))
            for t in self.inv:
                if t.size() in (32, 64):
                    add(lambda v, q=q, t=t: None if q(v) is None else sx64(t) == llen(q(v)), '%s = |%s|' % (short(t), d))
        for i, (q, d) in enumerate(qs):
            for r, d2 in qs[i + 1:]:
                k0 = simp(llen(q(ve)) + llen(r(ve)))
                add(lambda v, q=q, r=r, k0=k0: None if q(v) is None or r(v) is None else
                    llen(q(v)) + llen(r(v)) == k0, '|%s|+|%s| constant' % (d, d2))
                add(lambda v, q=q, r=r: None if q(v) is None or r(v) is None else z3.ULE(llen(q(v)), llen(r(v))),
                    '|%s| <= |%s|' % (d, d2))
                add(lambda v, q=q, r=r: None if q(v) is None or r(v) is None else z3.ULE(llen(r(v)), llen(q(v))),
                    '|%s| <= |%s|' % (d2, d))
        # the specification of what is left to parse
        sp = ex.spec
        for key in vh.pp:
            if key not in ve.pp:
                continue
            fam, c0, m0, x0 = ve.pp[key]
            if fam == 'File':
                F0 = sp.files(c0)
                for q, d in qs:
                    tot = app(q(ve), F0)
                    add(lambda v, q=q, tot=tot, key=key: app(q(v), sp.files(v.pp[key][1])) == tot,
                        'messages so far + rest = all')
                continue
            r0 = sp.rest(None, fam, c0, m0, x0)

            def R(v, key=key, fam=fam):
                _, c, m, x = v.pp[key]
                return sp.rest(None, fam, c, m, x)
            add(lambda v, R=R, r0=r0: R(v)[0] == r0[0], 'errors left = all errors')
            add(lambda v, R=R, r0=r0: z3.Or(r0[0], R(v)[1] == r0[1]), 'end of the rest %s = end' % str(k if 'k' in locals() else key))
            for q, d in qs:
                tot = app(q(ve), r0[2])
                add(lambda v, R=R, q=q, tot=tot, r0=r0: z3.Or(r0[0], app(q(v), R(v)[2]) == tot),
                    '%s + rest = all' % d)
        # what is left to write
        if vh.log is not None and ve.log is not None and not vh.log.S.eq(ve.log.S):
            def rests(v):
                o = []
                for i, (b, off, t) in enumerate(self.lists):
                    o.append(('l%d' % i, {'List': 'List', 'ObjList': 'Obj'}[t.name], v.lists[i]))
                for i, (b, off, ab, E) in enumerate(self.arrcells):
                    for j, s in enumerate(sc):
                        if s.size() in (32, 64) and v.arrs[i] is not None:
                            o.append(('a%d_%d' % (i, j), self.famof(E), ex.T.drop(v.arrs[i], simp(sx64(v(s))))))
                return {k: (f, x) for k, f, x in o if x is not None}
            r0 = rests(ve)
            for k in rests(vh):
                if k not in r0:
                    continue
                fam, x0 = r0[k]
                e0 = EPS if x0.eq(VNULL) else encl(fam, x0)
                tot = cat(ve.log.S, e0)
                end0 = simp(ve.log.end + SLEN(e0))
                if not any(tot.eq(x[0]) for x in self.ends):
                    self.ends.append((tot, end0))

                def E(v, k=k, fam=fam):
                    x = rests(v)[k][1]
                    return EPS if x.eq(VNULL) else encl(fam, x)
                add(lambda v, E=E, tot=tot: cat(v.log.S, E(v)) == tot, 'written + rest %s = all' % k)
                add(lambda v, E=E, end0=end0: v.log.end + slen(E(v)) == end0, 'end of the rest %s = end' % str(k if 'k' in locals() else key))
                add(lambda v, E=E: z3.And(z3.ULE(v.log.end, v.log.end + slen(E(v))),
                                          z3.ULE(v.log.end + slen(E(v)), v.n)), 'the rest %s fits' % k)
            add(lambda v: v.cur == v.log.end, 'position = end of the output')
        for h in ex.loophints:
            out += h(self, g, vh, ve)
        return out

    # -- termination
    def termination(self, g, vh, vbs, lp):
        ex = self.ex
        ms = []
        sc = [v for v in g.spots.values() if z3.is_bv(v)]
        cur = None
        if self.buf is not None:
            cs = vh.st and self.cursor(vh.st)
            if cs is not None and cs.get_id() in g.spots:
                cur = cs
        for s in sorted(sc, key=lambda s: 0 if cur is not None and s.eq(cur) else 1):
            ms.append((lambda v, s=s: v(s), lambda a, b: z3.ULT(a, b), 'a count decreases'))
            ms.append((lambda v, s=s: v(s), lambda a, b: z3.UGT(a, b), 'a position increases'))
            ms.append((lambda v, s=s: v(s), lambda a, b: a < b, 'a count decreases'))
            ms.append((lambda v, s=s: v(s), lambda a, b: a > b, 'a count increases'))
        for i in range(len(self.lists)):
            ms.append((lambda v, i=i: None if v.lists[i] is None else llen(v.lists[i]), lambda a, b: z3.ULT(a, b),
                       'the rest of a list gets shorter'))
        for x in [x for x in g.spots.values() if x.sort() == VS]:
            ms.append((lambda v, x=x: llen(v(x)), lambda a, b: z3.ULT(a, b), 'the rest of a list gets shorter'))
        if cur is not None and ex.hint_parse is not None and ex.hint_parse[1] == 'clear':
            # every pass over the input consumes some of it
            ms = [(lambda v: v(cur), lambda a, b: z3.UGT(a, b), 'every pass consumes input')]
        best = None
        for f, rel, d in ms:
            ok = True
            for vb in vbs:
                a, b = f(vb), f(vh)
                if a is None or b is None or vb.st.decide(rel(a, b)) is not True:
                    ok = False
                    break
            if ok:
                best = (f, rel, d)
                break
        if best is None:
            if ms:
                for vb in vbs:
                    ex.prove(vb.st, ms[0][1](ms[0][0](vb), ms[0][0](vh)) if ms[0][0](vb) is not None and
                             ms[0][0](vh) is not None else FALSE, 'term', 'the loop makes progress: ' + ms[0][2], None,
                             False)
            else:
                for vb in vbs:
                    ex.prove(vb.st, FALSE, 'term', 'the loop makes progress', None, False)
            return
        for vb in vbs:
            ex.prove(vb.st, best[1](best[0](vb), best[0](vh)), 'term', 'the loop makes progress: ' + best[2], None,
                     False)


def eqv(a, b):
    if a is None or b is None:
        return None
    return a == b


def nn(a):
    return None if a is None else a != VNULL


def short(t):
    s = str(t).replace('\n', ' ')
    return s if len(s) < 30 else s[:27] + '...'
