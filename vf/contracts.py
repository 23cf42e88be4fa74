"""Contracts of the library's functions, keyed by function name, and their verification conditions."""
import core
import z3
from core import *
from types_ import *
from spec import *
from ir import Unsupported, Func


def forking(ex, st, fn):
    """run fn on st, splitting on demand"""
    work = [st]
    while work:
        s = work.pop()
        snap = s.copy()
        try:
            fn(s)
        except Fork as f:
            for c in f.conds:
                s2 = snap.copy()
                s2.add(c)
                if ex.ps.check(s2.pc) != z3.unsat:
                    work.append(s2)
        except Dead:
            pass


class Contract:
    name = '?'
    modes = (None,)
    rec = False

    def callable_by(self, ex, f):
        return True

    def hints(self, ex, st):
        return []


class BufView:
    pass


def buf_view(ex, st, p, ins):
    tt = ex.T
    o = ex.need_obj(st, p, ins, 'buffer argument')
    if cint(p.off) != 0 or o.cells is None:
        raise Unsupported('buffer argument')
    v = BufView()
    v.base = p.base
    g = lambda f: ex.cell_load(st, o, tt.bo[f], tt.bz[f], ('ptr',) if f in ('buffer', 'error_msg') else
                               ('i', 8 * tt.bz[f]))
    v.bytes, v.n, v.cur, v.err = g('buffer'), g('buffer_len'), g('cursor'), g('error')
    if not isinstance(v.bytes, Ptr) or any(isinstance(x, Undef) for x in (v.n, v.cur, v.err)):
        ex.fail(st, 'pre', 'buffer argument is not initialised', ins)
    if cint(v.bytes.off) != 0:
        raise Unsupported('buffer bytes')
    return v


def set_buf(ex, st, v, cur=None, err=None):
    tt = ex.T
    o = st.wobj(v.base)
    if cur is not None:
        ex.cell_store(o, tt.bo['cursor'], tt.bz['cursor'], simp(cur))
    if err is not None:
        ex.cell_store(o, tt.bo['error'], tt.bz['error'], err)


def mkbuf(ex, st, n, cur, err, content, ro, log=None):
    tt = ex.T
    b = Base('buf', 'param')
    by = Base('bytes', 'param')
    o = Obj(tt.bufsize, 'param', cells={})
    o.cells[tt.bo['buffer']] = (8, Ptr(by))
    o.cells[tt.bo['buffer_len']] = (tt.bz['buffer_len'], n)
    o.cells[tt.bo['cursor']] = (tt.bz['cursor'], cur)
    o.cells[tt.bo['error']] = (tt.bz['error'], err)
    o.cells[tt.bo['error_msg']] = (8, NULL)
    st.objs[b] = o
    so = Obj(n, 'param', content=content, ro=ro)
    so.log = log
    st.objs[by] = so
    return Ptr(b), Ptr(by)


def parse_content():
    return CFun(lambda s, i: Bt(i), tag=('B',))


def bind(ex, st, v, ins):
    """the buffer's contents are B[0..N)"""
    o = ex.need_obj(st, v.bytes, ins, 'buffer bytes')
    if o.content is None:
        o = ex.tobytes(st, v.bytes.base, o)
    tag = getattr(o.content, 'tag', None)
    if tag == ('B',) and v.n.eq(N):
        return
    done = st.ghost.get('bound', ())
    if any(x is o.content for x in done) and v.n.eq(N):
        return
    ex.prove(st, v.n == N, 'pre', 'the buffer has the length of the input', ins)
    i = fbv('ix', 64)
    s2 = st.copy()
    s2.add(z3.ULT(i, N))
    ex.prove(s2, o.content.get(s2, i) == Bt(i), 'pre', 'the buffer holds the input bytes', ins)
    st.ghost['bound'] = done + (o.content,)


def check_buf(ex, st, v, ins):
    o = ex.need_obj(st, v.bytes, ins, 'buffer bytes')
    ex.prove(st, z3.And(z3.ULE(v.n, INTMAX), z3.ULE(v.cur, v.n), o.sz() == v.n if not (
        z3.is_expr(o.size) and o.size.eq(v.n)) else TRUE), 'pre', 'buffer argument is consistent', ins)


def leak_check(ex, st, what='', ins=None):
    """nothing owned may remain"""
    bad = []
    for b, o in st.objs.items():
        if o.kind in ('heap', 'raw') and b.kind not in ('global', 'param', 'alloca'):
            bad.append(b.name)
    for b, c in st.chunks.items():
        if isinstance(c, (Own, UOwn)):
            if isinstance(c, Own) and c.T.name == 'OctBuf':
                if st.decide(b.term == 0) is True:
                    continue
            if st.decide(c.v == VNULL) is True:
                continue
        elif isinstance(c, PArrOwn):
            if st.decide(llen(c.L) == 0) is True:
                continue
        bad.append(b.name)
    if bad:
        ex.fail(st, 'own', 'memory is never released%s: %s' % (what, ', '.join(sorted(bad)[:4])), ins)
    ex.ok(st, 'own', 'no allocation is left over%s' % what)


def veq(ex, st, v, want, tag, desc):
    """prove v == want, octet strings extensionally"""
    c = st.octc.get(v.get_id())
    if c is not None:
        s = st.copy()
        n = octlen(want)
        if not ex.prove(s, z3.And(want != VNULL, octlen(v) == n), tag, desc + ' (length)'):
            return False
        i = fbv('ix', 64)
        s.add(z3.ULT(i, z3.SignExt(32, n)))
        if want.decl().name() == 'val_Oct':
            o = want.arg(0)
            w = ex.T.octOf(tlcur(o), tllen(o))
            s.add(octb(w, i) == Bt(tlcur(o) + i))
        return ex.prove(s, c[2].get(s, i) == ex.T.octbyte(s, want, i), tag, desc + ' (bytes)')
    # records that contain such strings: equate the closures first
    return ex.prove(st, v == want, tag, desc)


def frame_params(ex, st, snap, allow):
    """param objects keep their contents except for the allowed (base, offset)"""
    for b, o0 in snap.items():
        o = st.objs.get(b)
        if o is o0:
            continue
        if o is None:
            ex.fail(st, 'frame', 'a caller-owned object was released')
        if o.cells is not None and o0.cells is not None:
            for off in set(o.cells) | set(o0.cells):
                if (b, off) in allow:
                    continue
                x, y = o.cells.get(off), o0.cells.get(off)
                same = x is not None and y is not None and x[0] == y[0] and (
                    x[1] is y[1] or (isinstance(x[1], Ptr) and isinstance(y[1], Ptr) and
                                     x[1].base is y[1].base and x[1].off.eq(y[1].off)) or
                    (z3.is_expr(x[1]) and z3.is_expr(y[1]) and st.decide(x[1] == y[1]) is True))
                if not same:
                    ex.fail(st, 'frame', 'a field of the argument that must not change was changed (offset %d)' % off)
    ex.ok(st, 'frame', 'only the allowed fields change')


def start(ex, f, st, args):
    fr = Frame(f)
    if len(args) != len(f.params):
        raise Unsupported('%s: unexpected parameters' % f.name)
    for (t, r), a in zip(f.params, args):
        fr.regs[r] = a
    st.frames = [fr]


# ------------------------------------------------------------------------------
class TLRead(Contract):
    name = 'sml_buf_get_next_length'

    def apply(self, ex, st, args, ins):
        v = buf_view(ex, st, args[0], ins)
        check_buf(ex, st, v, ins)
        bind(ex, st, v, ins)
        c = simp(v.cur)
        st.add(*tl_facts(c))
        out = []
        bad = st.copy()
        bad.add(tlerr(c))
        if bad.decide(FALSE) is None or True:
            c1, e1 = fbv('cur', 64), fbv('err', 32)
            bad.add(z3.ULE(c, c1), z3.ULE(c1, N), e1 != 0)
            set_buf(ex, bad, v, c1, e1)
            out.append((bad, BV(-1, 32)))
        st.add(z3.Not(tlerr(c)))
        set_buf(ex, st, v, tlcur(c))
        out.append((st, tllen(c)))
        return [x for x in out if x[0].feasible()]

    def verify(self, ex, f):
        st = State(ex)
        c, e0 = z3.BitVec('c', 64), z3.BitVec('e0', 32)
        st.add(z3.ULE(N, INTMAX), z3.ULE(c, N))
        p, by = mkbuf(ex, st, N, c, e0, parse_content(), True)
        snap = dict(st.objs)
        st.add(*tl_def(c))
        start(ex, f, st, [p])
        tt = ex.T
        for kind, s, r in ex.run(st):
            v = buf_view(ex, s, p, None)
            ex.prove(s, z3.Implies(tlerr(c), z3.And(v.err != 0, r == -1)), 'err',
                     'a malformed type-length field is reported')
            ex.prove(s, z3.Implies(z3.Not(tlerr(c)), v.err == e0), 'err', 'a well-formed one sets no error')
            ex.prove(s, z3.Implies(z3.Not(tlerr(c)), r == tllen(c)), 'tl', 'length equals the encoded length')
            ex.prove(s, z3.Implies(z3.Not(tlerr(c)), v.cur == tlcur(c)), 'cur', 'exactly the field is consumed')
            ex.prove(s, z3.And(z3.ULE(c, v.cur), z3.ULE(v.cur, N)), 'cur', 'position stays inside the data')
            for g in tl_facts(c):
                ex.prove(s, g, 'cur', 'progress facts follow from the definition')
            frame_params(ex, s, snap, {(p.base, tt.bo['cursor']), (p.base, tt.bo['error'])})
            leak_check(ex, s)


class ParseC(Contract):
    def __init__(self, name, k, depth=False, weak=True):
        self.name, self.k, self.depth, self.weak = name, k, depth, weak
        self.tags = None
        self.rec = depth

    def pspec(self, ex, st, args, ins):
        if self.k == 'num':
            t = ex.intv(st, args[1], ins)
            m = ex.intv(st, args[2], ins)
            w = ex.conc(st, m, 4)
            if w not in (1, 2, 4, 8):
                ex.fail(st, 'pre', 'number width is 1, 2, 4 or 8', ins)
            return ex.spec.num(w, t)
        if self.depth:
            return ex.spec.ps(self.k, args[1])
        if self.k == 'seq':
            E = ex.elem_of(args[1], 'parse')
            E2 = ex.T.elem_of_free(ex, args[2].base) if isinstance(args[2], Ptr) and args[2].base else None
            if E is None:
                raise Unsupported('unknown element parser')
            if E2 is None or E2 is not ex.T.T[E]:
                ex.fail(st, 'pre', 'the release function fits the element parser', ins)
            return ex.spec.ps('Seq:' + E)
        return ex.spec.ps(self.k)

    def apply(self, ex, st, args, ins):
        v = buf_view(ex, st, args[0], ins)
        check_buf(ex, st, v, ins)
        bind(ex, st, v, ins)
        p = self.pspec(ex, st, args, ins)
        if self.depth and ex.fname == self.name:
            d0 = ex.measure0
            ex.prove(st, z3.And(d0 > 0, args[1] < d0), 'term', 'the recursion depth decreases', ins)
        elif ex.inscc(self.name):
            ex.fail(st, 'term', 'recursion without a measure', ins)
        c = simp(v.cur)
        d = st.decide(v.err == 0)
        if d is None:
            raise Fork([v.err == 0, v.err != 0])
        out = []
        c1 = fbv('cur', 64)
        if d is False:
            if not self.weak:
                ex.fail(st, 'pre', 'no error is pending', ins)
            e1 = fbv('err', 32)
            st.add(z3.ULE(c, c1), z3.ULE(c1, N), e1 != 0)
            q = ex.T.produce(st, p.T, fresh('any', VS), 'res')
            set_buf(ex, st, v, c1, e1)
            return q
        st.add(*ex.spec.ens(p, c))
        bad = st.copy()
        e1 = fbv('err', 32)
        bad.add(p.err(c), z3.ULE(c, c1), z3.ULE(c1, N), e1 != 0)
        set_buf(ex, bad, v, c1, e1)
        if bad.feasible():
            out.append((bad, NULL))
        st.add(z3.Not(p.err(c)))
        set_buf(ex, st, v, p.cur(c))
        q = ex.T.produce(st, p.T, p.val(c), 'res')
        if st.feasible():
            out.append((st, q))
        return out

    def extra_args(self, ex, st, f, case):
        """-> (args after buf, PS)"""
        if self.k == 'num':
            w, t = case
            ty = f.params[1][0][1]
            return [BV(t, ty) if ty == 8 else BV(t, ty), BV(w, 32)], ex.spec.num(w, BV(t, 8))
        if self.depth:
            d = z3.BitVec('depth', 32)
            ex.measure0 = d
            return [d], ex.spec.ps(self.k, d)
        if self.k == 'seq':
            pb = Base('elem_parse', 'func')
            pc = ex.reg.elem_parse
            pb.info = ('parse', 'Elem')
            pb.fn = lambda ex_, s, av, ins: pc.apply(ex_, s, av, ins)
            return [Ptr(pb), ex.T.elem_free_ptr(ex.T.T['Elem'])], ex.spec.ps('Seq:Elem')
        return [], ex.spec.ps(self.k)

    def cases(self):
        if self.k == 'num':
            return [(w, t) for w in (1, 2, 4, 8) for t in (INT, UINT)]
        return [None]

    def verify(self, ex, f):
        for case in self.cases():
            for mode in ('clear', 'pending') if self.weak else ('clear',):
                if self.k == 'num' and mode == 'pending' and case != (8, INT):
                    pass
                self.verify1(ex, f, case, mode)

    def verify1(self, ex, f, case, mode):
        st = State(ex)
        c = z3.BitVec('c', 64)
        e0 = BV(0, 32) if mode == 'clear' else z3.BitVec('e0', 32)
        st.add(z3.ULE(N, INTMAX), z3.ULE(c, N))
        if mode != 'clear':
            st.add(e0 != 0)
        p, by = mkbuf(ex, st, N, c, e0, parse_content(), True)
        snap = dict(st.objs)
        xa, ps = self.extra_args(ex, st, f, case)
        ex.cur_ps = ps
        if mode == 'clear':
            st.add(*tl_facts(c))
            if ps.name.startswith('num') or ps.name in ('Oct', 'bool', 'Status', 'Value', 'Time'):
                pass
            ex.spec.define(st, ps, c)
        start(ex, f, st, [p] + xa)
        ex.hint_parse = (p, mode)
        tt = ex.T
        allow = {(p.base, tt.bo['cursor']), (p.base, tt.bo['error'])}
        nm = ps.name
        for kind, s, r in ex.run(st):
            def post(s):
                v = buf_view(ex, s, p, None)
                tt.why = None
                if r is None or isinstance(r, Undef):
                    ex.fail(s, 'mem', 'the result is not initialised')
                val = tt.take(ex, s, r, ps.T, None)
                if val is None:
                    ex.fail(s, 'own', 'the result is not a complete %s: %s' % (ps.T, tt.why))
                ex.ok(s, 'own', 'the result is a complete, separately owned %s' % ps.T)
                ex.prove(s, z3.And(z3.ULE(c, v.cur), z3.ULE(v.cur, N)), 'cur', 'position stays inside the data')
                if mode == 'clear':
                    ex.prove(s, z3.Implies(ps.err(c), v.err != 0), 'err', '%s: a malformed element is reported' % nm)
                    ex.prove(s, z3.Implies(z3.Not(ps.err(c)), v.err == 0), 'err',
                             '%s: a well-formed element sets no error' % nm)
                    ex.prove(s, z3.Implies(ps.err(c), val == VNULL), 'nul', '%s: no object after an error' % nm)
                    ok = s.copy()
                    ok.add(z3.Not(ps.err(c)))
                    if ok.feasible():
                        ex.prove(ok, v.cur == ps.cur(c), 'cur', '%s: exactly the element is consumed' % nm)
                        veq(ex, ok, val, ps.val(c), 'val', '%s: the object equals the encoded one' % nm)
                        self.postflag(ex, ok, c, ps, True)
                        for g in ex.spec.ens(ps, c):
                            ex.prove(ok, g, 'cur', 'progress facts follow from the definition')
                else:
                    ex.prove(s, v.err != 0, 'err', '%s: a pending error is kept' % nm)
                self.postflag(ex, s, c, ps, False)
                frame_params(ex, s, snap, allow)
                leak_check(ex, s)
            forking(ex, s, post)
        ex.hint_parse = None

    def postflag(self, ex, s, c, ps, ok):
        pass

    def hints(self, ex, st):
        return []


class ListEntryC(ParseC):
    """sml_list_entry_parse(buf, workarounds): bit 0 of *workarounds is the meter flag"""

    def __init__(self, name):
        ParseC.__init__(self, name, 'ListEntry')

    def flag(self, ex, st, p, ins):
        o = ex.need_obj(st, p, ins, 'workaround state')
        if o.cells is None or cint(p.off) is None:
            raise Unsupported('workaround state')
        b = ex.cell_byte(o, cint(p.off))
        if b is None:
            ex.fail(st, 'mem', 'the workaround state is not initialised', ins)
        return b

    def apply(self, ex, st, args, ins):
        b = self.flag(ex, st, args[1], ins)
        w = simp((b & 1) == 1)
        v = buf_view(ex, st, args[0], ins)
        c = simp(v.cur)
        self._w = w
        out = ParseC.apply(self, ex, st, args, ins)
        w2 = ex.spec.flag2(w, c)
        res = out if isinstance(out, list) else [(st, out)]
        for s, q in res:
            err = s.decide(buf_view(ex, s, args[0], ins).err != 0) is True
            x = z3.If(w2, BV(1, 8), BV(0, 8)) if not err else (fbv('w', 8) & 1)
            o = s.wobj(args[1].base)
            ex.cell_store(o, cint(args[1].off), 1, simp((b & 0xfe) | x))
            if not err:
                # a single, unlinked entry
                val = ex.spec.ps('ListEntry', w).val(c)
                one = cons(HD(val), VNULL)
                s.add(val == one, TL_(val) == VNULL, LLEN(one) == 1)
                if q.base is not None:
                    s.chunks[q.base] = Own(ex.T.T['List'], one)
        return out

    def pspec(self, ex, st, args, ins):
        return ex.spec.ps('ListEntry', self._w)

    def verify1(self, ex, f, case, mode):
        for w0 in (FALSE, TRUE):
            self.w0 = w0
            ParseC.verify1(self, ex, f, case, mode)

    def extra_args(self, ex, st, f, case):
        b = Base('workarounds', 'param')
        o = Obj(4, 'param', cells={})
        x = z3.BitVec('w0', 32)
        o.cells[0] = (4, x)
        st.add(((x & 1) == 1) == self.w0)
        st.objs[b] = o
        self.wb = b
        self.x = x
        return [Ptr(b)], ex.spec.ps('ListEntry', self.w0)

    def postflag(self, ex, s, c, ps, ok):
        o = s.objs[self.wb]
        w = ex.cell_load(s, o, 0, 4, ('i', 32))
        if isinstance(w, Undef):
            ex.fail(s, 'mem', 'the workaround state is not initialised afterwards')
        ex.prove(s, w & 0xfffffffe == self.x & 0xfffffffe, 'frame', 'nothing but the meter flag changes in the state')
        if ok:
            ex.prove(s, ((w & 1) == 1) == ex.spec.flag2(self.w0, c), 'val',
                     'the meter flag is set exactly after the serial number of an affected meter')


class FreeC(Contract):
    def __init__(self, name, tn):
        self.name, self.tn = name, tn
        self.rec = tn == 'Tree'

    def T(self, ex, st, p):
        if self.tn == 'AnyNum':
            return 'AnyNum'
        if self.tn == 'Seq':
            c = st.chunks.get(p.base) if p.base is not None else None
            if isinstance(c, Own) and c.T.name.startswith('Seq:'):
                return c.T
            o = st.objs.get(p.base)
            if o is not None and o.cells is not None:
                t = ex.T.T['Seq:Elem']
                x = o.cells.get(t.byname['elem_free'].off)
                if x is not None and isinstance(x[1], Ptr) and x[1].base is not None:
                    E = ex.T.elem_of_free(ex, x[1].base)
                    if E is not None and 'Seq:' + E.name in ex.T.T:
                        return ex.T.T['Seq:' + E.name]
            return ex.T.T['Seq:Elem']
        return ex.T.T[self.tn]

    def apply(self, ex, st, args, ins):
        p = args[0]
        if not isinstance(p, Ptr):
            raise Unsupported('free of a non-pointer')
        if p.base is None and cint(p.off) == 0:
            return None
        s2 = st.copy()
        ex.T.why = None
        T = self.T(ex, s2, p)
        v = ex.T.take(ex, s2, p, T, ins)
        if v is None:
            if p.base in st.freed:
                ex.fail(st, 'own', 'use after free (argument of %s)' % self.name, ins)
            if p.base is not None and p.base.kind != 'sym' and p.base not in st.objs:
                ex.fail(st, 'own', '%s: argument is not owned (%s)' % (self.name, ex.T.why), ins)
            if p.base is not None and p.base in st.gone:
                ex.fail(st, 'own', '%s: argument is not owned any more (%s)' % (self.name, ex.T.why), ins)
            if self.name == ex.fname or ex.inscc(self.name):
                ex.fail(st, 'own', '%s: argument is not a complete object (%s)' % (self.name, ex.T.why), ins)
            if p.base not in st.objs and p.base not in st.chunks:
                ex.fail(st, 'own', '%s: argument is not owned (%s)' % (self.name, ex.T.why), ins)
            raise InlineCall()
        if ex.inscc(self.name):
            ex.prove(s2, z3.Or(v == VNULL, z3.ULT(rank(v), ex.rank0)), 'term', 'recursion only on a part of the object', ins)
        ex.T.adopt(st, s2)
        if p.base is not None:
            st.gone = st.gone | {p.base}
        ex.ok(st, 'own', '%s: the argument is owned and given up' % self.name, ins)
        return None

    def verify(self, ex, f):
        if self.tn == 'AnyNum':
            ts = [ex.T.T['Num%d' % w] for w in (1, 2, 4, 8)]
        elif self.tn == 'Seq':
            ts = [ex.T.T['Seq:Elem']]
        else:
            ts = [ex.T.T[self.tn]]
        for T in ts:
            st = State(ex)
            v = z3.Const('v0', VS)
            if ex.inscc(self.name):
                ex.rank0 = rank(v)
            p = ex.T.produce(st, T, v, 'arg')
            start(ex, f, st, [p])
            for kind, s, r in ex.run(st):
                forking(ex, s, lambda s: leak_check(ex, s, ' by %s' % self.name))


class WriteC(Contract):
    """k: grammar kind; nullok: a NULL argument is written as an absent optional"""

    def __init__(self, name, k, nullok=True, argpos=0, bufpos=1):
        self.name, self.k, self.nullok, self.argpos, self.bufpos = name, k, nullok, argpos, bufpos
        self.rec = k == 'Tree'

    def T(self, ex, args):
        k = self.k
        if k in NUMS:
            return ex.T.T['Num%d' % NUMS[k][0]]
        if k == 'bool':
            return ex.T.T['Num1']
        if k == 'seq':
            E = ex.elem_of(args[2], 'write')
            if E is None:
                raise Unsupported('unknown element writer')
            return ex.T.T['Seq:' + E]
        return ex.T.T[k]

    def borrow(self, ex, st, p, T, ins):
        """value of *p; the object stays owned"""
        if p.base is None:
            if cint(p.off) == 0:
                return VNULL
            ex.fail(st, 'own', 'invalid pointer written', ins)
        c = st.chunks.get(p.base)
        if isinstance(c, Own) and c.T is T and cint(p.off) == 0:
            return c.v
        s2 = st.copy()
        ex.T.why = None
        v = ex.T.take(ex, s2, p, T, ins)
        if v is None:
            if p.base in st.freed:
                ex.fail(st, 'own', 'use after free (argument of %s)' % self.name, ins)
            ex.fail(st, 'own', '%s: the argument is not a complete %s (%s)' % (self.name, T, ex.T.why), ins)
        ex.T.adopt(st, s2)
        if isinstance(c, UOwn):
            st.chunks[p.base] = c
        elif not v.eq(VNULL):
            st.chunks[p.base] = Own(T, v)
        return v

    def out(self, ex, st, v, args, T):
        if self.k == 'seq':
            return ex.enc.kind(T.name, v)
        return ex.enc.kind(self.k, v)

    def apply(self, ex, st, args, ins):
        bv = buf_view(ex, st, args[self.bufpos], ins)
        o = ex.need_obj(st, bv.bytes, ins, 'output bytes')
        if o.log is None:
            if getattr(ex, 'bytelevel', False):
                raise InlineCall()
            raise Unsupported('output buffer without a log')
        T = self.T(ex, args)
        v = self.borrow(ex, st, args[self.argpos], T, ins)
        if not self.nullok:
            ex.prove(st, v != VNULL, 'mem', '%s: the argument is not NULL' % self.name, ins)
        if ex.inscc(self.name):
            ex.prove(st, z3.Or(v == VNULL, z3.ULT(rank(v), ex.rank0)), 'term', 'recursion only on a part of the object', ins)
        s = self.out(ex, st, v, args, T)
        self.emit(ex, st, bv, s, ins)

    def emit(self, ex, st, bv, s, ins):
        o = st.objs[bv.bytes.base]
        ex.prove(st, bv.cur == o.log.end, 'enc', 'written at the current end of the output', ins)
        st.add(*sfacts(s))
        end = simp(bv.cur + slen(s))
        self.use_chain(st, simp(bv.cur), end)
        ex.prove(st, z3.And(z3.ULE(bv.cur, end), z3.ULE(end, bv.n), z3.ULE(bv.n, o.sz()) if not (
            z3.is_expr(o.size) and o.size.eq(bv.n)) else TRUE), 'cap', '%s: the encoding fits' % self.name, ins)
        o = st.wobj(bv.bytes.base)
        o.log = o.log.add(s)
        set_buf(ex, st, bv, cur=o.log.end)

    def use_chain(self, st, cur, end):
        """instantiate the room hypotheses that speak about this position"""
        for cond, fs in st.ghost.get('chain', ()):
            i = next((i for i, f in enumerate(fs) if f.arg(0).arg(0).eq(cur)), None)
            if i is None:
                continue
            j = next((j for j in range(i, len(fs)) if fs[j].arg(0).arg(1).eq(end)), None)
            if j is None or st.decide(cond) is not True:
                continue
            st.add(*fs[i:j + 1])

    def room(self, ex, st, c, n, alts):
        for cond, s in alts:
            st.add(*sfacts(s))
            pos = c
            fs = []
            for a in atoms(s):
                p2 = simp(pos + slen1(a))
                fs.append(z3.And(z3.ULE(pos, p2), z3.ULE(p2, n)))
                pos = p2
            if fs:
                st.add(z3.Implies(cond, z3.And(*fs)))
                st.ghost['chain'] = st.ghost.get('chain', ()) + ((cond, tuple(fs)),)

    def prepare(self, ex, f):
        st = State(ex)
        c, n = z3.BitVec('c', 64), z3.BitVec('n', 64)
        st.add(z3.ULE(n, INTMAX), z3.ULE(c, n))
        out0 = z3.Function('out0', B64, B8)
        p, by = mkbuf(ex, st, n, c, z3.BitVec('e0', 32), CFun(lambda s, i: out0(i)), False, Log(c, EPS, c))
        return st, c, n, p, by

    def verify(self, ex, f):
        st, c, n, p, by = self.prepare(ex, f)
        v = z3.Const('v0', VS)
        k = self.k
        T = ex.T.T['Seq:Elem'] if k == 'seq' else self.T(ex, None)
        a = ex.T.produce(st, T, v, 'arg')
        if not self.nullok:
            st.add(v != VNULL)
        if ex.inscc(self.name):
            ex.rank0 = rank(v)
        args = [None, None]
        args[self.argpos] = a
        args[self.bufpos] = p
        if k == 'seq':
            wb = Base('elem_write', 'func')
            wc = ex.reg.elem_write
            wb.info = ('write', 'Elem')
            wb.fn = lambda ex_, s, av, ins: wc.apply(ex_, s, av, ins)
            args.append(Ptr(wb))
            k = 'Seq:Elem'
            ex.nn_elems = True
        ex.wellformed(st, k, v)
        alts = ex.enc.alts(st, k, v)
        ex.enc.define(st, k, v)
        self.room(ex, st, c, n, alts)
        want = ex.enc.kind(k, v)
        ex.hint_write = (p, by, want)
        self.run(ex, f, st, args, p, by, c, v, a, T, want)

    def run(self, ex, f, st, args, p, by, c, v, a, T, want):
        snap = {b: o for b, o in st.objs.items()}
        start(ex, f, st, args)
        tt = ex.T
        for kind, s, r in ex.run(st):
            def post(s):
                bv = buf_view(ex, s, p, None)
                o = s.objs[by.base]
                ex.prove(s, o.log.S == want, 'enc', '%s: exactly the encoding is written' % self.name)
                ex.prove(s, bv.cur == o.log.end, 'enc', '%s: the position advances by the encoded length' % self.name)
                tt.why = None
                v2 = tt.take(ex, s, a, T, None)
                if v2 is None:
                    ex.fail(s, 'own', 'the written object is not intact (%s)' % tt.why)
                ex.prove(s, v2 == v, 'frame', 'the written object keeps its value')
                frame_params(ex, s, snap, {(p.base, tt.bo['cursor'])})
                leak_check(ex, s)
            forking(ex, s, post)


class NumWriteC(WriteC):
    """sml_number_write(np, type, size, buf)"""

    def __init__(self, name):
        WriteC.__init__(self, name, 'num', True, 0, 3)

    def apply(self, ex, st, args, ins):
        bv = buf_view(ex, st, args[3], ins)
        o = ex.need_obj(st, bv.bytes, ins, 'output bytes')
        if o.log is None:
            raise Unsupported('output buffer without a log')
        p = args[0]
        w, t = cint(simp(ex.intv(st, args[2], ins))), cint(simp(ex.intv(st, args[1], ins)))
        for k, (w2, t2) in NUMS.items():
            if w2 == w and t2 == t:
                # widths and types with a name share its encoding function
                v = self.borrow(ex, st, p, ex.T.T['Num%d' % w], ins)
                ex.enc.define(st, k, v)
                return self.emit(ex, st, bv, ex.enc.kind(k, v), ins)
        nc = ex.nullcond(p)
        d = st.decide(nc)
        if d is None:
            raise Fork([nc, z3.Not(nc)])
        if d:
            return self.emit(ex, st, bv, BYTE(BV(1, 8)), ins)
        w = ex.conc(st, ex.intv(st, args[2], ins), 16)
        if w not in (1, 2, 4, 8):
            ex.fail(st, 'mem', 'a number of width %d is written' % w, ins)
        T = ex.T.T['Num%d' % w]
        v = self.borrow(ex, st, p, T, ins)
        t = simp(ex.intv(st, args[1], ins))
        tc = cint(t)
        if tc is None:
            ex.prove(st, z3.Or(t == INT, t == UINT), 'pre', 'the type of a number is integer or unsigned', ins)
        elif tc not in (INT, UINT):
            ex.fail(st, 'pre', 'the type of a number is integer or unsigned', ins)
        self.emit(ex, st, bv, ex.enc.num(st, w, t, v), ins)

    def verify(self, ex, f):
        for w in (1, 2, 4, 8):
            for t in (INT, UINT):
                self.one(ex, f, w, t, False)
        self.one(ex, f, 4, UINT, True)

    def one(self, ex, f, w, t, null):
        ex.bytelevel = True
        st = State(ex)
        c, n = z3.BitVec('c', 64), z3.BitVec('n', 64)
        ln = 1 if null else w + 1
        st.add(z3.ULE(n, INTMAX), z3.ULE(c, n), z3.ULE(BV(ln, 64), n - c))
        out0 = z3.Function('out0', B64, B8)
        p, by = mkbuf(ex, st, n, c, z3.BitVec('e0', 32), CFun(lambda s, i: out0(i)), False)
        snap = {b: o for b, o in st.objs.items()}
        v = z3.Const('v0', VS)
        T = ex.T.T['Num%d' % w]
        if null:
            a = NULL
        else:
            st.add(v != VNULL)
            a = ex.T.produce(st, T, v, 'arg')
        ty = f.params[1][0][1]
        start(ex, f, st, [a, BV(t, ty), BV(w, 32), p])
        bits = nbits(w)(v)
        want = [BV(1, 8)] if null else [BV(t | (w + 1), 8)] + [z3.Extract(8 * k + 7, 8 * k, bits) for k in
                                                               reversed(range(w))]
        for kind, s, r in ex.run(st):
            def post(s):
                self.bytes_post(ex, s, p, by, c, out0, [simp(x) for x in want], snap)
                if not null:
                    v2 = ex.T.take(ex, s, a, T, None)
                    if v2 is None:
                        ex.fail(s, 'own', 'the written object is not intact')
                    ex.prove(s, v2 == v, 'frame', 'the written object keeps its value')
                leak_check(ex, s)
            forking(ex, s, post)
        ex.bytelevel = False

    def bytes_post(self, ex, s, p, by, c, out0, want, snap):
        bv = buf_view(ex, s, p, None)
        o = s.objs[by.base]
        for k, w in enumerate(want):
            ex.prove(s, o.content.get(s, simp(c + k)) == w, 'enc', 'byte %d of the encoding' % k)
        ex.prove(s, bv.cur == c + len(want), 'enc', 'the position advances by the encoded length')
        i = fbv('ix', 64)
        s2 = s.copy()
        s2.add(z3.Or(z3.ULT(i, c), z3.UGE(i, c + len(want))))
        ex.prove(s2, o.content.get(s2, i) == out0(i), 'enc', 'all other bytes are unchanged')
        frame_params(ex, s, snap, {(p.base, ex.T.bo['cursor'])})


class TLWriteC(NumWriteC):
    """sml_buf_set_type_and_length(buf, type, l)"""

    def __init__(self, name):
        WriteC.__init__(self, name, 'tl', True, 1, 0)

    def apply(self, ex, st, args, ins):
        bv = buf_view(ex, st, args[0], ins)
        o = ex.need_obj(st, bv.bytes, ins, 'output bytes')
        if o.log is None:
            if getattr(ex, 'bytelevel', False):
                raise InlineCall()
            raise Unsupported('output buffer without a log')
        t, l = zx(ex.intv(st, args[1], ins), 32), zx(ex.intv(st, args[2], ins), 32)
        t = simp(t)
        if cint(t) not in (OCT, BOOLT, INT, UINT, LIST):
            raise Unsupported('type-length field of a variable type')
        if cint(simp(l)) is None:
            ex.prove(st, z3.ULT(l, BV(1 << 31, 32)), 'pre', 'the length is not negative', ins)
        if cint(t) == LIST:
            # in the terms of the specification
            for x in ex.enc.counts:
                if simp(x).eq(simp(l)):
                    break
                if cint(simp(l)) is not None and not self.expects(st, bv, slen1(TLS(t, x))):
                    continue
                if st.decide(x == l) is True:
                    l = x
                    break
        self.emit(ex, st, bv, tl(t, l), ins)

    def expects(self, st, bv, n):
        cur = simp(bv.cur)
        end = simp(cur + n)
        return any(f.arg(0).arg(0).eq(cur) and f.arg(0).arg(1).eq(end)
                   for cond, fs in st.ghost.get('chain', ()) for f in fs)

    def verify(self, ex, f):
        for t in (OCT, BOOLT, INT, UINT, LIST):
            self.onetl(ex, f, t)

    def onetl(self, ex, f, t):
        ex.bytelevel = True
        st = State(ex)
        c, n = z3.BitVec('c', 64), z3.BitVec('n', 64)
        l = z3.BitVec('l', 32)
        st.add(z3.ULE(n, INTMAX), z3.ULE(c, n), z3.ULT(l, BV(1 << 31, 32)))
        size = BV(8, 64)
        m = z3.ZeroExt(32, l)
        lead = 0
        for k in range(7, 0, -1):
            v = m if t == LIST else m + k
            size = z3.If(z3.ULT(v, BV(16 ** k, 64)), BV(k, 64), size)
        st.add(z3.ULE(size, n - c))
        out0 = z3.Function('out0', B64, B8)
        p, by = mkbuf(ex, st, n, c, z3.BitVec('e0', 32), CFun(lambda s, i: out0(i)), False)
        snap = {b: o for b, o in st.objs.items()}
        ty = f.params[1][0][1]
        start(ex, f, st, [p, BV(t, ty), l])
        for kind, s, r in ex.run(st):
            def post(s):
                k = ex.pick(s, size, 8)
                v = m if t == LIST else m + k
                want = []
                for i in range(k):
                    sh = 4 * (k - 1 - i)
                    nib = z3.ZeroExt(4, z3.Extract(sh + 3, sh, v))
                    want.append(simp(nib | (t if i == 0 else 0) | (0x80 if i < k - 1 else 0)))
                self.bytes_post(ex, s, p, by, c, out0, want, snap)
                leak_check(ex, s)
            forking(ex, s, post)
        ex.bytelevel = False


def sx64(t):
    return t if t.size() == 64 else z3.SignExt(64 - t.size(), t)


def crc_step(x, b):
    """one byte of the checksum, bit by bit (polynomial 0x8408, least significant bit first)"""
    v = x ^ z3.ZeroExt(8, b)
    for _ in range(8):
        v = z3.If(z3.Extract(0, 0, v) == 1, z3.LShR(v, 1) ^ BV(0x8408, 16), z3.LShR(v, 1))
    return v


def crc_round(v):
    for _ in range(8):
        v = v >> 1 ^ (0x8408 if v & 1 else 0)
    return v


CRCROM = CCells({2 * k: (2, BV(crc_round(k), 16)) for k in range(256)}, 512)


def crc_step_table(x, b):
    v = x ^ z3.ZeroExt(8, b)
    i = z3.Concat(BV(0, 55), z3.Extract(7, 0, v), BV(0, 1))
    t = z3.Concat(CRCROM.get(None, simp(i + 1)), CRCROM.get(None, i))
    return z3.LShR(x, 8) ^ t


class FilePS:
    name = 'File'


class FileParseC(Contract):
    """sml_file *sml_file_parse(unsigned char *buffer, size_t buffer_len): a file with exactly the valid messages"""
    name = 'sml_file_parse'

    def apply(self, ex, st, args, ins):
        p = args[0]
        n = ex.intv(st, args[1], ins)
        o = ex.need_obj(st, p, ins, 'file bytes')
        ex.prove(st, z3.And(z3.ULE(n, INTMAX), z3.ULE(p.off, o.sz()), z3.ULE(n, o.sz() - p.off)), 'pre',
                 '%s: the bytes exist' % self.name, ins)
        T = ex.T.T['File']
        v = fresh('file', VS)
        st.add(v != VNULL)
        return ex.T.produce(st, T, v, 'file')

    def verify(self, ex, f):
        T = ex.T.T['File']
        st = State(ex)
        st.add(z3.ULE(N, INTMAX))
        by = Base('input', 'param')
        st.objs[by] = Obj(N, 'param', content=parse_content(), ro=True)
        snap = dict(st.objs)
        ex.cur_ps = FilePS
        ex.hint_parse = ('find', 'clear')
        ex.spec.unfold_files(st, Z64)
        start(ex, f, st, [Ptr(by), N])
        tt = ex.T
        for kind, s, r in ex.run(st):
            def post(s):
                if not isinstance(r, Ptr) or r.base is None:
                    ex.fail(s, 'val', 'a file is returned')
                tt.why = None
                val = tt.take(ex, s, r, T, None)
                if val is None:
                    ex.fail(s, 'own', 'the result is not a complete file: %s' % tt.why)
                ex.ok(s, 'own', 'the result is a complete, separately owned file')
                ex.prove(s, T.sel(val, 'messages') == ex.spec.files(Z64), 'val',
                         'File: exactly the valid messages are reported, in their order')
                frame_params(ex, s, snap, ())
                leak_check(ex, s)
            forking(ex, s, post)
        ex.hint_parse = None


class FileWriteC(WriteC):
    """void sml_file_write(sml_file *file): the messages, in order, at the end of the file's own buffer"""

    def __init__(self, name='sml_file_write'):
        WriteC.__init__(self, name, 'File')

    def view(self, ex, st, p, ins):
        """-> (buffer pointer, list of messages); the file stays as it is"""
        T = ex.T.T['File']
        if not isinstance(p, Ptr) or p.base is None or cint(p.off) != 0:
            ex.fail(st, 'mem', '%s: the argument is not a file' % self.name, ins)
        c = st.chunks.get(p.base)
        if isinstance(c, Own):
            raise Unsupported('folded file argument')
        o = ex.need_obj(st, p, ins, 'file argument')
        off = T.byname['buf'].off
        if o.cells is None or off not in o.cells or not isinstance(o.cells[off][1], Ptr):
            raise Unsupported('file argument')
        b = o.cells[off][1]
        s2 = st.copy()
        q = ex.T.produce(s2, ex.T.T['Buffer'], fresh('buf', VS), 'filebuf')
        s2.wobj(p.base).cells[off] = (8, q)
        ex.T.why = None
        kind = o.kind
        s2.wobj(p.base).kind = 'heap'
        v = ex.T.take(ex, s2, p, T, ins)
        if v is None:
            ex.fail(st, 'own', '%s: the argument is not a complete file (%s)' % (self.name, ex.T.why), ins)
        L = T.sel(v, 'messages')
        for f in s2.facts()[len(st.facts()):]:
            st.add(f)
        return b, L

    def apply(self, ex, st, args, ins):
        b, L = self.view(ex, st, args[0], ins)
        bv = buf_view(ex, st, b, ins)
        o = ex.need_obj(st, bv.bytes, ins, 'output bytes')
        if o.log is None:
            raise Unsupported('output buffer without a log')
        st.add(z3.Implies(L == VNULL, z3.And(encl('File', L) == EPS, SLEN(encl('File', L)) == 0)))
        self.emit(ex, st, bv, encl('File', L), ins)
        s = st.ghost.get('errout')
        # messages that are written get a fresh checksum; the list is unchanged otherwise

    def make(self, ex, st, p):
        """a file object whose buffer is p"""
        T = ex.T.T['File']
        v = z3.Const('v0', VS)
        a = ex.T.produce(st, T, v, 'file')
        st.add(v != VNULL, a.base.term != 0)
        ex.T.open(ex, st, a.base, None)
        off = T.byname['buf'].off
        o = st.wobj(a.base)
        q = o.cells[off][1]
        st.chunks.pop(q.base, None)
        o.cells[off] = (8, p)
        L = T.sel(v, 'messages')
        ex.nn_elems = True
        st.add(*lfacts(L))
        return a, v, L

    def finish(self, ex, s, a, v, p):
        T = ex.T.T['File']
        o = s.objs.get(a.base)
        off = T.byname['buf'].off
        if o is None:
            ex.fail(s, 'own', 'the file was released')
        q = o.cells.get(off)
        if q is None or not isinstance(q[1], Ptr) or q[1].base is not p.base:
            ex.fail(s, 'frame', 'the buffer of the file was replaced')
        s.wobj(a.base).cells[off] = (8, ex.T.produce(s, ex.T.T['Buffer'], fresh('buf', VS), 'filebuf'))
        ex.T.why = None
        v2 = ex.T.take(ex, s, a, T, None)
        if v2 is None:
            ex.fail(s, 'own', 'the written file is not intact (%s)' % ex.T.why)
        ex.prove(s, T.sel(v2, 'messages') == T.sel(v, 'messages'), 'frame', 'the messages of the file stay as they are')

    def verify(self, ex, f):
        st, c, n, p, by = self.prepare(ex, f)
        a, v, L = self.make(ex, st, p)
        want = encl('File', L)
        st.add(z3.Implies(L == VNULL, z3.And(want == EPS, SLEN(want) == 0)))
        self.room(ex, st, c, n, [(TRUE, want)])
        ex.hint_write = (p, by, want)
        snap = {b: o for b, o in st.objs.items() if o.kind == 'param'}
        start(ex, f, st, [a])
        tt = ex.T
        for kind, s, r in ex.run(st):
            def post(s):
                bv = buf_view(ex, s, p, None)
                o = s.objs[by.base]
                ex.prove(s, o.log.S == want, 'enc', '%s: exactly the messages are written, in order' % self.name)
                ex.prove(s, bv.cur == o.log.end, 'enc', '%s: the position advances by the encoded length' % self.name)
                self.finish(ex, s, a, v, p)
                frame_params(ex, s, snap, {(p.base, tt.bo['cursor'])})
                leak_check(ex, s)
            forking(ex, s, post)


class TransWriteC(FileWriteC):
    """int sml_transport_write(int fd, sml_file *file): one framed file, sent in one piece"""

    def apply(self, ex, st, args, ins):
        raise Unsupported(self.name)

    def frame(self, L, p):
        s = EPS
        for x in (0x1b, 0x1b, 0x1b, 0x1b, 1, 1, 1, 1):
            s = cat(s, BYTE(BV(x, 8)))
        s = cat(s, encl('File', L))
        for x in [0] * p + [0x1b, 0x1b, 0x1b, 0x1b, 0x1a, p]:
            s = cat(s, BYTE(BV(x, 8)))
        c = CRCXS(s)
        return cat(cat(s, BYTE(z3.Extract(15, 8, c))), BYTE(z3.Extract(7, 0, c)))

    def verify(self, ex, f):
        st = State(ex)
        n = z3.BitVec('n', 64)
        st.add(z3.ULE(n, INTMAX))
        c0 = z3.BitVec('c0', 64)
        out0 = z3.Function('out0', B64, B8)
        p, by = mkbuf(ex, st, n, c0, z3.BitVec('e0', 32), CFun(lambda s, i: out0(i)), False, Log(Z64, EPS, Z64))
        a, v, L = self.make(ex, st, p)
        F = encl('File', L)
        st.add(z3.Implies(L == VNULL, z3.And(F == EPS, SLEN(F) == 0)))
        st.add(z3.ULE(SLEN(F), INTMAX), z3.ULE(BV(8, 64) + SLEN(F) + 11, n))
        alts = [(simp(z3.Extract(1, 0, SLEN(F)) == (-k) % 4), self.frame(L, k)) for k in range(4)]
        self.room(ex, st, Z64, n, alts)
        ex.hint_write = (p, by, F)
        snap = {b: o for b, o in st.objs.items() if o.kind == 'param'}
        fd = z3.BitVec('fd', 32)

        def write(ex, st, av, ins):
            ex.assumed.add('write')
            if st.ghost.get('sent') is not None:
                ex.fail(st, 'fx', 'the file is sent in one piece', ins)
            q, k = av[1], ex.intv(st, av[2], ins)
            o = ex.need_obj(st, q, ins, 'sent bytes')
            ex.bounds(st, o, q.off, k, 'sent bytes', ins)
            ex.prove(st, av[0] == fd, 'fx', 'the bytes go to the given descriptor', ins)
            if q.base is not by.base:
                raise Unsupported('other bytes are sent')
            r = fbv('written', 64)
            st.add(z3.Or(r == -1, z3.ULE(r, k)))
            st.ghost['sent'] = (q.off, k, o.log, r)
            return r
        ex.opts.setdefault('extern', {})['write'] = write
        start(ex, f, st, [fd, a])
        tt = ex.T
        for kind, s, r in ex.run(st):
            def post(s):
                sent = s.ghost.get('sent')
                if sent is None:
                    ex.fail(s, 'fx', 'something is sent')
                off, k, log, wr = sent
                ex.prove(s, off == 0, 'fx', 'the bytes sent are the buffer from its start')
                ex.prove(s, k == log.end, 'fx', 'everything written is sent')
                for cnd, w in alts:
                    ex.prove(s, z3.Implies(cnd, log.S == w), 'fx', 'start sequence, messages, padding, end sequence, checksum')
                    ex.prove(s, z3.Implies(cnd, log.end == slen(w)), 'fx', 'the length is that of the framed file')
                ex.prove(s, r == z3.If(wr == k, z3.Extract(31, 0, k), BV(0, 32)), 'fx',
                         'the number of bytes is reported only when all were sent')
                self.finish(ex, s, a, v, p)
                frame_params(ex, s, snap, {(p.base, tt.bo['cursor'])})
                leak_check(ex, s)
            forking(ex, s, post)


class CrcC(Contract):
    """u16 f(unsigned char *cp, int len): checksum of the len bytes at cp"""

    def __init__(self, name, init, final, fn, fns):
        self.name, self.init, self.final, self.fn, self.fns = name, init, final, fn, fns

    def apply(self, ex, st, args, ins):
        p = args[0]
        ln = ex.intv(st, args[1], ins)
        o = ex.need_obj(st, p, ins, 'checksummed bytes')
        n = sx64(ln)
        ex.prove(st, z3.And(ln >= 0, z3.ULE(p.off, o.sz()), z3.ULE(n, o.sz() - p.off)), 'mem',
                 '%s: the range lies inside the data' % self.name, ins)
        if o.log is not None:
            lo = o.log
            if st.decide(z3.And(p.off == lo.start, simp(p.off + n) == lo.end)) is True:
                return self.fns(lo.S)
            raise Unsupported('checksum of a part of the output')
        if o.content is None:
            raise InlineCall()
        tag = getattr(o.content, 'tag', None)
        if tag != ('B',) and not any(x is o.content for x in st.ghost.get('bound', ())):
            raise InlineCall()
        return self.fn(simp(p.off), simp(ln))

    # first with the lookup table as an opaque function (enough when the code uses the same table), then bit by bit
    modes = (True, False)

    def verify(self, ex, f):
        try:
            self.verify1(ex, f)
        finally:
            core.ROMUF[0] = False

    def verify1(self, ex, f):
        st = State(ex)
        core.ROMUF[0] = False
        c, ln = z3.BitVec('c', 64), z3.BitVec('len', 32)
        st.add(z3.ULE(N, INTMAX), z3.ULE(c, N), ln >= 0, z3.ULE(sx64(ln), N - c))
        by = Base('bytes', 'param')
        st.objs[by] = Obj(N, 'param', content=parse_content(), ro=True)
        X = fn('crcPrefix', B64, B64, z3.BitVecSort(16))
        st.add(X(c, Z64) == self.init)
        # by cases over the low byte of x ^ b
        h = z3.BitVec('h', 8)
        ex.prove(State(ex), z3.And(*[simp(crc_step(z3.Concat(h, BV(i, 8)), BV(0, 8)) ==
                                          crc_step_table(z3.Concat(h, BV(i, 8)), BV(0, 8))) for i in range(256)]), 'fx',
                 'lemma: a step by table equals eight steps by bit')
        core.ROMUF[0] = ex.mode

        def index(g, t, v=None):
            t0 = g.ve(t)
            for a in (simp(sx64(t) - sx64(t0)), simp(sx64(t0) - sx64(t))):
                yield a

        def spots(g):
            return [x for x in g.spots.values() if z3.is_bv(x)]

        def unfold(ctx, st):
            g = getattr(ctx, "gen", None)
            if getattr(g, "ve", None) is None:
                return
            for t in spots(g):
                if t.size() in (32, 64):
                    for i in index(g, t):
                        st.add(X(c, simp(i + 1)) == crc_step_table(X(c, i), Bt(simp(c + i))))

        def hint(ctx, g, vh, ve):
            from loops import Cand, defined
            out = []
            for s in spots(g):
                if s.size() not in (16, 32):
                    continue
                for t in spots(g):
                    if t.size() in (32, 64) and not t.eq(s):
                        t0 = ve(t)
                        for d in (1, -1):
                            def e(v, s=s, t=t, t0=t0, d=d):
                                i = simp((sx64(v(t)) - sx64(t0)) * d)
                                x = v(s)
                                y = X(c, i)
                                return x == (y if s.size() == 16 else z3.ZeroExt(16, y))
                            out.append(Cand(defined(e), '%s is the checksum of the first %s bytes (%d)' % (
                                s.decl().name(), t.decl().name(), d)))
            return out
        ex.loophints.append(hint)
        ex.arrivals.append(unfold)
        snap = dict(st.objs)
        start(ex, f, st, [Ptr(by, c), ln])
        want = self.final(X(c, sx64(ln)))
        for kind, s, r in ex.run(st):
            r = z3.Extract(15, 0, r) if r.size() > 16 else r
            ex.prove(s, r == want, 'fx', '%s: the result is the bitwise checksum of the bytes' % self.name)
            frame_params(ex, s, snap, ())
            leak_check(ex, s)


class Registry:
    def __init__(self):
        self.d = {}
        self.elem_parse = ParseC('elem_parse', 'Elem')
        self.elem_write = WriteC('elem_write', 'Elem', False)
        self.elem_free = FreeC('elem_free', 'Elem')

    def add(self, c):
        self.d[c.name] = c

    def get(self, name):
        c = self.d.get(name)
        if c is None and name.endswith('_') and not name.endswith('tree_parse_'):
            c = self.d.get(name[:-1])
        return c


STEMS = {
    'OpenRequest': 'open_request', 'OpenResponse': 'open_response', 'CloseRequest': 'close_request',
    'CloseResponse': 'close_response', 'ProfilePackRequest': 'get_profile_pack_request',
    'ProfilePackResponse': 'get_profile_pack_response', 'ProfileListResponse': 'get_profile_list_response',
    'ProcParameterRequest': 'get_proc_parameter_request', 'ProcParameterResponse': 'get_proc_parameter_response',
    'SetProcParameterRequest': 'set_proc_parameter_request', 'ListRequest': 'get_list_request',
    'ListResponse': 'get_list_response', 'Attention': 'attention_response', 'Period': 'period_entry',
    'Header': 'prof_obj_header_entry', 'PeriodEntry': 'prof_obj_period_entry', 'ValueEntry': 'value_entry',
    'Tupel': 'tupel_entry', 'Time': 'time', 'Status': 'status', 'Value': 'value', 'List': 'list',
    'TreePath': 'tree_path', 'Tree': 'tree', 'PPV': 'proc_par_value', 'Body': 'message_body', 'Message': 'message',
    'Oct': 'octet_string',
}


def registry():
    R = Registry()
    R.add(TLRead())
    swap = lambda x: z3.Concat(z3.Extract(7, 0, x), z3.Extract(15, 8, x))
    R.add(CrcC('sml_crc16_calculate', BV(0xffff, 16), lambda x: swap(x ^ BV(0xffff, 16)), crcx, CRCXS))
    R.add(CrcC('sml_crc16kermit_calculate', BV(0, 16), lambda x: x, crck, CRCKS))
    R.add(ParseC('sml_number_parse', 'num'))
    R.add(ParseC('sml_boolean_parse', 'bool'))
    R.add(NumWriteC('sml_number_write'))
    R.add(TLWriteC('sml_buf_set_type_and_length'))
    R.add(WriteC('sml_boolean_write', 'bool'))
    R.add(FreeC('sml_number_free', 'AnyNum'))
    R.add(FreeC('sml_boolean_free', 'AnyNum'))
    for k, s in STEMS.items():
        if k == 'Tree':
            R.add(ParseC('sml_tree_parse_', 'Tree', depth=True))
            R.add(ParseC('sml_tree_parse', 'Tree'))
        else:
            R.add(ParseC('sml_%s_parse' % s, k, weak=k not in ('Body', 'Message', 'TreePath')))
        nullok = not (k in G and not G[k][0] or k in ('Body', 'Message'))
        R.add(WriteC('sml_%s_write' % s, k, nullok))
        R.add(FreeC('sml_%s_free' % s, k))
    R.add(FileParseC())
    import stream
    import containers
    for c in stream.contracts() + containers.contracts():
        R.add(c)
    R.add(FileWriteC())
    R.add(TransWriteC('sml_transport_write'))
    R.add(FreeC('sml_file_free', 'File'))
    R.add(FreeC('sml_buffer_free', 'Buffer'))
    R.add(ListEntryC('sml_list_entry_parse'))
    R.add(ParseC('sml_sequence_parse', 'seq', weak=False))
    R.add(WriteC('sml_sequence_write', 'seq'))
    R.add(FreeC('sml_sequence_free', 'Seq'))
    return R
