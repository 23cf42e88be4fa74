"""Contracts of the functions that read from a byte stream.

The stream is an infinite sequence of bytes D(i); its read position and whether a read has failed are kept in a ghost
object.  Statements about all positions are proved for arbitrary constants (K: a position in a buffer, J: a position of
the stream, Q: a position in the frame)."""
import z3
from core import *
from types_ import *
from spec import *
from ir import Unsupported
from contracts import Contract, start, frame_params, leak_check, forking

D = fn('D', B64, B8)
DD = z3.BitVec('DD', 64)        # a name for a distance, in case distinctions only
K, J, Q = z3.BitVecs('K J Q', 64)
START = (0x1b, 0x1b, 0x1b, 0x1b, 1, 1, 1, 1)
LIMIT = BV(1 << 62, 64)


def sel(tab, i):
    e = BV(tab[-1], 8)
    for k in reversed(range(len(tab) - 1)):
        e = z3.If(i == k, BV(tab[k], 8), e)
    return e


def match(s):
    return z3.And(*[D(simp(s + t)) == START[t] for t in range(8)])


def mis(s, p):
    """the start sequence does not begin at s, as the bytes before p show"""
    return z3.Or(*[z3.And(z3.ULT(BV(t, 64), simp(p - s)), D(simp(s + t)) != START[t]) for t in range(8)])


def esc(s):
    return z3.And(*[D(simp(s + t)) == 0x1b for t in range(4)])


def inn(i, lo, n):
    return z3.And(z3.ULE(lo, i), z3.ULT(i, lo + n))


class Stream:
    """the ghost object of a state"""

    @staticmethod
    def make(st, pos, failed=FALSE):
        b = Base('stream', 'param')
        st.objs[b] = Obj(16, 'param', cells={0: (8, pos), 8: (1, BV(0, 8))})
        e = Base('errno', 'param')
        st.objs[e] = Obj(4, 'param', cells={0: (4, fbv('errno', 32))})
        return b, e

    @staticmethod
    def of(st):
        for b in st.objs:
            if b.kind == 'param' and b.name.startswith('stream#'):
                return b
        raise Unsupported('reading outside a stream context')

    @staticmethod
    def errno(st):
        for b in st.objs:
            if b.kind == 'param' and b.name.startswith('errno#'):
                return b
        raise Unsupported('errno outside a stream context')

    @staticmethod
    def pos(st):
        return st.objs[Stream.of(st)].cells[0][1]

    @staticmethod
    def failed(st):
        return st.objs[Stream.of(st)].cells[8][1]

    @staticmethod
    def set(st, pos=None, failed=None):
        o = st.wobj(Stream.of(st))
        if pos is not None:
            o.cells[0] = (8, simp(pos))
        if failed is not None:
            o.cells[8] = (1, failed)


def target(ex, st, p, n, ins):
    o = ex.need_obj(st, p, ins, 'read target')
    ex.bounds(st, o, p.off, n, 'read target', ins)
    ex.check_writable(st, p, o, ins)
    if o.content is None:
        o = ex.tobytes(st, p.base, o)
    return o


def put(ex, st, p, n, pos):
    """n bytes of the stream from pos on arrive at p"""
    o = st.wobj(p.base)
    o.content = CRange(o.content, p.off, n, lambda s, j, pos=pos: D(simp(pos + j)))


def junk(ex, st, p, n):
    o = st.wobj(p.base)
    g = z3.Function('unread!%d' % uid(), B64, B8)
    o.content = CRange(o.content, p.off, n, lambda s, j, g=g: g(j))


def x_read(ex, st, a, ins):
    ex.assumed.add('read')
    n = ex.intv(st, a[2], ins)
    ex.prove(st, a[0] == ex.stream_fd, 'fx', 'the given descriptor is read', ins)
    target(ex, st, a[1], n, ins)
    pos = Stream.pos(st)
    out = []
    s = st.copy()           # error, or end of the stream
    junk(ex, s, a[1], n)
    r = fbv('nread', 64)
    s.add(z3.Or(r == -1, r == 0))
    Stream.errno(s)
    s.wobj(Stream.errno(s)).cells[0] = (4, fbv('errno', 32))
    out.append((s, r))
    r = fbv('nread', 64)
    st.add(r > 0, z3.ULE(r, n), z3.ULE(pos, LIMIT - r))
    put(ex, st, a[1], r, pos)
    Stream.set(st, pos + r)
    if st.feasible():
        out.append((st, r))
    return out


def x_select(ex, st, a, ins):
    ex.assumed.add('select')
    for p in a[1:4]:
        if isinstance(p, Ptr) and p.base is not None:
            o = target(ex, st, p, BV(128, 64), ins)
            o = st.wobj(p.base)
            g = z3.Function('fdset!%d' % uid(), B64, B8)
            o.content = CRange(o.content, p.off, BV(128, 64), lambda s, j, g=g: g(j))
    st.wobj(Stream.errno(st)).cells[0] = (4, fbv('errno', 32))
    return fbv('selected', 32)


def x_errno(ex, st, a, ins):
    return Ptr(Stream.errno(st))


EXT = {'read': x_read, 'select': x_select, '__errno_location': x_errno}


def bytesat(v, b, i):
    """byte i of the object b in the state of a view"""
    o = v.st.objs[v.mp.get(b, b)]
    if o.content is None:
        return None
    return o.content.get(v.st, simp(i))


def buffers(g):
    return [b for b, o in g.H.objs.items() if o.content is not None and not o.ro and b.kind != 'global']


def spots(g):
    return [x for x in g.spots.values() if z3.is_bv(x) and x.size() in (32, 64)]


def zx64(t):
    return t if t.size() == 64 else z3.ZeroExt(64 - t.size(), t)


class ReadC(Contract):
    """size_t sml_read(int fd, fd_set *set, unsigned char *buffer, size_t len): len bytes, or 0 after an end or error"""
    name = 'sml_read'

    def apply(self, ex, st, args, ins):
        n = ex.intv(st, args[3], ins)
        ex.prove(st, args[0] == ex.stream_fd, 'fx', 'the given descriptor is read', ins)
        ex.prove(st, n != 0, 'pre', 'something is to be read', ins)
        target(ex, st, args[2], n, ins)
        target(ex, st, args[1], BV(128, 64), ins)
        junk(ex, st, args[1], BV(128, 64))
        pos = Stream.pos(st)
        bad = st.copy()
        junk(ex, bad, args[2], n)
        p = fbv('pos', 64)
        bad.add(z3.ULE(pos, p), z3.ULE(p, LIMIT))
        Stream.set(bad, p, BV(1, 8))
        st.add(z3.ULE(pos, LIMIT), z3.ULE(n, LIMIT), z3.ULE(pos + n, LIMIT))
        put(ex, st, args[2], n, pos)
        Stream.set(st, pos + n)
        out = [(bad, BV(0, 64))]
        if st.feasible():
            out.append((st, n))
        return out

    def verify(self, ex, f):
        st = State(ex)
        fd = z3.BitVec('fd', 32)
        ex.stream_fd = fd
        ex.opts.setdefault('extern', {}).update(EXT)
        st.add(fd >= 0, fd < 1024)
        pos0, size, off, n = z3.BitVecs('pos0 size off len', 64)
        st.add(z3.ULE(pos0, LIMIT), z3.ULE(size, INTMAX), z3.ULE(off, size), z3.ULE(n, size - off), n != 0)
        sb, eb = Stream.make(st, pos0)
        old = z3.Function('old', B64, B8)
        fs = z3.Function('set0', B64, B8)
        by = Base('buffer', 'param')
        st.objs[by] = Obj(size, 'param', content=CFun(lambda s, i: old(i)))
        se = Base('set', 'param')
        st.objs[se] = Obj(128, 'param', content=CFun(lambda s, i: fs(i)))

        def hint(ctx, g, vh, ve):
            from loops import Cand, defined
            out = []
            T = lambda v: simp(Stream.pos(v.st) - pos0)
            out.append(Cand(defined(lambda v: z3.ULE(T(v), n)), 'no more than asked for', True))
            out.append(Cand(defined(lambda v: z3.Implies(z3.ULT(K, T(v)), bytesat(v, by, off + K) == D(pos0 + K))),
                            'the bytes read are in place', True))
            for t in spots(g):
                out.append(Cand(defined(lambda v, t=t: T(v) == zx64(v(t))), 'what was read is counted (%s)' % t, True))
                out.append(Cand(defined(lambda v, t=t: T(v) == n - zx64(v(t))), 'what is missing is counted (%s)' % t, True))
                out.append(Cand(defined(lambda v, t=t: T(v) == zx64(v(t)) - off), 'the read position is kept (%s)' % t, True))
            out.append(Cand(defined(lambda v: z3.And(z3.ULE(pos0, Stream.pos(v.st)), z3.ULE(Stream.pos(v.st), LIMIT))),
                            'the stream only advances', True))
            out.append(Cand(defined(lambda v: z3.Implies(z3.Not(z3.ULT(K, n)), bytesat(v, by, off + K) == old(off + K))),
                            'nothing outside the target is changed', True))
            return out
        ex.loophints.append(hint)
        ex.opts['noterm'] = ex.opts['widen'] = ex.opts['fresh'] = True
        snap = {b: o for b, o in st.objs.items() if o.kind == 'param'}
        start(ex, f, st, [fd, Ptr(se), Ptr(by, off), n])
        for kind, s, r in ex.run(st):
            def post(s):
                pos = Stream.pos(s)
                c = s.objs[by].content.get(s, simp(off + K))
                ex.prove(s, z3.Or(r == 0, r == n), 'fx', 'all bytes asked for, or none, are reported')
                ok = s.copy()
                ok.add(r != 0)
                if ok.feasible():
                    ex.prove(ok, pos == pos0 + n, 'fx', 'exactly these bytes are taken from the stream')
                    ex.prove(ok, z3.Implies(z3.ULT(K, n), c == D(pos0 + K)), 'fx',
                             'the bytes of the stream arrive unchanged and in order')
                ex.prove(s, z3.And(z3.ULE(pos0, pos), z3.ULE(pos, LIMIT)), 'fx', 'the stream only advances')
                ex.prove(s, z3.Implies(z3.Not(z3.ULT(K, n)), c == old(off + K)), 'frame', 'nothing outside the target is changed')
                frame_params(ex, s, snap, {(sb, 0), (eb, 0)})
                leak_check(ex, s)
            forking(ex, s, post)


class TransReadC(Contract):
    """size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len)"""
    name = 'sml_transport_read'

    def apply(self, ex, st, args, ins):
        n = ex.intv(st, args[2], ins)
        ex.prove(st, args[0] == ex.stream_fd, 'fx', 'the given descriptor is read', ins)
        ex.prove(st, z3.ULE(n, INTMAX), 'pre', 'the room is less than 2 GB', ins)
        o = target(ex, st, args[1], n, ins)
        pos = Stream.pos(st)
        bad = st.copy()
        p = fbv('pos', 64)
        bad.add(z3.ULE(pos, p), z3.ULE(p, LIMIT))
        Stream.set(bad, p)
        p, r = fbv('pos', 64), fbv('framelen', 64)
        st.add(z3.ULE(pos, p), z3.ULE(p, LIMIT), z3.UGE(r, 16), z3.ULE(r, n), z3.ULE(pos + r, p))
        s0 = simp(p - r)
        put(ex, st, args[1], r, s0)
        Stream.set(st, p)
        out = [(bad, BV(0, 64))]
        if st.feasible():
            out.append((st, r))
        return out

    def verify(self, ex, f):
        st = State(ex)
        fd = z3.BitVec('fd', 32)
        ex.stream_fd = fd
        ex.opts.setdefault('extern', {}).update(EXT)
        st.add(fd >= 0, fd < 1024)
        pos0, size = z3.BitVecs('pos0 max_len', 64)
        st.add(z3.ULE(pos0, LIMIT), z3.ULE(size, INTMAX))
        sb, eb = Stream.make(st, pos0)
        old = z3.Function('old', B64, B8)
        by = Base('buffer', 'param')
        st.objs[by] = Obj(size, 'param', content=CFun(lambda s, i: old(i)))

        def hint(ctx, g, vh, ve):
            from loops import Cand, defined
            out = []
            P = lambda v: Stream.pos(v.st)

            def c(fn, d, split=(), cover=None):
                out.append(Cand(defined(fn), d, True, split, cover))
            c(lambda v: z3.And(z3.ULE(pos0, P(v)), z3.ULE(P(v), LIMIT)), 'the stream only advances')
            c(lambda v: Stream.failed(v.st) == 0, 'no read has failed')
            for t in spots(g):
                if t.eq(P(vh)):
                    continue
                T = lambda v, t=t: ex.widen(v.st, v(t), 64)
                S = lambda v, T=T: simp(P(v) - T(v))
                n = t.decl().name()
                c(lambda v, T=T: z3.And(z3.ULE(T(v), P(v)), z3.ULE(pos0, simp(P(v) - T(v)))), '%s bytes were just read' % n)
                c(lambda v, T=T: z3.ULE(T(v), 8), '%s <= 8' % n)
                c(lambda v, T=T: T(v) & 3 == 0, '%s is a multiple of 4' % n)
                c(lambda v, T=T: z3.UGE(T(v), 8), '%s >= 8' % n)
                c(lambda v, T=T: z3.ULE(T(v), size), '%s <= room' % n)
                # case distinctions: (condition, what follows from it about symbols)
                cases = [(T(vh) == k, ((t, BV(k, t.size())),)) for k in range(9)]
                kcases = cases
                c(lambda v, T=T, S=S: z3.And(*[z3.Implies(z3.UGT(T(v), i), D(simp(S(v) + i)) == START[i]) for i in range(8)]),
                  'the last %s bytes begin the start sequence' % n, cases)
                tt, pp = T(vh), P(vh)
                near = [(z3.And(x, pp == J + d), y + ((J, pp - d),)) for x, y in cases + [(z3.UGT(tt, 8), ())]
                        for d in range(8)] + [(J == pp + d, ((J, pp + d),)) for d in range(1, 9)] + \
                    [(z3.And(z3.UGT(J, pp), z3.UGT(J - pp, 8)), ())]
                far = z3.And(z3.ULE(J, pp), z3.UGE(pp - J, 8))
                c(lambda v, T=T: z3.Implies(z3.And(z3.ULE(pos0, J), z3.ULE(J, P(v)), z3.UGT(simp(P(v) - J), T(v))),
                                            mis(J, P(v))),
                  'no start sequence before the last %s bytes' % n,
                  near + [(far, ((J, pp - DD),))], z3.Or(far, *[x[0] for x in near]))
                c(lambda v, T=T, S=S: z3.Implies(z3.And(Q & 3 == 0, z3.UGE(Q, 8), z3.ULT(Q, T(v))), z3.Not(esc(simp(S(v) + Q)))),
                  'no escape sequence in the last %s bytes' % n)
                for b in buffers(g):
                    c(lambda v, T=T, S=S, b=b: z3.Implies(z3.ULT(K, T(v)), bytesat(v, b, K) == D(simp(S(v) + K))),
                      '%s holds the last %s bytes' % (b.name, n), kcases)
                    c(lambda v, T=T, b=b: z3.Implies(z3.And(z3.ULT(K, T(v)), z3.ULT(K, 8)), bytesat(v, b, K) == sel(START, K)),
                      '%s begins with %s bytes of the start sequence' % (b.name, n), kcases)
            return out
        ex.loophints.append(hint)

        def first(ctx, s):
            """J is the first match: none at the positions that play a role here"""
            pos = Stream.pos(s)
            for fr in s.frames:
                for b in fr.allocas:
                    o = s.objs.get(b)
                    if o is not None and o.cells is not None and 0 in o.cells and z3.is_bv(o.cells[0][1]) and \
                            o.cells[0][0] in (4, 8):
                        j = simp(pos - zx64(o.cells[0][1]))
                        s.ghost['starts'] = s.ghost.get('starts', ()) + (j,)
        ex.arrivals.append(first)
        ex.opts['noterm'] = ex.opts['widen'] = ex.opts['fresh'] = True
        snap = {b: o for b, o in st.objs.items() if o.kind == 'param'}
        start(ex, f, st, [fd, Ptr(by), size])
        for kind, s, r in ex.run(st):
            def post(s):
                pos = Stream.pos(s)
                c = s.objs[by].content.get(s, K)
                ex.prove(s, z3.ULE(r, size), 'fx', 'never more than the caller allows')
                ok = s.copy()
                ok.add(r != 0)
                if ok.feasible():
                    S = simp(pos - r)
                    p = lambda e, d: ex.prove(ok, e, 'fx', d)
                    p(z3.And(z3.ULE(r, pos), z3.ULE(pos0, S)), 'the frame is what was read last')
                    p(z3.And(r & 3 == 0, z3.UGE(r, 16)), 'the frame has whole blocks')
                    p(match(S), 'the frame begins with the start sequence')
                    p(z3.Implies(z3.And(z3.ULE(pos0, J), z3.ULT(J, S)), z3.Not(match(J))), 'it is the first start sequence')
                    p(z3.And(esc(S + r - 8), D(S + r - 4) == 0x1a), 'the frame ends with the end sequence')
                    p(z3.Implies(z3.And(Q & 3 == 0, z3.UGE(Q, 8), z3.ULT(Q, r - 8)), z3.Not(esc(S + Q))),
                      'it is the first aligned end sequence')
                    p(z3.Implies(z3.ULT(K, r), c == D(S + K)), 'the bytes are delivered unchanged and contiguous')
                no = s.copy()
                no.add(r == 0)
                if no.feasible():
                    # J is the first start sequence in the stream
                    no.add(Stream.failed(no) == 0, z3.UGE(size, 8), z3.ULE(pos0, J), z3.ULE(J, LIMIT), match(J))
                    for j in s.ghost.get('starts', ()):
                        no.add(z3.Or(z3.ULT(j, pos0), z3.UGE(j, J), z3.Not(match(j))))
                    if no.feasible():
                        m = pos - J
                        quiet = lambda e: z3.Implies(z3.And(Q & 3 == 0, z3.UGE(Q, 8), z3.ULT(Q, e)), z3.Not(esc(J + Q)))
                        ex.prove(no, z3.And(z3.ULE(J, pos), z3.Or(
                            z3.And(z3.UGE(m, 16), m & 3 == 0, esc(J + m - 8), D(J + m - 4) != 0x1a, quiet(m - 8)),
                            z3.And(m & 3 == 0, z3.UGE(m + 8, size), quiet(m)))), 'fx',
                            'zero is returned only at the end of the stream, for a too long frame or for another escape sequence')
                ex.prove(s, z3.And(z3.ULE(pos0, pos), z3.ULE(pos, LIMIT)), 'fx', 'the stream only advances')
                ex.prove(s, z3.Implies(z3.UGE(K, r), c == old(K)), 'frame', 'nothing behind the frame is changed')
                frame_params(ex, s, snap, {(sb, 0), (sb, 8), (eb, 0)})
                leak_check(ex, s)
            forking(ex, s, post)


class ListenC(Contract):
    """void sml_transport_listen(int fd, receiver): hands every frame to the receiver, until none follows"""
    name = 'sml_transport_listen'

    def verify(self, ex, f):
        st = State(ex)
        fd = z3.BitVec('fd', 32)
        ex.stream_fd = fd
        ex.opts.setdefault('extern', {}).update(EXT)
        st.add(fd >= 0, fd < 1024)
        pos0 = z3.BitVec('pos0', 64)
        st.add(z3.ULE(pos0, LIMIT))
        sb, eb = Stream.make(st, pos0)
        b = Base('receiver', 'func')

        def recv(ex, s, a, ins):
            o = ex.need_obj(s, a[0], ins, 'frame')
            n = ex.intv(s, a[1], ins)
            ex.prove(s, z3.And(n != 0, z3.ULE(n, o.sz() - a[0].off), z3.ULE(a[0].off, o.sz())), 'fx',
                     'the receiver gets the length of the frame', ins)
            if o.content is None:
                raise Unsupported('frame bytes')
            p = Stream.pos(s)
            ex.prove(s, z3.Implies(z3.ULT(K, n), o.content.get(s, simp(a[0].off + K)) == D(p - n + K)), 'fx',
                     'the receiver gets the frame just read', ins)
            # it may change the bytes
            w = s.wobj(a[0].base)
            g = z3.Function('recv!%d' % uid(), B64, B8)
            w.content = CFun(lambda s2, i, g=g: g(i))
            s.wobj(sb).cells[8] = (1, BV(2, 8))
            return None
        b.fn = recv
        ex.opts['noterm'] = ex.opts['widen'] = ex.opts['fresh'] = True
        snap = {x: o for x, o in st.objs.items() if o.kind == 'param'}
        start(ex, f, st, [fd, Ptr(b)])
        for kind, s, r in ex.run(st):
            frame_params(ex, s, snap, {(sb, 0), (sb, 8), (eb, 0)})
            leak_check(ex, s)


def contracts():
    return [ReadC(), TransReadC(), ListenC()]
