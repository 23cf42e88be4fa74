"""Trusted models of the C library functions the code calls."""
import re
import z3
from core import *
from ir import Unsupported

ASSUME = {
    'malloc': 'malloc/calloc/realloc never fail',
}


def cstring(ex, st, p, ins, what):
    """python bytes of a constant string, or None"""
    if not isinstance(p, Ptr):
        return None
    if p.base is None or p.base not in st.objs:
        return None
    o = st.objs[p.base]
    off = cint(p.off)
    if o.cells is None or off is None:
        return None
    out = bytearray()
    while True:
        c = o.cells.get(off)
        if c is None or c[0] != 1 or not z3.is_bv(c[1]) or cint(c[1]) is None:
            return None
        if cint(c[1]) == 0:
            return bytes(out)
        out.append(cint(c[1]))
        off += 1


FMT = re.compile(rb'%([-+ #0]*)(\*|\d*)(?:\.(\*|\d*))?(hh|h|ll|l|z|j|t|L)?([diouxXcsfFeEgGpn%])')


def check_string(ex, st, p, ins, maxlen=None):
    """p must be a NUL-terminated string (or have maxlen readable bytes)"""
    s = cstring(ex, st, p, ins, '%s')
    if s is not None:
        ex.ok(st, 'mem', 'string argument is terminated', ins)
        return s
    if p.base is not None and p.base.kind == 'global' and p.base not in st.objs:
        return None
    o = ex.need_obj(st, p, ins, 'string argument')
    if maxlen is not None:
        ex.prove(st, z3.Or(maxlen <= 0, z3.And(z3.ULE(p.off, o.sz()), z3.ULE(z3.SignExt(32, maxlen), o.sz() - p.off))),
                 'mem', 'string argument has the given number of bytes', ins)
        return None
    cs = st.ghost.get('cstr', {}).get(p.base)
    if cs is not None:
        # ghost: the object is known to hold a NUL at index cs
        ex.prove(st, z3.And(z3.ULE(p.off, cs), z3.ULT(cs, o.sz())), 'mem', 'string argument is terminated', ins)
        return None
    if o.cells is not None and cint(p.off) is not None:
        # some byte is certainly NUL
        conds = []
        for k in range(cint(p.off), o.size):
            b = ex.cell_byte(o, k)
            if b is None:
                break
            conds.append(b == 0)
        ex.prove(st, z3.Or(*conds) if conds else FALSE, 'mem', 'string argument is terminated', ins)
        return None
    raise Unsupported('string argument of unknown contents')


def printf_args(ex, st, fmt, args, ins, name):
    s = cstring(ex, st, fmt, ins, 'format')
    if s is None:
        raise Unsupported('format string is not constant')
    k = 0
    for m in FMT.finditer(s):
        if m.group(5) == b'%':
            continue
        if m.group(5) == b'n':
            raise Unsupported('%n')
        prec = None
        for g in (m.group(2), m.group(3)):
            if g == b'*':
                if k >= len(args):
                    ex.fail(st, 'mem', 'missing argument of %s' % name, ins)
                prec = ex.intv(st, args[k], ins)
                k += 1
        if k >= len(args):
            ex.fail(st, 'mem', 'missing argument of %s' % name, ins)
        a = args[k]
        k += 1
        if isinstance(a, Undef):
            ex.fail(st, 'mem', 'uninitialised argument of %s' % name, ins)
        if m.group(5) == b's':
            if not isinstance(a, Ptr):
                raise Unsupported('%s of a non-pointer')
            check_string(ex, st, a, ins, prec if m.group(3) == b'*' else None)
        else:
            if isinstance(a, Ptr) and m.group(5) != b'p':
                raise Unsupported('pointer printed as number')
    return s


def argv(ex, st, v):
    return v


def out(ex, st, stream, s, args):
    st.ghost['out'] = st.ghost.get('out', ()) + ((stream, s, tuple(args)),)


def call(ex, st, name, args, ins, fr):
    a = args
    iv = lambda k: ex.intv(st, a[k], ins)

    def ck(p):
        if isinstance(p, Undef):
            ex.fail(st, 'mem', 'uninitialised argument of %s' % name, ins)
        return p
    if name == 'malloc':
        ex.assumed.add('malloc')
        return ex.malloc(st, iv(0), ins, 'malloc')
    if name == 'calloc':
        ex.assumed.add('calloc')
        x, y = iv(0), iv(1)
        ex.prove(st, z3.BVMulNoOverflow(x, y, False), 'mem', 'calloc size does not overflow', ins)
        return ex.malloc(st, simp(x * y), ins, 'calloc', True)
    if name == 'realloc':
        ex.assumed.add('realloc')
        return ex.realloc(st, ck(a[0]), iv(1), ins)
    if name == 'reallocarray':
        ex.assumed.add('realloc')
        x, y = iv(1), iv(2)
        ex.prove(st, z3.BVMulNoOverflow(x, y, False), 'mem', 'size does not overflow', ins)
        return ex.realloc(st, ck(a[0]), simp(x * y), ins)
    if name == 'free':
        ex.assumed.add('free')
        ex.free(st, ck(a[0]), ins)
        return None
    if name in ('memcpy', 'memmove') or name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
        ex.assumed.add('memcpy')
        if 'memmove' in name and a[0].base is a[1].base:
            raise Unsupported('overlapping memmove')
        ex.memcpy(st, ck(a[0]), ck(a[1]), iv(2), ins)
        return a[0]
    if name == 'memset' or name.startswith('llvm.memset'):
        ex.assumed.add('memset')
        c = iv(1)
        ex.memset(st, ck(a[0]), zx(c, 32), iv(2), ins)
        return a[0]
    if name.startswith('llvm.ubsantrap') or name == 'llvm.trap':
        k = cint(a[0]) if a else None
        ex.fail(st, 'mem', {20: 'shift out of bounds', 24: 'variable-length array of non-positive size'}.get(
            k, 'undefined operation (check %s)' % k), ins)
    if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime'):
        return None
    if name.startswith('llvm.stacksave'):
        return Ptr(Base('stack', 'global'))
    if name.startswith('llvm.stackrestore'):
        return None
    if name.startswith('llvm.expect'):
        return a[0]
    m = re.match(r'llvm\.(umin|umax|smin|smax|abs|bswap|fshl|fshr)\.i(\d+)$', name)
    if m:
        w = int(m.group(2))
        x = iv(0)
        op = m.group(1)
        if op == 'bswap':
            return simp(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(w // 8)]))
        if op == 'abs':
            return simp(z3.If(x < 0, -x, x))
        y = iv(1)
        if op in ('fshl', 'fshr'):
            z = iv(2)
            if not x.eq(y):
                raise Unsupported(name)
            return simp(z3.RotateLeft(x, z) if op == 'fshl' else z3.RotateRight(x, z))
        c = {'umin': z3.ULT(x, y), 'umax': z3.UGT(x, y), 'smin': x < y, 'smax': x > y}[op]
        return simp(z3.If(c, x, y))
    m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow', name)
    if m:
        raise Unsupported(name)
    if name == 'llvm.fmuladd.f64':
        return z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), a[0], a[1]), a[2])
    if name in ('printf', 'fprintf', 'dprintf'):
        ex.assumed.add('stdio')
        k = 0 if name == 'printf' else 1
        s = printf_args(ex, st, a[k], a[k + 1:], ins, name)
        stream = 'stdout'
        if k:
            stream = 'stderr' if isinstance(a[0], Ptr) and a[0].base is not None and \
                'stderr' in getattr(a[0].base, 'name', '') else 'file'
        if stream != 'stderr':
            out(ex, st, stream, s, a[k + 1:])
        return fbv('printed', 32)
    if name in ('puts', 'fputs', 'perror'):
        ex.assumed.add('stdio')
        s = check_string(ex, st, ck(a[0]), ins)
        if name == 'puts':
            out(ex, st, 'stdout', b'%s\n' if s is None else s + b'\n', () if s is not None else (a[0],))
        return fbv('puts', 32) if ins.res else None
    if name in ('putchar', 'fputc', 'putc'):
        ex.assumed.add('stdio')
        out(ex, st, 'stdout', b'%c', (a[0],))
        return fbv('putchar', 32)
    if name == 'fflush':
        return fbv('fflush', 32)
    if name in ('fwrite',):
        raise Unsupported(name)
    if name in ('memcmp', 'strlen', 'strcmp', 'strncmp'):
        return MODELS[name](ex, st, a, ins)
    if name in ('exit', '_exit', 'abort'):
        if name == 'abort' or st.ghost.get('noexit'):
            ex.fail(st, 'mem', 'the process ends (%s)' % name, ins)
        raise Dead()
    if name == 'uuid_generate':
        ex.assumed.add('uuid_generate writes 16 bytes')
        p = ck(a[0])
        o = ex.need_obj(st, p, ins, 'uuid_generate')
        ex.bounds(st, o, p.off, 16, 'uuid_generate', ins)
        ex.check_writable(st, p, o, ins)
        st.ghost['io'] = True
        o = st.wobj(p.base)
        j = z3.Function('uuid!%d' % uid(), B64, z3.BitVecSort(8))
        off = cint(p.off)
        for k in range(16):
            if o.cells is not None and off is not None:
                ex.cell_store(o, off + k, 1, j(BV(k, 64)))
            else:
                raise Unsupported('uuid_generate target')
        return None
    if name in ('pow', 'fabs', 'floor', 'ceil', 'round', 'log10', 'exp10'):
        ex.assumed.add(name)
        f = z3.Function('libm_' + name, *([z3.Float64()] * (len(a) + 1)))
        return f(*a)
    h = ex.opts.get('extern', {}).get(name)
    if h is not None:
        return h(ex, st, a, ins)
    raise Unsupported('call of unknown function %s' % name)


def m_memcmp(ex, st, a, ins):
    ex.assumed.add('memcmp')
    p, q = a[0], a[1]
    n = ex.intv(st, a[2], ins)
    if isinstance(p, Undef) or isinstance(q, Undef):
        ex.fail(st, 'mem', 'uninitialised argument of memcmp', ins)
    n = simp(n)
    if cint(n) == 0:
        return BV(0, 32)
    if cint(n) is None and (ex.maybe_null(st, p) or ex.maybe_null(st, q)):
        d = st.decide(n == 0)
        if d is None:
            raise Fork([n == 0, n != 0])
        if d:
            return BV(0, 32)
    po = ex.need_obj(st, p, ins, 'memcmp')
    ex.bounds(st, po, p.off, n if cint(n) is None else cint(n), 'memcmp', ins)
    qo = ex.need_obj(st, q, ins, 'memcmp')
    ex.bounds(st, qo, q.off, n if cint(n) is None else cint(n), 'memcmp', ins)
    po, qo = st.objs[p.base], st.objs[q.base]
    r = fbv('memcmp', 32)
    c = cint(n)
    if c is not None and c <= 64:
        def by(o, b, off, k):
            if o.cells is not None and cint(off) is not None:
                x = ex.cell_byte(o, cint(off) + k)
                if x is None:
                    ex.fail(st, 'mem', 'memcmp reads uninitialised bytes', ins)
                return x
            o = ex.tobytes(st, b, o)
            return o.content.get(st, simp(off + k))
        eq = z3.And(*[by(po, p.base, p.off, k) == by(qo, q.base, q.off, k) for k in range(c)])
        st.add((r == 0) == eq)
        return r
    # the first difference, if any
    pc = ex.tobytes(st, p.base, po).content
    qc = ex.tobytes(st, q.base, qo).content
    w = fbv('diff', 64)
    st.add(z3.Implies(r != 0, z3.And(z3.ULT(w, n), pc.get(st, simp(p.off + w)) != qc.get(st, simp(q.off + w)))))
    st.ghost['memeq'] = st.ghost.get('memeq', ()) + ((r, p, q, n, pc, qc),)
    return r


def m_strlen(ex, st, a, ins):
    ex.assumed.add('strlen')
    p = a[0]
    if isinstance(p, Undef):
        ex.fail(st, 'mem', 'uninitialised argument of strlen', ins)
    s = cstring(ex, st, p, ins, 'strlen')
    if s is not None:
        return BV(len(s), 64)
    o = ex.need_obj(st, p, ins, 'strlen')
    cs = st.ghost.get('cstr', {}).get(p.base)
    if cs is not None:
        ex.prove(st, z3.ULE(p.off, cs), 'mem', 'strlen argument is terminated', ins)
        return simp(cs - p.off)
    raise Unsupported('strlen of unknown contents')


MODELS = {'memcmp': m_memcmp, 'strlen': m_strlen}
