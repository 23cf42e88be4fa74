"""Obligations that belong to the program as a whole rather than to one function's contract.

C18: no function of the library writes global state, hands the address of writable global state to code that may
write through it, or calls anything whose result depends on more than its arguments.  The effect of every function is
computed over its IR (addresses are followed through registers, simple variables, calls and indirect calls); each
function yields one obligation."""
import time

# external functions: argument positions they may write through; None = may keep or write everything
EXT = {
    'malloc': (), 'calloc': (), 'realloc': (), 'free': (), 'memcpy': (0,), 'memmove': (0,), 'memset': (0,),
    'memcmp': (), 'strlen': (), 'strcmp': (), 'strncmp': (), 'printf': (), 'fprintf': (), 'snprintf': (0,),
    'sprintf': (0,), 'puts': (), 'putchar': (), 'fputs': (), 'fputc': (), 'fwrite': (), 'write': (), 'read': (1,),
    'select': (1, 2, 3, 4), 'perror': (), 'strtol': (1,), 'strtoul': (1,), 'sscanf': None, 'pow': (), 'abs': (),
    'memchr': (), 'strnlen': (), 'llvm.memcpy.p0.p0.i64': (0,), 'llvm.memset.p0.i64': (0,),
    'llvm.memmove.p0.p0.i64': (0,), 'llvm.ubsantrap': (), 'llvm.trap': (), 'llvm.dbg.declare': (), 'llvm.dbg.value': (),
    'llvm.lifetime.start.p0': (), 'llvm.lifetime.end.p0': (), '__assert_fail': (), 'abort': (), 'exit': (),
    'rand': None, 'srand': None, 'time': None, 'uuid_generate': (0,), 'llvm.stacksave': (), 'llvm.stackrestore': (),
    'llvm.stacksave.p0': (), 'llvm.stackrestore.p0': (), 'llvm.fabs.f64': (), '__errno_location': (), 'strerror': (),
    'toupper': (), 'tolower': (), 'isxdigit': (), 'isdigit': (), 'llvm.fmuladd.f64': (),
}
# these draw on state outside their arguments
IMPURE = {'rand', 'srand', 'time', 'uuid_generate', 'uuid_generate_random', 'random', 'getenv', 'clock', 'gettimeofday',
          'clock_gettime', 'localtime', 'gmtime', 'strtok', 'getpid', 'drand48', 'lrand48'}
# documented to draw on such state
EXEMPT = {'sml_octet_string_generate_uuid'}


def base_global(v):
    """global a constant operand refers to, if any"""
    if not isinstance(v, tuple) or not v:
        return None
    if v[0] == 'glob':
        return v[1]
    for x in v[1:]:
        if isinstance(x, (tuple, list)):
            for y in ([x] if isinstance(x, tuple) else x):
                r = base_global(y) if isinstance(y, tuple) else None
                if r is not None:
                    return r
                if isinstance(y, tuple):
                    for z in y:
                        r = base_global(z) if isinstance(z, tuple) else None
                        if r is not None:
                            return r
    return None


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.taken = []         # functions whose address is taken
        for f in prog.allfuncs():
            for b in f.order:
                for i in f.blocks[b]:
                    ops = i.a[1:] if i.op == 'call' else i.a
                    for g in self.globs(ops):
                        h = prog.func(f.module, g.lstrip('@'))
                        if h is not None and h not in self.taken:
                            self.taken.append(h)

    def globs(self, x):
        if isinstance(x, tuple) and len(x) >= 2 and x[0] == 'glob':
            return [x[1]]
        out = []
        if isinstance(x, (tuple, list)):
            for y in x:
                out += self.globs(y)
        return out

    def mutable(self, mod, name):
        if self.prog.func(mod, name.lstrip('@')) is not None or name in mod.decls or name.lstrip('@') in mod.decls:
            return False
        key, g, m = self.prog.glob(mod, name)
        if g is None:
            return False        # an external object of libc (stderr)
        if g['external']:
            return name not in ('@stderr', '@stdout', '@stdin')
        return not g['const']

    def stores_through(self, f, params):
        """does f write through one of these parameters (positions), or let them escape?"""
        k = (id(f), tuple(sorted(params)))
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None     # in progress: assume not
        self.memo[k] = self.scan(f, params)
        return self.memo[k]

    def scan(self, f, params):
        mod = f.module
        taint = set()
        slots = set()
        for n, (t, r) in enumerate(f.params):
            if n in params:
                taint.add(r)

        def tainted(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == 'reg':
                    return v[1] in taint
                if v[0] in ('gep', 'cast', 'glob'):
                    g = base_global(v)
                    return g is not None and self.mutable(mod, g)
            return False
        changed = True
        while changed:
            n0 = (len(taint), len(slots))
            for b in f.order:
                for i in f.blocks[b]:
                    if i.res is None and i.op != 'store':
                        continue
                    if i.op == 'getelementptr' and tainted(i.a[0]):
                        taint.add(i.res)
                    elif i.op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'freeze') and tainted(i.a[0]):
                        taint.add(i.res)
                    elif i.op == 'phi' and any(tainted(v) for v, _ in i.a):
                        taint.add(i.res)
                    elif i.op == 'select' and any(tainted(v) for v in i.a[1:]):
                        taint.add(i.res)
                    elif i.op == 'load' and i.ty[0] == 'ptr' and i.a[0][0] == 'reg' and i.a[0][1] in slots:
                        taint.add(i.res)
                    elif i.op == 'store' and tainted(i.a[0]) and i.a[1][0] == 'reg' and self.local(f, i.a[1][1]):
                        slots.add(i.a[1][1])
                    elif i.op == 'call' and i.ty[0] == 'ptr':
                        h = self.callee(mod, i)
                        if any(tainted(v) for t, v in i.a[1]) and (h is None or isinstance(h, str) and h.lstrip(
                                '@') not in ('malloc', 'calloc')):
                            taint.add(i.res)
            changed = (len(taint), len(slots)) != n0
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == 'store':
                    if tainted(i.a[1]):
                        return 'line %s writes to it' % i.line
                    if tainted(i.a[0]) and not (i.a[1][0] == 'reg' and i.a[1][1] in slots):
                        return 'line %s keeps its address' % i.line
                elif i.op == 'ret' and i.a[0] is not None and tainted(i.a[0]):
                    return 'line %s returns its address' % i.line
                elif i.op == 'call':
                    pos = [n for n, (t, v) in enumerate(i.a[1]) if tainted(v)]
                    if not pos:
                        continue
                    h = self.callee(mod, i)
                    if isinstance(h, str):
                        e = EXT.get(h.lstrip('@'))
                        if e is None or any(n in e for n in pos):
                            return 'line %s hands its address to %s' % (i.line, h.lstrip('@'))
                    elif h is None:
                        for t in self.taken:
                            if len(t.params) == len(i.a[1]):
                                r = self.stores_through(t, pos)
                                if r:
                                    return 'line %s calls %s, where %s' % (i.line, t.name, r)
                    else:
                        r = self.stores_through(h, pos)
                        if r:
                            return 'line %s calls %s, where %s' % (i.line, h.name, r)
        return None

    def local(self, f, r):
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == 'alloca' and i.res == r:
                    return True
        return False

    def callee(self, mod, i):
        c = i.a[0]
        if c[0] == 'glob':
            h = self.prog.func(mod, c[1].lstrip('@'))
            return h if h is not None else c[1]
        return None

    def impure(self, f):
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == 'call':
                    h = self.callee(f.module, i)
                    if isinstance(h, str) and h.lstrip('@') in IMPURE:
                        return 'line %s calls %s' % (i.line, h.lstrip('@'))
                    if isinstance(h, str) and h.lstrip('@') not in EXT:
                        return 'line %s calls the unknown function %s' % (i.line, h.lstrip('@'))
        return None


def pure_state(eng):
    E = Effects(eng.prog)
    out = []
    for f in eng.prog.allfuncs():
        if '/sml/src/' not in f.file:
            continue
        t = time.time()
        r = E.scan(f, ())
        out.append((f.name, 'glob', 'writes no global state and lets none of it escape' + (': ' + r if r else ''), '',
                    r is None, 'effects', time.time() - t, None, [], None))
        if f.name not in EXEMPT:
            r = E.impure(f)
            unknown = r is not None and 'unknown' in r
            out.append((f.name, 'glob', 'depends on no state outside its arguments' + (': ' + r if r else ''), '',
                        r is None, 'undecided' if unknown else 'effects', 0.0, None, [], None))
    return out


def run(prop, eng, tier):
    out = []
    if prop == 'C18':
        out += pure_state(eng)
    return out
