"""Linear reasoning modulo 2^w over the facts of a path.

A cheap, sound pre-check before z3: equalities between bit-vector sums are solved by elimination (only pivots with an
odd coefficient), and an inequality follows when a known one has the same sides after elimination.  Long sums of
lengths are where bit-blasting is slow; nothing here is needed for soundness, only for speed."""
import z3

K = {z3.Z3_OP_BADD: '+', z3.Z3_OP_BSUB: '-', z3.Z3_OP_BNEG: 'n', z3.Z3_OP_BMUL: '*'}
_nf = {}


def nf(e):
    """(width, {atom id: coefficient}, constant); atoms are kept alive by the cache"""
    k = e.get_id()
    r = _nf.get(k)
    if r is not None:
        return r[1]
    w = e.size()
    m = (1 << w) - 1
    d, c = {}, 0
    if z3.is_bv_value(e):
        c = e.as_long()
    else:
        op = K.get(e.decl().kind()) if z3.is_app(e) else None
        done = False
        if op in ('+', '-', 'n'):
            for i, a in enumerate(e.children()):
                s = -1 if op == 'n' or (op == '-' and i) else 1
                _, d2, c2 = nf(a)
                for x, y in d2.items():
                    v = (d.get(x, 0) + s * y) & m
                    if v:
                        d[x] = v
                    else:
                        d.pop(x, None)
                c = (c + s * c2) & m
            done = True
        elif op == '*' and e.num_args() == 2:
            a, b = e.arg(0), e.arg(1)
            if z3.is_bv_value(b):
                a, b = b, a
            if z3.is_bv_value(a):
                f = a.as_long()
                _, d2, c2 = nf(b)
                for x, y in d2.items():
                    v = (f * y) & m
                    if v:
                        d[x] = v
                c = (f * c2) & m
                done = True
        if not done:
            d = {k: 1}
    r = (w, d, c)
    _nf[k] = (e, r)
    return r


def comb(a, b, f):
    """a + f*b"""
    w, d, c = a
    m = (1 << w) - 1
    d = dict(d)
    for x, y in b[1].items():
        v = (d.get(x, 0) + f * y) & m
        if v:
            d[x] = v
        else:
            d.pop(x, None)
    return w, d, (c + f * b[2]) & m


def key(a):
    return a[0], tuple(sorted(a[1].items())), a[2]


def parse(f):
    """[('eq', nf), ('ule', nf, nf), ('imp', [conditions], items)] of a fact"""
    out = []
    if z3.is_and(f):
        for c in f.children():
            out += parse(c)
    elif z3.is_eq(f) and z3.is_bv(f.arg(0)):
        out.append(('eq', comb(nf(f.arg(0)), nf(f.arg(1)), -1)))
    elif z3.is_implies(f):
        body = parse(f.arg(1))
        if body:
            c = f.arg(0)
            out.append(('imp', list(c.children()) if z3.is_and(c) else [c], body))
    elif z3.is_app(f):
        k = f.decl().kind()
        if k == z3.Z3_OP_ULEQ:
            out.append(('ule', nf(f.arg(0)), nf(f.arg(1))))
        elif k == z3.Z3_OP_UGEQ:
            out.append(('ule', nf(f.arg(1)), nf(f.arg(0))))
        elif k == z3.Z3_OP_ULT:
            out.append(('ult', nf(f.arg(0)), nf(f.arg(1))))
        elif k == z3.Z3_OP_UGT:
            out.append(('ult', nf(f.arg(1)), nf(f.arg(0))))
        elif k == z3.Z3_OP_NOT:
            g = f.arg(0)
            if z3.is_app(g):
                k = g.decl().kind()
                if k == z3.Z3_OP_ULEQ:
                    out.append(('ult', nf(g.arg(1)), nf(g.arg(0))))
                elif k == z3.Z3_OP_UGEQ:
                    out.append(('ult', nf(g.arg(0)), nf(g.arg(1))))
                elif k == z3.Z3_OP_ULT:
                    out.append(('ule', nf(g.arg(1)), nf(g.arg(0))))
                elif k == z3.Z3_OP_UGT:
                    out.append(('ule', nf(g.arg(0)), nf(g.arg(1))))
    return out


class Lin:
    def __init__(self, st, simp):
        self.st, self.simp = st, simp
        self.basis = {}
        self.rel = set()
        self.raw = []
        pend = []
        n = st.pc
        items = []
        while n is not None:
            x = n.lin
            if x is None:
                x = n.lin = parse(n.fact)
            items += x
            n = n.parent
        self.feed(items, pend)
        for _ in range(6):
            self.rebuild()
            again = []
            new = []
            for it in pend:
                rest = [c for c in it[1] if not self.lit(c)]
                if rest:
                    again.append(('imp', rest, it[2]))
                else:
                    new += it[2]
            if not new:
                break
            pend = again
            self.feed(new, pend)
        else:
            self.rebuild()

    def feed(self, items, pend):
        for it in items:
            if it[0] == 'eq':
                self.eq(it[1])
            elif it[0] == 'imp':
                pend.append(it)
            else:
                self.raw.append(it)

    def eq(self, a):
        a = self.red(a)
        p = next((x for x, y in a[1].items() if y & 1), None)
        if p is None:
            return
        w = a[0]
        inv = pow(a[1][p], -1, 1 << w)
        m = (1 << w) - 1
        a = (w, {x: (y * inv) & m for x, y in a[1].items()}, (a[2] * inv) & m)
        for q, b in list(self.basis.items()):
            f = b[1].get(p) if b[0] == w else None
            if f:
                self.basis[q] = comb(b, a, -f)
        self.basis[p] = a

    def red(self, a):
        for x in list(a[1]):
            b = self.basis.get(x)
            if b is not None and x in a[1] and b[0] == a[0]:
                a = comb(a, b, -a[1][x])
        return a

    def rebuild(self):
        self.rel = set()
        for k, a, b in self.raw:
            self.rel.add((k, key(self.red(a)), key(self.red(b))))

    def lit(self, c):
        g = self.simp(c)
        if z3.is_true(g):
            return True
        k = self.st.known.get(g.get_id())
        if k is not None and k[0] is True:
            return True
        return self.holds(c)

    def holds(self, goal):
        its = parse(goal) if not z3.is_implies(goal) else []
        n = len(goal.children()) if z3.is_and(goal) else 1
        if z3.is_and(goal):
            return all(self.lit(x) for x in goal.children())
        if len(its) != 1:
            return False
        it = its[0]
        if it[0] == 'eq':
            a = self.red(it[1])
            return not a[1] and a[2] == 0
        if it[0] == 'imp':
            return False
        a, b = key(self.red(it[1])), key(self.red(it[2]))
        if it[0] == 'ule':
            return a == b or ('ule', a, b) in self.rel or ('ult', a, b) in self.rel or \
                (not a[1] and a[2] == 0) or (not a[1] and not b[1] and a[2] <= b[2])
        return ('ult', a, b) in self.rel or (not a[1] and not b[1] and a[2] < b[2])
