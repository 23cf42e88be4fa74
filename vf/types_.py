"""Ownership predicates: which memory an object of each C type owns, and its abstract value."""
import z3
from core import *
from ir import Unsupported

I32 = z3.BitVecSort(32)
B8 = z3.BitVecSort(8)

# ---- abstract values -------------------------------------------------------
F = {}


def fn(name, *sorts):
    if name not in F:
        F[name] = z3.Function(name, *sorts)
    return F[name]


def nbits(w):
    return fn('nbits%d' % w, VS, z3.BitVecSort(8 * w))


def mknum(w, bits):
    f = fn('mknum%d' % w, z3.BitVecSort(8 * w), VS)
    return f(simp(bits))


octlen = z3.Function('octlen', VS, I32)
octb = z3.Function('octb', VS, B64, B8)
CONS = z3.Function('cons', VS, VS, VS)
APP = z3.Function('app', VS, VS, VS)
HD = z3.Function('hd', VS, VS)
TL_ = z3.Function('tl', VS, VS)
NTH = z3.Function('nth', VS, B64, VS)
DROP = z3.Function('drop', VS, B64, VS)
LLEN = z3.Function('llen', VS, B64)


def is_fn(e, d):
    return z3.is_app(e) and e.decl().eq(d)


def cons(x, t):
    return CONS(x, t)


def app(p, t):
    if p.eq(VNULL):
        return t
    if t.eq(VNULL):
        return p
    if is_fn(p, CONS):
        return CONS(p.arg(0), app(p.arg(1), t))
    if is_fn(p, APP):
        return APP(p.arg(0), app(p.arg(1), t))
    return APP(p, t)


def rank(v):
    """size of a value: the parts of a finite object are smaller than the object"""
    return fn('rank', VS, B64)(v)


def snoc(p, x):
    return app(p, CONS(x, VNULL))


def llen(l):
    if l.eq(VNULL):
        return Z64
    if is_fn(l, CONS):
        return simp(llen(l.arg(1)) + 1)
    if is_fn(l, APP):
        return simp(llen(l.arg(0)) + llen(l.arg(1)))
    return LLEN(l)


def lfacts(l):
    """facts about the length of the atoms in l"""
    out = []

    def go(x):
        if x.eq(VNULL):
            return
        if is_fn(x, CONS):
            out.append(x != VNULL)
            go(x.arg(1))
        elif is_fn(x, APP):
            go(x.arg(0))
            go(x.arg(1))
        else:
            out.append(z3.ULT(LLEN(x), BV(1 << 31, 64)))
            out.append((LLEN(x) == 0) == (x == VNULL))
    go(l)
    return out


MSGTAGS = [(0x100, 'OpenRequest'), (0x101, 'OpenResponse'), (0x200, 'CloseRequest'), (0x201, 'CloseResponse'),
           (0x300, 'ProfilePackRequest'), (0x301, 'ProfilePackResponse'), (0x400, 'ProfilePackRequest'),
           (0x401, 'ProfileListResponse'), (0x500, 'ProcParameterRequest'), (0x501, 'ProcParameterResponse'),
           (0x600, 'SetProcParameterRequest'), (0x700, 'ListRequest'), (0x701, 'ListResponse'),
           (0xff01, 'Attention')]


MAXLEN = (1 << 31) - 1


class FieldSpec:
    __slots__ = ('name', 'kind', 'T', 'size', 'off', 'nn', 'hidden', 'lenf')

    def __init__(self, name, kind, T=None, nn=False, hidden=False, lenf=None):
        self.name, self.kind, self.T, self.nn, self.hidden, self.lenf = name, kind, T, nn, hidden, lenf
        self.off = self.size = None


class TBase:
    name = '?'

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class TNum(TBase):
    def __init__(self, w):
        TBase.__init__(self, 'Num%d' % w)
        self.w = w
        self.size = w

    def open(self, ex, st, b, v, tt):
        o = Obj(self.w, 'heap', cells={})
        if is_fn(v, fn('mknum%d' % self.w, z3.BitVecSort(8 * self.w), VS)):
            bits = v.arg(0)
        else:
            bits = nbits(self.w)(v)
        o.cells[0] = (self.w, bits)
        st.objs[b] = o

    def fold(self, ex, st, b, o, tt, ins):
        if o.size != self.w:
            return None
        if o.cells is None:
            if o.content is None:
                return None
            bs = [o.content.get(st, BV(k, 64)) for k in range(self.w)]
            v = z3.Concat(*reversed(bs)) if self.w > 1 else bs[0]
        else:
            v = ex.cell_load(st, o, 0, self.w, ('i', 8 * self.w))
        if isinstance(v, (Undef, Ptr)):
            return None
        bits = simp(v)
        f = nbits(self.w)
        m = mknum(self.w, bits)
        if is_fn(bits, f):
            r = bits.arg(0)
            st.add(r == m)
        else:
            r = m
            st.add(f(r) == bits, r != VNULL)
        del st.objs[b]
        return r


class TOctBuf(TBase):
    """the bytes of an octet string; the value is the octet string's"""

    def open(self, ex, st, b, v, tt):
        n = simp(z3.SignExt(32, octlen(v)))
        o = Obj(cint(n) if cint(n) is not None else n, 'heap')
        o.kind = 'raw'
        o.content = CFun(lambda s, i, v=v: tt.octbyte(s, v, i), tag=('oct', v))
        st.objs[b] = o


class TOct(TBase):
    def open(self, ex, st, b, v, tt):
        o = Obj(self.size, 'heap', cells={}, tag='octet_string')
        s = Base('str', 'sym')
        n = octlen(v)
        st.add(n >= 0, (s.term == 0) == (n == 0))
        st.chunks[s] = Own(tt.T['OctBuf'], v)
        o.cells[self.off['str']] = (8, Ptr(s))
        o.cells[self.off['len']] = (4, n)
        st.objs[b] = o

    def fold(self, ex, st, b, o, tt, ins):
        if o.cells is None or o.size != self.size:
            return None
        s = o.cells.get(self.off['str'])
        n = o.cells.get(self.off['len'])
        if s is None or n is None or s[0] != 8 or n[0] != 4 or not isinstance(s[1], Ptr) or isinstance(n[1], Undef):
            return None
        s, n = s[1], n[1]
        sb = s.base
        if sb is not None and sb in st.chunks:
            c = st.chunks[sb]
            if not isinstance(c, Own) or c.T is not tt.T['OctBuf']:
                return None
            if cint(s.off) != 0:
                return None
            v = c.v
            nv = octlen(v)
            if n.eq(nv) or st.decide(n == nv) is True:
                del st.chunks[sb]
                del st.objs[b]
                return v
            return None
        if sb is None:
            if cint(s.off) != 0:
                return None
            if st.decide(n == 0) is not True:
                return None
            v = fresh('oct', VS)
            st.add(v != VNULL, octlen(v) == 0)
            # the empty string is determined by its length
            e = tt.octOf(Z64, BV(0, 32))
            del st.objs[b]
            st.add(v == tt.EMPTY)
            return v
        if sb not in st.objs or cint(s.off) != 0:
            return None
        so = st.objs[sb]
        if so.kind not in ('heap', 'raw'):
            return None
        if st.decide(so.sz() == z3.SignExt(32, n)) is not True or st.decide(n > 0) is not True:
            return None
        so = ex.tobytes(st, sb, so)
        con = so.content
        tag = getattr(con, 'tag', None)
        if tag is not None and tag[0] == 'oct' and st.decide(octlen(tag[1]) == n) is True:
            v = tag[1]
        else:
            v = tt.oct_closure(st, n, con)
        del st.objs[sb]
        del st.objs[b]
        return v


class TStruct(TBase):
    def __init__(self, name, cname, fields, inv=None, vname=None):
        TBase.__init__(self, name)
        self.cname = cname
        self.fields = fields
        self.linked = None
        self.vname = vname or name
        self.inv = inv

    # value constructors / selectors
    def sorts(self):
        out = []
        for f in self.fields:
            if f.hidden or f.kind in ('next', 'fn', 'len'):
                continue
            out.append((f, z3.BitVecSort(8 * f.size) if f.kind == 'int' else VS))
        return out

    def mk(self, st, vals):
        ss = self.sorts()
        f = fn('mk_' + self.vname, *([s for _, s in ss] + [VS]))
        args = [simp(vals[x.name]) if x.kind == 'int' else vals[x.name] for x, _ in ss]
        # mk(sel1(v),...,seln(v)) is v
        v0 = None
        for (x, s), a in zip(ss, args):
            d = self.selfn(x)
            if not (is_fn(a, d) and (v0 is None or a.arg(0).eq(v0))):
                v0 = None
                break
            v0 = a.arg(0)
        if v0 is not None and st is not None and self.is_mk_ok(st, v0):
            return v0
        r = f(*args)
        if st is not None:
            st.add(r != VNULL)
            for (x, s), a in zip(ss, args):
                st.add(self.selfn(x)(r) == a)
        return r

    def is_mk_ok(self, st, v0):
        return st.decide(v0 != VNULL) is True

    def selfn(self, f):
        return fn('sel_%s_%s' % (self.vname, f.name), VS, z3.BitVecSort(8 * f.size) if f.kind == 'int' else VS)

    def sel(self, v, name):
        f = self.byname[name]
        ss = self.sorts()
        m = F.get('mk_' + self.vname)
        if m is not None and is_fn(v, m):
            for i, (x, _) in enumerate(ss):
                if x is f:
                    return v.arg(i)
        return self.selfn(f)(v)

    def open(self, ex, st, b, v, tt):
        o = Obj(self.size, 'heap', cells={}, tag=self.cname)
        st.objs[b] = o
        vals = {}
        ev = v
        if self.linked:
            if is_fn(v, CONS):
                ev, tv = v.arg(0), v.arg(1)
            else:
                ev, tv = HD(v), TL_(v)
                st.add(v == cons(ev, tv), ev != VNULL, LLEN(v) == LLEN(tv) + 1)
                st.add(*lfacts(tv))
        st.add(ev == self.mk(None, {f.name: self.selfn(f)(ev) for f, _ in self.sorts()}))
        if tt.rank:
            if self.linked:
                st.add(z3.ULT(rank(ev), rank(v)), z3.Implies(tv != VNULL, z3.ULT(rank(tv), rank(v))))
            for f, s in self.sorts():
                if s == VS and not f.hidden:
                    x = self.selfn(f)(ev)
                    st.add(z3.Implies(x != VNULL, z3.ULT(rank(x), rank(ev))))
        for f in self.fields:
            if f.kind == 'int':
                vals[f.name] = self.sel(ev, f.name)
                o.cells[f.off] = (f.size, vals[f.name])
            elif f.kind == 'own':
                if f.hidden:
                    fv = fresh('hid', VS)
                else:
                    fv = self.sel(ev, f.name)
                vals[f.name] = fv
                if f.nn:
                    st.add(fv != VNULL)
                o.cells[f.off] = (8, tt.produce(st, f.T, fv, f.name))
        for f in self.fields:
            if f.kind == 'union':
                fv = self.sel(ev, f.name)
                vals[f.name] = fv
                opts = f.T(tt, vals)
                u = Base(f.name, 'sym')
                st.add((u.term == 0) == (fv == VNULL))
                ne = [c for c, t in opts if t is None]
                if ne:
                    st.add(z3.Implies(z3.Or(*ne), fv == VNULL))
                st.chunks[u] = UOwn(opts, fv)
                o.cells[f.off] = (8, Ptr(u))
            elif f.kind == 'parr':
                L = self.sel(ev, f.name)
                st.add(*lfacts(L))
                u = Base(f.name, 'sym')
                n = simp(z3.Extract(31, 0, llen(L)))
                st.add((u.term == 0) == (llen(L) == 0))
                st.chunks[u] = PArrOwn(f.T, L)
                o.cells[f.off] = (8, Ptr(u))
                lf = self.byname[f.lenf]
                o.cells[lf.off] = (lf.size, n)
            elif f.kind == 'fn':
                o.cells[f.off] = (8, tt.elem_free_ptr(f.T))
            elif f.kind == 'next':
                o.cells[f.off] = (8, tt.produce(st, self, tv, 'next'))

    def fold(self, ex, st, b, o, tt, ins):
        """-> V or None when the object is not a complete, consistent value of this type (state unchanged then is not
        guaranteed; callers work on copies)"""
        if o.cells is None or o.size != self.size:
            return None
        vals = {}
        for f in self.fields:
            c = o.cells.get(f.off)
            if c is None or c[0] != f.size:
                if f.kind == 'int' or f.kind == 'len':
                    v = ex.cell_load(st, o, f.off, f.size, ('i', 8 * f.size))
                else:
                    x = ex.cell_load(st, o, f.off, f.size, ('ptr',))
                    v = x if isinstance(x, Undef) else (x if isinstance(x, Ptr) else (
                        NULL if cint(simp(x)) == 0 else UNDEF))
                if isinstance(v, Undef):
                    tt.why = '%s.%s is uninitialised' % (self.cname, f.name)
                    return None
            else:
                v = c[1]
                if isinstance(v, tuple):
                    v = ex.cell_load(st, o, f.off, f.size, ('ptr',))
            vals[f.name] = v
        out = {}
        for f in self.fields:
            v = vals[f.name]
            if f.kind == 'int':
                if isinstance(v, Ptr):
                    return None
                out[f.name] = v
            elif f.kind in ('own', 'union', 'next', 'parr', 'fn'):
                if z3.is_expr(v):
                    if cint(simp(v)) == 0:
                        v = NULL
                    else:
                        tt.why = '%s.%s is not a pointer' % (self.cname, f.name)
                        return None
                vals[f.name] = v
        for f in self.fields:
            v = vals[f.name]
            if f.kind == 'own':
                x = tt.take(ex, st, v, f.T, ins)
                if x is None:
                    return None
                if f.nn and st.decide(x != VNULL) is not True:
                    tt.why = '%s.%s may be NULL' % (self.cname, f.name)
                    return None
                out[f.name] = x
        for f in self.fields:
            v = vals[f.name]
            if f.kind == 'union':
                x = tt.take_union(ex, st, v, f.T(tt, out), ins)
                if x is None:
                    return None
                out[f.name] = x
            elif f.kind == 'parr':
                x = tt.take_parr(ex, st, v, vals[f.lenf], f.T, ins)
                if x is None:
                    return None
                out[f.name] = x
            elif f.kind == 'fn':
                if v.base is None or v.base.kind != 'func' or tt.elem_of_free(ex, v.base) is not f.T:
                    tt.why = '%s.%s is not the release function of its elements' % (self.cname, f.name)
                    return None
            elif f.kind == 'next':
                x = tt.take(ex, st, v, self, ins)
                if x is None:
                    return None
                out['next'] = x
        del st.objs[b]
        r = self.mk(st, out)
        if self.linked:
            r2 = cons(r, out['next'])
            if is_fn(r, HD) and is_fn(out['next'], TL_) and r.arg(0).eq(out['next'].arg(0)):
                return r.arg(0)
            st.add(r2 != VNULL)
            return r2
        return r


class PArrOwn:
    """a chunk: block of pointers to the elements of L"""
    __slots__ = ('E', 'L', 'parent')

    def __init__(self, E, L):
        self.E, self.L, self.parent = E, L, None

    def __repr__(self):
        return 'PArr(%s,%s)' % (self.E, self.L)


class TAbstract(TBase):
    """the element type of a generic sequence"""

    def open(self, ex, st, b, v, tt):
        raise Unsupported('access to a generic element')

    def fold(self, *a):
        return None


def F_(n, T, **k):
    return FieldSpec(n, 'own', T, **k)


class TypeTable:
    def __init__(self, prog, repo):
        self.prog = prog
        self.T = {}
        self.why = None
        self.EMPTY = z3.Const('OCT_EMPTY', VS)
        T = self.T
        for w in (1, 2, 4, 8):
            T['Num%d' % w] = TNum(w)
        T['OctBuf'] = TOctBuf('OctBuf')
        T['Oct'] = TOct('Oct')
        T['Elem'] = TAbstract('Elem')

        def num_opts(tt, tp):
            lo = tp & 0xf
            return [(lo == w, T['Num%d' % w]) for w in (1, 2, 4, 8)]

        def value_opts(tt, vals):
            t = vals['type']
            hi = t & 0xf0
            num = z3.Or(hi == 0x50, hi == 0x60)
            out = [(t == 0, T['Oct']), (t == 0x40, T['Num1'])]
            for w in (1, 2, 4, 8):
                out.append((z3.And(num, (t & 0xf) == w), T['Num%d' % w]))
            out.append((z3.Not(z3.Or(*[c for c, _ in out])), None))
            return out

        def status_opts(tt, vals):
            t = vals['type']
            out = [((t & 0xf) == w, T['Num%d' % w]) for w in (1, 2, 4, 8)]
            out.append((z3.Not(z3.Or(*[c for c, _ in out])), None))
            return out

        def tagged(w, opts):
            def f(tt, vals):
                tag = vals['tag']
                bits = tag.arg(0) if is_fn(tag, fn('mknum%d' % w, z3.BitVecSort(8 * w), VS)) else nbits(w)(tag)
                out = [(z3.And(tag != VNULL, bits == k), T[n]) for k, n in opts]
                out.append((z3.Not(z3.Or(*[c for c, _ in out])), None))
                return out
            return f
        S = lambda n, c, fs, **k: T.__setitem__(n, TStruct(n, c, fs, **k))
        oct_ = lambda *ns: [F_(n, 'Oct') for n in ns]
        S('Status', 'sml_status', [FieldSpec('type', 'int'), FieldSpec('data', 'union', status_opts)])
        S('Value', 'sml_value', [FieldSpec('type', 'int'), FieldSpec('data', 'union', value_opts)])
        S('Time', 'sml_time', [F_('tag', 'Num1'), F_('data', 'Num4')])
        S('List', 'sml_list', [F_('obj_name', 'Oct'), F_('status', 'Status'), F_('val_time', 'Time'), F_('unit', 'Num1'),
                               F_('scaler', 'Num1'), F_('value', 'Value'), F_('value_signature', 'Oct'),
                               FieldSpec('next', 'next')], vname='ListEntry')
        T['List'].linked = True
        S('ObjList', 'sml_obj_req_entry_list', [F_('object_list_entry', 'Oct'), FieldSpec('next', 'next')],
          vname='ObjEntry')
        T['ObjList'].linked = True
        S('TreePath', 'sml_tree_path', [FieldSpec('path_entries_len', 'len'),
                                        FieldSpec('path_entries', 'parr', 'Oct', lenf='path_entries_len')])
        S('PPV', 'sml_proc_par_value', [F_('tag', 'Num1', nn=True), FieldSpec('data', 'union', tagged(
            1, [(1, 'Value'), (2, 'Period'), (3, 'Tupel'), (4, 'Time')]))])
        S('Tree', 'sml_tree', [F_('parameter_name', 'Oct'), F_('parameter_value', 'PPV'),
                               FieldSpec('child_list', 'parr', 'Tree', lenf='child_list_len'),
                               FieldSpec('child_list_len', 'len')])
        tf = [F_('server_id', 'Oct'), F_('sec_index', 'Time'), F_('status', 'Num8')]
        for g in ('pA', 'R1', 'R4'):
            tf += [F_('unit_' + g, 'Num1'), F_('scaler_' + g, 'Num1'), F_('value_' + g, 'Num8')]
        tf += oct_('signature_pA_R1_R4')
        for g in ('mA', 'R2', 'R3'):
            tf += [F_('unit_' + g, 'Num1'), F_('scaler_' + g, 'Num1'), F_('value_' + g, 'Num8')]
        tf += oct_('signature_mA_R2_R3')
        S('Tupel', 'sml_tupel_entry', tf)
        S('Period', 'sml_period_entry', [F_('obj_name', 'Oct'), F_('unit', 'Num1'), F_('scaler', 'Num1'),
                                         F_('value', 'Value'), F_('value_signature', 'Oct')])
        S('Header', 'sml_prof_obj_header_entry', [F_('obj_name', 'Oct'), F_('unit', 'Num1'), F_('scaler', 'Num1')])
        S('ValueEntry', 'sml_value_entry', [F_('value', 'Value'), F_('value_signature', 'Oct')])
        for e in ('Elem', 'Period', 'Header', 'ValueEntry'):
            S('Seq:' + e, 'sml_sequence', [FieldSpec('elems', 'parr', e, lenf='elems_len'),
                                           FieldSpec('elems_len', 'len'), FieldSpec('elem_free', 'fn', e)])
        S('PeriodEntry', 'sml_prof_obj_period_entry', [F_('val_time', 'Time'), F_('status', 'Num8'),
                                                       F_('value_list', 'Seq:ValueEntry'),
                                                       F_('period_signature', 'Oct')])
        S('Seq:PeriodEntry', 'sml_sequence', [FieldSpec('elems', 'parr', 'PeriodEntry', lenf='elems_len'),
                                              FieldSpec('elems_len', 'len'), FieldSpec('elem_free', 'fn', 'PeriodEntry')])
        S('OpenRequest', 'sml_open_request', oct_('codepage', 'client_id', 'req_file_id', 'server_id', 'username',
                                                  'password') + [F_('sml_version', 'Num1')])
        S('OpenResponse', 'sml_open_response', oct_('codepage', 'client_id', 'req_file_id', 'server_id') +
          [F_('ref_time', 'Time'), F_('sml_version', 'Num1')])
        S('CloseRequest', 'sml_close_request', oct_('global_signature'))
        S('CloseResponse', 'sml_close_response', oct_('global_signature'))
        S('ProfilePackRequest', 'sml_get_profile_pack_request', oct_('server_id', 'username', 'password') + [
            F_('with_rawdata', 'Num1'), F_('begin_time', 'Time'), F_('end_time', 'Time'),
            F_('parameter_tree_path', 'TreePath'), F_('object_list', 'ObjList'), F_('das_details', 'Tree')])
        S('ProfilePackResponse', 'sml_get_profile_pack_response', [
            F_('server_id', 'Oct'), F_('act_time', 'Time'), F_('reg_period', 'Num4'),
            F_('parameter_tree_path', 'TreePath'), F_('header_list', 'Seq:Header'), F_('period_list', 'Seq:PeriodEntry'),
            F_('rawdata', 'Oct'), F_('profile_signature', 'Oct')])
        S('ProfileListResponse', 'sml_get_profile_list_response', [
            F_('server_id', 'Oct'), F_('act_time', 'Time'), F_('reg_period', 'Num4'),
            F_('parameter_tree_path', 'TreePath'), F_('val_time', 'Time'), F_('status', 'Num8'),
            F_('period_list', 'Seq:Period'), F_('rawdata', 'Oct'), F_('period_signature', 'Oct')])
        S('ProcParameterRequest', 'sml_get_proc_parameter_request', oct_('server_id', 'username', 'password') + [
            F_('parameter_tree_path', 'TreePath'), F_('attribute', 'Oct')])
        S('ProcParameterResponse', 'sml_get_proc_parameter_response', [
            F_('server_id', 'Oct'), F_('parameter_tree_path', 'TreePath'), F_('parameter_tree', 'Tree')])
        S('SetProcParameterRequest', 'sml_set_proc_parameter_request', oct_('server_id', 'username', 'password') + [
            F_('parameter_tree_path', 'TreePath'), F_('parameter_tree', 'Tree')])
        S('ListRequest', 'sml_get_list_request', oct_('client_id', 'server_id', 'username', 'password', 'list_name'))
        S('ListResponse', 'sml_get_list_response', oct_('client_id', 'server_id', 'list_name') + [
            F_('act_sensor_time', 'Time'), F_('val_list', 'List'), F_('list_signature', 'Oct'),
            F_('act_gateway_time', 'Time')])
        S('Attention', 'sml_attention_response', oct_('server_id', 'attention_number', 'attention_message') + [
            F_('attention_details', 'Tree')])
        self.MSG = MSGTAGS
        S('Body', 'sml_message_body', [F_('tag', 'Num4', nn=True), FieldSpec('data', 'union', tagged(4, self.MSG))])
        S('Message', 'sml_message', oct_('transaction_id') + [F_('group_id', 'Num1'), F_('abort_on_error', 'Num1'),
                                                             F_('message_body', 'Body'), F_('crc', 'Num2', hidden=True)])
        S('File', 'sml_file', [FieldSpec('messages', 'parr', 'Message', lenf='messages_len'),
                               FieldSpec('messages_len', 'len'), F_('buf', 'Buffer', hidden=True)])
        T['Buffer'] = TBuffer('Buffer')
        self.layout(repo)

    def layout(self, repo):
        import prog
        want = {'octet_string': ['str', 'len'],
                'sml_buffer': ['buffer', 'buffer_len', 'cursor', 'error', 'error_msg']}
        for t in self.T.values():
            if isinstance(t, TStruct):
                want[t.cname] = [f.name for f in t.fields]
        offs = prog.offsets(repo, want)
        self.offs = offs
        o = self.T['Oct']
        o.size, d = offs['octet_string']
        o.off = {k: v[0] for k, v in d.items()}
        self.bufsize, d = offs['sml_buffer']
        self.bo = {k: v[0] for k, v in d.items()}
        self.bz = {k: v[1] for k, v in d.items()}
        self.bycname = {'octet_string': o}
        for t in self.T.values():
            if isinstance(t, TStruct):
                t.size, d = offs[t.cname]
                t.byname = {f.name: f for f in t.fields}
                for f in t.fields:
                    f.off, f.size = d[f.name]
                    if isinstance(f.T, str):
                        f.T = self.T[f.T]
                if t.cname != 'sml_sequence':
                    self.bycname[t.cname] = t
        for a, b in (('struct.sml_list_entry', 'sml_list'), ('struct.s_tree', 'sml_tree'),
                     ('struct.sml_obj_req_entry_list_entry', 'sml_obj_req_entry_list')):
            self.bycname[a] = self.T[{'sml_list': 'List', 'sml_tree': 'Tree'}.get(b, 'ObjList')]

    def tag_type(self, tag, ex=None, o=None):
        """C struct tag seen in the IR -> list of candidate types"""
        if tag is None:
            return []
        t = tag
        if t.startswith('%'):
            t = t[1:]
        if t in self.bycname:
            return [self.bycname[t]]
        if t.startswith('struct.'):
            t = t[7:]
        t = t.split('.')[0]
        if t in self.bycname:
            return [self.bycname[t]]
        if t == 'sml_sequence':
            return [x for n, x in self.T.items() if n.startswith('Seq:')]
        if t == 'sml_buffer':
            return [self.T['Buffer']]
        return []

    # ---- octet strings -------------------------------------------------------
    def octOf(self, off, ln):
        """the octet string made of ln bytes of the parse buffer at off"""
        return fn('octOf', B64, I32, VS)(simp(off), simp(ln))

    def octbyte(self, st, v, i):
        if is_fn(v, fn('octOf', B64, I32, VS)):
            return fn('B', B64, B8)(simp(v.arg(0) + i))
        c = st.octc.get(v.get_id()) if st is not None else None
        r = octb(v, simp(i))
        if c is not None:
            b = c[2].get(st, simp(i))
            st.add(r == b)
        return r

    def oct_closure(self, st, n, content):
        v = fresh('oct', VS)
        st.add(v != VNULL, octlen(v) == n)
        st.octc[v.get_id()] = (v, n, content)
        return v

    # ---- chunks ---------------------------------------------------------------
    def produce(self, st, T, v, name='p'):
        if v.eq(VNULL):
            return NULL
        b = Base(name, 'sym')
        st.add((b.term == 0) == (v == VNULL))
        if getattr(T, 'linked', None):
            st.add(*lfacts(v))
        st.chunks[b] = Own(T, v)
        return Ptr(b)

    def open(self, ex, st, b, ins):
        c = st.chunks.pop(b)
        if isinstance(c, Own):
            if c.memo is not None:
                o, subs = c.memo
                st.objs[b] = o
                for k, x in subs.items():
                    st.chunks[k] = x
                return
            st.add(c.v != VNULL)
            c.T.open(ex, st, b, c.v, self)
            return
        if isinstance(c, UOwn):
            live = []
            for cond, t in c.opts:
                d = st.decide(cond)
                if d is True:
                    live = [(cond, t)]
                    break
                if d is None:
                    live.append((cond, t))
            if len(live) != 1:
                st.chunks[b] = c
                raise Fork([simp(x) for x, _ in live])
            t = live[0][1]
            if t is None:
                st.chunks[b] = c
                ex.fail(st, 'mem', 'access through a choice member of unknown type', ins)
            st.chunks[b] = Own(t, c.v)
            return self.open(ex, st, b, ins)
        if isinstance(c, PArrOwn):
            o = Obj(simp(llen(c.L) * 8), 'raw')
            o.arr = PArr(c.E, c.L, Z64, llen(c.L))
            st.objs[b] = o
            return
        if isinstance(c, LSeg):
            L = c.L
            if is_fn(L, CONS):
                e, t = L.arg(0), L.arg(1)
            else:
                e, t = HD(L), TL_(L)
                st.add(L == cons(e, t), e != VNULL)
            z = st.decide(t == VNULL)
            if z is None:
                st.chunks[b] = c
                raise Fork([t == VNULL, t != VNULL])
            c.T.open(ex, st, b, cons(e, VNULL), self)
            o = st.wobj(b)
            f = c.T.byname['next']
            if z:
                o.cells[f.off] = (8, Ptr(c.to))
            else:
                nb = Base('next', 'sym')
                st.add(nb.term != 0)
                st.chunks[nb] = LSeg(c.T, c.to, t)
                o.cells[f.off] = (8, Ptr(nb))
            return
        raise Unsupported('open %r' % c)

    # ---- taking ownership --------------------------------------------------------
    def take(self, ex, st, p, T, ins):
        """consume the object p as a T; -> its value, or None (self.why says why)"""
        if isinstance(p, Undef):
            self.why = 'uninitialised pointer'
            return None
        if not isinstance(p, Ptr):
            self.why = 'not a pointer'
            return None
        if p.base is None:
            if cint(p.off) == 0:
                return VNULL
            self.why = 'invalid pointer'
            return None
        b = p.base
        if cint(p.off) != 0:
            self.why = 'pointer into the middle of an object'
            return None
        c = st.chunks.get(b)
        if c is not None:
            if isinstance(c, Own):
                if c.T is T or (T == 'AnyNum' and isinstance(c.T, TNum)):
                    del st.chunks[b]
                    return c.v
                if st.decide(c.v == VNULL) is True:
                    del st.chunks[b]
                    return VNULL
                self.why = 'object of type %s where %s is expected' % (c.T, T)
                return None
            if isinstance(c, UOwn):
                if st.decide(c.v == VNULL) is True:
                    del st.chunks[b]
                    return VNULL
                bad = []
                for cond, t in c.opts:
                    if t is None or t is T or (T == 'AnyNum' and isinstance(t, TNum)):
                        continue
                    bad.append(cond)
                if bad:
                    g = z3.Not(z3.Or(*bad))
                    if st.decide(z3.Or(g, c.v == VNULL)) is not True:
                        self.why = 'choice member may be of another type than %s' % (T,)
                        return None
                del st.chunks[b]
                return c.v
            if isinstance(c, LSeg):
                if c.T is not T:
                    self.why = 'list of another type'
                    return None
                del st.chunks[b]
                r = self.take(ex, st, Ptr(c.to), T, ins)
                if r is None:
                    return None
                return app(c.L, r)
            self.why = 'a block of pointers where %s is expected' % (T,)
            return None
        if b in st.objs:
            o = st.objs[b]
            if o.kind not in ('heap', 'raw'):
                self.why = 'not a heap object'
                return None
            if T == 'AnyNum':
                for w in (1, 2, 4, 8):
                    if o.size == w:
                        return self.T['Num%d' % w].fold(ex, st, b, o, self, ins)
                self.why = 'not a number'
                return None
            r = T.fold(ex, st, b, o, self, ins)
            if r is None and self.why is None:
                self.why = 'not a complete %s' % (T,)
            return r
        if b in st.freed:
            self.why = 'already released'
            return None
        if b.kind == 'sym' and st.decide(b.term == 0) is True:
            return VNULL
        self.why = 'not owned here (released or given away before)'
        return None

    def take_union(self, ex, st, p, opts, ins):
        if p.base is None:
            return VNULL if cint(p.off) == 0 else None
        b = p.base
        c = st.chunks.get(b)
        if isinstance(c, UOwn):
            # every option of the target must agree with the chunk's
            if st.decide(c.v == VNULL) is True:
                del st.chunks[b]
                return VNULL
            for cond, t in c.opts:
                for cond2, t2 in opts:
                    if t is t2 or t is None:
                        continue
                    if st.decide(z3.And(cond, cond2)) is not False:
                        self.why = 'choice member does not agree with its tag'
                        return None
            del st.chunks[b]
            return c.v
        live = []
        for cond, t in opts:
            d = st.decide(cond)
            if d is True:
                live = [(cond, t)]
                break
            if d is None:
                live.append((cond, t))
        if not live:
            raise Dead()
        if len(live) > 1:
            if isinstance(c, Own):
                # a single possible reading?
                ok = True
                for cond, t in live:
                    if t is not c.T:
                        ok = False
                if ok:
                    del st.chunks[b]
                    return c.v
                if st.decide(c.v == VNULL) is True:
                    del st.chunks[b]
                    return VNULL
            raise Fork([simp(x) for x, _ in live])
        t = live[0][1]
        if t is None:
            if st.decide(ex.nullcond(p)) is True:
                st.chunks.pop(b, None)
                return VNULL
            self.why = 'choice member set although its tag does not allow one'
            return None
        return self.take(ex, st, p, t, ins)

    def take_parr(self, ex, st, p, n, E, ins):
        if p.base is None:
            if cint(p.off) != 0:
                return None
            if st.decide(n == 0) is not True:
                self.why = 'element count does not match the (missing) elements'
                return None
            return VNULL
        b = p.base
        c = st.chunks.get(b)
        if isinstance(c, PArrOwn):
            if c.E is not E:
                self.why = 'elements of type %s where %s are expected' % (c.E, E)
                return None
            if st.decide(z3.SignExt(32, n) == llen(c.L)) is not True:
                self.why = 'element count does not match the elements'
                return None
            del st.chunks[b]
            return c.L
        o = st.objs.get(b)
        if o is None or o.kind not in ('heap', 'raw') or cint(p.off) != 0:
            self.why = 'elements are not owned'
            return None
        if o.arr is None:
            if o.cells is not None:
                # a small block of pointers
                cn = cint(simp(n))
                if cn is None:
                    cn = next((k for k in range(1, min(o.size // 8, 4) + 1) if st.decide(n == k) is True), None)
                if cn is None:
                    self.why = 'element count unknown'
                    return None
                if o.size < 8 * cn:
                    self.why = 'element count exceeds the block'
                    return None
                vs = []
                for k in range(cn):
                    x = o.cells.get(8 * k)
                    if x is None or not isinstance(x[1], Ptr):
                        self.why = 'element %d is not set' % k
                        return None
                    v = self.take(ex, st, x[1], E, ins)
                    if v is None:
                        return None
                    vs.append(v)
                L = VNULL
                for v in reversed(vs):
                    L = cons(v, L)
                if cn == 0:
                    self.why = 'empty block of elements is not released'
                    return None
                del st.objs[b]
                return L
            self.why = 'elements are not set'
            return None
        a = o.arr
        if a.E is not None and a.E is not E:
            self.why = 'elements of another type'
            return None
        self.return_loans(ex, st, b, ins)
        o = st.objs[b]
        a = o.arr
        if a.loans:
            self.why = 'an element was released or changed'
            return None
        L = a.L
        if not (a.lo.eq(Z64) or st.decide(a.lo == 0) is True):
            self.why = 'elements already released'
            return None
        for x in a.extra:
            v = self.take(ex, st, x, E, ins)
            if v is None:
                return None
            L = snoc(L, v)
        st.add(*lfacts(L))
        cnt = simp(a.hi + len(a.extra))
        if st.decide(z3.And(z3.SignExt(32, n) == cnt, cnt != 0)) is not True:
            self.why = 'element count does not match the elements'
            return None
        if not a.hi.eq(llen(a.L)) and st.decide(a.hi == llen(a.L)) is not True:
            self.why = 'elements missing'
            return None
        st.add(L != VNULL)
        del st.objs[b]
        return L

    # ---- pointer arrays ---------------------------------------------------------
    def nth(self, st, L, i):
        i = simp(i)
        c = cint(i)
        x = L
        k = 0
        while is_fn(x, CONS):
            if c is not None and c == k:
                return x.arg(0)
            if c is None:
                break
            x = x.arg(1)
            k += 1
        r = NTH(L, i)
        return r

    def drop(self, L, i):
        if cint(simp(i)) == 0:
            return L
        return DROP(L, simp(i))

    def index(self, st, off):
        """off / 8, as the index expression of the program where that is the same"""
        idx = simp(z3.LShR(off, 3))
        o = simp(off)
        x = None
        if z3.is_app_of(o, z3.Z3_OP_BMUL) and o.num_args() == 2:
            a, b = o.arg(0), o.arg(1)
            x = b if cint(a) == 8 else a if cint(b) == 8 else None
        elif z3.is_app_of(o, z3.Z3_OP_CONCAT) and cint(o.arg(o.num_args() - 1)) == 0 and \
                o.arg(o.num_args() - 1).size() == 3:
            y = simp(z3.LShR(o, 3))
            w = o.size() - 3
            z = simp(z3.Extract(w - 1, 0, y))
            for q in (z, ):
                if z3.is_app_of(q, z3.Z3_OP_EXTRACT):
                    x = q.arg(0)
        if x is not None and x.size() == 64 and st.decide(idx == x) is True:
            return simp(x)
        return idx

    def parr_load(self, ex, st, p, ins):
        o = st.objs[p.base]
        a = o.arr
        idx = self.index(st, p.off)
        ex.prove(st, z3.Extract(2, 0, p.off) == 0, 'mem', 'aligned element access', ins)
        # appended elements
        for k, x in enumerate(a.extra):
            if st.decide(p.off == (a.hi + k) * 8) is True:
                return x
        ex.prove(st, z3.And(z3.ULE(a.lo, idx), z3.ULT(idx, a.hi)), 'mem', 'element read inside the array', ins)
        for i, b in a.loans:
            d = st.decide(i == idx)
            if d is True:
                return Ptr(b)
            if d is None:
                raise Fork([i == idx, i != idx])
        o = st.wobj(p.base)
        v = self.nth(st, a.L, idx)
        if ex.nn_elems:
            st.add(v != VNULL)
        if self.rank:
            st.add(z3.Implies(z3.ULT(idx, llen(a.L)), z3.ULT(rank(v), rank(a.L))))
        r = self.produce(st, a.E, v, 'elem')
        if r.base is None:
            return r
        o.arr.loans.append((idx, r.base))
        return r

    def parr_store(self, ex, st, p, v, ins):
        o = st.objs[p.base]
        a = o.arr
        if not isinstance(v, Ptr):
            raise Unsupported('non-pointer stored into a pointer array')
        ex.bounds(st, o, p.off, 8, 'write', ins)
        end = simp(a.hi + len(a.extra))
        if st.decide(p.off == end * 8) is True:
            o = st.wobj(p.base)
            o.arr.extra.append(v)
            return
        raise Unsupported('overwrite of an element of a pointer array')

    def parr_new(self, ex, st, p, v, ins):
        """first pointer stored into a block of symbolic size"""
        if cint(p.off) != 0:
            raise Unsupported('first store into a pointer block not at its start')
        o = st.wobj(p.base)
        o.arr = PArr(None, VNULL, Z64, Z64)
        ex.bounds(st, o, p.off, 8, 'write', ins)
        o.arr.extra.append(v)

    def return_loans(self, ex, st, b, ins=None):
        """give back elements that were only looked at"""
        o = st.wobj(b)
        a = o.arr
        rest = []
        changed = True
        loans = list(a.loans)
        while changed:
            changed = False
            for (i, x) in list(loans):
                c = st.chunks.get(x)
                if c is None and x in st.objs:
                    s2 = st.copy()
                    v = self.take(ex, s2, Ptr(x), a.E, ins)
                    if v is not None and (v.eq(self.nth(st, a.L, i)) or
                                          s2.decide(v == self.nth(st, a.L, i)) is True):
                        self.adopt(st, s2)
                        o = st.objs[b]
                        a = o.arr
                        loans.remove((i, x))
                        continue
                if isinstance(c, Own) and c.T is a.E and (c.v.eq(self.nth(st, a.L, i)) or
                                                          st.decide(c.v == self.nth(st, a.L, i)) is True):
                    del st.chunks[x]
                    loans.remove((i, x))
                    st.gone = st.gone | {x}
                    continue
                # consumed?
                if c is None and x not in st.objs:
                    if i.eq(a.lo) or st.decide(i == a.lo) is True:
                        a.lo = simp(a.lo + 1)
                        loans.remove((i, x))
                        changed = True
                        continue
                    if st.decide(i == a.hi - 1) is True:
                        a.hi = simp(a.hi - 1)
                        loans.remove((i, x))
                        changed = True
                        continue
        a.loans = loans

    def adopt(self, st, s2):
        for k in State.__slots__:
            if k not in ('ex', 'frames'):
                setattr(st, k, getattr(s2, k))

    def parr_drained(self, ex, st, b, o, ins):
        """free of the array block: all elements must be gone"""
        self.return_loans(ex, st, b, ins)
        a = st.objs[b].arr
        if a.loans or a.extra:
            ex.fail(st, 'own', 'an array is released while its elements are still owned', ins)
        ex.prove(st, a.lo == a.hi, 'own', 'every element is released before the array', ins)

    # ---- element callbacks -------------------------------------------------------
    def elem_free_ptr(self, E):
        b = self.efree.get(E.name)
        if b is None:
            b = Base('free<%s>' % E.name, 'func', None)
            b.info = ('free', E)
            c = self.free_contract(E)
            b.fn = lambda ex, st, av, ins, c=c: c.apply(ex, st, av, ins)
            self.efree[E.name] = b
        return Ptr(b)

    efree = {}
    callbacks = None

    def elem_of_free(self, ex, base):
        if base.info is not None:
            return base.info[1] if base.info[0] == 'free' else None
        if self.callbacks is None:
            return None
        return self.callbacks(ex, base, 'free')


class TBuffer(TBase):
    """a growable-free byte buffer as made by sml_buffer_init"""

    def open(self, ex, st, b, v, tt):
        o = Obj(tt.bufsize, 'heap', cells={}, tag='sml_buffer')
        n = fbv('buflen', 64)
        bb = Base('bytes', 'heap')
        so = Obj(n, 'raw')
        j = z3.Function('bufbytes!%d' % uid(), B64, B8)
        so.content = CFun(lambda s, i, j=j: j(i))
        st.objs[bb] = so
        o.cells[tt.bo['buffer']] = (8, Ptr(bb))
        o.cells[tt.bo['buffer_len']] = (tt.bz['buffer_len'], n)
        c = fbv('bufcur', 64)
        st.add(z3.ULE(n, BV(MAXLEN, 64)), z3.ULE(c, n))
        o.cells[tt.bo['cursor']] = (tt.bz['cursor'], c)
        o.cells[tt.bo['error']] = (tt.bz['error'], fbv('buferr', 32))
        o.cells[tt.bo['error_msg']] = (8, NULL)
        st.objs[b] = o

    def fold(self, ex, st, b, o, tt, ins):
        if o.cells is None or o.size != tt.bufsize:
            return None
        p = o.cells.get(tt.bo['buffer'])
        m = o.cells.get(tt.bo['error_msg'])
        n = o.cells.get(tt.bo['buffer_len'])
        if p is None or not isinstance(p[1], Ptr) or p[1].base not in st.objs or cint(p[1].off) != 0 or n is None:
            tt.why = 'buffer without its bytes'
            return None
        if m is None or not ((isinstance(m[1], Ptr) and m[1].base is None) or
                             (z3.is_expr(m[1]) and cint(m[1]) == 0)):
            tt.why = 'buffer with an error message'
            return None
        so = st.objs[p[1].base]
        if so.kind not in ('heap', 'raw') or st.decide(so.sz() == n[1]) is not True:
            tt.why = 'buffer length does not match its bytes'
            return None
        del st.objs[p[1].base]
        del st.objs[b]
        v = fresh('buf', VS)
        st.add(v != VNULL)
        return v
