"""The specification: grammar tables, spec functions for parsing (err/cur/val at a position of the input bytes B[0..N))
and for writing (the byte sequence enc(v))."""
import z3
from core import *
from types_ import *
from ir import Unsupported

B = fn('B', B64, B8)
N = z3.BitVec('N', 64)
INTMAX = BV((1 << 31) - 1, 64)
BOOL = z3.BoolSort()
OCT, BOOLT, INT, UINT, LIST = 0x00, 0x40, 0x50, 0x60, 0x70


def Bt(i):
    return B(simp(i))


# ---- type-length fields -----------------------------------------------------
tlerr = fn('tlerr', B64, BOOL)
tllen = fn('tllen', B64, I32)
tlcur = fn('tlcur', B64, B64)


def tl_facts(c):
    c = simp(c)
    return [z3.Implies(z3.Not(tlerr(c)), z3.And(z3.ULT(c, tlcur(c)), z3.ULE(tlcur(c), N), z3.ULE(tlcur(c), c + 7),
                                                 tllen(c) >= -7)),
            z3.Implies(z3.ULE(N, c), tlerr(c))]


def tl_def(c):
    """the standard's definition over the bytes at c (at most 7 fields: the length must fit in 28 bits)"""
    c = simp(c)
    islist = (Bt(c) & 0x70) == 0x70
    err, ln, cur = TRUE, BV(0, 32), c
    nib = [z3.ZeroExt(28, z3.Extract(3, 0, Bt(c + k))) for k in range(7)]
    acc = [nib[0]]
    for k in range(1, 7):
        acc.append((acc[-1] << 4) | nib[k])
    for k in reversed(range(7)):
        inside = z3.ULT(c + k, N)
        more = (Bt(c + k) & 0x80) != 0
        here = acc[k] - z3.If(islist, BV(0, 32), BV(k + 1, 32))
        err = z3.If(inside, z3.If(more, err, FALSE), TRUE)
        ln = z3.If(more, ln, here)
        cur = z3.If(more, cur, simp(c + k + 1))
    return [tlerr(c) == err, z3.Implies(z3.Not(err), z3.And(tllen(c) == ln, tlcur(c) == cur))]


def hdr(c, typ, k=None):
    """Bool: a type-length field of this type (and count k) starts at c"""
    e = z3.And(z3.ULT(c, N), (Bt(c) & 0x70) == typ, z3.Not(tlerr(c)))
    if k is not None:
        e = z3.And(e, tllen(c) == k)
    return e


def skipped(c):
    return z3.And(z3.ULT(c, N), Bt(c) == 1)


# ---- parse specs --------------------------------------------------------------
class PS:
    """name, result type, err/cur/val functions; x: extra leading arguments"""

    def __init__(self, name, T, key=None, xs=(), xv=(), nonnull=False):
        self.name, self.T, self.key, self.xv, self.nonnull = name, T, key or name, xv, nonnull
        s = list(xs)
        self.fe = fn('err_' + self.key, *(s + [B64, BOOL]))
        self.fc = fn('cur_' + self.key, *(s + [B64, B64]))
        self.fv = fn('val_' + self.key, *(s + [B64, VS]))

    def err(self, c):
        return self.fe(*(list(self.xv) + [simp(c)]))

    def cur(self, c):
        return self.fc(*(list(self.xv) + [simp(c)]))

    def val(self, c):
        return self.fv(*(list(self.xv) + [simp(c)]))


NUMS = {'u8': (1, UINT), 'u16': (2, UINT), 'u32': (4, UINT), 'u64': (8, UINT),
        'i8': (1, INT), 'i16': (2, INT), 'i32': (4, INT), 'i64': (8, INT)}
TREE_DEPTH = 256

# struct grammars: name -> (count, skippable, [(field, kind)])
G = {
    'OpenRequest': (False, ['codepage Oct', 'client_id Oct', 'req_file_id Oct', 'server_id Oct', 'username Oct',
                            'password Oct', 'sml_version u8']),
    'OpenResponse': (False, ['codepage Oct', 'client_id Oct', 'req_file_id Oct', 'server_id Oct', 'ref_time Time',
                             'sml_version u8']),
    'CloseRequest': (False, ['global_signature Oct']),
    'CloseResponse': (False, ['global_signature Oct']),
    'ProfilePackRequest': (False, ['server_id Oct', 'username Oct', 'password Oct', 'with_rawdata bool',
                                   'begin_time Time', 'end_time Time', 'parameter_tree_path TreePath',
                                   'object_list ObjList', 'das_details Tree']),
    'ProfilePackResponse': (False, ['server_id Oct', 'act_time Time', 'reg_period u32',
                                    'parameter_tree_path TreePath', 'header_list Seq:Header',
                                    'period_list Seq:PeriodEntry', 'rawdata Oct', 'profile_signature Oct']),
    'ProfileListResponse': (False, ['server_id Oct', 'act_time Time', 'reg_period u32',
                                    'parameter_tree_path TreePath', 'val_time Time', 'status u64',
                                    'period_list Seq:Period', 'rawdata Oct', 'period_signature Oct']),
    'ProcParameterRequest': (False, ['server_id Oct', 'username Oct', 'password Oct', 'parameter_tree_path TreePath',
                                     'attribute Oct']),
    'ProcParameterResponse': (False, ['server_id Oct', 'parameter_tree_path TreePath', 'parameter_tree Tree']),
    'SetProcParameterRequest': (False, ['server_id Oct', 'username Oct', 'password Oct',
                                        'parameter_tree_path TreePath', 'parameter_tree Tree']),
    'ListRequest': (False, ['client_id Oct', 'server_id Oct', 'username Oct', 'password Oct', 'list_name Oct']),
    'ListResponse': (False, ['client_id Oct', 'server_id Oct', 'list_name Oct', 'act_sensor_time Time',
                             'val_list List', 'list_signature Oct', 'act_gateway_time Time']),
    'Attention': (False, ['server_id Oct', 'attention_number Oct', 'attention_message Oct', 'attention_details Tree']),
    'Period': (True, ['obj_name Oct', 'unit u8', 'scaler i8', 'value Value', 'value_signature Oct']),
    'Header': (False, ['obj_name Oct', 'unit u8', 'scaler i8']),
    'PeriodEntry': (False, ['val_time Time', 'status u64', 'value_list Seq:ValueEntry', 'period_signature Oct']),
    'ValueEntry': (False, ['value Value', 'value_signature Oct']),
    'Tupel': (True, ['server_id Oct', 'sec_index Time', 'status u64'] +
              ['%s_%s %s' % (a, g, k) for g in ('pA', 'R1', 'R4') for a, k in
               (('unit', 'u8'), ('scaler', 'i8'), ('value', 'i64'))] + ['signature_pA_R1_R4 Oct'] +
              ['%s_%s %s' % (a, g, k) for g in ('mA', 'R2', 'R3') for a, k in
               (('unit', 'u8'), ('scaler', 'i8'), ('value', 'i64'))] + ['signature_mA_R2_R3 Oct']),
    'ListEntry': (False, ['obj_name Oct', 'status Status', 'val_time Time', 'unit u8', 'scaler i8', 'value Value',
                          'value_signature Oct']),
}
G = {k: (s, [tuple(x.split(' ')) for x in fs]) for k, (s, fs) in G.items()}
MSGTYPES = ['OpenRequest', 'OpenResponse', 'CloseRequest', 'CloseResponse', 'ProfilePackRequest',
            'ProfilePackResponse', 'ProfileListResponse', 'ProcParameterRequest', 'ProcParameterResponse',
            'SetProcParameterRequest', 'ListRequest', 'ListResponse', 'Attention']
SEQS = ['Header', 'PeriodEntry', 'Period', 'ValueEntry', 'Elem']


class Spec:
    def __init__(self, tt):
        self.tt = tt
        self.T = tt.T

    # ---- parse -----------------------------------------------------------------
    def ps(self, k, x=None):
        T = self.T
        if k in NUMS:
            w, t = NUMS[k]
            return self.num(w, BV(t, 8))
        if k == 'bool':
            return PS('bool', T['Num1'])
        if k == 'Tree':
            return PS('Tree', T['Tree'], 'Tree', [I32], [x if x is not None else BV(TREE_DEPTH, 32)])
        if k == 'ListEntry':
            return PS('ListEntry', T['List'], 'ListEntry', [BOOL], [x], nonnull=True)
        nn = k in G and not G[k][0] or k.startswith('Seq:') or k == 'Body'
        return PS(k, T[k], nonnull=nn)

    def num(self, w, t):
        return PS('num%d' % w, self.T['Num%d' % w], 'num%d' % w, [B8], [simp(t)])

    def flag2(self, w, c):
        """the workaround flag after the list entry at c"""
        return fn('flag_ListEntry', BOOL, B64, BOOL)(w, simp(c))

    def ens(self, p, c):
        """facts every caller may use about the element p at c"""
        c = simp(c)
        e = p.err(c)
        out = [z3.Implies(z3.Not(e), z3.And(z3.ULT(c, p.cur(c)), z3.ULE(p.cur(c), N))),
               z3.Implies(e, p.val(c) == VNULL)]
        if p.nonnull:
            out.append(z3.Implies(z3.Not(e), p.val(c) != VNULL))
        if p.name == 'Value':
            v = p.val(c)
            VT = self.T['Value']
            out.append(z3.Implies(z3.And(z3.Not(e), v != VNULL), VT.sel(v, 'data') != VNULL))
            out.append(z3.Implies(z3.And(z3.Not(e), v != VNULL), VT.sel(v, 'type') & 0x70 == Bt(c) & 0x70))
        return out

    def seqfields(self, st, fields, cur, e=FALSE):
        vals = {}
        for name, k in fields:
            p = self.ps(k) if not isinstance(k, PS) else k
            st.add(*self.ens(p, cur))
            if p.name == 'ObjList':
                # not a function of its own in the library
                self.define(st, p, cur)
            e = z3.Or(e, p.err(cur))
            vals[name] = p.val(cur)
            cur = p.cur(cur)
        return vals, cur, e

    def define(self, st, p, c):
        """the defining facts of err/cur/val of p at c"""
        c = simp(c)
        err, cur, val = self.body(st, p, c)
        st.add(p.err(c) == err, z3.Implies(z3.Not(err), z3.And(p.cur(c) == cur, p.val(c) == val)),
               z3.Implies(err, p.val(c) == VNULL))

    def skip(self, c, r):
        e, cur, v = r
        s = skipped(c)
        return (z3.And(z3.Not(s), e), z3.If(s, simp(c + 1), cur), z3.If(s, VNULL, v))

    def body(self, st, p, c):
        k = p.name
        T = self.T
        st.add(*tl_facts(c))
        if k.startswith('num'):
            return self.skip(c, self.b_num(st, p, c))
        if k == 'Oct':
            cur, ln = tlcur(c), tllen(c)
            ok = z3.And(hdr(c, OCT), ln >= 0, z3.ULT(z3.SignExt(32, ln), N - cur))
            v = self.tt.octOf(cur, ln)
            st.add(v != VNULL, octlen(v) == ln)
            val = z3.If(ln == 0, self.tt.EMPTY, v)
            st.add(self.tt.EMPTY != VNULL, octlen(self.tt.EMPTY) == 0)
            return self.skip(c, (z3.Not(ok), simp(cur + z3.SignExt(32, ln)), val))
        if k == 'bool':
            cur = tlcur(c)
            ok = z3.And(hdr(c, BOOLT, 1), z3.ULT(cur, N))
            bits = z3.If(Bt(cur) != 0, BV(0xff, 8), BV(0, 8))
            v = mknum(1, bits)
            st.add(v != VNULL, nbits(1)(v) == bits)
            return self.skip(c, (z3.Not(ok), simp(cur + 1), v))
        if k == 'Status':
            e, cur, t, d = self.b_anynum(st, c)
            v = T['Status'].mk(st, {'type': t, 'data': d})
            return self.skip(c, (z3.Or(z3.Not(hdr0(c, UINT)), e), cur, v))
        if k == 'Value':
            ne, ncur, nt, nd = self.b_anynum(st, c)
            o, b = self.ps('Oct'), self.ps('bool')
            st.add(*(self.ens(o, c) + self.ens(b, c)))
            typ = Bt(c) & 0x70
            ins = z3.ULT(c, N)
            err = z3.Not(z3.And(ins, z3.Or(z3.And(typ == OCT, z3.Not(o.err(c))),
                                           z3.And(typ == BOOLT, z3.Not(b.err(c))),
                                           z3.And(z3.Or(typ == INT, typ == UINT), z3.Not(ne)))))
            t = simp(z3.If(z3.Or(typ == OCT, typ == BOOLT), typ, nt))
            d = z3.If(typ == OCT, o.val(c), z3.If(typ == BOOLT, b.val(c), nd))
            cur = z3.If(typ == OCT, o.cur(c), z3.If(typ == BOOLT, b.cur(c), ncur))
            # an octet string that is not skipped is not absent
            st.add(z3.Implies(z3.And(z3.Not(o.err(c)), z3.Not(skipped(c))), o.val(c) != VNULL))
            st.add(z3.Implies(z3.And(z3.Not(b.err(c)), z3.Not(skipped(c))), b.val(c) != VNULL))
            v = T['Value'].mk(st, {'type': t, 'data': d})
            return self.skip(c, (err, cur, v))
        if k == 'Time':
            u8, u32, i16 = self.ps('u8'), self.ps('u32'), self.ps('i16')
            holley = Bt(c) == 0x65
            c1 = tlcur(c)
            st.add(*self.ens(u8, c1))
            c2 = z3.If(holley, c, u8.cur(c1))
            one = mknum(1, BV(1, 8))
            st.add(one != VNULL, nbits(1)(one) == 1)
            tag = z3.If(holley, one, u8.val(c1))
            e1 = z3.Or(z3.ULE(N, c), z3.And(z3.Not(holley), z3.Or(z3.Not(hdr(c, LIST, 2)), u8.err(c1))))
            # data
            res = []
            for cc in (c, u8.cur(c1)):
                st.add(*(self.ens(u32, cc) + tl_facts(cc)))
                typ = Bt(cc) & 0x70
                l1 = tlcur(cc)
                st.add(*self.ens(u32, l1))
                l2 = u32.cur(l1)
                st.add(*self.ens(i16, l2))
                l3 = i16.cur(l2)
                st.add(*self.ens(i16, l3))
                lerr = z3.Or(tlerr(cc), tllen(cc) != 3, u32.err(l1), i16.err(l2), i16.err(l3))
                e2 = z3.Or(z3.ULE(N, cc), z3.If(typ == UINT, u32.err(cc), z3.If(typ == LIST, lerr, TRUE)))
                res.append((e2, z3.If(typ == UINT, u32.cur(cc), i16.cur(l3)),
                            z3.If(typ == UINT, u32.val(cc), VNULL)))
            (ea, ca, va), (eb, cb, vb) = res
            err = z3.Or(e1, z3.If(holley, ea, eb))
            v = T['Time'].mk(st, {'tag': tag, 'data': z3.If(holley, va, vb)})
            return self.skip(c, (err, z3.If(holley, ca, cb), v))
        if k == 'TreePath':
            n = tllen(c)
            r = self.rest(st, 'Path', tlcur(c), n)
            err = z3.Or(z3.Not(hdr(c, LIST)), r[0])
            v = T['TreePath'].mk(st, {'path_entries': r[2]})
            return self.skip(c, (err, r[1], v))
        if k == 'Tree':
            d = p.xv[0]
            o, q = self.ps('Oct'), self.ps('PPV')
            vals, cur, e = self.seqfields(st, [('parameter_name', 'Oct'), ('parameter_value', 'PPV')], tlcur(c))
            st.add(*tl_facts(cur))
            sk = skipped(cur)
            r = self.rest(st, 'Children', tlcur(cur), tllen(cur), simp(d - 1))
            e2 = z3.And(z3.Not(sk), z3.Or(z3.Not(hdr(cur, LIST)), r[0]))
            err = z3.Or(d <= 0, z3.Not(hdr(c, LIST, 3)), e, e2)
            kids = z3.If(sk, VNULL, r[2])
            st.add(*lfacts(r[2]))
            vals['child_list'] = kids
            v = T['Tree'].mk(st, vals)
            return self.skip(c, (err, z3.If(sk, simp(cur + 1), r[1]), v))
        if k == 'PPV':
            u8 = self.ps('u8')
            c1 = tlcur(c)
            st.add(*self.ens(u8, c1))
            c2 = u8.cur(c1)
            tag = u8.val(c1)
            alts = [(1, 'Value'), (2, 'Period'), (3, 'Tupel'), (4, 'Time')]
            e, cur, d = TRUE, c2, VNULL
            for n, a in reversed(alts):
                q = self.ps(a)
                st.add(*self.ens(q, c2))
                is_ = nbits(1)(tag) == n
                e, cur, d = z3.If(is_, q.err(c2), e), z3.If(is_, q.cur(c2), cur), z3.If(is_, q.val(c2), d)
            err = z3.Or(z3.Not(hdr(c, LIST, 2)), u8.err(c1), tag == VNULL, e)
            v = T['PPV'].mk(st, {'tag': tag, 'data': d})
            return self.skip(c, (err, cur, v))
        if k == 'Body':
            u32 = self.ps('u32')
            c1 = tlcur(c)
            st.add(*self.ens(u32, c1))
            c2 = u32.cur(c1)
            tag = u32.val(c1)
            e, cur, d = FALSE, c2, VNULL
            for n, a in self.tt.MSG:
                q = self.ps(a)
                st.add(*self.ens(q, c2))
                is_ = nbits(4)(tag) == n
                e, cur, d = z3.If(is_, q.err(c2), e), z3.If(is_, q.cur(c2), cur), z3.If(is_, q.val(c2), d)
            err = z3.Or(z3.Not(hdr(c, LIST, 2)), u32.err(c1), tag == VNULL, e)
            v = T['Body'].mk(st, {'tag': tag, 'data': d})
            return err, cur, v
        if k == 'Message':
            vals, cur, e = self.seqfields(st, [('transaction_id', 'Oct'), ('group_id', 'u8'), ('abort_on_error', 'u8'),
                                               ('message_body', 'Body')], tlcur(c))
            u16 = self.ps('u16')
            st.add(*self.ens(u16, cur))
            end = u16.cur(cur)
            crc = u16.val(cur)
            err1 = z3.Or(z3.Not(hdr(c, LIST, 6)), e, z3.ULT(N - cur, BV(3, 64)), u16.err(cur), crc == VNULL)
            got = nbits(2)(crc)
            ln = simp(z3.Extract(31, 0, cur - c))
            good = z3.Or(got == crcx(c, ln), got == crck(c, ln))
            err = z3.Or(err1, z3.And(good, z3.ULE(N, end)))
            v = T['Message'].mk(st, vals)
            return err, z3.If(z3.And(good, Bt(end) == 0), simp(end + 1), end), z3.If(good, v, VNULL)
        if k == 'ListEntry':
            return self.b_listentry(st, p, c)
        if k == 'List':
            n = tllen(c)
            r = self.rest(st, 'List', tlcur(c), n, FALSE)
            err = z3.Or(z3.Not(hdr(c, LIST)), r[0])
            return self.skip(c, (err, r[1], r[2]))
        if k == 'ObjList':
            n = tllen(c)
            r = self.rest(st, 'Obj', tlcur(c), n)
            err = z3.Or(z3.Not(hdr(c, LIST)), r[0])
            return self.skip(c, (err, r[1], r[2]))
        if k.startswith('Seq:'):
            r = self.rest(st, k, tlcur(c), tllen(c))
            err = z3.Or(z3.Not(hdr(c, LIST)), r[0])
            v = T[k].mk(st, {'elems': r[2]})
            return err, r[1], v
        if k in G:
            sk, fields = G[k]
            vals, cur, e = self.seqfields(st, fields, tlcur(c))
            err = z3.Or(z3.Not(hdr(c, LIST, len(fields))), e)
            r = (err, cur, T[k].mk(st, vals))
            return self.skip(c, r) if sk else r
        raise Unsupported('no grammar for %s' % k)

    def b_num(self, st, p, c):
        w = p.T.w
        t = p.xv[0]
        cur, ln = tlcur(c), tllen(c)
        ok = z3.And(z3.ULT(c, N), (Bt(c) & 0x70) == t, z3.Not(tlerr(c)), ln >= 0, ln <= w, z3.ULT(cur, N),
                    z3.ULE(z3.SignExt(32, ln), N - cur))
        neg = z3.And(t == INT, ln > 0, (Bt(cur) & 0x80) != 0)
        fill = z3.If(neg, BV(0xff, 8), BV(0, 8))
        bs = []
        for k in range(w):          # byte k counted from the least significant
            b = fill
            for l in range(k + 1, w + 1):
                b = z3.If(ln == l, Bt(cur + (l - 1 - k)), b)
            bs.append(b)
        bits = z3.Concat(*reversed(bs)) if w > 1 else bs[0]
        v = mknum(w, bits)
        st.add(nbits(w)(v) == simp(bits), v != VNULL)
        return z3.Not(ok), simp(cur + z3.SignExt(32, ln)), v

    def b_anynum(self, st, c):
        """an integer of the smallest width that holds the transmitted length"""
        lo = z3.ZeroExt(24, Bt(c) & 0xf) - 1
        typ = Bt(c) & 0x70
        e, cur, t, d = TRUE, c, BV(0, 8), VNULL
        for w in (8, 4, 2, 1):
            p = self.num(w, typ)
            st.add(*self.ens(p, c))
            st.add(z3.Implies(z3.And(z3.Not(p.err(c)), z3.Not(skipped(c))), p.val(c) != VNULL))
            is_ = lo <= w
            e = z3.If(is_, p.err(c), e)
            cur = z3.If(is_, p.cur(c), cur)
            t = z3.If(is_, typ | w, t)
            d = z3.If(is_, p.val(c), d)
        return e, cur, simp(t), d

    def octeq(self, v, data):
        """Bool: the octet string v has exactly these bytes"""
        return z3.And(v != VNULL, octlen(v) == len(data), *[octb(v, BV(i, 64)) == b for i, b in enumerate(data)])

    def b_listentry(self, st, p, c):
        w = p.xv[0]
        T = self.T
        fields = G['ListEntry'][1]
        vals, cur, e = self.seqfields(st, fields, tlcur(c))
        # position of the value
        pos = tlcur(c)
        for n, k in fields:
            if n == 'value':
                break
            pos = self.ps(k).cur(pos)
        err = z3.Or(z3.Not(hdr(c, LIST, 7)), e)
        on, val = vals['obj_name'], vals['value']
        V = T['Value']
        data = V.sel(val, 'data')
        serial = BV(0, 64)
        for i in range(5, 10):
            serial = (serial << 8) | z3.ZeroExt(56, octb(data, BV(i, 64)))
        detect = z3.And(self.octeq(on, [1, 0, 96, 1, 0, 255]), val != VNULL, V.sel(val, 'type') == 0,
                        octlen(data) == 10,
                        *[octb(data, BV(i, 64)) == b for i, b in enumerate([0x0a, 0x01, 0x44, 0x5a, 0x47])])
        detect = z3.And(detect, z3.Or(z3.And(z3.UGE(serial, BV(42000000, 64)), z3.ULE(serial, BV(48999999, 64))),
                                      z3.And(z3.UGE(serial, BV(55000000, 64)), z3.ULE(serial, BV(58999999, 64)))))
        tl = Bt(pos)
        more = tl & 0x8f
        apply = z3.And(z3.Not(detect), w, self.octeq(on, [1, 0, 16, 7, 0, 255]), val != VNULL, (tl & 0x70) == INT,
                       z3.Or(more == 1, more == 2, more == 3))
        t2 = (V.sel(val, 'type') & 0x8f) | 0x60
        fixed = V.mk(st, {'type': t2, 'data': data})
        vals = dict(vals)
        vals['value'] = z3.If(apply, fixed, val)
        st.add(z3.Implies(z3.Not(err), self.flag2(w, c) == z3.Or(w, detect)))
        ent = T['List'].mk(st, vals)
        self.le_parts = (detect, apply)
        return err, cur, cons_(st, ent, VNULL)

    # rest-style: m further elements from c on
    def restf(self, name):
        ex = {'List': [BOOL], 'Children': [I32]}.get(name, [])
        n = name.replace(':', '_')
        return (fn('errR_' + n, *(ex + [B64, I32, BOOL])), fn('curR_' + n, *(ex + [B64, I32, B64])),
                fn('valR_' + n, *(ex + [B64, I32, VS])))

    def rest(self, st, name, c, m, x=None):
        fe, fc, fv = self.restf(name)
        a = [simp(c), simp(m)]
        if name in ('List', 'Children'):
            a = [simp(x) if not isinstance(x, bool) else x] + a
        r = fe(*a), fc(*a), fv(*a)
        if st is not None:
            st.add(*lfacts(r[2]))
            st.add(z3.Implies(z3.And(z3.Not(r[0]), z3.ULE(c, N)), z3.And(z3.ULE(c, r[1]), z3.ULE(r[1], N))),
                   z3.Implies(r[0], m > 0))
        return r

    def elem_ps(self, name, x=None):
        if name in ('Path', 'Obj'):
            return self.ps('Oct')
        if name == 'Children':
            return self.ps('Tree', x)
        if name == 'List':
            return self.ps('ListEntry', x)
        if name.startswith('Seq:'):
            return self.ps(name[4:])
        if name == 'File':
            return self.ps('Message')
        raise Unsupported(name)

    def unfold(self, st, name, c, m, x=None):
        """the defining facts of rest(name, c, m)"""
        c, m = simp(c), simp(m)
        r = self.rest(st, name, c, m, x)
        p = self.elem_ps(name, x)
        st.add(*self.ens(p, c))
        c1 = p.cur(c)
        x1 = x
        v = p.val(c)
        if name == 'List':
            x1 = self.flag2(x, c)
        r1 = self.rest(st, name, c1, simp(m - 1), x1)
        if name == 'List':
            ent = HD(v)
            st.add(z3.Implies(v != VNULL, v == cons(ent, VNULL)))
            cv = cons(ent, r1[2])
        elif name == 'Obj':
            ent = self.T['ObjList'].mk(st, {'object_list_entry': v})
            cv = cons(ent, r1[2])
        elif name in ('Path', 'Children'):
            cv = z3.If(v == VNULL, r1[2], cons(v, r1[2]))
        else:
            cv = cons(v, r1[2])
        done = m <= 0
        st.add(r[0] == z3.And(z3.Not(done), z3.Or(p.err(c), r1[0])),
               z3.Implies(done, z3.And(r[1] == c, r[2] == VNULL)),
               z3.Implies(z3.And(z3.Not(done), z3.Not(p.err(c))), z3.And(r[1] == r1[1], r[2] == cv)))
        st.add(cons(v, VNULL) != VNULL)
        return r

    # the messages of a file from position c on
    def files(self, c):
        return fn('files', B64, VS)(simp(c))

    def unfold_files(self, st, c):
        c = simp(c)
        m = self.ps('Message')
        st.add(*self.ens(m, c))
        f = self.files
        st.add(*lfacts(f(c)))
        end = z3.ULE(N, c)
        zero = Bt(c) == 0
        v = m.val(c)
        st.add(z3.Implies(end, f(c) == VNULL),
               z3.Implies(z3.And(z3.Not(end), zero), f(c) == f(c + 1)),
               z3.Implies(z3.And(z3.Not(end), z3.Not(zero), m.err(c)), f(c) == VNULL),
               z3.Implies(z3.And(z3.Not(end), z3.Not(zero), z3.Not(m.err(c))),
                          f(c) == z3.If(v == VNULL, f(m.cur(c)), cons(v, f(m.cur(c))))))


def hdr0(c, typ):
    return z3.And(z3.ULT(c, N), (Bt(c) & 0x70) == typ)


def cons_(st, a, b):
    r = cons(a, b)
    st.add(r != VNULL)
    return r


crcx = fn('crcX', B64, I32, z3.BitVecSort(16))
crck = fn('crcK', B64, I32, z3.BitVecSort(16))

# ---- output byte sequences ---------------------------------------------------
SS = z3.DeclareSort('S')
EPS = z3.Const('EPS', SS)
CAT = fn('cat', SS, SS, SS)
BYTE = fn('byte', B8, SS)
TLS = fn('tl_', I32, I32, SS)            # type, length or count
OCTD = fn('octd', VS, SS)
SLEN = fn('slen', SS, B64)
CRCXS = fn('crcXS', SS, z3.BitVecSort(16))
CRCKS = fn('crcKS', SS, z3.BitVecSort(16))


def NUMD(w):
    return fn('numd%d' % w, z3.BitVecSort(8 * w), SS)


def enc(T, v):
    return fn('enc_' + T, VS, SS)(v)


def encl(T, v):
    return fn('encl_' + T, VS, SS)(v)


def cat(a, b):
    if a.eq(EPS):
        return b
    if b.eq(EPS):
        return a
    if is_fn(a, CAT):
        return CAT(a.arg(0), cat(a.arg(1), b))
    return CAT(a, b)


def catn(*xs):
    r = EPS
    for x in reversed(xs):
        r = cat(x, r)
    return r


def atoms(s):
    out = []
    while is_fn(s, CAT):
        out.append(s.arg(0))
        s = s.arg(1)
    if not s.eq(EPS):
        out.append(s)
    return out


def tl_bytes(typ, l):
    """reference encoding of a type-length field: the least number of bytes"""
    if typ == LIST:
        k = 1
        while l >= 16 ** k:
            k += 1
        v = l
    else:
        k = 1
        while l + k >= 16 ** k:
            k += 1
        v = l + k
    out = []
    for i in range(k):
        nib = (v >> (4 * (k - 1 - i))) & 0xf
        b = nib | (typ if i == 0 else 0)
        if i < k - 1:
            b |= 0x80
        out.append(b)
    return out


def tl(typ, l):
    """S of a type-length field (typ, l: BV32)"""
    t, n = cint(simp(typ)), cint(simp(l))
    if t is not None and n is not None:
        return catn(*[BYTE(BV(b, 8)) for b in tl_bytes(t, n)])
    return TLS(simp(typ), simp(l))


TLSIZE = fn('tlsize', I32, I32, B64)


def slen1(a):
    if is_fn(a, BYTE):
        return BV(1, 64)
    if is_fn(a, OCTD):
        return simp(z3.ZeroExt(32, octlen(a.arg(0))))
    for w in (1, 2, 4, 8):
        if is_fn(a, NUMD(w)):
            return BV(w, 64)
    if is_fn(a, TLS):
        return TLSIZE(a.arg(0), a.arg(1))
    return SLEN(a)


def slen(s):
    r = Z64
    for a in atoms(s):
        r = r + slen1(a)
    return simp(r)


def sfacts(s):
    out = []
    for a in atoms(s):
        if is_fn(a, TLS):
            out.append(z3.And(z3.UGE(slen1(a), BV(1, 64)), z3.ULE(slen1(a), BV(8, 64))))
        elif is_fn(a, OCTD):
            out.append(octlen(a.arg(0)) >= 0)
        elif cint(slen1(a)) is None:
            out.append(z3.ULT(slen1(a), BV(1 << 40, 64)))
            out.append(SLEN(a) == slen1(a))
    return out


class EncSpec:
    """enc_T(v) by the same grammar"""

    def __init__(self, spec):
        self.sp = spec
        self.T = spec.T
        self.counts = []

    def kind(self, k, v):
        """S of a field value of grammar kind k"""
        if k in NUMS:
            return fn('encN_' + k, VS, SS)(v)
        if k == 'bool':
            return enc('bool', v)
        return enc(k, v)

    def num(self, st, w, t, v):
        """number v (non-null) of width w, type t (BV8 or int)"""
        if isinstance(t, int):
            return cat(BYTE(BV(t | (w + 1), 8)), NUMD(w)(nbits(w)(v)))
        return cat(BYTE(simp(t | (w + 1))), NUMD(w)(nbits(w)(v)))

    def alts(self, st, k, v):
        """[(condition, S)]: the definition of enc_k(v) by cases"""
        T = self.T
        one = BYTE(BV(1, 8))
        nul = v == VNULL
        if k in NUMS:
            w, t = NUMS[k]
            return [(nul, one), (z3.Not(nul), self.num(st, w, t, v))]
        if k == 'Oct':
            t = tl(BV(OCT, 32), octlen(v))
            st.add(octlen(v) >= 0, z3.Implies(octlen(v) == 0, cat(t, OCTD(v)) == t))
            return [(nul, one), (z3.Not(nul), cat(t, OCTD(v)))]
        if k == 'bool':
            b = nbits(1)(v)
            return [(nul, one), (z3.Not(nul), catn(BYTE(BV(0x42, 8)), BYTE(z3.If(b == 0, BV(0, 8), BV(0xff, 8)))))]
        if k in ('Status', 'Value'):
            t = T[k].sel(v, 'type')
            d = T[k].sel(v, 'data')
            dn = d == VNULL
            out = [(nul, one)]
            nn = z3.Not(nul)
            hi = t & 0x70
            if k == 'Value':
                out.append((z3.And(nn, hi == OCT), enc('Oct', d)))
                out.append((z3.And(nn, hi == BOOLT), enc('bool', d)))
                isnum = z3.Or(hi == INT, hi == UINT)
            else:
                isnum = TRUE
            out.append((z3.And(nn, isnum, dn), one))
            for w in (1, 2, 4, 8):
                out.append((z3.And(nn, isnum, z3.Not(dn), (t & 0xf) == w), self.num(st, w, simp(hi), d)))
            return out
        if k == 'Time':
            f = lambda n: T['Time'].sel(v, n)
            return [(nul, one), (z3.Not(nul), catn(BYTE(BV(0x72, 8)), self.kind('u8', f('tag')),
                                                   self.kind('u32', f('data'))))]
        if k == 'TreePath':
            L = T['TreePath'].sel(v, 'path_entries')
            return [(nul, one), (z3.Not(nul), cat(self.cnt(L), encl('Path', L)))]
        if k == 'Tree':
            f = lambda n: T['Tree'].sel(v, n)
            L = f('child_list')
            h = [BYTE(BV(0x73, 8)), enc('Oct', f('parameter_name')), enc('PPV', f('parameter_value'))]
            return [(nul, one), (z3.And(z3.Not(nul), L == VNULL), catn(*(h + [one]))),
                    (z3.And(z3.Not(nul), L != VNULL), catn(*(h + [self.cnt(L), encl('Children', L)])))]
        if k == 'PPV':
            tag = T['PPV'].sel(v, 'tag')
            d = T['PPV'].sel(v, 'data')
            out = [(nul, one)]
            h = [BYTE(BV(0x72, 8)), self.kind('u8', tag)]
            rest = []
            for n, a in [(1, 'Value'), (2, 'Period'), (3, 'Tupel'), (4, 'Time')]:
                c = nbits(1)(tag) == n
                rest.append(c)
                out.append((z3.And(z3.Not(nul), c), catn(*(h + [enc(a, d)]))))
            out.append((z3.And(z3.Not(nul), z3.Not(z3.Or(*rest))), catn(*h)))
            return out
        if k == 'Body':
            tag = T['Body'].sel(v, 'tag')
            d = T['Body'].sel(v, 'data')
            out = []
            h = [BYTE(BV(0x72, 8)), self.kind('u32', tag)]
            rest = []
            for n, a in self.sp.tt.MSG:
                c = nbits(4)(tag) == n
                rest.append(c)
                out.append((c, catn(*(h + [enc(a, d)]))))
            out.append((z3.Not(z3.Or(*rest)), catn(*h)))
            return out
        if k == 'Message':
            f = lambda n: T['Message'].sel(v, n)
            h = catn(BYTE(BV(0x76, 8)), enc('Oct', f('transaction_id')), self.kind('u8', f('group_id')),
                     self.kind('u8', f('abort_on_error')), enc('Body', f('message_body')))
            crc = mknum(2, CRCXS(h))
            st.add(crc != VNULL, nbits(2)(crc) == CRCXS(h))
            return [(TRUE, catn(h, self.kind('u16', crc), BYTE(BV(0, 8))))]
        if k == 'ListEntry':
            return [(TRUE, self.struct('List', 'ListEntry', v))]
        if k in ('List', 'ObjList'):
            return [(nul, one), (z3.Not(nul), cat(self.cnt(v), encl({'List': 'List', 'ObjList': 'Obj'}[k], v)))]
        if k.startswith('Seq:'):
            L = T[k].sel(v, 'elems')
            return [(nul, one), (z3.Not(nul), cat(self.cnt(L), encl(k, L)))]
        if k in G:
            out = []
            for c, s in self.structs(k, k, v):
                out.append((z3.And(z3.Not(nul), c) if G[k][0] else c, s))
            return ([(nul, one)] if G[k][0] else []) + out
        raise Unsupported('no encoding for %s' % k)

    def cnt(self, L):
        n = z3.Extract(31, 0, llen(L))
        if not any(n.eq(x) for x in self.counts):
            self.counts.append(n)
        return tl(BV(LIST, 32), n)

    def structs(self, tn, g, v):
        """[(condition, encoding)]; a list inside a structure is spelled out"""
        f = [n for n, k in G[g][1] if k == 'ObjList']
        if not f:
            return [(TRUE, self.struct(tn, g, v))]
        x = self.T[tn].sel(v, f[0])
        return [(x == VNULL, self.struct(tn, g, v, BYTE(BV(1, 8)))),
                (x != VNULL, self.struct(tn, g, v, cat(self.cnt(x), encl('Obj', x))))]

    def struct(self, tn, g, v, sub=None):
        fields = G[g][1]
        parts = [tl(BV(LIST, 32), BV(len(fields), 32))]
        for n, k in fields:
            if k == 'ObjList' and sub is not None:
                parts.append(sub)
            else:
                parts.append(self.kind(k, self.T[tn].sel(v, n)))
        return catn(*parts)

    def define(self, st, k, v, whole=None):
        s = whole if whole is not None else self.kind(k, v)
        for c, d in self.alts(st, k, v):
            st.add(*sfacts(d))
            st.add(z3.Implies(c, z3.And(s == d, SLEN(s) == slen(d))))
        return s

    # lists of encodings
    def elem(self, name, x):
        if name == 'Path':
            return enc('Oct', x)
        if name == 'Obj':
            return enc('Oct', self.T['ObjList'].sel(x, 'object_list_entry'))
        if name == 'Children':
            return enc('Tree', x)
        if name == 'List':
            return enc('ListEntry', x)
        if name == 'File':
            return enc('Message', x)
        if name.startswith('Seq:'):
            return enc(name[4:], x)
        raise Unsupported(name)

    def unfold(self, st, name, L):
        """encl(name, L) for the head of L"""
        if L.eq(VNULL):
            st.add(encl(name, L) == EPS, SLEN(encl(name, L)) == 0)
            return
        if is_fn(L, CONS):
            h, t = L.arg(0), L.arg(1)
        else:
            h, t = HD(L), TL_(L)
            st.add(z3.Implies(L != VNULL, L == cons(h, t)))
        s = encl(name, L)
        e = self.elem(name, h)
        if name == 'Obj':
            pass
        r = encl(name, t)
        d = cat(e, r)
        st.add(*sfacts(d))
        st.add(*sfacts(s))
        st.add(z3.Implies(L == VNULL, z3.And(s == EPS, SLEN(s) == 0)))
        st.add(z3.Implies(L != VNULL, z3.And(s == d, SLEN(s) == simp(SLEN(e) + SLEN(r)))))
        st.add(z3.ULT(SLEN(r), BV(1 << 40, 64)), z3.ULT(SLEN(e), BV(1 << 40, 64)))


class Log:
    """what has been written to an output buffer since `start`"""
    __slots__ = ('start', 'S', 'end')

    def __init__(self, start, S, end):
        self.start, self.S, self.end = start, S, end

    def add(self, s):
        return Log(self.start, cat(self.S, s), simp(self.end + slen(s)))

    def byte(self, ex, st, a, b):
        if st.decide(a == self.end) is not True:
            raise Unsupported('a byte is written elsewhere than at the end of the output')
        return self.add(BYTE(simp(b)))

    def block(self, ex, st, off, n, src, srcoff):
        if st.decide(off == self.end) is not True:
            raise Unsupported('bytes are written elsewhere than at the end of the output')
        tag = getattr(src, 'tag', None)
        if tag is not None and tag[0] == 'oct' and cint(simp(srcoff)) == 0:
            v = tag[1]
            if st.decide(n == z3.SignExt(32, octlen(v))) is True:
                st.add(octlen(v) >= 0)
                r = Log(self.start, cat(self.S, OCTD(v)), simp(self.end + n))
                return r
        raise Unsupported('unknown bytes are written to the output')
