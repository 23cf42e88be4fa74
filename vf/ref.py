"""Executable form of the specification (the grammar tables of spec.py): reference parser and encoder over bytes.
Used only to find concrete failing inputs for obligations that fail, and for the functions listed as bounded."""
import random

OCT, BOOLT, INT, UINT, LIST = 0x00, 0x40, 0x50, 0x60, 0x70
NUMS = {'u8': (1, UINT), 'u16': (2, UINT), 'u32': (4, UINT), 'u64': (8, UINT),
        'i8': (1, INT), 'i16': (2, INT), 'i32': (4, INT), 'i64': (8, INT)}
TREE_DEPTH = 256


class Bad(Exception):
    pass


def crc16x(b):
    c = 0xffff
    for x in b:
        c ^= x
        for _ in range(8):
            c = (c >> 1) ^ 0x8408 if c & 1 else c >> 1
    c ^= 0xffff
    return ((c & 0xff) << 8) | (c >> 8)


def crc16k(b):
    c = 0
    for x in b:
        c ^= x
        for _ in range(8):
            c = (c >> 1) ^ 0x8408 if c & 1 else c >> 1
    return c


def tl_bytes(typ, l):
    k = 1
    if typ == LIST:
        while l >= 16 ** k:
            k += 1
        v = l
    else:
        while l + k >= 16 ** k:
            k += 1
        v = l + k
    return tl_long(typ, v, k)


def tl_long(typ, v, k):
    return bytes(((v >> (4 * (k - 1 - i))) & 0xf) | (typ if i == 0 else 0) | (0x80 if i < k - 1 else 0) for i in range(k))


class Ref:
    """parser: values are None, ('n', width, bits), ('o', bytes), ('s'/'v', type, data), ('r', kind, fields...),
    ('l', [..])"""

    def __init__(self, G, MSG):
        self.G, self.MSG = G, MSG

    # ---- parsing
    def parse(self, kind, b, c, x=None):
        """-> (value, cursor) or raises Bad"""
        self.b, self.n = b, len(b)
        return self.p(kind, c)

    def tl(self, c):
        b = self.b
        islist = c < self.n and (b[c] & 0x70) == 0x70
        acc = 0
        for k in range(7):
            if c + k >= self.n:
                raise Bad()
            acc = (acc << 4) | (b[c + k] & 15)
            if not b[c + k] & 0x80:
                return (acc if islist else acc - (k + 1)), c + k + 1
        raise Bad()

    def hdr(self, c, typ, k=None):
        if c >= self.n or (self.b[c] & 0x70) != typ:
            raise Bad()
        l, c1 = self.tl(c)
        if k is not None and l != k:
            raise Bad()
        return l, c1

    def skip(self, c):
        return c < self.n and self.b[c] == 1

    def num(self, w, t, c):
        if self.skip(c):
            return None, c + 1
        l, c1 = self.hdr(c, t)
        if l < 0 or l > w or c1 >= self.n or c1 + l > self.n:
            raise Bad()
        bs = self.b[c1:c1 + l]
        v = int.from_bytes(bs, 'big', signed=(t == INT)) if l else 0
        return ('n', w, v & ((1 << (8 * w)) - 1)), c1 + l

    def anynum(self, c):
        lo = (self.b[c] & 15) - 1
        typ = self.b[c] & 0x70
        w = 1
        while w < lo:
            w *= 2
        if w > 8:
            raise Bad()
        v, c = self.num(w, typ, c)
        return typ | w, v, c

    def p(self, k, c, depth=TREE_DEPTH):
        b, n = self.b, self.n
        if k in NUMS:
            return self.num(NUMS[k][0], NUMS[k][1], c)
        if k == 'Oct':
            if self.skip(c):
                return None, c + 1
            l, c1 = self.hdr(c, OCT)
            if l < 0 or l >= n - c1:
                raise Bad()
            return ('o', bytes(b[c1:c1 + l])), c1 + l
        if k == 'bool':
            if self.skip(c):
                return None, c + 1
            l, c1 = self.hdr(c, BOOLT, 1)
            if c1 >= n:
                raise Bad()
            return ('n', 1, 0xff if b[c1] else 0), c1 + 1
        if k == 'Status':
            if self.skip(c):
                return None, c + 1
            if c >= n or (b[c] & 0x70) != UINT:
                raise Bad()
            t, v, c = self.anynum(c)
            return ('s', t, v), c
        if k == 'Value':
            if self.skip(c):
                return None, c + 1
            if c >= n:
                raise Bad()
            t = b[c] & 0x70
            if t == OCT:
                v, c = self.p('Oct', c)
            elif t == BOOLT:
                v, c = self.p('bool', c)
            elif t in (INT, UINT):
                t, v, c = self.anynum(c)
            else:
                raise Bad()
            return ('s', t, v), c
        if k == 'Time':
            if self.skip(c):
                return None, c + 1
            if c >= n:
                raise Bad()
            if b[c] == 0x65:
                tag = ('n', 1, 1)
            else:
                l, c = self.hdr(c, LIST, 2)
                tag, c = self.num(1, UINT, c)
            if c >= n:
                raise Bad()
            if b[c] & 0x70 == UINT:
                d, c = self.num(4, UINT, c)
            elif b[c] & 0x70 == LIST:
                l, c = self.hdr(c, LIST, 3)
                _, c = self.num(4, UINT, c)
                _, c = self.num(2, INT, c)
                _, c = self.num(2, INT, c)
                d = None
            else:
                raise Bad()
            return ('r', k, [tag, d]), c
        if k == 'TreePath':
            if self.skip(c):
                return None, c + 1
            m, c = self.hdr(c, LIST)
            out = []
            for _ in range(max(m, 0)):
                v, c = self.p('Oct', c)
                if v is not None:
                    out.append(v)
            return ('r', k, [('l', out)]), c
        if k == 'Tree':
            if self.skip(c):
                return None, c + 1
            if depth <= 0:
                raise Bad()
            l, c = self.hdr(c, LIST, 3)
            name, c = self.p('Oct', c)
            val, c = self.p('PPV', c)
            kids = []
            if self.skip(c):
                c += 1
            else:
                m, c = self.hdr(c, LIST)
                for _ in range(max(m, 0)):
                    v, c = self.p('Tree', c, depth - 1)
                    if v is not None:
                        kids.append(v)
            return ('r', k, [name, val, ('l', kids)]), c
        if k == 'PPV':
            if self.skip(c):
                return None, c + 1
            l, c = self.hdr(c, LIST, 2)
            tag, c = self.num(1, UINT, c)
            if tag is None:
                raise Bad()
            a = {1: 'Value', 2: 'Period', 3: 'Tupel', 4: 'Time'}.get(tag[2])
            if a is None:
                raise Bad()
            d, c = self.p(a, c)
            return ('r', k, [tag, d]), c
        if k == 'Body':
            l, c = self.hdr(c, LIST, 2)
            tag, c = self.num(4, UINT, c)
            if tag is None:
                raise Bad()
            a = self.MSG.get(tag[2])
            d = None
            if a is not None:
                d, c = self.p(a, c)
            return ('r', k, [tag, d]), c
        if k == 'Message':
            s = c
            l, c = self.hdr(c, LIST, 6)
            vals = []
            for f in ('Oct', 'u8', 'u8', 'Body'):
                v, c = self.p(f, c)
                vals.append(v)
            e = c
            if n - c < 3:
                raise Bad()
            crc, c = self.num(2, UINT, c)
            if crc is None:
                raise Bad()
            d = bytes(b[s:e])
            if crc[2] != crc16x(d) and crc[2] != crc16k(d):
                return None, c
            if c >= n:
                raise Bad()
            if b[c] == 0:
                c += 1
            return ('r', k, vals), c
        if k == 'List':
            if self.skip(c):
                return None, c + 1
            m, c = self.hdr(c, LIST)
            out = []
            w = False
            for _ in range(max(m, 0)):
                v, c, w = self.listentry(c, w)
                out.append(v)
            return (('l', out) if out else None), c
        if k == 'ObjList':
            if self.skip(c):
                return None, c + 1
            m, c = self.hdr(c, LIST)
            out = []
            for _ in range(max(m, 0)):
                v, c = self.p('Oct', c)
                out.append(('r', 'Obj', [v]))
            return (('l', out) if out else None), c
        if k.startswith('Seq:'):
            m, c = self.hdr(c, LIST)
            out = []
            for _ in range(max(m, 0)):
                v, c = self.p(k[4:], c)
                out.append(v)
            return ('l', out), c
        sk, fields = self.G[k]
        if sk and self.skip(c):
            return None, c + 1
        l, c = self.hdr(c, LIST, len(fields))
        vals = []
        for name, f in fields:
            v, c = self.p(f, c)
            vals.append(v)
        return ('r', k, vals), c

    def listentry(self, c, w):
        l, c = self.hdr(c, LIST, 7)
        vals = []
        for name, f in self.G['ListEntry'][1]:
            if name == 'value':
                tl = self.b[c] if c < self.n else 0
            v, c = self.p(f, c)
            vals.append(v)
        on, val = vals[0], vals[5]
        det = False
        if on == ('o', bytes([1, 0, 96, 1, 0, 255])) and val and val[1] == 0 and val[2] and len(val[2][1]) == 10 and \
                val[2][1][:5] == b'\x0a\x01DZG':
            s = int.from_bytes(val[2][1][5:], 'big')
            det = 42000000 <= s <= 48999999 or 55000000 <= s <= 58999999
        if not det and w and on == ('o', bytes([1, 0, 16, 7, 0, 255])) and val and (tl & 0x70) == INT and \
                (tl & 0x8f) in (1, 2, 3):
            vals[5] = ('s', (val[1] & 0x8f) | 0x60, val[2])
        return ('r', 'ListEntry', vals), c, w or det

    def file(self, b):
        self.b, self.n = b, len(b)
        c, out = 0, []
        while c < self.n:
            if b[c] == 0:
                c += 1
                continue
            try:
                v, c = self.p('Message', c)
            except Bad:
                break
            if v is not None:
                out.append(v)
        return out

    # ---- writing
    def wnum(self, w, t, v):
        if v is None:
            return b'\x01'
        return bytes([t | (w + 1)]) + v[2].to_bytes(w, 'big')

    def write(self, k, v):
        if k in NUMS:
            return self.wnum(NUMS[k][0], NUMS[k][1], v)
        if k == 'Oct':
            return b'\x01' if v is None else tl_bytes(OCT, len(v[1])) + v[1]
        if k == 'bool':
            return b'\x01' if v is None else bytes([0x42, 0xff if v[2] else 0])
        if k in ('Status', 'Value'):
            if v is None:
                return b'\x01'
            t = v[1] & 0x70
            if t == OCT:
                return self.write('Oct', v[2])
            if t == BOOLT:
                return self.write('bool', v[2])
            return self.wnum(v[1] & 15, t, v[2])
        if k == 'Time':
            return b'\x01' if v is None else b'\x72' + self.write('u8', v[2][0]) + self.write('u32', v[2][1])
        if k == 'TreePath':
            if v is None:
                return b'\x01'
            L = v[2][0][1]
            return tl_bytes(LIST, len(L)) + b''.join(self.write('Oct', x) for x in L)
        if k == 'Tree':
            if v is None:
                return b'\x01'
            L = v[2][2][1]
            r = b'\x73' + self.write('Oct', v[2][0]) + self.write('PPV', v[2][1])
            return r + (tl_bytes(LIST, len(L)) + b''.join(self.write('Tree', x) for x in L) if L else b'\x01')
        if k == 'PPV':
            if v is None:
                return b'\x01'
            tag, d = v[2]
            r = b'\x72' + self.write('u8', tag)
            return r + self.write({1: 'Value', 2: 'Period', 3: 'Tupel', 4: 'Time'}[tag[2]], d)
        if k == 'Body':
            tag, d = v[2]
            r = b'\x72' + self.write('u32', tag)
            a = self.MSG.get(tag[2])
            return r + (self.write(a, d) if a else b'')
        if k == 'Message':
            r = b'\x76' + b''.join(self.write(f, x) for f, x in zip(('Oct', 'u8', 'u8', 'Body'), v[2]))
            return r + b'\x63' + crc16x(r).to_bytes(2, 'big') + b'\x00'
        if k == 'List' or k == 'ObjList':
            if v is None:
                return b'\x01'
            return tl_bytes(LIST, len(v[1])) + b''.join(
                self.write('ListEntry', x) if k == 'List' else self.write('Oct', x[2][0]) for x in v[1])
        if k.startswith('Seq:'):
            if v is None:
                return b'\x01'
            return tl_bytes(LIST, len(v[1])) + b''.join(self.write(k[4:], x) for x in v[1])
        sk, fields = self.G[k]
        if v is None:
            return b'\x01'
        return tl_bytes(LIST, len(fields)) + b''.join(self.write(f, x) for (n, f), x in zip(fields, v[2]))

    # ---- printing
    def dump(self, v):
        if v is None:
            return '-'
        if v[0] == 'n':
            return '%0*x' % (2 * v[1], v[2])
        if v[0] == 'o':
            return 'o' + v[1].hex()
        if v[0] == 's':
            return 't%02x:%s' % (v[1], self.dump(v[2]))
        if v[0] == 'l':
            return '[' + ','.join(self.dump(x) for x in v[1]) + ']'
        return '{' + ','.join(self.dump(x) for x in v[2]) + '}'


class Gen:
    """random elements as bytes, by grammar, with deliberate deviations"""

    def __init__(self, ref, rnd, dev=0.0):
        self.r, self.R, self.dev = ref, rnd, dev

    def tl(self, typ, l):
        R = self.R
        x = R.random()
        if x < 0.04:
            k = R.randrange(1, 10)
            return tl_long(typ, (l + (0 if typ == LIST else k)) & ((1 << (4 * k)) - 1), k)
        return tl_bytes(typ, l)

    def oct(self, maybe=True):
        R = self.R
        x = R.random()
        if maybe and x < 0.2:
            return b'\x01'
        n = R.choice([0, 1, 2, 3, 5, 6, 6, 10, 13, 14, 15, 16, R.randrange(20)]) if x < 0.97 else \
            R.choice([253, 254, 255, 256, 300, 4090, 4093, 4094])
        if n == 6 and R.random() < .5:
            d = bytes(R.choice([[1, 0, 96, 1, 0, 255], [1, 0, 16, 7, 0, 255], [1, 0, 16, 7, 1, 255]]))
        elif n == 10 and R.random() < .7:
            d = self.serial()
        else:
            d = bytes(R.choice([R.randrange(256), R.randrange(0x20, 0x7f), 0, 0xff]) for _ in range(n))
        return self.tl(OCT, n) + d

    def serial(self):
        R = self.R
        s = R.choice([42000000, 48999999, 41999999, 49000000, 55000000, 58999999, 54999999, 59000000, 60000000,
                      R.randrange(42000000, 49000000), R.randrange(55000000, 59000000), R.randrange(1 << 40),
                      42000000 + (1 << 32)])
        d = b'\x0a\x01DZG' + s.to_bytes(5, 'big')
        if R.random() < .1:
            d = bytearray(d)
            d[R.randrange(5)] ^= 1 << R.randrange(8)
        return bytes(d)

    def num(self, w, t, maybe=True):
        R = self.R
        if maybe and R.random() < .2:
            return b'\x01'
        if R.random() < .03:
            w = R.choice([9, 10, 15, 16])
        l = R.randrange(0, w + 1) if R.random() < .5 else w
        if R.random() < .04:
            t = R.choice([INT, UINT])
        d = bytes(R.choice([R.randrange(256), 0, 0xff, 0x80, 0x7f]) for _ in range(l))
        return self.tl(t, l) + d

    def g(self, k, depth=0):
        R = self.R
        x = R.random()
        if x < self.dev:
            return R.choice([b'\x01', b'\x00', b'\x70', b'\x71\x01', b'\x42\x01', b'\x62\x05', b'\x52\xf0', b'\x02a',
                             b'\x80', b'\xf0', b'\xff' * 8, b'\x0f', b'', bytes([R.randrange(256)]), b'\x7f', b'\x72',
                             b'\x73', b'\x65\x00\x00\x00\x01', b'\x63\x00\x01'])
        if k in NUMS:
            return self.num(*NUMS[k])
        if k == 'Oct':
            return self.oct()
        if k == 'bool':
            return b'\x01' if R.random() < .2 else self.tl(BOOLT, 1) + bytes([R.choice([0, 1, 0xff, R.randrange(256)])])
        if k == 'Status':
            return self.num(R.choice([1, 2, 4, 8]), UINT)
        if k == 'Value':
            y = R.random()
            if y < .25:
                return self.oct()
            if y < .4:
                return self.g('bool')
            return self.num(R.choice([1, 2, 4, 8]), R.choice([INT, UINT]))
        if k == 'Time':
            y = R.random()
            if y < .15:
                return b'\x01'
            if y < .35:
                return b'\x65' + bytes(R.randrange(256) for _ in range(4))
            h = self.tl(LIST, 2) + self.num(1, UINT)
            if y < .55:
                return h + self.tl(LIST, 3) + self.num(4, UINT) + self.num(2, INT) + self.num(2, INT)
            return h + self.num(4, UINT, R.random() < .2)
        if k == 'TreePath':
            n = self.cnt()
            return self.tl(LIST, n) + b''.join(self.oct() for _ in range(n))
        if k == 'Tree':
            if R.random() < .1:
                return b'\x01'
            h = self.tl(LIST, 3) + self.oct() + self.g('PPV', depth)
            if depth > 4 or R.random() < .3:
                return h + b'\x01'
            n = self.cnt() if depth < 2 else R.randrange(3)
            return h + self.tl(LIST, n) + b''.join(self.g('Tree', depth + 1) for _ in range(n))
        if k == 'PPV':
            if R.random() < .1:
                return b'\x01'
            t = R.choice([1, 2, 3, 4, 1, 2, 3, 4, 0, 5, 255]) if R.random() < .1 else R.choice([1, 2, 3, 4])
            return self.tl(LIST, 2) + b'\x62' + bytes([t]) + self.g({1: 'Value', 2: 'Period', 3: 'Tupel', 4: 'Time'}.get(
                t, 'Value'))
        if k == 'Body':
            if R.random() < .03:
                t = R.choice([R.randrange(1 << 32), 0, 0x603, 0x703, 0xfe01])
                return self.tl(LIST, 2) + b'\x65' + t.to_bytes(4, 'big') + self.g('Oct')
            t = R.choice(sorted(self.r.MSG)) if R.random() < .6 else 0x701
            tb = b'\x65' + t.to_bytes(4, 'big') if R.random() < .5 or t > 0x7fff else b'\x63' + t.to_bytes(2, 'big')
            return self.tl(LIST, 2) + tb + self.g(self.r.MSG[t])
        if k == 'Message':
            m = self.tl(LIST, 6) + self.oct() + self.num(1, UINT) + self.num(1, UINT) + self.g('Body')
            y = R.random()
            crc = crc16x(m) if y < .65 else crc16k(m) if y < .9 else R.choice([0, crc16x(m) ^ 1, R.randrange(65536)])
            cb = crc.to_bytes(2, 'big')
            if cb[0] == 0 and R.random() < .5:
                return m + b'\x62' + cb[1:] + (b'\x00' if R.random() < .9 else b'')
            return m + b'\x63' + cb + (b'\x00' if R.random() < .9 else b'')
        if k == 'List':
            if R.random() < .1:
                return b'\x01'
            n = self.cnt()
            return self.tl(LIST, n) + b''.join(self.entry() for _ in range(n))
        if k == 'ObjList':
            if R.random() < .1:
                return b'\x01'
            n = self.cnt()
            return self.tl(LIST, n) + b''.join(self.oct() for _ in range(n))
        if k.startswith('Seq:'):
            n = self.cnt()
            return self.tl(LIST, n) + b''.join(self.g(k[4:]) for _ in range(n))
        sk, fields = self.r.G[k]
        if sk and R.random() < .1:
            return b'\x01'
        return self.tl(LIST, len(fields)) + b''.join(self.g(f, depth) for n, f in fields)

    def cnt(self):
        R = self.R
        x = R.random()
        return R.randrange(4) if x < .9 else R.randrange(10) if x < .97 else R.choice([14, 15, 16, 17, 33])

    def entry(self):
        R = self.R
        if R.random() < .8 or self.dev:
            y = R.random()
            if y < .25:
                return b'\x77\x07\x01\x00\x60\x01\x00\xff\x01\x01\x01\x01' + b'\x0b' + self.serial() + b'\x01'
            if y < .45:
                nm = bytes(R.randrange(256) for _ in range(R.choice([6, 6, 6, 7])))
                return b'\x77' + bytes([len(nm) + 1]) + nm + b''.join(self.g(f) for n, f in self.r.G['ListEntry'][1][1:])
            if y < .7:
                return b'\x77\x07\x01\x00\x10\x07\x00\xff\x01\x01' + self.g('u8') + self.g('i8') + self.num(
                    R.choice([1, 2, 4, 8]), R.choice([INT, INT, UINT])) + b'\x01'
        return self.tl(LIST, 7) + b''.join(self.g(f) for n, f in self.r.G['ListEntry'][1])

    def mutate(self, b):
        R = self.R
        b = bytearray(b)
        for _ in range(R.choice([1, 1, 1, 2, 4])):
            if not b:
                break
            y = R.random()
            i = R.randrange(len(b))
            if y < .35:
                b[i] = R.choice([R.randrange(256), b[i] ^ (1 << R.randrange(8)), 1, 0, 0x80 | b[i], 0xff])
            elif y < .65:
                del b[i:]
            elif y < .8:
                del b[i]
            else:
                b.insert(i, R.randrange(256))
        return bytes(b)
