"""Differential runs of the real library (clang, ASan and UBSan) against the executable specification (ref.py).
Finds the failing input for an obligation that does not hold, and is the bounded stand-in for functions out of the
verifier's reach."""
import glob
import json
import math
import os
import random
import shutil
import struct
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import ref as R_

REPO = os.environ.get('VF_REPO', '/repo')


def tables():
    import spec
    import types_
    import contracts
    return spec.G, dict(types_.MSGTAGS), contracts.STEMS


SAN = ['-fsanitize=address,undefined', '-fno-sanitize=function,nonnull-attribute,alignment',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:quarantine_size_mb=32:allocator_may_return_null=0:detect_stack_use_after_return=0:'
           'abort_on_error=0:exitcode=98', UBSAN_OPTIONS='print_stacktrace=1:exitcode=97')
CTYPES = {'u8': 'u8', 'i8': 'i8', 'u16': 'u16', 'i16': 'i16', 'u32': 'u32', 'i32': 'i32', 'u64': 'u64', 'i64': 'i64'}
KINDS = []


def kinds(STEMS):
    ks = [(k, None) for k in R_.NUMS] + [('bool', None)]
    ks += [(k, s) for k, s in STEMS.items()]
    ks += [('Seq:' + k, STEMS[k]) for k in ('Header', 'PeriodEntry', 'Period', 'ValueEntry')]
    return ks


def cname(k, s):
    return {'Oct': 'octet_string'}.get(k, 'sml_' + (s or ''))


def gen_driver(G, MSG, STEMS):
    out = [open(os.path.join(HERE, 'harness/driver_head.c')).read()]
    inc = sorted(os.path.basename(h) for h in glob.glob(os.path.join(REPO, 'sml/include/sml/*.h')))
    out[0] = '\n'.join('#include <sml/%s>' % h for h in inc) + '\n' + out[0]
    out[0] = '#define _GNU_SOURCE\n' + out[0]

    def d(k, e):
        if k in R_.NUMS:
            return 'd_num((unsigned char *)%s, %d);' % (e, R_.NUMS[k][0])
        if k == 'bool':
            return 'd_num((unsigned char *)%s, 1);' % e
        if k.startswith('Seq:'):
            return 'd_seq(%s, (dumper)d_%s);' % (e, k[4:])
        return 'd_%s(%s);' % (k, e)
    structs = [k for k in G if k != 'ListEntry']
    for k in structs:
        out.append('static void d_%s(%s *);' % (k, cname(k, STEMS[k])))
    for k in structs + ['ListEntry']:
        sk, fields = G[k]
        cn = 'sml_list' if k == 'ListEntry' else cname(k, STEMS[k])
        body = ' fputc(\',\', O); '.join(d(f, 's->' + n + ('.timestamp' if False else '')) for n, f in fields)
        out.append('static void d_%s(%s *s) { if (!s) { fputc(\'-\', O); return; } fputc(\'{\', O); %s fputc(\'}\', O); }'
                   % (k, cn, body))
    sw = ' '.join('case 0x%x: d_%s(b->data); break;' % (t, k) for t, k in MSG.items())
    out.append("static void d_Body(sml_message_body *b) { if (!b) { fputc('-', O); return; } fputc('{', O); "
               "d_num((unsigned char *)b->tag, 4); fputc(',', O); switch (b->tag ? *b->tag : 0) { %s default: "
               "if (b->data) fputs(\"?\", O); else fputc('-', O); } fputc('}', O); }" % sw)
    out.append('static void d_Message(sml_message *);')
    out.append('typedef struct { void *(*parse)(sml_buffer *); void (*write)(void *, sml_buffer *); void (*free)(void *);'
               ' void (*dump)(void *); } kind;')
    tab = []
    for i, (k, s) in enumerate(kinds(STEMS)):
        if k in R_.NUMS:
            p, w, f = 'sml_%s_parse(b)' % k, 'sml_%s_write(o, b)' % k, 'sml_number_free(o)'
        elif k == 'bool':
            p, w, f = 'sml_boolean_parse(b)', 'sml_boolean_write(o, b)', 'sml_boolean_free(o)'
        elif k.startswith('Seq:'):
            n = cname(k[4:], s)
            p = 'sml_sequence_parse(b, (void *(*)(sml_buffer *))%s_parse, (void (*)(void *))%s_free)' % (n, n)
            w = 'sml_sequence_write(o, b, (void (*)(void *, sml_buffer *))%s_write)' % n
            f = 'sml_sequence_free(o)'
        else:
            n = 'sml_' + s
            p, w, f = n + '_parse(b)', n + '_write(o, b)', n + '_free(o)'
        out.append('static void *p%d(sml_buffer *b) { return %s; }' % (i, p))
        out.append('static void w%d(void *o, sml_buffer *b) { %s; }' % (i, w))
        out.append('static void f%d(void *o) { %s; }' % (i, f))
        out.append('static void du%d(void *o) { %s }' % (i, d(k, 'o')))
        tab.append('{p%d,w%d,f%d,du%d}' % (i, i, i, i))
    t = open(os.path.join(HERE, 'harness/driver_tail.c')).read()
    cut = t.index('static const unsigned char *A;')
    out.append(t[:cut])
    out.append('static const kind K[] = {%s};' % ','.join(tab))
    out.append(t[cut:])
    return '\n'.join(out)


class Harness:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.dir = tempfile.mkdtemp(prefix='vfh')
        self.G, self.MSG, self.STEMS = tables()
        self.kinds = kinds(self.STEMS)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def build(self):
        d = self.dir
        with open(d + '/driver.c', 'w') as f:
            f.write(gen_driver(self.G, self.MSG, self.STEMS))
        I = ['-I' + self.repo + '/sml/include', '-I' + self.repo + '/examples']
        base = ['clang', '-std=gnu99', '-g', '-O1', '-w', '-D_GNU_SOURCE'] + SAN + I
        redirect = ['-D%s=vf_%s' % (x, x) for x in ('malloc', 'calloc', 'realloc', 'free', 'read', 'write', 'select')]
        jobs = [base + ['-c', d + '/driver.c', '-o', d + '/driver.o']]
        objs = [d + '/driver.o']
        for s in sorted(glob.glob(self.repo + '/sml/src/*.c')):
            o = d + '/' + os.path.basename(s) + '.o'
            jobs.append(base + redirect + ['-c', s, '-o', o])
            objs.append(o)
        o = d + '/server.o'
        jobs.append(base + redirect[:4] + ['-fno-builtin', '-Dmain=server_main', '-Dprintf=vf_printf', '-Dputs=vf_puts',
                                           '-Dputchar=vf_putchar', '-c', self.repo + '/examples/sml_server.c', '-o', o])
        objs.append(o)
        ps = [subprocess.Popen(j, stderr=subprocess.PIPE, text=True) for j in jobs]
        err = ''
        for p in ps:
            e = p.communicate()[1]
            if p.returncode:
                err += e
        if err:
            return err[:3000]
        r = subprocess.run(base + objs + ['-luuid', '-lm', '-o', d + '/driver'], capture_output=True, text=True)
        return r.stderr[:3000] if r.returncode else None

    # ---- running
    def run(self, cases, tag):
        """-> list of output strings; a case that kills the driver gets ('CRASH', text)"""
        fi, fo = '%s/in%s' % (self.dir, tag), '%s/out%s' % (self.dir, tag)
        with open(fi, 'wb') as f:
            for op, sec, fs, data in cases:
                f.write(bytes([op, sec, fs, 0]) + struct.pack('<II', len(data), 0) + data)
        out = {}
        skip = 0
        crashes = 0
        while True:
            r = subprocess.run([self.dir + '/driver', fi, fo, str(skip)], capture_output=True, env=ENV,
                               stdin=subprocess.DEVNULL, cwd=self.dir)
            last = None
            done = False
            with open(fo, errors='replace') as f:
                for l in f:
                    l = l.rstrip('\n')
                    if l == 'END':
                        done = True
                        break
                    i, _, t = l.partition(' ')
                    last = int(i)
                    out[last] = t
            if done:
                break
            if last is None:
                last = skip
            e = r.stderr.decode(errors='replace')
            out[last] = ('CRASH', e[-6000:] if 'ERROR' not in e else e[e.index('ERROR') - 20:][:6000], r.returncode)
            skip = last + 1
            crashes += 1
            if crashes >= 5:
                break
        os.unlink(fi)
        os.unlink(fo)
        return [out.get(i) for i in range(len(cases))]


def crash_class(text, rc):
    if rc == 99 or 'TIMEOUT' in text[-200:]:
        return 'term'
    if 'stack-overflow' in text:
        return 'term'
    if 'double-free' in text or 'use-after-free' in text or 'attempting free' in text or 'bad-free' in text:
        return 'own'
    return 'mem'


U32 = struct.Struct('<I').pack


def bl(b):
    return U32(len(b)) + b


class Cases:
    """generators: each returns (case, expected, classify)"""

    def __init__(self, H, seed):
        self.H = H
        self.rnd = random.Random(seed)
        self.ref = R_.Ref(H.G, H.MSG)
        self.gen = R_.Gen(self.ref, self.rnd)
        self.idx = {k: i for i, (k, s) in enumerate(H.kinds)}

    def elem(self, k, p_dev=None):
        R = self.rnd
        self.gen.dev = (R.choice([0, 0, .02, .1]) if p_dev is None else p_dev)
        b = self.gen.g(k)
        x = R.random()
        if p_dev is None:
            if x < .25:
                b = self.gen.mutate(b)
            if x < .6:
                b += bytes(R.randrange(256) for _ in range(R.choice([1, 1, 2, 5])))
            elif x < .7:
                b = b[:-1]
        else:
            b += b'\0'
        return b

    def parse(self, k, p_dev=None):
        R = self.rnd
        b = self.elem(k, p_dev)
        pos = 0
        if R.random() < .2:
            pos = R.randrange(1, 5)
            b = bytes(R.randrange(256) for _ in range(pos)) + b
        pend = 1 if R.random() < .08 and k not in ('Body', 'Message', 'TreePath') and not k.startswith('Seq') else 0
        try:
            v, c = self.ref.parse(k, b, pos)
            exp = 'e0 c%d %s i1 l0' % (c, self.ref.dump(v))
        except R_.Bad:
            exp = 'e1 c1 - i1 l0'
        if pend:
            exp = 'e1 c1 ? i1 l0'
        return (1, 20, R.randrange(3), U32(self.idx[k]) + U32(pos) + U32(pend) + bl(b)), exp

    @staticmethod
    def cls_parse(got, exp):
        g, e = got.split(' '), exp.split(' ')
        if len(g) != len(e):
            return 'mem'
        if g[0] != e[0]:
            return 'err'
        if g[2] != e[2]:
            return 'nul' if e[2] == '-' and e[0] == 'e1' else 'val'
        if g[1] != e[1]:
            return 'cur'
        return 'frame' if g[3] != e[3] else 'own'

    def write(self, k):
        R = self.rnd
        for _ in range(20):
            b = self.elem(k, 0)
            try:
                v, c = self.ref.parse(k, b, 0)
            except R_.Bad:
                continue
            if k in ('Body', 'Message') and v is None or (k in self.H.G and not self.H.G[k][0] and v is None):
                continue
            break
        else:
            return None
        w = self.ref.write(k, v)
        pre, extra = R.choice([0, 0, 1, 7]), R.choice([0, 0, 0, 1, 9])
        rb = w + b'\0'
        try:
            v2, c2 = self.ref.parse(k, rb, 0)
            rt = 'e0 c%d %s' % (c2, self.ref.dump(v2))
        except R_.Bad:
            rt = 'e1 '
        exp = 'c%d %s u0 e0 %s a1 %s l0' % (pre + len(w), w.hex(), self.ref.dump(v), rt)
        return (2, 20, R.randrange(3), U32(self.idx[k]) + U32(pre) + U32(len(w)) + U32(extra) + bl(b)), exp

    @staticmethod
    def cls_write(got, exp):
        g, e = got.split(' '), exp.split(' ')
        if len(g) < 7 or g[0] == 'NOPARSE':
            return 'parse'
        if g[:4] != e[:4] or g[5] != e[5]:
            return 'enc'
        if g[4] != e[4]:
            return 'keep'
        if g[-1] != e[-1]:
            return 'own'
        return 'rt'

    def file(self):
        R = self.rnd
        n = R.choice([0, 1, 1, 2, 2, 3, 5])
        bs = []
        for _ in range(n):
            self.gen.dev = R.choice([0, 0, 0, .03])
            m = self.gen.g('Message')
            if R.random() < .15:
                m = self.gen.mutate(m)
            bs.append(m)
            if R.random() < .3:
                bs.append(bytes(R.choice([1, 3])))
        b = b''.join(bs)
        if R.random() < .1:
            b = self.gen.mutate(b)
        return b

    def filecase(self):
        b = self.file()
        ms = self.ref.file(b)
        exp = 'n%d [%s] i1 l0' % (len(ms), ','.join(self.ref.dump(m) for m in ms))
        return (3, 30, self.rnd.randrange(3), bl(b)), exp

    @staticmethod
    def cls_file(got, exp):
        g, e = got.split(' '), exp.split(' ')
        if g[:2] != e[:2]:
            return 'file'
        return 'own' if g[-1] != e[-1] else 'frame'

    def bigfile(self, n):
        """many messages / deep nesting / huge counts"""
        R = self.rnd
        x = R.randrange(4)
        if x == 0:
            m = b'\x76\x02a\x62\x00\x62\x00\x72\x63\x02\x01\x71\x01'
            m += b'\x63' + R_.crc16x(m).to_bytes(2, 'big') + b'\0'
            b = m * n
        elif x == 1:
            d = R.choice([200, 255, 256, 257, 258, 300, 100000])
            t = b'\x73\x01\x01\x71' * d + b'\x73\x01\x01\x01'
            m = b'\x76\x02a\x62\x00\x62\x00\x72\x63\x05\x01\x73\x01\x71\x01' + t
            b = m + b'\x63' + R_.crc16x(m).to_bytes(2, 'big') + b'\0'
        elif x == 2:
            b = b'\x76\x02a\x62\x00\x62\x00\x72\x63\x07\x01\x77\x01\x01\x01\x01' + R_.tl_long(R_.LIST, 0x7ffffff, 7) + b'\x77' * 50
        else:
            b = R_.tl_long(R_.LIST, 0xfffffff, 7) + b'\x01' * 100
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(10000)
        ms = self.ref.file(b)
        exp = 'n%d [%s] i1 l0' % (len(ms), ','.join(self.ref.dump(m) for m in ms))
        sys.setrecursionlimit(old)
        return (3, 30, 0, bl(b)), exp

    def crc(self):
        R = self.rnd
        n = R.choice([0, 1, 2, 3, R.randrange(300), R.randrange(5000)])
        b = bytes(R.randrange(256) for _ in range(n)) if R.random() < .8 else bytes([R.choice([0, 255])]) * n
        return (4, 20, 0, bl(b)), '%04x %04x i1' % (R_.crc16x(b), R_.crc16k(b))

    # ---- transport
    START = bytes([0x1b] * 4 + [1] * 4)

    def stream(self):
        R = self.rnd
        out = b''
        for _ in range(R.choice([1, 1, 2, 3])):
            x = R.random()
            if x < .6:
                out += R.choice([b'', b'\x1b', b'\x1b' * R.randrange(1, 9), b'\x1b\x1b\x1b\x1b\x01', b'\x1b' * 4 + b'\x01' * 3,
                                 b'\x1b\x1b\x1b\x1b\x01\x01', b'\x01' * 4, bytes(R.randrange(256) for _ in range(R.randrange(12))),
                                 b'\x1b' * 4 + b'\x01\x1b', b'\x1b' * 3 + b'\x01', b'\x1b' * 4 + b'\x02' + b'\x1b' * 3])
            body = b''.join(R.choice([bytes(R.randrange(256) for _ in range(4)), b'\x1b\x1b\x1b\x00', b'\x00\x1b\x1b\x1b',
                                      b'\x1b\x00\x1b\x1b', bytes(4)]) for _ in range(R.choice([0, 1, 2, 3, 8, 20])))
            if R.random() < .1:
                body += b'\x00' * R.randrange(1, 4)
            out += self.START + body + R.choice([b'\x1b' * 4 + b'\x1a'] * 6 + [b'\x1b' * 4 + b'\x1b', b'\x1b' * 4 + b'\x01']) + \
                bytes(R.randrange(256) for _ in range(3))
        if R.random() < .2:
            out = out[:R.randrange(len(out) + 1)]
        return out

    @classmethod
    def frame(cls, s, pos, mx):
        """-> (frame or None, position after), reference reader; None,None when a cap exactly equals the frame"""
        if mx < 8:
            return b'', pos
        i = s.find(cls.START, pos)
        if i < 0:
            return b'', len(s)
        p = i + 8
        while p - i + 8 < mx:
            if p + 4 > len(s):
                return b'', len(s)
            w = s[p:p + 4]
            p += 4
            if w == b'\x1b' * 4:
                if p + 4 > len(s):
                    return b'', len(s)
                e = s[p:p + 4]
                p += 4
                return (s[i:p], p) if e[0] == 0x1a else (b'', p)
        return b'', p

    def script(self):
        R = self.rnd
        x = R.random()
        if x < .2:
            return b''
        # never ends: errors (0xfd) are only at the last position of a finite script
        s = bytes(R.choice([1, 1, 2, 3, 4, 5, 8, 100, 0xff, 0xfe]) for _ in range(R.randrange(1, 8)))
        if all(c in (0xff, 0xfe) for c in s):
            s += b'\x03'
        return s

    def read(self):
        R = self.rnd
        s = self.stream()
        mx = R.choice([0, 1, 7, 8, 9, 16, 17, 24, 40, 100, 8096, R.randrange(200)])
        f, _ = self.frame(s, 0, mx)
        f2, _ = self.frame(s, 0, mx + 1)
        if f != f2:     # a frame of exactly the caller's size: either answer is allowed
            mx += 1
            f = f2
        return (5, 20, R.randrange(3), U32(mx) + bl(s) + bl(self.script())), 'r%d %s' % (len(f), f.hex())

    def listen(self):
        s = self.stream() + self.stream()
        pos, out = 0, ''
        while True:
            f, pos = self.frame(s, pos, 8096)
            if not f:
                break
            out += '<%s>' % f.hex()
        return (6, 20, self.rnd.randrange(3), bl(s) + bl(self.script())), out

    def twrite(self):
        R = self.rnd
        b = self.file()
        ms = self.ref.file(b)
        w = self.START + b''.join(self.ref.write('Message', m) for m in ms)
        pad = -len(w) % 4
        w += bytes(pad) + b'\x1b' * 4 + b'\x1a' + bytes([pad])
        w += R_.crc16x(w).to_bytes(2, 'big')
        mode = R.choice([0, 0, 0, 0, 1, 2, 3])
        room = len(w) + R.choice([0, 0, 1, 30])
        r = {0: len(w)}.get(mode, 0)
        o = {0: w, 1: b'', 2: w[:len(w) // 2], 3: w[:-1]}[mode]
        return (7, 20, R.randrange(3), U32(mode) + U32(room) + bl(b)), 'r%d k1 %s c%d l0' % (r, o.hex(), len(w))

    # ---- helpers
    HEXC = b'0123456789abcdefABCDEF'

    @staticmethod
    def ctoi(c):
        c = chr(c)
        return int(c, 16) if c in '0123456789abcdefABCDEF' else 0

    @staticmethod
    def unhex(h):
        if len(h) % 2:
            return None
        return bytes((Cases.ctoi(h[i]) << 4) | Cases.ctoi(h[i + 1]) for i in range(0, len(h), 2))

    @staticmethod
    def strhex(d, mixed):
        out = b''
        for c in d:
            if mixed and 0x20 < c < 0x7b:
                out += bytes([c])
            else:
                mixed = False
                out += b'%02x ' % c
        return out

    def helper(self, h=None):
        R = self.rnd
        h = R.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8]) if h is None else h
        rb = lambda n: bytes(R.choice([R.randrange(256), 0, 255, 0x80, R.randrange(0x1f, 0x7d)]) for _ in range(n))
        e = None
        if h == 0:
            t = R.choice([0x51, 0x52, 0x54, 0x58, 0x61, 0x62, 0x64, 0x68])
            w = t & 15
            b = rb(w)
            v = int.from_bytes(b, 'little', signed=t < 0x60)
            e = struct.pack('>d', float(v)).hex()
            d = U32(t) + bl(b)
        elif h == 1:
            b = rb(R.choice([0, 1, 2, 3, 10, 40, R.randrange(300)]))
            if R.random() < .5:
                b = bytes(R.choice([0x20, 0x21, 0x7a, 0x7b, 0x41]) for _ in range(len(b)))
            m = R.randrange(2)
            e = '0 -' if not b else '1 ' + self.strhex(b, m).hex() + '.'
            if not b:
                e = '1 -'
            d = U32(m) + bl(b)
        elif h == 2:
            n = R.choice([0, 1, 2, 3, 4, 5, 6, 20, 101, 100])
            b = bytes(R.choice(self.HEXC if R.random() < .95 else b'gG/:@`zZ \xff\x80') for _ in range(n))
            v = self.unhex(b)
            e = '-' if v is None else 'o%s %d' % (v.hex(), len(v))
            d = bl(b)
        elif h == 3:
            a = rb(R.choice([0, 1, 2, 6]))
            b = a if R.random() < .4 else R.choice([a[:-1], a + b'\0', rb(len(a)), a[:-1] + b'\0'])
            e = '%do%s' % (a == b, a.hex())
            d = bl(a) + bl(b)
        elif h == 4:
            a = rb(R.choice([0, 1, 2, 6]))
            x = a if R.random() < .5 else R.choice([a[:-1], a + b'\0', rb(len(a))])
            b = x.hex().encode()
            if R.random() < .3:
                b = b.upper()
            if R.random() < .2:
                b = b[:-1]
            e = '%do%s' % (self.unhex(b) == a, a.hex())
            d = bl(a) + bl(b)
        elif h == 5:
            b = rb(R.choice([0, 1, 2, 100]))
            e = 'o%s %d o%s' % (b.hex(), len(b), b.hex())
            d = bl(b)
        elif h == 6:
            w = R.choice([1, 2, 4, 8])
            b = rb(8)
            e = '%0*x' % (2 * w, int.from_bytes(b[:w], 'little'))
            d = U32(w) + U32(R.choice([0x50, 0x60])) + bl(b)
        elif h == 7:
            a = R.choice([0, 1, 255, 7])
            e = '%02x 00 0 {-,-} {-,-,[]} {[]} {-,-,-,-,-,-,-} 0 0 512' % a
            e = e.replace('{-,-,-,-,-,-,-}', '[{-,-,-,-,-,-,-}]')
            d = U32(a)
        elif h == 8:
            e, d = '16', b''
        elif h == 9:
            t = R.choice([R_.OCT, R_.BOOLT, R_.INT, R_.UINT, R_.LIST])
            k = R.choice([R.randrange(20), 16 ** R.randrange(1, 7) - R.randrange(0, 9), R.randrange(1 << R.randrange(1, 28))])
            k = max(0, min(k, (1 << 28) - 9))
            w = R_.tl_bytes(t, k)
            fs = R.randrange(3)
            g = [(0x5b + i * 13 + fs) & 255 for i in range(12)]
            e = '%s %s %s %d %d 1 e0' % (bytes(g[:2]).hex(), w.hex(), bytes(g[2 + len(w):]).hex(), t, k)
            return (8, 20, fs, U32(h) + U32(t) + U32(k) + b''), e + ' l0'
        elif h == 10:
            n = R.randrange(10)
            b = bytes(R.randrange(256) | (0x80 if R.random() < .7 else 0) for _ in range(n)) + bytes([R.randrange(256)]) * R.randrange(2)
            self.ref.b, self.ref.n = b, len(b)
            try:
                l, c = self.ref.tl(0)
                e = 'e0 %d %d' % (l, c)
            except R_.Bad:
                e = 'e1 1'
            d = bl(b)
        elif h == 11:
            w, t = R.choice([1, 2, 4, 8]), R.choice([0x50, 0x60])
            b = rb(8)
            v = int.from_bytes(b[:w], 'little')
            fs = R.randrange(3)
            g = bytes([(0x5b + i * 13 + fs) & 255 for i in range(12)])
            x = bytes([t | (w + 1)]) + v.to_bytes(w, 'big')
            e = 'c%d %s %0*x l0' % (w + 2, (g[:1] + x + g[w + 2:]).hex(), 2 * w, v)
            return (8, 20, fs, U32(h) + U32(w) + U32(t) + bl(b)), e
        return (8, 20, R.randrange(3), U32(h) + d), e + ' l0'

    def container(self):
        R = self.rnd
        c = R.randrange(5)
        n = R.choice([0, 1, 2, 3, 9, 40, 300])
        if c != 4 and R.random() < .001:
            n = R.choice([32768, 33000])
        l = ','.join('o' + bytes([i & 255, (i >> 8) & 255, (i >> 16) & 255, 0x5a]).hex() for i in range(n))
        return (9, 60, R.randrange(3), U32(c) + U32(n)), '%d [%s] b0 l0' % (n, l)

    # ---- server
    UNITS = {int(k): v for k, v in json.load(open(os.path.join(HERE, 'harness/units.json'))).items()}

    def srv_lines(self, ms, v):
        out = b''
        if v:
            raise NotImplementedError
        for m in ms:
            body = m[2][3]
            if body[2][0][2] != 0x701:
                continue
            L = body[2][1][2][4]
            for e in (L[1] if L else []):
                name, val, scaler, unit = e[2][0], e[2][5], e[2][4], e[2][3]
                if val is None or name is None or len(name[1]) < 6:
                    continue
                pre = b'%d-%d:%d.%d.%d*%d#' % tuple(name[1][:6])
                t = val[1]
                if t == 0:
                    s = self.strhex(val[2][1], True)
                    out += pre + s.split(b'\0')[0] + b'#\n'
                elif t == 0x40:
                    out += pre + (b'true' if val[2][2] else b'false') + b'#\n'
                elif t & 0x70 in (0x50, 0x60):
                    w, bits = val[2][1], val[2][2]
                    x = bits - (1 << (8 * w)) if (t & 0x70) == 0x50 and bits >> (8 * w - 1) else bits
                    sc = 0
                    if scaler:
                        sc = scaler[2] - 256 if scaler[2] > 127 else scaler[2]
                    try:
                        x = float(x) * math.pow(10, sc)
                    except OverflowError:
                        x = math.inf
                    out += pre + b'%.*f#' % (max(-sc, 0), x)
                    if unit:
                        out += self.UNITS.get(unit[2], '').encode()
                    out += b'\n'
        return out

    @staticmethod
    def known(ms):
        """the frame triggers a listed finding of C17 (missing or short name, empty octet string)"""
        for m in ms:
            body = m[2][3]
            if body[2][0][2] == 0x701 and body[2][1][2][4]:
                for e in body[2][1][2][4][1]:
                    name, val = e[2][0], e[2][5]
                    if val is not None and (name is None or len(name[1]) < 6 or val[1] == 0 and not val[2][1]):
                        return True
        return False

    @staticmethod
    def norm_server(s):
        """the value printed for a boolean is a listed finding of C17"""
        return s.replace('2366616c7365230a', '2374727565230a')

    def server(self):
        R = self.rnd
        while True:
            b = self.file()
            if not self.known(self.ref.file(b)):
                break
        fr = self.START + b + b'\x1b' * 4 + b'\x1a\0\0\0'
        exp = self.srv_lines(self.ref.file(b), 0).hex()
        return (10, 20, R.randrange(3), U32(0) + bl(fr)), exp + ' l0'

    @staticmethod
    def cls_last(got, exp):
        g, e = got.rsplit(' ', 1), exp.rsplit(' ', 1)
        return 'val' if g[0] != e[0] else 'own'


STRUCTS = None


def plan(prop, C, R):
    """one random case of a property: (case, expected, classifier, accepted classes)"""
    H = C.H
    scal = list(R_.NUMS) + ['bool', 'Oct', 'Status', 'Value', 'Time']
    allk = [k for k, s in H.kinds]
    struc = [k for k in allk if k not in scal]
    ANY = None

    def P(ks, acc):
        k = R.choice(ks)
        if k in ('Message', 'Body') and R.random() < .5:
            k = R.choice(ks)
        c, e = C.parse(k, 0 if R.random() < .25 else None)
        return c, e, C.cls_parse, acc

    def W(ks, acc):
        while True:
            r = C.write(R.choice(ks))
            if r:
                return r[0], r[1], C.cls_write, acc

    def F(acc):
        c, e = C.filecase()
        return c, e, C.cls_file, acc
    x = R.random()
    none = lambda g, e: 'val'
    if prop in ('C01', 'C02', 'C03'):
        acc = {'C01': ('mem',), 'C02': ('own',), 'C03': ('term',)}[prop]
        if x < .55:
            return P(allk, acc)
        if x < .8:
            return F(acc)
        if x < .801:
            return C.bigfile(40000 if R.random() < .3 else 100) + (C.cls_file, acc)
        if prop == 'C02':
            if x < .93:
                return W(allk, acc + ('keep',))
            if x < .97:
                return C.twrite() + (C.cls_last, acc)
            return C.container() + (C.cls_last, acc)
        return F(acc)
    if prop == 'C04':
        if x < .6:
            return F(('file',))
        if x < .62:
            return C.crc() + (none, ('val',))
        return P(['Message'], ('err', 'val', 'nul', 'cur'))
    if prop == 'C05':
        return P(scal, ('val', 'cur', 'err', 'nul')) if x < .95 else C.helper(10) + (none, ('val',))
    if prop == 'C06':
        return P(struc, ('val', 'cur')) if x < .9 else F(('file',))
    if prop == 'C07':
        return P(allk, ('err', 'nul', 'val'))
    if prop == 'C08':
        return W(allk, ('enc', 'keep')) if x < .9 else C.helper(R.choice([9, 11])) + (none, ('val',))
    if prop == 'C09':
        return C.helper(R.choice([9, 10])) + (none, ('val',))
    if prop == 'C10':
        return W(allk, ('enc', 'rt', 'parse'))
    if prop == 'C11':
        return C.crc() + (none, ('val',))
    if prop == 'C12':
        return (C.read() if x < .65 else C.listen()) + (none, ('val',))
    if prop == 'C13':
        return C.twrite() + (none, ('val',))
    if prop == 'C14':
        if x < .7:
            return P(['List'], ('val', 'cur', 'err', 'nul'))
        return P(['Time', 'ListResponse', 'Value'], ('val', 'cur', 'err', 'nul'))
    if prop == 'C15':
        return C.helper() + (none, ('val',))
    if prop == 'C16':
        return C.container() + (none, ('val',))
    if prop == 'C17':
        return C.server() + (C.cls_last, ('val', 'own'))
    if prop == 'C18':
        y = R.choice(['p', 'p', 'w', 'f', 'c', 't', 'h'])
        r = {'p': lambda: P(allk, ANY), 'w': lambda: W(allk, ANY), 'f': lambda: F(ANY),
             'c': lambda: C.crc() + (none, ANY), 't': lambda: C.twrite() + (none, ANY),
             'h': lambda: C.helper(R.choice([0, 1, 2, 3, 4, 5, 6, 9, 10, 11])) + (none, ANY)}[y]()
        return r
    raise ValueError(prop)


def shard(a):
    H, prop, seed, budget, maxn, batch = a
    C = Cases(H, seed)
    R = C.rnd
    t0 = time.time()
    n = 0
    skipped = 0
    while n < maxn and time.time() - t0 < budget:
        items = [plan(prop, C, R) for _ in range(min(batch, maxn - n))]
        cases = [i[0] for i in items]
        if prop == 'C18':
            # every case twice, in different surroundings: the answers must be the same
            order = list(range(len(cases)))
            R.shuffle(order)
            seq = cases + [cases[i] for i in order]
            out = H.run(seq, '%d' % seed)
            for j, i in enumerate(order):
                g1, g2 = out[i], out[len(cases) + j]
                if isinstance(g1, tuple) or isinstance(g2, tuple):
                    continue
                if g1 is not None and g2 is not None and g1 != g2:
                    return n, {'case': ser(cases[i]), 'history': [ser(c) for c in seq[max(0, len(cases) + j - 3):len(cases) + j]],
                               'expected': 'the first answer: ' + g1[:2000], 'got': g2[:2000], 'class': 'hist'}, skipped
            n += len(cases)
            continue
        out = H.run(cases, '%d' % seed)
        for (c, e, cls, acc), g in zip(items, out):
            if g is None:
                continue
            if isinstance(g, tuple):
                k = crash_class(g[1], g[2])
                if acc and acc[0] in ('mem', 'own', 'term') and k not in acc and len(acc) <= 2:
                    skipped += 1
                    continue
                return n, {'case': ser(c), 'expected': e[:4000], 'got': 'the library stopped: ' + g[1][:4000], 'class': k}, skipped
            if c[0] == 10:
                g, e = C.norm_server(g), C.norm_server(e)
            if g != e:
                k = cls(g, e)
                if acc is not None and k not in acc:
                    skipped += 1
                    continue
                return n, {'case': ser(c), 'expected': e[:4000], 'got': g[:4000], 'class': k}, skipped
        n += len(items)
    return n, None, skipped


def ser(c):
    return [c[0], c[1], c[2], c[3].hex()]


def search(prop, seed, budget, maxn=10 ** 9, jobs=8, batch=400, H=None, repo=REPO):
    """-> dict: cases, found (or None), error"""
    own = H is None
    H = H or Harness(repo)
    try:
        if own:
            e = H.build()
            if e:
                return {'cases': 0, 'found': None, 'error': 'harness does not build: ' + e[:600]}
        with ProcessPoolExecutor(jobs) as ex:
            res = list(ex.map(shard, [(H, prop, seed * 1000 + i, budget, maxn, batch) for i in range(jobs)]))
        return {'cases': sum(r[0] for r in res), 'found': next((r[1] for r in res if r[1]), None), 'error': None,
                'other': sum(r[2] for r in res)}
    finally:
        if own:
            H.close()


def replay(path):
    d = json.load(open(path))
    c = d.get('case')
    if not c:
        print(d.get('text', 'no input'))
        return 1
    H = Harness()
    try:
        e = H.build()
        if e:
            print(e)
            return 2
        cs = d.get('history', []) + [c]
        g = H.run([(x[0], x[1], x[2], bytes.fromhex(x[3])) for x in cs], 'r')[-1]
        g = g if not isinstance(g, tuple) else 'the library stopped: ' + g[1]
        print('expected:', d['expected'])
        print('got:     ', g)
        return 0 if g == d['expected'] else 1
    finally:
        H.close()


if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    b = float(sys.argv[2]) if len(sys.argv) > 2 else 10
    for p in sys.argv[1].split(','):
        r = search(p, 1, b)
        print(p, json.dumps(r)[:1500])
