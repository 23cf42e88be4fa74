"""Contracts of the functions that make and grow containers.

The values are lists (types_.py): adding appends exactly one element, all other parts stay the same object values.
Callers inline these functions; nothing is assumed from the contracts here."""
import z3
from core import *
from types_ import *
from ir import Unsupported
from contracts import Contract, start, frame_params, leak_check, forking


class AddC(Contract):
    """void add(container, element)"""

    def __init__(self, name, tn, field, elem):
        self.name, self.tn, self.field, self.elem = name, tn, field, elem

    def callable_by(self, ex, f):
        return False

    def verify(self, ex, f):
        tt = ex.T
        T = tt.T[self.tn]
        fs = T.byname[self.field]
        E = tt.T[fs.T] if isinstance(fs.T, str) else fs.T
        st = State(ex)
        v, x = z3.Const('v0', VS), z3.Const('x0', VS)
        st.add(v != VNULL)
        p = tt.produce(st, T, v, 'container')
        q = tt.produce(st, E, x, 'element')
        L = T.sel(v, self.field)
        # the count is an int, the array a size_t
        st.add(*lfacts(L))
        st.add(z3.ULT(llen(L), BV((1 << 31) - 1, 64)))
        buf = None
        if 'buf' in T.byname:
            # the buffer of a file is hidden from the value: it must not be looked at
            tt.open(ex, st, p.base, None)
            off = T.byname['buf'].off
            buf = st.objs[p.base].cells[off][1]
        start(ex, f, st, [p, q])
        for kind, s, r in ex.run(st):
            def post(s):
                tt.why = None
                if buf is not None:
                    o = ex.need_obj(s, p, None, 'container')
                    b = o.cells.get(off)
                    if b is None or not isinstance(b[1], Ptr) or b[1].base is not buf.base or buf.base not in s.chunks:
                        ex.fail(s, 'frame', 'the buffer of the file stays as it is')
                    ex.ok(s, 'frame', 'the buffer of the file stays as it is')
                val = tt.take(ex, s, p, T, None)
                if val is None:
                    ex.fail(s, 'own', 'the container is not complete afterwards: %s' % tt.why)
                ex.ok(s, 'own', 'the container is complete, counts its elements, and owns the new one')
                s.add(z3.Implies(L == VNULL, snoc(L, x) == CONS(x, VNULL)))     # the empty list is neutral
                ex.prove(s, T.sel(val, self.field) == snoc(L, x), 'val',
                         'all previous elements in order, then the new one')
                for g, srt in T.sorts():
                    if g.name != self.field:
                        ex.prove(s, T.sel(val, g.name) == T.sel(v, g.name), 'val', 'nothing else changes (%s)' % g.name)
                leak_check(ex, s)
            forking(ex, s, post)


class LinkC(Contract):
    """void sml_list_add(sml_list *list, sml_list *new_entry): new_entry becomes the rest of the list"""
    name = 'sml_list_add'

    def callable_by(self, ex, f):
        return False

    def verify(self, ex, f):
        tt = ex.T
        T = tt.T['List']
        st = State(ex)
        e, x = z3.Const('e0', VS), z3.Const('x0', VS)
        v = cons(e, VNULL)
        st.add(e != VNULL, v != VNULL)
        p = tt.produce(st, T, v, 'list')
        q = tt.produce(st, T, x, 'entry')
        start(ex, f, st, [p, q])
        for kind, s, r in ex.run(st):
            def post(s):
                tt.why = None
                val = tt.take(ex, s, p, T, None)
                if val is None:
                    ex.fail(s, 'own', 'the list is not complete afterwards: %s' % tt.why)
                ex.prove(s, val == cons(e, x), 'val', 'the entry, unchanged, then the new entries')
                leak_check(ex, s)
            forking(ex, s, post)


class InitC(Contract):
    """a fresh, empty container"""

    def __init__(self, name, tn, elem=None):
        self.name, self.tn, self.elem = name, tn, elem

    def callable_by(self, ex, f):
        return False

    def verify(self, ex, f):
        tt = ex.T
        T = tt.T[self.tn]
        st = State(ex)
        start(ex, f, st, [tt.elem_free_ptr(tt.T[self.elem])] if self.elem else [])
        for kind, s, r in ex.run(st):
            def post(s):
                if not isinstance(r, Ptr) or r.base is None:
                    ex.fail(s, 'val', 'a container is returned')
                if self.tn == 'File':
                    o = ex.need_obj(s, r, None, 'file')
                    b = o.cells.get(T.byname['buf'].off)
                    if b is None or not isinstance(b[1], Ptr) or b[1].base not in s.objs:
                        ex.fail(s, 'val', 'the file has a buffer')
                    c = s.objs[b[1].base].cells
                    get = lambda n: c[tt.bo[n]][1]
                    ex.prove(s, get('cursor') == BV(0, 64), 'val', 'the buffer is empty')
                    ex.prove(s, get('error') == 0, 'val', 'the buffer has no error')
                tt.why = None
                val = tt.take(ex, s, r, T, None)
                if val is None:
                    ex.fail(s, 'own', 'the result is not a complete object: %s' % tt.why)
                ex.ok(s, 'own', 'the result is a complete, separately owned object')
                ev = val
                if getattr(T, 'linked', None):
                    if not is_fn(val, CONS):
                        raise Unsupported('list value')
                    ex.prove(s, val.arg(1) == VNULL, 'val', 'nothing follows')
                    ev = val.arg(0)
                for g, srt in T.sorts():
                    if g.kind == 'int' or g.name == 'buf':
                        continue
                    ex.prove(s, T.sel(ev, g.name) == VNULL, 'val', '%s is empty' % g.name)
                leak_check(ex, s)
            forking(ex, s, post)


class BufInitC(Contract):
    """sml_buffer *sml_buffer_init(size_t length)"""
    name = 'sml_buffer_init'

    def callable_by(self, ex, f):
        return False

    def verify(self, ex, f):
        tt = ex.T
        st = State(ex)
        n = z3.BitVec('length', 64)
        k = z3.BitVec('K', 64)
        st.add(z3.ULE(n, BV(MAXLEN, 64)))
        start(ex, f, st, [n])
        for kind, s, r in ex.run(st):
            def post(s):
                if not isinstance(r, Ptr) or r.base is None:
                    ex.fail(s, 'val', 'a buffer is returned')
                c = ex.need_obj(s, r, None, 'buffer').cells
                get = lambda x: c[tt.bo[x]][1]
                ex.prove(s, get('buffer_len') == n, 'val', 'the buffer has the length asked for')
                ex.prove(s, get('cursor') == BV(0, 64), 'val', 'the cursor is at the start')
                ex.prove(s, get('error') == 0, 'val', 'there is no error')
                b = get('buffer')
                if b.base is not None and s.objs[b.base].content is not None:
                    ex.prove(s, z3.Implies(z3.ULT(k, n), s.objs[b.base].content.get(s, k) == 0), 'val', 'the bytes are zero')
                tt.why = None
                if tt.take(ex, s, r, tt.T['Buffer'], None) is None:
                    ex.fail(s, 'own', 'the result is not a complete buffer: %s' % tt.why)
                leak_check(ex, s)
            forking(ex, s, post)


def contracts():
    return [AddC('sml_file_add_message', 'File', 'messages', 'Message'), AddC('sml_sequence_add', 'Seq:Elem', 'elems', 'Elem'),
            AddC('sml_tree_add_tree', 'Tree', 'child_list', 'Tree'),
            AddC('sml_tree_path_add_path_entry', 'TreePath', 'path_entries', 'Oct'), LinkC(),
            InitC('sml_file_init', 'File'), InitC('sml_sequence_init', 'Seq:Elem', 'Elem'), InitC('sml_tree_init', 'Tree'),
            InitC('sml_tree_path_init', 'TreePath'), InitC('sml_list_init', 'List'), BufInitC()]
