"""Verification of one function against its contract."""
import os
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import core
from core import Exec, Dead, Fork
from ir import Unsupported, Func
import types_
import spec as spec_
import contracts as contracts_
from prog import Program, BuildError, REPO


class Engine:
    def __init__(self, repo=REPO):
        self.prog = Program(repo)
        self.tt = types_.TypeTable(self.prog, repo)
        self.reg = contracts_.registry()
        self.spec = spec_.Spec(self.tt)
        self.enc = spec_.EncSpec(self.spec)
        self.tt.efree = {}
        self.tt.free_contract = lambda E: contracts_.FreeC('elem_free', E.name)
        self.tt.callbacks = self.callbacks
        self.scc = self.find_scc()

    def callbacks(self, ex, base, kind):
        f = base.fn
        if isinstance(f, Func):
            c = self.contract_of(f)
            if isinstance(c, contracts_.FreeC) and c.tn in self.tt.T:
                return self.tt.T[c.tn]
        return None

    def contract_of(self, f, seen=0):
        """contract of a function, or of the function it merely forwards to"""
        c = self.reg.get(self.prog.fkey(f))
        if c is not None:
            return c
        if seen < 3:
            calls = [i for b in f.order for i in f.blocks[b] if i.op == 'call' and i.a[0][0] == 'glob' and
                     not i.a[0][1].startswith('@llvm.')]
            if len(calls) == 1 and len(f.order) == 1:
                g = self.prog.func(f.module, calls[0].a[0][1][1:])
                if g is not None:
                    return self.contract_of(g, seen + 1)
        return None

    def find_scc(self):
        """names of functions that take part in recursion"""
        g = {}
        for f in self.prog.allfuncs():
            s = set()
            for b in f.order:
                for i in f.blocks[b]:
                    if i.op == 'call' and i.a[0][0] == 'glob':
                        h = self.prog.func(f.module, i.a[0][1][1:])
                        if h is not None:
                            s.add(id(h))
            g[id(f)] = (f, s)
        out = {}
        for k in g:
            seen = set()
            w = list(g[k][1])
            while w:
                x = w.pop()
                if x in seen or x not in g:
                    continue
                seen.add(x)
                w += g[x][1]
            out[k] = seen
        self.reach = {g[k][0].name: {g[x][0].name for x in v if x in g} for k, v in out.items()}
        return {n for n, r in self.reach.items() if n in r}

    def exec_for(self, name, opts=None):
        ex = Exec(self.prog, self.reg, self.tt, opts)
        ex.fname = name
        ex.spec = self.spec
        ex.enc = self.enc
        self.enc.counts = []
        ex.reg = self.reg
        ex.eng = self
        ex.cur_ps = None
        ex.hint_parse = ex.hint_write = None
        ex.nn_elems = False
        scc = self.scc

        def inscc(n):
            # is a call of n from the function under verification part of a recursion?
            return name in scc and n in scc and (n == name or name in self.reach.get(n, ()))
        ex.inscc = inscc
        ex.T.rank = name in scc

        def elem_of(p, kind):
            if not isinstance(p, core.Ptr) or p.base is None or p.base.kind != 'func':
                return None
            if p.base.info is not None and p.base.info[0] == kind:
                return p.base.info[1]
            if isinstance(p.base.fn, Func):
                c = self.contract_of(p.base.fn)
                if kind == 'parse' and isinstance(c, contracts_.ParseC) or \
                        kind == 'write' and isinstance(c, contracts_.WriteC):
                    return c.k
            return None
        ex.elem_of = elem_of
        ex.wellformed = lambda st, k, v: self.wellformed(ex, st, k, v)
        return ex

    def wellformed(self, ex, st, k, v):
        """preconditions of the writers (see DESIGN.md)"""
        T = self.tt.T
        if k in ('Status', 'Value'):
            t = T[k].sel(v, 'type')
            if k == 'Status':
                st.add(z3.Implies(v != core.VNULL, z3.Or(t & 0x70 == 0x50, t & 0x70 == 0x60)))
            else:
                st.add(z3.Implies(v != core.VNULL, z3.Or(t == 0, t == 0x40, t & 0xf0 == 0x50, t & 0xf0 == 0x60)))
        if k == 'Body':
            tag, d = T[k].sel(v, 'tag'), T[k].sel(v, 'data')
            known = z3.Or(*[types_.nbits(4)(tag) == n for n, _ in self.tt.MSG])
            st.add(z3.Implies(known, d != core.VNULL))
        if k == 'Message':
            st.add(T[k].sel(v, 'message_body') != core.VNULL)

    def verify(self, name, contract=None, limit=600, opts=None):
        """-> dict with obligations, or unsupported reason"""
        c = contract or self.reg.get(name)
        fs = self.prog.find(name)
        if c is None and fs:
            return {'name': name, 'obs': [], 'unsupported': 'no contract', 'missing': False}
        res = {'name': name, 'obs': [], 'unsupported': None, 'missing': False}
        if not fs:
            res['missing'] = True
            return res
        t0 = time.time()
        for f in fs:
            end = time.time() + limit
            tries = [(m, 1) for m in c.modes] + [(c.modes[0], 5)]
            for mode, patience in tries:
                if patience > 1 and not (ex.gaveup or any(o.how == 'unknown' for o in ex.obs)) or time.time() > end:
                    break       # no solver timeout was involved
                last = (ex, why) if patience > 1 else None
                ex = self.exec_for(name, dict(opts) if opts else None)
                ex.mode = mode
                ex.patience = patience
                ex.deadline = end
                why = None
                try:
                    c.verify(ex, f)
                except Unsupported as e:
                    why = str(e)
                    if os.environ.get('VF_DEBUG'):
                        traceback.print_exc()
                except Dead:
                    pass
                if last is not None and why is not None and last[1] is None:
                    ex, why = last      # the second look did not come to an end
                if why is None and all(o.ok for o in ex.obs):
                    break
            if why is not None:
                res['unsupported'] = why
            res['obs'] += ex.obs
            res.setdefault('used', set()).update(ex.used)
            res.setdefault('assumed', set()).update(ex.assumed)
            res.setdefault('inlined', set()).update(ex.inlined)
            res['paths'] = res.get('paths', 0) + ex.npaths
            res['queries'] = res.get('queries', 0) + ex.ps.queries
            res['z3time'] = res.get('z3time', 0) + ex.ps.time
            res.setdefault('loops', []).extend(ex.loopinfo)
        res['t'] = time.time() - t0
        return res


if __name__ == '__main__':
    e = Engine()
    for n in sys.argv[1:]:
        r = e.verify(n)
        bad = [o for o in r['obs'] if not o.ok]
        print('%-40s %4d obligations, %d failed, %d paths, %d queries, %.1fs %s' % (
            n, len(r['obs']), len(bad), r.get('paths', 0), r.get('queries', 0), r.get('t', 0),
            ('UNSUPPORTED: ' + r['unsupported']) if r['unsupported'] else 'MISSING' if r['missing'] else ''))
        for o in bad[:12]:
            print('   FAIL [%s] %s at %s (%s)' % (o.tag, o.desc, o.line, o.how))
            if os.environ.get('VF_TRACE'):
                print('      ', ' '.join(o.trace or ()))
        for l in r.get('loops', []):
            print('   loop', l)
