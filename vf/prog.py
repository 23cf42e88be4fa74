"""Recompiles /repo's sources to LLVM IR and links the modules."""
import os
import re
import subprocess
import tempfile
import shutil
import glob
from concurrent.futures import ThreadPoolExecutor
from ir import parse_module, Unsupported
import core

REPO = os.environ.get('VF_REPO', '/repo')
CC = ['clang', '-std=c99', '-D_GNU_SOURCE', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
      '-gline-tables-only', '-fsanitize=shift,vla-bound', '-fsanitize-trap=all', '-fno-builtin', '-w', '-S',
      '-emit-llvm']
# the library's own flags (sml/Makefile): no extra defines


class BuildError(Exception):
    pass


def compile_one(src, out, inc, extra=()):
    r = subprocess.run(CC + list(extra) + ['-I' + i for i in inc] + [src, '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s: %s' % (src, r.stderr[:2000]))
    with open(out) as f:
        return parse_module(os.path.basename(src), f.read())


OFFS_STRUCTS = '''octet_string sml_status sml_value sml_time sml_sequence sml_list sml_tree sml_tree_path
sml_proc_par_value sml_tupel_entry sml_period_entry sml_message_body sml_message sml_file sml_buffer
sml_open_request sml_open_response sml_close_request sml_close_response sml_get_profile_pack_request
sml_get_profile_pack_response sml_get_profile_list_response sml_get_proc_parameter_request
sml_get_proc_parameter_response sml_set_proc_parameter_request sml_get_list_request sml_get_list_response
sml_attention_response sml_prof_obj_header_entry sml_prof_obj_period_entry sml_value_entry
sml_obj_req_entry_list'''.split()


class Program:
    def __init__(self, repo=REPO, server=True):
        self.repo = repo
        self.mods = []
        self.by_name = {}       # external functions
        self.globs = {}
        self.fbases = {}
        d = tempfile.mkdtemp(prefix='vfir')
        try:
            srcs = sorted(glob.glob(os.path.join(repo, 'sml/src/*.c')))
            if not srcs:
                raise BuildError('no sources')
            jobs = [(s, os.path.join(d, os.path.basename(s) + '.ll'), [os.path.join(repo, 'sml/include')]) for s in srcs]
            if server:
                s = os.path.join(repo, 'examples/sml_server.c')
                jobs.append((s, os.path.join(d, 'server.ll'), [os.path.join(repo, 'sml/include')]))
            with ThreadPoolExecutor(8) as ex:
                mods = list(ex.map(lambda j: (j[0], compile_one(*j)), jobs))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        for src, m in mods:
            self.add(src, m)

    def add(self, src, m):
        m.src = src
        self.mods.append(m)
        for n, f in m.funcs.items():
            f.file = src
            if not f.internal:
                self.by_name[n] = f
        for n, g in m.globals.items():
            if not g['internal'] and not g['external']:
                self.globs[n] = (n, g, m)

    def func(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None:
            return f
        return self.by_name.get(name)

    def glob(self, mod, name):
        g = mod.globals.get(name)
        if g is None:
            if name in self.globs:
                return self.globs[name]
            return (name, None, mod)
        if g['external'] and name in self.globs:
            return self.globs[name]
        return ((mod.name, name), g, mod)

    def funcbase(self, f):
        k = f if isinstance(f, str) else (f.module.name, f.name)
        if k not in self.fbases:
            b = core.Base('fn:' + (f if isinstance(f, str) else f.name), 'func', f)
            self.fbases[k] = b
        return self.fbases[k]

    def fkey(self, f):
        return f.name

    def allfuncs(self):
        for m in self.mods:
            for f in m.funcs.values():
                yield f

    def find(self, name):
        """all functions of that name (static ones may occur in several modules)"""
        return [m.funcs[name] for m in self.mods if name in m.funcs]


def offsets(repo, fields):
    """fields: {struct: [field, ...]} -> {struct: (size, {field: (off, size)})} measured by the compiler"""
    src = ['#include <stddef.h>', '#include <time.h>']
    for h in sorted(glob.glob(os.path.join(repo, 'sml/include/sml/*.h'))):
        src.append('#include <sml/%s>' % os.path.basename(h))
    for s, fs in fields.items():
        src.append('unsigned long vfS_%s = sizeof(%s);' % (s, s))
        for f in fs:
            src.append('unsigned long vfO_%s__%s = offsetof(%s, %s);' % (s, f.replace('.', '_'), s, f))
            src.append('unsigned long vfZ_%s__%s = sizeof(((%s*)0)->%s);' % (s, f.replace('.', '_'), s, f))
    d = tempfile.mkdtemp(prefix='vfoff')
    try:
        p = os.path.join(d, 'off.c')
        with open(p, 'w') as fh:
            fh.write('\n'.join(src) + '\n')
        m = compile_one(p, os.path.join(d, 'off.ll'), [os.path.join(repo, 'sml/include')])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = {}

    def val(n):
        v = m.globals['@' + n]['init']
        return 0 if v[0] == 'zero' else v[2]
    for s, fs in fields.items():
        out[s] = (val('vfS_' + s), {f: (val('vfO_%s__%s' % (s, f.replace('.', '_'))),
                                        val('vfZ_%s__%s' % (s, f.replace('.', '_')))) for f in fs})
    return out
