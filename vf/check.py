"""Decides one property: verifies the functions it depends on against their contracts, then reports.

usage: check.py PROPERTY [--tier quick|thorough]
"""
import argparse
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props
import harness
from prog import BuildError

NPROC = 8


def worker(eng, name, limit, thorough, q):
    try:
        r = eng.verify(name, limit=limit, opts={'dump': True} if thorough else None)
        out = {'name': name, 'unsupported': r['unsupported'], 'missing': r['missing'], 't': r.get('t', 0.0),
               'used': sorted(map(str, r.get('used', ()))), 'assumed': sorted(map(str, r.get('assumed', ()))),
               'inlined': sorted(map(str, r.get('inlined', ()))), 'paths': r.get('paths', 0),
               'queries': r.get('queries', 0), 'z3': r.get('z3time', 0.0), 'loops': [str(l)[:200] for l in r.get('loops', ())],
               'obs': []}
        for o in r['obs']:
            m = None
            if not o.ok and o.model is not None:
                try:
                    m = '; '.join('%s = %s' % (d.name(), o.model[d]) for d in o.model.decls()[:40] if d.arity() == 0)[:3000]
                except Exception:
                    m = None
            out['obs'].append((o.tag, o.desc, str(o.line), bool(o.ok), str(o.how), round(o.t, 4), m,
                               [str(x) for x in (o.trace or ())][-40:] if not o.ok else None, o.smt if thorough else None))
    except BaseException as e:
        out = {'name': name, 'unsupported': 'internal: %s' % repr(e)[:300], 'missing': False, 't': 0.0, 'obs': []}
    q.send(out)
    q.close()


def run_functions(eng, names, limit, deadline, thorough, nproc=NPROC):
    names = sorted(names, key=lambda n: -props.SLOW.get(n, 5))
    todo = list(names)
    live = {}
    res = {}
    while todo or live:
        while todo and len(live) < nproc:
            n = todo.pop(0)
            a, b = mp.Pipe(False)
            left = max(5, min(limit, deadline - time.time()))
            p = mp.Process(target=worker, args=(eng, n, left, thorough, b))
            p.start()
            b.close()
            live[n] = (p, a, time.time() + left + 20)
        for n, (p, a, end) in list(live.items()):
            if a.poll(0):
                try:
                    res[n] = a.recv()
                except EOFError:
                    res[n] = {'name': n, 'unsupported': 'the verifier died', 'missing': False, 't': 0.0, 'obs': []}
            elif not p.is_alive():
                res[n] = {'name': n, 'unsupported': 'the verifier died', 'missing': False, 't': 0.0, 'obs': []}
            elif time.time() > end:
                p.kill()
                res[n] = {'name': n, 'unsupported': 'time limit', 'missing': False, 't': limit, 'obs': []}
            else:
                continue
            p.join()
            a.close()
            del live[n]
        time.sleep(0.01)
    return res


def recheck(obs, budget):
    """a second solver (cvc5) on the dumped verification conditions"""
    import tempfile
    import concurrent.futures as cf
    items = [o for o in obs if o[8]]
    seen, uniq = set(), []
    for o in items:
        h = hash(o[8])
        if h not in seen:
            seen.add(h)
            uniq.append(o)
    end = time.time() + budget
    st = {'agree': 0, 'unknown': 0, 'disagree': [], 'not_run': 0}

    def one(o):
        if time.time() > end:
            return 'not_run', o
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(o[8])
        try:
            r = subprocess.run(['cvc5', '--tlimit=10000', f.name], capture_output=True, text=True, timeout=20).stdout
        except subprocess.TimeoutExpired:
            r = ''
        finally:
            os.unlink(f.name)
        l = r.strip().split('\n')[0]
        return ('agree' if l == 'unsat' else 'disagree' if l == 'sat' else 'unknown'), o
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for k, o in ex.map(one, uniq):
            if k == 'disagree':
                st['disagree'].append('%s %s' % (o[1], o[2]))
            else:
                st[k] += 1
    return st


def extras(prop, eng, tier):
    """obligations that are not tied to one function: [(func, tag, desc, line, ok, how, t, model, trace, smt)]"""
    out = []
    try:
        import lemmas
        out += lemmas.run(prop, eng, tier)
    except ImportError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-harness', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    thorough = tier == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    deadline = t0 + (520 if not thorough else 3000)
    import engine
    try:
        eng = engine.Engine()
    except BuildError as e:
        print('the sources do not compile: %s' % str(e)[:2000])
        return 2
    tagsof = {}
    for fs, tags in props.SETS[prop]:
        for f in fs:
            tagsof.setdefault(f, set()).update(tags.split())
    res = run_functions(eng, [f for f in tagsof if f not in props.BOUNDED], 400 if not thorough else 1500, deadline, thorough)

    bad, side, und = [], [], []     # failed obligations of this property; of others; undecided functions
    nob = nok = 0
    hows = {}
    funcs = []
    assumed = set()
    inl = set()
    allobs = []
    for f in sorted(tagsof):
        if f in props.BOUNDED:
            und.append((f, props.BOUNDED[f]))
            continue
        r = res[f]
        if r['missing']:
            und.append((f, 'no such function'))
            continue
        rel = 0
        okc = 0
        secs = 0.0
        for o in r['obs']:
            mine = o[0] in tagsof[f]
            if mine:
                rel += 1
                secs += o[5]
                okc += o[3]
                hows[o[4]] = hows.get(o[4], 0) + 1 if o[3] else hows.get(o[4], 0)
                allobs.append(o)
            if not o[3]:
                (bad if mine else side).append((f,) + tuple(o))
        nob += rel
        nok += okc
        assumed.update(r.get('assumed', ()))
        inl.update(r.get('inlined', ()))
        if r['unsupported']:
            und.append((f, r['unsupported']))
        elif any(not o[3] and o[4] == 'path' and o[0] not in tagsof[f] for o in r['obs']):
            und.append((f, 'a path ends in a failure that belongs to another property'))
        funcs.append({'function': f, 'obligations': rel, 'discharged': okc, 'seconds': round(r['t'], 2),
                      'solver_seconds': round(r.get('z3', 0.0), 2), 'paths': r.get('paths', 0), 'queries': r.get('queries', 0),
                      'contracts_used': r.get('used', []), 'loops': r.get('loops', []),
                      'complete': not r['unsupported']})
    lem = extras(prop, eng, tier)
    for o in lem:
        nob += 1
        nok += bool(o[4])
        hows[o[5]] = hows.get(o[5], 0) + bool(o[4])
        if not o[4]:
            (bad if o[5] != 'undecided' else und).append(o if o[5] != 'undecided' else (o[0], o[2]))
    tproof = time.time() - t0

    # concrete runs: replays for failures, bounded stand-in for undecided functions, cross-check of the specification
    found, hr = None, {'cases': 0, 'error': None, 'other': 0}
    if not a.no_harness:
        if thorough:
            budget = 600
        elif bad or und:
            budget = 60 if bad else 20
        else:
            budget = 12
        hr = harness.search(prop, seed, budget)
        found = hr['found']
    second = recheck(allobs, 1200) if thorough else None

    viol = []
    rdir = os.path.join(VERIF, 'replays')
    if bad or found:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + '.json')
        d = {'property': prop, 'failed_obligations': [
            {'function': b[0], 'kind': b[1], 'obligation': b[2], 'where': b[3], 'by': b[5], 'counterexample': b[7],
             'path': b[8]} for b in bad[:20]]}
        if found:
            d.update(found)
            d['how'] = 'python3-vt vf/harness.py replay %s' % path
        else:
            d['text'] = 'The verifier does not discharge the obligations above; no failing input was found in %d runs.' % hr['cases']
        with open(path, 'w') as f:
            json.dump(d, f, indent=1)
        for b in bad[:10]:
            print('failed obligation: %s: %s: %s at %s (%s)' % (b[0], b[1], b[2], b[3], b[5]))
        if found:
            print('failing input (%s): case %s' % (found['class'], json.dumps(found['case'])[:600]))
            print('  expected %s' % found['expected'][:600])
            print('  got      %s' % found['got'][:600])
        viol.append('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
    for f, why in und:
        print('bounded: %s (%s): compared with the specification on %d inputs, not proved' % (f, why, hr['cases']))
    if hr['error']:
        print('note: %s' % hr['error'])
        if und and not viol:
            print('undecided')
    trusted = ['vf/ (symbolic executor, contracts and specification tables)', 'z3 ' + __import__('z3').get_version_string(),
               'clang 18 front end (C to LLVM IR at -O0)', 'libc models in vf/extern.py: ' + ', '.join(sorted(assumed))]
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': nob, 'discharged': nok,
                       'checker_cmd': 'python3-vt vf/check.py %s --tier %s' % (prop, tier),
                       'trusted_base': trusted, 'functions_under_contract': len(funcs), 'functions': funcs,
                       'discharged_by': {k: v for k, v in hows.items() if v}, 'inlined_functions': sorted(inl),
                       'lemmas': [{'name': o[0], 'statement': o[2], 'ok': bool(o[4]), 'by': o[5]} for o in lem],
                       'bounded_stand_ins': [{'function': f, 'reason': w, 'bound': '%d random inputs' % hr['cases']} for f, w in und],
                       'concrete_runs_cross_checking_the_specification': hr['cases'],
                       'failures_of_other_properties': len(side)},
          'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
    if second is not None:
        ev['coverage']['second_solver_cvc5'] = second
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d functions, %d of %d obligations discharged in %.0f s; %d concrete runs; %d bounded' % (
        prop, len(funcs), nok, nob, tproof, hr['cases'], len(und)))
    with open(os.path.join(VERIF, 'known-findings.txt')) as f:
        for l in f:
            if l.startswith('finding: property=%s ' % prop):
                print('KNOWN-FINDING: ' + l[len('finding: '):].strip())
    for l in viol:
        print(l)
    return 1 if viol else 0


ASSUME = [
    'malloc, calloc and realloc succeed',
    'buffer_len is at most INT_MAX; encoded sizes are below 2^40',
    'memcpy and memcmp accept NULL with length 0',
    'objects handed to writers and to free are finite and acyclic, with the representation the library itself builds',
    'writers are given enough room for the encoding',
    'parsers of message bodies, messages, paths and sequences are called without a pending error',
    'file descriptors are below FD_SETSIZE',
    'an octet string or integer whose last byte is the last byte of the buffer may be rejected (as coded)',
    'stdio calls on stderr and stdout do not touch library memory',
]

if __name__ == '__main__':
    sys.exit(main())
