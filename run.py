#!/usr/bin/env python3
"""Decide one property:  run.py --property Cxx [--tier quick|thorough] [--record]

Every contract of the property is decided against /repo's current source by worker processes
(vf/worker.py); this driver collects the outcomes, writes evidence/<id>.json and reports."""
import argparse
import json
import os
import re
import selectors
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
TRUST = [
    'floating point treated as real arithmetic; float literals in the code read back as the nearest small rational, root or multiple of pi',
    'definedness: divisions and logarithms are reasoned about where their arguments are admissible',
    'JAX 0.4.18 tracing (jax.make_jaxpr of the real functions) and the meaning of each lax primitive as given in vf/jaxsym.py',
    'vf/terms.py normal forms; z3 4.x and cvc5 1.1.2 answers',
    'CPython executes the Python-level control flow of the traced function the same way when called normally',
]


def env():
    e = dict(os.environ)
    e.update(JAX_PLATFORMS='cpu', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', TF_CPP_MIN_LOG_LEVEL='3')
    return e


class Worker:
    def __init__(self, prop, tier, seed, log):
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'vf', 'worker.py'), prop, tier, str(seed)], cwd='/repo', env=env(),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=log, text=True, bufsize=1)
        self.busy = None
        self.t0 = time.time()
        self.ready = False

    def give(self, i, mode='full'):
        self.busy, self.t0, self.mode = i, time.time(), mode
        self.p.stdin.write('%d %s\n' % (i, mode))
        self.p.stdin.flush()

    def stop(self):
        try:
            self.p.kill()
            self.p.wait(10)
        except Exception:
            pass


def blank(name, note):
    return {'contract': name, 'level': 'undecided', 'obligations': 0, 'discharged': 0, 'by_backend': {}, 'solver_s': 0, 'undischarged': [],
            'notes': [note], 'executions': 0, 'sizes_deduced': 0, 'axioms': [], 'targets': [], 'violation': None, 'wall_s': 0,
            'refuted_no_input': None}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--record', action='store_true', help='write the levels reached into contracts/expected.json')
    ap.add_argument('--only', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    limit = 760 if tier == 'quick' else 6 * 3600
    per = {'full': 200, 'execute': 200} if tier == 'quick' else {'full': 3000, 'execute': 1500}
    exp_file = os.path.join(HERE, 'contracts', 'expected.json')
    expected = json.load(open(exp_file)) if os.path.exists(exp_file) else {}
    exp = expected.get(prop, {})
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    log = open(os.devnull, 'w')
    nw = min(8, os.cpu_count() or 8)
    ws = [Worker(prop, tier, seed, log) for _ in range(nw)]
    sel = selectors.DefaultSelector()
    for w in ws:
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
    names, missing, fatal = None, [], None
    todo, res, hung, again = [], {}, [], []      # again: no answer from the deduction, the contract is executed only

    def replace(w):
        sel.unregister(w.p.stdout)
        w.stop()
        ws.remove(w)
        n = Worker(prop, tier, seed, log)
        ws.append(n)
        sel.register(n.p.stdout, selectors.EVENT_READ, n)

    def lost(w, note):
        res[w.busy] = blank(names[w.busy], note)
        if w.mode == 'full':
            again.append(w.busy)
        elif note.startswith('no answer'):
            hung.append(w.busy)

    def feed(w):
        if w.ready and w.busy is None:
            if again:
                w.give(again.pop(), 'execute')
            elif todo:
                w.give(todo.pop())

    while True:
        if names is not None and not todo and not again and all(w.busy is None for w in ws):
            break
        if time.time() - t0 > limit or fatal:
            break
        for key, _ in sel.select(timeout=1.0):
            w = key.data
            line = w.p.stdout.readline()
            if not line:
                if w.busy is not None:
                    lost(w, 'worker ended while deciding this contract')
                    replace(w)
                else:
                    sel.unregister(w.p.stdout)
                    ws.remove(w)
                    if not ws:
                        fatal = fatal or 'workers did not start'
                continue
            j = json.loads(line)
            if 'fatal' in j:
                fatal = j['fatal']
                break
            if 'ready' in j:
                w.ready = True
                if names is None:
                    names, missing = j['ready'], j['missing']
                    todo = [i for i, n in enumerate(names) if not a.only or any(re.search(p, n) for p in a.only.split(','))]
                    # longest first, by recorded cost
                    todo.sort(key=lambda i: exp.get(names[i], {}).get('wall', 5.0))
            else:
                res[w.busy] = j
                w.busy = None
            feed(w)
        for w in list(ws):
            if w.busy is not None and time.time() - w.t0 > per[w.mode]:
                lost(w, 'no answer within %d s' % per[w.mode])
                replace(w)
        for w in ws:
            feed(w)
    for w in ws:
        if w.busy is not None:
            res[w.busy] = blank(names[w.busy], 'time limit of the check')
        w.stop()
    if fatal:
        print('ERROR: %s' % fatal)
        return 2
    for i in todo:
        res[i] = blank(names[i], 'time limit of the check: not decided')
    rs = [res[i] for i in sorted(res)]

    viol, finds = [], []
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    for j in rs:
        v = j['violation']
        e = exp.get(j['contract'], {})
        kf = [k for k in known if k.get('status') == 'open' and k['property'] == prop and j['contract'] in k['contracts']]
        if v is not None:
            labels = {f['postcondition'] for f in v['failed']}
            hit = [k for k in kf if labels <= set(k['postconditions'])]
            if hit:
                finds.append((hit[0], j))
            else:
                viol.append((j, v, True))
            continue
        if (e.get('level') or '').startswith('proved') and not kf:
            r = j.get('refuted_no_input')
            if r:
                viol.append((j, r, False))
            elif j.get('lost'):
                viol.append((j, j['lost'], False))
    for i in hung:
        e = exp.get(names[i], {})
        if e.get('wall', 1e9) < 25:
            viol.append((res[i], {'contract': names[i], 'obligation': 'the contract is decided', 'verifier_output':
                                  'no answer from the executed contract within %d s (recorded cost %.1f s)' % (per['execute'], e['wall'])}, False))
    if a.record:
        expected[prop] = {j['contract']: {'level': j['level'], 'wall': j['wall_s']} for j in rs}
        json.dump(expected, open(exp_file, 'w'), indent=0, sort_keys=True)
    by = {}
    for j in rs:
        for k, n in j['by_backend'].items():
            by[k] = by.get(k, 0) + n
    lv = {}
    for j in rs:
        lv.setdefault(j['level'] or 'violated', []).append(j['contract'])
    ob, di = sum(j['obligations'] for j in rs), sum(j['discharged'] for j in rs)
    drop = [j['contract'] for j in rs if exp.get(j['contract'], {}).get('level', '') == 'proved-all-sizes' and j['level'] != 'proved-all-sizes']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': round(time.time() - t0, 1), 'violations': len(viol),
          'coverage': {
              'obligations': ob, 'discharged': di,
              'checker_cmd': 'python3 /verif/run.py --property %s --tier %s' % (prop, tier),
              'trusted_base': TRUST,
              'contracts': len(rs), 'functions_under_contract': sorted({t for j in rs for t in j['targets']}),
              'discharged_by_backend': by, 'solver_s': round(sum(j['solver_s'] for j in rs), 1),
              'levels': {k: len(v) for k, v in lv.items()},
              'proved_for_all_sizes': lv.get('proved-all-sizes', []), 'proved_at_listed_sizes': lv.get('proved-listed-sizes', []),
              'bounded_execution_only': lv.get('bounded', []), 'undecided': lv.get('undecided', []),
              'executions': sum(j['executions'] for j in rs), 'sizes_deduced': sum(j['sizes_deduced'] for j in rs),
              'not_discharged': [u for j in rs for u in j['undischarged']][:20],
              'notes': [('%s: %s' % (j['contract'], n))[:300] for j in rs if j['level'] not in ('proved-all-sizes',) for n in j['notes'][:1]][:60],
              'downgraded_from_recorded_level': drop,
              'samples': [{k: j[k] for k in ('contract', 'level', 'obligations', 'discharged', 'by_backend', 'executions')} for j in rs[:6]],
          },
          'assumptions': TRUST + sorted({x for j in rs for x in j['axioms']})
          + ['bounded (executed at sampled inputs, not proved): ' + n for n in lv.get('bounded', [])]
          + ['contract module not loaded: ' + m[:200] for m in missing]}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in known:
        if k.get('status') == 'open' and k['property'] == prop:
            hits = [j['contract'] for f, j in finds if f is k]
            if hits:
                print('KNOWN-FINDING: property=%s %s [%s]' % (prop, k['what'], ', '.join(hits)[:200]))
    seen = set()
    for j, v, inp in viol:
        nm = re.sub(r'[^A-Za-z0-9_.-]+', '_', j['contract'])[:80]
        path = os.path.join(HERE, 'replay', '%s-%s.json' % (prop, nm))
        v = dict(v)
        v['property'] = prop
        v['replay'] = 'cd /verif && python3 run.py --property %s --only "^%s$"' % (prop, re.escape(j['contract']))
        v['undischarged'] = j.get('undischarged')
        v['notes'] = j.get('notes')
        json.dump(v, open(path, 'w'), indent=1, default=str)
        if len(seen) < 12:
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if inp else ' no-failing-input-found'))
            f = v.get('failed')
            print('  %s: %s' % (j['contract'], ('%s -- %s' % (f[0]['postcondition'], f[0]['observed'])) if f else
                                '%s -- %s' % (v.get('obligation'), str(v.get('verifier_output'))[:300])))
        seen.add(path)
    print('%s: %d contracts, %d obligations, %d discharged, levels %s, %d executions, %.0f s' % (
        prop, len(rs), ob, di, {k: len(v) for k, v in lv.items()}, ev['coverage']['executions'], time.time() - t0))
    if a.v:
        for j in rs:
            if j['level'] not in ('proved-all-sizes', 'proved-listed-sizes') or j['wall_s'] > 20:
                print('   ', j['contract'], j['level'], j['wall_s'], [n[:200] for n in j['notes'][:2]])
    if viol:
        return 1
    if ob == 0 and not any(j['executions'] for j in rs):
        print('ERROR: no obligation was generated')
        return 2
    return 0


sys.exit(main())
