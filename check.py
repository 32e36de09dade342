#!/usr/bin/env python3-vt
"""check.py Cxx [--tier quick|thorough] : verify the contract harnesses of one property against /repo's current tree.
check.py --replay FILE : re-run a reported failing input on the real code.

Deciding step: the VC generator in vc/ executes every harness of specs/Cxx.cpp symbolically together with the real
code it calls (clang's AST of /repo's sources, dumped on this run) and every generated obligation has to be
discharged.  A harness with a failed obligation is then run natively, compiled against the same sources, to find a
failing input."""
import argparse, glob, json, multiprocessing as mp, os, re, shutil, signal, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vc import wp, astload, native
from vc import harness as H

TRUST = [
    'clang 18 parses the code the compiler compiles (typed AST, explicit double instantiation of every class template); '
    'the float instantiation shares that template text',
    'vc/: symbolic executor, loop rules, normaliser (trusted, home-made); Z3 4.x for integer/boolean and leftover real goals',
    'Eigen, std and boost operations obey the axiomatised contracts in vc/builtins.py (element-wise meaning, size rules)',
    'Scalar arithmetic is real arithmetic (no rounding, overflow or NaN); int arithmetic is unbounded',
    'a loop whose trip count has no closed form is assumed to terminate (partial correctness)',
    'the matrix inverse computed by Eigen::FullPivLU is an uninterpreted function of its argument',
    'C++ exceptions and allocation failure are not modelled; assertions are part of the contracts (no NDEBUG)',
]


def worker(conn, prog, name, setup, budget):
    try:
        os.setpgid(0, 0)
        r = wp.run(prog, name, budget) if name in wp.HULL else H.run_harness(prog, name, setup, budget)
    except BaseException as ex:      # noqa
        r = {'name': name, 'error': 'engine: %r' % ex, 'obls': [], 'posts': 0, 'secs': 0, 'fns': [], 'contracts': [],
             'partial': 0, 'havoc': 0, 'stat': {}}
    conn.send(r)
    conn.close()


def prove_all(prog, names, setup, budget, deadline, jobs=8):
    ctx = mp.get_context('fork')
    todo, live, out = list(names), {}, {}
    while todo or live:
        while todo and len(live) < jobs:
            n = todo.pop(0)
            a, b = ctx.Pipe(False)
            left = max(5, min(budget, deadline - time.time()))
            p = ctx.Process(target=worker, args=(b, prog, n, setup, left))
            p.start()
            b.close()
            live[n] = (p, a, time.time() + left + 30)
        for n, (p, a, dl) in list(live.items()):
            r = None
            try:
                if a.poll(0.02):
                    r = a.recv()
                elif not p.is_alive():
                    r = {'error': 'engine: worker died'}
                elif time.time() > dl:
                    p.kill()
                    r = {'error': 'Undecided: time budget exhausted'}
            except EOFError:
                r = {'error': 'engine: worker died'}
            if r is not None:
                for k, v in (('name', n), ('obls', []), ('posts', 0), ('secs', 0), ('fns', []), ('contracts', []),
                             ('partial', 0), ('havoc', 0), ('stat', {})): r.setdefault(k, v)
                out[n] = r
                p.join(5)
                del live[n]
        time.sleep(0.01)
    return out


def status(r):
    """proved | failed | open (out of reach or out of time)"""
    bad = [o for o in r['obls'] if not o[2]]
    timed = lambda s: 'time budget' in (s or '')
    hard = [o for o in bad if not timed(o[3]) and o[1] != 'state']     # 'state': the inductive step on private fields
    if hard: return 'failed'
    if r['error']: return 'open'
    if bad: return 'open'
    if not r['posts']: return 'open'
    return 'proved'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay: return replay(a.replay)
    t0 = time.time()
    prop, tier = a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    total = 3000 if thorough else 760          # seconds
    budget = 2400 if thorough else 420
    spec = prop + '.cpp'
    known = [k for k in json.load(open(HERE + '/known_findings.json'))['findings'] if k['property'] == prop]
    tmp = tempfile.mkdtemp(prefix='vcnat')
    try:
        return go(prop, tier, seed, thorough, total, budget, spec, known, tmp, t0, a.v)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def go(prop, tier, seed, thorough, total, budget, spec, known, tmp, t0, verbose):
    try:
        prog = astload.load([spec])
    except astload.ExtractError as ex:
        print('cannot parse the working tree: %s' % ex)
        return 2
    tload = time.time() - t0
    declared, bounded = (list(H.harnesses(prog, p)) for p in ('vch_', 'vcb_'))
    histories = list(H.harnesses(prog, 'vcr_'))    # native only, run when a proof is missing
    # native build in the background, when it is certain to be needed
    nb = None
    ctx = mp.get_context('fork')

    def bg(conn):
        conn.send(native.build(spec, prog, tmp))
    if bounded or thorough:
        pa, pb = ctx.Pipe(False)
        proc = ctx.Process(target=bg, args=(pb,))
        proc.start()
        nb = (proc, pa)
    from vc import contracts
    setup = contracts.setup(prop)
    res = prove_all(prog, declared, setup, budget, t0 + total - 150)
    st = {h: status(r) for h, r in res.items()}
    if verbose:
        for h, r in res.items():
            bad = [o for o in r['obls'] if not o[2]]
            print('  %-44s %-7s obls=%d bad=%d %.1fs %s' % (h, st[h], len(r['obls']), len(bad), r['secs'], r['error'] or ''))
            for o in bad[:4]: print('        ', o[0], '|', o[3][:300])
    need = [h for h in declared if st[h] != 'proved'] + bounded
    if need: need += histories
    exe, err = None, ''
    if nb:
        exe, err = nb[1].recv()
        nb[0].join()
    elif need:
        exe, err = native.build(spec, prog, tmp)
    viol, findings, nat = [], [], {}
    trials = 200000 if thorough else 20000
    todo = need + ([h for h in declared if h not in need] if thorough else [])
    if exe and todo:
        left = max(20, t0 + total - time.time() - 20)
        per = max(10, min(300 if thorough else 100, left*8/max(8, len(todo))))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for h, r in zip(todo, ex.map(lambda h: native.run(exe, h, seed, trials, per if h in need else 20), todo)): nat[h] = r
    for h in need:
        r = res.get(h)
        n = nat.get(h, ('NONE', err))
        bad = [o for o in r['obls'] if not o[2]] if r else []
        fail = None
        if n[0] == 'FAIL': fail = 'input'
        elif r and st[h] == 'failed': fail = 'noinput'
        if not fail: continue
        what = bad[0][0] if bad else (r['error'] if r else 'bounded run')
        line = n[1].split('\n')[1].strip() if n[0] == 'FAIL' else what
        k = [k for k in known if k['harness'] == h and re.search(k['match'], line)]
        if k:
            findings.append((k[0], h))
            continue
        path = '%s/evidence/replay-%s-%s.json' % (HERE, prop, h)
        json.dump({'property': prop, 'harness': h, 'spec': 'specs/' + spec,
                   'failed_obligations': [{'name': o[0], 'kind': o[1], 'verifier': o[3]} for o in bad[:20]],
                   'engine': (r or {}).get('error'), 'native': n[1] if n[0] == 'FAIL' else 'no failing input in %s native trials (%s)' % (n[1], n[0]),
                   'seed': seed, 'rerun': 'cd /verif && ./check.py --replay %s' % path}, open(path, 'w'), indent=1)
        viol.append((h, what, line, path, fail))
    obl = sum(len(r['obls']) for r in res.values())
    ok = sum(1 for r in res.values() for o in r['obls'] if o[2])
    fns = sorted({f for r in res.values() for f in r['fns']})
    z3q = sum(r['stat'].get('z3', 0) for r in res.values())
    z3t = sum(r['stat'].get('z3_time', 0) for r in res.values())
    proved = [h for h in declared if st[h] == 'proved']
    level = 'proof' if declared and len(proved) == len(declared) and not bounded else 'proof' if proved else 'exploration'
    bnd = {h: '%s native trials, random inputs with the sizes in specs/%s' % (nat.get(h, ('', 0))[1], spec)
           for h in need if nat.get(h, ('',))[0] == 'PASS'}
    cov = {'obligations': obl, 'discharged': ok,
           'checker_cmd': 'cd /verif && ./check.py %s --tier %s' % (prop, tier), 'trusted_base': TRUST,
           'harnesses_proved': proved, 'harnesses_not_proved': {h: res[h]['error'] or st[h] for h in declared if st[h] != 'proved'},
           'bounded_stand_ins': bnd, 'functions_under_contract': fns, 'postconditions': sum(r['posts'] for r in res.values()),
           'callee_contracts_used': sorted({c for r in res.values() for c in r['contracts']}),
           'back_ends': {'z3_queries': z3q, 'z3_seconds': round(z3t, 1), 'normaliser_steps': sum(r['stat'].get('norm', 0) for r in res.values()),
                         'case_splits': sum(r['stat'].get('splits', 0) for r in res.values()),
                         'z3_unknown': sum(r['stat'].get('solver_unknown', 0) for r in res.values())},
           'loops_assumed_to_terminate': sum(r['partial'] for r in res.values()),
           'seconds_per_harness': {h: round(r['secs'], 1) for h, r in res.items()}, 'ast_seconds': round(tload, 1),
           'tree_hash': astload.tree_hash()}
    if thorough: cov['native_cross_check'] = {h: list(v) if v[0] != 'FAIL' else ['FAIL', v[1][:800]] for h, v in nat.items()}
    if level == 'exploration':
        cov.update({'evaluations': sum(v[1] for v in nat.values() if v[0] == 'PASS'),
                    'distinct_nontrivial': sum(v[1] for v in nat.values() if v[0] == 'PASS'),
                    'rule': 'random inputs drawn by the harnesses of specs/%s; those rejected by a precondition are not counted' % spec,
                    'samples': [{'harness': h, 'seed': seed, 'trials': v[1]} for h, v in nat.items()]})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': TRUST,
          'wall_s': round(time.time() - t0, 1),
          'violations': [{'harness': h, 'obligation': w, 'detail': l, 'replay': p} for h, w, l, p, f in viol]}
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)
    for k, h in findings: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s: %d/%d harnesses proved, %d/%d obligations discharged, %d bounded, %.0f s' % (
        prop, len(proved), len(declared), ok, obl, len(bnd), time.time() - t0))
    for h in declared:
        if st[h] == 'open': print('  not proved (bounded stand-in): %s: %s' % (h, res[h]['error'] or ([o[0] for o in res[h]['obls'] if not o[2]] or ['?'])[0]))
    for h, w, l, p, f in viol:
        print('  %s: failed obligation: %s' % (h, w))
        print('  %s' % l)
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if f == 'input' else ' no-failing-input-found'))
    if need and not exe and not viol:
        print('native build failed: ' + err[-600:])
        return 2
    return 1 if viol else 0


def replay(path):
    d = json.load(open(path))
    spec = os.path.basename(d['spec'])
    print(json.dumps({k: d[k] for k in ('property', 'harness', 'failed_obligations')}, indent=1))
    m = re.search(r'seed=(\d+) trial=(\d+)', d['native'])
    if not m:
        print('no failing input was found for this obligation')
        return 1
    tmp = tempfile.mkdtemp(prefix='vcnat')
    try:
        prog = astload.load([spec])
        exe, err = native.build(spec, prog, tmp)
        if not exe:
            print(err)
            return 2
        import subprocess
        return subprocess.run([exe, d['harness'], m.group(1), '1', '60', m.group(2)]).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
