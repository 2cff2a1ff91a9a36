#!/usr/bin/env python3-vt
"""Decides one property: `check.py PROPERTY [quick|thorough]`.

1. Compiles /repo's working tree together with the contracts and dumps the
   compiler's MIR of everything the contracts of the property reach.
2. Generates the proof obligations from that MIR and discharges them (qmv).
3. Compiles the same contracts to run concretely. A counterexample of the verifier
   is replayed against the real code, and every contract is also searched with
   random inputs.

Exit 0: held. Exit 1: violated (VIOLATION line). Exit 2: error of the check."""
import json, os, sys, time, subprocess, shutil, glob, multiprocessing, multiprocessing.connection, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
TARGET = os.path.join(HERE, 'target')
DRIVER = os.path.join(TARGET, 'mirdump')
REPO = '/repo'

class CheckError(Exception): pass

def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO') or k.startswith('RUST'): e.pop(k)
    e.update(HOME='/root', PATH='/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')
    if '/opt/veriftools' in os.environ.get('PATH', ''): e['PATH'] = os.environ['PATH']
    e.update(kw)
    return e

def run(cmd, e, what, timeout=800):
    r = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, cwd=HERE)
    if r.returncode != 0:
        raise CheckError('%s failed:\n%s' % (what, (r.stdout + r.stderr)[-4000:]))
    return r.stdout

def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=env(), capture_output=True, text=True).stdout.strip()

def build_driver():
    src = os.path.join(HERE, 'mirdump/src/main.rs')
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= os.path.getmtime(src): return
    os.makedirs(TARGET, exist_ok=True)
    tmp = DRIVER + '.%d' % os.getpid()
    run(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', tmp], env(), 'building the MIR driver')
    os.replace(tmp, DRIVER)

def forget(target, names):
    """cargo goes by modification times; make it look at the contents"""
    for n in names:
        for d in glob.glob(os.path.join(target, 'debug/.fingerprint', n + '-*')) + glob.glob(os.path.join(target, 'debug/build', n)):
            if d.startswith(TARGET + '/'): shutil.rmtree(d, ignore_errors=True)

def dump(prop):
    t = os.path.join(TARGET, 'mir')
    forget(t, ['quantmath', 'qmharness'])
    out = os.path.join(TARGET, 'dump-%s.json' % prop)
    if os.path.exists(out): os.remove(out)
    e = env(RUSTUP_TOOLCHAIN='nightly', LD_LIBRARY_PATH=os.path.join(sysroot(), 'lib'),
            RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=1 -Zinline-mir=no -Awarnings',
            RUSTC_WORKSPACE_WRAPPER=DRIVER, MIRDUMP_CRATE='qmharness', MIRDUMP_OUT=out,
            MIRDUMP_ROOTS='proofs::%s::' % prop.lower(), MIRDUMP_STOP=os.path.join(HERE, 'qmv_stop.txt'))
    run(['cargo', 'check', '--lib', '--offline', '--locked', '--manifest-path', os.path.join(HERE, 'harness/Cargo.toml'), '--target-dir', t],
        e, 'compiling /repo with the contracts')
    if not os.path.exists(out): raise CheckError('no MIR was dumped')
    return out

def build_runner():
    t = os.path.join(TARGET, 'run')
    forget(t, ['quantmath', 'qmharness'])
    e = env(RUSTUP_TOOLCHAIN='stable', RUSTFLAGS='-Awarnings')
    run(['cargo', 'build', '--offline', '--locked', '--manifest-path', os.path.join(HERE, 'harness/Cargo.toml'), '--target-dir', t],
        e, 'compiling the contracts to run')
    return os.path.join(t, 'debug/qmreplay')

# ---- proving

def gave_up(name, why):
    return {'contract': name, 'status': 'beyond', 'reason': why, 'obligations': [], 'covers': {}, 'paths': 0, 'time': 0.0, 'solver': {}, 'feasibility': [0, 0.0, 0],
            'functions': [], 'library_bodies': 0, 'models': [], 'lemmas': {}, 'invariants': [], 'axioms': [], 'inexact': False}

_dump = None
def prove_one(a):
    """-> dict describing the result of one contract"""
    from qmv import engine
    name, budget, long_ms, end = a
    t0 = time.time()
    if end - t0 < 5: return gave_up(name, 'no time left')
    budget = min(budget, end - t0)
    E = engine.Engine(_dump)
    E.deadline = t0 + budget
    E.prover.long_ms = long_ms
    r = {'contract': name, 'reason': None}
    try:
        E.run(name)
        r['status'] = 'done'
    except (engine.Unsupported, engine.Budget) as x:
        r['status'] = 'beyond'
        try: at = E.loc(*E.cur_loc) if E.cur_loc else ''
        except Exception: at = ''
        r['reason'] = '%s (at %s)' % (x, at)
    except Exception as x:
        r['status'] = 'beyond'
        r['reason'] = 'verifier error: %s' % traceback.format_exc(limit=-3)
    r['obligations'] = [dict(label=o.label, status=o.status, backend=o.backend, time=round(o.time, 3), loc=str(o.loc), kind=o.kind, model=o.model,
                             detail=getattr(o, 'detail', None)) for o in E.obls]
    r['covers'] = {k[1]: v for k, v in E.covers.items()}
    r['paths'] = E.paths; r['time'] = time.time() - t0
    r['solver'] = {k: list(v) for k, v in E.prover.stats.items()}
    r['feasibility'] = [E.solver.checks, round(E.solver.time, 2), E.solver.unknowns]
    fn = {}
    for k in E.used_fns:
        f = E.fns[k]; fn[f['def']] = 1
    r['functions'] = sorted(x for x in fn if 'quantmath::' in x and 'qmharness' not in x)
    r['library_bodies'] = len([x for x in fn if 'quantmath::' not in x and 'qmharness' not in x])
    r['models'] = sorted(E.used_models); r['lemmas'] = E.lemmas
    r['invariants'] = sorted('%s loop %d' % x for x in E.loop_inv_used)
    r['axioms'] = sorted(E.axioms_used); r['inexact'] = E.inexact
    return r

def verdict(r):
    """proved | failed | beyond"""
    obs = r['obligations']
    bad = [o for o in obs if o['status'] != 'ok']
    if r['status'] != 'done': return 'beyond'
    if not obs or not r['covers'] or any(v is not True for v in r['covers'].values()):
        return 'failed' if any(o['status'] == 'fail' for o in bad) else 'beyond'
    if not bad: return 'proved'
    if any(o['kind'] in ('invariant', 'variant') for o in bad): return 'beyond'
    if any(o['status'] == 'fail' for o in bad): return 'failed'
    return 'beyond'

def search_one(a):
    runner, name, seed, n, secs = a
    try:
        p = subprocess.run([runner, 'search', name, str(seed), str(n), str(secs)], capture_output=True, text=True, timeout=secs + 90, env=env())
        line = [l for l in p.stdout.split('\n') if l.strip()]
        return name, (json.loads(line[-1]) if line else {'outcome': 'error', 'label': 'the process ended with code %s' % p.returncode, 'stderr': p.stderr[-500:]})
    except Exception as x:
        return name, {'outcome': 'error', 'label': str(x)}

def replay(runner, path):
    p = subprocess.run([runner, 'replay', path], capture_output=True, text=True, timeout=120, env=env())
    line = [l for l in p.stdout.split('\n') if l.strip()]
    return json.loads(line[-1]) if line else {'outcome': 'error', 'label': 'the process ended with code %s' % p.returncode}

def in_parallel(f, args, until, lost, workers):
    """f over args, each in a process of its own; what has not come back in time counts as lost"""
    ctx = multiprocessing.get_context('fork')
    def child(a, w):
        try: w.send(f(a))
        except BaseException: traceback.print_exc()
        finally:
            w.close(); os._exit(0)
    out = [None] * len(args); waiting = list(range(len(args))); running = {}
    while waiting or running:
        while waiting and len(running) < workers:
            i = waiting.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(args[i], w)); p.start(); w.close()
            running[r] = (i, p)
        for r in multiprocessing.connection.wait(list(running), timeout=1.0):
            i, p = running.pop(r)
            try: out[i] = r.recv()
            except (EOFError, OSError): out[i] = lost(args[i])
            r.close(); p.join()
        if time.time() > until:
            for i, p in running.values():
                p.kill(); p.join(); out[i] = lost(args[i])
            for i in waiting: out[i] = lost(args[i])
            break
    return out

def main():
    global _dump
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    seed = int(os.environ.get('VERIF_SEED') or 1)
    ev_dir = os.path.join(HERE, 'evidence'); os.makedirs(ev_dir, exist_ok=True)
    rep_dir = os.path.join(TARGET, 'replay'); os.makedirs(rep_dir, exist_ok=True)
    from qmv import config
    build_driver()
    path = dump(prop)
    runner = build_runner()
    t_build = time.time() - t0
    _dump = json.load(open(path))
    mod = 'qmharness::proofs::%s::' % prop.lower()
    listed = [l for l in subprocess.run([runner, 'list'], capture_output=True, text=True, env=env()).stdout.split('\n') if l.startswith(mod)]
    if not listed: raise CheckError('no contracts for ' + prop)
    missing = [n for n in listed if n not in _dump['roots']]
    if missing: raise CheckError('contracts without MIR: %s' % missing)

    quick = tier == 'quick'
    budget = config.BUDGET_QUICK if quick else config.BUDGET_THOROUGH
    only_search = set(n for n in listed if n.split('::')[-1].endswith('_run'))
    jobs = [n for n in listed if n not in only_search]
    long_ms = 15000 if quick else 60000
    workers = max(2, min(8, os.cpu_count() or 2))
    def each(f, args, until, lost): return in_parallel(f, args, until, lost, workers)
    def prove(names, secs, at_most, slack):
        end = time.time() + at_most
        return each(prove_one, [(n, secs, long_ms, end) for n in names], end + slack, lambda a: gave_up(a[0], 'the verifier did not come back'))
    def search(cases):
        return each(search_one, cases, time.time() + 120 + sum(c[4] for c in cases) / workers, lambda a: (a[1], {'outcome': 'error', 'label': 'the runner did not come back'}))

    # a failing input settles the matter; the contracts concerned still go through the verifier, to name the obligation
    secs = config.SEARCH_QUICK if quick else config.SEARCH_THOROUGH
    n = config.CASES_QUICK if quick else config.CASES_THOROUGH
    per = min(secs, max(2.0, secs * workers / max(len(listed), 1)))
    searches = dict(search([(runner, c, seed, n, per) for c in listed]))
    broken = [c for c in listed if searches[c]['outcome'] == 'failed' and not config.known(prop, c, searches[c]['label'])]
    if broken:
        results = prove([c for c in broken if c in jobs], 30, 45, 15)
    else:
        results = prove(jobs, budget, config.PROOF_QUICK if quick else config.PROOF_THOROUGH, 60)
        # contracts the verifier did not settle are searched longer
        weak = [r['contract'] for r in results if verdict(r) != 'proved']
        if weak:
            each_secs = max(3.0, min(20.0 if quick else 60.0, (100.0 if quick else 240.0) * workers / (3 * len(weak))))
            for c, s in search([(runner, c, seed + 1000003 * (k + 1), 10 ** 9, each_secs) for c in weak for k in range(3)]):
                if s['outcome'] == 'failed' and searches[c]['outcome'] != 'failed': searches[c] = s
                elif s['outcome'] == 'held' and searches[c]['outcome'] == 'held':
                    for k in ('held', 'rejected', 'proved'): searches[c][k] += s[k]

    violations = []; known = []; excused = set()
    def alarm(contract, label, doc, found):
        f = config.known(prop, contract, label)
        if f: known.append(f); excused.add(contract); return
        rp = os.path.join(rep_dir, '%s-%s.json' % (prop, contract.split('::')[-1]))
        doc = dict(doc, contract=contract, property=prop, obligation=label)
        json.dump(doc, open(rp, 'w'), indent=1, default=str)
        violations.append((contract, label, rp, found))

    beyond = []; proved = []
    for r in results:
        c = r['contract']; v = verdict(r)
        s = searches.get(c, {})
        if s.get('outcome') == 'failed':
            alarm(c, s['label'], {'case_seed': s['case_seed'], 'case': s.get('case'), 'how': 'qmreplay replay <this file>',
                                  'verifier': [o for o in r['obligations'] if o['status'] != 'ok'][:3]}, True)
            continue
        if v == 'proved': proved.append(r); continue
        done = False; refuted = 0; bad = [o for o in r['obligations'] if o['status'] == 'fail']
        for o in bad[:12]:
            if not o['model']: continue
            rp = os.path.join(rep_dir, 'candidate-%s.json' % c.split('::')[-1])
            json.dump({'contract': c, 'tape': o['model']['tape'], 'ufs': o['model']['ufs']}, open(rp, 'w'))
            try: x = replay(runner, rp)
            except Exception as e: x = {'outcome': 'error', 'label': str(e)}
            if x['outcome'] == 'failed':
                alarm(c, x['label'], {'tape': o['model']['tape'], 'ufs': o['model']['ufs'], 'case': x.get('case'), 'verifier': o}, True)
                done = True; break
            if x['outcome'] == 'held': refuted += 1
            o['replay'] = x['outcome']
        if done: continue
        if v == 'failed' and refuted < len(bad[:12]) and not r['inexact']:
            o = [o for o in bad if o.get('replay') != 'held'][0]
            alarm(c, o['label'], {'verifier': o, 'note': 'the verifier rejects this obligation; no concrete failing input was found'}, False)
            continue
        r['why'] = r['reason'] or '; '.join(sorted({'%s: %s' % (o['status'], o['label']) for o in r['obligations'] if o['status'] != 'ok'}))[:600] or 'nothing reached'
        beyond.append(r)
    for c in only_search:
        s = searches[c]
        if s.get('outcome') == 'failed':
            alarm(c, s['label'], {'case_seed': s['case_seed'], 'case': s.get('case')}, True)
    errs = [(c, s) for c, s in searches.items() if s.get('outcome') == 'error']

    write_evidence(prop, tier, seed, t0, t_build, results, proved, beyond, searches, only_search, violations, known, excused)
    for f in known: print('KNOWN-FINDING: property=%s %s' % (prop, f))
    for r in beyond:
        print('not decided by proof: %s: %s' % (r['contract'], r['why']))
    print('%s: %d contracts proved, %d obligations discharged, %d beyond the verifier on this tree, %.0f s' % (
        prop, len(proved), sum(len(r['obligations']) for r in proved), len(beyond), time.time() - t0))
    if violations:
        for c, label, rp, found in violations:
            print('violated: %s: %s' % (c, label))
        c, label, rp, found = sorted(violations, key=lambda v: not v[3])[0]
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if found else ' no-failing-input-found'))
        return 1
    if errs: raise CheckError('the runner failed: %s' % errs[:3])
    if not proved and not only_search and config.strict(prop): raise CheckError('nothing proved')
    return 0

def write_evidence(prop, tier, seed, t0, t_build, results, proved, beyond, searches, only_search, violations, known, excused):
    from qmv import config
    # contracts that a recorded finding contradicts are reported apart
    found = {r['contract']: {'obligations': len(r['obligations']), 'rejected': sum(o['status'] != 'ok' for o in r['obligations'])} for r in results if r['contract'] in excused}
    obs = [o for r in results if not r['contract'].endswith('_bounded') and r['contract'] not in excused for o in r['obligations']]
    # obligations of contracts that could not be finished count as not discharged
    open_ = sum(1 for r in beyond if r['status'] != 'done' and not r['contract'].endswith('_bounded'))
    is_bounded = lambda r: r['contract'].endswith('_bounded')
    discharged = [o for r in proved if not is_bounded(r) for o in r['obligations']]
    within = [o for r in proved if is_bounded(r) for o in r['obligations']]
    back = {}
    for o in discharged:
        b = back.setdefault(o['backend'], [0, 0.0]); b[0] += 1; b[1] = round(b[1] + o['time'], 3)
    bounded = [r['contract'] for r in results if r['contract'].endswith('_bounded')]
    full = [r for r in proved if r['contract'] not in bounded]
    lem = {}
    for r in results:
        for k, v in r['lemmas'].items(): lem[k] = lem.get(k, 0) + v
    models = sorted({m for r in results for m in r['models'] if not m.startswith('qmharness::sym::')})
    axioms = sorted({m for r in results for m in r['axioms']})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other' if all(is_bounded(r) for r in results) else 'proof' if not beyond and proved else 'exploration',
        'wall_s': round(time.time() - t0, 1),
        'violations': len(violations),
        'coverage': {
            'obligations': len(obs) + open_, 'discharged': len(discharged),
            'checker_cmd': 'python3-vt /verif/check.py %s %s' % (prop, tier),
            'trusted_base': ['rustc nightly (MIR construction) and rustc_public', 'mirdump (MIR to JSON)', 'qmv (obligation generator)',
                             'z3', 'cvc5 (where named below)'],
            'explanation': ('every contract discharged' if not beyond else '%d contracts discharged, %d not decided on this tree' % (len(proved), len(beyond)))
                + ('' if full else '; all contracts are within the sizes they state, and nothing is counted as proved without bound'),
            'by_back_end': {k: {'obligations': v[0], 'seconds': v[1]} for k, v in back.items()},
            'contracts': len(results), 'contracts_proved_unbounded': len(full),
            'contracts_bounded': bounded, 'obligations_of_bounded_contracts': len(within),
            'beyond_verifier_on_this_tree': [{'contract': r['contract'], 'why': r['why']} for r in beyond],
            'paths': sum(r['paths'] for r in results),
            'covers_reached': sum(1 for r in results for v in r['covers'].values() if v is True),
            'functions_under_contract': sorted({f for r in results for f in r['functions']}),
            'loop_invariants': sorted({f for r in results for f in r['invariants']}),
            'solver_s': round(sum(v[1] for r in results for v in r['solver'].values()) + sum(r['feasibility'][1] for r in results), 2),
            'build_s': round(t_build, 1),
            'evaluations': sum(s.get('held', 0) + s.get('rejected', 0) for s in searches.values()),
            'distinct_nontrivial': sum(s.get('held', 0) for s in searches.values()),
            'rule': 'cross-check of the contracts on the compiled code: random inputs; non-trivial when the precondition holds',
            'samples': [{'contract': c, 'case': s.get('sample')} for c, s in list(searches.items())[:3]],
            'run_only_contracts': sorted(only_search),
            'known_findings_seen': known, 'contracts_contradicted_by_known_findings': found,
        },
        'assumptions': config.ASSUMPTIONS + ['axioms used: ' + a for a in axioms] + ['lemma (mathematical fact, instances given in the contract): ' + k for k in sorted(lem)]
            + ['contracts assumed for functions outside the repository: ' + ', '.join(models)] + config.notes(prop),
    }
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)

if __name__ == '__main__':
    try:
        code = main()
    except CheckError as x:
        print('check error: %s' % x); code = 2
    except subprocess.TimeoutExpired as x:
        print('check error: %s' % x); code = 2
    except Exception:
        traceback.print_exc(); code = 2
    sys.stdout.flush()
    os._exit(code)
