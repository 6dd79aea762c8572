#!/opt/veriftools/pyvenv/bin/python3
"""check.py ID: decides property ID on /repo's current working tree.

1. proof tasks: the real templates of /repo/include/spb are compiled to LLVM IR and every obligation of the property is
   generated and discharged by z3 / cvc5 (irv/, specs/, harness/);
2. bounded stand-in and replay search: seeded inputs through the code sprotoc generates, compiled with ASan and UBSan (native/).
"""
import json
import os
import random
import shutil
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'native'))
sys.dont_write_bytecode = True

TRUST = [
    'clang 18 front end and opt sroa/simplifycfg/early-cse (C++ to LLVM IR), irv/ verification-condition generator, z3 4.x / cvc5 1.1.2',
    'contracts of the C/C++ runtime functions listed under assumed_contracts (irv/lib.py): allocation succeeds, exceptions unwind per the Itanium ABI, memchr/memcmp/strlen/isspace per ISO C',
    'abstract instantiation types V::* (harness/vtypes.hpp) stand for every stream, container and message type meeting the contracts of irv/lib.py',
    'sizes are below 2^46 (address space), a process does not run out of memory',
]


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def native(pid, work, tier, out):
    """bounded stand-in; out gets failures, lines, cases, error"""
    try:
        import build
        import engine
        import gen
        secs = float(os.environ.get('VERIF_NATIVE_S') or (20 if tier == 'quick' else 240))
        r = random.Random(seed() * 1000003 + int(pid[1:]))
        if pid == 'C22':
            import c22
            sp = build.protoc(work, True)
            fails, n = c22.bad_schemas(work, sp)
            ms, drv, f2 = c22.make(work, sp, r.getrandbits(32), 24 if tier == 'quick' else 160)
            out['rule'] = 'random schemas (nested types, imports, oneofs, maps, options, defaults, comments, number notations) through sprotoc built with ASan/UBSan; every field both ways against an independent codec; %d broken schemas must be refused' % n
            out['schemas'] = len(ms)
            fails += f2
            if not fails:
                rn = engine.Runner(drv)
                fails = rn.run(c22.cases(r, ms), secs)
                out['lines'], out['cases'] = rn.lines + n, rn.cases + n
            else:
                out['lines'] = out['cases'] = n
            out['fails'] = fails
            return
        fn, files = gen.GENS[pid]
        drv = build.driver(work, files)
        out['built'] = True
        out['ready'].set()
        out['go'].wait()
        rn = engine.Runner(drv)
        out['rule'] = 'seeded generator gen.%s: boundary values first, then random values and mutated inputs, each judged by an independent reference codec; every case is distinct by construction of the generator' % fn.__name__
        seen = []

        def cases():
            for c in fn(r):
                if len(seen) < 3:
                    seen.append(c)
                yield c
        out['fails'] = rn.run(cases(), secs)
        out['known'] = replay_known(pid, drv)
        out['lines'], out['cases'] = rn.lines, rn.cases
        if pid in ('C20', 'C21') and not out['fails']:
            # the same questions on random schemas
            import c22
            ms, drv2, f2 = c22.make(work, build.protoc(work, True), seed() * 7919 + int(pid[1:]), 12 if tier == 'quick' else 100)
            out['schemas'] = len(ms)
            out['fails'] += f2
            if not f2:
                r2 = engine.Runner(drv2)
                out['fails'] += r2.run(fn(r, ms), secs / 2)
                out['lines'] += r2.lines
                out['cases'] += r2.cases
        out['samples'] = [' '.join(str(x) for x in c.lines[0])[:300] for c in seen]
    except Exception as e:      # noqa
        import traceback
        if pid in ('C20', 'C21', 'C22') and type(e).__name__ == 'GenError':
            out['fails'] = [Gen(str(e))]
        else:
            out['error'] = '%s\n%s' % (e, traceback.format_exc()[-1500:])
    finally:
        out['ready'].set()


class Gen:
    def __init__(self, text):
        self.text = text

    def describe(self):
        return 'what: a specimen schema is rejected by sprotoc or its generated code does not compile\n' + self.text[-3000:]


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif_' + pid + '_')
    try:
        rc = check(pid, tier, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(pid, tier, work, t0):
    import specs
    specs.load()
    tasks = specs.TASKS.get(pid, [])
    nat = {'ready': threading.Event(), 'go': threading.Event(), 'fails': [], 'lines': 0, 'cases': 0}
    results = []
    perr = None
    # the native build first (it uses all cores for some 20 s), then the proofs, then the search
    th = threading.Thread(target=native, args=(pid, work, tier, nat))
    only_proof = os.environ.get('VERIF_ONLY') == 'proof'
    if not only_proof:
        th.start()
        if tasks:
            nat['ready'].wait()
    if tasks and os.environ.get('VERIF_ONLY') != 'native':
        from irv import run
        try:
            pdir = os.path.join(work, 'ir')
            os.makedirs(pdir)
            results = run.run_tasks(tasks, pdir, specs.HARNESS, jobs=8, only=os.environ.get('VERIF_TASK'))
        except Exception as e:      # noqa
            import traceback
            perr = '%r %s' % (e, traceback.format_exc()[-1500:])
    nat['go'].set()
    if not only_proof:
        th.join()

    n_obs = n_ok = n_vc = 0
    failed, undecided, skipped, lemmas = [], [], [], []
    backends, loops, funcs, contracts = {}, [], set(), {}
    solver = 0.0
    for res in results:
        for n, o in sorted(res['obs'].items()):
            n_obs += 1
            n_vc += o['vcs']
            solver += o['time']
            for b, k in (o['backends'] or {}).items():
                backends[b] = backends.get(b, 0) + k
            if o['fail'] and specs.decides(pid, n):
                failed.append((res['name'], n, o))
            elif o['fail']:
                lemmas.append((res['name'], n))
            elif o['undecided'] or res['error']:
                undecided.append((res['name'], n))
            else:
                n_ok += 1
        if res['error']:
            skipped.append({'task': res['name'], 'kind': res['error_kind'], 'why': res['error'][:600]})
        elif not res['obs']:
            skipped.append({'task': res['name'], 'kind': 'vacuous', 'why': 'no obligation was generated'})
        loops += [dict(l, task=res['name']) if isinstance(l, dict) else {'task': res['name'], 'loop': str(l)} for l in res['loops']]
        funcs |= set(res['functions'])
        for k, v in res['contracts'].items():
            contracts[k] = contracts.get(k, 0) + (v if isinstance(v, int) else 1)

    # a native build that does not even compile the generated code is judged by the stable build, not here
    violation = None
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    rp = os.path.join(evdir, 'replay', '%s.txt' % pid)
    if os.path.exists(rp):
        os.unlink(rp)
    fails = nat['fails']
    if fails or failed:
        with open(rp, 'w') as f:
            f.write('property %s, tree %s\n' % (pid, os.environ.get('VERIF_REPO', '/repo')))
            for name, n, o in failed:
                f.write('\nfailed obligation: %s / %s\n%s\n' % (name, n, json.dumps(o['fail'], indent=1, default=str)[:6000]))
            for x in fails:
                f.write('\nfailing input (line driver of native/, see native/driver.hpp)\n' + x.describe() + '\n')
        violation = rp
    wall = round(time.time() - t0, 1)
    level = 'proof' if tasks else 'exploration'
    cov = {
        'evaluations': nat['cases'],
        'distinct_nontrivial': nat['cases'],
        'rule': nat.get('rule', ''),
        'samples': nat.get('samples', []) or ['(none)'],
    }
    if tasks:
        cov.update({
            'obligations': n_obs, 'discharged': n_ok, 'verification_conditions': n_vc,
            'checker_cmd': 'python3 check.py %s (irv: weakest-precondition style symbolic execution of the LLVM IR of /repo/include, z3 and cvc5)' % pid,
            'trusted_base': TRUST,
            'functions_under_contract': sorted(funcs),
            'assumed_contracts': contracts,
            'loops_cut_with_invariants': loops[:200],
            'back_ends': backends, 'solver_s': round(solver, 1),
            'undecided_obligations': ['%s / %s' % x for x in undecided][:50],
            'failed_obligations_of_other_properties': ['%s / %s' % x for x in lemmas][:50],
            'tasks_not_decided_bounded_only': skipped,
            'tasks': [{'task': r['name'], 'obligations': len(r['obs']), 's': r['time'], 'bounded': None} for r in results],
            'bounded_stand_in': {'cases': nat['cases'], 'driver_lines': nat['lines'], 'bound': 'the generated cases of this run; never counted as proved'},
        })
    if 'schemas' in nat:
        cov['messages_of_random_schemas'] = nat['schemas']
    if nat.get('error'):
        cov['bounded_stand_in_error'] = nat['error'][-1500:]
    if perr:
        cov['proof_error'] = perr
    ev = {'property': pid, 'tier': tier, 'seed': seed(), 'level': level, 'coverage': cov, 'wall_s': wall,
          'assumptions': TRUST if tasks else ['the reference codec of native/ref.py states the protobuf and proto3 JSON formats'],
          'violations': len(fails) + len(failed)}
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for x in nat.get('known', []):
        print('KNOWN-FINDING: property=%s %s' % (pid, x))
    print('%s: obligations %d discharged %d failed %d (+%d of other properties) undecided %d, skipped tasks %d; bounded cases %d failing %d; %.1f s' % (
        pid, n_obs, n_ok, len(failed), len(lemmas), len(undecided), len(skipped), nat['cases'], len(fails), wall))
    if os.environ.get('VERIF_V'):
        for s in skipped:
            print('  skipped', s['task'], s['kind'], s['why'])
        for u in undecided:
            print('  undecided', u)
        for name, n, o in failed:
            print('  failed', name, n)
    if violation:
        print('VIOLATION property=%s replay=%s%s' % (pid, violation, '' if fails else ' no-failing-input-found'))
        return 1
    if nat.get('error') and not only_proof_env():
        # without the stand-in nothing observable was decided: an error of the check, unless every obligation was proved
        print(nat['error'], file=sys.stderr)
        if not (tasks and n_obs and n_ok == n_obs and not skipped and not lemmas):
            return 2
    return 0


def only_proof_env():
    return os.environ.get('VERIF_ONLY') == 'proof'


def known_lines():
    p = os.path.join(HERE, 'known-findings.txt')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [l.rstrip('\n') for l in f if l.strip() and not l.startswith('#')]


def replay_known(pid, drv):
    """finding: property=ID text | driver line | reply of the defect.  Replays each input; the text of those that still fail"""
    import engine
    out = []
    for l in known_lines():
        if not l.startswith('finding: property=%s ' % pid):
            continue
        parts = [x.strip() for x in l.split(' ', 2)[2].split(' | ')]
        if len(parts) < 3:
            out.append(parts[0])
            continue
        f = parts[1].split(' ')
        got, status, _ = engine.run_lines(drv, [(f[0], f[1], '' if f[2] == '-' else f[2], ' '.join(f[3:]))], 20)
        rep = got[0] if got else str(status)
        if rep.startswith(parts[2]):
            out.append('%s (input: %s)' % (parts[0], parts[1][:200]))
    return out


if __name__ == '__main__':
    main()
