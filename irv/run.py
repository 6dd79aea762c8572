"""Compile harnesses from /repo's current tree to LLVM IR and run verification tasks in parallel."""
import os
import re
import subprocess
import sys
import time
import traceback
import multiprocessing as mp
import z3
from . import ir, core, lib

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
SAN = '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable,return'


class BuildError(Exception):
    pass


def compile_ir(src, out, extra=(), asserts=True):
    ll = out + '.a.ll'
    cmd = [CLANG, '-std=c++20', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'harness'), '-O1', '-Xclang',
           '-disable-llvm-passes', '-fno-discard-value-names', '-S', '-emit-llvm', '-g0', SAN, '-fsanitize-trap=all', '-w',
           *extra, src, '-o', ll]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(p.stderr[-4000:])
    p = subprocess.run([OPT, '-passes=function(sroa,simplifycfg,early-cse)', '-S', ll, '-o', out], capture_output=True, text=True)
    if p.returncode:
        raise BuildError(p.stderr[-4000:])
    os.unlink(ll)
    return out


class Task:
    def __init__(self, harness, name, fn, budget=240, timeout=20000, lean=False, bounded=None):
        self.lean = lean           # first try with few candidate invariants
        self.harness = harness
        self.name = name
        self.fn = fn
        self.budget = budget
        self.timeout = timeout
        self.bounded = bounded     # text of the bound when the task is not unbounded


class Ctx:
    def __init__(self, ver, task):
        self.ver = ver
        self.task = task
        self.checks = []


_modules = {}


def load(harness, path):
    with open(path) as f:
        _modules[harness] = ir.Module(f.read())


def run_task(task):
    t0 = time.time()
    cuts = set()
    nosum = set()
    res = {'name': task.name, 'harness': task.harness, 'obs': {}, 'loops': [], 'functions': [], 'contracts': {}, 'error': None,
           'error_kind': None}
    ver = None
    lean = task.lean
    for attempt in range(40):
        ver = core.Verifier(_modules[task.harness], task.timeout)
        ver.cuts = cuts
        ver.entry = task.name
        ver.deadline = t0 + task.budget
        ver.lean = lean
        lib.install_runtime(ver)
        try:
            task.fn(ver)
            res['error'] = None
            if lean and any(o.fail or o.undecided for o in ver.obs.values()):
                lean = False
                if core.HDEBUG:
                    print('not lean:', [n for n, o in ver.obs.items() if o.fail or o.undecided])
                continue
            break
        except core.NeedCut as e:
            if e.key in cuts:
                res['error'] = 'loop %s cannot be cut' % (e.key,)
                res['error_kind'] = 'unsupported'
                break
            cuts.add(e.key)
            continue
        except core.Unsupported as e:
            res['error'] = 'unsupported: %s' % e
            res['error_kind'] = 'unsupported'
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            break
        except core.Budget as e:
            res['error'] = str(e)
            res['error_kind'] = 'budget'
            break
        except (z3.Z3Exception, KeyError, IndexError, AttributeError, TypeError, ValueError, SyntaxError, AssertionError, RecursionError) as e:
            res['error'] = 'internal: %r %s' % (e, traceback.format_exc()[-1500:])
            res['error_kind'] = 'internal'
            break
    for n, o in ver.obs.items():
        res['obs'][n] = {'vcs': o.vcs, 'ok': o.ok, 'fail': o.fail, 'undecided': o.undecided, 'time': round(o.time, 3), 'backends': o.backends}
    res['loops'] = ver.loops_info
    res['functions'] = sorted(ver.demangled(f) for f in ver.funcs_seen)
    res['contracts'] = ver.contracts_used
    res['time'] = round(time.time() - t0, 2)
    res['feasibility_queries'] = ver.nfeas
    res['cuts'] = sorted(str(c) for c in cuts)
    res['cover'] = ver.cover
    return res


def _worker(i):
    try:
        return _pool_run(_tasks[i])
    except BaseException as e:      # noqa
        return {'name': _tasks[i].name, 'harness': _tasks[i].harness, 'obs': {}, 'loops': [], 'functions': [], 'contracts': {},
                'error': 'worker: %r' % e, 'error_kind': 'internal', 'time': 0, 'feasibility_queries': 0, 'cuts': [], 'cover': 0}


def _pool_run(t):
    sys.setrecursionlimit(20000)
    return run_task(t)


_tasks = []


def run_tasks(tasks, workdir, harness_src, jobs=8, only=None):
    """harness_src: name -> (source path, extra flags)"""
    global _tasks
    tasks = [t for t in tasks if not only or re.search(only, t.name)]
    used = sorted({t.harness for t in tasks})
    built = {}
    from concurrent.futures import ThreadPoolExecutor

    def b(h):
        src, extra = harness_src[h]
        try:
            return h, compile_ir(src, os.path.join(workdir, h + '.ll'), extra), None
        except BuildError as e:
            return h, None, str(e)
    errs = {}
    with ThreadPoolExecutor(8) as ex:
        for h, p, e in ex.map(b, used):
            if e:
                errs[h] = e
            else:
                load(h, p)
    _tasks = [t for t in tasks if t.harness not in errs]
    out = []
    for t in tasks:
        if t.harness in errs:
            out.append({'name': t.name, 'harness': t.harness, 'obs': {}, 'loops': [], 'functions': [], 'contracts': {},
                        'error': 'harness does not compile: ' + errs[t.harness][-1500:], 'error_kind': 'build', 'time': 0,
                        'feasibility_queries': 0, 'cuts': [], 'cover': 0})
    if jobs == 1:
        for i in range(len(_tasks)):
            out.append(_worker(i))
        return out
    ctx = mp.get_context('fork')
    order = sorted(range(len(_tasks)), key=lambda i: -_tasks[i].budget)
    with ctx.Pool(jobs, maxtasksperchild=4) as pool:
        for r in pool.imap_unordered(_worker, order, chunksize=1):
            out.append(r)
    return out
