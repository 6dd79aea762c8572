"""C22: random schemas through sprotoc, the C++ compiler and the line driver; broken schemas must be refused."""
import os
import random
import subprocess
from concurrent.futures import ThreadPoolExecutor
import build
import gen
import ref
import schema22
from engine import Case, Failure, ENV
from ref import Msg

FLAGS = ['-std=c++20', '-O0', '-w', '-I' + build.HERE, '-I' + os.path.join(build.REPO, 'include'), '-include', 'array']


class SchemaFailure:
    def __init__(self, what, text, out):
        self.what, self.text, self.out = what, text, out

    def describe(self):
        return 'what: %s\nschema:\n%s\noutput:\n%s' % (self.what, self.text, self.out[-3000:])


def run_protoc(sp, g, fn):
    p = subprocess.run([sp, '--cpp_out=' + g, '-I' + os.path.join(build.REPO, 'include/spb/proto'), '-I' + g, os.path.join(g, fn + '.proto')],
                       capture_output=True, text=True, errors='replace', timeout=60, env=ENV)
    return p.returncode, p.stdout + p.stderr


def enum_asserts(pkg, items):
    """names and numbers of the generated enums, checked by the compiler"""
    L = []
    for e in items:
        if isinstance(e, ref.Enum):
            q = '::'.join(x for y in e.full for x in y.split('.'))
            L.append('static_assert(sizeof(%s) == %d);' % (q, int(e.ctype.lstrip('uint')) // 8))
            for n, v in e.vals.items():
                L.append('static_assert((long long)%s::%s == %dLL, "value of enum");' % (q, n, v))
    return '\n'.join(L) + '\n'


def make(work, sp, seed, n, budget=6):
    """n random schemas -> (list of (driver name, Msg), driver path, failures)"""
    g = os.path.join(work, 'gen22')
    os.makedirs(g, exist_ok=True)
    r = random.Random(seed)
    fails = []
    ms = []
    objs = []
    todo = []
    for i in range(n):
        ok = True
        files = schema22.schema(r, 'R%d' % i, budget)
        for fn, pkg, items, text in files:
            with open(os.path.join(g, fn + '.proto'), 'w', newline='') as f:
                f.write(text)
        for k, (fn, pkg, items, text) in enumerate(files):
            rc, out = run_protoc(sp, g, fn)
            if rc:
                fails.append(SchemaFailure('a valid schema is rejected (exit status %d)' % rc, '\n'.join(x[3] for x in files), out))
                ok = False
                break
            with open(os.path.join(g, fn + '_drv.cpp'), 'w') as f:
                f.write(ref.driver_text(pkg.replace('.', '::'), items, fn + '.pb.h',
                                        [(x[1].replace('.', '::'), x[2]) for x in files[:k]]) + enum_asserts(pkg, items))
        if ok:
            todo.append(files)

    def one(files):
        os_ = []
        for fn, pkg, items, text in files:
            for s in (fn + '.pb.cc', fn + '_drv.cpp'):
                o = os.path.join(g, s + '.o')
                p = subprocess.run([build.CXX] + FLAGS + ['-I' + g, '-c', os.path.join(g, s), '-o', o], capture_output=True, text=True)
                if p.returncode:
                    return files, SchemaFailure('the code generated for a valid schema does not compile or has wrong enum values',
                                                '\n'.join(x[3] for x in files), p.stderr), []
                os_.append(o)
        return files, None, os_
    with ThreadPoolExecutor(8) as ex:
        for files, bad, os_ in ex.map(one, todo):
            if bad:
                fails.append(bad)
                continue
            objs += os_
            for fn, pkg, items, text in files:
                for m in items:
                    if isinstance(m, Msg):
                        ms.append((pkg.replace('.', '::') + '.' + m.name, m))
    drv = os.path.join(work, 'driver22')
    mo = os.path.join(g, 'main.o')
    build.sh([build.CXX] + FLAGS + ['-c', os.path.join(build.HERE, 'main.cpp'), '-o', mo])
    build.sh([build.CXX, '-o', drv, mo] + objs)
    for k, m in ms:
        gen.MSG[k] = m
    return ms, drv, fails


def cases(r, ms):
    """one pass over every field of every message through both formats, then random values"""
    import itertools
    a, b = gen.c20(r, ms), gen.c21(r, ms)
    for x in itertools.chain.from_iterable(zip(a, b)):
        yield x


def bad_schemas(work, sp):
    """every schema of the list must be refused with a message"""
    g = os.path.join(work, 'bad22')
    os.makedirs(g, exist_ok=True)
    fails = []

    def one(k):
        i, (what, body) = k
        text = 'syntax = "proto4";\n' if body is None else schema22.H2 + body + '\n'
        fn = 'bad%d' % i
        with open(os.path.join(g, fn + '.proto'), 'w') as f:
            f.write(text)
        try:
            rc, out = run_protoc(sp, g, fn)
        except subprocess.TimeoutExpired:
            return SchemaFailure('sprotoc does not end: ' + what, text, '')
        if rc == 0:
            return SchemaFailure('a broken schema is accepted: ' + what, text, out)
        if rc < 0 or 'Sanitizer' in out or 'runtime error' in out:
            return SchemaFailure('sprotoc crashes on a broken schema: ' + what, text, out)
        if not out.strip():
            return SchemaFailure('no error message for a broken schema: ' + what, text, out)
        return None
    with ThreadPoolExecutor(8) as ex:
        fails = [x for x in ex.map(one, enumerate(schema22.BAD)) if x]
    return fails, len(schema22.BAD)
