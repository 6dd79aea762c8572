"""Build the schema compiler and the line driver from the tree under test (everything in a scratch directory)."""
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ref
import specimen

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CXX = '/usr/bin/clang++-18'
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']


class BuildError(Exception):
    pass


class GenError(BuildError):
    """sprotoc refuses a specimen schema or its output does not compile"""


def sh(cmd, timeout=600, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), (p.stdout + p.stderr)[-4000:]))
    return p


def gen_sh(cmd):
    try:
        return sh(cmd)
    except BuildError as e:
        raise GenError(str(e))


def protoc(work, san=False):
    """compile sprotoc; returns its path"""
    out = os.path.join(work, 'sprotoc' + ('_san' if san else ''))
    if os.path.exists(out):
        return out
    root = os.path.join(REPO, 'src/spb-proto-compiler')
    srcs = []
    for d, _, fs in os.walk(root):
        srcs += [os.path.join(d, f) for f in fs if f.endswith('.cpp')]
    objs = []

    def one(s):
        o = os.path.join(work, ('sp_' if not san else 'sps_') + os.path.relpath(s, root).replace('/', '_') + '.o')
        sh([CXX, '-std=c++20', '-O0', '-w', '-I' + root, '-I' + os.path.join(REPO, 'include'), '-c', s, '-o', o] + (SAN if san else []))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    sh([CXX, '-o', out] + objs + (SAN if san else []))
    return out


def generate(work, protoc_path, files=None):
    g = os.path.join(work, 'gen')
    os.makedirs(g, exist_ok=True)
    for n, (pkg, items) in specimen.FILES.items():
        if files and n not in files:
            continue
        with open(os.path.join(g, n + '.proto'), 'w') as f:
            f.write(ref.proto_text(pkg, items))
        with open(os.path.join(g, n + '_drv.cpp'), 'w') as f:
            f.write(ref.driver_text(pkg, items, n + '.pb.h'))
        gen_sh([protoc_path, '--cpp_out=' + g, '-I' + os.path.join(REPO, 'include/spb/proto'), '-I' + g, os.path.join(g, n + '.proto')])
    return g


def driver(work, files=None, san=True):
    """the line driver over the specimen schemas"""
    p = protoc(work)
    g = generate(work, p, files)
    fs = [n for n in specimen.FILES if not files or n in files]
    out = os.path.join(work, 'driver')
    flags = ['-std=c++20', '-O1', '-w', '-I' + g, '-I' + HERE, '-I' + os.path.join(REPO, 'include')] + (SAN if san else [])

    def one(s):
        o = os.path.join(work, os.path.basename(s) + '.o')
        (sh if s.endswith('main.cpp') else gen_sh)([CXX] + flags + ['-c', s, '-o', o])
        return o
    srcs = [os.path.join(HERE, 'main.cpp')]
    for n in fs:
        srcs += [os.path.join(g, n + '.pb.cc'), os.path.join(g, n + '_drv.cpp')]
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    sh([CXX, '-o', out] + objs + (SAN if san else []))
    return out


if __name__ == '__main__':
    os.makedirs(sys.argv[1], exist_ok=True)
    print(driver(sys.argv[1], sys.argv[2].split(',') if len(sys.argv) > 2 else None))
