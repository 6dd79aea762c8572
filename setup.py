"""Checks that the tools the framework needs are here (nothing has to be built ahead of a check)."""
import shutil
import subprocess
import sys
sys.dont_write_bytecode = True
import z3
for t in ('/usr/bin/clang++-18', '/usr/bin/opt-18', 'c++filt'):
    if not shutil.which(t):
        sys.exit('missing tool ' + t)
subprocess.run(['/usr/bin/clang++-18', '--version'], check=True, stdout=subprocess.DEVNULL)
print('z3', z3.get_version_string())
