"""Proof tasks of every property.  Each module registers harnesses and tasks."""
import importlib
import os
import re

HARNESS = {}     # name -> (source, extra flags)
TASKS = {}       # property -> [Task]
MODULES = ['pb_scalar', 'pb_ser', 'pb_des', 'pb_stream', 'utf8', 'js_lex', 'js_val']

# obligations that decide a property; the others of a task are the lemmas they rest on and decide other properties
GENERIC = r'(memory|UB|control|termination|arithmetic|loop|framing|wire type|limits|utf8|skip|accept)\b'
DECIDES = {
    'C02': r'(?!%s)' % GENERIC,
    'C03': r'value|bits|scalar|varint|accept|narrow|(?!%s)' % GENERIC,
    'C04': r'size|memory|container: the bytes written|scalar|limits: a value that must be refused|output|api|delimited',
    'C05': r'memory|UB|control|termination|arithmetic|framing|varint|loop|buffer|reader|api|delimited',
    'C06': r'skip|framing',
    'C09': r'wire type',
    'C10': r'container|value',
    'C11': r'limits|accept',
    'C12': r'utf8|limits|accept|string',
}


def decides(pid, ob):
    return re.match(DECIDES.get(pid, ''), ob) is not None


def load():
    here = os.path.dirname(os.path.abspath(__file__))
    for m in MODULES:
        if os.path.exists(os.path.join(here, m + '.py')):
            mod = importlib.import_module('specs.' + m)
            for k, v in mod.HARNESS.items():
                HARNESS[k] = v
            for p, ts in mod.TASKS.items():
                TASKS.setdefault(p, []).extend(ts)
    return TASKS
