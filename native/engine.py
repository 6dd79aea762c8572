"""Runs batches of driver lines and judges the replies (the bounded stand-ins and the replay search)."""
import os
import select
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor


class Case:
    """one judged case: driver lines (op, msg, payload, args) and judge(list of replies) -> None or what is wrong"""
    __slots__ = ('lines', 'judge', 'note')

    def __init__(self, lines, judge, note=''):
        self.lines = lines
        self.judge = judge
        self.note = note


class Failure:
    def __init__(self, case, replies, what, stderr=''):
        self.case = case
        self.replies = replies
        self.what = what
        self.stderr = stderr

    def describe(self):
        L = ['what: ' + self.what]
        if self.case.note:
            L.append('case: ' + self.case.note)
        for i, l in enumerate(self.case.lines):
            L.append('input: ' + ' '.join(str(x) for x in l))
            if i < len(self.replies):
                L.append('reply: ' + self.replies[i])
        if self.stderr:
            L.append('stderr: ' + self.stderr[-3000:])
        return '\n'.join(L)


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=6000:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='print_stacktrace=1')


def run_lines(driver, lines, timeout):
    """lines: list of (op,msg,payload,args). Returns (replies, status, stderr): status None, 'crash' or 'hang'"""
    text = ''.join('%d %s %s %s %s\n' % (i, l[0], l[1], l[2], l[3] if len(l) > 3 else '') for i, l in enumerate(lines)).encode()
    p = subprocess.Popen([driver], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
    out = bytearray()
    err = bytearray()
    fds = {p.stdout.fileno(): out, p.stderr.fileno(): err}
    os.set_blocking(p.stdin.fileno(), False)
    off = 0
    last = time.time()
    status = None
    win = p.stdin.fileno()
    while fds:
        r, w, _ = select.select(list(fds), [win] if win is not None else [], [], 1.0)
        for fd in r:
            b = os.read(fd, 1 << 16)
            if not b:
                del fds[fd]
            else:
                fds[fd].extend(b)
                last = time.time()
        if w:
            try:
                off += os.write(win, text[off:off + 65536])
            except BlockingIOError:
                pass
            except BrokenPipeError:
                off = len(text)
            if off >= len(text):
                p.stdin.close()
                win = None
        if time.time() - last > timeout:
            status = 'hang'
            p.kill()
            break
    rc = p.wait()
    if win is not None:
        try:
            p.stdin.close()
        except BrokenPipeError:
            pass
    p.stdout.close()
    p.stderr.close()
    reps = bytes(out).decode('latin1').split('\n')
    if reps and reps[-1] == '':
        reps.pop()
    got = []
    for i, l in enumerate(reps):
        k, _, v = l.partition(' ')
        if k != str(i):
            break
        got.append(v)
    if status is None and (rc != 0 or len(got) < len(lines)):
        status = 'crash'
    return got, status, bytes(err).decode('latin1')


def run_batch(driver, cases, timeout):
    lines = [l for c in cases for l in c.lines]
    got, status, err = run_lines(driver, lines, timeout)
    fails = []
    p = 0
    for c in cases:
        n = len(c.lines)
        rep = got[p:p + n]
        p += n
        if len(rep) < n:
            if status:
                fails.append(Failure(c, rep, 'the process ' + ('did not answer within %d s' % timeout if status == 'hang' else 'was ended (sanitizer report, abort or signal)'), err))
            break
        w = c.judge(rep)
        if w:
            fails.append(Failure(c, rep, w))
            if len(fails) > 20:
                break
    return fails, len(got)


class Runner:
    def __init__(self, driver, jobs=8, batch=400, timeout=30):
        self.driver, self.jobs, self.batch, self.timeout = driver, jobs, batch, timeout
        self.lines = 0
        self.cases = 0

    def run(self, cases, seconds, max_fails=5):
        """cases: iterator. Stops after the given seconds or when cases end. Returns failures."""
        t0 = time.time()
        fails = []
        it = iter(cases)
        pending = []
        done = False
        with ThreadPoolExecutor(self.jobs) as ex:
            while not done or pending:
                while not done and len(pending) < self.jobs:
                    b = []
                    for c in it:
                        b.append(c)
                        if len(b) >= self.batch:
                            break
                    if not b:
                        done = True
                        break
                    pending.append((ex.submit(run_batch, self.driver, b, self.timeout), len(b)))
                    if time.time() - t0 > seconds:
                        done = True
                if pending:
                    f, n = pending.pop(0)
                    fl, k = f.result()
                    fails += fl
                    self.lines += k
                    self.cases += n
                    if len(fails) >= max_fails:
                        done = True
        return fails
