"""Contract-based deductive verification of LLVM-IR functions.

The executor computes the strongest postcondition of an IR function path by path over all inputs
(z3 bit-vectors and arrays), replaces calls to functions under contract by their contracts, cuts
loops with inductive invariants, and hands every proof obligation to an SMT solver.
"""
import re
import sys
import shutil
import subprocess
import os
import time
import z3
from . import ir

ADDR_BITS = 47
CXXFILT = shutil.which('llvm-cxxfilt-18') or 'c++filt'


class Unsupported(Exception):
    pass


class NeedCut(Exception):
    def __init__(self, key):
        self.key = key


class Budget(Exception):
    pass


_fresh = [0]


def fresh_name(p):
    _fresh[0] += 1
    return '%s!%d' % (p, _fresh[0])


def fresh(w, p='v'):
    return z3.BitVec(fresh_name(p), w)


def fresh_arr(p='mem'):
    return z3.Array(fresh_name(p), z3.BitVecSort(64), z3.BitVecSort(8))


class Region:
    n = 0

    def __init__(self, name, size, const=False, kind='obj', nonnull=True):
        Region.n += 1
        self.id = Region.n
        self.name = name
        self.size = size          # int or BV64
        self.const = const
        self.kind = kind
        self.base = z3.BitVec('base_%s_%d' % (name, self.id), 64)
        self.table = None         # concrete bytes for constant globals
        self.initptrs = {}        # const global: offset -> Ptr/FnPtr

    def axioms(self):
        a = [z3.UGE(self.base, 4096), z3.ULE(self.base, 1 << ADDR_BITS)]
        if not isinstance(self.size, int):
            a.append(z3.ULE(self.size, 1 << ADDR_BITS))
        return a

    def __repr__(self):
        return 'R%d:%s' % (self.id, self.name)


class Ptr:
    __slots__ = ('reg', 'off')

    def __init__(self, reg, off=0):
        self.reg = reg
        self.off = off

    def __repr__(self):
        return 'Ptr(%r,%s)' % (self.reg, self.off)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


NULL = Ptr(None, 0)


class Agg:
    """first-class aggregate value"""
    __slots__ = ('el',)

    def __init__(self, el):
        self.el = list(el)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def isint(v):
    return isinstance(v, int)


def mask(w):
    return (1 << w) - 1


def bv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, Ptr):
        return addr(v)
    if isinstance(v, FnPtr):
        return z3.BitVec('fnaddr_' + v.name, 64)
    if isinstance(v, Undef):
        return fresh(w, 'undef')
    return v


def addr(p):
    if p.reg is None:
        return bv(p.off, 64)
    if isinstance(p.off, int) and p.off == 0:
        return p.reg.base
    return p.reg.base + bv(p.off, 64)


def norm(e):
    """constant-fold a z3 bit-vector into a python int when possible"""
    if isinstance(e, z3.BitVecRef):
        if z3.is_bv_value(e):
            return e.as_long()
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
    return e


def normb(e):
    if isinstance(e, z3.BoolRef):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
    return e


def tobool(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return bool(v & 1)
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, z3.BitVecRef):
        return normb(z3.Extract(0, 0, v) == 1)
    if isinstance(v, Undef):
        return z3.Bool(fresh_name('undef'))
    raise Unsupported('bool of %r' % (v,))


def frombool(b):
    if isinstance(b, bool):
        return int(b)
    return b


def zbool(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def add(a, b, w=64):
    if isint(a) and isint(b):
        return (a + b) & mask(w)
    return norm(bv(a, w) + bv(b, w))


def sub(a, b, w=64):
    if isint(a) and isint(b):
        return (a - b) & mask(w)
    return norm(bv(a, w) - bv(b, w))


def mul(a, b, w=64):
    if isint(a) and isint(b):
        return (a * b) & mask(w)
    return norm(bv(a, w) * bv(b, w))


def ult(a, b, w=64):
    if isint(a) and isint(b):
        return a < b
    return normb(z3.ULT(bv(a, w), bv(b, w)))


def ule(a, b, w=64):
    if isint(a) and isint(b):
        return a <= b
    return normb(z3.ULE(bv(a, w), bv(b, w)))


def eq(a, b, w=64):
    if isint(a) and isint(b):
        return a == b
    return normb(bv(a, w) == bv(b, w))


def and_(*xs):
    ys = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def or_(*xs):
    ys = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def not_(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b, w):
    if c is True:
        return a
    if c is False:
        return b
    return norm(z3.If(c, bv(a, w), bv(b, w)))


class Store:
    """contents of one region: exact cells over an optional byte array"""
    __slots__ = ('cells', 'arr')

    def __init__(self, cells=None, arr=None):
        self.cells = cells if cells is not None else {}
        self.arr = arr

    def copy(self):
        return Store(dict(self.cells), self.arr)


class Frame:
    __slots__ = ('fn', 'block', 'prev', 'idx', 'env', 'call', 'visits', 'depth', 'allocas', 'onret')

    def __init__(self, fn, depth):
        self.fn = fn
        self.block = fn.entry
        self.prev = None
        self.idx = 0
        self.env = {}
        self.call = None      # the Instr in the caller
        self.visits = {}
        self.depth = depth
        self.onret = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.block = self.block; f.prev = self.prev; f.idx = self.idx
        f.env = dict(self.env); f.call = self.call; f.visits = dict(self.visits); f.depth = self.depth
        f.onret = self.onret
        return f


class State:
    def __init__(self):
        self.pc = []
        self.q = []          # quantified facts, used in proofs only
        self.mem = {}
        self.frames = []
        self.ghost = {}
        self.mode = 'run'    # run | unwind | done
        self.exc = None
        self.ret = None
        self.trail = ()

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.q = list(self.q)
        s.mem = {k: v.copy() for k, v in self.mem.items()}
        s.frames = [f.copy() for f in self.frames]
        s.ghost = dict(self.ghost)
        s.mode = self.mode
        s.exc = self.exc
        s.ret = self.ret
        s.trail = self.trail
        return s

    def assume(self, c):
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
        self.pc.append(c)

    def new_region(self, name, size, const=False, arr=None, kind='obj'):
        r = Region(name, size, const, kind)
        self.pc.extend(r.axioms())
        self.mem[r] = Store({}, arr)
        return r


class Outcome:
    def __init__(self, kind, value, st):
        self.kind = kind      # 'return' | 'throw'
        self.value = value
        self.st = st


class Ob:
    """aggregated obligation"""
    def __init__(self, name):
        self.name = name
        self.vcs = 0
        self.ok = 0
        self.fail = []
        self.undecided = []
        self.time = 0.0
        self.backends = {}
        self.loopdep = False


HDEBUG = os.environ.get('VERIF_HDEBUG')


class Verifier:
    def __init__(self, mod, timeout_ms=20000):
        self.mod = mod
        self.timeout = timeout_ms
        self.solver = z3.Solver()
        self.solver.set('timeout', 3000)
        self.sstack = []
        self.contracts = {}       # mangled name or demangled regex -> fn
        self.rx = []
        self.dem = {}
        self.obs = {}
        self.silent = 0
        self.max_unroll = 14
        self.cuts = set()
        self.loop_hooks = {}
        self.funcs_seen = set()
        self.contracts_used = {}
        self.nfeas = 0
        self.tfeas = 0.0
        self.cover = 0
        self.globals = {}
        self.deadline = None
        self.witness = None
        self.entry = ''
        self.steps = 0
        self.loops_info = []
        self.custom_cands = []
        self.copy_hook = None
        self.load_hooks = {}        # region -> fn(state, offset): definitional axioms of ghost functions at the bytes read
        self.lean = False        # only the candidates of the task and the simplest automatic ones
        self.no_cands = ()       # ghost variables that get no automatic candidate invariants
        self.rewriting = False
        self.on_back = None
        self.step_check = None
        self.measures = []
        self.psum = None
        self.elen = None
        self._demangle_all()

    # ------------------------------------------------------------------
    def _demangle_all(self):
        names = list(self.mod.fn_src) + list(self.mod.decls)
        clean = [n[1:].strip('"') for n in names]
        out = subprocess.run([CXXFILT], input='\n'.join(clean) + '\n', capture_output=True, text=True).stdout.split('\n')
        for n, d in zip(names, out):
            self.dem[n] = d

    def demangled(self, n):
        return self.dem.get(n, n)

    def contract(self, pat, fn=None):
        """pat: '@mangled' exact or a regex matched (fullmatch) against the demangled name"""
        def reg(f):
            if pat.startswith('@'):
                self.contracts[pat] = f
            else:
                self.rx.append((re.compile(pat), f))
            self._cc = {}
            return f
        return reg(fn) if fn else reg

    _cc = {}

    def_axioms = None

    def find_contract(self, name):
        if name in self._cc:
            return self._cc[name]
        c = self.contracts.get(name)
        if c is None:
            d = self.demangled(name)
            for r, f in reversed(self.rx):
                if r.fullmatch(d):
                    c = f
                    break
        self._cc[name] = c
        return c

    # ---- solver ------------------------------------------------------
    def _sync(self, pc):
        st = self.sstack
        i = 0
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]:
            i += 1
        k = len(st) - i
        if k:
            self.solver.pop(k)
            del st[i:]
        for c in pc[i:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def feasible(self, st, extra=None):
        if extra is False:
            return False
        if extra is True:
            return True
        t = time.time()
        self._sync(st.pc)
        self.nfeas += 1
        if extra is None:
            r = self.solver.check()
        else:
            r = self.solver.check(extra) if z3.is_const(extra) and extra.decl().kind() == z3.Z3_OP_UNINTERPRETED else self._chk(extra)
        self.tfeas += time.time() - t
        self._tick()
        return r != z3.unsat

    def _chk(self, e):
        self.solver.push()
        self.solver.add(e)
        r = self.solver.check()
        self.solver.pop()
        return r

    def _tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget of entry %s exceeded' % self.entry)

    # rewriting with the equations of the path condition: sums of uninterpreted function values defeat bit-blasting
    def rewrite(self, pc, goal):
        """goal' equivalent to goal under pc"""
        if not isinstance(goal, z3.ExprRef) or not self._uf_apps(goal):
            return goal
        consts, apps = [], []
        stack = list(pc)
        while stack:
            c = stack.pop()
            if not isinstance(c, z3.ExprRef):
                continue
            while z3.is_not(c) and z3.is_not(c.arg(0)):
                c = c.arg(0).arg(0)
            if z3.is_and(c):
                stack.extend(c.children())
            elif z3.is_eq(c) and z3.is_bv(c.arg(0)):
                for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not self._occurs(a, b):
                        consts.append((a, b))
                        break
                else:
                    a, b = c.arg(0), c.arg(1)
                    for a, b in ((a, b), (b, a)):
                        if z3.is_app(a) and a.num_args() and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                            apps.append((a, b))
                            break
        done = []
        for a, b in consts:
            for x, y in done:
                a, b = z3.substitute(a, (x, y)), z3.substitute(b, (x, y))
            if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not self._occurs(a, b):
                done.append((a, b))
        sub1 = lambda e: e

        def sub1(e):
            for x, y in done:
                e = z3.substitute(e, (x, y))
            return z3.simplify(e, som=True)
        g = sub1(goal)
        rules = [(sub1(a), sub1(b)) for a, b in apps]
        for _ in range(40):
            g2 = g
            for a, b in rules:
                if a.num_args() and not self._occurs(a, b):
                    g2 = z3.substitute(g2, (a, b))
            g2 = z3.simplify(g2, som=True)
            if g2.eq(g):
                break
            g = g2
        # arguments that are equal under pc although written differently
        ua = {}
        for a in self._uf_apps(g):
            ua.setdefault(a.decl().name(), []).append(a)
        n = 0
        for nm, l in ua.items():
            reps = []
            for a in l:
                for r in reps:
                    if r.decl().eq(a.decl()) and not r.eq(a) and n < 24:
                        n += 1
                        cond = z3.And(*[x == y for x, y in zip(r.children(), a.children())])
                        if not self._refuted(cond) and (self._quick([], cond, 300) or self._quick(self._about(pc, cond), cond, 1000)):
                            g = z3.substitute(g, (a, r))
                            break
                else:
                    reps.append(a)
        return z3.simplify(g, som=True)

    def _about(self, pc, cond):
        """the facts that speak of nothing but the constants of cond, and tautologies over them"""
        vs = self._vars(cond)
        out, stack = [], [c for c in pc if isinstance(c, z3.ExprRef)]
        while stack:
            c = stack.pop()
            if z3.is_and(c):
                stack.extend(c.children())
            elif self._vars(c) <= vs:
                out.append(c)
        return out

    def _vars(self, e):
        k = e.get_id()
        c = self._vcache.get(k)
        if c is not None:
            return c[1]
        out, stack, seen = set(), [e], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
        self._vcache[k] = (e, out)
        return out

    _vcache = {}

    @staticmethod
    def _refuted(cond):
        return z3.is_false(z3.simplify(cond))

    @staticmethod
    def _occurs(a, b):
        stack, seen = [b], set()
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if e.eq(a):
                return True
            stack.extend(e.children())
        return False

    @staticmethod
    def _uf_apps(e):
        out, stack, seen = [], [e], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bv(x):
                out.append(x)
            stack.extend(x.children())
        return out

    def _solve(self, cs, timeout):
        """status, model, backend"""
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*cs)
        r = s.check()
        if r == z3.unsat:
            return 'unsat', None, 'z3'
        if r == z3.sat:
            return 'sat', s.model(), 'z3'
        return 'unknown', None, 'z3'

    def valid(self, st, cond, timeout=None):
        """True / False / None(unknown), model"""
        if cond is True:
            return True, None, 'fold'
        cond = zbool(cond)
        to = timeout or self.timeout
        if self.rewriting:
            c2 = self.rewrite(st.pc, cond)
            if z3.is_true(c2):
                return True, None, 'rewriting'
            if self._quick(self._about(st.pc, c2), c2, 1500):
                return True, None, 'z3'
            if self._quick(st.pc, c2):
                return True, None, 'z3'
        neg = z3.Not(cond)
        r, m, b = self._solve(st.pc + [neg], to)
        if r == 'unsat':
            return True, None, b
        if self.def_axioms:
            ax = self.def_axioms(st.pc + [neg])
            if ax:
                s1 = st.copy()
                s1.pc = s1.pc + ax
                st = s1
                r, m, b = self._solve(st.pc + [neg], to)
                if r == 'unsat':
                    return True, None, b
        if st.q:
            r2, m2, b2 = self._solve(st.pc + st.q + [neg], to)
            if r2 == 'unsat':
                return True, None, b2
            if r2 == 'sat':
                return False, m2, b2
            # quantified facts keep the solver from concluding: the quantifier-free model is a candidate only
            r3 = self._cvc5(st.pc + st.q + [neg], to)
            if r3 == 'unsat':
                return True, None, 'cvc5'
            if r3 == 'sat':
                return False, m, 'cvc5'
            return (None, m, 'z3')
        if r == 'sat':
            return False, m, b
        s = z3.Then('simplify', 'solve-eqs', 'bit-blast', 'sat').solver() if False else None
        r3 = self._cvc5(st.pc + [neg], to)
        if r3 == 'unsat':
            return True, None, 'cvc5'
        if r3 == 'sat':
            return False, None, 'cvc5'
        return None, None, 'z3'

    def _cvc5(self, cs, to):
        try:
            s = z3.Solver()
            s.add(*cs)
            txt = '(set-logic ALL)\n' + s.to_smt2()
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % to], input=txt, capture_output=True, text=True, timeout=to / 1000 + 5)
            o = p.stdout.strip().split('\n')[0] if p.stdout.strip() else ''
            return o if o in ('sat', 'unsat') else 'unknown'
        except Exception:
            return 'unknown'

    def prove(self, st, cond, name, info=None):
        """named proof obligation: pc => cond.  Returns True when discharged."""
        if self.silent:
            if cond is True:
                return True
            return True
        ob = self.obs.get(name)
        if ob is None:
            ob = self.obs[name] = Ob(name)
        ob.vcs += 1
        t = time.time()
        r, m, b = self.valid(st, cond)
        ob.time += time.time() - t
        ob.backends[b] = ob.backends.get(b, 0) + 1
        self._tick()
        if HDEBUG and time.time() - t > 4:
            print('slow', round(time.time() - t, 1), r, name, info, '\n'.join(map(str, st.pc)) + '\n |- ' + str(cond) if HDEBUG == '3' else '')
        if r is True:
            ob.ok += 1
            return True
        if HDEBUG == '4':
            print('FAILED', r, name, info, '\n'.join(map(str, st.pc)) + '\n |- ' + str(cond))
        rec = {'entry': self.entry, 'ob': name, 'where': [f.fn.name for f in st.frames], 'info': info,
               'loopdep': bool(st.ghost.get('#cut'))}
        if m is not None and self.witness:
            try:
                rec['witness'] = self.witness(m, st)
            except Exception as e:      # witness extraction must never hide the failure
                rec['witness_error'] = repr(e)
        if r is False:
            rec['status'] = 'sat'
            if len(ob.fail) < 8:
                ob.fail.append(rec)
        else:
            rec['status'] = 'unknown'
            if len(ob.undecided) < 8:
                ob.undecided.append(rec)
        return False

    # ---- memory ------------------------------------------------------
    def region_of_global(self, st, name):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.fn_src or name in self.mod.decls:
            return FnPtr(name)
        r = self.globals.get(name)
        if r is None:
            d = self.mod.globals.get(name)
            if d is None:
                raise Unsupported('global ' + name)
            r = self._make_global(name, d)
            self.globals[name] = r
        if r not in st.mem:
            st.mem[r] = Store({}, None)
            st.pc.extend(r.axioms())
            if r.table is not None and not r.const:
                for i, b in enumerate(r.table):
                    st.mem[r].cells[i] = (1, b)
        return Ptr(r, 0)

    def _make_global(self, name, d):
        m = self.mod
        toks = ir.tokenize(d)
        p = ir.Parser(m, toks)
        const = False
        external = False
        while True:
            w = p.peek()
            if w in ir.LINK:
                if w == 'constant':
                    const = True
                    p.next()
                    break
                if w == 'global':
                    p.next()
                    break
                if w == 'external':
                    external = True
                p.next()
            elif w == 'thread_local':
                p.next()
                if p.peek() == '(':
                    p.paren()
            else:
                break
        t = p.type()
        size = m.size(t) if m.resolve(t)[0] != 'opaque' else 8
        r = Region(name[1:40], size, const, 'global')
        if external:
            r.table = None
            return r
        try:
            v = p.value(t)
        except (SyntaxError, IndexError):
            r.table = None
            return r
        buf = bytearray(size)
        self._fill(r, buf, 0, t, v)
        r.table = bytes(buf)
        return r

    def _fill(self, r, buf, off, t, v):
        m = self.mod
        t = m.resolve(t)
        k = v[0]
        if k in ('zero', 'undef', 'null'):
            return
        if k == 'const':
            n = m.size(t)
            buf[off:off + n] = (v[1] & mask(8 * n)).to_bytes(n, 'little')
        elif k == 'str':
            buf[off:off + len(v[1])] = v[1]
        elif k == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                o, _ = m.field(t, i)
                self._fill(r, buf, off + o, et, ev)
        elif k in ('global', 'cexpr'):
            r.initptrs[off] = v
        elif k == 'fp':
            n = m.size(t)
            buf[off:off + n] = fpbits(v[1], t).to_bytes(n, 'little')
        else:
            raise Unsupported('global init %r' % (v,))

    def check_access(self, st, p, n, what, write=False):
        """bounds obligation for n bytes at p"""
        if isinstance(p, Undef):
            self.prove(st, False, what + ': pointer is initialised')
            raise Unsupported('undef pointer')
        if isinstance(p, FnPtr):
            raise Unsupported('data access through function pointer')
        if p.reg is None:
            self.prove(st, eq(n, 0), 'memory: no null dereference')
            st.assume(False)
            return False
        size = p.reg.size
        if isint(p.off) and isint(n) and isint(size):
            ok = p.off + n <= size
        else:
            ok = and_(ule(n, size), ule(p.off, sub(size, n)))
        if not isint(n) or n == 0:
            ok = or_(eq(n, 0), ok)
        if ok is not True:
            nm = 'memory: %s stays inside the object' % ('write' if write else 'read')
            if not self.prove(st, ok, nm, info=what):
                pass
            st.assume(ok)
        if write and p.reg.const:
            self.prove(st, False, 'memory: no write to read-only object')
        return True

    def _table_lookup(self, r, off, n):
        tab = r.table
        if n == 1 and not r.initptrs:
            return table_ite(tab, off)
        # multi-byte symbolic lookup
        arr = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
        bs = [table_ite(tab, add(off, i)) for i in range(n)]
        return norm(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def load_bytes(self, st, p, n):
        """list of n byte values (ints/BV8) without bounds obligation"""
        return [self._load_byte(st, p.reg, add(p.off, i)) for i in range(n)]

    def _load_byte(self, st, reg, off):
        s = st.mem.get(reg)
        hook = self.load_hooks.get(reg)
        if hook:
            hook(st, off)
        if s is None:
            raise Unsupported('dead region %r' % reg)
        if isint(off):
            c = s.cells.get(off)
            if c and c[0] == 1:
                return c[1]
            for o in range(max(0, off - 15), off + 1):
                c = s.cells.get(o)
                if c and o + c[0] > off:
                    v = c[1]
                    if isinstance(v, (Ptr, FnPtr)):
                        v = bv(v, 64)
                    k = off - o
                    if isint(v):
                        return (v >> (8 * k)) & 255
                    if isinstance(v, Undef):
                        return fresh(8, 'undef')
                    if isinstance(v, z3.BoolRef):
                        v = bv(v, 8 * c[0])
                    return norm(z3.Extract(8 * k + 7, 8 * k, v))
            if reg.table is not None and reg.const:
                if off < len(reg.table):
                    return reg.table[off]
                return fresh(8, 'oob')
            return norm(z3.Select(self._arr(st, reg), z3.BitVecVal(off, 64)))
        if reg.table is not None and reg.const:
            return table_ite(reg.table, off)
        self.flush(st, reg)
        return norm(z3.Select(self._arr(st, reg), off))

    def _arr(self, st, reg):
        s = st.mem[reg]
        if s.arr is None:
            s.arr = fresh_arr('init_%s' % reg.name)
        return s.arr

    def flush(self, st, reg):
        s = st.mem[reg]
        if not s.cells:
            return
        a = self._arr(st, reg)
        for o, (n, v) in sorted(s.cells.items()):
            if isinstance(v, (Ptr, FnPtr)):
                v = bv(v, 64)
            if isinstance(v, Undef):
                v = fresh(8 * n, 'undef')
            v = bv(v, 8 * n)
            for k in range(n):
                a = z3.Store(a, z3.BitVecVal(o + k, 64), z3.simplify(z3.Extract(8 * k + 7, 8 * k, v)))
        s.cells = {}
        s.arr = a

    def load(self, st, p, t, chk=True):
        m = self.mod
        t = m.resolve(t)
        if t[0] in ('struct', 'arr'):
            el = []
            n = len(t[1]) if t[0] == 'struct' else t[1]
            for i in range(n):
                o, et = m.field(t, i)
                el.append(self.load(st, self.ptradd(p, o), et, chk))
            return Agg(el)
        n = m.size(t) if t[0] != 'i' else (t[1] + 7) // 8
        if chk and not self.check_access(st, p, n, 'load'):
            return UNDEF
        s = st.mem.get(p.reg)
        if s is None:
            raise Unsupported('load from dead region %r' % p.reg)
        if isint(p.off):
            c = s.cells.get(p.off)
            if c and c[0] == n:
                return self._cast_loaded(c[1], t)
            if p.reg.table is not None and p.reg.const and p.off in p.reg.initptrs:
                return self.eval_const(st, p.reg.initptrs[p.off])
        elif p.reg.table is not None and p.reg.const and not p.reg.initptrs:
            return self._cast_loaded(self._table_lookup(p.reg, p.off, n), t)
        elif p.reg.table is not None and p.reg.const and p.reg.initptrs and t == ir.PTR:
            raise Unsupported('symbolic index into pointer table')
        bs = [self._load_byte(st, p.reg, add(p.off, i)) for i in range(n)]
        if all(isint(b) for b in bs):
            v = 0
            for i, b in enumerate(bs):
                v |= b << (8 * i)
        elif n == 1:
            v = bs[0]
        else:
            v = norm(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))
        return self._cast_loaded(v, t)

    def _cast_loaded(self, v, t):
        if t == ir.PTR:
            if isinstance(v, (Ptr, FnPtr)):
                return v
            if isint(v):
                return Ptr(None, v)
            if isinstance(v, Undef):
                return UNDEF
            return Ptr(None, v)
        if t[0] == 'i':
            w = t[1]
            if isinstance(v, (Ptr, FnPtr, Undef)):
                return v
            if w == 1:
                if isint(v):
                    return v & 1
                if isinstance(v, z3.BoolRef):
                    return v
                return frombool(normb(z3.Extract(0, 0, v) == 1))
            if isinstance(v, z3.BoolRef):
                return bv(v, w)
            if not isint(v) and v.size() != w:
                return norm(z3.Extract(w - 1, 0, v))
            if isint(v):
                return v & mask(w)
        return v

    def store(self, st, p, t, v, chk=True):
        m = self.mod
        t = m.resolve(t)
        if t[0] in ('struct', 'arr'):
            n = len(t[1]) if t[0] == 'struct' else t[1]
            for i in range(n):
                o, et = m.field(t, i)
                ev = v.el[i] if isinstance(v, Agg) else UNDEF
                self.store(st, self.ptradd(p, o), et, ev, chk)
            return
        n = m.size(t) if t[0] != 'i' else (t[1] + 7) // 8
        if t[0] == 'i' and t[1] % 8 and not isint(v) and not isinstance(v, Undef):
            v = bv(v, 8 * n) if isinstance(v, z3.BoolRef) else z3.ZeroExt(8 * n - t[1], v)
        if chk and not self.check_access(st, p, n, 'store', True):
            return
        self.poke(st, p, n, v)

    def poke(self, st, p, n, v):
        s = st.mem.get(p.reg)
        if s is None:
            raise Unsupported('store to dead region %r' % p.reg)
        if isint(p.off):
            self._carve(st, p.reg, p.off, n)
            st.mem[p.reg].cells[p.off] = (n, v)
        else:
            self.flush(st, p.reg)
            a = self._arr(st, p.reg)
            v = bv(v, 8 * n)
            for k in range(n):
                b = z3.simplify(z3.Extract(8 * k + 7, 8 * k, v)) if n > 1 else v
                a = z3.Store(a, bv(add(p.off, k), 64), b)
            st.mem[p.reg].arr = a

    def _carve(self, st, reg, off, n):
        s = st.mem[reg]
        for o in range(max(0, off - 15), off + n):
            c = s.cells.get(o)
            if not c:
                continue
            cn, v = c
            if o + cn <= off:
                continue
            if o >= off and o + cn <= off + n:
                del s.cells[o]
                continue
            del s.cells[o]
            if isinstance(v, (Ptr, FnPtr)):
                v = bv(v, 64)
            if isinstance(v, Undef):
                v = fresh(8 * cn, 'undef')
            if isinstance(v, z3.BoolRef):
                v = bv(v, 8 * cn)
            for k in range(cn):
                b = (v >> (8 * k)) & 255 if isint(v) else norm(z3.Extract(8 * k + 7, 8 * k, v))
                s.cells[o + k] = (1, b)
        for o in range(off, off + n):
            c = s.cells.get(o)
            if c and c[0] == 1:
                del s.cells[o]

    def memcpy(self, st, d, s, n, move=False):
        if isinstance(n, int) and n == 0:
            return
        ok1 = self.check_access(st, s, n, 'copy source')
        if not ok1:
            return
        ok2 = self.check_access(st, d, n, 'copy destination', True)
        if not ok2:
            return
        if self.copy_hook and self.copy_hook(self, st, d, s, n):
            return
        if isint(n) and isint(d.off) and isint(s.off) and n <= 4096:
            ss = st.mem[s.reg]
            items = []
            i = 0
            while i < n:
                c = ss.cells.get(s.off + i)
                if c and i + c[0] <= n:
                    items.append((i, c[0], c[1]))
                    i += c[0]
                elif s.reg.table is not None and s.reg.const and (s.off + i) in s.reg.initptrs and i + 8 <= n:
                    items.append((i, 8, self.eval_const(st, s.reg.initptrs[s.off + i])))
                    i += 8
                else:
                    items.append((i, 1, self._load_byte(st, s.reg, s.off + i)))
                    i += 1
            for i, k, v in items:
                self.poke(st, Ptr(d.reg, d.off + i), k, v)
            return
        if isint(n) and n <= 16:
            bs = self.load_bytes(st, s, n)
            for i, b in enumerate(bs):
                self.poke(st, Ptr(d.reg, add(d.off, i)), 1, b)
            return
        if not move and s.reg is d.reg:
            self.prove(st, or_(eq(n, 0), ule(add(s.off, n), d.off), ule(add(d.off, n), s.off)), 'memory: memcpy ranges do not overlap')
        if s.reg.table is not None and s.reg.const:
            src = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
            for i, b in enumerate(s.reg.table):
                src = z3.Store(src, z3.BitVecVal(i, 64), z3.BitVecVal(b, 8))
        else:
            self.flush(st, s.reg)
            src = self._arr(st, s.reg)
        self.flush(st, d.reg)
        old = self._arr(st, d.reg)
        i = z3.BitVec(fresh_name('i'), 64)
        do, so, nn = bv(d.off, 64), bv(s.off, 64), bv(n, 64)
        st.mem[d.reg].arr = z3.Lambda([i], z3.If(z3.ULT(i - do, nn), z3.Select(src, i - do + so), z3.Select(old, i)))

    def ptradd(self, p, o):
        if isinstance(p, Undef):
            raise Unsupported('arithmetic on undef pointer')
        return Ptr(p.reg, add(p.off, o))

    # ---- expression evaluation ------------------------------------------
    def eval_const(self, st, v):
        return self.val(st, None, ir.PTR, v)

    def val(self, st, env, t, v):
        k = v[0]
        if k == 'local':
            return env[v[1]]
        if k == 'const':
            w = self.mod.resolve(t)[1] if t[0] in ('i',) else 64
            return v[1] & mask(w)
        if k == 'global':
            return self.region_of_global(st, v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF if t[0] not in ('struct', 'arr', 'named') else self._undef_agg(t)
        if k == 'zero':
            t = self.mod.resolve(t)
            if t[0] in ('struct', 'arr'):
                n = len(t[1]) if t[0] == 'struct' else t[1]
                return Agg([self.val(st, env, self.mod.field(t, i)[1], ('zero',)) for i in range(n)])
            if t[0] == 'ptr':
                return NULL
            return 0
        if k == 'agg':
            return Agg([self.val(st, env, et, ev) for et, ev in v[1]])
        if k == 'fp':
            return fpbits(v[1], self.mod.resolve(t))
        if k == 'cexpr':
            op = v[1]
            if op == 'gep':
                (pt, pv) = v[3][0]
                return self.gep(st, env, v[2], self.val(st, env, pt, pv), v[3][1:])
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                x = self.val(st, env, v[2], v[3])
                return x
            if op == 'sub':
                a = self.val(st, env, v[2], v[3]); b = self.val(st, env, v[2], v[4])
                return self.binop('sub', a, b, self.mod.resolve(v[2])[1], [], st)
            raise Unsupported('cexpr ' + op)
        if k == 'str':
            return Agg(list(v[1]))
        raise Unsupported('value %r' % (v,))

    def _undef_agg(self, t):
        t = self.mod.resolve(t)
        if t[0] == 'struct':
            return Agg([self._undef_agg(x) if self.mod.resolve(x)[0] in ('struct', 'arr') else UNDEF for x in t[1]])
        if t[0] == 'arr':
            return Agg([UNDEF] * t[1])
        return UNDEF

    def gep(self, st, env, t, p, idx):
        m = self.mod
        if isinstance(p, Undef):
            raise Unsupported('gep on undef')
        if isinstance(p, FnPtr):
            raise Unsupported('gep on function')
        off = p.off
        first = True
        for it, iv in idx:
            i = self.val(st, env, it, iv)
            w = m.resolve(it)[1]
            if isint(i):
                i = sgn(i, w) if w <= 64 else i
            else:
                if isinstance(i, (Ptr, Undef)):
                    i = bv(i, 64)
                if isinstance(i, z3.BoolRef):
                    i = bv(i, w)
                if i.size() < 64:
                    i = z3.SignExt(64 - i.size(), i)
            if first:
                sz = m.size(t)
                first = False
                off = add(off, mul(i & mask(64) if isint(i) else i, sz))
                continue
            rt = m.resolve(t)
            if rt[0] == 'struct':
                o, t = m.field(rt, i)
                off = add(off, o)
            else:
                t = rt[2]
                off = add(off, mul(i & mask(64) if isint(i) else i, m.size(t)))
        return Ptr(p.reg, off)

    def binop(self, op, a, b, w, flags, st):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return fresh(w, 'undef') if w > 1 else z3.Bool(fresh_name('undef'))
        # pointer carrying integers
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg:
                return sub(a.off, b.off)
            if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return Ptr(a.reg, add(a.off, b))
            if op == 'sub' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return Ptr(a.reg, sub(a.off, b))
            a = bv(a, w); b = bv(b, w)
        if w == 1:
            a = tobool(a); b = tobool(b)
            if op == 'and':
                return frombool(normb(and_(a, b)))
            if op == 'or':
                return frombool(normb(or_(a, b)))
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, bool) and isinstance(b, bool):
                    return int(a != b)
                if isinstance(b, bool):
                    return frombool(normb(z3.Not(a))) if b else a
                if isinstance(a, bool):
                    return frombool(normb(z3.Not(b))) if a else b
                return frombool(normb(z3.Xor(a, b)))
            raise Unsupported('i1 ' + op)
        if isint(a) and isint(b):
            M = mask(w)
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sgn(a, w) >> min(b, w - 1)) & M
            if op == 'udiv':
                return a // b if b else 0
            if op == 'urem':
                return a % b if b else 0
            if op == 'sdiv':
                x, y = sgn(a, w), sgn(b, w)
                return (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)) & M
            if op == 'srem':
                x, y = sgn(a, w), sgn(b, w)
                r = abs(x) % abs(y)
                return (-r if x < 0 else r) & M
        x, y = bv(a, w), bv(b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem') and not isint(b):
            self.prove(st, y != 0, 'arithmetic: no division by zero')
        f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
             'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
             'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}.get(op)
        if f is None:
            raise Unsupported('binop ' + op)
        return norm(f())

    def icmp(self, pred, a, b, w, st):
        """returns python bool or BoolRef"""
        if isinstance(a, Undef) or isinstance(b, Undef):
            return z3.Bool(fresh_name('undef'))
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            if pred == 'eq':
                return same
            if pred == 'ne':
                return not same
            raise Unsupported('fnptr compare')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if pred in ('eq', 'ne'):
                    if a.reg is b.reg:
                        e = eq(a.off, b.off)
                    elif a.reg is None or b.reg is None:
                        o = a.off if a.reg is None else b.off
                        if isint(o) and o == 0:
                            e = False
                        else:
                            e = normb(addr(a) == addr(b))
                    else:
                        e = False
                    return e if pred == 'eq' else not_(e)
                if a.reg is b.reg and isint(a.off) and isint(b.off) and a.off < (1 << 40) and b.off < (1 << 40):
                    x, y = a.off, b.off
                    return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
                            'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred]
                if a.reg is b.reg and a.reg is not None and pred[0] == 'u':
                    # addresses inside one object are ordered like their (signed) offsets
                    return self.icmp('s' + pred[1:], a.off, b.off, 64, st)
            a = bv(a, 64); b = bv(b, 64)
            w = 64
        if w == 1:
            a = tobool(a); b = tobool(b)
            if isinstance(a, bool) and isinstance(b, bool):
                e = a == b
            elif isinstance(b, bool):
                e = a if b else z3.Not(a)
            elif isinstance(a, bool):
                e = b if a else z3.Not(b)
            else:
                e = a == b
            if pred == 'eq':
                return e
            if pred == 'ne':
                return not_(e)
            raise Unsupported('i1 cmp')
        if isint(a) and isint(b):
            sa, sb = sgn(a, w), sgn(b, w)
            return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                    'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred]
        x, y = bv(a, w), bv(b, w)
        e = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        return normb(e)

    # ---- exploration ---------------------------------------------------
    def run(self, fname, args, st):
        """explore function fname(args) from st; returns list of Outcome"""
        fn = self.mod.fn(fname)
        if fn is None:
            raise Unsupported('no body for ' + fname)
        self.push(st, fn, args, None)
        base = len(st.frames) - 1
        outs = []
        for s in self.explore([st], lambda s: len(s.frames) <= base):
            if s.mode == 'unwind':
                outs.append(Outcome('throw', s.exc, s))
            else:
                outs.append(Outcome('return', s.ret, s))
        return outs

    def push(self, st, fn, args, call):
        f = Frame(fn, len(st.frames))
        self.funcs_seen.add(fn.name)
        for (n, t), v in zip(fn.params, args):
            f.env[n] = v
        f.call = call
        st.frames.append(f)

    def explore(self, work, stop):
        """depth first; yields the states for which stop(s) holds"""
        work = list(work)
        done = []
        while work:
            s = work.pop()
            while s is not None:
                if stop(s):
                    done.append(s)
                    break
                nxt = self.step(s)
                if nxt is None:
                    break
                if isinstance(nxt, list):
                    if not nxt:
                        break
                    work.extend(reversed(nxt[1:]))
                    s = nxt[0]
                else:
                    s = nxt
        return done

    def fork(self, st, cond):
        """(true state or None, false state or None)"""
        if cond is True:
            return st, None
        if cond is False:
            return None, st
        nc = z3.Not(cond)
        t = self.feasible(st, cond)
        f = self.feasible(st, nc)
        if t and f:
            s2 = st.copy()
            st.pc.append(cond)
            s2.pc.append(nc)
            return st, s2
        if t:
            st.pc.append(cond)
            return st, None
        if f:
            st.pc.append(nc)
            return None, st
        return None, None

    def goto(self, st, target):
        """branch in the top frame; handles phis, unrolling and loop cuts.  Returns state(s)"""
        f = st.frames[-1]
        key = (f.fn.name, target)
        inloop = target in f.fn.loops
        if inloop:
            body = f.fn.loops[target]
            frm = f.block
            entering = frm not in body
            if key in self.cuts:
                stk = st.ghost.get('#loopstack', ())
                if not entering:
                    # back edge of the loop being cut
                    self.take_phis(st, f, target)
                    f.prev = frm
                    f.block = target
                    f.idx = -1      # marker: at header through back edge
                    return st
                self.take_phis(st, f, target)
                f.prev = frm
                f.block = target
                f.idx = 0
                return self.cut_loop(st, key)
            if entering:
                f.visits[target] = 0
            f.visits[target] = f.visits.get(target, 0) + 1
            if f.visits[target] > self.unroll_limit(key):
                raise NeedCut(key)
        self.take_phis(st, f, target)
        f.prev = f.block
        f.block = target
        f.idx = 0
        return st

    def unroll_limit(self, key):
        return self.max_unroll

    def take_phis(self, st, f, target):
        b = f.fn.blocks[target]
        if not b.phis:
            return
        new = {}
        for ph in b.phis:
            for v, frm in ph.a:
                if frm == f.block:
                    new[ph.res] = self.val(st, f.env, ph.ty, v)
                    break
            else:
                raise Unsupported('phi edge %s -> %s' % (f.block, target))
        f.env.update(new)

    def step(self, st):
        if st.mode == 'unwind':
            return self.unwind(st)
        self.steps += 1
        if self.steps % 512 == 0:
            self._tick()
        f = st.frames[-1]
        b = f.fn.blocks[f.block]
        ins = b.ins[f.idx]
        f.idx += 1
        op = ins.op
        env = f.env
        V = lambda t, v: self.val(st, env, t, v)
        if op in ir.BINOPS:
            t = self.mod.resolve(ins.ty)
            if t[0] != 'i':
                raise Unsupported('fp ' + ins.text)
            a, bb, fl = ins.a
            env[ins.res] = self.binop(op, V(t, a), V(t, bb), t[1], fl, st)
            return st
        if op == 'icmp':
            pred, a, bb = ins.a
            t = self.mod.resolve(ins.ty)
            w = t[1] if t[0] == 'i' else 64
            env[ins.res] = frombool(self.icmp(pred, V(t, a), V(t, bb), w, st))
            return st
        if op == 'load':
            env[ins.res] = self.load(st, V(ir.PTR, ins.a), ins.ty)
            return st
        if op == 'store':
            self.store(st, V(ir.PTR, ins.a[1]), ins.ty, V(ins.ty, ins.a[0]))
            return st
        if op == 'getelementptr':
            env[ins.res] = self.gep(st, env, ins.ty, V(ir.PTR, ins.a[0]), ins.a[1])
            return st
        if op in ir.CASTS:
            env[ins.res] = self.cast(op, V(ins.a[0], ins.a[1]), self.mod.resolve(ins.a[0]), self.mod.resolve(ins.ty))
            return st
        if op == 'br':
            c, a, bb = ins.a
            if c is None:
                return self.goto(st, a)
            cond = tobool(V(('i', 1), c))
            s1, s2 = self.fork(st, cond)
            out = []
            for s, tgt in ((s1, a), (s2, bb)):
                if s is not None:
                    r = self.goto(s, tgt)
                    if isinstance(r, list):
                        out.extend(r)
                    elif r is not None:
                        out.append(r)
            return out
        if op == 'switch':
            v, d, cs = ins.a
            x = V(ins.ty, v)
            w = self.mod.resolve(ins.ty)[1]
            if isint(x):
                for c, tgt in cs:
                    if c & mask(w) == x:
                        return self.goto(st, tgt)
                return self.goto(st, d)
            if w == 1:
                x = bv(tobool(x), 1)
            elif isinstance(x, Undef):
                x = fresh(w, 'undef')
            groups = {}
            order = []
            for c, tgt in cs:
                if tgt not in groups:
                    groups[tgt] = []
                    order.append(tgt)
                groups[tgt].append(c & mask(w))
            outs = []
            rest = st
            for tgt in order:
                if tgt == d:
                    continue
                cond = or_(*[x == z3.BitVecVal(c, w) for c in groups[tgt]])
                s1, rest = self.fork(rest, cond)
                if s1 is not None:
                    r = self.goto(s1, tgt)
                    outs.extend(r if isinstance(r, list) else [r])
                if rest is None:
                    break
            if rest is not None:
                r = self.goto(rest, d)
                outs.extend(r if isinstance(r, list) else [r])
            return outs
        if op == 'select':
            c, a, bb = ins.a
            cond = tobool(V(('i', 1), c))
            x, y = V(ins.ty, a), V(ins.ty, bb)
            return self.do_select(st, ins, cond, x, y)
        if op == 'alloca':
            n = V(('i', 64), ins.a)
            if not isint(n):
                raise Unsupported('vla')
            r = Region(ins.res[1:], self.mod.size(ins.ty) * n)
            st.mem[r] = Store({}, None)
            st.pc.extend(r.axioms())
            env[ins.res] = Ptr(r, 0)
            return st
        if op in ('call', 'invoke'):
            return self.call(st, f, ins)
        if op == 'ret':
            v = V(ins.ty, ins.a) if ins.a is not None else None
            return self.do_ret(st, v)
        if op == 'extractvalue':
            v = V(ins.ty, ins.a[0])
            for i in ins.a[1]:
                v = v.el[i]
            env[ins.res] = v
            return st
        if op == 'insertvalue':
            v, t2, e, ix = ins.a
            agg = V(ins.ty, v)
            ev = V(t2, e)
            env[ins.res] = self._insert(agg if isinstance(agg, Agg) else self._undef_agg(ins.ty), ix, ev)
            return st
        if op == 'freeze':
            v = V(ins.ty, ins.a)
            if isinstance(v, Undef):
                t = self.mod.resolve(ins.ty)
                v = fresh(t[1], 'frz') if t[0] == 'i' and t[1] > 1 else (z3.Bool(fresh_name('frz')) if t[0] == 'i' else v)
            env[ins.res] = v
            return st
        if op == 'landingpad':
            env[ins.res] = Agg([Ptr(st.exc['reg'], 0) if st.exc.get('reg') else NULL, st.exc.get('sel', 0)])
            return st
        if op == 'resume':
            st.mode = 'unwind'
            self.pop(st)
            st.trail += ('unwound',)
            return st
        if op == 'unreachable':
            if not st.ghost.get('#noreturn'):
                self.prove(st, False, 'control: no path reaches an unreachable point', info=f.fn.name)
            return None
        raise Unsupported('instruction: ' + ins.text)

    def do_select(self, st, ins, cond, x, y):
        env = st.frames[-1].env
        if isinstance(cond, bool):
            env[ins.res] = x if cond else y
            return st
        t = self.mod.resolve(ins.ty)
        if isinstance(x, (Ptr, FnPtr)) or isinstance(y, (Ptr, FnPtr)) or isinstance(x, Agg):
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.reg is y.reg:
                env[ins.res] = Ptr(x.reg, ite(cond, x.off, y.off, 64))
                return st
            s1, s2 = self.fork(st, cond)
            out = []
            if s1 is not None:
                s1.frames[-1].env[ins.res] = x
                out.append(s1)
            if s2 is not None:
                s2.frames[-1].env[ins.res] = y
                out.append(s2)
            return out
        if isinstance(x, Undef):
            env[ins.res] = y
            return st
        if isinstance(y, Undef):
            env[ins.res] = x
            return st
        w = t[1] if t[0] == 'i' else self.mod.size(t) * 8
        if w == 1:
            a, b = tobool(x), tobool(y)
            env[ins.res] = frombool(normb(z3.If(cond, zbool(a), zbool(b))))
        else:
            env[ins.res] = ite(cond, x, y, w)
        return st

    def _insert(self, agg, ix, v):
        n = Agg(agg.el)
        if len(ix) == 1:
            n.el[ix[0]] = v
        else:
            n.el[ix[0]] = self._insert(n.el[ix[0]], ix[1:], v)
        return n

    def cast(self, op, v, t1, t2):
        if op in ('bitcast', 'addrspacecast'):
            return v
        if op == 'ptrtoint':
            return v
        if op == 'inttoptr':
            if isinstance(v, (Ptr, FnPtr)):
                return v
            if isinstance(v, Undef):
                return v
            return Ptr(None, v)
        if t1[0] != 'i' or t2[0] != 'i':
            f = z3.Function('%s_%s_%s' % (op, '_'.join(map(str, t1)), '_'.join(map(str, t2))),
                            z3.BitVecSort(self.mod.size(t1) * 8 if t1[0] != 'i' else t1[1]),
                            z3.BitVecSort(self.mod.size(t2) * 8 if t2[0] != 'i' else t2[1]))
            return f(bv(v, self.mod.size(t1) * 8 if t1[0] != 'i' else t1[1]))
        w1, w2 = t1[1], t2[1]
        if isinstance(v, Undef):
            return v
        if isinstance(v, (Ptr, FnPtr)):
            if op == 'trunc' and w2 < 64:
                v = bv(v, 64)
            else:
                v = bv(v, w1)
        if w1 == 1:
            b = tobool(v)
            if isinstance(b, bool):
                if op == 'sext':
                    return mask(w2) if b else 0
                return int(b)
            if op == 'sext':
                return z3.If(b, z3.BitVecVal(mask(w2), w2), z3.BitVecVal(0, w2))
            return z3.If(b, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
        if op == 'trunc':
            if isint(v):
                return v & mask(w2)
            if w2 == 1:
                return frombool(normb(z3.Extract(0, 0, v) == 1))
            return norm(z3.Extract(w2 - 1, 0, v))
        if op == 'zext':
            return v if isint(v) else norm(z3.ZeroExt(w2 - w1, v))
        if op == 'sext':
            return sgn(v, w1) & mask(w2) if isint(v) else norm(z3.SignExt(w2 - w1, v))
        raise Unsupported(op)

    def pop(self, st):
        f = st.frames.pop()
        return f

    def do_ret(self, st, v):
        f = self.pop(st)
        if f.onret is not None:
            return f.onret(st, 'return', v)
        if f.call is None:
            st.ret = v
            return st
        return self.after_call(st, f.call, v)

    def after_call(self, st, ins, v):
        f = st.frames[-1]
        if ins.res:
            f.env[ins.res] = v
        if ins.op == 'invoke':
            return self.goto(st, ins.a[2])
        return st

    def unwind(self, st):
        """exception in flight; top frame is the frame whose call instruction threw"""
        f = st.frames[-1] if st.frames else None
        if f is None:
            return st
        b = f.fn.blocks[f.block]
        ins = b.ins[f.idx - 1]
        if ins.op == 'invoke':
            lp = f.fn.blocks[ins.a[3]]
            st.mode = 'run'
            for i in lp.ins:
                if i.op == 'landingpad':
                    if any(c[0] == 'catch' for c in i.a[1]):
                        st.exc = dict(st.exc)
                        st.exc['sel'] = 1
            return self.goto(st, ins.a[3])
        g = self.pop(st)
        if g.onret is not None:
            return g.onret(st, 'throw', st.exc)
        return st

    def throw(self, st, ty, reg=None, **kw):
        st.exc = dict(type=ty, reg=reg, **kw)
        st.mode = 'unwind'
        return st


    # ---- loops -------------------------------------------------------------
    def _ghost_diff(self, a, b):
        if a is b:
            return False
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return not a.eq(b)
        try:
            return not (a == b)
        except Exception:
            return True

    @staticmethod
    def _same(a, b):
        if a is b:
            return True
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.reg is b.reg and Verifier._same(a.off, b.off)
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            return a.name == b.name
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a.eq(b)
        return False

    def _cell(self, st, reg, off, n):
        """value stored at [off, off+n) of reg"""
        c = st.mem[reg].cells.get(off)
        if c and c[0] == n:
            return c[1]
        bs = [self._load_byte(st, reg, off + i) for i in range(n)]
        if all(isint(b) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        return bs[0] if n == 1 else norm(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def _havoc_val(self, v, w, nm, hint=None):
        if isinstance(v, Ptr) or isinstance(hint, Ptr):
            r = v.reg if isinstance(v, Ptr) else hint.reg
            if r is None and isinstance(hint, Ptr):
                r = hint.reg
            return Ptr(r, fresh(64, nm + '.off'))
        if isinstance(v, FnPtr):
            raise Unsupported('loop modifies a function pointer')
        if isinstance(v, (z3.BoolRef, bool)) or w == 1:
            return z3.Bool(fresh_name(nm))
        if isinstance(v, Agg):
            raise Unsupported('loop-carried aggregate')
        return fresh(w, nm)

    def _loop_stop(self, depth, header, body):
        def stop(s):
            n = len(s.frames)
            if n < depth:
                return True
            if n == depth and s.mode == 'run':
                f = s.frames[-1]
                if f.idx == -1 and f.block == header:
                    return True
                if f.block not in body:
                    return True
            return False
        return stop

    def _is_back(self, s, depth, header):
        return len(s.frames) == depth and s.mode == 'run' and s.frames[-1].idx == -1 and s.frames[-1].block == header

    def cut_loop(self, st, key):
        """replace the loop by an inductive invariant; returns the exit states"""
        depth = len(st.frames)
        f0 = st.frames[-1]
        header = key[1]
        body = f0.fn.loops[header]
        hb = f0.fn.blocks[header]
        phis = [(p.res, p.ty) for p in hb.phis]
        widths = {}
        for r, t in phis:
            rt = self.mod.resolve(t)
            widths[r] = rt[1] if rt[0] == 'i' else 64
        cells = {}       # (reg, off, n) -> True
        arrays = set()
        ghosts = set()
        self.loop_no = getattr(self, 'loop_no', 0) + 1
        inst = self.loop_no
        mark = _fresh[0]
        hints = {}
        hook = self.loop_hooks.get(key) or self.loop_hooks.get('*')
        if hook:
            hook(self, st, key, inst)

        def havoc():
            h = st.copy()
            h.ghost['#cut'] = True
            env = h.frames[-1].env
            for r, t in phis:
                env[r] = self._havoc_val(env[r], widths[r], r[1:], hints.get(r))
            for (reg, off, n) in sorted(cells, key=lambda c: (c[0].id, c[1])):
                v = self._cell(h, reg, off, n)
                self._carve(h, reg, off, n)
                h.mem[reg].cells[off] = (n, self._havoc_val(v, 8 * n, 'c_%s_%d' % (reg.name, off), hints.get((reg, off, n))))
            for reg in sorted(arrays, key=lambda r: r.id):
                h.mem[reg].arr = fresh_arr('lp_%s' % reg.name)
                h.mem[reg].cells = {o: c for o, c in h.mem[reg].cells.items() if (reg, o, c[0]) in cells}
            for g in sorted(ghosts, key=lambda g: (isinstance(st.ghost.get(g), Region), str(g))):
                v = st.ghost.get(g)
                if isinstance(v, Region):
                    # contents of a byte sequence: another buffer in every iteration
                    n = h.ghost.get(('seqsize',) + tuple(g[1:]), None)
                    if g[0] != 'seqdata' or n is None:
                        raise Unsupported('loop changes ghost object %s' % (g,))
                    r = h.new_region('seqdata', n)
                    h.ghost[g] = r
                    h.ghost[('src', r.id)] = fresh(64, 'src')
                elif isinstance(v, tuple):
                    h.ghost[g] = v + (('loop', key, inst),)
                elif isinstance(v, (bool, z3.BoolRef)):
                    h.ghost[g] = z3.Bool(fresh_name('g_' + str(g)))
                elif isinstance(v, (int, z3.BitVecRef)):
                    h.ghost[g] = fresh(64 if isint(v) else v.size(), 'g_' + str(g))
                elif isinstance(v, z3.ArrayRef):
                    h.ghost[g] = z3.Const(fresh_name('g_' + str(g)), v.sort())
                else:
                    raise Unsupported('loop changes ghost %s of type %s' % (g, type(v)))
            k = fresh(64, 'k')
            h.ghost[('k', inst)] = k
            h.ghost[('hupos', inst)] = h.ghost.get('upos')
            h.ghost['#inst'] = inst
            for fr in h.frames[-1:]:
                fr.visits = dict(fr.visits)
            return h

        stop = self._loop_stop(depth, header, body)
        self.silent += 1
        saved_hook = None
        try:
            for rnd in range(12):
                h = havoc()
                hf = h.copy()
                if hook:
                    pass
                outs = self.explore([hf], stop)
                backs = [s for s in outs if self._is_back(s, depth, header)]
                if self.on_back:
                    for b in backs:
                        self.on_back(self, h, b, inst)
                changed = False
                for b in backs:
                    benv = b.frames[-1].env
                    for r, t in phis:
                        hv, bvv = h.frames[-1].env[r], benv[r]
                        if isinstance(bvv, Ptr) and (not isinstance(hv, Ptr) or (hv.reg is None and bvv.reg is not None)):
                            if hints.get(r) is None or hints[r].reg is not bvv.reg:
                                if hints.get(r) is not None:
                                    raise Unsupported('loop pointer over several objects')
                                hints[r] = bvv
                                changed = True
                        elif isinstance(hv, Ptr) and isinstance(bvv, Ptr) and hv.reg is not bvv.reg:
                            raise Unsupported('loop pointer over several objects')
                        elif isinstance(bvv, Undef) or isinstance(hv, Ptr) != isinstance(bvv, Ptr):
                            if not isinstance(bvv, Undef):
                                raise Unsupported('loop-carried pointer/int mix in %s' % key[0])
                    for reg, hs in h.mem.items():
                        bs = b.mem.get(reg)
                        if bs is None:
                            continue
                        offs = set((o, c[0]) for o, c in hs.cells.items()) | set((o, c[0]) for o, c in bs.cells.items())
                        for o, n in sorted(offs):
                            if (reg, o, n) in cells:
                                hv = self._cell(h, reg, o, n)
                                bvv = self._cell(b, reg, o, n)
                                if isinstance(bvv, Ptr) and isinstance(hv, Ptr) and bvv.reg is not hv.reg:
                                    if hv.reg is None and hints.get((reg, o, n)) is None:
                                        hints[(reg, o, n)] = bvv
                                        changed = True
                                    else:
                                        raise Unsupported('loop pointer over several objects')
                                continue
                            if (o, n) not in [(oo, c[0]) for oo, c in hs.cells.items()] and hs.arr is None and reg.table is None \
                                    and not isinstance(reg.size, int):
                                pass
                            if o in hs.cells and hs.cells[o][0] == n and o in bs.cells and self._same(hs.cells[o][1], bs.cells[o][1]):
                                continue
                            if bs.arr is not hs.arr and not (bs.arr is not None and hs.arr is not None and bs.arr.eq(hs.arr)) and not bs.cells.get(o):
                                continue        # flushed to the array: handled below
                            # overlapping tracked cell?
                            if any(c[0] is reg and c[1] < o + n and o < c[1] + c[2] for c in cells):
                                for c in [c for c in cells if c[0] is reg and c[1] < o + n and o < c[1] + c[2]]:
                                    del cells[c]
                                arrays.add(reg)
                                changed = True
                                continue
                            hv = self._cell(h, reg, o, n) if (o in hs.cells or hs.arr is not None or reg.table is not None) else None
                            if hv is not None and o in bs.cells and self._same(hv, bs.cells[o][1]):
                                continue
                            cells[(reg, o, n)] = True
                            changed = True
                        if reg not in arrays and bs.arr is not hs.arr and not (hs.arr is not None and bs.arr is not None and bs.arr.eq(hs.arr)):
                            if hs.arr is None and not hs.cells and reg.table is None:
                                # lazily materialised contents of a region never read before: same unknown bytes
                                if self._is_lazy(bs.arr, reg):
                                    st.mem[reg].arr = bs.arr
                                    changed = True
                                    continue
                            arrays.add(reg)
                            for c in [c for c in cells if c[0] is reg]:
                                del cells[c]
                            changed = True
                    for g in set(h.ghost) | set(b.ghost):
                        if isinstance(g, tuple) and g[0] in ('k', 'hupos', 'src') or g in ('#cut', '#inst') or (isinstance(g, str) and g.startswith('#i')):
                            continue
                        if g in ghosts:
                            continue
                        if g not in h.ghost:
                            continue
                        if self._ghost_diff(h.ghost[g], b.ghost.get(g)):
                            ghosts.add(g)
                            changed = True
                if not changed:
                    break
            else:
                raise Unsupported('modified set of loop %s does not stabilise' % (key,))
            # ---- candidates
            init = st.copy()
            init.ghost[('k', inst)] = 0

            def getter(what):
                kind, x = what
                if kind == 'phi':
                    return lambda s: s.frames[depth - 1].env[x]
                if kind == 'cell':
                    return lambda s: self._cell(s, *x)
                if kind == 'k':
                    return lambda s: s.ghost[('k', inst)]
                return lambda s: s.ghost[x]
            ints = []        # (name, width, getter, isptr)
            for r, t in phis:
                v = h.frames[-1].env[r]
                g = getter(('phi', r))
                if isinstance(v, Ptr):
                    ints.append((r, 64, (lambda g: lambda s: g(s).off)(g), v.reg))
                elif isinstance(v, z3.BitVecRef):
                    ints.append((r, v.size(), g, None))
            for c in cells:
                v = self._cell(h, *c)
                g = getter(('cell', c))
                nm = '%s+%d' % (c[0].name, c[1])
                if isinstance(v, Ptr):
                    ints.append((nm, 64, (lambda g: lambda s: g(s).off)(g), v.reg))
                elif isinstance(v, z3.BitVecRef):
                    ints.append((nm, v.size(), g, None))
            for gk in ghosts:
                if isinstance(h.ghost[gk], z3.BitVecRef) and gk not in self.no_cands:
                    ints.append((str(gk), h.ghost[gk].size(), getter(('ghost', gk)), None))
            kg = getter(('k', None))

            def backval(s, g):
                return g(s)
            cands = []
            exact = []       # (names of the integers it determines, name, candidate): tried first
            self.loop_cells = dict(cells)
            self.loop_phis = [r for r, t in phis]
            self.loop_ghosts = set(ghosts)
            self.loop_arrays = set(arrays)
            for cf in self.custom_cands:
                for nm, c in cf(self, st, inst, key) or []:
                    exact.append((nm.split(' = ')[0], nm, c))
            for nm, w, g, reg in ints:
                hv = g(h)
                x0 = g(init)
                if isinstance(x0, Undef):
                    continue
                ds = set()
                for b in backs:
                    d = sub(g(b), hv, w) if not isinstance(g(b), Undef) else None
                    ds.add(d if isint(d) else None)
                if len(ds) == 1 and None not in ds:
                    d = ds.pop()
                    if w <= 64:
                        exact.append((nm, '%s = %s0 + %d*k' % (nm, nm, sgn(d, w)),
                                      (lambda g, x0, d, w: lambda s: eq(g(s), add(x0, mul(self._kw(kg(s), w), d, w), w), w))(g, x0, d, w)))
                if w > 8:
                    cands.append(((nm,), '%s >= %s0' % (nm, nm), (lambda g, x0, w: lambda s: ule(x0, g(s), w))(g, x0, w)))
                    cands.append(((nm,), '%s <= %s0' % (nm, nm), (lambda g, x0, w: lambda s: ule(g(s), x0, w))(g, x0, w)))
                if reg is not None:
                    cands.append(((nm,), 'bound: %s within object' % nm, (lambda g, reg: lambda s: ule(g(s), reg.size))(g, reg)))
                # small constant sets
                cs = set()
                for b in backs:
                    cs |= self._consts(g(b))
                if isint(x0):
                    cs.add(x0)
                if cs and len(cs) <= 10 and None not in cs and all(self._leaf_const(g(b)) or self._same(g(b), hv) for b in backs) and isint(x0):
                    cands.append(((nm,), '%s in %s' % (nm, sorted(cs)), (lambda g, cs, w: lambda s: or_(*[eq(g(s), c, w) for c in cs]))(g, sorted(cs), w)))
            for i in range(len(ints)) if not self.lean else ():
                for j in range(len(ints)):
                    if i == j:
                        continue
                    n1, w1, g1, r1 = ints[i]
                    n2, w2, g2, r2 = ints[j]
                    if w1 != w2 or w1 < 32:
                        continue
                    if isinstance(g1(init), Undef) or isinstance(g2(init), Undef):
                        continue
                    if r1 is r2:
                        cands.append(((n1, n2), '%s <= %s' % (n1, n2), (lambda g1, g2, w: lambda s: ule(g1(s), g2(s), w))(g1, g2, w1)))
                    if i < j:
                        cands.append(((n1, n2), 'd%s = d%s' % (n1, n2), (lambda g1, g2, a, b, w: lambda s: eq(sub(g1(s), a, w), sub(g2(s), b, w), w))(g1, g2, g1(init), g2(init), w1)))
                        cands.append(((n1, n2), 'd%s = -d%s' % (n1, n2), (lambda g1, g2, a, b, w: lambda s: eq(sub(g1(s), a, w), sub(b, g2(s), w), w))(g1, g2, g1(init), g2(init), w1)))
            # bounds taken from comparisons in the loop with loop-invariant operands
            self._loop_mark = mark
            for (w, bexpr, nm) in self._loop_bounds(h, st, f0.fn, body, backs) if not self.lean else ():
                for n1, w1, g1, r1 in ints + [('k', 64, kg, None)]:
                    if w1 != w:
                        continue
                    if isinstance(g1(init), Undef):
                        continue
                    cands.append(((n1,), 'bound: %s <= %s' % (n1, nm), (lambda g, b, w: lambda s: ule(g(s), b, w))(g1, bexpr, w)))
                    if n1 != 'k':
                        cands.append(((n1,), 'bound: %s >= %s' % (n1, nm), (lambda g, b, w: lambda s: ule(b, g(s), w))(g1, bexpr, w)))
            # ---- Houdini
            for b in backs:
                b.ghost[('k', inst)] = add(h.ghost[('k', inst)], 1)

            def entry_holds(cs):
                live = []
                for nm, c in cs:
                    try:
                        e = c(init)
                    except (KeyError, AttributeError, z3.Z3Exception, TypeError):
                        continue
                    if e is True or (e is not False and self._quick(st.pc, e)):
                        live.append((nm, c))
                return live
            # first the equations, with the bounds of the iteration counter; an integer with an equation needs no other relation
            first = entry_holds([(nm, c) for x, nm, c in exact])
            kb = [(nm, c) for x, nm, c in cands if x == ('k',)]
            hh = [(nm, c, c(h)) for nm, c in first + entry_holds(kb)]
            self._houdini(hh, backs)
            known = {x for x, nm, c in exact if any(nm == y for y, _, _ in hh)}
            have = {nm for nm, _, _ in hh}
            second = entry_holds([(nm, c) for x, nm, c in cands if nm not in have and (x == ('k',) or not any(y in known for y in x) or
                                                                                      (len(x) == 1 and 'bound:' in nm))])
            if second:
                hh = hh + [(nm, c, c(h)) for nm, c in second]
                self._houdini(hh, backs)
            live = [(nm, c) for nm, c, e in hh]
        finally:
            self.silent -= 1
        # ---- recorded pass
        h2 = havoc()
        for nm, c in live:
            h2.assume(c(h2))
        for nm, c in live:
            self.prove(st, c(init), 'loop: invariant holds on entry', info='%s: %s' % (key[0], nm))
        start = h2.copy()
        outs = self.explore([start], stop)
        exits = []
        backs = []
        for s in outs:
            if self._is_back(s, depth, header):
                backs.append(s)
            else:
                exits.append(s)
        for s in backs:
            s.ghost[('k', inst)] = add(h2.ghost[('k', inst)], 1)
            if self.on_back:
                self.on_back(self, h2, s, inst)
            inv = [c(s) for nm, c in live]
            if self.lean:
                inv = [e for e in inv if e is not True and not self._quick(self._about(s.pc, zbool(e)), e, 500)]
            inv = and_(*inv)
            self.prove(s, inv, 'loop: invariant preserved', info=key[0])
            if self.step_check:
                self.step_check(self, h2, s, key, inst)
        if not self.silent:
            self.loops_info.append({'function': self.demangled(key[0]), 'header': key[1], 'invariants': [nm for nm, _ in live]})
            if backs:
                self._termination(h2, backs, ints, kg, init, key, live)
        return exits

    def _is_lazy(self, arr, reg):
        return isinstance(arr, z3.ArrayRef) and z3.is_const(arr) and arr.decl().name().startswith('init_')

    def _kw(self, k, w):
        if isint(k):
            return k & mask(w)
        return k if w == 64 else norm(z3.Extract(w - 1, 0, k))

    def _consts(self, v):
        if isint(v):
            return {v}
        if isinstance(v, z3.BitVecRef) and z3.is_app_of(v, z3.Z3_OP_ITE):
            return self._consts(norm(v.arg(1))) | self._consts(norm(v.arg(2)))
        return set()

    def _leaf_const(self, v):
        if isint(v):
            return True
        if isinstance(v, z3.BitVecRef) and z3.is_app_of(v, z3.Z3_OP_ITE):
            return self._leaf_const(norm(v.arg(1))) and self._leaf_const(norm(v.arg(2)))
        return False

    def _loop_bounds(self, h, st, fn, body, backs):
        """loop-invariant operands of comparisons in the loop's own blocks and its callees' scalars"""
        res = []
        seen = set()
        env = st.frames[-1].env

        def addb(v, w, nm):
            if isinstance(v, Ptr):
                v = v.off
                w = 64
            if not isinstance(v, (int, z3.BitVecRef)):
                return
            k = (w, v if isint(v) else v.sexpr()[:200])
            if k in seen or len(res) > 14:
                return
            seen.add(k)
            res.append((w, v, nm))
        for b in body:
            for ins in fn.blocks[b].ins:
                if ins.op == 'icmp':
                    t = self.mod.resolve(ins.ty)
                    w = t[1] if t[0] == 'i' else 64
                    for o in ins.a[1:3]:
                        if o[0] == 'const' and w >= 8:
                            addb(o[1] & mask(w), w, str(o[1]))
                        elif o[0] == 'local' and o[1] in env and not any(p.res == o[1] for p in fn.blocks[b].phis):
                            addb(env[o[1]], w, o[1])
        # values stored in cells that the loop does not change and that feed comparisons
        for bs in backs[:4]:
            new = bs.pc[len(st.pc):]
            for c in new[:12]:
                for t in self._cmp_terms(c):
                    if z3.is_bv_value(t) and t.as_long() >= 4096:
                        continue        # ranges of addresses and sizes
                    if any(x.startswith('base_') for x in self._vars(t)):
                        continue
                    if not self._mentions_fresh(t, h, st):
                        addb(norm(t), t.size(), 'bound')
        return res

    def _cmp_terms(self, c):
        out = []
        stack = [c]
        while stack:
            e = stack.pop()
            if not z3.is_app(e):
                continue
            k = e.decl().kind()
            if k in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR):
                stack.extend(e.children())
            elif k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_EQ, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
                for x in e.children():
                    if z3.is_bv(x):
                        out.append(x)
                if e.num_args() == 2:
                    # x < 20 simplifies to a comparison of the low bits of x
                    for c, x in (e.children(), e.children()[::-1]):
                        if z3.is_bv_value(c) and z3.is_app_of(x, z3.Z3_OP_EXTRACT) and x.params()[1] == 0:
                            out.append(z3.BitVecVal(c.as_long(), x.arg(0).size()))
        return out

    def _mentions_fresh(self, t, h, st):
        names = set()
        stack = [t]
        seen = set()
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(e.decl().name())
            if z3.is_quantifier(e):
                return True
            stack.extend(e.children())
        if not names:
            return False
        lim = self._loop_mark
        for n in names:
            if '!' in n:
                try:
                    if int(n.rsplit('!', 1)[1]) > lim:
                        return True
                except ValueError:
                    return True
        return False

    _loop_mark = 0

    def _quick(self, pc, e, to=2000):
        s = z3.Solver()
        s.set('timeout', to)
        s.add(*pc)
        s.add(z3.Not(zbool(e)))
        return s.check() == z3.unsat

    def _houdini(self, hh, backs):
        while True:
            removed = False
            for b in backs:
                if not hh:
                    return
                s = z3.Solver()
                s.set('timeout', 10000)
                s.add(*b.pc)
                for nm, c, e in hh:
                    if e is not True:
                        s.add(zbool(e))
                # batch: which of the candidates may fail?
                pend = []
                for t in list(hh):
                    try:
                        e = t[1](b)
                    except (KeyError, AttributeError, z3.Z3Exception, TypeError):
                        hh.remove(t)
                        removed = True
                        continue
                    if e is True:
                        continue
                    if self.rewriting:
                        hs = [zbool(x) for _, _, x in hh if x is not True]
                        if z3.is_true(self.rewrite(b.pc + hs, zbool(e))):
                            continue
                    pend.append((t, zbool(e)))
                if self.lean:
                    facts = list(b.pc) + [zbool(x) for _, _, x in hh if x is not True]
                    pend = [(t, e) for t, e in pend if not self._quick(self._about(facts, e), e, 500)]
                while pend:
                    s.push()
                    s.add(z3.Or(*[z3.Not(e) for t, e in pend]))
                    t0 = time.time()
                    r = s.check()
                    if HDEBUG and time.time() - t0 > 2:
                        print('slow houdini', r, round(time.time() - t0, 1), [t[0] for t, e in pend], str([e for t, e in pend]).replace('\n', '')[:int(os.environ.get('VERIF_HLEN', '300'))])
                    if r == z3.unsat:
                        s.pop()
                        break
                    if r == z3.sat:
                        m = s.model()
                        bad = [(t, e) for t, e in pend if not z3.is_true(m.eval(e, model_completion=True))]
                        s.pop()
                        if not bad:
                            bad = pend[:]
                    else:
                        s.pop()
                        bad = []
                        for t, e in pend:
                            s.push()
                            s.add(z3.Not(e))
                            if s.check() != z3.unsat:
                                bad.append((t, e))
                            s.pop()
                        if not bad:
                            break
                    for t, e in bad:
                        if HDEBUG:
                            print('houdini drop', r, t[0], flush=True)
                            if r == z3.unknown and HDEBUG == '2':
                                for x in b.pc:
                                    print('   PC', x)
                                for x in hh:
                                    print('   HH', x[0], x[2])
                                print('   GOAL', e)
                                sys.exit()
                        hh.remove(t)
                        pend.remove((t, e))
                        removed = True
                self._tick()
            if not removed:
                return

    def _termination(self, h, backs, ints, kg, init, key, live):
        """some measure strictly decreases on every iteration (or the iteration counter is bounded)"""
        ms = []
        for nm, w, g, reg in ints:
            if w < 8:
                continue
            ms.append(('%s decreases' % nm, lambda s, g=g: g(s), w, None))
            if reg is not None:
                ms.append(('size - %s decreases' % nm, lambda s, g=g, reg=reg: sub(reg.size, g(s)), 64, None))
            ms.append(('-%s decreases' % nm, lambda s, g=g, w=w: sub(mask(w), g(s), w), w, None))
        for i in range(len(ints)):
            for j in range(len(ints)):
                if i != j and ints[i][1] == ints[j][1] and ints[i][1] >= 32:
                    n1, w, g1, _ = ints[i]
                    n2, _, g2, _ = ints[j]
                    ms.append(('%s - %s decreases' % (n1, n2), lambda s, g1=g1, g2=g2, w=w: sub(g1(s), g2(s), w), w, None))
        name = 'termination: loop has a strictly decreasing measure'
        ob = self.obs.setdefault(name, Ob(name))
        ob.vcs += 1
        t = time.time()
        for nm, g, w, own in ([(nm, fn, 64, True) for nm, fn in self.measures] + ms):
            ok = True
            try:
                for b in backs:
                    if isinstance(g(b), Undef):
                        ok = False
                        break
                    e = ult(g(b), g(h), w)
                    if e is True:
                        continue
                    if e is False or not (self._quick(self._about(b.pc, zbool(e)), e, 500) or self._quick(b.pc, e, *([20000] if own else []))):
                        ok = False
                        break
            except (KeyError, AttributeError, TypeError, z3.Z3Exception):
                ok = False
            if ok:
                ob.ok += 1
                ob.time += time.time() - t
                ob.backends['z3'] = ob.backends.get('z3', 0) + 1
                return
        ob.time += time.time() - t
        rec = {'entry': self.entry, 'ob': name, 'where': [key[0]], 'info': 'no measure found', 'status': 'unknown', 'loopdep': True}
        ob.undecided.append(rec)

    # ---- calls -------------------------------------------------------------
    def call(self, st, f, ins):
        callee, args, normal, unw = ins.a
        if callee[0] == 'global':
            name = self.mod.aliases.get(callee[1], callee[1])
        else:
            fp = self.val(st, f.env, ir.PTR, callee)
            if not isinstance(fp, FnPtr):
                raise Unsupported('indirect call to %r in %s' % (fp, f.fn.name))
            name = fp.name
        if name.startswith('@llvm.'):
            r = self.intrinsic(st, f, ins, name, args)
            return r
        av = [self.val(st, f.env, t, v) for t, v in args]
        return self.call_named(st, ins, name, av)

    def call_named(self, st, ins, name, av):
        c = self.find_contract(name)
        if c is not None:
            r = c(self, st, av, ins)
            if r is not NotImplemented:
                d = self.demangled(name)
                self.contracts_used[d] = self.contracts_used.get(d, 0) + 1
                return self.deliver(ins, r)
        fn = self.mod.fn(name)
        if fn is None:
            raise Unsupported('no contract for external function %s' % self.demangled(name))
        if sum(1 for fr in st.frames if fr.fn is fn) >= 2:
            raise Unsupported('recursion into %s without contract' % self.demangled(name))
        self.push(st, fn, av, ins)
        return st

    def deliver(self, ins, r):
        """contract result: list of (state, value) / (state, 'throw')"""
        out = []
        for s, v in r:
            if s is None:
                continue
            if s.mode == 'unwind':
                out.append(s)
            elif v is DIVERGE:
                continue
            else:
                q = self.after_call(s, ins, v)
                if isinstance(q, list):
                    out.extend(q)
                else:
                    out.append(q)
        return out

    def intrinsic(self, st, f, ins, name, args):
        env = f.env
        V = lambda i: self.val(st, env, args[i][0], args[i][1])
        R = None
        base = name[6:]
        if base.startswith(('lifetime.', 'dbg.', 'experimental.noalias', 'assume', 'donothing', 'invariant', 'prefetch', 'stackrestore', 'va_')):
            R = None
        elif base.startswith('expect'):
            R = V(0)
        elif base.startswith('ubsantrap') or base.startswith('trap'):
            code = V(0) if args else 0
            nm = {0: 'signed add overflow', 4: 'alignment', 20: 'shift out of range', 21: 'signed sub overflow', 12: 'signed mul overflow',
                  13: 'negate overflow', 3: 'division by zero', 18: 'array index out of bounds', 1: '__builtin_unreachable',
                  10: 'missing return', 8: 'invalid load'}.get(code, 'check %s' % code)
            self.prove(st, False, 'UB: no %s' % nm if code else 'UB: no signed overflow', info=f.fn.name)
            return None
        elif base.startswith('memcpy') or base.startswith('memmove'):
            self.memcpy(st, V(0), V(1), V(2), base.startswith('memmove'))
        elif base.startswith('memset'):
            d, v, n = V(0), V(1), V(2)
            if isint(n) and n == 0:
                return st
            if self.check_access(st, d, n, 'memset', True):
                if isint(n) and n <= 4096 and isint(d.off):
                    if n % 8 == 0 and isint(v):
                        w = int.from_bytes(bytes([v & 255]) * 8, 'little')
                        for i in range(0, n, 8):
                            self.poke(st, self.ptradd(d, i), 8, w)
                    else:
                        for i in range(n):
                            self.poke(st, self.ptradd(d, i), 1, v)
                else:
                    self.flush(st, d.reg)
                    old = self._arr(st, d.reg)
                    i = z3.BitVec(fresh_name('i'), 64)
                    st.mem[d.reg].arr = z3.Lambda([i], z3.If(z3.ULT(i - bv(d.off, 64), bv(n, 64)), bv(v, 8), z3.Select(old, i)))
        elif base.startswith(('umin', 'umax', 'smin', 'smax')):
            w = self.mod.resolve(args[0][0])[1]
            a, b = V(0), V(1)
            p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[base[:4]]
            R = ite(self.icmp(p, a, b, w, st), a, b, w)
        elif base.startswith(('sadd.with', 'ssub.with', 'smul.with', 'uadd.with', 'usub.with', 'umul.with')):
            w = self.mod.resolve(args[0][0])[1]
            a, b = V(0), V(1)
            k = base[1:4]
            sg = base[0] == 's'
            r = self.binop(k, a, b, w, [], st)
            if isint(a) and isint(b):
                x, y = (sgn(a, w), sgn(b, w)) if sg else (a, b)
                z = {'add': x + y, 'sub': x - y, 'mul': x * y}[k]
                o = z != (sgn(r, w) if sg else r)
            else:
                x, y = bv(a, w), bv(b, w)
                if sg:
                    o = {'add': lambda: z3.Not(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))),
                         'sub': lambda: z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))),
                         'mul': lambda: z3.Not(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))}[k]()
                else:
                    o = {'add': lambda: z3.Not(z3.BVAddNoOverflow(x, y, False)), 'sub': lambda: z3.Not(z3.BVSubNoUnderflow(x, y, False)),
                         'mul': lambda: z3.Not(z3.BVMulNoOverflow(x, y, False))}[k]()
                o = normb(o)
            R = Agg([r, frombool(o)])
        elif base.startswith('is.constant'):
            R = 0
        elif base.startswith('objectsize'):
            R = mask(64)
        elif base.startswith('eh.typeid.for'):
            R = 1
        elif base.startswith('stacksave'):
            R = NULL
        elif base.startswith('abs.'):
            w = self.mod.resolve(args[0][0])[1]
            a = V(0)
            R = ite(self.icmp('slt', a, 0, w, st), sub(0, a, w), a, w)
        elif base.startswith('bswap'):
            w = self.mod.resolve(args[0][0])[1]
            a = V(0)
            if isint(a):
                R = int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
            else:
                R = z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(w // 8)])
        else:
            raise Unsupported('intrinsic ' + name)
        if ins.res:
            env[ins.res] = R
        return st


DIVERGE = object()


def fpbits(txt, t):
    import struct
    if txt.startswith('0x'):
        if t[0] in ('float', 'double'):
            d = int(txt, 16)
            if t[0] == 'float':
                x = struct.unpack('<d', d.to_bytes(8, 'little'))[0]
                return struct.unpack('<I', struct.pack('<f', x))[0]
            return d
        return 0
    x = float(txt)
    return struct.unpack('<I', struct.pack('<f', x))[0] if t[0] == 'float' else struct.unpack('<Q', struct.pack('<d', x))[0]


_tabcache = {}


def table_runs(tab):
    """maximal runs v[i] = v0 + s*(i-i0), s in {0,1}"""
    runs = []
    i = 0
    n = len(tab)
    while i < n:
        j0 = i + 1
        while j0 < n and tab[j0] == tab[i]:
            j0 += 1
        j1 = i + 1
        while j1 < n and tab[j1] == (tab[i] + j1 - i) & 255:
            j1 += 1
        if j1 > j0 and j1 - i > 1:
            runs.append((i, j1, tab[i], 1))
            i = j1
        else:
            runs.append((i, j0, tab[i], 0))
            i = j0
    return runs


def table_ite(tab, off):
    if isint(off):
        return tab[off] if off < len(tab) else fresh(8, 'oob')
    runs = _tabcache.get(tab)
    if runs is None:
        runs = _tabcache[tab] = table_runs(tab)

    def leaf(r):
        i0, i1, v, s = r
        if s == 0:
            return z3.BitVecVal(v, 8)
        return z3.BitVecVal((v - i0) & 255, 8) + z3.Extract(7, 0, off)

    def build(lo, hi):
        if hi - lo == 1:
            return leaf(runs[lo])
        mid = (lo + hi) // 2
        return z3.If(z3.ULT(off, runs[mid][0]), build(lo, mid), build(mid, hi))
    return norm(build(0, len(runs)))
