"""Verification-condition generator: symbolic execution, with contracts, of LLVM IR
compiled from the real sources.  Object based memory, bit-precise integers, every load /
store / copy bounds-checked, C++ exceptions and virtual dispatch modelled.

A run explores every feasible path of a harness function; each `__v_check` and each implicit
safety condition (memory access, use after free, division, terminate, trap) on each path is an
obligation `path condition => condition` that is sent to the SMT solver, with no bound on the
values.  Calls to functions under contract are replaced by their contract (see `contracts`)."""
import re
import sys
import time
import z3
import irparse
from irparse import IRError

sys.setrecursionlimit(20000)

BASE_SHIFT = 40
BASE_SHIFT_HI = 64 - BASE_SHIFT
TAG = re.compile(r'([A-Z][0-9]{2,3}(?:,[A-Z][0-9]{2,3})*): ')
MASK64 = (1 << 64) - 1
REPO_VAR = re.compile(r'_Z(ZNK?|N|L)3app|_ZNK?12_GLOBAL__N_13app')


class VerifError(Exception):
    """the engine cannot go on (unsupported construct, resource limit): never a violation"""


class PathEnd(Exception):
    pass


class Ptr:
    __slots__ = ('o', 'off', 'lo', 'hi')

    def __init__(self, o, off, lo=None, hi=None):
        self.o = o
        self.off = off
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.o, self.off)


NULL = Ptr(0, 0)


class Undef:
    __slots__ = ()


UNDEF = Undef()


def is_c(v):
    return v.__class__ is int


def bv(v, n):
    if v.__class__ is int:
        return z3.BitVecVal(v, n)
    return v


def mask(n):
    return (1 << n) - 1


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def b2z(v):
    """i1 value -> z3 Bool / python bool"""
    if v.__class__ is int:
        return z3.BoolVal(bool(v))
    return v


_simp = z3.simplify


def simp(e):
    if e.__class__ is int:
        return e
    r = _simp(e)
    if z3.is_bv_value(r):
        return r.as_long()
    if z3.is_true(r):
        return 1
    if z3.is_false(r):
        return 0
    return r


# ------------------------------------------------------------------ memory
class Obj:
    __slots__ = ('id', 'size', 'kind', 'name', 'layers', 'owner', 'ro', 'freed')

    def clone(self, owner):
        o = Obj()
        o.id = self.id
        o.size = self.size
        o.kind = self.kind
        o.name = self.name
        o.ro = self.ro
        o.freed = self.freed
        l = self.layers
        o.layers = l[:-1] + [dict(l[-1])]
        o.owner = owner
        return o

    def freeze(self):
        """immutable snapshot of the layers"""
        if self.layers[-1]:
            self.layers.append({})
        return tuple(self.layers[:-1])


class Frame:
    __slots__ = ('fn', 'label', 'prev', 'ins', 'ip', 'regs', 'allocas', 'ret_to', 'loopcnt', 'stub')

    def clone(self):
        f = Frame()
        f.fn = self.fn
        f.label = self.label
        f.prev = self.prev
        f.ins = self.ins
        f.ip = self.ip
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.ret_to = self.ret_to
        f.loopcnt = dict(self.loopcnt)
        f.stub = self.stub
        return f


class State:
    __slots__ = ('frames', 'objs', 'pc', 'model', 'nondets', 'dec', 'sid', 'nextobj', 'caught', 'curexc', 'steps',
                 'depth', 'tags', 'trace', 'traced')
    counter = 0

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.objs = dict(self.objs)
        s.pc = list(self.pc)
        s.model = self.model
        s.nondets = list(self.nondets)
        s.dec = dict(self.dec)
        State.counter += 1
        s.sid = State.counter
        # both copies lose ownership
        State.counter += 1
        self.sid = State.counter
        s.nextobj = self.nextobj
        s.caught = list(self.caught)
        s.curexc = self.curexc
        s.steps = self.steps
        s.depth = self.depth
        s.tags = dict(self.tags)
        s.trace = None if self.trace is None else list(self.trace)
        s.traced = self.traced
        return s


STD_BASES = {
    '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
    '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt11logic_error': '_ZTISt9exception',
    '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt9bad_alloc': '_ZTISt9exception',
    '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt17bad_function_call': '_ZTISt9exception',
    '_ZTISt18bad_variant_access': '_ZTISt9exception', '_ZTISt19bad_optional_access': '_ZTISt9exception',
    '_ZTISt8bad_cast': '_ZTISt9exception', '_ZTISt12system_error': '_ZTISt13runtime_error',
    '_ZTISt12domain_error': '_ZTISt11logic_error',
}
THROWERS = {
    '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error',
    '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error',
    '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
    '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range',
    '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument',
    '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc',
    '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length',
    '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call',
    '_ZSt21__throw_runtime_errorPKc': '_ZTISt13runtime_error',
    '_ZSt20__throw_system_errori': '_ZTISt12system_error',
    '_ZSt26__throw_bad_variant_accessPKc': '_ZTISt18bad_variant_access',
    '_ZSt27__throw_bad_optional_accessv': '_ZTISt19bad_optional_access',
}


class Result:
    def __init__(self):
        self.obl = {}          # name -> [checked, discharged_by_solver, discharged_trivially]
        self.violations = []   # dicts
        self.paths = 0
        self.covers = {}
        self.solver_s = 0.0
        self.queries = 0
        self.unknown = []
        self.instrs = 0
        self.funcs = set()
        self.replaced = {}
        self.externs = {}
        self.notes = set()
        self.wall = 0.0
        self.bounded = []
        self.cuts = {}
        self.loops = {}        # function -> number of loops decided by an invariant


class Engine:
    def __init__(self, mod, entry, contracts=None, max_violations=4, step_limit=4000000, time_limit=600.0,
                 loop_limit=4200, timeout_ms=60000, concrete=None, demangle=None, loops=24, seed=0):
        self.m = mod
        self.entry = entry
        self.pid = None
        self.contracts = contracts or {}
        self.res = Result()
        self.gobj = {}
        self.fobj = {}
        self.fname = {}
        self.max_violations = max_violations
        self.step_limit = step_limit
        self.time_limit = time_limit
        self.loop_limit = loop_limit
        self.timeout_ms = timeout_ms
        self.concrete = concrete
        self.demangle = demangle or (lambda s: s)
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.sstack = []
        self.fresh = 0
        self.tyids = {}
        self.seen_viol = set()
        self.handlers = {
            'load': self.op_load, 'store': self.op_store, 'gep': self.op_gep, 'alloca': self.op_alloca,
            'br': self.op_br, 'condbr': self.op_condbr, 'switch': self.op_switch, 'ret': self.op_ret,
            'unreachable': self.op_unreachable, 'icmp': self.op_icmp, 'fcmp': self.op_fcmp,
            'select': self.op_select, 'call': self.op_call, 'invoke': self.op_call,
            'extractvalue': self.op_extractvalue, 'insertvalue': self.op_insertvalue,
            'landingpad': self.op_landingpad, 'resume': self.op_resume, 'freeze': self.op_freeze,
            'cmpxchg': self.op_cmpxchg, 'atomicrmw': self.op_atomicrmw, 'fneg': self.op_fneg,
        }
        for b in irparse.BIN:
            self.handlers[b] = self.op_fbin if b[0] == 'f' else self.op_bin
        for c in irparse.CASTS:
            self.handlers[c] = self.op_cast
        import extmodel
        self.ext = extmodel.table(self)
        self.extprefix = extmodel.prefixes(self)
        self.mode = 0
        self.assumed = set()
        self.loops = None
        if loops and loops != '0':
            import loopinv
            self.loopinv = loopinv
            self.loops = loopinv.LoopManager(self, loops)

    # -------------------------------------------------------------- solver
    def sync(self, st):
        pc = st.pc
        ss = self.sstack
        i = 0
        n = min(len(pc), len(ss))
        while i < n and pc[i] is ss[i]:
            i += 1
        if len(ss) > i:
            self.solver.pop(len(ss) - i)
            del ss[i:]
        while i < len(pc):
            self.solver.push()
            self.solver.add(pc[i])
            ss.append(pc[i])
            i += 1

    def query(self, st, extra):
        """returns 'sat'/'unsat'/'unknown', model"""
        self.sync(st)
        t = time.time()
        self.res.queries += 1
        r = self.solver.check(extra)
        mdl = None
        if r == z3.sat:
            mdl = self.solver.model()
            out = 'sat'
        elif r == z3.unsat:
            out = 'unsat'
        else:
            out, mdl = self.hard_query(st, extra)
        self.res.solver_s += time.time() - t
        return out, mdl

    def hard_query(self, st, extra):
        for tac in ('qfaufbv', 'smt'):
            try:
                s = z3.Tactic(tac).solver() if tac != 'smt' else z3.SimpleSolver()
                s.set('timeout', self.timeout_ms)
                for c in st.pc:
                    s.add(c)
                s.add(extra)
                r = s.check()
                if r == z3.sat:
                    return 'sat', s.model()
                if r == z3.unsat:
                    return 'unsat', None
            except z3.Z3Exception:
                pass
        return 'unknown', None

    def meval(self, st, cond):
        if st.model is None:
            return None
        r = st.model.eval(cond, model_completion=True)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return None

    def add(self, st, cond):
        st.pc.append(cond)

    def decide(self, st, cond):
        """branch on an i1 value; forks when both sides are feasible"""
        if cond.__class__ is int:
            return bool(cond)
        cond = simp(cond)
        if cond.__class__ is int:
            return bool(cond)
        k = cond.get_id()
        d = st.dec.get(k)
        if d is not None:
            return d[1]
        mv = self.meval(st, cond)
        if mv is None:
            r, mdl = self.query(st, cond)
            if r == 'unsat':
                st.dec[k] = (cond, False)
                return False
            mv = True
            if r == 'sat':
                st.model = mdl
            else:
                if self.mode:
                    raise self.loopinv.Reject('branch')
                self.res.unknown.append('branch')
                st.model = None
        other = z3.Not(cond) if mv else cond
        r, mdl = self.query(st, other)
        if r == 'unsat':
            st.dec[k] = (cond, mv)
            return mv
        if r == 'unknown':
            if self.mode:
                raise self.loopinv.Reject('branch')
            self.res.unknown.append('branch')
        c = st.clone()
        c.model = mdl
        c.dec[k] = (cond, not mv)
        c.pc.append(other)
        self.work.append(c)
        st.pc.append(cond if mv else z3.Not(cond))
        st.dec[k] = (cond, mv)
        return mv

    def assume(self, st, cond):
        if cond.__class__ is int:
            if not cond:
                raise PathEnd()
            return
        cond = simp(cond)
        if cond.__class__ is int:
            if not cond:
                raise PathEnd()
            return
        if self.meval(st, cond) is not True:
            r, mdl = self.query(st, cond)
            if r == 'unsat':
                raise PathEnd()
            st.model = mdl
        st.pc.append(cond)

    def where(self, st):
        fr = st.frames[-1]
        ins = fr.ins[fr.ip] if fr.ip < len(fr.ins) else None
        ln = self.m.dbglines.get(ins.line) if ins is not None and ins.line is not None else None
        return '%s:%s' % (self.demangle(fr.fn.name), ln)

    def stack(self, st):
        out = []
        for fr in reversed(st.frames):
            ins = fr.ins[fr.ip] if fr.ip < len(fr.ins) else None
            ln = self.m.dbglines.get(ins.line) if ins is not None and ins.line is not None else None
            out.append('%s:%s' % (self.demangle(fr.fn.name), ln))
        return out

    def check(self, st, cond, name):
        """obligation: on this path, cond holds.  Afterwards cond is assumed."""
        if self.pid is not None and name[:1].isupper():
            mt = TAG.match(name)
            if mt is not None and self.pid not in mt.group(1).split(','):
                # an obligation of another property, decided by that property's check
                self.assume(st, cond)
                return
        if self.mode == 1:
            # looking for a loop invariant: nothing is decided here
            n = len(st.pc)
            self.assume(st, cond)
            for c in st.pc[n:]:
                self.assumed.add(c.get_id())
            return
        o = self.res.obl.get(name)
        if o is None:
            o = self.res.obl[name] = [0, 0, 0]
        o[0] += 1
        if cond.__class__ is not int:
            cond = simp(cond)
        if cond.__class__ is int:
            if cond:
                o[2] += 1
                return
            if self.mode:
                o[0] -= 1
                raise self.loopinv.Reject('obligation: ' + name)
            self.violate(st, name, st.model)
            raise PathEnd()
        k = cond.get_id()
        d = st.dec.get(k)
        if d is not None and d[1]:
            o[1] += 1
            return
        neg = z3.Not(cond)
        r, mdl = self.query(st, neg)
        if r == 'unsat':
            o[1] += 1
            st.dec[k] = (cond, True)
            return
        if self.mode:
            o[0] -= 1
            raise self.loopinv.Reject('obligation: ' + name)
        if r == 'unknown':
            self.res.unknown.append(name)
            st.pc.append(cond)
            st.model = None
            return
        self.violate(st, name, mdl)
        # continue on the side where it holds
        self.assume(st, cond)
        st.dec[k] = (cond, True)

    def fail(self, st, name):
        self.check(st, 0, name)

    def violate(self, st, name, mdl):
        stack = self.stack(st)
        key = (name, stack[0])
        self.res.obl[name].append(1)
        if mdl is None:
            self.sync(st)
            if self.solver.check() == z3.sat:
                mdl = self.solver.model()
            else:
                r, mdl = self.hard_query(st, z3.BoolVal(True))
                if r == 'unsat':
                    raise PathEnd()
        if key in self.seen_viol and sum(1 for v in self.res.violations if v['key'] == key) >= 2:
            return
        self.seen_viol.add(key)
        vals = []
        nm = []
        for nd in st.nondets:
            if nd[0] == 's':
                _, nme, bits, var = nd
                v = mdl.eval(var, model_completion=True).as_long() if mdl is not None else 0
                vals.append(('s', nme, bits, v))
            else:
                _, nme, cnt, arr = nd
                n = cnt
                if not is_c(n):
                    n = mdl.eval(n, model_completion=True).as_long() if mdl is not None else 0
                bs = []
                for i in range(n):
                    b = mdl.eval(z3.Select(arr, z3.BitVecVal(i, 64)), model_completion=True) if mdl is not None else None
                    bs.append(b.as_long() if b is not None else 0)
                vals.append(('b', nme, n, bs))
        self.res.violations.append({'obligation': name, 'stack': stack, 'values': vals, 'key': key,
                                    'where': self.where(st)})
        if len(self.res.violations) >= self.max_violations:
            raise StopIteration()

    # -------------------------------------------------------------- objects
    def newobj(self, st, size, kind, name='', init=None, ro=False):
        o = Obj()
        o.id = st.nextobj
        st.nextobj += 1
        o.size = size
        o.kind = kind
        o.name = name
        o.ro = ro
        o.freed = False
        o.owner = st.sid
        o.layers = [init if init is not None else ('undef', o.id), {}]
        st.objs[o.id] = o
        return o

    def wobj(self, st, oid):
        if st.trace is not None:
            st.trace.append(('w', oid))
        o = st.objs[oid]
        if o.owner != st.sid:
            o = o.clone(st.sid)
            st.objs[oid] = o
        return o

    def funcptr(self, name):
        i = self.fobj.get(name)
        if i is None:
            i = (1 << 20) + len(self.fobj)
            self.fobj[name] = i
            self.fname[i] = name
        return Ptr(i, 0)

    def addr(self, p):
        """numeric address of a pointer"""
        if p.__class__ is not Ptr:
            return p
        if p.o == 0 or p.o == -1:
            return p.off
        base = p.o << BASE_SHIFT
        if is_c(p.off):
            return (base + p.off) & MASK64
        return z3.BitVecVal(base, 64) + p.off

    def toptr(self, v):
        if v.__class__ is Ptr:
            return v
        if v is UNDEF:
            return Ptr(-1, self.freshbv(64, 'undefptr'))
        if is_c(v):
            o = v >> BASE_SHIFT
            if o == 0:
                return Ptr(0, v)
            return Ptr(o, v & ((1 << BASE_SHIFT) - 1))
        return Ptr(-1, v)

    def freshbv(self, n, name='u'):
        self.fresh += 1
        if n == 1:
            return z3.Bool('%s!%d' % (name, self.fresh))
        return z3.BitVec('%s!%d' % (name, self.fresh), n)

    def global_ptr(self, st, name):
        if name in self.m.funcs:
            return self.funcptr(name)
        al = self.m.aliases.get(name)
        if al is not None:
            return self.const(st, irparse.PTR, al)
        oid = self.gobj.get(name)
        if oid is None:
            g = self.m.globals.get(name)
            if g is None:
                raise VerifError('unknown global ' + name)
            # globals created before the run; see init_globals
            raise VerifError('global not laid out ' + name)
        return Ptr(oid, 0)

    def init_globals(self, st):
        for name, g in self.m.globals.items():
            try:
                sz = g.ty.size()
            except IRError:
                sz = 8
            o = self.newobj(st, sz, 'global', name, ('zero',) if not g.extern else None, ro=False)
            self.gobj[name] = o.id
        for name, g in self.m.globals.items():
            if g.init is not None and g.init != ('zero',):
                if name.startswith('llvm.') or name.startswith('__const') and False:
                    continue
                self.write_const(st, st.objs[self.gobj[name]], 0, g.ty, g.init)
        for name, g in self.m.globals.items():
            if g.const:
                st.objs[self.gobj[name]].ro = True
            elif REPO_VAR.match(name) and not g.extern and self.plain(g.ty):
                # a variable with static storage in the code under verification holds anything
                # between two operations (its initial value is only its first)
                o = st.objs[self.gobj[name]]
                for k in range(o.size):
                    self.put(o, k, 1, self.freshbv(8, 'static'))
                self.res.notes.add('static variable %s starts with any value' % name)

    def plain(self, ty):
        ty = ty.res()
        if ty.k == 'array':
            return self.plain(ty.el) and ty.size() <= 4096
        return ty.k == 'int'

    def write_const(self, st, o, off, ty, c):
        ty = ty.res()
        if c == ('zero',) or c == ('undef',):
            return
        if ty.k == 'array':
            if c[0] == 'str':
                for i, b in enumerate(c[1]):
                    o.layers[-1][off + i] = (b, 0, 1)
                return
            es = ty.el.size()
            for i, (t, e) in enumerate(c[1]):
                self.write_const(st, o, off + i * es, t, e)
            return
        if ty.k == 'struct':
            offs = ty.offs()
            for i, (t, e) in enumerate(c[1]):
                self.write_const(st, o, off + offs[i], t, e)
            return
        v = self.const(st, ty, c)
        self.put(o, off, ty.size(), v)

    def put(self, o, off, n, v):
        d = o.layers[-1]
        if n == 1:
            d[off] = (v, 0, 1)
        else:
            for k in range(n):
                d[off + k] = (v, k, n)

    def const(self, st, ty, c):
        if c.__class__ is int:
            return c
        k = c[0]
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(st, c[1])
        if k == 'undef':
            t = ty.res()
            if t.k == 'struct':
                return [self.const(st, f, c) for f in t.fields]
            if t.k == 'array':
                return [self.const(st, t.el, c) for _ in range(t.n)]
            return UNDEF
        if k == 'zero':
            t = ty.res()
            if t.k == 'struct':
                return [self.const(st, f, c) for f in t.fields]
            if t.k in ('array', 'vec'):
                return [self.const(st, t.el, c) for _ in range(t.n)]
            if t.k == 'ptr':
                return NULL
            return 0
        if k == 'gep':
            base = self.const(st, irparse.PTR, c[2])
            idx = [(t, self.const(st, t, v)) for t, v in c[3]]
            return self.gep(st, c[1], base, idx)
        if k == 'cast':
            v = self.const(st, c[2], c[3])
            if c[1] in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
                return v
            return self.cast(st, c[1], c[2], v, c[4])
        if k == 'bin':
            a = self.const(st, c[2], c[3])
            b = self.const(st, c[2], c[4])
            return self.binop(st, c[1], c[2].bits, a, b)
        if k == 'agg':
            return [self.const(st, t, v) for t, v in c[1]]
        if k == 'str':
            return list(c[1])
        raise VerifError('const %r' % (c,))

    def val(self, st, fr, ty, opnd):
        if opnd[0] == 'r':
            return fr.regs[opnd[1]]
        c = opnd[1]
        if c.__class__ is int:
            return c
        return self.const(st, ty, c)

    # -------------------------------------------------------------- byte level reads
    def byte_of(self, ent):
        v, k, n = ent
        if n == 1:
            if v.__class__ is Ptr:
                v = self.addr(v)
            if v.__class__ is not int and z3.is_bool(v):
                return z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            return v
        if v.__class__ is Ptr:
            v = self.addr(v)
        if v is UNDEF:
            return UNDEF
        if v.__class__ is int:
            return (v >> (8 * k)) & 0xff
        return z3.Extract(8 * k + 7, 8 * k, v) if v.size() > 8 else v

    def read_byte(self, st, layers, i, idx, lo, hi):
        """byte at idx in layers[0..i]"""
        conc = idx.__class__ is int
        stack = []
        res = None
        while i >= 0:
            L = layers[i]
            if L.__class__ is dict:
                if conc:
                    e = L.get(idx)
                    if e is not None:
                        res = self.byte_of(e)
                        break
                elif L:
                    ents = [(o, e) for o, e in L.items() if (lo is None or lo <= o < hi)]
                    if ents:
                        stack.append((ents, None))
            else:
                k = L[0]
                if k == 'zero':
                    res = 0
                    break
                if k == 'undef':
                    # uninitialised memory: arbitrary but fixed contents
                    res = z3.Select(z3.Array('mem%s' % L[1], z3.BitVecSort(64), z3.BitVecSort(8)), bv(idx, 64))
                    break
                if k == 'st':
                    _, sidx, n, v, slo, shi = L
                    if conc and slo is not None and not (slo <= idx < shi):
                        i -= 1
                        continue
                    rel = simp(bv(idx, 64) - sidx)
                    if is_c(rel):
                        if rel < n:
                            res = self.byte_of((v, rel, n))
                            break
                    else:
                        if n == 1:
                            cond = rel == 0
                            b = self.byte_of((v, 0, 1))
                        else:
                            cond = z3.ULT(rel, n)
                            vv = self.addr(v) if v.__class__ is Ptr else v
                            if vv is UNDEF:
                                b = UNDEF
                            else:
                                vv = bv(vv, 8 * n)
                                r8 = z3.Extract(8 * n - 1, 0, rel) if 8 * n <= 64 else z3.ZeroExt(8 * n - 64, rel)
                                b = z3.Extract(7, 0, z3.LShR(vv, r8 * 8))
                        stack.append((None, (cond, b)))
                elif k == 'cp':
                    _, dst, n, sl, soff, clo, chi, x = L
                    if conc and clo is not None and not (clo <= idx < chi):
                        i -= 1
                        continue
                    rel = simp(bv(idx, 64) - bv(dst, 64))
                    cond = simp(z3.ULT(bv(rel, 64), bv(n, 64)))
                    if is_c(cond):
                        if cond:
                            r2 = simp(rel ^ x) if x else rel
                            res = self.read_byte(st, sl, len(sl) - 1, simp(bv(r2, 64) + bv(soff, 64)), None, None)
                            break
                    else:
                        # prune with the solver
                        dec = self.implied(st, cond)
                        if dec is True:
                            r2 = simp(rel ^ x) if x else rel
                            res = self.read_byte(st, sl, len(sl) - 1, simp(bv(r2, 64) + bv(soff, 64)), None, None)
                            break
                        if dec is None:
                            r2 = simp(rel ^ x) if x else rel
                            b = self.read_byte(st, sl, len(sl) - 1, simp(bv(r2, 64) + bv(soff, 64)), None, None)
                            stack.append((None, (cond, b)))
                elif k == 'fill':
                    _, dst, n, b, clo, chi = L
                    if conc and clo is not None and not (clo <= idx < chi):
                        i -= 1
                        continue
                    rel = simp(bv(idx, 64) - bv(dst, 64))
                    cond = simp(z3.ULT(bv(rel, 64), bv(n, 64)))
                    if is_c(cond):
                        if cond:
                            res = b
                            break
                    else:
                        stack.append((None, (cond, b)))
                elif k == 'arr':
                    # ('arr', dst, n, z3array): bytes dst..dst+n-1 are array[0..n-1]
                    _, dst, n, arr, clo, chi = L
                    if conc and clo is not None and not (clo <= idx < chi):
                        i -= 1
                        continue
                    rel = simp(bv(idx, 64) - bv(dst, 64))
                    cond = simp(z3.ULT(bv(rel, 64), bv(n, 64)))
                    b = z3.Select(arr, bv(rel, 64))
                    if is_c(cond):
                        if cond:
                            res = b
                            break
                    else:
                        if self.implied(st, cond) is True:
                            res = b
                            break
                        stack.append((None, (cond, b)))
                else:
                    raise VerifError('layer ' + k)
            i -= 1
        if res is None:
            raise VerifError('read below base')
        while stack:
            ents, cb = stack.pop()
            if ents is not None:
                for o, e in ents:
                    res = self.ite8(idx == o, self.byte_of(e), res)
            else:
                res = self.ite8(cb[0], cb[1], res)
        return res

    def implied(self, st, cond):
        mv = self.meval(st, cond)
        if mv is True:
            r, _ = self.query(st, z3.Not(cond))
            if r == 'unsat':
                return True
            return None
        if mv is False:
            r, _ = self.query(st, cond)
            if r == 'unsat':
                return False
            return None
        return None

    def ite8(self, c, a, b):
        if a is UNDEF:
            a = self.freshbv(8, 'undef')
        if b is UNDEF:
            b = self.freshbv(8, 'undef')
        return z3.If(c, bv(a, 8), bv(b, 8))

    def rd(self, st, o, off, n, lo=None, hi=None):
        """read n bytes as an integer (or pointer) value"""
        layers = o.layers
        if off.__class__ is int:
            d = layers[-1]
            e = d.get(off)
            if e is not None and e[1] == 0 and e[2] == n:
                v = e[0]
                if n == 1:
                    return v
                ok = True
                for k in range(1, n):
                    e2 = d.get(off + k)
                    if e2 is None or e2[0] is not v or e2[1] != k or e2[2] != n:
                        ok = False
                        break
                if ok:
                    return v
            elif e is None and len(layers) > 2:
                # look in deeper dict layers as long as nothing above can hide the cell
                i = len(layers) - 1
                while i >= 0:
                    L = layers[i]
                    if L.__class__ is dict:
                        hit = [L.get(off + k) for k in range(n)]
                        if any(h is not None for h in hit):
                            h0 = hit[0]
                            if h0 is not None and h0[1] == 0 and h0[2] == n and all(
                                    h is not None and h[0] is h0[0] and h[1] == k and h[2] == n for k, h in enumerate(hit)):
                                return h0[0]
                            break
                    elif L[0] in ('st', 'cp', 'fill', 'arr'):
                        slo, shi = (L[4], L[5]) if L[0] in ('st', 'fill', 'arr') else (L[5], L[6])
                        if slo is None or not (off + n <= slo or off >= shi):
                            if L[0] == 'fill' or L[0] == 'arr' or L[0] == 'cp':
                                ds, nn = L[1], L[2]
                                if is_c(ds) and is_c(nn) and (off + n <= ds or off >= ds + nn):
                                    i -= 1
                                    continue
                                if L[0] == 'cp' and is_c(ds) and is_c(nn) and ds <= off and off + n <= ds + nn and is_c(L[4]) and not L[7]:
                                    tmp = Obj()
                                    tmp.layers = list(L[3]) + [{}]
                                    return self.rd(st, tmp, off - ds + L[4], n)
                            break
                    i -= 1
        else:
            v = self.last_store(o, off, n)
            if v is not None:
                return v
        bs = []
        for k in range(n):
            if off.__class__ is int:
                idx = off + k
            else:
                idx = simp(off + k) if k else off
            bs.append(self.read_byte(st, layers, len(layers) - 1, idx, lo, hi))
        return self.join(bs)

    def join(self, bs):
        n = len(bs)
        if any(b is UNDEF for b in bs):
            if all(b is UNDEF for b in bs):
                return UNDEF
            bs = [self.freshbv(8, 'undef') if b is UNDEF else b for b in bs]
        if all(b.__class__ is int for b in bs):
            v = 0
            for k, b in enumerate(bs):
                v |= b << (8 * k)
            return v
        if n == 1:
            return bs[0]
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    # -------------------------------------------------------------- access checks
    def access(self, st, p, n, what):
        """bounds obligation for an access of n bytes (n may be symbolic); returns object"""
        if p.__class__ is not Ptr:
            p = self.toptr(p)
        if p.o == -1:
            # pointer value read from uninitialised / unconstrained memory
            self.fail(st, 'memory: access through an invalid pointer')
        if p.o == 0:
            self.fail(st, 'memory: null or absolute address access')
        o = st.objs.get(p.o)
        if o is None:
            self.fail(st, 'memory: access to a dead object')
        if o.freed:
            self.fail(st, 'memory: use after free')
        if o.ro and what == 'w':
            self.fail(st, 'memory: write to a constant')
        off = p.off
        lo, hi = p.lo, p.hi
        name = 'memory: access within bounds'
        if off.__class__ is int and n.__class__ is int and o.size.__class__ is int:
            if lo is None:
                lo, hi = 0, o.size
            if off > (1 << 63):
                off -= 1 << 64
            if n and (off < lo or off + n > hi):
                self.fail(st, name)
            ob = self.res.obl.get(name)
            if ob is None:
                ob = self.res.obl[name] = [0, 0, 0]
            ob[0] += 1
            ob[2] += 1
            return o
        if lo is None:
            lo, hi = 0, o.size
        offz = bv(off, 64)
        nz = bv(n, 64)
        hiz = bv(hi, 64)
        rel = offz - lo if lo else offz
        room = simp(hiz - lo if lo else hiz)
        cond = z3.And(z3.ULE(nz, bv(room, 64)), z3.ULE(rel, bv(room, 64) - nz))
        if not is_c(n):
            cond = z3.Or(nz == 0, cond)
        self.check(st, cond, name)
        return o

    def fixoff(self, st, p):
        """make a symbolic offset concrete when the path condition determines it"""
        off = p.off
        if off.__class__ is int:
            return off if off < (1 << 63) else off - (1 << 64)
        off = simp(off)
        if off.__class__ is int:
            return off
        if st.model is not None:
            v = st.model.eval(off, model_completion=True)
            if z3.is_bv_value(v):
                v = v.as_long()
                r, _ = self.query(st, off != v)
                if r == 'unsat':
                    return v
        return off

    def concretize(self, st, v, limit=600):
        """enumerate the feasible values of v by forking"""
        if v.__class__ is int:
            return v
        v = simp(v)
        if v.__class__ is int:
            return v
        for k, d in list(st.dec.items()):
            pass
        if st.model is None:
            r, st.model = self.query(st, z3.BoolVal(True))
        n = 0
        while True:
            x = st.model.eval(v, model_completion=True).as_long()
            if self.decide(st, v == x):
                return x
            n += 1
            if n > limit:
                raise VerifError('concretize: too many values at ' + self.where(st))

    def load(self, st, p, ty):
        t = ty.res()
        if t.k == 'struct':
            offs = t.offs()
            return [self.load(st, Ptr(p.o, self.addoff(p.off, offs[i]), p.lo, p.hi), f) for i, f in enumerate(t.fields)]
        if t.k in ('array', 'vec'):
            es = t.el.size()
            return [self.load(st, Ptr(p.o, self.addoff(p.off, i * es), p.lo, p.hi), t.el) for i in range(t.n)]
        n = t.size() if t.k != 'int' else (t.bits + 7) // 8
        o = self.access(st, p, n, 'r')
        off = self.fixoff(st, p)
        if off.__class__ is not int and t.k == 'ptr':
            v = self.last_store(o, off, n)
            if v is not None:
                return self.resolve(st, self.fromraw(v, t, n))
            off = self.concretize(st, off)
        v = self.rd(st, o, off, n, p.lo, p.hi)
        if t.k == 'ptr':
            return self.resolve(st, self.toptr(v))
        if st.trace is not None:
            st.trace.append(('l', p.o, off, n, v, p.lo, p.hi))
        return self.fromraw(v, t, n)

    def last_store(self, o, off, n):
        """the value most recently stored at this very symbolic offset, when no later store can overlap it"""
        for L in reversed(o.layers):
            if L.__class__ is dict:
                if L:
                    return None
            elif L[0] == 'st':
                rel = simp(off - L[1])
                if not is_c(rel):
                    return None
                if rel == 0 and L[2] == n:
                    return L[3]
                if rel < L[2] or (-rel) & MASK64 < n:
                    return None
            else:
                return None
        return None

    def resolve(self, st, p):
        """a pointer put together from bytes: find its object when the path condition determines it"""
        if p.o != -1 or p.off.__class__ is int or st.model is None:
            return p
        x = st.model.eval(p.off, model_completion=True)
        if not z3.is_bv_value(x):
            return p
        o = x.as_long() >> BASE_SHIFT
        if o not in st.objs:
            return p
        hi = z3.Extract(63, BASE_SHIFT, p.off)
        r, _ = self.query(st, hi != o)
        if r != 'unsat':
            return p
        return Ptr(o, simp(z3.ZeroExt(BASE_SHIFT_HI, z3.Extract(BASE_SHIFT - 1, 0, p.off))))

    def fromraw(self, v, t, n):
        if t.k == 'ptr':
            return self.toptr(v)
        if v is UNDEF:
            return UNDEF
        if t.k == 'int':
            if v.__class__ is Ptr:
                if t.bits == 64:
                    return v
                v = self.addr(v)
            b = t.bits
            if v.__class__ is int:
                return v & mask(b)
            if z3.is_bool(v):
                if b == 1:
                    return v
                return z3.If(v, z3.BitVecVal(1, b), z3.BitVecVal(0, b))
            if b == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            if v.size() != b:
                v = z3.Extract(b - 1, 0, v)
            return v
        if v.__class__ is Ptr:
            v = self.addr(v)
        return v

    def addoff(self, off, k):
        if k == 0:
            return off
        if off.__class__ is int:
            return (off + k) & MASK64
        return simp(off + k)

    def storev(self, st, p, ty, v):
        t = ty.res()
        if t.k == 'struct':
            offs = t.offs()
            for i, f in enumerate(t.fields):
                self.storev(st, Ptr(p.o, self.addoff(p.off, offs[i]), p.lo, p.hi), f, v[i] if v is not UNDEF else UNDEF)
            return
        if t.k in ('array', 'vec'):
            es = t.el.size()
            for i in range(t.n):
                self.storev(st, Ptr(p.o, self.addoff(p.off, i * es), p.lo, p.hi), t.el, v[i] if v is not UNDEF else UNDEF)
            return
        n = t.size() if t.k != 'int' else (t.bits + 7) // 8
        self.access(st, p, n, 'w')
        off = self.fixoff(st, p)
        o = self.wobj(st, p.o)
        if st.trace is not None:
            st.trace.append(('s', p.o, off, n, v, (p.lo, p.hi)))
        if t.k == 'int' and t.bits == 1 and not is_c(v) and v is not UNDEF:
            v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        elif t.k == 'int' and t.bits % 8 and not is_c(v) and v is not UNDEF:
            v = z3.ZeroExt(n * 8 - t.bits, v)
        if off.__class__ is int:
            self.put(o, off, n, v)
        else:
            if o.layers[-1]:
                o.layers.append(('st', off, n, v, p.lo, p.hi))
            else:
                o.layers[-1] = ('st', off, n, v, p.lo, p.hi)
            o.layers.append({})

    def copy(self, st, d, s, n, x=0):
        """memcpy/memmove of n bytes; x: index xor (pairwise swap) used by contracts only"""
        if is_c(n) and n == 0:
            return
        n = simp(n)
        if not is_c(n):
            if self.implied(st, n == 0) is True:
                return
        so = self.access(st, s, n, 'r')
        self.access(st, d, n, 'w')
        soff = self.fixoff(st, s)
        doff = self.fixoff(st, d)
        if not is_c(n) and st.model is not None:
            v = st.model.eval(n, model_completion=True).as_long()
            r, _ = self.query(st, n != v)
            if r == 'unsat':
                n = v
        pieces = self.pieces(st, so, s, d, soff, doff, n) if st.trace is not None and not x else ()
        lazy = is_c(n) and n >= 1024 and any(L.__class__ is not dict and L[0] in ('st', 'cp', 'fill', 'arr') for L in so.layers)
        if is_c(n) and is_c(soff) and is_c(doff) and not x and not lazy:
            ents = []
            L = so.layers
            top = L[-1]
            for k in range(n):
                e = top.get(soff + k)
                if e is None:
                    e = self.entry_at(st, L, soff + k)
                ents.append(e)
            o = self.wobj(st, d.o)
            if st.trace is not None:
                st.trace += pieces
            dd = o.layers[-1]
            for k in range(n):
                dd[doff + k] = ents[k]
            return
        if is_c(n) and n <= 8 and not x:
            v = self.rd(st, so, soff, n, s.lo, s.hi)
            o = self.wobj(st, d.o)
            if st.trace is not None:
                st.trace += pieces
            if is_c(doff):
                self.put(o, doff, n, v)
            else:
                self.pushlayer(o, ('st', doff, n, v, d.lo, d.hi))
            return
        so = self.wobj(st, s.o)
        snap = so.freeze()
        o = self.wobj(st, d.o)
        self.pushlayer(o, ('cp', doff, n, snap, soff, d.lo, d.hi, x))

    def pieces(self, st, so, s, d, soff, doff, n):
        """a small copy as loads (recorded) and stores (returned), for the loop invariants"""
        if not is_c(n) or n > 64:
            return ()
        out = []
        k = 0
        while k < n:
            m = min(8, n - k)
            while m & (m - 1):
                m &= m - 1
            v = self.rd(st, so, self.addoff(soff, k), m, s.lo, s.hi)
            st.trace.append(('l', s.o, self.addoff(soff, k), m, v, s.lo, s.hi))
            out.append(('s', d.o, self.addoff(doff, k), m, v, (d.lo, d.hi)))
            k += m
        return out

    def pushlayer(self, o, L):
        if o.layers[-1]:
            o.layers.append(L)
        else:
            o.layers[-1] = L
        o.layers.append({})

    def entry_at(self, st, layers, off):
        i = len(layers) - 1
        while i >= 0:
            L = layers[i]
            if L.__class__ is dict:
                e = L.get(off)
                if e is not None:
                    return e
            elif L[0] in ('st', 'cp', 'fill', 'arr'):
                slo, shi = (L[5], L[6]) if L[0] == 'cp' else (L[4], L[5])
                if (is_c(L[1]) and is_c(L[2]) and not L[1] <= off < L[1] + L[2]) or (slo is not None and not slo <= off < shi):
                    i -= 1
                    continue
                return (self.read_byte(st, layers, i, off, None, None), 0, 1)
            elif L[0] == 'zero':
                return (0, 0, 1)
            elif L[0] == 'undef':
                return (self.read_byte(st, layers, i, off, None, None), 0, 1)
            i -= 1
        raise VerifError('entry_at')

    def fill(self, st, d, b, n):
        n = simp(n)
        if is_c(n) and n == 0:
            return
        self.access(st, d, n, 'w')
        doff = self.fixoff(st, d)
        o = self.wobj(st, d.o)
        if st.trace is not None and is_c(n) and n <= 64:
            st.trace += [('s', d.o, self.addoff(doff, k), 1, b, (d.lo, d.hi)) for k in range(n)]
        if is_c(n) and is_c(doff) and n <= 8192:
            dd = o.layers[-1]
            e = (b, 0, 1)
            for k in range(n):
                dd[doff + k] = e
            return
        self.pushlayer(o, ('fill', doff, n, b, d.lo, d.hi))

    def havoc_bytes(self, st, p, n, name):
        """fresh unconstrained bytes, recorded as an input for replay"""
        n = simp(n)
        self.access(st, p, n, 'w')
        off = self.fixoff(st, p)
        self.fresh += 1
        arr = z3.Array('%s!%d' % (name, self.fresh), z3.BitVecSort(64), z3.BitVecSort(8))
        st.nondets.append(('b', name, n, arr))
        o = self.wobj(st, p.o)
        if self.concrete is not None:
            bs = self.concrete.bytes(name, n if is_c(n) else 0)
            for k, b in enumerate(bs):
                self.put(o, off + k, 1, b)
            return
        if is_c(n) and is_c(off) and n <= 64:
            for k in range(n):
                self.put(o, off + k, 1, z3.Select(arr, z3.BitVecVal(k, 64)))
            return
        if is_c(n) and is_c(off):
            # drop shadowed bytes from the top layer
            self.pushlayer(o, ('arr', off, n, arr, None, None))
        else:
            self.pushlayer(o, ('arr', off, n, arr, p.lo, p.hi))

    def cstr(self, st, p):
        o = st.objs.get(p.o)
        out = bytearray()
        off = p.off
        while True:
            b = self.rd(st, o, off, 1)
            if not is_c(b):
                return bytes(out).decode('latin1') + '?'
            if b == 0:
                return bytes(out).decode('latin1')
            out.append(b)
            off += 1
            if len(out) > 4000:
                return bytes(out).decode('latin1')

    # -------------------------------------------------------------- arithmetic
    def num(self, v, bits):
        if v is UNDEF:
            return self.freshbv(bits, 'undef')
        if v.__class__ is Ptr:
            v = self.addr(v)
            if bits != 64:
                v = v & mask(bits) if is_c(v) else z3.Extract(bits - 1, 0, v)
        return v

    def binop(self, st, op, n, a, b):
        if a is UNDEF or b is UNDEF:
            if op in ('add', 'sub', 'mul', 'xor', 'or', 'and', 'shl', 'lshr', 'ashr') and a is UNDEF and b is UNDEF:
                return UNDEF
        if a.__class__ is Ptr or b.__class__ is Ptr:
            if op == 'sub' and a.__class__ is Ptr and b.__class__ is Ptr and a.o == b.o:
                x, y = a.off, b.off
                if is_c(x) and is_c(y):
                    return (x - y) & MASK64
                return simp(bv(x, 64) - bv(y, 64))
            if op == 'add':
                if a.__class__ is Ptr and b.__class__ is not Ptr:
                    return Ptr(a.o, simp(self.binop(st, 'add', 64, a.off, b)), a.lo, a.hi)
                if b.__class__ is Ptr and a.__class__ is not Ptr:
                    return Ptr(b.o, simp(self.binop(st, 'add', 64, b.off, a)), b.lo, b.hi)
            if op == 'sub' and a.__class__ is Ptr and b.__class__ is not Ptr:
                return Ptr(a.o, simp(self.binop(st, 'sub', 64, a.off, b)), a.lo, a.hi)
            if op == 'and' and a.__class__ is Ptr and is_c(b) and b < (1 << BASE_SHIFT):
                return self.binop(st, 'and', 64, a.off, b)
        a = self.num(a, n)
        b = self.num(b, n)
        if a.__class__ is int and b.__class__ is int:
            m = (1 << n) - 1
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < n else 0
            if op == 'lshr':
                return a >> b if b < n else 0
            if op == 'ashr':
                return (sgn(a, n) >> min(b, n - 1)) & m
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            if op == 'sdiv':
                x, y = sgn(a, n), sgn(b, n)
                q = abs(x) // abs(y)
                return (q if (x < 0) == (y < 0) else -q) & m
            if op == 'srem':
                x, y = sgn(a, n), sgn(b, n)
                r = abs(x) % abs(y)
                return (-r if x < 0 else r) & m
        if n == 1:
            A, B = b2z(a), b2z(b)
            if op == 'and':
                return simp(z3.And(A, B))
            if op == 'or':
                return simp(z3.Or(A, B))
            if op in ('xor', 'add', 'sub'):
                return simp(z3.Xor(A, B))
            raise VerifError('i1 ' + op)
        if op == 'add':
            if b.__class__ is int and b == 0:
                return a
            if a.__class__ is int and a == 0:
                return b
        elif op == 'mul':
            if b.__class__ is int and b == 1:
                return a
            if a.__class__ is int and a == 1:
                return b
        elif op == 'and':
            if (a.__class__ is int and a == 0) or (b.__class__ is int and b == 0):
                return 0
        elif op in ('or', 'xor', 'sub', 'shl', 'lshr', 'ashr'):
            if b.__class__ is int and b == 0:
                return a
        if op in ('udiv', 'urem', 'sdiv', 'srem') and b.__class__ is int and n == 64 and 1 << 16 < b < 1 << 62:
            return self.divconst(st, op, a, b)
        A = bv(a, n)
        B = bv(b, n)
        if op == 'add':
            return A + B
        if op == 'sub':
            return A - B
        if op == 'mul':
            return A * B
        if op == 'and':
            return A & B
        if op == 'or':
            return A | B
        if op == 'xor':
            return A ^ B
        if op == 'shl':
            return A << B
        if op == 'lshr':
            return z3.LShR(A, B)
        if op == 'ashr':
            return A >> B
        if op == 'udiv':
            return z3.UDiv(A, B)
        if op == 'urem':
            return z3.URem(A, B)
        if op == 'sdiv':
            return A / B
        if op == 'srem':
            return z3.SRem(A, B)
        raise VerifError('binop ' + op)

    def divconst(self, st, op, a, c):
        """division by a large constant: quotient and remainder by their definition (they exist and are unique)"""
        n = 64
        k = ('div', op[0], a.get_id(), c)
        e = st.tags.get(k)
        if e is None:
            q, r = self.freshbv(n, 'quot'), self.freshbv(n, 'rem')
            C = z3.BitVecVal(c, n)
            if op[0] == 'u':
                d = [a == q * C + r, z3.ULT(r, C), z3.ULE(q, mask(n) // c)]
            else:
                m = (1 << (n - 1)) // c
                d = [a == q * C + r, r < C, r > -C, z3.Implies(a >= 0, r >= 0), z3.Implies(a <= 0, r <= 0), q <= m, q >= -m,
                     z3.Implies(a >= 0, q >= 0), z3.Implies(a <= 0, q <= 0)]
            self.add(st, z3.And(*d))
            st.model = None
            e = st.tags[k] = (a, q, r)
        return e[1] if op[1:] == 'div' else e[2]

    def op_bin(self, st, fr, ins):
        ty = ins.ty
        if ty.k == 'vec':
            raise VerifError('vector op')
        a = self.val(st, fr, ty, ins.a[0])
        b = self.val(st, fr, ty, ins.a[1])
        op = ins.op
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            bb = self.num(b, ty.bits)
            self.check(st, int(bb != 0) if is_c(bb) else bb != 0, 'arithmetic: division by zero')
            b = bb
        fr.regs[ins.dst] = self.binop(st, op, ty.bits, a, b)

    def op_fneg(self, st, fr, ins):
        n = 32 if ins.ty.k == 'float' else 64
        a = self.num(self.val(st, fr, ins.ty, ins.a[0]), n)
        fr.regs[ins.dst] = self.binop(st, 'xor', n, a, 1 << (n - 1))

    def fpsort(self, ty):
        return z3.Float32() if ty.k == 'float' else z3.Float64()

    def op_fbin(self, st, fr, ins):
        n = 32 if ins.ty.k == 'float' else 64
        s = self.fpsort(ins.ty)
        a = z3.fpBVToFP(bv(self.num(self.val(st, fr, ins.ty, ins.a[0]), n), n), s)
        b = z3.fpBVToFP(bv(self.num(self.val(st, fr, ins.ty, ins.a[1]), n), n), s)
        rm = z3.RNE()
        r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[ins.op](rm, a, b)
        fr.regs[ins.dst] = simp(z3.fpToIEEEBV(r))

    def op_fcmp(self, st, fr, ins):
        pred, A, B = ins.a
        n = 32 if ins.ty.k == 'float' else 64
        s = self.fpsort(ins.ty)
        a = z3.fpBVToFP(bv(self.num(self.val(st, fr, ins.ty, A), n), n), s)
        b = z3.fpBVToFP(bv(self.num(self.val(st, fr, ins.ty, B), n), n), s)
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {'eq': z3.fpEQ(a, b), 'ne': z3.Not(z3.fpEQ(a, b)), 'lt': z3.fpLT(a, b), 'le': z3.fpLEQ(a, b),
                'gt': z3.fpGT(a, b), 'ge': z3.fpGEQ(a, b)}
        if pred == 'ord':
            r = z3.Not(nan)
        elif pred == 'uno':
            r = nan
        elif pred[0] == 'o':
            r = z3.And(z3.Not(nan), base[pred[1:]])
        else:
            r = z3.Or(nan, base[pred[1:]])
        fr.regs[ins.dst] = simp(r)

    def cast(self, st, op, t0, v, t1):
        if v is UNDEF:
            return UNDEF if op != 'zext' else self.cast(st, op, t0, self.freshbv(t0.bits, 'undef'), t1)
        if op == 'trunc':
            v = self.num(v, t0.bits)
            if v.__class__ is int:
                return v & mask(t1.bits)
            if t1.bits == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return z3.Extract(t1.bits - 1, 0, v)
        if op == 'zext':
            v = self.num(v, t0.bits)
            if v.__class__ is int:
                return v
            if t0.bits == 1:
                return z3.If(v, z3.BitVecVal(1, t1.bits), z3.BitVecVal(0, t1.bits))
            return z3.ZeroExt(t1.bits - t0.bits, v)
        if op == 'sext':
            v = self.num(v, t0.bits)
            if v.__class__ is int:
                return sgn(v, t0.bits) & mask(t1.bits)
            if t0.bits == 1:
                return z3.If(v, z3.BitVecVal(mask(t1.bits), t1.bits), z3.BitVecVal(0, t1.bits))
            return z3.SignExt(t1.bits - t0.bits, v)
        if op == 'ptrtoint':
            if t1.bits != 64:
                return self.num(v, t1.bits)
            return v if v.__class__ is not Ptr or v.o not in (0,) else v.off
        if op == 'inttoptr':
            return self.toptr(v)
        if op in ('bitcast', 'addrspacecast'):
            return v
        rm = z3.RNE()
        if op in ('sitofp', 'uitofp'):
            f = z3.fpSignedToFP if op == 'sitofp' else z3.fpToFPUnsigned if False else None
            x = bv(self.num(v, t0.bits), t0.bits)
            s = self.fpsort(t1)
            r = z3.fpSignedToFP(rm, x, s) if op == 'sitofp' else z3.fpUnsignedToFP(rm, x, s)
            return simp(z3.fpToIEEEBV(r))
        if op in ('fptosi', 'fptoui'):
            n = 32 if t0.k == 'float' else 64
            x = z3.fpBVToFP(bv(v, n), self.fpsort(t0))
            r = z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(t1.bits)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(t1.bits))
            return simp(r)
        if op in ('fpext', 'fptrunc'):
            n = 32 if t0.k == 'float' else 64
            x = z3.fpBVToFP(bv(v, n), self.fpsort(t0))
            return simp(z3.fpToIEEEBV(z3.fpFPToFP(rm, x, self.fpsort(t1))))
        raise VerifError('cast ' + op)

    def op_cast(self, st, fr, ins):
        v = self.val(st, fr, ins.x, ins.a[0])
        fr.regs[ins.dst] = self.cast(st, ins.op, ins.x, v, ins.ty)

    def icmp(self, st, pred, ty, a, b):
        if ty.k == 'ptr' or a.__class__ is Ptr or b.__class__ is Ptr:
            a = self.toptr(a) if a.__class__ is not Ptr else a
            b = self.toptr(b) if b.__class__ is not Ptr else b
            if a.o == b.o:
                x, y = a.off, b.off
                if pred[0] in 'us' and is_c(x) and is_c(y):
                    # offsets relative to the same base; treat as signed distances
                    x = (x + (1 << 62)) & MASK64
                    y = (y + (1 << 62)) & MASK64
                n = 64
            elif a.o == -1 or b.o == -1:
                x, y, n = self.addr(a), self.addr(b), 64
            else:
                if pred == 'eq':
                    return 0
                if pred == 'ne':
                    return 1
                x, y, n = self.addr(a), self.addr(b), 64
        else:
            n = ty.bits
            if a is UNDEF:
                a = self.freshbv(n, 'undef')
            if b is UNDEF:
                b = self.freshbv(n, 'undef')
            x, y = a, b
        if x.__class__ is int and y.__class__ is int:
            if pred == 'eq':
                return int(x == y)
            if pred == 'ne':
                return int(x != y)
            if pred[0] == 's':
                x, y = sgn(x, n), sgn(y, n)
            p = pred[1:]
            return int(x < y if p == 'lt' else x <= y if p == 'le' else x > y if p == 'gt' else x >= y)
        if n == 1:
            X, Y = b2z(x), b2z(y)
            if pred == 'eq':
                return simp(X == Y)
            if pred == 'ne':
                return simp(X != Y)
            X = z3.If(X, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2))
            Y = z3.If(Y, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2))
            if pred[0] == 's':
                X, Y = Y, X
            pred = 'u' + pred[1:]
        else:
            X, Y = bv(x, n), bv(y, n)
        if pred == 'eq':
            return simp(X == Y)
        if pred == 'ne':
            return simp(X != Y)
        f = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
             'slt': lambda p, q: p < q, 'sle': lambda p, q: p <= q, 'sgt': lambda p, q: p > q,
             'sge': lambda p, q: p >= q}[pred]
        return simp(f(X, Y))

    def op_icmp(self, st, fr, ins):
        pred, A, B = ins.a
        a = self.val(st, fr, ins.ty, A)
        b = self.val(st, fr, ins.ty, B)
        fr.regs[ins.dst] = self.icmp(st, pred, ins.ty, a, b)

    # -------------------------------------------------------------- memory ops
    def op_load(self, st, fr, ins):
        p = self.toptr(self.val(st, fr, irparse.PTR, ins.a[0]))
        fr.regs[ins.dst] = self.load(st, p, ins.ty)

    def op_store(self, st, fr, ins):
        v = self.val(st, fr, ins.ty, ins.a[0])
        p = self.toptr(self.val(st, fr, irparse.PTR, ins.a[1]))
        self.storev(st, p, ins.ty, v)

    def gep(self, st, bt, base, idx):
        base = self.toptr(base)
        off = base.off
        lo, hi = base.lo, base.hi
        ty = bt
        first = True
        conc = 0
        for t, v in idx:
            if first:
                first = False
                es = ty.size() if v.__class__ is not int or v else 0
                if v.__class__ is int:
                    conc += sgn(v, t.bits) * es
                else:
                    if v is UNDEF:
                        v = self.freshbv(t.bits, 'undef')
                    if v.__class__ is Ptr:
                        raise VerifError('pointer used as an index')
                    v64 = v if t.bits == 64 else z3.SignExt(64 - t.bits, v)
                    off = bv(off, 64) + (v64 * es if es != 1 else v64)
                continue
            r = ty.res()
            if r.k == 'struct':
                conc += r.offs()[v]
                ty = r.fields[v]
            else:
                es = r.el.size()
                if r.k == 'array' and r.n > 1:
                    o2 = off if off.__class__ is int else None
                    if o2 is not None:
                        b0 = o2 + conc
                        b0 &= MASK64
                        if b0 < (1 << 62):
                            if lo is None or (b0 >= lo and b0 + r.n * es <= hi):
                                lo, hi = b0, b0 + r.n * es
                if v.__class__ is int:
                    conc += sgn(v, t.bits) * es
                else:
                    if v is UNDEF:
                        v = self.freshbv(t.bits, 'undef')
                    if v.__class__ is Ptr:
                        raise VerifError('pointer used as an index')
                    v64 = v if t.bits == 64 else z3.SignExt(64 - t.bits, v)
                    off = bv(off, 64) + (v64 * es if es != 1 else v64)
                ty = r.el
        if off.__class__ is not int and not z3.is_expr(off):
            raise VerifError('gep offset at ' + self.where(st))
        if off.__class__ is int:
            off = (off + conc) & MASK64
        else:
            off = simp(off + conc if conc else off)
        return Ptr(base.o, off, lo, hi)

    def op_gep(self, st, fr, ins):
        base = self.val(st, fr, irparse.PTR, ins.a[0])
        idx = [(t, self.val(st, fr, t, v)) for t, v in ins.a[1]]
        fr.regs[ins.dst] = self.gep(st, ins.ty, base, idx)

    def op_alloca(self, st, fr, ins):
        n = 1
        if ins.a[0] is not None:
            n = self.val(st, fr, irparse.IntTy(32), ins.a[0])
            n = self.concretize(st, n)
        o = self.newobj(st, ins.ty.size() * n, 'stack', ins.dst)
        fr.allocas.append(o.id)
        fr.regs[ins.dst] = Ptr(o.id, 0)

    # -------------------------------------------------------------- control
    def jump(self, st, fr, label):
        prev = fr.label
        blocks = fr.fn.blocks
        b = blocks[label]
        c = fr.loopcnt.get(label, 0) + 1
        fr.loopcnt[label] = c
        if c > self.loop_limit:
            raise VerifError('loop limit in %s at %s' % (self.demangle(fr.fn.name), self.where(st)))
        i = 0
        new = []
        for ins in b:
            if ins.op != 'phi':
                break
            for v, l in ins.a:
                if l == prev:
                    new.append((ins.dst, self.val(st, fr, ins.ty, v)))
                    break
            else:
                raise VerifError('phi')
            i += 1
        for d, v in new:
            fr.regs[d] = v
        fr.prev = prev
        fr.label = label
        fr.ins = b
        fr.ip = i
        st.dec.clear()
        if self.loops is not None:
            self.loops.at_header(st, fr, label, prev)
        return True

    def op_br(self, st, fr, ins):
        return self.jump(st, fr, ins.a[0])

    def op_condbr(self, st, fr, ins):
        c = self.val(st, fr, irparse.IntTy(1), ins.a[0])
        if c is UNDEF:
            c = self.freshbv(1, 'undef')
        return self.jump(st, fr, ins.a[1] if self.decide(st, c) else ins.a[2])

    def op_switch(self, st, fr, ins):
        v = self.num(self.val(st, fr, ins.ty, ins.a[0]), ins.ty.bits)
        _, default, cases = ins.a
        v = simp(v)
        if is_c(v):
            for c, l in cases:
                if c == v:
                    return self.jump(st, fr, l)
            return self.jump(st, fr, default)
        groups = {}
        for c, l in cases:
            groups.setdefault(l, []).append(c)
        for l, cs in groups.items():
            if l == default:
                continue
            cond = z3.Or(*[v == c for c in cs]) if len(cs) > 1 else v == cs[0]
            if self.decide(st, cond):
                return self.jump(st, fr, l)
        return self.jump(st, fr, default)

    def op_ret(self, st, fr, ins):
        v = None
        if ins.a[0] is not None:
            v = self.val(st, fr, ins.ty, ins.a[0])
        self.popframe(st)
        if not st.frames:
            st.frames = []
            return 'end'
        if fr.ret_to == 'ctor':
            st.dec.clear()
            return True
        cf = st.frames[-1]
        ci = cf.ins[cf.ip]
        if ci.dst is not None:
            cf.regs[ci.dst] = v
        st.dec.clear()
        if ci.op == 'invoke':
            return self.jump(st, cf, ci.x[0])
        cf.ip += 1
        return True

    def popframe(self, st):
        fr = st.frames.pop()
        for a in fr.allocas:
            st.objs.pop(a, None)

    def op_unreachable(self, st, fr, ins):
        self.fail(st, 'control: unreachable code reached')

    def op_select(self, st, fr, ins):
        c = self.val(st, fr, irparse.IntTy(1), ins.a[0])
        if c is UNDEF:
            c = self.freshbv(1, 'undef')
        a = self.val(st, fr, ins.ty, ins.a[1])
        b = self.val(st, fr, ins.ty, ins.a[2])
        if c.__class__ is int:
            fr.regs[ins.dst] = a if c else b
            return
        t = ins.ty.res()
        if t.k == 'int' and a.__class__ is not Ptr and b.__class__ is not Ptr:
            a = self.num(a, t.bits)
            b = self.num(b, t.bits)
            if t.bits == 1:
                fr.regs[ins.dst] = simp(z3.If(c, b2z(a), b2z(b)))
            else:
                fr.regs[ins.dst] = simp(z3.If(c, bv(a, t.bits), bv(b, t.bits)))
            return
        if t.k == 'ptr' and a.__class__ is Ptr and b.__class__ is Ptr and a.o == b.o:
            fr.regs[ins.dst] = Ptr(a.o, simp(z3.If(c, bv(a.off, 64), bv(b.off, 64))), None, None)
            return
        fr.regs[ins.dst] = a if self.decide(st, c) else b

    def op_freeze(self, st, fr, ins):
        v = self.val(st, fr, ins.ty, ins.a[0])
        if v is UNDEF and ins.ty.k == 'int':
            v = self.freshbv(ins.ty.bits, 'undef')
        fr.regs[ins.dst] = v

    def op_extractvalue(self, st, fr, ins):
        v = self.val(st, fr, ins.ty, ins.a[0])
        for i in ins.a[1]:
            v = v[i] if v is not UNDEF else UNDEF
        fr.regs[ins.dst] = v

    def op_insertvalue(self, st, fr, ins):
        v = self.val(st, fr, ins.ty, ins.a[0])
        b = self.val(st, fr, ins.x, ins.a[1])

        def put(v, idx, ty):
            if not idx:
                return b
            r = ty.res()
            if v is UNDEF:
                v = self.const(st, r, ('undef',))
            v = list(v)
            et = r.fields[idx[0]] if r.k == 'struct' else r.el
            v[idx[0]] = put(v[idx[0]], idx[1:], et)
            return v
        fr.regs[ins.dst] = put(v, ins.a[2], ins.ty)

    def op_cmpxchg(self, st, fr, ins):
        p = self.toptr(self.val(st, fr, irparse.PTR, ins.a[0]))
        c = self.val(st, fr, ins.ty, ins.a[1])
        n = self.val(st, fr, ins.ty, ins.a[2])
        cur = self.load(st, p, ins.ty)
        eq = self.icmp(st, 'eq', ins.ty, cur, c)
        ok = self.decide(st, eq)
        if ok:
            self.storev(st, p, ins.ty, n)
        fr.regs[ins.dst] = [cur, 1 if ok else 0]

    def op_atomicrmw(self, st, fr, ins):
        sub, P_, V = ins.a
        p = self.toptr(self.val(st, fr, irparse.PTR, P_))
        v = self.val(st, fr, ins.ty, V)
        cur = self.load(st, p, ins.ty)
        if sub == 'xchg':
            new = v
        else:
            new = self.binop(st, sub, ins.ty.bits, cur, v)
        self.storev(st, p, ins.ty, new)
        fr.regs[ins.dst] = cur

    # -------------------------------------------------------------- calls
    def pushcall(self, st, fn, args, stub=None):
        f = Frame()
        f.fn = fn
        blocks = fn.body()
        f.label = fn.entry
        f.prev = None
        f.ins = blocks[fn.entry]
        f.ip = 0
        f.regs = {}
        f.allocas = []
        f.loopcnt = {}
        f.stub = stub
        f.ret_to = None
        for (ty, nm, at), v in zip(fn.params, args):
            if at and 'byval' in at:
                sz = at['byval'].size()
                o = self.newobj(st, sz, 'stack', 'byval')
                f.allocas.append(o.id)
                self.copy(st, Ptr(o.id, 0), self.toptr(v), sz)
                v = Ptr(o.id, 0)
            f.regs[nm] = v
        if fn.varargs and len(args) > len(fn.params):
            pass
        st.frames.append(f)
        if len(st.frames) > 400:
            raise VerifError('call depth (unbounded recursion?) in ' + self.demangle(fn.name))
        self.res.funcs.add(fn.name)

    def op_call(self, st, fr, ins):
        cal, args = ins.a
        p = self.val(st, fr, irparse.PTR, cal)
        p = self.toptr(p)
        if p.o not in self.fname:
            if p.o == 0:
                self.fail(st, 'control: call through a null function pointer')
            self.fail(st, 'control: call through an invalid function pointer')
        name = self.fname[p.o]
        av = [self.val(st, fr, t, v) for t, v, _ in args]
        return self.docall(st, fr, ins, name, av, args)

    def docall(self, st, fr, ins, name, av, args):
        al = self.m.aliases.get(name)
        if al is not None and al[0] == 'g':
            name = al[1]
        stub = self.contracts.get(name)
        if stub is not None and not any(f.stub == name for f in st.frames):
            self.res.replaced[name] = self.res.replaced.get(name, 0) + 1
            st.dec.clear()
            self.pushcall(st, self.m.funcs[stub], av, stub=name)
            return True
        h = self.ext.get(name)
        if h is None:
            fn = self.m.funcs.get(name)
            if fn is not None and not fn.isdecl:
                st.dec.clear()
                self.pushcall(st, fn, av)
                return True
            fn = self.m.funcs.get('v_os_' + name)
            if fn is not None and not fn.isdecl:
                st.dec.clear()
                self.pushcall(st, fn, av[:len(fn.params)])
                return True
            for pre, hh in self.extprefix:
                if name.startswith(pre):
                    h = hh
                    break
        if h is None:
            raise VerifError('unmodelled external function %s (%s), called at %s' % (name, self.demangle(name), self.where(st)))
        if not name.startswith('llvm.') and not name.startswith('__v_'):
            self.res.externs[name] = self.res.externs.get(name, 0) + 1
        r = h(st, fr, ins, av, name)
        if r.__class__ is str:
            return True
        if ins.dst is not None:
            fr.regs[ins.dst] = r
        if ins.op == 'invoke':
            return self.jump(st, fr, ins.x[0])
        return None

    # -------------------------------------------------------------- exceptions
    def ti_of(self, c):
        """typeinfo constant -> name"""
        if c == ('null',):
            return None
        if c[0] == 'g':
            return c[1]
        return str(c)

    def bases(self, st, ti):
        out = [ti]
        while True:
            g = self.m.globals.get(ti)
            nxt = None
            if g is not None and g.init is not None and g.init[0] == 'agg' and len(g.init[1]) >= 3:
                e = g.init[1][2][1]
                if isinstance(e, tuple) and e[0] == 'g':
                    nxt = e[1]
                elif len(g.init[1]) > 4:
                    # __vmi_class_type_info: first base only
                    e = g.init[1][4][1]
                    if isinstance(e, tuple) and e[0] == 'g':
                        nxt = e[1]
            if nxt is None:
                nxt = STD_BASES.get(ti)
            if nxt is None:
                return out
            out.append(nxt)
            ti = nxt

    def tyid(self, ti):
        i = self.tyids.get(ti)
        if i is None:
            i = self.tyids[ti] = len(self.tyids) + 1
        return i

    def throw(self, st, exc):
        """exc = (ptr, typeinfo name); unwinds to the innermost matching landing pad"""
        st.dec.clear()
        chain = self.bases(st, exc[1])
        while st.frames:
            fr = st.frames[-1]
            ins = fr.ins[fr.ip]
            if ins.op == 'invoke':
                lp = None
                for i2 in fr.fn.blocks[ins.x[1]]:
                    if i2.op == 'landingpad':
                        lp = i2
                        break
                cleanup, cl = lp.a
                sel = None
                for kind, c in cl:
                    if kind == 'catch':
                        ti = self.ti_of(c)
                        if ti is None or ti in chain:
                            sel = self.tyid(ti)
                            break
                    else:
                        sel = -1
                        break
                if sel is None and cleanup:
                    sel = 0
                if sel is not None:
                    st.curexc = (exc, sel & 0xffffffff)
                    self.jump(st, fr, ins.x[1])
                    return '$ctl'
            self.popframe(st)
        # uncaught
        raise PathEndUncaught(exc)

    def op_landingpad(self, st, fr, ins):
        exc, sel = st.curexc
        fr.regs[ins.dst] = [exc[0], sel]

    def op_resume(self, st, fr, ins):
        v = self.val(st, fr, ins.ty, ins.a[0])
        exc = st.curexc[0]
        # find the exception object that is being propagated
        p = v[0]
        ex = st.tags.get(('exc', p.o)) if p.__class__ is Ptr else None
        if ex is None:
            ex = exc
        # resume is not an invoke: pop this frame first
        self.popframe(st)
        if not st.frames:
            raise PathEndUncaught(ex)
        self.throw(st, ex)
        return True

    # -------------------------------------------------------------- run
    def run(self):
        t0 = time.time()
        self.t0 = t0
        st = State()
        st.frames = []
        st.objs = {}
        st.pc = []
        st.model = None
        st.nondets = []
        st.dec = {}
        st.sid = 0
        st.nextobj = 1
        st.caught = []
        st.curexc = None
        st.steps = 0
        st.depth = 0
        st.tags = {}
        st.trace = None
        st.traced = None
        r = self.solver.check()
        st.model = self.solver.model()
        self.init_globals(st)
        fn = self.m.funcs.get(self.entry)
        if fn is None or fn.isdecl:
            raise VerifError('no such harness ' + self.entry)
        self.pushcall(st, fn, [])
        # static constructors of the linked sources run first
        ctors = self.m.globals.get('llvm.global_ctors')
        if ctors is not None and ctors.init is not None and ctors.init[0] == 'agg':
            cs = []
            for t, c in ctors.init[1]:
                e = c[1][1][1]
                if isinstance(e, tuple) and e[0] == 'g':
                    cs.append((c[1][0][1], e[1]))
            for _, nm in reversed(sorted(cs, key=lambda x: x[0])):
                # push in reverse so that the first constructor runs first
                self.pushcall(st, self.m.funcs[nm], [])
                st.frames[-1].ret_to = 'ctor'
        self.work = [st]
        try:
            while self.work:
                s = self.work.pop()
                self.explore(s)
        except StopIteration:
            pass
        self.res.wall = time.time() - t0
        return self.res

    def explore(self, st):
        H = self.handlers
        cnt = 0
        try:
            while True:
                fr = st.frames[-1]
                ins = fr.ins[fr.ip]
                cnt += 1
                if cnt & 0xff == 0:
                    st.steps += 256
                    self.res.instrs += 256
                    if st.steps > self.step_limit:
                        raise VerifError('step limit at ' + self.where(st))
                    if time.time() - self.t0 > self.time_limit:
                        raise VerifError('time limit at ' + self.where(st))
                r = H[ins.op](st, fr, ins)
                if r is None:
                    fr.ip += 1
                    if st.dec:
                        st.dec.clear()
                elif r == 'end':
                    self.res.paths += 1
                    return
        except PathEndUncaught as e:
            self.res.obl.setdefault('control: no uncaught exception', [0, 0, 0])
            try:
                if not st.frames:
                    f = Frame()
                    f.fn = self.m.funcs[self.entry]
                    f.ins = f.fn.body()[f.fn.entry]
                    f.ip = 0
                    f.label = f.fn.entry
                    f.regs = {}
                    f.allocas = []
                    f.loopcnt = {}
                    f.stub = None
                    f.prev = None
                    f.ret_to = None
                    st.frames = [f]
                self.fail(st, 'control: no uncaught exception')
            except PathEnd:
                pass
            self.res.paths += 1
        except PathEnd:
            self.res.paths += 1


class PathEndUncaught(Exception):
    pass
