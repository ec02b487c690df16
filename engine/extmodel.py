"""Models of functions whose bodies are not in /repo: compiler intrinsics, the C/C++ runtime and the
verification primitives of spec/verif.h.  Every runtime model used in a run is listed in the evidence
as trusted base."""
import z3
from symex import *
from symex import PathEndUncaught
import irparse


def table(E):
    T = {}

    def reg(*names):
        def d(f):
            for n in names:
                T[n] = f
            return f
        return d

    # ---------------------------------------------------- verification primitives
    @reg('__v_nondet')
    def _nondet(st, fr, ins, av, nm):
        # u64 __v_nondet(unsigned bits, const char* name)
        bits = av[0]
        name = E.cstr(st, av[1])
        if E.concrete is not None:
            v = E.concrete.scalar(name, bits)
            st.nondets.append(('s', name, bits, z3.BitVecVal(v, bits)))
            return v
        E.fresh += 1
        x = z3.BitVec('%s!%d' % (name, E.fresh), bits)
        st.nondets.append(('s', name, bits, x))
        return x if bits == 64 else z3.ZeroExt(64 - bits, x)

    @reg('__v_bytes')
    def _bytes(st, fr, ins, av, nm):
        E.havoc_bytes(st, E.toptr(av[0]), av[1], E.cstr(st, av[2]))
        return None

    @reg('__v_assume')
    def _assume(st, fr, ins, av, nm):
        c = av[0]
        c = int(c != 0) if is_c(c) else (c if z3.is_bool(c) else c != 0)
        E.assume(st, c)
        return None

    @reg('__v_check')
    def _check(st, fr, ins, av, nm):
        c = av[0]
        if c is UNDEF:
            c = E.freshbv(32, 'undef')
        c = int(c != 0) if is_c(c) else (c if z3.is_bool(c) else c != 0)
        E.check(st, c, E.cstr(st, av[1]))
        return None

    @reg('__v_cover')
    def _cover(st, fr, ins, av, nm):
        n = E.cstr(st, av[0])
        E.res.covers[n] = E.res.covers.get(n, 0) + 1
        return None

    @reg('__v_copy_swap')
    def _cpx(st, fr, ins, av, nm):
        # dst[i] = src[i ^ 1], i < n
        E.copy(st, E.toptr(av[0]), E.toptr(av[1]), av[2], x=1)
        return None

    @reg('__v_havoc')
    def _havoc(st, fr, ins, av, nm):
        # unconstrained bytes that are not harness inputs (frame havoc in contracts)
        p = E.toptr(av[0])
        n = simp(av[1])
        E.access(st, p, n, 'w')
        off = E.fixoff(st, p)
        E.fresh += 1
        arr = z3.Array('havoc!%d' % E.fresh, z3.BitVecSort(64), z3.BitVecSort(8))
        o = E.wobj(st, p.o)
        if is_c(n) and is_c(off) and n <= 64:
            for k in range(n):
                E.put(o, off + k, 1, z3.Select(arr, z3.BitVecVal(k, 64)))
        else:
            E.pushlayer(o, ('arr', off, n, arr, p.lo, p.hi))
        return None

    @reg('__v_havoc_data')
    def _havocd(st, fr, ins, av, nm):
        # as __v_havoc, but bytes that are part of a pointer stay
        p = E.toptr(av[0])
        n = simp(av[1])
        E.access(st, p, n, 'w')
        o = E.wobj(st, p.o)
        for k in range(n):
            e = E.entry_at(st, o.layers, p.off + k)
            if e[0].__class__ is not Ptr:
                E.put(o, p.off + k, 1, E.freshbv(8, 'field'))
        return None

    @reg('__v_split')
    def _split(st, fr, ins, av, nm):
        # case split: continue once per feasible value
        return E.concretize(st, av[0], 5000)

    @reg('__v_simp')
    def _simpv(st, fr, ins, av, nm):
        return E.fixoff(st, Ptr(0, av[0]))

    @reg('__v_is_symbolic')
    def _issym(st, fr, ins, av, nm):
        return 1

    @reg('__v_case')
    def _case(st, fr, ins, av, nm):
        name = E.cstr(st, av[1])
        v = getattr(E, 'case', None)
        if v is None:
            return _nondet(st, fr, ins, [32, av[1]], nm)
        st.nondets.append(('s', name, 32, z3.BitVecVal(v, 32)))
        return v

    @reg('__v_alive')
    def _alive(st, fr, ins, av, nm):
        p = E.toptr(av[0])
        o = st.objs.get(p.o)
        return 1 if o is not None and not o.freed else 0

    # ---------------------------------------------------- memory
    def memcpy(st, fr, ins, av, nm):
        E.copy(st, E.toptr(av[0]), E.toptr(av[1]), av[2])
        return av[0]

    T['memcpy'] = T['memmove'] = memcpy

    @reg('memset')
    def memset(st, fr, ins, av, nm):
        b = av[1]
        if b.__class__ is int:
            b &= 0xff
        elif b is not UNDEF and b.size() > 8:
            b = z3.Extract(7, 0, b)
        E.fill(st, E.toptr(av[0]), b, av[2])
        return av[0]

    @reg('bzero')
    def bzero(st, fr, ins, av, nm):
        E.fill(st, E.toptr(av[0]), 0, av[1])
        return None

    def new(st, fr, ins, av, nm):
        n = av[-1] if nm == 'calloc' else av[0]
        if nm == 'calloc':
            n = E.binop(st, 'mul', 64, av[0], av[1])
        n = simp(n) if not is_c(n) else n
        if not is_c(n):
            E.res.notes.add('operator new never fails; symbolic allocation sizes below 2^39')
            E.assume(st, z3.ULT(n, 1 << 39))
        elif n >= (1 << 39):
            if nm in ('malloc', 'calloc') or 'nothrow' in nm:
                return NULL
            return E.throw(st, mkexc(st, '_ZTISt9bad_alloc'))
        o = E.newobj(st, n, 'heap', nm, ('zero',) if nm == 'calloc' else None)
        return Ptr(o.id, 0)

    for n in ('_Znwm', '_Znam', 'malloc', 'calloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', '_ZnwmSt11align_val_t'):
        T[n] = new

    def delete(st, fr, ins, av, nm):
        p = E.toptr(av[0])
        if p.o == 0:
            return None
        o = st.objs.get(p.o)
        E.check(st, int(o is not None and not o.freed), 'memory: no double free')
        E.check(st, int(o.kind == 'heap' and is_c(p.off) and p.off == 0), 'memory: delete of a heap object')
        w = E.wobj(st, p.o)
        w.freed = True
        w.layers = [('undef', w.id), {}]
        return None

    for n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t'):
        T[n] = delete

    @reg('htons', 'ntohs', 'htonl', 'ntohl')
    def hton(st, fr, ins, av, nm):
        n = 16 if nm[-1] == 's' else 32
        a = av[0]
        a = bv(E.num(a, n), n)
        if a.size() > n:
            a = z3.Extract(n - 1, 0, a)
        return simp(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, a) for k in range(n // 8)]))

    @reg('memcmp', '__builtin_memcmp', 'bcmp')
    def memcmp(st, fr, ins, av, nm):
        a, b = E.toptr(av[0]), E.toptr(av[1])
        n = E.concretize(st, av[2])
        if n == 0:
            return 0
        ao = E.access(st, a, n, 'r')
        bo = E.access(st, b, n, 'r')
        aoff, boff = E.fixoff(st, a), E.fixoff(st, b)
        r = 0
        bs = []
        for k in range(n):
            x = E.rd(st, ao, E.addoff(aoff, k), 1)
            y = E.rd(st, bo, E.addoff(boff, k), 1)
            x = E.freshbv(8, 'undef') if x is UNDEF else x
            y = E.freshbv(8, 'undef') if y is UNDEF else y
            bs.append((E.fromraw(x, irparse.IntTy(8), 1), E.fromraw(y, irparse.IntTy(8), 1)))
        for x, y in reversed(bs):
            if is_c(x) and is_c(y):
                if x != y:
                    r = 1 if x > y else 0xffffffff
            else:
                X, Y = bv(x, 8), bv(y, 8)
                r = z3.If(X == Y, bv(r, 32), z3.If(z3.ULT(X, Y), z3.BitVecVal(0xffffffff, 32), z3.BitVecVal(1, 32)))
        return simp(r)

    @reg('strlen')
    def strlen(st, fr, ins, av, nm):
        p = E.toptr(av[0])
        k = 0
        while True:
            q = Ptr(p.o, E.addoff(p.off, k), p.lo, p.hi)
            b = E.load(st, q, irparse.IntTy(8))
            if b is UNDEF:
                b = E.freshbv(8, 'undef')
            z = int(b == 0) if is_c(b) else b == 0
            if E.decide(st, z):
                return k
            k += 1
            if k > 5000:
                raise VerifError('strlen')

    # ---------------------------------------------------- exceptions
    def excobj(st, n):
        # a libstdc++ exception object: its virtual functions (what) return some text
        o = E.newobj(st, n, 'heap', 'exception')
        vt = E.newobj(st, 64, 'heap', 'exception vtable')
        for k in range(8):
            E.storev(st, Ptr(vt.id, 8 * k), irparse.PTR, E.funcptr('__v_exc_virtual'))
        if n >= 8:
            E.storev(st, Ptr(o.id, 0), irparse.PTR, Ptr(vt.id, 0))
        return st.objs[o.id]

    @reg('__v_exc_virtual')
    def exc_what(st, fr, ins, av, nm):
        o = E.newobj(st, 1, 'heap', 'what', ('zero',))
        return Ptr(o.id, 0)

    def mkexc(st, ti):
        o = excobj(st, 16)
        e = (Ptr(o.id, 0), ti)
        st.tags[('exc', o.id)] = e
        return e

    @reg('__cxa_allocate_exception')
    def alloc_exc(st, fr, ins, av, nm):
        o = excobj(st, av[0])
        return Ptr(o.id, 0)

    @reg('__cxa_free_exception')
    def free_exc(st, fr, ins, av, nm):
        return None

    @reg('__cxa_throw')
    def cxa_throw(st, fr, ins, av, nm):
        ti = '?'
        p = av[1]
        for n, oid in E.gobj.items():
            if oid == p.o:
                ti = n
                break
        e = (av[0], ti)
        st.tags[('exc', av[0].o)] = e
        return E.throw(st, e)

    @reg('__cxa_rethrow')
    def rethrow(st, fr, ins, av, nm):
        if not st.caught:
            E.fail(st, 'control: rethrow with no active exception (terminate)')
        return E.throw(st, st.caught[-1])

    @reg('__cxa_begin_catch')
    def begin_catch(st, fr, ins, av, nm):
        p = E.toptr(av[0])
        e = st.tags.get(('exc', p.o)) or st.curexc[0]
        st.caught.append(e)
        return p

    @reg('__cxa_end_catch')
    def end_catch(st, fr, ins, av, nm):
        if st.caught:
            st.caught.pop()
        return None

    @reg('__cxa_get_exception_ptr')
    def getp(st, fr, ins, av, nm):
        return av[0]

    @reg('_ZSt9terminatev', '__clang_call_terminate', 'abort', '__cxa_pure_virtual', '__cxa_call_unexpected',
         '_ZSt21__glibcxx_assert_failPKciS0_S0_', '__assert_fail', '__cxa_throw_bad_array_new_length', '__stack_chk_fail')
    def terminate(st, fr, ins, av, nm):
        E.fail(st, 'control: no terminate/abort')

    @reg('exit', '_exit', 'quick_exit')
    def exit_(st, fr, ins, av, nm):
        E.fail(st, 'control: no process exit')

    for fn, ti in THROWERS.items():
        def thr(st, fr, ins, av, nm, ti=ti):
            return E.throw(st, mkexc(st, ti))
        T[fn] = thr

    @reg('__cxa_guard_acquire')
    def ga(st, fr, ins, av, nm):
        p = E.toptr(av[0])
        v = E.load(st, p, irparse.IntTy(8))
        return 0 if v else 1

    @reg('__cxa_guard_release')
    def gr(st, fr, ins, av, nm):
        E.storev(st, E.toptr(av[0]), irparse.IntTy(8), 1)
        return None

    @reg('__cxa_guard_abort', '__cxa_thread_atexit')
    def gab(st, fr, ins, av, nm):
        return 0

    @reg('__cxa_atexit', 'atexit', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev')
    def zero(st, fr, ins, av, nm):
        return 0

    @reg('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_init', 'pthread_mutex_destroy',
         '__pthread_key_create', 'pthread_mutex_trylock')
    def mtx(st, fr, ins, av, nm):
        return 0

    @reg('snprintf', 'vsnprintf')
    def snprintf(st, fr, ins, av, nm):
        n = av[1]
        if not (is_c(n) and n == 0):
            E.access(st, E.toptr(av[0]), n, 'w')
        return E.freshbv(32, 'printed')

    @reg('sprintf')
    def sprintf(st, fr, ins, av, nm):
        # upper bound of the text; an argument of unknown length counts with the room its object has
        p = E.toptr(av[0])
        fmt = E.cstr(st, av[1])
        n = len(fmt) + 1
        k = 2
        import re as _re
        for m in _re.finditer(r'%[-+ 0-9.]*(?:hh|h|ll|l|z|j)?([a-zA-Z%])', fmt):
            if m.group(1) == '%':
                continue
            if m.group(1) == 's':
                q = E.toptr(av[k])
                o = st.objs.get(q.o)
                if o is None or not is_c(q.off):
                    n += 1 << 20
                else:
                    ln = 0
                    off = q.off
                    while is_c(o.size) and off + ln < o.size:
                        b = E.entry_at(st, o.layers, off + ln)[0]
                        if b.__class__ is int and b == 0:
                            break
                        ln += 1
                    n += ln if is_c(o.size) else 1 << 20
            else:
                n += 22
            k += 1
        E.access(st, p, n, 'w')
        return E.freshbv(32, 'printed')

    @reg('printf', 'fprintf', 'puts', 'putchar', 'fflush', 'fwrite', 'fputc', 'fputs')
    def pr(st, fr, ins, av, nm):
        return 0

    # exception classes of libstdc++: opaque objects
    def nop(st, fr, ins, av, nm):
        return None
    for c in ('St9exception', 'St13runtime_error', 'St11logic_error', 'St12length_error', 'St12out_of_range',
              'St16invalid_argument', 'St9bad_alloc', 'St12domain_error'):
        base = c[2:] if False else c
        nmn = base[2:]
        T['_ZN%s%sC1EPKc' % (base[:2], nmn)] = nop
    T['_ZNSt9exceptionD2Ev'] = nop
    T['_ZNSt9exceptionD1Ev'] = nop
    for n, l in (('runtime_error', 13), ('logic_error', 11), ('length_error', 12), ('out_of_range', 12), ('invalid_argument', 16), ('domain_error', 12)):
        for k in ('C1EPKc', 'C2EPKc', 'D1Ev', 'D2Ev', 'C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', 'D0Ev'):
            T['_ZNSt%d%s%s' % (l, n, k)] = nop

    # text output is not observable
    def ostr(st, fr, ins, av, nm):
        return av[0]
    for n in ('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc', '_ZNSolsEPFRSoS_E', '_ZNSolsEi', '_ZNSolsEj',
              '_ZNSolsEm', '_ZNSolsEl', '_ZNSolsEb', '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c',
              '_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE',
              '_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_', '_ZNSo5flushEv'):
        T[n] = ostr

    @reg('pthread_attr_init', 'pthread_attr_destroy', 'pthread_join', 'pthread_attr_setschedpolicy', 'pthread_create')
    def pth(st, fr, ins, av, nm):
        return 0

    return T


def prefixes(E):
    def nop(st, fr, ins, av, nm):
        return None

    def memcpy(st, fr, ins, av, nm):
        E.copy(st, E.toptr(av[0]), E.toptr(av[1]), av[2])
        return None

    def memset(st, fr, ins, av, nm):
        b = av[1]
        E.fill(st, E.toptr(av[0]), b, av[2])
        return None

    def ovf(st, fr, ins, av, nm):
        n = int(nm.rsplit('.i', 1)[1])
        k = nm.split('.')[1]
        a, b = E.num(av[0], n), E.num(av[1], n)
        A, B = bv(a, n), bv(b, n)
        if k == 'umul':
            w = z3.ZeroExt(n, A) * z3.ZeroExt(n, B)
            o = z3.Extract(2 * n - 1, n, w) != 0
            r = A * B
        elif k == 'uadd':
            w = z3.ZeroExt(1, A) + z3.ZeroExt(1, B)
            o = z3.Extract(n, n, w) == 1
            r = A + B
        elif k == 'usub':
            o = z3.ULT(A, B)
            r = A - B
        elif k == 'sadd':
            w = z3.SignExt(1, A) + z3.SignExt(1, B)
            r = A + B
            o = w != z3.SignExt(1, r)
        elif k == 'ssub':
            w = z3.SignExt(1, A) - z3.SignExt(1, B)
            r = A - B
            o = w != z3.SignExt(1, r)
        else:
            w = z3.SignExt(n, A) * z3.SignExt(n, B)
            r = A * B
            o = w != z3.SignExt(n, r)
        return [simp(r), simp(o)]

    def minmax(st, fr, ins, av, nm):
        k = nm.split('.')[1]
        n = int(nm.rsplit('.i', 1)[1])
        a, b = bv(E.num(av[0], n), n), bv(E.num(av[1], n), n)
        c = {'umin': z3.ULT(a, b), 'umax': z3.UGT(a, b), 'smin': a < b, 'smax': a > b}[k]
        return simp(z3.If(c, a, b))

    def bswap(st, fr, ins, av, nm):
        n = int(nm.rsplit('.i', 1)[1])
        a = bv(E.num(av[0], n), n)
        return simp(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, a) for k in range(n // 8)]))

    def absf(st, fr, ins, av, nm):
        n = int(nm.rsplit('.i', 1)[1])
        a = bv(E.num(av[0], n), n)
        return simp(z3.If(a < 0, -a, a))

    def trap(st, fr, ins, av, nm):
        E.fail(st, 'control: trap (undefined behaviour, e.g. missing return)')

    def typeid(st, fr, ins, av, nm):
        p = av[0]
        for n, oid in E.gobj.items():
            if oid == p.o:
                return E.tyid(n)
        raise VerifError('typeid')

    def expect(st, fr, ins, av, nm):
        return av[0]

    def ctz(st, fr, ins, av, nm):
        n = int(nm.rsplit('.i', 1)[1])
        a = bv(E.num(av[0], n), n)
        r = z3.BitVecVal(n, n)
        rng = range(n - 1, -1, -1) if 'cttz' in nm else range(n)
        for k in rng:
            r = z3.If(z3.Extract(k, k, a) == 1, z3.BitVecVal(k if 'cttz' in nm else n - 1 - k, n), r)
        return simp(r)

    def isconst(st, fr, ins, av, nm):
        return 0

    return [
        ('llvm.memcpy', memcpy), ('llvm.memmove', memcpy), ('llvm.memset', memset),
        ('llvm.umul.with', ovf), ('llvm.uadd.with', ovf), ('llvm.usub.with', ovf), ('llvm.sadd.with', ovf),
        ('llvm.ssub.with', ovf), ('llvm.smul.with', ovf),
        ('llvm.umin', minmax), ('llvm.umax', minmax), ('llvm.smin', minmax), ('llvm.smax', minmax),
        ('llvm.bswap', bswap), ('llvm.abs', absf), ('llvm.trap', trap), ('llvm.eh.typeid.for', typeid),
        ('llvm.expect', expect), ('llvm.assume', nop), ('llvm.dbg', nop), ('llvm.lifetime', nop),
        ('llvm.stacksave', lambda *a: NULL), ('llvm.stackrestore', nop), ('llvm.cttz', ctz), ('llvm.ctlz', ctz),
        ('llvm.is.constant', isconst), ('llvm.va_', nop), ('llvm.experimental.noalias', nop), ('llvm.donothing', nop),
        ('_ZNSt9bad_alloc', nop),
    ]
