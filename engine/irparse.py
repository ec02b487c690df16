"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang produces
from /repo's real sources.  Function bodies are parsed lazily."""
import re
import struct as _struct

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<com>\$(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<meta>![\w.]*)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<flt>-?\d+\.\d+(?:e[+-]?\d+)?)
 | (?P<num>-?\d+)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[(){}\[\]<>,=*|:;])
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise IRError('tokenize: %r' % s[pos:pos + 60])
        k = m.lastgroup
        if k != 'ws':
            t = m.group()
            if k in ('loc', 'glob', 'com') and t[1] == '"':
                t = t[0] + _unq(t[2:-1])
            out.append((k, t))
        pos = m.end()
    return out


def _unq(s):
    if '\\' not in s:
        return s
    return re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'bits', 'n', 'el', 'fields', 'packed', 'name', '_size', '_align', '_offs', 'mod')

    def __init__(self, k, **kw):
        self.k = k
        self._size = None
        self._align = None
        self._offs = None
        for a, v in kw.items():
            setattr(self, a, v)

    def res(self):
        """resolve named structs"""
        if self.k == 'named':
            t = self.mod.types.get(self.name)
            if t is None:
                raise IRError('opaque type %s' % self.name)
            return t
        return self

    def size(self):
        if self._size is None:
            self._layout()
        return self._size

    def align(self):
        if self._align is None:
            self._layout()
        return self._align

    def offs(self):
        if self._offs is None:
            self._layout()
        return self._offs

    def _layout(self):
        k = self.k
        if k == 'int':
            b = self.bits
            sz = (b + 7) // 8
            al = 1
            while al < sz:
                al *= 2
            if al > 16:
                al = 16
            self._align = al
            self._size = (sz + al - 1) // al * al
        elif k == 'ptr':
            self._size = self._align = 8
        elif k == 'float':
            self._size = self._align = 4
        elif k == 'double':
            self._size = self._align = 8
        elif k == 'x86_fp80':
            self._size = self._align = 16
        elif k == 'array':
            self._size = self.n * self.el.size()
            self._align = self.el.align()
        elif k == 'vec':
            self._size = self.n * self.el.size()
            self._align = max(1, self._size)
        elif k == 'struct':
            off = 0
            mal = 1
            offs = []
            for f in self.fields:
                a = 1 if self.packed else f.align()
                off = (off + a - 1) // a * a
                offs.append(off)
                off += f.size()
                mal = max(mal, a)
            self._size = (off + mal - 1) // mal * mal
            self._align = mal
            self._offs = offs
        elif k == 'named':
            t = self.res()
            self._size = t.size()
            self._align = t.align()
            self._offs = t._offs
        elif k in ('void', 'func', 'metadata', 'label', 'token'):
            self._size = 0
            self._align = 1
        else:
            raise IRError('layout ' + k)

    def __repr__(self):
        k = self.k
        if k == 'int':
            return 'i%d' % self.bits
        if k == 'array':
            return '[%d x %r]' % (self.n, self.el)
        if k == 'struct':
            return '{%s}' % ','.join(map(repr, self.fields))
        if k == 'named':
            return '%' + self.name
        return k


_ints = {}


def IntTy(b):
    t = _ints.get(b)
    if t is None:
        t = _ints[b] = Ty('int', bits=b)
    return t


PTR = Ty('ptr')
VOID = Ty('void')
FLOAT = Ty('float')
DOUBLE = Ty('double')
FP80 = Ty('x86_fp80')
FUNC = Ty('func')
META = Ty('metadata')
LABEL = Ty('label')
TOKEN = Ty('token')

SKIPWORDS = set('''noundef nonnull noalias nocapture readonly writeonly readnone returned signext zeroext inreg
 nofree immarg nest swiftself writable dead_on_unwind nounwind willreturn mustprogress local_unnamed_addr
 unnamed_addr dso_local tail musttail notail fastcc coldcc ccc noreturn inrange allocptr noinline'''.split())
PARENATTR = set('align dereferenceable dereferenceable_or_null sret byval byref elementtype memory range nofpclass'.split())


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'm')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def eat(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise IRError('expected %r at %r' % (s, self.t[self.i:self.i + 8]))

    def done(self):
        return self.i >= len(self.t)

    # ---- types
    def type(self):
        k, s = self.t[self.i]
        self.i += 1
        if k == 'word':
            if s[0] == 'i' and s[1:].isdigit():
                t = IntTy(int(s[1:]))
            elif s == 'ptr':
                t = PTR
                if self.peek() == 'addrspace':
                    self.i += 4
            elif s == 'void':
                t = VOID
            elif s == 'float':
                t = FLOAT
            elif s == 'double':
                t = DOUBLE
            elif s == 'x86_fp80':
                t = FP80
            elif s == 'metadata':
                t = META
            elif s == 'label':
                t = LABEL
            elif s == 'token':
                t = TOKEN
            elif s == 'opaque':
                t = Ty('struct', fields=[], packed=False)
            else:
                raise IRError('type? %r' % (self.t[self.i - 1:self.i + 6],))
        elif k == 'loc':
            t = self.m.named(s[1:])
        elif s == '[':
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect(']')
            t = Ty('array', n=n, el=el)
        elif s == '{':
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            t = Ty('struct', fields=fs, packed=False)
        elif s == '<':
            if self.peek() == '{':
                self.next()
                fs = []
                if not self.eat('}'):
                    while True:
                        fs.append(self.type())
                        if self.eat('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = Ty('struct', fields=fs, packed=True)
            else:
                n = int(self.next())
                self.expect('x')
                el = self.type()
                self.expect('>')
                t = Ty('vec', n=n, el=el)
        else:
            raise IRError('type?? %r' % (self.t[self.i - 1:self.i + 6],))
        # function type suffix:   ret (args...)
        if self.peek() == '(' and k != 'x':
            # only in call/global context
            save = self.i
            try:
                self.next()
                if not self.eat(')'):
                    while True:
                        if self.eat('...'):
                            self.expect(')')
                            break
                        self.type()
                        self.skipattrs()
                        if self.eat(')'):
                            break
                        self.expect(',')
                t = Ty('func', el=t)
            except IRError:
                self.i = save
        return t

    def skipattrs(self):
        at = None
        while self.i < len(self.t):
            k, s = self.t[self.i]
            if k == 'word' and s in PARENATTR:
                self.i += 1
                if self.peek() == '(':
                    if s in ('byval', 'sret'):
                        self.next()
                        ty = self.type()
                        self.expect(')')
                        if at is None:
                            at = {}
                        at[s] = ty
                    else:
                        self.skipparen()
                elif s == 'align':
                    self.i += 1
            elif k == 'word' and s in SKIPWORDS:
                self.i += 1
            elif k == 'attr':
                self.i += 1
            elif k == 'str':
                self.i += 1
                if self.eat('='):
                    self.i += 1
            else:
                break
        return at

    def skipparen(self):
        d = 0
        while True:
            s = self.next()
            if s == '(':
                d += 1
            elif s == ')':
                d -= 1
                if d == 0:
                    return

    # ---- values; returns operand tuple
    #  ('r', name) register   ('c', const)   const forms:
    #     int | ('null',) | ('undef',) | ('zero',) | ('g', name) | ('agg', [..(ty,const)]) | ('str', bytes)
    #     | ('gep', ty, basety, base, idx[(ty,const)]) | ('cast', op, ty, const, toty) | ('bin', op, ty, a, b)
    def value(self, ty):
        k, s = self.t[self.i]
        if k == 'loc':
            self.i += 1
            return ('r', s[1:])
        return ('c', self.const(ty))

    def const(self, ty):
        k, s = self.t[self.i]
        self.i += 1
        if k == 'num':
            r = ty.res() if ty.k == 'named' else ty
            if r.k == 'int':
                return int(s) & ((1 << r.bits) - 1)
            return int(s)
        if k == 'glob':
            return ('g', s[1:])
        if k == 'word':
            if s == 'true':
                return 1
            if s == 'false':
                return 0
            if s == 'null' or s == 'none':
                return ('null',)
            if s in ('undef', 'poison'):
                return ('undef',)
            if s == 'zeroinitializer':
                return ('zero',)
            if s == 'getelementptr':
                self.eat('inbounds')
                self.expect('(')
                bt = self.type()
                self.expect(',')
                pt = self.type()
                base = self.const(pt)
                idx = []
                while self.eat(','):
                    self.eat('inrange')
                    it = self.type()
                    idx.append((it, self.const(it)))
                self.expect(')')
                return ('gep', bt, base, idx)
            if s in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                t0 = self.type()
                c = self.const(t0)
                self.expect('to')
                t1 = self.type()
                self.expect(')')
                return ('cast', s, t0, c, t1)
            if s in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                while self.peek() in ('nuw', 'nsw', 'exact'):
                    self.next()
                self.expect('(')
                t0 = self.type()
                a = self.const(t0)
                self.expect(',')
                t1 = self.type()
                b = self.const(t1)
                self.expect(')')
                return ('bin', s, t0, a, b)
            if s == 'no_cfi' or s == 'dso_local_equivalent':
                return self.const(ty)
            raise IRError('const? %r' % (self.t[self.i - 1:self.i + 6],))
        if k == 'cstr':
            raw = s[2:-1]
            b = bytearray()
            i = 0
            while i < len(raw):
                if raw[i] == '\\':
                    if raw[i + 1] == '\\':
                        b.append(0x5c)
                        i += 2
                    else:
                        b.append(int(raw[i + 1:i + 3], 16))
                        i += 3
                else:
                    b.append(ord(raw[i]))
                    i += 1
            return ('str', bytes(b))
        if s in ('[', '{', '<'):
            packed = False
            close = {'[': ']', '{': '}', '<': '>'}[s]
            if s == '<' and self.peek() == '{':
                self.next()
                close = '}'
                packed = True
            els = []
            if not self.eat(close):
                while True:
                    t = self.type()
                    els.append((t, self.const(t)))
                    if self.eat(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', els)
        if k in ('hex', 'flt'):
            return fconst(ty, s)
        raise IRError('const?? %r' % (self.t[self.i - 1:self.i + 6],))

    def tvalue(self):
        ty = self.type()
        at = self.skipattrs()
        return ty, self.value(ty), at


def fconst(ty, s):
    if s.startswith('0x'):
        if s[2] in 'KLMHR':
            return int(s[3:], 16)
        d = int(s[2:], 16)
        if ty.k == 'float':
            f = _struct.unpack('<d', _struct.pack('<Q', d))[0]
            return _struct.unpack('<I', _struct.pack('<f', f))[0]
        return d
    f = float(s)
    if ty.k == 'float':
        return _struct.unpack('<I', _struct.pack('<f', f))[0]
    return _struct.unpack('<Q', _struct.pack('<d', f))[0]


class Function:
    __slots__ = ('name', 'ret', 'params', 'raw', 'blocks', 'entry', 'mod', 'varargs', 'isdecl', 'attrs', '_loops', 'nounwind')

    def body(self):
        if self.blocks is None:
            self._parse()
        return self.blocks

    def _parse(self):
        self.blocks = {}
        cur = None
        lines = self.raw
        n = len(lines)
        i = 0
        label = None
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln.isspace():
                continue
            c0 = ln[0]
            if c0 != ' ':
                if c0 == ';':
                    continue
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', ln)
                if not m:
                    raise IRError('label? ' + ln)
                label = m.group(1)
                if label[0] == '"':
                    label = _unq(label[1:-1])
                cur = []
                self.blocks[label] = cur
                continue
            if cur is None:
                label = 'entry#'
                cur = []
                self.blocks[label] = cur
            s = ln
            # multi line forms
            st = s.strip()
            if st.startswith('switch ') and ']' not in st:
                while ']' not in lines[i]:
                    s += lines[i]
                    i += 1
                s += lines[i]
                i += 1
            elif 'invoke ' in st and re.search(r'(^|= )invoke ', st):
                while 'unwind label' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            elif 'landingpad' in st and re.search(r'= landingpad ', st):
                while i < n and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            dbg = None
            m = re.search(r', !dbg !(\d+)', s)
            if m:
                dbg = int(m.group(1))
            s = re.sub(r', ![\w.]+ ![\d{}]+', '', s)
            if '; preds' in s:
                s = s.split('; preds')[0]
            ins = parse_instr(s, self.mod)
            if ins is not None:
                ins.line = dbg
                cur.append(ins)
        self.entry = next(iter(self.blocks))
        if self.entry == 'entry#':
            # first unnamed block label is number of params
            num = str(len(self.params))
            b = self.blocks.pop('entry#')
            nb = {num: b}
            nb.update(self.blocks)
            self.blocks = nb
            self.entry = num


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'line', 'x')

    def __init__(self, op, dst, ty, a, x=None):
        self.op = op
        self.dst = dst
        self.ty = ty
        self.a = a
        self.x = x
        self.line = None

    def __repr__(self):
        return '%s %s %s %r' % (self.dst, self.op, self.ty, self.a)


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())
FLAGS = set('nuw nsw exact inbounds nnan ninf nsz arcp contract afn reassoc fast volatile atomic disjoint nneg samesign'.split())


def parse_instr(s, mod):
    p = P(tokenize(s), mod)
    dst = None
    if p.kind() == 'loc' and p.t[1][1] == '=':
        dst = p.next()[1:]
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        flags = set()
        while p.peek() in FLAGS:
            flags.add(p.next())
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Instr(op, dst, ty, (a, b), flags)
    if op in CASTS:
        while p.peek() in FLAGS:
            p.next()
        t0 = p.type()
        a = p.value(t0)
        p.expect('to')
        t1 = p.type()
        return Instr(op, dst, t1, (a,), t0)
    if op == 'load':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        p.expect(',')
        pt = p.type()
        a = p.value(pt)
        return Instr('load', dst, ty, (a,))
    if op == 'store':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        pt = p.type()
        a = p.value(pt)
        return Instr('store', None, ty, (v, a))
    if op == 'getelementptr':
        flags = set()
        while p.peek() in FLAGS:
            flags.add(p.next())
        bt = p.type()
        p.expect(',')
        pt = p.type()
        base = p.value(pt)
        idx = []
        while p.eat(','):
            it = p.type()
            idx.append((it, p.value(it)))
        return Instr('gep', dst, bt, (base, idx), flags)
    if op == 'alloca':
        p.eat('inalloca')
        ty = p.type()
        n = None
        while p.eat(','):
            if p.eat('align'):
                p.next()
            elif p.eat('addrspace'):
                p.skipparen()
            else:
                nt = p.type()
                n = p.value(nt)
        return Instr('alloca', dst, ty, (n,))
    if op == 'br':
        if p.eat('label'):
            return Instr('br', None, None, (p.next()[1:],))
        ty = p.type()
        c = p.value(ty)
        p.expect(',')
        p.expect('label')
        t = p.next()[1:]
        p.expect(',')
        p.expect('label')
        f = p.next()[1:]
        return Instr('condbr', None, None, (c, t, f))
    if op == 'switch':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:]
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            c = p.const(ct)
            p.expect(',')
            p.expect('label')
            cases.append((c, p.next()[1:]))
        return Instr('switch', None, ty, (v, d, cases))
    if op == 'ret':
        ty = p.type()
        if ty.k == 'void':
            return Instr('ret', None, ty, (None,))
        return Instr('ret', None, ty, (p.value(ty),))
    if op == 'unreachable':
        return Instr('unreachable', None, None, ())
    if op == 'icmp' or op == 'fcmp':
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Instr(op, dst, ty, (pred, a, b))
    if op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            b = p.next()[1:]
            p.expect(']')
            inc.append((v, b))
            if not p.eat(','):
                break
        return Instr('phi', dst, ty, inc)
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t1 = p.type()
        a = p.value(t1)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        return Instr('select', dst, t1, (c, a, b))
    if op in ('call', 'invoke'):
        while p.peek() in FLAGS:
            p.next()
        p.skipattrs()
        ty = p.type()
        if ty.k == 'func':
            ty = ty.el
        p.skipattrs()
        if p.peek() == 'asm':
            return Instr('asm', dst, ty, ())
        callee = p.value(PTR)
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                aty = p.type()
                at = p.skipattrs()
                if aty.k == 'metadata':
                    # debug intrinsic
                    return None
                args.append((aty, p.value(aty), at))
                if p.eat(')'):
                    break
                p.expect(',')
        x = None
        if op == 'invoke':
            p.skipattrs()
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            n = p.next()[1:]
            p.expect('unwind')
            p.expect('label')
            u = p.next()[1:]
            x = (n, u)
        return Instr(op, dst, ty, (callee, args), x)
    if op == 'extractvalue':
        ty = p.type()
        a = p.value(ty)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return Instr(op, dst, ty, (a, idx))
    if op == 'insertvalue':
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return Instr(op, dst, ty, (a, b, idx), t2)
    if op == 'landingpad':
        ty = p.type()
        cl = []
        cleanup = False
        while not p.done():
            w = p.next()
            if w == 'cleanup':
                cleanup = True
            elif w == 'catch':
                t = p.type()
                cl.append(('catch', p.const(t)))
            elif w == 'filter':
                t = p.type()
                cl.append(('filter', p.const(t)))
        return Instr(op, dst, ty, (cleanup, cl))
    if op == 'resume':
        ty = p.type()
        return Instr(op, None, ty, (p.value(ty),))
    if op == 'freeze':
        ty = p.type()
        return Instr(op, dst, ty, (p.value(ty),))
    if op in ('cmpxchg', 'atomicrmw'):
        while p.peek() in FLAGS:
            p.next()
        if op == 'atomicrmw':
            sub = p.next()
            pt = p.type()
            a = p.value(pt)
            p.expect(',')
            ty = p.type()
            v = p.value(ty)
            return Instr(op, dst, ty, (sub, a, v))
        pt = p.type()
        a = p.value(pt)
        p.expect(',')
        ty = p.type()
        c = p.value(ty)
        p.expect(',')
        ty2 = p.type()
        v = p.value(ty2)
        return Instr(op, dst, ty, (a, c, v))
    if op == 'fence':
        return None
    if op == 'fneg':
        ty = p.type()
        return Instr(op, dst, ty, (p.value(ty),))
    raise IRError('instr? ' + s)


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'extern', 'raw')


LINK = set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr
 external dso_local dso_preemptable hidden protected default thread_local unnamed_addr local_unnamed_addr
 externally_initialized'''.split())


class Module:
    def __init__(self, path):
        self.types = {}
        self._named = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self.dbglines = {}
        self.path = path
        self.load(path)

    def named(self, n):
        t = self._named.get(n)
        if t is None:
            t = self._named[n] = Ty('named', name=n, mod=self)
        return t

    def load(self, path):
        with open(path) as f:
            lines = f.read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == '%':
                toks = tokenize(ln)
                p = P(toks, self)
                name = p.next()[1:]
                p.expect('=')
                p.expect('type')
                if p.peek() == 'opaque':
                    continue
                self.types[name] = p.type()
            elif c == '@':
                self._global(ln)
            elif c == 'd' and ln.startswith('define '):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                self._func(ln, body)
            elif c == 'd' and ln.startswith('declare '):
                self._func(ln, None)
            elif c == '!':
                m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', ln)
                if m:
                    self.dbglines[int(m.group(1))] = int(m.group(2))

    def _global(self, ln):
        ln = re.sub(r', !dbg !\d+', '', ln)
        ln = re.sub(r', ![\w.]+ ![\d{}]+', '', ln)
        m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = ', ln)
        name = m.group(1)
        if name[0] == '"':
            name = _unq(name[1:-1])
        rest = ln[m.end():]
        g = Global()
        g.name = name
        g.raw = rest
        g.extern = False
        g.const = False
        p = P(tokenize(rest), self)
        while True:
            w = p.peek()
            if w in LINK:
                if w in ('external', 'extern_weak'):
                    g.extern = True
                p.next()
                if w == 'thread_local' and p.peek() == '(':
                    p.skipparen()
            elif w == 'comdat':
                p.next()
                if p.peek() == '(':
                    p.skipparen()
            elif w == 'addrspace':
                p.next()
                p.skipparen()
            else:
                break
        w = p.next()
        if w == 'alias':
            p.type()
            p.expect(',')
            t = p.type()
            self.aliases[name] = p.const(t)
            return
        if w not in ('global', 'constant'):
            raise IRError('global? ' + ln[:200])
        g.const = (w == 'constant')
        g.ty = p.type()
        g.init = None
        if not g.extern:
            g.init = p.const(g.ty)
        self.globals[name] = g

    def _func(self, ln, body):
        f = Function()
        f.mod = self
        f.raw = body
        f.blocks = None
        f.isdecl = body is None
        f._loops = None
        ln = re.sub(r' !dbg !\d+', '', ln)
        ln = re.sub(r' ![\w.]+ !\d+', '', ln)
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', ln)
        name = m.group(1)
        if name[0] == '"':
            name = _unq(name[1:-1])
        f.name = name
        head = ln[:m.start()]
        toks = tokenize(head)
        p = P(toks, self)
        p.next()
        while p.peek() in LINK or p.peek() in SKIPWORDS:
            p.next()
        p.skipattrs()
        while p.peek() in LINK:
            p.next()
        p.skipattrs()
        f.ret = p.type()
        rest = ln[m.end() - 1:]
        p = P(tokenize(rest.rstrip(' {')), self)
        p.expect('(')
        f.params = []
        f.varargs = False
        if not p.eat(')'):
            k = 0
            while True:
                if p.eat('...'):
                    f.varargs = True
                    p.expect(')')
                    break
                ty = p.type()
                at = p.skipattrs()
                nm = None
                if p.kind() == 'loc':
                    nm = p.next()[1:]
                else:
                    nm = str(k)
                k += 1
                f.params.append((ty, nm, at))
                if p.eat(')'):
                    break
                p.expect(',')
        self.funcs[name] = f
