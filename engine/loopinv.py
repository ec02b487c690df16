"""Loop invariants found and proved automatically.

A loop whose number of iterations is symbolic forks the execution once per iteration.  After a number of iterations that
forked, the loop rule is tried instead of going on:

  template   state(I) = the present state with every register / memory cell that the loop moves by a constant c replaced
             by value + c*I, and every array the loop fills from another one (or with a constant) filled for I elements
  invariant  I <= bound, and the conditions that led through the loop held in the iteration before (or I = 0)

proved by executing the body once from state(I), for an arbitrary I: every obligation in the body holds, each path that
comes back to the head of the loop arrives in state(I+1) with the invariant again, and the paths that leave the loop are
continued (they stand for every number of iterations).  The invariant must also be exact (it implies that all earlier
iterations could be passed), so that what is concluded behind the loop is neither more nor less than what the loop does.
When any of this can not be proved the loop is unrolled as before: no result depends on the guess.
"""
import z3
import symex
from symex import Ptr, UNDEF, is_c, bv, simp, MASK64

BOUNDS = (1 << 14, 1 << 20, 1 << 30)


class Reject(Exception):
    pass


class BackEdge(Exception):
    pass


def succs(b):
    i = b[-1]
    if i.op == 'br':
        return [i.a[0]]
    if i.op == 'condbr':
        return [i.a[1], i.a[2]]
    if i.op == 'switch':
        return [i.a[1]] + [l for _, l in i.a[2]]
    if i.op == 'invoke':
        return list(i.x)
    return []


def loops_of(fn):
    """header -> set of blocks, for the natural loops of a function"""
    blocks = fn.blocks
    sc = {l: succs(b) for l, b in blocks.items()}
    pred = {l: [] for l in blocks}
    for l, ss in sc.items():
        for s in ss:
            pred[s].append(l)
    order, seen, todo = [], set(), [(fn.entry, iter(sc[fn.entry]))]
    seen.add(fn.entry)
    while todo:
        l, it = todo[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                todo.append((s, iter(sc[s])))
                break
        else:
            order.append(l)
            todo.pop()
    order.reverse()
    dom = {fn.entry: {fn.entry}}
    change = True
    while change:
        change = False
        for l in order:
            if l == fn.entry:
                continue
            ps = [dom[p] for p in pred[l] if p in dom]
            if not ps:
                continue
            d = set.intersection(*ps) | {l}
            if dom.get(l) != d:
                dom[l] = d
                change = True
    out = {}
    for l in order:
        for s in sc[l]:
            if s in dom.get(l, ()):
                body = out.setdefault(s, {s})
                st = [l]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(pred[x])
    return out


def diff(a, b):
    """b - a when it is a constant, else None; a, b register or memory values"""
    if a is b:
        return 0
    if a is UNDEF or b is UNDEF or a is None or b is None:
        return None
    if a.__class__ is Ptr or b.__class__ is Ptr:
        if a.__class__ is not Ptr or b.__class__ is not Ptr or a.o != b.o:
            return None
        return diff(a.off, b.off)
    if a.__class__ is list or b.__class__ is list:
        return None
    if is_c(a) and is_c(b):
        return b - a
    n = a.size() if not is_c(a) and z3.is_bv(a) else (b.size() if not is_c(b) and z3.is_bv(b) else None)
    if n is None:
        return 0 if not is_c(a) and not is_c(b) and a.eq(b) else None
    d = simp(bv(b, n) - bv(a, n))
    if not is_c(d):
        return None
    return d - (1 << n) if d >> (n - 1) else d


class LoopManager:
    def __init__(self, eng, first):
        self.e = eng
        first = str(first)
        self.strict = first.endswith('!')     # a loop that forks must be decided by an invariant
        self.first = max(int(first.rstrip('!')), 4)
        self.cache = {}
        self.busy = None
        self.done = 0

    def info(self, fn):
        r = self.cache.get(fn.name)
        if r is None:
            r = self.cache[fn.name] = loops_of(fn)
        return r

    def at_header(self, st, fr, label, prev):
        if self.busy is not None:
            if self.busy == (len(st.frames), label):
                raise BackEdge()
            return
        body = self.info(fr.fn).get(label)
        if body is None:
            if st.trace is not None and st.traced[0] == len(st.frames) and label not in st.traced[1]:
                st.trace = None
            return
        key = ('L', label)
        if prev not in body:
            fr.loopcnt[key] = (0, 0, len(st.pc), ())
            st.trace = None
            return
        cnt, idle, pl, hist = fr.loopcnt.get(key, (0, 0, len(st.pc), ()))
        if cnt < 0:
            return
        if len(st.pc) == pl:
            # an iteration that did not fork; a run of them: the number of iterations is known
            idle += 1
            if idle > 8 or not cnt:
                fr.loopcnt[key] = (0, 0, pl, ())
                st.trace = None
                return
        else:
            idle = 0
        cnt += 1
        if cnt >= self.first - 2:
            tr = st.trace
            if hist and (tr is None or len(tr) > 20000):
                fr.loopcnt[key] = (-1, 0, 0, ())
                st.trace = None
                return
            st.trace = None
            snap = st.clone()
            hist = hist + ((snap, tr),)
            if len(hist) == 3:
                fr.loopcnt[key] = (-1, 0, 0, ())
                if self.attempt(st, fr, label, body, hist):
                    raise symex.PathEnd()
                return
            st.trace = []
            st.traced = (len(st.frames), body)
        fr.loopcnt[key] = (cnt, idle, len(st.pc), hist)

    # ------------------------------------------------------------ template
    def stores(self, tr, old):
        """stores of one iteration to objects that existed before it"""
        out = []
        i = 0
        while i < len(tr):
            t = tr[i]
            if t[0] == 'w' and t[1] in old:
                if i + 1 >= len(tr) or tr[i + 1][0] != 's' or tr[i + 1][1] != t[1]:
                    raise Reject('write')
                while i + 1 < len(tr) and tr[i + 1][0] == 's' and tr[i + 1][1] == t[1]:
                    i += 1
                    out.append(tr[i])
            i += 1
        return out

    def cell(self, st, oid, off, n):
        return self.e.rd(st, st.objs[oid], off, n)

    def template(self, fr, label, h):
        (s0, _), (s1, t1), (s2, t2) = h
        d = len(s0.frames)
        if set(s0.objs) != set(s1.objs) or set(s1.objs) != set(s2.objs):
            raise Reject('objects')
        for a, b in ((s0, s1), (s1, s2)):
            if len(a.nondets) != len(b.nondets) or a.caught != b.caught or a.tags != b.tags or len(b.frames) != d:
                raise Reject('state')
        for o in s2.objs:
            if s1.objs[o].freed != s2.objs[o].freed:
                raise Reject('freed')
        regs = {}
        for ins in fr.fn.blocks[label]:
            if ins.op != 'phi':
                break
            r = [s.frames[d - 1].regs[ins.dst] for s in (s0, s1, s2)]
            c = diff(r[1], r[2])
            if c is None or c != diff(r[0], r[1]):
                raise Reject('phi')
            if c:
                regs[ins.dst] = (r[2], c)
        a, b = self.stores(t1, s0.objs), self.stores(t2, s1.objs)
        if len(a) != len(b):
            raise Reject('stores')
        cells, groups = {}, []
        shape = []
        for x, y in zip(a, b):
            _, o, off1, n, v1, p1 = x
            _, o2, off2, n2, v2, p2 = y
            if o != o2 or n != n2:
                raise Reject('stores')
            k = self.pdiff(s2, off1, off2)
            if k == 0:
                if not is_c(off2):
                    raise Reject('cell')
                cells[(o, off2, n)] = None
                shape.append(('cell', o, off2, n))
                continue
            if k is None or k < n or k > 64:
                raise Reject('stride')
            # stores that continue each other form one element; of stores to the same bytes the last one counts
            for i, g in enumerate(groups):
                if g['o'] == o and g['k'] == k:
                    at = self.pdiff(s2, g['off'], off2)
                    if at is not None and 0 <= at <= len(g['b2']) and at + n <= k:
                        break
            else:
                i, g, at = len(groups), {'o': o, 'k': k, 'off': off2, 'by': [], 'b1': [], 'b2': [], 'p': p2}, 0
                groups.append(g)
            g['by'][at:at + n] = [len(shape)] * n
            shape.append(('region', i, at, n, g['by']))
            g['b1'][at:at + n] = self.bytes_of(v1, n)
            g['b2'][at:at + n] = self.bytes_of(v2, n)
        regions = []
        for g in groups:
            if len(g['b2']) != g['k']:
                raise Reject('gaps')
            regions.append((g['o'], g['off'], g['k'], self.source(s1, s2, t1, t2, g), g['p']))
        for key in list(cells):
            o, off, n = key
            v = [self.cell(s, o, off, n) for s in (s0, s1, s2)]
            c = diff(v[1], v[2])
            if c is None or c != diff(v[0], v[1]):
                raise Reject('cell value')
            cells[key] = (v[2], c)
        ro = [r[0] for r in regions]
        for o, off, n, src, p in regions:
            if ro.count(o) > 1:
                raise Reject('regions')
            for (co, coff, cn) in cells:
                if co == o and (p[0] is None or not (coff + cn <= p[0] or coff >= p[1])):
                    raise Reject('cell in region')
            if src[0] == 'cp':
                if src[1] in ro:
                    raise Reject('source is written')
                for (co, coff, cn) in cells:
                    if co == src[1] and (src[3] is None or not (coff + cn <= src[3] or coff >= src[4])):
                        raise Reject('source is written')
        return regs, cells, regions, shape

    def bytes_of(self, v, n):
        if v is UNDEF:
            raise Reject('undefined')
        if not is_c(v) and v.__class__ is not Ptr and z3.is_bool(v):
            v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        return [self.e.byte_of((v, j, n)) for j in range(n)]

    def source(self, s1, st, t1, t2, g):
        """what fills one element: a constant byte, or a copy of consecutive bytes that move along"""
        k, b1, b2 = g['k'], g['b1'], g['b2']
        if is_c(b2[0]) and all(is_c(x) and x == b2[0] for x in b1 + b2):
            return ('fill', b2[0])

        def loads(t):
            out = []
            for x in t:
                if x[0] == 'l' and x[4] is not UNDEF:
                    for j, e in enumerate(self.bytes_of(x[4], x[3])):
                        out.append((x[1], self.plus(x[2], j), e, x[5], x[6]))
            return out
        l1, l2 = loads(t1), loads(t2)
        if len(l1) != len(l2):
            raise Reject('loads')
        cand = [(x, y) for x, y in zip(l1, l2) if x[0] == y[0] and not self.differ(st, y[2], b2[0]) and not self.differ(st, x[2], b1[0])]
        cand.sort(key=lambda c: diff(c[1][2], b2[0]) != 0)
        for x, y in cand:
            if self.pdiff(st, x[1], y[1]) != k:
                continue
            src = s1.objs[y[0]]
            if all(self.equal(st, self.e.rd(s1, src, self.plus(y[1], j), 1, y[3], y[4]), b2[j]) for j in range(k)):
                return ('cp', y[0], y[1], y[3], y[4])
        raise Reject('value')

    def differ(self, st, a, b):
        """surely different (in the model of the path)"""
        if is_c(a) and is_c(b):
            return a != b
        if st.model is None:
            return False
        return not z3.is_true(st.model.eval(bv(a, 8) == bv(b, 8), model_completion=True))

    def equal(self, st, a, b):
        if a is UNDEF or b is UNDEF:
            return False
        if is_c(a) and is_c(b):
            return a == b
        c = simp(bv(a, 8) == bv(b, 8))
        if is_c(c):
            return bool(c)
        return self.e.query(st, z3.Not(c))[0] == 'unsat'

    def pdiff(self, st, a, b):
        """b - a when the path condition makes it a constant"""
        d = diff(a, b)
        if d is not None or a is UNDEF or b is UNDEF or is_c(a) and is_c(b):
            return d
        x = simp(bv(b, 64) - bv(a, 64))
        if st.model is None or is_c(x):
            return None
        v = st.model.eval(x, model_completion=True)
        if not z3.is_bv_value(v) or self.e.query(st, x != v)[0] != 'unsat':
            return None
        return v.as_signed_long()

    def at(self, v, c, I):
        """value v moved by c*I"""
        if v.__class__ is Ptr:
            return Ptr(v.o, self.at(bv(v.off, 64), c, I), v.lo, v.hi)
        n = v.size() if not is_c(v) else 64
        i = I if n == 64 else (z3.Extract(n - 1, 0, I) if n < 64 else z3.ZeroExt(n - 64, I))
        return simp(bv(v, n) + z3.BitVecVal(c & ((1 << n) - 1), n) * i)

    def sized(self, v, n):
        return v if v.__class__ is Ptr else bv(v, 8 * n)

    def make(self, base, fr, T, I, ty):
        e = self.e
        regs, cells, regions, _ = T
        s = base.clone()
        f = s.frames[-1]
        for r, (v, c) in regs.items():
            f.regs[r] = self.at(v if v.__class__ is Ptr else bv(v, ty[r]), c, I)
        for (o, off, n, src, p) in regions:
            d = self.plus(off, n)
            w = e.wobj(s, o)
            cnt = simp(I * n)
            if src[0] == 'fill':
                e.pushlayer(w, ('fill', d, cnt, src[1], p[0], p[1]))
            else:
                snap = e.wobj(s, src[1]).freeze()
                w = e.wobj(s, o)
                e.pushlayer(w, ('cp', d, cnt, snap, self.plus(src[2], n), p[0], p[1], 0))
        for (o, off, n), (v, c) in cells.items():
            if c:
                e.put(e.wobj(s, o), off, n, self.at(self.sized(v, n), c, I))
        s.trace = []
        s.traced = (len(s.frames), ())
        return s

    def plus(self, off, k):
        return off + k if is_c(off) else simp(off + k)

    # ------------------------------------------------------------ proof
    def attempt(self, st, fr, label, body, hist):
        e = self.e
        depth = len(st.frames)
        try:
            T = self.template(fr, label, hist)
            ty = {}
            for ins in fr.fn.blocks[label]:
                if ins.op != 'phi':
                    break
                ty[ins.dst] = ins.ty.bits if ins.ty.k == 'int' else 64
            base = st.clone()
            e.fresh += 1
            I = z3.BitVec('iteration!%d' % e.fresh, 64)
            # the conditions on the way through the body
            s = self.make(base, fr, T, I, ty)
            n0 = len(s.pc)
            s.pc.append(z3.ULE(I, BOUNDS[-1]))
            back, _ = self.run(s, depth, label, body, 1)
            if not back:
                return False          # it can not come back again: nothing to decide
            if len(back) != 1:
                raise Reject('%d paths back' % len(back))
            g = [c for c in back[0].pc[n0 + 1:] if c.get_id() not in self.assumed]
            if not g:
                raise Reject('no condition')
            G = z3.And(*g)
            def sub(x, i):
                return z3.substitute(x, (I, i))
            dist = []
            steps = sorted({1} | {abs(c) for _, c in T[0].values()} | {abs(c) for _, c in T[1].values() if c})
            for c in g:
                if z3.is_not(c) and z3.is_eq(c.arg(0)) and z3.is_bv(c.arg(0).arg(0)):
                    a, b = c.arg(0).children()
                    for x, y in ((a, b), (b, a)):
                        w = simp(sub(x, z3.BitVecVal(0, 64)) - sub(y, z3.BitVecVal(0, 64)))
                        w = bv(w, x.size())
                        w = w if x.size() == 64 else z3.ZeroExt(64 - x.size(), w)
                        dist += [(w, k) for k in steps]
            for bound in BOUNDS:
                zero = z3.BitVecVal(0, 64)
                for ds in [[]] + [[d] for d in dist]:
                    def inv(i):
                        return z3.And(z3.ULE(i, bound), z3.Or(i == 0, sub(G, i - 1)), *[z3.ULE(i * k, d) for d, k in ds])
                    q, _ = e.query(base, z3.And(inv(I), G, z3.Not(inv(I + 1))))
                    if q != 'unsat':
                        continue
                    q, _ = e.query(base, z3.And(inv(I), I != 0, z3.Not(z3.And(sub(G, I - 1), inv(I - 1)))))
                    if q == 'unsat':
                        break
                else:
                    continue
                break
            else:
                raise Reject('invariant')
            s = self.make(base, fr, T, I, ty)
            s.pc.append(inv(I))
            r, s.model = e.query(s, z3.BoolVal(True))
            if r != 'sat':
                raise Reject('unreachable')
            ref = self.make(base, fr, T, I, ty)
            ref.pc.append(inv(I))
            nxt = self.make(base, fr, T, I + 1, ty)
            back, exits = self.run(s, depth, label, body, 2)
            for b in back:
                self.arrives(b, ref, nxt, T, I, inv, ty)
        except Reject as x:
            if self.strict:
                raise symex.VerifError('loop not decided by an invariant: %s (%s)' % (e.demangle(fr.fn.name).split('(')[0][:80], x))
            e.res.notes.add('loop unrolled: %s (%s)' % (e.demangle(fr.fn.name).split('(')[0][:80], x))
            return False
        self.done += 1
        e.res.loops[e.demangle(fr.fn.name)] = e.res.loops.get(e.demangle(fr.fn.name), 0) + 1
        for x in exits:
            x.trace = None
            e.work.append(x)
        return True

    def same(self, st, a, b):
        if a.__class__ is Ptr or b.__class__ is Ptr:
            if a.__class__ is not Ptr or b.__class__ is not Ptr or a.o != b.o:
                raise Reject('pointer')
            return self.same(st, a.off, b.off)
        if is_c(a) and is_c(b):
            if a != b:
                raise Reject('value')
            return
        n = a.size() if not is_c(a) else b.size()
        c = simp(bv(a, n) == bv(b, n))
        if is_c(c):
            if not c:
                raise Reject('value')
            return
        r, _ = self.e.query(st, z3.Not(c))
        if r != 'unsat':
            raise Reject('step')

    def arrives(self, b, ref, nxt, T, I, inv, ty):
        """state b after one iteration from state(I) is state(I+1)"""
        e = self.e
        regs, cells, regions, shape = T
        if set(b.objs) != set(ref.objs) or len(b.nondets) != len(ref.nondets) or b.caught != ref.caught or b.tags != ref.tags:
            raise Reject('objects after')
        r, _ = e.query(b, z3.Not(inv(I + 1)))
        if r != 'unsat':
            raise Reject('invariant after')
        f, g = b.frames[-1], nxt.frames[-1]
        for reg, bits in ty.items():
            x, y = f.regs[reg], g.regs[reg]
            if x is y:
                continue
            if x is UNDEF or y is UNDEF or x.__class__ is list:
                raise Reject('phi after')
            if x.__class__ is not Ptr and not is_c(x) and not z3.is_bv(x):
                raise Reject('phi after')
            self.same(b, x, y)
        st = self.stores(b.trace, ref.objs)
        if len(st) != len(shape):
            raise Reject('stores after')
        for num, (sh, (_, o, off, n, v, p)) in enumerate(zip(shape, st)):
            if sh[0] == 'cell':
                if (o, off, n) != sh[1:]:
                    raise Reject('cell after')
            else:
                ro, roff, k, src, rp = regions[sh[1]]
                if o != ro or n != sh[3]:
                    raise Reject('region after')
                self.same(b, off, simp(bv(self.plus(roff, k + sh[2]), 64) + I * k))
                for j, x in enumerate(self.bytes_of(v, n)):
                    if sh[4][sh[2] + j] != num:
                        continue
                    if src[0] == 'fill':
                        want = src[1]
                    else:
                        want = e.rd(ref, ref.objs[src[1]], simp(bv(self.plus(src[2], k + sh[2] + j), 64) + I * k), 1, src[3], src[4])
                    if want is UNDEF:
                        raise Reject('undefined')
                    self.same(b, x, want)
        for (o, off, n), (v, c) in cells.items():
            self.same(b, self.cell(b, o, off, n), self.cell(nxt, o, off, n))

    def run(self, s, depth, label, body, mode):
        e = self.e
        save = e.work, e.mode, self.busy
        back, exits = [], []
        e.work, e.mode, self.busy = [s], mode, (depth, label)
        self.assumed = e.assumed = set()
        if s.model is None:
            r, s.model = e.query(s, z3.BoolVal(True))
            if r != 'sat':
                e.work, e.mode, self.busy = save
                raise Reject('unreachable')
        n = 0
        try:
            while e.work:
                x = e.work.pop()
                n += 1
                if n > 12:
                    raise Reject('paths')
                self.path(x, depth, body, back, exits, mode)
        finally:
            e.work, e.mode, self.busy = save
        return back, exits

    def path(self, st, depth, body, back, exits, mode):
        e = self.e
        H = e.handlers
        cnt = 0
        try:
            while True:
                if len(st.frames) < depth or (len(st.frames) == depth and st.frames[-1].label not in body):
                    exits.append(st)
                    return
                fr = st.frames[-1]
                ins = fr.ins[fr.ip]
                cnt += 1
                if cnt > 20000:
                    raise Reject('steps')
                r = H[ins.op](st, fr, ins)
                if r is None:
                    fr.ip += 1
                    if st.dec:
                        st.dec.clear()
                elif r == 'end':
                    raise Reject('end')
        except BackEdge:
            back.append(st)
        except symex.PathEndUncaught:
            raise Reject('uncaught')
        except symex.PathEnd:
            pass
        except symex.VerifError as x:
            raise Reject(str(x)[:60])
