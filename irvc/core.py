"""Values, memory and solver layer of the irvc verifier (bit-precise, no mathematical integers)."""
import os
import time
import z3

BV64 = z3.BitVecSort(64)
BV8 = z3.BitVecSort(8)


class Unsupported(Exception):
    """The verifier cannot process a construct: the function is outside its reach."""


class Budget(Exception):
    """A path / time budget ran out."""


def mask(w):
    return (1 << w) - 1


def isc(v):
    return type(v) is int or type(v) is bool


def bv(v, w):
    if type(v) is int or type(v) is bool:
        return z3.BitVecVal(int(v), w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def simp(e):
    """simplify a z3 term; numerals become python ints, bool constants python bools"""
    if type(e) is int or type(e) is bool:
        return e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def boolv(c):
    if type(c) is bool:
        return z3.BoolVal(c)
    if type(c) is int:
        return z3.BoolVal(c != 0)
    if z3.is_bv(c):
        return c != 0
    return c


def And(*xs):
    ys = []
    for x in xs:
        if isc(x):
            if x:
                continue
            return False
        ys.append(boolv(x))
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if isc(x):
            if x:
                return True
            continue
        ys.append(boolv(x))
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def Not(x):
    if isc(x):
        return not x
    return z3.Not(boolv(x))


def Implies(a, b):
    return Or(Not(a), b)


def sx(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


def add64(a, b):
    if isc(a) and isc(b):
        return (a + b) & mask(64)
    if isc(b) and b == 0:
        return a
    if isc(a) and a == 0:
        return b
    return simp(bv(a, 64) + bv(b, 64))


def sub64(a, b):
    if isc(a) and isc(b):
        return (a - b) & mask(64)
    return simp(bv(a, 64) - bv(b, 64))


def eq(a, b, w=64):
    if isc(a) and isc(b):
        return int(a) == int(b)
    return bv(a, w) == bv(b, w)


def ule(a, b, w=64):
    if isc(a) and isc(b):
        return a <= b
    return z3.ULE(bv(a, w), bv(b, w))


def ult(a, b, w=64):
    if isc(a) and isc(b):
        return a < b
    return z3.ULT(bv(a, w), bv(b, w))


class Ptr:
    __slots__ = ('rid', 'off')

    def __init__(self, rid, off):
        self.rid = rid
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.rid, self.off)

    def add(self, d):
        if isc(d) and d == 0:
            return self
        return Ptr(self.rid, add64(self.off, d))


NULL = Ptr(0, 0)


class FPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'FPtr(%s)' % self.name


class Region:
    __slots__ = ('rid', 'name', 'size', 'kind', 'base', 'align', 'ro', 'attr')

    def __init__(self, rid, name, size, kind, align=1, ro=False):
        self.rid = rid
        self.name = name
        self.size = size
        self.kind = kind
        self.base = None
        self.align = align
        self.ro = ro
        self.attr = {}

    def __repr__(self):
        return 'Region(%d,%s,%s)' % (self.rid, self.name, self.kind)


# ---------------------------------------------------------------- memory content
class Node:
    """immutable memory log node"""
    __slots__ = ('kind', 'prev', 'off', 'n', 'val', 'aux')

    def __init__(self, kind, prev=None, off=None, n=None, val=None, aux=None):
        self.kind = kind
        self.prev = prev
        self.off = off
        self.n = n
        self.val = val
        self.aux = aux


ZERO = Node('zero')


class Content:
    __slots__ = ('cells', 'base')

    def __init__(self, cells, base):
        self.cells = cells      # {off:int -> (n, val)} newest, pairwise disjoint
        self.base = base        # Node


class Mem:
    """operations on Content; needs an oracle `ex` for pointer->int conversion and must-alias queries"""

    def __init__(self, ex):
        self.ex = ex

    # value <-> bytes
    def byte_of(self, val, n, k):
        """k-th byte (little endian) of stored value"""
        if isinstance(val, (Ptr, FPtr)):
            val = self.ex.ptrtoint(val)
        if isc(val):
            return (int(val) >> (8 * k)) & 0xff
        if z3.is_bool(val):
            return simp(bv(val, 8)) if k == 0 else 0
        if n == 1:
            return val
        if val.size() != 8 * n:
            val = z3.ZeroExt(8 * n - val.size(), val)
        return simp(z3.Extract(8 * k + 7, 8 * k, val))

    def join(self, bs):
        if all(isc(b) for b in bs):
            r = 0
            for k, b in enumerate(bs):
                r |= b << (8 * k)
            return r
        if len(bs) == 1:
            return bs[0]
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    # reading
    def read(self, st, c, off, n):
        if isc(off):
            cells = c.cells
            hit = cells.get(off)
            if hit is not None and hit[0] == n:
                return hit[1]
            for o, (m, v) in cells.items():
                if o < off + n and off < o + m:
                    break
            else:
                return self.nread(st, c.base, off, n)
            if n == 1:
                for o, (m, v) in cells.items():
                    if o <= off < o + m:
                        return self.byte_of(v, m, off - o)
            for o, (m, v) in cells.items():
                if o <= off and off + n <= o + m and not isinstance(v, (Ptr, FPtr)):
                    if isc(v):
                        return (int(v) >> (8 * (off - o))) & mask(8 * n)
                    if z3.is_bv(v) and v.size() == 8 * m:
                        return simp(z3.Extract(8 * (off - o + n) - 1, 8 * (off - o), v))
            return self.join([self.read(st, c, off + k, 1) for k in range(n)])
        # symbolic offset
        if c.cells:
            base = Node('cells', c.base, aux=c.cells)
        else:
            base = c.base
        return self.nread(st, base, off, n)

    def nread(self, st, nd, off, n):
        while True:
            k = nd.kind
            if k == 'fn':
                f = nd.aux
                bs = []
                for i in range(n):
                    t = f(bv(add64(off, i), 64))
                    bs.append(t)
                    self.ex.on_base_read(st, f, add64(off, i))
                return self.join(bs)
            if k == 'words':
                # words of each width are unrelated functions of the offset: more behaviours than any real content has
                if n in nd.aux:
                    return nd.aux[n](bv(off, 64))
                parts, i = [], 0
                while i < n:
                    m = max(x for x in nd.aux if x <= n - i)
                    parts.append(nd.aux[m](bv(add64(off, i), 64)))
                    i += m
                return simp(z3.Concat(*reversed(parts)))
            if k == 'zero':
                return 0
            if k == 'bytes':
                b = nd.aux
                if isc(off):
                    return int.from_bytes(b[off:off + n], 'little')
                return self.join([self.table(b, add64(off, i)) for i in range(n)])
            if k == 'cells':
                if isc(off):
                    return self.read(st, Content(nd.aux, nd.prev), off, n)
                if n > 1:
                    # aligned access to a table of equally sized cells
                    same = [(o, v) for o, (m, v) in nd.aux.items() if m == n]
                    if len(same) == len(nd.aux) and same and not any(isinstance(v, (Ptr, FPtr)) for _, v in same):
                        if self.ex.must(st, Or(*[eq(off, o) for o, _ in same])):
                            r = bv(same[-1][1], 8 * n)
                            for o, v in reversed(same[:-1]):
                                r = z3.If(bv(off, 64) == o, bv(v, 8 * n), r)
                            return simp(r)
                    return self.join([self.nread(st, nd, add64(off, i), 1) for i in range(n)])
                r = None
                items = []
                for o, (m, v) in nd.aux.items():
                    for i in range(m):
                        items.append((o + i, self.byte_of(v, m, i)))
                rest = self.nread(st, nd.prev, off, 1)
                r = bv(rest, 8)
                for o, v in items:
                    r = z3.If(bv(off, 64) == o, bv(v, 8), r)
                return simp(r)
            if k == 'store':
                d = sub64(off, nd.off)
                m = nd.n
                if isc(d):
                    if d == 0 and m == n:
                        return nd.val
                    ds = sx(d, 64)
                    if ds >= m or ds + n <= 0:
                        nd = nd.prev
                        continue
                    if n == 1:
                        return self.byte_of(nd.val, m, ds)
                    return self.join([self.nread(st, nd, add64(off, i), 1) for i in range(n)])
                if n > 1:
                    if self.ex.must(st, bv(d, 64) == 0) and m == n:
                        return nd.val
                    # disjoint?
                    if self.ex.must(st, And(z3.UGE(bv(d, 64), m), z3.ULE(bv(d, 64), mask(64) - n + 1))):
                        nd = nd.prev
                        continue
                    return self.join([self.nread(st, nd, add64(off, i), 1) for i in range(n)])
                inside = bv(off, 64) == bv(nd.off, 64) if m == 1 else z3.ULT(bv(d, 64), m)
                if m == 1:
                    # a byte store: case split inside the term, no solver query
                    sv = simp(inside)
                    if isc(sv):
                        if sv:
                            return self.byte_of(nd.val, 1, 0)
                        nd = nd.prev
                        continue
                    rest = self.nread(st, nd.prev, off, 1)
                    return z3.If(inside, bv(self.byte_of(nd.val, 1, 0), 8), bv(rest, 8))
                if self.ex.must(st, Not(inside)):
                    nd = nd.prev
                    continue
                if m == 1:
                    v = bv(self.byte_of(nd.val, 1, 0), 8)
                else:
                    v = bv(self.byte_of(nd.val, m, m - 1), 8)
                    for i in range(m - 2, -1, -1):
                        v = z3.If(bv(d, 64) == i, bv(self.byte_of(nd.val, m, i), 8), v)
                if self.ex.must(st, inside):
                    return simp(v)
                rest = self.nread(st, nd.prev, off, 1)
                return z3.If(inside, v, bv(rest, 8))
            if k in ('copy', 'set'):
                d = sub64(off, nd.off)
                ln = nd.n
                inside = And(ule(n, ln), ule(d, sub64(ln, n)))
                if isc(inside):
                    isin = bool(inside)
                    isout = not isin and n == 1
                else:
                    isin = self.ex.must(st, inside)
                    isout = False
                if isin:
                    if k == 'set':
                        return self.join([nd.val] * n)
                    return self.read(st, nd.aux[0], add64(nd.aux[1], d), n)
                if not isout:
                    # entirely outside: no byte inside
                    outs = And(*[Not(ult(add64(d, i), ln)) for i in range(n)])
                    outs = simp(outs) if not isc(outs) else outs
                    isout = outs if isc(outs) else self.ex.must(st, outs)
                if isout:
                    nd = nd.prev
                    continue
                if n > 1:
                    return self.join([self.nread(st, nd, add64(off, i), 1) for i in range(n)])
                v = nd.val if k == 'set' else self.read(st, nd.aux[0], add64(nd.aux[1], d), 1)
                rest = self.nread(st, nd.prev, off, 1)
                return simp(z3.If(boolv(ult(d, ln)), bv(v, 8), bv(rest, 8)))
            raise Unsupported('memory node ' + k)

    def table(self, b, off):
        """balanced lookup in constant bytes"""
        off = bv(off, 64)
        # group equal runs
        n = len(b)
        runs = []
        i = 0
        while i < n:
            j = i
            while j < n and b[j] == b[i]:
                j += 1
            runs.append((i, j, b[i]))
            i = j

        def rec(lo, hi):
            if hi - lo == 1:
                return z3.BitVecVal(runs[lo][2], 8)
            mid = (lo + hi) // 2
            return z3.If(z3.ULT(off, runs[mid][0]), rec(lo, mid), rec(mid, hi))
        return simp(rec(0, len(runs)))

    # writing
    def write(self, c, off, n, val):
        if isc(off):
            cells = c.cells
            hit = cells.get(off)
            if hit is not None and hit[0] == n:
                cells = dict(cells)
                cells[off] = (n, val)
                return Content(cells, c.base)
            out = {}
            for o, (m, v) in cells.items():
                if o + m <= off or off + n <= o:
                    out[o] = (m, v)
                else:
                    for i in range(m):
                        if not (off <= o + i < off + n):
                            out[o + i] = (1, self.byte_of(v, m, i))
            out[off] = (n, val)
            return Content(out, c.base)
        base = Node('cells', c.base, aux=c.cells) if c.cells else c.base
        return Content({}, Node('store', base, off, n, val))

    def fill(self, c, off, ln, byte):
        if isc(off) and isc(ln) and ln <= 1024:
            i = 0
            while i < ln:
                k = 8 if ln - i >= 8 and isc(byte) else 1
                c = self.write(c, off + i, k, byte * 0x0101010101010101 if k == 8 else byte)
                i += k
            return c
        base = Node('cells', c.base, aux=c.cells) if c.cells else c.base
        return Content({}, Node('set', base, off, ln, byte))

    def copy(self, st, c, off, ln, src, soff):
        if isc(off) and isc(soff) and isc(ln) and ln <= 1024:
            i = 0
            while i < ln:
                hit = src.cells.get(soff + i)
                if hit is not None and i + hit[0] <= ln:
                    c = self.write(c, off + i, hit[0], hit[1])
                    i += hit[0]
                    continue
                k = 8 if ln - i >= 8 else 4 if ln - i >= 4 else 1
                if k > 1 and any(o < soff + i + k and soff + i < o + m for o, (m, v) in src.cells.items()):
                    k = 1
                c = self.write(c, off + i, k, self.read(st, src, soff + i, k))
                i += k
            return c
        base = Node('cells', c.base, aux=c.cells) if c.cells else c.base
        return Content({}, Node('copy', base, off, ln, None, (src, soff)))


# ---------------------------------------------------------------- solver
class Checker:
    def __init__(self, timeout_ms=3000, hard_ms=20000):
        self.s = z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.hard_ms = hard_ms
        self.stack = []
        self.axioms = []
        self.queries = 0
        self.time = 0.0
        self.by = {}
        self.deadline = None

    def axiom(self, a):
        self.axioms.append(a)

    def _sync(self, pc):
        want = pc
        k = 0
        st = self.stack
        m = min(len(st), len(want))
        while k < m and st[k] is want[k]:
            k += 1
        if len(st) > k:
            self.s.pop(len(st) - k)
            del st[k:]
        for e in want[k:]:
            self.s.push()
            self.s.add(e)
            st.append(e)

    def check(self, pc, extra, hard=False):
        """sat / unsat / unknown of axioms & pc & extra; returns (result, model|None)"""
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time budget')
        t0 = time.time()
        self.queries += 1
        try:
            self._sync(pc)
            self.s.push()
            try:
                for a in self.axioms:
                    self.s.add(a)
                for x in extra:
                    self.s.add(boolv(x))
                r = self.s.check()
                if r == z3.sat:
                    return 'sat', self.s.model()
                if r == z3.unsat:
                    self.by['z3'] = self.by.get('z3', 0) + 1
                    return 'unsat', None
            finally:
                self.s.pop()
            if hard:
                return self.hard(pc, extra)
            return 'unknown', None
        finally:
            self.time += time.time() - t0

    def many(self, items, hard=True, soft=True):
        """items: [(pc, extra)] -> [(result, model|None)]; undecided ones go to parallel worker processes"""
        n = len(items)
        res = [None] * n
        rest = []
        for i, (pc, extra) in enumerate(items):
            r, m = self.check(pc, extra) if soft else ('unknown', None)
            if r == 'unknown' and hard:
                rest.append(i)
            res[i] = (r, m)
        if not rest:
            return res
        W = min(len(rest), os.cpu_count() or 1)
        if W == 1:
            for i in rest:
                res[i] = self.check(items[i][0], items[i][1], True)
            return res
        t0 = time.time()
        procs = []
        for w in range(W):
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rfd)
                    with os.fdopen(wfd, 'w') as f:
                        for i in rest[w::W]:
                            self.by = {}
                            r, _ = self.hard(items[i][0], items[i][1])
                            f.write('%d %s %s\n' % (i, r, ','.join(self.by)))
                            f.flush()
                            if r != 'unsat' and hard == 'all':
                                break
                finally:
                    os._exit(0)
            os.close(wfd)
            procs.append((pid, rfd))
        for pid, rfd in procs:
            with os.fdopen(rfd) as f:
                for l in f:
                    a = l.split(' ')
                    res[int(a[0])] = (a[1].strip(), None)
                    self.queries += 1
                    for b in a[2].strip().split(','):
                        if b:
                            self.by[b] = self.by.get(b, 0) + 1
            os.waitpid(pid, 0)
        self.time += time.time() - t0
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time budget')
        return res

    def hard(self, pc, extra):
        s2 = z3.SolverFor('QF_UFBV')
        s2.set('timeout', self.hard_ms)
        s2.add(*self.axioms)
        s2.add(*[boolv(x) for x in pc])
        s2.add(*[boolv(x) for x in extra])
        r = s2.check()
        if r == z3.sat:
            return 'sat', s2.model()
        if r == z3.unsat:
            self.by['z3-qfufbv'] = self.by.get('z3-qfufbv', 0) + 1
            return 'unsat', None
        r = self._cvc5(s2.to_smt2())
        if r == 'unsat':
            self.by['cvc5'] = self.by.get('cvc5', 0) + 1
            return 'unsat', None
        return 'unknown', None

    def _cvc5(self, text):
        import subprocess
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % self.hard_ms, '--lang=smt2', '-'], input='(set-logic QF_UFBV)\n' + text,
                               capture_output=True, text=True, timeout=self.hard_ms / 1000 + 10)
            o = p.stdout.strip().split('\n')[0] if p.stdout else ''
            return o
        except Exception:
            return 'unknown'
