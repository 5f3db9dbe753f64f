"""C10: result set serialization format"""
from irvc.harness import *
from irvc.spec import *

UNITS = ['src/jogasaki/serializer/base128v.cpp', 'src/jogasaki/serializer/value_output.cpp', 'src/jogasaki/serializer/value_input.cpp',
         'src/jogasaki/serializer/value_input_exception.cpp']
NATIVE = {'driver': 'c10.cpp', 'units': UNITS, 'shims': True}
CLIENT = ('value_io.cpp', open(os.path.join(VERIF, 'contracts/clients/stubs.inc')).read() + open(os.path.join(VERIF, 'contracts/clients/value_io.cpp')).read())
B8 = lambda x: z3.BitVecVal(x, 8)


# ---------------------------------------------------------------- the documented format (docs/data-serde-ja.md)
def zigzag(x):
    """sint: (n << 1) ^ (n >> 63)"""
    return (x << 1) ^ (x >> 63)


def unzigzag(u):
    return z3.LShR(u, 1) ^ -(u & 1)


def uint_len(u):
    r = c64(9)
    for k in range(8, 0, -1):
        r = z3.If(z3.ULT(u, c64(1 << (7 * k))), c64(k), r)
    return r


def uint_bytes(u):
    """(length, nine bytes): 7 bits per byte from the least significant end, the ninth byte holds 8 bits"""
    n = uint_len(u)
    by = []
    for k in range(8):
        grp = z3.Extract(7 * k + 6, 7 * k, u)
        by.append(z3.Concat(z3.If(z3.UGT(n, k + 1), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), grp))
    by.append(z3.Extract(63, 56, u))
    return n, by


def big(x, n):
    return [z3.Extract(8 * (n - k) - 1, 8 * (n - k - 1), x) for k in range(n)]


class Enc:
    """an encoded form: parts, each (length term, list of bytes)"""

    def __init__(self, *parts):
        self.parts = parts

    def len(self):
        r = c64(0)
        for n, _ in self.parts:
            r = r + n
        return r


def fixed(*by):
    return c64(len(by)), list(by)


def sint_bytes(x):
    return uint_bytes(zigzag(x))


def sx(x):
    return z3.SignExt(32, x)


def alts(*cs):
    """guarded alternatives [(condition, Enc)]; the last one is taken otherwise"""
    return list(cs)


def int_enc(x):
    return [(z3.And(x >= 0, x < 64), Enc(fixed(z3.Extract(7, 0, x)))),
            (z3.And(x >= -16, x < 0), Enc(fixed(z3.Extract(7, 0, x + 0xd0)))),
            (z3.Or(x >= 64, x < -16), Enc(fixed(B8(0xe9)), sint_bytes(x)))]


def count_enc(n, embed, limit, full):
    e = z3.And(z3.UGE(n, 1), z3.ULE(n, limit))
    return [(e, Enc(fixed(z3.Extract(7, 0, n - 1 + embed)))), (z3.Not(e), Enc(fixed(B8(full)), uint_bytes(n)))]


def coefficient_size(x):
    """bytes of the shortest two's complement form of a 136-bit value"""
    n = c64(17)
    for k in range(16, 0, -1):
        n = z3.If(z3.SignExt(136 - 8 * k, z3.Extract(8 * k - 1, 0, x)) == x, c64(k), n)
    return n


def decimal_value(sign, hi, lo):
    m = z3.ZeroExt(8, z3.Concat(hi, lo))
    return z3.If(sign < 0, -m, m)


def decimal_enc(sign, hi, lo, exp):
    x = decimal_value(sign, hi, lo)
    small = z3.SignExt(72, z3.Extract(63, 0, x)) == x
    c = z3.Extract(63, 0, x)
    r = [(z3.And(small, exp == 0, g), e) for g, e in int_enc(c)]
    r.append((z3.And(small, exp != 0), Enc(fixed(B8(0xec)), sint_bytes(sx(exp)), sint_bytes(c))))
    n = coefficient_size(x)
    for k in range(1, 18):
        r.append((z3.And(z3.Not(small), n == k), Enc(fixed(B8(0xed)), sint_bytes(sx(exp)), uint_bytes(c64(k)), (c64(k), big(x, 17)[17 - k:]))))
    return r


# ---------------------------------------------------------------- writers
def cases(ex, st, term, values):
    """clones of st, one per feasible value of the term"""
    out = []
    for c in values:
        s = st.clone()
        s.pc.append(term == c)
        if ex.chk.check(s.pc, [])[0] != 'unsat':
            out.append((c, s))
    return out


def write(v, mods, name, params, spec, data=None, case=None, label=''):
    """params: [(name, bits, assumption)]; spec(values) -> guarded encodings; data: byte string written after the encoding"""
    ex = v.executor(mods)
    g = {}
    k0 = z3.BitVec('k0', 64)

    def setup(ex, st):
        xs = []
        for nm, w, asm in params:
            x = z3.BitVec(nm, w)
            xs.append(x)
            if asm is not None:
                st.pc.append(asm(x))
        if case is not None:
            st.pc.append(case(*xs))
        cap = z3.BitVec('cap', 64)
        st.pc.append(z3.ULE(cap, 1 << 40))
        buf = ex.new_region(st, 'buf', cap, 'heap', 1)
        out = ex.new_region(st, 'out', 16, 'heap', 8)
        args = list(xs)
        if data:
            n, p, IN = bytes_param(ex, st, 'data')
            g.update(n=n, IN=IN)
            xs = [n]
            args = [p, n]
        g.update(xs=xs, cap=cap, buf=buf, out=out)
        return [Ptr(out, 0)] + args + [Ptr(buf, 0), cap]

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', name + ' returns (never throws)')
            return
        ok, ln = [bv(ex.rd(st, Ptr(g['out'], o), 8), 64) for o in (0, 8)]
        for guard, enc in spec(*g['xs']):
            s0 = st.clone()
            s0.pc.append(guard)
            if ex.chk.check(s0.pc, [])[0] == 'unsat':
                continue
            L = enc.len() + (g['n'] if data else 0)
            fits = z3.ULE(L, g['cap'])
            ex.oblige(s0, ok == z3.If(fits, c64(1), c64(0)), 'post', name + ': succeeds exactly when the entry fits')
            ex.oblige(s0, ln == z3.If(fits, L, c64(0)), 'post', name + ': advances by the encoded length, and only on success')
            s0.pc.append(fits)
            todo = [(s0, 0, enc.parts)]
            while todo:
                s, off, parts = todo.pop()
                if ex.chk.check(s.pc, [])[0] == 'unsat':
                    continue
                if not parts:
                    if data:
                        s.pc.append(z3.ULT(k0, g['n']))
                        if ex.chk.check(s.pc, [])[0] != 'unsat':
                            ex.oblige(s, bv(ex.mem.read(s, ex.content(s, g['buf']), c64(off) + k0, 1), 8) == g['IN'](k0), 'post', name + ': content bytes')
                    continue
                n, by = parts[0]
                for c, s2 in cases(ex, s, n, range(len(by) + 1)):
                    for i in range(c):
                        ex.oblige(s2, bv(ex.mem.read(s2, ex.content(s2, g['buf']), off + i, 1), 8) == by[i], 'post', name + ': byte %d' % (off + i))
                    todo.append((s2, off + c, parts[1:]))
    v.prove('write ' + name + label, ex, '^w_%s$' % name, setup, post)


NS = lambda x: z3.And(x >= 0, x < 10 ** 9)
WRITERS = {
    'uint': ([('v', 64, None)], lambda v: [(True, Enc(uint_bytes(v)))]),
    'sint': ([('v', 64, None)], lambda v: [(True, Enc(sint_bytes(v)))]),
    'end': ([], lambda: [(True, Enc(fixed(B8(0xfe))))]),
    'null': ([], lambda: [(True, Enc(fixed(B8(0xe8))))]),
    'int': ([('v', 64, None)], int_enc),
    'float4': ([('v', 32, None)], lambda v: [(True, Enc(fixed(B8(0xea), *big(v, 4))))]),
    'float8': ([('v', 64, None)], lambda v: [(True, Enc(fixed(B8(0xeb), *big(v, 8))))]),
    'decimal': ([('sign', 32, lambda s: z3.Or(s == 1, s == -1)), ('hi', 64, None), ('lo', 64, None), ('exp', 32, None)], decimal_enc),
    'date': ([('v', 64, None)], lambda v: [(True, Enc(fixed(B8(0xf3)), sint_bytes(v)))]),
    'tod': ([('v', 64, None)], lambda v: [(True, Enc(fixed(B8(0xf4)), uint_bytes(v)))]),
    'todo': ([('v', 64, None), ('off', 32, None)], lambda v, o: [(True, Enc(fixed(B8(0xee)), uint_bytes(v), sint_bytes(sx(o))))]),
    'tp': ([('s', 64, None), ('ns', 64, NS)], lambda s, n: [(True, Enc(fixed(B8(0xf5)), sint_bytes(s), uint_bytes(n)))]),
    'tpo': ([('s', 64, None), ('ns', 64, NS), ('off', 32, None)], lambda s, n, o: [(True, Enc(fixed(B8(0xef)), sint_bytes(s), uint_bytes(n), sint_bytes(sx(o))))]),
    'array': ([('n', 64, None)], lambda n: count_enc(n, 0xa0, 32, 0xf9)),
    'row': ([('n', 64, None)], lambda n: count_enc(n, 0x80, 32, 0xf8)),
    'blob': ([('p', 64, None), ('o', 64, None), ('t', 64, None)], lambda p, o, t: [(True, Enc(fixed(B8(0xfb), *(big(p, 8) + big(o, 8) + big(t, 8)))))]),
    'clob': ([('p', 64, None), ('o', 64, None), ('t', 64, None)], lambda p, o, t: [(True, Enc(fixed(B8(0xfa), *(big(p, 8) + big(o, 8) + big(t, 8)))))]),
    'character': ([], lambda n: count_enc(n, 0x40, 64, 0xf0)),
    'octet': ([], lambda n: count_enc(n, 0xd0, 16, 0xf1)),
}


# ---------------------------------------------------------------- readers
class Parse:
    """one way of reading an entry: the conditions under which it is taken, the bytes consumed, the values"""

    def __init__(self, conds, off, vals):
        self.conds, self.off, self.vals = conds, off, vals


def uint_at(IN, n, off, k):
    """condition and value of a k-byte uint at off (the shortest form only)"""
    by = [IN(c64(off + i)) for i in range(k)]
    cond = [z3.UGE(n, off + k)] + [z3.UGE(b, 0x80) for b in by[:8 if k == 9 else k - 1]]
    if k < 9:
        cond.append(z3.ULT(by[k - 1], 0x80))
    if k > 1:
        cond.append(by[k - 1] != 0)
    grp = [z3.Extract(6, 0, b) for b in by[:8]] + by[8:9]
    val = z3.Concat(*reversed(grp)) if k > 1 else grp[0]
    return z3.And(*cond), z3.ZeroExt(64 - val.size(), val) if val.size() < 64 else val


def in32(x):
    return z3.SignExt(32, z3.Extract(31, 0, x)) == x


def step(part, IN, n, p):
    """the ways to go on after p: [Parse]"""
    out = []
    if callable(part):
        return part(IN, n, p)
    if part.startswith('fix'):
        w = int(part[3:])
        x = z3.Concat(*[IN(c64(p.off + i)) for i in range(w)])
        return [Parse(p.conds + [z3.UGE(n, p.off + w)], p.off + w, p.vals + [z3.ZeroExt(64 - 8 * w, x) if w < 8 else x])]
    for k in range(1, 10):
        c, u = uint_at(IN, n, p.off, k)
        cs = [c]
        if part == 'sint':
            u = unzigzag(u)
        elif part == 'sint32':
            u = unzigzag(u)
            cs.append(in32(u))
        elif part == 'size':
            cs.append(z3.ULT(u, 1 << 31))
        out.append(Parse(p.conds + cs, p.off + k, p.vals + [u]))
    return out


def coefficient(IN, n, p):
    out = []
    for k in range(1, 18):
        c, u = uint_at(IN, n, p.off, 1)
        by = [IN(c64(p.off + 1 + i)) for i in range(k)]
        cs = [c, u == k, z3.UGE(n, p.off + 1 + k)]
        if k == 17:
            cs.append(z3.Or(by[0] == 0, z3.And(by[0] == 0xff, z3.Or(*[b != 0 for b in by[1:]]))))
        x = z3.Concat(*by) if k > 1 else by[0]
        x = z3.SignExt(136 - 8 * k, x) if k < 17 else x
        out.append(Parse(p.conds + cs, p.off + 1 + k, p.vals + [x]))
    return out


def triple(x, exp):
    m = z3.If(x < 0, -x, x)
    return [z3.Extract(127, 64, m), z3.Extract(63, 0, m), z3.If(x == 0, c64(0), z3.If(x < 0, c64(-1), c64(1))), exp]


def view(IN, n, p, size=None):
    """the content of a string entry: its place and length"""
    sz = p.vals[-1]
    return [Parse(p.conds + [z3.ULE(sz, n - p.off), z3.UGE(n, p.off)], c64(p.off) + sz, [c64(p.off), sz])]


def embedded(lo, hi, f):
    """header byte that holds the value"""
    return (lambda h: z3.And(z3.UGE(h, lo), z3.ULE(h, hi)), [lambda IN, n, p: [Parse(p.conds, p.off, [f(z3.ZeroExt(56, IN(c64(0))))])]], None)


def head(x):
    return lambda h: h == x


INT = [embedded(0, 0x3f, lambda h: h), embedded(0xc0, 0xcf, lambda h: h - 0xd0), (head(0xe9), ['sint'], None)]
ROWH = lambda lo, full: [embedded(lo, lo + 31, lambda h: h - lo + 1), (head(full), ['size'], None)]
STR = lambda lo, hi, full: [(embedded(lo, hi, lambda h: h - lo + 1)[0], embedded(lo, hi, lambda h: h - lo + 1)[1] + [view], None), (head(full), ['size', view], None)]
TYPES = [(0, 0x3f, 3), (0x40, 0x7f, 7), (0x80, 0x9f, 16), (0xa0, 0xbf, 17), (0xc0, 0xcf, 3), (0xd0, 0xdf, 8), (0xe0, 0xe7, 9), (0xe8, 0xe8, 2), (0xe9, 0xe9, 3), (0xea, 0xea, 4),
         (0xeb, 0xeb, 5), (0xec, 0xed, 6), (0xee, 0xee, 12), (0xef, 0xef, 14), (0xf0, 0xf0, 7), (0xf1, 0xf1, 8), (0xf2, 0xf2, 9), (0xf3, 0xf3, 10), (0xf4, 0xf4, 11), (0xf5, 0xf5, 13),
         (0xf6, 0xf6, 15), (0xf8, 0xf8, 16), (0xf9, 0xf9, 17), (0xfa, 0xfa, 18), (0xfb, 0xfb, 19), (0xfe, 0xfe, 1)]
#: kind -> [(header condition, parts, values in the order the client reports them)]
READERS = {
    'type': [(lambda h, a=a, b=b: z3.And(z3.UGE(h, a), z3.ULE(h, b)), [lambda IN, n, p, t=t: [Parse(p.conds, 0, [c64(t)])]], None) for a, b, t in TYPES],
    'end': [(head(0xfe), [], None)],
    'null': [(head(0xe8), [], None)],
    'int': INT,
    'float4': [(head(0xea), ['fix4'], None)],
    'float8': [(head(0xeb), ['fix8'], None)],
    'decimal': [(c, p, lambda v: triple(z3.SignExt(72, v[0]), c64(0))) for c, p, _ in INT] +
               [(head(0xec), ['sint32', 'sint'], lambda v: triple(z3.SignExt(72, v[1]), v[0])), (head(0xed), ['sint32', coefficient], lambda v: triple(v[1], v[0]))],
    'character': STR(0x40, 0x7f, 0xf0),
    'octet': STR(0xd0, 0xdf, 0xf1),
    'date': [(head(0xf3), ['sint'], None)],
    'tod': [(head(0xf4), ['uint'], None)],
    'todo': [(head(0xee), ['uint', 'sint32'], None)],
    'tp': [(head(0xf5), ['sint', 'uint'], None)],
    'tpo': [(head(0xef), ['sint', 'uint', 'sint32'], None)],
    'array': ROWH(0xa0, 0xf9),
    'row': ROWH(0x80, 0xf8),
    'blob': [(head(0xfb), ['fix8'] * 3, None)],
    'clob': [(head(0xfa), ['fix8'] * 3, None)],
}


def read(v, mods, name, alts):
    ex = v.executor(mods, unroll_sym=40, unroll_symbacks=60)
    g = {}

    def setup(ex, st):
        n, p, IN = bytes_param(ex, st, 'buf')
        out = ex.new_region(st, 'out', 48, 'heap', 8)
        g.update(n=n, IN=IN, out=out)
        return [Ptr(out, 0), p, n]

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', name + ' returns')
            return
        n, IN = g['n'], g['IN']
        rdv = lambda s, o: bv(ex.rd(s, Ptr(g['out'], o), 8), 64)
        hits = []
        todo = [(Parse([z3.UGE(n, 1), hc(IN(c64(0)))], 1, []), parts, f) for hc, parts, f in alts]
        while todo:
            p, parts, f = todo.pop()
            if ex.chk.check(st.pc + p.conds, [])[0] == 'unsat':
                continue
            if parts:
                todo += [(q, parts[1:], f) for q in step(parts[0], IN, n, p)]
                continue
            hits.append(z3.And(*p.conds))
            s = st.clone()
            s.pc += p.conds
            ex.oblige(s, rdv(s, 0) == 0, 'post', name + ': a well-formed entry is read')
            ex.oblige(s, rdv(s, 8) == (c64(p.off) if isinstance(p.off, int) else p.off), 'post', name + ': consumes exactly the entry')
            for i, x in enumerate(f(p.vals) if f else p.vals):
                ex.oblige(s, rdv(s, 16 + 8 * i) == x, 'post', name + ': value %d' % i)
        s = st.clone()
        s.pc.append(z3.Not(z3.Or(*hits)) if hits else True)
        if ex.chk.check(s.pc, [])[0] != 'unsat':
            ex.oblige(s, rdv(s, 0) == 1, 'post', name + ': anything else is reported as a malformed input')
            ex.oblige(s, rdv(s, 8) == 0, 'post', name + ': the position stays when reading fails')
    v.prove('read ' + name, ex, '^r_%s$' % name, setup, post)


def lemmas(v):
    """reading back what was written (over the two specifications)"""
    u, x = z3.BitVec('u', 64), z3.BitVec('x', 136)
    v.lemma('unzigzag(zigzag(u)) = u', unzigzag(zigzag(u)) == u)
    ln, by = uint_bytes(u)
    arr = lambda bs: (lambda i: bs[i.as_long()])
    for k in range(1, 10):
        c, val = uint_at(arr(by), c64(k), 0, k)
        v.lemma('a %d-byte uint is read back' % k, z3.And(c, val == u), [ln == k])
        v.lemma('no shorter reading of a %d-byte uint' % k, z3.Not(z3.Or(*[uint_at(arr(by), c64(k), 0, j)[0] for j in range(1, k)])), [ln == k])
    v.lemma('an embedded int is read back', z3.And(*[z3.Implies(gd, val == u) for gd, val in (
        (z3.And(u >= 0, u < 64), z3.ZeroExt(56, z3.Extract(7, 0, u))), (z3.And(u >= -16, u < 0), z3.ZeroExt(56, z3.Extract(7, 0, u + 0xd0)) - 0xd0))]))
    n = coefficient_size(x)
    for k in range(1, 18):
        bs = [z3.BitVecVal(k, 8)] + big(x, 17)[17 - k:]
        q = coefficient(arr(bs), c64(k + 1), Parse([], 0, [])) [k - 1] if k == 17 else None
        val = z3.Concat(*bs[1:]) if k > 1 else bs[1]
        val = z3.SignExt(136 - 8 * k, val) if k < 17 else val
        m = z3.ZeroExt(8, z3.BitVec('m', 128))
        v.lemma('a %d-byte coefficient is read back' % k, z3.And(val == x, *(q.conds if q else [])), [n == k, z3.Or(x == m, x == -m)])


def decimal_parts():
    """cases of the decimal writer, by the encoded length of the exponent and the size of the coefficient"""
    small = lambda sign, hi, lo: z3.SignExt(72, z3.Extract(63, 0, decimal_value(sign, hi, lo))) == decimal_value(sign, hi, lo)
    out = []
    for n in range(1, 6):
        e = lambda exp, n=n: uint_len(zigzag(sx(exp))) == n if n < 5 else z3.UGE(uint_len(zigzag(sx(exp))), 5)
        out.append(('(exponent of %d bytes, small coefficient)' % n, lambda s, hi, lo, exp, e=e: z3.And(small(s, hi, lo), e(exp))))
        out.append(('(exponent of %d bytes, large coefficient)' % n, lambda s, hi, lo, exp, e=e: z3.And(z3.Not(small(s, hi, lo)), e(exp))))
    return out


def run(v):
    mods = v.modules(UNITS + [CLIENT], shims=True)
    jobs = []
    parts = decimal_parts()
    x = [z3.BitVec(nm, w) for nm, w, _ in WRITERS['decimal'][0]]
    v.lemma('the cases of write decimal cover every value', z3.Or(*[c(*x) for _, c in parts]))
    for label, c in parts:
        jobs.append(lambda label=label, c=c: write(v, mods, 'decimal', *WRITERS['decimal'], case=c, label=' ' + label))
    for k in sorted(set(WRITERS) - {'decimal'}, key=lambda k: k != 'tpo'):
        jobs.append(lambda k=k: write(v, mods, k, *WRITERS[k], data=k in ('character', 'octet')))
    for k in sorted(READERS, key=lambda k: k not in ('tpo', 'decimal')):
        jobs.insert(0, lambda k=k: read(v, mods, k, READERS[k]))
    v.parallel(jobs)
    lemmas(v)
