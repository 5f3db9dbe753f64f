"""C03: base64 encode / decode / recognise"""
from irvc.harness import *
from irvc.spec import *

UNITS = ['src/jogasaki/utils/base64_utils.cpp']
NATIVE = {'driver': 'c03.cpp', 'units': UNITS}
ASSUMPTIONS = ['input views are shorter than 2^40 bytes',
               'decode_base64 is under contract for text over the base64 alphabet up to the first "=" (its documented precondition)']


def B(x):
    return z3.BitVecVal(x, 8)


def enc6(x):
    """character of a 6-bit value (8-bit term)"""
    return z3.If(z3.ULT(x, 26), x + 65, z3.If(z3.ULT(x, 52), x + 71, z3.If(z3.ULT(x, 62), x - 4, z3.If(x == 62, B(43), B(47)))))


def rng(c, lo, hi):
    return z3.And(z3.UGE(c, ord(lo)), z3.ULE(c, ord(hi)))


def alpha(c):
    return z3.Or(rng(c, 'A', 'Z'), rng(c, 'a', 'z'), rng(c, '0', '9'), c == ord('+'), c == ord('/'))


def dec6(c):
    return z3.If(rng(c, 'A', 'Z'), c - 65, z3.If(rng(c, 'a', 'z'), c - 71, z3.If(rng(c, '0', '9'), c + 4, z3.If(c == 43, B(62), B(63)))))


class Phased:
    """transducer over elements with a cyclic phase: element i in phase p emits cnt[p] bytes emit(p, prev, cur, k)"""

    def __init__(self, name, n, IN, period, cnt, emit):
        self.n, self.IN, self.period, self.cnt, self.emit_f = n, IN, period, cnt, emit
        self.out = z3.Function(name + '_out', BV64, BV64)
        self.ph = z3.Function(name + '_phase', BV64, BV64)
        self.i0 = z3.BitVec(name + '_i0', 64)
        self.k0 = z3.BitVec(name + '_k0', 64)

    def count(self, i):
        r = c64(self.cnt[0])
        for p in range(1, self.period):
            r = z3.If(self.ph(i) == p, c64(self.cnt[p]), r)
        return r

    def unfold(self, i):
        last = self.period - 1
        return z3.And(z3.ULE(self.ph(i), last), z3.ULE(self.out(i), i * 2),
                      z3.Implies(z3.ULT(i, self.n), z3.And(self.ph(i + 1) == z3.If(self.ph(i) == last, c64(0), self.ph(i) + 1),
                                                           self.out(i + 1) == self.out(i) + self.count(i))))

    def emit(self, i, k):
        r = None
        for p in range(self.period):
            e = self.emit_f(p, self.IN(i - 1), self.IN(i), k)
            r = e if r is None else z3.If(self.ph(i) == p, e, r)
        return r

    def fact(self, rd, ln):
        o = self.out(self.i0) + self.k0
        return z3.And(z3.ULE(self.out(self.i0) + self.count(self.i0), bv(ln, 64)), bv(rd(o), 8) == self.emit(self.i0, self.k0))

    def pre(self):
        """i0,k0 is an arbitrary emitted byte of an arbitrary element (if there is one)"""
        return [self.out(c64(0)) == 0, self.ph(c64(0)) == 0, self.unfold(c64(0)), self.unfold(self.n),
                z3.Implies(z3.UGT(self.n, 0), z3.And(z3.ULT(self.i0, self.n), self.unfold(self.i0)))]

    def valid(self):
        return z3.And(z3.UGT(self.n, 0), z3.ULT(self.k0, self.count(self.i0)))

    def cands(self, ex, st0, vs, outs, lows):
        cs = []
        i32 = [x for x in vs if x.kind == 'int' and x.width == 32]
        for x in vars64(vs):
            def t(s, x=x):
                return bv(x.get(s), 64)
            for nm, rd, ln in outs:
                cs.append(Cand('len(%s)==out(%s)' % (nm, x), lambda s, t=t, ln=ln: bv(ln(s), 64) == self.out(t(s))))
                cs.append(Cand('i0<%s => emitted(i0) in %s' % (x, nm), lambda s, t=t, rd=rd, ln=ln:
                               z3.Implies(z3.And(self.valid(), z3.ULT(self.i0, t(s))), self.fact(lambda o: rd(s, o), ln(s)))))
            cs.append(Cand('out(%s)~phase' % x, lambda s, t=t: self.out_phase(t(s))))
            cs.append(Cand('phase(%s)==0' % x, lambda s, t=t: self.ph(t(s)) == 0))
            for y in i32:
                y0 = y.get(st0)
                for k in range(-8, 9):
                    if k:
                        cs.append(Cand('%s==entry%+d*phase(%s)' % (y, k, x), lambda s, t=t, y=y, y0=y0, k=k:
                                       bv(y.get(s), 32) == bv(y0, 32) + k * z3.Extract(31, 0, self.ph(t(s)))))
                    for msk in (7, 31):
                        if k:
                            cs.append(Cand('%s==entry+(%d*phase(%s)&%d)' % (y, k, x, msk), lambda s, t=t, y=y, y0=y0, k=k, msk=msk:
                                           bv(y.get(s), 32) == bv(y0, 32) + ((k * z3.Extract(31, 0, self.ph(t(s)))) & msk)))
                for nm, f in lows:
                    cs.append(Cand('%s holds %s(%s-1)' % (y, nm, x), lambda s, t=t, y=y, f=f:
                                   z3.Implies(z3.UGT(t(s), 0), f(z3.Extract(7, 0, bv(y.get(s), 32)), self.IN(t(s) - 1)))))
        return cs

    def out_phase(self, i):
        raise NotImplementedError


class Enc(Phased):
    def out_phase(self, i):
        return (self.out(i) & 3) == self.ph(i)


class Dec(Phased):
    def out_phase(self, i):
        return z3.ULE(self.out(i), i)


def enc_emit(p, prev, cur, k):
    if p == 0:
        return enc6(z3.LShR(cur, 2))
    if p == 1:
        return enc6(((prev & 3) << 4) | z3.LShR(cur, 4))
    return z3.If(k == 0, enc6(((prev & 15) << 2) | z3.LShR(cur, 6)), enc6(cur & 63))


def dec_emit(p, prev, cur, k):
    a, b = dec6(prev), dec6(cur)
    if p == 1:
        return (a << 2) | z3.LShR(b, 4)
    if p == 2:
        return (a << 4) | z3.LShR(b, 2)
    return (a << 6) | b


def run(v):
    mods = v.modules(UNITS)
    encode(v, mods)
    recognise(v, mods)
    decode(v, mods)
    # round trip: decoding the four characters of every (full or padded) group gives back its bytes
    a, b, c = [z3.BitVec('b%d' % i, 8) for i in range(3)]
    e = [enc6(z3.LShR(a, 2)), enc6(((a & 3) << 4) | z3.LShR(b, 4)), enc6(((b & 15) << 2) | z3.LShR(c, 6)), enc6(c & 63)]
    v.lemma('full group round trip', z3.And(dec_emit(1, e[0], e[1], 0) == a, dec_emit(2, e[1], e[2], 0) == b, dec_emit(3, e[2], e[3], 0) == c))
    e1 = [enc6(z3.LShR(a, 2)), enc6((a & 3) << 4)]
    v.lemma('one byte group round trip', dec_emit(1, e1[0], e1[1], 0) == a)
    e2 = [e[0], e[1], enc6((b & 15) << 2)]
    v.lemma('two byte group round trip', z3.And(dec_emit(1, e2[0], e2[1], 0) == a, dec_emit(2, e2[1], e2[2], 0) == b))
    x = z3.BitVec('x', 8)
    v.lemma('encoder emits alphabet characters only', z3.Implies(z3.ULT(x, 64), z3.And(alpha(enc6(x)), dec6(enc6(x)) == x, enc6(x) != ord('='))))


def encode(v, mods):
    ex = v.executor(mods)
    g = {}

    def setup(ex, st):
        n, p, IN = bytes_param(ex, st, 'input')
        T = Enc('enc', n, IN, 3, [1, 1, 2], enc_emit)
        g.update(n=n, IN=IN, T=T, out=sret(ex, st))
        st.pc += T.pre()
        return [g['out'], n, p]

    def axioms(ex, h, vs):
        for x in vars64(vs):
            t = bv(x.get(h), 64)
            for k in range(4):
                h.pc.append(g['T'].unfold(simp_bv(t + k)))
        h.pc.append(g['T'].unfold(g['n'] - 1))
    ex.loop_axioms = axioms
    ex.loop_terms = lambda ex, st: [('n', g['n'])]
    ex.loop_cands = lambda ex, st0, h, vs, hv: g['T'].cands(ex, st0, vs, live_outputs(ex, st0), [
        ('byte', lambda y, c: y == c), ('low 2 bits', lambda y, c: (y & 3) == (c & 3)), ('low 4 bits', lambda y, c: (y & 15) == (c & 15))])

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', 'encode_base64 returns normally')
            return
        T, n, IN = g['T'], g['n'], g['IN']
        ln, rd = result_string(ex, st, g['out'])
        ln = bv(ln, 64)
        ph, o = T.ph(n), T.out(n)
        ex.oblige(st, ln == z3.If(ph == 0, o, z3.If(ph == 1, o + 3, o + 2)), 'post', 'encode: 4 characters per started group of 3 bytes')
        ex.oblige(st, z3.Implies(T.valid(), T.fact(rd, ln)), 'post', 'encode: every byte is encoded at its place')
        lastb = IN(n - 1)
        ex.oblige(st, z3.Implies(z3.And(z3.UGT(n, 0), ph == 1), z3.And(bv(rd(o), 8) == enc6((lastb & 3) << 4), bv(rd(o + 1), 8) == 61, bv(rd(o + 2), 8) == 61)),
                  'post', 'encode: one trailing byte ends in two pads')
        ex.oblige(st, z3.Implies(z3.And(z3.UGT(n, 0), ph == 2), z3.And(bv(rd(o), 8) == enc6((lastb & 15) << 2), bv(rd(o + 1), 8) == 61)),
                  'post', 'encode: two trailing bytes end in one pad')
    v.prove('encode_base64', ex, r'^jogasaki::utils::encode_base64\S*\(', setup, post)


def recognise(v, mods):
    ex = v.executor(mods)
    g = {}

    def setup(ex, st):
        n, p, IN = bytes_param(ex, st, 'sv')

        def ok(i):
            c = IN(i)
            return z3.Or(alpha(c), z3.And(c == 61, z3.Or(i == n - 1, z3.And(i == n - 2, IN(n - 1) == 61))))
        S = Suffix('b64_ok_from', n, ok)
        g.update(n=n, S=S)
        st.pc += [S.unfold(c64(0)), S.unfold(n)]
        st.pc += [z3.Implies(z3.UGE(n, k), S.unfold(n - k)) for k in (1, 2)]
        return [n, p]
    ex.loop_axioms = lambda ex, h, vs: g['S'].axioms(ex, h, vs)
    ex.loop_terms = lambda ex, st: [('n', g['n'])]
    ex.loop_cands = lambda ex, st0, h, vs, hv: g['S'].cands(vs)

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', 'is_base64 returns normally')
            return
        n = g['n']
        ex.oblige(st, boolv(out[1]) == z3.And(n != 0, (n & 3) == 0, g['S'].f(c64(0))), 'post', 'is_base64 == well-formed padded text')
    v.prove('is_base64', ex, r'^jogasaki::utils::is_base64\(', setup, post)


def decode(v, mods):
    ex = v.executor(mods)
    g = {}

    def setup(ex, st):
        n, p, IN = bytes_param(ex, st, 'input')
        m = z3.BitVec('text_len', 64)            # characters before the first '=' (or all)
        st.pc += [z3.ULE(m, n), z3.Implies(z3.ULT(m, n), IN(m) == 61)]
        ex.basefacts[IN] = [lambda i: z3.Implies(z3.ULT(bv(i, 64), m), alpha(IN(bv(i, 64))))]
        T = Dec('dec', m, IN, 4, [0, 1, 1, 1], dec_emit)
        # the property speaks about alphabet characters only: instances for the arbitrary element
        st.pc += [z3.Implies(z3.ULT(T.i0, m), z3.And(alpha(IN(T.i0)), z3.Implies(z3.UGT(T.i0, 0), alpha(IN(T.i0 - 1)))))]
        g.update(n=n, m=m, IN=IN, T=T, out=sret(ex, st))
        st.pc += T.pre()
        st.ghost['cmp_terms'] = (m,)
        return [g['out'], n, p]

    def axioms(ex, h, vs):
        for x in vars64(vs):
            t = bv(x.get(h), 64)
            for k in range(5):
                h.pc.append(g['T'].unfold(simp_bv(t + k)))
            h.pc.append(z3.Implies(z3.And(z3.UGT(t, 0), z3.ULE(t, g['m'])), alpha(g['IN'](t - 1))))
            h.pc.append(z3.Implies(z3.ULT(t, g['m']), alpha(g['IN'](t))))
    ex.loop_axioms = axioms
    ex.loop_terms = lambda ex, st: [('n', g['n']), ('m', g['m'])]

    def emit6(y, c):
        return (y & 63) == dec6(c)
    ex.loop_cands = lambda ex, st0, h, vs, hv: g['T'].cands(ex, st0, vs, live_outputs(ex, st0), [
        ('6 bits', emit6), ('low 4 bits', lambda y, c: (y & 15) == (dec6(c) & 15)), ('low 2 bits', lambda y, c: (y & 3) == (dec6(c) & 3))])

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', 'decode_base64 returns normally')
            return
        T = g['T']
        ln, rd = result_string(ex, st, g['out'])
        ex.oblige(st, bv(ln, 64) == T.out(g['m']), 'post', 'decode: 3 bytes per 4 characters, padding stops')
        ex.oblige(st, z3.Implies(T.valid(), T.fact(rd, ln)), 'post', 'decode: every character contributes its 6 bits at its place')
    v.prove('decode_base64', ex, r'^jogasaki::utils::decode_base64\S*\(', setup, post)
