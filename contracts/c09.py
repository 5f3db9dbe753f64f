"""C09: key/value decoding - inverse of the encoder, and safe on arbitrary bytes"""
from irvc.harness import *
from irvc.spec import *
from contracts.c08 import (UNITS, CLIENT, ASC, FIELDS, enc_word, key_bytes, config_contracts, digits_bytes, digits_contract, precisions)

NATIVE = {'driver': 'codec.cpp', 'units': UNITS + ['src/jogasaki/utils/coder.cpp', 'src/jogasaki/data/aligned_buffer.cpp'], 'shims': True, 'flags': ('-DDECODE',), 'libs': ('-Wl,--unresolved-symbols=ignore-all',)}
CORRUPT = -26
TYPES = [('_any', False, False), ('n_any', False, True), ('_rec', True, False), ('n_rec', True, True)]


def dec_word(u, w, fl):
    sign = z3.BitVecVal(1 << (w - 1), w)
    if fl == 'u':
        return u
    if fl == 's':
        return u ^ sign
    return z3.If(u & sign != 0, u ^ sign, ~u)


def run(v):
    mods = v.modules(UNITS + [CLIENT], shims=True)
    jobs = []
    for k in ('text', 'octet'):
        for s in ('_any', 'n_any', '_rec', 'n_rec', '', 'n'):
            for asc in (True, False):
                jobs.append(lambda k=k, s=s, asc=asc: decode_var(v, mods, k, s, asc))
    for k in FIELDS:
        for s in ('_any', 'n_any', '_rec', 'n_rec', '', 'n'):
            jobs.append(lambda k=k, s=s: decode(v, mods, k, s))
    for nb in range(1, 18):
        for s in ('_any', 'n_any', '_rec', 'n_rec', '', 'n'):
            jobs.append(lambda nb=nb, s=s: decode_decimal(v, mods, nb, s))
    v.parallel(jobs)
    lemmas(v)


def lemmas(v):
    """decode after encode is the identity on values (floats: up to the documented normalization)"""
    for w in (8, 32, 64):
        x = z3.BitVec('x', w)
        for fl in 'su':
            v.lemma('decode(encode(x)) == x, %d-bit %s' % (w, fl), dec_word(enc_word(x, w, fl), w, fl) == x)
    for w in (32, 64):
        x = z3.BitVec('x', w)
        n = enc_word(x, w, 'f')
        y = dec_word(n, w, 'f')
        mant = 23 if w == 32 else 52
        inf = z3.BitVecVal(((1 << (w - 1 - mant)) - 1) << mant, w)
        mag = x & z3.BitVecVal((1 << (w - 1)) - 1, w)
        v.lemma('decode(encode(x)) is x up to NaN payload and the sign of zero, float%d' % w,
                z3.If(z3.UGT(mag, inf), z3.UGT(y & z3.BitVecVal((1 << (w - 1)) - 1, w), inf), z3.If(mag == 0, y == 0, y == x)))
    for p in range(1, 40):
        nb = digits_bytes(p)
        m = z3.BitVec('m', 8 * nb)
        # two's complement of a p-digit coefficient is recovered
        lim = z3.BitVecVal(min(10 ** p, 2 ** 128), 8 * nb + 8)
        s = z3.BitVec('neg', 1)
        small = z3.ULT(z3.ZeroExt(8, m), lim)
        x = z3.If(s == 1, -m, m)
        neg = z3.Extract(8 * nb - 1, 8 * nb - 1, x) == 1
        v.lemma('decimal(%d) coefficient round trip' % p, z3.Implies(z3.And(small, z3.Implies(s == 1, m != 0)), z3.And(neg == (s == 1), z3.If(neg, -x, x) == m)))


def common(ex, st, g, name_bits=None):
    odr = z3.BitVec('order', 32)
    st.pc.append(z3.ULE(odr, 2))
    n, p, IN = bytes_param(ex, st, 'buf')
    out = ex.new_region(st, 'out', 40, 'heap', 8)
    ex.wr(st, Ptr(out, 32), 8, z3.BitVec('null_bits_before', 64))
    g.update(odr=odr, n=n, IN=IN, out=out, m=z3.If(odr == ASC, z3.BitVecVal(0, 8), z3.BitVecVal(255, 8)))
    return odr, n, p, IN, out


def flag(g):
    return g['IN'](c64(0)) ^ g['m'] ^ 0x80


def decode(v, mods, kind, s):
    ex = v.executor(mods)
    config_contracts(ex)
    g = {}
    cons = s in ('', 'n')
    nul = s[:1] == 'n'
    name = ('consume' if cons else 'decode') + s + ' ' + kind
    W = sum(w for w, _, _ in FIELDS[kind]) // 8

    def setup(ex, st):
        odr, n, p, IN, out = common(ex, st, g)
        return [Ptr(out, 0), odr, p, n]

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', name + ' returns (never throws)')
            return
        n, IN, m = g['n'], g['IN'], g['m']
        pre = 1 if nul else 0
        null = z3.And(z3.UGE(n, 1), flag(g) == 0) if nul else z3.BoolVal(False)
        okf = z3.And(z3.UGE(n, 1), z3.Or(flag(g) == 0, flag(g) == 1)) if nul else z3.BoolVal(True)
        ok = z3.And(okf, z3.Or(null, z3.UGE(n, W + pre)))
        rd = lambda off: bv(ex.rd(st, Ptr(g['out'], off), 8), 64)
        ex.oblige(st, rd(0) == z3.If(ok, c64(0), c64(CORRUPT)), 'post', name + ': corrupt exactly when the bytes are too short or the flag is invalid')
        ex.oblige(st, z3.Implies(ok, rd(8) == z3.If(null, c64(pre), c64(W + pre))), 'post', name + ': consumes exactly the encoded length')
        if cons:
            return
        ex.oblige(st, z3.Implies(ok, rd(32) == z3.If(null, c64(1), c64(0))), 'post', name + ': null exactly when the flag says so')
        off = pre
        for w, f, fl in FIELDS[kind]:
            u = z3.Concat(*[IN(c64(off + i)) ^ m for i in range(w // 8)]) if w > 8 else IN(c64(off)) ^ m
            off += w // 8
            x = dec_word(u, w, fl)
            got = rd(16 if f == 'a' else 24)
            ex.oblige(st, z3.Implies(z3.And(ok, z3.Not(null)), z3.Extract(w - 1, 0, got) == x), 'post', name + ': value ' + f)
    v.prove(name, ex, '^%s%s_%s$' % ('cons' if cons else 'dec', s, kind), setup, post)


class Scan:
    """f(i): the first position from i on where stop holds"""

    def __init__(self, name, n, stop):
        self.f = z3.Function(name, BV64, BV64)
        self.n, self.stop, self.name = n, stop, name

    def unfold(self, i):
        return z3.Implies(z3.ULE(i, self.n), z3.And(self.f(i) == z3.If(self.stop(i), i, self.f(i + 1)), z3.ULE(i, self.f(i)), z3.ULE(self.f(i), self.n)))


def decode_var(v, mods, kind, s, asc):
    ex = v.executor(mods)
    config_contracts(ex)
    g = {}
    cons = s in ('', 'n')
    nul = s[:1] == 'n'
    pre = 1 if nul else 0
    name = ('consume' if cons else 'decode') + s + ' ' + kind + (' ascending' if asc else ' not ascending')
    k0 = z3.BitVec('k0', 64)

    def setup(ex, st):
        odr, n, p, IN, out = common(ex, st, g)
        st.pc.append(odr == 1 if asc else odr != 1)
        g['m'] = z3.BitVecVal(0 if asc else 255, 8)
        var, length = z3.BitVec('varying', 1), z3.BitVec('length', 64)
        st.pc += [z3.ULE(length, 1 << 40)]
        term = z3.BitVecVal(0 if asc else 255, 8)
        S = Scan('terminator_from', n, lambda i: z3.Or(z3.UGT(i + 4, n), z3.And(*[IN(i + j) == term for j in range(4)])))
        st.pc += [S.unfold(c64(pre)), S.unfold(n)]
        obuf = ex.new_region(st, 'obuf', z3.If(z3.UGE(n, 1), n, c64(1)), 'heap', 1)
        g.update(S=S, obuf=obuf, var=var == 1, length=length)
        args = [Ptr(out, 0), var, length, odr, p, n]
        return args if cons else args + [Ptr(obuf, 0)]

    def ax(ex, h, vs):
        for x in vars64(vs):
            t = bv(x.get(h), 64)
            for e in (t, t + pre):
                h.pc.append(g['S'].unfold(simp_bv(e)))
    ex.loop_axioms = ax
    ex.loop_terms = lambda ex, st: [('n', g['n'])]

    def base():
        return c64(pre) if kind == 'text' else z3.If(g['var'], c64(pre + 4), c64(pre))

    def cands(ex, st0, h, vs, hv):
        cs = []
        S = g['S']
        for x in vars64(vs):
            for nm, o in (('', 0), ('pre+', pre)):
                cs.append(Cand('scan(pre)==scan(%s%s)' % (nm, x), lambda s, x=x, o=o: S.f(c64(pre)) == S.f(simp_bv(bv(x.get(s), 64) + o))))
            for rid in sorted(k[0] for k in hv if k[1] is None):
                cs.append(Cand('k0<%s => decoded in r%d' % (x, rid), lambda s, x=x, rid=rid:
                               z3.Implies(z3.ULT(k0, bv(x.get(s), 64)), bv(ex.mem.read(s, ex.content(s, rid), k0, 1), 8) == g['IN'](base() + k0) ^ g['m'])))
        return cs
    ex.loop_cands = cands

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', name + ' returns (never throws)')
            return
        n, IN, m, S = g['n'], g['IN'], g['m'], g['S']
        null = z3.And(z3.UGE(n, 1), flag(g) == 0) if nul else z3.BoolVal(False)
        okf = z3.And(z3.UGE(n, 1), z3.Or(flag(g) == 0, flag(g) == 1)) if nul else z3.BoolVal(True)
        if kind == 'text':
            t = S.f(c64(pre))
            fits = z3.And(z3.UGE(n, pre), z3.ULE(t + 4, n))
            clen, total = t - pre, t + 4
        else:
            pfx = z3.Concat(*[IN(c64(pre + i)) ^ m for i in range(4)])
            clen = z3.If(g['var'], z3.ZeroExt(32, pfx), g['length'])
            b = base()
            fits = z3.And(z3.ULE(b, n), z3.ULE(b + clen, n))
            total = b + clen
        ok = z3.And(okf, z3.Or(null, fits))
        val = z3.And(ok, z3.Not(null))
        rd = lambda off: bv(ex.rd(st, Ptr(g['out'], off), 8), 64)
        ex.oblige(st, rd(0) == z3.If(ok, c64(0), c64(CORRUPT)), 'post', name + ': corrupt exactly when the bytes do not hold a whole value')
        ex.oblige(st, z3.Implies(ok, rd(8) == z3.If(null, c64(pre), total)), 'post', name + ': consumes exactly the encoded length')
        if cons:
            return
        ex.oblige(st, z3.Implies(ok, rd(32) == z3.If(null, c64(1), c64(0))), 'post', name + ': null exactly when the flag says so')
        ex.oblige(st, z3.Implies(val, rd(16) == clen), 'post', name + ': decoded length')
        st2 = st.clone()
        st2.pc += [val, z3.ULT(k0, clen)]
        if ex.chk.check(st2.pc, [])[0] == 'unsat':
            return
        ex.oblige(st2, bv(ex.mem.read(st2, ex.content(st2, g['obuf']), k0, 1), 8) == IN(base() + k0) ^ m, 'post', name + ': every decoded byte')
    v.prove(name, ex, '^%s%s_%s$' % ('cons' if cons else 'dec', s, kind), setup, post)


def decode_decimal(v, mods, nb, s):
    ex = v.executor(mods, unroll_sym=40, unroll_symbacks=60)
    config_contracts(ex)
    for m in ex.modules:
        for n in list(m.functions):
            if ex.demangle(n).startswith('jogasaki::utils::bytes_required_for_digits('):
                ex.contracts[n] = digits_contract(nb)
    g = {}
    cons = s in ('', 'n')
    nul = s[:1] == 'n'
    pre = 1 if nul else 0
    plo, phi = precisions(nb)
    name = ('consume' if cons else 'decode') + s + ' decimal(%d..%d)' % (plo, phi)

    def setup(ex, st):
        odr, n, ptr, IN, out = common(ex, st, g)
        scale = z3.BitVec('scale', 64)
        p = z3.BitVec('precision', 64)
        st.pc += [z3.ULE(plo, p), z3.ULE(p, phi), z3.ULE(scale, p)]
        obuf = ex.new_region(st, 'obuf', 32, 'heap', 8)
        g.update(scale=scale, obuf=obuf)
        args = [Ptr(out, 0), p, scale, odr, ptr, n]
        return args if cons else args + [Ptr(obuf, 0)]

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', name + ' returns (never throws)')
            return
        n, IN, m = g['n'], g['IN'], g['m']
        null = z3.And(z3.UGE(n, 1), flag(g) == 0) if nul else z3.BoolVal(False)
        okf = z3.And(z3.UGE(n, 1), z3.Or(flag(g) == 0, flag(g) == 1)) if nul else z3.BoolVal(True)
        by = [IN(c64(pre + i)) ^ m for i in range(nb)]
        by[0] = by[0] ^ 0x80
        x = z3.Concat(*by) if nb > 1 else by[0]
        x = z3.SignExt(136 - 8 * nb, x) if nb < 17 else x
        neg = z3.Extract(135, 135, x) == 1
        mag = z3.If(neg, -x, x)
        fit = z3.Extract(135, 128, mag) == 0           # the coefficient has 128 bits
        ok = z3.And(okf, z3.Or(null, z3.And(z3.UGE(n, nb + pre), fit)))
        val = z3.And(ok, z3.Not(null))
        rd = lambda off: bv(ex.rd(st, Ptr(g['out'], off), 8), 64)
        ex.oblige(st, rd(0) == z3.If(ok, c64(0), c64(CORRUPT)), 'post', name + ': corrupt exactly when too short or not a 128-bit coefficient')
        ex.oblige(st, z3.Implies(ok, rd(8) == z3.If(null, c64(pre), c64(nb + pre))), 'post', name + ': consumes exactly the encoded length')
        if cons:
            return
        ex.oblige(st, z3.Implies(ok, rd(32) == z3.If(null, c64(1), c64(0))), 'post', name + ': null exactly when the flag says so')
        ob = lambda off: bv(ex.rd(st2, Ptr(g['obuf'], off), 8), 64)
        st2 = st.clone()
        st2.pc.append(val)
        if ex.chk.check(st2.pc, [])[0] == 'unsat':
            return
        ex.oblige(st2, z3.And(ob(0) == z3.Extract(127, 64, mag), ob(8) == z3.Extract(63, 0, mag)), 'post', name + ': coefficient')
        ex.oblige(st2, ob(16) == z3.If(mag == 0, c64(0), z3.If(neg, c64(-1), c64(1))), 'post', name + ': sign')
        ex.oblige(st2, ob(24) == -g['scale'], 'post', name + ': exponent')
    v.prove(name, ex, '^%s%s_decimal$' % ('cons' if cons else 'dec', s), setup, post)
