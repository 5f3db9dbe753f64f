"""C08: key encoding - format and order"""
from irvc.harness import *
from irvc.spec import *

UNITS = ['src/jogasaki/kvs/coder.cpp', 'src/jogasaki/kvs/writable_stream.cpp', 'src/jogasaki/kvs/readable_stream.cpp', 'src/jogasaki/utils/decimal.cpp',
         'src/jogasaki/accessor/text.cpp', 'src/jogasaki/accessor/record_ref.cpp', 'src/jogasaki/accessor/const_record_ref.cpp', 'src/jogasaki/data/any.cpp']
NATIVE = {'driver': 'codec.cpp', 'units': UNITS + ['src/jogasaki/utils/coder.cpp', 'src/jogasaki/data/aligned_buffer.cpp'], 'shims': True, 'flags': (), 'libs': ('-Wl,--unresolved-symbols=ignore-all',)}
STUBS = open(os.path.join(VERIF, 'contracts/clients/stubs.inc')).read()
CLIENT = ('kvs_codec.cpp', STUBS + open(os.path.join(VERIF, 'contracts/clients/kvs_codec.cpp')).read())
ASC, DESC = 1, 2

#: kind -> list of (width in bits, field, flavour): what the format writes, from the documented table
FIELDS = {'boolean': [(8, 'a', 's')], 'int1': [(32, 'a', 's')], 'int2': [(32, 'a', 's')], 'int4': [(32, 'a', 's')], 'int8': [(64, 'a', 's')],
          'float4': [(32, 'a', 'f')], 'float8': [(64, 'a', 'f')], 'date': [(64, 'a', 's')], 'time_of_day': [(64, 'a', 's')],
          'time_point': [(64, 'a', 's'), (32, 'b', 's')], 'blob': [(64, 'a', 'u')], 'clob': [(64, 'a', 'u')]}


def enc_word(x, w, fl):
    """key word of a value given by its bit pattern (unsigned comparison of the words is the order)"""
    sign = z3.BitVecVal(1 << (w - 1), w)
    if fl == 'u':
        return x
    if fl == 's':
        return x ^ sign
    mant = 23 if w == 32 else 52
    inf = z3.BitVecVal(((1 << (w - 1 - mant)) - 1) << mant, w)
    mag = x & ~sign
    qnan = z3.BitVecVal(((1 << (w - mant)) - 1) << (mant - 1), w)
    n = z3.If(z3.UGT(mag, inf), qnan, z3.If(mag == 0, z3.BitVecVal(0, w), x))
    return z3.If(n & sign == 0, n ^ sign, ~n)


def key_bytes(kind, vals, nullable, null):
    """big-endian bytes of the ascending key"""
    out = []
    if nullable:
        out.append(z3.If(null, z3.BitVecVal(0x80, 8), z3.BitVecVal(0x81, 8)))
    for w, f, fl in FIELDS[kind]:
        x = enc_word(z3.Extract(w - 1, 0, vals[f]), w, fl)
        for k in range(w // 8):
            out.append(z3.Extract(w - 1 - 8 * k, w - 8 - 8 * k, x))
    return out


def config_contracts(ex):
    for m in ex.modules:
        for n in list(m.functions):
            d = ex.demangle(n)
            if d.startswith('jogasaki::global::config_pool('):
                def h(ex, st, a, ins, d):
                    rid = st.ghost.get('cfg')
                    if rid is None:
                        cfg = ex.new_region(st, 'configuration', 4096, 'heap', 8)
                        rid = ex.new_region(st, 'config_pool', 24, 'heap', 8, Content({16: (8, Ptr(cfg, 0))}, ZERO))
                        st.ghost['cfg'] = rid
                    return Ptr(rid, 0)
                ex.contracts[n] = h
            elif d == 'jogasaki::configuration::normalize_float() const':
                ex.contracts[n] = lambda ex, st, a, ins, d: z3.BitVecVal(1, 1)


def run(v):
    mods = v.modules(UNITS + [CLIENT], shims=True)
    jobs = []
    for k in FIELDS:
        for src in ('any', 'rec'):
            for nul in (False, True):
                jobs.append(lambda k=k, src=src, nul=nul: encode(v, mods, k, src, nul))
    for k in ('text', 'octet'):
        for src in ('_any', '_rec', 'n_any', 'n_rec'):
            for asc in (True, False):
                jobs.insert(0, lambda k=k, src=src, asc=asc: encode_var(v, mods, k, src, asc))
    for nb in range(17, 0, -1):
        for src in ('_any', '_rec', 'n_any', 'n_rec') if nb in (1, 8, 9, 16) or v.tier != 'quick' else ('_any',):
            jobs.append(lambda nb=nb, src=src: encode_decimal(v, mods, nb, src))
    v.parallel(jobs)
    lemmas(v)


def encode(v, mods, kind, src, nul):
    ex = v.executor(mods)
    config_contracts(ex)
    g = {}
    name = 'encode%s(%s) %s' % ('_nullable' if nul else '', src, kind)

    def setup(ex, st):
        a, b = z3.BitVec('a', 64), z3.BitVec('b', 64)
        odr, cap, ign = z3.BitVec('order', 32), z3.BitVec('cap', 64), z3.BitVec('ign', 1)
        null = z3.BitVec('null', 1) if nul else z3.BitVecVal(0, 1)
        st.pc += [z3.ULE(odr, 2), z3.ULE(cap, 1 << 40)]
        if kind in ('blob', 'clob'):
            st.pc.append(b == 0)       # a resolved reference
        buf = ex.new_region(st, 'buf', cap, 'heap', 1)
        out = ex.new_region(st, 'out', 16, 'heap', 8)
        g.update(a=a, b=b, odr=odr, cap=cap, null=null == 1, ign=ign == 1, buf=buf, out=out)
        return [Ptr(out, 0), a, b, odr, null, Ptr(buf, 0), cap, ign]

    def post(ex, st, out):
        full = key_bytes(kind, g, nul, g['null'])
        L = z3.If(g['null'], c64(1), c64(len(full))) if nul else c64(len(full))
        fits = z3.ULE(L, g['cap'])
        if out[0] == 'throw':
            ex.oblige(st, z3.And(z3.Not(fits), z3.Not(g['ign'])), 'post', name + ': an exception only when the buffer is too small')
            return
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', name + ' returns')
            return
        ex.oblige(st, z3.Or(fits, g['ign']), 'post', name + ': a too small buffer is reported')
        ex.oblige(st, bv(ex.rd(st, Ptr(g['out'], 0), 8), 64) == 0, 'post', name + ': status ok')
        ex.oblige(st, bv(ex.rd(st, Ptr(g['out'], 8), 8), 64) == L, 'post', name + ': encoded length')
        m = z3.If(g['odr'] == ASC, z3.BitVecVal(0, 8), z3.BitVecVal(255, 8))
        st2 = st.clone()
        st2.pc.append(fits)
        for i, e in enumerate(full):
            if i >= 1 and nul:
                live = z3.Not(g['null'])
            else:
                live = z3.BoolVal(True)
            b = bv(ex.mem.read(st2, ex.content(st2, g['buf']), i, 1), 8)
            ex.oblige(st2, z3.Implies(live, b == e ^ m), 'post', name + ': byte %d' % i)
    v.prove(name, ex, '^enc%s_%s_%s$' % ('n' if nul else '', src, kind), setup, post)


OK, TOO_LONG, BAD_VALUE = 0, -32, -33
KEY_MAX, VALUE_MAX = 30716, 2 * 1024 * 1024 - 20


def encode_var(v, mods, kind, src, asc):
    """character and octet strings: any content, any length, any declared type"""
    ex = v.executor(mods)
    config_contracts(ex)
    g = {}
    name = 'encode%s %s %s' % (src, kind, 'ascending' if asc else 'not ascending')
    nul = src[0] == 'n'
    pre = 1 if nul else 0
    k0 = z3.BitVec('k0', 64)        # an arbitrary position of the encoded form

    def setup(ex, st):
        n, p, IN = bytes_param(ex, st, 'data')
        has, var, fw, key, ign = [z3.BitVec(x, 1) for x in ('has_len', 'varying', 'for_write', 'is_key', 'ign')]
        length, odr, cap = z3.BitVec('length', 64), z3.BitVec('order', 32), z3.BitVec('cap', 64)
        st.pc += [odr == 1 if asc else z3.Or(odr == 0, odr == 2), z3.ULE(cap, 1 << 40), z3.ULE(length, 1 << 40)]
        if kind == 'octet':
            st.pc.append(z3.ULT(n, 1 << 32))       # the length prefix has 32 bits
        buf = ex.new_region(st, 'buf', cap, 'heap', 1)
        out = ex.new_region(st, 'out', 16, 'heap', 8)
        mx = z3.If(has == 1, length, z3.If(var == 1, z3.If(key == 1, c64(KEY_MAX), c64(VALUE_MAX)), c64(1)))
        S = Suffix('no_zero_from', n, lambda i: IN(i) != 0)
        pad = z3.If(z3.And(fw == 1, var == 0, z3.ULT(n, mx)), mx - n, c64(0))
        st.pc += [S.unfold(c64(0)), S.unfold(n)]
        g.update(n=n, IN=IN, S=S, mx=mx, pad=pad, fw=fw == 1, var=var == 1, odr=odr, cap=cap, ign=ign == 1, buf=buf, out=out,
                 m=z3.If(odr == ASC, z3.BitVecVal(0, 8), z3.BitVecVal(255, 8)))
        return [Ptr(out, 0), p, n, has, length, var, fw, key, odr, Ptr(buf, 0), cap, ign]

    ex.loop_axioms = lambda ex, h, vs: g['S'].axioms(ex, h, vs)
    ex.loop_terms = lambda ex, st: [('n', g['n']), ('pad', g['pad'])]

    def spec(k):
        """ascending byte at position k of the encoded form"""
        n, pad = g['n'], g['pad']
        j = k - pre
        if kind == 'text':
            r = z3.If(z3.ULT(j, n), g['IN'](j), z3.If(z3.ULT(j, n + pad), z3.BitVecVal(0x20, 8), z3.BitVecVal(0, 8)))
        else:
            h = z3.If(g['var'], c64(4), c64(0))
            pb = [z3.Extract(31 - 8 * i, 24 - 8 * i, n) for i in range(4)]
            r = z3.If(z3.And(g['var'], z3.ULT(j, 4)), z3.If(j == 0, pb[0], z3.If(j == 1, pb[1], z3.If(j == 2, pb[2], pb[3]))),
                      z3.If(z3.ULT(j - h, n), g['IN'](j - h), z3.BitVecVal(0, 8)))
        if nul:
            r = z3.If(k == 0, z3.BitVecVal(0x81, 8), r)
        return r ^ g['m']

    def total():
        if kind == 'text':
            return g['n'] + g['pad'] + 4 + pre
        return g['n'] + g['pad'] + z3.If(g['var'], c64(4), c64(0)) + pre

    def cands(ex, st0, h, vs, hv):
        cs = g['S'].cands(vs)
        for x in vars64(vs):
            x0 = x.get(st0)
            for nm, base in (('pre', c64(pre)), ('data end', g['n'] + pre), ('after prefix', c64(pre + 4)), ('data end after prefix', g['n'] + pre + 4)):
                cs.append(Cand('k0<%s+%s => byte k0 written' % (nm, x), lambda s, x=x, base=base:
                               z3.Implies(z3.ULT(k0, base + bv(x.get(s), 64)), bv(ex.mem.read(s, ex.content(s, g['buf']), k0, 1), 8) == spec(k0))))
        return cs
    ex.loop_cands = cands

    def post(ex, st, out):
        L = total()
        fits = z3.ULE(L, g['cap'])
        long = z3.And(g['fw'], z3.ULT(g['mx'], g['n']))
        bad = z3.Not(g['S'].f(c64(0))) if kind == 'text' else z3.BoolVal(False)
        good = z3.And(z3.Not(long), z3.Not(bad))
        if out[0] == 'throw':
            ex.oblige(st, z3.And(z3.Not(fits), z3.Not(g['ign'])), 'post', name + ': an exception only when the buffer is too small')
            return
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', name + ' returns')
            return
        s = bv(ex.rd(st, Ptr(g['out'], 0), 8), 64)
        ex.oblige(st, s == z3.If(long, c64(TOO_LONG), z3.If(bad, c64(BAD_VALUE), c64(OK))), 'post', name + ': exactly the storable values are accepted')
        ex.oblige(st, z3.Implies(good, z3.Or(fits, g['ign'])), 'post', name + ': a too small buffer is reported')
        ex.oblige(st, z3.Implies(good, bv(ex.rd(st, Ptr(g['out'], 8), 8), 64) == L), 'post', name + ': encoded length')
        st2 = st.clone()
        st2.pc += [fits, good, z3.ULT(k0, L)]
        if ex.chk.check(st2.pc, [])[0] == 'unsat':
            return
        ex.oblige(st2, bv(ex.mem.read(st2, ex.content(st2, g['buf']), k0, 1), 8) == spec(k0), 'post', name + ': every byte')
    v.prove(name, ex, '^enc%s_%s$' % (src, kind), setup, post)


def digits_bytes(p):
    """the smallest number of bytes whose signed range holds every p-digit coefficient"""
    n = 1
    while 10 ** p > 2 ** (8 * n - 1):
        n += 1
    return n


def precisions(nb):
    """the precisions whose coefficients take nb bytes"""
    ps = [p for p in range(1, 40) if digits_bytes(p) == nb]
    return min(ps), max(ps)


def digits_contract(nb):
    """contract of bytes_required_for_digits (its body is checked by complete enumeration): the caller asks about the column's precision"""
    lo, hi = precisions(nb)

    def h(ex, st, a, ins, d):
        ex.oblige(st, z3.And(z3.ULE(lo, bv(a[0], 64)), z3.ULE(bv(a[0], 64), hi)), 'call', 'bytes_required_for_digits is asked about the declared precision')
        return c64(nb)
    return h


def decimal_contracts(ex, g, nb):
    """assumed contracts of the decimal library (mpdecimal is not installed here)"""
    def on(pat, h):
        for m in ex.modules:
            for n in list(m.functions):
                if ex.demangle(n).startswith(pat):
                    ex.contracts[n] = h
    on('decimal::Decimal::Decimal(', lambda ex, st, a, ins, d: None)

    def rescale(ex, st, a, ins, d):
        # result: coefficient of the value at exponent e, status flags, digit count
        ret, this, e = a[0], a[1], a[2]
        g['exp'] = e
        for off, w, val in ((0, 8, g['yhi']), (8, 8, g['ylo']), (16, 4, z3.Extract(31, 0, bv(e, 64))), (20, 4, g['sign'])):
            ex.wr(st, ret.add(off), w, val)
        ex.wr(st, ret.add(24), 8, g["digits"])
        st.ghost['dec_status'] = g['rstatus']
        return None
    def tls(ex, st, a, ins, d):
        if 'dec_ctx' not in st.ghost:
            st.ghost['dec_ctx'] = ex.new_region(st, 'decimal_context', 8, 'heap', 8)
        return Ptr(st.ghost['dec_ctx'], 0)
    ex.contracts['_ZTWN7decimal7contextE'] = tls
    on('decimal::Decimal::rescale(', rescale)
    on('decimal::Decimal::get() const', lambda ex, st, a, ins, d: a[0].add(24))
    on('decimal::Context::status() const', lambda ex, st, a, ins, d: st.ghost.get('dec_status', z3.BitVec('status_before', 32)))

    def clear(ex, st, a, ins, d):
        st.ghost['dec_status'] = z3.BitVecVal(0, 32)
        return None
    on('decimal::Context::clear_status()', clear)

    def from_dec(ex, st, a, ins, d):
        this, src = a[0], a[1]
        for off, w in ((0, 8), (8, 8), (16, 4), (20, 4)):
            ex.wr(st, this.add(off), w, ex.rd(st, src.add(off), w))
        return None
    on('takatori::decimal::triple::triple(decimal::Decimal const&)', from_dec)
    on('jogasaki::utils::bytes_required_for_digits(', digits_contract(nb))


def encode_decimal(v, mods, nb, src):
    ex = v.executor(mods)
    config_contracts(ex)
    g = {}
    decimal_contracts(ex, g, nb)
    nul = src[0] == 'n'
    plo, phi = precisions(nb)
    name = 'encode%s decimal(%d..%d)' % (src, plo, phi)

    def setup(ex, st):
        sign, hi, lo, exp = z3.BitVec('sign', 32), z3.BitVec('hi', 64), z3.BitVec('lo', 64), z3.BitVec('exp', 32)
        yhi, ylo, digits, rs = z3.BitVec('yhi', 64), z3.BitVec('ylo', 64), z3.BitVec('digits', 64), z3.BitVec('rescale_status', 32)
        scale, odr, cap, ign = z3.BitVec('scale', 64), z3.BitVec('order', 32), z3.BitVec('cap', 64), z3.BitVec('ign', 1)
        p = z3.BitVec('precision', 64)
        zero = z3.And(hi == 0, lo == 0)
        yzero = z3.And(yhi == 0, ylo == 0)
        nsign = z3.If(zero, z3.BitVecVal(0, 32), sign)
        ok = z3.And(rs & 0x40 == 0, digits <= p)
        st.pc += [z3.Or(sign == 1, sign == -1), z3.ULE(odr, 2), z3.ULE(cap, 1 << 40), z3.ULE(scale, p), digits >= 1, z3.ULE(plo, p), z3.ULE(p, phi),
                  # an exact result has the sign of the value and no more than the reported digits
                  z3.Implies(ok, z3.And(zero == yzero, z3.ULT(z3.ZeroExt(8, z3.Concat(yhi, ylo)), z3.BitVecVal(10 ** phi, 136))))]
        buf = ex.new_region(st, 'buf', cap, 'heap', 1)
        out = ex.new_region(st, 'out', 16, 'heap', 8)
        g.update(yhi=yhi, ylo=ylo, digits=digits, rstatus=rs, sign=nsign, ok=ok, scale=scale, odr=odr, cap=cap, ign=ign == 1, buf=buf, out=out)
        return [Ptr(out, 0), sign, hi, lo, exp, p, scale, odr, Ptr(buf, 0), cap, ign]

    def post(ex, st, out):
        pre = 1 if nul else 0
        L = c64(nb + pre)
        fits = z3.ULE(L, g['cap'])
        ok = g['ok']
        # a nullable field writes its flag byte before the value is rescaled
        if out[0] == 'throw':
            ex.oblige(st, z3.And(z3.Not(fits), z3.Not(g['ign'])), 'post', name + ': an exception only when the buffer is too small')
            return
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', name + ' returns')
            return
        ex.oblige(st, bv(ex.rd(st, Ptr(g['out'], 0), 8), 64) == z3.If(ok, c64(0), c64(-17)), 'post', name + ': inexact or too wide values are rejected, others accepted')
        ex.oblige(st, z3.Implies(ok, z3.Or(fits, g['ign'])), 'post', name + ': a too small buffer is reported')
        ex.oblige(st, z3.Implies(ok, bv(ex.rd(st, Ptr(g['out'], 8), 8), 64) == L), 'post', name + ': encoded length')
        if 'exp' in g:
            ex.oblige(st, z3.Implies(ok, bv(g['exp'], 64) == -g['scale']), 'post', name + ': rescaled to the declared scale')
        st2 = st.clone()
        st2.pc += [ok, fits]
        if ex.chk.check(st2.pc, [])[0] == 'unsat':
            return
        mag = z3.ZeroExt(8, z3.Concat(g['yhi'], g['ylo']))
        x = z3.If(g['sign'] < 0, -mag, mag)
        m = z3.If(g['odr'] == ASC, z3.BitVecVal(0, 8), z3.BitVecVal(255, 8))
        for i in range(nb + pre):
            if nul and i == 0:
                e = z3.BitVecVal(0x81, 8)
            else:
                j = nb - 1 - (i - pre)
                e = z3.Extract(8 * j + 7, 8 * j, x)
                if i == pre:
                    e = e ^ 0x80
            ex.oblige(st2, bv(ex.mem.read(st2, ex.content(st2, g['buf']), i, 1), 8) == e ^ m, 'post', name + ': byte %d' % i)
    v.prove(name, ex, '^enc%s_decimal$' % src, setup, post)


def less(u, w):
    """unsigned byte-wise lexicographic order of two equally long byte sequences (lists of 8-bit terms)"""
    r = z3.BoolVal(False)
    for a, b in reversed(list(zip(u, w))):
        r = z3.If(a == b, r, z3.ULT(a, b))
    return r


def split(x):
    n = x.size() // 8
    return [z3.Extract(8 * (n - i) - 1, 8 * (n - i) - 8, x) for i in range(n)]


def fcmp(x, y, w):
    """(x<y, x==y) of two floats given as bits, NaN equal to itself and greater than everything"""
    so = z3.Float32() if w == 32 else z3.Float64()
    p, q = z3.fpBVToFP(x, so), z3.fpBVToFP(y, so)
    nx, ny = z3.fpIsNaN(p), z3.fpIsNaN(q)
    return z3.If(ny, z3.Not(nx), z3.And(z3.Not(nx), z3.fpLT(p, q))), z3.Or(z3.And(nx, ny), z3.fpEQ(p, q))


def lemmas(v):
    """the proved byte formats preserve order"""
    for w in (8, 32, 64):
        x, y = z3.BitVec('x', w), z3.BitVec('y', w)
        for fl, lt in (('s', x < y), ('u', z3.ULT(x, y))):
            a, b = split(enc_word(x, w, fl)), split(enc_word(y, w, fl))
            v.lemma('%d-bit %s: bytes order as values' % (w, fl), z3.And(less(a, b) == lt, z3.And(*[p == q for p, q in zip(a, b)]) == (x == y)))
            v.lemma('%d-bit %s: complemented bytes order reversed' % (w, fl), less([~p for p in a], [~p for p in b]) == z3.And(z3.Not(lt), x != y))
        if w > 8:
            lt, eq_ = fcmp(x, y, w)
            a, b = enc_word(x, w, 'f'), enc_word(y, w, 'f')
            v.lemma('float%d: key words order as values, -0 = +0, NaN last' % w, z3.And(z3.ULT(a, b) == lt, (a == b) == eq_))
            v.lemma('float%d: complemented words order reversed' % w, z3.ULT(~a, ~b) == z3.And(z3.Not(lt), z3.Not(eq_)))
    s1, s2, n1, n2 = z3.BitVec('s1', 64), z3.BitVec('s2', 64), z3.BitVec('n1', 32), z3.BitVec('n2', 32)
    e1 = z3.Concat(enc_word(s1, 64, 's'), enc_word(n1, 32, 's'))
    e2 = z3.Concat(enc_word(s2, 64, 's'), enc_word(n2, 32, 's'))
    v.lemma('time_point: bytes order by seconds, then sub-seconds', less(split(e1), split(e2)) == z3.Or(s1 < s2, z3.And(s1 == s2, n1 < n2)))
    for nb in range(1, 18):
        x, y = z3.BitVec('x', 8 * nb), z3.BitVec('y', 8 * nb)
        top = z3.BitVecVal(1 << (8 * nb - 1), 8 * nb)
        v.lemma('decimal of %d bytes: bytes order as the signed coefficient' % nb, less(split(x ^ top), split(y ^ top)) == (x < y))
    v.lemma('null sorts before every value', z3.ULT(z3.BitVecVal(0x80, 8), z3.BitVecVal(0x81, 8)))
    # character strings: i is the first position at which the encoded forms of two zero-free strings can differ
    A, B = z3.Function('A', BV64, BV8), z3.Function('B', BV64, BV8)
    n, m, i, k = [z3.BitVec(t, 64) for t in ('n', 'm', 'i', 'k')]

    def ch(F, ln, j):
        return z3.If(z3.ULT(j, ln), F(j), z3.BitVecVal(0, 8))
    zf = [z3.ULT(n, 1 << 40), z3.ULT(m, 1 << 40), z3.ULE(i, n), z3.ULE(i, m), z3.Implies(z3.ULT(i, n), A(i) != 0), z3.Implies(z3.ULT(i, m), B(i) != 0)]
    v.lemma('text: the terminator never hides a difference and a prefix sorts first',
            z3.And(z3.Implies(z3.And(i == n, z3.ULT(i, m)), z3.ULT(ch(A, n, i), ch(B, m, i))),
                   z3.Implies(z3.And(z3.ULT(i, n), z3.ULT(i, m)), z3.ULT(ch(A, n, i), ch(B, m, i)) == z3.ULT(A(i), B(i))),
                   (ch(A, n, i) == ch(B, m, i)) == z3.If(z3.And(z3.ULT(i, n), z3.ULT(i, m)), A(i) == B(i), z3.And(i == n, i == m))), zf)
