"""C04: hexadecimal to octets"""
from irvc.harness import *
from irvc.spec import *

UNITS = ['src/jogasaki/utils/hex_to_octet.cpp']
NATIVE = {'driver': 'c04.cpp', 'units': UNITS}
ASSUMPTIONS = ['input views are shorter than 2^40 bytes']


def rng(c, lo, hi):
    return z3.And(z3.UGE(c, ord(lo)), z3.ULE(c, ord(hi)))


def ishex(c):
    return z3.Or(rng(c, '0', '9'), rng(c, 'a', 'f'), rng(c, 'A', 'F'))


def val(c):
    return z3.If(rng(c, '0', '9'), c - 48, z3.If(rng(c, 'a', 'f'), c - 87, c - 55))


def run(v):
    mods = v.modules(UNITS)
    ex = v.executor(mods)
    g = {}
    i0 = z3.BitVec('i0', 64)

    def setup(ex, st):
        n, p, IN = bytes_param(ex, st, 'src')
        m = z3.LShR(n, 1)
        S = Suffix('hex_from', m, lambda i: z3.And(ishex(IN(2 * i)), ishex(IN(2 * i + 1))))
        out = sret(ex, st, 'out')
        # any previous content
        from irvc.models import str_init
        n0 = z3.BitVec('out_len0', 64)
        st.pc += [z3.ULE(n0, 1 << 40)]
        str_init(ex, st, out, Content({}, Node('fn', aux=z3.Function('OUT0', BV64, BV8))), n0)
        g.update(n=n, m=m, IN=IN, S=S, out=out)
        st.pc += [S.unfold(c64(0)), S.unfold(m)]
        return [n, p, out]
    ex.loop_axioms = lambda ex, h, vs: g['S'].axioms(ex, h, vs, lambda t: [t, z3.LShR(t, 1)])
    ex.loop_terms = lambda ex, st: [('n', g['n']), ('m', g['m'])]

    def fact(s, t, rd):
        IN = g['IN']
        return z3.Implies(z3.And(z3.ULT(i0, t), z3.ULT(i0, g['m'])), bv(rd(i0), 8) == (val(IN(2 * i0)) << 4 | val(IN(2 * i0 + 1))))

    def cands(ex, st0, h, vs, hv):
        cs = g['S'].cands(vs, [('', lambda t: t), ('half ', lambda t: z3.LShR(t, 1))])
        cs += ratios(st0, vs, (2, -2))
        for x in vars64(vs):
            cs.append(Cand('%s even' % x, lambda s, x=x: (bv(x.get(s), 64) & 1) == 0))
            for nm, rd, ln in live_outputs(ex, st0):
                for hn, m in (('', lambda t: t), ('half ', lambda t: z3.LShR(t, 1))):
                    cs.append(Cand('i0<%s%s decoded in %s' % (hn, x, nm), lambda s, x=x, rd=rd, m=m: fact(s, m(bv(x.get(s), 64)), lambda o: rd(s, o))))
                    cs.append(Cand('len(%s)==%s%s' % (nm, hn, x), lambda s, x=x, ln=ln, m=m: bv(ln(s), 64) == m(bv(x.get(s), 64))))
        return cs
    ex.loop_cands = cands

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', 'hex_to_octet returns normally')
            return
        n, m = g['n'], g['m']
        ok = boolv(out[1])
        ex.oblige(st, ok == z3.And((n & 1) == 0, g['S'].f(c64(0))), 'post', 'accepts exactly the even-length hexadecimal strings')
        ln, rd = result_string(ex, st, g['out'])
        ex.oblige(st, z3.Implies(ok, bv(ln, 64) == m), 'post', 'one octet per digit pair')
        ex.oblige(st, z3.Implies(ok, fact(st, m, rd)), 'post', 'octet value of every digit pair')
    v.prove('hex_to_octet', ex, r'^jogasaki::utils::hex_to_octet\(', setup, post)
