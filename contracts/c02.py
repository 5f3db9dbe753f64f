"""C02: log sanitizers"""
from irvc.harness import *
from irvc.spec import *

U1 = ['src/jogasaki/utils/sanitize_utf8.cpp']
U2 = ['src/jogasaki/utils/convert_control_characters.cpp']
NATIVE = {'driver': 'c02.cpp', 'units': U1 + U2}
ASSUMPTIONS = ['input views are shorter than 2^40 bytes']


def B(x):
    return z3.BitVecVal(x, 8)


def well_formed(IN, n, i):
    """RFC 3629 sequence length at i (0 when ill-formed) and whether the code point is a C0/DEL/C1 control"""
    b = [IN(i + k) for k in range(4)]

    def cont(x):
        return (x & 0xC0) == 0x80

    def rng(x, lo, hi):
        return z3.And(z3.UGE(x, lo), z3.ULE(x, hi))

    def have(k):
        return z3.UGE(n - i, k)
    two = z3.And(have(2), rng(b[0], 0xC2, 0xDF), cont(b[1]))
    three = z3.And(have(3), cont(b[2]), z3.Or(z3.And(b[0] == 0xE0, rng(b[1], 0xA0, 0xBF)),
                                              z3.And(rng(b[0], 0xE1, 0xEC), cont(b[1])),
                                              z3.And(b[0] == 0xED, rng(b[1], 0x80, 0x9F)),
                                              z3.And(rng(b[0], 0xEE, 0xEF), cont(b[1]))))
    four = z3.And(have(4), cont(b[2]), cont(b[3]), z3.Or(z3.And(b[0] == 0xF0, rng(b[1], 0x90, 0xBF)),
                                                         z3.And(rng(b[0], 0xF1, 0xF3), cont(b[1])),
                                                         z3.And(b[0] == 0xF4, rng(b[1], 0x80, 0x8F))))
    ln = z3.If(z3.ULE(b[0], 0x7f), c64(1), z3.If(two, c64(2), z3.If(three, c64(3), z3.If(four, c64(4), c64(0)))))
    ctl = z3.Or(z3.ULT(b[0], 0x20), b[0] == 0x7f, z3.And(two, b[0] == 0xC2, z3.ULT(b[1], 0xA0)))
    return ln, ctl


def hexd(nib):
    return z3.If(z3.ULT(nib, 10), nib + 48, nib + 87)


def sanitize_spec(n, IN):
    def step(i):
        ln, ctl = well_formed(IN, n, i)
        return z3.If(ln == 0, c64(1), ln)

    def emit_len(i):
        ln, ctl = well_formed(IN, n, i)
        return z3.If(ln == 0, c64(6), z3.If(ctl, ln * 6, ln))

    def emit(i, k):
        ln, ctl = well_formed(IN, n, i)
        # escaped: \x{hh} for byte k/6
        r = None
        for q in range(3, -1, -1):
            b = IN(i + q)
            kk = k - 6 * q
            e = z3.If(kk == 0, B(ord('\\')), z3.If(kk == 1, B(ord('x')), z3.If(kk == 2, B(ord('{')), z3.If(
                kk == 3, hexd(z3.LShR(b, 4)), z3.If(kk == 4, hexd(b & 15), B(ord('}')))))))
            r = e if r is None else z3.If(z3.ULT(k, 6 * (q + 1)), e, r)
        return z3.If(z3.And(ln != 0, z3.Not(ctl)), IN(i + k), r)
    return Transducer('san', n, step, emit_len, emit, 6)


def control_spec(n, IN):
    def emit_len(i):
        return z3.If(IN(i) >= 0, c64(1), c64(0))      # bytes with the top bit are dropped

    def emit(i, k):
        return z3.If(z3.ULE(IN(i), 0x1f), B(ord('!')), IN(i))
    return Transducer('ctl', n, lambda i: c64(1), emit_len, emit, 1)


def contract(v, mods, name, fn, mk):
    ex = v.executor(mods)
    g = {}

    def setup(ex, st):
        n, p, IN = bytes_param(ex, st, 'str')
        T = mk(n, IN)
        g.update(n=n, T=T)
        g['out'] = sret(ex, st)
        # the arbitrary element i0 is only constrained when the input is not empty
        i0c = T.base_axioms()
        g['pre'] = i0c
        st.pc += [i0c[0], i0c[1], i0c[5]]
        st.pc.append(z3.Implies(z3.UGT(n, 0), z3.And(*[boolv(x) for x in i0c[2:5] + [i0c[6]]])))
        st.pc.append(T.unfold(n))
        return [g['out'], n, p]
    ex.loop_axioms = lambda ex, h, vs: g['T'].axioms(ex, h, vs)
    ex.loop_terms = lambda ex, st: [('n', g['n'])]
    ex.loop_cands = lambda ex, st0, h, vs, hv: g['T'].cands(ex, st0, vs, live_outputs(ex, st0))

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', name + ' returns normally')
            return
        T, n = g['T'], g['n']
        ln, rd = result_string(ex, st, g['out'])
        ex.oblige(st, bv(ln, 64) == T.out(n), 'post', name + ': output length')
        ex.oblige(st, z3.Implies(z3.UGT(n, 0), T.fact(rd, ln)), 'post', name + ': every element emitted as specified')
    v.prove(name, ex, fn, setup, post)


def run(v):
    contract(v, v.modules(U1), 'sanitize_utf8', r'^jogasaki::utils::sanitize_utf8\S*\(', sanitize_spec)
    contract(v, v.modules(U2), 'convert_control_characters', r'^jogasaki::utils::convert_control_characters\S*\(', control_spec)
