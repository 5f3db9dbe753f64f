"""C01: UTF-8 validation"""
from irvc.harness import *

UNITS = ['src/jogasaki/utils/utf8_utils.cpp']
NATIVE = {'driver': 'c01.cpp', 'units': UNITS}
ASSUMPTIONS = ['input views are shorter than 2^40 bytes']


def step_len(IN, n, i):
    """length of the UTF-8 sequence starting at i (0: ill-formed or truncated); the specification"""
    b0, b1, b2, b3 = [IN(i + k) for k in range(4)]

    def cont(b):
        return (b & 0xC0) == 0x80

    def rng(lo, hi):
        return z3.And(z3.UGE(b0, lo), z3.ULE(b0, hi))

    def have(k):
        return z3.UGE(n - i, k)
    one, zero = [z3.BitVecVal(x, 64) for x in (1, 0)]
    return z3.If(z3.UGE(i, n), zero,
                 z3.If(z3.ULE(b0, 0x7f), one,
                       z3.If(z3.And(rng(0xC2, 0xDF), have(2), cont(b1)), z3.BitVecVal(2, 64),
                             z3.If(z3.And(rng(0xE0, 0xEF), have(3), cont(b1), cont(b2)), z3.BitVecVal(3, 64),
                                   z3.If(z3.And(rng(0xF0, 0xF4), have(4), cont(b1), cont(b2), cont(b3)), z3.BitVecVal(4, 64),
                                         zero)))))


def run(v):
    mods = v.modules(UNITS)
    # encoding_type of one sequence
    ex = v.executor(mods)
    g = {}

    def setup(ex, st):
        n, p, IN = bytes_param(ex, st, 'view')
        off = z3.BitVec('offset', 64)
        g.update(n=n, IN=IN, off=off)
        return [n, p, off]

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', 'detect_next_encoding returns normally')
            return
        want = step_len(g['IN'], g['n'], g['off'])
        r = bv(out[1], 32)
        # ASCII_1BYTE, UTF8_2BYTE, UTF8_3BYTE, UTF8_4BYTE, INVALID
        code = z3.If(want == 1, z3.BitVecVal(0, 32), z3.If(want == 2, z3.BitVecVal(1, 32), z3.If(want == 3, z3.BitVecVal(2, 32),
                     z3.If(want == 4, z3.BitVecVal(3, 32), z3.BitVecVal(4, 32)))))
        ex.oblige(st, r == code, 'post', 'detect_next_encoding == spec')
    v.prove('detect_next_encoding', ex, r'^jogasaki::utils::detect_next_encoding\(', setup, post)

    # whole view
    ex = v.executor(mods)
    valid = z3.Function('valid_from', BV64, z3.BoolSort())

    def unfold(i):
        s = step_len(g['IN'], g['n'], i)
        return z3.And(z3.Implies(i == g['n'], valid(i)),
                      z3.Implies(z3.ULT(i, g['n']), valid(i) == z3.And(s != 0, valid(i + s))))

    def setup2(ex, st):
        n, p, IN = bytes_param(ex, st, 'view')
        g.update(n=n, IN=IN)
        st.pc.append(unfold(z3.BitVecVal(0, 64)))
        return [n, p]

    def axioms(ex, h, vs):
        for x in vs:
            if x.kind in ('int', 'ptr') and x.width == 64:
                h.pc.append(unfold(bv(x.get(h), 64)))

    def cands(ex, st0, h, vs, hv):
        out = []
        z = z3.BitVecVal(0, 64)
        for x in vs:
            if x.kind in ('int', 'ptr') and x.width == 64:
                out.append(Cand('valid(0)==valid(%s)' % x, lambda s, x=x: valid(z) == valid(bv(x.get(s), 64))))
                # counting down: the remaining length
                out.append(Cand('valid(0)==valid(n-%s)' % x, lambda s, x=x: valid(z) == valid(g['n'] - bv(x.get(s), 64))))
        return out
    ex.loop_axioms = axioms
    ex.loop_cands = cands
    ex.loop_terms = lambda ex, st: [('n', g['n'])]

    def post2(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', 'is_valid_utf8 returns normally')
            return
        ex.oblige(st, boolv(out[1]) == valid(z3.BitVecVal(0, 64)), 'post', 'is_valid_utf8 == every sequence well-formed')
    v.prove('is_valid_utf8', ex, r'^jogasaki::utils::is_valid_utf8\(', setup2, post2)
