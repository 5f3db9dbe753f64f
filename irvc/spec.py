"""Specification vocabulary shared by the contracts: suffix-recursive predicates and byte transducers.

A recursive specification function is an uninterpreted function; its defining equation is instantiated
("unfolded") at the loop variables and at the constants the contract names.  Every unfolding is an instance
of the definition, so nothing beyond the definition is assumed.
"""
import re

import z3

from .core import *
from .exec import Cand


def c64(x):
    return z3.BitVecVal(x, 64)


def vars64(vs):
    return [x for x in vs if x.kind in ('int', 'ptr') and x.width == 64 and not getattr(x, 'outlen', False)]


class Suffix:
    """P(i) for i<=n:  P(n)=True;  P(i) = ok(i) and P(next(i))   (a property of every element from i on)"""

    def __init__(self, name, n, ok, nxt=None):
        self.f = z3.Function(name, BV64, z3.BoolSort())
        self.n = n
        self.ok = ok
        self.nxt = nxt or (lambda i: i + 1)
        self.name = name

    def unfold(self, i):
        return z3.And(z3.Implies(i == self.n, self.f(i)),
                      z3.Implies(z3.ULT(i, self.n), self.f(i) == z3.And(boolv(self.ok(i)), self.f(self.nxt(i)))))

    def axioms(self, ex, h, vs, extra=lambda x: [x]):
        for x in vars64(vs):
            for t in extra(bv(x.get(h), 64)):
                h.pc.append(self.unfold(simp_bv(t)))

    def cands(self, vs, maps=None):
        """P(0)==P(m(v)) for each loop variable v and each map m"""
        out = []
        maps = maps or [('', lambda t: t)]
        for x in vars64(vs):
            for nm, m in maps:
                out.append(Cand('%s(0)==%s(%s%s)' % (self.name, self.name, nm, x),
                                lambda s, x=x, m=m: self.f(c64(0)) == self.f(simp_bv(m(bv(x.get(s), 64))))))
                out.append(Cand('%s(%s%s)' % (self.name, nm, x), lambda s, x=x, m=m: self.f(simp_bv(m(bv(x.get(s), 64))))))
        return out


def ratios(st0, vs, ks):
    """b moves k times as far as a (in either direction) for loop variables a, b and k in ks"""
    out = []
    xs = vars64(vs)
    for a in xs:
        for b in xs:
            if a is b:
                continue
            a0, b0 = bv(a.get(st0), 64), bv(b.get(st0), 64)
            for k in ks:
                out.append(Cand('%s moves %d*%s' % (b, k, a), lambda s, a=a, b=b, a0=a0, b0=b0, k=k: bv(b.get(s), 64) - b0 == k * (bv(a.get(s), 64) - a0)))
    return out


def region_cands(ex, st0, vs, hv, j, vals):
    """byte j of an object filled by the loop: for each loop variable x (an index, or an offset into the object, from base 0
    or from its entry value) and each value val of vals=[(name, f(j)->byte)]:
    j<x => byte is val; entry<=j<x => val; j not yet reached => unchanged"""
    out = []
    for rid in sorted({k[0] for k in hv if k[1] is None}):
        nm = ex.regions[rid].name

        def rd(s, rid=rid):
            return bv(ex.mem.read(s, ex.content(s, rid), j, 1), 8)
        for x in vars64(vs):
            x0 = bv(x.get(st0), 64)

            def below(s, x=x, x0=x0):
                return z3.And(z3.ULE(x0, j), z3.ULT(j, bv(x.get(s), 64)))
            out.append(Cand('%s[j] kept outside [entry,%s)' % (nm, x), lambda s, rd=rd, below=below: z3.Implies(z3.Not(below(s)), rd(s) == rd(st0))))
            def above(s, x=x, x0=x0):
                return z3.And(z3.ULE(bv(x.get(s), 64), j), z3.ULT(j, x0))
            out.append(Cand('%s[j] kept outside [%s,entry)' % (nm, x), lambda s, rd=rd, above=above: z3.Implies(z3.Not(above(s)), rd(s) == rd(st0))))
            for vn, f in vals:
                out.append(Cand('%s[j]==%s(j) for %s<=j<entry' % (nm, vn, x), lambda s, rd=rd, above=above, f=f: z3.Implies(above(s), rd(s) == f(j))))
                out.append(Cand('%s[j]==%s(j) for entry<=j<%s' % (nm, vn, x), lambda s, rd=rd, below=below, f=f: z3.Implies(below(s), rd(s) == f(j))))
                out.append(Cand('%s[j]==%s(j) for j<%s' % (nm, vn, x), lambda s, rd=rd, f=f, x=x: z3.Implies(z3.ULT(j, bv(x.get(s), 64)), rd(s) == f(j))))
    return out


def simp_bv(t):
    t = z3.simplify(t)
    return t


class Transducer:
    """left-to-right byte transducer: element at i consumes step(i)>=1 input positions and emits
    emit_len(i) bytes emit(i,0..).  out(i) = number of bytes emitted before i; start(i): i begins an element."""

    def __init__(self, name, n, step, emit_len, emit, maxlen):
        self.n = n
        self.step = step
        self.emit_len = emit_len
        self.emit = emit
        self.maxlen = maxlen
        self.out = z3.Function(name + '_out', BV64, BV64)
        self.start = z3.Function(name + '_start', BV64, z3.BoolSort())
        self.i0 = z3.BitVec(name + '_i0', 64)
        self.k0 = z3.BitVec(name + '_k0', 64)

    def base_axioms(self):
        i0, k0 = self.i0, self.k0
        return [self.out(c64(0)) == 0, self.start(c64(0)), self.start(i0), z3.ULT(i0, self.n),
                z3.ULT(k0, self.emit_len(i0)), self.unfold(c64(0)), self.unfold(i0)]

    def unfold(self, i):
        st = self.step(i)
        d = z3.Implies(z3.And(self.start(i), z3.ULT(i, self.n)),
                       z3.And(self.start(i + st), self.out(i + st) == self.out(i) + self.emit_len(i),
                              # an element start is never strictly inside another element
                              z3.Not(z3.And(z3.ULT(i, self.i0), z3.ULT(self.i0, i + st)))))
        # bound: at most maxlen output bytes per input byte (no 64-bit wrap for inputs below 2^40)
        return z3.And(d, z3.ULE(self.out(i), (z3.BitVecVal(self.maxlen, 64) * i)))

    def axioms(self, ex, h, vs, depth=1):
        for x in vars64(vs):
            t = bv(x.get(h), 64)
            for k in range(depth):
                h.pc.append(self.unfold(simp_bv(t + k)))

    def fact(self, rd, ln):
        """the arbitrary element i0 was emitted correctly at its place"""
        o = self.out(self.i0) + self.k0
        return z3.And(z3.ULT(o, bv(ln, 64)), z3.ULE(self.out(self.i0) + self.emit_len(self.i0), bv(ln, 64)),
                      bv(rd(o), 8) == self.emit(self.i0, self.k0))

    def cands(self, ex, st0, vs, outs):
        """outs: list of (name, rd(state, off)->byte, len(state))"""
        cs = []
        for x in vars64(vs):
            def t(s, x=x):
                return bv(x.get(s), 64)
            cs.append(Cand('start(%s)' % x, lambda s, t=t: self.start(t(s))))
            for nm, rd, ln in outs:
                cs.append(Cand('len(%s)==out(%s)' % (nm, x), lambda s, t=t, ln=ln: bv(ln(s), 64) == self.out(t(s))))
                cs.append(Cand('i0<%s => emitted(i0) in %s' % (x, nm), lambda s, t=t, rd=rd, ln=ln:
                               z3.Implies(z3.ULT(self.i0, t(s)), self.fact(lambda o: rd(s, o), ln(s)))))
        return cs


def live_outputs(ex, st0):
    """byte sequences under construction that are alive at loop entry: strings and streams"""
    outs = []
    for k, sh in st0.ghost.items():
        if isinstance(k, tuple) and k[0] == 'stream':
            def ln(s, sh=sh):
                return ex.mem.read(s, s.mem[sh], 0, 8)

            def rd(s, o, sh=sh):
                b = ex.mem.read(s, s.mem[sh], 24, 8)
                return ex.mem.read(s, s.mem[b.rid], o, 1)
            outs.append(('stream%d' % k[1], rd, ln))
    for rid, (orid, ooff) in st0.owner.items():
        if rid in st0.dead:
            continue

        def ln2(s, orid=orid, ooff=ooff):
            return ex.mem.read(s, ex.content(s, orid), ooff, 8)

        def rd2(s, o, rid=rid):
            return ex.mem.read(s, ex.content(s, rid), o, 1)
        outs.append(('string%d' % rid, rd2, ln2))
    return outs


def result_string(ex, st, p):
    """(len, rd) of a std::string object at p"""
    b = ex.rd(st, p, 8)
    n = ex.rd(st, p.add(8), 8)
    return n, (lambda o: ex.mem.read(st, ex.content(st, b.rid), add64(b.off, o), 1))


def sret(ex, st, nm='ret', size=32):
    rid = ex.new_region(st, nm, size, 'stack', 8)
    return Ptr(rid, 0)
