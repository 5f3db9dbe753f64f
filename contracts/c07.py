"""C07: growable aligned key/value buffers"""
from irvc.harness import *
from irvc.spec import *

UNITS = ['src/jogasaki/data/aligned_buffer.cpp']
NATIVE = {'driver': 'c07.cpp', 'units': UNITS, 'leaks': True}
ASSUMPTIONS = ['capacities, sizes and alignments are at most 2^40 bytes; alignments are powers of two; aligned_alloc succeeds']
CLIENT = ('c07_client.cpp', r'''
#include <cstring>
#include <utility>
#include <jogasaki/data/aligned_buffer.h>
#include <jogasaki/utils/round.h>
#include <jogasaki/utils/aligned_unique_ptr.h>
using jogasaki::data::aligned_buffer;
using sz = std::size_t;
// observe everything a user can see; d receives the data pointer
static void put(aligned_buffer const& b, sz* o, void const** d) {
    std::string_view v(b);
    o[0] = b.size(); o[1] = b.capacity(); o[2] = b.alignment(); o[3] = b.empty() ? 1 : 0; o[4] = static_cast<bool>(b) ? 1 : 0;
    o[5] = v.size(); o[6] = v.data() == static_cast<char const*>(b.data()) ? 1 : 0;
    *d = b.data();
}
// an arbitrary reachable buffer: capacity cap, all its bytes arbitrary, size n
static void fill(aligned_buffer& b, char const* src, sz cap, sz n) { std::memcpy(b.data(), src, cap); b.resize(n); }
extern "C" void observe_point(void*);
extern "C" {
void c_default(sz* o, void const** d) { aligned_buffer b{}; put(b, o, d); observe_point(&b); }
void c_ctor(sz cap, sz al, sz* o, void const** d) { aligned_buffer b{cap, al}; put(b, o, d); observe_point(&b); }
void c_sv(char const* p, sz n, sz* o, void const** d) { aligned_buffer b{std::string_view(p, n)}; put(b, o, d); observe_point(&b); }
void c_resize(sz cap, sz al, char const* src, sz n, sz m, sz* o, void const** d) { aligned_buffer b{cap, al}; fill(b, src, cap, n); b.resize(m); put(b, o, d); observe_point(&b); }
void c_shrink(sz cap, sz al, char const* src, sz n, sz* o, void const** d) { aligned_buffer b{cap, al}; fill(b, src, cap, n); b.shrink_to_fit(); put(b, o, d); observe_point(&b); }
void c_assign_sv(sz cap, sz al, char const* src, sz n, char const* p, sz m, sz* o, void const** d) {
    aligned_buffer b{cap, al}; fill(b, src, cap, n); b.assign(std::string_view(p, m)); put(b, o, d); observe_point(&b); }
void c_assign(sz cap, sz al, char const* src, sz n, sz cap2, char const* src2, sz m, sz* o, void const** d) {
    aligned_buffer b{cap, al}; fill(b, src, cap, n);
    aligned_buffer c{cap2, 1}; fill(c, src2, cap2, m);
    b.assign(c); put(b, o, d); observe_point(&b); }
void c_move(sz cap, sz al, char const* src, sz n, sz* o, void const** d) { aligned_buffer b{cap, al}; fill(b, src, cap, n); aligned_buffer c{std::move(b)}; put(c, o, d); observe_point(&c); }
void c_movea(sz cap, sz al, char const* src, sz n, sz* o, void const** d) { aligned_buffer b{cap, al}; fill(b, src, cap, n); aligned_buffer c{7, 1}; c = std::move(b); put(c, o, d); observe_point(&c); }
sz c_up(sz v) { return jogasaki::utils::round_up_to_power_of_two(v); }
sz c_down(sz v) { return jogasaki::utils::round_down_to_power_of_two(v); }
bool c_is(sz v) { return jogasaki::utils::is_power_of_two(v); }
}
''')
LIM = 1 << 40


def run(v):
    mods = v.modules(UNITS + [CLIENT])
    jobs = [lambda: rounding(v, mods)]
    for fn in ('c_assign', 'c_assign_sv', 'c_resize', 'c_shrink', 'c_ctor', 'c_move', 'c_movea'):
        jobs.append(lambda fn=fn: buffer(v, mods, fn, None))
    jobs.append(lambda: buffer(v, mods, 'c_default', 1))
    jobs.append(lambda: buffer(v, mods, 'c_sv', 1))
    v.parallel(jobs)


def rounding(v, mods):
    x = z3.BitVec('v', 64)
    top = 1 << 63
    for fn in ('c_up', 'c_down', 'c_is'):
        ex = v.executor(mods)

        def setup(ex, st):
            return [x]

        def post(ex, st, out):
            pw = lambda t: z3.And(t != 0, (t & (t - 1)) == 0)
            r = out[1]
            if fn == 'c_is':
                ex.oblige(st, boolv(r) == pw(x), 'post', 'is_power_of_two')
                return
            r = bv(r, 64)
            if fn == 'c_down':
                ex.oblige(st, z3.If(x == 0, r == 0, z3.And(pw(r), z3.ULE(r, x), z3.ULT(x - r, r))), 'post', 'largest power of two not above the value')
            else:
                ex.oblige(st, z3.Implies(z3.ULE(x, top), z3.If(x == 0, r == 0, z3.And(pw(r), z3.UGE(r, x), z3.ULT(z3.LShR(r, 1), x)))), 'post',
                          'smallest power of two not below the value')
                ex.oblige(st, z3.Implies(z3.UGT(x, top), r == 0), 'post', 'no power of two above 2^63')
        v.prove(fn[2:] + ' power of two', ex, '^%s$' % fn, setup, post)


def buffer(v, mods, fn, al):
    ex = v.executor(mods)
    g = {'seen': 0}
    name = fn[2:]
    pow2 = []
    if al is None:      # any alignment
        al = z3.BitVec('alignment', 64)
        pow2 = [al != 0, (al & (al - 1)) == 0, z3.ULE(al, LIM)]

    def sizes(st, *nm):
        r = [z3.BitVec(x, 64) for x in nm]
        st.pc += [z3.ULE(x, LIM) for x in r]
        return r

    def setup(ex, st):
        o = Ptr(ex.new_region(st, 'out', 56, 'heap', 8), 0)
        d = Ptr(ex.new_region(st, 'dataptr', 8, 'heap', 8), 0)
        g.update(o=o, d=d)
        tail = [o, d]
        st.pc += pow2
        if fn == 'c_default':
            g.update(size=c64(0), cap=c64(0), al=1, byte=None)
            return tail
        if fn == 'c_sv':
            n, p, IN = bytes_param(ex, st, 'sv')
            g.update(size=n, cap=n, al=1, byte=IN)
            return [p, n] + tail
        cap, = sizes(st, 'cap')
        if fn == 'c_ctor':
            g.update(size=c64(0), cap=cap, al=al, byte=None, zero=cap)
            return [cap, al] + tail
        n, = sizes(st, 'n')
        A = z3.Function('A', BV64, BV8)
        src = Ptr(ex.new_region(st, 'src', cap, 'heap', 1, Content({}, Node('fn', aux=A)), ro=True), 0)
        st.pc.append(z3.ULE(n, cap))
        if fn == 'c_resize':
            m, = sizes(st, 'm')
            grow = z3.UGT(m, cap)
            g.update(size=m, cap=z3.If(grow, m, cap), al=al, byte=lambda j: z3.If(z3.And(grow, z3.UGE(j, n)), z3.BitVecVal(0, 8), A(j)))
            return [cap, al, src, n, m] + tail
        if fn == 'c_shrink':
            g.update(size=n, cap=n, al=al, byte=A)
            return [cap, al, src, n] + tail
        if fn in ('c_move', 'c_movea'):
            g.update(size=n, cap=cap, al=al, byte=A)
            return [cap, al, src, n] + tail
        if fn == 'c_assign_sv':
            m, p, IN = bytes_param(ex, st, 'sv')
            g.update(size=m, cap=z3.If(z3.UGT(m, cap), m, cap), al=al, byte=IN)
            return [cap, al, src, n, p, m] + tail
        cap2, m = sizes(st, 'cap2', 'm')
        st.pc.append(z3.ULE(m, cap2))
        B = z3.Function('B', BV64, BV8)
        src2 = Ptr(ex.new_region(st, 'src2', cap2, 'heap', 1, Content({}, Node('fn', aux=B)), ro=True), 0)
        g.update(size=m, cap=z3.If(z3.UGT(m, cap), m, cap), al=al, byte=B)
        return [cap, al, src, n, cap2, src2, m] + tail

    def at(ex, st, a, ins, d):
        st.ghost['seen'] = True
        size, cap = g['size'], g['cap']
        o = [bv(ex.rd(st, g['o'].add(8 * i), 8), 64) for i in range(7)]
        ex.oblige(st, z3.And(o[0] == size, o[5] == size), 'post', fn + ': size')
        ex.oblige(st, o[1] == cap, 'post', fn + ': capacity')
        ex.oblige(st, o[2] == g['al'], 'post', fn + ': alignment')
        ex.oblige(st, z3.And((o[3] == 1) == (size == 0), (o[4] == 1) == (cap != 0), o[6] == 1), 'post', fn + ': empty/bool/view')
        q = ex.rd(st, g['d'], 8)
        if not isinstance(q, Ptr) or q.rid == 0:
            ex.oblige(st, False, 'post', fn + ': has storage')
            return None
        ex.oblige(st, (ex.ptrtoint(q) & (g['al'] - 1)) == 0, 'post', fn + ': storage is aligned')
        rs = ex.regions[q.rid].size
        ex.oblige(st, z3.And(q.rid not in st.dead, z3.ULE(bv(q.off, 64) + cap, bv(rs, 64))), 'post', fn + ': storage holds the capacity')
        j = z3.BitVec('j', 64)
        if g['byte'] is not None:
            b = bv(ex.mem.read(st, ex.content(st, q.rid), add64(q.off, j), 1), 8)
            ex.oblige(st, z3.Implies(z3.ULT(j, size), b == g['byte'](j)), 'post', fn + ': every byte')
        if 'zero' in g:
            b = bv(ex.mem.read(st, ex.content(st, q.rid), add64(q.off, j), 1), 8)
            ex.oblige(st, z3.Implies(z3.ULT(j, cap), b == 0), 'post', fn + ': new storage is zero')
        return None
    ex.contracts['observe_point'] = at
    vals = [('zero', lambda j: z3.BitVecVal(0, 8))]

    def cands(ex, st0, h, vs, hv):
        j = z3.BitVec('j', 64)
        more = [('byte', g['byte'])] if g.get('byte') is not None else []
        return region_cands(ex, st0, vs, hv, j, vals + more + [('source', z3.Function('A', BV64, BV8))])
    ex.loop_cands = cands

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', fn + ' returns normally')
            return
        ex.oblige(st, st.ghost.get('seen', False), 'post', 'observed')
        # every allocation is released exactly once
        leaked = [r.rid for r in ex.regions.values() if r.name.startswith('heap') and r.rid in st.mem and r.rid not in st.dead]
        ex.oblige(st, not leaked, 'post', fn + ': storage released')
    v.prove(name, ex, '^%s$' % fn, setup, post)
