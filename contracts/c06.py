"""C06: bump allocation inside a page"""
from irvc.harness import *
from irvc.spec import *

UNITS = ['src/jogasaki/memory/details/page_allocation_info.cpp']
NATIVE = {'driver': 'c06.cpp', 'units': UNITS}
ASSUMPTIONS = ['the alignment is a power of two (the memory_resource precondition); every one of the 64 is proved separately',
               'the page lies below 2^47 and does not wrap around the address space']
PAGE = 2 * 1024 * 1024
CLIENT = ('c06_client.cpp', r'''
#include <jogasaki/memory/details/page_allocation_info.h>
using jogasaki::memory::page_pool;
using info = jogasaki::memory::details::page_allocation_info;
static inline info mk(void* page, std::size_t lb, std::size_t ub) {
    info r{page_pool::page_info{page, 0}};
    r.lower_bound_offset(lb); r.upper_bound_offset(ub);
    return r;
}
static inline void put(info const& r, std::size_t* o) { o[0] = r.lower_bound_offset(); o[1] = r.upper_bound_offset(); o[2] = r.empty() ? 1 : 0; }
extern "C" {
void c_new(void* page, std::size_t* o) { info r{page_pool::page_info{page, 0}}; put(r, o); o[3] = r.head().address() == page ? 1 : 0; }
void* c_alloc(void* page, std::size_t lb, std::size_t ub, std::size_t bytes, std::size_t al, std::size_t* o) {
    auto r = mk(page, lb, ub);
    o[3] = r.remaining(al);
    void* p = r.try_allocate_back(bytes, al);
    put(r, o);
    return p;
}
bool c_front(void* page, std::size_t lb, std::size_t ub, void* p, std::size_t bytes, std::size_t al, std::size_t* o) {
    auto r = mk(page, lb, ub);
    bool b = r.try_deallocate_front(p, bytes, al);
    put(r, o);
    return b;
}
bool c_back(void* page, std::size_t lb, std::size_t ub, void* p, std::size_t bytes, std::size_t al, std::size_t* o) {
    auto r = mk(page, lb, ub);
    bool b = r.try_deallocate_back(p, bytes, al);
    put(r, o);
    return b;
}
}
''')


def run(v):
    mods = v.modules(UNITS + [CLIENT])
    fresh(v, mods)
    jobs = []
    for k in range(64):
        jobs.append(lambda k=k: alloc(v, mods, k))
        jobs.append(lambda k=k: (dealloc(v, mods, k, 'c_front'), dealloc(v, mods, k, 'c_back')))
    v.parallel(jobs)


def state(ex, st):
    page = ex.new_region(st, 'page', PAGE, 'heap', 1)
    o = ex.new_region(st, 'out', 32, 'heap', 8)
    lb, ub = z3.BitVec('lb', 64), z3.BitVec('ub', 64)
    st.pc += [z3.ULE(lb, ub), z3.ULE(ub, PAGE)]
    return Ptr(page, 0), lb, ub, Ptr(o, 0), ex.base_addr(page)


def result(ex, st, o):
    return [bv(ex.rd(st, o.add(8 * i), 8), 64) for i in range(4)]


def fresh(v, mods):
    ex = v.executor(mods)
    g = {}

    def setup(ex, st):
        page, lb, ub, o, P = state(ex, st)
        g['o'] = o
        return [page, o]

    def post(ex, st, out):
        r = result(ex, st, g['o'])
        ex.oblige(st, z3.And(out[0] == 'ret', r[0] == 0, r[1] == 0, r[2] == 1, r[3] == 1), 'post', 'a new page is empty')
    v.prove('new page', ex, '^c_new$', setup, post)


def alloc(v, mods, k):
    a = 1 << k
    ex = v.executor(mods)
    g = {}

    def setup(ex, st):
        page, lb, ub, o, P = state(ex, st)
        n = z3.BitVec('bytes', 64)
        g.update(lb=lb, ub=ub, o=o, P=P, n=n, page=page)
        return [page, lb, ub, n, a, o]

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', 'allocation returns normally')
            return
        lb, ub, P, n = g['lb'], g['ub'], g['P'], g['n']
        nlb, nub, emp, rem = result(ex, st, g['o'])
        off = ((P + ub + (a - 1)) & ~z3.BitVecVal(a - 1, 64)) - P          # the next aligned place
        room = z3.If(z3.ULE(off, PAGE), PAGE - off, c64(0))
        fits = z3.And(z3.ULE(off, PAGE), z3.ULE(n, room))
        p = out[1]
        null = isinstance(p, Ptr) and p.rid == 0 and isc(p.off) and p.off == 0
        ex.oblige(st, rem == room, 'post', 'remaining(%d) is the largest size that can be allocated' % a)
        if null:
            ex.oblige(st, z3.Not(fits), 'post', 'null only if the region does not fit (alignment %d)' % a)
            ex.oblige(st, z3.And(nlb == lb, nub == ub), 'post', 'a failed allocation changes nothing')
            return
        if not isinstance(p, Ptr) or p.rid != g['page'].rid:
            ex.oblige(st, False, 'post', 'the allocated region lies in the page')
            return
        q = bv(p.off, 64)
        ex.oblige(st, fits, 'post', 'allocation succeeds only if the region fits (alignment %d)' % a)
        ex.oblige(st, ((P + q) & (a - 1)) == 0, 'post', 'aligned to %d' % a)
        ex.oblige(st, z3.And(z3.ULE(ub, q), z3.ULE(q, PAGE), z3.ULE(n, PAGE - q)), 'post', 'inside the page, behind every live region')
        ex.oblige(st, q == off, 'post', 'no more padding than the alignment needs')
        ex.oblige(st, nub == q + n, 'post', 'upper bound is the end of the new region')
        ex.oblige(st, nlb == z3.If(lb == ub, q, lb), 'post', 'lower bound is the start of the first region')
        ex.oblige(st, (emp == 1) == (nlb == nub), 'post', 'empty')
    v.prove('allocate, alignment 2^%d' % k, ex, '^c_alloc$', setup, post)


def dealloc(v, mods, k, fn):
    a = 1 << k
    ex = v.executor(mods)
    g = {}

    def setup(ex, st):
        page, lb, ub, o, P = state(ex, st)
        s, n = z3.BitVec('start', 64), z3.BitVec('bytes', 64)
        st.pc += [z3.ULE(s, PAGE), z3.ULE(n, PAGE)]
        if fn == 'c_back':
            st.pc += [z3.UGE(s, lb)]            # a live region
        g.update(lb=lb, ub=ub, o=o, P=P, n=n, s=s)
        return [page, lb, ub, Ptr(page.rid, s), n, a, o]

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', 'deallocation returns normally')
            return
        lb, ub, n, s = g['lb'], g['ub'], g['n'], g['s']
        nlb, nub, emp, _ = result(ex, st, g['o'])
        ok = boolv(out[1])
        if fn == 'c_front':
            ex.oblige(st, ok == z3.And(z3.ULE(lb, s), z3.Or(z3.ULT(s - lb, a)), z3.ULE(s + n, ub)), 'post', 'front: accepts exactly the first live region')
            ex.oblige(st, z3.And(nlb == z3.If(ok, s + n, lb), nub == ub), 'post', 'front: drops exactly that region')
        else:
            ex.oblige(st, ok == z3.ULE(s + n, ub), 'post', 'back: accepts a region that ends inside the live area')
            e = z3.And(ok, s == lb)
            ex.oblige(st, z3.And(nlb == z3.If(e, 0, lb), nub == z3.If(ok, z3.If(e, 0, s), ub)), 'post', 'back: drops that region; an empty page starts over')
        ex.oblige(st, z3.And((emp == 1) == (nlb == nub), z3.ULE(nlb, nub), z3.ULE(nub, PAGE)), 'post', 'page invariant')
    v.prove('%s, alignment 2^%d' % (fn[2:], k), ex, '^%s$' % fn, setup, post)
