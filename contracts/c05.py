"""C05: text / binary field values"""
from irvc.harness import *
from irvc.spec import *

UNITS = ['src/jogasaki/accessor/text.cpp']
NATIVE = {'driver': 'c05.cpp', 'units': UNITS}
ASSUMPTIONS = ['sizes are below 2^40 bytes', 'a memory resource returns a fresh block of the requested size (its own contract: C06)',
               'a text object that is not short holds more than 15 bytes (established by every constructor under contract)']
CLIENT = ('c05_client.cpp', r'''
#include <jogasaki/accessor/text.h>
#include <jogasaki/accessor/binary.h>
using namespace jogasaki::accessor;
using jogasaki::memory::paged_memory_resource;
extern "C" {
int b_compare(binary const& a, binary const& b) { return compare(a, b); }
bool b_lt(binary const& a, binary const& b) { return a < b; }
bool b_gt(binary const& a, binary const& b) { return a > b; }
bool b_le(binary const& a, binary const& b) { return a <= b; }
bool b_ge(binary const& a, binary const& b) { return a >= b; }
bool b_eq(binary const& a, binary const& b) { return a == b; }
bool b_ne(binary const& a, binary const& b) { return a != b; }
void b_make(binary* p, char const* d, std::size_t n) { new (p) binary(d, n); }
void b_make_r(binary* p, paged_memory_resource* r, char const* d, std::size_t n) { new (p) binary(r, d, n); }
void b_concat(binary* p, paged_memory_resource* r, binary const* a, binary const* b) { new (p) binary(r, *a, *b); }
void t_make(text* p, char const* d, std::size_t n) { new (p) text(d, n); }
void t_make_sv(text* p, char const* d, std::size_t n) { new (p) text(std::string_view(d, n)); }
void t_make_r(text* p, paged_memory_resource* r, char const* d, std::size_t n) { new (p) text(r, d, n); }
void t_make_rsv(text* p, paged_memory_resource* r, char const* d, std::size_t n) { new (p) text(r, std::string_view(d, n)); }
void t_copy_r(text* p, paged_memory_resource* r, text const* a) { new (p) text(r, *a); }
void t_concat(text* p, paged_memory_resource* r, text const* a, text const* b) { new (p) text(r, *a, *b); }
void t_default(text* p) { new (p) text(); }
}
''')


def alloc_contract(ex):
    """memory_resource::allocate(bytes, alignment): a fresh block of at least that many bytes"""
    def h(ex, st, a, ins, d):
        ex.oblige(st, z3.ULE(bv(a[1], 64), 1 << 41), 'alloc-size')
        rid = ex.new_region(st, 'resource_block', a[1], 'heap', a[2] if isc(a[2]) else 1)
        st.ghost['blocks'] = st.ghost.get('blocks', ()) + (rid,)
        return Ptr(rid, 0)
    for m in ex.modules:
        for n in list(m.functions):
            d = ex.demangle(n)
            if d.startswith('boost::container::pmr::memory_resource::allocate('):
                ex.contracts[n] = h


def value_obj(ex, st, nm, short):
    """an arbitrary text representation: (ptr, size, byte function, buffer rid|None)"""
    if short:
        f = z3.Function('REP_' + nm, BV64, BV8)
        rid = ex.new_region(st, nm, 16, 'heap', 8, Content({}, Node('fn', aux=f)))
        last = f(c64(15))
        st.pc += [z3.UGE(last, 0x80), z3.ULE(last & 0x7f, 15)]
        return Ptr(rid, 0), z3.ZeroExt(56, last & 0x7f), f, None
    n = z3.BitVec('len_' + nm, 64)
    f = z3.Function('BYTES_' + nm, BV64, BV8)
    st.pc += [z3.UGT(n, 15), z3.ULE(n, 1 << 40)]
    buf = ex.new_region(st, nm + '_buf', n, 'heap', 1, Content({}, Node('fn', aux=f)), ro=True)
    rid = ex.new_region(st, nm, 16, 'heap', 8, Content({0: (8, Ptr(buf, 0)), 8: (8, n)}, ZERO))
    return Ptr(rid, 0), n, f, buf


def view_of(ex, st, p, alts):
    """decode a representation: (is_short term, size, rd); a post-state reader independent of the code"""
    last = ex.rd(st, p.add(15), 1)
    sh = simp(z3.UGE(bv(last, 8), 0x80))
    return sh, last


def check_value(ex, st, p, want_n, want, name, fresh_of=None, alias=None):
    """*p represents exactly the bytes want(0..want_n)"""
    sh, last = view_of(ex, st, p, None)
    j = z3.BitVec('j_' + name.replace(' ', '_'), 64)
    st.pc.append(z3.Implies(want_n != 0, z3.ULT(j, want_n)))
    if not isc(sh):
        sh = True if ex.must(st, sh) else False if ex.must(st, z3.Not(sh)) else sh
    if not isc(sh):
        raise Unsupported('representation kind undetermined')
    if sh:
        ex.oblige(st, z3.And(z3.ULE(want_n, 15), z3.ZeroExt(56, bv(last, 8) & 0x7f) == want_n), 'post', name + ': size (inline)')
        b = bv(ex.mem.read(st, ex.content(st, p.rid), add64(p.off, j), 1), 8)
        ex.oblige(st, z3.Implies(want_n != 0, b == want(j)), 'post', name + ': every byte')
    else:
        ex.oblige(st, z3.UGT(want_n, 15), 'post', name + ': long form only above 15 bytes')
        n = bv(ex.rd(st, p.add(8), 8), 64)
        ex.oblige(st, n == want_n, 'post', name + ': size')
        q = ex.rd(st, p, 8)
        if not isinstance(q, Ptr) or q.rid == 0:
            ex.oblige(st, False, 'post', name + ': data pointer')
            return
        if fresh_of is not None:
            ex.oblige(st, q.rid in st.ghost.get('blocks', ()), 'post', name + ': bytes are copied into the resource')
        b = bv(ex.mem.read(st, ex.content(st, q.rid), add64(q.off, j), 1), 8)
        ex.oblige(st, b == want(j), 'post', name + ': every byte')
        sz = ex.regions[q.rid].size
        if sz is not None:
            ex.oblige(st, z3.ULE(bv(add64(q.off, want_n), 64), bv(sz, 64)), 'post', name + ': data within its block')


def run(v):
    mods = v.modules(UNITS + [CLIENT])
    ops = {'compare': None, 'operator<': 'lt', 'operator>': 'gt', 'operator<=': 'le', 'operator>=': 'ge', 'operator==': 'eq', 'operator!=': 'ne'}
    for op, k in ops.items():
        compare_op(v, mods, 'text ' + op, r'^jogasaki::accessor::%s\(jogasaki::accessor::text const&, jogasaki::accessor::text const&\)' % re.escape(op), k)
    for fn, k in (('b_compare', None), ('b_lt', 'lt'), ('b_gt', 'gt'), ('b_le', 'le'), ('b_ge', 'ge'), ('b_eq', 'eq'), ('b_ne', 'ne')):
        compare_op(v, mods, 'binary ' + fn[2:], '^%s$' % fn, k)
    for fn in ('t_make', 't_make_sv', 't_make_r', 't_make_rsv', 'b_make', 'b_make_r'):
        make(v, mods, fn)
    for a in (True, False):
        copy(v, mods, a)
        access(v, mods, a)
        for b in (True, False):
            concat(v, mods, 't_concat', a, b)
            concat(v, mods, 'b_concat', a, b)
    default(v, mods)


def compare_op(v, mods, name, fn, kind):
    for sa in (True, False):
        for sb in (True, False):
            ex = v.executor(mods)
            g = {}

            def setup(ex, st):
                pa, na, A, _ = value_obj(ex, st, 'a', sa)
                pb, nb, B, _ = value_obj(ex, st, 'b', sb)
                m = z3.If(z3.ULT(na, nb), na, nb)
                D = z3.BitVec('first_diff', 64)         # position of the first difference: defined for every pair
                st.pc += [z3.ULE(D, m), z3.Implies(z3.ULT(D, m), A(D) != B(D))]
                eqat = lambda i: z3.Implies(z3.ULT(bv(i, 64), D), A(bv(i, 64)) == B(bv(i, 64)))
                ex.basefacts[A] = [eqat]
                ex.basefacts[B] = [eqat]
                st.ghost['cmp_terms'] = (D,)
                g.update(na=na, nb=nb, A=A, B=B, D=D, m=m)
                return [pa, pb]
            ex.loop_terms = lambda ex, st: [('D', g['D']), ('m', g['m'])]

            def post(ex, st, out):
                if out[0] != 'ret':
                    ex.oblige(st, False, 'post', name + ' returns normally')
                    return
                D, m, na, nb, A, B = [g[k] for k in ('D', 'm', 'na', 'nb', 'A', 'B')]
                d = z3.ULT(D, m)
                lt = z3.If(d, z3.ULT(A(D), B(D)), z3.ULT(na, nb))
                gt = z3.If(d, z3.UGT(A(D), B(D)), z3.UGT(na, nb))
                same = z3.And(na == nb, D == m)
                # instances of string equality at the first difference
                for rec in st.ghost.get('streq', ()):
                    x = bv(ex.mem.read(st, rec['c1'], add64(rec['b1'].off, D), 1), 8)
                    y = bv(ex.mem.read(st, rec['c2'], add64(rec['b2'].off, D), 1), 8)
                    st.pc.append(z3.Implies(z3.And(rec['res'], z3.ULT(D, bv(rec['n'], 64))), x == y))
                if kind is None:
                    r = bv(out[1], 32)
                    ex.oblige(st, z3.And((r < 0) == lt, (r > 0) == gt), 'post', name + ': sign is the unsigned lexicographic order')
                else:
                    w = {'lt': lt, 'gt': gt, 'le': z3.Not(gt), 'ge': z3.Not(lt), 'eq': same, 'ne': z3.Not(same)}[kind]
                    ex.oblige(st, boolv(out[1]) == w, 'post', name + ': agrees with the unsigned lexicographic order')
            v.prove('%s (%s,%s)' % (name, 'short' if sa else 'long', 'short' if sb else 'long'), ex, fn, setup, post)


def fresh_obj(ex, st):
    f = z3.Function('JUNK', BV64, BV8)
    return Ptr(ex.new_region(st, 'obj', 16, 'heap', 8, Content({}, Node('fn', aux=f))), 0)


def resource(ex, st):
    return Ptr(ex.new_region(st, 'resource', 64, 'heap', 8), 0)


def make(v, mods, fn):
    ex = v.executor(mods)
    alloc_contract(ex)
    g = {}
    res = '_r' in fn

    def setup(ex, st):
        n, p, IN = bytes_param(ex, st, 'data')
        g.update(n=n, IN=IN, p=fresh_obj(ex, st))
        return [g['p']] + ([resource(ex, st)] if res else []) + [p, n]

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', fn + ' returns normally')
            return
        check_value(ex, st, g['p'], g['n'], g['IN'], fn, True if res else None)
    v.prove(fn, ex, '^%s$' % fn, setup, post)


def copy(v, mods, a):
    ex = v.executor(mods)
    alloc_contract(ex)
    g = {}

    def setup(ex, st):
        pa, na, A, _ = value_obj(ex, st, 'a', a)
        g.update(na=na, A=A, p=fresh_obj(ex, st))
        return [g['p'], resource(ex, st), pa]

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', 'copy returns normally')
            return
        check_value(ex, st, g['p'], g['na'], g['A'], 'copy into resource', True)
    v.prove('copy into resource (%s)' % ('short' if a else 'long'), ex, '^t_copy_r$', setup, post)


def concat(v, mods, fn, a, b):
    ex = v.executor(mods)
    alloc_contract(ex)
    g = {}

    def setup(ex, st):
        pa, na, A, _ = value_obj(ex, st, 'a', a)
        pb, nb, B, _ = value_obj(ex, st, 'b', b)
        g.update(na=na, A=A, nb=nb, B=B, p=fresh_obj(ex, st))
        return [g['p'], resource(ex, st), pa, pb]

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', 'concat returns normally')
            return
        na, A, nb, B = g['na'], g['A'], g['nb'], g['B']
        check_value(ex, st, g['p'], na + nb, lambda j: z3.If(z3.ULT(j, na), A(j), B(j - na)), 'concat', True)
    v.prove('%s (%s,%s)' % (fn, 'short' if a else 'long', 'short' if b else 'long'), ex, '^%s$' % fn, setup, post)


def default(v, mods):
    ex = v.executor(mods)
    g = {}

    def setup(ex, st):
        g['p'] = fresh_obj(ex, st)
        return [g['p']]

    def post(ex, st, out):
        check_value(ex, st, g['p'], c64(0), lambda j: z3.BitVecVal(0, 8), 'default is empty')
    v.prove('default', ex, '^t_default$', setup, post)


def access(v, mods, a):
    for nm, pat in (('size', r'^jogasaki::accessor::text::size\(\)'), ('empty', r'^jogasaki::accessor::text::empty\(\)'),
                    ('bool', r'^jogasaki::accessor::text::operator bool\(\)'), ('is_short', r'^jogasaki::accessor::text::is_short\(\)'),
                    ('view', r'^jogasaki::accessor::text::operator std::basic_string_view'),
                    ('string', r'^jogasaki::accessor::text::operator std::(__cxx11::basic_)?string\b(?!_view)|^_ZNK8jogasaki8accessor4textcvNSt7__cxx11')):
        ex = v.executor(mods)
        g = {}

        def setup(ex, st):
            pa, na, A, buf = value_obj(ex, st, 'a', a)
            g.update(pa=pa, na=na, A=A, buf=buf)
            if nm == 'string':
                g['out'] = sret(ex, st)
                return [g['out'], pa]
            return [pa]

        def post(ex, st, out):
            if out[0] != 'ret':
                ex.oblige(st, False, 'post', nm + ' returns normally')
                return
            na, A = g['na'], g['A']
            r = out[1]
            if nm == 'size':
                ex.oblige(st, bv(r, 64) == na, 'post', 'size')
            elif nm == 'empty':
                ex.oblige(st, boolv(r) == (na == 0), 'post', 'empty')
            elif nm == 'bool':
                ex.oblige(st, boolv(r) == (na != 0), 'post', 'bool')
            elif nm == 'is_short':
                ex.oblige(st, boolv(r) == z3.ULE(na, 15), 'post', 'is_short')
            else:
                if nm == 'view':
                    n, q = bv(r[0], 64), r[1]
                    rd = lambda o: ex.mem.read(st, ex.content(st, q.rid), add64(q.off, o), 1)
                else:
                    n, rd = result_string(ex, st, g['out'])
                ex.oblige(st, bv(n, 64) == na, 'post', nm + ': length')
                j = z3.BitVec('j', 64)
                ex.oblige(st, z3.Implies(z3.ULT(j, na), bv(rd(j), 8) == A(j)), 'post', nm + ': every byte')
        v.prove('%s (%s)' % (nm, 'short' if a else 'long'), ex, pat, setup, post)
