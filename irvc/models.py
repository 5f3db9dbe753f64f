"""Trusted models (assumed contracts) of library functions: libc, libstdc++, the C++ runtime, LLVM intrinsics.

Each model is an assumption of the proof; the ones used in a run are listed in that run's evidence.
"""
import re
import z3

from .core import *
from . import llvmir as L

MAXLEN = 1 << 61        # no object is larger than this (assumed)


class Registry:
    def __init__(self):
        self.exact = {}
        self.rx = []
        self.cache = {}

    def name(self, *names):
        def deco(f):
            for n in names:
                self.exact[n] = f
            return f
        return deco

    def re(self, *pats):
        def deco(f):
            for p in pats:
                self.rx.append((re.compile(p), f))
            return f
        return deco

    def lookup(self, name, dem):
        k = name
        if k in self.cache:
            return self.cache[k]
        f = self.exact.get(name)
        if f is None:
            for r, g in self.rx:
                if r.match(name) or r.match(dem):
                    f = g
                    break
        self.cache[k] = f
        return f


REG = Registry()
name = REG.name
rex = REG.re


def act():
    from .exec import Act
    return Act


# ---------------------------------------------------------------- intrinsics
@rex(r'llvm\.lifetime\.', r'llvm\.dbg\.', r'llvm\.experimental\.noalias', r'llvm\.invariant', r'llvm\.assume$',
     r'llvm\.prefetch', r'llvm\.stackrestore', r'llvm\.var\.annotation', r'llvm\.launder', r'llvm\.donothing')
def _nop(ex, st, a, ins, d):
    if d.startswith('llvm.assume') or ins is not None and 'llvm.assume' in str(d):
        ex.assume(st, a[0])
    if d.startswith('llvm.launder') or d.startswith('llvm.strip'):
        return a[0]
    return None


@rex(r'llvm\.expect\.', r'llvm\.threadlocal\.address')
def _expect(ex, st, a, ins, d):
    return a[0]


@rex(r'llvm\.memcpy\.', r'llvm\.memmove\.')
def _memcpy(ex, st, a, ins, d):
    mem_copy(ex, st, a[0], a[1], a[2], 'memmove' in d)
    return None


@name('memcpy', 'memmove')
def _memcpy2(ex, st, a, ins, d):
    mem_copy(ex, st, a[0], a[1], a[2], d == 'memmove')
    return a[0]


def mem_copy(ex, st, dst, src, n, overlap_ok=True):
    if isc(n) and n == 0:
        return
    if not isc(n):
        n = simp(n)
    # zero length with any pointers is allowed
    if dst.rid == 0 or src.rid == 0:
        ex.oblige(st, eq(n, 0), 'memcpy-null')
        return
    ex.bounds(st, src, n, 'memcpy-src') if isc(n) else guard_bounds(ex, st, src, n, 'memcpy-src')
    r = ex.bounds(st, dst, n, 'memcpy-dst') if isc(n) else guard_bounds(ex, st, dst, n, 'memcpy-dst')
    if r is not None and r.ro:
        ex.oblige(st, False, 'memcpy-to-constant')
    if not overlap_ok and dst.rid == src.rid:
        ex.oblige(st, Or(eq(n, 0), eq(dst.off, src.off), Not(ult(sub64(dst.off, src.off), n)) if True else True), 'memcpy-overlap')
        ex.oblige(st, Or(eq(n, 0), eq(dst.off, src.off), Not(ult(sub64(src.off, dst.off), n))), 'memcpy-overlap')
    st.mem[dst.rid] = ex.mem.copy(st, ex.content(st, dst.rid), dst.off, n, ex.content(st, src.rid), src.off)


def guard_bounds(ex, st, p, n, what):
    r = ex.regions[p.rid]
    size = r.size
    if p.rid in st.dead:
        ex.oblige(st, False, what + '-dead-object')
    if r.kind == 'strbuf':
        ow = st.owner.get(p.rid)
        if ow is not None:
            size = add64(ex.mem.read(st, ex.content(st, ow[0]), ow[1], 8), 1)
    if size is None:
        return r
    ex.oblige(st, Or(eq(n, 0), And(ule(n, size), ule(p.off, sub64(size, n)))), what + '-bounds')
    return r


@rex(r'llvm\.memset\.')
def _memset(ex, st, a, ins, d):
    mem_set(ex, st, a[0], a[1], a[2])
    return None


@name('memset')
def _memset2(ex, st, a, ins, d):
    v = a[1]
    v = v & 0xff if isc(v) else simp(z3.Extract(7, 0, v))
    mem_set(ex, st, a[0], v, a[2])
    return a[0]


def mem_set(ex, st, p, v, n):
    if isc(n) and n == 0:
        return
    if p.rid == 0:
        ex.oblige(st, eq(n, 0), 'memset-null')
        return
    guard_bounds(ex, st, p, n, 'memset')
    st.mem[p.rid] = ex.mem.fill(ex.content(st, p.rid), p.off, n, v)


@rex(r'llvm\.(umin|umax|smin|smax)\.')
def _minmax(ex, st, a, ins, d):
    w = ins.ty.width
    x, y = bv(a[0], w), bv(a[1], w)
    k = d.split('.')[1]
    c = {'umin': z3.ULE(x, y), 'umax': z3.UGE(x, y), 'smin': x <= y, 'smax': x >= y}[k]
    return simp(z3.If(c, x, y))


@rex(r'llvm\.abs\.')
def _abs(ex, st, a, ins, d):
    w = ins.ty.width
    x = bv(a[0], w)
    return simp(z3.If(x < 0, -x, x))


@rex(r'llvm\.bswap\.')
def _bswap(ex, st, a, ins, d):
    w = ins.ty.width
    x = bv(a[0], w)
    return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)]))


@rex(r'llvm\.ctpop\.')
def _ctpop(ex, st, a, ins, d):
    w = ins.ty.width
    x = bv(a[0], w)
    s = z3.BitVecVal(0, w)
    for i in range(w):
        s = s + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
    return simp(s)


@rex(r'llvm\.ctlz\.', r'llvm\.cttz\.')
def _ctz(ex, st, a, ins, d):
    w = ins.ty.width
    x = bv(a[0], w)
    r = z3.BitVecVal(w, w)
    rng = range(w) if 'ctlz' in d else range(w - 1, -1, -1)
    for i in rng:
        cnt = w - 1 - i if 'ctlz' in d else i
        r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(cnt, w), r)
    return simp(r)


@rex(r'llvm\.fshl\.', r'llvm\.fshr\.')
def _fsh(ex, st, a, ins, d):
    w = ins.ty.width
    x, y, s = bv(a[0], w), bv(a[1], w), z3.URem(bv(a[2], w), z3.BitVecVal(w, w))
    if 'fshl' in d:
        r = (x << s) | z3.If(s == 0, z3.BitVecVal(0, w), z3.LShR(y, w - s))
    else:
        r = z3.LShR(y, s) | z3.If(s == 0, z3.BitVecVal(0, w), x << (w - s))
    return simp(r)


@rex(r'llvm\.[us](add|sub|mul)\.with\.overflow')
def _ovf(ex, st, a, ins, d):
    w = ins.ops[0].ty.width
    x, y = bv(a[0], w), bv(a[1], w)
    s = d.split('.')[1]
    sg = s[0] == 's'
    op = s[1:]
    if op == 'add':
        r = x + y
        ok = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)) if sg else z3.BVAddNoOverflow(x, y, False)
    elif op == 'sub':
        r = x - y
        ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)) if sg else z3.BVSubNoUnderflow(x, y, False)
    else:
        r = x * y
        ok = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)) if sg else z3.BVMulNoOverflow(x, y, False)
    return (simp(r), simp(z3.Not(ok)))


@rex(r'llvm\.[us](add|sub)\.sat')
def _sat(ex, st, a, ins, d):
    w = ins.ty.width
    x, y = bv(a[0], w), bv(a[1], w)
    k = d.split('.')[1]
    if k == 'uadd':
        return simp(z3.If(z3.BVAddNoOverflow(x, y, False), x + y, z3.BitVecVal(mask(w), w)))
    if k == 'usub':
        return simp(z3.If(z3.UGE(x, y), x - y, z3.BitVecVal(0, w)))
    raise Unsupported(d)


@rex(r'llvm\.eh\.typeid\.for')
def _typeid(ex, st, a, ins, d):
    p = a[0]
    if p.rid == 0:
        return ex.tid('null')
    return ex.tid(ex.regions[p.rid].name)


@rex(r'llvm\.fabs\.')
def _fabs(ex, st, a, ins, d):
    w = ins.ty.width
    return simp(bv(a[0], w) & z3.BitVecVal(mask(w) >> 1, w))


@rex(r'llvm\.is\.fpclass')
def _fpclass(ex, st, a, ins, d):
    w = ins.ops[0].ty.width
    b = bv(a[0], w)
    neg = z3.Extract(w - 1, w - 1, b) == 1
    m = a[1]
    fr = 52 if w == 64 else 23
    q = z3.Extract(fr - 1, fr - 1, b) == 1
    exp, frac = z3.Extract(w - 2, fr, b), z3.Extract(fr - 1, 0, b)
    ones, zeros = exp == mask(w - 1 - fr), exp == 0
    nan, inf = z3.And(ones, frac != 0), z3.And(ones, frac == 0)
    zero, sub, nor = z3.And(zeros, frac == 0), z3.And(zeros, frac != 0), z3.And(z3.Not(ones), z3.Not(zeros))
    cs = []
    for bit, c in [(1, z3.And(nan, z3.Not(q))), (2, z3.And(nan, q)), (4, z3.And(inf, neg)), (8, z3.And(nor, neg)),
                   (16, z3.And(sub, neg)), (32, z3.And(zero, neg)), (64, z3.And(zero, z3.Not(neg))), (128, z3.And(sub, z3.Not(neg))),
                   (256, z3.And(nor, z3.Not(neg))), (512, z3.And(inf, z3.Not(neg)))]:
        if m & bit:
            cs.append(c)
    return simp(z3.Or(*cs))


@rex(r'llvm\.objectsize')
def _objsize(ex, st, a, ins, d):
    return mask(64)


@rex(r'llvm\.is\.constant')
def _iscst(ex, st, a, ins, d):
    return False


@rex(r'llvm\.trap', r'llvm\.ubsantrap')
def _trap(ex, st, a, ins, d):
    return act()('abort', 'trap')


@rex(r'llvm\.stacksave')
def _ss(ex, st, a, ins, d):
    return NULL


# ---------------------------------------------------------------- C library
@name('strlen')
def _strlen(ex, st, a, ins, d):
    return c_strlen(ex, st, a[0])


def c_strlen(ex, st, p):
    r = ex.regions.get(p.rid)
    if r is None:
        ex.oblige(st, False, 'strlen-null')
        return 0
    ov = st.ghost.get(('cstrlen', p.rid))
    if ov is not None:
        return sub64(ov, p.off)
    if not isc(p.off):
        raise Unsupported('strlen at symbolic offset')
    n = 0
    while n < 4096:
        b = ex.rd(st, Ptr(p.rid, p.off + n), 1)
        if not isc(b):
            raise Unsupported('strlen of symbolic bytes')
        if b == 0:
            return n
        n += 1
    raise Unsupported('strlen too long')


@name('strrchr', 'strchr')
def _strrchr(ex, st, a, ins, d):
    p, n = a[0], c_strlen(ex, st, a[0])
    if not (isc(n) and isc(a[1])):
        raise Unsupported('strrchr on symbolic text')
    bs = [ex.rd(st, Ptr(p.rid, p.off + i), 1) for i in range(n + 1)]
    hit = [i for i in range(n + 1) if bs[i] == a[1] & 255]
    if not hit:
        return Ptr(0, 0)
    return Ptr(p.rid, p.off + (hit[-1] if d.startswith('strrchr') else hit[0]))


@name('memcmp', 'bcmp')
def _memcmp(ex, st, a, ins, d):
    return mem_cmp(ex, st, a[0], a[1], a[2])


def mem_cmp(ex, st, p, q, n):
    n = simp(n)
    if isc(n) and n == 0:
        return 0
    if p.rid == 0 or q.rid == 0:
        ex.oblige(st, eq(n, 0), 'memcmp-null')
        return 0
    guard_bounds(ex, st, p, n, 'memcmp')
    guard_bounds(ex, st, q, n, 'memcmp')
    if p.rid == q.rid and isc(simp(bv(sub64(p.off, q.off), 64))) and sub64(p.off, q.off) == 0:
        return 0
    if isc(n) and n <= 64:
        r = z3.BitVecVal(0, 32)
        for k in range(n - 1, -1, -1):
            x = bv(ex.rd(st, p.add(k), 1), 8)
            y = bv(ex.rd(st, q.add(k), 1), 8)
            r = z3.If(x == y, r, z3.If(z3.ULT(x, y), z3.BitVecVal(mask(32), 32), z3.BitVecVal(1, 32)))
        return simp(r)
    # witness d: first differing index (n if none); the equality of all bytes before d is instantiated by contracts
    c1, c2 = ex.content(st, p.rid), ex.content(st, q.rid)
    for rec in st.ghost.get('memcmp', ()):
        if rec['c1'] is c1 and rec['c2'] is c2 and ex.same(rec['p'], p) and ex.same(rec['q'], q) and ex.same(rec['n'], n):
            return rec['r']
    dd = ex.fresh('diff', 64)
    r = ex.fresh('memcmp', 32)
    n64 = bv(n, 64)
    st.pc.append(z3.ULE(dd, n64))
    x = bv(ex.mem.read(st, c1, add64(p.off, dd), 1), 8)
    y = bv(ex.mem.read(st, c2, add64(q.off, dd), 1), 8)
    st.pc.append(z3.If(dd == n64, r == 0, z3.And(x != y, z3.If(z3.ULT(x, y), r < 0, r > 0))))
    # the first byte is instantiated here
    rec = dict(p=p, q=q, n=n, d=dd, r=r, c1=c1, c2=c2)
    st.ghost['memcmp'] = st.ghost.get('memcmp', ()) + (rec,)
    for t in st.ghost.get('cmp_terms', ()):
        memcmp_inst(ex, st, rec, t)
    return r


@name('memchr')
def _memchr(ex, st, a, ins, d):
    """first occurrence; 'no earlier byte equals c' is a fact about every byte read from the (unmodified) object"""
    from .exec import Fork
    p, c, n = a[0], bv(a[1], 32), simp(a[2])
    c = simp(z3.Extract(7, 0, c))
    if isc(n) and n == 0:
        return NULL
    if p.rid == 0:
        ex.oblige(st, eq(n, 0), 'memchr-null')
        return NULL
    guard_bounds(ex, st, p, n, 'memchr')
    ct = ex.content(st, p.rid)
    r, n64 = ex.fresh('memchr', 64), bv(n, 64)
    st.pc.append(z3.ULE(r, n64))

    def none_before(i):
        """byte at object offset i is not c if it lies before the result"""
        i = bv(i, 64) - bv(p.off, 64)
        return z3.Implies(z3.ULT(i, r), bv(ex.mem.read(st, ct, add64(p.off, i), 1), 8) != bv(c, 8))
    if not ct.cells and ct.base.kind == 'fn':
        F = ct.base.aux
        ex.basefacts.setdefault(F, []).append(
            lambda i: z3.Implies(z3.ULT(bv(i, 64) - bv(p.off, 64), r), F(bv(i, 64)) != bv(c, 8)))
    elif isc(n) and n <= 64:
        for k in range(n):
            st.pc.append(none_before(add64(p.off, k)))
    for t in st.ghost.get('cmp_terms', ()):
        st.pc.append(none_before(t))

    def hit(s):
        s.pc.append(bv(ex.mem.read(s, ct, add64(p.off, r), 1), 8) == bv(c, 8))
        return p.add(r)
    return Fork([(r == n64, lambda s: NULL), (z3.ULT(r, n64), hit)])


def memcmp_inst(ex, st, rec, t):
    """all bytes before the first difference are equal, instantiated at index t"""
    x = bv(ex.mem.read(st, rec['c1'], add64(rec['p'].off, t), 1), 8)
    y = bv(ex.mem.read(st, rec['c2'], add64(rec['q'].off, t), 1), 8)
    st.pc.append(z3.Implies(z3.ULT(bv(t, 64), rec['d']), x == y))


@name('isalnum', 'isalpha', 'isdigit', 'isxdigit', 'isspace', 'isupper', 'islower')
def _ctype(ex, st, a, ins, d):
    c = bv(a[0], 32)
    ex.oblige(st, Or(c == 0xffffffff, z3.ULE(c, 255)), 'ctype-domain')

    def rng(lo, hi):
        return z3.And(z3.UGE(c, ord(lo)), z3.ULE(c, ord(hi)))
    dg, up, lo = rng('0', '9'), rng('A', 'Z'), rng('a', 'z')
    t = {'isalnum': z3.Or(dg, up, lo), 'isalpha': z3.Or(up, lo), 'isdigit': dg, 'isupper': up, 'islower': lo,
         'isxdigit': z3.Or(dg, rng('A', 'F'), rng('a', 'f')), 'isspace': z3.Or(c == 32, z3.And(z3.UGE(c, 9), z3.ULE(c, 13)))}[d]
    # any non-zero value may be returned
    nz = ex.fresh(d, 32)
    st.pc.append(nz != 0)
    return simp(z3.If(t, nz, z3.BitVecVal(0, 32)))


@name('tolower', 'toupper')
def _tolower(ex, st, a, ins, d):
    c = bv(a[0], 32)
    if d == 'tolower':
        return simp(z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c))
    return simp(z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), c - 32, c))


@name('__assert_fail')
def _assert(ex, st, a, ins, d):
    ex.oblige(st, False, 'assert')
    return act()('abort', 'assert')


@name('abort', '_ZSt9terminatev', '__cxa_pure_virtual')
def _abort(ex, st, a, ins, d):
    return act()('abort', d)


@name('_ZSt21__glibcxx_assert_failPKciS0_S0_')
def _gassert(ex, st, a, ins, d):
    ex.oblige(st, False, 'library-assert')
    return act()('abort', 'assert')


# ---------------------------------------------------------------- allocation
def alloc(ex, st, n, align, nm='heap'):
    n = simp(n) if not isc(n) else n
    if not isc(n):
        st.pc.append(z3.ULE(n, MAXLEN))
    rid = ex.new_region(st, nm, n, 'heap', align)
    return Ptr(rid, 0)


@name('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def _new(ex, st, a, ins, d):
    return alloc(ex, st, a[0], 16)


@name('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmSt11align_val_tRKSt9nothrow_t')
def _newal(ex, st, a, ins, d):
    return alloc(ex, st, a[0], a[1] if isc(a[1]) else 16)


@name('aligned_alloc')
def _aal(ex, st, a, ins, d):
    al = simp(a[0])
    if not isc(al):
        ex.oblige(st, z3.And(al != 0, (al & (al - 1)) == 0, z3.ULE(al, 1 << 40)), 'aligned_alloc-alignment')
    return alloc(ex, st, a[1], al)


@name('calloc')
def _calloc(ex, st, a, ins, d):
    p = alloc(ex, st, simp(bv(a[0], 64) * bv(a[1], 64)), 16)
    st.mem[p.rid] = Content({}, ZERO)
    return p


@name('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _free(ex, st, a, ins, d):
    p = a[0]
    if p.rid == 0:
        return None
    if p.rid in st.dead:
        ex.oblige(st, False, 'double-free')
    ex.oblige(st, eq(p.off, 0), 'free-offset')
    if ex.regions[p.rid].kind != 'heap':
        ex.oblige(st, False, 'free-non-heap')
    st.dead = st.dead | {p.rid}
    return None


# ---------------------------------------------------------------- exceptions
@name('__cxa_allocate_exception')
def _exalloc(ex, st, a, ins, d):
    return Ptr(ex.new_region(st, 'exc', a[0], 'heap', 16), 0)


@name('__cxa_free_exception')
def _exfree(ex, st, a, ins, d):
    return None


@name('__cxa_throw')
def _throw(ex, st, a, ins, d):
    return act()('throw', ex.regions[a[1].rid].name, a[0])


@name('__cxa_begin_catch')
def _bcatch(ex, st, a, ins, d):
    st.caught = st.caught + (st.exc,)
    return a[0]


@name('__cxa_end_catch')
def _ecatch(ex, st, a, ins, d):
    st.caught = st.caught[:-1]
    return None


@name('__cxa_rethrow')
def _rethrow(ex, st, a, ins, d):
    t, p = st.caught[-1]
    return act()('throw', t, p)


@name('__cxa_get_exception_ptr')
def _gep(ex, st, a, ins, d):
    return a[0]


THROWS = {'out_of_range': '_ZTISt12out_of_range', 'out_of_range_fmt': '_ZTISt12out_of_range',
          'length_error': '_ZTISt12length_error', 'logic_error': '_ZTISt11logic_error',
          'bad_alloc': '_ZTISt9bad_alloc', 'invalid_argument': '_ZTISt16invalid_argument',
          'bad_variant_access': '_ZTISt18bad_variant_access', 'bad_optional_access': '_ZTISt19bad_optional_access',
          'bad_array_new_length': '_ZTISt9bad_alloc', 'bad_cast': '_ZTISt8bad_cast',
          'bad_function_call': '_ZTISt17bad_function_call', 'runtime_error': '_ZTISt13runtime_error'}


@rex(r'^std::__throw_(\w+)\(')
def _sthrow(ex, st, a, ins, d):
    k = re.match(r'^std::__throw_(\w+)\(', d).group(1)
    if k not in THROWS:
        raise Unsupported('library throw ' + d)
    return act()('throw', THROWS[k], None)


@rex(r'^std::(out_of_range|length_error|logic_error|runtime_error|invalid_argument|domain_error|bad_alloc|exception|overflow_error|range_error)::~?\w+\(')
def _excctor(ex, st, a, ins, d):
    # the library class's vtable: only what() is ever called on it
    if '::~' not in d and isinstance(a[0], Ptr) and a[0].rid:
        rid = st.ghost.get('exc_vtable')
        if rid is None:
            rid = ex.new_region(st, 'exc_vtable', 24, 'const', 8, Content({16: (8, FPtr('_ZNKSt9exception4whatEv'))}, ZERO))
            st.ghost['exc_vtable'] = rid
        ex.wr(st, a[0], 8, Ptr(rid, 0))
    return None


@name('_ZNKSt9exception4whatEv')
def _what(ex, st, a, ins, d):
    # message texts are not modelled
    return Ptr(ex.new_region(st, 'what', 1, 'const', 1, Content({}, ZERO), ro=True), 0)


@name('__cxa_guard_acquire')
def _guard(ex, st, a, ins, d):
    v = ex.rd(st, a[0], 1)
    return 0 if isc(v) and v else 1


@name('__cxa_guard_release')
def _guardr(ex, st, a, ins, d):
    ex.wr(st, a[0], 1, 1)
    return None


@name('__cxa_guard_abort', '__cxa_atexit', '__cxa_thread_atexit')
def _nop2(ex, st, a, ins, d):
    return 0 if ins.ty.kind != 'void' else None


@rex(r'^pthread_mutex_(lock|unlock|trylock)$', r'^std::mutex::(lock|unlock)\(', r'^std::recursive_mutex::(lock|unlock)\(',
     r'^__gthread_mutex_(lock|unlock)\(', r'^std::__throw_system_error\($')
def _mtx(ex, st, a, ins, d):
    return 0 if ins.ty.kind != 'void' else None


@rex(r'^__gthread_active_p')
def _gact(ex, st, a, ins, d):
    return 1


# ---------------------------------------------------------------- std::string
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'


def str_buf(ex, st, p):
    b = ex.rd(st, p, 8)
    if not isinstance(b, Ptr) or b.rid == 0 or ex.regions[b.rid].kind != 'strbuf':
        raise Unsupported('std::string object not constructed (%s)' % b)
    return b


def str_size(ex, st, p):
    return ex.rd(st, p.add(8), 8)


def str_init(ex, st, p, content=None, size=0, nm='str'):
    """construct a string object at p"""
    if content is None:
        content = Content({}, ZERO)
    rid = ex.new_region(st, nm, None, 'strbuf', 1, content)
    ex.bounds(st, p, 32, 'string-object')
    st.mem[p.rid] = ex.mem.write(ex.content(st, p.rid), p.off, 8, Ptr(rid, 0))
    st.mem[p.rid] = ex.mem.write(ex.content(st, p.rid), add64(p.off, 8), 8, size)
    st.owner[rid] = (p.rid, add64(p.off, 8))
    return rid


def str_set(ex, st, p, src, n):
    """s = bytes [src, src+n)"""
    b = str_buf(ex, st, p)
    c = snapshot(ex, st, src)
    st.mem[b.rid] = ex.mem.copy(st, Content({}, ZERO), 0, n, c, src.off if src.rid else 0) if not (isc(n) and n == 0) else Content({}, ZERO)
    ex.wr(st, p.add(8), 8, n)


def snapshot(ex, st, src):
    return ex.content(st, src.rid) if src.rid else Content({}, ZERO)


def str_append(ex, st, p, src, n):
    if isc(n) and n == 0:
        return
    b = str_buf(ex, st, p)
    sz = str_size(ex, st, p)
    if src.rid == 0:
        ex.oblige(st, eq(n, 0), 'string-append-null')
        return
    if not (isc(sz) and isc(n)):
        st.pc.append(boolv(simp(And(ule(sz, MAXLEN), ule(n, MAXLEN), ule(add64(sz, n), MAXLEN)))))
    st.mem[b.rid] = ex.mem.copy(st, ex.content(st, b.rid), sz, n, ex.content(st, src.rid), src.off)
    ex.wr(st, p.add(8), 8, add64(sz, n))


def str_put(ex, st, p, c):
    b = str_buf(ex, st, p)
    sz = str_size(ex, st, p)
    if not isc(sz):
        st.pc.append(z3.ULT(sz, MAXLEN))
    st.mem[b.rid] = ex.mem.write(ex.content(st, b.rid), sz, 1, c)
    ex.wr(st, p.add(8), 8, add64(sz, 1))


def str_fill(ex, st, p, n, c):
    b = str_buf(ex, st, p)
    sz = str_size(ex, st, p)
    if not (isc(sz) and isc(n)):
        st.pc.append(boolv(simp(And(ule(sz, MAXLEN), ule(n, MAXLEN)))))
    st.mem[b.rid] = ex.mem.fill(ex.content(st, b.rid), sz, n, c)
    ex.wr(st, p.add(8), 8, add64(sz, n))


def len_check(ex, st, n):
    """bytes count handed to string construction: std::length_error above max_size()"""
    if isc(n):
        return n <= (1 << 63) - 1
    return ex.must(st, z3.ULE(n, MAXLEN))


def parse_args(d):
    """top-level argument types of a demangled signature"""
    depth = 0
    i = len(d) - 1
    # find the parameter list: last ')' at depth 0
    while d[i] != ')':
        i -= 1
    end = i
    depth = 0
    while True:
        if d[i] == ')':
            depth += 1
        elif d[i] == '(':
            depth -= 1
            if depth == 0:
                break
        i -= 1
    s = d[i + 1:end]
    out, cur, dep = [], '', 0
    for ch in s:
        if ch in '<([':
            dep += 1
        elif ch in '>)]':
            dep -= 1
        if ch == ',' and dep == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def is_str(t):
    return 'basic_string<char' in t and 'basic_string_view' not in t


def byte(v):
    return v & 0xff if isc(v) else (v if v.size() == 8 else simp(z3.Extract(7, 0, v)))


@rex(r'^%s::basic_string(\[abi:cxx11\])?(<[^(]*>)?\(' % re.escape(STR))
def _sctor(ex, st, a, ins, d):
    t = parse_args(d)
    p = a[0]
    rest = a[1:]
    if not t or (len(t) == 1 and t[0].startswith('std::allocator')):
        str_init(ex, st, p)
        return None
    if len(t) >= 1 and is_str(t[0]):
        src = rest[0]
        b = str_buf(ex, st, src)
        n = str_size(ex, st, src)
        if len(t) == 1 or t[1].startswith('std::allocator'):
            if t[0].endswith('&&'):
                move_str(ex, st, p, src, True)
                return None
            str_init(ex, st, p)
            str_set(ex, st, p, b, n)
            return None
        # (str, pos, n)
        pos = rest[1]
        cnt = rest[2] if len(t) > 2 else mask(64)

        def ok(s):
            nb, nn = str_buf(ex, s, src), str_size(ex, s, src)
            rem = sub64(nn, pos)
            k = simp(z3.If(z3.ULT(bv(rem, 64), bv(cnt, 64)), bv(rem, 64), bv(cnt, 64)))
            str_init(ex, s, p)
            str_set(ex, s, p, nb.add(pos), k)
            return None
        from .exec import Fork, Throw
        return Fork([(ule(pos, n), ok), (Not(ule(pos, n)), lambda s: Throw('_ZTISt12out_of_range'))])
    if t[0].startswith('char const*') or (t[0] == 'char*'):
        src = rest[0]
        if len(t) == 1 or t[1].startswith('std::allocator'):
            n = c_strlen(ex, st, src)
        elif 'unsigned long' in t[1]:
            n = rest[1]
        else:
            # iterator range (first, last)
            n = sub64(rest[1].off, src.off) if src.rid == rest[1].rid else None
            if n is None:
                raise Unsupported(d)
        if src.rid == 0:
            if isc(n) and n == 0 or ex.must(st, eq(n, 0)):
                str_init(ex, st, p)
                return None
            from .exec import Fork, Throw
            return Fork([(eq(n, 0), lambda s: (str_init(ex, s, p), None)[1]), (Not(eq(n, 0)), lambda s: Throw('_ZTISt11logic_error'))])
        return construct_range(ex, st, p, src, n)
    if t[0] == 'unsigned long' and len(t) > 1 and t[1] == 'char':
        n, c = rest[0], byte(rest[1])
        str_init(ex, st, p)
        str_fill(ex, st, p, n, c)
        return None
    if 'basic_string_view' in t[0] or 'string_view' in t[0]:
        # by reference: (sv const&, alloc)
        sv = rest[0]
        if isinstance(sv, Ptr) and t[0].endswith('&'):
            n = ex.rd(st, sv, 8)
            src = ex.rd(st, sv.add(8), 8)
            if not isinstance(src, Ptr):
                src = NULL
            return construct_range(ex, st, p, src, n)
    if '__sv_wrapper' in t[0]:
        n, src = rest[0], rest[1]
        return construct_range(ex, st, p, src, n)
    if len(t) >= 2 and '__normal_iterator' in t[0]:
        src, last = rest[0], rest[1]
        return construct_range(ex, st, p, src, sub64(last.off, src.off))
    if 'initializer_list' in t[0]:
        return construct_range(ex, st, p, rest[0], rest[1])
    raise Unsupported('string constructor ' + d)


def construct_range(ex, st, p, src, n):
    if src.rid != 0:
        guard_bounds(ex, st, src, n, 'string-source')
    else:
        ex.oblige(st, eq(n, 0), 'string-source-null')
    if not isc(n):
        st.pc.append(z3.ULE(n, MAXLEN))
    elif n > MAXLEN:
        return act()('throw', '_ZTISt12length_error', None)
    str_init(ex, st, p)
    str_set(ex, st, p, src, n)
    return None


def move_str(ex, st, dst, src, construct):
    """move: the buffer changes owner, the source becomes empty"""
    if construct:
        ex.bounds(st, dst, 32, 'string-object')
    else:
        ob = str_buf(ex, st, dst)
    b = str_buf(ex, st, src)
    n = str_size(ex, st, src)
    ex.wr(st, dst, 8, b)
    ex.wr(st, dst.add(8), 8, n)
    st.owner[b.rid] = (dst.rid, add64(dst.off, 8))
    # the moved-from object gets a fresh empty buffer
    rid = ex.new_region(st, 'str', None, 'strbuf', 1, Content({}, ZERO))
    ex.wr(st, src, 8, Ptr(rid, 0))
    ex.wr(st, src.add(8), 8, 0)
    st.owner[rid] = (src.rid, add64(src.off, 8))


@rex(r'^%s::~basic_string\(' % re.escape(STR))
def _sdtor(ex, st, a, ins, d):
    b = ex.rd(st, a[0], 8)
    if isinstance(b, Ptr) and b.rid:
        if b.rid in st.dead:
            ex.oblige(st, False, 'string-double-destroy')
        st.dead = st.dead | {b.rid}
    return None


@rex(r'^%s::operator=(<[^(]*>)?\(' % re.escape(STR), r'^%s::assign(<[^(]*>)?\(' % re.escape(STR))
def _sassign(ex, st, a, ins, d):
    t = parse_args(d)
    p, rest = a[0], a[1:]
    if is_str(t[0]) and len(t) == 1:
        src = rest[0]
        if p.rid == src.rid and ex.same(p.off, src.off):
            return p
        if t[0].endswith('&&'):
            move_str(ex, st, p, src, False)
            return p
        str_set(ex, st, p, str_buf(ex, st, src), str_size(ex, st, src))
        return p
    return str_from(ex, st, p, t, rest, d, lambda src, n: (checked_src(ex, st, src, n), str_set(ex, st, p, src, n)),
                    lambda n, c: (str_clear(ex, st, p), str_fill(ex, st, p, n, c)))


def checked_src(ex, st, src, n):
    if src.rid:
        guard_bounds(ex, st, src, n, 'string-source')
    else:
        ex.oblige(st, eq(n, 0), 'string-source-null')


def str_clear(ex, st, p):
    ex.wr(st, p.add(8), 8, 0)


def str_from(ex, st, p, t, rest, d, setter, filler):
    """dispatch on the source argument forms shared by assign/append"""
    if is_str(t[0]):
        src = rest[0]
        b, n = str_buf(ex, st, src), str_size(ex, st, src)
        if len(t) == 1:
            setter(b, n)
            return p
        pos, cnt = rest[1], (rest[2] if len(rest) > 2 else mask(64))
        from .exec import Throw, Fork
        if not ex.must(st, ule(pos, n)):
            raise Unsupported('string range argument')
        rem = sub64(n, pos)
        k = simp(z3.If(z3.ULT(bv(rem, 64), bv(cnt, 64)), bv(rem, 64), bv(cnt, 64)))
        setter(b.add(pos), k)
        return p
    if t[0].startswith('char const*') or t[0] == 'char*':
        src = rest[0]
        if len(t) == 1:
            n = c_strlen(ex, st, src)
        elif 'unsigned long' in t[1]:
            n = rest[1]
        else:
            n = sub64(rest[1].off, src.off)
        setter(src, n)
        return p
    if t[0] == 'unsigned long' and len(t) == 2 and t[1] == 'char':
        filler(rest[0], byte(rest[1]))
        return p
    if t[0] == 'char' and len(t) == 1:
        filler(1, byte(rest[0]))
        return p
    if 'string_view' in t[0] and t[0].endswith('&'):
        sv = rest[0]
        n = ex.rd(st, sv, 8)
        src = ex.rd(st, sv.add(8), 8)
        src = src if isinstance(src, Ptr) else NULL
        if len(t) == 1:
            setter(src, n)
            return p
    if '__normal_iterator' in t[0]:
        setter(rest[0], sub64(rest[1].off, rest[0].off))
        return p
    if 'initializer_list' in t[0]:
        setter(rest[0], rest[1])
        return p
    raise Unsupported('string method ' + d)


@rex(r'^%s::(append|operator\+=)(<[^(]*>)?\(' % re.escape(STR))
def _sappend(ex, st, a, ins, d):
    t = parse_args(d)
    p, rest = a[0], a[1:]

    def setter(src, n):
        checked_src(ex, st, src, n)
        str_append(ex, st, p, src, n)
    return str_from(ex, st, p, t, rest, d, setter, lambda n, c: str_fill(ex, st, p, n, c) if not (isc(n) and n == 1) else str_put(ex, st, p, c))


@rex(r'^%s::push_back\(' % re.escape(STR))
def _spush(ex, st, a, ins, d):
    str_put(ex, st, a[0], byte(a[1]))
    return None


@rex(r'^%s::pop_back\(' % re.escape(STR))
def _spop(ex, st, a, ins, d):
    n = str_size(ex, st, a[0])
    ex.oblige(st, Not(eq(n, 0)), 'pop_back-empty')
    ex.wr(st, a[0].add(8), 8, sub64(n, 1))
    return None


@rex(r'^%s::(reserve|shrink_to_fit)\(' % re.escape(STR))
def _sres(ex, st, a, ins, d):
    return None


@rex(r'^%s::clear\(' % re.escape(STR))
def _sclear(ex, st, a, ins, d):
    str_buf(ex, st, a[0])
    str_clear(ex, st, a[0])
    return None


@rex(r'^%s::(size|length)\(' % re.escape(STR))
def _ssize(ex, st, a, ins, d):
    return str_size(ex, st, a[0])


@rex(r'^%s::empty\(' % re.escape(STR))
def _sempty(ex, st, a, ins, d):
    n = str_size(ex, st, a[0])
    return simp(eq(n, 0)) if not isc(n) else n == 0


@rex(r'^%s::(data|c_str|_M_data)\(' % re.escape(STR))
def _sdata(ex, st, a, ins, d):
    b = str_buf(ex, st, a[0])
    n = str_size(ex, st, a[0])
    # terminator
    st.mem[b.rid] = ex.mem.write(ex.content(st, b.rid), n, 1, 0)
    st.ghost[('cstrlen_owner', b.rid)] = True
    return b


@rex(r'^%s::(begin|cbegin)\(' % re.escape(STR))
def _sbegin(ex, st, a, ins, d):
    return str_buf(ex, st, a[0])


@rex(r'^%s::(end|cend)\(' % re.escape(STR))
def _send(ex, st, a, ins, d):
    return str_buf(ex, st, a[0]).add(str_size(ex, st, a[0]))


@rex(r'^%s::operator\[\]\(' % re.escape(STR))
def _sidx(ex, st, a, ins, d):
    b = str_buf(ex, st, a[0])
    n = str_size(ex, st, a[0])
    ex.oblige(st, ule(a[1], n), 'string-index')
    if not (isc(a[1]) and isc(n)) and ex.may(st, eq(a[1], n)) or isc(a[1]) and isc(n) and a[1] == n:
        st.mem[b.rid] = ex.mem.write(ex.content(st, b.rid), n, 1, 0)
    return b.add(a[1])


@rex(r'^%s::at\(' % re.escape(STR))
def _sat2(ex, st, a, ins, d):
    from .exec import Fork, Throw
    n = str_size(ex, st, a[0])
    c = ult(a[1], n)
    return Fork([(Not(c), lambda s: Throw('_ZTISt12out_of_range')), (c, lambda s: str_buf(ex, s, a[0]).add(a[1]))])


@rex(r'^%s::resize\(' % re.escape(STR))
def _sresize(ex, st, a, ins, d):
    from .exec import Fork
    p, n = a[0], a[1]
    c = byte(a[2]) if len(a) > 2 else 0
    sz = str_size(ex, st, p)

    def grow(s):
        str_fill(ex, s, p, sub64(n, sz), c)
        ex.wr(s, p.add(8), 8, n)
        return None

    def shrink(s):
        ex.wr(s, p.add(8), 8, n)
        return None
    return Fork([(ult(sz, n), grow), (Not(ult(sz, n)), shrink)])


@rex(r'^%s::swap\(' % re.escape(STR))
def _sswap(ex, st, a, ins, d):
    p, q = a[0], a[1]
    b1, b2 = str_buf(ex, st, p), str_buf(ex, st, q)
    n1, n2 = str_size(ex, st, p), str_size(ex, st, q)
    ex.wr(st, p, 8, b2)
    ex.wr(st, p.add(8), 8, n2)
    ex.wr(st, q, 8, b1)
    ex.wr(st, q.add(8), 8, n1)
    st.owner[b2.rid] = (p.rid, add64(p.off, 8))
    st.owner[b1.rid] = (q.rid, add64(q.off, 8))
    return None


@rex(r'^%s::operator std::basic_string_view<' % re.escape(STR))
def _ssv(ex, st, a, ins, d):
    return (str_size(ex, st, a[0]), str_buf(ex, st, a[0]))


@rex(r'^%s::substr\(' % re.escape(STR))
def _ssub(ex, st, a, ins, d):
    from .exec import Fork, Throw
    out, p, pos, cnt = a
    n = str_size(ex, st, p)

    def ok(s):
        b = str_buf(ex, s, p)
        rem = sub64(n, pos)
        k = simp(z3.If(z3.ULT(bv(rem, 64), bv(cnt, 64)), bv(rem, 64), bv(cnt, 64)))
        str_init(ex, s, out)
        str_set(ex, s, out, b.add(pos), k)
        return None
    c = ule(pos, n)
    return Fork([(Not(c), lambda s: Throw('_ZTISt12out_of_range')), (c, ok)])


@rex(r'^%s::(front|back|cbegin|cend|rbegin|rend|max_size|starts_with|ends_with|compare|get_allocator|_M_get_allocator|find|rfind|_S_compare|_M_check|_M_limit|_S_to_string_view|_M_check_length|find_first_of|find_last_of|find_first_not_of|_S_copy_chars)(<[^(]*>)?\(' % re.escape(STR))
def _sbody(ex, st, a, ins, d):
    nm = ins.a[0]
    c = ex.val(st, nm)
    return act()('call', c.name, a)


@rex(r'^%s::_Alloc_hider' % re.escape(STR), r'^std::allocator<.*>::~?allocator\(', r'^std::__new_allocator<.*>::~?__new_allocator\(')
def _noop(ex, st, a, ins, d):
    return None


@rex(r'^%s::' % re.escape(STR))
def _sunk(ex, st, a, ins, d):
    raise Unsupported('unmodelled std::string method ' + d)


@rex(r'^std::__cxx11::basic_string<.*> std::operator\+<char')
def _splus(ex, st, a, ins, d):
    t = parse_args(d)
    out, x, y = a
    str_init(ex, st, out)
    for ty, v in zip(t, (x, y)):
        if is_str(ty):
            str_append(ex, st, out, str_buf(ex, st, v), str_size(ex, st, v))
        elif ty.startswith('char const*'):
            str_append(ex, st, out, v, c_strlen(ex, st, v))
        elif ty == 'char':
            str_put(ex, st, out, byte(v))
        else:
            raise Unsupported(d)
    return None


@rex(r'^bool std::operator(==|!=)<char')
def _seq(ex, st, a, ins, d):
    t = parse_args(d)
    neg = 'operator!=' in d
    if 'basic_string_view' in t[0] or not is_str(t[0]):
        c = ex.val(st, ins.a[0])
        return act()('call', c.name, a)
    p = a[0]
    b1, n1 = str_buf(ex, st, p), str_size(ex, st, p)
    if is_str(t[1]):
        b2, n2 = str_buf(ex, st, a[1]), str_size(ex, st, a[1])
    else:
        b2, n2 = a[1], c_strlen(ex, st, a[1])
    r = bytes_equal(ex, st, b1, n1, b2, n2)
    return simp(Not(r)) if neg else r


def bytes_equal(ex, st, b1, n1, b2, n2):
    e = eq(n1, n2)
    e = e if isc(e) else simp(e)
    if isc(e) and not e:
        return False
    if ex.same(b1.off, b2.off) and ex.content(st, b1.rid) is ex.content(st, b2.rid) and b1.rid and ex.must(st, e):
        return True
    n = n1 if isc(n1) else n2
    if isc(n) and n <= 64:
        cs = [e]
        for k in range(n):
            cs.append(eq(ex.rd(st, b1.add(k), 1), ex.rd(st, b2.add(k), 1), 8))
        r = And(*cs)
        return r if isc(r) else simp(r)
    # n symbolic: use memcmp witness guarded by equal length
    dd = ex.fresh('sdiff', 64)
    res = ex.fresh_bool('streq')
    x = bv(ex.rd(st, b1.add(dd), 1), 8)
    y = bv(ex.rd(st, b2.add(dd), 1), 8)
    st.pc.append(z3.Implies(res, boolv(e)))
    st.pc.append(z3.Implies(z3.And(z3.Not(res), boolv(e)), z3.And(z3.ULT(dd, bv(n1, 64)), x != y)))
    rec = dict(kind='streq', b1=b1, b2=b2, n=n1, res=res, c1=ex.content(st, b1.rid), c2=ex.content(st, b2.rid), d=dd)
    st.ghost['streq'] = st.ghost.get('streq', ()) + (rec,)
    return res


@rex(r'^void std::__invoke', r'^std::__is_constant_evaluated')
def _ice(ex, st, a, ins, d):
    if 'constant_evaluated' in d:
        return False
    c = ex.val(st, ins.a[0])
    return act()('call', c.name, a)


# ---------------------------------------------------------------- streams
# shadow layout: 0 len(8) | 8 base(4): 10/16/8 | 12 width(4) | 16 fill(1) | 24 buffer ptr(8)
def stream_new(ex, st, rid, nm='stream'):
    buf = ex.new_region(st, nm + '_buf', None, 'ghost')
    sh = ex.new_region(st, nm + '_sh', 32, 'ghost')
    c = Content({}, ZERO)
    for o, n, v in ((0, 8, 0), (8, 4, 10), (12, 4, 0), (16, 1, 32), (17, 1, 0), (18, 1, 0), (24, 8, Ptr(buf, 0))):
        c = ex.mem.write(c, o, n, v)
    st.mem[sh] = c
    st.ghost[('stream', rid)] = sh
    return sh


def stream_of(ex, st, p):
    sh = st.ghost.get(('stream', p.rid))
    if sh is None:
        raise Unsupported('unknown stream object (%s)' % ex.regions.get(p.rid))
    return sh


def sh_get(ex, st, sh, off, n):
    return ex.mem.read(st, st.mem[sh], off, n)


def sh_set(ex, st, sh, off, n, v):
    st.mem[sh] = ex.mem.write(st.mem[sh], off, n, v)


def stream_raw(ex, st, sh, src, n, content=None):
    """append n bytes"""
    buf = sh_get(ex, st, sh, 24, 8)
    ln = sh_get(ex, st, sh, 0, 8)
    if not (isc(ln) and isc(n)):
        st.pc.append(boolv(simp(And(ule(ln, MAXLEN), ule(n, MAXLEN)))))
    st.mem[buf.rid] = ex.mem.copy(st, st.mem[buf.rid], ln, n, content if content is not None else ex.content(st, src.rid), src.off)
    sh_set(ex, st, sh, 0, 8, add64(ln, n))


def stream_byte(ex, st, sh, c):
    buf = sh_get(ex, st, sh, 24, 8)
    ln = sh_get(ex, st, sh, 0, 8)
    if not isc(ln):
        st.pc.append(z3.ULE(ln, MAXLEN))
    st.mem[buf.rid] = ex.mem.write(st.mem[buf.rid], ln, 1, c)
    sh_set(ex, st, sh, 0, 8, add64(ln, 1))


def pad(ex, st, sh, n):
    """emit padding for an item of n characters (right adjusted); consumes the width"""
    w = sh_get(ex, st, sh, 12, 4)
    if not isc(w) or not isc(n):
        if ex.must(st, eq(w, 0, 32)):
            w = 0
        else:
            raise Unsupported('symbolic field width')
    left = sh_get(ex, st, sh, 18, 1)
    if w and isc(n) and w > n:
        if not isc(left) or left:
            raise Unsupported('left adjusted output')
        f = sh_get(ex, st, sh, 16, 1)
        for _ in range(w - n):
            stream_byte(ex, st, sh, f)
    sh_set(ex, st, sh, 12, 4, 0)


OS = r'std::(?:ostream|basic_ostream<char, std::char_traits<char>>)'
SS = r'std::__cxx11::basic_(o?stringstream)<char, std::char_traits<char>, std::allocator<char>>'


@rex(r'^%s::basic_(o?stringstream)\(' % SS)
def _ssctor(ex, st, a, ins, d):
    t = parse_args(d)
    sh = stream_new(ex, st, a[0].rid)
    if t and is_str(t[0]):
        raise Unsupported(d)
    # the base subobject offset is looked up through the vtable; make it known
    return None


@rex(r'^%s::~basic_' % SS)
def _ssdtor(ex, st, a, ins, d):
    return None


@rex(r'^%s::str\(' % SS)
def _ssstr(ex, st, a, ins, d):
    t = parse_args(d)
    if t:
        raise Unsupported(d)
    out, p = a[0], a[1]
    sh = stream_of(ex, st, p)
    buf = sh_get(ex, st, sh, 24, 8)
    n = sh_get(ex, st, sh, 0, 8)
    str_init(ex, st, out, st.mem[buf.rid], n)
    return None


@rex(r'^%s& std::operator<<<std::char_traits<char>>\(%s&, (signed |unsigned )?char\)' % (OS, OS))
def _osc(ex, st, a, ins, d):
    sh = stream_of(ex, st, a[0])
    pad(ex, st, sh, 1)
    stream_byte(ex, st, sh, byte(a[1]))
    return a[0]


@rex(r'^%s& std::operator<<<std::char_traits<char>>\(%s&, char const\*\)' % (OS, OS))
def _oss(ex, st, a, ins, d):
    sh = stream_of(ex, st, a[0])
    n = c_strlen(ex, st, a[1])
    pad(ex, st, sh, n)
    stream_raw(ex, st, sh, a[1], n)
    return a[0]


@rex(r'^%s& std::operator<<<char, std::char_traits<char>>\(%s&, std::basic_string_view<' % (OS, OS))
def _ossv(ex, st, a, ins, d):
    sh = stream_of(ex, st, a[0])
    n, p = a[1], a[2]
    pad(ex, st, sh, n)
    if p.rid:
        guard_bounds(ex, st, p, n, 'stream-source')
        stream_raw(ex, st, sh, p, n)
    else:
        ex.oblige(st, eq(n, 0), 'stream-source-null')
    return a[0]


@rex(r'^%s& std::operator<<<char, std::char_traits<char>, std::allocator<char>>\(%s&, std::__cxx11::basic_string' % (OS, OS))
def _osstr(ex, st, a, ins, d):
    sh = stream_of(ex, st, a[0])
    n, p = str_size(ex, st, a[1]), str_buf(ex, st, a[1])
    pad(ex, st, sh, n)
    stream_raw(ex, st, sh, p, n)
    return a[0]


@rex(r'^%s& std::__ostream_insert' % OS)
def _osins(ex, st, a, ins, d):
    sh = stream_of(ex, st, a[0])
    pad(ex, st, sh, a[2])
    stream_raw(ex, st, sh, a[1], a[2])
    return a[0]


@rex(r'^%s::(write|put)\(' % OS)
def _oswrite(ex, st, a, ins, d):
    sh = stream_of(ex, st, a[0])
    if '::put' in d:
        stream_byte(ex, st, sh, byte(a[1]))
    else:
        guard_bounds(ex, st, a[1], a[2], 'stream-source')
        stream_raw(ex, st, sh, a[1], a[2])
    return a[0]


@rex(r'^%s::operator<<\((std::ios_base& \(\*\)|%s& \(\*\)|std::basic_ios)' % (OS, OS))
def _osman(ex, st, a, ins, d):
    f = a[1]
    return manip(ex, st, a[0], f.name if isinstance(f, FPtr) else None)


def manip(ex, st, p, fname):
    sh = stream_of(ex, st, p)
    m = {'_ZSt3hexRSt8ios_base': 16, '_ZSt3decRSt8ios_base': 10, '_ZSt3octRSt8ios_base': 8}
    if fname in m:
        sh_set(ex, st, sh, 8, 4, m[fname])
    elif fname == '_ZSt9uppercaseRSt8ios_base':
        sh_set(ex, st, sh, 17, 1, 1)
    elif fname == '_ZSt11nouppercaseRSt8ios_base':
        sh_set(ex, st, sh, 17, 1, 0)
    elif fname == '_ZSt4leftRSt8ios_base':
        sh_set(ex, st, sh, 18, 1, 1)
    elif fname == '_ZSt5rightRSt8ios_base':
        sh_set(ex, st, sh, 18, 1, 0)
    elif fname and fname.startswith('_ZSt4endl'):
        stream_byte(ex, st, sh, 10)
    elif fname and fname.startswith('_ZSt5flush'):
        pass
    elif fname in ('_ZSt9boolalphaRSt8ios_base', '_ZSt11noboolalphaRSt8ios_base'):
        sh_set(ex, st, sh, 19, 1, 1 if 'no' not in fname else 0)
    else:
        raise Unsupported('stream manipulator %s' % fname)
    return p


@rex(r'^%s& std::operator<<<char, std::char_traits<char>>\(%s&, std::_Setw\)' % (OS, OS))
def _ossetw(ex, st, a, ins, d):
    sh_set(ex, st, stream_of(ex, st, a[0]), 12, 4, a[1])
    return a[0]


@rex(r'^%s& std::operator<<<char, std::char_traits<char>>\(%s&, std::_Setfill<char>\)' % (OS, OS))
def _ossetf(ex, st, a, ins, d):
    sh_set(ex, st, stream_of(ex, st, a[0]), 16, 1, byte(a[1]))
    return a[0]


@rex(r'^%s& std::operator<<<char, std::char_traits<char>>\(%s&, std::_Setbase\)' % (OS, OS))
def _ossetb(ex, st, a, ins, d):
    sh_set(ex, st, stream_of(ex, st, a[0]), 8, 4, a[1])
    return a[0]


def hexdigit(nib, upper=False):
    n8 = bv(nib, 8)
    return simp(z3.If(z3.ULT(n8, 10), n8 + 48, n8 + (55 if upper else 87)))


@rex(r'^%s::operator<<\((unsigned int|int|unsigned long|long|unsigned short|short|bool|unsigned long long|long long)\)' % OS)
def _osint(ex, st, a, ins, d):
    t = parse_args(d)[0]
    sh = stream_of(ex, st, a[0])
    w = ins.ops[1].ty.width
    base = sh_get(ex, st, sh, 8, 4)
    if not isc(base):
        for b in (10, 16, 8):
            if ex.must(st, eq(base, b, 32)):
                base = b
                break
        else:
            raise Unsupported('symbolic stream base')
    v = a[1]
    if w == 1:
        v = bv(v, 8) if not isc(v) else int(v)
        w = 8
    if isc(v):
        x = int(v)
        if base == 10 and not t.startswith('unsigned') and t != 'bool':
            x = sx(x, w)
        s = ('%d' % x) if base == 10 else ('%x' % x) if base == 16 else ('%o' % x)
        up = sh_get(ex, st, sh, 17, 1)
        if isc(up) and up:
            s = s.upper()
        pad(ex, st, sh, len(s))
        for ch in s:
            stream_byte(ex, st, sh, ord(ch))
        return a[0]
    wd = sh_get(ex, st, sh, 12, 4)
    if base == 16 and isc(wd) and wd and ex.must(st, z3.ULT(v, z3.BitVecVal(1 << (4 * wd), w)) if 4 * wd < w else True) and wd <= 16 \
            and not sh_get(ex, st, sh, 18, 1):
        # fits in the field: exactly wd characters, leading zeros replaced by the fill character
        up = sh_get(ex, st, sh, 17, 1)
        up = bool(up) if isc(up) else False
        fill = sh_get(ex, st, sh, 16, 1)
        for i in range(wd - 1, -1, -1):
            nib = z3.ZeroExt(4, z3.Extract(4 * i + 3, 4 * i, v)) if 4 * i < w else z3.BitVecVal(0, 8)
            c = hexdigit(nib, up)
            if i and not (isc(fill) and fill == 48):
                c = simp(z3.If(z3.LShR(v, 4 * i) == 0, bv(fill, 8), bv(c, 8))) if 4 * i < w else fill
            stream_byte(ex, st, sh, c)
        sh_set(ex, st, sh, 12, 4, 0)
        return a[0]
    if base == 16:
        from .exec import Fork
        up = sh_get(ex, st, sh, 17, 1)
        up = bool(up) if isc(up) else False
        alts = []
        for k in range(1, w // 4 + 1):
            lo = z3.BitVecVal(0 if k == 1 else 1 << (4 * (k - 1)), w)
            c = z3.UGE(v, lo)
            if 4 * k < w:
                c = z3.And(c, z3.ULT(v, z3.BitVecVal(1 << (4 * k), w)))

            def g(s, k=k):
                pad(ex, s, sh, k)
                for i in range(k - 1, -1, -1):
                    nib = z3.ZeroExt(4, z3.Extract(4 * i + 3, 4 * i, v))
                    stream_byte(ex, s, sh, hexdigit(nib, up))
                return a[0]
            alts.append((c, g))
        return Fork(alts)
    if base == 10:
        # a decimal numeral of an arbitrary number: opaque token, a function of the value only
        from .exec import Fork
        f = ex.dec_fn(w)
        tok = f(v)
        raise Unsupported('decimal output of a symbolic number')
    raise Unsupported('stream output')


@rex(r'^std::basic_ios<char, std::char_traits<char>>::(fill|width|flags|good|fail|clear|setstate)', r'^std::ios_base::')
def _ios(ex, st, a, ins, d):
    raise Unsupported('ios state ' + d)


# logging: messages are discarded (the log text is not part of any property here)
@rex(r'^google::LogMessage(Fatal)?::(LogMessage|LogMessageFatal)\(')
def _glog(ex, st, a, ins, d):
    rid = a[0].rid
    stream_new(ex, st, rid, 'log')
    st.ghost[('logsev', rid)] = d
    return None


@rex(r'^google::LogMessage(Fatal)?::~')
def _glogd(ex, st, a, ins, d):
    return None


@rex(r'^google::LogMessage(Fatal)?::stream\(')
def _glogs(ex, st, a, ins, d):
    return a[0]
