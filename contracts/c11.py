"""C11: comparing, hashing and partitioning records"""
from irvc.harness import *
from irvc.spec import *

UNITS = ['src/jogasaki/executor/compare_info.cpp', 'src/jogasaki/executor/partitioner.cpp', 'src/jogasaki/accessor/const_record_ref.cpp', 'src/jogasaki/meta/record_meta.cpp',
         'src/jogasaki/accessor/text.cpp']
NATIVE = {'driver': 'c11.cpp', 'units': UNITS + ['src/jogasaki/meta/impl/record_layout_creator.cpp', 'src/jogasaki/accessor/record_ref.cpp', 'src/jogasaki/meta/character_field_option.cpp', 'src/jogasaki/meta/octet_field_option.cpp',
                                                 'src/jogasaki/meta/decimal_field_option.cpp', 'src/jogasaki/meta/time_of_day_field_option.cpp', 'src/jogasaki/meta/time_point_field_option.cpp'], 'shims': True}
CLIENT = ('compare.cpp', open(os.path.join(VERIF, 'contracts/clients/stubs.inc')).read() + open(os.path.join(VERIF, 'contracts/clients/compare.cpp')).read())
ASSUMPTIONS = ['record metadata satisfies its layout contract (values aligned and inside the record; established by C12)', 'text / binary comparison: C05',
               'comparison of decimals by value is the decimal library\'s', 'std::hash of dates and times is a function of the value', 'std::_Hash_bytes is a function of the bytes']
KINDS = dict(boolean=1, int1=2, int2=3, int4=4, int8=5, float4=6, float8=7, decimal=8, character=9, octet=10, date=12, time_of_day=13, time_point=14, blob=15, clob=16, unknown=20, pointer=27)
BOOL = z3.BoolSort()
F = z3.Function


def total(x):
    """order key of a float: numeric order, -0 = +0, NaN greatest"""
    w = x.size()
    mant = 23 if w == 32 else 52
    sign = z3.BitVecVal(1 << (w - 1), w)
    mag = x & ~sign
    inf = z3.BitVecVal(((1 << (w - 1 - mant)) - 1) << mant, w)
    k = z3.If(z3.Extract(w - 1, w - 1, x) == 1, -mag, mag)
    return z3.If(z3.UGT(mag, inf), inf + 1, k)      # compared as signed


class Uf:
    """uninterpreted orders of the value classes whose comparison is established elsewhere"""

    def __init__(self, sizes):
        self.t = F('TEXT_LT', z3.BitVecSort(128), z3.BitVecSort(128), BOOL)
        self.b = F('BINARY_LT', z3.BitVecSort(128), z3.BitVecSort(128), BOOL)
        self.d = F('DECIMAL_LT', z3.BitVecSort(192), z3.BitVecSort(192), BOOL)
        self.sizes = sizes
        self.th = F('TEXT_HASH', z3.BitVecSort(128), BV64)
        self.bh = F('BINARY_HASH', z3.BitVecSort(128), BV64)
        self.dh = F('DECIMAL_HASH', z3.BitVecSort(192), BV64)
        self.tph = F('TIME_POINT_HASH', z3.BitVecSort(128), BV64)
        self.h64 = [F('DATE_HASH', BV64, BV64), F('TIME_OF_DAY_HASH', BV64, BV64)]
        self.bytes = {4: F('HASH_4_BYTES', z3.BitVecSort(32), BV64), 8: F('HASH_8_BYTES', BV64, BV64)}

    def value(self, kind, by, off):
        """the value of a field: its representation; of a large object: its provider and its identifier"""
        if kind in ('blob', 'clob'):
            return self.sizes['lob_provider'](by, off), self.sizes['lob_id'](by, off)
        return at(by, off, self.sizes[kind][0])

    def lt(self, kind, x, y):
        if kind in ('float4', 'float8'):
            return total(x) < total(y)
        if kind == 'character':
            return self.t(x, y)
        if kind == 'octet':
            return self.b(x, y)
        if kind == 'decimal':
            return self.d(x, y)
        if kind in ('blob', 'clob'):
            return z3.Or(z3.ULT(x[0], y[0]), z3.And(x[0] == y[0], z3.ULT(x[1], y[1])))
        if kind == 'time_of_day':
            return z3.ULT(x, y)
        if kind == 'time_point':
            s = lambda v: z3.Extract(63, 0, v)
            n = lambda v: z3.Extract(127, 64, v)
            return z3.Or(s(x) < s(y), z3.And(s(x) == s(y), n(x) < n(y)))
        return x < y

    def cmp(self, kind, x, y):
        return z3.If(self.lt(kind, x, y), z3.BitVecVal(-1, 8), z3.If(self.lt(kind, y, x), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))


def at(by, off, n):
    """n bytes at off as one little endian value"""
    parts, i = [], 0
    while i < n:
        m = max(x for x in by if x <= n - i)
        parts.append(by[m](off + i))
        i += m
    return z3.simplify(z3.Concat(*reversed(parts)) if len(parts) > 1 else parts[0])


def read_value(ex, st, p, n):
    x = ex.mem.read(st, ex.content(st, p.rid), p.off, n)
    x = bv(x.off if isinstance(x, Ptr) and x.rid == 0 else x, 8 * n)    # an integer loaded as a pointer
    return z3.simplify(x if z3.is_expr(x) else z3.BitVecVal(x, 8 * n))


class Meta:
    """the contract of record_meta's public interface: any number of fields of any kinds, any layout that keeps values inside the record"""

    def __init__(self, ex, st, tag, n, K, sizes, allowed):
        self.tag, self.n, self.K, self.sizes, self.allowed = tag, n, K, sizes, allowed
        self.nul = F('NULLABLE_' + tag, BV64, BOOL)
        self.vo = F('VALUE_OFFSET_' + tag, BV64, BV64)
        self.no = F('NULLITY_OFFSET_' + tag, BV64, BV64)
        self.rec = z3.BitVec('record_size_' + tag, 64)
        self.rid = ex.new_region(st, 'meta_' + tag, 4096, 'heap', 8)
        self.fields = ex.new_region(st, 'fields_' + tag, n, 'heap', 1)
        self.facts = [self.layout]
        st.pc += [z3.ULE(n, 1 << 20), z3.ULE(self.rec, 1 << 40), z3.UGE(self.rec, 1)]

    def layout(self, i):
        """assumed about field i: its value and its null bit are inside the record"""
        size = c64(0)
        for k, c in KINDS.items():
            size = z3.If(self.K(i) == c, c64(self.sizes[k][0]), size)
        return z3.And(z3.ULE(self.vo(i), self.rec), z3.ULE(size, self.rec - self.vo(i)))

    def inst(self, i):
        """cheap facts about field i"""
        return [z3.Implies(z3.ULT(i, self.n), z3.And(z3.Or(*[self.K(i) == KINDS[k] for k in self.allowed]), z3.Implies(self.nul(i), z3.ULT(z3.LShR(self.no(i), 3), self.rec))))]


def learn(st, attr, new):
    have = getattr(st, attr)
    new = [x for x in new if not any(x.eq(y) for y in have)]
    if new:
        setattr(st, attr, type(have)(list(have) + new))


def meta_contracts(ex, metas):
    by = {m.rid: m for m in metas}

    def who(ex, st, p):
        if not isinstance(p, Ptr) or p.rid not in by:
            raise Unsupported('record_meta of unknown origin')
        return by[p.rid]

    def index(f, ret):
        def h(ex, st, a, ins, d):
            m = who(ex, st, a[0])
            i = bv(a[1], 64)
            ex.oblige(st, z3.ULT(i, m.n), 'pre', 'field index')
            learn(st, 'pc', m.inst(i))
            for f in m.facts:
                learn(st, 'facts', [z3.Implies(z3.ULT(i, m.n), f(i))])
            return ret(m, i)
        return h
    J = 'jogasaki::meta::record_meta::'
    b1 = lambda c: c
    table = {
        'at(unsigned long) const': index('at', lambda m, i: Ptr(m.fields, i)),
        'operator[](unsigned long) const': index('[]', lambda m, i: Ptr(m.fields, i)),
        'value_offset(unsigned long) const': index('vo', lambda m, i: m.vo(i)),
        'nullity_offset(unsigned long) const': index('no', lambda m, i: m.no(i)),
        'nullable(unsigned long) const': index('nul', lambda m, i: b1(m.nul(i))),
        'field_count() const': lambda ex, st, a, ins, d: who(ex, st, a[0]).n,
        'record_size() const': lambda ex, st, a, ins, d: who(ex, st, a[0]).rec,
    }
    fl = {m.fields: m for m in metas}

    def kind(ex, st, a, ins, d):
        if a[0].rid not in fl:
            raise Unsupported('field_type of unknown origin')
        return fl[a[0].rid].K(bv(a[0].off, 64))
    for mod in ex.modules:
        for nm in list(mod.functions):
            d = ex.demangle(nm)
            if d.startswith(J) and d[len(J):] in table:
                ex.contracts[nm] = table[d[len(J):]]
            elif d == 'jogasaki::meta::field_type::kind() const':
                ex.contracts[nm] = kind


def on(ex, pat, h):
    for m in ex.modules:
        for n in list(m.functions):
            if re.match(pat, ex.demangle(n)):
                ex.contracts[n] = h


def value_contracts(ex, uf, sizes):
    """text, binary, decimal and large object operations used by less / hash"""
    b1 = lambda c: c
    ops = {'<': lambda l, x, y: l(x, y), '>': lambda l, x, y: l(y, x), '<=': lambda l, x, y: z3.Not(l(y, x)), '>=': lambda l, x, y: z3.Not(l(x, y)),
           '==': lambda l, x, y: z3.And(z3.Not(l(x, y)), z3.Not(l(y, x))), '!=': lambda l, x, y: z3.Or(l(x, y), l(y, x))}
    for cls, l in (('text', uf.t), ('binary', uf.b)):
        for op, f in ops.items():
            on(ex, r'^jogasaki::accessor::operator%s\(jogasaki::accessor::%s const&' % (re.escape(op), cls),
               lambda ex, st, a, ins, d, f=f, l=l: b1(f(l, read_value(ex, st, a[0], 16), read_value(ex, st, a[1], 16))))
        on(ex, r'^jogasaki::accessor::compare\(jogasaki::accessor::%s const&' % cls,
           lambda ex, st, a, ins, d, l=l: z3.If(l(read_value(ex, st, a[0], 16), read_value(ex, st, a[1], 16)), z3.BitVecVal(-1, 32),
                                                z3.If(l(read_value(ex, st, a[1], 16), read_value(ex, st, a[0], 16)), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))))

    def make(ex, st, a, ins, d):
        ex.wr(st, a[0], 24, read_value(ex, st, a[1], 24))
    on(ex, r'^decimal::Decimal::Decimal\(takatori', make)
    for op, f in ops.items():
        on(ex, r'^decimal::Decimal::operator%s\(' % re.escape(op), lambda ex, st, a, ins, d, f=f: b1(f(uf.d, read_value(ex, st, a[0], 24), read_value(ex, st, a[1], 24))))
    on(ex, r'^std::hash<jogasaki::accessor::text>::operator\(\)', lambda ex, st, a, ins, d: uf.th(read_value(ex, st, a[1], 16)))
    on(ex, r'^std::hash<jogasaki::accessor::binary>::operator\(\)', lambda ex, st, a, ins, d: uf.bh(read_value(ex, st, a[1], 16)))


def value_sizes(v, mods):
    ex = v.executor(mods)
    g = {}

    def setup(ex, st):
        g['o'] = ex.new_region(st, 'o', 512, 'heap', 8)
        return [Ptr(g['o'], 0)]

    def post(ex, st, out):
        g['sizes'] = {k: tuple(z3.simplify(bv(ex.rd(st, Ptr(g['o'], 16 * c + 8 * j), 8), 64)).as_long() for j in (0, 1)) for k, c in KINDS.items()}
    v.prove('runtime sizes of the field kinds', ex, '^value_sizes$', setup, post)
    for part in ('lob_id', 'lob_provider'):
        ex = v.executor(mods)

        def setup2(ex, st):
            p, g['by'] = record(ex, st, 'lob', g['sizes']['blob'][0])
            return [p]

        def post2(ex, st, out):
            t = z3.simplify(bv(out[1], 64))
            x = t
            while x.num_args() == 1 or z3.is_app_of(x, z3.Z3_OP_CONCAT):
                if any(x.decl().eq(f) for f in g['by'].values()):
                    break
                x = x.arg(x.num_args() - 1)
            n = [k for k, f in g['by'].items() if x.decl().eq(f)]
            ex.oblige(st, len(n) == 1 and z3.is_bv_value(x.arg(0)), 'post', 'a part of a large object reference is a member')
            g['sizes'][part] = lambda by, off, n=n[0], t=t, x=x: z3.simplify(z3.substitute(t, (x, by[n](off + x.arg(0)))))
        v.prove('parts of a large object reference: ' + part, ex, '^%s$' % part, setup2, post2)
    return g['sizes']


def record(ex, st, nm, size):
    by = {n: z3.Function('RECORD_%s_%d' % (nm, n), BV64, z3.BitVecSort(8 * n)) for n in (1, 2, 4, 8)}
    rid = ex.new_region(st, nm, size, 'heap', 16, Content({}, Node('words', aux=by)), ro=True)
    return Ptr(rid, 0), by


def null_bit(m, by, i):
    o = m.no(i)
    return z3.And(m.nul(i), z3.Extract(0, 0, z3.LShR(by[1](z3.LShR(o, 3)), z3.Extract(7, 0, o & 7))) == 1)


COMPARED = [k for k in KINDS if k != 'unknown']


def lazily(ex, metas, K):
    """the facts about a field are available to every obligation; a path learns them for the kind of field it has branched to"""
    def refine(ex, st, c):
        for i, kind in kinds_in(c, K):
            for m in metas:
                for f in m.facts:
                    learn(st, 'pc', [z3.Implies(z3.ULT(i, m.n), z3.simplify(z3.substitute(f(i), (K(i), c64(kind)))))])
    ex.refine = refine


def kinds_in(c, K):
    """K(i) == constant"""
    if z3.is_eq(c) and c.num_args() == 2:
        for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
            if z3.is_app(x) and x.decl().eq(K) and z3.is_bv_value(y):
                return [(x.arg(0), y.as_long())]
    return []


def compare(v, mods, sizes, uf, equal):
    """equal: every field equal -> 0; otherwise: the sign of the first differing field k"""
    ex = v.executor(mods, unroll_sym=1, unroll_symbacks=1)
    g = {}
    n, k = z3.BitVec('fields', 64), z3.BitVec('k', 64)
    K = F('KIND', BV64, BV64)
    desc = F('DESCENDING', BV64, BOOL)
    neg = z3.Bool('first_difference_is_less')

    def setup(ex, st):
        L, R = Meta(ex, st, 'l', n, K, sizes, COMPARED), Meta(ex, st, 'r', n, K, sizes, COMPARED)
        meta_contracts(ex, [L, R])
        value_contracts(ex, uf, sizes)
        info = ex.new_region(st, 'compare_info', 64, 'heap', 8)
        on(ex, r'^jogasaki::executor::compare_info::left\(\) const', lambda ex, st, a, ins, d: Ptr(L.rid, 0))
        on(ex, r'^jogasaki::executor::compare_info::right\(\) const', lambda ex, st, a, ins, d: Ptr(R.rid, 0))

        def opp(ex, st, a, ins, d):
            i = bv(a[1], 64)
            ex.oblige(st, z3.ULT(i, n), 'pre', 'field index')
            return desc(i)
        on(ex, r'^jogasaki::executor::compare_info::opposite\(unsigned long\) const', opp)
        a, A = record(ex, st, 'a', L.rec)
        b, B = record(ex, st, 'b', R.rec)

        def cmp(i):
            r = z3.BitVecVal(0, 8)
            for kind in COMPARED:
                if kind == 'pointer':
                    continue
                r = z3.If(K(i) == KINDS[kind], uf.cmp(kind, uf.value(kind, A, L.vo(i)), uf.value(kind, B, R.vo(i))), r)
            na, nb = null_bit(L, A, i), null_bit(R, B, i)
            r = z3.If(na, z3.If(nb, z3.BitVecVal(0, 8), z3.BitVecVal(-1, 8)), z3.If(nb, z3.BitVecVal(1, 8), r))
            r = z3.If(desc(i), -r, r)
            return z3.If(K(i) == KINDS['pointer'], z3.BitVecVal(0, 8), r)
        def fact(i):
            lob = z3.Or(K(i) == KINDS['blob'], K(i) == KINDS['clob'])
            valid = z3.Implies(lob, z3.And(z3.ULT(uf.value('blob', A, L.vo(i))[0], 256), z3.ULT(uf.value('blob', B, R.vo(i))[0], 256)))
            return z3.And(valid, cmp(i) == 0) if equal else z3.And(valid, z3.Implies(z3.ULT(i, k), cmp(i) == 0), z3.Implies(i == k, z3.And(cmp(i) != 0, neg == (cmp(i) < 0))))
        L.facts.append(fact)
        lazily(ex, [L, R], K)
        if not equal:
            st.pc += [z3.ULT(k, n)]
        g.update(cmp=cmp)
        return [Ptr(info, 0), a, L.rec, b, R.rec]
    ex.loop_terms = lambda ex, st: [('k', k), ('n', n)]

    def cands(ex, st0, h, vs, hv):
        out = []
        for y in [x for x in vs if x.kind == 'int' and x.width == 32]:
            for i in [x for x in vs if x.kind == 'int' and x.width == 64]:
                def val(s, y=y, i=i):
                    return bv(y.get(s), 32), bv(i.get(s), 64)
                out.append(Cand('%s==0 => %s<=k' % (y, i), lambda s, val=val: z3.Implies(val(s)[0] == 0, z3.ULE(val(s)[1], k))))
                out.append(Cand('%s!=0 => %s==k+1' % (y, i), lambda s, val=val: z3.Implies(val(s)[0] != 0, val(s)[1] == k + 1)))
            out.append(Cand('%s!=0 => decided by field k' % y, lambda s, y=y: z3.Implies(bv(y.get(s), 32) != 0, (bv(y.get(s), 32) < 0) == neg)))
        return out
    if not equal:
        ex.loop_cands = cands

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', 'compare returns')
            return
        r = bv(out[1], 32)
        if equal:
            ex.oblige(st, r == 0, 'post', 'records whose fields are all equal compare as equal')
        else:
            ex.oblige(st, z3.If(neg, r < 0, r > 0), 'post', 'the first differing field decides, in its order, nulls first')
    v.prove('compare records: ' + ('all fields equal' if equal else 'the first difference decides'), ex, '^cmp_records$', setup, post)


HASHED = [k for k in KINDS]
PRIME = 18446744073709551557


def hash_contracts(ex, uf):
    """hash functions of the libraries: functions of the value (of the bytes for floating point numbers)"""
    on(ex, r'^std::hash<jogasaki::accessor::text>::operator\(\)', lambda ex, st, a, ins, d: uf.th(read_value(ex, st, a[1], 16)))
    on(ex, r'^std::hash<jogasaki::accessor::binary>::operator\(\)', lambda ex, st, a, ins, d: uf.bh(read_value(ex, st, a[1], 16)))
    for cls, f in (('decimal::triple', uf.dh), ('datetime::date', uf.h64[0]), ('datetime::time_of_day', uf.h64[1]), ('datetime::time_point', uf.tph)):
        n = f.domain(0).size() // 8
        on(ex, r'^std::hash<takatori::%s>::operator\(\)' % cls, lambda ex, st, a, ins, d, f=f, n=n: f(read_value(ex, st, a[1], n)))

    def bytes_hash(ex, st, a, ins, d):
        n = a[1]
        if not isc(n) or n not in (4, 8):
            raise Unsupported('hash of bytes')
        ex.oblige(st, bv(a[2], 64) == 0xc70f6907, 'pre', 'the seed of every hash is the same')
        return uf.bytes[n](read_value(ex, st, a[0], n))
    for m in ex.modules:
        for nm in list(m.functions) + list(getattr(m, 'declarations', [])):
            if ex.demangle(nm).startswith('std::_Hash_bytes'):
                ex.contracts[nm] = bytes_hash
    ex.contracts['_ZSt11_Hash_bytesPKvmm'] = bytes_hash


def field_hash(uf, m, K, by, i):
    """hash of field i"""
    none = z3.BitVecVal((1 << 64) - 1, 64)
    r = none
    for kind in KINDS:
        if kind in ('blob', 'clob', 'unknown', 'pointer'):
            continue
        x = uf.value(kind, by, m.vo(i))
        if kind in ('float4', 'float8'):
            w = x.size()
            nan = z3.BitVecVal(0x7fc00000 if w == 32 else 0x7ff8 << 48, w)
            t = total(x)
            h = z3.If(t == 0, c64(0), uf.bytes[w // 8](z3.If(t == total(nan), nan, x)))
        elif kind == 'character':
            h = uf.th(x)
        elif kind == 'octet':
            h = uf.bh(x)
        elif kind == 'decimal':
            h = uf.dh(x)
        elif kind == 'date':
            h = uf.h64[0](x)
        elif kind == 'time_of_day':
            h = uf.h64[1](x)
        elif kind == 'time_point':
            h = uf.tph(x)
        else:
            h = x if x.size() == 64 else z3.SignExt(64 - x.size(), x)
        r = z3.If(K(i) == KINDS[kind], h, r)
    return z3.If(null_bit(m, by, i), none, r)


def hashing(v, mods, sizes, uf, parts):
    """hash = the fold of the hashes of the fields; partition = hash modulo the number of partitions"""
    ex = v.executor(mods, unroll_sym=1, unroll_symbacks=1)
    n = z3.BitVec('fields', 64)
    K = F('KIND', BV64, BV64)
    H, G = F('FIELD_HASH', BV64, BV64), F('FOLD', BV64, BV64)
    P = z3.BitVec('partitions', 64)
    c = {}

    def setup(ex, st):
        M = Meta(ex, st, 'm', n, K, sizes, HASHED)
        meta_contracts(ex, [M])
        hash_contracts(ex, uf)
        a, A = record(ex, st, 'a', M.rec)
        M.facts.append(lambda i: H(i) == field_hash(uf, M, K, A, i))
        lazily(ex, [M], K)
        st.pc.append(G(0) == 0)
        if parts:
            st.pc.append(P != 0)
            return [Ptr(M.rid, 0), P, a, M.rec]
        return [Ptr(M.rid, 0), a, M.rec]

    def cands(ex, st0, h, vs, hv):
        out = []
        iv = [x for x in vs if x.kind == 'int' and x.width == 64]
        for i in iv:
            for x in iv:
                if i is not x:
                    out.append(Cand('%s is the fold of the first %s' % (x, i), lambda s, x=x, i=i: bv(x.get(s), 64) == G(bv(i.get(s), 64))))
        return out

    def axioms(ex, h, vs):
        for x in vs:
            if x.kind == 'int' and x.width == 64:
                i = bv(x.get(h), 64)
                h.facts += (G(i + 1) == G(i) * PRIME + H(i),)
    ex.loop_cands, ex.loop_axioms = cands, axioms

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', 'hash returns')
            return
        r = bv(out[1], 64)
        if parts and r.num_args() == 2 and z3.is_app(r) and r.arg(0).sort() == BV64 and 'urem' in r.decl().name():
            ex.oblige(st, z3.And(r.arg(0) == G(n), r.arg(1) == P), 'post', 'the partition is the hash modulo the number of partitions')
            return
        ex.oblige(st, r == (z3.URem(G(n), P) if parts else G(n)), 'post', 'the partition is the hash modulo the number of partitions' if parts else 'the hash is the fold of the hashes of the fields')
    v.prove('partition of a record' if parts else 'hash of a record', ex, '^partition_record$' if parts else '^hash_record$', setup, post)


def value_jobs(v, mods):
    """comparison of single values: a total order per kind (integers of the code's type / chronological), equality iff neither is less"""
    def signed(x):
        return x
    table = [('f4', 32, None), ('f8', 64, None), ('i1', 8, True), ('i4', 32, True), ('i8', 64, True), ('date', 64, True), ('tod', 64, False)]

    def job(name, w, sign, what):
        ex = v.executor(mods)
        x, y = z3.BitVec('x', w), z3.BitVec('y', w)
        kx, ky = (total(x), total(y)) if sign is None else (x, y)
        lt = (lambda p, q: z3.ULT(p, q)) if sign is False else (lambda p, q: p < q)

        def setup(ex, st):
            if name == 'tod':
                st.pc += [z3.ULT(x, 86400 * 10 ** 9), z3.ULT(y, 86400 * 10 ** 9)]
            return [x, y]

        def post(ex, st, out):
            if out[0] != 'ret':
                ex.oblige(st, False, 'post', 'returns')
            elif what == 'eq':
                ex.oblige(st, boolv(out[1] if z3.is_expr(out[1]) and z3.is_bool(out[1]) else bv(out[1], 1) == 1 if not isinstance(out[1], bool) else out[1]) == (kx == ky), 'post', 'equality is equality of the values')
            else:
                r = bv(out[1], 32)
                ex.oblige(st, r == z3.If(lt(kx, ky), z3.BitVecVal(-1, 32), z3.If(lt(ky, kx), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))), 'post', 'the order of the values')
        v.prove('%s of values: %s' % ('equality' if what == 'eq' else 'order', name), ex, '^%s_%s$' % (what, name), setup, post)

    def points(what):
        ex = v.executor(mods)
        x, xn, y, yn = z3.BitVecs('x xn y yn', 64)

        def setup(ex, st):
            st.pc += [z3.ULT(xn, 10 ** 9), z3.ULT(yn, 10 ** 9)]
            return [x, xn, y, yn]

        def post(ex, st, out):
            less = lambda a, an, b, bn: z3.Or(a < b, z3.And(a == b, an < bn))
            if out[0] != 'ret':
                ex.oblige(st, False, 'post', 'returns')
            elif what == 'eq':
                r = out[1]
                ex.oblige(st, boolv(r) == z3.And(x == y, xn == yn), 'post', 'equality is equality of the values')
            else:
                ex.oblige(st, bv(out[1], 32) == z3.If(less(x, xn, y, yn), z3.BitVecVal(-1, 32), z3.If(less(y, yn, x, xn), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))), 'post', 'the order of the values')
        v.prove('%s of values: time point' % ('equality' if what == 'eq' else 'order'), ex, '^%s_tp$' % what, setup, post)
    jobs = [lambda t=t, w=w: job(*t, w) for t in table for w in ('eq', 'cmp')]
    return jobs + [lambda: points('eq'), lambda: points('cmp')]


def text_hash(v, mods, cls, short):
    """the hash of a text / binary value is the hash of its bytes, whatever its representation"""
    from contracts import c05
    ex = v.executor(mods)
    g, calls = {}, []
    j = z3.BitVec('j', 64)

    def setup(ex, st):
        p, g['n'], g['B'], _ = c05.value_obj(ex, st, 'a', short)

        def h(ex, st, a, ins, d):
            ex.oblige(st, bv(a[2], 64) == 0xc70f6907, 'pre', 'the seed of every hash is the same')
            ex.oblige(st, bv(a[1], 64) == g['n'], 'pre', 'every byte is hashed')
            st.pc.append(z3.Implies(g['n'] != 0, z3.ULT(j, g['n'])))
            ex.oblige(st, z3.Implies(g['n'] != 0, bv(ex.mem.read(st, ex.content(st, a[0].rid), add64(a[0].off, j), 1), 8) == g['B'](j)), 'pre', 'the bytes of the value are hashed')
            st.ghost['hashed'] = True
            return z3.BitVec('bytes_hash', 64)
        ex.contracts['_ZSt11_Hash_bytesPKvmm'] = h
        return [p]

    def post(ex, st, out):
        ex.oblige(st, out[0] == 'ret' and st.ghost.get('hashed', False), 'post', 'returns a hash of the bytes')
        ex.oblige(st, bv(out[1], 64) == z3.BitVec('bytes_hash', 64), 'post', 'the hash of the bytes')
    v.prove('hash of a %s value (%s)' % (cls, 'short' if short else 'long'), ex, '^hash_%s$' % cls, setup, post)


def lemmas(v, uf):
    for kind in KINDS:
        if kind in ('blob', 'clob', 'unknown', 'pointer', 'decimal', 'character', 'octet'):
            continue
        w = 8 * uf.sizes[kind][0]
        x, y = z3.BitVecs('x y', w)
        n = [F('N', BV64, BOOL)]

        def h(x):
            class M:
                vo = staticmethod(lambda i: i)
                no = staticmethod(lambda i: i)
                nul = staticmethod(lambda i: z3.BoolVal(False))
            by = {x.size() // 8: lambda o, x=x: x} if w <= 64 else {8: lambda o, x=x: z3.If(o == 0, z3.Extract(63, 0, x), z3.Extract(127, 64, x))}
            by[1] = by.get(1, lambda o: z3.BitVecVal(0, 8))
            kk = lambda i: c64(KINDS[kind])
            one = Uf(uf.sizes)
            one.value = lambda k, b, off: at(b, off, uf.sizes[k][0]) if k == kind else z3.BitVecVal(0, 8 * uf.sizes[k][0])
            return field_hash(one, M, kk, by, c64(0))
        v.lemma('values that compare equal hash equal: ' + kind, h(x) == h(y), [uf.cmp(kind, x, y) == 0])
    x, y, z = z3.BitVecs('x y z', 64)
    lt = lambda a, b: total(a) < total(b)
    v.lemma('floating point order is a strict weak order', z3.And(z3.Not(lt(x, x)), z3.Implies(z3.And(lt(x, y), lt(y, z)), lt(x, z)),
                                                                  z3.Implies(z3.And(z3.Not(lt(x, y)), z3.Not(lt(y, z))), z3.Not(lt(x, z)))))
    v.lemma('a partition is below the number of partitions', z3.ULT(z3.URem(x, y), y), [y != 0])


def same_types(ex):
    on(ex, r'^jogasaki::meta::operator==\(jogasaki::meta::field_type const&', lambda ex, st, a, ins, d: True)
    on(ex, r'^jogasaki::meta::operator!=\(jogasaki::meta::field_type const&', lambda ex, st, a, ins, d: False)


def opposite(v, mods, sizes, empty):
    """a field is compared in the opposite order iff its ordering is descending"""
    ex = v.executor(mods, unroll_sym=1, unroll_symbacks=1)
    n, i = z3.BitVecs('fields i', 64)
    K = F('KIND', BV64, BV64)
    O = F('ORDER', BV64, BV64)

    def setup(ex, st):
        M = Meta(ex, st, 'm', n, K, sizes, list(KINDS))
        meta_contracts(ex, [M])
        same_types(ex)
        st.pc.append(z3.ULT(i, n))
        if empty:
            rid = ex.new_region(st, 'orders', 8, 'heap', 8, ro=True)
            return [Ptr(M.rid, 0), Ptr(rid, 0), 0, i]
        rid = ex.new_region(st, 'orders', n * 8, 'heap', 8, Content({}, Node('words', aux={8: O})), ro=True)
        return [Ptr(M.rid, 0), Ptr(rid, 0), n, i]

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', 'returns')
            return
        ex.oblige(st, boolv(out[1]) == (z3.BoolVal(False) if empty else O(i * 8) == 2), 'post', 'the opposite order for descending fields only')
    v.prove('orderings of the fields' + (' (default)' if empty else ''), ex, '^opposite_at$', setup, post)


def left_right(v, mods, sizes):
    ex = v.executor(mods, unroll_sym=1, unroll_symbacks=1)
    n = z3.BitVec('fields', 64)
    K = F('KIND', BV64, BV64)

    def setup(ex, st):
        L, R = Meta(ex, st, 'l', n, K, sizes, list(KINDS)), Meta(ex, st, 'r', n, K, sizes, list(KINDS))
        meta_contracts(ex, [L, R])
        same_types(ex)
        return [Ptr(L.rid, 0), Ptr(R.rid, 0)]

    def post(ex, st, out):
        ex.oblige(st, out[0] == 'ret' and boolv(out[1]), 'post', 'left and right metadata are the ones given')
    v.prove('metadata of the records', ex, '^left_right$', setup, post)


def run(v):
    mods = v.modules(UNITS + [CLIENT], shims=True)
    sizes = value_sizes(v, mods)
    uf = Uf(sizes)
    jobs = [lambda: compare(v, mods, sizes, uf, False), lambda: compare(v, mods, sizes, uf, True),
            lambda: hashing(v, mods, sizes, uf, False), lambda: hashing(v, mods, sizes, uf, True),
            lambda: opposite(v, mods, sizes, False), lambda: opposite(v, mods, sizes, True), lambda: left_right(v, mods, sizes), lambda: lemmas(v, uf)]
    jobs += value_jobs(v, mods)
    jobs += [lambda c=c, s=s: text_hash(v, mods, c, s) for c in ('text', 'binary') for s in (True, False)]
    v.parallel(jobs)
