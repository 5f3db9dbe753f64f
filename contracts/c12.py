"""C12: evaluating one node of an SQL expression over arbitrary operand values"""
from irvc.harness import *
from irvc.spec import *
from .c11 import total, on, read_value

UNITS = ['src/jogasaki/executor/expr/evaluator.cpp', 'src/jogasaki/executor/expr/error.cpp', 'src/jogasaki/data/any.cpp', 'src/jogasaki/accessor/text.cpp',
         'src/jogasaki/accessor/const_record_ref.cpp', 'src/jogasaki/accessor/record_ref.cpp']
CLIENT = ('evaluator.cpp', open(os.path.join(VERIF, 'contracts/clients/stubs.inc')).read() + open(os.path.join(VERIF, 'contracts/clients/evaluator.cpp')).read())
NATIVE = {'driver': 'c12.cpp', 'units': UNITS + ['src/jogasaki/memory/lifo_paged_memory_resource.cpp', 'src/jogasaki/memory/details/page_allocation_info.cpp', 'src/jogasaki/utils/utf8_utils.cpp'], 'shims': 'sql', 'libs': ['-Wl,--unresolved-symbols=ignore-all', '-ltbb']}
ASSUMPTIONS = ['IEEE 754 operations and conversions of the processor are uninterpreted functions: proved is which operation is applied to which values, in which order',
               'decimal::Decimal: arithmetic, comparison and status flags are uninterpreted functions of the operands (clear_status resets the flags)',
               'order and concatenation of text and binary values: the contracts of C05',
               'conversion functions (conduct_cast, conduct_unifying_conversion): uninterpreted functions of types and value',
               'operand evaluation (takatori::scalar::dispatch): returns an arbitrary value or error; yugawara::compiled_info, variable tables: arbitrary',
               'stand-in headers in /verif/shims_sql for the expression tree and type descriptions of takatori / yugawara',
               'texts and arguments of diagnostics are not part of the property; only the recorded error kind is']
F = z3.Function
BOOL = z3.BoolSort()
BV = z3.BitVecSort
NAMES = ['error', 'bool', 'int2', 'int4', 'int8', 'float4', 'float8', 'text', 'binary', 'decimal', 'date', 'time_of_day', 'time_point', 'blob', 'clob', 'size']
BYTES = dict(error=8, bool=1, int2=2, int4=4, int8=8, float4=4, float8=8, text=16, binary=16, decimal=24, date=8, time_of_day=8, time_point=16)
UNARY = ['plus', 'sign_inversion', 'conditional_not', 'length', 'is_null', 'is_true', 'is_false', 'is_unknown']
BINARY = ['concat', 'add', 'subtract', 'multiply', 'divide', 'remainder', 'conditional_and', 'conditional_or']
COMPARE = ['equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'is_not_distinct_from', 'is_distinct_from']
ARITHMETIC_ERROR, OVERFLOW, UNSUPPORTED, INVALID_INPUT, UNDEFINED = 1, 2, 9, 10, 0
INVALID = 0x3ba | 0x800 | 0x4


def modules(v):
    return v.modules(UNITS + [CLIENT], shims='sql')


def executor(v, mods, **kw):
    kw.setdefault('fp_uf', True)
    kw.setdefault('overflow_checks', False)
    return v.executor(mods, **kw)


class Any:
    """an arbitrary any value, or one produced by the code"""

    def __init__(self, k, idx, rd):
        self.k, self.idx, self.rd = k, idx, rd

    def isk(self, *names):
        return z3.Or(*[self.idx == self.k[n] for n in names])

    def get(self, kind):
        return self.rd(BYTES[kind])

    @property
    def null(self):
        return self.idx == 0

    @property
    def error(self):
        return self.idx == self.k['error']


def new_any(ex, st, k, nm):
    cells = {8 * i: (8, z3.BitVec('%s_%d' % (nm, i), 64)) for i in range(k['sizeof'] // 8)}
    rid = ex.new_region(st, nm, k['sizeof'], 'heap', 8, Content(cells, ZERO), ro=True)
    rd = lambda o, n: z3.simplify(bv(ex.mem.read(st, ex.content(st, rid), o, n), 8 * n))
    a = Any(k, rd(48, 1), lambda n: rd(0, n))
    st.pc.append(z3.ULE(a.idx, max(k[n] for n in NAMES)))
    st.pc.append(z3.Implies(a.error, z3.ULE(a.get('error'), 12)))
    a.p = Ptr(rid, 0)
    return a


def read_any(ex, st, k, p):
    return Any(k, bv(ex.rd(st, p.add(48), 1), 8), lambda n: read_value(ex, st, p, n))


def copy_any(ex, st, dst, src, n):
    st.mem[dst.rid] = ex.mem.copy(st, ex.content(st, dst.rid), dst.off, n, ex.content(st, src.rid), src.off)


def same(a, b):
    """the same value: same kind, same representation"""
    cs = [a.idx == b.idx]
    for n, w in BYTES.items():
        cs.append(z3.Implies(a.isk(n), a.get(n) == b.get(n)))
    return z3.And(*cs)


def kinds(v, mods):
    ex = executor(v, mods)
    g = {}

    def setup(ex, st):
        g['o'] = ex.new_region(st, 'o', 128, 'heap', 8)
        return [Ptr(g['o'], 0)]

    def post(ex, st, out):
        g['k'] = {n: z3.simplify(bv(ex.rd(st, Ptr(g['o'], 8 * i), 8), 64)).as_long() for i, n in enumerate(NAMES)}
        g['k']['sizeof'] = z3.simplify(bv(out[1], 64)).as_long()
        ex.oblige(st, len(set(g['k'][n] for n in NAMES)) == len(NAMES) and 0 not in g['k'].values(), 'post', 'kinds of values are distinct')
    v.prove('kinds of values', ex, '^kinds$', setup, post)
    return g['k']


class Uf:
    def __init__(self):
        self.t = F('TEXT_LT', BV(128), BV(128), BOOL)
        self.b = F('BINARY_LT', BV(128), BV(128), BOOL)
        self.d = F('DECIMAL_LT', BV(192), BV(192), BOOL)
        self.op = {o: F('DECIMAL_' + o, BV(192), BV(192), BV(192)) for o in '+-*/%'}
        self.st = {o: F('DECIMAL_STATUS_' + o, BV(192), BV(192), BV(32)) for o in '+-*/%'}
        self.neg = F('DECIMAL_NEG', BV(192), BV(192))
        self.int = F('DECIMAL_OF_INT', BV64, BV(192))
        self.dbl = F('DECIMAL_TO_DOUBLE', BV(192), BV64)
        self.cat = F('TEXT_CONCAT', BV(128), BV(128), BV(128))


OPS = {'<': lambda l, x, y: l(x, y), '>': lambda l, x, y: l(y, x), '<=': lambda l, x, y: z3.Not(l(y, x)), '>=': lambda l, x, y: z3.Not(l(x, y)),
       '==': lambda l, x, y: z3.And(z3.Not(l(x, y)), z3.Not(l(y, x))), '!=': lambda l, x, y: z3.Or(l(x, y), l(y, x))}


def library(ex, uf):
    """assumed contracts: texts and binaries (C05, C11), the decimal library, diagnostics"""
    for cls, l in (('text', uf.t), ('binary', uf.b)):
        for op, f in OPS.items():
            on(ex, r'^jogasaki::accessor::operator%s\(jogasaki::accessor::%s const&' % (re.escape(op), cls),
               lambda ex, st, a, ins, d, f=f, l=l: f(l, read_value(ex, st, a[0], 16), read_value(ex, st, a[1], 16)))
        on(ex, r'^jogasaki::accessor::compare\(jogasaki::accessor::%s const&' % cls,
           lambda ex, st, a, ins, d, l=l: z3.If(l(read_value(ex, st, a[0], 16), read_value(ex, st, a[1], 16)), z3.BitVecVal(-1, 32),
                                                z3.If(l(read_value(ex, st, a[1], 16), read_value(ex, st, a[0], 16)), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))))

    def cat(ex, st, a, ins, d):
        word = lambda x: bv(x.off, 64) if isinstance(x, Ptr) and x.rid == 0 else bv(x, 64)
        if len(a) == 6:     # both texts in registers
            ts = [z3.Concat(word(a[3]), word(a[2])), z3.Concat(word(a[5]), word(a[4]))]
        else:
            ts = [read_value(ex, st, x, 16) for x in a[2:]]
        ex.wr(st, a[0], 16, uf.cat(*ts))
    on(ex, r'^jogasaki::accessor::text::text\(jogasaki::memory::paged_memory_resource\*, jogasaki::accessor::text, jogasaki::accessor::text\)', cat)
    dec = lambda ex, st, p: read_value(ex, st, p, 24)

    def make(ex, st, a, ins, d):
        ex.wr(st, a[0], 24, dec(ex, st, a[1]))
    on(ex, r'^decimal::Decimal::Decimal\(takatori', make)
    on(ex, r'^takatori::decimal::triple::triple\(decimal::Decimal', make)
    on(ex, r'^decimal::Decimal::Decimal\((long|int)\)', lambda ex, st, a, ins, d: ex.wr(st, a[0], 24, uf.int(bv(a[1], 64))))
    on(ex, r'^takatori::decimal::triple::operator decimal::Decimal\(', make)
    for op, f in OPS.items():
        on(ex, r'^decimal::Decimal::operator%s\(' % re.escape(op), lambda ex, st, a, ins, d, f=f: f(uf.d, dec(ex, st, a[0]), dec(ex, st, a[1])))
    for op in '+-*/%':
        def arith(ex, st, a, ins, d, op=op):
            x, y = dec(ex, st, a[1]), dec(ex, st, a[2])
            ex.wr(st, a[0], 24, uf.op[op](x, y))
            st.ghost['decimal_status'] = st.ghost.get('decimal_status', z3.BitVec('decimal_status_before', 32)) | uf.st[op](x, y)
        on(ex, r'^decimal::Decimal::operator%s\(decimal::Decimal const&\) const' % re.escape(op), arith)
    on(ex, r'^decimal::Decimal::operator-\(\) const', lambda ex, st, a, ins, d: ex.wr(st, a[0], 24, uf.neg(dec(ex, st, a[1]))))

    def clear(ex, st, a, ins, d):
        st.ghost['decimal_status'] = z3.BitVecVal(0, 32)
    on(ex, r'^decimal::Context::clear_status', clear)
    on(ex, r'^decimal::Context::status', lambda ex, st, a, ins, d: st.ghost.get('decimal_status', z3.BitVec('decimal_status_before', 32)))

    def text_of(ex, st, a, ins, d):
        n = ex.fresh('text_len', 64)
        st.pc.append(z3.ULE(n, 4096))
        from irvc.models import str_init
        buf = ex.new_region(st, 'decimal_text', None, 'heap', 1)
        str_init(ex, st, a[0], ex.content(st, buf), n)
        if len(a) > 1:
            st.ghost[('decimal_text', ex.rd(st, a[0], 8).rid)] = dec(ex, st, a[1])
    on(ex, r'^decimal::Decimal::to_eng', text_of)
    on(ex, r'^decimal::Context::repr', lambda ex, st, a, ins, d: text_of(ex, st, a[:1], ins, d))

    def stod(ex, st, a, ins, d):
        x = st.ghost.get(('decimal_text', ex.rd(st, a[0], 8).rid))
        if x is None:
            raise Unsupported('number of an unknown text')
        return uf.dbl(x)
    on(ex, r'^std::(__cxx11::)?stod\(', stod)

    # diagnostics: recorded, their text is not part of the property
    def add_error(ex, st, a, ins, d):
        st.ghost['errors'] = st.ghost.get('errors', ()) + (read_value(ex, st, a[1], 8),)
        rid = ex.new_region(st, 'diagnostic', 256, 'heap', 8)
        return Ptr(rid, 0)
    on(ex, r'^jogasaki::executor::expr::evaluator_context::add_error\(', add_error)

    def arg(ex, st, a, ins, d):
        return Ptr(ex.new_region(st, 'argument', 512, 'heap', 8), 0)
    on(ex, r'^jogasaki::executor::diagnostic_record<.*>::new_argument\(\)', arg)
    on(ex, r'^jogasaki::executor::diagnostic_argument& jogasaki::executor::operator<<', lambda ex, st, a, ins, d: a[0])


class Node_:
    """the operands of the node under proof: each is an expression whose value is arbitrary"""

    def __init__(self, ex, st, k):
        self.ex, self.k, self.values, self.exps, self.types = ex, k, {}, {}, {}
        self.ctx = Ptr(ex.new_region(st, 'ctx', 256, 'heap', 8), 0)
        self.info = Ptr(ex.new_region(st, 'info', 64, 'heap', 8), 0)
        self.vars = Ptr(ex.new_region(st, 'vars', 64, 'heap', 8), 0)
        on(ex, r'^.*takatori::scalar::dispatch<', self.dispatch)

    def operand(self, ex, st, nm):
        rid = ex.new_region(st, nm, 64, 'heap', 8)
        self.exps[nm] = Ptr(rid, 0)
        self.values[rid] = new_any(ex, st, self.k, nm + '_value')
        return self.values[rid]

    def dispatch(self, ex, st, a, ins, d):
        e = a[2]
        if not isinstance(e, Ptr) or e.rid not in self.values:
            raise Unsupported('evaluation of an expression which is no operand')
        copy_any(ex, st, a[0], self.values[e.rid].p, self.k['sizeof'])
        st.ghost['evaluated'] = st.ghost.get('evaluated', ()) + (e.rid,)

    def args(self, ex, st):
        self.out = Ptr(ex.new_region(st, 'out', self.k['sizeof'], 'heap', 8), 0)
        return [self.out, self.ctx, self.info, self.vars, Ptr(0, 0)]


NUM = ['int4', 'int8', 'float4', 'float8', 'decimal']


def common(a, b):
    """type two numeric operands are brought to"""
    if a == b:
        return a
    s = {a, b}
    if s & {'float4', 'float8'}:
        return 'float8'
    return 'decimal' if 'decimal' in s else 'int8'


def convert(x, a, t, uf, ex):
    v = x.get(a)
    if a == t:
        return v
    if t == 'int8':
        return z3.SignExt(32, v)
    if a in ('int4', 'int8'):
        w = v if a == 'int8' else z3.SignExt(32, v)
        return uf.int(w) if t == 'decimal' else ex.FPUF['si64_64'](w)
    if a == 'float4':
        return ex.FPUF['ext'](v)
    return uf.dbl(v)


def in_range(op, x, y):
    if op == 'add':
        return z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
    if op == 'subtract':
        return z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
    if op == 'multiply':
        return z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
    if op == 'divide':
        return z3.Not(z3.And(x == z3.BitVecVal(1 << (x.size() - 1), x.size()), y == -1))
    return z3.BoolVal(True)


def recorded(st, code):
    es = st.ghost.get('errors', ())
    return z3.Or(*[z3.simplify(e) == code for e in es]) if es else z3.BoolVal(False)


def arithmetic(v, mods, k, op):
    uf = Uf()
    ex = executor(v, mods)
    g = {}

    def setup(ex, st):
        library(ex, uf)
        nd = Node_(ex, st, k)
        g.update(nd=nd, l=nd.operand(ex, st, 'l'), r=nd.operand(ex, st, 'r'))
        return nd.args(ex, st) + [BINARY.index(op), nd.exps['l'], nd.exps['r']]

    def post(ex, st, out):
        ob = lambda c, t: ex.oblige(st, c, 'post', t)
        if out[0] != 'ret':
            ob(False, 'an operator returns a value or an error value')
            return
        nd, l, r = g['nd'], g['l'], g['r']
        res = read_any(ex, st, k, nd.out)
        operands(ob, l, r, res)
        ok = z3.And(z3.Not(l.error), z3.Not(r.error), z3.Not(l.null), z3.Not(r.null))
        supported = []
        for a in NUM:
            for b in NUM:
                t = common(a, b)
                c = z3.And(l.isk(a), r.isk(b))
                if t.startswith('float') and op == 'remainder':
                    continue
                supported.append(c)
                if not ex.may(st, c):
                    continue
                x, y = convert(l, a, t, uf, ex), convert(r, b, t, uf, ex)
                err = z3.And(res.error, res.get('error') == ARITHMETIC_ERROR, recorded(st, ARITHMETIC_ERROR))
                what = '%s %s %s' % (a, op, b)
                if t.startswith('int'):
                    w = x.size()
                    if op in ('divide', 'remainder'):
                        ob(z3.Implies(z3.And(c, y == 0), err), what + ': division by zero is an arithmetic error')
                        c = z3.And(c, y != 0)
                    val = {'add': lambda: x + y, 'subtract': lambda: x - y, 'multiply': lambda: x * y, 'divide': lambda: x / y, 'remainder': lambda: z3.SRem(x, y)}[op]()
                    ob(z3.Implies(z3.And(c, in_range(op, x, y)), z3.And(res.isk(t), res.get(t) == val)), what + ': exact result')
                    if op == 'divide':
                        ob(z3.Implies(z3.And(c, z3.Not(in_range(op, x, y))), err), what + ': quotient out of range is an arithmetic error')
                elif t == 'decimal':
                    s = {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'remainder': '%'}[op]
                    bad = (uf.st[s](x, y) & INVALID) != 0
                    ob(z3.Implies(z3.And(c, bad), err), what + ': failure of the decimal operation is an arithmetic error')
                    ob(z3.Implies(z3.And(c, z3.Not(bad)), z3.And(res.isk(t), res.get(t) == uf.op[s](x, y))), what + ': decimal result')
                else:
                    f = ex.FPUF['%s_%d' % ({'add': 'fadd', 'subtract': 'fsub', 'multiply': 'fmul', 'divide': 'fdiv'}[op], x.size())]
                    if op == 'divide':
                        zero = (y & ~z3.BitVecVal(1 << (y.size() - 1), y.size())) == 0
                        ob(z3.Implies(z3.And(c, zero), err), what + ': division by zero is an arithmetic error')
                        c = z3.And(c, z3.Not(zero))
                    ob(z3.Implies(c, z3.And(res.isk(t), res.get(t) == f(x, y))), what + ': IEEE 754 result')
        ob(z3.Implies(z3.And(ok, z3.Not(z3.Or(*supported))), z3.And(res.error, z3.Or(res.get('error') == UNSUPPORTED))), 'operands of other types are rejected')
    v.prove('binary ' + op, ex, '^ev_binary$', setup, post)


def operands(ob, l, r, res):
    ob(z3.Implies(l.error, same(res, l)), 'an error of the left operand is the result')
    ob(z3.Implies(z3.And(z3.Not(l.error), r.error), same(res, r)), 'an error of the right operand is the result')
    ob(z3.Implies(z3.And(z3.Not(l.error), z3.Not(r.error), z3.Or(l.null, r.null)), res.null), 'NULL operands give NULL')


def truth(a):
    """(is true, is false) of a boolean operand"""
    t = a.get('bool') != 0
    return z3.And(a.isk('bool'), t), z3.And(a.isk('bool'), z3.Not(t))


def is_bool(res, c):
    return z3.And(res.isk('bool'), res.get('bool') == z3.If(c, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))


def logic(v, mods, k, op):
    uf = Uf()
    ex = executor(v, mods)
    g = {}

    def setup(ex, st):
        library(ex, uf)
        nd = Node_(ex, st, k)
        g.update(nd=nd, l=nd.operand(ex, st, 'l'), r=nd.operand(ex, st, 'r'))
        return nd.args(ex, st) + [BINARY.index(op), nd.exps['l'], nd.exps['r']]

    def post(ex, st, out):
        ob = lambda c, t: ex.oblige(st, c, 'post', t)
        if out[0] != 'ret':
            ob(False, 'an operator returns a value or an error value')
            return
        nd, l, r = g['nd'], g['l'], g['r']
        res = read_any(ex, st, k, nd.out)
        ob(z3.Implies(l.error, same(res, l)), 'an error of the left operand is the result')
        ob(z3.Implies(z3.And(z3.Not(l.error), r.error), same(res, r)), 'an error of the right operand is the result')
        (lt, lf), (rt, rf) = truth(l), truth(r)
        dom = z3.And(z3.Or(l.null, l.isk('bool')), z3.Or(r.null, r.isk('bool')))
        rt_, rf_ = truth(res)
        a, b = (z3.And(lt, rt), z3.Or(lf, rf)) if op == 'conditional_and' else (z3.Or(lt, rt), z3.And(lf, rf))
        ob(z3.Implies(z3.And(dom, a), rt_), 'true exactly as in three-valued logic')
        ob(z3.Implies(z3.And(dom, b), rf_), 'false exactly as in three-valued logic')
        ob(z3.Implies(z3.And(dom, z3.Not(a), z3.Not(b)), res.null), 'unknown exactly as in three-valued logic')
    v.prove('binary ' + op, ex, '^ev_binary$', setup, post)


def concat(v, mods, k):
    uf = Uf()
    ex = executor(v, mods)
    g = {}

    def setup(ex, st):
        library(ex, uf)
        nd = Node_(ex, st, k)
        g.update(nd=nd, l=nd.operand(ex, st, 'l'), r=nd.operand(ex, st, 'r'))
        # types of both operands agree
        st.pc.append(z3.Implies(g['l'].isk('text'), z3.Or(g['r'].null, g['r'].error, g['r'].isk('text'))))
        return nd.args(ex, st) + [BINARY.index('concat'), nd.exps['l'], nd.exps['r']]

    def post(ex, st, out):
        ob = lambda c, t: ex.oblige(st, c, 'post', t)
        if out[0] != 'ret':
            ob(False, 'an operator returns a value or an error value')
            return
        nd, l, r = g['nd'], g['l'], g['r']
        res = read_any(ex, st, k, nd.out)
        operands(ob, l, r, res)
        ob(z3.Implies(z3.And(l.isk('text'), r.isk('text')), z3.And(res.isk('text'), res.get('text') == uf.cat(l.get('text'), r.get('text')))), 'left text followed by right text')
    v.prove('binary concat', ex, '^ev_binary$', setup, post)


def time_point_lt(x, y):
    s = lambda v: z3.Extract(63, 0, v)
    n = lambda v: z3.Extract(127, 64, v)
    return z3.Or(s(x) < s(y), z3.And(s(x) == s(y), n(x) < n(y)))


def compare(v, mods, k, op):
    uf = Uf()
    ex = executor(v, mods)
    g = {}

    def setup(ex, st):
        library(ex, uf)
        nd = Node_(ex, st, k)
        g.update(nd=nd, l=nd.operand(ex, st, 'l'), r=nd.operand(ex, st, 'r'))
        return nd.args(ex, st) + [COMPARE.index(op), nd.exps['l'], nd.exps['r']]

    def post(ex, st, out):
        ob = lambda c, t: ex.oblige(st, c, 'post', t)
        if out[0] != 'ret':
            ob(False, 'a comparison returns a value or an error value')
            return
        nd, l, r = g['nd'], g['l'], g['r']
        res = read_any(ex, st, k, nd.out)
        ob(z3.Implies(l.error, same(res, l)), 'an error of the left operand is the result')
        ob(z3.Implies(z3.And(z3.Not(l.error), r.error), same(res, r)), 'an error of the right operand is the result')
        ok = z3.And(z3.Not(l.error), z3.Not(r.error))
        anynull = z3.Or(l.null, r.null)
        if op.endswith('distinct_from'):
            both = z3.And(l.null, r.null)
            ob(z3.Implies(z3.And(ok, anynull), is_bool(res, both if op == 'is_not_distinct_from' else z3.Not(both))), 'NULL is distinct from everything but NULL')
        else:
            ob(z3.Implies(z3.And(ok, anynull), res.null), 'NULL operands give NULL')

        def rule(c, lt, what):
            """lt(a, b): the order; a and b are equal when neither is less"""
            x, y = lt
            eqv = z3.And(z3.Not(x), z3.Not(y))
            want = {'equal': eqv, 'not_equal': z3.Not(eqv), 'less': x, 'greater': y, 'less_equal': z3.Not(y), 'greater_equal': z3.Not(x),
                    'is_not_distinct_from': eqv, 'is_distinct_from': z3.Not(eqv)}[op]
            ob(z3.Implies(c, is_bool(res, want)), what + ': the order of the values')
        supported = []
        for a in NUM:
            for b in NUM:
                t = common(a, b)
                c = z3.And(l.isk(a), r.isk(b))
                supported.append(c)
                if not ex.may(st, c):
                    continue
                x, y = convert(l, a, t, uf, ex), convert(r, b, t, uf, ex)
                if t == 'decimal':
                    lt = (uf.d(x, y), uf.d(y, x))
                elif t.startswith('float'):
                    lt = (total(x) < total(y), total(y) < total(x))
                else:
                    lt = (x < y, y < x)
                rule(c, lt, '%s %s %s' % (a, op, b))
        for a, f in (('text', uf.t), ('binary', uf.b), ('date', lambda x, y: x < y), ('time_of_day', z3.ULT), ('time_point', time_point_lt)):
            c = z3.And(l.isk(a), r.isk(a))
            supported.append(c)
            if ex.may(st, c):
                rule(c, (f(l.get(a), r.get(a)), f(r.get(a), l.get(a))), '%s %s' % (a, op))
        ob(z3.Implies(z3.And(ok, z3.Not(anynull), z3.Not(z3.Or(*supported))), z3.And(res.error, res.get('error') == UNSUPPORTED)), 'values of other types are not comparable')
    v.prove('compare ' + op, ex, '^ev_compare$', setup, post)


TEXT_LEN = F('TEXT_LENGTH', BV(128), BV64)


def unary(v, mods, k, op):
    uf = Uf()
    ex = executor(v, mods)
    g = {}

    def setup(ex, st):
        library(ex, uf)
        nd = Node_(ex, st, k)
        g.update(nd=nd, x=nd.operand(ex, st, 'x'))

        def view(ex, st, a, ins, d):
            n = TEXT_LEN(read_value(ex, st, a[0], 16))
            return (n, Ptr(ex.new_region(st, 'text', n, 'heap', 1), 0))
        on(ex, r'^jogasaki::accessor::text::operator std::basic_string_view', view)
        if op in ('is_true', 'is_false', 'is_unknown'):
            st.pc.append(z3.Or(g['x'].null, g['x'].error, g['x'].isk('bool')))
        return nd.args(ex, st) + [UNARY.index(op), nd.exps['x']]

    def post(ex, st, out):
        ob = lambda c, t: ex.oblige(st, c, 'post', t)
        if out[0] != 'ret':
            ob(False, 'an operator returns a value or an error value')
            return
        nd, x = g['nd'], g['x']
        res = read_any(ex, st, k, nd.out)
        ob(z3.Implies(x.error, same(res, x)), 'an error of the operand is the result')
        ok = z3.Not(x.error)
        if op.startswith('is_'):
            t, f = truth(x)
            rt, rf = truth(res)
            want = {'is_null': x.null, 'is_unknown': x.null, 'is_true': t, 'is_false': f}[op]
            ob(z3.Implies(ok, z3.If(want, rt, rf)), 'the predicate is true or false, never NULL')
            return
        ob(z3.Implies(x.null, res.null), 'NULL gives NULL')
        if op == 'plus':
            ob(same(res, x), 'the operand')
        elif op == 'conditional_not':
            t, f = truth(x)
            ob(z3.Implies(x.isk('bool'), is_bool(res, f)), 'negation')
            ob(z3.Implies(z3.And(ok, z3.Not(x.null), z3.Not(x.isk('bool'))), z3.And(res.error, res.get('error') == UNSUPPORTED)), 'operands of other types are rejected')
        elif op == 'length':
            n = TEXT_LEN(x.get('text'))
            ob(z3.Implies(z3.And(x.isk('text'), z3.ULT(n, 1 << 31)), z3.And(res.isk('int4'), res.get('int4') == z3.Extract(31, 0, n))), 'number of octets')
            ob(z3.Implies(z3.And(ok, z3.Not(x.null), z3.Not(x.isk('text'))), z3.And(res.error, res.get('error') == UNSUPPORTED)), 'operands of other types are rejected')
        else:
            for t in NUM:
                y = x.get(t)
                w = y.size()
                if t.startswith('int'):
                    ob(z3.Implies(z3.And(x.isk(t), y != z3.BitVecVal(1 << (w - 1), w)), z3.And(res.isk(t), res.get(t) == -y)), '-' + t)
                elif t == 'decimal':
                    ob(z3.Implies(x.isk(t), z3.And(res.isk(t), res.get(t) == uf.neg(y))), '-' + t)
                else:
                    ob(z3.Implies(x.isk(t), z3.And(res.isk(t), res.get(t) == y ^ z3.BitVecVal(1 << (w - 1), w))), '-' + t)
            ob(z3.Implies(z3.And(ok, z3.Not(x.null), z3.Not(x.isk(*NUM))), z3.And(res.error, res.get('error') == UNSUPPORTED)), 'operands of other types are rejected')
    v.prove('unary ' + op, ex, '^ev_unary$', setup, post)


def lazy_values(ex, st, k, nm, n):
    """values of expression nm[i] for every i, as functions of i"""
    f = [F('%s_%d' % (nm, j), BV64, BV64) for j in range(k['sizeof'] // 8)]
    rid = ex.new_region(st, nm, n, 'heap', 1)
    return rid, lambda i: [g(i) for g in f]


def any_of(k, words):
    """an any value given as words"""
    rd = lambda n: z3.simplify(z3.Extract(8 * n - 1, 0, z3.Concat(*reversed(words)) if len(words) > 1 else words[0]))
    return Any(k, z3.Extract(7, 0, words[6]), rd)


CONV = [F('CONVERTED_%d' % j, *([BV64] * 8)) for j in range(7)]
TYPE_DIFFERS = {}


def alternatives(v, mods, k, what, hit):
    """CASE (what='conditional') and COALESCE: hit='first': alternative number k0 decides; 'none': none does"""
    uf = Uf()
    ex = executor(v, mods, unroll_sym=1, unroll_symbacks=1, unroll_total=2)
    g = {}
    n, k0 = z3.BitVec('alternatives', 64), z3.BitVec('k0', 64)
    has_default = z3.Bool('has_default')
    cond, first = what == 'conditional', hit.startswith('first')
    differs = F('TYPE_DIFFERS', BV64, BOOL)     # of the type of body i and the type of the node (i = n: the default)

    def setup(ex, st):
        library(ex, uf)
        st.pc.append(z3.ULE(n, 1 << 20))
        nd = Node_(ex, st, k)
        alts = ex.new_region(st, 'alternatives', n + 1, 'heap', 1)
        conds, cw = lazy_values(ex, st, k, 'condition', n + 1)
        bodies, bw = lazy_values(ex, st, k, 'body', n + 1)
        node_type = ex.new_region(st, 'node_type', 128, 'heap', 8)
        types = ex.new_region(st, 'body_types', n + 1, 'heap', 1)
        C, B = (lambda i: any_of(k, cw(i))), (lambda i: any_of(k, bw(i)))
        decides = (lambda i: z3.Or(C(i).error, truth(C(i))[0])) if cond else (lambda i: z3.Not(B(i).null))

        def known(i):
            f = [z3.ULE(C(i).idx, 16), z3.ULE(B(i).idx, 16)]
            if cond:
                f.append(z3.Or(C(i).null, C(i).error, C(i).isk('bool')))
            if first:
                f += [z3.Implies(z3.ULT(i, k0), z3.Not(decides(i))), z3.Implies(i == k0, decides(i))]
            else:
                f.append(z3.Implies(z3.ULT(i, n), z3.Not(decides(i))))
            return f

        def get(ex, st, a, ins, d):
            i = bv(a[1], 64)
            ex.oblige(st, z3.ULT(i, n), 'pre', 'alternative exists')
            return Ptr(alts if cond else bodies, i)
        on(ex, r'^takatori::scalar::reference_list<.*>::get\(unsigned long\) const', get)
        on(ex, r'^takatori::scalar::conditional_alternative::condition\(\) const', lambda ex, st, a, ins, d: Ptr(conds, a[0].off))
        on(ex, r'^takatori::scalar::conditional_alternative::body\(\) const', lambda ex, st, a, ins, d: Ptr(bodies, a[0].off))

        def dispatch(ex, st, a, ins, d):
            e = a[2]
            if not isinstance(e, Ptr) or e.rid not in (conds, bodies):
                raise Unsupported('evaluation of an expression which is no operand')
            i = bv(e.off, 64)
            st.pc += known(i)
            if e.rid == bodies and cond:
                # evaluating another body could fail: CASE must not
                ex.oblige(st, z3.And(i == (k0 if first else n), z3.Not(C(i).error) if first else z3.BoolVal(True)), 'pre', 'only the selected result expression is evaluated')
            if not cond and first:
                ex.oblige(st, z3.ULE(i, k0), 'pre', 'nothing is evaluated after the first non-NULL alternative')
            for j, w in enumerate((cw if e.rid == conds else bw)(i)):
                ex.wr(st, a[0].add(8 * j), 8, w)
        on(ex, r'^.*takatori::scalar::dispatch<', dispatch)

        def type_of(ex, st, a, ins, d):
            e = a[1]
            if e.rid == bodies:
                return Ptr(types, e.off)
            return Ptr(node_type, 0)
        on(ex, r'^yugawara::compiled_info::type_of\(', type_of)

        def diff(neg):
            def h(ex, st, a, ins, d):
                t = [x for x in a if x.rid == types]
                if len(t) != 1 or not [x for x in a if x.rid == node_type]:
                    raise Unsupported('comparison of other types')
                c = differs(bv(t[0].off, 64))
                return c if neg else z3.Not(c)
            return h
        on(ex, r'^takatori::type::operator!=\(', diff(True))
        on(ex, r'^takatori::type::operator==\(', diff(False))

        def conv(ex, st, a, ins, d):
            if a[0].rid != types or a[1].rid != node_type:
                raise Unsupported('conversion between other types')
            i = bv(a[0].off, 64)
            src = read_any(ex, st, k, a[2])
            ex.oblige(st, z3.Not(src.error), 'pre', 'an error value is never converted')
            words = [bv(ex.rd(st, a[2].add(8 * j), 8), 64) for j in range(7)]
            for j in range(7):
                ex.wr(st, a[3].add(8 * j), 8, CONV[j](*words))
            return 0
        on(ex, r'^jogasaki::executor::conv::conduct_unifying_conversion\(', conv)
        if first:
            st.pc.append(z3.ULT(k0, n))
        g.update(nd=nd, C=C, B=B, bw=bw, st0=st)
        args = nd.args(ex, st) + [Ptr(ex.new_region(st, 'items', 8, 'heap', 8), 0), n]
        if cond:
            g['def'] = None
            if hit in ('none_default', 'first_default'):
                args.append(Ptr(bodies, n))
            else:
                args.append(Ptr(0, 0))
        return args
    ex.loop_terms = lambda ex, st: [('k0', k0), ('n', n)]

    def post(ex, st, out):
        ob = lambda c, t: ex.oblige(st, c, 'post', t)
        if out[0] != 'ret':
            ob(False, 'an expression returns a value or an error value')
            return
        nd, C, B, bw = g['nd'], g['C'], g['B'], g['bw']
        res = read_any(ex, st, k, nd.out)
        if hit == 'none':
            ob(res.null, 'no alternative: NULL')
            return
        i = k0 if first else n
        st.pc += [z3.ULE(C(i).idx, 16), z3.ULE(B(i).idx, 16)]
        words = bw(i)
        conv = any_of(k, [CONV[j](*words) for j in range(7)])
        err = C(i).error if cond and first else z3.BoolVal(False)
        if cond and first:
            ob(z3.Implies(err, same(res, C(i))), 'an error of a condition is the result')
        ok = z3.Not(err)
        ob(z3.Implies(z3.And(ok, B(i).error), same(res, B(i))), 'an error of the selected alternative is the result')
        ob(z3.Implies(z3.And(ok, z3.Not(B(i).error), z3.Not(differs(i))), same(res, B(i))), 'the selected alternative is the result')
        ob(z3.Implies(z3.And(ok, z3.Not(B(i).error), differs(i)), same(res, conv)), 'the selected alternative, converted to the type of the expression')
    v.prove('%s: %s' % (what, {'first': 'the first alternative that applies', 'first_default': 'the first alternative that applies, default given', 'none': 'no alternative applies', 'none_default': 'no alternative applies, default given'}[hit]),
            ex, '^ev_%s$' % what, setup, post)


def top(v, mods, k):
    uf = Uf()
    ex = executor(v, mods)
    g = {}

    def setup(ex, st):
        library(ex, uf)
        nd = Node_(ex, st, k)
        x = nd.operand(ex, st, 'x')
        g.update(nd=nd, x=x)

        def dispatch(ex, st, a, ins, d):
            def raises(s):
                e = Ptr(ex.new_region(s, 'exception', 16, 'heap', 8), 0)
                ex.wr(s, e, 8, Ptr(ex.new_region(s, 'exception_vtable', 24, 'const', 8, Content({16: (8, FPtr('_ZNKSt9exception4whatEv'))}, ZERO)), 0))
                return Throw('_ZTISt13runtime_error', e)

            def normal(s):
                copy_any(ex, s, a[0], x.p, k['sizeof'])
                s.ghost['normal'] = True
            return Fork([(z3.Bool('evaluation_throws'), raises), (z3.Not(z3.Bool('evaluation_throws')), normal)])
        on(ex, r'^.*takatori::scalar::dispatch<', dispatch)
        on(ex, r'^jogasaki::executor::expr::details::ensure_decimal_context\(', lambda ex, st, a, ins, d: None)
        return nd.args(ex, st) + [nd.exps['x']]

    def post(ex, st, out):
        ob = lambda c, t: ex.oblige(st, c, 'post', t)
        if out[0] != 'ret':
            ob(False, 'evaluation never ends by an exception')
            return
        res = read_any(ex, st, k, g['nd'].out)
        if st.ghost.get('normal'):
            ob(same(res, g['x']), 'the value of the expression')
        else:
            ob(z3.And(res.error, recorded(st, UNDEFINED)), 'an exception during evaluation becomes an error value')
    v.prove('evaluator', ex, '^ev_top$', setup, post)


def as_condition(v, mods, k):
    uf = Uf()
    ex = executor(v, mods)
    g = {}
    cp = [z3.BitVec('checkpoint_%d' % i, 64) for i in range(2)]

    def setup(ex, st):
        library(ex, uf)
        x = new_any(ex, st, k, 'x')
        st.pc.append(z3.Or(x.null, x.error, x.isk('bool')))
        g['x'] = x
        on(ex, r'^jogasaki::executor::expr::evaluator::operator\(\)\(', lambda ex, st, a, ins, d: copy_any(ex, st, a[0], x.p, k['sizeof']))
        on(ex, r'^jogasaki::memory::lifo_paged_memory_resource::get_checkpoint\(', lambda ex, st, a, ins, d: (cp[0], cp[1]) if ins.ty.kind == 'struct' else None)

        def dealloc(ex, st, a, ins, d):
            st.ghost['released'] = st.ghost.get('released', 0) + 1
        on(ex, r'^jogasaki::memory::lifo_paged_memory_resource::deallocate_after\(', dealloc)
        g['out'] = Ptr(ex.new_region(st, 'out', k['sizeof'], 'heap', 8), 0)
        return [g['out']] + [Ptr(ex.new_region(st, nm, 256, 'heap', 8), 0) for nm in ('ctx', 'evaluator', 'resource')]

    def post(ex, st, out):
        ob = lambda c, t: ex.oblige(st, c, 'post', t)
        if out[0] != 'ret':
            ob(False, 'a condition evaluates to true, false or an error')
            return
        x, res = g['x'], read_any(ex, st, k, g['out'])
        ob(z3.Implies(x.error, same(res, x)), 'an error is the result')
        ob(z3.Implies(z3.Not(x.error), is_bool(res, truth(x)[0])), 'a condition holds exactly if it is true: false and NULL do not hold')
        ob(st.ghost.get('released') == 1, 'the memory used by the evaluation is released')
    v.prove('condition', ex, '^ev_bool$', setup, post)


TYPES = ['boolean', 'int1', 'int2', 'int4', 'int8', 'float4', 'float8', 'decimal', 'character', 'octet', 'bit', 'date', 'time_of_day', 'time_point']
READS = {'boolean': ('bool', 1), 'int1': ('int4', 4), 'int2': ('int4', 4), 'int4': ('int4', 4), 'int8': ('int8', 8), 'float4': ('float4', 4), 'float8': ('float8', 8), 'decimal': ('decimal', 24),
         'character': ('text', 16), 'octet': ('binary', 16), 'date': ('date', 8), 'time_of_day': ('time_of_day', 8), 'time_point': ('time_point', 16)}


def variable(v, mods, k, host):
    """a variable of a record of the block, or a host variable (parameter)"""
    ex = executor(v, mods)
    g = {}
    kind = z3.BitVec('type_kind', 32)
    in_block = z3.Bool('defined_in_block')

    def setup(ex, st):
        nd = Node_(ex, st, k)
        g['nd'] = nd
        ty = ex.new_region(st, 'type', 128, 'heap', 8, Content({0: (4, kind)}, ZERO), ro=True)
        st.pc.append(z3.ULE(kind, 25))
        st.pc.append(z3.Not(z3.Or(kind == 23, kind == 24)))     # large objects: not covered
        g['rec'] = {}
        for nm in ('block', 'host'):
            size, vo, no, rg = [z3.BitVec('%s_%s' % (nm, x), 64) for x in ('size', 'value_offset', 'nullity_offset', 'region')]
            by = {n: F('%s_%d' % (nm, n), BV64, BV(8 * n)) for n in (1, 2, 4, 8)}
            rec = Ptr(ex.new_region(st, nm + '_record', size, 'heap', 16, Content({}, Node('words', aux=by)), ro=True), 0)
            info = Ptr(ex.new_region(st, nm + '_value_info', 24, 'heap', 8, Content({0: (8, vo), 8: (8, no), 16: (8, rg)}, ZERO), ro=True), 0)
            st.pc += [z3.ULE(size, 1 << 40), z3.ULE(24, size), z3.ULE(vo, size - 24), z3.ULT(z3.LShR(no, 3), size), vo & 7 == 0]
            g['rec'][nm] = (by, rec, info, size, vo, no, rg)
        b, h = g['rec']['block'], g['rec']['host']
        P = r'^jogasaki::executor::process::impl::'
        hv = z3.Bool('host_variables_given')
        hx = z3.Bool('defined_as_host_variable')
        if host:
            st.pc.append(z3.Or(in_block, z3.And(hv, hx)))
        else:
            st.pc.append(in_block)
        on(ex, P + r'variables_view::exists\(', lambda ex, st, a, ins, d: in_block)
        on(ex, P + r'variables_view::at\(', lambda ex, st, a, ins, d: (ex.oblige(st, in_block, 'pre', 'variable is defined in the block'), b[2])[1])

        def ref(ex, st, a, ins, d):
            ex.oblige(st, bv(a[-1], 64) == b[6], 'pre', 'the record which holds the variable')
            return (b[1], b[3])
        on(ex, P + r'variables_view::ref\(', ref)
        on(ex, P + r'variable_table::operator bool\(', lambda ex, st, a, ins, d: hv)
        infos = Ptr(ex.new_region(st, 'host_info', 8, 'heap', 8), 0)
        store = Ptr(ex.new_region(st, 'host_store', 8, 'heap', 8), 0)
        on(ex, P + r'variable_table::info\(', lambda ex, st, a, ins, d: infos)
        on(ex, P + r'variable_table::store\(', lambda ex, st, a, ins, d: store)
        on(ex, P + r'variable_table_info::exists\(', lambda ex, st, a, ins, d: hx)
        on(ex, P + r'variable_table_info::at\(', lambda ex, st, a, ins, d: (ex.oblige(st, hx, 'pre', 'variable is a host variable'), h[2])[1])
        on(ex, P + r'record_store_::ref\(', lambda ex, st, a, ins, d: (h[1], h[3]))
        on(ex, r'^yugawara::compiled_info::type_of\(', lambda ex, st, a, ins, d: Ptr(ty, 0))
        table = Ptr(ex.new_region(st, 'host_variables', 8, 'heap', 8), 0) if host else Ptr(0, 0)
        return nd.args(ex, st)[:4] + [table, z3.BitVec('variable', 64)]

    def post(ex, st, out):
        ob = lambda c, t: ex.oblige(st, c, 'post', t)
        if out[0] != 'ret':
            ob(False, 'a variable is read')
            return
        res = read_any(ex, st, k, g['nd'].out)
        for nm, sel in (('block', in_block), ('host', z3.Not(in_block))):
            if not ex.may(st, sel):
                continue
            by, rec, info, size, vo, no, rg = g['rec'][nm]
            null = z3.Extract(0, 0, z3.LShR(by[1](z3.LShR(no, 3)), z3.Extract(7, 0, no & 7))) == 1
            ob(z3.Implies(z3.And(sel, null), res.null), 'null flag set: NULL')
            for t, (rk, n) in READS.items():
                c = z3.And(sel, z3.Not(null), kind == TYPES.index(t))
                if not ex.may(st, c):
                    continue
                from .c11 import at
                val = at(by, vo, n)
                if t == 'boolean':
                    ob(z3.Implies(c, is_bool(res, val != 0)), 'boolean variable: its value')
                elif t in ('int1', 'int2'):
                    continue        # not types of SQL values here
                else:
                    ob(z3.Implies(c, z3.And(res.isk(rk), res.get(rk) == val)), t + ' variable: its value')
    v.prove('variable, %s host variables' % ('with' if host else 'without'), ex, '^ev_variable$', setup, post)


def cast(v, mods, k):
    """CAST: NULL and errors are passed through; the loss policy applies to this conversion only"""
    uf = Uf()
    ex = executor(v, mods)
    g = {}
    policy, before = z3.BitVec('loss_policy', 32), z3.BitVec('loss_policy_before', 64)
    # takatori's policies are numbered ignore, floor, ceil, unknown, warn, error in the stand-in

    def setup(ex, st):
        library(ex, uf)
        nd = Node_(ex, st, k)
        g.update(nd=nd, x=nd.operand(ex, st, 'x'))
        st.pc += [z3.ULE(policy, 5), z3.ULE(before, 5)]
        st.ghost['policy'] = before
        E = r'^jogasaki::executor::expr::evaluator_context::'
        on(ex, E + r'get_loss_precision_policy\(', lambda ex, st, a, ins, d: st.ghost['policy'])

        def setp(ex, st, a, ins, d):
            st.ghost['policy'] = bv(a[1], 64)
            return a[0]
        on(ex, E + r'set_loss_precision_policy\(', setp)
        on(ex, E + r'loss_precision_policy\(', lambda ex, st, a, ins, d: st.ghost['policy'])
        src = Ptr(ex.new_region(st, 'source_type', 128, 'heap', 8), 0)
        g['dst'] = Ptr(ex.new_region(st, 'target_type', 128, 'heap', 8), 0)

        def type_of(ex, st, a, ins, d):
            if a[1].rid != nd.exps['x'].rid:
                raise Unsupported('type of another expression')
            return src
        on(ex, r'^yugawara::compiled_info::type_of\(', type_of)

        def conduct(ex, st, a, ins, d):
            if a[2].rid != src.rid or a[3].rid != g['dst'].rid:
                raise Unsupported('cast between other types')
            x = read_any(ex, st, k, a[4])
            ex.oblige(st, same(x, g['x']), 'pre', 'the value of the operand is converted')
            ex.oblige(st, z3.Not(x.null), 'pre', 'NULL is not converted')
            words = [bv(ex.rd(st, a[4].add(8 * j), 8), 64) for j in range(7)]
            st.ghost['cast_policy'] = st.ghost['policy']
            st.ghost['cast'] = [CONV[j](*words) for j in range(7)]
            for j in range(7):
                ex.wr(st, a[0].add(8 * j), 8, st.ghost['cast'][j])
        on(ex, r'^jogasaki::executor::expr::details::conduct_cast\(', conduct)
        return nd.args(ex, st) + [policy, g['dst'], nd.exps['x']]

    def post(ex, st, out):
        ob = lambda c, t: ex.oblige(st, c, 'post', t)
        if out[0] != 'ret':
            ob(False, 'a cast returns a value or an error value')
            return
        x, res = g['x'], read_any(ex, st, k, g['nd'].out)
        ob(st.ghost['policy'] == before, 'the policy of the surrounding expression is restored')
        ob(z3.Implies(z3.Or(x.null, x.error), same(res, x)), 'NULL and errors are passed through')
        if 'cast' in st.ghost:
            ob(same(res, any_of(k, st.ghost['cast'])), 'the converted value')
            for i, n in enumerate(['ignore', 'floor', 'ceil', 'unknown', 'warn', 'error']):
                ob(z3.Implies(policy == i, st.ghost['cast_policy'] == i), 'conversion under policy ' + n)
        else:
            ob(z3.Or(x.null, x.error), 'every other value is converted')
    v.prove('cast', ex, '^ev_cast$', setup, post)


def run(v):
    mods = modules(v)
    k = kinds(v, mods)
    jobs = [lambda op=op: arithmetic(v, mods, k, op) for op in ('add', 'subtract', 'multiply', 'divide', 'remainder')]
    jobs += [lambda op=op: compare(v, mods, k, op) for op in COMPARE]
    jobs += [lambda h=h: alternatives(v, mods, k, 'coalesce', h) for h in ('first', 'none')]
    jobs += [lambda h=h: alternatives(v, mods, k, 'conditional', h) for h in ('first', 'first_default', 'none', 'none_default')]
    jobs += [lambda op=op: unary(v, mods, k, op) for op in UNARY]
    jobs += [lambda op=op: logic(v, mods, k, op) for op in ('conditional_and', 'conditional_or')]
    jobs += [lambda: concat(v, mods, k), lambda: cast(v, mods, k), lambda: variable(v, mods, k, True), lambda: variable(v, mods, k, False), lambda: top(v, mods, k), lambda: as_condition(v, mods, k)]
    v.parallel(jobs)
