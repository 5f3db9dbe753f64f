"""C13: values handed to and from user defined functions"""
from irvc.harness import *
from irvc.spec import *
from irvc.models import str_init, str_buf, str_size
from .c11 import on, read_value
from .monitor import Monitor, install

UNITS = ['src/jogasaki/udf/generic_record_impl.cpp', 'src/jogasaki/udf/error_info.cpp']
CLIENT = ('udf_client.cpp', open(os.path.join(VERIF, 'contracts/clients/udf.cpp')).read())
NATIVE = {'driver': 'c13.cpp', 'units': UNITS, 'leaks': True}
ASSUMPTIONS = ['std::vector and std::queue of the records: contracts of the standard library (append, index, size, clear, move; push, front, pop, empty, swap, move)',
               'std::mutex and std::condition_variable: monitor semantics - while the mutex is free other threads may change the shared state in any way the invariant allows; wake-ups may be spurious',
               'records handed to push are not null and the record given to next / try_next is a generic_record_impl, as everywhere in the code',
               'allocation succeeds']
F = z3.Function
# alternative -> (c++ type in demangled names, bytes of the payload as (offset, size), strings inside)
ALTS = ['null', 'bool', 'int4', 'int8', 'uint4', 'uint8', 'float', 'double', 'string', 'bytes', 'decimal', 'date', 'local_time', 'local_datetime', 'offset_datetime',
        'blob_reference', 'clob_reference']
CPP = ['std::monostate', 'bool', 'int', 'long', 'unsigned int', 'unsigned long', 'float', 'double', None, 'plugin::udf::bytes_value', 'plugin::udf::decimal_value',
       'plugin::udf::date_value', 'plugin::udf::local_time_value', 'plugin::udf::local_datetime_value', 'plugin::udf::offset_datetime_value',
       'plugin::udf::blob_reference_value', 'plugin::udf::clob_reference_value']
PARTS = {'null': [], 'bool': [(0, 1)], 'int4': [(0, 4)], 'int8': [(0, 8)], 'uint4': [(0, 4)], 'uint8': [(0, 8)], 'float': [(0, 4)], 'double': [(0, 8)], 'string': [], 'bytes': [],
         'decimal': [(32, 4)], 'date': [(0, 4)], 'local_time': [(0, 8)], 'local_datetime': [(0, 8), (8, 4)], 'offset_datetime': [(0, 8), (8, 4), (12, 4)],
         'blob_reference': [(0, 8), (8, 8), (16, 8), (24, 1)], 'clob_reference': [(0, 8), (8, 8), (16, 8), (24, 1)]}
TEXT = ('string', 'bytes', 'decimal')
VARIANT = r'std::variant<std::monostate, bool, int, long, unsigned int, unsigned long, float, double, [^$]*?plugin::udf::clob_reference_value>'
VEC = r'std::vector<%s, std::allocator<%s ?>>' % (VARIANT, VARIANT)
QUEUE = r'std::queue<std::unique_ptr<plugin::udf::generic_record_impl, [^$]*?>::'
LEN = F('LENGTH', BV64, BV64)
OK, ERROR, END, NOT_READY = range(4)


def run(v):
    mods = v.modules(UNITS + [CLIENT])
    jobs = [lambda: kinds(v, mods)]
    for n in ALTS[1:]:
        jobs.append(lambda n=n: fetch(v, mods, n))
        jobs.append(lambda n=n: add(v, mods, n))
        jobs.append(lambda n=n: add(v, mods, n, True))
    for n in ('has_next', 'current_kind', 'current_is_null'):
        jobs.append(lambda n=n: fetch(v, mods, n))
    for n in ('reset', 'set_error', 'assign', 'cursor'):
        jobs.append(lambda n=n: add(v, mods, n))
    for n in ('push', 'end_of_stream', 'close', 'fresh', 'try_next', 'next', 'next_for', 'move', 'move_assign'):
        jobs.append(lambda n=n: stream(v, mods, n))
    v.parallel(jobs)


def kinds(v, mods):
    ex = v.executor(mods)
    g = {}

    def setup(ex, st):
        g['k'] = Ptr(ex.new_region(st, 'k', 17 * 4, 'heap', 4), 0)
        g['s'] = Ptr(ex.new_region(st, 's', 16, 'heap', 4), 0)
        return [g['k'], g['s']]

    def post(ex, st, out):
        for i in range(17):
            ex.oblige(st, bv(ex.rd(st, g['k'].add(4 * i), 4), 32) == i, 'post', 'one kind per alternative, in the same order')
        for i in range(4):
            ex.oblige(st, bv(ex.rd(st, g['s'].add(4 * i), 4), 32) == i, 'post', 'result codes of the stream')
        ex.oblige(st, bv(out[1], 32) == 48, 'post', 'size of a value')
    v.prove('kinds of values', ex, '^kinds$', setup, post)


# ---------------------------------------------------------------- values
class Value:
    """an arbitrary value of one alternative placed in memory"""

    def __init__(self, ex, st, nm, alt, size=48):
        self.alt = alt
        self.rid = ex.new_region(st, nm, size, 'heap', 8, Content({}, Node('fn', aux=F(nm + '_bytes', BV64, BV8))))
        self.p = Ptr(self.rid, 0)
        self.text = None
        if alt in TEXT:
            n, p, IN = bytes_param(ex, st, nm + '_text')
            str_init(ex, st, self.p, ex.content(st, p.rid), n, nm + '_str')
            self.text = (n, IN)
        if alt == 'bool':
            st.pc.append(z3.ULE(self.part(ex, st, 0, 1), 1))
        if alt in ('blob_reference', 'clob_reference'):
            st.pc.append(z3.ULE(self.part(ex, st, 24, 1), 1))
        self.parts = [self.part(ex, st, o, n) for o, n in PARTS[alt]]

    def part(self, ex, st, o, n):
        return read_value(ex, st, self.p.add(o), n)


def equal_parts(ex, st, val, p, what):
    """the object at p holds val"""
    for (o, n), x in zip(PARTS[val.alt], val.parts):
        ex.oblige(st, read_value(ex, st, p.add(o), n) == x, 'post', what + ': every part of the value')
    if val.text:
        equal_text(ex, st, str_buf(ex, st, p), str_size(ex, st, p), val.text, what)


def equal_text(ex, st, q, n, text, what):
    ex.oblige(st, bv(n, 64) == text[0], 'post', what + ': length of the text')
    if q.rid == 0:
        return
    j = z3.BitVec('j', 64)
    b = bv(ex.mem.read(st, ex.content(st, q.rid), add64(q.off, j), 1), 8)
    ex.oblige(st, z3.Implies(z3.ULT(j, text[0]), b == text[1](j)), 'post', what + ': every byte of the text')


def unsupported_vector(ex):
    """library contracts of the vector of values: word 0 of the object names its content (0: empty)"""
    ident = lambda st, p: bv(read_value(ex, st, p, 8), 64)

    def setid(st, p, x):
        ex.wr(st, p, 8, x)
    on(ex, r'^%s::vector\(\)$' % VEC, lambda ex, st, a, ins, d: setid(st, a[0], c64(0)))
    on(ex, r'^%s::~vector\(\)$' % VEC, lambda ex, st, a, ins, d: None)
    on(ex, r'^%s::clear\(\)$' % VEC, lambda ex, st, a, ins, d: setid(st, a[0], c64(0)))
    on(ex, r'^%s::size\(\) const$' % VEC, lambda ex, st, a, ins, d: z3.If(ident(st, a[0]) == 0, c64(0), LEN(ident(st, a[0]))))
    on(ex, r'^%s::empty\(\) const$' % VEC, lambda ex, st, a, ins, d: z3.Or(ident(st, a[0]) == 0, LEN(ident(st, a[0])) == 0))

    def move(ex, st, a, ins, d):
        x = ident(st, a[1])
        setid(st, a[1], ex.fresh('moved_from'))
        setid(st, a[0], x)
        return a[0] if ins.ty.kind != 'void' else None
    on(ex, r'^%s::(vector|operator=)\(%s&&\)$' % (VEC, VEC), move)

    def swap(ex, st, a, ins, d):
        x, y = ident(st, a[0]), ident(st, a[1])
        setid(st, a[0], y)
        setid(st, a[1], x)
        return None
    on(ex, r'^%s::swap\(' % VEC, swap)
    for m in ex.modules:
        for n in list(m.functions):
            t = re.match(r'^(?:[^$]* )?%s::emplace_back<([^$]*)>\(' % VEC, ex.demangle(n)) or re.match(r'^[^$]*%s>>::emplace_back<([^$]*)>\(' % VARIANT, ex.demangle(n))
            if not t:
                t2 = re.match(r'^%s::push_back\((.*)(&&|const&)\)$' % VEC, ex.demangle(n))
                if not t2:
                    continue
                ex.contracts[n] = appended(ex, None)
                continue
            ty = t.group(1).strip().rstrip('&').replace(' const', '').strip()
            alt = next((ALTS[i] for i, c in enumerate(CPP) if c == ty or (c is None and 'basic_string' in ty)), None)
            if alt is None and 'std::variant<' not in ty:
                continue
            ex.contracts[n] = appended(ex, alt)


def appended(ex, alt):
    def h(ex, st, a, ins, d):
        p = a[1]
        k = alt
        if k is None:     # a variant: its index says what it holds
            i = read_value(ex, st, p.add(40), 1)
            i = z3.simplify(i)
            if not z3.is_bv_value(i):
                ex.oblige(st, False, 'post', 'the kind of an appended value is known')
                return p
            k = ALTS[i.as_long()]
        parts = tuple(read_value(ex, st, p.add(o), n) for o, n in PARTS[k])
        text = None
        if k in TEXT:
            b = str_buf(ex, st, p)
            text = (bv(str_size(ex, st, p), 64), ex.content(st, b.rid), b.off)
        old = bv(read_value(ex, st, a[0], 8), 64)
        new = ex.fresh('appended')
        ex.wr(st, a[0], 8, new)
        st.ghost['added'] = st.ghost.get('added', ()) + ((old, new, k, parts, text),)
        return p if ins.ty.kind != 'void' else None
    return h


def fetch(v, mods, n):
    ex = v.executor(mods)
    unsupported_vector(ex)
    g = {}
    alt = n if n in ALTS else 'int8'

    def setup(ex, st):
        val = Value(ex, st, 'element', alt)
        idx = z3.BitVec('kind', 8)
        ex.wr(st, val.p.add(40), 1, idx)
        st.pc.append(z3.ULE(idx, 16))
        vec = Ptr(ex.new_region(st, 'values', 24, 'heap', 8), 0)
        vid = z3.BitVec('values', 64)
        ex.wr(st, vec, 8, vid)
        i = z3.BitVec('position', 64)
        ln = z3.If(vid == 0, c64(0), LEN(vid))
        st.pc += [z3.ULE(ln, 1 << 40), z3.ULE(i, 1 << 41)]
        o = Ptr(ex.new_region(st, 'out', 48, 'heap', 8), 0)
        if alt in TEXT:
            str_init(ex, st, o)
        j = Ptr(ex.new_region(st, 'j', 8, 'heap', 8), 0)
        g.update(val=val, idx=idx, i=i, ln=ln, o=o, j=j, vid=vid, vec=vec)

        def at(ex, st, a, ins, d):
            ex.oblige(st, z3.ULT(bv(a[1], 64), ln), 'post', 'only existing values are read')
            ex.oblige(st, bv(a[1], 64) == i, 'post', 'the value at the cursor is read')
            return val.p
        on(ex, r'^%s::(operator\[\]|at)\(unsigned long\)' % VEC, at)
        return [vec, i, j] + ([o] if n in ALTS else [])

    def post(ex, st, out):
        idx, i, ln = g['idx'], g['i'], g['ln']
        inside = z3.ULT(i, ln)
        if n == 'current_kind':
            if out[0] != 'ret':
                ex.oblige(st, z3.And(z3.Not(inside), 'out_of_range' in str(out[1])), 'post', 'no current value: out_of_range')
                return
            ex.oblige(st, z3.And(inside, z3.ZeroExt(24, idx) == bv(out[1], 32)), 'post', 'the kind of the current value')
        elif out[0] != 'ret':
            ex.oblige(st, False, 'post', n + ' does not throw')
            return
        elif n == 'has_next':
            ex.oblige(st, boolv(out[1]) == inside, 'post', 'has_next tells whether a value is left')
        elif n == 'current_is_null':
            ex.oblige(st, boolv(out[1]) == z3.And(inside, idx == 0), 'post', 'current_is_null')
        j = bv(ex.rd(st, g['j'], 8), 64)
        ex.oblige(st, bv(read_value(ex, st, g['vec'], 8), 64) == g['vid'], 'post', 'the record is not changed')
        if n not in ALTS:
            ex.oblige(st, j == i, 'post', 'looking does not move the cursor')
            return
        have = z3.And(inside, idx == ALTS.index(n))
        ex.oblige(st, boolv(out[1]) == have, 'post', 'fetch_' + n + ': a value exactly when the field holds one of this type')
        ex.oblige(st, j == z3.If(inside, i + 1, i), 'post', 'fetch_' + n + ': consumes exactly one field')
        if ex.must(st, have):
            equal_parts(ex, st, g['val'], g['o'], 'fetch_' + n)
        else:
            ex.oblige(st, z3.Not(have), 'post', 'fetch_' + n + ': decided')
    v.prove(('fetch_' if n in ALTS else '') + n, ex, '^c_(fetch_)?%s$' % n, setup, post)


# ---------------------------------------------------------------- records
class Rec:
    """arbitrary content of the records the client creates"""

    def __init__(self, ex, st):
        self.err = []
        self.args = []
        for t in 'ab':
            e = z3.Bool('error_' + t)
            c = z3.BitVec('code_' + t, 32)
            n, p, IN = bytes_param(ex, st, 'message_' + t)
            self.err.append((e, c, n, IN))
            self.args += [e, c, p, n]
        self.id = [z3.BitVec('values_%d' % i, 64) for i in range(2)]


def observers(ex, g):
    def values(ex, st, a, ins, d):
        ex.wr(st, a[0], 8, g['rec'].id[a[1]])
        return None

    def seen(ex, st, a, ins, d):
        st.ghost['seen'] = st.ghost.get('seen', ()) + ((a[1], bv(read_value(ex, st, a[0], 8), 64)),)
        return None

    def error(ex, st, a, ins, d):
        c = ex.content(st, a[3].rid) if isinstance(a[3], Ptr) and a[3].rid else None
        st.ghost['errors'] = st.ghost.get('errors', ()) + ((a[0], a[1], a[2], a[3], a[4], c),)
        return None
    ex.contracts['arbitrary_values'] = values
    ex.contracts['observe_values'] = seen
    ex.contracts['observe_error'] = error


def same_error(ex, st, got, want, what, when=True):
    """got: what was observed; want: (set, code, length, bytes) or None for no error"""
    on_, code, p, n, c = got[1:]
    e = boolv(on_)
    if want is None:
        ex.oblige(st, z3.Implies(when, z3.Not(e)), 'post', what + ': no error')
        return
    we, wc, wn, IN = want
    ex.oblige(st, z3.Implies(when, e == we), 'post', what + ': an error exactly when there is one')
    if c is None:
        ex.oblige(st, z3.Implies(z3.And(when, we), wn == 0), 'post', what + ': message')
        return
    ex.oblige(st, z3.Implies(z3.And(when, we), z3.And(bv(code, 32) == wc, bv(n, 64) == wn)), 'post', what + ': error code and length of the message')
    j = z3.BitVec('j', 64)
    b = bv(ex.mem.read(st, c, add64(p.off, j), 1), 8)
    ex.oblige(st, z3.Implies(z3.And(when, we, z3.ULT(j, wn)), b == IN(j)), 'post', what + ': every byte of the message')


def add(v, mods, n, null=False):
    ex = v.executor(mods)
    unsupported_vector(ex)
    g = {}
    observers(ex, g)
    ex.contracts['observe_point'] = lambda ex, st, a, ins, d: ex.oblige(st, a[0] == 1 if isc(a[0]) else bv(a[0], 32) == 1, 'post', 'a new cursor starts at the first value of this record') and None

    def setup(ex, st):
        g['rec'] = Rec(ex, st)
        if n not in ALTS or null:
            return g['rec'].args
        val = g['val'] = Value(ex, st, 'value', n)
        if n in TEXT or n in ALTS[11:]:
            return [val.p] + g['rec'].args
        x = val.parts[0]
        return [x == 1 if n == 'bool' else x] + g['rec'].args

    def post(ex, st, out):
        r = g['rec']
        what = 'add_' + n if n in ALTS else n
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', what + ' does not throw')
            return
        seen = st.ghost.get('seen', ())
        added = st.ghost.get('added', ())
        errs = st.ghost.get('errors', ())
        ex.oblige(st, len(seen) == len(errs) == (2 if n == 'assign' else 1), 'post', what + ': observed')
        if n in ALTS:
            what += '_null' if null else ''
            ok = ex.oblige(st, len(added) == 1, 'post', what + ': appends one value')
            if len(added) != 1:
                return
            old, new, k, parts, text = added[0]
            ex.oblige(st, z3.And(old == r.id[0], seen[0][1] == new), 'post', what + ': appended to the values of the record')
            if null:
                ex.oblige(st, k == 'null', 'post', what + ': appends NULL')
            else:
                ex.oblige(st, k == n, 'post', what + ': appends a value of its type')
                if k == n:
                    for x, y in zip(parts, g['val'].parts):
                        ex.oblige(st, x == y, 'post', what + ': every part of the value')
                    if text:
                        wn, IN = g['val'].text
                        ex.oblige(st, text[0] == wn, 'post', what + ': length of the text')
                        j = z3.BitVec('j', 64)
                        ex.oblige(st, z3.Implies(z3.ULT(j, wn), bv(ex.mem.read(st, text[1], add64(text[2], j), 1), 8) == IN(j)), 'post', what + ': every byte of the text')
            same_error(ex, st, errs[0], r.err[0], what)
            return
        ex.oblige(st, len(added) == 0, 'post', what + ': appends nothing')
        if n == 'reset':
            ex.oblige(st, seen[0][1] == 0, 'post', 'reset: no values left')
            same_error(ex, st, errs[0], None, 'reset')
        elif n in ('cursor', 'set_error'):
            ex.oblige(st, seen[0][1] == r.id[0], 'post', n + ': values unchanged')
            same_error(ex, st, errs[0], r.err[0] if n == 'cursor' else (z3.BoolVal(True),) + r.err[1][1:], n)
        elif n == 'assign':
            ex.oblige(st, seen[0][1] == r.id[1], 'post', 'assign_from: takes all values')
            same_error(ex, st, errs[0], r.err[1], 'assign_from')
            ex.oblige(st, seen[1][1] == 0, 'post', 'assign_from: the source is empty')
            same_error(ex, st, errs[1], None, 'assign_from source')
    v.prove(('add_' if n in ALTS else '') + n + ('_null' if null else ''), ex, '^c_(add_)?%s%s$' % (n, '_null' if null else ''), setup, post)


# ---------------------------------------------------------------- streams
def queue_contracts(ex, g):
    """library contracts of the queue of records: (name, head, tail) of a sequence, kept in the first words of the object"""
    word = lambda st, p, i: bv(read_value(ex, st, p.add(8 * i), 8), 64)

    def init(ex, st, a, ins, d):
        for i in range(3):
            ex.wr(st, a[0].add(8 * i), 8, c64(0))
        return None
    on(ex, r'^%squeue<[^$]*>\(\)$' % QUEUE, init)
    on(ex, r'^%squeue\(\)$' % QUEUE, init)
    on(ex, r'^%s~queue\(\)$' % QUEUE, lambda ex, st, a, ins, d: None)
    on(ex, r'^%sempty\(\) const$' % QUEUE, lambda ex, st, a, ins, d: word(st, a[0], 1) == word(st, a[0], 2))
    on(ex, r'^%ssize\(\) const$' % QUEUE, lambda ex, st, a, ins, d: word(st, a[0], 2) - word(st, a[0], 1))

    def swap(ex, st, a, ins, d):
        x, y = [[word(st, p, i) for i in range(3)] for p in a[:2]]
        for i in range(3):
            ex.wr(st, a[0].add(8 * i), 8, y[i])
            ex.wr(st, a[1].add(8 * i), 8, x[i])
        return None
    on(ex, r'^%sswap\(' % QUEUE, swap)

    def move(ex, st, a, ins, d):
        for i in range(3):
            x = word(st, a[1], i)
            ex.wr(st, a[1].add(8 * i), 8, c64(0))
            ex.wr(st, a[0].add(8 * i), 8, x)
        return a[0] if ins.ty.kind != 'void' else None
    on(ex, r'^%s(operator=|queue)\(std::queue<[^$]*&&\)$' % QUEUE, move)

    def push(ex, st, a, ins, d):
        p = ex.rd(st, a[1], 8)
        ex.wr(st, a[1], 8, 0)
        t = word(st, a[0], 2)
        st.ghost['pushed'] = st.ghost.get('pushed', ()) + ((word(st, a[0], 0), t, p),)
        ex.wr(st, a[0].add(16), 8, t + 1)
        return None
    on(ex, r'^(?:[^$]* )?%s(push|emplace<[^$]*>)\(std::unique_ptr<[^$]*&&\)$' % QUEUE, push)

    def front(ex, st, a, ins, d):
        ex.oblige(st, word(st, a[0], 1) != word(st, a[0], 2), 'post', 'front of a nonempty queue')
        ex.oblige(st, not st.ghost.get('fronted') or not st.ghost.get('popped'), 'post', 'one record per call')
        st.ghost['fronted'] = True
        return g['slot']
    on(ex, r'^%sfront\(\)' % QUEUE, front)

    def pop(ex, st, a, ins, d):
        h = word(st, a[0], 1)
        g.setdefault('queues', {})[(a[0].rid, str(a[0].off))] = a[0]
        ex.oblige(st, h != word(st, a[0], 2), 'post', 'pop of a nonempty queue')
        st.ghost['popped'] = st.ghost.get('popped', 0) + 1
        ex.wr(st, a[0].add(8), 8, h + 1)
        return None
    on(ex, r'^%spop\(\)$' % QUEUE, pop)

    def cands(ex, st0, h, vs, hv):
        return [Cand('%d records left' % i, lambda s, q=q: z3.And(z3.ULE(word(s, q, 1), word(s, q, 2)), z3.ULE(word(s, q, 2), 1 << 40))) for i, q in enumerate(g.get('queues', {}).values())]
    ex.loop_cands = cands


def stream(v, mods, n):
    ex = v.executor(mods, unroll_sym=4)
    unsupported_vector(ex)
    g = {}
    observers(ex, g)
    queue_contracts(ex, g)
    fields = {'name': (0, 8), 'head': (8, 8), 'tail': (16, 8)}
    inv = lambda s: z3.And(z3.ULE(s['closed'], 1), z3.ULE(s['eos'], 1), z3.Implies(s['closed'] == 1, z3.And(s['eos'] == 1, s['head'] == s['tail'])), z3.ULE(s['head'], s['tail']))
    limit = lambda s: z3.ULE(s['tail'], 1 << 40)
    empty = lambda s: s['head'] == s['tail']
    mons = [Monitor(ex, 'stream%d' % i, list(fields) + ['closed', 'eos'], inv, limit) for i in range(2)]
    install(ex, mons, lambda s: z3.And(empty(s), s['eos'] == 0, s['closed'] == 0))
    ex.contracts['__dynamic_cast'] = lambda ex, st, a, ins, d: a[0]

    def share(ex, st, a, ins, d):
        which, mtx, cv, q, c, e = a
        fs = {k: (q.add(o), w) for k, (o, w) in fields.items()}
        fs.update(closed=(c, 1), eos=(e, 1))
        if which == 2 or (which == 1 and n == 'move'):
            m = Monitor(ex, 'x', list(fs), inv)
            m.fields = fs
            st.ghost['plain'] = m.read(st)
            return None
        mons[which].attach(st, mtx, cv, fs)
        return None

    def queued(ex, st, a, ins, d):
        st.ghost['queued'] = a[0]
        ex.wr(st, g['slot'], 8, a[0])
        return None

    def begin(ex, st, a, ins, d):
        st.ghost['begun'] = True
        return None

    def end(ex, st, a, ins, d):
        st.ghost['result'] = a[0]
        st.ghost['end'] = tuple(m.done(st) if m.key in st.ghost else None for m in mons)
        return None
    ex.contracts.update(monitored=share, queued=queued, begin_op=begin, end_op=end)

    def point(ex, st, a, ins, d):
        return None
    ex.contracts['observe_point'] = point

    def setup(ex, st):
        g['slot'] = Ptr(ex.new_region(st, 'slot', 8, 'heap', 8), 0)
        if n in ('fresh', 'close', 'end_of_stream', 'move', 'move_assign'):
            return []
        g['rec'] = Rec(ex, st)
        return ([z3.BitVec('ms', 64)] if n == 'next_for' else []) + g['rec'].args

    def unchanged(a, b):
        return z3.And(*[a[k] == b[k] for k in a])

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', n + ' does not throw')
            return
        if n == 'fresh':
            p = st.ghost['plain']
            ex.oblige(st, z3.And(empty(p), p['closed'] == 0, p['eos'] == 0), 'post', 'a new stream is open and empty')
            return
        if 'end' not in st.ghost:
            ex.oblige(st, False, 'post', n + ': completed')
            return
        steps, notes = st.ghost['end'][0]
        nwait = len(st.ghost['stream0']['waits'])
        ok = len(steps) == 1 + nwait
        ex.oblige(st, ok, 'post', n + ': one atomic step')
        if not ok:
            return
        for a, b in steps[:-1]:
            ex.oblige(st, unchanged(a, b), 'post', n + ': nothing changes before a sleep')
        pre, fin = steps[-1]
        woken = lambda kinds: any(k in kinds and (at >= len(steps) or held) for k, at, held in notes)
        if n == 'push':
            shut = z3.Or(pre['closed'] == 1, pre['eos'] == 1)
            grown = z3.And(fin['name'] == pre['name'], fin['head'] == pre['head'], fin['tail'] == pre['tail'] + 1, fin['closed'] == pre['closed'], fin['eos'] == pre['eos'])
            ex.oblige(st, z3.If(shut, unchanged(pre, fin), grown), 'post', 'push appends the record to an open stream and drops it otherwise')
            pushed = st.ghost.get('pushed', ())
            if ex.may(st, z3.Not(shut)):
                good = len(pushed) == 1 and isinstance(pushed[0][2], Ptr) and pushed[0][2].rid == st.ghost['queued'].rid
                ex.oblige(st, z3.Or(shut, z3.And(good, z3.And(pushed[0][1] == pre['tail'], pushed[0][0] == pre['name']) if good else False)), 'post', 'push: the record given, at the end of the queue')
                ex.oblige(st, z3.Or(shut, woken(('one', 'all'))), 'post', 'push wakes a reader')
            return
        if n == 'end_of_stream':
            ex.oblige(st, z3.And(fin['eos'] == 1, fin['closed'] == pre['closed'], *[fin[k] == pre[k] for k in fields]), 'post', 'end_of_stream: what is queued stays readable')
            ex.oblige(st, woken(('all',)), 'post', 'end_of_stream wakes all readers')
            return
        if n == 'close':
            ex.oblige(st, z3.And(fin['eos'] == 1, fin['closed'] == 1, empty(fin)), 'post', 'close empties and ends the stream')
            ex.oblige(st, woken(('all',)), 'post', 'close wakes all readers')
            return
        if n in ('move', 'move_assign'):
            ex.oblige(st, z3.And(fin['eos'] == 1, fin['closed'] == 1, empty(fin)), 'post', 'a moved-from stream is closed')
            ex.oblige(st, woken(('all',)), 'post', 'readers of a moved-from stream are woken')
            new = st.ghost['plain'] if n == 'move' else st.ghost['end'][1][0][-1][1]
            ex.oblige(st, z3.And(*[new[k] == pre[k] for k in pre]), 'post', 'the new stream continues with the same records')
            if n == 'move_assign':
                steps1, notes1 = st.ghost['end'][1]
                idle = lambda s: z3.And(empty(s), s['eos'] == 0, s['closed'] == 0)
                told = any(k == 'all' and (at >= len(steps1) or held) for k, at, held in notes1)
                ex.oblige(st, z3.Or(told, idle(new), z3.Not(idle(steps1[-1][0]))), 'post', 'readers waiting on the assigned stream are woken when it gets something to read')
            return
        res = st.ghost['result']
        res = bv(res, 32)
        r = g['rec']
        some = z3.Not(empty(pre))
        ended = z3.And(empty(pre), pre['eos'] == 1)
        nothing = z3.And(empty(pre), pre['eos'] == 0)
        popped = z3.And(fin['name'] == pre['name'], fin['head'] == pre['head'] + 1, fin['tail'] == pre['tail'], fin['closed'] == pre['closed'], fin['eos'] == pre['eos'])
        ex.oblige(st, z3.If(some, popped, unchanged(pre, fin)), 'post', n + ': takes exactly the oldest record')
        ex.oblige(st, z3.Implies(some, res == z3.If(r.err[1][0], z3.BitVecVal(ERROR, 32), z3.BitVecVal(OK, 32))), 'post', n + ': ok, or error for an erroneous record')
        ex.oblige(st, z3.Implies(ended, res == END), 'post', n + ': end of stream only when everything was read')
        if n == 'next':
            ex.oblige(st, z3.Not(nothing), 'post', 'next without a time limit returns only with a record or at the end')
        else:
            ex.oblige(st, z3.Implies(nothing, res == NOT_READY), 'post', n + ': not ready when nothing is there yet')
        seen, errs = st.ghost.get('seen', ()), st.ghost.get('errors', ())
        if not ex.oblige(st, len(seen) == 1 and len(errs) == 1, 'post', n + ': observed'):
            return
        ex.oblige(st, seen[0][1] == z3.If(some, r.id[1], r.id[0]), 'post', n + ': the values of that record, otherwise the caller\'s record is not touched')
        same_error(ex, st, errs[0], r.err[1], n, some)
        same_error(ex, st, errs[0], r.err[0], n + ' (no record)', z3.Not(some))
    v.prove('stream ' + n, ex, '^c_%s$' % n, setup, post)
