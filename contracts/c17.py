"""C17: LIKE"""
from irvc.harness import *
from irvc.spec import *
from .c01 import step_len
from .c11 import on, read_value
from .c12 import UNITS, CLIENT, Node_, kinds, executor, library, Uf, read_any, recorded, INVALID_INPUT, UNSUPPORTED
NATIVE = {'driver': 'c17.cpp', 'units': UNITS + ['src/jogasaki/memory/lifo_paged_memory_resource.cpp', 'src/jogasaki/memory/details/page_allocation_info.cpp', 'src/jogasaki/utils/utf8_utils.cpp'], 'shims': 'sql', 'libs': ['-Wl,--unresolved-symbols=ignore-all', '-ltbb']}
ASSUMPTIONS = ['std::vector<token>, std::string, std::equal: the standard containers and algorithms (their contracts are assumed)',
               'operand evaluation (takatori::scalar::dispatch): returns an arbitrary value or error',
               'induction over the positions of the input, over the characters of a literal and over the bytes of the pattern: the steps are proved, the principle is used']
F = z3.Function
BOOL = z3.BoolSort()
DET = r'jogasaki::executor::expr::details::'
TOK = DET + 'token'
LITERAL, ANY, ONE = 0, 1, 2
ENC = {1: 0, 2: 1, 3: 2, 4: 3, 0: 4}


def run(v):
    mods = v.modules(UNITS + [CLIENT], shims='sql')
    k = kinds(v, mods)
    v.parallel([lambda: matching(v, mods), lambda: searching(v), lambda: characters(v), lambda: tokens(v, mods), lambda: trailing(v, mods), lambda: single(v, mods), lambda: predicate(v, mods, k)])


class Input:
    """a text of whole characters; M(i, p): the text from i on matches the tokens from p on; E(i, p): some suffix of it does"""

    def __init__(self):
        self.n, self.T = z3.BitVec('input_size', 64), z3.BitVec('tokens', 64)
        self.B, self.CS = F('BEGINS', BV64, BOOL), F('CHARACTER', BV64, BV64)
        self.KIND, self.LEN, self.LIT, self.AT = F('KIND', BV64, z3.BitVecSort(32)), F('LENGTH', BV64, BV64), F('LITERAL_AT', BV64, BV64, BOOL), F('LITERAL_OFFSET', BV64, BV64)
        self.M, self.E = F('MATCHES', BV64, BV64, BOOL), F('SUFFIX_MATCHES', BV64, BV64, BOOL)

    def base(self):
        n, T = self.n, self.T
        return [z3.ULE(n, 1 << 40), z3.ULE(T, 1 << 40), self.B(n), self.B(0)]

    def char(self, i):
        """valid UTF-8: a character begins at 0; where one begins its size is 1 to 4, the next one or the end follows, and none begins within it"""
        n, B, c = self.n, self.B, self.CS(i)
        whole = [z3.ULE(1, c), z3.ULE(c, 4), z3.ULE(i + c, n), B(i + c)] + [z3.Implies(z3.ULT(k, c), z3.Not(B(i + k))) for k in (1, 2, 3)]
        return z3.Implies(z3.ULT(i, n), z3.If(B(i), z3.And(*whole), c == 0))

    def token(self, p):
        k = self.KIND(p)
        one = [z3.ULE(k, 2), z3.Implies(k == LITERAL, z3.And(z3.ULE(1, self.LEN(p)), z3.ULE(self.LEN(p), 1 << 40), z3.ULE(self.AT(p), 1 << 60)))]
        return z3.Implies(z3.ULT(p, self.T), z3.And(*one, z3.Implies(z3.And(k == ANY, z3.ULT(p + 1, self.T)), self.KIND(p + 1) != ANY)))

    def literal(self, i, p):
        """a literal of whole characters: found only where a character begins, and ends where one ends"""
        m = self.LEN(p)
        return z3.Implies(z3.And(z3.ULT(p, self.T), self.KIND(p) == LITERAL, self.LIT(i, p)), z3.And(z3.ULE(i, self.n), z3.ULE(m, self.n - i), self.B(i), self.B(i + m)))

    def unfold_M(self, i, p):
        n, T, M, k = self.n, self.T, self.M, self.KIND(p)
        m, c = self.LEN(p), self.CS(i)
        rest = z3.If(p == T, i == n, z3.If(k == LITERAL, z3.And(self.LIT(i, p), M(i + m, p + 1)), z3.If(k == ONE, z3.And(z3.ULT(i, n), M(i + c, p + 1)), self.E(i, p + 1))))
        return M(i, p) == z3.And(self.B(i), z3.ULE(i, n), z3.ULE(p, T), rest)

    def unfold_E(self, i, p):
        return self.E(i, p) == z3.And(z3.ULE(i, self.n), z3.Or(self.M(i, p), self.E(i + 1, p)))

    # what follows by induction over the position in the text; the steps are proved in searching()
    def any_again(self, i, p):
        return z3.Implies(z3.And(self.KIND(p) == ANY, z3.ULT(p, self.T), self.E(i, p)), self.E(i, p + 1))

    def after_literal(self, i, p):
        return z3.Implies(z3.And(self.KIND(p) == LITERAL, z3.ULT(p, self.T), self.E(i, p)), self.E(i + self.LEN(p), p + 1))

    def later_one(self, i, p):
        return z3.Implies(z3.And(self.KIND(p) == ONE, z3.ULT(p, self.T), self.E(i, p)), self.E(i, p + 1))

    def after_one(self, i, p):
        return z3.Implies(z3.And(self.KIND(p) == ONE, z3.ULT(p, self.T), z3.ULT(i, self.n), self.B(i), self.E(i, p)), self.E(i + self.CS(i), p + 1))


def searching(v):
    w = Input()
    i, p = z3.BitVec('i', 64), z3.BitVec('p', 64)
    facts = w.base() + [z3.ULE(i, w.n), z3.ULT(p, w.T), w.char(i), w.token(p), w.literal(i, p), w.unfold_M(i, p), w.unfold_E(i, p)]
    q = p + 1
    end = [z3.Not(w.E(w.n + 1, k)) for k in (p, q)]
    v.lemma('beyond the text nothing matches', z3.Not(w.E(w.n + 1, p)), w.base() + [w.unfold_E(w.n + 1, p)])
    v.lemma('% before % changes nothing', w.any_again(i, p), facts + end + [w.any_again(i + 1, p), w.unfold_E(i, q)])
    m, c = w.LEN(p), w.CS(i)
    v.lemma('what follows a literal is found behind it', w.after_literal(i, p), facts + end + [w.after_literal(i + 1, p), w.unfold_E(i + m, q), w.unfold_E(i + m + 1, q)])
    v.lemma('what follows _ is found behind a character', w.later_one(i, p), facts + end + [w.later_one(i + 1, p)] + [w.unfold_E(i + k, q) for k in range(5)])
    v.lemma('what follows _ is found behind this character', w.after_one(i, p), facts + end + [w.later_one(i + k, p) for k in range(5)] + [w.unfold_E(i + k, p) for k in range(1, 4)] + [w.unfold_M(i + k, p) for k in range(1, 4)] + [w.unfold_E(i + k, q) for k in range(5)])


def characters(v):
    """what valid UTF-8 (C01) says about the places where a character begins"""
    IN, LB = F('BYTES_IN', BV64, BV8), F('BYTES_LITERAL', BV64, BV8)
    n, m, i, o = [z3.BitVec(k, 64) for k in ('n', 'm', 'i', 'o')]
    c = step_len(IN, n, i)
    small = [z3.ULE(n, 1 << 40), z3.ULE(i, n)]
    v.lemma('a character ends within the text', z3.And(z3.ULE(c, 4), z3.ULE(i + c, n)), small)
    v.lemma('no character begins within another', z3.And(*[z3.Implies(z3.ULT(k, c), step_len(IN, n, i + k) == 0) for k in (1, 2, 3)]), small)
    same = [z3.Implies(z3.ULT(o + k, m), IN(i + o + k) == LB(o + k)) for k in range(4)]
    d = step_len(LB, m, o)
    v.lemma('the characters of a literal are characters of the text it is found in', z3.Implies(d != 0, step_len(IN, n, i + o) == d), small + same + [z3.ULE(m, n - i), z3.ULE(o, m)])
    b = IN(i)
    v.lemma('ASCII characters have one byte', z3.Implies(z3.And(z3.ULT(i, n), z3.ULT(b, 128)), c == 1), small)


def encoding(ex, w, where):
    """contract of detect_next_encoding (C01)"""
    def h(ex, st, a, ins, d):
        n, p, o = bv(a[0], 64), a[1], bv(a[2], 64)
        ex.oblige(st, z3.And(p.rid == where(), bv(p.off, 64) + n == w.n) if isinstance(p, Ptr) else False, 'post', 'the text is searched for characters')
        i = bv(p.off, 64) + o
        st.pc.append(w.char(i))
        c = z3.If(z3.ULT(i, w.n), w.CS(i), c64(0))
        return Fork([(c == k, lambda s, e=e: e) for k, e in ENC.items()])
    on(ex, r'^jogasaki::utils::detect_next_encoding\(', h)


def matching(v, mods):
    ex = v.executor(mods, unroll_sym=2, unroll_symbacks=3)
    w = Input()
    g = {}
    encoding(ex, w, lambda: g['in'])
    tok = lambda p: z3.LShR(bv(p.off, 64), 6)

    def element(ex, st, a, ins, d):
        i = bv(a[1], 64)
        ex.oblige(st, z3.ULT(i, w.T), 'post', 'an existing token is read')
        st.pc += [z3.ULT(i, w.T), w.token(i)]
        return Ptr(g['toks'], i << 6)
    VT = r'^std::vector<%s, [^$]*?>>::' % TOK
    on(ex, VT + r'(operator\[\]|at)\(', element)
    on(ex, VT + r'size\(\)', lambda ex, st, a, ins, d: w.T)
    on(ex, VT + r'empty\(\)', lambda ex, st, a, ins, d: w.T == 0)
    on(ex, '^' + TOK + r'::get_kind\(\)', lambda ex, st, a, ins, d: w.KIND(tok(a[0])))

    def value(ex, st, a, ins, d):
        p = tok(a[0])
        s = Ptr(ex.new_region(st, 'value', 32, 'heap', 8), 0)
        ex.oblige(st, w.KIND(p) == LITERAL, 'post', 'only a literal has a text')
        ex.wr(st, s, 8, Ptr(g['lits'], w.AT(p)))
        ex.wr(st, s.add(8), 8, w.LEN(p))
        st.ghost['token'] = p
        return s
    on(ex, '^' + TOK + r'::get_value', value)

    def memcmp(ex, st, a, ins, d):
        x, y, n = a[0], a[1], bv(a[2], 64)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.rid == g['lits']:
            x, y = y, x
        if 'token' not in st.ghost or not (isinstance(x, Ptr) and isinstance(y, Ptr) and x.rid == g['in'] and y.rid == g['lits']):
            raise Unsupported('comparison of other texts')
        p, i = st.ghost['token'], bv(x.off, 64)
        ex.oblige(st, z3.And(bv(y.off, 64) == w.AT(p), z3.ULE(n, w.LEN(p)), z3.ULE(i, w.n), z3.ULE(n, w.n - i)), 'post', 'the literal is compared, within the text')
        st.pc.append(w.literal(i, p))
        return z3.If(n == w.LEN(p), z3.If(w.LIT(i, p), z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)), ex.fresh('beginning', 32))
    for nm in ('memcmp', 'bcmp'):
        ex.contracts[nm] = memcmp

    roles = {}
    names = lambda vs: tuple(sorted(str(x) for x in vs if x.kind == 'int' and x.width == 64))

    def assign(h, vs):
        """which loop variables are the position, the token and the two of the last %: by their values before the loop"""
        xs = [x for x in vs if x.kind == 'int' and x.width == 64]
        out = []
        for i in xs:
            for p in xs:
                if i is p:
                    continue
                for bi in xs:
                    for bp in xs:
                        if len({str(k) for k in (i, p, bi, bp)}) == 4:
                            out.append((i, p, bi, bp))
        return out

    NPOS = z3.BitVecVal(-1, 64)

    def inv(s, r):
        i, p, bi, bp = [bv(x.get(s), 64) for x in r]
        n, T = w.n, w.T
        bt = bp != NPOS
        fresh_ = z3.And(bt, i == bi, p == bp + 1)
        return [w.M(0, 0) == z3.Or(z3.And(z3.ULE(i, n), w.M(i, p)), z3.And(bt, w.E(bi + 1, bp + 1))),
                      z3.Implies(bt, z3.And(z3.ULE(bi, n + 1), z3.ULT(bp, T), w.KIND(bp) == ANY, z3.ULE(bp + 1, p), z3.ULE(bi, i))),
                      z3.ULE(i, n + 1), z3.ULE(p, T),
                      z3.Implies(i == n + 1, z3.And(fresh_, z3.ULT(p, T))),
                      z3.Or(fresh_, w.B(i)),
                      z3.Implies(z3.And(bt, w.E(bi + 1, bp + 1)), z3.Or(w.E(i, p), i == n + 1))]

    start = lambda st0, r: all(ex.must(st0, bv(x.get(st0), 64) == k) for x, k in zip(r, (0, 0, -1, -1)))

    def cands(ex, st0, h, vs, hv):
        key = names(vs)
        roles[key] = [tuple(map(str, r)) for r in assign(h, vs) if start(st0, r)]
        by = {str(x): x for x in vs}
        return [Cand('%s %s' % (nm, r), lambda s, r=r, k=k: inv(s, [by[x] for x in r])[k]) for r in roles[key] for k, nm in enumerate(('matches from here or later', 'last %', 'within the text', 'within the pattern', 'beyond the text', 'at a character', 'no earlier % needed'))]

    def axioms(ex, h, vs):
        by = {str(x): x for x in vs}
        fs = []
        for r in roles.get(names(vs), ()):
            i, p, bi, bp = [bv(by[k].get(h), 64) for k in r]
            fs += [w.token(p), w.token(bp), w.char(i), w.literal(i, p), w.unfold_M(i, p), w.unfold_E(i, p + 1), w.unfold_E(bi + 1, bp + 1),
                   w.any_again(i, p), w.after_literal(i, p), w.after_one(i, p), w.unfold_E(w.n + 1, bp + 1), w.unfold_E(w.n + 2, bp + 1)]
        h.facts += tuple(fs)

    def measures(ex, vs):
        by = {str(x): x for x in vs}
        up = lambda k: (lambda s: ~(bv(by[k].get(s), 64) + 1))
        return [('last %%, its place, token: %s' % (r,), [up(r[3]), up(r[2]), up(r[1])]) for r in roles.get(names(vs), ())]
    ex.loop_cands, ex.loop_axioms, ex.loop_measures = cands, axioms, measures

    def setup(ex, st):
        g['in'] = ex.new_region(st, 'input', w.n, 'heap', 1, Content({}, Node('fn', aux=F('INPUT', BV64, BV8))), ro=True)
        g['lits'] = ex.new_region(st, 'literals', 1 << 62, 'strbuf', 1)
        g['toks'] = ex.new_region(st, 'tokens', 1 << 50, 'heap', 8, ro=True)
        vec = Ptr(ex.new_region(st, 'pattern', 24, 'heap', 8), 0)
        st.pc += w.base()
        st.facts += (w.unfold_M(c64(0), c64(0)),)
        return [w.n, Ptr(g['in'], 0), vec]

    def post(ex, st, out):
        ex.oblige(st, boolv(out[1]) == w.M(0, 0) if out[0] == 'ret' else False, 'post', 'true exactly if the text matches the pattern')
    v.prove('match of a text', ex, '^' + DET + 'match_like_pattern', setup, post)


def text(ex, st, nm, n):
    return Ptr(ex.new_region(st, nm, n, 'heap', 1, Content({}, Node('fn', aux=F(nm.upper(), BV64, BV8))), ro=True), 0)


def escape_at(ex, w, g, at):
    """comparison of a part of the pattern with the escape character"""
    def memcmp(ex, st, a, ins, d):
        x, y, n = a[0], a[1], bv(a[2], 64)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.rid == g['esc'].rid:
            x, y = y, x
        if not (isinstance(x, Ptr) and isinstance(y, Ptr) and x.rid == g['in'] and y.rid == g['esc'].rid):
            raise Unsupported('comparison of other texts')
        i = bv(x.off, 64)
        ex.oblige(st, z3.And(bv(y.off, 64) == 0, n == w.e, z3.ULE(i, w.n), z3.ULE(n, w.n - i)), 'post', 'the whole escape character is compared, within the pattern')
        return z3.If(at(i), z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))
    for nm in ('memcmp', 'bcmp'):
        ex.contracts[nm] = memcmp


CELLS = ('d', 'open', 'moved', 'count', 'last', 'prev')
STRING = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'
VT = r'std::vector<%s, [^$]*?>>::' % TOK


def tokens(v, mods):
    """the tokens made of a pattern mean what the pattern means, item by item: a literal byte, %, or _ appended to what came before"""
    ex = executor(v, mods, unroll_sym=6, unroll_symbacks=8)
    w = Input()
    w.e = z3.BitVec('escape_size', 64)
    g = {}
    SP, LB, AN, ON = F('MEANING', BV64, BV64), F('THEN_BYTE', BV64, BV8, BV64), F('THEN_ANY', BV64, BV64), F('THEN_ONE', BV64, BV64)
    START, ESC, PAT = F('ITEM_BEGINS', BV64, BOOL), F('ESCAPE_AT', BV64, BOOL), F('INPUT', BV64, BV8)
    get = lambda st, k: bv(ex.rd(st, g['log'].add(8 * CELLS.index(k)), 8), 64)
    put = lambda st, k, x: ex.wr(st, g['log'].add(8 * CELLS.index(k)), 8, x)
    encoding(ex, w, lambda: g['in'])
    escape_at(ex, w, g, ESC)

    def chain(i):
        """the meaning of a pattern from one item to the next"""
        m, e = w.n, w.e
        esc = z3.And(e != 0, z3.ULE(i, m), z3.ULE(e, m - i), ESC(i))
        def char(j, first):
            c = z3.If(z3.ULT(j, m), w.CS(j), c64(0))
            return z3.And(SP(j) == first, START(j + c), w.B(j), z3.ULE(j + c, m), w.B(j + c), *[z3.Implies(z3.ULT(k, c), SP(j + k + 1) == LB(SP(j + k), PAT(j + k))) for k in range(4)])
        one = lambda f: z3.And(SP(i + 1) == f(SP(i)), START(i + 1))
        item = z3.If(esc, z3.And(w.B(i + e), w.char(i + e), char(i + e, SP(i))), z3.If(PAT(i) == ord('%'), one(AN), z3.If(PAT(i) == ord('_'), one(ON), char(i, SP(i)))))
        ascii = z3.Implies(z3.ULT(PAT(i), 128), w.CS(i) == 1)
        return z3.Implies(z3.And(START(i), z3.ULT(i, m)), z3.And(w.B(i), w.char(i), ascii, item))

    # the text gathered for the next literal
    def theirs(st, p):
        if not isinstance(p, Ptr) or g.setdefault('buffer', str(p)) != str(p):
            raise Unsupported('another string')

    def push(ex, st, a, ins, d):
        theirs(st, a[0])
        ex.oblige(st, get(st, 'moved') == 0, 'post', 'a string is not used after it was moved from')
        put(st, 'd', LB(get(st, 'd'), bv(a[1], 8)))
        put(st, 'open', get(st, 'open') + 1)
        st.pc.append(z3.ULT(get(st, 'open'), 1 << 41))
        return a[0] if ins.ty.kind != 'void' else None
    on(ex, '^' + STRING + r'(operator\+=|push_back)\(char\)', push)

    def append(ex, st, a, ins, d):
        theirs(st, a[0])
        p, n = a[1], bv(a[2], 64)
        ok = isinstance(p, Ptr) and p.rid == g['in']
        i = bv(p.off, 64) if ok else c64(0)
        ex.oblige(st, z3.And(get(st, 'moved') == 0, w.B(i), n == w.CS(i), z3.ULT(i, w.n)) if ok else False, 'post', 'a character of the pattern is appended')
        x = get(st, 'd')
        for k in range(4):
            x = z3.If(z3.ULT(k, n), LB(x, PAT(i + k)), x)
        put(st, 'd', x)
        put(st, 'open', get(st, 'open') + n)
        st.pc.append(z3.ULT(get(st, 'open'), 1 << 41))
        return a[0]
    on(ex, '^' + STRING + r'append\(char const\*, unsigned long\)', append)

    def clear(ex, st, a, ins, d):
        theirs(st, a[0])
        ex.oblige(st, get(st, 'open') == 0, 'post', 'no gathered text is dropped')
        put(st, 'moved', 0)
    on(ex, '^' + STRING + r'clear\(\)', clear)

    def size(ex, st, a, ins, d):
        theirs(st, a[0])
        n = z3.If(get(st, 'moved') == 0, get(st, 'open'), ex.fresh('unspecified', 64))
        return n == 0 if 'empty' in d else n
    on(ex, '^' + STRING + r'(empty|size|length)\(\)', size)

    # the list of tokens
    def result(st, p):
        if not isinstance(p, Ptr) or g.setdefault('vector', str(p)) != str(p):
            raise Unsupported('another list of tokens')

    def made(ex, st, a, ins, d):
        result(st, a[0])
        for i in range(3):
            ex.wr(st, a[0].add(8 * i), 8, 0)
    on(ex, '^' + VT + r'vector\(\)', made)
    on(ex, '^' + VT + r'~vector\(\)', lambda ex, st, a, ins, d: None)
    on(ex, '^' + VT + r'reserve\(', lambda ex, st, a, ins, d: None)
    on(ex, '^' + VT + r'empty\(\)', lambda ex, st, a, ins, d: (result(st, a[0]), get(st, 'count') == 0)[1])
    on(ex, '^' + VT + r'size\(\)', lambda ex, st, a, ins, d: (result(st, a[0]), get(st, 'count'))[1])

    def back(ex, st, a, ins, d):
        result(st, a[0])
        ex.oblige(st, get(st, 'count') != 0, 'post', 'the last token exists')
        return Ptr(g['token'], 0)
    on(ex, '^' + VT + r'back\(\)', back)

    def kind(ex, st, a, ins, d):
        ex.oblige(st, a[0].rid == g['token'] if isinstance(a[0], Ptr) else False, 'post', 'the last token is looked at')
        return z3.Extract(31, 0, get(st, 'last'))
    on(ex, '^' + TOK + r'::get_kind\(\)', kind)

    def add(ex, st, a, ins, d):
        result(st, a[0])
        k = bv(ex.rd(st, a[1], 4), 32)

        def literal(s):
            theirs(s, a[2])
            ex.oblige(s, z3.And(get(s, 'moved') == 0, get(s, 'open') != 0), 'post', 'a literal has a text')
            put(s, 'open', 0)
            if 'basic_string' in d.split('emplace_back<')[1].split('>(')[0] and 'basic_string<char, std::char_traits<char>, std::allocator<char>>&' not in d.split('emplace_back<')[1].split('>(')[0]:
                put(s, 'moved', 1)

        def wildcard(s):
            ex.oblige(s, get(s, 'open') == 0, 'post', 'the text gathered goes before the wildcard')
            ex.oblige(s, z3.Not(z3.And(k == ANY, get(s, 'count') != 0, get(s, 'last') == ANY)), 'post', 'no % directly after %')
            put(s, 'prev', get(s, 'd'))
            put(s, 'd', z3.If(k == ANY, AN(get(s, 'd')), ON(get(s, 'd'))))

        def done(s, f):
            f(s)
            put(s, 'last', z3.ZeroExt(32, k))
            put(s, 'count', get(s, 'count') + 1)
            s.pc.append(z3.ULT(get(s, 'count'), 1 << 41))
            return Ptr(g['token'], 0) if ins.ty.kind != 'void' else None
        return Fork([(k == LITERAL, lambda s: done(s, literal)), (k != LITERAL, lambda s: done(s, wildcard))])
    on(ex, r'^(?:[^$(]* )?' + VT + r'(emplace_back)<', add)

    def cands(ex, st0, h, vs, hv):
        out = []
        for x in vs:
            if x.kind == 'int' and x.width == 64 and 'log' not in str(x):
                o = lambda s, x=x: bv(x.get(s), 64)
                out.append(Cand('item at %s' % x, lambda s, o=o: z3.And(START(o(s)), z3.ULE(o(s), w.n), w.B(o(s)))))
                out.append(Cand('meaning up to %s' % x, lambda s, o=o: get(s, 'd') == SP(o(s))))
        out.append(Cand('not moved', lambda s: get(s, 'moved') == 0))
        out.append(Cand('kind', lambda s: z3.ULE(get(s, 'last'), 2)))
        out.append(Cand('sizes', lambda s: z3.And(z3.ULT(get(s, 'open'), 1 << 41), z3.ULT(get(s, 'count'), 1 << 41))))
        out.append(Cand('after %', lambda s: z3.Implies(z3.And(get(s, 'count') != 0, get(s, 'last') == ANY, get(s, 'open') == 0), get(s, 'd') == AN(get(s, 'prev')))))
        return out

    def axioms(ex, h, vs):
        h.facts += tuple([chain(bv(x.get(h), 64)) for x in vs if x.kind == 'int' and x.width == 64 and 'log' not in str(x)] + [AN(AN(get(h, 'prev'))) == AN(get(h, 'prev'))])
    ex.loop_cands, ex.loop_axioms = cands, axioms

    def setup(ex, st):
        g['in'] = text(ex, st, 'input', w.n).rid
        g['esc'] = text(ex, st, 'escape', w.e)
        g['token'] = ex.new_region(st, 'last_token', 40, 'heap', 8)
        g['log'] = Ptr(ex.new_region(st, 'log', 64, 'heap', 8), 0)
        for k in CELLS:
            put(st, k, 0)
        put(st, 'd', SP(c64(0)))
        st.pc += w.base() + [z3.ULE(w.e, 4), START(0)]
        g['out'] = Ptr(ex.new_region(st, 'out', 24, 'heap', 8), 0)
        g['vector'] = str(g['out'])
        return [g['out'], w.n, Ptr(g['in'], 0), w.e, g['esc']]

    def post(ex, st, out):
        ex.oblige(st, z3.And(get(st, 'd') == SP(w.n), get(st, 'open') == 0) if out[0] == 'ret' else False, 'post', 'the tokens mean what the pattern means')
    v.prove('tokens of a pattern', ex, '^' + DET + 'tokenize_like_pattern', setup, post)


def trailing(v, mods):
    ex = executor(v, mods, unroll_sym=2, unroll_symbacks=3)
    w = Input()
    w.e = z3.BitVec('escape_size', 64)
    g = {}
    ESC, RUN = F('ESCAPE_AT', BV64, BOOL), F('ESCAPES_BEFORE', BV64, BV64)
    escape_at(ex, w, g, ESC)
    run = lambda k: z3.And(RUN(k) == z3.If(z3.And(z3.ULE(w.e, k), ESC(k - w.e)), RUN(k - w.e) + 1, c64(0)), z3.ULE(RUN(k), k))

    def cands(ex, st0, h, vs, hv):
        xs = [x for x in vs if x.kind == 'int' and x.width == 64]
        out = []
        for x in xs:
            o = lambda s, x=x: bv(x.get(s), 64)
            out.append(Cand('%s within' % x, lambda s, o=o: z3.ULE(o(s), w.n)))
            for y in xs:
                if y is not x:
                    for k in (0, 1):
                        out.append(Cand('%s + %d counted before %s' % (y, k, x), lambda s, o=o, y=y, k=k: RUN(w.n) == RUN(o(s)) + bv(y.get(s), 64) + k))
            for y in [y for y in vs if y.kind == 'int' and y.width in (1, 8)]:
                for k in (0, 1):
                    out.append(Cand('%s: odd' % y, lambda s, o=o, y=y, k=k: z3.Extract(0, 0, RUN(w.n)) == z3.Extract(0, 0, RUN(o(s)) + k) ^ z3.Extract(0, 0, bv(y.get(s), y.width))))
        return out

    def axioms(ex, h, vs):
        h.facts += tuple(run(bv(x.get(h), 64)) for x in vs if x.kind == 'int' and x.width == 64)
    ex.loop_cands, ex.loop_axioms = cands, axioms

    def setup(ex, st):
        g['in'] = text(ex, st, 'input', w.n).rid
        g['esc'] = text(ex, st, 'escape', w.e)
        st.pc += w.base() + [z3.ULE(w.e, 4)]
        st.facts += (z3.Implies(w.e != 0, run(w.n)),)
        return [w.n, Ptr(g['in'], 0), w.e, g['esc']]

    def post(ex, st, out):
        ex.oblige(st, boolv(out[1]) == z3.And(w.e != 0, z3.Extract(0, 0, RUN(w.n)) == 1) if out[0] == 'ret' else False, 'post', 'true exactly if the pattern ends with an odd number of escape characters')
    v.prove('escape at the end', ex, '^' + DET + 'has_unescaped_trailing_escape', setup, post)


def single(v, mods):
    ex = executor(v, mods)
    w = Input()
    g = {}

    def h(ex, st, a, ins, d):
        ex.oblige(st, z3.And(bv(a[0], 64) == w.n, a[1].rid == g['in'], bv(a[1].off, 64) == 0, bv(a[2], 64) == 0) if isinstance(a[1], Ptr) else False, 'post', 'the first character is looked at')
        c = z3.If(w.n == 0, c64(0), w.CS(0))
        st.pc.append(z3.ULE(c, 4))
        return Fork([(c == k, lambda s, e=e: e) for k, e in ENC.items()])
    on(ex, r'^jogasaki::utils::detect_next_encoding\(', h)

    def setup(ex, st):
        g['in'] = text(ex, st, 'input', w.n).rid
        st.pc += [z3.ULE(w.n, 1 << 40), w.n != 0]
        return [w.n, Ptr(g['in'], 0)]
    v.prove('one character', ex, '^' + DET + 'is_single_utf8_character', setup,
            lambda ex, st, out: ex.oblige(st, boolv(out[1]) == (w.CS(0) == w.n) if out[0] == 'ret' else False, 'post', 'true exactly for one valid character and nothing else'))


def predicate(v, mods, k):
    ex = executor(v, mods)
    T, S = z3.BitVecSort(128), BV64
    ID, SIZE = F('TEXT_BYTES', T, S), F('TEXT_SIZE', T, S)
    VALID, SINGLE, TRAIL, MATCH, SAME = F('VALID_UTF8', S, S, BOOL), F('ONE_CHARACTER', S, S, BOOL), F('ODD_ESCAPES', S, S, S, S, BOOL), F('TEXT_MATCHES', S, S, S, S, S, S, BOOL), F('SAME_BYTES', S, S, S, BOOL)
    g = {}
    view = lambda a, i: (bv(a[i], 64), bv(a[i + 1].off, 64) if isinstance(a[i + 1], Ptr) else bv(a[i + 1], 64))
    texts = lambda st, p: read_value(ex, st, p, 16)

    def sized(st, t):
        st.pc.append(z3.And(z3.ULE(SIZE(t), 1 << 40), z3.ULE(ID(t), 1 << 60)))
        return SIZE(t)
    TXT = r'^jogasaki::accessor::text::'
    on(ex, TXT + r'operator std::basic_string_view<', lambda ex, st, a, ins, d: (sized(st, texts(st, a[0])), Ptr(g['bytes'], ID(texts(st, a[0])))))
    on(ex, TXT + r'empty\(\)', lambda ex, st, a, ins, d: sized(st, texts(st, a[0])) == 0)
    on(ex, TXT + r'(size|length)\(\)', lambda ex, st, a, ins, d: sized(st, texts(st, a[0])))
    on(ex, r'^jogasaki::utils::is_valid_utf8\(', lambda ex, st, a, ins, d: VALID(*view(a, 0)))

    def single_(ex, st, a, ins, d):
        ex.oblige(st, bv(a[0], 64) != 0, 'post', 'a text which is not empty is asked for')
        return SINGLE(*view(a, 0))
    on(ex, '^' + DET + r'is_single_utf8_character\(', single_)
    on(ex, '^' + DET + r'has_unescaped_trailing_escape\(', lambda ex, st, a, ins, d: TRAIL(*view(a, 0), *view(a, 2)))

    def memcmp(ex, st, a, ins, d):
        return z3.If(SAME(bv(a[2], 64), *[bv(p.off, 64) for p in a[:2]]), z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))
    for nm in ('memcmp', 'bcmp'):
        ex.contracts[nm] = memcmp

    def tokenize(ex, st, a, ins, d):
        n, p = view(a, 1)
        ex.oblige(st, z3.And(n != 0, VALID(n, p), z3.Not(TRAIL(n, p, *view(a, 3)))), 'post', 'only a valid pattern without an open escape at its end is taken apart')
        for i in range(3):
            ex.wr(st, a[0].add(8 * i), 8, 0)
        st.ghost['tokens'] = (a[0].rid, view(a, 1) + view(a, 3))
    on(ex, '^' + DET + r'tokenize_like_pattern\(', tokenize)

    def match(ex, st, a, ins, d):
        t = st.ghost.get('tokens')
        if t is None or a[2].rid != t[0]:
            raise Unsupported('tokens of something else')
        ex.oblige(st, VALID(*view(a, 0)), 'post', 'only a valid text is matched')
        return MATCH(*view(a, 0), *t[1])
    on(ex, '^' + DET + r'match_like_pattern\(', match)
    on(ex, '^' + VT + r'~vector\(\)', lambda ex, st, a, ins, d: None)

    def setup(ex, st):
        library(ex, Uf())
        nd = Node_(ex, st, k)
        g['bytes'] = ex.new_region(st, 'bytes', 1 << 62, 'heap', 1, ro=True)
        g.update(nd=nd, i=nd.operand(ex, st, 'input'), p=nd.operand(ex, st, 'pattern'), e=nd.operand(ex, st, 'escape'))
        g['like'] = z3.BitVec('operator', 32)
        st.pc.append(z3.ULE(g['like'], 1))
        return nd.args(ex, st) + [g['like'], nd.exps['input'], nd.exps['pattern'], nd.exps['escape']]

    def post(ex, st, out):
        ob = lambda c, t: ex.oblige(st, c, 'post', t)
        if out[0] != 'ret':
            ob(False, 'LIKE returns a value or an error value')
            return
        r = read_any(ex, st, k, g['nd'].out)
        ops = [g['e'], g['i'], g['p']]
        err = z3.Or(*[o.error for o in ops])
        null = z3.And(z3.Not(err), z3.Or(*[o.null for o in ops]))
        ob(z3.Implies(err, z3.And(r.error, z3.Or(*[z3.And(o.error, r.get('error') == o.get('error')) for o in ops]))), 'an error of an operand is the result')
        ob(z3.Implies(null, r.null), 'NULL for a NULL operand')
        texts_ = z3.And(*[o.isk('text') for o in ops])
        rest = z3.And(z3.Not(err), z3.Not(null))
        ob(z3.Implies(z3.And(rest, z3.Or(z3.Not(texts_), g['like'] != 0)), z3.And(r.error, r.get('error') == UNSUPPORTED)), 'unsupported operands or operator: an error')
        e, i, p = [(SIZE(o.get('text')), ID(o.get('text'))) for o in ops]
        ok = z3.And(rest, texts_, g['like'] == 0)
        bad = z3.And(e[0] != 0, z3.Not(SINGLE(*e)))
        invalid = z3.Or(z3.And(p[0] != 0, z3.Not(VALID(*p))))
        same = z3.And(e[0] == p[0], SAME(p[0], e[1], p[1]), SAME(p[0], p[1], e[1]))
        # a pattern which is the escape character ends with one of them
        facts = z3.And(z3.Implies(z3.And(e[0] != 0, e[0] == p[0], z3.Or(SAME(p[0], e[1], p[1]), SAME(p[0], p[1], e[1]))), TRAIL(*p, *e)), VALID(c64(0), p[1]), z3.Implies(e[0] == 0, z3.Not(TRAIL(*p, *e))))
        failed = z3.And(r.error, r.get('error') == INVALID_INPUT)
        value = lambda b: z3.And(r.isk('bool'), (r.get('bool') == 1) == b, z3.ULE(r.get('bool'), 1))
        cases = z3.If(bad, failed, z3.If(p[0] == 0, z3.If(VALID(*i), value(i[0] == 0), r.null), z3.If(z3.Not(VALID(*p)), r.null, z3.If(TRAIL(*p, *e), failed, z3.If(z3.Not(VALID(*i)), r.null, value(MATCH(*i, *p, *e)))))))
        ob(z3.Implies(z3.And(ok, facts), cases), 'the predicate is TRUE, FALSE, NULL or an error as documented')
    v.prove('LIKE', ex, '^ev_match$', setup, post)

