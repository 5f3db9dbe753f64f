"""C18: the end of a transaction"""
from irvc.harness import *
from irvc.spec import *
from .c11 import on, read_value

S = 'src/jogasaki/'
UNITS = [S + 'transaction_context.cpp', S + 'transaction_state.cpp']
CLIENT = ('txn_client.cpp', open(os.path.join(VERIF, 'contracts/clients/txn.cpp')).read())
NATIVE = {'driver': 'c18.cpp', 'units': UNITS + [S + 'storage/' + x for x in ('storage_manager.cpp', 'unique_lock.cpp', 'shared_lock.cpp', 'reference_scope.cpp')] + [S + 'auth/action_set.cpp', S + 'auth/authorized_users_action_set.cpp', S + 'error/error_info.cpp'], 'shims': 'txn', 'libs': ('-ltbb', '-lglog')}
ASSUMPTIONS = ['std::atomic operations (and those on shared_ptr) are atomic; between two accesses other threads do anything that keeps the invariant and the uses held here (rely)',
               'only finitely many exchanges fail because of other threads (lock freedom, not wait freedom)',
               'the transaction engine (kvs::transaction) is behind a contract: each call does what it says, once',
               'fewer than 2^61 tasks of one transaction at a time, fewer than 2^32 - 1 on one worker; no worker has the number 2^32 - 1']
TM = r'^jogasaki::details::termination_manager::'
WM = r'^jogasaki::details::worker_manager::'
TS = r'^jogasaki::transaction_state::'

def run(v):
    mods = v.modules(UNITS + [CLIENT], shims='txn')
    jobs = [lambda n=n: atom(v, mods, n) for n in WORDS]
    jobs += [lambda: ending(v), lambda: workers(v), lambda: allowed(v, mods), lambda: error(v, mods), lambda: get_error(v, mods), lambda: created(v, mods)]
    jobs += [lambda n=n: finish(v, mods, n) for n in ('abort', 'commit', 'commit_async')]
    v.parallel(jobs)


# ---------------------------------------------------------------- words changed by atomic exchanges
A = lambda x: z3.Extract(63, 63, x) == 1        # going to abort
C = lambda x: z3.Extract(62, 62, x) == 1        # going to commit
N = lambda x: z3.Extract(61, 0, x)              # tasks of the transaction at work
BIT = lambda k: z3.BitVecVal(1 << k, 64)
term_ok = lambda x: z3.And(z3.Not(z3.And(A(x), C(x))), z3.Implies(C(x), N(x) == 0), z3.ULT(N(x), 1 << 61))
none = lambda x: z3.And(z3.Not(A(x)), z3.Not(C(x)))
U = lambda x: z3.Extract(63, 32, x)             # tasks on the worker
V = lambda x: z3.Extract(31, 0, x)              # the worker
EMPTY = z3.BitVecVal(2 ** 32 - 1, 32)
work_ok = lambda x: z3.And((U(x) == 0) == (V(x) == EMPTY), z3.ULT(U(x), 2 ** 32 - 2))
state_ok = lambda x: z3.ULE(x, 9)
UND, INIT, ACTIVE, GOING_C, CC, AVAIL, STORED, GOING_A, ABORTED, UNKNOWN = range(10)
ALLOWED = z3.Function('ALLOWED', z3.BitVecSort(32), z3.BitVecSort(32), z3.BoolSort())


def allowed_spec(c, d):
    rank = lambda x: z3.If(x == UND, 0, z3.If(x == INIT, 1, z3.If(x == ACTIVE, 2, z3.If(z3.Or(x == GOING_C, x == GOING_A), 3, z3.If(x == CC, 4, z3.If(x == AVAIL, 5, z3.If(x == UNKNOWN, 7, 6)))))))
    only = lambda k, *ds: z3.Implies(c == k, z3.Or(*[d == x for x in ds]))
    must = [(INIT, ACTIVE), (ACTIVE, GOING_C), (ACTIVE, GOING_A), (ACTIVE, ABORTED), (GOING_C, CC), (GOING_C, ABORTED), (CC, AVAIL), (CC, STORED), (CC, ABORTED),
            (AVAIL, STORED), (GOING_A, ABORTED)] + [(x, UNKNOWN) for x in range(9)]
    safe = z3.And(rank(d) > rank(c), only(GOING_A, ABORTED, UNKNOWN), only(AVAIL, STORED, UNKNOWN), only(ABORTED, UNKNOWN), only(STORED, UNKNOWN))
    return safe, z3.Or(*[z3.And(c == x, d == y) for x, y in must])


class Word:
    """one operation on a word: the only exchange it may do, what a holder knows, what it returns"""

    def __init__(self, fn, ok, step, width=64, holds=lambda c, g: True, blocks=None, once=True, args=None, out=None, ret=None):
        self.fn, self.ok, self.step, self.width, self.holds, self.blocks, self.once, self.args, self.out, self.ret = fn, ok, step, width, holds, blocks, once, args, out, ret


def worker_arg(ex, st, g):
    w = z3.BitVec('worker', 32)
    st.pc.append(w != EMPTY)
    g['w'], g['out'] = w, Ptr(ex.new_region(st, 'worker', 4, 'heap', 4), 0)
    ex.wr(st, g['out'], 4, w)
    return [g['out']]


def state_arg(ex, st, g):
    g['d'] = z3.BitVec('desired', 32)
    st.pc.append(state_ok(g['d']))
    return [g['d']]


def two_states(ex, st, g):
    g['e'], g['d'] = z3.BitVec('expected', 32), z3.BitVec('desired', 32)
    st.pc += [state_ok(g['d']), state_ok(g['e'])]
    return [g['e'], g['d']]


def ts_arg(ex, st, g):
    g['out'] = Ptr(ex.new_region(st, 'ts', 8, 'heap', 8), 0)
    return [g['out']]


WORDS = {
    'abort': Word(TM + r'try_set_going_to_abort\(', term_ok, lambda c, d, g: z3.And(none(c), d == c | BIT(63)), blocks=lambda c, g: z3.Not(none(c)), args=ts_arg, out=64),
    'commit': Word(TM + r'try_set_going_to_commit\(', term_ok, lambda c, d, g: z3.And(none(c), d == c | z3.If(N(c) == 0, BIT(62), BIT(63))), blocks=lambda c, g: z3.Not(none(c)), args=ts_arg, out=64),
    'enter': Word(TM + r'try_increment_task_use_count\(', term_ok, lambda c, d, g: z3.And(none(c), d == c + 1), blocks=lambda c, g: z3.Not(none(c)), args=ts_arg, out=64),
    'leave': Word(TM + r'decrement_task_use_count\(', term_ok, lambda c, d, g: z3.And(N(c) != 0, d == c - 1), holds=lambda c, g: N(c) != 0, args=ts_arg, out=64),
    'state': Word(TM + r'state\(\)', term_ok, lambda c, d, g: False, once=False, ret=lambda c: c),
    'worker enters': Word(WM + r'increment_and_set_on_zero\(', work_ok, lambda c, d, g: z3.And(z3.Or(U(c) == 0, V(c) == g['w']), d == z3.Concat(U(c) + 1, g['w'])),
                          blocks=lambda c, g: z3.And(U(c) != 0, V(c) != g['w']), args=worker_arg),
    'worker leaves': Word(WM + r'decrement_and_clear_on_zero\(', work_ok, lambda c, d, g: z3.And(U(c) != 0, d == z3.Concat(U(c) - 1, z3.If(U(c) == 1, EMPTY, V(c)))),
                          blocks=lambda c, g: U(c) == 0),
    'worker': Word(WM + r'worker_id\(\)', work_ok, lambda c, d, g: False, once=False, ret=lambda c: V(c)),
    'tasks of the worker': Word(WM + r'use_count\(\)', work_ok, lambda c, d, g: False, once=False, ret=lambda c: U(c)),
    'set state': Word(TS + r'set\(', state_ok, lambda c, d, g: z3.And(ALLOWED(c, g['d']), d == g['d']), 32, blocks=lambda c, g: z3.Not(ALLOWED(c, g['d'])), args=state_arg),
    'set state if': Word(TS + r'set_if\(', state_ok, lambda c, d, g: z3.And(c == g['e'], d == g['d']), 32, blocks=lambda c, g: c != g['e'], args=two_states),
    'state kind': Word(TS + r'kind\(\)', state_ok, lambda c, d, g: False, 32, once=False, ret=lambda c: c),
}
ATOMIC = r'^std::(atomic|__atomic_base)<(jogasaki::termination_state|jogasaki::transaction_state_kind|unsigned long)>::'


def atom(v, mods, n):
    """every atomic access of one operation; the word is arbitrary before each"""
    w = WORDS[n]
    ex = v.executor(mods, unroll_sym=2, unroll_symbacks=2, unroll_forks=12)
    g = {}
    B = w.width // 8
    cell = {'steps': 0, 'blocked': 8, 'new': 16, 'patience': 24, 'old': 32, 'last': 40}
    get = lambda st, k: bv(ex.rd(st, g['log'].add(cell[k]), 8), 64)
    put = lambda st, k, x: ex.wr(st, g['log'].add(cell[k]), 8, x)
    wide = lambda x: x if w.width == 64 else z3.ZeroExt(32, x)
    word = lambda x: z3.Extract(w.width - 1, 0, x)

    def now(st):
        c = ex.fresh('state', w.width)
        st.pc += [w.ok(c), z3.Or(get(st, 'steps') != 0, w.holds(c, g))]
        if w.blocks:
            put(st, 'blocked', z3.If(w.blocks(c, g), c64(1), get(st, 'blocked')))
        put(st, 'last', wide(c))
        return c

    on(ex, ATOMIC + r'(load\(|operator (jogasaki|unsigned))', lambda ex, st, a, ins, d: now(st))

    def cas(ex, st, a, ins, d):
        c, e, want = now(st), bv(ex.rd(st, a[1], B), w.width), bv(a[2], w.width)
        ok = c == e
        if 'weak' in d:
            ok = z3.And(ok, z3.Not(ex.fresh('spurious', 1) == 1))
        ex.oblige(st, z3.Implies(ok, z3.And(get(st, 'steps') == 0, w.step(c, want, g))), 'post', n + ': the only change is the one allowed, and only once')
        put(st, 'steps', z3.If(ok, get(st, 'steps') + 1, get(st, 'steps')))
        put(st, 'new', z3.If(ok, wide(want), get(st, 'new')))
        put(st, 'old', z3.If(ok, wide(c), get(st, 'old')))
        left = get(st, 'patience')
        st.pc.append(z3.Or(ok, left != 0))
        put(st, 'patience', z3.If(ok, left, left - 1))
        ex.wr(st, a[1], B, z3.If(ok, e, c))
        return ok
    on(ex, ATOMIC + r'compare_exchange_(weak|strong)\(', cas)

    def other(ex, st, a, ins, d):
        raise Unsupported('atomic access %s' % d)
    on(ex, ATOMIC + r'(store|exchange|fetch_\w+|operator(=|\+|-|&|\|)+)\(', other)
    if n == 'set state':
        on(ex, r'^jogasaki::details::transition_allowed\(', lambda ex, st, a, ins, d: ALLOWED(bv(a[0], 32), bv(a[1], 32)))

    def setup(ex, st):
        o = Ptr(ex.new_region(st, 'object', 1 << 12, 'heap', 64), 0)
        g['log'] = Ptr(ex.new_region(st, 'log', 64, 'heap', 8), 0)
        for k in ('steps', 'blocked', 'new', 'old', 'last'):
            put(st, k, 0)
        put(st, 'patience', z3.BitVec('finitely_many', 64))
        return [o] + (w.args(ex, st, g) if w.args else [])

    def cands(ex, st0, h, vs, hv):
        out = [Cand('no change yet', lambda s: get(s, 'steps') == 0)]
        if 'out' in g and n.startswith('worker'):
            out.append(Cand('worker untouched', lambda s: bv(ex.rd(s, g['out'], 4), 32) == g['w']))
        for x in vs:
            if x.kind == 'int' and x.width == w.width:
                val = lambda s, x=x: bv(x.get(s), w.width)
                out.append(Cand('%s was seen' % x, lambda s, val=val: z3.And(w.ok(val(s)), w.holds(val(s), g), wide(val(s)) == get(s, 'last'))))
                if w.blocks:
                    out.append(Cand('noted if %s blocks' % x, lambda s, val=val: z3.Implies(w.blocks(val(s), g), get(s, 'blocked') == 1)))
        return out
    ex.loop_cands = cands

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', n + ' does not throw')
            return
        steps, r = get(st, 'steps'), out[1]
        if w.ret:
            ex.oblige(st, z3.And(steps == 0, bv(r, w.ret(word(c64(0))).size()) == w.ret(word(get(st, 'last')))), 'post', n + ': what the word says')
            return
        if n in ('leave',):
            ex.oblige(st, steps == 1, 'post', n + ': exactly once')
        elif n == 'worker leaves':
            ex.oblige(st, z3.Or(steps == 1, U(get(st, 'last')) == 0), 'post', n + ': exactly once, unless there was nobody')
            ex.oblige(st, boolv(r) == z3.If(steps == 1, U(get(st, 'new')) == 0, z3.BoolVal(True)), 'post', n + ': true exactly if nobody is left')
        elif n == 'set state':
            ex.oblige(st, z3.Or(steps == 1, get(st, 'blocked') == 1), 'post', n + ': changed, or the transition was not allowed')
            ex.oblige(st, z3.Implies(steps == 1, word(get(st, 'new')) == g['d']), 'post', n + ': to the state asked for')
        else:
            ok = boolv(r)
            ex.oblige(st, ok == (steps == 1), 'post', n + ': true exactly if the change was made')
            ex.oblige(st, z3.Implies(z3.Not(ok), get(st, 'blocked') == 1), 'post', n + ': refused only for the reason given')
        if w.out:
            done = steps == 1
            ex.oblige(st, z3.Implies(done, bv(ex.rd(st, g['out'], 8), 64) == get(st, 'new')), 'post', n + ': tells the state it made')
        if n == 'worker enters':
            ex.oblige(st, z3.If(steps == 1, bv(ex.rd(st, g['out'], 4), 32) == g['w'], bv(ex.rd(st, g['out'], 4), 32) == V(get(st, 'last'))), 'post', n + ': tells the worker in charge')
    v.prove('word: ' + n, ex, w.fn, setup, post)


def ending(v):
    """tasks at work t, commits k, aborts a, and the calls b told that the abort is theirs to carry out"""
    x, y, t, k, a, b = [z3.BitVec(i, 64) for i in ('x', 'y', 'tasks', 'commits', 'aborts', 'carried')]
    inv = lambda x, t, k, a, b: z3.And(term_ok(x), t == z3.ZeroExt(2, N(x)), k == z3.If(C(x), c64(1), c64(0)), a == z3.If(A(x), c64(1), c64(0)),
                                       b == z3.If(z3.And(A(x), N(x) == 0), c64(1), c64(0)))
    one = lambda c: z3.If(c, c64(1), c64(0))
    mine = z3.And(A(y), N(y) == 0)
    v.lemma('a new transaction', inv(c64(0), c64(0), c64(0), c64(0), c64(0)), [])
    few = z3.ULT(N(x), (1 << 61) - 1)
    W = {n: WORDS[n].step(x, y, None) for n in ('abort', 'commit', 'enter', 'leave')}
    after = {'abort': (t, k, a + 1, b + one(mine)), 'commit': (t, k + one(C(y)), a + one(A(y)), b + one(mine)), 'enter': (t + 1, k, a, b + one(mine)), 'leave': (t - 1, k, a, b + one(mine))}
    for n, q in after.items():
        v.lemma('after ' + n, inv(y, *q), [inv(x, t, k, a, b), few, W[n]])
        v.lemma('the decision stands after ' + n, z3.And(z3.Implies(A(x), A(y)), z3.Implies(C(x), z3.And(C(y), N(y) == 0))), [inv(x, t, k, a, b), few, W[n]])
    v.lemma('at most one of commit and abort, once', z3.ULE(k + a, 1), [inv(x, t, k, a, b)])
    v.lemma('a commit starts when no task is at work, and none starts afterwards', t == 0, [inv(x, t, k, a, b), k != 0])
    v.lemma('the abort is carried out once, as soon as no task is at work', z3.And(z3.ULE(b, a), (b == 1) == z3.And(a == 1, t == 0)), [inv(x, t, k, a, b)])
    v.lemma('a task at work knows that it is counted', N(x) != 0, [inv(x, t, k, a, b), t != 0])


def workers(v):
    x, y, t = z3.BitVec('x', 64), z3.BitVec('y', 64), z3.BitVec('tasks', 32)
    g = {'w': z3.BitVec('worker', 32)}
    inv = lambda x, t: z3.And(work_ok(x), t == U(x))
    few = z3.And(z3.ULT(U(x), 2 ** 32 - 3), g['w'] != EMPTY)
    v.lemma('a new transaction has no worker', inv(z3.BitVecVal(2 ** 32 - 1, 64), z3.BitVecVal(0, 32)), [])
    st = {n: WORDS[n].step(x, y, g) for n in ('worker enters', 'worker leaves')}
    v.lemma('after worker enters', z3.And(inv(y, t + 1), V(y) == g['w']), [inv(x, t), few, st['worker enters']])
    v.lemma('after worker leaves', inv(y, t - 1), [inv(x, t), few, st['worker leaves']])
    for n in st:
        v.lemma('one worker as long as there are tasks: ' + n, z3.Implies(z3.And(U(x) != 0, U(y) != 0), V(x) == V(y)), [inv(x, t), few, st[n]])


def allowed(v, mods):
    ex = v.executor(mods)
    c, d = z3.BitVec('current', 32), z3.BitVec('desired', 32)

    def setup(ex, st):
        st.pc += [state_ok(c), state_ok(d)]
        return [c, d]

    def post(ex, st, out):
        ex.oblige(st, out[0] == 'ret', 'post', 'an answer for every two states')
        if out[0] == 'ret':
            safe, must = allowed_spec(c, d)
            r = boolv(out[1])
            ex.oblige(st, z3.Implies(r, safe), 'post', 'a state never goes back, and the outcome never changes')
            ex.oblige(st, z3.Implies(must, r), 'post', 'the way from start to end is open')
    v.prove('transitions', ex, r'^jogasaki::details::transition_allowed\(', setup, post)


# ---------------------------------------------------------------- the first error is kept
def error(v, mods):
    ex = v.executor(mods, unroll_sym=2, unroll_symbacks=2, unroll_forks=12)
    g = {}
    cell = {'steps': 0, 'set_if': 8, 'patience': 16, 'failed': 24, 'value': 32}
    get = lambda st, k: bv(ex.rd(st, g['log'].add(cell[k]), 8), 64)
    put = lambda st, k, x: ex.wr(st, g['log'].add(cell[k]), 8, x)
    # the current error: nothing (null), an object without error, or an error; a pointer to nothing is a place of its own
    iserr, isnull = z3.Function('IS_ERROR', BV64, z3.BoolSort()), z3.Function('IS_NULL', BV64, z3.BoolSort())
    failed = lambda o: z3.And(iserr(o), z3.Not(isnull(o)))

    def now(st, p):
        o = ex.fresh('current', 64)
        st.pc.append(z3.ULT(o, 1 << 40))
        ex.wr(st, p, 8, Ptr(g['objs'], o))
        return o

    def load(ex, st, a, ins, d):
        now(st, a[0])
        ex.wr(st, a[0].add(8), 8, 0)
    on(ex, r'^std::shared_ptr<jogasaki::error::error_info> std::atomic_load(_explicit)?<', load)

    def mine(x):
        return isinstance(x, Ptr) and x.rid == g['mine']

    def cas(ex, st, a, ins, d):
        ex.oblige(st, z3.BoolVal(a[0].rid == g['tx']), 'post', 'the error of the transaction is exchanged')
        e, x = ex.rd(st, a[1], 8), ex.rd(st, a[2], 8)
        if not isinstance(e, Ptr) or e.rid != g['objs']:
            raise Unsupported('expected error')
        o = bv(e.off, 64)

        ok, left = ex.fresh('outcome', 1) == 0, get(st, 'patience')
        ex.oblige(st, z3.Implies(ok, z3.And(z3.Not(failed(o)), get(st, 'steps') == 0, z3.BoolVal(mine(x)))), 'post', 'an error is replaced by nothing, and nothing but the new one is stored')
        put(st, 'steps', z3.If(ok, get(st, 'steps') + 1, get(st, 'steps')))
        st.pc.append(z3.Or(ok, left != 0))
        put(st, 'patience', z3.If(ok, left, left - 1))
        n = now(st, a[1])
        ex.wr(st, a[1], 8, Ptr(g['objs'], z3.If(ok, o, n)))
        return ok
    on(ex, r'^bool std::atomic_compare_exchange_(strong|weak)(_explicit)?<jogasaki::error::error_info>\(', cas)
    SP = r'^std::__shared_ptr<jogasaki::error::error_info, [^>]*>::'
    null = lambda p: z3.BoolVal(False) if mine(p) else isnull(bv(p.off, 64))

    def raw(ex, st, a, ins, d):
        p = ex.rd(st, a[0], 8)
        if mine(p) or p.rid != g['objs']:
            return p

        def nil(s):
            return Ptr(0, 0)
        return Fork([(null(p), nil), (z3.Not(null(p)), lambda s: p)])
    on(ex, SP + r'get\(\)', raw)
    on(ex, SP + r'operator bool\(\)', lambda ex, st, a, ins, d: (lambda p: z3.BoolVal(True) if mine(p) else z3.Not(isnull(bv(p.off, 64))))(ex.rd(st, a[0], 8)))

    def other(ex, st, a, ins, d):
        raise Unsupported('atomic access %s' % d)
    on(ex, r'std::atomic_(store|exchange)', other)

    def truth(ex, st, a, ins, d):
        p = a[0]
        if p.rid == g['objs']:
            ex.oblige(st, z3.Not(isnull(bv(p.off, 64))), 'post', 'no access to a missing error')
            put(st, 'failed', z3.If(iserr(bv(p.off, 64)), c64(1), get(st, 'failed')))
            return iserr(bv(p.off, 64))
        return z3.BoolVal(True)
    on(ex, r'^jogasaki::error::error_info::operator bool\(\)', truth)

    on(ex, r'^jogasaki::error::error_info::code\(', lambda ex, st, a, ins, d: ex.fresh('code', 32))
    on(ex, r'^jogasaki::error::error_info::message\(', lambda ex, st, a, ins, d: (c64(0), Ptr(g['objs'], 0)))

    def set_if(ex, st, a, ins, d):
        ex.oblige(st, z3.And(bv(a[1], 32) == ACTIVE, bv(a[2], 32) == ABORTED, get(st, 'steps') == 1), 'post', 'a reported error ends an active transaction only')
        put(st, 'set_if', get(st, 'set_if') + 1)
        return ex.fresh('was_active', 1) == 1
    on(ex, TS + r'set_if\(', set_if)
    on(ex, TS + r'set\(', other)

    def setup(ex, st):
        g['tx'] = ex.new_region(st, 'tx', 1 << 12, 'heap', 64)
        g['objs'] = ex.new_region(st, 'errors', 1 << 41, 'heap', 8)
        g['mine'] = ex.new_region(st, 'new_error', 1 << 10, 'heap', 8)
        g['log'] = Ptr(ex.new_region(st, 'log', 64, 'heap', 8), 0)
        for k in cell:
            put(st, k, 0)
        put(st, 'patience', z3.BitVec('finitely_many', 64))
        return [Ptr(g['tx'], 0), Ptr(g['mine'], 0)]

    def cands(ex, st0, h, vs, hv):
        return [Cand('nothing stored yet', lambda s: z3.And(get(s, 'steps') == 0, get(s, 'set_if') == 0))]
    ex.loop_cands = cands

    def post(ex, st, out):
        ex.oblige(st, out[0] == 'ret', 'post', 'reporting an error does not throw')
        if out[0] == 'ret':
            r = boolv(out[1])
            ex.oblige(st, r == (get(st, 'steps') == 1), 'post', 'true exactly if the error was taken')
            ex.oblige(st, z3.Implies(z3.Not(r), get(st, 'failed') == 1), 'post', 'refused only after another error')
            ex.oblige(st, (get(st, 'set_if') == 1) == r, 'post', 'the transaction is no longer active')
    v.prove('first error', ex, '^c_tx_error$', setup, post)


def get_error(v, mods):
    ex = v.executor(mods)
    g = {}

    def load(ex, st, a, ins, d):
        ex.wr(st, a[0], 8, Ptr(g['objs'], g['o']))
        ex.wr(st, a[0].add(8), 8, 0)
    on(ex, r'^std::shared_ptr<jogasaki::error::error_info> std::atomic_load<', load)

    def setup(ex, st):
        g['o'] = z3.BitVec('current', 64)
        st.pc += [z3.ULT(g['o'], 1 << 40)]
        g['objs'] = ex.new_region(st, 'errors', 1 << 41, 'heap', 8)
        return [Ptr(ex.new_region(st, 'tx', 1 << 12, 'heap', 64), 0)]

    def post(ex, st, out):
        ok = out[0] == 'ret' and isinstance(out[1], Ptr) and out[1].rid == g['objs']
        ex.oblige(st, z3.And(bv(out[1].off, 64) == g['o']) if ok else False, 'post', 'the error of the transaction')
    v.prove('error of the transaction', ex, '^c_tx_get_error$', setup, post)


# ---------------------------------------------------------------- locks are kept until the engine is done
def finish(v, mods, n):
    ex = v.executor(mods)
    g = {}

    def engine(ex, st, a, ins, d):
        st.ghost['ev'] = st.ghost['ev'] + (('engine', n, a[1:] if n == 'commit' else None),)
        ex.oblige(st, z3.BoolVal(a[0].rid == g['k'].rid), 'post', 'the transaction of the engine')
        r = ex.fresh('status', 1 if n == 'commit_async' else 32)
        g['r'] = r
        return r == 1 if n == 'commit_async' else r
    on(ex, r'^jogasaki::kvs::transaction::%s\(' % {'abort': 'abort_transaction', 'commit': r'commit', 'commit_async': r'commit'}[n], engine)

    def ends(nm):
        def h(ex, st, a, ins, d):
            st.ghost['ev'] = st.ghost['ev'] + ((nm, a[0].rid, None),)
        return h
    on(ex, r'^jogasaki::storage::unique_lock::~unique_lock\(\)', ends('lock'))
    on(ex, r'^jogasaki::storage::reference_scope::~reference_scope\(\)', ends('refs'))

    def state(ex, st, a, ins, d):
        st.ghost['ev'] = st.ghost['ev'] + (('state', z3.simplify(bv(a[1], 32)), None),)
    on(ex, TS + r'set\(', state)

    def setup(ex, st):
        st.ghost['ev'] = ()
        g['t'] = Ptr(ex.new_region(st, 'tx', 1 << 12, 'heap', 64), 0)
        for i, nm in enumerate(('k', 'l', 's')):
            g[nm] = Ptr(ex.new_region(st, nm, 1 << 10, 'heap', 64), 0)
        g['left'] = Ptr(ex.new_region(st, 'left', 8, 'heap', 8), 0)
        a = [g['t'], g['k'], g['l'], g['s']]
        if n == 'commit':
            g['async'] = z3.Bool('async')
            a.append(g['async'])
        if n == 'commit_async':
            cb = Ptr(ex.new_region(st, 'cb', 32, 'heap', 8), 0)
            for i in range(4):
                ex.wr(st, cb.add(8 * i), 8, 0)
            a.append(cb)
        return a + [g['left']]

    def post(ex, st, out):
        ex.oblige(st, out[0] == 'ret', 'post', n + ' does not throw')
        if out[0] != 'ret':
            return
        ev = st.ghost['ev']
        kinds = [e[0] for e in ev]
        at = {k: kinds.index(k) for k in kinds}
        left = bv(ex.rd(st, g['left'], 1), 8)
        ex.oblige(st, z3.BoolVal(kinds.count('engine') == 1), 'post', n + ': told to the engine exactly once')
        if kinds.count('engine') != 1:
            return
        if n != 'commit_async':
            ex.oblige(st, z3.And(z3.BoolVal(kinds.count('lock') == 1 and kinds.count('refs') == 1), left == 0), 'post', n + ': the locks and the references of the transaction are given back')
            ex.oblige(st, z3.BoolVal(at['engine'] < min(at.get('lock', -1), at.get('refs', -1))), 'post', n + ': not before the engine is done')
            ex.oblige(st, bv(out[1], 32) == g['r'], 'post', n + ': what the engine answered')
        else:
            ex.oblige(st, z3.And(z3.BoolVal('lock' not in kinds and 'refs' not in kinds), left == 1), 'post', n + ': the locks are kept until the engine answers')
            ex.oblige(st, boolv(out[1]) == (g['r'] == 1), 'post', n + ': what the engine answered')
        want = {'abort': [ABORTED], 'commit': [], 'commit_async': [CC]}[n]
        got = [e[1] for e in ev if e[0] == 'state']
        ex.oblige(st, z3.And(z3.BoolVal(len(got) == len(want)), *[a == b for a, b in zip(got, want)]), 'post', n + ': the state of the transaction')
        if n == 'commit_async' and got:
            ex.oblige(st, z3.BoolVal(at['state'] < at['engine']), 'post', n + ': the state is set before the engine may answer')
    v.prove('transaction ' + n, ex, '^c_tx_%s$' % n, setup, post)


def created(v, mods):
    """every transaction gets a number of its own"""
    ex = v.executor(mods)
    g = {}

    def inc(ex, st, a, ins, d):
        st.ghost['n'] = st.ghost['n'] + 1
        ex.oblige(st, z3.BoolVal('fetch_add' not in d), 'post', 'prefix increment')
        return g['id']
    on(ex, r'^std::__atomic_base<unsigned long>::operator\+\+\(\)', inc)
    on(ex, r'^std::(atomic|__atomic_base)<unsigned long>::(load|fetch_\w+|store|operator (unsigned|int)|operator\+\+\(int\))', lambda ex, st, a, ins, d: (_ for _ in ()).throw(Unsupported('atomic access ' + d)))
    on(ex, r'^jogasaki::global::storage_manager\(', lambda ex, st, a, ins, d: Ptr(g['sm'], 0))
    on(ex, r'^jogasaki::storage::reference_scope::reference_scope\(', lambda ex, st, a, ins, d: None)
    on(ex, r'^std::shared_ptr<jogasaki::commit_profile> std::make_shared<', lambda ex, st, a, ins, d: [ex.wr(st, a[0].add(8 * i), 8, 0) for i in range(2)] and None)

    def setup(ex, st):
        st.ghost['n'] = 0
        g['id'] = z3.BitVec('next', 64)
        g['t'] = Ptr(ex.new_region(st, 'tx', 1 << 12, 'heap', 64), 0)
        g['sm'] = ex.new_region(st, 'sm', 64, 'heap', 8)
        ex.wr(st, Ptr(g['sm'], 0), 8, Ptr(ex.new_region(st, 'smo', 64, 'heap', 8), 0))
        ex.wr(st, Ptr(g['sm'], 8), 8, 0)
        return [g['t'], Ptr(ex.new_region(st, 'k', 64, 'heap', 8), 0)]

    def post(ex, st, out):
        ex.oblige(st, out[0] == 'ret', 'post', 'a transaction is made')
        if out[0] == 'ret':
            ex.oblige(st, z3.BoolVal(st.ghost['n'] == 1), 'post', 'one number is taken')
            f = ex.find('^c_tx_id$')[0]
            for o in ex.run_function(st, f, [g['t']]):
                ex.oblige(o, bv(o.out[1], 64) == g['id'], 'post', 'the number of the transaction is the one taken')
    v.prove('new transaction', ex, '^c_tx_new$', setup, post)
