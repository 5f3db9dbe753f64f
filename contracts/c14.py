"""C14: waiting for another thread"""
from irvc.harness import *
from irvc.spec import *
from .c11 import on, read_value
from .monitor import Monitor, install, construct

UNITS = ['src/jogasaki/utils/latch.cpp', 'src/jogasaki/utils/use_counter.cpp']
CLIENT = ('waits_client.cpp', open(os.path.join(VERIF, 'contracts/clients/waits.cpp')).read())
NATIVE = {'driver': 'c14.cpp', 'units': UNITS, 'leaks': True}
ASSUMPTIONS = ['std::mutex and std::condition_variable: monitor semantics (contracts/monitor.py); a sleeping thread wakes when notified after it went to sleep, and may wake at any other time',
               'std::atomic operations are atomic; between two accesses other threads may store anything',
               'that a notified thread is eventually scheduled is the operating system\'s business',
               'reset() of a latch somebody sleeps on is outside the documented protocol (two threads)']
OPS = ['latch_new', 'latch_release', 'latch_wait', 'latch_wait_for', 'latch_reset']
FLAG = ['wait', 'wait_for', 'notify_one', 'notify_all']
SEQ = ['new', 'default', 'store', 'assign', 'cas_strong', 'cas_weak']
COUNT = ['new', 'copy', 'copied', 'assign', 'move', 'move_assign', 'reset', 'assign_alone', 'move_assign_alone', 'reset_alone']


def run(v):
    mods = v.modules(UNITS + [CLIENT])
    jobs = [lambda n=n: latch(v, mods, n) for n in OPS]
    for t, w in (('flag', 8), ('number', 64)):
        jobs += [lambda n=n, t=t, w=w: flag(v, mods, t, w, n) for n in FLAG]
        jobs += [lambda n=n, t=t, w=w: atom(v, mods, t, w, n) for n in SEQ]
    jobs += [lambda n=n: count(v, mods, n) for n in COUNT]
    v.parallel(jobs)


def unchanged(a, b):
    return z3.And(*[a[k] == b[k] for k in a])


def woken(notes, steps, kinds):
    return any(k in kinds and (at >= len(steps) or held) for k, at, held in notes)


def common(ex, mon, fields):
    def begin(ex, st, a, ins, d):
        return None

    def end(ex, st, a, ins, d):
        st.ghost['result'] = a[0]
        st.ghost['end'] = mon.done(st)
        return None
    ex.contracts.update(begin_op=begin, end_op=end)


def latch(v, mods, n):
    ex = v.executor(mods, unroll_sym=4)
    inv = lambda s: z3.And(z3.ULE(s['open'], 1), z3.ULE(s['done'], 1), z3.Implies(s['done'] == 1, s['open'] == 1))
    mon = Monitor(ex, 'latch', ['open', 'done'], inv)
    install(ex, [mon], lambda s: z3.And(s['open'] == 0, s['done'] == 0))
    common(ex, mon, None)
    g = {}

    def share(ex, st, a, ins, d):
        mon.attach(st, a[0], a[1], {'open': (a[2], 1), 'done': (a[3], 1)})
        return None

    def plain(ex, st, a, ins, d):
        st.ghost['plain'] = (boolv(a[0]), boolv(a[1]))
        return None
    ex.contracts.update(share_latch=share, plain=plain)

    def setup(ex, st):
        g['released'] = z3.Bool('released')
        return {'latch_new': [g['released']], 'latch_wait_for': [z3.BitVec('ns', 64)]}.get(n, [])

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', n + ' does not throw')
            return
        if n == 'latch_new':
            op, dn = st.ghost['plain']
            ex.oblige(st, z3.And(op, dn == g['released']), 'post', 'a new latch is open, and released if asked for')
            return
        steps, notes = st.ghost['end']
        pre, fin = steps[-1]
        if n == 'latch_release':
            ex.oblige(st, len(steps) == 1, 'post', 'release: one atomic step')
            ex.oblige(st, z3.And(fin['open'] == 1, fin['done'] == 1), 'post', 'release opens the latch for good')
            ex.oblige(st, woken(notes, steps, ('all',)), 'post', 'release wakes the waiter')
            return
        if n == 'latch_reset':
            ex.oblige(st, len(steps) == 1, 'post', 'reset: one atomic step')
            ex.oblige(st, z3.And(fin['open'] == 1, fin['done'] == 0), 'post', 'reset makes the latch new')
            return
        first = steps[0][0]
        slept = len(st.ghost['latch']['waits']) > 0
        ex.oblige(st, z3.Implies(first['done'] == 1, z3.And(not slept, len(steps) == 1, unchanged(*steps[0]))), 'post', 'waiting for a released latch is a no-op')
        for i, (a, b) in enumerate(steps):
            if i == 0:
                ex.oblige(st, z3.And(b['done'] == a['done'], z3.Implies(a['done'] == 0, b['open'] == 0)), 'post', 'waiting closes an unreleased latch')
            else:
                ex.oblige(st, unchanged(a, b), 'post', 'waking up changes nothing')
        opened = z3.And(fin['open'] == 1, z3.Or(first['done'] == 1, slept))
        if n == 'latch_wait':
            ex.oblige(st, opened, 'post', 'wait returns only once the latch is released')
        else:
            r = bv(st.ghost['result'], 32)
            ex.oblige(st, z3.And(z3.Or(r == 0, r == 1), (r == 1) == opened), 'post', 'timed wait: true exactly if the latch was released')
    v.prove(n, ex, '^c_%s$' % n, setup, post)


def flag(v, mods, t, w, n):
    ex = v.executor(mods, unroll_sym=4)
    inv = (lambda s: z3.ULE(s['value'], 1)) if w == 8 else (lambda s: z3.BoolVal(True))
    mon = Monitor(ex, 'flag', ['value'], inv)
    g = {}
    install(ex, [mon], lambda s: s['value'] == g['old'])
    common(ex, mon, None)

    def share(ex, st, a, ins, d):
        mon.attach(st, a[0], a[1], {'value': (a[2], w // 8)})
        return None
    ex.contracts['share_flag'] = share

    def setup(ex, st):
        g['old'] = z3.BitVec('old', w)
        o = g['old']
        if w == 8:
            st.pc.append(z3.ULE(o, 1))
            o = o == 1
        return {'wait': [o], 'wait_for': [z3.BitVec('ns', 64), o]}.get(n, [])

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', n + ' does not throw')
            return
        steps, notes = st.ghost['end']
        if n in ('notify_one', 'notify_all'):
            ex.oblige(st, all(x is y or True for x, y in steps) and len(steps) >= 1, 'post', n + ' passes through the mutex, so that no waiter is between its check and its sleep')
            ex.oblige(st, woken(notes, steps, ('all',) if n == 'notify_all' else ('one', 'all')), 'post', n + ' wakes after that')
            ex.oblige(st, z3.And(*[unchanged(a, b) for a, b in steps]), 'post', n + ' does not change the value')
            return
        for a, b in steps:
            ex.oblige(st, unchanged(a, b), 'post', 'waiting does not change the value')
        fin = steps[-1][1]
        if n == 'wait':
            ex.oblige(st, fin['value'] != g['old'], 'post', 'wait returns only when the value differs')
        else:
            r = bv(st.ghost['result'], 32)
            ex.oblige(st, z3.And(z3.Or(r == 0, r == 1), (r == 1) == (fin['value'] != g['old'])), 'post', 'timed wait: true exactly if the value differs')
    v.prove('%s %s' % (t, n), ex, '^c_%s_%s$' % (t, n), setup, post)


def atom(v, mods, t, w, n):
    ex = v.executor(mods)
    construct(ex)
    g = {}

    def setup(ex, st):
        val, x = z3.BitVec('v', w), z3.BitVec('x', w)
        g.update(v=val, x=x)
        arg = lambda q: q
        if w == 8:
            st.pc += [z3.ULE(val, 1), z3.ULE(x, 1)]
            arg = lambda q: q == 1
        if n == 'default':
            return []
        if n == 'new':
            return [arg(val)]
        if n in ('store', 'assign'):
            return [arg(val), arg(x)]
        e = z3.BitVec('e', w)
        if w == 8:
            st.pc.append(z3.ULE(e, 1))
        g['e'] = e
        g['pe'] = Ptr(ex.new_region(st, 'expected', w // 8, 'heap', 8), 0)
        g['po'] = Ptr(ex.new_region(st, 'now', w // 8, 'heap', 8), 0)
        ex.wr(st, g['pe'], w // 8, e)
        return [arg(val), g['pe'], arg(x), g['po']]

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', n + ' does not throw')
            return
        if n in ('cas_strong', 'cas_weak'):
            r = boolv(out[1])
            now, e = bv(ex.rd(st, g['po'], w // 8), w), bv(ex.rd(st, g['pe'], w // 8), w)
            hit = g['v'] == g['e']
            ex.oblige(st, z3.Implies(r, z3.And(hit, now == g['x'])), 'post', 'exchange succeeds only on the expected value')
            ex.oblige(st, z3.Implies(z3.Not(r), z3.And(now == g['v'], e == g['v'])), 'post', 'a failed exchange stores nothing and reports the value')
            if n == 'cas_strong':
                ex.oblige(st, z3.Implies(hit, r), 'post', 'the strong exchange does not fail on the expected value')
            return
        r = z3.If(boolv(out[1]), z3.BitVecVal(1, w), z3.BitVecVal(0, w)) if w == 8 else bv(out[1], w)
        want = {'new': g.get('v'), 'default': z3.BitVecVal(0, w)}.get(n, g.get('x'))
        ex.oblige(st, r == want, 'post', n + ': the value stored is the value loaded')
    v.prove('%s %s' % (t, n), ex, '^c_%s_%s$' % (t, n), setup, post)


def count(v, mods, n):
    ex = v.executor(mods)
    g = {'n': 0}

    def arbitrary(ex, st, a, ins, d):
        ctl = ex.rd(st, a[0].add(8), 8)
        k = st.ghost.get('counted', ())
        x = z3.BitVec('count_%d' % len(k), 32)
        st.ghost['counted'] = k + (x,)
        st.pc += [x >= (2 if n in ('assign', 'move_assign', 'reset') and not k else 1), x <= 1 << 30]
        ex.wr(st, ctl.add(8), 4, x)
        return None

    def counts(ex, st, a, ins, d):
        st.ghost['seen'] = tuple(bv(x, 64) for x in a)
        return None
    ex.contracts.update(arbitrary_count=arbitrary, counts=counts)

    def post(ex, st, out):
        if out[0] != 'ret' or 'seen' not in st.ghost:
            ex.oblige(st, False, 'post', n + ' returns')
            return
        k = [z3.ZeroExt(32, x) for x in st.ghost.get('counted', ())]
        one = c64(1)
        want = {'new': lambda: (one,), 'copy': lambda: (k[0] + 1, k[0] + 1), 'copied': lambda: (k[0],), 'assign': lambda: (k[0] - 1, k[1] + 1, k[1] + 1),
                'move': lambda: (one, k[0]), 'move_assign': lambda: (k[0] - 1, k[1], one), 'reset': lambda: (k[0] - 1, one),
                'assign_alone': lambda: (k[0] + 1, k[0] + 1), 'move_assign_alone': lambda: (k[0], one), 'reset_alone': lambda: (one,)}[n]()
        for i, x in enumerate(want):
            ex.oblige(st, st.ghost['seen'][i] == x, 'post', 'use counter, %s: the number of copies of object %d' % (n, i))
    v.prove('use counter ' + n, ex, '^c_count_%s$' % n, lambda ex, st: [], post)
