"""Monitor reasoning: a mutex protects named fields; another thread may do anything the invariant allows whenever the mutex is free.

 - lock:    the fields hold arbitrary values satisfying the invariant (everything another thread may have done meanwhile)
 - unlock:  the invariant must hold again; (value at lock, value at unlock) is recorded as one atomic step
 - wait:    unlock, let the others run, lock
 - the fields are arbitrary outside the lock, and writes made outside it are reported

A loop around wait is discharged by the havoc: after the first wait the protected state is already arbitrary, so a second wait in the
same loop reaches nothing new provided nothing else changed between the two waits, which is an obligation.
"""
from irvc.harness import *
from irvc.spec import *
from .c11 import on


class Monitor:
    """one protected object; ghost state per path lives in st.ghost under self.key"""

    def __init__(self, ex, key, names, inv, limit=None):
        self.ex, self.key, self.names, self.inv, self.limit = ex, key, names, inv, limit

    def attach(self, st, mutex, cv, fields):
        """fields: name -> (pointer, bytes)"""
        self.fields = fields
        st.ghost[self.key] = {'mutex': (mutex.rid, str(mutex.off)), 'cv': (cv.rid, str(cv.off)), 'held': False, 'steps': (), 'notify': (), 'free': None, 'waits': ()}
        self.havoc(st)
        self.put(st, free=self.read(st))

    def g(self, st):
        return st.ghost[self.key]

    def put(self, st, **kw):
        d = dict(st.ghost[self.key])
        d.update(kw)
        st.ghost[self.key] = d

    def read(self, st):
        r = {}
        for nm, (p, n) in self.fields.items():
            x = self.ex.rd(st, p, n)
            r[nm] = z3.simplify(bv(x.off if isinstance(x, Ptr) and x.rid == 0 else x, 8 * n))
        return r

    def havoc(self, st):
        v = {}
        for nm, (p, n) in self.fields.items():
            x = self.ex.fresh(self.key + '_' + nm, 8 * n)
            self.ex.wr(st, p, n, x)
            v[nm] = x
        return v

    def untouched(self, st, what):
        """nothing wrote the protected fields while the mutex was free"""
        cur, was = self.read(st), self.g(st)['free']
        if was is not None:
            self.ex.oblige(st, z3.And(*[cur[k] == was[k] for k in cur]), 'post', 'shared fields are written under the lock only' + what)

    def lock(self, st):
        g = self.g(st)
        self.ex.oblige(st, not g['held'], 'post', 'the mutex is not locked twice')
        self.untouched(st, '')
        v = self.havoc(st)
        st.pc.append(boolv(self.inv(v)))
        if self.limit:
            st.pc.append(self.limit(v))
        self.put(st, held=True, pre=v)

    def unlock(self, st):
        g = self.g(st)
        self.ex.oblige(st, g['held'], 'post', 'only a locked mutex is unlocked')
        post = self.read(st)
        self.ex.oblige(st, self.inv(post), 'post', 'the invariant of the shared state is restored')
        self.put(st, held=False, steps=g['steps'] + ((g.get('pre', post), post),))
        self.put(st, free=self.havoc(st))

    def wait(self, st, sleeping):
        """one sleep; sleeping(v): the states in which a thread may go to sleep"""
        ex, g = self.ex, self.g(st)
        ex.oblige(st, g['held'], 'post', 'a thread sleeps only with the mutex locked')
        cur = self.read(st)
        ex.oblige(st, sleeping(cur), 'post', 'a thread goes to sleep only when there is nothing for it')
        mine = set(p.rid for p, n in self.fields.values())
        snap = {r: c for r, c in st.mem.items() if r not in mine}
        if g['waits']:
            old = g['waits'][-1]
            for r, c in snap.items():
                if r in old and old[r] is not c:
                    ex.oblige(st, False, 'post', 'a loop around wait changes only the shared state')
                    return
            st.pc.append(z3.BoolVal(False))     # the state after one more sleep is covered by the state after the first one
            return
        self.unlock(st)
        self.put(st, waits=g['waits'] + (snap,))
        self.lock(st)

    def notify(self, st, kind):
        g = self.g(st)
        self.put(st, notify=g['notify'] + ((kind, len(g['steps']), g['held']),))

    def done(self, st):
        g = self.g(st)
        self.ex.oblige(st, not g['held'], 'post', 'the mutex is free at the end')
        self.untouched(st, ' (after the last unlock)')
        return g['steps'], g['notify']


def construct(ex):
    for n in ('_ZNSt18condition_variableC1Ev', '_ZNSt18condition_variableD1Ev', '_ZNSt18condition_variableC2Ev', '_ZNSt18condition_variableD2Ev'):
        ex.contracts[n] = lambda ex, st, a, ins, d: None


def install(ex, monitors, sleeping):
    """contracts of std::mutex and std::condition_variable"""
    def of(st, p, what):
        for m in monitors:
            g = st.ghost.get(m.key)
            if g and isinstance(p, Ptr) and (p.rid, str(p.off)) == g[what]:
                return m
        return None

    def lock(ex, st, a, ins, d):
        m = of(st, a[0], 'mutex')
        if m:
            m.lock(st)
        return None

    def unlock(ex, st, a, ins, d):
        m = of(st, a[0], 'mutex')
        if m:
            m.unlock(st)
        return None

    def lock_all(ex, st, a, ins, d):
        for p in a:
            lock(ex, st, [p], ins, d)
        return None

    def wait(ex, st, a, ins, d):
        m = of(st, a[0], 'cv')
        p = ex.rd(st, a[1], 8)
        if m is None or of(st, p, 'mutex') is not m:
            ex.oblige(st, False, 'post', 'a thread waits with the mutex of the object it waits for')
            return None
        m.wait(st, sleeping)
        return None

    def wait_until(ex, st, a, ins, d):
        wait(ex, st, a, ins, d)
        return z3.ZeroExt(31, ex.fresh('timeout', 1))

    def note(kind):
        def h(ex, st, a, ins, d):
            m = of(st, a[0], 'cv')
            if m:
                m.notify(st, kind)
            return None
        return h
    on(ex, r'^std::mutex::lock\(', lock)
    on(ex, r'^std::mutex::unlock\(', unlock)
    on(ex, r'^void std::lock<', lock_all)
    on(ex, r'^(std::)?(cv_status|enum std::cv_status)? ?(std::cv_status )?std::condition_variable::wait_until<[^$]*>\(std::unique_lock<std::mutex>&, std::chrono::time_point<[^$]*> const&\)$', wait_until)
    construct(ex)
    ex.contracts['_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE'] = wait
    ex.contracts['_ZNSt18condition_variable10notify_oneEv'] = note('one')
    ex.contracts['_ZNSt18condition_variable10notify_allEv'] = note('all')
    on(ex, r'.*std::chrono::(ceil|round|floor|duration_cast)<', lambda ex, st, a, ins, d: ex.fresh('duration'))
    on(ex, r'.*std::chrono::operator\+<', lambda ex, st, a, ins, d: ex.fresh('deadline'))
    ex.contracts['_ZNSt6chrono3_V212steady_clock3nowEv'] = lambda ex, st, a, ins, d: ex.fresh('now')
    ex.contracts['_ZNSt6chrono3_V212system_clock3nowEv'] = lambda ex, st, a, ins, d: ex.fresh('now')
