"""C16: table locks"""
from irvc.harness import *
from irvc.spec import *
from .c11 import on, read_value

S = 'src/jogasaki/storage/'
UNITS = [S + 'storage_manager.cpp', S + 'shared_lock.cpp', S + 'unique_lock.cpp', S + 'reference_scope.cpp']
CLIENT = ('locks_client.cpp', open(os.path.join(VERIF, 'contracts/clients/locks.cpp')).read())
NATIVE = {'driver': 'c16.cpp', 'units': UNITS + ['src/jogasaki/auth/action_set.cpp', 'src/jogasaki/auth/authorized_users_action_set.cpp'], 'shims': 'sql', 'libs': ('-ltbb', '-lglog')}
ASSUMPTIONS = ['std::atomic operations are atomic; between two accesses other threads do anything that keeps the invariant and the locks held here (rely)',
               'only finitely many exchanges fail because of other threads (lock freedom, not wait freedom)',
               'a table has fewer than 2^62 readers; table identifiers are below 2^60',
               'std::vector, std::sort, std::unique, std::unordered_set: contracts of the standard library, seen through one arbitrary table (how often it is in the sequence)',
               'whether a table exists does not change during one call (definitions change under the exclusive lock)']
F = z3.Function
LS = r'^std::atomic<jogasaki::storage::impl::lock_state>::'
CTL = r'^jogasaki::storage::impl::storage_control::'


def run(v):
    mods = v.modules(UNITS + [CLIENT], shims='sql')
    jobs = [lambda n=n: atom(v, mods, n) for n in ('lock', 'lock_shared', 'can_lock', 'can_lock_shared', 'release', 'release_shared')]
    jobs += [lambda: exclusion(v), lambda: contains(v, mods), lambda: create(v, mods, True), lambda: create(v, mods, False), lambda: add(v, mods), lambda: remove(v, mods),
             lambda: drop(v, mods, 'shared'), lambda: drop(v, mods, 'exclusive'), lambda: release_one(v, mods), lambda: fresh(v, mods), lambda: holder(v), lambda: scope_add(v, mods), lambda: scope_end(v, mods),
             lambda: counting(v, mods, 'up'), lambda: counting(v, mods, 'down'), lambda: find_entry(v, mods), lambda: subtract(v, mods)]
    v.parallel(jobs)


# ---------------------------------------------------------------- one table
W = lambda x: (x & 1) == 1
R = lambda x: z3.LShR(x, 1)
consistent = lambda x: z3.And(z3.ULT(R(x), 1 << 62), z3.Implies(W(x), R(x) == 0))
STEP = {'lock': lambda c, d: z3.And(c == 0, d == 1), 'lock_shared': lambda c, d: z3.And(z3.Not(W(c)), d == c + 2),
        'release': lambda c, d: z3.And(W(c), d == 0), 'release_shared': lambda c, d: z3.And(z3.Not(W(c)), R(c) != 0, d == c - 2)}
HOLDS = {'lock': lambda c: True, 'lock_shared': lambda c: True, 'can_lock': lambda c: True, 'can_lock_shared': lambda c: True,
         'release': lambda c: W(c), 'release_shared': lambda c: z3.And(z3.Not(W(c)), R(c) != 0)}
BLOCKS = {'lock': lambda c: c != 0, 'lock_shared': W, 'can_lock': lambda c: c != 0, 'can_lock_shared': W}


def atom(v, mods, n):
    """every atomic access of one operation; the state of the table is arbitrary before each"""
    ex = v.executor(mods, unroll_sym=2, unroll_symbacks=2, unroll_forks=12)
    g = {}
    cell = {'steps': 0, 'blocked': 8, 'free': 16, 'patience': 24}
    get = lambda st, k: bv(ex.rd(st, g['log'].add(cell[k]), 8), 64)
    put = lambda st, k, x: ex.wr(st, g['log'].add(cell[k]), 8, x)

    def now(st):
        """what the state is at this access: anything allowed"""
        c = ex.fresh('state', 64)
        done = get(st, 'steps') != 0
        st.pc += [consistent(c), z3.Or(done, HOLDS[n](c))]
        if n in BLOCKS:
            put(st, 'blocked', z3.If(BLOCKS[n](c), c64(1), get(st, 'blocked')))
            put(st, 'free', z3.If(BLOCKS[n](c), get(st, 'free'), c64(1)))
        return c

    def load(ex, st, a, ins, d):
        return now(st)
    on(ex, LS + r'(load\(|operator jogasaki)', load)

    def cas(ex, st, a, ins, d):
        weak = 'weak' in d
        c, e, want = now(st), bv(ex.rd(st, a[1], 8), 64), bv(a[2], 64)
        ok = c == e
        if weak:
            ok = z3.And(ok, z3.Not(ex.fresh('spurious', 1) == 1))
        with_step = z3.And(get(st, 'steps') == 0, STEP[n](c, want)) if n in STEP else False
        ex.oblige(st, z3.Implies(ok, with_step), 'post', n + ': the only change is ' + {'lock': 'free to exclusive', 'lock_shared': 'one reader more, without a writer', 'release': 'exclusive to free', 'release_shared': 'one reader less'}.get(n, 'none'))
        put(st, 'steps', z3.If(ok, get(st, 'steps') + 1, get(st, 'steps')))
        left = get(st, 'patience')
        st.pc.append(z3.Or(ok, left != 0))
        put(st, 'patience', z3.If(ok, left, left - 1))
        ex.wr(st, a[1], 8, z3.If(ok, e, c))
        return ok
    on(ex, LS + r'compare_exchange_(weak|strong)\(', cas)

    def other(ex, st, a, ins, d):
        raise Unsupported('atomic access %s' % d)
    on(ex, LS + r'(store|exchange|operator=)\(', other)

    def setup(ex, st):
        c = Ptr(ex.new_region(st, 'control', 1 << 12, 'heap', 64), 0)
        g['log'] = Ptr(ex.new_region(st, 'log', 32, 'heap', 8), 0)
        for k in ('steps', 'blocked', 'free'):
            put(st, k, 0)
        put(st, 'patience', z3.BitVec('finitely_many', 64))
        return [c]

    def cands(ex, st0, h, vs, hv):
        out = [Cand('no change yet', lambda s: get(s, 'steps') == 0)]
        for x in vs:
            if x.kind == 'int' and x.width == 64:
                val = lambda s, x=x: bv(x.get(s), 64)
                out.append(Cand('%s was seen' % x, lambda s, val=val: z3.And(consistent(val(s)), HOLDS[n](val(s)))))
                if n in BLOCKS:
                    out.append(Cand('noted if %s blocks' % x, lambda s, val=val: z3.Implies(BLOCKS[n](val(s)), get(s, 'blocked') == 1)))
        return out
    ex.loop_cands = cands

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', n + ' does not throw for a holder')
            return
        steps = get(st, 'steps')
        if n.startswith('release'):
            ex.oblige(st, steps == 1, 'post', n + ': the lock is given back exactly once')
        elif n.startswith('can'):
            r = boolv(out[1])
            ex.oblige(st, z3.And(steps == 0, z3.Implies(r, get(st, 'free') == 1), z3.Implies(z3.Not(r), get(st, 'blocked') == 1)), 'post', n + ': true only if free, false only if taken')
        else:
            r = boolv(out[1])
            ex.oblige(st, r == (steps == 1), 'post', n + ': true exactly if the lock was taken')
            ex.oblige(st, z3.Implies(z3.Not(r), get(st, 'blocked') == 1), 'post', n + ': refused only while another statement holds the table')
    v.prove('table ' + n, ex, '^c_%s$' % n, setup, post)


def exclusion(v):
    """holders W, R against the state: invariant of the atomic steps proved above"""
    x, y, w, r = [z3.BitVec(k, 64) for k in ('x', 'y', 'writers', 'readers')]
    inv = lambda x, w, r: z3.And(consistent(x), w == z3.If(W(x), c64(1), c64(0)), r == R(x))
    few = z3.ULT(r, (1 << 62) - 1)
    v.lemma('a new table has no holders', inv(c64(0), c64(0), c64(0)), [])
    after = {'lock': (w + 1, r), 'lock_shared': (w, r + 1), 'release': (w - 1, r), 'release_shared': (w, r - 1)}
    for n, (w2, r2) in after.items():
        v.lemma('holders after %s' % n, inv(y, w2, r2), [inv(x, w, r), few, STEP[n](x, y)])
    v.lemma('a writer excludes everybody else', z3.And(w == 1, r == 0), [inv(x, w, r), w != 0])
    v.lemma('a holder of the exclusive lock sees it held', HOLDS['release'](x), [inv(x, w, r), w != 0])
    v.lemma('a holder of the shared lock sees it held', HOLDS['release_shared'](x), [inv(x, w, r), r != 0])


# ---------------------------------------------------------------- lists of tables, through one arbitrary table
VEC = r'std::vector<unsigned long, std::allocator<unsigned long>>::'
HOLD = r'std::vector<jogasaki::storage::\w+<std::shared_ptr<jogasaki::storage::impl::storage_control>>, [^$]*?>>>::'
BASE = 64         # offset of the first element of a list built by the code


class Tables:
    """an arbitrary table e0: is it known, how often is it in each list, how many locks on it are held here"""
    CELLS = ('writer', 'readers', 'refused', 'holders', 'kept', 'refs', 'reserved', 'flying', 'passed')

    def __init__(self, v, ex, contains=True, flight=True):
        self.v, self.ex = v, ex
        self.e0 = z3.BitVec('table', 64)
        self.known = F('KNOWN', BV64, z3.BoolSort())
        self.in_list = F('IN_LIST', BV64, BV64, z3.BoolSort())
        self.hc = F('HOLDERS', BV64, BV64)
        self.off0 = z3.BitVec('holder', 64)
        self.lists, self.made, self.all_listed, self.indexed = {}, [], False, True
        on(ex, CTL + r'lock\(\)', lambda ex, st, a, ins, d: self.take(st, a[0], 'writer'))
        on(ex, CTL + r'lock_shared\(\)', lambda ex, st, a, ins, d: self.take(st, a[0], 'readers'))
        on(ex, CTL + r'release\(\)', lambda ex, st, a, ins, d: self.give(st, a[0], 'writer'))
        on(ex, CTL + r'release_shared\(\)', lambda ex, st, a, ins, d: self.give(st, a[0], 'readers'))
        on(ex, r'^jogasaki::storage::storage_manager::find_entry\(', self.find)
        if contains:
            on(ex, r'^jogasaki::storage::storage_list_view::contains\(', self.contains)
        self.vectors(ex, flight)
        ex.contracts['observe_list'] = self.observe
        on(ex, r'^std::vector<unsigned long, [^$]*> jogasaki::utils::subtract_vectors<', self.subtract)

    def start(self, st):
        ex = self.ex
        self.ctl = ex.new_region(st, 'tables', 1 << 61, 'heap', 64)
        self.log = Ptr(ex.new_region(st, 'log', 128, 'heap', 8), 0)
        self.hold = ex.new_region(st, 'holders', 1 << 60, 'heap', 8)
        for k in self.CELLS:
            self.put(st, k, 0)
        st.pc += [z3.ULT(self.e0, 1 << 60), self.hc(0) == 0]
        self.manager = Ptr(ex.new_region(st, 'manager', 4096, 'heap', 64), 0)

    def get(self, st, k):
        return bv(self.ex.rd(st, self.log.add(8 * self.CELLS.index(k)), 8), 64)

    def put(self, st, k, x):
        self.ex.wr(st, self.log.add(8 * self.CELLS.index(k)), 8, x)

    def bump(self, st, k, c, by=1):
        self.put(st, k, z3.If(c, self.get(st, k) + by, self.get(st, k)))

    # ---- lists
    def given(self, st, nm):
        """a list of tables handed in"""
        ex = self.ex
        e, c, n = F(nm, BV64, BV64), F('COUNT_' + nm, BV64, BV64), z3.BitVec('n_' + nm, 64)
        r = ex.new_region(st, nm, 1 << 44, 'heap', 8, Content({}, Node('words', aux={8: e})))
        st.pc += [z3.ULE(n, 1 << 38), c(0) == 0]
        self.lists[r] = (e, c, n)
        return r

    def obj(self, st, r, p):
        n = self.lists[r][2] << 3
        for i, o in enumerate((0, n, n)):
            self.ex.wr(st, p.add(8 * i), 8, Ptr(r, o))
        return p

    def total(self, r):
        return self.lists[r][1](self.lists[r][2] << 3)

    def new_list(self, st):
        r = self.ex.new_region(st, 'list%d' % len(self.made), 1 << 44, 'heap', 8)
        self.made.append(r)
        self.ex.wr(st, Ptr(r, 0), 8, 0)
        self.ex.wr(st, Ptr(r, 8), 8, 0)
        return r

    def unfold(self, r, o):
        e, c, n = self.lists[r]
        one = lambda o: z3.And(c(o + 8) == c(o) + z3.If(e(o) == self.e0, c64(1), c64(0)), z3.ULT(e(o), 1 << 60), z3.ULE(c(o), z3.LShR(o, 3)),
                               z3.Implies(z3.ULE(o + 8, n << 3), z3.ULE(c(o + 8), c(n << 3))), z3.ULE(c(n << 3), n))
        return [one(o + 8 * k) for k in range(4)]

    def count(self, st, p, q):
        """how often the table is in [p, q) of a list"""
        if p.rid == 0 or (p.rid == q.rid and z3.is_true(z3.simplify(bv(p.off, 64) == bv(q.off, 64)))):
            return c64(0)
        if p.rid != q.rid:
            raise Unsupported('range over two lists')
        if p.rid in self.lists:
            return self.lists[p.rid][1](bv(q.off, 64)) - self.lists[p.rid][1](bv(p.off, 64))
        if p.rid in self.made:
            self.ex.oblige(st, bv(p.off, 64) == BASE, 'post', 'the whole list')
            return bv(self.ex.rd(st, Ptr(p.rid, 0), 8), 64)
        raise Unsupported('unknown list')

    def words(self, st, p):
        return [self.ex.rd(st, p.add(8 * i), 8) for i in range(2)]

    def vectors(self, ex, flight):
        on(ex, '^' + VEC + r'vector\((std::allocator<unsigned long> const&)?\)', self.v_new)
        on(ex, '^' + VEC + r'vector\(std::vector<unsigned long, std::allocator<unsigned long>> const&\)', self.v_copy)
        on(ex, '^' + VEC + r'vector<(unsigned long const\*|__gnu_cxx::__normal_iterator<unsigned long( const)?\*, [^$]*>), void>\(', self.v_range)
        on(ex, '^' + VEC + r'~vector\(\)', lambda ex, st, a, ins, d: None)
        on(ex, '^' + VEC + r'reserve\(', lambda ex, st, a, ins, d: None)
        on(ex, r'^(?:[^$(]* )?' + VEC + r'(emplace_back|push_back)\b', self.v_push)
        on(ex, '^' + VEC + r'erase\(', self.v_erase)
        on(ex, r'^(?:[^$(]* )?std::sort<__gnu_cxx::__normal_iterator<unsigned long\*', self.sort)
        on(ex, r'^__gnu_cxx::__normal_iterator<unsigned long\*, [^$]*?> std::unique<', self.unique)
        if not flight:
            return
        on(ex, '^' + HOLD + r'vector\(\)', self.h_new)
        on(ex, '^' + HOLD + r'~vector\(\)', self.h_drop)
        on(ex, '^' + HOLD + r'reserve\(', lambda ex, st, a, ins, d: self.put(st, 'reserved', z3.If(z3.ULT(self.get(st, 'reserved'), bv(a[1], 64)), bv(a[1], 64), self.get(st, 'reserved'))) and None)
        on(ex, r'^(?:[^$(]* )?' + HOLD + r'(emplace_back|push_back)\b', self.h_push)
        on(ex, r'^jogasaki::storage::\w+<std::shared_ptr<jogasaki::storage::impl::storage_control>>::unhold\(\)', self.unhold)

    def v_new(self, ex, st, a, ins, d):
        r = self.new_list(st)
        for i in range(3):
            ex.wr(st, a[0].add(8 * i), 8, Ptr(r, BASE))

    def v_like(self, st, to, c, bytes_):
        r = self.new_list(st)
        self.ex.wr(st, Ptr(r, 0), 8, c)
        for i in range(3):
            self.ex.wr(st, to.add(8 * i), 8, Ptr(r, bytes_ + BASE if i else BASE))

    def v_copy(self, ex, st, a, ins, d):
        p, q = self.words(st, a[1])
        self.v_like(st, a[0], self.count(st, p, q), bv(q.off, 64) - bv(p.off, 64))

    def v_range(self, ex, st, a, ins, d):
        p, q = a[1], a[2]
        self.v_like(st, a[0], self.count(st, p, q), bv(q.off, 64) - bv(p.off, 64))

    def v_push(self, ex, st, a, ins, d):
        p, q = self.words(st, a[0])
        x = bv(ex.rd(st, a[1], 8), 64)
        if p.rid not in self.made:
            raise Unsupported('element added to a list handed in')
        ex.wr(st, Ptr(p.rid, 0), 8, bv(ex.rd(st, Ptr(p.rid, 0), 8), 64) + z3.If(x == self.e0, c64(1), c64(0)))
        ex.wr(st, Ptr(p.rid, 8), 8, 0)
        for i in (1, 2):
            ex.wr(st, a[0].add(8 * i), 8, Ptr(q.rid, bv(q.off, 64) + 8))
        return Ptr(q.rid, q.off)

    def sort(self, ex, st, a, ins, d):
        self.count(st, a[0], a[1])
        ex.wr(st, Ptr(a[0].rid, 8), 8, 1)

    def unique(self, ex, st, a, ins, d):
        c = self.count(st, a[0], a[1])
        ex.oblige(st, bv(ex.rd(st, Ptr(a[0].rid, 8), 8), 64) == 1, 'post', 'duplicates are removed from a sorted list')
        end = ex.fresh('distinct', 64)
        st.pc += [z3.ULE(bv(a[0].off, 64), end), z3.ULE(end, bv(a[1].off, 64)), (end - bv(a[0].off, 64)) & 7 == 0, z3.Implies(c != 0, z3.ULT(bv(a[0].off, 64), end))]
        st.ghost['unique'] = (a[0].rid, end, z3.If(c != 0, c64(1), c64(0)))
        return Ptr(a[0].rid, end)

    def v_erase(self, ex, st, a, ins, d):
        p, q = self.words(st, a[0])
        if len(a) > 2:
            u = st.ghost.get('unique')
            if not u or u[0] != p.rid or a[1].rid != p.rid or not ex.must(st, z3.And(bv(a[1].off, 64) == u[1], bv(a[2].off, 64) == bv(q.off, 64))):
                raise Unsupported('erase of a range other than the duplicates')
            ex.wr(st, Ptr(p.rid, 0), 8, u[2])
            ex.wr(st, a[0].add(8), 8, Ptr(p.rid, u[1]))
            return Ptr(p.rid, u[1])
        at = a[1]
        if p.rid not in self.lists or at.rid != p.rid:
            raise Unsupported('erase')
        o = bv(at.off, 64)
        ex.oblige(st, z3.ULT(o, bv(q.off, 64)), 'post', 'an existing element is erased')
        self.v_like(st, a[0], self.count(st, p, q) - z3.If(self.lists[p.rid][0](o) == self.e0, c64(1), c64(0)), bv(q.off, 64) - bv(p.off, 64) - 8)
        return Ptr(0, 0)

    def subtract(self, ex, st, a, ins, d):
        x, y = [self.count(st, *self.words(st, p)) for p in (a[1], a[2])]
        size = ex.fresh('left', 64)
        st.pc.append(z3.ULE(size, 1 << 38))
        self.v_like(st, a[0], z3.If(z3.ULE(y, x), x - y, c64(0)), size << 3)

    def contains(self, ex, st, a, ins, d):
        p, n = ex.rd(st, a[0], 8), bv(ex.rd(st, a[0].add(8), 8), 64)
        e = bv(a[1], 64)
        c = self.count(st, p, Ptr(p.rid, bv(p.off, 64) + (n << 3)))
        return z3.If(e == self.e0, c != 0, True if self.all_listed else self.in_list(z3.BitVecVal(p.rid, 64), e))

    def observe(self, ex, st, a, ins, d):
        p, n = a[0], bv(a[1], 64)
        w = z3.simplify(bv(a[2], 32)).as_long()
        q = Ptr(p.rid, bv(p.off, 64) + (n << 3)) if isinstance(p, Ptr) and p.rid else p
        st.ghost['list%d' % w] = self.count(st, p, q) if isinstance(p, Ptr) else c64(0)

    # ---- locks
    def entry(self, st, p):
        if not isinstance(p, Ptr) or p.rid != self.ctl:
            raise Unsupported('not a table')
        return bv(p.off, 64)

    def find(self, ex, st, a, ins, d):
        e = bv(a[-1], 64)
        out = a[0]
        st.pc.append(z3.ULT(e, 1 << 60))

        def found(s):
            ex.wr(s, out, 8, Ptr(self.ctl, e))
            ex.wr(s, out.add(8), 8, Ptr(0, 0))

        def absent(s):
            ex.wr(s, out, 8, Ptr(0, 0))
            ex.wr(s, out.add(8), 8, Ptr(0, 0))
            self.put(s, 'refused', 1)
        return Fork([(self.known(e), found), (z3.Not(self.known(e)), absent)])

    def take(self, st, p, k):
        e = self.entry(st, p)
        ok = self.ex.fresh('granted', 1) == 1
        # a table is granted exclusively to nobody else, and shared only without a writer (exclusion())
        st.pc.append(z3.Implies(z3.And(ok, e == self.e0), z3.And(self.get(st, 'writer') == 0, self.get(st, 'readers') == 0 if k == 'writer' else True)))
        self.bump(st, k, z3.And(ok, e == self.e0))
        self.put(st, 'refused', z3.If(ok, self.get(st, 'refused'), c64(1)))
        return ok

    def give(self, st, p, k):
        e = self.entry(st, p)
        self.ex.oblige(st, z3.Implies(e == self.e0, self.get(st, k) != 0), 'post', 'only a lock held is released')
        self.bump(st, k, e == self.e0, -1)

    # ---- locks in flight: element i at 24 i; off0 is an arbitrary byte of one
    def h_new(self, ex, st, a, ins, d):
        for i in range(3):
            ex.wr(st, a[0].add(8 * i), 8, Ptr(self.hold, 0))
        for k in ('holders', 'kept', 'flying', 'passed'):
            self.put(st, k, 0)

    def h_push(self, ex, st, a, ins, d):
        p, q = self.words(st, a[0])
        c = ex.rd(st, a[1], 8)
        e = self.entry(st, c)
        shared = boolv(ex.rd(st, a[2], 1) if isinstance(a[2], Ptr) else a[2])
        o = bv(q.off, 64)
        ex.oblige(st, z3.And(z3.ULT(self.get(st, 'reserved'), 1 << 50), z3.ULT(o, 24 * self.get(st, 'reserved'))), 'post', 'room for a lock in flight was reserved: it is not relocated')
        ex.oblige(st, shared == self.shared, 'post', 'a lock in flight is released the way it was taken')
        st.pc.append(self.hc(o + 24) == self.hc(o) + z3.If(e == self.e0, c64(1), c64(0)))
        ex.wr(st, a[1], 8, Ptr(0, 0))
        for i in (1, 2):
            ex.wr(st, a[0].add(8 * i), 8, Ptr(self.hold, o + 24))
        self.put(st, 'holders', o + 24)
        self.put(st, 'flying', self.get(st, 'flying') + 1)
        return Ptr(self.hold, o)

    def unhold(self, ex, st, a, ins, d):
        o = bv(a[0].off, 64)
        ex.oblige(st, z3.And(a[0].rid == self.hold, z3.ULT(o, self.get(st, 'holders'))), 'post', 'a lock in flight')
        self.put(st, 'passed', self.get(st, 'passed') + 1)
        self.put(st, 'kept', z3.If(z3.And(z3.ULE(o, self.off0), z3.ULT(self.off0, o + 24)), c64(1), self.get(st, 'kept')))

    def h_drop(self, ex, st, a, ins, d):
        end = self.get(st, 'holders')
        inside = z3.ULT(self.off0, end)
        k = self.get(st, 'kept')
        if ex.must(st, z3.Implies(inside, k == 1)):
            return None
        ex.oblige(st, k == 0, 'post', 'the locks in flight are all kept or all released')
        cell = 'readers' if self.mode == 'shared' else 'writer'
        n = self.hc(end)
        ex.oblige(st, z3.ULE(n, self.get(st, cell)), 'post', 'only a lock held is released')
        self.put(st, cell, self.get(st, cell) - n)

    # ---- loops
    def places(self, vs):
        """loop variables that are a place in a list: pointers, and numbers of elements"""
        out = []
        for x in vs:
            if x.kind == 'ptr' and x.rid in self.lists:
                out.append((x, x.rid, lambda s, x=x: bv(x.get(s), 64)))
            elif self.indexed and x.kind == 'int' and x.width == 64 and str(x).startswith('phi'):
                out += [('%s in %d' % (x, r), r, lambda s, x=x: bv(x.get(s), 64) << 3) for r in self.lists]
        return out

    def loops(self, ex, skip=None):
        """each list met on the way: what was added and what is held follows the position in the list"""
        def cands(ex, st0, h, vs, hv):
            out = []
            cells = [(k, lambda s, k=k: self.get(s, k)) for k in self.CELLS if k != 'refused'] + [('list%d' % i, lambda s, r=r: bv(ex.rd(s, Ptr(r, 0), 8), 64)) for i, r in enumerate(self.made)]
            changed = {(k[0], k[1]) for k in hv}
            touched = lambda r, o: (r, o) in changed or (r, None) in changed
            cells = [c for c in cells if c[0].startswith('list') and touched(self.made[int(c[0][4:])], 0) or c[0] in self.CELLS and touched(self.log.rid, 8 * self.CELLS.index(c[0]))]
            places = self.places(vs)
            rel = lambda f, g, s, s0: f(s) - f(s0) == g(s) - g(s0)
            for nm, f in cells:
                for x, r, o in places:
                        c = self.lists[r][1]
                        at = lambda s, o=o, c=c: c(o(s))
                        out.append(Cand('%s follows %s' % (nm, x), lambda s, f=f, at=at: rel(f, at, s, st0)))
                        out.append(Cand('%s goes down with %s' % (nm, x), lambda s, f=f, at=at: f(s) - f(st0) == at(st0) - at(s)))
                        kn = self.known(self.e0)
                        out.append(Cand('%s goes down with %s if known' % (nm, x), lambda s, f=f, at=at: z3.If(kn, f(s) - f(st0) == at(st0) - at(s), f(s) == f(st0))))
                        if skip is not None:
                            out.append(Cand('%s follows %s unless there already' % (nm, x), lambda s, f=f, at=at: z3.If(skip(), f(s) == f(st0), rel(f, at, s, st0))))
                out.append(Cand('%s follows the locks in flight' % nm, lambda s, f=f: f(s) - f(st0) == self.hc(self.get(s, 'holders')) - self.hc(self.get(st0, 'holders'))))
            for x, r, o in places:
                    out.append(Cand('%s at an element' % x, lambda s, o=o: o(s) & 7 == 0))
                    out.append(Cand('%s inside' % x, lambda s, o=o, r=r: z3.And(o(s) & 7 == 0, z3.ULE(o(s), self.lists[r][2] << 3))))
                    out.append(Cand('none before %s' % x, lambda s, o=o, r=r: self.lists[r][1](o(s)) == 0))
                    out.append(Cand('all up to %s known' % x, lambda s, o=o, r=r: z3.Implies(self.lists[r][1](o(s)) != 0, self.known(self.e0))))
            for x in vs:
                if x.kind == 'ptr' and x.rid == self.hold:
                    o = lambda s, x=x: bv(x.get(s), 64)
                    out.append(Cand('%s at a lock' % x, lambda s, o=o: z3.And(o(s) == 24 * self.get(s, 'passed'), z3.ULE(self.get(s, 'passed'), self.get(s, 'flying')))))
                    out.append(Cand('kept before %s' % x, lambda s, o=o: z3.Implies(z3.ULT(self.off0, o(s)), self.get(s, 'kept') == 1)))
                    out.append(Cand('%s is the end' % x, lambda s, o=o: o(s) == self.get(s, 'holders')))
            out += ratios(st0, vs, [-32])
            for k in ('writer', 'refs'):
                if touched(self.log.rid, 8 * self.CELLS.index(k)):
                    out.append(Cand('%s at most one' % k, lambda s, k=k: z3.ULE(self.get(s, k), 1)))
            out.append(Cand('none kept', lambda s: self.get(s, 'kept') == 0))
            out.append(Cand('not refused', lambda s: self.get(s, 'refused') == 0))
            if touched(self.log.rid, 8 * self.CELLS.index('holders')):
                n = lambda s: self.get(s, 'holders')
                out.append(Cand('whole holders', lambda s: z3.And(n(s) == 24 * self.get(s, 'flying'), z3.ULE(self.get(s, 'flying'), 1 << 44))))
                for x, r, o in places:
                        out.append(Cand('at most one lock in flight for each element before %s' % x, lambda s, o=o: z3.ULE(self.get(s, 'flying'), z3.LShR(o(s), 3))))
            return out

        def axioms(ex, h, vs):
            for x, r, o in self.places(vs):
                h.facts += tuple(self.unfold(r, o(h)))
        ex.loop_cands, ex.loop_axioms = cands, axioms


def create(v, mods, with_parent):
    """a statement locks its tables shared; tables its own transaction holds exclusively are left out"""
    ex = v.executor(mods, unroll_sym=2, unroll_symbacks=3)
    t = Tables(v, ex)
    t.mode, t.shared = 'shared', True
    g = {}
    t.loops(ex, (lambda: t.total(g['held']) != 0) if with_parent else None)

    def setup(ex, st):
        t.start(st)
        g['l'] = t.given(st, 'WANTED')
        args = [t.manager, t.obj(st, g['l'], Ptr(ex.new_region(st, 'wanted', 24, 'heap', 8), 0))]
        g['parent'] = c64(0)
        if with_parent:
            g['held'] = t.given(st, 'HELD')
            lock = Ptr(ex.new_region(st, 'parent', 32, 'heap', 8), 0)
            ex.wr(st, lock, 8, t.manager)
            t.obj(st, g['held'], lock.add(8))
            g['parent'] = t.total(g['held'])
            t.put(st, 'writer', g['parent'])
        return args + [lock if with_parent else Ptr(0, 0)]

    def post(ex, st, out):
        want = z3.If(g['parent'] != 0, c64(0), t.total(g['l']))
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', 'locking does not throw')
            return
        ok = boolv(out[1])
        ex.oblige(st, z3.Implies(z3.Not(ok), z3.And(t.get(st, 'readers') == 0, t.get(st, 'refused') == 1)), 'post', 'refused only if a table is taken or unknown, and then nothing stays locked')
        ex.oblige(st, z3.Implies(ok, t.get(st, 'readers') == want), 'post', 'granted: every table wanted is locked as often as it is wanted')
        ex.oblige(st, t.get(st, 'writer') == g['parent'], 'post', 'the locks of the transaction are not touched')
        if ex.may(st, ok):
            ex.oblige(st, z3.Implies(ok, 'list0' in st.ghost and st.ghost['list0'] == want), 'post', 'the new lock lists what it holds')
            if with_parent:
                ex.oblige(st, z3.Implies(ok, st.ghost['list1'] == g['parent']), 'post', 'the list of the transaction is not changed')
    v.prove('shared lock' + (' under an exclusive lock' if with_parent else ''), ex, '^c_create_shared$', setup, post)


def lock_object(t, ex, st, nm='HELD', kind='writer'):
    """a lock object and the locks it stands for"""
    r = t.given(st, nm)
    lock = Ptr(ex.new_region(st, 'lock', 32, 'heap', 8), 0)
    ex.wr(st, lock, 8, t.manager)
    t.obj(st, r, lock.add(8))
    c = t.total(r)
    t.put(st, kind, c)
    if kind == 'writer':
        st.pc.append(z3.ULE(c, 1))
    return lock, r, c


def add(v, mods):
    ex = v.executor(mods, unroll_sym=2, unroll_symbacks=3)
    t = Tables(v, ex)
    t.mode, t.shared = 'exclusive', False
    g = {}
    t.loops(ex, lambda: t.total(g['held']) != 0)

    def setup(ex, st):
        t.start(st)
        g['l'] = t.given(st, 'WANTED')
        lock, g['held'], g['c'] = lock_object(t, ex, st)
        return [t.manager, t.obj(st, g['l'], Ptr(ex.new_region(st, 'wanted', 24, 'heap', 8), 0)), lock]

    def post(ex, st, out):
        if out[0] != 'ret' or 'list0' not in st.ghost:
            ex.oblige(st, False, 'post', 'locking does not throw')
            return
        ok, c, w = boolv(out[1]), g['c'], t.total(g['l'])
        ex.oblige(st, z3.Implies(z3.Not(ok), z3.And(t.get(st, 'writer') == c, t.get(st, 'refused') == 1)), 'post', 'refused only if a table is taken or unknown, and then nothing more stays locked')
        ex.oblige(st, z3.Implies(z3.Not(ok), st.ghost['list0'] == c), 'post', 'refused: the list of the transaction is not changed')
        has = z3.If(z3.Or(c != 0, w != 0), c64(1), c64(0))
        ex.oblige(st, z3.Implies(ok, t.get(st, 'writer') == has), 'post', 'granted: every table wanted is locked, those held before still are')
        ex.oblige(st, z3.Implies(ok, st.ghost['list0'] == has), 'post', 'granted: the list of the transaction has each table locked, once')
        ex.oblige(st, t.get(st, 'readers') == 0, 'post', 'no shared locks')
    v.prove('exclusive lock', ex, '^c_add_locked$', setup, post)


def remove(v, mods):
    """the tables named are in the lock, each named once"""
    ex = v.executor(mods, unroll_sym=2, unroll_symbacks=3)
    t = Tables(v, ex)
    t.all_listed = True
    t.loops(ex)
    g = {}

    def setup(ex, st):
        t.start(st)
        g['l'] = t.given(st, 'NAMED')
        lock, g['held'], g['c'] = lock_object(t, ex, st)
        st.pc += [z3.ULE(t.total(g['l']), g['c'])]
        return [t.manager, t.obj(st, g['l'], Ptr(ex.new_region(st, 'named', 24, 'heap', 8), 0)), lock]

    def post(ex, st, out):
        if out[0] != 'ret' or 'list0' not in st.ghost:
            ex.oblige(st, False, 'post', 'unlocking does not throw')
            return
        left = g['c'] - t.total(g['l'])
        ex.oblige(st, st.ghost['list0'] == left, 'post', 'the tables named leave the list, the others stay')
        ex.oblige(st, t.get(st, 'writer') == z3.If(t.known(t.e0), left, g['c']), 'post', 'exactly the tables named are unlocked')
    v.prove('exclusive unlock', ex, '^c_remove_locked$', setup, post)


def drop(v, mods, n):
    ex = v.executor(mods, unroll_sym=2, unroll_symbacks=3)
    t = Tables(v, ex)
    t.loops(ex)
    g = {}
    kind = 'readers' if n == 'shared' else 'writer'

    def setup(ex, st):
        t.start(st)
        lock, g['held'], g['c'] = lock_object(t, ex, st, kind=kind)
        return [lock]

    def post(ex, st, out):
        ok = out[0] == 'ret'
        ex.oblige(st, t.get(st, kind) == z3.If(t.known(t.e0), c64(0), g['c']) if ok else False, 'post', 'everything held is released')
    v.prove('end of a %s lock' % n, ex, '^c_drop_%s$' % {'shared': 'shared', 'exclusive': 'unique'}[n], setup, post)


def release_one(v, mods):
    ex = v.executor(mods, unroll_sym=2, unroll_symbacks=3)
    t = Tables(v, ex)
    t.loops(ex)
    g = {}
    e = z3.BitVec('released', 64)

    def setup(ex, st):
        t.start(st)
        lock, g['held'], g['c'] = lock_object(t, ex, st)
        return [lock, e]

    def post(ex, st, out):
        if out[0] != 'ret' or 'list0' not in st.ghost:
            ex.oblige(st, False, 'post', 'unlocking does not throw')
            return
        left = z3.If(e == t.e0, c64(0), g['c'])
        ex.oblige(st, st.ghost['list0'] == left, 'post', 'the table leaves the list, the others stay')
        ex.oblige(st, t.get(st, 'writer') == z3.If(t.known(t.e0), left, g['c']), 'post', 'only that table is unlocked')
    v.prove('release of one table', ex, '^c_release_storage$', setup, post)


def holder(v):
    """a lock in flight is released once, the way it was taken, unless it is kept"""
    mods = v.modules([('locks_holder_client.cpp', open(os.path.join(VERIF, 'contracts/clients/locks_holder.cpp')).read())], shims='sql')
    ex = v.executor(mods, unroll_sym=2, unroll_symbacks=3)
    t = Tables(v, ex, flight=False)
    shared, keep = z3.BitVec('shared', 1), z3.BitVec('keep', 1)

    def setup(ex, st):
        t.start(st)
        t.put(st, 'writer', z3.If(shared == 1, c64(0), c64(1)))
        t.put(st, 'readers', z3.If(shared == 1, c64(1), c64(0)))
        return [Ptr(t.ctl, t.e0), shared, keep]

    def post(ex, st, out):
        ok = out[0] == 'ret'
        left = z3.If(keep == 1, c64(1), c64(0))
        ex.oblige(st, t.get(st, 'writer') + t.get(st, 'readers') == left if ok else False, 'post', 'released exactly if not kept')
    v.prove('a lock in flight', ex, '^c_holder$', setup, post)


SET = r'std::unordered_set<unsigned long, [^$]*?>>::'
NODE = r'std::__detail::_Node_(?:const_)?iterator(?:_base)?<unsigned long, [^$]*?>::'


def scope_add(v, mods):
    """tables used by a transaction: one reference each, taken under the mutex whatever other threads add meanwhile"""
    ex = v.executor(mods, unroll_sym=2, unroll_symbacks=3)
    t = Tables(v, ex)
    g = {}
    e = z3.BitVec('used', 64)
    inset = lambda st: t.get(st, 'kept')
    inv = lambda st: z3.And(z3.ULE(inset(st), 1), t.get(st, 'refs') == inset(st))
    on(ex, CTL + r'increment_ref_transaction_count\(\)', lambda ex, st, a, ins, d: t.bump(st, 'refs', t.entry(st, a[0]) == t.e0))
    on(ex, CTL + r'decrement_ref_transaction_count\(\)', lambda ex, st, a, ins, d: t.bump(st, 'refs', t.entry(st, a[0]) == t.e0, -1))

    def lock(ex, st, a, ins, d):
        ex.oblige(st, not st.ghost.get('locked'), 'post', 'the mutex is not locked twice')
        st.ghost['locked'] = True
        for k in ('refs', 'kept'):
            t.put(st, k, ex.fresh(k, 64))
        st.pc.append(inv(st))

    def unlock(ex, st, a, ins, d):
        ex.oblige(st, bool(st.ghost.get('locked')), 'post', 'the mutex is held')
        ex.oblige(st, inv(st), 'post', 'a table of the set has exactly one reference, others none')
        st.ghost['locked'] = False
        st.ghost['after'] = inset(st)
    on(ex, r'^std::mutex::lock\(\)', lock)
    on(ex, r'^std::mutex::unlock\(\)', unlock)

    def used(ex, st):
        ex.oblige(st, bool(st.ghost.get('locked')), 'post', 'the set is used under the mutex only')

    def member(ex, st, key):
        used(ex, st)
        x = bv(ex.rd(st, key, 8), 64)
        return x, z3.If(x == t.e0, inset(st) == 1, t.in_list(c64(0), x))

    def find(ex, st, a, ins, d):
        x, c = member(ex, st, a[1])
        return Fork([(c, lambda s: g['node']), (z3.Not(c), lambda s: Ptr(0, 0))])

    def insert(ex, st, a, ins, d):
        x, c = member(ex, st, a[1])
        t.put(st, 'kept', z3.If(x == t.e0, c64(1), inset(st)))
        return (g['node'], z3.If(c, z3.BitVecVal(0, 8), z3.BitVecVal(1, 8)))
    on(ex, '^' + SET + r'find\(', find)
    on(ex, '^' + SET + r'(count|contains)\(', lambda ex, st, a, ins, d: z3.If(member(ex, st, a[1])[1], c64(1), c64(0)))
    on(ex, '^' + SET + r'end\(\)', lambda ex, st, a, ins, d: Ptr(0, 0))
    on(ex, r'^(?:[^$(]* )?' + SET + r'(insert|emplace)\b', insert)

    def setup(ex, st):
        t.start(st)
        g['node'] = Ptr(ex.new_region(st, 'element', 16, 'heap', 8), 0)
        p = Ptr(ex.new_region(st, 'scope', 256, 'heap', 8), 0)
        ex.wr(st, p, 8, t.manager)
        return [p, e]

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', 'using a table does not throw')
            return
        ex.oblige(st, not st.ghost.get('locked'), 'post', 'the mutex is free again')
        ex.oblige(st, z3.Implies(z3.And(e == t.e0, t.known(e)), st.ghost['after'] == 1) if 'after' in st.ghost else False, 'post', 'the table used is referenced')
    v.prove('use of a table', ex, '^c_reference$', setup, post)


def scope_end(v, mods):
    ex = v.executor(mods, unroll_sym=2, unroll_symbacks=3)
    t = Tables(v, ex)
    t.loops(ex)
    g = {}
    on(ex, CTL + r'increment_ref_transaction_count\(\)', lambda ex, st, a, ins, d: t.bump(st, 'refs', t.entry(st, a[0]) == t.e0))

    def down(ex, st, a, ins, d):
        e = t.entry(st, a[0])
        ex.oblige(st, z3.Implies(e == t.e0, t.get(st, 'refs') != 0), 'post', 'only a reference held is given back')
        t.bump(st, 'refs', e == t.e0, -1)
    on(ex, CTL + r'decrement_ref_transaction_count\(\)', down)
    on(ex, '^' + SET + r'c?begin\(\)', lambda ex, st, a, ins, d: Ptr(g['l'], 0))
    on(ex, '^' + SET + r'c?end\(\)', lambda ex, st, a, ins, d: Ptr(g['l'], t.lists[g['l']][2] << 3))
    on(ex, '^' + SET + r'~unordered_set\(\)', lambda ex, st, a, ins, d: None)

    def incr(ex, st, a, ins, d):
        p = ex.rd(st, a[0], 8)
        ex.wr(st, a[0], 8, Ptr(p.rid, bv(p.off, 64) + 8))
        return a[0] if '++()' in d else None
    on(ex, '^' + NODE + r'(operator\+\+\(\)|_M_incr\(\))', incr)
    on(ex, '^' + NODE + r'operator(\*|->)\(\) const', lambda ex, st, a, ins, d: ex.rd(st, a[0], 8))

    def setup(ex, st):
        t.start(st)
        g['l'] = t.given(st, 'USED')
        t.put(st, 'refs', t.total(g['l']))
        st.pc.append(z3.ULE(t.total(g['l']), 1))
        p = Ptr(ex.new_region(st, 'scope', 256, 'heap', 8), 0)
        ex.wr(st, p, 8, t.manager)
        return [p]

    def post(ex, st, out):
        ex.oblige(st, t.get(st, 'refs') == z3.If(t.known(t.e0), c64(0), t.total(g['l'])) if out[0] == 'ret' else False, 'post', 'every reference is given back')
    v.prove('end of a transaction', ex, '^c_drop_scope$', setup, post)


def counting(v, mods, n):
    ex = v.executor(mods)
    x = z3.BitVec('counted', 64)
    g = {}
    cells = {}

    def fetch(ex, st, a, ins, d):
        p = a[0]
        ex.oblige(st, g.setdefault('cell', str(p.off)) == str(p.off) if isinstance(p, Ptr) and p.rid == g['r'] else False, 'post', 'one counter')
        old = bv(st.ghost.get('count', x), 64)
        by = bv(a[1], 64)
        st.ghost['count'] = old + by if 'add' in d else old - by
        return old
    A = r'^std::__atomic_base<unsigned long>::'
    on(ex, A + r'fetch_(add|sub)\(', fetch)
    on(ex, A + r'load\(', lambda ex, st, a, ins, d: bv(st.ghost.get('count', x), 64))

    def setup(ex, st):
        g['r'] = ex.new_region(st, 'control', 1 << 12, 'heap', 64)
        return [Ptr(g['r'], 0)]
    v.prove('references counted ' + n, ex, '^c_count_%s$' % n, setup, lambda ex, st, out: ex.oblige(st, bv(out[1], 64) == x + (1 if n == 'up' else -1) if out[0] == 'ret' else False, 'post', 'one more, or one less, in one atomic step'))


def find_entry(v, mods):
    ex = v.executor(mods, unroll_sym=2, unroll_symbacks=3)
    known = F('KNOWN', BV64, z3.BoolSort())
    e = z3.BitVec('wanted', 64)
    g = {}
    MAP = r'tbb::detail::d2::concurrent_hash_map<unsigned long, [^$]*?>>>>::'
    on(ex, '^' + MAP + r'(const_)?accessor::(const_)?accessor\(\)', lambda ex, st, a, ins, d: None)
    on(ex, '^' + MAP + r'(const_)?accessor::~(const_)?accessor\(\)', lambda ex, st, a, ins, d: None)

    def find(ex, st, a, ins, d):
        ex.oblige(st, a[0].rid == g['map'] if isinstance(a[0], Ptr) else False, 'post', 'the map of tables')
        k = bv(ex.rd(st, a[2], 8), 64)

        def found(s):
            ex.wr(s, g['pair'], 8, k)
            ex.wr(s, g['pair'].add(8), 8, Ptr(g['ctl'], k))
            ex.wr(s, g['pair'].add(16), 8, Ptr(0, 0))
            return z3.BoolVal(True)
        st.pc.append(z3.ULT(k, 1 << 60))
        return Fork([(known(k), found), (z3.Not(known(k)), lambda s: z3.BoolVal(False))])
    on(ex, '^' + MAP + r'find\(', find)
    on(ex, '^' + MAP + r'(const_)?accessor::operator(->|\*)\(\) const', lambda ex, st, a, ins, d: g['pair'])

    def setup(ex, st):
        g['map'] = ex.new_region(st, 'manager', 1 << 14, 'heap', 64)
        g['ctl'] = ex.new_region(st, 'tables', 1 << 61, 'heap', 64)
        g['pair'] = Ptr(ex.new_region(st, 'entry', 24, 'heap', 8), 0)
        st.pc.append(z3.ULT(e, 1 << 60))
        return [Ptr(g['map'], 0), e]

    def post(ex, st, out):
        p = out[1]
        if out[0] != 'ret' or not isinstance(p, Ptr):
            ex.oblige(st, False, 'post', 'looking up a table returns')
        elif p.rid == g['ctl']:
            ex.oblige(st, z3.And(known(e), bv(p.off, 64) == e), 'post', 'the control of the table asked for')
        else:
            ex.oblige(st, z3.And(z3.Not(known(e)), p.rid == 0), 'post', 'nothing only for an unknown table')
    v.prove('lookup of a table', ex, '^c_find_entry$', setup, post)


def subtract(v, mods):
    """list difference; the map of the function is seen through the entry of one table"""
    ex = v.executor(mods, unroll_sym=2, unroll_symbacks=3)
    t = Tables(v, ex)
    t.indexed = False
    ex.contracts = {k: h for k, h in ex.contracts.items() if 'subtract_vectors' not in ex.demangle(k)}
    g = {}
    KEY, OTHER = F('KEY', BV64, BV64), F('COUNT_OF_ANOTHER', BV64, BV64)
    M = r'std::map<unsigned long, unsigned long, [^$]*?>>>::'
    IT = r'std::_Rb_tree_(?:const_)?iterator<std::pair<unsigned long const, unsigned long>>::'
    cell = lambda st: bv(ex.rd(st, g['node'].add(8), 8), 64)        # count of the table; 'kept' tells whether it has an entry
    on(ex, '^' + M + r'(map|~map)\(\)', lambda ex, st, a, ins, d: None)

    def look(st, key):
        x = bv(ex.rd(st, key, 8), 64)
        return x, z3.If(x == t.e0, t.get(st, 'kept') == 1, ex.fresh('there', 1) == 1)

    def other(s):
        ex.wr(s, g['other'].add(8), 8, ex.fresh('count', 64))
        return g['other']

    def index(ex, st, a, ins, d):
        x, c = look(st, a[1])

        def mine(s):
            ex.wr(s, g['node'].add(8), 8, z3.If(t.get(s, 'kept') == 1, cell(s), c64(0)))
            t.put(s, 'kept', 1)
            return g['node'].add(8)
        return Fork([(x == t.e0, mine), (x != t.e0, lambda s: other(s).add(8))])

    def find(ex, st, a, ins, d):
        x, c = look(st, a[1])
        return Fork([(z3.And(c, x == t.e0), lambda s: g['node']), (z3.And(c, x != t.e0), other), (z3.Not(c), lambda s: Ptr(g['it'], g['n'] << 4))])
    on(ex, '^' + M + r'operator\[\]\(', index)
    on(ex, '^' + M + r'find\(', find)
    on(ex, '^' + M + r'(count|contains)\(', lambda ex, st, a, ins, d: z3.If(look(st, a[1])[1], c64(1), c64(0)))

    def begin(ex, st, a, ins, d):
        k0, n = g['pos'], g['n'] << 4
        has = t.get(st, 'kept') == 1
        # one entry per key: the table is at position k0 if it has an entry, and nowhere else
        st.pc += [z3.ULE(g['n'], 1 << 38), (k0 & 15) == 0, z3.Implies(has, z3.And(z3.ULT(k0, n), KEY(k0) == t.e0)), z3.Implies(z3.Not(has), k0 == n), OTHER(k0 + 8) == cell(st)]
        st.ghost['entries'] = True
        return Ptr(g['it'], 0)
    on(ex, '^' + M + r'c?begin\(\)', begin)
    on(ex, '^' + M + r'c?end\(\)', lambda ex, st, a, ins, d: Ptr(g['it'], g['n'] << 4))

    def incr(ex, st, a, ins, d):
        p = ex.rd(st, a[0], 8)
        ex.wr(st, a[0], 8, Ptr(p.rid, bv(p.off, 64) + 16))
        return a[0]

    def deref(ex, st, a, ins, d):
        p = ex.rd(st, a[0], 8)
        if p.rid == g['it']:
            o = bv(p.off, 64)
            ex.oblige(st, z3.ULT(o, g['n'] << 4), 'post', 'an existing entry is read')
            st.pc.append((KEY(o) == t.e0) == (o == g['pos']))
        return p
    on(ex, '^' + IT + r'operator\+\+\(\)', incr)
    on(ex, '^' + IT + r'operator(\*|->)\(\) const', deref)

    t.loops(ex)
    base = ex.loop_cands
    total = lambda: z3.If(z3.ULE(t.total(g['y']), t.total(g['x'])), t.total(g['x']) - t.total(g['y']), c64(0))

    def cands(ex, st0, h, vs, hv):
        out = base(ex, st0, h, vs, hv)
        cx, cy = t.lists[g['x']][1], t.lists[g['y']][1]
        r = lambda s: bv(ex.rd(s, Ptr(t.made[0], 0), 8), 64)
        for x in vs:
            o = lambda s, x=x: bv(x.get(s), 64)
            if x.kind == 'ptr' and x.rid == g['x']:
                out.append(Cand('counted up to %s' % x, lambda s, o=o: z3.And((t.get(s, 'kept') == 1) == (cx(o(s)) != 0), z3.ULE(t.get(s, 'kept'), 1), z3.Implies(t.get(s, 'kept') == 1, cell(s) == cx(o(s))))))
            if x.kind == 'ptr' and x.rid == g['y']:
                out.append(Cand('subtracted up to %s' % x, lambda s, o=o: z3.Implies(t.get(s, 'kept') == 1, cell(s) == z3.If(z3.ULE(cy(o(s)), t.total(g['x'])), t.total(g['x']) - cy(o(s)), c64(0)))))
                out.append(Cand('kept, not wrapped %s' % x, lambda s, o=o: (t.get(s, 'kept') == 1) == (t.total(g['x']) != 0)))
            if t.made and x.kind == 'ptr' and x.rid == g['it']:
                out.append(Cand('%s at an entry' % x, lambda s, o=o: z3.And(o(s) & 15 == 0, z3.ULE(o(s), g['n'] << 4))))
                out.append(Cand('written up to %s' % x, lambda s, o=o: r(s) == z3.If(z3.ULT(g['pos'], o(s)), cell(s), c64(0))))
            if t.made and x.kind == 'int' and x.width == 64:
                r0 = r(st0)
                for b in [b for b in vs if b.kind == 'int' and b.width == 64]:
                    pass
                out.append(Cand('copies up to %s' % x, lambda s, o=o, r0=r0: z3.Or(r(s) == r0, r(s) == r0 + o(s) - bv(x.get(st0), 64))))
                cur = st0.ghost.get('current')
                if cur is not None:
                    out.append(Cand('copies of this entry up to %s' % x, lambda s, o=o, r0=r0, cur=cur: r(s) == r0 + z3.If(KEY(cur) == t.e0, o(s), c64(0))))
                    out.append(Cand('at most the count %s' % x, lambda s, o=o, cur=cur: z3.ULE(o(s), OTHER(cur + 8))))
        return out

    def deref2(ex, st, a, ins, d):
        p = deref(ex, st, a, ins, d)
        if p.rid == g['it']:
            st.ghost['current'] = bv(p.off, 64)
        return p
    on(ex, '^' + IT + r'operator(\*|->)\(\) const', deref2)
    ex.loop_cands = cands

    def setup(ex, st):
        t.start(st)
        g['x'], g['y'] = t.given(st, 'WHOLE'), t.given(st, 'REMOVED')
        g['node'], g['other'] = [Ptr(ex.new_region(st, nm, 16, 'heap', 8), 0) for nm in ('entry', 'another')]
        g['n'], g['pos'] = z3.BitVec('entries', 64), z3.BitVec('position', 64)
        g['it'] = ex.new_region(st, 'counts', 1 << 44, 'heap', 8, Content({}, Node('words', aux={8: lambda o: z3.If(o & 15 == 0, KEY(o), OTHER(o))})))
        ex.wr(st, g['node'], 8, t.e0)
        ex.wr(st, g['node'].add(8), 8, 0)
        return [t.obj(st, g[k], Ptr(ex.new_region(st, k, 24, 'heap', 8), 0)) for k in 'xy']

    def post(ex, st, out):
        if out[0] != 'ret' or 'list0' not in st.ghost:
            ex.oblige(st, False, 'post', 'the difference is returned')
            return
        ex.oblige(st, st.ghost['list0'] == total(), 'post', 'an element is in the difference as often as it is more often in the first list')
    v.prove('difference of two lists', ex, '^c_subtract$', setup, post)


def fresh(v, mods):
    ex = v.executor(mods)
    t = Tables(v, ex)

    def setup(ex, st):
        t.start(st)
        return [t.manager]

    def post(ex, st, out):
        ok = out[0] == 'ret' and 'list0' in st.ghost
        ex.oblige(st, z3.And(st.ghost['list0'] == 0, t.get(st, 'writer') == 0, t.get(st, 'readers') == 0) if ok else False, 'post', 'a new exclusive lock holds nothing')
    v.prove('new exclusive lock', ex, '^c_create_unique$', setup, post)


def contains(v, mods):
    ex = v.executor(mods, unroll_sym=2, unroll_symbacks=3)
    t = Tables(v, ex, contains=False)
    t.loops(ex)
    g = {}

    def setup(ex, st):
        t.start(st)
        g['l'] = t.given(st, 'LIST')
        return [t.obj(st, g['l'], Ptr(ex.new_region(st, 'list', 24, 'heap', 8), 0)), t.e0]

    def post(ex, st, out):
        ok = out[0] == 'ret'
        ex.oblige(st, boolv(out[1]) == (t.total(g['l']) != 0) if ok else False, 'post', 'true exactly if the table is in the list')
    v.prove('list contains', ex, '^c_contains$', setup, post)
