"""C15: privileges"""
from irvc.harness import *
from irvc.spec import *
from irvc.models import str_init, str_buf, str_size
from .c11 import on, read_value

UNITS = ['src/jogasaki/auth/action_set.cpp', 'src/jogasaki/auth/authorized_users_action_set.cpp']
CLIENT = ('auth_client.cpp', open(os.path.join(VERIF, 'contracts/clients/auth.cpp')).read())
NATIVE = {'driver': 'c15.cpp', 'units': UNITS + ['src/jogasaki/auth/fill_action_set.cpp'] + ['proto:jogasaki/proto/metadata/%s.pb.cc' % p for p in ('storage', 'common')], 'shims': 'sql', 'protos': True, 'libs': ('-lprotobuf', '-ltbb', '-lglog')}
ASSUMPTIONS = ['takatori::util::enum_set is a set of enum constants (stand-in: one bit each, iterated in order)',
               'std::unordered_map: contract of the standard library (find, erase, emplace, operator[], at, count, end: one entry per key, other entries untouched)',
               'stored sets are in normal form: ALL alone, or any of the others (established by every operation under contract); an entry is never empty']
CONTROL = 1
KINDS = 6
F = z3.Function
ENTITY = r'std::unordered_map<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, jogasaki::auth::action_set[^$]*?>>>::'


def run(v):
    mods = v.modules(UNITS + [CLIENT], shims='sql')
    jobs = [lambda: bits(v, mods)]
    for n in ('add_action', 'remove_action', 'add_actions', 'remove_actions', 'clear', 'empty', 'has_action', 'action_allowed', 'allows', 'equal', 'differ', 'of_two'):
        jobs.append(lambda n=n: sets(v, mods, n))
    for n in ('user_add', 'user_remove', 'user_removes', 'user_remove_all', 'user_find', 'allows_user'):
        jobs.append(lambda n=n: users(v, mods, n))
    protos = v.modules(['src/jogasaki/auth/fill_action_set.cpp', ('auth_proto_client.cpp', open(os.path.join(VERIF, 'contracts/clients/auth_proto.cpp')).read())], shims='sql', protos=True)
    jobs += [lambda: proto_kinds(v, protos), lambda: loading(v, protos, 'from_default'), lambda: loading(v, protos, 'from_list'), lambda: storing(v, protos)]
    v.parallel(jobs)


def bit(k):
    return z3.BitVecVal(1, 64) << z3.ZeroExt(32, k)


ALL = z3.BitVecVal(1 << CONTROL, 64)
isall = lambda s: (s & ALL) != 0
normal = lambda s: z3.And(z3.ULT(s, 1 << KINDS), z3.Or(z3.Not(isall(s)), s == ALL))
covers = lambda s, k: z3.Or(isall(s), (s & bit(k)) != 0)
covers_all = lambda s, t: z3.Or(isall(s), (t & ~s) == 0)
added = lambda s, t: z3.If(z3.Or(isall(s), isall(t)), ALL, s | t)
removed = lambda s, t: z3.If(isall(t), c64(0), s & ~t)


def bits(v, mods):
    def job(k):
        ex = v.executor(mods)
        v.prove('privilege %d' % k, ex, '^c_bit$', lambda ex, st: [k], lambda ex, st, out: ex.oblige(st, bv(out[1], 64) == 1 << k, 'post', 'one bit per privilege'))
    for k in range(KINDS):
        job(k)


def sets(v, mods, n):
    ex = v.executor(mods, unroll_sym=500, unroll_total=5000, unroll_symbacks=20000, unroll_budget=9000)
    s, t = z3.BitVec('set', 64), z3.BitVec('other', 64)
    k, j = z3.BitVec('kind', 32), z3.BitVec('kind2', 32)
    ex.contracts['observe_set'] = lambda ex, st, a, ins, d: ex.oblige(st, bv(a[0], 64) == t, 'post', 'the other set is not changed') and None

    def setup(ex, st):
        st.pc += [normal(s), normal(t), z3.ULT(k, KINDS), z3.ULT(j, KINDS)]
        return {'clear': [s], 'empty': [s], 'of_two': [j, k], 'add_actions': [s, t], 'remove_actions': [s, t], 'allows': [s, t], 'equal': [s, t], 'differ': [s, t]}.get(n, [s, k])

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', n + ' does not throw')
            return
        want = {'add_action': lambda: added(s, bit(k)), 'remove_action': lambda: removed(s, bit(k)), 'add_actions': lambda: added(s, t), 'remove_actions': lambda: removed(s, t),
                'clear': lambda: c64(0), 'of_two': lambda: added(added(c64(0), bit(j)), bit(k)), 'empty': lambda: s == 0, 'has_action': lambda: (s & bit(k)) != 0,
                'action_allowed': lambda: covers(s, k), 'allows': lambda: covers_all(s, t), 'equal': lambda: s == t, 'differ': lambda: s != t}[n]()
        if z3.is_bool(want):
            ex.oblige(st, boolv(out[1]) == want, 'post', n)
        else:
            ex.oblige(st, bv(out[1], 64) == want, 'post', n)
            ex.oblige(st, normal(want), 'post', n + ': ALL stands alone')
    v.prove(n, ex, '^c_%s$' % n, setup, post)


class Users:
    """an arbitrary map seen through the entry of one user; every operation must use that user's name"""

    def __init__(self, ex):
        self.ex = ex
        on(ex, '^' + ENTITY + r'(unordered_map|~unordered_map)\(\)', lambda ex, st, a, ins, d: None)
        on(ex, '^' + ENTITY + r'end\(\)', lambda ex, st, a, ins, d: Ptr(0, 0))
        on(ex, '^' + ENTITY + r'find\(', self.find)
        on(ex, '^' + ENTITY + r'count\(', lambda ex, st, a, ins, d: z3.If(self.look(st, a[1]), c64(1), c64(0)))
        on(ex, '^' + ENTITY + r'at\(', self.at)
        on(ex, '^' + ENTITY + r'erase\(', self.erase)
        on(ex, r'^(?:[^$]* )?' + ENTITY + r'(emplace|try_emplace|insert_or_assign)<', self.emplace)
        on(ex, '^' + ENTITY + r'operator\[\]\(', self.index)
        on(ex, r'^std::__detail::_Node(_const)?_iterator<std::pair<std::__cxx11::basic_string<[^$]*jogasaki::auth::action_set>[^$]*>::operator(->|\*)\(\) const', lambda ex, st, a, ins, d: ex.rd(st, a[0], 8))
        ex.contracts['arbitrary_users'] = self.place
        ex.contracts['observe_users'] = self.observe

    def arguments(self, st):
        self.n, self.p, self.IN = bytes_param(self.ex, st, 'user')
        self.has, self.old = z3.Bool('user_known'), z3.BitVec('stored', 64)
        st.pc += [normal(self.old), self.old != 0]
        self.node = Ptr(self.ex.new_region(st, 'entry', 40, 'heap', 8), 0)
        self.flag = Ptr(self.ex.new_region(st, 'present', 8, 'heap', 8), 0)
        self.ex.wr(st, self.flag, 8, z3.If(self.has, c64(1), c64(0)))
        self.ex.wr(st, self.node.add(32), 8, self.old)
        self.before = z3.If(self.has, self.old, c64(0))

    def place(self, ex, st, a, ins, d):
        st.ghost['map'] = (a[0].rid, str(a[0].off))

    def present(self, st):
        return bv(self.ex.rd(st, self.flag, 8), 64) == 1

    def stored(self, st):
        return bv(self.ex.rd(st, self.node.add(32), 8), 64)

    def look(self, st, key, view=False):
        ex = self.ex
        q, m = (ex.rd(st, key.add(8), 8), ex.rd(st, key, 8)) if view else (str_buf(ex, st, key), str_size(ex, st, key))
        ex.oblige(st, bv(m, 64) == self.n, 'post', 'the entry of the user named (length of the name)')
        if q.rid:
            j = z3.BitVec('j', 64)
            b = bv(ex.mem.read(st, ex.content(st, q.rid), add64(q.off, j), 1), 8)
            ex.oblige(st, z3.Implies(z3.ULT(j, self.n), b == self.IN(j)), 'post', 'the entry of the user named (every byte of the name)')
        return self.present(st)

    def find(self, ex, st, a, ins, d):
        c = self.look(st, a[1])
        return Fork([(c, lambda s: self.node), (z3.Not(c), lambda s: Ptr(0, 0))])

    def at(self, ex, st, a, ins, d):
        ex.oblige(st, self.look(st, a[1]), 'post', 'an existing entry is read')
        return self.node.add(32)

    def erase(self, ex, st, a, ins, d):
        if d.split('::erase(')[1].startswith('std::__cxx11::basic_string'):
            c = self.look(st, a[1])
            ex.wr(st, self.flag, 8, c64(0))
            return z3.If(c, c64(1), c64(0))
        p = a[1]
        if isinstance(p, Ptr) and p.rid != self.node.rid:
            p = ex.rd(st, p, 8)
        ok = isinstance(p, Ptr) and p.rid == self.node.rid
        ex.oblige(st, z3.And(ok, self.present(st)), 'post', 'an existing entry of this user is erased')
        ex.wr(st, self.flag, 8, c64(0))
        return Ptr(0, 0)

    def emplace(self, ex, st, a, ins, d):
        raise Unsupported('emplace through this signature')

    def index(self, ex, st, a, ins, d):
        c = self.look(st, a[1])
        ex.wr(st, self.node.add(32), 8, z3.If(c, self.stored(st), c64(0)))
        ex.wr(st, self.flag, 8, c64(1))
        return self.node.add(32)

    def observe(self, ex, st, a, ins, d):
        st.ghost['users'] = (self.present(st), self.stored(st))


def users(v, mods, n):
    ex = v.executor(mods, unroll_sym=500, unroll_total=5000, unroll_symbacks=20000, unroll_budget=9000)
    u = Users(ex)
    t, w = z3.BitVec('actions', 64), z3.BitVec('wanted', 64)
    k = z3.BitVec('kind', 32)
    ex.contracts['observe_set'] = lambda ex, st, a, ins, d: ex.oblige(st, bv(a[0], 64) == t, 'post', 'the public privileges are not changed') and None

    def emplace(ex, st, a, ins, d):
        view = 'basic_string_view' in d.split('emplace<')[1].split('>(')[0] if 'emplace<' in d else False
        c = u.look(st, a[1], view)
        s = bv(ex.rd(st, a[2], 8), 64)
        ex.wr(st, u.node.add(32), 8, s if 'insert_or_assign' in d else z3.If(c, u.stored(st), s))
        ex.wr(st, u.flag, 8, c64(1))
        return ex.pair(st, ins, u.node, z3.Not(c)) if hasattr(ex, 'pair') else None
    on(ex, r'^(?:[^$]* )?' + ENTITY + r'(emplace|try_emplace|insert_or_assign)<', emplace)

    def setup(ex, st):
        u.arguments(st)
        st.pc += [normal(t), normal(w), z3.ULT(k, KINDS)]
        return [u.p, u.n] + {'user_add': [t], 'user_remove': [k], 'user_removes': [t], 'allows_user': [t, w]}.get(n, [])

    def post(ex, st, out):
        if out[0] != 'ret' or 'users' not in st.ghost:
            ex.oblige(st, False, 'post', n + ' returns')
            return
        has, now = st.ghost['users']
        after = z3.If(has, now, c64(0))
        want = {'user_add': lambda: added(u.before, t), 'user_remove': lambda: removed(u.before, bit(k)), 'user_removes': lambda: removed(u.before, t),
                'user_remove_all': lambda: c64(0)}.get(n, lambda: u.before)()
        ex.oblige(st, after == want, 'post', n + ': the privileges of the user named')
        ex.oblige(st, z3.Implies(has, z3.And(now != 0, normal(now))), 'post', n + ': a stored entry is not empty')
        if n == 'user_find':
            ex.oblige(st, bv(out[1], 64) == u.before, 'post', 'the privileges found; none for an unknown user')
        if n == 'allows_user':
            i = z3.BitVec('i', 32)
            ex.oblige(st, boolv(out[1]) == z3.Or(isall(t), isall(u.before), (w & ~(t | u.before)) == 0), 'post', 'allowed exactly if every action wanted is a privilege of the user or of everybody')
    v.prove(n, ex, '^c_%s$' % n, setup, post)


# ---------------------------------------------------------------- stored definitions
PB = r'jogasaki::proto::metadata::storage::'
TO_PROTO = [0, 2, 4, 5, 6, 7]


def of_proto(k):
    r = z3.BitVecVal(0, 32)
    for i, p in enumerate(TO_PROTO):
        if i:
            r = z3.If(k == p, z3.BitVecVal(i, 32), r)
    return r


def set_contracts(ex):
    """contracts proved in sets() and users()"""
    rd = lambda st, p: bv(ex.rd(st, p, 8), 64)
    on(ex, r'^jogasaki::auth::action_set::add_action\(', lambda ex, st, a, ins, d: ex.wr(st, a[0], 8, added(rd(st, a[0]), bit(bv(a[1], 32)))) and None)
    on(ex, r'^jogasaki::auth::action_set::empty\(\)', lambda ex, st, a, ins, d: rd(st, a[0]) == 0)
    on(ex, r'^jogasaki::auth::action_set::clear\(\)', lambda ex, st, a, ins, d: ex.wr(st, a[0], 8, c64(0)) and None)
    on(ex, r'^jogasaki::auth::action_set::add_actions\(', lambda ex, st, a, ins, d: ex.wr(st, a[0], 8, added(rd(st, a[0]), rd(st, a[1]))) and None)


def repeated(ex, cls, array, count):
    """library contract of a repeated message field: elements are array + 8 i, i < count(state)"""
    R = r'google::protobuf::RepeatedPtrField<%s%s>::' % (PB, cls)
    IT = r'google::protobuf::internal::RepeatedPtrIterator<%s%s(?: const)?>::' % (PB, cls)
    on(ex, '^' + R + r'(c?begin)\(\)', lambda ex, st, a, ins, d: Ptr(array, 0))
    on(ex, '^' + R + r'(c?end)\(\)', lambda ex, st, a, ins, d: Ptr(array, count(st)))
    on(ex, '^' + R + r'size\(\)', lambda ex, st, a, ins, d: z3.Extract(31, 0, z3.LShR(count(st), 3)))
    on(ex, '^' + R + r'empty\(\)', lambda ex, st, a, ins, d: count(st) == 0)

    def get(ex, st, a, ins, d):
        i = z3.SignExt(32, bv(a[1], 32)) << 3
        ex.oblige(st, z3.ULT(i, count(st)), 'post', 'an existing element is read')
        return Ptr(array, i)
    on(ex, '^' + R + r'(Get|operator\[\]|at)\(int\) const', get)

    def deref(ex, st, a, ins, d):
        p = ex.rd(st, a[0], 8)
        ex.oblige(st, z3.ULT(bv(p.off, 64), count(st)), 'post', 'an existing element is read')
        return p
    on(ex, '^' + IT + r'operator(\*|->)\(\) const', deref)


def offs(x):
    return bv(x.off, 64)


def loading(v, mods, n):
    """the privileges read from a stored table definition"""
    ex = v.executor(mods, unroll_sym=2, unroll_symbacks=3)
    set_contracts(ex)
    K = F('PROTO_KIND', BV64, BV64, z3.BitVecSort(32))        # list, position
    N = F('LIST_LENGTH', BV64, BV64)                          # list -> number of elements
    SUM = F('PRIVILEGES', BV64, BV64, BV64)                   # list, position -> set of the kinds before
    S = F('USERS', BV64, BV64)                                # position -> state of the map
    GRANT = F('GRANT', BV64, BV64, BV64, BV64)                # map state, entry, set -> map state
    first, umap = z3.BitVec('initial', 64), z3.BitVec('users', 64)
    ne = z3.BitVec('entries', 64)
    g = {}
    WHOLE = c64(1)        # name of the list for all users; the list of the entry at offset o is named o + 2 (offsets are multiples of 8)
    cur = lambda st: st.ghost.get('list', WHOLE)

    def setup(ex, st):
        table, arr, ent = [ex.new_region(st, nm, 1 << 45, 'heap', 8) for nm in ('table', 'privileges', 'authorizations')]
        g.update(arr=arr, ent=ent)
        st.pc += [z3.ULE(ne, 1 << 30), normal(first)]
        lists(ex, arr, ent)
        target = Ptr(ex.new_region(st, 'target', 56, 'heap', 8), 0)
        ex.wr(st, target, 8, first if n == 'from_default' else umap)
        g['target'] = target
        if n == 'from_default':
            st.pc.append(SUM(WHOLE, 0) == first)
            st.pc.append(z3.ULE(N(WHOLE), 1 << 30))
        else:
            st.pc.append(S(0) == umap)
        return [Ptr(table, 0), target]

    def lists(ex, arr, ent):
        repeated(ex, 'TablePrivilegeAction', arr, lambda st: N(cur(st)) << 3)
        repeated(ex, 'TableAuthorizationEntry', ent, lambda st: ne << 3)
        whole = lambda ex, st, a, ins, d: st.ghost.update(list=WHOLE) or a[0]
        on(ex, '^' + PB + r'TableDefinition::default_privilege_list\(\) const', whole)
        on(ex, '^' + PB + r'TableDefinition::authorization_list\(\) const', lambda ex, st, a, ins, d: a[0])
        on(ex, '^' + PB + r'TableDefinition::authorization_list_size\(\) const', lambda ex, st, a, ins, d: z3.Extract(31, 0, ne))
        on(ex, '^' + PB + r'TableDefinition::authorization_list\(int\) const', lambda ex, st, a, ins, d: Ptr(ent, z3.SignExt(32, bv(a[1], 32)) << 3))
        on(ex, '^' + PB + r'TableDefinition::default_privilege_list_size\(\) const', lambda ex, st, a, ins, d: st.ghost.update(list=WHOLE) or z3.Extract(31, 0, N(WHOLE)))
        on(ex, '^' + PB + r'TableDefinition::default_privilege_list\(int\) const', lambda ex, st, a, ins, d: st.ghost.update(list=WHOLE) or Ptr(arr, z3.SignExt(32, bv(a[1], 32)) << 3))

        def own(ex, st, a, ins, d):
            nm = offs(a[0]) + 2
            st.ghost['list'] = nm
            st.pc += [SUM(nm, 0) == 0, z3.ULE(N(nm), 1 << 30)]
            return a[0]
        on(ex, '^' + PB + r'TableAuthorizationEntry::privilege_list\(\) const', own)
        on(ex, '^' + PB + r'TableAuthorizationEntry::privilege_list_size\(\) const', lambda ex, st, a, ins, d: own(ex, st, a, ins, d) and z3.Extract(31, 0, N(cur(st))))
        on(ex, '^' + PB + r'TableAuthorizationEntry::privilege_list\(int\) const', lambda ex, st, a, ins, d: own(ex, st, a, ins, d) and Ptr(arr, z3.SignExt(32, bv(a[1], 32)) << 3))
        on(ex, '^' + PB + r'TableAuthorizationEntry::identifier', lambda ex, st, a, ins, d: st.ghost.update(named=offs(a[0])) or Ptr(ent, offs(a[0])))
        on(ex, '^' + PB + r'TablePrivilegeAction::action_kind\(\) const', lambda ex, st, a, ins, d: K(cur(st), offs(a[0])))
        on(ex, r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::operator std::basic_string_view', lambda ex, st, a, ins, d: (c64(0), a[0]))

        def grant(ex, st, a, ins, d):
            nm = next((x for x in a[1:] if isinstance(x, Ptr)), None)
            s = bv(next(x for x in reversed(a) if not isinstance(x, Ptr)), 64)
            ok = nm is not None and nm.rid == ent
            ex.oblige(st, ok, 'post', 'the name of the entry is the user')
            if not ok:
                return None
            old = bv(ex.rd(st, a[0], 8), 64)
            ex.wr(st, a[0], 8, z3.If(s == 0, old, GRANT(old, offs(nm), s)))
            return None
        on(ex, r'^jogasaki::auth::authorized_users_action_set::add_user_actions\(', grant)

    def cands(ex, st0, h, vs, hv):
        out = []
        tgt = lambda s: bv(ex.rd(s, g['target'], 8), 64)
        for i in vs:
            if i.kind == 'ptr' and i.rid == g['arr']:
                at = lambda s, i=i: bv(i.get(s), 64)
            elif i.kind == 'int' and i.width == 32:
                at = lambda s, i=i: z3.SignExt(32, bv(i.get(s), 32)) << 3
            elif i.kind == 'ptr' and i.rid == g['ent']:
                at = lambda s, i=i: bv(i.get(s), 64)
            else:
                continue
            lim = z3.ULE
            out.append(Cand('%s counts' % i, lambda s, at=at: z3.And((at(s) & 7) == 0, z3.ULE(at(s), N(cur(s)) << 3))))
            out.append(Cand('%s counts entries' % i, lambda s, at=at: z3.And((at(s) & 7) == 0, z3.ULE(at(s), ne << 3))))
            for x in vs:
                if x.kind == 'int' and x.width == 64:
                    out.append(Cand('%s is the sum up to %s' % (x, i), lambda s, x=x, at=at: bv(x.get(s), 64) == SUM(cur(s), at(s))))
                    out.append(Cand('%s is the map up to %s' % (x, i), lambda s, x=x, at=at: bv(x.get(s), 64) == S(at(s))))
        return out

    def axioms(ex, h, vs):
        for i in vs:
            if i.kind == 'ptr' and i.rid in (g['arr'], g['ent']) or i.kind == 'int' and i.width == 32:
                o = bv(i.get(h), 64) if i.kind == 'ptr' else z3.SignExt(32, bv(i.get(h), 32)) << 3
                for l in {str(cur(h)): cur(h), '1': WHOLE}.values():
                    h.facts += (SUM(l, o + 8) == added(SUM(l, o), bit(of_proto(K(l, o)))),)
                t = SUM(o + 2, N(o + 2) << 3)
                h.facts += (S(o + 8) == z3.If(t == 0, S(o), GRANT(S(o), o, t)), SUM(o + 2, 0) == 0)
    ex.loop_cands, ex.loop_axioms = cands, axioms

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', n + ' does not throw')
            return
        r = bv(ex.rd(st, g['target'], 8), 64)
        if n == 'from_default':
            ex.oblige(st, r == SUM(WHOLE, N(WHOLE) << 3), 'post', 'the privileges of everybody: all of the list, and those there before')
        else:
            ex.oblige(st, r == S(ne << 3), 'post', 'each entry gives its user exactly the privileges listed')
    v.prove(n, ex, '^c_%s$' % n, setup, post)


def proto_kinds(v, mods):
    ex = v.executor(mods)

    def setup(ex, st):
        ex.out = Ptr(ex.new_region(st, 'kinds', 24, 'heap', 8), 0)
        return [ex.out]

    def post(ex, st, out):
        for i, k in enumerate(TO_PROTO):
            ex.oblige(st, bv(ex.rd(st, ex.out.add(4 * i), 4), 32) == k, 'post', 'number of the stored kind %d' % i)
    v.prove('numbers of the stored kinds', ex, '^proto_kinds$', setup, post)


def stored(s):
    """set of kinds -> set of stored kinds"""
    r = c64(0)
    for i, p in enumerate(TO_PROTO):
        r = r | z3.If((s & (1 << i)) != 0, c64(1 << p), c64(0))
    return r


def storing(v, mods):
    """the privileges written to a stored table definition"""
    ex = v.executor(mods, unroll_sym=1, unroll_symbacks=1)
    SET = F('STORED_SET', BV64, BV64)                 # offset of the set of an entry -> bits
    S = F('MESSAGE', BV64, BV64)                      # position -> list of entries
    APPEND = F('APPEND', BV64, BV64, BV64, BV64)      # list, user, kinds -> list
    ne, pub = z3.BitVec('entries', 64), z3.BitVec('public', 64)
    g = {}
    cell = {'base': 0, 'open': 8, 'user': 16, 'acc': 24, 'all': 32, 'goal': 40, 'pending': 48}
    get = lambda st, n: bv(ex.rd(st, g['log'].add(cell[n]), 8), 64)
    put = lambda st, n, x: ex.wr(st, g['log'].add(cell[n]), 8, x)
    append = lambda b, u, k: z3.If(k == 0, b, APPEND(b, u, k))
    whole = lambda st: z3.If(get(st, 'open') != 0, append(get(st, 'base'), get(st, 'user'), get(st, 'acc')), get(st, 'base'))
    P = r'^(?:[^$(]* )?' + PB
    MAP = r'std::unordered_map<std::__cxx11::basic_string<[^$]*?jogasaki::auth::action_set[^$]*?>>>::'
    IT = r'std::__detail::_Node_(?:const_)?iterator(?:_base)?<std::pair<[^$]*?jogasaki::auth::action_set>[^$]*?>::'
    ES = r'^takatori::util::enum_set<jogasaki::auth::action_kind, [^$]*?>::'

    def setup(ex, st):
        g['ent'] = ex.new_region(st, 'users', 1 << 45, 'heap', 8, Content({}, Node('words', aux={8: SET})))
        g['log'] = Ptr(ex.new_region(st, 'message', 56, 'heap', 8), 0)
        g['msg'], g['entry'], g['priv'], g['ppriv'] = [Ptr(ex.new_region(st, nm, 1024, 'heap', 8), 0) for nm in ('table', 'entry', 'privilege', 'public_privilege')]
        g['public'] = Ptr(ex.new_region(st, 'everybody', 8, 'heap', 8), 0)
        ex.wr(st, g['public'], 8, pub)
        for n in cell:
            put(st, n, 0)
        put(st, 'base', z3.BitVec('list0', 64))
        st.pc += [z3.ULE(ne, 1 << 30), normal(pub), S(0) == z3.BitVec('list0', 64)]
        m = Ptr(ex.new_region(st, 'map', 56, 'heap', 8), 0)
        return [m, g['public'], g['msg']]

    same = lambda p, q: isinstance(p, Ptr) and p.rid == g[q].rid
    on(ex, '^' + MAP + r'c?begin\(\)', lambda ex, st, a, ins, d: Ptr(g['ent'], 0))
    on(ex, '^' + MAP + r'c?end\(\)', lambda ex, st, a, ins, d: Ptr(g['ent'], ne * 40))

    def incr(ex, st, a, ins, d):
        p = ex.rd(st, a[0], 8)
        ex.wr(st, a[0], 8, Ptr(p.rid, bv(p.off, 64) + 40))
        return a[0] if '++()' in d else None
    on(ex, '^' + IT + r'(operator\+\+\(\)|_M_incr\(\))', incr)

    def deref(ex, st, a, ins, d):
        p = ex.rd(st, a[0], 8)
        ex.oblige(st, z3.ULT(bv(p.off, 64), ne * 40), 'post', 'an existing entry is read')
        return p
    on(ex, '^' + IT + r'operator(\*|->)\(\) const', deref)
    # sets: what is left of the iteration; proved equal to the members of the set in sets()

    def begin(ex, st, a, ins, d):
        s = bv(ex.rd(st, a[0], 8), 64)
        st.pc.append(normal(s))
        put(st, 'goal', stored(s))
        return (s, c64(0))
    on(ex, ES + r'begin\(\) const', begin)
    on(ex, ES + r'end\(\) const', lambda ex, st, a, ins, d: (c64(0), c64(0)))

    def low(x):
        r = z3.BitVecVal(KINDS - 1, 32)
        for i in reversed(range(KINDS - 1)):
            r = z3.If((x & (1 << i)) != 0, z3.BitVecVal(i, 32), r)
        return r
    on(ex, ES + r'iterator::operator\*\(\) const', lambda ex, st, a, ins, d: low(bv(ex.rd(st, a[0], 8), 64)))

    def step(ex, st, a, ins, d):
        x = bv(ex.rd(st, a[0], 8), 64)
        ex.wr(st, a[0], 8, x & (x - 1))
        return a[0]
    on(ex, ES + r'iterator::operator\+\+\(\)', step)
    # the message

    def add_entry(ex, st, a, ins, d):
        ex.oblige(st, get(st, 'pending') == 0, 'post', 'no privilege without a kind')
        w = whole(st)
        put(st, 'base', w)
        put(st, 'open', 1)
        put(st, 'user', -1)
        put(st, 'acc', 0)
        return g['entry']
    on(ex, P + r'TableDefinition::add_authorization_list\(\)', add_entry)

    def add_priv(which):
        def h(ex, st, a, ins, d):
            ex.oblige(st, get(st, 'pending') == 0, 'post', 'no privilege without a kind')
            put(st, 'pending', 1)
            return g[which]
        return h
    on(ex, P + r'TableAuthorizationEntry::add_privilege_list\(\)', add_priv('priv'))
    on(ex, P + r'TableDefinition::add_default_privilege_list\(\)', add_priv('ppriv'))

    def kind(ex, st, a, ins, d):
        k = z3.BitVecVal(1, 64) << z3.ZeroExt(32, bv(a[1], 32))
        c = 'acc' if same(a[0], 'priv') else 'all'
        ex.oblige(st, z3.And(z3.ULT(bv(a[1], 32), 64), get(st, 'pending') == 1), 'post', 'one kind for a new privilege')
        put(st, c, get(st, c) | k)
        put(st, 'pending', 0)
    on(ex, P + r'TablePrivilegeAction::set_action_kind\(', kind)

    def name(ex, st, a, ins, d):
        ok = isinstance(a[1], Ptr) and a[1].rid == g['ent']
        ex.oblige(st, ok, 'post', 'the user of the entry')
        if ok:
            put(st, 'user', bv(a[1].off, 64))
    on(ex, P + r'TableAuthorizationEntry::set_identifier', name)

    def cands(ex, st0, h, vs, hv):
        out = [Cand('no privilege open', lambda s: get(s, 'pending') == 0)]
        for x in vs:
            if x.kind == 'ptr' and x.rid == g['ent']:
                at = lambda s, x=x: bv(x.get(s), 64)
                out.append(Cand('%s counts entries' % x, lambda s, at=at: z3.And(z3.URem(at(s), c64(40)) == 0, z3.ULE(at(s), ne * 40))))
                out.append(Cand('the list up to %s' % x, lambda s, at=at: whole(s) == S(at(s))))
            if x.kind == 'int' and x.width == 64:
                for c in ('acc', 'all'):
                    out.append(Cand('%s and the rest of %s' % (c, x), lambda s, x=x, c=c: z3.And(get(s, c) | stored(bv(x.get(s), 64)) == get(s, 'goal'), z3.ULT(bv(x.get(s), 64), 1 << KINDS))))
        return out

    def axioms(ex, h, vs):
        for x in vs:
            if x.kind == 'ptr' and x.rid == g['ent']:
                o = bv(x.get(h), 64)
                h.facts += (S(o + 40) == append(S(o), o, stored(SET(o + 32))),)
    ex.loop_cands, ex.loop_axioms = cands, axioms

    def post(ex, st, out):
        if out[0] != 'ret':
            ex.oblige(st, False, 'post', 'does not throw')
            return
        ex.oblige(st, get(st, 'pending') == 0, 'post', 'no privilege without a kind')
        ex.oblige(st, whole(st) == S(ne * 40), 'post', 'every user with exactly the privileges granted')
        ex.oblige(st, get(st, 'all') == stored(pub), 'post', 'the privileges of everybody')
    v.prove('storing', ex, '^c_to_proto$', setup, post)
    for k in range(KINDS):
        v.lemma('a stored kind is read as the kind written (%d)' % k, of_proto(z3.BitVecVal(TO_PROTO[k], 32)) == k, [])
