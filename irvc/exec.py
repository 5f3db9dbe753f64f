"""irvc: path-splitting deductive verifier for LLVM IR.

Every function is executed symbolically on unbounded inputs.  Loops are discharged either by complete
unrolling (every longer path is infeasible) or by an inductive invariant: the contract supplies templates,
the greatest inductive subset is computed (Houdini) and each conjunct is a proved obligation.  Calls use the
callee's contract if one is registered, a trusted model if it is a library function, and the callee's
real IR otherwise.
"""
import os
import re
import subprocess
import sys
import time
import z3

from . import llvmir as L
from .core import *

sys.setrecursionlimit(100000)


class UnrollFail(Exception):
    def __init__(self, ctx):
        self.ctx = ctx


class VerifFail(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'regs', 'args', 'bb', 'ip', 'prev', 'call', 'cmod', 'onret')

    def __init__(self, fn, args, call=None):
        self.fn = fn
        self.regs = {}
        self.args = args
        self.bb = 0
        self.ip = 0
        self.prev = None
        self.call = call
        self.onret = None

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.regs = dict(self.regs)
        f.args = self.args
        f.bb = self.bb
        f.ip = self.ip
        f.prev = self.prev
        f.call = self.call
        f.onret = self.onret
        return f


class State:
    __slots__ = ('frames', 'pc', 'mem', 'dead', 'ghost', 'exc', 'out', 'cnt', 'owner', 'notes', 'caught', 'facts')

    def __init__(self):
        self.frames = []
        self.pc = []
        self.mem = {}
        self.dead = frozenset()
        self.ghost = {}
        self.exc = None
        self.out = None
        self.cnt = {}
        self.owner = {}
        self.notes = ()
        self.caught = ()
        self.facts = ()          # assumed facts used for obligations only, not for feasibility

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.dead = self.dead
        s.ghost = dict(self.ghost)
        s.exc = self.exc
        s.out = self.out
        s.cnt = dict(self.cnt)
        s.owner = dict(self.owner)
        s.notes = self.notes
        s.caught = self.caught
        s.facts = self.facts
        return s

    @property
    def fr(self):
        return self.frames[-1]


class LoopCtx:
    __slots__ = ('depth', 'fn', 'header', 'blocks', 'mode', 'paths', 'budget', 'symbacks')

    def __init__(self, depth, fn, header, blocks, mode, budget=0):
        self.depth = depth
        self.fn = fn
        self.header = header
        self.blocks = blocks
        self.mode = mode
        self.paths = 0
        self.budget = budget
        self.symbacks = 0


class LoopVar:
    """a loop-variant scalar location: an SSA phi or a memory cell"""

    def __init__(self, kind, name, width, get, rid=None, key=None):
        self.kind = kind      # 'int' | 'ptr'
        self.name = name
        self.width = width
        self.get = get        # State -> int|BV (for ptr: offset)
        self.rid = rid
        self.key = key

    def __repr__(self):
        return self.name


class Cand:
    def __init__(self, name, f, decr=None):
        self.name = name
        self.f = f            # State -> bool term / None when not expressible
        self.hard = False


class Obl:
    __slots__ = ('name', 'where', 'kind', 'status', 'model', 'pc', 'goal', 'detail')


STD_BASES = {
    '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error',
    '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
    '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt11range_error': '_ZTISt13runtime_error',
    '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception',
    '_ZTISt18bad_variant_access': '_ZTISt9exception', '_ZTISt19bad_optional_access': '_ZTISt9exception',
    '_ZTISt17bad_function_call': '_ZTISt9exception',
}


DEBUG_HOUDINI = bool(os.environ.get('IRVC_HOUDINI'))


class Executor:
    def __init__(self, modules, timeout_ms=3000, hard_ms=20000, verbose=False):
        self.modules = modules
        self.regions = {}
        self.nrid = 1
        self.chk = Checker(timeout_ms, hard_ms)
        self.mem = Mem(self)
        self.contracts = {}
        self.contract_used = set()
        self.models_used = set()
        self.inlined = set()
        self.obls = []
        self.pending = []
        self.nobl_trivial = 0
        self.checking = True
        self.fail_fast = True
        self.verbose = verbose
        self.fresh_n = 0
        self.ginit = {}
        self.gkey = {}
        self.dem = {}
        self.loop_mode = {}
        self.loop_cands = None        # contract supplied: f(ex, st_header, vars, info) -> [Cand]
        self.loop_axioms = None       # contract supplied: unfoldings of specification functions at loop variables
        self.refine = None            # contract supplied: called with every condition a path assumes
        self.loop_terms = None        # contract supplied: extra terms for v <= t templates
        self.loop_info = {}           # results for evidence
        self.unroll_budget = 260
        self.unroll_sym = 9
        self.unroll_total = 700
        self.unroll_symbacks = 24
        self.unroll_forks = 1 << 30     # undecided branches inside the loop, on one path
        self.path_budget = 6000
        self.paths_done = 0
        self.basefacts = {}
        self.typeid = {}
        self.check_termination = True
        self.overflow_checks = True
        self.trace = False
        self.ob_counts = {}
        self.where_stack = []
        self.ub_unreachable = True
        for m in modules:
            self._demangle(m)
        from . import models
        self.models = models.REG

    # ------------------------------------------------------------ naming
    def _demangle(self, m):
        names = list(m.functions.keys())
        p = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
        outs = p.stdout.split('\n')
        for n, d in zip(names, outs):
            self.dem[n] = d

    def demangle(self, n):
        return self.dem.get(n, n)

    def find(self, pattern, defined=True):
        """functions whose demangled name matches regex"""
        r = re.compile(pattern)
        out = []
        seen = set()
        for m in self.modules:
            for n, f in m.functions.items():
                if n in seen:
                    continue
                if r.search(self.dem.get(n, n)) and (not defined or not f.decl):
                    out.append(f)
                    seen.add(n)
        return out

    def fn_named(self, name, prefer=None):
        if prefer is not None:
            f = prefer.functions.get(name)
            if f is not None and not f.decl:
                return f
        for m in self.modules:
            f = m.functions.get(name)
            if f is not None and not f.decl:
                return f
        for m in self.modules:
            if name in m.aliases:
                r = m.aliases[name]
                if L.GetValueKind(r) == 5:
                    return self.fn_named(L.vname(r), m)
        return None

    # ------------------------------------------------------------ symbols and regions
    def fresh(self, name, w=64):
        self.fresh_n += 1
        return z3.BitVec('%s!%d' % (name, self.fresh_n), w)

    def fresh_bool(self, name):
        self.fresh_n += 1
        return z3.Bool('%s!%d' % (name, self.fresh_n))

    def fresh_fn(self, name):
        self.fresh_n += 1
        return z3.Function('%s!%d' % (name, self.fresh_n), BV64, BV8)

    def new_region(self, st, name, size, kind, align=1, content=None, ro=False):
        rid = self.nrid
        self.nrid += 1
        r = Region(rid, name, size, kind, align, ro)
        self.regions[rid] = r
        if content is None:
            content = Content({}, Node('fn', aux=self.fresh_fn('mem_' + name)))
        st.mem[rid] = content
        return rid

    def content(self, st, rid):
        c = st.mem.get(rid)
        if c is None:
            c = self.ginit[rid]
        return c

    def on_base_read(self, st, f, idx):
        facts = self.basefacts.get(f)
        if facts:
            for g in facts:
                a = g(idx)
                if a is not True and a is not None:
                    a = boolv(a)
                    if not any(x.eq(a) for x in st.pc):
                        st.pc.append(a)

    def base_addr(self, rid):
        r = self.regions[rid]
        if r.base is None:
            b = z3.BitVec('base_%d_%s' % (rid, r.name), 64)
            sz = bv(r.size, 64) if r.size is not None else z3.BitVecVal(1 << 40, 64)
            ax = self.chk.axiom
            ax(z3.UGE(b, 4096))
            ax(z3.ULE(b, (1 << 47)))
            if not isc(r.align):
                ax((b & (r.align - 1)) == 0)
            elif r.align > 1:
                ax(z3.URem(b, z3.BitVecVal(r.align, 64)) == 0 if r.align & (r.align - 1) else
                   (b & (r.align - 1)) == 0)
            for o in self.regions.values():
                if o.base is not None and o.rid != rid:
                    osz = bv(o.size, 64) if o.size is not None else z3.BitVecVal(1 << 40, 64)
                    ax(z3.Or(z3.ULT(b + sz, o.base), z3.ULT(o.base + osz, b)))
            r.base = b
        return r.base

    def ptrtoint(self, p):
        if isinstance(p, FPtr):
            n = z3.BitVec('fn_' + p.name, 64)
            self.chk.axiom(n != 0)
            return n
        if p.rid == 0:
            return p.off
        return simp(self.base_addr(p.rid) + bv(p.off, 64))

    def inttoptr(self, v):
        if isc(v):
            return Ptr(0, int(v))
        # find base symbol in linear sum
        for r in self.regions.values():
            if r.base is not None:
                d = simp(v - r.base)
                if isc(d) or not self._mentions_base(d):
                    if self._mentions(v, r.base):
                        return Ptr(r.rid, d)
        men = [r for r in self.regions.values() if r.base is not None and self._mentions(v, r.base)]
        if len(men) == 1:       # e.g. an aligned-up address: provenance of the only object it is computed from
            return Ptr(men[0].rid, simp(v - men[0].base))
        raise Unsupported('inttoptr of %s' % v)

    def _mentions(self, e, s):
        todo, seen = [e], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.eq(s):
                return True
            todo.extend(x.children())
        return False

    def _mentions_base(self, e):
        return any(r.base is not None and self._mentions(e, r.base) for r in self.regions.values())

    # ------------------------------------------------------------ logic
    def must(self, st, c, hard=False):
        if isc(c):
            return bool(c)
        s = simp(c)
        if isc(s):
            return bool(s)
        r, _ = self.chk.check(st.pc, [z3.Not(c)], hard)
        return r == 'unsat'

    def may(self, st, c):
        if isc(c):
            return bool(c)
        c = simp(boolv(c))
        if isc(c):
            return bool(c)
        r, _ = self.chk.check(st.pc, [c])
        return r != 'unsat'

    def assume(self, st, c):
        """returns False if trivially contradictory"""
        if isc(c):
            return bool(c)
        c = simp(boolv(c))
        if isc(c):
            return bool(c)
        st.pc.append(c)
        if self.refine:
            self.refine(self, st, c)
        return True

    def where(self, st):
        if not st.frames:
            return '?'
        f = st.fr
        ins = None
        bl = f.fn.blocks[f.bb]
        if f.ip > 0 and f.ip - 1 < len(bl.insts):
            ins = bl.insts[f.ip - 1]
        d = self.demangle(f.fn.name).split('(')[0]
        return '%s:%s' % (d, ins.line if ins is not None else '?')

    def oblige(self, st, cond, kind, name=None):
        """prove cond on this path, then assume it"""
        if isc(cond):
            if cond:
                self.nobl_trivial += 1
                return True
        else:
            cond = simp(boolv(cond))
            if isc(cond) and cond:
                self.nobl_trivial += 1
                return True
        if self.checking:
            o = Obl()
            o.kind = kind
            o.where = self.where(st)
            o.name = name or ('%s@%s' % (kind, o.where))
            o.pc = list(st.pc) + list(st.facts)
            o.goal = cond
            o.model = None
            o.detail = None
            o.status = 'pending'
            self.obls.append(o)
            self.ob_counts[kind] = self.ob_counts.get(kind, 0) + 1
            if self.checking != 'defer' and not self.obl_soft(o):
                pass
            if o.status == 'pending':
                self.pending.append(o)
        if isc(cond):
            st.pc.append(z3.BoolVal(bool(cond)))
            return bool(cond)
        st.pc.append(cond)
        return True

    def obl_soft(self, o):
        r, m = self.chk.check(o.pc, [Not(o.goal)])
        if r == 'unsat':
            o.status = 'proved'
            o.pc = o.goal = None
        elif r == 'sat':
            self.obl_fail(o, r, m)

    def obl_fail(self, o, r, m):
        o.status = 'failed' if r == 'sat' else 'unknown'
        o.model = m
        if self.verbose:
            print('   OBLIGATION', o.status, o.name)
        if self.fail_fast:
            raise VerifFail(o)

    def discharge(self):
        """solve every obligation that was postponed"""
        todo = [o for o in self.pending if o.status == 'pending']
        self.pending = []
        bad = []
        for o, (r, m) in zip(todo, self.chk.many([(o.pc, [Not(o.goal)]) for o in todo])):
            if r == 'unsat':
                o.status = 'proved'
                o.pc = o.goal = None
            else:
                bad.append((o, r, m))
        for o, r, m in bad:
            if m is None and r == 'sat':
                r2, m = self.chk.hard(o.pc, [Not(o.goal)])
            self.obl_fail(o, r, m)

    # ------------------------------------------------------------ constants
    def gregion(self, mod, ref):
        name = L.vname(ref)
        home = mod
        init = L.GetInitializer(ref)
        if not init:
            for m in self.modules:
                g = m.globals.get(name)
                if g and L.GetInitializer(g):
                    home, ref = m, g
                    init = L.GetInitializer(g)
                    break
        key = (home.path, name) if init else name
        rid = self.gkey.get(key)
        if rid is not None:
            return rid
        t = home.ty(L.GlobalGetValueType(ref))
        size = t.size if t.size else None
        rid = self.nrid
        self.nrid += 1
        self.gkey[key] = rid
        isconst = bool(L.IsGlobalConstant(ref))
        r = Region(rid, name, size, 'global', L.GetAlignment(ref) or 1, isconst)
        self.regions[rid] = r
        if init:
            data = {}
            self.ginit[rid] = Content({}, ZERO)
            self._cinit(home, init, 0, data)
            # pure bytes?
            if data and all(n == 1 and isc(v) for n, v in data.values()) and len(data) > 16:
                b = bytearray(size)
                for o, (n, v) in data.items():
                    b[o] = v
                self.ginit[rid] = Content({}, Node('bytes', aux=bytes(b)))
            else:
                self.ginit[rid] = Content(data, ZERO)
        else:
            self.ginit[rid] = Content({}, Node('fn', aux=self.fresh_fn('g_' + name[:40])))
        return rid

    def _cinit(self, mod, c, off, data):
        t = mod.ty(L.TypeOf(c))
        k = L.VK.get(L.GetValueKind(c))
        if k in ('cnullagg', 'undef', 'poison'):
            return
        if k in ('carray', 'cdataarray', 'cvector', 'cdatavector'):
            es = t.elem.size
            for i in range(t.n):
                self._cinit(mod, L.GetAggElem(c, i), off + i * es, data)
            return
        if k == 'cstruct':
            for i, e in enumerate(t.elems):
                self._cinit(mod, L.GetAggElem(c, i), off + t.offs[i], data)
            return
        v = self.const(mod, c, t)
        data[off] = (t.store, v)

    def const(self, mod, ref, ty):
        k = L.VK.get(L.GetValueKind(ref))
        if k == 'cint':
            if ty.width <= 64:
                v = L.ConstIntZExt(ref)
                return bool(v & 1) if ty.width == 1 else v & mask(ty.width)
            txt = L.ptext(L.PrintValue, ref).split()[-1]
            return int(txt) & mask(ty.width)
        if k == 'cnullptr':
            return NULL
        if k == 'global':
            return Ptr(self.gregion(mod, ref), 0)
        if k == 'function':
            return FPtr(L.vname(ref))
        if k == 'alias':
            a = L.AliasGetAliasee(ref)
            return self.const(mod, a, ty)
        if k in ('undef', 'poison'):
            return self.undef(ty)
        if k == 'cnullagg':
            return self.zero(ty)
        if k in ('cstruct', 'carray', 'cdataarray', 'cvector', 'cdatavector'):
            n = len(ty.elems) if ty.kind == 'struct' else ty.n
            return tuple(self.const(mod, L.GetAggElem(ref, i), ty.elems[i] if ty.kind == 'struct' else ty.elem)
                         for i in range(n))
        if k == 'cfp':
            import ctypes
            import struct
            lose = ctypes.c_int()
            d = L.ConstRealGet(ref, ctypes.byref(lose))
            if ty.width == 64:
                return struct.unpack('<Q', struct.pack('<d', d))[0]
            if ty.width == 32:
                return struct.unpack('<I', struct.pack('<f', d))[0]
            raise Unsupported('fp constant')
        if k == 'cexpr':
            op = L.OPC.get(L.GetConstOpcode(ref))
            ops = [L.GetOperand(ref, i) for i in range(L.GetNumOperands(ref))]
            tys = [mod.ty(L.TypeOf(o)) for o in ops]
            if op == 'getelementptr':
                p = self.const(mod, ops[0], tys[0])
                idx = [self.const(mod, o, t) for o, t in zip(ops[1:], tys[1:])]
                return self.gep(p, mod.ty(L.GetGEPSrc(ref)), idx, [t.width for t in tys[1:]])
            vs = [self.const(mod, o, t) for o, t in zip(ops, tys)]
            if op == 'ptrtoint':
                v = self.ptrtoint(vs[0])
                return v
            if op == 'inttoptr':
                return self.inttoptr(vs[0])
            if op == 'bitcast':
                return vs[0]
            if op == 'trunc':
                return simp(z3.Extract(ty.width - 1, 0, bv(vs[0], tys[0].width)))
            if op == 'sub':
                return simp(bv(vs[0], ty.width) - bv(vs[1], ty.width))
            if op == 'icmp' and isinstance(vs[0], FPtr) and isinstance(vs[1], Ptr) and vs[1].rid == 0 and vs[1].off == 0:
                # a thread local object without dynamic initialization has no initializer
                nul = vs[0].name.startswith('_ZTH')
                pred = L.ptext(L.PrintValue, ref).split('icmp ')[1].split()[0]
                return nul == (pred == 'eq')
            raise Unsupported('constant expression ' + str(op))
        if k == 'cnonetoken':
            return 0
        raise Unsupported('constant kind %s' % k)

    def undef(self, ty):
        if ty.kind == 'int':
            return self.fresh_bool('undef') if ty.width == 1 else self.fresh('undef', ty.width)
        if ty.kind == 'ptr':
            return Ptr(0, self.fresh('undefp', 64))
        if ty.kind == 'fp':
            return self.fresh('undeff', ty.width)
        if ty.kind == 'struct':
            return tuple(self.undef(e) for e in ty.elems)
        if ty.kind in ('array', 'vector'):
            return tuple(self.undef(ty.elem) for _ in range(ty.n))
        raise Unsupported('undef of ' + ty.kind)

    def zero(self, ty):
        if ty.kind == 'int':
            return False if ty.width == 1 else 0
        if ty.kind == 'ptr':
            return NULL
        if ty.kind == 'fp':
            return 0
        if ty.kind == 'struct':
            return tuple(self.zero(e) for e in ty.elems)
        if ty.kind in ('array', 'vector'):
            return tuple(self.zero(ty.elem) for _ in range(ty.n))
        raise Unsupported('zero of ' + ty.kind)

    # ------------------------------------------------------------ memory access
    def bounds(self, st, p, n, what):
        """obligation: [p, p+n) is inside a live region"""
        if isinstance(p, FPtr):
            self.oblige(st, False, what + '-code-pointer')
            return None
        if p.rid == 0:
            self.oblige(st, False, what + '-null-or-wild')
            raise VerifFail(None)
        r = self.regions[p.rid]
        if p.rid in st.dead:
            self.oblige(st, False, what + '-dead-object')
        size = r.size
        if r.kind == 'strbuf':
            ow = st.owner.get(p.rid)
            if ow is not None:
                size = add64(self.mem.read(st, self.content(st, ow[0]), ow[1], 8), 1)
        if size is None:
            return r
        if isc(size) and isc(p.off) and isc(n):
            ok = p.off + n <= size
        else:
            ok = And(ule(n, size), ule(p.off, sub64(size, n)))
        self.oblige(st, ok, what + '-bounds')
        return r

    def load(self, st, p, ty, check=True):
        k = ty.kind
        if k == 'struct':
            return tuple(self.load(st, p.add(o), e, check) for o, e in zip(ty.offs, ty.elems))
        if k == 'array':
            return tuple(self.load(st, p.add(i * ty.elem.size), ty.elem, check) for i in range(ty.n))
        n = ty.store
        if check:
            self.bounds(st, p, n, 'load')
        v = self.mem.read(st, self.content(st, p.rid), p.off, n)
        return self.coerce(v, ty)

    def coerce(self, v, ty):
        if ty.kind == 'ptr':
            if isinstance(v, (Ptr, FPtr)):
                return v
            if isc(v):
                return Ptr(0, int(v))
            try:
                return self.inttoptr(v)
            except Unsupported:
                return Ptr(0, v)
        if isinstance(v, (Ptr, FPtr)):
            v = self.ptrtoint(v)
        if ty.kind == 'int' and ty.width == 1:
            if isc(v):
                return bool(v & 1)
            if z3.is_bool(v):
                return v
            return simp(z3.Extract(0, 0, v) == 1)
        if ty.kind == 'int' and not isc(v) and not z3.is_bool(v) and v.size() > ty.width:
            return simp(z3.Extract(ty.width - 1, 0, v))
        if z3.is_bool(v):
            return simp(bv(v, ty.width))
        return v

    def store(self, st, p, ty, v, check=True):
        k = ty.kind
        if k == 'struct':
            for o, e, x in zip(ty.offs, ty.elems, v):
                self.store(st, p.add(o), e, x, check)
            return
        if k == 'array':
            for i in range(ty.n):
                self.store(st, p.add(i * ty.elem.size), ty.elem, v[i], check)
            return
        n = ty.store
        if ty.kind == 'int' and ty.width == 1:
            v = int(v) if isc(v) else bv(v, 8)
        if check:
            r = self.bounds(st, p, n, 'store')
            if r is not None and r.ro:
                self.oblige(st, False, 'store-to-constant')
        st.mem[p.rid] = self.mem.write(self.content(st, p.rid), p.off, n, v)

    def rd(self, st, p, n):
        """raw read without obligations"""
        return self.mem.read(st, self.content(st, p.rid), p.off, n)

    def wr(self, st, p, n, v):
        st.mem[p.rid] = self.mem.write(self.content(st, p.rid), p.off, n, v)

    # ------------------------------------------------------------ gep
    def gep(self, p, ty, idx, widths):
        off = 0
        t = ty
        for i, (x, w) in enumerate(zip(idx, widths)):
            if isc(x):
                x = sx(int(x), w)
            if i == 0:
                sc = t.size
            elif t.kind == 'struct':
                off = add64(off, t.offs[x])
                t = t.elems[x]
                continue
            else:
                t = t.elem
                sc = t.size
            if isc(x):
                off = add64(off, (x * sc) & mask(64))
            else:
                if w < 64:
                    x = z3.SignExt(64 - w, x)
                off = add64(off, simp(x * z3.BitVecVal(sc, 64)) if sc != 1 else x)
        if isinstance(p, FPtr):
            if isc(off) and off == 0:
                return p
            raise Unsupported('gep on function')
        return p.add(off)

    # ------------------------------------------------------------ operand evaluation
    def val(self, st, o):
        k = o.kind
        f = st.frames[-1]
        if k == 'inst':
            return f.regs[o.key]
        if k == 'arg':
            return f.args[o.key]
        if k == 'const':
            return self.const(f.fn.mod, o.ref, o.ty)
        return None

    # ------------------------------------------------------------ control
    def push_call(self, st, fn, args, call):
        if len(st.frames) > 220:
            raise Unsupported('call depth (recursion) in ' + self.demangle(fn.name))
        self.inlined.add(fn.name)
        st.frames.append(Frame(fn, args, call))

    def jump(self, st, target):
        f = st.fr
        blk = f.fn.blocks[target]
        if blk.phis:
            vals = []
            for ph in blk.phis:
                vals.append((ph.id, self.val(st, ph.a[f.bb])))
            for i, v in vals:
                f.regs[i] = v
        f.prev = f.bb
        f.bb = target
        f.ip = 0

    def do_return(self, st, v):
        f = st.frames.pop()
        if f.onret is not None:
            v = f.onret(st, v)
        if not st.frames:
            st.out = ('ret', v)
            return
        c = f.call
        if c is None:
            st.out = ('ret', v)
            return
        fr = st.fr
        if c.ty.kind != 'void':
            fr.regs[c.id] = v
        if c.op == 'invoke':
            self.jump(st, c.a[1])
            return 'arrive'

    def throw(self, st, tname, ptr):
        """unwind; returns 'arrive' or None (terminated)"""
        st.exc = (tname, ptr)
        f = st.fr
        # the current instruction itself may be an invoke of a modelled function
        blk = f.fn.blocks[f.bb]
        ins = blk.insts[f.ip - 1] if f.ip > 0 else None
        if ins is not None and ins.op == 'invoke':
            return self._unwind_to(st, ins)
        return self._unwind(st)

    def _unwind_to(self, st, ins):
        self.jump(st, ins.a[2])
        return 'arrive'

    def _unwind(self, st):
        while True:
            f = st.frames.pop()
            if not st.frames or f.call is None:
                st.out = ('throw', st.exc)
                return None
            if f.call.op == 'invoke':
                return self._unwind_to(st, f.call)

    def abort(self, st, why):
        st.out = ('abort', why)

    def typeinfo_bases(self, name):
        seen = []
        while name:
            seen.append(name)
            b = STD_BASES.get(name)
            if b is None:
                b = self._ti_base(name)
            name = b
        return seen

    def _ti_base(self, name):
        for m in self.modules:
            g = m.globals.get(name)
            if g and L.GetInitializer(g):
                init = L.GetInitializer(g)
                t = m.ty(L.TypeOf(init))
                if t.elems and len(t.elems) == 3:
                    b = L.GetAggElem(init, 2)
                    if L.GetValueKind(b) == 8:
                        return L.vname(b)
        return None

    def landingpad(self, st, ins):
        """returns value or None if the exception is not stopped here"""
        clauses, cleanup = ins.a
        tname, ptr = st.exc
        bases = self.typeinfo_bases(tname)
        for c in clauses:
            k = L.VK.get(L.GetValueKind(c))
            if k == 'cnullptr':
                return (ptr, self.tid('null'))
            if k == 'global':
                n = L.vname(c)
                if n in bases:
                    return (ptr, self.tid(n))
            elif k in ('carray', 'cnullagg', 'cdataarray', 'undef'):
                return (ptr, mask(32))  # filter (exception specification)
        if cleanup:
            return (ptr, 0)
        return None

    def tid(self, n):
        return self.typeid.setdefault(n, len(self.typeid) + 1)

    # ------------------------------------------------------------ main loop
    def run_until(self, states, ctx):
        """explore; returns (backs, exits, terms)"""
        work = list(states)
        backs, exits = [], []
        while work:
            st = work.pop()
            if self.chk.deadline is not None and time.time() > self.chk.deadline:
                raise Budget('time budget')
            ev = self.arrive_or_step(st, ctx, work)
            if ev is None:
                continue
            if ev == 'back':
                backs.append(st)
            elif ev == 'exit':
                exits.append(st)
                if ctx is None or ctx.mode == 'unroll':
                    self.paths_done += 1
                    if ctx is not None:
                        ctx.paths += 1
                        if ctx.paths > ctx.budget:
                            raise UnrollFail(ctx)
                    elif self.paths_done > self.path_budget:
                        raise Budget('path budget')
            elif ev == 'dead':
                pass
        return backs, exits

    def arrive_or_step(self, st, ctx, work):
        """run one state until it forks, reaches an event, or ends. Forked states are pushed on work."""
        arriving = st.frames and st.fr.ip == 0 and st.fr.prev is not None
        while True:
            if st.out is not None:
                return 'exit'
            if arriving:
                arriving = False
                d = len(st.frames)
                f = st.fr
                if ctx is not None:
                    if d < ctx.depth:
                        return 'exit'
                    if d == ctx.depth:
                        if f.bb == ctx.header and f.prev in ctx.blocks:
                            if ctx.mode == 'cut':
                                return 'back'
                            k = ('it', id(ctx))
                            st.cnt[k] = st.cnt.get(k, 0) + 1
                            if st.cnt.get(('sy', id(ctx)), 0):
                                ctx.symbacks += 1
                                if ctx.symbacks > self.unroll_symbacks:
                                    raise UnrollFail(ctx)
                            if st.cnt[k] > self.unroll_total or st.cnt.get(('sy', id(ctx)), 0) >= self.unroll_sym:
                                raise UnrollFail(ctx)
                        elif f.bb not in ctx.blocks:
                            return 'exit'
                loops = f.fn.loops()
                if f.bb in loops and f.prev not in loops[f.bb]:
                    ex = self.handle_loop(st, loops[f.bb])
                    work.extend(reversed(ex))
                    return None
            r = self.step(st, ctx, work)
            if r is None:
                continue
            if r == 'arrive':
                arriving = True
                continue
            if r == 'fork':
                return None
            if r == 'dead':
                return 'dead'

    # ------------------------------------------------------------ loops
    def handle_loop(self, st, blocks):
        f = st.fr
        key = (f.fn.name, f.bb)
        mode = self.loop_mode.get(key)
        depth = len(st.frames)
        if mode != 'cut':
            ctx = LoopCtx(depth, f.fn, f.bb, blocks, 'unroll', budget=self.unroll_budget)
            nob, npd, npe = len(self.obls), self.paths_done, len(self.pending)
            s2 = st.clone()
            s2.fr.prev = None
            try:
                old = self.fail_fast
                _, exits = self.run_until([s2], ctx)
                self.loop_info.setdefault(key, {})['mode'] = 'unrolled'
                return exits
            except UnrollFail as u:
                if u.ctx is not ctx:
                    raise
                del self.obls[nob:]
                del self.pending[npe:]
                self.paths_done = npd
                self.loop_mode[key] = 'cut'
        return self.cut_loop(st, blocks, key)

    def loop_vars(self, st, havoc, blocks):
        f = st.fr
        depth = len(st.frames)
        out = []
        for ph in f.fn.blocks[f.bb].phis:
            v = f.regs[ph.id]
            nm = 'phi%d' % ph.id
            out.append(self._mkvar(nm, v, ph.ty.width if ph.ty.kind in ('int', 'fp') else 64,
                                   lambda s, i=ph.id, d=depth: s.frames[d - 1].regs[i], ('phi', ph.id)))
        for (rid, off, n) in sorted(k for k in havoc if k[1] is not None):
            v = self.mem.read(st, self.content(st, rid), off, n)
            out.append(self._mkvar('cell_%s_%d' % (self.regions[rid].name, off), v, 8 * n,
                                   lambda s, r=rid, o=off, m=n: self.mem.read(s, self.content(s, r), o, m),
                                   ('cell', rid, off, n)))
        lens = set(st.owner.values())
        for x in out:
            k = x.key
            x.outlen = k[0] == 'cell' and ((k[1], k[2]) in lens or self.regions[k[1]].name == 'stream_sh')
        return out

    def _mkvar(self, nm, v, w, get, key):
        if isinstance(v, Ptr):
            def g(s, get=get, rid=v.rid):
                x = get(s)
                if not isinstance(x, Ptr) or x.rid != rid:
                    raise Unsupported('loop pointer changes region')
                return x.off
            return LoopVar('ptr', nm, 64, g, v.rid, key)
        if isinstance(v, FPtr):
            return LoopVar('fptr', nm, 64, get, None, key)
        if z3.is_bool(v) or type(v) is bool:
            return LoopVar('bool', nm, 1, get, None, key)
        if isinstance(v, tuple):
            return LoopVar('tuple', nm, 0, get, None, key)

        def gi(s, get=get):
            x = get(s)
            if isinstance(x, (Ptr, FPtr, tuple)):
                raise Unsupported('loop variable changes kind')
            return x
        return LoopVar('int', nm, w, gi, None, key)

    def havoc(self, st, hv):
        """fresh header state"""
        h = st.clone()
        f = h.fr
        f.prev = None
        depth = len(h.frames)
        for ph in f.fn.blocks[f.bb].phis:
            v = f.regs[ph.id]
            f.regs[ph.id] = self.havoc_val(v, ph.ty, 'L%d_%d' % (f.bb, ph.id))
        whole = {k[0] for k in hv if k[1] is None}
        for rid in whole:
            r = self.regions[rid]
            h.mem[rid] = Content({}, Node('fn', aux=self.fresh_fn('hv_' + r.name)))
        for (rid, off, n) in hv:
            if off is None:
                continue
            v = self.mem.read(st, self.content(st, rid), off, n)
            if isinstance(v, Ptr):
                nv = Ptr(v.rid, self.fresh('cell', 64)) if v.rid != 0 else None
                if nv is None:
                    raise Unsupported('loop modifies a null/unknown pointer cell')
            elif isinstance(v, FPtr):
                raise Unsupported('loop modifies function pointer')
            else:
                nv = self.fresh('cell_%s_%d' % (self.regions[rid].name, off), 8 * n)
            h.mem[rid] = self.mem.write(self.content(h, rid), off, n, nv)
        return h

    def havoc_val(self, v, ty, nm):
        if isinstance(v, Ptr):
            if v.rid == 0:
                return v if isc(v.off) else Ptr(0, self.fresh(nm, 64))
            return Ptr(v.rid, self.fresh(nm, 64))
        if isinstance(v, FPtr):
            return v
        if ty.kind == 'int' and ty.width == 1:
            return self.fresh_bool(nm)
        if isinstance(v, tuple):
            return tuple(self.havoc_val(x, e, nm) for x, e in zip(v, ty.elems))
        return self.fresh(nm, ty.width)

    def mem_diff(self, h, b, hv):
        """locations that differ between header state h and back-edge state b"""
        new = set()
        for rid, c in h.mem.items():
            c2 = b.mem.get(rid, c)
            if c2 is c:
                continue
            if (rid, None, None) in hv:
                continue
            if c2.base is not c.base:
                new.add((rid, None, None))
                continue
            offs = set(c.cells) | set(c2.cells)
            for o in offs:
                x, y = c.cells.get(o), c2.cells.get(o)
                if x is y:
                    continue
                if x is None and y is not None:
                    x = (y[0], self.mem.read(h, c, o, y[0]))
                if y is None and x is not None:
                    y = (x[0], self.mem.read(b, c2, o, x[0]))
                if x[0] == y[0] and self.same(x[1], y[1]):
                    continue
                n = max(x[0], y[0])
                if (rid, o, n) not in hv:
                    new.add((rid, o, n))
        for rid in b.mem:
            if rid not in h.mem and rid in self.ginit and b.mem[rid] is not self.ginit[rid]:
                c, c2 = self.ginit[rid], b.mem[rid]
                if c2.base is not c.base:
                    if (rid, None, None) not in hv:
                        new.add((rid, None, None))
                else:
                    for o, (n, v) in c2.cells.items():
                        if c.cells.get(o) is not c2.cells[o] and (rid, o, n) not in hv:
                            new.add((rid, o, n))
        for rid in b.dead - h.dead:
            if rid in h.mem:
                raise Unsupported('loop frees an outer object')
        if {k: v for k, v in b.owner.items() if k in h.owner} != h.owner:
            raise Unsupported('loop changes string ownership')
        return new

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.rid == b.rid and self.same(a.off, b.off)
        if isinstance(a, FPtr) and isinstance(b, FPtr):
            return a.name == b.name
        if isc(a) and isc(b):
            return a == b
        if isc(a) or isc(b) or isinstance(a, (Ptr, FPtr)) or isinstance(b, (Ptr, FPtr)):
            return False
        return a.eq(b)

    def default_cands(self, st0, h, vs, hv):
        """generic templates: ordering against entry values, sizes and each other"""
        out = []
        iv = [v for v in vs if v.kind in ('int', 'ptr')]
        for v in iv:
            e0 = v.get(st0)
            w = v.width

            def ge(s, v=v, e0=e0, w=w):
                return z3.UGE(bv(v.get(s), w), bv(e0, w))

            def le(s, v=v, e0=e0, w=w):
                return z3.ULE(bv(v.get(s), w), bv(e0, w))
            out.append(Cand('%s>=entry' % v, ge))
            out.append(Cand('%s<=entry' % v, le))
            if w < 64 or True:
                def same(s, v=v, e0=e0, w=w):
                    return bv(v.get(s), w) == bv(e0, w)
                out.append(Cand('%s==entry' % v, same))
        terms = []
        for v in iv:
            if v.kind == 'ptr':
                sz = self.regions[v.rid].size
                if sz is not None:
                    terms.append(('size(%s)' % self.regions[v.rid].name, sz))
        if self.loop_terms:
            terms += self.loop_terms(self, st0)
        # values compared with in header/body: loop-invariant icmp operands
        seen = set()
        ded = []
        for n, t in terms:
            k = str(t)
            if k not in seen:
                seen.add(k)
                ded.append((n, t))
        f = st0.fr
        for t in self.icmp_terms(st0):
            k = str(t)
            if k not in seen:
                seen.add(k)
                ded.append(('bound', t))
        for v in iv:
            if v.width != 64:
                continue
            for n, t in ded:
                def bd(s, v=v, t=t):
                    return z3.ULE(bv(v.get(s), 64), bv(t, 64))
                out.append(Cand('%s<=%s' % (v, n), bd))
        for i, a in enumerate(iv):
            for b in iv[i + 1:]:
                if a.width != b.width or a.width < 8:
                    continue
                a0, b0 = a.get(st0), b.get(st0)
                w = a.width

                def dif(s, a=a, b=b, a0=a0, b0=b0, w=w):
                    return bv(a.get(s), w) - bv(b.get(s), w) == bv(a0, w) - bv(b0, w)

                def sm(s, a=a, b=b, a0=a0, b0=b0, w=w):
                    return bv(a.get(s), w) + bv(b.get(s), w) == bv(a0, w) + bv(b0, w)
                out.append(Cand('%s-%s const' % (a, b), dif))
                out.append(Cand('%s+%s const' % (a, b), sm))
        return out

    def icmp_terms(self, st):
        """loop-invariant values compared inside the loop of the current frame (plus +-1)"""
        f = st.fr
        blocks = f.fn.loops()[f.bb]
        out = []
        for b in blocks:
            for ins in f.fn.blocks[b].insts:
                if ins.op != 'icmp':
                    continue
                for o in ins.ops:
                    v = None
                    if o.kind == 'arg':
                        v = f.args[o.key]
                    elif o.kind == 'inst' and o.key in f.regs and not self._in_loop(f.fn, blocks, o.key):
                        v = f.regs[o.key]
                    elif o.kind == 'const' and o.ty.kind == 'int' and o.ty.width == 64:
                        v = self.const(f.fn.mod, o.ref, o.ty)
                    if v is None:
                        continue
                    if isinstance(v, Ptr):
                        if v.rid:
                            out.append(v.off)
                    elif isc(v) or (z3.is_bv(v) and v.size() == 64):
                        out.append(v)
        return out

    def _in_loop(self, fn, blocks, iid):
        for b in blocks:
            for i in fn.blocks[b].insts:
                if i.id == iid:
                    return True
            for i in fn.blocks[b].phis:
                if i.id == iid:
                    return True
        return False

    def cut_loop(self, st, blocks, key):
        f = st.fr
        depth = len(st.frames)
        fn, header = f.fn, f.bb
        hv = set(self.loop_info.get(key, {}).get('hv', ()))
        hv = {k for k in hv if k[0] in st.mem or k[0] in self.ginit}
        was = self.checking
        rounds = 0
        cands = None
        while True:
            rounds += 1
            if rounds > 60:
                raise Unsupported('invariant inference does not stabilise')
            if cands is None:
                h0 = self.havoc(st, hv)
                vs = self.loop_vars(h0, hv, blocks)
                cands = self.default_cands(st, h0, vs, hv)
                if self.loop_cands:
                    cc = self.loop_cands(self, st, h0, vs, hv)
                    for c in cc:
                        c.hard = True
                    cands += cc
                # initiation
                keep, pend = set(), []
                for c in cands:
                    try:
                        t = c.f(st)
                    except Unsupported:
                        continue
                    if t is None:
                        continue
                    if not isc(t):
                        t = simp(boolv(t))
                    if isc(t):
                        r = 'unsat' if t else 'sat'
                    else:
                        r, _ = self.chk.check(st.pc, list(st.facts) + [Not(t)])
                    if r == 'unsat':
                        keep.add(c)
                    elif r != 'sat':
                        pend.append((c, t))
                if pend:
                    for (c, t), (r, _) in zip(pend, self.chk.many([(st.pc + list(st.facts), [Not(t)]) for c, t in pend], soft=False)):
                        if r == 'unsat':
                            keep.add(c)
                cands = [c for c in cands if c in keep]
            h = self.havoc(st, hv)
            inv = []
            for c in cands:
                t = c.f(h)
                inv.append(t)
                self.assume(h, t)
            if self.loop_axioms:
                self.loop_axioms(self, h, self.loop_vars(h, hv, blocks))
            nob, npe = len(self.obls), len(self.pending)
            self.checking = 'defer' if was else False
            ctx = LoopCtx(depth, fn, header, blocks, 'cut')
            try:
                backs, exits = self.run_until([h.clone()], ctx)
            finally:
                self.checking = was
            new = set()
            for b in backs:
                new |= self.mem_diff(h, b, hv)
            if new:
                # normalise: whole-region havoc subsumes cells; merge overlapping cells
                for k in new:
                    if k[1] is None:
                        hv = {x for x in hv if x[0] != k[0]}
                    hv.add(k)
                hv = self.merge_cells(hv)
                cands = None
                del self.obls[nob:]
                del self.pending[npe:]
                continue
            bad = self.not_preserved(backs, cands, rounds)
            if not bad:
                break
            cands = [c for c in cands if c not in bad]
            del self.obls[nob:]
            del self.pending[npe:]
        if self.verbose:
            print('   loop %s/%s: havoc=%s inv=%s (rounds %d, %d backs)' % (
                self.demangle(fn.name).split('(')[0], fn.blocks[header].name,
                [(self.regions[k[0]].name,) + k[1:] for k in hv], [c.name for c in cands], rounds, len(backs)))
        info = self.loop_info.setdefault(key, {})
        info['mode'] = 'invariant'
        info['hv'] = hv
        info['inv'] = [c.name for c in cands]
        # the last round is the proof: its postponed obligations stay pending, preservation was just established
        if was:
            for b in backs:
                for c in cands:
                    self.note_obl('loop-invariant', 'loop-invariant[%s]@%s' % (c.name, self.demangle(fn.name).split('(')[0]))
            if self.check_termination:
                self.termination(h, backs, hv, blocks, cands, fn)
        return exits

    def not_preserved(self, backs, cands, rounds):
        """candidates that do not hold on some back edge"""
        bad = set()
        evals = []
        for b in backs:
            ts = []
            for c in cands:
                try:
                    t = c.f(b)
                except Unsupported:
                    t = False
                if not isc(t):
                    s = simp(t)
                    t = s if isc(s) else t
                if isc(t) and not t:
                    bad.add(c)
                ts.append(t)
            evals.append(ts)
        # one query per back edge when the cheap ones all hold; refuted candidates go first, undecided ones are
        # only sent to the strong solvers once no refuted candidate is left (never dropped on a mere soft timeout)
        pend = []

        def ask(b, c, t):
            if c in bad:
                return
            r, m = self.chk.check(b.pc, list(b.facts) + [Not(t)])
            if r == 'sat':
                bad.add(c)
                if DEBUG_HOUDINI:
                    print('   drop', c.name, 'round', rounds, r, m)
            elif r != 'unsat':
                pend.append((b, c, t))
        for b, ts in zip(backs, evals):
            g = [(c, t) for c, t in zip(cands, ts) if c not in bad and not isc(t)]
            soft = [(c, t) for c, t in g if not c.hard]
            if soft:
                r, _ = self.chk.check(b.pc, list(b.facts) + [Not(And(*[t for _, t in soft]))])
                if r != 'unsat':
                    for c, t in soft:
                        ask(b, c, t)
            for c, t in g:
                if c.hard:
                    ask(b, c, t)
        if not bad and pend:
            for (b, c, t), (r, m) in zip(pend, self.chk.many([(b.pc + list(b.facts), [Not(t)]) for b, c, t in pend], soft=False)):
                if r != 'unsat':
                    bad.add(c)
                    if DEBUG_HOUDINI:
                        print('   drop', c.name, 'round', rounds, r, m, 'goal', t)
        return [c for c in cands if c in bad]

    def merge_cells(self, hv):
        whole = {k[0] for k in hv if k[1] is None}
        out = {(r, None, None) for r in whole}
        by = {}
        for k in hv:
            if k[1] is not None and k[0] not in whole:
                by.setdefault(k[0], []).append(k)
        for r, ks in by.items():
            ks.sort(key=lambda k: (k[1], -k[2]))
            cur = None
            for k in ks:
                if cur is None:
                    cur = k
                elif k[1] < cur[1] + cur[2]:
                    cur = (r, cur[1], max(cur[1] + cur[2], k[1] + k[2]) - cur[1])
                else:
                    out.add(cur)
                    cur = k
            if cur:
                out.add(cur)
        return out

    def termination(self, h, backs, hv, blocks, cands, fn):
        """some integer measure strictly decreases on every back edge"""
        vs = [v for v in self.loop_vars(h, hv, blocks) if v.kind in ('int', 'ptr')]
        bounded = {}
        for c in cands:
            if '<=' in c.name:
                bounded.setdefault(c.name.split('<=')[0], []).append(c)
        for hard in (False, True):
            for v in vs:
                w = v.width
                for what, rel in (('increases', z3.UGT), ('decreases', z3.ULT), ('increases(s)', lambda x, y: x > y), ('decreases(s)', lambda x, y: x < y)):
                    # a machine integer that strictly moves in one direction without wrapping is a measure
                    try:
                        if all(self.must(b, rel(bv(v.get(b), w), bv(v.get(h), w)), hard) for b in backs):
                            self.note_obl('loop-variant', 'loop-variant[%s %s]@%s' % (v, what, self.demangle(fn.name).split('(')[0]))
                            return
                    except Unsupported:
                        break
        for name, fs in getattr(self, 'loop_measures', lambda ex, vs: [])(self, vs):
            # lexicographically smaller on every back edge
            def less(b, fs=fs):
                r = z3.BoolVal(False)
                for f in reversed(fs):
                    x, y = f(b), f(h)
                    r = z3.Or(z3.ULT(x, y), z3.And(x == y, r))
                return r
            if all(self.must(b, less(b), True) for b in backs):
                self.note_obl('loop-variant', 'loop-variant[%s]@%s' % (name, self.demangle(fn.name).split('(')[0]))
                return
        if backs:
            self.oblige(backs[0].clone(), False, 'loop-variant', 'loop-variant@%s' % self.demangle(fn.name).split('(')[0])

    def note_obl(self, kind, name):
        o = Obl()
        o.kind, o.name, o.where, o.status = kind, name, '', 'proved'
        o.model = o.pc = o.goal = o.detail = None
        self.obls.append(o)
        self.ob_counts[kind] = self.ob_counts.get(kind, 0) + 1

    # ------------------------------------------------------------ instructions
    def fork(self, st, alts, work):
        """alts: list of (cond, fn(state)); pushes feasible alternatives; last pushed is explored first"""
        live = []
        for c, g in alts:
            if isc(c):
                if c:
                    live.append((None, g))
            elif self.may(st, c):
                live.append((c, g))
        if len(live) == 1:
            c, g = live[0]
            if c is not None:
                self.assume(st, c)
            g(st)
            work.append(st)
            return 'fork'
        for c, g in live:
            s = st.clone()
            if c is not None:
                self.assume(s, c)
            g(s)
            work.append(s)
        return 'fork'

    def step(self, st, ctx, work):
        f = st.frames[-1]
        blk = f.fn.blocks[f.bb]
        ins = blk.insts[f.ip]
        f.ip += 1
        op = ins.op
        if self.trace:
            print('     ', len(st.frames), ins)
        m = getattr(self, 'i_' + op, None)
        if m is None:
            if op in BINOPS:
                f.regs[ins.id] = self.binop(st, ins, op)
                return None
            raise Unsupported('instruction ' + op)
        return m(st, ins, f, ctx, work)

    def i_ret(self, st, ins, f, ctx, work):
        v = self.val(st, ins.ops[0]) if ins.ops else None
        return self.do_return(st, v)

    def i_br(self, st, ins, f, ctx, work):
        if len(ins.a) == 1:
            self.jump(st, ins.a[0])
            return 'arrive'
        c = self.val(st, ins.ops[0])
        if not isc(c):
            c = simp(c)
        t, e = ins.a
        if isc(c):
            self.jump(st, t if c else e)
            return 'arrive'
        nc = z3.Not(c)
        a = self.may(st, c)
        b = self.may(st, nc) if a else True
        if a and not b:
            self.jump(st, t)
            return 'arrive'
        if b and not a:
            self.jump(st, e)
            return 'arrive'
        # both feasible
        d = len(st.frames)
        s2 = st.clone()
        self.assume(st, c)
        self.assume(s2, nc)
        self.jump(st, t)
        self.jump(s2, e)
        first, second = st, s2      # second is popped first
        if ctx is not None and ctx.mode == 'unroll':
            if d == ctx.depth:
                tin, ein = t in ctx.blocks, e in ctx.blocks
                if tin != ein:
                    k = ('sy', id(ctx))
                    for s in (st, s2):
                        s.cnt[k] = s.cnt.get(k, 0) + 1
                    # explore staying in the loop first
                    if tin:
                        first, second = s2, st
                elif tin:
                    k = ('fk', id(ctx))
                    for s in (st, s2):
                        s.cnt[k] = s.cnt.get(k, 0) + 1
                    if st.cnt[k] > self.unroll_forks:
                        raise UnrollFail(ctx)
        work.append(first)
        work.append(second)
        return 'fork'

    def i_switch(self, st, ins, f, ctx, work):
        v = self.val(st, ins.ops[0])
        w = ins.ops[0].ty.width
        default = f.fn.blocks[f.bb].succs[0]
        if w == 1 and not isc(v):
            v = bv(v, 1)
        if not isc(v):
            v = simp(v)
        if isc(v):
            for k, t in ins.a:
                if k == int(v):
                    self.jump(st, t)
                    return 'arrive'
            self.jump(st, default)
            return 'arrive'
        alts = []
        groups = {}
        for k, t in ins.a:
            groups.setdefault(t, []).append(k)
        for t, ks in groups.items():
            alts.append((Or(*[v == z3.BitVecVal(k, w) for k in ks]), lambda s, t=t: self.jump(s, t)))
        alts.append((And(*[v != z3.BitVecVal(k, w) for k, _ in ins.a]), lambda s: self.jump(s, default)))
        return self.fork(st, alts, work)

    def i_unreachable(self, st, ins, f, ctx, work):
        self.oblige(st, False, 'unreachable')
        return 'dead'

    def i_alloca(self, st, ins, f, ctx, work):
        n = self.val(st, ins.ops[0]) if ins.ops else 1
        if not isc(n):
            raise Unsupported('variable alloca')
        al = L.GetAlignment(ins.ref)
        rid = self.new_region(st, 'stk_' + (L.vname(ins.ref) or str(ins.id)), ins.a.size * n, 'stack', al or 1)
        f.regs[ins.id] = Ptr(rid, 0)

    def i_load(self, st, ins, f, ctx, work):
        p = self.val(st, ins.ops[0])
        f.regs[ins.id] = self.load(st, p, ins.ty)

    def i_store(self, st, ins, f, ctx, work):
        v = self.val(st, ins.ops[0])
        p = self.val(st, ins.ops[1])
        self.store(st, p, ins.ops[0].ty, v)

    def i_getelementptr(self, st, ins, f, ctx, work):
        p = self.val(st, ins.ops[0])
        idx = [self.val(st, o) for o in ins.ops[1:]]
        f.regs[ins.id] = self.gep(p, ins.a, idx, [o.ty.width for o in ins.ops[1:]])

    def i_icmp(self, st, ins, f, ctx, work):
        a = self.val(st, ins.ops[0])
        b = self.val(st, ins.ops[1])
        t = ins.ops[0].ty
        if t.kind == 'ptr':
            f.regs[ins.id] = self.ptrcmp(st, ins.a, a, b)
        else:
            f.regs[ins.id] = self.icmp(ins.a, a, b, t.width)

    def icmp(self, pred, a, b, w):
        if isc(a) and isc(b):
            a, b = int(a), int(b)
            if pred[0] == 's':
                a, b = sx(a, w), sx(b, w)
            return {'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b,
                    'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b}[pred]
        if w == 1:
            if pred in ('eq', 'ne'):
                e = boolv(a) == boolv(b)
                return simp(e if pred == 'eq' else z3.Not(e))
            a, b = bv(a, 1), bv(b, 1)
        a, b = bv(a, w), bv(b, w)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
             'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'sgt': lambda: a > b,
             'sge': lambda: a >= b, 'slt': lambda: a < b, 'sle': lambda: a <= b}[pred]()
        return simp(r)

    def ptrcmp(self, st, pred, a, b):
        if isinstance(a, FPtr) or isinstance(b, FPtr):
            if pred in ('eq', 'ne'):
                if isinstance(a, FPtr) and isinstance(b, FPtr):
                    e = a.name == b.name
                    return e if pred == 'eq' else not e
                o = b if isinstance(a, FPtr) else a
                if o.rid == 0 and isc(o.off):
                    return pred != 'eq'
            raise Unsupported('function pointer comparison')
        if a.rid == b.rid:
            return self.icmp(pred, a.off, b.off, 64)
        if pred in ('eq', 'ne'):
            if a.rid == 0 or b.rid == 0:
                z, o = (a, b) if a.rid == 0 else (b, a)
                if isc(z.off) and z.off == 0:
                    return pred == 'ne'
            # distinct objects never share an address
            else:
                return pred == 'ne'
        return self.icmp(pred, self.ptrtoint(a), self.ptrtoint(b), 64)

    def i_select(self, st, ins, f, ctx, work):
        c = self.val(st, ins.ops[0])
        if not isc(c):
            c = simp(c)
        a = self.val(st, ins.ops[1])
        b = self.val(st, ins.ops[2])
        if isc(c):
            f.regs[ins.id] = a if c else b
            return None
        t = ins.ty
        if t.kind == 'int' and t.width == 1:
            f.regs[ins.id] = simp(z3.If(c, boolv(a), boolv(b)))
            return None
        if t.kind in ('int', 'fp'):
            f.regs[ins.id] = simp(z3.If(c, bv(a, t.width), bv(b, t.width)))
            return None
        if t.kind == 'ptr' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
            f.regs[ins.id] = Ptr(a.rid, simp(z3.If(c, bv(a.off, 64), bv(b.off, 64))))
            return None

        def sa(s):
            s.fr.regs[ins.id] = a

        def sb(s):
            s.fr.regs[ins.id] = b
        return self.fork(st, [(c, sa), (z3.Not(c), sb)], work)

    def i_zext(self, st, ins, f, ctx, work):
        v = self.val(st, ins.ops[0])
        w0, w = ins.ops[0].ty.width, ins.ty.width
        if isc(v):
            f.regs[ins.id] = int(v)
        elif w0 == 1:
            f.regs[ins.id] = simp(bv(v, w))
        else:
            f.regs[ins.id] = simp(z3.ZeroExt(w - w0, v))

    def i_sext(self, st, ins, f, ctx, work):
        v = self.val(st, ins.ops[0])
        w0, w = ins.ops[0].ty.width, ins.ty.width
        if isc(v):
            f.regs[ins.id] = sx(int(v), w0) & mask(w)
        elif w0 == 1:
            f.regs[ins.id] = simp(z3.If(boolv(v), z3.BitVecVal(mask(w), w), z3.BitVecVal(0, w)))
        else:
            f.regs[ins.id] = simp(z3.SignExt(w - w0, v))

    def i_trunc(self, st, ins, f, ctx, work):
        v = self.val(st, ins.ops[0])
        w = ins.ty.width
        if isc(v):
            v = int(v) & mask(w)
            f.regs[ins.id] = bool(v) if w == 1 else v
        else:
            x = simp(z3.Extract(w - 1, 0, v))
            if w == 1:
                x = bool(x) if isc(x) else simp(x == 1)
            f.regs[ins.id] = x

    def i_ptrtoint(self, st, ins, f, ctx, work):
        p = self.val(st, ins.ops[0])
        v = self.ptrtoint(p)
        if ins.ty.width < 64:
            v = simp(z3.Extract(ins.ty.width - 1, 0, bv(v, 64)))
        f.regs[ins.id] = v

    def i_inttoptr(self, st, ins, f, ctx, work):
        f.regs[ins.id] = self.inttoptr(self.val(st, ins.ops[0]))

    def i_bitcast(self, st, ins, f, ctx, work):
        f.regs[ins.id] = self.val(st, ins.ops[0])

    i_freeze = i_bitcast
    i_addrspacecast = i_bitcast

    def i_extractvalue(self, st, ins, f, ctx, work):
        v = self.val(st, ins.ops[0])
        for i in ins.a:
            v = v[i]
        f.regs[ins.id] = v

    def i_insertvalue(self, st, ins, f, ctx, work):
        v = self.val(st, ins.ops[0])
        x = self.val(st, ins.ops[1])

        def rec(v, path):
            if not path:
                return x
            l = list(v)
            l[path[0]] = rec(l[path[0]], path[1:])
            return tuple(l)
        f.regs[ins.id] = rec(v, ins.a)

    def i_fence(self, st, ins, f, ctx, work):
        return None

    def i_atomicrmw(self, st, ins, f, ctx, work):
        p = self.val(st, ins.ops[0])
        x = self.val(st, ins.ops[1])
        t = ins.ops[1].ty
        old = self.load(st, p, t)
        w = t.width
        if ins.a == 'xchg':
            nv = x
        else:
            a, b = bv(old, w), bv(x, w)
            nv = {'add': lambda: a + b, 'sub': lambda: a - b, 'and': lambda: a & b, 'or': lambda: a | b,
                  'xor': lambda: a ^ b, 'nand': lambda: ~(a & b), 'max': lambda: z3.If(a > b, a, b),
                  'min': lambda: z3.If(a < b, a, b), 'umax': lambda: z3.If(z3.UGT(a, b), a, b),
                  'umin': lambda: z3.If(z3.ULT(a, b), a, b)}[ins.a]()
            nv = simp(nv)
        self.store(st, p, t, nv)
        f.regs[ins.id] = old

    def i_cmpxchg(self, st, ins, f, ctx, work):
        p, e, n = [self.val(st, o) for o in ins.ops[:3]]
        t = ins.ops[1].ty
        old = self.load(st, p, t)
        w = t.width
        if t.kind == 'ptr':
            c = self.ptrcmp(st, 'eq', old, e)
        else:
            c = self.icmp('eq', old, e, w)
        if isc(c):
            if c:
                self.store(st, p, t, n)
            f.regs[ins.id] = (old, bool(c))
            return None
        self.store(st, p, t, simp(z3.If(c, bv(n, w), bv(old, w))))
        f.regs[ins.id] = (old, c)

    def i_landingpad(self, st, ins, f, ctx, work):
        v = self.landingpad(st, ins)
        if v is None:
            return self._unwind(st)
        f.regs[ins.id] = v

    def i_resume(self, st, ins, f, ctx, work):
        return self._unwind(st)

    # arithmetic
    def binop(self, st, ins, op):
        a = self.val(st, ins.ops[0])
        b = self.val(st, ins.ops[1])
        t = ins.ty
        if t.kind == 'fp':
            return self.fpop(st, op, a, b, t.width)
        if t.kind != 'int':
            raise Unsupported('arithmetic on ' + t.kind)
        w = t.width
        if w == 1:
            if op == 'and':
                return simp(And(a, b)) if not (isc(a) and isc(b)) else bool(a) and bool(b)
            if op == 'or':
                return simp(Or(a, b)) if not (isc(a) and isc(b)) else bool(a) or bool(b)
            if op == 'xor':
                if isc(a) and isc(b):
                    return bool(a) != bool(b)
                return simp(z3.Xor(boolv(a), boolv(b)))
            raise Unsupported('i1 ' + op)
        if ins.a and ins.a[0] and self.overflow_checks and op in ('add', 'sub', 'mul'):
            if not (isc(a) and isc(b)):
                x, y = bv(a, w), bv(b, w)
                if op == 'add':
                    ok = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
                elif op == 'sub':
                    ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
                else:
                    ok = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
                self.oblige(st, ok, 'signed-overflow')
            else:
                x, y = sx(int(a), w), sx(int(b), w)
                r = x + y if op == 'add' else x - y if op == 'sub' else x * y
                if not -(1 << (w - 1)) <= r < (1 << (w - 1)):
                    self.oblige(st, False, 'signed-overflow')
        if isc(a) and isc(b):
            a, b = int(a), int(b)
            m = mask(w)
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w:
                    self.oblige(st, False, 'shift-amount')
                if op == 'shl':
                    return (a << b) & m
                if op == 'lshr':
                    return a >> b
                return (sx(a, w) >> b) & m
            if b == 0:
                self.oblige(st, False, 'division-by-zero')
                return 0
            if op in ('sdiv', 'srem') and b == m and a == 1 << (w - 1):
                self.oblige(st, False, 'division-overflow')
                return a if op == 'sdiv' else 0
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sx(a, w), sx(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            if op == 'sdiv':
                return q & m
            return (x - q * y) & m
        x, y = bv(a, w), bv(b, w)
        if op in ('shl', 'lshr', 'ashr') and not isc(b):
            self.oblige(st, z3.ULT(y, w), 'shift-amount')
        if op in ('udiv', 'urem', 'sdiv', 'srem') and not isc(b):
            self.oblige(st, y != 0, 'division-by-zero')
        if op in ('sdiv', 'srem') and (not isc(b) or int(b) == mask(w)):
            self.oblige(st, Not(And(x == z3.BitVecVal(1 << (w - 1), w), y == mask(w))), 'division-overflow')
        return simp(BINOPS[op](x, y))

    # floating point (values are carried as bit patterns)
    def tofp(self, v, w):
        return z3.fpBVToFP(bv(v, w), z3.Float64() if w == 64 else z3.Float32())

    def fromfp(self, st, e, w):
        r = self.fresh('fp', w)
        st.pc.append(z3.fpBVToFP(r, z3.Float64() if w == 64 else z3.Float32()) == e)
        return r

    # optionally: the operations of IEEE 754 as uninterpreted functions of the bit patterns (integers always as 64 bit values)
    fp_uf = False
    FPUF = {'ext': z3.Function('FP_EXTEND', z3.BitVecSort(32), z3.BitVecSort(64)), 'trunc': z3.Function('FP_TRUNCATE', z3.BitVecSort(64), z3.BitVecSort(32))}
    for _w in (32, 64):
        for _o in ('fadd', 'fsub', 'fmul', 'fdiv'):
            FPUF['%s_%d' % (_o, _w)] = z3.Function('FP_%s_%d' % (_o[1:].upper(), _w), z3.BitVecSort(_w), z3.BitVecSort(_w), z3.BitVecSort(_w))
        for _o in ('si64', 'ui64'):
            FPUF['%s_%d' % (_o, _w)] = z3.Function('FP_FROM_%s_%d' % (_o.upper(), _w), z3.BitVecSort(64), z3.BitVecSort(_w))

    def fpop(self, st, op, a, b, w):
        if self.fp_uf and '%s_%d' % (op, w) in self.FPUF:
            return self.FPUF['%s_%d' % (op, w)](bv(a, w), bv(b, w))
        x, y = self.tofp(a, w), self.tofp(b, w)
        rm = z3.RNE()
        e = {'fadd': lambda: z3.fpAdd(rm, x, y), 'fsub': lambda: z3.fpSub(rm, x, y),
             'fmul': lambda: z3.fpMul(rm, x, y), 'fdiv': lambda: z3.fpDiv(rm, x, y)}.get(op)
        if e is None:
            raise Unsupported(op)
        return self.fromfp(st, e(), w)

    def i_fneg(self, st, ins, f, ctx, work):
        v = self.val(st, ins.ops[0])
        w = ins.ty.width
        f.regs[ins.id] = simp(bv(v, w) ^ z3.BitVecVal(1 << (w - 1), w))

    @staticmethod
    def fpnan(x):
        w = x.size()
        mant = 23 if w == 32 else 52
        return z3.UGT(x & ((1 << (w - 1)) - 1), z3.BitVecVal(((1 << (w - 1 - mant)) - 1) << mant, w))

    @staticmethod
    def fpkey(x):
        """signed integer ordered as the numbers are (both zeros are 0)"""
        w = x.size()
        mag = x & ((1 << (w - 1)) - 1)
        return z3.If(z3.Extract(w - 1, w - 1, x) == 1, -mag, mag)

    def i_fcmp(self, st, ins, f, ctx, work):
        w = ins.ops[0].ty.width
        x, y = bv(self.val(st, ins.ops[0]), w), bv(self.val(st, ins.ops[1]), w)
        # IEEE 754 comparisons on the bit patterns
        kx, ky = self.fpkey(x), self.fpkey(y)
        uno = z3.Or(self.fpnan(x), self.fpnan(y))
        p = ins.a
        ordd = z3.Not(uno)
        base = {'eq': lambda: z3.And(ordd, kx == ky), 'gt': lambda: z3.And(ordd, kx > ky), 'ge': lambda: z3.And(ordd, kx >= ky),
                'lt': lambda: z3.And(ordd, kx < ky), 'le': lambda: z3.And(ordd, kx <= ky), 'ne': lambda: z3.And(ordd, kx != ky)}
        if p == 'ord':
            r = z3.Not(uno)
        elif p == 'uno':
            r = uno
        elif p[0] == 'o':
            r = base[p[1:]]()
        else:
            r = z3.Or(uno, base[p[1:]]())
        f.regs[ins.id] = simp(r)

    def i_sitofp(self, st, ins, f, ctx, work):
        v = bv(self.val(st, ins.ops[0]), ins.ops[0].ty.width)
        w = ins.ty.width
        if self.fp_uf and v.size() <= 64:
            if ins.op == 'sitofp':
                f.regs[ins.id] = self.FPUF['si64_%d' % w](simp(z3.SignExt(64 - v.size(), v)))
            else:
                v = simp(z3.ZeroExt(64 - v.size(), v))
                f.regs[ins.id] = self.FPUF[('si64_%d' if ins.ops[0].ty.width < 64 else 'ui64_%d') % w](v)
            return
        so = z3.Float64() if w == 64 else z3.Float32()
        e = z3.fpSignedToFP(z3.RNE(), v, so) if ins.op == 'sitofp' else z3.fpUnsignedToFP(z3.RNE(), v, so)
        f.regs[ins.id] = self.fromfp(st, e, w)
    i_uitofp = i_sitofp

    def i_fpext(self, st, ins, f, ctx, work):
        if self.fp_uf:
            f.regs[ins.id] = self.FPUF['ext' if ins.op == 'fpext' else 'trunc'](bv(self.val(st, ins.ops[0]), ins.ops[0].ty.width))
            return
        x = self.tofp(self.val(st, ins.ops[0]), ins.ops[0].ty.width)
        w = ins.ty.width
        f.regs[ins.id] = self.fromfp(st, z3.fpFPToFP(z3.RNE(), x, z3.Float64() if w == 64 else z3.Float32()), w)
    i_fptrunc = i_fpext

    def i_fptosi(self, st, ins, f, ctx, work):
        x = self.tofp(self.val(st, ins.ops[0]), ins.ops[0].ty.width)
        w = ins.ty.width
        so = z3.BitVecSort(w)
        f.regs[ins.id] = simp(z3.fpToSBV(z3.RTZ(), x, so) if ins.op == 'fptosi' else z3.fpToUBV(z3.RTZ(), x, so))
    i_fptoui = i_fptosi

    # calls
    def i_call(self, st, ins, f, ctx, work):
        callee, _, _ = ins.a
        if callee.kind == 'asm':
            raise Unsupported('inline assembly')
        c = self.val(st, callee)
        args = [self.val(st, o) for o in ins.ops]
        if not isinstance(c, FPtr):
            if isinstance(c, Ptr) and c.rid == 0:
                self.oblige(st, False, 'call-through-null')
                raise VerifFail(None)
            raise Unsupported('indirect call through data pointer')
        return self.call(st, c.name, args, ins, ctx, work)
    i_invoke = i_call

    def ret_value(self, st, ins, v):
        """finish a modelled call"""
        if ins.ty.kind != 'void':
            if v is None:
                v = self.undef(ins.ty)
            st.fr.regs[ins.id] = v
        if ins.op == 'invoke':
            self.jump(st, ins.a[1])
            return 'arrive'
        return None

    def call(self, st, name, args, ins, ctx, work):
        d = self.demangle(name)
        h = None
        for pat, g in self.contracts.items():
            if (pat == name or pat == d or d.startswith(pat + '(')):
                h = g
                self.contract_used.add(d)
                break
        if h is None:
            h = self.models.lookup(name, d)
            if h is not None:
                self.models_used.add(d if len(d) < 200 else d[:200])
        if h is not None:
            r = h(self, st, args, ins, d)
            return self.finish_model(st, ins, r, work)
        fn = self.fn_named(name, st.fr.fn.mod)
        if fn is None:
            raise Unsupported('call to unmodelled external function ' + d)
        # byval arguments are copied
        if fn.nparams != len(args) and fn.nparams < len(args):
            raise Unsupported('variadic call ' + d)
        self.push_call(st, fn, args, ins)
        return None

    def finish_model(self, st, ins, r, work):
        """r: value | ('throw', tname, ptr) | ('abort', why) | ('fork', [(cond, fn(state)->r)]) | ('call', name, args)"""
        if isinstance(r, Act):
            if r.kind == 'throw':
                return self.throw(st, r.a, r.b if r.b is not None else self.exc_object(st))
            if r.kind == 'abort':
                self.abort(st, r.a)
                return None
            if r.kind == 'dead':
                return 'dead'
            if r.kind == 'call':
                fn = self.fn_named(r.a, st.fr.fn.mod)
                if fn is None:
                    raise Unsupported('call to unmodelled external function ' + self.demangle(r.a))
                self.push_call(st, fn, r.b, ins)
                return None
            if r.kind == 'fork':
                live = []
                for c, g in r.a:
                    if isc(c):
                        if c:
                            live.append((None, g))
                    elif self.may(st, c):
                        live.append((c, g))
                for k, (c, g) in enumerate(live):
                    s = st if k == len(live) - 1 else st.clone()
                    if c is not None:
                        self.assume(s, c)
                    rr = self.finish_model(s, ins, g(s), work)
                    if rr == 'dead':
                        continue
                    if s.out is None and rr == 'arrive':
                        pass
                    if rr != 'fork':
                        work.append(s)
                return 'fork'
        return self.ret_value(st, ins, r)

    def exc_object(self, st):
        return Ptr(self.new_region(st, 'exc', 64, 'heap', 16), 0)

    # ------------------------------------------------------------ top level
    def run_function(self, st, fn, args):
        """execute fn to the end on all paths; returns list of final states"""
        f = Frame(fn, args, None)
        st = st.clone()
        st.frames = [f]
        st.out = None
        _, exits = self.run_until([st], None)
        return exits


class Act:
    __slots__ = ('kind', 'a', 'b')

    def __init__(self, kind, a=None, b=None):
        self.kind = kind
        self.a = a
        self.b = b


def Throw(t, p=None):
    return Act('throw', t, p)


def Fork(alts):
    return Act('fork', alts)


BINOPS = {
    'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y,
    'udiv': lambda x, y: z3.UDiv(x, y), 'urem': lambda x, y: z3.URem(x, y),
    'sdiv': lambda x, y: x / y, 'srem': lambda x, y: z3.SRem(x, y),
    'shl': lambda x, y: x << y, 'lshr': lambda x, y: z3.LShR(x, y), 'ashr': lambda x, y: x >> y,
    'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y,
    'fadd': None, 'fsub': None, 'fmul': None, 'fdiv': None, 'frem': None,
}
