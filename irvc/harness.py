"""Check driver: compiles the real sources of /repo to LLVM IR, verifies contracts, replays, writes evidence."""
import hashlib
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

import z3

from . import llvmir as L
from .core import *
from .exec import *

REPO = os.environ.get('IRVC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class ToolError(Exception):
    """the sources could not be turned into something to verify (compile failure, missing function)"""


CXX = ['-std=c++17', '-DBOOST_THREAD_VERSION=4', '-w']


class Build:
    """scratch build directory of one check run"""

    def __init__(self, prop):
        self.dir = tempfile.mkdtemp(prefix='irvc_%s_' % prop)
        self.protos = None
        self.exes = {}
        self.logs = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def proto_dir(self):
        if self.protos is None:
            out = os.path.join(self.dir, 'protos')
            os.makedirs(out)
            src = os.path.join(REPO, 'src')
            ps = []
            for root, _, files in os.walk(src):
                ps += [os.path.join(root, f) for f in files if f.endswith('.proto')]
            r = subprocess.run(['protoc', '-I' + src, '--cpp_out=' + out] + sorted(ps), capture_output=True, text=True)
            if r.returncode:
                raise ToolError('protoc failed: ' + r.stderr[-2000:])
            self.protos = out
        return self.protos

    def includes(self, protos=False, shims=False):
        inc = []
        if shims == 'txn':
            inc.append('-I' + os.path.join(VERIF, 'shims_txn'))
        if shims in ('sql', 'txn'):
            inc.append('-I' + os.path.join(VERIF, 'shims_sql'))
        if shims:
            inc.append('-I' + os.path.join(VERIF, 'shims'))
        inc += ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'include')]
        if protos:
            inc.append('-I' + self.proto_dir())
        return inc

    def ir(self, units, protos=False, shims=False, flags=()):
        """units: paths relative to REPO, or ('name', text) synthesized units; returns list of Module"""
        procs = []
        inc = self.includes(protos, shims)
        for i, u in enumerate(units):
            if isinstance(u, tuple):
                path = os.path.join(self.dir, u[0])
                with open(path, 'w') as f:
                    f.write(u[1])
            elif u.startswith('proto:'):
                path = os.path.join(self.proto_dir(), u[6:])
            else:
                path = os.path.join(REPO, u)
                if not os.path.exists(path):
                    raise ToolError('missing source ' + u)
            bc = os.path.join(self.dir, 'u%d.bc' % i)
            cmd = ['clang++'] + CXX + list(flags) + ['-O1', '-Xclang', '-disable-llvm-passes', '-g1', '-fno-discard-value-names'] + inc + \
                  ['-emit-llvm', '-c', path, '-o', bc]
            procs.append((u, bc, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        outs = []
        for u, bc, p in procs:
            o, e = p.communicate()
            if p.returncode:
                raise ToolError('clang failed on %s: %s' % (u if isinstance(u, str) else u[0], e[-3000:]))
            outs.append(bc)
        procs = []
        for bc in outs:
            ob = bc[:-3] + '.opt.bc'
            procs.append((ob, subprocess.Popen(['/usr/lib/llvm-18/bin/opt', '-passes=function(sroa,simplifycfg)', bc, '-o', ob],
                                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        mods = []
        for ob, p in procs:
            o, e = p.communicate()
            if p.returncode:
                raise ToolError('opt failed: ' + e[-2000:])
            mods.append(L.Module(ob))
        return mods

    def native(self, driver, units, protos=False, shims=False, flags=(), sanitize=True, libs=()):
        key = (driver, tuple(str(u) for u in units))
        if key not in self.exes:
            self.exes[key] = self.native_(driver, units, protos, shims, flags, sanitize, libs)
        return self.exes[key]

    def native_(self, driver, units, protos=False, shims=False, flags=(), sanitize=True, libs=()):
        """compile a native replay driver against the real sources; returns executable path"""
        exe = os.path.join(self.dir, 'driver_' + hashlib.md5(driver.encode()).hexdigest()[:8])
        inc = self.includes(protos, shims)
        srcs = [os.path.join(VERIF, 'native', driver)]
        for i, u in enumerate(units):
            if isinstance(u, tuple):
                path = os.path.join(self.dir, 'n_' + u[0])
                with open(path, 'w') as f:
                    f.write(u[1])
                srcs.append(path)
            elif u.startswith('proto:'):
                srcs.append(os.path.join(self.proto_dir(), u[6:]))
            else:
                srcs.append(os.path.join(REPO, u))
        san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'] if sanitize else []
        objs = []
        procs = []
        for i, s in enumerate(srcs):
            o = '%s_%d.o' % (exe, i)
            cmd = ['clang++'] + CXX + list(flags) + ['-O1', '-g1'] + san + inc + ['-I' + os.path.join(VERIF, 'native'), '-c', s, '-o', o]
            procs.append((s, o, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        for s, o, p in procs:
            _, e = p.communicate()
            if p.returncode:
                raise ToolError('native build failed on %s: %s' % (s, e[-3000:]))
            objs.append(o)
        r = subprocess.run(['clang++'] + san + objs + ['-o', exe] + list(libs), capture_output=True, text=True)
        if r.returncode:
            raise ToolError('native link failed: ' + r.stderr[-3000:])
        return exe


class Result:
    def __init__(self):
        self.failed = []          # dict(name, status, detail)
        self.functions = []       # functions under contract
        self.obligations = 0
        self.trivial = 0
        self.discharged = 0
        self.kinds = {}
        self.solver_s = 0.0
        self.queries = 0
        self.by = {}
        self.models = set()
        self.inlined = set()
        self.loops = []
        self.vacuity = []
        self.bounded = []
        self.assumptions = []
        self.paths = 0
        self.samples = []

    def merge(self, o):
        for k, x in vars(o).items():
            y = getattr(self, k)
            if isinstance(y, list):
                y.extend(x)
            elif isinstance(y, set):
                y |= x
            elif isinstance(y, dict):
                for a, b in x.items():
                    y[a] = y.get(a, 0) + b
            else:
                setattr(self, k, y + x)


class V:
    """verification session of one property"""

    def __init__(self, prop, tier, seed, verbose=False):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.verbose = verbose
        self.build = Build(prop)
        self.res = Result()
        self._mods = {}
        self.budget_s = 560 if tier == 'quick' else 900
        self.deadline = time.time() + (640 if tier == 'quick' else 7200)     # a check has to answer within 900 s

    def modules(self, units, protos=False, shims=False, flags=()):
        key = (tuple(units), protos, shims, tuple(flags))
        if key not in self._mods:
            self._mods[key] = self.build.ir(units, protos, shims, flags)
        return self._mods[key]

    def executor(self, mods, **kw):
        ex = Executor(mods, verbose=self.verbose, timeout_ms=kw.pop("timeout_ms", 400),
                      hard_ms=kw.pop('hard_ms', 40000 if self.tier == 'quick' else 90000))
        for k, v in kw.items():
            setattr(ex, k, v)
        return ex

    def prove(self, name, ex, fn, setup, post, require_paths=1, expect=None, budget=None):
        """one contract: setup(ex, st) -> args ; post(ex, st, outcome) -> None (uses ex.oblige)

        fn: regex on the demangled name, or a Function."""
        t0 = time.time()
        if isinstance(fn, str):
            fs = ex.find(fn)
            if not fs:
                raise ToolError('function under contract not found: ' + fn)
            fn = fs[0]
        st = State()
        fail = None
        left = self.deadline - time.time()
        ex.chk.deadline = time.time() + max(1, min(budget or self.budget_s, left))
        n0, p0 = len(ex.obls), ex.paths_done
        q0, s0 = ex.chk.queries, ex.chk.time
        reached = {}
        try:
            args = setup(ex, st)
            r, _ = ex.chk.check(st.pc, [])
            if r != 'sat':
                raise ToolError('vacuous precondition of %s (%s)' % (name, r))
            st.frames = []
            outs = ex.run_function(st, fn, args)
            for o in outs:
                kind = o.out[0]
                reached[kind] = reached.get(kind, 0) + 1
                o.frames = [Frame(fn, args, None)]
                post(ex, o, o.out)
            ex.discharge()
            # vacuity canary: at least one complete path must be satisfiable
            ok = False
            for o in outs:
                r, _ = ex.chk.check(o.pc, [])
                if r == 'sat':
                    ok = True
                    break
                if r == 'unknown':
                    ok = None
            self.res.vacuity.append({'contract': name, 'paths': len(outs), 'reachable_exit': ok, 'outcomes': reached})
            if not outs or ok is False:
                fail = ('vacuous', 'no satisfiable complete path of %s' % name)
        except VerifFail as f:
            o = f.args[0]
            if o is None:
                o = ex.obls[-1] if ex.obls else None
            fail = ('obligation', o)
        except Unsupported as u:
            if os.environ.get('IRVC_TRACE'):
                traceback.print_exc()
            fail = ('unsupported', str(u))
        except Budget as b:
            fail = ('budget', str(b))
        except UnrollFail:
            fail = ('unsupported', 'loop unrolling escaped')
        except RecursionError:
            fail = ('unsupported', 'recursion')
        except z3.Z3Exception as e:
            if os.environ.get('IRVC_TRACE'):
                traceback.print_exc()
            fail = ('unsupported', 'solver interface: %s' % e)
        except (KeyError, TypeError, AttributeError, IndexError, AssertionError) as e:
            if os.environ.get('IRVC_TRACE'):
                traceback.print_exc()
            fail = ('unsupported', 'internal: %s: %s' % (type(e).__name__, e))
        ex.chk.deadline = None
        new = ex.obls[n0:]
        R = self.res
        d = ex.demangle(fn.name)
        R.functions.append({'contract': name, 'function': d[:300], 'proved': fail is None, 'obligations': len(new),
                            'seconds': round(time.time() - t0, 2)})
        R.obligations += len(new)
        R.discharged += sum(1 for o in new if o.status == 'proved')
        for o in new:
            R.kinds[o.kind] = R.kinds.get(o.kind, 0) + 1
        R.trivial += ex.nobl_trivial
        ex.nobl_trivial = 0
        R.paths += ex.paths_done - p0
        R.queries += ex.chk.queries - q0
        R.solver_s += ex.chk.time - s0
        for k, n in ex.chk.by.items():
            R.by[k] = R.by.get(k, 0) + n
        ex.chk.by = {}
        R.models |= ex.models_used | ex.contract_used
        R.inlined |= {ex.demangle(x)[:200] for x in ex.inlined}
        for k, i in ex.loop_info.items():
            R.loops.append({'contract': name, 'function': ex.demangle(k[0])[:160], 'block': k[1], 'mode': i.get('mode'), 'invariant': i.get('inv', [])})
        ex.loop_info = {}
        if fail is not None:
            kind, x = fail
            det = {'contract': name, 'function': d[:300], 'kind': kind}
            if kind == 'obligation':
                det['obligation'] = x.name if x is not None else '?'
                det['status'] = x.status if x is not None else '?'
                if x is not None and x.model is not None:
                    det['model'] = str(x.model)[:4000]
                if x is not None and x.goal is not None:
                    det['goal'] = str(x.goal)[:2000]
            else:
                det['obligation'] = '%s:%s' % (kind, x)
                det['status'] = kind
            R.failed.append(det)
            if self.verbose:
                print('  CONTRACT FAILED', name, json.dumps(det)[:1500])
        elif self.verbose:
            print('  contract %s proved: %d obligations, %d paths, %.1fs' % (name, len(new), len(outs), time.time() - t0))
        return fail is None

    def parallel(self, jobs, workers=8):
        """run independent contract jobs (callables) in forked workers and merge their results in order"""
        jobs = list(jobs)
        import pickle
        running, done = {}, {}
        nxt = 0
        base = self.res
        while nxt < len(jobs) or running:
            while nxt < len(jobs) and len(running) < workers:
                path = os.path.join(self.build.dir, 'job%d_%d.pkl' % (id(jobs) % 100000, nxt))
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        self.res = Result()
                        err = None
                        try:
                            jobs[nxt]()
                        except ToolError as e:
                            err = ('tool', str(e))
                        except BaseException as e:      # noqa
                            err = ('crash', ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
                        with open(path, 'wb') as f:
                            pickle.dump((self.res, err), f)
                        sys.stdout.flush()
                    except BaseException:      # noqa
                        traceback.print_exc()
                        code = 1
                    finally:
                        os._exit(code)
                running[pid] = (nxt, path)
                nxt += 1
            for pid in list(running):       # never reap the children of other threads
                q, status = os.waitpid(pid, os.WNOHANG)
                if q:
                    i, path = running.pop(pid)
                    done[i] = (path, status)
            time.sleep(0.005)
        for i in range(len(jobs)):
            path, status = done[i]
            if status != 0 or not os.path.exists(path):
                raise ToolError('worker of contract job %d ended with status %d' % (i, status))
            with open(path, 'rb') as f:
                r, err = pickle.load(f)
            os.remove(path)
            base.merge(r)
            if err is not None:
                base.failed.append({'contract': 'job %d' % i, 'function': '-', 'kind': 'unsupported', 'status': err[0],
                                    'obligation': 'obligations cannot be generated: %s' % err[1]})

    def lemma(self, name, goal, assumptions=(), hard_ms=60000):
        """a stand-alone lemma over specification functions"""
        chk = Checker(5000, hard_ms)
        r, m = chk.check(list(assumptions), [Not(goal)], hard=True)
        self.res.obligations += 1
        self.res.kinds['lemma'] = self.res.kinds.get('lemma', 0) + 1
        self.res.queries += chk.queries
        self.res.solver_s += chk.time
        if r == 'unsat':
            self.res.discharged += 1
            self.res.functions.append({'contract': name, 'function': '(lemma)', 'proved': True, 'obligations': 1, 'seconds': round(chk.time, 2)})
        else:
            self.res.failed.append({'contract': name, 'function': '(lemma)', 'kind': 'obligation', 'obligation': name, 'status': r,
                                    'model': str(m)[:2000] if m is not None else None})
        if self.verbose:
            print('  lemma', name, r)
        return r == 'unsat'


# ------------------------------------------------------------------ contract vocabulary
def bytes_param(ex, st, nm, maxlen=1 << 40, kind='heap'):
    """an arbitrary byte sequence [ptr, ptr+n): returns (n, ptr, IN)"""
    n = z3.BitVec('len_' + nm, 64)
    fn = z3.Function('BYTES_' + nm, BV64, BV8)
    st.pc.append(z3.ULE(n, maxlen))
    rid = ex.new_region(st, nm, n, kind, 1, Content({}, Node('fn', aux=fn)), ro=True)
    return n, Ptr(rid, 0), fn


def run_native(v, spec, mode, secs, extra=()):
    """returns (rc, stdout). driver protocol: exit 0 ok; exit 1 and a line 'FAIL ...' with the failing input;
    a sanitizer abort is a failure too."""
    exe = v.build.native(spec['driver'], spec['units'], spec.get('protos', False), spec.get('shims', False), spec.get('flags', ()),
                         spec.get('sanitize', True), spec.get('libs', ()))
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=%d:abort_on_error=0:allocator_may_return_null=1' % (1 if spec.get('leaks') else 0)
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    try:
        p = subprocess.run([exe, mode, str(v.seed), str(secs)] + list(extra), capture_output=True, text=True, timeout=secs + 60,
                           env=env, errors='replace', cwd=v.build.dir)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        o = e.stdout.decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        return 124, o + '\nFAIL timeout: the call did not return (last input above)\n', ''


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in argv
    t0 = time.time()
    sys.path.insert(0, VERIF)
    mod = importlib.import_module('contracts.' + prop.lower())
    v = V(prop, tier, seed, verbose)
    rc = 2
    try:
        rc = run_check(v, mod, prop, tier, seed, t0)
    except ToolError as e:
        print('ERROR: %s' % e)
        rc = 2
    finally:
        v.build.close()
    return rc


def native_once(v, spec, secs, exe=None):
    """(record, violation|None); raises ToolError when the driver itself fails"""
    rc, out, err = run_native(v, spec, 'search', secs)
    tail = [l for l in out.split('\n') if l.startswith('FAIL')]
    stat = [l for l in out.split('\n') if l.startswith('STAT')]
    rec = {'driver': spec['driver'], 'rc': rc, 'stat': stat[-1] if stat else '', 'seconds_limit': secs}
    if rc == 0:
        return rec, None
    if not tail and rc == 2:
        raise ToolError('native driver error: ' + out[-500:] + err[-500:])
    if not tail and re.search(r'(SEGV on unknown address 0x0+ \(pc 0x0+ )', err):
        raise ToolError('native driver called a function that is not linked in: ' + err[-500:])
    fl = tail[-1] if tail else 'FAIL sanitizer/abort rc=%d' % rc
    return rec, {'input': fl, 'stderr': err[-3000:], 'driver': spec['driver']}


def run_check(v, mod, prop, tier, seed, t0):
    specs = [s for s in (mod.NATIVE if isinstance(mod.NATIVE, list) else [mod.NATIVE]) if s is not None]
    # native conformance of the trusted models / counterexample search on the real code, next to the proof
    box = {}

    def bg(i, spec):
        try:
            box[i] = native_once(v, spec, spec.get('secs', 4) if tier == 'quick' else 60)
        except Exception as e:      # noqa
            box[i] = e
    if any(s.get('protos') for s in specs):
        v.build.proto_dir()
    threads = [threading.Thread(target=bg, args=(i, s)) for i, s in enumerate(specs)]
    for t in threads:
        t.start()
    try:
        mod.run(v)
    except ToolError as e:
        # the obligations cannot be generated from the current sources: not proved, hence reported
        v.res.failed.append({'contract': 'all', 'function': '-', 'kind': 'unsupported', 'status': 'unsupported',
                             'obligation': 'obligations cannot be generated: %s' % e})
    finally:
        for t in threads:
            t.join()
    R = v.res
    violations = []
    native = []
    out_lines = []
    for i, spec in enumerate(specs):
        r = box[i]
        if isinstance(r, Exception):
            native.append({'driver': spec['driver'], 'rc': None, 'stat': 'not run: %s' % str(r)[-600:], 'seconds_limit': 0})
            out_lines.append('NOTE native driver %s not run: %s' % (spec['driver'], str(r)[-600:]))
            continue
        rec, viol = r
        if R.failed and viol is None:
            rec, viol = native_once(v, spec, 60 if tier == 'quick' else 180)
        native.append(rec)
        if viol:
            violations.append(viol)
    known = load_known(prop)
    wall = time.time() - t0
    rc = 0
    rep = os.path.join(VERIF, 'replay')
    new_viol = []
    for x in violations:
        k = [kf for kf in known if kf['match'] in x['input']]
        if k:
            out_lines.append('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what']))
        else:
            new_viol.append(x)
    if R.failed or new_viol:
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'failed_obligations': R.failed, 'failing_inputs': new_viol,
                       'replay': 'driver native/%s built against /repo; the failing input is in failing_inputs[].input' % (
                           new_viol[0]['driver'] if new_viol else '')}, f, indent=1)
        for fobl in R.failed:
            out_lines.append('failed obligation: %s [%s] in %s (%s)' % (fobl['obligation'], fobl['status'], fobl['function'][:120], fobl['contract']))
        for x in new_viol:
            out_lines.append('failing input: ' + x['input'][:500])
        rc = 1
        out_lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, '' if new_viol else ' no-failing-input-found'))
    if R.obligations == 0 and not R.failed:
        raise ToolError('no obligations were generated')
    write_evidence(v, mod, prop, tier, seed, wall, native, len(new_viol) or len(R.failed))
    for l in out_lines:
        print(l)
    print('%s: %d/%d obligations discharged, %d more by simplification, %d contracts, solver %.1fs, wall %.1fs' % (
        prop, R.discharged, R.obligations, R.trivial, len(R.functions), R.solver_s, wall))
    return rc


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == prop]


BASE_TRUST = [
    'clang 18 front end (C++ to LLVM IR), LLVM sroa/simplifycfg passes, and that the deployed compiler implements the same C++ semantics',
    'irvc verifier core (/verif/irvc: IR semantics, memory model, loop rule, path exploration)',
    'z3 5.3.2 (and cvc5 1.1.2 when listed in solvers)',
    'memory model: distinct objects never overlap and are never re-used after free at the same identity; objects are smaller than 2^61 bytes',
    'allocation never fails; std::string growth does not invalidate outstanding pointers in the model',
]


def write_evidence(v, mod, prop, tier, seed, wall, native, nviol):
    R = v.res
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'),
        'coverage': {
            'obligations': R.obligations, 'discharged': R.discharged,
            'checker_cmd': 'python3-vt check.py %s' % prop,
            'trusted_base': BASE_TRUST + ['model (assumed contract): ' + m for m in sorted(R.models)],
            'functions_under_contract': R.functions,
            'obligations_true_by_simplification': R.trivial,
            'obligation_kinds': R.kinds,
            'solvers': R.by, 'solver_seconds': round(R.solver_s, 2), 'solver_queries': R.queries,
            'paths': R.paths,
            'loops': R.loops[:200],
            'callee_bodies_verified_inline': sorted(R.inlined)[:300],
            'vacuity_guards': R.vacuity,
            'bounded_not_proved': R.bounded,
            'failed': R.failed,
            'native_replay_search': native,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + R.assumptions,
        'wall_s': round(wall, 2), 'violations': nviol,
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
