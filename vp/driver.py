"""Solver-based checking driver.

For one property: compile the real code from /repo's working tree (clang to LLVM
bitcode for sx, goto-cc for CBMC), link it with the property's harnesses, let
the symbolic executor and its solver (sx: Z3, CBMC: SAT) decide every assertion
and memory access over all symbolic inputs within the stated bounds, replay any
counterexample natively against the same sources (gcc, ASan, UBSan) and report
only what reproduces.
"""
import concurrent.futures as cf
import copy
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')
SX = os.path.join(VERIF, 'build', 'sx')
KNOWN = os.path.join(VERIF, 'known_findings.txt')

INC = ['-I' + HARN, '-I' + REPO + '/src/tsm', '-I' + REPO + '/src/shared',
       '-I' + REPO + '/external', '-I' + REPO + '/external/wcwidth',
       '-I' + REPO + '/external/xkbcommon']
BASEDEFS = ['-D_GNU_SOURCE', '-D_FILE_OFFSET_BITS=64', '-DNDEBUG']

SRC = {
    'screen': 'src/tsm/tsm-screen.c',
    'render': 'src/tsm/tsm-render.c',
    'selection': 'src/tsm/tsm-selection.c',
    'unicode': 'src/tsm/tsm-unicode.c',
    'vte': 'src/tsm/tsm-vte.c',
    'charsets': 'src/tsm/tsm-vte-charsets.c',
    'wcwidth': 'external/wcwidth/wcwidth.c',
    'htable': 'src/shared/shl-htable.c',
    'ring': 'src/shared/shl-ring.c',
    'pty': 'src/shared/shl-pty.c',
}


class Case:
    def __init__(self, name, harness, srcs, defs=(), unwind=8, max_unwind=None,
                 extra=(), stubs=(), timeout=400, tier='quick', what='',
                 malloc_fail=False, repo_defs=(), typed_mem=True, sat=None,
                 checks=True, unwindset=(), engine='sx', max_steps=3000000, cost=0, shared=False):
        self.name = name
        self.harness = harness
        self.srcs = list(srcs)
        self.defs = list(defs)
        self.unwind = unwind
        self.max_unwind = max_unwind or 4 * unwind + 8
        self.extra = list(extra)
        self.stubs = list(stubs)
        self.timeout = timeout
        self.tier = tier
        self.what = what
        self.malloc_fail = malloc_fail
        self.repo_defs = list(repo_defs)
        self.typed_mem = typed_mem
        self.sat = sat
        self.checks = checks
        self.unwindset = list(unwindset)
        self.engine = engine
        self.max_steps = max_steps
        self.cost = cost
        self.shared = shared


class Res:
    def __init__(self, case):
        self.case = case
        self.status = 'error'     # ok | violation | unconfirmed | inconclusive | error
        self.detail = ''
        self.viol = []            # (msg, replay path)
        self.notes = []
        self.vccs = 0
        self.discharged = 0
        self.funcs = set()
        self.solver_s = 0.0
        self.symex_s = 0.0
        self.wall = 0.0
        self.unwind = case.unwind
        self.witness_replayed = 0
        self.queries = 0
        self.vars = 0
        self.clauses = 0
        self.paths = 0
        self.unsat = 0
        self.memchecks = 0
        self.asserts = {}
        self.cached = 0


class Runner:
    def __init__(self, prop, cases, tier, jobs=8, seed=1, keep=False, verbose=False):
        self.prop = prop
        self.cases = cases
        self.tier = tier
        self.jobs = jobs
        self.seed = seed
        self.verbose = verbose
        self.tmp = tempfile.mkdtemp(prefix='vp-%s-' % prop)
        self.keep = keep
        self.objlock = threading.Lock()
        self.objs = {}
        self.procs = set()
        self.plock = threading.Lock()
        self.stop = False
        self.replaydir = os.path.join(VERIF, 'replays', prop)
        shutil.rmtree(self.replaydir, ignore_errors=True)
        budget = 800 if tier == 'quick' else 6 * 3600
        if os.environ.get('VP_BUDGET'):
            budget = int(os.environ['VP_BUDGET'])
        self.deadline = time.time() + budget

    # -- processes ---------------------------------------------------------
    def run(self, cmd, timeout, out=None, env=None, mem=None):
        if self.stop:
            raise InterruptedError
        timeout = min(timeout, max(1, self.deadline - time.time()))

        def pre():
            os.setsid()
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        so = open(out, 'wb') if out else subprocess.PIPE
        p = subprocess.Popen(cmd, stdout=so, stderr=subprocess.PIPE, env=env,
                             preexec_fn=pre, cwd=self.tmp, stdin=subprocess.DEVNULL)
        with self.plock:
            self.procs.add(p)
        try:
            o, e = p.communicate(timeout=timeout)
            return p.returncode, o or b'', e or b''
        except subprocess.TimeoutExpired:
            self.killp(p)
            p.communicate()
            return 'timeout', b'', b''
        finally:
            with self.plock:
                self.procs.discard(p)
            if out:
                so.close()

    def killp(self, p):
        try:
            os.killpg(p.pid, 9)
        except Exception:
            pass

    def killall(self):
        self.stop = True
        with self.plock:
            for p in list(self.procs):
                self.killp(p)

    # -- building ----------------------------------------------------------
    def obj(self, path, defs, typed, native):
        key = (path, tuple(defs), typed, native)
        with self.objlock:
            if key not in self.objs:
                self.objs[key] = [threading.Lock(), None]
            ent = self.objs[key]
        with ent[0]:
            if ent[1]:
                return ent[1]
            name = hashlib.sha1(repr(key).encode()).hexdigest()[:16]
            if native:
                out = os.path.join(self.tmp, name + '.o')
                cmd = ['gcc', '-std=gnu11', '-g', '-O1', '-fno-omit-frame-pointer', '-w',
                       '-fsanitize=address,undefined', '-fno-sanitize=alignment',
                       '-fno-sanitize-recover=undefined', '-ftrivial-auto-var-init=pattern'] + BASEDEFS + defs + INC
            else:
                out = os.path.join(self.tmp, name + '.gb')
                cmd = ['goto-cc', '-std=gnu11', '-w', '-DVP_CBMC'] + BASEDEFS + defs + INC
                if typed:
                    cmd += ['-include', os.path.join(HARN, 'vpmem.h')]
            rc, o, e = self.run(cmd + ['-c', path, '-o', out], 120)
            if rc != 0:
                raise RuntimeError('compile failed: %s\n%s' % (path, (o + e).decode(errors='replace')[:3000]))
            ent[1] = out
            return out

    def paths(self, c):
        harness = os.path.join(HARN, c.harness)
        repo = [os.path.join(REPO, SRC[s]) for s in c.srcs]
        stubs = [os.path.join(HARN, s) for s in c.stubs]
        return harness, repo, stubs

    def build_goto(self, c):
        harness, repo, stubs = self.paths(c)
        objs = [self.obj(harness, c.defs, c.typed_mem, False)]
        objs += [self.obj(p, c.repo_defs, c.typed_mem, False) for p in repo]
        objs += [self.obj(p, c.defs, c.typed_mem, False) for p in stubs]
        if c.typed_mem:
            objs.append(self.obj(os.path.join(HARN, 'vpmem.c'), c.defs, c.typed_mem, False))
        out = os.path.join(self.tmp, re.sub(r'\W', '_', c.name) + '.link.gb')
        rc, o, e = self.run(['goto-cc', '--function', 'main', '-o', out] + objs, 120)
        if rc != 0:
            raise RuntimeError('link failed: %s' % (o + e).decode(errors='replace')[:3000])
        return out

    # -- sx: symbolic execution of LLVM bitcode, Z3 ------------------------
    def bc(self, path, defs, repo):
        key = (path, tuple(defs), 'bc')
        with self.objlock:
            if key not in self.objs:
                self.objs[key] = [threading.Lock(), None]
            ent = self.objs[key]
        with ent[0]:
            if not ent[1]:
                out = os.path.join(self.tmp, hashlib.sha1(repr(key).encode()).hexdigest()[:16] + '.bc')
                cmd = ['clang', '-std=gnu11', '-g', '-O1', '-emit-llvm', '-c', '-w', '-DVP_SX',
                       '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fwrapv',
                       '-fno-strict-aliasing', '-fno-delete-null-pointer-checks', '-fno-jump-tables',
                       '-fno-stack-protector', '-fno-pic', '-fno-pie', '-U_FORTIFY_SOURCE', '-fno-builtin-printf']
                if repo:
                    cmd += ['-fsanitize=bounds', '-fsanitize-trap=bounds', '-ftrivial-auto-var-init=pattern']
                if path.endswith('libc_model.c'):
                    cmd += ['-fno-builtin', '-ffreestanding']
                rc, o, e = self.run(cmd + BASEDEFS + list(defs) + INC + [path, '-o', out], 120)
                if rc != 0:
                    raise RuntimeError('compile failed: %s\n%s' % (path, (o + e).decode(errors='replace')[:3000]))
                ent[1] = out
            return ent[1]

    def build_sx(self, c):
        harness, repo, stubs = self.paths(c)
        objs = [self.bc(harness, c.defs, False)]
        objs += [self.bc(p, c.repo_defs, True) for p in repo]
        objs += [self.bc(p, c.defs, False) for p in stubs]
        objs.append(self.bc(os.path.join(HARN, 'libc_model.c'), [], False))
        out = os.path.join(self.tmp, re.sub(r'\W', '_', c.name) + '.link.bc')
        rc, o, e = self.run(['llvm-link-18', '-o', out] + objs, 120)
        if rc != 0:
            raise RuntimeError('link failed: %s' % (o + e).decode(errors='replace')[:3000])
        return out

    def _sx(self, c, res):
        bcf = self.build_sx(c)
        tmo = max(5, min(c.timeout, self.deadline - time.time() - 5))
        mv = [] if self.tier != 'quick' or os.environ.get('VP_ALL') else ['--max-viol', '1']
        rc, o, e = self.run([SX, '--timeout', str(int(tmo)), '--max-steps', str(c.max_steps)] + mv + [bcf],
                            tmo + 60, mem=24 << 30)
        if self.stop:
            raise InterruptedError
        try:
            d = json.loads(o.decode())
        except Exception:
            res.status = 'error' if rc != 'timeout' else 'inconclusive'
            res.detail = 'sx rc=%s %s' % (rc, e.decode(errors='replace')[-600:])
            return
        res.queries += d['queries']
        res.solver_s += d['solver_s']
        res.paths = d['paths']
        res.unsat = d['unsat']
        res.symex_s += d['wall_s'] - d['solver_s']
        res.vccs = d['assert_instances'] + d['memchecks']
        res.asserts = d['asserts']
        res.cached = d.get('cached', 0)
        res.memchecks = d['memchecks']
        res.discharged = res.vccs
        for f in d['functions']:
            fl, _, fn = f.rpartition(':')
            if fl.startswith(REPO):
                res.funcs.add(os.path.basename(fl) + ':' + fn)
        unconf = []
        for i, v in enumerate(d['violations']):
            res.discharged -= 1
            rc, log = self.native(c, v['inputs'], re.sub(r'\W', '_', c.name) + '.%d' % i)
            what = '%s: %s [%s]' % (c.name, v['msg'], v['where'].replace(REPO + '/', ''))
            if rc in (77, 98, 99) or (isinstance(rc, int) and rc < 0) or rc == 'timeout':
                m = re.search(r'property violated: (.*)|(ERROR: AddressSanitizer: .*)|(runtime error: .*)', log)
                msg = m.group(0) if m else 'exit %s' % rc
                p = self.save_replay(c, v['inputs'], what + ' / native: ' + msg, log, 0)
                res.viol.append((what + ' | real code: ' + msg[:200], p))
            else:
                unconf.append('%s -> replay rc=%s %s' % (what, rc, log[-200:]))
        if res.viol:
            res.status = 'violation'
            return
        if unconf:
            res.status, res.detail = 'unconfirmed', '; '.join(unconf)[:1500]
            return
        if d['inconclusive']:
            res.status, res.detail = 'inconclusive', '; '.join(d['notes'])
            return
        if not d['complete']:
            res.status = 'partial'
            res.detail = 'time budget used up: %d paths decided, %d pending' % (d['paths'], d['pending'])
            return
        if not d['witnesses'] or d['unreached']:
            res.status = 'inconclusive'
            res.detail = 'vacuous: %d paths reached the end, unreached: %s' % (d['witnesses'], d['unreached'])
            return
        if (getattr(c, 'validate', False) or self.tier == 'thorough') and d['witness_inputs'] is not None:
            rc, log = self.native(c, d['witness_inputs'], re.sub(r'\W', '_', c.name) + '.wit')
            if rc == 0:
                res.witness_replayed += 1
            else:
                res.status = 'unconfirmed'
                res.detail = 'witness replay differs (rc=%s): %s' % (rc, log[-400:])
                return
        res.status = 'ok'

    def build_native(self, c):
        harness, repo, stubs = self.paths(c)
        objs = [self.obj(harness, c.defs, False, True)]
        objs += [self.obj(p, c.repo_defs, False, True) for p in repo]
        objs += [self.obj(p, c.defs, False, True) for p in stubs]
        objs.append(self.obj(os.path.join(HARN, 'vp_native.c'), [], False, True))
        out = os.path.join(self.tmp, re.sub(r'\W', '_', c.name) + '.native')
        rc, o, e = self.run(['gcc', '-fsanitize=address,undefined', '-o', out] + objs, 120)
        if rc != 0:
            raise RuntimeError('native link failed: %s' % (o + e).decode(errors='replace')[:3000])
        return out

    def exported(self, c, res):
        """The harness, which uses the public interface only, links against
        the library as it is built: with hidden visibility."""
        harness, repo, stubs = self.paths(c)
        lib = os.path.join(self.tmp, 'libtsm-shared.so')
        sym = os.path.join(REPO, 'src/tsm/libtsm.sym')
        rc, o, e = self.run(['gcc', '-std=gnu11', '-w', '-shared', '-fPIC', '-fvisibility=hidden', '-o', lib] +
                            (['-Wl,--version-script=' + sym] if os.path.exists(sym) else []) + BASEDEFS + INC + repo, 300)
        if rc != 0:
            res.notes.append('shared library not built: ' + e.decode(errors='replace')[-400:])
            return
        rc, o, e = self.run(['gcc', '-std=gnu11', '-w', '-o', lib + '.exe'] + BASEDEFS + c.defs + INC +
                            [harness, os.path.join(HARN, 'vp_native.c'), lib], 300)
        miss = sorted(set(re.findall(r'undefined reference to .(tsm_\w+)', e.decode(errors='replace'))))
        if miss:
            what = '%s: public functions missing from the shared library: %s' % (c.name, ' '.join(miss))
            res.viol.append((what, self.save_replay(c, [0] * 64, what, e.decode(errors='replace'), 0)))
            res.status = 'violation'

    # -- solving -----------------------------------------------------------
    def cbmc(self, c, gb, unwind, extra, timeout):
        cmd = ['cbmc', gb, '--unwind', str(unwind), '--unwinding-assertions',
               '--drop-unused-functions', '--json-ui', '--verbosity', '8',
               '--object-bits', '10']
        for u in c.unwindset:
            cmd += ['--unwindset', u]
        if not c.malloc_fail:
            cmd += ['--no-malloc-may-fail']
        else:
            cmd += ['--malloc-fail-null']
        if not c.checks:
            cmd += ['--no-standard-checks']
        if c.sat:
            cmd += ['--sat-solver', c.sat]
        cmd += c.extra + extra
        out = os.path.join(self.tmp, '%s.%d.json' % (re.sub(r'\W', '_', c.name), threading.get_ident()))
        rc, o, e = self.run(cmd, timeout, out=out, mem=14 << 30)
        if rc == 'timeout':
            return None, 'timeout after %ds' % timeout
        try:
            with open(out) as f:
                data = json.load(f)
        except Exception as ex:
            return None, 'cbmc gave no usable output (rc=%s): %s' % (rc, e.decode(errors='replace')[-500:])
        os.unlink(out)
        if rc not in (0, 10):
            msgs = [m.get('messageText', '') for m in data if m.get('messageType') == 'ERROR']
            return None, 'cbmc error rc=%s %s' % (rc, ' | '.join(msgs)[:800])
        return data, ''

    @staticmethod
    def kind(r):
        d = r.get('description', '')
        p = r.get('property', '')
        if d.startswith('VPWITNESS'):
            return 'witness'
        if d.startswith('VPBOUND'):
            return 'bound'
        if d.startswith('VP '):
            return 'vp'
        if '.unwind.' in p or '.recursion' in p or 'unwinding assertion' in d:
            return 'unwind'
        if '.no-body.' in p:
            return 'nobody'
        return 'std'

    def inputs(self, trace):
        vals = []
        for s in trace:
            if s.get('stepType') == 'input' and s.get('inputID') == 'vp':
                v = s['values'][0]
                vals.append(int(v['binary'], 2) if 'binary' in v else int(re.sub(r'\D', '', v['data']) or 0))
        return vals

    def trace_for(self, c, gb, unwind, propid):
        data, err = self.cbmc(c, gb, unwind, ['--property', propid, '--trace'],
                              max(c.timeout, 300))
        if data is None:
            return None
        for m in data:
            for r in m.get('result', []):
                if r.get('trace') and r.get('status') == 'FAILURE':
                    return self.inputs(r['trace'])
        return None

    def native(self, c, vals, tag):
        exe = self.build_native(c)
        vf = os.path.join(self.tmp, tag + '.vals')
        with open(vf, 'w') as f:
            f.write('\n'.join(map(str, vals)) + '\n')
        env = dict(os.environ, VP_REPLAY=vf,
                   ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1:malloc_fill_byte=190:max_malloc_fill_size=100000000',
                   UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=98')
        rc, o, e = self.run([exe], 60, env=env)
        return rc, (e + o).decode(errors='replace')

    def save_replay(self, c, vals, what, log, unwind):
        os.makedirs(self.replaydir, exist_ok=True)
        h = hashlib.sha1((c.name + what + repr(vals)).encode()).hexdigest()[:10]
        p = os.path.join(self.replaydir, '%s-%s.json' % (re.sub(r'\W+', '_', c.name), h))
        with open(p, 'w') as f:
            json.dump({'property': self.prop, 'case': c.name, 'what': what,
                       'harness': c.harness, 'defs': c.defs, 'sources': c.srcs,
                       'unwind': unwind, 'values': vals, 'native_log': log[-4000:],
                       'how': 'python3 %s/vp/replay.py %s' % (VERIF, p)}, f, indent=1)
        return p

    def one(self, c):
        res = Res(c)
        t0 = time.time()
        try:
            self._one(c, res)
            if c.engine == 'cbmc' and res.status in ('inconclusive', 'unconfirmed', 'error') and not self.stop:
                # beyond CBMC's unwinding or library: let the executor decide it
                note = 'cbmc: %s %s' % (res.status, res.detail[:300])
                c = copy.copy(c)
                c.engine = 'sx'
                res = Res(c)
                res.notes.append(note)
                self._one(c, res)
            if c.shared and res.status == 'ok':
                self.exported(c, res)
        except InterruptedError:
            res.status, res.detail = 'skipped', 'stopped'
        except Exception as ex:
            res.status, res.detail = 'error', '%s: %s' % (type(ex).__name__, ex)
        res.wall = time.time() - t0
        if self.verbose:
            print('  [%s] %-40s %-12s %6.1fs vccs=%d vars=%d paths=%d q=%d solver=%.1fs %s' % (
                self.prop, c.name, res.status, res.wall, res.vccs, res.vars, res.paths, res.queries, res.solver_s,
                res.detail[:300]), flush=True)
        return res

    def _one(self, c, res):
        if c.engine == 'sx':
            return self._sx(c, res)
        gb = self.build_goto(c)
        unwind = c.unwind
        while True:
            res.unwind = unwind
            data, err = self.cbmc(c, gb, unwind, ['--slice-formula'], c.timeout)
            if data is None:
                if self.stop:
                    raise InterruptedError
                res.status, res.detail = 'inconclusive', err
                return
            results = []
            for m in data:
                results += m.get('result', [])
                t = m.get('messageText', '')
                mm = re.match(r'Runtime Symex: ([\d.e+-]+)s', t)
                if mm:
                    res.symex_s += float(mm.group(1))
                mm = re.match(r'Runtime decision procedure: ([\d.e+-]+)s', t)
                if mm:
                    res.solver_s += float(mm.group(1))
                mm = re.match(r'Runtime Solver: ([\d.e+-]+)s', t)
                if mm:
                    res.queries += 1
                mm = re.match(r'(\d+) variables, (\d+) clauses', t)
                if mm:
                    res.vars = max(res.vars, int(mm.group(1)))
                    res.clauses = max(res.clauses, int(mm.group(2)))
            bad, unknown = {}, None
            for r in results:
                k = self.kind(r)
                loc = r.get('sourceLocation', {})
                if k in ('vp', 'std', 'unwind') :
                    fn, fl = loc.get('function'), loc.get('file', '')
                    if fl.startswith(REPO) and fn:
                        res.funcs.add(os.path.basename(fl) + ':' + fn)
                if r['status'] == 'FAILURE':
                    bad.setdefault(k, []).append(r)
                elif r['status'] not in ('SUCCESS',):
                    unknown = r['status']
            if unknown and not bad.get('vp') and not bad.get('std'):
                res.status, res.detail = 'inconclusive', 'property status ' + unknown
                return
            goals = [r for r in results if self.kind(r) in ('vp', 'std')]
            res.vccs = len(goals)
            res.discharged = sum(1 for r in goals if r['status'] == 'SUCCESS')
            if bad.get('nobody') and not bad.get('vp') and not bad.get('std'):
                res.status = 'inconclusive'
                res.detail = 'no body: ' + ', '.join(sorted({r['description'] for r in bad['nobody']}))
                return
            if bad.get('nobody'):
                res.notes.append('no body: ' + ', '.join(sorted({r['description'] for r in bad['nobody']})))
            if not bad.get('vp') and not bad.get('std'):
                if bad.get('unwind') or bad.get('bound'):
                    why = [r['property'] + ' ' + r['description'] for r in bad.get('unwind', []) + bad.get('bound', [])]
                    if bad.get('unwind') and unwind < c.max_unwind:
                        unwind = min(c.max_unwind, unwind * 2)
                        continue
                    res.status, res.detail = 'inconclusive', 'bound too small: ' + '; '.join(why)[:600]
                    return
                wit = [r for r in results if self.kind(r) == 'witness']
                missing = [r for r in wit if r['status'] != 'FAILURE']
                if not wit or missing:
                    res.status = 'inconclusive'
                    res.detail = 'vacuous: witness not reachable: ' + '; '.join(r['description'] for r in missing)
                    return
                if getattr(c, 'validate', False) or self.tier == 'thorough':
                    w = [r for r in wit if r['description'].endswith('end of harness reached')]
                    if w:
                        vals = self.trace_for(c, gb, unwind, w[0]['property'])
                        if vals is not None:
                            rc, log = self.native(c, vals, re.sub(r'\W', '_', c.name) + '.wit')
                            if rc == 0:
                                res.witness_replayed += 1
                            else:
                                res.notes.append('witness replay differs (rc=%s): %s' % (rc, log[-300:]))
                res.status = 'ok'
                return
            # counterexamples: replay natively
            cand = bad.get('vp', []) + bad.get('std', [])
            tried = 0
            unconf = []
            for r in cand:
                if tried >= 6:
                    break
                tried += 1
                vals = self.trace_for(c, gb, unwind, r['property'])
                if vals is None:
                    unconf.append((r, 'no trace'))
                    continue
                rc, log = self.native(c, vals, re.sub(r'\W', '_', c.name) + '.%d' % tried)
                loc = r.get('sourceLocation', {})
                what = '%s: %s [%s:%s %s]' % (c.name, r['description'].replace('VP ', '', 1),
                                              os.path.basename(loc.get('file', '?')), loc.get('line', '?'),
                                              loc.get('function', '?'))
                if rc in (77, 98, 99) or (isinstance(rc, int) and rc < 0) or rc == 'timeout':
                    m = re.search(r'property violated: (.*)|(ERROR: AddressSanitizer: .*)|(runtime error: .*)', log)
                    native_msg = m.group(0) if m else 'exit %s' % rc
                    p = self.save_replay(c, vals, what + ' / native: ' + native_msg, log, unwind)
                    res.viol.append((what + ' | real code: ' + native_msg[:200], p))
                    break
                unconf.append((r, 'replay rc=%s %s' % (rc, log[-200:])))
            if res.viol:
                res.status = 'violation'
                return
            onlystd = all(self.kind(r) == 'std' for r, _ in unconf) and not bad.get('vp')
            txt = '; '.join('%s %s (%s:%s) -> %s' % (r['property'], r['description'],
                            os.path.basename(r.get('sourceLocation', {}).get('file', '?')),
                            r.get('sourceLocation', {}).get('line', '?'), w) for r, w in unconf)
            if onlystd and tried == len(cand):
                # standard-level undefined behaviour no sanitizer confirms (for
                # example forming a pointer outside an object): reported, not a violation
                res.notes.append('unconfirmed UB: ' + txt[:1500])
                if not bad.get('unwind') and not bad.get('bound'):
                    res.status = 'ok'
                    return
                if bad.get('unwind') and unwind < c.max_unwind:
                    unwind = min(c.max_unwind, unwind * 2)
                    continue
            res.status, res.detail = 'unconfirmed', txt[:1500]
            return

    def main(self):
        t0 = time.time()
        results = []
        try:
            with cf.ThreadPoolExecutor(self.jobs) as ex:
                futs = [ex.submit(self.one, c) for c in self.cases]
                for f in cf.as_completed(futs):
                    r = f.result()
                    results.append(r)
                    if r.status == 'violation' and self.tier == 'quick' and not os.environ.get('VP_ALL'):
                        self.killall()
        finally:
            if not self.keep:
                shutil.rmtree(self.tmp, ignore_errors=True)
        wall = time.time() - t0
        return results, wall


def known_findings(prop):
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                m = re.match(r'finding: property=(\S+) case=(\S+) (.*)', line)
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return out


def check(prop, spec, tier, verbose=False, only=None, keep=False):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cases = [c for c in spec['cases'](tier)]
    if only:
        cases = [c for c in cases if re.search(only, c.name)]
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), 'duplicate case names'
    seen = set()
    for c in cases:
        if c.harness not in seen:
            seen.add(c.harness)
            c.validate = True
    order = sorted(cases, key=lambda c: -getattr(c, 'cost', 0))
    if cases:
        b = subprocess.run(['bash', os.path.join(VERIF, 'engine', 'build.sh')], capture_output=True)
        if b.returncode:
            print('NOT DECIDED property=%s cannot build sx: %s' % (prop, b.stderr.decode()[-1500:]))
            return 2
    jobs = int(os.environ.get('VP_JOBS', '8'))
    r = Runner(prop, order, tier, jobs=jobs, seed=seed, keep=keep, verbose=verbose)
    results, wall = r.main()

    known = known_findings(prop)
    viol, knownhits = [], []
    for x in results:
        for what, path in x.viol:
            hit = [k for k in known if k[0] == x.case.name]
            if hit:
                knownhits.append((x, hit[0][1]))
            else:
                viol.append((what, path))
    for cn, txt in known:
        if any(x.case.name == cn for x, _ in knownhits):
            print('KNOWN-FINDING: property=%s %s' % (prop, txt))
        elif any(x.case.name == cn for x in results):
            print('note: known finding no longer reproduces: %s %s' % (prop, txt))
    broken = [x for x in results if x.status in ('error', 'inconclusive', 'unconfirmed')]
    okc = [x for x in results if x.status == 'ok']
    funcs = sorted(set().union(*[x.funcs for x in results])) if results else []
    obligations = sum(x.vccs for x in results)
    discharged = sum(x.discharged for x in results)
    partial = [x for x in results if x.status == 'partial']
    samples = []
    for x in sorted(results, key=lambda x: x.case.name)[:400]:
        d = {'case': x.case.name, 'what': x.case.what, 'engine': x.case.engine, 'defines': x.case.defs,
             'status': x.status, 'wall_s': round(x.wall, 2), 'solver_s': round(x.solver_s, 2), 'queries': x.queries}
        if x.case.engine == 'sx':
            d.update(paths=x.paths, memory_accesses_decided=x.memchecks, assertions=x.asserts)
        else:
            d.update(unwind=x.unwind, assertions=x.vccs, sat_vars=x.vars)
        samples.append(d)
    engines = {x.case.engine for x in results}
    method = ''
    if 'sx' in engines:
        method += (' Method (sx): the LLVM bitcode of the real sources, compiled from the working tree on this run, is '
                   'executed symbolically; Z3 decides every branch on symbolic data, every assertion and every '
                   'memory access on every path, all paths within the bounds are followed to the end of the harness, '
                   'and a witness path is required for each vp_reach point.')
    if 'cbmc' in engines:
        method += (' Method (CBMC 6.11): the real sources, re-encoded from the working tree on this run, one SAT query '
                   'per case over all symbolic inputs, with unwinding assertions and a reachability witness.')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'other'),
        'wall_s': round(wall, 2), 'violations': len(viol),
        'coverage': {
            'explanation': spec['explanation'] + method,
            'bounds': spec['bounds'],
            'outside_the_claim': spec['outside'],
            'functions_encoded': funcs,
            'cases': len(results), 'cases_held': len(okc),
            'cases_vacuity_checked': len(okc), 'cases_partly_explored': len(partial),
            'obligations': obligations, 'discharged': discharged,
            'solver_queries': sum(x.queries for x in results),
            'solver_queries_answered_from_cache': sum(x.cached for x in results),
            'paths_followed': sum(x.paths for x in results),
            'memory_accesses_decided': sum(x.memchecks for x in results),
            'solver_time_s': round(sum(x.solver_s for x in results), 2),
            'symex_time_s': round(sum(x.symex_s for x in results), 2),
            'witness_traces_replayed_on_real_code': sum(x.witness_replayed for x in results),
            'known_findings_seen': len(knownhits),
            'notes': sorted({n for x in results for n in x.notes})[:40],
            'not_decided': [{'case': x.case.name, 'why': x.detail[:600]} for x in broken + partial],
            'samples': samples,
        },
        'assumptions': spec['assumptions'],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %d held, %d obligations (%d discharged), %d queries, solver %.1fs, wall %.1fs' % (
        prop, tier, len(results), len(okc), obligations, discharged,
        ev['coverage']['solver_queries'], ev['coverage']['solver_time_s'], wall))
    if viol:
        for what, path in viol:
            print('  ' + what)
        print('VIOLATION property=%s replay=%s' % (prop, viol[0][1]))
        return 1
    for x in partial:
        print('PARTIAL property=%s case=%s %s' % (prop, x.case.name, x.detail[:300]))
    if broken:
        for x in broken:
            print('NOT DECIDED property=%s case=%s status=%s %s' % (prop, x.case.name, x.status, x.detail[:1200]))
        return 2
    return 0
